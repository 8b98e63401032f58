// C28: built-in script kinds are bound member by member. The table in bind.inc says which field each member means;
// random layouts of the script kinds are encoded, initialised and read by byte code and compared with the fields.
#include "vmref.hh"
#include <zenkit/DaedalusVm.hh>
#include <zenkit/addon/daedalus.hh>
#undef var
#undef string
#undef func

using namespace vp;
using namespace zenkit;

namespace {
	struct Cell { u32 type = T_INT; i32 i = 0; float f = 0; std::string s;
		std::string show() const { return type == T_STRING ? "'" + esc(s) + "'" : type == T_FLOAT ? fmt("%a", static_cast<double>(f)) : fmt("%d", i); } };
	struct Entry {
		char const *cls, *mem, *field, *group;
		u32 type, n;
		bool fn;
		std::function<Cell(DaedalusInstance*, u32)> get;
		std::function<void(DaedalusInstance*, u32, Cell const&)> set;
	};
	struct Class { char const* name; std::function<std::shared_ptr<DaedalusInstance>()> make; std::function<void(DaedalusVm&, std::shared_ptr<DaedalusInstance>, DaedalusSymbol*)> init; std::vector<u32> entries; };
	std::vector<Entry> table;
	std::vector<Class> kinds;

	template <class T> Cell to(T const& x) {
		Cell v;
		if constexpr (std::is_same_v<T, std::string>) v.type = T_STRING, v.s = x;
		else if constexpr (std::is_same_v<T, float>) v.type = T_FLOAT, v.f = x;
		else v.i = static_cast<i32>(x);
		return v;
	}
	template <class T> void from(T& x, Cell const& v) {
		if constexpr (std::is_same_v<T, std::string>) x = v.s;
		else if constexpr (std::is_same_v<T, float>) x = v.f;
		else { static_assert(sizeof(T) == 4); x = static_cast<T>(v.i); }
	}
	template <class C, class T> void fill(Entry& e, T C::*f) {
		if constexpr (std::is_array_v<T>) {
			e.n = std::extent_v<T>, e.type = to(std::remove_extent_t<T> {}).type;
			e.get = [f](DaedalusInstance* o, u32 x) { return to((static_cast<C*>(o)->*f)[x]); };
			e.set = [f](DaedalusInstance* o, u32 x, Cell const& v) { from((static_cast<C*>(o)->*f)[x], v); };
		} else {
			e.n = 1, e.type = to(T {}).type;
			e.get = [f](DaedalusInstance* o, u32) { return to(static_cast<C*>(o)->*f); };
			e.set = [f](DaedalusInstance* o, u32, Cell const& v) { from(static_cast<C*>(o)->*f, v); };
		}
	}
	template <class C> void add(char const* cls, Entry e) {
		if (kinds.empty() || std::strcmp(kinds.back().name, cls) != 0)
			kinds.push_back({cls, [] { return std::make_shared<C>(); }, [](DaedalusVm& vm, std::shared_ptr<DaedalusInstance> o, DaedalusSymbol* s) { vm.init_instance<C>(std::static_pointer_cast<C>(o), s); }, {}});
		kinds.back().entries.push_back(static_cast<u32>(table.size()));
		if (e.fn) e.type = T_FUNC;
		table.push_back(std::move(e));
	}

	struct Mem { u32 entry, sym, count, type; };
	struct Layout { u32 cls, sym; std::vector<Mem> mems; u32 inst[2], rd; };
}

void vp_init() {
#define M(c, m, st, f, isfn, g) { Entry e {c, m, #f, g, 0, 0, isfn != 0, {}, {}}; fill(e, &st::f); add<st>(c, e); }
#include "bind.inc"
#undef M
}

void vp_case(Rng& r, u64 n) {
	std::vector<RSym> t;
	std::string code;
	auto add = [&](RSym s) { t.push_back(std::move(s)); return static_cast<u32>(t.size()) - 1; };
	auto op = [&](u8 o) { code.push_back(static_cast<char>(o)); };
	auto arg = [&](u32 v) { for (int k = 0; k < 4; ++k) code.push_back(static_cast<char>(v >> (8 * k))); };
	auto op4 = [&](u8 o, u32 v) { op(o), arg(v); };
	for (u32 k = r.below(4); k > 0; --k) { RSym s; s.name = fmt("PAD%u", k), s.i = {1}; add(s); }

	// the native functions which record what the script reads
	u32 got[3];
	for (u32 k = 0; k < 3; ++k) {
		RSym s;
		s.name = fmt("GOT%u", k), s.type = T_FUNC, s.count = 1, s.vary = T_VOID, s.flags = F_CONST | F_EXTERNAL, s.value = -1;
		got[k] = add(s);
		RSym p;
		p.name = s.name + ".P", p.type = k == 0 ? T_INT : k == 1 ? T_FLOAT : T_STRING, p.count = 1, p.value = -1;
		if (k == 0) p.i = {0}; else if (k == 1) p.f = {0}; else p.s = {""};
		add(p);
	}
	// a layout of a random selection of the kinds
	std::vector<Layout> ls;
	bool all = r.chance(20);
	std::string sig;
	for (u32 c = 0; c < kinds.size(); ++c) {
		if (!all && c != n % kinds.size() && r.chance(70)) continue;
		auto& cl = kinds[c];
		Layout l {c, 0, {}, {}, 0};
		RSym s;
		s.name = cl.name, s.type = T_CLASS, s.value = 0, s.vary = 1000;
		l.sym = add(s);
		std::map<std::string, bool> groups;
		u32 offset = 0;
		for (auto k : cl.entries) {
			auto& e = table[k];
			std::string g = e.group;
			if (g == "opt" ? r.chance(30) : !g.empty() && !(groups.count(g) ? groups[g] : (groups[g] = r.flip()))) continue;
			u32 count = e.n > 1 && r.chance(40) ? 1 + r.below(e.n) : e.n;
			RSym m;
			m.name = fmt("%s.%s", cl.name, e.mem), m.type = e.type, m.count = count, m.flags = F_MEMBER, m.parent = static_cast<i32>(l.sym), m.value = static_cast<i32>(offset);
			offset += 4 * count;
			l.mems.push_back({k, add(m), count, e.type});
			sig += fmt("%u/%u,", k, count);
		}
		// members the library knows nothing about
		if (r.chance(40)) {
			RSym m;
			m.name = fmt("%s.OWN_%s", cl.name, r.name(6).c_str()), m.type = T_INT, m.count = 1 + r.below(3), m.flags = F_MEMBER, m.parent = static_cast<i32>(l.sym), m.value = static_cast<i32>(offset);
			for (auto& ch : m.name) ch = static_cast<char>(toupper(ch));
			add(m);
			count("members without a field");
		}
		t[l.sym].count = static_cast<u32>(l.mems.size());
		ls.push_back(l);
		count(std::string("class ") + cl.name);
	}
	state(fnv(sig));
	bool refuse = r.chance(12);
	std::string why;
	if (refuse) {
		auto& l = r.pick(ls);
		auto& m = r.pick(l.mems);
		auto& s = t[m.sym];
		if (r.flip()) s.count = table[m.entry].n + 1 + r.below(3), why = "too many elements";
		else {
			u32 old = s.type;
			do s.type = r.pick<u32>({T_INT, T_FLOAT, T_STRING}); while (s.type == old || (old == T_FUNC && s.type == T_INT));
			why = "wrong type";
		}
		why += " in " + s.name;
	}

	// code: one initialiser per instance and one reader per class
	u64 unique = 0;
	auto value = [&](u32 type) {
		Cell v;
		v.type = type;
		++unique;
		if (type == T_STRING) v.s = fmt("text %llu %s", static_cast<unsigned long long>(unique), r.name(10).c_str());
		else if (type == T_FLOAT) v.f = static_cast<float>(unique) + 0.25f;
		else v.i = static_cast<i32>(unique * 2654435761u);
		return v;
	};
	auto push_member = [&](u32 sym, u32 x) {
		if (x == 0 && r.chance(60)) op4(65, sym);
		else op4(245, sym), op(static_cast<u8>(x));
	};
	struct Fields { std::vector<std::vector<Cell>> v; };
	auto expect = [&](Layout const& l) { Fields f; for (auto k : kinds[l.cls].entries) f.v.emplace_back(table[k].n); return f; };
	struct Inst { Fields before, after; };
	std::vector<std::array<Inst, 2>> insts(ls.size());
	for (u32 c = 0; c < ls.size(); ++c) {
		auto& l = ls[c];
		auto& es = kinds[l.cls].entries;
		for (u32 k = 0; k < 2; ++k) {
			RSym s;
			s.name = fmt("INST_%s_%u", kinds[l.cls].name, k), s.type = T_INST, s.flags = F_CONST, s.parent = static_cast<i32>(l.sym), s.count = 0;
			l.inst[k] = add(s);
		}
		for (u32 k = 0; k < 2; ++k) {
			t[l.inst[k]].value = static_cast<i32>(code.size());
			auto& in = insts[c][k];
			in.before = expect(l);
			for (u32 q = 0; q < es.size(); ++q) for (u32 x = 0; x < table[es[q]].n; ++x) in.before.v[q][x] = value(table[es[q]].type);
			in.after = in.before;
			std::vector<std::pair<u32, u32>> todo;
			for (u32 m = 0; m < l.mems.size(); ++m) for (u32 x = 0; x < l.mems[m].count; ++x) if (!r.chance(10)) todo.push_back({m, x});
			for (u32 q = static_cast<u32>(todo.size()); q > 1; --q) std::swap(todo[q - 1], todo[r.below(q)]);
			for (auto [m, x] : todo) {
				auto& me = l.mems[m];
				auto v = value(me.type);
				if (me.type == T_INT || me.type == T_FUNC) op4(64, static_cast<u32>(v.i));
				else {
					RSym lit;
					lit.name = fmt("\xFF%zu", 10000 + t.size()), lit.type = me.type, lit.count = 1, lit.flags = F_CONST, lit.value = -1;
					if (me.type == T_STRING) lit.s = {v.s}; else lit.f = {v.f};
					op4(65, add(lit));
				}
				push_member(me.sym, x);
				op(me.type == T_INT ? 9 : me.type == T_FLOAT ? 73 : me.type == T_STRING ? 70 : 72);
				in.after.v[static_cast<u32>(std::find(es.begin(), es.end(), me.entry) - es.begin())][x] = v;
			}
			op(60);
		}
		RSym f;
		f.name = fmt("RD_%s", kinds[l.cls].name), f.type = T_FUNC, f.count = 0, f.vary = T_VOID, f.flags = F_CONST, f.value = static_cast<i32>(code.size());
		l.rd = add(f);
		for (u32 k = 0; k < 2; ++k) for (auto& m : l.mems) for (u32 x = 0; x < m.count; ++x) {
			op4(80, l.inst[k]);
			push_member(m.sym, x);
			op4(62, got[m.type == T_STRING ? 2 : m.type == T_FLOAT ? 1 : 0]);
		}
		op(60);
	}

	label("load");
	auto bytes = encode_dat(t, code);
	auto rd = mem(bytes);
	DaedalusScript script;
	script.load(rd.get());
	DaedalusVm vm(std::move(script));
	label("register " + why);
	if (refuse) {
		bool refused = false;
		try { register_all_script_classes(vm); } catch (DaedalusScriptError const&) { refused = true; }
		VP_CHECK(refused, "mismatch-accepted:" + why.substr(0, 10), "%s", why.c_str());
		count("layouts refused: " + why.substr(0, 10));
		return;
	}
	register_all_script_classes(vm);
	count("layouts registered");
	std::vector<Cell> seen;
	vm.register_external("GOT0", [&](i32 v) { seen.push_back(to(v)); });
	vm.register_external("GOT1", [&](float v) { seen.push_back(to(v)); });
	vm.register_external("GOT2", [&](std::string_view v) { seen.push_back(to(std::string(v))); });

	u64 compared = 0;
	auto check = [&](Layout const& l, DaedalusInstance* o, Fields const& want, char const* what) {
		auto& es = kinds[l.cls].entries;
		for (u32 q = 0; q < es.size(); ++q) for (u32 x = 0; x < table[es[q]].n; ++x) {
			auto& e = table[es[q]];
			auto g = e.get(o, x);
			auto w = want.v[q][x];
			w.type = g.type;
			VP_CHECK(g.show() == w.show() && g.s == w.s, fmt("field:%s.%s", e.cls, e.mem), "%s: %s[%u] is %s, expected %s", what, e.field, x, g.show().c_str(), w.show().c_str());
			++compared;
		}
	};
	std::vector<std::array<std::shared_ptr<DaedalusInstance>, 2>> objs(ls.size());
	auto put = [&](Layout const& l, DaedalusInstance* o, Fields const& f) {
		auto& es = kinds[l.cls].entries;
		for (u32 q = 0; q < es.size(); ++q) for (u32 x = 0; x < table[es[q]].n; ++x) table[es[q]].set(o, x, f.v[q][x]);
	};
	for (u32 c = 0; c < ls.size(); ++c) for (u32 k = 0; k < 2; ++k) objs[c][k] = kinds[ls[c].cls].make(), put(ls[c], objs[c][k].get(), insts[c][k].before);
	for (u32 k = 0; k < 2; ++k) for (u32 c = 0; c < ls.size(); ++c) {
		auto& l = ls[c];
		auto& cl = kinds[l.cls];
		label(fmt("%s %u", cl.name, k));
		cl.init(vm, objs[c][k], vm.find_symbol_by_index(l.inst[k]));
		for (u32 q = 0; q < 2; ++q) check(l, objs[c][q].get(), q <= k ? insts[c][q].after : insts[c][q].before, q == k ? "initialised by the script" : "the other instance");
	}
	// reading, and writing through the symbols
	for (u32 c = 0; c < ls.size(); ++c) {
		auto& l = ls[c];
		auto& cl = kinds[l.cls];
		label(std::string("read ") + cl.name);
		auto& es = cl.entries;
		auto index = [&](u32 e) { return static_cast<u32>(std::find(es.begin(), es.end(), e) - es.begin()); };
		for (u32 round = 0; round < 2; ++round) {
			seen.clear();
			vm.call_function<void>(vm.find_symbol_by_index(l.rd));
			u32 at = 0;
			for (u32 k = 0; k < 2; ++k) for (auto& m : l.mems) for (u32 x = 0; x < m.count; ++x) {
				VP_CHECK(at < seen.size(), "reads", "%s: %zu values read", cl.name, seen.size());
				auto w = insts[c][k].after.v[index(m.entry)][x];
				auto& g = seen[at++];
				w.type = g.type;
				VP_CHECK(g.show() == w.show() && g.s == w.s, fmt("read:%s.%s", cl.name, table[m.entry].mem), "%s[%u] is %s for the script, expected %s", table[m.entry].field, x, g.show().c_str(), w.show().c_str());
				++compared;
				auto* s = vm.find_symbol_by_index(m.sym);
				auto* o = objs[c][k].get();
				auto direct = m.type == T_STRING ? to(s->get_string(static_cast<u16>(x), o)) : m.type == T_FLOAT ? to(s->get_float(static_cast<u16>(x), o)) : to(s->get_int(static_cast<u16>(x), o));
				VP_CHECK(direct.show() == w.show() && direct.s == w.s, fmt("symbol:%s.%s", cl.name, table[m.entry].mem), "%s[%u] is %s through its symbol, expected %s", table[m.entry].field, x, direct.show().c_str(), w.show().c_str());
			}
			VP_CHECK(at == seen.size(), "reads", "%s: %zu values read, expected %u", cl.name, seen.size(), at);
			// native code changes all fields, then a few members through the symbols
			for (u32 k = 0; k < 2; ++k) {
				auto& f = insts[c][k].after;
				for (u32 q = 0; q < es.size(); ++q) for (u32 x = 0; x < table[es[q]].n; ++x) f.v[q][x] = value(table[es[q]].type);
				put(l, objs[c][k].get(), f);
				for (u32 z = 0; z < 5; ++z) {
					auto& m = r.pick(l.mems);
					u32 x = r.below(m.count);
					auto v = value(m.type);
					auto* s = vm.find_symbol_by_index(m.sym);
					auto* o = objs[c][k].get();
					if (m.type == T_STRING) s->set_string(v.s, static_cast<u16>(x), o);
					else if (m.type == T_FLOAT) s->set_float(v.f, static_cast<u16>(x), o);
					else s->set_int(v.i, static_cast<u16>(x), o);
					f.v[index(m.entry)][x] = v;
				}
			}
			for (u32 k = 0; k < 2; ++k) check(l, objs[c][k].get(), insts[c][k].after, "written through symbols");
		}
	}
	count("values compared", compared);
	sample(fmt("%zu kinds, %zu symbols, %zu bytes of code", ls.size(), t.size(), code.size()));
}
