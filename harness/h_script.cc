// C18: compiled scripts. An independent encoder writes random symbol tables and code; the loaded script is compared
// symbol by symbol, every lookup is compared with a table model, every kind of value access with the documented rules.
#include "datref.hh"
#include <zenkit/DaedalusScript.hh>
#include <zenkit/DaedalusVm.hh>
#include <zenkit/Logger.hh>

using namespace vp;
using namespace zenkit;

void vp_init() { Logger::set(LogLevel::ERROR, [](LogLevel, char const*, char const*) {}); }

namespace {
	enum class Choice : u32 { A, B };
	struct Native : DaedalusInstance {
		i32 head = 0x11111111;
		i32 one = 0;
		i32 many[7] {};
		i32 mid = 0x22222222;
		float real = 0;
		float reals[5] {};
		std::string text;
		std::string texts[4];
		i32 fn = 0;
		Choice e = Choice::A;
		i32 tail = 0x33333333;
	};
	struct Other : DaedalusInstance { i32 one = 0; };
	struct Transient : DaedalusTransientInstance {
		mutable std::vector<std::string> log;
		std::string s = "transient";
		static std::string key(char const* k, DaedalusSymbol const& y, u16 x) { return fmt("%s %u[%u]", k, y.index(), x); }
		void set_int(DaedalusSymbol const& y, u16 x, i32 v) override { log.push_back(key("si", y, x) + fmt("=%d", v)); }
		i32 get_int(DaedalusSymbol const& y, u16 x) const override { log.push_back(key("gi", y, x)); return 4711; }
		void set_float(DaedalusSymbol const& y, u16 x, float v) override { log.push_back(key("sf", y, x) + fmt("=%g", static_cast<double>(v))); }
		float get_float(DaedalusSymbol const& y, u16 x) const override { log.push_back(key("gf", y, x)); return 2.5f; }
		void set_string(DaedalusSymbol const& y, u16 x, std::string_view v) override { log.push_back(key("ss", y, x) + "=" + std::string(v)); }
		std::string const& get_string(DaedalusSymbol const& y, u16 x) const override { log.push_back(key("gs", y, x)); return s; }
	};

	std::string upper(Rng& r, u32 n) {
		static char const A[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_";
		std::string s(1, A[r.below(26)]);
		for (u32 k = 1 + r.below(n); k > 0; --k) s.push_back(A[r.below(sizeof A - 1)]);
		return s;
	}
	std::string text(Rng& r) {
		std::string s;
		u32 n = r.chance(10) ? r.below(400) : r.below(14);
		for (u32 k = 0; k < n; ++k) switch (r.below(8)) {
			case 0: s += "\\n"; break;
			case 1: s += "\\t"; break;
			case 2: s += "\\"; break;
			case 3: { u32 c = 1 + r.below(255); s.push_back(c == '\n' || c == '\r' ? ' ' : static_cast<char>(c)); break; }
			default: s.push_back(static_cast<char>('!' + r.below(90)));
			}
		return s;
	}

	struct Table {
		std::vector<RSym> t;
		std::set<std::string> names;
		std::set<i32> addresses;
		std::string code;
		std::vector<std::pair<u32, DaedalusInstruction>> instructions;
	};

	std::string fresh(Rng& r, Table& T, std::string const& prefix = "") {
		for (;;) {
			auto n = prefix + upper(r, r.chance(5) ? 200 : 12);
			if (T.names.insert(n).second) return n;
		}
	}
	void common(Rng& r, RSym& s) {
		s.file = r.u() & 0x7FFFF, s.line = r.u() & 0x7FFFF, s.lines = r.u() & 0x7FFFF, s.chr = r.u() & 0xFFFFFF, s.chrs = r.u() & 0xFFFFFF;
		s.hi = r.u();
		if (r.chance(10)) s.flags |= F_MERGED;
	}
	i32 address(Rng& r, Table& T) {
		for (;;) {
			i32 a = r.chance(20) ? r.i() : r.range(0, 4000);
			if (T.addresses.insert(a).second) return a;
		}
	}
	void values(Rng& r, RSym& s) {
		for (u32 k = 0; k < s.count; ++k) {
			if (s.type == T_FLOAT) { u32 b = r.u(); float f; std::memcpy(&f, &b, 4); s.f.push_back(r.flip() ? r.f() : f); }
			else if (s.type == T_INT) s.i.push_back(r.i());
			else if (s.type == T_STRING) s.s.push_back(text(r));
		}
	}
	RSym variable(Rng& r, Table& T, std::string name, bool consts = true) {
		RSym s;
		s.name = std::move(name);
		s.type = r.pick<u32>({T_INT, T_INT, T_FLOAT, T_STRING, T_STRING, T_FUNC, T_INST, T_VOID});
		s.count = r.chance(70) ? 1 : r.chance(90) ? r.below(20) : r.chance(80) ? r.below(300) : r.below(4096);
		s.vary = r.u();
		if (consts && s.type != T_FUNC && r.chance(40)) s.flags |= F_CONST;
		if (s.type == T_FUNC || s.type == T_INST) s.count = r.below(3), s.value = s.type == T_INST && !(s.flags & F_CONST) ? address(r, T) : r.i();
		if (s.type == T_INST) { s.flags &= ~F_CONST; }
		if (s.type == T_FUNC) s.vary = r.below(8);
		values(r, s);
		common(r, s);
		if (s.type == T_STRING && (s.flags & F_CONST)) {
			if (r.chance(30)) { for (u32 k = 1 + r.below(4); k > 0; --k) s.stray.push_back(r.pick({'\n', '\n', ' ', '\r', '\t'})); count("constants with surplus line ends"); }
			else if (r.chance(20)) s.parent = r.pick<i32>({10, 13, 32, 9, 0x20A, 12, 0x0C0B0A}), count("constants with a parent");
		} else if (r.chance(10)) s.parent = r.i();
		return s;
	}

	void instruction(Rng& r, Table& T) {
		static u8 const OPS[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 30, 31, 32, 33, 45, 60, 61, 62, 64, 65, 67, 70, 71, 72, 73, 74, 75, 76, 80, 245};
		RefWriter w;
		DaedalusInstruction x {};
		u8 op = OPS[r.below(sizeof OPS)];
		x.op = static_cast<DaedalusOpcode>(op);
		x.size = 1;
		w.u8_(op);
		u32 v = r.u();
		switch (op) {
		case 61: case 75: case 76: w.u32_(v), x.address = v, x.size = 5; break;
		case 64: w.u32_(v), x.immediate = static_cast<i32>(v), x.size = 5; break;
		case 62: case 65: case 67: case 80: w.u32_(v), x.symbol = v, x.size = 5; break;
		case 245: w.u32_(v), x.symbol = v, x.index = static_cast<u8>(r.u()), w.u8_(x.index), x.size = 6; break;
		default: break;
		}
		T.instructions.emplace_back(static_cast<u32>(T.code.size()), x);
		T.code += w.b;
	}

	Table generate(Rng& r) {
		Table T;
		u32 blocks = r.chance(10) ? r.below(3) : 2 + r.below(14);
		// the class bound to a native type
		{
			RSym c;
			c.name = "C_NATIVE", c.type = T_CLASS, c.count = 8, c.vary = r.u(), c.value = r.i();
			T.names.insert(c.name);
			common(r, c);
			i32 me = static_cast<i32>(T.t.size());
			T.t.push_back(c);
			struct M { char const* n; u32 t, max; };
			for (auto m : {M {"ONE", T_INT, 1}, M {"MANY", T_INT, 7}, M {"REAL", T_FLOAT, 1}, M {"REALS", T_FLOAT, 5}, M {"TEXT", T_STRING, 1}, M {"TEXTS", T_STRING, 4}, M {"FN", T_FUNC, 1}, M {"E", T_INT, 1}}) {
				RSym s;
				s.name = std::string("C_NATIVE.") + m.n, s.type = m.t, s.flags = F_MEMBER, s.count = 1 + r.below(m.max), s.vary = r.u(), s.parent = me;
				if (r.chance(5)) s.flags |= F_CONST;
				T.names.insert(s.name);
				common(r, s);
				T.t.push_back(s);
			}
			RSym i;
			i.name = "NATIVE_INSTANCE", i.type = T_INST, i.flags = F_CONST, i.count = 0, i.value = address(r, T), i.parent = me;
			T.names.insert(i.name);
			common(r, i);
			T.t.push_back(i);
		}
		for (u32 b = 0; b < blocks; ++b) switch (r.below(6)) {
			case 0: { // class with members, prototypes and instances
				RSym c;
				c.name = fresh(r, T), c.type = T_CLASS, c.count = r.below(5), c.vary = r.u(), c.value = r.i();
				if (r.chance(4)) c.count = r.below(60);
				common(r, c);
				u32 early = r.chance(10) ? r.below(c.count + 1) : 0; // members which come before their class
				i32 me = static_cast<i32>(T.t.size() + early);
				for (u32 k = 0; k < c.count; ++k) {
					if (k == early) T.t.push_back(c);
					auto s = variable(r, T, fresh(r, T, c.name + "."));
					if (s.type == T_INST || s.type == T_VOID) s.type = T_INT;
					s.flags |= F_MEMBER, s.parent = me, s.stray.clear();
					if (s.type != T_FUNC && r.chance(60)) s.count = 1;
					T.t.push_back(s);
				}
				if (early == c.count) T.t.push_back(c);
				if (early) count("members before their class");
				std::vector<i32> parents {me};
				u32 kids = r.chance(4) ? r.below(80) : r.below(8);
				bool many = r.chance(30);
				for (u32 k = kids; k > 0; --k) {
					RSym s;
					bool proto = r.chance(many ? 70 : 40);
					s.name = fresh(r, T), s.type = proto ? T_PROTO : T_INST, s.count = 0, s.value = address(r, T), s.vary = r.u();
					if (!proto && r.chance(80)) s.flags |= F_CONST;
					if (proto && r.chance(30)) s.flags |= F_CONST;
					s.parent = proto ? me : r.pick(parents);
					common(r, s);
					if (proto) parents.push_back(static_cast<i32>(T.t.size()));
					T.t.push_back(s);
					if (r.chance(30)) { auto v = variable(r, T, fresh(r, T)); T.t.push_back(v); }
				}
				break;
			}
			case 1: case 2: { // function with parameters and locals
				RSym f;
				f.name = fresh(r, T), f.type = T_FUNC, f.flags = F_CONST, f.count = r.below(5), f.vary = r.pick<u32>({T_VOID, T_INT, T_FLOAT, T_STRING, T_INST, T_FUNC});
				if (r.chance(4)) f.count = r.below(40);
				if (f.vary) f.flags |= F_RETURN;
				f.value = address(r, T);
				if (r.chance(20)) f.flags |= F_EXTERNAL;
				common(r, f);
				T.t.push_back(f);
				for (u32 k = 0; k < f.count; ++k) { auto p = variable(r, T, fresh(r, T, f.name + "."), false); T.t.push_back(p); }
				if (!(f.flags & F_EXTERNAL)) for (u32 k = r.chance(4) ? r.below(40) : r.below(4); k > 0; --k) { auto p = variable(r, T, fresh(r, T, f.name + "."), false); T.t.push_back(p); }
				if (r.chance(30)) { // one whose name only begins like the function's
					auto v = variable(r, T, fresh(r, T, f.name + r.pick<char const*>({"", "", "_", "_A.", "-.", "A."})));
					T.t.push_back(v);
				}
				break;
			}
			case 3: { // generated by the compiler
				auto s = variable(r, T, "");
				s.name = "\xFF" + fresh(r, T);
				T.t.push_back(s);
				break;
			}
			case 4: {
				auto s = variable(r, T, "");
				s.named = false;
				T.t.push_back(s);
				break;
			}
			default: {
				auto s = variable(r, T, fresh(r, T));
				T.t.push_back(s);
			}
			}
		// a class without a native type
		if (r.chance(60)) {
			RSym c;
			c.name = "C_OPAQUE", c.type = T_CLASS, c.count = r.below(7), c.vary = r.u(), c.value = r.i();
			T.names.insert(c.name);
			common(r, c);
			i32 me = static_cast<i32>(T.t.size());
			T.t.push_back(c);
			for (u32 k = 0; k < c.count; ++k) {
				auto s = variable(r, T, fresh(r, T, "C_OPAQUE."));
				if (s.type == T_INST || s.type == T_VOID) s.type = T_INT;
				s.flags |= F_MEMBER, s.parent = me, s.stray.clear();
				T.t.push_back(s);
				if (r.chance(20)) { auto v = variable(r, T, fresh(r, T)); T.t.push_back(v); }
			}
			T.code.push_back(60);
			DaedalusInstruction x {};
			x.op = static_cast<DaedalusOpcode>(60), x.size = 1;
			T.instructions.emplace_back(0, x);
			if (T.addresses.insert(0).second) {
				RSym i;
				i.name = "OPAQUE_INSTANCE", i.type = T_INST, i.flags = F_CONST, i.count = 0, i.value = 0, i.parent = me;
				T.names.insert(i.name);
				common(r, i);
				T.t.push_back(i);
			}
		}
		for (u32 k = r.below(60); k > 0; --k) instruction(r, T);
		return T;
	}

	std::string shown(RSym const& s) {
		if (!s.named) return "";
		auto n = s.name;
		if (!n.empty() && n[0] == '\xFF') n[0] = '$';
		return n;
	}
	std::string anycase(Rng& r, std::string s) {
		for (auto& c : s) if (r.flip() && c >= 'A' && c <= 'Z') c = static_cast<char>(c + 32);
		return s;
	}
	bool same(float a, float b) { return std::memcmp(&a, &b, 4) == 0; }

	void compare(Rng& r, Table const& T, DaedalusScript& s) {
		auto& t = T.t;
		VP_CHECK(s.symbols().size() == t.size(), "symbol-count", "%zu symbols, expected %zu", s.symbols().size(), t.size());
		auto const& cs = s;
		for (u32 k = 0; k < t.size(); ++k) {
			auto& e = t[k];
			auto* y = s.find_symbol_by_index(k);
			VP_CHECK(y && y == cs.find_symbol_by_index(k) && y == &s.symbols()[k], "find-index", "symbol %u not found by index", k);
			#define EQ(expr, want, what) do { count("values compared"); auto g = (expr); auto w = (want); \
				VP_CHECK(g == w, std::string("symbol-") + what, "symbol %u '%s' type %u flags %#x: " what " differs", k, esc(shown(e)).c_str(), e.type, e.flags); } while (0)
			EQ(y->name(), shown(e), "name");
			EQ(y->is_generated(), e.named && !e.name.empty() && e.name[0] == '\xFF', "generated");
			EQ(y->index(), k, "index");
			EQ(static_cast<u32>(y->type()), e.type, "type");
			EQ(y->count(), e.count, "count");
			EQ(y->is_const(), (e.flags & F_CONST) != 0, "const");
			EQ(y->has_return(), (e.flags & F_RETURN) != 0, "return");
			EQ(y->is_member(), (e.flags & F_MEMBER) != 0, "member");
			EQ(y->is_external(), (e.flags & F_EXTERNAL) != 0, "external");
			EQ(y->is_merged(), (e.flags & F_MERGED) != 0, "merged");
			EQ(y->has_access_trap(), false, "trap");
			EQ(y->has_local_variables_enabled(), false, "locals-flag");
			EQ(y->file_index(), e.file, "file_index");
			EQ(y->line_start(), e.line, "line_start");
			EQ(y->line_count(), e.lines, "line_count");
			EQ(y->char_start(), e.chr, "char_start");
			EQ(y->char_count(), e.chrs, "char_count");
			EQ(y->parent(), static_cast<u32>(e.parent), "parent");
			if (e.member()) EQ(y->offset_as_member(), e.vary, "member-offset");
			else switch (e.type) {
				case T_CLASS: EQ(y->class_size(), e.vary, "class-size"); break;
				case T_FUNC: EQ(static_cast<u32>(y->rtype()), e.vary, "return-type"); EQ(y->address(), static_cast<u32>(e.value), "address"); break;
				case T_PROTO: EQ(y->address(), static_cast<u32>(e.value), "address"); break;
				case T_INST: EQ(y->address(), static_cast<u32>(e.value), "address"); EQ(y->get_instance() == nullptr, true, "instance"); break;
				case T_FLOAT: for (u32 j = 0; j < e.count; ++j) EQ(same(y->get_float(static_cast<u16>(j)), e.f[j]), true, "float-value"); break;
				case T_INT: for (u32 j = 0; j < e.count; ++j) EQ(y->get_int(static_cast<u16>(j)), e.i[j], "int-value"); break;
				case T_STRING: for (u32 j = 0; j < e.count; ++j) EQ(y->get_string(static_cast<u16>(j)), dat_unescape(e.s[j]), "string-value"); break;
				default: break;
				}
			if (e.named) {
				auto n = shown(e);
				for (auto const& q : {n, anycase(r, n)}) {
					VP_CHECK(s.find_symbol_by_name(q) == y && cs.find_symbol_by_name(q) == y, "find-name", "'%s' not found as '%s'", esc(n).c_str(), esc(q).c_str());
					count("names found");
				}
				auto q = anycase(r, n);
				q[r.below(static_cast<u32>(q.size()))] ^= 1;
				auto Q = q;
				for (auto& c : Q) if (c >= 'a' && c <= 'z') c = static_cast<char>(c - 32);
				bool known = std::any_of(t.begin(), t.end(), [&](RSym const& o) { return o.named && shown(o) == Q; });
				if (!known) { VP_CHECK(!s.find_symbol_by_name(q), "find-unknown-name", "'%s' is found though unknown", esc(q).c_str()); count("unknown names"); }
				if (n.size() > 1 && !T.names.count(n.substr(0, n.size() - 1)) && !T.names.count(n.substr(1))) VP_CHECK(!s.find_symbol_by_name(n.substr(0, n.size() - 1)), "find-prefix", "a prefix of '%s' is found", esc(n).c_str());
			}
		}
		for (u32 k : {static_cast<u32>(t.size()), static_cast<u32>(t.size()) + 1, 0xffffffffu, 0x80000000u}) VP_CHECK(!s.find_symbol_by_index(k) && !cs.find_symbol_by_index(k), "find-unknown-index", "index %u finds something", k);
		// by address
		std::map<u32, u32> by;
		for (u32 k = 0; k < t.size(); ++k) {
			auto& e = t[k];
			if (e.type == T_PROTO || e.type == T_INST || (e.type == T_FUNC && (e.flags & F_CONST) && !e.member())) by[static_cast<u32>(e.value)] = k;
		}
		for (auto [a, k] : by) {
			VP_CHECK(s.find_symbol_by_address(a) == &s.symbols()[k] && cs.find_symbol_by_address(a) == &s.symbols()[k], "find-address", "symbol %u not found at its address %u", k, a);
			count("addresses found");
			if (!by.count(a + 1)) VP_CHECK(!s.find_symbol_by_address(a + 1), "find-unknown-address", "address %u finds something", a + 1);
		}
		for (u32 k = 0; k < t.size(); ++k) { // variables are not found by address
			auto& e = t[k];
			if (e.type == T_FUNC && !(e.flags & F_CONST) && !by.count(static_cast<u32>(e.value))) VP_CHECK(!s.find_symbol_by_address(static_cast<u32>(e.value)), "find-variable-by-address", "function variable %u is found by address", k);
		}
		// structure
		for (u32 k = 0; k < t.size(); ++k) {
			auto& e = t[k];
			auto* y = s.find_symbol_by_index(k);
			if (e.type == T_FUNC && (e.flags & F_CONST)) {
				auto p = s.find_parameters_for_function(y);
				auto cp = cs.find_parameters_for_function(y);
				VP_CHECK(p.size() == e.count && cp.size() == e.count, "parameters", "function %u has %zu parameters, expected %u", k, p.size(), e.count);
				for (u32 j = 0; j < e.count; ++j) VP_CHECK(p[j].index() == k + 1 + j && &cp[j] == &p[j], "parameters", "parameter %u of function %u is symbol %u", j, k, p[j].index());
				auto l = s.find_locals_for_function(y);
				std::vector<u32> want;
				for (u32 j = k + 1 + e.count; j < t.size() && t[j].named && t[j].name.starts_with(e.name + "."); ++j) want.push_back(j);
				VP_CHECK(l.size() == want.size(), "locals", "function %u '%s' has %zu locals, expected %zu", k, esc(e.name).c_str(), l.size(), want.size());
				for (u32 j = 0; j < want.size(); ++j) VP_CHECK(l[j].index() == want[j], "locals", "local %u of function %u is symbol %u", j, k, l[j].index());
				count("functions compared");
				if (!want.empty()) count("functions with locals");
				if (!want.empty() && want.back() + 1 == t.size()) count("locals at the end of the table");
			}
			if (e.type == T_CLASS) {
				auto m = s.find_class_members(*y);
				std::vector<u32> want, got, inst, seen;
				for (u32 j = 0; j < t.size(); ++j) if (t[j].member() && t[j].parent == static_cast<i32>(k)) want.push_back(j);
				for (auto* x : m) got.push_back(x->index());
				VP_CHECK(got == want, "members", "class %u has %zu members, expected %zu", k, got.size(), want.size());
				for (u32 j = 0; j < t.size(); ++j) {
					if (t[j].type != T_INST || !(t[j].flags & F_CONST)) continue;
					auto p = t[j].parent;
					if (p == static_cast<i32>(k) || (p >= 0 && p < static_cast<i32>(t.size()) && t[static_cast<u32>(p)].type == T_PROTO && t[static_cast<u32>(p)].parent == static_cast<i32>(k))) inst.push_back(j);
				}
				s.enumerate_instances_by_class_name(anycase(r, e.name), [&](DaedalusSymbol& x) { seen.push_back(x.index()); });
				VP_CHECK(seen == inst, "instances", "class %u '%s' has %zu instances, expected %zu", k, esc(e.name).c_str(), seen.size(), inst.size());
				count("classes compared");
				count("instances enumerated", inst.size());
			}
		}
		s.enumerate_instances_by_class_name("NO SUCH CLASS", [&](DaedalusSymbol&) { fail("instances-unknown-class", "an unknown class has instances"); });
		// code
		VP_CHECK(s.size() == T.code.size(), "code-size", "code size %u, expected %zu", s.size(), T.code.size());
		auto order = T.instructions;
		for (size_t k = order.size(); k > 1; --k) std::swap(order[k - 1], order[r.below(static_cast<u32>(k))]);
		for (auto& [at, x] : order) {
			auto g = s.instruction_at(at);
			VP_CHECK(g.op == x.op && g.address == x.address && g.symbol == x.symbol && g.immediate == x.immediate && g.index == x.index && g.size == x.size, "instruction",
			         "instruction %u at %u: address %u/%u symbol %u/%u immediate %d/%d index %u/%u size %u/%u", static_cast<u32>(x.op), at, g.address, x.address, g.symbol, x.symbol, g.immediate,
			         x.immediate, g.index, x.index, g.size, x.size);
			count("instructions decoded");
		}
	}

	enum Out { OK, TYPE, INDEX, NOCTX, UNBOUND, CTX, OTHER };
	template <class F>
	Out outcome(F f) {
		try { f(); return OK; }
		catch (DaedalusIllegalTypeAccess const&) { return TYPE; }
		catch (DaedalusIllegalIndexAccess const&) { return INDEX; }
		catch (DaedalusNoContextError const&) { return NOCTX; }
		catch (DaedalusUnboundMemberAccess const&) { return UNBOUND; }
		catch (DaedalusIllegalContextType const&) { return CTX; }
		catch (DaedalusScriptError const&) { return OTHER; }
	}
	char const* out_name(Out o) { static char const* N[] = {"succeeds", "type error", "index error", "no context", "unbound member", "wrong context", "other error"}; return N[o]; }

	// Access with right and wrong types, indices and contexts. `bound` holds the symbols registered to Native.
	void access(Rng& r, Table const& T, DaedalusScript& s, std::set<u32> const& bound, DaedalusInstance* native, std::set<u32> const& opaque = {}) {
		Other unbound_other;
		Native unbound;
		Transient tr;
		for (u32 k = 0; k < T.t.size(); ++k) {
			auto& e = T.t[k];
			auto* y = s.find_symbol_by_index(k);
			for (int rep = 0; rep < 6; ++rep) {
				u16 idx = static_cast<u16>(r.pick<u32>({0, 0, e.count, e.count ? e.count - 1 : 0, e.count + 1, 255, 256, 4095, 65535, r.below(65536), r.below(e.count + 1)}));
				int kind = static_cast<int>(r.below(3));
				int ctx = static_cast<int>(r.below(native ? 5 : 4));
				DaedalusInstance* c = ctx == 0 ? nullptr : ctx == 1 ? &unbound_other : ctx == 2 ? &unbound : ctx == 3 ? static_cast<DaedalusInstance*>(&tr) : native;
				bool ok_type = kind == 0 ? e.type == T_INT || e.type == T_FUNC : kind == 1 ? e.type == T_FLOAT : e.type == T_STRING;
				if (e.type == T_FUNC && !e.member() && (e.flags & F_CONST)) ok_type = false; // a function itself has no value
				Out want = !ok_type                            ? (e.type == T_FUNC && kind == 0 && idx >= e.count ? OTHER : TYPE)
				    : idx >= e.count                           ? INDEX
				    : !e.member()                              ? OK
				    : !c                                       ? NOCTX
				    : ctx == 3                                 ? OK
				    : opaque.count(k)                          ? CTX
				    : !bound.count(k)                          ? UNBOUND
				    : ctx == 4                                 ? OK
				                                               : CTX;
				std::string log0 = tr.log.empty() ? "" : tr.log.back();
				tr.log.clear();
				i32 iv = r.i();
				float fv = r.f();
				auto sv = r.name(r.chance(30) ? 60 : 12);
				bool set = r.flip();
				Out got;
				std::string seen;
				if (set) got = outcome([&] { kind == 0 ? y->set_int(iv, idx, c) : kind == 1 ? y->set_float(fv, idx, c) : y->set_string(sv, idx, c); });
				else got = outcome([&] { if (kind == 0) iv = y->get_int(idx, c); else if (kind == 1) fv = y->get_float(idx, c); else sv = y->get_string(idx, c); });
				if (want == OTHER) { VP_CHECK(got == TYPE || got == INDEX, "access-function", "%s of function %u [%u] %s", set ? "set" : "get", k, idx, out_name(got)); continue; }
				VP_CHECK(got == want, fmt("access-%s", out_name(want)), "%s_%s of symbol %u type %u flags %#x count %u at %u with context %d %s, expected: %s", set ? "set" : "get",
				         kind == 0 ? "int" : kind == 1 ? "float" : "string", k, e.type, e.flags, e.count, idx, ctx, out_name(got), out_name(want));
				count(fmt("access: %s", out_name(want)));
				if (got != OK) continue;
				if (ctx == 3 && e.member()) {
					auto w = Transient::key(set ? (kind == 0 ? "si" : kind == 1 ? "sf" : "ss") : (kind == 0 ? "gi" : kind == 1 ? "gf" : "gs"), *y, idx);
					if (set) w += kind == 0 ? fmt("=%d", iv) : kind == 1 ? fmt("=%g", static_cast<double>(fv)) : "=" + sv;
					VP_CHECK(tr.log.size() == 1 && tr.log[0] == w, "transient-call", "the transient instance saw '%s', expected '%s'", tr.log.empty() ? "nothing" : esc(tr.log[0]).c_str(), esc(w).c_str());
					if (!set) VP_CHECK(kind == 0 ? iv == 4711 : kind == 1 ? fv == 2.5f : sv == "transient", "transient-value", "wrong value from a transient instance");
					count("transient accesses");
					continue;
				}
				VP_CHECK(tr.log.empty(), "transient-call", "the transient instance was used for another symbol");
				if (set) {
					if (kind == 0) VP_CHECK(y->get_int(idx, c) == iv, "set-get", "int %d is not read back", iv);
					if (kind == 1) VP_CHECK(same(y->get_float(idx, c), fv), "set-get", "float is not read back");
					if (kind == 2) VP_CHECK(y->get_string(idx, c) == sv, "set-get", "string is not read back");
				}
			}
		}
	}

	// An instance without a native type: its elements are independent of each other.
	std::set<u32> opaque(Rng& r, Table const& T, DaedalusVm& vm) {
		std::set<u32> own;
		u32 cls = ~0u;
		for (u32 k = 0; k < T.t.size(); ++k) if (T.t[k].name == "C_OPAQUE") cls = k;
		for (u32 k = 0; k < T.t.size(); ++k) if (T.t[k].member() && T.t[k].parent == static_cast<i32>(cls)) own.insert(k);
		auto* sym = vm.find_symbol_by_name("OPAQUE_INSTANCE");
		if (!sym) return own;
		std::vector<std::shared_ptr<DaedalusInstance>> in;
		std::vector<std::map<std::pair<u32, u32>, std::string>> want;
		auto get = [&](u32 k, u16 j, DaedalusInstance* c) -> std::string {
			auto* y = vm.find_symbol_by_index(k);
			if (T.t[k].type == T_STRING) return y->get_string(j, c);
			if (T.t[k].type == T_FLOAT) { float f = y->get_float(j, c); u32 b; std::memcpy(&b, &f, 4); return fmt("%08x", b); }
			return fmt("%d", y->get_int(j, c));
		};
		for (int q = 0; q < 2; ++q) {
			in.push_back(vm.init_opaque_instance(sym));
			VP_CHECK(in.back()->symbol_index() == sym->index() && sym->get_instance() == in.back(), "opaque-symbol", "the instance belongs to symbol %u", in.back()->symbol_index());
			auto& w = want.emplace_back();
			for (u32 k : own) for (u32 j = 0; j < T.t[k].count; ++j) w[{k, j}] = T.t[k].type == T_STRING ? "" : T.t[k].type == T_FLOAT ? "00000000" : "0";
		}
		auto audit = [&](char const* when) {
			for (size_t q = 0; q < in.size(); ++q) for (auto& [at, v] : want[q]) {
				auto g = get(at.first, static_cast<u16>(at.second), in[q].get());
				VP_CHECK(g == v, "opaque-value", "%s: element %u of member %u of instance %zu is '%s' instead of '%s'", when, at.second, at.first, q, esc(g).c_str(), esc(v).c_str());
			}
			count("opaque elements compared", want[0].size() * 2);
		};
		audit("new");
		for (int rep = 0; rep < 3; ++rep) {
			for (size_t q = 0; q < in.size(); ++q) for (auto& [at, v] : want[q]) {
				if (want[q].size() > 200 ? r.chance(90) : r.chance(40)) continue;
				auto* y = vm.find_symbol_by_index(at.first);
				u16 j = static_cast<u16>(at.second);
				if (T.t[at.first].type == T_STRING) v = r.name(60), y->set_string(v, j, in[q].get());
				else if (T.t[at.first].type == T_FLOAT) { float f = r.f(); u32 b; std::memcpy(&b, &f, 4); v = fmt("%08x", b), y->set_float(f, j, in[q].get()); }
				else { i32 x = r.i(); v = fmt("%d", x), y->set_int(x, j, in[q].get()); }
			}
			audit("written");
		}
		return own;
	}

	// Symbols which are given more elements keep those they have.
	void growth(Rng& r, Table const& T, DaedalusScript& s) {
		for (int rep = 0; rep < 4; ++rep) {
			u32 k = r.below(static_cast<u32>(T.t.size())), n = r.chance(20) ? r.below(300) : r.below(5);
			auto& e = T.t[k];
			auto* y = s.find_symbol_by_index(k);
			u32 was = y->count();
			if (e.member() || (e.type != T_INT && e.type != T_FLOAT && e.type != T_STRING)) continue;
			auto get = [&](u32 j) -> std::string {
				u16 x = static_cast<u16>(j);
				if (e.type == T_STRING) return y->get_string(x);
				if (e.type == T_FLOAT) { float f = y->get_float(x); u32 b; std::memcpy(&b, &f, 4); return fmt("%08x", b); }
				return fmt("%d", y->get_int(x));
			};
			std::vector<std::string> before;
			for (u32 j = 0; j < was; ++j) before.push_back(get(j));
			y->grow(n);
			VP_CHECK(y->count() == was + n, "grow-count", "symbol %u grown from %u by %u has %u", k, was, n, y->count());
			for (u32 j = 0; j < was + n; ++j) {
				auto want = j < was ? before[j] : e.type == T_STRING ? std::string() : e.type == T_FLOAT ? std::string("00000000") : std::string("0");
				auto g = get(j);
				VP_CHECK(g == want, "grow-value", "symbol %u of type %u grown from %u by %u: element %u is '%s' instead of '%s'", k, e.type, was, n, j, esc(g).c_str(), esc(want).c_str());
			}
			count("symbols grown");
		}
	}

	// A write to one element changes that element and nothing else.
	void isolation(Rng& r, Table const& T, DaedalusScript& s) {
		auto dump = [&](std::map<std::pair<u32, u32>, std::string>& o) {
			for (u32 k = 0; k < T.t.size(); ++k) {
				auto& e = T.t[k];
				if (e.member()) continue;
				auto* y = s.find_symbol_by_index(k);
				for (u32 j = 0; j < e.count; ++j) {
					u16 x = static_cast<u16>(j);
					if (e.type == T_INT || (e.type == T_FUNC && !(e.flags & F_CONST))) o[{k, j}] = fmt("%d", y->get_int(x));
					else if (e.type == T_FLOAT) { float f = y->get_float(x); u32 b; std::memcpy(&b, &f, 4); o[{k, j}] = fmt("%08x", b); }
					else if (e.type == T_STRING) o[{k, j}] = y->get_string(x);
				}
			}
		};
		std::map<std::pair<u32, u32>, std::string> a, b;
		dump(a);
		if (a.empty()) return;
		for (int rep = 0; rep < 4; ++rep) {
			auto it = std::next(a.begin(), r.below(static_cast<u32>(a.size())));
			auto [k, j] = it->first;
			auto* y = s.find_symbol_by_index(k);
			u16 x = static_cast<u16>(j);
			switch (T.t[k].type) {
			case T_FLOAT: { float f = r.f(); u32 q; std::memcpy(&q, &f, 4); y->set_float(f, x); it->second = fmt("%08x", q); break; }
			case T_STRING: it->second = r.name(40); y->set_string(it->second, x); break;
			default: { i32 v = r.i(); y->set_int(v, x); it->second = fmt("%d", v); }
			}
			b.clear();
			dump(b);
			VP_CHECK(a == b, "isolation", "writing element %u of symbol %u changed something else", j, k);
			count("writes checked for isolation");
		}
	}
} // namespace

void vp_case(Rng& r, u64) {
	label("generate");
	auto T = generate(r);
	auto bytes = encode_dat(T.t, T.code, r.below(256));
	bool trailing = r.chance(30);
	auto file = bytes;
	if (trailing) { auto x = r.bytes(1 + r.below(40)); file.insert(file.end(), x.begin(), x.end()); }
	label("load");
	DaedalusScript s;
	if (r.chance(15)) { // into a used object
		auto U = generate(r);
		auto ub = encode_dat(U.t, U.code);
		s.load(mem(ub).get());
		count("loaded into a used script");
	}
	auto in = mem(file);
	s.load(in.get());
	VP_CHECK(in->tell() == bytes.size(), "stream-position", "loading ends at %zu of %zu", in->tell(), bytes.size());
	label("compare");
	compare(r, T, s);
	count("scripts compared");
	u64 h = 0;
	for (auto& e : T.t) h = h * 31 + e.type * 7 + e.flags + (e.count > 1);
	state(h);
	if (r.flip()) {
		label("moved");
		DaedalusScript m(std::move(s));
		compare(r, T, m);
		label("access");
		access(r, T, m, {}, nullptr);
		isolation(r, T, m);
		label("grow");
		growth(r, T, m);
		return;
	}
	label("bind");
	auto idx = [&](std::string const& n) { for (u32 k = 0; k < T.t.size(); ++k) if (T.t[k].name == n) return k; return 0xffffffffu; };
	auto cnt = [&](char const* n) { return T.t[idx(std::string("C_NATIVE.") + n)].count; };
	std::set<u32> bound;
	auto refused = [&](char const* what, std::function<void()> const& f) {
		try { f(); }
		catch (DaedalusScriptError const&) { count("bindings refused"); return; }
		fail("binding-accepted", std::string(what) + " is accepted");
	};
	// refused bindings before, between and after accepted ones
	auto wrong = [&] {
		switch (r.below(9)) {
		case 0: refused("an unknown name", [&] { s.register_member("C_NATIVE.NOPE", &Native::one); }); break;
		case 1: refused("a symbol which is no member", [&] { s.register_member("C_NATIVE", &Native::one); }); break;
		case 2: refused("a float field for an int", [&] { s.register_member("C_NATIVE.ONE", &Native::real); }); break;
		case 3: refused("a string field for a float", [&] { s.register_member("C_NATIVE.REAL", &Native::text); }); break;
		case 4: refused("an int field for a string", [&] { s.register_member("C_NATIVE.TEXT", &Native::one); }); break;
		case 5: if (cnt("MANY") > 1) refused("a field which is too short", [&] { s.register_member("C_NATIVE.MANY", &Native::one); }); break;
		case 6: if (cnt("TEXTS") > 1) refused("a field which is too short", [&] { s.register_member("C_NATIVE.TEXTS", &Native::text); }); break;
		case 7: if (cnt("REALS") > 1) refused("a field which is too short", [&] { s.register_member("C_NATIVE.REALS", &Native::real); }); break;
		default: if (!bound.empty()) refused("another native class", [&] { s.register_member("C_NATIVE.ONE", &Other::one); });
		}
	};
	std::vector<std::function<void()>> regs {
	    [&] { s.register_member(anycase(r, "C_NATIVE.ONE"), &Native::one), bound.insert(idx("C_NATIVE.ONE")); },
	    [&] { s.register_member(anycase(r, "C_NATIVE.MANY"), &Native::many), bound.insert(idx("C_NATIVE.MANY")); },
	    [&] { s.register_member("C_NATIVE.REAL", &Native::real), bound.insert(idx("C_NATIVE.REAL")); },
	    [&] { s.register_member("C_NATIVE.REALS", &Native::reals), bound.insert(idx("C_NATIVE.REALS")); },
	    [&] { s.register_member("C_NATIVE.TEXT", &Native::text), bound.insert(idx("C_NATIVE.TEXT")); },
	    [&] { s.register_member("C_NATIVE.TEXTS", &Native::texts), bound.insert(idx("C_NATIVE.TEXTS")); },
	    [&] { s.register_member("C_NATIVE.FN", &Native::fn), bound.insert(idx("C_NATIVE.FN")); },
	    [&] { s.register_member("C_NATIVE.E", &Native::e), bound.insert(idx("C_NATIVE.E")); },
	};
	for (size_t k = regs.size(); k > 1; --k) std::swap(regs[k - 1], regs[r.below(static_cast<u32>(k))]);
	regs.resize(1 + r.below(static_cast<u32>(regs.size())));
	for (auto& f : regs) {
		f();
		if (r.chance(30)) wrong();
		count("bindings");
	}
	bool with = idx("C_OPAQUE") != 0xffffffffu;
	if (with) s.register_as_opaque(anycase(r, "C_OPAQUE"));
	DaedalusVm vm(std::move(s));
	std::set<u32> own;
	if (with) { label("opaque"); own = opaque(r, T, vm); }
	label("bound access");
	auto inst = vm.allocate_instance<Native>(anycase(r, "NATIVE_INSTANCE"));
	VP_CHECK(vm.find_symbol_by_name("NATIVE_INSTANCE")->get_instance() == inst, "allocate", "the symbol does not refer to the allocated instance");
	VP_CHECK(inst->symbol_index() == idx("NATIVE_INSTANCE") && vm.find_symbol_by_instance(inst) == vm.find_symbol_by_name("NATIVE_INSTANCE") && vm.find_symbol_by_instance(*inst) == vm.find_symbol_by_name("NATIVE_INSTANCE"),
	         "instance-symbol", "the allocated instance belongs to symbol %u", inst->symbol_index());
	VP_CHECK(vm.find_symbol_by_name("NATIVE_INSTANCE")->is_instance_of<Native>() && !vm.find_symbol_by_name("NATIVE_INSTANCE")->is_instance_of<Other>(), "instance-of", "wrong native type");
	// every bound element refers to its own field
	auto img = [&] {
		std::string o;
		o += fmt("%d %d %d %d %d %u %08x", inst->head, inst->one, inst->mid, inst->tail, inst->fn, static_cast<u32>(inst->e), 0u);
		for (auto v : inst->many) o += fmt(" %d", v);
		o += fmt(" %g", static_cast<double>(inst->real));
		for (auto v : inst->reals) o += fmt(" %g", static_cast<double>(v));
		o += " " + inst->text;
		for (auto& v : inst->texts) o += " " + v;
		return o;
	};
	for (auto k : bound) {
		auto& e = T.t[k];
		auto* y = vm.find_symbol_by_index(k);
		for (u16 j = 0; j < e.count; ++j) {
			i32 v = r.i();
			float f = r.f();
			auto q = r.name(30);
			auto n = e.name.substr(9);
			if (e.type == T_STRING) y->set_string(q, j, inst.get());
			else if (e.type == T_FLOAT) y->set_float(f, j, inst.get());
			else y->set_int(v, j, inst.get());
			auto after = img();
			if (n == "ONE") VP_CHECK(inst->one == v, "bound-field", "%s", n.c_str());
			if (n == "MANY") VP_CHECK(inst->many[j] == v, "bound-field", "%s %u", n.c_str(), j);
			if (n == "FN") VP_CHECK(inst->fn == v, "bound-field", "%s", n.c_str());
			if (n == "E") VP_CHECK(static_cast<i32>(inst->e) == v, "bound-field", "%s", n.c_str());
			if (n == "REAL") VP_CHECK(same(inst->real, f), "bound-field", "%s", n.c_str());
			if (n == "REALS") VP_CHECK(same(inst->reals[j], f), "bound-field", "%s %u", n.c_str(), j);
			if (n == "TEXT") VP_CHECK(inst->text == q, "bound-field", "%s", n.c_str());
			if (n == "TEXTS") VP_CHECK(inst->texts[j] == q, "bound-field", "%s %u", n.c_str(), j);
			VP_CHECK(inst->head == 0x11111111 && inst->mid == 0x22222222 && inst->tail == 0x33333333, "bound-neighbour", "writing %s changed an unbound field", n.c_str());
			// the native side writes, the script side reads
			v = r.i(), f = r.f(), q = r.name(30);
			if (n == "ONE") { inst->one = v; VP_CHECK(y->get_int(j, inst.get()) == v, "bound-read", "%s", n.c_str()); }
			if (n == "MANY") { inst->many[j] = v; VP_CHECK(y->get_int(j, inst.get()) == v, "bound-read", "%s", n.c_str()); }
			if (n == "FN") { inst->fn = v; VP_CHECK(y->get_int(j, inst.get()) == v, "bound-read", "%s", n.c_str()); }
			if (n == "REAL") { inst->real = f; VP_CHECK(same(y->get_float(j, inst.get()), f), "bound-read", "%s", n.c_str()); }
			if (n == "REALS") { inst->reals[j] = f; VP_CHECK(same(y->get_float(j, inst.get()), f), "bound-read", "%s", n.c_str()); }
			if (n == "TEXT") { inst->text = q; VP_CHECK(y->get_string(j, inst.get()) == q, "bound-read", "%s", n.c_str()); }
			if (n == "TEXTS") { inst->texts[j] = q; VP_CHECK(y->get_string(j, inst.get()) == q, "bound-read", "%s", n.c_str()); }
			count("bound elements");
		}
	}
	access(r, T, vm, bound, inst.get(), own);
	VP_CHECK(inst->head == 0x11111111 && inst->mid == 0x22222222 && inst->tail == 0x33333333, "bound-neighbour", "an access changed an unbound field");
	isolation(r, T, vm);
}
