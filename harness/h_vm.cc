// C19, C21: the script machine against the plain interpreter, with well-formed programs and with failing ones.
#include "vmprog.hh"

using namespace vpm;

void vp_init() { Logger::set(LogLevel::ERROR, [](LogLevel, char const*, char const*) {}); }

namespace {
	// ================================================================ C21
	// functions appended to the generated program which end badly
	struct Broken { u32 sym; char const* what; u32 nargs; bool deep = false; };

	u32 add_fn(Prog& p, char const* n) {
		RSym s;
		s.name = n, s.type = T_FUNC, s.count = 0, s.flags = F_CONST, s.vary = T_VOID;
		u32 k = p.add(s);
		p.t[k].value = static_cast<i32>(p.at());
		return k;
	}

	std::vector<Broken> broken(Prog& p, Rng& r) {
		std::vector<Broken> b;
		u32 k;
		k = add_fn(p, "B_RECURSE"), p.op(64, 1), p.op(61, p.at()), p.op(60);
		// calls itself: the address of the call is the function's own
		p.patch(static_cast<u32>(p.t[k].value) + 6, static_cast<u32>(p.t[k].value));
		b.push_back({k, "endless recursion", 0, true});
		k = add_fn(p, "B_PUSH");
		{ u32 a = p.at(); p.op(r.flip() ? 64 : 65, p.globals[0].sym), p.op(75, a); }
		b.push_back({k, "stack filled up", 0, true});
		k = add_fn(p, "B_PUSHS");
		{ u32 a = p.at(); p.op(65, p.literals[0]), p.op(65, p.literals[1]), p.op(62, p.ext[X_SS]), p.op(75, a); }
		b.push_back({k, "stack filled up with strings", 0, true});
		k = add_fn(p, "B_MOVSS"), p.op(64, 1), p.op(64, 2), p.op(71), p.op(60);
		b.push_back({k, "instruction not implemented", 0});
		k = add_fn(p, "B_POP"), p.op(r.pick<u8>({9, 70, 73, 74, 19, 72, 22})), p.op(60);
		b.push_back({k, "reference taken from an empty stack", 0});
		k = add_fn(p, "B_POPS"), p.op(65, p.globals[0].sym), p.op(r.pick<u8>({70, 74})), p.op(60);
		b.push_back({k, "value taken from an empty stack", 0});
		// an element behind the last one is read or written
		k = add_fn(p, "B_INDEX");
		{
			auto& v = p.globals[r.below(static_cast<u32>(p.globals.size()))];
			auto& w = p.globals[r.below(static_cast<u32>(p.globals.size()))];
			auto at = [&](Var const& x, bool out) { u32 i = out && x.count < 256 ? r.pick<u32>({x.count, x.count, 255, x.count + r.below(256 - x.count)}) : r.below(std::min(x.count + 1, 256u)); p.op(245, x.sym), p.code.push_back(static_cast<char>(i)); };
			bool first = r.flip();
			at(v, first), at(w, !first);
			p.op(w.type == T_FLOAT ? 73 : w.type == T_STRING ? 70 : w.type == T_INST ? 74 : r.pick<u8>({9, 19, 20, 21, 22, 72, 0, 16}));
			p.op(60);
		}
		b.push_back({k, "element out of range", 0});
		k = add_fn(p, "B_CONTEXT"), p.op(80, r.flip() ? p.globals[0].sym : 0xFFFFFFu), p.op(60);
		b.push_back({k, "context which is no instance", 0});
		k = add_fn(p, "B_EXTERNAL"), p.op(62, r.flip() ? p.globals[0].sym : 0xFFFFFFu), p.op(60);
		b.push_back({k, "call of no external", 0});
		// code made of noise, seeded with valid operands here and there
		k = add_fn(p, "B_NOISE");
		static u8 const OPS[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 30, 31, 32, 33, 45, 60, 61, 62, 64, 65, 67, 70, 71, 72, 73, 74, 75, 76, 80, 244, 245};
		u32 start = p.at();
		for (u32 n = 5 + r.below(40); n > 0; --n) {
			u8 o = r.chance(8) ? static_cast<u8>(r.u()) : r.chance(60) ? r.pick<u8>({64, 65, 65, 67, 245, 80, 61, 62}) : OPS[r.below(sizeof OPS)];
			p.op(o);
			u32 v = r.u();
			switch (o) {
			case 61: v = r.chance(80) ? static_cast<u32>(p.t[p.fns[r.below(static_cast<u32>(p.fns.size()))].sym].value) : r.below(p.at() + 9); break;
			case 62: v = r.chance(80) ? p.ext[r.below(X_COUNT_)] : r.below(static_cast<u32>(p.t.size()) + 4); break;
			case 75: case 76: v = r.chance(80) ? start + r.below(p.at() - start + 30) : r.u(); break;
			case 64: v = r.flip() ? r.below(300) : r.u(); break;
			default: v = r.chance(95) ? r.below(static_cast<u32>(p.t.size())) : r.u();
			}
			switch (o) {
			case 61: case 62: case 64: case 65: case 67: case 75: case 76: case 80: p.arg(v); break;
			case 245: p.arg(v), p.code.push_back(static_cast<char>(r.flip() ? r.below(4) : r.u())); break;
			case 244: p.op(static_cast<u8>(r.u())); break;
			default: break;
			}
		}
		if (r.flip()) p.op(60);
		b.push_back({k, "noise", 0, true});
		// the last function of the code: execution runs over its end
		k = add_fn(p, "B_END"), p.op(45);
		if (r.flip()) p.op(r.pick<u8>({64, 65, 61, 245, 75}), 0);
		for (u32 n = r.below(5); n > 0 && r.flip(); --n) p.code.pop_back();
		if (p.at() <= static_cast<u32>(p.t[k].value)) p.op(45);
		b.push_back({k, "end of the code", 0});
		return b;
	}

	void failing(Rng& r) {
		Duo d(r);
		auto& p = d.p;
		p.size = static_cast<int>(1 + r.below(2));
		p.table();
		p.errors = true;
		bool dflt = r.flip();
		p.no_default = !dflt;
		for (auto& f : p.fns) if (f.name.compare(0, 3, "OV_") == 0) f.overridden = r.chance(60);
		// places the handler may send execution to, before and behind everything else
		u32 land[2];
		auto landing = [&](char const* n) { u32 k = add_fn(p, n); for (int q = 0; q < 6; ++q) p.op(45); p.op(60); return static_cast<u32>(p.t[k].value); };
		land[0] = landing("L_FIRST");
		p.emit();
		land[1] = landing("L_LAST");
		auto bad = broken(p, r);
		u8 flags = 0;
		bool nulls = r.chance(30);
		if (nulls && r.flip()) flags |= DaedalusVmExecutionFlag::ALLOW_NULL_INSTANCE_ACCESS;
		d.build(flags, dflt);
		d.ref->m.limit = 6000;
		d.populate(r);
		static char const* const NAMES[] = {"no handler", "fail", "continue", "return", "lenient", "jump"};
		auto s = static_cast<Strategy>(r.below(6));
		d.ref->m.landing = land[r.below(2)];
		d.handler(s);
		u64 before = d.ref->m.errors;
		for (u32 n = 6 + r.below(20); n > 0; --n) {
			if (r.chance(70)) d.entry(r, r.below(p.entries), nulls);
			else {
				auto& b = bad[r.below(static_cast<u32>(bad.size()))];
				label(b.what);
				u32 times = !r.chance(15) ? 1 : b.deep ? 2 : 40;
				if (b.deep && r.chance(50)) continue;
				for (u32 k = 0; k < times; ++k) {
					bool by_name = r.flip();
					d.both(b.what, b.nargs,
					       [&] { d.ref->m.call_native(b.sym, {}); d.ref->m.st.clear(); return RVal {}; },
					       [&] {
						       if (by_name) d.vm->vm.call_function(p.t[b.sym].name); else d.vm->vm.call_function(d.vm->sym(b.sym));
						       return RVal {};
					       });
				}
				count(std::string("provoked: ") + b.what);
			}
			if (r.chance(10)) {
				// instances are still initialised properly
				u32 sym = r.pick(p.natives);
				auto o = std::make_shared<Native>();
				d.vm->objs.push_back(o), d.vm->cls.push_back(p.cls[0]);
				int k = d.ref->m.new_instance(sym);
				d.run_init(sym, k, o);
			}
		}
		count(std::string("errors compared: ") + NAMES[static_cast<int>(s)], d.ref->m.errors - before);
		d.finish();
	}
} // namespace

void vp_case(vp::Rng& r, u64) {
	if (run.prop == "C19") programs(r);
	if (run.prop == "C21") failing(r);
}
