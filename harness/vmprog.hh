// The script machine: generator of random typed programs and the comparison of the machine with the plain interpreter.
// Random typed programs are encoded independently, interpreted by the plain interpreter in
// vmref.hh and executed by the machine; a hook in the machine compares every executed instruction online, and results,
// all variables, instance members, native calls and the stacks are compared after every call.
#pragma once
#include "vmref.hh"
#include "vmtypes.hh"

namespace zenkit {
	extern void (*zk_vp_exec_hook)(DaedalusVm&, DaedalusInstruction const&, std::size_t stack, std::size_t calls);
}

namespace vpm {
	inline bool same(float a, float b) { return std::memcmp(&a, &b, 4) == 0; }

	// ================================================================ generated programs
	struct Var { u32 sym, type, count; bool cst; int cls; }; // cls: 0 native, 1 opaque, -1 none
	struct Fn {
		u32 sym = 0;
		std::string name;
		std::vector<u32> ptypes;
		u32 ret = T_VOID;
		std::vector<Var> params, locals;
		bool leaf = false;   // calls no externals which call back
		bool recursive = false, enabled = false;
		int via = -1, back = -1; // the function through which this one calls itself; the one this one calls back
		bool overridden = false;
		bool ignored_results = false;
	};
	enum Ext { X_II, X_FF, X_SS, X_N, X_LOG, X_CALL, X_NEST, X_INIT, X_BOOL, X_COUNT, X_RAW, X_DEFAULT, X_THROW, X_MANY, X_COUNT_ };

	struct Prog {
		Rng& r;
		std::vector<RSym> t;
		std::string code;
		std::vector<Var> globals;
		std::vector<Var> members[2];
		u32 cls[2] {}, proto[2] {}, self = 0, trap = 0, setup = 0;
		std::vector<u32> natives, opaques;  // constant instance symbols
		std::vector<Fn> fns;
		std::vector<u32> cb;                // indices into fns: int(int)
		u32 cb_s = 0;                       // string(string)
		u32 entry0 = 0, entries = 0;
		u32 ext[X_COUNT_] {};
		std::vector<u32> literals, loops;
		u32 nextloop = 0;
		int size = 3;
		bool errors = false, nulls = false;
		u32 default_kind() const { return static_cast<u32>(t.size() % 3); } // which kind of handler takes the calls of X_DEFAULT
		bool no_default = false; // calls of X_DEFAULT fail
		std::vector<std::string> planted; // error snippets emitted
		explicit Prog(Rng& r) : r(r) {}

		// ------------------------------------------------------------ symbols
		u32 add(RSym s) { t.push_back(std::move(s)); return static_cast<u32>(t.size()) - 1; }
		std::string txt() {
			std::string s;
			for (u32 n = r.chance(10) ? r.below(200) : r.below(10); n > 0; --n) s.push_back(static_cast<char>(' ' + r.below(60)));
			return s;
		}
		void fill(RSym& s) {
			for (u32 k = 0; k < s.count; ++k) {
				if (s.type == T_INT) s.i.push_back(r.i());
				if (s.type == T_FLOAT) s.f.push_back(r.f());
				if (s.type == T_STRING) s.s.push_back(txt());
			}
		}
		Var var(std::string name, u32 type, u32 count, bool cst, int c = -1) {
			RSym s;
			s.name = std::move(name), s.type = type, s.count = count;
			if (cst) s.flags |= F_CONST;
			fill(s);
			s.value = -1;
			if (type == T_INST && c >= 0) s.parent = static_cast<i32>(cls[c]);
			return {add(s), type, count, cst, c};
		}
		void global_vars() {
			for (u32 k = 0; k < 4; ++k) globals.push_back(var(fmt("GI%u", k), T_INT, 1, false));
			globals.push_back(var("GA", T_INT, 2 + r.below(9), false));
			globals.push_back(var("GBIG", T_INT, 250 + r.below(60), false));
			for (u32 k = 0; k < 2; ++k) globals.push_back(var(fmt("GF%u", k), T_FLOAT, 1, false));
			globals.push_back(var("GFA", T_FLOAT, 2 + r.below(5), false));
			for (u32 k = 0; k < 3; ++k) globals.push_back(var(fmt("GS%u", k), T_STRING, 1, false));
			globals.push_back(var("GSA", T_STRING, 2 + r.below(4), false));
			globals.push_back(var("CI", T_INT, 1, true));
			globals.push_back(var("CIA", T_INT, 5, true));
			globals.push_back(var("CF", T_FLOAT, 1, true));
			globals.push_back(var("CS", T_STRING, 1, true));
			globals.push_back(var("CSA", T_STRING, 3, true));
			for (u32 k = 0; k < 2; ++k) globals.push_back(var(fmt("GFN%u", k), T_FUNC, 1, false));
			for (u32 k = 0; k < 8; ++k) literals.push_back(var(fmt("\xFF%u", 1000 + k), T_STRING, 1, true).sym);
			for (u32 k = 0; k < 40; ++k) loops.push_back(var(fmt("LOOP%u", k), T_INT, 1, false).sym);
			trap = var("TRAPPED", T_INT, 1, false).sym;
		}
		void member(int c, char const* cn, char const* n, u32 type, u32 count) {
			RSym s;
			s.name = fmt("%s.%s", cn, n), s.type = type, s.count = count, s.flags = F_MEMBER, s.parent = static_cast<i32>(cls[c]);
			members[c].push_back({add(s), type, count, false, c});
		}
		void classes() {
			RSym s;
			s.type = T_CLASS, s.name = "CN", s.count = 7, s.value = 0, s.vary = 100;
			cls[0] = add(s);
			member(0, "CN", "ONE", T_INT, 1), member(0, "CN", "MANY", T_INT, 7), member(0, "CN", "REAL", T_FLOAT, 1), member(0, "CN", "REALS", T_FLOAT, 5);
			member(0, "CN", "TEXT", T_STRING, 1), member(0, "CN", "TEXTS", T_STRING, 4), member(0, "CN", "FN", T_FUNC, 1);
			s.name = "CO";
			cls[1] = add(s);
			u32 n = 3 + r.below(5);
			for (u32 k = 0; k < n; ++k) member(1, "CO", fmt("M%u", k).c_str(), k == 0 ? T_INT : k == 1 ? T_STRING : r.pick<u32>({T_INT, T_FLOAT, T_STRING, T_FUNC}), r.flip() ? 1 : 1 + r.below(6));
			for (int c = 0; c < 2; ++c) {
				RSym p;
				p.type = T_PROTO, p.name = c == 0 ? "PN" : "PO", p.count = 0, p.parent = static_cast<i32>(cls[c]), p.flags = F_CONST;
				proto[c] = add(p);
			}
			self = var("SELF", T_INST, 1, false, 0).sym;
			for (u32 k = 0; k < 2; ++k) globals.push_back(var(fmt("GN%u", k), T_INST, 1, false, 0));
			globals.push_back(var("OTHER", T_INST, 1, false, 0));
			globals.push_back(var("GO0", T_INST, 1, false, 1));
			for (u32 k = 0; k < 3; ++k) {
				RSym p;
				p.type = T_INST, p.name = fmt("NI%u", k), p.count = 0, p.flags = F_CONST, p.parent = static_cast<i32>(k == 1 ? proto[0] : cls[0]);
				natives.push_back(add(p));
			}
			for (u32 k = 0; k < 2; ++k) {
				RSym p;
				p.type = T_INST, p.name = fmt("OI%u", k), p.count = 0, p.flags = F_CONST, p.parent = static_cast<i32>(k == 1 ? proto[1] : cls[1]);
				opaques.push_back(add(p));
			}
		}
		u32 function(Fn f, bool external = false) {
			RSym s;
			s.name = f.name, s.type = T_FUNC, s.count = static_cast<u32>(f.ptypes.size()), s.flags = F_CONST;
			if (external) s.flags |= F_EXTERNAL;
			if (f.ret != T_VOID) s.flags |= F_RETURN;
			s.vary = f.ret;
			f.sym = add(s);
			t[f.sym].value = external ? -1000 - static_cast<i32>(f.sym) : 0;
			for (u32 k = 0; k < f.ptypes.size(); ++k) f.params.push_back(var(fmt("%s.P%u", f.name.c_str(), k), f.ptypes[k], 1, false, f.ptypes[k] == T_INST ? 0 : -1));
			if (!external)
				for (u32 n = f.enabled ? 2 + r.below(4) : r.below(3); n > 0; --n) {
					u32 ty = r.pick<u32>({T_INT, T_INT, T_STRING, T_FLOAT, T_INT, T_STRING, T_FLOAT, T_INST, T_FUNC});
					if (ty == T_INST || ty == T_FUNC) {
						f.locals.push_back(var(fmt("%s.L%u", f.name.c_str(), n), ty, 1, false, ty == T_FUNC ? -1 : r.chance(75) ? 0 : 1));
						continue;
					}
					f.locals.push_back(var(fmt("%s.L%u", f.name.c_str(), n), ty, r.chance(75) ? 1 : 1 + r.below(4), r.chance(8)));
				}
			fns.push_back(f);
			return static_cast<u32>(fns.size()) - 1;
		}
		u32 external(char const* n, std::vector<u32> p, u32 ret) {
			Fn f;
			f.name = n, f.ptypes = std::move(p), f.ret = ret;
			u32 k = function(f, true), s = fns[k].sym;
			fns.pop_back();
			return s;
		}
		Fn make(std::string n, std::vector<u32> p, u32 ret) {
			Fn f;
			f.name = std::move(n), f.ptypes = std::move(p), f.ret = ret;
			f.recursive = !f.ptypes.empty() && f.ptypes[0] == T_INT && r.chance(35);
			f.enabled = f.recursive && r.flip();
			return f;
		}
		void table() {
			auto vars = [&] { global_vars(); };
			auto exts = [&] {
				ext[X_II] = external("X_II", {T_INT, T_INT}, T_INT);
				ext[X_FF] = external("X_FF", {T_FLOAT, T_INT}, T_FLOAT);
				ext[X_SS] = external("X_SS", {T_STRING, T_STRING}, T_STRING);
				ext[X_N] = external("X_N", {T_INST}, T_INST);
				ext[X_LOG] = external("X_LOG", {T_STRING, T_FLOAT, T_INT, T_INST}, T_VOID);
				ext[X_CALL] = external("X_CALL", {T_FUNC, T_INT}, T_INT);
				ext[X_NEST] = external("X_NEST", {T_STRING}, T_STRING);
				ext[X_INIT] = external("X_INIT", {T_INT}, T_VOID);
				ext[X_BOOL] = external("X_BOOL", {T_INT}, T_INT);
				ext[X_COUNT] = external("X_COUNT", {}, T_INT);
				ext[X_RAW] = external("X_RAW", {T_INST, T_INT}, T_INT);
				ext[X_DEFAULT] = external("X_DEFAULT", {T_STRING, T_INST, T_INT}, r.pick<u32>({T_STRING, T_INT, T_FLOAT, T_VOID, T_INST}));
				ext[X_THROW] = external("X_THROW", {T_INT, T_STRING}, T_INT);
				ext[X_MANY] = external("X_MANY", {T_INT, T_STRING, T_FLOAT, T_STRING, T_INST, T_FUNC, T_INT, T_STRING}, T_STRING);
			};
			classes();
			if (r.flip()) vars(), exts(); else exts(), vars();
			entry0 = 0;
			setup = external("SETUP", {T_INST, T_INT}, T_VOID);
			t[setup].flags &= ~F_EXTERNAL;
			function(make("E_II", {T_INT, T_INT}, T_INT));
			function(make("E_V", {}, T_VOID));
			function(make("E_SS", {T_STRING}, T_STRING));
			function(make("E_FF", {T_FLOAT, T_INT}, T_FLOAT));
			function(make("E_NN", {T_INST}, T_INST));
			function(make("E_FN", {T_INT}, T_FUNC));
			function(make("E_ALL", {T_INT, T_STRING, T_FLOAT, T_INST, T_INT}, T_STRING));
			entries = 7;
			auto ni = make("F_NI", {T_INT}, T_INST);
			if (r.flip()) ni.recursive = ni.enabled = true;
			function(ni);
			for (u32 k = 2 + r.below(4); k > 0; --k) {
				std::vector<u32> p;
				for (u32 m = r.below(5); m > 0; --m) p.push_back(r.pick<u32>({T_INT, T_INT, T_STRING, T_FLOAT, T_INST, T_FUNC}));
				function(make(fmt("F%u", k), p, r.pick<u32>({T_INT, T_INT, T_STRING, T_FLOAT, T_INST, T_VOID, T_FUNC})));
			}
			function(make("OV_II", {T_INT, T_INT}, T_INT));
			function(make("OV_SS", {T_STRING, T_STRING}, T_STRING));
			function(make("OV_NK", {T_INT}, T_INT));
			function(make("OV_V", {T_STRING, T_FLOAT, T_INT, T_INST}, T_VOID));
			cb_s = function(make("CB_S", {T_STRING}, T_STRING)), fns[cb_s].leaf = true;
			for (u32 k = 0; k < 3; ++k) cb.push_back(function(make(fmt("CB%u", k), {T_INT}, T_INT))), fns[cb.back()].leaf = true;
			for (u32 k = 0, n = static_cast<u32>(fns.size()); k < n; ++k) if (fns[k].recursive && !fns[k].leaf && r.chance(50)) {
				auto v = make("VIA_" + fns[k].name, fns[k].ptypes, fns[k].ret);
				v.recursive = false, v.enabled = r.flip(), v.back = static_cast<int>(k);
				u32 at = function(v);
				fns[k].via = static_cast<int>(at);
			}
		}

		// ------------------------------------------------------------ code
		void op(u8 o) { code.push_back(static_cast<char>(o)); }
		void arg(u32 v) { for (int k = 0; k < 4; ++k) code.push_back(static_cast<char>(v >> (8 * k))); }
		void op(u8 o, u32 v) { op(o), arg(v); }
		u32 at() const { return static_cast<u32>(code.size()); }
		void patch(u32 pos, u32 v) { for (int k = 0; k < 4; ++k) code[pos + static_cast<u32>(k)] = static_cast<char>(v >> (8 * k)); }
		void pushv(Var const& v, u32 idx) {
			if (idx == 0 && r.chance(70)) op(r.chance(80) ? 65 : 67, v.sym);
			else op(245, v.sym), code.push_back(static_cast<char>(idx));
		}
		Fn const* cur = nullptr;
		int gi_cls = -1; // class of the current instance while instance code is emitted

		std::vector<Var> pool(u32 type, bool write, int c = -1) {
			std::vector<Var> p;
			auto ok = [&](Var const& v) { if (v.type == type && !(write && v.cst) && (type != T_INST || v.cls == c)) p.push_back(v); };
			for (auto& v : globals) ok(v);
			if (cur != nullptr) for (int n = 0; n < 3; ++n) { for (auto& v : cur->params) ok(v); for (auto& v : cur->locals) ok(v); }
			return p;
		}
		u32 inst_sym(int c) {
			auto p = pool(T_INST, false, c);
			if (p.empty() || r.chance(40)) return r.pick(c == 0 ? natives : opaques);
			return r.pick(p).sym;
		}
		// pushes a reference to a variable, element or member of the given type
		void ref(u32 type, bool write) {
			if (type != T_INST && r.chance(25)) {
				int c = cur == nullptr ? gi_cls : static_cast<int>(r.below(2));
				std::vector<Var> m;
				for (auto& v : members[c]) if (v.type == type) m.push_back(v);
				if (!m.empty()) {
					auto& v = r.pick(m);
					if (cur != nullptr) op(80, inst_sym(c)); // code of instances uses the instance being initialised
					pushv(v, r.below(std::min(v.count, 256u)));
					return;
				}
			}
			auto p = pool(type, write, 0);
			auto& v = r.pick(p);
			pushv(v, r.below(std::min(v.count, 256u)));
		}
		void call(Fn const& f, int d) {
			for (u32 k = 0; k < f.ptypes.size(); ++k) expr(f.ptypes[k], d - 1);
			op(61, static_cast<u32>(t[f.sym].value));
		}
		void be(Ext x, int d) {
			static std::map<int, std::vector<u32>> const P = {{X_II, {T_INT, T_INT}}, {X_FF, {T_FLOAT, T_INT}}, {X_SS, {T_STRING, T_STRING}}, {X_N, {T_INST}},
			    {X_LOG, {T_STRING, T_FLOAT, T_INT, T_INST}}, {X_CALL, {T_FUNC, T_INT}}, {X_NEST, {T_STRING}}, {X_INIT, {T_INT}}, {X_BOOL, {T_INT}}, {X_COUNT, {}},
			    {X_RAW, {T_INST, T_INT}}, {X_DEFAULT, {T_STRING, T_INST, T_INT}}, {X_THROW, {T_INT, T_STRING}},
			    {X_MANY, {T_INT, T_STRING, T_FLOAT, T_STRING, T_INST, T_FUNC, T_INT, T_STRING}}};
			for (auto p : P.at(x)) expr(p, d - 1);
			op(62, ext[x]);
		}
		bool may_call_back() const { return cur != nullptr && !cur->leaf; }
		// a function of the given type which may be called from here, or nullptr
		Fn const* callee(u32 ret) {
			std::vector<Fn const*> c;
			if (cur == nullptr) return nullptr;
			u32 from = static_cast<u32>(cur - fns.data()) + 1;
			for (u32 k = std::max(from, entries); k < fns.size(); ++k) if (fns[k].ret == ret && fns[k].back < 0 && (!cur->leaf || fns[k].leaf)) c.push_back(&fns[k]);
			return c.empty() ? nullptr : r.pick(c);
		}
		void expr(u32 type, int d) {
			if (d > 0 && errors && r.chance(2)) { bad(type, d); return; }
			if (d > 0 && r.chance(18)) if (auto* f = callee(type)) { call(*f, d); return; }
			switch (type) {
			case T_INT: return int_expr(d);
			case T_FLOAT:
				if (d > 0 && r.chance(15)) return be(X_FF, d);
				if (r.chance(35)) { float f = r.f(); u32 b = r.u(); if (r.flip()) std::memcpy(&b, &f, 4); op(64, b); }
				else ref(T_FLOAT, false);
				break;
			case T_STRING:
				if (d > 0 && r.chance(20)) return be(may_call_back() && r.flip() ? X_NEST : r.chance(20) && d > 1 ? X_MANY : X_SS, d);
				if (d > 0 && t[ext[X_DEFAULT]].vary == T_STRING && !(no_default && cur == nullptr) && r.chance(5)) return be(X_DEFAULT, d);
				if (r.chance(35)) op(65, r.pick(literals)); else ref(T_STRING, false);
				break;
			case T_INST:
				if (d > 0 && r.chance(25)) return be(X_N, d);
				op(r.flip() ? 65 : 67, inst_sym(0));
				break;
			case T_FUNC: {
				auto p = pool(T_FUNC, false);
				if (!p.empty() && r.flip()) op(65, r.pick(p).sym);
				else if (r.chance(20)) for (auto& v : globals) { if (v.type == T_FUNC) { op(64, v.sym); break; } }
				else op(64, fns[r.pick(cb)].sym);
				break;
			}
			default: break;
			}
		}
		void int_expr(int d) {
			if (d <= 0) { if (r.chance(45)) op(64, r.u()); else ref(T_INT, false); return; }
			switch (r.below(10)) {
			case 0: op(64, r.u()); break;
			case 1: case 2: ref(T_INT, false); break;
			case 3: int_expr(d - 1); op(r.pick<u8>({30, 31, 32, 33})); break;
			case 4:
				if (may_call_back()) switch (r.below(8)) {
					case 0: return be(X_CALL, d);
					case 1: return be(X_BOOL, d);
					case 2: return be(X_COUNT, d);
					case 3: return be(X_RAW, d);
					case 4: op(65, trap); return;
					default: return be(X_II, d);
					}
				return be(X_II, d);
			case 5: {
				// division: the divisor is pushed first
				if (r.flip()) { u32 v = r.chance(20) ? ~0u : r.u(); op(64, v == 0 ? 7 : v); }
				else expr(T_INT, d - 1), op(64, 1), op(5);
				expr(T_INT, d - 1);
				op(r.flip() ? 3 : 4);
				break;
			}
			default: {
				expr(T_INT, d - 1), expr(T_INT, d - 1);
				op(r.pick<u8>({0, 1, 2, 5, 6, 7, 8, 11, 12, 13, 14, 15, 16, 17, 18}));
			}
			}
		}
		static u8 assign(u32 type) { return type == T_INT ? 9 : type == T_FLOAT ? 73 : type == T_STRING ? 70 : type == T_FUNC ? 72 : 74; }
		void recurse(Fn* f) {
			// calls itself while its first parameter lasts
			op(64, 0), op(65, f->params[0].sym), op(8);
			op(76); u32 p = at(); arg(0);
			op(64, 1), op(65, f->params[0].sym), op(1);
			for (u32 k = 1; k < f->ptypes.size(); ++k) expr(f->ptypes[k], 1);
			bool via = f->via >= 0 && r.chance(60);
			if (via) count("indirect recursion");
			op(61, static_cast<u32>(t[via ? fns[static_cast<u32>(f->via)].sym : f->sym].value));
			result(f->ret);
			patch(p, at());
			op(45);
		}
		void stmt(Fn* f, int d) {
			if (errors && r.chance(6)) { bad(T_VOID, 2); return; }
			switch (r.below(12)) {
			case 0: case 1: case 2: case 3: {
				u32 ty = r.pick<u32>({T_INT, T_INT, T_INT, T_STRING, T_STRING, T_FLOAT, T_INST, T_FUNC});
				if (ty == T_INST) {
					bool o = r.chance(30);
					if (o) op(65, inst_sym(1)); else expr(T_INST, size);
					auto p = pool(T_INST, true, o ? 1 : 0);
					op(r.flip() ? 65 : 67, r.pick(p).sym);
					op(74);
				} else if (ty == T_FUNC) {
					// the first function variable is referred to by number and only ever holds functions
					std::vector<Var> p;
					bool first = true;
					for (auto& v : pool(T_FUNC, true)) { if (!first) p.push_back(v); first = false; }
					if (p.empty() || r.chance(30)) op(64, fns[r.pick(cb)].sym), op(65, pool(T_FUNC, true)[0].sym);
					else expr(T_FUNC, size), op(65, r.pick(p).sym);
					op(72);
				} else expr(ty, size), ref(ty, true), turn(), op(assign(ty));
				break;
			}
			case 4: case 5: {
				u8 o = r.pick<u8>({19, 20, 21, 22});
				if (o == 22) { if (r.flip()) op(64, r.u() | 1); else expr(T_INT, size), op(64, 1), op(5); }
				else expr(T_INT, size);
				ref(T_INT, true), turn();
				op(o);
				break;
			}
			case 6: if (d > 0) {
				expr(T_INT, size);
				op(76); u32 p = at(); arg(0);
				block(f, d - 1);
				if (r.flip()) {
					op(75); u32 q = at(); arg(0);
					patch(p, at());
					block(f, d - 1);
					patch(q, at());
				} else patch(p, at());
				op(45);
				break;
			} [[fallthrough]];
			case 7: if (d > 0 && nextloop < loops.size()) {
				u32 l = loops[nextloop++];
				op(64, 1 + r.below(4)), op(65, l), op(9);
				u32 top = at();
				op(64, 0), op(65, l), op(8);
				op(76); u32 p = at(); arg(0);
				block(f, d - 1);
				op(64, 1), op(65, l), op(20);
				op(75, top);
				patch(p, at());
				op(45);
				break;
			} [[fallthrough]];
			case 8: {
				// a call whose result is not used stays on the stack until the function returns
				u32 ret = r.pick<u32>({T_VOID, T_VOID, T_INT, T_STRING, T_INST});
				if (auto* c = callee(ret)) { call(*c, size); if (ret != T_VOID && f != nullptr) f->ignored_results = true; break; }
			} [[fallthrough]];
			case 9: be(X_LOG, size); break;
			case 10:
				if (may_call_back() && f != nullptr) {
					if (r.flip()) be(X_INIT, size);
					else { be(X_DEFAULT, size); if (t[ext[X_DEFAULT]].vary != T_VOID) f->ignored_results = true; }
					break;
				} [[fallthrough]];
			default:
				if (f != nullptr && f->recursive && r.chance(60)) {
					recurse(f);
				} else if (f != nullptr && f->ret != T_VOID && r.chance(20)) {
					expr(f->ret, size), op(60);
				} else op(45);
			}
		}
		// makes another instance the current one: a reference which was taken before stays what it is
		void turn() { if (cur != nullptr && r.chance(8)) op(80, inst_sym(static_cast<int>(r.below(2)))); }
		// takes the value a call has left
		void result(u32 ret) {
			if (ret == T_VOID) {}
			else if (ret == T_FUNC) { op(65, pool(T_FUNC, true)[1].sym); op(72); }
			else { if (ret == T_INST) op(65, pool(T_INST, true, 0)[0].sym); else ref(ret, true), turn(); op(assign(ret)); }
		}
		std::vector<std::pair<u32, u32>> later; // calls of functions which are emitted later
		void block(Fn* f, int d) { for (u32 n = 1 + r.below(4); n > 0; --n) stmt(f, d); }

		// ------------------------------------------------------------ errors
		// leaves a value of the given type when execution continues, if that is possible at all
		void bad(u32 type, int d) {
			auto note = [&](char const* n) { planted.push_back(n); count(std::string("planted: ") + n); };
			auto val = [&](u32 ty) { expr(ty, std::min(d - 1, 1)); };
			bool as_int = type == T_INT || type == T_VOID;
			switch (r.below(as_int ? 14 : 6)) {
			case 0: note("unregistered external"); val(T_STRING), val(T_INST), op(64, 5), op(62, ext[X_DEFAULT]); break;
			case 1: note("missing symbol"); op(65, static_cast<u32>(t.size()) + 1 + r.below(100)); break;
			case 2: note("call without a function"); op(61, r.chance(50) ? 0xFFFFFF : 1); break;
			case 3: note("throwing native function"); op(64, r.below(3)); val(T_STRING); op(62, ext[X_THROW]); break;
			case 4: note("jump outside"); op(75, r.chance(50) ? 0x7FFFFFFF : 0xFFFFFFF0); break;
			case 5: note("missing symbol for element"); op(245, 0xFFFFFF), code.push_back(1); break;
			case 6: note("division by zero"); op(64, 0); val(T_INT); op(r.flip() ? 3 : 4); break;
			case 7: note("index out of bounds"); for (auto& v : globals) if (v.type == T_INT && !v.cst && v.count < 200 && v.count > 1) { op(64, 5), op(245, v.sym), code.push_back(static_cast<char>(v.count + r.below(50))), op(9); break; } break;
			case 8: note("assignment to a constant"); val(T_INT); for (auto& v : globals) if (v.type == T_INT && v.cst) { op(65, v.sym), op(r.pick<u8>({9, 19, 20, 21})); break; } break;
			case 9: note("wrong type"); val(T_STRING); for (auto& v : globals) if (v.type == T_INT && !v.cst) { op(65, v.sym), op(9); break; } break;
			case 10: note("assignment to a value"); op(64, 1), op(64, 2), op(r.pick<u8>({9, 70, 73, 74, 19})); break;
			case 11: note("not implemented"); op(71); break;
			case 12: note("context of a wrong class"); op(80, opaques[0]), op(65, members[0][0].sym), op(31); break;
			case 13: note("self division by zero"); op(64, 0), op(65, globals[0].sym), op(22); break;
			}
		}

		void emit() {
			op(45), op(45); // nothing starts at address zero
			for (int c = 0; c < 2; ++c) {
				t[proto[c]].value = static_cast<i32>(at());
				cur = nullptr, gi_cls = c;
				bool e = errors;
				errors = false;
				for (u32 n = 1 + r.below(4); n > 0; --n) {
					u32 ty = r.pick<u32>({T_INT, T_STRING});
					auto& m = members[c][0];
					if (ty == T_INT) op(64, r.u()), op(65, m.sym), op(9);
					else for (auto& v : members[c]) if (v.type == T_STRING) { op(65, r.pick(literals)), pushv(v, r.below(v.count)), op(70); break; }
				}
				op(60);
				errors = e;
			}
			// void SETUP(var CN p0, var int p1) { p0.one = p1; }
			t[setup].value = static_cast<i32>(at());
			op(65, setup + 2), op(9), op(67, setup + 1), op(74);
			op(80, setup + 1), op(65, setup + 2), op(65, members[0][0].sym), op(9), op(60);
			for (u32 k = static_cast<u32>(fns.size()); k-- > 0;) {
				auto& f = fns[k];
				if (r.chance(30)) op(45);
				t[f.sym].value = static_cast<i32>(at());
				cur = &f, gi_cls = -1;
				bool e = errors;
				if (f.name.compare(0, 2, "CB") == 0 || !r.chance(60)) errors = false;
				for (u32 p = static_cast<u32>(f.params.size()); p-- > 0;) op(f.ptypes[p] == T_INST && r.flip() ? 67 : 65, f.params[p].sym), op(assign(f.ptypes[p]));
				if (f.recursive) op(64, f.enabled ? 7 : 3), op(65, f.params[0].sym), op(6), op(65, f.params[0].sym), op(9);
				// instances and functions kept by a local variable while the function calls itself: other ones before and after
				auto scatter = [&] {
					if (f.enabled) for (auto& v : f.locals) {
						if (v.type == T_INST) op(65, r.pick(v.cls == 0 ? natives : opaques)), op(65, v.sym), op(74);
						else if (v.type == T_FUNC) op(64, fns[r.pick(cb)].sym), op(65, v.sym), op(72);
					}
				};
				if (r.chance(80)) scatter();
				if (f.back >= 0) { // as long as its first parameter is what it was given
					for (auto& p : f.params) op(p.type == T_INST ? 67 : 65, p.sym);
					op(61), later.emplace_back(at(), fns[static_cast<u32>(f.back)].sym), arg(0);
					result(f.ret);
				}
				for (u32 n = 1 + r.below(f.leaf ? 3 : 6); n > 0; --n) stmt(&f, 2);
				if (f.enabled && f.recursive && r.chance(60)) recurse(&f);
				if (r.chance(70)) scatter();
				errors = e;
				if (f.ret != T_VOID && (f.ignored_results || f.recursive || !r.chance(12))) {
					std::vector<Var> own;
					for (auto& v : f.locals) if (v.type == f.ret && (v.type != T_INST || v.cls == 0)) own.push_back(v);
					if (!own.empty() && r.chance(f.enabled ? 60 : 30)) { auto& v = r.pick(own); if (v.type == T_INST || v.type == T_FUNC) op(65, v.sym); else pushv(v, r.below(v.count)); }
					else expr(f.ret, size);
				}
				op(60);
			}
			for (auto& [pos, sym] : later) patch(pos, static_cast<u32>(t[sym].value));
			for (int c = 0; c < 2; ++c)
				for (auto s : c == 0 ? natives : opaques) {
					t[s].value = static_cast<i32>(at());
					cur = nullptr, gi_cls = c;
					bool e = errors;
					errors = false;
					if (static_cast<u32>(t[s].parent) == proto[c]) op(61, static_cast<u32>(t[proto[c]].value));
					if (c == 0 && r.flip()) op(65, self), op(64, r.u()), op(61, static_cast<u32>(t[setup].value));
					for (u32 n = 1 + r.below(5); n > 0; --n) {
						u32 ty = r.pick<u32>({T_INT, T_STRING, T_FLOAT});
						expr(ty, 1), ref(ty, true), op(assign(ty));
					}
					op(60);
					errors = e;
				}
		}
	};

	// ================================================================ the two machines
	using V = std::vector<RVal>;
	struct Side {
		std::vector<std::string> log;
		i32 counter = 0;
		virtual RVal call(u32 fn, V const& args) = 0;
		virtual void init(u32 sym) = 0;
		virtual i32 get_one(int inst) = 0;
		virtual void set_one(int inst, i32 v) = 0;
		virtual void err() = 0;
		virtual void native_err() = 0;
		virtual ~Side() = default;
	};
	inline std::string show(V const& a) { std::string s; for (auto& x : a) s += x.show() + ","; return s; }

	// what the native functions do, whichever machine calls them
	inline RVal behave(Prog const& p, Side& s, int x, V const& a) {
		s.log.push_back(fmt("%d(%s)", x, show(a).c_str()));
		switch (x) {
		case X_II: return RVal::I(static_cast<i32>(static_cast<u32>(a[0].i) * 31u + static_cast<u32>(a[1].i)));
		case X_FF: return RVal::F(a[0].f + static_cast<float>(a[1].i % 1000));
		case X_SS: return RVal::S((a[0].s + "|" + a[1].s).substr(0, 300));
		case X_N: return a[0];
		case X_CALL: {
			bool known = false;
			for (auto k : p.cb) known = known || static_cast<i32>(p.fns[k].sym) == a[0].i;
			if (!known) return RVal::I(-9);
			auto r = s.call(static_cast<u32>(a[0].i), {a[1]});
			return RVal::I(static_cast<i32>(static_cast<u32>(r.i) + 1u));
		}
		case X_NEST: {
			auto r = s.call(p.fns[p.cb_s].sym, {RVal::S("<" + a[0].s.substr(0, 100))});
			s.log.push_back("after " + show(a) + r.show());
			return RVal::S((a[0].s + ">" + r.s).substr(0, 300));
		}
		case X_INIT: s.init(p.natives[static_cast<u32>(a[0].i) % p.natives.size()]); return {};
		case X_BOOL: return RVal::I(a[0].i == 0);
		case X_COUNT: return RVal::I(++s.counter);
		case X_RAW: {
			if (a[0].inst < 0) return RVal::I(-5);
			i32 v = s.get_one(a[0].inst);
			s.set_one(a[0].inst, static_cast<i32>(static_cast<u32>(v) ^ static_cast<u32>(a[1].i)));
			return RVal::I(v);
		}
		case X_THROW:
			if (a[0].i % 3 == 0) s.err();
			if (a[0].i % 3 == 1) s.native_err();
			return RVal::I(99);
		case X_MANY: return RVal::S((a[1].s + a[3].s + a[7].s).substr(0, 300));
		default: return {};
		}
	}

	struct Machine : Side {
		Prog& p;
		DaedalusVm vm;
		std::vector<std::shared_ptr<DaedalusInstance>> objs;
		std::vector<u32> cls; // class symbol per object
		static DaedalusScript script(Prog const& p) {
			auto b = encode_dat(p.t, p.code);
			auto rd = mem(b);
			DaedalusScript s;
			s.load(rd.get());
			return s;
		}
		DaedalusSymbol* sym(u32 k) { return vm.find_symbol_by_index(k); }
		int id(DaedalusInstance const* i) const {
			if (i == nullptr) return -1;
			for (u32 k = 0; k < objs.size(); ++k) if (objs[k].get() == i) return static_cast<int>(k);
			return -2;
		}
		std::shared_ptr<Native> nat(int k) { return k < 0 ? nullptr : std::static_pointer_cast<Native>(objs[static_cast<u32>(k)]); }
		explicit Machine(Prog& p, u8 flags) : p(p), vm(script(p), flags) {
			vm.register_member("CN.ONE", &Native::one);
			vm.register_member("cn.many", &Native::many);
			vm.register_member("CN.REAL", &Native::real);
			vm.register_member("CN.REALS", &Native::reals);
			vm.register_member("CN.TEXT", &Native::text);
			vm.register_member("CN.TEXTS", &Native::texts);
			vm.register_member("CN.FN", &Native::fn);
			vm.register_as_opaque("CO");
			auto fn_index = [](DaedalusFunction f) { return RVal::I(f.value == nullptr ? -1 : static_cast<i32>(f.value->index())); };
			vm.register_external("X_II", [this](i32 a, i32 b) { return behave(this->p, *this, X_II, {RVal::I(a), RVal::I(b)}).i; });
			vm.register_external("X_FF", [this](float a, i32 b) { return behave(this->p, *this, X_FF, {RVal::F(a), RVal::I(b)}).f; });
			vm.register_external("X_SS", [this](std::string_view a, std::string_view b) { return behave(this->p, *this, X_SS, {RVal::S(std::string(a)), RVal::S(std::string(b))}).s; });
			vm.register_external("X_N", [this](std::shared_ptr<Native> a) { return nat(behave(this->p, *this, X_N, {RVal::N(id(a.get()))}).inst); });
			vm.register_external("X_LOG", [this](std::string_view a, float b, i32 c, std::shared_ptr<DaedalusInstance> d) { behave(this->p, *this, X_LOG, {RVal::S(std::string(a)), RVal::F(b), RVal::I(c), RVal::N(id(d.get()))}); });
			vm.register_external("X_CALL", [this, fn_index](DaedalusFunction f, i32 b) { return behave(this->p, *this, X_CALL, {fn_index(f), RVal::I(b)}).i; });
			// the argument is looked at again after the nested call: it must not have changed
			vm.register_external("X_NEST", [this](std::string_view a) {
				std::string before(a);
				auto r = behave(this->p, *this, X_NEST, {RVal::S(before)});
				VP_CHECK(a == before, "argument-changed-by-nested-call", "'%s' became '%s'", esc(before).c_str(), esc(a).c_str());
				return r.s;
			});
			vm.register_external("X_INIT", [this](i32 a) { behave(this->p, *this, X_INIT, {RVal::I(a)}); });
			vm.register_external("X_BOOL", [this](bool a) { return behave(this->p, *this, X_BOOL, {RVal::I(a)}).i != 0; });
			vm.register_external("X_COUNT", [this]() { return behave(this->p, *this, X_COUNT, {}).i; });
			vm.register_external("X_RAW", [this](Native* a, i32 b) { return behave(this->p, *this, X_RAW, {RVal::N(id(a)), RVal::I(b)}).i; });
			vm.register_external("X_THROW", [this](i32 a, std::string_view b) { return behave(this->p, *this, X_THROW, {RVal::I(a), RVal::S(std::string(b))}).i; });
			vm.register_external("X_MANY", [this, fn_index](bool a, std::string_view b, float c, std::string_view d, Native* e, DaedalusFunction f, i32 g, std::string_view h) {
				return behave(this->p, *this, X_MANY, {RVal::I(a), RVal::S(std::string(b)), RVal::F(c), RVal::S(std::string(d)), RVal::N(id(e)), fn_index(f), RVal::I(g), RVal::S(std::string(h))}).s;
			});
			for (auto& f : p.fns) {
				if (f.enabled) sym(f.sym)->set_local_variables_enable(true);
				if (!f.overridden) continue;
				if (f.name == "OV_II") vm.override_function("ov_ii", [this](i32 a, i32 b) { return behave(this->p, *this, X_II, {RVal::I(a), RVal::I(b)}).i; });
				if (f.name == "OV_SS") vm.override_function("OV_SS", [this](std::string_view a, std::string_view b) { return behave(this->p, *this, X_SS, {RVal::S(std::string(a)), RVal::S(std::string(b))}).s; });
				if (f.name == "OV_V") vm.override_function("OV_V", [this](std::string_view a, float b, i32 c, std::shared_ptr<DaedalusInstance> d) { behave(this->p, *this, X_LOG, {RVal::S(std::string(a)), RVal::F(b), RVal::I(c), RVal::N(id(d.get()))}); });
				if (f.name == "OV_NK") vm.override_function("OV_NK", [this](DaedalusVm& m) { auto v = m.pop_int(); log.push_back(fmt("naked %d", v)); m.push_int(static_cast<i32>(static_cast<u32>(v) + 17u)); return DaedalusNakedCall {}; });
			}
			sym(p.trap)->set_access_trap_enable(true);
			vm.register_access_trap([this](DaedalusSymbol& s) { log.push_back(fmt("trap %u", s.index())); vm.push_int(777); });
		}
		void set_default(bool on) {
			if (!on) return;
			// (noise can also call the symbol which the machine adds to those of the script)
			auto id_of = [this](std::string_view n) { for (u32 k = 0; k < this->p.t.size(); ++k) if (this->p.t[k].name == n) return k; auto* x = vm.find_symbol_by_name(n); return x ? x->index() : u32(-1); };
			switch (p.default_kind()) {
			case 0: vm.register_default_external([this](DaedalusSymbol const& s) { log.push_back(fmt("default %u", s.index())); }); break;
			case 1: vm.register_default_external([this, id_of](std::string_view n) { log.push_back(fmt("default %u", id_of(n))); }); break;
			default:
				vm.register_default_external_custom([this](DaedalusVm& v, DaedalusSymbol& s) {
					i32 c = v.pop_int();
					auto b = v.pop_instance();
					std::string a = v.pop_string();
					log.push_back(fmt("default %u %d %d ", s.index(), c, id(b.get())) + a);
					switch (this->p.t[s.index()].vary) {
					case T_FLOAT: v.push_float(0); break;
					case T_INT: case T_FUNC: v.push_int(0); break;
					case T_STRING: v.push_string(""); break;
					case T_INST: v.push_instance(nullptr); break;
					default: break;
					}
				});
			}
		}
		RVal call(u32 fn, V const& a) override {
			auto* s = sym(fn);
			switch (p.t[fn].vary) {
			case T_INT: return RVal::I(vm.call_function<i32>(s, a[0].i));
			default: return RVal::S(vm.call_function<std::string>(s, std::string_view(a[0].s)));
			}
		}
		void init(u32 k) override {
			auto o = std::make_shared<Native>();
			objs.push_back(o), cls.push_back(p.cls[0]);
			vm.init_instance<Native>(o, sym(k));
		}
		i32 get_one(int k) override { return nat(k)->one; }
		void set_one(int k, i32 v) override { nat(k)->one = v; }
		void err() override { throw DaedalusVmException {"native script error"}; }
		void native_err() override { throw NativeFailure {"native failure"}; }
	};

	struct Model : Side {
		Prog& p;
		RefVm m;
		explicit Model(Prog& p) : p(p) {
			m.load(p.t, p.code);
			for (int x = 0; x < X_COUNT_; ++x) if (x != X_DEFAULT) m.externals[p.ext[x]] = [this, x](RefVm&) { native(x, this->p.ext[x]); };
			for (auto& f : p.fns) {
				if (f.enabled) m.locals_enabled.insert(f.sym);
				if (!f.overridden) continue;
				u32 fs = f.sym;
				u32 addr = static_cast<u32>(p.t[fs].value);
				auto as = [&](int x) { m.overrides[addr] = [this, x, fs](RefVm& r) { r.enter(fs); native(x, fs); r.leave(); }; };
				if (f.name == "OV_II") as(X_II);
				if (f.name == "OV_SS") as(X_SS);
				if (f.name == "OV_V") as(X_LOG);
				if (f.name == "OV_NK") m.overrides[addr] = [this](RefVm& r) { i32 v = r.pop_int(); log.push_back(fmt("naked %d", v)); r.push(RVal::I(static_cast<i32>(static_cast<u32>(v) + 17u))); };
			}
			m.trapped.insert(p.trap);
			m.trap = [this](RefVm& r, u32 k) { log.push_back(fmt("trap %u", k)); r.push(RVal::I(777)); };
		}
		void set_default(bool on) {
			if (!on) return;
			m.default_external = [this](RefVm& r, u32 k) {
				if (p.default_kind() == 2) {
					i32 c = r.pop_int();
					int b = r.pop_inst();
					std::string a = r.pop_str();
					log.push_back(fmt("default %u %d %d ", k, c, b) + a);
					r.push_default(r.t[k].vary);
					return;
				}
				u32 n = std::min<u32>(r.nparams(k), static_cast<u32>(r.st.size()));
				r.st.resize(r.st.size() - n);
				if (r.t[k].flags & F_RETURN) r.push_default(r.t[k].vary);
				log.push_back(fmt("default %u", k));
			};
		}
		i32 function_value(i32 v) {
			u32 k = static_cast<u32>(v);
			for (u32 n = 0; k < m.t.size() && m.t[k].type == T_FUNC && !(m.t[k].flags & F_CONST); ++n) {
				if (n > m.t.size()) m.err("function variable refers to itself");
				k = static_cast<u32>(*m.cell_i(k, 0, -1));
			}
			return k < m.t.size() && m.t[k].type == T_FUNC ? static_cast<i32>(k) : -1;
		}
		void native(int x, u32 fs) {
			u32 n = m.t[fs].count;
			V a(n);
			for (u32 k = n; k-- > 0;) switch (m.t[fs + 1 + k].type) {
				case T_INT: a[k] = RVal::I(m.pop_int()); break;
				case T_FUNC: a[k] = RVal::I(function_value(m.pop_int())); break;
				case T_FLOAT: a[k] = RVal::F(m.pop_float()); break;
				case T_STRING: a[k] = RVal::S(m.pop_str()); break;
				default: {
					a[k] = RVal::N(m.pop_inst());
					if (x != X_LOG && a[k].inst >= 0 && m.inst[static_cast<u32>(a[k].inst)].cls != p.cls[0]) m.err("wrong instance type");
				}
				}
			if (x == X_BOOL || x == X_MANY) a[0].i = a[0].i != 0;
			auto r = behave(p, *this, x, a);
			if (m.t[fs].vary != T_VOID) m.push(r);
		}
		RVal call(u32 fn, V const& a) override {
			m.call_native(fn, a);
			return m.t[fn].vary == T_INT ? RVal::I(m.pop_int()) : RVal::S(m.pop_str());
		}
		void init(u32 k) override {
			int o = m.new_instance(k);
			m.init_instance(k, o, static_cast<int>(p.self));
		}
		i32 get_one(int k) override { return m.inst[static_cast<u32>(k)].i[{p.members[0][0].sym, 0}]; }
		void set_one(int k, i32 v) override { m.inst[static_cast<u32>(k)].i[{p.members[0][0].sym, 0}] = v; }
		void err() override { m.err("native script error"); }
		void native_err() override { throw RErr {"native failure", true}; }
	};

	// ---------------------------------------------------------------- online comparison of the executed instructions
	struct Online {
		std::vector<u32> const* want = nullptr;
		u64 at = 0, limit = 0, n = 0;
		u32 base_stack = 0, base_calls = 0;
		bool first = false, diverged = false;
		u32 first_stack = 0, first_calls = 0;
		std::string what;
	};
	inline Online online;
	inline void hook(DaedalusVm& vm, DaedalusInstruction const& in, size_t stack, size_t calls) {
		++online.n;
		if (online.limit != 0 && online.n > online.limit) throw StepLimit {};
		if (online.first) online.first = false, online.first_stack = static_cast<u32>(stack), online.first_calls = static_cast<u32>(calls);
		if (online.want == nullptr || online.diverged) return;
		if (online.at >= online.want->size() || (*online.want)[online.at] != vm.pc()) {
			online.diverged = true;
			online.what = fmt("instruction %llu of the call: executed %u at %u, expected %s", static_cast<unsigned long long>(online.at), static_cast<u32>(in.op), vm.pc(),
			                  online.at < online.want->size() ? fmt("the one at %u", (*online.want)[online.at]).c_str() : "the call to be over");
			throw StepLimit {};
		}
		++online.at;
	}

	// ================================================================ driving both
	struct Duo {
		Prog p;
		std::unique_ptr<Model> ref;
		std::unique_ptr<Machine> vm;
		Strategy strategy = Strategy::NONE;
		u64 compared = 0;
		struct Snapshot { std::vector<std::vector<i32>> I; std::vector<std::vector<float>> F; std::vector<std::vector<std::string>> S; std::vector<int> N; std::vector<RInst> inst; };
		explicit Duo(Rng& r) : p(r) {}

		void build(u8 flags, bool dflt) {
			ref = std::make_unique<Model>(p);
			vm = std::make_unique<Machine>(p, flags);
			ref->m.allow_null = flags & DaedalusVmExecutionFlag::ALLOW_NULL_INSTANCE_ACCESS;
			ref->m.ignore_const = flags & DaedalusVmExecutionFlag::IGNORE_CONST_SPECIFIER;
			ref->set_default(dflt), vm->set_default(dflt);
		}
		void handler(Strategy s) {
			strategy = s, ref->m.strategy = s;
			if (s == Strategy::NONE) return;
			if (s == Strategy::LENIENT) { vm->vm.register_exception_handler(lenient_vm_exception_handler); return; }
			if (s == Strategy::JUMP) {
				vm->vm.register_exception_handler([to = ref->m.landing](DaedalusVm& v, DaedalusScriptError const&, DaedalusInstruction const&) { v.unsafe_jump(to); return DaedalusVmExceptionStrategy::CONTINUE; });
				return;
			}
			auto st = s == Strategy::FAIL ? DaedalusVmExceptionStrategy::FAIL : s == Strategy::RETURN ? DaedalusVmExceptionStrategy::RETURN : DaedalusVmExceptionStrategy::CONTINUE;
			vm->vm.register_exception_handler([st](DaedalusVm&, DaedalusScriptError const&, DaedalusInstruction const&) { return st; });
		}
		// the initial instances, then the variables referring to them
		void populate(Rng& r) {
			for (auto s : p.natives) { auto o = std::make_shared<Native>(); vm->objs.push_back(o), vm->cls.push_back(p.cls[0]); int k = ref->m.new_instance(s); run_init(s, k, o); }
			for (auto s : p.opaques) { vm->objs.push_back(nullptr), vm->cls.push_back(p.cls[1]); int k = ref->m.new_instance(s); run_init(s, k, nullptr); }
			for (auto& v : p.globals) {
				if (v.type == T_INST) set_inst(v.sym, v.cls == 0 ? static_cast<int>(r.below(3)) : 3 + static_cast<int>(r.below(2)));
				if (v.type == T_FUNC) set_int(v.sym, static_cast<i32>(p.fns[r.pick(p.cb)].sym));
			}
			for (auto& f : p.fns) for (auto& v : f.locals) if (v.type == T_FUNC) set_int(v.sym, static_cast<i32>(p.fns[r.pick(p.cb)].sym)); else if (v.type == T_INST && !(f.enabled && r.chance(30))) set_inst(v.sym, v.cls == 0 ? static_cast<int>(r.below(3)) : 3 + static_cast<int>(r.below(2)));
			for (auto& f : p.fns) for (auto& v : f.params) if (v.type == T_FUNC) set_int(v.sym, static_cast<i32>(p.fns[r.pick(p.cb)].sym)); else if (v.type == T_INST) set_inst(v.sym, static_cast<int>(r.below(3)));
		}
		void set_inst(u32 s, int k) { ref->m.N[s] = k, vm->sym(s)->set_instance(vm->objs[static_cast<u32>(k)]); }
		void set_int(u32 s, i32 v) { ref->m.I[s][0] = v, vm->sym(s)->set_int(v); }

		// ------------------------------------------------------------ one call in both machines
		struct Outcome { char kind = 'v'; RVal v; std::string what; }; // v value, e script error, n native error, s step limit, u unspecified
		template <class F>
		Outcome model(F f) {
			Outcome o;
			ref->m.trace.clear(), ref->m.steps = 0, ref->m.limit_hit = false;
			try { o.v = f(); }
			catch (RErr& e) { o.kind = e.native ? 'n' : 'e', o.what = e.what; }
			catch (RStop&) { o.kind = 's'; }
			catch (RUnspec&) { o.kind = 'u'; }
			return o;
		}
		template <class F>
		Outcome machine(F f) {
			Outcome o;
			zk_vp_exec_hook = hook;
			struct Off { ~Off() { zk_vp_exec_hook = nullptr; } } off;
			try { o.v = f(); }
			catch (DaedalusScriptError& e) { o.kind = 'e', o.what = e.what(); }
			catch (NativeFailure& e) { o.kind = 'n', o.what = e.what(); }
			catch (StepLimit&) { o.kind = 's'; }
			return o;
		}
		void idle(char const* after) {
			bool empty = false;
			try { (void) vm->vm.top_is_reference(); } catch (DaedalusVmException&) { empty = true; }
			VP_CHECK(empty, std::string("values-left-on-the-stack"), "after %s", after);
			VP_CHECK(vm->vm.unsafe_get_gi() == nullptr, std::string("context-not-restored"), "after %s", after);
		}
		// returns false if the case cannot be continued (no comparable behaviour)
		template <class A, class B>
		bool both(char const* what, u32 nargs, A a, B b) {
			Snapshot before {ref->m.I, ref->m.F, ref->m.S, ref->m.N, ref->m.inst};
			bool unspecified = false;
			auto want = model(a);
			if (want.kind == 's') {
				count("calls too long");
				rollback(before);
				return true;
			}
			if (want.kind == 'u') { count("calls without specified behaviour"); unspecified = true; }
			bool limit = ref->m.limit_hit;
			if (limit && strategy != Strategy::NONE && strategy != Strategy::FAIL) unspecified = true;
			online = {};
			online.want = unspecified || limit ? nullptr : &ref->m.trace;
			online.limit = unspecified || limit ? 100000 : 0;
			online.first = true;
			auto got = machine(b);
			if (unspecified) {
				if (got.kind == 's') count("endless calls stopped");
				idle(what);
				rollback(before);
				return true;
			}
			if (limit) {
				VP_CHECK(got.kind == 'e', std::string("outcome"), "%s: a stack is exceeded, got %c", what, got.kind);
				count("stack limits reached");
				idle(what);
				rollback(before);
				return true;
			}
			VP_CHECK(!online.diverged, std::string("executed-other-instructions"), "%s: %s", what, online.what.c_str());
			VP_CHECK(want.kind == got.kind, std::string("outcome"), "%s: expected %c (%s), got %c (%s)", what, want.kind, want.kind == 'v' ? want.v.show().c_str() : want.what.c_str(), got.kind, got.kind == 'v' ? got.v.show().c_str() : got.what.c_str());
			VP_CHECK(online.at == ref->m.trace.size(), std::string("executed-fewer-instructions"), "%s: %llu of %zu; %c %s / %s", what, static_cast<unsigned long long>(online.at), ref->m.trace.size(), want.kind, want.what.c_str(), got.what.c_str());
			if (!ref->m.trace.empty()) VP_CHECK(online.first_stack == nargs && online.first_calls == 1, std::string("left-behind-by-earlier-calls"), "%s: starts with %u values and %u calls", what, online.first_stack, online.first_calls);
			if (want.kind == 'v') { VP_CHECK(want.v.show() == got.v.show(), std::string("result"), "%s: expected %s, got %s", what, want.v.show().c_str(), got.v.show().c_str()); count("results compared"); }
			count("instructions compared", ref->m.trace.size());
			compare(what);
			idle(what);
			VP_CHECK(ref->m.st.empty() && ref->m.calls.empty() && ref->m.gi == -1, std::string("harness"), "model not idle after %s", what);
			return true;
		}
		void run_init(u32 s, int k, std::shared_ptr<Native> o) {
			int self = static_cast<int>(p.self);
			auto m = [&] { ref->m.init_instance(s, k, self); return RVal {}; };
			auto v = [&] {
				if (o != nullptr) vm->vm.init_instance<Native>(o, vm->sym(s));
				else {
					auto q = vm->vm.init_opaque_instance(vm->sym(s));
					vm->objs[static_cast<u32>(k)] = q;
				}
				return RVal {};
			};
			if (o == nullptr) {
				// the object only exists once it has been initialised
				auto want = model(m);
				VP_CHECK(want.kind == 'v', "harness", "model of an instance failed: %s", want.what.c_str());
				online = {}, online.want = &ref->m.trace;
				auto got = machine(v);
				VP_CHECK(!online.diverged, "executed-other-instructions", "initialising %s: %s", p.t[s].name.c_str(), online.what.c_str());
				VP_CHECK(got.kind == 'v', "outcome", "initialising %s: %s", p.t[s].name.c_str(), got.what.c_str());
				compare("initialising");
				idle("initialising");
			} else if (!both("init_instance", 0, m, v)) fail("harness", "initialisation is not comparable");
			count("instances initialised");
		}
		bool entry(Rng& r, u32 k, bool nulls) {
			auto& f = p.fns[k];
			auto* s = vm->sym(f.sym);
			V a;
			for (auto ty : f.ptypes) switch (ty) {
				case T_INT: a.push_back(RVal::I(r.flip() ? r.range(-3, 20) : r.i())); break;
				case T_FLOAT: a.push_back(RVal::F(r.f())); break;
				case T_STRING: a.push_back(RVal::S(p.txt())); break;
				default: a.push_back(RVal::N(nulls && r.chance(20) ? -1 : static_cast<int>(r.below(3))));
				}
			bool ignore = r.chance(15);
			auto m = [&] {
				ref->m.call_native(f.sym, a);
				if (ignore || f.ret == T_VOID) { ref->m.st.clear(); return RVal {}; }
				switch (f.ret) {
				case T_INT: return RVal::I(ref->m.pop_int());
				case T_FLOAT: return RVal::F(ref->m.pop_float());
				case T_STRING: return RVal::S(ref->m.pop_str());
				case T_FUNC: return RVal::I(ref->function_value(ref->m.pop_int()));
				default: {
					int n = ref->m.pop_inst();
					if (n >= 0 && ref->m.inst[static_cast<u32>(n)].cls != p.cls[0]) ref->m.err("type of the result");
					return RVal::N(n);
				}
				}
			};
			auto sv = [&](u32 n) { return std::string_view(a[n].s); };
			auto v = [&]() -> RVal {
				auto& x = vm->vm;
				bool by_name = r.flip();
				auto dispatch = [&](auto... args) -> RVal {
					if (ignore) { if (by_name) x.call_function(f.name, args...); else x.call_function(s, args...); return {}; }
					switch (k) {
					case 0: return RVal::I(by_name ? x.call_function<i32>(f.name, args...) : x.call_function<i32>(s, args...));
					case 1: x.call_function<void>(s, args...); return {};
					case 2: case 6: return RVal::S(by_name ? x.call_function<std::string>("e_" + f.name.substr(2), args...) : x.call_function<std::string>(s, args...));
					case 3: return RVal::F(x.call_function<float>(s, args...));
					case 4: return RVal::N(vm->id(x.call_function<std::shared_ptr<Native>>(s, args...).get()));
					default: { auto fn = x.call_function<DaedalusFunction>(s, args...); return RVal::I(fn.value == nullptr ? -1 : static_cast<i32>(fn.value->index())); }
					}
				};
				switch (k) {
				case 0: return dispatch(a[0].i, a[1].i);
				case 1: return dispatch();
				case 2: return dispatch(sv(0));
				case 3: return dispatch(a[0].f, a[1].i);
				case 4: return dispatch(vm->nat(a[0].inst));
				case 5: return dispatch(a[0].i);
				default: return dispatch(a[0].i, sv(1), a[2].f, vm->nat(a[3].inst), a[4].i);
				}
			};
			label(f.name);
			if (!both((f.name + "(" + show(a) + ")").c_str(), static_cast<u32>(a.size()), m, v)) return false;
			count("calls compared");
			if (ref->m.max_stack > 20) count("deep stacks");
			return true;
		}

		// ------------------------------------------------------------ all state
		void compare(char const* what) {
			auto& m = ref->m;
			for (u32 k = 0; k < p.t.size(); ++k) {
				auto& y = p.t[k];
				auto* s = vm->sym(k);
				if (y.member()) continue;
				auto bad = [&](u32 x, RVal const& a, RVal const& b) { fail("variable", fmt("after %s: %s[%u] is %s, expected %s", what, y.name.c_str(), x, b.show().c_str(), a.show().c_str())); };
				if (y.type == T_INT || (y.type == T_FUNC && !(y.flags & F_CONST)))
					for (u32 x = 0; x < y.count; ++x) { auto g = s->get_int(static_cast<u16>(x)); if (g != m.I[k][x]) bad(x, RVal::I(m.I[k][x]), RVal::I(g)); }
				else if (y.type == T_FLOAT)
					for (u32 x = 0; x < y.count; ++x) { auto g = s->get_float(static_cast<u16>(x)); if (!same(g, m.F[k][x])) bad(x, RVal::F(m.F[k][x]), RVal::F(g)); }
				else if (y.type == T_STRING)
					for (u32 x = 0; x < y.count; ++x) { auto& g = s->get_string(static_cast<u16>(x)); if (g != m.S[k][x]) bad(x, RVal::S(m.S[k][x]), RVal::S(g)); }
				else if (y.type == T_INST) {
					int g = vm->id(s->get_instance().get());
					// an opaque instance is registered after its initialisation
					if (g == -2 && m.N[k] >= 0 && vm->objs[static_cast<u32>(m.N[k])] == nullptr) continue;
					if (g != m.N[k]) bad(0, RVal::N(m.N[k]), RVal::N(g));
				}
				++compared;
			}
			VP_CHECK(m.inst.size() == vm->objs.size(), "instances", "after %s: %zu instances, expected %zu", what, vm->objs.size(), m.inst.size());
			for (u32 n = 0; n < m.inst.size(); ++n) {
				if (vm->objs[n] == nullptr) continue;
				auto& w = m.inst[n];
				auto* o = vm->objs[n].get();
				bool native = w.cls == p.cls[0];
				VP_CHECK(o->symbol_index() == w.sym, "instance-symbol", "instance %u says symbol %u, expected %u", n, o->symbol_index(), w.sym);
				auto* na = native ? static_cast<Native*>(o) : nullptr;
				if (na) VP_CHECK(na->tail == 0x5A5A5A5A, "wrote-outside-members", "instance %u", n);
				u32 pos = 0;
				for (auto& v : p.members[native ? 0 : 1]) {
					for (u32 x = 0; x < v.count; ++x) {
						std::pair<u32, u32> key {v.sym, x};
						RVal a, b;
						auto* s = vm->sym(v.sym);
						if (v.type == T_FLOAT) {
							auto it = w.f.find(key);
							a = RVal::F(it == w.f.end() ? 0 : it->second);
							b = RVal::F(na ? (pos == 2 ? na->real : na->reals[x]) : s->get_float(static_cast<u16>(x), o));
						} else if (v.type == T_STRING) {
							auto it = w.s.find(key);
							a = RVal::S(it == w.s.end() ? "" : it->second);
							b = RVal::S(na ? (pos == 4 ? na->text : na->texts[x]) : s->get_string(static_cast<u16>(x), o));
						} else {
							auto it = w.i.find(key);
							a = RVal::I(it == w.i.end() ? 0 : it->second);
							b = RVal::I(na ? (pos == 0 ? na->one : pos == 1 ? na->many[x] : na->fn) : s->get_int(static_cast<u16>(x), o));
						}
						VP_CHECK(a.show() == b.show() && a.s == b.s, std::string(native ? "native-member" : "opaque-member"), "after %s: instance %u %s[%u] is %s, expected %s", what, n, p.t[v.sym].name.c_str(), x, b.show().c_str(), a.show().c_str());
						++compared;
					}
					++pos;
				}
			}
			VP_CHECK(ref->log.size() == vm->log.size(), "native-calls", "after %s: %zu native calls, expected %zu; last %s", what, vm->log.size(), ref->log.size(), vm->log.empty() ? "" : vm->log.back().c_str());
			for (u32 k = 0; k < ref->log.size(); ++k) VP_CHECK(ref->log[k] == vm->log[k], "native-call", "after %s: native call %u was %s, expected %s", what, k, vm->log[k].c_str(), ref->log[k].c_str());
			count("native calls compared", ref->log.size());
			ref->log.clear(), vm->log.clear();
			count("values compared", compared), compared = 0;
		}
		void rollback(Snapshot& b) { ref->m.I = b.I, ref->m.F = b.F, ref->m.S = b.S, ref->m.N = b.N, ref->m.inst = b.inst; resync(); }
		// makes the machine's variables those of the model again
		void resync() {
			auto& m = ref->m;
			m.st.clear(), m.calls.clear(), m.gi = -1;
			for (u32 k = 0; k < p.t.size(); ++k) {
				auto& y = p.t[k];
				auto* s = vm->sym(k);
				if (y.member()) continue;
				if (y.type == T_INT || (y.type == T_FUNC && !(y.flags & F_CONST))) for (u32 x = 0; x < y.count; ++x) s->set_int(m.I[k][x], static_cast<u16>(x));
				else if (y.type == T_FLOAT) for (u32 x = 0; x < y.count; ++x) s->set_float(m.F[k][x], static_cast<u16>(x));
				else if (y.type == T_STRING) for (u32 x = 0; x < y.count; ++x) s->set_string(m.S[k][x], static_cast<u16>(x));
				else if (y.type == T_INST) s->set_instance(m.N[k] < 0 ? nullptr : vm->objs[static_cast<u32>(m.N[k])]);
			}
			vm->objs.resize(m.inst.size()), vm->cls.resize(m.inst.size());
			for (u32 n = 0; n < m.inst.size(); ++n) {
				auto* o = vm->objs[n].get();
				auto& w = m.inst[n];
				for (auto& v : p.members[w.cls == p.cls[0] ? 0 : 1])
					for (u32 x = 0; x < v.count; ++x) {
						std::pair<u32, u32> key {v.sym, x};
						auto* s = vm->sym(v.sym);
						if (v.type == T_FLOAT) s->set_float(w.f.count(key) ? w.f[key] : 0, static_cast<u16>(x), o);
						else if (v.type == T_STRING) s->set_string(w.s.count(key) ? w.s[key] : "", static_cast<u16>(x), o);
						else s->set_int(w.i.count(key) ? w.i[key] : 0, static_cast<u16>(x), o);
					}
			}
			ref->log.clear(), vm->log.clear();
			ref->counter = vm->counter;
		}
		void finish() {
			for (auto& [o, n] : ref->m.ops) count(fmt("op %u", o), n);
			state(fnv(p.code));
			sample(fmt("%zu symbols, %zu bytes of code, stack up to %u, %zu instances", p.t.size(), p.code.size(), ref->m.max_stack, ref->m.inst.size()));
		}
	};

	// ================================================================ C19
	inline void programs(Rng& r) {
		Duo d(r);
		d.p.size = static_cast<int>(1 + r.below(3));
		d.p.table();
		for (auto& f : d.p.fns) if (f.name.compare(0, 3, "OV_") == 0) f.overridden = r.chance(60);
		d.p.emit();
		u8 flags = 0;
		bool nulls = r.chance(20);
		if (nulls) flags |= DaedalusVmExecutionFlag::ALLOW_NULL_INSTANCE_ACCESS;
		if (r.chance(10)) flags |= DaedalusVmExecutionFlag::IGNORE_CONST_SPECIFIER;
		d.build(flags, true);
		if (r.chance(30)) d.handler(Strategy::FAIL);
		d.populate(r);
		bool ok = true;
		for (u32 n = 4 + r.below(12); ok && n > 0; --n) ok = d.entry(r, r.below(d.p.entries), nulls);
		// the same function again and again: whatever a call leaves behind adds up
		if (ok && r.chance(6)) {
			u32 k = r.below(d.p.entries);
			i64 live = 0;
			for (u32 n = 0; ok && n < 300; ++n) {
				ok = d.entry(r, k, nulls);
				if (d.ref->m.trace.size() > 600) break;
				if (n == 299) count("repeated calls");
			}
			(void) live;
			auto& last = d.vm->vm.symbols().back();
			if (last.index() >= d.p.t.size() && last.type() == DaedalusDataType::STRING)
				VP_CHECK(last.count() <= 4 * (d.ref->m.max_strings + 16), "temporary-strings-not-reused", "%u temporary strings for %u in use at once", last.count(), d.ref->m.max_strings);
		}
		d.finish();
	}
} // namespace vpm
