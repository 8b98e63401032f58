// Plain interpreter of the documented script instruction set: the oracle of the script machine monitors. It keeps values,
// not temporary storage: strings on its stack are owned, instances are numbers, saved locals live in the call frames.
#pragma once
#include "datref.hh"

namespace vp {
	struct RErr { std::string what; bool native = false; }; // native: thrown by a native function, not a script error
	struct RStop {};   // step limit
	struct RUnspec {}; // behaviour nobody specifies (a function consuming its caller's values)

	struct RVal {
		enum K { INT, FLOAT, INST, REF, STR } k = INT;
		i32 i = 0;
		float f = 0;
		int inst = -1;
		u32 sym = 0, idx = 0;
		int ctx = -1;
		std::string s;
		static RVal I(i32 v) { RVal r; r.i = v; return r; }
		static RVal F(float v) { RVal r; r.k = FLOAT, r.f = v; return r; }
		static RVal S(std::string v) { RVal r; r.k = STR, r.s = std::move(v); return r; }
		static RVal N(int v) { RVal r; r.k = INST, r.inst = v; return r; }
		static RVal R(u32 sym, u32 idx, int ctx) { RVal r; r.k = REF, r.sym = sym, r.idx = idx, r.ctx = ctx; return r; }
		std::string show() const {
			switch (k) {
			case INT: return fmt("%d", i);
			case FLOAT: { u32 b; std::memcpy(&b, &f, 4); return fmt("%g/%08x", static_cast<double>(f), b); }
			case INST: return fmt("#%d", inst);
			case STR: return "'" + esc(s) + "'";
			default: return fmt("&%u[%u]@%d", sym, idx, ctx);
			}
		}
	};

	struct RInst {
		u32 sym = 0, cls = 0; // the class symbol
		std::map<std::pair<u32, u32>, i32> i;
		std::map<std::pair<u32, u32>, float> f;
		std::map<std::pair<u32, u32>, std::string> s;
	};

	enum class Strategy { NONE, FAIL, CONTINUE, RETURN, LENIENT, JUMP };

	struct RefVm {
		std::vector<RSym> t;
		std::string code;
		std::vector<std::vector<i32>> I;
		std::vector<std::vector<float>> F;
		std::vector<std::vector<std::string>> S;
		std::vector<int> N;
		std::vector<RInst> inst;
		std::map<u32, u32> by_address;
		std::set<u32> locals_enabled, trapped;
		std::map<u32, std::function<void(RefVm&)>> externals, overrides; // by symbol, by address
		std::function<void(RefVm&, u32)> default_external, trap;
		Strategy strategy = Strategy::NONE;
		u32 landing = 0; // where the handler sends execution with JUMP
		bool allow_null = false, ignore_const = false;

		struct Frame { u32 fn, pc, sp; int gi; bool saved = false; std::vector<std::pair<u32, std::vector<RVal>>> locals; };
		std::vector<RVal> st;
		std::vector<Frame> calls;
		u32 pc = 0;
		int gi = -1;
		u64 steps = 0, limit = 20000;
		u32 max_depth = 1024;
		std::vector<u32> trace;
		u64 errors = 0;
		bool limit_hit = false; // the size of a stack was exceeded: where exactly is not specified
		std::map<u8, u64> ops;
		u32 max_strings = 0, max_stack = 0;

		void load(std::vector<RSym> const& table, std::string const& c) {
			t = table, code = c;
			I.resize(t.size()), F.resize(t.size()), S.resize(t.size()), N.assign(t.size(), -1);
			for (u32 k = 0; k < t.size(); ++k) {
				auto& y = t[k];
				if (y.type == T_FUNC && (y.flags & F_CONST) && !y.member()) by_address[static_cast<u32>(y.value)] = k;
				if (y.type == T_PROTO || y.type == T_INST) by_address[static_cast<u32>(y.value)] = k;
				if (y.member()) continue;
				if (y.type == T_INT) I[k] = y.i;
				if (y.type == T_FUNC && !(y.flags & F_CONST)) I[k].assign(std::max(y.count, 1u), 0);
				if (y.type == T_FLOAT) F[k] = y.f;
				if (y.type == T_STRING) for (auto& s : y.s) S[k].push_back(dat_unescape(s));
			}
		}
		u32 class_of(u32 s) const { while (t[s].type != T_CLASS) s = static_cast<u32>(t[s].parent); return s; }
		int new_instance(u32 sym) {
			RInst n;
			n.sym = sym, n.cls = class_of(sym);
			inst.push_back(n);
			return static_cast<int>(inst.size()) - 1;
		}

		[[noreturn]] void err(char const* w) { throw RErr {w, false}; }
		u32 nparams(u32 f) const { return std::min<u32>(t[f].count, static_cast<u32>(t.size()) - f - 1); }
		std::pair<u32, u32> locals_of(u32 f) const {
			u32 a = std::min<u32>(f + 1 + t[f].count, static_cast<u32>(t.size())), b = a;
			auto pre = t[f].name + ".";
			while (b < t.size() && t[b].name.compare(0, pre.size(), pre) == 0) ++b;
			return {a, b};
		}

		// ---------------------------------------------------------------- values
		void push(RVal v) {
			if (st.size() >= 2048) limit_hit = true, err("stack overflow");
			st.push_back(std::move(v));
			u32 n = 0;
			if (st.size() < 64) for (auto& x : st) n += x.k == RVal::STR; else n = static_cast<u32>(st.size());
			for (auto& c : calls) for (auto& [k, v] : c.locals) if (t[k].type == T_STRING) n += static_cast<u32>(v.size());
			max_strings = std::max(max_strings, n), max_stack = std::max(max_stack, static_cast<u32>(st.size()));
		}
		// whether there is nothing to take from the stack, not even local variables saved there by the machine
		bool nothing() const {
			if (!st.empty()) return false;
			if (saved_locals()) throw RUnspec {};
			return true;
		}
		bool saved_locals() const { for (auto& c : calls) if (!c.locals.empty()) return true; return false; }
		void guard_base() { if (!calls.empty() && st.size() <= calls.back().sp) throw RUnspec {}; }
		RVal take() { RVal v = std::move(st.back()); st.pop_back(); return v; }
		void check(u32 s, u32 idx, bool ok) {
			if (!ok) err("type");
			if (idx >= t[s].count) err("index");
		}
		i32* cell_i(u32 s, u32 idx, int ctx) {
			check(s, idx, t[s].type == T_INT || t[s].type == T_FUNC);
			if (t[s].member()) { need(s, ctx); return &inst[ctx].i[{s, idx}]; }
			if (I[s].empty()) err("function");
			return &I[s][idx];
		}
		float* cell_f(u32 s, u32 idx, int ctx) {
			check(s, idx, t[s].type == T_FLOAT);
			if (t[s].member()) { need(s, ctx); return &inst[ctx].f[{s, idx}]; }
			return &F[s][idx];
		}
		std::string* cell_s(u32 s, u32 idx, int ctx) {
			check(s, idx, t[s].type == T_STRING);
			if (t[s].member()) { need(s, ctx); return &inst[ctx].s[{s, idx}]; }
			return &S[s][idx];
		}
		void need(u32 s, int ctx) {
			if (ctx < 0) err("no context");
			if (inst[ctx].cls != static_cast<u32>(t[s].parent)) err("context type");
		}
		bool null_member(RVal const& r) {
			if (!t[r.sym].member() || r.ctx >= 0) return false;
			if (!allow_null) err("no context");
			return true;
		}
		i32 pop_int() {
			if (nothing()) return 0;
			guard_base();
			auto v = take();
			if (v.k == RVal::REF) { if (null_member(v)) return 0; return *cell_i(v.sym, v.idx, v.ctx); }
			if (v.k == RVal::STR) err("type");
			if (v.k != RVal::INT) err("not an int");
			return v.i;
		}
		float pop_float() {
			if (nothing()) return 0;
			guard_base();
			auto v = take();
			if (v.k == RVal::REF) { if (null_member(v)) return 0; return *cell_f(v.sym, v.idx, v.ctx); }
			if (v.k == RVal::FLOAT) return v.f;
			if (v.k == RVal::INT) { float f; std::memcpy(&f, &v.i, 4); return f; }
			err("not a float");
		}
		int pop_inst() {
			if (nothing()) err("empty");
			guard_base();
			auto v = take();
			if (v.k == RVal::REF) { if (t[v.sym].type != T_INST || t[v.sym].member()) err("type"); return N[v.sym]; }
			if (v.k == RVal::INST) return v.inst;
			err("not an instance");
		}
		std::string pop_str() {
			if (nothing()) err("empty");
			guard_base();
			auto v = take();
			if (v.k == RVal::STR) return v.s;
			if (v.k != RVal::REF) err("not a reference");
			if (null_member(v)) return "";
			return *cell_s(v.sym, v.idx, v.ctx);
		}
		RVal pop_ref() {
			if (nothing()) err("empty");
			guard_base();
			auto v = take();
			if (v.k == RVal::STR) throw RUnspec {}; // a reference to temporary storage
			if (v.k != RVal::REF) err("not a reference");
			return v;
		}
		void writable(RVal const& r) { if ((t[r.sym].flags & F_CONST) && !ignore_const) err("const"); }
		void push_default(u32 type) {
			switch (type) {
			case T_FLOAT: push(RVal::F(0)); break;
			case T_INT: case T_FUNC: push(RVal::I(0)); break;
			case T_STRING: push(RVal::S("")); break;
			case T_INST: push(RVal::N(-1)); break;
			default: break;
			}
		}

		// ---------------------------------------------------------------- calls
		std::vector<RVal> local_values(u32 k) {
			std::vector<RVal> r;
			switch (t[k].type) {
			case T_INT: case T_FUNC: for (u32 x = 0; x < t[k].count; ++x) r.push_back(RVal::I(I[k][x])); break;
			case T_FLOAT: for (auto v : F[k]) r.push_back(RVal::F(v)); break;
			case T_STRING: for (auto& v : S[k]) r.push_back(RVal::S(v)); break;
			case T_INST: r.push_back(RVal::N(N[k])); break;
			default: break;
			}
			return r;
		}
		bool active(u32 f) const { for (auto& c : calls) if (c.fn == f) return true; return false; }
		void enter(u32 f) {
			if (calls.size() >= max_depth) limit_hit = true, err("call stack overflow");
			Frame fr {f, pc, static_cast<u32>(st.size()) - std::min<u32>(nparams(f), static_cast<u32>(st.size())), gi, false, {}};
			if (locals_enabled.count(f) && active(f)) {
				fr.saved = true;
				auto [a, b] = locals_of(f);
				for (u32 k = a; k < b; ++k) if (!(t[k].flags & F_CONST) && !t[k].member()) fr.locals.emplace_back(k, local_values(k));
			}
			calls.push_back(std::move(fr));
		}
		void restore(Frame& fr) {
			for (auto& [k, v] : fr.locals) for (u32 x = 0; x < v.size(); ++x) switch (t[k].type) {
				case T_INT: case T_FUNC: I[k][x] = v[x].i; break;
				case T_FLOAT: F[k][x] = v[x].f; break;
				case T_STRING: S[k][x] = v[x].s; break;
				case T_INST: N[k] = v[x].inst; break;
				default: break;
				}
		}
		void leave() {
			Frame fr = std::move(calls.back());
			calls.pop_back();
			pc = fr.pc, gi = fr.gi;
			if (st.size() < fr.sp) throw RUnspec {};
			if (!(t[fr.fn].flags & F_RETURN)) st.resize(fr.sp);
			else if (st.size() == fr.sp) push_default(t[fr.fn].vary);
			else if (st.size() > fr.sp + 1) { RVal v = take(); st.resize(fr.sp); st.push_back(std::move(v)); }
			if (fr.saved) {
				// the result is the callee's value, not what the caller's variable of the same name holds
				if (st.size() > fr.sp && st.back().k == RVal::REF)
					for (auto& [k, v] : fr.locals) if (k == st.back().sym) {
						auto cur = local_values(k);
						u32 x = t[k].type == T_INST ? 0 : st.back().idx;
						if (x >= cur.size()) throw RUnspec {};
						st.back() = cur[x];
						break;
					}
				restore(fr);
			}
		}
		void unwind() {
			Frame fr = std::move(calls.back());
			calls.pop_back();
			pc = fr.pc, gi = fr.gi;
			if (st.size() > fr.sp) st.resize(fr.sp);
			restore(fr);
		}
		void jump(u32 a) { if (a >= code.size()) err("jump"); pc = a; }
		void call(u32 f) {
			enter(f);
			try {
				jump(static_cast<u32>(t[f].value));
				while (exec()) {}
			} catch (RErr&) { unwind(); throw; }
			leave();
		}
		// a call from native code: leaves the result on the stack
		void call_native(u32 f, std::vector<RVal> const& args) {
			auto sp = st.size();
			try { for (auto& a : args) push(a); call(f); }
			catch (RErr&) { st.resize(std::min(st.size(), sp)); throw; }
		}
		int init_instance(u32 sym, int id, int self_sym) {
			N[sym] = id;
			int old_gi = gi, old_self = self_sym >= 0 ? N[self_sym] : -1;
			gi = id;
			if (self_sym >= 0) N[self_sym] = id;
			try { call(sym); }
			catch (RErr&) { gi = old_gi; if (self_sym >= 0) N[self_sym] = old_self; throw; }
			gi = old_gi;
			if (self_sym >= 0) N[self_sym] = old_self;
			return id;
		}

		// ---------------------------------------------------------------- instructions
		__attribute__((no_sanitize("address"))) bool exec() {
			u32 at = pc;
			auto rd = [&](u32 off) { u32 v = 0; if (at + off + 4 <= code.size()) std::memcpy(&v, code.data() + at + off, 4); return v; };
			if (at >= code.size()) err("outside");
			u8 op = static_cast<u8>(code[at]);
			u32 size = 1, v = 0, x = 0;
			switch (op) {
			case 61: case 62: case 64: case 65: case 67: case 75: case 76: case 80: size = 5, v = rd(1); break;
			case 245: size = 6, v = rd(1); if (at + 5 < code.size()) x = static_cast<u8>(code[at + 5]); break;
			default: break;
			}
			if (at + size > code.size()) err("outside");
			if (++steps > limit) throw RStop {};
			trace.push_back(at);
			ops[op]++;
			i32 a, b;
			try {
				switch (op) {
				case 0: a = pop_int(), b = pop_int(); push(RVal::I(static_cast<i32>(static_cast<u32>(a) + static_cast<u32>(b)))); break;
				case 1: a = pop_int(), b = pop_int(); push(RVal::I(static_cast<i32>(static_cast<u32>(a) - static_cast<u32>(b)))); break;
				case 2: a = pop_int(), b = pop_int(); push(RVal::I(static_cast<i32>(static_cast<u32>(a) * static_cast<u32>(b)))); break;
				case 3: a = pop_int(), b = pop_int(); if (b == 0) err("div"); push(RVal::I(static_cast<i32>(static_cast<i64>(a) / b))); break;
				case 4: a = pop_int(), b = pop_int(); if (b == 0) err("div"); push(RVal::I(static_cast<i32>(static_cast<i64>(a) % b))); break;
				case 5: a = pop_int(), b = pop_int(); push(RVal::I(a | b)); break;
				case 6: a = pop_int(), b = pop_int(); push(RVal::I(a & b)); break;
				case 7: a = pop_int(), b = pop_int(); push(RVal::I(a < b)); break;
				case 8: a = pop_int(), b = pop_int(); push(RVal::I(a > b)); break;
				case 11: a = pop_int(), b = pop_int(); push(RVal::I(a != 0 || b != 0)); break;
				case 12: a = pop_int(), b = pop_int(); push(RVal::I(a != 0 && b != 0)); break;
				case 13: a = pop_int(), b = pop_int(); push(RVal::I(static_cast<i32>(static_cast<u32>(a) << (b & 31)))); break;
				case 14: a = pop_int(), b = pop_int(); push(RVal::I(a >> (b & 31))); break;
				case 15: a = pop_int(), b = pop_int(); push(RVal::I(a <= b)); break;
				case 16: a = pop_int(), b = pop_int(); push(RVal::I(a == b)); break;
				case 17: a = pop_int(), b = pop_int(); push(RVal::I(a != b)); break;
				case 18: a = pop_int(), b = pop_int(); push(RVal::I(a >= b)); break;
				case 30: a = pop_int(); push(RVal::I(a)); break;
				case 31: a = pop_int(); push(RVal::I(static_cast<i32>(0u - static_cast<u32>(a)))); break;
				case 32: a = pop_int(); push(RVal::I(a == 0)); break;
				case 33: a = pop_int(); push(RVal::I(~a)); break;
				case 9: case 72: { auto r = pop_ref(); a = pop_int(); writable(r); if (!null_member(r)) *cell_i(r.sym, r.idx, r.ctx) = a; break; }
				case 73: { auto r = pop_ref(); auto f = pop_float(); writable(r); if (!null_member(r)) *cell_f(r.sym, r.idx, r.ctx) = f; break; }
				case 70: { auto r = pop_ref(); auto s = pop_str(); writable(r); if (!null_member(r)) *cell_s(r.sym, r.idx, r.ctx) = s; break; }
				case 71: err("movss");
				case 19: case 20: case 21: case 22: {
					auto r = pop_ref();
					b = pop_int();
					if (op == 22 && b == 0) err("div");
					writable(r);
					if (null_member(r)) break;
					i32* c = cell_i(r.sym, r.idx, r.ctx);
					u32 ua = static_cast<u32>(*c), ub = static_cast<u32>(b);
					*c = static_cast<i32>(op == 19 ? ua + ub : op == 20 ? ua - ub : op == 21 ? ua * ub : static_cast<u32>(static_cast<i64>(*c) / b));
					break;
				}
				case 74: {
					auto r = pop_ref();
					int n = pop_inst();
					if (t[r.sym].type != T_INST || t[r.sym].member()) err("type");
					N[r.sym] = n;
					break;
				}
				case 60: return false;
				case 64: push(RVal::I(static_cast<i32>(v))); break;
				case 65: case 67:
					if (v >= t.size()) err("symbol");
					if (trapped.count(v)) trap(*this, v);
					else push(RVal::R(v, 0, gi));
					break;
				case 245: if (v >= t.size()) err("symbol"); push(RVal::R(v, x, gi)); break;
				case 80: if (v >= t.size()) err("symbol"); if (t[v].type != T_INST || t[v].member()) err("type"); gi = N[v]; break;
				case 75: jump(v); return true;
				case 76: if (pop_int() == 0) { jump(v); return true; } break;
				case 61: case 62: {
					if (op == 62 && v == t.size()) throw RUnspec {}; // the machine's storage of temporary strings
					int f = op == 62 ? (v < t.size() ? static_cast<int>(v) : -1) : by_address.count(v) ? static_cast<int>(by_address[v]) : -1;
					if (op == 62 && f < 0) err("external");
					auto depth = calls.size();
					u32 sp = static_cast<u32>(st.size());
					if (f >= 0) {
						// arguments are missing: the callee takes its caller's values
						u32 np = nparams(static_cast<u32>(f));
						if (!calls.empty() && np > 0 && sp < calls.back().sp + np && (calls.back().sp > 0 || saved_locals())) throw RUnspec {};
						sp -= std::min(np, sp);
					}
					try {
						if (op == 61) {
							if (auto o = overrides.find(v); o != overrides.end()) o->second(*this);
							else if (f < 0) err("bl");
							else call(static_cast<u32>(f));
						} else {
							auto o = externals.find(v);
							if (o == externals.end()) {
								if (!default_external) err("be");
								default_external(*this, v);
							} else {
								enter(v);
								o->second(*this);
								leave();
							}
						}
					} catch (RErr& e) {
						while (calls.size() > depth) unwind();
						if (st.size() > sp) st.resize(sp);
						try { if (f >= 0) push_default(t[f].vary); } catch (RErr&) {}
						throw;
					}
					break;
				}
				default: break;
				}
				pc = at + size;
			} catch (RErr& e) {
				if (e.native) throw;
				++errors;
				if (strategy == Strategy::NONE || strategy == Strategy::FAIL) throw;
				if (strategy == Strategy::RETURN) return false;
				if (strategy == Strategy::JUMP) { pc = landing; return true; }
				if (strategy == Strategy::LENIENT) {
					bool binary = (op <= 8) || (op >= 11 && op <= 18) || (op >= 30 && op <= 33);
					if (binary || op == 64 || op == 65 || op == 67 || op == 245) push(RVal::I(0));
				}
				if (pc == at) pc = at + size;
			}
			return true;
		}
	};
} // namespace vp
