// C20: native functions and script code exchange values. Registered, overriding and calling functions of many signatures
// against scripts which agree with them or not, plus the random programs of C19 for everything nested.
#include "vmprog.hh"
#include "vmsig.hh"

using namespace vpm;

namespace {
	// one script with one function or external of a random signature, called by a script function T
	void signatures(Rng& r) {
		auto& s = r.pick(sigs);
		Prog p(r);
		std::vector<u32> ptypes;
		u32 ret;
		// the script's idea of the signature: usually that of the native function, otherwise close to it
		auto fit = [&](PC c) { for (;;) { u32 ty = r.pick<u32>({T_INT, T_FUNC, T_FLOAT, T_STRING, T_INST}); if (accepts(c, ty)) return ty; } };
		for (auto c : s.params) ptypes.push_back(fit(c));
		for (;;) { ret = r.pick<u32>({T_VOID, T_INT, T_FUNC, T_FLOAT, T_STRING, T_INST}); if (returns(s.ret, ret)) break; }
		switch (r.below(8)) {
		case 0: if (!ptypes.empty()) ptypes[r.below(static_cast<u32>(ptypes.size()))] = r.pick<u32>({T_INT, T_FUNC, T_FLOAT, T_STRING, T_INST}); break;
		case 1: ret = r.pick<u32>({T_VOID, T_INT, T_FUNC, T_FLOAT, T_STRING, T_INST}); break;
		case 2: if (r.flip() && !ptypes.empty()) ptypes.pop_back(); else ptypes.push_back(r.pick<u32>({T_INT, T_FLOAT, T_STRING})); break;
		default: break;
		}
		bool over = r.flip();
		bool match = returns(s.ret, ret) && ptypes.size() == s.params.size();
		for (u32 k = 0; match && k < ptypes.size(); ++k) match = accepts(s.params[k], ptypes[k]);

		RSym c;
		c.type = T_CLASS, c.name = "CN", c.count = 1;
		p.cls[0] = p.add(c);
		p.member(0, "CN", "ONE", T_INT, 1);
		c.name = "CS";
		u32 cs = p.add(c);
		(void) cs;
		RSym ni;
		ni.type = T_INST, ni.flags = F_CONST, ni.count = 0, ni.parent = static_cast<i32>(p.cls[0]);
		std::vector<u32> insts;
		for (u32 k = 0; k < 2; ++k) ni.name = fmt("NI%u", k), ni.value = -10 - static_cast<i32>(k), insts.push_back(p.add(ni));
		Var gn = p.var("GN", T_INST, 1, false, 0);
		Fn f;
		f.name = "SUBJECT", f.ptypes = ptypes, f.ret = ret;
		if (r.flip()) p.var("BEFORE", T_INT, 1, false);
		u32 subject = p.external("SUBJECT", ptypes, ret);
		if (over) p.t[subject].flags &= ~F_EXTERNAL;
		Fn cb;
		cb.name = "CB", cb.ptypes = {}, cb.ret = T_INT;
		u32 fcb = p.fns[p.function(cb)].sym;
		Var fv = p.var("FV", T_FUNC, 1, false), gi = p.var("GI", T_INT, 3, false), gf = p.var("GF", T_FLOAT, 3, false), gs = p.var("GS", T_STRING, 3, false);
		Fn tf;
		tf.name = "T", tf.ret = ret;
		u32 t = p.fns[p.function(tf)].sym;

		p.op(45);
		p.t[fcb].value = static_cast<i32>(p.at()), p.op(64, 5), p.op(60);
		p.t[subject].value = over ? static_cast<i32>(p.at()) : -77;
		// the script's own version of the function
		for (u32 k = static_cast<u32>(ptypes.size()); k-- > 0;) p.op(65, subject + 1 + k), p.op(Prog::assign(ptypes[k]));
		p.op(60);
		u32 after = p.at();
		std::vector<std::string> want;
		std::vector<RVal> vals;
		u32 left = r.below(3); // values of the caller below the arguments
		p.t[t].value = static_cast<i32>(after);
		for (u32 k = 0; k < left; ++k) p.op(64, 1000 + k);
		bool symbol_ok = true, second_ok = true;
		std::string idx;
		for (u32 k = 0; k < ptypes.size(); ++k) {
			PC pc = k < s.params.size() ? s.params[k] : P_INT;
			u32 x = r.below(3);
			auto elem = [&](Var const& v) { if (x == 0) p.op(65, v.sym); else p.op(245, v.sym), p.code.push_back(static_cast<char>(x)); };
			switch (ptypes[k]) {
			case T_INT: case T_FUNC: {
				i32 v;
				if (pc == P_FN) {
					v = static_cast<i32>(r.pick<u32>({fcb, fcb, fv.sym, gi.sym, 0xFFFFFFFF, p.cls[0]}));
					bool direct = r.flip();
					if (direct) p.op(64, static_cast<u32>(v)); else p.op(65, fv.sym), v = static_cast<i32>(fcb);
					want.push_back(v == static_cast<i32>(fcb) || v == static_cast<i32>(fv.sym) ? "fnCB" : "fn-");
				} else {
					if (r.flip()) v = r.i(), p.op(64, static_cast<u32>(v)); else v = p.t[gi.sym].i[x], elem(gi);
					want.push_back(pc == P_BOOL ? got(v != 0) : got(v));
				}
				break;
			}
			case T_FLOAT: {
				float v;
				if (r.flip()) { v = r.f(); u32 b; std::memcpy(&b, &v, 4); p.op(64, b); } else v = p.t[gf.sym].f[x], elem(gf);
				want.push_back(got(v));
				break;
			}
			case T_STRING: want.push_back(got(std::string_view(p.t[gs.sym].s[x]))), elem(gs); break;
			default: {
				u32 y = r.pick<u32>({insts[0], insts[1], gn.sym});
				p.op(r.flip() ? 65 : 67, y);
				want.push_back(pc == P_SYM ? "sym" + p.t[y].name : fmt("#%d", y == insts[0] ? 0 : 1));
				if (pc == P_SECOND) second_ok = false;
			}
			}
		}
		if (over) p.op(61, static_cast<u32>(p.t[subject].value)); else p.op(62, subject);
		p.op(60);

		DaedalusVm vm {Machine::script(p)};
		vm.register_member("CN.ONE", &Native::one);
		std::vector<std::shared_ptr<DaedalusInstance>> objs;
		seen = {};
		seen.objs = &objs;
		for (auto y : insts) { auto o = vm.allocate_instance<Native>(p.t[y].name); objs.push_back(o); VP_CHECK(vm.find_symbol_by_index(y)->get_instance() == o && o->symbol_index() == y, "allocated-instance", "%s", p.t[y].name.c_str()); }
		vm.find_symbol_by_index(gn.sym)->set_instance(objs[1]);
		vm.find_symbol_by_index(fv.sym)->set_int(static_cast<i32>(fcb));
		raw_ret = static_cast<i64>(r.flip() ? static_cast<u64>(r.u()) : r.next()), raw_real = r.flip() ? static_cast<double>(r.f()) : 0.1 * static_cast<double>(r.range(-1000, 1000));
		seen.ret = RVal::S(p.txt()), seen.ret_inst = static_cast<int>(r.range(-1, 1));

		auto empty = [&] { try { (void) vm.top_is_reference(); return false; } catch (DaedalusVmException&) { return true; } };
		std::string text = fmt("native %u params, script %zu params, return %u vs %u, %s", static_cast<u32>(s.params.size()), ptypes.size(), s.ret, ret, over ? "override" : "external");
		// names: unknown ones do nothing or are refused
		if (over) {
			bool refused = false;
			try { s.reg(vm, "NOSUCH", true); } catch (DaedalusSymbolNotFound&) { refused = true; }
			VP_CHECK(refused, "override-of-unknown", "accepted");
		} else {
			s.reg(vm, "NOSUCH", false);
			bool refused = false;
			try { s.reg(vm, "T", false); } catch (DaedalusScriptError&) { refused = true; }
			VP_CHECK(refused, "external-for-script-function", "accepted");
			refused = false;
			try { s.reg(vm, "SUBJECT", true); } catch (DaedalusScriptError&) { refused = true; }
			VP_CHECK(refused, "override-of-external", "accepted");
		}
		bool accepted = true;
		try { s.reg(vm, r.flip() ? "SUBJECT" : "subject", over); }
		catch (DaedalusIllegalExternalDefinition& e) { accepted = false; VP_CHECK(e.sym != nullptr, "refusal-names-no-symbol", "%s", e.what()); }
		VP_CHECK(accepted == match, std::string(match ? "matching-signature-refused" : "wrong-signature-accepted"), "%s", text.c_str());
		count(match ? "signatures accepted" : "signatures refused");
		state(fnv(text) ^ fnv(p.code.substr(0, 200)));
		auto invoke = [&]() -> RVal {
			auto* y = vm.find_symbol_by_name("T");
			switch (ret) {
			case T_VOID: vm.call_function<void>(y); return {};
			case T_INT: return RVal::I(vm.call_function<i32>(y));
			case T_FUNC: return RVal::I(vm.call_function<i32>(y));
			case T_FLOAT: return RVal::F(vm.call_function<float>(y));
			case T_STRING: return RVal::S(vm.call_function<std::string>(y));
			default: return RVal::N(seen_id(vm.call_function<std::shared_ptr<Native>>(y).get()));
			}
		};
		for (u32 n = 0; n < 3; ++n) {
			bool threw = false;
			RVal v;
			seen.calls = 0;
			try { v = invoke(); } catch (DaedalusScriptError&) { threw = true; }
			VP_CHECK(empty(), "values-left-on-the-stack", "%s", text.c_str());
			if (!match) {
				VP_CHECK(seen.calls == 0, "refused-function-called", "%s", text.c_str());
				VP_CHECK(over || threw, "unregistered-external-ignored", "%s", text.c_str());
				continue;
			}
			if (!second_ok) { VP_CHECK(threw && seen.calls == 0, "instance-of-wrong-class-passed", "%s", text.c_str()); count("wrong instances refused"); continue; }
			VP_CHECK(!threw && seen.calls == 1, "native-function-not-called", "%s", text.c_str());
			for (u32 k = 0; k < want.size(); ++k) VP_CHECK(seen.args[k] == want[k], std::string("argument"), "%s: argument %u is %s, expected %s", text.c_str(), k, seen.args[k].c_str(), want[k].c_str());
			count("arguments compared", want.size());
			if (s.ret != R_VOID) { auto e = s.expected(); VP_CHECK(e.show() == v.show(), std::string("returned-value"), "%s: got %s, expected %s", text.c_str(), v.show().c_str(), e.show().c_str()); count("returned values compared"); }
		}

		// ------------------------------------------------------------ calls from native code which must be refused
		auto refuse = [&](char const* what, auto fn) {
			bool threw = false;
			try { fn(); } catch (DaedalusScriptError&) { threw = true; }
			VP_CHECK(threw, std::string("accepted: ") + what, "%s", text.c_str());
			VP_CHECK(empty(), "values-left-on-the-stack", "after %s", what);
			VP_CHECK(vm.unsafe_get_gi() == nullptr, "context-not-restored", "after %s", what);
			count("calls refused");
		};
		if (match && second_ok && ret == T_INST) {
			auto any = vm.call_function<std::shared_ptr<DaedalusInstance>>("T");
			if (dynamic_cast<Native*>(any.get())) {
				refuse("instance of another class as the result", [&] { (void) vm.call_function<std::shared_ptr<Second>>("T"); });
				VP_CHECK(vm.call_function<std::shared_ptr<Native>>("T") == any, "result", "%s: another instance is returned", text.c_str());
			} else if (dynamic_cast<Second*>(any.get())) refuse("instance of another class as the result", [&] { (void) vm.call_function<std::shared_ptr<Native>>("T"); });
			count(any ? "instances returned" : "no instance returned");
		}
		refuse("unknown function", [&] { vm.call_function("NOSUCH"); });
		refuse("variable called", [&] { vm.call_function("GI"); });
		refuse("instance called as function", [&] { vm.call_function("NI0"); });
		refuse("too many arguments", [&] { vm.call_function("CB", 1); });
		refuse("too many arguments", [&] { vm.call_function<i32>("CB", 1, std::string_view("x")); });
		if (ptypes.size() == 1) {
			auto ty = ptypes[0];
			refuse("no arguments", [&] { vm.call_function("SUBJECT"); });
			if (ty != T_INT && ty != T_FUNC) refuse("int for another type", [&] { vm.call_function("SUBJECT", 5); }), refuse("bool for another type", [&] { vm.call_function("SUBJECT", true); });
			if (ty != T_FLOAT) refuse("float for another type", [&] { vm.call_function("SUBJECT", 5.f); });
			if (ty != T_STRING) refuse("string for another type", [&] { vm.call_function("SUBJECT", std::string_view("abc")); });
			if (ty != T_INST) refuse("instance for another type", [&] { vm.call_function("SUBJECT", std::static_pointer_cast<Native>(objs[0])); });
		}
		if (ptypes.size() == 2) {
			refuse("too few arguments", [&] { vm.call_function("SUBJECT", 5); });
			if (ptypes[0] == T_STRING && ptypes[1] != T_FLOAT) refuse("wrong second argument", [&] { vm.call_function("SUBJECT", std::string_view("abc"), 1.f); });
			if (ptypes[0] == T_FLOAT && ptypes[1] != T_STRING) refuse("wrong second argument", [&] { vm.call_function("SUBJECT", 1.f, std::string_view("abc")); });
			if (ptypes[0] == T_INT && ptypes[1] != T_INT && ptypes[1] != T_FUNC) refuse("wrong second argument", [&] { vm.call_function("SUBJECT", 1, 2); });
		}
		refuse("float result of an int function", [&] { (void) vm.call_function<float>("CB"); });
		refuse("string result of an int function", [&] { (void) vm.call_function<std::string>("CB"); });
		refuse("instance result of an int function", [&] { (void) vm.call_function<std::shared_ptr<Native>>("CB"); });
		refuse("no result of an int function", [&] { vm.call_function<void>("CB"); });
		VP_CHECK(vm.call_function<i32>("cb") == 5, "result", "after refused calls");
		(void) vm.call_function<IgnoreReturnValue>("cb");
		VP_CHECK(empty(), "values-left-on-the-stack", "after a call whose result is ignored");
		VP_CHECK(vm.call_function<i32>("cb") == 5, "result", "after a call whose result is ignored");
		refuse("instance of an unknown symbol", [&] { vm.init_instance<Native>("NOSUCH"); });
		refuse("instance of a variable", [&] { vm.init_instance<Native>("GI"); });
		refuse("instance of a function", [&] { vm.allocate_instance<Native>("CB"); });
		refuse("instance of another native class", [&] { vm.init_instance<Second>("NI0"); });
		refuse("opaque instance of a native class", [&] { vm.init_opaque_instance(vm.find_symbol_by_name("NI0")); });
		refuse("opaque instance of nothing", [&] { vm.init_opaque_instance(nullptr); });
		VP_CHECK(vm.find_symbol_by_name("NI0")->get_instance() == objs[0], "refused-instance-replaced-symbol", "NI0");
	}
} // namespace

void vp_init() {
	add_sigs1(), add_sigs2(), add_sigs3(), add_sigs4(), add_sigs5(), add_sigs6();
	Logger::set(LogLevel::ERROR, [](LogLevel, char const*, char const*) {});
}

void vp_case(vp::Rng& r, u64 n) {
	if (n % 4 == 0) programs(r);
	else signatures(r);
}
