#include "h_load.hh"
#include "vmprog.hh"

// Loads a generated program and runs it, however damaged it is by then.
namespace {
	using namespace vpm;
	struct Names { std::vector<std::string> natives, opaques, vars, fns; u8 flags; int handler; bool enabled; u64 seed; };
	thread_local u64 steps, steps_left;
	void limit(DaedalusVm&, DaedalusInstruction const&, size_t, size_t) { ++steps; if (steps_left == 0) throw StepLimit {}; --steps_left; }

	std::string execute(Names const& n, Read* in, bool run_it) {
		std::string log;
		DaedalusScript s;
		s.load(in);
		DaedalusVm vm(std::move(s), n.flags);
		vm.register_member("CN.ONE", &Native::one);
		vm.register_member("CN.MANY", &Native::many);
		vm.register_member("CN.REAL", &Native::real);
		vm.register_member("CN.REALS", &Native::reals);
		vm.register_member("CN.TEXT", &Native::text);
		vm.register_member("CN.TEXTS", &Native::texts);
		vm.register_member("CN.FN", &Native::fn);
		vm.register_as_opaque("CO");
		auto note = [&](std::string t) { if (log.size() < 200000) log += t + "\n"; };
		auto nm = [](DaedalusInstance const* i) { return i == nullptr ? -1 : static_cast<i32>(i->symbol_index()); };
		vm.register_external("X_II", [&](i32 a, i32 b) { note(fmt("ii %d %d", a, b)); return static_cast<i32>(static_cast<u32>(a) * 31u + static_cast<u32>(b)); });
		vm.register_external("X_FF", [&](float a, i32 b) { note(fmt("ff %a %d", static_cast<double>(a), b)); return a + static_cast<float>(b % 1000); });
		vm.register_external("X_SS", [&](std::string_view a, std::string_view b) { note("ss " + esc(a)); return (std::string(a) + std::string(b)).substr(0, 200); });
		vm.register_external("X_N", [&](std::shared_ptr<Native> a) { note(fmt("n %d", nm(a.get()))); return a; });
		vm.register_external("X_LOG", [&](std::string_view a, float b, i32 c, std::shared_ptr<DaedalusInstance> d) { note("log " + esc(a) + fmt(" %a %d %d", static_cast<double>(b), c, nm(d.get()))); });
		vm.register_external("X_CALL", [&](DaedalusFunction f, i32 b) {
			note(fmt("call %d", f.value ? static_cast<i32>(f.value->index()) : -1));
			if (f.value == nullptr || f.value->rtype() != DaedalusDataType::INT || steps_left < 100) return -9;
			return vm.call_function<i32>(f.value, b);
		});
		vm.register_external("X_NEST", [&](std::string_view a) {
			std::string before(a);
			auto* f = vm.find_symbol_by_name("CB_S");
			if (f != nullptr && steps_left > 100) (void) vm.call_function<std::string>(f, std::string_view("x"));
			if (a != before) note("CHANGED");
			return before.substr(0, 100);
		});
		vm.register_external("X_INIT", [&](i32 a) {
			auto* y = vm.find_symbol_by_name(n.natives[static_cast<u32>(a) % n.natives.size()]);
			if (y != nullptr && steps_left > 100) vm.init_instance<Native>(y);
		});
		vm.register_external("X_BOOL", [&](bool a) { note(fmt("b %d", a)); return !a; });
		i32 counter = 0;
		vm.register_external("X_COUNT", [&]() { return ++counter; });
		vm.register_external("X_RAW", [&](Native* a, i32 b) { if (a == nullptr) return -5; i32 v = a->one; a->one = static_cast<i32>(static_cast<u32>(v) ^ static_cast<u32>(b)); return v; });
		vm.register_external("X_THROW", [&](i32 a, std::string_view) -> i32 { if (a % 3 == 0) throw DaedalusVmException {"native"}; if (a % 3 == 1) throw NativeFailure {"native"}; return 99; });
		vm.register_external("X_MANY", [&](bool a, std::string_view b, float c, std::string_view d, Native* e, DaedalusFunction f, i32 g, std::string_view h) {
			note(fmt("many %d %a %d %d %d", a, static_cast<double>(c), nm(e), f.value ? static_cast<i32>(f.value->index()) : -1, g));
			return (std::string(b) + std::string(d) + std::string(h)).substr(0, 200);
		});
		vm.register_default_external([&](DaedalusSymbol const& y) { note("default " + esc(y.name())); });
		vm.register_access_trap([&](DaedalusSymbol& y) { note("trap " + esc(y.name())); vm.push_int(777); });
		if (n.handler == 1) vm.register_exception_handler(lenient_vm_exception_handler);
		if (n.handler > 1) vm.register_exception_handler([h = n.handler](DaedalusVm&, DaedalusScriptError const&, DaedalusInstruction const&) { return h == 2 ? DaedalusVmExceptionStrategy::RETURN : DaedalusVmExceptionStrategy::CONTINUE; });
		auto find = [&](std::string const& k) { return vm.find_symbol_by_name(k); };
		if (auto* t = find("TRAPPED")) t->set_access_trap_enable(true);
		if (n.enabled) for (auto& f : n.fns) if (auto* y = find(f)) y->set_local_variables_enable(true);
		if (!run_it) return log;

		auto go = [&](char const* what, auto f) {
			steps_left = run.prop == "C22" ? 2000 : 20000;
			try { f(); }
			catch (DaedalusScriptError const& e) { note(fmt("%s: error ", what) + esc(e.what())); }
			catch (NativeFailure const&) { note(fmt("%s: failure", what)); }
			catch (StepLimit const&) { note(fmt("%s: too long", what)); }
		};
		std::vector<std::shared_ptr<DaedalusInstance>> objs;
		for (auto& k : n.natives) if (auto* y = find(k)) go("native", [&] { objs.push_back(vm.init_instance<Native>(y)); });
		for (auto& k : n.opaques) if (auto* y = find(k)) go("opaque", [&] { objs.push_back(vm.init_opaque_instance(y)); });
		Rng r(n.seed);
		for (auto& k : n.vars) if (auto* y = find(k)) go("variable", [&] {
			if (y->type() == DaedalusDataType::INSTANCE && !objs.empty()) y->set_instance(r.pick(objs));
			if (y->type() == DaedalusDataType::FUNCTION && y->count() > 0) if (auto* c = find("CB_0")) y->set_int(static_cast<i32>(c->index()));
		});
		auto nat = [&]() -> std::shared_ptr<Native> { return objs.empty() ? nullptr : std::dynamic_pointer_cast<Native>(r.pick(objs)); };
		for (u32 calls = 8 + r.below(12); calls > 0; --calls) {
			u32 k = r.below(static_cast<u32>(n.fns.size()));
			auto* f = find(n.fns[k]);
			if (f == nullptr) continue;
			i32 a = static_cast<i32>(r.range(-3, 20)), b = r.i();
			std::string t(r.below(40), 'q');
			go(n.fns[k].c_str(), [&] {
				switch (k) {
				case 0: note(fmt("=%d", vm.call_function<i32>(f, a, b))); break;
				case 1: vm.call_function<void>(f); break;
				case 2: note("=" + esc(vm.call_function<std::string>(f, std::string_view(t)))); break;
				case 3: note(fmt("=%a", static_cast<double>(vm.call_function<float>(f, r.f(), a)))); break;
				case 4: note(fmt("=%d", nm(vm.call_function<std::shared_ptr<Native>>(f, nat()).get()))); break;
				case 5: { auto q = vm.call_function<DaedalusFunction>(f, a); note(fmt("=%d", q.value ? static_cast<i32>(q.value->index()) : -1)); break; }
				default: note("=" + esc(vm.call_function<std::string>(f, a, std::string_view(t), r.f(), nat(), b))); break;
				}
			});
		}
		for (u32 k = 0; k < vm.symbols().size(); ++k) {
			auto* y = vm.find_symbol_by_index(k);
			std::string l = esc(y->name());
			for (u16 j = 0; j < std::min<u32>(y->count(), 300); ++j) {
				try { l += fmt(" %d", y->get_int(j)); } catch (DaedalusScriptError const&) {}
				try { l += fmt(" %a", static_cast<double>(y->get_float(j))); } catch (DaedalusScriptError const&) {}
				try { l += " " + esc(y->get_string(j)); } catch (DaedalusScriptError const&) {}
			}
			log += l + "\n";
		}
		for (auto& o : objs) if (auto* x = dynamic_cast<Native*>(o.get())) log += fmt("obj %d %d %a %d ", x->one, x->many[6], static_cast<double>(x->real), x->fn) + esc(x->text) + esc(x->texts[3]) + fmt(" %x\n", x->tail);
		log += fmt("steps %llu\n", static_cast<unsigned long long>(steps));
		steps = 0;
		return log;
	}
	Register prog("script execution", [](Rng& r, u64) {
		Prog p(r);
		p.size = static_cast<int>(1 + r.below(3));
		p.table();
		p.emit();
		Names n;
		for (auto k : p.natives) n.natives.push_back(p.t[k].name);
		for (auto k : p.opaques) n.opaques.push_back(p.t[k].name);
		for (auto& v : p.globals) n.vars.push_back(p.t[v.sym].name);
		for (auto& f : p.fns) for (auto& v : f.params) n.vars.push_back(p.t[v.sym].name);
		for (u32 k = 0; k < 7; ++k) n.fns.push_back(p.fns[k].name);
		n.flags = static_cast<u8>(r.chance(30) ? DaedalusVmExecutionFlag::ALLOW_NULL_INSTANCE_ACCESS : 0);
		n.handler = r.chance(50) ? 0 : static_cast<int>(1 + r.below(3));
		n.enabled = r.flip();
		n.seed = r.next();
		zk_vp_exec_hook = limit;
		return File {"script execution", encode_dat(p.t, p.code), false, false, true, [n](Bytes const&, Read* in, bool use) { return execute(n, in, use || run.prop == "C22"); }};
	});
}
