#include "h_load.hh"
#define vp_case vp_case_script
#define vp_init vp_init_script
#include "h_script.cc"
#include <zenkit/DaedalusVm.hh>

namespace {
	std::string load_dat(Read* in, bool vm) {
		std::string o;
		auto use = [&](DaedalusScript& s) {
			for (u32 k = 0; k < s.symbols().size(); ++k) {
				auto* y = s.find_symbol_by_index(k);
				o += esc(y->name()) + fmt("=%u %u %u %d", static_cast<u32>(y->type()), y->count(), y->address(), y->parent());
				for (u16 j = 0; j < std::min<u32>(y->count(), 8); ++j) {
					try { o += fmt(" %d", y->get_int(j)); } catch (DaedalusScriptError const&) {}
					try { float f = y->get_float(j); u32 b; std::memcpy(&b, &f, 4); o += fmt(" %08x", b); } catch (DaedalusScriptError const&) {}
					try { o += " " + esc(y->get_string(j)); } catch (DaedalusScriptError const&) {}
				}
				o += '\n';
				s.find_symbol_by_name(y->name());
				s.find_symbol_by_address(y->address());
				s.find_parameters_for_function(y);
				s.find_locals_for_function(y);
			}
			u64 h = 0;
			for (u32 at = 0; at < s.size() && at < 4000;) {
				try { auto i = s.instruction_at(at); h = h * 31 + static_cast<u64>(i.op) * 7 + i.address + i.symbol + static_cast<u64>(i.immediate) + i.index; at += i.size; } catch (std::exception const&) { ++at; h += 99; }
			}
			o += fmt("code=%u %016llx\n", s.size(), static_cast<unsigned long long>(h));
		};
		DaedalusScript s;
		warm([&](Read* q) { s.load(q); });
		s.load(in);
		if (vm) { DaedalusVm m(std::move(s)); use(m); }
		else use(s);
		return o;
	}
	Register dat("compiled script", [](Rng& r, u64) {
		auto T = generate(r);
		bool vm = r.flip();
		return File {"compiled script", encode_dat(T.t, T.code, r.below(256)), false, false, true, [vm](Bytes const&, Read* in, bool) { return load_dat(in, vm); }};
	});
}
