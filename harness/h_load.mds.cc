#include "h_load.hh"
#define vp_case vp_case_mds
#define vp_init vp_init_mds
#include "h_mds.cc"

namespace {
	std::string load_mds(Read* in, bool use) {
		ModelScript m;
		warm([&](Read* q) { m.load(q); });
		m.load(in);
		if (!use) return "";
		D d;
		d.script(m, true);
		d.script(m, false);
		return d.o;
	}
	Register bin("binary model script", [](Rng& r, u64) {
		auto v = rscript(r);
		return File {"binary model script", enc_binary(v, r, r.chance(40)), false, false, true, [](Bytes const&, Read* in, bool use) { return load_mds(in, use); }};
	});
	Register text("model script", [](Rng& r, u64) {
		auto v = rscript(r);
		Text t(r, r.flip());
		return File {"model script", t.write(v), false, false, false, [](Bytes const&, Read* in, bool use) { return load_mds(in, use); }};
	});
}
