#include "h_load.hh"
#include <ctime>
#define vp_case vp_case_objects
#define vp_init vp_init_objects
#define time vp_time_objects
#include "h_objects.cc"
#undef time

namespace {
	Register objects("object", [](Rng& r, u64 n) {
		auto& all = classes();
		auto& ci = all[n % all.size()];
		Cfg c;
		u64 m = n / all.size() + n;
		c.v = m & 1 ? GameVersion::GOTHIC_2 : GameVersion::GOTHIC_1;
		c.save = m & 2;
		c.packed = !ci.vob || !(m & 4);
		c.fmt = std::array {ArchiveFormat::BINARY, ArchiveFormat::BINSAFE, ArchiveFormat::ASCII}[(m >> 3) % 3];
		Vis f(Vis::FILL, c, &r);
		f.maxdepth = static_cast<int>(r.below(4));
		f.width = 3;
		auto o = ci.make();
		f.pool.push_back(o);
		f.fields(*o);
		RefArchive ra(c.fmt, c.save);
		{ Vis e(Vis::ENC, c); e.ar = &ra; e.object("obj", o.get()); }
		return File {std::string("object ") + ci.name + " " + c.str(), ra.finish(), c.fmt == ArchiveFormat::BINSAFE, false, false, [c](Bytes const&, Read* in, bool use) -> std::string {
			auto a = ReadArchive::from(in);
			auto x = a->read_object(c.v);
			if (!use) return "";
			auto d = dump(c, x.get());
			if (c.packed && x) {
				d += saved([&](Write* w) {
					auto q = c.save ? WriteArchive::to_save(w, c.fmt) : WriteArchive::to(w, c.fmt);
					q->write_object("obj", x, c.v);
					q->write_header();
				}, c.fmt == ArchiveFormat::BINSAFE);
			}
			return d;
		}};
	});
}
