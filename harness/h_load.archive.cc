#include "h_load.hh"
#include <ctime>
#define vp_case vp_case_archive
#define vp_init vp_init_archive
#define time vp_time_archive
#include "h_archive.cc"
#undef time

namespace {
	std::string v2(Vec2 const& v) { return fmt("%a %a", static_cast<double>(v.x), static_cast<double>(v.y)); }
	std::string v3(Vec3 const& v) { return fmt("%a %a %a", static_cast<double>(v.x), static_cast<double>(v.y), static_cast<double>(v.z)); }
	// some reader that knows nothing about the archive: any call in any order has to be safe
	std::string wander(ReadArchive& a, u64 seed) {
		Rng g(seed);
		std::string o;
		for (int k = 0; k < 300; ++k) {
			auto w = g.below(19);
			try {
				ArchiveObject ob;
				switch (w) {
				case 0: case 1: o += a.read_object_begin(ob) ? "begin " + esc(ob.class_name) + esc(ob.object_name) + fmt("%d %d", ob.version, ob.index) : "no begin"; break;
				case 2: case 3: o += a.read_object_end() ? "end" : "no end"; break;
				case 4: if (g.chance(20)) a.skip_object(g.flip()); break;
				case 5: o += esc(a.read_string()); break;
				case 6: o += fmt("%d", a.read_int()); break;
				case 7: o += fmt("%a", static_cast<double>(a.read_float())); break;
				case 8: o += fmt("%u", a.read_byte()); break;
				case 9: o += fmt("%u", a.read_word()); break;
				case 10: o += fmt("%u", a.read_enum()); break;
				case 11: o += a.read_bool() ? "t" : "f"; break;
				case 12: { auto c = a.read_color(); o += fmt("%u %u %u %u", c.r, c.g, c.b, c.a); break; }
				case 13: o += v3(a.read_vec3()); break;
				case 14: o += v2(a.read_vec2()); break;
				case 15: { auto b = a.read_bbox(); o += v3(b.min) + v3(b.max); break; }
				case 16: { auto m = a.read_mat3x3(); o += fmt("%a", static_cast<double>(m[1][2])); break; }
				case 17: { u32 n = g.below(40); auto s = a.read_raw(n); o += fmt("raw %zu", [&] { s->seek(0, Whence::END); return s->tell(); }()); break; }
				default: if (g.chance(30)) { auto x = a.read_object(g.flip() ? GameVersion::GOTHIC_1 : GameVersion::GOTHIC_2); o += x ? "object" : "null"; }
				}
			} catch (std::exception const&) {
				o += "refused";
				if (g.chance(4)) return o;
			}
			o += '\n';
		}
		return o;
	}
	Register generic("archive", [](Rng& r, u64 n) {
		auto f = FORMATS[n % 3];
		bool save = r.flip();
		u32 index = 0;
		std::vector<std::unique_ptr<Node>> roots;
		u32 nroots = 1 + r.below(3);
		for (u32 k = 0; k < nroots; ++k) roots.push_back(gen_tree(r, f, 0, index, false));
		RefArchive ref(f, save, r.chance(80), r.chance(80));
		for (auto& n : roots) ref_tree(ref, *n);
		ref.index = index;
		u64 seed = r.next();
		return File {std::string("archive ") + FN[n % 3], ref.finish(), f == ArchiveFormat::BINSAFE, false, false, [seed](Bytes const&, Read* in, bool) -> std::string {
			auto a = ReadArchive::from(in);
			return wander(*a, seed);
		}};
	});
}
