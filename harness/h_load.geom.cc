#include "georef.hh"
#include "h_load.hh"
#include <zenkit/addon/texcvt.hh>

using namespace vp;
using namespace zenkit;

namespace {
	GameVersion ver(u64 n) { return n & 1 ? GameVersion::GOTHIC_2 : GameVersion::GOTHIC_1; }

	Register mesh("mesh", [](Rng& r, u64 n) {
		auto v = ver(n);
		bool wide = v == GameVersion::GOTHIC_1 && r.chance(20), shared = r.chance(70);
		Mesh m;
		fill_mesh(r, m, v, wide);
		Chunks c;
		Rng noise(r.next());
		if (r.chance(20)) c.noise = &noise;
		enc_mesh(c, m, v, wide, shared);
		std::vector<u32> leafs;
		for (u32 k = r.below(2 * static_cast<u32>(m.geometry.size()) + 1); k > 0; --k) leafs.push_back(r.below(static_cast<u32>(m.geometry.size()) + 1));
		std::sort(leafs.begin(), leafs.end());
		bool with = r.flip();
		File f {"mesh", c.w.bytes(), false, false, true, [=](Bytes const&, Read* in, bool use) -> std::string {
			Mesh x;
			warm([&](Read* q) { if (with) x.load(q, leafs, wide); else x.load(q, wide); });
			if (with) x.load(in, leafs, wide); else x.load(in, wide);
			if (!use) return "";
			Dump d;
			dump_mesh(d, x, v, true);
			dump_triangles(d, x.polygons);
			if (!wide) d.o += saved([&](Write* w) { x.save(w, v); });
			return d.o;
		}};
		return f;
	});
	Register bsp("bsp", [](Rng& r, u64 n) {
		auto v = ver(n);
		BspTree m {};
		fill_bsp(r, m, v, 20);
		Chunks c;
		Rng noise(r.next());
		if (r.chance(20)) c.noise = &noise;
		enc_bsp(c, m, v);
		return File {"bsp", c.w.bytes(), false, false, true, [=](Bytes const&, Read* in, bool use) -> std::string {
			BspTree x;
			warm([&](Read* q) { x.load(q, v == GameVersion::GOTHIC_1 ? 0x2090000 : 0x4090000); });
			x.load(in, v == GameVersion::GOTHIC_1 ? 0x2090000 : 0x4090000);
			if (!use) return "";
			Dump d;
			dump_bsp(d, x);
			return d.o + saved([&](Write* w) { x.save(w, v); });
		}};
	});
	template <class T, class Fill, class Enc, class DumpF, class Save> Register simple(char const* kind, Fill fill, Enc enc, DumpF dump, Save save) {
		return Register(kind, [=](Rng& r, u64 n) {
			auto v = ver(n);
			T m {};
			fill(r, m, v);
			Chunks c;
			Rng noise(r.next()), sh(r.next());
			if (r.chance(20)) c.noise = &noise;
			enc(c, m, v, r.chance(30) ? &sh : nullptr);
			return File {kind, c.w.bytes(), false, false, true, [=](Bytes const&, Read* in, bool use) -> std::string {
				T x;
				warm([&](Read* q) { x.load(q); });
				x.load(in);
				if (!use) return "";
				Dump d;
				dump(d, x, v);
				return d.o + save(x, v);
			}};
		});
	}
	// what these save may be ordered by memory position: only loading is compared
	auto none = [](auto&, GameVersion) { return std::string(); };
	// attachments are saved in the order of a hash table, which only the same object keeps
	auto unordered = [](auto& x, GameVersion v) { return run.prop == "C32" ? saved([&](Write* w) { x.save(w, v); }) : std::string(); };
	Register mrm = simple<MultiResolutionMesh>("mrm", [](Rng& r, auto& m, GameVersion v) { fill_mrm(r, m, v, r.below(4)); }, [](Chunks& c, auto& m, GameVersion v, Rng* s) { enc_mrm(c, m, v, s); }, [](Dump& d, auto& m, GameVersion v) { dump_mrm(d, m, v); }, [](auto& x, GameVersion v) { return saved([&](Write* w) { x.save(w, v); }); });
	Register skin = simple<SoftSkinMesh>("softskin", [](Rng& r, auto& m, GameVersion v) { fill_softskin(r, m, v); }, [](Chunks& c, auto& m, GameVersion v, Rng* s) { enc_softskin(c, m, v, s); }, [](Dump& d, auto& m, GameVersion v) { dump_softskin(d, m, v); }, [](auto& x, GameVersion v) { return saved([&](Write* w) { x.save(w, v); }); });
	Register mm = simple<ModelMesh>("modelmesh", [](Rng& r, auto& m, GameVersion v) { fill_modelmesh(r, m, v); }, [](Chunks& c, auto& m, GameVersion v, Rng* s) { enc_modelmesh(c, m, v, s); }, [](Dump& d, auto& m, GameVersion v) { dump_modelmesh(d, m, v); d.o += fmt("checksum=%u\n", m.checksum); }, unordered);
	Register hier = simple<ModelHierarchy>("hierarchy", [](Rng& r, auto& m, GameVersion) { fill_hierarchy(r, m); }, [](Chunks& c, auto& m, GameVersion, Rng*) { enc_hierarchy(c, m); }, [](Dump& d, auto& m, GameVersion) { dump_hierarchy(d, m); }, [](auto& x, GameVersion) { return saved([&](Write* w) { x.save(w); }); });
	Register model = simple<Model>("model", [](Rng& r, auto& m, GameVersion v) { fill_hierarchy(r, m.hierarchy); fill_modelmesh(r, m.mesh, v); }, [](Chunks& c, auto& m, GameVersion v, Rng* s) { enc_hierarchy(c, m.hierarchy); enc_modelmesh(c, m.mesh, v, s); }, [](Dump& d, auto& m, GameVersion v) { dump_hierarchy(d, m.hierarchy); dump_modelmesh(d, m.mesh, v); d.o += fmt("checksum=%u\n", m.mesh.checksum); }, unordered);
	Register morph = simple<MorphMesh>("morphmesh", [](Rng& r, auto& m, GameVersion v) { fill_morph(r, m, v); }, [](Chunks& c, auto& m, GameVersion v, Rng* s) { enc_morph(c, m, v, s); }, [](Dump& d, auto& m, GameVersion v) { dump_morph(d, m, v); }, none);
	Register anim("animation", [](Rng& r, u64) {
		RefAnim m;
		fill_anim(r, m);
		Chunks c;
		Rng noise(r.next());
		if (r.chance(20)) c.noise = &noise;
		enc_anim(c, m);
		return File {"animation", c.w.bytes(), false, false, true, [](Bytes const&, Read* in, bool use) -> std::string {
			ModelAnimation x;
			warm([&](Read* q) { x.load(q); });
			x.load(in);
			if (!use) return "";
			Dump d;
			dump_anim(d, x, true);
			return d.o;
		}};
	});
	std::string tex_use(Texture const& x, bool use) {
		std::string o;
		for (u32 l = 0; l < std::min<u32>(x.mipmaps() + 1, 12); ++l) {
			try { auto p = x.as_rgba8(l); o += fmt("level%u=%016llx\n", l, static_cast<unsigned long long>(fnv(p.data(), p.size()))); } catch (std::exception const&) { o += "level=refused\n"; }
			if (!use && l >= 3) break;
		}
		try { o += saved([&](Write* w) { x.save(w); }); } catch (std::exception const&) { o += "not saved\n"; }
		try { auto b = to_dds(x); o += "dds=" + digest(b) + "\n"; } catch (std::exception const&) { o += "no dds\n"; }
		return fmt("%u %u %u %u %u %u %u\n", static_cast<u32>(x.format()), x.width(), x.height(), x.ref_width(), x.ref_height(), x.mipmaps(), x.average_color()) + o;
	}
	Register tex("texture", [](Rng& r, u64) {
		RefTex m;
		m.fill(r, 20);
		RefWriter w;
		m.encode(w);
		return File {"texture", w.bytes(), false, false, true, [](Bytes const&, Read* in, bool use) -> std::string {
			Texture x;
			warm([&](Read* q) { x.load(q); });
			x.load(in);
			return tex_use(x, use);
		}};
	});
}
