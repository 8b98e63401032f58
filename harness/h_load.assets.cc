#include "h_load.hh"
#define vp_case vp_case_assets
#define vp_init vp_init_assets
#include <ctime>
#define time vp_time_assets
#include "h_assets.cc"
#undef time

namespace {
	Register fonts("font", [](Rng& r, u64) {
		RefWriter w;
		u32 n = r.chance(30) ? 256 : rn(r, 8);
		w.line("1"); w.line(rline(r)); w.u32_(r.u()); w.u32_(n);
		for (u32 k = 0; k < n; ++k) w.u8_(static_cast<u8>(r.u()));
		for (u32 k = 0; k < 4 * n; ++k) w.f32_(r.f());
		return File {"font", w.bytes(), false, false, true, [](Bytes const&, Read* in, bool use) -> std::string {
			Font f;
			warm([&](Read* q) { f.load(q); });
			f.load(in);
			if (!use) return "";
			return dump_font(f) + saved([&](Write* o) { f.save(o); });
		}};
	});
	Register materials("material", [](Rng& r, u64 k) {
		Cfg c;
		c.v = k & 1 ? GameVersion::GOTHIC_1 : GameVersion::GOTHIC_2;
		c.fmt = std::array {ArchiveFormat::BINARY, ArchiveFormat::BINSAFE, ArchiveFormat::ASCII}[(k >> 1) % 3];
		u32 n = 1 + r.below(4);
		RefArchive ar(c.fmt, false);
		for (u32 q = 0; q < n; ++q) {
			Material m;
			Vis f(Vis::FILL, c, &r);
			f.material(m);
			Val v; v.kind = Val::STRING; v.name = ""; v.s = m.name;
			ar.value(v);
			ar.begin("%", "zCMaterial", c.v == GameVersion::GOTHIC_1 ? 17408 : 39939);
			Vis e(Vis::ENC, c);
			e.ar = &ar;
			e.material(m);
			ar.end();
		}
		return File {"material " + c.str(), ar.finish(), c.fmt == ArchiveFormat::BINSAFE, false, false, [=](Bytes const&, Read* in, bool use) -> std::string {
			auto a = ReadArchive::from(in);
			std::string got;
			std::vector<Material> all;
			for (u32 k = 0; k < n; ++k) { Material m; warm([&](Read* q) { auto p = ReadArchive::from(q); m.load(*p); }); m.load(*a); got += dump_material(c, m); all.push_back(m); }
			if (use) got += saved([&](Write* w) { auto q = WriteArchive::to(w, c.fmt); for (auto& m : all) m.save(*q, c.v); q->write_header(); }, c.fmt == ArchiveFormat::BINSAFE);
			return got;
		}};
	});
	Register libraries("cutscene library", [](Rng& r, u64 k) {
		Cfg c;
		c.v = k & 1 ? GameVersion::GOTHIC_1 : GameVersion::GOTHIC_2;
		c.fmt = std::array {ArchiveFormat::BINARY, ArchiveFormat::BINSAFE, ArchiveFormat::ASCII}[(k >> 1) % 3];
		CutsceneLibrary lib;
		for (u32 k = r.below(8); k > 0; --k) {
			auto b = std::make_shared<CutsceneBlock>();
			b->name = fmt("B%u", k);
			CutsceneBlock* in = b.get();
			for (u32 d = r.chance(20) ? 1 + r.below(3) : 0; d; --d) { auto q = std::make_shared<CutsceneBlock>(); q->name = r.name(); in->block = q; in = q.get(); }
			auto at = std::make_shared<CutsceneAtomicBlock>();
			in->block = at;
			if (r.chance(90)) { auto m = std::make_shared<ConversationMessageEvent>(); m->type = r.below(200); m->name = r.name(); m->text = r.name(40); at->message = m; }
			lib.blocks.push_back(b);
		}
		RefArchive ar(c.fmt, false);
		{ Vis e(Vis::ENC, c); e.ar = &ar; e.object("%", &lib); }
		bool direct = r.flip();
		return File {"cutscene library " + c.str(), ar.finish(), c.fmt == ArchiveFormat::BINSAFE, false, false, [=](Bytes const&, Read* in, bool use) -> std::string {
			std::shared_ptr<CutsceneLibrary> l;
			std::unique_ptr<ReadArchive> a;
			if (direct || reused) { l = std::make_shared<CutsceneLibrary>(); warm([&](Read* q) { auto p = ReadArchive::from(q); ArchiveObject h; p->read_object_begin(h); l->load(*p, c.v); }); a = ReadArchive::from(in); ArchiveObject q; a->read_object_begin(q); l->load(*a, c.v); }
			else { a = ReadArchive::from(in); l = a->read_object<CutsceneLibrary>(c.v); }
			std::string o;
			if (l) for (auto& b : l->blocks) {
				if (!b) { o += "null\n"; continue; }
				o += esc(b->name) + "=" + msg(b->get_message()) + "\n";
				l->block_by_name(b->name);
			}
			if (use && l) o += saved([&](Write* w) { auto q = WriteArchive::to(w, c.fmt); q->write_object("%", l, c.v); q->write_header(); }, c.fmt == ArchiveFormat::BINSAFE);
			return o;
		}};
	});
}
