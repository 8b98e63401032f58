#include "h_load.hh"
#include <ctime>
#define vp_case vp_case_world
#define vp_init vp_init_world
#define time vp_time_world
#include "h_world.cc"
#undef time

namespace {
	Register world("world", [](Rng& r, u64 n) {
		auto s = std::make_shared<Spec>();
		auto& c = s->c;
		c.v = n & 1 ? GameVersion::GOTHIC_2 : GameVersion::GOTHIC_1;
		c.save = n & 2;
		c.fmt = std::array {ArchiveFormat::BINARY, ArchiveFormat::BINSAFE, ArchiveFormat::ASCII}[(n >> 2) % 3];
		fill_world(r, *s, r.chance(40));
		Bytes mesh;
		if (!c.save) {
			Chunks k;
			enc_mesh(k, s->w.world_mesh, c.v, s->wide, s->shared);
			enc_bsp(k, s->w.world_bsp_tree, c.v);
			mesh = k.w.bytes();
		}
		auto data = encode_world(*s, &mesh, shuffled(r, c.save), "%");
		bool wide = s->wide;
		int way = static_cast<int>(r.below(c.save ? 2 : 3));
		return File {"world " + c.str(), std::move(data), c.fmt == ArchiveFormat::BINSAFE, false, false, [c, wide, way](Bytes const&, Read* in, bool use) -> std::string {
			auto w = std::make_shared<World>();
			std::vector<std::unique_ptr<ReadArchive>> keep;
			if (reused) {
				auto into = [&](Read* q, World& x) {
					keep.push_back(ReadArchive::from(q));
					ArchiveObject h;
					if (!keep.back()->read_object_begin(h)) throw ParserError {"monitor", "no object"};
					x.load(*keep.back(), c.v);
				};
				warm([&](Read* q) { if (way == 2) w->load(q); else if (way == 1) w->load(q, c.v); else into(q, *w); });
				if (way == 0) into(in, *w);
			}
			if (way == 2) w->load(in);
			else if (way == 1) w->load(in, c.v);
			else if (!reused) { auto a = ReadArchive::from(in); w = a->read_object<World>(c.v); }
			if (!use) return "";
			if (!w) return "null";
			auto o = dump_world(c, *w, true);
			if (!wide || c.save) o += saved([&](Write* q) { auto a = c.save ? WriteArchive::to_save(q, c.fmt) : WriteArchive::to(q, c.fmt); a->write_object("%", w, c.v); a->write_header(); }, c.fmt == ArchiveFormat::BINSAFE);
			return o;
		}};
	});
	std::string use_save(SaveGame& s, Cfg c, bool use) {
		auto w = s.load_world();
		if (!use) return "";
		Cfg b = c;
		b.fmt = ArchiveFormat::BINARY;
		return dump_meta(s.metadata, c) + dump_state(s.state, c) + (s.thumbnail ? digest(tex_bytes(*s.thumbnail)) : "none") + "\n" + (w ? dump_world(b, *w, true) : "no world");
	}
	// one of the files of a save-game is the input, the others are intact
	Register save("save-game", [](Rng& r, u64 n) {
		Cfg c;
		c.v = n & 1 ? GameVersion::GOTHIC_2 : GameVersion::GOTHIC_1;
		c.save = true;
		c.fmt = ArchiveFormat::ASCII;
		std::vector<std::shared_ptr<Object>> keep;
		SaveMetadata meta;
		{ Vis f(Vis::FILL, c, &r); f.fields(meta); meta.world = "WORLD"; }
		SaveState st {};
		fill_state(r, st, c, keep);
		auto files = std::make_shared<std::map<std::string, Bytes>>();
		RefArchive a(ArchiveFormat::ASCII, false);
		Vis e(Vis::ENC, c);
		e.ar = &a;
		e.object("%", &meta);
		(*files)["SAVEINFO.SAV"] = a.finish();
		Rng junk(r.next());
		(*files)["SAVEDAT.SAV"] = encode_state(st, c, &junk);
		RefTex t;
		(*files)["THUMB.SAV"] = tex_bytes(*rtexture(r, t));
		Spec wa;
		wa.c = c;
		wa.c.fmt = ArchiveFormat::BINARY;
		fill_world(r, wa, false);
		(*files)["WORLD.SAV"] = encode_world(wa, nullptr, {1, 2, 3, 4}, "%");
		static char const* N[] = {"SAVEDAT.SAV", "SAVEINFO.SAV", "SAVEDAT.SAV", "THUMB.SAV", "WORLD.SAV"};
		std::string target = N[(n >> 1) % 5];
		File f {"save-game " + target, (*files)[target], false, true, false, [=](Bytes const& data, Read*, bool use) -> std::string {
			fs::path d = fs::path(private_dir()) / "save";
			std::error_code ec;
			fs::create_directories(d, ec);
			for (auto& [k, v] : *files) if (k != target) write_file((d / k).string(), v.data(), v.size());
			SaveGame s(c.v);
			for (auto& b : before()) {
				write_file((d / target).string(), b.data(), b.size());
				try { s.load(d); (void) s.load_world(); ++before_ok; } catch (std::exception const&) { ++before_failed; }
			}
			write_file((d / target).string(), data.data(), data.size());
			s.load(d);
			return use_save(s, c, use);
		}};
		for (auto& [k, v] : *files) f.more += v.size();
		return f;
	});
	Register meta("save-game metadata and state", [](Rng& r, u64 n) {
		Cfg c;
		c.v = n & 1 ? GameVersion::GOTHIC_2 : GameVersion::GOTHIC_1;
		c.save = true;
		c.fmt = std::array {ArchiveFormat::BINARY, ArchiveFormat::BINSAFE, ArchiveFormat::ASCII}[(n >> 1) % 3];
		SaveState st {};
		std::vector<std::shared_ptr<Object>> keep;
		fill_state(r, st, c, keep);
		Rng junk(r.next());
		return File {"save-game state " + c.str(), encode_state(st, c, &junk), c.fmt == ArchiveFormat::BINSAFE, false, false, [=](Bytes const&, Read* in, bool use) -> std::string {
			auto a = ReadArchive::from(in);
			SaveState s {};
			warm([&](Read* q) { auto p = ReadArchive::from(q); s.load(*p, c.v); });
			s.load(*a, c.v);
			if (!use) return "";
			return dump_state(s, c) + saved([&](Write* q) { auto w = WriteArchive::to_save(q, c.fmt); s.save(*w, c.v); w->write_header(); }, c.fmt == ArchiveFormat::BINSAFE);
		}};
	});
	Register sample("sample save-game", [](Rng& r, u64 n) {
		static struct { char const* dir; GameVersion v; } const S[] = {{"G1/Save", GameVersion::GOTHIC_1}, {"G1/SaveFast", GameVersion::GOTHIC_1}, {"G2/Save", GameVersion::GOTHIC_2}, {"G2/SaveFast", GameVersion::GOTHIC_2}};
		auto& x = S[n % 4];
		fs::path src = fs::path(VP_SAMPLES) / x.dir;
		std::vector<fs::path> fl;
		for (auto& e : fs::directory_iterator(src)) if (e.file_size() < 300000) fl.push_back(e.path());
		std::sort(fl.begin(), fl.end());
		auto target = fl[r.below(static_cast<u32>(fl.size()))];
		Cfg c;
		c.v = x.v;
		c.save = true;
		c.fmt = ArchiveFormat::BINARY;
		File f {"sample save-game", read_file(target.string()), false, true, false, [=](Bytes const& data, Read*, bool use) -> std::string {
			fs::path d = fs::path(private_dir()) / "sample";
			std::error_code ec;
			fs::remove_all(d, ec);
			fs::create_directories(d, ec);
			for (auto& e : fs::directory_iterator(src)) if (e.path() != target) fs::copy_file(e.path(), d / e.path().filename());
			write_file((d / target.filename()).string(), data.data(), data.size());
			SaveGame s(c.v);
			s.load(d);
			return use_save(s, c, use);
		}};
		for (auto& e : fs::directory_iterator(src)) f.more += e.file_size();
		return f;
	});
}
