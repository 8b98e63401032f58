// C17: fonts, materials and cutscene libraries, against independent encoders and a name-table model.
#include "georef.hh"
#include <ctime>
#include <zenkit/Error.hh>
#include <zenkit/Font.hh>
#include <zenkit/Logger.hh>

using namespace vp;
using namespace zenkit;

extern "C" time_t time(time_t* t) noexcept {
	if (t) *t = 1000000000;
	return 1000000000;
}

void vp_init() { Logger::set(LogLevel::ERROR, [](LogLevel, char const*, char const*) {}); }

namespace {
	void differ(std::string const& key, std::string const& want, std::string const& got) {
		if (want == got) { count("values compared", static_cast<u64>(std::count(want.begin(), want.end(), '\n'))); return; }
		std::string field;
		auto d = first_diff(want, got, &field);
		fail(key + ":" + field, d);
	}

	// ---------------------------------------------------------------- fonts
	std::string dump_font(Font const& f) {
		Dump d;
		d.l("name", f.name); d.l("height", f.height); d.l("glyphs", f.glyphs.size());
		for (size_t k = 0; k < f.glyphs.size(); ++k) { d.l(fmt("g%zu.width", k), f.glyphs[k].width); d.l(fmt("g%zu.uv_a", k), Dump::v(f.glyphs[k].uv[0])); d.l(fmt("g%zu.uv_b", k), Dump::v(f.glyphs[k].uv[1])); }
		return d.o;
	}
	void font(Rng& r) {
		Font f;
		f.name = rline(r);
		f.height = r.u();
		u32 n = r.chance(30) ? 256 : rn(r, 8);
		for (u32 k = 0; k < n; ++k) { FontGlyph g; g.width = static_cast<u8>(r.u()); g.uv[0] = rv2(r); g.uv[1] = rv2(r); f.glyphs.push_back(g); }
		RefWriter w;
		w.line("1"); w.line(f.name); w.u32_(f.height); w.u32_(n);
		for (auto& g : f.glyphs) w.u8_(g.width);
		for (auto& g : f.glyphs) { w.f32_(g.uv[0].x); w.f32_(g.uv[0].y); }
		for (auto& g : f.glyphs) { w.f32_(g.uv[1].x); w.f32_(g.uv[1].y); }
		auto ref = w.bytes();
		auto want = dump_font(f);
		label("font load");
		Font a;
		if (r.flip()) { a.glyphs.resize(r.below(20)); a.name = "old"; a.height = 7; } // a used object
		a.load(mem(ref).get());
		differ("font-load", want, dump_font(a));
		label("font save");
		Bytes out;
		{ auto o = Write::to(&out); f.save(o.get()); }
		VP_CHECK(out == ref, "font-encoding", "a saved font of %u glyphs differs from the format (%zu and %zu bytes)", n, out.size(), ref.size());
		Font b;
		b.load(mem(out).get());
		differ("font-reload", want, dump_font(b));
		VP_CHECK(b.glyphs == f.glyphs, "glyph-equality", "equal glyphs compare unequal");
		if (!f.glyphs.empty()) {
			auto g = f.glyphs[r.below(n)], h = g;
			switch (r.below(3)) { case 0: h.width ^= 1; break; case 1: h.uv[0].x = h.uv[0].x == 1 ? 2.f : 1.f; break; default: h.uv[1].y = h.uv[1].y == 1 ? 2.f : 1.f; }
			VP_CHECK(!(g == h), "glyph-equality", "different glyphs compare equal");
		}
		auto bad = ref;
		bad[0] = static_cast<std::byte>('2');
		bool thrown = false;
		try { Font x; x.load(mem(bad).get()); } catch (ParserError const&) { thrown = true; }
		VP_CHECK(thrown, "font-version", "a font of an unknown version is accepted");
		count("fonts");
		state(fnv(want));
	}

	// ---------------------------------------------------------------- materials
	std::string dump_material(Cfg const& c, Material const& m) {
		auto copy = m;
		Vis q(Vis::DUMP, c);
		q.path = "material.";
		q.material(copy);
		return q.out;
	}
	void material(Rng& r) {
		Cfg c;
		c.v = r.flip() ? GameVersion::GOTHIC_1 : GameVersion::GOTHIC_2;
		c.fmt = r.pick<ArchiveFormat>({ArchiveFormat::ASCII, ArchiveFormat::BINARY, ArchiveFormat::BINSAFE});
		u32 n = 1 + r.below(4);
		std::vector<Material> ms(n);
		RefArchive ar(c.fmt, false);
		std::string want;
		for (auto& m : ms) {
			Vis q(Vis::FILL, c, &r);
			q.material(m);
			Val v; v.kind = Val::STRING; v.name = ""; v.s = r.flip() ? m.name : r.name();
			ar.value(v);
			ar.begin("%", "zCMaterial", c.v == GameVersion::GOTHIC_1 ? 17408 : 39939);
			Vis e(Vis::ENC, c);
			e.ar = &ar;
			e.material(m);
			if (r.chance(20)) { Val x; x.kind = Val::INT; x.name = "surplus"; x.i = 5; ar.value(x); count("materials with surplus"); } // newer versions may hold more
			ar.end();
			want += dump_material(c, m);
		}
		auto ref = ar.finish();
		label("material load " + c.str());
		{
			auto in = mem(ref);
			auto a = ReadArchive::from(in.get());
			std::string got;
			for (u32 k = 0; k < n; ++k) {
				if (r.flip()) { Material m; m.load(*a); got += dump_material(c, m); } else got += dump_material(c, Material::parse(*a));
			}
			differ("material-load", want, got);
		}
		label("material save " + c.str());
		Bytes out;
		{
			auto o = Write::to(&out);
			auto w = WriteArchive::to(o.get(), c.fmt);
			for (auto& m : ms) { w->write_string("", m.name); w->write_object("%", &m, c.v); }
			w->write_header();
		}
		auto in = mem(out);
		auto a = ReadArchive::from(in.get());
		std::string got;
		for (u32 k = 0; k < n; ++k) { Material m; m.load(*a); got += dump_material(c, m); }
		differ("material-reload", want, got);
		count("materials", n);
		count(c.fmt == ArchiveFormat::ASCII ? "materials ascii" : c.fmt == ArchiveFormat::BINARY ? "materials binary" : "materials binsafe");
		state(fnv(want));
	}

	// ---------------------------------------------------------------- cutscene libraries
	std::string variant(Rng& r, std::string s) {
		switch (r.below(8)) {
		case 0: return s + r.pick<char const*>({"A", "_", " ", "0", "\x7f"});
		case 1: return s.substr(0, s.size() - !s.empty());
		case 2: for (auto& ch : s) ch = static_cast<char>(std::tolower(ch)); return s;
		case 3: for (auto& ch : s) ch = static_cast<char>(std::toupper(ch)); return s;
		case 4: if (!s.empty()) s[r.below(static_cast<u32>(s.size()))] ^= 1; return s;
		case 5: return s.empty() ? s : s.substr(1);
		case 6: return "";
		default: return r.name(10);
		}
	}
	std::string msg(std::shared_ptr<ConversationMessageEvent> const& m) { return m ? fmt("%u|", m->type) + m->text + "|" + m->name : "none"; }
	void library(Rng& r) {
		Cfg c;
		c.v = r.flip() ? GameVersion::GOTHIC_1 : GameVersion::GOTHIC_2;
		c.fmt = r.pick<ArchiveFormat>({ArchiveFormat::ASCII, ArchiveFormat::BINARY, ArchiveFormat::BINSAFE});
		auto lib = std::make_shared<CutsceneLibrary>();
		std::map<std::string, std::string> table;
		u32 n = rn(r, 12);
		std::string stem = r.name(6);
		for (u32 k = 0; k < n; ++k) {
			std::string name;
			do switch (r.below(4)) {
				case 0: name = stem + std::to_string(r.below(100)); break;
				case 1: name = r.chance(4) ? std::string(200, 'L') + r.name(400) : r.name(20); break;
				case 2: name = table.empty() ? stem : variant(r, std::next(table.begin(), r.below(static_cast<u32>(table.size())))->first); break;
				default: name = stem + r.name(4);
			} while ((table.count(name) || (c.fmt == ArchiveFormat::ASCII && name.find_first_of(" \t") != std::string::npos)) && (stem += "x", true));
			auto b = std::make_shared<CutsceneBlock>();
			b->name = name;
			auto m = std::make_shared<ConversationMessageEvent>();
			m->type = r.below(200);
			m->name = r.name(); m->text = r.name(40);
			// sometimes nested
			CutsceneBlock* in = b.get();
			for (u32 d = r.chance(20) ? 1 + r.below(3) : 0; d; --d) { auto q = std::make_shared<CutsceneBlock>(); q->name = r.name(); in->block = q; in = q.get(); }
			auto at = std::make_shared<CutsceneAtomicBlock>();
			in->block = at;
			if (r.chance(90)) b->set_message(m); else { at->message = nullptr; m = nullptr; count("blocks without message"); }
			table[name] = msg(m);
			lib->blocks.push_back(b);
		}
		for (size_t k = lib->blocks.size(); k > 1; --k) std::swap(lib->blocks[k - 1], lib->blocks[r.below(static_cast<u32>(k))]);

		auto check = [&](CutsceneLibrary const& l, char const* what) {
			VP_CHECK(l.blocks.size() == table.size(), std::string("library-size:") + what, "%zu blocks instead of %zu", l.blocks.size(), table.size());
			for (auto& [name, m] : table) {
				auto b = l.block_by_name(name);
				VP_CHECK(b, std::string("not-found:") + what, "block '%s' is not found", esc(name).c_str());
				VP_CHECK(b->name == name, std::string("wrong-block:") + what, "'%s' is found for '%s'", esc(b->name).c_str(), esc(name).c_str());
				VP_CHECK(msg(b->get_message()) == m, std::string("wrong-message:") + what, "'%s': expected '%s' got '%s'", esc(name).c_str(), esc(m).c_str(), esc(msg(b->get_message())).c_str());
				count("blocks found");
			}
			for (u32 k = 0; k < 20; ++k) {
				auto q = table.empty() ? r.name() : variant(r, std::next(table.begin(), r.below(static_cast<u32>(table.size())))->first);
				auto b = l.block_by_name(q);
				bool exists = table.count(q);
				VP_CHECK(exists == !!b, std::string("lookup:") + what, "'%s': expected %s", esc(q).c_str(), exists ? "a block" : "nothing");
				if (!exists) count("unknown names");
			}
		};
		RefArchive ar(c.fmt, false);
		{ Vis e(Vis::ENC, c); e.ar = &ar; e.object("%", lib.get()); }
		auto ref = ar.finish();
		label("library load " + c.str());
		auto in = mem(ref);
		auto a = ReadArchive::from(in.get());
		auto l = a->read_object<CutsceneLibrary>(c.v);
		VP_CHECK(l, "library-null", "nothing was loaded");
		check(*l, "load");
		label("library save " + c.str());
		Bytes out;
		{
			auto o = Write::to(&out);
			auto w = WriteArchive::to(o.get(), c.fmt);
			w->write_object("%", r.flip() ? lib : l, c.v);
			w->write_header();
		}
		auto in2 = mem(out);
		auto a2 = ReadArchive::from(in2.get());
		CutsceneLibrary direct;
		if (r.flip()) {
			auto l2 = a2->read_object<CutsceneLibrary>(c.v);
			VP_CHECK(l2, "library-null", "nothing was loaded");
			check(*l2, "reload");
		} else {
			ArchiveObject h;
			VP_CHECK(a2->read_object_begin(h) && h.class_name == "zCCSLib", "library-header", "class '%s'", h.class_name.c_str());
			if (r.flip()) direct.blocks = lib->blocks; // a used object
			direct.load(*a2, c.v);
			VP_CHECK(a2->read_object_end(), "library-end", "the library does not end where its content does");
			check(direct, "reload");
		}
		count("libraries");
		std::string key;
		for (auto& [k, v] : table) key += k + "=" + v + ";";
		state(fnv(key));
	}
} // namespace

void vp_case(Rng& r, u64 n) {
	switch (n % 3) {
	case 0: font(r); break;
	case 1: material(r); break;
	default: library(r);
	}
	if (n == 0) for (char const* f : {"/G1/FONT_OLD_10_WHITE_HI.FNT", "/G2/FONT_OLD_10_WHITE_HI.FNT"}) {
		if (FILE* q = std::fopen((std::string(VP_SAMPLES) + f).c_str(), "rb")) {
			std::fclose(q);
			auto b = read_file(std::string(VP_SAMPLES) + f);
			Font x;
			x.load(mem(b).get());
			Bytes out;
			{ auto o = Write::to(&out); x.save(o.get()); }
			VP_CHECK(out == b, "sample", "saving %s does not reproduce it", f);
			count("samples compared");
		}
	}
}
