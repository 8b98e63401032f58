// Monitor of C09: every archivable class keeps what is stored in it.
#include "fields.hh"
#include <ctime>
#include <zenkit/Error.hh>
#include <zenkit/Logger.hh>

using namespace vp;
using namespace zenkit;

extern "C" time_t time(time_t* t) noexcept {
	if (t) *t = 1000000000;
	return 1000000000;
}

void vp_init() { Logger::set(LogLevel::ERROR, [](LogLevel, char const*, char const*) {}); }

static std::string dump(Cfg c, Object* o) {
	Vis v(Vis::DUMP, c);
	v.object("root", o);
	return v.out;
}

// everything between the archive header and the name table
static std::string body(Bytes const& b, ArchiveFormat f) {
	auto s = to_str(b);
	auto p = s.find("\nEND\n");
	if (p == std::string::npos) return s;
	s = s.substr(p + 5);
	if (f == ArchiveFormat::BINSAFE) {
		if (s.size() < 12) return s;
		u32 at;
		std::memcpy(&at, s.data() + 8, 4);
		at -= static_cast<u32>(p + 5);
		return at <= s.size() && at >= 12 ? s.substr(12, at - 12) : s;
	}
	p = s.find("END\n\n");
	if (p != std::string::npos) s = s.substr(p + 5);
	if (f == ArchiveFormat::ASCII) { // blanks at the end of a line carry nothing
		std::string r;
		for (char ch : s) {
			if (ch == '\n') while (!r.empty() && r.back() == ' ') r.pop_back();
			r.push_back(ch);
		}
		return r;
	}
	return s;
}

static Bytes lib_save(Cfg c, std::shared_ptr<Object> const& o) {
	Bytes b;
	auto w = Write::to(&b);
	auto a = c.save ? WriteArchive::to_save(w.get(), c.fmt) : WriteArchive::to(w.get(), c.fmt);
	VirtualObject::enable_packed_save(c.packed);
	a->write_object("obj", o, c.v);
	a->write_header();
	return b;
}

struct Loaded { std::unique_ptr<Read> r; std::unique_ptr<ReadArchive> a; std::shared_ptr<Object> o; };
static Loaded lib_load(Cfg c, Bytes const& b) {
	Loaded l;
	l.r = Read::from(&b);
	l.a = ReadArchive::from(l.r.get());
	l.o = l.a->read_object(c.v);
	return l;
}

void vp_case(Rng& r, u64 n) {
	auto& all = classes();
	auto& ci = all[n % all.size()];
	Cfg c;
	u64 m = n / all.size();
	c.v = m & 1 ? GameVersion::GOTHIC_2 : GameVersion::GOTHIC_1;
	c.save = m & 2;
	c.packed = !(m & 4) || !ci.vob;
	c.fmt = std::array {ArchiveFormat::BINARY, ArchiveFormat::BINSAFE, ArchiveFormat::ASCII}[(m >> 3) % 3];
	std::string lab = std::string(ci.name);
	label(lab + " " + c.str());

	Vis f(Vis::FILL, c, &r);
	f.maxdepth = static_cast<int>(r.below(4));
	f.width = r.chance(10) ? 8 : 3;
	auto o = ci.make();
	f.pool.push_back(o);
	bool own = f.acyclic = r.chance(25);
	f.fields(*o);

	auto want = dump(c, o.get());
	RefArchive ra(c.fmt, c.save);
	{ Vis e(Vis::ENC, c); e.ar = &ra; e.object("obj", o.get()); }
	auto ref = ra.finish();
	if (!run.dump.empty()) write_file(run.dump, ref.data(), ref.size());
	std::string field;

	// reading what the format says
	label(lab + " " + c.str() + " load reference");
	auto l = lib_load(c, ref);
	VP_CHECK(l.o, "load-null:" + lab, "%s: nothing was loaded", c.str().c_str());
	auto got = dump(c, l.o.get());
	if (got != want) { auto d = first_diff(want, got, &field); fail("load:" + lab + ":" + field, c.str() + ": " + d); }
	count("values compared", static_cast<u64>(std::count(want.begin(), want.end(), '\n')));
	if (auto* vob = dynamic_cast<VirtualObject*>(l.o.get()); vob && vob->visual && vob->visual->get_object_type() != ObjectType::unknown) { // the older spelling of the same
		VP_CHECK(vob->associated_visual_type == vob->visual->type, "visual-alias:type", "%s %s: associated_visual_type is %u, visual->type %u", lab.c_str(), c.str().c_str(), static_cast<u32>(vob->associated_visual_type), static_cast<u32>(vob->visual->type));
		if (vob->visual->type == VisualType::DECAL) {
			VP_CHECK(vob->visual_decal, "visual-alias:none", "%s %s: there is no visual_decal", lab.c_str(), c.str().c_str());
			auto a = dump(c, vob->visual.get()), b = dump(c, &*vob->visual_decal);
			if (a != b) fail("visual-alias:decal", c.str() + ": " + first_diff(a, b, &field));
			count("decals compared");
		}
	}

	if (own) { // through the class' own function: nothing refers to the object itself
		label(lab + " " + c.str() + " load by class");
		Loaded d;
		d.r = Read::from(&ref);
		d.a = ReadArchive::from(d.r.get());
		ArchiveObject h;
		VP_CHECK(d.a->read_object_begin(h), "parse:" + lab, "%s: no object begins", c.str().c_str());
		d.o = ci.make();
		if (ci.parse(*d.o, *d.a, c.v)) {
			VP_CHECK(d.a->read_object_end(), "parse:" + lab + ":end", "%s: the object does not end where its class stops reading", c.str().c_str());
			auto gq = dump(c, d.o.get());
			if (gq != want) { auto e = first_diff(want, gq, &field); fail("parse:" + lab + ":" + field, c.str() + ": " + e); }
			count("loaded by class");
		}
	}

	if (!c.save) {
		label(lab + " " + c.str() + " load reference with event manager bit");
		RefArchive rq(c.fmt, c.save);
		{ Vis e(Vis::ENC, c); e.quirk = true; e.ar = &rq; e.object("obj", o.get()); }
		auto q = rq.finish();
		auto lq = lib_load(c, q);
		auto gq = dump(c, lq.o.get());
		if (gq != want) { auto d = first_diff(want, gq, &field); fail("load-quirk:" + lab + ":" + field, c.str() + ": " + d); }
	}

	// what is written
	label(lab + " " + c.str() + " save");
	auto saved = lib_save(c, o);
	auto mine = body(saved, c.fmt), theirs = body(ref, c.fmt);
	if (mine != theirs) {
		// does it at least read back?
		auto l2 = lib_load(c, saved);
		auto again = dump(c, l2.o.get());
		if (again != want) { auto d = first_diff(want, again, &field); fail("save:" + lab + ":" + field, c.str() + ": " + d); }
		size_t i = 0;
		while (i < mine.size() && i < theirs.size() && mine[i] == theirs[i]) ++i;
		size_t from = i > 60 ? i - 60 : 0;
		fail("encoding:" + lab, c.str() + fmt(": differs from the format at byte %zu: expected '%s' got '%s'", i, esc(theirs.substr(from, 120), 300).c_str(), esc(mine.substr(from, 120), 300).c_str()));
	}
	count("encodings compared");

	label(lab + " " + c.str() + " load saved");
	auto l2 = lib_load(c, saved);
	auto again = dump(c, l2.o.get());
	if (again != want) { auto d = first_diff(want, again, &field); fail("reload:" + lab + ":" + field, c.str() + ": " + d); }

	label(lab + " " + c.str() + " save again");
	auto saved2 = lib_save(c, l.o);
	if (auto* lib = dynamic_cast<CutsceneLibrary*>(o.get())) { // sorted by name when loaded, equal names in any order
		for (size_t k = 1; k < lib->blocks.size(); ++k) if (!(lib->blocks[k - 1]->name < lib->blocks[k]->name)) saved2 = saved;
		for (auto& b : lib->blocks) {
			auto f1 = dynamic_cast<CutsceneLibrary&>(*l.o).block_by_name(b->name);
			VP_CHECK(f1 && f1->name == b->name, "block-by-name", "block '%s' is not found", esc(b->name).c_str());
			count("blocks looked up");
			auto other = b->name + "x";
			bool exists = std::any_of(lib->blocks.begin(), lib->blocks.end(), [&](auto& q) { return q->name == other; });
			VP_CHECK(exists == !!dynamic_cast<CutsceneLibrary&>(*l.o).block_by_name(other), "block-by-name-unknown", "a block is found for unknown name '%s'", esc(other).c_str());
		}
	}
	if (saved2 != saved) {
		auto a = to_str(saved), b = to_str(saved2);
		size_t i = 0;
		while (i < a.size() && i < b.size() && a[i] == b[i]) ++i;
		size_t from = i > 60 ? i - 60 : 0;
		fail("resave:" + lab, c.str() + fmt(": saving what was loaded differs at byte %zu: first '%s' then '%s'", i, esc(a.substr(from, 120), 300).c_str(), esc(b.substr(from, 120), 300).c_str()));
	}
	count("objects round-tripped");
	count("class " + lab);
	count(std::string("encoding ") + (c.fmt == ArchiveFormat::ASCII ? "ascii" : c.fmt == ArchiveFormat::BINARY ? "binary" : "binsafe"));
	if (c.save) count("save-games");
	if (!c.packed) count("unpacked");
	state(fnv(want));
	if (n < 3) sample(lab + " " + c.str() + ": " + esc(want, 300));
}
