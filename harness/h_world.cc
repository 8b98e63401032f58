// Monitors of C10 (worlds) and C12 (save-games).
#include "georef.hh"
#include <ctime>
#include <filesystem>
#include <optional>
#include <utility>
#include <zenkit/Error.hh>
#include <zenkit/Logger.hh>

using namespace vp;
using namespace zenkit;
namespace fs = std::filesystem;

extern "C" time_t time(time_t* t) noexcept { if (t) *t = 1000000000; return 1000000000; }
void vp_init() { Logger::set(LogLevel::ERROR, [](LogLevel, char const*, char const*) {}); }

using VobP = std::shared_ptr<VirtualObject>;

// ------------------------------------------------------------------ the model: a world object, and how it is described
static void dump_tree(Vis& v, std::string const& n, VirtualObject* o) {
	v.object(n, o);
	if (!o) return;
	v.line(n + ".children", std::to_string(o->children.size()));
	auto keep = v.path;
	v.path += n + ".";
	for (size_t k = 0; k < o->children.size(); ++k) dump_tree(v, "child" + std::to_string(k), o->children[k].get());
	v.path = keep;
}
static void world_fields(Vis& v, World const& w, bool save) {
	for (size_t k = 0; k < w.world_vobs.size(); ++k) dump_tree(v, "vob" + std::to_string(k), w.world_vobs[k].get());
	v.line("roots", std::to_string(w.world_vobs.size()));
	v.object("waynet", w.way_net.get());
	if (!save) return;
	v.object("player", w.player.get());
	v.object("sky", w.sky_controller.get());
	v.line("npcs", std::to_string(w.npcs.size()));
	for (size_t k = 0; k < w.npcs.size(); ++k) v.object("npc" + std::to_string(k), w.npcs[k].get());
	v.line("spawns", std::to_string(w.npc_spawns.size()));
	for (auto& s : w.npc_spawns) { v.object("spawn", s.npc.get()); v.line("spawnPos", Dump::v(s.position)); v.line("timer", Dump::f(s.timer)); }
	v.line("enabled", w.npc_spawn_enabled ? "1" : "0");
	if (v.c.g2()) v.line("flags", std::to_string(w.npc_spawn_flags));
}
// Objects that only weak references name live as long as the archive they came from: they are left out.
static std::string dump_world(Cfg c, World const& w, bool shared) {
	Vis s(Vis::DUMP, c);
	s.strong_only = true;
	world_fields(s, w, c.save);
	std::set<void const*> alive;
	for (auto& x : s.seen) alive.insert(x.first);
	Vis v(Vis::DUMP, c);
	v.alive = &alive;
	world_fields(v, w, c.save);
	if (c.save) return v.out;
	Dump d;
	dump_mesh(d, w.world_mesh, c.v, shared);
	dump_bsp(d, w.world_bsp_tree);
	dump_triangles(d, w.world_mesh.polygons);
	return v.out + d.o;
}

struct Spec {
	World w;
	Cfg c;
	bool wide = false, shared = true;
	std::vector<std::shared_ptr<Object>> keep;
	// what is put into the file besides the world: unknown objects in the tree, before child k of a node (nullptr: the roots)
	std::map<std::pair<VirtualObject const*, size_t>, u64> strangers;
	u64 noise = 0; // seed; 0: none
};
static ObjectType rvob(Rng& r) {
	static auto const T = vob_types();
	ObjectType t = r.pick(T);
	while (t == ObjectType::oCNpc && r.chance(80)) t = r.pick(T);
	return t;
}
static void fill_tree(Rng& r, Vis& f, std::vector<VobP>& to, u32 depth, u32& budget) {
	u32 n = depth == 0 ? 0 : r.below(4);
	for (u32 k = 0; k < n && budget; ++k) {
		--budget;
		VobP o;
		// an object that others refer to may itself stand in the tree
		if (r.chance(15)) for (auto& p : f.pool) {
			auto q = std::dynamic_pointer_cast<VirtualObject>(p);
			if (q && q->id == 0 && r.chance(20)) { o = q; break; }
		}
		if (!o) o = std::dynamic_pointer_cast<VirtualObject>(f.make({rvob(r)}));
		o->id = 1; // marks objects that stand in the tree
		to.push_back(o);
		fill_tree(r, f, o->children, depth - 1, budget);
	}
}
static void fill_world(Rng& r, Spec& s, bool noisy) {
	Vis f(Vis::FILL, s.c, &r);
	f.share = !f.acyclic; // the tree is put together afterwards
	f.maxdepth = static_cast<int>(r.below(3));
	f.width = r.chance(5) ? 6 : 2;
	auto& w = s.w;
	if (!s.c.save) {
		s.wide = s.c.v == GameVersion::GOTHIC_1 && r.chance(20);
		s.shared = r.chance(80);
		fill_mesh(r, w.world_mesh, s.c.v, s.wide);
		fill_bsp(r, w.world_bsp_tree, s.c.v, static_cast<u32>(w.world_mesh.geometry.size()));
		auto& lp = w.world_bsp_tree.leaf_polygons;
		w.world_mesh.polygons = triangles(w.world_mesh, std::set<u32>(lp.begin(), lp.end()));
	}
	u32 budget = r.chance(10) ? 40 : 10;
	if (r.chance(3)) { // a long thin branch
		VobP at;
		for (u32 k = 0; k < 60; ++k) {
			auto o = std::dynamic_pointer_cast<VirtualObject>(f.make({ObjectType::zCVobSpot}));
			o->id = 1;
			(at ? at->children : w.world_vobs).push_back(o);
			at = o;
		}
	}
	fill_tree(r, f, w.world_vobs, 1 + r.below(6), budget);
	if (!r.chance(8)) w.way_net = std::dynamic_pointer_cast<WayNet>(f.make({ObjectType::zCWayNet}));
	if (s.c.save) {
		if (r.chance(70)) w.player = std::dynamic_pointer_cast<CutscenePlayer>(f.make({ObjectType::oCCSPlayer}));
		if (r.chance(70)) w.sky_controller = std::dynamic_pointer_cast<SkyController>(f.make({ObjectType::zCSkyControler_Outdoor}));
		auto npc = [&] { std::shared_ptr<VNpc> n; f.O("npc", n, {ObjectType::oCNpc}, 10); return n; };
		for (u32 k = r.below(3); k > 0; --k) w.npcs.push_back(npc());
		for (u32 k = r.below(3); k > 0; --k) { SpawnLocation l; l.npc = npc(); l.position = {f.rf(), f.rf(), f.rf()}; l.timer = f.rf(); w.npc_spawns.push_back(l); }
		w.npc_spawn_enabled = r.flip();
		w.npc_spawn_flags = s.c.g2() ? r.i() : 0;
	}
	s.keep = std::move(f.pool);
	if (noisy) {
		s.noise = r.next() | 1;
		std::function<void(VirtualObject const*, std::vector<VobP> const&)> put = [&](VirtualObject const* p, std::vector<VobP> const& c) {
			for (size_t k = 0; k <= c.size(); ++k) { if (r.chance(20)) s.strangers[{p, k}] = r.next(); if (k < c.size()) put(c[k].get(), c[k]->children); }
		};
		put(nullptr, w.world_vobs);
	}
}
// a few values of any kind and nested objects
static void noise_values(Rng& r, RefArchive& a, u32 depth) {
	for (u32 k = r.below(5); k > 0; --k) {
		if (depth && r.chance(25)) { a.begin(r.name(8, true), r.pick<char const*>({"%", "zCUnknown", "oCFuture:zCThing", "zCVob"}), r.below(65536)); noise_values(r, a, depth - 1); a.end(); continue; }
		Val v;
		v.kind = static_cast<Val::Kind>(r.below(Val::KINDS));
		v.name = r.name(8, true);
		v.s = r.pick<std::string>({"", "x", "[]", "[% % 0 0]", "name=int:3", "\xA7"});
		v.i = r.below(256);
		v.raw = r.bytes(r.below(40));
		for (auto& x : v.f) x = r.ftext();
		for (u32 q = r.below(5); q > 0; --q) v.fs.push_back(r.ftext());
		a.value(v);
	}
}
struct Enc {
	Spec& s;
	RefArchive& a;
	Vis e;
	Rng nr;
	u32 n = 0;
	Enc(Spec& s, RefArchive& a) : s(s), a(a), e(Vis::ENC, s.c), nr(s.noise) { e.ar = &a; }
	// a section has no class, which the text encodings write as '%'
	void section(char const* n) { a.begin_at(n, a.fmt == ArchiveFormat::BINARY ? "" : "%", 0, 0); }
	void num(std::string const& n, i32 v) { Val x; x.kind = Val::INT; x.name = n; x.i = v; a.value(x); }
	// something that is not an object of the world, with what hangs below it
	void stranger(Rng& r, u32 depth) {
		if (r.flip()) { // a known class that cannot stand in the tree
			Cfg c = s.c;
			Vis f(Vis::FILL, c, &r);
			f.maxdepth = 0; f.width = 1;
			auto o = f.make({r.pick<ObjectType>({ObjectType::zCMaterial, ObjectType::zCWaypoint, ObjectType::zCDecal, ObjectType::oCNpcTalent})});
			Vis q(Vis::ENC, c);
			q.ar = &a;
			q.object("%", o.get());
		} else {
			a.begin("%", r.pick<char const*>({"zCFutureVob:zCVob", "oCMobUnknown:oCMOB:zCVob", "x"}), r.below(65536));
			noise_values(r, a, 2);
			a.end();
		}
		count("foreign objects in the tree");
		u32 c = depth ? r.below(3) : 0;
		num("childs" + std::to_string(n++), static_cast<i32>(c));
		for (u32 k = 0; k < c; ++k) stranger(r, depth - 1);
	}
	void tree(VirtualObject const* p, std::vector<VobP> const& c) {
		size_t extra = 0;
		for (size_t k = 0; k <= c.size(); ++k) extra += s.strangers.count({p, k});
		num("childs" + std::to_string(n++), static_cast<i32>(c.size() + extra));
		for (size_t k = 0; k <= c.size(); ++k) {
			if (auto it = s.strangers.find({p, k}); it != s.strangers.end()) { Rng q(it->second); stranger(q, 2); }
			if (k == c.size()) break;
			e.object("%", c[k].get());
			tree(c[k].get(), c[k]->children);
		}
	}
	void noise() {
		if (!s.noise) return;
		for (u32 k = nr.below(3); k > 0; --k) { a.begin(nr.pick<char const*>({"Unknown", "Sector", "%", "Mesh", "vobtree"}), nr.pick<char const*>({"%", "zCThing"}), nr.below(65536)); noise_values(nr, a, 3); a.end(); count("unknown sections"); }
	}
	void tail() { if (s.noise && nr.chance(40)) { noise_values(nr, a, 2); count("sections with surplus content"); } }
	// `mesh`: what the mesh section holds
	void world(Bytes const* mesh, std::vector<int> const& order) {
		auto& w = s.w;
		for (int k : order) {
			noise();
			switch (k) {
			case 0:
				if (s.c.save) break;
				section("MeshAndBsp");
				a.w.u32_(s.c.g2() ? 0x4090000 : 0x2090000);
				a.w.u32_(static_cast<u32>(mesh->size()));
				a.w.raw(*mesh);
				a.end();
				break;
			case 1:
				section("VobTree");
				n = 0;
				tree(nullptr, w.world_vobs);
				tail();
				a.end();
				break;
			case 2: if (w.player && s.c.save) { section("CutscenePlayer"); e.object("%", w.player.get()); tail(); a.end(); } break;
			case 3: if (w.sky_controller && s.c.save) { section("SkyCtrl"); e.object("%", w.sky_controller.get()); tail(); a.end(); } break;
			case 4: section("WayNet"); e.object("%", w.way_net.get()); tail(); a.end(); break;
			}
		}
		noise();
		section("EndMarker"); a.end();
		if (!s.c.save) return;
		num("npcCount", static_cast<i32>(w.npcs.size()));
		for (size_t k = 0; k < w.npcs.size(); ++k) e.object("npc" + std::to_string(k), w.npcs[k].get());
		num("NoOfEntries", static_cast<i32>(w.npc_spawns.size()));
		for (auto& l : w.npc_spawns) {
			e.object("npc", l.npc.get());
			Val v; v.kind = Val::VEC3; v.name = "spawnPos"; v.f[0] = l.position.x; v.f[1] = l.position.y; v.f[2] = l.position.z; a.value(v);
			Val t; t.kind = Val::FLOAT; t.name = "timer"; t.f[0] = l.timer; a.value(t);
		}
		Val b; b.kind = Val::BOOL; b.name = "spawningEnabled"; b.i = w.npc_spawn_enabled; a.value(b);
		if (s.c.g2()) num("spawnFlags", w.npc_spawn_flags);
	}
};
static Bytes encode_world(Spec& s, Bytes const* mesh, std::vector<int> order, char const* name) {
	RefArchive a(s.c.fmt, s.c.save);
	if (s.wide) { // such files are recognised by their author
		auto p = a.w.b.find("user roman");
		a.w.b.replace(p, 10, "user XZEN");
		a.obj_at -= 1;
		if (a.hash_at) a.hash_at -= 1;
	}
	a.begin(name, "oCWorld:zCWorld", 64513);
	Enc e(s, a);
	e.world(mesh, order);
	a.end();
	return a.finish();
}
static std::string body(Bytes const& b, ArchiveFormat f) {
	auto s = to_str(b);
	auto p = s.find("\nEND\n");
	if (p == std::string::npos) return s;
	s = s.substr(p + 5);
	if (f == ArchiveFormat::BINSAFE) return s;
	p = s.find("END\n\n");
	return p == std::string::npos ? s : s.substr(p + 5);
}
static void same(std::string const& want, std::string const& got, std::string const& key, std::string const& ctx) {
	count("values compared", static_cast<u64>(std::count(want.begin(), want.end(), '\n')));
	if (want == got) return;
	std::string field;
	auto d = first_diff(want, got, &field);
	fail(key + ":" + field, ctx + ": " + d);
}
static void same_bytes(std::string const& want, std::string const& got, std::string const& key, std::string const& ctx) {
	if (want == got) return;
	size_t i = 0;
	while (i < want.size() && i < got.size() && want[i] == got[i]) ++i;
	size_t from = i > 60 ? i - 60 : 0;
	fail(key, ctx + fmt(": differs from the format at byte %zu: expected '%s' got '%s'", i, esc(want.substr(from, 120), 300).c_str(), esc(got.substr(from, 120), 300).c_str()));
}
static std::vector<int> shuffled(Rng& r, bool save) {
	std::vector<int> o = save ? std::vector<int> {1, 2, 3, 4} : std::vector<int> {0, 1, 4};
	if (!save && r.chance(40)) for (size_t k = o.size(); k > 1; --k) std::swap(o[k - 1], o[r.below(static_cast<u32>(k))]);
	return o;
}

static void do_world(Rng& r, u64 n) {
	Spec s;
	Cfg& c = s.c;
	c.v = n & 1 ? GameVersion::GOTHIC_2 : GameVersion::GOTHIC_1;
	c.save = n & 2;
	c.fmt = std::array {ArchiveFormat::BINARY, ArchiveFormat::BINSAFE, ArchiveFormat::ASCII}[(n >> 2) % 3];
	label("world " + c.str());
	fill_world(r, s, r.chance(40));
	auto want = dump_world(c, s.w, s.shared);
	Bytes mesh;
	if (!c.save) {
		Chunks k;
		Rng noise(r.next());
		if (s.noise && r.flip()) k.noise = &noise;
		enc_mesh(k, s.w.world_mesh, c.v, s.wide, s.shared);
		enc_bsp(k, s.w.world_bsp_tree, c.v);
		mesh = k.w.bytes();
	}
	auto order = shuffled(r, c.save);
	auto ref = encode_world(s, &mesh, order, "%");
	if (!run.dump.empty()) write_file(run.dump, ref.data(), ref.size());

	// three ways of loading
	for (int way = 0; way < 3; ++way) {
		if (way == 0 && c.save) continue;
		static char const* W[] = {"detecting the version", "from a stream", "from an archive"};
		label("world " + c.str() + " load " + W[way]);
		auto in = mem(ref);
		auto w = std::make_shared<World>();
		if (way == 0) { auto v = w->load(in.get()); VP_CHECK(v == c.v, "detected-version", "%s: detected the other game", c.str().c_str()); count("versions detected"); }
		else if (way == 1) w->load(in.get(), c.v);
		else {
			auto a = ReadArchive::from(in.get());
			w = a->read_object<World>(c.v);
			VP_CHECK(w, "load:null", "%s: no world was loaded", c.str().c_str());
		}
		same(want, dump_world(c, *w, s.shared), "load", c.str() + " " + W[way] + (s.noise ? " with foreign content" : ""));
		count("worlds loaded");
	}

	// saving: what the format says, then back
	label("world " + c.str() + " save");
	auto save = [&](World& w) {
		Bytes b;
		auto o = Write::to(&b);
		auto a = c.save ? WriteArchive::to_save(o.get(), c.fmt) : WriteArchive::to(o.get(), c.fmt);
		VirtualObject::enable_packed_save(true);
		a->write_object("%", &w, c.v);
		a->write_header();
		return b;
	};
	auto b1 = save(s.w);
	if (!c.save && s.wide) { count("worlds with wide indices"); return; } // cannot be saved as such
	if (c.fmt == ArchiveFormat::BINARY) {
		// names of values are not part of this encoding; the mesh is decided by C11
		Bytes m;
		if (!c.save) { auto o = Write::to(&m); s.w.world_mesh.save(o.get(), c.v); s.w.world_bsp_tree.save(o.get(), c.v); }
		auto keep = std::move(s.strangers);
		s.strangers.clear();
		auto noise = std::exchange(s.noise, 0);
		auto plain = encode_world(s, &m, c.save ? std::vector<int> {1, 2, 3, 4} : std::vector<int> {0, 1, 4}, "%");
		same_bytes(body(plain, c.fmt), body(b1, c.fmt), "encoding", c.str());
		s.strangers = std::move(keep);
		s.noise = noise;
		count("encodings compared");
	}
	label("world " + c.str() + " load saved");
	auto want2 = dump_world(c, s.w, true);
	auto in = mem(b1);
	auto a = ReadArchive::from(in.get());
	auto w = a->read_object<World>(c.v);
	VP_CHECK(w, "reload:null", "%s: no world was loaded", c.str().c_str());
	same(want2, dump_world(c, *w, true), "reload", c.str());
	auto b2 = save(*w);
	if (!c.save) { // light maps may come back in their own textures only as stored; the rest is identical
		auto in2 = mem(b2);
		auto a2 = ReadArchive::from(in2.get());
		auto w2 = a2->read_object<World>(c.v);
		VP_CHECK(w2, "reload:null", "%s: no world was loaded", c.str().c_str());
		same(want2, dump_world(c, *w2, true), "reload2", c.str());
	}
	VP_CHECK(body(b1, c.fmt) == body(b2, c.fmt), "resave", "%s: saving what was loaded gives other bytes", c.str().c_str());
	count("worlds saved");
	if (s.w.way_net && !s.w.way_net->edges.empty()) count("way networks with edges");
	if (c.save) count("save-game worlds");
	state(fnv(want));
	if (n < 3) sample("world " + c.str() + ": " + esc(want, 200));
}

// ------------------------------------------------------------------ save-games
static void fill_state(Rng& r, SaveState& s, Cfg c, std::vector<std::shared_ptr<Object>>& keep) {
	Vis f(Vis::FILL, c, &r);
	s.day = r.i(); s.hour = r.i(); s.minute = r.i();
	for (u32 k = rn(r, 4); k > 0; --k) { SaveInfoState i; i.name = f.rs(); i.told = r.flip(); s.infos.push_back(i); }
	for (u32 k = rn(r, 3); k > 0; --k) { Mission m; m.name = f.rs(); m.id = r.i(); m.available = r.flip(); m.status_index = r.i(); s.missions.push_back(m); }
	for (u32 k = rn(r, 3); k > 0; --k) {
		SaveLogTopic t; t.description = f.rs(); t.section = static_cast<SaveTopicSection>(r.below(2)); t.status = static_cast<SaveTopicStatus>(r.below(5));
		for (u32 q = r.below(4); q > 0; --q) t.entries.push_back(f.rs());
		s.log.push_back(t);
	}
	for (u32 k = rn(r, 4); k > 0; --k) { SaveSymbolState y; y.name = f.rs(); for (u32 q = c.g2() ? r.below(4) : 1; q > 0; --q) y.values.push_back(r.i()); s.symbols.push_back(y); }
	for (auto& a : s.guild_attitudes) for (auto& b : a) b = static_cast<u8>(r.next());
	f.O("", s.cutscene_manager, {ObjectType::oCCSManager}, 15);
	keep = std::move(f.pool);
}
static std::string dump_state(SaveState const& s, Cfg c) {
	Vis v(Vis::DUMP, c);
	v.line("day", fmt("%d %d %d", s.day, s.hour, s.minute));
	v.line("infos", std::to_string(s.infos.size()));
	for (auto& i : s.infos) v.line("info", esc(i.name, 1000) + fmt(" %d", i.told));
	v.line("missions", std::to_string(s.missions.size()));
	for (auto& m : s.missions) v.line("mission", esc(m.name, 1000) + fmt(" %d %d %d", m.id, m.available, m.status_index));
	v.line("topics", std::to_string(s.log.size()));
	for (auto& t : s.log) { v.line("topic", esc(t.description, 1000) + fmt(" %u %u %zu", static_cast<u32>(t.section), static_cast<u32>(t.status), t.entries.size())); for (auto& e : t.entries) v.line("entry", esc(e, 1000)); }
	v.object("cutscenes", s.cutscene_manager.get());
	v.line("symbols", std::to_string(s.symbols.size()));
	for (auto& y : s.symbols) { std::string t; for (i32 q : y.values) t += fmt(" %d", q); v.line("symbol", esc(y.name, 1000) + ":" + t); }
	std::string g;
	for (auto& a : s.guild_attitudes) for (auto& b : a) g += fmt("%02x", b);
	v.line("guilds", g);
	return v.out;
}
static Bytes encode_state(SaveState& s, Cfg c, Rng* junk) {
	RefArchive a(c.fmt, true);
	Vis e(Vis::ENC, c);
	e.ar = &a;
	e.I("day", s.day); e.I("hour", s.hour); e.I("min", s.minute);
	e.KI("NumOfEntries", static_cast<i32>(s.infos.size()));
	for (auto& i : s.infos) { e.B("Told", i.told); e.S("InstName", i.name); }
	e.KI("NumOfEntries", static_cast<i32>(s.missions.size()));
	for (auto& m : s.missions) {
		e.S("name", m.name); e.I("ID", m.id); e.B("Av", m.available);
		u32 n = junk ? junk->below(3) : 0;
		e.KI("NumInList", static_cast<i32>(n));
		for (u32 k = 0; k < n; ++k) { e.KI("VobIDL", static_cast<i32>(k)); e.KI("StatusL", 7); e.KF("startTimeL", 1.5f); }
		e.I("StatusIndex", m.status_index);
	}
	e.KI("LOGMANAGERTOPICCOUNT", static_cast<i32>(s.log.size()));
	for (auto& t : s.log) {
		e.S("TOPICDESCRIPTION", t.description); e.E("TOPICSECTION", t.section, 2); e.E("TOPICSTATUS", t.status, 5);
		e.KI("LOGTOPICENTRYCOUNT", static_cast<i32>(t.entries.size())); e.KI("LOGMANAGERENTRYCOUNT", static_cast<i32>(t.entries.size()));
		for (auto& x : t.entries) e.S("ENTRYDESCRIPTION", x);
	}
	e.object("%", s.cutscene_manager.get());
	e.KI("numSymbols", static_cast<i32>(s.symbols.size()));
	for (size_t k = 0; k < s.symbols.size(); ++k) {
		auto& y = s.symbols[k];
		auto n = std::to_string(k);
		e.S("symName" + n, y.name);
		if (c.g2()) { e.KI("symName" + n + "cnt", static_cast<i32>(y.values.size())); for (i32 v : y.values) e.KI("symValue" + n + "_0", v); }
		else e.KI("symValue" + n, y.values[0]);
	}
	Bytes g;
	for (auto& x : s.guild_attitudes) for (auto& b : x) g.push_back(static_cast<std::byte>(b));
	e.KRAW("guildTable", g);
	return a.finish();
}
static std::string dump_meta(SaveMetadata& m, Cfg c) { Vis v(Vis::DUMP, c); v.fields(m); return v.out; }
static std::string text_body(Bytes const& b) { // blanks at the end of a line carry nothing
	auto s = body(b, ArchiveFormat::ASCII);
	std::string r;
	for (char ch : s) { if (ch == '\n') while (!r.empty() && r.back() == ' ') r.pop_back(); r.push_back(ch); }
	return r;
}
// every file below `d`, with its content
static std::map<std::string, std::string> snapshot(fs::path const& d) {
	std::map<std::string, std::string> m;
	for (auto& e : fs::recursive_directory_iterator(d)) {
		auto rel = fs::relative(e.path(), d).string();
		if (e.is_directory()) m[rel + "/"] = "";
		else m[rel] = to_str(read_file(e.path().string()));
	}
	return m;
}

static void compare_save(SaveGame const& s, Cfg c, std::string const& meta, std::string const& state, std::string const& thumb, std::string const& ctx) {
	auto m = s.metadata;
	same(meta, dump_meta(m, c), "metadata", ctx);
	same(state, dump_state(s.state, c), "state", ctx);
	auto t = s.thumbnail ? to_str(tex_bytes(*s.thumbnail)) : std::string("none");
	VP_CHECK(t == thumb, "thumbnail", "%s: the thumbnail differs (%zu bytes instead of %zu)", ctx.c_str(), t.size(), thumb.size());
}
static void compare_world(std::shared_ptr<World> const& w, Cfg c, std::string const& want, std::string const& ctx) {
	VP_CHECK(w, "world:missing", "%s: the world is not found", ctx.c_str());
	same(want, dump_world(c, *w, true), "world", ctx);
	count("save-game worlds compared");
}

static void do_save(Rng& r, u64 n) {
	Cfg c;
	c.v = n & 1 ? GameVersion::GOTHIC_2 : GameVersion::GOTHIC_1;
	c.save = true;
	c.fmt = ArchiveFormat::ASCII; // values that survive the text encoding
	auto g = std::string(c.g2() ? "G2" : "G1");
	label(g + " save-game");
	fs::path base = fs::path(run.scratch) / ("s" + std::to_string(n));
	fs::remove_all(base);
	fs::create_directories(base / "outside" / "deep");
	{ std::string x = "keep me"; write_file((base / "outside" / "SAVEINFO.SAV").string(), x.data(), x.size()); write_file((base / "outside" / "deep" / "A.SAV").string(), x.data(), x.size()); write_file((base / "WORLD.SAV").string(), x.data(), x.size()); }
	struct Guard { fs::path p; ~Guard() { std::error_code e; fs::remove_all(p, e); } } guard {base};
	auto outside = snapshot(base);

	std::vector<std::shared_ptr<Object>> keep;
	SaveMetadata meta;
	{ Vis f(Vis::FILL, c, &r); f.fields(meta); meta.world = r.name(8, true); if (r.chance(80)) for (auto& ch : meta.world) ch = static_cast<char>(std::toupper(ch)); std::replace(meta.world.begin(), meta.world.end(), '.', '_'); if (r.chance(10)) meta.world += ".V2"; }
	SaveState st {};
	fill_state(r, st, c, keep);
	std::optional<Texture> thumb;
	if (r.chance(70)) { RefTex t; thumb = *rtexture(r, t); }
	auto mstr = dump_meta(meta, c), sstr = dump_state(st, c), tstr = thumb ? to_str(tex_bytes(*thumb)) : std::string("none");
	Spec wa, wb;
	wa.c = wb.c = c;
	wa.c.fmt = wb.c.fmt = ArchiveFormat::BINARY;
	fill_world(r, wa, false);
	fill_world(r, wb, false);
	auto wcfg = wa.c;
	auto wstr = dump_world(wcfg, wa.w, true), wstr2 = dump_world(wcfg, wb.w, true);
	std::string other = meta.world == "OTHER" ? "OTHER2" : "OTHER";
	auto A = base / "savegame1", B = base / "savegame2";
	auto set = [&](SaveGame& s) { s.metadata = meta; s.state = st; s.thumbnail = thumb; };
	VirtualObject::enable_packed_save(true);

	// written files follow the format
	SaveGame s1(c.v);
	set(s1);
	label(g + " save");
	s1.save(A, wa.w, meta.world);
	{
		RefArchive a(ArchiveFormat::ASCII, false);
		Vis e(Vis::ENC, c);
		e.ar = &a;
		e.object("%", &meta);
		same_bytes(text_body(a.finish()), text_body(read_file((A / "SAVEINFO.SAV").string())), "file:SAVEINFO", g);
		same_bytes(text_body(encode_state(st, c, nullptr)), text_body(read_file((A / "SAVEDAT.SAV").string())), "file:SAVEDAT", g);
		same_bytes(body(encode_world(wa, nullptr, {1, 2, 3, 4}, "%"), ArchiveFormat::BINARY), body(read_file((A / (meta.world + ".SAV")).string()), ArchiveFormat::BINARY), "file:world", g);
		VP_CHECK(to_str(read_file((A / "SAVEHDR.SAV").string())) == meta.world + ".ZEN\n", "file:SAVEHDR", "%s: names another world", g.c_str());
		if (thumb) VP_CHECK(to_str(read_file((A / "THUMB.SAV").string())) == tstr, "file:THUMB", "%s: holds another picture", g.c_str());
		count("files compared with the format", 5);
	}
	auto check_outside = [&](std::string const& what, std::vector<fs::path> const& own) {
		auto now = snapshot(base);
		for (auto& [k, v] : outside) { auto it = now.find(k); VP_CHECK(it != now.end() && it->second == v, "outside:" + what, "%s changed or is gone after %s", k.c_str(), what.c_str()); }
		for (auto& [k, v] : now) {
			bool mine = outside.count(k);
			for (auto& o : own) { auto p = o.filename().string() + "/"; mine = mine || k.compare(0, p.size(), p) == 0; }
			VP_CHECK(mine, "outside:" + what, "%s appeared after %s", k.c_str(), what.c_str());
		}
		count("directories audited");
	};
	check_outside("save", {A});

	// what was written reads back
	label(g + " load");
	auto snapA = snapshot(A);
	SaveGame s2(c.v);
	s2.load(A);
	compare_save(s2, c, mstr, sstr, tstr, g + " load");
	compare_world(s2.load_world(), wcfg, wstr, g + " load_world()");
	compare_world(s2.load_world(meta.world + ".ZEN"), wcfg, wstr, g + " load_world(name)");
	VP_CHECK(!s2.load_world("NOSUCHWORLD.ZEN"), "world:unknown", "%s: an unknown world is found", g.c_str());
	VP_CHECK(snapshot(A) == snapA, "load-changes-files", "%s: loading changed the files", g.c_str());
	check_outside("load", {A});
	// loading again replaces everything
	if (r.chance(30)) { label(g + " load again"); s2.load(A); compare_save(s2, c, mstr, sstr, tstr, g + " loaded twice"); count("loaded twice"); }

	// a second world in the same save-game, under another spelling of its path
	label(g + " save second world");
	fs::path A2 = r.flip() ? A : r.flip() ? A / "" : base / "." / "savegame1" / "." ;
	if (r.chance(20)) A2 = base / "outside" / ".." / "savegame1";
	s2.save(A2, wb.w, other);
	SaveGame s3(c.v);
	s3.load(A);
	compare_save(s3, c, mstr, sstr, tstr, g + " after saving a second world");
	compare_world(s3.load_world(), wcfg, wstr, g + " first world after saving a second");
	compare_world(s3.load_world(other + ".ZEN"), wcfg, wstr2, g + " second world");
	check_outside("second save", {A});
	count("second worlds saved");

	// a copy in another directory, which already holds something
	label(g + " save copy");
	if (r.flip()) { fs::create_directories(B / "junk"); std::string x = "old"; write_file((B / "OLD.SAV").string(), x.data(), x.size()); }
	auto before = snapshot(A);
	auto world2 = r.flip() ? meta.world : other; // which world is replaced
	s3.save(B, wb.w, world2);
	VP_CHECK(snapshot(A) == before, "source-changed", "%s: saving a copy changed the save-game it came from", g.c_str());
	SaveGame s4(c.v);
	s4.load(B);
	compare_save(s4, c, mstr, sstr, tstr, g + " copy");
	compare_world(s4.load_world(meta.world + ".ZEN"), wcfg, world2 == meta.world ? wstr2 : wstr, g + " copy, first world");
	compare_world(s4.load_world(other + ".ZEN"), wcfg, wstr2, g + " copy, second world");
	VP_CHECK(!fs::exists(B / "OLD.SAV"), "stale", "%s: the copy still holds a file of what it replaced", g.c_str());
	check_outside("copy", {A, B});
	count("copies saved");

	// files of the reference encoder, with irregular letter case and data the library ignores
	label(g + " load reference");
	auto C = base / "savegame3";
	fs::create_directories(C);
	auto name = [&](std::string s) { if (r.chance(30)) for (auto& ch : s) ch = static_cast<char>(std::tolower(ch)); return (C / s).string(); };
	Rng junk(r.next());
	{
		RefArchive a(r.pick<ArchiveFormat>({ArchiveFormat::ASCII, ArchiveFormat::BINSAFE, ArchiveFormat::BINARY}), false);
		Vis e(Vis::ENC, c);
		e.ar = &a;
		e.object("%", &meta);
		auto f = a.finish();
		write_file(name("SAVEINFO.SAV"), f.data(), f.size());
		Cfg k = c;
		k.fmt = r.pick<ArchiveFormat>({ArchiveFormat::ASCII, ArchiveFormat::BINSAFE, ArchiveFormat::BINARY});
		f = encode_state(st, k, &junk);
		write_file(name("SAVEDAT.SAV"), f.data(), f.size());
		if (thumb) { f = tex_bytes(*thumb); write_file(name("THUMB.SAV"), f.data(), f.size()); }
		wa.c.fmt = k.fmt == ArchiveFormat::ASCII ? wcfg.fmt : k.fmt; // (the text encoding rounds)
		f = encode_world(wa, nullptr, {1, 2, 3, 4}, "%");
		write_file((C / (meta.world + ".SAV")).string(), f.data(), f.size());
	}
	SaveGame s5(c.v);
	s5.load(C);
	compare_save(s5, c, mstr, sstr, tstr, g + " reference");
	compare_world(s5.load_world(), wcfg, wstr, g + " reference world");
	count("reference save-games loaded");

	// incomplete save-games are refused
	label(g + " incomplete");
	auto must_throw = [&](fs::path const& p, char const* what) {
		SaveGame s(c.v);
		bool threw = false;
		try { s.load(p); } catch (zenkit::Error const&) { threw = true; }
		VP_CHECK(threw, std::string("refuse:") + what, "%s: %s is accepted", g.c_str(), what);
		count("incomplete save-games refused");
	};
	if (r.chance(30)) {
		must_throw(base / "nowhere", "missing directory");
		must_throw(base / "WORLD.SAV", "a file");
		auto f = r.flip() ? "SAVEINFO.SAV" : "SAVEDAT.SAV";
		fs::remove(A / f);
		must_throw(A, f);
		// metadata that is something else
		RefArchive a(ArchiveFormat::ASCII, false);
		if (r.flip()) { a.begin("%", "zCUnknown", 0); a.end(); } else { a.begin("%", "%", 0); a.end(); }
		auto x = a.finish();
		write_file((B / "SAVEINFO.SAV").string(), x.data(), x.size());
		must_throw(B, "SAVEINFO.SAV without metadata");
	}
	state(fnv(mstr + sstr + wstr));
	if (thumb) count("thumbnails");
	if (n < 3) sample(g + " save-game: " + esc(mstr, 200));
}

// A history of loading and saving over several slots by several save-game objects, against a model of the slots.
static void do_slots(Rng& r, u64 n) {
	Cfg c;
	c.v = n & 1 ? GameVersion::GOTHIC_2 : GameVersion::GOTHIC_1;
	c.save = true;
	c.fmt = ArchiveFormat::ASCII;
	Cfg wcfg = c;
	wcfg.fmt = ArchiveFormat::BINARY;
	auto g = std::string(c.g2() ? "G2" : "G1") + " slots";
	label(g);
	fs::path base = fs::path(run.scratch) / ("t" + std::to_string(n));
	fs::remove_all(base);
	fs::create_directories(base);
	struct Guard { fs::path p; ~Guard() { std::error_code e; fs::remove_all(p, e); } } guard {base};
	VirtualObject::enable_packed_save(true);

	// a few things to be saved
	constexpr u32 K = 3;
	std::vector<std::vector<std::shared_ptr<Object>>> keep(K);
	std::vector<SaveMetadata> metas(K);
	std::vector<SaveState> states(K);
	std::vector<std::optional<Texture>> thumbs(K);
	std::vector<Spec> worlds(K);
	std::vector<std::string> md(K), sd(K), td(K), wd(K);
	std::vector<std::string> names {"WORLD", "OLDWORLD", "NEW_WORLD2", "A"};
	for (u32 k = 0; k < K; ++k) {
		{ Vis f(Vis::FILL, c, &r); f.fields(metas[k]); metas[k].world = r.pick(names); }
		md[k] = dump_meta(metas[k], c);
		fill_state(r, states[k], c, keep[k]);
		sd[k] = dump_state(states[k], c);
		// Gothic 1 stores the first value of a symbol only
		if (!c.g2()) for (auto& y : states[k].symbols) for (u32 q = r.below(3); q > 0; --q) y.values.push_back(r.i());
		if (k && r.chance(70)) { RefTex t; thumbs[k] = *rtexture(r, t); }
		td[k] = thumbs[k] ? to_str(tex_bytes(*thumbs[k])) : std::string("none");
		worlds[k].c = wcfg;
		fill_world(r, worlds[k], false);
		wd[k] = dump_world(wcfg, worlds[k].w, true);
	}

	struct Slot { bool there = false; u32 meta = 0, state = 0, thumb = 0; std::map<std::string, u32> worlds; std::map<std::string, std::string> extra; };
	struct Game { std::unique_ptr<SaveGame> s; int at = -1; u32 meta = 0, state = 0, thumb = 0; };
	std::vector<Slot> slots(3);
	std::vector<Game> games(2);
	auto dir = [&](size_t k) { return base / ("savegame" + std::to_string(k)); };
	auto put = [&](Game& x) { x.s->metadata = metas[x.meta]; x.s->state = states[x.state]; x.s->thumbnail = thumbs[x.thumb]; };
	for (auto& x : games) {
		x.s = std::make_unique<SaveGame>(c.v);
		x.meta = r.below(K); x.state = r.below(K); x.thumb = r.below(K);
		put(x);
	}
	std::string hist;
	for (u32 steps = 5 + r.below(8); steps > 0; --steps) {
		auto& x = games[r.below(2)];
		size_t k = r.below(3);
		auto& slot = slots[k];
		std::map<size_t, std::map<std::string, std::string>> others;
		for (size_t q = 0; q < 3; ++q) if (fs::exists(dir(q))) others[q] = snapshot(dir(q));
		bool wrote = false;
		switch (r.below(6)) {
		case 0: case 1: { // save
			u32 w = r.below(K);
			auto name = r.pick(names);
			hist += fmt(" save%zu(from %d)", k, x.at);
			label(g + hist);
			x.s->save(dir(k), worlds[w].w, name);
			if (x.at != static_cast<int>(k)) { if (x.at >= 0) slot = slots[static_cast<size_t>(x.at)]; else slot = {}; }
			slot.there = true; slot.meta = x.meta; slot.state = x.state; slot.thumb = x.thumb;
			slot.worlds[name] = w;
			VP_CHECK(to_str(read_file((dir(k) / "SAVEHDR.SAV").string())) == name + ".ZEN\n", "slots:SAVEHDR", "%s:%s: names another world", g.c_str(), hist.c_str());
			x.at = static_cast<int>(k);
			wrote = true;
			count("slot saves");
			break;
		}
		case 2: case 3: // load
			if (!slot.there) break;
			hist += fmt(" load%zu", k);
			label(g + hist);
			x.s->load(dir(k));
			x.at = static_cast<int>(k); x.meta = slot.meta; x.state = slot.state; x.thumb = slot.thumb;
			compare_save(*x.s, c, md[x.meta], sd[x.state], td[x.thumb], g + hist);
			count("slot loads");
			break;
		case 4: // something else in the game changes
			x.meta = r.below(K); x.state = r.below(K); x.thumb = r.below(K);
			put(x);
			hist += " change";
			break;
		default: // a file of someone else in the slot, possibly in a directory of its own
			if (slot.there) {
				std::string f = r.pick<char const*>({"NOTES.TXT", "sub/more/DATA.BIN", "sub/X", "EXTRA.SAV"}), v = r.name(30);
				fs::create_directories((dir(k) / f).parent_path());
				write_file((dir(k) / f).string(), v.data(), v.size());
				slot.extra[f] = v;
				wrote = true;
				hist += fmt(" file%zu", k);
			}
		}
		label(g + hist + " audit");
		for (auto& [q, snap] : others) if (q != k || !wrote) VP_CHECK(snapshot(dir(q)) == snap, "slots:other", "%s:%s: the files of slot %zu changed", g.c_str(), hist.c_str(), q);
		// where the worlds come from
		if (x.at >= 0) {
			auto& cur = slots[static_cast<size_t>(x.at)];
			for (auto& nm : names) {
				auto w = x.s->load_world(nm + ".ZEN");
				auto it = cur.worlds.find(nm);
				VP_CHECK(!!w == (it != cur.worlds.end()), "slots:world", "%s:%s: world %s is %s", g.c_str(), hist.c_str(), nm.c_str(), w ? "found though it was never saved" : "not found");
				if (w && (r.chance(40) || steps == 1)) compare_world(w, wcfg, wd[it->second], g + hist + " " + nm);
			}
		}
	}
	for (size_t k = 0; k < 3; ++k) {
		auto& slot = slots[k];
		if (!slot.there) { VP_CHECK(!fs::exists(dir(k)), "slots:appeared", "%s:%s: slot %zu appeared", g.c_str(), hist.c_str(), k); continue; }
		SaveGame s(c.v);
		s.load(dir(k));
		compare_save(s, c, md[slot.meta], sd[slot.state], td[slot.thumb], g + hist + fmt(" slot %zu in the end", k));
		auto snap = snapshot(dir(k));
		std::set<std::string> want {"SAVEINFO.SAV", "SAVEDAT.SAV", "SAVEHDR.SAV"};
		if (thumbs[slot.thumb]) want.insert("THUMB.SAV");
		for (auto& [nm, w] : slot.worlds) { want.insert(nm + ".SAV"); compare_world(s.load_world(nm + ".ZEN"), wcfg, wd[w], g + hist + " in the end"); }
		for (auto& [f, v] : slot.extra) { want.insert(f); auto it = snap.find(f); VP_CHECK(it != snap.end() && it->second.find(v) != std::string::npos, "slots:extra", "%s:%s: %s of slot %zu is lost or differs", g.c_str(), hist.c_str(), f.c_str(), k); }
		for (auto& [f, v] : snap) if (!fs::is_directory(dir(k) / f)) VP_CHECK(want.count(f), "slots:stale", "%s:%s: slot %zu holds %s", g.c_str(), hist.c_str(), k, f.c_str());
		for (auto& f : want) VP_CHECK(snap.count(f), "slots:lost", "%s:%s: slot %zu lacks %s", g.c_str(), hist.c_str(), k, f.c_str());
		count("slots audited");
	}
	state(fnv(hist));
	count("slot histories");
}

// the save-games shipped with the tests, re-saved
static void do_sample(u64 n) {
	static struct { char const* dir; GameVersion v; } const S[] = {{"G1/Save", GameVersion::GOTHIC_1}, {"G1/SaveFast", GameVersion::GOTHIC_1}, {"G2/Save", GameVersion::GOTHIC_2}, {"G2/SaveFast", GameVersion::GOTHIC_2}};
	auto& x = S[n % 4];
	fs::path src = fs::path(VP_SAMPLES) / x.dir;
	if (!fs::exists(src)) return;
	fs::path base = fs::path(run.scratch) / ("x" + std::to_string(n));
	fs::remove_all(base);
	fs::create_directories(base);
	struct Guard { fs::path p; ~Guard() { std::error_code e; fs::remove_all(p, e); } } guard {base};
	fs::copy(src, base / "A", fs::copy_options::recursive);
	Cfg c;
	c.v = x.v;
	c.save = true;
	c.fmt = ArchiveFormat::BINARY;
	auto g = std::string("sample ") + x.dir;
	label(g);
	SaveGame s(c.v);
	s.load(base / "A");
	auto w = s.load_world();
	auto m = dump_meta(s.metadata, c), st = dump_state(s.state, c), t = s.thumbnail ? to_str(tex_bytes(*s.thumbnail)) : std::string("none");
	World empty;
	auto wd = dump_world(c, w ? *w : empty, true);
	s.save(base / "B", w ? *w : empty, s.metadata.world);
	SaveGame q(c.v);
	q.load(base / "B");
	compare_save(q, c, m, st, t, g);
	compare_world(q.load_world(), c, wd, g);
	for (auto& e : fs::directory_iterator(base / "A")) VP_CHECK(fs::exists(base / "B" / e.path().filename()), "copy-lost", "%s: %s is not in the copy", g.c_str(), e.path().filename().c_str());
	count("sample save-games");
	state(fnv(m + st + wd));
}

void vp_case(Rng& r, u64 n) {
	if (run.prop == "C10") do_world(r, n);
	else if (n < 4) do_sample(n);
	else if (n % 4 >= 2) do_slots(r, n);
	else do_save(r, n);
}
