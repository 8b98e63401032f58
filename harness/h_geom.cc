// Monitors of C11 (world geometry), C13 (models), C14 (animations, morph meshes) and C24 (chunking).
#include "georef.hh"
#include <ctime>
#include <zenkit/Error.hh>
#include <zenkit/Logger.hh>

using namespace vp;
using namespace zenkit;

extern "C" time_t time(time_t* t) noexcept { if (t) *t = 1000000000; return 1000000000; }
void vp_init() { Logger::set(LogLevel::ERROR, [](LogLevel, char const*, char const*) {}); }

static void compare(std::string const& want, std::string const& got, std::string const& key, std::string const& ctx) {
	if (want == got) return;
	std::string field;
	auto d = first_diff(want, got, &field);
	fail(key + ":" + field, ctx + ": " + d);
}

struct Chunk { u32 type; std::string data; };
// Where the sections of a multi-resolution mesh lie is the writer's choice: put what they hold in the order of the table.
static std::string canonical_mrm(std::string const& d) {
	auto u = [&](size_t at) { u32 x = 0; if (at + 4 <= d.size()) std::memcpy(&x, d.data() + at, 4); return x; };
	if (d.size() < 6) return d;
	size_t n = u(2), p = 6 + n;
	if (p >= d.size()) return d;
	u32 subs = static_cast<unsigned char>(d[p++]);
	static constexpr size_t size[12] = {12, 12, 6, 24, 4, 2, 16, 2, 4, 6, 4, 4};
	std::string out = d.substr(0, 2) + fmt("submeshes %u ", subs);
	for (u32 k = 0; k < 2 + subs * 10; ++k, p += 8) {
		size_t off = u(p), cnt = u(p + 4), each = size[k < 2 ? k : 2 + (k - 2) % 10];
		out += fmt("#%zu ", cnt);
		if (cnt == 0) continue;
		if (off + cnt * each > n) { out += fmt("section %u at %zu: %zu elements of %zu bytes exceed the content of %zu bytes", k, off, cnt, each, n); return out; }
		auto sec = d.substr(6 + off, cnt * each);
		if (each == 24) for (size_t q = 0; q < cnt; ++q) sec[q * 24 + 22] = sec[q * 24 + 23] = 0;
		out += sec;
	}
	return out + d.substr(std::min(p, d.size()));
}
// Splits a file into chunks; the header of embedded archives carries a date and user name and is masked.
static std::vector<Chunk> split(Bytes const& b, std::string const& key) {
	std::vector<Chunk> out;
	auto s = to_str(b);
	size_t p = 0;
	while (p < s.size()) {
		VP_CHECK(p + 6 <= s.size(), "chunk-length:" + key, "the last chunk header is cut off at %zu of %zu", p, s.size());
		u16 t; u32 n;
		std::memcpy(&t, s.data() + p, 2);
		std::memcpy(&n, s.data() + p + 2, 4);
		VP_CHECK(p + 6 + n <= s.size(), "chunk-length:" + key, "chunk %x at %zu declares %u bytes, only %zu are left", t, p, n, s.size() - p - 6);
		auto d = s.substr(p + 6, n);
		if (auto a = d.find("ZenGin Archive\n"); a != std::string::npos) {
			auto e = d.find("\nEND\n", a);
			auto f = e == std::string::npos ? e : d.find("END\n\n", e + 5);
			if (f != std::string::npos) d = d.substr(0, a) + "<archive>" + d.substr(f + 5);
		}
		out.push_back({t, t == 0xB100 ? canonical_mrm(d) : d});
		p += 6 + n;
	}
	return out;
}
static void compare_chunks(Bytes const& ref, Bytes const& got, std::string const& key, std::string const& ctx) {
	auto a = split(ref, "reference"), b = split(got, key);
	for (size_t k = 0; k < a.size() || k < b.size(); ++k) {
		VP_CHECK(k < a.size() && k < b.size(), "chunks:" + key, "%s: %zu chunks instead of %zu", ctx.c_str(), b.size(), a.size());
		VP_CHECK(a[k].type == b[k].type, "chunks:" + key, "%s: chunk %zu has type %x instead of %x", ctx.c_str(), k, b[k].type, a[k].type);
		if (a[k].data != b[k].data) {
			size_t i = 0;
			while (i < a[k].data.size() && i < b[k].data.size() && a[k].data[i] == b[k].data[i]) ++i;
			fail("chunks:" + key + fmt(":%x", a[k].type), ctx + fmt(": chunk %x differs at byte %zu: expected (%zu bytes) ..%s, got (%zu bytes) ..%s", a[k].type, i, a[k].data.size(),
			    hex(a[k].data.data() + i, std::min<size_t>(16, a[k].data.size() - i)).c_str(), b[k].data.size(), hex(b[k].data.data() + i, std::min<size_t>(16, b[k].data.size() - i)).c_str()));
		}
		count("chunks compared");
	}
}
// the same chunks, in any order of attachments
static void compare_sorted(Bytes const& ref, Bytes const& got, std::string const& key, std::string const& ctx) {
	auto a = split(ref, "reference"), b = split(got, key);
	auto types = [](std::vector<Chunk> const& c) { std::string s; for (auto& x : c) s += fmt("%x ", x.type); return s; };
	VP_CHECK(types(a) == types(b), "chunks:" + key, "%s: chunks %s instead of %s", ctx.c_str(), types(b).c_str(), types(a).c_str());
	std::multiset<std::string> x, y;
	for (auto& c : a) if (c.type == 0xB100) x.insert(c.data);
	for (auto& c : b) if (c.type == 0xB100) y.insert(c.data);
	VP_CHECK(x == y, "chunks:" + key + ":b100", "%s: meshes differ from the format", ctx.c_str());
	for (size_t k = 0; k < a.size(); ++k) if (a[k].type != 0xB100 && a[k].type != 0xD020) VP_CHECK(a[k].data == b[k].data, "chunks:" + key + fmt(":%x", a[k].type), "%s: chunk %x differs", ctx.c_str(), a[k].type);
	count("chunks compared", a.size());
}

struct Opt { Rng* noise; Rng* shuffle; std::string key, ctx; };

// Loads `ref`, which encodes `want`, with `load`, dumps with `dump`.
template <class T, class Load, class DumpF> static T check_load(Bytes const& ref, std::string const& want, Opt const& o, Load load, DumpF dump, bool to_end = true) {
	T t {};
	auto b = ref;
	auto r = mem(b);
	label(o.ctx + " load");
	load(t, r.get());
	Dump d;
	dump(d, t);
	compare(want, d.o, "load:" + o.key, o.ctx);
	if (to_end) VP_CHECK(r->tell() == ref.size(), "position:" + o.key, "%s: cursor at %zu of %zu after loading", o.ctx.c_str(), r->tell(), ref.size());
	count("values compared", static_cast<u64>(std::count(want.begin(), want.end(), '\n')));
	count("loaded " + o.key);
	return t;
}
template <class Save> static Bytes lib_save(Save save) { Bytes b; auto w = Write::to(&b); save(w.get()); return b; }

static void do_mesh(Rng& r, GameVersion v, Opt o) {
	bool wide = v == GameVersion::GOTHIC_1 && r.chance(20), shared = r.chance(70);
	Mesh m;
	fill_mesh(r, m, v, wide);
	Chunks c;
	c.noise = o.noise;
	enc_mesh(c, m, v, wide, shared);
	auto ref = c.w.bytes();
	Dump d;
	dump_mesh(d, m, v, shared);
	std::set<u32> leaf;
	std::vector<u32> leafs;
	for (u32 k = r.below(2 * static_cast<u32>(m.geometry.size()) + 1); k > 0; --k) leafs.push_back(r.chance(90) ? r.below(static_cast<u32>(m.geometry.size()) + 1) : r.u());
	std::sort(leafs.begin(), leafs.end());
	leaf.insert(leafs.begin(), leafs.end());
	auto l = check_load<Mesh>(ref, d.o, o, [&](Mesh& x, Read* s) { if (o.noise && r.flip()) x.load(s, wide); else x.load(s, leafs, wide); }, [&](Dump& q, Mesh const& x) { dump_mesh(q, x, v, shared); });
	if (c.unknown) count("files with unknown chunks");
	if (c.surplus) count("files with surplus bytes");
	if (o.noise) { for (auto b = lib_save([&](Write* w) { m.save(w, v); }); auto& x : split(b, o.key)) (void) x, count("declared lengths checked"); return; }
	Dump want, got;
	auto tri = triangles(m, leaf);
	dump_triangles(want, tri);
	dump_triangles(got, l.polygons);
	compare(want.o, got.o, "triangles", o.ctx);
	count("triangles compared", tri.material_indices.size());
	for (auto& p : m.geometry) state(fnv(fmt("p %zu %d %d %d", std::min<size_t>(p.index_count, 8), p.flags.is_portal, p.flags.is_ghost_occluder, p.flags.is_outdoor)));
	// saving; Gothic 1 has no wide indices of its own
	if (!wide) {
		label(o.ctx + " save");
		auto saved = lib_save([&](Write* w) { m.save(w, v); });
		Chunks k;
		enc_mesh(k, m, v, false, true);
		auto ref2 = k.w.bytes();
		compare_chunks(ref2, saved, o.key, o.ctx);
		Dump dd;
		dump_mesh(dd, m, v, true);
		auto l2 = check_load<Mesh>(saved, dd.o, o, [&](Mesh& x, Read* s) { x.load(s, leafs, false); }, [&](Dump& q, Mesh const& x) { dump_mesh(q, x, v, true); });
		// what was loaded (and triangulated) saves the same
		auto again = lib_save([&](Write* w) { l2.save(w, v); });
		VP_CHECK(again == saved, "resave:" + o.key, "%s: saving the loaded mesh gives other bytes", o.ctx.c_str());
		count("saved " + o.key);
	}
}

static void do_bsp(Rng& r, GameVersion v, Opt o) {
	BspTree m {};
	fill_bsp(r, m, v, 20);
	Chunks c;
	c.noise = o.noise;
	enc_bsp(c, m, v);
	auto ref = c.w.bytes();
	Dump d;
	dump_bsp(d, m);
	u32 ver = v == GameVersion::GOTHIC_1 ? 0x2090000 : 0x4090000;
	auto l = check_load<BspTree>(ref, d.o, o, [&](BspTree& x, Read* s) { x.load(s, ver); }, [&](Dump& q, BspTree const& x) { dump_bsp(q, x); });
	label(o.ctx + " save");
	auto saved = lib_save([&](Write* w) { l.save(w, v); });
	if (c.unknown) count("files with unknown chunks");
	if (c.surplus) count("files with surplus bytes");
	if (o.noise) { for (auto& x : split(saved, o.key)) (void) x, count("declared lengths checked"); return; }
	compare_chunks(ref, saved, o.key, o.ctx);
	check_load<BspTree>(saved, d.o, o, [&](BspTree& x, Read* s) { x.load(s, ver); }, [&](Dump& q, BspTree const& x) { dump_bsp(q, x); });
	count("saved " + o.key);
	state(fnv(fmt("t %zu %zu %zu", m.nodes.size(), m.leaf_node_indices.size(), m.sectors.size())));
}

static void do_obb(Rng& r) {
	label("oriented box");
	OrientedBoundingBox b;
	auto v = [&] { float x = static_cast<float>(r.range(-100000, 100000)) / 64.f, y = static_cast<float>(r.range(-100000, 100000)) / 64.f, z = static_cast<float>(r.range(-100000, 100000)) / 64.f; return Vec3 {x, y, z}; };
	b.center = v();
	if (r.flip()) b.center = {-std::abs(b.center.x) - 5000, -std::abs(b.center.y) - 5000, -std::abs(b.center.z) - 5000};
	for (auto& a : b.axes) { a = v(); float n = std::sqrt(a.x * a.x + a.y * a.y + a.z * a.z); if (n > 0) a = {a.x / n, a.y / n, a.z / n}; }
	b.half_width = {static_cast<float>(r.range(0, 3000)) / 16.f, static_cast<float>(r.range(0, 3000)) / 16.f, static_cast<float>(r.range(0, 3000)) / 16.f};
	auto box = b.as_bbox();
	auto chk = [&](float c, float a0, float a1, float a2, float lo, float hi, char const* n) {
		double e = std::abs(double(a0) * double(b.half_width.x)) + std::abs(double(a1) * double(b.half_width.y)) + std::abs(double(a2) * double(b.half_width.z));
		double tol = 1e-5 * (std::abs(double(c)) + e) + 1e-5;
		VP_CHECK(std::abs(double(lo) - (double(c) - e)) <= tol && std::abs(double(hi) - (double(c) + e)) <= tol, "as_bbox", "%s: [%g,%g] instead of [%g,%g]", n, static_cast<double>(lo), static_cast<double>(hi), double(c) - e, double(c) + e);
	};
	chk(b.center.x, b.axes[0].x, b.axes[1].x, b.axes[2].x, box.min.x, box.max.x, "x");
	chk(b.center.y, b.axes[0].y, b.axes[1].y, b.axes[2].y, box.min.y, box.max.y, "y");
	chk(b.center.z, b.axes[0].z, b.axes[1].z, b.axes[2].z, box.min.z, box.max.z, "z");
	count("oriented boxes enclosed");
}

static void fin(Chunks const& c, Opt const& o, Bytes const& saved) {
	if (c.unknown) count("files with unknown chunks");
	if (c.surplus) count("files with surplus bytes");
	if (o.noise) for (auto& x : split(saved, o.key)) (void) x, count("declared lengths checked");
	count("saved " + o.key);
}

template <class T, class Fill, class Enc, class Load, class Save, class DumpF>
static void do_model(Rng& r, Opt o, bool sorted, Fill fill, Enc enc, Load load, Save save, DumpF dump) {
	T m {};
	fill(m);
	Chunks c, plain;
	c.noise = o.noise;
	enc(c, m, o.shuffle);
	enc(plain, m, static_cast<Rng*>(nullptr));
	auto ref = c.w.bytes();
	if (r.chance(20)) { auto e = r.bytes(1 + r.below(20)); Bytes longer = ref; longer.insert(longer.end(), e.begin(), e.end()); (void) longer; }
	Dump d;
	dump(d, m);
	auto l = check_load<T>(ref, d.o, o, load, dump);
	label(o.ctx + " save");
	auto s1 = lib_save([&](Write* w) { save(m, w); });
	fin(c, o, s1);
	if (!o.noise) {
		auto pb = plain.w.bytes();
		if (sorted) compare_sorted(pb, s1, o.key, o.ctx); else compare_chunks(pb, s1, o.key, o.ctx);
	}
	check_load<T>(s1, d.o, o, load, dump);
	auto s2 = lib_save([&](Write* w) { save(l, w); });
	check_load<T>(s2, d.o, o, load, dump);
	if (!sorted) VP_CHECK(s1 == s2, "resave:" + o.key, "%s: saving the loaded data gives other bytes", o.ctx.c_str());
	state(fnv(d.o));
}

static void do_anim(Rng& r, Opt o) {
	RefAnim m;
	fill_anim(r, m);
	Chunks c;
	c.noise = o.noise;
	enc_anim(c, m, o.shuffle);
	auto ref = c.w.bytes();
	Dump d;
	dump_anim(d, m.a, false);
	auto l = check_load<ModelAnimation>(ref, d.o, o, [](ModelAnimation& x, Read* s) { x.load(s); }, [](Dump& q, ModelAnimation const& x) { dump_anim(q, x, false); });
	VP_CHECK(l.samples.size() == m.raw.size(), "samples:count", "%zu instead of %zu", l.samples.size(), m.raw.size());
	for (size_t k = 0; k < m.raw.size(); ++k) {
		auto& s = l.samples[k];
		auto& q = m.raw[k];
		double p[3] = {double(s.position.x), double(s.position.y), double(s.position.z)};
		for (size_t x = 0; x < 3; ++x) {
			double e = double(q[3 + x]) * double(m.a.sample_position_scale) + double(m.a.sample_position_min);
			VP_CHECK(std::abs(p[x] - e) <= 1e-4 + (std::abs(e) + std::abs(double(m.a.sample_position_min))) * 1e-6, "samples:position", "sample %zu component %zu: %g instead of %g (raw %u scale %g min %g)", k, x, p[x], e, q[3 + x], double(m.a.sample_position_scale), double(m.a.sample_position_min));
		}
		double e[4], sq = 0;
		for (size_t x = 0; x < 3; ++x) { e[x] = (double(q[x]) - 32767.0) * 2.1 / 65535.0; sq += e[x] * e[x]; }
		if (sq > 1) { for (size_t x = 0; x < 3; ++x) e[x] /= std::sqrt(sq); e[3] = 0; } else e[3] = std::sqrt(1 - sq);
		double g[4] = {double(s.rotation.x), double(s.rotation.y), double(s.rotation.z), double(s.rotation.w)}, len = 0;
		for (size_t x = 0; x < 4; ++x) {
			// close to length 1 the last component is ill-conditioned: its square is what is determined
			bool ok = x == 3 ? std::abs(g[3] * g[3] - e[3] * e[3]) <= 2e-5 && g[3] >= 0 : std::abs(g[x] - e[x]) <= 1e-5;
			VP_CHECK(ok, "samples:rotation", "sample %zu component %zu: %g instead of %g (raw %u %u %u)", k, x, g[x], e[x], q[0], q[1], q[2]);
			len += g[x] * g[x];
		}
		VP_CHECK(std::abs(len - 1) <= 1e-4, "samples:unit", "sample %zu has squared length %g", k, len);
		count(sq > 1 ? "samples beyond the sphere" : "samples inside the sphere");
	}
	fin(c, o, {});
	state(fnv(d.o));
}

// The chunk protocol itself (zenkit/Stream.hh): handlers which read too little or too much of their chunk.
enum class Tag : uint16_t {};
static void do_protocol(Rng& r) {
	struct C { u32 type, declared, take; bool done; ssize_t shift; };
	std::vector<C> cs;
	RefWriter w;
	u32 lead = r.below(3) ? 0 : r.below(50), n = 1 + r.below(8);
	for (u32 k = 0; k < lead; ++k) w.u8_(static_cast<u32>(r.next()));
	bool moving = r.flip();
	for (u32 k = 0; k < n; ++k) {
		C c {static_cast<u32>(r.next() & 0xFFFF), r.below(3) ? r.below(20) : r.below(300), 0, r.chance(8), 0};
		c.take = r.below(4) == 0 ? c.declared : r.below(c.declared + 40);
		if (moving && r.chance(25)) c.shift = static_cast<ssize_t>(r.below(30));
		w.u16_(c.type); w.u32_(c.declared);
		// what a handler may declare to belong to its chunk as well lies right behind it
		for (u32 q = 0; q < c.declared + static_cast<u32>(c.shift); ++q) w.u8_(static_cast<u32>(r.next()));
		cs.push_back(c);
	}
	auto bytes = w.bytes();
	auto s = to_str(bytes);
	auto rd = Read::from(bytes.data(), bytes.size());
	rd->seek(static_cast<ssize_t>(lead), Whence::BEG);
	size_t at = lead, idx = 0;
	auto step = [&](Read* c, Tag t, size_t* target) {
		VP_CHECK(idx < cs.size(), "protocol-extra", "a %zuth chunk was announced, there are %zu", idx + 1, cs.size());
		auto& e = cs[idx++];
		at += 6;
		VP_CHECK(static_cast<u32>(t) == e.type, "protocol-type", "chunk %zu of %zu: type %x, the file says %x", idx, cs.size(), static_cast<u32>(t), e.type);
		VP_CHECK(c->tell() == at, "protocol-position", "chunk %zu: content at %zu, expected %zu", idx, c->tell(), at);
		if (target) VP_CHECK(*target == at + e.declared, "protocol-target", "chunk %zu ends at %zu, reported %zu", idx, at + e.declared, *target);
		std::string got(e.take, '\0');
		size_t m = c->read(got.data(), got.size());
		VP_CHECK(got.substr(0, m) == s.substr(at, m), "protocol-content", "chunk %zu: %u bytes differ", idx, e.take);
		if (e.take > e.declared) count("chunk overread");
		else if (e.take < e.declared) count("chunk read in part");
		if (target && e.shift) { *target += static_cast<size_t>(e.shift); count("chunk end moved by its handler"); }
		at += e.declared + static_cast<size_t>(e.shift);
		return e.done;
	};
	if (moving) proto::read_chunked<Tag>(rd.get(), "monitor", std::function<bool(Read*, Tag, size_t&)> {[&](Read* c, Tag t, size_t& x) { return step(c, t, &x); }});
	else proto::read_chunked<Tag>(rd.get(), "monitor", std::function<bool(Read*, Tag)> {[&](Read* c, Tag t) { return step(c, t, nullptr); }});
	size_t want = cs.size();
	for (size_t k = 0; k < cs.size(); ++k) if (cs[k].done) { want = k + 1; break; }
	VP_CHECK(idx == want, "protocol-count", "%zu chunks were announced, expected %zu of %zu", idx, want, cs.size());
	VP_CHECK(rd->tell() == at, "protocol-end", "the stream is left at %zu, the last chunk ends at %zu", rd->tell(), at);
	// written back
	Bytes out;
	{
		auto o = Write::to(&out);
		o->write(s.data(), lead);
		size_t p = lead;
		for (auto& c : cs) {
			proto::write_chunk<Tag>(o.get(), static_cast<Tag>(c.type), [&](Write* x) {
				u32 half = c.declared ? r.below(c.declared) : 0;
				x->write(s.data() + p + 6, half);
				x->write(s.data() + p + 6 + half, c.declared - half);
			});
			o->write(s.data() + p + 6 + c.declared, static_cast<size_t>(c.shift));
			p += 6 + c.declared + static_cast<size_t>(c.shift);
		}
	}
	VP_CHECK(to_str(out) == s, "protocol-written", "%zu chunks written back differ: %s instead of %s", cs.size(), esc(to_str(out), 300).c_str(), esc(s, 300).c_str());
	state(fnv(s));
	count("chunk sequences");
}

void vp_case(Rng& r, u64 n) {
	auto v = n & 1 ? GameVersion::GOTHIC_2 : GameVersion::GOTHIC_1;
	auto g = std::string(v == GameVersion::GOTHIC_2 ? "G2" : "G1");
	Rng noise(r.next()), shuffle(r.next());
	Opt o {nullptr, r.flip() ? &shuffle : nullptr, "", ""};
	u64 k = n / 2;
	std::vector<std::string> kinds;
	if (run.prop == "C11") kinds = {"mesh", "bsp", "obb"};
	else if (run.prop == "C13") kinds = {"mrm", "softskin", "modelmesh", "hierarchy", "model"};
	else if (run.prop == "C14") kinds = {"animation", "morphmesh"};
	else { kinds = {"mesh", "bsp", "mrm", "softskin", "modelmesh", "hierarchy", "model", "animation", "morphmesh", "protocol"}; o.noise = &noise; }
	auto& kind = kinds[k % kinds.size()];
	o.key = kind;
	o.ctx = g + " " + kind;
	label(o.ctx);
	vast = k / kinds.size() % (run.prop == "C13" ? 500 : 1500) == 9 ? 1 + static_cast<int>(r.below(2)) : 0;
	if (vast) count("cases with vast lists: " + kind);
	if (kind == "mesh") do_mesh(r, v, o);
	else if (kind == "bsp") do_bsp(r, v, o);
	else if (kind == "obb") for (int q = 0; q < 20; ++q) do_obb(r);
	else if (kind == "mrm") do_model<MultiResolutionMesh>(r, o, false, [&](auto& m) { fill_mrm(r, m, v, rc(r, 4, 40)); }, [&](Chunks& c, auto& m, Rng* s) { enc_mrm(c, m, v, s); }, [](auto& m, Read* s) { m.load(s); }, [&](auto& m, Write* w) { m.save(w, v); }, [&](Dump& d, auto& m) { dump_mrm(d, m, v); });
	else if (kind == "softskin") do_model<SoftSkinMesh>(r, o, false, [&](auto& m) { fill_softskin(r, m, v); }, [&](Chunks& c, auto& m, Rng* s) { enc_softskin(c, m, v, s); }, [](auto& m, Read* s) { m.load(s); }, [&](auto& m, Write* w) { m.save(w, v); }, [&](Dump& d, auto& m) { dump_softskin(d, m, v); });
	else if (kind == "modelmesh") do_model<ModelMesh>(r, o, true, [&](auto& m) { fill_modelmesh(r, m, v); }, [&](Chunks& c, auto& m, Rng* s) { enc_modelmesh(c, m, v, s); }, [](auto& m, Read* s) { m.load(s); }, [&](auto& m, Write* w) { m.save(w, v); }, [&](Dump& d, auto& m) { dump_modelmesh(d, m, v); });
	else if (kind == "hierarchy") do_model<ModelHierarchy>(r, o, false, [&](auto& m) { fill_hierarchy(r, m); }, [&](Chunks& c, auto& m, Rng*) { enc_hierarchy(c, m); }, [](auto& m, Read* s) { m.load(s); }, [&](auto& m, Write* w) { m.save(w); }, [&](Dump& d, auto& m) { dump_hierarchy(d, m); });
	else if (kind == "model") do_model<Model>(r, o, true, [&](auto& m) { fill_hierarchy(r, m.hierarchy); fill_modelmesh(r, m.mesh, v); }, [&](Chunks& c, auto& m, Rng* s) { enc_hierarchy(c, m.hierarchy); enc_modelmesh(c, m.mesh, v, s); }, [](auto& m, Read* s) { m.load(s); }, [&](auto& m, Write* w) { m.save(w, v); }, [&](Dump& d, auto& m) { dump_hierarchy(d, m.hierarchy); dump_modelmesh(d, m.mesh, v); });
	else if (kind == "animation") do_anim(r, o);
	else if (kind == "protocol") for (int q = 0; q < 8; ++q) do_protocol(r);
	else {
		MorphMesh m;
		fill_morph(r, m, v);
		Chunks c;
		c.noise = o.noise;
		enc_morph(c, m, v, o.shuffle);
		Dump d;
		dump_morph(d, m, v);
		check_load<MorphMesh>(c.w.bytes(), d.o, o, [](MorphMesh& x, Read* s) { x.load(s); }, [&](Dump& q, MorphMesh const& x) { dump_morph(q, x, v); });
		fin(c, o, {});
		state(fnv(d.o));
	}
	if (n < 4) sample(o.ctx);
}
