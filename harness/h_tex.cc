// Monitor of C16: textures.
#include "texref.hh"
#include <zenkit/addon/texcvt.hh>
#include <zenkit/Error.hh>
#include <zenkit/Logger.hh>

using namespace vp;
using namespace zenkit;

void vp_init() { Logger::set(LogLevel::ERROR, [](LogLevel, char const*, char const*) {}); }

static char const* FN[] = {"B8G8R8A8", "R8G8B8A8", "A8B8G8R8", "A8R8G8B8", "B8G8R8", "R8G8B8", "A4R4G4B4", "A1R5G5B5", "R5G6B5", "P8", "DXT1", "DXT2", "DXT3", "DXT4", "DXT5"};
static std::string fn(TF f) { return FN[static_cast<int>(f)]; }

template <class F> static bool throws(F f) { try { f(); return false; } catch (std::exception const&) { return true; } }

static void same_header(Texture const& t, RefTex const& m, char const* what) {
	auto n = fn(m.f);
	VP_CHECK(t.format() == m.f, std::string(what) + ":format", "format %d instead of %s", static_cast<int>(t.format()), n.c_str());
	VP_CHECK(t.width() == m.w && t.height() == m.h, std::string(what) + ":size", "%ux%u instead of %ux%u", t.width(), t.height(), m.w, m.h);
	VP_CHECK(t.ref_width() == m.rw && t.ref_height() == m.rh, std::string(what) + ":refsize", "%ux%u instead of %ux%u", t.ref_width(), t.ref_height(), m.rw, m.rh);
	VP_CHECK(t.average_color() == m.avg, std::string(what) + ":average", "average colour %x instead of %x", t.average_color(), m.avg);
	VP_CHECK(t.mipmaps() == m.level.size(), std::string(what) + ":mipmaps", "%u mipmaps instead of %zu", t.mipmaps(), m.level.size());
	if (m.f == TF::P8) for (size_t k = 0; k < 256; ++k) {
		auto& p = t.palette()[k];
		VP_CHECK(p.r == m.pal[k][0] && p.g == m.pal[k][1] && p.b == m.pal[k][2] && p.a == m.pal[k][3], std::string(what) + ":palette", "palette entry %zu", k);
	}
	for (u32 l = 0; l < m.level.size(); ++l) {
		VP_CHECK(t.mipmap_width(l) == half(m.w, l) && t.mipmap_height(l) == half(m.h, l), std::string(what) + ":mipmap-size", "%ux%u level %u: %ux%u", m.w, m.h, l, t.mipmap_width(l), t.mipmap_height(l));
		VP_CHECK(t.data(l) == m.level[l], std::string(what) + ":data:" + n, "%ux%u of %zu levels: data of level %u differs", m.w, m.h, m.level.size(), l);
		count("levels compared");
	}
	auto past = static_cast<u32>(m.level.size());
	VP_CHECK(throws([&] { (void) t.data(past); }), std::string(what) + ":missing-level", "no error for a level that does not exist");
	VP_CHECK(throws([&] { (void) t.as_rgba8(past); }), std::string(what) + ":missing-level", "no error for a level that does not exist");
}

static void same_pixels(Texture const& t, RefTex const& m, char const* what) {
	auto n = fn(m.f);
	for (u32 l = 0; l < m.level.size(); ++l) {
		if (!decodable(m.f)) {
			VP_CHECK(throws([&] { (void) t.as_rgba8(l); }), std::string(what) + ":undecodable:" + n, "no error");
			count("undecodable refused");
			continue;
		}
		auto px = t.as_rgba8(l);
		u32 w = half(m.w, l), h = half(m.h, l);
		VP_CHECK(px.size() == static_cast<size_t>(w) * h * 4, std::string(what) + ":pixel-count:" + n, "%ux%u level %u: %zu bytes", m.w, m.h, l, px.size());
		int tol = is_dxt(m.f) || m.f == TF::R5G6B5 ? 1 : 0;
		for (u32 y = 0; y < h; ++y) for (u32 x = 0; x < w; ++x) {
			auto e = pixel(m.f, m.level[l], w, x, y, m.pal);
			for (size_t q = 0; q < 4; ++q) {
				int g = px[(static_cast<size_t>(y) * w + x) * 4 + q];
				VP_CHECK(std::abs(g - e[q]) <= tol, std::string(what) + ":pixel:" + n, "%ux%u level %u (%u,%u) channel %zu: %d instead of %d", m.w, m.h, l, x, y, q, g, e[q]);
			}
		}
		count("pixels compared", static_cast<u64>(w) * h);
	}
	count("format " + n);
}

static void check_dds(Texture const& t, RefTex const& m) {
	auto n = fn(m.f);
	auto d = to_dds(t);
	auto U = [&](size_t o) { u32 v = 0; if (o + 4 > d.size()) fail("dds:short:" + n, "file too short"); std::memcpy(&v, d.data() + o, 4); return v; };
	VP_CHECK(U(0) == 0x20534444, "dds:magic", "magic");
	VP_CHECK(U(4) == 124 && U(76) == 32, "dds:sizes", "header sizes %u %u", U(4), U(76));
	u32 fl = U(8);
	VP_CHECK((fl & 0x1007) == 0x1007, "dds:flags", "flags %x", fl);
	VP_CHECK(U(12) == m.h && U(16) == m.w, "dds:dimensions", "%ux%u instead of %ux%u", U(16), U(12), m.w, m.h);
	u32 levels = fl & 0x20000 ? U(28) : 1;
	VP_CHECK(levels == m.level.size(), "dds:levels", "%u levels instead of %zu", levels, m.level.size());
	u32 caps = U(108);
	VP_CHECK(caps & 0x1000, "dds:caps", "caps %x", caps);
	VP_CHECK(!(caps & 0x400000) == (levels == 1), "dds:caps-mipmap", "caps %x", caps);
	u32 pf = U(80);
	if (is_dxt(m.f)) {
		VP_CHECK(fl & 0x80000 && U(20) == m.level[0].size(), "dds:linear:" + n, "linear size %u", U(20));
		VP_CHECK(pf == 4 && U(84) == (0x30545844u + (static_cast<u32>(m.f) - static_cast<u32>(TF::DXT1) + 1) * 0x1000000u), "dds:fourcc:" + n, "%x %x", pf, U(84));
	} else {
		VP_CHECK(fl & 8 && U(20) == m.w * bytes_per_pixel(m.f), "dds:pitch:" + n, "pitch %u", U(20));
		VP_CHECK(U(88) == bytes_per_pixel(m.f) * 8, "dds:bits:" + n, "%u bits", U(88));
		if (m.f == TF::P8) VP_CHECK(pf == 0x20, "dds:palette-flag", "%x", pf);
		else {
			VP_CHECK(pf & 0x40, "dds:rgb-flag:" + n, "%x", pf);
			u32 mask[4] = {U(92), U(96), U(100), U(104)};
			VP_CHECK(!(pf & 1) == (mask[3] == 0), "dds:alpha-flag:" + n, "%x %x", pf, mask[3]);
			// each pixel read through the masks is the pixel the texture decodes to
			if (decodable(m.f)) {
				size_t k = m.w * m.h - 1;
				u32 v = 0;
				std::memcpy(&v, m.level[0].data() + k * bytes_per_pixel(m.f), bytes_per_pixel(m.f));
				auto e = pixel(m.f, m.level[0], m.w, m.w - 1, m.h - 1, m.pal);
				for (size_t q = 0; q < 4; ++q) {
					if (q == 3 && !(pf & 1)) continue;
					u32 mk = mask[q];
					VP_CHECK(mk, "dds:mask:" + n, "no mask for channel %zu", q);
					u32 sh = static_cast<u32>(__builtin_ctz(mk)), mx = mk >> sh;
					int g = static_cast<int>(static_cast<u64>(v & mk) / (1u << sh) * 255 / mx);
					VP_CHECK(std::abs(g - e[q]) <= 1, "dds:mask:" + n, "channel %zu: %d instead of %d", q, g, e[q]);
				}
			} else {
				VP_CHECK(mask[0] == 0x7c00 && mask[1] == 0x3e0 && mask[2] == 0x1f && mask[3] == 0x8000, "dds:mask:" + n, "masks");
			}
		}
	}
	size_t at = 128;
	if (m.f == TF::P8) { for (auto& p : m.pal) { u32 v = U(at); at += 4; VP_CHECK(v == (p[2] | p[1] << 8 | p[0] << 16 | static_cast<u32>(p[3]) << 24), "dds:palette", "palette"); } }
	for (auto& l : m.level) {
		VP_CHECK(at + l.size() <= d.size() && std::equal(l.begin(), l.end(), reinterpret_cast<u8 const*>(d.data()) + at), "dds:data:" + n, "level data differs");
		at += l.size();
	}
	VP_CHECK(at == d.size(), "dds:size:" + n, "%zu bytes instead of %zu", d.size(), at);
	count("dds files compared");
}

static void stored(Rng& r, u64 n) {
	RefTex m;
	m.fill(r, 40, n % 100 < 2 && n < 9000 ? static_cast<int>(n / 100) : -1);
	RefWriter o;
	m.encode(o);
	auto good = o.bytes();
	auto bytes = good;
	u32 extra = r.below(5);
	for (u32 k = 0; k < extra; ++k) bytes.push_back(static_cast<std::byte>(0xEE));
	label("load " + fn(m.f) + fmt(" %ux%u/%zu", m.w, m.h, m.level.size()));
	Texture t;
	if (r.flip()) { // an object that was used before
		RefTex other;
		other.fill(r);
		RefWriter q;
		other.encode(q);
		auto b = q.bytes();
		auto s = mem(b);
		t.load(s.get());
		count("loaded over another");
	}
	auto s = mem(bytes);
	t.load(s.get());
	VP_CHECK(s->tell() == good.size(), "load:position", "cursor at %zu of %zu", s->tell(), good.size());
	same_header(t, m, "load");
	same_pixels(t, m, "load");
	Bytes saved;
	auto w = Write::to(&saved);
	t.save(w.get());
	VP_CHECK(saved == good, "save:" + fn(m.f), "saved bytes differ");
	check_dds(t, m);
	if (r.chance(30)) {
		auto cut = bytes;
		cut.resize(r.below(static_cast<u32>(good.size())));
		auto cs = mem(cut);
		Texture ct;
		VP_CHECK(throws([&] { ct.load(cs.get()); }), "truncated", "a texture cut off at %zu of %zu bytes was loaded without an error", cut.size(), good.size());
		count("truncated refused");
	}
	if (r.chance(10)) {
		auto bad = bytes;
		u32 v = 15 + r.below(1000);
		std::memcpy(bad.data() + 8, &v, 4);
		auto cs = mem(bad);
		Texture ct;
		VP_CHECK(throws([&] { ct.load(cs.get()); }), "unknown-format", "format %u was accepted", v);
	}
	state(fnv(fmt("s %s %u %u %zu", fn(m.f).c_str(), m.w, m.h, m.level.size())));
}

static void built(Rng& r, u64 n) {
	RefTex m;
	m.fill(r, 40, n % 100 < 2 && n < 9000 ? static_cast<int>(n / 100) : -1);
	auto dst = static_cast<TF>(r.below(15));
	m.rw = m.w; m.rh = m.h; m.avg = 0;
	std::vector<TF> src(m.level.size());
	std::vector<std::vector<u8>> img(m.level.size());
	for (u32 l = 0; l < m.level.size(); ++l) {
		src[l] = r.chance(70) ? m.f : static_cast<TF>(r.below(15));
		img[l].resize(image_size(src[l], half(m.w, l), half(m.h, l)));
		u8 base = static_cast<u8>(r.next());
		bool flat = is_dxt(dst) && r.chance(70); // gently varying images for the lossy formats
		for (auto& x : img[l]) x = flat ? static_cast<u8>(base / 2 + r.below(20)) : static_cast<u8>(r.next());
	}
	label("build " + fn(m.f) + " -> " + fn(dst) + fmt(" %ux%u/%zu", m.w, m.h, m.level.size()));
	TextureBuilder b(m.w, m.h);
	for (u32 l = 0; l < m.level.size(); ++l) {
		if (r.chance(10)) {
			auto bad = img[l];
			bad.resize(bad.size() + (r.flip() && !bad.empty() ? static_cast<size_t>(-1) : 1));
			VP_CHECK(throws([&] { b.add_mipmap(bad, src[l]); }), "build:wrong-size", "an image of the wrong size was accepted");
			count("wrong sizes refused");
		}
		b.add_mipmap(img[l], src[l]);
	}
	bool dest_ok = dst != TF::A4R4G4B4 && dst != TF::A1R5G5B5 && dst != TF::DXT2 && dst != TF::DXT4;
	bool expect_error = dst == TF::P8;
	for (auto f : src) if (f != dst && (!dest_ok || !decodable(f) || f == TF::P8)) expect_error = true;
	if (expect_error) {
		VP_CHECK(throws([&] { (void) b.build(dst); }), "build:unsupported", "%s -> %s: no error", fn(m.f).c_str(), fn(dst).c_str());
		count("unsupported conversions refused");
		return;
	}
	auto t = b.build(dst);
	VP_CHECK(t.format() == dst && t.width() == m.w && t.height() == m.h && t.ref_width() == m.w && t.ref_height() == m.h && t.mipmaps() == m.level.size(), "build:header", "header");
	for (u32 l = 0; l < m.level.size(); ++l) {
		u32 w = half(m.w, l), h = half(m.h, l);
		auto key = fn(src[l]) + ">" + fn(dst);
		auto& d = t.data(l);
		VP_CHECK(d.size() == image_size(dst, w, h), "build:data-size:" + key, "%ux%u level %u: %zu bytes", m.w, m.h, l, d.size());
		if (src[l] == dst) {
			VP_CHECK(d == img[l], "build:copy:" + key, "%ux%u of %zu, level %u changed", m.w, m.h, m.level.size(), l);
			count("levels built unchanged");
			continue;
		}
		auto px = t.as_rgba8(l);
		VP_CHECK(px.size() == static_cast<size_t>(w) * h * 4, "build:pixel-count:" + key, "%zu", px.size());
		for (u32 y = 0; y < h; ++y) for (u32 x = 0; x < w; ++x) {
			auto e = pixel(src[l], img[l], w, x, y, m.pal);
			Px tol {0, 0, 0, 0};
			if (dst == TF::B8G8R8 || dst == TF::R8G8B8) e[3] = 255;
			if (dst == TF::R5G6B5) { e[3] = 255; tol = {5, 3, 5, 0}; }
			if (src[l] == TF::R5G6B5 || is_dxt(src[l])) for (auto& q : tol) q += 1;
			if (is_dxt(dst)) {
				// a block keeps every colour within the spread of its colours
				int lo[4] = {255, 255, 255, 255}, hi[4] = {0, 0, 0, 0};
				bool transparent = false;
				for (u32 yy = y / 4 * 4; yy < std::min(h, y / 4 * 4 + 4); ++yy) for (u32 xx = x / 4 * 4; xx < std::min(w, x / 4 * 4 + 4); ++xx) {
					auto o = pixel(src[l], img[l], w, xx, yy, m.pal);
					for (int q = 0; q < 4; ++q) { lo[q] = std::min(lo[q], o[static_cast<size_t>(q)]); hi[q] = std::max(hi[q], o[static_cast<size_t>(q)]); }
					if (o[3] < 129) transparent = true;
				}
				int spread = 0;
				for (int q = 0; q < 3; ++q) spread = std::max(spread, hi[q] - lo[q]);
				tol = {spread + 12, spread + 12, spread + 12, dst == TF::DXT3 ? 10 : (hi[3] - lo[3]) / 7 + 3};
				if (dst == TF::DXT1) { if (transparent) continue; tol[3] = 255; }
				else if (spread > 80 || lo[3] == 0) { tol[0] = tol[1] = tol[2] = 255; }
			}
			for (size_t q = 0; q < 4; ++q) {
				int g = px[(static_cast<size_t>(y) * w + x) * 4 + q];
				VP_CHECK(std::abs(g - e[q]) <= tol[q], "build:pixel:" + key, "%ux%u level %u (%u,%u) channel %zu: %d instead of %d", m.w, m.h, l, x, y, q, g, e[q]);
			}
		}
		count("levels converted");
		count("built " + fn(dst));
	}
	// a built texture can be stored like any other
	RefTex k;
	k.f = dst; k.w = m.w; k.h = m.h; k.rw = m.w; k.rh = m.h; k.avg = t.average_color();
	for (u32 l = 0; l < m.level.size(); ++l) k.level.push_back(t.data(l));
	RefWriter o;
	k.encode(o);
	Bytes saved;
	auto w = Write::to(&saved);
	t.save(w.get());
	VP_CHECK(saved == o.bytes(), "build:save:" + fn(dst), "the saved bytes differ from the format");
	auto s = mem(saved);
	Texture t2;
	t2.load(s.get());
	same_header(t2, k, "build:reload");
	check_dds(t, k);
	state(fnv(fmt("b %s %s %u %u %zu", fn(src[0]).c_str(), fn(dst).c_str(), m.w, m.h, m.level.size())));
}

void vp_case(Rng& r, u64 n) {
	if (n % 2) built(r, n); else stored(r, n);
}
