// C31: vectors, quaternions, colours, matrices, boxes, equality operators and case-insensitive comparison, against their definitions.
#include "common.hh"

#include <zenkit/Boxes.hh>
#include <zenkit/Date.hh>
#include <zenkit/Font.hh>
#include <zenkit/Mesh.hh>
#include <zenkit/Misc.hh>
#include <zenkit/ModelAnimation.hh>
#include <zenkit/vobs/Trigger.hh>

using namespace vp;
using namespace zenkit;

static bool same(float a, float b) { return std::memcmp(&a, &b, 4) == 0 || (std::isnan(a) && std::isnan(b)); }

// a value on the heap, so that any element outside of it is seen by the sanitizer
template <class V, size_t N>
static void vec(Rng& r, char const* what, std::array<float V::*, N> const& part) {
	auto p = std::make_unique<V>();
	for (size_t k = 0; k < N; ++k) VP_CHECK((*p).*part[k] == 0, std::string {"default:"} + what, "component %zu is %g", k, double((*p).*part[k]));
	std::array<float, N> m {};
	for (size_t k = 0; k < N; ++k) { m[k] = r.f(); (*p).*part[k] = m[k]; }
	V const& c = *p;
	for (u32 k = 0; k < N; ++k) {
		VP_CHECK(same((*p)[k], m[k]) && same(c[k], m[k]), std::string {"index:"} + what, "[%u] is %g instead of %g", k, double(c[k]), double(m[k]));
		VP_CHECK(same(p->pointer()[k], m[k]) && same(c.pointer()[k], m[k]), std::string {"pointer:"} + what, "element %u", k);
	}
	// writing through an index changes that component and no other
	for (int t = 0; t < 4; ++t) {
		auto k = r.below(N);
		m[k] = r.f();
		if (r.flip()) (*p)[k] = m[k]; else p->pointer()[k] = m[k];
		for (size_t j = 0; j < N; ++j) VP_CHECK(same((*p).*part[j], m[j]), std::string {"store:"} + what, "storing %u: component %zu is %g instead of %g", k, j, double((*p).*part[j]), double(m[j]));
	}
	// equality: component by component
	auto q = std::make_unique<V>(*p);
	VP_CHECK(*p == *q && !(*p != *q), std::string {"equal:"} + what, "a copy is not equal");
	auto k = r.below(N);
	float nv = r.f();
	(*q).*part[k] = nv;
	VP_CHECK((*p == *q) == (nv == m[k]) && (*q == *p) == (nv == m[k]), std::string {"equal:"} + what, "component %u: %g and %g", k, double(m[k]), double(nv));
	(*q).*part[k] = std::nanf("");
	VP_CHECK(!(*p == *q), std::string {"equal:"} + what, "equal to NaN");
	count("vectors compared");
	state(fnv(m.data(), sizeof m));
}

template <class V, size_t N>
static void scaled(Rng& r, char const* what) {
	V a, b;
	float s = r.f();
	for (u32 k = 0; k < N; ++k) { a[k] = r.f(); b[k] = r.f(); }
	V x = a * s, y = a * b;
	for (u32 k = 0; k < N; ++k) {
		VP_CHECK(same(x[k], a[k] * s), std::string {"scale:"} + what, "%u: %g", k, double(x[k]));
		VP_CHECK(same(y[k], a[k] * b[k]), std::string {"multiply:"} + what, "%u: %g", k, double(y[k]));
	}
	float f = r.f();
	V e {f};
	for (u32 k = 0; k < N; ++k) VP_CHECK(same(e[k], f), std::string {"fill:"} + what, "%u: %g", k, double(e[k]));
	count("products compared");
}

template <class M, class V, u32 N>
static void matrix(Rng& r, char const* what) {
	auto a = std::make_unique<M>();
	float m[N][N];
	for (u32 i = 0; i < N; ++i) for (u32 j = 0; j < N; ++j) {
		VP_CHECK((*a)[i][j] == 0, std::string {"default:"} + what, "%u %u", i, j);
		(*a)[i][j] = m[i][j] = r.f();
	}
	M const& c = *a;
	M t = c.transpose(), tt = t.transpose();
	for (u32 i = 0; i < N; ++i) for (u32 j = 0; j < N; ++j) {
		VP_CHECK(same(c[i][j], m[i][j]) && same(c.pointer()[i * N + j], m[i][j]) && same(c.columns[i][j], m[i][j]), std::string {"index:"} + what, "%u %u", i, j);
		VP_CHECK(same(t[j][i], m[i][j]), std::string {"transpose:"} + what, "%u %u: %g instead of %g", j, i, double(t[j][i]), double(m[i][j]));
		VP_CHECK(same(tt[i][j], m[i][j]), std::string {"transpose:"} + what, "twice: %u %u", i, j);
		VP_CHECK(M::identity()[i][j] == (i == j ? 1.0f : 0.0f), std::string {"identity:"} + what, "%u %u", i, j);
	}
	auto b = std::make_unique<M>(*a);
	VP_CHECK(*a == *b, std::string {"equal:"} + what, "a copy is not equal");
	auto i = r.below(N), j = r.below(N);
	float nv = r.f();
	(*b)[i][j] = nv;
	VP_CHECK((*a == *b) == (nv == m[i][j]) && (*b == *a) == (nv == m[i][j]), std::string {"equal:"} + what, "%u %u", i, j);
	b->pointer()[i * N + j] = m[i][j];
	VP_CHECK(*a == *b, std::string {"pointer:"} + what, "%u %u", i, j);
	count("matrices compared");
	state(fnv(m, sizeof m));
}

static void colors(Rng& r) {
	auto p = std::make_unique<Color>();
	VP_CHECK(p->r == 0 && p->g == 0 && p->b == 0 && p->a == 0, "default:colour", "not zero");
	std::array<u8, 4> m, n;
	for (auto& x : m) x = static_cast<u8>(r.next());
	for (auto& x : n) x = static_cast<u8>(r.next());
	*p = Color {m[0], m[1], m[2], m[3]};
	Color const& c = *p;
	Color o {n[0], n[1], n[2], n[3]}, x = c * o, y = c * n[0];
	VP_CHECK(p->r == m[0] && p->g == m[1] && p->b == m[2] && p->a == m[3], "construct:colour", "wrong order");
	for (u32 k = 0; k < 4; ++k) {
		VP_CHECK((*p)[k] == m[k] && c[k] == m[k] && c.pointer()[k] == m[k], "index:colour", "%u", k);
		VP_CHECK(x[k] == static_cast<u8>(m[k] * n[k]), "multiply:colour", "%u", k);
		VP_CHECK(y[k] == static_cast<u8>(m[k] * n[0]), "scale:colour", "%u", k);
	}
	VP_CHECK((c == o) == (m == n), "equal:colour", "two colours");
	Color z = c;
	VP_CHECK(c == z, "equal:colour", "a copy");
	auto k = r.below(4);
	z[k] = n[k];
	VP_CHECK((c == z) == (n[k] == m[k]), "equal:colour", "component %u", k);
	count("colours compared");
}

static void boxes(Rng& r) {
	OrientedBoundingBox b {};
	double c[3], ax[3][3], h[3];
	bool orth = r.flip();
	for (u32 k = 0; k < 3; ++k) {
		b.center[k] = static_cast<float>(r.range(-1000000, 1000000)) / 64.f;
		b.half_width[k] = r.chance(10) ? 0.f : static_cast<float>(r.range(0, 1000000)) / 64.f;
		for (u32 j = 0; j < 3; ++j) b.axes[k][j] = orth ? (j == (k + r.below(1)) % 3 ? (r.flip() ? 1.f : -1.f) : 0.f) : static_cast<float>(r.range(-1000, 1000)) / 1000.f;
	}
	if (r.chance(20)) b.children.resize(r.below(3));
	for (u32 k = 0; k < 3; ++k) { c[k] = b.center[k]; h[k] = b.half_width[k]; for (u32 j = 0; j < 3; ++j) ax[k][j] = b.axes[k][j]; }
	auto box = b.as_bbox();
	double scale = 0;
	for (u32 k = 0; k < 3; ++k) { scale = std::max(scale, std::abs(c[k])); scale += 2 * h[k]; }
	double const tol = 1e-5 * scale + 1e-6;
	for (u32 j = 0; j < 3; ++j) {
		double e = 0;
		for (u32 k = 0; k < 3; ++k) e += std::abs(ax[k][j] * h[k]);
		VP_CHECK(std::abs(box.min[j] - (c[j] - e)) <= tol && std::abs(box.max[j] - (c[j] + e)) <= tol, "enclosing-box", "%u: [%g,%g] instead of [%g,%g]", j, double(box.min[j]), double(box.max[j]), c[j] - e, c[j] + e);
	}
	auto z = AxisAlignedBoundingBox::zero();
	VP_CHECK(z.min == Vec3 {} && z.max == Vec3 {}, "zero-box", "not zero");
	// boxes and dates through a stream
	Bytes out;
	Date d {r.u(), static_cast<u16>(r.u()), static_cast<u16>(r.u()), static_cast<u16>(r.u()), static_cast<u16>(r.u()), static_cast<u16>(r.u())};
	{
		auto w = Write::to(&out);
		box.save(w.get());
		b.save(w.get());
		d.save(w.get());
		w->write_uint(0x12345678);
	}
	auto rd = Read::from(&out);
	AxisAlignedBoundingBox l;
	OrientedBoundingBox lb;
	Date ld;
	l.load(rd.get());
	lb.load(rd.get());
	ld.load(rd.get());
	VP_CHECK(l.min == box.min && l.max == box.max, "stored-box", "differs");
	VP_CHECK(lb.center == b.center && lb.axes[0] == b.axes[0] && lb.axes[1] == b.axes[1] && lb.axes[2] == b.axes[2] && lb.half_width == b.half_width && lb.children.size() == b.children.size(), "stored-oriented-box", "differs");
	VP_CHECK(ld.year == d.year && ld.month == d.month && ld.day == d.day && ld.hour == d.hour && ld.minute == d.minute && ld.second == d.second, "stored-date", "differs");
	VP_CHECK(rd->read_uint() == 0x12345678, "stored-size", "more or less was read than written");
	count("boxes compared");
}

// equality operators of composed values: true exactly if every part is equal
static void parts(Rng& r) {
	{
		auto mk = [&](int change) {
			PolygonFlagSet s {};
			s.is_portal = 1; s.is_outdoor = 1; s.sector_index = -5; s.normal_axis = 2;
			switch (change) {
			case 0: s.is_portal = static_cast<u8>(r.pick<int>({0, 2, 3}) & 3); break;
			case 1: s.is_occluder = 1; break;
			case 2: s.is_sector = 1; break;
			case 3: s.should_relight = 1; break;
			case 4: s.is_outdoor = 0; break;
			case 5: s.is_ghost_occluder = 1; break;
			case 6: s.is_dynamically_lit = 1; break;
			case 7: s.sector_index = static_cast<std::int16_t>(r.range(-4, 32767)); break;
			case 8: s.is_lod = 1; break;
			case 9: s.normal_axis = static_cast<u8>(r.pick<int>({0, 1, 3}) & 3); break;
			default: break;
			}
			return s;
		};
		VP_CHECK(mk(-1) == mk(-1), "equal:polygon-flags", "same");
		int k = static_cast<int>(r.below(10));
		VP_CHECK(!(mk(k) == mk(-1)) && !(mk(-1) == mk(k)), "equal:polygon-flags", "field %d is not compared", k);
	}
	{
		FontGlyph a {static_cast<u8>(r.below(255)), {Vec2 {r.f(), r.f()}, Vec2 {r.f(), r.f()}}}, b = a;
		VP_CHECK(a == b, "equal:glyph", "same");
		switch (r.below(3)) {
		case 0: b.width++; break;
		case 1: b.uv[0][r.below(2)] = 12345.75f; break;
		default: b.uv[1][r.below(2)] = 12345.75f; break;
		}
		bool eq = a.width == b.width && a.uv[0] == b.uv[0] && a.uv[1] == b.uv[1];
		VP_CHECK((a == b) == eq && (b == a) == eq, "equal:glyph", "a part is not compared");
	}
	{
		AnimationSample a {Vec3 {r.f(), r.f(), r.f()}, Quat {r.f(), r.f(), r.f(), r.f()}}, b = a;
		VP_CHECK(a == b, "equal:sample", "same");
		if (r.flip()) b.position[r.below(3)] = 12345.75f; else b.rotation[r.below(4)] = 12345.75f;
		bool eq = a.position == b.position && a.rotation == b.rotation;
		VP_CHECK((a == b) == eq && (b == a) == eq, "equal:sample", "a part is not compared");
	}
	{
		VTriggerList::Target a {r.name(), r.f()}, b = a;
		VP_CHECK(a == b, "equal:target", "same");
		if (r.flip()) b.name += "x"; else b.delay = 12345.75f;
		bool eq = a.name == b.name && a.delay == b.delay;
		VP_CHECK((a == b) == eq && (b == a) == eq, "equal:target", "a part is not compared");
	}
	count("composed values compared");
}

// ---------------------------------------------------------------- case-insensitive comparison
static std::string fold(std::string const& s) { // as in the "C" locale: only letters of ASCII have a case
	std::string o;
	for (char c : s) o.push_back(c >= 'A' && c <= 'Z' ? static_cast<char>(c + 32) : c);
	return o;
}
static void strings(Rng& r) {
	auto str = [&](u32 n) {
		std::string s;
		int mode = static_cast<int>(r.below(4));
		for (u32 k = r.below(n); k > 0; --k) s.push_back(mode == 0 ? static_cast<char>(r.next()) : mode == 1 ? r.pick<char>({'a', 'A', 'b', 'B', '[', '@', '`', '{', '\0'}) : "ABCxyz_019.- \xC4\xE4\xFF"[r.below(16)]);
		return s;
	};
	auto variant = [&](std::string s) {
		for (auto& c : s) if (r.flip()) { if (c >= 'a' && c <= 'z') c = static_cast<char>(c - 32); else if (c >= 'A' && c <= 'Z') c = static_cast<char>(c + 32); }
		return s;
	};
	u32 const len = r.chance(2) ? 3000 : 12;
	std::vector<std::string> v;
	for (int k = 0; k < 3; ++k) v.push_back(str(len));
	v.push_back(variant(v[0]));
	v.push_back(v[0] + str(3));
	if (!v[0].empty()) v.push_back(variant(v[0].substr(0, r.below(static_cast<u32>(v[0].size())))));
	auto w = v[0];
	if (!w.empty()) { auto& c = w[r.below(static_cast<u32>(w.size()))]; c = static_cast<char>(r.flip() ? c ^ 0x20 : r.next()); v.push_back(w); }
	for (auto& a : v) for (auto& b : v) {
		// exact copies on the heap: nothing outside of the views may be looked at
		std::vector<char> x(a.begin(), a.end()), y(b.begin(), b.end());
		std::string_view xa {x.data(), x.size()}, yb {y.data(), y.size()};
		auto fa = fold(a), fb = fold(b);
		VP_CHECK(iequals(xa, yb) == (fa == fb), "iequals", "'%s' and '%s'", esc(a).c_str(), esc(b).c_str());
		bool l = icompare(xa, yb), g = icompare(yb, xa);
		VP_CHECK(!(l && g), "icompare:both", "'%s' and '%s'", esc(a).c_str(), esc(b).c_str());
		VP_CHECK((!l && !g) == (fa == fb), "icompare:equal", "'%s' and '%s'", esc(a).c_str(), esc(b).c_str());
		bool ascii = true;
		for (char c : fa + fb) ascii = ascii && static_cast<u8>(c) < 0x80;
		if (ascii) VP_CHECK(l == (fa < fb), "icompare:order", "'%s' and '%s'", esc(a).c_str(), esc(b).c_str());
		count("string pairs compared");
		// a strict weak order: transitive
		for (auto& c : v) if (l && icompare(b, c)) VP_CHECK(icompare(a, c), "icompare:transitive", "'%s' '%s' '%s'", esc(a).c_str(), esc(b).c_str(), esc(c).c_str());
	}
	state(fnv(v[0].data(), v[0].size()));
}

void vp_init() {}
void vp_case(Rng& r, u64) {
	vec<Vec2, 2>(r, "vec2", {&Vec2::x, &Vec2::y});
	vec<Vec3, 3>(r, "vec3", {&Vec3::x, &Vec3::y, &Vec3::z});
	vec<Vec4, 4>(r, "vec4", {&Vec4::x, &Vec4::y, &Vec4::z, &Vec4::w});
	vec<Quat, 4>(r, "quat", {&Quat::x, &Quat::y, &Quat::z, &Quat::w});
	Quat q {1, 2, 3, 4};
	VP_CHECK(q.w == 1 && q.x == 2 && q.y == 3 && q.z == 4, "construct:quat", "wrong order");
	scaled<Vec2, 2>(r, "vec2");
	scaled<Vec3, 3>(r, "vec3");
	scaled<Vec4, 4>(r, "vec4");
	matrix<Mat3, Vec3, 3>(r, "mat3");
	matrix<Mat4, Vec4, 4>(r, "mat4");
	colors(r);
	boxes(r);
	parts(r);
	strings(r);
}
