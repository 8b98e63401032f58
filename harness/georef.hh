// Independent generators, encoders and dumps of the chunked geometry formats. The library's plain data structures are
// used as the model; nothing here calls the library's load or save functions.
#pragma once
#include "fields.hh"
#include "texref.hh"
#include <zenkit/Mesh.hh>
#include <zenkit/Model.hh>
#include <zenkit/ModelAnimation.hh>
#include <zenkit/ModelHierarchy.hh>
#include <zenkit/ModelMesh.hh>
#include <zenkit/MorphMesh.hh>
#include <zenkit/MultiResolutionMesh.hh>
#include <zenkit/SoftSkinMesh.hh>
#include <zenkit/world/BspTree.hh>

namespace vp {
	namespace zk = zenkit;

	// ------------------------------------------------------------------ output
	// Writes chunks; with `noise`, adds chunks of unknown type and surplus bytes at the end of known ones.
	struct Chunks {
		RefWriter w;
		Rng* noise = nullptr;
		u64 unknown = 0, surplus = 0;
		template <class F> void chunk(u32 type, F f, bool may_grow = true) {
			if (noise && noise->chance(25)) {
				u32 t = noise->pick<u32>({0x0000, 0x1234, 0xB0FF, 0xB0B0, 0xC0C0, 0xD0D0, 0xE0E0, 0xFFFF, 0xA0A0});
				u32 n = noise->below(3) ? noise->below(40) : noise->below(2000);
				w.u16_(t); w.u32_(n);
				for (u32 k = 0; k < n; ++k) w.u8_(static_cast<u32>(noise->next()));
				++unknown;
			}
			w.u16_(type);
			size_t at = w.size();
			w.u32_(0);
			f();
			if (noise && may_grow && noise->chance(30)) {
				u32 n = 1 + noise->below(30);
				for (u32 k = 0; k < n; ++k) w.u8_(static_cast<u32>(noise->next()));
				++surplus;
			}
			w.patch32(at, static_cast<u32>(w.size() - at - 4));
		}
		void v2(zk::Vec2 const& v) { w.f32_(v.x); w.f32_(v.y); }
		void v3(zk::Vec3 const& v) { w.f32_(v.x); w.f32_(v.y); w.f32_(v.z); }
		void bb(zk::AxisAlignedBoundingBox const& b) { v3(b.min); v3(b.max); }
		void obb(zk::OrientedBoundingBox const& b) {
			v3(b.center); v3(b.axes[0]); v3(b.axes[1]); v3(b.axes[2]); v3(b.half_width);
			w.u16_(static_cast<u32>(b.children.size()));
			for (auto& c : b.children) obb(c);
		}
		void date(zk::Date const& d) { w.u32_(d.year); w.u16_(d.month); w.u16_(d.day); w.u16_(d.hour); w.u16_(d.minute); w.u16_(d.second); w.u16_(0); }
	};

	// ------------------------------------------------------------------ dump
	struct Dump {
		std::string o;
		static std::string f(float v) { return Vis::fs(v); }
		static std::string v(zk::Vec2 const& a) { return f(a.x) + " " + f(a.y); }
		static std::string v(zk::Vec3 const& a) { return f(a.x) + " " + f(a.y) + " " + f(a.z); }
		static std::string bb(zk::AxisAlignedBoundingBox const& b) { return v(b.min) + " " + v(b.max); }
		void l(std::string const& n, std::string const& x) { o += n + "=" + x + "\n"; }
		void l(std::string const& n, u64 x) { l(n, std::to_string(x)); }
		template <class T> void list(std::string const& n, std::vector<T> const& x) {
			std::string s = "(" + std::to_string(x.size()) + ")";
			for (auto& q : x) { s += " "; if constexpr (std::is_floating_point_v<T>) s += f(q); else if constexpr (std::is_integral_v<T>) s += std::to_string(q); else s += v(q); }
			l(n, s);
		}
		void obb(std::string const& n, zk::OrientedBoundingBox const& b) {
			l(n, v(b.center) + " " + v(b.axes[0]) + " " + v(b.axes[1]) + " " + v(b.axes[2]) + " " + v(b.half_width) + " " + std::to_string(b.children.size()));
			for (size_t k = 0; k < b.children.size(); ++k) obb(n + ".c" + std::to_string(k), b.children[k]);
		}
		void date(std::string const& n, zk::Date const& d) { l(n, fmt("%u %u %u %u %u %u", d.year, d.month, d.day, d.hour, d.minute, d.second)); }
		void material(std::string const& n, zk::Material const& m, GameVersion v) {
			Cfg c; c.v = v;
			Vis q(Vis::DUMP, c);
			q.path = n + ".";
			auto copy = m;
			q.material(copy);
			o += q.out;
		}
	};

	// ------------------------------------------------------------------ random values
	inline zk::Vec2 rv2(Rng& r) { float a = r.f(), b = r.f(); return {a, b}; }
	inline zk::Vec3 rv3(Rng& r) { float a = r.f(), b = r.f(), c = r.f(); return {a, b, c}; }
	inline zk::AxisAlignedBoundingBox rbb(Rng& r) { zk::AxisAlignedBoundingBox b; b.min = rv3(r); b.max = rv3(r); return b; }
	inline zk::OrientedBoundingBox robb(Rng& r, u32 depth) {
		zk::OrientedBoundingBox b;
		b.center = rv3(r); for (auto& a : b.axes) a = rv3(r);
		b.half_width = rv3(r);
		if (depth) { u32 n = r.below(3); for (u32 k = 0; k < n; ++k) b.children.push_back(robb(r, depth - 1)); }
		return b;
	}
	inline zk::Date rdate(Rng& r) {
		zk::Date d {};
		d.year = r.u(); d.month = static_cast<u16>(r.u()); d.day = static_cast<u16>(r.u()); d.hour = static_cast<u16>(r.u()); d.minute = static_cast<u16>(r.u()); d.second = static_cast<u16>(r.u());
		return d;
	}
	// a line of a binary file: anything without line ends and terminators
	inline std::string rline(Rng& r) {
		switch (r.below(5)) {
		case 0: return "";
		case 1: return r.pick<char const*>({" ", " LEADING", "TRAILING ", "A B", "\tTAB", "x\xe4\xf6", "%s%n", "0"});
		case 2:
			if (r.chance(12)) return r.name(r.pick<u32>({33, 65, 100, 129, 260, 600}), true);
			[[fallthrough]];
		default: return r.name(20, true);
		}
	}
	inline zk::Material rmat(Rng& r, GameVersion v) {
		Cfg c; c.v = v;
		Vis q(Vis::FILL, c, &r);
		zk::Material m;
		q.material(m);
		return m;
	}
	// a list length
	inline u32 rn(Rng& r, u32 small = 5) { return r.chance(5) ? 40 + r.below(200) : r.chance(10) ? r.below(36) : r.below(small + 1); }
	// a list length which may need more than 16 bits, in the cases which allow for it
	inline thread_local int vast = 0;
	inline u32 hn(Rng& r, u32 small = 5) { if (vast > 0 && r.chance(30)) { --vast; return 65530 + r.below(3000); } return rn(r, small); }
	// a list length where the elements are big; `rare` bounds the unusual ones
	inline u32 rc(Rng& r, u32 below, u32 rare) { return r.chance(4) ? r.below(rare) : r.below(below); }
	template <class T, class F> std::vector<T> rlist(u32 n, F f) { std::vector<T> v; for (u32 k = 0; k < n; ++k) v.push_back(f()); return v; }

	// materials: a binary archive inside the chunk
	template <class It, class Get> void enc_materials(RefWriter& w, GameVersion v, bool counted, It b, It e, Get get) {
		RefArchive ar(ArchiveFormat::BINARY, false);
		if (counted) ar.w.u32_(static_cast<u32>(e - b));
		Cfg c; c.v = v;
		for (; b != e; ++b) {
			zk::Material m = get(*b);
			ar.w.str0(m.name);
			ar.begin("%", "zCMaterial", v == GameVersion::GOTHIC_1 ? 17408 : 39939);
			Vis q(Vis::ENC, c);
			q.ar = &ar;
			q.material(m);
			ar.end();
		}
		w.raw(ar.finish());
	}

	// ------------------------------------------------------------------ world mesh
	inline std::shared_ptr<zk::Texture> rtexture(Rng& r, RefTex& m) {
		m.fill(r, 6);
		RefWriter w;
		m.encode(w);
		auto b = w.bytes();
		auto s = mem(b);
		auto t = std::make_shared<zk::Texture>();
		t->load(s.get()); // C16 decides textures; here they are cargo
		return t;
	}
	inline Bytes tex_bytes(zk::Texture const& t) { Bytes b; auto w = zk::Write::to(&b); t.save(w.get()); return b; }

	inline void fill_mesh(Rng& r, zk::Mesh& m, GameVersion v, bool wide) {
		bool g2 = v == GameVersion::GOTHIC_2;
		m.date = rdate(r);
		m.name = rline(r);
		m.bbox = rbb(r);
		m.obb = robb(r, r.below(4));
		m.materials = rlist<zk::Material>(rc(r, 4, 60), [&] { return rmat(r, v); });
		m.vertices = rlist<zk::Vec3>(hn(r), [&] { return rv3(r); });
		m.features = rlist<zk::VertexFeature>(hn(r), [&] { zk::VertexFeature f; f.texture = rv2(r); f.light = r.u(); f.normal = rv3(r); return f; });
		std::vector<std::shared_ptr<zk::Texture>> tex;
		for (u32 k = rc(r, 3, 50); k > 0; --k) { RefTex t; tex.push_back(rtexture(r, t)); }
		if (!tex.empty()) m.lightmaps = rlist<zk::LightMap>(rn(r, 4), [&] { zk::LightMap l; l.image = r.pick(tex); l.normals[0] = rv3(r); l.normals[1] = rv3(r); l.origin = rv3(r); return l; });
		u32 n = hn(r, 8);
		for (u32 k = 0; k < n; ++k) {
			zk::Polygon p {};
			p.material = static_cast<u16>(r.u());
			p.lightmap = static_cast<std::int16_t>(r.u());
			p.plane_distance = r.f();
			p.plane_normal = rv3(r);
			auto& f = p.flags;
			f.is_portal = r.chance(60) ? 0 : r.below(4);
			f.is_occluder = r.flip(); f.is_sector = r.flip();
			f.is_outdoor = r.chance(20); f.is_ghost_occluder = r.chance(20);
			if (g2) { f.should_relight = r.flip(); f.is_dynamically_lit = r.flip(); }
			else { f.is_lod = r.flip(); f.normal_axis = r.below(4); }
			f.sector_index = static_cast<std::int16_t>(r.u());
			p.index_count = r.chance(3) ? 255 : r.chance(4) ? r.below(256) : r.below(7);
			p.index_offset = m.polygon_vertex_indices.size();
			for (size_t q = 0; q < p.index_count; ++q) {
				m.polygon_vertex_indices.push_back(g2 || wide ? r.u() : r.u() & 0xffff);
				m.polygon_feature_indices.push_back(r.u());
			}
			m.geometry.push_back(p);
		}
	}
	inline void enc_mesh(Chunks& c, zk::Mesh const& m, GameVersion v, bool wide, bool shared) {
		bool g2 = v == GameVersion::GOTHIC_2;
		auto& w = c.w;
		c.chunk(0xB000, [&] { w.u16_(g2 ? 265 : 9); c.date(m.date); w.line(m.name); });
		c.chunk(0xB010, [&] { c.bb(m.bbox); c.obb(m.obb); });
		c.chunk(0xB020, [&] { enc_materials(w, v, true, m.materials.begin(), m.materials.end(), [](zk::Material const& x) { return x; }); });
		if (shared) c.chunk(0xB026, [&] {
			std::vector<zk::Texture*> order;
			for (auto& l : m.lightmaps) if (std::find(order.begin(), order.end(), l.image.get()) == order.end()) order.push_back(l.image.get());
			w.u32_(static_cast<u32>(order.size()));
			for (auto* t : order) w.raw(tex_bytes(*t));
			w.u32_(static_cast<u32>(m.lightmaps.size()));
			for (auto& l : m.lightmaps) {
				c.v3(l.origin); c.v3(l.normals[0]); c.v3(l.normals[1]);
				w.u32_(static_cast<u32>(std::find(order.begin(), order.end(), l.image.get()) - order.begin()));
			}
		});
		else c.chunk(0xB025, [&] {
			w.u32_(static_cast<u32>(m.lightmaps.size()));
			for (auto& l : m.lightmaps) { c.v3(l.origin); c.v3(l.normals[0]); c.v3(l.normals[1]); w.raw(tex_bytes(*l.image)); }
		});
		c.chunk(0xB030, [&] { w.u32_(static_cast<u32>(m.vertices.size())); for (auto& x : m.vertices) c.v3(x); });
		c.chunk(0xB040, [&] { w.u32_(static_cast<u32>(m.features.size())); for (auto& x : m.features) { c.v2(x.texture); w.u32_(x.light); c.v3(x.normal); } });
		c.chunk(0xB050, [&] {
			w.u32_(static_cast<u32>(m.geometry.size()));
			for (auto& p : m.geometry) {
				w.u16_(p.material); w.u16_(static_cast<u32>(p.lightmap)); w.f32_(p.plane_distance); c.v3(p.plane_normal);
				auto& f = p.flags;
				u32 common = f.is_portal | f.is_occluder << 2 | f.is_sector << 3 | f.is_outdoor << 5 | f.is_ghost_occluder << 6;
				if (g2) w.u8_(common | f.should_relight << 4 | f.is_dynamically_lit << 7);
				else { w.u8_(common | f.is_lod << 4 | (f.normal_axis & 1) << 7); w.u8_(f.normal_axis >> 1); }
				w.u16_(static_cast<u32>(f.sector_index));
				w.u8_(static_cast<u32>(p.index_count));
				for (size_t q = 0; q < p.index_count; ++q) {
					u32 i = m.polygon_vertex_indices[p.index_offset + q];
					if (g2 || wide) w.u32_(i); else w.u16_(i);
					w.u32_(m.polygon_feature_indices[p.index_offset + q]);
				}
			}
		});
		c.chunk(0xB060, [] {});
	}
	inline std::string flags_str(zk::PolygonFlagSet const& f) {
		return fmt("%d %d %d %d %d %d %d %d %d %d", f.is_portal, f.is_occluder, f.is_sector, f.should_relight, f.is_outdoor, f.is_ghost_occluder, f.is_dynamically_lit, f.sector_index, f.is_lod, f.normal_axis);
	}
	// `image_ids`: which light maps share an image
	inline void dump_mesh(Dump& d, zk::Mesh const& m, GameVersion v, bool image_ids) {
		d.date("date", m.date); d.l("name", esc(m.name, 1000)); d.l("bbox", Dump::bb(m.bbox)); d.obb("obb", m.obb);
		d.l("materials", m.materials.size());
		for (auto& x : m.materials) d.material("material", x, v);
		d.list("vertices", m.vertices);
		d.l("features", m.features.size());
		for (auto& f : m.features) d.l("feature", Dump::v(f.texture) + fmt(" %u ", f.light) + Dump::v(f.normal));
		d.l("lightmaps", m.lightmaps.size());
		std::vector<zk::Texture*> ids;
		for (auto& l : m.lightmaps) {
			auto it = std::find(ids.begin(), ids.end(), l.image.get());
			size_t id = static_cast<size_t>(it - ids.begin());
			if (it == ids.end()) ids.push_back(l.image.get());
			auto b = l.image ? tex_bytes(*l.image) : Bytes();
			d.l("lightmap", Dump::v(l.origin) + " " + Dump::v(l.normals[0]) + " " + Dump::v(l.normals[1]) + fmt(" %zu %016lx", image_ids ? id : 0, static_cast<unsigned long>(fnv(b.data(), b.size()))));
		}
		d.l("geometry", m.geometry.size());
		for (auto& p : m.geometry) {
			std::string s;
			for (size_t q = 0; q < p.index_count && p.index_offset + q < m.polygon_vertex_indices.size(); ++q) s += fmt(" %u/%u", m.polygon_vertex_indices[p.index_offset + q], m.polygon_feature_indices[p.index_offset + q]);
			d.l("polygon", fmt("%u %d ", p.material, p.lightmap) + Dump::f(p.plane_distance) + " " + Dump::v(p.plane_normal) + " [" + flags_str(p.flags) + fmt("] %zu:", p.index_count) + s);
		}
		d.l("index list sizes", m.polygon_vertex_indices.size() * 1000000 + m.polygon_feature_indices.size());
	}
	// the triangle list
	inline void dump_triangles(Dump& d, zk::PolygonList const& l) {
		d.list("tri.material", l.material_indices); d.list("tri.lightmap", l.lightmap_indices); d.list("tri.vertex", l.vertex_indices); d.list("tri.feature", l.feature_indices);
		std::string s;
		for (auto& f : l.flags) s += flags_str(f) + ";";
		d.l("tri.flags", s);
	}
	inline zk::PolygonList triangles(zk::Mesh const& m, std::set<u32> const& leaf) {
		zk::PolygonList o;
		for (u32 i : leaf) {
			if (i >= m.geometry.size()) continue;
			auto& p = m.geometry[i];
			if (p.flags.is_portal != 0 || p.flags.is_ghost_occluder || p.flags.is_outdoor) continue;
			for (size_t t = 0; t + 3 <= p.index_count; ++t) {
				for (size_t q : {size_t(0), t + 1, t + 2}) {
					o.vertex_indices.push_back(m.polygon_vertex_indices[p.index_offset + q]);
					o.feature_indices.push_back(m.polygon_feature_indices[p.index_offset + q]);
				}
				o.material_indices.push_back(p.material);
				o.lightmap_indices.push_back(p.lightmap);
				o.flags.push_back(p.flags);
			}
		}
		return o;
	}

	// ------------------------------------------------------------------ space partition
	inline void fill_bsp_node(Rng& r, zk::BspTree& t, i32 parent, u32 depth, bool g1) {
		i32 self = static_cast<i32>(t.nodes.size());
		{
			zk::BspNode n {};
			n.parent_index = parent;
			n.bbox = rbb(r);
			u32 np = static_cast<u32>(t.polygon_indices.size());
			n.polygon_index = r.below(np + 1);
			n.polygon_count = r.below((r.chance(10) ? np - n.polygon_index : std::min<u32>(np - n.polygon_index, 6)) + 1);
			n.plane = {};
			t.nodes.push_back(n);
		}
		u32 kids = depth == 0 ? 0 : 1 + r.below(3); // bit 0 front, bit 1 back
		if (depth && parent >= 0 && r.chance(35)) kids = 0;
		if (kids == 0) { t.leaf_node_indices.push_back(static_cast<u64>(self)); return; }
		float a = r.f(), b = r.f(), c = r.f(), e = r.f();
		auto& n = t.nodes[static_cast<size_t>(self)];
		n.plane.x = a; n.plane.y = b; n.plane.z = c; n.plane.w = e;
		if (g1) n.lod = static_cast<u8>(r.u());
		if (kids & 1) { t.nodes[static_cast<size_t>(self)].front_index = static_cast<i32>(t.nodes.size()); fill_bsp_node(r, t, self, depth - 1, g1); }
		if (kids & 2) { t.nodes[static_cast<size_t>(self)].back_index = static_cast<i32>(t.nodes.size()); fill_bsp_node(r, t, self, depth - 1, g1); }
	}
	inline void fill_bsp(Rng& r, zk::BspTree& t, GameVersion v, u32 polygons) {
		t.mode = static_cast<zk::BspTreeType>(r.below(2));
		t.polygon_indices = rlist<u32>(hn(r, 12), [&] { return polygons && r.chance(95) ? r.below(polygons) : r.u(); });
		fill_bsp_node(r, t, -1, r.below(6), v == GameVersion::GOTHIC_1);
		for (auto i : t.leaf_node_indices) {
			auto& n = t.nodes[i];
			for (u32 k = 0; k < n.polygon_count; ++k) t.leaf_polygons.push_back(t.polygon_indices[n.polygon_index + k]);
		}
		std::sort(t.leaf_polygons.begin(), t.leaf_polygons.end());
		t.light_points = rlist<zk::Vec3>(static_cast<u32>(t.leaf_node_indices.size()), [&] { return rv3(r); });
		t.sectors = rlist<zk::BspSector>(rc(r, 4, 40), [&] {
			zk::BspSector s;
			s.name = rline(r);
			s.node_indices = rlist<u32>(hn(r), [&] { return r.u(); });
			s.portal_polygon_indices = rlist<u32>(hn(r), [&] { return r.u(); });
			return s;
		});
		t.portal_polygon_indices = rlist<u32>(hn(r), [&] { return r.u(); });
	}
	inline bool bsp_leaf(zk::BspTree const& t, i32 i) { return std::find(t.leaf_node_indices.begin(), t.leaf_node_indices.end(), static_cast<u64>(i)) != t.leaf_node_indices.end(); }
	inline void enc_bsp_node(Chunks& c, zk::BspTree const& t, i32 i, bool g1) {
		auto& n = t.nodes[static_cast<size_t>(i)];
		c.bb(n.bbox); c.w.u32_(n.polygon_index); c.w.u32_(n.polygon_count);
		if (bsp_leaf(t, i)) return;
		u32 f = (n.front_index >= 0 ? 1u : 0) | (n.back_index >= 0 ? 2u : 0) | (n.front_index >= 0 && bsp_leaf(t, n.front_index) ? 4u : 0) | (n.back_index >= 0 && bsp_leaf(t, n.back_index) ? 8u : 0);
		c.w.u8_(f);
		c.w.f32_(n.plane.w); c.w.f32_(n.plane.x); c.w.f32_(n.plane.y); c.w.f32_(n.plane.z);
		if (g1) c.w.u8_(n.lod);
		if (n.front_index >= 0) enc_bsp_node(c, t, n.front_index, g1);
		if (n.back_index >= 0) enc_bsp_node(c, t, n.back_index, g1);
	}
	inline void enc_bsp(Chunks& c, zk::BspTree const& t, GameVersion v) {
		auto& w = c.w;
		auto list = [&](std::vector<u32> const& x) { for (u32 i : x) w.u32_(i); };
		c.chunk(0xC000, [&] { w.u16_(2); w.u32_(static_cast<u32>(t.mode)); });
		c.chunk(0xC010, [&] { w.u32_(static_cast<u32>(t.polygon_indices.size())); list(t.polygon_indices); });
		c.chunk(0xC040, [&] { w.u32_(static_cast<u32>(t.nodes.size())); w.u32_(static_cast<u32>(t.leaf_node_indices.size())); enc_bsp_node(c, t, 0, v == GameVersion::GOTHIC_1); });
		c.chunk(0xC045, [&] { for (auto& p : t.light_points) c.v3(p); });
		c.chunk(0xC050, [&] {
			w.u32_(static_cast<u32>(t.sectors.size()));
			for (auto& s : t.sectors) { w.line(s.name); w.u32_(static_cast<u32>(s.node_indices.size())); w.u32_(static_cast<u32>(s.portal_polygon_indices.size())); list(s.node_indices); list(s.portal_polygon_indices); }
			w.u32_(static_cast<u32>(t.portal_polygon_indices.size())); list(t.portal_polygon_indices);
		});
		c.chunk(0xC0FF, [&] { w.u8_('B'); });
	}
	inline void dump_bsp(Dump& d, zk::BspTree const& t) {
		d.l("bsp.mode", static_cast<u32>(t.mode)); d.list("bsp.polygons", t.polygon_indices); d.list("bsp.leaf_polygons", t.leaf_polygons);
		d.list("bsp.leafs", t.leaf_node_indices); d.list("bsp.light", t.light_points);
		d.l("bsp.sectors", t.sectors.size());
		for (auto& s : t.sectors) { d.l("bsp.sector", esc(s.name, 1000)); d.list("bsp.sector.nodes", s.node_indices); d.list("bsp.sector.portals", s.portal_polygon_indices); }
		d.list("bsp.portals", t.portal_polygon_indices);
		for (auto& n : t.nodes) d.l("bsp.node", fmt("%d %d %d %u %u %u %d ", n.parent_index, n.front_index, n.back_index, n.polygon_index, n.polygon_count, n.lod, n.is_leaf()) + Dump::f(n.plane.x) + " " + Dump::f(n.plane.y) + " " + Dump::f(n.plane.z) + " " + Dump::f(n.plane.w) + " " + Dump::bb(n.bbox));
	}

	// ------------------------------------------------------------------ multi-resolution mesh
	inline void fill_mrm(Rng& r, zk::MultiResolutionMesh& m, GameVersion v, u32 submeshes) {
		m.positions = rlist<zk::Vec3>(hn(r), [&] { return rv3(r); });
		m.normals = rlist<zk::Vec3>(hn(r), [&] { return rv3(r); });
		auto h = [&] { return static_cast<u16>(r.u()); };
		for (u32 k = 0; k < submeshes; ++k) {
			zk::SubMesh s;
			s.mat = rmat(r, v);
			s.triangles = rlist<zk::MeshTriangle>(hn(r), [&] { zk::MeshTriangle t; for (auto& x : t.wedges) x = h(); return t; });
			s.wedges = rlist<zk::MeshWedge>(hn(r), [&] { zk::MeshWedge w; w.normal = rv3(r); w.texture = rv2(r); w.index = h(); return w; });
			s.colors = rlist<float>(hn(r), [&] { return r.f(); });
			s.triangle_plane_indices = rlist<u16>(hn(r), h);
			s.triangle_planes = rlist<zk::MeshPlane>(hn(r), [&] { zk::MeshPlane p; p.distance = r.f(); p.normal = rv3(r); return p; });
			s.triangle_edges = rlist<zk::MeshTriangleEdge>(hn(r), [&] { zk::MeshTriangleEdge t; for (auto& x : t.edges) x = h(); return t; });
			s.edges = rlist<zk::MeshEdge>(hn(r), [&] { zk::MeshEdge t; for (auto& x : t.edges) x = h(); return t; });
			s.edge_scores = rlist<float>(hn(r), [&] { return r.f(); });
			s.wedge_map = rlist<u16>(hn(r), h);
			m.materials.push_back(s.mat);
			m.sub_meshes.push_back(std::move(s));
		}
		m.alpha_test = v == GameVersion::GOTHIC_2 ? r.flip() : 1;
		m.bbox = rbb(r);
		m.obbox = robb(r, r.below(3));
	}
	// `shuffle`: lay the sections out in random order with gaps and vertex updates, as the offsets allow
	inline void enc_mrm_section(Chunks& c, zk::MultiResolutionMesh const& m, GameVersion v, Rng* shuffle = nullptr) {
		auto& w = c.w;
		w.u16_(v == GameVersion::GOTHIC_1 ? 0x305 : shuffle && shuffle->chance(20) ? 0x805 : 0x905);
		struct Sec { std::string data; u32 count; size_t at; };
		std::vector<Sec> sec;
		auto put = [&](u32 n, auto f) { Chunks q; for (u32 k = 0; k < n; ++k) f(q, k); sec.push_back({q.w.b, n, 0}); };
		put(static_cast<u32>(m.positions.size()), [&](Chunks& q, u32 k) { q.v3(m.positions[k]); });
		put(static_cast<u32>(m.normals.size()), [&](Chunks& q, u32 k) { q.v3(m.normals[k]); });
		for (auto& s : m.sub_meshes) {
			put(static_cast<u32>(s.triangles.size()), [&](Chunks& q, u32 k) { for (u32 x : s.triangles[k].wedges) q.w.u16_(x); });
			put(static_cast<u32>(s.wedges.size()), [&](Chunks& q, u32 k) { q.v3(s.wedges[k].normal); q.v2(s.wedges[k].texture); q.w.u16_(s.wedges[k].index); q.w.u16_(0); });
			put(static_cast<u32>(s.colors.size()), [&](Chunks& q, u32 k) { q.w.f32_(s.colors[k]); });
			put(static_cast<u32>(s.triangle_plane_indices.size()), [&](Chunks& q, u32 k) { q.w.u16_(s.triangle_plane_indices[k]); });
			put(static_cast<u32>(s.triangle_planes.size()), [&](Chunks& q, u32 k) { q.w.f32_(s.triangle_planes[k].distance); q.v3(s.triangle_planes[k].normal); });
			put(static_cast<u32>(s.wedge_map.size()), [&](Chunks& q, u32 k) { q.w.u16_(s.wedge_map[k]); });
			u32 vu = shuffle ? shuffle->below(5) : 0;
			put(vu, [&](Chunks& q, u32 k) { q.w.u32_(k * 77); });
			put(static_cast<u32>(s.triangle_edges.size()), [&](Chunks& q, u32 k) { for (u32 x : s.triangle_edges[k].edges) q.w.u16_(x); });
			put(static_cast<u32>(s.edges.size()), [&](Chunks& q, u32 k) { for (u32 x : s.edges[k].edges) q.w.u16_(x); });
			put(static_cast<u32>(s.edge_scores.size()), [&](Chunks& q, u32 k) { q.w.f32_(s.edge_scores[k]); });
		}
		std::vector<size_t> order(sec.size());
		for (size_t k = 0; k < order.size(); ++k) order[k] = k;
		if (shuffle) for (size_t k = order.size(); k > 1; --k) std::swap(order[k - 1], order[shuffle->below(static_cast<u32>(k))]);
		std::string content;
		for (size_t k : order) {
			if (shuffle && shuffle->chance(30)) content.append(shuffle->below(9), '\x5a');
			sec[k].at = content.size();
			content += sec[k].data;
		}
		w.u32_(static_cast<u32>(content.size()));
		w.str(content);
		w.u8_(static_cast<u32>(m.sub_meshes.size()));
		for (auto& s : sec) { w.u32_(static_cast<u32>(s.at)); w.u32_(s.count); }
		enc_materials(w, v, false, m.sub_meshes.begin(), m.sub_meshes.end(), [](zk::SubMesh const& x) { return x.mat; });
		if (v == GameVersion::GOTHIC_2) w.u8_(m.alpha_test);
		c.bb(m.bbox); c.obb(m.obbox);
		for (int k = 0; k < 16; ++k) w.u8_(shuffle ? static_cast<u32>(shuffle->next()) : 0);
	}
	inline void enc_mrm(Chunks& c, zk::MultiResolutionMesh const& m, GameVersion v, Rng* shuffle = nullptr) {
		c.chunk(0xB100, [&] { enc_mrm_section(c, m, v, shuffle); });
		c.chunk(0xB1FF, [] {});
	}
	inline void dump_mrm(Dump& d, zk::MultiResolutionMesh const& m, GameVersion v, std::string const& p = "") {
		d.list(p + "positions", m.positions); d.list(p + "normals", m.normals);
		d.l(p + "materials", m.materials.size());
		for (auto& x : m.materials) d.material(p + "material", x, v);
		d.l(p + "submeshes", m.sub_meshes.size());
		for (auto& s : m.sub_meshes) {
			d.material(p + "sub.material", s.mat, v);
			std::string t;
			for (auto& x : s.triangles) t += fmt(" %u,%u,%u", x.wedges[0], x.wedges[1], x.wedges[2]);
			d.l(p + "sub.triangles", t);
			t.clear();
			for (auto& x : s.wedges) t += " " + Dump::v(x.normal) + "," + Dump::v(x.texture) + fmt(",%u", x.index);
			d.l(p + "sub.wedges", t);
			d.list(p + "sub.colors", s.colors); d.list(p + "sub.plane_indices", s.triangle_plane_indices);
			t.clear();
			for (auto& x : s.triangle_planes) t += " " + Dump::f(x.distance) + "," + Dump::v(x.normal);
			d.l(p + "sub.planes", t);
			t.clear();
			for (auto& x : s.triangle_edges) t += fmt(" %u,%u,%u", x.edges[0], x.edges[1], x.edges[2]);
			d.l(p + "sub.triangle_edges", t);
			t.clear();
			for (auto& x : s.edges) t += fmt(" %u,%u", x.edges[0], x.edges[1]);
			d.l(p + "sub.edges", t);
			d.list(p + "sub.edge_scores", s.edge_scores); d.list(p + "sub.wedge_map", s.wedge_map);
		}
		d.l(p + "alpha_test", m.alpha_test); d.l(p + "bbox", Dump::bb(m.bbox)); d.obb(p + "obb", m.obbox);
	}

	// ------------------------------------------------------------------ soft-skin mesh
	inline void fill_softskin(Rng& r, zk::SoftSkinMesh& m, GameVersion v) {
		fill_mrm(r, m.mesh, v, rc(r, 3, 20));
		m.weights = rlist<std::vector<zk::SoftSkinWeightEntry>>(static_cast<u32>(m.mesh.positions.size()), [&] {
			return rlist<zk::SoftSkinWeightEntry>(rc(r, 4, 20), [&] { zk::SoftSkinWeightEntry e; e.weight = r.f(); e.position = rv3(r); e.node_index = static_cast<u8>(r.u()); return e; });
		});
		m.wedge_normals = rlist<zk::SoftSkinWedgeNormal>(hn(r), [&] { zk::SoftSkinWedgeNormal n; n.normal = rv3(r); n.index = r.u(); return n; });
		u32 n = rn(r);
		m.nodes = rlist<i32>(n, [&] { return r.i(); });
		m.bboxes = rlist<zk::OrientedBoundingBox>(n, [&] { return robb(r, r.below(3)); });
	}
	inline void enc_softskin(Chunks& c, zk::SoftSkinMesh const& m, GameVersion v, Rng* shuffle = nullptr) {
		auto& w = c.w;
		c.chunk(0xE100, [&] { w.u32_(4); });
		c.chunk(0xB100, [&] { enc_mrm_section(c, m.mesh, v, shuffle); });
		c.chunk(0xB1FF, [&] {
			size_t at = w.size();
			w.u32_(0);
			for (auto& x : m.weights) { w.u32_(static_cast<u32>(x.size())); for (auto& e : x) { w.f32_(e.weight); c.v3(e.position); w.u8_(e.node_index); } }
			if (c.noise ? c.noise->chance(30) : shuffle && shuffle->chance(20)) { w.str("surplus"); ++c.surplus; }
			w.patch32(at, static_cast<u32>(w.size() - at - 4));
			w.u32_(static_cast<u32>(m.wedge_normals.size()));
			for (auto& n : m.wedge_normals) { c.v3(n.normal); w.u32_(n.index); }
			w.u16_(static_cast<u32>(m.nodes.size()));
			for (i32 n : m.nodes) w.i32_(n);
			for (auto& b : m.bboxes) c.obb(b);
		});
		c.chunk(0xE110, [] {});
	}
	inline void dump_softskin(Dump& d, zk::SoftSkinMesh const& m, GameVersion v) {
		dump_mrm(d, m.mesh, v, "skin.");
		for (auto& x : m.weights) { std::string t; for (auto& e : x) t += " " + Dump::f(e.weight) + "," + Dump::v(e.position) + fmt(",%u", e.node_index); d.l("skin.weights", t); }
		for (auto& n : m.wedge_normals) d.l("skin.wedge_normal", Dump::v(n.normal) + fmt(" %u", n.index));
		d.list("skin.nodes", m.nodes);
		for (auto& b : m.bboxes) d.obb("skin.bbox", b);
	}

	// ------------------------------------------------------------------ model mesh, hierarchy
	inline void fill_modelmesh(Rng& r, zk::ModelMesh& m, GameVersion v) {
		m.meshes = rlist<zk::SoftSkinMesh>(rc(r, 3, 14), [&] { zk::SoftSkinMesh s; fill_softskin(r, s, v); return s; });
		for (u32 k = rc(r, 4, 20); k > 0; --k) fill_mrm(r, m.attachments.emplace(r.name(r.chance(5) ? 200 : 10, true) + std::to_string(k), zk::MultiResolutionMesh {}).first->second, v, r.below(3));
		m.checksum = r.u();
	}
	inline void enc_modelmesh(Chunks& c, zk::ModelMesh const& m, GameVersion v, Rng* shuffle = nullptr) {
		auto& w = c.w;
		c.chunk(0xD000, [&] { w.u32_(0x04030506); });
		if (shuffle) c.chunk(0xD010, [&] { c.date(rdate(*shuffle)); w.line("\\_WORK\\DATA\\ANIMS\\X.ASC"); });
		std::vector<std::string> names;
		for (auto& a : m.attachments) names.push_back(a.first);
		std::sort(names.begin(), names.end());
		c.chunk(0xD020, [&] { w.u16_(static_cast<u32>(names.size())); for (auto& n : names) w.line(n); });
		for (auto& n : names) c.chunk(0xB100, [&] { enc_mrm_section(c, m.attachments.at(n), v, shuffle); });
		if (shuffle) c.chunk(0xB1FF, [] {}); // as in original files
		c.chunk(0xD030, [&] { w.u32_(m.checksum); w.u16_(static_cast<u32>(m.meshes.size())); }, false);
		for (auto& s : m.meshes) enc_softskin(c, s, v, shuffle);
		c.chunk(0xD040, [] {});
	}
	inline void dump_modelmesh(Dump& d, zk::ModelMesh const& m, GameVersion v) {
		d.l("checksum", m.checksum);
		d.l("meshes", m.meshes.size());
		for (auto& s : m.meshes) dump_softskin(d, s, v);
		std::map<std::string, zk::MultiResolutionMesh const*> a;
		for (auto& x : m.attachments) a[x.first] = &x.second;
		for (auto& x : a) { d.l("attachment", esc(x.first)); dump_mrm(d, *x.second, v, "attachment."); }
	}
	inline void fill_hierarchy(Rng& r, zk::ModelHierarchy& m) {
		m.nodes = rlist<zk::ModelHierarchyNode>(rn(r), [&] {
			zk::ModelHierarchyNode n;
			n.name = rline(r); n.parent_index = static_cast<std::int16_t>(r.u());
			for (unsigned a = 0; a < 4; ++a) for (unsigned b = 0; b < 4; ++b) n.transform[a][b] = r.f();
			return n;
		});
		m.bbox = rbb(r); m.collision_bbox = rbb(r); m.root_translation = rv3(r); m.checksum = r.u(); m.source_date = rdate(r); m.source_path = rline(r);
	}
	inline void enc_hierarchy(Chunks& c, zk::ModelHierarchy const& m) {
		auto& w = c.w;
		c.chunk(0xD100, [&] {
			w.u32_(3); w.u16_(static_cast<u32>(m.nodes.size()));
			for (auto& n : m.nodes) {
				w.line(n.name); w.u16_(static_cast<u16>(n.parent_index));
				for (unsigned row = 0; row < 4; ++row) for (unsigned col = 0; col < 4; ++col) w.f32_(n.transform[col][row]);
			}
			c.bb(m.bbox); c.bb(m.collision_bbox); c.v3(m.root_translation); w.u32_(m.checksum);
		});
		c.chunk(0xD110, [&] { c.date(m.source_date); w.line(m.source_path); });
		c.chunk(0xD120, [] {});
	}
	inline void dump_hierarchy(Dump& d, zk::ModelHierarchy const& m) {
		d.l("nodes", m.nodes.size());
		for (auto& n : m.nodes) { std::string t; for (unsigned a = 0; a < 4; ++a) for (unsigned b = 0; b < 4; ++b) t += " " + Dump::f(n.transform[a][b]); d.l("node", esc(n.name, 1000) + fmt(" %d", n.parent_index) + t); }
		d.l("bbox", Dump::bb(m.bbox)); d.l("collision", Dump::bb(m.collision_bbox)); d.l("root", Dump::v(m.root_translation)); d.l("hchecksum", m.checksum);
		d.date("source_date", m.source_date); d.l("source_path", esc(m.source_path, 1000));
	}

	// ------------------------------------------------------------------ animation
	struct RefAnim {
		zk::ModelAnimation a;
		std::vector<std::array<u16, 6>> raw; // rotation x y z, position x y z
	};
	inline void fill_anim(Rng& r, RefAnim& m) {
		auto& a = m.a;
		a.name = rline(r); a.next = rline(r); a.layer = r.u();
		a.node_count = rn(r); a.frame_count = rn(r);
		if (vast > 0 && r.flip()) { --vast; a.node_count = 40 + r.below(300); a.frame_count = 65600 / a.node_count + r.below(20); }
		a.fps = r.f(); a.fps_source = r.f(); a.sample_position_min = r.ftext(); a.sample_position_scale = static_cast<float>(r.range(0, 100000)) / 65536.f;
		a.bbox = rbb(r); a.checksum = r.u(); a.source_path = rline(r); a.source_date = rdate(r); a.source_script = rline(r);
		a.events = rlist<zk::AnimationEvent>(hn(r), [&] {
			zk::AnimationEvent e;
			e.type = static_cast<zk::AnimationEventType>(r.below(12)); e.frame = r.u(); e.tag = rline(r);
			for (auto& x : e.content) x = rline(r);
			for (auto& x : e.values) x = r.f();
			e.probability = r.f();
			return e;
		});
		a.node_indices = rlist<u32>(a.node_count, [&] { return r.u(); });
		for (u32 k = 0; k < a.node_count * a.frame_count; ++k) {
			std::array<u16, 6> s;
			for (auto& x : s) x = r.chance(20) ? r.pick<u16>({0, 1, 0x7ffe, 0x7fff, 0x8000, 0xffff}) : static_cast<u16>(r.next());
			m.raw.push_back(s);
		}
	}
	inline void enc_anim(Chunks& c, RefAnim const& m, Rng* shuffle = nullptr) {
		auto& w = c.w;
		auto& a = m.a;
		c.chunk(0xA000, [] {});
		c.chunk(0xA020, [&] {
			w.u16_(12); w.line(a.name); w.u32_(a.layer); w.u32_(a.frame_count); w.u32_(a.node_count); w.f32_(a.fps); w.f32_(a.fps_source);
			w.f32_(a.sample_position_min); w.f32_(a.sample_position_scale); c.bb(a.bbox); w.line(a.next);
		});
		auto source = [&] { c.chunk(0xA010, [&] { c.date(a.source_date); w.line(a.source_path); w.line(a.source_script); }); };
		auto events = [&] { c.chunk(0xA030, [&] {
			w.u32_(static_cast<u32>(a.events.size()));
			for (auto& e : a.events) {
				w.u32_(static_cast<u32>(e.type)); w.u32_(e.frame); w.line(e.tag);
				for (auto& x : e.content) w.line(x);
				for (float x : e.values) w.f32_(x);
				w.f32_(e.probability);
			}
		}); };
		auto samples = [&] { c.chunk(0xA090, [&] {
			w.u32_(a.checksum);
			for (u32 i : a.node_indices) w.u32_(i);
			for (auto& s : m.raw) for (u32 x : s) w.u16_(x);
		}); };
		std::vector<std::function<void()>> parts {source, events, samples};
		if (shuffle) for (u32 k = 2; k > 0; --k) std::swap(parts[k], parts[shuffle->below(k + 1)]);
		for (auto& x : parts) x();
	}
	inline void dump_anim(Dump& d, zk::ModelAnimation const& a, bool samples) {
		d.l("name", esc(a.name, 1000)); d.l("next", esc(a.next, 1000)); d.l("layer", a.layer); d.l("frames", a.frame_count); d.l("nodes", a.node_count);
		d.l("fps", Dump::f(a.fps)); d.l("fps_source", Dump::f(a.fps_source)); d.l("min", Dump::f(a.sample_position_min)); d.l("scale", Dump::f(a.sample_position_scale));
		d.l("bbox", Dump::bb(a.bbox)); d.l("checksum", a.checksum); d.l("path", esc(a.source_path, 1000)); d.date("date", a.source_date); d.l("script", esc(a.source_script, 1000));
		d.l("events", a.events.size());
		for (auto& e : a.events) {
			std::string t;
			for (auto& x : e.content) t += " '" + esc(x, 1000) + "'";
			for (float x : e.values) t += " " + Dump::f(x);
			d.l("event", fmt("%u %u '", static_cast<u32>(e.type), e.frame) + esc(e.tag, 1000) + "'" + t + " " + Dump::f(e.probability));
		}
		d.list("node_indices", a.node_indices);
		if (samples) for (auto& s : a.samples) d.l("sample", Dump::v(s.position) + fmt(" %.9g %.9g %.9g %.9g", static_cast<double>(s.rotation.x), static_cast<double>(s.rotation.y), static_cast<double>(s.rotation.z), static_cast<double>(s.rotation.w)));
	}

	// ------------------------------------------------------------------ morph mesh
	inline void fill_morph(Rng& r, zk::MorphMesh& m, GameVersion v) {
		m.name = rline(r);
		fill_mrm(r, m.mesh, v, rc(r, 3, 20));
		m.morph_positions = rlist<zk::Vec3>(static_cast<u32>(m.mesh.positions.size()), [&] { return rv3(r); });
		m.animations = rlist<zk::MorphAnimation>(rn(r), [&] {
			zk::MorphAnimation a;
			a.name = rline(r); a.layer = r.i(); a.blend_in = r.f(); a.blend_out = r.f(); a.duration = r.f(); a.speed = r.f(); a.flags = static_cast<u8>(r.u());
			a.frame_count = rc(r, 5, 40);
			u32 nv = r.chance(1) ? 250 + r.below(200) : rc(r, 6, 60);
			if (vast > 0 && r.flip()) { --vast; nv = r.chance(20) ? 65530 + r.below(1000) : 40 + r.below(300); a.frame_count = 65600 / nv + r.below(20); }
			a.vertices = rlist<u32>(nv, [&] { return r.u(); });
			a.samples = rlist<zk::Vec3>(a.frame_count * static_cast<u32>(a.vertices.size()), [&] { return rv3(r); });
			return a;
		});
		m.sources = rlist<zk::MorphSource>(rc(r, 4, 40), [&] { zk::MorphSource s; s.file_date = rdate(r); s.file_name = rline(r); return s; });
	}
	inline void enc_morph(Chunks& c, zk::MorphMesh const& m, GameVersion v, Rng* shuffle = nullptr) {
		auto& w = c.w;
		c.chunk(0xE000, [] {});
		c.chunk(0xE020, [&] { w.u32_(3); w.line(m.name); });
		c.chunk(0xB100, [&] { enc_mrm_section(c, m.mesh, v, shuffle); });
		c.chunk(0xB1FF, [&] { for (auto& p : m.morph_positions) c.v3(p); });
		c.chunk(0xE010, [&] { w.u16_(static_cast<u32>(m.sources.size())); for (auto& s : m.sources) { c.date(s.file_date); w.line(s.file_name); } });
		c.chunk(0xE030, [&] {
			w.u16_(static_cast<u32>(m.animations.size()));
			for (auto& a : m.animations) {
				w.line(a.name); w.f32_(a.blend_in); w.f32_(a.blend_out); w.f32_(a.duration); w.i32_(a.layer); w.f32_(a.speed); w.u8_(a.flags);
				w.u32_(static_cast<u32>(a.vertices.size())); w.u32_(a.frame_count);
				for (u32 x : a.vertices) w.u32_(x);
				for (auto& s : a.samples) c.v3(s);
			}
		});
	}
	inline void dump_morph(Dump& d, zk::MorphMesh const& m, GameVersion v) {
		d.l("name", esc(m.name, 1000));
		dump_mrm(d, m.mesh, v, "morph.");
		d.list("morph_positions", m.morph_positions);
		d.l("animations", m.animations.size());
		for (auto& a : m.animations) {
			d.l("animation", esc(a.name, 1000) + fmt(" %d %u %u ", a.layer, a.flags, a.frame_count) + Dump::f(a.blend_in) + " " + Dump::f(a.blend_out) + " " + Dump::f(a.duration) + " " + Dump::f(a.speed));
			d.list("animation.vertices", a.vertices); d.list("animation.samples", a.samples);
		}
		for (auto& s : m.sources) { d.date("source.date", s.file_date); d.l("source.name", esc(s.file_name, 1000)); }
	}
} // namespace vp
