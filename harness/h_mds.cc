// C15: model scripts. A random script is written by two independent encoders, as compiled chunks and as source text with
// the irregularities the game tolerates; both must load to the script that was written.
#include "georef.hh"
#include <zenkit/ModelScript.hh>

using namespace vp;
using namespace zenkit;

namespace {
	// what the script says, including what only one of the forms can express
	struct Ev {
		enum K { TAG, SFX, GRND, PFX, PFXSTOP, MM, TREMOR } k;
		int frame = 0, index = 0, t[4] = {};
		std::string type, a, b, name, node;
		bool has_a = false, has_b = false;
		float range = 1000;
		bool empty = false, attached = false;
	};
	struct Ani { MdsAnimation d; std::string flags; std::vector<Ev> ev; };
	struct St { // one statement
		enum K { ANI, ALIAS, BLEND, COMB, DISABLE, TAG } k;
		Ani ani;
		MdsAnimationAlias alias; MdsAnimationBlend blend; MdsAnimationCombine comb;
		std::string s, flags;
	};
	struct Item { enum K { TREE, MESH, ENUM } k; MdsSkeleton tree; std::string mesh; std::vector<St> st; };

	struct TypeInfo { char const* n; MdsEventType t; int kind; }; // 0 nothing, 1 slot, 2 slot+item, 3 slot+slot2, 4 frames, 5 fight mode
	TypeInfo const TYPES[] = {
	    {"DEF_CREATE_ITEM", MdsEventType::ITEM_CREATE, 2}, {"DEF_INSERT_ITEM", MdsEventType::ITEM_INSERT, 1},
	    {"DEF_REMOVE_ITEM", MdsEventType::ITEM_REMOVE, 1}, {"DEF_DESTROY_ITEM", MdsEventType::ITEM_DESTROY, 1},
	    {"DEF_PLACE_ITEM", MdsEventType::ITEM_PLACE, 0}, {"DEF_EXCHANGE_ITEM", MdsEventType::ITEM_EXCHANGE, 2},
	    {"DEF_FIGHTMODE", MdsEventType::SET_FIGHT_MODE, 5}, {"DEF_PLACE_MUNITION", MdsEventType::MUNITION_PLACE, 1},
	    {"DEF_REMOVE_MUNITION", MdsEventType::MUNITION_REMOVE, 1}, {"DEF_DRAWSOUND", MdsEventType::SOUND_DRAW, 1},
	    {"DEF_UNDRAWSOUND", MdsEventType::SOUND_UNDRAW, 1}, {"DEF_SWAPMESH", MdsEventType::MESH_SWAP, 3},
	    {"DEF_DRAWTORCH", MdsEventType::TORCH_DRAW, 0}, {"DEF_INV_TORCH", MdsEventType::TORCH_INVENTORY, 1},
	    {"DEF_DROP_TORCH", MdsEventType::TORCH_DROP, 0}, {"DEF_HIT_LIMB", MdsEventType::HIT_LIMB, 1},
	    {"HIT_LIMB", MdsEventType::HIT_LIMB, 1}, {"DEF_HIT_DIR", MdsEventType::HIT_DIRECTION, 1},
	    {"DEF_DIR", MdsEventType::HIT_DIRECTION, 1}, {"DEF_DAM_MULTIPLY", MdsEventType::DAMAGE_MULTIPLIER, 4},
	    {"DEF_PAR_FRAME", MdsEventType::PARRY_FRAME, 4}, {"DEF_OPT_FRAME", MdsEventType::OPTIMAL_FRAME, 4},
	    {"DEF_HIT_END", MdsEventType::HIT_END, 4}, {"DEF_WINDOW", MdsEventType::COMBO_WINDOW, 4},
	    {"DEF_SOMETHING_ELSE", MdsEventType::UNKNOWN, 0},
	};
	struct Mode { char const* n; MdsFightMode m; };
	Mode const MODES[] = {{"FIST", MdsFightMode::FIST}, {"1H", MdsFightMode::SINGLE_HANDED}, {"1h", MdsFightMode::SINGLE_HANDED},
	    {"2H", MdsFightMode::DUAL_HANDED}, {"2h", MdsFightMode::DUAL_HANDED}, {"BOW", MdsFightMode::BOW}, {"CBOW", MdsFightMode::CROSSBOW},
	    {"MAG", MdsFightMode::MAGIC}, {"NONE", MdsFightMode::NONE}, {"", MdsFightMode::NONE}};
	TypeInfo const& type_of(std::string const& n) { for (auto& t : TYPES) if (n == t.n) return t; return TYPES[std::size(TYPES) - 1]; }

	// ---------------------------------------------------------------- generation
	std::string rstr(Rng& r) {
		switch (r.below(6)) {
		case 0: return r.pick<char const*>({"", "A(1)", "NAME(WITH)BRACKETS", "(", ")", "a b c", "x{y}z", "// no comment", "a;b", "1", "-1.5", "F", "R", "ATTACH", "EMPTY_SLOT", "x:y", "\xe4\xf6\xfc", "tab\tin"});
		default: return r.name(16, true);
		}
	}
	float rnum(Rng& r) {
		switch (r.below(5)) {
		case 0: return static_cast<float>(r.range(-1000, 1000));
		case 1: return r.ftext();
		case 2: return r.pick<float>({0.f, 0.1f, 0.5f, 1.f, 25.f, 1000.f, 0.001f, 223.1f, 99999.f, -0.3f});
		default: return static_cast<float>(r.range(-100000, 100000)) / 100.0f;
		}
	}
	i32 rint_(Rng& r) { return r.chance(10) ? r.pick<i32>({0, -1, 2147483647, -2147483647 - 1, 65536}) : static_cast<i32>(r.range(-300, 3000)); }
	std::string rflags(Rng& r, AnimationFlags& f) {
		static char const L[] = "MREFIP";
		std::string s;
		f = AnimationFlags::NONE;
		u32 n = r.below(7);
		for (u32 k = 0; k < n; ++k) {
			if (r.chance(35)) { s += '.'; continue; }
			u32 b = r.below(6);
			s += L[b];
			f |= static_cast<AnimationFlags>(1u << b);
		}
		if (s.empty()) s = ".";
		return s;
	}
	Ev revent(Rng& r) {
		Ev e;
		e.k = static_cast<Ev::K>(r.below(7));
		e.frame = rint_(r);
		switch (e.k) {
		case Ev::TAG: {
			auto& t = TYPES[r.below(std::size(TYPES))];
			e.type = t.n;
			e.attached = r.chance(30);
			if (t.kind == 4) {
				e.has_a = !r.chance(10);
				if (e.has_a) {
					u32 n = r.chance(8) ? r.below(40) : r.below(6);
					for (u32 k = 0; k < n; ++k) { if (k) e.a += r.chance(80) ? " " : "  "; e.a += std::to_string(r.range(-3, 500)); }
					if (r.chance(15)) e.a += " ";
					if (r.chance(10)) e.a = " " + e.a;
				}
			} else if (t.kind == 5) { e.has_a = !r.chance(10); if (e.has_a) e.a = MODES[r.below(std::size(MODES))].n; }
			else if (t.kind) {
				e.has_a = !r.chance(15);
				if (e.has_a) e.a = rstr(r);
				e.has_b = e.has_a && t.kind > 1 && !r.chance(15);
				if (e.has_b) e.b = rstr(r);
			}
			break;
		}
		case Ev::SFX: case Ev::GRND: e.name = rstr(r); e.range = r.chance(30) ? 1000 : rnum(r); e.empty = r.chance(30); break;
		case Ev::PFX: e.index = r.chance(30) ? 0 : rint_(r); e.name = rstr(r); e.node = rstr(r); e.attached = r.chance(40); break;
		case Ev::PFXSTOP: e.index = rint_(r); break;
		case Ev::MM: e.name = rstr(r); e.node = r.chance(40) ? "" : rstr(r); break;
		case Ev::TREMOR: for (auto& t : e.t) t = rint_(r); break;
		}
		return e;
	}
	St rstatement(Rng& r) {
		St s;
		s.k = static_cast<St::K>(r.chance(50) ? 0 : r.below(6));
		switch (s.k) {
		case St::ANI: {
			auto& d = s.ani.d;
			d.name = rstr(r); d.layer = static_cast<u32>(rint_(r)); d.next = rstr(r); d.blend_in = rnum(r); d.blend_out = rnum(r);
			s.ani.flags = rflags(r, d.flags);
			d.model = rstr(r); d.direction = r.flip() ? AnimationDirection::BACKWARD : AnimationDirection::FORWARD;
			d.first_frame = rint_(r); d.last_frame = rint_(r); d.fps = r.chance(30) ? 25 : rnum(r); d.speed = rnum(r); d.collision_volume_scale = r.chance(30) ? 1 : rnum(r);
			u32 n = r.chance(40) ? 0 : rn(r, 5);
			for (u32 k = 0; k < n; ++k) s.ani.ev.push_back(revent(r));
			break;
		}
		case St::ALIAS: s.alias.name = rstr(r); s.alias.layer = static_cast<u32>(rint_(r)); s.alias.next = rstr(r); s.alias.blend_in = rnum(r); s.alias.blend_out = rnum(r);
			s.flags = rflags(r, s.alias.flags); s.alias.alias = rstr(r); s.alias.direction = r.flip() ? AnimationDirection::BACKWARD : AnimationDirection::FORWARD; break;
		case St::BLEND: s.blend.name = rstr(r); s.blend.next = rstr(r); s.blend.blend_in = r.chance(30) ? 0 : rnum(r); s.blend.blend_out = r.chance(40) ? 0 : rnum(r); break;
		case St::COMB: s.comb.name = rstr(r); s.comb.layer = static_cast<u32>(rint_(r)); s.comb.next = rstr(r); s.comb.blend_in = rnum(r); s.comb.blend_out = rnum(r);
			s.flags = rflags(r, s.comb.flags); s.comb.model = rstr(r); s.comb.last_frame = rint_(r); break;
		case St::DISABLE: case St::TAG: s.s = rstr(r); break;
		}
		return s;
	}
	std::vector<Item> rscript(Rng& r) {
		std::vector<Item> v;
		auto mesh = [&] { Item i; i.k = Item::MESH; i.mesh = rstr(r); v.push_back(std::move(i)); };
		auto tree = [&] { Item i; i.k = Item::TREE; i.tree.name = rstr(r); i.tree.disable_mesh = r.flip(); v.push_back(std::move(i)); };
		auto en = [&] { Item i; i.k = Item::ENUM; u32 n = rn(r, 6); for (u32 k = 0; k < n; ++k) i.st.push_back(rstatement(r)); v.push_back(std::move(i)); };
		if (!r.chance(10)) tree();
		u32 n = rn(r, 3);
		for (u32 k = 0; k < n; ++k) mesh();
		if (!r.chance(10)) en();
		if (r.chance(25)) { n = 1 + r.below(3); for (u32 k = 0; k < n; ++k) switch (r.below(3)) { case 0: mesh(); break; case 1: tree(); break; default: en(); } }
		return v;
	}

	// ---------------------------------------------------------------- expected and actual
	struct D : Dump {
		void q(std::string const& n, std::string const& s) { l(n, "'" + s + "'"); }
		void tag(std::string const& p, MdsEventTag const& e, bool text) {
			l(p + ".frame", std::to_string(e.frame)); l(p + ".type", std::to_string(int(e.type)));
			q(p + ".slot", e.slot); q(p + ".slot2", e.slot2); q(p + ".item", e.item);
			list(p + ".frames", e.frames); l(p + ".fight", std::to_string(int(e.fight_mode)));
			if (text) l(p + ".attached", u64(e.attached));
		}
		void script(ModelScript const& m, bool text) {
			q("skeleton", m.skeleton.name); l("disable_mesh", u64(m.skeleton.disable_mesh));
			l("meshes", m.meshes.size()); for (auto& s : m.meshes) q("mesh", s);
			l("disabled", m.disabled_animations.size()); for (auto& s : m.disabled_animations) q("disabled", s);
			l("tags", m.model_tags.size()); for (auto& s : m.model_tags) q("bone", s.bone);
			l("combs", m.combinations.size());
			for (auto& c : m.combinations) { q("comb.name", c.name); l("comb.layer", c.layer); q("comb.next", c.next); l("comb.blend_in", f(c.blend_in)); l("comb.blend_out", f(c.blend_out)); l("comb.flags", u64(c.flags)); q("comb.model", c.model); l("comb.last", std::to_string(c.last_frame)); }
			l("blends", m.blends.size());
			for (auto& c : m.blends) { q("blend.name", c.name); q("blend.next", c.next); l("blend.in", f(c.blend_in)); l("blend.out", f(c.blend_out)); }
			l("aliases", m.aliases.size());
			for (auto& c : m.aliases) { q("alias.name", c.name); l("alias.layer", c.layer); q("alias.next", c.next); l("alias.blend_in", f(c.blend_in)); l("alias.blend_out", f(c.blend_out)); l("alias.flags", u64(c.flags)); q("alias.alias", c.alias); l("alias.direction", u64(c.direction)); }
			l("animations", m.animations.size());
			for (size_t k = 0; k < m.animations.size(); ++k) {
				auto& c = m.animations[k];
				auto p = fmt("ani%zu", k);
				q(p + ".name", c.name); l(p + ".layer", c.layer); q(p + ".next", c.next); l(p + ".blend_in", f(c.blend_in)); l(p + ".blend_out", f(c.blend_out)); l(p + ".flags", u64(c.flags)); q(p + ".model", c.model);
				l(p + ".direction", u64(c.direction)); l(p + ".first", std::to_string(c.first_frame)); l(p + ".last", std::to_string(c.last_frame)); l(p + ".fps", f(c.fps)); l(p + ".cvs", f(c.collision_volume_scale));
				if (!text) l(p + ".speed", f(c.speed));
				l(p + ".events", c.events.size()); for (auto& e : c.events) tag(p + ".tag", e, text);
				l(p + ".pfxs", c.pfx.size()); for (auto& e : c.pfx) { l(p + ".pfx.frame", std::to_string(e.frame)); l(p + ".pfx.index", std::to_string(e.index)); q(p + ".pfx.name", e.name); q(p + ".pfx.position", e.position); l(p + ".pfx.attached", u64(e.attached)); }
				l(p + ".pfxstops", c.pfx_stop.size()); for (auto& e : c.pfx_stop) { l(p + ".pfxstop.frame", std::to_string(e.frame)); l(p + ".pfxstop.index", std::to_string(e.index)); }
				l(p + ".sfxs", c.sfx.size()); for (auto& e : c.sfx) { l(p + ".sfx.frame", std::to_string(e.frame)); q(p + ".sfx.name", e.name); l(p + ".sfx.range", f(e.range)); l(p + ".sfx.empty", u64(e.empty_slot)); }
				l(p + ".grnds", c.sfx_ground.size()); for (auto& e : c.sfx_ground) { l(p + ".grnd.frame", std::to_string(e.frame)); q(p + ".grnd.name", e.name); l(p + ".grnd.range", f(e.range)); l(p + ".grnd.empty", u64(e.empty_slot)); }
				l(p + ".morphs", c.morph.size()); for (auto& e : c.morph) { l(p + ".morph.frame", std::to_string(e.frame)); q(p + ".morph.animation", e.animation); q(p + ".morph.node", e.node); }
				l(p + ".tremors", c.tremors.size()); for (auto& e : c.tremors) l(p + ".tremor", fmt("%d %d %d %d %d", e.frame, e.field1, e.field2, e.field3, e.field4));
			}
		}
	};
	ModelScript expected(std::vector<Item> const& v) {
		ModelScript m;
		for (auto& i : v) {
			if (i.k == Item::TREE) m.skeleton = i.tree;
			else if (i.k == Item::MESH) m.meshes.push_back(i.mesh);
			else for (auto& s : i.st) switch (s.k) {
				case St::ANI: {
					auto d = s.ani.d;
					for (auto& e : s.ani.ev) switch (e.k) {
						case Ev::TAG: {
							MdsEventTag t {};
							auto& ti = type_of(e.type);
							t.frame = e.frame; t.type = ti.t; t.attached = e.attached;
							if (ti.kind == 1 || ti.kind == 2 || ti.kind == 3) t.slot = e.a;
							if (ti.kind == 2) t.item = e.b;
							if (ti.kind == 3) t.slot2 = e.b;
							if (ti.kind == 4) for (char const* c = e.a.c_str();;) { char* end; long x = std::strtol(c, &end, 10); if (end == c) break; t.frames.push_back(static_cast<i32>(x)); c = end; }
							if (ti.kind == 5) for (auto& mo : MODES) if (e.a == mo.n) t.fight_mode = mo.m;
							d.events.push_back(t);
							break;
						}
						case Ev::SFX: d.sfx.push_back({e.frame, e.name, e.range, e.empty}); break;
						case Ev::GRND: d.sfx_ground.push_back({e.frame, e.name, e.range, e.empty}); break;
						case Ev::PFX: d.pfx.push_back({e.frame, e.index, e.name, e.node, e.attached}); break;
						case Ev::PFXSTOP: d.pfx_stop.push_back({e.frame, e.index}); break;
						case Ev::MM: d.morph.push_back({e.frame, e.name, e.node}); break;
						case Ev::TREMOR: d.tremors.push_back({e.frame, e.t[0], e.t[1], e.t[2], e.t[3]}); break;
					}
					m.animations.push_back(d);
					break;
				}
				case St::ALIAS: m.aliases.push_back(s.alias); break;
				case St::BLEND: m.blends.push_back(s.blend); break;
				case St::COMB: m.combinations.push_back(s.comb); break;
				case St::DISABLE: m.disabled_animations.push_back(s.s); break;
				case St::TAG: m.model_tags.push_back({s.s}); break;
			}
		}
		return m;
	}

	// ---------------------------------------------------------------- compiled form
	Bytes enc_binary(std::vector<Item> const& v, Rng& r, bool noise) {
		Chunks o;
		auto line = [&](std::string const& s) { o.w.line(s); };
		auto num = [&](i32 x) { o.w.u32_(static_cast<u32>(x)); };
		o.chunk(0xF000, [&] { o.w.u32_(1); line("TEST.MDS"); }, false);
		Rng nr(r.next());
		if (noise) o.noise = &nr;
		o.chunk(0xF100, [&] { o.date(rdate(r)); line("TEST.MDS"); });
		o.chunk(0xF200, [&] { line("TEST"); });
		for (auto& i : v) {
			if (i.k == Item::TREE) o.chunk(0xF300, [&] { o.w.u32_(i.tree.disable_mesh ? 1 + r.below(2) * 255 : 0); line(i.tree.name); });
			else if (i.k == Item::MESH) o.chunk(0xF400, [&] { line(i.mesh); });
			else {
				o.chunk(0xF500, [] {});
				for (auto& s : i.st) switch (s.k) {
					case St::ANI: {
						auto& d = s.ani.d;
						o.chunk(0xF520, [&] { line(d.name); o.w.u32_(d.layer); line(d.next); o.w.f32_(d.blend_in); o.w.f32_(d.blend_out); line(s.ani.flags); line(d.model); line(d.direction == AnimationDirection::BACKWARD ? "R" : "F");
							num(d.first_frame); num(d.last_frame); o.w.f32_(d.fps); o.w.f32_(d.speed); o.w.f32_(d.collision_volume_scale); });
						if (s.ani.ev.empty() && r.flip()) break;
						o.chunk(0xF5A0, [&] { num(static_cast<i32>(s.ani.ev.size())); });
						for (auto& e : s.ani.ev) switch (e.k) {
							case Ev::TAG: o.chunk(0xF5A3, [&] { num(e.frame); line(e.type); if (type_of(e.type).kind || e.has_a) { line(e.a); line(e.b); } }); break;
							case Ev::SFX: o.chunk(0xF5A1, [&] { num(e.frame); line(e.name); o.w.f32_(e.range); num(e.empty); }); break;
							case Ev::GRND: o.chunk(0xF5A2, [&] { num(e.frame); line(e.name); o.w.f32_(e.range); num(e.empty); }); break;
							case Ev::PFX: o.chunk(0xF5A4, [&] { num(e.frame); num(e.index); line(e.name); line(e.node); num(e.attached); }); break;
							case Ev::PFXSTOP: o.chunk(0xF5A5, [&] { num(e.frame); num(e.index); }); break;
							case Ev::MM: o.chunk(0xF5A9, [&] { num(e.frame); line(e.name); line(e.node); o.w.f32_(r.f()); o.w.f32_(r.f()); }); break;
							case Ev::TREMOR: o.chunk(0xF5AA, [&] { num(e.frame); for (auto t : e.t) num(t); }); break;
						}
						o.chunk(0xF5AF, [] {});
						break;
					}
					case St::ALIAS: o.chunk(0xF530, [&] { line(s.alias.name); o.w.u32_(s.alias.layer); line(s.alias.next); o.w.f32_(s.alias.blend_in); o.w.f32_(s.alias.blend_out); line(s.flags); line(s.alias.alias); line(s.alias.direction == AnimationDirection::BACKWARD ? "R" : "F"); }); break;
					case St::BLEND: o.chunk(0xF540, [&] { line(s.blend.name); line(s.blend.next); o.w.f32_(s.blend.blend_in); o.w.f32_(s.blend.blend_out); }); break;
					case St::COMB: o.chunk(0xF570, [&] { line(s.comb.name); o.w.u32_(s.comb.layer); line(s.comb.next); o.w.f32_(s.comb.blend_in); o.w.f32_(s.comb.blend_out); line(s.flags); line(s.comb.model); num(s.comb.last_frame); }); break;
					case St::DISABLE: o.chunk(0xF580, [&] { line(s.s); }); break;
					case St::TAG: o.chunk(0xF590, [&] { num(0); line(r.flip() ? "DEF_HIT_LIMB" : "HIT_LIMB"); line(s.s); }); break;
				}
				o.chunk(0xF5FF, [] {});
			}
		}
		if (r.chance(90)) { o.chunk(0xF2FF, [] {}); o.chunk(0xFFFF, [] {}); }
		count("unknown chunks", o.unknown);
		return to_bytes(o.w.b);
	}

	// ---------------------------------------------------------------- source text
	struct Text {
		Rng& r;
		bool odd; // irregular
		std::string o, nl = "\n";
		explicit Text(Rng& r, bool odd) : r(r), odd(odd) { if (odd && r.chance(30)) nl = "\r\n"; }
		bool ch(int p) { return odd && r.chance(p); }
		void kw(std::string s) {
			if (ch(40)) for (auto& c : s) if (r.flip()) c = static_cast<char>(r.flip() ? std::toupper(c) : std::tolower(c));
			o += s;
		}
		void gap() {
			if (ch(15)) { o += r.pick<char const*>({"  ", "\t", " ;", " ( ", ") ", " \t "}); return; }
			if (ch(4)) { comment(); return; }
			o += ' ';
		}
		void comment() {
			o += r.flip() ? " // " : r.flip() ? " / " : " /";
			if (o.back() == ' ') o += r.pick<char const*>({"a comment", "\"quoted\" }", "ani (\"X\" {", "}", "", "//", "(", "\xe4\xff"});
			o += nl;
			count("comments");
		}
		void open() { o += ch(20) ? " " : ch(10) ? "((" : " ("; }
		void num(float f) {
			char b[64];
			if (f == static_cast<float>(static_cast<long>(f)) && r.flip() && !std::signbit(f)) std::snprintf(b, sizeof b, "%ld", static_cast<long>(f));
			else { int p = 1; do std::snprintf(b, sizeof b, "%.*f", p, static_cast<double>(f)); while (std::strtof(b, nullptr) != f && ++p < 50); }
			o += b;
		}
		void integer(i32 v) { o += std::to_string(v); }
		void str(std::string const& s) { o += '"' + s + '"'; }
		// the last argument of a statement, and the end of its argument list
		void last_str(std::string const& s, bool line_end_follows = true) {
			bool plain = !s.empty() && !std::isspace(static_cast<unsigned char>(s.back())) && s.back() != ')';
			if (plain && line_end_follows && ch(25)) {
				o += '"' + s + (r.flip() ? ")" : "") + (r.chance(30) ? r.pick<char const*>({" ", "\t", "  "}) : "");
				count("unterminated strings");
				end_line(false);
				return;
			}
			str(s);
			close();
		}
		void close() { o += ch(15) ? "" : ch(10) ? " ) " : ")"; if (ch(10)) o += ';'; end_line(true); }
		void end_line(bool can_comment) {
			if (can_comment && ch(10)) comment();
			o += nl;
			if (ch(10)) o += nl;
		}
		// what a statement with an (ignored) block looks like
		void flags(std::string const& f) { o += f; if (ch(20)) { o += ':'; count("flags with colon"); } }
		void event(Ev const& e) {
			o += "\t\t";
			switch (e.k) {
			case Ev::TAG:
				kw("*eventTag"); open();
				if (!(e.frame == 0 && r.flip())) { integer(e.frame); gap(); } else count("arguments omitted");
				if (e.has_a || e.attached) { str(e.type); } else { last_str(e.type); break; }
				if (e.has_a) { gap(); if (e.has_b || e.attached) str(e.a); else { last_str(e.a); break; } }
				if (e.has_b) { gap(); if (e.attached) str(e.b); else { last_str(e.b); break; } }
				gap(); kw("ATTACH"); close();
				break;
			case Ev::SFX: case Ev::GRND: {
				kw(e.k == Ev::SFX ? "*eventSFX" : "*eventSFXGrnd"); open(); integer(e.frame); gap();
				bool range = !(e.range == 1000 && r.flip());
				if (!range && !e.empty) { last_str(e.name); break; }
				str(e.name);
				if (range) { gap(); kw("R"); o += ch(20) ? " : " : ":"; num(e.range); } else count("arguments omitted");
				if (e.empty) { gap(); bool typo = odd && r.chance(30); kw(typo ? "EMTPY_SLOT" : "EMPTY_SLOT"); if (typo) count("misspelt keywords"); }
				close();
				break;
			}
			case Ev::PFX:
				kw("*eventPFX"); open(); integer(e.frame); gap();
				if (!(e.index == 0 && r.flip())) { integer(e.index); gap(); } else count("arguments omitted");
				str(e.name); gap();
				if (!e.attached) { last_str(e.node); break; }
				str(e.node); gap();
				if (ch(40)) { count("quoted keywords"); last_str("ATTACH"); } else { kw("ATTACH"); close(); }
				break;
			case Ev::PFXSTOP: kw("*eventPFXStop"); open(); integer(e.frame); gap(); integer(e.index); close(); break;
			case Ev::MM:
				kw("*eventMMStartAni"); open(); integer(e.frame); gap();
				if (e.node.empty() && r.flip()) { last_str(e.name); count("arguments omitted"); } else { str(e.name); gap(); last_str(e.node); }
				break;
			case Ev::TREMOR: kw("*eventCamTremor"); open(); integer(e.frame); for (auto t : e.t) { gap(); integer(t); } close(); break;
			}
		}
		void ignored_block() {
			o += " {" + nl;
			u32 n = r.below(4);
			for (u32 k = 0; k < n; ++k) event(revent(r));
			o += "\t}" + nl;
			count("ignored event blocks");
		}
		void junk_line() {
			// (a line with an unknown keyword is skipped as a whole)
			o += "\t" + std::string(r.pick<char const*>({"aniSync (\"A\" \"B\")", "anibatch(\"X\"", "foo }", "_x {", "aniMaxFps 25", "_", "startMesh (\"x\")"})) + nl;
			count("unknown statements");
		}
		// `last`: nothing but closing braces follows this statement in its block; `open_ended`: nothing follows the block
		void statement(St const& s, bool last, bool open_ended) {
			o += '\t';
			switch (s.k) {
			case St::ANI: {
				auto& d = s.ani.d;
				kw("ani"); open(); str(d.name); gap(); integer(static_cast<i32>(d.layer)); gap(); str(d.next); gap(); num(d.blend_in); gap(); num(d.blend_out); gap(); flags(s.ani.flags); gap(); str(d.model); gap();
				kw(d.direction == AnimationDirection::BACKWARD ? "R" : "F"); gap(); integer(d.first_frame); gap(); integer(d.last_frame);
				if (!(d.fps == 25 && r.flip())) { gap(); kw("FPS"); o += ':'; num(d.fps); } else count("arguments omitted");
				if (!(d.collision_volume_scale == 1 && r.flip())) { gap(); kw("CVS"); o += ':'; num(d.collision_volume_scale); } else count("arguments omitted");
				if (s.ani.ev.empty()) {
					if (r.flip()) { close(); break; }
					o += ch(30) ? " {" : ") {"; if (r.flip()) o += nl;
					if (!(ch(30) && (!last || open_ended))) o += "}"; else count("blocks not closed");
					o += nl;
					break;
				}
				// the braces are optional, but the closing one must not be missing where it would be taken from the surrounding block
				bool lb = !ch(30), rb = !ch(30) || (last && !open_ended);
				o += ch(15) ? "" : ")";
				if (lb) o += ch(20) ? nl + "{" : " {"; else { o += ' '; count("blocks not opened"); }
				o += nl;
				for (auto& e : s.ani.ev) event(e);
				if (rb) o += "\t}" + nl; else count("blocks not closed");
				break;
			}
			case St::ALIAS: {
				auto& d = s.alias;
				kw("aniAlias"); open(); str(d.name); gap(); integer(static_cast<i32>(d.layer)); gap(); str(d.next); gap(); num(d.blend_in); gap(); num(d.blend_out); gap(); flags(s.flags); gap();
				if (d.direction == AnimationDirection::FORWARD && r.flip()) { last_str(d.alias); count("arguments omitted"); break; }
				str(d.alias); gap(); kw(d.direction == AnimationDirection::BACKWARD ? "R" : "F"); close();
				break;
			}
			case St::BLEND: {
				auto& d = s.blend;
				kw("aniBlend"); open(); str(d.name); gap();
				if (r.chance(30)) { integer(rint_(r)); gap(); }
				bool out = !(d.blend_out == 0 && r.flip()), in = out || !(d.blend_in == 0 && r.flip()), fl = r.chance(25);
				if (!in || !out) count("arguments omitted");
				if (!in && !fl && !ch(20)) { last_str(d.next); break; }
				str(d.next);
				if (in) { gap(); num(d.blend_in); }
				if (out) { gap(); num(d.blend_out); }
				if (fl) { gap(); AnimationFlags x; flags(rflags(r, x)); count("aniBlend with flags"); }
				if (ch(25)) { o += ')'; ignored_block(); } else close();
				break;
			}
			case St::COMB: {
				auto& d = s.comb;
				kw("aniComb"); open(); str(d.name); gap(); integer(static_cast<i32>(d.layer)); gap(); str(d.next); gap(); num(d.blend_in); gap(); num(d.blend_out); gap(); flags(s.flags); gap(); str(d.model); gap(); integer(d.last_frame);
				if (ch(25)) { o += ')'; ignored_block(); } else close();
				break;
			}
			case St::DISABLE: kw("aniDisable"); open(); last_str(s.s); break;
			case St::TAG: kw("modelTag"); open(); str("DEF_HIT_LIMB"); gap(); last_str(s.s); break;
			}
		}
		Bytes write(std::vector<Item> const& v) {
			if (ch(20)) comment();
			kw("Model"); open(); str("TEST"); o += ") {" + nl;
			for (size_t k = 0; k < v.size(); ++k) {
				auto& i = v[k];
				bool tail = k + 1 == v.size();
				if (ch(10)) comment();
				switch (i.k) {
				case Item::TREE: kw("meshAndTree"); open(); if (i.tree.disable_mesh) { str(i.tree.name); gap(); kw("DONT_USE_MESH"); close(); } else last_str(i.tree.name); break;
				case Item::MESH: kw("registerMesh"); open(); last_str(i.mesh); break;
				case Item::ENUM: {
					kw("aniEnum"); o += ch(20) ? nl + "{" : " {"; o += nl;
					for (size_t n = 0; n < i.st.size(); ++n) {
						if (ch(8)) comment();
						// (an event-less, unbraced animation may not be followed by an unknown statement that looks like its block)
						if (ch(8) && (n == 0 || i.st[n - 1].k == St::DISABLE || i.st[n - 1].k == St::TAG || i.st[n - 1].k == St::COMB)) junk_line();
						statement(i.st[n], n + 1 == i.st.size(), tail);
					}
					if (!(tail && ch(15))) o += "}" + nl; else { count("scripts not closed"); return finish(); }
					break;
				}
				}
			}
			if (ch(10)) { o += "unknownThing (\"X\" 1 2)" + nl; count("unknown statements"); }
			if (!ch(10)) o += '}'; else count("scripts not closed");
			return finish();
		}
		Bytes finish() {
			if (ch(20)) while (!o.empty() && std::isspace(static_cast<unsigned char>(o.back()))) o.pop_back();
			else if (ch(10)) o += "// the end";
			else if (r.flip()) o += nl;
			return to_bytes(o);
		}
	};

	void compare(std::string const& want, ModelScript const& got, bool text, char const* what) {
		D d;
		d.script(got, text);
		if (d.o == want) { count("values compared", static_cast<u64>(std::count(want.begin(), want.end(), '\n'))); return; }
		std::string field;
		auto msg = first_diff(want, d.o, &field);
		violation(std::string(what) + ":" + field, std::string(what) + ": " + msg);
	}
} // namespace

void vp_init() {}

void vp_case(Rng& r, u64 n) {
	if (n % 500 == 0) {
		label("samples");
		for (char const* f : {"/waran.mds", "/waran.msb"}) {
			auto b = read_file(std::string(VP_SAMPLES) + f);
			ModelScript m;
			m.load(mem(b).get());
			VP_CHECK(!m.animations.empty() && !m.skeleton.name.empty(), "sample", "%s loads without content", f);
		}
		count("samples loaded");
	}
	auto v = rscript(r);
	auto m = expected(v);
	D dt, db;
	dt.script(m, true);
	db.script(m, false);
	state(fnv(dt.o));
	{
		label("binary");
		bool noise = r.chance(40);
		auto b = enc_binary(v, r, noise);
		ModelScript got;
		auto in = std::make_unique<CountingRead>(mem(b), 2000 + 40 * b.size(), "endless:binary");
		got.load(in.get());
		compare(db.o, got, false, "binary");
		count("binary scripts");
	}
	for (int k = 0; k < 2; ++k) {
		Text t(r, k == 1);
		auto b = t.write(v);
		label(k ? "irregular text" : "text");
		if (n < 2) sample(esc(t.o, 2000));
		ModelScript got;
		auto in = std::make_unique<CountingRead>(mem(b), 2000 + 60 * b.size(), "endless:text");
		try { got.load(in.get()); }
		catch (std::exception const& e) { fail(std::string(k ? "irregular text" : "text") + ":refused", std::string(e.what()) + " for: " + esc(t.o, 3000)); }
		compare(dt.o, got, true, k ? "irregular text" : "text");
		count(k ? "irregular texts" : "texts");
	}
}
