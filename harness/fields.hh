// One description per object class, in file order and independent of the library's load and save functions. A visitor
// walks it to fill an object with random values, to dump its stored values, or to encode it with the independent
// archive encoder.
#pragma once
#include "refar.hh"
#include <algorithm>
#include <zenkit/CutsceneLibrary.hh>
#include <zenkit/Material.hh>
#include <zenkit/SaveGame.hh>
#include <zenkit/World.hh>
#include <zenkit/vobs/Camera.hh>
#include <zenkit/vobs/Light.hh>
#include <zenkit/vobs/Misc.hh>
#include <zenkit/vobs/MovableObject.hh>
#include <zenkit/vobs/Sound.hh>
#include <zenkit/vobs/Trigger.hh>
#include <zenkit/vobs/VirtualObject.hh>
#include <zenkit/vobs/Zone.hh>
#include <zenkit/world/WayNet.hh>

namespace vp {
	using zenkit::GameVersion;
	using zenkit::Object;
	using zenkit::ObjectType;

	struct Cfg {
		GameVersion v = GameVersion::GOTHIC_1;
		ArchiveFormat fmt = ArchiveFormat::BINARY;
		bool save = false, packed = true;
		bool g2() const { return v == GameVersion::GOTHIC_2; }
		std::string str() const {
			return std::string(g2() ? "G2" : "G1") + (fmt == ArchiveFormat::ASCII ? " ascii" : fmt == ArchiveFormat::BINARY ? " binary" : " binsafe") +
			    (save ? " save" : "") + (packed ? " packed" : " unpacked");
		}
	};

	struct ClassInfo { ObjectType type; char const* name; char const* chain; bool vob; std::shared_ptr<Object> (*make)(); bool (*parse)(Object&, zenkit::ReadArchive&, GameVersion); };
	template <class T> std::shared_ptr<Object> mk() { return std::make_shared<T>(); }
	// the class' own loading function
	template <class T> bool ps(Object& o, zenkit::ReadArchive& a, GameVersion v) {
		if constexpr (requires(T& t) { T::parse(t, a, v); }) { T::parse(dynamic_cast<T&>(o), a, v); return true; }
		else if constexpr (requires(T& t) { t = T::parse(a, v); }) { dynamic_cast<T&>(o) = T::parse(a, v); return true; }
		else if constexpr (requires(T& t) { t = *T::parse(a, v); }) { dynamic_cast<T&>(o) = *T::parse(a, v); return true; }
		else if constexpr (requires(T& t) { t.load(a, v); }) { dynamic_cast<T&>(o).load(a, v); return true; }
		else return false;
	}
	inline std::vector<ClassInfo> const& classes() {
		using namespace zenkit;
		using O = ObjectType;
		static std::vector<ClassInfo> const C {
			{O::zCVob, "zCVob", "zCVob", true, mk<VirtualObject>, ps<VirtualObject>},
			{O::zCVobLevelCompo, "zCVobLevelCompo", "zCVobLevelCompo:zCVob", true, mk<VLevel>, ps<VLevel>},
			{O::oCItem, "oCItem", "oCItem:zCVob", true, mk<VItem>, ps<VItem>},
			{O::oCNpc, "oCNpc", "oCNpc:zCVob", true, mk<VNpc>, ps<VNpc>},
			{O::oCMOB, "oCMOB", "oCMOB:zCVob", true, mk<VMovableObject>, ps<VMovableObject>},
			{O::oCMobInter, "oCMobInter", "oCMobInter:oCMOB:zCVob", true, mk<VInteractiveObject>, ps<VInteractiveObject>},
			{O::oCMobBed, "oCMobBed", "oCMobBed:oCMobInter:oCMOB:zCVob", true, mk<VBed>, ps<VBed>},
			{O::oCMobFire, "oCMobFire", "oCMobFire:oCMobInter:oCMOB:zCVob", true, mk<VFire>, ps<VFire>},
			{O::oCMobLadder, "oCMobLadder", "oCMobLadder:oCMobInter:oCMOB:zCVob", true, mk<VLadder>, ps<VLadder>},
			{O::oCMobSwitch, "oCMobSwitch", "oCMobSwitch:oCMobInter:oCMOB:zCVob", true, mk<VSwitch>, ps<VSwitch>},
			{O::oCMobWheel, "oCMobWheel", "oCMobWheel:oCMobInter:oCMOB:zCVob", true, mk<VWheel>, ps<VWheel>},
			{O::oCMobContainer, "oCMobContainer", "oCMobContainer:oCMobInter:oCMOB:zCVob", true, mk<VContainer>, ps<VContainer>},
			{O::oCMobDoor, "oCMobDoor", "oCMobDoor:oCMobInter:oCMOB:zCVob", true, mk<VDoor>, ps<VDoor>},
			{O::zCPFXController, "zCPFXControler", "zCPFXControler:zCVob", true, mk<VParticleEffectController>, ps<VParticleEffectController>},
			{O::zCVobAnimate, "zCVobAnimate", "zCVobAnimate:zCVob", true, mk<VAnimate>, ps<VAnimate>},
			{O::zCVobLensFlare, "zCVobLensFlare", "zCVobLensFlare:zCVob", true, mk<VLensFlare>, ps<VLensFlare>},
			{O::zCVobLight, "zCVobLight", "zCVobLight:zCVob", true, mk<VLight>, ps<VLight>},
			{O::zCVobSpot, "zCVobSpot", "zCVobSpot:zCVob", true, mk<VSpot>, ps<VSpot>},
			{O::zCVobStartpoint, "zCVobStartpoint", "zCVobStartpoint:zCVob", true, mk<VStartPoint>, ps<VStartPoint>},
			{O::zCVobSound, "zCVobSound", "zCVobSound:zCVob", true, mk<VSound>, ps<VSound>},
			{O::zCVobSoundDaytime, "zCVobSoundDaytime", "zCVobSoundDaytime:zCVobSound:zCVob", true, mk<VSoundDaytime>, ps<VSoundDaytime>},
			{O::oCZoneMusic, "oCZoneMusic", "oCZoneMusic:zCVob", true, mk<VZoneMusic>, ps<VZoneMusic>},
			{O::oCZoneMusicDefault, "oCZoneMusicDefault", "oCZoneMusicDefault:oCZoneMusic:zCVob", true, mk<VZoneMusicDefault>, ps<VZoneMusicDefault>},
			{O::zCZoneZFog, "zCZoneZFog", "zCZoneZFog:zCVob", true, mk<VZoneFog>, ps<VZoneFog>},
			{O::zCZoneZFogDefault, "zCZoneZFogDefault", "zCZoneZFogDefault:zCZoneZFog:zCVob", true, mk<VZoneFogDefault>, ps<VZoneFogDefault>},
			{O::zCZoneVobFarPlane, "zCZoneVobFarPlane", "zCZoneVobFarPlane:zCVob", true, mk<VZoneFarPlane>, ps<VZoneFarPlane>},
			{O::zCZoneVobFarPlaneDefault, "zCZoneVobFarPlaneDefault", "zCZoneVobFarPlaneDefault:zCZoneVobFarPlane:zCVob", true, mk<VZoneFarPlaneDefault>, ps<VZoneFarPlaneDefault>},
			{O::zCMessageFilter, "zCMessageFilter", "zCMessageFilter:zCVob", true, mk<VMessageFilter>, ps<VMessageFilter>},
			{O::zCCodeMaster, "zCCodeMaster", "zCCodeMaster:zCVob", true, mk<VCodeMaster>, ps<VCodeMaster>},
			{O::zCTrigger, "zCTrigger", "zCTrigger:zCVob", true, mk<VTrigger>, ps<VTrigger>},
			{O::zCTriggerList, "zCTriggerList", "zCTriggerList:zCTrigger:zCVob", true, mk<VTriggerList>, ps<VTriggerList>},
			{O::oCTriggerScript, "oCTriggerScript", "oCTriggerScript:zCTrigger:zCVob", true, mk<VTriggerScript>, ps<VTriggerScript>},
			{O::zCMover, "zCMover", "zCMover:zCTrigger:zCVob", true, mk<VMover>, ps<VMover>},
			{O::oCTriggerChangeLevel, "oCTriggerChangeLevel", "oCTriggerChangeLevel:zCTrigger:zCVob", true, mk<VTriggerChangeLevel>, ps<VTriggerChangeLevel>},
			{O::zCTriggerWorldStart, "zCTriggerWorldStart", "zCTriggerWorldStart:zCVob", true, mk<VTriggerWorldStart>, ps<VTriggerWorldStart>},
			{O::zCTriggerUntouch, "zCTriggerUntouch", "zCTriggerUntouch:zCVob", true, mk<VTriggerUntouch>, ps<VTriggerUntouch>},
			{O::zCCSCamera, "zCCSCamera", "zCCSCamera:zCVob", true, mk<VCutsceneCamera>, ps<VCutsceneCamera>},
			{O::zCCamTrj_KeyFrame, "zCCamTrj_KeyFrame", "zCCamTrj_KeyFrame:zCVob", true, mk<VCameraTrajectoryFrame>, ps<VCameraTrajectoryFrame>},
			{O::oCTouchDamage, "oCTouchDamage", "oCTouchDamage:zCTouchDamage:zCVob", true, mk<VTouchDamage>, ps<VTouchDamage>},
			{O::zCEarthquake, "zCEarthquake", "zCEarthquake:zCVob", true, mk<VEarthquake>, ps<VEarthquake>},
			{O::zCMoverController, "zCMoverControler", "zCMoverControler:zCVob", true, mk<VMoverController>, ps<VMoverController>},
			{O::zCVobScreenFX, "zCVobScreenFX", "zCVobScreenFX:zCVob", true, mk<VScreenEffect>, ps<VScreenEffect>},
			{O::zCVobStair, "zCVobStair", "zCVobStair:zCVob", true, mk<VStair>, ps<VStair>},
			{O::oCCSTrigger, "oCCSTrigger", "oCCSTrigger:zCTrigger:zCVob", true, mk<VCutsceneTrigger>, ps<VCutsceneTrigger>},
			{O::oCNpcTalent, "oCNpcTalent", "oCNpcTalent", false, mk<VNpc::Talent>, ps<VNpc::Talent>},
			{O::zCEventManager, "zCEventManager", "zCEventManager", false, mk<EventManager>, ps<EventManager>},
			{O::zCDecal, "zCDecal", "zCDecal", false, mk<VisualDecal>, ps<VisualDecal>},
			{O::zCMesh, "zCMesh", "zCMesh", false, mk<VisualMesh>, ps<VisualMesh>},
			{O::zCProgMeshProto, "zCProgMeshProto", "zCProgMeshProto", false, mk<VisualMultiResolutionMesh>, ps<VisualMultiResolutionMesh>},
			{O::zCParticleFX, "zCParticleFX", "zCParticleFX", false, mk<VisualParticleEffect>, ps<VisualParticleEffect>},
			{O::zCAICamera, "zCAICamera", "zCAICamera", false, mk<VisualCamera>, ps<VisualCamera>},
			{O::zCModel, "zCModel", "zCModel", false, mk<VisualModel>, ps<VisualModel>},
			{O::zCMorphMesh, "zCMorphMesh", "zCMorphMesh", false, mk<VisualMorphMesh>, ps<VisualMorphMesh>},
			{O::oCAIHuman, "oCAIHuman", "oCAIHuman:oCAniCtrl_Human:zCAIPlayer", false, mk<AiHuman>, ps<AiHuman>},
			{O::oCAIVobMove, "oCAIVobMove", "oCAIVobMove", false, mk<AiMove>, ps<AiMove>},
			{O::oCCSPlayer, "oCCSPlayer", "oCCSPlayer:zCCSPlayer", false, mk<CutscenePlayer>, ps<CutscenePlayer>},
			{O::zCSkyControler_Outdoor, "zCSkyControler_Outdoor", "zCSkyControler_Outdoor", false, mk<SkyController>, ps<SkyController>},
			{O::zCWayNet, "zCWayNet", "zCWayNet", false, mk<WayNet>, ps<WayNet>},
			{O::zCWaypoint, "zCWaypoint", "zCWaypoint", false, mk<WayPoint>, ps<WayPoint>},
			{O::zCMaterial, "zCMaterial", "zCMaterial", false, mk<Material>, ps<Material>},
			{O::oCSavegameInfo, "oCSavegameInfo", "oCSavegameInfo", false, mk<SaveMetadata>, ps<SaveMetadata>},
			{O::oCCSManager, "oCCSManager", "oCCSManager:zCCSManager", false, mk<CutsceneManager>, ps<CutsceneManager>},
			{O::zCCSPoolItem, "zCCSPoolItem", "zCCSPoolItem", false, mk<CutscenePoolItem>, ps<CutscenePoolItem>},
			{O::zCCSBlock, "zCCSBlock", "zCCSBlock", false, mk<CutsceneBlock>, ps<CutsceneBlock>},
			{O::zCCutscene, "zCCutscene", "zCCutscene:zCCSBlock", false, mk<Cutscene>, ps<Cutscene>},
			{O::zCCSCutsceneContext, "zCCSCutsceneContext", "zCCSCutsceneContext:zCCutscene:zCCSBlock", false, mk<CutsceneContext>, ps<CutsceneContext>},
			{O::oCMsgConversation, "oCMsgConversation", "oCMsgConversation:oCNpcMessage:zCEventMessage", false, mk<ConversationMessageEvent>, ps<ConversationMessageEvent>},
			{O::zCCSAtomicBlock, "zCCSAtomicBlock", "zCCSAtomicBlock", false, mk<CutsceneAtomicBlock>, ps<CutsceneAtomicBlock>},
			{O::zCCSLib, "zCCSLib", "zCCSLib", false, mk<CutsceneLibrary>, ps<CutsceneLibrary>},
			{O::zCCSProps, "zCCSProps", "zCCSProps", false, mk<CutsceneProps>, ps<CutsceneProps>},
		};
		return C;
	}
	inline ClassInfo const* class_of(ObjectType t) {
		for (auto& c : classes()) if (c.type == t) return &c;
		return nullptr;
	}

	struct Vis {
		enum Mode { FILL, DUMP, ENC } mode;
		Cfg c;
		Rng* r = nullptr;
		std::string out;                         // DUMP
		std::string path;                        // DUMP
		RefArchive* ar = nullptr;                // ENC
		RefWriter* raw = nullptr;                // ENC: inside a raw block
		std::map<void const*, u32> seen;         // DUMP, ENC
		std::vector<std::shared_ptr<Object>> pool; // FILL: every object made, also what keeps weakly referenced ones alive
		int depth = 0, maxdepth = 3;
		int width = 3;                           // FILL: longest list
		bool share = true;
		bool acyclic = run.prop == "C29"; // no object owns itself, not even through others
		std::vector<Object const*> open;    // FILL: being made
		bool strong_only = false;                // DUMP: weak references are passed over
		std::set<void const*> const* alive = nullptr; // DUMP: weak references to anything else read as nothing
		bool quirk = false;                      // ENC: set the event manager bit, which means nothing outside save-games; the short form of grey colours

		Vis(Mode m, Cfg c, Rng* r = nullptr) : mode(m), c(c), r(r) {}
		bool fill() const { return mode == FILL; }
		bool when(bool cond) const { return mode == FILL || cond; }

		// -------- primitive values
		void line(std::string const& n, std::string const& v) { out += path + n + "=" + v + "\n"; }
		static std::string fs(float f) { u32 b; std::memcpy(&b, &f, 4); return fmt("%.9g/%08x", static_cast<double>(f), b); }
		float rf() { return c.fmt == ArchiveFormat::ASCII ? r->ftext() : r->f(); }
		std::string rs() {
			switch (r->below(6)) {
			case 0: return "";
			case 1: { auto s = r->name(8, true); s += r->pick<char const*>({" x", "[]", "=int:4", "[a b 0 0]", "%", "(1 2 3)", "\xA7", "\xe4\xf6", "#", "a b  c"}); return s; }
			case 2: return r->name(40, true);
			default: return r->name(12, true);
			}
		}
		Val val(Val::Kind k, std::string const& n) { Val v; v.kind = k; v.name = n; return v; }

		void B(std::string const& n, bool& x) {
			if (fill()) x = r->flip();
			else if (mode == DUMP) line(n, x ? "1" : "0");
			else { auto v = val(Val::BOOL, n); v.i = x; ar->value(v); }
		}
		template <class T> void I(std::string const& n, T& x) {
			if (fill()) x = static_cast<T>(r->i());
			else if (mode == DUMP) line(n, std::to_string(static_cast<i64>(x)));
			else if (raw) raw->i32_(static_cast<i32>(x));
			else { auto v = val(Val::INT, n); v.i = static_cast<i32>(x); ar->value(v); }
		}
		void F(std::string const& n, float& x) {
			if (fill()) x = rf();
			else if (mode == DUMP) line(n, fs(x));
			else if (raw) raw->f32_(x);
			else { auto v = val(Val::FLOAT, n); v.f[0] = x; ar->value(v); }
		}
		void Y(std::string const& n, u8& x) {
			if (fill()) x = static_cast<u8>(r->u());
			else if (mode == DUMP) line(n, std::to_string(x));
			else if (raw) raw->u8_(x);
			else { auto v = val(Val::BYTE, n); v.i = x; ar->value(v); }
		}
		void S(std::string const& n, std::string& x) {
			if (fill()) x = rs();
			else if (mode == DUMP) line(n, esc(x, 1000));
			else { auto v = val(Val::STRING, n); v.s = x; ar->value(v); }
		}
		template <class T> void E(std::string const& n, T& x, u32 count) {
			if (fill()) x = static_cast<T>(r->below(count));
			else if (mode == DUMP) line(n, std::to_string(static_cast<u32>(x)));
			else { auto v = val(Val::ENUM, n); v.i = static_cast<u32>(x); ar->value(v); }
		}
		void V2(std::string const& n, zenkit::Vec2& x) {
			if (fill()) x = {rf(), rf()};
			else if (mode == DUMP) line(n, fs(x.x) + " " + fs(x.y));
			else { auto v = val(Val::VEC2, n); v.f[0] = x.x; v.f[1] = x.y; ar->value(v); }
		}
		void V3(std::string const& n, zenkit::Vec3& x) {
			if (fill()) x = {rf(), rf(), rf()};
			else if (mode == DUMP) line(n, fs(x.x) + " " + fs(x.y) + " " + fs(x.z));
			else if (raw) { raw->f32_(x.x); raw->f32_(x.y); raw->f32_(x.z); }
			else { auto v = val(Val::VEC3, n); v.f[0] = x.x; v.f[1] = x.y; v.f[2] = x.z; ar->value(v); }
		}
		void M3(std::string const& n, zenkit::Mat3& x) {
			// stored row by row, x[column][row]
			if (fill()) { for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) x[static_cast<unsigned>(a)][static_cast<unsigned>(b)] = rf(); return; }
			std::array<float, 9> f;
			for (unsigned row = 0; row < 3; ++row) for (unsigned col = 0; col < 3; ++col) f[row * 3 + col] = x[col][row];
			if (mode == DUMP) { std::string s; for (float q : f) s += fs(q) + " "; line(n, s); }
			else if (raw) for (float q : f) raw->f32_(q);
			else { auto v = val(Val::MAT3, n); v.f = f; ar->value(v); }
		}
		void M4(std::string const& n, zenkit::Mat4& x) {
			if (fill()) { for (unsigned a = 0; a < 4; ++a) for (unsigned b = 0; b < 4; ++b) x[a][b] = rf(); return; }
			std::string s;
			for (unsigned row = 0; row < 4; ++row) for (unsigned col = 0; col < 4; ++col) {
				if (mode == DUMP) s += fs(x[col][row]) + " ";
				else raw->f32_(x[col][row]);
			}
			if (mode == DUMP) line(n, s);
		}
		void BB(std::string const& n, zenkit::AxisAlignedBoundingBox& x) {
			if (fill()) { x.min = {rf(), rf(), rf()}; x.max = {rf(), rf(), rf()}; return; }
			float f[6] = {x.min.x, x.min.y, x.min.z, x.max.x, x.max.y, x.max.z};
			if (mode == DUMP) { std::string s; for (float q : f) s += fs(q) + " "; line(n, s); }
			else if (raw) for (float q : f) raw->f32_(q);
			else { auto v = val(Val::BBOX, n); std::copy(f, f + 6, v.f.begin()); ar->value(v); }
		}
		void C(std::string const& n, zenkit::Color& x) {
			if (fill()) x = {static_cast<u8>(r->u()), static_cast<u8>(r->u()), static_cast<u8>(r->u()), static_cast<u8>(r->u())};
			else if (mode == DUMP) line(n, fmt("%d %d %d %d", x.r, x.g, x.b, x.a));
			else { auto v = val(Val::COLOR, n); v.c = {x.r, x.g, x.b, x.a}; ar->value(v); }
		}
		// a constant that carries no attribute
		void KI(std::string const& n, i32 x) { if (mode == ENC) { auto v = val(Val::INT, n); v.i = x; ar->value(v); } }
		void KF(std::string const& n, float x) { if (mode == ENC) { auto v = val(Val::FLOAT, n); v.f[0] = x; ar->value(v); } }
		void KY(std::string const& n, u32 x) { if (mode == ENC) { auto v = val(Val::BYTE, n); v.i = x; ar->value(v); } }
		void KW(std::string const& n, u32 x) { if (mode == ENC) { auto v = val(Val::WORD, n); v.i = x; ar->value(v); } }
		void KS(std::string const& n, std::string const& x) { if (mode == ENC) { auto v = val(Val::STRING, n); v.s = x; ar->value(v); } }
		void KV2(std::string const& n) { if (mode == ENC) ar->value(val(Val::VEC2, n)); }
		void KRAW(std::string const& n, Bytes const& b) { if (mode == ENC) { auto v = val(Val::RAW, n); v.raw = b; ar->value(v); } }
		// a raw block assembled from fields
		template <class F> void RAW(std::string const& n, F f) {
			RefWriter w;
			if (mode == ENC) raw = &w;
			f();
			if (mode == ENC) { raw = nullptr; KRAW(n, to_bytes(w.b)); }
		}
		// list length, in memory; `n` empty: the length is stored elsewhere
		template <class T> u32 N(std::string const& n, std::vector<T>& x, u32 max = 0xffffffff) {
			if (fill()) { x.clear(); x.resize(std::min<u32>(max, r->below(static_cast<u32>(width) + 1))); }
			else if (mode == DUMP) line(n + ".size", std::to_string(x.size()));
			return static_cast<u32>(x.size());
		}

		// -------- objects
		std::shared_ptr<Object> make(std::vector<ObjectType> const& kinds) {
			auto o = class_of(r->pick(kinds))->make();
			pool.push_back(o);
			++depth;
			fields(*o);
			--depth;
			return o;
		}
		template <class T> void O(std::string const& n, std::shared_ptr<T>& p, std::vector<ObjectType> const& kinds, int nullpct = 30) {
			if (fill()) {
				p = nullptr;
				if (r->chance(nullpct)) return;
				if (share && !pool.empty() && r->chance(depth >= maxdepth ? 100 : 25)) {
					for (int k = 0; k < 6; ++k) {
						auto& q = pool[r->below(static_cast<u32>(pool.size()))];
						if (std::find(kinds.begin(), kinds.end(), q->get_object_type()) == kinds.end()) continue;
						if (acyclic && std::find(open.begin(), open.end(), q.get()) != open.end()) continue;
						p = std::dynamic_pointer_cast<T>(q);
						break;
					}
					if (p) return;
				}
				if (depth >= maxdepth && nullpct > 0) return;
				p = std::dynamic_pointer_cast<T>(make(kinds));
				return;
			}
			object(n, p.get());
		}
		template <class T> void W(std::string const& n, std::weak_ptr<T>& p, std::vector<ObjectType> const& kinds) {
			auto q = p.lock();
			if (mode == DUMP && strong_only) return;
			if (mode == DUMP && alive && q && !alive->count(q.get())) q = nullptr;
			O(n, q, kinds);
			if (fill()) p = q;
		}
		void object(std::string const& n, Object* o) {
			if (mode == DUMP) {
				if (o == nullptr) { line(n, "null"); return; }
				if (auto it = seen.find(o); it != seen.end()) { line(n, "#" + std::to_string(it->second)); return; }
				u32 id = static_cast<u32>(seen.size());
				seen[o] = id;
				auto* ci = class_of(o->get_object_type());
				line(n, "#" + std::to_string(id) + " " + (ci ? ci->name : "?"));
				auto keep = path;
				path += n + ".";
				fields(*o);
				path = keep;
			} else {
				if (o == nullptr) { ar->begin(n, "%", 0); ar->end(); return; }
				if (auto it = seen.find(o); it != seen.end()) { ar->ref(n, it->second); return; }
				auto* ci = class_of(o->get_object_type());
				seen[o] = ar->begin(n, ci->chain, o->get_version_identifier(c.v));
				auto* keep = raw;
				raw = nullptr;
				fields(*o);
				raw = keep;
				ar->end();
			}
		}

		void fields_of(Object& o); // dispatch by class
		void fields(Object& o) {
			if (fill()) open.push_back(&o);
			fields_of(o);
			if (fill()) open.pop_back();
		}
		void vob(zenkit::VirtualObject& o);
		void trigger(zenkit::VTrigger& o);
		void mob(zenkit::VMovableObject& o);
		void mobinter(zenkit::VInteractiveObject& o);
		void sound(zenkit::VSound& o);
		void light(zenkit::LightPreset& o);
		void npc(zenkit::VNpc& o);
		void csblock(zenkit::CutsceneBlock& o);
		void material(zenkit::Material& o);
	};

	inline std::vector<ObjectType> vob_types() { std::vector<ObjectType> v; for (auto& c : classes()) if (c.vob) v.push_back(c.type); return v; }

	inline void Vis::vob(zenkit::VirtualObject& o) {
		using namespace zenkit;
		using T = ObjectType;
		static std::vector<T> const VIS {T::zCDecal, T::zCMesh, T::zCProgMeshProto, T::zCParticleFX, T::zCAICamera, T::zCModel, T::zCMorphMesh};
		if (fill()) {
			bool save_depth = share;
			share = false; // a visual belongs to one object: its name is stored there
			o.visual = nullptr;
			if (r->chance(60)) {
				O("visual", o.visual, VIS, 0);
				static std::map<T, VisualType> const K {{T::zCDecal, VisualType::DECAL}, {T::zCMesh, VisualType::MESH}, {T::zCProgMeshProto, VisualType::MULTI_RESOLUTION_MESH},
				    {T::zCParticleFX, VisualType::PARTICLE_EFFECT}, {T::zCAICamera, VisualType::AI_CAMERA}, {T::zCModel, VisualType::MODEL}, {T::zCMorphMesh, VisualType::MORPH_MESH}};
				o.visual->type = K.at(o.visual->get_object_type());
				o.visual->name = rs();
			} else if (r->chance(50)) { // named, but without a visual object
				o.visual = std::make_shared<Visual>();
				o.visual->name = rs();
			}
			share = save_depth;
			O("ai", o.ai, {T::oCAIHuman, T::oCAIVobMove}, 80);
			o.event_manager = nullptr;
			if (c.save && c.packed) O("", o.event_manager, {T::zCEventManager}, 80);
			o.physics_enabled = r->chance(30);
			o.rigid_body.reset();
			if (o.physics_enabled && c.save) {
				auto& b = o.rigid_body.emplace();
				b.vel = {rf(), rf(), rf()}; b.mode = static_cast<u8>(r->u()); b.gravity_enabled = r->flip(); b.gravity_scale = rf(); b.slide_direction = {rf(), rf(), rf()};
			}
		}
		bool hasobj = o.visual && o.visual->type != VisualType::UNKNOWN;
		std::string vname = o.visual ? o.visual->name : "";
		KI("pack", c.packed);
		if (c.packed || fill()) {
			RAW("dataRaw", [&] {
				BB("bbox", o.bbox);
				V3("position", o.position);
				M3("rotation", o.rotation);
				if (fill()) {
					o.show_visual = r->flip(); o.sprite_camera_facing_mode = static_cast<SpriteAlignment>(r->below(3)); o.cd_static = r->flip();
					o.cd_dynamic = r->flip(); o.vob_static = r->flip(); o.dynamic_shadows = static_cast<ShadowType>(r->below(2));
					o.anim_mode = static_cast<AnimationType>(r->below(3)); o.bias = c.packed ? static_cast<i32>(r->below(32)) : r->i(); o.ambient = r->flip();
					o.anim_strength = rf(); o.far_clip_scale = rf();
					o.preset_name = r->chance(70) ? rs() : ""; o.vob_name = r->chance(70) ? rs() : "";
				} else if (mode == ENC) {
					u32 b0 = static_cast<u32>(o.show_visual) | static_cast<u32>(o.sprite_camera_facing_mode) << 1 | static_cast<u32>(o.cd_static) << 3 |
					    static_cast<u32>(o.cd_dynamic) << 4 | static_cast<u32>(o.vob_static) << 5 | static_cast<u32>(o.dynamic_shadows) << 6;
					u32 b1 = static_cast<u32>(!o.preset_name.empty()) | static_cast<u32>(!o.vob_name.empty()) << 1 | static_cast<u32>(!vname.empty()) << 2 |
					    static_cast<u32>(hasobj) << 3 | static_cast<u32>(!!o.ai) << 4 | static_cast<u32>(!!o.event_manager || quirk) << 5 | static_cast<u32>(o.physics_enabled) << 6;
					raw->u8_(b0);
					if (!c.g2()) raw->u8_(b1);
					else {
						b1 |= static_cast<u32>(o.anim_mode) << 7 | static_cast<u32>(o.bias) << 9 | static_cast<u32>(o.ambient) << 14;
						raw->u16_(b1);
						raw->f32_(o.anim_strength);
						raw->f32_(o.far_clip_scale);
					}
				}
			});
			if (mode == ENC) {
				if (!o.preset_name.empty()) KS("presetName", o.preset_name);
				if (!o.vob_name.empty()) KS("vobName", o.vob_name);
				if (!vname.empty()) KS("visual", vname);
				if (hasobj) object("visual", o.visual.get());
				if (o.ai) object("ai", o.ai.get());
				if (o.event_manager && c.save) object("%", o.event_manager.get());
			}
		} else if (mode == ENC) {
			S("presetName", o.preset_name);
			BB("bbox3DWS", o.bbox);
			M3("trafoOSToWSRot", o.rotation);
			V3("trafoOSToWSPos", o.position);
			S("vobName", o.vob_name);
			KS("visual", vname);
			B("showVisual", o.show_visual);
			E("visualCamAlign", o.sprite_camera_facing_mode, 3);
			if (c.g2()) { E("visualAniMode", o.anim_mode, 3); F("visualAniModeStrength", o.anim_strength); F("vobFarClipZScale", o.far_clip_scale); }
			B("cdStatic", o.cd_static);
			B("cdDyn", o.cd_dynamic);
			B("staticVob", o.vob_static);
			E("dynShadow", o.dynamic_shadows, 2);
			if (c.g2()) { I("zbias", o.bias); B("isAmbient", o.ambient); }
			object("visual", hasobj ? o.visual.get() : nullptr);
			object("ai", o.ai.get());
		}
		if (mode == DUMP) {
			if (!c.packed) { BB("bbox", o.bbox); V3("position", o.position); M3("rotation", o.rotation); }
			S("preset_name", o.preset_name); S("vob_name", o.vob_name); S("visual.name", vname);
			line("visual.type", std::to_string(static_cast<int>(o.visual ? o.visual->type : VisualType::UNKNOWN)));
			B("show_visual", o.show_visual); E("sprite", o.sprite_camera_facing_mode, 3); B("cd_static", o.cd_static); B("cd_dynamic", o.cd_dynamic);
			B("vob_static", o.vob_static); E("shadow", o.dynamic_shadows, 2);
			if (c.g2()) { E("anim_mode", o.anim_mode, 3); I("bias", o.bias); B("ambient", o.ambient); F("anim_strength", o.anim_strength); F("far_clip", o.far_clip_scale); }
			if (c.packed) B("physics", o.physics_enabled);
			object("visual", hasobj ? o.visual.get() : nullptr);
			object("ai", o.ai.get());
			if (c.save && c.packed) object("event_manager", o.event_manager.get());
		}
		if (when(c.save)) {
			Y("sleepMode", o.sleep_mode);
			F("nextOnTimer", o.next_on_timer);
			if (!fill() && (c.packed ? o.physics_enabled : true)) {
				RigidBody b {};
				if (o.rigid_body) b = *o.rigid_body;
				V3("vel", b.vel); Y("mode", b.mode); B("gravOn", b.gravity_enabled); F("gravScale", b.gravity_scale); V3("slideDir", b.slide_direction);
			}
		}
	}

	inline void Vis::trigger(zenkit::VTrigger& o) {
		vob(o);
		S("triggerTarget", o.target);
		if (fill()) {
			o.start_enabled = r->flip(); o.send_untrigger = r->flip(); o.react_to_on_trigger = r->flip(); o.react_to_on_touch = r->flip();
			o.react_to_on_damage = r->flip(); o.respond_to_object = r->flip(); o.respond_to_pc = r->flip(); o.respond_to_npc = r->flip();
			o.flags = o.filter_flags = 0;
		} else if (mode == ENC) {
			u32 a = static_cast<u32>(o.start_enabled) | static_cast<u32>(o.send_untrigger) << 2;
			u32 b = static_cast<u32>(o.react_to_on_trigger) | static_cast<u32>(o.react_to_on_touch) << 1 | static_cast<u32>(o.react_to_on_damage) << 2 |
			    static_cast<u32>(o.respond_to_object) << 3 | static_cast<u32>(o.respond_to_pc) << 4 | static_cast<u32>(o.respond_to_npc) << 5;
			KRAW("flags", {static_cast<std::byte>(a)});
			KRAW("filterFlags", {static_cast<std::byte>(b)});
		} else
			line("flags", fmt("%d%d %d%d%d%d%d%d", o.start_enabled, o.send_untrigger, o.react_to_on_trigger, o.react_to_on_touch, o.react_to_on_damage,
			                  o.respond_to_object, o.respond_to_pc, o.respond_to_npc));
		S("respondToVobName", o.vob_target);
		I("numCanBeActivated", o.max_activation_count);
		F("retriggerWaitSec", o.retrigger_delay_sec);
		F("damageThreshold", o.damage_threshold);
		F("fireDelaySec", o.fire_delay_sec);
		if (when(c.save)) {
			F("nextTimeTriggerable", o.s_next_time_triggerable);
			O("savedOtherVob", o.s_other_vob, vob_types(), 70);
			I("countCanBeActivated", o.s_count_can_be_activated);
			if (when(c.g2())) B("isEnabled", o.s_is_enabled);
		}
	}
	inline void Vis::mob(zenkit::VMovableObject& o) {
		vob(o);
		S("focusName", o.name); I("hitpoints", o.hp); I("damage", o.damage); B("moveable", o.movable); B("takeable", o.takable);
		B("focusOverride", o.focus_override); E("soundMaterial", o.material, 6); S("visualDestroyed", o.visual_destroyed);
		S("owner", o.owner); S("ownerGuild", o.owner_guild); B("isDestroyed", o.destroyed);
	}
	inline void Vis::mobinter(zenkit::VInteractiveObject& o) {
		mob(o);
		I("stateNum", o.state_count); S("triggerTarget", o.target); S("useWithItem", o.item); S("conditionFunc", o.condition_function);
		S("onStateFunc", o.on_state_change_function); B("rewind", o.rewind);
	}
	inline void Vis::sound(zenkit::VSound& o) {
		vob(o);
		F("sndVolume", o.volume); E("sndMode", o.mode, 3); F("sndRandDelay", o.random_delay); F("sndRandDelayVar", o.random_delay_var);
		B("sndStartOn", o.initially_playing); B("sndAmbient3D", o.ambient3d); B("sndObstruction", o.obstruction); F("sndConeAngle", o.cone_angle);
		E("sndVolType", o.volume_type, 2); F("sndRadius", o.radius); S("sndName", o.sound_name);
		if (when(c.save)) { B("soundIsRunning", o.s_is_running); B("soundAllowedToRun", o.s_is_allowed_to_run); }
	}
	inline void Vis::light(zenkit::LightPreset& o) {
		S("lightPresetInUse", o.preset); E("lightType", o.light_type, 4); F("range", o.range); C("color", o.color); F("spotConeAngle", o.cone_angle);
		B("lightStatic", o.is_static); E("lightQuality", o.quality, 3); S("lensflareFX", o.lensflare_fx);
		if (!when(!o.is_static)) return;
		B("turnedOn", o.on);
		u32 n = N("rangeAniScale", o.range_animation_scale);
		if (mode == ENC) { std::string s; for (float f : o.range_animation_scale) { char b[40]; snprintf(b, sizeof b, "%.9g ", static_cast<double>(f)); s += b; } KS("rangeAniScale", s); }
		else for (u32 k = 0; k < n; ++k) { if (fill()) o.range_animation_scale[k] = static_cast<float>(r->range(-1000000, 1000000)) / r->pick<float>({1, 64, 1000, 3}); else F("rangeAniScale", o.range_animation_scale[k]); }
		F("rangeAniFPS", o.range_animation_fps); B("rangeAniSmooth", o.range_animation_smooth);
		n = N("colorAniList", o.color_animation_list);
		if (mode == ENC) { std::string s; for (auto& q : o.color_animation_list) s += quirk && q.r == q.g && q.g == q.b ? fmt("%d ", q.r) : fmt("(%d %d %d) ", q.r, q.g, q.b); KS("colorAniList", s); }
		else for (u32 k = 0; k < n; ++k) { C("colorAniList", o.color_animation_list[k]); auto& q = o.color_animation_list[k]; q.a = 255; if (fill() && r->chance(40)) q.g = q.b = q.r; }
		F("colorAniFPS", o.color_animation_fps); B("colorAniSmooth", o.color_animation_smooth);
		if (when(c.g2())) B("canMove", o.can_move);
	}
	inline void Vis::npc(zenkit::VNpc& o) {
		using namespace zenkit;
		using T = ObjectType;
		vob(o);
		S("npcInstance", o.npc_instance); V3("modelScale", o.model_scale); F("modelFatness", o.model_fatness);
		u32 n = N("overlays", o.overlays);
		KI("numOverlays", static_cast<i32>(n));
		for (u32 k = 0; k < n; ++k) S("overlay", o.overlays[k]);
		I("flags", o.flags); I("guild", o.guild); I("guildTrue", o.guild_true); I("level", o.level); I("xp", o.xp); I("xpnl", o.xp_next_level); I("lp", o.lp);
		n = N("talents", o.talents);
		KI("numTalents", static_cast<i32>(n));
		for (u32 k = 0; k < n; ++k) O("%", o.talents[k], {T::oCNpcTalent}, 10);
		I("fightTactic", o.fight_tactic); I("fightMode", o.fight_mode); B("wounded", o.wounded); B("mad", o.mad); I("madTime", o.mad_time); B("player", o.player);
		for (u32 k = 0; k < 8; ++k) I("atr" + std::to_string(k), o.attributes[k]);
		if (when(c.g2())) for (u32 k = 0; k < 4; ++k) I("hc" + std::to_string(k), o.hit_chance[k]);
		for (u32 k = 0; k < 5; ++k) I("mission" + std::to_string(k), o.missions[k]);
		S("startAIState", o.start_ai_state);
		RAW("scriptVars", [&] { for (u32 k = 0; k < (fill() || c.g2() ? 100u : 50u); ++k) I("aivar", o.aivar[k]); });
		S("scriptWp", o.script_waypoint); I("attitude", o.attitude); I("tmpAttitude", o.attitude_temp); I("nameNr", o.name_nr);
		KRAW("spells", Bytes(4));
		n = N("news", o.news);
		KI("NumOfEntries", static_cast<i32>(n));
		for (u32 k = 0; k < n; ++k) {
			if (fill()) o.news[k] = std::make_unique<VNpc::News>();
			auto& q = *o.news[k];
			B("told", q.told); F("spread_time", q.spread_time); I("spreadType", q.spread_type); I("news_id", q.news_id); B("gossip", q.gossip);
			B("guildvictim", q.guild_victim); S("witnessName", q.witness_name); S("offenderName", q.offender_name); S("victimName", q.victim_name);
		}
		O("carryVob", o.carry_vob, vob_types(), 80);
		O("enemy", o.enemy, vob_types(), 80);
		B("moveLock", o.move_lock);
		std::string pk;
		for (u32 k = 0; k < 9; ++k) {
			if (fill()) { o.packed[k] = r->chance(30) ? "" : r->name(10); }
			else if (mode == DUMP || !c.g2()) S("packed", o.packed[k]);
			pk += (k ? ";" : "") + o.packed[k];
		}
		if (mode == ENC && c.g2()) KS("packed", pk);
		n = N("items", o.items);
		KI("itemCount", static_cast<i32>(n));
		for (u32 k = 0; k < n; ++k) {
			// not an item the NPC itself hangs from: its flags, which decide what follows here, are stored after it
			bool keep = share; share = false;
			O("item" + std::to_string(k), o.items[k], {T::oCItem}, 15);
			share = keep;
			// items carry their flags only in save-games
			if (fill() && o.items[k] && !c.save) o.items[k]->s_flags = 0;
			if (mode == ENC && o.items[k] && (o.items[k]->s_flags & 0x200)) KI("shortKey" + std::to_string(k), 0);
		}
		n = N("slots", o.slots);
		KI("numInvSlots", static_cast<i32>(n));
		for (u32 k = 0; k < n; ++k) {
			if (fill()) o.slots[k] = std::make_unique<VNpc::Slot>();
			auto& q = *o.slots[k];
			B("used", q.used); S("name", q.name);
			if (when(q.used)) { O("vob", q.item, {T::oCItem}, 20); B("inInv", q.in_inventory); if (fill() && q.item && !c.save) q.item->s_flags = 0; }
		}
		B("curState.valid", o.current_state_valid); S("curState.name", o.current_state_name); I("curState.prgIndex", o.current_state_index);
		B("curState.isRtnState", o.current_state_is_routine); B("nextState.valid", o.next_state_valid); S("nextState.name", o.next_state_name);
		I("nextState.prgIndex", o.next_state_index); B("nextState.isRtnState", o.next_state_is_routine); I("lastAIState", o.last_ai_state);
		B("hasRoutine", o.has_routine); B("rtnChanged", o.routine_changed); B("rtnOverlay", o.routine_overlay); I("rtnOverlayCount", o.routine_overlay_count);
		I("walkmode_routine", o.walkmode_routine); B("weaponmode_routine", o.weaponmode_routine); B("startNewRoutine", o.start_new_routine);
		I("aiStateDriven", o.ai_state_driven); V3("aiStatePos", o.ai_state_pos); S("curRoutine", o.current_routine); B("respawn", o.respawn);
		I("respawnTime", o.respawn_time);
		RAW("protection", [&] { for (u32 k = 0; k < 8; ++k) I("protection", o.protection[k]); });
		if (when(c.g2())) { I("bsInterruptableOverride", o.bs_interruptable_override); I("npcType", o.npc_type); I("spellMana", o.spell_mana); }
	}
	inline void Vis::csblock(zenkit::CutsceneBlock& o) {
		using namespace zenkit;
		S("blockName", o.name);
		KI("numOfBlocks", 1);
		KF("subBlock0", 0);
		if (fill()) {
			bool keep = share; share = false; // blocks form a tree
			if (depth < maxdepth && r->chance(30)) o.block = std::dynamic_pointer_cast<CutsceneBlock>(make({ObjectType::zCCSBlock}));
			else o.block = std::dynamic_pointer_cast<CutsceneAtomicBlock>(make({ObjectType::zCCSAtomicBlock}));
			share = keep;
		} else if (auto* b = std::get_if<std::shared_ptr<CutsceneBlock>>(&o.block)) object("%", b->get());
		else object("%", std::get<std::shared_ptr<CutsceneAtomicBlock>>(o.block).get());
	}

	inline void Vis::material(zenkit::Material& o) {
		using namespace zenkit;
		auto pair = [&](std::string const& n, Vec2& x) { // stored as text in every encoding
			if (fill()) x = {r->chance(20) ? r->f() : r->ftext(), r->chance(20) ? r->f() : r->chance(50) ? r->ftext() : static_cast<float>(r->range(-1000000, 1000000)) / 3.0f};
			else if (mode == DUMP) line(n, fs(x.x) + " " + fs(x.y));
			else { char b[80]; snprintf(b, sizeof b, "%.9g %.9g", static_cast<double>(x.x), static_cast<double>(x.y)); KS(n, b); }
		};
		S("name", o.name); E("matGroup", o.group, 7); C("color", o.color); F("smoothAngle", o.smooth_angle); S("texture", o.texture);
		pair("texScale", o.texture_scale);
		F("texAniFPS", o.texture_anim_fps); E("texAniMapMode", o.texture_anim_map_mode, 2);
		pair("texAniMapDir", o.texture_anim_map_dir);
		B("noCollDet", o.disable_collision); B("noLightmap", o.disable_lightmap); B("lodDontCollapse", o.dont_collapse); S("detailObject", o.detail_object);
		if (when(c.g2())) {
			F("detailObjectScale", o.detail_object_scale); B("forceOccluder", o.force_occluder); B("environmentalMapping", o.environment_mapping);
			F("environmentalMappingStrength", o.environment_mapping_strength); E("waveMode", o.wave_mode, 8); E("waveSpeed", o.wave_speed, 4);
			F("waveMaxAmplitude", o.wave_max_amplitude); F("waveGridSize", o.wave_grid_size); B("ignoreSunLight", o.ignore_sun); E("alphaFunc", o.alpha_func, 7);
		}
		V2("defaultMapping", o.default_mapping);
	}

	inline void Vis::fields_of(Object& obj) {
		using namespace zenkit;
		using T = ObjectType;
		switch (obj.get_object_type()) {
		case T::zCVob: case T::zCVobLevelCompo: case T::zCVobSpot: case T::zCVobStartpoint: case T::zCVobStair:
			vob(dynamic_cast<VirtualObject&>(obj)); break;
		case T::oCItem: {
			auto& o = dynamic_cast<VItem&>(obj);
			vob(o); S("itemInstance", o.instance);
			if (when(c.save)) { I("amount", o.s_amount); I("flags", o.s_flags); }
			break;
		}
		case T::oCNpc: npc(dynamic_cast<VNpc&>(obj)); break;
		case T::oCMOB: mob(dynamic_cast<VMovableObject&>(obj)); break;
		case T::oCMobInter: case T::oCMobBed: case T::oCMobLadder: case T::oCMobSwitch: case T::oCMobWheel: mobinter(dynamic_cast<VInteractiveObject&>(obj)); break;
		case T::oCMobFire: { auto& o = dynamic_cast<VFire&>(obj); mobinter(o); S("fireSlot", o.slot); S("fireVobtreeName", o.vob_tree); break; }
		case T::oCMobContainer: {
			auto& o = dynamic_cast<VContainer&>(obj);
			mobinter(o); B("locked", o.locked); S("keyInstance", o.key); S("pickLockStr", o.pick_string); S("contains", o.contents);
			if (when(c.save)) {
				u32 n = N("s_items", o.s_items);
				KI("NumOfEntries", static_cast<i32>(n));
				for (u32 k = 0; k < n; ++k) O("%", o.s_items[k], {T::oCItem}, 10);
			}
			break;
		}
		case T::oCMobDoor: { auto& o = dynamic_cast<VDoor&>(obj); mobinter(o); B("locked", o.locked); S("keyInstance", o.key); S("pickLockStr", o.pick_string); break; }
		case T::zCPFXController: { auto& o = dynamic_cast<VParticleEffectController&>(obj); vob(o); S("pfxName", o.pfx_name); B("killVobWhenDone", o.kill_when_done); B("pfxStartOn", o.initially_running); break; }
		case T::zCVobAnimate: { auto& o = dynamic_cast<VAnimate&>(obj); vob(o); B("startOn", o.start_on); if (when(c.save)) B("isRunning", o.s_is_running); break; }
		case T::zCVobLensFlare: { auto& o = dynamic_cast<VLensFlare&>(obj); vob(o); S("lensflareFX", o.fx); break; }
		case T::zCVobLight: { auto& o = dynamic_cast<VLight&>(obj); vob(o); light(o); break; }
		case T::zCVobSound: sound(dynamic_cast<VSound&>(obj)); break;
		case T::zCVobSoundDaytime: { auto& o = dynamic_cast<VSoundDaytime&>(obj); sound(o); F("sndStartTime", o.start_time); F("sndEndTime", o.end_time); S("sndName2", o.sound_name2); break; }
		case T::oCZoneMusic: case T::oCZoneMusicDefault: {
			auto& o = dynamic_cast<VZoneMusic&>(obj);
			vob(o); B("enabled", o.enabled); I("priority", o.priority); B("ellipsoid", o.ellipsoid); F("reverbLevel", o.reverb); F("volumeLevel", o.volume); B("loop", o.loop);
			if (when(c.save)) { B("local_enabled", o.s_local_enabled); B("dayEntranceDone", o.s_day_entrance_done); B("nightEntranceDone", o.s_night_entrance_done); }
			break;
		}
		case T::zCZoneZFog: case T::zCZoneZFogDefault: {
			auto& o = dynamic_cast<VZoneFog&>(obj);
			vob(o); F("fogRangeCenter", o.range_center); F("innerRangePerc", o.inner_range_percentage); C("fogColor", o.color);
			if (when(c.g2())) { B("fadeOutSky", o.fade_out_sky); B("overrideColor", o.override_color); }
			break;
		}
		case T::zCZoneVobFarPlane: case T::zCZoneVobFarPlaneDefault: { auto& o = dynamic_cast<VZoneFarPlane&>(obj); vob(o); F("vobFarPlaneZ", o.vob_far_plane_z); F("innerRangePerc", o.inner_range_percentage); break; }
		case T::zCMessageFilter: { auto& o = dynamic_cast<VMessageFilter&>(obj); vob(o); S("triggerTarget", o.target); E("onTrigger", o.on_trigger, 7); E("onUntrigger", o.on_untrigger, 7); break; }
		case T::zCCodeMaster: {
			auto& o = dynamic_cast<VCodeMaster&>(obj);
			vob(o); S("triggerTarget", o.target); B("orderRelevant", o.ordered); B("firstFalseIsFailure", o.first_false_is_failure);
			S("triggerTargetFailure", o.failure_target); B("untriggerCancels", o.untriggered_cancels);
			u32 n = N("slaves", o.slaves);
			KY("numSlaves", n);
			for (u32 k = 0; k < n; ++k) S("slaveVobName" + std::to_string(k), o.slaves[k]);
			if (when(c.save && c.g2())) {
				Y("numSlavesTriggered", o.s_num_triggered_slaves);
				if (mode == ENC) for (u32 k = 0; k < n; ++k) object("slaveTriggered" + std::to_string(k), nullptr);
			}
			break;
		}
		case T::zCTrigger: case T::oCCSTrigger: trigger(dynamic_cast<VTrigger&>(obj)); break;
		case T::zCTriggerList: {
			auto& o = dynamic_cast<VTriggerList&>(obj);
			trigger(o); E("listProcess", o.mode, 3);
			u32 n = N("targets", o.targets);
			KY("numTargets", n);
			for (u32 k = 0; k < n; ++k) { S("triggerTarget" + std::to_string(k), o.targets[k].name); F("fireDelay" + std::to_string(k), o.targets[k].delay); }
			if (when(c.save)) { Y("actTarget", o.s_act_target); B("sendOnTrigger", o.s_send_on_trigger); }
			break;
		}
		case T::oCTriggerScript: { auto& o = dynamic_cast<VTriggerScript&>(obj); trigger(o); S("scriptFunc", o.function); break; }
		case T::zCMover: {
			auto& o = dynamic_cast<VMover&>(obj);
			trigger(o); E("moverBehavior", o.behavior, 5); F("touchBlockerDamage", o.touch_blocker_damage); F("stayOpenTimeSec", o.stay_open_time_sec);
			B("moverLocked", o.locked); B("autoLinkEnabled", o.auto_link);
			if (when(c.g2())) B("autoRotate", o.auto_rotate);
			u32 n = N("keyframes", o.keyframes);
			KW("numKeyframes", n);
			if (when(n > 0)) {
				F("moveSpeed", o.speed); E("posLerpType", o.lerp_mode, 2); E("speedType", o.speed_mode, 7);
				RAW("keyframes", [&] { for (u32 k = 0; k < n; ++k) {
					auto& s = o.keyframes[k];
					V3("pos", s.position); F("x", s.rotation.x); F("y", s.rotation.y); F("z", s.rotation.z); F("w", s.rotation.w);
				} });
			}
			if (when(c.save)) {
				V3("actKeyPosDelta", o.s_act_key_pos_delta); F("actKeyframeF", o.s_act_keyframe_f); I("actKeyframe", o.s_act_keyframe); I("nextKeyframe", o.s_next_keyframe);
				F("moveSpeedUnit", o.s_move_speed_unit); F("advanceDir", o.s_advance_dir); E("moverState", o.s_mover_state, 8); I("numTriggerEvents", o.s_trigger_event_count);
				F("stayOpenTimeDest", o.s_stay_open_time_dest);
			}
			S("sfxOpenStart", o.sfx_open_start); S("sfxOpenEnd", o.sfx_open_end); S("sfxMoving", o.sfx_transitioning); S("sfxCloseStart", o.sfx_close_start);
			S("sfxCloseEnd", o.sfx_close_end); S("sfxLock", o.sfx_lock); S("sfxUnlock", o.sfx_unlock); S("sfxUseLocked", o.sfx_use_locked);
			break;
		}
		case T::oCTriggerChangeLevel: { auto& o = dynamic_cast<VTriggerChangeLevel&>(obj); trigger(o); S("levelName", o.level_name); S("startVobName", o.start_vob); break; }
		case T::zCTriggerWorldStart: { auto& o = dynamic_cast<VTriggerWorldStart&>(obj); vob(o); S("triggerTarget", o.target); B("fireOnlyFirstTime", o.fire_once); if (when(c.save && c.g2())) B("hasFired", o.s_has_fired); break; }
		case T::zCTriggerUntouch: { auto& o = dynamic_cast<VTriggerUntouch&>(obj); vob(o); S("triggerTarget", o.target); break; }
		case T::zCCSCamera: {
			auto& o = dynamic_cast<VCutsceneCamera&>(obj);
			vob(o); E("camTrjFOR", o.trajectory_for, 2); E("targetTrjFOR", o.target_trajectory_for, 2); E("loopMode", o.loop_mode, 3); E("splLerpMode", o.lerp_mode, 4);
			B("ignoreFORVobRotCam", o.ignore_for_vob_rotation); B("ignoreFORVobRotTarget", o.ignore_for_vob_rotation_target); B("adaptToSurroundings", o.adapt);
			B("easeToFirstKey", o.ease_first); B("easeFromLastKey", o.ease_last); F("totalTime", o.total_duration); S("autoCamFocusVobName", o.auto_focus_vob);
			B("autoCamPlayerMovable", o.auto_player_movable); B("autoCamUntriggerOnLastKey", o.auto_untrigger_last); F("autoCamUntriggerOnLastKeyDelay", o.auto_untrigger_last_delay);
			u32 n = N("trajectory_frames", o.trajectory_frames), m = N("target_frames", o.target_frames);
			if (fill()) { o.position_count = static_cast<i32>(n); o.target_count = static_cast<i32>(m); }
			else { I("numPos", o.position_count); I("numTargets", o.target_count); }
			for (u32 k = 0; k < n; ++k) O("%", o.trajectory_frames[k], {T::zCCamTrj_KeyFrame}, 10);
			for (u32 k = 0; k < m; ++k) O("%", o.target_frames[k], {T::zCCamTrj_KeyFrame}, 10);
			if (when(c.save && c.g2())) { B("paused", o.paused); B("started", o.started); B("gotoTimeMode", o.goto_time_mode); F("csTime", o.cs_time); }
			break;
		}
		case T::zCCamTrj_KeyFrame: {
			auto& o = dynamic_cast<VCameraTrajectoryFrame&>(obj);
			vob(o); F("time", o.time); F("angleRollDeg", o.roll_angle); F("camFOVScale", o.fov_scale); E("motionType", o.motion_type, 7); E("motionTypeFOV", o.motion_type_fov, 7);
			E("motionTypeRoll", o.motion_type_roll, 7); E("motionTypeTimeScale", o.motion_type_time_scale, 7); F("tension", o.tension); F("bias", o.cam_bias);
			F("continuity", o.continuity); F("timeScale", o.time_scale); B("timeIsFixed", o.time_fixed);
			RAW("originalPose", [&] { M4("originalPose", o.original_pose); });
			break;
		}
		case T::oCTouchDamage: {
			auto& o = dynamic_cast<VTouchDamage&>(obj);
			vob(o); F("damage", o.damage); B("Barrier", o.barrier); B("Blunt", o.blunt); B("Edge", o.edge); B("Fire", o.fire); B("Fly", o.fly); B("Magic", o.magic);
			B("Point", o.point); B("Fall", o.fall); F("damageRepeatDelaySec", o.repeat_delay_sec); F("damageVolDownScale", o.volume_scale); E("damageCollType", o.collision, 3);
			break;
		}
		case T::zCEarthquake: { auto& o = dynamic_cast<VEarthquake&>(obj); vob(o); F("radius", o.radius); F("timeSec", o.duration); V3("amplitudeCM", o.amplitude); break; }
		case T::zCMoverController: { auto& o = dynamic_cast<VMoverController&>(obj); vob(o); S("triggerTarget", o.target); E("moverMessage", o.message, 4); I("gotoFixedKey", o.key); break; }
		case T::zCVobScreenFX: {
			vob(dynamic_cast<VirtualObject&>(obj));
			if (c.save) { Bytes z((c.g2() ? 12 : 5) * 4); KRAW("blend", z); KRAW("cinema", z); KRAW("fovMorph", z); KV2("fovSaved"); KV2("fovSaved1st"); }
			break;
		}
		case T::oCNpcTalent: { auto& o = dynamic_cast<VNpc::Talent&>(obj); I("talent", o.talent); I("value", o.value); I("skill", o.skill); break; }
		case T::zCEventManager: { auto& o = dynamic_cast<EventManager&>(obj); B("cleared", o.cleared); B("active", o.active); W("emCutscene", o.cutscene, {T::zCCSCutsceneContext}); break; }
		case T::zCDecal: {
			auto& o = dynamic_cast<VisualDecal&>(obj);
			// the name is stored twice, here and with the object that uses the decal; the latter wins
			if (mode == ENC) S("name", o.name);
			V2("decalDim", o.dimension); V2("decalOffset", o.offset); B("decal2Sided", o.two_sided); E("decalAlphaFunc", o.alpha_func, 7); F("decalTexAniFPS", o.texture_anim_fps);
			if (when(c.g2())) { Y("decalAlphaWeight", o.alpha_weight); B("ignoreDayLight", o.ignore_daylight); }
			break;
		}
		case T::zCMesh: case T::zCProgMeshProto: case T::zCParticleFX: case T::zCAICamera: case T::zCModel: case T::zCMorphMesh: break;
		case T::oCAIHuman: {
			auto& o = dynamic_cast<AiHuman&>(obj);
			I("waterLevel", o.water_level); F("floorY", o.floor_y); F("waterY", o.water_y); F("ceilY", o.ceil_y); F("feetY", o.feet_y); F("headY", o.head_y);
			F("fallDistY", o.fall_dist_y); F("fallStartY", o.fall_start_y); W("aiNpc", o.npc, {T::oCNpc}); I("walkMode", o.walk_mode); I("weaponMode", o.weapon_mode);
			I("wmodeLast", o.wmode_ast); I("wmodeSelect", o.wmode_select); B("changeWeapon", o.change_weapon); I("actionMode", o.action_mode);
			break;
		}
		case T::oCAIVobMove: { auto& o = dynamic_cast<AiMove&>(obj); W("vob", o.vob, vob_types()); W("owner", o.owner, {T::oCNpc}); break; }
		case T::oCCSPlayer: {
			auto& o = dynamic_cast<CutscenePlayer&>(obj);
			I("lastProcessDay", o.last_process_day); I("lastProcessHour", o.last_process_hour);
			u32 n = N("playlists", o.playlists);
			KI("playListCount", static_cast<i32>(n));
			for (u32 k = 0; k < n; ++k) W("playContext" + std::to_string(k), o.playlists[k], {T::zCCSCutsceneContext});
			break;
		}
		case T::zCSkyControler_Outdoor: {
			auto& o = dynamic_cast<SkyController&>(obj);
			F("masterTime", o.master_time); F("rainWeight", o.rain_weight); F("rainStart", o.rain_start); F("rainStop", o.rain_stop); F("rainSctTimer", o.rain_sct_timer);
			F("rainSndVol", o.rain_snd_vol); F("dayCtr", o.day_ctr);
			if (when(c.g2())) { F("fadeScale", o.fade_scale); B("renderLightning", o.render_lightning); B("isRaining", o.is_raining); I("rainCtr", o.rain_ctr); }
			break;
		}
		case T::zCMaterial: material(dynamic_cast<Material&>(obj)); break;
		case T::zCWaypoint: { auto& o = dynamic_cast<WayPoint&>(obj); S("wpName", o.name); I("waterDepth", o.water_depth); B("underWater", o.under_water); V3("position", o.position); V3("direction", o.direction); break; }
		case T::zCWayNet: {
			auto& o = dynamic_cast<WayNet&>(obj);
			KI("waynetVersion", 1);
			if (fill()) {
				o.points.clear(); o.edges.clear();
				u32 n = r->below(static_cast<u32>(width) * 2 + 1);
				for (u32 k = 0; k < n; ++k) {
					auto p = std::dynamic_pointer_cast<WayPoint>(make({T::zCWaypoint}));
					p->free_point = r->flip();
					o.points.push_back(p);
				}
				u32 m = n ? r->below(static_cast<u32>(width) * 3 + 1) : 0;
				for (u32 k = 0; k < m; ++k) o.edges.emplace_back(r->pick(o.points), r->pick(o.points));
				// points that are neither free nor on a way cannot be expressed
				std::erase_if(o.points, [&](auto& p) { return !p->free_point && std::none_of(o.edges.begin(), o.edges.end(), [&](auto& e) { return e.first == p || e.second == p; }); });
				break;
			}
			std::vector<WayPoint*> free;
			for (auto& p : o.points) if (p->free_point) free.push_back(p.get());
			if (mode == DUMP) {
				// the order of the points in memory carries no meaning beyond that of the free ones
				line("points", std::to_string(o.points.size()));
				line("free", std::to_string(free.size()));
				std::set<void const*> in;
				for (auto& p : o.points) in.insert(p.get());
				line("distinct", std::to_string(in.size()));
				for (auto& e : o.edges) if (!in.count(e.first.get()) || !in.count(e.second.get())) line("edge", "endpoint is not listed");
			}
			KI("numWaypoints", static_cast<i32>(free.size()));
			for (u32 k = 0; k < free.size(); ++k) object("waypoint" + std::to_string(k), free[k]);
			if (mode == DUMP) line("edges", std::to_string(o.edges.size()));
			KI("numWays", static_cast<i32>(o.edges.size()));
			for (u32 k = 0; k < o.edges.size(); ++k) {
				object("wayl" + std::to_string(k), o.edges[k].first.get());
				object("wayr" + std::to_string(k), o.edges[k].second.get());
			}
			break;
		}
		case T::oCSavegameInfo: {
			auto& o = dynamic_cast<SaveMetadata&>(obj);
			S("Title", o.title); S("WorldName", o.world); I("TimeDay", o.time_day); I("TimeHour", o.time_hour); I("TimeMin", o.time_minute); S("SaveDate", o.save_date);
			I("VersionMajor", o.version_major); I("VersionMinor", o.version_minor); I("PlayTimeSeconds", o.play_time_seconds);
			if (when(c.g2())) { I("VersionPoint", o.version_point); I("VersionInt", o.version_int); S("VersionAppName", o.version_app_name); }
			break;
		}
		case T::oCCSManager: {
			auto& o = dynamic_cast<CutsceneManager&>(obj);
			u32 n = N("pool_items", o.pool_items);
			KI("poolCount", static_cast<i32>(n));
			for (u32 k = 0; k < n; ++k) O("%", o.pool_items[k], {T::zCCSPoolItem}, 10);
			break;
		}
		case T::zCCSPoolItem: {
			auto& o = dynamic_cast<CutscenePoolItem&>(obj);
			S("itemName", o.name); E("runBehaviour", o.run_behavior, 3); I("runBehaviourValue", o.run_behavior_value); I("numPlayed", o.times_played); I("deactivated", o.deactivated); I("flags", o.flags);
			break;
		}
		case T::zCCSBlock: case T::zCCutscene: csblock(dynamic_cast<CutsceneBlock&>(obj)); break;
		case T::zCCSCutsceneContext: {
			auto& o = dynamic_cast<CutsceneContext&>(obj);
			csblock(o);
			O("%", o.props, {T::zCCSProps}); I("numOfRoles", o.role_count); I("numOfRoleVobs", o.role_vob_count); W("%", o.npc, {T::oCNpc}); W("mainRoleVob", o.main_role, {T::oCNpc});
			B("isCutscene", o.is_cutscene); I("reference", o.reference); I("actualBlock", o.actual_block);
			O("alt_stage", o.alt_stage, {T::zCVob, T::zCVobSpot, T::oCMOB, T::zCCSProps}, 70); O("stage", o.stage, {T::zCVob, T::oCMobInter}, 70); B("wasTriggered", o.was_triggered);
			break;
		}
		case T::oCMsgConversation: {
			auto& o = dynamic_cast<ConversationMessageEvent&>(obj);
			E("subType", o.type, 30);
			if (when(c.save)) { B("highPriority", o.high_priority); B("inUse", o.used); B("deleted", o.deleted); }
			S("text", o.text); S("name", o.name);
			break;
		}
		case T::zCCSAtomicBlock: { auto& o = dynamic_cast<CutsceneAtomicBlock&>(obj); O("%", o.message, {T::oCMsgConversation}, 10); break; }
		case T::zCCSLib: {
			auto& o = dynamic_cast<CutsceneLibrary&>(obj);
			u32 n = N("blocks", o.blocks);
			KI("NumOfItems", static_cast<i32>(n));
			if (fill()) { bool keep = share; share = false; for (auto& b : o.blocks) O("%", b, {T::zCCSBlock}, 0); share = keep;
				if (r->flip()) std::stable_sort(o.blocks.begin(), o.blocks.end(), [](auto& a, auto& b) { return a->name < b->name; }); }
			else if (mode == ENC) for (auto& b : o.blocks) object("%", b.get());
			else { auto s = o.blocks; std::stable_sort(s.begin(), s.end(), [](auto& a, auto& b) { return a->name < b->name; }); for (auto& b : s) object("block", b.get()); }
			break;
		}
		case T::zCCSProps: {
			auto& o = dynamic_cast<CutsceneProps&>(obj);
			S("name", o.name); B("globalCutscene", o.global); B("csLoop", o.loop); B("hasToBeTriggerd", o.has_to_be_triggered); F("distance", o.distance); F("range", o.range);
			I("numLockedBlocks", o.locked_block_count); E("runBehaviour", o.run_behaviour, 3); I("runBehaviourValue", o.run_behaviour_value); S("StageName", o.stage_name);
			S("scriptFuncOnStop", o.script_function_on_stop);
			break;
		}
		default: break;
		}
	}
} // namespace vp
