// Independent encoder of the three archive encodings, written from the format (and the original sample files), not from
// the library. Used to feed the library's readers.
#pragma once
#include "common.hh"
#include <zenkit/Archive.hh>

namespace vp {
	using zenkit::ArchiveFormat;

	struct RefWriter {
		std::string b;
		void u8_(u32 v) { b.push_back(static_cast<char>(v)); }
		void u16_(u32 v) { u8_(v); u8_(v >> 8); }
		void u32_(u32 v) { u16_(v); u16_(v >> 16); }
		void i32_(i32 v) { u32_(static_cast<u32>(v)); }
		void f32_(float v) { u32 x; std::memcpy(&x, &v, 4); u32_(x); }
		void str(std::string_view s) { b.append(s); }
		void str0(std::string_view s) { b.append(s); b.push_back('\0'); }
		void line(std::string_view s) { b.append(s); b.push_back('\n'); }
		void raw(Bytes const& s) { b.append(reinterpret_cast<char const*>(s.data()), s.size()); }
		void patch32(size_t at, u32 v) { for (int i = 0; i < 4; ++i) b[at + static_cast<size_t>(i)] = static_cast<char>(v >> (8 * i)); }
		size_t size() const { return b.size(); }
		Bytes bytes() const { return to_bytes(b); }
	};

	// What can be stored in an archive.
	struct Val {
		enum Kind { STRING, INT, FLOAT, BYTE, WORD, ENUM, BOOL, COLOR, VEC3, VEC2, BBOX, MAT3, RAW, RAWFLOAT, KINDS } kind = INT;
		std::string name;
		std::string s;
		i64 i = 0;
		std::array<float, 9> f {};
		std::array<u8, 4> c {}; // r g b a
		Bytes raw;
		std::vector<float> fs;
	};
	inline char const* kind_name(int k) {
		static char const* N[] = {"string", "int", "float", "byte", "word", "enum", "bool", "color", "vec3", "vec2", "bbox", "mat3x3", "raw", "rawfloat"};
		return N[k];
	}

	class RefArchive {
	public:
		ArchiveFormat fmt;
		RefWriter w;
		u32 index = 0;
		struct Open { size_t at; };
		std::vector<Open> stack;
		std::vector<std::string> names;
		size_t hash_at = 0, obj_at = 0;
		size_t base = 0; // position of the archive within its stream

		RefArchive(ArchiveFormat f, bool save, bool date = true, bool user = true) : fmt(f) {
			w.line("ZenGin Archive");
			w.line("ver 1");
			w.line(f == ArchiveFormat::BINSAFE ? "zCArchiverBinSafe" : "zCArchiverGeneric");
			w.line(f == ArchiveFormat::BINSAFE ? "BIN_SAFE" : f == ArchiveFormat::BINARY ? "BINARY" : "ASCII");
			w.line(save ? "saveGame 1" : "saveGame 0");
			if (date) w.line("date 3.1.2001 10:35:36");
			if (user) w.line("user roman");
			w.line("END");
			if (f == ArchiveFormat::BINSAFE) {
				w.u32_(2);
				obj_at = w.size();
				w.u32_(0);
				hash_at = w.size();
				w.u32_(0);
			} else {
				w.str("objects ");
				obj_at = w.size();
				w.line("         ");
				w.line("END");
				w.line("");
			}
		}
		void indent() { for (size_t k = 0; k < stack.size(); ++k) w.str("\t"); }
		u32 begin(std::string const& name, std::string const& cls, u32 version) { return begin_at(name, cls, version, cls == "%" ? 0 : index++); }
		u32 begin_at(std::string const& name, std::string const& cls, u32 version, u32 idx) {
			std::string txt = "[" + name + " " + cls + " " + std::to_string(version) + " " + std::to_string(idx) + "]";
			if (fmt == ArchiveFormat::ASCII) { indent(); w.line(txt); stack.push_back({0}); }
			else if (fmt == ArchiveFormat::BINSAFE) { w.u8_(1); w.u16_(static_cast<u32>(txt.size())); w.str(txt); stack.push_back({0}); }
			else {
				stack.push_back({w.size()});
				w.u32_(0); w.u16_(version); w.u32_(idx); w.str0(name); w.str0(cls);
			}
			return idx;
		}
		void end() {
			auto o = stack.back();
			stack.pop_back();
			if (fmt == ArchiveFormat::ASCII) { indent(); w.line("[]"); }
			else if (fmt == ArchiveFormat::BINSAFE) { w.u8_(1); w.u16_(2); w.str("[]"); }
			else w.patch32(o.at, static_cast<u32>(w.size() - o.at));
		}
		void ref(std::string const& name, u32 idx) { begin_at(name, "\xA7", 0, idx); end(); }
		void entry(std::string const& name, u8 type) {
			size_t k = 0;
			while (k < names.size() && names[k] != name) ++k;
			if (k == names.size()) names.push_back(name);
			w.u8_(0x12); w.u32_(static_cast<u32>(k)); w.u8_(type);
		}
		static std::string dec(float f) { char b[80]; snprintf(b, sizeof b, "%.6f", static_cast<double>(f)); return b; }
		void text(std::string const& name, char const* type, std::string const& v) { indent(); w.line(name + "=" + type + ":" + v); }
		static std::string hexs(void const* p, size_t n) {
			std::string r; char b[3];
			for (size_t k = 0; k < n; ++k) { snprintf(b, sizeof b, "%02x", static_cast<u8 const*>(p)[k]); r += b; }
			return r;
		}
		void value(Val const& v) {
			bool t = fmt == ArchiveFormat::ASCII, s = fmt == ArchiveFormat::BINSAFE;
			auto& n = v.name;
			auto floats = [&](float const* p, size_t k) { for (size_t x = 0; x < k; ++x) w.f32_(p[x]); };
			auto tfl = [&](float const* p, size_t k) { std::string r; for (size_t x = 0; x < k; ++x) r += (x ? " " : "") + dec(p[x]); return r; };
			switch (v.kind) {
			case Val::STRING:
				if (t) text(n, "string", v.s);
				else if (s) { entry(n, 1); w.u16_(static_cast<u32>(v.s.size())); w.str(v.s); }
				else w.str0(v.s);
				break;
			case Val::INT: if (t) text(n, "int", std::to_string(v.i)); else { if (s) entry(n, 2); w.i32_(static_cast<i32>(v.i)); } break;
			case Val::FLOAT: if (t) text(n, "float", dec(v.f[0])); else { if (s) entry(n, 3); w.f32_(v.f[0]); } break;
			case Val::BYTE: if (t) text(n, "int", std::to_string(v.i)); else { if (s) entry(n, 4); w.u8_(static_cast<u32>(v.i)); } break;
			case Val::WORD: if (t) text(n, "int", std::to_string(v.i)); else { if (s) entry(n, 5); w.u16_(static_cast<u32>(v.i)); } break;
			case Val::ENUM: if (t) text(n, "enum", std::to_string(v.i)); else if (s) { entry(n, 0x11); w.u32_(static_cast<u32>(v.i)); } else w.u8_(static_cast<u32>(v.i)); break;
			case Val::BOOL: if (t) text(n, "bool", v.i ? "1" : "0"); else if (s) { entry(n, 6); w.u32_(v.i != 0); } else w.u8_(v.i != 0); break;
			case Val::COLOR:
				if (t) text(n, "color", std::to_string(v.c[0]) + " " + std::to_string(v.c[1]) + " " + std::to_string(v.c[2]) + " " + std::to_string(v.c[3]));
				else { if (s) entry(n, 8); w.u8_(v.c[2]); w.u8_(v.c[1]); w.u8_(v.c[0]); w.u8_(v.c[3]); }
				break;
			case Val::VEC3: if (t) text(n, "vec3", tfl(v.f.data(), 3)); else { if (s) entry(n, 7); floats(v.f.data(), 3); } break;
			case Val::VEC2: if (t) text(n, "rawFloat", tfl(v.f.data(), 2)); else { if (s) { entry(n, 0x10); w.u16_(8); } floats(v.f.data(), 2); } break;
			case Val::BBOX: if (t) text(n, "rawFloat", tfl(v.f.data(), 6)); else { if (s) { entry(n, 0x10); w.u16_(24); } floats(v.f.data(), 6); } break;
			case Val::MAT3: {
				// files store the matrix row by row; the library's matrices are arrays of columns, v.f holds rows
				if (t) text(n, "raw", hexs(v.f.data(), 36));
				else { if (s) { entry(n, 9); w.u16_(36); } floats(v.f.data(), 9); }
				break;
			}
			case Val::RAW: if (t) text(n, "raw", hexs(v.raw.data(), v.raw.size())); else { if (s) { entry(n, 9); w.u16_(static_cast<u32>(v.raw.size())); } w.raw(v.raw); } break;
			case Val::RAWFLOAT: if (t) text(n, "rawFloat", tfl(v.fs.data(), v.fs.size())); else { if (s) { entry(n, 0x10); w.u16_(static_cast<u32>(4 * v.fs.size())); } floats(v.fs.data(), v.fs.size()); } break;
			default: break;
			}
		}
		Bytes finish() {
			if (fmt == ArchiveFormat::BINSAFE) {
				w.patch32(obj_at, index);
				w.patch32(hash_at, static_cast<u32>(base + w.size()));
				w.u32_(static_cast<u32>(names.size()));
				for (size_t k = 0; k < names.size(); ++k) {
					u32 h = 0;
					for (char c : names[k]) h = h * 33 + static_cast<u32>(c);
					w.u16_(static_cast<u32>(names[k].size())); w.u16_(static_cast<u32>(k)); w.u32_(h % 97); w.str(names[k]);
				}
			} else {
				auto s = std::to_string(index);
				std::memcpy(w.b.data() + obj_at, s.data(), s.size());
			}
			return w.bytes();
		}
	};
} // namespace vp
