// Independent encoder of compiled scripts (.DAT), written from the documented format.
#pragma once
#include "refar.hh"
#include <zenkit/DaedalusScript.hh>

namespace vp {
	enum : u32 { T_VOID, T_FLOAT, T_INT, T_STRING, T_CLASS, T_FUNC, T_PROTO, T_INST };
	enum : u32 { F_CONST = 1, F_RETURN = 2, F_MEMBER = 4, F_EXTERNAL = 8, F_MERGED = 16 };

	struct RSym {
		bool named = true;
		std::string name;
		u32 vary = 0, count = 1, type = T_INT, flags = 0;
		u32 file = 0, line = 0, lines = 0, chr = 0, chrs = 0;
		std::vector<float> f;
		std::vector<i32> i;
		std::vector<std::string> s; // as stored, escapes included
		i32 value = 0;              // address or class offset
		i32 parent = -1;
		std::string stray;          // surplus line terminators after the last string of a constant
		u32 hi = 0;                 // bits of the file outside the fields
		bool member() const { return (flags & F_MEMBER) != 0; }
	};

	inline std::string dat_unescape(std::string_view s) {
		std::string o;
		for (size_t k = 0; k < s.size(); ++k) {
			if (s[k] == '\\' && k + 1 < s.size() && (s[k + 1] == 'n' || s[k + 1] == 't')) o.push_back(s[++k] == 'n' ? '\n' : '\t');
			else o.push_back(s[k]);
		}
		return o;
	}

	inline void encode_sym(RefWriter& w, RSym const& s) {
		w.u32_(s.named ? 1 : 0);
		if (s.named) w.line(s.name);
		w.u32_(s.vary);
		w.u32_(s.count | s.type << 12 | s.flags << 16 | (s.hi & 0x3FF) << 22);
		w.u32_(s.file | (s.hi & 0x1FFF) << 19);
		w.u32_(s.line | (s.hi >> 3 & 0x1FFF) << 19);
		w.u32_(s.lines | (s.hi >> 7 & 0x1FFF) << 19);
		w.u32_(s.chr | (s.hi & 0xFF) << 24);
		w.u32_(s.chrs | (s.hi >> 5 & 0xFF) << 24);
		if (!s.member()) switch (s.type) {
			case T_FLOAT: for (auto x : s.f) w.f32_(x); break;
			case T_INT: for (auto x : s.i) w.i32_(x); break;
			case T_STRING: for (auto& x : s.s) w.line(x); w.str(s.stray); break;
			case T_CLASS: case T_FUNC: case T_PROTO: case T_INST: w.i32_(s.value); break;
			default: break;
			}
		w.i32_(s.parent);
	}

	inline Bytes encode_dat(std::vector<RSym> const& t, std::string const& code, u32 version = 50) {
		RefWriter w;
		w.u8_(version);
		w.u32_(static_cast<u32>(t.size()));
		std::vector<u32> order(t.size());
		for (u32 k = 0; k < order.size(); ++k) order[k] = k;
		std::stable_sort(order.begin(), order.end(), [&](u32 a, u32 b) { return t[a].name < t[b].name; });
		for (auto k : order) w.u32_(k);
		for (auto& s : t) encode_sym(w, s);
		w.u32_(static_cast<u32>(code.size()));
		w.str(code);
		return w.bytes();
	}
} // namespace vp
