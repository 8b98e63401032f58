// C01 / C02: byte streams against a byte-string model.
#include "common.hh"
#include <filesystem>
#include <fstream>
#include <sstream>
using namespace vp;
using zenkit::Read;
using zenkit::Whence;
using zenkit::Write;

void vp_init() {}

namespace {
	// ------------------------------------------------------------------ the model: one cursor over one byte string
	struct Model {
		std::string d;
		size_t pos = 0;
		size_t left() const { return d.size() - pos; }
		std::string read(size_t n) {
			std::string r = d.substr(pos, std::min(n, left()));
			pos += r.size();
			return r;
		}
		template <class T>
		T num() { // little-endian, zero padded
			unsigned char b[sizeof(T)] {};
			auto s = read(sizeof(T));
			memcpy(b, s.data(), s.size());
			std::conditional_t<sizeof(T) == 1, u8, std::conditional_t<sizeof(T) == 2, u16, u32>> v = 0;
			for (size_t k = 0; k < sizeof(T); ++k) v = static_cast<decltype(v)>(v | (static_cast<u32>(b[k]) << (8 * k)));
			T r;
			memcpy(&r, &v, sizeof r);
			return r;
		}
		std::string line(std::string_view skip) {
			std::string r;
			bool term = false;
			char t = 0;
			while (left() && !term) {
				char c = d[pos++];
				if (c == '\0' || c == '\r' || c == '\n') { term = true; t = c; }
				else r.push_back(c);
			}
			if (term && t != '\0')
				while (left() && d[pos] != '\0' && skip.find(d[pos]) != std::string_view::npos) ++pos;
			return r;
		}
		void seek(i64 off, Whence w) {
			__int128 base = w == Whence::BEG ? 0 : w == Whence::CUR ? static_cast<i64>(pos) : static_cast<i64>(d.size());
			__int128 n = base + off;
			if (n < 0 || n > static_cast<__int128>(d.size())) return;
			pos = static_cast<size_t>(n);
		}
	};

	struct Back {
		char const* name;
		std::unique_ptr<Read> r;
	};

	std::string content(Rng& g) {
		u32 n = g.pick<u32>({0, 1, 2, 3, 7, 63, 200, 1000, 3000});
		n = n ? g.below(n) + (g.flip() ? 1 : 0) : 0;
		std::string s;
		int kind = static_cast<int>(g.below(3));
		if (g.below(150) == 0) { // large content, mostly long lines
			n = g.pick<u32>({4095, 4096, 8192, 16384, 32768, 65535, 65536, 65537, 131072, 300000}) + g.below(40);
			kind = g.flip() ? 3 : kind;
			count("large contents");
		}
		for (u32 k = 0; k < n; ++k) {
			if (kind == 0) s.push_back(static_cast<char>(g.next()));
			else if (kind == 1) s.push_back(g.chance(30) ? g.pick<char>({'\n', '\r', ' ', '\t', '\0', '\v', '\f', '}', '{'}) : static_cast<char>('a' + g.below(26)));
			else if (kind == 3) s.push_back(g.below(20000) == 0 ? '\n' : static_cast<char>('a' + k % 26));
			else s.push_back(g.chance(60) ? g.pick<char>({'\n', '\r', ' ', '\t', '\0'}) : 'x');
		}
		return s;
	}

	i64 offset(Rng& g, size_t size, size_t pos, Whence w) {
		switch (g.below(6)) {
		case 0: return g.pick<i64>({INT64_MAX, INT64_MIN, INT64_MAX - 1, -1, 1, 0, INT32_MAX, INT32_MIN, static_cast<i64>(UINT32_MAX)});
		case 1: return g.range(-5, 5);
		case 2: return g.range(-2 * static_cast<i64>(size) - 2, 2 * static_cast<i64>(size) + 2);
		default: { // inside
			i64 target = g.range(0, static_cast<i64>(size));
			return target - (w == Whence::BEG ? 0 : w == Whence::CUR ? static_cast<i64>(pos) : static_cast<i64>(size));
		}
		}
	}

	void case_read(Rng& g) {
		Model m {content(g), 0};
		std::string const data = m.d;
		auto path = run.scratch + "/in.bin";
		write_file(path, data.data(), data.size());
		Bytes vec = to_bytes(data);
		// exact-size heap copy: reading one byte beyond it is seen by AddressSanitizer
		std::unique_ptr<std::byte[]> raw(new std::byte[data.size()]);
		if (!data.empty()) memcpy(raw.get(), data.data(), data.size());
		FILE* cf = fopen(path.c_str(), "rb");
		std::ifstream ifs(path, std::ios::binary);
		std::istringstream iss(data);
		std::vector<Back> b;
		b.push_back({"memory", Read::from(raw.get(), data.size())});
		b.push_back({"vector*", Read::from(&vec)});
		b.push_back({"vector", Read::from(vec)});
		b.push_back({"FILE*", Read::from(cf)});
		b.push_back({"ifstream", Read::from(&ifs)});
		b.push_back({"istringstream", Read::from(&iss)});
		label("open path");
		b.push_back({"path", Read::from(std::filesystem::path(path))});
		u32 ops = 30 + g.below(120);
		std::string log;
		auto check = [&](char const* op, auto&& expect, auto&& got, Back& x) {
			if (!(expect == got)) {
				fclose(cf), cf = nullptr;
				if constexpr (std::is_convertible_v<decltype(got), std::string>)
					fail(std::string("read:") + op + ":" + x.name, fmt("size %zu, cursor(model) %zu: expected %s got %s; history: %s", data.size(), m.pos, esc(expect).c_str(), esc(got).c_str(), log.substr(log.size() > 600 ? log.size() - 600 : 0).c_str()));
				else
					fail(std::string("read:") + op + ":" + x.name, fmt("size %zu, cursor(model) %zu: expected %lld got %lld; history: %s", data.size(), m.pos, static_cast<long long>(expect), static_cast<long long>(got), log.substr(log.size() > 600 ? log.size() - 600 : 0).c_str()));
			}
		};
		for (u32 k = 0; k < ops; ++k) {
			u32 op = g.below(17);
			size_t before = m.pos;
			static char const* const N[] = {"read", "read-huge", "seek", "seek", "char", "byte", "ubyte", "short", "ushort", "int", "uint", "float", "string", "line", "vec", "mat", "query"};
			label(N[op]);
			if (log.size() > 4000) log.clear();
			log += fmt("%s@%zu ", N[op], m.pos);
			switch (op) {
			case 0:
			case 1: {
				size_t n = op == 0 ? g.below(static_cast<u32>(g.chance(20) ? 2 * data.size() + 2 : 20)) : g.pick<size_t>({SIZE_MAX, SIZE_MAX - 1, SIZE_MAX / 2, data.size() + 1});
				if (op == 1 && n > data.size() + 64) n = data.size() + 64; // callers own a buffer of n bytes
				auto e = m.read(n);
				count("read ops");
				if (before + n > data.size()) count("past-end reads");
				for (auto& x : b) {
					std::unique_ptr<char[]> buf(new char[n ? n : 1]);
					memset(buf.get(), 0x5a, n);
					size_t got = x.r->read(buf.get(), n);
					check("read-count", e.size(), got, x);
					check("read-bytes", e, std::string(buf.get(), got), x);
					check("read-beyond-count", std::string(n - got, 0x5a), std::string(buf.get() + got, n - got), x);
				}
				break;
			}
			case 2:
			case 3: {
				auto w = static_cast<Whence>(g.below(3));
				i64 off = offset(g, data.size(), m.pos, w);
				log += fmt("(%lld,%d) ", static_cast<long long>(off), static_cast<int>(w));
				m.seek(off, w);
				count("seek ops");
				__int128 want = static_cast<__int128>(off) + (w == Whence::BEG ? 0 : w == Whence::CUR ? before : data.size());
				if (want < 0 || want > static_cast<__int128>(data.size())) count("out-of-range seeks");
				for (auto& x : b) {
					x.r->seek(off, w);
					check("tell-after-seek", m.pos, x.r->tell(), x);
				}
				break;
			}
#define NUM(ID, FN, T)                                                                                                   \
	case ID: {                                                                                                           \
		auto e = m.num<T>();                                                                                             \
		count("typed reads");                                                                                            \
		for (auto& x : b) { auto v = x.r->FN(); check(#FN, std::string(reinterpret_cast<char*>(&e), sizeof e), std::string(reinterpret_cast<char*>(&v), sizeof v), x); } \
		break;                                                                                                           \
	}
				NUM(4, read_char, char)
				NUM(5, read_byte, std::int8_t)
				NUM(6, read_ubyte, u8)
				NUM(7, read_short, std::int16_t)
				NUM(8, read_ushort, u16)
				NUM(9, read_int, i32)
				NUM(10, read_uint, u32)
				NUM(11, read_float, float)
			case 12: {
				size_t n = g.below(g.chance(20) ? static_cast<u32>(data.size()) + 20 : 40);
				if (data.size() > 4000 && g.chance(30)) n = g.pick<u32>({4096, 8192, 16384, 32768, 65535, 65536});
				auto e = m.read(n);
				for (auto& x : b) {
					auto v = x.r->read_string(n);
					// bytes that exist; anything after them is zero padding
					std::string pad = e + std::string(v.size() > e.size() ? v.size() - e.size() : 0, '\0');
					check("read_string", pad, v, x);
					check("read_string-len", true, v.size() <= n, x);
				}
				break;
			}
			case 13: {
				std::string_view skip = g.pick<std::string_view>({" \t\r\n\v\f", "", "\n", " ", "\t \n", "x"});
				bool plain = g.flip();
				if (plain) skip = g.flip() ? std::string_view(" \t\r\n\v\f") : std::string_view("");
				auto e = m.line(skip);
				count("line reads");
				for (auto& x : b) check("read_line", e, plain ? x.r->read_line(!skip.empty()) : x.r->read_line_then_ignore(skip), x);
				break;
			}
			case 14: {
				bool three = g.flip();
				float e[3];
				for (int j = 0; j < (three ? 3 : 2); ++j) e[j] = m.num<float>();
				for (auto& x : b) {
					if (three) { auto v = x.r->read_vec3(); float t[3] = {v.x, v.y, v.z}; check("read_vec3", std::string(reinterpret_cast<char*>(e), 12), std::string(reinterpret_cast<char*>(t), 12), x); }
					else { auto v = x.r->read_vec2(); float t[2] = {v.x, v.y}; check("read_vec2", std::string(reinterpret_cast<char*>(e), 8), std::string(reinterpret_cast<char*>(t), 8), x); }
				}
				break;
			}
			case 15: {
				int dim = g.flip() ? 3 : 4;
				float e[16], t[16]; // stored row after row; columns are what the matrix type exposes
				for (int j = 0; j < dim * dim; ++j) e[j] = m.num<float>();
				for (auto& x : b) {
					if (dim == 3) { auto v = x.r->read_mat3(); for (int r = 0; r < 3; ++r) for (int c = 0; c < 3; ++c) t[r * 3 + c] = v.columns[c][static_cast<unsigned>(r)]; }
					else { auto v = x.r->read_mat4(); for (int r = 0; r < 4; ++r) for (int c = 0; c < 4; ++c) t[r * 4 + c] = v.columns[c][static_cast<unsigned>(r)]; }
					check("read_mat", std::string(reinterpret_cast<char*>(e), 4u * static_cast<unsigned>(dim * dim)), std::string(reinterpret_cast<char*>(t), 4u * static_cast<unsigned>(dim * dim)), x);
				}
				break;
			}
			default: break;
			}
			for (auto& x : b) {
				check(g.flip() ? "tell" : "tell", m.pos, x.r->tell(), x);
				check("eof", m.left() == 0, x.r->eof(), x);
				if (op == 16) check("tell-after-eof", m.pos, x.r->tell(), x);
			}
			u64 h[3] = {op, (before == 0 ? 0u : before == data.size() ? 2u : 1u) * 3 + (m.pos == 0 ? 0u : m.pos == data.size() ? 2u : 1u), std::min<u64>(data.size(), 40)};
			state(fnv(h, sizeof h));
		}
		sample(fmt("content of %zu bytes %s, %u operations: %s", data.size(), esc(data, 40).c_str(), ops, log.substr(0, 120).c_str()));
		b.clear();
		fclose(cf);
	}

	// ------------------------------------------------------------------------------------------------- writing
	struct WModel {
		std::string d;
		size_t pos = 0;
		bool fixed = false;
		size_t write(std::string_view s) {
			if (fixed) s = s.substr(0, d.size() - pos);
			if (s.empty()) return 0;
			if (pos + s.size() > d.size()) d.resize(pos + s.size(), '\0');
			d.replace(pos, s.size(), s);
			pos += s.size();
			return s.size();
		}
		void seek(i64 off, Whence w) {
			__int128 base = w == Whence::BEG ? 0 : w == Whence::CUR ? static_cast<i64>(pos) : static_cast<i64>(d.size());
			__int128 n = base + off;
			if (n < 0 || (fixed && n > static_cast<__int128>(d.size()))) return;
			pos = static_cast<size_t>(n);
		}
	};
	template <class T>
	std::string le(T v) {
		std::string s(sizeof v, '\0');
		u64 b = 0;
		memcpy(&b, &v, sizeof v);
		for (size_t k = 0; k < sizeof v; ++k) s[k] = static_cast<char>(b >> (8 * k));
		return s;
	}
	struct WBack {
		char const* name;
		std::unique_ptr<Write> w;
	};

	void case_write(Rng& g) {
		bool sparse = g.chance(30); // seeks beyond the end: only where the medium can extend
		auto p1 = run.scratch + "/w1.bin", p2 = run.scratch + "/w2.bin", p3 = run.scratch + "/w3.bin";
		std::filesystem::remove(p1), std::filesystem::remove(p2), std::filesystem::remove(p3);
		size_t fixed_n = g.pick<size_t>({0, 1, 5, 64, 300, 5000});
		std::unique_ptr<std::byte[]> fixed(new std::byte[fixed_n]);
		memset(fixed.get(), 0x3c, fixed_n);
		WModel m, fm;
		fm.d.assign(fixed_n, 0x3c), fm.fixed = true;
		Bytes vec;
		u32 pre = g.chance(30) ? g.below(100) : 0; // writing into a vector that already has content
		std::string pretext(pre, 'p');
		m.d = pretext;
		vec = to_bytes(pretext);
		if (g.chance(20)) vec.reserve(g.below(3000));
		FILE* cf = fopen(p1.c_str(), "w+b");
		fwrite(pretext.data(), 1, pre, cf), rewind(cf);
		std::ofstream ofs(p2, std::ios::binary);
		ofs.write(pretext.data(), pre), ofs.seekp(0);
		std::ostringstream oss;
		oss.write(pretext.data(), pre), oss.seekp(0);
		std::vector<WBack> b;
		b.push_back({"vector", Write::to(&vec)});
		b.push_back({"FILE*", Write::to(cf)});
		b.push_back({"ofstream", Write::to(&ofs)});
		if (!sparse) b.push_back({"ostringstream", Write::to(&oss)});
		if (pre == 0) b.push_back({"path", Write::to(std::filesystem::path(p3))});
		WBack fb {"fixed", Write::to(fixed.get(), fixed_n)};
		std::string log;
		struct Val { size_t at; int kind; std::string bytes; };
		std::vector<Val> vals;
		auto closeall = [&] { b.clear(); if (cf) fclose(cf); cf = nullptr; ofs.close(); };
		auto bad = [&](std::string const& key, std::string const& msg) {
			closeall();
			fail(key, msg + "; history: " + log.substr(log.size() > 600 ? log.size() - 600 : 0));
		};
		u32 ops = 20 + g.below(100);
		for (u32 k = 0; k < ops; ++k) {
			u32 op = g.below(18);
			static char const* const N[] = {"write", "char", "byte", "ubyte", "short", "ushort", "int", "uint", "float", "string", "string0", "line", "vec2", "vec3", "mat3", "mat4", "seek", "seek"};
			label(std::string("w-") + N[op]);
			size_t before = m.pos, fbefore = fm.pos;
			log += fmt("%s@%zu ", N[op], m.pos);
			if (op >= 16) {
				auto w = static_cast<Whence>(g.below(3));
				i64 off, foff;
				auto mk = [&](WModel& mm) -> i64 {
					i64 base = w == Whence::BEG ? 0 : w == Whence::CUR ? static_cast<i64>(mm.pos) : static_cast<i64>(mm.d.size());
					if (g.chance(15)) return -base - g.pick<i64>({1, 2, 100, 1 << 20}); // before the start: refused
					if (&mm == &fm && g.chance(20)) return static_cast<i64>(mm.d.size()) - base + g.pick<i64>({1, 5, INT32_MAX});
					if (&mm == &m && sparse && g.chance(30)) return static_cast<i64>(mm.d.size()) - base + g.range(1, 3000);
					return g.range(0, static_cast<i64>(mm.d.size())) - base;
				};
				off = mk(m), foff = mk(fm);
				log += fmt("(%lld,%d) ", static_cast<long long>(off), static_cast<int>(w));
				m.seek(off, w), fm.seek(foff, w);
				for (auto& x : b) x.w->seek(off, w);
				fb.w->seek(foff, w);
				count("write seeks");
			} else {
				std::string bytes;
				float f[16];
				for (auto& q : f) q = g.f();
				u32 iv = g.u();
				std::string str = g.name(30);
				if (g.chance(10)) str = to_str(g.bytes(g.below(g.chance(5) ? 20000 : 40)));
				if (g.below(600) == 0) str.assign(g.pick<u32>({4096, 32768, 65535, 65536, 70000}), static_cast<char>('a' + g.below(26)));
				if (op == 0) { auto r = g.bytes(g.below(g.chance(10) ? g.below(60) == 0 ? 150000 : 4000 : 40)); bytes = to_str(r); }
				auto run_on = [&](Write* w) -> size_t {
					switch (op) {
					case 0: return w->write(bytes.data(), bytes.size());
					case 1: w->write_char(static_cast<char>(iv)); break;
					case 2: w->write_byte(static_cast<std::int8_t>(iv)); break;
					case 3: w->write_ubyte(static_cast<u8>(iv)); break;
					case 4: w->write_short(static_cast<std::int16_t>(iv)); break;
					case 5: w->write_ushort(static_cast<u16>(iv)); break;
					case 6: w->write_int(static_cast<i32>(iv)); break;
					case 7: w->write_uint(iv); break;
					case 8: w->write_float(f[0]); break;
					case 9: w->write_string(str); break;
					case 10: w->write_string0(str); break;
					case 11: w->write_line(str); break;
					case 12: w->write_vec2({f[0], f[1]}); break;
					case 13: w->write_vec3({f[0], f[1], f[2]}); break;
					case 14: {
						zenkit::Mat3 mm {};
						for (unsigned r = 0; r < 3; ++r) for (unsigned c = 0; c < 3; ++c) mm.columns[c][r] = f[r * 3 + c];
						w->write_mat3(mm);
						break;
					}
					case 15: {
						zenkit::Mat4 mm {};
						for (unsigned r = 0; r < 4; ++r) for (unsigned c = 0; c < 4; ++c) mm.columns[c][r] = f[r * 4 + c];
						w->write_mat4(mm);
						break;
					}
					}
					return SIZE_MAX;
				};
				auto fl = [&](int n) { std::string s; for (int q = 0; q < n; ++q) s += le(f[q]); return s; };
				switch (op) {
				case 1: case 2: case 3: bytes = le(static_cast<u8>(iv)); break;
				case 4: case 5: bytes = le(static_cast<u16>(iv)); break;
				case 6: case 7: bytes = le(iv); break;
				case 8: bytes = fl(1); break;
				case 9: bytes = str; break;
				case 10: bytes = str + std::string(1, '\0'); break;
				case 11: bytes = str + "\n"; break;
				case 12: bytes = fl(2); break;
				case 13: bytes = fl(3); break;
				case 14: bytes = fl(9); break;
				case 15: bytes = fl(16); break;
				}
				if (m.pos < m.d.size() && !bytes.empty()) count("overwrites");
				if (fm.pos + bytes.size() > fm.d.size()) count("fixed buffer exhausted");
				size_t n = m.write(bytes), fn = fm.write(bytes);
				for (auto& x : b) {
					size_t got = run_on(x.w.get());
					if (op == 0 && got != n) bad(std::string("write:count:") + x.name, fmt("wrote %zu bytes, reported %zu", n, got));
				}
				size_t got = run_on(fb.w.get());
				if (op == 0 && got != fn) bad("write:count:fixed", fmt("stored %zu bytes, reported %zu", fn, got));
				count("write ops");
				for (size_t q = 0; q < vals.size();) { // overwritten values are gone
					if (vals[q].at < m.pos && vals[q].at + vals[q].bytes.size() > before) vals[q] = vals.back(), vals.pop_back();
					else ++q;
				}
				if (op != 0 && !bytes.empty()) vals.push_back({before, static_cast<int>(op), bytes});
			}
			for (auto& x : b)
				if (x.w->tell() != m.pos) bad(std::string("write:tell:") + x.name, fmt("cursor %zu expected %zu after %s", x.w->tell(), m.pos, N[op]));
			if (fb.w->tell() != fm.pos) bad("write:tell:fixed", fmt("cursor %zu expected %zu after %s", fb.w->tell(), fm.pos, N[op]));
			u64 h[3] = {op, (before < m.d.size() ? 1u : 0u) + (m.pos > m.d.size() ? 2u : 0u), (fm.pos == fm.d.size() ? 1u : 0u) + (fbefore == 0 ? 2u : 0u) + 4u * std::min<u64>(m.d.size() / 64, 40)};
			state(fnv(h, sizeof h));
		}
		closeall();
		auto cmp = [&](char const* name, std::string const& e, std::string const& got) {
			if (e == got) return;
			size_t i = 0;
			while (i < e.size() && i < got.size() && e[i] == got[i]) ++i;
			bad(std::string("write:bytes:") + name, fmt("%zu bytes expected, %zu stored, first difference at %zu (%s / %s)", e.size(), got.size(), i, hex(e.data() + i, std::min<size_t>(8, e.size() - i)).c_str(), hex(got.data() + i, std::min<size_t>(8, got.size() - i)).c_str()));
		};
		label("compare");
		cmp("vector", m.d, to_str(vec));
		cmp("FILE*", m.d, to_str(read_file(p1)));
		cmp("ofstream", m.d, to_str(read_file(p2)));
		if (!sparse) cmp("ostringstream", m.d, oss.str());
		if (pre == 0) cmp("path", m.d, to_str(read_file(p3)));
		cmp("fixed", fm.d, std::string(reinterpret_cast<char*>(fixed.get()), fixed_n));
		// the matching typed reads return the values
		auto r = Read::from(&vec);
		for (auto& v : vals) {
			label("read back");
			if ((v.kind == 10 || v.kind == 11) && v.bytes.find_first_of(std::string_view("\r\n\0", 3)) != v.bytes.size() - 1) continue; // not one line
			r->seek(static_cast<ssize_t>(v.at), Whence::BEG);
			std::string got;
			switch (v.kind) {
			case 1: got = le(r->read_char()); break;
			case 2: got = le(r->read_byte()); break;
			case 3: got = le(r->read_ubyte()); break;
			case 4: got = le(r->read_short()); break;
			case 5: got = le(r->read_ushort()); break;
			case 6: got = le(r->read_int()); break;
			case 7: got = le(r->read_uint()); break;
			case 8: got = le(r->read_float()); break;
			case 9: got = r->read_string(v.bytes.size()); break;
			case 10: got = r->read_line(false) + std::string(1, '\0'); break;
			case 11: got = r->read_line(false) + "\n"; break;
			case 12: { auto q = r->read_vec2(); got = le(q.x) + le(q.y); break; }
			case 13: { auto q = r->read_vec3(); got = le(q.x) + le(q.y) + le(q.z); break; }
			case 14: { auto q = r->read_mat3(); for (unsigned a = 0; a < 3; ++a) for (unsigned c = 0; c < 3; ++c) got += le(q.columns[c][a]); break; }
			case 15: { auto q = r->read_mat4(); for (unsigned a = 0; a < 4; ++a) for (unsigned c = 0; c < 4; ++c) got += le(q.columns[c][a]); break; }
			}
			if (got != v.bytes) bad(fmt("write:readback:%d", v.kind), fmt("at %zu: %s expected %s", v.at, hex(got.data(), got.size()).c_str(), hex(v.bytes.data(), v.bytes.size()).c_str()));
			count("values read back");
		}
		sample(fmt("%u write operations, %zu bytes: %s", ops, m.d.size(), log.substr(0, 150).c_str()));
	}
} // namespace

void vp_case(Rng& g, u64) {
	if (run.prop == "C01") case_read(g);
	else case_write(g);
}
