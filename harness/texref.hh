// Independent encoder and pixel decoder of ZTEX textures.
#pragma once
#include "refar.hh"
#include <zenkit/Texture.hh>

namespace vp {
	using TF = zenkit::TextureFormat;
	inline bool is_dxt(TF f) { return f >= TF::DXT1 && f <= TF::DXT5; }
	inline u32 bytes_per_pixel(TF f) {
		switch (f) {
		case TF::B8G8R8A8: case TF::R8G8B8A8: case TF::A8B8G8R8: case TF::A8R8G8B8: return 4;
		case TF::B8G8R8: case TF::R8G8B8: return 3;
		case TF::A4R4G4B4: case TF::A1R5G5B5: case TF::R5G6B5: return 2;
		case TF::P8: return 1;
		default: return 0;
		}
	}
	inline u32 half(u32 v, u32 level) { while (level-- && v > 1) v /= 2; return v ? v : 1; }
	inline u32 image_size(TF f, u32 w, u32 h) {
		if (is_dxt(f)) return ((w + 3) / 4) * ((h + 3) / 4) * (f == TF::DXT1 ? 8 : 16);
		return w * h * bytes_per_pixel(f);
	}
	struct RefTex {
		TF f = TF::DXT1;
		u32 w = 1, h = 1, rw = 1, rh = 1, avg = 0;
		std::array<std::array<u8, 4>, 256> pal {}; // r g b a
		std::vector<std::vector<u8>> level;        // 0 is the largest
		void fill(Rng& r, u32 maxdim = 40, int large = -1) {
			f = large >= 0 ? static_cast<TF>(large % 15) : static_cast<TF>(r.below(15));
			auto dim = [&] { return r.flip() ? 1u << r.below(7) : 1 + r.below(maxdim); };
			w = dim(); h = dim();
			while (w * h > maxdim * maxdim) { w = half(w, 1); h = half(h, 1); }
			if (maxdim >= 40 && r.below(600) == 0) { w = r.pick<u32>({256, 300, 512, 1024}); h = r.pick<u32>({128, 256, 257, 400}); }
			if (large >= 0) { w = r.pick<u32>({256, 264, 300, 512}); h = r.pick<u32>({257, 260, 264}); }
			rw = r.chance(50) ? w : r.u(); rh = r.chance(50) ? h : r.u(); avg = r.u();
			for (auto& p : pal) for (auto& x : p) x = static_cast<u8>(r.next());
			level.resize(1 + r.below(9));
			for (u32 l = 0; l < level.size(); ++l) {
				level[l].resize(image_size(f, half(w, l), half(h, l)));
				for (auto& x : level[l]) x = static_cast<u8>(r.next());
			}
		}
		void encode(RefWriter& o) const {
			o.str("ZTEX"); o.u32_(0); o.u32_(static_cast<u32>(f)); o.u32_(w); o.u32_(h); o.u32_(static_cast<u32>(level.size()));
			o.u32_(rw); o.u32_(rh); o.u32_(avg);
			if (f == TF::P8) for (auto& p : pal) { o.u8_(p[2]); o.u8_(p[1]); o.u8_(p[0]); o.u8_(p[3]); }
			for (size_t l = level.size(); l-- > 0;) o.b.append(reinterpret_cast<char const*>(level[l].data()), level[l].size());
		}
	};

	using Px = std::array<int, 4>;
	inline bool decodable(TF f) { return f != TF::A1R5G5B5 && f != TF::DXT2 && f != TF::DXT4; }
	// one pixel of an image in any decodable format
	inline Px pixel(TF f, std::vector<u8> const& d, u32 w, u32 x, u32 y, std::array<std::array<u8, 4>, 256> const& pal) {
		size_t i = static_cast<size_t>(y) * w + x;
		auto B = [&](size_t k) { return static_cast<int>(d.at(i * bytes_per_pixel(f) + k)); };
		switch (f) {
		case TF::B8G8R8A8: return {B(2), B(1), B(0), B(3)};
		case TF::R8G8B8A8: return {B(0), B(1), B(2), B(3)};
		case TF::A8B8G8R8: return {B(3), B(2), B(1), B(0)};
		case TF::A8R8G8B8: return {B(1), B(2), B(3), B(0)};
		case TF::B8G8R8: return {B(2), B(1), B(0), 255};
		case TF::R8G8B8: return {B(0), B(1), B(2), 255};
		case TF::A4R4G4B4: return {(B(1) & 15) * 17, (B(0) >> 4) * 17, (B(0) & 15) * 17, (B(1) >> 4) * 17};
		case TF::R5G6B5: { int v = B(0) | B(1) << 8; return {(v >> 11) * 255 / 31, (v >> 5 & 63) * 255 / 63, (v & 31) * 255 / 31, 255}; }
		case TF::P8: { auto& p = pal[static_cast<size_t>(B(0))]; return {p[0], p[1], p[2], p[3]}; }
		default: break;
		}
		size_t bs = f == TF::DXT1 ? 8 : 16, blk = (static_cast<size_t>(y / 4) * ((w + 3) / 4) + x / 4) * bs;
		size_t co = blk + bs - 8;
		u32 k = (y % 4) * 4 + x % 4;
		auto u16at = [&](size_t p) { return d.at(p) | d.at(p + 1) << 8; };
		int c0 = u16at(co), c1 = u16at(co + 2);
		u32 bits = static_cast<u32>(u16at(co + 4)) | static_cast<u32>(u16at(co + 6)) << 16;
		auto ex = [](int v) { int r = v >> 11, g = v >> 5 & 63, b = v & 31; return Px {r << 3 | r >> 2, g << 2 | g >> 4, b << 3 | b >> 2, 255}; };
		Px a = ex(c0), b = ex(c1), o {0, 0, 0, 255};
		u32 sel = bits >> (2 * k) & 3;
		bool three = f == TF::DXT1 && c0 <= c1;
		if (sel == 0) o = a;
		else if (sel == 1) o = b;
		else if (three) { if (sel == 2) for (size_t q = 0; q < 3; ++q) o[q] = (a[q] + b[q]) / 2; else o = {0, 0, 0, 0}; }
		else for (size_t q = 0; q < 3; ++q) o[q] = sel == 2 ? (2 * a[q] + b[q]) / 3 : (a[q] + 2 * b[q]) / 3;
		if (f == TF::DXT3) o[3] = (d.at(blk + k / 2) >> (k % 2 * 4) & 15) * 17;
		if (f == TF::DXT5) {
			int a0 = d.at(blk), a1 = d.at(blk + 1);
			u64 v = 0;
			for (size_t q = 0; q < 6; ++q) v |= static_cast<u64>(d.at(blk + 2 + q)) << (8 * q);
			int s = static_cast<int>(v >> (3 * k) & 7);
			if (s == 0) o[3] = a0;
			else if (s == 1) o[3] = a1;
			else if (a0 > a1) o[3] = ((8 - s) * a0 + (s - 1) * a1) / 7;
			else o[3] = s == 6 ? 0 : s == 7 ? 255 : ((6 - s) * a0 + (s - 1) * a1) / 5;
		}
		return o;
	}
} // namespace vp
