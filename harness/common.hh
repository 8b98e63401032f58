// Shared runtime of all monitors: deterministic workload generator, violation reporting, observation counters,
// memory budget, work-counting streams.
#pragma once
#include <algorithm>
#include <array>
#include <atomic>
#include <cmath>
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <stdexcept>
#include <string>
#include <string_view>
#include <unordered_set>
#include <vector>

#include <zenkit/Stream.hh>

namespace vp {
	using u8 = std::uint8_t;
	using u16 = std::uint16_t;
	using u32 = std::uint32_t;
	using u64 = std::uint64_t;
	using i32 = std::int32_t;
	using i64 = std::int64_t;
	using Bytes = std::vector<std::byte>;

	// ---------------------------------------------------------------- randomness
	struct Rng {
		u64 s;
		explicit Rng(u64 seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) {}
		u64 next() {
			u64 z = (s += 0x9E3779B97F4A7C15ull);
			z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
			z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
			return z ^ (z >> 31);
		}
		u32 below(u32 n) { return n == 0 ? 0 : static_cast<u32>(next() % n); }
		i64 range(i64 lo, i64 hi) { return lo + static_cast<i64>(next() % static_cast<u64>(hi - lo + 1)); }
		bool chance(int percent) { return below(100) < static_cast<u32>(percent); }
		bool flip() { return next() & 1; }
		template <class T>
		T const& pick(std::vector<T> const& v) { return v[below(static_cast<u32>(v.size()))]; }
		template <class T>
		T pick(std::initializer_list<T> v) { return *(v.begin() + below(static_cast<u32>(v.size()))); }
		// interesting integers: boundaries are as likely as uniform ones
		u32 u() {
			switch (below(8)) {
			case 0: return pick<u32>({0, 1, 2, 3, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffffe});
			case 1: return below(16);
			case 2: return below(300);
			case 3: return 1u << below(32);
			case 4: return (1u << below(32)) - 1;
			default: return static_cast<u32>(next());
			}
		}
		i32 i() { return static_cast<i32>(u()); }
		// arbitrary finite float
		float f() {
			switch (below(6)) {
			case 0: return pick<float>({0.f, -0.f, 1.f, -1.f, 0.5f, 100.f, -25000.125f, 1e-6f, 3.4028234e38f, 1.17549435e-38f, 1e-45f, 16777216.f});
			case 1: return static_cast<float>(range(-1000, 1000));
			case 2: return static_cast<float>(range(-1000000, 1000000)) / 1024.0f;
			case 3: {
				for (;;) {
					u32 b = static_cast<u32>(next());
					float r;
					std::memcpy(&r, &b, 4);
					if (std::isfinite(r)) return r;
				}
			}
			default: return static_cast<float>(static_cast<double>(range(-100000000, 100000000)) / 3000.0);
			}
		}
		// float that a fixed six-decimals text rendering reproduces exactly: k/64 with small k
		float ftext() { return static_cast<float>(range(-200000, 200000)) / 64.0f; }
		std::string name(u32 maxlen = 12, bool nonempty = false) {
			static char const A[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_-.";
			u32 n = below(maxlen + 1);
			if (nonempty && n == 0) n = 1;
			std::string r;
			for (u32 k = 0; k < n; ++k) r.push_back(A[below(sizeof A - 1)]);
			return r;
		}
		Bytes bytes(u32 n) {
			Bytes b(n);
			for (auto& x : b) x = static_cast<std::byte>(next());
			return b;
		}
	};

	inline u64 fnv(void const* p, size_t n, u64 h = 1469598103934665603ull) {
		auto* b = static_cast<unsigned char const*>(p);
		for (size_t i = 0; i < n; ++i) h = (h ^ b[i]) * 1099511628211ull;
		return h;
	}
	inline u64 fnv(std::string_view s, u64 h = 1469598103934665603ull) { return fnv(s.data(), s.size(), h); }

	inline std::string fmt(char const* f, ...) __attribute__((format(printf, 1, 2)));
	inline std::string fmt(char const* f, ...) {
		va_list ap;
		va_start(ap, f);
		char buf[4096];
		vsnprintf(buf, sizeof buf, f, ap);
		va_end(ap);
		return buf;
	}

	// ---------------------------------------------------------------- reporting
	struct CaseFailed {};

	struct Run {
		std::string prop, tier, out, dump;
		u64 seed = 1;
		u64 first = 0, count = 1;
		u64 cur = 0;
		std::map<std::string, u64> counters;
		std::unordered_set<u64> states;
		std::vector<std::string> samples;
		std::string scratch; // private scratch directory, removed by the driver
		FILE* f = nullptr;
	};
	extern Run run;
	// In the threads a case starts: observations are dropped, a failed check is left in in_thread_failed.
	extern thread_local bool in_thread;
	extern thread_local std::string in_thread_failed;

	// What is being done right now, visible to the driver if the process dies.
	void label(std::string const& s);
	void count(char const* name, u64 n = 1);
	inline void count(std::string const& n, u64 k = 1) { count(n.c_str(), k); }
	// A distinct non-trivial state/behaviour observed by the monitor.
	void state(u64 h);
	void sample(std::string const& s);
	// Records a violation; `key` names what failed, independent of the random data, `msg` the details.
	void violation(std::string const& key, std::string const& msg);
	[[noreturn]] void fail(std::string const& key, std::string const& msg);
	#define VP_CHECK(cond, key, ...) do { if (!(cond)) ::vp::fail(key, ::vp::fmt(__VA_ARGS__)); } while (0)

	std::string hex(void const* p, size_t n, size_t max = 64);
	std::string esc(std::string_view s, size_t max = 80);

	// ---------------------------------------------------------------- memory budget
	extern std::atomic<i64> mem_live, mem_peak, mem_requested_max;
	extern i64 mem_cap_single, mem_cap_live;
	extern int mem_fill; // -1: leave alone

	// ---------------------------------------------------------------- streams
	// Counts the operations a loader performs; exceeding the budget ends the process with a violation record.
	class CountingRead final : public zenkit::Read {
	public:
		CountingRead(std::unique_ptr<zenkit::Read> in, u64 budget, std::string key) : in(std::move(in)), budget(budget), key(std::move(key)) {}
		size_t read(void* buf, size_t len) noexcept override { tick(1 + len / 64); return in->read(buf, len); }
		void seek(ssize_t off, zenkit::Whence w) noexcept override { tick(1); in->seek(off, w); }
		size_t tell() const noexcept override { tick(1); return in->tell(); }
		bool eof() const noexcept override { tick(1); return in->eof(); }
		u64 ops() const { return n; }
	private:
		void tick(u64 k) const;
		std::unique_ptr<zenkit::Read> in;
		mutable u64 n = 0;
		u64 budget;
		std::string key;
	};

	inline std::unique_ptr<zenkit::Read> mem(Bytes const& b) { return zenkit::Read::from(&b); }
	Bytes read_file(std::string const& path);
	void write_file(std::string const& path, void const* p, size_t n);
	inline Bytes to_bytes(std::string_view s) { Bytes b(s.size()); if (!s.empty()) std::memcpy(b.data(), s.data(), s.size()); return b; }
	inline std::string to_str(Bytes const& b) { return std::string(reinterpret_cast<char const*>(b.data()), b.size()); }

	// where two dumps (lines name=value) first differ; `field` gets the innermost name
	inline std::string first_diff(std::string const& a, std::string const& b, std::string* field) {
		size_t i = 0, la = 0;
		while (i < a.size() && i < b.size() && a[i] == b[i]) { if (a[i] == '\n') la = i + 1; ++i; }
		auto l = [&](std::string const& s) { auto e = s.find('\n', la); return la < s.size() ? s.substr(la, e == std::string::npos ? e : e - la) : std::string("<end>"); };
		auto x = l(a), y = l(b);
		if (field) {
			*field = x.substr(0, x.find('='));
			// drop list positions and nesting: the innermost field names the defect
			if (auto d = field->rfind('.'); d != std::string::npos && d + 1 < field->size()) *field = field->substr(d + 1);
			while (!field->empty() && std::isdigit(static_cast<unsigned char>(field->back()))) field->pop_back();
		}
		return "expected '" + esc(x, 300) + "' got '" + esc(y, 300) + "'";
	}
} // namespace vp

// each monitor program implements this
void vp_case(vp::Rng& rng, std::uint64_t n);
void vp_init();
