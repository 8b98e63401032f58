// Monitors of C22 (damaged input is memory-safe), C23 (bounded work and memory), C25 (loading depends on the bytes
// only) and C26 (threads). The files come from the generators of the other monitors, see h_load.*.cc.
#include "h_load.hh"
#include <barrier>
#include <cerrno>
#include <dirent.h>
#include <sanitizer/allocator_interface.h>
#include <ctime>
#include <fcntl.h>
#include <filesystem>
#include <fstream>
#include <mutex>
#include <sstream>
#include <thread>
#include <unistd.h>
#include <zenkit/Archive.hh>
#include <zenkit/CutsceneLibrary.hh>
#include <zenkit/Font.hh>
#include <zenkit/Logger.hh>
#include <zenkit/Model.hh>
#include <zenkit/ModelAnimation.hh>
#include <zenkit/ModelScript.hh>
#include <zenkit/MorphMesh.hh>
#include <zenkit/MultiResolutionMesh.hh>
#include <zenkit/Object.hh>
#include <zenkit/Texture.hh>
#include <zenkit/Vfs.hh>
#include <zenkit/World.hh>

#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

using namespace vp;
using namespace zenkit;
namespace fs = std::filesystem;

// The date is part of what is saved: it stands still, however it is asked for.
extern "C" time_t time(time_t* t) noexcept { if (t) *t = 1000000000; return 1000000000; }
extern "C" int clock_gettime(clockid_t id, struct timespec* ts) noexcept {
	if (id != CLOCK_REALTIME && id != CLOCK_REALTIME_COARSE) return static_cast<int>(syscall(SYS_clock_gettime, id, ts));
	ts->tv_sec = 1000000000;
	ts->tv_nsec = 0;
	return 0;
}

namespace vp {
	static std::atomic<int> thread_no {0};
	std::string private_dir() {
		thread_local std::string d;
		if (d.empty()) {
			d = run.scratch + "/t" + std::to_string(thread_no.fetch_add(1, std::memory_order_relaxed));
			std::error_code ec;
			fs::create_directories(d, ec);
		}
		return d;
	}
}

// ------------------------------------------------------------------ sample files
namespace {
	struct Sample { char const* file; std::function<std::string(Read*, bool)> load; bool absolute; };
	template <class T> std::function<std::string(Read*, bool)> plain() { return [](Read* in, bool) -> std::string { T x; x.load(in); return "loaded\n"; }; }
	std::function<std::string(Read*, bool)> vob(GameVersion v) {
		return [v](Read* in, bool) -> std::string {
			auto a = ReadArchive::from(in);
			auto o = a->read_object(v);
			return o ? fmt("object %d\n", static_cast<int>(o->get_object_type())) : "null\n";
		};
	}
	std::vector<std::pair<std::string, Sample>>& samples() {
		static std::vector<std::pair<std::string, Sample>> s = [] {
			std::vector<std::pair<std::string, Sample>> r;
			std::string base = VP_SAMPLES;
			auto add = [&](std::string const& p, std::function<std::string(Read*, bool)> f, bool abs) { if (fs::exists(p)) r.push_back({p, {"", std::move(f), abs}}); };
			for (auto& [g, v] : {std::pair {"G1", GameVersion::GOTHIC_1}, std::pair {"G2", GameVersion::GOTHIC_2}}) {
				std::vector<std::string> fl;
				std::error_code ec;
				for (auto& e : fs::directory_iterator(base + "/" + g + "/VOb", ec)) if (e.path().extension() == ".zen") fl.push_back(e.path().string());
				std::sort(fl.begin(), fl.end());
				for (auto& f : fl) add(f, vob(v), true);
				add(base + "/" + g + "/FONT_OLD_10_WHITE_HI.FNT", plain<Font>(), false);
				add(base + "/" + g + "/HUMANS-S_FISTRUN.MAN", plain<ModelAnimation>(), false);
			}
			add(base + "/basic.vdf", [](Read* in, bool) -> std::string { Vfs v; v.mount_disk(in); return fmt("%zu\n", v.root().children().size()); }, true);
			add(base + "/ascii.zen", vob(GameVersion::GOTHIC_1), false);
			add(base + "/binary.zen", vob(GameVersion::GOTHIC_1), false);
			add(base + "/erz.tex", plain<Texture>(), false);
			add(base + "/hierarchy0.mdh", plain<ModelHierarchy>(), false);
			add(base + "/mesh0.mrm", plain<MultiResolutionMesh>(), false);
			add(base + "/morph0.mmb", plain<MorphMesh>(), false);
			add(base + "/secretdoor.mdm", plain<ModelMesh>(), false);
			add(base + "/smoke_waterpipe.mdm", plain<ModelMesh>(), false);
			add(base + "/waran.mds", plain<ModelScript>(), false);
			add(base + "/waran.msb", plain<ModelScript>(), false);
			return r;
		}();
		return s;
	}
	Register sample_files("sample", [](Rng&, u64 n) {
		auto& s = samples();
		if (s.empty()) { fprintf(stderr, "VP-ERROR no samples\n"); _exit(3); }
		auto& [p, x] = s[n % s.size()];
		return File {"sample " + fs::path(p).filename().string(), read_file(p), x.absolute, false, false, [&x](Bytes const&, Read* in, bool use) { return x.load(in, use); }};
	});
}

// ------------------------------------------------------------------ damage
namespace {
	u32 interesting(Rng& r) {
		switch (r.below(6)) {
		case 0: return r.pick<u32>({0xffffffff, 0xfffffffe, 0x7fffffff, 0x80000000, 0x80000001, 0x40000000, 0x3fffffff, 0x20000001, 0x10000000, 0x01000000, 0x00ffffff, 0xffff, 0x10000, 0x8000, 0x7fff});
		case 1: return 1u << r.below(32);
		case 2: return 0u - 1 - r.below(64);
		case 3: return r.below(8);
		case 4: return r.below(2000);
		default: return static_cast<u32>(r.next());
		}
	}
	size_t pos(Rng& r, Bytes const& b) {
		if (b.empty()) return 0;
		// formats keep their structure at the beginning
		return r.chance(35) ? r.below(static_cast<u32>(std::min<size_t>(b.size(), 200))) : static_cast<size_t>(r.next() % b.size());
	}
	void put(Bytes& b, size_t at, void const* p, size_t n) { for (size_t k = 0; k < n && at + k < b.size(); ++k) b[at + k] = static_cast<std::byte const*>(p)[k]; }
	bool texty(Bytes const& b) {
		size_t n = std::min<size_t>(b.size(), 600), t = 0;
		for (size_t k = 0; k < n; ++k) { auto c = static_cast<unsigned char>(b[k]); t += c == '\n' || c == '\t' || c == '\r' || (c >= 0x20 && c < 0x7f); }
		return n && t * 10 >= n * 9;
	}
	std::pair<size_t, size_t> line_at(Bytes const& b, size_t at) {
		size_t s = at, e = at;
		while (s > 0 && b[s - 1] != std::byte {'\n'}) --s;
		while (e < b.size() && b[e] != std::byte {'\n'}) ++e;
		return {s, std::min(e + 1, b.size())};
	}
	void replace(Bytes& b, size_t at, size_t n, Bytes const& with) {
		Bytes o(b.begin(), b.begin() + static_cast<std::ptrdiff_t>(at));
		o.insert(o.end(), with.begin(), with.end());
		o.insert(o.end(), b.begin() + static_cast<std::ptrdiff_t>(std::min(at + n, b.size())), b.end());
		b.swap(o);
	}
	constexpr size_t MAX = 400000;
	char const* damage(Rng& r, Bytes& b, Bytes const& other) {
		if (b.empty()) { b = r.bytes(1 + r.below(40)); return "random bytes"; }
		auto at = pos(r, b);
		bool text = texty(b);
		switch (r.below(text ? 24 : 15)) {
		case 0: b.resize(at); return "truncated";
		case 1: b[at] ^= static_cast<std::byte>(1u << r.below(8)); return "bit flipped";
		case 2: b[at] = static_cast<std::byte>(r.pick<u32>({0, 1, 0x7f, 0x80, 0xff, 0x20, 0x0a, 0x0d, '"', '[', ']', '-'})); return "byte set";
		case 3: case 4: case 5: { u32 v = interesting(r); put(b, r.flip() ? at & ~size_t {3} : at, &v, 4); return "dword set"; }
		case 6: { u16 v = static_cast<u16>(interesting(r)); put(b, at, &v, 2); return "word set"; }
		case 7: { // a field is a little off
			if (at + 4 > b.size()) at = b.size() < 4 ? 0 : b.size() - 4;
			u32 v = 0;
			if (b.size() >= 4) { std::memcpy(&v, b.data() + at, 4); v += static_cast<u32>(r.range(-3, 3)); put(b, at, &v, 4); }
			return "dword shifted";
		}
		case 8: { size_t n = 1 + r.below(r.flip() ? 8 : 200); replace(b, at, n, {}); return "block removed"; }
		case 9: if (b.size() < MAX) replace(b, at, 0, r.bytes(1 + r.below(r.flip() ? 8 : 200))); return "block inserted";
		case 10: if (b.size() < MAX) { size_t n = std::min<size_t>(1 + r.below(400), b.size() - at); Bytes c(b.begin() + static_cast<std::ptrdiff_t>(at), b.begin() + static_cast<std::ptrdiff_t>(at + n)); replace(b, pos(r, b), 0, c); } return "block duplicated";
		case 11: { size_t q = pos(r, b), n = 1 + r.below(64); for (size_t k = 0; k < n && at + k < b.size() && q + k < b.size(); ++k) std::swap(b[at + k], b[q + k]); return "blocks swapped"; }
		case 12: if (!other.empty() && b.size() < MAX) { auto o = pos(r, other); Bytes c(other.begin() + static_cast<std::ptrdiff_t>(o), other.begin() + static_cast<std::ptrdiff_t>(std::min(other.size(), o + 1 + r.below(3000)))); replace(b, at, r.flip() ? c.size() : 0, c); } return "spliced";
		case 13: { size_t n = std::min<size_t>(1 + r.below(64), b.size() - at); auto v = static_cast<std::byte>(r.pick<u32>({0, 0xff, 0x20, 0x41})); for (size_t k = 0; k < n; ++k) b[at + k] = v; return "block overwritten"; }
		case 14: { // one piece many times
			size_t n = std::min<size_t>(1 + r.below(120), b.size() - at);
			Bytes c(b.begin() + static_cast<std::ptrdiff_t>(at), b.begin() + static_cast<std::ptrdiff_t>(at + n)), m;
			for (u32 k = 2 + r.below(300); k > 0 && m.size() + b.size() < MAX; --k) m.insert(m.end(), c.begin(), c.end());
			replace(b, at, 0, m);
			return "piece repeated";
		}
		case 15: case 16: case 17: { // a number
			size_t k = at;
			while (k < b.size() && !std::isdigit(static_cast<unsigned char>(b[k]))) ++k;
			size_t e = k;
			while (e < b.size() && std::isdigit(static_cast<unsigned char>(b[e]))) ++e;
			if (k == e) return "number kept";
			auto s = r.pick<std::string>({"0", "1", "-1", "2", "255", "256", "65536", "2147483647", "2147483648", "-2147483648", "4294967295", "4294967296", "99999999999999999999", "1e30", "nan", "", "000000000000000000000000000000001", "0x10", "1000000", std::to_string(r.below(3000))});
			replace(b, k, e - k, to_bytes(s));
			return "number replaced";
		}
		case 18: { auto [s, e] = line_at(b, at); replace(b, s, e - s, {}); return "line removed"; }
		case 19: { auto [s, e] = line_at(b, at); Bytes l(b.begin() + static_cast<std::ptrdiff_t>(s), b.begin() + static_cast<std::ptrdiff_t>(e)); replace(b, line_at(b, pos(r, b)).first, 0, l); return "line duplicated"; }
		case 20: { auto [s, e] = line_at(b, at); auto q = pos(r, b); auto [t, f] = line_at(b, q); if (e <= t) { Bytes x(b.begin() + static_cast<std::ptrdiff_t>(s), b.begin() + static_cast<std::ptrdiff_t>(e)), y(b.begin() + static_cast<std::ptrdiff_t>(t), b.begin() + static_cast<std::ptrdiff_t>(f)); replace(b, t, f - t, x); replace(b, s, e - s, y); } return "lines swapped"; }
		case 21: { auto s = r.pick<std::string>({"[]\n", "[", "]", "[% % 0 0]\n", "[x zCVob 1 0]\n", "[obj \xA7 0 0]\n", "\"", "(", ")", "{", "}", "//", "/*", ":", "=", "\n\n\n", "int:", "raw:", "END\n", "\r\n", std::string(1, '\0'), std::string(300, 'A'), std::string(3000, ' '), "*eventTag(0 \"", "ani (\""}); replace(b, at, r.flip() ? 0 : s.size(), to_bytes(s)); return "token put"; }
		case 22: { std::string s; auto t = r.pick<std::string>({"[a zCVob 1 0]\n", "[a % 0 0]\n", "[obj zCCSBlock 0 1]\n", "{", "(", "[", "ani (\"x\" 1 \"y\" 0 0 M. \"z\" F 1 2) {\n", "aniEnum {\n", "\"", "/*"}); for (u32 k = 10 + r.below(r.chance(10) ? 12000 : 300); k > 0 && s.size() + b.size() < MAX; --k) s += t; replace(b, r.flip() ? line_at(b, at).first : at, 0, to_bytes(s)); return "nested"; }
		default: { // a type
			auto s = to_str(b);
			static char const* T[] = {"int:", "float:", "string:", "bool:", "enum:", "vec3:", "color:", "raw:", "rawFloat:"};
			auto a = r.pick<char const*>({"int:", "float:", "string:", "bool:", "enum:", "vec3:", "color:", "raw:", "rawFloat:"});
			auto p = s.find(a, at);
			if (p != std::string::npos) { s.replace(p, strlen(a), T[r.below(9)]); b = to_bytes(s); }
			return "type replaced";
		}
		}
	}
	// archives nested as deeply as their size allows
	Register deep("deep nesting", [](Rng& r, u64 n) {
		auto v = n & 1 ? GameVersion::GOTHIC_2 : GameVersion::GOTHIC_1;
		std::string s = "ZenGin Archive\nver 1\nzCArchiverGeneric\nASCII\nsaveGame 0\ndate 1.1.2001 1:1:1\nuser x\nEND\nobjects 9\nEND\n\n";
		u32 depth = r.pick<u32>({1, 5, 200, 3000, 12000});
		auto cls = r.pick<std::string>({"zCCSBlock", "zCMover:zCTrigger:zCVob", "oCNpc:zCVob", "zCVob", "%", "zCWayNet", "zCCSLib", "oCWorld:zCWorld", "oCMobContainer:oCMobInter:oCMOB:zCVob"});
		auto fill = r.pick<std::string>({"", "\tblockName=string:x\n\tnumOfBlocks=int:1\n\tsubBlock0=float:1\n", "\tnumItems=int:1\n", "\tpack=int:0\n\tpresetName=string:\n\tbbox3DWS=rawFloat:0 0 0 1 1 1 \n\ttrafoOSToWSRot=raw:" + std::string(72, '0') + "\n\ttrafoOSToWSPos=vec3:0 0 0\n\tvobName=string:\n\tvisual=string:\n\tshowVisual=bool:0\n\tvisualCamAlign=enum:0\n\tcdStatic=bool:0\n\tcdDyn=bool:0\n\tstaticVob=bool:0\n\tdynShadow=enum:0\n"});
		for (u32 k = 0; k < depth && s.size() < MAX; ++k) s += fmt("[a %s 0 %u]\n", cls.c_str(), k) + fill;
		if (r.flip()) for (u32 k = 0; k < depth && s.size() < 2 * MAX; ++k) s += "[]\n";
		return File {"deep nesting", to_bytes(s), false, false, false, [=](Bytes const&, Read* in, bool) -> std::string {
			auto a = ReadArchive::from(in);
			try {
				switch (n / 2 % 3) {
				case 0: { ArchiveObject o; if (a->read_object_begin(o)) a->skip_object(true); break; }
				case 1: a->skip_object(false); break;
				default: a->read_object(v);
				}
			} catch (std::exception const&) {}
			return "done\n";
		}};
	});

	std::string attempt(File const& f, Bytes const& data, Read* in, bool use, std::string* error) {
		try { return f.load(data, in, use); }
		catch (std::exception const& e) { *error = e.what(); return ""; }
		catch (CaseFailed&) { throw; }
		catch (...) { *error = "not an std::exception"; return ""; }
	}
	File make(Rng& r, u64 n, size_t* which = nullptr) {
		auto& m = makers();
		size_t k = n % m.size();
		if (which) *which = k;
		label("make " + m[k].kind);
		return m[k].make(r, n / m.size());
	}
}

void vp_init() {
	std::sort(makers().begin(), makers().end(), [](Maker const& a, Maker const& b) { return a.kind < b.kind; });
	mem_cap_single = 256ll << 20;
	mem_cap_live = 512ll << 20;
	Logger::set(LogLevel::TRACE, [](LogLevel, char const* name, char const* msg) { count("log messages"); if (strlen(name) > 100000 || strlen(msg) > 100000) abort(); });
}

static void damaged(Rng& r, u64 n) {
	bool work = run.prop == "C23";
	size_t which;
	auto f = make(r, n, &which);
	Bytes other;
	{ Rng q(r.next()); other = make(q, r.flip() ? n : r.below(10000)).data; }
	auto& kind = makers()[which].kind;
	auto go = [&](Bytes const& data, bool use, std::string const& what) {
		label(f.kind + "|" + what);
		std::string err;
		u64 ops = 0;
		i64 live0 = mem_live;
		mem_peak = live0;
		mem_requested_max = 0;
		std::unique_ptr<Read> in;
		CountingRead* cr = nullptr;
		{
			auto c = std::make_unique<CountingRead>(mem(data), 20000 + 2048 * data.size(), "endless:" + kind);
			cr = c.get();
			in = std::move(c);
		}
		std::string o = attempt(f, data, in.get(), use, &err);
		if (work) {
			ops = cr->ops();
			i64 single = mem_requested_max, peak = mem_peak - live0;
			i64 size = static_cast<i64>(data.size() + f.more);
			if (getenv("VP_TUNE")) fprintf(stderr, "TUNE %s|%d|%lld|%llu|%lld|%lld\n", kind.c_str(), use, static_cast<long long>(size), static_cast<unsigned long long>(ops), static_cast<long long>(single), static_cast<long long>(peak));
			VP_CHECK(single <= (64 << 20) + 256 * size, "memory:" + kind, "%s: %lld bytes requested at once for an input of %lld bytes", what.c_str(), static_cast<long long>(single), static_cast<long long>(size));
			VP_CHECK(peak <= (256 << 20) + 1024 * size, "memory:" + kind, "%s: %lld bytes in use for an input of %lld bytes", what.c_str(), static_cast<long long>(peak), static_cast<long long>(size));
			count("stream operations", ops);
		}
		if (!err.empty()) { count("refused"); count("refused " + kind); state(fnv(kind + err.substr(0, 60))); }
		else { count("accepted"); count("accepted " + kind); state(fnv(kind + std::to_string(ops / 16) + what)); }
		return err;
	};
	if (!run.dump.empty()) write_file(run.dump, f.data.data(), f.data.size());
	auto err = go(f.data, true, "intact");
	VP_CHECK(err.empty(), "intact-refused:" + kind, "%s: %s", f.kind.c_str(), err.c_str());
	count("intact " + kind);
	u32 budget = f.data.size() > 100000 ? 6 : f.data.size() > 20000 ? 15 : f.path ? 15 : 40;
	if (kind == "deep nesting") budget = 6;
	for (u32 k = 0; k < budget; ++k) {
		auto b = f.data;
		std::string what;
		if (k < budget / 5) { // cut off at every construct
			size_t at = b.empty() ? 0 : r.chance(30) ? b.size() - 1 - r.below(static_cast<u32>(std::min<size_t>(b.size(), 30))) : static_cast<size_t>(r.next() % b.size());
			b.resize(at);
			what = "truncated";
		} else {
			for (u32 q = 1 + (r.flip() ? 0 : r.below(6)); q > 0; --q) what = damage(r, b, other);
		}
		if (!run.dump.empty()) write_file(run.dump + fmt(".%u", k), b.data(), b.size());
		go(b, false, what);
		count("damaged: " + what);
	}
}

// ------------------------------------------------------------------ C25
static __attribute__((noinline)) void scrub(int v) {
	char volatile b[60000];
	for (size_t k = 0; k < sizeof b; ++k) b[k] = static_cast<char>(v);
}
static void only_bytes(Rng& r, u64 n) {
	size_t which;
	auto f = make(r, n, &which);
	auto& kind = makers()[which].kind;
	struct Got { std::string dump; size_t at = 0; };
	auto load = [&](std::string const& how, int fill, size_t off, auto open) {
		label(f.kind + "|" + how);
		mem_fill = fill;
		Got g;
		std::string err;
		{
			auto in = open();
			if (off) in->seek(static_cast<ssize_t>(off), Whence::BEG);
			scrub(fill < 0 ? 0 : fill);
			g.dump = attempt(f, f.data, in.get(), true, &err);
			g.at = in->tell();
		}
		mem_fill = -1;
		VP_CHECK(err.empty(), "refused:" + kind, "%s, %s: %s", f.kind.c_str(), how.c_str(), err.c_str());
		g.at -= off;
		return g;
	};
	auto ref = load("reference", 0, 0, [&] { return mem(f.data); });
	if (!run.dump.empty()) { write_file(run.dump, f.data.data(), f.data.size()); write_file(run.dump + ".txt", ref.dump.data(), ref.dump.size()); }
	auto same = [&](Got const& g, std::string const& how) {
		if (g.dump != ref.dump) { std::string field; auto d = first_diff(ref.dump, g.dump, &field); fail("differs:" + kind + ":" + how + ":" + field, f.kind + ", " + how + ": " + d); }
		if (!f.path) VP_CHECK(g.at == ref.at, "position:" + kind + ":" + how, "%s, %s: the stream stands at %zu instead of %zu", f.kind.c_str(), how.c_str(), g.at, ref.at);
		count("compared: " + how);
		count("values compared", static_cast<u64>(std::count(g.dump.begin(), g.dump.end(), '\n')));
	};
	for (int fill : {0x55, 0xAA, 0xFF, 0x01}) same(load(fmt("memory filled with %02x", fill), fill, 0, [&] { return mem(f.data); }), "other memory contents");
	state(fnv(ref.dump));
	if (f.path) return;
	auto path = private_dir() + "/x.bin";
	write_file(path, f.data.data(), f.data.size());
	same(load("vector", 0x55, 0, [&] { return Read::from(Bytes(f.data)); }), "owned vector");
	same(load("mapped file", 0x55, 0, [&] { return Read::from(fs::path(path)); }), "mapped file");
	{
		FILE* fp = fopen(path.c_str(), "rb");
		same(load("FILE", 0x55, 0, [&] { return Read::from(fp); }), "FILE");
		fclose(fp);
		std::ifstream is(path, std::ios::binary);
		same(load("ifstream", 0x55, 0, [&] { return Read::from(&is); }), "ifstream");
		std::istringstream ss(to_str(f.data));
		same(load("stringstream", 0x55, 0, [&] { return Read::from(&ss); }), "stringstream");
	}
	{ // inside a larger stream
		size_t off = f.absolute ? 0 : 1 + r.below(r.flip() ? 9 : 3000);
		Bytes big = r.bytes(static_cast<u32>(off));
		big.insert(big.end(), f.data.begin(), f.data.end());
		if (off) same(load("offset", 0x55, off, [&] { return mem(big); }), "offset");
		auto tail = r.bytes(1 + r.below(500));
		tail[0] = static_cast<std::byte>('#'); // text archives skip blanks after a line
		// these go on to the end of the stream: their last chunk or line is not marked
		static std::set<std::string> const open_end {"model script", "binary model script", "archive", "animation", "morphmesh", "disk image", "deep nesting", "sample"};
		if (open_end.count(kind) == 0) {
			big.insert(big.end(), tail.begin(), tail.end());
			same(load("enclosed", 0x55, off, [&] { return mem(big); }), "enclosed");
			write_file(path, big.data(), big.size());
			std::ifstream is(path, std::ios::binary);
			if (off) same(load("enclosed in a file", 0x55, off, [&] { return Read::from(&is); }), "enclosed in a file");
		}
	}
	// after other things, intact and damaged, have been loaded
	for (u32 k = 2; k > 0; --k) {
		Rng q(r.next());
		auto g = make(q, r.below(100000));
		if (g.data.size() > 100000) continue;
		auto b = g.data;
		if (r.flip()) damage(q, b, f.data);
		std::string err;
		label(g.kind + "|before");
		attempt(g, b, mem(b).get(), false, &err);
	}
	same(load("after others", 0x55, 0, [&] { return mem(f.data); }), "after others");
	fs::remove(path);
}

// ------------------------------------------------------------------ C32
static std::string saving; // the kind of file
void vp::saved_everywhere(Bytes const& want, std::function<void(Write*)> const& save, bool absolute) {
	auto same = [&](void const* p, size_t n, char const* how) {
		if (n != want.size() || std::memcmp(p, want.data(), n) != 0) {
			size_t at = 0;
			while (at < n && at < want.size() && static_cast<std::byte const*>(p)[at] == want[at]) ++at;
			fail("saved:" + saving + ":" + how, fmt("%zu bytes instead of %zu, other from byte %zu", n, want.size(), at));
		}
		count(std::string {"saved: "} + how);
		count("bytes compared", n);
	};
	Rng r(fnv(want.data(), want.size()));
	for (int fill : {0x55, 0xAA, 0x00}) { // again, with other memory contents
		Bytes b;
		mem_fill = fill;
		{ auto w = Write::to(&b); scrub(fill); save(w.get()); }
		mem_fill = -1;
		same(b.data(), b.size(), "again");
	}
	auto path = private_dir() + "/saved.bin";
	{ auto w = Write::to(fs::path(path)); save(w.get()); }
	auto got = read_file(path);
	same(got.data(), got.size(), "file");
	if (FILE* fp = fopen(path.c_str(), "w+b")) {
		{ auto w = Write::to(fp); save(w.get()); VP_CHECK(absolute || w->tell() == want.size(), "position:" + saving, "FILE: %zu instead of %zu", w->tell(), want.size()); }
		fclose(fp);
		got = read_file(path);
		same(got.data(), got.size(), "FILE");
	}
	{
		std::ofstream os(path, std::ios::binary | std::ios::trunc);
		{ auto w = Write::to(&os); save(w.get()); }
		os.close();
		got = read_file(path);
		same(got.data(), got.size(), "ofstream");
	}
	fs::remove(path);
	{
		std::ostringstream os;
		{ auto w = Write::to(&os); save(w.get()); }
		auto s = os.str();
		same(s.data(), s.size(), "stringstream");
	}
	{ // over something else; the sanitizer guards the bytes around it
		Bytes b(want.size() + 9, static_cast<std::byte>(0xE7));
		{ auto w = Write::to(b.data(), b.size()); save(w.get()); VP_CHECK(absolute || w->tell() == want.size(), "position:" + saving, "buffer: %zu instead of %zu", w->tell(), want.size()); }
		for (size_t k = want.size(); k < b.size(); ++k) VP_CHECK(b[k] == static_cast<std::byte>(0xE7), "past-end:" + saving, "byte %zu behind the end was changed", k - want.size());
		same(b.data(), want.size(), "used buffer");
		std::unique_ptr<std::byte[]> x(new std::byte[want.size()]);
		{ auto w = Write::to(x.get(), want.size()); save(w.get()); }
		same(x.get(), want.size(), "tight buffer");
	}
	if (absolute) { // these go on after what they have written, with positions from the start of the stream
		auto head = r.bytes(1 + r.below(r.flip() ? 9 : 5000));
		Bytes b;
		if (saving != "disk image") {
			auto w = Write::to(&b);
			w->write(head.data(), head.size());
			save(w.get());
			VP_CHECK(b.size() == head.size() + want.size(), "embedded-size:" + saving, "%zu instead of %zu", b.size(), head.size() + want.size());
			VP_CHECK(std::equal(head.begin(), head.end(), b.begin()), "before:" + saving, "bytes before it were changed");
			count("saved: embedded with absolute positions");
		}
	} else { // after something else, and before something else
		auto head = r.bytes(1 + r.below(r.flip() ? 9 : 5000)), tail = r.bytes(1 + r.below(50));
		Bytes b;
		{
			auto w = Write::to(&b);
			w->write(head.data(), head.size());
			save(w.get());
			VP_CHECK(w->tell() == head.size() + want.size(), "position:" + saving, "after %zu bytes: %zu instead of %zu", head.size(), w->tell(), head.size() + want.size());
			w->write(tail.data(), tail.size());
		}
		VP_CHECK(b.size() == head.size() + want.size() + tail.size(), "embedded-size:" + saving, "%zu instead of %zu", b.size(), head.size() + want.size() + tail.size());
		VP_CHECK(std::equal(head.begin(), head.end(), b.begin()), "before:" + saving, "bytes before it were changed");
		VP_CHECK(std::equal(tail.begin(), tail.end(), b.end() - static_cast<ssize_t>(tail.size())), "after:" + saving, "bytes after it were changed");
		same(b.data() + head.size(), want.size(), "embedded");
	}
	count("saved " + saving);
	state(fnv(want.data(), want.size()));
}
static void saves(Rng& r, u64 n) {
	static std::set<std::string> const kinds {"bsp", "cutscene library", "disk image", "font", "hierarchy", "material", "mesh", "model", "modelmesh", "mrm", "object", "save-game metadata and state", "softskin", "texture", "world"};
	static std::vector<size_t> const usable = [] {
		std::vector<size_t> v;
		for (size_t k = 0; k < makers().size(); ++k) if (kinds.count(makers()[k].kind)) v.push_back(k);
		return v;
	}();
	n = n / usable.size() * makers().size() + usable[n % usable.size()];
	size_t which;
	auto f = make(r, n, &which);
	saving = makers()[which].kind;
	label(f.kind + "|saving");
	std::string err;
	attempt(f, f.data, mem(f.data).get(), true, &err);
	VP_CHECK(err.empty(), "refused:" + saving, "%s: %s", f.kind.c_str(), err.c_str());
}

// ------------------------------------------------------------------ C30
static void replaces(Rng& r, u64 n) {
	static std::set<std::string> const kinds {"animation", "binary model script", "bsp", "compiled script", "cutscene library", "font", "hierarchy", "material", "mesh", "model", "model script",
	                                          "modelmesh", "morphmesh", "mrm", "save-game", "save-game metadata and state", "softskin", "texture", "world"};
	static std::vector<size_t> const usable = [] {
		std::vector<size_t> v;
		for (size_t k = 0; k < makers().size(); ++k) if (kinds.count(makers()[k].kind)) v.push_back(k);
		return v;
	}();
	n = n / usable.size() * makers().size() + usable[n % usable.size()];
	size_t which;
	auto f = make(r, n, &which);
	auto& kind = makers()[which].kind;
	auto load = [&](std::vector<Bytes> first, std::string const& how) {
		label(f.kind + "|" + how);
		std::string err;
		reused = true;
		before() = std::move(first);
		before_ok = before_failed = 0;
		auto in = mem(f.data);
		auto d = attempt(f, f.data, in.get(), true, &err);
		reused = false;
		before().clear();
		VP_CHECK(err.empty(), "refused:" + kind, "%s, %s: %s", f.kind.c_str(), how.c_str(), err.c_str());
		return d;
	};
	auto want = load({}, "fresh");
	auto again = [&](std::vector<Bytes> first, std::string const& how) {
		u64 files = first.size();
		auto got = load(std::move(first), how);
		if (got != want) { std::string field; auto d = first_diff(want, got, &field); fail("kept:" + kind + ":" + field, f.kind + ", " + how + ": " + d); }
		VP_CHECK(before_ok + before_failed >= files, "monitor:" + kind, "the files before were not loaded");
		count("loaded after complete loads", before_ok);
		count("loaded after failed loads", before_failed);
		count("reused: " + kind);
		count("values compared", static_cast<u64>(std::count(got.begin(), got.end(), '\n')));
		u64 h[2] = {fnv(kind), before_ok * 10 + before_failed};
		state(fnv(h, sizeof h, fnv(want)));
	};
	again({f.data}, "after itself");
	for (u32 k = 0; k < 4; ++k) {
		std::vector<Bytes> first;
		std::string how = "after";
		for (u32 q = 1 + r.below(2); q > 0; --q) {
			Rng g(r.next());
			auto o = makers()[which].make(g, r.flip() ? n / makers().size() : r.next() % 100000);
			if (o.data.size() > 100000) continue;
			auto b = o.data;
			if (k > 1) {
				if (r.flip() && !b.empty()) b.resize(static_cast<size_t>(r.next() % b.size())), how += " cut off";
				else how += std::string(" ") + damage(g, b, f.data);
			} else how += " another";
			first.push_back(std::move(b));
		}
		if (!first.empty()) again(std::move(first), how);
	}
}

// ------------------------------------------------------------------ C26
static std::string& logged() { static thread_local std::string s; return s; } // what this thread logged
// The default sink, used by several threads: every message arrives once (the lines may be mixed), to an exchanged stream.
static void default_sink(Rng& r) {
	u32 T = 3 + r.below(5);
	auto path = private_dir() + "/stderr";
	auto* before = stderr;
	struct Restore {
		FILE* b;
		~Restore() { if (stderr != b) { fclose(stderr); stderr = b; } Logger::set(LogLevel::TRACE, nullptr); }
	} restore {before};
	FILE* f = fopen(path.c_str(), "w");
	if (!f) { fprintf(stderr, "VP-ERROR %s\n", path.c_str()); _exit(3); }
	stderr = f;
	Logger::set_default(LogLevel::TRACE);
	std::barrier start(static_cast<std::ptrdiff_t>(T));
	std::vector<std::thread> ts;
	for (u32 t = 0; t < T; ++t) ts.emplace_back([&start, t, seed = r.next()] {
		Rng q(seed);
		start.arrive_and_wait();
		for (u32 k = 0; k < 12; ++k) {
			Logger::log(static_cast<LogLevel>(q.below(5)), "T", "<message %u of %u>", k, t);
			if (q.chance(20)) std::this_thread::yield();
		}
	});
	for (auto& t : ts) t.join();
	fclose(f), stderr = before;
	auto bytes = read_file(path);
	std::string got {reinterpret_cast<char const*>(bytes.data()), bytes.size()};
	if (!got.empty()) for (u32 t = 0; t < T; ++t) for (u32 k = 0; k < 12; ++k) {
		auto m = fmt("<message %u of %u>", k, t);
		auto at = got.find(m);
		if (at == std::string::npos) fail("default-sink-lost", m);
		if (got.find(m, at + 1) != std::string::npos) fail("default-sink-twice", m);
	}
	count("parallel messages of the default sink", T * 12);
}
static void threads(Rng& r, u64 n) {
	if (r.chance(5)) return default_sink(r);
	u32 T = 3 + r.below(5), N = 4 + r.below(5);
	Logger::set(LogLevel::TRACE, [](LogLevel l, char const* name, char const* msg) {
		// (paths contain the name of the thread's directory)
		if (strstr(msg, run.scratch.c_str()) == nullptr) logged() += fmt("%d %.100s %.300s\n", static_cast<int>(l), name, msg);
	});
	std::vector<File> files;
	std::vector<std::string> want;
	std::set<std::string> kinds;
	for (u32 k = 0; k < N; ++k) {
		for (u32 tries = 0;; ++tries) {
			size_t which;
			auto f = make(r, k == 0 && tries == 0 ? n : r.next() % 1000000, &which);
			if (f.data.size() + f.more > 60000) continue;
			if (makers()[which].kind == "deep nesting") continue;
			kinds.insert(makers()[which].kind);
			files.push_back(std::move(f));
			break;
		}
		if (k && r.chance(40)) files.back() = files[0]; // the same kind of thing at the same time
	}
	label("sequential");
	u64 messages = 0;
	for (auto& f : files) {
		logged().clear();
		auto d = f.load(f.data, mem(f.data).get(), true);
		messages += static_cast<u64>(std::count(logged().begin(), logged().end(), '\n'));
		want.push_back(d + "logged:\n" + logged());
	}
	label("parallel " + files[0].kind);
	std::barrier start(static_cast<std::ptrdiff_t>(T));
	struct Result { std::string key, what; u64 done = 0, values = 0; };
	std::vector<Result> res(T);
	std::atomic<u32> in_load {0}, most {0};
	std::vector<std::thread> ts;
	for (u32 t = 0; t < T; ++t) ts.emplace_back([&, t, seed = r.next()] {
		in_thread = true;
		Rng q(seed);
		Result mine;
		start.arrive_and_wait();
		for (u32 k = 0; k < 6; ++k) {
			u32 i = k == 0 ? 0 : q.below(N);
			std::string got, err;
			if (q.chance(30)) std::this_thread::yield();
			// (relaxed: the monitor must not order the threads)
			u32 now = in_load.fetch_add(1, std::memory_order_relaxed) + 1;
			for (u32 m = most.load(std::memory_order_relaxed); now > m && !most.compare_exchange_weak(m, now, std::memory_order_relaxed);) {}
			Bytes own = files[i].data;
			logged().clear();
			try { got = attempt(files[i], own, mem(own).get(), true, &err); }
			catch (CaseFailed&) { err = in_thread_failed; }
			got += "logged:\n" + logged();
			in_load.fetch_sub(1, std::memory_order_relaxed);
			if ((!err.empty() || got != want[i]) && mine.key.empty()) {
				std::string field;
				mine.key = "result:" + files[i].kind, mine.what = files[i].kind + ": " + (err.empty() ? first_diff(want[i], got, &field) : "refused: " + err);
			}
			++mine.done, mine.values += static_cast<u64>(std::count(got.begin(), got.end(), '\n'));
		}
		res[t] = mine;
	});
	for (auto& t : ts) t.join();
	for (auto& x : res) {
		if (!x.key.empty()) fail(x.key, x.what);
		count("parallel operations", x.done), count("values compared", x.values);
	}
	count("log messages expected", messages);
	count("cases with overlapping operations", most > 1);
	count(fmt("cases with %u threads", T));
	for (auto& k : kinds) count("used " + k);
	std::string s;
	for (auto& k : kinds) s += k;
	state(fnv(s + std::to_string(T)));
}

// ------------------------------------------------------------------ C29
struct Held {
	i64 heap = 0, objects = 0, files = 0, maps = 0;
	static Held now(std::string const& dir) {
		Held h;
		DIR* d = opendir("/proc/self/fd");
		if (!d) { fprintf(stderr, "VP-ERROR /proc/self/fd\n"); _exit(3); }
		while (readdir(d)) ++h.files;
		closedir(d);
		FILE* f = fopen("/proc/self/maps", "r");
		if (!f) { fprintf(stderr, "VP-ERROR /proc/self/maps\n"); _exit(3); }
		char line[8192];
		while (fgets(line, sizeof line, f)) if (strstr(line, dir.c_str())) ++h.maps;
		fclose(f);
		h.objects = mem_live;
#if __has_feature(address_sanitizer)
		h.heap = static_cast<i64>(__sanitizer_get_current_allocated_bytes());
#endif
		return h;
	}
};
static void released(Rng& r, u64 n) {
	size_t which;
	auto f = make(r, n, &which);
	auto& kind = makers()[which].kind;
	auto dir = private_dir();
	auto path = dir + "/y.bin";
	Bytes other;
	{ Rng q(r.next()); other = make(q, r.below(10000)).data; }
	// Objects which own each other are possible in an archive and stay alive by design of shared ownership: damage must not create them.
	static std::set<std::string> const graphs {"archive", "deep nesting", "object", "sample", "sample save-game", "save-game", "save-game metadata and state", "world", "cutscene library", "material", "mesh", "script execution"};
	auto run_once = [&](Bytes const& data, int backend, bool use) {
		std::string err;
		if (backend == 0 || f.path) {
			attempt(f, data, mem(data).get(), use, &err);
		} else if (backend == 1) {
			attempt(f, data, Read::from(fs::path(path)).get(), use, &err);
		} else if (backend == 2) {
			FILE* fp = fopen(path.c_str(), "rb");
			attempt(f, data, Read::from(fp).get(), use, &err);
			fclose(fp);
		} else {
			attempt(f, data, Read::from(Bytes(data)).get(), use, &err);
		}
		if (use) Write::to(fs::path(dir + "/z.bin"))->write(data.data(), data.size());
		return err;
	};
	auto watch = [&](Bytes const& data, bool use, std::string const& what) {
		int backend = static_cast<int>(r.below(4));
		label(f.kind + "|" + what);
		if (!f.path && backend != 0 && backend != 3) write_file(path, data.data(), data.size());
		auto err = run_once(data, backend, use); // whatever is kept for good is acquired by now
		Held last = Held::now(dir), now;
		// A leak repeats: it is one if every repetition holds more than the one before.
		for (int k = 0;; ++k) {
			run_once(data, backend, use);
			now = Held::now(dir);
			bool heap = now.objects > last.objects || now.heap > last.heap;
			if (now.files <= last.files && now.maps <= last.maps && !heap) break;
			if (k == 3) {
				auto key = now.files > last.files ? "files" : now.maps > last.maps ? "mappings" : "memory";
				fail(std::string(key) + ":" + kind + ":" + what, fmt("%s, %s (stream %d, %s): every load keeps %lld bytes, %lld files, %lld mappings more", f.kind.c_str(), what.c_str(), backend, err.empty() ? "accepted" : err.c_str(),
				                                              static_cast<long long>(std::max(now.objects - last.objects, now.heap - last.heap)), static_cast<long long>(now.files - last.files), static_cast<long long>(now.maps - last.maps)));
			}
			last = now;
		}
		count(err.empty() ? "released after success" : "released after failure");
		count("released: " + kind);
		if (!err.empty()) count("released after failure: " + kind);
		state(fnv(kind + what + err.substr(0, 60) + std::to_string(backend)));
	};
	if (n % 8 == 0) { // things which cannot be opened, and a file system over several disks and a directory
		auto empty = dir + "/empty", img = dir + "/n.vdf";
		write_file(empty, "", 0);
		{
			Vfs v;
			v.mkdir("A/B").create(VfsNode::file("F", VfsFileDescriptor(f.data.data(), f.data.size(), false)));
			Bytes b;
			{ auto w = Write::to(&b); v.save(w.get(), GameVersion::GOTHIC_2, 1000000000); }
			write_file(img, b.data(), b.size());
		}
		auto go = [&] {
			u64 failed = 0;
			auto att = [&](auto fn) { try { fn(); } catch (std::exception const&) { ++failed; } };
			for (auto& p : {dir, empty, dir + "/missing"}) {
				att([&] { (void) Read::from(fs::path(p)); });
				att([&] { Vfs v; v.mount_disk(fs::path(p)); });
				att([&] { Vfs v; v.mount_host(fs::path(p), "X"); });
				att([&] { (void) Write::to(fs::path(p)); });
			}
			Vfs v;
			{ // memory which is handed over, shared by several nodes
				auto* m = new std::byte[40 + 1] {};
				VfsFileDescriptor d(m, 41, true), e(d), o(f.data.data(), f.data.size(), false);
				o = e, e = e, d = o;
				auto node = VfsNode::file("OWN", d), copy = node;
				v.mkdir("OWNED").create(node);
				v.mkdir("OTHER").create(copy);
				v.mkdir("OTHER").create(VfsNode::file("OWN", o));
				node = VfsNode::file("OWN", VfsFileDescriptor(f.data.data(), f.data.size(), false));
				v.remove("OWNED/OWN");
			}
			v.mount_disk(fs::path(img));
			v.mount_disk(fs::path(img), VfsOverwriteBehavior::ALL);
			v.mount_host(fs::path(dir), "/");
			if (auto* x = v.resolve("A/B/F")) { auto in = x->open_read(); v.remove("A/B/F"); auto keep = v.find("n.vdf"); if (keep) (void) keep->open_read(); }
			return failed;
		};
		label("paths");
		u64 failed = go();
		Held last = Held::now(dir), now;
		for (int k = 0;; ++k) {
			go();
			now = Held::now(dir);
			if (now.files <= last.files && now.maps <= last.maps && now.objects <= last.objects && now.heap <= last.heap) break;
			VP_CHECK(k < 3, std::string(now.files > last.files ? "files" : now.maps > last.maps ? "mappings" : "memory") + ":paths", "every round keeps %lld bytes, %lld files, %lld mappings more",
			         static_cast<long long>(std::max(now.objects - last.objects, now.heap - last.heap)), static_cast<long long>(now.files - last.files), static_cast<long long>(now.maps - last.maps));
			last = now;
		}
		count("released: paths"), count("paths refused", failed);
		std::error_code ec;
		fs::remove(empty, ec), fs::remove(img, ec);
	}
	watch(f.data, true, "intact");
	watch(f.data, false, "loaded");
	u32 budget = f.data.size() > 100000 ? 2 : f.path ? 4 : 8;
	for (u32 k = 0; k < budget; ++k) {
		auto b = f.data;
		std::string what = "truncated";
		if (graphs.count(kind) || r.flip()) b.resize(b.empty() ? 0 : static_cast<size_t>(r.next() % b.size()));
		else what = damage(r, b, other);
		watch(b, false, what);
	}
	std::error_code ec;
	fs::remove(path, ec);
}

// ------------------------------------------------------------------ C27
struct Message { int level; std::string name, text; };
static std::string text_of(Rng& r) {
	std::string s;
	switch (r.below(6)) {
	case 0: return "";
	case 1: for (u32 n = r.below(30); n > 0; --n) s += r.pick<char const*>({"%s", "%n", "%d", "%", "%%", "%999999d", "%.*s", "\n", "\x1b[0m", "\t", "a b"}); return s;
	case 2: for (u32 n = r.pick<u32>({255, 256, 511, 1023, 1024, 1025, 2047, 3000, 3900}) + r.below(3); n > 0; --n) s.push_back(static_cast<char>('a' + s.size() % 26)); return s;
	case 3: for (u32 n = r.pick<u32>({4080, 4090, 4093, 4094, 4095, 4096, 4097, 5000, 20000, 100000}); n > 0; --n) s.push_back(static_cast<char>('a' + s.size() % 26)); return s;
	default: for (u32 n = r.below(60); n > 0; --n) s.push_back(static_cast<char>(1 + r.below(255))); return s;
	}
}
static void log_va(LogLevel l, char const* name, char const* f, ...) {
	va_list ap;
	va_start(ap, f);
	Logger::logv(l, name, f, ap);
	va_end(ap);
}
static void complete(std::string const& got, std::string const& want, char const* what) {
	// everything, or as much as the buffer of four kilobytes takes
	if (want.size() <= 4000) VP_CHECK(got == want, std::string("text"), "%s: got '%s', expected '%s'", what, esc(got.substr(0, 300)).c_str(), esc(want.substr(0, 300)).c_str());
	else VP_CHECK(got.size() >= 4000 && want.compare(0, got.size(), got) == 0, std::string("text"), "%s: %zu of %zu characters, not the beginning of the text", what, got.size(), want.size());
}
static void log_api(Rng& r) {
	std::vector<Message> seen[3], want[3];
	struct Restore { ~Restore() { Logger::set(LogLevel::TRACE, nullptr); } } restore;
	int sink = -1, level = -1; // sink: 0..1 callbacks, 2 the one of use_logger, 3 default, -1 none
	Logger::set(LogLevel::TRACE, nullptr);
	bool nested = false;
	auto path = private_dir() + "/stderr";
	auto write_to = [&](int k) {
		return [&seen, &nested, k](LogLevel l, char const* name, char const* msg) {
			std::string before = msg;
			if (nested && before.compare(0, 6, "nested") != 0) {
				Logger::log(l, "NESTED", "nested %d %s", 17, before.substr(0, 20).c_str());
				VP_CHECK(before == msg, "message-changed-by-the-sink", "'%s' became '%s'", esc(before.substr(0, 100)).c_str(), esc(std::string(msg).substr(0, 100)).c_str());
			}
			seen[k].push_back({static_cast<int>(l), name, before});
		};
	};
	for (u32 n = 10 + r.below(60); n > 0; --n) {
		if (n % 7 == 0 || r.chance(12)) {
			level = static_cast<int>(r.below(5));
			auto lv = static_cast<LogLevel>(level);
			nested = false;
			switch (r.below(10)) {
			case 0: Logger::set(lv, nullptr), sink = -1; break;
			case 1: Logger::set_default(lv), sink = 3; break;
			case 2: Logger::use_default_logger(), sink = 3, level = 2; break;
			case 3: Logger::use_logger([&](LogLevel l, std::string const& m) { seen[2].push_back({static_cast<int>(l), "", m}); }), sink = 2, level = 2; break;
			default: sink = static_cast<int>(r.below(2)), Logger::set(lv, write_to(sink)), nested = r.chance(30);
			}
			count("sinks installed");
			continue;
		}
		auto l = static_cast<LogLevel>(r.below(5));
		std::string name = r.chance(20) ? text_of(r).substr(0, 60) : r.name(), text, a = text_of(r);
		i32 i = r.i();
		double d = r.range(-1000, 1000) / 8.0;
		auto emit = [&] {
			switch (r.below(6)) {
			case 0: text = a, Logger::log(l, name.c_str(), "%s", a.c_str()); break;
			case 1: text = std::to_string(i) + a + std::to_string(i), Logger::log(l, name.c_str(), "%d%s%d", i, a.c_str(), i); break;
			case 2: text = "plain text", Logger::log(l, name.c_str(), "plain text"); break;
			case 3: text = fmt("%08x/%5.3f|%u%%", static_cast<u32>(i), d, static_cast<u32>(i)), Logger::log(l, name.c_str(), "%08x/%5.3f|%u%%", static_cast<u32>(i), d, static_cast<u32>(i)); break;
			case 4: text = "<" + a + ">" + std::to_string(i), log_va(l, name.c_str(), "<%s>%d", a.c_str(), i); break;
			default: text = a.substr(0, 5), log_va(l, name.c_str(), "%.*s", static_cast<int>(text.size()), a.c_str());
			}
		};
		bool due = sink >= 0 && static_cast<int>(l) <= level;
		if (sink == 3) {
			// the default sink writes to the standard error stream
			fflush(stderr);
			int keep = dup(2), fd = open(path.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
			dup2(fd, 2), close(fd);
			auto from = time(nullptr);
			emit();
			auto to = time(nullptr);
			fflush(stderr);
			dup2(keep, 2), close(keep);
			auto b = read_file(path);
			auto s = to_str(b);
			if (!due) { VP_CHECK(s.empty(), "not-dropped", "default sink wrote '%s'", esc(s.substr(0, 200)).c_str()); count("dropped by level"); continue; }
			auto tail = name + ": " + (text.size() <= 4000 ? text + "\n" : text.substr(0, 4000));
			auto at = s.find(tail);
			VP_CHECK(at != std::string::npos && s.find(tail, at + 1) == std::string::npos, "default-sink", "'%s' not once in '%s'", esc(tail.substr(0, 200)).c_str(), esc(s.substr(0, 400)).c_str());
			static char const* const LV[] = {"ERROR", "WARNING", "INFO", "DEBUG", "TRACE"};
			VP_CHECK(s.substr(0, at).find(LV[static_cast<int>(l)]) != std::string::npos, "default-sink-level", "no %s in '%s'", LV[static_cast<int>(l)], esc(s.substr(0, at)).c_str());
			for (size_t k = 0; k + 19 <= at; ++k) { // when it was
				tm x {};
				int y, m, n = 0;
				if (sscanf(s.c_str() + k, "%4d-%2d-%2d %2d:%2d:%2d%n", &y, &m, &x.tm_mday, &x.tm_hour, &x.tm_min, &x.tm_sec, &n) != 6 || n != 19) continue;
				x.tm_year = y - 1900, x.tm_mon = m - 1;
				auto when = timegm(&x);
				VP_CHECK(when >= from - 1 && when <= to + 1, "default-sink-time", "'%s' at %lld", esc(s.substr(k, 19)).c_str(), static_cast<long long>(to));
				count("times compared");
				break;
			}
			count("default sink messages");
			continue;
		}
		emit();
		if (!due) { count(sink < 0 ? "dropped without a sink" : "dropped by level"); }
		else {
			// (a sink which logs by itself receives the inner message first)
			if (nested) want[sink].push_back({static_cast<int>(l), "NESTED", "nested 17 " + text.substr(0, 20)}), count("nested messages");
			if (sink == 2) want[2].push_back({static_cast<int>(l), "", name + ": " + text});
			else want[sink].push_back({static_cast<int>(l), name, text});
			count("delivered");
			if (text.size() > 4000) count("long messages");
			state(fnv(text.substr(0, 40) + std::to_string(text.size()) + std::to_string(sink * 8 + level)));
		}
		for (int k = 0; k < 3; ++k) {
			VP_CHECK(seen[k].size() == want[k].size(), seen[k].size() < want[k].size() ? "lost" : "not-dropped", "sink %d received %zu messages, expected %zu; sink %d level %d message %d", k, seen[k].size(), want[k].size(), sink, level, static_cast<int>(l));
			for (size_t z = 0; z < seen[k].size(); ++z) {
				VP_CHECK(seen[k][z].level == want[k][z].level, "level", "level %d, expected %d", seen[k][z].level, want[k][z].level);
				VP_CHECK(seen[k][z].name == want[k][z].name, "origin", "'%s', expected '%s'", esc(seen[k][z].name).c_str(), esc(want[k][z].name).c_str());
				complete(seen[k][z].text, want[k][z].text, "sink");
			}
			seen[k].clear(), want[k].clear();
		}
	}
}
// what loaders log, at every level, while they give the same results
static void log_loaders(Rng& r, u64 n) {
	size_t which;
	auto f = make(r, n, &which);
	if (f.data.size() + f.more > 200000 || makers()[which].kind == "deep nesting") return;
	auto data = f.data;
	bool broken = r.chance(60);
	if (broken) { Rng q(r.next()); auto other = r.bytes(64); for (u32 k = 1 + r.below(3); k > 0; --k) damage(q, data, other); }
	auto go = [&](int level, std::vector<Message>& seen) {
		label(f.kind + fmt("|level %d", level));
		if (level < 0) Logger::set(LogLevel::TRACE, nullptr);
		else Logger::set(static_cast<LogLevel>(level), [&](LogLevel l, char const* name, char const* msg) {
			// (a loader may name a file in its own directory)
			seen.push_back({static_cast<int>(l), name, msg});
			// a sink which itself logs and changes errno, and takes some stack
			if (level == 3) { errno = 42; Logger::log(LogLevel::TRACE, "SINK", "%s", "dropped"); }
		});
		std::string err;
		auto d = attempt(f, data, mem(data).get(), !broken, &err);
		Logger::set(LogLevel::TRACE, nullptr);
		return d + "|" + err;
	};
	std::vector<Message> all, none;
	auto ref = go(4, all);
	auto silent = go(-1, none);
	VP_CHECK(ref == silent, "disturbed:" + makers()[which].kind, "%s: another result with a sink installed", f.kind.c_str());
	for (int level = 0; level < 4; ++level) {
		std::vector<Message> some, want;
		auto d = go(level, some);
		VP_CHECK(d == ref, "disturbed:" + makers()[which].kind, "%s: another result at level %d", f.kind.c_str(), level);
		for (auto& m : all) if (m.level <= level) want.push_back(m);
		VP_CHECK(some.size() == want.size(), "filter:" + makers()[which].kind, "%s: %zu messages at level %d, expected %zu", f.kind.c_str(), some.size(), level, want.size());
		for (size_t k = 0; k < some.size(); ++k)
			VP_CHECK(some[k].level == want[k].level && some[k].name == want[k].name && some[k].text == want[k].text, "message:" + makers()[which].kind, "%s, level %d: '%s' instead of '%s'", f.kind.c_str(), level,
			         esc(some[k].text.substr(0, 200)).c_str(), esc(want[k].text.substr(0, 200)).c_str());
	}
	count("loads compared", 5), count("messages of loaders", all.size());
	for (auto& m : all) count(fmt("level %d messages of loaders", m.level)), state(fnv(m.name + std::to_string(m.level) + makers()[which].kind));
}

void vp_case(Rng& r, u64 n) {
	if (run.prop == "C25") only_bytes(r, n);
	else if (run.prop == "C26") threads(r, n);
	else if (run.prop == "C30") replaces(r, n);
	else if (run.prop == "C32") saves(r, n);
	else if (run.prop == "C29") released(r, n);
	else if (run.prop == "C27") { if (n % 4 == 0) log_loaders(r, n / 4); else log_api(r); }
	else damaged(r, n);
}
