#include "common.hh"
#include <zenkit/Logger.hh>
#include <csignal>
#include <fcntl.h>
#include <malloc.h>
#include <new>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <unistd.h>

#if defined(__has_feature)
	#if __has_feature(address_sanitizer) || __has_feature(thread_sanitizer)
extern "C" void __sanitizer_print_stack_trace();
		#define VP_TRACE() __sanitizer_print_stack_trace()
	#endif
#endif
#ifndef VP_TRACE
	#define VP_TRACE() ((void) 0)
#endif

namespace vp {
	Run run;
	struct Progress {
		u64 cur;
		char label[1016];
	};
	static Progress local_progress;
	static Progress* progress = &local_progress;

	std::atomic<i64> mem_live {0}, mem_peak {0}, mem_requested_max {0};
	i64 mem_cap_single = 1ll << 29, mem_cap_live = 3ll << 29;
	int mem_fill = -1;

	thread_local bool in_thread = false;
	thread_local std::string in_thread_failed;
	void label(std::string const& s) {
		if (in_thread) return;
		strncpy(progress->label, s.c_str(), sizeof progress->label - 1);
	}
	void count(char const* name, u64 n) { if (!in_thread) run.counters[name] += n; }
	void state(u64 h) {
		if (in_thread) return;
		if (run.states.size() < 60000) run.states.insert(h);
	}
	void sample(std::string const& s) {
		if (in_thread) return;
		if (run.samples.size() < 4) run.samples.push_back(s.substr(0, 300));
	}
	static std::string json(std::string_view s) {
		std::string r = "\"";
		for (unsigned char c : s) {
			if (c == '"' || c == '\\') { r += '\\'; r += static_cast<char>(c); }
			else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
			else r += static_cast<char>(c);
		}
		return r + "\"";
	}
	void violation(std::string const& key, std::string const& msg) {
		if (in_thread) { in_thread_failed = key + ": " + msg; return; }
		if (run.f) {
			fprintf(run.f, "{\"t\":\"viol\",\"case\":%llu,\"key\":%s,\"msg\":%s}\n", static_cast<unsigned long long>(run.cur), json(key).c_str(), json(msg.substr(0, 3000)).c_str());
			fflush(run.f);
		} else {
			fprintf(stderr, "viol case=%llu key=%s msg=%s\n", static_cast<unsigned long long>(run.cur), key.c_str(), msg.c_str());
		}
	}
	void fail(std::string const& key, std::string const& msg) {
		violation(key, msg);
		throw CaseFailed {};
	}
	std::string hex(void const* p, size_t n, size_t max) {
		auto* b = static_cast<unsigned char const*>(p);
		std::string r;
		char t[4];
		for (size_t i = 0; i < n && i < max; ++i) { snprintf(t, sizeof t, "%02x", b[i]); r += t; }
		if (n > max) r += "..";
		return r;
	}
	std::string esc(std::string_view s, size_t max) {
		std::string r;
		for (unsigned char c : s.substr(0, max)) {
			if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); r += b; }
			else r += static_cast<char>(c);
		}
		return r;
	}
	void CountingRead::tick(u64 k) const {
		n += k;
		if (n > budget) {
			violation(key, fmt("work on the input stream exceeded %llu operations", static_cast<unsigned long long>(budget)));
			fprintf(stderr, "VP-BUDGET %s\n", key.c_str());
			VP_TRACE();
			_exit(78);
		}
	}
	Bytes read_file(std::string const& path) {
		FILE* f = fopen(path.c_str(), "rb");
		if (!f) { fprintf(stderr, "VP-ERROR cannot open %s\n", path.c_str()); _exit(3); }
		fseek(f, 0, SEEK_END);
		Bytes b(static_cast<size_t>(ftell(f)));
		fseek(f, 0, SEEK_SET);
		if (b.size() && fread(b.data(), 1, b.size(), f) != b.size()) { fprintf(stderr, "VP-ERROR cannot read %s\n", path.c_str()); _exit(3); }
		fclose(f);
		return b;
	}
	void write_file(std::string const& path, void const* p, size_t n) {
		FILE* f = fopen(path.c_str(), "wb");
		if (!f || (n && fwrite(p, 1, n, f) != n)) { fprintf(stderr, "VP-ERROR cannot write %s\n", path.c_str()); _exit(3); }
		fclose(f);
	}

	static void on_prof(int) {
		static char const m[] = "VP-HANG\n";
		(void) !write(2, m, sizeof m - 1);
		VP_TRACE();
		_exit(79);
	}
	static void watchdog(int secs) {
		itimerval it {};
		it.it_value.tv_sec = secs;
		setitimer(ITIMER_PROF, &it, nullptr);
	}
} // namespace vp

#if !__has_feature(thread_sanitizer) // it has its own, and the counters would order the threads
static void* vp_alloc(std::size_t n) {
	using namespace vp;
	auto sn = static_cast<i64>(n);
	if (sn < 0 || sn > mem_cap_single) {
		if (sn < 0) sn = INT64_MAX;
		if (sn > mem_requested_max) mem_requested_max = sn;
		throw std::bad_alloc {};
	}
	if (sn > mem_requested_max) mem_requested_max = sn;
	if (mem_live + sn > mem_cap_live) throw std::bad_alloc {};
	void* p = malloc(n ? n : 1);
	if (!p) throw std::bad_alloc {};
	if (mem_fill >= 0) memset(p, mem_fill, n);
	i64 live = mem_live += static_cast<i64>(malloc_usable_size(p));
	if (live > mem_peak) mem_peak = live;
	return p;
}
static void vp_free(void* p) noexcept {
	if (!p) return;
	vp::mem_live -= static_cast<vp::i64>(malloc_usable_size(p));
	free(p);
}
void* operator new(std::size_t n) { return vp_alloc(n); }
void* operator new[](std::size_t n) { return vp_alloc(n); }
void operator delete(void* p) noexcept { vp_free(p); }
void operator delete[](void* p) noexcept { vp_free(p); }
void operator delete(void* p, std::size_t) noexcept { vp_free(p); }
void operator delete[](void* p, std::size_t) noexcept { vp_free(p); }
void* operator new(std::size_t n, std::nothrow_t const&) noexcept { try { return vp_alloc(n); } catch (...) { return nullptr; } }
void* operator new[](std::size_t n, std::nothrow_t const&) noexcept { try { return vp_alloc(n); } catch (...) { return nullptr; } }
void operator delete(void* p, std::nothrow_t const&) noexcept { vp_free(p); }
void operator delete[](void* p, std::nothrow_t const&) noexcept { vp_free(p); }
#endif

int main(int argc, char** argv) {
	using namespace vp;
	int secs = 60;
	std::string prog;
	for (int i = 1; i + 1 < argc; i += 2) {
		std::string a = argv[i], v = argv[i + 1];
		if (a == "--prop") run.prop = v;
		else if (a == "--tier") run.tier = v;
		else if (a == "--seed") run.seed = strtoull(v.c_str(), nullptr, 10);
		else if (a == "--first") run.first = strtoull(v.c_str(), nullptr, 10);
		else if (a == "--count") run.count = strtoull(v.c_str(), nullptr, 10);
		else if (a == "--out") run.out = v;
		else if (a == "--progress") prog = v;
		else if (a == "--scratch") run.scratch = v;
		else if (a == "--watchdog") secs = atoi(v.c_str());
		else if (a == "--fill") mem_fill = atoi(v.c_str());
		else if (a == "--dump") run.dump = v;
	}
	if (!run.out.empty()) {
		run.f = fopen(run.out.c_str(), "a");
		if (!run.f) { fprintf(stderr, "VP-ERROR out\n"); return 3; }
	}
	if (!prog.empty()) {
		int fd = open(prog.c_str(), O_RDWR | O_CREAT, 0600);
		if (fd < 0 || ftruncate(fd, sizeof(Progress)) != 0) { fprintf(stderr, "VP-ERROR progress\n"); return 3; }
		void* p = mmap(nullptr, sizeof(Progress), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
		if (p == MAP_FAILED) { fprintf(stderr, "VP-ERROR progress\n"); return 3; }
		progress = static_cast<Progress*>(p);
		close(fd);
	}
	signal(SIGPROF, on_prof);
	zenkit::Logger::set(zenkit::LogLevel::TRACE, [](zenkit::LogLevel, char const*, char const*) { ++run.counters["log messages"]; });
	vp_init();
	for (u64 n = run.first; n < run.first + run.count; ++n) {
		run.cur = n;
		progress->cur = n;
		label("");
		Rng rng(fnv(&n, sizeof n, run.seed * 0x100000001b3ull ^ fnv(run.prop)));
		watchdog(secs);
		try {
			vp_case(rng, n);
		} catch (CaseFailed&) {
		} catch (std::exception& e) {
			// an exception no monitor expected: the property's operation failed where it has to succeed
			violation(std::string("unexpected-exception:") + progress->label, fmt("%s: %s", typeid(e).name(), e.what()));
		}
		watchdog(0);
		count("cases");
	}
	progress->cur = ~0ull;
	if (run.f) {
		fprintf(run.f, "{\"t\":\"done\",\"first\":%llu,\"count\":%llu,\"peak\":%lld,\"counters\":{", static_cast<unsigned long long>(run.first), static_cast<unsigned long long>(run.count), static_cast<long long>(mem_peak));
		bool c = false;
		for (auto& [k, v] : run.counters) { fprintf(run.f, "%s%s:%llu", c ? "," : "", json(k).c_str(), static_cast<unsigned long long>(v)); c = true; }
		fprintf(run.f, "},\"samples\":[");
		c = false;
		for (auto& s : run.samples) { fprintf(run.f, "%s%s", c ? "," : "", json(s).c_str()); c = true; }
		fprintf(run.f, "],\"states\":\"");
		for (auto h : run.states) fprintf(run.f, "%llx ", static_cast<unsigned long long>(h));
		fprintf(run.f, "\"}\n");
		fclose(run.f);
	}
	return 0;
}
