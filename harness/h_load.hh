// Files of every format the library reads, with the loader to use for them. Shared by the monitors of C22 (memory
// safety on damaged input), C23 (bounded work), C25 (loading is a function of the bytes) and C26 (threads).
#pragma once
#include "common.hh"
#include <functional>

namespace vp {
	struct File {
		std::string kind;
		Bytes data;
		bool absolute = false; // holds absolute positions: must lie at the beginning of its stream
		bool path = false;     // the loader takes the bytes from a file on disk, not from a stream
		bool to_end = false;   // the loader consumes all of it
		// Loads `data` (possibly damaged by now) from `in`; with `use` everything which was loaded is described, saved
		// and converted, which is meaningful for undamaged data only.
		std::function<std::string(Bytes const& data, zenkit::Read* in, bool use)> load;
		size_t more = 0; // bytes of other files which are read as well
	};
	struct Maker { std::string kind; std::function<File(Rng&, u64)> make; };
	inline std::vector<Maker>& makers() { static std::vector<Maker> m; return m; }
	struct Register { Register(char const* k, std::function<File(Rng&, u64)> f) { makers().push_back({k, std::move(f)}); } };
	inline std::string digest(Bytes const& b) { return fmt("%zu bytes %016llx", b.size(), static_cast<unsigned long long>(fnv(b.data(), b.size()))); }
	// C30: what is loaded into the same object before the file itself. With `reused` set, objects are loaded in place.
	inline thread_local bool reused = false;
	inline std::vector<Bytes>& before() { static thread_local std::vector<Bytes> v; return v; }
	inline thread_local u64 before_ok = 0, before_failed = 0;
	template <class F> void warm(F f) {
		for (auto& b : before()) {
			auto in = mem(b);
			try { f(in.get()); ++before_ok; } catch (std::exception const&) { ++before_failed; }
		}
	}
	std::string private_dir(); // of the calling thread, under the scratch directory
	// Saves something; for C32 also everywhere else, in all circumstances, with the same result.
	void saved_everywhere(Bytes const& want, std::function<void(zenkit::Write*)> const& save, bool absolute);
	template <class F> std::string saved(F f, bool absolute = false) {
		Bytes b;
		{ auto w = zenkit::Write::to(&b); f(w.get()); }
		if (run.prop == "C32") saved_everywhere(b, f, absolute);
		return "saved=" + digest(b) + "\n";
	}
}
