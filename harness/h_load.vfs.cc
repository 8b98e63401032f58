#include "h_load.hh"
#define vp_case vp_case_vfs
#define vp_init vp_init_vfs
#include "h_vfs.cc"

namespace {
	void walk(VfsNode const& n, std::string& o, std::string const& path, bool use) {
		o += esc(path, 300) + fmt("=%d", static_cast<int>(n.type()));
		if (n.type() == VfsNodeType::FILE) {
			auto in = n.open_read();
			in->seek(0, Whence::END);
			auto size = in->tell();
			in->seek(0, Whence::BEG);
			std::vector<char> b(std::min<size_t>(size, 1 << 20));
			auto got = in->read(b.data(), b.size());
			o += fmt(" %zu %zu %016llx\n", size, got, static_cast<unsigned long long>(fnv(b.data(), got)));
			return;
		}
		o += '\n';
		(void) use;
		for (auto& c : n.children()) walk(c, o, path + "/" + c.name(), use);
	}
	std::string use_vfs(Vfs const& v, bool use) {
		std::string o;
		walk(v.root(), o, "", use);
		for (auto& c : v.root().children()) { v.find(c.name()); v.resolve(c.name()); v.root().child(c.name()); }
		if (use) { o += saved([&](Write* w) { v.save(w, GameVersion::GOTHIC_1, 1000000000); }, true); }
		return o;
	}
	// Files which own their contents, of all sizes down to none, copied, replaced, opened, removed and moved to another tree.
	std::string own_files(Vfs& v, size_t salt) {
		std::string o;
		Vfs w;
		for (size_t size : {size_t {0}, size_t {1}, size_t {300} + salt % 77}) {
			auto* mem = new std::byte[size];
			for (size_t i = 0; i < size; ++i) mem[i] = static_cast<std::byte>(i + salt);
			VfsFileDescriptor d {mem, size, true}, copy {d};
			VfsFileDescriptor other {new std::byte[1] {}, 1, true};
			other = copy;
			auto& dir = v.mkdir("own");
			auto name = fmt("F%zu", size);
			dir.create(VfsNode::file(name, d));
			dir.create(VfsNode::file(name, other));
			VfsNode n = VfsNode::file(name, copy, 1000000000);
			w.mount(n, "/", VfsOverwriteBehavior::ALL);
			walk(dir, o, "own", true);
			if (salt % 3 == 0) dir.remove(name);
			else if (salt % 3 == 1) v.remove("own");
			walk(n, o, "kept", true);
		}
		walk(w.root(), o, "", true);
		return o;
	}
	Register disk("disk image", [](Rng& g, u64 n) {
		auto src = random_tree(g, 1, false);
		if (src.kids.empty()) { M c; c.name = "X"; c.dir = false; c.data = "data"; src.kids.emplace("x", std::move(c)); }
		set_times(src, 1000000000);
		auto img = encode_disk(g, src, 1000000000);
		bool file = n & 2;
		return File {"disk image", to_bytes(img), true, file, false, [file](Bytes const& data, Read* in, bool use) -> std::string {
			Vfs v;
			if (file) {
				auto f = private_dir() + "/img.vdf";
				write_file(f, data.data(), data.size());
				v.mount_disk(fs::path(f));
			} else v.mount_disk(in);
			auto o = use_vfs(v, use);
			if (use) o += own_files(v, data.size());
			return o;
		}};
	});
}
