// C03 / C04 / C05: the virtual file system against a plain tree model and an independent disk image reader/writer.
#include "common.hh"
#include <ctime>
#include <filesystem>
#include <fstream>
#include <sstream>
#include <fcntl.h>
#include <sys/stat.h>
#include <zenkit/Vfs.hh>
using namespace vp;
using namespace zenkit;
namespace fs = std::filesystem;

void vp_init() {}

namespace {
	std::string lower(std::string s) {
		for (auto& c : s)
			if (c >= 'A' && c <= 'Z') c = static_cast<char>(c + 32);
		return s;
	}
	bool ascii(std::string const& s) {
		for (unsigned char c : s)
			if (c >= 0x80) return false;
		return true;
	}
	constexpr i64 ANY = INT64_MIN; // time not predicted
	struct M {
		std::string name;
		bool dir = true;
		i64 time = ANY;
		std::string data;
		std::map<std::string, M> kids;
		M* get(std::string const& n) {
			auto it = kids.find(lower(n));
			return it == kids.end() ? nullptr : &it->second;
		}
		size_t nodes() const {
			size_t n = 1;
			for (auto& [k, v] : kids) n += v.nodes();
			return n;
		}
		size_t files() const {
			size_t n = dir ? 0 : 1;
			for (auto& [k, v] : kids) n += v.files();
			return n;
		}
	};
	std::vector<std::string> const NAMES = {"A", "b", "Foo.TXT", "DATA", "x y", "_WORK", "STONE.TEX", "a.b.c", "Z", "0", "q", "ab", "abc",
	                                        "[mod]", "{x}", "`", "_", "a_", "A-B", "a^b", "\xC4pfel", "\xE4", "stra\xDF" "e", "M\xFChle.ZEN",
	                                        std::string(60, 'N') + ".TEX", std::string(59, 'W') + ".TEX", std::string(32, 'K'), " lead", "x\ty", "."};
	std::string recase(Rng& g, std::string s) {
		for (auto& c : s)
			if (((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z')) && g.flip()) c = static_cast<char>(c ^ 32);
		return s;
	}
	std::string nm(Rng& g) { return recase(g, g.pick(NAMES)); }
	std::string blob(Rng& g) {
		u32 n = g.chance(10) ? g.below(20000) : g.below(60);
		if (g.chance(1) && g.chance(20)) n = 200000 + g.below(400000), count("large files");
		return to_str(g.bytes(n));
	}

	std::string content(VfsNode const& n) {
		auto r = n.open_read();
		r->seek(0, Whence::END);
		size_t sz = r->tell();
		r->seek(0, Whence::BEG);
		std::string s(sz, '\0');
		size_t got = r->read(s.data(), sz);
		VP_CHECK(got == sz && r->eof(), "vfs:content-short", "file of %zu bytes gave %zu", sz, got);
		return s;
	}

	void compare(Rng& g, VfsNode const& n, M& m, std::string const& path, char const* key, i64 tol = 0) {
		std::string k = std::string("vfs:") + key;
		bool isdir = n.type() == VfsNodeType::DIRECTORY;
		VP_CHECK(isdir == m.dir, k + ":type", "%s: expected %s", esc(path).c_str(), m.dir ? "directory" : "file");
		if (m.time != ANY) VP_CHECK(std::llabs(static_cast<long long>(n.time() - m.time)) <= tol, k + ":time", "%s: time %lld expected %lld", esc(path).c_str(), static_cast<long long>(n.time()), static_cast<long long>(m.time));
		if (!m.dir) {
			auto c = content(n);
			VP_CHECK(c == m.data, k + ":content", "%s: %zu bytes, expected %zu (%s / %s)", esc(path).c_str(), c.size(), m.data.size(), hex(c.data(), c.size(), 16).c_str(), hex(m.data.data(), m.data.size(), 16).c_str());
			count("file contents compared");
			return;
		}
		std::string prev;
		bool first = true, asc = true;
		size_t seen = 0;
		for (auto& [kk, v] : m.kids) asc = asc && ascii(kk);
		for (auto const& c : n.children()) {
			++seen;
			auto* mc = m.get(c.name());
			VP_CHECK(mc != nullptr, k + ":extra", "%s: unexpected entry '%s'", esc(path).c_str(), esc(c.name()).c_str());
			VP_CHECK(mc->name == c.name(), k + ":name", "%s: entry is called '%s', expected '%s'", esc(path).c_str(), esc(c.name()).c_str(), esc(mc->name).c_str());
			if (asc && !first) VP_CHECK(prev < lower(c.name()), k + ":order", "%s: '%s' listed after '%s'", esc(path).c_str(), esc(c.name()).c_str(), esc(prev).c_str());
			prev = lower(c.name());
			first = false;
			auto look = recase(g, c.name());
			VP_CHECK(n.child(look) == &c, k + ":child", "%s: child('%s') does not give the listed entry", esc(path).c_str(), esc(look).c_str());
			compare(g, c, *mc, path + "/" + c.name(), key, tol);
			count("entries compared");
		}
		if (seen != m.kids.size())
			for (auto& [kk, v] : m.kids)
				VP_CHECK(n.child(v.name) != nullptr, k + ":missing", "%s: entry '%s' is missing", esc(path).c_str(), esc(v.name).c_str());
		VP_CHECK(seen == m.kids.size(), k + ":count", "%s: %zu entries, expected %zu", esc(path).c_str(), seen, m.kids.size());
	}

	VfsNode file_node(Rng& g, std::string const& name, std::string const& data, i64 t, std::vector<Bytes>& keep) {
		if (g.flip()) {
			auto* p = new std::byte[data.size()];
			if (!data.empty()) memcpy(p, data.data(), data.size());
			VfsFileDescriptor fd(p, data.size(), true);
			return VfsNode::file(name, fd, t);
		}
		auto& b = keep.emplace_back(to_bytes(data));
		return VfsNode::file(name, VfsFileDescriptor(b.data(), b.size(), false), t);
	}

	M random_tree(Rng& g, int depth, bool allow_empty_dirs) {
		M m;
		u32 n = g.below(depth == 0 ? 7 : 5) + (depth > 0 && !allow_empty_dirs ? 1 : 0);
		for (u32 i = 0; i < n; ++i) {
			M c;
			c.name = nm(g);
			if (m.kids.count(lower(c.name))) continue;
			c.time = g.range(315532800 + 86400, 4000000000ll);
			if (depth < 4 && g.chance(40)) {
				auto nme = c.name;
				auto t = c.time;
				c = random_tree(g, depth + 1, allow_empty_dirs);
				c.name = nme, c.time = t, c.dir = true;
				if (!allow_empty_dirs && c.kids.empty()) continue;
			} else {
				c.dir = false;
				c.data = blob(g);
			}
			m.kids.emplace(lower(c.name), std::move(c));
		}
		return m;
	}
	// wide directories and deep chains
	M big_tree(Rng& g, bool allow_empty_dirs) {
		M m;
		u32 shape = g.below(3);
		u32 wide = shape == 0 ? 30 + g.below(300) : shape == 1 ? 2 + g.below(4) : 10 + g.below(30);
		u32 deep = shape == 1 ? 12 + g.below(40) : 0;
		for (u32 i = 0; i < wide; ++i) {
			M c;
			c.name = recase(g, g.chance(5) ? g.pick(NAMES) : fmt("n%u", g.below(wide * 3)));
			if (m.kids.count(lower(c.name))) continue;
			c.time = g.range(315532800 + 86400, 4000000000ll);
			if (g.chance(60)) {
				auto nme = c.name;
				auto t = c.time;
				c = random_tree(g, g.chance(20) ? 2 : 4, allow_empty_dirs);
				c.name = nme, c.time = t, c.dir = true;
				if (!allow_empty_dirs && c.kids.empty()) continue;
			} else {
				c.dir = false;
				c.data = to_str(g.bytes(g.below(20)));
			}
			m.kids.emplace(lower(c.name), std::move(c));
		}
		for (u32 i = 0; i < deep; ++i) {
			M up = g.chance(30) ? random_tree(g, 4, allow_empty_dirs) : M {};
			m.name = nm(g);
			m.time = g.range(315532800 + 86400, 4000000000ll);
			if (!allow_empty_dirs && m.kids.empty()) {
				M f;
				f.name = "leaf", f.dir = false, f.data = "x", f.time = m.time;
				m.kids.emplace("leaf", f);
			}
			up.kids.erase(lower(m.name));
			up.kids.emplace(lower(m.name), std::move(m));
			m = std::move(up);
		}
		count("large trees");
		return m;
	}
	VfsNode to_node(Rng& g, M& m, std::vector<Bytes>& keep) {
		if (!m.dir) return file_node(g, m.name, m.data, m.time, keep);
		auto d = VfsNode::directory(m.name, m.time);
		for (auto& [k, v] : m.kids) d.create(to_node(g, v, keep));
		return d;
	}

	// ------------------------------------------------------------------------------------------ C03
	M* walk(M* m, std::vector<std::string> const& p) {
		for (auto& s : p) {
			if (!m || !m->dir) return nullptr;
			m = m->get(s);
		}
		return m;
	}
	std::vector<std::string> some_path(Rng& g, M& root, bool existing) {
		std::vector<std::string> p;
		M* m = &root;
		u32 depth = g.chance(8) ? g.below(60) : g.below(5);
		for (u32 i = 0; i < depth; ++i) {
			if (m && m->dir && !m->kids.empty() && (existing || g.chance(75))) {
				auto it = m->kids.begin();
				std::advance(it, g.below(static_cast<u32>(m->kids.size())));
				p.push_back(it->second.name);
				m = &it->second;
			} else if (existing) break;
			else p.push_back(g.pick(NAMES)), m = m && m->dir ? m->get(p.back()) : nullptr;
		}
		return p;
	}
	std::string join(Rng& g, std::vector<std::string> const& p) {
		std::string s = g.flip() ? "/" : "";
		for (size_t i = 0; i < p.size(); ++i) {
			if (i) s += g.chance(10) ? "//" : "/";
			s += recase(g, p[i]);
			if (g.chance(10)) s += g.pick<char const*>({" ", "  ", "\t"});
		}
		if (!p.empty() && g.chance(10)) s += "/";
		return s;
	}
	M* find_any(M& m, std::string const& n) {
		if (auto* c = m.get(n)) return c;
		for (auto& [k, v] : m.kids)
			if (v.dir)
				if (auto* r = find_any(v, n)) return r;
		return nullptr;
	}

	void case_tree(Rng& g) {
		Vfs vfs;
		M root;
		root.name = "/";
		std::vector<Bytes> keep;
		keep.reserve(4000);
		std::string log;
		u32 ops = 20 + g.below(60);
		for (u32 i = 0; i < ops; ++i) {
			u32 op = g.below(10);
			u64 outcome = 0;
			switch (op) {
			case 0:
			case 1: { // mkdir
				auto p = some_path(g, root, false);
				auto s = join(g, p);
				label("mkdir");
				log += "mkdir(" + esc(s) + ") ";
				bool blocked = false;
				M* m = &root;
				for (auto& q : p) {
					if (auto* c = m->get(q)) {
						if (!c->dir) { blocked = true; break; }
						m = c;
					} else {
						break;
					}
				}
				try {
					VfsNode& n = vfs.mkdir(s);
					VP_CHECK(!blocked, "vfs:mkdir-through-file", "mkdir('%s') succeeded although a part of it is a file", esc(s).c_str());
					m = &root;
					// the spelling used in this call names the new directories
					std::string rest = s;
					size_t pos = 0;
					for (auto& q : p) {
						while (pos < s.size() && s[pos] == '/') ++pos;
						size_t e = s.find('/', pos);
						auto part = s.substr(pos, e == std::string::npos ? std::string::npos : e - pos);
						pos = e == std::string::npos ? s.size() : e;
						while (!part.empty() && isspace(static_cast<unsigned char>(part.back()))) part.pop_back();
						if (auto* c = m->get(q)) m = c;
						else {
							M d;
							d.name = part;
							m = &m->kids.emplace(lower(part), d).first->second;
						}
					}
					VP_CHECK(n.type() == VfsNodeType::DIRECTORY, "vfs:mkdir-type", "mkdir gave a file");
					compare(g, n, *m, "mkdir result", "mkdir-result");
					VP_CHECK(static_cast<Vfs const&>(vfs).resolve(s) == &n, "vfs:mkdir-resolve", "mkdir('%s') is not what resolve gives", esc(s).c_str());
					outcome = 1;
				} catch (VfsFileExistsError&) {
					VP_CHECK(blocked, "vfs:mkdir-refused", "mkdir('%s') refused although no part of it is a file", esc(s).c_str());
					count("mkdir refused");
					outcome = 2;
				}
				break;
			}
			case 2:
			case 3: { // create file or directory node under an existing directory
				auto p = some_path(g, root, true);
				M* m = walk(&root, p);
				if (!m->dir) break;
				label("create");
				auto* n = vfs.resolve(join(g, p));
				VP_CHECK(n, "vfs:resolve-missing", "existing directory not found");
				M c;
				c.name = nm(g);
				c.time = g.range(-5, 2000000000);
				if (g.chance(70)) {
					c.dir = false;
					c.data = blob(g);
				} else {
					auto t = c.time;
					auto nme = c.name;
					c = g.chance(6) ? big_tree(g, true) : random_tree(g, 3, true);
					c.name = nme, c.time = t;
				}
				log += "create(" + esc(c.name) + ") ";
				bool replaced = m->get(c.name);
				VfsNode node = to_node(g, c, keep);
				if (g.chance(30)) { // values of this type can be copied and assigned like any other
					VfsNode other = VfsNode::file("tmp", VfsFileDescriptor(new std::byte[3], 3, true), 1);
					VfsNode copy = node;
					other = node;
					copy = other;
					node = copy;
					count("node assignments");
				}
				auto* r = n->create(g.flip() ? node : std::move(node));
				m->kids.erase(lower(c.name));
				auto& mc = m->kids.emplace(lower(c.name), c).first->second;
				compare(g, *r, mc, "create result", "create-result");
				count(replaced ? "creates replacing" : "creates");
				outcome = replaced ? 3 : 4;
				break;
			}
			case 4: { // remove
				auto p = some_path(g, root, g.chance(70));
				auto s = join(g, p);
				bool trail = !s.empty() && s.back() == '/';
				M* m = walk(&root, p);
				label("remove");
				log += "remove(" + esc(s) + ") ";
				if (trail || p.empty()) { // names no entry of a directory: absence, nothing removed
					bool r = vfs.remove(s);
					VP_CHECK(!r, "vfs:remove-nothing", "remove('%s') reported success", esc(s).c_str());
					outcome = 5;
					break;
				}
				bool r;
				if (g.flip() || p.size() == 1) r = vfs.remove(s);
				else {
					auto pp = p;
					pp.pop_back();
					auto* par = walk(&root, pp);
					if (!par || !par->dir) break;
					r = vfs.resolve(join(g, pp))->remove(recase(g, p.back()));
				}
				VP_CHECK(r == (m != nullptr), "vfs:remove-result", "remove('%s') gave %d", esc(s).c_str(), r);
				if (m) {
					auto pp = p;
					pp.pop_back();
					walk(&root, pp)->kids.erase(lower(p.back()));
					count("removals");
				} else count("removals of nothing");
				outcome = m ? 6 : 7;
				break;
			}
			case 5:
			case 6:
			case 7: { // resolve
				auto p = some_path(g, root, g.chance(40));
				auto s = join(g, p);
				M* m = walk(&root, p);
				label("resolve");
				auto const* n = static_cast<Vfs const&>(vfs).resolve(s);
				VP_CHECK((n != nullptr) == (m != nullptr), "vfs:resolve", "resolve('%s') %s", esc(s).c_str(), n ? "found something" : "found nothing");
				VP_CHECK(vfs.resolve(s) == n, "vfs:resolve-nonconst", "both resolve overloads differ");
				if (m && m != &root) VP_CHECK(n->name() == m->name, "vfs:resolve-name", "resolve('%s') gave '%s'", esc(s).c_str(), esc(n->name()).c_str());
				if (m) { compare(g, *n, *m, s, "resolved"); count("lookups found"); }
				else count("lookups of nothing");
				if (!m) {
					M* q = &root;
					for (auto& x : p) { if (!q) break; if (!q->dir) { count("lookups through a file"); break; } q = q->get(x); }
				}
				outcome = m ? (m->dir ? 8 : 9) : 10;
				break;
			}
			case 8: { // find
				auto n = g.chance(15) ? std::string("") : nm(g);
				if (g.chance(20)) { // some entry that exists
					auto q = some_path(g, root, true);
					if (!q.empty()) n = recase(g, q.back());
				}
				if (g.chance(15)) n += " ";
				auto bare = n;
				while (!bare.empty() && isspace(static_cast<unsigned char>(bare.back()))) bare.pop_back();
				label("find");
				auto const* r = static_cast<Vfs const&>(vfs).find(n);
				auto* m = find_any(root, bare);
				VP_CHECK((r != nullptr) == (m != nullptr), "vfs:find", "find('%s') %s", esc(n).c_str(), r ? "found something" : "found nothing");
				VP_CHECK(vfs.find(n) == r, "vfs:find-nonconst", "both find overloads differ");
				if (r) VP_CHECK(lower(r->name()) == lower(bare), "vfs:find-name", "find('%s') gave '%s'", esc(n).c_str(), esc(r->name()).c_str());
				if (r && root.get(bare)) VP_CHECK(r == vfs.root().child(bare), "vfs:find-first", "find('%s') did not prefer the entry of the root", esc(n).c_str());
				count(r ? "finds" : "finds of nothing");
				outcome = r ? 11 : 12;
				break;
			}
			case 9: { // copies are independent
				label("copy");
				auto p = some_path(g, root, true);
				M* m = walk(&root, p);
				VfsNode copy = *vfs.resolve(join(g, p));
				if (m != &root) {
					compare(g, copy, *m, "copy", "copied");
					M before = *m;
					if (copy.type() == VfsNodeType::DIRECTORY) {
						copy.create(VfsNode::directory("copy-only"));
						if (!m->kids.empty()) copy.remove(m->kids.begin()->second.name);
					}
				}
				outcome = 13;
				break;
			}
			}
			compare(g, vfs.root(), root, "", "tree");
			u64 h[3] = {op, outcome, std::min<u64>(root.nodes(), 60)};
			state(fnv(h, sizeof h));
		}
		sample(fmt("%u operations, final tree of %zu nodes: %s", ops, root.nodes(), log.substr(0, 200).c_str()));
	}

	// ------------------------------------------------------------------------------------------ disk images
	u32 dos_time(i64 t) {
		time_t tt = t;
		tm v {};
		gmtime_r(&tt, &v);
		return (static_cast<u32>(v.tm_year - 80) << 25) | (static_cast<u32>(v.tm_mon + 1) << 21) | (static_cast<u32>(v.tm_mday) << 16) | (static_cast<u32>(v.tm_hour) << 11) |
		    (static_cast<u32>(v.tm_min) << 5) | static_cast<u32>(v.tm_sec / 2);
	}
	void put32(std::string& s, u32 v) { for (int i = 0; i < 4; ++i) s.push_back(static_cast<char>(v >> (8 * i))); }
	u32 get32(std::string const& s, size_t at) {
		u32 v = 0;
		for (size_t i = 0; i < 4; ++i) v |= static_cast<u32>(static_cast<unsigned char>(s.at(at + i))) << (8 * i);
		return v;
	}
	// independent writer: random entry order, catalog before or after the data, any signature
	std::string encode_disk(Rng& g, M const& root, i64 t) {
		struct E { std::string name; u32 off, size, type; };
		std::vector<E> cat;
		std::string data;
		bool cat_first = g.flip();
		size_t n = root.nodes() - 1;
		u32 base = static_cast<u32>(296 + (cat_first ? n * 80 : 0));
		std::vector<std::pair<size_t, M const*>> todo;
		std::function<void(M const&)> dirent = [&](M const& d) {
			std::vector<M const*> ks;
			for (auto& [k, v] : d.kids) ks.push_back(&v);
			for (size_t i = ks.size(); i > 1; --i) std::swap(ks[i - 1], ks[g.below(static_cast<u32>(i))]);
			std::vector<std::pair<size_t, M const*>> mine;
			for (size_t i = 0; i < ks.size(); ++i) {
				auto& c = *ks[i];
				u32 last = i + 1 == ks.size() ? 0x40000000u : 0;
				if (c.dir) {
					mine.emplace_back(cat.size(), &c);
					cat.push_back({c.name, 0, g.chance(50) ? 0 : g.u(), 0x80000000u | last});
				} else {
					if (g.chance(20)) data += std::string(g.below(9), 'G');
					cat.push_back({c.name, base + static_cast<u32>(data.size()), static_cast<u32>(c.data.size()), last});
					data += c.data;
				}
			}
			if (g.flip()) for (auto& x : mine) { cat[x.first].off = static_cast<u32>(cat.size()); dirent(*x.second); }
			else for (auto it = mine.rbegin(); it != mine.rend(); ++it) { cat[it->first].off = static_cast<u32>(cat.size()); dirent(*it->second); }
		};
		dirent(root);
		std::string catalog;
		for (auto& e : cat) {
			auto nn = e.name;
			nn.resize(64, ' ');
			catalog += nn;
			put32(catalog, e.off), put32(catalog, e.size), put32(catalog, e.type), put32(catalog, g.pick<u32>({0, 0x20, 0x80}));
		}
		std::string out = "An image\x1A";
		out.resize(256, '\x1A');
		out += g.pick<std::string>({"PSVDSC_V2.00\r\n\r\n", "PSVDSC_V2.00\n\r\n\r", "PSVDSC_V2.00\x1A\x1A\x1A\x1A"});
		put32(out, static_cast<u32>(n)), put32(out, static_cast<u32>(root.files())), put32(out, dos_time(t));
		put32(out, static_cast<u32>(296 + catalog.size() + data.size()));
		put32(out, cat_first ? (g.chance(20) ? 0 : 296) : static_cast<u32>(296 + data.size()));
		put32(out, 0x50);
		return cat_first ? out + catalog + data : out + data + catalog;
	}
	void set_times(M& m, i64 t) {
		m.time = t;
		for (auto& [k, v] : m.kids) set_times(v, t);
	}
	// independent reader, returns the tree or reports a malformed catalog
	M decode_disk(std::string const& d, GameVersion v, i64 t) {
		VP_CHECK(d.size() >= 296, "vfs:save:header", "only %zu bytes written", d.size());
		VP_CHECK(d.substr(256, 16) == (v == GameVersion::GOTHIC_1 ? "PSVDSC_V2.00\r\n\r\n" : "PSVDSC_V2.00\n\r\n\r"), "vfs:save:signature", "signature %s", esc(d.substr(256, 16)).c_str());
		u32 entries = get32(d, 272), files = get32(d, 276), stamp = get32(d, 280), size = get32(d, 284), cat = get32(d, 288), flags = get32(d, 292);
		VP_CHECK(flags == 0x50, "vfs:save:flags", "volume flags %x", flags);
		VP_CHECK(stamp == dos_time(t), "vfs:save:timestamp", "timestamp %x, expected %x", stamp, dos_time(t));
		VP_CHECK(cat + static_cast<u64>(entries) * 80 <= d.size(), "vfs:save:catalog-extent", "catalog of %u entries at %u in %zu bytes", entries, cat, d.size());
		VP_CHECK(size == d.size(), "vfs:save:size", "the header says %u bytes, the image has %zu", size, d.size());
		VP_CHECK(cat == 296, "vfs:save:catalog-offset", "catalog at %u", cat);
		std::vector<bool> used(entries);
		std::vector<std::pair<u64, u64>> extents;
		size_t nfiles = 0;
		std::function<void(M&, u32, int)> load = [&](M& dir, u32 i, int depth) {
			VP_CHECK(depth < 200, "vfs:save:nesting", "directories nested too deeply");
			for (;; ++i) {
				VP_CHECK(i < entries, "vfs:save:entry-count", "directory listing runs to entry %u of %u", i, entries);
				VP_CHECK(!used[i], "vfs:save:entry-shared", "catalog entry %u is used by two directories", i);
				used[i] = true;
				size_t at = cat + static_cast<size_t>(i) * 80;
				auto name = d.substr(at, 64);
				while (!name.empty() && name.back() == ' ') name.pop_back();
				u32 off = get32(d, at + 64), sz = get32(d, at + 68), type = get32(d, at + 72);
				M c;
				c.name = name;
				c.dir = type & 0x80000000u;
				if (!c.dir) {
					VP_CHECK(static_cast<u64>(off) + sz <= d.size(), "vfs:save:file-extent", "file %s at %u+%u outside of %zu bytes", esc(name).c_str(), off, sz, d.size());
					c.data = d.substr(off, sz);
					if (sz) extents.emplace_back(off, static_cast<u64>(off) + sz);
					++nfiles;
				} else load(c, off, depth + 1);
				dir.kids.emplace(lower(name), c);
				if (type & 0x40000000u) break;
				VP_CHECK((type & 0x3fffffffu) == 0, "vfs:save:type", "entry type %x", type);
			}
		};
		M root;
		if (entries) load(root, 0, 0);
		VP_CHECK(nfiles == files, "vfs:save:file-count", "header says %u files, catalog has %zu", files, nfiles);
		for (u32 i = 0; i < entries; ++i) VP_CHECK(used[i], "vfs:save:entry-unused", "catalog entry %u of %u belongs to no directory", i, entries);
		extents.emplace_back(cat, cat + static_cast<u64>(entries) * 80);
		extents.emplace_back(0, 296);
		std::sort(extents.begin(), extents.end());
		for (size_t i = 1; i < extents.size(); ++i) VP_CHECK(extents[i].first >= extents[i - 1].second, "vfs:save:overlap", "regions overlap at %llu", static_cast<unsigned long long>(extents[i].first));
		count("images decoded independently");
		return root;
	}
	void same(M& a, M& b, std::string const& path) {
		for (auto& [k, v] : a.kids) {
			auto* o = b.get(k);
			VP_CHECK(o, "vfs:save:lost", "%s/%s is not in the image", esc(path).c_str(), esc(v.name).c_str());
			VP_CHECK(o->name == v.name && o->dir == v.dir && o->data == v.data, "vfs:save:changed", "%s/%s differs in the image", esc(path).c_str(), esc(v.name).c_str());
			if (v.dir) same(v, *o, path + "/" + v.name);
		}
		VP_CHECK(a.kids.size() == b.kids.size(), "vfs:save:extra", "%s has %zu entries in the image, expected %zu", esc(path).c_str(), b.kids.size(), a.kids.size());
	}

	void merge(M& dest, M const& src, VfsOverwriteBehavior p) { // src is an entry, dest a directory
		auto* e = dest.get(src.name);
		if (!e) {
			dest.kids.emplace(lower(src.name), src);
			return;
		}
		if (e->dir && src.dir) {
			for (auto& [k, v] : src.kids) merge(*e, v, p);
			count("directories merged");
			return;
		}
		bool take = p == VfsOverwriteBehavior::ALL || (p == VfsOverwriteBehavior::NEWER && e->time > src.time) || (p == VfsOverwriteBehavior::OLDER && e->time < src.time);
		static char const* const P[] = {"NONE", "ALL", "NEWER", "OLDER"};
		count(fmt("conflicts %s %s", P[static_cast<int>(p)], take ? "taken" : "kept"));
		u64 h[4] = {static_cast<u64>(p), take, e->dir, src.dir};
		state(fnv(h, sizeof h) ^ (e->time == src.time));
		if (take) {
			dest.kids.erase(lower(src.name));
			dest.kids.emplace(lower(src.name), src);
		}
	}
	// a small set of times makes ties and both orders frequent
	void few_times(Rng& g, M& m) {
		m.time = 1000000000 + 2 * static_cast<i64>(g.below(4));
		for (auto& [k, v] : m.kids) few_times(g, v);
	}
	void host_times(std::string const& p, i64 t) {
		timespec ts[2] = {{static_cast<time_t>(t), 0}, {static_cast<time_t>(t), 0}};
		utimensat(AT_FDCWD, p.c_str(), ts, 0);
	}
	// some entries are symbolic links to their content, which the host file system follows
	void to_host(Rng& g, M const& m, std::string const& at, std::string const& side, u32& links) {
		for (auto& [k, v] : m.kids) {
			auto p = at + "/" + v.name;
			auto real = p;
			if (!side.empty() && g.chance(6)) {
				real = side + fmt("/t%u", links++);
				fs::create_symlink(real, p);
				count(v.dir ? "linked directories" : "linked files");
			}
			if (v.dir) fs::create_directory(real), to_host(g, v, real, side, links);
			else write_file(real, v.data.data(), v.data.size());
			host_times(real, v.time);
		}
	}

	void case_mount(Rng& g) {
		std::vector<Bytes> keep;
		keep.reserve(4000);
		Vfs vfs;
		M root;
		root.name = "/";
		u32 steps = 2 + g.below(5);
		static std::vector<std::string> const zones = {"UTC", "Europe/Berlin", "America/New_York", "XYZ-5:30", "ABC+11"};
		setenv("TZ", g.pick(zones).c_str(), 1);
		tzset();
		for (u32 i = 0; i < steps; ++i) {
			auto p = static_cast<VfsOverwriteBehavior>(g.below(4));
			u32 kind = g.below(3);
			M src = g.chance(3) ? big_tree(g, kind != 2) : random_tree(g, 1, kind != 2);
			few_times(g, src);
			if (kind == 0) {
				label("mount");
				src.name = nm(g);
				if (g.chance(30)) { src.kids.clear(); src.dir = false; src.data = blob(g); }
				// any directory of the tree can be the parent
				auto path = some_path(g, root, true);
				M* par = walk(&root, path);
				auto s = join(g, path);
				auto node = to_node(g, src, keep);
				if (g.chance(15)) { // documented errors, tree unchanged
					bool isfile = par && !par->dir;
					try {
						vfs.mount(node, isfile ? s : s + "/no-such-dir", p);
						fail("vfs:mount-bad-parent", "mounting below a " + std::string(isfile ? "file" : "missing directory") + " succeeded");
					} catch (VfsNotFoundError&) {
						VP_CHECK(!isfile, "vfs:mount-error-kind", "not-found error for a file parent");
					} catch (VfsFileExistsError&) {
						VP_CHECK(isfile, "vfs:mount-error-kind", "exists error for a missing parent");
					}
					count("mounts refused");
				} else {
					while (!par->dir) { path.pop_back(); par = walk(&root, path); }
					vfs.mount(node, join(g, path), p);
					merge(*par, src, p);
					count("trees mounted");
				}
			} else if (kind == 1) {
				label("mount_host");
				auto dir = run.scratch + "/host";
				fs::remove_all(dir);
				fs::create_directory(dir);
				for (auto it = src.kids.begin(); it != src.kids.end();) it = it->second.name == "." ? src.kids.erase(it) : std::next(it);
				std::function<void(M&)> clean = [&](M& m) { m.kids.erase("."); for (auto& [k, v] : m.kids) clean(v); };
				clean(src);
				auto side = run.scratch + "/side";
				fs::remove_all(side);
				fs::create_directory(side);
				u32 links = 0;
				to_host(g, src, dir, side, links);
				auto path = some_path(g, root, true);
				M* par = walk(&root, path);
				while (!par->dir) { path.pop_back(); par = walk(&root, path); }
				if (g.chance(20) && !src.kids.empty()) { // a single file
					auto& f = src.kids.begin()->second;
					vfs.mount_host(dir + "/" + f.name, join(g, path), p);
					if (f.dir) for (auto& [k, v] : f.kids) merge(*par, v, p);
					else merge(*par, f, p);
				} else {
					vfs.mount_host(g.flip() ? dir : dir + "/", join(g, path), p);
					for (auto& [k, v] : src.kids) merge(*par, v, p);
				}
				fs::remove_all(dir);
				fs::remove_all(side);
				count("host directories mounted");
			} else {
				label("mount_disk");
				i64 t = 1000000000 + 2 * static_cast<i64>(g.below(4));
				set_times(src, t);
				auto img = encode_disk(g, src, t);
				if (g.flip()) {
					auto f = run.scratch + fmt("/img%u.vdf", i);
					write_file(f, img.data(), img.size());
					vfs.mount_disk(fs::path(f), p);
					fs::remove(f);
				} else {
					auto b = to_bytes(img);
					auto r = Read::from(&b);
					vfs.mount_disk(r.get(), p);
				}
				for (auto& [k, v] : src.kids) merge(root, v, p);
				count("disk images mounted");
			}
			compare(g, vfs.root(), root, "", "mounted");
		}
		setenv("TZ", "UTC", 1);
		tzset();
		sample(fmt("%u mounts, final tree of %zu nodes with %zu files", steps, root.nodes(), root.files()));
	}

	M prune(M const& m) {
		M r = m;
		r.kids.clear();
		for (auto& [k, v] : m.kids) {
			if (!v.dir) r.kids.emplace(k, v);
			else {
				M c = prune(v);
				if (!c.kids.empty()) r.kids.emplace(k, c);
			}
		}
		return r;
	}

	void case_save(Rng& g) {
		std::vector<Bytes> keep;
		keep.reserve(4000);
		static std::vector<std::string> const zones = {"UTC", "Europe/Berlin", "America/New_York", "XYZ-5:30", "ABC+11"};
		setenv("TZ", g.pick(zones).c_str(), 1);
		tzset();
		bool empties = g.chance(25);
		M tree = g.chance(5) ? big_tree(g, empties) : random_tree(g, 0, empties);
		Vfs vfs;
		label("build");
		for (auto& [k, v] : tree.kids) vfs.mount(to_node(g, v, keep), "/", VfsOverwriteBehavior::ALL);
		auto ver = g.flip() ? GameVersion::GOTHIC_1 : GameVersion::GOTHIC_2;
		i64 t = g.range(315532800, 4354819199ll); // 1980 .. 2107
		if (g.chance(10)) t = g.pick<i64>({315532800, 315532801, 951782399, 951782400, 4102444799ll, 4354819199ll, 1711846800, 1729994400});
		label("save");
		std::string img;
		switch (g.below(3)) {
		case 0: {
			Bytes b;
			auto w = Write::to(&b);
			vfs.save(w.get(), ver, t);
			img = to_str(b);
			break;
		}
		case 1: {
			auto f = run.scratch + "/save.vdf";
			{
				auto w = Write::to(fs::path(f));
				vfs.save(w.get(), ver, t);
			}
			img = to_str(read_file(f));
			break;
		}
		default: {
			std::ostringstream os;
			auto w = Write::to(&os);
			vfs.save(w.get(), ver, t);
			img = os.str();
		}
		}
		M expect = prune(tree); // the format has no empty directories
		if (empties) count("trees with empty directories");
		label("decode");
		M dec = decode_disk(img, ver, t);
		same(expect, dec, "");
		label("mount saved");
		Vfs again;
		auto b = to_bytes(img);
		{
			auto r = Read::from(&b);
			again.mount_disk(r.get());
		}
		set_times(expect, t);
		expect.time = ANY;
		compare(g, again.root(), expect, "", "saved", 1);
		label("save again");
		Bytes b2;
		auto w2 = Write::to(&b2);
		again.save(w2.get(), ver, t);
		VP_CHECK(to_str(b2) == img, "vfs:save-again", "saving the mounted image gives different bytes (%zu / %zu)", b2.size(), img.size());
		setenv("TZ", "UTC", 1);
		tzset();
		u64 h[3] = {expect.nodes(), expect.files(), empties};
		state(fnv(h, sizeof h));
		count("images saved");
		sample(fmt("tree of %zu nodes, %zu files, image of %zu bytes, time %lld", expect.nodes(), expect.files(), img.size(), static_cast<long long>(t)));
	}
} // namespace

void vp_case(Rng& g, u64) {
	if (run.prop == "C03") case_tree(g);
	else if (run.prop == "C04") case_mount(g);
	else case_save(g);
}
