// Monitors of C06 (values), C07 (structure, sharing, skipping), C08 (types are enforced).
#include "refar.hh"
#include <ctime>
#include <zenkit/CutsceneLibrary.hh>
#include <zenkit/Error.hh>
#include <zenkit/Logger.hh>
#include <zenkit/SaveGame.hh>
#include <zenkit/vobs/Misc.hh>
#include <zenkit/vobs/VirtualObject.hh>

using namespace vp;
using namespace zenkit;

// The clock is part of the environment: archives are written while it moves.
static time_t g_clock = 1000000000;
extern "C" time_t time(time_t* t) noexcept {
	if (t) *t = g_clock;
	return g_clock;
}

static ArchiveFormat const FORMATS[] = {ArchiveFormat::BINARY, ArchiveFormat::BINSAFE, ArchiveFormat::ASCII};
static char const* FN[] = {"binary", "binsafe", "ascii"};

void vp_init() { Logger::set(LogLevel::ERROR, [](LogLevel, char const*, char const*) {}); }

static std::string line_text(Rng& r, ArchiveFormat f) {
	switch (r.below(9)) {
	case 0: return "";
	case 1: return r.pick<char const*>({"[]", "[a b 0 1]", "[% % 0 0]", "[obj zCVob 12 3]", "[", "]", "[x \xA7 0 0]", "END", "int:5", "a=int:5", "=", ":", "[]x", " ", "  a b  ", "\t\xff\x80"});
	case 2: {
		u32 n = r.pick<u32>({1, 2, 3, 127, 128, 255, 256, 257, 1000, 1024, 4095, 4096, 4097, 9000, 20000, 65535});
		std::string s;
		for (u32 k = 0; k < n; ++k) { char c; do c = static_cast<char>(r.next()); while (c == 0 || c == '\n' || c == '\r'); s += c; }
		return s;
	}
	case 3:
		if (f == ArchiveFormat::BINSAFE) { // lengths are explicit, anything goes
			std::string s;
			u32 n = r.pick<u32>({1, 5, 40, 65535});
			for (u32 k = 0; k < n; ++k) s += static_cast<char>(r.next());
			return s;
		}
		return r.name(30);
	default: return r.name(30);
	}
}

static Val gen_val(Rng& r, ArchiveFormat f, int kind = -1) {
	Val v;
	v.kind = static_cast<Val::Kind>(kind >= 0 ? kind : static_cast<int>(r.below(Val::KINDS)));
	static char const* N[] = {"a", "pack", "vobName", "trafoOSToWSRot", "bbox3DWS", "curState.valid", "x0", "NumOfEntries"};
	v.name = r.chance(70) ? N[r.below(8)] : r.name(20, true);
	if (r.chance(1)) v.name = r.name(900, true), count("long names");
	bool text = f == ArchiveFormat::ASCII;
	auto fl = [&] { return text ? (r.chance(50) ? r.ftext() : r.f()) : r.f(); };
	switch (v.kind) {
	case Val::STRING: v.s = line_text(r, f); break;
	case Val::INT: v.i = r.i(); break;
	case Val::BYTE: v.i = r.u() & 0xff; break;
	case Val::WORD: v.i = r.u() & 0xffff; break;
	case Val::ENUM: v.i = f == ArchiveFormat::BINARY ? r.u() & 0xff : r.u(); break;
	case Val::BOOL: v.i = r.flip(); break;
	case Val::COLOR: for (auto& c : v.c) c = static_cast<u8>(r.u()); break;
	case Val::RAW: v.raw = r.bytes(r.chance(10) ? r.pick<u32>({65535, 4096, 256}) : r.below(70)); if (r.chance(30)) for (auto& x : v.raw) if (r.flip()) x = std::byte(r.below(17)); break;
	case Val::RAWFLOAT: for (u32 n = r.chance(4) ? r.below(600) : r.below(12); n > 0; --n) v.fs.push_back(fl()); break;
	default: for (auto& x : v.f) x = fl(); break;
	}
	return v;
}

static void put(WriteArchive& w, Val const& v, Rng& r) {
	// names are passed as views into a larger buffer: nothing terminates them
	std::string store = v.name + "JUNK";
	std::string_view n {store.data(), v.name.size()};
	std::string vstore = v.s + "TAIL";
	switch (v.kind) {
	case Val::STRING: w.write_string(n, std::string_view(vstore.data(), v.s.size())); break;
	case Val::INT: w.write_int(n, static_cast<i32>(v.i)); break;
	case Val::FLOAT: w.write_float(n, v.f[0]); break;
	case Val::BYTE: w.write_byte(n, static_cast<u8>(v.i)); break;
	case Val::WORD: w.write_word(n, static_cast<u16>(v.i)); break;
	case Val::ENUM: w.write_enum(n, static_cast<u32>(v.i)); break;
	case Val::BOOL: w.write_bool(n, v.i != 0); break;
	case Val::COLOR: w.write_color(n, Color(v.c[0], v.c[1], v.c[2], v.c[3])); break;
	case Val::VEC3: w.write_vec3(n, Vec3(v.f[0], v.f[1], v.f[2])); break;
	case Val::VEC2: w.write_vec2(n, Vec2(v.f[0], v.f[1])); break;
	case Val::BBOX: {
		AxisAlignedBoundingBox b;
		b.min = Vec3(v.f[0], v.f[1], v.f[2]);
		b.max = Vec3(v.f[3], v.f[4], v.f[5]);
		w.write_bbox(n, b);
		break;
	}
	case Val::MAT3: {
		Mat3 m {};
		for (int row = 0; row < 3; ++row) for (int col = 0; col < 3; ++col) m[static_cast<size_t>(col)][static_cast<size_t>(row)] = v.f[static_cast<size_t>(row * 3 + col)];
		w.write_mat3x3(n, m);
		break;
	}
	case Val::RAW: if (r.flip()) w.write_raw(n, v.raw); else w.write_raw(n, v.raw.data(), static_cast<u16>(v.raw.size())); break;
	case Val::RAWFLOAT: w.write_raw_float(n, v.fs.data(), static_cast<u16>(v.fs.size())); break;
	default: break;
	}
}

static bool feq(float a, float b, bool text) {
	if (!text) return std::memcmp(&a, &b, 4) == 0;
	if (a == b) return true;
	// six decimals are written: half a unit of the last one, plus the rounding of the read value
	return std::fabs(static_cast<double>(a) - static_cast<double>(b)) <= 5e-7 + std::fabs(static_cast<double>(a)) * 6e-8;
}

// Reads one value and compares it with what was written.
static void take(ReadArchive& in, Val const& v, ArchiveFormat f, char const* how) {
	bool text = f == ArchiveFormat::ASCII;
	std::string key = std::string("C06:") + FN[static_cast<int>(f)] + ":" + kind_name(v.kind) + ":" + how;
	label("read " + key);
	auto fl = [&](float got, size_t k) { VP_CHECK(feq(v.f[k], got, text), key, "component %zu: wrote %.9g, read %.9g", k, static_cast<double>(v.f[k]), static_cast<double>(got)); };
	switch (v.kind) {
	case Val::STRING: { auto g = in.read_string(); VP_CHECK(g == v.s, key, "wrote '%s' (%zu), read '%s' (%zu)", esc(v.s).c_str(), v.s.size(), esc(g).c_str(), g.size()); break; }
	case Val::INT: { auto g = in.read_int(); VP_CHECK(g == v.i, key, "wrote %lld, read %d", static_cast<long long>(v.i), g); break; }
	case Val::FLOAT: fl(in.read_float(), 0); break;
	case Val::BYTE: { auto g = in.read_byte(); VP_CHECK(g == v.i, key, "wrote %lld, read %u", static_cast<long long>(v.i), g); break; }
	case Val::WORD: { auto g = in.read_word(); VP_CHECK(g == v.i, key, "wrote %lld, read %u", static_cast<long long>(v.i), g); break; }
	case Val::ENUM: { auto g = in.read_enum(); VP_CHECK(g == v.i, key, "wrote %lld, read %u", static_cast<long long>(v.i), g); break; }
	case Val::BOOL: { auto g = in.read_bool(); VP_CHECK(g == (v.i != 0), key, "wrote %lld, read %d", static_cast<long long>(v.i), g); break; }
	case Val::COLOR: { auto g = in.read_color(); VP_CHECK(g.r == v.c[0] && g.g == v.c[1] && g.b == v.c[2] && g.a == v.c[3], key, "wrote %d %d %d %d, read %d %d %d %d", v.c[0], v.c[1], v.c[2], v.c[3], g.r, g.g, g.b, g.a); break; }
	case Val::VEC3: { auto g = in.read_vec3(); fl(g.x, 0); fl(g.y, 1); fl(g.z, 2); break; }
	case Val::VEC2: { auto g = in.read_vec2(); fl(g.x, 0); fl(g.y, 1); break; }
	case Val::BBOX: { auto g = in.read_bbox(); fl(g.min.x, 0); fl(g.min.y, 1); fl(g.min.z, 2); fl(g.max.x, 3); fl(g.max.y, 4); fl(g.max.z, 5); break; }
	case Val::MAT3: {
		auto g = in.read_mat3x3();
		for (size_t row = 0; row < 3; ++row) for (size_t col = 0; col < 3; ++col)
			VP_CHECK(feq(v.f[row * 3 + col], g[col][row], false), key, "row %zu column %zu: wrote %.9g, read %.9g", row, col, static_cast<double>(v.f[row * 3 + col]), static_cast<double>(g[col][row]));
		break;
	}
	case Val::RAW: {
		if (f != ArchiveFormat::BINARY && v.raw.size() > 1 && fnv(v.raw.data(), v.raw.size()) % 8 == 0) { // fewer bytes than there are: those come first, the rest is skipped
			size_t want = fnv(v.name.data(), v.name.size()) % v.raw.size();
			auto g = in.read_raw(want);
			Bytes got(want);
			auto n = g->read(got.data(), want);
			VP_CHECK(n == want && (n == 0 || std::memcmp(got.data(), v.raw.data(), n) == 0), key + ":part", "%zu of %zu bytes requested, read %zu", want, v.raw.size(), n);
			count("raw blocks read in part");
			break;
		}
		auto g = in.read_raw(v.raw.size());
		Bytes got(v.raw.size() + 8);
		auto n = g->read(got.data(), got.size());
		VP_CHECK(n == v.raw.size() && (n == 0 || std::memcmp(got.data(), v.raw.data(), n) == 0), key, "wrote %zu bytes, read %zu%s", v.raw.size(), n, n == v.raw.size() ? ", different" : "");
		break;
	}
	case Val::RAWFLOAT: {
		// no reader of its own: two floats are a vec2, six a box; binary has no framing at all
		if (f == ArchiveFormat::BINARY) { auto g = in.read_raw(v.fs.size() * 4); for (float x : v.fs) { float y = g->read_float(); VP_CHECK(feq(x, y, false), key, "wrote %.9g, read %.9g", static_cast<double>(x), static_cast<double>(y)); } break; }
		if (v.fs.size() >= 6) { auto g = in.read_bbox(); VP_CHECK(feq(v.fs[0], g.min.x, text) && feq(v.fs[5], g.max.z, text), key, "box from raw floats differs"); }
		else if (v.fs.size() >= 2) { auto g = in.read_vec2(); VP_CHECK(feq(v.fs[0], g.x, text) && feq(v.fs[1], g.y, text), key, "vec2 from raw floats differs"); }
		else {
			bool threw = false;
			try { (void) in.read_vec2(); } catch (ParserError const&) { threw = true; }
			VP_CHECK(threw, key, "a vec2 was read from %zu raw floats", v.fs.size());
			if (f == ArchiveFormat::BINSAFE && v.fs.size() == 1) in.get_stream()->seek(4, Whence::CUR);
		}
		break;
	}
	default: break;
	}
	count("values compared");
	count(std::string("values ") + kind_name(v.kind));
}

// ------------------------------------------------------------------------------------------------ trees
struct Node {
	std::string name, cls;
	u16 version = 0;
	u32 index = 0;
	struct Item { bool obj; Val v; std::unique_ptr<Node> n; bool is_ref = false; u32 ref = 0; std::string refname; };
	std::vector<Item> items;
};

static std::unique_ptr<Node> gen_tree(Rng& r, ArchiveFormat f, int depth, u32& index, bool values_only) {
	auto n = std::make_unique<Node>();
	n->name = r.chance(60) ? std::string("%") : r.chance(20) ? std::string(127, 'N') : r.name(20, true);
	n->cls = r.pick<char const*>({"%", "zCVob", "oCItem:zCVob", "zCUnknownThing", "a:b:c"});
	if (r.chance(3)) n->cls = std::string(127, 'C');
	n->version = static_cast<u16>(r.u());
	n->index = n->cls == "%" ? 0 : index++;
	u32 k = r.below(depth == 0 ? 12 : 6);
	bool many = depth == 0 && r.chance(2) && r.chance(run.prop == "C06" ? 100 : 10); // more names and objects than any small index can count
	if (many) k = 200 + r.below(1500), count("objects with many entries");
	for (u32 j = 0; j < k; ++j) {
		Node::Item it;
		it.obj = depth < 5 && r.chance(values_only ? 10 : 35);
		if (it.obj) {
			if (r.chance(20)) { it.is_ref = true; it.ref = r.below(index + 1); it.refname = r.name(10, true); }
			else it.n = gen_tree(r, f, depth + 1, index, values_only);
		} else it.v = gen_val(r, f, many ? r.pick<int>({Val::INT, Val::FLOAT, Val::BYTE, Val::BOOL, Val::VEC3, Val::ENUM}) : -1);
		if (many && !it.obj && r.chance(70)) it.v.name = fmt("k%u", r.below(4000));
		n->items.push_back(std::move(it));
	}
	return n;
}

static void write_tree(WriteArchive& w, Node const& n, Rng& r) {
	std::string store = n.name + "~" + n.cls + "~";
	auto idx = w.write_object_begin(std::string_view(store.data(), n.name.size()), std::string_view(store.data() + n.name.size() + 1, n.cls.size()), n.version);
	VP_CHECK(idx == n.index, "C07:index", "object index %u, expected %u", idx, n.index);
	for (auto& it : n.items) {
		if (!it.obj) put(w, it.v, r);
		else if (it.is_ref) { std::string s = it.refname + "~"; w.write_ref(std::string_view(s.data(), it.refname.size()), it.ref); }
		else write_tree(w, *it.n, r);
	}
	w.write_object_end();
}
static void ref_tree(RefArchive& w, Node const& n) {
	w.begin_at(n.name, n.cls, n.version, n.index);
	for (auto& it : n.items) {
		if (!it.obj) w.value(it.v);
		else if (it.is_ref) w.ref(it.refname, it.ref);
		else ref_tree(w, *it.n);
	}
	w.end();
}

// a position where an object neither begins nor ends must be reported as such, without moving
static void not_here(ReadArchive& in, bool begin, bool end, ArchiveFormat f, char const* where) {
	std::string key = std::string("C08:") + FN[static_cast<int>(f)] + ":boundary:" + where;
	auto at = in.get_stream()->tell();
	if (begin && f != ArchiveFormat::BINARY) {
		ArchiveObject o;
		VP_CHECK(!in.read_object_begin(o), key, "an object '%s' begins where there is none", esc(o.object_name).c_str());
		VP_CHECK(in.get_stream()->tell() == at, key, "looking for an object moved the cursor");
		count("boundaries refused");
	}
	if (end) {
		VP_CHECK(!in.read_object_end(), key, "an object ends where none does");
		VP_CHECK(in.get_stream()->tell() == at, key, "looking for the end of an object moved the cursor");
		count("boundaries refused");
	}
}

struct Reader {
	ArchiveFormat f;
	Rng& r;
	bool skips, probe;
	char const* how;

	void check_head(ArchiveObject const& o, std::string const& name, std::string const& cls, u16 ver, u32 idx, char const* what) {
		std::string key = std::string("C07:") + FN[static_cast<int>(f)] + ":" + what;
		VP_CHECK(o.object_name == name && o.class_name == cls && o.version == ver && o.index == idx, key, "%s: [%s %s %u %u] instead of [%s %s %u %u]", how,
		         esc(o.object_name).c_str(), esc(o.class_name).c_str(), o.version, o.index, esc(name).c_str(), esc(cls).c_str(), ver, idx);
		count("object headers compared");
	}

	void read(ReadArchive& in, Node const& n) {
		std::string fk = FN[static_cast<int>(f)];
		if (skips && r.chance(12)) {
			label("skip next " + fk);
			in.skip_object(false);
			count("objects skipped unread");
			return;
		}
		if (probe) not_here(in, false, true, f, "at-begin");
		ArchiveObject o;
		label("begin " + fk);
		VP_CHECK(in.read_object_begin(o), "C07:" + fk + ":begin", "%s: object not found", how);
		check_head(o, n.name, n.cls, n.version, n.index, "header");
		for (size_t k = 0; k < n.items.size(); ++k) {
			if (skips && r.chance(6)) {
				label("skip rest " + fk);
				in.skip_object(true);
				count("objects skipped in part");
				return;
			}
			auto& it = n.items[k];
			if (!it.obj) {
				bool zero_width = f == ArchiveFormat::BINARY && ((it.v.kind == Val::RAW && it.v.raw.empty()) || (it.v.kind == Val::RAWFLOAT && it.v.fs.empty()));
				if (probe && !zero_width) not_here(in, true, true, f, "at-value");
				take(in, it.v, f, how);
			} else if (it.is_ref) {
				ArchiveObject ro;
				VP_CHECK(in.read_object_begin(ro), "C07:" + fk + ":ref", "%s: reference not found", how);
				check_head(ro, it.refname, "\xA7", 0, it.ref, "reference");
				VP_CHECK(in.read_object_end(), "C07:" + fk + ":ref", "%s: reference does not end", how);
			} else read(in, *it.n);
		}
		if (probe) not_here(in, true, false, f, "at-end");
		label("end " + fk);
		VP_CHECK(in.read_object_end(), "C07:" + fk + ":end", "%s: object [%s %s] with %zu items does not end after its last item", how, n.name.c_str(), n.cls.c_str(), n.items.size());
	}
};

static void move_clock(Rng& r) {
	// dates and times of different printed length
	static time_t const T[] = {1000000000 /*9.9.2001*/, 1000080000 /*10.9.2001*/, 1004572800 - 1 /*31.10.*/, 1004572800 /*1.11.2001*/, 978307199 /*31.12.2000*/, 978307200 /*1.1.2001*/, 0, 4102444800};
	g_clock = T[r.below(8)];
}

// Independent decoder: what a written archive contains, item by item, under which name and type.
static std::vector<std::string> dissect(std::string const& d, size_t off, ArchiveFormat f) {
	std::vector<std::string> out;
	size_t at = off;
	auto line = [&] {
		size_t e = d.find('\n', at);
		if (e == std::string::npos) { at = d.size(); return std::string("<end>"); }
		auto l = d.substr(at, e - at);
		at = e + 1;
		return l;
	};
	auto num = [&](size_t n) {
		u32 v = 0;
		for (size_t k = 0; k < n && at + k < d.size(); ++k) v |= static_cast<u32>(static_cast<u8>(d[at + k])) << (8 * k);
		at += n;
		return v;
	};
	for (std::string l = line(); l != "END"; l = line()) {
		if (l == "<end>") { out.push_back("header not ended"); return out; }
		if (l.compare(0, 5, "date ") != 0 && l.compare(0, 5, "user ") != 0) out.push_back(l);
	}
	if (f == ArchiveFormat::BINSAFE) {
		out.push_back(fmt("version %u", num(4)));
		out.push_back(fmt("objects %u", num(4)));
		size_t body = at + 4, table = num(4);
		if (table < body || table + 4 > d.size()) { out.push_back(fmt("name table at %zu of %zu", table, d.size())); return out; }
		at = table;
		u32 n = num(4);
		std::map<u32, std::string> names;
		for (u32 k = 0; k < n; ++k) {
			u32 len = num(2), key = num(2), hash = num(4);
			auto nm = at < d.size() ? d.substr(at, len) : std::string();
			at += len;
			u32 h = 0;
			for (char c : nm) h = h * 33 + static_cast<u32>(c);
			if (key >= n || hash != h % 97 || !names.emplace(key, nm).second) out.push_back(fmt("name table entry %u: '%s' key %u hash %u", k, esc(nm).c_str(), key, hash));
		}
		if (at != d.size()) out.push_back(fmt("name table ends at %zu of %zu", at, d.size()));
		std::set<std::string> uniq;
		for (auto& [k, v] : names) if (!uniq.insert(v).second) out.push_back("name twice in the table: " + v);
		at = body;
		while (at < table) {
			u32 t = num(1);
			std::string item;
			if (t == 0x12) { u32 k = num(4); item = names.count(k) ? names[k] : fmt("<no name %u>", k); t = num(1); }
			item += fmt(" type %u ", t);
			size_t len = t == 1 || t == 9 || t == 0x10 ? num(2) : t == 2 || t == 3 || t == 6 || t == 8 || t == 0x11 ? 4 : t == 4 ? 1 : t == 5 ? 2 : t == 7 ? 12 : SIZE_MAX;
			if (len == SIZE_MAX || at + len > table) { out.push_back(item + "damaged"); return out; }
			out.push_back(item + d.substr(at, len));
			at += len;
		}
		return out;
	}
	auto objs = line();
	while (!objs.empty() && objs.back() == ' ') objs.pop_back();
	out.push_back(objs);
	out.push_back(line());
	line();
	if (f == ArchiveFormat::BINARY) {
		out.push_back(d.substr(std::min(at, d.size())));
		return out;
	}
	while (at < d.size()) {
		auto l = line();
		size_t tabs = 0;
		while (tabs < l.size() && l[tabs] == '\t') ++tabs;
		l.erase(0, tabs);
		if (l.empty() || l[0] != '[') {
			auto eq = l.find('='), co = l.find(':', eq == std::string::npos ? 0 : eq);
			l = co == std::string::npos ? "no type: " + l : l.substr(0, co);
		}
		out.push_back(l);
	}
	return out;
}

static void tree_case(Rng& r, bool values_only) {
	auto f = FORMATS[r.below(3)];
	bool save = r.flip();
	u32 index = 0;
	std::vector<std::unique_ptr<Node>> roots;
	u32 nroots = 1 + r.below(3);
	for (u32 k = 0; k < nroots; ++k) roots.push_back(gen_tree(r, f, 0, index, values_only));
	move_clock(r);
	for (int pass = 0; pass < 2; ++pass) {
		char const* how = pass == 0 ? "library-written" : "reference-written";
		Bytes data;
		size_t off = 0;
		if (pass == 0) {
			label("write");
			auto w = Write::to(&data);
			if (r.chance(20)) { off = r.below(40); for (size_t k = 0; k < off; ++k) w->write_ubyte(0xEE); }
			auto ar = save ? WriteArchive::to_save(w.get(), f) : WriteArchive::to(w.get(), f);
			VP_CHECK(ar->is_save_game() == save, "C07:save", "is_save_game");
			for (auto& n : roots) write_tree(*ar, *n, r);
			if (r.chance(60)) move_clock(r);
			ar->write_header();
			if (values_only) {
				RefArchive ref(f, save);
				for (auto& n : roots) ref_tree(ref, *n);
				ref.index = index;
				auto want = dissect(to_str(ref.finish()), 0, f), got = dissect(to_str(data), off, f);
				for (size_t k = 0; k < std::min(want.size(), got.size()); ++k)
					VP_CHECK(want[k] == got[k], std::string("C06:") + FN[static_cast<int>(f)] + ":layout", "item %zu of the archive is '%s', expected '%s'", k, esc(got[k].substr(0, 80)).c_str(), esc(want[k].substr(0, 80)).c_str());
				VP_CHECK(want.size() == got.size(), std::string("C06:") + FN[static_cast<int>(f)] + ":layout", "%zu items in the archive, expected %zu", got.size(), want.size());
				count("archives dissected");
				count("items dissected", want.size());
			}
		} else {
			RefArchive ref(f, save, r.chance(80), r.chance(80));
			if (r.chance(20)) { off = r.below(40); ref.base = off; }
			for (auto& n : roots) ref_tree(ref, *n);
			ref.index = index;
			data = ref.finish();
			data.insert(data.begin(), off, std::byte {0xEE});
		}
		auto in = mem(data);
		in->seek(static_cast<ssize_t>(off), Whence::BEG);
		label("open");
		auto ar = ReadArchive::from(in.get());
		VP_CHECK(ar->is_save_game() == save && ar->get_header().format == f, "C07:archive-header", "%s: save %d format %d", how, ar->is_save_game(), static_cast<int>(ar->get_header().format));
		Reader rd {f, r, !values_only, run.prop == "C08" || r.chance(30), how};
		for (auto& n : roots) rd.read(*ar, *n);
		count(std::string("archives ") + FN[static_cast<int>(f)]);
		count(how);
	}
	for (auto& n : roots) {
		u64 h = fnv(FN[static_cast<int>(f)]);
		for (auto& it : n->items) {
			u64 x = it.obj ? 100 + it.is_ref : static_cast<u64>(it.v.kind);
			h = fnv(&x, 8, h);
			u64 s = h;
			state(s);
		}
	}
	if (r.chance(1)) sample(fmt("%s archive, save=%d, %u objects, %zu roots, first root has %zu items", FN[static_cast<int>(f)], save, index, roots.size(), roots[0]->items.size()));
}

// ------------------------------------------------------------------------------------------------ sharing
static std::string tag(Object const* o) {
	if (o == nullptr) return "null";
	switch (o->get_object_type()) {
	case ObjectType::zCCSPoolItem: return "pool:" + static_cast<CutscenePoolItem const*>(o)->name;
	case ObjectType::oCMsgConversation: return "msg:" + static_cast<ConversationMessageEvent const*>(o)->text;
	case ObjectType::zCCSAtomicBlock: return "atomic";
	case ObjectType::zCCSBlock: return "block:" + static_cast<CutsceneBlock const*>(o)->name;
	case ObjectType::oCItem: return "item:" + static_cast<VItem const*>(o)->instance;
	case ObjectType::zCVob: return "vob:" + static_cast<VirtualObject const*>(o)->vob_name;
	case ObjectType::oCCSManager: return "manager";
	case ObjectType::oCAIVobMove: return "move";
	case ObjectType::oCNpcTalent: return "talent:" + std::to_string(static_cast<VNpc::Talent const*>(o)->talent);
	case ObjectType::zCVobSpot: return "spot:" + static_cast<VirtualObject const*>(o)->vob_name;
	default: return "other:" + std::to_string(static_cast<int>(o->get_object_type()));
	}
}

static void edges(Object const* o, std::vector<std::pair<std::string, std::shared_ptr<Object>>>& out) {
	if (o == nullptr) return;
	switch (o->get_object_type()) {
	case ObjectType::zCCSAtomicBlock: out.emplace_back("message", static_cast<CutsceneAtomicBlock const*>(o)->message); break;
	case ObjectType::zCCSBlock: {
		auto& b = static_cast<CutsceneBlock const*>(o)->block;
		if (b.index() == 0) out.emplace_back("atomic", std::get<0>(b)); else out.emplace_back("block", std::get<1>(b));
		break;
	}
	case ObjectType::oCCSManager: for (auto& p : static_cast<CutsceneManager const*>(o)->pool_items) out.emplace_back("item", p); break;
	case ObjectType::oCAIVobMove: {
		auto* m = static_cast<AiMove const*>(o);
		out.emplace_back("vob", m->vob.lock());
		out.emplace_back("owner", m->owner.lock());
		break;
	}
	case ObjectType::zCVob:
	case ObjectType::oCItem:
	case ObjectType::zCVobSpot: out.emplace_back("ai", static_cast<VirtualObject const*>(o)->ai); break;
	default: break;
	}
}

// canonical text of an object graph: objects are numbered when first met, so sharing and nulls are visible
static std::string canon(std::vector<std::shared_ptr<Object>> const& roots) {
	std::map<Object const*, int> ids;
	std::string out;
	std::function<void(std::shared_ptr<Object> const&)> go = [&](std::shared_ptr<Object> const& o) {
		if (!o) { out += "null "; return; }
		auto it = ids.find(o.get());
		if (it != ids.end()) { out += "#" + std::to_string(it->second) + " "; return; }
		int id = static_cast<int>(ids.size());
		ids[o.get()] = id;
		out += "(" + std::to_string(id) + ":" + tag(o.get()) + " ";
		std::vector<std::pair<std::string, std::shared_ptr<Object>>> es;
		edges(o.get(), es);
		for (auto& [n, e] : es) { out += n + "="; go(e); }
		out += ") ";
	};
	for (auto& o : roots) { go(o); out += "| "; }
	return out;
}

static void share_case(Rng& r) {
	auto f = FORMATS[r.below(3)];
	auto ver = r.flip() ? GameVersion::GOTHIC_1 : GameVersion::GOTHIC_2;
	std::vector<std::shared_ptr<Object>> pool;
	u32 n = 2 + r.below(14);
	if (r.chance(1) && r.chance(10)) n = 300 + r.below(500), count("large graphs");
	auto name = [&](u32 k) { return "o" + std::to_string(k); };
	std::vector<std::shared_ptr<ConversationMessageEvent>> msgs;
	std::vector<std::shared_ptr<CutsceneAtomicBlock>> atoms;
	std::vector<std::shared_ptr<CutsceneBlock>> blocks;
	std::vector<std::shared_ptr<CutscenePoolItem>> items;
	std::vector<std::shared_ptr<VirtualObject>> vobs;
	for (u32 k = 0; k < n; ++k) {
		switch (r.below(9)) {
		case 0: { auto o = std::make_shared<ConversationMessageEvent>(); o->text = name(k); msgs.push_back(o); pool.push_back(o); break; }
		case 1: { auto o = std::make_shared<CutsceneAtomicBlock>(); o->message = msgs.empty() || r.chance(20) ? nullptr : r.pick(msgs); atoms.push_back(o); pool.push_back(o); break; }
		case 2: {
			auto o = std::make_shared<CutsceneBlock>();
			o->name = name(k);
			if (!blocks.empty() && r.chance(40)) o->block = r.pick(blocks);
			else if (!atoms.empty()) o->block = r.pick(atoms);
			blocks.push_back(o);
			pool.push_back(o);
			break;
		}
		case 3: { auto o = std::make_shared<CutscenePoolItem>(); o->name = name(k); o->run_behavior = {}; o->run_behavior_value = o->times_played = o->deactivated = o->flags = 0; items.push_back(o); pool.push_back(o); break; }
		case 4: { auto o = std::make_shared<CutsceneManager>(); for (u32 j = r.below(4); j > 0; --j) if (!items.empty()) o->pool_items.push_back(r.pick(items)); pool.push_back(o); break; }
		case 5: { auto o = std::make_shared<VItem>(); o->instance = name(k); o->s_amount = o->s_flags = 0; o->type = VirtualObjectType::oCItem; vobs.push_back(o); pool.push_back(o); break; }
		case 6: { auto o = std::make_shared<VirtualObject>(); o->vob_name = name(k); o->type = VirtualObjectType::zCVob; vobs.push_back(o); pool.push_back(o); break; }
		case 7: { auto o = std::make_shared<VNpc::Talent>(); o->talent = static_cast<int>(k); o->value = o->skill = 0; pool.push_back(o); break; }
		default: {
			auto o = std::make_shared<AiMove>();
			if (!vobs.empty() && r.chance(80)) {
				auto v = r.pick(vobs);
				o->vob = v;
				if (r.chance(50) && !v->ai) v->ai = o; // a cycle: the object and its AI refer to each other
			}
			pool.push_back(o);
			break;
		}
		}
	}
	// the sequence that is written: repeats, nulls, objects of unknown classes in between
	std::vector<int> seq; // -1 null, -2 unknown class, else pool index
	u32 len = n > 100 ? 300 + r.below(600) : 1 + r.below(20);
	for (u32 k = 0; k < len; ++k) seq.push_back(r.chance(12) ? -1 : r.chance(15) ? -2 : static_cast<int>(r.below(n)));
	Bytes data;
	std::vector<std::shared_ptr<Object>> want, got;
	{
		label("share write");
		auto w = Write::to(&data);
		auto ar = WriteArchive::to(w.get(), f);
		for (int s : seq) {
			if (s == -2) {
				ar->write_object_begin("%", r.chance(20) ? "%" : "zCTotallyUnknown:zCVob", 7);
				for (u32 k = r.below(4); k > 0; --k) put(*ar, gen_val(r, f), r);
				if (r.flip()) { ar->write_object_begin("inner", "zCVob", 1); put(*ar, gen_val(r, f), r); ar->write_object_end(); }
				if (r.flip()) ar->write_object("x", std::shared_ptr<Object> {}, ver);
				ar->write_object_end();
				count("unknown objects");
			} else if (s == -1) {
				ar->write_object(std::shared_ptr<Object> {}, ver);
				count("null objects");
			} else {
				if (r.flip()) ar->write_object(pool[static_cast<size_t>(s)], ver); else ar->write_object("named", pool[static_cast<size_t>(s)], ver);
			}
			want.push_back(s < 0 ? nullptr : pool[static_cast<size_t>(s)]);
		}
		ar->write_header();
	}
	auto in = mem(data);
	label("share read");
	auto ar = ReadArchive::from(in.get());
	for (size_t k = 0; k < seq.size(); ++k) got.push_back(ar->read_object(ver));
	auto a = canon(want), b = canon(got);
	VP_CHECK(a == b, std::string("C07:") + FN[static_cast<int>(f)] + ":graph", "object graph differs\nwritten: %s\nread:    %s", a.c_str(), b.c_str());
	count("object graphs compared");
	if (a.find('#') != std::string::npos) count("graphs with sharing");
	state(fnv(a));
	if (r.chance(1)) sample(std::string(FN[static_cast<int>(f)]) + ": " + a.substr(0, 300));
	for (auto& v : vobs) v->ai = nullptr; // break cycles
	for (auto& o : got) if (o && is_vobject(o->get_object_type())) static_cast<VirtualObject*>(o.get())->ai = nullptr;
}

// ------------------------------------------------------------------------------------------------ types
static int disk_class(int kind, ArchiveFormat f) {
	switch (kind) {
	case Val::BYTE: return f == ArchiveFormat::ASCII ? Val::INT : Val::BYTE;
	case Val::WORD: return f == ArchiveFormat::ASCII ? Val::INT : Val::WORD;
	case Val::VEC2:
	case Val::BBOX:
	case Val::RAWFLOAT: return Val::RAWFLOAT;
	case Val::MAT3:
	case Val::RAW: return Val::RAW;
	default: return kind;
	}
}

static void read_as(ReadArchive& in, int kind) {
	switch (kind) {
	case Val::STRING: (void) in.read_string(); break;
	case Val::INT: (void) in.read_int(); break;
	case Val::FLOAT: (void) in.read_float(); break;
	case Val::BYTE: (void) in.read_byte(); break;
	case Val::WORD: (void) in.read_word(); break;
	case Val::ENUM: (void) in.read_enum(); break;
	case Val::BOOL: (void) in.read_bool(); break;
	case Val::COLOR: (void) in.read_color(); break;
	case Val::VEC3: (void) in.read_vec3(); break;
	case Val::VEC2: (void) in.read_vec2(); break;
	case Val::BBOX: (void) in.read_bbox(); break;
	case Val::MAT3: (void) in.read_mat3x3(); break;
	case Val::RAW: (void) in.read_raw(4); break;
	default: break;
	}
}

static void type_case(Rng& r) {
	auto f = r.flip() ? ArchiveFormat::ASCII : ArchiveFormat::BINSAFE;
	int want = static_cast<int>(r.below(Val::RAWFLOAT));
	bool reference = r.flip();
	int have; // Val kind, or -1 object begin, -2 object end
	have = r.chance(12) ? -1 - static_cast<int>(r.below(2)) : static_cast<int>(r.below(Val::KINDS));
	Bytes data;
	Val v;
	if (have >= 0) v = gen_val(r, f, have);
	std::string key = std::string("C08:") + FN[static_cast<int>(f)] + ":" + (have >= 0 ? kind_name(have) : have == -1 ? "begin" : "end") + "-as-" + kind_name(want);
	if (reference) {
		RefArchive ar(f, false);
		ar.begin("%", "zCVob", 1);
		if (have >= 0) ar.value(v);
		else if (have == -1) { ar.begin("child", "zCVob", 2); ar.end(); }
		ar.end();
		data = ar.finish();
	} else {
		auto w = Write::to(&data);
		auto ar = WriteArchive::to(w.get(), f);
		ar->write_object_begin("%", "zCVob", 1);
		if (have >= 0) put(*ar, v, r);
		else if (have == -1) { ar->write_object_begin("child", "zCVob", 2); ar->write_object_end(); }
		ar->write_object_end();
		ar->write_header();
	}
	auto in = mem(data);
	auto ar = ReadArchive::from(in.get());
	ArchiveObject o;
	VP_CHECK(ar->read_object_begin(o), key, "object not found");
	label(key);
	bool threw = false;
	try {
		read_as(*ar, want);
	} catch (ParserError const&) {
		threw = true;
	}
	bool same = have >= 0 && disk_class(have, f) == disk_class(want, f);
	if (!same) {
		VP_CHECK(threw, key, "a value of type %s was read as %s without an error", have >= 0 ? kind_name(have) : "object boundary", kind_name(want));
		count("mismatches refused");
	} else {
		// the same stored type: refused exactly if there is not enough of it
		size_t avail = have == Val::RAW ? v.raw.size() : have == Val::MAT3 ? 36 : have == Val::RAWFLOAT ? v.fs.size() * 4 : have == Val::VEC2 ? 8 : have == Val::BBOX ? 24 : 0;
		size_t need = want == Val::RAW ? 4 : want == Val::MAT3 ? 36 : want == Val::VEC2 ? 8 : want == Val::BBOX ? 24 : 0;
		// text: -1 does not fit the unsigned kinds in any defined way
		bool open = f == ArchiveFormat::ASCII && have == Val::INT && (want == Val::BYTE || want == Val::WORD);
		if (!open) VP_CHECK(threw == (avail < need), key, "%s although %zu of %zu bytes are stored", threw ? "refused" : "accepted", avail, need);
		count("compatible reads");
	}
	state(fnv(key));
}

static void header_case(Rng& r) {
	// a valid header, then one line damaged
	std::vector<std::string> lines = {"ZenGin Archive", "ver 1", "zCArchiverGeneric", r.pick<char const*>({"ASCII", "BINARY"}), "saveGame 0", "date 1.1.2001 0:0:0", "user x", "END", "objects 1        ", "END", ""};
	bool date = r.chance(80), user = r.chance(80);
	int damage = static_cast<int>(r.below(9));
	std::string key = "C08:header:";
	bool valid = false;
	switch (damage) {
	case 0: lines[0] = r.pick<char const*>({"", "ZenGin archive", "ZenGin Archiv", "zCArchive", " ZenGin Archive"}); key += "magic"; break;
	case 1: lines[1] = r.pick<char const*>({"ver 0", "ver 2", "ver", "ver x", "version 1", "", "ver 99999999999999999999", "ver -1", "1"}); key += "version"; break;
	case 2: lines[3] = r.pick<char const*>({"ascii", "BIN", "BINSAFE", "", "TEXT", "ASCII2", "BIN_SAFE2", "UNKNOWN"}); key += "format"; break;
	case 3: lines[4] = r.pick<char const*>({"saveGame", "savegame 1", "saveGame x", "", "saveGame 99999999999999999999"}); key += "save"; break;
	case 4: lines[7] = r.pick<char const*>({"END2", "", "end", "objects 1"}); key += "end"; break;
	case 5: lines[8] = r.pick<char const*>({"objects", "object 1", "objects x", "", "objects 99999999999999999999"}); key += "objects"; break;
	case 6: lines[9] = r.pick<char const*>({"", "EN", "[% zCVob 0 0]"}); key += "second-end"; break;
	default: valid = true; key += "valid"; break;
	}
	std::string s;
	for (size_t k = 0; k < lines.size(); ++k) {
		if ((k == 5 && !date) || (k == 6 && !user)) continue;
		s += lines[k] + "\n";
	}
	if (damage == 7) { s = to_str(r.bytes(r.below(200))); if (r.flip()) s = "ZenGin Archive\n" + s; key = "C08:header:random"; valid = false; }
	auto b = to_bytes(s);
	auto in = mem(b);
	label(key);
	bool threw = false;
	try {
		auto ar = ReadArchive::from(in.get());
		if (valid) {
			VP_CHECK(ar->get_header().version == 1 && ar->get_header().archiver == "zCArchiverGeneric" && ar->get_header().date == (date ? "1.1.2001 0:0:0" : "") && ar->get_header().user == (user ? "x" : ""),
			         key, "header fields");
		}
	} catch (zenkit::Error const&) { // every library error is one of these
		threw = true;
	}
	VP_CHECK(threw == !valid, key, "%s: %s", threw ? "refused" : "accepted", esc(s, 200).c_str());
	count(valid ? "headers accepted" : "headers refused");
	state(fnv(key + lines[static_cast<size_t>(std::min(damage, 7))]));
}

void vp_case(Rng& r, u64) {
	if (run.prop == "C06") tree_case(r, true);
	else if (run.prop == "C07") { if (r.chance(45)) share_case(r); else tree_case(r, false); }
	else { switch (r.below(5)) { case 0: tree_case(r, false); break; case 1: header_case(r); break; default: type_case(r); } }
}
