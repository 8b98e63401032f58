From 0e8069ed9f7aa624c32c77e519aba6ed708d1086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:11 +0000
Subject: [PATCH 001/116] fix: avoid overflow and null copies in memory streams

Seeking with a large offset overflowed a signed integer, and empty streams
or empty writes handed null pointers to memcpy.
---
 src/Stream.cc | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/Stream.cc b/src/Stream.cc
index efedbc2..7060205 100644
--- a/src/Stream.cc
+++ b/src/Stream.cc
@@ -193,21 +193,21 @@ namespace zenkit {
 		};
 
 		ZKINT inline size_t seek_internal(size_t pos, size_t end, ssize_t off, Whence whence) {
-			auto new_position = static_cast<ssize_t>(pos);
+			// Unsigned arithmetic: a target before the beginning wraps around and is out of range for every stream.
+			auto new_position = static_cast<size_t>(off);
 
 			switch (whence) {
 			case Whence::BEG:
-				new_position = off;
 				break;
 			case Whence::CUR:
-				new_position = new_position + off;
+				new_position += pos;
 				break;
 			case Whence::END:
-				new_position = static_cast<ssize_t>(end) + off;
+				new_position += end;
 				break;
 			}
 
-			return static_cast<size_t>(new_position);
+			return new_position;
 		}
 
 		class ReadFile final ZKINT : public Read {
@@ -264,7 +264,9 @@ namespace zenkit {
 			ReadMemory(std::byte const* byte, size_t len) : _m_bytes(byte), _m_length(len) {}
 
 			size_t read(void* buf, size_t len) noexcept override {
-				len = _m_position + len > _m_length ? _m_length - _m_position : len;
+				len = len > _m_length - _m_position ? _m_length - _m_position : len;
+				if (len == 0) return 0;
+
 				memcpy(buf, _m_bytes + _m_position, len);
 				_m_position += len;
 				return len;
@@ -371,7 +373,9 @@ namespace zenkit {
 			explicit WriteStatic(std::byte* buf, size_t len) : _m_bytes(buf), _m_length(len) {}
 
 			size_t write(void const* buf, size_t len) noexcept override {
-				len = _m_position + len > _m_length ? _m_length - _m_position : len;
+				len = len > _m_length - _m_position ? _m_length - _m_position : len;
+				if (len == 0) return 0;
+
 				memcpy(_m_bytes + _m_position, buf, len);
 				_m_position += len;
 				return len;
-- 
2.43.0


From 01f59dec3e58196804092aeced42c923ac15f79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:11 +0000
Subject: [PATCH 002/116] fix: make file and C++ stream readers behave like the
 memory reader

The end of the input was only reported after a failed read, a C++ stream
was unusable after reaching its end and both could be moved outside of
the content.
---
 src/Stream.cc | 37 ++++++++++++++++++++++++++++++++-----
 1 file changed, 32 insertions(+), 5 deletions(-)

diff --git a/src/Stream.cc b/src/Stream.cc
index 7060205..99a5f6f 100644
--- a/src/Stream.cc
+++ b/src/Stream.cc
@@ -219,7 +219,14 @@ namespace zenkit {
 			}
 
 			void seek(ssize_t off, Whence whence) noexcept override {
-				fseek(_m_stream, off, INTO_C_WHENCE[static_cast<int>(whence)]);
+				auto position = ftell(_m_stream);
+				fseek(_m_stream, 0, SEEK_END);
+				auto length = ftell(_m_stream);
+
+				auto target = seek_internal(static_cast<size_t>(position), static_cast<size_t>(length), off, whence);
+				if (target > static_cast<size_t>(length)) target = static_cast<size_t>(position);
+
+				fseek(_m_stream, static_cast<long>(target), SEEK_SET);
 			}
 
 			[[nodiscard]] size_t tell() const noexcept override {
@@ -227,7 +234,11 @@ namespace zenkit {
 			}
 
 			[[nodiscard]] bool eof() const noexcept override {
-				return feof(_m_stream);
+				auto c = fgetc(_m_stream);
+				if (c == EOF) return true;
+
+				ungetc(c, _m_stream);
+				return false;
 			}
 
 		private:
@@ -240,11 +251,20 @@ namespace zenkit {
 
 			size_t read(void* buf, size_t len) noexcept override {
 				_m_stream->read(static_cast<char*>(buf), static_cast<long>(len));
-				return static_cast<size_t>(_m_stream->gcount());
+				auto count = static_cast<size_t>(_m_stream->gcount());
+				this->clear_eof();
+				return count;
 			}
 
 			void seek(ssize_t off, Whence whence) noexcept override {
-				_m_stream->seekg(off, INTO_CXX_WHENCE[static_cast<int>(whence)]);
+				auto position = this->tell();
+				_m_stream->seekg(0, std::ios::end);
+				auto length = this->tell();
+
+				auto target = seek_internal(position, length, off, whence);
+				if (target > length) target = position;
+
+				_m_stream->seekg(static_cast<std::streamoff>(target), std::ios::beg);
 			}
 
 			[[nodiscard]] size_t tell() const noexcept override {
@@ -252,10 +272,17 @@ namespace zenkit {
 			}
 
 			[[nodiscard]] bool eof() const noexcept override {
-				return _m_stream->eof();
+				auto end = _m_stream->peek() == std::istream::traits_type::eof();
+				this->clear_eof();
+				return end;
 			}
 
 		private:
+			// Hitting the end of the input must not make following seeks and reads fail.
+			void clear_eof() const noexcept {
+				if (_m_stream->eof()) _m_stream->clear(_m_stream->rdstate() & std::ios::badbit);
+			}
+
 			std::istream* _m_stream;
 		};
 
-- 
2.43.0


From eaae7e58412daddcb165767cf989bf9cbd453f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:11 +0000
Subject: [PATCH 003/116] fix: refuse seeking write streams before their
 beginning

The growing vector writer moved to a huge position and wrote out of bounds;
the C++ stream writer silently dropped everything written afterwards.
---
 src/Stream.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/Stream.cc b/src/Stream.cc
index 99a5f6f..9452d1a 100644
--- a/src/Stream.cc
+++ b/src/Stream.cc
@@ -383,7 +383,11 @@ namespace zenkit {
 			}
 
 			void seek(ssize_t off, Whence whence) noexcept override {
+				auto fine = !_m_stream->fail();
 				_m_stream->seekp(off, INTO_CXX_WHENCE[static_cast<int>(whence)]);
+
+				// A refused seek leaves the position unchanged and must not make all following writes fail.
+				if (fine && _m_stream->fail() && !_m_stream->bad()) _m_stream->clear();
 			}
 
 			[[nodiscard]] size_t tell() const noexcept override {
@@ -430,6 +434,7 @@ namespace zenkit {
 
 			size_t write(void const* buf, size_t len) noexcept override {
 				auto const* cbuf = static_cast<std::byte const*>(buf);
+				if (len == 0) return 0;
 
 				if (_m_position + len > _m_vector->capacity()) {
 					this->_m_vector->reserve(
@@ -446,7 +451,10 @@ namespace zenkit {
 			}
 
 			void seek(ssize_t off, Whence whence) noexcept override {
-				_m_position = seek_internal(_m_position, _m_vector->size(), off, whence);
+				auto new_position = seek_internal(_m_position, _m_vector->size(), off, whence);
+
+				if (static_cast<ssize_t>(new_position) < 0) return;
+				_m_position = new_position;
 			}
 
 			[[nodiscard]] size_t tell() const noexcept override {
-- 
2.43.0


From cb2a20a7ee478982ee91063331cb7809211d7988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:11 +0000
Subject: [PATCH 004/116] fix: keep a final NUL byte when skipping after a line

Skipping whitespace consumed a NUL byte if it was the last byte of the
input, but not anywhere else.
---
 src/Stream.cc | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/Stream.cc b/src/Stream.cc
index 9452d1a..9f95213 100644
--- a/src/Stream.cc
+++ b/src/Stream.cc
@@ -104,12 +104,10 @@ namespace zenkit {
 		if (chars.empty() || c == '\0' || this->eof()) return str;
 
 		do {
-			c = this->read_char();
+			// If we're at EOF, there is nothing to backtrack.
+			if (this->read(&c, 1) != 1) return str;
 		} while (c != '\0' && chars.find(c) != std::string_view::npos);
 
-		// If we're at EOF and read a null-byte, don't backtrack.
-		if (this->eof() && c == '\0') return str;
-
 		// Backtrack by one byte since we have definitely consumed one too many.
 		this->seek(-1, Whence::CUR);
 		return str;
-- 
2.43.0


From f2a6c3dcd439f720f52e5b12616f00d03ccace33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:11 +0000
Subject: [PATCH 005/116] fix: handle failing memory maps and empty files

mmap() reports errors with MAP_FAILED, not with a null pointer, and refuses
empty files.
---
 src/MmapPosix.cc | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/MmapPosix.cc b/src/MmapPosix.cc
index f6d289c..83cc4fb 100644
--- a/src/MmapPosix.cc
+++ b/src/MmapPosix.cc
@@ -17,12 +17,22 @@ namespace zenkit {
 
 		struct stat st {};
 		if (fstat(handle, &st) != 0) {
+			close(handle);
 			throw std::runtime_error {"Failed to stat " + path.string()};
 		}
 
+		if (st.st_size == 0) {
+			// Empty files can not be mapped.
+			close(handle);
+			_m_data = nullptr;
+			_m_size = 0;
+			return;
+		}
+
 		_m_data =
 		    static_cast<std::byte*>(mmap(nullptr, static_cast<size_t>(st.st_size), PROT_READ, MAP_SHARED, handle, 0));
-		if (_m_data == nullptr) {
+		if (_m_data == MAP_FAILED) {
+			close(handle);
 			throw std::runtime_error {"Failed to mmap " + path.string()};
 		}
 
-- 
2.43.0


From d031d2c97e0df397fd8498180eec458b203ea654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:47 +0000
Subject: [PATCH 006/116] fix: don't terminate when a VFS path leads through a
 file

---
 src/Vfs.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Vfs.cc b/src/Vfs.cc
index 690a702..62ab280 100644
--- a/src/Vfs.cc
+++ b/src/Vfs.cc
@@ -183,6 +183,9 @@ namespace zenkit {
 				continue;
 			}
 
+			// Files don't have children.
+			if (context->type() == VfsNodeType::FILE) return nullptr;
+
 			auto name = path.substr(0, next);
 			context = context->child(name);
 
@@ -533,7 +536,7 @@ namespace zenkit {
 		auto childName = path.substr(lastSlash + 1);
 
 		VfsNode* pNode = this->resolve(parentPath);
-		if (pNode == nullptr) return false;
+		if (pNode == nullptr || pNode->type() == VfsNodeType::FILE) return false;
 		return pNode->remove(childName);
 	}
 
-- 
2.43.0


From 4941844f9c7dc8586fb18ac62a2f4671636742cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:47 +0000
Subject: [PATCH 007/116] fix: make VFS nodes with trailing whitespace in their
 name reachable

Lookups ignore trailing whitespace, the stored names did not.
---
 src/Vfs.cc | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/Vfs.cc b/src/Vfs.cc
index 62ab280..e0ef66f 100644
--- a/src/Vfs.cc
+++ b/src/Vfs.cc
@@ -69,23 +69,25 @@ namespace zenkit {
 		return icompare(a, b.name());
 	}
 
-	VfsNode::VfsNode(std::string_view name, time_t ts) : _m_name(name), _m_time(ts), _m_data(ChildContainer {}) {}
-
-	VfsNode::VfsNode(std::string_view name, VfsFileDescriptor dev, time_t ts)
-	    : _m_name(name), _m_time(ts), _m_data(dev) {}
-
-	VfsNode::ChildContainer const& VfsNode::children() const {
-		return std::get<ChildContainer>(_m_data);
-	}
-
 	std::string_view trim_trailing_whitespace(std::string_view s) {
-		while (!s.empty() && std::isspace(s.back())) {
+		while (!s.empty() && std::isspace(static_cast<unsigned char>(s.back()))) {
 			s = s.substr(0, s.size() - 1);
 		}
 
 		return s;
 	}
 
+	// Trailing whitespace is ignored when looking up names, so it can't be a part of them.
+	VfsNode::VfsNode(std::string_view name, time_t ts)
+	    : _m_name(trim_trailing_whitespace(name)), _m_time(ts), _m_data(ChildContainer {}) {}
+
+	VfsNode::VfsNode(std::string_view name, VfsFileDescriptor dev, time_t ts)
+	    : _m_name(trim_trailing_whitespace(name)), _m_time(ts), _m_data(dev) {}
+
+	VfsNode::ChildContainer const& VfsNode::children() const {
+		return std::get<ChildContainer>(_m_data);
+	}
+
 	VfsNode const* VfsNode::child(std::string_view name) const {
 		auto& children = std::get<ChildContainer>(_m_data);
 
-- 
2.43.0


From c571a0f99dd80ed016512878267558e23facdb79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:47 +0000
Subject: [PATCH 008/116] fix: count references when assigning VFS file
 descriptors

The implicit assignment operator led to a double free.
---
 include/zenkit/Vfs.hh |  1 +
 src/Vfs.cc            | 10 ++++++++++
 2 files changed, 11 insertions(+)

diff --git a/include/zenkit/Vfs.hh b/include/zenkit/Vfs.hh
index 2d326eb..8e5d133 100644
--- a/include/zenkit/Vfs.hh
+++ b/include/zenkit/Vfs.hh
@@ -44,6 +44,7 @@ namespace zenkit {
 
 		VfsFileDescriptor(std::byte const* mem, size_t len, bool del, bool zipped = false, size_t raw_size = 0);
 		VfsFileDescriptor(VfsFileDescriptor const& cpy);
+		VfsFileDescriptor& operator=(VfsFileDescriptor const& cpy);
 		~VfsFileDescriptor() noexcept;
 
 	private:
diff --git a/src/Vfs.cc b/src/Vfs.cc
index e0ef66f..7e469e8 100644
--- a/src/Vfs.cc
+++ b/src/Vfs.cc
@@ -47,6 +47,16 @@ namespace zenkit {
 		*this->refcnt += 1;
 	}
 
+	VfsFileDescriptor& VfsFileDescriptor::operator=(VfsFileDescriptor const& cpy) {
+		VfsFileDescriptor tmp {cpy};
+		std::swap(memory, tmp.memory);
+		std::swap(size, tmp.size);
+		std::swap(raw_size, tmp.raw_size);
+		std::swap(zipped, tmp.zipped);
+		std::swap(refcnt, tmp.refcnt);
+		return *this;
+	}
+
 	VfsFileDescriptor::~VfsFileDescriptor() noexcept {
 		if (this->refcnt == nullptr) return;
 		*this->refcnt -= 1;
-- 
2.43.0


From 5f08233d8f3cce9db747e1b83f1411b86c36c356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:47 +0000
Subject: [PATCH 009/116] fix: use UNIX time for files mounted from the host

The epoch of the file system clock differs from the one used for all other VFS
nodes, thus timestamps could not be compared when mounting.
---
 src/Vfs.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/Vfs.cc b/src/Vfs.cc
index 7e469e8..2adcdd6 100644
--- a/src/Vfs.cc
+++ b/src/Vfs.cc
@@ -557,12 +557,17 @@ namespace zenkit {
 	                     VfsOverwriteBehavior overwrite) {
 		auto root = VfsNode::directory(sourcePath.filename().string());
 
+		// The epoch of the file clock is unspecified.
+		auto epoch = std::chrono::round<std::chrono::seconds>(
+		    std::chrono::system_clock::now().time_since_epoch() -
+		    std::filesystem::file_time_type::clock::now().time_since_epoch());
+
 		std::function<void(VfsNode*, std::filesystem::path const&)> load_directory =
-		    [this, &load_directory](VfsNode* parent, std::filesystem::path const& host) {
+		    [this, &load_directory, epoch](VfsNode* parent, std::filesystem::path const& host) {
 			    for (auto const& ref : std::filesystem::directory_iterator(host)) {
 				    auto const& path = ref.path();
 				    auto time =
-				        std::chrono::duration_cast<std::chrono::seconds>(ref.last_write_time().time_since_epoch());
+				        std::chrono::floor<std::chrono::seconds>(ref.last_write_time().time_since_epoch()) + epoch;
 
 				    if (ref.is_directory()) {
 					    VfsNode* newP = parent->create(VfsNode::directory(path.filename().string(), time.count()));
-- 
2.43.0


From 447d3e855867b239d8fd2b66bc27cc173fbaa39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:47 +0000
Subject: [PATCH 010/116] fix: mount empty files from the host

---
 src/Vfs.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Vfs.cc b/src/Vfs.cc
index 2adcdd6..a57e64c 100644
--- a/src/Vfs.cc
+++ b/src/Vfs.cc
@@ -572,7 +572,7 @@ namespace zenkit {
 				    if (ref.is_directory()) {
 					    VfsNode* newP = parent->create(VfsNode::directory(path.filename().string(), time.count()));
 					    load_directory(newP, path);
-				    } else if (ref.file_size() > 0) {
+				    } else {
 #ifdef _ZK_WITH_MMAP
 					    auto& mem = this->_m_data_mapped.emplace_back(path);
 					    parent->create(VfsNode::file(path.filename().string(),
-- 
2.43.0


From bea00385d687d237c91173735d82d5967da6fbae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:31 +0000
Subject: [PATCH 011/116] fix: allow mounting single files from the host

This is documented to work but failed with an exception.
---
 src/Vfs.cc | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/Vfs.cc b/src/Vfs.cc
index a57e64c..1d69df0 100644
--- a/src/Vfs.cc
+++ b/src/Vfs.cc
@@ -562,9 +562,9 @@ namespace zenkit {
 		    std::chrono::system_clock::now().time_since_epoch() -
 		    std::filesystem::file_time_type::clock::now().time_since_epoch());
 
-		std::function<void(VfsNode*, std::filesystem::path const&)> load_directory =
-		    [this, &load_directory, epoch](VfsNode* parent, std::filesystem::path const& host) {
-			    for (auto const& ref : std::filesystem::directory_iterator(host)) {
+		std::function<void(VfsNode*, std::filesystem::path const&)> load_directory;
+		auto load_entry =
+		    [this, &load_directory, epoch](VfsNode* parent, std::filesystem::directory_entry const& ref) {
 				    auto const& path = ref.path();
 				    auto time =
 				        std::chrono::floor<std::chrono::seconds>(ref.last_write_time().time_since_epoch()) + epoch;
@@ -591,10 +591,19 @@ namespace zenkit {
 					                                 time.count()));
 #endif
 				    }
-			    }
 		    };
 
-		load_directory(&root, sourcePath);
+		load_directory = [&load_entry](VfsNode* parent, std::filesystem::path const& host) {
+			for (auto const& ref : std::filesystem::directory_iterator(host)) {
+				load_entry(parent, ref);
+			}
+		};
+
+		if (std::filesystem::is_directory(sourcePath)) {
+			load_directory(&root, sourcePath);
+		} else {
+			load_entry(&root, std::filesystem::directory_entry {sourcePath});
+		}
 
 		for (auto& child : root.children()) {
 			this->mount(child, mountPoint, overwrite);
-- 
2.43.0


From a3f5bc08a26933335a70361983c95946e71cc0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:31 +0000
Subject: [PATCH 012/116] fix: make VFS disk timestamps independent of the time
 zone

They were written in UTC but read as local time.
---
 src/Vfs.cc | 36 +++++++++++++++++++++---------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/src/Vfs.cc b/src/Vfs.cc
index 1d69df0..0c959a7 100644
--- a/src/Vfs.cc
+++ b/src/Vfs.cc
@@ -250,15 +250,21 @@ namespace zenkit {
 	}
 
 	static std::uint32_t vfs_unix_to_dos_time(std::time_t unix_) noexcept {
-		tm t = *gmtime(&unix_);
+		auto time = std::chrono::sys_seconds {std::chrono::seconds {unix_}};
+		auto day = std::chrono::floor<std::chrono::days>(time);
+		auto date = std::chrono::year_month_day {day};
+		auto clock = std::chrono::hh_mm_ss {time - day};
+
+		// Years which can't be represented are moved to the first or last one which can.
+		auto year = std::clamp(static_cast<int>(date.year()) - 1980, 0, 127);
 
 		uint32_t dos = 0;
-		dos |= (t.tm_year - 80) << 25;
-		dos |= (t.tm_mon + 1) << 21;
-		dos |= (t.tm_mday) << 16;
-		dos |= (t.tm_hour) << 11;
-		dos |= (t.tm_min) << 5;
-		dos |= (t.tm_sec / 2);
+		dos |= static_cast<uint32_t>(year) << 25;
+		dos |= static_cast<unsigned>(date.month()) << 21;
+		dos |= static_cast<unsigned>(date.day()) << 16;
+		dos |= static_cast<uint32_t>(clock.hours().count()) << 11;
+		dos |= static_cast<uint32_t>(clock.minutes().count()) << 5;
+		dos |= static_cast<uint32_t>(clock.seconds().count() / 2);
 
 		return dos;
 	}
@@ -434,16 +440,16 @@ namespace zenkit {
 	}
 
 	static std::time_t vfs_dos_to_unix_time(std::uint32_t dos) noexcept {
-		tm t {};
+		auto year = std::chrono::year {static_cast<int32_t>((dos >> 25) & 0x7F) + 1980};
+		auto month = std::chrono::months {static_cast<int32_t>((dos >> 21) & 0xF) - 1};
+		auto day = std::chrono::days {static_cast<int32_t>((dos >> 16) & 0x1F) - 1};
 
-		t.tm_year = static_cast<int32_t>((dos >> 25) & 0x7F) + 80;
-		t.tm_mon = static_cast<int32_t>((dos >> 21) & 0xF) - 1;
-		t.tm_mday = static_cast<int32_t>((dos >> 16) & 0x1F);
-		t.tm_hour = static_cast<int32_t>((dos >> 11) & 0x1F);
-		t.tm_min = static_cast<int32_t>((dos >> 5) & 0x3F);
-		t.tm_sec = static_cast<int32_t>((dos >> 0) & 0x1F) * 2;
+		auto time = std::chrono::sys_seconds {std::chrono::sys_days {year / std::chrono::January / 1 + month} + day};
+		time += std::chrono::hours {(dos >> 11) & 0x1F};
+		time += std::chrono::minutes {(dos >> 5) & 0x3F};
+		time += std::chrono::seconds {(dos & 0x1F) * 2};
 
-		return mktime(&t);
+		return static_cast<std::time_t>(time.time_since_epoch().count());
 	}
 
 	void Vfs::mount_disk(Read* buf, VfsOverwriteBehavior overwrite) {
-- 
2.43.0


From 194137325003fb35b43af3ab51730e8e4f06df20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:31 +0000
Subject: [PATCH 013/116] fix: don't store empty directories in VFS disks

The format can't represent them. Their catalog entry pointed to the entries of
another directory or behind the catalog.
---
 src/Vfs.cc | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/Vfs.cc b/src/Vfs.cc
index 0c959a7..116acd4 100644
--- a/src/Vfs.cc
+++ b/src/Vfs.cc
@@ -237,12 +237,18 @@ namespace zenkit {
 		return const_cast<VfsNode*>(const_cast<Vfs const*>(this)->find(name));
 	}
 
+	// Directories without any file in them can't be stored in a disk.
+	static bool is_storable(VfsNode const& node) {
+		if (node.type() == VfsNodeType::FILE) return true;
+		return std::any_of(node.children().begin(), node.children().end(), is_storable);
+	}
+
 	static uint32_t count_nodes(VfsNode const* node) {
 		uint32_t count = 1; /* self */
 
 		if (node->type() == VfsNodeType::DIRECTORY) {
 			for (auto& child : node->children()) {
-				count += count_nodes(&child);
+				if (is_storable(child)) count += count_nodes(&child);
 			}
 		}
 
@@ -346,8 +352,11 @@ namespace zenkit {
 		std::function<void(VfsNode const*)> write_node = [&](VfsNode const* node) {
 			unsigned i = 0;
 			std::vector<std::pair<uint32_t, VfsNode const*>> dirs;
+			auto count = std::count_if(node->children().begin(), node->children().end(), is_storable);
 
 			for (auto& child : node->children()) {
+				if (!is_storable(child)) continue;
+
 				name = child.name();
 				name.resize(64, '\x20');
 
@@ -364,7 +373,7 @@ namespace zenkit {
 
 					write_catalog->write_uint(w->tell()); // Offset
 					write_catalog->write_uint(sz);        // Size (always uncompressed)
-					write_catalog->write_uint(i + 1 == node->children().size() ? 0x40000000 : 0); // Type
+					write_catalog->write_uint(i + 1 == count ? 0x40000000 : 0); // Type
 
 #ifdef _ZK_WITH_ZIPPED_VDF
 					if (compressed && !vfs_is_wave_file(child.name())) {
@@ -381,7 +390,7 @@ namespace zenkit {
 					dirs.emplace_back(write_catalog->tell(), &child);
 					write_catalog->write_uint(0);                                                          // Offset
 					write_catalog->write_uint(0);                                                          // Size
-					write_catalog->write_uint(i + 1 == node->children().size() ? 0xC0000000 : 0x80000000); // Type
+					write_catalog->write_uint(i + 1 == count ? 0xC0000000 : 0x80000000); // Type
 				}
 
 				write_catalog->write_uint(0); // Attributes
-- 
2.43.0


From 9805055085cd0e570e9069b63f734ea76f4e68e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:31 +0000
Subject: [PATCH 014/116] fix: allow saving VFS disks to streams which can't
 seek beyond their end

---
 src/Vfs.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Vfs.cc b/src/Vfs.cc
index 116acd4..cf3ffff 100644
--- a/src/Vfs.cc
+++ b/src/Vfs.cc
@@ -342,7 +342,8 @@ namespace zenkit {
 		// Skip the header, we'll write it at the end.
 		unsigned header_size = 256 + 16 + 6 * 4;
 		unsigned catalog_size = (count_nodes(&_m_root) - 1) * (64 + 4 * 4); // -1 because the root node is not counted
-		w->seek(header_size + catalog_size, Whence::BEG);
+		w->seek(0, Whence::BEG);
+		w->write_string(std::string(header_size + catalog_size, '\0'));
 
 		std::vector<std::byte> cache;
 		std::string name;
-- 
2.43.0


From 61ca7ac167f64c684e05e1d46ed281e729fcaefe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:31 +0000
Subject: [PATCH 015/116] fix: validate the catalog when mounting VFS disks

A truncated catalog caused an infinite loop, cycles overflowed the stack and
file extents could overflow.
---
 src/Vfs.cc | 41 ++++++++++++++++++++++++++++++++---------
 1 file changed, 32 insertions(+), 9 deletions(-)

diff --git a/src/Vfs.cc b/src/Vfs.cc
index cf3ffff..270a19b 100644
--- a/src/Vfs.cc
+++ b/src/Vfs.cc
@@ -470,8 +470,9 @@ namespace zenkit {
 		auto mem = std::make_unique<std::byte[]>(size);
 		buf->read(mem.get(), size);
 
-		this->mount_disk(mem.get(), size, overwrite);
-		_m_data.push_back(std::move(mem));
+		// Nodes created by a partial mount refer to this memory, too.
+		auto& data = _m_data.emplace_back(std::move(mem));
+		this->mount_disk(data.get(), size, overwrite);
 	}
 
 	VfsNode const& Vfs::root() const noexcept {
@@ -631,7 +632,7 @@ namespace zenkit {
 
 		auto comment = r->read_string(256);
 		auto signature = r->read_string(16);
-		[[maybe_unused]] auto entry_count = r->read_uint();
+		auto entry_count = r->read_uint();
 		[[maybe_unused]] auto file_count = r->read_uint();
 		auto timestamp = vfs_dos_to_unix_time(r->read_uint());
 		[[maybe_unused]] auto archive_size = r->read_uint();
@@ -669,8 +670,20 @@ namespace zenkit {
 			catalog_offset = r->tell();
 		}
 
-		std::function<bool(VfsNode*)> load_entry =
-		    [&load_entry, overwrite, catalog_offset, timestamp, zipped, &r, buf, size](VfsNode* parent) {
+		// No valid disk contains more entries than fit into it or nests directories this deeply. This way, cycles in
+		// the catalog are detected.
+		auto remaining_entries = size / 80;
+		constexpr auto max_depth = 256;
+
+		std::function<bool(VfsNode*, int)> load_entry =
+		    [&load_entry, overwrite, catalog_offset, timestamp, zipped, &r, buf, size, &remaining_entries](
+		        VfsNode* parent,
+		        int depth) {
+			    if (remaining_entries == 0 || depth > max_depth || size - r->tell() < 80) {
+				    throw VfsBrokenDiskError {"invalid catalog"};
+			    }
+
+			    remaining_entries -= 1;
 			    auto e_name = r->read_string(64);
 			    auto e_offset = r->read_uint();
 			    auto e_size = r->read_uint();
@@ -726,15 +739,20 @@ namespace zenkit {
 				    }
 
 				    auto self_offset = r->tell();
-				    r->seek(catalog_offset + e_offset * 80, Whence::BEG);
-				    while (!load_entry(existing))
+				    auto dir_offset = catalog_offset + static_cast<std::size_t>(e_offset) * 80;
+				    if (dir_offset > size) {
+					    throw VfsBrokenDiskError {"invalid catalog"};
+				    }
+
+				    r->seek(static_cast<ssize_t>(dir_offset), Whence::BEG);
+				    while (!load_entry(existing, depth + 1))
 					    ;
 				    r->seek(static_cast<ssize_t>(self_offset), Whence::BEG);
 			    } else {
 				    // For zipped VDFs, entry.Size is the uncompressed size; the actual
 				    // compressed data at e_offset is smaller. Only check offset validity.
 				    // For normal VDFs, the full extent must fit within the archive.
-				    if (zipped ? (e_offset >= size) : (e_offset + e_size > size)) {
+				    if (zipped ? (e_offset >= size) : (static_cast<std::size_t>(e_offset) + e_size > size)) {
 					    return last;
 				    }
 
@@ -772,8 +790,13 @@ namespace zenkit {
 			    return last;
 		    };
 
+		if (entry_count == 0) return;
+		if (catalog_offset > size) {
+			throw VfsBrokenDiskError {"invalid catalog"};
+		}
+
 		r->seek(catalog_offset, Whence::BEG);
-		while (!load_entry(&_m_root))
+		while (!load_entry(&_m_root, 0))
 			;
 	}
 } // namespace zenkit
-- 
2.43.0


From ba6fd529e97b88c85e465e23f9234f6185b84f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:10 +0000
Subject: [PATCH 016/116] fix: write bytes and words to text archives as they
 are read

The reader, like the original files, stores both as "int".
---
 src/archive/ArchiveAscii.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/archive/ArchiveAscii.cc b/src/archive/ArchiveAscii.cc
index baa3e39..ad7880c 100644
--- a/src/archive/ArchiveAscii.cc
+++ b/src/archive/ArchiveAscii.cc
@@ -313,12 +313,12 @@ namespace zenkit {
 
 	void WriteArchiveAscii::write_byte(std::string_view name, std::uint8_t v) {
 		std::array<char, std::numeric_limits<uint8_t>::digits10 + 1> buf {};
-		this->write_entry(name, "byte", intosv(buf, v));
+		this->write_entry(name, "int", intosv(buf, v));
 	}
 
 	void WriteArchiveAscii::write_word(std::string_view name, std::uint16_t v) {
 		std::array<char, std::numeric_limits<uint16_t>::digits10 + 1> buf {};
-		this->write_entry(name, "word", intosv(buf, v));
+		this->write_entry(name, "int", intosv(buf, v));
 	}
 
 	void WriteArchiveAscii::write_enum(std::string_view name, std::uint32_t v) {
-- 
2.43.0


From 7746aa6bd5651d693094cdc8907002d3c0a47bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:10 +0000
Subject: [PATCH 017/116] fix: write matrices to text archives as they are read

---
 src/archive/ArchiveAscii.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/archive/ArchiveAscii.cc b/src/archive/ArchiveAscii.cc
index ad7880c..966b79a 100644
--- a/src/archive/ArchiveAscii.cc
+++ b/src/archive/ArchiveAscii.cc
@@ -360,7 +360,7 @@ namespace zenkit {
 
 	void WriteArchiveAscii::write_mat3x3(std::string_view name, Mat3 const& v) {
 		auto vT = v.transpose();
-		this->write_raw_float(name, vT.pointer(), 9);
+		this->write_raw(name, reinterpret_cast<std::byte const*>(vT.pointer()), 9 * sizeof(float));
 	}
 
 	void WriteArchiveAscii::write_raw(std::string_view name, std::vector<std::byte> const& v) {
-- 
2.43.0


From b71902450c2cb425a1568d047a5679e2d83a0111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:10 +0000
Subject: [PATCH 018/116] fix: don't mix up raw bytes in text archives

A byte below 0x10 following a larger one was written with the second digit of its predecessor.
---
 src/archive/ArchiveAscii.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/archive/ArchiveAscii.cc b/src/archive/ArchiveAscii.cc
index 966b79a..a88b9db 100644
--- a/src/archive/ArchiveAscii.cc
+++ b/src/archive/ArchiveAscii.cc
@@ -372,9 +372,8 @@ namespace zenkit {
 		this->_m_write->write_string(name);
 		this->_m_write->write_string("=raw:");
 
-		std::array<char, 3> buf {};
-		buf[2] = '\0';
 		for (auto i = 0u; i < length; ++i) {
+			std::array<char, 3> buf {};
 			std::to_chars(buf.data(), buf.data() + buf.size(), static_cast<unsigned char>(v[i]), 16);
 
 			if (buf[1] == '\0') {
-- 
2.43.0


From af8b0bafab58737b93552185088209b2d961f0fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:10 +0000
Subject: [PATCH 019/116] fix: write large negative integers to text archives

The buffer had no room for the sign of a ten-digit number.
---
 src/archive/ArchiveAscii.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/archive/ArchiveAscii.cc b/src/archive/ArchiveAscii.cc
index a88b9db..6ed9d3c 100644
--- a/src/archive/ArchiveAscii.cc
+++ b/src/archive/ArchiveAscii.cc
@@ -303,7 +303,7 @@ namespace zenkit {
 	}
 
 	void WriteArchiveAscii::write_int(std::string_view name, std::int32_t v) {
-		std::array<char, std::numeric_limits<int32_t>::digits10 + 1> buf {};
+		std::array<char, std::numeric_limits<int32_t>::digits10 + 2> buf {};
 		this->write_entry(name, "int", intosv(buf, v));
 	}
 
-- 
2.43.0


From cec53c62f4c110ac99ec406e939ffcb165ea04cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:48 +0000
Subject: [PATCH 020/116] fix: report malformed values in text archives

Numbers which are out of range escaped as std::out_of_range, incomplete colors, vectors and boxes were
returned partly uninitialized.
---
 src/archive/ArchiveAscii.cc | 34 +++++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/src/archive/ArchiveAscii.cc b/src/archive/ArchiveAscii.cc
index 6ed9d3c..88b5869 100644
--- a/src/archive/ArchiveAscii.cc
+++ b/src/archive/ArchiveAscii.cc
@@ -23,7 +23,7 @@ namespace zenkit {
 
 			try {
 				_m_objects = std::stoi(objects.substr(objects.find(' ') + 1));
-			} catch (std::invalid_argument const& e) {
+			} catch (std::logic_error const& e) {
 				throw ParserError {"ReadArchive.Ascii", e, "reading int"};
 			}
 		}
@@ -107,7 +107,7 @@ namespace zenkit {
 	std::int32_t ReadArchiveAscii::read_int() {
 		try {
 			return std::stoi(read_entry("int"));
-		} catch (std::invalid_argument const& e) {
+		} catch (std::logic_error const& e) {
 			throw ParserError {"ReadArchive.Ascii", e, "reading int"};
 		}
 	}
@@ -115,7 +115,7 @@ namespace zenkit {
 	float ReadArchiveAscii::read_float() {
 		try {
 			return std::stof(read_entry("float"));
-		} catch (std::invalid_argument const& e) {
+		} catch (std::logic_error const& e) {
 			throw ParserError {"ReadArchive.Ascii", e, "reading int"};
 		}
 	}
@@ -123,7 +123,7 @@ namespace zenkit {
 	std::uint8_t ReadArchiveAscii::read_byte() {
 		try {
 			return std::stoul(read_entry("int")) & 0xFF;
-		} catch (std::invalid_argument const& e) {
+		} catch (std::logic_error const& e) {
 			throw ParserError {"ReadArchive.Ascii", e, "reading int"};
 		}
 	}
@@ -131,7 +131,7 @@ namespace zenkit {
 	std::uint16_t ReadArchiveAscii::read_word() {
 		try {
 			return std::stoul(read_entry("int")) & 0xFF'FF;
-		} catch (std::invalid_argument const& e) {
+		} catch (std::logic_error const& e) {
 			throw ParserError {"ReadArchive.Ascii", e, "reading int"};
 		}
 	}
@@ -139,7 +139,7 @@ namespace zenkit {
 	std::uint32_t ReadArchiveAscii::read_enum() {
 		try {
 			return std::stoul(read_entry("enum")) & 0xFFFF'FFFF;
-		} catch (std::invalid_argument const& e) {
+		} catch (std::logic_error const& e) {
 			throw ParserError {"ReadArchive.Ascii", e, "reading int"};
 		}
 	}
@@ -147,7 +147,7 @@ namespace zenkit {
 	bool ReadArchiveAscii::read_bool() {
 		try {
 			return std::stoul(read_entry("bool")) != 0;
-		} catch (std::invalid_argument const& e) {
+		} catch (std::logic_error const& e) {
 			throw ParserError {"ReadArchive.Ascii", e, "reading int"};
 		}
 	}
@@ -156,7 +156,10 @@ namespace zenkit {
 		std::stringstream in {read_entry("color")};
 
 		std::uint16_t r, g, b, a;
-		in >> r >> g >> b >> a;
+		if (!(in >> r >> g >> b >> a)) {
+			throw ParserError {"ReadArchive.Ascii", "invalid color"};
+		}
+
 		return Color {static_cast<std::uint8_t>(r),
 		              static_cast<std::uint8_t>(g),
 		              static_cast<std::uint8_t>(b),
@@ -167,7 +170,10 @@ namespace zenkit {
 		std::stringstream in {read_entry("vec3")};
 		Vec3 v {};
 
-		in >> v.x >> v.y >> v.z;
+		if (!(in >> v.x >> v.y >> v.z)) {
+			throw ParserError {"ReadArchive.Ascii", "invalid vec3"};
+		}
+
 		return v;
 	}
 
@@ -175,7 +181,10 @@ namespace zenkit {
 		std::stringstream in {read_entry("rawFloat")};
 		Vec2 v {};
 
-		in >> v.x >> v.y;
+		if (!(in >> v.x >> v.y)) {
+			throw ParserError {"ReadArchive.Ascii", "invalid vec2"};
+		}
+
 		return v;
 	}
 
@@ -187,7 +196,10 @@ namespace zenkit {
 		std::stringstream in {read_entry("rawFloat")};
 		AxisAlignedBoundingBox box {};
 
-		in >> box.min.x >> box.min.y >> box.min.z >> box.max.x >> box.max.y >> box.max.z;
+		if (!(in >> box.min.x >> box.min.y >> box.min.z >> box.max.x >> box.max.y >> box.max.z)) {
+			throw ParserError {"ReadArchive.Ascii", "invalid bounding box"};
+		}
+
 		return box;
 	}
 
-- 
2.43.0


From b8fe34c0d8525a2d03854384264233932a8ffb00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:48 +0000
Subject: [PATCH 021/116] fix: reject archives with an unsupported format

They were read as binary archives. Out-of-range numbers in the header are reported as parser errors, too.
---
 src/Archive.cc               | 4 +++-
 src/archive/ArchiveBinary.cc | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Archive.cc b/src/Archive.cc
index 8797a87..7cade06 100644
--- a/src/Archive.cc
+++ b/src/Archive.cc
@@ -204,6 +204,8 @@ namespace zenkit {
 				this->format = ArchiveFormat::BINARY;
 			} else if (fmt == "BIN_SAFE") {
 				this->format = ArchiveFormat::BINSAFE;
+			} else {
+				throw ParserError {"ReadArchive", "Unsupported format: " + fmt};
 			}
 
 			std::string save_game = r->read_line(true);
@@ -226,7 +228,7 @@ namespace zenkit {
 			if (optional != "END") {
 				throw ParserError {"ReadArchive", "first END missing"};
 			}
-		} catch (std::invalid_argument const& e) {
+		} catch (std::logic_error const& e) {
 			throw ParserError {"ReadArchive", e, "reading int"};
 		}
 	}
diff --git a/src/archive/ArchiveBinary.cc b/src/archive/ArchiveBinary.cc
index 6175abc..1c55f95 100644
--- a/src/archive/ArchiveBinary.cc
+++ b/src/archive/ArchiveBinary.cc
@@ -17,7 +17,7 @@ namespace zenkit {
 
 			try {
 				_m_objects = std::stoi(objects.substr(objects.find(' ') + 1));
-			} catch (std::invalid_argument const& e) {
+			} catch (std::logic_error const& e) {
 				throw ParserError {"ReadArchiveBinary", e, "reading int"};
 			}
 		}
-- 
2.43.0


From 0b6fc5bfcf572532e31c64c011ca7f4a1ba9a8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:48 +0000
Subject: [PATCH 022/116] fix: don't skip the begin of binary archives which
 looks like a line break

The first byte after the header was lost if it was 0x0A, for example the number of materials of a mesh with ten
materials.
---
 src/archive/ArchiveBinary.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/archive/ArchiveBinary.cc b/src/archive/ArchiveBinary.cc
index 1c55f95..e627cd2 100644
--- a/src/archive/ArchiveBinary.cc
+++ b/src/archive/ArchiveBinary.cc
@@ -22,9 +22,14 @@ namespace zenkit {
 			}
 		}
 
-		if (read->read_line_then_ignore("\n") != "END") {
+		if (read->read_line(false) != "END") {
 			throw ParserError {"ReadArchiveBinary", "second END missing"};
 		}
+
+		// The header is followed by exactly one empty line. Further line breaks already belong to the content.
+		if (auto mark = read->tell(); read->read_char() != '\n') {
+			read->seek(static_cast<ssize_t>(mark), Whence::BEG);
+		}
 	}
 
 	bool ReadArchiveBinary::read_object_begin(ArchiveObject& obj) {
-- 
2.43.0


From 95c9ca0ac34439dd4388731fb797eb4898285e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:48 +0000
Subject: [PATCH 023/116] fix: don't access an empty object stack in binary
 archives

---
 src/archive/ArchiveBinary.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/archive/ArchiveBinary.cc b/src/archive/ArchiveBinary.cc
index e627cd2..a3b7e78 100644
--- a/src/archive/ArchiveBinary.cc
+++ b/src/archive/ArchiveBinary.cc
@@ -46,7 +46,7 @@ namespace zenkit {
 	}
 
 	bool ReadArchiveBinary::read_object_end() {
-		if (read->tell() == _m_object_end.top()) {
+		if (!_m_object_end.empty() && (read->tell() == _m_object_end.top() || read->eof())) {
 			_m_object_end.pop();
 			return true;
 		}
@@ -121,6 +121,10 @@ namespace zenkit {
 
 	void ReadArchiveBinary::skip_object(bool skip_current) {
 		if (skip_current) {
+			if (_m_object_end.empty()) {
+				throw ParserError {"ReadArchiveBinary", "there is no object to skip"};
+			}
+
 			read->seek(static_cast<ssize_t>(_m_object_end.top()), Whence::BEG);
 			_m_object_end.pop();
 		} else {
-- 
2.43.0


From 38d707a0e2a0d14a70173d7c0331bcdbf6651474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:48 +0000
Subject: [PATCH 024/116] fix: skip safe binary entries as a whole

Only the name of an entry was skipped, after which a string value of "[]" was taken for the end of the object.
---
 src/archive/ArchiveBinsafe.cc | 16 ++++++++++++++++
 src/archive/ArchiveBinsafe.hh |  1 +
 2 files changed, 17 insertions(+)

diff --git a/src/archive/ArchiveBinsafe.cc b/src/archive/ArchiveBinsafe.cc
index 604a890..d83be7c 100644
--- a/src/archive/ArchiveBinsafe.cc
+++ b/src/archive/ArchiveBinsafe.cc
@@ -219,6 +219,22 @@ namespace zenkit {
 	}
 
 	void ReadArchiveBinsafe::skip_entry() {
+		auto mark = read->tell();
+
+		switch (static_cast<ArchiveEntryType>(read->read_ubyte())) {
+		case ArchiveEntryType::HASH:
+			// The value belongs to the entry. It must not be taken for the begin or end of an object.
+			(void) read->read_uint();
+			this->skip_value();
+			break;
+		default:
+			read->seek(static_cast<ssize_t>(mark), Whence::BEG);
+			this->skip_value();
+			break;
+		}
+	}
+
+	void ReadArchiveBinsafe::skip_value() {
 		switch (static_cast<ArchiveEntryType>(read->read_ubyte())) {
 		case ArchiveEntryType::STRING:
 		case ArchiveEntryType::RAW:
diff --git a/src/archive/ArchiveBinsafe.hh b/src/archive/ArchiveBinsafe.hh
index 3b46b53..887a590 100644
--- a/src/archive/ArchiveBinsafe.hh
+++ b/src/archive/ArchiveBinsafe.hh
@@ -62,6 +62,7 @@ namespace zenkit {
 	protected:
 		void read_header() override;
 		void skip_entry() override;
+		void skip_value();
 
 		std::string const& get_entry_key();
 
-- 
2.43.0


From 315e4d1542eff882feba3a1983dbfdd6b04aa482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:48 +0000
Subject: [PATCH 025/116] fix: stop skipping objects at the end of the archive

---
 src/Archive.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Archive.cc b/src/Archive.cc
index 7cade06..f8414ab 100644
--- a/src/Archive.cc
+++ b/src/Archive.cc
@@ -533,6 +533,10 @@ namespace zenkit {
 		int32_t level = skip_current ? 1 : 0;
 
 		do {
+			if (level > 0 && read->eof()) {
+				throw ParserError {"ReadArchive", "unexpected end of archive while skipping an object"};
+			}
+
 			if (read_object_begin(tmp)) {
 				++level;
 			} else if (read_object_end()) {
-- 
2.43.0


From a611d206ee0de14a20805f075e381889e9e4cf74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:48 +0000
Subject: [PATCH 026/116] fix: validate the hash table of safe binary archives

---
 src/archive/ArchiveBinsafe.cc | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/archive/ArchiveBinsafe.cc b/src/archive/ArchiveBinsafe.cc
index d83be7c..7014866 100644
--- a/src/archive/ArchiveBinsafe.cc
+++ b/src/archive/ArchiveBinsafe.cc
@@ -8,6 +8,7 @@
 #include <algorithm>
 #include <charconv>
 #include <cstring>
+#include <limits>
 
 namespace zenkit {
 	void ReadArchiveBinsafe::read_header() {
@@ -20,6 +21,10 @@ namespace zenkit {
 			read->seek(hash_table_offset, Whence::BEG);
 
 			auto hash_table_size = read->read_uint();
+			if (hash_table_size > std::numeric_limits<std::uint16_t>::max() + 1u) {
+				throw ParserError {"ReadArchive.Binsafe", "hash table too large"};
+			}
+
 			_m_hash_table_entries.resize(hash_table_size);
 
 			for (std::uint32_t i = 0; i < hash_table_size; ++i) {
@@ -28,6 +33,10 @@ namespace zenkit {
 				auto hash_value = read->read_uint();
 				auto key = read->read_string(key_length);
 
+				if (insertion_index >= hash_table_size) {
+					throw ParserError {"ReadArchive.Binsafe", "invalid hash table"};
+				}
+
 				_m_hash_table_entries[insertion_index] = hash_table_entry {key, hash_value};
 			}
 
@@ -103,6 +112,10 @@ namespace zenkit {
 		}
 
 		auto hash = read->read_uint();
+		if (hash >= _m_hash_table_entries.size()) {
+			throw ParserError {"ReadArchive.Binsafe", "invalid entry name"};
+		}
+
 		return _m_hash_table_entries[hash].key;
 	}
 
-- 
2.43.0


From 2a9a1e7092dca6109ee2fa33dc80e6b67543a79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:12 +0000
Subject: [PATCH 027/116] fix: don't use strtok to read safe binary archives

It keeps its state in a global variable shared by all threads.
---
 src/archive/ArchiveBinsafe.cc | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/src/archive/ArchiveBinsafe.cc b/src/archive/ArchiveBinsafe.cc
index 7014866..1314d79 100644
--- a/src/archive/ArchiveBinsafe.cc
+++ b/src/archive/ArchiveBinsafe.cc
@@ -61,26 +61,29 @@ namespace zenkit {
 			return false;
 		}
 
-		char* it = line.data();
-		if (*it++ != '[') {
+		if (line[0] != '[') {
 			read->seek(static_cast<ssize_t>(mark), Whence::BEG);
 			return false;
 		}
 
-		auto* object_name = strtok(it, " ]");
-		auto* class_name = strtok(nullptr, " ]");
-		auto* version = strtok(nullptr, " ]");
-		auto* index = strtok(nullptr, " ]");
+		// NOTE: `strtok` is not safe to use from multiple threads.
+		std::string tokens[4];
+		size_t pos = 1;
+		for (auto& token : tokens) {
+			auto start = line.find_first_not_of(" ]", pos);
+			if (start == std::string::npos) {
+				read->seek(static_cast<ssize_t>(mark), Whence::BEG);
+				return false;
+			}
 
-		if (object_name == nullptr || class_name == nullptr || version == nullptr || index == nullptr) {
-			read->seek(static_cast<ssize_t>(mark), Whence::BEG);
-			return false;
+			pos = std::min(line.find_first_of(" ]", start), line.size());
+			token = line.substr(start, pos - start);
 		}
 
-		obj.version = static_cast<uint16_t>(atoi(version));
-		obj.index = static_cast<uint32_t>(atoi(index));
-		obj.object_name = object_name;
-		obj.class_name = class_name;
+		obj.version = static_cast<uint16_t>(atoi(tokens[2].c_str()));
+		obj.index = static_cast<uint32_t>(atoi(tokens[3].c_str()));
+		obj.object_name = std::move(tokens[0]);
+		obj.class_name = std::move(tokens[1]);
 		return true;
 	}
 
-- 
2.43.0


From 2984337ef1b1086da39e259fdb64b0d988bc2ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:12 +0000
Subject: [PATCH 028/116] fix: respect the length of object and class names

They are not necessarily terminated.
---
 src/archive/ArchiveAscii.cc   |  2 +-
 src/archive/ArchiveBinsafe.cc | 17 ++++++++++++++---
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/archive/ArchiveAscii.cc b/src/archive/ArchiveAscii.cc
index 88b5869..eaf20e0 100644
--- a/src/archive/ArchiveAscii.cc
+++ b/src/archive/ArchiveAscii.cc
@@ -275,7 +275,7 @@ namespace zenkit {
 		this->_m_write->write_char('[');
 		this->_m_write->write_string(object_name);
 		this->_m_write->write_char(' ');
-		this->_m_write->write_string(empty_class ? "%" : class_name.data());
+		this->_m_write->write_string(empty_class ? "%" : class_name);
 		this->_m_write->write_char(' ');
 		this->_m_write->write_string(intosv(buf, version));
 		this->_m_write->write_char(' ');
diff --git a/src/archive/ArchiveBinsafe.cc b/src/archive/ArchiveBinsafe.cc
index 1314d79..885ff56 100644
--- a/src/archive/ArchiveBinsafe.cc
+++ b/src/archive/ArchiveBinsafe.cc
@@ -315,12 +315,16 @@ namespace zenkit {
 		this->_m_write->write_ubyte(static_cast<uint8_t>(ArchiveEntryType::STRING));
 		bool empty_class = class_name.empty() || class_name == "%";
 
+		if (class_name.empty()) class_name = "%";
+
 		char buf[6 + 127 * 2 + 10 * 2];
 		auto n = snprintf(buf,
 		                  sizeof buf - 1,
-		                  "[%.127s %.127s %d %d]",
+		                  "[%.*s %.*s %d %d]",
+		                  static_cast<int>(std::min<size_t>(object_name.size(), 127)),
 		                  object_name.data(),
-		                  class_name.empty() ? "%" : class_name.data(),
+		                  static_cast<int>(std::min<size_t>(class_name.size(), 127)),
+		                  class_name.data(),
 		                  version,
 		                  empty_class ? 0 : _m_index);
 
@@ -340,7 +344,14 @@ namespace zenkit {
 		this->_m_write->write_ubyte(static_cast<uint8_t>(ArchiveEntryType::STRING));
 
 		char buf[6 + 127 * 2 + 10 * 2];
-		auto n = snprintf(buf, sizeof buf - 1, "[%.127s %.127s %d %d]", object_name.data(), "\xA7", 0, index);
+		auto n = snprintf(buf,
+		                  sizeof buf - 1,
+		                  "[%.*s %s %d %d]",
+		                  static_cast<int>(std::min<size_t>(object_name.size(), 127)),
+		                  object_name.data(),
+		                  "\xA7",
+		                  0,
+		                  index);
 
 		this->_m_write->write_ushort(n);
 		this->_m_write->write_string(buf);
-- 
2.43.0


From b01daf8574587f7388c54d9141dcd751f3949ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:44 +0000
Subject: [PATCH 029/116] fix: keep the length of archive headers

The header is written again when an archive is complete. If the day or month had changed in length since it was
opened, the header became longer and overwrote the begin of the content.
---
 include/zenkit/Archive.hh     |  4 ++++
 src/Archive.cc                | 16 ++++++++++++++++
 src/archive/ArchiveAscii.cc   | 17 ++++++-----------
 src/archive/ArchiveAscii.hh   |  1 +
 src/archive/ArchiveBinary.cc  | 17 ++++++-----------
 src/archive/ArchiveBinary.hh  |  1 +
 src/archive/ArchiveBinsafe.cc |  8 +-------
 src/archive/ArchiveBinsafe.hh |  1 +
 8 files changed, 36 insertions(+), 29 deletions(-)

diff --git a/include/zenkit/Archive.hh b/include/zenkit/Archive.hh
index 661ba57..148f7ec 100644
--- a/include/zenkit/Archive.hh
+++ b/include/zenkit/Archive.hh
@@ -299,6 +299,10 @@ namespace zenkit {
 
 		[[nodiscard]] virtual Write* get_stream() const noexcept = 0;
 
+	protected:
+		/// \return The current date and time, formatted for the archive header.
+		[[nodiscard]] static std::string current_date();
+
 	private:
 		std::unordered_map<Object const*, uint32_t> _m_cache {};
 		bool _m_save {false};
diff --git a/src/Archive.cc b/src/Archive.cc
index f8414ab..c3c13fc 100644
--- a/src/Archive.cc
+++ b/src/Archive.cc
@@ -23,6 +23,7 @@
 #include "zenkit/SaveGame.hh"
 #include "zenkit/World.hh"
 
+#include <ctime>
 #include <iostream>
 
 namespace zenkit {
@@ -566,6 +567,21 @@ namespace zenkit {
 		return ar;
 	}
 
+	std::string WriteArchive::current_date() {
+		std::time_t clk = std::time(nullptr);
+		std::tm time {};
+
+#ifdef _WIN32
+		localtime_s(&time, &clk);
+#else
+		localtime_r(&clk, &time);
+#endif
+
+		char buffer[20];
+		auto length = std::strftime(buffer, sizeof buffer, "%-d.%-m.%Y %H:%M:%S", &time);
+		return {buffer, length};
+	}
+
 	void WriteArchive::write_object(std::shared_ptr<Object> const& obj, GameVersion version) {
 		this->write_object("%", obj, version);
 	}
diff --git a/src/archive/ArchiveAscii.cc b/src/archive/ArchiveAscii.cc
index eaf20e0..0109da9 100644
--- a/src/archive/ArchiveAscii.cc
+++ b/src/archive/ArchiveAscii.cc
@@ -435,29 +435,24 @@ namespace zenkit {
 		if (username == nullptr) username = getenv("USERNAME");
 		if (username == nullptr) username = "Anonymous";
 
-		char date_buffer[20];
-		std::time_t clk;
-		std::time(&clk);
-		auto* time = std::localtime(&clk);
-		strftime(date_buffer, 20, "%-d.%-m.%Y %H:%M:%S", time);
-
 		this->_m_write->write_line("ZenGin Archive");
 		this->_m_write->write_line("ver 1");
 		this->_m_write->write_line("zCArchiverGeneric");
 		this->_m_write->write_line("ASCII");
 		this->_m_write->write_line(is_save_game() ? "saveGame 1" : "saveGame 0");
 		this->_m_write->write_string("date ");
-		this->_m_write->write_line(date_buffer);
+		this->_m_write->write_line(_m_date);
 		this->_m_write->write_string("user ");
 		this->_m_write->write_line(username);
 		this->_m_write->write_line("END");
 
-		memset(date_buffer, ' ', 20);
-		date_buffer[11] = '\0';
-		std::to_chars(date_buffer, date_buffer + 10, _m_index);
+		char objects_buffer[20];
+		memset(objects_buffer, ' ', 20);
+		objects_buffer[11] = '\0';
+		std::to_chars(objects_buffer, objects_buffer + 10, _m_index);
 
 		this->_m_write->write_string("objects ");
-		this->_m_write->write_line(date_buffer);
+		this->_m_write->write_line(objects_buffer);
 		this->_m_write->write_line("END\n");
 
 		if (cur != _m_head) {
diff --git a/src/archive/ArchiveAscii.hh b/src/archive/ArchiveAscii.hh
index 5bbc4c0..2085c5a 100644
--- a/src/archive/ArchiveAscii.hh
+++ b/src/archive/ArchiveAscii.hh
@@ -77,5 +77,6 @@ namespace zenkit {
 		std::uint32_t _m_index {0};
 		std::uint32_t _m_indent {0};
 		std::size_t _m_head;
+		std::string _m_date = current_date();
 	};
 } // namespace zenkit
diff --git a/src/archive/ArchiveBinary.cc b/src/archive/ArchiveBinary.cc
index a3b7e78..64f1ce9 100644
--- a/src/archive/ArchiveBinary.cc
+++ b/src/archive/ArchiveBinary.cc
@@ -249,29 +249,24 @@ namespace zenkit {
 		if (username == nullptr) username = getenv("USERNAME");
 		if (username == nullptr) username = "Anonymous";
 
-		char date_buffer[20];
-		std::time_t clk;
-		std::time(&clk);
-		auto* time = std::localtime(&clk);
-		strftime(date_buffer, 20, "%-d.%-m.%Y %H:%M:%S", time);
-
 		this->_m_write->write_line("ZenGin Archive");
 		this->_m_write->write_line("ver 1");
 		this->_m_write->write_line("zCArchiverGeneric");
 		this->_m_write->write_line("BINARY");
 		this->_m_write->write_line(is_save_game() ? "saveGame 1" : "saveGame 0");
 		this->_m_write->write_string("date ");
-		this->_m_write->write_line(date_buffer);
+		this->_m_write->write_line(_m_date);
 		this->_m_write->write_string("user ");
 		this->_m_write->write_line(username);
 		this->_m_write->write_line("END");
 
-		std::memset(date_buffer, ' ', 20);
-		date_buffer[10] = '\0';
-		std::to_chars(date_buffer, date_buffer + 9, _m_index);
+		char objects_buffer[20];
+		std::memset(objects_buffer, ' ', 20);
+		objects_buffer[10] = '\0';
+		std::to_chars(objects_buffer, objects_buffer + 9, _m_index);
 
 		this->_m_write->write_string("objects ");
-		this->_m_write->write_line(date_buffer);
+		this->_m_write->write_line(objects_buffer);
 		this->_m_write->write_line("END\n");
 
 		if (cur != _m_head) {
diff --git a/src/archive/ArchiveBinary.hh b/src/archive/ArchiveBinary.hh
index d09c8da..aa132f4 100644
--- a/src/archive/ArchiveBinary.hh
+++ b/src/archive/ArchiveBinary.hh
@@ -77,5 +77,6 @@ namespace zenkit {
 		std::uint32_t _m_index {0};
 		std::stack<size_t> _m_objects {};
 		std::size_t _m_head;
+		std::string _m_date = current_date();
 	};
 } // namespace zenkit
diff --git a/src/archive/ArchiveBinsafe.cc b/src/archive/ArchiveBinsafe.cc
index 885ff56..fd454c0 100644
--- a/src/archive/ArchiveBinsafe.cc
+++ b/src/archive/ArchiveBinsafe.cc
@@ -448,19 +448,13 @@ namespace zenkit {
 		if (username == nullptr) username = getenv("USERNAME");
 		if (username == nullptr) username = "Anonymous";
 
-		char date_buffer[20];
-		std::time_t clk;
-		std::time(&clk);
-		auto* time = std::localtime(&clk);
-		strftime(date_buffer, 20, "%-d.%-m.%Y %H:%M:%S", time);
-
 		this->_m_write->write_line("ZenGin Archive");
 		this->_m_write->write_line("ver 1");
 		this->_m_write->write_line("zCArchiverBinSafe");
 		this->_m_write->write_line("BIN_SAFE");
 		this->_m_write->write_line(is_save_game() ? "saveGame 1" : "saveGame 0");
 		this->_m_write->write_string("date ");
-		this->_m_write->write_line(date_buffer);
+		this->_m_write->write_line(_m_date);
 		this->_m_write->write_string("user ");
 		this->_m_write->write_line(username);
 		this->_m_write->write_line("END");
diff --git a/src/archive/ArchiveBinsafe.hh b/src/archive/ArchiveBinsafe.hh
index 887a590..08cec88 100644
--- a/src/archive/ArchiveBinsafe.hh
+++ b/src/archive/ArchiveBinsafe.hh
@@ -125,5 +125,6 @@ namespace zenkit {
 		std::uint32_t _m_index {0};
 		std::map<std::string, std::uint16_t, std::less<>> _m_hash_keys;
 		std::size_t _m_head;
+		std::string _m_date = current_date();
 	};
 } // namespace zenkit
-- 
2.43.0


From d247d01a1de9d5445253b465de87cfb99dc973ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:14 +0000
Subject: [PATCH 030/116] fix: packed animation mode and bias of VObs

---
 src/vobs/VirtualObject.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/vobs/VirtualObject.cc b/src/vobs/VirtualObject.cc
index 6c23fd2..a8ad4da 100644
--- a/src/vobs/VirtualObject.cc
+++ b/src/vobs/VirtualObject.cc
@@ -106,7 +106,7 @@ namespace zenkit {
 			this->physics_enabled = static_cast<bool>((bit1 & 0b000000001000000u) >> 6u);
 
 			if (version == GameVersion::GOTHIC_2) {
-				this->anim_mode = static_cast<AnimationType>(bit1 & 0b000000110000000u >> 7u);
+				this->anim_mode = static_cast<AnimationType>((bit1 & 0b000000110000000u) >> 7u);
 				this->bias = static_cast<std::int32_t>((bit1 & 0b011111000000000u) >> 9u);
 				this->ambient = static_cast<bool>((bit1 & 0b100000000000000u) >> 14u);
 
@@ -239,8 +239,8 @@ namespace zenkit {
 			}
 
 			if (version == GameVersion::GOTHIC_2) {
-				bit1 |= (static_cast<uint8_t>(this->anim_mode) & 2) << 7u;
-				bit1 |= (static_cast<uint8_t>(this->bias) & 0b11111) << 13u;
+				bit1 |= (static_cast<uint8_t>(this->anim_mode) & 3) << 7u;
+				bit1 |= (static_cast<uint8_t>(this->bias) & 0b11111) << 9u;
 				bit1 |= this->ambient << 14u;
 
 				pw->write_ushort(bit1);
-- 
2.43.0


From d974cfd166bf97228e3bebd14ee4ed2aef80af2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:14 +0000
Subject: [PATCH 031/116] fix: write VObs the way they are read

Unpacked VObs repeated their names, omitted null objects and the rigid body; event
managers were written outside of save-games, where they are not read.
---
 src/vobs/VirtualObject.cc | 46 +++++++++++++++++++--------------------
 1 file changed, 23 insertions(+), 23 deletions(-)

diff --git a/src/vobs/VirtualObject.cc b/src/vobs/VirtualObject.cc
index a8ad4da..9b0a04f 100644
--- a/src/vobs/VirtualObject.cc
+++ b/src/vobs/VirtualObject.cc
@@ -231,12 +231,8 @@ namespace zenkit {
 			bit1 |= (!!this->ai) << 4u;
 			bit1 |= (!!this->event_manager) << 5u;
 
-			// Gothic 1 does not store rigid-body information.
-			if (version == GameVersion::GOTHIC_1) {
-				bit1 |= this->physics_enabled << 6u;
-			} else {
-				bit1 |= (this->physics_enabled && this->rigid_body) << 6u;
-			}
+			// In save-games, rigid-body information follows if this is set.
+			bit1 |= (this->physics_enabled && (this->rigid_body || !w.is_save_game())) << 6u;
 
 			if (version == GameVersion::GOTHIC_2) {
 				bit1 |= (static_cast<uint8_t>(this->anim_mode) & 3) << 7u;
@@ -251,6 +247,18 @@ namespace zenkit {
 			}
 
 			w.write_raw("dataRaw", packed);
+
+			if (!this->preset_name.empty()) {
+				w.write_string("presetName", this->preset_name);
+			}
+
+			if (!this->vob_name.empty()) {
+				w.write_string("vobName", this->vob_name);
+			}
+
+			if (this->visual && !this->visual->name.empty()) {
+				w.write_string("visual", this->visual->name);
+			}
 		} else {
 			w.write_int("pack", 0);
 			w.write_string("presetName", this->preset_name);
@@ -258,7 +266,7 @@ namespace zenkit {
 			w.write_mat3x3("trafoOSToWSRot", this->rotation);
 			w.write_vec3("trafoOSToWSPos", this->position);
 			w.write_string("vobName", this->vob_name);
-			w.write_string("visual", this->visual_name);
+			w.write_string("visual", this->visual ? this->visual->name : "");
 			w.write_bool("showVisual", this->show_visual);
 			w.write_enum("visualCamAlign", static_cast<int>(this->sprite_camera_facing_mode));
 
@@ -280,27 +288,19 @@ namespace zenkit {
 			}
 		}
 
-		if (!this->preset_name.empty()) {
-			w.write_string("presetName", this->preset_name);
-		}
-
-		if (!this->vob_name.empty()) {
-			w.write_string("vobName", this->vob_name);
-		}
-
-		if (this->visual && !this->visual->name.empty()) {
-			w.write_string("visual", this->visual->name);
-		}
-
+		// Only packed VObs can omit these objects.
 		if (this->visual && this->visual->type != VisualType::UNKNOWN) {
 			w.write_object("visual", this->visual, version);
+		} else if (!pack) {
+			w.write_object("visual", nullptr, version);
 		}
 
-		if (this->ai) {
+		if (this->ai || !pack) {
 			w.write_object("ai", this->ai, version);
 		}
 
-		if (this->event_manager) {
+		// Quirk: Only packed VObs in save-games contain the event manager.
+		if (this->event_manager && pack && w.is_save_game()) {
 			w.write_object(this->event_manager, version);
 		}
 
@@ -309,8 +309,8 @@ namespace zenkit {
 			w.write_float("nextOnTimer", this->next_on_timer);
 
 			// Gothic 1 does not store rigid-body information.
-			if (this->physics_enabled && this->rigid_body) {
-				this->rigid_body->save(w, version);
+			if (pack ? this->physics_enabled && this->rigid_body : true) {
+				this->rigid_body.value_or(RigidBody {}).save(w, version);
 			}
 		}
 	}
-- 
2.43.0


From 0452a726f34294b580f755c0286b2fd51c8cca76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:14 +0000
Subject: [PATCH 032/116] fix: keep the visual name of VObs without visual
 object

All of them shared one global visual, which also made loading in parallel unsafe. Objects of
unexpected classes are no longer reinterpreted as visuals, AI or VObs.
---
 src/vobs/VirtualObject.cc | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/vobs/VirtualObject.cc b/src/vobs/VirtualObject.cc
index 9b0a04f..af1733f 100644
--- a/src/vobs/VirtualObject.cc
+++ b/src/vobs/VirtualObject.cc
@@ -8,7 +8,6 @@
 #include <unordered_map>
 
 namespace zenkit {
-	static std::shared_ptr<Visual> const DEFAULT_VISUAL = std::make_shared<Visual>();
 	static bool pack = true;
 
 	/// \brief A mapping of archive class names to visual_type values.
@@ -167,21 +166,22 @@ namespace zenkit {
 				}
 
 				this->visual->name = visual_name;
-				this->visual->type = it->second;
+				this->visual->type = this->associated_visual_type;
 				if (this->visual->type == VisualType::DECAL) {
 					this->visual_decal.emplace(*reinterpret_cast<VisualDecal*>(this->visual.get()));
 				}
-			} else {
-				this->visual = DEFAULT_VISUAL;
 			}
 		} else {
-			this->visual = DEFAULT_VISUAL;
+			this->visual = nullptr;
+		}
+
+		if (this->visual == nullptr) {
+			this->visual = std::make_shared<Visual>();
+			this->visual->name = visual_name;
 		}
 
 		if (has_ai_object) {
-			// NOTE(lmichaelis): The NDK does not seem to support `reinterpret_pointer_cast`.
-			auto obj = r.read_object(version);
-			this->ai = std::shared_ptr<Ai>(obj, reinterpret_cast<Ai*>(obj.get()));
+			this->ai = std::dynamic_pointer_cast<Ai>(r.read_object(version));
 		}
 
 		if (has_event_manager_object) {
@@ -392,10 +392,8 @@ namespace zenkit {
 	}
 
 	void AiMove::load(ReadArchive& r, GameVersion version) {
-		// NOTE(lmichaelis): The NDK does not seem to support `reinterpret_pointer_cast`.
-		auto obj = r.read_object(version);
-		vob = std::shared_ptr<VirtualObject>(obj, reinterpret_cast<VirtualObject*>(obj.get())); // vob
-		owner = r.read_object<VNpc>(version);                                                   // owner
+		vob = std::dynamic_pointer_cast<VirtualObject>(r.read_object(version)); // vob
+		owner = r.read_object<VNpc>(version);                                   // owner
 	}
 
 	void AiMove::save(WriteArchive& w, GameVersion version) const {
-- 
2.43.0


From cc866a743f04e06a4f6dc4ef0a7144fad791a01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:14 +0000
Subject: [PATCH 033/116] fix: saving light animations

---
 src/vobs/Light.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/vobs/Light.cc b/src/vobs/Light.cc
index 5183385..860be59 100644
--- a/src/vobs/Light.cc
+++ b/src/vobs/Light.cc
@@ -5,6 +5,7 @@
 
 #include "../Internal.hh"
 
+#include <limits>
 #include <sstream>
 
 namespace zenkit {
@@ -33,6 +34,7 @@ namespace zenkit {
 
 			std::istringstream ranges {range_ani_scale};
 			float value;
+			this->range_animation_scale.clear();
 			while (ranges >> value) {
 				this->range_animation_scale.push_back(value);
 			}
@@ -50,8 +52,9 @@ namespace zenkit {
 			//
 			//   color-scalar = 1*3DIGIT
 
-			char c;
-			uint32_t cr, cg, cb;
+			char c = 0;
+			uint32_t cr = 0, cg = 0, cb = 0;
+			this->color_animation_list.clear();
 			while (colors >> c) {
 				if (isdigit(c)) {
 					colors.unget();
@@ -93,6 +96,7 @@ namespace zenkit {
 			w.write_bool("turnedOn", this->on);
 
 			std::ostringstream os;
+			os.precision(std::numeric_limits<float>::max_digits10);
 			for (auto& r : this->range_animation_scale) {
 				os << r << " ";
 			}
@@ -101,7 +105,7 @@ namespace zenkit {
 			w.write_float("rangeAniFPS", this->range_animation_fps);
 			w.write_bool("rangeAniSmooth", this->range_animation_smooth);
 
-			os.clear();
+			os.str("");
 			for (auto& c : this->color_animation_list) {
 				os << "(" << static_cast<int>(c.r) << " " << static_cast<int>(c.g) << " " << static_cast<int>(c.b)
 				   << ") ";
-- 
2.43.0


From 9db1dce4d860416c8d7166f460ee57f5eb0f860c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:14 +0000
Subject: [PATCH 034/116] fix: saving cutscene cameras

---
 src/vobs/Camera.cc | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/vobs/Camera.cc b/src/vobs/Camera.cc
index 97c037c..ae827cf 100644
--- a/src/vobs/Camera.cc
+++ b/src/vobs/Camera.cc
@@ -44,9 +44,10 @@ namespace zenkit {
 		w.write_float("continuity", this->continuity);
 		w.write_float("timeScale", this->time_scale);
 		w.write_bool("timeIsFixed", this->time_fixed);
-		w.write_raw("originalPose",
-		            reinterpret_cast<std::byte const*>(this->original_pose.pointer()),
-		            4 * 4 * sizeof(float));
+
+		std::vector<std::byte> pose;
+		Write::to(&pose)->write_mat4(this->original_pose);
+		w.write_raw("originalPose", pose);
 	}
 
 	void VCutsceneCamera::parse(VCutsceneCamera& obj, ReadArchive& r, GameVersion version) {
@@ -108,15 +109,15 @@ namespace zenkit {
 		w.write_bool("autoCamPlayerMovable", this->auto_player_movable);
 		w.write_bool("autoCamUntriggerOnLastKey", this->auto_untrigger_last);
 		w.write_float("autoCamUntriggerOnLastKeyDelay", this->auto_untrigger_last_delay);
-		w.write_int("numPos", this->position_count);
-		w.write_int("numTargets", this->target_count);
+		w.write_int("numPos", static_cast<int32_t>(this->trajectory_frames.size()));
+		w.write_int("numTargets", static_cast<int32_t>(this->target_frames.size()));
 
-		for (auto i = 0; i < this->position_count; ++i) {
-			w.write_object(this->trajectory_frames[static_cast<size_t>(i)], version);
+		for (auto& frame : this->trajectory_frames) {
+			w.write_object(frame, version);
 		}
 
-		for (auto i = 0; i < this->target_count; ++i) {
-			w.write_object(this->target_frames[static_cast<size_t>(i)], version);
+		for (auto& frame : this->target_frames) {
+			w.write_object(frame, version);
 		}
 
 		if (w.is_save_game() && version == GameVersion::GOTHIC_2) {
-- 
2.43.0


From e6e52026f0bbed7ab813ed58e7deb0aac763315e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:14 +0000
Subject: [PATCH 035/116] fix: saving triggers, sounds, sky and materials

Save the attributes of triggers instead of the raw flags they were loaded from, use the
names of the attributes and don't reduce the alpha function of materials to a boolean.
---
 src/Material.cc     |  4 ++--
 src/World.cc        |  8 ++++----
 src/vobs/Sound.cc   | 18 +++++++++---------
 src/vobs/Trigger.cc | 20 ++++++++++++++------
 4 files changed, 29 insertions(+), 21 deletions(-)

diff --git a/src/Material.cc b/src/Material.cc
index 35fd893..a5aa266 100644
--- a/src/Material.cc
+++ b/src/Material.cc
@@ -103,7 +103,7 @@ namespace zenkit {
 
 		w.write_bool("noCollDet", this->disable_collision);
 		w.write_bool("noLightmap", this->disable_lightmap);
-		w.write_bool("losDontCollapse", this->dont_collapse);
+		w.write_bool("lodDontCollapse", this->dont_collapse);
 		w.write_string("detailObject", this->detail_object);
 
 		if (version == GameVersion::GOTHIC_2) {
@@ -116,7 +116,7 @@ namespace zenkit {
 			w.write_float("waveMaxAmplitude", this->wave_max_amplitude);
 			w.write_float("waveGridSize", this->wave_grid_size);
 			w.write_bool("ignoreSunLight", this->ignore_sun);
-			w.write_bool("alphaFunc", static_cast<bool>(this->alpha_func));
+			w.write_enum("alphaFunc", static_cast<uint32_t>(this->alpha_func));
 		}
 
 		w.write_vec2("defaultMapping", this->default_mapping);
diff --git a/src/World.cc b/src/World.cc
index 90c30e6..4525f7f 100644
--- a/src/World.cc
+++ b/src/World.cc
@@ -297,10 +297,10 @@ namespace zenkit {
 		w.write_float("dayCtr", day_ctr);
 
 		if (version == GameVersion::GOTHIC_2) {
-			w.write_float("", fade_scale);      // fadeScale
-			w.write_bool("", render_lightning); // renderLightning
-			w.write_bool("", is_raining);       // isRaining
-			w.write_int("", rain_ctr);          // rainCtr
+			w.write_float("fadeScale", fade_scale);
+			w.write_bool("renderLightning", render_lightning);
+			w.write_bool("isRaining", is_raining);
+			w.write_int("rainCtr", rain_ctr);
 		}
 	}
 } // namespace zenkit
diff --git a/src/vobs/Sound.cc b/src/vobs/Sound.cc
index d0e0712..10cc203 100644
--- a/src/vobs/Sound.cc
+++ b/src/vobs/Sound.cc
@@ -32,15 +32,15 @@ namespace zenkit {
 	void VSound::save(WriteArchive& w, GameVersion version) const {
 		VirtualObject::save(w, version);
 		w.write_float("sndVolume", this->volume);
-		w.write_enum("sndVolume", static_cast<std::uint32_t>(this->mode));
-		w.write_float("sndVolume", this->random_delay);
-		w.write_float("sndVolume", this->random_delay_var);
-		w.write_bool("sndVolume", this->initially_playing);
-		w.write_bool("sndVolume", this->ambient3d);
-		w.write_bool("sndVolume", this->obstruction);
-		w.write_float("sndVolume", this->cone_angle);
-		w.write_enum("sndVolume", static_cast<std::uint32_t>(this->volume_type));
-		w.write_float("sndVolume", this->radius);
+		w.write_enum("sndMode", static_cast<std::uint32_t>(this->mode));
+		w.write_float("sndRandDelay", this->random_delay);
+		w.write_float("sndRandDelayVar", this->random_delay_var);
+		w.write_bool("sndStartOn", this->initially_playing);
+		w.write_bool("sndAmbient3D", this->ambient3d);
+		w.write_bool("sndObstruction", this->obstruction);
+		w.write_float("sndConeAngle", this->cone_angle);
+		w.write_enum("sndVolType", static_cast<std::uint32_t>(this->volume_type));
+		w.write_float("sndRadius", this->radius);
 		w.write_string("sndName", this->sound_name);
 
 		if (w.is_save_game()) {
diff --git a/src/vobs/Trigger.cc b/src/vobs/Trigger.cc
index 23f9c29..f3fd073 100644
--- a/src/vobs/Trigger.cc
+++ b/src/vobs/Trigger.cc
@@ -46,8 +46,16 @@ namespace zenkit {
 	void VTrigger::save(WriteArchive& w, GameVersion version) const {
 		VirtualObject::save(w, version);
 		w.write_string("triggerTarget", this->target);
-		w.write_raw("flags", reinterpret_cast<std::byte const*>(&this->flags), 1);
-		w.write_raw("filterFlags", reinterpret_cast<std::byte const*>(&this->filter_flags), 1);
+
+		// Keep the bits we don't know.
+		auto const flag_bits = static_cast<std::byte>((this->flags & ~5) | this->start_enabled << 0 | this->send_untrigger << 2);
+		auto const filter_bits =
+		    static_cast<std::byte>((this->filter_flags & ~63) | this->react_to_on_trigger << 0 |
+		                           this->react_to_on_touch << 1 | this->react_to_on_damage << 2 |
+		                           this->respond_to_object << 3 | this->respond_to_pc << 4 | this->respond_to_npc << 5);
+
+		w.write_raw("flags", &flag_bits, 1);
+		w.write_raw("filterFlags", &filter_bits, 1);
 		w.write_string("respondToVobName", this->vob_target);
 		w.write_int("numCanBeActivated", this->max_activation_count);
 		w.write_float("retriggerWaitSec", this->retrigger_delay_sec);
@@ -135,9 +143,9 @@ namespace zenkit {
 	void VMover::save(WriteArchive& w, GameVersion version) const {
 		VTrigger::save(w, version);
 		w.write_enum("moverBehavior", static_cast<std::uint32_t>(this->behavior));
-		w.write_float("autoLinkEnabled", this->touch_blocker_damage);
-		w.write_float("autoLinkEnabled", this->stay_open_time_sec);
-		w.write_bool("autoLinkEnabled", this->locked);
+		w.write_float("touchBlockerDamage", this->touch_blocker_damage);
+		w.write_float("stayOpenTimeSec", this->stay_open_time_sec);
+		w.write_bool("moverLocked", this->locked);
 		w.write_bool("autoLinkEnabled", this->auto_link);
 
 		if (version == GameVersion::GOTHIC_2) {
@@ -220,7 +228,7 @@ namespace zenkit {
 		w.write_enum("listProcess", static_cast<std::uint32_t>(this->mode));
 
 		w.write_byte("numTargets", this->targets.size());
-		for (auto i = 0u; i < this->targets.size(); ++i) {
+		for (auto i = 0u; i < (this->targets.size() & 0xffu); ++i) {
 			w.write_string("triggerTarget" + std::to_string(i), targets[i].name);
 			w.write_float("fireDelay" + std::to_string(i), targets[i].delay);
 		}
-- 
2.43.0


From 02afa2ac1fefe41e82bace986ff40a25452fdd7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:14 +0000
Subject: [PATCH 036/116] fix: save code masters in Gothic II save-games

---
 src/vobs/Misc.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/vobs/Misc.cc b/src/vobs/Misc.cc
index c711191..d51e4fd 100644
--- a/src/vobs/Misc.cc
+++ b/src/vobs/Misc.cc
@@ -161,7 +161,12 @@ namespace zenkit {
 		}
 
 		if (w.is_save_game() && version == GameVersion::GOTHIC_2) {
-			// FIXME: This is not implemented because its behavior is unknown.
+			w.write_byte("numSlavesTriggered", this->s_num_triggered_slaves);
+
+			for (auto i = 0u; i < (this->slaves.size() & 0xffu); ++i) {
+				// FIXME: The actual objects are not known.
+				w.write_object("slaveTriggered" + std::to_string(i), nullptr, version);
+			}
 		}
 	}
 
-- 
2.43.0


From 195d4bf062d68d342e51ba219487b83ad5067ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:14 +0000
Subject: [PATCH 037/116] fix: packed inventories of NPCs and missing items

---
 src/vobs/Misc.cc | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/vobs/Misc.cc b/src/vobs/Misc.cc
index d51e4fd..2f6d103 100644
--- a/src/vobs/Misc.cc
+++ b/src/vobs/Misc.cc
@@ -366,13 +366,12 @@ namespace zenkit {
 		} else {
 			auto pack = r.read_string(); // packed
 			auto it = pack.begin();
-			auto idx = 0;
 
-			do {
+			for (auto& i : this->packed) {
 				auto next = std::find(it, pack.end(), ';');
-				this->packed[idx++].assign(it, next);
-				it = next;
-			} while (it != pack.end() && idx < 9);
+				i.assign(it, next);
+				it = next == pack.end() ? next : next + 1;
+			}
 		}
 
 		auto item_count = static_cast<size_t>(r.read_int()); // itemCount
@@ -381,7 +380,7 @@ namespace zenkit {
 		for (auto i = 0u; i < item_count; ++i) {
 			this->items[i] = r.read_object<VItem>(version); // item0
 
-			if ((this->items[i]->s_flags & 0x200) != 0) {
+			if (this->items[i] != nullptr && (this->items[i]->s_flags & 0x200) != 0) {
 				(void) r.read_int(); // shortKey<n> // TODO
 			}
 		}
@@ -543,7 +542,7 @@ namespace zenkit {
 			auto& item = this->items[i];
 			w.write_object("item" + std::to_string(i), item, version);
 
-			if ((item->s_flags & 0x200) != 0) {
+			if (item != nullptr && (item->s_flags & 0x200) != 0) {
 				w.write_int("shortKey" + std::to_string(i), 0); // TODO
 			}
 		}
-- 
2.43.0


From 438fa485190f2f2664da09440a717c13556a4087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:14 +0000
Subject: [PATCH 038/116] fix: cutscene blocks: missing objects and unknown
 names

Looking up a name which is not present returned some other block.
---
 src/CutsceneLibrary.cc | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/CutsceneLibrary.cc b/src/CutsceneLibrary.cc
index 49bd4cd..a381e1e 100644
--- a/src/CutsceneLibrary.cc
+++ b/src/CutsceneLibrary.cc
@@ -53,7 +53,8 @@ namespace zenkit {
 			}
 		}
 
-		return std::get<std::shared_ptr<CutsceneAtomicBlock>>(cur->block)->message;
+		auto const& atomic = std::get<std::shared_ptr<CutsceneAtomicBlock>>(cur->block);
+		return atomic == nullptr ? nullptr : atomic->message;
 	}
 
 	void CutsceneBlock::set_message(std::shared_ptr<ConversationMessageEvent> msg) {
@@ -80,6 +81,10 @@ namespace zenkit {
 		}
 
 		auto blk = r.read_object(version);
+		if (blk == nullptr) {
+			throw ParserError {"CutsceneLibrary", "expected a block but got none for " + this->name};
+		}
+
 		if (blk->get_object_type() == ObjectType::zCCSAtomicBlock) {
 			this->block = std::static_pointer_cast<CutsceneAtomicBlock>(blk);
 		} else if (blk->get_object_type() == ObjectType::zCCSBlock) {
@@ -109,7 +114,7 @@ namespace zenkit {
 			return it->name < n;
 		});
 
-		if (result == this->blocks.end()) {
+		if (result == this->blocks.end() || (*result)->name != name) {
 			return nullptr;
 		}
 
@@ -118,10 +123,15 @@ namespace zenkit {
 
 	void CutsceneLibrary::load(ReadArchive& r, GameVersion version) {
 		auto item_count = r.read_int(); // NumOfItems
-		this->blocks.reserve(static_cast<std::uint64_t>(item_count));
+		this->blocks.clear();
 
 		for (auto i = 0; i < item_count; ++i) {
-			this->blocks.push_back(r.read_object<CutsceneBlock>(version));
+			auto block = r.read_object<CutsceneBlock>(version);
+			if (block == nullptr) {
+				throw ParserError {"CutsceneLibrary", "expected block " + std::to_string(i) + " but got none"};
+			}
+
+			this->blocks.push_back(std::move(block));
 		}
 
 		// Prepare blocks for binary search in block_by_name
-- 
2.43.0


From 6de4e0e047d62bfff82dd3271e651f3ddebe16c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:14 +0000
Subject: [PATCH 039/116] fix: way-nets: missing points and ways from a point
 to itself

---
 src/world/WayNet.cc | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/world/WayNet.cc b/src/world/WayNet.cc
index 1711aaa..c5b5cb9 100644
--- a/src/world/WayNet.cc
+++ b/src/world/WayNet.cc
@@ -6,6 +6,8 @@
 
 #include "../Internal.hh"
 
+#include <unordered_set>
+
 namespace zenkit {
 	void WayPoint::load(ReadArchive& r, GameVersion) {
 		this->name = r.read_string();      // wpName
@@ -26,22 +28,30 @@ namespace zenkit {
 	void WayNet::load(ReadArchive& r, GameVersion version) {
 		[[maybe_unused]] auto ver = r.read_int(); // waynetVersion
 		auto count_points = r.read_int();         // numWaypoints
-		this->points.reserve(count_points);
+		std::unordered_set<WayPoint const*> known {};
 
 		for (auto i = 0; i < count_points; ++i) {
-			this->points.push_back(r.read_object<WayPoint>(version));
-			this->points.back()->free_point = true;
+			auto point = r.read_object<WayPoint>(version);
+			if (point == nullptr) {
+				throw ParserError {"WayNet", "expected a waypoint but got none"};
+			}
+
+			point->free_point = true;
+			known.insert(point.get());
+			this->points.push_back(std::move(point));
 		}
 
 		auto count_edges = r.read_int(); // numWays
-		this->edges.reserve(count_edges);
-
 		for (auto i = 0; i < count_edges; ++i) {
 			auto wayl = r.read_object<WayPoint>(version);
 			auto wayr = r.read_object<WayPoint>(version);
 
-			if (wayl.use_count() < 3) this->points.push_back(wayl);
-			if (wayr.use_count() < 3) this->points.push_back(wayr);
+			if (wayl == nullptr || wayr == nullptr) {
+				throw ParserError {"WayNet", "expected two waypoints for a way but got none"};
+			}
+
+			if (known.insert(wayl.get()).second) this->points.push_back(wayl);
+			if (known.insert(wayr.get()).second) this->points.push_back(wayr);
 
 			this->edges.emplace_back(wayl, wayr);
 		}
-- 
2.43.0


From 938bbc6ae2bceb776cc49ef6c9fd99dcbe40988e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:12 +0000
Subject: [PATCH 040/116] fix: textures with damaged headers

The number of mipmaps and the size of a texture come from the file. They were used
to allocate memory without checking whether that much data exists; loading twice
into one texture mixed the mipmaps of both.
---
 src/Internal.hh     | 27 +++++++++++++++++++++++++++
 src/Texture.cc      | 22 +++++++++++++++-------
 src/addon/texcvt.cc |  7 ++++---
 3 files changed, 46 insertions(+), 10 deletions(-)

diff --git a/src/Internal.hh b/src/Internal.hh
index f64ba71..714cfa8 100644
--- a/src/Internal.hh
+++ b/src/Internal.hh
@@ -1,8 +1,12 @@
 // Copyright © 2023 GothicKit Contributors.
 // SPDX-License-Identifier: MIT
 #pragma once
+#include "zenkit/Error.hh"
 #include "zenkit/Logger.hh"
+#include "zenkit/Stream.hh"
+
 #include <cstdint>
+#include <string>
 
 #ifndef _MSC_VER
 	#define ZKLOGT(...) zenkit::Logger::log(zenkit::LogLevel::TRACE, __VA_ARGS__)
@@ -17,3 +21,26 @@
 	#define ZKLOGW(...) zenkit::Logger::log(zenkit::LogLevel::WARNING, ##__VA_ARGS__)
 	#define ZKLOGE(...) zenkit::Logger::log(zenkit::LogLevel::ERROR, ##__VA_ARGS__)
 #endif
+
+namespace zenkit {
+	/// \brief Checks that the rest of the stream can hold \p count elements.
+	/// \param r The stream the elements will be read from.
+	/// \param name The name of the format being read.
+	/// \param count The number of elements declared by the file.
+	/// \param size The minimum number of bytes every element takes.
+	/// \return \p count
+	/// \throws ParserError if there are too few bytes left in the stream.
+	template <typename T>
+	T check_count(Read* r, char const* name, T count, size_t size) {
+		auto begin = r->tell();
+		r->seek(0, Whence::END);
+		auto left = r->tell() - begin;
+		r->seek(static_cast<ssize_t>(begin), Whence::BEG);
+
+		if (count < T {} || (count != T {} && static_cast<std::uint64_t>(count) > left / size)) {
+			throw ParserError {name, "not enough data for " + std::to_string(count) + " elements"};
+		}
+
+		return count;
+	}
+} // namespace zenkit
diff --git a/src/Texture.cc b/src/Texture.cc
index bc5106c..0f66721 100644
--- a/src/Texture.cc
+++ b/src/Texture.cc
@@ -3,6 +3,8 @@
 #include "zenkit/Texture.hh"
 #include "zenkit/Stream.hh"
 
+#include "Internal.hh"
+
 #include "squish.h"
 
 #include <cstring>
@@ -34,13 +36,13 @@ namespace zenkit {
 
 	/// \brief Calculates the size in bytes of a texture at the given mipmap level.
 	/// \return The size in bytes of a texture at the given mipmap level.
-	std::uint32_t _ztex_mipmap_size(TextureFormat format, std::uint32_t width, std::uint32_t height, uint32_t level) {
-		std::uint32_t x = std::max(1u, width);
-		std::uint32_t y = std::max(1u, height);
+	std::uint64_t _ztex_mipmap_size(TextureFormat format, std::uint32_t width, std::uint32_t height, uint32_t level) {
+		std::uint64_t x = level < 32 ? std::max(1u, width >> level) : 1;
+		std::uint64_t y = level < 32 ? std::max(1u, height >> level) : 1;
 
-		for (uint32_t i = 0; i < level; i++) {
-			if (x > 1) x >>= 1;
-			if (y > 1) y >>= 1;
+		// Avoid overflowing, no texture can be that big.
+		if (x > 0x40000000u || y > 0x40000000u) {
+			throw ParserError {"texture", "texture too large"};
 		}
 
 		switch (format) {
@@ -293,6 +295,12 @@ namespace zenkit {
 		this->_m_reference_width = r->read_uint();
 		this->_m_reference_height = r->read_uint();
 		this->_m_average_color = r->read_uint();
+		this->_m_textures.clear();
+
+		if (_ztex_mipmap_size(this->_m_format, 1, 1, 0) == 0) {
+			throw ParserError {"texture",
+			                   "unknown format: " + std::to_string(static_cast<int32_t>(this->_m_format))};
+		}
 
 		if (this->_m_format == TextureFormat::P8) {
 			for (auto& i : this->_m_palette) {
@@ -309,7 +317,7 @@ namespace zenkit {
 			    _ztex_mipmap_size(this->_m_format, this->_m_width, this->_m_height, static_cast<uint32_t>(level));
 
 			std::vector<std::uint8_t> mipmap;
-			mipmap.resize(size);
+			mipmap.resize(check_count(r, "texture", size, 1));
 			r->read(mipmap.data(), size);
 
 			this->_m_textures.emplace_back(std::move(mipmap));
diff --git a/src/addon/texcvt.cc b/src/addon/texcvt.cc
index 8eab5d7..1078135 100644
--- a/src/addon/texcvt.cc
+++ b/src/addon/texcvt.cc
@@ -8,7 +8,7 @@
 	 ((uint32_t) (uint8_t) (ch3) << 24))
 
 namespace zenkit {
-	extern std::uint32_t _ztex_mipmap_size(TextureFormat, std::uint32_t, std::uint32_t, uint32_t);
+	extern std::uint64_t _ztex_mipmap_size(TextureFormat, std::uint32_t, std::uint32_t, uint32_t);
 
 	enum {
 		DDSD_CAPS = 0x00000001l,
@@ -80,10 +80,11 @@ namespace zenkit {
 		    tex.format() != TextureFormat::DXT3 && tex.format() != TextureFormat::DXT4 &&
 		    tex.format() != TextureFormat::DXT5) {
 			header.dwFlags |= DDSD_PITCH;
-			header.dwPitchOrLinearSize = _ztex_mipmap_size(tex.format(), header.dwWidth, 1, 0);
+			header.dwPitchOrLinearSize = static_cast<uint32_t>(_ztex_mipmap_size(tex.format(), header.dwWidth, 1, 0));
 		} else {
 			header.dwFlags |= DDSD_LINEARSIZE;
-			header.dwPitchOrLinearSize = _ztex_mipmap_size(tex.format(), header.dwWidth, header.dwHeight, 0);
+			header.dwPitchOrLinearSize =
+			    static_cast<uint32_t>(_ztex_mipmap_size(tex.format(), header.dwWidth, header.dwHeight, 0));
 		}
 
 		if (tex.mipmaps() > 1) {
-- 
2.43.0


From ab1319083533a6a68db68bf5d4a40a7d4590acdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:12 +0000
Subject: [PATCH 041/116] fix: size of block-compressed mipmaps

Incomplete blocks at the right and bottom edge are stored as well.
---
 src/Texture.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Texture.cc b/src/Texture.cc
index 0f66721..a367097 100644
--- a/src/Texture.cc
+++ b/src/Texture.cc
@@ -61,12 +61,12 @@ namespace zenkit {
 		case TextureFormat::P8:
 			return x * y;
 		case TextureFormat::DXT1:
-			return std::max(1u, x / 4) * std::max(1u, y / 4) * 8;
+			return ((x + 3) / 4) * ((y + 3) / 4) * 8;
 		case TextureFormat::DXT2:
 		case TextureFormat::DXT3:
 		case TextureFormat::DXT4:
 		case TextureFormat::DXT5:
-			return std::max(1u, x / 4) * std::max(1u, y / 4) * 16;
+			return ((x + 3) / 4) * ((y + 3) / 4) * 16;
 		default:
 			return 0;
 		}
-- 
2.43.0


From 02dc12290d1cc1d48da7f69350aeb71c8969f975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:12 +0000
Subject: [PATCH 042/116] fix: sizes of small mipmaps and access to missing
 ones

Mipmaps are at least one pixel wide and high. Asking for a mipmap which does not exist
terminated the process since the exception could not leave the function.
---
 include/zenkit/Texture.hh | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/zenkit/Texture.hh b/include/zenkit/Texture.hh
index 6b430b9..002f2a7 100644
--- a/include/zenkit/Texture.hh
+++ b/include/zenkit/Texture.hh
@@ -4,6 +4,7 @@
 #include "zenkit/Error.hh"
 #include "zenkit/Library.hh"
 
+#include <algorithm>
 #include <array>
 #include <cstdint>
 #include <vector>
@@ -82,13 +83,13 @@ namespace zenkit {
 		/// \param level The mipmap level to use (beginning from 0).
 		/// \return The width in pixels of the given mipmap level.
 		[[nodiscard]] ZKAPI std::uint32_t mipmap_width(std::uint32_t level) const noexcept {
-			return _m_width >> level;
+			return level < 32 ? std::max(1u, _m_width >> level) : 1u;
 		}
 
 		/// \param level The mipmap level to use (beginning from 0).
 		/// \return The height in pixels of the given mipmap level.
 		[[nodiscard]] ZKAPI std::uint32_t mipmap_height(std::uint32_t level) const noexcept {
-			return _m_height >> level;
+			return level < 32 ? std::max(1u, _m_height >> level) : 1u;
 		}
 
 		/// \return The width of the texture in-engine.
@@ -118,7 +119,7 @@ namespace zenkit {
 
 		/// \param mipmap_level The mipmap level to get.
 		/// \return The texture data at the given mipmap level.
-		[[nodiscard]] ZKAPI std::vector<std::uint8_t> const& data(std::uint32_t mipmap_level = 0) const noexcept {
+		[[nodiscard]] ZKAPI std::vector<std::uint8_t> const& data(std::uint32_t mipmap_level = 0) const {
 			return _m_textures.at(_m_mipmap_count - 1 - mipmap_level);
 		}
 
-- 
2.43.0


From 05f0776e0dc0667cf80fd0b2140db64d51682f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:12 +0000
Subject: [PATCH 043/116] fix: conversion between texture formats

---
 src/Texture.cc | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/src/Texture.cc b/src/Texture.cc
index a367097..4f2dca9 100644
--- a/src/Texture.cc
+++ b/src/Texture.cc
@@ -74,7 +74,7 @@ namespace zenkit {
 
 	std::vector<std::uint8_t> _ztex_to_rgba(uint8_t const* bytes, uint32_t width, uint32_t height, TextureFormat src) {
 		std::vector<std::uint8_t> conv;
-		conv.resize(width * height * 4);
+		conv.resize(static_cast<size_t>(width) * height * 4);
 
 		switch (src) {
 		case TextureFormat::DXT1:
@@ -189,10 +189,10 @@ namespace zenkit {
 		case TextureFormat::B8G8R8A8:
 			conv.resize(width * height * 4);
 			for (auto i = 0u; i < width * height; ++i) {
-				conv[i + 0] = bytes[i + 2];
-				conv[i + 1] = bytes[i + 1];
-				conv[i + 2] = bytes[i + 0];
-				conv[i + 3] = bytes[i + 3];
+				conv[i * 4 + 0] = bytes[i * 4 + 2];
+				conv[i * 4 + 1] = bytes[i * 4 + 1];
+				conv[i * 4 + 2] = bytes[i * 4 + 0];
+				conv[i * 4 + 3] = bytes[i * 4 + 3];
 			}
 
 			break;
@@ -211,10 +211,10 @@ namespace zenkit {
 		case TextureFormat::A8R8G8B8:
 			conv.resize(width * height * 4);
 			for (auto i = 0u; i < width * height; ++i) {
-				conv[i * 4 + 0] = bytes[i * 4 + 1];
-				conv[i * 4 + 1] = bytes[i * 4 + 2];
-				conv[i * 4 + 2] = bytes[i * 4 + 3];
-				conv[i * 4 + 3] = bytes[i * 4 + 0];
+				conv[i * 4 + 0] = bytes[i * 4 + 3];
+				conv[i * 4 + 1] = bytes[i * 4 + 0];
+				conv[i * 4 + 2] = bytes[i * 4 + 1];
+				conv[i * 4 + 3] = bytes[i * 4 + 2];
 			}
 			break;
 		case TextureFormat::B8G8R8:
@@ -238,9 +238,9 @@ namespace zenkit {
 
 			for (std::uint32_t i = 0; i < width * height; ++i) {
 				r5g6b5 rgb {
-				    static_cast<uint8_t>(static_cast<double>(bytes[i * 4 + 0]) / (5. / 8.)),
-				    static_cast<uint8_t>(static_cast<double>(bytes[i * 4 + 1]) / (6. / 8.)),
-				    static_cast<uint8_t>(static_cast<double>(bytes[i * 4 + 2]) / (5. / 8.)),
+				    static_cast<uint16_t>((bytes[i * 4 + 2] * 31 + 127) / 255),
+				    static_cast<uint16_t>((bytes[i * 4 + 1] * 63 + 127) / 255),
+				    static_cast<uint16_t>((bytes[i * 4 + 0] * 31 + 127) / 255),
 				};
 
 				memcpy(conv.data() + i * 2, &rgb, sizeof(rgb));
@@ -248,12 +248,15 @@ namespace zenkit {
 
 			break;
 		case TextureFormat::DXT1:
+			conv.resize(_ztex_mipmap_size(dest, width, height, 0));
 			squish::CompressImage(bytes, static_cast<int>(width), static_cast<int>(height), conv.data(), squish::kDxt1);
 			break;
 		case TextureFormat::DXT3:
+			conv.resize(_ztex_mipmap_size(dest, width, height, 0));
 			squish::CompressImage(bytes, static_cast<int>(width), static_cast<int>(height), conv.data(), squish::kDxt3);
 			break;
 		case TextureFormat::DXT5:
+			conv.resize(_ztex_mipmap_size(dest, width, height, 0));
 			squish::CompressImage(bytes, static_cast<int>(width), static_cast<int>(height), conv.data(), squish::kDxt5);
 			break;
 		default:
@@ -332,7 +335,8 @@ namespace zenkit {
 
 		if (_m_format == TextureFormat::P8) {
 			std::vector<std::uint8_t> conv;
-			for (auto i = 0u; i < width * height; ++i) {
+			conv.resize(map.size() * 4);
+			for (auto i = 0u; i < map.size(); ++i) {
 				auto palentry = _m_palette[map[i]];
 				conv[i * 4 + 0] = palentry.r;
 				conv[i * 4 + 1] = palentry.g;
-- 
2.43.0


From 9cb9e244c46a82e74b17f516f8a7e6feae4440a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:12 +0000
Subject: [PATCH 044/116] fix: order of mipmaps in built textures

---
 src/Texture.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Texture.cc b/src/Texture.cc
index 4f2dca9..8057fd8 100644
--- a/src/Texture.cc
+++ b/src/Texture.cc
@@ -400,9 +400,11 @@ namespace zenkit {
 		tex._m_mipmap_count = _m_mipmaps.size();
 		tex._m_average_color = {}; // FIXME(lmichaelis): Calculate the average color
 
-		for (auto i = 0u; i < _m_mipmaps.size(); ++i) {
+		// Lowest mipmap-level first
+		for (auto i = static_cast<uint32_t>(_m_mipmaps.size()); i-- > 0;) {
 			auto& [data, fmt] = _m_mipmaps[i];
-			tex._m_textures.push_back(_ztex_convert_format(data.data(), _m_width >> i, _m_height >> i, fmt, format));
+			tex._m_textures.push_back(
+			    _ztex_convert_format(data.data(), tex.mipmap_width(i), tex.mipmap_height(i), fmt, format));
 		}
 
 		return tex;
-- 
2.43.0


From 115faac11cb123384e136b163cbbab632b9f4d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:12 +0000
Subject: [PATCH 045/116] fix: channel masks of exported DDS textures

The masks apply to little-endian numbers; they described other channels than those
the same texture decodes to.
---
 src/Texture.cc      |  2 +-
 src/addon/texcvt.cc | 41 +++++++++++++++++++++--------------------
 2 files changed, 22 insertions(+), 21 deletions(-)

diff --git a/src/Texture.cc b/src/Texture.cc
index 8057fd8..79e89b9 100644
--- a/src/Texture.cc
+++ b/src/Texture.cc
@@ -379,7 +379,7 @@ namespace zenkit {
 	TextureBuilder& TextureBuilder::add_mipmap(std::vector<uint8_t> bytes, TextureFormat format) {
 		auto expected_size = _ztex_mipmap_size(format, _m_width, _m_height, _m_mipmaps.size());
 		if (bytes.size() != expected_size) {
-			throw InvalidMipmapSize {expected_size, bytes.size()};
+			throw InvalidMipmapSize {static_cast<uint32_t>(expected_size), bytes.size()};
 		}
 
 		_m_mipmaps.emplace_back(std::move(bytes), format);
diff --git a/src/addon/texcvt.cc b/src/addon/texcvt.cc
index 1078135..fe13e6a 100644
--- a/src/addon/texcvt.cc
+++ b/src/addon/texcvt.cc
@@ -98,20 +98,12 @@ namespace zenkit {
 		case TextureFormat::B8G8R8A8:
 			header.ddpfPixelFormat.dwFlags = DDPF_RGB | DDPF_ALPHAPIXELS;
 			header.ddpfPixelFormat.dwRGBBitCount = 32;
-			header.ddpfPixelFormat.dwRBitMask = 0x0000FF00;
-			header.ddpfPixelFormat.dwGBitMask = 0x00FF0000;
-			header.ddpfPixelFormat.dwBBitMask = 0xFF000000;
-			header.ddpfPixelFormat.dwRGBAlphaBitMask = 0x000000FF;
+			header.ddpfPixelFormat.dwRBitMask = 0x00FF0000;
+			header.ddpfPixelFormat.dwGBitMask = 0x0000FF00;
+			header.ddpfPixelFormat.dwBBitMask = 0x000000FF;
+			header.ddpfPixelFormat.dwRGBAlphaBitMask = 0xFF000000;
 			break;
 		case TextureFormat::R8G8B8A8:
-			header.ddpfPixelFormat.dwFlags = DDPF_RGB | DDPF_ALPHAPIXELS;
-			header.ddpfPixelFormat.dwRGBBitCount = 32;
-			header.ddpfPixelFormat.dwRBitMask = 0xFF000000;
-			header.ddpfPixelFormat.dwGBitMask = 0x00FF0000;
-			header.ddpfPixelFormat.dwBBitMask = 0x0000FF00;
-			header.ddpfPixelFormat.dwRGBAlphaBitMask = 0x000000FF;
-			break;
-		case TextureFormat::A8B8G8R8:
 			header.ddpfPixelFormat.dwFlags = DDPF_RGB | DDPF_ALPHAPIXELS;
 			header.ddpfPixelFormat.dwRGBBitCount = 32;
 			header.ddpfPixelFormat.dwRBitMask = 0x000000FF;
@@ -119,27 +111,35 @@ namespace zenkit {
 			header.ddpfPixelFormat.dwBBitMask = 0x00FF0000;
 			header.ddpfPixelFormat.dwRGBAlphaBitMask = 0xFF000000;
 			break;
+		case TextureFormat::A8B8G8R8:
+			header.ddpfPixelFormat.dwFlags = DDPF_RGB | DDPF_ALPHAPIXELS;
+			header.ddpfPixelFormat.dwRGBBitCount = 32;
+			header.ddpfPixelFormat.dwRBitMask = 0xFF000000;
+			header.ddpfPixelFormat.dwGBitMask = 0x00FF0000;
+			header.ddpfPixelFormat.dwBBitMask = 0x0000FF00;
+			header.ddpfPixelFormat.dwRGBAlphaBitMask = 0x000000FF;
+			break;
 		case TextureFormat::A8R8G8B8:
 			header.ddpfPixelFormat.dwFlags = DDPF_RGB | DDPF_ALPHAPIXELS;
 			header.ddpfPixelFormat.dwRGBBitCount = 32;
-			header.ddpfPixelFormat.dwRBitMask = 0x00FF0000;
-			header.ddpfPixelFormat.dwGBitMask = 0x0000FF00;
-			header.ddpfPixelFormat.dwBBitMask = 0x000000FF;
-			header.ddpfPixelFormat.dwRGBAlphaBitMask = 0xFF000000;
+			header.ddpfPixelFormat.dwRBitMask = 0x0000FF00;
+			header.ddpfPixelFormat.dwGBitMask = 0x00FF0000;
+			header.ddpfPixelFormat.dwBBitMask = 0xFF000000;
+			header.ddpfPixelFormat.dwRGBAlphaBitMask = 0x000000FF;
 			break;
 		case TextureFormat::B8G8R8:
 			header.ddpfPixelFormat.dwFlags = DDPF_RGB;
 			header.ddpfPixelFormat.dwRGBBitCount = 24;
-			header.ddpfPixelFormat.dwRBitMask = 0x000000FF;
+			header.ddpfPixelFormat.dwRBitMask = 0x00FF0000;
 			header.ddpfPixelFormat.dwGBitMask = 0x0000FF00;
-			header.ddpfPixelFormat.dwBBitMask = 0x00FF0000;
+			header.ddpfPixelFormat.dwBBitMask = 0x000000FF;
 			break;
 		case TextureFormat::R8G8B8:
 			header.ddpfPixelFormat.dwFlags = DDPF_RGB;
 			header.ddpfPixelFormat.dwRGBBitCount = 24;
-			header.ddpfPixelFormat.dwRBitMask = 0x00FF0000;
+			header.ddpfPixelFormat.dwRBitMask = 0x000000FF;
 			header.ddpfPixelFormat.dwGBitMask = 0x0000FF00;
-			header.ddpfPixelFormat.dwBBitMask = 0x000000FF;
+			header.ddpfPixelFormat.dwBBitMask = 0x00FF0000;
 			break;
 		case TextureFormat::A4R4G4B4:
 			header.ddpfPixelFormat.dwFlags = DDPF_RGB | DDPF_ALPHAPIXELS;
@@ -166,6 +166,7 @@ namespace zenkit {
 			break;
 		case TextureFormat::P8:
 			header.ddpfPixelFormat.dwFlags = DDPF_PALETTEINDEXED8;
+			header.ddpfPixelFormat.dwRGBBitCount = 8;
 			break;
 		case TextureFormat::DXT1:
 			header.ddpfPixelFormat.dwFlags = DDPF_FOURCC;
-- 
2.43.0


From 010a6422d54b878eaa1271b70b72519ff0708720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:00 +0000
Subject: [PATCH 046/116] fix: spawn flags in saved worlds

---
 src/World.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/World.cc b/src/World.cc
index 4525f7f..6f2b452 100644
--- a/src/World.cc
+++ b/src/World.cc
@@ -241,7 +241,7 @@ namespace zenkit {
 			w.write_bool("spawningEnabled", this->npc_spawn_enabled);
 
 			if (version == GameVersion::GOTHIC_2) {
-				w.write_bool("spawnFlags", this->npc_spawn_flags);
+				w.write_int("spawnFlags", this->npc_spawn_flags);
 			}
 		}
 	}
-- 
2.43.0


From 31911a8f57adcd5bb05910aa16041c2e6aeeb57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:00 +0000
Subject: [PATCH 047/116] fix: damaged worlds

The counts in a world and the nesting of its VObs come from the file. Truncated worlds made the
loader look for the end of the mesh forever.
---
 src/World.cc         | 12 +++++++-----
 src/world/VobTree.cc | 37 +++++++++++++++++++++++++------------
 2 files changed, 32 insertions(+), 17 deletions(-)

diff --git a/src/World.cc b/src/World.cc
index 6f2b452..311c47e 100644
--- a/src/World.cc
+++ b/src/World.cc
@@ -31,7 +31,9 @@ namespace zenkit {
 		archive->read_object_begin(chnk);
 
 		while (!archive->read_object_end()) {
-			archive->read_object_begin(chnk);
+			if (!archive->read_object_begin(chnk)) {
+				throw ParserError {"World", "Failed to load zCWorld: expected object, got field!"};
+			}
 
 			if (chnk.object_name == "MeshAndBsp") {
 				auto bsp_version = buf->read_uint();
@@ -98,7 +100,7 @@ namespace zenkit {
 				do {
 					chunk_type = raw->read_ushort();
 					raw->seek(raw->read_uint(), Whence::CUR);
-				} while (chunk_type != 0xB060);
+				} while (chunk_type != 0xB060 && !raw->eof());
 
 				auto is_xzen = r.get_header().user == "XZEN";
 				if (is_xzen) {
@@ -113,7 +115,7 @@ namespace zenkit {
 
 				raw->seek(static_cast<ssize_t>(end), Whence::BEG);
 			} else if (hdr.object_name == "VobTree") {
-				auto count = r.read_int(); // childs0
+				auto count = check_count(r.get_stream(), "World", r.read_int(), 1); // childs0
 				for (auto i = 0; i < count; ++i) {
 					auto child = parse_vob_tree(r, version);
 
@@ -150,14 +152,14 @@ namespace zenkit {
 		if (r.is_save_game()) {
 			// Then, read all the NPCs
 			auto npc_count = r.read_int(); // npcCount
-			this->npcs.resize(npc_count);
+			this->npcs.resize(check_count(r.get_stream(), "World", npc_count, 1));
 			for (auto i = 0; i < npc_count; ++i) {
 				this->npcs[i] = r.read_object<VNpc>(version);
 			}
 
 			// After that, read all NPC spawn locations
 			auto npc_spawn_count = r.read_int(); // NoOfEntries
-			this->npc_spawns.resize(npc_spawn_count);
+			this->npc_spawns.resize(check_count(r.get_stream(), "World", npc_spawn_count, 1));
 
 			for (auto& spawn : this->npc_spawns) {
 				spawn.npc = r.read_object<VNpc>(version); // npc
diff --git a/src/world/VobTree.cc b/src/world/VobTree.cc
index 37134c9..fbd94a3 100644
--- a/src/world/VobTree.cc
+++ b/src/world/VobTree.cc
@@ -4,36 +4,45 @@
 #include "zenkit/Archive.hh"
 #include "zenkit/vobs/VirtualObject.hh"
 
+#include "../Internal.hh"
+
 namespace zenkit {
-	std::shared_ptr<VirtualObject> parse_vob_tree(ReadArchive& in, GameVersion version) {
+	static constexpr auto MAX_VOB_TREE_DEPTH = 1000u;
+
+	static size_t read_child_count(ReadArchive& in, uint32_t depth) {
+		auto count = check_count(in.get_stream(), "VobTree", in.read_int(), 1);
+		if (count != 0 && depth >= MAX_VOB_TREE_DEPTH) {
+			throw ParserError {"VobTree", "nested too deeply"};
+		}
+
+		return static_cast<size_t>(count);
+	}
+
+	static std::shared_ptr<VirtualObject> parse_vob_tree(ReadArchive& in, GameVersion version, uint32_t depth) {
 		auto obj = in.read_object(version);
 		if (obj != nullptr && !is_vobject(obj->get_object_type())) {
 			obj = nullptr;
 		}
 
-		// NOTE(lmichaelis): The NDK does not seem to support `reinterpret_pointer_cast`.
-		std::shared_ptr<VirtualObject> object {obj, reinterpret_cast<VirtualObject*>(obj.get())};
-
-		auto child_count = static_cast<size_t>(in.read_int());
+		auto object = std::dynamic_pointer_cast<VirtualObject>(obj);
+		auto child_count = read_child_count(in, depth);
 		if (object == nullptr) {
-			std::function<void(size_t)> skip;
-			skip = [&skip, &in](size_t count) {
+			std::function<void(size_t, uint32_t)> skip;
+			skip = [&skip, &in](size_t count, uint32_t level) {
 				for (auto i = 0u; i < count; ++i) {
 					in.skip_object(false);
-
-					auto num_children = static_cast<size_t>(in.read_int());
-					skip(num_children);
+					skip(read_child_count(in, level), level + 1);
 				}
 			};
 
-			skip(child_count);
+			skip(child_count, depth + 1);
 			return nullptr;
 		}
 
 		object->children.reserve(child_count);
 
 		for (auto i = 0u; i < child_count; ++i) {
-			auto child = parse_vob_tree(in, version);
+			auto child = parse_vob_tree(in, version, depth + 1);
 			if (child == nullptr) continue;
 
 			object->children.push_back(std::move(child));
@@ -42,6 +51,10 @@ namespace zenkit {
 		return object;
 	}
 
+	std::shared_ptr<VirtualObject> parse_vob_tree(ReadArchive& in, GameVersion version) {
+		return parse_vob_tree(in, version, 0);
+	}
+
 	static void
 	save_vob_tree(WriteArchive& w, GameVersion version, std::shared_ptr<VirtualObject> const& obj, uint32_t& n) {
 		w.write_object(obj, version);
-- 
2.43.0


From d226ca40d55f640fa6a3ff99cdc504023b8ea021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:00 +0000
Subject: [PATCH 048/116] fix: damaged BSP trees

Nodes were written through a reference invalidated by growing the list, polygon
indices were not checked, and the depth of the tree was not limited.
---
 src/world/BspTree.cc | 39 ++++++++++++++++++++++++++++-----------
 1 file changed, 28 insertions(+), 11 deletions(-)

diff --git a/src/world/BspTree.cc b/src/world/BspTree.cc
index d82cf23..567a082 100644
--- a/src/world/BspTree.cc
+++ b/src/world/BspTree.cc
@@ -11,6 +11,8 @@ namespace zenkit {
 	static constexpr auto version_g1 = 0x2090000;
 	[[maybe_unused]] static constexpr auto version_g2 = 0x4090000;
 
+	static constexpr auto MAX_BSP_TREE_DEPTH = 4096u;
+
 	enum class BspChunkType : std::uint16_t {
 		HEADER = 0xC000,
 		POLYGONS = 0xC010,
@@ -25,16 +27,23 @@ namespace zenkit {
 	                             std::vector<std::uint64_t>& indices,
 	                             std::uint32_t version,
 	                             std::int32_t parent_index,
+	                             std::uint32_t depth,
 	                             bool leaf = false) {
+		if (depth > MAX_BSP_TREE_DEPTH) {
+			throw ParserError {"BspTree", "nested too deeply"};
+		}
+
 		std::uint64_t self_index = nodes.size();
+		nodes.emplace_back();
 
-		auto& node = nodes.emplace_back();
+		BspNode node {};
 		node.parent_index = parent_index;
 		node.bbox.load(in);
 		node.polygon_index = in->read_uint();
 		node.polygon_count = in->read_uint();
 
 		if (leaf) {
+			nodes[self_index] = node;
 			indices.push_back(self_index);
 		} else {
 			auto flags = in->read_ubyte();
@@ -49,23 +58,27 @@ namespace zenkit {
 				node.lod = in->read_ubyte(); // "lod-flag"
 			}
 
+			nodes[self_index] = node;
+
 			if ((flags & 0x01) != 0) {
-				node.front_index = static_cast<std::int32_t>(nodes.size());
+				nodes[self_index].front_index = static_cast<std::int32_t>(nodes.size());
 				_parse_bsp_nodes(in,
 				                 nodes,
 				                 indices,
 				                 version,
 				                 static_cast<std::int32_t>(self_index),
+				                 depth + 1,
 				                 (flags & 0x04) != 0);
 			}
 
 			if ((flags & 0x02) != 0) {
-				node.back_index = static_cast<std::int32_t>(nodes.size());
+				nodes[self_index].back_index = static_cast<std::int32_t>(nodes.size());
 				_parse_bsp_nodes(in,
 				                 nodes,
 				                 indices,
 				                 version,
 				                 static_cast<std::int32_t>(self_index),
+				                 depth + 1,
 				                 (flags & 0x08) != 0);
 			}
 		}
@@ -82,7 +95,7 @@ namespace zenkit {
 				this->mode = static_cast<BspTreeType>(c->read_uint());
 				break;
 			case BspChunkType::POLYGONS:
-				this->polygon_indices.resize(c->read_uint());
+				this->polygon_indices.resize(check_count(c, "BspTree", c->read_uint(), 4));
 
 				for (uint32_t& index : this->polygon_indices) {
 					index = c->read_uint();
@@ -92,13 +105,17 @@ namespace zenkit {
 				uint32_t node_count = c->read_uint();
 				uint32_t leaf_count = c->read_uint();
 
-				this->nodes.reserve(node_count);
-				this->leaf_node_indices.reserve(leaf_count);
+				this->nodes.reserve(check_count(c, "BspTree", node_count, 32));
+				this->leaf_node_indices.reserve(check_count(c, "BspTree", leaf_count, 32));
 
-				_parse_bsp_nodes(c, this->nodes, this->leaf_node_indices, version, -1, node_count == 1);
+				_parse_bsp_nodes(c, this->nodes, this->leaf_node_indices, version, -1, 0, node_count == 1);
 
 				for (auto idx : this->leaf_node_indices) {
 					auto& node = this->nodes[idx];
+					if (node.polygon_index > this->polygon_indices.size() ||
+					    node.polygon_count > this->polygon_indices.size() - node.polygon_index) {
+						throw ParserError {"BspTree", "leaf refers to polygons which do not exist"};
+					}
 
 					for (uint32_t i = 0; i < node.polygon_count; ++i) {
 						this->leaf_polygons.push_back(this->polygon_indices[node.polygon_index + i]);
@@ -116,7 +133,7 @@ namespace zenkit {
 			}
 			case BspChunkType::OUTDOORS: {
 				auto sector_count = c->read_uint();
-				this->sectors.reserve(sector_count);
+				this->sectors.reserve(check_count(c, "BspTree", sector_count, 9));
 
 				for (std::uint32_t i = 0; i < sector_count; ++i) {
 					auto& sector = this->sectors.emplace_back();
@@ -126,8 +143,8 @@ namespace zenkit {
 					auto node_count = c->read_uint();
 					auto polygon_count = c->read_uint();
 
-					sector.node_indices.resize(node_count);
-					sector.portal_polygon_indices.resize(polygon_count);
+					sector.node_indices.resize(check_count(c, "BspTree", node_count, 4));
+					sector.portal_polygon_indices.resize(check_count(c, "BspTree", polygon_count, 4));
 
 					for (std::uint32_t j = 0; j < node_count; ++j) {
 						sector.node_indices[j] = c->read_uint();
@@ -139,7 +156,7 @@ namespace zenkit {
 				}
 
 				auto portal_count = c->read_uint();
-				this->portal_polygon_indices.resize(portal_count);
+				this->portal_polygon_indices.resize(check_count(c, "BspTree", portal_count, 4));
 
 				for (std::uint32_t i = 0; i < portal_count; ++i) {
 					this->portal_polygon_indices[i] = c->read_uint();
-- 
2.43.0


From b46c30dfbd21b9ac1d40f3fa1300871fc0e18b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:00 +0000
Subject: [PATCH 049/116] fix: damaged trees of bounding boxes

---
 src/Boxes.cc | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/src/Boxes.cc b/src/Boxes.cc
index 1e4433a..c01f969 100644
--- a/src/Boxes.cc
+++ b/src/Boxes.cc
@@ -3,6 +3,8 @@
 #include "zenkit/Boxes.hh"
 #include "zenkit/Stream.hh"
 
+#include "Internal.hh"
+
 #include <limits>
 
 namespace zenkit {
@@ -16,17 +18,28 @@ namespace zenkit {
 		w->write_vec3(this->max);
 	}
 
-	void OrientedBoundingBox::load(Read* r) {
-		center = r->read_vec3();
-		axes[0] = r->read_vec3();
-		axes[1] = r->read_vec3();
-		axes[2] = r->read_vec3();
-		half_width = r->read_vec3();
+	static constexpr auto MAX_OBB_TREE_DEPTH = 1000u;
 
-		children.resize(r->read_ushort());
-		for (auto& child : children) {
-			child.load(r);
+	static void load_obb(OrientedBoundingBox& box, Read* r, uint32_t depth) {
+		box.center = r->read_vec3();
+		box.axes[0] = r->read_vec3();
+		box.axes[1] = r->read_vec3();
+		box.axes[2] = r->read_vec3();
+		box.half_width = r->read_vec3();
+
+		auto count = check_count(r, "OrientedBoundingBox", r->read_ushort(), 62);
+		if (count != 0 && depth >= MAX_OBB_TREE_DEPTH) {
+			throw ParserError {"OrientedBoundingBox", "nested too deeply"};
 		}
+
+		box.children.clear();
+		for (auto i = 0; i < count; ++i) {
+			load_obb(box.children.emplace_back(), r, depth + 1);
+		}
+	}
+
+	void OrientedBoundingBox::load(Read* r) {
+		load_obb(*this, r, 0);
 	}
 
 	void OrientedBoundingBox::save(Write* w) const {
-- 
2.43.0


From 806263507a9c404c1846a842ec8e9c9b8f708fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:00 +0000
Subject: [PATCH 050/116] fix: bounding boxes in the negative octants

---
 src/Boxes.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Boxes.cc b/src/Boxes.cc
index c01f969..064900a 100644
--- a/src/Boxes.cc
+++ b/src/Boxes.cc
@@ -70,9 +70,9 @@ namespace zenkit {
 		           std::numeric_limits<float>::max(),
 		           std::numeric_limits<float>::max()};
 
-		box.max = {std::numeric_limits<float>::min(),
-		           std::numeric_limits<float>::min(),
-		           std::numeric_limits<float>::min()};
+		box.max = {std::numeric_limits<float>::lowest(),
+		           std::numeric_limits<float>::lowest(),
+		           std::numeric_limits<float>::lowest()};
 
 		for (auto i : sign) {
 			auto point = center;
-- 
2.43.0


From d3c19300bcc52df7aee60b058b79b6854f6147a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:01 +0000
Subject: [PATCH 051/116] fix: damaged world meshes

---
 src/Mesh.cc | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/Mesh.cc b/src/Mesh.cc
index 0462c4a..163945b 100644
--- a/src/Mesh.cc
+++ b/src/Mesh.cc
@@ -4,6 +4,8 @@
 #include "zenkit/Archive.hh"
 #include "zenkit/Stream.hh"
 
+#include "Internal.hh"
+
 #include <algorithm>
 #include <unordered_set>
 
@@ -55,7 +57,7 @@ namespace zenkit {
 			    case MeshChunkType::MATERIAL: {
 				    auto matreader = ReadArchive::from(c);
 
-				    this->materials.resize(c->read_uint());
+				    this->materials.resize(check_count(c, "Mesh", c->read_uint(), 1));
 				    for (auto& material : this->materials) {
 					    material.load(*matreader);
 				    }
@@ -63,7 +65,7 @@ namespace zenkit {
 				    break;
 			    }
 			    case MeshChunkType::VERTICES:
-				    this->vertices.resize(c->read_uint());
+				    this->vertices.resize(check_count(c, "Mesh", c->read_uint(), 12));
 
 				    for (auto& vertex : this->vertices) {
 					    vertex = c->read_vec3();
@@ -71,7 +73,7 @@ namespace zenkit {
 
 				    break;
 			    case MeshChunkType::FEATURES:
-				    this->features.resize(c->read_uint());
+				    this->features.resize(check_count(c, "Mesh", c->read_uint(), 24));
 
 				    for (auto& feature : this->features) {
 					    feature.texture = c->read_vec2();
@@ -81,9 +83,12 @@ namespace zenkit {
 
 				    break;
 			    case MeshChunkType::POLYGONS: {
-				    auto poly_count = c->read_uint();
+				    auto poly_count = check_count(c, "Mesh", c->read_uint(), 24);
 				    this->geometry.resize(poly_count);
 
+				    this->polygon_vertex_indices.clear();
+				    this->polygon_feature_indices.clear();
+
 				    // At least 3 indices per polygon (triangulated).
 				    this->polygon_vertex_indices.reserve(poly_count * 3);
 				    this->polygon_feature_indices.reserve(poly_count * 3);
@@ -138,7 +143,7 @@ namespace zenkit {
 				    break;
 			    }
 			    case MeshChunkType::LIGHTMAPS_SHARED: {
-				    auto texture_count = c->read_uint();
+				    auto texture_count = check_count(c, "Mesh", c->read_uint(), 36);
 
 				    std::vector<std::shared_ptr<Texture>> lightmap_textures {};
 				    lightmap_textures.resize(texture_count);
@@ -148,12 +153,15 @@ namespace zenkit {
 					    lightmap_textures[i]->load(c);
 				    }
 
-				    auto lightmap_count = c->read_uint();
+				    auto lightmap_count = check_count(c, "Mesh", c->read_uint(), 36);
 				    for (std::uint32_t i = 0; i < lightmap_count; ++i) {
 					    auto origin = c->read_vec3();
 					    auto normal_a = c->read_vec3();
 					    auto normal_b = c->read_vec3();
 					    std::uint32_t texture_index = c->read_uint();
+					    if (texture_index >= lightmap_textures.size()) {
+						    throw ParserError {"Mesh", "lightmap refers to a texture which does not exist"};
+					    }
 
 					    this->lightmaps.emplace_back(
 					        LightMap {lightmap_textures[texture_index], {normal_a, normal_b}, origin});
@@ -162,7 +170,7 @@ namespace zenkit {
 				    break;
 			    }
 			    case MeshChunkType::LIGHTMAPS: {
-				    auto lightmap_count = c->read_uint();
+				    auto lightmap_count = check_count(c, "Mesh", c->read_uint(), 36);
 
 				    for (std::uint32_t i = 0; i < lightmap_count; ++i) {
 					    auto origin = c->read_vec3();
-- 
2.43.0


From 128c672cb7b8ca7d7203a3f0049899f3cbdce5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:01 +0000
Subject: [PATCH 052/116] fix: main axis of Gothic 1 polygons

The second bit was merged with the first on loading and written to an unused bit on saving.
---
 src/Mesh.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Mesh.cc b/src/Mesh.cc
index 163945b..0cee051 100644
--- a/src/Mesh.cc
+++ b/src/Mesh.cc
@@ -122,7 +122,7 @@ namespace zenkit {
 						    pflags.is_lod = (flags1 & 0b00010000) >> 4;
 						    pflags.is_outdoor = (flags1 & 0b00100000) >> 5;
 						    pflags.is_ghost_occluder = (flags1 & 0b01000000) >> 6;
-						    pflags.normal_axis = ((flags1 & 0b10000000) >> 7) | (flags2 & 0b00000001);
+						    pflags.normal_axis = ((flags1 & 0b10000000) >> 7) | ((flags2 & 0b00000001) << 1);
 						    pflags.sector_index = c->read_short();
 					    }
 
@@ -326,7 +326,7 @@ namespace zenkit {
 					               ((flags.is_sector & 1) << 3) | ((flags.is_lod & 1) << 4) |
 					               ((flags.is_outdoor & 1) << 5) | ((flags.is_ghost_occluder & 1) << 6) |
 					               ((flags.normal_axis & 1) << 7));
-					c->write_ubyte(flags.normal_axis & 2);
+					c->write_ubyte((flags.normal_axis & 2) >> 1);
 					c->write_short(flags.sector_index);
 				}
 
-- 
2.43.0


From da54ef484b7a0806ece7390f80b688ff3e5f7d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:01 +0000
Subject: [PATCH 053/116] fix: polygons of saved Gothic 2 meshes

The vertices were taken from the triangulated list, at offsets of the original one.
---
 src/Mesh.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Mesh.cc b/src/Mesh.cc
index 0cee051..88d5a75 100644
--- a/src/Mesh.cc
+++ b/src/Mesh.cc
@@ -336,8 +336,8 @@ namespace zenkit {
 						c->write_ushort(this->polygon_vertex_indices[poly.index_offset + i]);
 						c->write_uint(this->polygon_feature_indices[poly.index_offset + i]);
 					} else {
-						c->write_uint(this->polygons.vertex_indices[poly.index_offset + i]);
-						c->write_uint(this->polygons.feature_indices[poly.index_offset + i]);
+						c->write_uint(this->polygon_vertex_indices[poly.index_offset + i]);
+						c->write_uint(this->polygon_feature_indices[poly.index_offset + i]);
 					}
 				}
 			}
-- 
2.43.0


From c3cc630881c59d6c4bbb999721764ac4d592d770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:01 +0000
Subject: [PATCH 054/116] fix: order of saved lightmap textures

It depended on where in memory the textures happened to be.
---
 src/Mesh.cc | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/Mesh.cc b/src/Mesh.cc
index 88d5a75..bcfd275 100644
--- a/src/Mesh.cc
+++ b/src/Mesh.cc
@@ -260,18 +260,18 @@ namespace zenkit {
 
 		proto::write_chunk(w, MeshChunkType::LIGHTMAPS_SHARED, [this](Write* c) {
 			std::unordered_map<Texture*, uint32_t> shared_textures {};
+			std::vector<Texture*> textures {};
 
 			for (auto& lightmap : this->lightmaps) {
 				// Record the shared image with in a separate set.
-				shared_textures.try_emplace(lightmap.image.get(), 0);
+				if (shared_textures.try_emplace(lightmap.image.get(), textures.size()).second) {
+					textures.push_back(lightmap.image.get());
+				}
 			}
 
-			c->write_uint(shared_textures.size());
-
-			uint32_t actual_index = 0;
-			for (auto& item : shared_textures) {
-				item.first->save(c);
-				item.second = actual_index++;
+			c->write_uint(textures.size());
+			for (auto* texture : textures) {
+				texture->save(c);
 			}
 
 			c->write_uint(this->lightmaps.size());
-- 
2.43.0


From 55ce14fe030577687d7fb407a6609becc4e1074f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:49 +0000
Subject: [PATCH 055/116] fix: chunks longer than the file

The cursor stayed behind the header of the chunk, the content of which was then read as
chunks.
---
 include/zenkit/Stream.hh | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/zenkit/Stream.hh b/include/zenkit/Stream.hh
index 65130b4..6779783 100644
--- a/include/zenkit/Stream.hh
+++ b/include/zenkit/Stream.hh
@@ -171,6 +171,11 @@ namespace zenkit {
 				// Make sure we always place the cursor at the position of the next chunk.
 				r->seek(static_cast<ssize_t>(target), Whence::BEG);
 
+				// A section which claims to be longer than the file is the last one.
+				if (r->tell() != target) {
+					r->seek(0, Whence::END);
+				}
+
 				if (done) {
 					break;
 				}
@@ -198,13 +203,18 @@ namespace zenkit {
 					Logger::log(LogLevel::ERROR,
 					            name,
 					            "%zu bytes overflowed in section %hx",
-					            target - pos,
+					            pos - target,
 					            static_cast<uint16_t>(type));
 				}
 
 				// Make sure we always place the cursor at the position of the next chunk.
 				r->seek(static_cast<ssize_t>(target), Whence::BEG);
 
+				// A section which claims to be longer than the file is the last one.
+				if (r->tell() != target) {
+					r->seek(0, Whence::END);
+				}
+
 				if (done) {
 					break;
 				}
-- 
2.43.0


From a29b7a23482ac890f60b738ec45306770b51ba8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:34 +0000
Subject: [PATCH 056/116] fix: saving multi-resolution meshes

The sections of a mesh are counted in elements, the content does not include its own length,
and sixteen bytes follow the bounding boxes.
---
 src/MultiResolutionMesh.cc | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/MultiResolutionMesh.cc b/src/MultiResolutionMesh.cc
index e3bed8c..3bb19f9 100644
--- a/src/MultiResolutionMesh.cc
+++ b/src/MultiResolutionMesh.cc
@@ -129,7 +129,7 @@ namespace zenkit {
 
 		auto off_end = static_cast<ssize_t>(w->tell());
 		w->seek(off_size, Whence::BEG);
-		w->write_uint(off_end - off_size);
+		w->write_uint(off_end - static_cast<ssize_t>(off_content));
 		w->seek(off_end, Whence::BEG);
 
 		w->write_ubyte(this->sub_meshes.size());    // submeshCount
@@ -184,8 +184,8 @@ namespace zenkit {
 		this->bbox.save(w);
 		this->obbox.save(w);
 
-		char padding[10] {0};
-		w->write(padding, 10);
+		char padding[0x10] {0};
+		w->write(padding, sizeof padding);
 	}
 
 	void SubMesh::load(Read* r, SubMeshSection const& map) {
@@ -274,7 +274,7 @@ namespace zenkit {
 			w->write_ushort(tri.wedges[1]);
 			w->write_ushort(tri.wedges[2]);
 		}
-		section.triangles.size = w->tell() - section.triangles.offset;
+		section.triangles.size = static_cast<uint32_t>(this->triangles.size());
 
 		// wedges
 		section.wedges.offset = w->tell();
@@ -284,21 +284,21 @@ namespace zenkit {
 			w->write_ushort(wedge.index);
 			w->write_ushort(0); // padding
 		}
-		section.wedges.size = w->tell() - section.wedges.offset;
+		section.wedges.size = static_cast<uint32_t>(this->wedges.size());
 
 		// colors
 		section.colors.offset = w->tell();
 		for (auto color : this->colors) {
 			w->write_float(color);
 		}
-		section.colors.size = w->tell() - section.colors.offset;
+		section.colors.size = static_cast<uint32_t>(this->colors.size());
 
 		// triangle_plane_indices
 		section.triangle_plane_indices.offset = w->tell();
 		for (auto i : this->triangle_plane_indices) {
 			w->write_ushort(i);
 		}
-		section.triangle_plane_indices.size = w->tell() - section.triangle_plane_indices.offset;
+		section.triangle_plane_indices.size = static_cast<uint32_t>(this->triangle_plane_indices.size());
 
 		// triangle_planes
 		section.triangle_planes.offset = w->tell();
@@ -306,7 +306,7 @@ namespace zenkit {
 			w->write_float(plane.distance);
 			w->write_vec3(plane.normal);
 		}
-		section.triangle_planes.size = w->tell() - section.triangle_planes.offset;
+		section.triangle_planes.size = static_cast<uint32_t>(this->triangle_planes.size());
 
 		// triangle_edges
 		section.triangle_edges.offset = w->tell();
@@ -315,7 +315,7 @@ namespace zenkit {
 			w->write_ushort(edge.edges[1]);
 			w->write_ushort(edge.edges[2]);
 		}
-		section.triangle_edges.size = w->tell() - section.triangle_edges.offset;
+		section.triangle_edges.size = static_cast<uint32_t>(this->triangle_edges.size());
 
 		// edges
 		section.edges.offset = w->tell();
@@ -323,21 +323,24 @@ namespace zenkit {
 			w->write_ushort(edge.edges[0]);
 			w->write_ushort(edge.edges[1]);
 		}
-		section.edges.size = w->tell() - section.edges.offset;
+		section.edges.size = static_cast<uint32_t>(this->edges.size());
 
 		// edge_scores
 		section.edge_scores.offset = w->tell();
 		for (auto score : edge_scores) {
 			w->write_float(score);
 		}
-		section.edge_scores.size = w->tell() - section.edge_scores.offset;
+		section.edge_scores.size = static_cast<uint32_t>(this->edge_scores.size());
 
 		// wedge_map
 		section.wedge_map.offset = w->tell();
 		for (auto wedge : this->wedge_map) {
 			w->write_ushort(wedge);
 		}
-		section.wedge_map.size = w->tell() - section.wedge_map.offset;
+		section.wedge_map.size = static_cast<uint32_t>(this->wedge_map.size());
+
+		// vertex_updates
+		section.vertex_updates.offset = w->tell();
 
 		return section;
 	}
-- 
2.43.0


From 104d324b9dc6b8c33395f5dc31ec992d9d5fa775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:34 +0000
Subject: [PATCH 057/116] fix: damaged multi-resolution meshes

---
 src/MultiResolutionMesh.cc | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/MultiResolutionMesh.cc b/src/MultiResolutionMesh.cc
index 3bb19f9..19e71ec 100644
--- a/src/MultiResolutionMesh.cc
+++ b/src/MultiResolutionMesh.cc
@@ -4,6 +4,8 @@
 #include "zenkit/Archive.hh"
 #include "zenkit/Stream.hh"
 
+#include "Internal.hh"
+
 namespace zenkit {
 	[[maybe_unused]] static constexpr auto VERSION_G1 = 0x305;
 	static constexpr auto VERSION_G2 = 0x905;
@@ -77,15 +79,15 @@ namespace zenkit {
 		auto end = r->tell();
 
 		// read positions
-		this->positions.resize(vertices_size);
 		r->seek(static_cast<ssize_t>(vertices_offset), Whence::BEG);
+		this->positions.resize(check_count(r, "MultiResolutionMesh", vertices_size, 12));
 		for (auto& pos : this->positions) {
 			pos = r->read_vec3();
 		}
 
 		// read normals
-		this->normals.resize(normals_size);
 		r->seek(static_cast<ssize_t>(normals_offset), Whence::BEG);
+		this->normals.resize(check_count(r, "MultiResolutionMesh", normals_size, 12));
 		for (auto& normal : this->normals) {
 			normal = r->read_vec3();
 		}
@@ -97,7 +99,7 @@ namespace zenkit {
 			this->sub_meshes[i].mat = this->materials[i];
 		}
 
-		r->seek(static_cast<uint32_t>(end), Whence::BEG);
+		r->seek(static_cast<ssize_t>(end), Whence::BEG);
 	}
 
 	void MultiResolutionMesh::save(Write* w, GameVersion version) const {
@@ -191,14 +193,14 @@ namespace zenkit {
 	void SubMesh::load(Read* r, SubMeshSection const& map) {
 		// triangles
 		r->seek(static_cast<ssize_t>(map.triangles.offset), Whence::BEG);
-		this->triangles.resize(map.triangles.size);
+		this->triangles.resize(check_count(r, "MultiResolutionMesh", map.triangles.size, 6));
 		for (auto i = 0u; i < map.triangles.size; ++i) {
 			this->triangles[i] = {{r->read_ushort(), r->read_ushort(), r->read_ushort()}};
 		}
 
 		// wedges
 		r->seek(static_cast<ssize_t>(map.wedges.offset), Whence::BEG);
-		this->wedges.resize(map.wedges.size);
+		this->wedges.resize(check_count(r, "MultiResolutionMesh", map.wedges.size, 24));
 
 		for (auto i = 0u; i < map.wedges.size; ++i) {
 			this->wedges[i] = {r->read_vec3(), r->read_vec2(), r->read_ushort()};
@@ -209,7 +211,7 @@ namespace zenkit {
 
 		// colors
 		r->seek(static_cast<ssize_t>(map.colors.offset), Whence::BEG);
-		this->colors.resize(map.colors.size);
+		this->colors.resize(check_count(r, "MultiResolutionMesh", map.colors.size, 4));
 
 		for (auto i = 0u; i < map.colors.size; ++i) {
 			this->colors[i] = r->read_float();
@@ -217,7 +219,7 @@ namespace zenkit {
 
 		// triangle_plane_indices
 		r->seek(static_cast<ssize_t>(map.triangle_plane_indices.offset), Whence::BEG);
-		this->triangle_plane_indices.resize(map.triangle_plane_indices.size);
+		this->triangle_plane_indices.resize(check_count(r, "MultiResolutionMesh", map.triangle_plane_indices.size, 2));
 
 		for (auto i = 0u; i < map.triangle_plane_indices.size; ++i) {
 			this->triangle_plane_indices[i] = r->read_ushort();
@@ -225,7 +227,7 @@ namespace zenkit {
 
 		// triangle_planes
 		r->seek(static_cast<ssize_t>(map.triangle_planes.offset), Whence::BEG);
-		this->triangle_planes.resize(map.triangle_planes.size);
+		this->triangle_planes.resize(check_count(r, "MultiResolutionMesh", map.triangle_planes.size, 16));
 
 		for (auto i = 0u; i < map.triangle_planes.size; ++i) {
 			this->triangle_planes[i] = {r->read_float(), r->read_vec3()};
@@ -233,7 +235,7 @@ namespace zenkit {
 
 		// triangle_edges
 		r->seek(static_cast<ssize_t>(map.triangle_edges.offset), Whence::BEG);
-		this->triangle_edges.resize(map.triangle_edges.size);
+		this->triangle_edges.resize(check_count(r, "MultiResolutionMesh", map.triangle_edges.size, 6));
 
 		for (auto i = 0u; i < map.triangle_edges.size; ++i) {
 			this->triangle_edges[i] = {{r->read_ushort(), r->read_ushort(), r->read_ushort()}};
@@ -241,7 +243,7 @@ namespace zenkit {
 
 		// edges
 		r->seek(static_cast<ssize_t>(map.edges.offset), Whence::BEG);
-		this->edges.resize(map.edges.size);
+		this->edges.resize(check_count(r, "MultiResolutionMesh", map.edges.size, 4));
 
 		for (auto i = 0u; i < map.edges.size; ++i) {
 			this->edges[i] = {{r->read_ushort(), r->read_ushort()}};
@@ -249,7 +251,7 @@ namespace zenkit {
 
 		// edge_scores
 		r->seek(static_cast<ssize_t>(map.edge_scores.offset), Whence::BEG);
-		this->edge_scores.resize(map.edge_scores.size);
+		this->edge_scores.resize(check_count(r, "MultiResolutionMesh", map.edge_scores.size, 4));
 
 		for (auto i = 0u; i < map.edge_scores.size; ++i) {
 			this->edge_scores[i] = r->read_float();
@@ -257,7 +259,7 @@ namespace zenkit {
 
 		// wedge_map
 		r->seek(static_cast<ssize_t>(map.wedge_map.offset), Whence::BEG);
-		this->wedge_map.resize(map.wedge_map.size);
+		this->wedge_map.resize(check_count(r, "MultiResolutionMesh", map.wedge_map.size, 2));
 
 		for (auto i = 0u; i < map.wedge_map.size; ++i) {
 			this->wedge_map[i] = r->read_ushort();
-- 
2.43.0


From cff4accc62b8416f919bc9166f634fbe91a08030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:34 +0000
Subject: [PATCH 058/116] fix: saving soft-skin meshes

The weights were written as a second header, their length included itself.
---
 src/SoftSkinMesh.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/SoftSkinMesh.cc b/src/SoftSkinMesh.cc
index 8612179..80684ca 100644
--- a/src/SoftSkinMesh.cc
+++ b/src/SoftSkinMesh.cc
@@ -88,7 +88,7 @@ namespace zenkit {
 			this->mesh.save_to_section(wr, version);
 		});
 
-		proto::write_chunk(w, SoftSkinMeshChunkType::HEADER, [&](Write* wr) {
+		proto::write_chunk(w, SoftSkinMeshChunkType::NODES, [&](Write* wr) {
 			auto off_size = static_cast<ssize_t>(wr->tell());
 			wr->write_uint(0);
 
@@ -104,7 +104,7 @@ namespace zenkit {
 
 			auto off_end = static_cast<ssize_t>(wr->tell());
 			wr->seek(off_size, Whence::BEG);
-			wr->write_uint(off_end - off_size);
+			wr->write_uint(off_end - off_size - static_cast<ssize_t>(sizeof(uint32_t)));
 			wr->seek(off_end, Whence::BEG);
 
 			wr->write_uint(this->wedge_normals.size());
-- 
2.43.0


From c67950e673c7d689d740e9c2f23dfe3f5381fc48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:34 +0000
Subject: [PATCH 059/116] fix: damaged soft-skin meshes

---
 src/SoftSkinMesh.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/SoftSkinMesh.cc b/src/SoftSkinMesh.cc
index 80684ca..37d1eb9 100644
--- a/src/SoftSkinMesh.cc
+++ b/src/SoftSkinMesh.cc
@@ -33,7 +33,7 @@ namespace zenkit {
 				this->weights.resize(this->mesh.positions.size());
 				for (uint32_t i = 0; i < this->mesh.positions.size(); ++i) {
 					auto count = c->read_uint();
-					this->weights[i].resize(count);
+					this->weights[i].resize(check_count(c, "SoftSkinMesh", count, 17));
 
 					for (std::uint32_t j = 0; j < count; ++j) {
 						auto& weight = this->weights[i][j];
@@ -44,19 +44,19 @@ namespace zenkit {
 				}
 
 				if (c->tell() != weight_buffer_end) {
-					ZKLOGW("SoftSkinMesh", "%zu bytes remaining in weight section", weight_buffer_end - c->tell());
+					ZKLOGW("SoftSkinMesh", "weight section ends at %zu instead of %zu", c->tell(), weight_buffer_end);
 					c->seek(static_cast<ssize_t>(weight_buffer_end), Whence::BEG);
 				}
 
 				// wedge normals
-				this->wedge_normals.resize(c->read_uint());
+				this->wedge_normals.resize(check_count(c, "SoftSkinMesh", c->read_uint(), 16));
 				for (auto& normal : this->wedge_normals) {
 					normal.normal = c->read_vec3();
 					normal.index = c->read_uint();
 				}
 
 				// nodes
-				this->nodes.resize(c->read_ushort());
+				this->nodes.resize(check_count(c, "SoftSkinMesh", c->read_ushort(), 4));
 				for (auto& node : this->nodes) {
 					node = c->read_int();
 				}
-- 
2.43.0


From 8667c221a2eb8d26121e76413aa367f4e89c35a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:34 +0000
Subject: [PATCH 060/116] fix: saving model meshes

Every attachment has a chunk of its own, and the number of soft-skin meshes was missing.
---
 src/ModelMesh.cc | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/ModelMesh.cc b/src/ModelMesh.cc
index 47122c7..f536e38 100644
--- a/src/ModelMesh.cc
+++ b/src/ModelMesh.cc
@@ -90,20 +90,20 @@ namespace zenkit {
 			}
 		});
 
-		proto::write_chunk(w, ModelMeshChunkType::PROTO, [&](Write* wr) {
-			for (auto& [_, v] : this->attachments) {
-				v.save_to_section(wr, version);
-			}
-		});
+		for (auto& [_, v] : this->attachments) {
+			proto::write_chunk(w, ModelMeshChunkType::PROTO, [&](Write* wr) { v.save_to_section(wr, version); });
+		}
 
 		proto::write_chunk(w, ModelMeshChunkType::SOFTSKINS, [&](Write* wr) {
 			wr->write_uint(this->checksum);
-
-			for (auto& msh : this->meshes) {
-				msh.save(wr, version);
-			}
+			wr->write_ushort(static_cast<uint16_t>(this->meshes.size()));
 		});
 
+		// Quirk: the meshes are not embedded within the chunk, see above.
+		for (auto& msh : this->meshes) {
+			msh.save(w, version);
+		}
+
 		proto::write_chunk(w, ModelMeshChunkType::END, [](Write*) {});
 	}
 } // namespace zenkit
-- 
2.43.0


From d046eea18c1a0afdf2f7ffa5092cfeedbb7ee8bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:34 +0000
Subject: [PATCH 061/116] fix: damaged model meshes

---
 src/ModelMesh.cc | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/ModelMesh.cc b/src/ModelMesh.cc
index f536e38..4e20686 100644
--- a/src/ModelMesh.cc
+++ b/src/ModelMesh.cc
@@ -4,6 +4,8 @@
 #include "zenkit/Date.hh"
 #include "zenkit/Stream.hh"
 
+#include "Internal.hh"
+
 namespace zenkit {
 	static constexpr uint32_t VERSION_G1 = 0x04030506;
 	static constexpr uint32_t VERSION_G2 = 0x04030506;
@@ -19,10 +21,11 @@ namespace zenkit {
 
 	void ModelMesh::load(Read* r) {
 		std::vector<std::string> attachment_names {};
+		size_t attachment_count = 0;
 		proto::read_chunked<ModelMeshChunkType>(
 		    r,
 		    "ModelMesh",
-		    [this, &attachment_names](Read* c, ModelMeshChunkType type, size_t& end) {
+		    [this, &attachment_names, &attachment_count](Read* c, ModelMeshChunkType type, size_t& end) {
 			    switch (type) {
 			    case ModelMeshChunkType::HEADER:
 				    (void) /* version = */ c->read_uint();
@@ -36,7 +39,7 @@ namespace zenkit {
 				    break;
 			    }
 			    case ModelMeshChunkType::NODES: {
-				    auto node_count = c->read_ushort();
+				    auto node_count = check_count(c, "ModelMesh", c->read_ushort(), 1);
 
 				    for (std::uint32_t i = 0; i < node_count; ++i) {
 					    attachment_names.push_back(c->read_line(true));
@@ -44,14 +47,18 @@ namespace zenkit {
 				    break;
 			    }
 			    case ModelMeshChunkType::PROTO:
-				    this->attachments[attachment_names[this->attachments.size()]].load_from_section(c);
+				    if (attachment_count >= attachment_names.size()) {
+					    throw ParserError {"ModelMesh", "attachment without a name"};
+				    }
+
+				    this->attachments[attachment_names[attachment_count++]].load_from_section(c);
 				    break;
 			    case ModelMeshChunkType::SOFTSKINS: {
 				    this->checksum = c->read_uint();
 
 				    // Quirk: the meshes are not embedded within the chunk (as in: the stored length does not contain
 				    //        the size of these meshes) so they have to be read directly from `in`.
-				    this->meshes.resize(c->read_ushort());
+				    this->meshes.resize(check_count(c, "ModelMesh", c->read_ushort(), 6));
 				    for (auto& mesh : this->meshes) {
 					    mesh.load(c);
 				    }
-- 
2.43.0


From acbefb74d8bf144005eabb36e00a01e44d6aec63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:34 +0000
Subject: [PATCH 062/116] fix: damaged hierarchies, animations and morph meshes

---
 src/ModelAnimation.cc |  9 ++++++---
 src/ModelHierarchy.cc |  2 +-
 src/MorphMesh.cc      | 11 +++++++----
 3 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/ModelAnimation.cc b/src/ModelAnimation.cc
index 236727b..16e9384 100644
--- a/src/ModelAnimation.cc
+++ b/src/ModelAnimation.cc
@@ -3,6 +3,8 @@
 #include "zenkit/ModelAnimation.hh"
 #include "zenkit/Stream.hh"
 
+#include "Internal.hh"
+
 #include <math.h>
 
 namespace zenkit {
@@ -93,7 +95,7 @@ namespace zenkit {
 				this->next = c->read_line(false);
 				break;
 			case AnimationChunkType::EVENTS:
-				this->events.resize(c->read_uint());
+				this->events.resize(check_count(c, "ModelAnimation", c->read_uint(), 33));
 				for (auto& event : this->events) {
 					event.type = static_cast<AnimationEventType>(c->read_uint());
 					event.frame = c->read_uint();
@@ -114,12 +116,13 @@ namespace zenkit {
 			case AnimationChunkType::SAMPLES:
 				this->checksum = c->read_uint();
 
-				this->node_indices.resize(this->node_count);
+				this->node_indices.resize(check_count(c, "ModelAnimation", this->node_count, 4));
 				for (auto& i : this->node_indices) {
 					i = c->read_uint();
 				}
 
-				this->samples.resize(this->node_count * this->frame_count);
+				this->samples.resize(
+				    check_count(c, "ModelAnimation", static_cast<uint64_t>(this->node_count) * this->frame_count, 12));
 				for (auto& i : this->samples) {
 					i.rotation = read_sample_quaternion(c);
 					i.position = read_sample_position(c, this->sample_position_scale, this->sample_position_min);
diff --git a/src/ModelHierarchy.cc b/src/ModelHierarchy.cc
index 434a9ac..aefbd35 100644
--- a/src/ModelHierarchy.cc
+++ b/src/ModelHierarchy.cc
@@ -23,7 +23,7 @@ namespace zenkit {
 					    ZKLOGW("ModelHierarchy", "Trying to parse ModelHierarchy with unsupported version %d", version);
 				    }
 
-				    this->nodes.resize(c->read_ushort());
+				    this->nodes.resize(check_count(c, "ModelHierarchy", c->read_ushort(), 67));
 				    for (auto& node : this->nodes) {
 					    node.name = c->read_line(false);
 					    node.parent_index = c->read_short();
diff --git a/src/MorphMesh.cc b/src/MorphMesh.cc
index 2e1e15a..47f5520 100644
--- a/src/MorphMesh.cc
+++ b/src/MorphMesh.cc
@@ -3,6 +3,8 @@
 #include "zenkit/MorphMesh.hh"
 #include "zenkit/Stream.hh"
 
+#include "Internal.hh"
+
 namespace zenkit {
 	enum class MorphMeshChunkType : std::uint16_t {
 		SOURCES = 0xE010,
@@ -16,7 +18,7 @@ namespace zenkit {
 		proto::read_chunked<MorphMeshChunkType>(r, "MorphMesh", [this](Read* c, MorphMeshChunkType type) {
 			switch (type) {
 			case MorphMeshChunkType::SOURCES: {
-				auto count = c->read_ushort();
+				auto count = check_count(c, "MorphMesh", c->read_ushort(), 17);
 				this->sources.resize(count);
 
 				for (auto i = 0u; i < count; ++i) {
@@ -41,7 +43,7 @@ namespace zenkit {
 				}
 				break;
 			case MorphMeshChunkType::ANIMATIONS: {
-				auto animation_count = c->read_ushort();
+				auto animation_count = check_count(c, "MorphMesh", c->read_ushort(), 30);
 				this->animations.reserve(animation_count);
 
 				for (int32_t i = 0; i < animation_count; ++i) {
@@ -57,8 +59,9 @@ namespace zenkit {
 					auto vertex_count = c->read_uint();
 					anim.frame_count = c->read_uint();
 
-					anim.vertices.resize(vertex_count);
-					anim.samples.resize(anim.frame_count * vertex_count);
+					anim.vertices.resize(check_count(c, "MorphMesh", vertex_count, 4));
+					anim.samples.resize(
+					    check_count(c, "MorphMesh", static_cast<uint64_t>(anim.frame_count) * vertex_count, 12));
 
 					for (std::uint32_t j = 0; j < vertex_count; ++j) {
 						anim.vertices[j] = c->read_uint();
-- 
2.43.0


From 9bba59903bf4cecbb09a31c5f96814008b7f4ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:34 +0000
Subject: [PATCH 063/116] fix: empty strings in animations, morph meshes and
 model meshes

Skipping white-space after a line swallowed empty lines and the first bytes of the binary data
following it.
---
 src/ModelAnimation.cc | 4 ++--
 src/ModelMesh.cc      | 2 +-
 src/MorphMesh.cc      | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/ModelAnimation.cc b/src/ModelAnimation.cc
index 16e9384..5676085 100644
--- a/src/ModelAnimation.cc
+++ b/src/ModelAnimation.cc
@@ -99,10 +99,10 @@ namespace zenkit {
 				for (auto& event : this->events) {
 					event.type = static_cast<AnimationEventType>(c->read_uint());
 					event.frame = c->read_uint();
-					event.tag = c->read_line(true);
+					event.tag = c->read_line(false);
 
 					for (auto& j : event.content) {
-						j = c->read_line(true);
+						j = c->read_line(false);
 					}
 
 					for (float& value : event.values) {
diff --git a/src/ModelMesh.cc b/src/ModelMesh.cc
index 4e20686..63572cd 100644
--- a/src/ModelMesh.cc
+++ b/src/ModelMesh.cc
@@ -42,7 +42,7 @@ namespace zenkit {
 				    auto node_count = check_count(c, "ModelMesh", c->read_ushort(), 1);
 
 				    for (std::uint32_t i = 0; i < node_count; ++i) {
-					    attachment_names.push_back(c->read_line(true));
+					    attachment_names.push_back(c->read_line(false));
 				    }
 				    break;
 			    }
diff --git a/src/MorphMesh.cc b/src/MorphMesh.cc
index 47f5520..3805758 100644
--- a/src/MorphMesh.cc
+++ b/src/MorphMesh.cc
@@ -23,14 +23,14 @@ namespace zenkit {
 
 				for (auto i = 0u; i < count; ++i) {
 					this->sources[i].file_date.load(c);
-					this->sources[i].file_name = c->read_line(true);
+					this->sources[i].file_name = c->read_line(false);
 				}
 
 				break;
 			}
 			case MorphMeshChunkType::HEADER:
 				/* version = */ (void) c->read_uint();
-				this->name = c->read_line(true);
+				this->name = c->read_line(false);
 				break;
 			case MorphMeshChunkType::PROTO: {
 				this->mesh.load_from_section(c);
-- 
2.43.0


From 488779c77159f966f40ae411cb14099e4f955bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:58 +0000
Subject: [PATCH 064/116] fix: load save-games into used objects

Loading a save-game into an object which already held one appended the
missions and symbol values and kept the old thumbnail.
---
 src/SaveGame.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/SaveGame.cc b/src/SaveGame.cc
index 7327e5a..d5897e5 100644
--- a/src/SaveGame.cc
+++ b/src/SaveGame.cc
@@ -80,6 +80,8 @@ namespace zenkit {
 	}
 
 	void SaveState::load(ReadArchive& r, GameVersion version) {
+		*this = SaveState {};
+
 		this->day = r.read_int();    // day
 		this->hour = r.read_int();   // hour
 		this->minute = r.read_int(); // min
@@ -303,6 +305,8 @@ namespace zenkit {
 		// Load THUMB.SAV
 		{
 			ZKLOGI("SaveGame", "Loading THUMB.SAV");
+			this->thumbnail.reset();
+
 			if (auto file_thumb = find_file_matching(entries, "THUMB.SAV")) {
 				auto r = Read::from(*file_thumb);
 
-- 
2.43.0


From 778940d2fa169eeb9733f05035dc05ac965352e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:58 +0000
Subject: [PATCH 065/116] fix: save-games without metadata

A SAVEINFO.SAV which does not contain an oCSavegameInfo object caused a
null pointer to be dereferenced.
---
 src/SaveGame.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/SaveGame.cc b/src/SaveGame.cc
index d5897e5..82361a4 100644
--- a/src/SaveGame.cc
+++ b/src/SaveGame.cc
@@ -299,7 +299,12 @@ namespace zenkit {
 
 			auto r = Read::from(*file_save_info);
 			auto ar = ReadArchive::from(r.get());
-			this->metadata = *ar->read_object<SaveMetadata>(_m_version);
+			auto info = ar->read_object<SaveMetadata>(_m_version);
+			if (info == nullptr) {
+				throw ParserError {"SaveGame", "SAVEINFO.SAV does not contain save-game metadata"};
+			}
+
+			this->metadata = *info;
 		}
 
 		// Load THUMB.SAV
-- 
2.43.0


From f7feec2ee0a1d7373d29f546928e1648858b3a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:58 +0000
Subject: [PATCH 066/116] fix: save-games without a thumbnail

Saving without a thumbnail wrote an empty THUMB.SAV which then made
loading the save-game fail.
---
 src/SaveGame.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/SaveGame.cc b/src/SaveGame.cc
index 82361a4..2cca1d4 100644
--- a/src/SaveGame.cc
+++ b/src/SaveGame.cc
@@ -312,7 +312,8 @@ namespace zenkit {
 			ZKLOGI("SaveGame", "Loading THUMB.SAV");
 			this->thumbnail.reset();
 
-			if (auto file_thumb = find_file_matching(entries, "THUMB.SAV")) {
+			auto file_thumb = find_file_matching(entries, "THUMB.SAV");
+			if (file_thumb && std::filesystem::file_size(*file_thumb) != 0) {
 				auto r = Read::from(*file_thumb);
 
 				this->thumbnail.emplace();
@@ -357,12 +358,11 @@ namespace zenkit {
 			ar->write_header();
 		}
 
-		{
+		if (this->thumbnail) {
 			auto w = Write::to(path / "THUMB.SAV");
-
-			if (this->thumbnail) {
-				this->thumbnail->save(w.get());
-			}
+			this->thumbnail->save(w.get());
+		} else {
+			std::filesystem::remove(path / "THUMB.SAV");
 		}
 
 		{
-- 
2.43.0


From d6f71c38428c21bbff4a2d2e10dda8cd24d7ce1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:58 +0000
Subject: [PATCH 067/116] fix: saving to the same directory under another name

Saving to the directory a save-game was loaded from, but spelled
differently (e.g. with a trailing slash), deleted all files in it, losing
all other worlds.
---
 src/SaveGame.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/SaveGame.cc b/src/SaveGame.cc
index 2cca1d4..aba895d 100644
--- a/src/SaveGame.cc
+++ b/src/SaveGame.cc
@@ -338,7 +338,8 @@ namespace zenkit {
 
 	void SaveGame::save(std::filesystem::path const& path, World& world, std::string const& world_name) {
 		// Copy over the current save if necessary.
-		if (_m_path != path) {
+		std::error_code ec;
+		if (_m_path != path && !std::filesystem::equivalent(_m_path, path, ec)) {
 			if (std::filesystem::exists(path)) {
 				std::filesystem::remove_all(path);
 			}
-- 
2.43.0


From 7427c689435d156e8e4937e4fd16f119c9277b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:58 +0000
Subject: [PATCH 068/116] fix: saving symbols without values

Gothic 1 stores exactly one value per symbol. Saving a symbol without any
read past the end of its values.
---
 src/SaveGame.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SaveGame.cc b/src/SaveGame.cc
index aba895d..7e05923 100644
--- a/src/SaveGame.cc
+++ b/src/SaveGame.cc
@@ -227,7 +227,7 @@ namespace zenkit {
 
 			// For Gothic II saves, there is additional data stored
 			if (version == GameVersion::GOTHIC_1) {
-				w.write_int("symValue" + iStr, sym.values[0]);
+				w.write_int("symValue" + iStr, sym.values.empty() ? 0 : sym.values[0]);
 			} else {
 				w.write_int("symName" + iStr + "cnt", sym.values.size());
 				for (auto v : sym.values) {
-- 
2.43.0


From bdc8f5382cf8987649bc0df74ad1a4cfb576cf93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:58 +0000
Subject: [PATCH 069/116] fix: damaged save-game state

Counts in damaged save-games were used unchecked to allocate memory and
to iterate.
---
 src/SaveGame.cc | 16 ++++++++--------
 src/World.cc    |  2 +-
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/SaveGame.cc b/src/SaveGame.cc
index 7e05923..066ad4d 100644
--- a/src/SaveGame.cc
+++ b/src/SaveGame.cc
@@ -66,7 +66,7 @@ namespace zenkit {
 	}
 
 	void CutsceneManager::load(ReadArchive& r, GameVersion version) {
-		auto pool_count = r.read_int(); // poolCount
+		auto pool_count = check_count(r.get_stream(), "CutsceneManager", r.read_int(), 1); // poolCount
 		for (auto i = 0; i < pool_count; ++i) {
 			this->pool_items.push_back(r.read_object<CutscenePoolItem>(version));
 		}
@@ -87,7 +87,7 @@ namespace zenkit {
 		this->minute = r.read_int(); // min
 
 		// oCInfoManager {
-		auto entry_count = r.read_int(); // NumOfEntries
+		auto entry_count = check_count(r.get_stream(), "SaveState", r.read_int(), 1); // NumOfEntries
 		this->infos.resize(entry_count);
 		for (auto i = 0; i < entry_count; ++i) {
 			// oCInfo {
@@ -98,7 +98,7 @@ namespace zenkit {
 		// }
 
 		// oCMissionManager {
-		auto mission_count = r.read_int(); // NumOfEntries
+		auto mission_count = check_count(r.get_stream(), "SaveState", r.read_int(), 1); // NumOfEntries
 		for (auto i = 0; i < mission_count; ++i) {
 			// oCMission {
 			auto& mission = this->missions.emplace_back();
@@ -106,7 +106,7 @@ namespace zenkit {
 			mission.id = r.read_int();         // ID
 			mission.available = r.read_bool(); // Av
 
-			auto unknown_count = r.read_int(); // NumInList
+			auto unknown_count = check_count(r.get_stream(), "SaveState", r.read_int(), 1); // NumInList
 			for (auto j = 0; j < unknown_count; ++j) {
 				(void) r.read_int();   // VobIDL
 				(void) r.read_int();   // StatusL
@@ -119,7 +119,7 @@ namespace zenkit {
 		// }
 
 		// oCLogManager {
-		auto topic_count = r.read_int(); // LOGMANAGERTOPICCOUNT
+		auto topic_count = check_count(r.get_stream(), "SaveState", r.read_int(), 1); // LOGMANAGERTOPICCOUNT
 		this->log.resize(topic_count);
 
 		for (auto i = 0; i < topic_count; ++i) {
@@ -128,7 +128,7 @@ namespace zenkit {
 			topic.description = r.read_string();                          // TOPICDESCRIPTION
 			topic.section = static_cast<SaveTopicSection>(r.read_enum()); // TOPICSECTION
 			topic.status = static_cast<SaveTopicStatus>(r.read_enum());   // TOPICSTATUS
-			topic.entries.resize(r.read_int());                           // LOGTOPICENTRYCOUNT
+			topic.entries.resize(check_count(r.get_stream(), "SaveState", r.read_int(), 1)); // LOGTOPICENTRYCOUNT
 
 			// NOTE(lmichaelis): Always the same as `LOGTOPICENTRYCOUNT`.
 			(void) r.read_int(); // LOGMANAGERENTRYCOUNT
@@ -143,7 +143,7 @@ namespace zenkit {
 		this->cutscene_manager = r.read_object<CutsceneManager>(version);
 
 		// zCParser {
-		auto symbol_count = r.read_int(); // numSymbols
+		auto symbol_count = check_count(r.get_stream(), "SaveState", r.read_int(), 1); // numSymbols
 		this->symbols.resize(symbol_count);
 
 		for (SaveSymbolState& sym : this->symbols) {
@@ -153,7 +153,7 @@ namespace zenkit {
 			if (version == GameVersion::GOTHIC_1) {
 				sym.values.push_back(r.read_int()); // symValue0
 			} else {
-				auto value_count = r.read_int(); // symName0cnt
+				auto value_count = check_count(r.get_stream(), "SaveState", r.read_int(), 1); // symName0cnt
 				for (auto j = 0; j < value_count; ++j) {
 					sym.values.push_back(r.read_int()); // symValue0_0
 				}
diff --git a/src/World.cc b/src/World.cc
index 311c47e..235475e 100644
--- a/src/World.cc
+++ b/src/World.cc
@@ -256,7 +256,7 @@ namespace zenkit {
 		this->last_process_day = r.read_int();  // lastProcessDay
 		this->last_process_hour = r.read_int(); // lastProcessHour
 
-		auto play_list_count = r.read_int(); // playListCount
+		auto play_list_count = check_count(r.get_stream(), "CutscenePlayer", r.read_int(), 1); // playListCount
 		for (auto i = 0; i < play_list_count; ++i) {
 			playlists.push_back(r.read_object<CutsceneContext>(version));
 		}
-- 
2.43.0


From 8b7b245f9079d55421e6a19d26ba69c8d21d27f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:37 +0000
Subject: [PATCH 070/116] fix: model scripts which end unexpectedly

The tokenizer looped forever in comments, strings, keywords, numbers and
ignored blocks at the end of the file and backtracked to outdated
positions there. A lone slash at the end of a line also swallowed the next line.
---
 src/ModelScriptDsl.cc | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/ModelScriptDsl.cc b/src/ModelScriptDsl.cc
index 6282087..d8f547a 100644
--- a/src/ModelScriptDsl.cc
+++ b/src/ModelScriptDsl.cc
@@ -30,6 +30,8 @@ namespace zenkit {
 
 	MdsToken MdsTokenizer::next() {
 		_m_value.clear();
+		_m_mark = _m_buffer->tell();
+
 		while (!_m_buffer->eof()) {
 			_m_mark = _m_buffer->tell();
 			auto chr = static_cast<unsigned char>(_m_buffer->read_char());
@@ -49,13 +51,16 @@ namespace zenkit {
 
 			// ignore comments
 			if (chr == '/') {
-				if (_m_buffer->read_char() != '/') {
+				chr = static_cast<unsigned char>(_m_buffer->read_char());
+				if (chr != '/') {
 					WARN_SYNTAX("comments must start with two slashes");
 				}
 
 				// skip everything until the end of the line
-				while (_m_buffer->read_char() != '\n')
+				while (chr != '\n' && !_m_buffer->eof()) {
+					chr = static_cast<unsigned char>(_m_buffer->read_char());
 					_m_column += 1;
+				}
 
 				_m_line += 1;
 				_m_column = 1;
@@ -66,6 +71,8 @@ namespace zenkit {
 			if (std::isalpha(chr) || chr == '*' || chr == '_' || chr == '.') {
 				do {
 					_m_value.push_back(static_cast<char>(chr));
+					if (_m_buffer->eof()) return MdsToken::KEYWORD;
+
 					chr = static_cast<unsigned char>(_m_buffer->read_char());
 					_m_column += 1;
 				} while (std::isalnum(chr) || chr == '_' || chr == '-' || chr == '.');
@@ -79,7 +86,7 @@ namespace zenkit {
 
 			// parse strings
 			if (chr == '"') {
-				chr = static_cast<unsigned char>(_m_buffer->read_char());
+				chr = _m_buffer->eof() ? '\n' : static_cast<unsigned char>(_m_buffer->read_char());
 				_m_column += 1;
 
 				// Modded. Some mods may include `(` and/or `)` in their strings. For this reason we need to handle
@@ -93,12 +100,15 @@ namespace zenkit {
 				while (chr != '"' && chr != '\n') {
 					if (!std::isspace(chr)) prev = chr;
 					_m_value.push_back(static_cast<char>(chr));
-					chr = static_cast<unsigned char>(_m_buffer->read_char());
+					chr = _m_buffer->eof() ? '\n' : static_cast<unsigned char>(_m_buffer->read_char());
 					_m_column += 1;
 				}
 
 				if (chr != '"') {
 					WARN_SYNTAX("String not terminated");
+				}
+
+				if (chr != '"' && !_m_buffer->eof()) {
 					_m_buffer->seek(-1, Whence::CUR);
 					_m_column -= 1;
 				}
@@ -113,6 +123,8 @@ namespace zenkit {
 
 				do {
 					_m_value.push_back(static_cast<char>(chr));
+					if (_m_buffer->eof()) return floating_point ? MdsToken::FLOAT : MdsToken::INTEGER;
+
 					chr = static_cast<unsigned char>(_m_buffer->read_char());
 					_m_column += 1;
 
@@ -121,6 +133,8 @@ namespace zenkit {
 						floating_point = true;
 
 						_m_value.push_back(static_cast<char>(chr));
+						if (_m_buffer->eof()) return MdsToken::FLOAT;
+
 						chr = static_cast<unsigned char>(_m_buffer->read_char());
 						_m_column += 1;
 					}
@@ -156,7 +170,7 @@ namespace zenkit {
 	}
 
 	void MdsTokenizer::next_line() {
-		while (_m_buffer->read_char() != '\n') {}
+		while (!_m_buffer->eof() && _m_buffer->read_char() != '\n') {}
 	}
 
 	void MdsTokenizer::backtrack() {
@@ -410,7 +424,9 @@ namespace zenkit {
 	}
 
 	void MdsParser::ignore_block() {
-		while (this->_m_stream.next() != MdsToken::RBRACE) {}
+		for (auto tok = _m_stream.next(); tok != MdsToken::RBRACE && tok != MdsToken::END_OF_FILE;) {
+			tok = _m_stream.next();
+		}
 	}
 
 	MdsEventTag MdsParser::parse_eventTag() {
-- 
2.43.0


From d5e332ebd4d63769ce4094c98a5bdce12284cc32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:37 +0000
Subject: [PATCH 071/116] fix: parentheses at the end of model script strings

A closing parenthesis was also removed from properly terminated strings,
and for unterminated ones followed by whitespace (such as a carriage
return) the whitespace was removed instead of the parenthesis.
---
 src/ModelScriptDsl.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/ModelScriptDsl.cc b/src/ModelScriptDsl.cc
index d8f547a..84e0779 100644
--- a/src/ModelScriptDsl.cc
+++ b/src/ModelScriptDsl.cc
@@ -96,9 +96,7 @@ namespace zenkit {
 				//			registerMesh ("Some_File Name.ASC"
 				//			registerMesh ("Some_File Name.ASC)
 				//			registerMesh ("Some_File Name.ASC
-				unsigned char prev = '\0';
 				while (chr != '"' && chr != '\n') {
-					if (!std::isspace(chr)) prev = chr;
 					_m_value.push_back(static_cast<char>(chr));
 					chr = _m_buffer->eof() ? '\n' : static_cast<unsigned char>(_m_buffer->read_char());
 					_m_column += 1;
@@ -106,6 +104,12 @@ namespace zenkit {
 
 				if (chr != '"') {
 					WARN_SYNTAX("String not terminated");
+
+					while (!_m_value.empty() && std::isspace(static_cast<unsigned char>(_m_value.back()))) {
+						_m_value.pop_back();
+					}
+
+					if (!_m_value.empty() && _m_value.back() == ')') _m_value.pop_back();
 				}
 
 				if (chr != '"' && !_m_buffer->eof()) {
@@ -113,7 +117,6 @@ namespace zenkit {
 					_m_column -= 1;
 				}
 
-				if (prev == ')') _m_value.pop_back();
 				return MdsToken::STRING;
 			}
 
-- 
2.43.0


From 451b6af64cef6380cc43d9bf072704e234661809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:37 +0000
Subject: [PATCH 072/116] fix: keywords following an aniBlend

Whether a keyword following an aniBlend is its flags or the next statement
was decided case-sensitively, so "AniDisable" was swallowed as flags.
---
 src/ModelScriptDsl.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ModelScriptDsl.cc b/src/ModelScriptDsl.cc
index 84e0779..fe21f06 100644
--- a/src/ModelScriptDsl.cc
+++ b/src/ModelScriptDsl.cc
@@ -251,7 +251,7 @@ namespace zenkit {
 			return std::nullopt;
 		}
 
-		if (kw->find("ani") != std::string::npos || kw->find("model") != std::string::npos) {
+		if (iequals(kw->substr(0, 3), "ani") || iequals(kw->substr(0, 5), "model")) {
 			this->_m_stream.backtrack();
 			return std::nullopt;
 		}
-- 
2.43.0


From 3ca13d888e3ceab13b278d260d9ed36aabcfaaf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:37 +0000
Subject: [PATCH 073/116] fix: frame lists of model script events

Frame lists with trailing whitespace got a duplicate of their last frame,
empty ones got a zero. Non-numeric characters caused an endless loop for
binary scripts.
---
 src/ModelScript.cc | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/ModelScript.cc b/src/ModelScript.cc
index 71907dd..de01d7a 100644
--- a/src/ModelScript.cc
+++ b/src/ModelScript.cc
@@ -133,8 +133,7 @@ namespace zenkit {
 				std::istringstream stream {frames};
 
 				int32_t fr = 0;
-				while (!stream.eof() && !stream.fail()) {
-					stream >> fr;
+				while (stream >> fr) {
 					evt.frames.push_back(fr);
 				}
 				break;
@@ -363,8 +362,7 @@ namespace zenkit {
 					    std::istringstream stream {frames};
 
 					    int32_t frame = 0;
-					    while (!stream.eof()) {
-						    stream >> frame;
+					    while (stream >> frame) {
 						    event.frames.push_back(frame);
 					    }
 					    break;
-- 
2.43.0


From 627cf4ffc9d50ca811e8c14856091436ecc40e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:37 +0000
Subject: [PATCH 074/116] fix: slots of events in model script sources

The slot of DEF_HIT_DIR, DEF_DRAWSOUND, DEF_UNDRAWSOUND,
DEF_REMOVE_MUNITION, DEF_DESTROY_ITEM, DEF_INV_TORCH and DEF_REMOVE_ITEM
was read from binary scripts only.
---
 src/ModelScript.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/ModelScript.cc b/src/ModelScript.cc
index de01d7a..a8a3031 100644
--- a/src/ModelScript.cc
+++ b/src/ModelScript.cc
@@ -122,6 +122,13 @@ namespace zenkit {
 				evt.slot2 = b.value_or("");
 				break;
 			case MdsEventType::HIT_LIMB:
+			case MdsEventType::HIT_DIRECTION:
+			case MdsEventType::SOUND_DRAW:
+			case MdsEventType::SOUND_UNDRAW:
+			case MdsEventType::MUNITION_REMOVE:
+			case MdsEventType::ITEM_DESTROY:
+			case MdsEventType::TORCH_INVENTORY:
+			case MdsEventType::ITEM_REMOVE:
 				evt.slot = a.value_or("");
 				break;
 			case MdsEventType::DAMAGE_MULTIPLIER:
-- 
2.43.0


From 0998f72c9062da5ab8ee1b354e919b078341bdc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:37 +0000
Subject: [PATCH 075/116] fix: options of *eventSFXGrnd in model script sources

The range was not accepted and EMPTY_SLOT was dropped, unlike in binary
scripts and for *eventSFX.
---
 src/ModelScriptDsl.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ModelScriptDsl.cc b/src/ModelScriptDsl.cc
index fe21f06..2d89cd2 100644
--- a/src/ModelScriptDsl.cc
+++ b/src/ModelScriptDsl.cc
@@ -472,8 +472,10 @@ namespace zenkit {
 		MdsSoundEffectGround sfx {};
 		sfx.frame = this->expect_int();
 		sfx.name = this->expect_string();
+		sfx.range = this->maybe_named("R").value_or(1000.0f);
+
 		// NOTE: Fix for mod-specific issues
-		(void) this->maybe_keyword("EMPTY_SLOT");
+		sfx.empty_slot = this->maybe_keyword("EMPTY_SLOT") || this->maybe_keyword("EMTPY_SLOT");
 		return sfx;
 	}
 
-- 
2.43.0


From 5cac10888548617d39821f4600e72fbd53858cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:37 +0000
Subject: [PATCH 076/116] fix: animations without an event block

The closing brace of aniEnum was taken for that of an event block which
was never opened, so everything following the aniEnum block was lost.
---
 src/ModelScriptDsl.cc | 16 ++++++++++++----
 src/ModelScriptDsl.hh |  2 +-
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/ModelScriptDsl.cc b/src/ModelScriptDsl.cc
index 2d89cd2..4c31a5a 100644
--- a/src/ModelScriptDsl.cc
+++ b/src/ModelScriptDsl.cc
@@ -396,9 +396,15 @@ namespace zenkit {
 		}
 	}
 
-	void MdsParser::parse_events(MdsAnimation& ani) {
+	void MdsParser::parse_events(MdsAnimation& ani, bool in_block) {
 		while (!this->eof()) {
-			if (this->maybe<MdsToken::RBRACE>() || this->maybe<MdsToken::END_OF_FILE>()) {
+			// Note: Without a block, the curly brace belongs to the surrounding one.
+			if (this->maybe<MdsToken::RBRACE>()) {
+				if (!in_block) _m_stream.backtrack();
+				break;
+			}
+
+			if (this->maybe<MdsToken::END_OF_FILE>()) {
 				break;
 			}
 
@@ -423,6 +429,8 @@ namespace zenkit {
 				_m_stream.backtrack();
 				break;
 			}
+
+			in_block = true;
 		}
 	}
 
@@ -529,8 +537,8 @@ namespace zenkit {
 
 		// Optional events block.
 		// Note: Due to #122 the curly parens are actually optional
-		this->maybe<MdsToken::LBRACE>();
-		this->parse_events(ani);
+		auto in_block = this->maybe<MdsToken::LBRACE>();
+		this->parse_events(ani, in_block);
 
 		return ani;
 	}
diff --git a/src/ModelScriptDsl.hh b/src/ModelScriptDsl.hh
index 67ec5e6..8d8d430 100644
--- a/src/ModelScriptDsl.hh
+++ b/src/ModelScriptDsl.hh
@@ -52,7 +52,7 @@ namespace zenkit {
 		MdsSkeleton parse_meshAndTree();
 		std::string parse_registerMesh();
 		void parse_aniEnum(ModelScript& into);
-		void parse_events(MdsAnimation& ani);
+		void parse_events(MdsAnimation& ani, bool in_block);
 		void ignore_block();
 		MdsEventTag parse_eventTag();
 		MdsSoundEffect parse_eventSFX();
-- 
2.43.0


From 54b537e58ad7812eec624caa7249bd53c6994677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:37 +0000
Subject: [PATCH 077/116] fix: events before the first animation in model
 scripts

An event chunk not preceded by an animation accessed an invalid element.
---
 src/ModelScript.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ModelScript.cc b/src/ModelScript.cc
index a8a3031..f0ee74c 100644
--- a/src/ModelScript.cc
+++ b/src/ModelScript.cc
@@ -191,6 +191,11 @@ namespace zenkit {
 		    r,
 		    "ModelScript.Binary",
 		    [&script, &ani_index](Read* c, ModelScriptBinaryChunkType type) {
+			    if (script.animations.empty() && type >= ModelScriptBinaryChunkType::EVENT_SFX &&
+			        type <= ModelScriptBinaryChunkType::EVENT_CAMERA_TREMOR) {
+				    throw ParserError {"ModelScript.Binary", "found an event without an animation"};
+			    }
+
 			    switch (type) {
 			    case ModelScriptBinaryChunkType::MESH_AND_TREE: {
 				    MdsSkeleton mat {};
-- 
2.43.0


From e38f09c3a6d172dafffa272df6f4f6e9dacb884c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:56 +0000
Subject: [PATCH 078/116] fix: empty strings in events of binary model scripts

The line following an empty one was skipped, so an event with an empty item
or second slot got parts of the next chunk instead.
---
 src/ModelScript.cc | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/ModelScript.cc b/src/ModelScript.cc
index f0ee74c..3b55c88 100644
--- a/src/ModelScript.cc
+++ b/src/ModelScript.cc
@@ -322,15 +322,15 @@ namespace zenkit {
 				    switch (event.type) {
 				    case MdsEventType::ITEM_CREATE:
 				    case MdsEventType::ITEM_EXCHANGE:
-					    event.slot = c->read_line(true);
-					    event.item = c->read_line(true);
+					    event.slot = c->read_line(false);
+					    event.item = c->read_line(false);
 					    break;
 				    case MdsEventType::ITEM_INSERT:
 				    case MdsEventType::MUNITION_PLACE:
-					    event.slot = c->read_line(true);
+					    event.slot = c->read_line(false);
 					    break;
 				    case MdsEventType::SET_FIGHT_MODE: {
-					    if (auto mode = c->read_line(true); mode == "FIST") {
+					    if (auto mode = c->read_line(false); mode == "FIST") {
 						    event.fight_mode = MdsFightMode::FIST;
 					    } else if (mode == "1H" || mode == "1h") {
 						    event.fight_mode = MdsFightMode::SINGLE_HANDED;
@@ -348,14 +348,14 @@ namespace zenkit {
 					    break;
 				    }
 				    case MdsEventType::MESH_SWAP:
-					    event.slot = c->read_line(true);
-					    event.slot2 = c->read_line(true);
+					    event.slot = c->read_line(false);
+					    event.slot2 = c->read_line(false);
 					    break;
 				    case MdsEventType::HIT_LIMB:
-					    event.slot = c->read_line(true); // TODO
+					    event.slot = c->read_line(false); // TODO
 					    break;
 				    case MdsEventType::HIT_DIRECTION:
-					    event.slot = c->read_line(true); // TODO
+					    event.slot = c->read_line(false); // TODO
 					    break;
 				    case MdsEventType::SOUND_DRAW:
 				    case MdsEventType::SOUND_UNDRAW:
@@ -363,14 +363,14 @@ namespace zenkit {
 				    case MdsEventType::ITEM_DESTROY:
 				    case MdsEventType::TORCH_INVENTORY:
 				    case MdsEventType::ITEM_REMOVE:
-					    event.slot = c->read_line(true); // TODO
+					    event.slot = c->read_line(false); // TODO
 					    break;
 				    case MdsEventType::DAMAGE_MULTIPLIER:
 				    case MdsEventType::PARRY_FRAME:
 				    case MdsEventType::OPTIMAL_FRAME:
 				    case MdsEventType::HIT_END:
 				    case MdsEventType::COMBO_WINDOW: {
-					    auto frames = c->read_line(true);
+					    auto frames = c->read_line(false);
 					    std::istringstream stream {frames};
 
 					    int32_t frame = 0;
-- 
2.43.0


From f4bebd97425d0d29107acb2e076968e1f679fda1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:25 +0000
Subject: [PATCH 079/116] fix: fonts without a name

Whitespace following the version line was skipped, so a font with an empty
name, or one starting with whitespace, could not be loaded correctly after
having been saved.
---
 src/Font.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Font.cc b/src/Font.cc
index 8358089..90a881f 100644
--- a/src/Font.cc
+++ b/src/Font.cc
@@ -13,7 +13,7 @@ namespace zenkit {
 	    : name(std::move(font_name)), height(font_height), glyphs(std::move(font_glyphs)) {}
 
 	void Font::load(Read* r) {
-		if (auto version = r->read_line(true); version != "1") {
+		if (auto version = r->read_line(false); version != "1") {
 			throw ParserError {"Font", "version mismatch: expected version 1, got " + version};
 		}
 
-- 
2.43.0


From 851338927096da1fb490cdbd09d4a53f3ff75db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:25 +0000
Subject: [PATCH 080/116] fix: damaged fonts

The number of glyphs was used unchecked to allocate memory.
---
 src/Font.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Font.cc b/src/Font.cc
index 90a881f..042c25f 100644
--- a/src/Font.cc
+++ b/src/Font.cc
@@ -4,6 +4,8 @@
 #include "zenkit/Error.hh"
 #include "zenkit/Stream.hh"
 
+#include "Internal.hh"
+
 namespace zenkit {
 	bool FontGlyph::operator==(FontGlyph const& g) const noexcept {
 		return this->width == g.width && this->uv[0] == g.uv[0] && this->uv[1] == g.uv[1];
@@ -20,7 +22,7 @@ namespace zenkit {
 		this->name = r->read_line(false);
 		this->height = r->read_uint();
 
-		this->glyphs.resize(r->read_uint());
+		this->glyphs.resize(check_count(r, "Font", r->read_uint(), 17));
 		for (auto& glyph : glyphs) {
 			glyph.width = r->read_ubyte();
 		}
-- 
2.43.0


From 70705a0830b03941eee87fc0cd402b4bbc62765a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:56 +0000
Subject: [PATCH 081/116] fix: damaged compiled scripts

Check the number of symbols and values and the size of the code against the size of the
file, and do not access the code of a script which has not been loaded.
---
 src/DaedalusScript.cc | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/DaedalusScript.cc b/src/DaedalusScript.cc
index f40ae33..ceed902 100644
--- a/src/DaedalusScript.cc
+++ b/src/DaedalusScript.cc
@@ -88,8 +88,13 @@ namespace zenkit {
 	}
 
 	void DaedalusScript::load(Read* r) {
+		this->_m_symbols.clear();
+		this->_m_symbols_by_name.clear();
+		this->_m_symbols_by_address.clear();
+		this->_m_text = nullptr;
+
 		this->_m_version = r->read_ubyte();
-		auto symbol_count = r->read_uint();
+		auto symbol_count = check_count(r, "DaedalusScript", r->read_uint(), sizeof(std::uint32_t));
 
 		this->_m_symbols.resize(symbol_count);
 		this->_m_symbols_by_name.reserve(symbol_count + 1);
@@ -111,7 +116,7 @@ namespace zenkit {
 			}
 		}
 
-		std::uint32_t text_size = r->read_uint();
+		std::uint32_t text_size = check_count(r, "DaedalusScript", r->read_uint(), 1);
 		std::vector code(text_size, std::byte {});
 		r->read(code.data(), text_size);
 
@@ -119,6 +124,8 @@ namespace zenkit {
 	}
 
 	DaedalusInstruction DaedalusScript::instruction_at(std::uint32_t address) const {
+		if (_m_text == nullptr) throw DaedalusScriptError {"no script loaded"};
+
 		_m_text->seek(address, Whence::BEG);
 		return DaedalusInstruction::decode(_m_text.get());
 	}
@@ -279,6 +286,8 @@ namespace zenkit {
 	}
 
 	std::uint32_t DaedalusScript::size() const noexcept {
+		if (_m_text == nullptr) return 0;
+
 		auto off = _m_text->tell();
 		_m_text->seek(0, Whence::END);
 		auto size = _m_text->tell();
@@ -340,18 +349,21 @@ namespace zenkit {
 		if (!this->is_member()) {
 			switch (this->_m_type) {
 			case DaedalusDataType::FLOAT: {
+				check_count(r, "DaedalusSymbol", this->_m_count, sizeof(float));
 				std::unique_ptr<float[]> value {new float[this->_m_count]};
 				r->read(value.get(), this->_m_count * sizeof(float));
 				this->_m_value = std::move(value);
 				break;
 			}
 			case DaedalusDataType::INT: {
+				check_count(r, "DaedalusSymbol", this->_m_count, sizeof(std::int32_t));
 				std::unique_ptr<std::int32_t[]> value {new std::int32_t[this->_m_count]};
 				r->read(value.get(), this->_m_count * sizeof(std::uint32_t));
 				this->_m_value = std::move(value);
 				break;
 			}
 			case DaedalusDataType::STRING: {
+				check_count(r, "DaedalusSymbol", this->_m_count, sizeof(char));
 				std::unique_ptr<std::string[]> value {new std::string[this->_m_count]};
 				for (std::uint32_t i = 0; i < this->_m_count; ++i) {
 					value[i] = r->read_line(false);
-- 
2.43.0


From 97b9fc389ffa2bf2f782cb2213ba5e82fa66531c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:56 +0000
Subject: [PATCH 082/116] fix: parents of constant strings

When the search for the end of an unterminated string does not find anything, the parent has
already been read. Reading it again skips four bytes and breaks all following symbols.
---
 src/DaedalusScript.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/DaedalusScript.cc b/src/DaedalusScript.cc
index ceed902..b913785 100644
--- a/src/DaedalusScript.cc
+++ b/src/DaedalusScript.cc
@@ -415,7 +415,6 @@ namespace zenkit {
 			if (byte == 0) {
 				// We didn't find any match.
 				r->seek(static_cast<ssize_t>(savepoint), Whence::BEG);
-				this->_m_parent = r->read_int();
 				ZKLOGW("DaedalusSymbol", "Heuristic: No valid endpoint found. Aborting search. Issues might arise.");
 			}
 		}
-- 
2.43.0


From 1ee7bd2248f2af018cbd6e0a272fbd981a8cf4b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:56 +0000
Subject: [PATCH 083/116] fix: values of function variables

They were not initialized and only had space for one element, regardless of their count.
---
 src/DaedalusScript.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DaedalusScript.cc b/src/DaedalusScript.cc
index b913785..2af7988 100644
--- a/src/DaedalusScript.cc
+++ b/src/DaedalusScript.cc
@@ -381,7 +381,7 @@ namespace zenkit {
 				break;
 			case DaedalusDataType::FUNCTION:
 				if (!this->is_const()) {
-					this->_m_value = std::unique_ptr<std::int32_t[]>(new int32_t[1]);
+					this->_m_value = std::make_unique<std::int32_t[]>(std::max(this->_m_count, 1U));
 				}
 				this->_m_address = r->read_int();
 				break;
-- 
2.43.0


From 1d60ca8931eca9c4f8856fa8f13005327667e9c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:56 +0000
Subject: [PATCH 084/116] fix: access to the value of functions

Functions do not have a value, so accessing it dereferenced a null pointer.
---
 src/DaedalusScript.cc | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/DaedalusScript.cc b/src/DaedalusScript.cc
index 2af7988..31f9eb6 100644
--- a/src/DaedalusScript.cc
+++ b/src/DaedalusScript.cc
@@ -489,7 +489,13 @@ namespace zenkit {
 			return *get_member_ptr<std::int32_t>(index, context);
 		}
 
-		return std::get<std::unique_ptr<std::int32_t[]>>(_m_value)[index];
+		auto& value = std::get<std::unique_ptr<std::int32_t[]>>(_m_value);
+		if (value == nullptr) {
+			// Constant functions do not have a value.
+			throw DaedalusIllegalTypeAccess(this, DaedalusDataType::INT);
+		}
+
+		return value[index];
 	}
 
 	void DaedalusSymbol::set_string(std::string_view value, std::uint16_t index, DaedalusInstance* context) {
@@ -563,7 +569,13 @@ namespace zenkit {
 
 			*get_member_ptr<std::int32_t>(index, context) = value;
 		} else {
-			std::get<std::unique_ptr<std::int32_t[]>>(_m_value)[index] = value;
+			auto& values = std::get<std::unique_ptr<std::int32_t[]>>(_m_value);
+			if (values == nullptr) {
+				// Constant functions do not have a value.
+				throw DaedalusIllegalTypeAccess(this, DaedalusDataType::INT);
+			}
+
+			values[index] = value;
 		}
 	}
 
-- 
2.43.0


From 784904b70e68fe22d75faf7521f0e9083b38fe9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:56 +0000
Subject: [PATCH 085/116] fix: access to elements of float members

The index was truncated to eight bits.
---
 src/DaedalusScript.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DaedalusScript.cc b/src/DaedalusScript.cc
index 31f9eb6..bdff2c6 100644
--- a/src/DaedalusScript.cc
+++ b/src/DaedalusScript.cc
@@ -462,7 +462,7 @@ namespace zenkit {
 				return reinterpret_cast<DaedalusTransientInstance const&>(*context).get_float(*this, index);
 			}
 
-			return *get_member_ptr<float>(static_cast<uint8_t>(index), context);
+			return *get_member_ptr<float>(index, context);
 		}
 
 		return std::get<std::unique_ptr<float[]>>(_m_value)[index];
-- 
2.43.0


From c29950951b4ea88b74cff8ec67ab16ea48e32be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:56 +0000
Subject: [PATCH 086/116] fix: access to the value of instance members

It raised std::bad_variant_access which is not a script error and can not be handled.
---
 src/DaedalusScript.cc | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/DaedalusScript.cc b/src/DaedalusScript.cc
index bdff2c6..66fe112 100644
--- a/src/DaedalusScript.cc
+++ b/src/DaedalusScript.cc
@@ -584,7 +584,13 @@ namespace zenkit {
 			throw DaedalusIllegalTypeAccess(this, DaedalusDataType::INSTANCE);
 		}
 
-		return std::get<std::shared_ptr<DaedalusInstance>>(_m_value);
+		auto* value = std::get_if<std::shared_ptr<DaedalusInstance>>(&_m_value);
+		if (value == nullptr) {
+			// Members do not have a value of their own.
+			throw DaedalusIllegalTypeAccess(this, DaedalusDataType::INSTANCE);
+		}
+
+		return *value;
 	}
 
 	void DaedalusSymbol::set_instance(std::shared_ptr<DaedalusInstance> const& inst) {
@@ -592,7 +598,13 @@ namespace zenkit {
 			throw DaedalusIllegalTypeAccess(this, DaedalusDataType::INSTANCE);
 		}
 
-		std::get<std::shared_ptr<DaedalusInstance>>(_m_value) = inst;
+		auto* value = std::get_if<std::shared_ptr<DaedalusInstance>>(&_m_value);
+		if (value == nullptr) {
+			// Members do not have a value of their own.
+			throw DaedalusIllegalTypeAccess(this, DaedalusDataType::INSTANCE);
+		}
+
+		*value = inst;
 	}
 
 	void DaedalusSymbol::grow(uint32_t n) {
-- 
2.43.0


From de448a560ce116401596a6eb8f30265d356adac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:56 +0000
Subject: [PATCH 087/116] fix: parameters and locals at the end of the symbol
 table

Local variables at the end of the table were not found and functions with more parameters
than symbols following them resulted in a range outside of the table.
---
 src/DaedalusScript.cc | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/DaedalusScript.cc b/src/DaedalusScript.cc
index 66fe112..f6757cb 100644
--- a/src/DaedalusScript.cc
+++ b/src/DaedalusScript.cc
@@ -200,12 +200,13 @@ namespace zenkit {
 	}
 
 	std::span<DaedalusSymbol> DaedalusScript::find_parameters_for_function(DaedalusSymbol const* parent) {
-		return std::span<DaedalusSymbol>(_m_symbols.begin() + parent->index() + 1,
-		                                 _m_symbols.begin() + parent->index() + parent->count() + 1);
+		auto const first = std::min<size_t>(parent->index() + 1, _m_symbols.size());
+		auto const last = std::min<size_t>(first + parent->count(), _m_symbols.size());
+		return std::span<DaedalusSymbol>(_m_symbols.begin() + first, _m_symbols.begin() + last);
 	}
 
 	std::span<DaedalusSymbol> DaedalusScript::find_locals_for_function(DaedalusSymbol const* parent) {
-		std::uint32_t const first = parent->index() + 1 + parent->count();
+		auto const first = std::min<size_t>(parent->index() + 1 + parent->count(), _m_symbols.size());
 		for (size_t i = first; i < _m_symbols.size(); ++i) {
 			auto& name = _m_symbols[i].name();
 			if (name.find(parent->name()) == 0 && name.size() >= parent->name().size() &&
@@ -214,12 +215,13 @@ namespace zenkit {
 			}
 			return std::span<DaedalusSymbol>(_m_symbols.begin() + first, _m_symbols.begin() + i);
 		}
-		return {};
+		return std::span<DaedalusSymbol>(_m_symbols.begin() + first, _m_symbols.end());
 	}
 
 	std::span<DaedalusSymbol const> DaedalusScript::find_parameters_for_function(DaedalusSymbol const* parent) const {
-		return std::span<DaedalusSymbol const>(_m_symbols.begin() + parent->index() + 1,
-		                                       _m_symbols.begin() + parent->index() + parent->count() + 1);
+		auto const first = std::min<size_t>(parent->index() + 1, _m_symbols.size());
+		auto const last = std::min<size_t>(first + parent->count(), _m_symbols.size());
+		return std::span<DaedalusSymbol const>(_m_symbols.begin() + first, _m_symbols.begin() + last);
 	}
 
 	std::vector<DaedalusSymbol*> DaedalusScript::find_class_members(DaedalusSymbol const& cls) {
-- 
2.43.0


From d11977f9896e5b0d38f65035b544612e4ec6b64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:56 +0000
Subject: [PATCH 088/116] fix: access to classes and instances which have not
 been bound

Both dereferenced a null pointer.
---
 include/zenkit/DaedalusScript.hh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/zenkit/DaedalusScript.hh b/include/zenkit/DaedalusScript.hh
index 1b55f89..2fe2e48 100644
--- a/include/zenkit/DaedalusScript.hh
+++ b/include/zenkit/DaedalusScript.hh
@@ -677,7 +677,7 @@ namespace zenkit {
 		}
 
 		[[nodiscard]] ZKAPI std::type_info const& registered_to() const noexcept {
-			return *_m_registered_to;
+			return _m_registered_to == nullptr ? typeid(void) : *_m_registered_to;
 		}
 
 		ZKAPI void grow(uint32_t n);
@@ -686,6 +686,7 @@ namespace zenkit {
 		template <typename T>
 		T const* get_member_ptr(std::uint16_t index, DaedalusInstance const* context) const {
 			if (!_m_registered_to) throw DaedalusUnboundMemberAccess(this);
+			if (context->_m_type == nullptr) throw DaedalusIllegalContextType {this, typeid(void)};
 			if (*_m_registered_to != *context->_m_type) throw DaedalusIllegalContextType {this, *context->_m_type};
 
 			auto data_ptr = context->data();
@@ -696,6 +697,7 @@ namespace zenkit {
 		template <typename T>
 		T* get_member_ptr(std::uint16_t index, DaedalusInstance* context) {
 			if (!_m_registered_to) throw DaedalusUnboundMemberAccess(this);
+			if (context->_m_type == nullptr) throw DaedalusIllegalContextType {this, typeid(void)};
 			if (*_m_registered_to != *context->_m_type) throw DaedalusIllegalContextType {this, *context->_m_type};
 
 			auto data_ptr = context->data();
-- 
2.43.0


From 032f429457629aaf28b60e441df85a62e527392f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:57 +0000
Subject: [PATCH 089/116] fix: messages about symbols with unknown types

The name of the type was read from outside of the table of names.
---
 include/zenkit/DaedalusScript.hh | 8 ++++++++
 src/DaedalusScript.cc            | 2 +-
 src/DaedalusVm.cc                | 4 ++--
 3 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/zenkit/DaedalusScript.hh b/include/zenkit/DaedalusScript.hh
index 2fe2e48..a2b927d 100644
--- a/include/zenkit/DaedalusScript.hh
+++ b/include/zenkit/DaedalusScript.hh
@@ -7,6 +7,7 @@
 
 #include <cstdint>
 #include <functional>
+#include <iterator>
 #include <memory>
 #include <span>
 #include <string>
@@ -51,6 +52,13 @@ namespace zenkit {
 	    "instance",
 	};
 
+	/// \return The name of the given datatype.
+	constexpr char const* daedalus_data_type_name(DaedalusDataType type) noexcept {
+		return static_cast<std::uint32_t>(type) < std::size(DAEDALUS_DATA_TYPE_NAMES)
+		    ? DAEDALUS_DATA_TYPE_NAMES[static_cast<std::uint32_t>(type)]
+		    : "<invalid>";
+	}
+
 	/// \brief Flags of symbols.
 	namespace DaedalusSymbolFlag {
 		static constexpr auto CONST = 1U << 0U;       ///< The symbol is not mutable.
diff --git a/src/DaedalusScript.cc b/src/DaedalusScript.cc
index f6757cb..d5c5aa0 100644
--- a/src/DaedalusScript.cc
+++ b/src/DaedalusScript.cc
@@ -18,7 +18,7 @@ namespace zenkit {
 	                                                                         std::string&& provided)
 	    : DaedalusMemberRegistrationError(s,
 	                                      "wrong datatype: provided '" + provided + "' expected " +
-	                                          DAEDALUS_DATA_TYPE_NAMES[static_cast<std::uint32_t>(s->type())]) {}
+	                                          daedalus_data_type_name(s->type())) {}
 
 	DaedalusIllegalTypeAccess::DaedalusIllegalTypeAccess(DaedalusSymbol const* s, DaedalusDataType expected_dt)
 	    : DaedalusIllegalAccess("illegal access of type " + std::to_string(static_cast<int32_t>(expected_dt)) +
diff --git a/src/DaedalusVm.cc b/src/DaedalusVm.cc
index 0b4420e..7825766 100644
--- a/src/DaedalusVm.cc
+++ b/src/DaedalusVm.cc
@@ -974,7 +974,7 @@ namespace zenkit {
 	    : DaedalusIllegalExternalDefinition(
 	          s,
 	          "external " + s->name() + " has illegal return type '" + provided + "', expected '" +
-	              DAEDALUS_DATA_TYPE_NAMES[static_cast<std::uint32_t>(s->rtype())] + "'") {}
+	              daedalus_data_type_name(s->rtype()) + "'") {}
 
 	DaedalusIllegalExternalParameter::DaedalusIllegalExternalParameter(DaedalusSymbol const* s,
 	                                                                   std::string&& provided,
@@ -982,7 +982,7 @@ namespace zenkit {
 	    : DaedalusIllegalExternalDefinition(s,
 	                                        "external " + s->name() + " has illegal parameter type '" + provided +
 	                                            "' (no. " + std::to_string(i) + "), expected '" +
-	                                            DAEDALUS_DATA_TYPE_NAMES[static_cast<std::uint32_t>(s->type())] + "'") {
+	                                            daedalus_data_type_name(s->type()) + "'") {
 	}
 
 	DaedalusVmExceptionStrategy
-- 
2.43.0


From bf823a78095c16f2e478de8bf063054a6cc1ebf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:57 +0000
Subject: [PATCH 090/116] fix: opaque registration of unknown and very large
 classes

---
 src/DaedalusScript.cc | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/DaedalusScript.cc b/src/DaedalusScript.cc
index d5c5aa0..c5819c0 100644
--- a/src/DaedalusScript.cc
+++ b/src/DaedalusScript.cc
@@ -6,6 +6,7 @@
 #include "Internal.hh"
 
 #include <algorithm>
+#include <limits>
 
 namespace zenkit {
 	DaedalusSymbolNotFound::DaedalusSymbolNotFound(std::string&& sym_name)
@@ -236,10 +237,12 @@ namespace zenkit {
 	}
 
 	void DaedalusScript::register_as_opaque(DaedalusSymbol* sym) {
+		if (sym == nullptr) throw DaedalusScriptError {"cannot register unknown class as opaque"};
+
 		auto members = find_class_members(*sym);
 
 		auto registered_to = &typeid(DaedalusOpaqueInstance);
-		uint32_t class_size = 0;
+		uint64_t class_size = 0;
 
 		for (auto* member : members) {
 			member->_m_registered_to = registered_to;
@@ -252,7 +255,7 @@ namespace zenkit {
 			case DaedalusDataType::FUNCTION:
 			case DaedalusDataType::PROTOTYPE:
 			case DaedalusDataType::INSTANCE:
-				member->_m_member_offset = class_size;
+				member->_m_member_offset = static_cast<uint32_t>(class_size);
 				class_size += 4 * member->count();
 				break;
 			case DaedalusDataType::STRING: {
@@ -263,16 +266,20 @@ namespace zenkit {
 				auto offset_remain = remain == 0 ? 0 : align - remain;
 
 				class_size += offset_remain;
-				member->_m_member_offset = class_size;
+				member->_m_member_offset = static_cast<uint32_t>(class_size);
 
 				class_size += sizeof(std::string) * member->count();
 				break;
 			}
 			}
+
+			if (class_size > std::numeric_limits<std::int32_t>::max()) {
+				throw DaedalusScriptError {"class too large: " + sym->name()};
+			}
 		}
 
 		sym->_m_registered_to = registered_to;
-		sym->_m_class_size = class_size;
+		sym->_m_class_size = static_cast<uint32_t>(class_size);
 	}
 
 	DaedalusSymbol* DaedalusScript::add_temporary_strings_symbol() {
-- 
2.43.0


From fc57a02a0d520f846ca213d12e69cd3a26849b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:12 +0000
Subject: [PATCH 091/116] fix: overflow of script integers

Overflowing arithmetic and shift distances outside of the range of the type are undefined in
C++. Dividing the smallest integer by -1 even terminates the process.
---
 src/DaedalusVm.cc | 53 ++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 41 insertions(+), 12 deletions(-)

diff --git a/src/DaedalusVm.cc b/src/DaedalusVm.cc
index 7825766..b622b92 100644
--- a/src/DaedalusVm.cc
+++ b/src/DaedalusVm.cc
@@ -75,6 +75,35 @@ namespace zenkit {
 		bool _m_inhibited {false};
 	};
 
+	// Scripts expect integers to wrap around and shifts to only consider the lowest five bits of the distance.
+	static std::int32_t wrap_add(std::int32_t a, std::int32_t b) {
+		return static_cast<std::int32_t>(static_cast<std::uint32_t>(a) + static_cast<std::uint32_t>(b));
+	}
+
+	static std::int32_t wrap_sub(std::int32_t a, std::int32_t b) {
+		return static_cast<std::int32_t>(static_cast<std::uint32_t>(a) - static_cast<std::uint32_t>(b));
+	}
+
+	static std::int32_t wrap_mul(std::int32_t a, std::int32_t b) {
+		return static_cast<std::int32_t>(static_cast<std::uint32_t>(a) * static_cast<std::uint32_t>(b));
+	}
+
+	static std::int32_t wrap_div(std::int32_t a, std::int32_t b) {
+		return b == -1 ? wrap_sub(0, a) : a / b;
+	}
+
+	static std::int32_t wrap_mod(std::int32_t a, std::int32_t b) {
+		return b == -1 ? 0 : a % b;
+	}
+
+	static std::int32_t wrap_lsl(std::int32_t a, std::int32_t b) {
+		return static_cast<std::int32_t>(static_cast<std::uint32_t>(a) << (static_cast<std::uint32_t>(b) & 31U));
+	}
+
+	static std::int32_t wrap_lsr(std::int32_t a, std::int32_t b) {
+		return a >> (static_cast<std::uint32_t>(b) & 31U);
+	}
+
 	DaedalusVm::DaedalusVm(DaedalusScript&& scr, std::uint8_t flags) : DaedalusScript(std::move(scr)), _m_flags(flags) {
 		_m_temporary_strings = add_temporary_strings_symbol();
 		_m_temporary_strings_free.push(0);
@@ -135,15 +164,15 @@ namespace zenkit {
 
 			switch (instr.op) {
 			case DaedalusOpcode::ADD:
-				push_int(pop_int() + pop_int());
+				push_int(wrap_add(pop_int(), pop_int()));
 				break;
 			case DaedalusOpcode::SUB:
 				a = pop_int();
 				b = pop_int();
-				push_int(a - b);
+				push_int(wrap_sub(a, b));
 				break;
 			case DaedalusOpcode::MUL:
-				push_int(pop_int() * pop_int());
+				push_int(wrap_mul(pop_int(), pop_int()));
 				break;
 			case DaedalusOpcode::DIV:
 				a = pop_int();
@@ -151,7 +180,7 @@ namespace zenkit {
 
 				if (b == 0) throw DaedalusVmException {"vm: division by zero"};
 
-				push_int(a / b);
+				push_int(wrap_div(a, b));
 				break;
 			case DaedalusOpcode::MOD:
 				a = pop_int();
@@ -159,7 +188,7 @@ namespace zenkit {
 
 				if (b == 0) throw DaedalusVmException {"vm: division by zero"};
 
-				push_int(a % b);
+				push_int(wrap_mod(a, b));
 				break;
 			case DaedalusOpcode::OR:
 				push_int(pop_int() | pop_int());
@@ -180,12 +209,12 @@ namespace zenkit {
 			case DaedalusOpcode::LSL:
 				a = pop_int();
 				b = pop_int();
-				push_int(a << b);
+				push_int(wrap_lsl(a, b));
 				break;
 			case DaedalusOpcode::LSR:
 				a = pop_int();
 				b = pop_int();
-				push_int(a >> b);
+				push_int(wrap_lsr(a, b));
 				break;
 			case DaedalusOpcode::LTE:
 				a = pop_int();
@@ -207,7 +236,7 @@ namespace zenkit {
 				push_int(+pop_int());
 				break;
 			case DaedalusOpcode::NEGATE:
-				push_int(-pop_int());
+				push_int(wrap_sub(0, pop_int()));
 				break;
 			case DaedalusOpcode::NOT:
 				push_int(!pop_int());
@@ -327,7 +356,7 @@ namespace zenkit {
 
 				if (!ref->is_member() || context != nullptr ||
 				    !(_m_flags & DaedalusVmExecutionFlag::ALLOW_NULL_INSTANCE_ACCESS)) {
-					auto result = ref->get_int(idx, context.get()) + value;
+					auto result = wrap_add(ref->get_int(idx, context.get()), value);
 					ref->set_int(result, idx, context.get());
 				} else if (ref->is_member()) {
 					ZKLOGE("DaedalusVm", "Accessing member \"%s\" without an instance set", ref->name().c_str());
@@ -345,7 +374,7 @@ namespace zenkit {
 
 				if (!ref->is_member() || context != nullptr ||
 				    !(_m_flags & DaedalusVmExecutionFlag::ALLOW_NULL_INSTANCE_ACCESS)) {
-					auto result = ref->get_int(idx, context.get()) - value;
+					auto result = wrap_sub(ref->get_int(idx, context.get()), value);
 					ref->set_int(result, idx, context.get());
 				} else if (ref->is_member()) {
 					ZKLOGE("DaedalusVm", "Accessing member \"%s\" without an instance set", ref->name().c_str());
@@ -362,7 +391,7 @@ namespace zenkit {
 
 				if (!ref->is_member() || context != nullptr ||
 				    !(_m_flags & DaedalusVmExecutionFlag::ALLOW_NULL_INSTANCE_ACCESS)) {
-					auto result = ref->get_int(idx, context.get()) * value;
+					auto result = wrap_mul(ref->get_int(idx, context.get()), value);
 					ref->set_int(result, idx, context.get());
 				} else if (ref->is_member()) {
 					ZKLOGE("DaedalusVm", "Accessing member \"%s\" without an instance set", ref->name().c_str());
@@ -384,7 +413,7 @@ namespace zenkit {
 
 				if (!ref->is_member() || context != nullptr ||
 				    !(_m_flags & DaedalusVmExecutionFlag::ALLOW_NULL_INSTANCE_ACCESS)) {
-					auto result = ref->get_int(idx, context.get()) / value;
+					auto result = wrap_div(ref->get_int(idx, context.get()), value);
 					ref->set_int(result, idx, context.get());
 				} else if (ref->is_member()) {
 					ZKLOGE("DaedalusVm", "Accessing member \"%s\" without an instance set", ref->name().c_str());
-- 
2.43.0


From 075f0406f10a04301f0648641cc9d47ec2e19386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:12 +0000
Subject: [PATCH 092/116] fix: more than 256 strings on the stack

The index of temporary strings was truncated to eight bits, so a string could be overwritten
by another.
---
 include/zenkit/DaedalusVm.hh | 4 ++--
 src/DaedalusVm.cc            | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/zenkit/DaedalusVm.hh b/include/zenkit/DaedalusVm.hh
index 17a81ee..3d52749 100644
--- a/include/zenkit/DaedalusVm.hh
+++ b/include/zenkit/DaedalusVm.hh
@@ -320,14 +320,14 @@ namespace zenkit {
 		ZKAPI void push_int(std::int32_t value);
 		ZKAPI void push_float(float value);
 		ZKAPI void push_instance(std::shared_ptr<DaedalusInstance> value);
-		ZKAPI void push_reference(DaedalusSymbol* value, std::uint8_t index = 0);
+		ZKAPI void push_reference(DaedalusSymbol* value, std::uint16_t index = 0);
 		ZKAPI void push_string(std::string_view value);
 
 		[[nodiscard]] ZKAPI std::int32_t pop_int();
 		[[nodiscard]] ZKAPI float pop_float();
 		[[nodiscard]] ZKAPI std::shared_ptr<DaedalusInstance> pop_instance();
 		[[nodiscard]] ZKAPI std::string const& pop_string();
-		[[nodiscard]] ZKAPI std::tuple<DaedalusSymbol*, std::uint8_t, std::shared_ptr<DaedalusInstance>>
+		[[nodiscard]] ZKAPI std::tuple<DaedalusSymbol*, std::uint16_t, std::shared_ptr<DaedalusInstance>>
 		pop_reference();
 		[[nodiscard]] ZKAPI bool top_is_reference() const;
 
diff --git a/src/DaedalusVm.cc b/src/DaedalusVm.cc
index b622b92..bd9cbbc 100644
--- a/src/DaedalusVm.cc
+++ b/src/DaedalusVm.cc
@@ -680,7 +680,7 @@ namespace zenkit {
 		_m_stack[_m_stack_ptr++] = {nullptr, false, value};
 	}
 
-	void DaedalusVm::push_reference(DaedalusSymbol* value, std::uint8_t index) {
+	void DaedalusVm::push_reference(DaedalusSymbol* value, std::uint16_t index) {
 		if (_m_stack_ptr == stack_size) {
 			throw DaedalusVmException {"stack overflow"};
 		}
@@ -758,7 +758,7 @@ namespace zenkit {
 		throw DaedalusVmException {"tried to pop_float but frame does not contain a float."};
 	}
 
-	std::tuple<DaedalusSymbol*, std::uint8_t, std::shared_ptr<DaedalusInstance>> DaedalusVm::pop_reference() {
+	std::tuple<DaedalusSymbol*, std::uint16_t, std::shared_ptr<DaedalusInstance>> DaedalusVm::pop_reference() {
 		if (_m_stack_ptr == 0) {
 			throw DaedalusVmException {"popping reference from empty stack"};
 		}
-- 
2.43.0


From 273ebbb16fbe8409cda09bc3d7a28c7fd6345de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:12 +0000
Subject: [PATCH 093/116] fix: temporary strings which are not used

Temporary strings were only released if they were popped as a reference. If they were dropped
with the frame of a function or as an ignored return value, the storage kept growing until the
index wrapped around and strings replaced each other.
---
 include/zenkit/DaedalusVm.hh | 17 +++++++++------
 src/DaedalusVm.cc            | 42 +++++++++++++++++++++++++-----------
 2 files changed, 40 insertions(+), 19 deletions(-)

diff --git a/include/zenkit/DaedalusVm.hh b/include/zenkit/DaedalusVm.hh
index 3d52749..753586a 100644
--- a/include/zenkit/DaedalusVm.hh
+++ b/include/zenkit/DaedalusVm.hh
@@ -71,7 +71,7 @@ namespace zenkit {
 	/// \brief A stack frame in the VM.
 	struct DaedalusStackFrame {
 		std::shared_ptr<DaedalusInstance> context;
-		bool reference;
+		bool reference {false};
 		std::variant<int32_t, float, DaedalusSymbol*, std::shared_ptr<DaedalusInstance>> value;
 		uint16_t index {0};
 	};
@@ -145,6 +145,8 @@ namespace zenkit {
 				check_call_return_type<R>(sym);
 			}
 
+			std::uint32_t const stack_ptr = _m_stack_ptr;
+
 			if constexpr (sizeof...(P) > 0) {
 				push_call_parameters<0, P...>(params, args...);
 			}
@@ -152,11 +154,8 @@ namespace zenkit {
 			unsafe_call(sym);
 
 			if constexpr (std::same_as<R, IgnoreReturnValue>) {
-				if (sym->has_return()) {
-					// Make sure to still pop the return value off of the stack.
-					_m_stack_ptr--;
-				}
-
+				// Make sure to still pop the return value off of the stack.
+				truncate_stack(stack_ptr);
 				return {};
 			} else if constexpr (!std::same_as<R, void>) {
 				return pop_call_return_value<R>();
@@ -990,6 +989,12 @@ namespace zenkit {
 			}
 		}
 
+		/// \brief Removes the topmost value from the stack, which must not be empty.
+		ZKAPI DaedalusStackFrame pop_frame();
+
+		/// \brief Removes values from the stack until there are at most \p stack_ptr of them left.
+		ZKAPI void truncate_stack(std::uint32_t stack_ptr);
+
 		/// \brief Mark the temporary string at the given index as free.
 		void mark_free_string(uint32_t index);
 
diff --git a/src/DaedalusVm.cc b/src/DaedalusVm.cc
index bd9cbbc..185b910 100644
--- a/src/DaedalusVm.cc
+++ b/src/DaedalusVm.cc
@@ -498,6 +498,7 @@ namespace zenkit {
 		if (!call.function->has_return()) {
 			// No special logic needed, there are supposed to be no more stack frames for
 			// this function, so just reset the stack for the caller.
+			truncate_stack(call.stack_ptr);
 			_m_stack_ptr = call.stack_ptr;
 		} else {
 			auto remaining_locals = _m_stack_ptr - call.stack_ptr;
@@ -508,8 +509,8 @@ namespace zenkit {
 			} else if (remaining_locals > 1) {
 				// Now we have too many items left on the stack. Remove all of them, except the topmost one,
 				// since that one is supposed to be the return value of the function.
-				DaedalusStackFrame frame = _m_stack[--_m_stack_ptr];
-				_m_stack_ptr = call.stack_ptr;
+				DaedalusStackFrame frame = std::exchange(_m_stack[--_m_stack_ptr], {});
+				truncate_stack(call.stack_ptr);
 				_m_stack[_m_stack_ptr++] = std::move(frame);
 			}
 			// else {
@@ -691,6 +692,10 @@ namespace zenkit {
 	void DaedalusVm::push_string(std::string_view value) {
 		// We need to push strings without an explicitly attached variable to a
 		// virtual string container variable.
+		if (_m_stack_ptr == stack_size) {
+			throw DaedalusVmException {"stack overflow"};
+		}
+
 		auto index = this->get_free_string();
 
 		_m_temporary_strings->set_string(value, index);
@@ -718,7 +723,7 @@ namespace zenkit {
 			return 0;
 		}
 
-		DaedalusStackFrame v = std::move(_m_stack[--_m_stack_ptr]);
+		auto v = pop_frame();
 
 		if (v.reference) {
 			return this->get_int(v.context, v.value, v.index);
@@ -736,7 +741,7 @@ namespace zenkit {
 			return 0.0f;
 		}
 
-		DaedalusStackFrame v = std::move(_m_stack[--_m_stack_ptr]);
+		auto v = pop_frame();
 
 		if (v.reference) {
 			return this->get_float(v.context, v.value, v.index);
@@ -763,19 +768,12 @@ namespace zenkit {
 			throw DaedalusVmException {"popping reference from empty stack"};
 		}
 
-		DaedalusStackFrame v = std::move(_m_stack[--_m_stack_ptr]);
+		auto v = pop_frame();
 
 		if (!v.reference) {
 			throw DaedalusVmException {"tried to pop_reference but frame does not contain a reference."};
 		}
 
-		auto sym = std::get<DaedalusSymbol*>(v.value);
-		if (sym->index() == _m_temporary_strings->index()) {
-			// For virtual strings, we'll mark this string as free when it's popped.
-			// This is likely unreliable but until it causes issues, it'll stay as-is.
-			this->mark_free_string(v.index);
-		}
-
 		return {std::get<DaedalusSymbol*>(v.value), v.index, v.context};
 	}
 
@@ -792,7 +790,7 @@ namespace zenkit {
 			throw DaedalusVmException {"popping instance from empty stack"};
 		}
 
-		DaedalusStackFrame v = std::move(_m_stack[--_m_stack_ptr]);
+		auto v = pop_frame();
 
 		if (v.reference) {
 			return std::get<DaedalusSymbol*>(v.value)->get_instance();
@@ -1174,6 +1172,24 @@ namespace zenkit {
 		}
 	}
 
+	DaedalusStackFrame DaedalusVm::pop_frame() {
+		DaedalusStackFrame frame = std::move(_m_stack[--_m_stack_ptr]);
+
+		if (auto* sym = std::get_if<DaedalusSymbol*>(&frame.value); sym != nullptr && *sym == _m_temporary_strings) {
+			// For virtual strings, we'll mark this string as free when it's popped.
+			this->mark_free_string(frame.index);
+			_m_stack[_m_stack_ptr] = {};
+		}
+
+		return frame;
+	}
+
+	void DaedalusVm::truncate_stack(std::uint32_t stack_ptr) {
+		while (_m_stack_ptr > stack_ptr) {
+			pop_frame();
+		}
+	}
+
 	void DaedalusVm::mark_free_string(uint32_t index) {
 		this->_m_temporary_strings_free.push(index);
 	}
-- 
2.43.0


From c1d5962679e1932a9f0c2293265310713905baa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:12 +0000
Subject: [PATCH 094/116] fix: calls with too few values on the stack

The bottom of the frame of a function called with fewer arguments than it has, and the number
of values left by a function which popped more than its arguments, wrapped around. Both result
in accesses outside of the stack.
---
 include/zenkit/DaedalusVm.hh |  4 +++-
 src/DaedalusVm.cc            | 37 +++++++++++++++++++-----------------
 2 files changed, 23 insertions(+), 18 deletions(-)

diff --git a/include/zenkit/DaedalusVm.hh b/include/zenkit/DaedalusVm.hh
index 753586a..b5bdb4f 100644
--- a/include/zenkit/DaedalusVm.hh
+++ b/include/zenkit/DaedalusVm.hh
@@ -726,7 +726,9 @@ namespace zenkit {
 		/// \brief Pops a function-local variables from the call stack.
 		///
 		/// Part of #pop_call implementation
-		ZKINT void pop_local_variables(DaedalusSymbol const* sym);
+		/// \param sym The symbol referring to the function called.
+		/// \param has_value Whether the topmost value of the stack is the return value of the function.
+		ZKINT void pop_local_variables(DaedalusSymbol const* sym, bool has_value);
 
 		/// \brief Checks that the type of each symbol in the given set of defined symbols matches the given type
 		/// parameters.
diff --git a/src/DaedalusVm.cc b/src/DaedalusVm.cc
index 185b910..0c36d24 100644
--- a/src/DaedalusVm.cc
+++ b/src/DaedalusVm.cc
@@ -4,6 +4,7 @@
 
 #include "Internal.hh"
 
+#include <algorithm>
 #include <utility>
 
 namespace zenkit {
@@ -488,23 +489,29 @@ namespace zenkit {
 			push_local_variables(sym);
 		}
 		auto var_count = this->find_parameters_for_function(sym).size();
-		_m_call_stack.push_back({sym, _m_pc, _m_stack_ptr - static_cast<uint32_t>(var_count), _m_instance});
+		_m_call_stack.push_back(
+		    {sym, _m_pc, _m_stack_ptr - std::min(static_cast<uint32_t>(var_count), std::uint32_t {_m_stack_ptr}), _m_instance});
 	}
 
 	void DaedalusVm::pop_call() {
-		auto const& call = _m_call_stack.back();
+		// First, reset PC and context and remove the call stack frame
+		auto const call = std::move(_m_call_stack.back());
+		_m_call_stack.pop_back();
+		_m_pc = call.program_counter;
+		_m_instance = call.context;
 
-		// First, try to fix up the stack.
+		// Second, try to fix up the stack.
 		if (!call.function->has_return()) {
 			// No special logic needed, there are supposed to be no more stack frames for
 			// this function, so just reset the stack for the caller.
 			truncate_stack(call.stack_ptr);
 			_m_stack_ptr = call.stack_ptr;
 		} else {
-			auto remaining_locals = _m_stack_ptr - call.stack_ptr;
-			if (remaining_locals == 0) {
+			auto remaining_locals = static_cast<std::int32_t>(_m_stack_ptr) - static_cast<std::int32_t>(call.stack_ptr);
+			if (remaining_locals <= 0) {
 				// The function is supposed to have a return value, but it does not seem to have one.
 				// To fix this, we just insert a default value (either 0, "" or NULL).
+				_m_stack_ptr = call.stack_ptr;
 				StackGuard::fix(this, call.function->rtype());
 			} else if (remaining_locals > 1) {
 				// Now we have too many items left on the stack. Remove all of them, except the topmost one,
@@ -521,13 +528,8 @@ namespace zenkit {
 		}
 
 		if (call.function->has_local_variables_enabled()) {
-			pop_local_variables(call.function);
+			pop_local_variables(call.function, _m_stack_ptr > call.stack_ptr);
 		}
-
-		// Second, reset PC and context, then remove the call stack frame
-		_m_pc = call.program_counter;
-		_m_instance = call.context;
-		_m_call_stack.pop_back();
 	}
 
 	void DaedalusVm::push_local_variables(DaedalusSymbol const* sym) {
@@ -615,20 +617,21 @@ namespace zenkit {
 		_m_stack_ptr += params.size();
 	}
 
-	void DaedalusVm::pop_local_variables(DaedalusSymbol const* sym) {
-		int has_recursion = 0;
+	void DaedalusVm::pop_local_variables(DaedalusSymbol const* sym, bool has_value) {
+		bool has_recursion = false;
 		for (auto& i : _m_call_stack) {
 			if (i.function == sym) {
-				++has_recursion;
+				has_recursion = true;
+				break;
 			}
 		}
 
-		if (has_recursion <= 1) {
+		if (!has_recursion) {
 			return;
 		}
 
 		DaedalusStackFrame ret;
-		if (sym->has_return()) {
+		if (has_value) {
 			ret = std::move(_m_stack[--_m_stack_ptr]);
 		}
 
@@ -668,7 +671,7 @@ namespace zenkit {
 			}
 		}
 
-		if (sym->has_return()) {
+		if (has_value) {
 			_m_stack[_m_stack_ptr++] = std::move(ret);
 		}
 	}
-- 
2.43.0


From 250c11cf1a4ee07ee83a50375e3837cd03941edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:12 +0000
Subject: [PATCH 095/116] fix: arguments of recursive functions with few local
 variables

If a function has fewer local variables than parameters the ranges overlap, so moving the
arguments front to back overwrites those which have not been moved yet.
---
 src/DaedalusVm.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/DaedalusVm.cc b/src/DaedalusVm.cc
index 0c36d24..3b09588 100644
--- a/src/DaedalusVm.cc
+++ b/src/DaedalusVm.cc
@@ -580,7 +580,8 @@ namespace zenkit {
 		// Move function arguments further back, since we're currently at the call instruction and the
 		// arguments for the next call have already been pushed.
 		_m_stack_ptr -= params.size();
-		for (size_t i = 0; i < params.size(); ++i) {
+		for (size_t i = locals_size == 0 ? 0 : params.size(); i > 0;) {
+			--i;
 			_m_stack[_m_stack_ptr + locals_size + i] = std::move(_m_stack[_m_stack_ptr + i]);
 		}
 
-- 
2.43.0


From edd83c37fe0e878a8264cdf4bf9a6888529d7a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:12 +0000
Subject: [PATCH 096/116] fix: constants among the local variables of recursive
 functions

They do not need to be saved and, if they are functions or members, can not be.
---
 src/DaedalusVm.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/DaedalusVm.cc b/src/DaedalusVm.cc
index 3b09588..dc20168 100644
--- a/src/DaedalusVm.cc
+++ b/src/DaedalusVm.cc
@@ -551,6 +551,8 @@ namespace zenkit {
 		// estimate stack storage for local copy of variables
 		std::uint32_t locals_size = 0;
 		for (auto& l : locals) {
+			if (l.is_const() || l.is_member()) continue;
+
 			switch (l.type()) {
 			case DaedalusDataType::VOID:
 				break;
@@ -586,6 +588,8 @@ namespace zenkit {
 		}
 
 		for (auto& l : locals) {
+			if (l.is_const() || l.is_member()) continue;
+
 			switch (l.type()) {
 			case DaedalusDataType::VOID:
 				break;
@@ -640,6 +644,8 @@ namespace zenkit {
 		for (size_t i = locals.size(); i > 0;) {
 			--i;
 			auto& l = locals[i];
+			if (l.is_const() || l.is_member()) continue;
+
 			switch (l.type()) {
 			case DaedalusDataType::VOID:
 				break;
-- 
2.43.0


From ae2e1bd0902cf69231f9f8f5bc6da2c21a8e2b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:12 +0000
Subject: [PATCH 097/116] fix: lifetime of strings and instances passed to
 externals

Strings were passed as views of temporary storage which is reused, or moved, by the next string
pushed and instances as raw pointers without keeping a reference to them, so they could be
destroyed before the external was called.
---
 include/zenkit/DaedalusVm.hh | 27 +++++++++++++++++++++------
 src/DaedalusVm.cc            |  5 ++---
 2 files changed, 23 insertions(+), 9 deletions(-)

diff --git a/include/zenkit/DaedalusVm.hh b/include/zenkit/DaedalusVm.hh
index b5bdb4f..d8e8518 100644
--- a/include/zenkit/DaedalusVm.hh
+++ b/include/zenkit/DaedalusVm.hh
@@ -29,6 +29,23 @@ namespace zenkit {
 	template <typename T>
 	concept DaedalusInstancePointerRaw = std::derived_from<std::remove_pointer_t<T>, DaedalusInstance>;
 
+	/// \brief Keeps an instance alive while it is being passed to an external function as a raw pointer.
+	template <typename T>
+	struct DaedalusInstanceArgument {
+		std::shared_ptr<DaedalusInstance> value;
+
+		operator T() const {
+			return static_cast<T>(value.get());
+		}
+	};
+
+	/// \brief The type of object which keeps the value of a parameter of type \p T of an external function alive.
+	template <typename T>
+	using DaedalusExternalArgument = std::conditional_t<
+	    std::same_as<T, std::string_view>,
+	    std::string,
+	    std::conditional_t<DaedalusInstancePointerRaw<T>, DaedalusInstanceArgument<T>, T>>;
+
 	/// \brief An exception thrown if the definition of an external is incorrect.
 	class DaedalusIllegalExternalDefinition : public DaedalusScriptError {
 	public:
@@ -325,7 +342,7 @@ namespace zenkit {
 		[[nodiscard]] ZKAPI std::int32_t pop_int();
 		[[nodiscard]] ZKAPI float pop_float();
 		[[nodiscard]] ZKAPI std::shared_ptr<DaedalusInstance> pop_instance();
-		[[nodiscard]] ZKAPI std::string const& pop_string();
+		[[nodiscard]] ZKAPI std::string pop_string();
 		[[nodiscard]] ZKAPI std::tuple<DaedalusSymbol*, std::uint16_t, std::shared_ptr<DaedalusInstance>>
 		pop_reference();
 		[[nodiscard]] ZKAPI bool top_is_reference() const;
@@ -783,7 +800,7 @@ namespace zenkit {
 		             std::same_as<T, DaedalusFunction> || //
 		             DaedalusInstancePointer<T> ||        //
 		             DaedalusInstancePointerRaw<T>)
-		T pop_value_for_external() {
+		DaedalusExternalArgument<T> pop_value_for_external() {
 			if constexpr (DaedalusInstancePointer<T>) {
 				auto r = pop_instance();
 
@@ -819,7 +836,7 @@ namespace zenkit {
 					}
 				}
 
-				return reinterpret_cast<T>(r.get());
+				return {std::move(r)};
 			} else if constexpr (std::same_as<float, T>) {
 				return pop_float();
 			} else if constexpr (std::same_as<std::int32_t, T>) {
@@ -890,9 +907,7 @@ namespace zenkit {
 		/// \tparam Px more value types to pop.
 		/// \return
 		template <typename P, typename... Px>
-		std::tuple<P, Px...> pop_values_for_external() {
-			// TODO: find a way to actually retain constref-ness of strings and instances through this chain of
-			//  tuple-making
+		std::tuple<DaedalusExternalArgument<P>, DaedalusExternalArgument<Px>...> pop_values_for_external() {
 			if constexpr (sizeof...(Px) > 0) {
 				auto v = pop_values_for_external<Px...>();
 				return std::tuple_cat(std::make_tuple(pop_value_for_external<P>()), std::move(v));
diff --git a/src/DaedalusVm.cc b/src/DaedalusVm.cc
index dc20168..e6c72fd 100644
--- a/src/DaedalusVm.cc
+++ b/src/DaedalusVm.cc
@@ -813,8 +813,7 @@ namespace zenkit {
 		throw DaedalusVmException {"tried to pop_instance but frame does not contain am instance."};
 	}
 
-	std::string const& DaedalusVm::pop_string() {
-		static std::string empty {};
+	std::string DaedalusVm::pop_string() {
 		auto [s, i, context] = pop_reference();
 
 		// compatibility: sometimes the context might be zero, but we can't fail so when
@@ -825,7 +824,7 @@ namespace zenkit {
 			}
 
 			ZKLOGE("DaedalusVm", "Accessing member \"%s\" without an instance set", s->name().c_str());
-			return empty;
+			return "";
 		}
 
 		return s->get_string(i, context.get());
-- 
2.43.0


From b98426269acddcbe7cb3dc0ac82e82a1c996ac14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:12 +0000
Subject: [PATCH 098/116] fix: execution past the end of a script

Reading past the end yields zeros, which is an addition, so it never ended.
---
 src/DaedalusVm.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/DaedalusVm.cc b/src/DaedalusVm.cc
index e6c72fd..7ca2fc2 100644
--- a/src/DaedalusVm.cc
+++ b/src/DaedalusVm.cc
@@ -159,6 +159,11 @@ namespace zenkit {
 	bool DaedalusVm::exec() {
 		auto instr = instruction_at(_m_pc);
 
+		if (size() < instr.size || _m_pc > size() - instr.size) {
+			throw DaedalusVmException {"Cannot execute instruction at " + std::to_string(_m_pc) +
+			                           ": outside of the script"};
+		}
+
 		try {
 			std::int32_t a, b;
 			DaedalusSymbol* sym;
-- 
2.43.0


From 23f1063751272891437cd34bd9e846906f38ea3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:12 +0000
Subject: [PATCH 099/116] fix: state of the machine after errors

After an error, the frames of all functions being executed were left on the call stack and
their values on the value stack, and the current instance was not restored. Calls following it
worked with the values of the failed one. If the stack was full, the process was terminated.
An error in an overridden function without a symbol dereferenced a null pointer.
---
 include/zenkit/DaedalusVm.hh | 30 ++++++++++++---
 src/DaedalusVm.cc            | 72 +++++++++++++++++++++++++++++-------
 2 files changed, 83 insertions(+), 19 deletions(-)

diff --git a/include/zenkit/DaedalusVm.hh b/include/zenkit/DaedalusVm.hh
index d8e8518..62fcd19 100644
--- a/include/zenkit/DaedalusVm.hh
+++ b/include/zenkit/DaedalusVm.hh
@@ -116,6 +116,8 @@ namespace zenkit {
 		static constexpr std::uint8_t vm_ignore_const_specifier = IGNORE_CONST_SPECIFIER;
 	} // namespace DaedalusVmExecutionFlag
 
+	struct StackGuard;
+
 	class DaedalusVm : public DaedalusScript {
 	public:
 		static constexpr auto stack_size = 2048;
@@ -164,11 +166,16 @@ namespace zenkit {
 
 			std::uint32_t const stack_ptr = _m_stack_ptr;
 
-			if constexpr (sizeof...(P) > 0) {
-				push_call_parameters<0, P...>(params, args...);
-			}
+			try {
+				if constexpr (sizeof...(P) > 0) {
+					push_call_parameters<0, P...>(params, args...);
+				}
 
-			unsafe_call(sym);
+				unsafe_call(sym);
+			} catch (...) {
+				truncate_stack(stack_ptr);
+				throw;
+			}
 
 			if constexpr (std::same_as<R, IgnoreReturnValue>) {
 				// Make sure to still pop the return value off of the stack.
@@ -237,7 +244,13 @@ namespace zenkit {
 
 			if (_m_self_sym) _m_self_sym->set_instance(_m_instance);
 
-			unsafe_call(sym);
+			try {
+				unsafe_call(sym);
+			} catch (...) {
+				_m_instance = old_instance;
+				if (_m_self_sym) _m_self_sym->set_instance(old_self_instance);
+				throw;
+			}
 
 			// reset the VM state
 			_m_instance = old_instance;
@@ -734,6 +747,11 @@ namespace zenkit {
 		/// call stack entry refers to was called.
 		ZKINT void pop_call();
 
+		/// \brief Pops a call stack frame from the call stack after an error.
+		///
+		/// In contrast to #pop_call, nothing the function has put on the stack is kept.
+		ZKINT void unwind_call();
+
 		/// \brief Pushes a function local variables onto the call stack.
 		///
 		/// Part of #push_call implementation
@@ -1019,6 +1037,8 @@ namespace zenkit {
 		uint32_t get_free_string();
 
 	private:
+		friend struct StackGuard;
+
 		std::array<DaedalusStackFrame, stack_size> _m_stack;
 		uint16_t _m_stack_ptr {0};
 
diff --git a/src/DaedalusVm.cc b/src/DaedalusVm.cc
index 7ca2fc2..c5dd28f 100644
--- a/src/DaedalusVm.cc
+++ b/src/DaedalusVm.cc
@@ -27,17 +27,34 @@ namespace zenkit {
 	struct StackGuard {
 		/// \brief Creates a new stack guard.
 		/// \param machine The VM this instance is guarding.
-		/// \param type The type of value to push if the guard is triggered.
-		StackGuard(DaedalusVm* machine, DaedalusDataType type) : _m_type(type), _m_machine(machine) {}
+		/// \param function The function being called or <tt>nullptr</tt>. If the guard is triggered, its arguments are
+		///                 removed and a default value of its return type is pushed.
+		StackGuard(DaedalusVm* machine, DaedalusSymbol const* function)
+		    : _m_type(function == nullptr ? DaedalusDataType::VOID : function->rtype()), _m_machine(machine),
+		      _m_call_depth(machine->_m_call_stack.size()), _m_stack_ptr(machine->_m_stack_ptr) {
+			if (function == nullptr) return;
+
+			auto params = machine->find_parameters_for_function(function);
+			_m_stack_ptr -= std::min(static_cast<uint32_t>(params.size()), _m_stack_ptr);
+		}
 
 		/// \brief Triggers this guard.
 		///
-		/// Unless #inhibit was called, this destructor will push a value of the datatype passed in the
-		/// constructor onto the stack of the VM passed in the constructor.
+		/// Unless #inhibit was called, this destructor will remove everything the function left on the stacks of the
+		/// VM passed in the constructor and push a value of the function's return type.
 		~StackGuard() {
 			if (_m_inhibited) return;
 
-			StackGuard::fix(_m_machine, _m_type);
+			try {
+				while (_m_machine->_m_call_stack.size() > _m_call_depth) {
+					_m_machine->unwind_call();
+				}
+
+				_m_machine->truncate_stack(_m_stack_ptr);
+				StackGuard::fix(_m_machine, _m_type);
+			} catch (DaedalusScriptError const&) {
+				// There is already an exception being handled.
+			}
 		}
 
 		/// \brief Inhibits this guard.
@@ -73,6 +90,8 @@ namespace zenkit {
 	private:
 		DaedalusDataType _m_type;
 		DaedalusVm* _m_machine;
+		std::size_t _m_call_depth;
+		std::uint32_t _m_stack_ptr;
 		bool _m_inhibited {false};
 	};
 
@@ -135,11 +154,17 @@ namespace zenkit {
 
 	void DaedalusVm::unsafe_call(DaedalusSymbol const* sym) {
 		push_call(sym);
-		jump(sym->address());
 
-		// execute until an op_return is reached
-		while (exec())
-			;
+		try {
+			jump(sym->address());
+
+			// execute until an op_return is reached
+			while (exec())
+				;
+		} catch (...) {
+			unwind_call();
+			throw;
+		}
 
 		pop_call();
 	}
@@ -268,13 +293,13 @@ namespace zenkit {
 			case DaedalusOpcode::BL: {
 				// Check if the function is overridden and if it is, call the resulting external.
 				sym = find_symbol_by_address(instr.address);
+
+				// Guard against exceptions during the call.
+				StackGuard guard {this, sym};
+
 				if (auto cb = _m_function_overrides.find(instr.address); cb != _m_function_overrides.end()) {
-					// Guard against exceptions during external invocation.
-					StackGuard guard {this, sym->rtype()};
 					// Call maybe naked.
 					cb->second(*this);
-					// The stack is left intact.
-					guard.inhibit();
 				} else {
 					if (sym == nullptr) {
 						throw DaedalusVmException {"bl: no symbol found for address " + std::to_string(instr.address)};
@@ -283,6 +308,8 @@ namespace zenkit {
 					unsafe_call(sym);
 				}
 
+				// The stack is left intact.
+				guard.inhibit();
 				break;
 			}
 			case DaedalusOpcode::BE: {
@@ -292,7 +319,7 @@ namespace zenkit {
 				}
 
 				// Guard against exceptions during external invocation.
-				StackGuard guard {this, sym->rtype()};
+				StackGuard guard {this, sym};
 
 				auto cb = _m_externals.find(sym);
 				if (cb == _m_externals.end()) {
@@ -537,6 +564,23 @@ namespace zenkit {
 		}
 	}
 
+	void DaedalusVm::unwind_call() {
+		auto const call = std::move(_m_call_stack.back());
+		_m_call_stack.pop_back();
+		_m_pc = call.program_counter;
+		_m_instance = call.context;
+
+		truncate_stack(call.stack_ptr);
+
+		if (call.function->has_local_variables_enabled()) {
+			try {
+				pop_local_variables(call.function, false);
+			} catch (DaedalusScriptError const&) {
+				// The function has damaged the stack. There is nothing left to restore.
+			}
+		}
+	}
+
 	void DaedalusVm::push_local_variables(DaedalusSymbol const* sym) {
 		bool has_recursion = false;
 		for (auto& i : _m_call_stack) {
-- 
2.43.0


From e37fbd83eedf5db4c292361e0144ff752c5f79ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:12 +0000
Subject: [PATCH 100/116] fix: endless recursion in scripts

It exhausted the stack of the process.
---
 include/zenkit/DaedalusVm.hh | 1 +
 src/DaedalusVm.cc            | 4 ++++
 2 files changed, 5 insertions(+)

diff --git a/include/zenkit/DaedalusVm.hh b/include/zenkit/DaedalusVm.hh
index 62fcd19..e6e39f8 100644
--- a/include/zenkit/DaedalusVm.hh
+++ b/include/zenkit/DaedalusVm.hh
@@ -121,6 +121,7 @@ namespace zenkit {
 	class DaedalusVm : public DaedalusScript {
 	public:
 		static constexpr auto stack_size = 2048;
+		static constexpr auto max_call_depth = 1024;
 
 		/// \brief Creates a DaedalusVM DaedalusInstance for the given script.
 		/// \param scr The script to load into the VM.
diff --git a/src/DaedalusVm.cc b/src/DaedalusVm.cc
index c5dd28f..09bdaec 100644
--- a/src/DaedalusVm.cc
+++ b/src/DaedalusVm.cc
@@ -517,6 +517,10 @@ namespace zenkit {
 	}
 
 	void DaedalusVm::push_call(DaedalusSymbol const* sym) {
+		if (_m_call_stack.size() >= max_call_depth) {
+			throw DaedalusVmException {"call stack overflow"};
+		}
+
 		if (sym->has_local_variables_enabled()) {
 			push_local_variables(sym);
 		}
-- 
2.43.0


From eb7dccbcc781f087d5b0ae0b6c10c5ebeea60795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:12 +0000
Subject: [PATCH 101/116] fix: arguments of unresolved externals

Functions were not removed from the stack and instances returned by other functions could not
be. Functions returning functions did not return anything.
---
 src/DaedalusVm.cc | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/src/DaedalusVm.cc b/src/DaedalusVm.cc
index 09bdaec..738da30 100644
--- a/src/DaedalusVm.cc
+++ b/src/DaedalusVm.cc
@@ -896,23 +896,15 @@ namespace zenkit {
 	}
 
 	void DaedalusVm::register_default_external(std::function<void(DaedalusSymbol const&)> const& callback) {
-		_m_default_external = [this, callback](DaedalusVm& v, DaedalusSymbol const& sym) {
+		_m_default_external = [callback](DaedalusVm& v, DaedalusSymbol const& sym) {
 			// pop all parameters from the stack
-			auto params = find_parameters_for_function(&sym);
-			for (int i = static_cast<int>(params.size()) - 1; i >= 0; --i) {
-				auto& par = params[static_cast<unsigned>(i)];
-				if (par.type() == DaedalusDataType::INT)
-					(void) v.pop_int();
-				else if (par.type() == DaedalusDataType::FLOAT)
-					(void) v.pop_float();
-				else if (par.type() == DaedalusDataType::INSTANCE || par.type() == DaedalusDataType::STRING)
-					(void) v.pop_reference();
-			}
+			auto count = static_cast<uint32_t>(v.find_parameters_for_function(&sym).size());
+			v.truncate_stack(v._m_stack_ptr - std::min(count, std::uint32_t {v._m_stack_ptr}));
 
 			if (sym.has_return()) {
 				if (sym.rtype() == DaedalusDataType::FLOAT)
 					v.push_float(0.0f);
-				else if (sym.rtype() == DaedalusDataType::INT)
+				else if (sym.rtype() == DaedalusDataType::INT || sym.rtype() == DaedalusDataType::FUNCTION)
 					v.push_int(0);
 				else if (sym.rtype() == DaedalusDataType::STRING)
 					v.push_string("");
-- 
2.43.0


From ac7715ec8b091e2b3b9885f067cc42f99d1f4780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:12 +0000
Subject: [PATCH 102/116] fix: stack traces with values which can not be
 accessed

Printing the stack trace while handling an error raised another one, or dereferenced a null
pointer, if a value on the stack could not be accessed. Also use the instance the value belongs
to instead of the current one.
---
 src/DaedalusVm.cc | 69 +++++++++++++++++++++++++++--------------------
 1 file changed, 40 insertions(+), 29 deletions(-)

diff --git a/src/DaedalusVm.cc b/src/DaedalusVm.cc
index 738da30..eba4b4f 100644
--- a/src/DaedalusVm.cc
+++ b/src/DaedalusVm.cc
@@ -932,6 +932,10 @@ namespace zenkit {
 		_m_exception_handler = callback;
 	}
 
+	static char const* instance_type_name(DaedalusInstance const& inst) {
+		return inst.instance_type() == nullptr ? "<unknown>" : inst.instance_type()->name();
+	}
+
 	void DaedalusVm::print_stack_trace() const {
 		auto last_pc = _m_pc;
 		auto tmp_stack_ptr = _m_stack_ptr;
@@ -957,32 +961,36 @@ namespace zenkit {
 				auto ref = std::get<DaedalusSymbol*>(v.value);
 				std::string value;
 
-				switch (ref->type()) {
-				case DaedalusDataType::FLOAT:
-					value = std::to_string(ref->get_float(v.index, _m_instance.get()));
-					break;
-				case DaedalusDataType::INT:
-					value = std::to_string(ref->get_int(v.index, _m_instance.get()));
-					break;
-				case DaedalusDataType::STRING:
-					value = "'" + ref->get_string(v.index, _m_instance.get()) + "'";
-					break;
-				case DaedalusDataType::FUNCTION: {
-					auto index = ref->get_int(v.index, _m_instance.get());
-					auto sym = find_symbol_by_index(static_cast<uint32_t>(index));
-					value = "&" + sym->name();
-					break;
-				}
-				case DaedalusDataType::INSTANCE: {
-					if (auto& inst = ref->get_instance(); inst != nullptr) {
-						value = "<instance of '" + std::string(inst->_m_type->name()) + "'>";
-					} else {
-						value = "NULL";
+				try {
+					switch (ref->type()) {
+					case DaedalusDataType::FLOAT:
+						value = std::to_string(ref->get_float(v.index, v.context.get()));
+						break;
+					case DaedalusDataType::INT:
+						value = std::to_string(ref->get_int(v.index, v.context.get()));
+						break;
+					case DaedalusDataType::STRING:
+						value = "'" + ref->get_string(v.index, v.context.get()) + "'";
+						break;
+					case DaedalusDataType::FUNCTION: {
+						auto index = ref->get_int(v.index, v.context.get());
+						auto sym = find_symbol_by_index(static_cast<uint32_t>(index));
+						value = sym == nullptr ? "NULL" : "&" + sym->name();
+						break;
 					}
-					break;
-				}
-				default:
-					value = "<invalid stack frame>";
+					case DaedalusDataType::INSTANCE: {
+						if (auto& inst = ref->get_instance(); inst != nullptr) {
+							value = "<instance of '" + std::string(instance_type_name(*inst)) + "'>";
+						} else {
+							value = "NULL";
+						}
+						break;
+					}
+					default:
+						value = "<invalid stack frame>";
+					}
+				} catch (DaedalusScriptError const&) {
+					value = "<inaccessible>";
 				}
 
 				ZKLOGE("DaedalusVm",
@@ -1003,7 +1011,7 @@ namespace zenkit {
 						ZKLOGE("DaedalusVm",
 						       "%d: [IMMEDIATE INSTANCE] = <instance of '%s'>",
 						       tmp_stack_ptr,
-						       inst->_m_type->name());
+						       instance_type_name(*inst));
 					}
 				}
 			}
@@ -1020,7 +1028,7 @@ namespace zenkit {
 		};
 
 		for (auto* sym : symbols) {
-			if (sym == nullptr) continue;
+			if (sym == nullptr || sym->type() != DaedalusDataType::INSTANCE || sym->is_member()) continue;
 
 			auto instance = sym->get_instance();
 			if (instance != nullptr && instance->symbol_index() != static_cast<uint32_t>(-1)) {
@@ -1028,7 +1036,7 @@ namespace zenkit {
 				ZKLOGE("DaedalusVm",
 				       "%s = %s (%u)",
 				       sym->name().c_str(),
-				       instance_symbol->name().c_str(),
+				       instance_symbol == nullptr ? "<unknown>" : instance_symbol->name().c_str(),
 				       instance->symbol_index());
 			} else if (instance == nullptr) {
 				ZKLOGE("DaedalusVm", "%s = NULL", sym->name().c_str());
@@ -1039,7 +1047,10 @@ namespace zenkit {
 
 		if (_m_instance != nullptr && _m_instance->symbol_index() != static_cast<uint32_t>(-1)) {
 			auto instance_symbol = find_symbol_by_instance(_m_instance);
-			ZKLOGE("DaedalusVm", "<__THIS__> = %s (%u)", instance_symbol->name().c_str(), _m_instance->symbol_index());
+			ZKLOGE("DaedalusVm",
+			       "<__THIS__> = %s (%u)",
+			       instance_symbol == nullptr ? "<unknown>" : instance_symbol->name().c_str(),
+			       _m_instance->symbol_index());
 		} else if (_m_instance == nullptr) {
 			ZKLOGE("DaedalusVm", "<__THIS__> = NULL");
 		} else {
-- 
2.43.0


From 573e40b835f519de1f6b60dd81b21ae837e86b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:12 +0000
Subject: [PATCH 103/116] fix: instances of damaged and unregistered classes

Chains of parents which end, or never end, before reaching a class and opaque instances of
classes not registered as such are now refused instead of dereferencing null pointers, looping
forever or writing outside of the instance.
---
 include/zenkit/DaedalusVm.hh |  6 ++++--
 src/DaedalusVm.cc            | 11 +++++++++--
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/include/zenkit/DaedalusVm.hh b/include/zenkit/DaedalusVm.hh
index e6e39f8..0f9a291 100644
--- a/include/zenkit/DaedalusVm.hh
+++ b/include/zenkit/DaedalusVm.hh
@@ -332,11 +332,13 @@ namespace zenkit {
 				                           ": parent class not found (did you try to initialize $INSTANCE_HELP?)"};
 			}
 
-			while (parent->type() != DaedalusDataType::CLASS) {
+			// instances of prototypes of prototypes of ... of classes; never more than there are symbols
+			for (auto n = symbols().size(); n > 0 && parent != nullptr && parent->type() != DaedalusDataType::CLASS; --n) {
 				parent = find_symbol_by_index(parent->parent());
 			}
 
-			if (parent->registered_to() != typeid(_instance_t)) {
+			if (parent == nullptr || parent->type() != DaedalusDataType::CLASS ||
+			    parent->registered_to() != typeid(_instance_t)) {
 				throw DaedalusVmException {"Cannot init " + sym->name() +
 				                           ": parent class is not registered or is "
 				                           "registered to a different instance class"};
diff --git a/src/DaedalusVm.cc b/src/DaedalusVm.cc
index eba4b4f..cadc06e 100644
--- a/src/DaedalusVm.cc
+++ b/src/DaedalusVm.cc
@@ -137,15 +137,22 @@ namespace zenkit {
 
 	std::shared_ptr<DaedalusInstance> DaedalusVm::init_opaque_instance(DaedalusSymbol* sym) {
 		auto cls = sym;
-		while (cls != nullptr && cls->type() != DaedalusDataType::CLASS) {
+		for (auto n = symbols().size(); n > 0 && cls != nullptr && cls->type() != DaedalusDataType::CLASS; --n) {
 			cls = find_symbol_by_index(cls->parent());
 		}
-		if (cls == nullptr) {
+		if (sym == nullptr) {
+			throw DaedalusVmException {"Cannot init instance: not found"};
+		}
+		if (cls == nullptr || cls->type() != DaedalusDataType::CLASS) {
 			// We're probably trying to initialize $INSTANCE_HELP which is not permitted
 			throw DaedalusVmException {"Cannot init " + sym->name() +
 			                           ": parent class not found (did you try to initialize $INSTANCE_HELP?)"};
 		}
 
+		if (cls->registered_to() != typeid(DaedalusOpaqueInstance)) {
+			throw DaedalusVmException {"Cannot init " + sym->name() + ": parent class is not registered as opaque"};
+		}
+
 		// create the instance
 		auto inst = std::make_shared<DaedalusOpaqueInstance>(*cls, find_class_members(*cls));
 		init_instance(inst, sym);
-- 
2.43.0


From abeece80244caf8fb886af0ba5eff6cdf75856dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:12 +0000
Subject: [PATCH 104/116] fix: instances without a type and function variables
 referring to themselves

The former dereferenced a null pointer in the error message, the latter never ended.
---
 include/zenkit/DaedalusVm.hh | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/include/zenkit/DaedalusVm.hh b/include/zenkit/DaedalusVm.hh
index 0f9a291..4fe2730 100644
--- a/include/zenkit/DaedalusVm.hh
+++ b/include/zenkit/DaedalusVm.hh
@@ -829,8 +829,8 @@ namespace zenkit {
 					auto& expected = typeid(typename T::element_type);
 
 					if (!r->_m_type) {
-						throw DaedalusVmException {"Popping instance of unregistered type: " +
-						                           std::string {r->_m_type->name()} + ", expected " + expected.name()};
+						throw DaedalusVmException {std::string {"Popping instance of unregistered type, expected "} +
+						                           expected.name()};
 					}
 
 					if (*r->_m_type != expected) {
@@ -847,8 +847,8 @@ namespace zenkit {
 					auto& expected = typeid(std::remove_pointer_t<T>);
 
 					if (!r->_m_type) {
-						throw DaedalusVmException {"Popping instance of unregistered type: " +
-						                           std::string {r->_m_type->name()} + ", expected " + expected.name()};
+						throw DaedalusVmException {std::string {"Popping instance of unregistered type, expected "} +
+						                           expected.name()};
 					}
 
 					if (*r->_m_type != expected) {
@@ -872,7 +872,13 @@ namespace zenkit {
 				auto symbol_id = static_cast<uint32_t>(pop_int());
 
 				auto* sym = find_symbol_by_index(symbol_id);
-				while (sym != nullptr && sym->type() == DaedalusDataType::FUNCTION && !sym->is_const()) {
+				for (auto n = symbols().size();
+				     sym != nullptr && sym->type() == DaedalusDataType::FUNCTION && !sym->is_const();
+				     --n) {
+					if (n == 0) {
+						throw DaedalusVmException {"function variable refers to itself: " + sym->name()};
+					}
+
 					symbol_id = static_cast<uint32_t>(sym->get_int());
 					sym = find_symbol_by_index(symbol_id);
 				}
@@ -909,7 +915,7 @@ namespace zenkit {
 			} else if constexpr (std::convertible_to<std::int32_t, T>) {
 				push_int(static_cast<std::int32_t>(v));
 			} else if constexpr (std::same_as<DaedalusFunction, T>) {
-				push_int(static_cast<std::int32_t>(v.value->index()));
+				push_int(v.value == nullptr ? -1 : static_cast<std::int32_t>(v.value->index()));
 			} else if constexpr (std::same_as<T, std::string> || std::same_as<T, std::string_view>) {
 				push_string(v);
 			} else {
@@ -1007,8 +1013,8 @@ namespace zenkit {
 					auto& expected = typeid(typename R::element_type);
 
 					if (!r->_m_type) {
-						throw DaedalusVmException {"Popping instance of unregistered type: " +
-						                           std::string {r->_m_type->name()} + ", expected " + expected.name()};
+						throw DaedalusVmException {std::string {"Popping instance of unregistered type, expected "} +
+						                           expected.name()};
 					}
 
 					if (*r->_m_type != expected) {
-- 
2.43.0


From e483f6fc27b70e22fc3c7b8aaec2290ed601aed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:12 +0000
Subject: [PATCH 105/116] fix: functions and instances as return values

Calling a script function for a DaedalusFunction did not return anything, for a pointer to the
base class of all instances was always refused, and externals returning functions, which are
documented to be integers in C++, could not be registered.
---
 include/zenkit/DaedalusVm.hh | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/zenkit/DaedalusVm.hh b/include/zenkit/DaedalusVm.hh
index 4fe2730..b7a5b82 100644
--- a/include/zenkit/DaedalusVm.hh
+++ b/include/zenkit/DaedalusVm.hh
@@ -458,7 +458,8 @@ namespace zenkit {
 				} else if constexpr (std::floating_point<R>) {
 					if (sym->rtype() != DaedalusDataType::FLOAT) throw DaedalusIllegalExternalReturnType(sym, "float");
 				} else if constexpr (std::convertible_to<int32_t, R>) {
-					if (sym->rtype() != DaedalusDataType::INT) throw DaedalusIllegalExternalReturnType(sym, "int");
+					if (sym->rtype() != DaedalusDataType::INT && sym->rtype() != DaedalusDataType::FUNCTION)
+						throw DaedalusIllegalExternalReturnType(sym, "int");
 				} else if constexpr (std::convertible_to<std::string, R>) {
 					if (sym->rtype() != DaedalusDataType::STRING)
 						throw DaedalusIllegalExternalReturnType(sym, "string");
@@ -545,7 +546,8 @@ namespace zenkit {
 				} else if constexpr (std::floating_point<R>) {
 					if (sym->rtype() != DaedalusDataType::FLOAT) throw DaedalusIllegalExternalReturnType(sym, "float");
 				} else if constexpr (std::convertible_to<int32_t, R>) {
-					if (sym->rtype() != DaedalusDataType::INT) throw DaedalusIllegalExternalReturnType(sym, "int");
+					if (sym->rtype() != DaedalusDataType::INT && sym->rtype() != DaedalusDataType::FUNCTION)
+						throw DaedalusIllegalExternalReturnType(sym, "int");
 				} else if constexpr (std::convertible_to<std::string, R>) {
 					if (sym->rtype() != DaedalusDataType::STRING)
 						throw DaedalusIllegalExternalReturnType(sym, "string");
@@ -1009,7 +1011,7 @@ namespace zenkit {
 			if constexpr (DaedalusInstancePointer<R>) {
 				auto r = pop_instance();
 
-				if (r != nullptr) {
+				if (r != nullptr && !std::same_as<R, std::shared_ptr<DaedalusInstance>>) {
 					auto& expected = typeid(typename R::element_type);
 
 					if (!r->_m_type) {
@@ -1030,6 +1032,8 @@ namespace zenkit {
 				return pop_int();
 			} else if constexpr (std::same_as<std::string, R>) {
 				return pop_string();
+			} else if constexpr (std::same_as<DaedalusFunction, R>) {
+				return pop_value_for_external<DaedalusFunction>();
 			}
 		}
 
-- 
2.43.0


From dba4236c1940f40ae9e068777553670c6bffc527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:12 +0000
Subject: [PATCH 106/116] fix: return values of functions which do not return
 anything

---
 include/zenkit/DaedalusVm.hh | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/zenkit/DaedalusVm.hh b/include/zenkit/DaedalusVm.hh
index b7a5b82..42752fc 100644
--- a/include/zenkit/DaedalusVm.hh
+++ b/include/zenkit/DaedalusVm.hh
@@ -953,6 +953,10 @@ namespace zenkit {
 		             std::same_as<R, std::string> ||      //
 		             std::same_as<R, void>)
 		void check_call_return_type(DaedalusSymbol const* sym) {
+			if (!std::same_as<void, R> && !sym->has_return()) {
+				throw DaedalusVmException {"invalid return type for function " + sym->name()};
+			}
+
 			if constexpr (DaedalusInstancePointer<R>) {
 				if (sym->rtype() != DaedalusDataType::INSTANCE)
 					throw DaedalusVmException {"invalid return type for function " + sym->name()};
-- 
2.43.0


From e40dfffa428ac67583ef76f1683ad4ba07795aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:12 +0000
Subject: [PATCH 107/116] fix: scripts accessing the storage of temporary
 strings

It is not part of the script and popping a reference to it releases a string which may be in
use.
---
 src/DaedalusVm.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DaedalusVm.cc b/src/DaedalusVm.cc
index cadc06e..1f33063 100644
--- a/src/DaedalusVm.cc
+++ b/src/DaedalusVm.cc
@@ -353,7 +353,7 @@ namespace zenkit {
 			case DaedalusOpcode::PUSHVI:
 			case DaedalusOpcode::PUSHV:
 				sym = find_symbol_by_index(instr.symbol);
-				if (sym == nullptr) {
+				if (sym == nullptr || sym == _m_temporary_strings) {
 					throw DaedalusVmException {"pushv: no symbol found for index"};
 				}
 				if (sym->has_access_trap() && _m_access_trap) {
@@ -485,7 +485,7 @@ namespace zenkit {
 			}
 			case DaedalusOpcode::PUSHVV:
 				sym = find_symbol_by_index(instr.symbol);
-				if (sym == nullptr) {
+				if (sym == nullptr || sym == _m_temporary_strings) {
 					throw DaedalusVmException {"pushvv: no symbol found for index"};
 				}
 
-- 
2.43.0


From ba683b06918cf7e4291fd0dc894a80294f69e21a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:03 +0000
Subject: [PATCH 108/116] hook: observe instructions executed by the script
 machine

Only compiled with ZK_VP_HOOKS.
---
 src/DaedalusVm.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/DaedalusVm.cc b/src/DaedalusVm.cc
index 1f33063..c8d5374 100644
--- a/src/DaedalusVm.cc
+++ b/src/DaedalusVm.cc
@@ -188,6 +188,11 @@ namespace zenkit {
 		_m_instance = std::move(i);
 	}
 
+#ifdef ZK_VP_HOOKS
+	// Called before every instruction with the current sizes of both stacks. Only used for verification.
+	void (*zk_vp_exec_hook)(DaedalusVm&, DaedalusInstruction const&, std::size_t stack, std::size_t calls) = nullptr;
+#endif
+
 	bool DaedalusVm::exec() {
 		auto instr = instruction_at(_m_pc);
 
@@ -196,6 +201,10 @@ namespace zenkit {
 			                           ": outside of the script"};
 		}
 
+#ifdef ZK_VP_HOOKS
+		if (zk_vp_exec_hook != nullptr) zk_vp_exec_hook(*this, instr, _m_stack_ptr, _m_call_stack.size());
+#endif
+
 		try {
 			std::int32_t a, b;
 			DaedalusSymbol* sym;
-- 
2.43.0


From 3a50b537167b88104d76b6b19c1cbc88b29ebcbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:23 +0000
Subject: [PATCH 109/116] fix: results of recursive functions with local
 variables

A function whose local variables are saved may return a reference to one of
them. The locals were restored before the caller looked at the result, so the
caller received its own value of the variable instead of the callee's.
---
 src/DaedalusVm.cc | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/DaedalusVm.cc b/src/DaedalusVm.cc
index c8d5374..646ff01 100644
--- a/src/DaedalusVm.cc
+++ b/src/DaedalusVm.cc
@@ -704,12 +704,36 @@ namespace zenkit {
 			return;
 		}
 
+		auto locals = this->find_locals_for_function(sym);
+
 		DaedalusStackFrame ret;
 		if (has_value) {
 			ret = std::move(_m_stack[--_m_stack_ptr]);
-		}
 
-		auto locals = this->find_locals_for_function(sym);
+			// The function might return one of its local variables, which are about to be restored.
+			auto* const* var = std::get_if<DaedalusSymbol*>(&ret.value);
+			if (ret.reference && var != nullptr && *var >= locals.data() && *var < locals.data() + locals.size() &&
+			    !(*var)->is_const() && !(*var)->is_member() && ret.index < (*var)->count()) {
+				switch ((*var)->type()) {
+				case DaedalusDataType::FLOAT:
+					ret = {nullptr, false, (*var)->get_float(ret.index, ret.context.get())};
+					break;
+				case DaedalusDataType::FUNCTION:
+				case DaedalusDataType::INT:
+					ret = {nullptr, false, (*var)->get_int(ret.index, ret.context.get())};
+					break;
+				case DaedalusDataType::STRING:
+					push_string((*var)->get_string(ret.index, ret.context.get()));
+					ret = std::move(_m_stack[--_m_stack_ptr]);
+					break;
+				case DaedalusDataType::INSTANCE:
+					ret = {nullptr, false, (*var)->get_instance()};
+					break;
+				default:
+					break;
+				}
+			}
+		}
 		for (size_t i = locals.size(); i > 0;) {
 			--i;
 			auto& l = locals[i];
-- 
2.43.0


From c9e956f13e0d8a745e9354afbd00aeb3fc8ad3ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:30 +0000
Subject: [PATCH 110/116] fix: endless loops in damaged binary archives

Skipping an object which declares to be smaller than its header lead back to its beginning.
---
 src/archive/ArchiveBinary.cc | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/archive/ArchiveBinary.cc b/src/archive/ArchiveBinary.cc
index 64f1ce9..5096874 100644
--- a/src/archive/ArchiveBinary.cc
+++ b/src/archive/ArchiveBinary.cc
@@ -36,12 +36,19 @@ namespace zenkit {
 		if (read->eof()) return false;
 
 		auto pos = read->tell();
-		_m_object_end.push(pos + read->read_uint());
+		auto end = pos + read->read_uint();
 
 		obj.version = read->read_ushort();
 		obj.index = read->read_uint();
 		obj.object_name = read->read_line(false);
 		obj.class_name = read->read_line(false);
+
+		// Otherwise, skipping the object would lead back to its beginning.
+		if (end < read->tell()) {
+			throw ParserError {"ReadArchiveBinary", "object is smaller than its header"};
+		}
+
+		_m_object_end.push(end);
 		return true;
 	}
 
@@ -128,7 +135,12 @@ namespace zenkit {
 			read->seek(static_cast<ssize_t>(_m_object_end.top()), Whence::BEG);
 			_m_object_end.pop();
 		} else {
-			read->seek(read->read_uint() - 4, Whence::CUR);
+			auto size = read->read_uint();
+			if (size < 4) {
+				throw ParserError {"ReadArchiveBinary", "object is smaller than its header"};
+			}
+
+			read->seek(static_cast<ssize_t>(size) - 4, Whence::CUR);
 		}
 	}
 
-- 
2.43.0


From 2daf6fa9709f691744cf5faad0503d8531819c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:45 +0000
Subject: [PATCH 111/116] fix: objects nested without end in archives

Loading such archives overflowed the stack.
---
 include/zenkit/Archive.hh |  1 +
 src/Archive.cc            | 17 ++++++++++++++++-
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/include/zenkit/Archive.hh b/include/zenkit/Archive.hh
index 148f7ec..6bd17fd 100644
--- a/include/zenkit/Archive.hh
+++ b/include/zenkit/Archive.hh
@@ -257,6 +257,7 @@ namespace zenkit {
 	private:
 		std::unordered_map<uint32_t, std::shared_ptr<Object>> _m_cache {};
 		std::unique_ptr<Read> _m_owned;
+		std::uint32_t _m_object_depth {0};
 	};
 
 	class ZKAPI WriteArchive {
diff --git a/src/Archive.cc b/src/Archive.cc
index c3c13fc..b594f1e 100644
--- a/src/Archive.cc
+++ b/src/Archive.cc
@@ -255,6 +255,9 @@ namespace zenkit {
 		return reader;
 	}
 
+	/// \brief The number of objects which may be loaded from within each other.
+	static constexpr auto MAX_OBJECT_DEPTH = 500u;
+
 	std::shared_ptr<Object> ReadArchive::read_object(GameVersion version) {
 		ArchiveObject obj;
 		if (!this->read_object_begin(obj)) {
@@ -518,7 +521,19 @@ namespace zenkit {
 			}
 
 			_m_cache.insert_or_assign(obj.index, syn);
-			syn->load(*this, version);
+
+			if (_m_object_depth >= MAX_OBJECT_DEPTH) {
+				throw ParserError {"ReadArchive", "objects are nested too deeply"};
+			}
+
+			++_m_object_depth;
+			try {
+				syn->load(*this, version);
+			} catch (...) {
+				--_m_object_depth;
+				throw;
+			}
+			--_m_object_depth;
 		}
 
 		if (!this->read_object_end()) {
-- 
2.43.0


From ca21a47dee3421a539b1574ea479c747250f3146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:20 +0000
Subject: [PATCH 112/116] fix: untrusted counts in archives

---
 src/CutsceneLibrary.cc        |  4 +++-
 src/archive/ArchiveBinary.cc  |  4 +++-
 src/archive/ArchiveBinsafe.cc |  2 +-
 src/vobs/Camera.cc            |  5 +++++
 src/vobs/Misc.cc              | 10 +++++-----
 src/vobs/MovableObject.cc     |  4 +++-
 src/world/WayNet.cc           |  4 ++--
 7 files changed, 22 insertions(+), 11 deletions(-)

diff --git a/src/CutsceneLibrary.cc b/src/CutsceneLibrary.cc
index a381e1e..299efae 100644
--- a/src/CutsceneLibrary.cc
+++ b/src/CutsceneLibrary.cc
@@ -7,6 +7,8 @@
 
 #include "zenkit/vobs/Misc.hh"
 
+#include "Internal.hh"
+
 #include <algorithm>
 
 namespace zenkit {
@@ -122,7 +124,7 @@ namespace zenkit {
 	}
 
 	void CutsceneLibrary::load(ReadArchive& r, GameVersion version) {
-		auto item_count = r.read_int(); // NumOfItems
+		auto item_count = check_count(r.get_stream(), "CutsceneLibrary", r.read_int(), 1); // NumOfItems
 		this->blocks.clear();
 
 		for (auto i = 0; i < item_count; ++i) {
diff --git a/src/archive/ArchiveBinary.cc b/src/archive/ArchiveBinary.cc
index 5096874..2cd7897 100644
--- a/src/archive/ArchiveBinary.cc
+++ b/src/archive/ArchiveBinary.cc
@@ -3,6 +3,8 @@
 #include "ArchiveBinary.hh"
 #include "zenkit/Error.hh"
 
+#include "../Internal.hh"
+
 #include <charconv>
 #include <cstring>
 #include <stdexcept>
@@ -117,7 +119,7 @@ namespace zenkit {
 	}
 
 	std::unique_ptr<Read> ReadArchiveBinary::read_raw(std::size_t size) {
-		std::vector bytes(size, std::byte {});
+		std::vector bytes(check_count(read, "ReadArchive.Binary", size, 1), std::byte {});
 		read->read(bytes.data(), bytes.size());
 		return Read::from(std::move(bytes));
 	}
diff --git a/src/archive/ArchiveBinsafe.cc b/src/archive/ArchiveBinsafe.cc
index fd454c0..a96d360 100644
--- a/src/archive/ArchiveBinsafe.cc
+++ b/src/archive/ArchiveBinsafe.cc
@@ -20,7 +20,7 @@ namespace zenkit {
 			auto mark = read->tell();
 			read->seek(hash_table_offset, Whence::BEG);
 
-			auto hash_table_size = read->read_uint();
+			auto hash_table_size = check_count(read, "ReadArchive.Binsafe", read->read_uint(), 8);
 			if (hash_table_size > std::numeric_limits<std::uint16_t>::max() + 1u) {
 				throw ParserError {"ReadArchive.Binsafe", "hash table too large"};
 			}
diff --git a/src/vobs/Camera.cc b/src/vobs/Camera.cc
index ae827cf..79f197c 100644
--- a/src/vobs/Camera.cc
+++ b/src/vobs/Camera.cc
@@ -3,6 +3,8 @@
 #include "zenkit/vobs/Camera.hh"
 #include "zenkit/Archive.hh"
 
+#include "../Internal.hh"
+
 namespace zenkit {
 	std::unique_ptr<VCameraTrajectoryFrame> VCameraTrajectoryFrame::parse(ReadArchive& r, GameVersion version) {
 		auto obj = std::make_unique<VCameraTrajectoryFrame>();
@@ -73,6 +75,9 @@ namespace zenkit {
 		this->position_count = r.read_int();              // numPos
 		this->target_count = r.read_int();                // numTargets
 
+		check_count(r.get_stream(), "VCutsceneCamera", this->position_count, 1);
+		check_count(r.get_stream(), "VCutsceneCamera", this->target_count, 1);
+
 		for (auto i = 0; i < this->position_count; ++i) {
 			auto obj = r.read_object<VCameraTrajectoryFrame>(version);
 			this->trajectory_frames.push_back(obj);
diff --git a/src/vobs/Misc.cc b/src/vobs/Misc.cc
index 2f6d103..159e12a 100644
--- a/src/vobs/Misc.cc
+++ b/src/vobs/Misc.cc
@@ -281,7 +281,7 @@ namespace zenkit {
 		this->model_scale = r.read_vec3();    // modelScale
 		this->model_fatness = r.read_float(); // modelFatness
 
-		auto overlay_count = r.read_int(); // numOverlays
+		auto overlay_count = check_count(r.get_stream(), "VNpc", r.read_int(), 1); // numOverlays
 		for (auto i = 0; i < overlay_count; ++i) {
 			this->overlays.push_back(r.read_string()); // overlay
 		}
@@ -294,7 +294,7 @@ namespace zenkit {
 		this->xp_next_level = r.read_int(); // xpnl
 		this->lp = r.read_int();            // lp
 
-		auto talent_count = static_cast<std::size_t>(r.read_int()); // numTalents
+		auto talent_count = static_cast<std::size_t>(check_count(r.get_stream(), "VNpc", r.read_int(), 1)); // numTalents
 		this->talents.resize(talent_count);
 
 		for (auto i = 0u; i < talent_count; ++i) {
@@ -339,7 +339,7 @@ namespace zenkit {
 		// unknown.
 		[[maybe_unused]] auto spells = r.read_raw(4); // spells
 
-		auto news_count = r.read_int(); // NumOfEntries
+		auto news_count = check_count(r.get_stream(), "VNpc", r.read_int(), 1); // NumOfEntries
 		for (auto i = 0; i < news_count; ++i) {
 			auto n = std::make_unique<News>();
 			n->told = r.read_bool();                                // told
@@ -374,7 +374,7 @@ namespace zenkit {
 			}
 		}
 
-		auto item_count = static_cast<size_t>(r.read_int()); // itemCount
+		auto item_count = static_cast<size_t>(check_count(r.get_stream(), "VNpc", r.read_int(), 1)); // itemCount
 		this->items.resize(item_count);
 
 		for (auto i = 0u; i < item_count; ++i) {
@@ -385,7 +385,7 @@ namespace zenkit {
 			}
 		}
 
-		auto inv_slot_count = static_cast<uint32_t>(r.read_int()); // numInvSlots
+		auto inv_slot_count = static_cast<uint32_t>(check_count(r.get_stream(), "VNpc", r.read_int(), 1)); // numInvSlots
 		this->slots.resize(inv_slot_count);
 		for (auto i = 0u; i < inv_slot_count; ++i) {
 			this->slots[i] = std::make_unique<Slot>();
diff --git a/src/vobs/MovableObject.cc b/src/vobs/MovableObject.cc
index 5bb5058..71fde59 100644
--- a/src/vobs/MovableObject.cc
+++ b/src/vobs/MovableObject.cc
@@ -3,6 +3,8 @@
 #include "zenkit/vobs/MovableObject.hh"
 #include "zenkit/Archive.hh"
 
+#include "../Internal.hh"
+
 namespace zenkit {
 	void VMovableObject::parse(VMovableObject& obj, ReadArchive& r, GameVersion version) {
 		obj.load(r, version);
@@ -83,7 +85,7 @@ namespace zenkit {
 
 		if (r.is_save_game()) {
 			// In save-games, containers contain extra variables
-			auto item_count = static_cast<size_t>(r.read_int()); // NumOfEntries
+			auto item_count = static_cast<size_t>(check_count(r.get_stream(), "VContainer", r.read_int(), 1)); // NumOfEntries
 			this->s_items.resize(item_count);
 
 			for (auto i = 0u; i < item_count; ++i) {
diff --git a/src/world/WayNet.cc b/src/world/WayNet.cc
index c5b5cb9..2494f34 100644
--- a/src/world/WayNet.cc
+++ b/src/world/WayNet.cc
@@ -27,7 +27,7 @@ namespace zenkit {
 
 	void WayNet::load(ReadArchive& r, GameVersion version) {
 		[[maybe_unused]] auto ver = r.read_int(); // waynetVersion
-		auto count_points = r.read_int();         // numWaypoints
+		auto count_points = check_count(r.get_stream(), "WayNet", r.read_int(), 1); // numWaypoints
 		std::unordered_set<WayPoint const*> known {};
 
 		for (auto i = 0; i < count_points; ++i) {
@@ -41,7 +41,7 @@ namespace zenkit {
 			this->points.push_back(std::move(point));
 		}
 
-		auto count_edges = r.read_int(); // numWays
+		auto count_edges = check_count(r.get_stream(), "WayNet", r.read_int(), 1); // numWays
 		for (auto i = 0; i < count_edges; ++i) {
 			auto wayl = r.read_object<WayPoint>(version);
 			auto wayr = r.read_object<WayPoint>(version);
-- 
2.43.0


From 01a1d110ae6a5f95a2690fa2bb4c45586fa20cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:07 +0000
Subject: [PATCH 113/116] fix: log messages of different threads

All messages were formatted into one global buffer, so a thread could deliver the
text of another one, half of each, or its own message changed by a callback which
logs itself.
---
 src/Logger.cc | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/Logger.cc b/src/Logger.cc
index f8efbd5..b01246a 100644
--- a/src/Logger.cc
+++ b/src/Logger.cc
@@ -18,14 +18,18 @@
 #define PREFIX "[" ANSI_MAGENTA ANSI_BOLD "ZenKit" ANSI_RESET "]"
 
 namespace zenkit {
-	static char zk_global_logger_buffer[4096];
-
 	std::function<void(LogLevel, char const*, char const*)> Logger::_s_callback {};
 	LogLevel Logger::_s_level {LogLevel::INFO};
 
 	ZKINT static void zk_internal_logger_default(LogLevel level, char const* name, char const* message) {
 		time_t now_t = time(nullptr);
-		tm* now = gmtime(&now_t);
+		tm now_tm {};
+#ifdef _WIN32
+		gmtime_s(&now_tm, &now_t);
+#else
+		gmtime_r(&now_t, &now_tm);
+#endif
+		tm* now = &now_tm;
 
 		fprintf(stderr,
 		        ANSI_GRAY "%04d-%02d-%02d %02d:%02d:%02d " ANSI_RESET,
@@ -75,8 +79,11 @@ namespace zenkit {
 	void Logger::logv(LogLevel lvl, char const* name, char const* fmt, va_list ap) {
 		if (!_s_callback) return;
 		if (lvl > _s_level) return;
-		vsnprintf(zk_global_logger_buffer, sizeof zk_global_logger_buffer - 1, fmt, ap);
-		_s_callback(lvl, name, zk_global_logger_buffer);
+
+		// NOTE: The buffer belongs to this call, because other threads and the callback itself may log in the meantime.
+		char buffer[4096];
+		vsnprintf(buffer, sizeof buffer - 1, fmt, ap);
+		_s_callback(lvl, name, buffer);
 	}
 
 	void Logger::set(LogLevel lvl, std::function<void(LogLevel, char const*, char const*)> const& cb) {
-- 
2.43.0


From 7b02dbf543ef07b3e82bb41fd508e9c59feaf985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:52 +0000
Subject: [PATCH 114/116] fix: write the size of the image to the header of a
 saved VDF

The catalog was counted twice: the data is written after a placeholder for it.
---
 src/Vfs.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Vfs.cc b/src/Vfs.cc
index 270a19b..cdf15a2 100644
--- a/src/Vfs.cc
+++ b/src/Vfs.cc
@@ -423,7 +423,7 @@ namespace zenkit {
 		w->write_uint(index);
 		w->write_uint(files);
 		w->write_uint(unix_t == 0 ? vfs_unix_to_dos_time(time(nullptr)) : vfs_unix_to_dos_time(unix_t));
-		w->write_uint(off + catalog.size());
+		w->write_uint(off);
 		w->write_uint(header_size);
 #ifdef _ZK_WITH_ZIPPED_VDF
 		w->write_uint(compressed ? VFS_VOLUME_FLAG_ZIPPED : VFS_VOLUME_FLAG_NORMAL);
-- 
2.43.0


From 1f1c711feccc7c96678b4e79aef4b8f1ed464d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:31 +0000
Subject: [PATCH 115/116] fix: replace the content of an object when loading
 into it

Loading appended to or kept parts of what the object held before, such as vobs, materials, attachments and animations of the file loaded before.
---
 src/Mesh.cc                | 2 ++
 src/ModelAnimation.cc      | 2 ++
 src/ModelHierarchy.cc      | 2 ++
 src/ModelMesh.cc           | 2 ++
 src/ModelScript.cc         | 2 ++
 src/MorphMesh.cc           | 2 ++
 src/MultiResolutionMesh.cc | 2 ++
 src/SoftSkinMesh.cc        | 2 ++
 src/World.cc               | 2 ++
 src/world/BspTree.cc       | 2 ++
 10 files changed, 20 insertions(+)

diff --git a/src/Mesh.cc b/src/Mesh.cc
index bcfd275..c510667 100644
--- a/src/Mesh.cc
+++ b/src/Mesh.cc
@@ -38,6 +38,8 @@ namespace zenkit {
 	}
 
 	void Mesh::load(Read* r, bool force_wide_indices) {
+		*this = Mesh {};
+
 		std::uint16_t version {};
 
 		proto::read_chunked<MeshChunkType>(
diff --git a/src/ModelAnimation.cc b/src/ModelAnimation.cc
index 5676085..44c65d8 100644
--- a/src/ModelAnimation.cc
+++ b/src/ModelAnimation.cc
@@ -70,6 +70,8 @@ namespace zenkit {
 	}
 
 	void ModelAnimation::load(Read* r) {
+		*this = ModelAnimation {};
+
 		proto::read_chunked<AnimationChunkType>(r, "ModelAnimation", [this](Read* c, AnimationChunkType type) {
 			switch (type) {
 			case AnimationChunkType::MARKER:
diff --git a/src/ModelHierarchy.cc b/src/ModelHierarchy.cc
index aefbd35..ca1f042 100644
--- a/src/ModelHierarchy.cc
+++ b/src/ModelHierarchy.cc
@@ -13,6 +13,8 @@ namespace zenkit {
 	};
 
 	void ModelHierarchy::load(Read* r) {
+		*this = ModelHierarchy {};
+
 		proto::read_chunked<ModelHierarchyChunkType>( //
 		    r,
 		    "ModelHierarchy",
diff --git a/src/ModelMesh.cc b/src/ModelMesh.cc
index 63572cd..01b7ab5 100644
--- a/src/ModelMesh.cc
+++ b/src/ModelMesh.cc
@@ -20,6 +20,8 @@ namespace zenkit {
 	};
 
 	void ModelMesh::load(Read* r) {
+		*this = ModelMesh {};
+
 		std::vector<std::string> attachment_names {};
 		size_t attachment_count = 0;
 		proto::read_chunked<ModelMeshChunkType>(
diff --git a/src/ModelScript.cc b/src/ModelScript.cc
index 3b55c88..4df3a27 100644
--- a/src/ModelScript.cc
+++ b/src/ModelScript.cc
@@ -444,6 +444,8 @@ namespace zenkit {
 	}
 
 	void ModelScript::load(Read* r) {
+		*this = ModelScript {};
+
 		auto potential_chunk_type = r->read_ushort();
 		r->seek(-2, Whence::CUR);
 
diff --git a/src/MorphMesh.cc b/src/MorphMesh.cc
index 3805758..e62f18d 100644
--- a/src/MorphMesh.cc
+++ b/src/MorphMesh.cc
@@ -15,6 +15,8 @@ namespace zenkit {
 	};
 
 	void MorphMesh::load(Read* r) {
+		*this = MorphMesh {};
+
 		proto::read_chunked<MorphMeshChunkType>(r, "MorphMesh", [this](Read* c, MorphMeshChunkType type) {
 			switch (type) {
 			case MorphMeshChunkType::SOURCES: {
diff --git a/src/MultiResolutionMesh.cc b/src/MultiResolutionMesh.cc
index 19e71ec..db514f1 100644
--- a/src/MultiResolutionMesh.cc
+++ b/src/MultiResolutionMesh.cc
@@ -14,6 +14,8 @@ namespace zenkit {
 	enum class MrmChunkType : std::uint16_t { MESH = 0xB100, END = 0xB1FF };
 
 	void MultiResolutionMesh::load(Read* r) {
+		*this = MultiResolutionMesh {};
+
 		proto::read_chunked<MrmChunkType>(r, "MultiResolutionMesh", [this](Read* c, MrmChunkType type) {
 			switch (type) {
 			case MrmChunkType::MESH:
diff --git a/src/SoftSkinMesh.cc b/src/SoftSkinMesh.cc
index 37d1eb9..ca27e98 100644
--- a/src/SoftSkinMesh.cc
+++ b/src/SoftSkinMesh.cc
@@ -17,6 +17,8 @@ namespace zenkit {
 	};
 
 	void SoftSkinMesh::load(Read* r) {
+		*this = SoftSkinMesh {};
+
 		proto::read_chunked<SoftSkinMeshChunkType>(r, "SoftSkinMesh", [this](Read* c, SoftSkinMeshChunkType type) {
 			switch (type) {
 			case SoftSkinMeshChunkType::HEADER:
diff --git a/src/World.cc b/src/World.cc
index 235475e..71adea8 100644
--- a/src/World.cc
+++ b/src/World.cc
@@ -73,6 +73,8 @@ namespace zenkit {
 	}
 
 	void World::load(ReadArchive& r, GameVersion version) {
+		*this = World {};
+
 		ArchiveObject hdr;
 
 		// Load properties of `zCWorld`
diff --git a/src/world/BspTree.cc b/src/world/BspTree.cc
index 567a082..5156023 100644
--- a/src/world/BspTree.cc
+++ b/src/world/BspTree.cc
@@ -85,6 +85,8 @@ namespace zenkit {
 	}
 
 	void BspTree::load(Read* r, std::uint32_t version) {
+		*this = BspTree {};
+
 		proto::read_chunked<BspChunkType>(r, "BspTree", [this, version](Read* c, BspChunkType type) {
 			ZKLOGI("BspTree", "Parsing chunk %x", static_cast<std::uint16_t>(type));
 
-- 
2.43.0


From 80cf0d79e43a5af9ed6431ce2a389cd202fc58b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:53:09 +0000
Subject: [PATCH 116/116] fix: indexing the fourth component of a quaternion
 read past its end

---
 include/zenkit/Misc.hh | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/zenkit/Misc.hh b/include/zenkit/Misc.hh
index 59295a0..6964628 100644
--- a/include/zenkit/Misc.hh
+++ b/include/zenkit/Misc.hh
@@ -160,10 +160,11 @@ namespace zenkit {
 	};
 
 	struct Quat {
-		float w, x, y, z;
+		// NOTE: The element operators and `pointer` expect the components in this order.
+		float x, y, z, w;
 
 		constexpr Quat() : Quat(0, 0, 0, 0) {}
-		constexpr Quat(float w, float x, float y, float z) : w(w), x(x), y(y), z(z) {}
+		constexpr Quat(float w, float x, float y, float z) : x(x), y(y), z(z), w(w) {}
 
 		constexpr float& operator[](unsigned index) {
 			return this->pointer()[index];
-- 
2.43.0

