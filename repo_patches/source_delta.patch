From 5ac8d855756ba599fe4eaa88ccc11238a181d0e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:48 +0000
Subject: [PATCH 01/47] fix: concurrent_queue::try_push must refuse when the
 queue is above its capacity

After set_capacity lowered the capacity below the current size, try_push
compared with == and let the queue grow without bound.
---
 include/dottorrent/concurrent_queue.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dottorrent/concurrent_queue.hpp b/include/dottorrent/concurrent_queue.hpp
index a2e1c6c..fbc4625 100644
--- a/include/dottorrent/concurrent_queue.hpp
+++ b/include/dottorrent/concurrent_queue.hpp
@@ -54,7 +54,7 @@ public:
     bool try_push(T &&item) {
         {
             std::unique_lock<std::mutex> lk(mutex_);
-            if (queue_.size() == capacity_)
+            if (queue_.size() >= capacity_)
                 return false;
             queue_.push(std::move(item));
         }
-- 
2.43.0


From 2b5564c9fa021be9a36cbdaecfa78079823b5260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:48 +0000
Subject: [PATCH 02/47] fix: concurrent_queue::set_capacity wakes producers
 waiting for room

Raising the capacity left threads blocked in push asleep although the
queue had room.
---
 include/dottorrent/concurrent_queue.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/dottorrent/concurrent_queue.hpp b/include/dottorrent/concurrent_queue.hpp
index fbc4625..11489eb 100644
--- a/include/dottorrent/concurrent_queue.hpp
+++ b/include/dottorrent/concurrent_queue.hpp
@@ -92,8 +92,11 @@ public:
 
     void set_capacity(std::size_t n) noexcept
     {
-        std::unique_lock<std::mutex> lk(mutex_);
-        capacity_ = n;
+        {
+            std::unique_lock<std::mutex> lk(mutex_);
+            capacity_ = n;
+        }
+        not_full_.notify_all();
     }
 
 private:
-- 
2.43.0


From 4978a682cee80f97ce60fc0cc3d4374ace916655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:34 +0000
Subject: [PATCH 03/47] fix: object_pool::get keeps its capacity when
 constructing an object fails

---
 include/dottorrent/object_pool.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dottorrent/object_pool.hpp b/include/dottorrent/object_pool.hpp
index a3cebee..d05206b 100644
--- a/include/dottorrent/object_pool.hpp
+++ b/include/dottorrent/object_pool.hpp
@@ -122,8 +122,8 @@ private:
             // try to retrieve an unused resource from the pool
             if (queue_.try_pop(resource)) {}
             else if (resources_left_.load(std::memory_order_relaxed) != 0) {
-                resources_left_.fetch_sub(1, std::memory_order_relaxed);
                 resource = std::invoke(Policy::construct);
+                resources_left_.fetch_sub(1, std::memory_order_relaxed);
             } else {
                 queue_.pop(resource);
             }
-- 
2.43.0


From 683c66ba832c26495b46a385e3cf37809902093f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:34 +0000
Subject: [PATCH 04/47] fix: concurrent_queue_processor workers end on exactly
 one stop signal each

Workers could take each other's stop signals, leaving others blocked in pop
forever, and aborted on work left over after a cancellation.
---
 .../dottorrent/concurrent_queue_processor.hpp | 39 +++++--------------
 1 file changed, 10 insertions(+), 29 deletions(-)

diff --git a/include/dottorrent/concurrent_queue_processor.hpp b/include/dottorrent/concurrent_queue_processor.hpp
index 78ab969..b251f18 100644
--- a/include/dottorrent/concurrent_queue_processor.hpp
+++ b/include/dottorrent/concurrent_queue_processor.hpp
@@ -74,17 +74,11 @@ public:
     {
         if (!started()) return;
 
-        // Wake threads that remain blocked on pop calls.
+        // Queue a stop signal per worker behind all pending work.
         for  (auto i = 0; i < threads_.size(); ++i) {
             queue_->push(std::nullopt);
         }
 
-        // Wake threads that remain blocked on pop calls.
-        for  (auto i = 0; !done() && i < threads_.size(); ++i) {
-            queue_->try_push(std::nullopt);
-            std::this_thread::sleep_for(std::chrono::milliseconds(10));
-        }
-
         // should all be finished by now and ready to join
         for (auto& t : threads_) {
             t.join();
@@ -122,7 +116,9 @@ public:
 
     ~concurrent_queue_processor()
     {
-        if (started() && !done()) {
+        bool joinable = std::any_of(threads_.begin(), threads_.end(),
+                [](const auto& t) { return t.joinable(); });
+        if (started() && joinable) {
             request_stop();
             wait();
         }
@@ -136,32 +132,17 @@ private:
 
         std::optional<parameter_type> item {};
 
-        // Process tasks until stopped is set
-        while (!stop_token.stop_requested() && stop_token.stop_possible()) {
+        // Process tasks until the stop signal of this worker arrives. Every worker consumes
+        // exactly one stop signal. Pending work is discarded when cancelled.
+        while (true) {
             queue_->pop(item);
-            // check if the data_chunk is valid or a stop wake-up signal, a default constructed parameter type
+            // check if the item is valid or a stop signal
             if (!item.has_value())
-                continue;
-            std::invoke(work_function_, std::move(*item));
-        }
-
-        // finish pending tasks if the hasher is not cancelled,
-        // otherwise discard all remaining work
-        if (!cancelled_.load(std::memory_order_relaxed)) {
-            while (queue_->try_pop(item)) {
-                if (!item.has_value())
-                    break;
+                break;
+            if (!cancelled_.load(std::memory_order_relaxed))
                 std::invoke(work_function_, std::move(*item));
-            }
         }
         done_[thread_idx] = true;
-
-        // Remaining pieces should all be empty
-        if (queue_->size() != 0) {
-            while (queue_->try_pop(item)) {
-                Ensures(!item.has_value());
-            }
-        }
     }
 
     std::vector<std::jthread> threads_;
-- 
2.43.0


From b1a38b6c98704b4ad6fe817aed5dfd0571b6d861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:34 +0000
Subject: [PATCH 05/47] fix: chunk processors keep draining their queue until
 their own stop signal

A cancelled hasher left its queue undrained, so the reader or wait() blocked
forever on a full queue.
---
 src/chunk_hasher_multi_buffer.cpp  | 26 +++++++-------------------
 src/chunk_hasher_single_buffer.cpp | 26 +++++++-------------------
 src/chunk_processor_base.cpp       | 10 +---------
 3 files changed, 15 insertions(+), 47 deletions(-)

diff --git a/src/chunk_hasher_multi_buffer.cpp b/src/chunk_hasher_multi_buffer.cpp
index d99a182..39f586b 100644
--- a/src/chunk_hasher_multi_buffer.cpp
+++ b/src/chunk_hasher_multi_buffer.cpp
@@ -15,35 +15,23 @@ void chunk_hasher_multi_buffer::run(std::stop_token stop_token, int thread_idx)
 
     data_chunk item{};
 
-    // Process tasks until stopped is set
-    while (!stop_token.stop_requested() && stop_token.stop_possible()) {
+    // Process tasks until the stop signal of this worker arrives. Every worker consumes
+    // exactly one stop signal. Pending work is discarded when the hasher is cancelled, but chunks
+    // are still taken from the queue so that the reader never blocks on it.
+    while (true) {
         queue_->pop(item);
-        // check if the data_chunk is valid or a stop wake-up signal
+        // check if the data_chunk is valid or a stop signal
         if (item.data == nullptr &&
                 item.piece_index == std::numeric_limits<std::uint32_t>::max() &&
                 item.file_index == std::numeric_limits<std::uint32_t>::max())
         {
-            Ensures(stop_token.stop_requested());
             break;
         }
 
-        hash_chunk(hashers, item);
-        item.data.reset();
-    }
-
-    // finish pending tasks if the hasher is not cancelled,
-    // otherwise discard all remaining work
-    if (!cancelled_.load(std::memory_order_relaxed)) {
-        while (queue_->try_pop(item)) {
-            if (item.data == nullptr &&
-                    item.piece_index == std::numeric_limits<std::uint32_t>::max() &&
-                    item.file_index == std::numeric_limits<std::uint32_t>::max())
-            {
-                break;
-            }
+        if (!cancelled_.load(std::memory_order_relaxed)) {
             hash_chunk(hashers, item);
-            item.data.reset();
         }
+        item.data.reset();
     }
 
     done_[thread_idx] = true;
diff --git a/src/chunk_hasher_single_buffer.cpp b/src/chunk_hasher_single_buffer.cpp
index acbb213..ba47d45 100644
--- a/src/chunk_hasher_single_buffer.cpp
+++ b/src/chunk_hasher_single_buffer.cpp
@@ -15,35 +15,23 @@ void chunk_hasher_single_buffer::run(std::stop_token stop_token, int thread_idx)
 
     data_chunk item {};
 
-    // Process tasks until stopped is set
-    while (!stop_token.stop_requested() && stop_token.stop_possible()) {
+    // Process tasks until the stop signal of this worker arrives. Every worker consumes
+    // exactly one stop signal. Pending work is discarded when the hasher is cancelled, but chunks
+    // are still taken from the queue so that the reader never blocks on it.
+    while (true) {
         queue_->pop(item);
-        // check if the data_chunk is valid or a stop wake-up signal
+        // check if the data_chunk is valid or a stop signal
         if (item.data == nullptr &&
                 item.piece_index == std::numeric_limits<std::uint32_t>::max() &&
                 item.file_index == std::numeric_limits<std::uint32_t>::max())
         {
-            Ensures(stop_token.stop_requested());
             break;
         }
 
-        hash_chunk(hashers, item);
-        item.data.reset();
-    }
-
-    // finish pending tasks if the hasher is not cancelled,
-    // otherwise discard all remaining work
-    if (!cancelled_.load(std::memory_order_relaxed)) {
-        while (queue_->try_pop(item)) {
-            if (item.data == nullptr &&
-                    item.piece_index == std::numeric_limits<std::uint32_t>::max() &&
-                    item.file_index == std::numeric_limits<std::uint32_t>::max())
-            {
-                break;
-            }
+        if (!cancelled_.load(std::memory_order_relaxed)) {
             hash_chunk(hashers, item);
-            item.data.reset();
         }
+        item.data.reset();
     }
 
     done_[thread_idx] = true;
diff --git a/src/chunk_processor_base.cpp b/src/chunk_processor_base.cpp
index b389da1..2fe2dc8 100644
--- a/src/chunk_processor_base.cpp
+++ b/src/chunk_processor_base.cpp
@@ -36,6 +36,7 @@ void chunk_processor_base::request_cancellation() {
 void chunk_processor_base::wait() {
     if (!started()) return;
 
+    // Queue a stop signal per worker behind all pending work.
     for (auto i = 0; i < threads_.size(); ++i) {
         queue_->push({
                 std::numeric_limits<std::uint32_t>::max(),
@@ -44,15 +45,6 @@ void chunk_processor_base::wait() {
         });
     }
 
-    for  (auto i = 0; !done() && i < threads_.size(); ++i) {
-        queue_->push({
-                std::numeric_limits<std::uint32_t>::max(),
-                std::numeric_limits<std::uint32_t>::max(),
-                nullptr
-        });
-        std::this_thread::sleep_for(std::chrono::milliseconds(10));
-    }
-
     // should all be finished by now and ready to join
     for (auto& t : threads_) {
         t.join();
-- 
2.43.0


From dc266550df7b1b7b3ec2c170f3af1ec4f44afceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:28 +0000
Subject: [PATCH 06/47] fix: SHA3-384 digests have 384 bits

---
 include/dottorrent/hash.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dottorrent/hash.hpp b/include/dottorrent/hash.hpp
index b43632c..75e20e5 100644
--- a/include/dottorrent/hash.hpp
+++ b/include/dottorrent/hash.hpp
@@ -202,7 +202,7 @@ DOTTORRENT_HASH_CLASS_TEMPLATE(sha384,     384)
 DOTTORRENT_HASH_CLASS_TEMPLATE(sha512,     512)
 DOTTORRENT_HASH_CLASS_TEMPLATE(sha3_224,   224)
 DOTTORRENT_HASH_CLASS_TEMPLATE(sha3_256,   256)
-DOTTORRENT_HASH_CLASS_TEMPLATE(sha3_384,   284)
+DOTTORRENT_HASH_CLASS_TEMPLATE(sha3_384,   384)
 DOTTORRENT_HASH_CLASS_TEMPLATE(sha3_512,   512)
 DOTTORRENT_HASH_CLASS_TEMPLATE(shake128,   128)
 DOTTORRENT_HASH_CLASS_TEMPLATE(shake256,   256)
-- 
2.43.0


From 3e95c5692716c77e8aa04a49c62030f1e3c1554a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:28 +0000
Subject: [PATCH 07/47] fix: openssl hasher reports failing digest calls and
 frees its context

Failures of EVP_DigestUpdate and EVP_DigestFinal_ex were ignored, so a stale or
zero digest was delivered as if nothing had happened, and a constructor that
threw leaked the digest context.
---
 src/hasher/backends/openssl.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/hasher/backends/openssl.cpp b/src/hasher/backends/openssl.cpp
index 0068f21..713c230 100644
--- a/src/hasher/backends/openssl.cpp
+++ b/src/hasher/backends/openssl.cpp
@@ -112,27 +112,33 @@ message_digest::message_digest(message_digest_algorithm algorithm, ::ENGINE* eng
         , algorithm_context_(detail::get_evp_message_digest(algorithm))
         , engine_(engine)
 {
+    if (algorithm_context_ == nullptr) {
+        throw std::system_error(make_error_code(evp_errc::unsupported_algorithm));
+    }
     context_ = ::EVP_MD_CTX_new();
     if (context_ == nullptr) {
         throw std::system_error((int)ERR_get_error(), openssl_crypto_category());
     }
     ::EVP_MD_CTX_init(context_);
 
-    if (algorithm_context_ == nullptr) {
-        throw std::system_error(make_error_code(evp_errc::unsupported_algorithm));
-    }
     if (::EVP_DigestInit_ex(context_, algorithm_context_, engine_) != 1) {
+        // the destructor does not run when the constructor throws
+        ::EVP_MD_CTX_free(context_);
         throw std::system_error((int)ERR_get_error(), openssl_crypto_category());
     }
 }
 
 void message_digest::update(std::span<const std::byte> data) {
-    ::EVP_DigestUpdate(context_, reinterpret_cast<const void*>(data.data()), data.size());
+    if (::EVP_DigestUpdate(context_, reinterpret_cast<const void*>(data.data()), data.size()) != 1) {
+        throw std::system_error((int)ERR_get_error(), openssl_crypto_category());
+    }
 }
 
 void message_digest::finalize_to(std::span<std::byte> digest) {
     auto digest_size = static_cast<unsigned int>(digest.size());
-    ::EVP_DigestFinal_ex(context_, reinterpret_cast<unsigned char*>(digest.data()), &digest_size);
+    if (::EVP_DigestFinal_ex(context_, reinterpret_cast<unsigned char*>(digest.data()), &digest_size) != 1) {
+        throw std::system_error((int)ERR_get_error(), openssl_crypto_category());
+    }
 }
 
 void message_digest::reset() {
-- 
2.43.0


From f717a0fe227206274d40ae7357823aa8e0bbbc36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:20 +0000
Subject: [PATCH 08/47] fix: chunk readers stop at the next file when cancelled

A cancelled v1 reader went on with the remaining files, pushed a partial
chunk made of whatever had been read and then failed its postcondition on
the piece index, which terminates the process.
---
 src/v1_chunk_reader.cpp | 8 ++++++++
 src/v2_chunk_reader.cpp | 3 +++
 2 files changed, 11 insertions(+)

diff --git a/src/v1_chunk_reader.cpp b/src/v1_chunk_reader.cpp
index e4eaf0f..9386bd7 100644
--- a/src/v1_chunk_reader.cpp
+++ b/src/v1_chunk_reader.cpp
@@ -18,6 +18,9 @@ void v1_chunk_reader::run()
     chunk_->resize(chunk_size_);
 
     for (const fs::path& file_path: file_paths) {
+        // the consumers discard all chunks after a cancellation
+        if (cancelled_.load(std::memory_order_relaxed)) break;
+
         const file_entry& file_entry = storage.at(file_index_);
 
         // handle pieces if the file does not exists. Used when verifying torrents.
@@ -68,6 +71,11 @@ void v1_chunk_reader::run()
         f_.close();
         f_.clear();
     }
+    // do not push incomplete data when not all files have been read
+    if (cancelled_.load(std::memory_order_relaxed)) {
+        chunk_.reset();
+        return;
+    }
     // push last possibly partial chunk
     if (chunk_offset_ != 0) [[likely]] {
         chunk_->resize(chunk_offset_);
diff --git a/src/v2_chunk_reader.cpp b/src/v2_chunk_reader.cpp
index b927b69..57fde68 100644
--- a/src/v2_chunk_reader.cpp
+++ b/src/v2_chunk_reader.cpp
@@ -17,6 +17,9 @@ void v2_chunk_reader::run()
     chunk->resize(chunk_size_);
 
     for (const fs::path& file_path: file_paths) {
+        // the consumers discard all chunks after a cancellation
+        if (cancelled_.load(std::memory_order_relaxed)) break;
+
         const file_entry& file_entry = storage.at(file_index_);
 
         if (file_entry.is_padding_file()) {
-- 
2.43.0


From 33583e7ed6990460a1a7834d30b96a5d32a31f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:50 +0000
Subject: [PATCH 09/47] fix: v1 reader passes padding files on as zero bytes

Padding files were handled as missing files: pieces lying completely inside
a padding file were announced without data and never hashed.
---
 include/dottorrent/v1_chunk_reader.hpp |  3 +++
 src/v1_chunk_reader.cpp                | 34 +++++++++++++++++++++++++-
 2 files changed, 36 insertions(+), 1 deletion(-)

diff --git a/include/dottorrent/v1_chunk_reader.hpp b/include/dottorrent/v1_chunk_reader.hpp
index 71bcfc8..97c9df0 100644
--- a/include/dottorrent/v1_chunk_reader.hpp
+++ b/include/dottorrent/v1_chunk_reader.hpp
@@ -18,6 +18,9 @@ public:
 private:
     void handle_missing_file();
 
+    /// Add zero bytes to the data stream.
+    void push_zeros(std::size_t size);
+
     /// @param file_idx: index of the file the data is read from,
     ///     when a chunk consists of data from multiple files,
     ///     the index of the first part as given by file_offset.
diff --git a/src/v1_chunk_reader.cpp b/src/v1_chunk_reader.cpp
index 9386bd7..d74eda2 100644
--- a/src/v1_chunk_reader.cpp
+++ b/src/v1_chunk_reader.cpp
@@ -23,8 +23,15 @@ void v1_chunk_reader::run()
 
         const file_entry& file_entry = storage.at(file_index_);
 
+        // padding files do not exist on disk, their data consists of zero bytes
+        if (file_entry.is_padding_file()) {
+            ++file_index_;
+            push_zeros(file_entry.file_size());
+            continue;
+        }
+
         // handle pieces if the file does not exists. Used when verifying torrents.
-        if (!fs::exists(file_path) || file_entry.is_padding_file()) [[unlikely]] {
+        if (!fs::exists(file_path)) [[unlikely]] {
             handle_missing_file();
             ++file_index_;
             continue;
@@ -148,6 +155,31 @@ void v1_chunk_reader::handle_missing_file()
     chunk_offset_ += missing_file_size;
 }
 
+void v1_chunk_reader::push_zeros(std::size_t size)
+{
+    const auto pieces_per_chunk = chunk_size_ / storage_.get().piece_size();
+
+    while (size != 0 && !cancelled_.load(std::memory_order_relaxed)) {
+        const auto bytes_to_fill = std::min(chunk_size_-chunk_offset_, size);
+        file_offsets_.push_back(chunk_offset_);
+        std::fill_n(std::next(chunk_->data(), chunk_offset_), bytes_to_fill, std::byte(0));
+        chunk_offset_ += bytes_to_fill;
+        size -= bytes_to_fill;
+
+        if (chunk_offset_ == chunk_size_) {
+            push({static_cast<std::uint32_t>(piece_index_),
+                  static_cast<std::uint32_t>(file_index_-file_offsets_.size()),
+                  chunk_
+            });
+            chunk_.reset();
+            chunk_ = pool_.get();
+            chunk_->resize(chunk_size_);
+            chunk_offset_ = 0;
+            file_offsets_.clear();
+            piece_index_ += pieces_per_chunk;
+        }
+    }
+}
 
 void v1_chunk_reader::push(const data_chunk& data_chunk) {
     for (auto& queue : hash_queues_) {
-- 
2.43.0


From 1795f78a81bcc73036ae0a48342c5fe690c994cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:45 +0000
Subject: [PATCH 10/47] fix: chunk readers deliver exactly the number of bytes
 the storage promises

The readers read until the end of the file whatever its size in the storage:
files that had been changed shifted the data of all following files or
produced hashes for data that is not part of the torrent, v2 files whose size
is zero or a multiple of the block size got an additional empty chunk, which
became a merkle leaf, and truncated files were never verified.
Missing data is now an error when hashing, and zero bytes when verifying.
---
 include/dottorrent/chunk_reader.hpp |  6 ++++-
 src/chunk_reader.cpp                |  4 +++-
 src/storage_verifier.cpp            |  4 ++--
 src/v1_chunk_reader.cpp             | 20 ++++++++++++----
 src/v2_chunk_reader.cpp             | 37 +++++++++++++++++++----------
 5 files changed, 51 insertions(+), 20 deletions(-)

diff --git a/include/dottorrent/chunk_reader.hpp b/include/dottorrent/chunk_reader.hpp
index aa3a426..5ef8972 100644
--- a/include/dottorrent/chunk_reader.hpp
+++ b/include/dottorrent/chunk_reader.hpp
@@ -27,7 +27,10 @@ public:
     using hash_queue_vector = std::vector<std::shared_ptr<hash_queue>>;
     using checksum_queue_vector = std::vector<std::shared_ptr<checksum_queue>>;
 
-    chunk_reader(file_storage& storage, std::size_t block_size, std::size_t capacity);
+    /// @param allow_missing_data When true missing files are skipped and data missing at the end
+    ///     of a file is replaced by zero bytes. When false missing data is an error.
+    chunk_reader(file_storage& storage, std::size_t block_size, std::size_t capacity,
+                 bool allow_missing_data = false);
 
     void register_hash_queue(std::shared_ptr<hash_queue> q);
 
@@ -58,6 +61,7 @@ protected:
 
     std::reference_wrapper<file_storage> storage_;
     std::size_t chunk_size_;
+    bool allow_missing_data_;
     pool::object_pool<data_type> pool_;
     hash_queue_vector hash_queues_ {};
     checksum_queue_vector checksum_queues_ {};
diff --git a/src/chunk_reader.cpp b/src/chunk_reader.cpp
index 66595f6..9767a8d 100644
--- a/src/chunk_reader.cpp
+++ b/src/chunk_reader.cpp
@@ -4,9 +4,11 @@
 
 namespace dottorrent {
 
-chunk_reader::chunk_reader(file_storage& storage, std::size_t block_size, std::size_t capacity)
+chunk_reader::chunk_reader(file_storage& storage, std::size_t block_size, std::size_t capacity,
+                           bool allow_missing_data)
         : storage_(storage)
         , chunk_size_(block_size)
+        , allow_missing_data_(allow_missing_data)
         , pool_(capacity)
 {
     Expects(storage.piece_size() >= 16_KiB);
diff --git a/src/storage_verifier.cpp b/src/storage_verifier.cpp
index de11af4..774b695 100644
--- a/src/storage_verifier.cpp
+++ b/src/storage_verifier.cpp
@@ -82,10 +82,10 @@ void storage_verifier::start() {
     auto& storage = storage_.get();
 
     if (protocol_ == protocol::v1) {
-        reader_ = std::make_unique<v1_chunk_reader>(storage_, io_block_size_, queue_capacity_);
+        reader_ = std::make_unique<v1_chunk_reader>(storage_, io_block_size_, queue_capacity_, true);
     }
     else {
-        reader_ = std::make_unique<v2_chunk_reader>(storage_, io_block_size_, queue_capacity_);
+        reader_ = std::make_unique<v2_chunk_reader>(storage_, io_block_size_, queue_capacity_, true);
     }
 
     if (protocol_ == protocol::v1) {
diff --git a/src/v1_chunk_reader.cpp b/src/v1_chunk_reader.cpp
index d74eda2..ca70bd5 100644
--- a/src/v1_chunk_reader.cpp
+++ b/src/v1_chunk_reader.cpp
@@ -32,6 +32,10 @@ void v1_chunk_reader::run()
 
         // handle pieces if the file does not exists. Used when verifying torrents.
         if (!fs::exists(file_path)) [[unlikely]] {
+            if (!allow_missing_data_) {
+                throw std::runtime_error(
+                        fmt::format("file does not exist: {}", file_entry.path().string()));
+            }
             handle_missing_file();
             ++file_index_;
             continue;
@@ -44,12 +48,16 @@ void v1_chunk_reader::run()
         // increment file index, file_index points to the next file now
         ++ file_index_;
 
-        while (! cancelled_.load(std::memory_order_relaxed)) {
+        // never read more then the size of the file according to the storage
+        std::size_t bytes_remaining = file_entry.file_size();
+
+        while (bytes_remaining != 0 && ! cancelled_.load(std::memory_order_relaxed)) {
             f_.read(reinterpret_cast<char*>(std::next(chunk_->data(), chunk_offset_)),
-                    (chunk_size_-chunk_offset_)
+                    std::min(chunk_size_-chunk_offset_, bytes_remaining)
             );
             file_offsets_.push_back(chunk_offset_);
             chunk_offset_ += f_.gcount();
+            bytes_remaining -= f_.gcount();
             bytes_read_.fetch_add(f_.gcount(), std::memory_order_relaxed);
 
             if (chunk_offset_ == chunk_size_) [[likely]] {
@@ -68,8 +76,12 @@ void v1_chunk_reader::run()
                 // increment chunk index
                 piece_index_ += pieces_per_chunk;
             }
-            // eof reached
-            if (f_.eof())  [[unlikely]] break;
+            // eof reached before the end of the file according to the storage
+            if (f_.eof() && allow_missing_data_)  [[unlikely]] {
+                file_offsets_.pop_back();
+                push_zeros(bytes_remaining);
+                break;
+            }
             if (f_.fail()) [[unlikely]] {
                 throw std::runtime_error(
                         fmt::format("I/O error reading: {}", file_entry.path().string()));
diff --git a/src/v2_chunk_reader.cpp b/src/v2_chunk_reader.cpp
index 57fde68..0297156 100644
--- a/src/v2_chunk_reader.cpp
+++ b/src/v2_chunk_reader.cpp
@@ -1,5 +1,6 @@
 #include "dottorrent/v2_chunk_reader.hpp"
 
+#include <algorithm>
 #include <fstream>
 #include <fmt/format.h>
 
@@ -30,10 +31,16 @@ void v2_chunk_reader::run()
 
         // handle pieces if the file does not exists. Used when verifying torrents.
         if (!fs::exists(file_path)) {
+            if (!allow_missing_data_) {
+                throw std::runtime_error(
+                        fmt::format("file does not exist: {}", file_entry.path().string()));
+            }
             auto file_size = file_entry.file_size();
-            push({static_cast<std::uint32_t>(0),
-                  static_cast<std::uint32_t>(file_index_),
-                  nullptr});
+            if (file_size != 0) {
+                push({static_cast<std::uint32_t>(0),
+                      static_cast<std::uint32_t>(file_index_),
+                      nullptr});
+            }
             bytes_read_.fetch_add(file_size, std::memory_order_relaxed);
             ++file_index_;
             continue;
@@ -46,11 +53,23 @@ void v2_chunk_reader::run()
         // reset piece index. piece index is per file for v2!
         piece_index_ = 0;
 
-        while (!cancelled_.load(std::memory_order_relaxed)) {
-            f_.read(reinterpret_cast<char*>(chunk->data()), chunk_size_);
-            current_chunk_size_ = f_.gcount();
+        // never read more then the size of the file according to the storage
+        std::size_t bytes_remaining = file_entry.file_size();
+
+        while (bytes_remaining != 0 && !cancelled_.load(std::memory_order_relaxed)) {
+            current_chunk_size_ = std::min(chunk_size_, bytes_remaining);
+            f_.read(reinterpret_cast<char*>(chunk->data()), current_chunk_size_);
+
+            if (f_.fail() && !(f_.eof() && allow_missing_data_)) {
+                throw std::runtime_error(
+                        fmt::format("I/O error reading: {}", file_entry.path().string()));
+            }
+            // replace data missing at the end of the file with zero bytes
+            std::fill(std::next(chunk->data(), f_.gcount()),
+                      std::next(chunk->data(), current_chunk_size_), std::byte(0));
 
             chunk->resize(current_chunk_size_);
+            bytes_remaining -= current_chunk_size_;
             bytes_read_.fetch_add(current_chunk_size_, std::memory_order_relaxed);
 
             // push chunk to consumers
@@ -64,12 +83,6 @@ void v2_chunk_reader::run()
             // clear chunk and file offsets
             // increment chunk index
             piece_index_ += pieces_per_chunk;
-
-            if (f_.eof()) break;
-            if (f_.fail()) {
-                throw std::runtime_error(
-                        fmt::format("I/O error reading: {}", file_entry.path().string()));
-            }
         }
         f_.close();
         f_.clear();
-- 
2.43.0


From 951a4d65f0d8f79648bc1fccb0d83f2ddb8c3e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:12 +0000
Subject: [PATCH 11/47] fix: per-file checksums of empty files, last files and
 files around padding

The v1 checksum hasher never finished empty files (and stopped at the first one
at the end of the data), the v2 checksum hasher never finished the last file and failed
its precondition after a padding or skipped file. Padding files no longer get
checksums.
---
 .../dottorrent/chunk_hasher_single_buffer.hpp |  3 ++
 include/dottorrent/v1_checksum_hasher.hpp     |  5 +++
 include/dottorrent/v2_checksum_hasher.hpp     |  5 +++
 src/chunk_hasher_single_buffer.cpp            |  3 ++
 src/v1_checksum_hasher.cpp                    | 45 ++++++++++++-------
 src/v2_checksum_hasher.cpp                    | 41 ++++++++++++-----
 6 files changed, 77 insertions(+), 25 deletions(-)

diff --git a/include/dottorrent/chunk_hasher_single_buffer.hpp b/include/dottorrent/chunk_hasher_single_buffer.hpp
index c1f8507..648753a 100644
--- a/include/dottorrent/chunk_hasher_single_buffer.hpp
+++ b/include/dottorrent/chunk_hasher_single_buffer.hpp
@@ -13,6 +13,9 @@ protected:
     void run(std::stop_token stop_token, int thread_idx) override;
 
     virtual void hash_chunk(std::vector<std::unique_ptr<single_buffer_hasher>>& hashers, const data_chunk& chunk) = 0;
+
+    /// Called by every worker after all chunks have been hashed, but not after a cancellation.
+    virtual void finish(std::vector<std::unique_ptr<single_buffer_hasher>>& hashers) {}
 };
 
 } // namespace dottorrent
\ No newline at end of file
diff --git a/include/dottorrent/v1_checksum_hasher.hpp b/include/dottorrent/v1_checksum_hasher.hpp
index c60f38c..3445947 100644
--- a/include/dottorrent/v1_checksum_hasher.hpp
+++ b/include/dottorrent/v1_checksum_hasher.hpp
@@ -28,6 +28,11 @@ protected:
 
     void hash_chunk(single_buffer_hasher& hasher, const data_chunk& item);
 
+    void finish(std::vector<std::unique_ptr<single_buffer_hasher>>& hashers) override;
+
+    /// Set the checksum of the current file and go to the next one.
+    void finish_file(single_buffer_hasher& hasher);
+
 private:
     std::atomic<std::size_t> current_file_index_ = 0;
     std::atomic<std::size_t> current_file_size_ = 0;
diff --git a/include/dottorrent/v2_checksum_hasher.hpp b/include/dottorrent/v2_checksum_hasher.hpp
index 3a7ea77..956317c 100644
--- a/include/dottorrent/v2_checksum_hasher.hpp
+++ b/include/dottorrent/v2_checksum_hasher.hpp
@@ -34,6 +34,11 @@ protected:
 
     void hash_chunk(single_buffer_hasher& hasher, const data_chunk& item);
 
+    void finish(std::vector<std::unique_ptr<single_buffer_hasher>>& hashers) override;
+
+    /// Set the checksum of the current file and go to the next one.
+    void finish_file(single_buffer_hasher& hasher);
+
 private:
     std::atomic<std::size_t> current_file_index_ = 0;
     std::atomic<std::size_t> current_file_size_ = 0;
diff --git a/src/chunk_hasher_single_buffer.cpp b/src/chunk_hasher_single_buffer.cpp
index ba47d45..55fbf94 100644
--- a/src/chunk_hasher_single_buffer.cpp
+++ b/src/chunk_hasher_single_buffer.cpp
@@ -34,6 +34,9 @@ void chunk_hasher_single_buffer::run(std::stop_token stop_token, int thread_idx)
         item.data.reset();
     }
 
+    if (!cancelled_.load(std::memory_order_relaxed)) {
+        finish(hashers);
+    }
     done_[thread_idx] = true;
 }
 
diff --git a/src/v1_checksum_hasher.cpp b/src/v1_checksum_hasher.cpp
index fd375a1..1f28de3 100644
--- a/src/v1_checksum_hasher.cpp
+++ b/src/v1_checksum_hasher.cpp
@@ -20,14 +20,13 @@ void v1_checksum_hasher::hash_chunk(single_buffer_hasher& hasher, const data_chu
     // offset from the start of data where we are currently processing
     std::size_t chunk_offset = 0;
     std::size_t chunk_size = item.data->size();
-    std::size_t current_file_size = storage[current_file_index_].file_size();
     auto data = std::span(*item.data);
 
-    Ensures(current_file_index_ < storage.file_count());
-
     // Verify that we are receive chunks sequentially
 
     while (chunk_offset != chunk_size) {
+        Expects(current_file_index_ < storage.file_count());
+        const std::size_t current_file_size = storage[current_file_index_].file_size();
         auto current_file_data_remaining = current_file_size - current_file_data_hashed_;
         auto current_chunk_data_remaining = chunk_size-chunk_offset;
         auto current_file_subchunk_size = std::min(current_file_data_remaining, current_chunk_data_remaining);
@@ -41,19 +40,35 @@ void v1_checksum_hasher::hash_chunk(single_buffer_hasher& hasher, const data_chu
 
         // check if we completed a file checksum
         if (current_file_data_hashed_.load(std::memory_order_relaxed) == current_file_size) {
-            Expects(hash_functions_.size() == 1);
-            auto hash_function = hash_functions_.front();
-            auto checksum = make_checksum(hash_function);
-            hasher.finalize_to(checksum->value());
-            storage[current_file_index_].add_checksum(std::move(checksum));
-
-            current_file_index_.fetch_add(1, std::memory_order_relaxed);
-
-            if (current_file_index_ < storage.file_count()) {
-                current_file_size = storage[current_file_index_].file_size();
-                current_file_data_hashed_.store(0, std::memory_order_relaxed);
-            }
+            finish_file(hasher);
         }
     }
 }
+
+void v1_checksum_hasher::finish(std::vector<std::unique_ptr<single_buffer_hasher>>& hashers)
+{
+    // there is no data for empty files at the end of the storage
+    file_storage& storage = storage_;
+    while (current_file_index_ < storage.file_count() &&
+            storage[current_file_index_].file_size() == current_file_data_hashed_) {
+        finish_file(*hashers.front());
+    }
+}
+
+void v1_checksum_hasher::finish_file(single_buffer_hasher& hasher)
+{
+    file_storage& storage = storage_;
+
+    Expects(hash_functions_.size() == 1);
+    auto hash_function = hash_functions_.front();
+    auto checksum = make_checksum(hash_function);
+    hasher.finalize_to(checksum->value());
+    if (!storage[current_file_index_].is_padding_file()) {
+        storage[current_file_index_].add_checksum(std::move(checksum));
+    }
+
+    current_file_index_.fetch_add(1, std::memory_order_relaxed);
+    current_file_data_hashed_.store(0, std::memory_order_relaxed);
+}
+
 } // namespace dottorrent
diff --git a/src/v2_checksum_hasher.cpp b/src/v2_checksum_hasher.cpp
index 1676bd1..0479405 100644
--- a/src/v2_checksum_hasher.cpp
+++ b/src/v2_checksum_hasher.cpp
@@ -23,22 +23,43 @@ void v2_checksum_hasher::hash_chunk(single_buffer_hasher& hasher, const data_chu
 
     Expects(current_file_index_ <= item.file_index);
 
-    if (item.file_index > current_file_index_) {
-        // Set the hash for the previous file.
-        Expects(hash_functions_.size() == 1);
-        auto hash_function = hash_functions_.front();
-        auto checksum = make_checksum(hash_function);
-        hasher.finalize_to(checksum->value());
-        storage[current_file_index_].add_checksum(std::move(checksum));
-
-        // update current file index
-        ++current_file_index_;
+    // Set the hash for the previous files. There are no chunks for padding files and empty files.
+    while (item.file_index > current_file_index_) {
+        finish_file(hasher);
     }
 
     Expects(current_file_index_ == item.file_index);
     hasher.update(std::span(*item.data));
+    current_file_data_hashed_.fetch_add(chunk_size, std::memory_order_relaxed);
     bytes_hashed_.fetch_add(chunk_size, std::memory_order_relaxed);
     bytes_done_.fetch_add(chunk_size, std::memory_order_relaxed);
 }
 
+void v2_checksum_hasher::finish(std::vector<std::unique_ptr<single_buffer_hasher>>& hashers)
+{
+    file_storage& storage = storage_;
+    while (current_file_index_ < storage.file_count() &&
+            (storage[current_file_index_].is_padding_file() ||
+             storage[current_file_index_].file_size() == current_file_data_hashed_)) {
+        finish_file(*hashers.front());
+    }
+}
+
+void v2_checksum_hasher::finish_file(single_buffer_hasher& hasher)
+{
+    file_storage& storage = storage_;
+
+    Expects(hash_functions_.size() == 1);
+    auto hash_function = hash_functions_.front();
+    auto checksum = make_checksum(hash_function);
+    hasher.finalize_to(checksum->value());
+    if (!storage[current_file_index_].is_padding_file()) {
+        storage[current_file_index_].add_checksum(std::move(checksum));
+    }
+
+    // update current file index
+    ++current_file_index_;
+    current_file_data_hashed_.store(0, std::memory_order_relaxed);
+}
+
 }
\ No newline at end of file
-- 
2.43.0


From 6de5ab246c6dafc5e0efbe6d4a20f445eaac211c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:12 +0000
Subject: [PATCH 12/47] fix: get_pieces_offsets includes the last piece of
 files that do not start on a piece boundary

---
 src/file_storage.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/file_storage.cpp b/src/file_storage.cpp
index b4539d3..a0efa32 100644
--- a/src/file_storage.cpp
+++ b/src/file_storage.cpp
@@ -211,8 +211,11 @@ std::pair<std::size_t, std::size_t> file_storage::get_pieces_offsets(std::size_t
             [&](const file_entry& e) { return e.file_size(); });
 
     auto offset = cumulative_size / piece_size_;
-    auto count = (entry.file_size() + piece_size_ - 1) / piece_size_;
-    return {offset, offset+count};
+    if (entry.file_size() == 0)
+        return {offset, offset};
+
+    auto end = (cumulative_size + entry.file_size() + piece_size_ - 1) / piece_size_;
+    return {offset, end};
 }
 
 void file_storage::set_piece_hash(std::size_t index, const sha1_hash& hash)
-- 
2.43.0


From d571344f92fa1407297e13295b207b377d958771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:12 +0000
Subject: [PATCH 13/47] fix: a storage_verifier that was never started can be
 destroyed

---
 src/storage_verifier.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/storage_verifier.cpp b/src/storage_verifier.cpp
index 774b695..127730b 100644
--- a/src/storage_verifier.cpp
+++ b/src/storage_verifier.cpp
@@ -260,7 +260,6 @@ storage_verifier::~storage_verifier()
     if (started() && !done()) {
         std::terminate();
     }
-    Expects(done());
 }
 
 
-- 
2.43.0


From ded8d62dbd07dbcf5b10c30c017feca8909cda8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:32 +0000
Subject: [PATCH 14/47] fix: v2 verification of storages with empty files

Empty files have no v2 data, asking for their piece layer throws.
---
 src/v2_piece_verifier.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/v2_piece_verifier.cpp b/src/v2_piece_verifier.cpp
index 241a209..9024f55 100644
--- a/src/v2_piece_verifier.cpp
+++ b/src/v2_piece_verifier.cpp
@@ -86,7 +86,7 @@ double v2_piece_verifier::percentage(std::size_t file_index) const noexcept {
             storage.begin(), std::next(storage.begin(), file_index),
             0ul, std::plus<>{},
             [](const file_entry& e) {
-                if (e.is_padding_file()) return std::size_t(0);
+                if (e.is_padding_file() || e.file_size() == 0) return std::size_t(0);
                 return std::max(std::size_t(1), e.piece_layer().size());
             });
 
@@ -120,7 +120,9 @@ void v2_piece_verifier::initialize_offsets_and_trees() {
         }
         else {
             auto& m = merkle_trees_.emplace_back(block_count);
-            auto offset = std::max(std::size_t(1), entry.piece_layer().size());
+            // empty files have no v2 data
+            auto offset = entry.file_size() == 0 ? std::size_t(0)
+                                                 : std::max(std::size_t(1), entry.piece_layer().size());
 
             // get the offset of the last non-padding file
             std::size_t previous_offset = 0;
@@ -141,7 +143,7 @@ void v2_piece_verifier::initialize_offsets_and_trees() {
 
     auto piece_map_size = 0;
     for (const auto& entry : storage) {
-        if (entry.is_padding_file())
+        if (entry.is_padding_file() || entry.file_size() == 0)
             continue;
 
         auto s = entry.piece_layer().size();
-- 
2.43.0


From 9f8905fe5d11863167f4b804792ba73e025c9346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:25 +0000
Subject: [PATCH 15/47] fix: hybrid verification with multi-buffer hashing does
 not hash v1 pieces nobody collects

---
 src/storage_verifier.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/storage_verifier.cpp b/src/storage_verifier.cpp
index 127730b..96f031d 100644
--- a/src/storage_verifier.cpp
+++ b/src/storage_verifier.cpp
@@ -107,7 +107,7 @@ void storage_verifier::start() {
 #ifdef DOTTORRENT_USE_ISAL
         if (enable_multi_buffer_hashing_)
             hasher_ = std::make_unique<v2_chunk_hasher_mb>(
-                    storage_, queue_capacity_, protocol_ == protocol::hybrid, threads_);
+                    storage_, queue_capacity_, false, threads_);
         else
             hasher_ = std::make_unique<v2_chunk_hasher_sb>(
                     storage_, queue_capacity_, false, threads_);
-- 
2.43.0


From d5ee1e1a65adc367a7a65c8d4b0bd0a6f0d3ea13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:25 +0000
Subject: [PATCH 16/47] fix: multi-buffer merkle tree update stores every
 parent hash at its own index

---
 include/dottorrent/merkle_tree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dottorrent/merkle_tree.hpp b/include/dottorrent/merkle_tree.hpp
index 94eed2e..515c079 100644
--- a/include/dottorrent/merkle_tree.hpp
+++ b/include/dottorrent/merkle_tree.hpp
@@ -130,7 +130,7 @@ public:
             for (std::size_t i = 0; job_id < n_jobs; ++job_id, i+=2) {
                 value_type hash{};
                 hasher.finalize_to(job_id, hash);
-                set_node(layer-1, parent(i), hash);
+                set_node(layer-1, parent(i+1), hash);
             }
         }
     }
-- 
2.43.0


From 54017c4df8e6d277f26e28d95c2ab2504d44033c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:25 +0000
Subject: [PATCH 17/47] fix: v2 multi-buffer hasher counts the bytes it hashes

---
 src/v2_chunk_hasher_mb.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/v2_chunk_hasher_mb.cpp b/src/v2_chunk_hasher_mb.cpp
index ac0e464..1635468 100644
--- a/src/v2_chunk_hasher_mb.cpp
+++ b/src/v2_chunk_hasher_mb.cpp
@@ -72,8 +72,8 @@ void v2_chunk_hasher_mb::hash_chunk(multi_buffer_hasher& sha256_hasher, multi_bu
     for ( ; blocks_in_chunk != 0 && block_in_chunk_idx < blocks_in_chunk; ++block_in_chunk_idx) {
         sha256_hasher.finalize_to(block_in_chunk_idx, leaf);
         process_piece_hash(index_offset + block_in_chunk_idx, chunk.file_index, leaf);
-        bytes_hashed_.fetch_add(v2_block_size);
     }
+    bytes_hashed_.fetch_add(chunk.data->size(), std::memory_order_relaxed);
 
     block_in_chunk_idx = 0;
 
@@ -124,7 +124,7 @@ void v2_chunk_hasher_mb::hash_chunk(multi_buffer_hasher& sha256_hasher, multi_bu
             sha1_hasher.finalize_to(piece_in_chunk_index, piece_hash);
             process_piece_hash(chunk.piece_index + piece_in_chunk_index, chunk.file_index, piece_hash);
         }
-        bytes_hashed_.fetch_add(chunk.data->size(), std::memory_order::relaxed);
+        bytes_hashed_.fetch_add(chunk.data->size() + padding.size(), std::memory_order::relaxed);
     }
     bytes_done_.fetch_add(chunk.data->size(), std::memory_order_relaxed);
 }
-- 
2.43.0


From aaa959b62f28479ff40bc9452491b407954f43ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:49 +0000
Subject: [PATCH 18/47] fix: multi-buffer MD5 and SHA512 digests have the right
 byte order and length

---
 include/dottorrent/hasher/backends/isal.hpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/include/dottorrent/hasher/backends/isal.hpp b/include/dottorrent/hasher/backends/isal.hpp
index fbd9e1a..585b92e 100644
--- a/include/dottorrent/hasher/backends/isal.hpp
+++ b/include/dottorrent/hasher/backends/isal.hpp
@@ -109,11 +109,18 @@ public:
         while (!hash_ctx_complete(context_pool_[job_id])) {
             Flush(context_manager_);
         }
-        // Intel ISA-L stores the hash as 32 bit words so we need to byteswap and copy per word
+        // Intel ISA-L stores the hash as words so we need to byteswap and copy per word.
+        // The words are 32 bit except for SHA512, and big endian in the digest except for MD5.
         for (std::size_t i = 0; i < N_WORDS; ++i) {
-            auto big_endian_word = to_be32(hash_ctx_digest(context_pool_[job_id])[i]);
-            std::memcpy(buffer.data()+ i * sizeof(big_endian_word),
-                        &big_endian_word, sizeof(big_endian_word));
+            auto word = hash_ctx_digest(context_pool_[job_id])[i];
+            if constexpr (std::is_same_v<CTX, MD5_HASH_CTX>) {
+                word = to_le32(word);
+            } else if constexpr (sizeof(word) == sizeof(std::uint64_t)) {
+                word = to_be64(word);
+            } else {
+                word = to_be32(word);
+            }
+            std::memcpy(buffer.data() + i * sizeof(word), &word, sizeof(word));
         }
     }
 
-- 
2.43.0


From f928e713bff00cbd88a8efc46da87c9e88d9ee23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:07:20 +0000
Subject: [PATCH 19/47] fix: copying a file_storage keeps the file mode and the
 regular file size

---
 src/file_storage.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/file_storage.cpp b/src/file_storage.cpp
index a0efa32..8b69520 100644
--- a/src/file_storage.cpp
+++ b/src/file_storage.cpp
@@ -4,20 +4,26 @@ namespace dottorrent {
 
 file_storage::file_storage(const file_storage& other)
     : total_file_size_(other.total_file_size_)
+    , total_regular_file_size_(other.total_regular_file_size_)
     , piece_size_(other.piece_size_)
     , root_directory_(other.root_directory_)
+    , file_mode_(other.file_mode_)
     , files_(other.files_)
     , pieces_(other.pieces_)
+    , index_valid_(false)
     {}
 
 file_storage& file_storage::operator=(const file_storage& other)
 {
     if (&other == this) return *this;
     total_file_size_ = other.total_file_size_;
+    total_regular_file_size_ = other.total_regular_file_size_;
     piece_size_ = other.piece_size_;
     root_directory_ = other.root_directory_;
+    file_mode_ = other.file_mode_;
     files_ = other.files_;
     pieces_ = other.pieces_;
+    index_valid_ = false;
 
     return *this;
 }
-- 
2.43.0


From 6a16b3e8a28002395b87a6bc6212a33cbc4b318b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:07:20 +0000
Subject: [PATCH 20/47] fix: saving a metafile reports write failures

---
 src/metafile.cpp | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/src/metafile.cpp b/src/metafile.cpp
index 5afaff0..f0b056d 100644
--- a/src/metafile.cpp
+++ b/src/metafile.cpp
@@ -298,20 +298,9 @@ std::string write_metafile(const metafile& m, protocol protocol_version)
 
 void write_metafile_to(std::ostream& os, const metafile& m, protocol protocol_version)
 {
-    bencode::bvalue bv;
-
-    if (protocol_version == protocol::v1) {
-        bv = detail::make_bvalue_v1(m);
-    }
-    else if (protocol_version == protocol::v2) {
-        bv = detail::make_bvalue_v2(m);
-    }
-    else if (protocol_version == (protocol::v2 | protocol::v1)) {
-        bv = detail::make_bvalue_hybrid(m);
-    } else {
-        throw std::invalid_argument("unrecognised protocol version");
-    }
-    bencode::encode_to(std::ostreambuf_iterator{os}, bv);
+    // Write through the stream and not its buffer, so that failures are reported by the stream state.
+    const auto data = write_metafile(m, protocol_version);
+    os.write(data.data(), static_cast<std::streamsize>(data.size()));
 }
 
 
@@ -330,6 +319,10 @@ void save_metafile(const std::filesystem::path& path, const metafile& m, protoco
 {
     std::ofstream ofs(path, std::ios::binary);
     write_metafile_to(ofs, m, protocol_version);
+    ofs.close();
+    if (!ofs) {
+        throw std::runtime_error("could not write metafile: " + path.string());
+    }
 }
 
 /// Write a json representation of the metafile to `os`.
-- 
2.43.0


From c1e536f7cbdf44274e04edc7452c8877280460cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:08:24 +0000
Subject: [PATCH 21/47] fix: hybrid metafiles of a single file keep the name of
 the file

---
 src/metafile_serialization.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/metafile_serialization.cpp b/src/metafile_serialization.cpp
index e209a50..cde2c29 100644
--- a/src/metafile_serialization.cpp
+++ b/src/metafile_serialization.cpp
@@ -234,11 +234,9 @@ bencode::bvalue make_bvalue_infodict_hybrid(const metafile& m)
 
     info.insert_or_assign("file tree", std::move(bfile_tree));
 
-    if (m.name().empty()) {
-        info.insert_or_assign("name", storage.root_directory().filename().string());
-    }
-    else {
-        info.insert_or_assign("name", m.name());
+    // the name of a single file is the file name which has been set above
+    if (storage.file_mode() != file_mode::single) {
+        info.insert_or_assign("name", m.name().empty() ? storage.root_directory().filename().string() : m.name());
     }
 
     info.insert_or_assign("piece length", storage.piece_size());
-- 
2.43.0


From df84458de8a27dc8e490e500870b0f25240d1909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:09:19 +0000
Subject: [PATCH 22/47] fix: checksums of single file torrents are serialized

---
 src/metafile_serialization.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/metafile_serialization.cpp b/src/metafile_serialization.cpp
index cde2c29..815816e 100644
--- a/src/metafile_serialization.cpp
+++ b/src/metafile_serialization.cpp
@@ -18,6 +18,10 @@ bencode::bvalue make_bvalue_infodict_v1(const metafile& m)
         auto& file = storage.at(0);
         info.insert_or_assign("length", file.file_size());
         info.insert_or_assign("name", file.path().filename().string());
+
+        for (const auto& [algo, checksum] : file.checksums()) {
+            info.insert_or_assign(algo, checksum->value());
+        }
     }
     else if (storage.file_mode() == file_mode::multi) {
         bencode::bvalue file_list(bc::btype::list);
@@ -163,6 +167,10 @@ bencode::bvalue make_bvalue_infodict_hybrid(const metafile& m)
         auto& file = storage[0];
         info.insert_or_assign("length", file.file_size());
         info.insert_or_assign("name", file.path().filename().string());
+
+        for (const auto& [algo, checksum] : file.checksums()) {
+            info.insert_or_assign(algo, checksum->value());
+        }
     }
     else if (storage.file_mode() == file_mode::multi) {
         bencode::bvalue file_list(bc::btype::list);
-- 
2.43.0


From 08db6b0f145bc0da481e6e548e17ab2919c83bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:33 +0000
Subject: [PATCH 23/47] fix: a thread refused during start no longer crashes or
 leaves workers behind

When a thread could not be created, start() left the threads created so far
running. Destroying the run object then called into partially destroyed
hashers or failed a postcondition. The parts already started are now stopped
and the exception is passed on.
---
 .../dottorrent/concurrent_queue_processor.hpp | 15 +++++++++---
 src/chunk_processor_base.cpp                  | 22 ++++++++++++++----
 src/storage_hasher.cpp                        | 23 +++++++++++++++----
 src/storage_verifier.cpp                      | 16 ++++++++++---
 4 files changed, 62 insertions(+), 14 deletions(-)

diff --git a/include/dottorrent/concurrent_queue_processor.hpp b/include/dottorrent/concurrent_queue_processor.hpp
index b251f18..af30cd6 100644
--- a/include/dottorrent/concurrent_queue_processor.hpp
+++ b/include/dottorrent/concurrent_queue_processor.hpp
@@ -46,9 +46,18 @@ public:
         Ensures(!started());
         Ensures(!cancelled());
 
-        for (std::size_t i = 0; i < threads_.size(); ++i) {
-            done_[i] = false;
-            threads_[i] = std::jthread([=, this](std::stop_token st) { run(std::move(st), i); });
+        try {
+            for (std::size_t i = 0; i < threads_.size(); ++i) {
+                done_[i] = false;
+                threads_[i] = std::jthread([=, this](std::stop_token st) { run(std::move(st), i); });
+            }
+        }
+        catch (...) {
+            // a thread could not be created: stop the workers that are running already
+            request_cancellation();
+            for (auto& t : threads_) { if (t.joinable()) queue_->push(std::nullopt); }
+            for (auto& t : threads_) { if (t.joinable()) t.join(); }
+            throw;
         }
         started_.store(true, std::memory_order_release);
     }
diff --git a/src/chunk_processor_base.cpp b/src/chunk_processor_base.cpp
index 2fe2dc8..456f0a4 100644
--- a/src/chunk_processor_base.cpp
+++ b/src/chunk_processor_base.cpp
@@ -17,9 +17,23 @@ void chunk_processor_base::start() {
     Ensures(!started());
     Ensures(!cancelled());
 
-    for (std::size_t i = 0; i < threads_.size(); ++i) {
-        done_[i] = false;
-        threads_[i] = std::jthread([=, this](std::stop_token st) { run(std::move(st), i); });
+    try {
+        for (std::size_t i = 0; i < threads_.size(); ++i) {
+            done_[i] = false;
+            threads_[i] = std::jthread([=, this](std::stop_token st) { run(std::move(st), i); });
+        }
+    }
+    catch (...) {
+        // a thread could not be created: stop the workers that are running already
+        request_cancellation();
+        const data_chunk stop_signal {
+                std::numeric_limits<std::uint32_t>::max(),
+                std::numeric_limits<std::uint32_t>::max(),
+                nullptr
+        };
+        for (auto& t : threads_) { if (t.joinable()) queue_->push(stop_signal); }
+        for (auto& t : threads_) { if (t.joinable()) t.join(); }
+        throw;
     }
     started_.store(true, std::memory_order_release);
 }
@@ -96,7 +110,7 @@ chunk_processor_base::~chunk_processor_base()
         wait();
     }
     // Destructor should only be called after all workers are done
-    Ensures(std::all_of(done_.begin(), done_.end(),
+    Ensures(!started() || std::all_of(done_.begin(), done_.end(),
                         [](auto& b) { return b.load(std::memory_order_relaxed); }));
 };
 
diff --git a/src/storage_hasher.cpp b/src/storage_hasher.cpp
index f44e96a..8286205 100644
--- a/src/storage_hasher.cpp
+++ b/src/storage_hasher.cpp
@@ -150,10 +150,25 @@ void storage_hasher::start() {
     }
 
     // start all parts
-    verifier_->start();
-    hasher_->start();
-    for (auto& ch : checksum_hashers_) { ch->start(); }
-    reader_->start();
+    try {
+        verifier_->start();
+        hasher_->start();
+        for (auto& ch : checksum_hashers_) { ch->start(); }
+        reader_->start();
+    }
+    catch (...) {
+        // stop the parts that have been started before the failure, the reader is the last one
+        verifier_->request_cancellation();
+        verifier_->wait();
+        hasher_->request_cancellation();
+        hasher_->wait();
+        for (auto& ch : checksum_hashers_) {
+            ch->request_cancellation();
+            ch->wait();
+        }
+        checksum_hashers_.clear();
+        throw;
+    }
     started_ = true;
 }
 
diff --git a/src/storage_verifier.cpp b/src/storage_verifier.cpp
index 96f031d..9ef477d 100644
--- a/src/storage_verifier.cpp
+++ b/src/storage_verifier.cpp
@@ -123,9 +123,19 @@ void storage_verifier::start() {
     }
 
     // start all parts
-    verifier_->start();
-    hasher_->start();
-    reader_->start();
+    try {
+        verifier_->start();
+        hasher_->start();
+        reader_->start();
+    }
+    catch (...) {
+        // stop the parts that have been started before the failure, the reader is the last one
+        verifier_->request_cancellation();
+        verifier_->wait();
+        hasher_->request_cancellation();
+        hasher_->wait();
+        throw;
+    }
     started_ = true;
 }
 
-- 
2.43.0


From cc831b67d16a0a4ac23817eb0c4cf5c6b47b2652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:08 +0000
Subject: [PATCH 24/47] fix: files outside the root directory are not added and
 paths are normalised

A path such as root/a/../../x passed the check for files outside the root
directory, a file called ..x was refused, and the entry of root/a/../x kept
the dots in its path.
---
 src/file_entry.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/file_entry.cpp b/src/file_entry.cpp
index ffd1b47..ff8e62d 100644
--- a/src/file_entry.cpp
+++ b/src/file_entry.cpp
@@ -244,9 +244,7 @@ std::strong_ordering file_entry::operator<=>(const file_entry& rhs) const noexce
 
 file_entry make_file_entry(fs::path file, const fs::path& root_directory, file_options options)
 {
-    if (!file.is_absolute()) {
-        file = fs::absolute(file);
-    }
+    file = fs::absolute(file).lexically_normal();
 
     if (!fs::exists(file))
         throw std::invalid_argument("file does not exist");
@@ -256,7 +254,7 @@ file_entry make_file_entry(fs::path file, const fs::path& root_directory, file_o
 
     fs::path relative_file = file.lexically_relative(root_directory);
 
-    if (relative_file.generic_string().starts_with(".."))
+    if (relative_file.empty() || *relative_file.begin() == "..")
         throw std::invalid_argument("file or symlink not located inside root_directory");
 
     fs::directory_entry de {file};
-- 
2.43.0


From f0df552d15270a6cba8911b3b50692c68e798dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:25 +0000
Subject: [PATCH 25/47] fix: a failed insertion leaves the totals of the
 storage unchanged

---
 src/file_storage.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/file_storage.cpp b/src/file_storage.cpp
index 8b69520..6f54008 100644
--- a/src/file_storage.cpp
+++ b/src/file_storage.cpp
@@ -47,19 +47,19 @@ void file_storage::set_root_directory(const fs::path& root)
 void file_storage::add_file(const file_entry& file)
 {
     index_valid_ = false;
-    auto s = file.file_size();
-    total_file_size_ += s;
-    if (!file.is_padding_file()) { total_regular_file_size_ += s; }
     files_.push_back(file);
+    auto s = files_.back().file_size();
+    total_file_size_ += s;
+    if (!files_.back().is_padding_file()) { total_regular_file_size_ += s; }
 }
 
 void file_storage::add_file(file_entry&& file)
 {
     index_valid_ = false;
-    auto s = file.file_size();
-    total_file_size_ += s;
-    if (!file.is_padding_file()) { total_regular_file_size_ += s; }
     files_.push_back(std::move(file));
+    auto s = files_.back().file_size();
+    total_file_size_ += s;
+    if (!files_.back().is_padding_file()) { total_regular_file_size_ += s; }
 }
 
 void file_storage::add_file(const fs::path& path, file_options options)
-- 
2.43.0


From 1cafe9167b947a8ade509fe4471a42eb3f2eb1c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:25 +0000
Subject: [PATCH 26/47] fix: symlinks are copied only on request, with a target
 relative to the root

Every file option that adds attributes also copied symlinks, because the
options share a bit. The target was stored as it is in the link instead of
relative to the root directory, and symlinks to directories were refused.
---
 src/file_entry.cpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/file_entry.cpp b/src/file_entry.cpp
index ff8e62d..de15a37 100644
--- a/src/file_entry.cpp
+++ b/src/file_entry.cpp
@@ -258,7 +258,10 @@ file_entry make_file_entry(fs::path file, const fs::path& root_directory, file_o
         throw std::invalid_argument("file or symlink not located inside root_directory");
 
     fs::directory_entry de {file};
-    std::size_t file_size = de.file_size();
+    const bool copy_symlink = de.is_symlink() &&
+            (options & file_options::copy_symlinks) == file_options::copy_symlinks;
+    // file size of symlinks should be 0 for backward compatibility
+    std::size_t file_size = copy_symlink ? 0 : de.file_size();
     std::optional<file_attributes> attributes = std::nullopt;
     std::optional<fs::path> symlink_path = std::nullopt;
 
@@ -283,13 +286,13 @@ file_entry make_file_entry(fs::path file, const fs::path& root_directory, file_o
     }
 
     // Copy symlinks as symlinks
-    if ((options & file_options::copy_symlinks) != file_options::none) {
-        if (de.is_symlink()) {
-            *attributes |= file_attributes::symlink;
-            symlink_path = fs::read_symlink(file);
-            // file size of symlinks should be 0 for backward compatibility
-            file_size = 0;
-        }
+    if (copy_symlink) {
+        *attributes |= file_attributes::symlink;
+        // the target is stored relative to the root directory
+        symlink_path = (file.parent_path() / fs::read_symlink(file)).lexically_normal()
+                .lexically_relative(root_directory);
+        if (symlink_path->empty() || *symlink_path->begin() == "..")
+            throw std::invalid_argument("symlink target not located inside root_directory");
     }
 
     return {std::move(relative_file), file_size,
-- 
2.43.0


From dbc4687e1035745b159b72f8692f28dec4e6e26d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:58 +0000
Subject: [PATCH 27/47] fix: a file removed while it is added is not taken for
 executable

---
 src/file_entry.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/file_entry.cpp b/src/file_entry.cpp
index de15a37..416ec88 100644
--- a/src/file_entry.cpp
+++ b/src/file_entry.cpp
@@ -271,7 +271,8 @@ file_entry make_file_entry(fs::path file, const fs::path& root_directory, file_o
         attributes = file_attributes::none;
 
         // executable flag
-        if (de.is_regular_file() && ((de.status().permissions() & (
+        const auto status = de.status();
+        if (fs::is_regular_file(status) && ((status.permissions() & (
                 fs::perms::owner_exec |
                 fs::perms::group_exec |
                 fs::perms::others_exec)) != fs::perms::none))
-- 
2.43.0


From 164a41bb0a2d986bc8f76df7a0ffff4634fe1cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:02 +0000
Subject: [PATCH 28/47] fix: symlinks are read from metafiles

The target of a symlink is stored under the key "symlink path", the parser
looked for another key and ended the program for lack of a target.
---
 src/metafile_parsing.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/metafile_parsing.cpp b/src/metafile_parsing.cpp
index 8a64d07..852013c 100644
--- a/src/metafile_parsing.cpp
+++ b/src/metafile_parsing.cpp
@@ -423,8 +423,8 @@ auto parse_file_entry_v1(const T& data) -> file_entry
     // symlinks
     std::optional<fs::path> symlink = std::nullopt;
 
-    if (auto it = file_dict.find("symlink"); it != file_dict.end()) {
-        *symlink = parse_path(it->second);
+    if (auto it = file_dict.find("symlink path"); it != file_dict.end()) {
+        symlink = parse_path(it->second);
     }
 
     file_entry entry(std::move(path), size, attributes, symlink);
@@ -478,8 +478,8 @@ static file_entry parse_file_entry_v2(const T& data, const fs::path& path)
     // symlink
     std::optional<fs::path> symlink = std::nullopt;
 
-    if (auto it = file_dict.find("symlink"); it != file_dict.end()) {
-        *symlink = parse_path(it->second);
+    if (auto it = file_dict.find("symlink path"); it != file_dict.end()) {
+        symlink = parse_path(it->second);
     }
 
     file_entry entry(path, size, attributes, symlink);
-- 
2.43.0


From b3143dc596ed6407f5c4c445259ccf033aab98ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:15 +0000
Subject: [PATCH 29/47] fix: attributes of single file torrents are saved and
 loaded

---
 src/metafile_parsing.cpp       | 5 ++++-
 src/metafile_serialization.cpp | 8 ++++++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/metafile_parsing.cpp b/src/metafile_parsing.cpp
index 852013c..709569e 100644
--- a/src/metafile_parsing.cpp
+++ b/src/metafile_parsing.cpp
@@ -352,9 +352,12 @@ void parse_other_info_fields(const T& data, metafile& m)
         "source"sv,
     };
 
+    // the info dictionary of single file torrents contains the attributes and checksums of the file
+    const bool single_file = info_dict.contains("length");
+
     for (const auto& [k, v] : info_dict) {
-        auto tmp = std::string(k);
         if (known_keys.contains(k)) continue;
+        if (single_file && (k == "attr" || is_hash_function_name(k))) continue;
         m.other_info_fields().insert_or_assign(std::string(k), v);
     }
 }
diff --git a/src/metafile_serialization.cpp b/src/metafile_serialization.cpp
index 815816e..aaca39e 100644
--- a/src/metafile_serialization.cpp
+++ b/src/metafile_serialization.cpp
@@ -19,6 +19,10 @@ bencode::bvalue make_bvalue_infodict_v1(const metafile& m)
         info.insert_or_assign("length", file.file_size());
         info.insert_or_assign("name", file.path().filename().string());
 
+        if (file.attributes()) {
+            info.insert_or_assign("attr", to_string(file.attributes().value()));
+        }
+
         for (const auto& [algo, checksum] : file.checksums()) {
             info.insert_or_assign(algo, checksum->value());
         }
@@ -168,6 +172,10 @@ bencode::bvalue make_bvalue_infodict_hybrid(const metafile& m)
         info.insert_or_assign("length", file.file_size());
         info.insert_or_assign("name", file.path().filename().string());
 
+        if (file.attributes()) {
+            info.insert_or_assign("attr", to_string(file.attributes().value()));
+        }
+
         for (const auto& [algo, checksum] : file.checksums()) {
             info.insert_or_assign(algo, checksum->value());
         }
-- 
2.43.0


From 37e0d5c97d3915d57fa1af384037a5c6de0dd339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:52 +0000
Subject: [PATCH 30/47] fix: a hybrid storage can be saved as a v2 metafile

---
 src/metafile_serialization.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/metafile_serialization.cpp b/src/metafile_serialization.cpp
index aaca39e..bd721a9 100644
--- a/src/metafile_serialization.cpp
+++ b/src/metafile_serialization.cpp
@@ -104,6 +104,10 @@ bencode::bvalue make_bvalue_infodict_v2(const metafile& m)
 
     auto ptr = &file_tree;
     for (const auto& file : storage) {
+        // padding files are only for v1
+        if (file.is_padding_file())
+            continue;
+
         for (const auto& component : file.path()) {
             if (auto it = ptr->find(component); it != ptr->end()) {
                 ptr = &get_dict(it->second);
-- 
2.43.0


From d8ea31d5c0c1bae27aeff53f1564cbb165c86eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:37 +0000
Subject: [PATCH 31/47] fix: removing a file no longer loses the checksums of
 the files after it

---
 src/file_entry.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/file_entry.cpp b/src/file_entry.cpp
index 416ec88..aa9566f 100644
--- a/src/file_entry.cpp
+++ b/src/file_entry.cpp
@@ -94,7 +94,7 @@ file_entry& file_entry::operator=(file_entry&& other) noexcept
     attributes_ = other.attributes_;
     symlink_path_ = std::move(other.symlink_path_);
     last_modified_time_ = other.last_modified_time_;
-    checksums_ = std::move(checksums_);
+    checksums_ = std::move(other.checksums_);
     has_v2_data_ = other.has_v2_data_;
 
     return *this;
-- 
2.43.0


From f49d9fa6ce34812181571e36b5d06a01258399bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:37 +0000
Subject: [PATCH 32/47] fix: piece hashes do not survive a change of the file
 list

---
 include/dottorrent/file_storage.hpp | 2 ++
 src/file_storage.cpp                | 5 ++++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/dottorrent/file_storage.hpp b/include/dottorrent/file_storage.hpp
index 4327bf4..a0ab16e 100644
--- a/include/dottorrent/file_storage.hpp
+++ b/include/dottorrent/file_storage.hpp
@@ -95,7 +95,9 @@ public:
     {
         index_valid_ = false;
         files_.clear();
+        pieces_.clear();
         total_file_size_ = 0;
+        total_regular_file_size_ = 0;
     }
 
     const file_entry& operator[](std::size_t index) const noexcept
diff --git a/src/file_storage.cpp b/src/file_storage.cpp
index 6f54008..dd4f879 100644
--- a/src/file_storage.cpp
+++ b/src/file_storage.cpp
@@ -48,6 +48,7 @@ void file_storage::add_file(const file_entry& file)
 {
     index_valid_ = false;
     files_.push_back(file);
+    pieces_.clear();
     auto s = files_.back().file_size();
     total_file_size_ += s;
     if (!files_.back().is_padding_file()) { total_regular_file_size_ += s; }
@@ -57,6 +58,7 @@ void file_storage::add_file(file_entry&& file)
 {
     index_valid_ = false;
     files_.push_back(std::move(file));
+    pieces_.clear();
     auto s = files_.back().file_size();
     total_file_size_ += s;
     if (!files_.back().is_padding_file()) { total_regular_file_size_ += s; }
@@ -79,6 +81,7 @@ void file_storage::remove_file(const file_entry& entry)
         total_file_size_ -= s;
         if (!it->is_padding_file()) { total_regular_file_size_ -= s; }
         files_.erase(it);
+        pieces_.clear();
     }
 }
 
@@ -145,7 +148,7 @@ void file_storage::allocate_pieces()
 
 const sha1_hash& file_storage::get_piece_hash(std::size_t index) const noexcept
 {
-    Expects(index < piece_count());
+    Expects(index < pieces_.size());
     return pieces_[index];
 }
 
-- 
2.43.0


From d0406e7035498e4db1e815185b265aed521d3b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:37 +0000
Subject: [PATCH 33/47] fix: setting the piece size clears the hashes as
 documented

---
 include/dottorrent/file_entry.hpp | 3 +++
 src/file_entry.cpp                | 7 +++++++
 src/file_storage.cpp              | 3 +++
 3 files changed, 13 insertions(+)

diff --git a/include/dottorrent/file_entry.hpp b/include/dottorrent/file_entry.hpp
index f3c9f83..1e08252 100644
--- a/include/dottorrent/file_entry.hpp
+++ b/include/dottorrent/file_entry.hpp
@@ -54,6 +54,9 @@ public:
 
     void set_piece_layer(std::span<const sha256_hash> range);
 
+    /// Remove the pieces root and the piece layer.
+    void clear_v2_data() noexcept;
+
     std::optional<fs::path> symlink_path() const noexcept;
 
     std::optional<fs::file_time_type> last_modified_time() const noexcept;
diff --git a/src/file_entry.cpp b/src/file_entry.cpp
index aa9566f..503e3fd 100644
--- a/src/file_entry.cpp
+++ b/src/file_entry.cpp
@@ -144,6 +144,13 @@ void file_entry::set_piece_layer(std::span<const sha256_hash> layer)
     has_v2_data_ = true;
 }
 
+void file_entry::clear_v2_data() noexcept
+{
+    pieces_root_ = {};
+    piece_layer_.clear();
+    has_v2_data_ = false;
+}
+
 std::optional<fs::path> file_entry::symlink_path() const noexcept
 {
     return symlink_path_;
diff --git a/src/file_storage.cpp b/src/file_storage.cpp
index dd4f879..9baabc1 100644
--- a/src/file_storage.cpp
+++ b/src/file_storage.cpp
@@ -138,6 +138,9 @@ void file_storage::set_piece_size(std::size_t size) {
     Expects(std::has_single_bit(size));       // size must be a power of two
 
     piece_size_ = size;
+    // hashes are only valid for the piece size they were made with
+    pieces_.clear();
+    for (auto& f : files_) { f.clear_v2_data(); }
 }
 
 void file_storage::allocate_pieces()
-- 
2.43.0


From ffbede733a7fdb131a196daec4bc83a0c43bed3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:37 +0000
Subject: [PATCH 34/47] fix: hashing a changed file again updates its checksums

---
 src/file_entry.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/file_entry.cpp b/src/file_entry.cpp
index 503e3fd..e6f1ba5 100644
--- a/src/file_entry.cpp
+++ b/src/file_entry.cpp
@@ -212,7 +212,7 @@ const checksum* file_entry::get_checksum(hash_function algorithm) const {
 void file_entry::add_checksum(std::unique_ptr<checksum> value)
 {
     std::unique_lock lck{checksum_mutex_};
-    checksums_.emplace(std::string(value->name()), std::move(value));
+    checksums_.insert_or_assign(std::string(value->name()), std::move(value));
 }
 
 const file_entry::checksum_map& file_entry::checksums() const
-- 
2.43.0


From 4c404813e4b5fac70f29444db5b7d549f11d00ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:53 +0000
Subject: [PATCH 35/47] fix: aligning files replaces existing padding instead
 of adding to it

---
 src/file_storage.cpp | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/file_storage.cpp b/src/file_storage.cpp
index 9baabc1..6f19d76 100644
--- a/src/file_storage.cpp
+++ b/src/file_storage.cpp
@@ -453,21 +453,23 @@ void optimize_alignment(file_storage& storage)
     std::size_t total_padding_bytes = 0;
     std::vector<file_entry> aligned_entries {};
 
-    for (std::size_t i = 0; i < storage.file_count()-1; ++i) {
-        auto& entry = storage[i];
-        auto size = entry.file_size();
-        aligned_entries.push_back(std::move(entry));
+    std::size_t bytes_offset = 0;
 
-        auto bytes_till_next_piece = piece_size - (size % piece_size);
+    for (auto& entry : storage) {
+        // existing padding is replaced
+        if (entry.is_padding_file())
+            continue;
 
-        Expects(bytes_till_next_piece != 0);
-        if (bytes_till_next_piece != piece_size) [[likely]] {
-            aligned_entries.push_back(make_padding_file_entry(bytes_till_next_piece));
-            total_padding_bytes += bytes_till_next_piece;
+        // align the start of this file
+        if (auto remainder = bytes_offset % piece_size; remainder != 0) {
+            auto padding = piece_size - remainder;
+            aligned_entries.push_back(make_padding_file_entry(padding));
+            total_padding_bytes += padding;
+            bytes_offset += padding;
         }
+        bytes_offset += entry.file_size();
+        aligned_entries.push_back(std::move(entry));
     }
-    // add the last file
-    aligned_entries.push_back(std::move(storage.back()));
 
     // clear old storage and set new
     storage.clear();
-- 
2.43.0


From 1675addfd287fd187bac214d7269ba1b71d1e205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:38 +0000
Subject: [PATCH 36/47] fix: directory contents do not include directories with
 the same prefix

---
 include/dottorrent/file_storage.hpp | 2 +-
 src/file_storage.cpp                | 7 ++++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/dottorrent/file_storage.hpp b/include/dottorrent/file_storage.hpp
index a0ab16e..71a8a59 100644
--- a/include/dottorrent/file_storage.hpp
+++ b/include/dottorrent/file_storage.hpp
@@ -262,7 +262,7 @@ private:
     std::vector<sha1_hash> pieces_ {};
     std::mutex pieces_mutex_ {};
 
-    mutable bool index_valid_;
+    mutable bool index_valid_ = false;
     mutable std::vector<std::size_t> files_index_;
 };
 
diff --git a/src/file_storage.cpp b/src/file_storage.cpp
index 6f19d76..6c5bae6 100644
--- a/src/file_storage.cpp
+++ b/src/file_storage.cpp
@@ -264,12 +264,13 @@ void file_storage::index() const {
 
 std::vector<const file_entry*> file_storage::directory_contents(const fs::path& directory) const {
     if (!index_valid()) { index(); }
-    auto directory_string = directory.string();
-
     auto first = rng::lower_bound(files_index_, directory, std::ranges::less{},
             [this](std::size_t index) { return files_[index].path(); });
     auto last = rng::find_if_not(first, files_index_.end(), [&, this](std::size_t index) {
-        return files_[index].path().string().starts_with(directory_string);
+        // compare whole path components, ignore a trailing separator
+        const auto& path = files_[index].path();
+        auto it = std::mismatch(directory.begin(), directory.end(), path.begin(), path.end()).first;
+        return it == directory.end() || it->empty();
     });
 
     std::vector<const file_entry*> results;
-- 
2.43.0


From 1616812d899c7f1050017e503e2d4c0ac058bf11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:38 +0000
Subject: [PATCH 37/47] fix: nested directories with the same name are counted

---
 src/file_storage.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/file_storage.cpp b/src/file_storage.cpp
index 6c5bae6..64486fd 100644
--- a/src/file_storage.cpp
+++ b/src/file_storage.cpp
@@ -325,7 +325,8 @@ std::size_t directory_count(const file_storage& storage, const fs::path& root, b
         auto last = std::next(f.path().end(), -1);
 
         while (it != last) {
-            auto dir = (current_dir / *it).string();
+            current_dir /= *it;
+            auto dir = current_dir.string();
             directories.emplace(dir);
             if (is_padding_dir_candidate) { padding_dir_candidates.emplace(dir); }
             it++;
-- 
2.43.0


From b9a765556699627465c9db3aa0da0d968d3bc804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:36:52 +0000
Subject: [PATCH 38/47] fix: remove_checksum can be used

---
 include/dottorrent/file_entry.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dottorrent/file_entry.hpp b/include/dottorrent/file_entry.hpp
index 1e08252..25a8bc9 100644
--- a/include/dottorrent/file_entry.hpp
+++ b/include/dottorrent/file_entry.hpp
@@ -86,7 +86,7 @@ public:
     {
         std::unique_lock lck{checksum_mutex_};
         if (auto it = checksums_.find(algorithm); it != checksums_.end()) {
-            checksums_.erase(*it);
+            checksums_.erase(it);
         }
     }
 
-- 
2.43.0


From 116c973d49a860ea50b16172a7908c01369b1d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:00 +0000
Subject: [PATCH 39/47] fix: a metafile without an info dictionary is refused

---
 src/metafile_parsing.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/metafile_parsing.cpp b/src/metafile_parsing.cpp
index 709569e..1884568 100644
--- a/src/metafile_parsing.cpp
+++ b/src/metafile_parsing.cpp
@@ -839,6 +839,14 @@ namespace bc = bencode;
 template<bc::bvalue_or_bview T>
 metafile parse_metafile(const T& data)
 {
+    if (!holds_dict(data)) {
+        throw parse_error("expected a dictionary");
+    }
+    const auto& dict = get_dict(data);
+    if (auto it = dict.find("info"); it == dict.end() || !holds_dict(it->second)) {
+        throw parse_error("info", "missing info dictionary");
+    }
+
     metafile m{};
     // parse the protocol header to determine if we have v1 or v2.
     auto protocol = detail::parse_protocol(data);
-- 
2.43.0


From cdc07abdb704dbb58ca188ef75d5184bf3a78743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:00 +0000
Subject: [PATCH 40/47] fix: an announce-list with empty tiers or repeated
 trackers can be loaded

---
 src/metafile_parsing.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/metafile_parsing.cpp b/src/metafile_parsing.cpp
index 1884568..8a131b0 100644
--- a/src/metafile_parsing.cpp
+++ b/src/metafile_parsing.cpp
@@ -24,17 +24,14 @@ void parse_announce(const T& data, metafile& m)
     // parse_file announce-url
     try {
         if (auto it = dict.find(list_key); it != dict.end()) {
-            std::size_t tier = 0;
-
             for (const auto& e : get_list(it->second)) {
-                std::size_t item = 0;
+                // empty tiers and tiers with only trackers of other tiers do not leave a gap.
+                const std::size_t tier = m.trackers().tier_count();
 
                 for (const auto& a : get_list(e)) {
                     const auto& s = get_string(a);
                     m.add_tracker(announce_url{s, tier});
-                    ++item;
                 }
-                ++tier;
             }
         }
     } catch (const bencode::bad_access& e) {
-- 
2.43.0


From 6848a0c23565bd2aed31f8365e8fca128c3a5faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:00 +0000
Subject: [PATCH 41/47] fix: a malformed dht node is refused

---
 src/metafile_parsing.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/metafile_parsing.cpp b/src/metafile_parsing.cpp
index 8a131b0..5b8a470 100644
--- a/src/metafile_parsing.cpp
+++ b/src/metafile_parsing.cpp
@@ -210,7 +210,9 @@ void parse_dht_nodes(const T& data, metafile& m)
             const auto desc = bc::get_list(it->second);
             for (const auto& c : desc) {
                 const auto& tuple = bc::get_list(c);
-                Expects(tuple.size() == 2);
+                if (tuple.size() != 2) {
+                    throw parse_error(key, "expected a host and a port");
+                }
                 m.add_dht_node(
                         get_string(tuple[0]),
                         get_integer(tuple[1]));
-- 
2.43.0


From 8fd1587a9f8632eb79d053b01728fc3d717be040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:00 +0000
Subject: [PATCH 42/47] fix: malformed file entries are refused

---
 src/metafile_parsing.cpp | 59 ++++++++++++++++++++++++++++++----------
 1 file changed, 45 insertions(+), 14 deletions(-)

diff --git a/src/metafile_parsing.cpp b/src/metafile_parsing.cpp
index 5b8a470..7bd706e 100644
--- a/src/metafile_parsing.cpp
+++ b/src/metafile_parsing.cpp
@@ -364,8 +364,6 @@ void parse_other_info_fields(const T& data, metafile& m)
 template <bc::bvalue_or_bview T>
 fs::path parse_path(const T& data)
 {
-    Expects(holds_list(data));
-
     fs::path p{};
     auto& blist = get_list(data);
     for (auto& path_component : blist) {
@@ -374,6 +372,44 @@ fs::path parse_path(const T& data)
     return p;
 }
 
+template <bc::bvalue_or_bview T>
+std::size_t parse_file_size(const T& data)
+{
+    const auto& file_dict = get_dict(data);
+
+    auto length_field_it = file_dict.find("length");
+    if (length_field_it == file_dict.end()) {
+        throw parse_error("length", "missing file size");
+    }
+    const auto size = get_integer(length_field_it->second);
+    if (size < 0) {
+        throw parse_error("length", "negative file size");
+    }
+    return static_cast<std::size_t>(size);
+}
+
+/// Check the fields a file entry is created from.
+static void check_file_entry(const fs::path& path,
+                             std::size_t size,
+                             const std::optional<file_attributes>& attributes,
+                             const std::optional<fs::path>& symlink)
+{
+    if (!path.has_filename()) {
+        throw parse_error("path", "missing file name");
+    }
+    if (path.has_root_path()) {
+        throw parse_error("path", "expected a relative path");
+    }
+    if (attributes && (*attributes & file_attributes::symlink) == file_attributes::symlink) {
+        if (!symlink) {
+            throw parse_error("symlink path", "missing target of symlink");
+        }
+        if (size != 0) {
+            throw parse_error("length", "symlinks must have size 0");
+        }
+    }
+}
+
 template <bc::bvalue_or_bview T>
 std::optional<file_attributes> parse_file_attributes(const T& data)
 {
@@ -395,8 +431,6 @@ std::optional<file_attributes> parse_file_attributes(const T& data)
 template <bc::bvalue_or_bview T>
 auto parse_file_entry_v1(const T& data) -> file_entry
 {
-    Expects(holds_dict(data));
-
     const auto& file_dict = get_dict(data);
     fs::path path {};
 
@@ -413,11 +447,7 @@ auto parse_file_entry_v1(const T& data) -> file_entry
         path = bencode::get_as<std::string_view>(name_field_it->second);
     }
 
-    auto length_field_it = file_dict.find("length");
-    if (length_field_it == file_dict.end()) {
-        throw parse_error("name", "missing file size");
-    }
-    std::size_t size = bencode::get_integer(length_field_it->second);
+    const std::size_t size = parse_file_size(data);
 
     // file attributes
     std::optional<file_attributes> attributes = parse_file_attributes(data);
@@ -429,6 +459,7 @@ auto parse_file_entry_v1(const T& data) -> file_entry
         symlink = parse_path(it->second);
     }
 
+    check_file_entry(path, size, attributes, symlink);
     file_entry entry(std::move(path), size, attributes, symlink);
 
     for (const auto& [k, v] : file_dict) {
@@ -456,11 +487,7 @@ static file_entry parse_file_entry_v2(const T& data, const fs::path& path)
 
     const auto& file_dict = get_dict(data);
 
-    auto length_field_it = file_dict.find("length");
-    if (length_field_it == file_dict.end()) {
-        throw parse_error("name", "missing file size");
-    }
-    std::size_t size = get_integer(length_field_it->second);
+    const std::size_t size = parse_file_size(data);
 
     std::optional<sha256_hash> pieces_root;
     auto pieces_root_it = file_dict.find("pieces root");
@@ -484,6 +511,7 @@ static file_entry parse_file_entry_v2(const T& data, const fs::path& path)
         symlink = parse_path(it->second);
     }
 
+    check_file_entry(path, size, attributes, symlink);
     file_entry entry(path, size, attributes, symlink);
     if (pieces_root) {
         entry.set_pieces_root(*pieces_root);
@@ -583,6 +611,9 @@ void parse_file_tree_v2(const T& data, metafile& m, OutputIterator out)
                 *out++ = std::move(entry);
             }
             else {
+                if (key.find('/') != std::string::npos) {
+                    throw parse_error("file tree", "file name contains a path separator");
+                }
                 frames.push(frame_type(value, value.begin()));
                 path_components.push_back(std::string(key));
             }
-- 
2.43.0


From 52ed368f62b1735391738fe34849812249a4ab36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:00 +0000
Subject: [PATCH 43/47] fix: a hybrid metafile with different v1 and v2 files
 is refused

---
 src/metafile_parsing.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/metafile_parsing.cpp b/src/metafile_parsing.cpp
index 7bd706e..6981be3 100644
--- a/src/metafile_parsing.cpp
+++ b/src/metafile_parsing.cpp
@@ -655,11 +655,20 @@ void parse_file_list_and_tree_hybrid(const T& data, metafile& m)
 
     for (auto& v2_entry : v2_entries) {
         auto it = std::find_if(storage.begin(), storage.end(), std::bind_front(path_comparator, v2_entry));
+        if (it == storage.end() || it->is_padding_file() || it->file_size() != v2_entry.file_size()) {
+            throw parse_error("file tree", "v1 and v2 files do not match");
+        }
         // empty files can ommit the pieces root
         if (v2_entry.file_size() > 0) {
             it->set_pieces_root(v2_entry.pieces_root());
         }
     }
+
+    const auto v1_count = std::count_if(storage.begin(), storage.end(),
+            [](const file_entry& f) { return !f.is_padding_file(); });
+    if (v2_entries.size() != static_cast<std::size_t>(v1_count)) {
+        throw parse_error("file tree", "v1 and v2 files do not match");
+    }
 };
 
 
-- 
2.43.0


From c8cab025742f97179a87b4a869e82f329b66449c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:00 +0000
Subject: [PATCH 44/47] fix: an invalid piece size is refused

---
 src/metafile_parsing.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/metafile_parsing.cpp b/src/metafile_parsing.cpp
index 6981be3..15c2677 100644
--- a/src/metafile_parsing.cpp
+++ b/src/metafile_parsing.cpp
@@ -1,3 +1,4 @@
+#include <bit>
 #include <optional>
 #include <concepts>
 #include <queue>
@@ -710,7 +711,11 @@ void parse_piece_size(const T& data, metafile& m)
     auto& storage = m.storage();
 
     if (auto it = info_dict.find("piece length"); it!=info_dict.end()) {
-        storage.set_piece_size(get_integer(it->second));
+        const auto piece_size = get_integer(it->second);
+        if (piece_size < 16 * 1024 || !std::has_single_bit(static_cast<std::size_t>(piece_size))) {
+            throw parse_error("piece length", "expected a power of two of at least 16 KiB");
+        }
+        storage.set_piece_size(static_cast<std::size_t>(piece_size));
     }
     else {
         throw parse_error("info", "missing required field \"piece length\"");
-- 
2.43.0


From 4d2d6c17df55e6c25276b5d841957ccebfede986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:00 +0000
Subject: [PATCH 45/47] fix: a metafile with the wrong number of pieces is
 refused

---
 src/metafile_parsing.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/metafile_parsing.cpp b/src/metafile_parsing.cpp
index 15c2677..d690845 100644
--- a/src/metafile_parsing.cpp
+++ b/src/metafile_parsing.cpp
@@ -688,6 +688,10 @@ void parse_pieces_v1(const T& data, metafile& m)
         auto piece_string = get_string(it->second);
         auto piece_count = piece_string.size() / 20;
 
+        if (piece_string.size() % 20 != 0 || piece_count != storage.piece_count()) {
+            throw parse_error("pieces", "the number of pieces does not match the size of the files");
+        }
+
         storage.allocate_pieces();
 
         for (std::size_t idx = 0; idx < piece_count; ++idx) {
-- 
2.43.0


From 2a3871cbaaf3d22a1dc0a89556d805e669738e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:00 +0000
Subject: [PATCH 46/47] fix: a metafile with missing or incomplete piece layers
 is refused

---
 src/metafile_parsing.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/metafile_parsing.cpp b/src/metafile_parsing.cpp
index d690845..64ace2c 100644
--- a/src/metafile_parsing.cpp
+++ b/src/metafile_parsing.cpp
@@ -754,11 +754,19 @@ void parse_piece_layers_v2(const T& data, metafile& m)
             std::vector<sha256_hash> layers;
             std::string_view layer_string = get_string(it2->second);
 
+            const std::size_t piece_count = (f.file_size() + storage.piece_size() - 1) / storage.piece_size();
+            if (layer_string.size() != piece_count * sha256_hash::size_bytes) {
+                throw parse_error(key, "the number of pieces does not match the size of the file");
+            }
+
             for (std::size_t idx = 0; idx < layer_string.size(); idx += sha256_hash::size_bytes) {
                 layers.emplace_back(layer_string.substr(idx, sha256_hash::size_bytes));
             }
             f.set_piece_layer(std::span(layers));
         }
+        else if (f.file_size() > storage.piece_size()) {
+            throw parse_error(key, "missing piece layer of file");
+        }
     }
 }
 
-- 
2.43.0


From 7fcde8dcb08967c5d1cab293e143ff82d6521551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:57 +0000
Subject: [PATCH 47/47] fix: padding files larger than a piece have no piece
 layer

---
 src/metafile_serialization.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/metafile_serialization.cpp b/src/metafile_serialization.cpp
index bd721a9..95c62fc 100644
--- a/src/metafile_serialization.cpp
+++ b/src/metafile_serialization.cpp
@@ -365,7 +365,7 @@ bencode::bvalue make_bvalue_v2(const dottorrent::metafile& m)
 
     std::size_t f_idx = 0;
     for (const auto& file: storage) {
-        if (file.file_size() > storage.piece_size()) {
+        if (file.file_size() > storage.piece_size() && !file.is_padding_file()) {
             piece_layers.insert_or_assign(
                     std::string(std::string_view(file.pieces_root())),
                     make_v2_piece_layers_string(file));
@@ -394,7 +394,7 @@ bencode::bvalue make_bvalue_hybrid(const metafile& m)
 
     std::size_t f_idx = 0;
     for (const auto& file: storage) {
-        if (file.file_size() > storage.piece_size()) {
+        if (file.file_size() > storage.piece_size() && !file.is_padding_file()) {
             piece_layers.insert_or_assign(
                     std::string(std::string_view(file.pieces_root())),
                     make_v2_piece_layers_string(file));
-- 
2.43.0

