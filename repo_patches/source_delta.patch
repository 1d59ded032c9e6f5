From 34bf16aab46ff79fe0b0ef0537ff49d6238a2189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:16 +0000
Subject: [PATCH 01/19] fix: close the file descriptor when setting up an
 IOBuffer fails

---
 src/checkpoint/buffer/io_buffer.cc | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/checkpoint/buffer/io_buffer.cc b/src/checkpoint/buffer/io_buffer.cc
index 7cad8ec..9a69461 100644
--- a/src/checkpoint/buffer/io_buffer.cc
+++ b/src/checkpoint/buffer/io_buffer.cc
@@ -218,12 +218,22 @@ void IOBuffer::setupForWrite() {
 void IOBuffer::setupFile() {
   debug_checkpoint("IOBuffer: opening file: %s\n", file_.c_str());
 
-  if (mode_ == ModeEnum::ReadFromFile) {
-    setupForRead();
-  } else if (mode_ == ModeEnum::WriteToFile) {
-    setupForWrite();
-  } else {
-    throw std::runtime_error("Invalid IOBuffer mode");
+  try {
+    if (mode_ == ModeEnum::ReadFromFile) {
+      setupForRead();
+    } else if (mode_ == ModeEnum::WriteToFile) {
+      setupForWrite();
+    } else {
+      throw std::runtime_error("Invalid IOBuffer mode");
+    }
+  } catch (...) {
+    // The destructor does not run when the constructor throws: nothing is
+    // mapped at this point, but the file may have been opened
+    if (fd_ != -1) {
+      close(fd_);
+      fd_ = -1;
+    }
+    throw;
   }
 }
 
-- 
2.43.0


From d4797aeb940194fa553a230bfff073b38a1ba950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:16 +0000
Subject: [PATCH 02/19] fix: report failures to write out a file instead of
 terminating, and always unmap and close it

---
 src/checkpoint/buffer/io_buffer.cc   | 75 +++++++++++++++-------------
 src/checkpoint/buffer/io_buffer.h    | 13 ++++-
 src/checkpoint/checkpoint_api.impl.h |  4 +-
 3 files changed, 54 insertions(+), 38 deletions(-)

diff --git a/src/checkpoint/buffer/io_buffer.cc b/src/checkpoint/buffer/io_buffer.cc
index 9a69461..2a9fcbb 100644
--- a/src/checkpoint/buffer/io_buffer.cc
+++ b/src/checkpoint/buffer/io_buffer.cc
@@ -230,14 +230,14 @@ void IOBuffer::setupFile() {
     // The destructor does not run when the constructor throws: nothing is
     // mapped at this point, but the file may have been opened
     if (fd_ != -1) {
-      close(fd_);
+      ::close(fd_);
       fd_ = -1;
     }
     throw;
   }
 }
 
-void IOBuffer::closeFile() {
+void IOBuffer::close() {
   /*
    * If fd_ is not set, then we should not have anything open or mapped
    */
@@ -245,74 +245,79 @@ void IOBuffer::closeFile() {
     return;
   }
 
-  auto addr = static_cast<void*>(buffer_);
+  auto const addr = static_cast<void*>(buffer_);
+  auto const fd = fd_;
 
+  /*
+   * Every step below must be attempted even if an earlier one fails, and none
+   * of them may be repeated: forget the file now and remember the first failure
+   */
+  fd_ = -1;
+  buffer_ = nullptr;
+
+  char const* failed = nullptr;
+  int failed_errno = 0;
   int ret = 0;
 
   /*
    * msync/msync64 the mapped file causing the file to be written out
    */
   if (mode_ == ModeEnum::WriteToFile) {
-    debug_checkpoint("~IOBuffer: msync: file=%s, len=%lu\n", file_.c_str(), size_);
+    debug_checkpoint("IOBuffer: msync: file=%s, len=%lu\n", file_.c_str(), size_);
 
 #   if defined(checkpoint_has_msync64)
     ret = msync64(addr, size_, MS_SYNC);
-
-    if (ret != 0) {
-      auto err = std::string("msync64 failed on file after write: errno=") +
-                 std::to_string(errno) + ": " + strerror(errno);
-      throw std::runtime_error(err);
-    }
-
 #   else
     ret = msync(addr, size_, MS_SYNC);
+#   endif
 
     if (ret != 0) {
-      auto err = std::string("msync failed on file after write: errno=") +
-                 std::to_string(errno) + ": " + strerror(errno);
-      throw std::runtime_error(err);
+      failed = "msync failed on file after write";
+      failed_errno = errno;
     }
-#   endif
   }
 
   /*
    * Unmap the file via munmap/munmap64
    */
-  debug_checkpoint("~IOBuffer: munmap\n");
+  debug_checkpoint("IOBuffer: munmap\n");
 
 # if defined(checkpoint_has_munmap64)
   ret = munmap64(addr, size_);
-
-  if (ret != 0) {
-    auto err = std::string("munmap64 failed on after write: errno=") +
-               std::to_string(errno) + ": " + strerror(errno);
-    throw std::runtime_error(err);
-  }
-
 # else
   ret = munmap(addr, size_);
+# endif
 
-  if (ret != 0) {
-    auto err = std::string("munmap failed on file after write: errno=") +
-               std::to_string(errno) + ": " + strerror(errno);
-    throw std::runtime_error(err);
+  if (ret != 0 and failed == nullptr) {
+    failed = "munmap failed on file";
+    failed_errno = errno;
   }
-# endif
 
   /*
    * Finally, close the file. We are done.
    */
-  debug_checkpoint("~IOBuffer: closing file\n");
+  debug_checkpoint("IOBuffer: closing file\n");
 
-  ret = close(fd_);
+  ret = ::close(fd);
 
-  if (ret != 0) {
-    auto err = std::string("close on file descriptor failed: errno=") +
-               std::to_string(errno) + ": " + strerror(errno);
-    throw std::runtime_error(err);
+  if (ret != 0 and failed == nullptr) {
+    failed = "close on file descriptor failed";
+    failed_errno = errno;
   }
 
-  fd_ = -1;
+  if (failed != nullptr) {
+    throw std::runtime_error(
+      std::string(failed) + ": errno=" + std::to_string(failed_errno) + ": " +
+      strerror(failed_errno)
+    );
+  }
+}
+
+IOBuffer::~IOBuffer() {
+  // A failure cannot be reported from here: call close() to learn about it
+  try {
+    close();
+  } catch (...) { }
 }
 
 }} /* end namespace checkpoint::buffer */
diff --git a/src/checkpoint/buffer/io_buffer.h b/src/checkpoint/buffer/io_buffer.h
index 43a5db6..83ce015 100644
--- a/src/checkpoint/buffer/io_buffer.h
+++ b/src/checkpoint/buffer/io_buffer.h
@@ -79,13 +79,22 @@ public:
 
 private:
   void setupFile();
-  void closeFile();
   void setupForRead();
   void setupForWrite();
 
 public:
 
-  virtual ~IOBuffer() { closeFile(); }
+  virtual ~IOBuffer();
+
+  /**
+   * \brief Write out (when writing), unmap and close the file. Does nothing if
+   * that already happened.
+   *
+   * The destructor does the same but has to ignore failures.
+   *
+   * \throws std::runtime_error if any step fails
+   */
+  void close();
 
   virtual SerialByteType* getBuffer() const override {
     return buffer_;
diff --git a/src/checkpoint/checkpoint_api.impl.h b/src/checkpoint/checkpoint_api.impl.h
index 863472e..c0fc66a 100644
--- a/src/checkpoint/checkpoint_api.impl.h
+++ b/src/checkpoint/checkpoint_api.impl.h
@@ -101,9 +101,11 @@ std::size_t getMemoryFootprint(T& target, std::size_t size_offset) {
 template <typename T>
 void serializeToFile(T& target, std::string const& file) {
   auto len = getSize<T>(target);
-  dispatch::Standard::pack<T, PackerBuffer<buffer::IOBuffer>>(
+  auto p = dispatch::Standard::pack<T, PackerBuffer<buffer::IOBuffer>>(
     target, len, buffer::IOBuffer::WriteToFileTag{}, len, file
   );
+  // Close explicitly so a failure to write out the data reaches the caller
+  p.extractPackedBuffer()->close();
 }
 
 template <typename T>
-- 
2.43.0


From 169c3264cc3896531299ce7fdb6b1d8b93e86ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:16 +0000
Subject: [PATCH 03/19] fix: report every failure to preallocate a file, not
 only ENOSPC

---
 src/checkpoint/buffer/io_buffer.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/checkpoint/buffer/io_buffer.cc b/src/checkpoint/buffer/io_buffer.cc
index 2a9fcbb..d37d607 100644
--- a/src/checkpoint/buffer/io_buffer.cc
+++ b/src/checkpoint/buffer/io_buffer.cc
@@ -147,9 +147,13 @@ void IOBuffer::setupForWrite() {
 # if defined(checkpoint_has_fallocate)
   debug_checkpoint("IOBuffer: fallocate file\n");
 
-  ret = fallocate(fd_, 0, 0, size_);
+  do {
+    ret = fallocate(fd_, 0, 0, size_);
+  } while (ret != 0 and errno == EINTR);
 
-  if (ret != 0 and errno == ENOSPC) {
+  // Preallocation is optional, but if it is supported any failure means that
+  // writing to the mapped file later would fault
+  if (ret != 0 and errno != EOPNOTSUPP and errno != ENOSYS) {
     auto err = std::string("fallocate failed on file: errno=") +
                std::to_string(errno) + ": " + strerror(errno);
     throw std::runtime_error(err);
-- 
2.43.0


From fe66729e29d651d332b29d894c5863cca1ce64f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:16 +0000
Subject: [PATCH 04/19] fix: do not read beyond the end of a file that is too
 short

---
 src/checkpoint/serializers/unpacker.impl.h | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/checkpoint/serializers/unpacker.impl.h b/src/checkpoint/serializers/unpacker.impl.h
index ad2429b..e2210e7 100644
--- a/src/checkpoint/serializers/unpacker.impl.h
+++ b/src/checkpoint/serializers/unpacker.impl.h
@@ -50,6 +50,8 @@
 
 #include <cstdlib>
 #include <cstring>
+#include <stdexcept>
+#include <string>
 
 namespace checkpoint {
 
@@ -92,6 +94,17 @@ void UnpackerBuffer<BufferT>::contiguousBytes(
   );
 
   SerialSizeType const len = size * num_elms;
+
+  // Zero means that the size of the buffer is not known
+  SerialSizeType const buf_size = buffer_->getSize();
+  if (buf_size != 0 and len > buf_size - usedSize_) {
+    throw std::runtime_error(
+      "Unpacking requires " + std::to_string(len) + "B at offset " +
+      std::to_string(usedSize_) + ", but only " + std::to_string(buf_size) +
+      "B are available"
+    );
+  }
+
   SerialByteType* spot = this->getSpotIncrement(len);
   std::memcpy(ptr, spot, len);
 
-- 
2.43.0


From ef913804cbebe0f903013113eaf92ae9284d7b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:16 +0000
Subject: [PATCH 05/19] fix: do not overrun the buffer when packing needs more
 bytes than sizing announced

---
 src/checkpoint/serializers/packer.impl.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/checkpoint/serializers/packer.impl.h b/src/checkpoint/serializers/packer.impl.h
index 8754cb6..a9ffd45 100644
--- a/src/checkpoint/serializers/packer.impl.h
+++ b/src/checkpoint/serializers/packer.impl.h
@@ -119,6 +119,14 @@ void PackerBuffer<BufferT>::contiguousBytes(
   );
 
   SerialSizeType const len = size * num_elms;
+
+  // If more is packed than was sized, never write outside of the buffer: just
+  // count the bytes, the mismatch is reported once packing is complete
+  usedSize_ += len;
+  if (usedSize_ > size_) {
+    return;
+  }
+
   SerialByteType* spot = this->getSpotIncrement(len);
   #pragma GCC diagnostic push
 #if !defined(__has_warning)
@@ -128,8 +136,6 @@ void PackerBuffer<BufferT>::contiguousBytes(
 #endif
   std::memcpy(spot, ptr, len);
   #pragma GCC diagnostic pop
-
-  usedSize_ += len;
 }
 
 template <typename BufferT>
-- 
2.43.0


From 45b1099440895a49e5a69a0e97f971a096f409ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:16 +0000
Subject: [PATCH 06/19] fix: validate the packed size when serializing to a
 file

---
 src/checkpoint/checkpoint_api.impl.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/checkpoint/checkpoint_api.impl.h b/src/checkpoint/checkpoint_api.impl.h
index c0fc66a..7559572 100644
--- a/src/checkpoint/checkpoint_api.impl.h
+++ b/src/checkpoint/checkpoint_api.impl.h
@@ -104,6 +104,7 @@ void serializeToFile(T& target, std::string const& file) {
   auto p = dispatch::Standard::pack<T, PackerBuffer<buffer::IOBuffer>>(
     target, len, buffer::IOBuffer::WriteToFileTag{}, len, file
   );
+  dispatch::validatePackerBufferSize<T>(p, len);
   // Close explicitly so a failure to write out the data reaches the caller
   p.extractPackedBuffer()->close();
 }
-- 
2.43.0


From abe36c3b596d7dc310eee0294ae024f3bd97d7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:52 +0000
Subject: [PATCH 07/19] fix: do not free the caller's memory, nor leak, when
 deserialization fails

---
 src/checkpoint/dispatch/dispatch.impl.h | 32 ++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/src/checkpoint/dispatch/dispatch.impl.h b/src/checkpoint/dispatch/dispatch.impl.h
index 44aac6a..5dd47cd 100644
--- a/src/checkpoint/dispatch/dispatch.impl.h
+++ b/src/checkpoint/dispatch/dispatch.impl.h
@@ -272,14 +272,34 @@ buffer::ImplReturnType serializeType(T& target, BufferObtainFnType fn) {
   return packBuffer<T>(target, len, fn);
 }
 
+/// Reconstruct a \c T on newly allocated memory
+template <typename T>
+std::unique_ptr<T> reconstructNew() {
+  auto mem = Standard::allocate<T>();
+  try {
+    return std::unique_ptr<T>(Standard::construct<T>(mem));
+  } catch (...) {
+    std::allocator<T>{}.deallocate(reinterpret_cast<T*>(mem), 1);
+    throw;
+  }
+}
+
 template <typename T>
 T* deserializeType(SerialByteType* data, SerialByteType* allocBuf) {
-  auto mem = allocBuf ? allocBuf : Standard::allocate<T>();
-  auto t_buf = std::unique_ptr<T>(Standard::construct<T>(mem));
-  T* traverser =
-    Standard::unpack<T, UnpackerBuffer<buffer::UserBuffer>>(t_buf.get(), data);
-  t_buf.release();
-  return traverser;
+  if (allocBuf) {
+    // The memory belongs to the caller: only ever destroy the object on it
+    T* t = Standard::construct<T>(allocBuf);
+    try {
+      return Standard::unpack<T, UnpackerBuffer<buffer::UserBuffer>>(t, data);
+    } catch (...) {
+      t->~T();
+      throw;
+    }
+  }
+
+  auto t = reconstructNew<T>();
+  Standard::unpack<T, UnpackerBuffer<buffer::UserBuffer>>(t.get(), data);
+  return t.release();
 }
 
 template <typename T>
-- 
2.43.0


From ace7e714535d4f1d58686fc8397ad39d26c44989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:52 +0000
Subject: [PATCH 08/19] fix: do not leak the object when loading from a file or
 stream fails

---
 src/checkpoint/checkpoint_api.impl.h | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/checkpoint/checkpoint_api.impl.h b/src/checkpoint/checkpoint_api.impl.h
index 7559572..b0c6736 100644
--- a/src/checkpoint/checkpoint_api.impl.h
+++ b/src/checkpoint/checkpoint_api.impl.h
@@ -111,12 +111,11 @@ void serializeToFile(T& target, std::string const& file) {
 
 template <typename T>
 std::unique_ptr<T> deserializeFromFile(std::string const& file) {
-  auto mem = dispatch::Standard::allocate<T>();
-  T* t_buf = dispatch::Standard::construct<T>(mem);
-  auto t = dispatch::Standard::unpack<T, UnpackerBuffer<buffer::IOBuffer>>(
-    t_buf, buffer::IOBuffer::ReadFromFileTag{}, file
+  auto t = dispatch::reconstructNew<T>();
+  dispatch::Standard::unpack<T, UnpackerBuffer<buffer::IOBuffer>>(
+    t.get(), buffer::IOBuffer::ReadFromFileTag{}, file
   );
-  return std::unique_ptr<T>(t);
+  return t;
 }
 
 template <typename T>
@@ -136,12 +135,11 @@ void serializeToStream(T& target, StreamT& stream) {
 
 template <typename T, typename StreamT>
 std::unique_ptr<T> deserializeFromStream(StreamT& stream) {
-  auto mem = dispatch::Standard::allocate<T>();
-  T* t_buf = dispatch::Standard::construct<T>(mem);
-  auto t = dispatch::Standard::unpack<T, StreamUnpacker<StreamT>>(
-    t_buf, stream
+  auto t = dispatch::reconstructNew<T>();
+  dispatch::Standard::unpack<T, StreamUnpacker<StreamT>>(
+    t.get(), stream
   );
-  return std::unique_ptr<T>(t);
+  return t;
 }
 
 template <typename T, typename StreamT>
-- 
2.43.0


From cc2829a8000616c5d263afb2576a564d9c08f4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:28 +0000
Subject: [PATCH 09/19] fix: destroy the temporary objects that containers are
 loaded through

---
 src/checkpoint/container/list_serialize.h     |  8 ++----
 src/checkpoint/container/map_serialize.h      |  4 +--
 src/checkpoint/container/optional_serialize.h |  9 ++-----
 src/checkpoint/container/queue_serialize.h    |  5 +---
 src/checkpoint/container/variant_serialize.h  |  4 +--
 src/checkpoint/container/vector_serialize.h   |  8 ++----
 src/checkpoint/dispatch/allocator.h           | 25 +++++++++++++++++++
 7 files changed, 34 insertions(+), 29 deletions(-)

diff --git a/src/checkpoint/container/list_serialize.h b/src/checkpoint/container/list_serialize.h
index 262a08d..b149e35 100644
--- a/src/checkpoint/container/list_serialize.h
+++ b/src/checkpoint/container/list_serialize.h
@@ -63,11 +63,9 @@ deserializeOrderedElems(
   isCopyConstructible<ElmT>* = nullptr
 ) {
   using Alloc = dispatch::Allocator<ElmT>;
-  using Reconstructor =
-    dispatch::Reconstructor<typename dispatch::CleanType<ElmT>::CleanT>;
 
   Alloc allocated;
-  auto* reconstructed = Reconstructor::construct(allocated.buf);
+  dispatch::Reconstructed<ElmT> reconstructed{allocated.buf};
   cont.resize(size, *reconstructed);
   for (auto& val : cont) {
     s | val;
@@ -83,12 +81,10 @@ deserializeOrderedElems(
   isNotCopyConstructible<ElmT>* = nullptr
 ) {
   using Alloc = dispatch::Allocator<ElmT>;
-  using Reconstructor =
-    dispatch::Reconstructor<typename dispatch::CleanType<ElmT>::CleanT>;
 
   Alloc allocated;
   for (typename ContainerT::size_type i = 0; i < size; ++i) {
-    auto* reconstructed = Reconstructor::construct(allocated.buf);
+    dispatch::Reconstructed<ElmT> reconstructed{allocated.buf};
     s | *reconstructed;
     cont.emplace_back(std::move(*reconstructed));
   }
diff --git a/src/checkpoint/container/map_serialize.h b/src/checkpoint/container/map_serialize.h
index a1a2a88..166bfaa 100644
--- a/src/checkpoint/container/map_serialize.h
+++ b/src/checkpoint/container/map_serialize.h
@@ -64,12 +64,10 @@ inline typename std::enable_if_t<
   Serializer& s, ContainerT& cont, typename ContainerT::size_type size
 ) {
   using Alloc = dispatch::Allocator<ElmT>;
-  using Reconstructor =
-    dispatch::Reconstructor<typename dispatch::CleanType<ElmT>::CleanT>;
 
   Alloc allocated;
   for (typename ContainerT::size_type i = 0; i < size; i++) {
-    auto* reconstructed = Reconstructor::construct(allocated.buf);
+    dispatch::Reconstructed<ElmT> reconstructed{allocated.buf};
     s | *reconstructed;
     cont.emplace(std::move(*reconstructed));
   }
diff --git a/src/checkpoint/container/optional_serialize.h b/src/checkpoint/container/optional_serialize.h
index c996286..078fb0a 100644
--- a/src/checkpoint/container/optional_serialize.h
+++ b/src/checkpoint/container/optional_serialize.h
@@ -52,18 +52,13 @@ namespace checkpoint {
 
 template <typename SerializerT, typename T>
 void deserializeOptional(SerializerT& s, std::optional<T>& optional) {
-  using BoolReconstructor =
-    dispatch::Reconstructor<typename dispatch::CleanType<bool>::CleanT>;
-  using ValReconstructor =
-    dispatch::Reconstructor<typename dispatch::CleanType<T>::CleanT>;
-
   dispatch::Allocator<bool> boolAllocated;
   dispatch::Allocator<T> valAllocated;
 
-  auto* has_value = BoolReconstructor::construct(boolAllocated.buf);
+  dispatch::Reconstructed<bool> has_value{boolAllocated.buf};
   s | *has_value;
   if (*has_value) {
-    auto* value = ValReconstructor::construct(valAllocated.buf);
+    dispatch::Reconstructed<T> value{valAllocated.buf};
     s | *value;
     optional = *value;
   } else {
diff --git a/src/checkpoint/container/queue_serialize.h b/src/checkpoint/container/queue_serialize.h
index 485fbcc..d6dc4c7 100644
--- a/src/checkpoint/container/queue_serialize.h
+++ b/src/checkpoint/container/queue_serialize.h
@@ -53,12 +53,9 @@ namespace checkpoint {
 
 template<typename SerializerT, typename T>
 void deserializeQueueElems(SerializerT& s, std::queue<T>& q, typename std::queue<T>::size_type size) {
-  using Reconstructor =
-    dispatch::Reconstructor<typename dispatch::CleanType<T>::CleanT>;
-
   dispatch::Allocator<T> allocated;
   for (typename std::queue<T>::size_type i = 0; i < size; ++i) {
-    auto* reconstructed = Reconstructor::construct(allocated.buf);
+    dispatch::Reconstructed<T> reconstructed{allocated.buf};
     s | *reconstructed;
     q.push(std::move(*reconstructed));
   }
diff --git a/src/checkpoint/container/variant_serialize.h b/src/checkpoint/container/variant_serialize.h
index 7c0e69a..aee0ea9 100644
--- a/src/checkpoint/container/variant_serialize.h
+++ b/src/checkpoint/container/variant_serialize.h
@@ -65,10 +65,8 @@ struct SerializeEntry<Arg, Args...> {
     if (entry == cur) {
       if (s.isUnpacking()) {
         using Alloc = dispatch::Allocator<Arg>;
-        using Reconstructor =
-          dispatch::Reconstructor<typename dispatch::CleanType<Arg>::CleanT>;
         Alloc allocated;
-        auto* reconstructed = Reconstructor::construct(allocated.buf);
+        dispatch::Reconstructed<Arg> reconstructed{allocated.buf};
         s | *reconstructed;
         v = std::move(*reconstructed);
       } else {
diff --git a/src/checkpoint/container/vector_serialize.h b/src/checkpoint/container/vector_serialize.h
index ed4478c..49c0efb 100644
--- a/src/checkpoint/container/vector_serialize.h
+++ b/src/checkpoint/container/vector_serialize.h
@@ -82,11 +82,9 @@ void constructVectorData(
   isNotDefaultConsType<T>* = nullptr, isCopyConstructible<T>* = nullptr
 ) {
   using Alloc = dispatch::Allocator<T>;
-  using Reconstructor =
-    dispatch::Reconstructor<typename dispatch::CleanType<T>::CleanT>;
 
   Alloc allocated;
-  auto* reconstructed = Reconstructor::construct(allocated.buf);
+  dispatch::Reconstructed<T> reconstructed{allocated.buf};
   vec.resize(vec_size, *reconstructed);
 }
 
@@ -96,12 +94,10 @@ void constructVectorData(
   isNotDefaultConsType<T>* = nullptr, isNotCopyConstructible<T>* = nullptr
 ) {
   using Alloc = dispatch::Allocator<T>;
-  using Reconstructor =
-    dispatch::Reconstructor<typename dispatch::CleanType<T>::CleanT>;
 
   Alloc allocated;
   for (SerialSizeType i = 0; i < vec_size; ++i) {
-    auto* reconstructed = Reconstructor::construct(allocated.buf);
+    dispatch::Reconstructed<T> reconstructed{allocated.buf};
     vec.emplace_back(std::move(*reconstructed));
   }
 }
diff --git a/src/checkpoint/dispatch/allocator.h b/src/checkpoint/dispatch/allocator.h
index 1083c55..4e2b557 100644
--- a/src/checkpoint/dispatch/allocator.h
+++ b/src/checkpoint/dispatch/allocator.h
@@ -45,6 +45,7 @@
 #define INCLUDED_SRC_CHECKPOINT_DISPATCH_ALLOCATOR_H
 
 #include "checkpoint/dispatch/dispatch.h"
+#include "checkpoint/dispatch/reconstructor.h"
 
 #include <memory>
 
@@ -58,6 +59,30 @@ struct Allocator {
   SerialByteType* buf;
 };
 
+/**
+ * \struct Reconstructed
+ *
+ * \brief A temporary \c T reconstructed on memory provided by the caller,
+ * destroyed at the end of the scope
+ */
+template <typename T>
+struct Reconstructed {
+  using CleanT = typename CleanType<T>::CleanT;
+
+  explicit Reconstructed(SerialByteType* buf)
+    : t_{Reconstructor<CleanT>::construct(buf)}
+  { }
+  ~Reconstructed() { t_->~CleanT(); }
+
+  Reconstructed(Reconstructed const&) = delete;
+  Reconstructed& operator=(Reconstructed const&) = delete;
+
+  CleanT& operator*() const { return *t_; }
+
+private:
+  CleanT* t_;
+};
+
 }} // namespace checkpoint::dispatch
 
 #endif /*INCLUDED_SRC_CHECKPOINT_DISPATCH_ALLOCATOR_H*/
-- 
2.43.0


From c756a701e3b76ebfeac6cefc05184c406653da5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:28 +0000
Subject: [PATCH 10/19] fix: release the memory of a pointed-to object whose
 construction throws

---
 src/checkpoint/dispatch/vrt/object_registry.h  | 11 ++++++++++-
 .../dispatch/vrt/virtual_serialize.h           | 18 ++++++++++++++----
 2 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/src/checkpoint/dispatch/vrt/object_registry.h b/src/checkpoint/dispatch/vrt/object_registry.h
index 54da0de..e929e18 100644
--- a/src/checkpoint/dispatch/vrt/object_registry.h
+++ b/src/checkpoint/dispatch/vrt/object_registry.h
@@ -58,21 +58,24 @@ namespace objregistry {
 template <typename T>
 struct ObjectEntry {
 
-  template <typename Allocator, typename Constructor>
+  template <typename Allocator, typename Deallocator, typename Constructor>
   ObjectEntry(
     TypeIdx in_idx,
     std::size_t in_size,
     Allocator&& in_allocator,
+    Deallocator&& in_deallocator,
     Constructor&& in_constructor
   ) : idx_(in_idx),
       size_(in_size),
       allocator_(in_allocator),
+      deallocator_(in_deallocator),
       constructor_(in_constructor)
   { }
 
   TypeIdx idx_ = no_type_idx;              /**< The type index for this ObjT */
   std::size_t size_ = 0;                   /**< The registered object size */
   std::function<void*(void)> allocator_;   /**< Do standard allocation for object */
+  std::function<void(void*)> deallocator_; /**< Release memory of allocator_ */
   std::function<T*(void*)> constructor_;   /**< Construct object on memory */
 };
 
@@ -110,6 +113,7 @@ Registrar<ObjT>::Registrar() {
       index,
       sizeof(ObjT),
       []()          -> void*       { return std::allocator<ObjT>{}.allocate(1); },
+      [](void* buf) -> void        { std::allocator<ObjT>{}.deallocate(static_cast<ObjT*>(buf), 1); },
       [](void* buf) -> BaseType*   { return dispatch::Reconstructor<ObjT>::constructAllowFail(buf); }
     }
   );
@@ -134,6 +138,11 @@ inline auto allocateConcreteType(TypeIdx han) {
   return getRegistry<T>().at(han).allocator_();
 }
 
+template <typename T>
+inline void deallocateConcreteType(TypeIdx han, void* buf) {
+  getRegistry<T>().at(han).deallocator_(buf);
+}
+
 template <typename T>
 inline auto constructConcreteType(TypeIdx han, void* buf) {
   return getRegistry<T>().at(han).constructor_(buf);
diff --git a/src/checkpoint/dispatch/vrt/virtual_serialize.h b/src/checkpoint/dispatch/vrt/virtual_serialize.h
index 2082dd4..016c46f 100644
--- a/src/checkpoint/dispatch/vrt/virtual_serialize.h
+++ b/src/checkpoint/dispatch/vrt/virtual_serialize.h
@@ -152,7 +152,12 @@ struct ReconstructAsVirtualIfNeeded<
   static T* apply(SerializerT&, dispatch::vrt::TypeIdx) {
     // no type idx needed in this case, static construction in default case
     auto t = std::allocator<T>{}.allocate(1);
-    return dispatch::Reconstructor<T>::construct(t);
+    try {
+      return dispatch::Reconstructor<T>::construct(t);
+    } catch (...) {
+      std::allocator<T>{}.deallocate(t, 1);
+      throw;
+    }
   }
 };
 
@@ -181,9 +186,14 @@ struct ReconstructAsVirtualIfNeeded<
 
     // use type idx here, registration needed for proper type re-construction
     auto t = dispatch::vrt::objregistry::allocateConcreteType<BaseT>(entry);
-    return static_cast<T*>(
-                           dispatch::vrt::objregistry::constructConcreteType<BaseT>(entry, t)
-                           );
+    try {
+      return static_cast<T*>(
+        dispatch::vrt::objregistry::constructConcreteType<BaseT>(entry, t)
+      );
+    } catch (...) {
+      dispatch::vrt::objregistry::deallocateConcreteType<BaseT>(entry, t);
+      throw;
+    }
   }
 };
 
-- 
2.43.0


From d924612aa088ed8a160f1b2cb0112afb1ff7e561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:28 +0000
Subject: [PATCH 11/19] fix: drop previous elements when a container is
 deserialized in place

---
 src/checkpoint/container/list_serialize.h   | 3 +++
 src/checkpoint/container/map_serialize.h    | 3 +++
 src/checkpoint/container/queue_serialize.h  | 5 +++++
 src/checkpoint/container/vector_serialize.h | 3 +++
 4 files changed, 14 insertions(+)

diff --git a/src/checkpoint/container/list_serialize.h b/src/checkpoint/container/list_serialize.h
index b149e35..8235495 100644
--- a/src/checkpoint/container/list_serialize.h
+++ b/src/checkpoint/container/list_serialize.h
@@ -82,6 +82,9 @@ deserializeOrderedElems(
 ) {
   using Alloc = dispatch::Allocator<ElmT>;
 
+  // Deserialization in place must not keep any previous elements
+  cont.clear();
+
   Alloc allocated;
   for (typename ContainerT::size_type i = 0; i < size; ++i) {
     dispatch::Reconstructed<ElmT> reconstructed{allocated.buf};
diff --git a/src/checkpoint/container/map_serialize.h b/src/checkpoint/container/map_serialize.h
index 166bfaa..a35376d 100644
--- a/src/checkpoint/container/map_serialize.h
+++ b/src/checkpoint/container/map_serialize.h
@@ -65,6 +65,9 @@ inline typename std::enable_if_t<
 ) {
   using Alloc = dispatch::Allocator<ElmT>;
 
+  // Deserialization in place must not keep any previous elements
+  cont.clear();
+
   Alloc allocated;
   for (typename ContainerT::size_type i = 0; i < size; i++) {
     dispatch::Reconstructed<ElmT> reconstructed{allocated.buf};
diff --git a/src/checkpoint/container/queue_serialize.h b/src/checkpoint/container/queue_serialize.h
index d6dc4c7..4526ad7 100644
--- a/src/checkpoint/container/queue_serialize.h
+++ b/src/checkpoint/container/queue_serialize.h
@@ -53,6 +53,11 @@ namespace checkpoint {
 
 template<typename SerializerT, typename T>
 void deserializeQueueElems(SerializerT& s, std::queue<T>& q, typename std::queue<T>::size_type size) {
+  // Deserialization in place must not keep any previous elements
+  while (!q.empty()) {
+    q.pop();
+  }
+
   dispatch::Allocator<T> allocated;
   for (typename std::queue<T>::size_type i = 0; i < size; ++i) {
     dispatch::Reconstructed<T> reconstructed{allocated.buf};
diff --git a/src/checkpoint/container/vector_serialize.h b/src/checkpoint/container/vector_serialize.h
index 49c0efb..bc4f39d 100644
--- a/src/checkpoint/container/vector_serialize.h
+++ b/src/checkpoint/container/vector_serialize.h
@@ -95,6 +95,9 @@ void constructVectorData(
 ) {
   using Alloc = dispatch::Allocator<T>;
 
+  // Deserialization in place must not keep any previous elements
+  vec.clear();
+
   Alloc allocated;
   for (SerialSizeType i = 0; i < vec_size; ++i) {
     dispatch::Reconstructed<T> reconstructed{allocated.buf};
-- 
2.43.0


From b766450473d82f84e828de8c91a29ecfbb11a72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:28 +0000
Subject: [PATCH 12/19] fix: serialize every element of contiguous virtually
 serializable objects

---
 src/checkpoint/dispatch/dispatch_serializer_nonbyte.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/checkpoint/dispatch/dispatch_serializer_nonbyte.h b/src/checkpoint/dispatch/dispatch_serializer_nonbyte.h
index 247e0c4..c8ac236 100644
--- a/src/checkpoint/dispatch/dispatch_serializer_nonbyte.h
+++ b/src/checkpoint/dispatch/dispatch_serializer_nonbyte.h
@@ -222,7 +222,10 @@ struct SerializerDispatchNonByte {
       s.setVirtualDisabled(false);
       applyStatic(s, val, num);
     } else {
-      dispatch::vrt::virtualSerialize(val, s);
+      for (SerialSizeType i = 0; i < num; i++) {
+        T* elm = val + i;
+        dispatch::vrt::virtualSerialize(elm, s);
+      }
     }
   }
 
-- 
2.43.0


From 5fe2fb5250284b0dd76082a0873cd3fef2027bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:28 +0000
Subject: [PATCH 13/19] fix: do not modify the type registry when looking up an
 unknown index

---
 src/checkpoint/dispatch/type_registry.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/checkpoint/dispatch/type_registry.h b/src/checkpoint/dispatch/type_registry.h
index 69881a9..b5a44ed 100644
--- a/src/checkpoint/dispatch/type_registry.h
+++ b/src/checkpoint/dispatch/type_registry.h
@@ -124,7 +124,12 @@ inline DecodedIndex getTypeIdx() {
 }
 
 inline std::string const& getTypeNameForIdx(DecodedIndex const typeIdx) {
-  return getRegisteredNames()[typeIdx];
+  // The index may come from data that was not serialized by this program: do
+  // not add it to the registry
+  static std::string const unknown = "unknown type";
+  auto const& names = getRegisteredNames();
+  auto const it = names.find(typeIdx);
+  return it != names.end() ? it->second : unknown;
 }
 
 template <typename ObjT>
-- 
2.43.0


From 09831048388a6c8ff8936290fc3c015e5d9bc303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:28 +0000
Subject: [PATCH 14/19] fix: do not write to the shared serializer registry on
 every virtual serialization

---
 .../dispatch/vrt/link_derived_to_base_idx.h       | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/checkpoint/dispatch/vrt/link_derived_to_base_idx.h b/src/checkpoint/dispatch/vrt/link_derived_to_base_idx.h
index 504edb5..5882b27 100644
--- a/src/checkpoint/dispatch/vrt/link_derived_to_base_idx.h
+++ b/src/checkpoint/dispatch/vrt/link_derived_to_base_idx.h
@@ -51,11 +51,16 @@ namespace checkpoint { namespace dispatch { namespace vrt {
 template <typename SerializerT, typename DerivedT, typename BaseT>
 inline void linkDerivedToBase() {
   using namespace serializer_registry;
-  auto derived_idx = makeObjIdx<DerivedT, SerializerT>();
-  auto base_idx = makeObjIdx<BaseT, SerializerT>();
-  // Link the DerivedT entry to the BaseT entry
-  auto& entry = getObjIdxRef<DerivedT>(derived_idx);
-  entry.base_idx_ = base_idx;
+  // Link the DerivedT entry to the BaseT entry, once: other threads may already
+  // be using the registry
+  static bool const linked = [] {
+    auto derived_idx = makeObjIdx<DerivedT, SerializerT>();
+    auto base_idx = makeObjIdx<BaseT, SerializerT>();
+    auto& entry = getObjIdxRef<DerivedT>(derived_idx);
+    entry.base_idx_ = base_idx;
+    return true;
+  }();
+  (void)linked;
 }
 
 }}} /* end namespace checkpoint::dispatch::vrt */
-- 
2.43.0


From 7685a7d40ca493a5b362e00b4976f5d3bd206796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:28 +0000
Subject: [PATCH 15/19] fix: do not race on the first footprint of a type that
 is not serializable

---
 src/checkpoint/dispatch/dispatch_serializer_nonbyte.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/checkpoint/dispatch/dispatch_serializer_nonbyte.h b/src/checkpoint/dispatch/dispatch_serializer_nonbyte.h
index c8ac236..55f8c06 100644
--- a/src/checkpoint/dispatch/dispatch_serializer_nonbyte.h
+++ b/src/checkpoint/dispatch/dispatch_serializer_nonbyte.h
@@ -158,15 +158,15 @@ struct SerializerDispatchNonByte {
       static_cast<void*>(&val),
       typeid(val).name()
     );
-    static bool firstCall = true;
-    if (firstCall) {
-      firstCall = false;
+    static bool const warned = [] {
       debug_checkpoint(
         "SerializerDispatch: warning: simplified footprinting in use!\n"
         "Objects of type: typeid=%s will not be traversed\n",
-        typeid(val).name()
+        typeid(T*).name()
       );
-    }
+      return true;
+    }();
+    (void)warned;
 
     s.contiguousBytes(val, sizeof(T), num);
   }
-- 
2.43.0


From 6bc46ebbc9a3c2669ce2710b66dcd5561e1412ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:28 +0000
Subject: [PATCH 16/19] fix: destroy the elements of a tuple when constructing
 a later one throws

---
 src/checkpoint/container/tuple_serialize.h | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/checkpoint/container/tuple_serialize.h b/src/checkpoint/container/tuple_serialize.h
index 5efe06e..2c4f29e 100644
--- a/src/checkpoint/container/tuple_serialize.h
+++ b/src/checkpoint/container/tuple_serialize.h
@@ -60,11 +60,18 @@ void tuple_helper(Serializer& s, std::tuple<T...>& tup, std::index_sequence<Idxs
   );
 }
 
-template <typename... T, size_t... Idxs>
-void tuple_helper_reconstruct(std::tuple<T...>*& tup, std::index_sequence<Idxs...>) {
-  std::forward_as_tuple(
-    (dispatch::Reconstructor<T>::construct(&std::get<Idxs>(*tup)))...
-  );
+template <size_t Idx = 0, typename... T>
+void tuple_helper_reconstruct(std::tuple<T...>*& tup) {
+  if constexpr (Idx < sizeof...(T)) {
+    using ElmT = std::tuple_element_t<Idx, std::tuple<T...>>;
+    auto elm = dispatch::Reconstructor<ElmT>::construct(&std::get<Idx>(*tup));
+    try {
+      tuple_helper_reconstruct<Idx + 1>(tup);
+    } catch (...) {
+      elm->~ElmT();
+      throw;
+    }
+  }
 }
 
 template <typename Serializer, typename... Args>
@@ -84,7 +91,7 @@ struct CheckpointReconstructor<std::tuple<Args...>> {
   static void reconstruct(std::tuple<Args...>*& tuple, void* buf) {
     using TupleType = std::decay_t<decltype(*tuple)>;
     tuple = std::launder<TupleType>(reinterpret_cast<TupleType*>(buf));
-    tuple_helper_reconstruct(tuple, std::index_sequence_for<Args...>());
+    tuple_helper_reconstruct(tuple);
   }
 };
 
-- 
2.43.0


From 24cca03084f82e00afa02c6095bdf357d445aa6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:00 +0000
Subject: [PATCH 17/19] fix: throw instead of aborting when damaged data names
 an abstract type

---
 src/checkpoint/dispatch/reconstructor.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/checkpoint/dispatch/reconstructor.h b/src/checkpoint/dispatch/reconstructor.h
index 98c8016..fedf3c3 100644
--- a/src/checkpoint/dispatch/reconstructor.h
+++ b/src/checkpoint/dispatch/reconstructor.h
@@ -50,6 +50,7 @@
 
 #include <tuple>
 #include <cstdlib>
+#include <stdexcept>
 
 namespace checkpoint { namespace dispatch {
 
@@ -163,8 +164,8 @@ struct Reconstructor {
       "or reconstruct()",
       typeid(T).name()
     );
-    checkpointAssert(false, msg.get());
-    return nullptr;
+    // This can be caused by damaged data: it must be possible to recover
+    throw std::runtime_error(msg.get());
   }
 
   // Used for instantiating reconstructor on abstract types that might not be
-- 
2.43.0


From c8a0a3204360d531638273b5e4d33471b26bdc96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:00 +0000
Subject: [PATCH 18/19] fix: throw instead of aborting when the type of a
 deserialized object does not match its target

---
 src/checkpoint/dispatch/vrt/virtual_serialize.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/checkpoint/dispatch/vrt/virtual_serialize.h b/src/checkpoint/dispatch/vrt/virtual_serialize.h
index 016c46f..b7296bf 100644
--- a/src/checkpoint/dispatch/vrt/virtual_serialize.h
+++ b/src/checkpoint/dispatch/vrt/virtual_serialize.h
@@ -47,6 +47,8 @@
 #include "checkpoint/dispatch/vrt/base.h"
 #include "checkpoint/dispatch/vrt/derived.h"
 
+#include <stdexcept>
+
 namespace checkpoint { namespace dispatch { namespace vrt {
 
 /**
@@ -119,9 +121,13 @@ struct SerializeVirtualTypeIfNeeded<
     }
 
     if (target != nullptr) {
-      // Support deserialization in place, and make sure it's safe
-      checkpointAssert(entry == target->_checkpointDynamicTypeIndex(),
-                       "Trying to deserialize in place over a mismatched type");
+      // Support deserialization in place, and make sure it's safe. Damaged data
+      // may cause this: it must be possible to recover
+      if (entry != target->_checkpointDynamicTypeIndex()) {
+        throw std::runtime_error(
+          "Trying to deserialize in place over a mismatched type"
+        );
+      }
     }
 
     return entry;
-- 
2.43.0


From 25a18d45a99cbb931e6e423e3139293b02c611b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:09 +0000
Subject: [PATCH 19/19] fix: handle virtually serializable types on streams of
 a derived class

Serializers are registered for std::ostream and std::istream only, so that a
call with, e.g., an std::ofstream or std::stringstream failed for types with
virtually serializable members.
---
 src/checkpoint/checkpoint_api.impl.h | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/checkpoint/checkpoint_api.impl.h b/src/checkpoint/checkpoint_api.impl.h
index b0c6736..7bfdeeb 100644
--- a/src/checkpoint/checkpoint_api.impl.h
+++ b/src/checkpoint/checkpoint_api.impl.h
@@ -125,18 +125,31 @@ void deserializeInPlaceFromFile(std::string const& file, T* t) {
   );
 }
 
+namespace detail {
+
+// Use the standard stream class for the classes derived from it: only serializers
+// for that one are registered for virtually serializable types
+template <typename StreamT, typename StandardT>
+using StreamBase = std::conditional_t<
+  std::is_base_of<StandardT, StreamT>::value, StandardT, StreamT
+>;
+
+} /* end namespace detail */
+
 template <typename T, typename StreamT>
 void serializeToStream(T& target, StreamT& stream) {
+  using PackerT = StreamPacker<detail::StreamBase<StreamT, std::ostream>>;
   auto len = getSize<T>(target);
-  dispatch::Standard::pack<T, StreamPacker<StreamT>>(
+  dispatch::Standard::pack<T, PackerT>(
     target, len, stream
   );
 }
 
 template <typename T, typename StreamT>
 std::unique_ptr<T> deserializeFromStream(StreamT& stream) {
+  using UnpackerT = StreamUnpacker<detail::StreamBase<StreamT, std::istream>>;
   auto t = dispatch::reconstructNew<T>();
-  dispatch::Standard::unpack<T, StreamUnpacker<StreamT>>(
+  dispatch::Standard::unpack<T, UnpackerT>(
     t.get(), stream
   );
   return t;
@@ -144,7 +157,8 @@ std::unique_ptr<T> deserializeFromStream(StreamT& stream) {
 
 template <typename T, typename StreamT>
 void deserializeInPlaceFromStream(StreamT& stream, T* t) {
-  dispatch::Standard::unpack<T, StreamUnpacker<StreamT>>(
+  using UnpackerT = StreamUnpacker<detail::StreamBase<StreamT, std::istream>>;
+  dispatch::Standard::unpack<T, UnpackerT>(
     t, stream
   );
 }
-- 
2.43.0

