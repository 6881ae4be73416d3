From 082b4fda72267bd6791abca8a0a85cbaf4795a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:35 +0000
Subject: [PATCH 01/93] fix: BlockList::toString crashed or ignored the end of
 the range

---
 .../ply-runtime/container/BlockList.cpp       |  3 ++-
 .../runtime/ply-runtime/container/BlockList.h | 19 ++++++++++++-------
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/container/BlockList.cpp b/repos/plywood/src/runtime/ply-runtime/container/BlockList.cpp
index f505e16..5533e54 100644
--- a/repos/plywood/src/runtime/ply-runtime/container/BlockList.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/container/BlockList.cpp
@@ -114,7 +114,8 @@ PLY_NO_INLINE String BlockList::toString(Ref&& start, const WeakRef& end) {
     // Check for special case: When there is only one block and only one reference to the block,
     // we can truncate this block and return it as a String directly.
     if (!start.block->nextBlock && start.block->refCount == 1 && start.block->bytes == start.byte) {
-        u32 numBytes = start.block->numBytesUsed;
+        PLY_ASSERT(!end.block || end.block == start.block);
+        u32 numBytes = end.block ? end.block->offsetOf(end.byte) : start.block->numBytesUsed;
         char* bytes = (char*) PLY_HEAP.realloc(start.byte, numBytes);
         String result = String::adopt(bytes, numBytes);
         start.block.release();
diff --git a/repos/plywood/src/runtime/ply-runtime/container/BlockList.h b/repos/plywood/src/runtime/ply-runtime/container/BlockList.h
index f002996..8e32e8b 100644
--- a/repos/plywood/src/runtime/ply-runtime/container/BlockList.h
+++ b/repos/plywood/src/runtime/ply-runtime/container/BlockList.h
@@ -91,6 +91,9 @@ struct BlockList {
         PLY_INLINE bool operator!=(const WeakRef& other) const {
             return this->block != other.block || this->byte != other.byte;
         }
+        PLY_INLINE u64 fileOffset() const {
+            return this->block->fileOffset + (this->byte - this->block->bytes);
+        }
         PLY_INLINE WeakRef normalized() const {
             if (this->block->nextBlock && (this->byte == this->block->unused())) {
                 return {this->block->nextBlock, this->block->start()};
@@ -141,10 +144,13 @@ struct BlockList {
     //--------------------------------------
     struct RangeForIterator {
         WeakRef curPos;
-        WeakRef endPos;
+        u64 numBytesLeft; // The end position may be in a block that overlaps the one we get to
 
         RangeForIterator(const WeakRef& startPos, const WeakRef& endPos = {})
-            : curPos{startPos}, endPos{endPos} {
+            : curPos{startPos}, numBytesLeft{Limits<u64>::Max} {
+            if (endPos.block) {
+                this->numBytesLeft = endPos.fileOffset() - startPos.fileOffset();
+            }
         }
         PLY_INLINE RangeForIterator& begin() {
             return *this;
@@ -153,16 +159,15 @@ struct BlockList {
             return *this;
         }
         PLY_INLINE void operator++() {
+            this->numBytesLeft -= (**this).numBytes;
             this->curPos = this->curPos.block->weakRefToNext();
         }
         PLY_INLINE bool operator!=(const RangeForIterator&) const {
-            return this->curPos != this->endPos;
+            return this->curPos.block && this->numBytesLeft > 0;
         }
         PLY_INLINE StringView operator*() const {
-            return StringView::fromRange(this->curPos.byte,
-                                         (this->curPos.block == this->endPos.block)
-                                             ? this->endPos.byte
-                                             : this->curPos.block->unused());
+            u64 numBytes = this->curPos.block->unused() - this->curPos.byte;
+            return {this->curPos.byte, (u32) min(numBytes, this->numBytesLeft)};
         }
     };
 
-- 
2.43.0


From 3c7324961d3f49066e1e3f90b8267e8dca48af2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:35 +0000
Subject: [PATCH 02/93] fix: WeakRef::normalized paired the next block with
 this block's bytes

---
 repos/plywood/src/runtime/ply-runtime/container/BlockList.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/container/BlockList.h b/repos/plywood/src/runtime/ply-runtime/container/BlockList.h
index 8e32e8b..482442e 100644
--- a/repos/plywood/src/runtime/ply-runtime/container/BlockList.h
+++ b/repos/plywood/src/runtime/ply-runtime/container/BlockList.h
@@ -96,7 +96,7 @@ struct BlockList {
         }
         PLY_INLINE WeakRef normalized() const {
             if (this->block->nextBlock && (this->byte == this->block->unused())) {
-                return {this->block->nextBlock, this->block->start()};
+                return {this->block->nextBlock, this->block->nextBlock->start()};
             }
             return *this;
         }
-- 
2.43.0


From 9d1e19ba8768af0c725f0f4e4abee52aa68087c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:44 +0000
Subject: [PATCH 03/93] fix: InStream::tryMakeBytesAvailable(n) lost or
 corrupted data when the request spanned blocks

---
 .../src/runtime/ply-runtime/io/InStream.cpp   | 76 +++++++++++--------
 1 file changed, 44 insertions(+), 32 deletions(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/io/InStream.cpp b/repos/plywood/src/runtime/ply-runtime/io/InStream.cpp
index ca9a764..ab1be7a 100644
--- a/repos/plywood/src/runtime/ply-runtime/io/InStream.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/io/InStream.cpp
@@ -65,6 +65,7 @@ PLY_NO_INLINE u32 InStream::tryMakeBytesAvailableInternal(u32 numRequestedBytes)
         return 0;
     }
 
+    // If the request spans several existing blocks, overlayBlock collects a contiguous copy of it.
     Reference<BlockList::Footer> overlayBlock;
     u32 numBytesNeededToCompleteRequest = numRequestedBytes;
     for (;;) {
@@ -81,26 +82,25 @@ PLY_NO_INLINE u32 InStream::tryMakeBytesAvailableInternal(u32 numRequestedBytes)
             // Another block follows this one in the list, and we already know, from the previous
             // check, that this block doesn't contain enough unread data to fulfill the rest of the
             // request.
-            PLY_ASSERT(numUnreadBytesInCurrentBlock < numBytesNeededToCompleteRequest);
-            if (numUnreadBytesInCurrentBlock > 0) {
-                // Copy unread data to overlayBlock (creating overlayBlock first, if needed).
+            BlockList::Footer* nextBlock = this->block->nextBlock;
+            u64 fileOffset = this->block->fileOffset + (this->curByte - this->block->bytes);
+            if (fileOffset < nextBlock->fileOffset) {
+                // The next block doesn't contain a copy of the unread data. Copy it to overlayBlock
+                // (creating overlayBlock first, if needed).
                 if (!overlayBlock) {
-                    PLY_ASSERT(numBytesNeededToCompleteRequest == numRequestedBytes);
-                    overlayBlock = BlockList::createOverlayBlock({this->block, this->block->bytes},
-                                                                 numRequestedBytes);
-                }
-                if (overlayBlock) {
-                    memcpy(overlayBlock->bytes + numRequestedBytes -
-                               numBytesNeededToCompleteRequest,
-                           this->curByte, numUnreadBytesInCurrentBlock);
+                    overlayBlock = BlockList::createOverlayBlock(
+                        {this->block, const_cast<char*>(this->curByte)},
+                        max(numRequestedBytes, this->getBlockSize()));
                 }
-                numBytesNeededToCompleteRequest -= numUnreadBytesInCurrentBlock;
+                u32 numBytesToCopy = safeDemote<u32>(nextBlock->fileOffset - fileOffset);
+                PLY_ASSERT(numBytesToCopy <= numUnreadBytesInCurrentBlock);
+                memcpy(overlayBlock->unused(), this->curByte, numBytesToCopy);
+                overlayBlock->numBytesUsed += numBytesToCopy;
+                numBytesNeededToCompleteRequest -= numBytesToCopy;
+                fileOffset += numBytesToCopy;
             }
             // Advance to next block.
-            BlockList::Footer* nextBlock = this->block->nextBlock;
-            u32 offsetIntoNextBlock =
-                this->block->numBytesUsed -
-                safeDemote<u32>(nextBlock->fileOffset - this->block->fileOffset);
+            u32 offsetIntoNextBlock = safeDemote<u32>(fileOffset - nextBlock->fileOffset);
             this->block = nextBlock;
             PLY_ASSERT(offsetIntoNextBlock <= nextBlock->numBytesUsed);
             this->curByte = nextBlock->bytes + offsetIntoNextBlock;
@@ -108,10 +108,23 @@ PLY_NO_INLINE u32 InStream::tryMakeBytesAvailableInternal(u32 numRequestedBytes)
         } else {
             u32 unreadStorageInCurrentBlock = safeDemote<u32>(this->block->end() - this->curByte);
             if (unreadStorageInCurrentBlock < numBytesNeededToCompleteRequest) {
-                // Append a new block
-                BlockList::appendBlockWithRecycle(this->block, max(numBytesNeededToCompleteRequest, this->getBlockSize()));
+                u32 newBlockSize = max(numBytesNeededToCompleteRequest, this->getBlockSize());
+                if (numUnreadBytesInCurrentBlock == 0) {
+                    // Append a new block
+                    BlockList::appendBlockWithRecycle(this->block, newBlockSize);
+                } else {
+                    // Append a new block that begins with a copy of the unread data
+                    Reference<BlockList::Footer> newBlock = BlockList::createBlock(newBlockSize);
+                    newBlock->fileOffset =
+                        this->block->fileOffset + (this->curByte - this->block->bytes);
+                    memcpy(newBlock->bytes, this->curByte, numUnreadBytesInCurrentBlock);
+                    newBlock->numBytesUsed = numUnreadBytesInCurrentBlock;
+                    newBlock->prevBlock = this->block;
+                    this->block->nextBlock = newBlock;
+                    this->block = std::move(newBlock);
+                }
                 this->curByte = this->block->bytes;
-                this->endByte = this->block->bytes; // nothing written to this block yet
+                this->endByte = this->block->unused();
             }
             // Current block has enough storage to fulfill the remainder of the request.
             break;
@@ -141,20 +154,19 @@ PLY_NO_INLINE u32 InStream::tryMakeBytesAvailableInternal(u32 numRequestedBytes)
         PLY_ASSERT(this->endByte == this->block->unused());
     }
 
-    u32 numBytesToReturn =
-        numRequestedBytes - numBytesNeededToCompleteRequest + numBytesAvailableToReadInBlock;
-
-    // If we created a overlayBlock, finish copying data to it now, and expose the overlayBlock to
-    // the caller.
-    if (overlayBlock) {
-        PLY_ASSERT(numBytesNeededToCompleteRequest > 0);
-        memcpy(overlayBlock->bytes + numRequestedBytes - numBytesNeededToCompleteRequest,
-               this->curByte, numBytesNeededToCompleteRequest);
-        this->curByte = overlayBlock->bytes;
-        this->endByte = overlayBlock->bytes + numBytesToReturn;
-    }
+    if (!overlayBlock)
+        return numBytesAvailableToReadInBlock;
 
-    return numBytesToReturn;
+    // Finish copying data to overlayBlock and expose it to the caller. When the caller has consumed
+    // it, reading continues in the current block.
+    u32 numBytesToCopy = min(numBytesNeededToCompleteRequest, numBytesAvailableToReadInBlock);
+    memcpy(overlayBlock->unused(), this->curByte, numBytesToCopy);
+    overlayBlock->numBytesUsed += numBytesToCopy;
+    overlayBlock->nextBlock = this->block;
+    this->block = std::move(overlayBlock);
+    this->curByte = this->block->bytes;
+    this->endByte = this->block->unused();
+    return this->block->numBytesUsed;
 }
 
 PLY_NO_INLINE u64 InStream::getSeekPos() const {
-- 
2.43.0


From 50fe4e3495e308c4d57f4c6d98f6f154616d7347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:44 +0000
Subject: [PATCH 04/93] fix: InStream::read and skip failed on bytes that were
 available before EOF

---
 .../src/runtime/ply-runtime/io/InStream.cpp        | 14 ++++++--------
 .../plywood/src/runtime/ply-runtime/io/InStream.h  |  4 ++--
 2 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/io/InStream.cpp b/repos/plywood/src/runtime/ply-runtime/io/InStream.cpp
index ab1be7a..abe8e4e 100644
--- a/repos/plywood/src/runtime/ply-runtime/io/InStream.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/io/InStream.cpp
@@ -195,11 +195,10 @@ PLY_NO_INLINE void InStream::rewind(const BlockList::WeakRef& pos) {
 }
 
 PLY_NO_INLINE bool InStream::readSlowPath(MutableStringView dst) {
-    if (this->status.eof)
-        return false;
-
     while (dst.numBytes > 0) {
-        if (!this->tryMakeBytesAvailable()) {
+        // Bytes may still be available after EOF was encountered while looking ahead
+        if (this->numBytesAvailable() == 0 &&
+            (this->status.eof || !this->tryMakeBytesAvailable())) {
             memset(dst.bytes, 0, dst.numBytes);
             return false;
         }
@@ -213,11 +212,10 @@ PLY_NO_INLINE bool InStream::readSlowPath(MutableStringView dst) {
 }
 
 PLY_NO_INLINE bool InStream::skipSlowPath(u32 numBytes) {
-    if (this->status.eof)
-        return false;
-
     while (numBytes > 0) {
-        if (!this->tryMakeBytesAvailable()) {
+        // Bytes may still be available after EOF was encountered while looking ahead
+        if (this->numBytesAvailable() == 0 &&
+            (this->status.eof || !this->tryMakeBytesAvailable())) {
             return false;
         }
         u32 toSkip = min<u32>(numBytes, this->numBytesAvailable());
diff --git a/repos/plywood/src/runtime/ply-runtime/io/InStream.h b/repos/plywood/src/runtime/ply-runtime/io/InStream.h
index 3127bd6..4016b8b 100644
--- a/repos/plywood/src/runtime/ply-runtime/io/InStream.h
+++ b/repos/plywood/src/runtime/ply-runtime/io/InStream.h
@@ -243,7 +243,7 @@ public:
         // implement memcpy() as a MOV:
         memcpy(dst.bytes, this->curByte, dst.numBytes);
         this->curByte += dst.numBytes;
-        return this->status.eof == 0;
+        return true;
     }
 
     PLY_DLL_ENTRY bool skipSlowPath(u32 numBytes);
@@ -259,7 +259,7 @@ public:
             return this->skipSlowPath(numBytes);
         }
         this->curByte += numBytes;
-        return this->status.eof == 0;
+        return true;
     }
 
     /*!
-- 
2.43.0


From 7b45c5af8b90856a92e62c025dd76f4a5bb42a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:44 +0000
Subject: [PATCH 05/93] fix: InStream move assignment was declared but not
 defined

---
 repos/plywood/src/runtime/ply-runtime/io/InStream.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/io/InStream.h b/repos/plywood/src/runtime/ply-runtime/io/InStream.h
index 4016b8b..7cd8f48 100644
--- a/repos/plywood/src/runtime/ply-runtime/io/InStream.h
+++ b/repos/plywood/src/runtime/ply-runtime/io/InStream.h
@@ -120,7 +120,10 @@ public:
     /*!
     Move assignment operator.
     */
-    PLY_DLL_ENTRY void operator=(InStream&& other);
+    PLY_INLINE void operator=(InStream&& other) {
+        this->~InStream();
+        new (this) InStream{std::move(other)};
+    }
 
     /*!
     Return `true` if the `InStream` is a `ViewInStream`.
-- 
2.43.0


From a782deffc90ca1ef1f123cef8bf32b04b3180a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:14 +0000
Subject: [PATCH 06/93] fix: OutStream trapped on the next flush after its pipe
 failed

---
 repos/plywood/src/runtime/ply-runtime/io/OutStream.cpp | 4 +++-
 repos/plywood/src/runtime/ply-runtime/io/OutStream.h   | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/io/OutStream.cpp b/repos/plywood/src/runtime/ply-runtime/io/OutStream.cpp
index 85938ed..eb116d8 100644
--- a/repos/plywood/src/runtime/ply-runtime/io/OutStream.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/io/OutStream.cpp
@@ -60,7 +60,8 @@ PLY_NO_INLINE bool OutStream::flushInternal() {
         return true;
 
     // this->block->numBytesUsed is the last flushed offset
-    PLY_ASSERT(this->endByte == this->block->bytes + this->block->blockSize);
+    // (After a failed write, endByte is brought back to curByte so that nothing fits anymore.)
+    PLY_ASSERT(this->status.eof || this->endByte == this->block->bytes + this->block->blockSize);
     u32 newWritePos = safeDemote<u32>(this->curByte - this->block->bytes);
     PLY_ASSERT(newWritePos >= this->block->numBytesUsed);
     PLY_ASSERT(newWritePos <= this->block->blockSize);
@@ -69,6 +70,7 @@ PLY_NO_INLINE bool OutStream::flushInternal() {
             if (!this->outPipe->write({this->block->bytes + this->block->numBytesUsed,
                                        newWritePos - this->block->numBytesUsed})) {
                 this->status.eof = 1;
+                this->endByte = this->curByte;
             }
         }
         this->block->numBytesUsed = newWritePos;
diff --git a/repos/plywood/src/runtime/ply-runtime/io/OutStream.h b/repos/plywood/src/runtime/ply-runtime/io/OutStream.h
index 3bc3866..35f5996 100644
--- a/repos/plywood/src/runtime/ply-runtime/io/OutStream.h
+++ b/repos/plywood/src/runtime/ply-runtime/io/OutStream.h
@@ -222,7 +222,7 @@ public:
             return false;
         *this->curByte = byte;
         this->curByte++;
-        return true;
+        return this->status.eof == 0;
     }
 
     PLY_DLL_ENTRY bool writeSlowPath(StringView src);
-- 
2.43.0


From 0f6298399b43c153e71372578ceb305e794dc8fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:40 +0000
Subject: [PATCH 07/93] fix: InPipe_FD::readSome trapped instead of returning 0
 when read() failed

---
 repos/plywood/src/runtime/ply-runtime/io/impl/Pipe_FD.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/io/impl/Pipe_FD.cpp b/repos/plywood/src/runtime/ply-runtime/io/impl/Pipe_FD.cpp
index 8913365..24fd054 100644
--- a/repos/plywood/src/runtime/ply-runtime/io/impl/Pipe_FD.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/io/impl/Pipe_FD.cpp
@@ -27,9 +27,8 @@ PLY_NO_INLINE u32 InPipe_FD_readSome(InPipe* inPipe_, MutableStringView buf) {
     do {
         rc = (s32)::read(inPipe->fd, buf.bytes, buf.numBytes);
     } while (rc == -1 && errno == EINTR);
-    PLY_ASSERT(rc >= 0); // Note: Will probably need to detect closed pipes here
     if (rc < 0)
-        return 0;
+        return 0; // Error (for example, the connection was reset)
     return rc;
 }
 
-- 
2.43.0


From 40fac97c1cccddde6ef215d348cbf774cdc0332d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:40 +0000
Subject: [PATCH 08/93] fix: OutPipe_FD::write gave up, losing data, when
 write() was interrupted

---
 repos/plywood/src/runtime/ply-runtime/io/impl/Pipe_FD.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/io/impl/Pipe_FD.cpp b/repos/plywood/src/runtime/ply-runtime/io/impl/Pipe_FD.cpp
index 24fd054..011b869 100644
--- a/repos/plywood/src/runtime/ply-runtime/io/impl/Pipe_FD.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/io/impl/Pipe_FD.cpp
@@ -64,7 +64,10 @@ PLY_NO_INLINE bool OutPipe_FD_write(OutPipe* outPipe_, StringView buf) {
     OutPipe_FD* outPipe = static_cast<OutPipe_FD*>(outPipe_);
     PLY_ASSERT(outPipe->fd >= 0);
     while (buf.numBytes > 0) {
-        s32 sent = (s32)::write(outPipe->fd, buf.bytes, buf.numBytes);
+        s32 sent;
+        do {
+            sent = (s32)::write(outPipe->fd, buf.bytes, buf.numBytes);
+        } while (sent == -1 && errno == EINTR);
         if (sent <= 0)
             return false;
         PLY_ASSERT((u32) sent <= buf.numBytes);
-- 
2.43.0


From 5d1f42abb235dafbf7437fe94aea960687582872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:40 +0000
Subject: [PATCH 09/93] fix: OutPipe_FD::flush(true) never flushed to the
 device

---
 .../src/runtime/ply-runtime/io/impl/Pipe_FD.cpp     | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/io/impl/Pipe_FD.cpp b/repos/plywood/src/runtime/ply-runtime/io/impl/Pipe_FD.cpp
index 011b869..1b1eb59 100644
--- a/repos/plywood/src/runtime/ply-runtime/io/impl/Pipe_FD.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/io/impl/Pipe_FD.cpp
@@ -78,9 +78,18 @@ PLY_NO_INLINE bool OutPipe_FD_write(OutPipe* outPipe_, StringView buf) {
 }
 
 PLY_NO_INLINE bool OutPipe_FD_flush(OutPipe* outPipe_, bool toDevice) {
-    // FIXME: Implement as per
+    OutPipe_FD* outPipe = static_cast<OutPipe_FD*>(outPipe_);
+    PLY_ASSERT(outPipe->fd >= 0);
+    if (!toDevice)
+        return true;
+    // FIXME: Use F_FULLFSYNC on Apple platforms as per
     // https://github.com/libuv/libuv/issues/1579#issue-262113760
-    return true;
+    int rc;
+    do {
+        rc = ::fsync(outPipe->fd);
+    } while (rc == -1 && errno == EINTR);
+    // Pipes, sockets and terminals have no device to flush:
+    return rc == 0 || errno == EINVAL || errno == ENOTSUP || errno == EROFS;
 }
 
 PLY_NO_INLINE u64 OutPipe_FD_seek(OutPipe* outPipe_, s64 pos, SeekDir seekDir) {
-- 
2.43.0


From 7796353754412a78475dff793031f2eb7035403a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:00 +0000
Subject: [PATCH 10/93] fix: FileSystem_POSIX trapped on ordinary errors that
 are documented to be reported as Unknown

---
 .../runtime/ply-runtime/filesystem/impl/FileSystem_POSIX.cpp   | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/filesystem/impl/FileSystem_POSIX.cpp b/repos/plywood/src/runtime/ply-runtime/filesystem/impl/FileSystem_POSIX.cpp
index 6d6fd5e..752eb80 100644
--- a/repos/plywood/src/runtime/ply-runtime/filesystem/impl/FileSystem_POSIX.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/filesystem/impl/FileSystem_POSIX.cpp
@@ -13,7 +13,8 @@
 #include <fcntl.h>
 #include <limits.h>
 
-#define PLY_FSPOSIX_ALLOW_UNKNOWN_ERRORS 0
+// Errors that aren't recognized are reported as FSResult::Unknown. Set this to 0 to trap them instead:
+#define PLY_FSPOSIX_ALLOW_UNKNOWN_ERRORS 1
 
 namespace ply {
 
-- 
2.43.0


From 5030f6a3efea4a0a161e94da680e33376a0dccfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:00 +0000
Subject: [PATCH 11/93] fix: FileSystem_POSIX::makeDir didn't recognize the
 documented AccessDenied result

---
 .../runtime/ply-runtime/filesystem/impl/FileSystem_POSIX.cpp   | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/repos/plywood/src/runtime/ply-runtime/filesystem/impl/FileSystem_POSIX.cpp b/repos/plywood/src/runtime/ply-runtime/filesystem/impl/FileSystem_POSIX.cpp
index 752eb80..3a636e0 100644
--- a/repos/plywood/src/runtime/ply-runtime/filesystem/impl/FileSystem_POSIX.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/filesystem/impl/FileSystem_POSIX.cpp
@@ -124,6 +124,9 @@ PLY_NO_INLINE FSResult FileSystem_POSIX::makeDir(FileSystem*, StringView path) {
             case EISDIR: {
                 return FileSystem::setLastResult(FSResult::AlreadyExists);
             }
+            case EACCES: {
+                return FileSystem::setLastResult(FSResult::AccessDenied);
+            }
             default: {
                 PLY_ASSERT(PLY_FSPOSIX_ALLOW_UNKNOWN_ERRORS);
                 return FileSystem::setLastResult(FSResult::Unknown);
-- 
2.43.0


From 3e1d845bc4aab93ba7d71ca47f4ab51f72813ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:00 +0000
Subject: [PATCH 12/93] fix: FileSystem_POSIX::listDir mistook directories for
 files, and listed . and .., on file systems without d_type

---
 .../filesystem/impl/FileSystem_POSIX.cpp         | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/filesystem/impl/FileSystem_POSIX.cpp b/repos/plywood/src/runtime/ply-runtime/filesystem/impl/FileSystem_POSIX.cpp
index 3a636e0..a9b8c9f 100644
--- a/repos/plywood/src/runtime/ply-runtime/filesystem/impl/FileSystem_POSIX.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/filesystem/impl/FileSystem_POSIX.cpp
@@ -62,15 +62,23 @@ PLY_NO_INLINE FSResult FileSystem_POSIX::DirImpl::nextImpl(ply::Directory::Impl*
         } else {
             dirImpl->entry.name = rde->d_name;
 
+            if (rde->d_name[0] == '.') {
+                if (rde->d_name[1] == 0 || (rde->d_name[1] == '.' && rde->d_name[2] == 0))
+                    continue;
+            }
+
             // d_type is not POSIX, but it exists on OSX and Linux.
             if (rde->d_type == DT_REG) {
                 dirImpl->entry.isDir = false;
             } else if (rde->d_type == DT_DIR) {
-                if (rde->d_name[0] == '.') {
-                    if (rde->d_name[1] == 0 || (rde->d_name[1] == '.' && rde->d_name[2] == 0))
-                        continue;
-                }
                 dirImpl->entry.isDir = true;
+            } else if (rde->d_type == DT_UNKNOWN) {
+                // Not all file systems support d_type
+                String joinedPath = PosixPath::join(dirImpl->dirPath, dirImpl->entry.name);
+                struct stat buf;
+                if (lstat(joinedPath.withNullTerminator().bytes, &buf) == 0) {
+                    dirImpl->entry.isDir = S_ISDIR(buf.st_mode);
+                }
             }
 
             if (dirImpl->flags != 0) {
-- 
2.43.0


From 40489f6b09f404dea16b58d0492e0f4dca2e404f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:00 +0000
Subject: [PATCH 13/93] fix: FileSystem_POSIX::removeDirTree failed on
 directories containing a dangling symbolic link

---
 .../runtime/ply-runtime/filesystem/impl/FileSystem_POSIX.cpp   | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/filesystem/impl/FileSystem_POSIX.cpp b/repos/plywood/src/runtime/ply-runtime/filesystem/impl/FileSystem_POSIX.cpp
index a9b8c9f..c4328b2 100644
--- a/repos/plywood/src/runtime/ply-runtime/filesystem/impl/FileSystem_POSIX.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/filesystem/impl/FileSystem_POSIX.cpp
@@ -279,7 +279,8 @@ PLY_NO_INLINE FSResult FileSystem_POSIX::deleteFile(FileSystem*, StringView path
 }
 
 PLY_NO_INLINE FSResult FileSystem_POSIX::removeDirTree(FileSystem* fs, StringView dirPath) {   
-    for (const DirectoryEntry& dirEntry : fs->listDir(dirPath)) {
+    // No flags: listDir() would skip dangling symbolic links in order to get their size
+    for (const DirectoryEntry& dirEntry : fs->listDir(dirPath, 0)) {
         String joined = PosixPath::join(dirPath, dirEntry.name);
         if (dirEntry.isDir) {
             FSResult fsResult = fs->removeDirTree(joined);
-- 
2.43.0


From b6015f3f0f5114f26bba8e405feccf2310fb2c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:00 +0000
Subject: [PATCH 14/93] fix: FileSystem::loadBinary returned uninitialized
 memory, and OK, when the file couldn't be read completely

---
 .../src/runtime/ply-runtime/filesystem/FileSystem.cpp       | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/filesystem/FileSystem.cpp b/repos/plywood/src/runtime/ply-runtime/filesystem/FileSystem.cpp
index 88a373b..2bd5004 100644
--- a/repos/plywood/src/runtime/ply-runtime/filesystem/FileSystem.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/filesystem/FileSystem.cpp
@@ -140,7 +140,11 @@ PLY_NO_INLINE String FileSystem::loadBinary(StringView path) {
         u64 fileSize = inPipe->getFileSize();
         // Files >= 4GB cannot be loaded this way:
         result.resize(safeDemote<u32>(fileSize));
-        inPipe->read({result.bytes, result.numBytes});
+        if (!inPipe->read({result.bytes, result.numBytes})) {
+            // Never return the uninitialized remainder of the string
+            result.clear();
+            FileSystem::setLastResult(FSResult::Unknown);
+        }
     }
     return result;
 }
-- 
2.43.0


From 87f6d2b2a98079ed0acba8590a724543c8617986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:00 +0000
Subject: [PATCH 15/93] fix: FileSystem::makeDirsAndSaveBinaryIfDifferent
 overwrote files in place and ignored write errors

---
 .../ply-runtime/filesystem/FileSystem.cpp     | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/filesystem/FileSystem.cpp b/repos/plywood/src/runtime/ply-runtime/filesystem/FileSystem.cpp
index 2bd5004..1672330 100644
--- a/repos/plywood/src/runtime/ply-runtime/filesystem/FileSystem.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/filesystem/FileSystem.cpp
@@ -5,6 +5,7 @@
 #include <ply-runtime/Precomp.h>
 #include <ply-runtime/filesystem/FileSystem.h>
 #include <ply-runtime/io/Pipe.h>
+#include <ply-runtime/algorithm/Random.h>
 
 namespace ply {
 
@@ -199,14 +200,24 @@ PLY_NO_INLINE FSResult FileSystem::makeDirsAndSaveBinaryIfDifferent(StringView p
     }
 
     // Save file
-    // FIXME: Use temporary file
-    Owned<OutPipe> outPipe = this->openPipeForWrite(path);
+    String tempPath = String::format("{}.{}.tmp", path, Random{}.next32());
+    Owned<OutPipe> outPipe = this->openPipeForWrite(tempPath);
     result = this->lastResult();
     if (result != FSResult::OK) {
         return result;
     }
-    outPipe->write(view);
-    return result;
+    bool saved = outPipe->write(view) && outPipe->flush();
+    outPipe.clear();
+    if (saved) {
+        result = this->moveFile(tempPath, path);
+        if (result == FSResult::OK) {
+            return result;
+        }
+    } else {
+        result = FSResult::Unknown;
+    }
+    this->deleteFile(tempPath);
+    return FileSystem::setLastResult(result);
 }
 
 PLY_NO_INLINE FSResult FileSystem::makeDirsAndSaveTextIfDifferent(StringView path,
-- 
2.43.0


From 97e7cbb593b6b8f477fd648cde16742fffd4f74e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:52 +0000
Subject: [PATCH 16/93] fix: UTF8::decodePoint reported bytes that can't begin
 a point as truncated

TextConverter trapped or overran srcSmallBuf on such input, and text file autodetection
stopped scanning there.
---
 repos/plywood/src/runtime/ply-runtime/string/TextEncoding.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/repos/plywood/src/runtime/ply-runtime/string/TextEncoding.cpp b/repos/plywood/src/runtime/ply-runtime/string/TextEncoding.cpp
index 097ec1f..27d2ca8 100644
--- a/repos/plywood/src/runtime/ply-runtime/string/TextEncoding.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/string/TextEncoding.cpp
@@ -62,6 +62,8 @@ PLY_NO_INLINE DecodeResult UTF8::decodePointSlowPath(StringView view) {
         }
 
         default:
+            // This byte can't begin an encoded point, no matter what follows
+            result.status = DecodeResult::Status::Invalid;
             break;
     }
 
-- 
2.43.0


From c4c2fbfcb94fd65b7d965648e6ad63a9ca248c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:52 +0000
Subject: [PATCH 17/93] fix: TextConverter::writeTo dropped input when a point
 was split across three or more writes

---
 .../src/runtime/ply-runtime/io/text/TextConverter.cpp     | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/io/text/TextConverter.cpp b/repos/plywood/src/runtime/ply-runtime/io/text/TextConverter.cpp
index 2c0fdf2..cbdbb5c 100644
--- a/repos/plywood/src/runtime/ply-runtime/io/text/TextConverter.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/io/text/TextConverter.cpp
@@ -62,9 +62,13 @@ PLY_NO_INLINE bool TextConverter::convert(MutableStringView* dstBuf, StringView*
             PLY_ASSERT(this->srcSmallBuf.numBytes < 4); // Sanity check
             PLY_ASSERT((decoded.point >= 0) == (decoded.numBytes > 0));
             // If flush is true and there's an (invalid) point to consume, we'll consume it below.
-            // Otherwise, don't consume anything and return from here:
-            if (!(flush && decoded.point >= 0))
+            // Otherwise, keep the additional input in srcSmallBuf and return from here:
+            if (!(flush && decoded.point >= 0)) {
+                PLY_ASSERT(numCopiedFromSrc == srcBuf->numBytes);
+                this->srcSmallBuf.numBytes += numCopiedFromSrc;
+                srcBuf->offsetHead(numCopiedFromSrc);
                 return wroteAnything;
+            }
         }
         PLY_ASSERT((decoded.point >= 0) && (decoded.numBytes > 0));
 
-- 
2.43.0


From 2257730cc8a88378f3a8702ba93660d16ea7e929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:52 +0000
Subject: [PATCH 18/93] fix: TextConverter::readFrom trapped at the end of
 UTF-16 input having an odd number of bytes

---
 .../plywood/src/runtime/ply-runtime/io/text/TextConverter.cpp  | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/io/text/TextConverter.cpp b/repos/plywood/src/runtime/ply-runtime/io/text/TextConverter.cpp
index cbdbb5c..de5653d 100644
--- a/repos/plywood/src/runtime/ply-runtime/io/text/TextConverter.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/io/text/TextConverter.cpp
@@ -183,7 +183,8 @@ PLY_NO_INLINE u32 TextConverter::readFrom(InStream* ins, MutableStringView* dstB
             break;
         // If input was exhausted, stop.
         if (flush) {
-            PLY_ASSERT(ins->numBytesAvailable() == 0);
+            // Skip the incomplete unit at the end of the input (if any).
+            ins->curByte = ins->endByte;
             break;
         }
     }
-- 
2.43.0


From 1d7d89517734dbfcd1a070298eaa660d3efc45b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:52 +0000
Subject: [PATCH 19/93] fix: TextFormat::createExporter didn't convert to the
 Bytes encoding

---
 repos/plywood/src/runtime/ply-runtime/io/text/TextFormat.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/io/text/TextFormat.cpp b/repos/plywood/src/runtime/ply-runtime/io/text/TextFormat.cpp
index c48091d..bf05f9f 100644
--- a/repos/plywood/src/runtime/ply-runtime/io/text/TextFormat.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/io/text/TextFormat.cpp
@@ -268,7 +268,9 @@ PLY_NO_INLINE Owned<OutStream> TextFormat::createExporter(OptionallyOwned<OutStr
     OptionallyOwned<OutStream> exporter = std::move(outs);
 
     switch (this->encoding) {
-        case TextFormat::Encoding::Bytes: { // FIXME: Bytes needs to be converted
+        case TextFormat::Encoding::Bytes: {
+            exporter = Owned<OutStream>::create(Owned<OutPipe_TextConverter>::create(
+                std::move(exporter), TextEncoding::get<Enc_Bytes>(), TextEncoding::get<UTF8>()));
             break;
         }
 
-- 
2.43.0


From 85ab5d89583b2b93e1774631fa148888d4cf571e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:52 +0000
Subject: [PATCH 20/93] fix: OutPipe filters reported success when flushing
 failed to write to the destination

---
 repos/plywood/src/runtime/ply-runtime/io/text/NewLineFilter.cpp | 2 +-
 repos/plywood/src/runtime/ply-runtime/io/text/TextConverter.cpp | 2 +-
 repos/plywood/src/web/common/web-common/OutPipe_HTTPChunked.cpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/io/text/NewLineFilter.cpp b/repos/plywood/src/runtime/ply-runtime/io/text/NewLineFilter.cpp
index cc80919..8cad444 100644
--- a/repos/plywood/src/runtime/ply-runtime/io/text/NewLineFilter.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/io/text/NewLineFilter.cpp
@@ -138,7 +138,7 @@ PLY_NO_INLINE bool OutPipe_NewLineFilter_write(OutPipe* outPipe_, StringView buf
 
 PLY_NO_INLINE bool OutPipe_NewLineFilter_flush(OutPipe* outPipe_, bool toDevice) {
     OutPipe_NewLineFilter* outPipe = static_cast<OutPipe_NewLineFilter*>(outPipe_);
-    return outPipe->outs->flush(toDevice);
+    return outPipe->outs->flush(toDevice) && !outPipe->outs->atEOF();
 };
 
 OutPipe::Funcs OutPipe_NewLineFilter::Funcs_ = {
diff --git a/repos/plywood/src/runtime/ply-runtime/io/text/TextConverter.cpp b/repos/plywood/src/runtime/ply-runtime/io/text/TextConverter.cpp
index de5653d..698d9f3 100644
--- a/repos/plywood/src/runtime/ply-runtime/io/text/TextConverter.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/io/text/TextConverter.cpp
@@ -244,7 +244,7 @@ PLY_NO_INLINE bool OutPipe_TextConverter_flush(OutPipe* outPipe_, bool toDevice)
     OutPipe_TextConverter* outPipe = static_cast<OutPipe_TextConverter*>(outPipe_);
     StringView emptySrcBuf;
     outPipe->converter.writeTo(outPipe->outs, &emptySrcBuf, true);
-    return outPipe->outs->flush(toDevice);
+    return outPipe->outs->flush(toDevice) && !outPipe->outs->atEOF();
 }
 
 OutPipe::Funcs OutPipe_TextConverter::Funcs_ = {
diff --git a/repos/plywood/src/web/common/web-common/OutPipe_HTTPChunked.cpp b/repos/plywood/src/web/common/web-common/OutPipe_HTTPChunked.cpp
index b65a7d8..974c73c 100644
--- a/repos/plywood/src/web/common/web-common/OutPipe_HTTPChunked.cpp
+++ b/repos/plywood/src/web/common/web-common/OutPipe_HTTPChunked.cpp
@@ -30,7 +30,7 @@ PLY_NO_INLINE bool OutPipe_HTTPChunked_write(OutPipe* outPipe_, StringView srcBu
 
 PLY_NO_INLINE bool OutPipe_HTTPChunked_flush(OutPipe* outPipe_, bool toDevice) {
     OutPipe_HTTPChunked* outPipe = static_cast<OutPipe_HTTPChunked*>(outPipe_);
-    return outPipe->outs->flush(toDevice);
+    return outPipe->outs->flush(toDevice) && !outPipe->outs->atEOF();
 }
 
 OutPipe::Funcs OutPipe_HTTPChunked::Funcs_ = {
-- 
2.43.0


From f4a6ea053ac317c4e4f236a10e480efdfb72cf60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:16 +0000
Subject: [PATCH 21/93] fix: FileSystem_POSIX::listDir leaked the directory
 path

---
 .../runtime/ply-runtime/filesystem/impl/FileSystem_POSIX.cpp    | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/repos/plywood/src/runtime/ply-runtime/filesystem/impl/FileSystem_POSIX.cpp b/repos/plywood/src/runtime/ply-runtime/filesystem/impl/FileSystem_POSIX.cpp
index c4328b2..38605fc 100644
--- a/repos/plywood/src/runtime/ply-runtime/filesystem/impl/FileSystem_POSIX.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/filesystem/impl/FileSystem_POSIX.cpp
@@ -25,6 +25,8 @@ PLY_NO_INLINE void FileSystem_POSIX::DirImpl::destructImpl(ply::Directory::Impl*
         PLY_ASSERT(rc == 0);
         PLY_UNUSED(rc);
     }
+    // The base class isn't aware of our members
+    dirImpl->dirPath.~String();
 }
 
 PLY_NO_INLINE FSResult FileSystem_POSIX::DirImpl::begin(StringView path) {
-- 
2.43.0


From 2bb67b097d501dcce3272458f4e882aadbe814e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:40 +0000
Subject: [PATCH 22/93] fix: joining and normalizing paths dropped leading ..
 components, and the root itself

---
 .../src/runtime/ply-runtime/filesystem/Path.cpp     | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/filesystem/Path.cpp b/repos/plywood/src/runtime/ply-runtime/filesystem/Path.cpp
index 1a11c52..268df94 100644
--- a/repos/plywood/src/runtime/ply-runtime/filesystem/Path.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/filesystem/Path.cpp
@@ -153,16 +153,25 @@ struct PathCompIterator {
     PLY_NO_INLINE Array<StringView> getNormalizedComps(const PathFormat* pathFmt,
                                                        ArrayView<const StringView> components) {
         Array<StringView> normComps;
-        u32 upCount = 0;
+        u32 upCount = 0; // Number of leading components that ".." can't collapse
+        bool isRooted = false;
         this->iterateOver(pathFmt, components, [&](StringView comp) { //
             if (comp == "..") {
                 if (normComps.numItems() > upCount) {
                     normComps.pop();
                 } else {
                     PLY_ASSERT(normComps.numItems() == upCount);
-                    normComps.append("..");
+                    if (!isRooted) { // The parent of the root is the root itself
+                        normComps.append("..");
+                        upCount++;
+                    }
                 }
             } else if (comp != "." && !comp.isEmpty()) {
+                if (normComps.isEmpty() &&
+                    (pathFmt->isAbsolute(comp) || pathFmt->hasDriveLetter(comp))) {
+                    isRooted = pathFmt->isAbsolute(comp);
+                    upCount++;
+                }
                 normComps.append(comp);
             }
         });
-- 
2.43.0


From e79d87e63033d9cfc34f77bb3a394013cf5de3f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:40 +0000
Subject: [PATCH 23/93] fix: virtual file systems gave access to files outside
 of their root directory

---
 .../filesystem/impl/FileSystem_Virtual.cpp    | 81 ++++++++++++++++---
 1 file changed, 69 insertions(+), 12 deletions(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/filesystem/impl/FileSystem_Virtual.cpp b/repos/plywood/src/runtime/ply-runtime/filesystem/impl/FileSystem_Virtual.cpp
index e1f67f9..767fa73 100644
--- a/repos/plywood/src/runtime/ply-runtime/filesystem/impl/FileSystem_Virtual.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/filesystem/impl/FileSystem_Virtual.cpp
@@ -14,21 +14,50 @@ struct FileSystem_Virtual : FileSystem {
 
     FileSystem_Virtual();
 
+    // Returned by listDir when the path is rejected
+    struct EmptyDirImpl : Directory::Impl {
+        PLY_INLINE EmptyDirImpl() {
+            this->destruct = [](Directory::Impl*) {};
+            this->next = [](Directory::Impl*) {
+                return FileSystem::setLastResult(FSResult::AccessDenied);
+            };
+        }
+    };
+
+    // Returns an empty string if the path is absolute or leads out of the root directory.
     PLY_NO_INLINE String convertToTargetPath(StringView path) const {
-        // FIXME: should also detect and prohibit ".."
         PathFormat pathFmt = this->targetFS->pathFormat();
-        PLY_ASSERT(!pathFmt.isAbsolute(path));
+        if (PosixPath::isAbsolute(path) || pathFmt.isAbsolute(path) || pathFmt.hasDriveLetter(path))
+            return {};
+        u32 depth = 0;
+        for (StringView comp : pathFmt.splitFull(path)) {
+            if (comp == "..") {
+                if (depth == 0)
+                    return {};
+                depth--;
+            } else if (!comp.isEmpty() && comp != ".") {
+                depth++;
+            }
+        }
         return pathFmt.join(this->targetRoot, PosixPath::from(pathFmt, path));
     }
 
     static PLY_NO_INLINE Directory listDir(FileSystem* fs_, StringView path, u32 flags) {
         FileSystem_Virtual* fs = static_cast<FileSystem_Virtual*>(fs_);
-        return fs->targetFS->listDir(fs->convertToTargetPath(path), flags);
+        String targetPath = fs->convertToTargetPath(path);
+        if (!targetPath) {
+            FileSystem::setLastResult(FSResult::AccessDenied);
+            return new EmptyDirImpl;
+        }
+        return fs->targetFS->listDir(targetPath, flags);
     }
 
     static PLY_NO_INLINE FSResult makeDir(FileSystem* fs_, StringView path) {
         FileSystem_Virtual* fs = static_cast<FileSystem_Virtual*>(fs_);
-        return fs->targetFS->makeDir(fs->convertToTargetPath(path));
+        String targetPath = fs->convertToTargetPath(path);
+        if (!targetPath)
+            return FileSystem::setLastResult(FSResult::AccessDenied);
+        return fs->targetFS->makeDir(targetPath);
     }
 
     static PLY_NO_INLINE FSResult setWorkingDirectory(FileSystem*, StringView) {
@@ -43,39 +72,67 @@ struct FileSystem_Virtual : FileSystem {
 
     static PLY_NO_INLINE ExistsResult exists(FileSystem* fs_, StringView path) {
         FileSystem_Virtual* fs = static_cast<FileSystem_Virtual*>(fs_);
-        return fs->targetFS->exists(fs->convertToTargetPath(path));
+        String targetPath = fs->convertToTargetPath(path);
+        if (!targetPath)
+            return ExistsResult::NotFound;
+        return fs->targetFS->exists(targetPath);
     }
 
     static PLY_NO_INLINE Owned<InPipe> openPipeForRead(FileSystem* fs_, StringView path) {
         FileSystem_Virtual* fs = static_cast<FileSystem_Virtual*>(fs_);
-        return fs->targetFS->openPipeForRead(fs->convertToTargetPath(path));
+        String targetPath = fs->convertToTargetPath(path);
+        if (!targetPath) {
+            FileSystem::setLastResult(FSResult::AccessDenied);
+            return nullptr;
+        }
+        return fs->targetFS->openPipeForRead(targetPath);
     }
 
     static PLY_NO_INLINE Owned<OutPipe> openPipeForWrite(FileSystem* fs_, StringView path) {
         FileSystem_Virtual* fs = static_cast<FileSystem_Virtual*>(fs_);
-        return fs->targetFS->openPipeForWrite(fs->convertToTargetPath(path));
+        String targetPath = fs->convertToTargetPath(path);
+        if (!targetPath) {
+            FileSystem::setLastResult(FSResult::AccessDenied);
+            return nullptr;
+        }
+        return fs->targetFS->openPipeForWrite(targetPath);
     }
 
     static PLY_NO_INLINE FSResult moveFile(FileSystem* fs_, StringView srcPath,
                                            StringView dstPath) {
         FileSystem_Virtual* fs = static_cast<FileSystem_Virtual*>(fs_);
-        return fs->targetFS->moveFile(fs->convertToTargetPath(srcPath),
-                                      fs->convertToTargetPath(dstPath));
+        String targetSrcPath = fs->convertToTargetPath(srcPath);
+        String targetDstPath = fs->convertToTargetPath(dstPath);
+        if (!targetSrcPath || !targetDstPath)
+            return FileSystem::setLastResult(FSResult::AccessDenied);
+        return fs->targetFS->moveFile(targetSrcPath, targetDstPath);
     }
 
     static PLY_NO_INLINE FSResult deleteFile(FileSystem* fs_, StringView path) {
         FileSystem_Virtual* fs = static_cast<FileSystem_Virtual*>(fs_);
-        return fs->targetFS->deleteFile(fs->convertToTargetPath(path));
+        String targetPath = fs->convertToTargetPath(path);
+        if (!targetPath)
+            return FileSystem::setLastResult(FSResult::AccessDenied);
+        return fs->targetFS->deleteFile(targetPath);
     }
 
     static PLY_NO_INLINE FSResult removeDirTree(FileSystem* fs_, StringView dirPath) {   
         FileSystem_Virtual* fs = static_cast<FileSystem_Virtual*>(fs_);
-        return fs->targetFS->removeDirTree(fs->convertToTargetPath(dirPath));
+        String targetPath = fs->convertToTargetPath(dirPath);
+        if (!targetPath)
+            return FileSystem::setLastResult(FSResult::AccessDenied);
+        return fs->targetFS->removeDirTree(targetPath);
     }
 
     static PLY_NO_INLINE FileStatus getFileStatus(FileSystem* fs_, StringView path) {
         FileSystem_Virtual* fs = static_cast<FileSystem_Virtual*>(fs_);
-        return fs->targetFS->getFileStatus(fs->convertToTargetPath(path));
+        String targetPath = fs->convertToTargetPath(path);
+        if (!targetPath) {
+            FileStatus status;
+            status.result = FileSystem::setLastResult(FSResult::AccessDenied);
+            return status;
+        }
+        return fs->targetFS->getFileStatus(targetPath);
     }
 };
 
-- 
2.43.0


From 97944c28a159d483af4e18aca229eb2aeff149b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:36 +0000
Subject: [PATCH 24/93] fix: Subprocess::exec ran the program in the wrong
 directory when the initial directory was not accessible

---
 .../src/runtime/ply-runtime/process/impl/Subprocess_POSIX.cpp   | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/repos/plywood/src/runtime/ply-runtime/process/impl/Subprocess_POSIX.cpp b/repos/plywood/src/runtime/ply-runtime/process/impl/Subprocess_POSIX.cpp
index d976939..05b949b 100644
--- a/repos/plywood/src/runtime/ply-runtime/process/impl/Subprocess_POSIX.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/process/impl/Subprocess_POSIX.cpp
@@ -227,6 +227,8 @@ PLY_NO_INLINE Owned<Subprocess> Subprocess::exec(StringView exePath,
         // Exec the new process:
         if (nullTerminatedInitialDir) {
             rc = chdir(nullTerminatedInitialDir.bytes);
+            if (rc != 0)
+                abort(); // don't run the program in the wrong directory
         }
         rc = execvp(nullTerminatedExePath.bytes, argsToExecv.get());
         PLY_UNUSED(rc);
-- 
2.43.0


From 4803997711264babcd1cc009320859acb45c8459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:04 +0000
Subject: [PATCH 25/93] fix: Subprocess::exec crashed and leaked descriptors
 when descriptors or processes were exhausted

---
 .../process/impl/Subprocess_POSIX.cpp         | 73 ++++++++-----------
 1 file changed, 31 insertions(+), 42 deletions(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/process/impl/Subprocess_POSIX.cpp b/repos/plywood/src/runtime/ply-runtime/process/impl/Subprocess_POSIX.cpp
index 05b949b..ed95ebb 100644
--- a/repos/plywood/src/runtime/ply-runtime/process/impl/Subprocess_POSIX.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/process/impl/Subprocess_POSIX.cpp
@@ -55,40 +55,14 @@ struct Subprocess_POSIX : Subprocess {
 };
 
 //--------------------------------
-// Get unique inheritable handle for null output
+// Get unique inheritable handle for null output. Returns -1 on failure.
 //--------------------------------
 PLY_NO_INLINE int getNullInFD_POSIX() {
-    static int fd = -1;
-    if (fd == -1) {
-        static Mutex mutex;
-        LockGuard<Mutex> guard{mutex};
-        if (fd == -1) {
-            // FIXME: If open() fails, create a pipe here and spawn a thread that
-            // infinitely consumes the pipe's output.
-            fd = open("/dev/null", O_RDONLY);
-            PLY_ASSERT(fd != -1);
-        }
-    }
-    int fd2 = dup(fd);
-    PLY_ASSERT(fd2 != -1);
-    return fd2;
+    return open("/dev/null", O_RDONLY);
 }
 
 PLY_NO_INLINE int getNullOutFD_POSIX() {
-    static int fd = -1;
-    if (fd == -1) {
-        static Mutex mutex;
-        LockGuard<Mutex> guard{mutex};
-        if (fd == -1) {
-            // FIXME: If open() fails, create a pipe here and spawn a thread that
-            // infinitely consumes the pipe's output.
-            fd = open("/dev/null", O_WRONLY);
-            PLY_ASSERT(fd != -1);
-        }
-    }
-    int fd2 = dup(fd);
-    PLY_ASSERT(fd2 != -1);
-    return fd2;
+    return open("/dev/null", O_WRONLY);
 }
 
 PLY_NO_INLINE Owned<Subprocess> Subprocess::exec(StringView exePath,
@@ -99,6 +73,20 @@ PLY_NO_INLINE Owned<Subprocess> Subprocess::exec(StringView exePath,
     int childStdOutFD[2] = {-1, -1}; // 0 is read, 1 is write
     int childStdErrFD[2] = {-1, -1}; // 0 is read, 1 is write
 
+    // Closes all of the above and reports that the subprocess could not be created:
+    auto fail = [&]() -> Owned<Subprocess> {
+        if (childStdErrFD[1] == childStdOutFD[1]) {
+            childStdErrFD[1] = -1;
+        }
+        for (int fd : {childStdInFD[0], childStdInFD[1], childStdOutFD[0], childStdOutFD[1],
+                       childStdErrFD[0], childStdErrFD[1]}) {
+            if (fd != -1) {
+                close(fd);
+            }
+        }
+        return nullptr;
+    };
+
     //-----------------------------------------------------------
     // Configure child process's stdin
     //-----------------------------------------------------------
@@ -106,19 +94,19 @@ PLY_NO_INLINE Owned<Subprocess> Subprocess::exec(StringView exePath,
         if (input.stdInPipe) {
             // output.stdOutPipe MUST be valid OutPipe_FD. Will assert here otherwise:
             childStdInFD[0] = dup(input.stdInPipe->cast<InPipe_FD>()->fd);
-            PLY_ASSERT(childStdInFD[0] != -1);
         } else {
             // ignore the input
             childStdInFD[0] = getNullInFD_POSIX();
-            PLY_ASSERT(childStdInFD[0] != -1);
         }
+        if (childStdInFD[0] == -1)
+            return fail();
     } else {
         PLY_ASSERT(input.stdIn == Pipe::Open);
 
         // Create a pipe for the child process's stdin:
         int rc = pipe(childStdInFD);
-        PLY_ASSERT(rc == 0);
-        PLY_UNUSED(rc);
+        if (rc != 0)
+            return fail();
         // Ensure the write handle to the pipe for STDIN is not inherited:
         rc = fcntl(childStdInFD[1], F_SETFD, FD_CLOEXEC);
         PLY_ASSERT(rc == 0);
@@ -131,19 +119,19 @@ PLY_NO_INLINE Owned<Subprocess> Subprocess::exec(StringView exePath,
         if (output.stdOutPipe) {
             // output.stdOutPipe MUST be valid OutPipe_FD. Will assert here otherwise:
             childStdOutFD[1] = dup(output.stdOutPipe->cast<OutPipe_FD>()->fd);
-            PLY_ASSERT(childStdOutFD[1] != -1);
         } else {
             // ignore the output
             childStdOutFD[1] = getNullOutFD_POSIX();
-            PLY_ASSERT(childStdOutFD[1] != -1);
         }
+        if (childStdOutFD[1] == -1)
+            return fail();
     } else {
         PLY_ASSERT(output.stdOut == Pipe::Open); // Only output.stdErr can be set to Pipe::StdOut
 
         // Create a pipe for the child process's stdout:
         int rc = pipe(childStdOutFD);
-        PLY_ASSERT(rc == 0);
-        PLY_UNUSED(rc);
+        if (rc != 0)
+            return fail();
         // Ensure the read handle to the pipe for STDOUT is not inherited:
         rc = fcntl(childStdOutFD[0], F_SETFD, FD_CLOEXEC);
         PLY_ASSERT(rc == 0);
@@ -156,12 +144,12 @@ PLY_NO_INLINE Owned<Subprocess> Subprocess::exec(StringView exePath,
         if (output.stdErrPipe) {
             // output.stdErrPipe MUST be valid OutPipe_FD. Will assert here otherwise:
             childStdErrFD[1] = dup(output.stdErrPipe->cast<OutPipe_FD>()->fd);
-            PLY_ASSERT(childStdErrFD[1] != -1);
         } else {
             // ignore the output
             childStdErrFD[1] = getNullOutFD_POSIX();
-            PLY_ASSERT(childStdErrFD[1] != -1);
         }
+        if (childStdErrFD[1] == -1)
+            return fail();
     } else if (output.stdErr == Pipe::StdOut) {
         PLY_ASSERT(childStdOutFD[1] != -1);
         childStdErrFD[1] = childStdOutFD[1];
@@ -170,8 +158,8 @@ PLY_NO_INLINE Owned<Subprocess> Subprocess::exec(StringView exePath,
 
         // Create a pipe for the child process's stderr:
         int rc = pipe(childStdErrFD);
-        PLY_ASSERT(rc == 0);
-        PLY_UNUSED(rc);
+        if (rc != 0)
+            return fail();
         // Ensure the read handle to the pipe for STDERR is not inherited:
         rc = fcntl(childStdErrFD[0], F_SETFD, FD_CLOEXEC);
         PLY_ASSERT(rc == 0);
@@ -201,7 +189,8 @@ PLY_NO_INLINE Owned<Subprocess> Subprocess::exec(StringView exePath,
     // Fork the process
     //-----------------------------------------------------------
     int childPID = fork();
-    PLY_ASSERT(childPID >= 0);
+    if (childPID < 0)
+        return fail();
     if (childPID == 0) {
         // We're in the child process.
         // Redirect stdin and close temporary file descriptors:
-- 
2.43.0


From c055545655b507614f8ae8d697ade65d78244509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:04 +0000
Subject: [PATCH 26/93] fix: Subprocesses started at the same time inherited
 each other's pipes

---
 .../runtime/ply-runtime/process/impl/Subprocess_POSIX.cpp   | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/repos/plywood/src/runtime/ply-runtime/process/impl/Subprocess_POSIX.cpp b/repos/plywood/src/runtime/ply-runtime/process/impl/Subprocess_POSIX.cpp
index ed95ebb..e364c90 100644
--- a/repos/plywood/src/runtime/ply-runtime/process/impl/Subprocess_POSIX.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/process/impl/Subprocess_POSIX.cpp
@@ -73,6 +73,12 @@ PLY_NO_INLINE Owned<Subprocess> Subprocess::exec(StringView exePath,
     int childStdOutFD[2] = {-1, -1}; // 0 is read, 1 is write
     int childStdErrFD[2] = {-1, -1}; // 0 is read, 1 is write
 
+    // Until this function returns, this process holds descriptors that only the new child process
+    // may inherit. Don't let a subprocess created by another thread inherit them, too; it would
+    // keep the pipes open.
+    static Mutex mutex;
+    LockGuard<Mutex> guard{mutex};
+
     // Closes all of the above and reports that the subprocess could not be created:
     auto fail = [&]() -> Owned<Subprocess> {
         if (childStdErrFD[1] == childStdOutFD[1]) {
-- 
2.43.0


From a7a19e9b3e663a1cb3c94b274f66f2e563bfdcba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:48 +0000
Subject: [PATCH 27/93] fix: Thread pretended to be running when the system
 could not create it

---
 .../src/runtime/ply-runtime/thread/impl/Thread_POSIX.h    | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/thread/impl/Thread_POSIX.h b/repos/plywood/src/runtime/ply-runtime/thread/impl/Thread_POSIX.h
index 94f1ca5..171d6da 100644
--- a/repos/plywood/src/runtime/ply-runtime/thread/impl/Thread_POSIX.h
+++ b/repos/plywood/src/runtime/ply-runtime/thread/impl/Thread_POSIX.h
@@ -39,8 +39,12 @@ public:
     PLY_INLINE void run(Callable&& callable) {
         PLY_ASSERT(!m_attached);
         Wrapper<Callable>* wrapper = new Wrapper<Callable>{std::forward<Callable>(callable)};
-        pthread_create(&m_handle, NULL, Wrapper<Callable>::start, wrapper);
-        m_attached = true;
+        int rc = pthread_create(&m_handle, NULL, Wrapper<Callable>::start, wrapper);
+        if (rc == 0) {
+            m_attached = true;
+        } else {
+            delete wrapper; // isValid() will return false
+        }
     }
 
     template <typename Callable>
-- 
2.43.0


From dd5821913dab6a201935898507b6d5902b467974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:48 +0000
Subject: [PATCH 28/93] fix: Threads kept a dangling reference to a callable
 that was passed as an lvalue

---
 .../src/runtime/ply-runtime/thread/impl/Thread_POSIX.h      | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/thread/impl/Thread_POSIX.h b/repos/plywood/src/runtime/ply-runtime/thread/impl/Thread_POSIX.h
index 171d6da..e09f382 100644
--- a/repos/plywood/src/runtime/ply-runtime/thread/impl/Thread_POSIX.h
+++ b/repos/plywood/src/runtime/ply-runtime/thread/impl/Thread_POSIX.h
@@ -38,8 +38,10 @@ public:
     template <typename Callable>
     PLY_INLINE void run(Callable&& callable) {
         PLY_ASSERT(!m_attached);
-        Wrapper<Callable>* wrapper = new Wrapper<Callable>{std::forward<Callable>(callable)};
-        int rc = pthread_create(&m_handle, NULL, Wrapper<Callable>::start, wrapper);
+        // The thread needs its own copy of the callable, even if it was passed by reference.
+        using Wrapper = Wrapper<std::decay_t<Callable>>;
+        Wrapper* wrapper = new Wrapper{std::forward<Callable>(callable)};
+        int rc = pthread_create(&m_handle, NULL, Wrapper::start, wrapper);
         if (rc == 0) {
             m_attached = true;
         } else {
-- 
2.43.0


From 0990267f9cdb48edc2bd019933f6dceec344ec01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:48 +0000
Subject: [PATCH 29/93] fix: Thread::sleepMillis started over when interrupted
 by a signal

---
 .../src/runtime/ply-runtime/thread/impl/Thread_POSIX.cpp        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/thread/impl/Thread_POSIX.cpp b/repos/plywood/src/runtime/ply-runtime/thread/impl/Thread_POSIX.cpp
index bde448b..8c62b3b 100644
--- a/repos/plywood/src/runtime/ply-runtime/thread/impl/Thread_POSIX.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/thread/impl/Thread_POSIX.cpp
@@ -18,7 +18,7 @@ PLY_NO_INLINE void Thread_POSIX::sleepMillis(ureg millis) {
     ts.tv_nsec = (millis % 1000) * 1000000;
     int rc;
     do {
-        rc = nanosleep(&ts, NULL);
+        rc = nanosleep(&ts, &ts); // continue with the remaining time
         PLY_ASSERT(rc == 0 || (rc == -1 && errno == EINTR));
     } while (rc == -1 && errno == EINTR);
 }
-- 
2.43.0


From 946944eee81d04d8dc900984dad432035f91af04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:06 +0000
Subject: [PATCH 30/93] fix: ThreadLocal::setInScope and ThreadLocals holding
 pointers did not compile

---
 repos/plywood/src/runtime/ply-runtime/thread/ThreadLocal.h    | 4 ++--
 .../src/runtime/ply-runtime/thread/impl/ThreadLocal_POSIX.h   | 4 +---
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/thread/ThreadLocal.h b/repos/plywood/src/runtime/ply-runtime/thread/ThreadLocal.h
index c703d74..8de0451 100644
--- a/repos/plywood/src/runtime/ply-runtime/thread/ThreadLocal.h
+++ b/repos/plywood/src/runtime/ply-runtime/thread/ThreadLocal.h
@@ -22,9 +22,9 @@ public:
 
     ThreadLocalScope(const ThreadLocalScope&) = delete;
     PLY_INLINE ThreadLocalScope(ThreadLocalScope&& other) {
-        this->var = other->var;
+        this->var = other.var;
         this->oldValue = std::move(other.oldValue);
-        other->var = nullptr;
+        other.var = nullptr;
     }
 
     ~ThreadLocalScope() {
diff --git a/repos/plywood/src/runtime/ply-runtime/thread/impl/ThreadLocal_POSIX.h b/repos/plywood/src/runtime/ply-runtime/thread/impl/ThreadLocal_POSIX.h
index 9b6ebc7..50329e8 100644
--- a/repos/plywood/src/runtime/ply-runtime/thread/impl/ThreadLocal_POSIX.h
+++ b/repos/plywood/src/runtime/ply-runtime/thread/impl/ThreadLocal_POSIX.h
@@ -42,9 +42,7 @@ public:
         return (T)(uptr) value;
     }
 
-    template <typename U = T,
-              std::enable_if_t<std::is_enum<U>::value || std::is_integral<U>::value, int> = 0>
-    PLY_INLINE void store(U value) {
+    PLY_INLINE void store(T value) {
         int rc = pthread_setspecific(m_tlsKey, (void*) (uptr) value);
         PLY_ASSERT(rc == 0);
         PLY_UNUSED(rc);
-- 
2.43.0


From 539ebb26f9c21f49d3591ef32387b4d79f146cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:38 +0000
Subject: [PATCH 31/93] fix: TCPListener::accept gave up when interrupted by a
 signal, and lost descriptor 0

---
 .../src/runtime/ply-runtime/network/impl/Socket_POSIX.cpp  | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/network/impl/Socket_POSIX.cpp b/repos/plywood/src/runtime/ply-runtime/network/impl/Socket_POSIX.cpp
index 86e5f74..1e61938 100644
--- a/repos/plywood/src/runtime/ply-runtime/network/impl/Socket_POSIX.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/network/impl/Socket_POSIX.cpp
@@ -76,9 +76,12 @@ PLY_NO_INLINE Owned<TCPConnection_POSIX> TCPListener_POSIX::accept() {
         remoteAddrLen = sizeof(sockaddr_in6);
     }
     socklen_t passedAddrLen = remoteAddrLen;
-    int hostSocket = ::accept(this->listenSocket, (struct sockaddr*) &remoteAddr, &remoteAddrLen);
+    int hostSocket;
+    do {
+        hostSocket = ::accept(this->listenSocket, (struct sockaddr*) &remoteAddr, &remoteAddrLen);
+    } while (hostSocket < 0 && errno == EINTR);
 
-    if (hostSocket <= 0) {
+    if (hostSocket < 0) {
         // FIXME: Check errno
         PLY_ASSERT(PLY_IPPOSIX_ALLOW_UNKNOWN_ERRORS);
         Socket_POSIX::lastResult_.store(IPResult::Unknown);
-- 
2.43.0


From c5a266cab8b093eee89b1b5870f967a1727fc452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:38 +0000
Subject: [PATCH 32/93] fix: resolveHostName crashed or returned garbage when
 the name could not be resolved

---
 .../src/runtime/ply-runtime/network/impl/Socket_POSIX.cpp   | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/network/impl/Socket_POSIX.cpp b/repos/plywood/src/runtime/ply-runtime/network/impl/Socket_POSIX.cpp
index 1e61938..12c74d0 100644
--- a/repos/plywood/src/runtime/ply-runtime/network/impl/Socket_POSIX.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/network/impl/Socket_POSIX.cpp
@@ -294,8 +294,9 @@ PLY_NO_INLINE IPAddress Socket_POSIX::resolveHostName(StringView hostName,
 #endif
     struct addrinfo* res = nullptr;
     int rc = getaddrinfo(hostName.withNullTerminator().bytes, nullptr, &hints, &res);
-    PLY_ASSERT(rc == 0);
-    PLY_UNUSED(rc);
+    IPAddress ipAddr = {{0, 0, 0, 0}};
+    if (rc != 0)
+        return ipAddr; // Host name can't be resolved; isNull() will return true
     struct addrinfo* best = nullptr;
     for (struct addrinfo* cur = res; cur; cur = cur->ai_next) {
 #if PLY_WITH_IPV6
@@ -312,7 +313,6 @@ PLY_NO_INLINE IPAddress Socket_POSIX::resolveHostName(StringView hostName,
         }
     }
 
-    IPAddress ipAddr;
     if (best) {
 #if PLY_WITH_IPV6
         if (best->ai_family == AF_INET6) {
-- 
2.43.0


From 7946eeb60b82361927352d95f10fcb609544bd4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:16 +0000
Subject: [PATCH 33/93] fix: subprocesses inherited sockets, which kept
 connections open

---
 .../ply-runtime/network/impl/Socket_POSIX.cpp | 30 +++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/network/impl/Socket_POSIX.cpp b/repos/plywood/src/runtime/ply-runtime/network/impl/Socket_POSIX.cpp
index 12c74d0..fefe4ee 100644
--- a/repos/plywood/src/runtime/ply-runtime/network/impl/Socket_POSIX.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/network/impl/Socket_POSIX.cpp
@@ -11,6 +11,7 @@
 #include <ply-runtime/io/OutStream.h>
 #include <netinet/in.h>
 #include <unistd.h>
+#include <fcntl.h>
 #include <errno.h>
 #include <string.h>
 #include <signal.h>
@@ -59,6 +60,31 @@ PLY_NO_INLINE void Socket_POSIX::shutdown() {
     IsInit = false;
 }
 
+// Sockets are not inherited by subprocesses, which would keep connections open.
+static int openSocket(int family, int type) {
+#if defined(SOCK_CLOEXEC)
+    return socket(family, type | SOCK_CLOEXEC, 0);
+#else
+    int s = socket(family, type, 0);
+    if (s >= 0) {
+        fcntl(s, F_SETFD, FD_CLOEXEC);
+    }
+    return s;
+#endif
+}
+
+static int acceptSocket(int listenSocket, void* remoteAddr, socklen_t* remoteAddrLen) {
+#if defined(SOCK_CLOEXEC)
+    return ::accept4(listenSocket, (struct sockaddr*) remoteAddr, remoteAddrLen, SOCK_CLOEXEC);
+#else
+    int s = ::accept(listenSocket, (struct sockaddr*) remoteAddr, remoteAddrLen);
+    if (s >= 0) {
+        fcntl(s, F_SETFD, FD_CLOEXEC);
+    }
+    return s;
+#endif
+}
+
 PLY_NO_INLINE TCPConnection_POSIX::~TCPConnection_POSIX() {
     // Prevent double-deletion of file descriptor
     this->outPipe.fd = -1;
@@ -78,7 +104,7 @@ PLY_NO_INLINE Owned<TCPConnection_POSIX> TCPListener_POSIX::accept() {
     socklen_t passedAddrLen = remoteAddrLen;
     int hostSocket;
     do {
-        hostSocket = ::accept(this->listenSocket, (struct sockaddr*) &remoteAddr, &remoteAddrLen);
+        hostSocket = acceptSocket(this->listenSocket, &remoteAddr, &remoteAddrLen);
     } while (hostSocket < 0 && errno == EINTR);
 
     if (hostSocket < 0) {
@@ -114,7 +140,7 @@ PLY_NO_INLINE int createSocket(int type) {
     if (PLY_IF_IPV6(Socket_POSIX::HasIPv6, false)) {
         family = AF_INET6;
     }
-    int s = socket(family, type, 0);
+    int s = openSocket(family, type);
     if (s < 0) {
         switch (errno) {
             case ENOBUFS:
-- 
2.43.0


From dcff83eff9d342727a2a6a6414c16d53ff4b20ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:57 +0000
Subject: [PATCH 34/93] fix: the web server crashed when a connection could not
 be accepted

---
 repos/plywood/src/web/common/web-common/Server.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/repos/plywood/src/web/common/web-common/Server.cpp b/repos/plywood/src/web/common/web-common/Server.cpp
index 76c38f2..3f5be03 100644
--- a/repos/plywood/src/web/common/web-common/Server.cpp
+++ b/repos/plywood/src/web/common/web-common/Server.cpp
@@ -175,7 +175,12 @@ bool runServer(u16 port, const RequestHandler& reqHandler) {
         ThreadParams params;
         params.tcpConn = listener.accept();
         // FIXME: Return if port stopped listening
-
+        if (!params.tcpConn) {
+            // Could not accept this connection; for example, too many files are open. Don't spin
+            // until that changes.
+            Thread::sleepMillis(10);
+            continue;
+        }
         params.reqHandler = reqHandler;
         // FIXME: Use a thread pool instead of spawning a thread for every request
         Thread{[params{std::move(params)}] { serverThreadEntry(params); }};
-- 
2.43.0


From 1c3b5863d69b532e7e8a6a8d506b38c31671c95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:44 +0000
Subject: [PATCH 35/93] fix: parsing ill-formed Pylon crashed instead of
 returning an invalid node

---
 repos/plywood/src/pylon/pylon/pylon/Parse.cpp | 20 +++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/repos/plywood/src/pylon/pylon/pylon/Parse.cpp b/repos/plywood/src/pylon/pylon/pylon/Parse.cpp
index d4542b6..bfe434b 100644
--- a/repos/plywood/src/pylon/pylon/pylon/Parse.cpp
+++ b/repos/plywood/src/pylon/pylon/pylon/Parse.cpp
@@ -360,17 +360,17 @@ Owned<Node> Parser::readObject(const Token& startToken) {
                                      "separator between properties \"{}\" and \"{}\"",
                                      fmt::EscapedString{prevProperty.text, 20},
                                      fmt::EscapedString{firstToken.text, 20}));
-                return {};
+                return Node::createInvalid();
             }
         } else if (prevProperty.isValid()) {
             error(firstToken.fileOfs,
                   String::format("Unexpected {} after property \"{}\"", toString(firstToken),
                                  fmt::EscapedString{prevProperty.text, 20}));
-            return {};
+            return Node::createInvalid();
         } else {
             error(firstToken.fileOfs,
                   String::format("Expected property, got {}", toString(firstToken)));
-            return {};
+            return Node::createInvalid();
         }
 
         auto propLocationCursor = propLocations.insertOrFind(firstToken.text);
@@ -379,7 +379,7 @@ Owned<Node> Parser::readObject(const Token& startToken) {
                                         ParseError::Scope::duplicate(propLocationCursor->fileOfs)};
             error(firstToken.fileOfs, String::format("Duplicate property \"{}\"",
                                                       fmt::EscapedString{firstToken.text, 20}));
-            return {};
+            return Node::createInvalid();
         }
 
         Token colon = readToken();
@@ -387,7 +387,7 @@ Owned<Node> Parser::readObject(const Token& startToken) {
             error(colon.fileOfs,
                   String::format("Expected \":\" or \"=\" after \"{}\", got {}",
                                  fmt::EscapedString{firstToken.text, 20}, toString(colon)));
-            return {};
+            return Node::createInvalid();
         }
 
         {
@@ -404,7 +404,7 @@ Owned<Node> Parser::readObject(const Token& startToken) {
 
         prevProperty = std::move(firstToken);
     }
-    return {};
+    return Node::createInvalid();
 }
 
 Owned<Node> Parser::readArray(const Token& startToken) {
@@ -451,7 +451,7 @@ Owned<Node> Parser::readExpression(Token&& firstToken, const Token* afterToken)
             return Node::createText(std::move(firstToken.text), firstToken.fileOfs);
 
         case Token::Invalid:
-            return {};
+            return Node::createInvalid();
 
         default: {
             MemOutStream mout;
@@ -460,7 +460,7 @@ Owned<Node> Parser::readExpression(Token&& firstToken, const Token* afterToken)
                 mout << " after " << toString(*afterToken);
             }
             error(firstToken.fileOfs, mout.moveToString());
-            return {};
+            return Node::createInvalid();
         }
     }
 }
@@ -474,13 +474,13 @@ Parser::Result Parser::parse(StringView srcView_) {
     Token rootToken = readToken();
     Owned<Node> root = readExpression(std::move(rootToken));
     if (!root->isValid())
-        return {};
+        return {Node::createInvalid(), {}};
 
     Token nextToken = readToken();
     if (nextToken.type != Token::EndOfFile) {
         error(nextToken.fileOfs,
               String::format("Unexpected {} after {}", toString(nextToken), toString(root)));
-        return {};
+        return {Node::createInvalid(), {}};
     }
 
     return {std::move(root), std::move(this->fileLocMap)};
-- 
2.43.0


From 3bc37abbc51e62491e5a5a47f12c916daecef6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:00 +0000
Subject: [PATCH 36/93] fix: DocServer forgot contents that couldn't be loaded
 at first, and leaked those it replaced

---
 .../serve-docs/ply-web-serve-docs/DocServer.cpp  | 16 ++++++++++------
 .../serve-docs/ply-web-serve-docs/DocServer.h    |  2 +-
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/repos/plywood/src/web/serve-docs/ply-web-serve-docs/DocServer.cpp b/repos/plywood/src/web/serve-docs/ply-web-serve-docs/DocServer.cpp
index 4889afc..ff7cb11 100644
--- a/repos/plywood/src/web/serve-docs/ply-web-serve-docs/DocServer.cpp
+++ b/repos/plywood/src/web/serve-docs/ply-web-serve-docs/DocServer.cpp
@@ -63,8 +63,9 @@ void DocServer::init(StringView dataRoot) {
     this->contentsPath = NativePath::join(dataRoot, "contents.pylon");
     FileStatus contentsStatus = fs->getFileStatus(this->contentsPath);
     if (contentsStatus.result == FSResult::OK) {
-        this->reloadContents();
-        this->contentsModTime = contentsStatus.modificationTime;
+        if (this->reloadContents()) {
+            this->contentsModTime = contentsStatus.modificationTime;
+        }
     }
 }
 
@@ -78,27 +79,30 @@ void populateContentsMap(HashMap<DocServer::ContentsTraits>& pathToContents, Con
     }
 }
 
-void DocServer::reloadContents() {
+bool DocServer::reloadContents() {
     FileSystem* fs = FileSystem::native();
 
     String contentsPylon = fs->loadText(this->contentsPath, TextFormat::unixUTF8());
     if (fs->lastResult() != FSResult::OK) {
         // FIXME: Log an error here
-        return;
+        return false;
     }
 
     Owned<pylon::Node> aRoot = pylon::Parser{}.parse(contentsPylon).root;
     if (!aRoot->isValid()) {
         // FIXME: Log an error here
-        return;
+        return false;
     }
 
-    pylon::importInto(AnyObject::bind(&this->contents), aRoot);
+    Array<Owned<Contents>> newContents;
+    pylon::importInto(AnyObject::bind(&newContents), aRoot);
 
+    this->contents = std::move(newContents);
     this->pathToContents = HashMap<ContentsTraits>{};
     for (Contents* node : this->contents) {
         populateContentsMap(this->pathToContents, node);
     }
+    return true;
 }
 
 String getPageSource(DocServer* ds, StringView requestPath, ResponseIface* responseIface) {
diff --git a/repos/plywood/src/web/serve-docs/ply-web-serve-docs/DocServer.h b/repos/plywood/src/web/serve-docs/ply-web-serve-docs/DocServer.h
index 4f037c7..4aa19b6 100644
--- a/repos/plywood/src/web/serve-docs/ply-web-serve-docs/DocServer.h
+++ b/repos/plywood/src/web/serve-docs/ply-web-serve-docs/DocServer.h
@@ -34,7 +34,7 @@ struct DocServer {
     HashMap<ContentsTraits> pathToContents;
 
     void init(StringView dataRoot);
-    void reloadContents();
+    bool reloadContents();
     void serve(StringView requestPath, ResponseIface* responseIface);
     void serveContentOnly(StringView requestPath, ResponseIface* responseIface);
 };
-- 
2.43.0


From 98099f1d4d0e5ef476708d186d22dab2907d6e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:17 +0000
Subject: [PATCH 37/93] fix: DocServer used its contents while another thread
 was reloading them

---
 .../ply-web-serve-docs/DocServer.cpp          | 30 ++++++++++++++-----
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/repos/plywood/src/web/serve-docs/ply-web-serve-docs/DocServer.cpp b/repos/plywood/src/web/serve-docs/ply-web-serve-docs/DocServer.cpp
index ff7cb11..039e403 100644
--- a/repos/plywood/src/web/serve-docs/ply-web-serve-docs/DocServer.cpp
+++ b/repos/plywood/src/web/serve-docs/ply-web-serve-docs/DocServer.cpp
@@ -137,13 +137,19 @@ void DocServer::serve(StringView requestPath, ResponseIface* responseIface) {
             ply::LockGuard<ply::Mutex> guard{this->contentsMutex};
             if (contentsStatus.modificationTime !=
                 this->contentsModTime.load(MemoryOrder::Relaxed)) {
-                this->reloadContents();
+                if (this->reloadContents()) {
+                    this->contentsModTime = contentsStatus.modificationTime;
+                }
             }
-            this->contentsModTime = contentsStatus.modificationTime;
         }
     }
 
-    if (!this->contents) {
+    bool hasContents = false;
+    {
+        ply::LockGuard<ply::Mutex> guard{this->contentsMutex};
+        hasContents = !this->contents.isEmpty();
+    }
+    if (!hasContents) {
         responseIface->respondGeneric(ResponseCode::InternalError);
         return;
     }
@@ -155,9 +161,13 @@ void DocServer::serve(StringView requestPath, ResponseIface* responseIface) {
     ViewInStream vins{pageHtml};
     String pageTitle = vins.readView<fmt::Line>().trim(isWhite);
 
-    // Figure out which TOC entries to expand
-    Array<const Contents*> expandTo;
+    // Other threads can reload the contents as soon as the mutex is unlocked, so format them now
+    String sidebar;
     {
+        ply::LockGuard<ply::Mutex> guard{this->contentsMutex};
+
+        // Figure out which TOC entries to expand
+        Array<const Contents*> expandTo;
         auto cursor = this->pathToContents.find(
             requestPath ? (StringView{"/docs/"} + requestPath).view() : StringView{"/"});
         if (cursor.wasFound()) {
@@ -167,6 +177,12 @@ void DocServer::serve(StringView requestPath, ResponseIface* responseIface) {
                 node = node->parent;
             }
         }
+
+        MemOutStream mout;
+        for (const Contents* node : this->contents) {
+            dumpContents(&mout, node, expandTo);
+        }
+        sidebar = mout.moveToString();
     }
 
     OutStream* outs = responseIface->beginResponseHeader(ResponseCode::OK);
@@ -204,9 +220,7 @@ void DocServer::serve(StringView requestPath, ResponseIface* responseIface) {
       <div class="inner">
         <ul>
 )#";
-    for (const Contents* node : this->contents) {
-        dumpContents(outs, node, expandTo);
-    }
+    *outs << sidebar;
     outs->format(R"(
         </ul>
       </div>
-- 
2.43.0


From a6f3011d7c437ff477530d7969072975bbbf0445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:36 +0000
Subject: [PATCH 38/93] fix: web request handlers gave access to files outside
 of their root directories

---
 .../src/web/common/web-common/FetchFromFileSystem.cpp    | 9 +++++++--
 repos/plywood/src/web/common/web-common/SourceCode.cpp   | 4 ++++
 .../src/web/serve-docs/ply-web-serve-docs/DocServer.cpp  | 4 +++-
 3 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/repos/plywood/src/web/common/web-common/FetchFromFileSystem.cpp b/repos/plywood/src/web/common/web-common/FetchFromFileSystem.cpp
index 6e1c13e..5a8a3cd 100644
--- a/repos/plywood/src/web/common/web-common/FetchFromFileSystem.cpp
+++ b/repos/plywood/src/web/common/web-common/FetchFromFileSystem.cpp
@@ -49,8 +49,13 @@ PLY_NO_INLINE void FetchFromFileSystem::serve(const FetchFromFileSystem* params,
         return;
     }
 
-    String nativePath =
-        NativePath::join(params->rootDir, requestPath.ltrim([](char c) { return c == '/'; }));
+    // Don't let clients read files outside of rootDir
+    String normPath = NativePath::normalize(requestPath.ltrim(NativePath::isSepByte));
+    if (normPath == ".." || normPath.startsWith("../")) {
+        responseIface->respondGeneric(ResponseCode::NotFound);
+        return;
+    }
+    String nativePath = NativePath::join(params->rootDir, normPath);
 
     // FIXME: Don't load the whole file completely in memory first.
     // Could open the raw pipe and feed it to outs.
diff --git a/repos/plywood/src/web/common/web-common/SourceCode.cpp b/repos/plywood/src/web/common/web-common/SourceCode.cpp
index ad2c2a0..dfa5b90 100644
--- a/repos/plywood/src/web/common/web-common/SourceCode.cpp
+++ b/repos/plywood/src/web/common/web-common/SourceCode.cpp
@@ -13,6 +13,10 @@ PLY_NO_INLINE void SourceCode::serve(const SourceCode* params, StringView reques
     // FIXME: Use FileSystem_Virtual and make really, really sure an adversary can't read files
     // outside the rootDir
     String normRequestPath = NativePath::normalize(requestPath.ltrim(NativePath::isSepByte));
+    if (normRequestPath == ".." || normRequestPath.startsWith("../")) {
+        responseIface->respondGeneric(ResponseCode::NotFound);
+        return;
+    }
     Owned<InStream> ins =
         FileSystem::native()
             ->openTextForReadAutodetect(NativePath::join(params->rootDir, normRequestPath))
diff --git a/repos/plywood/src/web/serve-docs/ply-web-serve-docs/DocServer.cpp b/repos/plywood/src/web/serve-docs/ply-web-serve-docs/DocServer.cpp
index 039e403..9df73b4 100644
--- a/repos/plywood/src/web/serve-docs/ply-web-serve-docs/DocServer.cpp
+++ b/repos/plywood/src/web/serve-docs/ply-web-serve-docs/DocServer.cpp
@@ -107,7 +107,9 @@ bool DocServer::reloadContents() {
 
 String getPageSource(DocServer* ds, StringView requestPath, ResponseIface* responseIface) {
     FileSystem* fs = FileSystem::native();
-    if (NativePath::isAbsolute(requestPath)) {
+    // Don't let clients read files outside of the "pages" directory
+    String normPath = NativePath::normalize(requestPath);
+    if (NativePath::isAbsolute(normPath) || normPath == ".." || normPath.startsWith("../")) {
         responseIface->respondGeneric(ResponseCode::NotFound);
         return {};
     }
-- 
2.43.0


From da9ab328088c0962ba60a22517049caff0926c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:36 +0000
Subject: [PATCH 39/93] fix: DocServer found no pages when its root directory
 was a relative path

---
 .../src/web/serve-docs/ply-web-serve-docs/DocServer.cpp        | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/repos/plywood/src/web/serve-docs/ply-web-serve-docs/DocServer.cpp b/repos/plywood/src/web/serve-docs/ply-web-serve-docs/DocServer.cpp
index 9df73b4..8119330 100644
--- a/repos/plywood/src/web/serve-docs/ply-web-serve-docs/DocServer.cpp
+++ b/repos/plywood/src/web/serve-docs/ply-web-serve-docs/DocServer.cpp
@@ -120,8 +120,7 @@ String getPageSource(DocServer* ds, StringView requestPath, ResponseIface* respo
     } else {
         absPath += ".html";
     }
-    String pageHtml =
-        fs->loadText(NativePath::join(ds->dataRoot, "pages", absPath), TextFormat::unixUTF8());
+    String pageHtml = fs->loadText(absPath, TextFormat::unixUTF8());
     if (!pageHtml) {
         responseIface->respondGeneric(ResponseCode::NotFound);
         return {};
-- 
2.43.0


From 75d4d2ecaa26c25e5714afe1592c3ecce5ded43e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:45 +0000
Subject: [PATCH 40/93] fix: SourceCode served directories as empty files

---
 repos/plywood/src/web/common/web-common/SourceCode.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/repos/plywood/src/web/common/web-common/SourceCode.cpp b/repos/plywood/src/web/common/web-common/SourceCode.cpp
index dfa5b90..353abd1 100644
--- a/repos/plywood/src/web/common/web-common/SourceCode.cpp
+++ b/repos/plywood/src/web/common/web-common/SourceCode.cpp
@@ -17,10 +17,11 @@ PLY_NO_INLINE void SourceCode::serve(const SourceCode* params, StringView reques
         responseIface->respondGeneric(ResponseCode::NotFound);
         return;
     }
-    Owned<InStream> ins =
-        FileSystem::native()
-            ->openTextForReadAutodetect(NativePath::join(params->rootDir, normRequestPath))
-            .first;
+    String nativePath = NativePath::join(params->rootDir, normRequestPath);
+    Owned<InStream> ins;
+    if (FileSystem::native()->exists(nativePath) == ExistsResult::File) { // Not a directory
+        ins = FileSystem::native()->openTextForReadAutodetect(nativePath).first;
+    }
     if (!ins) {
         // file could not be loaded
         responseIface->respondGeneric(ResponseCode::NotFound);
-- 
2.43.0


From f4cbeb831f48e9be7ee59769f5aa2da00c8ee2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:15 +0000
Subject: [PATCH 41/93] fix: the Pylon parser looped forever when its input
 ended within a literal

---
 repos/plywood/src/pylon/pylon/pylon/Parse.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/repos/plywood/src/pylon/pylon/pylon/Parse.cpp b/repos/plywood/src/pylon/pylon/pylon/Parse.cpp
index bfe434b..db77bd3 100644
--- a/repos/plywood/src/pylon/pylon/pylon/Parse.cpp
+++ b/repos/plywood/src/pylon/pylon/pylon/Parse.cpp
@@ -10,7 +10,7 @@ namespace pylon {
 
 bool isAlnumUnit(u32 c) {
     return (c == '_') || (c == '$') || (c == '-') || (c == '.') || (c >= 'a' && c <= 'z') ||
-           (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || (c >= 128);
+           (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || (c >= 128 && c <= 255);
 }
 
 void Parser::dumpError(const ParseError& error, OutStream& outs) const {
@@ -53,7 +53,7 @@ void Parser::error(u32 fileOfs, HybridString&& message) {
 void Parser::advanceChar() {
     if (readOfs + 1 < srcView.numBytes) {
         readOfs++;
-        nextUnit = srcView.bytes[readOfs];
+        nextUnit = (u8) srcView.bytes[readOfs];
     } else {
         nextUnit = -1;
     }
@@ -211,7 +211,8 @@ Parser::Token Parser::readLiteral() {
         advanceChar();
     }
 
-    token.text = StringView{(char*) srcView.bytes + startOfs, readOfs - startOfs};
+    u32 endOfs = (nextUnit == -1) ? srcView.numBytes : readOfs;
+    token.text = StringView{(char*) srcView.bytes + startOfs, endOfs - startOfs};
     return token;
 }
 
@@ -467,7 +468,7 @@ Owned<Node> Parser::readExpression(Token&& firstToken, const Token* afterToken)
 
 Parser::Result Parser::parse(StringView srcView_) {
     srcView = srcView_;
-    nextUnit = srcView.numBytes > 0 ? srcView[0] : -1;
+    nextUnit = srcView.numBytes > 0 ? (u8) srcView.bytes[0] : -1;
 
     this->fileLocMap = FileLocationMap::fromView(srcView_);
 
-- 
2.43.0


From cf4f9c334ec78a61a86b842faf49a2fc060ca969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:29 +0000
Subject: [PATCH 42/93] fix: the Pylon parser crashed at an unterminated string
 where a property or separator was expected

---
 repos/plywood/src/pylon/pylon/pylon/Parse.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/repos/plywood/src/pylon/pylon/pylon/Parse.cpp b/repos/plywood/src/pylon/pylon/pylon/Parse.cpp
index db77bd3..7bd4d96 100644
--- a/repos/plywood/src/pylon/pylon/pylon/Parse.cpp
+++ b/repos/plywood/src/pylon/pylon/pylon/Parse.cpp
@@ -297,6 +297,8 @@ HybridString Parser::toString(const Token& token) {
             return "newline";
         case Token::EndOfFile:
             return "end of file";
+        case Token::Invalid: // an error was already reported for this token
+            return "invalid token";
         default:
             PLY_ASSERT(0);
             return "???";
-- 
2.43.0


From 8c67f1c5267741f10cd36ac6065541471fd3a274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:53 +0000
Subject: [PATCH 43/93] fix: PlyTool crashed when CMake, make or the target's
 executable could not be started

---
 repos/plywood/src/apps/plytool/plytool/Command_Run.cpp    | 3 +++
 .../src/build/target/ply-build-target/CMakeLists.cpp      | 8 ++++++++
 2 files changed, 11 insertions(+)

diff --git a/repos/plywood/src/apps/plytool/plytool/Command_Run.cpp b/repos/plywood/src/apps/plytool/plytool/Command_Run.cpp
index d7d23a9..4038023 100644
--- a/repos/plywood/src/apps/plytool/plytool/Command_Run.cpp
+++ b/repos/plywood/src/apps/plytool/plytool/Command_Run.cpp
@@ -48,6 +48,9 @@ s32 command_run(PlyToolCommandEnv* env) {
     // consists of arguments to pass
     StdOut::text().format("Running '{}'...\n", exePath);
     Owned<Subprocess> child = Subprocess::exec(exePath, {}, {}, Subprocess::Output::inherit());
+    if (!child) {
+        fatalError(String::format("Can't run '{}'", exePath));
+    }
     return child->join();
 }
 
diff --git a/repos/plywood/src/build/target/ply-build-target/CMakeLists.cpp b/repos/plywood/src/build/target/ply-build-target/CMakeLists.cpp
index 03083fc..e2e0ee3 100644
--- a/repos/plywood/src/build/target/ply-build-target/CMakeLists.cpp
+++ b/repos/plywood/src/build/target/ply-build-target/CMakeLists.cpp
@@ -314,6 +314,12 @@ PLY_NO_INLINE Tuple<s32, String> generateCMakeProject(StringView cmakeListsFolde
     args.extend({"-DCMAKE_C_COMPILER_FORCED=1", "-DCMAKE_CXX_COMPILER_FORCED=1"});
     Owned<Subprocess> sub = Subprocess::exec(PLY_CMAKE_PATH, Array<StringView>{args},
                                              buildFolder, Subprocess::Output::openMerged());
+    if (!sub) {
+        if (errorCallback) {
+            errorCallback(String::format("Can't run '{}'\n", PLY_CMAKE_PATH));
+        }
+        return {-1, ""};
+    }
     String output = TextFormat::platformPreference()
                         .createImporter(Owned<InStream>::create(sub->readFromStdOut.borrow()))
                         ->readRemainingContents();
@@ -362,6 +368,8 @@ PLY_NO_INLINE Tuple<s32, String> buildCMakeProject(StringView cmakeListsFolder,
         }
         sub = Subprocess::exec(PLY_CMAKE_PATH, args, buildFolder, outputType);
     }
+    if (!sub)
+        return {-1, "Can't run the build tool\n"};
     String output;
     if (captureOutput) {
         output = TextFormat::platformPreference()
-- 
2.43.0


From 26d0a0eeb20f74ce5ba62ae5a190a7bff3bb3fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:53 +0000
Subject: [PATCH 44/93] fix: BuildFolder::generate ran CMake on an outdated
 CMakeLists.txt when it couldn't write the new one

---
 repos/plywood/src/build/folder/ply-build-folder/BuildFolder.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/repos/plywood/src/build/folder/ply-build-folder/BuildFolder.cpp b/repos/plywood/src/build/folder/ply-build-folder/BuildFolder.cpp
index 8cb4c6e..36dbc6f 100644
--- a/repos/plywood/src/build/folder/ply-build-folder/BuildFolder.cpp
+++ b/repos/plywood/src/build/folder/ply-build-folder/BuildFolder.cpp
@@ -274,6 +274,7 @@ PLY_NO_INLINE bool BuildFolder::generate(StringView config,
         if (result != FSResult::OK && result != FSResult::Unchanged) {
             ErrorHandler::log(ErrorHandler::Error,
                               String::format("Can't write '{}'\n", cmakeListsPath));
+            return false;
         }
     }
 
-- 
2.43.0


From 32d23c16be7ed2c3941d09fd662c653dd7b3d863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:53 +0000
Subject: [PATCH 45/93] fix: different build folder settings could have the
 same build system signature

---
 .../folder/ply-build-folder/BuildFolder.cpp   | 30 ++++++++++++-------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/repos/plywood/src/build/folder/ply-build-folder/BuildFolder.cpp b/repos/plywood/src/build/folder/ply-build-folder/BuildFolder.cpp
index 36dbc6f..3322d7e 100644
--- a/repos/plywood/src/build/folder/ply-build-folder/BuildFolder.cpp
+++ b/repos/plywood/src/build/folder/ply-build-folder/BuildFolder.cpp
@@ -220,17 +220,25 @@ PLY_NO_INLINE u128 BuildFolder::currentBuildSystemSignature() const {
     Hash128 h;
     u128 mds = RepoRegistry::get()->moduleDefSignature;
     h.append({(const char*) &mds, sizeof(mds)});
-    h.append(this->solutionName);
-    this->cmakeOptions.appendTo(h);
-    for (StringView rt : this->rootTargets) {
-        h.append(rt);
-    }
-    for (StringView ms : this->makeShared) {
-        h.append(ms);
-    }
-    for (StringView es : this->externSelectors) {
-        h.append(es);
-    }
+    // Lengths are included so that different settings never give the same sequence of bytes.
+    auto appendString = [&](StringView str) {
+        h.append({(const char*) &str.numBytes, sizeof(str.numBytes)});
+        h.append(str);
+    };
+    auto appendArray = [&](ArrayView<const String> arr) {
+        h.append({(const char*) &arr.numItems, sizeof(arr.numItems)});
+        for (StringView str : arr) {
+            appendString(str);
+        }
+    };
+    appendString(this->solutionName);
+    appendString(this->cmakeOptions.generator);
+    appendString(this->cmakeOptions.platform);
+    appendString(this->cmakeOptions.toolset);
+    appendString(this->cmakeOptions.toolchainFile);
+    appendArray(this->rootTargets);
+    appendArray(this->makeShared);
+    appendArray(this->externSelectors);
     return h.get();
 }
 
-- 
2.43.0


From a2f60b7fa464bb8658830d99f619fafb7bf95bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:53 +0000
Subject: [PATCH 46/93] fix: a build system that CMake didn't finish could be
 mistaken for an up-to-date one

---
 .../folder/ply-build-folder/BuildFolder.cpp   | 20 +++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/repos/plywood/src/build/folder/ply-build-folder/BuildFolder.cpp b/repos/plywood/src/build/folder/ply-build-folder/BuildFolder.cpp
index 3322d7e..07ae4a7 100644
--- a/repos/plywood/src/build/folder/ply-build-folder/BuildFolder.cpp
+++ b/repos/plywood/src/build/folder/ply-build-folder/BuildFolder.cpp
@@ -297,6 +297,21 @@ PLY_NO_INLINE bool BuildFolder::generate(StringView config,
         }
     }
 
+    // From here on, the existing build system is not the one that its signature says. Forget the
+    // signature first, so that it isn't mistaken for an up-to-date one if CMake doesn't finish.
+    bool isMultiConfig = isMultiConfigCMakeGenerator(this->cmakeOptions.generator);
+    if (isMultiConfig || !this->buildSystemSignature->isObject()) {
+        this->buildSystemSignature = pylon::Node::createObject();
+    } else {
+        this->buildSystemSignature->remove(config);
+    }
+    if (!this->save()) {
+        ErrorHandler::log(
+            ErrorHandler::Error,
+            String::format("Can't save build folder '{}'\n", this->buildFolderName));
+        return false;
+    }
+
     Tuple<s32, String> result =
         generateCMakeProject(buildFolderPath, this->cmakeOptions, config, [&](StringView errMsg) {
             ErrorHandler::log(ErrorHandler::Error, errMsg);
@@ -310,12 +325,9 @@ PLY_NO_INLINE bool BuildFolder::generate(StringView config,
     }
 
     String moduleDefSigStr = signatureToString(this->currentBuildSystemSignature());
-    if (isMultiConfigCMakeGenerator(this->cmakeOptions.generator)) {
+    if (isMultiConfig) {
         this->buildSystemSignature = pylon::Node::createText(moduleDefSigStr.view());
     } else {
-        if (!this->buildSystemSignature->isObject()) {
-            this->buildSystemSignature = pylon::Node::createObject();
-        }
         this->buildSystemSignature->set(config, pylon::Node::createText(moduleDefSigStr.view()));
     }
     this->save();
-- 
2.43.0


From 777773a9db131776019d28d326a35a18c5c2d0dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:53 +0000
Subject: [PATCH 47/93] fix: BuildFolder ignored invalid extern selectors, and
 crashed on invalid root targets in buildDepTree

---
 .../src/build/folder/ply-build-folder/BuildFolder.cpp       | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/repos/plywood/src/build/folder/ply-build-folder/BuildFolder.cpp b/repos/plywood/src/build/folder/ply-build-folder/BuildFolder.cpp
index 07ae4a7..9c681f9 100644
--- a/repos/plywood/src/build/folder/ply-build-folder/BuildFolder.cpp
+++ b/repos/plywood/src/build/folder/ply-build-folder/BuildFolder.cpp
@@ -166,6 +166,10 @@ BuildFolder::instantiateAllTargets(bool isGenerating) const {
     Owned<ProjectInstantiationEnv> env = this->createEnvironment();
     env->isGenerating = isGenerating;
     ProjectInstantiationResult instResult;
+    if (!env->isValid) {
+        instResult.isValid = false;
+        return instResult;
+    }
     ProjectInstantiator projInst;
     projInst.env = env;
     projInst.result = &instResult;
@@ -210,6 +214,8 @@ PLY_NO_INLINE DependencyTree BuildFolder::buildDepTree() const {
             return instResult;
         }
         */
+        if (!targetInst)
+            continue;
         bool makeShared = find(this->makeShared, targetName) >= 0;
         projInst.instantiate(targetInst, makeShared);
     }
-- 
2.43.0


From ad5e7655820a9262660a4eef9a27344861a620ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:53 +0000
Subject: [PATCH 48/93] fix: parsePlywoodSrcFile crashed when the source file
 couldn't be loaded

---
 repos/plywood/src/cpp/ply-cpp/ParsePlywoodSrcFile.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/repos/plywood/src/cpp/ply-cpp/ParsePlywoodSrcFile.cpp b/repos/plywood/src/cpp/ply-cpp/ParsePlywoodSrcFile.cpp
index 162f6bb..732b206 100644
--- a/repos/plywood/src/cpp/ply-cpp/ParsePlywoodSrcFile.cpp
+++ b/repos/plywood/src/cpp/ply-cpp/ParsePlywoodSrcFile.cpp
@@ -28,7 +28,12 @@ void parsePlywoodSrcFile(StringView absSrcPath, cpp::PPVisitedFiles* visitedFile
                 *outs << msg;
             }
         };
+        // Error handlers get the visited files from the parser
+        Parser parser;
+        parser.pp = &pp;
+        visor->parser = &parser;
         visor->handleError(new ErrorWrapper{String::format("Can't open '{}'\n", srcFile.absPath)});
+        visor->parser = nullptr;
         return;
     }
     srcFile.contents = std::move(src);
-- 
2.43.0


From 6b0390b166edf456db5de21027bf603ca8bc3df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:53 +0000
Subject: [PATCH 49/93] fix: instantiator DLLs counted as up to date although a
 file needed for them couldn't be read or written

---
 .../ply-build-repo/BuildInstantiatorDLLs.cpp  | 21 +++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/repos/plywood/src/build/repo/ply-build-repo/BuildInstantiatorDLLs.cpp b/repos/plywood/src/build/repo/ply-build-repo/BuildInstantiatorDLLs.cpp
index 8defd1d..634a9a5 100644
--- a/repos/plywood/src/build/repo/ply-build-repo/BuildInstantiatorDLLs.cpp
+++ b/repos/plywood/src/build/repo/ply-build-repo/BuildInstantiatorDLLs.cpp
@@ -98,8 +98,13 @@ Owned<Dependency> createDLLTarget(const GenerateDLLContext& ctx, const Extracted
 
     String generatedCppPath =
         NativePath::join(ctx.dllBuildFolder, "codegen", exRepo.repoName + "_Instantiators.cpp");
-    FileSystem::native()->makeDirsAndSaveTextIfDifferent(generatedCppPath, mout.moveToString(),
-                                                         TextFormat::platformPreference());
+    FSResult result = FileSystem::native()->makeDirsAndSaveTextIfDifferent(
+        generatedCppPath, mout.moveToString(), TextFormat::platformPreference());
+    if (result != FSResult::OK && result != FSResult::Unchanged) {
+        ErrorHandler::log(ErrorHandler::Error,
+                          String::format("Can't write '{}'\n", generatedCppPath));
+        return nullptr;
+    }
 
     Owned<Dependency> dep = new Dependency;
     dep->buildTarget = new BuildTarget{dep};
@@ -238,10 +243,18 @@ InstantiatedDLLs buildInstantiatorDLLs(bool force) {
         for (ExtractedRepo& exRepo : exRepos) {
             for (ModuleDefinitionFile& modDefFile : exRepo.modDefFiles) {
                 // Extract instantiators from module definition file
-                extractInstantiatorFunctions(&modDefFile);
+                if (!extractInstantiatorFunctions(&modDefFile)) {
+                    ErrorHandler::log(ErrorHandler::Error,
+                                      String::format("Can't extract instantiators from '{}'\n",
+                                                     modDefFile.absPath));
+                    return {};
+                }
             }
             // Create a DLL target for this repo
-            Dependency* dep = ownedTargets.append(createDLLTarget(ctx, exRepo));
+            Owned<Dependency> ownedDep = createDLLTarget(ctx, exRepo);
+            if (!ownedDep)
+                return {};
+            Dependency* dep = ownedTargets.append(std::move(ownedDep));
             cbf.targets.append(dep);
         }
 
-- 
2.43.0


From 5caa6e090f44474dc238e9614228cdfbe125f515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:53 +0000
Subject: [PATCH 50/93] fix: instantiator DLLs whose build was interrupted
 could be mistaken for up-to-date ones

---
 .../build/repo/ply-build-repo/BuildInstantiatorDLLs.cpp  | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/repos/plywood/src/build/repo/ply-build-repo/BuildInstantiatorDLLs.cpp b/repos/plywood/src/build/repo/ply-build-repo/BuildInstantiatorDLLs.cpp
index 634a9a5..24b4e91 100644
--- a/repos/plywood/src/build/repo/ply-build-repo/BuildInstantiatorDLLs.cpp
+++ b/repos/plywood/src/build/repo/ply-build-repo/BuildInstantiatorDLLs.cpp
@@ -235,6 +235,15 @@ InstantiatedDLLs buildInstantiatorDLLs(bool force) {
     if (mustBuild) {
         ErrorHandler::log(ErrorHandler::Info, "Initializing repo registry...\n");
 
+        // Forget the previous signature, so that DLLs which are only partially built aren't
+        // mistaken for up-to-date ones if we don't finish.
+        FSResult deleteResult = FileSystem::native()->deleteFile(signaturePath);
+        if (deleteResult != FSResult::OK && deleteResult != FSResult::NotFound) {
+            ErrorHandler::log(ErrorHandler::Error,
+                              String::format("Can't delete '{}'\n", signaturePath));
+            return {};
+        }
+
         Array<Owned<Dependency>> ownedTargets;
         CMakeBuildFolder cbf;
         cbf.solutionName = "DLLs";
-- 
2.43.0


From 776119b1a982618f8b943a08d30371c833302be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:53 +0000
Subject: [PATCH 51/93] fix: PlyTool used, and then saved, default workspace
 settings when the existing ones couldn't be read

---
 repos/plywood/src/apps/plytool/plytool/WorkspaceSettings.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/repos/plywood/src/apps/plytool/plytool/WorkspaceSettings.cpp b/repos/plywood/src/apps/plytool/plytool/WorkspaceSettings.cpp
index 731887c..f953ec0 100644
--- a/repos/plywood/src/apps/plytool/plytool/WorkspaceSettings.cpp
+++ b/repos/plywood/src/apps/plytool/plytool/WorkspaceSettings.cpp
@@ -13,8 +13,11 @@ namespace ply {
 
 PLY_NO_INLINE bool WorkspaceSettings::load() {
     String strContents = FileSystem::native()->loadTextAutodetect(getPath()).first;
-    if (FileSystem::native()->lastResult() != FSResult::OK)
+    FSResult result = FileSystem::native()->lastResult();
+    if (result == FSResult::NotFound)
         return true;
+    if (result != FSResult::OK)
+        return false;
 
     auto aRoot = pylon::Parser{}.parse(strContents).root;
     if (!aRoot->isValid())
-- 
2.43.0


From e1f94d4cd5d3e68848b794b270e8f6cdb6be43f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:53 +0000
Subject: [PATCH 52/93] fix: PlyTool commands reported success when the changed
 settings couldn't be saved

---
 .../apps/plytool/plytool/CommandHelpers.cpp    | 18 ++++++++++++++----
 .../src/apps/plytool/plytool/CommandHelpers.h  |  2 ++
 .../apps/plytool/plytool/Command_Extern.cpp    |  3 ++-
 .../apps/plytool/plytool/Command_Folder.cpp    | 11 ++++++++---
 .../apps/plytool/plytool/Command_Target.cpp    |  6 +++---
 5 files changed, 29 insertions(+), 11 deletions(-)

diff --git a/repos/plywood/src/apps/plytool/plytool/CommandHelpers.cpp b/repos/plywood/src/apps/plytool/plytool/CommandHelpers.cpp
index b6f0076..3fc72b5 100644
--- a/repos/plywood/src/apps/plytool/plytool/CommandHelpers.cpp
+++ b/repos/plywood/src/apps/plytool/plytool/CommandHelpers.cpp
@@ -13,6 +13,12 @@
 
 namespace ply {
 
+void saveOrFail(const build::BuildFolder* folder) {
+    if (!folder->save()) {
+        fatalError(String::format("Can't save build folder '{}'", folder->buildFolderName));
+    }
+}
+
 void AddParams::extractOptions(CommandLine* cl) {
     this->makeShared = cl->checkForSkippedOpt("--shared");
 }
@@ -89,7 +95,7 @@ bool BuildParams::exec(BuildParams::Result* result, PlyToolCommandEnv* env, bool
                 newFolder->activeConfig = env->workspace->defaultConfig;
             }
             this->addParams.exec(newFolder, buildTargetInst->getFullyQualifiedName());
-            newFolder->save();
+            saveOrFail(newFolder);
             StdOut::text().format("Created build folder '{}' with root target '{}' at: {}\n",
                                   newFolder->buildFolderName,
                                   RepoRegistry::get()->getShortDepSourceName(buildTargetInst),
@@ -98,7 +104,9 @@ bool BuildParams::exec(BuildParams::Result* result, PlyToolCommandEnv* env, bool
             env->buildFolders.append(std::move(newFolder));
             if (env->workspace->currentBuildFolder != result->folder->buildFolderName) {
                 env->workspace->currentBuildFolder = result->folder->buildFolderName;
-                env->workspace->save();
+                if (!env->workspace->save()) {
+                    exit(1); // Error was already logged
+                }
                 StdOut::text().format("'{}' is now the current build folder.\n",
                                       result->folder->buildFolderName);
             }
@@ -106,7 +114,9 @@ bool BuildParams::exec(BuildParams::Result* result, PlyToolCommandEnv* env, bool
             result->folder = matches[0].first;
             if (env->workspace->currentBuildFolder != result->folder->buildFolderName) {
                 env->workspace->currentBuildFolder = result->folder->buildFolderName;
-                env->workspace->save();
+                if (!env->workspace->save()) {
+                    exit(1); // Error was already logged
+                }
                 StdOut::text().format("'{}' is now the current build folder.\n",
                                       result->folder->buildFolderName);
             }
@@ -155,7 +165,7 @@ bool BuildParams::exec(BuildParams::Result* result, PlyToolCommandEnv* env, bool
             StdOut::text().format("Added target '{}' to folder '{}'.\n",
                                   RepoRegistry::get()->getShortDepSourceName(result->runTargetInst),
                                   result->folder->buildFolderName);
-            result->folder->save();
+            saveOrFail(result->folder);
 
             // Re-instantiate all targets
             result->instResult = result->folder->instantiateAllTargets(false);
diff --git a/repos/plywood/src/apps/plytool/plytool/CommandHelpers.h b/repos/plywood/src/apps/plytool/plytool/CommandHelpers.h
index e08e069..2e5fccf 100644
--- a/repos/plywood/src/apps/plytool/plytool/CommandHelpers.h
+++ b/repos/plywood/src/apps/plytool/plytool/CommandHelpers.h
@@ -13,6 +13,8 @@ namespace build {
 struct BuildFolder;
 } // namespace build
 
+void saveOrFail(const build::BuildFolder* folder); // Does not return if it can't be saved
+
 struct AddParams {
     bool makeShared = false;
 
diff --git a/repos/plywood/src/apps/plytool/plytool/Command_Extern.cpp b/repos/plywood/src/apps/plytool/plytool/Command_Extern.cpp
index 9a5639a..666bf41 100644
--- a/repos/plywood/src/apps/plytool/plytool/Command_Extern.cpp
+++ b/repos/plywood/src/apps/plytool/plytool/Command_Extern.cpp
@@ -4,6 +4,7 @@
 ------------------------------------*/
 #include <Core.h>
 #include <ConsoleUtils.h>
+#include <CommandHelpers.h>
 #include <ply-build-folder/BuildFolder.h>
 #include <ply-build-repo/RepoRegistry.h>
 #include <ply-build-repo/ProjectInstantiator.h>
@@ -194,7 +195,7 @@ void command_extern(PlyToolCommandEnv* env) {
         }
 
         env->currentBuildFolder->externSelectors.append(provider->getFullyQualifiedName());
-        env->currentBuildFolder->save();
+        saveOrFail(env->currentBuildFolder);
 
         StdOut::text().format("Selected extern provider '{}' in build folder '{}'.\n",
                                             RepoRegistry::get()->getShortProviderName(provider),
diff --git a/repos/plywood/src/apps/plytool/plytool/Command_Folder.cpp b/repos/plywood/src/apps/plytool/plytool/Command_Folder.cpp
index 682ce70..b3b674b 100644
--- a/repos/plywood/src/apps/plytool/plytool/Command_Folder.cpp
+++ b/repos/plywood/src/apps/plytool/plytool/Command_Folder.cpp
@@ -4,6 +4,7 @@
 ------------------------------------*/
 #include <Core.h>
 #include <ConsoleUtils.h>
+#include <CommandHelpers.h>
 #include <ply-build-folder/BuildFolder.h>
 #include <ply-build-repo/ProjectInstantiator.h>
 #include <ply-runtime/algorithm/Find.h>
@@ -62,11 +63,13 @@ void command_folder(PlyToolCommandEnv* env) {
         if (env->workspace->defaultConfig) {
             info->activeConfig = env->workspace->defaultConfig;
         }
-        info->save();
+        saveOrFail(info);
         StdOut::text().format("Created build folder '{}' at: {}\n", info->buildFolderName,
                               info->getAbsPath());
         env->workspace->currentBuildFolder = name;
-        env->workspace->save();
+        if (!env->workspace->save()) {
+            exit(1); // Error was already logged
+        }
         StdOut::text().format("'{}' is now the current build folder.\n", info->buildFolderName);
     } else if (prefixMatch(cmd, "delete")) {
         StringView name = env->cl->readToken();
@@ -103,7 +106,9 @@ void command_folder(PlyToolCommandEnv* env) {
         }
 
         env->workspace->currentBuildFolder = name;
-        env->workspace->save();
+        if (!env->workspace->save()) {
+            exit(1); // Error was already logged
+        }
         StdOut::text().format("'{}' is now the current build folder.\n", name);
     } else {
         fatalError(String::format("Unrecognized folder command \"{}\"", cmd));
diff --git a/repos/plywood/src/apps/plytool/plytool/Command_Target.cpp b/repos/plywood/src/apps/plytool/plytool/Command_Target.cpp
index d2dc8ec..981a590 100644
--- a/repos/plywood/src/apps/plytool/plytool/Command_Target.cpp
+++ b/repos/plywood/src/apps/plytool/plytool/Command_Target.cpp
@@ -101,7 +101,7 @@ void command_target(PlyToolCommandEnv* env) {
 
         addParams.exec(env->currentBuildFolder, fullTargetName);
 
-        env->currentBuildFolder->save();
+        saveOrFail(env->currentBuildFolder);
         StdOut::text().format("Added root target '{}' to build folder '{}'.\n",
                                             RepoRegistry::get()->getShortDepSourceName(targetInst),
                                             env->currentBuildFolder->buildFolderName);
@@ -127,7 +127,7 @@ void command_target(PlyToolCommandEnv* env) {
                                       RepoRegistry::get()->getShortDepSourceName(targetInst)));
         }
         env->currentBuildFolder->rootTargets.erase(j);
-        env->currentBuildFolder->save();
+        saveOrFail(env->currentBuildFolder);
         StdOut::text().format("Removed root target '{}' from build folder '{}'.\n",
                                             RepoRegistry::get()->getShortDepSourceName(targetInst),
                                             env->currentBuildFolder->buildFolderName);
@@ -163,7 +163,7 @@ void command_target(PlyToolCommandEnv* env) {
         }
 
         env->currentBuildFolder->activeTarget = targetInst->getFullyQualifiedName();
-        env->currentBuildFolder->save();
+        saveOrFail(env->currentBuildFolder);
         StdOut::text().format("Active target is now '{}' in folder '{}'.\n",
                                             RepoRegistry::get()->getShortDepSourceName(targetInst),
                                             env->currentBuildFolder->buildFolderName);
-- 
2.43.0


From 92b60ca5079fede692feb823288e0fef0c76d219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:50 +0000
Subject: [PATCH 53/93] fix: a build system could be mistaken for an up-to-date
 one after CMakeLists.txt was changed for another config

---
 .../folder/ply-build-folder/BuildFolder.cpp   | 30 ++++++++++---------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/repos/plywood/src/build/folder/ply-build-folder/BuildFolder.cpp b/repos/plywood/src/build/folder/ply-build-folder/BuildFolder.cpp
index 9c681f9..e01968f 100644
--- a/repos/plywood/src/build/folder/ply-build-folder/BuildFolder.cpp
+++ b/repos/plywood/src/build/folder/ply-build-folder/BuildFolder.cpp
@@ -279,18 +279,10 @@ PLY_NO_INLINE bool BuildFolder::generate(StringView config,
                       String::format("Generating build system for '{}'...\n", this->solutionName));
 
     String buildFolderPath = BuildFolderName::getFullPath(this->buildFolderName);
-    {
-        MemOutStream mout;
-        writeCMakeLists(&mout, this->solutionName, buildFolderPath, instResult, false);
-        String cmakeListsPath = NativePath::join(buildFolderPath, "CMakeLists.txt");
-        FSResult result = FileSystem::native()->makeDirsAndSaveTextIfDifferent(
-            cmakeListsPath, mout.moveToString(), TextFormat::platformPreference());
-        if (result != FSResult::OK && result != FSResult::Unchanged) {
-            ErrorHandler::log(ErrorHandler::Error,
-                              String::format("Can't write '{}'\n", cmakeListsPath));
-            return false;
-        }
-    }
+    String cmakeListsPath = NativePath::join(buildFolderPath, "CMakeLists.txt");
+    MemOutStream mout;
+    writeCMakeLists(&mout, this->solutionName, buildFolderPath, instResult, false);
+    String cmakeLists = mout.moveToString();
 
     if (!config) {
         config = this->activeConfig;
@@ -304,9 +296,12 @@ PLY_NO_INLINE bool BuildFolder::generate(StringView config,
     }
 
     // From here on, the existing build system is not the one that its signature says. Forget the
-    // signature first, so that it isn't mistaken for an up-to-date one if CMake doesn't finish.
+    // signature first, so that it isn't mistaken for an up-to-date one if CMake doesn't finish. When
+    // CMakeLists.txt is going to change, that applies to the build systems of all configs.
     bool isMultiConfig = isMultiConfigCMakeGenerator(this->cmakeOptions.generator);
-    if (isMultiConfig || !this->buildSystemSignature->isObject()) {
+    if (isMultiConfig || !this->buildSystemSignature->isObject() ||
+        FileSystem::native()->loadText(cmakeListsPath, TextFormat::platformPreference()) !=
+            cmakeLists) {
         this->buildSystemSignature = pylon::Node::createObject();
     } else {
         this->buildSystemSignature->remove(config);
@@ -318,6 +313,13 @@ PLY_NO_INLINE bool BuildFolder::generate(StringView config,
         return false;
     }
 
+    FSResult writeResult = FileSystem::native()->makeDirsAndSaveTextIfDifferent(
+        cmakeListsPath, cmakeLists, TextFormat::platformPreference());
+    if (writeResult != FSResult::OK && writeResult != FSResult::Unchanged) {
+        ErrorHandler::log(ErrorHandler::Error, String::format("Can't write '{}'\n", cmakeListsPath));
+        return false;
+    }
+
     Tuple<s32, String> result =
         generateCMakeProject(buildFolderPath, this->cmakeOptions, config, [&](StringView errMsg) {
             ErrorHandler::log(ErrorHandler::Error, errMsg);
-- 
2.43.0


From 69c3eaa72dcb0ed00e7d7835ce2c63404fbb9a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:49 +0000
Subject: [PATCH 54/93] fix: an extern provider name without a provider crashed
 PlyTool

---
 repos/plywood/src/build/repo/ply-build-repo/RepoRegistry.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/repos/plywood/src/build/repo/ply-build-repo/RepoRegistry.cpp b/repos/plywood/src/build/repo/ply-build-repo/RepoRegistry.cpp
index 82036c7..356f46b 100644
--- a/repos/plywood/src/build/repo/ply-build-repo/RepoRegistry.cpp
+++ b/repos/plywood/src/build/repo/ply-build-repo/RepoRegistry.cpp
@@ -309,6 +309,7 @@ RepoRegistry::getExternProvider(StringView qualifiedName) const {
         ErrorHandler::log(
             ErrorHandler::Error,
             String::format("Not enough components in extern provider name '{}'\n", qualifiedName));
+        return nullptr;
     }
     auto repoCursor = this->repos.find(comps[0]);
     if (repoCursor.wasFound()) {
-- 
2.43.0


From d06584f390ffa80c19b97b5e1aa26bbf7212fc04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:49 +0000
Subject: [PATCH 55/93] fix: the error about an extern that's missing from a
 repo indexed past the end of its name

---
 repos/plywood/src/build/repo/ply-build-repo/RepoRegistry.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/repos/plywood/src/build/repo/ply-build-repo/RepoRegistry.cpp b/repos/plywood/src/build/repo/ply-build-repo/RepoRegistry.cpp
index 356f46b..b80e7ac 100644
--- a/repos/plywood/src/build/repo/ply-build-repo/RepoRegistry.cpp
+++ b/repos/plywood/src/build/repo/ply-build-repo/RepoRegistry.cpp
@@ -242,7 +242,7 @@ PLY_NO_INLINE const DependencySource* findExternInternal(const RepoRegistry* rep
         const DependencySource* extern_ = (*repoCursor)->findExternImm(externName);
         if (!extern_) {
             ErrorHandler::log(ErrorHandler::Error,
-                              String::format("Can't find extern '{}' in repo '{}'\n", externName[1],
+                              String::format("Can't find extern '{}' in repo '{}'\n", externName,
                                              (*repoCursor)->repoName));
             return nullptr;
         }
-- 
2.43.0


From 311e274fb5e78a059b07a6cecb25bd09b2ca1218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:05 +0000
Subject: [PATCH 56/93] fix: instantiator DLLs couldn't be built when they had
 no signature file yet

---
 .../src/build/repo/ply-build-repo/BuildInstantiatorDLLs.cpp   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/repos/plywood/src/build/repo/ply-build-repo/BuildInstantiatorDLLs.cpp b/repos/plywood/src/build/repo/ply-build-repo/BuildInstantiatorDLLs.cpp
index 24b4e91..d9e0d80 100644
--- a/repos/plywood/src/build/repo/ply-build-repo/BuildInstantiatorDLLs.cpp
+++ b/repos/plywood/src/build/repo/ply-build-repo/BuildInstantiatorDLLs.cpp
@@ -237,8 +237,8 @@ InstantiatedDLLs buildInstantiatorDLLs(bool force) {
 
         // Forget the previous signature, so that DLLs which are only partially built aren't
         // mistaken for up-to-date ones if we don't finish.
-        FSResult deleteResult = FileSystem::native()->deleteFile(signaturePath);
-        if (deleteResult != FSResult::OK && deleteResult != FSResult::NotFound) {
+        if (FileSystem::native()->exists(signaturePath) != ExistsResult::NotFound &&
+            FileSystem::native()->deleteFile(signaturePath) != FSResult::OK) {
             ErrorHandler::log(ErrorHandler::Error,
                               String::format("Can't delete '{}'\n", signaturePath));
             return {};
-- 
2.43.0


From 026040bfd035b3a56e6bbcb447230ed558bf082b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:58 +0000
Subject: [PATCH 57/93] fix: copying a Pylon object crashed

---
 repos/plywood/src/pylon/pylon/pylon/Node.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/repos/plywood/src/pylon/pylon/pylon/Node.cpp b/repos/plywood/src/pylon/pylon/pylon/Node.cpp
index cebd874..a0b2da6 100644
--- a/repos/plywood/src/pylon/pylon/pylon/Node.cpp
+++ b/repos/plywood/src/pylon/pylon/pylon/Node.cpp
@@ -54,7 +54,7 @@ Owned<Node> Node::copy() const {
                 Object::Item& dstItem = dst->object_.items[i];
                 dstItem.key = this->object_.items[i].key.view();
                 dstItem.value = this->object_.items[i].value->copy();
-                *dst->object_.index.insertOrFind(dstItem.key) = i;
+                *dst->object_.index.insertOrFind(dstItem.key, &dst->object_.items) = i;
             }
             return dst;
         }
-- 
2.43.0


From ab8ee2fcd620c8052a4060ce7dee03ff3d66e884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:01 +0000
Subject: [PATCH 58/93] fix: removing from a HashMap corrupted it when items
 shared a bucket

---
 .../plywood/src/runtime/ply-runtime/container/HashMap.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/container/HashMap.cpp b/repos/plywood/src/runtime/ply-runtime/container/HashMap.cpp
index 2fa0408..1ffa504 100644
--- a/repos/plywood/src/runtime/ply-runtime/container/HashMap.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/container/HashMap.cpp
@@ -106,7 +106,8 @@ PLY_NO_INLINE HashMap::FindResult HashMap::findNext(FindInfo* info, const Callba
     u8 delta = *info->prevLink;
     while (delta) {
         info->idx += delta;
-        group = m_cellGroups + ((info->idx & m_sizeMask) >> 2);
+        group = (CellGroup*) PLY_PTR_OFFSET(m_cellGroups,
+                                            cellGroupSize * ((info->idx & m_sizeMask) >> 2));
         if (group->hashes[info->idx & 3] == hash) {
             void* item = PLY_PTR_OFFSET(group + 1, cb->itemSize * (info->idx & 3));
             if (cb->match(item, key, context)) {
@@ -299,10 +300,11 @@ PLY_NO_INLINE void HashMap::erase(FindInfo* info, const Callbacks* cb, u8*& link
             break;
         }
         u32 nextIdx = idx + *curLink;
-        CellGroup* nextGroup = m_cellGroups + ((nextIdx & m_sizeMask) >> 2);
+        CellGroup* nextGroup = (CellGroup*) PLY_PTR_OFFSET(
+            m_cellGroups, cellGroupSize * ((nextIdx & m_sizeMask) >> 2));
         if (prevLink) {
             u32 prevIdx = idx - *prevLink;
-            if (nextIdx - prevIdx < 256) {
+            if (nextIdx - prevIdx < EmptySlot) {
                 // Just redirect the previous link
                 cb->destruct(PLY_PTR_OFFSET(curGroup + 1, cb->itemSize * (idx & 3)));
                 *curLink = EmptySlot;
-- 
2.43.0


From 068b5ef176a53c5b2235f0a20c794eb8e3302249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:26 +0000
Subject: [PATCH 59/93] fix: parsing an empty Identifier with WithDash or
 WithDollarSign reported no error

---
 repos/plywood/src/runtime/ply-runtime/io/impl/TypeParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/io/impl/TypeParser.cpp b/repos/plywood/src/runtime/ply-runtime/io/impl/TypeParser.cpp
index b3bb437..cc11050 100644
--- a/repos/plywood/src/runtime/ply-runtime/io/impl/TypeParser.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/io/impl/TypeParser.cpp
@@ -395,7 +395,7 @@ bool fmt::FormatParser<fmt::Identifier>::parse(InStream* ins, const fmt::Identif
         ins->advanceByte();
     }
 
-    if (mask[1] == 0) {
+    if (first) {
         ins->status.parseError = 1;
         return false;
     }
-- 
2.43.0


From 2ad6e63d09876c6ed70f679d032eae872bbf2f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:26 +0000
Subject: [PATCH 60/93] fix: the smallest s64 could not be parsed, and printing
 it was undefined

---
 repos/plywood/src/runtime/ply-runtime/io/impl/FormatString.cpp | 2 +-
 repos/plywood/src/runtime/ply-runtime/io/impl/TypeParser.cpp   | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/io/impl/FormatString.cpp b/repos/plywood/src/runtime/ply-runtime/io/impl/FormatString.cpp
index fa6aa5c..8bfe2a5 100644
--- a/repos/plywood/src/runtime/ply-runtime/io/impl/FormatString.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/io/impl/FormatString.cpp
@@ -43,7 +43,7 @@ PLY_NO_INLINE void printString(OutStream* outs, s64 value, u32 radix, bool capit
         printString(outs, (u64) value, radix, capitalize);
     } else {
         outs->writeByte('-');
-        printString(outs, (u64) -value, radix, capitalize);
+        printString(outs, 0 - (u64) value, radix, capitalize);
     }
 }
 
diff --git a/repos/plywood/src/runtime/ply-runtime/io/impl/TypeParser.cpp b/repos/plywood/src/runtime/ply-runtime/io/impl/TypeParser.cpp
index cc11050..bece633 100644
--- a/repos/plywood/src/runtime/ply-runtime/io/impl/TypeParser.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/io/impl/TypeParser.cpp
@@ -123,7 +123,8 @@ PLY_NO_INLINE s64 fmt::TypeParser<s64>::parse(InStream* ins, Radix radix) {
 
     u64 unsignedComponent = fmt::TypeParser<u64>::parse(ins, radix);
     if (negate) {
-        s64 result = -(s64) unsignedComponent;
+        // Negate the unsigned value, since -(-2^63) would overflow
+        s64 result = (s64) (0 - unsignedComponent);
         if (result > 0) {
             ins->status.parseError = 1;
         }
-- 
2.43.0


From b937f0c639a2bb4d869ce961a3ba2976e1c8be73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:26 +0000
Subject: [PATCH 61/93] fix: scanUpToAndIncludingSpecial missed a match
 preceded by its own beginning

---
 repos/plywood/src/runtime/ply-runtime/io/impl/TypeParser.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/io/impl/TypeParser.cpp b/repos/plywood/src/runtime/ply-runtime/io/impl/TypeParser.cpp
index bece633..80e5a77 100644
--- a/repos/plywood/src/runtime/ply-runtime/io/impl/TypeParser.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/io/impl/TypeParser.cpp
@@ -71,7 +71,8 @@ PLY_NO_INLINE bool fmt::scanUpToAndIncludingSpecial(InStream* ins, StringView sp
             if (matchedUnits >= special.numBytes)
                 return true;
         } else {
-            matchedUnits = 0;
+            // This could be the first letter of another match
+            matchedUnits = (c == (u8) special.bytes[0]) ? 1 : 0;
         }
     }
     // special wasn't found
-- 
2.43.0


From eb26c3d1e41cc00df1c61565d3c99f2e176ec1d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:26 +0000
Subject: [PATCH 62/93] fix: digits after the point of a double were lost in
 some bases

---
 repos/plywood/src/runtime/ply-runtime/io/impl/TypeParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/io/impl/TypeParser.cpp b/repos/plywood/src/runtime/ply-runtime/io/impl/TypeParser.cpp
index 80e5a77..08570ad 100644
--- a/repos/plywood/src/runtime/ply-runtime/io/impl/TypeParser.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/io/impl/TypeParser.cpp
@@ -190,7 +190,7 @@ PLY_NO_INLINE double fmt::TypeParser<double>::parse(InStream* ins, Radix radix)
                 break;
             ins->advanceByte();
             u64 denomWithNextDigit = denom * radix.base;
-            if (denomWithNextDigit < denom) {
+            if (denom > Limits<u64>::Max / radix.base) {
                 // denominator overflowed
                 double ooDenom = 1.0 / denom;
                 value += significance * numer * ooDenom;
-- 
2.43.0


From 0505d26c87d01637de604df70f616958dde680ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:26 +0000
Subject: [PATCH 63/93] fix: an empty QuotedString at the end of the input was
 reported as incomplete

---
 repos/plywood/src/runtime/ply-runtime/io/impl/TypeParser.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/repos/plywood/src/runtime/ply-runtime/io/impl/TypeParser.cpp b/repos/plywood/src/runtime/ply-runtime/io/impl/TypeParser.cpp
index 08570ad..37a0330 100644
--- a/repos/plywood/src/runtime/ply-runtime/io/impl/TypeParser.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/io/impl/TypeParser.cpp
@@ -261,6 +261,8 @@ String fmt::FormatParser<fmt::QuotedString>::parse(InStream* ins, const fmt::Quo
     bool multiline = false;
     for (;;) {
         if (!ins->tryMakeBytesAvailable()) {
+            if (!multiline && quoteRun == 2)
+                break; // empty string
             handleError(fmt::QuotedString::UnexpectedEndOfFile);
             break; // end of string
         }
-- 
2.43.0


From 99d4d90c9e4251397db1235c2c5eff8dc2eeaf73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:26 +0000
Subject: [PATCH 64/93] fix: a counted object could be destroyed before other
 threads were done with it

---
 .../plywood/src/runtime/ply-runtime/container/Reference.h  | 4 +++-
 repos/plywood/src/runtime/ply-runtime/container/WeakRef.h  | 7 +++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/container/Reference.h b/repos/plywood/src/runtime/ply-runtime/container/Reference.h
index 754a89c..1059cec 100644
--- a/repos/plywood/src/runtime/ply-runtime/container/Reference.h
+++ b/repos/plywood/src/runtime/ply-runtime/container/Reference.h
@@ -37,9 +37,11 @@ public:
         PLY_UNUSED(oldCount);
     }
     PLY_INLINE void decRef() {
-        s32 oldCount = m_refCount.fetchSub(1, Relaxed);
+        // What this thread did with the object must happen before another thread destroys it.
+        s32 oldCount = m_refCount.fetchSub(1, Release);
         PLY_ASSERT(oldCount >= 1 && oldCount < UINT16_MAX);
         if (oldCount == 1) {
+            threadFenceAcquire();
             static_cast<Mixin*>(this)->onRefCountZero();
         }
     }
diff --git a/repos/plywood/src/runtime/ply-runtime/container/WeakRef.h b/repos/plywood/src/runtime/ply-runtime/container/WeakRef.h
index 6557abc..a2d69df 100644
--- a/repos/plywood/src/runtime/ply-runtime/container/WeakRef.h
+++ b/repos/plywood/src/runtime/ply-runtime/container/WeakRef.h
@@ -23,10 +23,12 @@ public:
     }
 
     void decRef() {
-        u32 oldDualCount = m_dualRefCount.fetchSub(1, Relaxed);
+        // What this thread did with the object must happen before another thread destroys it.
+        u32 oldDualCount = m_dualRefCount.fetchSub(1, Release);
         PLY_ASSERT((oldDualCount & 0xffffu) > 0);
         PLY_ASSERT((oldDualCount & 0xffffu) < INT16_MAX);
         if ((oldDualCount & 0xffffu) == 1) {
+            threadFenceAcquire();
             static_cast<Mixin*>(this)->onPartialRefCountZero();
             if (oldDualCount == 1) {
                 static_cast<Mixin*>(this)->onFullRefCountZero();
@@ -42,12 +44,13 @@ public:
     }
 
     void decWeakRef() {
-        u32 oldDualCount = m_dualRefCount.fetchSub(0x10000, Relaxed);
+        u32 oldDualCount = m_dualRefCount.fetchSub(0x10000, Release);
         PLY_ASSERT((oldDualCount >> 16) > 0);
         PLY_ASSERT((oldDualCount >> 16) < INT16_MAX);
         PLY_UNUSED(oldDualCount);
         if ((oldDualCount >> 16) == 1) {
             if (oldDualCount == 0x10000) {
+                threadFenceAcquire();
                 static_cast<Mixin*>(this)->onFullRefCountZero();
             }
         }
-- 
2.43.0


From 37cafd0d6a6d0876c15bcaf270ee5ab62e07133c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:26 +0000
Subject: [PATCH 65/93] fix: moving a reference out of the object it keeps
 alive read freed memory

---
 .../src/runtime/ply-runtime/container/Reference.h        | 9 ++++++---
 .../plywood/src/runtime/ply-runtime/container/WeakRef.h  | 9 ++++++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/container/Reference.h b/repos/plywood/src/runtime/ply-runtime/container/Reference.h
index 1059cec..5d199ad 100644
--- a/repos/plywood/src/runtime/ply-runtime/container/Reference.h
+++ b/repos/plywood/src/runtime/ply-runtime/container/Reference.h
@@ -115,10 +115,13 @@ public:
             oldPtr->decRef();
     }
     PLY_INLINE void operator=(Reference&& ref) {
-        if (this->ptr)
-            this->ptr->decRef();
-        this->ptr = ref.ptr;
+        // ref may belong to the object that's about to be destroyed.
+        T* oldPtr = this->ptr;
+        T* newPtr = ref.ptr;
         ref.ptr = nullptr;
+        this->ptr = newPtr;
+        if (oldPtr)
+            oldPtr->decRef();
     }
     PLY_INLINE explicit operator bool() const {
         return this->ptr != nullptr;
diff --git a/repos/plywood/src/runtime/ply-runtime/container/WeakRef.h b/repos/plywood/src/runtime/ply-runtime/container/WeakRef.h
index a2d69df..9a48660 100644
--- a/repos/plywood/src/runtime/ply-runtime/container/WeakRef.h
+++ b/repos/plywood/src/runtime/ply-runtime/container/WeakRef.h
@@ -129,10 +129,13 @@ public:
     }
 
     void operator=(WeakRef&& ref) {
-        if (m_ptr)
-            m_ptr->decWeakRef();
-        m_ptr = ref.m_ptr;
+        // ref may belong to the object that's about to be destroyed.
+        T* oldPtr = m_ptr;
+        T* newPtr = ref.m_ptr;
         ref.m_ptr = nullptr;
+        m_ptr = newPtr;
+        if (oldPtr)
+            oldPtr->decWeakRef();
     }
 };
 
-- 
2.43.0


From e4abb4dfc81e6fb0ec3985e915c14a2e3293ec01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:26 +0000
Subject: [PATCH 66/93] fix: Reference::clear dropped the reference twice when
 destroying the object cleared it again

---
 repos/plywood/src/runtime/ply-runtime/container/Reference.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/container/Reference.h b/repos/plywood/src/runtime/ply-runtime/container/Reference.h
index 5d199ad..748a635 100644
--- a/repos/plywood/src/runtime/ply-runtime/container/Reference.h
+++ b/repos/plywood/src/runtime/ply-runtime/container/Reference.h
@@ -132,9 +132,10 @@ public:
         return ptr;
     };
     PLY_INLINE void clear() {
-        if (this->ptr)
-            this->ptr->decRef();
+        T* oldPtr = this->ptr;
         this->ptr = nullptr;
+        if (oldPtr)
+            oldPtr->decRef();
     }
     PLY_INLINE bool isEmpty() const {
         return this->ptr == nullptr;
-- 
2.43.0


From 5aaa714f71a597fa0d8e0d5d4db47ddc94715073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:26 +0000
Subject: [PATCH 67/93] fix: an object could be freed by its last weak
 reference during onPartialRefCountZero

---
 .../runtime/ply-runtime/container/WeakRef.h   | 21 ++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/container/WeakRef.h b/repos/plywood/src/runtime/ply-runtime/container/WeakRef.h
index 9a48660..6cd9037 100644
--- a/repos/plywood/src/runtime/ply-runtime/container/WeakRef.h
+++ b/repos/plywood/src/runtime/ply-runtime/container/WeakRef.h
@@ -24,15 +24,22 @@ public:
 
     void decRef() {
         // What this thread did with the object must happen before another thread destroys it.
-        u32 oldDualCount = m_dualRefCount.fetchSub(1, Release);
-        PLY_ASSERT((oldDualCount & 0xffffu) > 0);
-        PLY_ASSERT((oldDualCount & 0xffffu) < INT16_MAX);
-        if ((oldDualCount & 0xffffu) == 1) {
+        // The last strong ref becomes a weak ref that's held while onPartialRefCountZero runs.
+        // Otherwise, another weak ref that goes away in the meantime would destroy the object.
+        u32 oldDualCount = m_dualRefCount.load(Relaxed);
+        u32 newDualCount;
+        do {
+            PLY_ASSERT((oldDualCount & 0xffffu) > 0);
+            PLY_ASSERT((oldDualCount & 0xffffu) < INT16_MAX);
+            newDualCount = oldDualCount - 1;
+            if ((newDualCount & 0xffffu) == 0) {
+                newDualCount += 0x10000;
+            }
+        } while (!m_dualRefCount.compareExchangeWeak(oldDualCount, newDualCount, Release, Relaxed));
+        if ((newDualCount & 0xffffu) == 0) {
             threadFenceAcquire();
             static_cast<Mixin*>(this)->onPartialRefCountZero();
-            if (oldDualCount == 1) {
-                static_cast<Mixin*>(this)->onFullRefCountZero();
-            }
+            decWeakRef();
         }
     }
 
-- 
2.43.0


From 0e511bf495def9f625404df1821e6ecf5959e0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:26 +0000
Subject: [PATCH 68/93] fix: log lines were lost or cut when a write was
 interrupted or short

---
 .../runtime/ply-runtime/log/impl/Logger_Stdout.h    | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/log/impl/Logger_Stdout.h b/repos/plywood/src/runtime/ply-runtime/log/impl/Logger_Stdout.h
index 378d47f..22a2f92 100644
--- a/repos/plywood/src/runtime/ply-runtime/log/impl/Logger_Stdout.h
+++ b/repos/plywood/src/runtime/ply-runtime/log/impl/Logger_Stdout.h
@@ -9,6 +9,7 @@
 #include <io.h>
 #else
 #include <unistd.h>
+#include <errno.h>
 #endif
 
 namespace ply {
@@ -20,8 +21,16 @@ public:
 #if PLY_TARGET_WIN32
         _write(1, strWithoutNullTerm.bytes, strWithoutNullTerm.numBytes);
 #else
-        ssize_t rc = ::write(STDOUT_FILENO, strWithoutNullTerm.bytes, strWithoutNullTerm.numBytes);
-        PLY_UNUSED(rc);
+        while (strWithoutNullTerm.numBytes > 0) {
+            ssize_t rc =
+                ::write(STDOUT_FILENO, strWithoutNullTerm.bytes, strWithoutNullTerm.numBytes);
+            if (rc < 0) {
+                if (errno == EINTR)
+                    continue;
+                break;
+            }
+            strWithoutNullTerm.offsetHead((u32) rc);
+        }
 #endif
     }
 };
-- 
2.43.0


From b2a01aa635094c765a97e59f01cb78b930fe9274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:26 +0000
Subject: [PATCH 69/93] fix: trace groups were published before their contents

---
 .../src/runtime/ply-runtime/thread/impl/Trace_Counters.cpp    | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/thread/impl/Trace_Counters.cpp b/repos/plywood/src/runtime/ply-runtime/thread/impl/Trace_Counters.cpp
index 3ecfaab..aa84d57 100644
--- a/repos/plywood/src/runtime/ply-runtime/thread/impl/Trace_Counters.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/thread/impl/Trace_Counters.cpp
@@ -17,11 +17,11 @@ void Trace_Counters::addGroup(TraceGroup* group) {
     TraceGroup* oldHead = m_firstGroup.load(ply::Relaxed);
     do {
         group->m_next = oldHead;
-    } while (!m_firstGroup.compareExchangeWeak(oldHead, group, ply::Relaxed, ply::Relaxed));
+    } while (!m_firstGroup.compareExchangeWeak(oldHead, group, ply::Release, ply::Relaxed));
 }
 
 void Trace_Counters::dumpStats() {
-    TraceGroup* group = m_firstGroup.load(ply::Relaxed);
+    TraceGroup* group = m_firstGroup.load(ply::Acquire);
     for (; group; group = group->m_next) {
         group->dumpIfUsed();
     }
-- 
2.43.0


From 764badcedc7c468dd27c21e0ccd8b7d27fca505d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:03 +0000
Subject: [PATCH 70/93] fix: loading a text file returned part of it, and OK,
 when the file couldn't be read completely

---
 .../ply-runtime/filesystem/FileSystem.cpp     | 30 +++++++++++++++----
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/filesystem/FileSystem.cpp b/repos/plywood/src/runtime/ply-runtime/filesystem/FileSystem.cpp
index 1672330..eff8370 100644
--- a/repos/plywood/src/runtime/ply-runtime/filesystem/FileSystem.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/filesystem/FileSystem.cpp
@@ -150,22 +150,40 @@ PLY_NO_INLINE String FileSystem::loadBinary(StringView path) {
     return result;
 }
 
+// Opens a file and reads it to the end in advance. Returns nullptr if that's not possible, so that
+// callers never mistake part of a file for the whole.
+static Owned<InStream> openAndReadAhead(FileSystem* fs, StringView path) {
+    Owned<InPipe> inPipe = fs->openPipeForRead(path);
+    if (!inPipe)
+        return nullptr;
+    // Files >= 4GB cannot be loaded this way:
+    u32 fileSize = safeDemote<u32>(inPipe->getFileSize());
+    Owned<InStream> ins = Owned<InStream>::create(std::move(inPipe));
+    if (fileSize > 0 && ins->tryMakeBytesAvailable(fileSize) < fileSize) {
+        FileSystem::setLastResult(FSResult::Unknown);
+        return nullptr;
+    }
+    return ins;
+}
+
 PLY_NO_INLINE String FileSystem::loadText(StringView path, const TextFormat& textFormat) {
-    Owned<InStream> ins = this->openTextForRead(path, textFormat);
+    Owned<InStream> ins = openAndReadAhead(this, path);
     String contents;
     if (ins) {
-        contents = ins->readRemainingContents();
+        contents = textFormat.createImporter(std::move(ins))->readRemainingContents();
     }
     return contents;
 }
 
 PLY_NO_INLINE Tuple<String, TextFormat> FileSystem::loadTextAutodetect(StringView path) {
-    Tuple<Owned<InStream>, TextFormat> tuple = this->openTextForReadAutodetect(path);
+    Owned<InStream> ins = openAndReadAhead(this, path);
     String contents;
-    if (tuple.first) {
-        contents = tuple.first->readRemainingContents();
+    TextFormat textFormat;
+    if (ins) {
+        textFormat = TextFormat::autodetect(ins);
+        contents = textFormat.createImporter(std::move(ins))->readRemainingContents();
     }
-    return {contents, tuple.second};
+    return {contents, textFormat};
 }
 
 PLY_NO_INLINE Owned<OutStream> FileSystem::openTextForWrite(StringView path,
-- 
2.43.0


From 7d98a466c131f2b703bb97ffe92a355d18e00ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:28 +0000
Subject: [PATCH 71/93] fix: formatting an error located at a macro, such as a
 duplicate PLY_REFLECT(), crashed

---
 repos/plywood/src/cpp/ply-cpp/ErrorFormatting.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/repos/plywood/src/cpp/ply-cpp/ErrorFormatting.cpp b/repos/plywood/src/cpp/ply-cpp/ErrorFormatting.cpp
index 2da3237..3dbbbf3 100644
--- a/repos/plywood/src/cpp/ply-cpp/ErrorFormatting.cpp
+++ b/repos/plywood/src/cpp/ply-cpp/ErrorFormatting.cpp
@@ -12,9 +12,14 @@ namespace cpp {
 ExpandedFileLocation expandFileLocation(const PPVisitedFiles* visitedFiles,
                                         LinearLocation linearLoc) {
     auto iter = visitedFiles->locationMap.findLastLessThan(linearLoc + 1);
+    // Locations inside macro expansions are reported at the place where the macro was used, which
+    // is where the previous range ends.
+    while (visitedFiles->includeChains[iter.getItem().includeChainIdx].isMacroExpansion) {
+        linearLoc = iter.getItem().linearLoc;
+        iter.prev();
+    }
     const cpp::PPVisitedFiles::IncludeChain& chain =
         visitedFiles->includeChains[iter.getItem().includeChainIdx];
-    PLY_ASSERT(!chain.isMacroExpansion); // FIXME handle macros
     const cpp::PPVisitedFiles::SourceFile* srcFile = &visitedFiles->sourceFiles[chain.fileOrExpIdx];
     FileLocation fileLoc = srcFile->fileLocMap.getFileLocation(
         safeDemote<u32>(linearLoc - iter.getItem().linearLoc + iter.getItem().offset));
-- 
2.43.0


From 084feb023481179f48b6a406206c6086407b46e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:54 +0000
Subject: [PATCH 72/93] fix: FileLocationMap was wrong after a character across
 a multiple of 256 bytes, and crashed at the end of such a file

---
 .../src/runtime/ply-runtime/io/text/FileLocationMap.cpp    | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/io/text/FileLocationMap.cpp b/repos/plywood/src/runtime/ply-runtime/io/text/FileLocationMap.cpp
index 7371f75..d8b0668 100644
--- a/repos/plywood/src/runtime/ply-runtime/io/text/FileLocationMap.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/io/text/FileLocationMap.cpp
@@ -20,13 +20,18 @@ FileLocationMap FileLocationMap::fromView(StringView src) {
     u32 nextChunkOfs = 256;
     result.table.append({1, 0, 1, 0});
     for (;;) {
+        if (ofs == nextChunkOfs) {
+            result.table.append({lineNumber, nextChunkOfs - lineStartOfs, columnNumber, 0});
+            nextChunkOfs += 256;
+        }
         if (src.numBytes == 0)
             break;
 
         DecodeResult decoded = UTF8::decodePoint(src);
         u32 nextOfs = ofs + decoded.numBytes;
         if (nextOfs > nextChunkOfs) {
-            result.table.append({lineNumber, nextChunkOfs - lineStartOfs, columnNumber, ofs - 256});
+            result.table.append(
+                {lineNumber, nextChunkOfs - lineStartOfs, columnNumber, nextChunkOfs - ofs});
             nextChunkOfs += 256;
         }
         ofs = nextOfs;
-- 
2.43.0


From 8e3976320344300d53f7ad4d2505060d549c6195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:54 +0000
Subject: [PATCH 73/93] fix: plytool codegen crashed when the last line of a
 file was a generated #include

---
 repos/plywood/src/apps/plytool/plytool/Command_CodeGen.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/repos/plywood/src/apps/plytool/plytool/Command_CodeGen.cpp b/repos/plywood/src/apps/plytool/plytool/Command_CodeGen.cpp
index a52a763..bce6321 100644
--- a/repos/plywood/src/apps/plytool/plytool/Command_CodeGen.cpp
+++ b/repos/plywood/src/apps/plytool/plytool/Command_CodeGen.cpp
@@ -71,7 +71,7 @@ String performSubsts(StringView absPath, ArrayView<Subst> substs) {
     for (const Subst& subst : substs) {
         PLY_ASSERT(subst.start >= prevEndPos);
         u32 endPos = subst.start + subst.numBytes;
-        PLY_ASSERT(endPos < src.numBytes);
+        PLY_ASSERT(endPos <= src.numBytes);
         mout.write({src.bytes + prevEndPos, subst.start - prevEndPos});
         mout.write(subst.replacement);
         prevEndPos = endPos;
-- 
2.43.0


From 0b0ca7df8ee3fcea6e3431a3312adabe2665ba7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:13 +0000
Subject: [PATCH 74/93] fix: a PLY_REFLECT() after the end of a previous one
 crashed plytool codegen

---
 repos/plywood/src/apps/plytool/plytool/ReflectionHooks.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/repos/plywood/src/apps/plytool/plytool/ReflectionHooks.cpp b/repos/plywood/src/apps/plytool/plytool/ReflectionHooks.cpp
index c3f2689..0f915f0 100644
--- a/repos/plywood/src/apps/plytool/plytool/ReflectionHooks.cpp
+++ b/repos/plywood/src/apps/plytool/plytool/ReflectionHooks.cpp
@@ -137,6 +137,7 @@ void ReflectionHookError::writeMessage(OutStream* outs, const PPVisitedFiles* vi
 struct ReflectionHooks : ParseSupervisor {
     struct State {
         ReflectedClass* clazz = nullptr;
+        LinearLocation reflectLoc = -1; // where the PLY_REFLECT macro was
         Token captureMembersToken;
         Owned<SwitchInfo> switch_ = nullptr;
         Owned<ReflectedEnum> enum_ = nullptr;
@@ -273,7 +274,7 @@ struct ReflectionHooks : ParseSupervisor {
             // Already have a PLY_REFLECT macro
             this->parser->pp->errorHandler(
                 new ReflectionHookError{ReflectionHookError::DuplicateCommand, token.linearLoc,
-                                        state.captureMembersToken.linearLoc});
+                                        state.reflectLoc});
             return;
         }
         ReflectedClass* clazz = new ReflectedClass;
@@ -281,6 +282,7 @@ struct ReflectionHooks : ParseSupervisor {
         clazz->name = this->getClassName();
         this->agg->classes.append(clazz);
         state.clazz = clazz;
+        state.reflectLoc = token.linearLoc;
         state.captureMembersToken = token;
     }
 
-- 
2.43.0


From 72aaad0fa05dc351e27bbd765f7fde9eaf09aad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:23 +0000
Subject: [PATCH 75/93] fix: plytool codegen corrupted a source file that
 changed after it was parsed

---
 .../apps/plytool/plytool/Command_CodeGen.cpp  | 36 +++++++++----------
 .../apps/plytool/plytool/ReflectionHooks.cpp  |  1 +
 .../apps/plytool/plytool/ReflectionHooks.h    |  1 +
 3 files changed, 20 insertions(+), 18 deletions(-)

diff --git a/repos/plywood/src/apps/plytool/plytool/Command_CodeGen.cpp b/repos/plywood/src/apps/plytool/plytool/Command_CodeGen.cpp
index bce6321..0c21fc1 100644
--- a/repos/plywood/src/apps/plytool/plytool/Command_CodeGen.cpp
+++ b/repos/plywood/src/apps/plytool/plytool/Command_CodeGen.cpp
@@ -61,11 +61,7 @@ void writeSwitchInl(SwitchInfo* switch_, const TextFormat& tff) {
     }
 }
 
-String performSubsts(StringView absPath, ArrayView<Subst> substs) {
-    String src = FileSystem::native()->loadTextAutodetect(absPath).first;
-    if (FileSystem::native()->lastResult() != FSResult::OK)
-        return {};
-
+String performSubsts(StringView src, ArrayView<Subst> substs) {
     MemOutStream mout;
     u32 prevEndPos = 0;
     for (const Subst& subst : substs) {
@@ -80,19 +76,22 @@ String performSubsts(StringView absPath, ArrayView<Subst> substs) {
     return mout.moveToString();
 }
 
-void performSubstsAndSave(StringView absPath, ArrayView<Subst> substs, const TextFormat& tff) {
-    // FIXME: Don't reload the file here!!!!!!!!!!
-    // It may have changed, making the Substs invalid!!!!!!!!
-    String srcWithSubst = performSubsts(absPath, substs);
-    if (FileSystem::native()->lastResult() == FSResult::OK) {
-        FSResult result =
-            FileSystem::native()->makeDirsAndSaveTextIfDifferent(absPath, srcWithSubst, tff);
-        OutStream stdOut = StdOut::text();
-        if (result == FSResult::OK) {
-            stdOut.format("Wrote {}\n", absPath);
-        } else if (result != FSResult::Unchanged) {
-            stdOut.format("Error writing {}\n", absPath);
-        }
+void performSubstsAndSave(StringView absPath, StringView parsedSrc, ArrayView<Subst> substs,
+                          const TextFormat& tff) {
+    // Don't overwrite changes that were made after the file was parsed
+    String src = FileSystem::native()->loadTextAutodetect(absPath).first;
+    OutStream stdOut = StdOut::text();
+    if (FileSystem::native()->lastResult() != FSResult::OK || src != parsedSrc) {
+        stdOut.format("Error updating {}: the file can't be read or has changed\n", absPath);
+        return;
+    }
+    String srcWithSubst = performSubsts(src, substs);
+    FSResult result =
+        FileSystem::native()->makeDirsAndSaveTextIfDifferent(absPath, srcWithSubst, tff);
+    if (result == FSResult::OK) {
+        stdOut.format("Wrote {}\n", absPath);
+    } else if (result != FSResult::Unchanged) {
+        stdOut.format("Error writing {}\n", absPath);
     }
 }
 
@@ -250,6 +249,7 @@ void command_codegen(PlyToolCommandEnv* env) {
                             writeSwitchInl(switch_, env->workspace->getSourceTextFormat());
                         }
                         performSubstsAndSave(NativePath::join(triple.dirPath, file.name),
+                                             sfri.first.parsedSrc,
                                              sfri.first.substsInParsedFile,
                                              env->workspace->getSourceTextFormat());
                     }
diff --git a/repos/plywood/src/apps/plytool/plytool/ReflectionHooks.cpp b/repos/plywood/src/apps/plytool/plytool/ReflectionHooks.cpp
index 0f915f0..bfe9a04 100644
--- a/repos/plywood/src/apps/plytool/plytool/ReflectionHooks.cpp
+++ b/repos/plywood/src/apps/plytool/plytool/ReflectionHooks.cpp
@@ -416,6 +416,7 @@ Tuple<SingleFileReflectionInfo, bool> extractReflection(ReflectionInfoAggregator
     parsePlywoodSrcFile(NativePath::join(PLY_WORKSPACE_FOLDER, "repos", relPath), &visitedFiles,
                         &visor);
 
+    sfri.parsedSrc = visitedFiles.sourceFiles[0].contents.view();
     return {std::move(sfri), !visor.anyError};
 }
 
diff --git a/repos/plywood/src/apps/plytool/plytool/ReflectionHooks.h b/repos/plywood/src/apps/plytool/plytool/ReflectionHooks.h
index 7685d5f..4195676 100644
--- a/repos/plywood/src/apps/plytool/plytool/ReflectionHooks.h
+++ b/repos/plywood/src/apps/plytool/plytool/ReflectionHooks.h
@@ -62,6 +62,7 @@ struct ReflectionInfoAggregator {
 
 struct SingleFileReflectionInfo {
     // May later need to generalize to multiple files
+    String parsedSrc; // the text that substsInParsedFile refer to
     Array<Subst> substsInParsedFile;
     Array<SwitchInfo*> switches;
 };
-- 
2.43.0


From a9eec56fed338234450545878119e2dd53986c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:23 +0000
Subject: [PATCH 76/93] fix: plytool codegen dropped the reflection information
 of sources with errors

---
 repos/plywood/src/apps/plytool/plytool/Command_CodeGen.cpp | 2 ++
 repos/plywood/src/apps/plytool/plytool/ReflectionHooks.cpp | 3 +++
 repos/plywood/src/apps/plytool/plytool/ReflectionHooks.h   | 1 +
 3 files changed, 6 insertions(+)

diff --git a/repos/plywood/src/apps/plytool/plytool/Command_CodeGen.cpp b/repos/plywood/src/apps/plytool/plytool/Command_CodeGen.cpp
index 0c21fc1..7e63158 100644
--- a/repos/plywood/src/apps/plytool/plytool/Command_CodeGen.cpp
+++ b/repos/plywood/src/apps/plytool/plytool/Command_CodeGen.cpp
@@ -183,6 +183,8 @@ void generateAllCppInls(cpp::ReflectionInfoAggregator* agg, const TextFormat& tf
 
     for (const Traits::Item& item : fileToGeneratorList) {
         PLY_ASSERT(item.cppInlPath.endsWith(".inl"));
+        if (find(agg->incompleteInls, item.cppInlPath) >= 0)
+            continue; // Keep the previous file until the errors are gone
         String absPath = NativePath::join(PLY_WORKSPACE_FOLDER, "repos", item.cppInlPath);
 
         MemOutStream mout;
diff --git a/repos/plywood/src/apps/plytool/plytool/ReflectionHooks.cpp b/repos/plywood/src/apps/plytool/plytool/ReflectionHooks.cpp
index bfe9a04..e5f7020 100644
--- a/repos/plywood/src/apps/plytool/plytool/ReflectionHooks.cpp
+++ b/repos/plywood/src/apps/plytool/plytool/ReflectionHooks.cpp
@@ -417,6 +417,9 @@ Tuple<SingleFileReflectionInfo, bool> extractReflection(ReflectionInfoAggregator
                         &visor);
 
     sfri.parsedSrc = visitedFiles.sourceFiles[0].contents.view();
+    if (visor.anyError) {
+        agg->incompleteInls.append(makeInlRelPath(relPath));
+    }
     return {std::move(sfri), !visor.anyError};
 }
 
diff --git a/repos/plywood/src/apps/plytool/plytool/ReflectionHooks.h b/repos/plywood/src/apps/plytool/plytool/ReflectionHooks.h
index 4195676..050266c 100644
--- a/repos/plywood/src/apps/plytool/plytool/ReflectionHooks.h
+++ b/repos/plywood/src/apps/plytool/plytool/ReflectionHooks.h
@@ -58,6 +58,7 @@ struct ReflectionInfoAggregator {
     Array<Owned<ReflectedClass>> classes;
     Array<Owned<ReflectedEnum>> enums;
     Array<Owned<SwitchInfo>> switches;
+    Array<String> incompleteInls; // some of their source files had errors
 };
 
 struct SingleFileReflectionInfo {
-- 
2.43.0


From 1c8d42b274d405e075300cd22ee27298e5f83ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:17 +0000
Subject: [PATCH 77/93] fix: an error at the end of a file without a final
 newline crashed plytool codegen

---
 repos/plywood/src/cpp/ply-cpp/Preprocessor.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/repos/plywood/src/cpp/ply-cpp/Preprocessor.cpp b/repos/plywood/src/cpp/ply-cpp/Preprocessor.cpp
index bc50da7..9f4c9b6 100644
--- a/repos/plywood/src/cpp/ply-cpp/Preprocessor.cpp
+++ b/repos/plywood/src/cpp/ply-cpp/Preprocessor.cpp
@@ -865,6 +865,9 @@ PLY_NO_INLINE Token readToken(Preprocessor* pp) {
     }
 
     token.type = Token::EndOfFile;
+    if (token.linearLoc < 0) {
+        token.linearLoc = pp->linearLocAtEndOfStackTop;
+    }
     return token;
 }
 
-- 
2.43.0


From 43e5c00132be15354cfde95b40d199bd0b3a51fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:12 +0000
Subject: [PATCH 78/93] fix: loading skipped pointers and empty objects of any
 type wrongly

---
 .../src/reflect/ply-reflect/PersistReadObject.cpp        | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/repos/plywood/src/reflect/ply-reflect/PersistReadObject.cpp b/repos/plywood/src/reflect/ply-reflect/PersistReadObject.cpp
index 9b56ef7..4c67a35 100644
--- a/repos/plywood/src/reflect/ply-reflect/PersistReadObject.cpp
+++ b/repos/plywood/src/reflect/ply-reflect/PersistReadObject.cpp
@@ -67,8 +67,9 @@ void skip(ReadObjectContext* context, FormatDescriptor* formatDesc) {
         }
         case FormatKey::Typed: {
             u32 formatID = context->in.read<u32>();
-            FormatDescriptor* formatDesc = context->schema->getFormatDesc(formatID);
-            skip(context, formatDesc);
+            if (formatID != (u32) FormatKey::None) {
+                skip(context, context->schema->getFormatDesc(formatID));
+            }
             break;
         }
         case FormatKey::FixedArray: {
@@ -93,6 +94,10 @@ void skip(ReadObjectContext* context, FormatDescriptor* formatDesc) {
             skip(context, ownedFormat->childFormat);
             break;
         }
+        case FormatKey::RawPtr: {
+            context->in.read<u32>();
+            break;
+        }
         case FormatKey::Struct: {
             FormatDescriptor_Struct* structFormat = (FormatDescriptor_Struct*) formatDesc;
             for (FormatDescriptor_Struct::Member& member : structFormat->members) {
-- 
2.43.0


From 748d313a774548d93838db0b497fdcbab87781d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:12 +0000
Subject: [PATCH 79/93] fix: loading a type that contains itself crashed

---
 .../reflect/ply-reflect/PersistReadSchema.cpp | 30 +++++++++++--------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/repos/plywood/src/reflect/ply-reflect/PersistReadSchema.cpp b/repos/plywood/src/reflect/ply-reflect/PersistReadSchema.cpp
index cdd9343..f15b640 100644
--- a/repos/plywood/src/reflect/ply-reflect/PersistReadSchema.cpp
+++ b/repos/plywood/src/reflect/ply-reflect/PersistReadSchema.cpp
@@ -72,21 +72,27 @@ public:
             m_schema->userFormatDescs
                 .numItems(); // actual formatID is FormatID_StartUserRange + userFormatIndex
         m_schema->userFormatDescs.append(nullptr);
+        // The format is registered before its children are read, since they can refer to it.
         if (formatKey == (u8) FormatKey::FixedArray) {
             u32 numItems = m_in.read<u32>();
-            FormatDescriptor* itemFormat = readFormatDescriptor();
-            newFormat = new FormatDescriptor_FixedArray{numItems, itemFormat};
+            auto* arrFormat = new FormatDescriptor_FixedArray{numItems, nullptr};
+            m_schema->userFormatDescs[userFormatIndex] = newFormat = arrFormat;
+            arrFormat->itemFormat = readFormatDescriptor();
         } else if (formatKey == (u8) FormatKey::Array) {
-            FormatDescriptor* itemFormat = readFormatDescriptor();
-            newFormat = new FormatDescriptor_Array{itemFormat};
+            auto* arrFormat = new FormatDescriptor_Array{nullptr};
+            m_schema->userFormatDescs[userFormatIndex] = newFormat = arrFormat;
+            arrFormat->itemFormat = readFormatDescriptor();
         } else if (formatKey == (u8) FormatKey::Owned) {
-            FormatDescriptor* childFormat = readFormatDescriptor();
-            newFormat = new FormatDescriptor_Owned{childFormat};
+            auto* ownedFormat = new FormatDescriptor_Owned{nullptr};
+            m_schema->userFormatDescs[userFormatIndex] = newFormat = ownedFormat;
+            ownedFormat->childFormat = readFormatDescriptor();
         } else if (formatKey == (u8) FormatKey::RawPtr) {
-            FormatDescriptor* childFormat = readFormatDescriptor();
-            newFormat = new FormatDescriptor_RawPtr{childFormat};
+            auto* ptrFormat = new FormatDescriptor_RawPtr{nullptr};
+            m_schema->userFormatDescs[userFormatIndex] = newFormat = ptrFormat;
+            ptrFormat->childFormat = readFormatDescriptor();
         } else if (formatKey == (u8) FormatKey::Struct) {
             FormatDescriptor_Struct* structFormat = new FormatDescriptor_Struct;
+            m_schema->userFormatDescs[userFormatIndex] = newFormat = structFormat;
             structFormat->name = Boxed<String>::read(m_in);
             u16 numTemplateParams = m_in.read<u16>();
             u16 numMembers = m_in.read<u16>();
@@ -100,9 +106,9 @@ public:
                 member.name = Boxed<String>::read(m_in);
                 member.formatDesc = readFormatDescriptor();
             }
-            newFormat = structFormat;
         } else if (formatKey == (u8) FormatKey::Enum) {
             FormatDescriptor_Enum* enumFormat = new FormatDescriptor_Enum;
+            m_schema->userFormatDescs[userFormatIndex] = newFormat = enumFormat;
             enumFormat->name = Boxed<String>::read(m_in);
             enumFormat->fixedSize = m_in.read<u8>();
             u32 numEntries = m_in.read<u32>();
@@ -110,16 +116,16 @@ public:
             for (String& name : enumFormat->identifiers) {
                 name = Boxed<String>::read(m_in);
             }
-            newFormat = enumFormat;
         } else if (formatKey == (u8) FormatKey::EnumIndexedArray) {
             FormatDescriptor_EnumIndexedArray* arrFormat = new FormatDescriptor_EnumIndexedArray;
+            m_schema->userFormatDescs[userFormatIndex] = newFormat = arrFormat;
             arrFormat->itemFormat = readFormatDescriptor();
             FormatDescriptor* enumFormat = readFormatDescriptor();
             PLY_ASSERT(enumFormat->formatKey == (u8) FormatKey::Enum);
             arrFormat->enumFormat = static_cast<FormatDescriptor_Enum*>(enumFormat);
-            newFormat = arrFormat;
         } else if (formatKey == (u8) FormatKey::Switch) {
             FormatDescriptor_Switch* switchFormat = new FormatDescriptor_Switch;
+            m_schema->userFormatDescs[userFormatIndex] = newFormat = switchFormat;
             switchFormat->name = Boxed<String>::read(m_in);
             u16 numStates = m_in.read<u16>();
             switchFormat->states.resize(numStates);
@@ -129,11 +135,9 @@ public:
                 PLY_ASSERT(stateFormat->formatKey == (u8) FormatKey::Struct);
                 state.structFormat = static_cast<FormatDescriptor_Struct*>(stateFormat);
             }
-            newFormat = switchFormat;
         } else {
             PLY_ASSERT(0);
         }
-        m_schema->userFormatDescs[userFormatIndex] = newFormat;
         return newFormat;
     }
 
-- 
2.43.0


From 57c7c057d489823e356fae37dc32ea1d0aa08242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:12 +0000
Subject: [PATCH 80/93] fix: objects of any type were saved in a way that
 couldn't be loaded

---
 repos/plywood/src/reflect/ply-reflect/PersistWriteSchema.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/repos/plywood/src/reflect/ply-reflect/PersistWriteSchema.cpp b/repos/plywood/src/reflect/ply-reflect/PersistWriteSchema.cpp
index 5d554dc..f36ba73 100644
--- a/repos/plywood/src/reflect/ply-reflect/PersistWriteSchema.cpp
+++ b/repos/plywood/src/reflect/ply-reflect/PersistWriteSchema.cpp
@@ -8,6 +8,7 @@
 #include <ply-reflect/FormatDescriptor.h>
 #include <ply-reflect/TypedArray.h>
 #include <ply-reflect/AnySavedObject.h>
+#include <ply-reflect/AnyOwnedObject.h>
 #include <ply-runtime/algorithm/Range.h>
 #include <ply-runtime/container/Boxed.h>
 #include <map>
@@ -68,6 +69,7 @@ WriteFormatContext::WriteFormatContext(OutStream* out) : m_out{out} {
             m_typeToFormatID[builtin.type] = (u32) builtin.key;
         }
     }
+    m_typeToFormatID[getTypeDescriptor<AnyOwnedObject>()] = (u32) FormatKey::Typed;
 }
 
 u32 WriteFormatContext::addOrGetFormatID(TypeDescriptor* typeDesc) {
-- 
2.43.0


From 06cdce9028deb60b3ddfd56f14b8e7d1a34075c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:12 +0000
Subject: [PATCH 81/93] fix: pointers of saved objects were mixed up when
 loading

---
 .../ply-reflect/PersistWriteObject.cpp        | 35 +++++++++++++++----
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/repos/plywood/src/reflect/ply-reflect/PersistWriteObject.cpp b/repos/plywood/src/reflect/ply-reflect/PersistWriteObject.cpp
index eff4a45..706aa7a 100644
--- a/repos/plywood/src/reflect/ply-reflect/PersistWriteObject.cpp
+++ b/repos/plywood/src/reflect/ply-reflect/PersistWriteObject.cpp
@@ -19,7 +19,7 @@ void writeObject(AnyObject obj, WriteObjectContext* writeObjectContext) {
 
 void resolveLinksAndWriteLinkTable(MutableStringView view, OutStream* outs,
                                    SavedPtrResolver* ptrResolver) {
-    u32 linkIndex = 0;
+    // Find the Owned pointers that are referenced by weak pointers
     for (const SavedPtrResolver::WeakPointerToResolve& weakInfo : ptrResolver->weakPtrsToResolve) {
         PLY_ASSERT(weakInfo.fileOffset + 4 <= view.numBytes);
         auto cursor =
@@ -27,17 +27,38 @@ void resolveLinksAndWriteLinkTable(MutableStringView view, OutStream* outs,
         if (cursor.wasFound()) {
             SavedPtrResolver::SavedOwnedPtr& savedOwnedPtr = ptrResolver->savedOwnedPtrs[*cursor];
             PLY_ASSERT(savedOwnedPtr.obj == weakInfo.obj); // Sanity check
-            if (savedOwnedPtr.linkIndex < 0) {
-                savedOwnedPtr.linkIndex = linkIndex;
-                linkIndex++;
-            }
-            // Note: This performs a potentially unaligned write
-            *(u32*) PLY_PTR_OFFSET(view.bytes, weakInfo.fileOffset) = savedOwnedPtr.linkIndex;
+            savedOwnedPtr.linkIndex = 0; // Assigned below
         } else {
             PLY_ASSERT(0); // FIXME: Handle unresolved pointers gracefully
         }
     }
 
+    // An Owned pointer doesn't write anything itself, so nested ones can have the same file offset.
+    // They are read in the same order, so the table needs an entry for the outer ones, too.
+    for (u32 i = ptrResolver->savedOwnedPtrs.numItems(); i > 1; i--) {
+        SavedPtrResolver::SavedOwnedPtr& inner = ptrResolver->savedOwnedPtrs[i - 1];
+        SavedPtrResolver::SavedOwnedPtr& outer = ptrResolver->savedOwnedPtrs[i - 2];
+        if (inner.linkIndex >= 0 && outer.fileOffset == inner.fileOffset) {
+            outer.linkIndex = 0;
+        }
+    }
+
+    // The link table is sorted by file offset, so that's how the link indices must be assigned
+    u32 linkIndex = 0;
+    for (SavedPtrResolver::SavedOwnedPtr& savedOwnedPtr : ptrResolver->savedOwnedPtrs) {
+        if (savedOwnedPtr.linkIndex >= 0) {
+            savedOwnedPtr.linkIndex = linkIndex;
+            linkIndex++;
+        }
+    }
+    for (const SavedPtrResolver::WeakPointerToResolve& weakInfo : ptrResolver->weakPtrsToResolve) {
+        auto cursor =
+            ptrResolver->addrToSaveInfo.find(weakInfo.obj.data, &ptrResolver->savedOwnedPtrs);
+        // Note: This performs a potentially unaligned write
+        *(u32*) PLY_PTR_OFFSET(view.bytes, weakInfo.fileOffset) =
+            ptrResolver->savedOwnedPtrs[*cursor].linkIndex;
+    }
+
     // Write link table
     NativeEndianWriter out{outs};
     out.write(linkIndex); // Number of linkable Owned pointers
-- 
2.43.0


From 159e17f718357525294d7cba2da697659979a397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:12 +0000
Subject: [PATCH 82/93] fix: AnySavedObject destroyed its object twice

---
 repos/plywood/src/reflect/ply-reflect/AnySavedObject.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/repos/plywood/src/reflect/ply-reflect/AnySavedObject.h b/repos/plywood/src/reflect/ply-reflect/AnySavedObject.h
index 0f5baba..c0f78e7 100644
--- a/repos/plywood/src/reflect/ply-reflect/AnySavedObject.h
+++ b/repos/plywood/src/reflect/ply-reflect/AnySavedObject.h
@@ -23,7 +23,7 @@ struct AnySavedObject {
     ~AnySavedObject() {
         // Need to destroy the AnyOwnedObject first, since it uses a TypeDescriptor that's owned
         // by the TypeDescriptorOwner.
-        owned.destroy();
+        owned = AnyOwnedObject{};
     }
 
     AnySavedObject& operator=(AnySavedObject&&) = default;
-- 
2.43.0


From 60dbe11f7f05ef3780040fdd9972cbf875240271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:12 +0000
Subject: [PATCH 83/93] fix: destroying an AnyOwnedObject member leaked its
 object or crashed

---
 repos/plywood/src/reflect/ply-reflect/AnyOwnedObject.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/repos/plywood/src/reflect/ply-reflect/AnyOwnedObject.cpp b/repos/plywood/src/reflect/ply-reflect/AnyOwnedObject.cpp
index 55cda72..1274a98 100644
--- a/repos/plywood/src/reflect/ply-reflect/AnyOwnedObject.cpp
+++ b/repos/plywood/src/reflect/ply-reflect/AnyOwnedObject.cpp
@@ -75,9 +75,16 @@ TypeKey TypeKey_AnyOwnedObject{
     TypeKey::alwaysEqualDescriptors,
 };
 
+static NativeBindings getNativeBindings_AnyOwnedObject() {
+    NativeBindings bindings = NativeBindings::make<AnyOwnedObject>();
+    // Don't call AnyObject::destruct(), which would destruct the target without freeing it.
+    bindings.destruct = [](AnyObject obj) { ((AnyOwnedObject*) obj.data)->~AnyOwnedObject(); };
+    return bindings;
+}
+
 PLY_DEFINE_TYPE_DESCRIPTOR(AnyOwnedObject) {
     static TypeDescriptor typeDesc{&TypeKey_AnyOwnedObject, (AnyOwnedObject*) nullptr,
-                                   NativeBindings::make<AnyOwnedObject>()
+                                   getNativeBindings_AnyOwnedObject()
                                        PLY_METHOD_TABLES_ONLY(, {})};
     return &typeDesc;
 }
-- 
2.43.0


From 1dff1ef53cc79c591e97f4647bc2de4cdcba590c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:12 +0000
Subject: [PATCH 84/93] fix: destroying arrays of reflected objects leaked
 their memory

---
 repos/plywood/src/reflect/ply-reflect/TypedArray.cpp          | 2 ++
 repos/plywood/src/reflect/ply-reflect/TypedArray.h            | 4 ++++
 .../src/reflect/ply-reflect/builtin/TypeDescriptor_Array.cpp  | 1 +
 3 files changed, 7 insertions(+)

diff --git a/repos/plywood/src/reflect/ply-reflect/TypedArray.cpp b/repos/plywood/src/reflect/ply-reflect/TypedArray.cpp
index e39e4a9..ea22f8b 100644
--- a/repos/plywood/src/reflect/ply-reflect/TypedArray.cpp
+++ b/repos/plywood/src/reflect/ply-reflect/TypedArray.cpp
@@ -52,6 +52,7 @@ PLY_NO_INLINE void TypedArray::destroy() {
         view().destruct();
     }
     m_array.free();
+    m_array = {};
     m_typeOwner = nullptr;
 }
 
@@ -68,6 +69,7 @@ PLY_NO_INLINE void TypedArray::assign(TypeDescriptorOwner* typeOwner, void* item
     if (m_array.m_numItems > 0) {
         view().destruct();
     }
+    m_array.free();
     m_typeOwner = typeOwner;
     m_array.m_items = items;
     m_array.m_numItems = numItems;
diff --git a/repos/plywood/src/reflect/ply-reflect/TypedArray.h b/repos/plywood/src/reflect/ply-reflect/TypedArray.h
index 7641d81..e1374da 100644
--- a/repos/plywood/src/reflect/ply-reflect/TypedArray.h
+++ b/repos/plywood/src/reflect/ply-reflect/TypedArray.h
@@ -53,6 +53,10 @@ public:
     details::BaseArray m_array;
     Reference<TypeDescriptorOwner> m_typeOwner = TypeOwnerResolver<EmptyType>::get();
 
+    PLY_INLINE ~TypedArray() {
+        destroy();
+    }
+
     PLY_INLINE TypedArrayView view() {
         return {m_array.m_items, m_array.m_numItems, m_typeOwner};
     }
diff --git a/repos/plywood/src/reflect/ply-reflect/builtin/TypeDescriptor_Array.cpp b/repos/plywood/src/reflect/ply-reflect/builtin/TypeDescriptor_Array.cpp
index d881825..caa1d2b 100644
--- a/repos/plywood/src/reflect/ply-reflect/builtin/TypeDescriptor_Array.cpp
+++ b/repos/plywood/src/reflect/ply-reflect/builtin/TypeDescriptor_Array.cpp
@@ -35,6 +35,7 @@ NativeBindings& getNativeBindings_Array() {
                 itemType->bindings.destruct({item, itemType});
                 item = PLY_PTR_OFFSET(item, itemSize);
             }
+            arr->free();
             arr->~BaseArray();
         },
         // move
-- 
2.43.0


From fa1697f5004db9073ca3a5c8637ef563e4621c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:12 +0000
Subject: [PATCH 85/93] fix: loading a switch whose states were reordered used
 the wrong format

---
 repos/plywood/src/reflect/ply-reflect/TypeKey.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/repos/plywood/src/reflect/ply-reflect/TypeKey.cpp b/repos/plywood/src/reflect/ply-reflect/TypeKey.cpp
index 3a05667..026d720 100644
--- a/repos/plywood/src/reflect/ply-reflect/TypeKey.cpp
+++ b/repos/plywood/src/reflect/ply-reflect/TypeKey.cpp
@@ -902,7 +902,7 @@ TypeKey TypeKey_Switch{
             newTypedState.construct();
         }
         newTypedState.type->typeKey->read(newTypedState, context,
-                                          switchFormat->states[newID].structFormat);
+                                          switchFormat->states[formatStateID].structFormat);
     },
     // hashDescriptor
     nullptr, // Unimplemented
-- 
2.43.0


From 9ab9862ebe181218609ac0a468fa1f9b4bfae085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:12 +0000
Subject: [PATCH 86/93] fix: loading something else into an enum or a pointer
 crashed

---
 repos/plywood/src/reflect/ply-reflect/TypeKey.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/repos/plywood/src/reflect/ply-reflect/TypeKey.cpp b/repos/plywood/src/reflect/ply-reflect/TypeKey.cpp
index 026d720..2c6004b 100644
--- a/repos/plywood/src/reflect/ply-reflect/TypeKey.cpp
+++ b/repos/plywood/src/reflect/ply-reflect/TypeKey.cpp
@@ -656,8 +656,13 @@ TypeKey TypeKey_Enum{
     // read
     [](AnyObject obj, ReadObjectContext* context, FormatDescriptor* formatDesc) {
         NativeEndianReader& in = context->in;
-        FormatDescriptor_Enum* enumFormat = (FormatDescriptor_Enum*) formatDesc;
         TypeDescriptor_Enum* enumType = obj.type->cast<TypeDescriptor_Enum>();
+        if ((FormatKey) formatDesc->formatKey != FormatKey::Enum) {
+            SLOG(Load, "Can't convert to enum \"{}\"", enumType->name);
+            skip(context, formatDesc);
+            return;
+        }
+        FormatDescriptor_Enum* enumFormat = (FormatDescriptor_Enum*) formatDesc;
         u32 serializedValue = 0;
         if (enumFormat->fixedSize == 1) {
             serializedValue = in.read<u8>();
@@ -740,6 +745,11 @@ TypeKey TypeKey_RawPtr{
     // read
     [](AnyObject obj, ReadObjectContext* context, FormatDescriptor* formatDesc) {
         TypeDescriptor_RawPtr* weakPtrType = obj.type->cast<TypeDescriptor_RawPtr>();
+        if ((FormatKey) formatDesc->formatKey != FormatKey::RawPtr) {
+            SLOG(Load, "Can't convert to pointer");
+            skip(context, formatDesc);
+            return;
+        }
         LoadPtrResolver::RawPtr* weakPtr = (LoadPtrResolver::RawPtr*) obj.data;
 
         u32 linkIndex = context->in.read<u32>();
-- 
2.43.0


From 3eda6d6f14914efd7c462f2373beadf085517770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:21 +0000
Subject: [PATCH 87/93] fix: plytool cleanup cut comments with blank lines and
 crashed on files without code

---
 .../apps/plytool/plytool/Command_Cleanup.cpp  | 36 ++++++++++++++-----
 1 file changed, 27 insertions(+), 9 deletions(-)

diff --git a/repos/plywood/src/apps/plytool/plytool/Command_Cleanup.cpp b/repos/plywood/src/apps/plytool/plytool/Command_Cleanup.cpp
index f06e7e7..d4ec82a 100644
--- a/repos/plywood/src/apps/plytool/plytool/Command_Cleanup.cpp
+++ b/repos/plywood/src/apps/plytool/plytool/Command_Cleanup.cpp
@@ -6,6 +6,7 @@
 #include <ConsoleUtils.h>
 #include <ply-cpp/Preprocessor.h>
 #include <ply-cpp/ErrorFormatting.h>
+#include <ply-runtime/algorithm/Find.h>
 
 namespace ply {
 
@@ -45,25 +46,42 @@ void checkFileHeader(StringView srcPath, StringView desiredHeader, const TextFor
 
     bool anyError = false;
     pp.errorHandler = [&](Owned<BaseError>&&) { anyError = true; };
+    Array<StringView> comments;
+    const char* firstTokenPos = srcFile.contents.view().end();
     Token tok;
     for (;;) {
         tok = readToken(&pp);
         if (tok.type != Token::LineComment && tok.type != Token::CStyleComment)
             break;
+        comments.append(tok.identifier);
+    }
+    if (tok.type != Token::EndOfFile) {
+        firstTokenPos = tok.identifier.bytes;
+    }
+    if (anyError && tok.type != Token::Directive) {
+        StdOut::text().format("Error: Can't find the header of {}\n", srcPath);
+        return;
     }
 
-    ExpandedFileLocation efl = expandFileLocation(&visitedFiles, tok.linearLoc);
-    PLY_ASSERT(efl.srcFile == &srcFile);
-    StringView existingFileHeader = StringView::fromRange(
-        srcFile.contents.bytes, tok.identifier.bytes - efl.fileLoc.numBytesIntoLine);
-
-    // Trim header at first blank line
+    // The header ends at the line of the first token, or at the first blank line that's not inside
+    // a comment.
+    StringView existingFileHeader = srcFile.contents;
     {
-        ViewInStream vins{existingFileHeader};
+        ViewInStream vins{srcFile.contents};
         while (StringView line = vins.readView<fmt::Line>()) {
-            if (line.rtrim(isWhite).isEmpty()) {
-                existingFileHeader = StringView::fromRange(existingFileHeader.bytes, line.bytes);
+            bool insideComment = find(comments, [&](StringView comment) {
+                                     return comment.bytes < line.bytes &&
+                                            line.bytes < comment.end();
+                                 }) >= 0;
+            if (!insideComment) {
+                existingFileHeader = StringView::fromRange(srcFile.contents.bytes, line.bytes);
+                if (line.rtrim(isWhite).isEmpty())
+                    break;
+            }
+            if (firstTokenPos < line.end())
                 break;
+            if (line.end() == srcFile.contents.view().end()) {
+                existingFileHeader = srcFile.contents;
             }
         }
     }
-- 
2.43.0


From 914bd926ecbc9cb9dd54a73633c9849756ccd762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:21 +0000
Subject: [PATCH 88/93] fix: plytool cleanup didn't report files that it
 couldn't read or write

---
 .../src/apps/plytool/plytool/Command_Cleanup.cpp       | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/repos/plywood/src/apps/plytool/plytool/Command_Cleanup.cpp b/repos/plywood/src/apps/plytool/plytool/Command_Cleanup.cpp
index d4ec82a..c415eac 100644
--- a/repos/plywood/src/apps/plytool/plytool/Command_Cleanup.cpp
+++ b/repos/plywood/src/apps/plytool/plytool/Command_Cleanup.cpp
@@ -12,8 +12,10 @@ namespace ply {
 
 void checkFileHeader(StringView srcPath, StringView desiredHeader, const TextFormat& tff) {
     String src = FileSystem::native()->loadTextAutodetect(srcPath).first;
-    if (FileSystem::native()->lastResult() != FSResult::OK)
+    if (FileSystem::native()->lastResult() != FSResult::OK) {
+        StdOut::text().format("Error reading {}\n", srcPath);
         return;
+    }
 
     using namespace cpp;
     PPVisitedFiles visitedFiles;
@@ -89,7 +91,11 @@ void checkFileHeader(StringView srcPath, StringView desiredHeader, const TextFor
     StringView restOfFile =
         StringView::fromRange(existingFileHeader.end(), srcFile.contents.view().end());
     String withHeader = desiredHeader + restOfFile;
-    FileSystem::native()->makeDirsAndSaveTextIfDifferent(srcPath, withHeader, tff);
+    FSResult result =
+        FileSystem::native()->makeDirsAndSaveTextIfDifferent(srcPath, withHeader, tff);
+    if (result != FSResult::OK && result != FSResult::Unchanged) {
+        StdOut::text().format("Error writing {}\n", srcPath);
+    }
 }
 
 void cleanupRepo(StringView repoPath, StringView desiredHeader, StringView clangFormatPath,
-- 
2.43.0


From b7f737ffc8e0f1849b8c28dc8bfe8434a9b96499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:43 +0000
Subject: [PATCH 89/93] fix: control characters and overlong UTF-8 in escaped
 strings weren't printed so that they read back

---
 repos/plywood/src/pylon/pylon/pylon/Parse.cpp | 15 +++++++++--
 .../ply-runtime/io/impl/FormatString.cpp      |  7 +++---
 .../ply-runtime/io/impl/TypeParser.cpp        | 25 +++++++++++++++++--
 3 files changed, 40 insertions(+), 7 deletions(-)

diff --git a/repos/plywood/src/pylon/pylon/pylon/Parse.cpp b/repos/plywood/src/pylon/pylon/pylon/Parse.cpp
index 7bd4d96..8c9d0b4 100644
--- a/repos/plywood/src/pylon/pylon/pylon/Parse.cpp
+++ b/repos/plywood/src/pylon/pylon/pylon/Parse.cpp
@@ -66,8 +66,19 @@ Parser::Token Parser::readPlainToken(Token::Type type) {
 }
 
 bool Parser::readEscapedHex(OutStream* outs, u32 escapeFileOfs) {
-    PLY_ASSERT(0); // FIXME
-    return false;
+    // Two hexadecimal digits
+    u32 value = 0;
+    for (u32 i = 0; i < 2; i++) {
+        u32 digit = (nextUnit >= 0) ? fmt::DigitTable[nextUnit] : 255;
+        if (digit >= 16) {
+            error(escapeFileOfs, "Expected two hexadecimal digits after \"\\x\"");
+            return false;
+        }
+        value = value * 16 + digit;
+        advanceChar();
+    }
+    NativeEndianWriter{outs}.write((u8) value);
+    return true;
 }
 
 Parser::Token Parser::readQuotedString() {
diff --git a/repos/plywood/src/runtime/ply-runtime/io/impl/FormatString.cpp b/repos/plywood/src/runtime/ply-runtime/io/impl/FormatString.cpp
index 8bfe2a5..725c012 100644
--- a/repos/plywood/src/runtime/ply-runtime/io/impl/FormatString.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/io/impl/FormatString.cpp
@@ -215,7 +215,8 @@ PLY_NO_INLINE void fmt::TypePrinter<fmt::EscapedString>::print(OutStream* outs,
             break;
         }
         DecodeResult decoded = UTF8::decodePoint(srcUnits);
-        switch (decoded.point) {
+        // Points that take more bytes than needed are badly encoded, and preserved as they are:
+        switch (decoded.numBytes > 1 ? 0xffff : decoded.point) {
             case '"': {
                 *outs << "\\\"";
                 break;
@@ -237,13 +238,13 @@ PLY_NO_INLINE void fmt::TypePrinter<fmt::EscapedString>::print(OutStream* outs,
                 break;
             }
             default: {
-                if (decoded.point >= 32) {
+                if (decoded.numBytes > 1 || decoded.point >= 32) {
                     // This will preserve badly encoded UTF8 characters exactly as they are in
                     // the source string:
                     outs->write(srcUnits.left(decoded.numBytes));
                 } else {
                     static const char* digits = "0123456789abcdef";
-                    *outs << '\\' << digits[(decoded.point >> 4) & 0xf]
+                    *outs << "\\x" << digits[(decoded.point >> 4) & 0xf]
                         << digits[decoded.point & 0xf];
                 }
                 break;
diff --git a/repos/plywood/src/runtime/ply-runtime/io/impl/TypeParser.cpp b/repos/plywood/src/runtime/ply-runtime/io/impl/TypeParser.cpp
index 37a0330..2a429c1 100644
--- a/repos/plywood/src/runtime/ply-runtime/io/impl/TypeParser.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/io/impl/TypeParser.cpp
@@ -352,8 +352,29 @@ String fmt::FormatParser<fmt::QuotedString>::parse(InStream* ins, const fmt::Quo
                             break;
                         }
 
-                            // FIXME: Implement escape hex codes
-                            // case 'x':
+                        case 'x': {
+                            // Two hexadecimal digits
+                            u32 value = 0;
+                            u32 numDigits = 0;
+                            ins->advanceByte();
+                            for (; numDigits < 2; numDigits++) {
+                                if (!ins->tryMakeBytesAvailable()) {
+                                    handleError(fmt::QuotedString::UnexpectedEndOfFile);
+                                    goto endOfString;
+                                }
+                                u8 digit = fmt::DigitTable[(u8) ins->peekByte()];
+                                if (digit >= 16)
+                                    break;
+                                value = value * 16 + digit;
+                                ins->advanceByte();
+                            }
+                            if (numDigits == 2) {
+                                outs.writeByte((u8) value);
+                            } else {
+                                handleError(fmt::QuotedString::BadEscapeSequence);
+                            }
+                            continue;
+                        }
 
                         default: {
                             handleError(fmt::QuotedString::BadEscapeSequence);
-- 
2.43.0


From bd97338cb64e0551f7cfe7ce1e2a25f990bc71b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:43 +0000
Subject: [PATCH 90/93] fix: Pylon errors at the end of a document could be
 located inside a character

---
 repos/plywood/src/pylon/pylon/pylon/Parse.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/repos/plywood/src/pylon/pylon/pylon/Parse.cpp b/repos/plywood/src/pylon/pylon/pylon/Parse.cpp
index 8c9d0b4..65a55b9 100644
--- a/repos/plywood/src/pylon/pylon/pylon/Parse.cpp
+++ b/repos/plywood/src/pylon/pylon/pylon/Parse.cpp
@@ -55,6 +55,7 @@ void Parser::advanceChar() {
         readOfs++;
         nextUnit = (u8) srcView.bytes[readOfs];
     } else {
+        readOfs = srcView.numBytes;
         nextUnit = -1;
     }
 }
-- 
2.43.0


From 7e31820718d17f8e60548e51376081a87491c4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:43 +0000
Subject: [PATCH 91/93] fix: importing a Pylon document again into an owned or
 saved object leaked or used freed memory

---
 repos/plywood/src/pylon/reflect/pylon-reflect/Import.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/repos/plywood/src/pylon/reflect/pylon-reflect/Import.cpp b/repos/plywood/src/pylon/reflect/pylon-reflect/Import.cpp
index d41d7d3..e50b725 100644
--- a/repos/plywood/src/pylon/reflect/pylon-reflect/Import.cpp
+++ b/repos/plywood/src/pylon/reflect/pylon-reflect/Import.cpp
@@ -210,6 +210,8 @@ PLY_NO_INLINE void convertFrom(AnyObject obj, const Node* aNode,
         PLY_ASSERT(aNode->isObject());
         TypeDescriptorOwner* targetTypeOwner = convertTypeFrom(aNode->get("type"), typeFromName);
         AnySavedObject* savedTypedPtr = (AnySavedObject*) obj.data;
+        // Destroy the previous object before its type
+        savedTypedPtr->owned = AnyOwnedObject{};
         savedTypedPtr->typeOwner = targetTypeOwner;
         savedTypedPtr->owned = AnyObject::create(targetTypeOwner->getRootType());
         convertFrom(savedTypedPtr->owned, aNode->get("value"), typeFromName);
@@ -247,6 +249,7 @@ PLY_NO_INLINE void convertFrom(AnyObject obj, const Node* aNode,
     } else if (obj.type->typeKey == &TypeKey_Owned) {
         auto* ownedDesc = obj.type->cast<TypeDescriptor_Owned>();
         AnyObject created = AnyObject::create(ownedDesc->targetType);
+        AnyObject{*(void**) obj.data, ownedDesc->targetType}.destroy();
         *(void**) obj.data = created.data;
         convertFrom(created, aNode, typeFromName);
     } else {
-- 
2.43.0


From 007cae13058ea079550b52860e9425cbc974e281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:53:54 +0000
Subject: [PATCH 92/93] fix: names and members of synthesized types were leaked

---
 repos/plywood/src/reflect/ply-reflect/TypeDescriptor_Def.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/repos/plywood/src/reflect/ply-reflect/TypeDescriptor_Def.h b/repos/plywood/src/reflect/ply-reflect/TypeDescriptor_Def.h
index fd71063..7eb1cf6 100644
--- a/repos/plywood/src/reflect/ply-reflect/TypeDescriptor_Def.h
+++ b/repos/plywood/src/reflect/ply-reflect/TypeDescriptor_Def.h
@@ -119,6 +119,8 @@ struct TypeDescriptor {
         : typeKey{other.typeKey}, fixedSize{other.fixedSize}, alignment{other.alignment},
           bindings{other.bindings} PLY_METHOD_TABLES_ONLY(, methods{other.methods}) {
     }
+    virtual ~TypeDescriptor() {
+    }
     // Built-in TypeDescriptors exist for the entire process lifetime, including those defined
     // by PLY_STRUCT_BEGIN. The only TypeDescriptors that ever get destroyed are ones that are
     // synthesized at runtime. The lifetime of those TypeDescriptors is managed by a
-- 
2.43.0


From 4fc6535db0a94bc51f4e94d40739ce23d3b9d7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:34 +0000
Subject: [PATCH 93/93] fix: the first empty objects made by several threads at
 the same time could crash

---
 .../src/reflect/ply-reflect/TypeDescriptorOwner.h  | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/repos/plywood/src/reflect/ply-reflect/TypeDescriptorOwner.h b/repos/plywood/src/reflect/ply-reflect/TypeDescriptorOwner.h
index 8474886..f38320e 100644
--- a/repos/plywood/src/reflect/ply-reflect/TypeDescriptorOwner.h
+++ b/repos/plywood/src/reflect/ply-reflect/TypeDescriptorOwner.h
@@ -48,12 +48,14 @@ struct EmptyType {
 template <typename T>
 struct TypeOwnerResolver {
     static TypeDescriptorOwner* get() {
-        static TypeDescriptorOwner owner;
-        if (owner.getRefCount() == 0) {
-            owner.incRef(); // Never deleted
-            PLY_ASSERT(!owner.getRootType());
-            owner.setRootType(getTypeDescriptor<T>());
-        }
+        // The constructor runs exactly once, even if several threads get here at the same time.
+        struct Owner : TypeDescriptorOwner {
+            Owner() {
+                this->incRef(); // Never deleted
+                this->setRootType(getTypeDescriptor<T>());
+            }
+        };
+        static Owner owner;
         return &owner;
     }
 };
-- 
2.43.0

