From 082955c159ea4035a7f43548925e047f9d4f67f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:34 +0000
Subject: [PATCH 01/22] fix: CircularBuffer loses or repeats blocks when it
 wraps or fills up exactly

A full wrapped buffer had next_write == next_read and looked empty, the
reader and the writer disagreed on when to wrap near the end of the block
(stale blocks were popped again, or new ones misread) and the wrap marker
was written past the end of the block if fewer than 4 bytes were left.
---
 gmlc/containers/CircularBuffer.hpp | 69 +++++++++++++++++++-----------
 1 file changed, 45 insertions(+), 24 deletions(-)

diff --git a/gmlc/containers/CircularBuffer.hpp b/gmlc/containers/CircularBuffer.hpp
index 7b91658..bf36ab3 100644
--- a/gmlc/containers/CircularBuffer.hpp
+++ b/gmlc/containers/CircularBuffer.hpp
@@ -29,7 +29,7 @@ namespace containers {
         int capacity() const { return capacity_; }
         bool isSpaceAvailable(int sz) const
         {
-            if (next_write >= next_read) {
+            if (!isWrapped()) {
                 if ((capacity_ - (next_write - origin)) >=
                     static_cast<ptrdiff_t>(sz) + 4) {
                     return true;
@@ -50,28 +50,28 @@ namespace containers {
             if (blockSize <= 0 || data == nullptr) {
                 return false;
             }
-            if (next_write >= next_read) {
+            if (!isWrapped()) {
                 if ((capacity_ - (next_write - origin)) >=
                     static_cast<ptrdiff_t>(blockSize) + 4) {
                     memcpy(next_write, &blockSize, sizeof(int));
                     // *(reinterpret_cast<int *>(next_write)) = blockSize;
                     memcpy(next_write + 4, data, blockSize);
                     next_write += static_cast<ptrdiff_t>(blockSize) + 4;
-                    // loop around if there isn't really space for another block
-                    // of at least 4 bytes and the next_read>origin
-                    if (((capacity_ - (next_write - origin)) < 8) &&
-                        (next_read > origin)) {
-                        next_write = origin;
-                    }
+                    ++blockCount;
                     return true;
                 } else if (
                     (next_read - origin) >=
                     static_cast<ptrdiff_t>(blockSize) + 4) {
-                    int loc = -1;
-                    memcpy(next_write, &loc, sizeof(int));
+                    // mark the loop around, if there is no space for the marker
+                    // the reader loops around on its own
+                    if ((capacity_ - (next_write - origin)) >= 4) {
+                        int loc = -1;
+                        memcpy(next_write, &loc, sizeof(int));
+                    }
                     memcpy(origin, &blockSize, sizeof(int));
                     memcpy(origin + 4, data, blockSize);
                     next_write = origin + blockSize + 4;
+                    ++blockCount;
                     return true;
                 }
             } else if (
@@ -80,55 +80,74 @@ namespace containers {
                 memcpy(next_write, &blockSize, sizeof(int));
                 memcpy(next_write + 4, data, blockSize);
                 next_write += static_cast<ptrdiff_t>(blockSize) + 4;
+                ++blockCount;
                 return true;
             }
             return false;
         }
         int nextDataSize() const
         {
-            if (next_write == next_read) {
+            if (empty()) {
                 return 0;
             }
             int size;
-            memcpy(&size, next_read, sizeof(int));
-            if (size < 0) {
-                memcpy(&size, origin, sizeof(int));
-            }
+            memcpy(&size, nextBlock(), sizeof(int));
             return size;
         }
         /// Return number of bytes read, 0 if no data available and -nextSize if
         /// insuffient space available
         int pop(unsigned char* data, int maxSize)
         {
-            if (next_write == next_read) {
+            if (empty()) {
                 return 0;
             }
             int size;
+            next_read = nextBlock();
             memcpy(&size, next_read, sizeof(int));
-            if (size < 0) {
-                next_read = origin;
-                memcpy(&size, next_read, sizeof(int));
-            }
             if (size <= maxSize) {
                 memcpy(data, next_read + sizeof(int), size);
                 next_read += static_cast<size_t>(size) + sizeof(int);
-                if ((capacity_ - (next_read - origin)) < 8) {
-                    next_read = origin;
+                --blockCount;
+                if (blockCount == 0) {
+                    // nothing left, make the whole buffer available again
+                    clear();
                 }
                 return size;
             }
             return -size;
         }
         /** check if the block is Empty or not*/
-        bool empty() const { return (next_write == next_read); }
+        bool empty() const { return (blockCount == 0); }
         /** clear the buffer*/
-        void clear() { next_write = next_read = origin; }
+        void clear()
+        {
+            next_write = next_read = origin;
+            blockCount = 0;
+        }
 
       private:
+        /** check if the data wraps around the end, in a full buffer the write
+         * location is the same as the read location*/
+        bool isWrapped() const
+        {
+            return (blockCount > 0 && next_write <= next_read);
+        }
+        /** get the location of the next block in a buffer that is not empty*/
+        unsigned char* nextBlock() const
+        {
+            if ((capacity_ - (next_read - origin)) < 4) {
+                return origin;
+            }
+            int size;
+            memcpy(&size, next_read, sizeof(int));
+            return (size < 0) ? origin : next_read;
+        }
+
         unsigned char* origin;
         unsigned char* next_write;
         unsigned char* next_read;
         int capacity_{0};
+        int blockCount{0};  //!< the number of blocks in the buffer
 
       private:
         friend class CircularBuffer;
@@ -160,6 +179,7 @@ namespace containers {
             cb.buffer.origin = nullptr;
             cb.buffer.next_read = nullptr;
             cb.buffer.next_write = nullptr;
+            cb.buffer.blockCount = 0;
         }
         CircularBuffer(const CircularBuffer& cb) :
             data{new unsigned char[cb.actualSize]}, actualSize{cb.actualSize},
@@ -194,6 +214,7 @@ namespace containers {
             cb.buffer.origin = nullptr;
             cb.buffer.next_read = nullptr;
             cb.buffer.next_write = nullptr;
+            cb.buffer.blockCount = 0;
             cb.data = nullptr;
             cb.actualSize = 0;
             cb.actualCapacity = 0;
-- 
2.43.0


From 5429cd55d1cdb5de9d2d6ff9cb60f000225cbd9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:34 +0000
Subject: [PATCH 02/22] fix: CircularBuffer and StackBuffer storage ownership

A copy of an empty default CircularBuffer kept a pointer to a released
block, buffers created with size 0 leaked their block, and a moved-from
StackBuffer kept the capacity of the block it gave away.
---
 gmlc/containers/CircularBuffer.hpp | 17 +++++------------
 gmlc/containers/StackBuffer.hpp    | 10 ++++------
 2 files changed, 9 insertions(+), 18 deletions(-)

diff --git a/gmlc/containers/CircularBuffer.hpp b/gmlc/containers/CircularBuffer.hpp
index bf36ab3..9f9c6d8 100644
--- a/gmlc/containers/CircularBuffer.hpp
+++ b/gmlc/containers/CircularBuffer.hpp
@@ -162,12 +162,7 @@ namespace containers {
             actualCapacity{size}, buffer(data, size)
         {
         }
-        ~CircularBuffer()
-        {
-            if (actualCapacity > 0) {
-                delete[] data;
-            }
-        }
+        ~CircularBuffer() { delete[] data; }
         CircularBuffer(CircularBuffer&& cb) noexcept :
             data{cb.data}, actualSize(cb.actualSize),
             actualCapacity(cb.actualCapacity), buffer(std::move(cb.buffer))
@@ -194,6 +189,7 @@ namespace containers {
                 buffer.next_write = buffer.origin + write_offset;
             } else {
                 delete[] data;
+                data = nullptr;
                 actualSize = 0;
                 actualCapacity = 0;
             }
@@ -336,13 +332,10 @@ namespace containers {
         {
             if (newsize > actualCapacity) {
                 auto buf = new unsigned char[newsize];
-                if (actualCapacity > 0) {
-                    if (copyData) {
-                        memcpy(buf, data, actualSize);
-                    }
-
-                    delete[] data;
+                if (actualCapacity > 0 && copyData) {
+                    memcpy(buf, data, actualSize);
                 }
+                delete[] data;
                 data = buf;
                 actualCapacity = newsize;
             }
diff --git a/gmlc/containers/StackBuffer.hpp b/gmlc/containers/StackBuffer.hpp
index 7659a00..a9b1b76 100644
--- a/gmlc/containers/StackBuffer.hpp
+++ b/gmlc/containers/StackBuffer.hpp
@@ -192,6 +192,7 @@ blocks of raw data
             stack = std::move(sq.stack);
             sq.data = nullptr;
             sq.statedSize = 0;
+            sq.actualCapacity = 0;
             sq.stack.dataSize = 0;
             sq.stack.origin = nullptr;
             sq.stack.next = nullptr;
@@ -315,13 +316,10 @@ blocks of raw data
             }
             if (newsize > actualCapacity) {
                 auto buf = new unsigned char[newsize];
-                if (actualCapacity > 0) {
-                    if (copyData) {
-                        memcpy(buf, data, statedSize);
-                    }
-
-                    delete[] data;
+                if (actualCapacity > 0 && copyData) {
+                    memcpy(buf, data, statedSize);
                 }
+                delete[] data;
                 data = buf;
                 actualCapacity = newsize;
             }
-- 
2.43.0


From d55a9fabd87dbbeb7028f76aae8b15d4e679d64c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:04 +0000
Subject: [PATCH 03/22] fix: StackBuffer::resize with data in the stack leaves
 no free space

The write location was moved to the end of the resized block instead of
staying after the current data.
---
 gmlc/containers/StackBuffer.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gmlc/containers/StackBuffer.hpp b/gmlc/containers/StackBuffer.hpp
index a9b1b76..27826ee 100644
--- a/gmlc/containers/StackBuffer.hpp
+++ b/gmlc/containers/StackBuffer.hpp
@@ -227,6 +227,7 @@ blocks of raw data
                 resizeMemory(newsize);
                 stack = StackBufferRaw(data, newsize);
             } else if (newsize > statedSize) {
+                int dataOffset = static_cast<int>(stack.next - stack.origin);
                 resizeMemory(newsize);
                 int indexOffset = stack.dataSize - diSize * stack.dataCount;
                 int newOffset = newsize - diSize * stack.dataCount;
@@ -237,7 +238,7 @@ blocks of raw data
                         static_cast<size_t>(stack.dataCount));
                 stack.dataSize = newsize;
                 stack.origin = data;
-                stack.next = stack.origin + newsize;
+                stack.next = stack.origin + dataOffset;
                 stack.nextIndex = reinterpret_cast<dataIndex*>(
                     stack.origin + stack.dataSize - diSize);
                 stack.nextIndex -= stack.dataCount;
@@ -258,7 +259,7 @@ blocks of raw data
                         static_cast<size_t>(stack.dataCount));
                 stack.dataSize = newsize;
                 stack.origin = data;
-                stack.next = stack.origin + newsize;
+                stack.next = stack.origin + dataOffset;
                 stack.nextIndex = reinterpret_cast<dataIndex*>(
                     stack.origin + stack.dataSize - diSize);
                 stack.nextIndex -= stack.dataCount;
-- 
2.43.0


From 9f36a8e3f0d97febc0bb5604747ce674d2061089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:30 +0000
Subject: [PATCH 04/22] fix: copying a StableBlockVector that has storage but
 no elements

The copy had a block table without any block and its destructor then destroyed
elements through the table entry before the first one.
---
 gmlc/containers/StableBlockVector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gmlc/containers/StableBlockVector.hpp b/gmlc/containers/StableBlockVector.hpp
index c7b3bd7..2cee1a1 100644
--- a/gmlc/containers/StableBlockVector.hpp
+++ b/gmlc/containers/StableBlockVector.hpp
@@ -81,7 +81,7 @@ no erase or insert
 
         StableBlockVector(const StableBlockVector& sbv)
         {
-            if (sbv.dataptr != nullptr) {
+            if (!sbv.empty()) {
                 dataptr = new X*[sbv.dataSlotsAvailable];
                 dataSlotsAvailable = sbv.dataSlotsAvailable;
                 dataSlotIndex = -1;
-- 
2.43.0


From b9c033c2419896bfc8a36df0ffca610d5d011598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:30 +0000
Subject: [PATCH 05/22] fix: StableBlockVector and StableBlockDeque can be used
 after being moved from

The moved-from container kept element counts and block positions that refer to
the storage it no longer has.
---
 gmlc/containers/StableBlockDeque.hpp  | 8 ++++++++
 gmlc/containers/StableBlockVector.hpp | 9 +++++++--
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/gmlc/containers/StableBlockDeque.hpp b/gmlc/containers/StableBlockDeque.hpp
index 7414757..b0478ed 100644
--- a/gmlc/containers/StableBlockDeque.hpp
+++ b/gmlc/containers/StableBlockDeque.hpp
@@ -143,6 +143,10 @@ and deallocate methods)*/
             sbd.dataSlotsAvailable = 0;
             sbd.dataptr = nullptr;
             sbd.fsize = -1;
+            sbd.bsize = blockSize;
+            sbd.dataSlotFront = 0;
+            sbd.dataSlotBack = 0;
+            sbd.freeIndex = 0;
             sbd.csize = 0;
         }
 
@@ -170,6 +174,10 @@ and deallocate methods)*/
             sbd.dataSlotsAvailable = 0;
             sbd.dataptr = nullptr;
             sbd.fsize = -1;
+            sbd.bsize = blockSize;
+            sbd.dataSlotFront = 0;
+            sbd.dataSlotBack = 0;
+            sbd.freeIndex = 0;
             sbd.csize = 0;
             return *this;
         }
diff --git a/gmlc/containers/StableBlockVector.hpp b/gmlc/containers/StableBlockVector.hpp
index 2cee1a1..adcbed2 100644
--- a/gmlc/containers/StableBlockVector.hpp
+++ b/gmlc/containers/StableBlockVector.hpp
@@ -100,9 +100,10 @@ no erase or insert
             sbv.freeSlotsAvailable = 0;
             sbv.dataSlotsAvailable = 0;
             sbv.dataptr = nullptr;
-            sbv.bsize = 0;
-            sbv.dataSlotIndex = -1;
+            sbv.bsize = blockSize;
+            sbv.dataSlotIndex = 0;
             sbv.csize = 0;
+            sbv.freeIndex = 0;
         }
 
         StableBlockVector& operator=(const StableBlockVector& sbv)
@@ -126,6 +127,10 @@ no erase or insert
             sbv.freeSlotsAvailable = 0;
             sbv.dataSlotsAvailable = 0;
             sbv.dataptr = nullptr;
+            sbv.bsize = blockSize;
+            sbv.dataSlotIndex = 0;
+            sbv.csize = 0;
+            sbv.freeIndex = 0;
 
             return *this;
         }
-- 
2.43.0


From a8f4a68af83b29065516f62915d63e67a138b99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:30 +0000
Subject: [PATCH 06/22] fix: end() of the block containers reads past the block
 table

When the last block is full end() refers to the table entry after it, which does
not exist if the table is full and was never initialised otherwise.
---
 gmlc/containers/StableBlockDeque.hpp  | 21 +++++++++++++--------
 gmlc/containers/StableBlockVector.hpp | 10 ++++++----
 2 files changed, 19 insertions(+), 12 deletions(-)

diff --git a/gmlc/containers/StableBlockDeque.hpp b/gmlc/containers/StableBlockDeque.hpp
index b0478ed..a07119e 100644
--- a/gmlc/containers/StableBlockDeque.hpp
+++ b/gmlc/containers/StableBlockDeque.hpp
@@ -50,7 +50,7 @@ and deallocate methods)*/
         /** construct with a specified size*/
         StableBlockDeque(size_t startSize, const X& init = X{}) :
             csize(startSize),
-            dataptr(new X*[std::max((startSize >> N) + 2, size_t{64})]),
+            dataptr(new X*[std::max((startSize >> N) + 2, size_t{64}) + 1]()),
             dataSlotsAvailable(
                 std::max(static_cast<int>(startSize >> N) + 2, 64))
         {
@@ -111,9 +111,11 @@ and deallocate methods)*/
         }
 
         StableBlockDeque(const StableBlockDeque& sbd) :
-            dataptr(new X*[std::max(
-                static_cast<size_t>(sbd.dataSlotsAvailable),
-                size_t{64})]),
+            dataptr(new X*
+                        [std::max(
+                             static_cast<size_t>(sbd.dataSlotsAvailable),
+                             size_t{64}) +
+                         1]()),
             dataSlotsAvailable(std::max(sbd.dataSlotsAvailable, 64))
         {
             if (sbd.dataptr != nullptr) {
@@ -484,7 +486,7 @@ and deallocate methods)*/
         {
             if (bsize >= static_cast<int>(blockSize)) {
                 if (0 == dataSlotsAvailable) {
-                    dataptr = new X*[64];
+                    dataptr = new X*[64 + 1]();
                     dataSlotsAvailable = 64;
                     dataSlotFront = dataSlotBack = 30;
                     fsize = blockSize / 2 - 1;
@@ -503,7 +505,8 @@ and deallocate methods)*/
                         dataSlotBack = dataSlotFront + diff;
                     } else {
                         auto mem =
-                            new X*[static_cast<size_t>(dataSlotsAvailable) * 2];
+                            new X*[static_cast<size_t>(dataSlotsAvailable) * 2 +
+                                   1]();
                         std::copy(dataptr, dataptr + dataSlotsAvailable, mem);
                         delete[] dataptr;
                         dataptr = mem;
@@ -519,7 +522,7 @@ and deallocate methods)*/
         {
             if (fsize < 0) {
                 if (0 == dataSlotsAvailable) {
-                    dataptr = new X*[64];
+                    dataptr = new X*[64 + 1]();
                     dataSlotsAvailable = 64;
                     dataSlotFront = dataSlotBack = 30;
                     fsize = blockSize / 2 - 1;
@@ -539,7 +542,8 @@ and deallocate methods)*/
                         dataSlotFront = (dataSlotsAvailable - dataSlotBack) / 2;
                     } else {
                         auto mem =
-                            new X*[static_cast<std::size_t>(dataSlotsAvailable) * 2];
+                            new X*[static_cast<size_t>(dataSlotsAvailable) * 2 +
+                                   1]();
                         std::copy(
                             dataptr,
                             dataptr + dataSlotBack + 1,
@@ -624,6 +628,7 @@ and deallocate methods)*/
 
       private:
         size_t csize{0};  // 8
+        // one entry more than dataSlotsAvailable so end() can refer to it
         X** dataptr{nullptr};  // 16
         int dataSlotsAvailable{0};  // 20
         int dataSlotBack{0};  // 24
diff --git a/gmlc/containers/StableBlockVector.hpp b/gmlc/containers/StableBlockVector.hpp
index adcbed2..1d8d070 100644
--- a/gmlc/containers/StableBlockVector.hpp
+++ b/gmlc/containers/StableBlockVector.hpp
@@ -53,7 +53,7 @@ no erase or insert
             const X& init =
                 X{}) noexcept(std::is_nothrow_copy_constructible<X>::value) :
             csize(startSize),
-            dataptr(new X*[std::max((startSize >> N) + 1, size_t{64})]),
+            dataptr(new X*[std::max((startSize >> N) + 1, size_t{64}) + 1]()),
             dataSlotsAvailable(
                 std::max(static_cast<int>(startSize >> N) + 1, 64)),
             dataSlotIndex(static_cast<int>(startSize >> N)),
@@ -82,7 +82,7 @@ no erase or insert
         StableBlockVector(const StableBlockVector& sbv)
         {
             if (!sbv.empty()) {
-                dataptr = new X*[sbv.dataSlotsAvailable];
+                dataptr = new X*[sbv.dataSlotsAvailable + 1]();
                 dataSlotsAvailable = sbv.dataSlotsAvailable;
                 dataSlotIndex = -1;
                 assign(sbv.begin(), sbv.end());
@@ -384,12 +384,13 @@ no erase or insert
         {
             if (bsize >= static_cast<int>(blockSize)) {
                 if (0 == dataSlotsAvailable) {
-                    dataptr = new X*[64];
+                    dataptr = new X*[64 + 1]();
                     dataSlotsAvailable = 64;
                     dataSlotIndex = -1;
                 } else if (dataSlotIndex >= dataSlotsAvailable - 1) {
                     auto mem =
-                        new X*[static_cast<size_t>(dataSlotsAvailable) * 2];
+                        new X*[static_cast<size_t>(dataSlotsAvailable) * 2 +
+                               1]();
                     std::copy(dataptr, dataptr + dataSlotsAvailable, mem);
                     delete[] dataptr;
                     dataptr = mem;
@@ -429,6 +430,7 @@ no erase or insert
 
       private:
         size_t csize{0};  // 8
+        // one entry more than dataSlotsAvailable so end() can refer to it
         X** dataptr{nullptr};  // 16
         int dataSlotsAvailable{0};  // 20
         int dataSlotIndex{0};  // 24
-- 
2.43.0


From 09edb8d14cae8d42f7d13df217d885c760ad019c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:30 +0000
Subject: [PATCH 07/22] fix: BlockIterator difference_type and negative
 movements

The difference type was the element type, and += or -= with a negative movement
across a block boundary left the iterator outside its block.
---
 gmlc/containers/BlockIterator.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gmlc/containers/BlockIterator.hpp b/gmlc/containers/BlockIterator.hpp
index f848f92..42c5dc4 100644
--- a/gmlc/containers/BlockIterator.hpp
+++ b/gmlc/containers/BlockIterator.hpp
@@ -25,7 +25,7 @@ namespace containers {
       public:
         using iterator_category = std::bidirectional_iterator_tag;
         using value_type = X;
-        using difference_type = X;
+        using difference_type = std::ptrdiff_t;
         using pointer = const typename std::remove_const<X>::type*;
         using reference = const typename std::remove_const<X>::type&;
         using constref = const typename std::remove_const<X>::type;
@@ -76,6 +76,7 @@ namespace containers {
             ptr += movement;
             offset += static_cast<int>(movement);
             check();
+            checkNeg();
             return (*this);
         }
         BlockIterator& operator++()
@@ -101,6 +102,7 @@ namespace containers {
         {
             ptr -= movement;
             offset -= static_cast<int>(movement);
+            check();
             checkNeg();
             return (*this);
         }
-- 
2.43.0


From 7039229786a193bd08eae0312068a64646e879b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:30 +0000
Subject: [PATCH 08/22] fix: StableBlockDeque layouts without elements

A deque constructed with size 0 or copied from a deque without storage had its
back position one too low, so the first element pushed at the back was not the
front; push_front on a deque without storage wrote before its block for N=0.
---
 gmlc/containers/StableBlockDeque.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/gmlc/containers/StableBlockDeque.hpp b/gmlc/containers/StableBlockDeque.hpp
index a07119e..871d3d4 100644
--- a/gmlc/containers/StableBlockDeque.hpp
+++ b/gmlc/containers/StableBlockDeque.hpp
@@ -58,7 +58,8 @@ and deallocate methods)*/
             if (startSize == 0) {
                 dataSlotFront = dataSlotBack = 30;
                 dataptr[30] = a.allocate(blockSize);
-                bsize = fsize = blockSize / 2;
+                fsize = blockSize / 2;
+                bsize = fsize + 1;
             } else {
                 int blocks = static_cast<int>((startSize >> N));
                 if (blocks > 0) {
@@ -129,7 +130,8 @@ and deallocate methods)*/
                 Allocator a;
                 dataSlotFront = dataSlotBack = 30;
                 dataptr[30] = a.allocate(blockSize);
-                bsize = fsize = blockSize / 2;
+                fsize = blockSize / 2;
+                bsize = fsize + 1;
             }
         }
         StableBlockDeque(StableBlockDeque&& sbd) noexcept :
@@ -525,7 +527,7 @@ and deallocate methods)*/
                     dataptr = new X*[64 + 1]();
                     dataSlotsAvailable = 64;
                     dataSlotFront = dataSlotBack = 30;
-                    fsize = blockSize / 2 - 1;
+                    fsize = blockSize / 2;
                     bsize = fsize + 1;
                     dataptr[dataSlotBack] = getNewBlock();
                     return;
-- 
2.43.0


From 84f0bf1ad1e79356e93bf56cec6bdc07b7c8b218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:30 +0000
Subject: [PATCH 09/22] fix: StableBlockDeque::clear destroys slots that hold
 no element

With all elements in one block it also destroyed the unused slots before the
first element.
---
 gmlc/containers/StableBlockDeque.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gmlc/containers/StableBlockDeque.hpp b/gmlc/containers/StableBlockDeque.hpp
index 871d3d4..fa5909e 100644
--- a/gmlc/containers/StableBlockDeque.hpp
+++ b/gmlc/containers/StableBlockDeque.hpp
@@ -333,7 +333,9 @@ and deallocate methods)*/
             if (dataSlotsAvailable == 0 || csize == 0) {
                 return;
             }
-            for (int jj = bsize - 1; jj >= 0;
+            const int lastStart =
+                (dataSlotFront == dataSlotBack) ? fsize + 1 : 0;
+            for (int jj = bsize - 1; jj >= lastStart;
                  --jj) {  // call destructors on the last block
                 dataptr[dataSlotBack][jj].~X();
             }
-- 
2.43.0


From 9672d1f7ed1b8752beb993129916cab0c9431eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:48 +0000
Subject: [PATCH 10/22] fix: block containers stay consistent when an element
 constructor throws

The slot was counted as used before the element was constructed in it, so a slot
that never held an element was destroyed later.
---
 gmlc/containers/StableBlockDeque.hpp  | 18 ++++++++++++------
 gmlc/containers/StableBlockVector.hpp |  9 ++++++---
 2 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/gmlc/containers/StableBlockDeque.hpp b/gmlc/containers/StableBlockDeque.hpp
index fa5909e..0dc02f7 100644
--- a/gmlc/containers/StableBlockDeque.hpp
+++ b/gmlc/containers/StableBlockDeque.hpp
@@ -192,21 +192,24 @@ and deallocate methods)*/
         void emplace_back(Args&&... args)
         {
             blockCheck();
-            new (&(dataptr[dataSlotBack][bsize++]))
+            new (&(dataptr[dataSlotBack][bsize]))
                 X(std::forward<Args>(args)...);
+            ++bsize;
             ++csize;
         }
 
         void push_back(const X& val)
         {
             blockCheck();
-            new (&(dataptr[dataSlotBack][bsize++])) X{val};
+            new (&(dataptr[dataSlotBack][bsize])) X{val};
+            ++bsize;
             ++csize;
         }
         void push_back(X&& val)
         {
             blockCheck();
-            new (&(dataptr[dataSlotBack][bsize++])) X{std::move(val)};
+            new (&(dataptr[dataSlotBack][bsize])) X{std::move(val)};
+            ++bsize;
             ++csize;
         }
 
@@ -229,21 +232,24 @@ and deallocate methods)*/
         void emplace_front(Args&&... args)
         {
             blockCheckFront();
-            new (&(dataptr[dataSlotFront][fsize--]))
+            new (&(dataptr[dataSlotFront][fsize]))
                 X(std::forward<Args>(args)...);
+            --fsize;
             ++csize;
         }
 
         void push_front(const X& val)
         {
             blockCheckFront();
-            new (&(dataptr[dataSlotFront][fsize--])) X{val};
+            new (&(dataptr[dataSlotFront][fsize])) X{val};
+            --fsize;
             ++csize;
         }
         void push_front(X&& val)
         {
             blockCheckFront();
-            new (&(dataptr[dataSlotFront][fsize--])) X{std::move(val)};
+            new (&(dataptr[dataSlotFront][fsize])) X{std::move(val)};
+            --fsize;
             ++csize;
         }
 
diff --git a/gmlc/containers/StableBlockVector.hpp b/gmlc/containers/StableBlockVector.hpp
index 1d8d070..e8b76c6 100644
--- a/gmlc/containers/StableBlockVector.hpp
+++ b/gmlc/containers/StableBlockVector.hpp
@@ -141,8 +141,9 @@ no erase or insert
         void emplace_back(Args&&... args)
         {
             blockCheck();
-            new (&(dataptr[dataSlotIndex][bsize++]))
+            new (&(dataptr[dataSlotIndex][bsize]))
                 X(std::forward<Args>(args)...);
+            ++bsize;
             ++csize;
         }
 
@@ -150,14 +151,16 @@ no erase or insert
             std::is_nothrow_copy_constructible<X>::value)
         {
             blockCheck();
-            new (&(dataptr[dataSlotIndex][bsize++])) X{val};
+            new (&(dataptr[dataSlotIndex][bsize])) X{val};
+            ++bsize;
             ++csize;
         }
         void push_back(X&& val) noexcept(
             std::is_nothrow_move_constructible<X>::value)
         {
             blockCheck();
-            new (&(dataptr[dataSlotIndex][bsize++])) X{std::move(val)};
+            new (&(dataptr[dataSlotIndex][bsize])) X{std::move(val)};
+            ++bsize;
             ++csize;
         }
 
-- 
2.43.0


From ebc2f695185fc3b705968e539198339ec88d5c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:11 +0000
Subject: [PATCH 11/22] fix: mapped vectors drop exactly the search terms of a
 removed element

---
 gmlc/containers/DualMappedPointerVector.hpp | 78 +++++----------------
 gmlc/containers/MappedPointerVector.hpp     | 27 +++----
 gmlc/containers/MappedVector.hpp            | 28 +++-----
 gmlc/containers/StringMappedVector.hpp      | 28 +++-----
 4 files changed, 45 insertions(+), 116 deletions(-)

diff --git a/gmlc/containers/DualMappedPointerVector.hpp b/gmlc/containers/DualMappedPointerVector.hpp
index 5f47c19..701fdb3 100644
--- a/gmlc/containers/DualMappedPointerVector.hpp
+++ b/gmlc/containers/DualMappedPointerVector.hpp
@@ -251,29 +251,25 @@ namespace containers {
                 return;
             }
             dataStorage.erase(dataStorage.begin() + index);
-            searchType1 ind1;
-            searchType2 ind2;
-            for (auto& el2 : lookup1) {
-                if (el2.second > index) {
-                    el2.second -= 1;
-                } else if (el2.second == index) {
-                    ind1 = el2.first;
+            for (auto el2 = lookup1.begin(); el2 != lookup1.end();) {
+                if (el2->second == index) {
+                    el2 = lookup1.erase(el2);
+                    continue;
                 }
-            }
-            for (auto& el2 : lookup2) {
-                if (el2.second > index) {
-                    el2.second -= 1;
-                } else if (el2.second == index) {
-                    ind2 = el2.first;
+                if (el2->second > index) {
+                    el2->second -= 1;
                 }
+                ++el2;
             }
-            auto fnd1 = lookup1.find(ind1);
-            if (fnd1 != lookup1.end()) {
-                lookup1.erase(fnd1);
-            }
-            auto fnd2 = lookup2.find(ind2);
-            if (fnd2 != lookup2.end()) {
-                lookup2.erase(fnd2);
+            for (auto el2 = lookup2.begin(); el2 != lookup2.end();) {
+                if (el2->second == index) {
+                    el2 = lookup2.erase(el2);
+                    continue;
+                }
+                if (el2->second > index) {
+                    el2->second -= 1;
+                }
+                ++el2;
             }
         }
 
@@ -283,26 +279,7 @@ namespace containers {
             if (el == lookup1.end()) {
                 return;
             }
-            auto index = el->second;
-            dataStorage.erase(dataStorage.begin() + index);
-            for (auto& el2 : lookup1) {
-                if (el2.second > index) {
-                    el2.second -= 1;
-                }
-            }
-            lookup1.erase(el);
-            searchType2 ind2;
-            for (auto& el2 : lookup2) {
-                if (el2.second > index) {
-                    el2.second -= 1;
-                } else if (el2.second == index) {
-                    ind2 = el2.first;
-                }
-            }
-            auto fnd2 = lookup2.find(ind2);
-            if (fnd2 != lookup2.end()) {
-                lookup2.erase(fnd2);
-            }
+            removeIndex(el->second);
         }
 
         void remove(const searchType2& search)
@@ -311,26 +288,7 @@ namespace containers {
             if (el == lookup2.end()) {
                 return;
             }
-            auto index = el->second;
-            dataStorage.erase(dataStorage.begin() + index);
-            for (auto& el2 : lookup2) {
-                if (el2.second > index) {
-                    el2.second -= 1;
-                }
-            }
-            lookup2.erase(el);
-            searchType1 ind1;
-            for (auto& el2 : lookup1) {
-                if (el2.second > index) {
-                    el2.second -= 1;
-                } else if (el2.second == index) {
-                    ind1 = el2.first;
-                }
-            }
-            auto fnd1 = lookup1.find(ind1);
-            if (fnd1 != lookup1.end()) {
-                lookup1.erase(fnd1);
-            }
+            removeIndex(el->second);
         }
 
         /** apply a function to all the values
diff --git a/gmlc/containers/MappedPointerVector.hpp b/gmlc/containers/MappedPointerVector.hpp
index d2ee9fc..b6d55a0 100644
--- a/gmlc/containers/MappedPointerVector.hpp
+++ b/gmlc/containers/MappedPointerVector.hpp
@@ -137,17 +137,15 @@ class MappedPointerVector {
             return;
         }
         dataStorage.erase(dataStorage.begin() + index);
-        searchType ind;
-        for (auto& el2 : lookup) {
-            if (el2.second > index) {
-                el2.second -= 1;
-            } else if (el2.second == index) {
-                ind = el2.first;
+        for (auto el2 = lookup.begin(); el2 != lookup.end();) {
+            if (el2->second == index) {
+                el2 = lookup.erase(el2);
+                continue;
             }
-        }
-        auto fnd = lookup.find(ind);
-        if (fnd != lookup.end()) {
-            lookup.erase(fnd);
+            if (el2->second > index) {
+                el2->second -= 1;
+            }
+            ++el2;
         }
     }
     /** remove an element based on the lookup index*/
@@ -157,14 +155,7 @@ class MappedPointerVector {
         if (el == lookup.end()) {
             return;
         }
-        auto index = el->second;
-        dataStorage.erase(dataStorage.begin() + index);
-        for (auto& el2 : lookup) {
-            if (el2.second > index) {
-                el2.second -= 1;
-            }
-        }
-        lookup.erase(el);
+        removeIndex(el->second);
     }
 
     /** apply a function to all the values
diff --git a/gmlc/containers/MappedVector.hpp b/gmlc/containers/MappedVector.hpp
index 0266b70..2083d3a 100644
--- a/gmlc/containers/MappedVector.hpp
+++ b/gmlc/containers/MappedVector.hpp
@@ -135,17 +135,15 @@ limited to no removal since removal is a rather expensive operation
                 return;
             }
             auto erased = localErase(dataStorage, index);
-            searchType ind;
-            for (auto& el2 : lookup) {
-                if (erased && el2.second > index) {
-                    el2.second -= 1;
-                } else if (el2.second == index) {
-                    ind = el2.first;
+            for (auto el2 = lookup.begin(); el2 != lookup.end();) {
+                if (el2->second == index) {
+                    el2 = lookup.erase(el2);
+                    continue;
                 }
-            }
-            auto fnd = lookup.find(ind);
-            if (fnd != lookup.end()) {
-                lookup.erase(fnd);
+                if (erased && el2->second > index) {
+                    el2->second -= 1;
+                }
+                ++el2;
             }
         }
 
@@ -155,15 +153,7 @@ limited to no removal since removal is a rather expensive operation
             if (el == lookup.end()) {
                 return;
             }
-            auto index = el->second;
-            if (localErase(dataStorage, index)) {
-                for (auto& el2 : lookup) {
-                    if (el2.second > index) {
-                        el2.second -= 1;
-                    }
-                }
-            }
-            lookup.erase(el);
+            removeIndex(el->second);
         }
 
         /** apply a function to all the values
diff --git a/gmlc/containers/StringMappedVector.hpp b/gmlc/containers/StringMappedVector.hpp
index 2fce174..a915bea 100644
--- a/gmlc/containers/StringMappedVector.hpp
+++ b/gmlc/containers/StringMappedVector.hpp
@@ -124,17 +124,15 @@ with limited to no removal since removal is a rather expensive operation
                 return;
             }
             auto erased = localErase(dataStorage, index);
-            std::string_view ind;
-            for (auto& el2 : lookup) {
-                if (erased && el2.second > index) {
-                    el2.second -= 1;
-                } else if (el2.second == index) {
-                    ind = el2.first;
+            for (auto el2 = lookup.begin(); el2 != lookup.end();) {
+                if (el2->second == index) {
+                    el2 = lookup.erase(el2);
+                    continue;
                 }
-            }
-            auto fnd = lookup.find(ind);
-            if (fnd != lookup.end()) {
-                lookup.erase(fnd);
+                if (erased && el2->second > index) {
+                    el2->second -= 1;
+                }
+                ++el2;
             }
         }
 
@@ -144,15 +142,7 @@ with limited to no removal since removal is a rather expensive operation
             if (el == lookup.end()) {
                 return;
             }
-            auto index = el->second;
-            if (localErase(dataStorage, index)) {
-                for (auto& el2 : lookup) {
-                    if (el2.second > index) {
-                        el2.second -= 1;
-                    }
-                }
-            }
-            lookup.erase(el);
+            removeIndex(el->second);
         }
 
         /** apply a function to all the values
-- 
2.43.0


From 42c1fda299469b5b50729eb3cfd1d76ead970c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:11 +0000
Subject: [PATCH 12/22] fix: DualMappedPointerVector::at does not compile

---
 gmlc/containers/DualMappedPointerVector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gmlc/containers/DualMappedPointerVector.hpp b/gmlc/containers/DualMappedPointerVector.hpp
index 701fdb3..1783dfa 100644
--- a/gmlc/containers/DualMappedPointerVector.hpp
+++ b/gmlc/containers/DualMappedPointerVector.hpp
@@ -239,7 +239,7 @@ namespace containers {
                                                   nullptr;
         }
 
-        VType* at(size_t index) const { return dataStorage.at(index); }
+        VType* at(size_t index) const { return dataStorage.at(index).get(); }
 
         /** get a pointer to the last element inserted*/
         VType* back() { return dataStorage.back().get(); }
-- 
2.43.0


From b594cd440ed216e65878eecddb0f960b2a271b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:11 +0000
Subject: [PATCH 13/22] fix: removal in string mapped vectors with unstable
 references

---
 gmlc/containers/DualStringMappedVector.hpp | 5 +++++
 gmlc/containers/StringMappedVector.hpp     | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/gmlc/containers/DualStringMappedVector.hpp b/gmlc/containers/DualStringMappedVector.hpp
index 1664a3d..baf86c1 100644
--- a/gmlc/containers/DualStringMappedVector.hpp
+++ b/gmlc/containers/DualStringMappedVector.hpp
@@ -412,6 +412,11 @@ or by numerical index
         }
 
       private:
+        bool localErase(std::vector<VType>& vect, size_t index)
+        {
+            vect.erase(vect.begin() + index);
+            return true;
+        }
         bool localErase(
             StableBlockVector<VType, BLOCK_ORDER>& vect,
             size_t index)
diff --git a/gmlc/containers/StringMappedVector.hpp b/gmlc/containers/StringMappedVector.hpp
index a915bea..a95eb51 100644
--- a/gmlc/containers/StringMappedVector.hpp
+++ b/gmlc/containers/StringMappedVector.hpp
@@ -191,6 +191,11 @@ with limited to no removal since removal is a rather expensive operation
         }
 
       private:
+        bool localErase(std::vector<VType>& vect, size_t index)
+        {
+            vect.erase(vect.begin() + index);
+            return true;
+        }
         bool localErase(
             StableBlockVector<VType, BLOCK_ORDER>& vect,
             size_t index)
-- 
2.43.0


From 2a80ed57e39256dc0a726a9f9ba69622106a9575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:08 +0000
Subject: [PATCH 14/22] fix: copies of string mapped vectors keep their own
 names

---
 gmlc/containers/DualStringMappedVector.hpp | 22 ++++++++++++++++++++++
 gmlc/containers/StringMappedVector.hpp     | 22 ++++++++++++++++++++++
 2 files changed, 44 insertions(+)

diff --git a/gmlc/containers/DualStringMappedVector.hpp b/gmlc/containers/DualStringMappedVector.hpp
index baf86c1..121be9c 100644
--- a/gmlc/containers/DualStringMappedVector.hpp
+++ b/gmlc/containers/DualStringMappedVector.hpp
@@ -38,6 +38,28 @@ or by numerical index
             !std::is_same<std::string, searchType2>::value,
             "searchType1 and searchType2 cannot be the same type");
 
+        DualStringMappedVector() = default;
+        DualStringMappedVector(DualStringMappedVector&&) = default;
+        DualStringMappedVector& operator=(DualStringMappedVector&&) = default;
+        ~DualStringMappedVector() = default;
+        /** copy constructor, the names are copied as well since the lookup
+         * refers to them*/
+        DualStringMappedVector(const DualStringMappedVector& other) :
+            dataStorage(other.dataStorage), lookup2(other.lookup2)
+        {
+            for (const auto& term : other.lookup1) {
+                names.emplace_back(term.first);
+                lookup1.emplace(names.back(), term.second);
+            }
+        }
+        DualStringMappedVector& operator=(const DualStringMappedVector& other)
+        {
+            if (this != &other) {
+                *this = DualStringMappedVector(other);
+            }
+            return *this;
+        }
+
         /** insert a new element into the vector
     @param searchValue1 the primary unique index of the vector
     @param searchValue2 the secondary unique index of the vector
diff --git a/gmlc/containers/StringMappedVector.hpp b/gmlc/containers/StringMappedVector.hpp
index a95eb51..f91be96 100644
--- a/gmlc/containers/StringMappedVector.hpp
+++ b/gmlc/containers/StringMappedVector.hpp
@@ -30,6 +30,28 @@ with limited to no removal since removal is a rather expensive operation
         int BLOCK_ORDER = 5>
     class StringMappedVector {
       public:
+        StringMappedVector() = default;
+        StringMappedVector(StringMappedVector&&) = default;
+        StringMappedVector& operator=(StringMappedVector&&) = default;
+        ~StringMappedVector() = default;
+        /** copy constructor, the names are copied as well since the lookup
+         * refers to them*/
+        StringMappedVector(const StringMappedVector& other) :
+            dataStorage(other.dataStorage)
+        {
+            for (const auto& term : other.lookup) {
+                names.emplace_back(term.first);
+                lookup.emplace(names.back(), term.second);
+            }
+        }
+        StringMappedVector& operator=(const StringMappedVector& other)
+        {
+            if (this != &other) {
+                *this = StringMappedVector(other);
+            }
+            return *this;
+        }
+
         /** insert an element into the mapped vector
     @param searchValue the unique name to use for the value if it exists the
     existing value is replaced
-- 
2.43.0


From 4adac2c6f028e35c5f5ddc0bbf89fff0421e13bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:32 +0000
Subject: [PATCH 15/22] fix: pushing an empty vector marks an empty SimpleQueue
 as not empty

---
 gmlc/containers/SimpleQueue.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gmlc/containers/SimpleQueue.hpp b/gmlc/containers/SimpleQueue.hpp
index 67a9467..f9fcadb 100644
--- a/gmlc/containers/SimpleQueue.hpp
+++ b/gmlc/containers/SimpleQueue.hpp
@@ -152,7 +152,7 @@ atomic flag indicating the queue is empty
                 if (pullElements.empty()) {
                     pullElements.insert(
                         pullElements.end(), val.rbegin(), val.rend());
-                    queueEmptyFlag.store(false);
+                    queueEmptyFlag.store(val.empty());
                     return;
                 }
                 // reengage the push lock so we can push next
-- 
2.43.0


From 4f4459f0d87fb53c4764fa45d1776888e243d7ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:32 +0000
Subject: [PATCH 16/22] fix: a queue that was moved from reports that it is
 empty

---
 gmlc/containers/BlockingPriorityQueue.hpp | 2 ++
 gmlc/containers/BlockingQueue.hpp         | 2 ++
 gmlc/containers/SimpleQueue.hpp           | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/gmlc/containers/BlockingPriorityQueue.hpp b/gmlc/containers/BlockingPriorityQueue.hpp
index d025373..6c0d819 100644
--- a/gmlc/containers/BlockingPriorityQueue.hpp
+++ b/gmlc/containers/BlockingPriorityQueue.hpp
@@ -78,6 +78,7 @@ the two locks will reduce contention in most cases.
             priorityQueue(std::move(bq.priorityQueue))
         {
             queueEmptyFlag = (pullElements.empty() && priorityQueue.empty());
+            bq.queueEmptyFlag = true;
         }
 
         /** enable the move assignment not the copy assignment*/
@@ -89,6 +90,7 @@ the two locks will reduce contention in most cases.
             pullElements = std::move(sq.pullElements);
             priorityQueue = std::move(sq.priorityQueue);
             queueEmptyFlag = (pullElements.empty() && priorityQueue.empty());
+            sq.queueEmptyFlag = true;
             return *this;
         }
         /** DISABLE_COPY_AND_ASSIGN */
diff --git a/gmlc/containers/BlockingQueue.hpp b/gmlc/containers/BlockingQueue.hpp
index 339c5f2..1328b0a 100644
--- a/gmlc/containers/BlockingQueue.hpp
+++ b/gmlc/containers/BlockingQueue.hpp
@@ -71,6 +71,7 @@ contention the two locks will reduce contention in most cases.
             pullElements(std::move(bq.pullElements))
         {
             queueEmptyFlag = pullElements.empty();
+            bq.queueEmptyFlag = true;
         }
 
         /** enable the move assignment not the copy assignment*/
@@ -81,6 +82,7 @@ contention the two locks will reduce contention in most cases.
             pushElements = std::move(sq.pushElements);
             pullElements = std::move(sq.pullElements);
             queueEmptyFlag = pullElements.empty();
+            sq.queueEmptyFlag = true;
             return *this;
         }
         /** DISABLE_COPY_AND_ASSIGN */
diff --git a/gmlc/containers/SimpleQueue.hpp b/gmlc/containers/SimpleQueue.hpp
index f9fcadb..4561ed5 100644
--- a/gmlc/containers/SimpleQueue.hpp
+++ b/gmlc/containers/SimpleQueue.hpp
@@ -64,6 +64,7 @@ atomic flag indicating the queue is empty
             pullElements(std::move(sq.pullElements))
         {
             queueEmptyFlag = pullElements.empty();
+            sq.queueEmptyFlag = true;
         }
 
         /** enable the move assignment not the copy assignment*/
@@ -74,6 +75,7 @@ atomic flag indicating the queue is empty
             pushElements = std::move(sq.pushElements);
             pullElements = std::move(sq.pullElements);
             queueEmptyFlag = pullElements.empty();
+            sq.queueEmptyFlag = true;
             return *this;
         }
         /** DISABLE_COPY_AND_ASSIGN */
-- 
2.43.0


From 68a46e2a2af003f2ad5df6eda673669f2c049682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:32 +0000
Subject: [PATCH 17/22] fix: BlockingQueue misses elements when waiting and
 keeps a stale empty flag

---
 gmlc/containers/BlockingQueue.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/gmlc/containers/BlockingQueue.hpp b/gmlc/containers/BlockingQueue.hpp
index 1328b0a..a3a13db 100644
--- a/gmlc/containers/BlockingQueue.hpp
+++ b/gmlc/containers/BlockingQueue.hpp
@@ -218,10 +218,12 @@ contention the two locks will reduce contention in most cases.
             while (!val) {
                 std::unique_lock<MUTEX> pullLock(
                     m_pullLock);  // get the lock then wait
+                checkPullAndSwap();
                 if (!pullElements.empty())  // make sure we are actually empty;
                 {
                     auto actval = std::move(pullElements.back());
                     pullElements.pop_back();
+                    checkPullAndSwap();
                     return actval;
                 }
                 condition.wait(pullLock);  // now wait
@@ -229,6 +231,7 @@ contention the two locks will reduce contention in most cases.
                 {
                     auto actval = std::move(pullElements.back());
                     pullElements.pop_back();
+                    checkPullAndSwap();
                     return actval;
                 }
                 pullLock.unlock();
@@ -246,10 +249,12 @@ contention the two locks will reduce contention in most cases.
             while (!val) {
                 std::unique_lock<MUTEX> pullLock(
                     m_pullLock);  // get the lock then wait
+                checkPullAndSwap();
                 if (!pullElements.empty())  // make sure we are actually empty;
                 {
                     val = std::move(pullElements.back());
                     pullElements.pop_back();
+                    checkPullAndSwap();
                     break;
                 }
                 auto res = condition.wait_for(pullLock, timeout);  // now wait
@@ -257,6 +262,7 @@ contention the two locks will reduce contention in most cases.
                 {
                     val = std::move(pullElements.back());
                     pullElements.pop_back();
+                    checkPullAndSwap();
                     break;
                 }
                 pullLock.unlock();
@@ -284,11 +290,13 @@ contention the two locks will reduce contention in most cases.
                 // may be spurious so make sure actually have a value
                 callOnWaitFunction();
                 std::unique_lock<MUTEX> pullLock(m_pullLock);  // first pullLock
+                checkPullAndSwap();
                 if (!pullElements.empty()) {
                     // the callback may fill the queue or it may have been
                     // filled in the meantime
                     auto actval = std::move(pullElements.back());
                     pullElements.pop_back();
+                    checkPullAndSwap();
                     return actval;
                 }
                 condition.wait(pullLock);
@@ -296,6 +304,7 @@ contention the two locks will reduce contention in most cases.
                 if (!pullElements.empty()) {
                     auto actval = std::move(pullElements.back());
                     pullElements.pop_back();
+                    checkPullAndSwap();
                     return actval;
                 }
                 pullLock.unlock();
-- 
2.43.0


From a82f6622297fc95dc9a8ae017b3887ca1d6a66c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:32 +0000
Subject: [PATCH 18/22] fix: BlockingPriorityQueue misses elements when waiting
 and keeps a stale empty flag

---
 gmlc/containers/BlockingPriorityQueue.hpp | 25 +++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/gmlc/containers/BlockingPriorityQueue.hpp b/gmlc/containers/BlockingPriorityQueue.hpp
index 6c0d819..eaa9d4b 100644
--- a/gmlc/containers/BlockingPriorityQueue.hpp
+++ b/gmlc/containers/BlockingPriorityQueue.hpp
@@ -270,24 +270,29 @@ the two locks will reduce contention in most cases.
                 if (!priorityQueue.empty()) {
                     actval = std::move(priorityQueue.front());
                     priorityQueue.pop();
+                    checkAfterPriority();
                     return actval;
                 }
+                checkPullAndSwap();
                 if (!pullElements.empty())  // make sure we are actually empty;
                 {
                     actval = std::move(pullElements.back());
                     pullElements.pop_back();
+                    checkPullAndSwap();
                     return actval;
                 }
                 condition.wait(pullLock);  // now wait
                 if (!priorityQueue.empty()) {
                     actval = std::move(priorityQueue.front());
                     priorityQueue.pop();
+                    checkAfterPriority();
                     return actval;
                 }
                 if (!pullElements.empty())  // check for spurious wake-ups
                 {
                     actval = std::move(pullElements.back());
                     pullElements.pop_back();
+                    checkPullAndSwap();
                     return actval;
                 }
                 pullLock.unlock();
@@ -309,12 +314,15 @@ the two locks will reduce contention in most cases.
                 if (!priorityQueue.empty()) {
                     val = std::move(priorityQueue.front());
                     priorityQueue.pop();
+                    checkAfterPriority();
                     break;
                 }
+                checkPullAndSwap();
                 if (!pullElements.empty())  // make sure we are actually empty;
                 {
                     val = std::move(pullElements.back());
                     pullElements.pop_back();
+                    checkPullAndSwap();
                     break;
                 }
                 auto res = condition.wait_for(pullLock, timeout);  // now wait
@@ -322,12 +330,14 @@ the two locks will reduce contention in most cases.
                 if (!priorityQueue.empty()) {
                     val = std::move(priorityQueue.front());
                     priorityQueue.pop();
+                    checkAfterPriority();
                     break;
                 }
                 if (!pullElements.empty())  // check for spurious wake-ups
                 {
                     val = std::move(pullElements.back());
                     pullElements.pop_back();
+                    checkPullAndSwap();
                     break;
                 }
                 pullLock.unlock();
@@ -360,13 +370,16 @@ the two locks will reduce contention in most cases.
                 if (!priorityQueue.empty()) {
                     auto actval = std::move(priorityQueue.front());
                     priorityQueue.pop();
+                    checkAfterPriority();
                     return actval;
                 }
+                checkPullAndSwap();
                 if (!pullElements.empty()) {
                     // the callback may fill the queue or it may have been
                     // filled in the meantime
                     auto actval = std::move(pullElements.back());
                     pullElements.pop_back();
+                    checkPullAndSwap();
                     return actval;
                 }
                 condition.wait(pullLock);
@@ -374,11 +387,13 @@ the two locks will reduce contention in most cases.
                 if (!priorityQueue.empty()) {
                     auto actval = std::move(priorityQueue.front());
                     priorityQueue.pop();
+                    checkAfterPriority();
                     return actval;
                 }
                 if (!pullElements.empty()) {
                     auto actval = std::move(pullElements.back());
                     pullElements.pop_back();
+                    checkPullAndSwap();
                     return actval;
                 }
                 pullLock.unlock();
@@ -414,6 +429,15 @@ any meaning depending on the number of consumers
                 }
             }
         }
+        /** update the pull side and the empty flag once the last priority
+  element was taken, assumes pullLock is active and pushLock is not
+  */
+        void checkAfterPriority()
+        {
+            if (priorityQueue.empty()) {
+                checkPullAndSwap();
+            }
+        }
     };
 
     template<typename T, class MUTEX, class COND>
@@ -423,6 +447,7 @@ any meaning depending on the number of consumers
         if (!priorityQueue.empty()) {
             std::optional<T> val(std::move(priorityQueue.front()));
             priorityQueue.pop();
+            checkAfterPriority();
             return val;
         }
         checkPullAndSwap();
-- 
2.43.0


From 108094903c0f4c2cafe0d1c175d82db96e73cc14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:07 +0000
Subject: [PATCH 19/22] fix: a vector of work blocks may hold empty pointers
 without workers

addWorkBlock with a vector dereferenced empty pointers and executed finished
blocks when the queue has no workers; with workers, and for single blocks,
both are ignored.
---
 gmlc/containers/WorkQueue.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gmlc/containers/WorkQueue.hpp b/gmlc/containers/WorkQueue.hpp
index 29f58f1..44f7af9 100644
--- a/gmlc/containers/WorkQueue.hpp
+++ b/gmlc/containers/WorkQueue.hpp
@@ -398,7 +398,9 @@ value)
                 queueCondition.notify_all();
             } else {
                 for (auto& wb : newWork) {
-                    wb->execute();
+                    if ((wb) && (!wb->isFinished())) {
+                        wb->execute();
+                    }
                 }
             }
         }
-- 
2.43.0


From c9eaa55256a19028375f44a2d30d7a0fc5a3a824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:07 +0000
Subject: [PATCH 20/22] fix: a WorkBlock can be constructed without a task

The default constructors asked the empty task for its future, which always
throws std::future_error.
---
 gmlc/containers/WorkQueue.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/gmlc/containers/WorkQueue.hpp b/gmlc/containers/WorkQueue.hpp
index 44f7af9..ebe3a2a 100644
--- a/gmlc/containers/WorkQueue.hpp
+++ b/gmlc/containers/WorkQueue.hpp
@@ -126,7 +126,9 @@ that can be executed, functionoid, or something that implements operator()
                 task.reset();
             }
             finished = false;
-            future_ret = task.get_future();
+            if (task.valid()) {
+                future_ret = task.get_future();
+            }
         };
         /** get the shared future object*/
         std::shared_future<retType> get_future() { return future_ret; }
@@ -201,7 +203,9 @@ that can be executed
                 task.reset();
             }
             finished = false;
-            future_ret = task.get_future();
+            if (task.valid()) {
+                future_ret = task.get_future();
+            }
         };
         std::shared_future<void> get_future() { return future_ret; }
 
-- 
2.43.0


From 22d4073e8ec3e7520569ef4cf9db7a53763d3be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:30 +0000
Subject: [PATCH 21/22] fix: WorkQueue workers miss the signal for a new block

A block added between a worker's check for work and its wait signalled nobody,
so it stayed in the queue until the wait of 5 seconds ended.
---
 gmlc/containers/WorkQueue.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/gmlc/containers/WorkQueue.hpp b/gmlc/containers/WorkQueue.hpp
index ebe3a2a..57c2d51 100644
--- a/gmlc/containers/WorkQueue.hpp
+++ b/gmlc/containers/WorkQueue.hpp
@@ -372,6 +372,7 @@ value)
                         break;
                 }
                 if (static_cast<int>(ccount) <= numWorkers) {
+                    std::lock_guard<std::mutex> lv(queueLock);
                     queueCondition.notify_one();
                 }
             } else {
@@ -399,6 +400,7 @@ value)
                         workToDoLow.pushVector(newWork);
                         break;
                 }
+                std::lock_guard<std::mutex> lv(queueLock);
                 queueCondition.notify_all();
             } else {
                 for (auto& wb : newWork) {
@@ -480,8 +482,11 @@ value)
                     if (halt.load()) {
                         return;
                     }
-                    queueCondition.wait_for(
-                        lv, std::chrono::milliseconds(5000));
+                    // check again with the lock, additions signal with it
+                    if (isEmpty()) {
+                        queueCondition.wait_for(
+                            lv, std::chrono::milliseconds(5000));
+                    }
                     if (halt) {
                         return;
                     }
-- 
2.43.0


From 741115760a64364d999e24028af97b06d7d21d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:55 +0000
Subject: [PATCH 22/22] fix: WorkQueue skips the signal when the workers empty
 the queue during an addition

---
 gmlc/containers/WorkQueue.hpp | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/gmlc/containers/WorkQueue.hpp b/gmlc/containers/WorkQueue.hpp
index 57c2d51..4a7d251 100644
--- a/gmlc/containers/WorkQueue.hpp
+++ b/gmlc/containers/WorkQueue.hpp
@@ -354,27 +354,21 @@ value)
                 return;
             }
             if (numWorkers > 0) {
-                size_t ccount;
                 switch (priority) {
                     case WorkPriority::high:
                     case WorkPriority::required:
-                        ccount = workToDoHigh.size();
                         workToDoHigh.push(std::move(newWork));
                         break;
                     case WorkPriority::medium:
-                        ccount = workToDoMed.size();
                         workToDoMed.push(std::move(newWork));
                         break;
                     case WorkPriority::low:
                     default:
-                        ccount = workToDoLow.size();
                         workToDoLow.push(std::move(newWork));
                         break;
                 }
-                if (static_cast<int>(ccount) <= numWorkers) {
-                    std::lock_guard<std::mutex> lv(queueLock);
-                    queueCondition.notify_one();
-                }
+                std::lock_guard<std::mutex> lv(queueLock);
+                queueCondition.notify_one();
             } else {
                 newWork->execute();
             }
-- 
2.43.0

