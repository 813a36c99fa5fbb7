From d4d18371ee7e51d18b2c9abf20e678894f8500a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:40 +0000
Subject: [PATCH 01/53] fix: loading and flushing an empty block cache is not
 an error

---
 file_systems/common/blockcache/blockcache.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/file_systems/common/blockcache/blockcache.go b/file_systems/common/blockcache/blockcache.go
index bdcb43a..c840abb 100644
--- a/file_systems/common/blockcache/blockcache.go
+++ b/file_systems/common/blockcache/blockcache.go
@@ -356,12 +356,18 @@ func (cache *BlockCache) flushBlockRange(start c.LogicalBlock, count uint) error
 
 // LoadAll ensures all missing blocks are loaded from storage into the cache.
 func (cache *BlockCache) LoadAll() error {
+	if cache.totalBlocks == 0 {
+		return nil
+	}
 	return cache.loadBlockRange(0, cache.totalBlocks)
 }
 
 // Flush flushes all dirty blocks from the cache into storage, and marks them
 // as clean.
 func (cache *BlockCache) Flush() error {
+	if cache.totalBlocks == 0 {
+		return nil
+	}
 	return cache.flushBlockRange(0, cache.totalBlocks)
 }
 
-- 
2.43.0


From 8c428ba4f3b6bbc0ed4ad8a086844e9902f34581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:41 +0000
Subject: [PATCH 02/53] fix: BlockCache.ReadAt must return the number of bytes
 copied

---
 file_systems/common/blockcache/blockcache.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/file_systems/common/blockcache/blockcache.go b/file_systems/common/blockcache/blockcache.go
index c840abb..14912d1 100644
--- a/file_systems/common/blockcache/blockcache.go
+++ b/file_systems/common/blockcache/blockcache.go
@@ -395,8 +395,7 @@ func (cache *BlockCache) ReadAt(buffer []byte, start c.LogicalBlock) (int, error
 		return 0, err
 	}
 
-	copy(buffer, sourceData)
-	return len(sourceData), nil
+	return copy(buffer, sourceData), nil
 }
 
 // WriteAt copies data into the cache from `buffer`, beginning at block `start`.
-- 
2.43.0


From 1266fc5deb5339eadffc793309497fac0559b37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:43 +0000
Subject: [PATCH 03/53] fix: WrapStream must read whole blocks and report
 failed writes

---
 file_systems/common/blockcache/blockcache.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/file_systems/common/blockcache/blockcache.go b/file_systems/common/blockcache/blockcache.go
index 14912d1..6e38d50 100644
--- a/file_systems/common/blockcache/blockcache.go
+++ b/file_systems/common/blockcache/blockcache.go
@@ -124,15 +124,21 @@ func WrapStream(
 		}
 
 		if read {
-			_, err = stream.Read(buffer)
-		} else {
-			_, err = stream.Write(buffer)
+			numRead, err := io.ReadFull(stream, buffer)
+			if err == io.EOF || err == io.ErrUnexpectedEOF {
+				// The stream ends before or inside of this block. Whatever is
+				// missing reads as null bytes.
+				clear(buffer[numRead:])
+				return nil
+			}
+			return err
 		}
 
-		if err != nil && err != io.EOF {
-			return err
+		numWritten, err := stream.Write(buffer)
+		if err == nil && numWritten < len(buffer) {
+			err = io.ErrShortWrite
 		}
-		return nil
+		return err
 	}
 
 	fetchCb := func(block c.LogicalBlock, buffer []byte) error {
-- 
2.43.0


From 2675374519ecfad99862067688c9e3351c6254c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:44 +0000
Subject: [PATCH 04/53] fix: blocks added by resizing a wrapped stream must be
 accessible

---
 file_systems/common/blockcache/blockcache.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/file_systems/common/blockcache/blockcache.go b/file_systems/common/blockcache/blockcache.go
index 6e38d50..dba899e 100644
--- a/file_systems/common/blockcache/blockcache.go
+++ b/file_systems/common/blockcache/blockcache.go
@@ -156,7 +156,12 @@ func WrapStream(
 		// Resizing the stream is allowed.
 		resizeCb = func(newTotalBlocks c.LogicalBlock) error {
 			truncator := stream.(c.Truncator)
-			return truncator.Truncate(int64(newTotalBlocks) * int64(bytesPerBlock))
+			err := truncator.Truncate(int64(newTotalBlocks) * int64(bytesPerBlock))
+			if err == nil {
+				// Blocks are accessed relative to the current size of the stream.
+				totalBlocks = uint(newTotalBlocks)
+			}
+			return err
 		}
 	} else if allowResize {
 		// The caller allows resizing but the stream doesn't support Truncate().
-- 
2.43.0


From f1a38170363ee2d2c68405d30878e68a4a9a302f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:04 +0000
Subject: [PATCH 05/53] fix: block cache bounds checks must not be defeated by
 integer overflow

---
 file_systems/common/blockcache/blockcache.go | 25 +++++++++++++-------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/file_systems/common/blockcache/blockcache.go b/file_systems/common/blockcache/blockcache.go
index dba899e..8626b27 100644
--- a/file_systems/common/blockcache/blockcache.go
+++ b/file_systems/common/blockcache/blockcache.go
@@ -231,26 +231,34 @@ func (cache *BlockCache) Size() int64 {
 // GetMinBlocksForSize gives the minimum number of blocks required to hold the
 // given number of bytes.
 func (cache *BlockCache) GetMinBlocksForSize(size uint) uint {
-	return (size + cache.bytesPerBlock - 1) / cache.bytesPerBlock
+	numBlocks := size / cache.bytesPerBlock
+	if size%cache.bytesPerBlock != 0 {
+		numBlocks++
+	}
+	return numBlocks
 }
 
 // CheckBounds verifies that `bufferSize` bytes can be accessed in the cache
 // starting from block `start`. If not, it returns an error describing the exact
 // conditions. If no error would occur, this returns nil.
 func (cache *BlockCache) CheckBounds(start c.LogicalBlock, bufferSize uint) error {
-	numBlocks := cache.GetMinBlocksForSize(bufferSize)
+	return cache.checkBlockRange(start, cache.GetMinBlocksForSize(bufferSize))
+}
 
+// checkBlockRange verifies that `numBlocks` blocks can be accessed in the cache
+// starting from block `start`. Working with blocks instead of bytes ensures the
+// check can't be fooled by an integer overflow.
+func (cache *BlockCache) checkBlockRange(start c.LogicalBlock, numBlocks uint) error {
 	if uint(start) >= cache.totalBlocks {
 		return disko.ErrArgumentOutOfRange.WithMessage(
 			fmt.Sprintf("block %d not in range [0, %d)", start, cache.totalBlocks),
 		)
 	}
-	if uint(start)+numBlocks > cache.totalBlocks {
+	if numBlocks > cache.totalBlocks-uint(start) {
 		return disko.ErrArgumentOutOfRange.WithMessage(
 			fmt.Sprintf(
-				"can't access %d bytes (%d blocks) starting at block %d; requested"+
+				"can't access %d blocks starting at block %d; requested"+
 					" range not in [0, %d)",
-				bufferSize,
 				numBlocks,
 				start,
 				cache.totalBlocks,
@@ -296,7 +304,7 @@ func (cache *BlockCache) Data() ([]byte, error) {
 // loadBlockRange ensures that all blocks in the range [start, start + count) are
 // present in the cache, and loads any missing ones from storage.
 func (cache *BlockCache) loadBlockRange(start c.LogicalBlock, count uint) error {
-	err := cache.CheckBounds(start, count*cache.bytesPerBlock)
+	err := cache.checkBlockRange(start, count)
 	if err != nil {
 		return err
 	}
@@ -333,7 +341,7 @@ func (cache *BlockCache) loadBlockRange(start c.LogicalBlock, count uint) error
 // flushBlockRange writes out all dirty blocks (and only dirty blocks) to the
 // underlying storage and marks them as clean.
 func (cache *BlockCache) flushBlockRange(start c.LogicalBlock, count uint) error {
-	err := cache.CheckBounds(start, count*cache.bytesPerBlock)
+	err := cache.checkBlockRange(start, count)
 	if err != nil {
 		return err
 	}
@@ -488,13 +496,12 @@ func (cache *BlockCache) MarkBlockRangeDirty(
 	start c.LogicalBlock,
 	count uint,
 ) error {
-	err := cache.CheckBounds(start, count*cache.bytesPerBlock)
+	err := cache.checkBlockRange(start, count)
 	if err != nil {
 		return err
 	}
 
 	for i := uint(0); i < count; i++ {
-		// FIXME(dargueta): We can end up with integer overflow here
 		bitIndex := int(start) + int(i)
 		cache.dirtyBlocks.Set(bitIndex, true)
 		cache.loadedBlocks.Set(bitIndex, true)
-- 
2.43.0


From 165bf42f44552d9f7ea7489dd4ba3117ffa77ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:05 +0000
Subject: [PATCH 06/53] fix: marking an unloaded block dirty must not make
 Flush overwrite it with zeros

---
 file_systems/common/blockcache/blockcache.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/file_systems/common/blockcache/blockcache.go b/file_systems/common/blockcache/blockcache.go
index 8626b27..10f0f4a 100644
--- a/file_systems/common/blockcache/blockcache.go
+++ b/file_systems/common/blockcache/blockcache.go
@@ -491,12 +491,13 @@ func (cache *BlockCache) Resize(newTotalBlocks uint) error {
 }
 
 // MarkBlockRangeDirty marks a range of blocks as modified. They will be written
-// out to the backing storage on the next call to [FlushAll].
+// out to the backing storage on the next call to [FlushAll]. Missing blocks are
+// loaded first, so that what gets written out is always valid data.
 func (cache *BlockCache) MarkBlockRangeDirty(
 	start c.LogicalBlock,
 	count uint,
 ) error {
-	err := cache.checkBlockRange(start, count)
+	err := cache.loadBlockRange(start, count)
 	if err != nil {
 		return err
 	}
@@ -504,7 +505,6 @@ func (cache *BlockCache) MarkBlockRangeDirty(
 	for i := uint(0); i < count; i++ {
 		bitIndex := int(start) + int(i)
 		cache.dirtyBlocks.Set(bitIndex, true)
-		cache.loadedBlocks.Set(bitIndex, true)
 	}
 	return nil
 }
-- 
2.43.0


From 37ba6dc049d3c4a2039cac71faa5a851bb4f29fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:20 +0000
Subject: [PATCH 07/53] fix: BasicStream.Read must advance the position even
 when it hits EOF

---
 file_systems/common/basicstream/basicstream.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/file_systems/common/basicstream/basicstream.go b/file_systems/common/basicstream/basicstream.go
index e555f38..be2b2b8 100644
--- a/file_systems/common/basicstream/basicstream.go
+++ b/file_systems/common/basicstream/basicstream.go
@@ -78,9 +78,7 @@ func (stream *BasicStream) Close() error {
 // Read implements [io.Reader].
 func (stream *BasicStream) Read(buffer []byte) (int, error) {
 	totalRead, err := stream.ReadAt(buffer, stream.position)
-	if err == nil {
-		stream.position += int64(totalRead)
-	}
+	stream.position += int64(totalRead)
 	return totalRead, err
 }
 
-- 
2.43.0


From e39d4932ae2b49bdaefc4b520613c138f4919ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:21 +0000
Subject: [PATCH 08/53] fix: negative and overflowing stream offsets must be
 refused

---
 file_systems/common/basicstream/basicstream.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/file_systems/common/basicstream/basicstream.go b/file_systems/common/basicstream/basicstream.go
index be2b2b8..db8a66a 100644
--- a/file_systems/common/basicstream/basicstream.go
+++ b/file_systems/common/basicstream/basicstream.go
@@ -88,6 +88,12 @@ func (stream *BasicStream) ReadAt(buffer []byte, offset int64) (int, error) {
 		return 0, disko.ErrNotPermitted
 	}
 
+	if offset < 0 {
+		return 0, disko.ErrInvalidArgument.WithMessage(
+			fmt.Sprintf("can't read at negative offset %d", offset),
+		)
+	}
+
 	// The address computations below assume we're reading at least one byte. If
 	// the target buffer is empty, we have nothing further to do.
 	bufLen := int64(len(buffer))
@@ -100,7 +106,7 @@ func (stream *BasicStream) ReadAt(buffer []byte, offset int64) (int, error) {
 	var numBytesToRead int64
 	if offset >= stream.size {
 		return 0, io.EOF
-	} else if offset+bufLen >= stream.size {
+	} else if bufLen >= stream.size-offset {
 		numBytesToRead = stream.size - offset
 	} else {
 		numBytesToRead = bufLen
@@ -276,6 +282,16 @@ func (stream *BasicStream) implWriteAt(buffer []byte, offset int64) (int, error)
 	}
 
 	bufLen := int64(len(buffer))
+	if offset < 0 {
+		return 0, disko.ErrInvalidArgument.WithMessage(
+			fmt.Sprintf("can't write at negative offset %d", offset),
+		)
+	} else if offset > math.MaxInt64-bufLen {
+		return 0, disko.ErrFileTooLarge.WithMessage(
+			fmt.Sprintf("can't write %d bytes at offset %d", bufLen, offset),
+		)
+	}
+
 	startBlock, startOffset := stream.convertLinearAddr(offset)
 	lastBlock, _ := stream.convertLinearAddr(offset + bufLen)
 
-- 
2.43.0


From 2b89881f91a23979847e0e2a1c51025636e2136e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:22 +0000
Subject: [PATCH 09/53] fix: growing a stream must not expose stale bytes past
 the old end

---
 .../common/basicstream/basicstream.go         | 29 ++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/file_systems/common/basicstream/basicstream.go b/file_systems/common/basicstream/basicstream.go
index db8a66a..de3e8d9 100644
--- a/file_systems/common/basicstream/basicstream.go
+++ b/file_systems/common/basicstream/basicstream.go
@@ -238,7 +238,12 @@ func (stream *BasicStream) Truncate(size int64) error {
 	}
 	newTotalBlocks := stream.data.GetMinBlocksForSize(uint(size))
 
-	err := stream.data.Resize(newTotalBlocks)
+	err := stream.clearSlack(size)
+	if err != nil {
+		return err
+	}
+
+	err = stream.data.Resize(newTotalBlocks)
 	if err != nil {
 		return err
 	}
@@ -251,6 +256,28 @@ func (stream *BasicStream) Truncate(size int64) error {
 	return nil
 }
 
+// clearSlack prepares the stream to grow to (at least) `newEnd` bytes by zeroing
+// out whatever the blocks already allocated to it contain between the current
+// end of the stream and the new one. If the stream isn't growing, this does
+// nothing.
+func (stream *BasicStream) clearSlack(newEnd int64) error {
+	newEnd = min(newEnd, stream.data.Size())
+	if newEnd <= stream.size {
+		return nil
+	}
+
+	firstBlock, startOffset := stream.convertLinearAddr(stream.size)
+	lastBlock, _ := stream.convertLinearAddr(newEnd - 1)
+	numBlocks := uint(lastBlock-firstBlock) + 1
+
+	slack, err := stream.data.GetSlice(firstBlock, numBlocks)
+	if err != nil {
+		return err
+	}
+	clear(slack[startOffset : startOffset+uint(newEnd-stream.size)])
+	return stream.data.MarkBlockRangeDirty(firstBlock, numBlocks)
+}
+
 // Write implements [io.Writer].
 func (stream *BasicStream) Write(buffer []byte) (int, error) {
 	var err error
-- 
2.43.0


From 07a15bd61568d4556ba8b0942244e112b82ffe6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:24 +0000
Subject: [PATCH 10/53] fix: stream writes must touch the right blocks, mark
 them dirty and update the size

---
 .../common/basicstream/basicstream.go         | 27 ++++++++++++++++---
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/file_systems/common/basicstream/basicstream.go b/file_systems/common/basicstream/basicstream.go
index de3e8d9..2b80aca 100644
--- a/file_systems/common/basicstream/basicstream.go
+++ b/file_systems/common/basicstream/basicstream.go
@@ -319,25 +319,44 @@ func (stream *BasicStream) implWriteAt(buffer []byte, offset int64) (int, error)
 		)
 	}
 
+	// The address computations below assume we're writing at least one byte.
+	if bufLen == 0 {
+		return 0, nil
+	}
+
 	startBlock, startOffset := stream.convertLinearAddr(offset)
-	lastBlock, _ := stream.convertLinearAddr(offset + bufLen)
+	lastBlock, _ := stream.convertLinearAddr(offset + bufLen - 1)
+	numBlocks := uint(lastBlock-startBlock) + 1
+
+	// If we're writing past the end of the stream then the gap between the end
+	// and the offset, if any, must read as null bytes.
+	err := stream.clearSlack(offset)
+	if err != nil {
+		return 0, err
+	}
 
-	// If we're going to end up writing past the end of the stream we need to
+	// If there aren't enough blocks for what we're about to write, we need to
 	// grow the file first.
 	if uint(lastBlock) >= stream.data.TotalBlocks() {
-		err := stream.Truncate(offset + bufLen)
+		err = stream.data.Resize(uint(lastBlock) + 1)
 		if err != nil {
 			return 0, err
 		}
 	}
 
-	targetSlice, err := stream.data.GetSlice(startBlock, uint(lastBlock)+1)
+	targetSlice, err := stream.data.GetSlice(startBlock, numBlocks)
 	if err != nil {
 		return 0, err
 	}
 
 	copy(targetSlice[startOffset:], buffer)
 
+	err = stream.data.MarkBlockRangeDirty(startBlock, numBlocks)
+	if err != nil {
+		return 0, err
+	}
+	stream.size = max(stream.size, offset+bufLen)
+
 	if stream.ioFlags.Synchronous() {
 		return len(buffer), stream.Sync()
 	}
-- 
2.43.0


From 030943961aa8af28a825575d0c1183e7afab1d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:25 +0000
Subject: [PATCH 11/53] fix: BasicStream.ReadFrom must not swallow write errors

---
 file_systems/common/basicstream/basicstream.go | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/file_systems/common/basicstream/basicstream.go b/file_systems/common/basicstream/basicstream.go
index 2b80aca..d38a4ab 100644
--- a/file_systems/common/basicstream/basicstream.go
+++ b/file_systems/common/basicstream/basicstream.go
@@ -149,18 +149,19 @@ func (stream *BasicStream) ReadFrom(r io.Reader) (n int64, err error) {
 
 	buffer := make([]byte, blockSize)
 
-	totalBytesRead := int64(0)
+	totalWritten := int64(0)
 	for {
 		lastReadSize, readErr := r.Read(buffer)
-		totalBytesRead += int64(lastReadSize)
 
-		_, writeErr := stream.Write(buffer[:lastReadSize])
-		if readErr == io.EOF {
-			return totalBytesRead, nil
+		lastWriteSize, writeErr := stream.Write(buffer[:lastReadSize])
+		totalWritten += int64(lastWriteSize)
+
+		if writeErr != nil {
+			return totalWritten, writeErr
+		} else if readErr == io.EOF {
+			return totalWritten, nil
 		} else if readErr != nil {
-			return totalBytesRead, readErr
-		} else if writeErr != nil {
-			return totalBytesRead, writeErr
+			return totalWritten, readErr
 		}
 	}
 }
-- 
2.43.0


From 9620da78fab58c26a63ee2a2e8ff819becc39359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:26 +0000
Subject: [PATCH 12/53] fix: BasicStream.WriteTo must report errors of the
 writer

---
 file_systems/common/basicstream/basicstream.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/file_systems/common/basicstream/basicstream.go b/file_systems/common/basicstream/basicstream.go
index d38a4ab..8b20a7f 100644
--- a/file_systems/common/basicstream/basicstream.go
+++ b/file_systems/common/basicstream/basicstream.go
@@ -389,8 +389,13 @@ func (stream *BasicStream) WriteTo(w io.Writer) (n int64, err error) {
 		// Always write the data we've read in regardless of whether an error
 		// occurred or not.
 		if blockSize > 0 {
-			w.Write(buffer[:blockSize])
-			totalWritten += int64(blockSize)
+			lastWriteSize, writeErr := w.Write(buffer[:blockSize])
+			totalWritten += int64(lastWriteSize)
+			if writeErr != nil {
+				return totalWritten, writeErr
+			} else if lastWriteSize < blockSize {
+				return totalWritten, io.ErrShortWrite
+			}
 		}
 
 		// If we hit EOF, we're done. Any other error is fatal.
-- 
2.43.0


From 64237f4557dc3d6f01e41ab1bef879e0be72b06d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:27 +0000
Subject: [PATCH 13/53] fix: a stream write that can't read its blocks must not
 grow the storage

---
 file_systems/common/basicstream/basicstream.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/file_systems/common/basicstream/basicstream.go b/file_systems/common/basicstream/basicstream.go
index 8b20a7f..c3bccc8 100644
--- a/file_systems/common/basicstream/basicstream.go
+++ b/file_systems/common/basicstream/basicstream.go
@@ -338,7 +338,17 @@ func (stream *BasicStream) implWriteAt(buffer []byte, offset int64) (int, error)
 
 	// If there aren't enough blocks for what we're about to write, we need to
 	// grow the file first.
-	if uint(lastBlock) >= stream.data.TotalBlocks() {
+	totalBlocks := stream.data.TotalBlocks()
+	if uint(lastBlock) >= totalBlocks {
+		// Blocks we're going to modify that already exist must be loaded before
+		// resizing, so that we can't fail after the storage has grown.
+		if uint(startBlock) < totalBlocks {
+			_, err = stream.data.GetSlice(startBlock, totalBlocks-uint(startBlock))
+			if err != nil {
+				return 0, err
+			}
+		}
+
 		err = stream.data.Resize(uint(lastBlock) + 1)
 		if err != nil {
 			return 0, err
-- 
2.43.0


From 745b9efb3435763b7b997d3530ac0cb2a3a4123e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:28 +0000
Subject: [PATCH 14/53] fix: wrapped object handles must forward to the
 implementation's handle

---
 driver/driver.go   | 45 +++++++++++++++++++++++++++------------------
 driver/file.go     |  4 ++--
 driver/fsobject.go | 20 +++++++++++++++-----
 3 files changed, 44 insertions(+), 25 deletions(-)

diff --git a/driver/driver.go b/driver/driver.go
index 114a5ba..5d06a92 100644
--- a/driver/driver.go
+++ b/driver/driver.go
@@ -201,7 +201,7 @@ func (driver *BaseDriver) getContentsOfObject(
 func (driver *BaseDriver) getExtObjectInDir(
 	baseName string, parentObject extObjectHandle,
 ) (extObjectHandle, disko.DriverError) {
-	object, err := driver.implementation.GetObject(baseName, parentObject)
+	object, err := driver.implementation.GetObject(baseName, unwrapObjectHandle(parentObject))
 	if err != nil {
 		return nil, err
 	}
@@ -217,7 +217,7 @@ func (driver *BaseDriver) createExtObject(
 ) (extObjectHandle, disko.DriverError) {
 	rawObject, err := driver.implementation.CreateObject(
 		baseName,
-		parentObject,
+		unwrapObjectHandle(parentObject),
 		perm,
 	)
 	if err != nil {
@@ -328,7 +328,7 @@ func (driver *BaseDriver) Chmod(name string, mode os.FileMode) error {
 		return err
 	}
 
-	chmodObject, ok := object.(disko.SupportsChmodHandle)
+	chmodObject, ok := unwrapObjectHandle(object).(disko.SupportsChmodHandle)
 	if !ok {
 		return disko.ErrNotImplemented
 	}
@@ -342,7 +342,7 @@ func (driver *BaseDriver) Chown(name string, uid, gid int) error {
 		return err
 	}
 
-	chmownObject, ok := object.(disko.SupportsChownHandle)
+	chmownObject, ok := unwrapObjectHandle(object).(disko.SupportsChownHandle)
 	if !ok {
 		return disko.ErrNotImplemented
 	}
@@ -359,7 +359,7 @@ func (driver *BaseDriver) Lchown(name string, uid, gid int) error {
 		return err
 	}
 
-	chmownObject, ok := object.(disko.SupportsChownHandle)
+	chmownObject, ok := unwrapObjectHandle(object).(disko.SupportsChownHandle)
 	if !ok {
 		return disko.ErrNotImplemented
 	}
@@ -373,7 +373,7 @@ func (driver *BaseDriver) Chtimes(name string, atime time.Time, mtime time.Time)
 		return err
 	}
 
-	chmownObject, ok := object.(disko.SupportsChtimesHandle)
+	chmownObject, ok := unwrapObjectHandle(object).(disko.SupportsChtimesHandle)
 	if !ok {
 		return disko.ErrNotImplemented
 	}
@@ -449,7 +449,7 @@ func (driver *BaseDriver) ReadDir(path string) ([]disko.DirectoryEntry, error) {
 func (driver *BaseDriver) readDir(
 	directory extObjectHandle,
 ) ([]disko.DirectoryEntry, error) {
-	direntNames, err := directory.(disko.SupportsListDirHandle).ListDir()
+	direntNames, err := unwrapObjectHandle(directory).(disko.SupportsListDirHandle).ListDir()
 	if err != nil {
 		return nil, err
 	}
@@ -461,7 +461,7 @@ func (driver *BaseDriver) readDir(
 			continue
 		}
 
-		direntObject, err := driver.implementation.GetObject(name, directory)
+		direntObject, err := driver.implementation.GetObject(name, unwrapObjectHandle(directory))
 		if err != nil {
 			return output, err
 		}
@@ -502,7 +502,11 @@ func (driver *BaseDriver) Link(oldname, newname string) error {
 		return err
 	}
 
-	_, err = linker.CreateHardLink(oldHandle, parentHandle, targetName)
+	_, err = linker.CreateHardLink(
+		unwrapObjectHandle(oldHandle),
+		unwrapObjectHandle(parentHandle),
+		targetName,
+	)
 	return err
 }
 
@@ -601,7 +605,7 @@ func (driver *BaseDriver) Remove(path string) error {
 	if stat.IsDir() {
 		// Caller wants to remove a directory. The directory must be empty, i.e.
 		// must at most only contain the "." and ".." entries.
-		names, err := object.(disko.SupportsListDirHandle).ListDir()
+		names, err := unwrapObjectHandle(object).(disko.SupportsListDirHandle).ListDir()
 		if err != nil {
 			return err
 		}
@@ -688,7 +692,11 @@ func (driver *BaseDriver) Mkdir(path string, perm os.FileMode) error {
 		)
 	}
 
-	object, err := driver.implementation.CreateObject(baseName, parentObject, perm)
+	object, err := driver.implementation.CreateObject(
+		baseName,
+		unwrapObjectHandle(parentObject),
+		perm,
+	)
 	if err == nil {
 		object.Close()
 	}
@@ -716,7 +724,11 @@ func (driver *BaseDriver) MkdirAll(path string, perm os.FileMode) error {
 	}
 	defer parentObject.Close()
 
-	object, err := driver.implementation.CreateObject(baseName, parentObject, perm)
+	object, err := driver.implementation.CreateObject(
+		baseName,
+		unwrapObjectHandle(parentObject),
+		perm,
+	)
 	if err == nil {
 		object.Close()
 	}
@@ -738,7 +750,7 @@ func (driver *BaseDriver) RemoveAll(path string) error {
 
 	// Block an attempt at `rm -rf /`, because some clown is gonna try it.
 	root := driver.implementation.GetRootDirectory()
-	if root.SameAs(directory) {
+	if root.SameAs(unwrapObjectHandle(directory)) {
 		return disko.ErrPermissionDenied.WithMessage(
 			"you can't remove the root directory",
 		)
@@ -754,7 +766,7 @@ func (driver *BaseDriver) RemoveAll(path string) error {
 func (driver *BaseDriver) removeDirectory(directory extObjectHandle) error {
 	var err error
 
-	direntNames, err := directory.(disko.SupportsListDirHandle).ListDir()
+	direntNames, err := unwrapObjectHandle(directory).(disko.SupportsListDirHandle).ListDir()
 	if err != nil {
 		return err
 	}
@@ -773,10 +785,7 @@ func (driver *BaseDriver) removeDirectory(directory extObjectHandle) error {
 
 		// If this is a directory, recursively delete its contents.
 		if direntStat.IsDir() {
-			absPath := posixpath.Join(directory.AbsolutePath(), name)
-			wrappedDirent := wrapObjectHandle(dirent, absPath)
-
-			rmErr := driver.removeDirectory(wrappedDirent)
+			rmErr := driver.removeDirectory(dirent)
 			if rmErr != nil {
 				dirent.Close()
 				return rmErr
diff --git a/driver/file.go b/driver/file.go
index c6d7dff..0fa601a 100644
--- a/driver/file.go
+++ b/driver/file.go
@@ -144,7 +144,7 @@ func (file *File) Chdir() error {
 }
 
 func (file *File) Chmod(mode os.FileMode) error {
-	chmodHandle, ok := file.objectHandle.(disko.SupportsChmodHandle)
+	chmodHandle, ok := unwrapObjectHandle(file.objectHandle).(disko.SupportsChmodHandle)
 	if ok {
 		return chmodHandle.Chmod(mode)
 	}
@@ -152,7 +152,7 @@ func (file *File) Chmod(mode os.FileMode) error {
 }
 
 func (file *File) Chown(uid, gid int) error {
-	chownHandle, ok := file.objectHandle.(disko.SupportsChownHandle)
+	chownHandle, ok := unwrapObjectHandle(file.objectHandle).(disko.SupportsChownHandle)
 	if ok {
 		return chownHandle.Chown(uid, gid)
 	}
diff --git a/driver/fsobject.go b/driver/fsobject.go
index 65f008c..e8afe4b 100644
--- a/driver/fsobject.go
+++ b/driver/fsobject.go
@@ -8,19 +8,29 @@ type extObjectHandle interface {
 }
 
 type tExtObjectHandle struct {
-	extObjectHandle
+	disko.ObjectHandle
 	absolutePath string
 }
 
-// wrapObjectHandle combines
+// wrapObjectHandle combines an implementation's object handle with the absolute
+// path it was found at.
 func wrapObjectHandle(handle disko.ObjectHandle, absolutePath string) extObjectHandle {
 	return &tExtObjectHandle{
-		// FIXME (dargueta): This is hella wrong
-		//extObjectHandle.ObjectHandle: handle,
+		ObjectHandle: handle,
 		absolutePath: absolutePath,
 	}
 }
 
-func (xh tExtObjectHandle) AbsolutePath() string {
+// unwrapObjectHandle is the inverse of [wrapObjectHandle]. It must be used for
+// passing a handle (back) to the implementation, and for determining which of
+// the optional interfaces a handle supports.
+func unwrapObjectHandle(handle disko.ObjectHandle) disko.ObjectHandle {
+	if wrapper, ok := handle.(*tExtObjectHandle); ok {
+		return wrapper.ObjectHandle
+	}
+	return handle
+}
+
+func (xh *tExtObjectHandle) AbsolutePath() string {
 	return xh.absolutePath
 }
-- 
2.43.0


From 4cc3a4032859366a170e2cf7bd431436aded24f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:45 +0000
Subject: [PATCH 15/53] fix: "." must refer to the working directory, not the
 root

---
 driver/driver.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/driver/driver.go b/driver/driver.go
index 5d06a92..289cfc9 100644
--- a/driver/driver.go
+++ b/driver/driver.go
@@ -41,9 +41,6 @@ func New(
 // from the current working directory (see [Getwd] for more).
 func (driver *BaseDriver) NormalizePath(path string) string {
 	path = posixpath.Clean(filepath.ToSlash(path))
-	if path == "." {
-		path = "/"
-	}
 	if posixpath.IsAbs(path) {
 		return path
 	}
-- 
2.43.0


From fe57c1ca419e2316e3d9b1d5b9956439151720ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:56 +0000
Subject: [PATCH 16/53] fix: looking up a path must not recurse forever on its
 parent directory

---
 driver/driver.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/driver/driver.go b/driver/driver.go
index 289cfc9..dd9ec3f 100644
--- a/driver/driver.go
+++ b/driver/driver.go
@@ -47,6 +47,14 @@ func (driver *BaseDriver) NormalizePath(path string) string {
 	return posixpath.Join(driver.workingDirPath, path)
 }
 
+// splitPath splits a normalized absolute path into its parent directory and its
+// last component. Unlike what [posixpath.Split] returns, the parent directory is
+// a normalized path as well, so it never has a trailing slash unless it's the
+// root directory. The root directory is its own parent.
+func splitPath(path string) (parent, base string) {
+	return posixpath.Dir(path), posixpath.Base(path)
+}
+
 // resolveSymlink dereferences `object` (if it's a symlink), following multiple
 // levels of indirection if needed to get to a file system object. If `object`
 // isn't a symlink, this becomes a no-op and returns the handle unmodified.
@@ -125,7 +133,7 @@ func (driver *BaseDriver) getObjectAtPathNoFollow(
 		return wrapObjectHandle(root, path), nil
 	}
 
-	parentPath, baseName := posixpath.Split(path)
+	parentPath, baseName := splitPath(path)
 	parentObject, err := driver.getObjectAtPathFollowingLink(parentPath)
 	if err != nil {
 		return nil, err
@@ -258,7 +266,7 @@ func (driver *BaseDriver) OpenFile(
 				// To create the missing file, we need to get a handle for its
 				// parent directory, then call CreateObject() for the file in
 				// that directory.
-				parentDir, baseName := posixpath.Split(absPath)
+				parentDir, baseName := splitPath(absPath)
 				parentObject, err = driver.getObjectAtPathFollowingLink(parentDir)
 				if err != nil {
 					// Parent directory doesn't exist
@@ -493,7 +501,7 @@ func (driver *BaseDriver) Link(oldname, newname string) error {
 		return disko.ErrExists.WithMessage("hard link target already exists: " + absNew)
 	}
 
-	targetParentPath, targetName := posixpath.Split(absNew)
+	targetParentPath, targetName := splitPath(absNew)
 	parentHandle, err := driver.getObjectAtPathFollowingLink(targetParentPath)
 	if err != nil {
 		return err
@@ -670,7 +678,7 @@ func (driver *BaseDriver) Mkdir(path string, perm os.FileMode) error {
 	perm |= os.ModeDir
 
 	absPath := driver.NormalizePath(path)
-	parentDir, baseName := posixpath.Split(absPath)
+	parentDir, baseName := splitPath(absPath)
 
 	parentObject, err := driver.getObjectAtPathFollowingLink(parentDir)
 	if err != nil {
@@ -702,7 +710,7 @@ func (driver *BaseDriver) Mkdir(path string, perm os.FileMode) error {
 
 func (driver *BaseDriver) MkdirAll(path string, perm os.FileMode) error {
 	absPath := driver.NormalizePath(path)
-	parentDir, baseName := posixpath.Split(absPath)
+	parentDir, baseName := splitPath(absPath)
 
 	// Force the permissions flags to indicate this is a directory so that the
 	// caller doesn't have to remember to do it themselves.
-- 
2.43.0


From 34a67220ada82923239833baa098f72f8d499b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:57 +0000
Subject: [PATCH 17/53] fix: Lstat must not follow symbolic links

---
 driver/driver.go | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/driver/driver.go b/driver/driver.go
index dd9ec3f..c71162b 100644
--- a/driver/driver.go
+++ b/driver/driver.go
@@ -549,15 +549,7 @@ func (driver *BaseDriver) Lstat(path string) (disko.FileStat, error) {
 	}
 	defer object.Close()
 
-	// Unconditionally try to resolve `object` as a symlink. If it isn't one,
-	// nothing happens and we get `object` back.
-	realObject, err := driver.resolveSymlink(object)
-	if err != nil {
-		return disko.FileStat{}, err
-	}
-	defer realObject.Close()
-
-	return realObject.Stat(), nil
+	return object.Stat(), nil
 }
 
 // Create creates a file and opens it for reading and writing. It fails if the
-- 
2.43.0


From 1b677612e716a1df0c0d104a5cffbe22a4de1708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:57 +0000
Subject: [PATCH 18/53] fix: symlink targets are relative to their directory,
 and cycles through directories must be detected

---
 driver/driver.go | 101 +++++++++++++++++++++++++++--------------------
 1 file changed, 59 insertions(+), 42 deletions(-)

diff --git a/driver/driver.go b/driver/driver.go
index c71162b..77aaffb 100644
--- a/driver/driver.go
+++ b/driver/driver.go
@@ -58,68 +58,80 @@ func splitPath(path string) (parent, base string) {
 // resolveSymlink dereferences `object` (if it's a symlink), following multiple
 // levels of indirection if needed to get to a file system object. If `object`
 // isn't a symlink, this becomes a no-op and returns the handle unmodified.
+//
+// Symbolic links can result in cycles, either because they directly point to
+// each other or because resolving the directories in the path of the target
+// leads back to the same link. `activeLinks` has the paths of all links that are
+// currently being resolved; if one of them is needed again we found a cycle and
+// must fail.
 func (driver *BaseDriver) resolveSymlink(
 	object extObjectHandle,
+	activeLinks map[string]bool,
 ) (extObjectHandle, disko.DriverError) {
 	stat := object.Stat()
 	if !stat.IsSymlink() {
 		return object, nil
 	}
 
-	// Symbolic links can result in cycles, so we need to keep track of all the
-	// paths we visit. If we resolve a symlink to a path that's already in the
-	// dictionary, we found a loop and must fail.
-	pathCache := make(map[string]bool)
-
 	originalPath := object.AbsolutePath()
-	currentPath := originalPath
-	pathCache[currentPath] = true
 
 	for stat.IsSymlink() {
-		symlinkText, err := driver.getContentsOfObject(object)
-		object.Close()
-
-		if err != nil {
+		currentPath := object.AbsolutePath()
+		if activeLinks[currentPath] {
+			object.Close()
 			return nil,
-				err.WithMessage(
+				disko.ErrLinkCycleDetected.WithMessage(
 					fmt.Sprintf(
-						"can't resolve path %q, failed to read symlink %q: %s",
+						"found cycle resolving symlink %q: hit %q twice",
 						originalPath,
 						currentPath,
-						err.Error(),
 					),
 				)
 		}
+		activeLinks[currentPath] = true
+		defer delete(activeLinks, currentPath)
 
-		// Compute the next path in this chain; if it's already in the cache
-		// then we hit a cycle.
-		nextPath := driver.NormalizePath(string(symlinkText))
-		_, exists := pathCache[nextPath]
-		if exists {
+		symlinkText, err := driver.getContentsOfObject(object)
+		object.Close()
+
+		if err != nil {
 			return nil,
-				disko.ErrLinkCycleDetected.WithMessage(
+				err.WithMessage(
 					fmt.Sprintf(
-						"found cycle resolving symlink %q: hit %q twice",
+						"can't resolve path %q, failed to read symlink %q: %s",
 						originalPath,
-						nextPath,
+						currentPath,
+						err.Error(),
 					),
 				)
 		}
 
-		// Get the object at the next path but don't dereference it.
-		object, err = driver.getObjectAtPathNoFollow(nextPath)
+		// Get the object at the next path in this chain but don't dereference
+		// it.
+		nextPath := symlinkTargetPath(currentPath, string(symlinkText))
+		object, err = driver.lookUp(nextPath, activeLinks)
 		if err != nil {
 			return nil, err
 		}
 
-		// Update the latest path and file stats for the next loop iteration.
+		// Update the latest file stats for the next loop iteration.
 		stat = object.Stat()
-		currentPath = nextPath
 	}
 
 	return object, nil
 }
 
+// symlinkTargetPath returns the normalized absolute path that the symlink at
+// `linkPath` points to. Relative links are relative to the directory the link is
+// in, irrespective of the current working directory.
+func symlinkTargetPath(linkPath, symlinkText string) string {
+	target := filepath.ToSlash(symlinkText)
+	if posixpath.IsAbs(target) {
+		return posixpath.Clean(target)
+	}
+	return posixpath.Join(posixpath.Dir(linkPath), target)
+}
+
 // getObjectAtPathNoFollow resolves a normalized absolute path to an object
 // handle. It follows symbolic links for intermediate directories, but does *not*
 // follow the final path component if it's a symbolic link.
@@ -127,14 +139,23 @@ func (driver *BaseDriver) resolveSymlink(
 // `path` must be a normalized absolute path.
 func (driver *BaseDriver) getObjectAtPathNoFollow(
 	path string,
+) (extObjectHandle, disko.DriverError) {
+	return driver.lookUp(path, make(map[string]bool))
+}
+
+// lookUp implements [getObjectAtPathNoFollow]. See [resolveSymlink] for what
+// `activeLinks` is.
+func (driver *BaseDriver) lookUp(
+	path string,
+	activeLinks map[string]bool,
 ) (extObjectHandle, disko.DriverError) {
 	if path == "/" || path == "" {
 		root := driver.implementation.GetRootDirectory()
-		return wrapObjectHandle(root, path), nil
+		return wrapObjectHandle(root, "/"), nil
 	}
 
 	parentPath, baseName := splitPath(path)
-	parentObject, err := driver.getObjectAtPathFollowingLink(parentPath)
+	parentObject, err := driver.lookUpFollowingLink(parentPath, activeLinks)
 	if err != nil {
 		return nil, err
 	}
@@ -160,23 +181,19 @@ func (driver *BaseDriver) getObjectAtPathNoFollow(
 func (driver *BaseDriver) getObjectAtPathFollowingLink(
 	path string,
 ) (extObjectHandle, disko.DriverError) {
-	object, err := driver.getObjectAtPathNoFollow(path)
+	return driver.lookUpFollowingLink(path, make(map[string]bool))
+}
+
+// lookUpFollowingLink implements [getObjectAtPathFollowingLink].
+func (driver *BaseDriver) lookUpFollowingLink(
+	path string,
+	activeLinks map[string]bool,
+) (extObjectHandle, disko.DriverError) {
+	object, err := driver.lookUp(path, activeLinks)
 	if err != nil {
 		return nil, err
 	}
-
-	stat := object.Stat()
-	for stat.IsSymlink() {
-		nextObject, err := driver.resolveSymlink(object)
-		object.Close()
-		if err != nil {
-			return nil, err
-		}
-		stat = nextObject.Stat()
-		object = nextObject
-	}
-
-	return object, nil
+	return driver.resolveSymlink(object, activeLinks)
 }
 
 // getContentsOfObject returns the contents of an object as it exists on the
-- 
2.43.0


From a92d3166b93a1c8c35221bb651079fedbbddada6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:58 +0000
Subject: [PATCH 19/53] fix: OpenFile must obey O_EXCL and the insert
 permission and never recreate existing names

---
 api.go           |   8 +++
 driver/driver.go | 133 +++++++++++++++++++++++++++++++++++------------
 2 files changed, 107 insertions(+), 34 deletions(-)

diff --git a/api.go b/api.go
index 5cce507..b9876c7 100644
--- a/api.go
+++ b/api.go
@@ -63,6 +63,14 @@ func (flags MountFlags) CanWrite() bool {
 	return flags&MountFlagsAllowWrite != 0
 }
 
+func (flags MountFlags) CanInsert() bool {
+	return flags&MountFlagsAllowInsert != 0
+}
+
+func (flags MountFlags) CanAdminister() bool {
+	return flags&MountFlagsAllowAdminister != 0
+}
+
 func (flags MountFlags) CanDelete() bool {
 	return flags&MountFlagsAllowDelete != 0
 }
diff --git a/driver/driver.go b/driver/driver.go
index 77aaffb..62fe20f 100644
--- a/driver/driver.go
+++ b/driver/driver.go
@@ -260,50 +260,36 @@ func (driver *BaseDriver) OpenFile(
 	absPath := driver.NormalizePath(path)
 	ioFlags := disko.IOFlags(flags)
 
-	if ioFlags.RequiresWritePerm() && !driver.mountFlags.CanWrite() {
-		return File{}, disko.ErrReadOnlyFileSystem.WithMessage(
-			fmt.Sprintf(
-				"can't open %q for writing: image is mounted read-only",
-				absPath,
-			),
+	if ioFlags.Truncate() && !ioFlags.Write() {
+		return File{}, disko.ErrNotPermitted.WithMessage(
+			fmt.Sprintf("can't truncate %q: not opened for writing", absPath),
 		)
 	}
 
 	var object extObjectHandle
-	var parentObject extObjectHandle
 	var err error
 
-	object, err = driver.getObjectAtPathFollowingLink(absPath)
+	if ioFlags.Create() && ioFlags.Exclusive() {
+		// The name must not exist yet, not even as a dangling symbolic link.
+		object, err = driver.getObjectAtPathNoFollow(absPath)
+		if err == nil {
+			object.Close()
+			return File{}, disko.ErrExists.WithMessage(absPath)
+		}
+	} else {
+		object, err = driver.getObjectAtPathFollowingLink(absPath)
+	}
+
+	isNewFile := false
 	if err != nil {
 		// An error occurred. If the file is missing we may be able to create it
 		// and proceed.
-		if errors.Is(err, disko.ErrNotFound) {
-			// File does not exist, can we create it?
-			if ioFlags.Create() {
-				// To create the missing file, we need to get a handle for its
-				// parent directory, then call CreateObject() for the file in
-				// that directory.
-				parentDir, baseName := splitPath(absPath)
-				parentObject, err = driver.getObjectAtPathFollowingLink(parentDir)
-				if err != nil {
-					// Parent directory doesn't exist
-					return File{}, err
-				}
-
-				object, err = driver.createExtObject(
-					baseName,
-					parentObject,
-					perm,
-				)
-				parentObject.Close()
-
-				if err != nil {
-					return File{}, err
-				}
-			}
-			// Else: The file doesn't exist and we can't create it.
+		if errors.Is(err, disko.ErrNotFound) && ioFlags.Create() {
+			object, err = driver.createMissingFile(absPath, perm)
+			isNewFile = true
 		}
-		// Else: the problem isn't that the file doesn't exist.
+		// Else: the problem isn't that the file doesn't exist, or we're not
+		// supposed to create it.
 
 		// If we haven't resolved the error, fail.
 		if err != nil {
@@ -313,12 +299,91 @@ func (driver *BaseDriver) OpenFile(
 
 	stat := object.Stat()
 	if !stat.IsFile() {
+		object.Close()
 		return File{}, disko.ErrIsADirectory.WithMessage(absPath)
 	}
 
+	// New files can always be written to, so this is only relevant for files
+	// that existed before.
+	if ioFlags.RequiresWritePerm() && !isNewFile && !driver.mountFlags.CanWrite() {
+		object.Close()
+		return File{}, disko.ErrReadOnlyFileSystem.WithMessage(
+			fmt.Sprintf(
+				"can't open %q for writing: image is mounted read-only",
+				absPath,
+			),
+		)
+	}
+
 	return NewFileFromObjectHandle(driver, object, flags)
 }
 
+// createMissingFile creates the file that a lookup of `absPath` failed to find.
+// If that's because of a symlink pointing to a nonexistent file, this creates
+// the file the symlink points to.
+func (driver *BaseDriver) createMissingFile(
+	absPath string,
+	perm os.FileMode,
+) (extObjectHandle, error) {
+	if !driver.mountFlags.CanInsert() {
+		return nil, disko.ErrReadOnlyFileSystem.WithMessage(
+			fmt.Sprintf("can't create %q: inserting is not allowed", absPath),
+		)
+	}
+
+	for {
+		// To create the missing file, we need to get a handle for its parent
+		// directory, then call CreateObject() for the file in that directory.
+		parentDir, baseName := splitPath(absPath)
+		parentObject, err := driver.getObjectAtPathFollowingLink(parentDir)
+		if err != nil {
+			// Parent directory doesn't exist
+			return nil, err
+		}
+
+		parentStat := parentObject.Stat()
+		if !parentStat.IsDir() {
+			parentObject.Close()
+			return nil, disko.ErrNotADirectory.WithMessage(parentDir)
+		}
+
+		link, err := driver.getExtObjectInDir(baseName, parentObject)
+		if errors.Is(err, disko.ErrNotFound) {
+			// The caller wants a file, so ignore any type flags.
+			object, err := driver.createExtObject(
+				baseName,
+				parentObject,
+				perm&^os.ModeType,
+			)
+			parentObject.Close()
+			if err != nil {
+				return nil, err
+			}
+			return object, nil
+		}
+
+		parentObject.Close()
+		if err != nil {
+			return nil, err
+		}
+
+		// The name exists even though looking it up failed, so it's a dangling
+		// symlink. There are no cycles, the lookup would've found them.
+		linkStat := link.Stat()
+		if !linkStat.IsSymlink() {
+			link.Close()
+			return nil, disko.ErrExists.WithMessage(absPath)
+		}
+
+		symlinkText, err := driver.getContentsOfObject(link)
+		link.Close()
+		if err != nil {
+			return nil, err
+		}
+		absPath = symlinkTargetPath(link.AbsolutePath(), string(symlinkText))
+	}
+}
+
 func (driver *BaseDriver) Chdir(path string) error {
 	absPath := driver.NormalizePath(path)
 
-- 
2.43.0


From 92ea594342abaad3b8c041a7d9b1ab40ee7c554c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:10 +0000
Subject: [PATCH 20/53] fix: listing something that is not a directory must be
 an error, not a panic

---
 driver/driver.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/driver/driver.go b/driver/driver.go
index 62fe20f..89a036d 100644
--- a/driver/driver.go
+++ b/driver/driver.go
@@ -536,6 +536,11 @@ func (driver *BaseDriver) ReadDir(path string) ([]disko.DirectoryEntry, error) {
 func (driver *BaseDriver) readDir(
 	directory extObjectHandle,
 ) ([]disko.DirectoryEntry, error) {
+	stat := directory.Stat()
+	if !stat.IsDir() {
+		return nil, disko.ErrNotADirectory.WithMessage(directory.AbsolutePath())
+	}
+
 	direntNames, err := unwrapObjectHandle(directory).(disko.SupportsListDirHandle).ListDir()
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 5c733bc216738d33cce58ee460dbb150f1c266e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:45 +0000
Subject: [PATCH 21/53] fix: Link must refuse directories and existing names

---
 driver/driver.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/driver/driver.go b/driver/driver.go
index 89a036d..65e0681 100644
--- a/driver/driver.go
+++ b/driver/driver.go
@@ -577,15 +577,26 @@ func (driver *BaseDriver) Link(oldname, newname string) error {
 	if err != nil {
 		return err
 	}
+	defer oldHandle.Close()
+
+	oldStat := oldHandle.Stat()
+	if oldStat.IsDir() {
+		return disko.ErrNotPermitted.WithMessage(
+			"can't create a hard link to a directory: " + absOld,
+		)
+	}
 
 	absNew := driver.NormalizePath(newname)
 	// Technically checking to see if the file exists before attempting the link
 	// can result in a TOCTOU bug. If this were a more serious project, we would
 	// do some sort of locking or push the check into the underlying implementation.
 	// This is supposed to be a fun little thing, so I'm ignoring that edge case.
-	_, err = driver.getObjectAtPathFollowingLink(absNew)
+	existing, err := driver.getObjectAtPathNoFollow(absNew)
 	if err == nil {
+		existing.Close()
 		return disko.ErrExists.WithMessage("hard link target already exists: " + absNew)
+	} else if !errors.Is(err, disko.ErrNotFound) {
+		return err
 	}
 
 	targetParentPath, targetName := splitPath(absNew)
@@ -593,6 +604,7 @@ func (driver *BaseDriver) Link(oldname, newname string) error {
 	if err != nil {
 		return err
 	}
+	defer parentHandle.Close()
 
 	_, err = linker.CreateHardLink(
 		unwrapObjectHandle(oldHandle),
-- 
2.43.0


From 66a31fb3f7eecf7e4340a9539df4539158695425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:46 +0000
Subject: [PATCH 22/53] fix: Mkdir and MkdirAll must handle existing names and
 missing parents

---
 driver/driver.go | 48 ++++++++++++++++++++++++++----------------------
 1 file changed, 26 insertions(+), 22 deletions(-)

diff --git a/driver/driver.go b/driver/driver.go
index 65e0681..16656a6 100644
--- a/driver/driver.go
+++ b/driver/driver.go
@@ -788,6 +788,14 @@ func (driver *BaseDriver) Mkdir(path string, perm os.FileMode) error {
 		)
 	}
 
+	existing, err := driver.getObjectAtPathNoFollow(absPath)
+	if err == nil {
+		existing.Close()
+		return disko.ErrExists.WithMessage(absPath)
+	} else if !errors.Is(err, disko.ErrNotFound) {
+		return err
+	}
+
 	object, err := driver.implementation.CreateObject(
 		baseName,
 		unwrapObjectHandle(parentObject),
@@ -801,34 +809,30 @@ func (driver *BaseDriver) Mkdir(path string, perm os.FileMode) error {
 
 func (driver *BaseDriver) MkdirAll(path string, perm os.FileMode) error {
 	absPath := driver.NormalizePath(path)
-	parentDir, baseName := splitPath(absPath)
 
-	// Force the permissions flags to indicate this is a directory so that the
-	// caller doesn't have to remember to do it themselves.
-	perm &^= os.ModeType
-	perm |= os.ModeDir
+	existing, err := driver.getObjectAtPathFollowingLink(absPath)
+	if err == nil {
+		defer existing.Close()
 
-	parentObject, err := driver.getObjectAtPathFollowingLink(parentDir)
-	if err != nil {
-		if errors.Is(err, disko.ErrNotFound) {
-			// Parent directory doesn't exist, create it.
-			driver.MkdirAll(parentDir, perm)
-		} else {
-			// Different error, we won't handle it.
-			return err
+		stat := existing.Stat()
+		if !stat.IsDir() {
+			return disko.ErrNotADirectory.WithMessage(absPath)
 		}
+		// Directory already exists, so there's nothing to do.
+		return nil
+	} else if !errors.Is(err, disko.ErrNotFound) {
+		// Different error, we won't handle it.
+		return err
 	}
-	defer parentObject.Close()
 
-	object, err := driver.implementation.CreateObject(
-		baseName,
-		unwrapObjectHandle(parentObject),
-		perm,
-	)
-	if err == nil {
-		object.Close()
+	// Ensure the parent directory exists, then create the directory in it. This
+	// always terminates because the root directory always exists.
+	parentDir, _ := splitPath(absPath)
+	parentErr := driver.MkdirAll(parentDir, perm)
+	if parentErr != nil {
+		return parentErr
 	}
-	return err
+	return driver.Mkdir(absPath, perm)
 }
 
 func (driver *BaseDriver) RemoveAll(path string) error {
-- 
2.43.0


From 7003f61cdf6809aa92baaed915137d793bebe001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:47 +0000
Subject: [PATCH 23/53] fix: Remove must act on symbolic links themselves and
 refuse the root directory

---
 driver/driver.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/driver/driver.go b/driver/driver.go
index 16656a6..0b6170b 100644
--- a/driver/driver.go
+++ b/driver/driver.go
@@ -691,12 +691,19 @@ func removeDotsFromSlice(arr []string) []string {
 
 func (driver *BaseDriver) Remove(path string) error {
 	absPath := driver.NormalizePath(path)
-	object, err := driver.getObjectAtPathFollowingLink(absPath)
+	object, err := driver.getObjectAtPathNoFollow(absPath)
 	if err != nil {
 		return err
 	}
 	defer object.Close()
 
+	root := driver.implementation.GetRootDirectory()
+	if root.SameAs(unwrapObjectHandle(object)) {
+		return disko.ErrPermissionDenied.WithMessage(
+			"you can't remove the root directory",
+		)
+	}
+
 	stat := object.Stat()
 	if stat.IsDir() {
 		// Caller wants to remove a directory. The directory must be empty, i.e.
@@ -716,10 +723,6 @@ func (driver *BaseDriver) Remove(path string) error {
 				fmt.Sprintf("can't remove %q: directory not empty", absPath),
 			)
 		}
-	} else if !stat.IsFile() {
-		return disko.ErrInvalidArgument.WithMessage(
-			fmt.Sprintf("can't remove %q: not a file or directory", absPath),
-		)
 	}
 
 	return object.Unlink()
-- 
2.43.0


From 860883128a32577ce6985ba0824480011fd1d9ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:48 +0000
Subject: [PATCH 24/53] fix: RemoveAll must remove what it was given, and
 nothing a symbolic link points to

---
 driver/driver.go | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/driver/driver.go b/driver/driver.go
index 0b6170b..44251a1 100644
--- a/driver/driver.go
+++ b/driver/driver.go
@@ -838,31 +838,39 @@ func (driver *BaseDriver) MkdirAll(path string, perm os.FileMode) error {
 	return driver.Mkdir(absPath, perm)
 }
 
+// RemoveAll removes the object at the given path and, if it's a directory, all
+// of its contents. Just like for [os.RemoveAll], it's not an error if the path
+// doesn't exist.
 func (driver *BaseDriver) RemoveAll(path string) error {
 	path = driver.NormalizePath(path)
-	directory, err := driver.getObjectAtPathFollowingLink(path)
-	if err != nil {
+	object, err := driver.getObjectAtPathNoFollow(path)
+	if errors.Is(err, disko.ErrNotFound) {
+		return nil
+	} else if err != nil {
 		return err
 	}
-	defer directory.Close()
-
-	stat := directory.Stat()
-	if !stat.IsDir() {
-		return disko.ErrNotADirectory.WithMessage(path)
-	}
+	defer object.Close()
 
 	// Block an attempt at `rm -rf /`, because some clown is gonna try it.
 	root := driver.implementation.GetRootDirectory()
-	if root.SameAs(unwrapObjectHandle(directory)) {
+	if root.SameAs(unwrapObjectHandle(object)) {
 		return disko.ErrPermissionDenied.WithMessage(
 			"you can't remove the root directory",
 		)
 	}
 
-	return driver.removeDirectory(directory)
+	stat := object.Stat()
+	if stat.IsDir() {
+		rmErr := driver.removeDirectory(object)
+		if rmErr != nil {
+			return rmErr
+		}
+	}
+	return object.Unlink()
 }
 
-// removeDirectory is equivalent to `rm -rf` for a directory handle.
+// removeDirectory is equivalent to `rm -rf` for the contents of a directory
+// handle. The directory itself isn't deleted.
 //
 // Deletion is depth-first, and terminates on the first error encountered.
 // Ownership and other permissions are not checked.
-- 
2.43.0


From f91015e91ab7051edb12529db7c5e605d4024e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:04 +0000
Subject: [PATCH 25/53] fix: enforce the insert, delete, write and administer
 mount permissions

---
 driver/driver.go | 44 ++++++++++++++++++++++++++++++++++++++++++++
 driver/file.go   |  8 ++++++++
 2 files changed, 52 insertions(+)

diff --git a/driver/driver.go b/driver/driver.go
index 44251a1..2b124f3 100644
--- a/driver/driver.go
+++ b/driver/driver.go
@@ -36,6 +36,14 @@ func New(
 	}
 }
 
+// readOnlyError returns the error for refusing an operation that the flags the
+// image was mounted with don't allow.
+func readOnlyError(path string) disko.DriverError {
+	return disko.ErrReadOnlyFileSystem.WithMessage(
+		"operation not allowed by mount flags: " + path,
+	)
+}
+
 // NormalizePath converts a file path to an absolute path using `/` as the
 // separators, and interprets `.` and `..` entries. Relative paths are rebased
 // from the current working directory (see [Getwd] for more).
@@ -410,6 +418,10 @@ func (driver *BaseDriver) chdirToObject(object extObjectHandle) error {
 
 func (driver *BaseDriver) Chmod(name string, mode os.FileMode) error {
 	absPath := driver.NormalizePath(name)
+	if !driver.mountFlags.CanAdminister() {
+		return readOnlyError(absPath)
+	}
+
 	object, err := driver.getObjectAtPathFollowingLink(absPath)
 	if err != nil {
 		return err
@@ -424,6 +436,10 @@ func (driver *BaseDriver) Chmod(name string, mode os.FileMode) error {
 
 func (driver *BaseDriver) Chown(name string, uid, gid int) error {
 	absPath := driver.NormalizePath(name)
+	if !driver.mountFlags.CanAdminister() {
+		return readOnlyError(absPath)
+	}
+
 	object, err := driver.getObjectAtPathFollowingLink(absPath)
 	if err != nil {
 		return err
@@ -441,6 +457,10 @@ func (driver *BaseDriver) Chown(name string, uid, gid int) error {
 // Surely there's a cleaner way to do this.
 func (driver *BaseDriver) Lchown(name string, uid, gid int) error {
 	absPath := driver.NormalizePath(name)
+	if !driver.mountFlags.CanAdminister() {
+		return readOnlyError(absPath)
+	}
+
 	object, err := driver.getObjectAtPathNoFollow(absPath)
 	if err != nil {
 		return err
@@ -455,6 +475,10 @@ func (driver *BaseDriver) Lchown(name string, uid, gid int) error {
 
 func (driver *BaseDriver) Chtimes(name string, atime time.Time, mtime time.Time) error {
 	absPath := driver.NormalizePath(name)
+	if !driver.mountFlags.CanWrite() {
+		return readOnlyError(absPath)
+	}
+
 	object, err := driver.getObjectAtPathFollowingLink(absPath)
 	if err != nil {
 		return err
@@ -587,6 +611,10 @@ func (driver *BaseDriver) Link(oldname, newname string) error {
 	}
 
 	absNew := driver.NormalizePath(newname)
+	if !driver.mountFlags.CanInsert() {
+		return readOnlyError(absNew)
+	}
+
 	// Technically checking to see if the file exists before attempting the link
 	// can result in a TOCTOU bug. If this were a more serious project, we would
 	// do some sort of locking or push the check into the underlying implementation.
@@ -691,6 +719,10 @@ func removeDotsFromSlice(arr []string) []string {
 
 func (driver *BaseDriver) Remove(path string) error {
 	absPath := driver.NormalizePath(path)
+	if !driver.mountFlags.CanDelete() {
+		return readOnlyError(absPath)
+	}
+
 	object, err := driver.getObjectAtPathNoFollow(absPath)
 	if err != nil {
 		return err
@@ -731,6 +763,10 @@ func (driver *BaseDriver) Remove(path string) error {
 // Truncate sets the size of a file to 0.
 func (driver *BaseDriver) Truncate(path string) error {
 	absPath := driver.NormalizePath(path)
+	if !driver.mountFlags.CanWrite() {
+		return readOnlyError(absPath)
+	}
+
 	object, err := driver.getObjectAtPathFollowingLink(absPath)
 	if err != nil {
 		return err
@@ -772,6 +808,10 @@ func (driver *BaseDriver) Mkdir(path string, perm os.FileMode) error {
 	perm |= os.ModeDir
 
 	absPath := driver.NormalizePath(path)
+	if !driver.mountFlags.CanInsert() {
+		return readOnlyError(absPath)
+	}
+
 	parentDir, baseName := splitPath(absPath)
 
 	parentObject, err := driver.getObjectAtPathFollowingLink(parentDir)
@@ -843,6 +883,10 @@ func (driver *BaseDriver) MkdirAll(path string, perm os.FileMode) error {
 // doesn't exist.
 func (driver *BaseDriver) RemoveAll(path string) error {
 	path = driver.NormalizePath(path)
+	if !driver.mountFlags.CanDelete() {
+		return readOnlyError(path)
+	}
+
 	object, err := driver.getObjectAtPathNoFollow(path)
 	if errors.Is(err, disko.ErrNotFound) {
 		return nil
diff --git a/driver/file.go b/driver/file.go
index 0fa601a..86af80a 100644
--- a/driver/file.go
+++ b/driver/file.go
@@ -144,6 +144,10 @@ func (file *File) Chdir() error {
 }
 
 func (file *File) Chmod(mode os.FileMode) error {
+	if !file.owningDriver.mountFlags.CanAdminister() {
+		return readOnlyError(file.objectHandle.AbsolutePath())
+	}
+
 	chmodHandle, ok := unwrapObjectHandle(file.objectHandle).(disko.SupportsChmodHandle)
 	if ok {
 		return chmodHandle.Chmod(mode)
@@ -152,6 +156,10 @@ func (file *File) Chmod(mode os.FileMode) error {
 }
 
 func (file *File) Chown(uid, gid int) error {
+	if !file.owningDriver.mountFlags.CanAdminister() {
+		return readOnlyError(file.objectHandle.AbsolutePath())
+	}
+
 	chownHandle, ok := unwrapObjectHandle(file.objectHandle).(disko.SupportsChownHandle)
 	if ok {
 		return chownHandle.Chown(uid, gid)
-- 
2.43.0


From d6884a7204bf45a42e8bb8862bf525c6c56ca71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:30 +0000
Subject: [PATCH 26/53] fix: Chmod must only pass permission bits to the
 implementation

---
 driver/driver.go | 2 +-
 driver/file.go   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/driver/driver.go b/driver/driver.go
index 2b124f3..214c7b2 100644
--- a/driver/driver.go
+++ b/driver/driver.go
@@ -431,7 +431,7 @@ func (driver *BaseDriver) Chmod(name string, mode os.FileMode) error {
 	if !ok {
 		return disko.ErrNotImplemented
 	}
-	return chmodObject.Chmod(mode)
+	return chmodObject.Chmod(mode.Perm())
 }
 
 func (driver *BaseDriver) Chown(name string, uid, gid int) error {
diff --git a/driver/file.go b/driver/file.go
index 86af80a..0b58d2e 100644
--- a/driver/file.go
+++ b/driver/file.go
@@ -150,7 +150,7 @@ func (file *File) Chmod(mode os.FileMode) error {
 
 	chmodHandle, ok := unwrapObjectHandle(file.objectHandle).(disko.SupportsChmodHandle)
 	if ok {
-		return chmodHandle.Chmod(mode)
+		return chmodHandle.Chmod(mode.Perm())
 	}
 	return disko.ErrNotSupported
 }
-- 
2.43.0


From cf46a9dc08ac2d96ccf5f0980b9085438d543066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:31 +0000
Subject: [PATCH 27/53] fix: WriteFile must report failure to store the data

---
 driver/driver.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/driver/driver.go b/driver/driver.go
index 214c7b2..ef918a0 100644
--- a/driver/driver.go
+++ b/driver/driver.go
@@ -795,10 +795,12 @@ func (driver *BaseDriver) WriteFile(
 	if err != nil {
 		return err
 	}
-	defer handle.Close()
-
 	_, err = handle.Write(data)
-	return err
+	closeErr := handle.Close()
+	if err != nil {
+		return err
+	}
+	return closeErr
 }
 
 func (driver *BaseDriver) Mkdir(path string, perm os.FileMode) error {
-- 
2.43.0


From bf8e9b31af4486527a1a4c1a0e6d1b243225444b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:32 +0000
Subject: [PATCH 28/53] fix: Stat on a directory entry must not panic

---
 driver/dirent.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/driver/dirent.go b/driver/dirent.go
index 7579a01..64f1569 100644
--- a/driver/dirent.go
+++ b/driver/dirent.go
@@ -8,8 +8,6 @@ import (
 )
 
 type DirectoryEntry struct {
-	disko.DirectoryEntry
-
 	// name is the name of the directory entry without its path component.
 	name string
 	// stat is a copy of the file's status information.
@@ -39,6 +37,10 @@ func (dirent DirectoryEntry) Info() (os.FileInfo, error) {
 	return dirent, nil
 }
 
+func (dirent DirectoryEntry) Stat() disko.FileStat {
+	return dirent.stat
+}
+
 func (dirent DirectoryEntry) Size() int64 {
 	return dirent.stat.Size
 }
-- 
2.43.0


From 3f549557c74fd9d35fccdc8b1bf384244f3fc5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:33 +0000
Subject: [PATCH 29/53] fix: File.ReadDir must stay at the end and must not
 fail when asked for all entries

---
 driver/file.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/driver/file.go b/driver/file.go
index 0b58d2e..beda33c 100644
--- a/driver/file.go
+++ b/driver/file.go
@@ -183,8 +183,8 @@ func (file *File) ReadDir(n int) ([]os.DirEntry, error) {
 	}
 
 	if file.lastReadDirResult == nil {
-		// The function has never been called or was exhausted on a previous
-		// call. Read the contents of the directory and set up the queue.
+		// The function has never been called. Read the contents of the directory
+		// and set up the queue.
 		entries, err := file.owningDriver.readDir(file.objectHandle)
 		if err != nil {
 			return nil, err
@@ -204,10 +204,9 @@ func (file *File) ReadDir(n int) ([]os.DirEntry, error) {
 
 	result := make([]os.DirEntry, numToCopy)
 
-	// If there are no entries remaining, return an empty slice and io.EOF.
-	if entriesRemaining == 0 {
-		file.lastReadDirResult = nil
-		file.readDirResultPointer = 0
+	// If there are no entries remaining, return an empty slice and io.EOF. It's
+	// only an error if the caller asked for a specific number of entries.
+	if entriesRemaining == 0 && n > 0 {
 		return result, io.EOF
 	}
 
-- 
2.43.0


From 5908a04ccfaeea3953076ae8664663bab84ab832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:34 +0000
Subject: [PATCH 30/53] fix: files must set the exact size of their object, in
 bytes

---
 driver/file.go                                | 40 +++++++++++++++++--
 .../common/basicstream/basicstream.go         | 20 ++++++++++
 2 files changed, 56 insertions(+), 4 deletions(-)

diff --git a/driver/file.go b/driver/file.go
index beda33c..a093362 100644
--- a/driver/file.go
+++ b/driver/file.go
@@ -109,11 +109,31 @@ func NewFileFromObjectHandle(
 	flushCb := func(index common.LogicalBlock, buffer []byte) error {
 		return object.WriteBlocks(index, buffer)
 	}
-	resizeCb := func(newSize common.LogicalBlock) error {
-		return object.Resize(uint64(newSize))
+	stat := object.Stat()
+
+	// The block cache resizes the object in whole blocks. The exact size is set
+	// when the data is written out.
+	objectSize := stat.Size
+	resizeObject := func(newSize int64) error {
+		if newSize == objectSize {
+			return nil
+		}
+		err := object.Resize(uint64(newSize))
+		if err != nil {
+			return err
+		}
+		objectSize = newSize
+		return nil
+	}
+	resizeCb := func(newTotalBlocks common.LogicalBlock) error {
+		unusedBytes := int64(newTotalBlocks)*stat.BlockSize - objectSize
+		if unusedBytes >= 0 && unusedBytes < stat.BlockSize {
+			// The object already has the right number of blocks.
+			return nil
+		}
+		return resizeObject(int64(newTotalBlocks) * stat.BlockSize)
 	}
 
-	stat := object.Stat()
 	blockCache := blockcache.New(
 		uint(stat.BlockSize),
 		uint(stat.NumBlocks),
@@ -127,6 +147,8 @@ func NewFileFromObjectHandle(
 		return File{}, err
 	}
 
+	stream.OnSync(resizeObject)
+
 	return File{
 		owningDriver: driver,
 		objectHandle: object,
@@ -261,5 +283,15 @@ func (file *File) Readdirnames(n int) ([]string, error) {
 }
 
 func (file *File) Stat() (os.FileInfo, error) {
-	return file.fileInfo.Info()
+	stat := file.objectHandle.Stat()
+	if !stat.IsDir() {
+		// Changes to the size may not have been written out yet.
+		stat.Size = file.BasicStream.Size()
+	}
+
+	file.fileInfo.FileStat = stat
+	return &FileInfo{
+		FileStat:     stat,
+		absolutePath: file.fileInfo.absolutePath,
+	}, nil
 }
diff --git a/file_systems/common/basicstream/basicstream.go b/file_systems/common/basicstream/basicstream.go
index c3bccc8..37d701d 100644
--- a/file_systems/common/basicstream/basicstream.go
+++ b/file_systems/common/basicstream/basicstream.go
@@ -20,8 +20,14 @@ type BasicStream struct {
 	position int64
 	data     *blockcache.BlockCache
 	ioFlags  disko.IOFlags
+	setSize  SetSizeCallback
 }
 
+// SetSizeCallback is a pointer to a function that records the exact size of the
+// stream, in bytes, in the backing storage. The number of blocks required for
+// this size will already be available when this is called.
+type SetSizeCallback func(size int64) error
+
 // New creates a [BasicStream] on top of a block cache. The `size` argument gives
 // the exact size of the stream, in bytes. The only requirement for this is that
 // it must be between 0 and `data.Size()` (inclusive).
@@ -58,6 +64,14 @@ func New(
 	return stream, nil
 }
 
+// OnSync registers a callback that's invoked with the exact size of the stream
+// every time the stream is written out to the backing storage. This is needed by
+// storage that has to keep track of the size in bytes, since the block cache can
+// only handle entire blocks.
+func (stream *BasicStream) OnSync(callback SetSizeCallback) {
+	stream.setSize = callback
+}
+
 // convertLinearAddr converts a byte offset into a block+block offset pair. It
 // disregards the actual size of the stream, so it's possible (by design) to
 // generate offsets beyond the end of the stream. `offs` is guaranteed to be in
@@ -212,6 +226,12 @@ func (stream *BasicStream) Size() int64 {
 // Sync writes out all pending changes to the backing storage. After calling
 // this, all loaded blocks will be marked clean.
 func (stream *BasicStream) Sync() error {
+	if stream.setSize != nil {
+		err := stream.setSize(stream.size)
+		if err != nil {
+			return err
+		}
+	}
 	return stream.data.Flush()
 }
 
-- 
2.43.0


From 4e85698a0a72400ad670bc27c724d49bfd6e37ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:11 +0000
Subject: [PATCH 31/53] fix: FAT8 must be able to read the last sector of an
 image

---
 file_systems/fat8/iobase.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/file_systems/fat8/iobase.go b/file_systems/fat8/iobase.go
index d9dab62..4adf1c1 100644
--- a/file_systems/fat8/iobase.go
+++ b/file_systems/fat8/iobase.go
@@ -10,7 +10,8 @@ import (
 // BLOCK-LEVEL ACCESS ==========================================================
 
 func (driver *FAT8Driver) ReadDiskBlocks(start PhysicalBlock, count uint) ([]byte, error) {
-	if (uint(start) + count) >= uint(driver.stat.TotalBlocks) {
+	totalBlocks := uint(driver.stat.TotalBlocks)
+	if count > totalBlocks || uint(start) > totalBlocks-count {
 		return nil, fmt.Errorf(
 			"refusing to read past end of image: %d blocks at %d exceeds limit of %d",
 			start,
-- 
2.43.0


From b8ef423af9c9a815edf530b8dd6ba9f987751891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:12 +0000
Subject: [PATCH 32/53] fix: FAT8 cluster reads and writes must agree on where
 a cluster is

---
 file_systems/fat8/iobase.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/file_systems/fat8/iobase.go b/file_systems/fat8/iobase.go
index 4adf1c1..732d627 100644
--- a/file_systems/fat8/iobase.go
+++ b/file_systems/fat8/iobase.go
@@ -89,7 +89,7 @@ func (driver *FAT8Driver) WriteAbsoluteCluster(clusterID PhysicalCluster, data [
 			len(data))
 	}
 
-	physicalBlock := uint(clusterID-1) * driver.geometry.SectorsPerTrack
+	physicalBlock := uint(clusterID-1) * driver.geometry.SectorsPerCluster
 	return driver.WriteDiskBlocks(PhysicalBlock(physicalBlock), data)
 }
 
@@ -137,7 +137,7 @@ func (driver *FAT8Driver) writeFAT() error {
 func (driver *FAT8Driver) ReadFileCluster(
 	dirent *DirectoryEntry, cluster LogicalCluster,
 ) ([]byte, error) {
-	if int(cluster) >= len(dirent.clusters) {
+	if uint(cluster) >= uint(len(dirent.clusters)) {
 		return nil, fmt.Errorf(
 			"cluster index out of bounds: %d not in [0, %d)",
 			cluster,
@@ -146,14 +146,13 @@ func (driver *FAT8Driver) ReadFileCluster(
 	}
 
 	physicalCluster := dirent.clusters[cluster]
-	physicalBlock := PhysicalBlock(uint(physicalCluster) * driver.geometry.SectorsPerCluster)
-	return driver.ReadDiskBlocks(physicalBlock, driver.geometry.SectorsPerCluster)
+	return driver.ReadAbsoluteCluster(physicalCluster)
 }
 
 func (driver *FAT8Driver) WriteFileCluster(
 	dirent *DirectoryEntry, cluster LogicalCluster, data []byte,
 ) error {
-	if int(cluster) >= len(dirent.clusters) {
+	if uint(cluster) >= uint(len(dirent.clusters)) {
 		return fmt.Errorf(
 			"cluster index out of bounds: %d not in [0, %d)",
 			cluster,
-- 
2.43.0


From 16968c5713f2011c707f1c5d19f939f50200a6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:13 +0000
Subject: [PATCH 33/53] fix: FAT8 formatting must reserve the clusters the
 directory track is in

---
 file_systems/fat8/formattingdriver.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/file_systems/fat8/formattingdriver.go b/file_systems/fat8/formattingdriver.go
index 6ea1815..cc502be 100644
--- a/file_systems/fat8/formattingdriver.go
+++ b/file_systems/fat8/formattingdriver.go
@@ -60,7 +60,10 @@ func (driver *FAT8Driver) FormatImage(options disks.BasicFormatterOptions) error
 
 	// Create a blank image filled with null bytes
 	fileSize := 128 * geo.TrueTotalTracks * geo.SectorsPerTrack
-	driver.image.Truncate(int64(fileSize))
+	err = driver.image.Truncate(int64(fileSize))
+	if err != nil {
+		return err
+	}
 
 	// According to the documentation, a newly formatted image must have the
 	// directory entries filled with 0xFF. Write out FF to all the dirents, up
@@ -84,11 +87,11 @@ func (driver *FAT8Driver) FormatImage(options disks.BasicFormatterOptions) error
 
 	// Construct a single copy of the FAT, and mark the directory track as
 	// reserved by putting 0xFE in its cluster entry. (It's always the middle
-	// track.)
+	// track.) The first cluster has the first entry in the FAT.
 	fat := bytes.Repeat([]byte{0xff}, int(geo.SectorsPerFAT)*128)
-	directoryClusterNumber := uint(geo.DirectoryTrackStart) / geo.SectorsPerTrack
-	fat[directoryClusterNumber] = 0xfe
-	fat[directoryClusterNumber+1] = 0xfe
+	directoryClusterIndex := uint(geo.DirectoryTrackStart) / geo.SectorsPerCluster
+	fat[directoryClusterIndex] = 0xfe
+	fat[directoryClusterIndex+1] = 0xfe
 
 	// Write all three copies of the FATs
 	allFATs := bytes.Repeat(fat, 3)
-- 
2.43.0


From 99b469a3934b6b3bda023a7c1d88f2b3ae6fdc61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:14 +0000
Subject: [PATCH 34/53] fix: FAT8 volumes that were not just formatted must be
 mountable

---
 file_systems/fat8/driver.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/file_systems/fat8/driver.go b/file_systems/fat8/driver.go
index 1fae1ba..46fca18 100644
--- a/file_systems/fat8/driver.go
+++ b/file_systems/fat8/driver.go
@@ -67,6 +67,11 @@ func (driver *FAT8Driver) Mount(flags disko.MountFlags) error {
 		return disko.ErrFileSystemCorrupted.Wrap(err)
 	}
 	driver.geometry = geo
+	driver.stat = disko.FSStat{
+		BlockSize:     128,
+		TotalBlocks:   uint64(offset) / 128,
+		MaxNameLength: 10,
+	}
 
 	// All FATs are identical on a clean volume, so we only need to store the
 	// first one. We might add dirty volume checking later.
@@ -76,12 +81,17 @@ func (driver *FAT8Driver) Mount(flags disko.MountFlags) error {
 	}
 	driver.fat = fat
 
-	// Build a list of all currently free clusters.
-	for i, clusterNumber := range fat {
+	// Build a list of all currently free clusters. The FAT is padded to a multiple
+	// of the sector size, so there are more entries than there are clusters.
+	driver.freeClusters = nil
+	for i, clusterNumber := range fat[:geo.TotalClusters] {
 		if clusterNumber == 0xff {
 			driver.freeClusters = append(driver.freeClusters, uint8(i+1))
 		}
 	}
+	blocksFree := uint64(len(driver.freeClusters)) * uint64(geo.SectorsPerCluster)
+	driver.stat.BlocksFree = blocksFree
+	driver.stat.BlocksAvailable = blocksFree
 
 	// Get the info sector, which always immediately precedes the FATs. The first
 	// byte of the info sector tells us what the default attributes should be for
-- 
2.43.0


From 6c68a2f3845bfb8bd9ecd5776b0e933d74e488f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:27 +0000
Subject: [PATCH 35/53] fix: FAT8 file names ending with a period or with
 non-ASCII characters must not be mangled

---
 file_systems/fat8/common.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/file_systems/fat8/common.go b/file_systems/fat8/common.go
index 13eac3f..f8ec1e2 100644
--- a/file_systems/fat8/common.go
+++ b/file_systems/fat8/common.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"fmt"
 	"strings"
+	"unicode/utf8"
 
 	"github.com/dargueta/disko"
 )
@@ -92,6 +93,14 @@ func FilenameToBytes(name string) ([]byte, error) {
 		return nil, disko.ErrInvalidArgument.WithMessage("filename must not be empty")
 	}
 
+	// Every character must take exactly one byte in the directory entry.
+	for _, char := range name {
+		if char >= utf8.RuneSelf {
+			return nil, disko.ErrInvalidArgument.WithMessage(
+				fmt.Sprintf("filename must only contain ASCII characters: %q", name))
+		}
+	}
+
 	parts := strings.SplitN(name, ".", 2)
 
 	// Unless we got an empty string, this will always have at least one element,
@@ -110,6 +119,10 @@ func FilenameToBytes(name string) ([]byte, error) {
 			// ended with a period. This is stupid, but not prohibited by the
 			// standard (I think) so we must support it.
 			parts[1] = "."
+		} else if parts[1] == "." {
+			// This would be the same as if there were only one trailing period.
+			return nil, disko.ErrInvalidArgument.WithMessage(
+				fmt.Sprintf("filename can't end with two periods: %q", name))
 		} else if len(parts[1]) > 3 {
 			// Extension is longer than three characters.
 			message := fmt.Sprintf(
@@ -134,7 +147,10 @@ func BytesToFilename(rawName []byte) (string, error) {
 	extension := bytes.TrimRight(rawName[6:], " ")
 
 	var name string
-	if len(extension) > 0 {
+	if string(extension) == "." {
+		// Special case for a filename that ends with a period.
+		name = string(stem) + "."
+	} else if len(extension) > 0 {
 		name = string(stem) + "." + string(extension)
 	} else {
 		name = string(stem)
-- 
2.43.0


From 4208ece0a044360587f44d06533cfae1ff8bc661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:10 +0000
Subject: [PATCH 36/53] fix: FAT boot sectors must be decodable and their
 layout computed correctly

---
 file_systems/fat/common.go | 54 ++++++++++++++++++++++----------------
 1 file changed, 32 insertions(+), 22 deletions(-)

diff --git a/file_systems/fat/common.go b/file_systems/fat/common.go
index 43e7195..b1db834 100644
--- a/file_systems/fat/common.go
+++ b/file_systems/fat/common.go
@@ -25,13 +25,13 @@ type RawFATBootSectorWithBPB struct {
 	ReservedSectors   uint16
 	NumFATs           uint8
 	RootEntryCount    uint16
-	totalSectors16    uint16
+	TotalSectors16    uint16
 	Media             uint8
-	sectorsPerFAT16   uint16
+	SectorsPerFAT16   uint16
 	SectorsPerTrack   uint16
 	NumHeads          uint16
 	HiddenSectors     uint32
-	totalSectors32    uint32
+	TotalSectors32    uint32
 }
 
 // FATBootSector extends RawFATBootSectorWithBPB with precomputed fields useful in other
@@ -83,28 +83,19 @@ func NewFATBootSectorFromStream(reader io.Reader) (*FATBootSector, error) {
 	}
 
 	var sectorsPerFAT uint
-	if rawHeader.sectorsPerFAT16 != 0 {
-		sectorsPerFAT = uint(rawHeader.sectorsPerFAT16)
+	if rawHeader.SectorsPerFAT16 != 0 {
+		sectorsPerFAT = uint(rawHeader.SectorsPerFAT16)
 	} else {
 		sectorsPerFAT = uint(sectorsPerFAT32)
 	}
 
 	var totalSectors uint
-	if rawHeader.totalSectors16 != 0 {
-		totalSectors = uint(rawHeader.totalSectors16)
+	if rawHeader.TotalSectors16 != 0 {
+		totalSectors = uint(rawHeader.TotalSectors16)
 	} else {
-		totalSectors = uint(rawHeader.totalSectors32)
+		totalSectors = uint(rawHeader.TotalSectors32)
 	}
 
-	// The number of sectors taken up by the root directory. On FAT32 systems, this will
-	// be 0.
-	rootDirSectors := uint(
-		((rawHeader.RootEntryCount * 32) + (rawHeader.BytesPerSector - 1)) / rawHeader.BytesPerSector)
-
-	totalFATSectors := uint(rawHeader.NumFATs) * sectorsPerFAT
-	dataSectors := totalSectors - uint(rawHeader.ReservedSectors) + totalFATSectors + uint(rootDirSectors)
-	totalClusters := dataSectors / uint(rawHeader.SectorsPerCluster)
-
 	// BytesPerSector must be 512, 1024, 2048, or 4096.
 	switch rawHeader.BytesPerSector {
 	case 512:
@@ -135,6 +126,25 @@ func NewFATBootSectorFromStream(reader io.Reader) (*FATBootSector, error) {
 		return nil, disko.ErrFileSystemCorrupted.WithMessage(message)
 	}
 
+	// The number of sectors taken up by the root directory. On FAT32 systems, this will
+	// be 0.
+	bytesPerSector := uint(rawHeader.BytesPerSector)
+	rootDirSectors := ((uint(rawHeader.RootEntryCount) * DirentSize) + (bytesPerSector - 1)) / bytesPerSector
+
+	// The data area comes after the reserved sectors, the FATs, and the root directory.
+	totalFATSectors := uint(rawHeader.NumFATs) * sectorsPerFAT
+	firstDataSector := uint(rawHeader.ReservedSectors) + totalFATSectors + rootDirSectors
+	if firstDataSector > totalSectors {
+		message := fmt.Sprintf(
+			"corruption detected: data area starts at sector %d but there are only %d sectors",
+			firstDataSector,
+			totalSectors)
+		return nil, disko.ErrFileSystemCorrupted.WithMessage(message)
+	}
+
+	dataSectors := totalSectors - firstDataSector
+	totalClusters := dataSectors / uint(rawHeader.SectorsPerCluster)
+
 	fatVersion := DetermineFATVersion(totalClusters)
 	if fatVersion == 32 && rootDirSectors != 0 {
 		message := fmt.Sprintf(
@@ -163,21 +173,21 @@ func NewFATBootSectorFromStream(reader io.Reader) (*FATBootSector, error) {
 			ReservedSectors:   rawHeader.ReservedSectors,
 			NumFATs:           rawHeader.NumFATs,
 			RootEntryCount:    rawHeader.RootEntryCount,
-			totalSectors16:    rawHeader.totalSectors16,
+			TotalSectors16:    rawHeader.TotalSectors16,
 			Media:             rawHeader.Media,
-			sectorsPerFAT16:   rawHeader.sectorsPerFAT16,
+			SectorsPerFAT16:   rawHeader.SectorsPerFAT16,
 			SectorsPerTrack:   rawHeader.SectorsPerTrack,
 			NumHeads:          rawHeader.NumHeads,
 			HiddenSectors:     rawHeader.HiddenSectors,
-			totalSectors32:    rawHeader.totalSectors32,
+			TotalSectors32:    rawHeader.TotalSectors32,
 		},
 		SectorsPerFAT:     sectorsPerFAT,
 		TotalFATSectors:   totalFATSectors,
 		RootDirSectors:    rootDirSectors,
 		BytesPerCluster:   bytesPerCluster,
 		TotalClusters:     totalClusters,
-		TotalDataSectors:  totalSectors - (uint(rawHeader.ReservedSectors) + totalFATSectors + rootDirSectors),
-		FirstDataSector:   SectorID(uint(rawHeader.ReservedSectors) + rootDirSectors),
+		TotalDataSectors:  dataSectors,
+		FirstDataSector:   SectorID(firstDataSector),
 		FATVersion:        fatVersion,
 		DirentsPerCluster: int(bytesPerCluster) / DirentSize,
 	}
-- 
2.43.0


From 0afd76388629e579efd223afdeed7d6c6274a71b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:11 +0000
Subject: [PATCH 37/53] fix: FAT clusters must be read completely and from the
 right place

---
 file_systems/fat/driverbase.go | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/file_systems/fat/driverbase.go b/file_systems/fat/driverbase.go
index c250927..5e190cc 100644
--- a/file_systems/fat/driverbase.go
+++ b/file_systems/fat/driverbase.go
@@ -34,27 +34,35 @@ type FATDriver struct {
 }
 
 func (drv *FATDriver) getFirstSectorOfCluster(cluster ClusterID) (SectorID, error) {
+	// The first two entries in the FAT are reserved, so the first cluster in the data
+	// area is number 2.
+	if cluster < 2 {
+		return 0, disko.ErrInvalidArgument.WithMessage(
+			fmt.Sprintf("cluster 0x%x isn't in the data area", cluster))
+	}
+
 	bootSector := drv.fs.GetBootSector()
 	return bootSector.FirstDataSector + SectorID(
-		uint32(bootSector.SectorsPerCluster)*uint32(cluster)), nil
+		uint32(bootSector.SectorsPerCluster)*uint32(cluster-2)), nil
 }
 
 func (drv *FATDriver) readAbsoluteSectors(sector SectorID, numSectors uint) ([]byte, error) {
 	bootSector := drv.fs.GetBootSector()
 
-	buffer := make([]byte, bootSector.BytesPerSector)
+	buffer := make([]byte, uint(bootSector.BytesPerSector)*numSectors)
 	diskFile := drv.diskFile.(io.ReaderAt)
 
-	nRead, err := diskFile.ReadAt(buffer, int64(bootSector.BytesPerSector)*int64(sector)*int64(numSectors))
+	nRead, err := diskFile.ReadAt(buffer, int64(bootSector.BytesPerSector)*int64(sector))
 
-	if err != nil {
-		return buffer, err
-	} else if nRead < int(bootSector.BytesPerSector) {
+	// It's not an error if we hit EOF after getting everything we wanted.
+	if nRead == len(buffer) {
+		return buffer, nil
+	} else if err != nil {
+		return nil, err
+	} else {
 		return nil, fmt.Errorf(
-			"unexpected short read. Wanted %d bytes, got %d", bootSector.BytesPerSector, nRead)
+			"unexpected short read. Wanted %d bytes, got %d", len(buffer), nRead)
 	}
-
-	return buffer, nil
 }
 
 // readCluster returns the bytes of the `index`th cluster on the file system.
-- 
2.43.0


From 788a16c9d5d0acff3383331aa237130ec739cd4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:12 +0000
Subject: [PATCH 38/53] fix: following a FAT cluster chain must end at its end
 marker and must always terminate

---
 file_systems/fat/driverbase.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/file_systems/fat/driverbase.go b/file_systems/fat/driverbase.go
index 5e190cc..cff022c 100644
--- a/file_systems/fat/driverbase.go
+++ b/file_systems/fat/driverbase.go
@@ -81,16 +81,27 @@ func (drv *FATDriver) readCluster(cluster ClusterID) ([]byte, error) {
 // The returned list will always have chainStart as its first member, unless chainStart
 // is an EOF marker (e.g. 0xFFF on FAT12 systems). In this case, the list is empty.
 func (drv *FATDriver) listClusters(chainStart ClusterID) ([]ClusterID, error) {
+	chain := []ClusterID{}
+	if drv.fs.IsEndOfChain(chainStart) {
+		return chain, nil
+	}
+
 	if !drv.fs.IsValidCluster(chainStart) {
 		return nil, disko.ErrInvalidArgument.WithMessage(
 			fmt.Sprintf("invalid cluster 0x%x cannot start a cluster chain", chainStart))
 	}
 
-	chain := []ClusterID{}
+	visited := make(map[ClusterID]bool)
 	currentCluster := chainStart
 	i := 0
 
 	for !drv.fs.IsEndOfChain(currentCluster) {
+		if visited[currentCluster] {
+			return chain, disko.ErrFileSystemCorrupted.WithMessage(
+				fmt.Sprintf(
+					"cluster %d found twice in chain from %d", currentCluster, chainStart))
+		}
+		visited[currentCluster] = true
 		chain = append(chain, currentCluster)
 
 		nextCluster, err := drv.fs.GetClusterAtIndex(uint(currentCluster))
@@ -98,7 +109,7 @@ func (drv *FATDriver) listClusters(chainStart ClusterID) ([]ClusterID, error) {
 			return nil, err
 		}
 
-		if !drv.fs.IsValidCluster(nextCluster) {
+		if !drv.fs.IsEndOfChain(nextCluster) && !drv.fs.IsValidCluster(nextCluster) {
 			// Hit an invalid cluster. This is not the same as EOF, and usually indicates
 			// corruption of some sort.
 			return chain, disko.ErrFileSystemCorrupted.WithMessage(
-- 
2.43.0


From c9bb2a6c69b5ada9f3a8a4764e485d807326f1b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:13 +0000
Subject: [PATCH 39/53] fix: FAT file reads must handle empty files and chains
 that are too long or too short

---
 file_systems/fat/driverbase.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/file_systems/fat/driverbase.go b/file_systems/fat/driverbase.go
index cff022c..16256de 100644
--- a/file_systems/fat/driverbase.go
+++ b/file_systems/fat/driverbase.go
@@ -308,6 +308,11 @@ func (drv *FATDriver) ReadFile(path string) ([]byte, error) {
 		return nil, disko.ErrIsADirectory
 	}
 
+	// Empty files don't need to have a cluster chain.
+	if dirent.size == 0 {
+		return []byte{}, nil
+	}
+
 	allClusters, err := drv.listClusters(dirent.FirstCluster)
 	if err != nil {
 		return nil, err
@@ -315,6 +320,13 @@ func (drv *FATDriver) ReadFile(path string) ([]byte, error) {
 
 	bs := drv.fs.GetBootSector()
 	bytesRemaining := dirent.size
+	if int64(len(allClusters))*int64(bs.BytesPerCluster) < bytesRemaining {
+		return nil, disko.ErrFileSystemCorrupted.WithMessage(
+			fmt.Sprintf(
+				"file is %d bytes but its cluster chain only has %d clusters",
+				bytesRemaining,
+				len(allClusters)))
+	}
 
 	// Now that we have a list of all the clusters in this file, we can stitch the file
 	// together by concatenating their contents. The last cluster may not be completely
@@ -342,6 +354,10 @@ func (drv *FATDriver) ReadFile(path string) ([]byte, error) {
 		}
 
 		bytesRemaining -= int64(bs.BytesPerCluster)
+		if bytesRemaining <= 0 {
+			// Ignore superfluous clusters at the end of the chain.
+			break
+		}
 	}
 
 	return buffer.Bytes(), nil
-- 
2.43.0


From 4c69592b4b0cc35bd7a5ba8405beafc27a85e60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:46 +0000
Subject: [PATCH 40/53] fix: FAT directory entries must be decoded from the
 right offsets and never panic

---
 file_systems/fat/dirent.go | 61 +++++++++++++++++++++++---------------
 1 file changed, 37 insertions(+), 24 deletions(-)

diff --git a/file_systems/fat/dirent.go b/file_systems/fat/dirent.go
index aff9323..9a3e77c 100644
--- a/file_systems/fat/dirent.go
+++ b/file_systems/fat/dirent.go
@@ -3,6 +3,7 @@ package fat
 import (
 	"encoding/binary"
 	"errors"
+	"fmt"
 	"os"
 	"strings"
 	"syscall"
@@ -162,7 +163,8 @@ func (d *Dirent) SetDeletedAt(t time.Time) error {
 		return disko.ErrArgumentOutOfRange
 	}
 	d.isDeleted = true
-	return d.SetCreatedAt(t)
+	d.stat.DeletedAt = t
+	return nil
 }
 
 // DirentSize is the size of a single raw directory entry, in bytes.
@@ -175,7 +177,7 @@ func DateFromInt(value uint16) time.Time {
 	createMonth := time.Month((value >> 5) & 0x000f)
 	createYear := int(1980 + (value >> 9))
 
-	return time.Date(createYear, createMonth, createDay, 0, 0, 0, 0, nil)
+	return time.Date(createYear, createMonth, createDay, 0, 0, 0, 0, time.Local)
 }
 
 // TimestampFromParts converts a FAT timestamp into a [time.Time] object.
@@ -192,31 +194,36 @@ func TimestampFromParts(datePart uint16, timePart uint16, hundredths uint8) time
 
 	minutes := int((timePart >> 5) & 0x003f)
 	hours := int(timePart >> 11)
-	nanoseconds := int(timePart * 10000)
+	nanoseconds := int(hundredths) * int(10*time.Millisecond)
 
 	return time.Date(
-		dateDt.Year(), dateDt.Month(), dateDt.Day(), hours, minutes, seconds, nanoseconds, nil)
+		dateDt.Year(),
+		dateDt.Month(),
+		dateDt.Day(),
+		hours,
+		minutes,
+		seconds,
+		nanoseconds,
+		time.Local)
 }
 
 // AttrFlagsToFileMode converts FAT attribute flags into the mode flags used by
-// [syscall.Stat_t.Mode].
+// [os.FileInfo].
 func AttrFlagsToFileMode(flags uint8) os.FileMode {
 	var mode os.FileMode
 
 	// FAT has no way to mark files as executable or not, so the executable bit
 	// is always set.
 	if (flags & AttrReadOnly) != 0 {
-		mode = 0o755
+		mode = 0o555
 	} else {
 		mode = 0o777
 	}
 
 	if (flags & AttrDirectory) != 0 {
-		mode |= syscall.S_IFDIR
+		mode |= os.ModeDir
 	} else if (flags & AttrDevice) != 0 {
-		mode |= syscall.S_IFCHR
-	} else {
-		mode |= syscall.S_IFREG
+		mode |= os.ModeDevice | os.ModeCharDevice
 	}
 
 	return mode
@@ -225,18 +232,24 @@ func AttrFlagsToFileMode(flags uint8) os.FileMode {
 // NewRawDirentFromBytes deserializes 32 bytes into a RawDirent struct for further
 // processing.
 func NewRawDirentFromBytes(data []byte) (RawDirent, error) {
+	if len(data) < DirentSize {
+		return RawDirent{}, disko.ErrInvalidArgument.WithMessage(
+			fmt.Sprintf(
+				"a directory entry is %d bytes, only got %d", DirentSize, len(data)))
+	}
+
 	dirent := RawDirent{
-		AttributeFlags:    data[12],
-		NTReserved:        data[13],
-		CreatedTimeMillis: data[14],
-		CreatedTime:       binary.LittleEndian.Uint16(data[15:17]),
-		CreatedDate:       binary.LittleEndian.Uint16(data[17:19]),
-		LastAccessedDate:  binary.LittleEndian.Uint16(data[19:21]),
-		FirstClusterHigh:  binary.LittleEndian.Uint16(data[21:23]),
-		LastModifiedTime:  binary.LittleEndian.Uint16(data[23:25]),
-		LastModifiedDate:  binary.LittleEndian.Uint16(data[25:27]),
-		FirstClusterLow:   binary.LittleEndian.Uint16(data[27:29]),
-		FileSize:          binary.LittleEndian.Uint32(data[29:32]),
+		AttributeFlags:    data[11],
+		NTReserved:        data[12],
+		CreatedTimeMillis: data[13],
+		CreatedTime:       binary.LittleEndian.Uint16(data[14:16]),
+		CreatedDate:       binary.LittleEndian.Uint16(data[16:18]),
+		LastAccessedDate:  binary.LittleEndian.Uint16(data[18:20]),
+		FirstClusterHigh:  binary.LittleEndian.Uint16(data[20:22]),
+		LastModifiedTime:  binary.LittleEndian.Uint16(data[22:24]),
+		LastModifiedDate:  binary.LittleEndian.Uint16(data[24:26]),
+		FirstClusterLow:   binary.LittleEndian.Uint16(data[26:28]),
+		FileSize:          binary.LittleEndian.Uint32(data[28:32]),
 	}
 
 	copy(dirent.Name[:], data[:8])
@@ -302,14 +315,14 @@ func NewDirentFromRaw(bootSector *FATBootSector, rawDirent *RawDirent) (Dirent,
 	trimmedName := strings.TrimRight(string(rawDirent.Name[:]), " ")
 	trimmedExt := strings.TrimRight(string(rawDirent.Extension[:]), " ")
 
-	if trimmedName[0] == 0xE5 {
+	if rawDirent.Name[0] == 0xE5 {
 		// Represents a deleted file. The real first character of the filename is in
 		// CreatedTimeMillis.
 		trimmedName = string([]byte{rawDirent.CreatedTimeMillis}) + trimmedName[1:]
-	} else if trimmedName[0] == 0x05 {
+	} else if rawDirent.Name[0] == 0x05 {
 		// First character of the filename is E5.
 		trimmedName = "\xe5" + trimmedName[1:]
-	} else if trimmedName[0] == 0 {
+	} else if rawDirent.Name[0] == 0 {
 		// This directory entry is free and thus invalid.
 		return Dirent{}, disko.ErrNotFound
 	}
-- 
2.43.0


From 65e856d0d32d42e4445e1b1a0504594b77610c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:47 +0000
Subject: [PATCH 41/53] fix: listing a FAT directory must handle full clusters
 and references to the root

---
 file_systems/fat/driverbase.go | 69 +++++++++-------------------------
 1 file changed, 18 insertions(+), 51 deletions(-)

diff --git a/file_systems/fat/driverbase.go b/file_systems/fat/driverbase.go
index 16256de..70cd72e 100644
--- a/file_systems/fat/driverbase.go
+++ b/file_systems/fat/driverbase.go
@@ -129,51 +129,6 @@ func (drv *FATDriver) listClusters(chainStart ClusterID) ([]ClusterID, error) {
 
 }
 
-// getClusterInChain returns the ID of the `index`th cluster in the chain starting at
-// `firstCluster`. Indexing begins at 0. A cluster ID of 0 indicates an error occurred,
-// and the Error object in the second return value will indicate what went wrong.
-func (drv *FATDriver) getClusterInChain(firstCluster ClusterID, index uint) (ClusterID, error) {
-	currentCluster := firstCluster
-
-	for i := uint(0); i < index; i++ {
-		nextCluster, err := drv.fs.GetClusterAtIndex(uint(currentCluster))
-		if err != nil {
-			return 0, err
-		}
-
-		if drv.fs.IsEndOfChain(nextCluster) {
-			// Hit EOF
-			return 0, disko.ErrInvalidArgument.WithMessage(
-				fmt.Sprintf(
-					"cluster index %d out of bounds -- chain from 0x%x has %d clusters",
-					index,
-					firstCluster,
-					i+1))
-		} else if !drv.fs.IsValidCluster(nextCluster) {
-			// Hit an invalid cluster. This is not the same as EOF, and usually indicates
-			// corruption of some sort.
-			return 0, disko.ErrFileSystemCorrupted.WithMessage(
-				fmt.Sprintf(
-					"cluster %d followed by invalid cluster 0x%x at index %d in chain from %d",
-					currentCluster,
-					nextCluster,
-					i,
-					firstCluster))
-		}
-		currentCluster = nextCluster
-	}
-
-	return currentCluster, nil
-}
-
-func (drv *FATDriver) readClusterOfDirent(dirent *Dirent, index uint) ([]byte, error) {
-	cluster, err := drv.getClusterInChain(dirent.FirstCluster, index)
-	if err != nil {
-		return nil, err
-	}
-	return drv.readCluster(cluster)
-}
-
 ////////////////////////////////////////////////////////////////////////////////////////
 // Parts of the Driver interface that can be implemented with little knowledge of the
 // underlying file system.
@@ -223,12 +178,21 @@ func (drv *FATDriver) readDirFromDirent(directoryDirent *Dirent) ([]Dirent, erro
 		return nil, disko.ErrNotADirectory
 	}
 
+	// The root directory doesn't have a directory entry, but the `..` entries of its
+	// subdirectories refer to it as cluster 0.
+	if directoryDirent.FirstCluster == 0 {
+		return drv.fs.ListRootDirectory()
+	}
+
 	bootSector := drv.fs.GetBootSector()
 	allDirents := []Dirent{}
 
-	i := uint(0)
-	for {
-		clusterData, err := drv.readClusterOfDirent(directoryDirent, i)
+	// If there's a problem with the cluster chain, it only matters if it's before the
+	// end of the directory.
+	allClusters, chainErr := drv.listClusters(directoryDirent.FirstCluster)
+
+	for _, clusterID := range allClusters {
+		clusterData, err := drv.readCluster(clusterID)
 		if err != nil {
 			return nil, err
 		}
@@ -240,12 +204,15 @@ func (drv *FATDriver) readDirFromDirent(directoryDirent *Dirent) ([]Dirent, erro
 
 		allDirents = append(allDirents, clusterDirents...)
 		if len(clusterDirents) < bootSector.DirentsPerCluster {
-			break
+			// Hit the end marker.
+			return allDirents, nil
 		}
-
-		i++
 	}
 
+	// There's no end marker if the directory fills all of its clusters.
+	if chainErr != nil {
+		return nil, chainErr
+	}
 	return allDirents, nil
 }
 
-- 
2.43.0


From e58b90a02035b08d29e7f04a9e04e18d0e51aeef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:15 +0000
Subject: [PATCH 42/53] fix: FAT path lookup must split paths at slashes and
 report missing names

---
 file_systems/fat/driverbase.go | 59 ++++++++++++++++++++--------------
 1 file changed, 34 insertions(+), 25 deletions(-)

diff --git a/file_systems/fat/driverbase.go b/file_systems/fat/driverbase.go
index 70cd72e..a3efef0 100644
--- a/file_systems/fat/driverbase.go
+++ b/file_systems/fat/driverbase.go
@@ -5,7 +5,10 @@ import (
 	"fmt"
 	"io"
 	"os"
+	posixpath "path"
 	"path/filepath"
+	"slices"
+	"strings"
 	"time"
 
 	"github.com/dargueta/disko"
@@ -137,40 +140,46 @@ func (drv *FATDriver) listClusters(chainStart ClusterID) ([]ClusterID, error) {
 // path. If an error occurs, the second return value is an Error object indicating what
 // went wrong.
 func (drv *FATDriver) resolvePathToDirent(path string) (Dirent, error) {
-	cleanedPath := filepath.Clean(path)
-	pathParts := filepath.SplitList(cleanedPath)
+	cleanedPath := posixpath.Clean("/" + filepath.ToSlash(path))
+	currentDirent := makeRootDirent()
 
-	if len(pathParts) == 0 {
-		// Caller gave us an empty path after components were resolved.
-		return Dirent{}, disko.ErrInvalidArgument.WithMessage(
-			fmt.Sprintf("file path %q resolves to empty path", path))
-	}
-
-	// Get a listing for the root directory. We need to call a separate function because
-	// unlike FAT 32, FAT 12/16 have fixed-size root directories that aren't actually files.
-	// Drivers must give us a list of directory entries in the root directory.
-	currentDirContents, err := drv.fs.ListRootDirectory()
-	if err != nil {
-		return Dirent{}, nil
-	}
+	for _, component := range strings.Split(cleanedPath, "/") {
+		if component == "" {
+			continue
+		}
 
-	var currentDirent Dirent
+		// This fails if the current directory entry isn't a directory.
+		currentDirContents, err := drv.readDirFromDirent(&currentDirent)
+		if err != nil {
+			return Dirent{}, err
+		}
 
-	for _, component := range pathParts {
-		for _, entry := range currentDirContents {
-			if entry.name == component {
-				currentDirent = entry
-				currentDirContents, err = drv.readDirFromDirent(&entry)
-				if err != nil {
-					return Dirent{}, err
-				}
-			}
+		index := slices.IndexFunc(currentDirContents, func(entry Dirent) bool {
+			// Deleted entries and the volume label aren't files.
+			return entry.name == component &&
+				!entry.isDeleted && entry.AttributeFlags&AttrVolumeLabel == 0
+		})
+		if index < 0 {
+			return Dirent{}, disko.ErrNotFound.WithMessage(path)
 		}
+		currentDirent = currentDirContents[index]
 	}
 
 	return currentDirent, nil
 }
 
+// makeRootDirent returns a directory entry for the root directory, which doesn't have one
+// on the disk.
+func makeRootDirent() Dirent {
+	mode := AttrFlagsToFileMode(AttrDirectory)
+	return Dirent{
+		name:           "/",
+		AttributeFlags: AttrDirectory,
+		mode:           mode,
+		stat:           disko.FileStat{Nlinks: 1, ModeFlags: mode},
+	}
+}
+
 // readDirFromDirent returns a list of the directory entries found in directoryDirent,
 // including the `.` and `..` entries.
 func (drv *FATDriver) readDirFromDirent(directoryDirent *Dirent) ([]Dirent, error) {
-- 
2.43.0


From 5bc1ded15f5edbc702ef0940914e51d79f292de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:16 +0000
Subject: [PATCH 43/53] fix: removing a file from a FAT volume must free the
 file's own clusters

---
 file_systems/fat/driverbase.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/file_systems/fat/driverbase.go b/file_systems/fat/driverbase.go
index a3efef0..70a2bf5 100644
--- a/file_systems/fat/driverbase.go
+++ b/file_systems/fat/driverbase.go
@@ -441,6 +441,11 @@ func (drv *FATDriver) Remove(path string) error {
 		return err
 	}
 
+	// Empty files don't need to have a cluster chain.
+	if dirent.FirstCluster == 0 {
+		return nil
+	}
+
 	// Successfully deleted the directory entry. Now we release its clusters.
 	fileClusters, err := drv.listClusters(dirent.FirstCluster)
 	if err != nil {
@@ -451,7 +456,7 @@ func (drv *FATDriver) Remove(path string) error {
 	// if we hit an error then the dirent still points to the beginning of the cluster
 	// chain and we don't end up with an orphaned chain that would take up disk space.
 	for i := len(fileClusters) - 1; i >= 0; i-- {
-		err = drv.fs.FreeCluster(ClusterID(i))
+		err = drv.fs.FreeCluster(fileClusters[i])
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 306a0cb3b49f724cf6330d1cfc18d7e58e165fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:17 +0000
Subject: [PATCH 44/53] fix: comparing FAT directory entries must not panic

---
 file_systems/fat/driverbase.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/file_systems/fat/driverbase.go b/file_systems/fat/driverbase.go
index 70a2bf5..f7fa643 100644
--- a/file_systems/fat/driverbase.go
+++ b/file_systems/fat/driverbase.go
@@ -240,10 +240,11 @@ func (drv *FATDriver) Readlink(path string) (string, error) {
 
 // SameFile determines if two FileInfos reference the same file.
 func (drv *FATDriver) SameFile(fi1, fi2 os.FileInfo) bool {
-	dirLeft := fi1.Sys().(Dirent)
-	dirRight := fi2.Sys().(Dirent)
+	// The inode number is the first cluster.
+	statLeft := fi1.Sys().(disko.FileStat)
+	statRight := fi2.Sys().(disko.FileStat)
 
-	return dirLeft.FirstCluster == dirRight.FirstCluster
+	return statLeft.InodeNumber == statRight.InodeNumber
 }
 
 // TODO: Open
-- 
2.43.0


From c58616832e0f1b18bd8c8042ebd051b57ee6d286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:18 +0000
Subject: [PATCH 45/53] fix: the size in a Unix V6 inode starts with the high
 byte

---
 file_systems/unixv6/dirents.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/file_systems/unixv6/dirents.go b/file_systems/unixv6/dirents.go
index cdcaa12..6701350 100644
--- a/file_systems/unixv6/dirents.go
+++ b/file_systems/unixv6/dirents.go
@@ -123,9 +123,10 @@ func RawInodeToStat(inumber Inumber, inode RawInode) (disko.FileStat, error) {
 		return disko.FileStat{}, err
 	}
 
-	size := uint(inode.Size[0]) |
-		(uint(inode.Size[1]) << 8) |
-		(uint(inode.Size[2]) << 16)
+	// The high byte comes first, followed by the low word in little-endian order.
+	size := (uint(inode.Size[0]) << 16) |
+		uint(inode.Size[1]) |
+		(uint(inode.Size[2]) << 8)
 
 	blocks := size / 512
 	if size%512 != 0 {
-- 
2.43.0


From d502f991094bbc7e108621add2033ecc389a3519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:58 +0000
Subject: [PATCH 46/53] fix: keep the text of a basic error when adding context
 to it

NewError("x").WithMessage("m") lost the "x", and casting a plain error to a
DriverError put a stray ": " before its text.
---
 errors.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/errors.go b/errors.go
index b4fe158..8060afc 100644
--- a/errors.go
+++ b/errors.go
@@ -71,18 +71,27 @@ func (e baseDiskoError) RootCause() DriverError {
 
 func (e baseDiskoError) WithMessage(message string) DriverError {
 	return customDriverError{
-		message:       message,
+		message:       e.prefix(message),
 		originalError: e,
 	}
 }
 
 func (e baseDiskoError) Wrap(err error) DriverError {
 	return customDriverError{
-		message:       fmt.Sprintf("%s: %s", e.Error(), err.Error()),
+		message:       e.prefix(err.Error()),
 		originalError: multierror.Append(e, err),
 	}
 }
 
+// prefix prepends the text of this error to the given message. The root error
+// has no text of its own, so it leaves the message alone.
+func (e baseDiskoError) prefix(message string) string {
+	if e == rootError {
+		return message
+	}
+	return fmt.Sprintf("%s: %s", e.Error(), message)
+}
+
 // NewError creates a new basic [DriverError] with the given message.
 func NewError(message string) DriverError {
 	return baseDiskoError(message)
-- 
2.43.0


From 98e841a8ce9964ff9a61646029d324efa8b3a338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:25 +0000
Subject: [PATCH 47/53] fix: make DecompressRLERecursive decompress

It was a copy of CompressRLERecursive and compressed its input once more.
---
 utilities/compression/rle8.go | 96 +++++++++++++++++++++++------------
 1 file changed, 64 insertions(+), 32 deletions(-)

diff --git a/utilities/compression/rle8.go b/utilities/compression/rle8.go
index c9d20c6..3eab50e 100644
--- a/utilities/compression/rle8.go
+++ b/utilities/compression/rle8.go
@@ -176,51 +176,83 @@ func CompressRLERecursive(input io.Reader, output io.Writer) (int64, error) {
 
 // DecompressRLERecursive is the decompression counterpart to CompressRLERecursive.
 func DecompressRLERecursive(input io.Reader, output io.Writer) (int64, error) {
-	grouper := NewRLEGrouperFromReader(input)
-
+	source := bufio.NewReader(input)
+	lastByteRead := -1
 	totalBytesWritten := int64(0)
+
 	for {
-		run, getRunErr := grouper.GetNextRun()
-		if getRunErr != nil && !errors.Is(getRunErr, io.EOF) {
-			// An error was encountered and it's *not* EOF.
-			return totalBytesWritten, getRunErr
+		currentByte, err := source.ReadByte()
+		if err != nil {
+			if errors.Is(err, io.EOF) {
+				return totalBytesWritten, nil
+			}
+			return totalBytesWritten, fmt.Errorf("error reading input: %w", err)
 		}
 
-		if run.RunLength == 1 {
-			_, err := output.Write([]byte{run.Byte})
+		// The first byte of a run is written out as soon as we see it, since we
+		// can't tell it from a lone byte until we see the next one.
+		repetitions := int64(1)
+		if int(currentByte) == lastByteRead {
+			// Got two bytes in a row that are the same, so the remaining length
+			// of the run follows.
+			remaining, err := readRecursiveRunLength(source)
 			if err != nil {
-				return totalBytesWritten, err
+				return totalBytesWritten, fmt.Errorf(
+					"failed to read run length after two %02x bytes: %w",
+					currentByte,
+					err,
+				)
 			}
-			totalBytesWritten++
-		} else if run.RunLength >= 2 {
-			_, err := output.Write([]byte{run.Byte, run.Byte})
-			if err != nil {
-				return totalBytesWritten, err
-			}
-			totalBytesWritten += 2
+			repetitions += remaining
 
-			num255Repetitions := (run.RunLength - 2) / 255
-			remainder := (run.RunLength - 2) % 255
+			// Reset the last byte read since we're done with this group.
+			lastByteRead = -1
+		} else {
+			lastByteRead = int(currentByte)
+		}
 
-			_, err = output.Write(bytes.Repeat([]byte{255}, num255Repetitions))
-			if err != nil {
-				return totalBytesWritten, err
-			}
-			totalBytesWritten += int64(num255Repetitions)
+		n, err := writeRepeated(output, currentByte, repetitions)
+		totalBytesWritten += n
+		if err != nil {
+			return totalBytesWritten, fmt.Errorf("failed to write to output: %w", err)
+		}
+	}
+}
 
-			_, err = output.Write([]byte{byte(remainder)})
-			if err != nil {
-				return totalBytesWritten, err
+// readRecursiveRunLength reads the remaining length of a run, i.e. any number of
+// FF bytes followed by exactly one other byte. The length is the sum of them all.
+func readRecursiveRunLength(source io.ByteReader) (int64, error) {
+	length := int64(0)
+	for {
+		value, err := source.ReadByte()
+		if err != nil {
+			if errors.Is(err, io.EOF) {
+				err = io.ErrUnexpectedEOF
 			}
+			return length, err
+		}
 
-			totalBytesWritten++
+		length += int64(value)
+		if value != 255 {
+			return length, nil
 		}
+	}
+}
 
-		// We bail at the beginning of the loop if an error occurred and it's
-		// *not* EOF, so if the error here is non-nil then that means it *must*
-		// be EOF. That means we finished without errors.
-		if getRunErr != nil {
-			return totalBytesWritten, nil
+// writeRepeated writes `count` copies of a byte to the output. Runs can be far
+// longer than what we'd want to hold in memory, so this is done in chunks.
+func writeRepeated(output io.Writer, value byte, count int64) (int64, error) {
+	const maxChunkSize = 65536
+
+	chunk := bytes.Repeat([]byte{value}, int(min(count, maxChunkSize)))
+	totalBytesWritten := int64(0)
+	for totalBytesWritten < count {
+		nextSize := min(count-totalBytesWritten, int64(len(chunk)))
+		n, err := output.Write(chunk[:nextSize])
+		totalBytesWritten += int64(n)
+		if err != nil {
+			return totalBytesWritten, err
 		}
 	}
+	return totalBytesWritten, nil
 }
-- 
2.43.0


From e4ca50c2480db3904434129423b48ac8e317f804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:32 +0000
Subject: [PATCH 48/53] fix: report errors closing the output of zipimage and
 unzipimage

---
 cmd/unzipimage/main.go | 5 ++++-
 cmd/zipimage/main.go   | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/cmd/unzipimage/main.go b/cmd/unzipimage/main.go
index b5a88d7..33e101f 100644
--- a/cmd/unzipimage/main.go
+++ b/cmd/unzipimage/main.go
@@ -33,9 +33,12 @@ func main() {
 			os.Stderr, "Failed to open file for writing: `%v`: %s\n", outputFilePath, errOut)
 		os.Exit(1)
 	}
-	defer outFile.Close()
 
 	nWritten, err := compression.DecompressImage(sourceFile, outFile)
+	closeErr := outFile.Close()
+	if err == nil {
+		err = closeErr
+	}
 	if err != nil {
 		fmt.Fprintf(os.Stderr, "Error expanding file: %s\n", err)
 		os.Exit(2)
diff --git a/cmd/zipimage/main.go b/cmd/zipimage/main.go
index c26bea7..ba0d7da 100644
--- a/cmd/zipimage/main.go
+++ b/cmd/zipimage/main.go
@@ -33,9 +33,12 @@ func main() {
 			os.Stderr, "failed to open file for writing: `%v`: %s\n", outputFilePath, errOut)
 		os.Exit(1)
 	}
-	defer outFile.Close()
 
 	nWritten, err := compression.CompressImage(sourceFile, outFile)
+	closeErr := outFile.Close()
+	if err == nil {
+		err = closeErr
+	}
 	if err != nil {
 		fmt.Fprintf(os.Stderr, "error compressing file: %s\n", err)
 		os.Exit(2)
-- 
2.43.0


From e93c427812c5f1b6747ff64d0cdd2ae8b182b8c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:26 +0000
Subject: [PATCH 49/53] fix: FAT8 names ending with two periods and spaces are
 refused too

---
 file_systems/fat8/common.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/file_systems/fat8/common.go b/file_systems/fat8/common.go
index f8ec1e2..8b2c797 100644
--- a/file_systems/fat8/common.go
+++ b/file_systems/fat8/common.go
@@ -119,8 +119,9 @@ func FilenameToBytes(name string) ([]byte, error) {
 			// ended with a period. This is stupid, but not prohibited by the
 			// standard (I think) so we must support it.
 			parts[1] = "."
-		} else if parts[1] == "." {
-			// This would be the same as if there were only one trailing period.
+		} else if strings.TrimRight(parts[1], " ") == "." {
+			// This would be the same as if there were only one trailing period,
+			// since the extension is padded with spaces.
 			return nil, disko.ErrInvalidArgument.WithMessage(
 				fmt.Sprintf("filename can't end with two periods: %q", name))
 		} else if len(parts[1]) > 3 {
-- 
2.43.0


From 5e8306d4e2643bb9728df8bbabb68a085176c5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:23 +0000
Subject: [PATCH 50/53] fix: removing a FAT file by a path with a trailing
 slash uses its directory as the parent

---
 file_systems/fat/driverbase.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/file_systems/fat/driverbase.go b/file_systems/fat/driverbase.go
index f7fa643..0333db6 100644
--- a/file_systems/fat/driverbase.go
+++ b/file_systems/fat/driverbase.go
@@ -428,7 +428,10 @@ func (drv *FATDriver) Remove(path string) error {
 		return disko.ErrIsADirectory
 	}
 
-	parentDirent, err := drv.resolvePathToDirent(filepath.Dir(path))
+	// The path must be cleaned before taking its parent, or a trailing slash would make
+	// the file its own parent.
+	cleanedPath := posixpath.Clean("/" + filepath.ToSlash(path))
+	parentDirent, err := drv.resolvePathToDirent(posixpath.Dir(cleanedPath))
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 478921a997fe2b9bd53896c58951253268ef578d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:23 +0000
Subject: [PATCH 51/53] fix: Chtimes on FAT refuses times before 1980

---
 file_systems/fat/driverbase.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/file_systems/fat/driverbase.go b/file_systems/fat/driverbase.go
index 0333db6..949e83a 100644
--- a/file_systems/fat/driverbase.go
+++ b/file_systems/fat/driverbase.go
@@ -397,8 +397,15 @@ func (drv *FATDriver) Chtimes(path string, atime, mtime time.Time) error {
 		return err
 	}
 
-	dirent.SetLastAccessedAt(atime)
-	dirent.SetLastModifiedAt(mtime)
+	err = dirent.SetLastAccessedAt(atime)
+	if err != nil {
+		return err
+	}
+
+	err = dirent.SetLastModifiedAt(mtime)
+	if err != nil {
+		return err
+	}
 	return drv.fs.UpdateDirent(&dirent)
 }
 
-- 
2.43.0


From 4474fc56f7f52695c795d48e9bab1318d5cef589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:37 +0000
Subject: [PATCH 52/53] fix: release the handles of objects when an operation
 on them is done

---
 driver/driver.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/driver/driver.go b/driver/driver.go
index ef918a0..2b31029 100644
--- a/driver/driver.go
+++ b/driver/driver.go
@@ -426,6 +426,7 @@ func (driver *BaseDriver) Chmod(name string, mode os.FileMode) error {
 	if err != nil {
 		return err
 	}
+	defer object.Close()
 
 	chmodObject, ok := unwrapObjectHandle(object).(disko.SupportsChmodHandle)
 	if !ok {
@@ -444,6 +445,7 @@ func (driver *BaseDriver) Chown(name string, uid, gid int) error {
 	if err != nil {
 		return err
 	}
+	defer object.Close()
 
 	chmownObject, ok := unwrapObjectHandle(object).(disko.SupportsChownHandle)
 	if !ok {
@@ -465,6 +467,7 @@ func (driver *BaseDriver) Lchown(name string, uid, gid int) error {
 	if err != nil {
 		return err
 	}
+	defer object.Close()
 
 	chmownObject, ok := unwrapObjectHandle(object).(disko.SupportsChownHandle)
 	if !ok {
@@ -483,6 +486,7 @@ func (driver *BaseDriver) Chtimes(name string, atime time.Time, mtime time.Time)
 	if err != nil {
 		return err
 	}
+	defer object.Close()
 
 	chmownObject, ok := unwrapObjectHandle(object).(disko.SupportsChtimesHandle)
 	if !ok {
@@ -634,11 +638,14 @@ func (driver *BaseDriver) Link(oldname, newname string) error {
 	}
 	defer parentHandle.Close()
 
-	_, err = linker.CreateHardLink(
+	linkHandle, err := linker.CreateHardLink(
 		unwrapObjectHandle(oldHandle),
 		unwrapObjectHandle(parentHandle),
 		targetName,
 	)
+	if err == nil {
+		linkHandle.Close()
+	}
 	return err
 }
 
@@ -730,6 +737,8 @@ func (driver *BaseDriver) Remove(path string) error {
 	defer object.Close()
 
 	root := driver.implementation.GetRootDirectory()
+	defer root.Close()
+
 	if root.SameAs(unwrapObjectHandle(object)) {
 		return disko.ErrPermissionDenied.WithMessage(
 			"you can't remove the root directory",
@@ -899,6 +908,8 @@ func (driver *BaseDriver) RemoveAll(path string) error {
 
 	// Block an attempt at `rm -rf /`, because some clown is gonna try it.
 	root := driver.implementation.GetRootDirectory()
+	defer root.Close()
+
 	if root.SameAs(unwrapObjectHandle(object)) {
 		return disko.ErrPermissionDenied.WithMessage(
 			"you can't remove the root directory",
-- 
2.43.0


From cf21042618e1610380d5874f07d5b76619b3b4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:42 +0000
Subject: [PATCH 53/53] fix: closing a file releases its object handle

---
 driver/driver.go | 10 ++++++++--
 driver/file.go   |  9 ++++++++-
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/driver/driver.go b/driver/driver.go
index 2b31029..b9af7e7 100644
--- a/driver/driver.go
+++ b/driver/driver.go
@@ -214,7 +214,9 @@ func (driver *BaseDriver) getContentsOfObject(
 	if err != nil {
 		return nil, disko.ErrIOFailed.Wrap(err)
 	}
-	defer handle.Close()
+	// Closing the file as well would close the object handle, but that belongs to
+	// the caller.
+	defer handle.BasicStream.Close()
 
 	stat := object.Stat()
 	buffer := make([]byte, int(stat.Size))
@@ -323,7 +325,11 @@ func (driver *BaseDriver) OpenFile(
 		)
 	}
 
-	return NewFileFromObjectHandle(driver, object, flags)
+	file, err := NewFileFromObjectHandle(driver, object, flags)
+	if err != nil {
+		object.Close()
+	}
+	return file, err
 }
 
 // createMissingFile creates the file that a lookup of `absPath` failed to find.
diff --git a/driver/file.go b/driver/file.go
index a093362..7b5d176 100644
--- a/driver/file.go
+++ b/driver/file.go
@@ -189,8 +189,15 @@ func (file *File) Chown(uid, gid int) error {
 	return disko.ErrNotSupported
 }
 
+// Close writes out all pending changes and releases the file's object handle,
+// even if writing fails. The file must not be used after calling this method.
 func (file *File) Close() error {
-	return file.BasicStream.Close()
+	err := file.BasicStream.Close()
+	closeErr := file.objectHandle.Close()
+	if err != nil {
+		return err
+	}
+	return closeErr
 }
 
 func (file *File) Name() string {
-- 
2.43.0

