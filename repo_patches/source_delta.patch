From f695437c2783b8ec8f7fca921c5936dc17a9c079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:12 +0000
Subject: [PATCH 01/66] fix: persist the encryption flag in its own byte of the
 db info

The flag was overwritten by the sequence on write and read back from the
version byte, so every message was encrypted whatever the options.
---
 db_info.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/db_info.go b/db_info.go
index ba56ab4..32ee9f0 100644
--- a/db_info.go
+++ b/db_info.go
@@ -43,7 +43,7 @@ func (inf _DBInfo) MarshalBinary() ([]byte, error) {
 	buf := make([]byte, fixed)
 	copy(buf[:7], inf.header.signature[:])
 	binary.LittleEndian.PutUint32(buf[7:11], inf.header.version)
-	buf[12] = uint8(inf.encryption)
+	buf[11] = uint8(inf.encryption)
 	binary.LittleEndian.PutUint64(buf[12:20], inf.sequence)
 	binary.LittleEndian.PutUint64(buf[20:28], inf.count)
 
@@ -54,7 +54,7 @@ func (inf _DBInfo) MarshalBinary() ([]byte, error) {
 func (inf *_DBInfo) UnmarshalBinary(data []byte) error {
 	copy(inf.header.signature[:], data[:7])
 	inf.header.version = binary.LittleEndian.Uint32(data[7:11])
-	inf.encryption = int8(data[7])
+	inf.encryption = int8(data[11])
 	inf.sequence = binary.LittleEndian.Uint64(data[12:20])
 	inf.count = binary.LittleEndian.Uint64(data[20:28])
 
-- 
2.43.0


From 864c5d2ecfbfe376fda16854a13022ced1678a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:28 +0000
Subject: [PATCH 02/66] fix: encrypt values shorter than the epoch instead of
 panicking

---
 crypto/mac.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/crypto/mac.go b/crypto/mac.go
index c70d0f6..cbb9c18 100644
--- a/crypto/mac.go
+++ b/crypto/mac.go
@@ -82,9 +82,15 @@ func Signature(value uint32) []byte {
 // Encrypt encrypts src and appends to dst, returning the
 // resulting byte slice
 func (m *MAC) Encrypt(dst, src []byte) []byte {
+	h := hash.New(src)
+	if len(src) < EpochSize {
+		// source is too short to carry an epoch, all of it is sealed behind the signature.
+		sig := Signature(h)
+		nonce := append(append(append([]byte{}, m.salt...), make([]byte, EpochSize)...), sig...)
+		return m.parent.Seal(append(dst, sig...), nonce, src, nil)
+	}
 	//Copy first 4 bytes epoch from source
 	dst = append(dst, src[:EpochSize]...)
-	h := hash.New(src)
 	dst = append(dst, Signature(h)...)
 	nonce := append(m.salt, dst[:MessageOffset]...)
 	return m.parent.Seal(dst, nonce, src[EpochSize:], nil)
@@ -99,6 +105,16 @@ func (m *MAC) Decrypt(dst, src []byte) ([]byte, error) {
 		return dst, errors.New("Authentication failed.")
 	}
 
+	if len(src) < MessageOffset+m.parent.Overhead() {
+		sig := src[:MessageOffset-EpochSize]
+		nonce := append(append(append([]byte{}, m.salt...), make([]byte, EpochSize)...), sig...)
+		dst, err := m.parent.Open(dst, nonce, src[len(sig):], nil)
+		if err != nil {
+			return dst, errors.New("Authentication failed.")
+		}
+		return dst, nil
+	}
+
 	nonce := append(m.salt, src[:MessageOffset]...)
 	dst, err := m.parent.Open(dst, nonce, src[MessageOffset:], nil)
 	if err != nil {
-- 
2.43.0


From 24dcd5e7bc4569757b8b48a2fd9e3066ce582592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:28 +0000
Subject: [PATCH 03/66] fix: sync and size every file of the file set

Both walked the file map of the outer set, which is always empty: nothing was
fsynced, FileSize was 0, and an fsync error was dropped.
---
 db_sync.go |  2 +-
 file.go    | 14 +++++++++-----
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/db_sync.go b/db_sync.go
index 8515c7f..dd2ef2a 100644
--- a/db_sync.go
+++ b/db_sync.go
@@ -166,7 +166,7 @@ func (db *DB) sync() error {
 		return err
 	}
 	if err := db.fs.sync(); err != nil {
-		return nil
+		return err
 	}
 
 	return nil
diff --git a/file.go b/file.go
index 3dc7103..7cf6b8b 100644
--- a/file.go
+++ b/file.go
@@ -230,9 +230,11 @@ func (fs *_FileSet) getFile(fd _FileDesc) (*_File, error) {
 func (fs *_FileSet) sync() error {
 	fs.mu.RLock()
 	defer fs.mu.RUnlock()
-	for _, f := range fs.fileMap {
-		if err := f.Sync(); err != nil {
-			return err
+	for _, files := range fs.list {
+		for _, f := range files.fileMap {
+			if err := f.Sync(); err != nil {
+				return err
+			}
 		}
 	}
 	return nil
@@ -242,8 +244,10 @@ func (fs *_FileSet) size() (int64, error) {
 	fs.mu.RLock()
 	defer fs.mu.RUnlock()
 	size := int64(0)
-	for _, f := range fs.fileMap {
-		size += f.currSize()
+	for _, files := range fs.list {
+		for _, f := range files.fileMap {
+			size += f.currSize()
+		}
 	}
 	return size, nil
 }
-- 
2.43.0


From 382bda4d36c6fe487a468de8776e55e67c6bba3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:28 +0000
Subject: [PATCH 04/66] fix: a numeric ttl is a number of seconds from now

The topic option stored nanoseconds truncated to 32 bits, and Entry.WithTTL
overwrote the computed expiry with the current time.
---
 entry.go         | 1 +
 message/topic.go | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/entry.go b/entry.go
index 1eac420..f099de5 100644
--- a/entry.go
+++ b/entry.go
@@ -81,6 +81,7 @@ func (e *Entry) WithTTL(ttl string) *Entry {
 	val, err := strconv.ParseInt(ttl, 10, 64)
 	if err == nil {
 		e.ExpiresAt = uint32(time.Now().Add(time.Duration(int(val)) * time.Second).Unix())
+		return e
 	}
 	var duration time.Duration
 	duration, _ = time.ParseDuration(ttl)
diff --git a/message/topic.go b/message/topic.go
index 78d122e..492ad70 100644
--- a/message/topic.go
+++ b/message/topic.go
@@ -108,7 +108,7 @@ func (_SplitFunc) splitOpsKeyValue(c rune) bool {
 func (t *Topic) TTL() (uint32, bool) {
 	ttl, sec, ok := t.getOption("ttl")
 	if sec > 0 {
-		return uint32(time.Duration(sec) * time.Second), ok
+		return uint32(time.Now().Add(time.Duration(sec) * time.Second).Unix()), ok
 	}
 	var duration time.Duration
 	duration, _ = time.ParseDuration(ttl)
-- 
2.43.0


From c8c61ea0c8741dbf708d0016d29b2bd0ce5c9408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:05 +0000
Subject: [PATCH 05/66] fix: match topics level by level and hash them by
 position

Wildcards matched the wrong number of levels, a multi-level wildcard missed its
parent and deeper levels, the wildcards after a leading one were attached to
the wrong part, and topics made of the same parts in another order shared a hash.
---
 message/topic.go | 11 +++--------
 trie.go          | 44 +++++++++++++++++++++++++++++---------------
 2 files changed, 32 insertions(+), 23 deletions(-)

diff --git a/message/topic.go b/message/topic.go
index 492ad70..59c98ed 100644
--- a/message/topic.go
+++ b/message/topic.go
@@ -81,7 +81,8 @@ func (t *Topic) GetHash(contract uint32) uint64 {
 	}
 	h := t.Parts[0].Hash
 	for _, i := range t.Parts[1:] {
-		h ^= i.Hash
+		// position and wildcards of a part distinguish topics made of the same parts.
+		h = (h*16777619 ^ i.Hash) + uint32(i.Wildchars)
 	}
 	return uint64(h)<<32 + uint64((contract<<8)|uint32(t.Depth))
 }
@@ -255,7 +256,6 @@ func parseWildcardTopic(contract uint32, topic *Topic) (ok bool) {
 	q = []byte{TopicWildcardSymbol}
 	part = Part{}
 	wildchars := uint8(0)
-	wildcharcount := 0
 	for idx, p := range parts {
 		depth++
 		if bytes.HasSuffix(p, q) {
@@ -265,17 +265,12 @@ func parseWildcardTopic(contract uint32, topic *Topic) (ok bool) {
 				topic.Parts = append(topic.Parts, part)
 			}
 			wildchars++
-			wildcharcount++
 			continue
 		}
 		part.Hash = hash.WithSalt(p, contract)
 		topic.Parts = append(topic.Parts, part)
 		if wildchars > 0 {
-			if idx-wildcharcount-1 >= 0 {
-				topic.Parts[idx-wildcharcount-1].Wildchars = wildchars
-			} else {
-				topic.Parts[0].Wildchars = wildchars
-			}
+			topic.Parts[len(topic.Parts)-2].Wildchars = wildchars
 			wildchars = 0
 		}
 	}
diff --git a/trie.go b/trie.go
index fe63f31..7da92d0 100644
--- a/trie.go
+++ b/trie.go
@@ -154,35 +154,49 @@ func (t *_Trie) add(topic _Topic, parts []message.Part, depth uint8) (added bool
 
 // lookup returns window entry set for given topic.
 func (t *_Trie) lookup(query []message.Part, depth, topicType uint8) (tops _Topics) {
+	// expand query parts to the levels of the topic.
+	levels := make([]uint32, 0, len(query))
+	for _, p := range query {
+		if p.Hash != message.Wildcard || p.Wildchars == 0 {
+			levels = append(levels, p.Hash)
+		}
+		for i := uint8(0); i < p.Wildchars; i++ {
+			levels = append(levels, message.Wildcard)
+		}
+	}
+
 	t.RLock()
 	defer t.RUnlock()
-	t.ilookup(query, depth, topicType, &tops, t.topicTrie.root)
+	t.ilookup(levels, &tops, t.topicTrie.root)
 	return
 }
 
-func (t *_Trie) ilookup(query []message.Part, depth, topicType uint8, tops *_Topics, currNode *_Node) {
+func (t *_Trie) ilookup(levels []uint32, tops *_Topics, currNode *_Node) {
 	// Add topics from the current branch.
-	if currNode.depth == depth || (topicType == message.TopicStatic && currNode.part.hash == message.Wildcard) {
+	if len(levels) == 0 {
 		for _, topic := range currNode.topics {
 			tops.addUnique(topic)
 		}
 	}
 
-	// If done then stop.
-	if len(query) == 0 {
-		return
-	}
-
-	q := query[0]
-	// Go through the wildcard match branch.
 	for part, n := range currNode.children {
+		// number of levels matched by the part and its wildchars.
+		matched := int(part.wildchars)
 		switch {
-		case part.hash == q.Hash && q.Wildchars == part.wildchars:
-			t.ilookup(query[1:], depth, topicType, tops, n)
-		case part.hash == q.Hash && uint8(len(query)) >= part.wildchars+1:
-			t.ilookup(query[part.wildchars+1:], depth, topicType, tops, n)
+		case part.hash == message.Wildcard && part.wildchars == 0:
+			// multi-level wildcard matches parent and all child levels.
+			for _, topic := range n.topics {
+				tops.addUnique(topic)
+			}
+			continue
 		case part.hash == message.Wildcard:
-			t.ilookup(query[:], depth, topicType, tops, n)
+		case len(levels) > 0 && part.hash == levels[0]:
+			matched++
+		default:
+			continue
+		}
+		if len(levels) >= matched {
+			t.ilookup(levels[matched:], tops, n)
 		}
 	}
 }
-- 
2.43.0


From 9b541eee58d200d320ae700b866da88db81b8a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:50 +0000
Subject: [PATCH 06/66] fix: lock the trie while adding a topic

Topics added at the same time read and wrote its maps without a common lock.
---
 trie.go | 15 ++-------------
 1 file changed, 2 insertions(+), 13 deletions(-)

diff --git a/trie.go b/trie.go
index 7da92d0..ac8bc58 100644
--- a/trie.go
+++ b/trie.go
@@ -93,15 +93,12 @@ func newTopicTrie() *_TopicTrie {
 // _Trie trie data structure to store topic parts
 type _Trie struct {
 	sync.RWMutex
-	mutex     _Mutex
 	topicTrie *_TopicTrie
 }
 
 // newTrie new trie creates a Trie with an initialized Trie.
-// Mutex is used to lock concurent read/write on a contract, and it does not lock entire trie.
 func newTrie() *_Trie {
 	return &_Trie{
-		mutex:     newMutex(),
 		topicTrie: newTopicTrie(),
 	}
 }
@@ -115,10 +112,8 @@ func (t *_Trie) Count() int {
 
 // add adds a topic to trie.
 func (t *_Trie) add(topic _Topic, parts []message.Part, depth uint8) (added bool) {
-	// Get mutex
-	mu := t.mutex.getMutex(topic.hash)
-	mu.Lock()
-	defer mu.Unlock()
+	t.Lock()
+	defer t.Unlock()
 	if _, ok := t.topicTrie.summary[topic.hash]; ok {
 		return false
 	}
@@ -128,25 +123,19 @@ func (t *_Trie) add(topic _Topic, parts []message.Part, depth uint8) (added bool
 			hash:      p.Hash,
 			wildchars: p.Wildchars,
 		}
-		t.RLock()
 		child, ok := curr.children[newPart]
-		t.RUnlock()
 		if !ok {
 			child = &_Node{
 				part:     newPart,
 				parent:   curr,
 				children: make(map[_Part]*_Node),
 			}
-			t.Lock()
 			curr.children[newPart] = child
-			t.Unlock()
 		}
 		curr = child
 	}
-	t.Lock()
 	curr.topics.addUnique(topic)
 	t.topicTrie.summary[topic.hash] = curr
-	t.Unlock()
 	added = true
 	curr.depth = depth
 	return
-- 
2.43.0


From 3821c6b8c74080615b52b49c4dd4939b405b7b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:51 +0000
Subject: [PATCH 07/66] fix: do not share the block reader state between
 readers

Concurrent reads moved the offset and decoded into the block of each other.
---
 block_reader.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/block_reader.go b/block_reader.go
index aa9085c..fa7c473 100644
--- a/block_reader.go
+++ b/block_reader.go
@@ -55,8 +55,9 @@ func (r *_BlockReader) readIndexBlock() (_IndexBlock, error) {
 
 func (r *_BlockReader) readEntry(seq uint64) (_IndexEntry, error) {
 	bIdx := blockIndex(seq)
-	r.offset = blockOffset(bIdx)
-	b, err := r.readIndexBlock()
+	// the reader is shared, block is read using its own reader.
+	br := _BlockReader{indexFile: r.indexFile, offset: blockOffset(bIdx)}
+	b, err := br.readIndexBlock()
 	if err != nil {
 		return _IndexEntry{}, err
 	}
-- 
2.43.0


From 547c3ff9b54d9cc4b9de9927125e9b05937773f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:15 +0000
Subject: [PATCH 08/66] fix: keep the chain of window blocks of a topic

The block at offset zero reads as no block, so the second sync of the first
topic started a new chain, and on open a topic was given its oldest block, and
an entry missing after a crash stopped the load of every later topic.
---
 db_internal.go        | 12 +++++++-----
 time_window_reader.go |  2 +-
 time_window_writer.go |  6 +++---
 3 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/db_internal.go b/db_internal.go
index 8b59f82..c6404ae 100644
--- a/db_internal.go
+++ b/db_internal.go
@@ -164,15 +164,17 @@ func (db *DB) close() error {
 	return err
 }
 
-// loadTopicHash loads topic and offset from window blocks on stored on disk.
+// loadTrie loads topic and offset from window blocks stored on disk.
 func (db *DB) loadTrie() error {
 	r := newWindowReader(db.fs)
 	err := r.blockIterator(func(startSeq, topicHash uint64, off int64) (bool, error) {
-		e, err := db.internal.reader.readEntry(startSeq)
-		if err != nil {
-			return true, err
+		// blocks of a topic are linked to a previous block, recent block has the greatest offset.
+		if ok := db.internal.trie.setOffset(_Topic{hash: topicHash, offset: off}); ok {
+			return false, nil
 		}
-		if e.topicSize == 0 {
+		// topic is packed with first entry of the topic, and entry is not found if sync was not complete.
+		e, err := db.internal.reader.readEntry(startSeq)
+		if err != nil || e.topicSize == 0 {
 			return false, nil
 		}
 		rawtopic, err := db.internal.reader.readTopic(e)
diff --git a/time_window_reader.go b/time_window_reader.go
index cfe3ca2..c5c2823 100644
--- a/time_window_reader.go
+++ b/time_window_reader.go
@@ -68,7 +68,7 @@ func (r *_WindowReader) blockIterator(f func(startSeq, topicHash uint64, off int
 			return err
 		}
 		windowIdx++
-		if b.entryIdx == 0 || b.next != 0 {
+		if b.entryIdx == 0 {
 			continue
 		}
 		// fmt.Println("timeWindow.blockIterator: topicHash, seq ", b.topicHash, b.entries[0].sequence)
diff --git a/time_window_writer.go b/time_window_writer.go
index d836dc0..cf24674 100644
--- a/time_window_writer.go
+++ b/time_window_writer.go
@@ -24,7 +24,7 @@ import (
 )
 
 type _WindowWriter struct {
-	windowIdx int32
+	windowIdx int32               // last window block, first block is not used as zero offset denotes no block.
 	winBlocks map[int32]_WinBlock // map[windowIdx]winBlock
 	winLeases map[int32][]uint64  // map[blockIdx][]seq
 
@@ -35,7 +35,7 @@ type _WindowWriter struct {
 }
 
 func newWindowWriter(fs *_FileSet, buf *bpool.Buffer) (*_WindowWriter, error) {
-	w := &_WindowWriter{windowIdx: -1, winBlocks: make(map[int32]_WinBlock), winLeases: make(map[int32][]uint64), fs: fs, buffer: buf}
+	w := &_WindowWriter{winBlocks: make(map[int32]_WinBlock), winLeases: make(map[int32][]uint64), fs: fs, buffer: buf}
 	winFile, err := fs.getFile(_FileDesc{fileType: typeTimeWindow})
 	if err != nil {
 		return nil, err
@@ -43,7 +43,7 @@ func newWindowWriter(fs *_FileSet, buf *bpool.Buffer) (*_WindowWriter, error) {
 	w.winFile = winFile
 	w.offset = winFile.currSize()
 	if w.offset > 0 {
-		w.windowIdx = int32(w.offset / int64(blockSize))
+		w.windowIdx = int32(w.offset/int64(blockSize)) - 1
 	}
 
 	return w, nil
-- 
2.43.0


From 27bee31da558cbe4157c8e3dce48a26ca6f74d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:18 +0000
Subject: [PATCH 09/66] fix: a query returns its most recent live entries, each
 once

Lookup walked time blocks in map order, counted deleted and expired entries
against the limit, added window entries twice, filled the limit from the first
matching topic, failed on an entry deleted before sync, and read the offset of a
topic that was not yet, or no longer, the offset of its entries during sync.
---
 block_reader.go |   7 ++-
 db.go           |  43 ++++++----------
 db_internal.go  |  24 +++++----
 db_sync.go      |  11 +++--
 time_window.go  | 129 ++++++++++++++++++------------------------------
 5 files changed, 90 insertions(+), 124 deletions(-)

diff --git a/block_reader.go b/block_reader.go
index fa7c473..b221829 100644
--- a/block_reader.go
+++ b/block_reader.go
@@ -16,6 +16,8 @@
 
 package unitdb
 
+import "io"
+
 type _BlockReader struct {
 	indexBlock          _IndexBlock
 	fs                  *_FileSet
@@ -58,6 +60,9 @@ func (r *_BlockReader) readEntry(seq uint64) (_IndexEntry, error) {
 	// the reader is shared, block is read using its own reader.
 	br := _BlockReader{indexFile: r.indexFile, offset: blockOffset(bIdx)}
 	b, err := br.readIndexBlock()
+	if err == io.EOF {
+		return _IndexEntry{}, errMsgIDDoesNotExist
+	}
 	if err != nil {
 		return _IndexEntry{}, err
 	}
@@ -73,7 +78,7 @@ func (r *_BlockReader) readEntry(seq uint64) (_IndexEntry, error) {
 		}
 	}
 	if entryIdx == -1 {
-		return _IndexEntry{}, errEntryInvalid
+		return _IndexEntry{}, errMsgIDDoesNotExist
 	}
 
 	return b.entries[entryIdx], nil
diff --git a/db.go b/db.go
index 59bc810..b6e3c38 100644
--- a/db.go
+++ b/db.go
@@ -22,7 +22,6 @@ import (
 	"fmt"
 	"math/rand"
 	"os"
-	"sort"
 	"sync"
 	"sync/atomic"
 	"time"
@@ -238,30 +237,24 @@ func (db *DB) Get(q *Query) (items [][]byte, err error) {
 	mu := db.internal.mutex.getMutex(q.internal.prefix)
 	mu.RLock()
 	defer mu.RUnlock()
-	db.lookup(q)
-	if len(q.internal.winEntries) == 0 {
-		return
-	}
-	sort.Slice(q.internal.winEntries[:], func(i, j int) bool {
-		return q.internal.winEntries[i].seq > q.internal.winEntries[j].seq
-	})
-	start := 0
-	limit := q.Limit
-	if len(q.internal.winEntries) < int(q.Limit) {
-		limit = len(q.internal.winEntries)
-	}
-
-	for {
-		invalidCount := 0
-		for _, query := range q.internal.winEntries[start:limit] {
+	lastSeq := uint64(maxSeq)
+	for limit := q.Limit; ; limit *= 2 {
+		db.lookup(q, limit)
+		for _, query := range q.internal.winEntries {
+			if len(items) == q.Limit {
+				break
+			}
+			if query.seq >= lastSeq {
+				continue
+			}
+			lastSeq = query.seq
 			err = func() error {
 				if query.seq == 0 {
 					return nil
 				}
 				s, err := db.readEntry(query)
 				if err != nil {
-					if err == errMsgIDDeleted {
-						invalidCount++
+					if err == errMsgIDDeleted || err == errMsgIDDoesNotExist {
 						return nil
 					}
 					logger.Error().Err(err).Str("context", "db.readEntry")
@@ -274,7 +267,6 @@ func (db *DB) Get(q *Query) (items [][]byte, err error) {
 				}
 				msgID := message.ID(id)
 				if !msgID.EvalPrefix(q.Contract, q.internal.cutoff) {
-					invalidCount++
 					return nil
 				}
 
@@ -301,17 +293,10 @@ func (db *DB) Get(q *Query) (items [][]byte, err error) {
 			}
 		}
 
-		if invalidCount == 0 || len(items) == int(q.Limit) || len(q.internal.winEntries) == limit {
+		// lookup more entries if some of those are deleted or do not match the query.
+		if len(items) == q.Limit || len(q.internal.winEntries) < limit {
 			break
 		}
-
-		if len(q.internal.winEntries) <= int(q.Limit+invalidCount) {
-			start = limit
-			limit = len(q.internal.winEntries)
-		} else {
-			start = limit
-			limit = limit + invalidCount
-		}
 	}
 	db.internal.meter.Gets.Inc(int64(len(items)))
 	db.internal.meter.OutMsgs.Inc(int64(len(items)))
diff --git a/db_internal.go b/db_internal.go
index c6404ae..d4146ee 100644
--- a/db_internal.go
+++ b/db_internal.go
@@ -216,21 +216,27 @@ func (db *DB) readEntry(q _Query) (_IndexEntry, error) {
 // lookups are performed in following order
 // ilookup lookups in memory entries from timeWindow
 // lookup lookups persisted entries from timeWindow file.
-func (db *DB) lookup(q *Query) error {
+func (db *DB) lookup(q *Query, limit int) error {
+	q.internal.winEntries = q.internal.winEntries[:0]
 	topics := db.internal.trie.lookup(q.internal.parts, q.internal.depth, q.internal.topicType)
-	sort.Slice(topics[:], func(i, j int) bool {
-		return topics[i].offset > topics[j].offset
-	})
 	for _, topic := range topics {
-		if len(q.internal.winEntries) > q.Limit {
-			break
+		hash := topic.hash
+		offset := func() int64 {
+			off, _ := db.internal.trie.getOffset(hash)
+			return off
 		}
-		limit := q.Limit - len(q.internal.winEntries)
-		wEntries := db.internal.timeWindow.lookup(db.fs, topic.hash, topic.offset, q.internal.cutoff, limit)
+		wEntries := db.internal.timeWindow.lookup(db.fs, hash, offset, q.internal.cutoff, limit)
 		for _, we := range wEntries {
-			q.internal.winEntries = append(q.internal.winEntries, _Query{topicHash: topic.hash, seq: we.seq()})
+			q.internal.winEntries = append(q.internal.winEntries, _Query{topicHash: hash, seq: we.seq()})
 		}
 	}
+	// most recent entries first.
+	sort.Slice(q.internal.winEntries[:], func(i, j int) bool {
+		return q.internal.winEntries[i].seq > q.internal.winEntries[j].seq
+	})
+	if len(q.internal.winEntries) > limit {
+		q.internal.winEntries = q.internal.winEntries[:limit]
+	}
 
 	return nil
 }
diff --git a/db_sync.go b/db_sync.go
index dd2ef2a..4649210 100644
--- a/db_sync.go
+++ b/db_sync.go
@@ -261,6 +261,7 @@ func (db *_SyncHandle) Sync() error {
 			db.syncInfo.count++
 			db.syncInfo.inBytes += int64(e.valueSize)
 		}
+		var topics []_Topic
 		for h := range winEntries {
 			topicOff, ok := db.internal.trie.getOffset(h)
 			if !ok {
@@ -270,9 +271,7 @@ func (db *_SyncHandle) Sync() error {
 			if err != nil {
 				return true, err
 			}
-			if ok := db.internal.trie.setOffset(_Topic{hash: h, offset: wOff}); !ok {
-				return true, errors.New("db:Sync: timeWindow sync error: unable to set topic offset in trie")
-			}
+			topics = append(topics, newTopic(h, wOff))
 		}
 		if err1 != nil {
 			fmt.Println("db.sync: error ", err1)
@@ -283,6 +282,12 @@ func (db *_SyncHandle) Sync() error {
 			fmt.Println("db.sync: sync error ", err)
 			return true, err
 		}
+		// offset is set after window blocks are written, and before time window entries are released.
+		for _, topic := range topics {
+			if ok := db.internal.trie.setOffset(topic); !ok {
+				return true, errors.New("db:Sync: timeWindow sync error: unable to set topic offset in trie")
+			}
+		}
 		if db.syncInfo.syncComplete {
 			if err := timeRelease(timeID); err != nil {
 				return false, err
diff --git a/time_window.go b/time_window.go
index a7eeb4c..7fcfdec 100644
--- a/time_window.go
+++ b/time_window.go
@@ -19,6 +19,7 @@ package unitdb
 import (
 	"encoding/binary"
 	"fmt"
+	"sort"
 	"sync"
 	"time"
 
@@ -217,113 +218,77 @@ func (tw *_TimeWindowBucket) release() func(timeID int64) error {
 }
 
 // ilookup lookups window entries from timeWindowBucket and not yet sync to DB.
-func (tw *_TimeWindowBucket) ilookup(topicHash uint64, limit int) (winEntries _WindowEntries) {
+func (tw *_TimeWindowBucket) ilookup(topicHash uint64) (winEntries _WindowEntries) {
 	winEntries = make([]_WinEntry, 0)
 	// get windowBlock shard.
 	b := tw.windowBlocks.getWindowBlock(topicHash)
 	b.mu.RLock()
 	defer b.mu.RUnlock()
-	var l int
-	var expiryCount int
 
 	for key := range b.entries {
 		if key.topicHash != topicHash {
 			continue
 		}
-		wEntries := b.entries[key]
-		if len(wEntries) > 0 {
-			l = limit + expiryCount - l
-			if len(wEntries) < l {
-				l = len(wEntries)
-			}
-			for i := len(wEntries) - 1; i >= len(wEntries)-l; i-- {
-				we := wEntries[i]
-				if we.isExpired() {
-					if err := tw.expiryWindowBucket.addExpiry(we); err != nil {
-						expiryCount++
-						logger.Error().Err(err).Str("context", "timeWindow.addExpiry")
-					}
-					// if id is expired it does not return an error but continue the iteration.
-					continue
-				}
-				winEntries = append(winEntries, we)
+		winEntries = append(winEntries, tw.unexpired(b.entries[key])...)
+	}
+	return winEntries
+}
+
+// unexpired filters expired entries and adds those to the expiry window.
+func (tw *_TimeWindowBucket) unexpired(wEntries []_WinEntry) (winEntries _WindowEntries) {
+	for _, we := range wEntries {
+		if we.isExpired() {
+			if err := tw.expiryWindowBucket.addExpiry(we); err != nil {
+				logger.Error().Err(err).Str("context", "timeWindow.addExpiry")
 			}
+			// if id is expired it does not return an error but continue the iteration.
+			continue
 		}
+		winEntries = append(winEntries, we)
 	}
 	return winEntries
 }
 
-// lookup lookups window entries from window file.
-func (tw *_TimeWindowBucket) lookup(fs *_FileSet, topicHash uint64, off, cutoff int64, limit int) (winEntries _WindowEntries) {
+// lookup lookups window entries of a topic. It returns most recent entries first,
+// and at most limit entries. The offset is called after entries not yet sync are looked up
+// as those entries are released once the offset is set.
+func (tw *_TimeWindowBucket) lookup(fs *_FileSet, topicHash uint64, offset func() int64, cutoff int64, limit int) (winEntries _WindowEntries) {
 	winEntries = make([]_WinEntry, 0)
-	winEntries = tw.ilookup(topicHash, limit)
-	if len(winEntries) >= limit {
-		return winEntries
+	found := make(map[uint64]struct{})
+	add := func(entries _WindowEntries) {
+		for _, we := range entries {
+			// entry is sync but not yet released, or it is sync again on recovery.
+			if _, ok := found[we.seq()]; ok {
+				continue
+			}
+			found[we.seq()] = struct{}{}
+			winEntries = append(winEntries, we)
+		}
 	}
+	add(tw.ilookup(topicHash))
+	defer func() {
+		sort.Slice(winEntries[:], func(i, j int) bool {
+			return winEntries[i].seq() > winEntries[j].seq()
+		})
+		if len(winEntries) > limit {
+			winEntries = winEntries[:limit]
+		}
+	}()
 	winFile, err := fs.getFile(_FileDesc{fileType: typeTimeWindow})
 	if err != nil {
 		return winEntries
 	}
-	next := func(blockOff int64, f func(_WinBlock) (bool, error)) error {
-		for {
-			r := _WindowReader{winFile: winFile, offset: blockOff}
-			b, err := r.readWindowBlock()
-			if err != nil {
-				return err
-			}
-			if stop, err := f(b); stop || err != nil {
-				return err
-			}
-			if b.next == 0 {
-				return nil
-			}
-			blockOff = b.next
-		}
-	}
-	expiryCount := 0
-	err = next(off, func(curb _WinBlock) (bool, error) {
-		b := &curb
-		if b.topicHash != topicHash {
-			return true, nil
-		}
-		if len(winEntries) > limit-int(b.entryIdx) {
-			limit = limit - len(winEntries)
-			for i := len(b.entries[:b.entryIdx]) - 1; i >= len(b.entries[:b.entryIdx])-limit; i-- {
-				we := b.entries[i]
-				if we.isExpired() {
-					if err := tw.expiryWindowBucket.addExpiry(we); err != nil {
-						expiryCount++
-						logger.Error().Err(err).Str("context", "timeWindow.addExpiry")
-					}
-					// if id is expired it does not return an error but continue the iteration.
-					continue
-				}
-				winEntries = append(winEntries, we)
-			}
-			if len(winEntries) >= limit {
-				return true, nil
-			}
-		}
-		for i := len(b.entries[:b.entryIdx]) - 1; i >= 0; i-- {
-			we := b.entries[i]
-			if we.isExpired() {
-				if err := tw.expiryWindowBucket.addExpiry(we); err != nil {
-					expiryCount++
-					logger.Error().Err(err).Str("context", "timeWindow.addExpiry")
-				}
-				// if id is expired it does not return an error but continue the iteration.
-				continue
-			}
-			winEntries = append(winEntries, we)
-
+	for off := offset(); off != 0 && len(winEntries) < limit; {
+		r := _WindowReader{winFile: winFile, offset: off}
+		b, err := r.readWindowBlock()
+		if err != nil || b.topicHash != topicHash {
+			return winEntries
 		}
+		add(tw.unexpired(b.entries[:b.entryIdx]))
 		if b.cutoff(cutoff) {
-			return true, nil
+			return winEntries
 		}
-		return false, nil
-	})
-	if err != nil {
-		return winEntries
+		off = b.next
 	}
 
 	return winEntries
-- 
2.43.0


From 8c4626ecd03f11eaece270ab1535d584284b6c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:19 +0000
Subject: [PATCH 10/66] fix: a new contract does not repeat those of an earlier
 run

The generator had a constant seed.
---
 db.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/db.go b/db.go
index b6e3c38..e6f45ee 100644
--- a/db.go
+++ b/db.go
@@ -18,9 +18,9 @@ package unitdb
 
 import (
 	"bytes"
+	"crypto/rand"
 	"encoding/binary"
 	"fmt"
-	"math/rand"
 	"os"
 	"sync"
 	"sync/atomic"
@@ -306,7 +306,9 @@ func (db *DB) Get(q *Query) (items [][]byte, err error) {
 // NewContract generates a new Contract.
 func (db *DB) NewContract() (uint32, error) {
 	raw := make([]byte, 4)
-	rand.Read(raw)
+	if _, err := rand.Read(raw); err != nil {
+		return 0, err
+	}
 
 	contract := uint32(binary.LittleEndian.Uint32(raw[:4]))
 	return contract, nil
-- 
2.43.0


From 28eb849b51e21e4e04f709ba9f410654bae1fcd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:49 +0000
Subject: [PATCH 11/66] fix: pack the topic with every entry until the topic is
 synced

A topic was packed with its first entry only: it was lost with that entry when
the entry was deleted or its batch rolled back, and later puts of a reused
entry never packed it.
---
 db_internal.go | 11 ++++++-----
 entry.go       |  1 +
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/db_internal.go b/db_internal.go
index d4146ee..23f8e98 100644
--- a/db_internal.go
+++ b/db_internal.go
@@ -276,13 +276,14 @@ func (db *DB) setEntry(e *Entry) error {
 		}
 		t.AddContract(e.Contract)
 		e.entry.topicHash = t.GetHash(e.Contract)
-		// topic is packed if it is new topic entry
-		if _, ok := db.internal.trie.getOffset(e.entry.topicHash); !ok {
-			rawTopic = t.Marshal()
-			e.entry.topicSize = uint16(len(rawTopic))
-		}
+		e.entry.rawTopic = t.Marshal()
 		e.entry.parsed = true
 	}
+	// topic is packed if it is new topic entry, or its entries are not yet sync as those can be deleted before sync.
+	if off, ok := db.internal.trie.getOffset(e.entry.topicHash); !ok || off == 0 {
+		rawTopic = e.entry.rawTopic
+	}
+	e.entry.topicSize = uint16(len(rawTopic))
 	if e.ID != nil {
 		id = message.ID(e.ID)
 		seq = id.Sequence()
diff --git a/entry.go b/entry.go
index f099de5..594de58 100644
--- a/entry.go
+++ b/entry.go
@@ -36,6 +36,7 @@ type (
 
 		parsed    bool
 		topicHash uint64 // topicHash for recovery from log and not persisted to the DB.
+		rawTopic  []byte // packed topic, it is added to the entries until topic is sync to the DB.
 		cache     []byte // entry from memdb if it exist.
 	}
 	// Entry entry is a message entry structure.
-- 
2.43.0


From c3cb09f667711df4ca3065233bcb59c092bff5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:20 +0000
Subject: [PATCH 12/66] fix: delete a synced entry on disk, and an unsynced one
 only from memory

The index block was never written, the freed block had offset -1, an entry not
on disk was freed and uncounted all the same, and a delete during sync was lost.
The topic packed with a first entry stays readable once that entry is deleted.
---
 block.go        |  5 +++++
 block_reader.go | 10 +++++++---
 block_writer.go | 22 +++++++++++++++++++---
 db.go           |  3 +++
 db_internal.go  | 35 +++++++++++++++++++++++++++++++----
 5 files changed, 65 insertions(+), 10 deletions(-)

diff --git a/block.go b/block.go
index 4946422..31f9047 100644
--- a/block.go
+++ b/block.go
@@ -59,6 +59,11 @@ func (e _IndexEntry) mSize() uint32 {
 	return idSize + uint32(e.topicSize) + e.valueSize
 }
 
+// deleted entry has complement of its offset.
+func (e _IndexEntry) deleted() bool {
+	return e.msgOffset < 0
+}
+
 func (b _IndexBlock) validation(blockIdx int32) error {
 	bIdx := blockIndex(b.entries[0].seq)
 	if bIdx != blockIdx {
diff --git a/block_reader.go b/block_reader.go
index b221829..3c3729a 100644
--- a/block_reader.go
+++ b/block_reader.go
@@ -70,8 +70,8 @@ func (r *_BlockReader) readEntry(seq uint64) (_IndexEntry, error) {
 	for i := 0; i < entriesPerIndexBlock; i++ {
 		e := b.entries[i]
 		if e.seq == seq { //topic exist in db
-			if e.msgOffset == -1 {
-				return _IndexEntry{}, errMsgIDDeleted
+			if e.deleted() {
+				return e, errMsgIDDeleted
 			}
 			entryIdx = i
 			break
@@ -99,5 +99,9 @@ func (r *_BlockReader) readTopic(e _IndexEntry) ([]byte, error) {
 	if e.cache != nil {
 		return e.cache[idSize : e.topicSize+idSize], nil
 	}
-	return r.dataFile.slice(e.msgOffset+int64(idSize), e.msgOffset+int64(e.topicSize)+int64(idSize))
+	off := e.msgOffset
+	if e.deleted() {
+		off = ^off // topic of deleted entry is not freed.
+	}
+	return r.dataFile.slice(off+int64(idSize), off+int64(e.topicSize)+int64(idSize))
 }
diff --git a/block_writer.go b/block_writer.go
index 8dd0d99..8d159c5 100644
--- a/block_writer.go
+++ b/block_writer.go
@@ -82,7 +82,7 @@ func (w *_BlockWriter) extend(upperSeq uint64) (int64, error) {
 func (w *_BlockWriter) del(seq uint64) (_IndexEntry, error) {
 	var delEntry _IndexEntry
 	bIdx := blockIndex(seq)
-	if bIdx > w.blockIdx {
+	if bIdx >= w.blockIdx {
 		return delEntry, nil // no entry in db to delete
 	}
 	r := _BlockReader{indexFile: w.indexFile, offset: blockOffset(bIdx)}
@@ -101,15 +101,31 @@ func (w *_BlockWriter) del(seq uint64) (_IndexEntry, error) {
 	if entryIdx == -1 {
 		return delEntry, nil // no entry in db to delete
 	}
+	if b.entries[entryIdx].deleted() {
+		return _IndexEntry{}, nil // entry is already deleted
+	}
 	delEntry = b.entries[entryIdx]
-	delEntry.msgOffset = -1
-	b.entries[entryIdx] = delEntry
+	b.entries[entryIdx].msgOffset = ^delEntry.msgOffset
 	b.dirty = true
 	w.indexBlocks[bIdx] = b
 
 	return delEntry, nil
 }
 
+// writeBlock writes index block to the index file.
+func (w *_BlockWriter) writeBlock(bIdx int32) error {
+	b := w.indexBlocks[bIdx]
+	if err := b.validation(bIdx); err != nil {
+		return err
+	}
+	if _, err := w.indexFile.WriteAt(b.marshalBinary(), blockOffset(bIdx)); err != nil {
+		return err
+	}
+	b.dirty = false
+	w.indexBlocks[bIdx] = b
+	return nil
+}
+
 func (w *_BlockWriter) append(e _IndexEntry) (err error) {
 	var b _IndexBlock
 	var ok bool
diff --git a/db.go b/db.go
index e6f45ee..10b63ae 100644
--- a/db.go
+++ b/db.go
@@ -384,6 +384,9 @@ func (db *DB) Delete(id, topic []byte) error {
 // It is safe to modify the contents of the argument after Delete returns but
 // not before.
 func (db *DB) DeleteEntry(e *Entry) error {
+	if err := db.ok(); err != nil {
+		return err
+	}
 	switch {
 	case db.opts.flags.immutable:
 		return errImmutable
diff --git a/db_internal.go b/db_internal.go
index 23f8e98..e95a3d4 100644
--- a/db_internal.go
+++ b/db_internal.go
@@ -174,7 +174,7 @@ func (db *DB) loadTrie() error {
 		}
 		// topic is packed with first entry of the topic, and entry is not found if sync was not complete.
 		e, err := db.internal.reader.readEntry(startSeq)
-		if err != nil || e.topicSize == 0 {
+		if err != nil && err != errMsgIDDeleted || e.topicSize == 0 {
 			return false, nil
 		}
 		rawtopic, err := db.internal.reader.readTopic(e)
@@ -327,6 +327,16 @@ func (db *DB) delete(topicHash, seq uint64) error {
 		return nil
 	}
 
+	// delete does not happen during sync, entry is either in memdb or it is sync to the DB.
+	select {
+	case db.internal.syncLockC <- struct{}{}:
+	case <-db.internal.closeC:
+		return errClosed
+	}
+	defer func() {
+		<-db.internal.syncLockC
+	}()
+
 	db.internal.meter.Dels.Inc(1)
 	db.internal.mem.Delete(seq)
 
@@ -335,6 +345,17 @@ func (db *DB) delete(topicHash, seq uint64) error {
 		return nil
 	}
 
+	if err := db.deleteSynced(seq); err != nil {
+		return err
+	}
+	if db.internal.syncWrites {
+		return db.sync()
+	}
+	return nil
+}
+
+// deleteSynced deletes entry that is sync to the DB.
+func (db *DB) deleteSynced(seq uint64) error {
 	w, err := newBlockWriter(db.fs, db.internal.freeList, nil)
 	if err != nil {
 		return err
@@ -343,10 +364,16 @@ func (db *DB) delete(topicHash, seq uint64) error {
 	if err != nil {
 		return err
 	}
-	db.internal.freeList.freeBlock(e.msgOffset, e.mSize())
+	if e.seq == 0 {
+		return nil // no entry in db to delete
+	}
+	if err := w.writeBlock(blockIndex(seq)); err != nil {
+		return err
+	}
 	db.decount(1)
-	if db.internal.syncWrites {
-		return db.sync()
+	// topic is read from its first entry when DB is open.
+	if e.topicSize == 0 {
+		db.internal.freeList.free(e.seq, e.msgOffset, e.mSize())
 	}
 	return nil
 }
-- 
2.43.0


From 9a809e4c4e873b02d191362efd86ebdc6629fef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:22 +0000
Subject: [PATCH 13/66] fix: delete expired entries from the index before their
 space is reused

The expirer freed the block of an entry the index still pointed to, once per
lookup that had seen it expired, so live data was overwritten.
---
 db_sync.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/db_sync.go b/db_sync.go
index 4649210..b70f9a0 100644
--- a/db_sync.go
+++ b/db_sync.go
@@ -310,7 +310,11 @@ func (db *_SyncHandle) Sync() error {
 // expireEntries run expirer to delete entries from db if ttl was set on entries and that has expired.
 func (db *DB) expireEntries() error {
 	// sync happens synchronously.
-	db.internal.syncLockC <- struct{}{}
+	select {
+	case db.internal.syncLockC <- struct{}{}:
+	case <-db.internal.closeC:
+		return errClosed
+	}
 	defer func() {
 		<-db.internal.syncLockC
 	}()
@@ -321,12 +325,9 @@ func (db *DB) expireEntries() error {
 		if !db.internal.filter.Test(we.seq()) {
 			continue
 		}
-		e, err := db.internal.reader.readEntry(we.seq())
-		if err != nil {
+		if err := db.deleteSynced(we.seq()); err != nil {
 			return err
 		}
-		db.internal.freeList.free(e.seq, e.msgOffset, e.mSize())
-		db.decount(1)
 	}
 
 	return nil
-- 
2.43.0


From 9f593172f98c510926e3e6c294ad06ba075f9d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:23 +0000
Subject: [PATCH 14/66] fix: sync and batch on a closed DB return an error

Sync waited forever for the lock kept by close, and a batch wrote to a closed channel.
---
 db.go      | 12 +++++++++++-
 db_sync.go |  2 +-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/db.go b/db.go
index 10b63ae..f145b74 100644
--- a/db.go
+++ b/db.go
@@ -422,6 +422,9 @@ func (db *DB) DeleteEntry(e *Entry) error {
 //
 // Attempting to manually commit or rollback within the function will cause a panic.
 func (db *DB) Batch(fn func(*Batch, <-chan struct{}) error) error {
+	if err := db.ok(); err != nil {
+		return err
+	}
 	b := db.batch()
 
 	b.setManaged()
@@ -440,6 +443,9 @@ func (db *DB) Batch(fn func(*Batch, <-chan struct{}) error) error {
 // Sync write window entries into summary file and write index, and data to respective index and data files.
 // In case of any error during sync operation recovery is performed on log file (write ahead log).
 func (db *DB) Sync() error {
+	if err := db.ok(); err != nil {
+		return err
+	}
 	// start := time.Now()
 	if ok := db.internal.syncHandle.status(); ok {
 		// sync is in-progress.
@@ -447,7 +453,11 @@ func (db *DB) Sync() error {
 	}
 
 	// Sync happens synchronously.
-	db.internal.syncLockC <- struct{}{}
+	select {
+	case db.internal.syncLockC <- struct{}{}:
+	case <-db.internal.closeC:
+		return errClosed
+	}
 	defer func() {
 		<-db.internal.syncLockC
 	}()
diff --git a/db_sync.go b/db_sync.go
index b70f9a0..ccc8b7e 100644
--- a/db_sync.go
+++ b/db_sync.go
@@ -136,7 +136,7 @@ func (db *DB) startSyncer(interval time.Duration) {
 			case <-db.internal.closeC:
 				return
 			case <-syncTicker.C:
-				if err := db.Sync(); err != nil {
+				if err := db.Sync(); err != nil && !db.isClosed() {
 					logger.Error().Err(err).Str("context", "startSyncer").Msg("Error syncing to db")
 					panic(err)
 				}
-- 
2.43.0


From 9ddade2547c7d72bfebc1cba03690a2bf85a89e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:25 +0000
Subject: [PATCH 15/66] fix: do not hand out free blocks twice

Defragmentation kept the blocks it had merged, and the free list of the last
clean close was read again after a crash, though its blocks were in use.
---
 leasing.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/leasing.go b/leasing.go
index 6a429d8..cb37623 100644
--- a/leasing.go
+++ b/leasing.go
@@ -147,7 +147,7 @@ func (b *_FreeBlocks) defrag() {
 	sort.Slice(merged, func(i, j int) bool {
 		return merged[i].size < merged[j].size
 	})
-	copy(b.fb[:l], merged)
+	b.fb = merged
 }
 
 func (l *_Lease) defrag() {
@@ -227,7 +227,8 @@ func (l *_Lease) read() error {
 		l.freeBlock(b.offset, b.size)
 	}
 
-	return nil
+	// blocks are allocated from now on, and those are not free if DB is not closed properly.
+	return l.file.Truncate(0)
 }
 
 func (l *_Lease) write() error {
-- 
2.43.0


From 44ffd31c350c119cf7bbbc74f488225ac8b230c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:26 +0000
Subject: [PATCH 16/66] fix: a failed sync does not roll back blocks of a
 completed one

Leases of blocks already synced were kept, and freed by the next failure.
---
 block_writer.go       | 3 +++
 time_window_writer.go | 1 +
 2 files changed, 4 insertions(+)

diff --git a/block_writer.go b/block_writer.go
index 8d159c5..99d5ff2 100644
--- a/block_writer.go
+++ b/block_writer.go
@@ -327,6 +327,9 @@ func (w *_BlockWriter) reset() error {
 
 	w.dataOffset = w.dataFile.currSize()
 
+	w.indexLeases = make(map[uint64]struct{})
+	w.dataLeases = make(map[int64]uint32)
+
 	return nil
 }
 
diff --git a/time_window_writer.go b/time_window_writer.go
index cf24674..d7ac786 100644
--- a/time_window_writer.go
+++ b/time_window_writer.go
@@ -207,6 +207,7 @@ func (w *_WindowWriter) rollback() error {
 func (w *_WindowWriter) reset() error {
 	w.buffer.Reset()
 	w.offset = w.winFile.currSize()
+	w.winLeases = make(map[int32][]uint64)
 
 	return nil
 }
-- 
2.43.0


From e367bb8f06810a29c5b73b4f882ebf8911e81268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:16 +0000
Subject: [PATCH 17/66] fix: do not read a truncated log, and order logs
 written at the same time

---
 wal/file.go   | 28 ++++++++++++++++++++++------
 wal/reader.go |  5 ++++-
 2 files changed, 26 insertions(+), 7 deletions(-)

diff --git a/wal/file.go b/wal/file.go
index a2a8ab9..3bcfcb6 100644
--- a/wal/file.go
+++ b/wal/file.go
@@ -24,6 +24,7 @@ import (
 	"path"
 	"sort"
 	"strconv"
+	"strings"
 	"sync"
 
 	"github.com/unit-io/bpool"
@@ -131,7 +132,7 @@ func (fs *_FileStore) read(timeID int64, data *bpool.Buffer) _LogInfo {
 		os.Rename(log, corruptPath(fs.dirName, timeID))
 
 		// log was unreadable, return nil
-		return info
+		return _LogInfo{}
 	}
 
 	if err := info.UnmarshalBinary(buf); err != nil {
@@ -139,11 +140,20 @@ func (fs *_FileStore) read(timeID int64, data *bpool.Buffer) _LogInfo {
 		os.Rename(log, corruptPath(fs.dirName, timeID))
 
 		// log was unreadable, return nil
-		return info
+		return _LogInfo{}
+	}
+
+	if stat, err := f.Stat(); err != nil || info.size == 0 || stat.Size() < int64(logHeaderSize)+int64(info.size) {
+		f.Close()
+		os.Rename(log, corruptPath(fs.dirName, timeID))
+
+		// log was unreadable, return nil
+		return _LogInfo{}
 	}
 
 	if _, err := data.Extend(int64(info.size)); err != nil {
-		return info
+		f.Close()
+		return _LogInfo{}
 	}
 
 	if _, err := f.ReadAt(data.Internal(), int64(logHeaderSize)); err != nil {
@@ -151,7 +161,7 @@ func (fs *_FileStore) read(timeID int64, data *bpool.Buffer) _LogInfo {
 		os.Rename(log, corruptPath(fs.dirName, timeID))
 
 		// log was unreadable, return nil
-		return info
+		return _LogInfo{}
 	}
 	f.Close()
 
@@ -178,12 +188,18 @@ func (fs *_FileStore) all() []int64 {
 	// })
 
 	sort.Slice(files[:], func(i, j int) bool {
-		return files[i].ModTime().Before(files[j].ModTime())
+		if !files[i].ModTime().Equal(files[j].ModTime()) {
+			return files[i].ModTime().Before(files[j].ModTime())
+		}
+		// logs are written within a resolution of the modification time.
+		ti, _ := strconv.ParseInt(strings.TrimSuffix(files[i].Name(), logExt), 10, 64)
+		tj, _ := strconv.ParseInt(strings.TrimSuffix(files[j].Name(), logExt), 10, 64)
+		return ti < tj
 	})
 
 	for _, f := range files {
 		name := f.Name()
-		if name[len(name)-4:] != logExt {
+		if !strings.HasSuffix(name, logExt) {
 			// skipping file, doesn't have right extension.
 			continue
 		}
diff --git a/wal/reader.go b/wal/reader.go
index f704e0c..5559dab 100644
--- a/wal/reader.go
+++ b/wal/reader.go
@@ -82,7 +82,10 @@ func (r *Reader) Next() ([]byte, bool, error) {
 		return nil, false, nil
 	}
 	r.entryCount--
-	scratch, _ := r.buffer.Slice(r.offset, r.offset+4)
+	scratch, err := r.buffer.Slice(r.offset, r.offset+4)
+	if err != nil {
+		return nil, false, errors.New("error reading log")
+	}
 	dataLen := binary.LittleEndian.Uint32(scratch)
 	data, err := r.buffer.Slice(r.offset+4, r.offset+int64(dataLen))
 	if err != nil {
-- 
2.43.0


From 250012b21ba527a15edc9022ac1e09dbb32607a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:16 +0000
Subject: [PATCH 18/66] fix: memdb deletes are recovered, and an uncommitted
 batch is not visible

A deleted key is written to the time block of its entry, so that it is
recovered in order and released along with the entry. The query cache is
removed as it is neither guarded nor invalidated. Keys that are overwritten
are counted once, and a log is not dropped when the log queue is full.
---
 memdb/batch.go       |  57 +++++++---
 memdb/block.go       |  37 +++++--
 memdb/db.go          | 247 ++++++++++++++-----------------------------
 memdb/db_internal.go | 202 ++++++++++++++++++-----------------
 memdb/query.go       |  26 -----
 memdb/recovery.go    | 182 ++++++++++---------------------
 memdb/time_mark.go   |   2 +
 memdb/tiny_log.go    |  44 +++++---
 8 files changed, 338 insertions(+), 459 deletions(-)
 delete mode 100644 memdb/query.go

diff --git a/memdb/batch.go b/memdb/batch.go
index 7290373..ee45742 100644
--- a/memdb/batch.go
+++ b/memdb/batch.go
@@ -29,6 +29,7 @@ type Batch struct {
 
 	//tiny Log
 	tinyLog    *_TinyLog
+	block      *_Block
 	writeLockC chan struct{}
 	batchGroup []_TimeID
 
@@ -37,8 +38,9 @@ type Batch struct {
 }
 
 func (b *Batch) newTinyLog() {
-	timeID := _TimeID(time.Now().UTC().UnixNano())
-	b.db.addTimeBlock(timeID)
+	timeID := b.db.newLogID(time.Now().UTC())
+	// block is added to the DB on batch write.
+	b.block = &_Block{data: b.db.internal.buffer.Get(), records: make(map[_Key]int64)}
 	b.tinyLog = &_TinyLog{id: timeID, _TimeID: timeID, managed: true, doneChan: make(chan struct{})}
 }
 
@@ -61,35 +63,51 @@ func (b *Batch) Put(key uint64, data []byte) error {
 		return err
 	}
 
-	block, ok := b.db.timeBlock(b.tinyLog.timeID())
-	if !ok {
-		return errForbidden
-	}
-
-	block.Lock()
-	defer block.Unlock()
+	b.block.Lock()
+	defer b.block.Unlock()
 	ikey := iKey(false, key)
-	if err := block.put(ikey, data); err != nil {
+	if err := b.block.put(ikey, data); err != nil {
 		return err
 	}
-	b.db.addTimeFilter(b.tinyLog.timeID(), key)
 
 	b.db.internal.meter.Puts.Inc(1)
 
 	return nil
 }
 
+// Delete deletes an entry of the batch that is not yet written.
+func (b *Batch) Delete(key uint64) error {
+	if err := b.db.ok(); err != nil {
+		return err
+	}
+
+	b.block.Lock()
+	defer b.block.Unlock()
+	if _, ok := b.block.records[iKey(false, key)]; !ok {
+		return errEntryDoesNotExist
+	}
+
+	return b.block.delete(key)
+}
+
 // Write starts writing entries into DB.
 func (b *Batch) Write() error {
 	b.writeLockC <- struct{}{}
 	defer func() {
 		<-b.writeLockC
 	}()
+	if err := b.db.ok(); err != nil {
+		return err
+	}
+	if b.block.count == 0 {
+		return nil
+	}
+	b.db.addBatchBlock(b.tinyLog.timeID(), b.block)
 	b.batchGroup = append(b.batchGroup, b.tinyLog.timeID())
-	b.db.internal.logManager.writeWait(b.tinyLog)
+	err := b.db.internal.logManager.writeWait(b.tinyLog)
 	b.newTinyLog()
 
-	return nil
+	return err
 }
 
 // Commit commits changes to the DB. In batch operation commit is managed and client is not allowed to call Commit.
@@ -119,14 +137,21 @@ func (b *Batch) Commit() error {
 //Abort aborts batch or perform cleanup operation on batch complete.
 func (b *Batch) Abort() error {
 	_assert(!b.managed, "managed batch abort not allowed")
+	if b.db == nil {
+		// batch is already committed or aborted.
+		return nil
+	}
+	b.db.internal.buffer.Put(b.block.data)
+	var err error
 	for _, ID := range b.batchGroup {
-		if err := b.db.releaseLog(ID); err != nil {
-			return err
+		// block is already released if all of its entries are deleted.
+		if err1 := b.db.releaseLog(ID); err1 != nil && err1 != errEntryDoesNotExist {
+			err = err1
 		}
 	}
 	b.db = nil
 
-	return nil
+	return err
 }
 
 // _assert will panic with a given formatted message if the given condition is false.
diff --git a/memdb/block.go b/memdb/block.go
index 59ee26b..3518a18 100644
--- a/memdb/block.go
+++ b/memdb/block.go
@@ -53,9 +53,17 @@ type (
 
 		timeRefs   []_TimeID
 		lastOffset int64 // last offset of block data written to the log
+
+		logMu    sync.Mutex // guards writing block to the log and its release from the log
+		released bool
 	}
 )
 
+const (
+	recordSize = 8 + 1 + 4 // key len + flag bit + scratch len
+	timeIDFlag = 2         // flag of the record with time ID of the block
+)
+
 // iKey an internal key includes deleted flag.
 func iKey(delFlag bool, k uint64) _Key {
 	dFlag := uint8(0)
@@ -80,7 +88,7 @@ func (b *_Block) get(off int64) ([]byte, error) {
 }
 
 func (b *_Block) put(ikey _Key, data []byte) error {
-	dataLen := int64(len(data) + 8 + 1 + 4) // data len + key len + flag bit + scratch len
+	dataLen := int64(len(data) + recordSize) // data len + key len + flag bit + scratch len
 	off, err := b.data.Extend(dataLen)
 	if err != nil {
 		return err
@@ -102,26 +110,33 @@ func (b *_Block) put(ikey _Key, data []byte) error {
 		return err
 	}
 	if ikey.delFlag == 0 {
-		b.count++
+		if _, ok := b.records[ikey]; !ok {
+			b.count++
+		}
+		b.records[ikey] = off
 	}
-	b.records[ikey] = off
 
 	return nil
 }
 
 func (b *_Block) delete(key uint64) error {
-	ikey := iKey(false, key)
-	off := b.records[ikey]
-	// k with flag bit
-	var k [9]byte
-	k[0] = 1
-	binary.LittleEndian.PutUint64(k[1:], key)
-	if _, err := b.data.WriteAt(k[:], off+4); err != nil {
+	// deleted key follows its entry to persist deleted entry to the WAL.
+	if err := b.put(iKey(true, key), nil); err != nil {
 		return err
 	}
 
-	delete(b.records, ikey)
+	delete(b.records, iKey(false, key))
 	b.count--
 
 	return nil
 }
+
+// logHeader marshals time ID of the block that precedes records of the block in the log.
+func logHeader(timeID _TimeID) []byte {
+	header := make([]byte, recordSize)
+	binary.LittleEndian.PutUint32(header[:4], recordSize)
+	header[4] = timeIDFlag
+	binary.LittleEndian.PutUint64(header[5:], uint64(timeID))
+
+	return header
+}
diff --git a/memdb/db.go b/memdb/db.go
index 3bffcce..ec546c1 100644
--- a/memdb/db.go
+++ b/memdb/db.go
@@ -17,10 +17,8 @@
 package memdb
 
 import (
-	"encoding/binary"
 	"errors"
 	"os"
-	"sort"
 	"sync"
 	"time"
 
@@ -42,6 +40,9 @@ type DB struct {
 	consistent  *hash.Consistent
 	timeBlocks  _TimeBlocks
 	timeFilters map[_BlockKey]*_TimeFilter
+
+	// dirty has time blocks to write to the WAL as entries are deleted from those.
+	dirty map[_TimeID]struct{}
 }
 
 // Open initializes database.
@@ -54,6 +55,10 @@ func Open(opts ...Options) (*DB, error) {
 		}
 	}
 
+	if options.timeBlockDuration <= 0 {
+		options.timeBlockDuration = defaultBlockDuration
+	}
+
 	// Make sure we have a directory.
 	if err := os.MkdirAll(options.logFilePath, 0777); err != nil {
 		return nil, errors.New("DB.Open, Unable to create db dir")
@@ -85,6 +90,7 @@ func Open(opts ...Options) (*DB, error) {
 		consistent:  hash.InitConsistent(nBlocks, nBlocks),
 		timeBlocks:  make(map[_TimeID]*_Block),
 		timeFilters: make(map[_BlockKey]*_TimeFilter),
+		dirty:       make(map[_TimeID]struct{}),
 	}
 
 	for i := 0; i < nBlocks; i++ {
@@ -97,9 +103,6 @@ func Open(opts ...Options) (*DB, error) {
 		}
 	}
 
-	// Query manager
-	db.newQueryManager()
-
 	// Log Manager
 	db.newLogManager(&_TinyLogOptions{poolCapacity: nPoolSize, writeInterval: options.logInterval, blockDuration: options.timeBlockDuration})
 
@@ -123,17 +126,18 @@ func (db *DB) Close() error {
 
 // Keys gets all keys from DB.
 func (db *DB) Keys() []uint64 {
-	db.mu.RLock()
-	defer db.mu.RUnlock()
-
 	var keys []uint64
 
-	for _, block := range db.timeBlocks {
+	found := make(map[uint64]struct{})
+	for _, block := range db.blocks() {
 		block.RLock()
 		for ik := range block.records {
-			if ik.delFlag == 0 {
-				keys = append(keys, ik.key)
+			// the key is in more than one time block if it is overwritten.
+			if _, ok := found[ik.key]; ok {
+				continue
 			}
+			found[ik.key] = struct{}{}
+			keys = append(keys, ik.key)
 		}
 		block.RUnlock()
 	}
@@ -161,18 +165,9 @@ func (db *DB) Lookup(timeID int64, key uint64) ([]byte, error) {
 	if !ok {
 		return nil, errEntryDoesNotExist
 	}
-	scratch, err := block.data.Slice(off, off+4) // read data length.
-	if err != nil {
-		return nil, err
-	}
-	dataLen := int64(binary.LittleEndian.Uint32(scratch[:4]))
-	data, err := block.data.Slice(off, off+dataLen)
-	if err != nil {
-		return nil, err
-	}
 	db.internal.meter.Gets.Inc(1)
 
-	return data[8+1+4:], nil
+	return block.get(off)
 }
 
 // Get gets data from most recent time ID for the provided key.
@@ -181,78 +176,29 @@ func (db *DB) Get(key uint64) ([]byte, error) {
 		return nil, err
 	}
 
-	db.mu.RLock()
-	// Get time block
-	blockKey := db.blockKey(key)
-	db.mu.RUnlock()
-
-	// first execute query plan
-	if len(db.internal.queryManager.timeFilters[blockKey].timeRecords) == 0 {
-		if err := db.seek(key, 0); err != nil {
-			return nil, err
+	// Lookup key in most recent time block first.
+	for _, timeID := range db.timeIDs(key) {
+		block, ok := db.timeBlock(timeID)
+		if !ok {
+			continue
 		}
-	}
-
-	// Lookup key first for the current timeRecord.
-	block, ok := db.internal.queryManager.timeBlocks[db.internal.queryManager.timeRcord]
-	if ok {
 		block.RLock()
 		off, ok := block.records[iKey(false, key)]
+		if !ok {
+			block.RUnlock()
+			continue
+		}
+		data, err := block.get(off)
 		block.RUnlock()
-		if ok {
-			block.RLock()
-			defer block.RUnlock()
-
-			db.internal.meter.Gets.Inc(1)
-
-			return block.get(off)
+		if err != nil {
+			return nil, err
 		}
-	}
-
-	db.mu.RLock()
-	// Get time block
-	r, ok := db.internal.queryManager.timeFilters[blockKey]
-	db.mu.RUnlock()
-	if !ok {
-		return nil, errEntryDoesNotExist
-	}
-
-	var timeIDs []_TimeID
-	r.RLock()
-	for timeID := range r.timeRecords {
-		timeIDs = append(timeIDs, timeID)
-	}
-	r.RUnlock()
-	sort.Slice(timeIDs[:], func(i, j int) bool {
-		return timeIDs[i] > timeIDs[j]
-	})
-	for _, timeID := range timeIDs {
-		block, ok := db.internal.queryManager.timeBlocks[timeID]
-		if ok {
-			block.RLock()
-			off, ok := block.records[iKey(false, key)]
-			block.RUnlock()
-			if ok {
-				block.RLock()
-				defer block.RUnlock()
-				db.internal.meter.Gets.Inc(1)
-				db.internal.queryManager.timeRcord = timeID
+		db.internal.meter.Gets.Inc(1)
 
-				return block.get(off)
-			}
-			r.RLock()
-			fltr := r.timeRecords[timeID]
-			r.RUnlock()
-			if !fltr.Test(key) {
-				break
-			}
-		}
+		return data, nil
 	}
 
-	// reset timeBlock and start over
-	db.internal.queryManager.timeFilters[blockKey] = &_TimeFilter{timeRecords: make(map[_TimeID]*filter.Block), filter: filter.NewFilterGenerator()}
-
-	return db.Get(key)
+	return nil, errEntryDoesNotExist
 }
 
 // BlockIterator iterates all time blocks from DB committed to the WAL.
@@ -269,12 +215,14 @@ func (db *DB) BlockIterator(f func(timeID int64, keys []uint64) (bool, error)) (
 		var keys []uint64
 		block.RLock()
 		for ik := range block.records {
-			if ik.delFlag == 0 {
-				keys = append(keys, ik.key)
-			}
+			keys = append(keys, ik.key)
 		}
 		block.RUnlock()
 		if len(keys) == 0 {
+			// nothing is left in the block, release it from the WAL.
+			if err := db.releaseLog(timeID); err != nil && err != errEntryDoesNotExist {
+				return err
+			}
 			continue
 		}
 		if stop, err := f(int64(timeID), keys); stop || err != nil {
@@ -286,81 +234,53 @@ func (db *DB) BlockIterator(f func(timeID int64, keys []uint64) (bool, error)) (
 }
 
 // Delete deletes entry from the DB.
-// It writes deleted key into new time block to persist record into the WAL.
+// It writes deleted key into the time block of the entry to persist record into the WAL.
 // If all entries are deleted from a time block then the time block is released from the WAL.
 func (db *DB) Delete(key uint64) error {
 	if err := db.ok(); err != nil {
 		return err
 	}
 
-	db.mu.RLock()
-	// Get time block
-	blockKey := db.blockKey(key)
-	r, ok := db.timeFilters[blockKey]
-	db.mu.RUnlock()
-	if !ok {
-		return errEntryDoesNotExist
-	}
+	// current time block does not change until entry is deleted.
+	db.internal.logManager.mu.RLock()
+	defer db.internal.logManager.mu.RUnlock()
+	currentID := db.internal.logManager.tinyLog.timeID()
 
-	var timeIDs []_TimeID
-	r.RLock()
-	for timeID := range r.timeRecords {
-		timeIDs = append(timeIDs, timeID)
-	}
-	r.RUnlock()
-	sort.Slice(timeIDs[:], func(i, j int) bool {
-		return timeIDs[i] > timeIDs[j]
-	})
-	ikey := iKey(false, key)
-	for _, timeID := range timeIDs {
-		db.mu.RLock()
-		block, ok := db.timeBlocks[timeID]
-		db.mu.RUnlock()
-		if ok {
-			block.RLock()
-			_, ok := block.records[ikey]
-			block.RUnlock()
-			if !ok {
-				r.RLock()
-				fltr := r.timeRecords[timeID]
-				r.RUnlock()
-				if !fltr.Test(key) {
-					return errEntryDoesNotExist
-				}
-				continue
-			}
-
-			timeLock := db.timeLock()
-			timeLock.RLock()
-			defer timeLock.RUnlock()
-
-			block.Lock()
-			block.delete(key)
-			db.internal.meter.Dels.Inc(1)
-			if block.count == 0 {
-				// all entries are deleted from the block,
-				// now check if timeIDs for deleted entries are released.
-				for ikey, timeID := range block.records {
-					db.mu.RLock()
-					if _, ok := db.timeBlocks[_TimeID(timeID)]; ok {
-						db.move(_TimeID(timeID), ikey.key)
-					}
-					db.mu.RUnlock()
-					delete(block.records, ikey)
-				}
-				// released timeblock from the WAL if all records are deleted.
-				if len(block.records) == 0 && timeID < db.timeID() {
-					block.Unlock()
-					return db.releaseLog(timeID)
-				}
-			}
+	err := errEntryDoesNotExist
+	// the key is in more than one time block if it is overwritten.
+	for _, timeID := range db.timeIDs(key) {
+		block, ok := db.timeBlock(timeID)
+		if !ok {
+			continue
+		}
+		block.Lock()
+		if _, ok := block.records[iKey(false, key)]; !ok || block.released {
 			block.Unlock()
+			continue
+		}
+		if err := block.delete(key); err != nil {
+			block.Unlock()
+			return err
+		}
+		count := block.count
+		block.Unlock()
+		db.internal.meter.Dels.Inc(1)
+		err = nil
 
-			return db.move(timeID, key)
+		if timeID == currentID {
+			continue
+		}
+		// released timeblock from the WAL if all records are deleted.
+		if count == 0 {
+			if err := db.releaseLog(timeID); err != nil && err != errEntryDoesNotExist {
+				return err
+			}
+			continue
 		}
+		db.setDirty(timeID)
 	}
 
-	return errEntryDoesNotExist
+	return err
 }
 
 // Put inserts a new key-value pair to the DB.
@@ -369,16 +289,20 @@ func (db *DB) Put(key uint64, data []byte) (int64, error) {
 		return 0, err
 	}
 
-	timeID := db.timeID()
-	db.mu.RLock()
-	block, ok := db.timeBlocks[timeID]
-	db.mu.RUnlock()
+	// current time block does not change until entry is added to it.
+	db.internal.logManager.mu.RLock()
+	defer db.internal.logManager.mu.RUnlock()
+	timeID := db.internal.logManager.tinyLog.timeID()
+	block, ok := db.timeBlock(timeID)
 	if !ok {
 		return 0, errForbidden
 	}
 
 	block.Lock()
 	defer block.Unlock()
+	if block.released {
+		return 0, errForbidden
+	}
 	ikey := iKey(false, key)
 	if err := block.put(ikey, data); err != nil {
 		return int64(timeID), err
@@ -408,6 +332,7 @@ func (db *DB) Batch(fn func(*Batch, <-chan struct{}) error) error {
 	b.setManaged()
 	// If an error is returned from the function then rollback and return error.
 	if err := fn(b, b.commitComplete); err != nil {
+		b.unsetManaged()
 		b.Abort()
 		close(b.commitComplete)
 		return err
@@ -424,15 +349,5 @@ func (db *DB) Free(timeID int64) error {
 
 // Size returns the total number of entries in DB.
 func (db *DB) Size() int64 {
-	size := int64(0)
-	db.mu.RLock()
-	defer db.mu.RUnlock()
-
-	for _, block := range db.timeBlocks {
-		block.RLock()
-		size += block.count
-		block.RUnlock()
-	}
-
-	return size
+	return int64(len(db.Keys()))
 }
diff --git a/memdb/db_internal.go b/memdb/db_internal.go
index c86d10f..9a09711 100644
--- a/memdb/db_internal.go
+++ b/memdb/db_internal.go
@@ -17,7 +17,6 @@
 package memdb
 
 import (
-	"encoding/binary"
 	"errors"
 	"io"
 	"sort"
@@ -65,17 +64,18 @@ type _DB struct {
 
 	// tiny Log
 	timeRef    _TimeID
+	logID      _TimeID
 	logManager *_TinyLogManager
 
+	// recoveredID is a time ID of most recent block recovered from the WAL.
+	recoveredID _TimeID
+
 	// buffer pool
 	buffer *bpool.BufferPool
 
 	// Write ahead log
 	wal *wal.WAL
 
-	// query
-	queryManager *_QueryManager
-
 	// close
 	closed uint32
 	closer io.Closer
@@ -109,13 +109,6 @@ func (db *DB) newTimeLock(timeRef _TimeID) _Internal {
 	return db.internal.timeLock.getTimeLock(timeRef)
 }
 
-// timeLock returns timeLock for the current timeRef.
-func (db *DB) timeLock() _Internal {
-	db.mu.RLock()
-	defer db.mu.RUnlock()
-	return db.internal.timeLock.getTimeLock(db.internal.timeRef)
-}
-
 func (db *DB) timeID() _TimeID {
 	return db.internal.logManager.timeID()
 }
@@ -140,6 +133,18 @@ func (db *DB) addTimeBlock(timeID _TimeID) (ok bool) {
 	return false
 }
 
+// addBatchBlock adds block of a batch to the DB.
+func (db *DB) addBatchBlock(timeID _TimeID, block *_Block) {
+	block.RLock()
+	defer block.RUnlock()
+	db.mu.Lock()
+	db.timeBlocks[timeID] = block
+	db.mu.Unlock()
+	for ik := range block.records {
+		db.addTimeFilter(timeID, ik.key)
+	}
+}
+
 func (db *DB) timeBlock(timeID _TimeID) (*_Block, bool) {
 	db.mu.RLock()
 	defer db.mu.RUnlock()
@@ -150,50 +155,25 @@ func (db *DB) timeBlock(timeID _TimeID) (*_Block, bool) {
 	return nil, false
 }
 
-// addTimeFilter adds unique time block to the set.
-func (db *DB) addTimeFilter(timeID _TimeID, key uint64) error {
-	blockKey := db.blockKey(key)
+// blocks returns all time blocks.
+func (db *DB) blocks() []*_Block {
 	db.mu.RLock()
-	r, ok := db.timeFilters[blockKey]
-	db.mu.RUnlock()
-	r.Lock()
-	defer r.Unlock()
-	if ok {
-		if _, ok := r.timeRecords[timeID]; !ok {
-			db.mu.Lock()
-			r.timeRecords[timeID] = filter.NewFilterBlock(r.filter.Bytes())
-			db.mu.Unlock()
-		}
-
-		// Append key to bloom filter
-		r.filter.Append(key)
-	}
-
-	return nil
-}
-
-func (db *DB) newQueryManager() {
-	queryManager := &_QueryManager{timeBlocks: make(map[_TimeID]*_Block), timeFilters: make(map[_BlockKey]*_TimeFilter)}
-	for i := 0; i < nBlocks; i++ {
-		queryManager.timeFilters[_BlockKey(i)] = &_TimeFilter{timeRecords: make(map[_TimeID]*filter.Block), filter: filter.NewFilterGenerator()}
+	defer db.mu.RUnlock()
+	blocks := make([]*_Block, 0, len(db.timeBlocks))
+	for _, block := range db.timeBlocks {
+		blocks = append(blocks, block)
 	}
 
-	db.internal.queryManager = queryManager
+	return blocks
 }
 
-// seek finds timeRecords and timeBlock for the provided key and cutoff duration and caches those for query.
-func (db *DB) seek(key uint64, cutoff int64) error {
-	if err := db.ok(); err != nil {
-		return err
-	}
-
+// timeIDs returns time IDs of the blocks that may have an entry for the key, most recent first.
+func (db *DB) timeIDs(key uint64) []_TimeID {
 	db.mu.RLock()
-	// Get time block
-	blockKey := db.blockKey(key)
-	r, ok := db.timeFilters[blockKey]
+	r, ok := db.timeFilters[db.blockKey(key)]
 	db.mu.RUnlock()
 	if !ok {
-		return errEntryDoesNotExist
+		return nil
 	}
 
 	var timeIDs []_TimeID
@@ -205,54 +185,64 @@ func (db *DB) seek(key uint64, cutoff int64) error {
 	sort.Slice(timeIDs[:], func(i, j int) bool {
 		return timeIDs[i] > timeIDs[j]
 	})
-	for _, timeID := range timeIDs {
-		db.mu.RLock()
-		block, ok := db.timeBlocks[timeID]
-		db.mu.RUnlock()
-		if ok {
-			block.RLock()
-			_, ok := block.records[iKey(false, key)]
-			block.RUnlock()
-			if ok {
-				b, ok := db.internal.queryManager.timeFilters[blockKey]
-				if ok {
-					b.timeRecords[timeID] = filter.NewFilterBlock(r.filter.Bytes())
-				}
-				db.internal.queryManager.timeBlocks[timeID] = block
-				if cutoff != 0 {
-					db.internal.queryManager.cutoff = _TimeID(cutoff)
-				}
-				return nil
-			}
-			r.RLock()
-			fltr := r.timeRecords[timeID]
-			r.RUnlock()
-			if !fltr.Test(key) {
-				return errEntryDoesNotExist
-			}
+
+	return timeIDs
+}
+
+// addTimeFilter adds unique time block to the set.
+func (db *DB) addTimeFilter(timeID _TimeID, key uint64) error {
+	blockKey := db.blockKey(key)
+	db.mu.RLock()
+	r, ok := db.timeFilters[blockKey]
+	db.mu.RUnlock()
+	if ok {
+		r.Lock()
+		defer r.Unlock()
+		if _, ok := r.timeRecords[timeID]; !ok {
+			r.timeRecords[timeID] = filter.NewFilterBlock(r.filter.Bytes())
 		}
+
+		// Append key to bloom filter
+		r.filter.Append(key)
 	}
 
-	return errEntryDoesNotExist
+	return nil
 }
 
-// move moves the entry to the new block
-func (db *DB) move(timeID _TimeID, key uint64) error {
-	newTimeID := db.timeID()
-	// add deleted key to new time block to persist deleted entry to the WAL.
-	dkey := iKey(true, key)
-	newBlock, ok := db.timeBlock(newTimeID)
-	if !ok {
-		return errForbidden
+// setDirty sets time block to be written to the WAL along with the current time block.
+func (db *DB) setDirty(timeID _TimeID) {
+	db.mu.Lock()
+	defer db.mu.Unlock()
+	db.dirty[timeID] = struct{}{}
+}
+
+// dirtyBlocks returns time blocks to be written to the WAL along with the current time block.
+func (db *DB) dirtyBlocks() (timeIDs []_TimeID) {
+	db.mu.Lock()
+	defer db.mu.Unlock()
+	for timeID := range db.dirty {
+		timeIDs = append(timeIDs, timeID)
+		delete(db.dirty, timeID)
 	}
-	newBlock.Lock()
-	defer newBlock.Unlock()
 
-	rawTimeID := make([]byte, 8)
-	binary.LittleEndian.PutUint64(rawTimeID[:8], uint64(timeID))
+	return timeIDs
+}
+
+// newLogID returns unique ID for the log.
+func (db *DB) newLogID(timeNow time.Time) _TimeID {
+	db.mu.Lock()
+	defer db.mu.Unlock()
+	logID := _TimeID(timeNow.UnixNano())
+	if logID <= db.internal.logID {
+		logID = db.internal.logID + 1
+	}
+	// it is also a time ID of the batch that is not a time ID of the time block.
+	if _TimeID(time.Unix(0, int64(logID)).UTC().Truncate(db.opts.timeBlockDuration).UnixNano()) == logID {
+		logID++
+	}
+	db.internal.logID = logID
 
-	newBlock.records[dkey] = int64(newTimeID)
-	return newBlock.put(dkey, rawTimeID)
+	return logID
 }
 
 // tinyWrite writes tiny log to the WAL.
@@ -265,7 +255,13 @@ func (db *DB) tinyWrite(tinyLog *_TinyLog) error {
 		// all records has already deleted and nothing to write.
 		return nil
 	}
+	block.logMu.Lock()
+	defer block.logMu.Unlock()
 	block.RLock()
+	if block.released {
+		block.RUnlock()
+		return nil
+	}
 	blockSize := block.data.Size()
 	log, err := block.data.Slice(block.lastOffset, blockSize)
 	block.RUnlock()
@@ -281,7 +277,7 @@ func (db *DB) tinyWrite(tinyLog *_TinyLog) error {
 		return err
 	}
 
-	if err := <-logWriter.Append(log); err != nil {
+	if err := <-logWriter.Append(append(logHeader(tinyLog.timeID()), log...)); err != nil {
 		return err
 	}
 	if err := <-logWriter.SignalInitWrite(int64(tinyLog.ID())); err != nil {
@@ -301,6 +297,7 @@ func (db *DB) tinyCommit(tinyLog *_TinyLog) error {
 	defer tinyLog.abort()
 
 	if err := db.tinyWrite(tinyLog); err != nil {
+		tinyLog.err = err
 		return err
 	}
 
@@ -312,28 +309,35 @@ func (db *DB) tinyCommit(tinyLog *_TinyLog) error {
 }
 
 func (db *DB) releaseLog(timeID _TimeID) error {
-	db.mu.RLock()
+	db.mu.Lock()
 	block, ok := db.timeBlocks[timeID]
-	db.mu.RUnlock()
+	delete(db.timeBlocks, timeID)
+	delete(db.dirty, timeID)
+	db.mu.Unlock()
 	if !ok {
 		return errEntryDoesNotExist
 	}
+	db.internal.timeMark.timeUnref(timeID)
 
-	block.RLock()
-	defer block.RUnlock()
+	block.logMu.Lock()
+	defer block.logMu.Unlock()
+	block.Lock()
+	defer block.Unlock()
+	block.released = true
+	for _, r := range db.timeFilters {
+		r.Lock()
+		delete(r.timeRecords, timeID)
+		r.Unlock()
+	}
+	block.records = make(map[_Key]int64)
+	block.count = 0
+	db.internal.buffer.Put(block.data)
 	for _, timeRef := range block.timeRefs {
 		if err := db.internal.wal.SignalLogApplied(int64(timeRef)); err != nil {
 			return err
 		}
 	}
 
-	db.mu.Lock()
-	defer db.mu.Unlock()
-	delete(db.timeBlocks, _TimeID(timeID))
-	db.internal.timeMark.timeUnref(timeID)
-
-	db.internal.buffer.Put(block.data)
-
 	return nil
 }
 
diff --git a/memdb/query.go b/memdb/query.go
deleted file mode 100644
index 9538895..0000000
--- a/memdb/query.go
+++ /dev/null
@@ -1,26 +0,0 @@
-/*
- * Copyright 2020 Saffat Technologies, Ltd.
- *
- * Licensed under the Apache License, Version 2.0 (the "License");
- * you may not use this file except in compliance with the License.
- * You may obtain a copy of the License at
- *
- *     http://www.apache.org/licenses/LICENSE-2.0
- *
- * Unless required by applicable law or agreed to in writing, software
- * distributed under the License is distributed on an "AS IS" BASIS,
- * WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
- * See the License for the specific language governing permissions and
- * limitations under the License.
- */
-
-package memdb
-
-type _QueryManager struct {
-	timeRcord   _TimeID
-	timeFilters map[_BlockKey]*_TimeFilter
-	timeBlocks  _TimeBlocks
-
-	cutoff _TimeID
-	limit  int
-}
diff --git a/memdb/recovery.go b/memdb/recovery.go
index f5fbbe8..54171b1 100644
--- a/memdb/recovery.go
+++ b/memdb/recovery.go
@@ -18,82 +18,22 @@ package memdb
 
 import (
 	"encoding/binary"
-	"sort"
 	"time"
-
-	"github.com/unit-io/unitdb/filter"
 )
 
-// delete deletes entry from the DB.
-//
-// This method is not thread safe.
-func (db *DB) delete(key uint64) error {
-	// Get time block
-	blockKey := db.blockKey(key)
-	r, ok := db.timeFilters[blockKey]
-	if !ok {
-		return errEntryDoesNotExist
-	}
-
-	var timeIDs []_TimeID
-	r.RLock()
-	for timeID := range r.timeRecords {
-		timeIDs = append(timeIDs, timeID)
-	}
-	r.RUnlock()
-	sort.Slice(timeIDs[:], func(i, j int) bool {
-		return timeIDs[i] > timeIDs[j]
-	})
-	for _, timeID := range timeIDs {
-		block, ok := db.timeBlocks[timeID]
-		if ok {
-			block.RLock()
-			_, ok := block.records[iKey(false, key)]
-			block.RUnlock()
-			if !ok {
-				r.RLock()
-				fltr := r.timeRecords[timeID]
-				r.RUnlock()
-				if !fltr.Test(key) {
-					return errEntryDoesNotExist
-				}
-				continue
-			}
-			block.Lock()
-			ikey := iKey(false, key)
-			delete(block.records, ikey)
-			block.count--
-			db.internal.meter.Dels.Inc(1)
-			if len(block.records) == 0 {
-				delete(db.timeBlocks, _TimeID(timeID))
-				db.internal.buffer.Put(block.data)
-			}
-			block.Unlock()
-
-			return nil
-		}
-	}
-
-	return errEntryDoesNotExist
-}
-
 // startRecovery recovers pending entries from the WAL.
 func (db *DB) startRecovery() error {
-	db.mu.RLock()
-	defer db.mu.RUnlock()
-
 	// start log recovery
 	r, err := db.internal.wal.NewReader()
 	if err != nil {
 		return err
 	}
 
-	delKeys := make(map[_TimeID][]uint64)
 	err = r.Iterator(func(ID int64) (ok bool, err error) {
-		log := make(map[uint64][]byte)
-		l := r.Count()
 		timeID := _TimeID(time.Unix(0, ID).UTC().Truncate(db.opts.logInterval).UnixNano())
-		for i := uint32(0); i < l; i++ {
+		var block *_Block
+		recovers := int64(0)
+		for {
 			logData, ok, err := r.Next()
 			if err != nil {
 				return false, err
@@ -103,80 +43,74 @@ func (db *DB) startRecovery() error {
 			}
 
 			var off int
-			for off < len(logData) {
+			for off+recordSize <= len(logData) {
 				dataLen := int(binary.LittleEndian.Uint32(logData[off : off+4]))
+				if dataLen < recordSize || off+dataLen > len(logData) {
+					// log is unreadable from here.
+					break
+				}
 				data := logData[off+4 : off+dataLen]
-				dBit := data[0]
+				flag := data[0]
 				key := binary.LittleEndian.Uint64(data[1:9])
 				val := data[9:]
 				off += dataLen
-				if dBit == 1 {
-					timeRefID := _TimeID(binary.LittleEndian.Uint64(val[:8]))
-					if _, ok := delKeys[timeRefID]; ok {
-						delKeys[timeRefID] = append(delKeys[timeRefID], key)
-					} else {
-						delKeys[timeRefID] = []uint64{key}
-					}
-				} else {
-					log[key] = val
+				if flag == timeIDFlag {
+					timeID = _TimeID(key)
+					continue
 				}
-			}
-			db.internal.timeMark.add(timeID)
-			block, ok := db.timeBlocks[timeID]
-			if !ok {
-				block = &_Block{data: db.internal.buffer.Get(), records: make(map[_Key]int64)}
-				db.timeBlocks[timeID] = block
-			}
-			block.Lock()
-			for key, val := range log {
-				ikey := iKey(false, key)
-				if err := block.put(ikey, val); err != nil {
-					return false, err
+				if block == nil {
+					if block, ok = db.timeBlocks[timeID]; !ok {
+						block = &_Block{data: db.internal.buffer.Get(), records: make(map[_Key]int64)}
+						db.timeBlocks[timeID] = block
+					}
 				}
-				blockKey := db.blockKey(key)
-				r, ok := db.timeFilters[blockKey]
-				if ok {
-					if _, ok := r.timeRecords[timeID]; !ok {
-						r.timeRecords[timeID] = filter.NewFilterBlock(r.filter.Bytes())
+				if flag == 1 {
+					// deleted key follows its entry.
+					if _, ok := block.records[iKey(false, key)]; ok {
+						if err := block.delete(key); err != nil {
+							return false, err
+						}
+						db.internal.meter.Dels.Inc(1)
 					}
-
-					// Append key to bloom filter
-					r.filter.Append(key)
+					continue
 				}
+				if err := block.put(iKey(false, key), val); err != nil {
+					return false, err
+				}
+				db.addTimeFilter(timeID, key)
 				db.internal.meter.Puts.Inc(1)
+				recovers++
 			}
-			block.timeRefs = append(block.timeRefs, _TimeID(ID))
-			block.Unlock()
-			db.internal.timeMark.release(timeID)
-			db.internal.meter.Recovers.Inc(int64(len(log)))
 		}
+		if _TimeID(ID) > db.internal.logID {
+			db.internal.logID = _TimeID(ID)
+		}
+		if block == nil {
+			return false, nil
+		}
+		if timeID > db.internal.recoveredID {
+			db.internal.recoveredID = timeID
+		}
+		block.timeRefs = append(block.timeRefs, _TimeID(ID))
+		block.lastOffset = block.data.Size()
+		db.internal.timeMark.add(timeID)
+		db.internal.timeMark.release(timeID)
+		db.internal.meter.Recovers.Inc(recovers)
 		return false, nil
 	})
+	if err != nil {
+		return err
+	}
 
-	for timeID, keys := range delKeys {
-		if block, exists := db.timeBlocks[timeID]; exists {
-			for _, key := range keys {
-				ikey := iKey(false, key)
-				block.RLock()
-				_, ok := block.records[ikey]
-				block.RUnlock()
-				if !ok {
-					// errEntryDoesNotExist
-					continue
-				}
-				block.Lock()
-				delete(block.records, ikey)
-				block.count--
-				db.internal.meter.Dels.Inc(1)
-				if len(block.records) == 0 {
-					delete(db.timeBlocks, _TimeID(timeID))
-					db.internal.buffer.Put(block.data)
-				}
-				block.Unlock()
-			}
-		} else {
-			for _, key := range keys {
-				db.delete(key)
+	if db.internal.logID <= db.internal.recoveredID {
+		db.internal.logID = db.internal.recoveredID + 1
+	}
+
+	// release blocks from the WAL if all entries are deleted.
+	for timeID, block := range db.timeBlocks {
+		if block.count == 0 {
+			if err := db.releaseLog(timeID); err != nil {
+				return err
 			}
 		}
 	}
@@ -198,9 +132,7 @@ func (db *DB) All(f func(timeID int64, keys []uint64) (bool, error)) (err error)
 		var keys []uint64
 		block.RLock()
 		for ik := range block.records {
-			if ik.delFlag == 0 {
-				keys = append(keys, ik.key)
-			}
+			keys = append(keys, ik.key)
 		}
 		block.RUnlock()
 		if len(keys) == 0 {
diff --git a/memdb/time_mark.go b/memdb/time_mark.go
index d13797b..76210c3 100644
--- a/memdb/time_mark.go
+++ b/memdb/time_mark.go
@@ -43,6 +43,8 @@ func (tm *_TimeMark) add(timeID _TimeID) {
 	defer tm.Unlock()
 	if r, ok := tm.records[timeID]; ok {
 		r.refs++
+		tm.records[timeID] = r
+		return
 	}
 	tm.records[timeID] = _TimeRecord{refs: 1}
 }
diff --git a/memdb/tiny_log.go b/memdb/tiny_log.go
index a7c2fd1..71ad61c 100644
--- a/memdb/tiny_log.go
+++ b/memdb/tiny_log.go
@@ -37,6 +37,7 @@ type _TinyLog struct {
 	_TimeID
 
 	managed  bool
+	err      error // set before doneChan is closed if log is not written
 	doneChan chan struct{}
 }
 
@@ -91,6 +92,8 @@ type (
 		logQueue   chan *_TinyLog
 		stop       chan struct{}
 		stopOnce   sync.Once
+		stopMu     sync.RWMutex // guards closing writeQueue
+		stopped    bool
 		stopWg     sync.WaitGroup
 	}
 )
@@ -122,9 +125,13 @@ func (src *_TinyLogOptions) withDefaultOptions() *_TinyLogOptions {
 func (p *_TinyLogManager) newTinyLog() {
 	timeNow := time.Now().UTC()
 	timeID := _TimeID(timeNow.Truncate(p.opts.blockDuration).UnixNano())
+	// entries are not added to a recovered block as it is released once recovered.
+	if timeID <= p.db.internal.recoveredID {
+		timeID = p.db.internal.recoveredID + 1
+	}
 	p.db.addTimeBlock(timeID)
 	p.db.internal.timeMark.add(timeID)
-	p.tinyLog = &_TinyLog{id: _TimeID(timeNow.UnixNano()), _TimeID: timeID, managed: false, doneChan: make(chan struct{})}
+	p.tinyLog = &_TinyLog{id: p.db.newLogID(timeNow), _TimeID: timeID, managed: false, doneChan: make(chan struct{})}
 }
 
 func (db *DB) newLogManager(opts *_TinyLogOptions) {
@@ -184,18 +191,29 @@ func (p *_TinyLogManager) closeWait() {
 
 // write enqueues a log to write.
 func (p *_TinyLogManager) write() {
+	// entries are deleted from those blocks after the block was written.
+	for _, timeID := range p.db.dirtyBlocks() {
+		p.writeQueue <- &_TinyLog{id: p.db.newLogID(time.Now().UTC()), _TimeID: timeID, managed: true, doneChan: make(chan struct{})}
+	}
 	if p.tinyLog != nil {
 		p.writeQueue <- p.tinyLog
 	}
 }
 
 // writeWait enqueues the log and waits for it to be executed.
-func (p *_TinyLogManager) writeWait(tinyLog *_TinyLog) {
+func (p *_TinyLogManager) writeWait(tinyLog *_TinyLog) error {
 	if tinyLog == nil {
-		return
+		return nil
+	}
+	p.stopMu.RLock()
+	if p.stopped {
+		p.stopMu.RUnlock()
+		return errClosed
 	}
 	p.writeQueue <- tinyLog
+	p.stopMu.RUnlock()
 	<-tinyLog.doneChan
+	return tinyLog.err
 }
 
 // writeLoop enqueue the tiny log to the log pool.
@@ -211,8 +229,13 @@ func (p *_TinyLogManager) writeLoop(interval time.Duration) {
 	for {
 		select {
 		case <-p.stop:
+			p.mu.Lock()
 			p.write()
+			p.mu.Unlock()
+			p.stopMu.Lock()
+			p.stopped = true
 			close(p.writeQueue)
+			p.stopMu.Unlock()
 
 			return
 		case <-writeC:
@@ -243,7 +266,6 @@ func (p *_TinyLogManager) writeLoop(interval time.Duration) {
 
 // dispatch handles tiny log commit for the jobs in queue.
 func (p *_TinyLogManager) dispatch(timeout time.Duration) {
-LOOP:
 	for {
 		select {
 		case tinyLog, ok := <-p.writeQueue:
@@ -254,20 +276,10 @@ LOOP:
 				return
 			}
 
-			// return tinyLog to the pool
-			select {
-			case p.logQueue <- tinyLog:
-			default:
-				// pool is full, let GC handle the buffer
-				goto WAIT
-			}
+			// return tinyLog to the pool, it waits if pool is full
+			p.logQueue <- tinyLog
 		}
 	}
-
-WAIT:
-	// Wait for a while
-	time.Sleep(timeout)
-	goto LOOP
 }
 
 // commitLoop commits the tiny log to the WAL.
-- 
2.43.0


From c41c3c0866ec73b2d1b249e83c0907ab64f74d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:16 +0000
Subject: [PATCH 19/66] fix: expire entries of every expiry window

---
 expiry_window.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expiry_window.go b/expiry_window.go
index f67b746..31ea2d6 100644
--- a/expiry_window.go
+++ b/expiry_window.go
@@ -93,7 +93,7 @@ func (wb *_ExpiryWindowBucket) getExpiredEntries(maxResults int) []timeWindowEnt
 		return expiredEntries
 	}
 
-	for i := 0; i < wb.maxExpDurations; i++ {
+	for i := range wb.expiryWindows.expiry {
 		// get windows shard.
 		ws := wb.expiryWindows.expiry[i]
 		ws.mu.Lock()
-- 
2.43.0


From d56ed1945b2f6b8e1e367bd2200e54bc1bb141b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:16 +0000
Subject: [PATCH 20/66] fix: release window entries added after the sync is
 started

---
 time_window.go | 32 +++++++++-----------------------
 1 file changed, 9 insertions(+), 23 deletions(-)

diff --git a/time_window.go b/time_window.go
index 7fcfdec..ea6622b 100644
--- a/time_window.go
+++ b/time_window.go
@@ -187,30 +187,16 @@ func (tw *_TimeWindowBucket) add(timeID int64, topicHash uint64, e _WinEntry) (o
 	return true
 }
 func (tw *_TimeWindowBucket) release() func(timeID int64) error {
-	releasedKeys := make(map[int64][]_Key)
-	for i := 0; i < nShards; i++ {
-		wb := tw.windowBlocks.window[i]
-		wb.mu.RLock()
-		for k := range wb.entries {
-			if _, ok := releasedKeys[k.timeID]; ok {
-				releasedKeys[k.timeID] = append(releasedKeys[k.timeID], k)
-			} else {
-				releasedKeys[k.timeID] = []_Key{k}
-			}
-		}
-		wb.mu.RUnlock()
-	}
-
 	return func(timeID int64) error {
-		keys, ok := releasedKeys[timeID]
-		if !ok {
-			return errBadRequest
-		}
-		for _, k := range keys {
-			b := tw.windowBlocks.getWindowBlock(k.topicHash)
-			b.mu.Lock()
-			delete(b.entries, k)
-			b.mu.Unlock()
+		for i := 0; i < nShards; i++ {
+			wb := tw.windowBlocks.window[i]
+			wb.mu.Lock()
+			for k := range wb.entries {
+				if k.timeID == timeID {
+					delete(wb.entries, k)
+				}
+			}
+			wb.mu.Unlock()
 		}
 
 		return nil
-- 
2.43.0


From 6798debf49ac0059f811c63578a01e1839b487fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:17 +0000
Subject: [PATCH 21/66] fix: do not lock a lock file that is removed by its
 owner

---
 file_unix.go | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/file_unix.go b/file_unix.go
index f6c5c82..4a1e1a2 100644
--- a/file_unix.go
+++ b/file_unix.go
@@ -47,13 +47,24 @@ func lockFile(f *os.File) error {
 }
 
 func newLockFile(name string) (_LockFile, error) {
-	f, err := os.OpenFile(name, os.O_RDWR|os.O_CREATE, 0666)
-	if err != nil {
-		return nil, err
-	}
-	if err := lockFile(f); err != nil {
+	for {
+		f, err := os.OpenFile(name, os.O_RDWR|os.O_CREATE, 0666)
+		if err != nil {
+			return nil, err
+		}
+		if err := lockFile(f); err != nil {
+			f.Close()
+			return nil, err
+		}
+		// file could have been removed by its owner before it is locked.
+		fi, err := f.Stat()
+		if err != nil {
+			f.Close()
+			return nil, err
+		}
+		if current, err := os.Stat(name); err == nil && os.SameFile(fi, current) {
+			return &_UnixFileLock{f, name}, nil
+		}
 		f.Close()
-		return nil, err
 	}
-	return &_UnixFileLock{f, name}, nil
 }
-- 
2.43.0


From cdcf095a005c7a63c5d564ac222ca29c8d01a2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:17 +0000
Subject: [PATCH 22/66] fix: batch write returns its error, and batch deletes
 every entry

---
 batch.go | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/batch.go b/batch.go
index d592255..e5ddd82 100644
--- a/batch.go
+++ b/batch.go
@@ -169,10 +169,11 @@ func (b *Batch) writeInternal(fn func(i int, e _Entry, data []byte) error) error
 		}
 		if index.delFlag && e.seq != 0 {
 			/// Test filter block for presence.
-			if !b.db.internal.filter.Test(e.seq) {
-				return nil
+			// entry is put earlier in the batch, or it is in the DB.
+			b.mem.Delete(e.seq)
+			if err := b.db.delete(e.topicHash, e.seq); err != nil {
+				return err
 			}
-			b.db.delete(e.topicHash, e.seq)
 			continue
 		}
 
@@ -203,8 +204,7 @@ func (b *Batch) Write() error {
 	}
 	topics := make(map[uint64]*message.Topic)
 	timeID := b.mem.TimeID()
-	var seqs []uint64
-	b.writeInternal(func(i int, e _Entry, data []byte) error {
+	if err := b.writeInternal(func(i int, e _Entry, data []byte) error {
 		if e.topicSize != 0 {
 			t, ok := topics[e.topicHash]
 			if !ok {
@@ -221,11 +221,14 @@ func (b *Batch) Write() error {
 		if ok := b.db.internal.timeWindow.add(timeID, e.topicHash, newWinEntry(e.seq, e.expiresAt)); !ok {
 			return errForbidden
 		}
-		seqs = append(seqs, e.seq)
 		return nil
-	})
+	}); err != nil {
+		return err
+	}
 
-	b.mem.Write()
+	if err := b.mem.Write(); err != nil {
+		return err
+	}
 	b.reset()
 
 	return nil
@@ -265,6 +268,10 @@ func (b *Batch) reset() {
 //Abort abort is a batch cleanup operation on batch complete.
 func (b *Batch) Abort() {
 	_assert(!b.managed, "managed batch abort not allowed")
+	if b.db == nil {
+		// batch is already committed or aborted.
+		return
+	}
 
 	b.reset()
 	b.mem.Abort()
-- 
2.43.0


From 6133e93d54a0255cf1b83dc66c3adb4da4983cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:28 +0000
Subject: [PATCH 23/66] fix: recover the log of a DB that was never sync, and
 do not reuse recovered sequences

---
 db_sync.go  |  8 +-------
 recovery.go | 12 +++++++++++-
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/db_sync.go b/db_sync.go
index ccc8b7e..d0ab106 100644
--- a/db_sync.go
+++ b/db_sync.go
@@ -48,11 +48,6 @@ type (
 )
 
 func (db *_SyncHandle) startSync() bool {
-	if db.syncInfo.lastSyncSeq == db.seq() {
-		db.syncInfo.syncStatusOk = false
-		return db.syncInfo.syncStatusOk
-	}
-
 	db.rawWindow = db.internal.bufPool.Get()
 	db.rawBlock = db.internal.bufPool.Get()
 
@@ -118,8 +113,6 @@ func (db *_SyncHandle) abort() error {
 		return err
 	}
 
-	db.decount(uint64(db.syncInfo.count))
-
 	return nil
 }
 
@@ -194,6 +187,7 @@ func (db *_SyncHandle) sync(recovery bool) error {
 
 	db.incount(uint64(db.syncInfo.count))
 	if err := db.DB.sync(); err != nil {
+		db.decount(uint64(db.syncInfo.count))
 		return err
 	}
 	if recovery {
diff --git a/recovery.go b/recovery.go
index 1da08d5..7c4cd2d 100644
--- a/recovery.go
+++ b/recovery.go
@@ -20,6 +20,7 @@ import (
 	"errors"
 	"fmt"
 	"sort"
+	"sync/atomic"
 
 	"github.com/unit-io/unitdb/message"
 	// _ "net/http/pprof"
@@ -50,6 +51,12 @@ func (db *_SyncHandle) startRecovery() error {
 		db.internal.closeW.Done()
 	}()
 	fmt.Println("db.recoverLog: start recovery")
+	// sequence of entries written to the log is not persisted to the disk until those are sync.
+	for _, seq := range db.internal.mem.Keys() {
+		if seq > db.seq() {
+			atomic.StoreUint64(&db.internal.dbInfo.sequence, seq)
+		}
+	}
 	if ok := db.startSync(); !ok {
 		return nil
 	}
@@ -151,7 +158,10 @@ func (db *_SyncHandle) startRecovery() error {
 	if err != nil || err1 != nil {
 		db.syncInfo.syncComplete = false
 		db.abort()
-		return err1
+		if err == nil {
+			err = err1
+		}
+		return err
 	}
 
 	if err := db.recoverWindowBlocks(pendingEntries); err != nil {
-- 
2.43.0


From 7e6916a5b3882d9feb705fb7452f1669c6dc3583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:36 +0000
Subject: [PATCH 24/66] fix: add the topic before its entry can be sync

---
 db.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/db.go b/db.go
index f145b74..f3abd99 100644
--- a/db.go
+++ b/db.go
@@ -350,6 +350,14 @@ func (db *DB) PutEntry(e *Entry) error {
 		return err
 	}
 
+	// topic is added before its entry, it is looked up when entry is sync.
+	if e.entry.topicSize != 0 {
+		t := new(message.Topic)
+		rawTopic := e.entry.cache[entrySize+idSize : entrySize+idSize+e.entry.topicSize]
+		t.Unmarshal(rawTopic)
+		db.internal.trie.add(newTopic(e.entry.topicHash, 0), t.Parts, t.Depth)
+	}
+
 	timeID, err := db.internal.mem.Put(e.entry.seq, e.entry.cache)
 	if err != nil {
 		return err
@@ -359,13 +367,6 @@ func (db *DB) PutEntry(e *Entry) error {
 		return errForbidden
 	}
 
-	if e.entry.topicSize != 0 {
-		t := new(message.Topic)
-		rawTopic := e.entry.cache[entrySize+idSize : entrySize+idSize+e.entry.topicSize]
-		t.Unmarshal(rawTopic)
-		db.internal.trie.add(newTopic(e.entry.topicHash, 0), t.Parts, t.Depth)
-	}
-
 	db.internal.meter.Puts.Inc(1)
 
 	// reset message entry.
-- 
2.43.0


From 7bfae6341b9c429cb7b04a4aa7c3597f4f1cb124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:36 +0000
Subject: [PATCH 25/66] fix: roll back a managed batch on error instead of
 panicking

---
 db.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/db.go b/db.go
index f3abd99..84cfdfa 100644
--- a/db.go
+++ b/db.go
@@ -432,6 +432,7 @@ func (db *DB) Batch(fn func(*Batch, <-chan struct{}) error) error {
 
 	// If an error is returned from the function then rollback and return error.
 	if err := fn(b, b.commitComplete); err != nil {
+		b.unsetManaged()
 		b.Abort()
 		close(b.commitComplete)
 		return err
-- 
2.43.0


From 95d20ab4e13b70c9c982b35a56943a0d81972925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:42 +0000
Subject: [PATCH 26/66] fix: unlock the DB if it fails to open

---
 db.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/db.go b/db.go
index 84cfdfa..718db12 100644
--- a/db.go
+++ b/db.go
@@ -46,7 +46,7 @@ type DB struct {
 }
 
 // Open opens or creates a new DB.
-func Open(path string, opts ...Options) (*DB, error) {
+func Open(path string, opts ...Options) (_ *DB, err error) {
 	options := &_Options{}
 	WithDefaultOptions().set(options)
 	WithDefaultFlags().set(options)
@@ -65,6 +65,12 @@ func Open(path string, opts ...Options) (*DB, error) {
 		return nil, err
 	}
 
+	defer func() {
+		if err != nil {
+			lock.unlock()
+		}
+	}()
+
 	infoFile, err := newFile(path, 1, _FileDesc{fileType: typeInfo})
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 74e11993751b08545e35c2cf8f67fa958738399c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:42 +0000
Subject: [PATCH 27/66] fix: count entries of a DB that was not closed

---
 db.go          |  9 +++++++++
 db_internal.go | 24 ++++++++++++++++++++++++
 file.go        |  6 ++++++
 3 files changed, 39 insertions(+)

diff --git a/db.go b/db.go
index 718db12..ce9c5af 100644
--- a/db.go
+++ b/db.go
@@ -57,6 +57,8 @@ func Open(path string, opts ...Options) (_ *DB, err error) {
 		}
 	}
 
+	// lock file is removed on close.
+	unclean := hasLockFile(path)
 	lock, err := createLockFile(path)
 	if err != nil {
 		if err == os.ErrExist {
@@ -204,6 +206,13 @@ func Open(path string, opts ...Options) (_ *DB, err error) {
 		panic(fmt.Sprintf("Unable to recover db on sync error %v. Closing db...", err))
 	}
 
+	// count is not persisted with every entry.
+	if unclean {
+		if err := db.recount(); err != nil {
+			return nil, err
+		}
+	}
+
 	db.internal.syncHandle = _SyncHandle{DB: db}
 	db.startSyncer(options.syncDurationType * time.Duration(options.maxSyncDurations))
 
diff --git a/db_internal.go b/db_internal.go
index e95a3d4..6912b99 100644
--- a/db_internal.go
+++ b/db_internal.go
@@ -195,6 +195,30 @@ func (db *DB) loadTrie() error {
 	return err
 }
 
+// recount counts entries stored in the index file.
+func (db *DB) recount() error {
+	indexFile, err := db.fs.getFile(_FileDesc{fileType: typeIndex})
+	if err != nil {
+		return err
+	}
+	count := uint64(0)
+	r := _BlockReader{indexFile: indexFile}
+	for size := indexFile.currSize(); r.offset+int64(blockSize) <= size; r.offset += int64(blockSize) {
+		b, err := r.readIndexBlock()
+		if err != nil {
+			return err
+		}
+		for i := 0; i < int(b.entryIdx); i++ {
+			if !b.entries[i].deleted() {
+				count++
+			}
+		}
+	}
+	atomic.StoreUint64(&db.internal.dbInfo.count, count)
+
+	return nil
+}
+
 func (db *DB) readEntry(q _Query) (_IndexEntry, error) {
 	data, _ := db.internal.mem.Get(q.seq)
 	if data != nil {
diff --git a/file.go b/file.go
index 7cf6b8b..a89e490 100644
--- a/file.go
+++ b/file.go
@@ -117,6 +117,12 @@ func createLockFile(dirName string) (_LockFile, error) {
 	return newLockFile(path.Join(dirName, suffix))
 }
 
+// hasLockFile returns true if the DB is in use or it was not closed.
+func hasLockFile(dirName string) bool {
+	_, err := os.Stat(path.Join(dirName, fmt.Sprintf("%s.lock", prefix)))
+	return err == nil
+}
+
 func newFile(path string, nFiles int16, fd _FileDesc) (_FileSet, error) {
 	if nFiles == 0 {
 		return _FileSet{}, errors.New("no new file")
-- 
2.43.0


From d3d28b7156fda5ab23c79262b4c4f19d0bb118c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:33 +0000
Subject: [PATCH 28/66] fix: a query limit larger than the maximum is capped

---
 query.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/query.go b/query.go
index c6b2d96..0dc3e49 100644
--- a/query.go
+++ b/query.go
@@ -119,5 +119,8 @@ func (q *Query) parse() error {
 	if q.Limit == 0 {
 		q.Limit = q.internal.opts.defaultQueryLimit
 	}
+	if q.Limit > q.internal.opts.maxQueryLimit {
+		q.Limit = q.internal.opts.maxQueryLimit
+	}
 	return nil
 }
-- 
2.43.0


From 5d4bb92006d87077f087edf62cec119b5629e9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:59 +0000
Subject: [PATCH 29/66] fix: size of a closed DB is an error instead of a panic

---
 db.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/db.go b/db.go
index ce9c5af..664ec00 100644
--- a/db.go
+++ b/db.go
@@ -490,6 +490,9 @@ func (db *DB) Sync() error {
 
 // FileSize returns the total size of the disk storage used by the DB.
 func (db *DB) FileSize() (int64, error) {
+	if err := db.ok(); err != nil {
+		return 0, err
+	}
 	return db.fs.size()
 }
 
-- 
2.43.0


From 2455b531686b9199226fdc9b56a01a103d3439e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:59 +0000
Subject: [PATCH 30/66] hooks: notify of file changes with the verif build tag

---
 verif_hook.go       | 32 ++++++++++++++++++++++++++++++++
 wal/file.go         |  4 ++++
 wal/verif_hook.go   | 14 ++++++++++++++
 wal/verif_nohook.go |  6 ++++++
 4 files changed, 56 insertions(+)
 create mode 100644 verif_hook.go
 create mode 100644 wal/verif_hook.go
 create mode 100644 wal/verif_nohook.go

diff --git a/verif_hook.go b/verif_hook.go
new file mode 100644
index 0000000..4fad6da
--- /dev/null
+++ b/verif_hook.go
@@ -0,0 +1,32 @@
+//go:build verif
+// +build verif
+
+package unitdb
+
+// VerifHook is called before every change of a file of the DB, with the name of the change and of the file.
+// It is only built with the verif tag.
+var VerifHook func(op, name string, data []byte, off int64)
+
+func (f *_File) verifHook(op string, data []byte, off int64) {
+	if VerifHook != nil {
+		VerifHook(op, f.Name(), data, off)
+	}
+}
+
+// WriteAt shadows WriteAt of the embedded file.
+func (f *_File) WriteAt(b []byte, off int64) (int, error) {
+	f.verifHook("write", b, off)
+	return f.File.WriteAt(b, off)
+}
+
+// Truncate shadows Truncate of the embedded file.
+func (f *_File) Truncate(size int64) error {
+	f.verifHook("truncate", nil, size)
+	return f.File.Truncate(size)
+}
+
+// Sync shadows Sync of the embedded file.
+func (f *_File) Sync() error {
+	f.verifHook("sync", nil, 0)
+	return f.File.Sync()
+}
diff --git a/wal/file.go b/wal/file.go
index 3bcfcb6..c250d26 100644
--- a/wal/file.go
+++ b/wal/file.go
@@ -79,6 +79,7 @@ func (fs *_FileStore) put(info _LogInfo, data *bpool.Buffer) error {
 	if err != nil {
 		return err
 	}
+	verifHook("create", tmp)
 	buf, err := info.MarshalBinary()
 	if err != nil {
 		return err
@@ -94,10 +95,12 @@ func (fs *_FileStore) put(info _LogInfo, data *bpool.Buffer) error {
 	}
 	log := logPath(fs.dirName, info.timeID)
 
+	verifHook("written", tmp)
 	if err := os.Rename(tmp, log); err != nil {
 		return err
 	}
 
+	verifHook("renamed", log)
 	if !exists(log) {
 		return errors.New(fmt.Sprintf("file not created, %s", log))
 	}
@@ -225,6 +228,7 @@ func (fs *_FileStore) del(timeID int64) {
 		return
 	}
 
+	verifHook("remove", log)
 	os.Remove(log)
 }
 
diff --git a/wal/verif_hook.go b/wal/verif_hook.go
new file mode 100644
index 0000000..b128b70
--- /dev/null
+++ b/wal/verif_hook.go
@@ -0,0 +1,14 @@
+//go:build verif
+// +build verif
+
+package wal
+
+// VerifHook is called around every change of a log file, with the name of the change and of the file.
+// It is only built with the verif tag.
+var VerifHook func(op, name string)
+
+func verifHook(op, name string) {
+	if VerifHook != nil {
+		VerifHook(op, name)
+	}
+}
diff --git a/wal/verif_nohook.go b/wal/verif_nohook.go
new file mode 100644
index 0000000..928558d
--- /dev/null
+++ b/wal/verif_nohook.go
@@ -0,0 +1,6 @@
+//go:build !verif
+// +build !verif
+
+package wal
+
+func verifHook(op, name string) {}
-- 
2.43.0


From fd6081041bad648590d25afbf6e79fba71a74f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:05 +0000
Subject: [PATCH 31/66] fix: a limited query returns the most recent entries of
 batches sync out of order

---
 time_window.go        | 27 +++++++++++++++++++++++----
 time_window_writer.go |  2 +-
 2 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/time_window.go b/time_window.go
index ea6622b..678a2ff 100644
--- a/time_window.go
+++ b/time_window.go
@@ -38,6 +38,7 @@ type (
 		// Next stores offset that links multiple winBlocks for a topic hash.
 		// Most recent offset is stored into the trie to iterate entries in reverse time order.
 		next       int64
+		nextSeq    uint64 // greatest sequence of the linked blocks.
 		cutoffTime int64
 		entryIdx   uint16
 
@@ -69,6 +70,17 @@ func (b _WinBlock) cutoff(cutoff int64) bool {
 	return b.cutoffTime != 0 && b.cutoffTime < cutoff
 }
 
+// maxSeq returns greatest sequence of the block and of the blocks linked to it.
+func (b _WinBlock) maxSeq() uint64 {
+	seq := b.nextSeq
+	for _, e := range b.entries[:b.entryIdx] {
+		if e.sequence > seq {
+			seq = e.sequence
+		}
+	}
+	return seq
+}
+
 // marshalBinary serialized window block into binary data.
 func (b _WinBlock) marshalBinary() []byte {
 	buf := make([]byte, blockSize)
@@ -83,6 +95,7 @@ func (b _WinBlock) marshalBinary() []byte {
 	binary.LittleEndian.PutUint64(buf[8:16], b.topicHash)
 	binary.LittleEndian.PutUint64(buf[16:24], uint64(b.next))
 	binary.LittleEndian.PutUint16(buf[24:26], b.entryIdx)
+	binary.LittleEndian.PutUint64(buf[26:34], b.nextSeq)
 	return data
 }
 
@@ -98,6 +111,7 @@ func (b *_WinBlock) unmarshalBinary(data []byte) error {
 	b.topicHash = binary.LittleEndian.Uint64(data[8:16])
 	b.next = int64(binary.LittleEndian.Uint64(data[16:24]))
 	b.entryIdx = binary.LittleEndian.Uint16(data[24:26])
+	b.nextSeq = binary.LittleEndian.Uint64(data[26:34])
 	return nil
 }
 
@@ -251,20 +265,21 @@ func (tw *_TimeWindowBucket) lookup(fs *_FileSet, topicHash uint64, offset func(
 			winEntries = append(winEntries, we)
 		}
 	}
-	add(tw.ilookup(topicHash))
-	defer func() {
+	recent := func() {
 		sort.Slice(winEntries[:], func(i, j int) bool {
 			return winEntries[i].seq() > winEntries[j].seq()
 		})
 		if len(winEntries) > limit {
 			winEntries = winEntries[:limit]
 		}
-	}()
+	}
+	add(tw.ilookup(topicHash))
+	defer recent()
 	winFile, err := fs.getFile(_FileDesc{fileType: typeTimeWindow})
 	if err != nil {
 		return winEntries
 	}
-	for off := offset(); off != 0 && len(winEntries) < limit; {
+	for off := offset(); off != 0; {
 		r := _WindowReader{winFile: winFile, offset: off}
 		b, err := r.readWindowBlock()
 		if err != nil || b.topicHash != topicHash {
@@ -274,6 +289,10 @@ func (tw *_TimeWindowBucket) lookup(fs *_FileSet, topicHash uint64, offset func(
 		if b.cutoff(cutoff) {
 			return winEntries
 		}
+		// entries are not sync in order of their sequence if those are added by concurrent batches.
+		if recent(); len(winEntries) == limit && winEntries[limit-1].seq() > b.nextSeq {
+			return winEntries
+		}
 		off = b.next
 	}
 
diff --git a/time_window_writer.go b/time_window_writer.go
index d7ac786..8b276b6 100644
--- a/time_window_writer.go
+++ b/time_window_writer.go
@@ -115,7 +115,7 @@ func (w *_WindowWriter) append(topicHash uint64, off int64, wEntries _WindowEntr
 			w.winBlocks[wIdx] = b
 			w.windowIdx++
 			wIdx = w.windowIdx
-			b = _WinBlock{topicHash: topicHash, next: next}
+			b = _WinBlock{topicHash: topicHash, next: next, nextSeq: b.maxSeq()}
 		}
 		if b.leased {
 			w.winLeases[wIdx] = append(w.winLeases[wIdx], we.sequence)
-- 
2.43.0


From fa77fa7037cb4417f43e83b3807195c814596113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:29 +0000
Subject: [PATCH 32/66] fix: an ID is not handed out again after DB is not
 closed properly

---
 db_internal.go | 40 +++++++++++++++++++++++++++++++++++++++-
 1 file changed, 39 insertions(+), 1 deletion(-)

diff --git a/db_internal.go b/db_internal.go
index 6912b99..b5b88d4 100644
--- a/db_internal.go
+++ b/db_internal.go
@@ -62,6 +62,9 @@ const (
 	// maxKeys is the maximum numbers of keys in the DB.
 	maxKeys = math.MaxInt64
 
+	// nReserveSeq is the number of sequences reserved at a time.
+	nReserveSeq = 1024
+
 	// maxSeq is the maximum number of seq supported.
 	maxSeq = math.MaxUint64
 )
@@ -78,6 +81,10 @@ type (
 		dbInfo _DBInfo
 		mac    *crypto.MAC
 
+		// sequences up to reservedSeq are not handed out again if DB is not closed properly.
+		infoMu      sync.Mutex
+		reservedSeq uint64
+
 		mem      *memdb.DB
 		bufPool  *bpool.BufferPool
 		info     _FileSet
@@ -106,6 +113,14 @@ type (
 )
 
 func (db *DB) writeInfo() error {
+	db.internal.infoMu.Lock()
+	defer db.internal.infoMu.Unlock()
+
+	return db.writeInfoSeq(db.internal.reservedSeq)
+}
+
+// writeInfoSeq writes information with sequence that is at least minSeq.
+func (db *DB) writeInfoSeq(minSeq uint64) error {
 	inf := _DBInfo{
 		header: _Header{
 			signature: signature,
@@ -115,6 +130,9 @@ func (db *DB) writeInfo() error {
 		sequence:   atomic.LoadUint64(&db.internal.dbInfo.sequence),
 		count:      atomic.LoadUint64(&db.internal.dbInfo.count),
 	}
+	if inf.sequence < minSeq {
+		inf.sequence = minSeq
+	}
 
 	return db.internal.info.writeMarshalableAt(inf, 0)
 }
@@ -137,6 +155,8 @@ func (db *DB) close() error {
 	// close memdb.
 	db.internal.mem.Close()
 
+	// sequences that are not handed out are no longer reserved.
+	atomic.StoreUint64(&db.internal.reservedSeq, 0)
 	if err := db.writeInfo(); err != nil {
 		return err
 	}
@@ -420,7 +440,25 @@ func (db *DB) seq() uint64 {
 }
 
 func (db *DB) nextSeq() uint64 {
-	return atomic.AddUint64(&db.internal.dbInfo.sequence, 1)
+	seq := atomic.AddUint64(&db.internal.dbInfo.sequence, 1)
+	if seq > atomic.LoadUint64(&db.internal.reservedSeq) && !db.isClosed() {
+		db.reserveSeq(seq)
+	}
+	return seq
+}
+
+// reserveSeq persists sequence ahead of the sequences handed out.
+func (db *DB) reserveSeq(seq uint64) {
+	db.internal.infoMu.Lock()
+	defer db.internal.infoMu.Unlock()
+	if seq <= db.internal.reservedSeq || db.isClosed() {
+		return
+	}
+	if err := db.writeInfoSeq(seq + nReserveSeq); err != nil {
+		logger.Error().Err(err).Str("context", "db.reserveSeq")
+		return
+	}
+	atomic.StoreUint64(&db.internal.reservedSeq, seq+nReserveSeq)
 }
 
 func (db *DB) incount(count uint64) uint64 {
-- 
2.43.0


From 764990443463890110dae1c3a713ae43afb2156e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:20 +0000
Subject: [PATCH 33/66] fix: an entry used again for another topic or contract
 is not stored under the first one

---
 db_internal.go | 25 ++++++++++++++++---------
 entry.go       |  7 +++++++
 2 files changed, 23 insertions(+), 9 deletions(-)

diff --git a/db_internal.go b/db_internal.go
index b5b88d4..9fe867a 100644
--- a/db_internal.go
+++ b/db_internal.go
@@ -307,22 +307,29 @@ func (db *DB) setEntry(e *Entry) error {
 	var eBit uint8
 	var seq uint64
 	var rawTopic []byte
-	if !e.entry.parsed {
-		if e.Contract == 0 {
-			e.Contract = message.MasterContract
-		}
-		t, ttl, err := db.parseTopic(e.Contract, e.Topic)
+	if e.Contract == 0 {
+		e.Contract = message.MasterContract
+	}
+	// topic is not parsed again if entry is reused for the topic.
+	if !e.entry.parsed || e.entry.contract != e.Contract || e.entry.parsedTopic != string(e.Topic) {
+		parsedTopic := string(e.Topic)
+		// topic options refer to the topic, and it is safe to modify topic of the entry.
+		t, _, err := db.parseTopic(e.Contract, []byte(parsedTopic))
 		if err != nil {
 			return err
 		}
-		if e.ExpiresAt == 0 && ttl > 0 {
-			e.ExpiresAt = ttl
-		}
 		t.AddContract(e.Contract)
 		e.entry.topicHash = t.GetHash(e.Contract)
 		e.entry.rawTopic = t.Marshal()
+		e.entry.topic = t
+		e.entry.contract = e.Contract
+		e.entry.parsedTopic = parsedTopic
 		e.entry.parsed = true
 	}
+	expiresAt := e.ExpiresAt
+	if ttl, ok := e.entry.topic.TTL(); ok && expiresAt == 0 {
+		expiresAt = ttl
+	}
 	// topic is packed if it is new topic entry, or its entries are not yet sync as those can be deleted before sync.
 	if off, ok := db.internal.trie.getOffset(e.entry.topicHash); !ok || off == 0 {
 		rawTopic = e.entry.rawTopic
@@ -341,7 +348,7 @@ func (db *DB) setEntry(e *Entry) error {
 
 	id.SetContract(e.Contract)
 	e.entry.seq = seq
-	e.entry.expiresAt = e.ExpiresAt
+	e.entry.expiresAt = expiresAt
 	val := snappy.Encode(nil, e.Payload)
 	if db.internal.dbInfo.encryption == 1 || e.Encryption {
 		eBit = 1
diff --git a/entry.go b/entry.go
index 594de58..71dc2a2 100644
--- a/entry.go
+++ b/entry.go
@@ -21,6 +21,8 @@ import (
 	"strconv"
 	"time"
 	"unsafe"
+
+	"github.com/unit-io/unitdb/message"
 )
 
 const (
@@ -38,6 +40,11 @@ type (
 		topicHash uint64 // topicHash for recovery from log and not persisted to the DB.
 		rawTopic  []byte // packed topic, it is added to the entries until topic is sync to the DB.
 		cache     []byte // entry from memdb if it exist.
+
+		// topic and contract the entry is parsed for.
+		topic       *message.Topic
+		parsedTopic string
+		contract    uint32
 	}
 	// Entry entry is a message entry structure.
 	Entry struct {
-- 
2.43.0


From 3f4e882fc6bd26d7541181d1fad9aaf76f51632f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:51 +0000
Subject: [PATCH 34/66] fix: logs of the WAL are released concurrently without
 a data race

---
 wal/wal.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wal/wal.go b/wal/wal.go
index b838cdb..732fd68 100644
--- a/wal/wal.go
+++ b/wal/wal.go
@@ -126,7 +126,7 @@ func (wal *WAL) SignalLogApplied(timeID int64) error {
 		wal.mu.RUnlock()
 	}()
 
-	wal.logCountApplied++
+	atomic.AddInt64(&wal.logCountApplied, 1)
 	wal.logStore.del(timeID)
 
 	return nil
-- 
2.43.0


From 903c35ef4bd4a9a69dcb4d0dfc06f614a86f238e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:02 +0000
Subject: [PATCH 35/66] fix: Sync does not race with a sync that is in-progress

---
 db_sync.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/db_sync.go b/db_sync.go
index d0ab106..6c00efd 100644
--- a/db_sync.go
+++ b/db_sync.go
@@ -20,6 +20,7 @@ import (
 	"errors"
 	"fmt"
 	"sort"
+	"sync/atomic"
 	"time"
 
 	"github.com/unit-io/bpool"
@@ -29,7 +30,7 @@ type (
 	_SyncInfo struct {
 		lastSyncSeq    uint64
 		upperSeq       uint64
-		syncStatusOk   bool
+		syncStatusOk   uint32 // sync is in-progress.
 		syncComplete   bool
 		inBytes        int64
 		count          int64
@@ -62,25 +63,25 @@ func (db *_SyncHandle) startSync() bool {
 		logger.Error().Err(err).Str("context", "startSync").Msg("Error syncing to db")
 		return false
 	}
-	db.syncInfo.syncStatusOk = true
+	atomic.StoreUint32(&db.syncInfo.syncStatusOk, 1)
 
-	return db.syncInfo.syncStatusOk
+	return true
 }
 
 func (db *_SyncHandle) finish() error {
-	if !db.syncInfo.syncStatusOk {
+	if !db.status() {
 		return nil
 	}
 
 	db.internal.bufPool.Put(db.rawWindow)
 	db.internal.bufPool.Put(db.rawBlock)
 
-	db.syncInfo.syncStatusOk = false
+	atomic.StoreUint32(&db.syncInfo.syncStatusOk, 0)
 	return nil
 }
 
 func (db *_SyncHandle) status() (ok bool) {
-	return db.syncInfo.syncStatusOk
+	return atomic.LoadUint32(&db.syncInfo.syncStatusOk) == 1
 }
 
 func (db *_SyncHandle) reset() error {
-- 
2.43.0


From 82f5300951eaace6aa70d2e832bec28ff477f33d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:41 +0000
Subject: [PATCH 36/66] fix: memdb is closed while it is used concurrently

---
 memdb/db.go | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/memdb/db.go b/memdb/db.go
index ec546c1..4f07094 100644
--- a/memdb/db.go
+++ b/memdb/db.go
@@ -115,11 +115,10 @@ func (db *DB) Close() error {
 		return err
 	}
 
-	if db.timeBlocks != nil {
-		db.timeBlocks = nil
-		db.version = -1
-
-	}
+	db.mu.Lock()
+	defer db.mu.Unlock()
+	db.timeBlocks = make(map[_TimeID]*_Block)
+	db.version = -1
 
 	return nil
 }
@@ -198,6 +197,11 @@ func (db *DB) Get(key uint64) ([]byte, error) {
 		return data, nil
 	}
 
+	// time blocks are gone if DB is closed meanwhile.
+	if err := db.ok(); err != nil {
+		return nil, err
+	}
+
 	return nil, errEntryDoesNotExist
 }
 
@@ -237,13 +241,13 @@ func (db *DB) BlockIterator(f func(timeID int64, keys []uint64) (bool, error)) (
 // It writes deleted key into the time block of the entry to persist record into the WAL.
 // If all entries are deleted from a time block then the time block is released from the WAL.
 func (db *DB) Delete(key uint64) error {
-	if err := db.ok(); err != nil {
-		return err
-	}
-
 	// current time block does not change until entry is deleted.
 	db.internal.logManager.mu.RLock()
 	defer db.internal.logManager.mu.RUnlock()
+	// it is not written to the WAL once DB is closed.
+	if err := db.ok(); err != nil {
+		return err
+	}
 	currentID := db.internal.logManager.tinyLog.timeID()
 
 	err := errEntryDoesNotExist
@@ -285,13 +289,13 @@ func (db *DB) Delete(key uint64) error {
 
 // Put inserts a new key-value pair to the DB.
 func (db *DB) Put(key uint64, data []byte) (int64, error) {
-	if err := db.ok(); err != nil {
-		return 0, err
-	}
-
 	// current time block does not change until entry is added to it.
 	db.internal.logManager.mu.RLock()
 	defer db.internal.logManager.mu.RUnlock()
+	// it is not written to the WAL once DB is closed.
+	if err := db.ok(); err != nil {
+		return 0, err
+	}
 	timeID := db.internal.logManager.tinyLog.timeID()
 	block, ok := db.timeBlock(timeID)
 	if !ok {
-- 
2.43.0


From 5104cc038010a8d1bb6d8d2760f098a925f65a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:43 +0000
Subject: [PATCH 37/66] fix: Get and FileSize of DB that is closed concurrently
 do not miss entries or panic

---
 db.go   | 4 ++++
 file.go | 6 +++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/db.go b/db.go
index 664ec00..79ca932 100644
--- a/db.go
+++ b/db.go
@@ -313,6 +313,10 @@ func (db *DB) Get(q *Query) (items [][]byte, err error) {
 			break
 		}
 	}
+	// entries are not found if DB is closed meanwhile.
+	if err := db.ok(); err != nil {
+		return nil, err
+	}
 	db.internal.meter.Gets.Inc(int64(len(items)))
 	db.internal.meter.OutMsgs.Inc(int64(len(items)))
 	return items, nil
diff --git a/file.go b/file.go
index a89e490..1a0e248 100644
--- a/file.go
+++ b/file.go
@@ -252,7 +252,11 @@ func (fs *_FileSet) size() (int64, error) {
 	size := int64(0)
 	for _, files := range fs.list {
 		for _, f := range files.fileMap {
-			size += f.currSize()
+			stat, err := f.Stat()
+			if err != nil {
+				return 0, err
+			}
+			size += stat.Size()
 		}
 	}
 	return size, nil
-- 
2.43.0


From 3a372823bd9141fb8bdb9c1f6291a2e45c15b76e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:06 +0000
Subject: [PATCH 38/66] fix: Close does not race with a batch that is committed

---
 batch.go       |  6 +++++-
 db_internal.go | 22 ++++++++++++++++++----
 2 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/batch.go b/batch.go
index e5ddd82..95b759d 100644
--- a/batch.go
+++ b/batch.go
@@ -239,7 +239,11 @@ func (b *Batch) Write() error {
 func (b *Batch) Commit() error {
 	_assert(!b.managed, "managed batch commit not allowed")
 
-	b.db.internal.closeW.Add(1)
+	if err := b.db.enter(); err != nil {
+		close(b.commitComplete)
+		b.Abort()
+		return err
+	}
 	defer func() {
 		close(b.commitComplete)
 		b.db.internal.closeW.Done()
diff --git a/db_internal.go b/db_internal.go
index 9fe867a..b47fb47 100644
--- a/db_internal.go
+++ b/db_internal.go
@@ -105,10 +105,11 @@ type (
 		syncHandle _SyncHandle
 
 		// Close.
-		closeW sync.WaitGroup
-		closeC chan struct{}
-		closed uint32
-		closer io.Closer
+		closeW  sync.WaitGroup
+		closeMu sync.Mutex // closeW is not added to once DB is closed.
+		closeC  chan struct{}
+		closed  uint32
+		closer  io.Closer
 	}
 )
 
@@ -476,8 +477,21 @@ func (db *DB) decount(count uint64) uint64 {
 	return atomic.AddUint64(&db.internal.dbInfo.count, -count)
 }
 
+// enter adds to the goroutines that close waits for, unless DB is closed.
+func (db *DB) enter() error {
+	db.internal.closeMu.Lock()
+	defer db.internal.closeMu.Unlock()
+	if err := db.ok(); err != nil {
+		return err
+	}
+	db.internal.closeW.Add(1)
+	return nil
+}
+
 // setClosed flag; return true if not already closed.
 func (db *DB) setClosed() bool {
+	db.internal.closeMu.Lock()
+	defer db.internal.closeMu.Unlock()
 	return atomic.CompareAndSwapUint32(&db.internal.closed, 0, 1)
 }
 
-- 
2.43.0


From 752a22f9e1b2858194bbf12771ac4f75e5b75bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:42 +0000
Subject: [PATCH 39/66] fix: a block of memdb is not released while memdb is
 closed, or after

---
 memdb/db_internal.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/memdb/db_internal.go b/memdb/db_internal.go
index 9a09711..fe7ed80 100644
--- a/memdb/db_internal.go
+++ b/memdb/db_internal.go
@@ -20,6 +20,7 @@ import (
 	"errors"
 	"io"
 	"sort"
+	"sync"
 	"sync/atomic"
 	"time"
 
@@ -77,8 +78,9 @@ type _DB struct {
 	wal *wal.WAL
 
 	// close
-	closed uint32
-	closer io.Closer
+	closeMu sync.RWMutex // blocks are not released from the WAL once DB is closed.
+	closed  uint32
+	closer  io.Closer
 }
 
 func (db *DB) close() error {
@@ -309,6 +311,11 @@ func (db *DB) tinyCommit(tinyLog *_TinyLog) error {
 }
 
 func (db *DB) releaseLog(timeID _TimeID) error {
+	db.internal.closeMu.RLock()
+	defer db.internal.closeMu.RUnlock()
+	if err := db.ok(); err != nil {
+		return err
+	}
 	db.mu.Lock()
 	block, ok := db.timeBlocks[timeID]
 	delete(db.timeBlocks, timeID)
@@ -343,6 +350,8 @@ func (db *DB) releaseLog(timeID _TimeID) error {
 
 // setClosed flag; return true if DB is not already closed.
 func (db *DB) setClosed() bool {
+	db.internal.closeMu.Lock()
+	defer db.internal.closeMu.Unlock()
 	return atomic.CompareAndSwapUint32(&db.internal.closed, 0, 1)
 }
 
-- 
2.43.0


From 36f9f255d5bb9fac6e38ce72346d99d5f2a9a909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:37 +0000
Subject: [PATCH 40/66] fix: message IDs of a connection wrap at 16 bits and
 skip IDs that are in use

---
 server/internal/message/messageids.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/server/internal/message/messageids.go b/server/internal/message/messageids.go
index efd508b..fc7c714 100644
--- a/server/internal/message/messageids.go
+++ b/server/internal/message/messageids.go
@@ -25,6 +25,9 @@ import (
 // MID is 32-bit local message identifier
 type MID int32
 
+// maxMID is the largest identifier a message carries on the wire.
+const maxMID = MID(1<<16 - 1)
+
 type MessageIds struct {
 	sync.RWMutex
 	id     MID
@@ -55,14 +58,20 @@ func (mids *MessageIds) FreeID(id MID) {
 	mids.Lock()
 	defer mids.Unlock()
 	delete(mids.index, id)
+	delete(mids.resume, id)
 }
 
 func (mids *MessageIds) NextID(pktType utp.MessageType) MID {
 	mids.Lock()
 	defer mids.Unlock()
-	mids.id++
-	if _, ok := mids.resume[mids.id]; ok {
-		mids.NextID(pktType)
+	// IDs that are still in use are skipped unless all IDs are in use.
+	for i := MID(0); i < maxMID; i++ {
+		mids.id = mids.id%maxMID + 1
+		_, resumed := mids.resume[mids.id]
+		_, used := mids.index[mids.id]
+		if !resumed && !used {
+			break
+		}
 	}
 	mids.index[mids.id] = pktType
 	return mids.id
-- 
2.43.0


From 3d38939c048437c50a13ed09a9fa2508099e957b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:38 +0000
Subject: [PATCH 41/66] fix: a topic without name or of options only is invalid
 instead of a panic

---
 server/internal/message/security/key.go | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/server/internal/message/security/key.go b/server/internal/message/security/key.go
index 6e081c7..e4b741c 100644
--- a/server/internal/message/security/key.go
+++ b/server/internal/message/security/key.go
@@ -101,21 +101,23 @@ func ParseKey(text string) (topic *Topic) {
 	var fn splitFunc
 
 	parts := strings.FieldsFunc(text, fn.splitKey)
-	if parts == nil || len(parts) < 2 {
-		// topic.TopicType = TopicInvalid
-		topic.Topic = parts[0]
-		topic.Size = len(parts[0])
+	switch len(parts) {
+	case 0:
+		topic.TopicType = TopicInvalid
 		return topic
+	case 1:
+		topic.Topic = parts[0]
+	default:
+		topic.Key = parts[0]
+		topic.Topic = parts[1]
 	}
-	topic.Key = parts[0]
-	topic.Topic = parts[1]
-	parts = strings.FieldsFunc(parts[1], fn.options)
-	l := len(parts)
-	if parts == nil || l < 1 {
+	topic.Size = strings.IndexFunc(topic.Topic, fn.options)
+	switch topic.Size {
+	case -1:
+		topic.Size = len(topic.Topic)
+	case 0:
 		topic.TopicType = TopicInvalid
-		return topic
 	}
-	topic.Size = len(parts[0])
 
 	return topic
 }
-- 
2.43.0


From 9e8e1a2bf34d212f5fb892a1fdcb1d3d9ee0b50f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:39 +0000
Subject: [PATCH 42/66] fix: a negative message length ends the connection
 instead of a panic

---
 server/internal/net/message.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/server/internal/net/message.go b/server/internal/net/message.go
index 5c38aa7..9a3e037 100644
--- a/server/internal/net/message.go
+++ b/server/internal/net/message.go
@@ -52,6 +52,9 @@ func Read(r io.Reader) (MessagePack, error) {
 		return &utp.Disconnect{}, nil
 	}
 
+	if fh.MessageLength < 0 {
+		return nil, fmt.Errorf("message::Read: Invalid message length %d", fh.MessageLength)
+	}
 	rawMsg := make([]byte, fh.MessageLength)
 	_, err := io.ReadFull(r, rawMsg)
 	if err != nil {
-- 
2.43.0


From 7cd4b6257e740bf6f9247d9f6a37d3cc326f4ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:41 +0000
Subject: [PATCH 43/66] fix: a failed call to a cluster node does not end the
 server

---
 server/internal/cluster.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/internal/cluster.go b/server/internal/cluster.go
index aebf01a..e3a3085 100644
--- a/server/internal/cluster.go
+++ b/server/internal/cluster.go
@@ -191,7 +191,7 @@ func (n *ClusterNode) call(proc string, reqMsg, respMsg interface{}) error {
 	}
 
 	if err := n.endpoint.Call(proc, reqMsg, respMsg); err != nil {
-		log.Fatal("cluster.call", "call failed to "+n.name, err)
+		log.Error("cluster.call", "call failed to "+n.name+" "+err.Error())
 
 		n.lock.Lock()
 		if n.connected {
-- 
2.43.0


From 5461a99a9e4311f4aa221d262546832b93fcd934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:42 +0000
Subject: [PATCH 44/66] fix: a send to a closed connection neither panics nor
 blocks

---
 server/internal/conn.go     | 17 +++++++++++++++--
 server/internal/hdl_conn.go | 36 +++++++++++++++++++++++++++---------
 2 files changed, 42 insertions(+), 11 deletions(-)

diff --git a/server/internal/conn.go b/server/internal/conn.go
index 0f8fd83..c5e9429 100644
--- a/server/internal/conn.go
+++ b/server/internal/conn.go
@@ -38,6 +38,9 @@ import (
 	"github.com/unit-io/unitdb/server/utp"
 )
 
+// closeTimeout is the time to send queued messages to the client once connection is closed.
+const closeTimeout = time.Second
+
 type _Conn struct {
 	sync.Mutex
 	socket             net.Conn
@@ -156,6 +159,16 @@ func (c *_Conn) SendMessage(msg *message.Message) bool {
 	return true
 }
 
+// queue queues the message to send to the client unless connection is closed.
+func (c *_Conn) queue(outMsg lp.MessagePack) bool {
+	select {
+	case c.send <- outMsg:
+		return true
+	case <-c.closeC:
+		return false
+	}
+}
+
 // Send forwards raw bytes to the underlying client.
 func (c *_Conn) SendRawBytes(buf []byte) bool {
 	if c == nil {
@@ -396,7 +409,8 @@ func (c *_Conn) close() error {
 		return errors.New("error disconnecting client")
 	}
 
-	// Signal all goroutines.
+	// Signal all goroutines. Do not wait for the client that does not read.
+	c.socket.SetWriteDeadline(time.Now().Add(closeTimeout))
 	close(c.closeC)
 	c.closeW.Wait()
 	// Unsubscribe from everything, no need to lock since each Unsubscribe is
@@ -413,7 +427,6 @@ func (c *_Conn) close() error {
 	Globals.connCache.delete(c.connID)
 	defer log.ConnLogger.Info().Str("context", "conn.close").Int64("connid", int64(c.connID)).Msg("conn closed")
 	Globals.Cluster.connGone(c)
-	close(c.send)
 
 	c.batchManager.close()
 
diff --git a/server/internal/hdl_conn.go b/server/internal/hdl_conn.go
index 7c1beb9..69afc7b 100644
--- a/server/internal/hdl_conn.go
+++ b/server/internal/hdl_conn.go
@@ -113,7 +113,7 @@ func (c *_Conn) handler(inMsg lp.MessagePack) error {
 			FlowControl: utp.ACKNOWLEDGE,
 			Message:     rawAck.Bytes(),
 		}
-		c.send <- ack
+		c.queue(ack)
 
 		if err == types.ErrInvalidClientID {
 			c.sendClientID(clientID.Encode(c.service.mac))
@@ -177,7 +177,7 @@ func (c *_Conn) handler(inMsg lp.MessagePack) error {
 			return nil
 		}
 
-		c.send <- ack
+		c.queue(ack)
 	// An attempt to subscribe to a topic.
 	case utp.SUBSCRIBE:
 		m := *inMsg.(*utp.Subscribe)
@@ -200,7 +200,7 @@ func (c *_Conn) handler(inMsg lp.MessagePack) error {
 			return nil
 		}
 
-		c.send <- ack
+		c.queue(ack)
 
 	// An attempt to unsubscribe from a topic.
 	case utp.UNSUBSCRIBE:
@@ -222,7 +222,7 @@ func (c *_Conn) handler(inMsg lp.MessagePack) error {
 			return nil
 		}
 
-		c.send <- ack
+		c.queue(ack)
 
 	// Ping response, respond appropriately.
 	case utp.PINGREQ:
@@ -230,7 +230,7 @@ func (c *_Conn) handler(inMsg lp.MessagePack) error {
 			MessageType: utp.PINGREQ,
 			FlowControl: utp.ACKNOWLEDGE,
 		}
-		c.send <- ack
+		c.queue(ack)
 
 	case utp.PUBLISH:
 		m := *inMsg.(*utp.Publish)
@@ -253,7 +253,7 @@ func (c *_Conn) handler(inMsg lp.MessagePack) error {
 			}
 			switch msg.(type) {
 			case *utp.Publish:
-				c.send <- msg
+				c.queue(msg)
 			}
 		case utp.RECEIPT:
 			comp := &utp.ControlMessage{
@@ -285,6 +285,20 @@ func (c *_Conn) writeLoop(ctx context.Context) (err error) {
 		case <-ctx.Done():
 			return
 		case <-c.closeC:
+			// Send messages that are already queued, and let readLoop know that connection is closed.
+			for {
+				select {
+				case outMsg := <-c.send:
+					if buf, err1 := lp.Encode(outMsg); err1 == nil {
+						if _, err1 = c.socket.Write(buf.Bytes()); err1 == nil {
+							continue
+						}
+					}
+				default:
+				}
+				break
+			}
+			c.socket.Close()
 			return
 		case pub, ok := <-c.pub:
 			if !ok {
@@ -295,7 +309,9 @@ func (c *_Conn) writeLoop(ctx context.Context) (err error) {
 			if err != nil {
 				return err
 			}
-			c.socket.Write(buf.Bytes())
+			if _, err = c.socket.Write(buf.Bytes()); err != nil {
+				return err
+			}
 		case outMsg, ok := <-c.send:
 			if !ok {
 				// Channel closed.
@@ -305,7 +321,9 @@ func (c *_Conn) writeLoop(ctx context.Context) (err error) {
 			if err != nil {
 				return err
 			}
-			c.socket.Write(buf.Bytes())
+			if _, err = c.socket.Write(buf.Bytes()); err != nil {
+				return err
+			}
 		}
 	}
 }
@@ -482,7 +500,7 @@ func (c *_Conn) acknowledge(pub utp.Publish) *types.Error {
 		FlowControl: utp.ACKNOWLEDGE,
 		MessageID:   pub.MessageID,
 	}
-	c.send <- ack
+	c.queue(ack)
 	return nil
 }
 
-- 
2.43.0


From aaf9a4fbe66b8a0573b30191edf81c2aa2140785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:43 +0000
Subject: [PATCH 45/66] fix: CONNECT is the first message on a connection and
 it is sent once

---
 server/internal/hdl_conn.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/server/internal/hdl_conn.go b/server/internal/hdl_conn.go
index 69afc7b..393748b 100644
--- a/server/internal/hdl_conn.go
+++ b/server/internal/hdl_conn.go
@@ -88,6 +88,12 @@ func (c *_Conn) handler(inMsg lp.MessagePack) error {
 		c.service.stats.PrecisionTiming("conn_time_ns", time.Since(start), stats.IntTag("status", status))
 	}()
 
+	// CONNECT is the first message on a connection and it is sent once.
+	if (inMsg.Type() == utp.CONNECT) == (c.clientID != nil) {
+		status = types.ErrBadRequest.Status
+		return types.ErrBadRequest
+	}
+
 	switch inMsg.Type() {
 	// An attempt to connect.
 	case utp.CONNECT:
-- 
2.43.0


From 16035d3e46c55a32bcda1c4c8a3f33f919eca9e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:45 +0000
Subject: [PATCH 46/66] fix: messages of a client belong to the session of the
 client

---
 server/internal/batch.go       |  5 ++---
 server/internal/conn.go        | 27 +++++++++++----------------
 server/internal/hdl_conn.go    | 28 +++++++++++++++-------------
 server/internal/store/store.go |  4 +++-
 4 files changed, 31 insertions(+), 33 deletions(-)

diff --git a/server/internal/batch.go b/server/internal/batch.go
index dcd6986..6d8cb75 100644
--- a/server/internal/batch.go
+++ b/server/internal/batch.go
@@ -4,7 +4,6 @@ import (
 	"sync"
 	"time"
 
-	"github.com/unit-io/unitdb/server/internal/store"
 	"github.com/unit-io/unitdb/server/utp"
 )
 
@@ -192,7 +191,7 @@ func (m *batchManager) publish(c *_Conn, publishWaitTimeout time.Duration) {
 			pub.MessageID = uint16(c.MessageIds.NextID(utp.PUBLISH))
 
 			// persist outbound
-			store.Log.PersistOutbound(uint32(c.connID), pub)
+			c.storeOutbound(pub)
 
 			select {
 			case c.pub <- pub:
@@ -205,7 +204,7 @@ func (m *batchManager) publish(c *_Conn, publishWaitTimeout time.Duration) {
 				pub.MessageID = uint16(c.MessageIds.NextID(utp.PUBLISH))
 
 				// persist outbound
-				store.Log.PersistOutbound(uint32(c.connID), pub)
+				c.storeOutbound(pub)
 				select {
 				case c.pub <- pub:
 				case <-time.After(publishWaitTimeout):
diff --git a/server/internal/conn.go b/server/internal/conn.go
index c5e9429..e103a08 100644
--- a/server/internal/conn.go
+++ b/server/internal/conn.go
@@ -147,7 +147,7 @@ func (c *_Conn) SendMessage(msg *message.Message) bool {
 	}
 
 	// persist outbound
-	store.Log.PersistOutbound(uint32(c.connID), pub)
+	c.storeOutbound(pub)
 
 	// Acknowledge the publication
 	select {
@@ -335,22 +335,17 @@ func (c *_Conn) resume(prefix uint32) {
 			continue
 		}
 
-		// isKeyOutbound
-		if (k & (1 << 4)) == 0 {
-			switch msg.Type() {
-			case utp.PUBLISH:
-				pub := msg.(*utp.Publish)
-				c.MessageIds.ResumeID(message.MID(pub.MessageID))
-				notify := &utp.ControlMessage{
-					MessageType: utp.PUBLISH,
-					FlowControl: utp.NOTIFY,
-					MessageID:   pub.MessageID,
-				}
-				c.send <- notify
-			default:
-				store.Log.Delete(k)
+		switch msg.Type() {
+		case utp.PUBLISH:
+			pub := msg.(*utp.Publish)
+			c.MessageIds.ResumeID(message.MID(pub.MessageID))
+			notify := &utp.ControlMessage{
+				MessageType: utp.PUBLISH,
+				FlowControl: utp.NOTIFY,
+				MessageID:   pub.MessageID,
 			}
-		} else {
+			c.queue(notify)
+		default:
 			store.Log.Delete(k)
 		}
 	}
diff --git a/server/internal/hdl_conn.go b/server/internal/hdl_conn.go
index 393748b..6375b3f 100644
--- a/server/internal/hdl_conn.go
+++ b/server/internal/hdl_conn.go
@@ -23,6 +23,7 @@ import (
 	"encoding/binary"
 	"encoding/json"
 	"errors"
+	"hash/fnv"
 	"time"
 
 	"github.com/unit-io/unitdb/server/internal/message"
@@ -136,16 +137,11 @@ func (c *_Conn) handler(inMsg lp.MessagePack) error {
 			batchCountThreshold: int(m.BatchCountThreshold),
 		})
 
-		var sessKey int32
-		if m.SessKey != 0 {
-			sessKey = m.SessKey
-		} else {
-			sessKey = int32(c.clientID.Epoch())
-		}
+		sessKey := sessionKey(m.ClientID, m.SessKey)
+		epochKey := sessionKey(m.ClientID, int32(c.clientID.Epoch()))
 
 		// Take care of any messages in the store
-		sessID := c.sessID
-		if rawSess, err := store.Session.Get(uint64(sessKey)); err == nil {
+		if rawSess, err := store.Session.Get(sessKey); err == nil {
 			sessID := binary.LittleEndian.Uint32(rawSess[:4])
 			if !m.CleanSessFlag {
 				c.resume(sessID)
@@ -155,11 +151,9 @@ func (c *_Conn) handler(inMsg lp.MessagePack) error {
 			c.sessID = uid.LID(sessID)
 		}
 		rawSess := make([]byte, 4)
-		binary.LittleEndian.PutUint32(rawSess[0:4], uint32(sessID))
-		store.Session.Put(uint64(sessKey), rawSess)
-		if sessKey != int32(c.clientID.Epoch()) {
-			store.Session.Put(uint64(c.clientID.Epoch()), rawSess)
-		}
+		binary.LittleEndian.PutUint32(rawSess[0:4], uint32(c.sessID))
+		store.Session.Put(sessKey, rawSess)
+		store.Session.Put(epochKey, rawSess)
 	case utp.DISCONNECT:
 		go c.clientDisconnect(errors.New("client initiated disconnect")) // no harm in calling this if the connection is already down (better than stopping!)
 		// An attempt to relay to a topic.
@@ -334,6 +328,14 @@ func (c *_Conn) writeLoop(ctx context.Context) (err error) {
 	}
 }
 
+// sessionKey is the key of a session of the client in the store. It is never a key of the message log.
+func sessionKey(clientID string, key int32) uint64 {
+	h := fnv.New64a()
+	h.Write([]byte(clientID))
+	binary.Write(h, binary.LittleEndian, key)
+	return h.Sum64() | 1<<63
+}
+
 // onConnect is a handler for Connect events.
 func (c *_Conn) onConnect(clientID []byte) (uid.ID, *types.Error) {
 	start := time.Now()
diff --git a/server/internal/store/store.go b/server/internal/store/store.go
index 3a1c1bf..a1a9248 100644
--- a/server/internal/store/store.go
+++ b/server/internal/store/store.go
@@ -20,6 +20,7 @@ import (
 	"bytes"
 	"encoding/json"
 	"errors"
+	"math"
 
 	adapter "github.com/unit-io/unitdb/server/internal/db"
 	"github.com/unit-io/unitdb/server/internal/message"
@@ -284,5 +285,6 @@ func (l *MessageLog) Reset(prefix uint32) {
 }
 
 func evalPrefix(prefix uint32, key uint64) bool {
-	return uint64(prefix) == key&0xFFFFFFFF
+	// Message ID is the high part of the key, other keys do not belong to the message log.
+	return uint64(prefix) == key&0xFFFFFFFF && key>>32 <= math.MaxUint16
 }
-- 
2.43.0


From 742b89509e92198c75683f5cd9a176b67e24538a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:46 +0000
Subject: [PATCH 47/66] fix: each subscriber gets its own copy of a message
 under its own message ID

---
 server/internal/conn.go | 45 ++++++++++++++++++++++++++---------------
 1 file changed, 29 insertions(+), 16 deletions(-)

diff --git a/server/internal/conn.go b/server/internal/conn.go
index e103a08..279ca8f 100644
--- a/server/internal/conn.go
+++ b/server/internal/conn.go
@@ -159,6 +159,24 @@ func (c *_Conn) SendMessage(msg *message.Message) bool {
 	return true
 }
 
+// notify persists the message to the session of the client and notifies the client about it.
+func (c *_Conn) notify(msg *message.Message, ttl string) bool {
+	pub := &utp.Publish{
+		MessageID:    uint16(c.MessageIds.NextID(utp.PUBLISH)),
+		DeliveryMode: msg.DeliveryMode,
+		Messages:     []*utp.PublishMessage{{Topic: msg.Topic, Payload: msg.Payload, Ttl: ttl}},
+	}
+
+	// persist outbound
+	c.storeOutbound(pub)
+
+	return c.queue(&utp.ControlMessage{
+		MessageType: utp.PUBLISH,
+		FlowControl: utp.NOTIFY,
+		MessageID:   pub.MessageID,
+	})
+}
+
 // queue queues the message to send to the client unless connection is closed.
 func (c *_Conn) queue(outMsg lp.MessagePack) bool {
 	select {
@@ -275,38 +293,33 @@ func (c *_Conn) publish(pub utp.Publish, topic *security.Topic, pubMsg *utp.Publ
 		Payload:   pubMsg.Payload,
 	}
 	for _, subscription := range subscriptions {
-		msg.DeliveryMode = subscription[0]
+		// the message is identified by the subscriber and not by the publisher.
+		subMsg := &message.Message{
+			Topic:        msg.Topic,
+			Payload:      msg.Payload,
+			DeliveryMode: subscription[0],
+			Delay:        int32(binary.LittleEndian.Uint32(subscription[5:9])),
+		}
 		connID := uid.LID(binary.LittleEndian.Uint32(subscription[1:5]))
-		msg.Delay = int32(uid.LID(binary.LittleEndian.Uint32(subscription[5:9])))
 		sub := Globals.connCache.get(connID)
 		if sub != nil {
-			if msg.MessageID == 0 {
-				msg.MessageID = uint16(c.MessageIds.NextID(utp.PUBLISH))
-			}
 			switch pub.DeliveryMode {
 			// Publisher's DeliveryMode RELIABLE or BATCH
 			case 1, 2:
-				switch msg.DeliveryMode {
+				switch subMsg.DeliveryMode {
 				// Subscriber's DeliveryMode RELIABLE or BATCH
 				case 1, 2:
-					notify := &utp.ControlMessage{
-						MessageType: utp.PUBLISH,
-						FlowControl: utp.NOTIFY,
-						MessageID:   msg.MessageID,
-					}
-					// persist outbound
-					store.Log.PersistOutbound(uint32(sub.sessID), &pub)
-					sub.send <- notify
+					sub.notify(subMsg, pubMsg.Ttl)
 				// Subscriber's DeliveryMode EXPRESS
 				case 0:
-					if !sub.SendMessage(msg) {
+					if !sub.SendMessage(subMsg) {
 						log.ErrLogger.Err(err).Str("context", "conn.publish")
 					}
 					msgCount++
 				}
 			// Publisher's DeliveryMode Express
 			case 0:
-				if !sub.SendMessage(msg) {
+				if !sub.SendMessage(subMsg) {
 					log.ErrLogger.Err(err).Str("context", "conn.publish")
 				}
 				msgCount++
-- 
2.43.0


From d344bbdc47fec35438d768afc97403a89aa1fc4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:48 +0000
Subject: [PATCH 48/66] fix: a message sent to a client keeps its order with
 other messages

---
 server/internal/conn.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/server/internal/conn.go b/server/internal/conn.go
index 279ca8f..edc21e8 100644
--- a/server/internal/conn.go
+++ b/server/internal/conn.go
@@ -149,9 +149,10 @@ func (c *_Conn) SendMessage(msg *message.Message) bool {
 	// persist outbound
 	c.storeOutbound(pub)
 
-	// Acknowledge the publication
 	select {
-	case c.pub <- pub:
+	case c.send <- pub:
+	case <-c.closeC:
+		return false
 	case <-time.After(publishWaitTimeout):
 		return false
 	}
-- 
2.43.0


From 008c4cc699a350f84851923d3f3098cd07bcfe15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:49 +0000
Subject: [PATCH 49/66] fix: a message completed by the client is removed from
 the log and its ID is free

---
 server/internal/hdl_conn.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/server/internal/hdl_conn.go b/server/internal/hdl_conn.go
index 6375b3f..674405c 100644
--- a/server/internal/hdl_conn.go
+++ b/server/internal/hdl_conn.go
@@ -255,6 +255,10 @@ func (c *_Conn) handler(inMsg lp.MessagePack) error {
 			case *utp.Publish:
 				c.queue(msg)
 			}
+		case utp.ACKNOWLEDGE:
+			// The client has got the message of EXPRESS delivery mode
+			store.Log.Delete(uint64(ctrlMsg.MessageID)<<32 + uint64(c.sessID))
+			c.MessageIds.FreeID(message.MID(ctrlMsg.MessageID))
 		case utp.RECEIPT:
 			comp := &utp.ControlMessage{
 				MessageType: utp.PUBLISH,
@@ -262,7 +266,8 @@ func (c *_Conn) handler(inMsg lp.MessagePack) error {
 				MessageID:   ctrlMsg.MessageID,
 			}
 			c.storeOutbound(comp)
-			c.send <- comp
+			c.MessageIds.FreeID(message.MID(ctrlMsg.MessageID))
+			c.queue(comp)
 		}
 	}
 
-- 
2.43.0


From 211c0847c24c7652815e9debce437452c23cb66b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:51 +0000
Subject: [PATCH 50/66] fix: subscriptions are identified by topic so that
 unsubscribe finds them

---
 server/internal/conn.go | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/server/internal/conn.go b/server/internal/conn.go
index edc21e8..b52999b 100644
--- a/server/internal/conn.go
+++ b/server/internal/conn.go
@@ -213,14 +213,7 @@ func (c *_Conn) subscribe(subMsg utp.Subscribe, topic *security.Topic, sub *utp.
 	c.Lock()
 	defer c.Unlock()
 
-	key := string(topic.Key)
-	if key == "" {
-		key, err = security.GenerateKey(c.clientID.Contract(), topic.Topic, security.AllowNone)
-		if err != nil {
-			log.ErrLogger.Err(err).Str("context", "conn.subscribe")
-			return err
-		}
-	}
+	key := topic.Topic[:topic.Size]
 	if exists := c.subs.Exist(key); exists && !subMsg.IsForwarded && Globals.Cluster.isRemoteContract(fmt.Sprint(c.clientID.Contract())) {
 		// The contract is handled by a remote node. Forward message to it.
 		if err := Globals.Cluster.routeToContract(&subMsg, topic, message.SUBSCRIBE, &message.Message{}, c); err != nil {
@@ -233,13 +226,14 @@ func (c *_Conn) subscribe(subMsg utp.Subscribe, topic *security.Topic, sub *utp.
 			log.ErrLogger.Err(err).Str("context", "conn.subscribe")
 			return err
 		}
-		if first := c.subs.Increment(topic.Topic[:topic.Size], key, messageId); first {
+		if first := c.subs.Increment(key, key, messageId); first {
 			// Subscribe the subscriber
 			payload := make([]byte, 9)
 			payload[0] = uint8(sub.DeliveryMode)
 			binary.LittleEndian.PutUint32(payload[1:5], uint32(c.connID))
 			binary.LittleEndian.PutUint32(payload[5:9], uint32(sub.Delay))
-			if err = store.Subscription.Put(c.clientID.Contract(), messageId, topic.Topic, payload); err != nil {
+			if err = store.Subscription.Put(c.clientID.Contract(), messageId, key, payload); err != nil {
+				c.subs.Decrement(key, key)
 				log.ErrLogger.Err(err).Str("context", "conn.subscribe").Str("topic", string(topic.Topic[:topic.Size])).Int64("connid", int64(c.connID)).Msg("unable to subscribe to topic") // Unable to subscribe
 				return err
 			}
@@ -255,11 +249,11 @@ func (c *_Conn) unsubscribe(unsubMsg utp.Unsubscribe, topic *security.Topic) (er
 	c.Lock()
 	defer c.Unlock()
 
-	key := string(topic.Key)
+	key := topic.Topic[:topic.Size]
 	// Remove the subscription from stats and if there's no more subscriptions, notify everyone.
-	if last, messageID := c.subs.Decrement(topic.Topic[:topic.Size], key); last {
+	if last, messageID := c.subs.Decrement(key, key); last {
 		// Unsubscribe the subscriber
-		if err = store.Subscription.Delete(c.clientID.Contract(), messageID, topic.Topic[:topic.Size]); err != nil {
+		if err = store.Subscription.Delete(c.clientID.Contract(), messageID, key); err != nil {
 			log.ErrLogger.Err(err).Str("context", "conn.unsubscribe").Str("topic", string(topic.Topic[:topic.Size])).Int64("connid", int64(c.connID)).Msg("unable to unsubscribe to topic") // Unable to subscribe
 			return err
 		}
@@ -283,7 +277,7 @@ func (c *_Conn) publish(pub utp.Publish, topic *security.Topic, pubMsg *utp.Publ
 	// subscription count
 	msgCount := 0
 
-	subscriptions, err := store.Subscription.Get(c.clientID.Contract(), topic.Topic)
+	subscriptions, err := store.Subscription.Get(c.clientID.Contract(), topic.Topic[:topic.Size])
 	if err != nil {
 		log.ErrLogger.Err(err).Str("context", "conn.publish")
 		return err
-- 
2.43.0


From 7fd088d10fd4710bf56268cb411eef73bbb941dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:52 +0000
Subject: [PATCH 51/66] fix: batches are not lost and are not published twice

---
 server/internal/batch.go | 41 ++++++++++++++++++++++------------------
 server/internal/conn.go  | 12 ++++++------
 2 files changed, 29 insertions(+), 24 deletions(-)

diff --git a/server/internal/batch.go b/server/internal/batch.go
index 6d8cb75..1baeeb0 100644
--- a/server/internal/batch.go
+++ b/server/internal/batch.go
@@ -37,6 +37,7 @@ type (
 		publishQueue chan *batch
 		send         chan *batch
 		stop         chan struct{}
+		stopped      bool
 		stopOnce     sync.Once
 		stopWg       sync.WaitGroup
 	}
@@ -89,9 +90,15 @@ func (m *batchManager) close() {
 }
 
 // add adds a publish message to a batch in the batch group.
-func (m *batchManager) add(delay int32, pubMsg *utp.PublishMessage) {
+func (m *batchManager) add(delay int32, pubMsg *utp.PublishMessage) bool {
+	if m == nil {
+		return false
+	}
 	m.mu.Lock()
 	defer m.mu.Unlock()
+	if m.stopped {
+		return false
+	}
 	timeID := m.TimeID(delay)
 	b, ok := m.batchGroup[timeID]
 	if !ok {
@@ -104,6 +111,7 @@ func (m *batchManager) add(delay int32, pubMsg *utp.PublishMessage) {
 		m.push(b)
 		delete(m.batchGroup, timeID)
 	}
+	return true
 }
 
 // push enqueues a batch to publish.
@@ -126,28 +134,26 @@ func (m *batchManager) publishLoop(interval time.Duration) {
 	for {
 		select {
 		case <-m.stop:
-			timeNow := timeID(TimeNow().UnixNano())
+			m.mu.Lock()
 			for timeID, batch := range m.batchGroup {
-				if timeID < timeNow {
-					m.mu.Lock()
-					m.push(batch)
-					delete(m.batchGroup, timeID)
-					m.mu.Unlock()
-				}
+				m.push(batch)
+				delete(m.batchGroup, timeID)
 			}
+			m.stopped = true
 			close(m.publishQueue)
+			m.mu.Unlock()
 
 			return
 		case <-publishC:
 			timeNow := timeID(TimeNow().UnixNano())
+			m.mu.Lock()
 			for timeID, batch := range m.batchGroup {
 				if timeID < timeNow {
-					m.mu.Lock()
 					m.push(batch)
 					delete(m.batchGroup, timeID)
-					m.mu.Unlock()
 				}
 			}
+			m.mu.Unlock()
 		}
 	}
 }
@@ -162,16 +168,13 @@ LOOP:
 		return
 	}
 
-	select {
-	case m.send <- b:
-	default:
-		// pool is full, let GC handle the batches
-		goto WAIT
-	}
+	m.send <- b
 
-WAIT:
 	// Wait for a while
-	time.Sleep(timeout)
+	select {
+	case <-m.stop:
+	case <-time.After(timeout):
+	}
 	goto LOOP
 }
 
@@ -195,6 +198,7 @@ func (m *batchManager) publish(c *_Conn, publishWaitTimeout time.Duration) {
 
 			select {
 			case c.pub <- pub:
+			case <-c.closeC:
 			case <-time.After(publishWaitTimeout):
 				// b.r.setError(errors.New("publish timeout error occurred"))
 			}
@@ -207,6 +211,7 @@ func (m *batchManager) publish(c *_Conn, publishWaitTimeout time.Duration) {
 				c.storeOutbound(pub)
 				select {
 				case c.pub <- pub:
+				case <-c.closeC:
 				case <-time.After(publishWaitTimeout):
 					// b.r.setError(errors.New("publish timeout error occurred"))
 				}
diff --git a/server/internal/conn.go b/server/internal/conn.go
index b52999b..adfd817 100644
--- a/server/internal/conn.go
+++ b/server/internal/conn.go
@@ -131,6 +131,12 @@ func (c *_Conn) SendMessage(msg *message.Message) bool {
 		Topic:   msg.Topic,   // The topic for this message.
 		Payload: msg.Payload, // The payload for this message.
 	}
+
+	// Check batch, relay or delay delivery.
+	if msg.DeliveryMode == 2 || msg.Delay > 0 {
+		return c.batchManager.add(msg.Delay, pubMsg)
+	}
+
 	if msg.MessageID == 0 {
 		msg.MessageID = uint16(c.MessageIds.NextID(utp.PUBLISH))
 	}
@@ -140,12 +146,6 @@ func (c *_Conn) SendMessage(msg *message.Message) bool {
 		Messages:     []*utp.PublishMessage{pubMsg},
 	}
 
-	// Check batch, relay or delay delivery.
-	if msg.DeliveryMode == 2 || msg.Delay > 0 {
-		c.batchManager.add(msg.Delay, pubMsg)
-		return true
-	}
-
 	// persist outbound
 	c.storeOutbound(pub)
 
-- 
2.43.0


From fb4b3e7886ab4a3ddd1a186a82a7b45df10d0b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:54 +0000
Subject: [PATCH 52/66] fix: a client ID is cached under the whole ID and not a
 part of it

---
 server/internal/hdl_conn.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/server/internal/hdl_conn.go b/server/internal/hdl_conn.go
index 674405c..5ae420f 100644
--- a/server/internal/hdl_conn.go
+++ b/server/internal/hdl_conn.go
@@ -29,7 +29,6 @@ import (
 	"github.com/unit-io/unitdb/server/internal/message"
 	"github.com/unit-io/unitdb/server/internal/message/security"
 	lp "github.com/unit-io/unitdb/server/internal/net"
-	"github.com/unit-io/unitdb/server/internal/pkg/crypto"
 	"github.com/unit-io/unitdb/server/internal/pkg/log"
 	"github.com/unit-io/unitdb/server/internal/pkg/stats"
 	"github.com/unit-io/unitdb/server/internal/pkg/uid"
@@ -347,7 +346,7 @@ func (c *_Conn) onConnect(clientID []byte) (uid.ID, *types.Error) {
 	defer log.ErrLogger.Debug().Str("context", "conn.onConnect").Int64("duration", time.Since(start).Nanoseconds()).Msg("")
 	var clientid = uid.ID{}
 	if clientID != nil && len(clientID) > c.service.mac.Overhead() {
-		if contract, ok := c.service.cache.Load(crypto.SignatureToUint32(clientID[crypto.EpochSize:crypto.MessageOffset])); ok {
+		if contract, ok := c.service.cache.Load(string(clientID)); ok {
 			clientid, err := uid.CachedClientID(contract.(uint32))
 			if err != nil {
 				return nil, types.ErrUnauthorized
@@ -369,8 +368,7 @@ func (c *_Conn) onConnect(clientID []byte) (uid.ID, *types.Error) {
 
 	//do not cache primary client Id
 	if !clientid.IsPrimary() {
-		cid := []byte(clientid.Encode(c.service.mac))
-		c.service.cache.LoadOrStore(crypto.SignatureToUint32(cid[crypto.EpochSize:crypto.MessageOffset]), clientid.Contract())
+		c.service.cache.LoadOrStore(clientid.Encode(c.service.mac), clientid.Contract())
 	}
 
 	return clientid, nil
-- 
2.43.0


From 216c1636a14bef199701747f02dd3ed7720ceaf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:55 +0000
Subject: [PATCH 53/66] fix: a key without write access does not allow to
 publish

---
 server/internal/hdl_conn.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/server/internal/hdl_conn.go b/server/internal/hdl_conn.go
index 5ae420f..f15f429 100644
--- a/server/internal/hdl_conn.go
+++ b/server/internal/hdl_conn.go
@@ -386,7 +386,7 @@ func (c *_Conn) onRelay(req *utp.RelayRequest) *types.Error {
 	}
 
 	if !c.insecure {
-		if _, err := c.onSecureRequest(topic); err != nil {
+		if _, err := c.onSecureRequest(topic, security.AllowRead); err != nil {
 			return err
 		}
 	}
@@ -421,7 +421,7 @@ func (c *_Conn) onSubscribe(subMsg utp.Subscribe, sub *utp.Subscription) *types.
 	}
 
 	if !c.insecure {
-		if _, err := c.onSecureRequest(topic); err != nil {
+		if _, err := c.onSecureRequest(topic, security.AllowRead); err != nil {
 			return err
 		}
 	}
@@ -447,7 +447,7 @@ func (c *_Conn) onUnsubscribe(unsubMsg utp.Unsubscribe, sub *utp.Subscription) *
 	}
 
 	if !c.insecure {
-		if _, err := c.onSecureRequest(topic); err != nil {
+		if _, err := c.onSecureRequest(topic, security.AllowRead); err != nil {
 			return err
 		}
 	}
@@ -478,7 +478,7 @@ func (c *_Conn) onPublish(pub utp.Publish) *types.Error {
 		}
 
 		if !c.insecure {
-			wildcard, err := c.onSecureRequest(topic)
+			wildcard, err := c.onSecureRequest(topic, security.AllowWrite)
 			if err != nil {
 				return err
 			}
@@ -515,15 +515,15 @@ func (c *_Conn) acknowledge(pub utp.Publish) *types.Error {
 	return nil
 }
 
-func (c *_Conn) onSecureRequest(topic *security.Topic) (bool, *types.Error) {
+func (c *_Conn) onSecureRequest(topic *security.Topic, access uint32) (bool, *types.Error) {
 	// Attempt to decode the key
 	key, err := security.DecodeKey(topic.Key)
 	if err != nil {
 		return false, types.ErrBadRequest
 	}
 
-	// Check if the key has the permission to read the topic
-	if !key.HasPermission(security.AllowRead) {
+	// Check if the key has the permission to read the topic, or to write to the topic
+	if !key.HasPermission(access) {
 		return false, types.ErrUnauthorized
 	}
 
-- 
2.43.0


From a9427f0306ed79768f8a3482eed44db19e8f59e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:20 +0000
Subject: [PATCH 54/66] fix: client IDs that are given in the same second are
 different

---
 server/internal/pkg/uid/clientid.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/server/internal/pkg/uid/clientid.go b/server/internal/pkg/uid/clientid.go
index a0a7c3a..f706a73 100644
--- a/server/internal/pkg/uid/clientid.go
+++ b/server/internal/pkg/uid/clientid.go
@@ -156,6 +156,11 @@ func NewSecondaryClientID(master ID) (ID, error) {
 		return ID{}, err
 	}
 
+	// the epoch has seconds, it does not tell apart the IDs of one contract
+	if _, err := rand.Read(id[4:7]); err != nil {
+		return ID{}, err
+	}
+
 	id.SetEpoch(NewApoch())
 	id.SetPermissions(AllowNone)
 	id.SetContract(master.Contract())
-- 
2.43.0


From 050f8563be6c1a325c8a99024f7783eca1e1afe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:15 +0000
Subject: [PATCH 55/66] fix: an error notification has the ID of its own
 request

---
 server/internal/conn.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/server/internal/conn.go b/server/internal/conn.go
index adfd817..8e2e0ed 100644
--- a/server/internal/conn.go
+++ b/server/internal/conn.go
@@ -369,8 +369,10 @@ func (c *_Conn) sendClientID(clientidentifier string) {
 
 // notifyError notifies the connection about an error
 func (c *_Conn) notifyError(err *types.Error, messageID uint16) {
-	err.ID = int(messageID)
-	if b, err := json.Marshal(err); err == nil {
+	// the errors are shared, the ID belongs to this notification only
+	e := *err
+	e.ID = int(messageID)
+	if b, err := json.Marshal(&e); err == nil {
 		c.SendMessage(&message.Message{
 			Topic:   "unitdb/error/",
 			Payload: b,
-- 
2.43.0


From dc18f05b92c8c76c65c6ddf22b0c5a647dd51799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:41 +0000
Subject: [PATCH 56/66] fix: the body of a ping or disconnect is not read as
 the next message

---
 server/internal/net/message.go | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/server/internal/net/message.go b/server/internal/net/message.go
index 9a3e037..eb6cb83 100644
--- a/server/internal/net/message.go
+++ b/server/internal/net/message.go
@@ -39,17 +39,11 @@ func Read(r io.Reader) (MessagePack, error) {
 		return nil, err
 	}
 
-	// Check for empty Messages
-	switch fh.MessageType {
-	case 0:
+	if fh.MessageType == 0 {
 		// TODO fixe zero length message issue.
 		// return &utp.Pingreq{}, nil
 		fmt.Println("message::Read: Invalid zero-length packet type ", fh.MessageType)
 		return nil, fmt.Errorf("message::Read: Invalid zero-length packet type %d", fh.MessageType)
-	case utp.PINGREQ:
-		return &utp.Pingreq{}, nil
-	case utp.DISCONNECT:
-		return &utp.Disconnect{}, nil
 	}
 
 	if fh.MessageLength < 0 {
@@ -61,6 +55,14 @@ func Read(r io.Reader) (MessagePack, error) {
 		return nil, err
 	}
 
+	// Check for empty Messages
+	switch fh.MessageType {
+	case utp.PINGREQ:
+		return &utp.Pingreq{}, nil
+	case utp.DISCONNECT:
+		return &utp.Disconnect{}, nil
+	}
+
 	// unpack the body
 	var pack MessagePack
 	if fh.FlowControl != utp.NONE {
-- 
2.43.0


From de37026f7e6634cc4d0fe096a577ef1aa301ca6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:04 +0000
Subject: [PATCH 57/66] fix: a message is sent to all subscribers of its topic
 and not to the first 1000

---
 server/internal/db/unitdb/adapter.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/server/internal/db/unitdb/adapter.go b/server/internal/db/unitdb/adapter.go
index 9e889cc..bd8fe6d 100644
--- a/server/internal/db/unitdb/adapter.go
+++ b/server/internal/db/unitdb/adapter.go
@@ -46,6 +46,8 @@ type configType struct {
 const (
 	// Maximum number of records to return
 	maxResults = 1024
+	// Maximum number of subscriptions of a topic
+	maxSubscriptions = 100000
 	// Maximum TTL for message
 	maxTTL = "24h"
 )
@@ -151,6 +153,9 @@ func (a *adapter) Get(contract uint32, topic string, last string) (matches [][]b
 	query := unitdb.NewQuery([]byte(topic)).WithContract(contract)
 	if last != "" {
 		query.WithLast(last)
+	} else {
+		// all entries and not the first ones only
+		query.WithLimit(maxSubscriptions)
 	}
 
 	return a.db.Get(query)
-- 
2.43.0


From 9f166026c5fbdb753aca4db59cfa28c6d57a69ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:07 +0000
Subject: [PATCH 58/66] fix: memory for a message grows with the data that
 arrives and not with the announced length

---
 server/internal/net/message.go | 7 ++++---
 server/utp/message.go          | 6 +++---
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/server/internal/net/message.go b/server/internal/net/message.go
index eb6cb83..41ea3c6 100644
--- a/server/internal/net/message.go
+++ b/server/internal/net/message.go
@@ -49,11 +49,12 @@ func Read(r io.Reader) (MessagePack, error) {
 	if fh.MessageLength < 0 {
 		return nil, fmt.Errorf("message::Read: Invalid message length %d", fh.MessageLength)
 	}
-	rawMsg := make([]byte, fh.MessageLength)
-	_, err := io.ReadFull(r, rawMsg)
-	if err != nil {
+	// the buffer grows with the data that arrives, and not with the length that is announced.
+	var buf bytes.Buffer
+	if _, err := io.CopyN(&buf, r, int64(fh.MessageLength)); err != nil {
 		return nil, err
 	}
+	rawMsg := buf.Bytes()
 
 	// Check for empty Messages
 	switch fh.MessageType {
diff --git a/server/utp/message.go b/server/utp/message.go
index 69d3f72..55d31f7 100644
--- a/server/utp/message.go
+++ b/server/utp/message.go
@@ -88,13 +88,13 @@ func (fh *FixedHeader) FromBinary(r io.Reader) error {
 	}
 
 	// read FixedHeader
-	head := make([]byte, fhSize)
-	if _, err := io.ReadFull(r, head); err != nil {
+	var head bytes.Buffer
+	if _, err := io.CopyN(&head, r, int64(fhSize)); err != nil {
 		return err
 	}
 
 	var h pbx.FixedHeader
-	proto.Unmarshal(head, &h)
+	proto.Unmarshal(head.Bytes(), &h)
 
 	*fh = FixedHeader{
 		MessageType:   MessageType(h.MessageType),
-- 
2.43.0


From 419d0d90937fc9260c05c162f448ee198e0ffaa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:42 +0000
Subject: [PATCH 59/66] fix: the reply to an asynchronous cluster call is not
 taken past the handling of its failure

---
 server/internal/cluster.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/server/internal/cluster.go b/server/internal/cluster.go
index e3a3085..f4a0a14 100644
--- a/server/internal/cluster.go
+++ b/server/internal/cluster.go
@@ -243,10 +243,7 @@ func (n *ClusterNode) callAsync(proc string, reqMsg, respMsg interface{}, done c
 		}
 	}()
 
-	call := n.endpoint.Go(proc, reqMsg, respMsg, myDone)
-	call.Done = done
-
-	return call
+	return n.endpoint.Go(proc, reqMsg, respMsg, myDone)
 }
 
 // Proxy forwards message to master
-- 
2.43.0


From 8e34970d332ba5742090afe2c86819ea1c6317d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:47 +0000
Subject: [PATCH 60/66] fix: the connection to a cluster node is used under its
 lock

---
 server/internal/cluster.go | 57 ++++++++++++++++++++++----------------
 1 file changed, 33 insertions(+), 24 deletions(-)

diff --git a/server/internal/cluster.go b/server/internal/cluster.go
index f4a0a14..69eb8a9 100644
--- a/server/internal/cluster.go
+++ b/server/internal/cluster.go
@@ -149,11 +149,13 @@ func (n *ClusterNode) reconnect() {
 	var err error
 	for {
 		// Attempt to reconnect right away
-		if n.endpoint, err = rpc.Dial("tcp", n.address); err == nil {
+		var endpoint *rpc.Client
+		if endpoint, err = rpc.Dial("tcp", n.address); err == nil {
 			if reconnTicker != nil {
 				reconnTicker.Stop()
 			}
 			n.lock.Lock()
+			n.endpoint = endpoint
 			n.connected = true
 			n.reconnecting = false
 			n.lock.Unlock()
@@ -172,9 +174,6 @@ func (n *ClusterNode) reconnect() {
 			// Shutting down
 			log.Info("cluster.reconnect", "node shutdown started "+n.name)
 			reconnTicker.Stop()
-			if n.endpoint != nil {
-				n.endpoint.Close()
-			}
 			n.lock.Lock()
 			n.connected = false
 			n.reconnecting = false
@@ -185,21 +184,36 @@ func (n *ClusterNode) reconnect() {
 	}
 }
 
-func (n *ClusterNode) call(proc string, reqMsg, respMsg interface{}) error {
+// client returns the connection to the node, or nil if there is none.
+func (n *ClusterNode) client() *rpc.Client {
+	n.lock.Lock()
+	defer n.lock.Unlock()
 	if !n.connected {
+		return nil
+	}
+	return n.endpoint
+}
+
+// failed ends the connection on which a call failed, and starts to reconnect.
+func (n *ClusterNode) failed(endpoint *rpc.Client) {
+	n.lock.Lock()
+	defer n.lock.Unlock()
+	if n.connected && n.endpoint == endpoint {
+		n.endpoint.Close()
+		n.connected = false
+		go n.reconnect()
+	}
+}
+
+func (n *ClusterNode) call(proc string, reqMsg, respMsg interface{}) error {
+	endpoint := n.client()
+	if endpoint == nil {
 		return errors.New("cluster.call: node '" + n.name + "' not connected")
 	}
 
-	if err := n.endpoint.Call(proc, reqMsg, respMsg); err != nil {
+	if err := endpoint.Call(proc, reqMsg, respMsg); err != nil {
 		log.Error("cluster.call", "call failed to "+n.name+" "+err.Error())
-
-		n.lock.Lock()
-		if n.connected {
-			n.endpoint.Close()
-			n.connected = false
-			go n.reconnect()
-		}
-		n.lock.Unlock()
+		n.failed(endpoint)
 		return err
 	}
 
@@ -211,7 +225,8 @@ func (n *ClusterNode) callAsync(proc string, reqMsg, respMsg interface{}, done c
 		log.Fatal("cluster.callAsync", "RPC done channel is unbuffered", nil)
 	}
 
-	if !n.connected {
+	endpoint := n.client()
+	if endpoint == nil {
 		call := &rpc.Call{
 			ServiceMethod: proc,
 			Args:          reqMsg,
@@ -229,13 +244,7 @@ func (n *ClusterNode) callAsync(proc string, reqMsg, respMsg interface{}, done c
 	go func() {
 		call := <-myDone
 		if call.Error != nil {
-			n.lock.Lock()
-			if n.connected {
-				n.endpoint.Close()
-				n.connected = false
-				go n.reconnect()
-			}
-			n.lock.Unlock()
+			n.failed(endpoint)
 		}
 
 		if done != nil {
@@ -243,7 +252,7 @@ func (n *ClusterNode) callAsync(proc string, reqMsg, respMsg interface{}, done c
 		}
 	}()
 
-	return n.endpoint.Go(proc, reqMsg, respMsg, myDone)
+	return endpoint.Go(proc, reqMsg, respMsg, myDone)
 }
 
 // Proxy forwards message to master
@@ -522,7 +531,7 @@ func (c *_Conn) rpcWriteLoop() {
 	for {
 		select {
 		case outMsg, ok := <-c.send:
-			if !ok || c.clnode.endpoint == nil {
+			if !ok || c.clnode.client() == nil {
 				// channel closed
 				return
 			}
-- 
2.43.0


From 6c5a5306a91ef198f0b578e0c0b1a9d915eda921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:24 +0000
Subject: [PATCH 61/66] fix: a new leader starts from the nodes its predecessor
 announced

---
 server/internal/cluster_leader.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/server/internal/cluster_leader.go b/server/internal/cluster_leader.go
index 5aac0bd..84500f7 100644
--- a/server/internal/cluster_leader.go
+++ b/server/internal/cluster_leader.go
@@ -201,6 +201,25 @@ func (c *Cluster) sendPings() {
 	}
 }
 
+// takeOver starts the membership of a new leader from what its predecessor announced: the nodes of its ring count
+// as alive, and itself, all other nodes as failed.
+func (c *Cluster) takeOver() {
+	active := make(map[string]bool)
+	for _, name := range c.fo.activeNodes {
+		active[name] = true
+	}
+	for _, node := range c.nodes {
+		node.failCount = 0
+		if !active[node.name] {
+			node.failCount = c.fo.nodeFailCountLimit
+		}
+	}
+	if !active[c.thisNodeName] {
+		c.fo.activeNodes = append(append([]string{}, c.fo.activeNodes...), c.thisNodeName)
+		c.rehash(c.fo.activeNodes)
+	}
+}
+
 func (c *Cluster) electLeader() {
 	// Increment the term (voting for myself in this term) and clear the leader
 	c.fo.term++
@@ -252,6 +271,7 @@ func (c *Cluster) electLeader() {
 	if voteCount >= expectVotes {
 		// Current node elected as the leader
 		c.fo.leader = c.thisNodeName
+		c.takeOver()
 		log.Println("Elected myself as a new leader")
 	}
 }
@@ -309,6 +329,7 @@ func (c *Cluster) run() {
 				if rehashSkipped {
 					log.Println("cluster: rehashing at a request of",
 						ping.Leader, ping.Nodes, ping.Signature, c.ring.Signature())
+					c.fo.activeNodes = ping.Nodes
 					c.rehash(ping.Nodes)
 					rehashSkipped = false
 
-- 
2.43.0


From cff7037bc843bc30791ac2098b5189386dfb33ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:36 +0000
Subject: [PATCH 62/66] fix: a cluster node that does not answer keeps the
 leader from pinging the others

---
 server/internal/cluster.go        |  2 ++
 server/internal/cluster_leader.go | 36 +++++++++++++++++++++++++------
 2 files changed, 31 insertions(+), 7 deletions(-)

diff --git a/server/internal/cluster.go b/server/internal/cluster.go
index 69eb8a9..63b36ac 100644
--- a/server/internal/cluster.go
+++ b/server/internal/cluster.go
@@ -75,6 +75,8 @@ type ClusterNode struct {
 
 	// A number of times this node has failed in a row
 	failCount int
+	// The ping that is not answered yet
+	pinged chan *rpc.Call
 
 	// Channel for shutting down the runner; buffered, 1
 	done chan bool
diff --git a/server/internal/cluster_leader.go b/server/internal/cluster_leader.go
index 84500f7..2358fec 100644
--- a/server/internal/cluster_leader.go
+++ b/server/internal/cluster_leader.go
@@ -161,15 +161,22 @@ func (c *Cluster) Vote(vreq *ClusterVoteRequest, response *ClusterVoteResponse)
 func (c *Cluster) sendPings() {
 	rehash := false
 
+	// Account for the answers to the pings of the last heartbeat
 	for _, node := range c.nodes {
-		unused := false
-		err := node.call("Cluster.Ping", &ClusterPing{
-			Leader:    c.thisNodeName,
-			Term:      c.fo.term,
-			Signature: c.ring.Signature(),
-			Nodes:     c.fo.activeNodes}, &unused)
+		if node.pinged == nil {
+			continue
+		}
+
+		failed := true
+		select {
+		case call := <-node.pinged:
+			node.pinged = nil
+			failed = call.Error != nil
+		default:
+			// Not answered yet
+		}
 
-		if err != nil {
+		if failed {
 			node.failCount++
 			if node.failCount == c.fo.nodeFailCountLimit {
 				// Node failed too many times
@@ -199,6 +206,20 @@ func (c *Cluster) sendPings() {
 		log.Println("cluster: initiating failover rehash for nodes", activeNodes)
 		//globals.hub.rehash <- true
 	}
+
+	// A node that does not answer must not keep the other nodes from being pinged
+	for _, node := range c.nodes {
+		if node.pinged != nil {
+			continue
+		}
+		unused := false
+		node.pinged = make(chan *rpc.Call, 1)
+		node.callAsync("Cluster.Ping", &ClusterPing{
+			Leader:    c.thisNodeName,
+			Term:      c.fo.term,
+			Signature: c.ring.Signature(),
+			Nodes:     c.fo.activeNodes}, &unused, node.pinged)
+	}
 }
 
 // takeOver starts the membership of a new leader from what its predecessor announced: the nodes of its ring count
@@ -209,6 +230,7 @@ func (c *Cluster) takeOver() {
 		active[name] = true
 	}
 	for _, node := range c.nodes {
+		node.pinged = nil
 		node.failCount = 0
 		if !active[node.name] {
 			node.failCount = c.fo.nodeFailCountLimit
-- 
2.43.0


From b9c14a21559eabce73f8f8f1fb23e7773355750b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:59 +0000
Subject: [PATCH 63/66] fix: failed open after a crash removes the lock file,
 so that the count is not corrected

---
 db.go           | 10 ++++++++--
 file.go         |  1 +
 file_unix.go    |  5 +++++
 file_windows.go |  5 +++++
 4 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/db.go b/db.go
index 79ca932..aebb4b5 100644
--- a/db.go
+++ b/db.go
@@ -68,9 +68,15 @@ func Open(path string, opts ...Options) (_ *DB, err error) {
 	}
 
 	defer func() {
-		if err != nil {
-			lock.unlock()
+		if err == nil {
+			return
 		}
+		if unclean {
+			// DB is still to be recovered.
+			lock.release()
+			return
+		}
+		lock.unlock()
 	}()
 
 	infoFile, err := newFile(path, 1, _FileDesc{fileType: typeInfo})
diff --git a/file.go b/file.go
index 1a0e248..a7820ce 100644
--- a/file.go
+++ b/file.go
@@ -90,6 +90,7 @@ func filePath(dirName string, fd _FileDesc) string {
 // _LockFile represents a lock file.
 type _LockFile interface {
 	unlock() error
+	release() error
 }
 
 type (
diff --git a/file_unix.go b/file_unix.go
index 4a1e1a2..613fd4a 100644
--- a/file_unix.go
+++ b/file_unix.go
@@ -36,6 +36,11 @@ func (fl *_UnixFileLock) unlock() error {
 	return fl.f.Close()
 }
 
+// release releases the lock, the file is kept.
+func (fl *_UnixFileLock) release() error {
+	return fl.f.Close()
+}
+
 func lockFile(f *os.File) error {
 	if err := syscall.Flock(int(f.Fd()), syscall.LOCK_EX|syscall.LOCK_NB); err != nil {
 		if err == syscall.EWOULDBLOCK {
diff --git a/file_windows.go b/file_windows.go
index 23bfa00..202aae0 100644
--- a/file_windows.go
+++ b/file_windows.go
@@ -47,6 +47,11 @@ func (fl *_WindowsFileLock) unlock() error {
 	return syscall.Close(fl.fd)
 }
 
+// release releases the lock, the file is kept.
+func (fl *_WindowsFileLock) release() error {
+	return syscall.Close(fl.fd)
+}
+
 func lockFile(h syscall.Handle, flags, reserved, locklow, lockhigh uint32, ol *syscall.Overlapped) error {
 	r1, _, err := syscall.Syscall6(procLockFileEx.Addr(), 6, uintptr(h), uintptr(flags), uintptr(reserved), uintptr(locklow), uintptr(lockhigh), uintptr(unsafe.Pointer(ol)))
 	if r1 == 0 && (err == syscall.ERROR_FILE_EXISTS || err == errorLockViolation) {
-- 
2.43.0


From 955f1539e6b413e3cd3394d8292d23d66c09b929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:01 +0000
Subject: [PATCH 64/66] fix: open does not know of a crash that happens before
 it gets the lock

---
 db.go           |  1 +
 file.go         |  2 ++
 file_unix.go    | 19 ++++++++++++++++---
 file_windows.go |  5 +++++
 4 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/db.go b/db.go
index aebb4b5..2fbc5e5 100644
--- a/db.go
+++ b/db.go
@@ -66,6 +66,7 @@ func Open(path string, opts ...Options) (_ *DB, err error) {
 		}
 		return nil, err
 	}
+	unclean = unclean || lock.inUse()
 
 	defer func() {
 		if err == nil {
diff --git a/file.go b/file.go
index a7820ce..8d6e8a8 100644
--- a/file.go
+++ b/file.go
@@ -91,6 +91,8 @@ func filePath(dirName string, fd _FileDesc) string {
 type _LockFile interface {
 	unlock() error
 	release() error
+	// inUse returns true if the DB was not closed by the owner of the lock before.
+	inUse() bool
 }
 
 type (
diff --git a/file_unix.go b/file_unix.go
index 613fd4a..dc8fed8 100644
--- a/file_unix.go
+++ b/file_unix.go
@@ -24,8 +24,9 @@ import (
 )
 
 type _UnixFileLock struct {
-	f    *os.File
-	name string
+	f     *os.File
+	name  string
+	inuse bool
 }
 
 // Unlock removes the lock from file.
@@ -41,6 +42,11 @@ func (fl *_UnixFileLock) release() error {
 	return fl.f.Close()
 }
 
+// inUse returns true if the DB was not closed by the owner of the lock before.
+func (fl *_UnixFileLock) inUse() bool {
+	return fl.inuse
+}
+
 func lockFile(f *os.File) error {
 	if err := syscall.Flock(int(f.Fd()), syscall.LOCK_EX|syscall.LOCK_NB); err != nil {
 		if err == syscall.EWOULDBLOCK {
@@ -68,7 +74,14 @@ func newLockFile(name string) (_LockFile, error) {
 			return nil, err
 		}
 		if current, err := os.Stat(name); err == nil && os.SameFile(fi, current) {
-			return &_UnixFileLock{f, name}, nil
+			// lock file is removed on close, its owner leaves a mark in it.
+			if fi.Size() == 0 {
+				if _, err := f.Write([]byte{1}); err != nil {
+					f.Close()
+					return nil, err
+				}
+			}
+			return &_UnixFileLock{f, name, fi.Size() != 0}, nil
 		}
 		f.Close()
 	}
diff --git a/file_windows.go b/file_windows.go
index 202aae0..fd15d08 100644
--- a/file_windows.go
+++ b/file_windows.go
@@ -52,6 +52,11 @@ func (fl *_WindowsFileLock) release() error {
 	return syscall.Close(fl.fd)
 }
 
+// inUse returns false, lock file is truncated when it is opened.
+func (fl *_WindowsFileLock) inUse() bool {
+	return false
+}
+
 func lockFile(h syscall.Handle, flags, reserved, locklow, lockhigh uint32, ol *syscall.Overlapped) error {
 	r1, _, err := syscall.Syscall6(procLockFileEx.Addr(), 6, uintptr(h), uintptr(flags), uintptr(reserved), uintptr(locklow), uintptr(lockhigh), uintptr(unsafe.Pointer(ol)))
 	if r1 == 0 && (err == syscall.ERROR_FILE_EXISTS || err == errorLockViolation) {
-- 
2.43.0


From 043f97fc51387bed6d226f61bd30265829f8615d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:59 +0000
Subject: [PATCH 65/66] fix: an ID that is not of a message is refused

---
 db.go          |  3 +++
 db_internal.go | 13 ++++++++++++-
 errors.go      |  1 +
 3 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/db.go b/db.go
index 2fbc5e5..c8ed02d 100644
--- a/db.go
+++ b/db.go
@@ -425,6 +425,9 @@ func (db *DB) DeleteEntry(e *Entry) error {
 		return errTopicTooLarge
 	}
 	id := message.ID(e.ID)
+	if err := validateID(id); err != nil {
+		return err
+	}
 	topic, _, err := db.parseTopic(e.Contract, e.Topic)
 	if err != nil {
 		return err
diff --git a/db_internal.go b/db_internal.go
index b47fb47..9d6d58a 100644
--- a/db_internal.go
+++ b/db_internal.go
@@ -303,6 +303,14 @@ func (db *DB) parseTopic(contract uint32, topic []byte) (*message.Topic, uint32,
 	return t, 0, nil
 }
 
+// validateID returns an error if it is not an ID of a message.
+func validateID(id message.ID) error {
+	if len(id) != id.Size() || id.Sequence() == 0 {
+		return errMsgIDInvalid
+	}
+	return nil
+}
+
 func (db *DB) setEntry(e *Entry) error {
 	var id message.ID
 	var eBit uint8
@@ -336,7 +344,10 @@ func (db *DB) setEntry(e *Entry) error {
 		rawTopic = e.entry.rawTopic
 	}
 	e.entry.topicSize = uint16(len(rawTopic))
-	if e.ID != nil {
+	if len(e.ID) != 0 {
+		if err := validateID(e.ID); err != nil {
+			return err
+		}
 		id = message.ID(e.ID)
 		seq = id.Sequence()
 	} else {
diff --git a/errors.go b/errors.go
index 3650a64..36f8126 100644
--- a/errors.go
+++ b/errors.go
@@ -23,6 +23,7 @@ import (
 var (
 	errTopicEmpty          = errors.New("Topic is empty")
 	errMsgIDEmpty          = errors.New("Message ID is empty")
+	errMsgIDInvalid        = errors.New("Message ID is invalid")
 	errMsgIDDeleted        = errors.New("Message ID is deleted")
 	errMsgIDDoesNotExist   = errors.New("Message ID does not exist in database")
 	errMsgIDPrefixMismatch = errors.New("Message ID does not match topic or Contract")
-- 
2.43.0


From fea4bddff9b8535f831c2ddb46bf4da3a82dbc5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:07 +0000
Subject: [PATCH 66/66] fix: a batch that is complete, or of a closed DB,
 refuses operations

---
 batch.go  | 20 ++++++++++++++++++++
 errors.go |  1 +
 2 files changed, 21 insertions(+)

diff --git a/batch.go b/batch.go
index 95b759d..a915544 100644
--- a/batch.go
+++ b/batch.go
@@ -69,6 +69,9 @@ func (b *Batch) Put(topic, payload []byte) error {
 // It is safe to modify the contents of the argument after Put returns but not
 // before.
 func (b *Batch) PutEntry(e *Entry) error {
+	if err := b.ok(); err != nil {
+		return err
+	}
 	switch {
 	case len(e.Topic) == 0:
 		return errTopicEmpty
@@ -113,6 +116,9 @@ func (b *Batch) Delete(id, topic []byte) error {
 // It is safe to modify the contents of the argument after Delete returns but
 // not before.
 func (b *Batch) DeleteEntry(e *Entry) error {
+	if err := b.ok(); err != nil {
+		return err
+	}
 	switch {
 	case b.db.opts.flags.immutable:
 		return errImmutable
@@ -194,6 +200,9 @@ func (b *Batch) writeInternal(fn func(i int, e _Entry, data []byte) error) error
 
 // Write starts writing entries into DB. It returns an error if batch write fails.
 func (b *Batch) Write() error {
+	if err := b.ok(); err != nil {
+		return err
+	}
 	// write happens synchronously
 	b.writeLockC <- struct{}{}
 	defer func() {
@@ -238,6 +247,9 @@ func (b *Batch) Write() error {
 // On Commit complete batch operation signal to the caller if the batch is fully committed to DB.
 func (b *Batch) Commit() error {
 	_assert(!b.managed, "managed batch commit not allowed")
+	if b.db == nil {
+		return errBatchComplete
+	}
 
 	if err := b.db.enter(); err != nil {
 		close(b.commitComplete)
@@ -263,6 +275,14 @@ func (b *Batch) Commit() error {
 	return nil
 }
 
+// ok returns an error if the batch is complete, or the DB is closed.
+func (b *Batch) ok() error {
+	if b.db == nil {
+		return errBatchComplete
+	}
+	return b.db.ok()
+}
+
 func (b *Batch) reset() {
 	b.index = b.index[:0]
 	b.size = 0
diff --git a/errors.go b/errors.go
index 36f8126..08abcf0 100644
--- a/errors.go
+++ b/errors.go
@@ -39,6 +39,7 @@ var (
 	errCorrupted           = errors.New("database is corrupted")
 	errLocked              = errors.New("database is locked")
 	errClosed              = errors.New("database is closed")
+	errBatchComplete       = errors.New("batch is complete")
 	errBatchSeqComplete    = errors.New("batch seq is complete")
 	errWriteConflict       = errors.New("batch write conflict")
 	errBadRequest          = errors.New("The request was invalid or cannot be otherwise served")
-- 
2.43.0

