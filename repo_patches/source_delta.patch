From 9037d1c6044465ce83f753fddc7b8f482d9a5618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:45 +0000
Subject: [PATCH 01/22] fix: Unlock releases the lock instead of taking a
 shared one

---
 lock/unix.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lock/unix.go b/lock/unix.go
index a083eba..b69323f 100644
--- a/lock/unix.go
+++ b/lock/unix.go
@@ -26,7 +26,7 @@ func (f *File) Lock() error {
 }
 
 func (f *File) Unlock() error {
-	return unix.Flock(int(f.handle.Fd()), unix.LOCK_SH)
+	return unix.Flock(int(f.handle.Fd()), unix.LOCK_UN)
 }
 
 func (f *File) LockShared() error {
-- 
2.43.0


From 5f910bbb359670496b701e1c776b90eb25b4f479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:47 +0000
Subject: [PATCH 02/22] fix: opening an index for adding takes the exclusive
 lock

---
 indexer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/indexer.go b/indexer.go
index fdfceb9..fa014cc 100644
--- a/indexer.go
+++ b/indexer.go
@@ -121,7 +121,7 @@ func openFromConfig(cfg *Config) (*Indexer, error) {
 	if err != nil {
 		return nil, err
 	}
-	err = res.lock.LockShared()
+	err = res.lock.Lock()
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 1a6d64c6c50122521a941b1642c76ea746d08995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:08 +0000
Subject: [PATCH 03/22] fix: lock and data files follow the absolute root the
 caller gave

---
 config.go  | 8 +++++++-
 index.go   | 6 ++++--
 indexer.go | 9 ++++++++-
 3 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/config.go b/config.go
index 36ded45..5af0884 100644
--- a/config.go
+++ b/config.go
@@ -111,7 +111,13 @@ func ReadConfigFromRoot(root string) (*Config, error) {
 	if err != nil {
 		return nil, err
 	}
-	return ReadConfig(cfg.Path())
+	res, err := ReadConfig(cfg.Path())
+	if err != nil {
+		return nil, err
+	}
+	// the index may have been moved or copied since it was written.
+	res.IndexRoot = cfg.IndexRoot
+	return res, nil
 }
 
 func ReadConfig(path string) (*Config, error) {
diff --git a/index.go b/index.go
index d04621b..a8e2d1e 100644
--- a/index.go
+++ b/index.go
@@ -37,8 +37,10 @@ type Index struct {
 }
 
 func OpenIndex(root string) (*Index, error) {
-	var err error
-	cfg := &Config{IndexRoot: root}
+	cfg, err := DefaultConfig(root)
+	if err != nil {
+		return nil, err
+	}
 	res := &Index{config: cfg}
 	res.lock, err = lock.New(cfg.LockPath())
 	if err != nil {
diff --git a/indexer.go b/indexer.go
index fa014cc..00772b0 100644
--- a/indexer.go
+++ b/indexer.go
@@ -17,6 +17,7 @@ package dupi
 import (
 	"log"
 	"os"
+	"path/filepath"
 
 	"github.com/go-air/dupi/dmd"
 	"github.com/go-air/dupi/internal/shard"
@@ -40,7 +41,13 @@ type Indexer struct {
 }
 
 func IndexerFromConfig(cfg *Config) (*Indexer, error) {
-	var err error
+	abs, err := filepath.Abs(cfg.IndexRoot)
+	if err != nil {
+		return nil, err
+	}
+	rooted := *cfg
+	rooted.IndexRoot = abs
+	cfg = &rooted
 	res := &Indexer{config: cfg}
 	res.lock, err = lock.New(cfg.LockPath())
 	if err != nil {
-- 
2.43.0


From c93d817331a0883ef478ea457fe44c2cc0f8faae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:10 +0000
Subject: [PATCH 04/22] fix: document lookup does not move a shared file
 position

---
 dmd/t.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/dmd/t.go b/dmd/t.go
index deeab69..0a40596 100644
--- a/dmd/t.go
+++ b/dmd/t.go
@@ -48,13 +48,11 @@ func (t *T) NumDocs() (uint64, error) {
 }
 
 func (t *T) Lookup(did uint32) (fid, start, end uint32, err error) {
-	f := t.file
-	_, err = f.Seek(int64(did)*rcdSize, 0)
-	if err != nil {
-		return
-	}
 	var buf [rcdSize]byte
-	_, err = io.ReadFull(f, buf[:])
+	_, err = t.file.ReadAt(buf[:], int64(did)*rcdSize)
+	if err == io.EOF {
+		err = io.ErrUnexpectedEOF
+	}
 	if err != nil {
 		return
 	}
-- 
2.43.0


From 78657f0a0c9cbcbfee1b6328814ed6138a20c4a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:12 +0000
Subject: [PATCH 05/22] fix: text of a document is cut out relative to its
 start, and never stale

---
 index.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/index.go b/index.go
index a8e2d1e..2abd6db 100644
--- a/index.go
+++ b/index.go
@@ -222,7 +222,7 @@ func (x *Index) FindBlots(m map[uint32][]byte, doc *Doc) (map[uint32][]byte, err
 		}
 		start := toks[i-seqLen].Pos
 		end := tok.Pos + uint32(len(tok.Lit))
-		txt := doc.Dat[start:end]
+		txt := doc.Dat[start-doc.Start : end-doc.Start]
 		if bytes.Equal(m[blot], txt) {
 			res[blot] = txt
 		} else {
@@ -297,5 +297,7 @@ func (x *Index) docid2Doc(did uint32, doc *Doc) error {
 	doc.Path = x.fnames.abs(fid)
 	doc.Start = start
 	doc.End = end
+	// a document of the caller may still hold another one's text.
+	doc.Dat = nil
 	return nil
 }
-- 
2.43.0


From 27c0f55499344df8d001c242dc78dcf5276b65a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:14 +0000
Subject: [PATCH 06/22] fix: the last token reaches to the end of the text

---
 token/t.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/token/t.go b/token/t.go
index b5ff4af..79f6437 100644
--- a/token/t.go
+++ b/token/t.go
@@ -86,6 +86,7 @@ func Tokenize(dst []T, d []byte, offset uint32) []T {
 		}
 		inWord = false
 	}
+	i = len(d)
 	if j < i {
 		if inWord {
 			dst = append(dst,
-- 
2.43.0


From 59ca2bd5b453d18c2e41ca58dfb9b43174bb0931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:38 +0000
Subject: [PATCH 07/22] fix: unusable settings are rejected before anything is
 created

---
 config.go  | 24 ++++++++++++++++++++++++
 indexer.go |  3 +++
 2 files changed, 27 insertions(+)

diff --git a/config.go b/config.go
index 5af0884..be40f3d 100644
--- a/config.go
+++ b/config.go
@@ -18,6 +18,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"io"
+	"math"
 	"os"
 	"path/filepath"
 
@@ -68,6 +69,7 @@ func NewConfig(root string, nbuckets, seqLen int) (*Config, error) {
 	}
 	cfg.NumShards = nbuckets
 	cfg.SeqLen = seqLen
+	cfg.BlotConfig.SeqLen = seqLen
 	err = cfg.check()
 	if err != nil {
 		return nil, err
@@ -76,6 +78,28 @@ func NewConfig(root string, nbuckets, seqLen int) (*Config, error) {
 }
 
 func (cfg *Config) check() error {
+	if cfg.NumShards < 1 || cfg.NumShards > math.MaxUint16 {
+		return fmt.Errorf("invalid number of shards: %d", cfg.NumShards)
+	}
+	if cfg.NumShatters < 1 || cfg.NumShatters > math.MaxUint16 {
+		return fmt.Errorf("invalid number of shatterers: %d", cfg.NumShatters)
+	}
+	if cfg.DocFlushRate < 1 || cfg.DocFlushRate > math.MaxInt32 {
+		return fmt.Errorf("invalid document flush rate: %d", cfg.DocFlushRate)
+	}
+	if cfg.SeqLen < 1 || cfg.SeqLen > math.MaxInt32 {
+		return fmt.Errorf("invalid sequence length: %d", cfg.SeqLen)
+	}
+	bcfg := &cfg.BlotConfig
+	if bcfg.SeqLen < 1 || bcfg.SeqLen > math.MaxInt32 {
+		return fmt.Errorf("invalid blot sequence length: %d", bcfg.SeqLen)
+	}
+	if bcfg.Interleave < 1 || bcfg.Interleave > math.MaxInt32 {
+		return fmt.Errorf("invalid interleaving: %d", bcfg.Interleave)
+	}
+	if _, err := token.FromConfig(&cfg.TokenConfig); err != nil {
+		return err
+	}
 	if cfg.SeqLen != cfg.BlotConfig.Interleave*cfg.BlotConfig.SeqLen {
 		return fmt.Errorf("inconsistent sequence config")
 	}
diff --git a/indexer.go b/indexer.go
index 00772b0..e924c47 100644
--- a/indexer.go
+++ b/indexer.go
@@ -41,6 +41,9 @@ type Indexer struct {
 }
 
 func IndexerFromConfig(cfg *Config) (*Indexer, error) {
+	if err := cfg.check(); err != nil {
+		return nil, err
+	}
 	abs, err := filepath.Abs(cfg.IndexRoot)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 31c8f700b993abb918a1a83323752485fd120832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:40 +0000
Subject: [PATCH 08/22] fix: writing the settings replaces all of the old ones

---
 config.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/config.go b/config.go
index be40f3d..ba52ef5 100644
--- a/config.go
+++ b/config.go
@@ -168,7 +168,7 @@ func ReadConfig(path string) (*Config, error) {
 }
 
 func (cfg *Config) Write() error {
-	f, err := os.OpenFile(cfg.Path(), os.O_CREATE|os.O_WRONLY, 0644)
+	f, err := os.OpenFile(cfg.Path(), os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0644)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 834f2dd6018e9bc8df38aa787f52d41d2c5c1d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:42 +0000
Subject: [PATCH 09/22] fix: a posting node is written before anything refers
 to it

---
 internal/shard/poster.go | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/internal/shard/poster.go b/internal/shard/poster.go
index 43c557b..02bdc55 100644
--- a/internal/shard/poster.go
+++ b/internal/shard/poster.go
@@ -86,6 +86,12 @@ func (p *poster) AddPost(v uint32, f *os.File) error {
 	if p.current == v && p.total != 0 {
 		return nil
 	}
+	if len(p.posts) >= flushRate {
+		// an earlier flush failed, don't let the node outgrow the readers.
+		if err := p.flushTo(f); err != nil {
+			return err
+		}
+	}
 
 	delta := v - p.current
 	p.current = v
@@ -154,15 +160,6 @@ func (p *poster) flushTo(f *os.File) error {
 		return err
 	}
 	end := fi.Size()
-	if p.link != -1 {
-		binary.BigEndian.PutUint64(p.buf[:8], uint64(end))
-		_, err = f.WriteAt(p.buf[:8], p.link)
-		if err != nil {
-			return err
-		}
-	} else {
-		p.head = end
-	}
 	_, err = f.Seek(end, io.SeekStart)
 	if err != nil {
 		return err
@@ -170,19 +167,33 @@ func (p *poster) flushTo(f *os.File) error {
 	var z [8]byte
 	var nolink = int64(-1)
 	binary.BigEndian.PutUint64(z[:], uint64(nolink))
+	n := len(p.posts)
 	p.posts = append(p.posts, z[:]...)
 
 	lenSz, err := p.writeVarint64(f, int64(len(p.posts)))
 	if err != nil {
+		p.posts = p.posts[:n]
 		return err
 	}
 	zz, err := f.Write(p.posts)
 	if err != nil {
+		p.posts = p.posts[:n]
 		return err
 	}
 	if zz != len(p.posts) {
 		panic(z)
 	}
+	// refer to the node only once it is written.
+	if p.link != -1 {
+		binary.BigEndian.PutUint64(p.buf[:8], uint64(end))
+		_, err = f.WriteAt(p.buf[:8], p.link)
+		if err != nil {
+			p.posts = p.posts[:n]
+			return err
+		}
+	} else {
+		p.head = end
+	}
 	p.link = end + int64(lenSz) + int64(len(p.posts)) - 8
 	p.posts = p.posts[:0]
 	return nil
-- 
2.43.0


From 20428fd37136ff6204da561de23103a1489c69f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:03 +0000
Subject: [PATCH 10/22] fix: failures of storing posts and of reading totals
 are reported

---
 internal/shard/indexer.go | 9 ++++++++-
 internal/shard/poster.go  | 3 +++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/internal/shard/indexer.go b/internal/shard/indexer.go
index e41b2d0..4fdb640 100644
--- a/internal/shard/indexer.go
+++ b/internal/shard/indexer.go
@@ -31,6 +31,7 @@ type Indexer struct {
 	ind     [1 << 16]poster
 
 	postFile *os.File
+	err      error // first failure to add a post
 }
 
 func (x *Indexer) initCommon(id uint32, root string, flushRate uint32) {
@@ -114,7 +115,10 @@ func (x *Indexer) Close() error {
 	if err := x.flushInd(); err != nil {
 		return err
 	}
-	return x.flushIix()
+	if err := x.flushIix(); err != nil {
+		return err
+	}
+	return x.err
 }
 
 func (x *Indexer) flushIix() error {
@@ -170,6 +174,9 @@ func (x *Indexer) Serve() {
 			err := x.ind[hash].AddPost(docid, x.postFile)
 			if err != nil {
 				log.Printf("couldn't add post: %s", err)
+				if x.err == nil {
+					x.err = err
+				}
 			}
 		}
 		x.postChn <- nil
diff --git a/internal/shard/poster.go b/internal/shard/poster.go
index 02bdc55..212548a 100644
--- a/internal/shard/poster.go
+++ b/internal/shard/poster.go
@@ -66,6 +66,9 @@ func (p *poster) initAppend(r io.ByteReader, blot uint16) error {
 	}
 	var ttl int64
 	ttl, err = binary.ReadVarint(r)
+	if err != nil {
+		return err
+	}
 	if uint64(ttl)&0xffffffff != uint64(ttl) {
 		return fmt.Errorf("invalid total: %d", ttl)
 	}
-- 
2.43.0


From b2662ccc916bc467de66510d1f326a38b6951def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:05 +0000
Subject: [PATCH 11/22] fix: index verb fails when a file could not be indexed

---
 cmd/dupi/index.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/dupi/index.go b/cmd/dupi/index.go
index 2211487..5df14dc 100644
--- a/cmd/dupi/index.go
+++ b/cmd/dupi/index.go
@@ -139,6 +139,9 @@ func (x *indexCmd) mkWalkFn(perr *error) func(path string, entry fs.DirEntry, er
 
 func (x *indexCmd) doPath(fpath string) error {
 	var err error
-	filepath.WalkDir(fpath, x.mkWalkFn(&err))
+	werr := filepath.WalkDir(fpath, x.mkWalkFn(&err))
+	if werr != nil {
+		return werr
+	}
 	return err
 }
-- 
2.43.0


From dd8dc1498208cbc7f789dc8ab76fab091ab459d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:07 +0000
Subject: [PATCH 12/22] fix: the placeholder record is not counted as a
 document

---
 dmd/t.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dmd/t.go b/dmd/t.go
index 0a40596..ab802c5 100644
--- a/dmd/t.go
+++ b/dmd/t.go
@@ -44,7 +44,12 @@ func (t *T) NumDocs() (uint64, error) {
 	if err != nil {
 		return 0, err
 	}
-	return uint64(fi.Size()) / rcdSize, nil
+	n := uint64(fi.Size()) / rcdSize
+	if n > 0 {
+		// record 0 is no document.
+		n--
+	}
+	return n, nil
 }
 
 func (t *T) Lookup(did uint32) (fid, start, end uint32, err error) {
-- 
2.43.0


From 24b0016b6c0edaec5c1ac7a13686746885ea94b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:33 +0000
Subject: [PATCH 13/22] fix: extraction neither skips blots or documents nor
 loops at its end

---
 query.go | 32 +++++++++-----------------------
 1 file changed, 9 insertions(+), 23 deletions(-)

diff --git a/query.go b/query.go
index 115a5a7..d991d9e 100644
--- a/query.go
+++ b/query.go
@@ -27,7 +27,6 @@ type qstate struct {
 	shardStates []*shard.ReadState
 	i           uint32
 	n           uint32
-	nilCount    uint32
 }
 
 func (s *qstate) setMax() {
@@ -92,33 +91,20 @@ func (q *Query) Next(dst []Blot) (n int, err error) {
 	for n < len(dst) {
 		dstBlot := &dst[n]
 		shardState := state.shardStates[state.i]
-		if shardState == nil {
-			state.nilCount++
-			if state.nilCount == state.n {
-				if n == 0 {
-					err = io.EOF
-					return
-				}
-				return
+		if shardState == nil || shardState.Total <= 1 {
+			// no shard has a blot with more documents.
+			if n == 0 {
+				err = io.EOF
 			}
-			state.i++
-			if state.i == state.n {
-				state.i = 0
-			}
-			continue
+			return
 		}
 		lim := dstBlot.Docs != nil
-		_, err = q.fillBlot(dstBlot, shardState, state.i)
+		m, err := q.fillBlot(dstBlot, shardState, state.i)
 		if err != nil {
-			return
+			return n, err
 		}
-		if len(dstBlot.Docs) <= 1 {
-			q.advance(shardState, state.i)
-			if lim {
-				dstBlot.Docs = dstBlot.Docs[:0]
-			} else {
-				dstBlot.Docs = nil
-			}
+		if m == 0 && (!lim || dstBlot.Len() < dstBlot.Cap()) {
+			// nothing was left of this blot.
 			continue
 		}
 		n++
-- 
2.43.0


From 541671d7698e04981ea2bb4bec557446894eb6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:00 +0000
Subject: [PATCH 14/22] fix: closing an index reports that its lock was not
 given up

---
 index.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/index.go b/index.go
index 2abd6db..8f7fd6f 100644
--- a/index.go
+++ b/index.go
@@ -77,9 +77,13 @@ func OpenIndex(root string) (*Index, error) {
 	return res, nil
 }
 
-func (x *Index) Close() error {
-	var err error
-	defer func() { err = x.lock.Close() }()
+func (x *Index) Close() (err error) {
+	defer func() {
+		lerr := x.lock.Close()
+		if err == nil {
+			err = lerr
+		}
+	}()
 	err = x.dmd.Close()
 	for i := range x.shards {
 		s := &x.shards[i]
-- 
2.43.0


From d2618bc6bde851b26277ca94f9b81a5b3cac50d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:02 +0000
Subject: [PATCH 15/22] fix: a failed create, open or close keeps no lock or
 file open

---
 index.go                  | 11 ++++++++--
 indexer.go                | 42 +++++++++++++++++++++++++++++++--------
 internal/shard/index.go   |  4 ++++
 internal/shard/indexer.go |  8 ++++++++
 shatter.go                |  9 ++++++---
 5 files changed, 61 insertions(+), 13 deletions(-)

diff --git a/index.go b/index.go
index 8f7fd6f..4ed407e 100644
--- a/index.go
+++ b/index.go
@@ -36,7 +36,7 @@ type Index struct {
 	shards []shard.Index
 }
 
-func OpenIndex(root string) (*Index, error) {
+func OpenIndex(root string) (_ *Index, err error) {
 	cfg, err := DefaultConfig(root)
 	if err != nil {
 		return nil, err
@@ -46,6 +46,11 @@ func OpenIndex(root string) (*Index, error) {
 	if err != nil {
 		return nil, err
 	}
+	defer func() {
+		if err != nil {
+			res.Close()
+		}
+	}()
 	if err := res.lock.LockShared(); err != nil {
 		return nil, err
 	}
@@ -84,7 +89,9 @@ func (x *Index) Close() (err error) {
 			err = lerr
 		}
 	}()
-	err = x.dmd.Close()
+	if x.dmd != nil {
+		err = x.dmd.Close()
+	}
 	for i := range x.shards {
 		s := &x.shards[i]
 		serr := s.Close()
diff --git a/indexer.go b/indexer.go
index e924c47..091c7d7 100644
--- a/indexer.go
+++ b/indexer.go
@@ -40,7 +40,7 @@ type Indexer struct {
 	fnames  *fnames
 }
 
-func IndexerFromConfig(cfg *Config) (*Indexer, error) {
+func IndexerFromConfig(cfg *Config) (_ *Indexer, err error) {
 	if err := cfg.check(); err != nil {
 		return nil, err
 	}
@@ -56,6 +56,11 @@ func IndexerFromConfig(cfg *Config) (*Indexer, error) {
 	if err != nil {
 		return nil, err
 	}
+	defer func() {
+		if err != nil {
+			res.release()
+		}
+	}()
 	err = res.lock.Lock()
 	if err != nil {
 		return nil, err
@@ -81,7 +86,6 @@ func IndexerFromConfig(cfg *Config) (*Indexer, error) {
 			return nil, err
 		}
 		postChans[i] = shard.PostChan()
-		go shard.Serve()
 	}
 	res.shatter, err = startShatter(cfg.NumShatters,
 		len(res.shards), cfg.SeqLen, res.dmds.Last(), tokfn,
@@ -89,6 +93,9 @@ func IndexerFromConfig(cfg *Config) (*Indexer, error) {
 	if err != nil {
 		return nil, err
 	}
+	for i := range res.shards {
+		go res.shards[i].Serve()
+	}
 
 	return res, nil
 }
@@ -123,14 +130,18 @@ func CreateIndexer(root string, nbuckets, seqLen int) (*Indexer, error) {
 // opens an index from a config.  cfg
 // actually is read from the index as a first
 // step, and this completes opening.
-func openFromConfig(cfg *Config) (*Indexer, error) {
-	var err error
+func openFromConfig(cfg *Config) (_ *Indexer, err error) {
 	res := &Indexer{config: cfg}
 	// lock file
 	res.lock, err = lock.New(cfg.LockPath())
 	if err != nil {
 		return nil, err
 	}
+	defer func() {
+		if err != nil {
+			res.release()
+		}
+	}()
 	err = res.lock.Lock()
 	if err != nil {
 		return nil, err
@@ -158,7 +169,6 @@ func openFromConfig(cfg *Config) (*Indexer, error) {
 			return nil, err
 		}
 		postChans[i] = shard.PostChan()
-		go shard.Serve()
 	}
 	res.shatter, err = startShatter(cfg.NumShatters,
 		len(res.shards), cfg.SeqLen, res.dmds.Last(), tokenfn,
@@ -166,6 +176,9 @@ func openFromConfig(cfg *Config) (*Indexer, error) {
 	if err != nil {
 		return nil, err
 	}
+	for i := range res.shards {
+		go res.shards[i].Serve()
+	}
 	return res, nil
 }
 
@@ -201,10 +214,24 @@ func (x *Indexer) readfiles() error {
 	return err
 }
 
+// release gives up the lock, and the posting files if
+// they are still open.
+func (x *Indexer) release() error {
+	for i := range x.shards {
+		x.shards[i].Release()
+	}
+	return x.lock.Close()
+}
+
 // Close attempts to flush all data associated
 // with the index to disk.
-func (x *Indexer) Close() error {
-	defer x.lock.Close()
+func (x *Indexer) Close() (err error) {
+	defer func() {
+		lerr := x.release()
+		if err == nil {
+			err = lerr
+		}
+	}()
 	for i := 0; i < x.config.NumShatters; i++ {
 		x.shatter <- &shatterReq{shutdown: true}
 		// no more shatters running, each waits
@@ -230,7 +257,6 @@ func (x *Indexer) Close() error {
 			errs <- b.Close()
 		}(b)
 	}
-	var err error
 	for i := range x.shards {
 		ierr := <-errs
 		if err != nil && ierr != nil {
diff --git a/internal/shard/index.go b/internal/shard/index.go
index 0fca7ad..a3abde6 100644
--- a/internal/shard/index.go
+++ b/internal/shard/index.go
@@ -46,6 +46,10 @@ func (x *Index) Init(path string) error {
 }
 
 func (x *Index) Close() error {
+	if x.postFile == nil {
+		// not initialized.
+		return nil
+	}
 	return x.postFile.Close()
 }
 
diff --git a/internal/shard/indexer.go b/internal/shard/indexer.go
index 4fdb640..b1075b6 100644
--- a/internal/shard/indexer.go
+++ b/internal/shard/indexer.go
@@ -121,6 +121,14 @@ func (x *Indexer) Close() error {
 	return x.err
 }
 
+// Release closes the posting file, if it is open, without
+// flushing anything.
+func (x *Indexer) Release() {
+	if x.postFile != nil {
+		x.postFile.Close()
+	}
+}
+
 func (x *Indexer) flushIix() error {
 	iix, err := os.OpenFile(fmt.Sprintf("%s.iix", x.root),
 		os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0644)
diff --git a/shatter.go b/shatter.go
index dc4e37e..a786e93 100644
--- a/shatter.go
+++ b/shatter.go
@@ -34,13 +34,16 @@ func startShatter(ns, n, s int, lastDid uint32,
 	chns []chan []post.T) (chan *shatterReq, error) {
 	rch := make(chan *shatterReq)
 	mono := newMono(lastDid)
-	for i := 0; i < ns; i++ {
+	shs := make([]*shatter, ns)
+	for i := range shs {
 		bler, err := blotter.FromConfig(blotcfg)
 		if err != nil {
 			return nil, err
 		}
-		sh := newShatter(n, s, tf, bler, mono)
-		copy(sh.shardChns, chns)
+		shs[i] = newShatter(n, s, tf, bler, mono)
+		copy(shs[i].shardChns, chns)
+	}
+	for _, sh := range shs {
 		go func(sh *shatter) {
 			for {
 				req, ok := <-rch
-- 
2.43.0


From 6396e22db5e6ea277d9b26f8063d455e12330ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:47 +0000
Subject: [PATCH 16/22] fix: lengths, links and ids in index files are checked
 before use

---
 doc.go                   |  7 +++++++
 fnames.go                | 28 ++++++++++++++++------------
 index.go                 |  3 +++
 internal/shard/poster.go |  7 +++----
 internal/shard/posts.go  | 19 +++++++++++++++----
 5 files changed, 44 insertions(+), 20 deletions(-)

diff --git a/doc.go b/doc.go
index f8df994..4529c9d 100644
--- a/doc.go
+++ b/doc.go
@@ -59,6 +59,13 @@ func (doc *Doc) Load() error {
 		if err != nil {
 			return fmt.Errorf("seek: %w", err)
 		}
+		fi, err := f.Stat()
+		if err != nil {
+			return err
+		}
+		if doc.End < doc.Start || int64(doc.End) > fi.Size() {
+			return fmt.Errorf("%s has no text at %d:%d", doc.Path, doc.Start, doc.End)
+		}
 		doc.Dat = make([]byte, doc.End-doc.Start)
 		_, err = f.ReadAt(doc.Dat, int64(doc.Start))
 		if err != nil {
diff --git a/fnames.go b/fnames.go
index 8205c2c..e16e79b 100644
--- a/fnames.go
+++ b/fnames.go
@@ -18,6 +18,7 @@ import (
 	"bufio"
 	"bytes"
 	"encoding/binary"
+	"errors"
 	"fmt"
 	"io"
 	"os"
@@ -124,33 +125,36 @@ func breadFnames(r *bufio.Reader) (*fnames, error) {
 	if err != nil {
 		return nil, err
 	}
+	if v == 0 {
+		return nil, errors.New("no root path")
+	}
+	n := v
 	s := &fnames{}
-	s.d = make([]fname, v)
-	var buf []byte
-	for i := range s.d {
+	for i := uint32(0); i < n; i++ {
 		v, err = readUvarint32(r)
 		if err != nil {
 			return nil, err
 		}
-		if v > uint32(len(buf)) {
-			buf = make([]byte, v)
-		}
-		_, err = io.ReadFull(r, buf[:v])
+		name, err := io.ReadAll(io.LimitReader(r, int64(v)))
 		if err != nil {
 			return nil, err
 		}
-		fname := &s.d[i]
-		fname.name = string(buf[:v])
+		if uint32(len(name)) != v {
+			return nil, io.ErrUnexpectedEOF
+		}
 		v, err = readUvarint32(r)
 		if err != nil {
 			return nil, err
 		}
-		fname.parent = v
-		pname := &s.d[fname.parent]
+		if v > i || v == i && i != 0 {
+			return nil, fmt.Errorf("invalid parent %d of path %d", v, i)
+		}
+		s.d = append(s.d, fname{name: string(name), parent: v})
+		pname := &s.d[v]
 		if pname.children == nil {
 			pname.children = make(map[string]uint32)
 		}
-		pname.children[fname.name] = uint32(i)
+		pname.children[string(name)] = i
 	}
 	return s, nil
 }
diff --git a/index.go b/index.go
index 4ed407e..a4c268a 100644
--- a/index.go
+++ b/index.go
@@ -305,6 +305,9 @@ func (x *Index) docid2Doc(did uint32, doc *Doc) error {
 	if err != nil {
 		return fmt.Errorf("docid2Doc(%d) dmd gave %w", did, err)
 	}
+	if uint64(fid) >= uint64(len(x.fnames.d)) {
+		return fmt.Errorf("docid2Doc(%d) invalid path id %d", did, fid)
+	}
 	doc.Path = x.fnames.abs(fid)
 	doc.Start = start
 	doc.End = end
diff --git a/internal/shard/poster.go b/internal/shard/poster.go
index 212548a..6ed9ddf 100644
--- a/internal/shard/poster.go
+++ b/internal/shard/poster.go
@@ -127,10 +127,7 @@ func (p *poster) readToLink(f *os.File) error {
 		if err != nil {
 			return err
 		}
-		if v > int64(len(buf)) {
-			buf = make([]byte, v*2)
-		}
-		if v <= 8 {
+		if v <= 8 || v > int64(len(buf)) {
 			return fmt.Errorf("%s: invalid length of flushed post buffer: %d", p, v)
 		}
 		_, err = f.ReadAt(buf[:v], head+n)
@@ -141,6 +138,8 @@ func (p *poster) readToLink(f *os.File) error {
 		if link == -1 {
 			p.link = head + n + v - 8
 			return nil
+		} else if link <= head {
+			return fmt.Errorf("%s: link to %d does not go forward from %d", p, link, head)
 		} else {
 			head = link
 		}
diff --git a/internal/shard/posts.go b/internal/shard/posts.go
index f009769..0110c61 100644
--- a/internal/shard/posts.go
+++ b/internal/shard/posts.go
@@ -91,6 +91,9 @@ func (p *Posts) readNext(r io.ReaderAt) error {
 	if err != nil {
 		return fmt.Errorf("1 %w\n", err)
 	}
+	if v <= 8 || v > int64(len(p.buf)) {
+		return fmt.Errorf("invalid length of post buffer: %d", v)
+	}
 	_, err = r.ReadAt(p.buf[:v], p.nextpos+n)
 	if err != nil {
 		return fmt.Errorf("2 %w\n", err)
@@ -99,8 +102,10 @@ func (p *Posts) readNext(r io.ReaderAt) error {
 		t, i int
 		d    uint64
 		buf  = p.buf[:v]
+		// only changed once the whole node is fine.
+		current = p.current
+		docids  = p.docids[:0]
 	)
-	p.docids = p.docids[:0]
 
 	for {
 		d, t = binary.Uvarint(buf[i:])
@@ -111,8 +116,8 @@ func (p *Posts) readNext(r io.ReaderAt) error {
 		if (d & 0xffffffff) != d {
 			return fmt.Errorf("32bit uvarint overflow: %x", d)
 		}
-		p.current += uint32(d)
-		p.docids = append(p.docids, p.current)
+		current += uint32(d)
+		docids = append(docids, current)
 		if i > len(buf)-8 {
 			return fmt.Errorf("misaligned")
 		}
@@ -120,7 +125,13 @@ func (p *Posts) readNext(r io.ReaderAt) error {
 			break
 		}
 	}
-	p.nextpos = int64(binary.BigEndian.Uint64(buf[i:]))
+	link := int64(binary.BigEndian.Uint64(buf[i:]))
+	if link != -1 && link <= p.nextpos {
+		return fmt.Errorf("link to %d does not go forward from %d", link, p.nextpos)
+	}
+	p.nextpos = link
+	p.current = current
+	p.docids = docids
 	p.i = 0
 	return nil
 }
-- 
2.43.0


From bad378c9374aa8d211da85d90de895fcb25248f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:34 +0000
Subject: [PATCH 17/22] fix: a truncated path table is not reported as the end
 of results

---
 fnames.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fnames.go b/fnames.go
index e16e79b..9c09e6c 100644
--- a/fnames.go
+++ b/fnames.go
@@ -107,6 +107,9 @@ func (s *fnames) addPath(path string) (uint32, error) {
 
 func readUvarint32(r *bufio.Reader) (uint32, error) {
 	v64, err := binary.ReadUvarint(r)
+	if err == io.EOF {
+		err = io.ErrUnexpectedEOF
+	}
 	if err != nil {
 		return 0, err
 	}
-- 
2.43.0


From 33c042c258a12f1d3ad9c587bf1d811e7532d4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:53 +0000
Subject: [PATCH 18/22] fix: the first full window of words is fingerprinted
 too

---
 cmd/dupi/blot.go |  2 +-
 cmd/dupi/like.go |  2 +-
 index.go         | 10 +++++-----
 shatter.go       |  2 +-
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/cmd/dupi/blot.go b/cmd/dupi/blot.go
index e53e1f3..237cbb3 100644
--- a/cmd/dupi/blot.go
+++ b/cmd/dupi/blot.go
@@ -78,7 +78,7 @@ func (bc *blotCmd) doFilename(fname string, idx *dupi.Index) error {
 	for i, b := range blots {
 		if *bc.offsets {
 			beg := toks[i].Pos
-			end := toks[i+seqLen].Pos + uint32(len(toks[i+seqLen].Lit))
+			end := toks[i+seqLen-1].Pos + uint32(len(toks[i+seqLen-1].Lit))
 			fmt.Printf("%x %d:%d\n", b%N, beg, end)
 		} else {
 			fmt.Printf("%x\n", b%N)
diff --git a/cmd/dupi/like.go b/cmd/dupi/like.go
index 73f5f7e..525d0f5 100644
--- a/cmd/dupi/like.go
+++ b/cmd/dupi/like.go
@@ -95,7 +95,7 @@ func doFilename(idx *dupi.Index, fname string) error {
 	bm := make(map[uint32][]byte, len(blots))
 	for i, b := range blots {
 		beg := toks[i].Pos
-		end := toks[i+seqLen].Pos + uint32(len(toks[i+seqLen].Lit))
+		end := toks[i+seqLen-1].Pos + uint32(len(toks[i+seqLen-1].Lit))
 		bm[b%N] = dat[beg:end]
 	}
 	query := idx.StartQuery(dupi.QueryMaxBlot)
diff --git a/index.go b/index.go
index a4c268a..46f626f 100644
--- a/index.go
+++ b/index.go
@@ -179,7 +179,7 @@ func (x *Index) BlotDoc(dst []uint32, doc *Doc) []uint32 {
 	seqLen := x.SeqLen()
 	for i, tok := range toks[:j] {
 		blot := blotter.Blot(tok.Lit)
-		if i < seqLen {
+		if i < seqLen-1 {
 			continue
 		}
 		dst = append(dst, blot)
@@ -224,14 +224,14 @@ func (x *Index) FindBlots(m map[uint32][]byte, doc *Doc) (map[uint32][]byte, err
 	res := make(map[uint32][]byte)
 	for i, tok := range toks[:j] {
 		blot := blotter.Blot(tok.Lit)
-		if i < seqLen {
+		if i < seqLen-1 {
 			continue
 		}
 		blot %= nShard * (1 << 16)
 		if m[blot] == nil {
 			continue
 		}
-		start := toks[i-seqLen].Pos
+		start := toks[i-seqLen+1].Pos
 		end := tok.Pos + uint32(len(tok.Lit))
 		txt := doc.Dat[start-doc.Start : end-doc.Start]
 		if bytes.Equal(m[blot], txt) {
@@ -264,14 +264,14 @@ func (x *Index) FindBlot(theBlot uint32, doc *Doc) (start, end uint32, err error
 	nShard := uint32(x.NumShards())
 	for i, tok := range toks[:j] {
 		blot := blotter.Blot(tok.Lit)
-		if i < seqLen {
+		if i < seqLen-1 {
 			continue
 		}
 		blot %= nShard * (1 << 16)
 		if blot != theBlot {
 			continue
 		}
-		start = toks[i-seqLen].Pos
+		start = toks[i-seqLen+1].Pos
 		end = tok.Pos + uint32(len(tok.Lit))
 		return
 	}
diff --git a/shatter.go b/shatter.go
index a786e93..5dda1c0 100644
--- a/shatter.go
+++ b/shatter.go
@@ -106,7 +106,7 @@ func (s *shatter) do(did, offset uint32, msg []byte) {
 		case token.Word:
 			b = s.bler.Blot(tok.Lit)
 			words++
-			if words > s.seqlen {
+			if words >= s.seqlen {
 				s.blot(did, b)
 			}
 		default:
-- 
2.43.0


From b9a4aed5ff1098446c99812d759eb308757cec4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:54 +0000
Subject: [PATCH 19/22] fix: blot -offsets reports the positions of words

---
 cmd/dupi/blot.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cmd/dupi/blot.go b/cmd/dupi/blot.go
index 237cbb3..9fe0dae 100644
--- a/cmd/dupi/blot.go
+++ b/cmd/dupi/blot.go
@@ -72,6 +72,14 @@ func (bc *blotCmd) doFilename(fname string, idx *dupi.Index) error {
 	var toks []token.T
 	if *bc.offsets {
 		toks = idx.TokenFunc()(nil, doc.Dat, 0)
+		j := 0
+		for i := range toks {
+			if toks[i].Tag != token.Word {
+				continue
+			}
+			toks[j] = toks[i]
+			j++
+		}
 	}
 	N := uint32(idx.NumShards()) * (1 << 16)
 	seqLen := idx.SeqLen()
-- 
2.43.0


From 907578937a061fc21047e53f107c2f9c2b647149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:01 +0000
Subject: [PATCH 20/22] fix: Bloom filter bit positions of sets of 512MB and
 more

---
 attic/ibloom/fnv32.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/attic/ibloom/fnv32.go b/attic/ibloom/fnv32.go
index db3db47..748ccb3 100644
--- a/attic/ibloom/fnv32.go
+++ b/attic/ibloom/fnv32.go
@@ -67,7 +67,7 @@ func (b *fnv32) Ones(post uint32, fn func(int) bool) bool {
 	for i := uint32(0); i < k; i++ {
 		hb := hh ^ (i + 'a')
 		hb *= fnv32Prime
-		hb = clamp(hb, uint32(b.mbytes))
+		hb = clamp(hb, b.mbytes)
 		if !fn(int(hb)) {
 			return false
 		}
@@ -81,14 +81,14 @@ func (f *fnv32) PutOnes(dst []uint32, v uint32) {
 	for i := uint32(0); i < k; i++ {
 		hb := hh ^ (i + 'a')
 		hb *= fnv32Prime
-		hb = clamp(hb, uint32(f.mbytes))
+		hb = clamp(hb, f.mbytes)
 		dst[i] = hb
 	}
 }
 
-func clamp(h, n uint32) uint32 {
-	bits := n * 8
-	return h % bits
+func clamp(h uint32, n int) uint32 {
+	bits := uint64(n) * 8
+	return uint32(uint64(h) % bits)
 }
 
 func (b *fnv32) Has(d []byte, v uint32) bool {
-- 
2.43.0


From 710ac2371152af592a2cdc9190b961e41aa8c5af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:54 +0000
Subject: [PATCH 21/22] fix: report failing close of written index files

---
 config.go                 |  8 ++++++--
 dmd/adder.go              |  8 ++++++--
 indexer.go                |  7 +++++--
 internal/shard/indexer.go | 24 ++++++++++++++++++------
 4 files changed, 35 insertions(+), 12 deletions(-)

diff --git a/config.go b/config.go
index ba52ef5..7cf92e3 100644
--- a/config.go
+++ b/config.go
@@ -167,12 +167,16 @@ func ReadConfig(path string) (*Config, error) {
 	return &cfg, nil
 }
 
-func (cfg *Config) Write() error {
+func (cfg *Config) Write() (err error) {
 	f, err := os.OpenFile(cfg.Path(), os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0644)
 	if err != nil {
 		return err
 	}
-	defer f.Close()
+	defer func() {
+		if cerr := f.Close(); err == nil {
+			err = cerr
+		}
+	}()
 	d, err := json.MarshalIndent(cfg, "", "\t")
 	if err != nil {
 		return err
diff --git a/dmd/adder.go b/dmd/adder.go
index 275ae3f..8aae5ad 100644
--- a/dmd/adder.go
+++ b/dmd/adder.go
@@ -74,12 +74,16 @@ func (t *Adder) Close() error {
 	return t.flush()
 }
 
-func (t *Adder) flush() error {
+func (t *Adder) flush() (err error) {
 	f, err := os.OpenFile(t.path, os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0644)
 	if err != nil {
 		return err
 	}
-	defer f.Close()
+	defer func() {
+		if cerr := f.Close(); err == nil {
+			err = cerr
+		}
+	}()
 	_, err = f.Seek(0, io.SeekEnd)
 	if err != nil {
 		return err
diff --git a/indexer.go b/indexer.go
index 091c7d7..4844a38 100644
--- a/indexer.go
+++ b/indexer.go
@@ -189,8 +189,11 @@ func (x *Indexer) writeFiles() error {
 	if e != nil {
 		return e
 	}
-	defer f.Close()
-	return x.fnames.write(f)
+	if e = x.fnames.write(f); e != nil {
+		f.Close()
+		return e
+	}
+	return f.Close()
 }
 
 // Root returns the path to the root of the index 'x'.
diff --git a/internal/shard/indexer.go b/internal/shard/indexer.go
index b1075b6..e6de59b 100644
--- a/internal/shard/indexer.go
+++ b/internal/shard/indexer.go
@@ -48,13 +48,16 @@ func (x *Indexer) InitCreate(id uint32, root string, flushRate uint32) error {
 	if err != nil {
 		return err
 	}
-	defer f.Close()
 	for i := range x.ind {
 		z := &x.ind[i]
 		if err := z.initCreate(f, uint16(i)); err != nil {
+			f.Close()
 			return err
 		}
 	}
+	if err := f.Close(); err != nil {
+		return err
+	}
 	x.postFile, err = os.OpenFile(x.root, os.O_CREATE|os.O_TRUNC|os.O_RDWR, 0644)
 	return err
 }
@@ -129,13 +132,17 @@ func (x *Indexer) Release() {
 	}
 }
 
-func (x *Indexer) flushIix() error {
+func (x *Indexer) flushIix() (err error) {
 	iix, err := os.OpenFile(fmt.Sprintf("%s.iix", x.root),
 		os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0644)
 	if err != nil {
 		return err
 	}
-	defer iix.Close()
+	defer func() {
+		if cerr := iix.Close(); err == nil {
+			err = cerr
+		}
+	}()
 	for i := range x.ind {
 		up := &x.ind[i]
 		_, err = up.writeVarint64(iix, up.head)
@@ -156,9 +163,14 @@ func (x *Indexer) flushIix() error {
 	return nil
 }
 
-func (x *Indexer) flushInd() error {
-	var err error
-	defer x.postFile.Close()
+func (x *Indexer) flushInd() (err error) {
+	defer func() {
+		cerr := x.postFile.Close()
+		x.postFile = nil
+		if err == nil {
+			err = cerr
+		}
+	}()
 	for i := range x.ind {
 		up := &x.ind[i]
 		err = up.flushTo(x.postFile)
-- 
2.43.0


From 4c757a7ab71cb98de25f3fabf33f71d45ae1bbf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:09 +0000
Subject: [PATCH 22/22] fix: write document records at their position, also
 after a failed flush

---
 dmd/adder.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dmd/adder.go b/dmd/adder.go
index 8aae5ad..34a47e1 100644
--- a/dmd/adder.go
+++ b/dmd/adder.go
@@ -75,7 +75,7 @@ func (t *Adder) Close() error {
 }
 
 func (t *Adder) flush() (err error) {
-	f, err := os.OpenFile(t.path, os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0644)
+	f, err := os.OpenFile(t.path, os.O_CREATE|os.O_WRONLY, 0644)
 	if err != nil {
 		return err
 	}
@@ -84,7 +84,8 @@ func (t *Adder) flush() (err error) {
 			err = cerr
 		}
 	}()
-	_, err = f.Seek(0, io.SeekEnd)
+	// not the end of the file: an earlier flush may have failed half way.
+	_, err = f.Seek(int64(t.flushed)*rcdSize, io.SeekStart)
 	if err != nil {
 		return err
 	}
-- 
2.43.0

