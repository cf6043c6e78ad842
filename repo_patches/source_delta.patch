From 7605da013027de00e248c874e808c100d3869f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:22 +0000
Subject: [PATCH 01/36] fix: do not take a failed by-hash retrieval for a
 missing index

An index whose canonical name held other data than announced was tried
under its by-hash names, including empty ones for checksums the Release
file does not declare. A 404 there was taken as a missing index, so the
update succeeded without the index.
---
 mirror/mirror.go | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/mirror/mirror.go b/mirror/mirror.go
index 3baa163..6a9bc83 100644
--- a/mirror/mirror.go
+++ b/mirror/mirror.go
@@ -292,6 +292,18 @@ func closeAndRemoveFile(f *os.File) {
 	os.Remove(f.Name())
 }
 
+// declaredPaths removes empty by-hash paths, which stand for checksums
+// that are not declared in the index.
+func declaredPaths(paths []string) []string {
+	var l []string
+	for _, p := range paths {
+		if len(p) > 0 {
+			l = append(l, p)
+		}
+	}
+	return l
+}
+
 // download is a goroutine to download an item.
 func (m *Mirror) download(ctx context.Context,
 	p string, fi *apt.FileInfo, byhash bool, ch chan<- *dlResult) {
@@ -313,7 +325,9 @@ func (m *Mirror) download(ctx context.Context,
 		targets = append(targets, fi.SHA256Path())
 		targets = append(targets, fi.SHA1Path())
 		targets = append(targets, fi.MD5SumPath())
+		targets = declaredPaths(targets)
 	}
+	mismatch := false
 
 RETRY:
 	if tempfile != nil {
@@ -377,6 +391,17 @@ RETRY:
 		goto RETRY
 	}
 
+	if r.status != 200 && mismatch {
+		// The upstream has the file, but not as announced so far.
+		// This must not be confused with a missing file.
+		if len(targets) > 1 {
+			targets = targets[1:]
+			goto RETRY
+		}
+		r.err = errors.New("invalid checksum for " + p)
+		return
+	}
+
 	if r.status != 200 {
 		return
 	}
@@ -407,6 +432,7 @@ RETRY:
 	}
 
 	if fi != nil && !fi.Same(fi2) {
+		mismatch = true
 		if len(targets) > 1 {
 			targets = targets[1:]
 			log.Warn("try by-hash retrieval", map[string]interface{}{
-- 
2.43.0


From 72aff8dd050a1f4fb7a502e7fc17ab7ffeb57ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:22 +0000
Subject: [PATCH 02/36] fix: report fsync failure of info.json

---
 mirror/storage.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mirror/storage.go b/mirror/storage.go
index f4dd9aa..f3acc9f 100644
--- a/mirror/storage.go
+++ b/mirror/storage.go
@@ -103,7 +103,10 @@ func (s *Storage) Save() error {
 		return err
 	}
 
-	f.Sync()
+	err = f.Sync()
+	if err != nil {
+		return errors.Wrap(err, "f.Sync(): "+infoPath)
+	}
 	err = DirSyncTree(s.dir)
 	if err != nil {
 		return errors.Wrap(err, "DirSyncTree(s.dir)")
-- 
2.43.0


From b1c494486f88df05b7a60be4f8cb9abb6b4a967d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:52 +0000
Subject: [PATCH 03/36] fix: match sections of indices by whole path components

Section "free" selected the indices of section "non-free" as well.
---
 mirror/config.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/mirror/config.go b/mirror/config.go
index 07af65f..3fafad9 100644
--- a/mirror/config.go
+++ b/mirror/config.go
@@ -112,6 +112,11 @@ func rawName(p string) string {
 	return base[0 : len(base)-len(ext)]
 }
 
+// hasPathSuffix returns true if the trailing path components of p are t.
+func hasPathSuffix(p, t string) bool {
+	return p == t || strings.HasSuffix(p, "/"+t)
+}
+
 // MatchingIndex returns true if mc is configured for the given index.
 func (mc *MirrConfig) MatchingIndex(p string) bool {
 	rn := rawName(p)
@@ -138,13 +143,13 @@ func (mc *MirrConfig) MatchingIndex(p string) bool {
 	for _, section := range mc.Sections {
 		for _, arch := range archs {
 			t := path.Join(path.Clean(section), "binary-"+arch, "Packages")
-			if strings.HasSuffix(pNoExt, t) {
+			if hasPathSuffix(pNoExt, t) {
 				return true
 			}
 		}
 		if mc.Source {
 			t := path.Join(path.Clean(section), "source", "Sources")
-			if strings.HasSuffix(pNoExt, t) {
+			if hasPathSuffix(pNoExt, t) {
 				return true
 			}
 		}
-- 
2.43.0


From 8bd274ff1742f9c725e47e5733f9ce21815f24f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:04 +0000
Subject: [PATCH 04/36] fix: do not fail garbage collection on dangling
 symlinks

---
 mirror/control.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mirror/control.go b/mirror/control.go
index 5ba5db3..80136c5 100644
--- a/mirror/control.go
+++ b/mirror/control.go
@@ -69,6 +69,12 @@ func gc(ctx context.Context, c *Config) error {
 			continue
 		}
 		p, err := filepath.EvalSymlinks(filepath.Join(c.Dir, dentry.Name()))
+		if os.IsNotExist(err) {
+			// dangling symlinks, such as the one an interrupted update
+			// may leave, do not use any directory.
+			using[dentry.Name()] = true
+			continue
+		}
 		if err != nil {
 			return errors.Wrap(err, "gc")
 		}
-- 
2.43.0


From 5e57e7d6dadc5be0e813dcc7964da0b036d6ea88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:36 +0000
Subject: [PATCH 05/36] fix: wait for downloads of Release files before giving
 up

Garbage collection after a failed update could run into downloads still
writing to the storage, fail, and leave the directory behind.
---
 mirror/mirror.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/mirror/mirror.go b/mirror/mirror.go
index 6a9bc83..2f01411 100644
--- a/mirror/mirror.go
+++ b/mirror/mirror.go
@@ -516,6 +516,20 @@ func (m *Mirror) downloadRelease(ctx context.Context, suite string) (map[string]
 	releases := m.mc.ReleaseFiles(suite)
 	results := make(chan *dlResult, len(releases))
 
+	// on return, stop and wait for all DL goroutines.  Otherwise, they
+	// would write into the storage while it is being removed.
+	started, received := 0, 0
+	ctx, cancel := context.WithCancel(ctx)
+	defer func() {
+		cancel()
+		for ; received < started; received++ {
+			r := <-results
+			if r.tempfile != nil {
+				closeAndRemoveFile(r.tempfile)
+			}
+		}
+	}()
+
 	for _, p := range releases {
 		select {
 		case <-ctx.Done():
@@ -523,12 +537,14 @@ func (m *Mirror) downloadRelease(ctx context.Context, suite string) (map[string]
 		case <-m.semaphore:
 		}
 
+		started++
 		go m.download(ctx, p, nil, false, results)
 	}
 
 	byhash := true
 	filMap := make(map[string][]*apt.FileInfo)
 	for i := 0; i < len(releases); i++ {
+		received++
 		fil, err := m.handleReleaseResults(results, &byhash)
 		if err != nil {
 			return nil, byhash, err
-- 
2.43.0


From 3ce19aaaf3f50148eac538dbcc8ae0b55b2a7519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:58 +0000
Subject: [PATCH 06/36] fix: make public symlinks durable before removing old
 mirrors

---
 mirror/control.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/mirror/control.go b/mirror/control.go
index 80136c5..238ea54 100644
--- a/mirror/control.go
+++ b/mirror/control.go
@@ -82,6 +82,13 @@ func gc(ctx context.Context, c *Config) error {
 		using[filepath.Base(filepath.Dir(p))] = true
 	}
 
+	// symlinks must be durable before the directories they pointed
+	// to until now are removed.
+	err = DirSync(c.Dir)
+	if err != nil {
+		return errors.Wrap(err, "gc")
+	}
+
 	// remove unused dentries.
 	for _, dentry := range dentries {
 		if using[dentry.Name()] {
-- 
2.43.0


From 6b3a2e23b0e59b84472b0e63878b89286b6b7cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:32 +0000
Subject: [PATCH 07/36] fix: finish failed responses before retrying a download

---
 mirror/mirror.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/mirror/mirror.go b/mirror/mirror.go
index 2f01411..ebecbc3 100644
--- a/mirror/mirror.go
+++ b/mirror/mirror.go
@@ -283,6 +283,9 @@ type dlResult struct {
 }
 
 func closeRespBody(r *http.Response) {
+	if r == nil {
+		return
+	}
 	io.Copy(ioutil.Discard, r.Body)
 	r.Body.Close()
 }
@@ -309,11 +312,13 @@ func (m *Mirror) download(ctx context.Context,
 	p string, fi *apt.FileInfo, byhash bool, ch chan<- *dlResult) {
 
 	var tempfile *os.File
+	var resp *http.Response
 	r := &dlResult{
 		path: p,
 	}
 
 	defer func() {
+		closeRespBody(resp)
 		r.tempfile = tempfile
 		ch <- r
 		m.semaphore <- struct{}{}
@@ -330,6 +335,8 @@ func (m *Mirror) download(ctx context.Context,
 	mismatch := false
 
 RETRY:
+	// finish the last connection before making another
+	closeRespBody(resp)
 	if tempfile != nil {
 		closeAndRemoveFile(tempfile)
 		tempfile = nil
@@ -366,7 +373,8 @@ RETRY:
 		ProtoMinor: 1,
 		Header:     header,
 	}
-	resp, err := m.client.Do(req.WithContext(ctx))
+	var err error
+	resp, err = m.client.Do(req.WithContext(ctx))
 	if err != nil {
 		if retries < httpRetries {
 			retries++
@@ -375,7 +383,6 @@ RETRY:
 		r.err = err
 		return
 	}
-	defer closeRespBody(resp)
 
 	if log.Enabled(log.LvDebug) {
 		log.Debug("downloaded", map[string]interface{}{
-- 
2.43.0


From 0eca94ceead174b6be3474a1471ee0c7743ad10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:51 +0000
Subject: [PATCH 08/36] fix: max_conns = 0 means no limit, negative values are
 rejected

---
 mirror/mirror.go | 43 +++++++++++++++++++++++++++++++++----------
 1 file changed, 33 insertions(+), 10 deletions(-)

diff --git a/mirror/mirror.go b/mirror/mirror.go
index ebecbc3..9802869 100644
--- a/mirror/mirror.go
+++ b/mirror/mirror.go
@@ -55,6 +55,9 @@ func NewMirror(t time.Time, id string, c *Config) (*Mirror, error) {
 	if err := mc.Check(); err != nil {
 		return nil, errors.Wrap(err, id)
 	}
+	if c.MaxConns < 0 {
+		return nil, errors.New("max_conns must not be negative")
+	}
 
 	var currentStorage *Storage
 	curdir, err := filepath.EvalSymlinks(filepath.Join(dir, id))
@@ -83,7 +86,11 @@ func NewMirror(t time.Time, id string, c *Config) (*Mirror, error) {
 		return nil, errors.Wrap(err, id)
 	}
 
-	sem := make(chan struct{}, c.MaxConns)
+	// zero means unlimited; the semaphore stays nil.
+	var sem chan struct{}
+	if c.MaxConns > 0 {
+		sem = make(chan struct{}, c.MaxConns)
+	}
 	for i := 0; i < c.MaxConns; i++ {
 		sem <- struct{}{}
 	}
@@ -118,6 +125,26 @@ func clonedTransport(rt http.RoundTripper) *http.Transport {
 	return t.Clone()
 }
 
+// acquire waits for a free connection.
+func (m *Mirror) acquire(ctx context.Context) error {
+	if m.semaphore == nil {
+		return ctx.Err()
+	}
+	select {
+	case <-ctx.Done():
+		return ctx.Err()
+	case <-m.semaphore:
+		return nil
+	}
+}
+
+// release gives back a connection taken by acquire.
+func (m *Mirror) release() {
+	if m.semaphore != nil {
+		m.semaphore <- struct{}{}
+	}
+}
+
 func (m *Mirror) storeLink(fi *apt.FileInfo, fp string, byhash bool) error {
 	if byhash {
 		return m.storage.StoreLinkWithHash(fi, fp)
@@ -321,7 +348,7 @@ func (m *Mirror) download(ctx context.Context,
 		closeRespBody(resp)
 		r.tempfile = tempfile
 		ch <- r
-		m.semaphore <- struct{}{}
+		m.release()
 	}()
 
 	var retries uint
@@ -538,10 +565,8 @@ func (m *Mirror) downloadRelease(ctx context.Context, suite string) (map[string]
 	}()
 
 	for _, p := range releases {
-		select {
-		case <-ctx.Done():
-			return nil, false, ctx.Err()
-		case <-m.semaphore:
+		if err := m.acquire(ctx); err != nil {
+			return nil, false, err
 		}
 
 		started++
@@ -674,10 +699,8 @@ func (m *Mirror) reuseOrDownload(ctx context.Context, fil []*apt.FileInfo,
 			}
 		}
 
-		select {
-		case <-ctx.Done():
-			return nil, ctx.Err()
-		case <-m.semaphore:
+		if err := m.acquire(ctx); err != nil {
+			return nil, err
 		}
 
 		env.Go(func(ctx context.Context) error {
-- 
2.43.0


From dcfadf1ef713782cd368affc5849062e875ef7b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:06 +0000
Subject: [PATCH 09/36] fix: refuse to store files outside of the mirror

---
 mirror/storage.go | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/mirror/storage.go b/mirror/storage.go
index f3acc9f..282299f 100644
--- a/mirror/storage.go
+++ b/mirror/storage.go
@@ -5,6 +5,7 @@ import (
 	"io/ioutil"
 	"os"
 	"path/filepath"
+	"strings"
 	"sync"
 
 	"github.com/cybozu-go/aptutil/apt"
@@ -115,9 +116,23 @@ func (s *Storage) Save() error {
 	return nil
 }
 
+// checkPath returns an error if p does not name a file below
+// the directory of a storage.
+func checkPath(p string) error {
+	c := filepath.Clean(p)
+	if c == "." || c == "/" || c == ".." || strings.HasPrefix(c, "../") {
+		return errors.New("invalid path: " + p)
+	}
+	return nil
+}
+
 // StoreLink stores a hard link to a file into this storage.
 func (s *Storage) StoreLink(fi *apt.FileInfo, fullpath string) error {
 	p := fi.Path()
+	err := checkPath(p)
+	if err != nil {
+		return err
+	}
 
 	s.mu.Lock()
 	_, ok := s.info[p]
@@ -131,7 +146,7 @@ func (s *Storage) StoreLink(fi *apt.FileInfo, fullpath string) error {
 	fp := filepath.Join(s.dir, s.prefix, filepath.Clean(p))
 	d := filepath.Dir(fp)
 
-	err := os.MkdirAll(d, 0755)
+	err = os.MkdirAll(d, 0755)
 	if err != nil {
 		return err
 	}
@@ -143,6 +158,11 @@ func (s *Storage) StoreLink(fi *apt.FileInfo, fullpath string) error {
 // with additional hard links for by-hash retrieval.
 func (s *Storage) StoreLinkWithHash(fi *apt.FileInfo, fullpath string) error {
 	p := fi.Path()
+	err := checkPath(p)
+	if err != nil {
+		return err
+	}
+
 	md5p := fi.MD5SumPath()
 	sha1p := fi.SHA1Path()
 	sha256p := fi.SHA256Path()
-- 
2.43.0


From 84dfadee8b8fac20f862a1a3259fd5d94e320a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:12 +0000
Subject: [PATCH 10/36] fix: detect conflicts of index names with by-hash names
 and directories

---
 mirror/storage.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/mirror/storage.go b/mirror/storage.go
index 282299f..41d18b8 100644
--- a/mirror/storage.go
+++ b/mirror/storage.go
@@ -174,6 +174,16 @@ func (s *Storage) StoreLinkWithHash(fi *apt.FileInfo, fullpath string) error {
 	}
 
 	s.mu.Lock()
+	for _, hp := range []string{p, md5p, sha1p, sha256p} {
+		old, ok := s.info[hp]
+		if !ok || old.Path() == p && hp == p {
+			continue
+		}
+		if filepath.Base(old.SHA256Path()) != filepath.Base(sha256p) {
+			s.mu.Unlock()
+			return errors.New("conflicting path: " + hp)
+		}
+	}
 	_, ok := s.info[p]
 	if ok {
 		// ignore the canonical path because another file was already stored.
@@ -201,7 +211,14 @@ func (s *Storage) StoreLinkWithHash(fi *apt.FileInfo, fullpath string) error {
 			return errors.Wrap(err, "StoreLinkWithHash: "+fp)
 		}
 		err = os.Link(fullpath, fp)
-		if err != nil && !os.IsExist(err) {
+		if os.IsExist(err) {
+			// fine if the existing one is a file with the same contents.
+			st, err2 := os.Lstat(fp)
+			if err2 == nil && st.Mode().IsRegular() {
+				continue
+			}
+		}
+		if err != nil {
 			return errors.Wrap(err, "StoreLinkWithHash: "+fp)
 		}
 	}
-- 
2.43.0


From 722af8d6859cb53cf5f44e5abe23629d7430d998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:23 +0000
Subject: [PATCH 11/36] fix: fail if indices declare conflicting checksums for
 an item

---
 apt/fileinfo.go  | 12 ++++++++++++
 mirror/mirror.go |  3 +++
 2 files changed, 15 insertions(+)

diff --git a/apt/fileinfo.go b/apt/fileinfo.go
index 7d4d0ee..867ca78 100644
--- a/apt/fileinfo.go
+++ b/apt/fileinfo.go
@@ -45,6 +45,18 @@ func (fi *FileInfo) Same(t *FileInfo) bool {
 	return true
 }
 
+// Conflict returns true if size or a checksum declared by both fi and t
+// differ, that is, if no file can match both of them.
+func (fi *FileInfo) Conflict(t *FileInfo) bool {
+	differ := func(a, b []byte) bool {
+		return len(a) > 0 && len(b) > 0 && !bytes.Equal(a, b)
+	}
+	return fi.size != t.size ||
+		differ(fi.md5sum, t.md5sum) ||
+		differ(fi.sha1sum, t.sha1sum) ||
+		differ(fi.sha256sum, t.sha256sum)
+}
+
 // Path returns the indentifying path string of the file.
 func (fi *FileInfo) Path() string {
 	return fi.path
diff --git a/mirror/mirror.go b/mirror/mirror.go
index 9802869..254722b 100644
--- a/mirror/mirror.go
+++ b/mirror/mirror.go
@@ -179,6 +179,9 @@ func (m *Mirror) extractItems(indices []*apt.FileInfo, indexMap map[string][]*ap
 				// already included in Release/InRelease
 				continue
 			}
+			if existing, ok := itemMap[fipath]; ok && existing.Conflict(fi) {
+				return errors.New("inconsistent checksum for " + fipath)
+			}
 			itemMap[fipath] = fi
 		}
 	}
-- 
2.43.0


From cd7151ccd7febbb948d29072c15ad78a845b093e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:34 +0000
Subject: [PATCH 12/36] fix: reject relative dir and missing url before
 mirroring

---
 mirror/config.go  | 3 +++
 mirror/control.go | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/mirror/config.go b/mirror/config.go
index 3fafad9..851a1f5 100644
--- a/mirror/config.go
+++ b/mirror/config.go
@@ -56,6 +56,9 @@ func isFlat(suite string) bool {
 
 // Check vaildates the configuration.
 func (mc *MirrConfig) Check() error {
+	if mc.URL.URL == nil {
+		return errors.New("no url")
+	}
 	if len(mc.Suites) == 0 {
 		return errors.New("no suites")
 	}
diff --git a/mirror/control.go b/mirror/control.go
index 238ea54..99255e3 100644
--- a/mirror/control.go
+++ b/mirror/control.go
@@ -122,6 +122,10 @@ func gc(ctx context.Context, c *Config) error {
 // (or keys in c.Mirrors).  If mirrors is an empty list, all mirrors
 // will be updated.
 func Run(c *Config, mirrors []string) error {
+	if !filepath.IsAbs(c.Dir) {
+		return errors.New("dir must be an absolute path: " + c.Dir)
+	}
+
 	lockFile := filepath.Join(c.Dir, lockFilename)
 	f, err := os.Open(lockFile)
 	switch {
-- 
2.43.0


From 2daed1b482db5d8ba11f5874e109394d3108f689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:37 +0000
Subject: [PATCH 13/36] fix: do not stop at repeated empty lines of index files

Two empty lines in a row, or a comment between two, were taken for the
end of the file, and all remaining paragraphs were silently ignored.
---
 apt/parser.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/apt/parser.go b/apt/parser.go
index 2f7bcb0..5639042 100644
--- a/apt/parser.go
+++ b/apt/parser.go
@@ -63,6 +63,10 @@ L:
 	for p.s.Scan() {
 		switch l := p.s.Text(); {
 		case len(l) == 0:
+			if p.lastField == "" {
+				// paragraphs may be separated by several empty lines
+				continue
+			}
 			break L
 		case l[0] == '#':
 			continue
@@ -101,10 +105,11 @@ L:
 			return nil, p.err
 		}
 	}
+	empty := p.lastField == ""
 	p.lastField = ""
 	if err := p.s.Err(); err != nil {
 		p.err = err
-	} else if len(ret) == 0 {
+	} else if empty {
 		p.err = io.EOF
 	}
 	if p.err != nil {
-- 
2.43.0


From 359de40f3756c915eadb408b91cc123ba9eb7f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:40 +0000
Subject: [PATCH 14/36] fix: absent checksums stay absent when loaded from JSON

FileInfo loaded from JSON had empty instead of no checksums, so that it
did not match any data and announced wrong by-hash paths.
---
 apt/fileinfo.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/apt/fileinfo.go b/apt/fileinfo.go
index 867ca78..1899af4 100644
--- a/apt/fileinfo.go
+++ b/apt/fileinfo.go
@@ -151,6 +151,14 @@ func (fi *FileInfo) MarshalJSON() ([]byte, error) {
 	return json.Marshal(&fij)
 }
 
+// decodeChecksum returns nil for an empty string, i.e. no checksum.
+func decodeChecksum(s string) ([]byte, error) {
+	if len(s) == 0 {
+		return nil, nil
+	}
+	return hex.DecodeString(s)
+}
+
 // UnmarshalJSON implements json.Unmarshaler
 func (fi *FileInfo) UnmarshalJSON(data []byte) error {
 	var fij fileInfoJSON
@@ -159,15 +167,15 @@ func (fi *FileInfo) UnmarshalJSON(data []byte) error {
 	}
 	fi.path = fij.Path
 	fi.size = uint64(fij.Size)
-	md5sum, err := hex.DecodeString(fij.MD5Sum)
+	md5sum, err := decodeChecksum(fij.MD5Sum)
 	if err != nil {
 		return errors.Wrap(err, "UnmarshalJSON for "+fij.Path)
 	}
-	sha1sum, err := hex.DecodeString(fij.SHA1Sum)
+	sha1sum, err := decodeChecksum(fij.SHA1Sum)
 	if err != nil {
 		return errors.Wrap(err, "UnmarshalJSON for "+fij.Path)
 	}
-	sha256sum, err := hex.DecodeString(fij.SHA256Sum)
+	sha256sum, err := decodeChecksum(fij.SHA256Sum)
 	if err != nil {
 		return errors.Wrap(err, "UnmarshalJSON for "+fij.Path)
 	}
-- 
2.43.0


From b3441464819abbcbd5334f503483027c973352f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:47 +0000
Subject: [PATCH 15/36] fix: notice damage behind the first paragraph of
 Release files

Reading stopped at the first empty line, so that read errors, and checksum
errors of compressed files, were not noticed and damaged contents used.
---
 apt/meta.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/apt/meta.go b/apt/meta.go
index 0249cbb..3de154e 100644
--- a/apt/meta.go
+++ b/apt/meta.go
@@ -7,6 +7,7 @@ import (
 	"compress/gzip"
 	"encoding/hex"
 	"io"
+	"io/ioutil"
 	"path"
 	"strconv"
 	"strings"
@@ -95,6 +96,12 @@ func getFilesFromRelease(p string, r io.Reader) ([]*FileInfo, Paragraph, error)
 		return nil, nil, errors.Wrap(err, "NewParser(r).Read()")
 	}
 
+	// the rest is not used, but decompressors verify data at its end.
+	_, err = io.Copy(ioutil.Discard, r)
+	if err != nil {
+		return nil, nil, errors.Wrap(err, p)
+	}
+
 	md5sums := d["MD5Sum"]
 	sha1sums := d["SHA1"]
 	sha256sums := d["SHA256"]
-- 
2.43.0


From 00be26df898f1b4f63841405645b8543fcacf794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:59 +0000
Subject: [PATCH 16/36] fix: notice xz files that end within a block header

---
 apt/meta.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/apt/meta.go b/apt/meta.go
index 3de154e..fadf7e5 100644
--- a/apt/meta.go
+++ b/apt/meta.go
@@ -3,6 +3,7 @@ package apt
 // This file provides utilities for debian repository indices.
 
 import (
+	"bytes"
 	"compress/bzip2"
 	"compress/gzip"
 	"encoding/hex"
@@ -360,7 +361,10 @@ func ExtractFileInfo(p string, r io.Reader) ([]*FileInfo, Paragraph, error) {
 		r = bzip2.NewReader(r)
 		base = base[:len(base)-4]
 	case ".xz":
-		xzr, err := xz.NewReader(r)
+		// xz.Reader takes the end of data within a block header for the
+		// end of the file.  Stream padding prevents it; block headers
+		// have up to 1024 bytes.
+		xzr, err := xz.NewReader(io.MultiReader(r, bytes.NewReader(make([]byte, 1024))))
 		if err != nil {
 			return nil, nil, err
 		}
-- 
2.43.0


From d95600e9c615e305b376c2d0c69958eb25d52724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:48 +0000
Subject: [PATCH 17/36] fix: answer requests whose downloads are unusable

Get downloaded an item again and again when its data was invalid, could
not be stored or was evicted at once.  Clients waiting for a download did
not get its result if it was forgotten before they looked, and a client
that looked just when a download ended started another one.  An expiring
result removed results of later downloads.
---
 cacher/cacher.go | 127 +++++++++++++++++++++++++++++++----------------
 1 file changed, 84 insertions(+), 43 deletions(-)

diff --git a/cacher/cacher.go b/cacher/cacher.go
index 82a486c..04c329b 100644
--- a/cacher/cacher.go
+++ b/cacher/cacher.go
@@ -25,6 +25,10 @@ import (
 const (
 	gib            = 1 << 30
 	requestTimeout = 30 * time.Minute
+
+	// maxDownloads is the maximum number of successful downloads waited
+	// for by Get if the item gets unusable before it can be returned.
+	maxDownloads = 3
 )
 
 // addPrefix add prefix for each *FileInfo in fil.
@@ -36,6 +40,12 @@ func addPrefix(prefix string, fil []*apt.FileInfo) []*apt.FileInfo {
 	return ret
 }
 
+// job is a download of an item.
+type job struct {
+	done   chan struct{} // closed when finished
+	status int           // valid only after done is closed
+}
+
 // Cacher downloads and caches APT indices and deb files.
 type Cacher struct {
 	meta          *Storage
@@ -49,9 +59,9 @@ type Cacher struct {
 	fiLock sync.RWMutex
 	info   map[string]*apt.FileInfo
 
-	dlLock     sync.RWMutex
-	dlChannels map[string]chan struct{}
-	results    map[string]int
+	dlLock  sync.Mutex
+	jobs    map[string]*job // downloads in progress
+	results map[string]*job // failed downloads
 
 	hostLock sync.Mutex
 	hostSem  map[string]chan struct{}
@@ -118,8 +128,8 @@ func NewCacher(config *Config) (*Cacher, error) {
 		client:        &http.Client{},
 		maxConns:      config.MaxConns,
 		info:          make(map[string]*apt.FileInfo),
-		dlChannels:    make(map[string]chan struct{}),
-		results:       make(map[string]int),
+		jobs:          make(map[string]*job),
+		results:       make(map[string]*job),
 		hostSem:       make(map[string]chan struct{}),
 	}
 
@@ -250,34 +260,48 @@ func (c *Cacher) Download(p string, valid *apt.FileInfo) <-chan struct{} {
 	c.dlLock.Lock()
 	defer c.dlLock.Unlock()
 
-	ch, ok := c.dlChannels[p]
+	return c.startDownload(p, u, valid).done
+}
+
+// startDownload starts a download unless it is in progress already.
+// c.dlLock must be acquired beforehand.
+func (c *Cacher) startDownload(p string, u *url.URL, valid *apt.FileInfo) *job {
+	j, ok := c.jobs[p]
 	if ok {
-		return ch
+		return j
 	}
 
-	ch = make(chan struct{})
-	c.dlChannels[p] = ch
+	j = &job{done: make(chan struct{})}
+	c.jobs[p] = j
 	well.Go(func(ctx context.Context) error {
-		c.download(ctx, p, u, valid)
+		c.download(ctx, p, u, valid, j)
 		return nil
 	})
-	return ch
+	return j
 }
 
 // download is a goroutine to download an item.
-func (c *Cacher) download(ctx context.Context, p string, u *url.URL, valid *apt.FileInfo) {
+func (c *Cacher) download(ctx context.Context, p string, u *url.URL, valid *apt.FileInfo, j *job) {
 	c.acquireSemaphore(u.Host)
 
 	statusCode := http.StatusInternalServerError
 
 	defer func() {
 		c.releaseSemaphore(u.Host)
+		j.status = statusCode
 		c.dlLock.Lock()
-		ch := c.dlChannels[p]
-		delete(c.dlChannels, p)
-		c.results[p] = statusCode
+		delete(c.jobs, p)
+		if statusCode == http.StatusOK {
+			delete(c.results, p)
+		} else {
+			c.results[p] = j
+		}
 		c.dlLock.Unlock()
-		close(ch)
+		close(j.done)
+
+		if statusCode == http.StatusOK {
+			return
+		}
 
 		// invalidate result cache after some interval
 		well.Go(func(ctx context.Context) error {
@@ -287,7 +311,9 @@ func (c *Cacher) download(ctx context.Context, p string, u *url.URL, valid *apt.
 			case <-time.After(c.cachePeriod):
 			}
 			c.dlLock.Lock()
-			delete(c.results, p)
+			if c.results[p] == j {
+				delete(c.results, p)
+			}
 			c.dlLock.Unlock()
 			return nil
 		})
@@ -321,8 +347,8 @@ func (c *Cacher) download(ctx context.Context, p string, u *url.URL, valid *apt.
 	}
 
 	defer closeRespBody(resp)
-	statusCode = resp.StatusCode
-	if statusCode != 200 {
+	if resp.StatusCode != http.StatusOK {
+		statusCode = resp.StatusCode
 		return
 	}
 
@@ -415,6 +441,7 @@ func (c *Cacher) download(ctx context.Context, p string, u *url.URL, valid *apt.
 		}
 	}
 	c.info[p] = fi
+	statusCode = http.StatusOK
 	log.Info("downloaded and cached", map[string]interface{}{
 		"path": p,
 	})
@@ -441,38 +468,52 @@ func (c *Cacher) Get(p string) (statusCode int, f *os.File, err error) {
 		storage = c.meta
 	}
 
-RETRY:
-	c.fiLock.RLock()
-	fi, ok := c.info[p]
-	c.fiLock.RUnlock()
-
-	if ok {
-		f, err := storage.Lookup(fi)
-		switch err {
-		case nil:
-			return http.StatusOK, f, nil
-		case ErrNotFound:
-		default:
+	for i := 0; i < maxDownloads; i++ {
+		f, j, err := c.find(storage, p, u)
+		if err != nil {
 			log.Error("lookup failure", map[string]interface{}{
 				"error": err.Error(),
 			})
 			return http.StatusInternalServerError, nil, err
 		}
+		if f != nil {
+			return http.StatusOK, f, nil
+		}
+
+		<-j.done
+		if j.status != http.StatusOK {
+			return j.status, nil, nil
+		}
 	}
 
-	// not found in storage.
-	c.dlLock.RLock()
-	ch, chOk := c.dlChannels[p]
-	result, resultOk := c.results[p]
-	c.dlLock.RUnlock()
+	log.Error("downloaded item is not available", map[string]interface{}{
+		"path": p,
+	})
+	return http.StatusInternalServerError, nil, nil
+}
+
+// find looks up a cached item.  If it is not found, a job that failed to
+// download the item recently or that is downloading it is returned.
+func (c *Cacher) find(storage *Storage, p string, u *url.URL) (*os.File, *job, error) {
+	// c.fiLock is kept until c.dlLock is acquired so that downloads are
+	// found in either storage or c.jobs.
+	c.fiLock.RLock()
+	defer c.fiLock.RUnlock()
 
-	if resultOk && result != http.StatusOK {
-		return result, nil, nil
+	fi, ok := c.info[p]
+	if ok {
+		f, err := storage.Lookup(fi)
+		if err != ErrNotFound {
+			return f, nil, err
+		}
 	}
-	if chOk {
-		<-ch
-	} else {
-		<-c.Download(p, fi)
+
+	// not found in storage.
+	c.dlLock.Lock()
+	defer c.dlLock.Unlock()
+
+	if j, ok := c.results[p]; ok {
+		return nil, j, nil
 	}
-	goto RETRY
+	return nil, c.startDownload(p, u, fi), nil
 }
-- 
2.43.0


From 9b45ac25ff36ca5d3e5e87abec69889d472e0769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:48 +0000
Subject: [PATCH 18/36] fix: do not cache data that indices outdated during the
 download

---
 cacher/cacher.go | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/cacher/cacher.go b/cacher/cacher.go
index 04c329b..25d884a 100644
--- a/cacher/cacher.go
+++ b/cacher/cacher.go
@@ -257,15 +257,23 @@ func (c *Cacher) Download(p string, valid *apt.FileInfo) <-chan struct{} {
 		return nil
 	}
 
+	known := valid
+	if known == nil {
+		c.fiLock.RLock()
+		known = c.info[p]
+		c.fiLock.RUnlock()
+	}
+
 	c.dlLock.Lock()
 	defer c.dlLock.Unlock()
 
-	return c.startDownload(p, u, valid).done
+	return c.startDownload(p, u, known, valid).done
 }
 
 // startDownload starts a download unless it is in progress already.
+// known is the current value of c.info[p].
 // c.dlLock must be acquired beforehand.
-func (c *Cacher) startDownload(p string, u *url.URL, valid *apt.FileInfo) *job {
+func (c *Cacher) startDownload(p string, u *url.URL, known, valid *apt.FileInfo) *job {
 	j, ok := c.jobs[p]
 	if ok {
 		return j
@@ -274,14 +282,14 @@ func (c *Cacher) startDownload(p string, u *url.URL, valid *apt.FileInfo) *job {
 	j = &job{done: make(chan struct{})}
 	c.jobs[p] = j
 	well.Go(func(ctx context.Context) error {
-		c.download(ctx, p, u, valid, j)
+		c.download(ctx, p, u, known, valid, j)
 		return nil
 	})
 	return j
 }
 
 // download is a goroutine to download an item.
-func (c *Cacher) download(ctx context.Context, p string, u *url.URL, valid *apt.FileInfo, j *job) {
+func (c *Cacher) download(ctx context.Context, p string, u *url.URL, known, valid *apt.FileInfo, j *job) {
 	c.acquireSemaphore(u.Host)
 
 	statusCode := http.StatusInternalServerError
@@ -418,6 +426,16 @@ func (c *Cacher) download(ctx context.Context, p string, u *url.URL, valid *apt.
 	c.fiLock.Lock()
 	defer c.fiLock.Unlock()
 
+	// Indices may have been updated while downloading.
+	if cur := c.info[p]; cur != nil && cur != known && !cur.Same(fi) {
+		log.Warn("downloaded data is outdated", map[string]interface{}{
+			"url": u.String(),
+		})
+		// clients will retry with the current checksums.
+		statusCode = http.StatusOK
+		return
+	}
+
 	// To keep consistency between Cacher and Storage so that
 	// both have the same set of FileInfo, storage.Insert need to be
 	// guarded by c.fiLock.
@@ -515,5 +533,5 @@ func (c *Cacher) find(storage *Storage, p string, u *url.URL) (*os.File, *job, e
 	if j, ok := c.results[p]; ok {
 		return nil, j, nil
 	}
-	return nil, c.startDownload(p, u, fi), nil
+	return nil, c.startDownload(p, u, fi, fi), nil
 }
-- 
2.43.0


From a0ab436a2b6caed4c8f65cdc5ff69b82028152b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:48 +0000
Subject: [PATCH 19/36] fix: do not crash if an item cannot be saved

Besides temporary failures of the storage, names may be too long or
conflict with names of other cache files.
---
 cacher/cacher.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/cacher/cacher.go b/cacher/cacher.go
index 25d884a..1f839f5 100644
--- a/cacher/cacher.go
+++ b/cacher/cacher.go
@@ -444,8 +444,7 @@ func (c *Cacher) download(ctx context.Context, p string, u *url.URL, known, vali
 			"path":  p,
 			"error": err.Error(),
 		})
-		// panic because go-apt-cacher cannot continue working
-		panic(err)
+		return
 	}
 
 	for _, fi2 := range fil {
-- 
2.43.0


From 5a717d7e39b9e993f2be8b97b6269afb669deee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:49 +0000
Subject: [PATCH 20/36] fix: ignore files listed outside of the repository

---
 cacher/cacher.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cacher/cacher.go b/cacher/cacher.go
index 1f839f5..1d377f3 100644
--- a/cacher/cacher.go
+++ b/cacher/cacher.go
@@ -35,7 +35,12 @@ const (
 func addPrefix(prefix string, fil []*apt.FileInfo) []*apt.FileInfo {
 	ret := make([]*apt.FileInfo, 0, len(fil))
 	for _, fi := range fil {
-		ret = append(ret, fi.AddPrefix(prefix))
+		fi = fi.AddPrefix(prefix)
+		if !strings.HasPrefix(fi.Path(), prefix+"/") {
+			// out of the repository
+			continue
+		}
+		ret = append(ret, fi)
 	}
 	return ret
 }
-- 
2.43.0


From edf6ceb49af96a2dbed88774dac1ecac5af406af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:30 +0000
Subject: [PATCH 21/36] fix: ignore outdated indices at startup

---
 cacher/cacher.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/cacher/cacher.go b/cacher/cacher.go
index 1d377f3..b38ddb2 100644
--- a/cacher/cacher.go
+++ b/cacher/cacher.go
@@ -12,6 +12,7 @@ import (
 	"os"
 	"path"
 	"path/filepath"
+	"sort"
 	"strings"
 	"sync"
 	"time"
@@ -45,6 +46,12 @@ func addPrefix(prefix string, fil []*apt.FileInfo) []*apt.FileInfo {
 	return ret
 }
 
+// isRelease returns true if p is an index of indices.
+func isRelease(p string) bool {
+	base := path.Base(p)
+	return base == "Release" || base == "InRelease"
+}
+
 // job is a download of an item.
 type job struct {
 	done   chan struct{} // closed when finished
@@ -138,9 +145,21 @@ func NewCacher(config *Config) (*Cacher, error) {
 		hostSem:       make(map[string]chan struct{}),
 	}
 
+	// Release and InRelease come first so that outdated indices are found.
 	metas := meta.ListAll()
+	sort.SliceStable(metas, func(i, j int) bool {
+		return isRelease(metas[i].Path()) && !isRelease(metas[j].Path())
+	})
 	for _, fi := range metas {
-		f, err := meta.Lookup(fi)
+		valid, ok := c.info[fi.Path()]
+		if !ok {
+			valid = fi
+		}
+		f, err := meta.Lookup(valid)
+		if err == ErrNotFound {
+			// outdated
+			continue
+		}
 		if err != nil {
 			return nil, errors.Wrap(err, "meta.Lookup")
 		}
-- 
2.43.0


From fb5a540488cfdb57218fa5b699332d81c2f0ccc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:30 +0000
Subject: [PATCH 22/36] fix: start with broken indices in the cache

They are cached as the upstream sent them, so the cacher could not be
started again without manual repair.
---
 cacher/cacher.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cacher/cacher.go b/cacher/cacher.go
index b38ddb2..6754d7a 100644
--- a/cacher/cacher.go
+++ b/cacher/cacher.go
@@ -170,7 +170,11 @@ func NewCacher(config *Config) (*Cacher, error) {
 		fil, _, err := apt.ExtractFileInfo(t[1], f)
 		f.Close()
 		if err != nil {
-			return nil, errors.Wrap(err, "ExtractFileInfo("+fi.Path()+")")
+			log.Error("invalid meta data", map[string]interface{}{
+				"path":  fi.Path(),
+				"error": err.Error(),
+			})
+			// do not return; broken meta data are cached as is.
 		}
 		fil = addPrefix(t[0], fil)
 		for _, fi2 := range fil {
-- 
2.43.0


From c4ba68cc82ba515d1dc020440794f45ec46027ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:30 +0000
Subject: [PATCH 23/36] fix: do not refresh cached files of prefixes that are
 not mapped

The goroutine waited for ever for a download that is not started, also
when the program is told to stop.
---
 cacher/cacher.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cacher/cacher.go b/cacher/cacher.go
index 6754d7a..b24328f 100644
--- a/cacher/cacher.go
+++ b/cacher/cacher.go
@@ -224,6 +224,11 @@ func (c *Cacher) releaseSemaphore(host string) {
 }
 
 func (c *Cacher) maintMeta(p string) {
+	if c.um.URL(p) == nil {
+		// the prefix is no longer mapped
+		return
+	}
+
 	switch path.Base(p) {
 	case "Release":
 		well.Go(func(ctx context.Context) error {
-- 
2.43.0


From d88f1531f9c18978e14ad8085bc1146701a5c679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:31 +0000
Subject: [PATCH 24/36] fix: reject unworkable configurations of the cacher

Negative values and overflows made the program panic or turned limits off.
A directory within the other one was scanned for both kinds of files.
The prefixes '.' and '..' cannot be used as directories.
---
 cacher/cacher.go | 28 +++++++++++++++++++++++++++-
 cacher/urlmap.go |  2 +-
 2 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/cacher/cacher.go b/cacher/cacher.go
index b24328f..f11d7cb 100644
--- a/cacher/cacher.go
+++ b/cacher/cacher.go
@@ -7,6 +7,7 @@ import (
 	"context"
 	"io"
 	"io/ioutil"
+	"math"
 	"net/http"
 	"net/url"
 	"os"
@@ -26,6 +27,7 @@ import (
 const (
 	gib            = 1 << 30
 	requestTimeout = 30 * time.Minute
+	maxSeconds     = int64(math.MaxInt64 / time.Second)
 
 	// maxDownloads is the maximum number of successful downloads waited
 	// for by Get if the item gets unusable before it can be returned.
@@ -46,6 +48,15 @@ func addPrefix(prefix string, fil []*apt.FileInfo) []*apt.FileInfo {
 	return ret
 }
 
+// isSubdir returns true if dir is below parent.
+// Both must be clean and absolute.
+func isSubdir(dir, parent string) bool {
+	if !strings.HasSuffix(parent, "/") {
+		parent += "/"
+	}
+	return strings.HasPrefix(dir, parent)
+}
+
 // isRelease returns true if p is an index of indices.
 func isRelease(p string) bool {
 	base := path.Base(p)
@@ -81,9 +92,15 @@ type Cacher struct {
 
 // NewCacher constructs Cacher.
 func NewCacher(config *Config) (*Cacher, error) {
-	if config.CheckInterval == 0 {
+	if config.CheckInterval <= 0 || int64(config.CheckInterval) > maxSeconds {
 		return nil, errors.New("invaild check_interval")
 	}
+	if config.CachePeriod < 0 || int64(config.CachePeriod) > maxSeconds {
+		return nil, errors.New("invalid cache_period")
+	}
+	if config.MaxConns < 0 {
+		return nil, errors.New("max_conns must be >= 0")
+	}
 	checkInterval := time.Duration(config.CheckInterval) * time.Second
 	cachePeriod := time.Duration(config.CachePeriod) * time.Second
 
@@ -100,10 +117,16 @@ func NewCacher(config *Config) (*Cacher, error) {
 	if metaDir == cacheDir {
 		return nil, errors.New("meta_dir and cache_dir must be different")
 	}
+	if isSubdir(metaDir, cacheDir) || isSubdir(cacheDir, metaDir) {
+		return nil, errors.New("meta_dir and cache_dir must not contain each other")
+	}
 
 	if config.CacheCapacity <= 0 {
 		return nil, errors.New("cache_capacity must be > 0")
 	}
+	if uint64(config.CacheCapacity) > math.MaxUint64/gib {
+		return nil, errors.New("too large cache_capacity")
+	}
 	capacity := uint64(config.CacheCapacity) * gib
 
 	meta := NewStorage(metaDir, 0)
@@ -125,6 +148,9 @@ func NewCacher(config *Config) (*Cacher, error) {
 		if u.Scheme != "http" && u.Scheme != "https" {
 			return nil, errors.New("unsupported scheme: " + u.Scheme)
 		}
+		if u.Host == "" {
+			return nil, errors.New("no host in URL for " + prefix)
+		}
 		err = um.Register(prefix, u)
 		if err != nil {
 			return nil, errors.Wrap(err, prefix)
diff --git a/cacher/urlmap.go b/cacher/urlmap.go
index 7def75d..7ffc772 100644
--- a/cacher/urlmap.go
+++ b/cacher/urlmap.go
@@ -22,7 +22,7 @@ type URLMap map[string]*url.URL
 
 // Register registeres a prefix for a remote URL.
 func (um *URLMap) Register(prefix string, u *url.URL) error {
-	if !validPrefix.MatchString(prefix) {
+	if !validPrefix.MatchString(prefix) || prefix == "." || prefix == ".." {
 		return ErrInvalidPrefix
 	}
 
-- 
2.43.0


From 718a2e2760a6cb5f104ae294bada46f3490d418e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:51 +0000
Subject: [PATCH 25/36] fix: accept empty paths and paths with leading slashes

The handler panicked for an empty path, and the whole program for a path
with two leading slashes below a mapped prefix.
---
 cacher/handler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cacher/handler.go b/cacher/handler.go
index 2aaa68d..9126385 100644
--- a/cacher/handler.go
+++ b/cacher/handler.go
@@ -24,7 +24,7 @@ func (c cacheHandler) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 		return
 	}
 
-	p := path.Clean(r.URL.Path[1:])
+	p := path.Clean("/" + r.URL.Path)[1:]
 
 	if log.Enabled(log.LvDebug) {
 		log.Debug("request path", map[string]interface{}{
-- 
2.43.0


From 489aa38b3a81811aaeddc18c4564fa6dac10fc3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:51 +0000
Subject: [PATCH 26/36] fix: return the same Content-Type for HEAD and GET

---
 cacher/handler.go | 23 +++--------------------
 1 file changed, 3 insertions(+), 20 deletions(-)

diff --git a/cacher/handler.go b/cacher/handler.go
index 9126385..dd12ce1 100644
--- a/cacher/handler.go
+++ b/cacher/handler.go
@@ -2,10 +2,8 @@ package cacher
 
 import (
 	"fmt"
-	"mime"
 	"net/http"
 	"path"
-	"strconv"
 	"time"
 
 	"github.com/cybozu-go/log"
@@ -44,23 +42,8 @@ func (c cacheHandler) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 	default:
 		// http.StatusOK
 		defer f.Close()
-		if r.Method == "GET" {
-			var zeroTime time.Time
-			http.ServeContent(w, r, path.Base(p), zeroTime, f)
-			return
-		}
-		stat, err := f.Stat()
-		if err != nil {
-			status = http.StatusInternalServerError
-			http.Error(w, err.Error(), status)
-			return
-		}
-		ct := mime.TypeByExtension(path.Ext(p))
-		if ct == "" {
-			ct = "application/octet-stream"
-		}
-		w.Header().Set("Content-Type", ct)
-		w.Header().Set("Content-Length", strconv.FormatInt(stat.Size(), 10))
-		w.WriteHeader(http.StatusOK)
+		// this handles HEAD as well.
+		var zeroTime time.Time
+		http.ServeContent(w, r, path.Base(p), zeroTime, f)
 	}
 }
-- 
2.43.0


From 19bc0bc10fb505ed07392b4c1eeff1122ae434de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:51 +0000
Subject: [PATCH 27/36] fix: refuse to store items outside of the cache
 directory

---
 cacher/storage.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cacher/storage.go b/cacher/storage.go
index d54033e..399575f 100644
--- a/cacher/storage.go
+++ b/cacher/storage.go
@@ -5,6 +5,7 @@ import (
 	"io/ioutil"
 	"os"
 	"path/filepath"
+	"strings"
 	"sync"
 
 	"github.com/cybozu-go/aptutil/apt"
@@ -216,6 +217,8 @@ func (cm *Storage) Insert(filename string, fi *apt.FileInfo) error {
 		return ErrBadPath
 	case p == ".":
 		return ErrBadPath
+	case p == "..", strings.HasPrefix(p, "../"):
+		return ErrBadPath
 	}
 
 	destpath := filepath.Join(cm.dir, p+fileSuffix)
-- 
2.43.0


From 6c262fd68b852aa831c24900ddfc9011faa5ce28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:51 +0000
Subject: [PATCH 28/36] fix: do not pass through statuses that are not final

---
 cacher/cacher.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cacher/cacher.go b/cacher/cacher.go
index f11d7cb..e978227 100644
--- a/cacher/cacher.go
+++ b/cacher/cacher.go
@@ -415,7 +415,10 @@ func (c *Cacher) download(ctx context.Context, p string, u *url.URL, known, vali
 
 	defer closeRespBody(resp)
 	if resp.StatusCode != http.StatusOK {
-		statusCode = resp.StatusCode
+		// statuses below 200 cannot be used for responses.
+		if resp.StatusCode >= 200 {
+			statusCode = resp.StatusCode
+		}
 		return
 	}
 
-- 
2.43.0


From 54dc001413a65ec00c5b417abe68de669ee46c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:37 +0000
Subject: [PATCH 29/36] fix: do not send queries of mapped URLs to upstreams

---
 cacher/urlmap.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cacher/urlmap.go b/cacher/urlmap.go
index 7ffc772..d079d8f 100644
--- a/cacher/urlmap.go
+++ b/cacher/urlmap.go
@@ -54,7 +54,8 @@ func (um URLMap) URL(p string) *url.URL {
 	}
 
 	if len(t) == 1 {
-		return u
+		// neither query nor fragment belongs to upstream URLs
+		return u.ResolveReference(&url.URL{Path: "./"})
 	}
 	return u.ResolveReference(&url.URL{Path: t[1]})
 }
-- 
2.43.0


From d1c6b9c34c24c5c0b85d48314431567c8185626c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:22 +0000
Subject: [PATCH 30/36] fix: keep checksums of outdated indices at startup

They are the last known checksums of their items.  Newer indices take
precedence over them.
---
 cacher/cacher.go  | 83 ++++++++++++++++++++++++++++++++---------------
 cacher/storage.go | 18 ++++++++++
 2 files changed, 74 insertions(+), 27 deletions(-)

diff --git a/cacher/cacher.go b/cacher/cacher.go
index e978227..5ad283d 100644
--- a/cacher/cacher.go
+++ b/cacher/cacher.go
@@ -13,7 +13,6 @@ import (
 	"os"
 	"path"
 	"path/filepath"
-	"sort"
 	"strings"
 	"sync"
 	"time"
@@ -171,40 +170,44 @@ func NewCacher(config *Config) (*Cacher, error) {
 		hostSem:       make(map[string]chan struct{}),
 	}
 
-	// Release and InRelease come first so that outdated indices are found.
+	// Newer indices take precedence.  Outdated ones come before all others;
+	// they may still have the last known checksums of items.
 	metas := meta.ListAll()
-	sort.SliceStable(metas, func(i, j int) bool {
-		return isRelease(metas[i].Path()) && !isRelease(metas[j].Path())
-	})
+	if err := meta.sortByTime(metas); err != nil {
+		return nil, errors.Wrap(err, "meta.sortByTime")
+	}
 	for _, fi := range metas {
+		if !isRelease(fi.Path()) {
+			continue
+		}
+		if err := c.loadMeta(fi); err != nil {
+			return nil, err
+		}
+	}
+	var outdated, current []*apt.FileInfo
+	for _, fi := range metas {
+		if isRelease(fi.Path()) {
+			continue
+		}
 		valid, ok := c.info[fi.Path()]
 		if !ok {
-			valid = fi
-		}
-		f, err := meta.Lookup(valid)
-		if err == ErrNotFound {
-			// outdated
+			current = append(current, fi)
 			continue
 		}
-		if err != nil {
+		f, err := meta.Lookup(valid)
+		switch err {
+		case nil:
+			f.Close()
+			current = append(current, fi)
+		case ErrNotFound:
+			outdated = append(outdated, fi)
+		default:
 			return nil, errors.Wrap(err, "meta.Lookup")
 		}
-		t := strings.SplitN(fi.Path(), "/", 2)
-		if len(t) != 2 {
-			panic("there should always be a prefix!")
-		}
-		fil, _, err := apt.ExtractFileInfo(t[1], f)
-		f.Close()
-		if err != nil {
-			log.Error("invalid meta data", map[string]interface{}{
-				"path":  fi.Path(),
-				"error": err.Error(),
-			})
-			// do not return; broken meta data are cached as is.
-		}
-		fil = addPrefix(t[0], fil)
-		for _, fi2 := range fil {
-			c.info[fi2.Path()] = fi2
+	}
+	for _, fi := range append(outdated, current...) {
+		if err := c.loadMeta(fi); err != nil {
+			return nil, err
 		}
 	}
 
@@ -220,6 +223,32 @@ func NewCacher(config *Config) (*Cacher, error) {
 	return c, nil
 }
 
+// loadMeta reads checksums from a cached meta file.
+func (c *Cacher) loadMeta(fi *apt.FileInfo) error {
+	f, err := c.meta.Lookup(fi)
+	if err != nil {
+		return errors.Wrap(err, "meta.Lookup")
+	}
+	defer f.Close()
+
+	t := strings.SplitN(fi.Path(), "/", 2)
+	if len(t) != 2 {
+		panic("there should always be a prefix!")
+	}
+	fil, _, err := apt.ExtractFileInfo(t[1], f)
+	if err != nil {
+		log.Error("invalid meta data", map[string]interface{}{
+			"path":  fi.Path(),
+			"error": err.Error(),
+		})
+		// do not return; broken meta data are cached as is.
+	}
+	for _, fi2 := range addPrefix(t[0], fil) {
+		c.info[fi2.Path()] = fi2
+	}
+	return nil
+}
+
 func (c *Cacher) acquireSemaphore(host string) {
 	if c.maxConns == 0 {
 		return
diff --git a/cacher/storage.go b/cacher/storage.go
index 399575f..921b93e 100644
--- a/cacher/storage.go
+++ b/cacher/storage.go
@@ -5,8 +5,10 @@ import (
 	"io/ioutil"
 	"os"
 	"path/filepath"
+	"sort"
 	"strings"
 	"sync"
+	"time"
 
 	"github.com/cybozu-go/aptutil/apt"
 	"github.com/cybozu-go/log"
@@ -332,6 +334,22 @@ func (cm *Storage) ListAll() []*apt.FileInfo {
 	return l
 }
 
+// sortByTime sorts cached items by modification times of their files.
+func (cm *Storage) sortByTime(l []*apt.FileInfo) error {
+	mtimes := make(map[string]time.Time)
+	for _, fi := range l {
+		st, err := os.Stat(filepath.Join(cm.dir, fi.Path()+fileSuffix))
+		if err != nil {
+			return err
+		}
+		mtimes[fi.Path()] = st.ModTime()
+	}
+	sort.SliceStable(l, func(i, j int) bool {
+		return mtimes[l[i].Path()].Before(mtimes[l[j].Path()])
+	})
+	return nil
+}
+
 // Delete deletes an item from the cache.
 func (cm *Storage) Delete(p string) error {
 	cm.mu.Lock()
-- 
2.43.0


From 04d986be13d9edf4763f1c7c5c6a4942e4dec157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:00 +0000
Subject: [PATCH 31/36] fix: do not modify file information returned from
 Storage.ListAll

Lookup calculates checksums of items found on disk lazily.  Writing them
to the FileInfo that ListAll may have returned is a data race.
---
 cacher/cacher.go  | 3 ++-
 cacher/storage.go | 5 ++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/cacher/cacher.go b/cacher/cacher.go
index 5ad283d..e170347 100644
--- a/cacher/cacher.go
+++ b/cacher/cacher.go
@@ -212,7 +212,8 @@ func NewCacher(config *Config) (*Cacher, error) {
 	}
 
 	// add meta files w/o checksums (Release, Release.gpg, and InRelease).
-	for _, fi := range metas {
+	// By now, checksums of the files themselves have been calculated.
+	for _, fi := range meta.ListAll() {
 		p := fi.Path()
 		if _, ok := c.info[p]; !ok {
 			c.info[p] = fi
diff --git a/cacher/storage.go b/cacher/storage.go
index 921b93e..3079d1d 100644
--- a/cacher/storage.go
+++ b/cacher/storage.go
@@ -288,7 +288,10 @@ func calcChecksum(dir string, e *entry) error {
 	if err != nil {
 		return err
 	}
-	e.FileInfo.CalcChecksums(data)
+	// do not modify *apt.FileInfo returned from ListAll.
+	fi := apt.MakeFileInfoNoChecksum(e.Path(), e.Size())
+	fi.CalcChecksums(data)
+	e.FileInfo = fi
 	return nil
 }
 
-- 
2.43.0


From b521cb400e7032d6924b6690648f152f79d84949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:25 +0000
Subject: [PATCH 32/36] fix: start checks of Release files after NewCacher has
 set up checksums

---
 cacher/cacher.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cacher/cacher.go b/cacher/cacher.go
index e170347..a6e5338 100644
--- a/cacher/cacher.go
+++ b/cacher/cacher.go
@@ -213,14 +213,20 @@ func NewCacher(config *Config) (*Cacher, error) {
 
 	// add meta files w/o checksums (Release, Release.gpg, and InRelease).
 	// By now, checksums of the files themselves have been calculated.
+	var unlisted []string
 	for _, fi := range meta.ListAll() {
 		p := fi.Path()
 		if _, ok := c.info[p]; !ok {
 			c.info[p] = fi
-			c.maintMeta(p)
+			unlisted = append(unlisted, p)
 		}
 	}
 
+	// c.info is shared with other goroutines from now on.
+	for _, p := range unlisted {
+		c.maintMeta(p)
+	}
+
 	return c, nil
 }
 
-- 
2.43.0


From 06698e87b11663682a3bb89a8af739b36f98b42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:43 +0000
Subject: [PATCH 33/36] fix: end requests and checks when the cacher is stopped
 while they wait for downloads

---
 cacher/cacher.go  | 26 +++++++++++++++++++++-----
 cacher/handler.go |  2 +-
 2 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/cacher/cacher.go b/cacher/cacher.go
index a6e5338..0a3bc7c 100644
--- a/cacher/cacher.go
+++ b/cacher/cacher.go
@@ -320,12 +320,18 @@ func (c *Cacher) maintRelease(ctx context.Context, p string, withGPG bool) {
 		case <-ctx.Done():
 			return
 		case <-ticker.C:
-			ch1 := c.Download(p, nil)
+			chs := []<-chan struct{}{c.Download(p, nil)}
 			if withGPG {
-				ch2 := c.Download(p+".gpg", nil)
-				<-ch2
+				chs = append(chs, c.Download(p+".gpg", nil))
+			}
+			for _, ch := range chs {
+				select {
+				case <-ch:
+				case <-ctx.Done():
+					// downloads may not be started any more.
+					return
+				}
 			}
-			<-ch1
 		}
 	}
 }
@@ -569,6 +575,11 @@ func (c *Cacher) download(ctx context.Context, p string, u *url.URL, known, vali
 // an upstream server, a pointer to os.File for the cache file,
 // and error.
 func (c *Cacher) Get(p string) (statusCode int, f *os.File, err error) {
+	return c.get(context.Background(), p)
+}
+
+// get is Get that does not wait for downloads after ctx is done.
+func (c *Cacher) get(ctx context.Context, p string) (statusCode int, f *os.File, err error) {
 	u := c.um.URL(p)
 	if u == nil {
 		return http.StatusNotFound, nil, nil
@@ -595,7 +606,12 @@ func (c *Cacher) Get(p string) (statusCode int, f *os.File, err error) {
 			return http.StatusOK, f, nil
 		}
 
-		<-j.done
+		select {
+		case <-j.done:
+		case <-ctx.Done():
+			// during shutdown, downloads are not started any more.
+			return http.StatusServiceUnavailable, nil, nil
+		}
 		if j.status != http.StatusOK {
 			return j.status, nil, nil
 		}
diff --git a/cacher/handler.go b/cacher/handler.go
index dd12ce1..b5a790d 100644
--- a/cacher/handler.go
+++ b/cacher/handler.go
@@ -30,7 +30,7 @@ func (c cacheHandler) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 		})
 	}
 
-	status, f, err := c.Get(p)
+	status, f, err := c.get(r.Context(), p)
 
 	switch {
 	case err != nil:
-- 
2.43.0


From 5d7af410991c83cb01745e125c70277abe4a26c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:51 +0000
Subject: [PATCH 34/36] fix: do not start if cached indices cannot be read

---
 cacher/cacher.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/cacher/cacher.go b/cacher/cacher.go
index 0a3bc7c..f3191ef 100644
--- a/cacher/cacher.go
+++ b/cacher/cacher.go
@@ -230,6 +230,21 @@ func NewCacher(config *Config) (*Cacher, error) {
 	return c, nil
 }
 
+// errorReader is an io.Reader that keeps the error of its Reader.
+type errorReader struct {
+	io.Reader
+	err error
+}
+
+// Read implements io.Reader.
+func (r *errorReader) Read(p []byte) (int, error) {
+	n, err := r.Reader.Read(p)
+	if err != nil && err != io.EOF {
+		r.err = err
+	}
+	return n, err
+}
+
 // loadMeta reads checksums from a cached meta file.
 func (c *Cacher) loadMeta(fi *apt.FileInfo) error {
 	f, err := c.meta.Lookup(fi)
@@ -242,7 +257,11 @@ func (c *Cacher) loadMeta(fi *apt.FileInfo) error {
 	if len(t) != 2 {
 		panic("there should always be a prefix!")
 	}
-	fil, _, err := apt.ExtractFileInfo(t[1], f)
+	r := &errorReader{Reader: f}
+	fil, _, err := apt.ExtractFileInfo(t[1], r)
+	if r.err != nil {
+		return errors.Wrap(r.err, fi.Path())
+	}
 	if err != nil {
 		log.Error("invalid meta data", map[string]interface{}{
 			"path":  fi.Path(),
-- 
2.43.0


From 10624b795a3e8a49410814e5b3058f2785942bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:46 +0000
Subject: [PATCH 35/36] fix: verify all checksums declared for a file by
 several indices

If several indices or Release files declared different kinds of checksums
for a file, only one of the declarations was verified, and equal
declarations of different kinds were taken for inconsistent ones.
---
 apt/fileinfo.go  | 16 ++++++++++++++++
 mirror/mirror.go | 12 ++++++++----
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/apt/fileinfo.go b/apt/fileinfo.go
index 1899af4..63b31d3 100644
--- a/apt/fileinfo.go
+++ b/apt/fileinfo.go
@@ -57,6 +57,22 @@ func (fi *FileInfo) Conflict(t *FileInfo) bool {
 		differ(fi.sha256sum, t.sha256sum)
 }
 
+// Merge returns a new FileInfo that has the checksums declared by fi or t.
+// fi and t must have the same path, and must not conflict.
+func (fi *FileInfo) Merge(t *FileInfo) *FileInfo {
+	newFI := *fi
+	if len(newFI.md5sum) == 0 {
+		newFI.md5sum = t.md5sum
+	}
+	if len(newFI.sha1sum) == 0 {
+		newFI.sha1sum = t.sha1sum
+	}
+	if len(newFI.sha256sum) == 0 {
+		newFI.sha256sum = t.sha256sum
+	}
+	return &newFI
+}
+
 // Path returns the indentifying path string of the file.
 func (fi *FileInfo) Path() string {
 	return fi.path
diff --git a/mirror/mirror.go b/mirror/mirror.go
index 254722b..0c0141d 100644
--- a/mirror/mirror.go
+++ b/mirror/mirror.go
@@ -179,8 +179,11 @@ func (m *Mirror) extractItems(indices []*apt.FileInfo, indexMap map[string][]*ap
 				// already included in Release/InRelease
 				continue
 			}
-			if existing, ok := itemMap[fipath]; ok && existing.Conflict(fi) {
-				return errors.New("inconsistent checksum for " + fipath)
+			if existing, ok := itemMap[fipath]; ok {
+				if existing.Conflict(fi) {
+					return errors.New("inconsistent checksum for " + fipath)
+				}
+				fi = existing.Merge(fi)
 			}
 			itemMap[fipath] = fi
 		}
@@ -499,8 +502,9 @@ func addFileInfoToList(fi *apt.FileInfo, m map[string][]*apt.FileInfo, byhash bo
 		return nil
 	}
 
-	for _, existing := range fil {
-		if existing.Same(fi) {
+	for i, existing := range fil {
+		if !existing.Conflict(fi) {
+			fil[i] = existing.Merge(fi)
 			return nil
 		}
 	}
-- 
2.43.0


From 3688defdd4ceef5a72b3cd5bcd1804612b709ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:57 +0000
Subject: [PATCH 36/36] fix: set the mode of downloaded files before syncing
 them

The mode was changed after fsync, so that a power failure could lose it
while the file stayed in the mirror.  The following updates reuse the
file, which remained unreadable for the web server for ever.
---
 mirror/mirror.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mirror/mirror.go b/mirror/mirror.go
index 0c0141d..e54df65 100644
--- a/mirror/mirror.go
+++ b/mirror/mirror.go
@@ -460,14 +460,14 @@ RETRY:
 		r.err = err
 		return
 	}
-	err = tempfile.Sync()
+	err = os.Chmod(tempfile.Name(), 0644)
 	if err != nil {
-		r.err = errors.New("tempfile.Sync failed")
+		r.err = errors.New("os.Chmod(tempfile.Name(), 0644) failed")
 		return
 	}
-	err = os.Chmod(tempfile.Name(), 0644)
+	err = tempfile.Sync()
 	if err != nil {
-		r.err = errors.New("os.Chmod(tempfile.Name(), 0644) failed")
+		r.err = errors.New("tempfile.Sync failed")
 		return
 	}
 
-- 
2.43.0

