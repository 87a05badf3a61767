From b738a06b4dea3bad69f708988cce05dcd35e6d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:10 +0000
Subject: [PATCH 01/52] fix: memfs: release the directory lock when MkdirAll
 meets a file

---
 memfs/memfs.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/memfs/memfs.go b/memfs/memfs.go
index 6f09735..b597277 100644
--- a/memfs/memfs.go
+++ b/memfs/memfs.go
@@ -102,6 +102,7 @@ func (rootFS *FS) MkdirAll(path string, perm os.FileMode) error {
 		} else {
 			childDir, ok := child.(*dir)
 			if !ok {
+				cur.mu.Unlock()
 				return fmt.Errorf("not a directory: %s: %w", part, fs.ErrInvalid)
 			}
 			next = childDir
-- 
2.43.0


From 68c4b72949e4105051e9991fd5749cfbccf14fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:11 +0000
Subject: [PATCH 02/52] fix: memfs: publish written files complete, under the
 directory lock

---
 memfs/memfs.go | 26 ++++++++++----------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/memfs/memfs.go b/memfs/memfs.go
index b597277..020ee5d 100644
--- a/memfs/memfs.go
+++ b/memfs/memfs.go
@@ -190,9 +190,9 @@ func (rootFS *FS) get(path string) (childI, error) {
 	return chld, nil
 }
 
-func (rootFS *FS) create(path string) (*File, error) {
+func (rootFS *FS) create(path string, data []byte, perm os.FileMode) error {
 	if !fs.ValidPath(path) {
-		return nil, fmt.Errorf("invalid path: %s: %w", path, fs.ErrInvalid)
+		return fmt.Errorf("invalid path: %s: %w", path, fs.ErrInvalid)
 	}
 
 	if path == "." {
@@ -205,7 +205,7 @@ func (rootFS *FS) create(path string) (*File, error) {
 	dirPart = strings.TrimSuffix(dirPart, "/")
 	dir, err := rootFS.getDir(dirPart)
 	if err != nil {
-		return nil, err
+		return err
 	}
 
 	dir.mu.Lock()
@@ -214,18 +214,18 @@ func (rootFS *FS) create(path string) (*File, error) {
 	if existing != nil {
 		_, ok := existing.(*File)
 		if !ok {
-			return nil, fmt.Errorf("path is a directory: %s: %w", path, fs.ErrExist)
+			return fmt.Errorf("path is a directory: %s: %w", path, fs.ErrExist)
 		}
 	}
 
-	newFile := &File{
+	// Once published the file may be read concurrently, so it must be complete.
+	dir.children[filePart] = &File{
 		name:    filePart,
-		perm:    0666,
-		content: &bytes.Buffer{},
+		perm:    perm,
+		content: bytes.NewBuffer(data),
 	}
-	dir.children[filePart] = newFile
 
-	return newFile, nil
+	return nil
 }
 
 // WriteFile writes data to a file named by filename.
@@ -241,13 +241,7 @@ func (rootFS *FS) WriteFile(path string, data []byte, perm os.FileMode) error {
 		path = ""
 	}
 
-	f, err := rootFS.create(path)
-	if err != nil {
-		return err
-	}
-	f.content = bytes.NewBuffer(data)
-	f.perm = perm
-	return nil
+	return rootFS.create(path, data, perm)
 }
 
 // Open opens the named file.
-- 
2.43.0


From cd4f0fca45652ebab8c0a19fc60a2fb207ae7225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:12 +0000
Subject: [PATCH 03/52] fix: memfs: do not alias the data passed to WriteFile

---
 memfs/memfs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/memfs/memfs.go b/memfs/memfs.go
index 020ee5d..87558f3 100644
--- a/memfs/memfs.go
+++ b/memfs/memfs.go
@@ -222,7 +222,7 @@ func (rootFS *FS) create(path string, data []byte, perm os.FileMode) error {
 	dir.children[filePart] = &File{
 		name:    filePart,
 		perm:    perm,
-		content: bytes.NewBuffer(data),
+		content: bytes.NewBuffer(bytes.Clone(data)),
 	}
 
 	return nil
-- 
2.43.0


From 01d0d6ea5490afe6bd1155106d86bded9b74acad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:13 +0000
Subject: [PATCH 04/52] fix: memfs: keep the permissions of a rewritten file,
 as documented

---
 memfs/memfs.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/memfs/memfs.go b/memfs/memfs.go
index 87558f3..3377fac 100644
--- a/memfs/memfs.go
+++ b/memfs/memfs.go
@@ -212,10 +212,12 @@ func (rootFS *FS) create(path string, data []byte, perm os.FileMode) error {
 	defer dir.mu.Unlock()
 	existing := dir.children[filePart]
 	if existing != nil {
-		_, ok := existing.(*File)
+		existingFile, ok := existing.(*File)
 		if !ok {
 			return fmt.Errorf("path is a directory: %s: %w", path, fs.ErrExist)
 		}
+		// Truncating a file does not change its permissions.
+		perm = existingFile.perm
 	}
 
 	// Once published the file may be read concurrently, so it must be complete.
-- 
2.43.0


From fe25a54d1aceb9e96fb62e61b7868bd7d3b8cb69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:13 +0000
Subject: [PATCH 05/52] fix: memfs: report the full size of a partially read
 file

---
 memfs/memfs.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/memfs/memfs.go b/memfs/memfs.go
index 3377fac..a1f8862 100644
--- a/memfs/memfs.go
+++ b/memfs/memfs.go
@@ -224,6 +224,7 @@ func (rootFS *FS) create(path string, data []byte, perm os.FileMode) error {
 	dir.children[filePart] = &File{
 		name:    filePart,
 		perm:    perm,
+		size:    int64(len(data)),
 		content: bytes.NewBuffer(bytes.Clone(data)),
 	}
 
@@ -271,6 +272,7 @@ func (rootFS *FS) Open(name string) (fs.File, error) {
 		handle := &File{
 			name:    cc.name,
 			perm:    cc.perm,
+			size:    cc.size,
 			content: bytes.NewBuffer(cc.content.Bytes()),
 		}
 		return handle, nil
@@ -370,6 +372,7 @@ func (d *fhDir) ReadDir(n int) ([]fs.DirEntry, error) {
 type File struct {
 	name    string
 	perm    os.FileMode
+	size    int64
 	content *bytes.Buffer
 	modTime time.Time
 	closed  bool
@@ -381,7 +384,7 @@ func (f *File) Stat() (fs.FileInfo, error) {
 	}
 	fi := fileInfo{
 		name:    f.name,
-		size:    int64(f.content.Len()),
+		size:    f.size,
 		modTime: f.modTime,
 		mode:    f.perm,
 	}
-- 
2.43.0


From 49ef205d237e99d019e2053ec12dd9b95b804400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:14 +0000
Subject: [PATCH 06/52] fix: memfs: deliver every directory entry once, in
 order, then io.EOF

---
 memfs/memfs.go | 48 ++++++++++++++++++++++++++++++++----------------
 1 file changed, 32 insertions(+), 16 deletions(-)

diff --git a/memfs/memfs.go b/memfs/memfs.go
index a1f8862..13e481e 100644
--- a/memfs/memfs.go
+++ b/memfs/memfs.go
@@ -44,9 +44,11 @@ import (
 	"bytes"
 	"errors"
 	"fmt"
+	"io"
 	"io/fs"
 	"os"
 	syspath "path"
+	"slices"
 	"strings"
 	"sync"
 	"time"
@@ -304,8 +306,9 @@ type dir struct {
 }
 
 type fhDir struct {
-	dir *dir
-	idx int
+	dir     *dir
+	entries []fs.DirEntry
+	started bool
 }
 
 func (d *fhDir) Stat() (fs.FileInfo, error) {
@@ -327,23 +330,38 @@ func (d *fhDir) Close() error {
 }
 
 func (d *fhDir) ReadDir(n int) ([]fs.DirEntry, error) {
-	d.dir.mu.Lock()
-	defer d.dir.mu.Unlock()
-
-	names := make([]string, 0, len(d.dir.children))
-	for name := range d.dir.children {
-		names = append(names, name)
+	// Successive calls deliver consecutive parts of the listing seen by the first.
+	if !d.started {
+		d.entries = d.dir.list()
+		d.started = true
 	}
 
 	if n <= 0 {
-		n = len(names)
+		n = len(d.entries)
+	} else if len(d.entries) == 0 {
+		return nil, io.EOF
 	}
+	n = min(n, len(d.entries))
 
-	out := make([]fs.DirEntry, 0, n)
+	out := d.entries[:n:n]
+	d.entries = d.entries[n:]
+	return out, nil
+}
 
-	for i := d.idx; i < n && i < len(names); i++ {
-		name := names[i]
-		child := d.dir.children[name]
+// list returns the entries of the directory, in name order.
+func (d *dir) list() []fs.DirEntry {
+	d.mu.Lock()
+	defer d.mu.Unlock()
+
+	names := make([]string, 0, len(d.children))
+	for name := range d.children {
+		names = append(names, name)
+	}
+	slices.Sort(names)
+
+	out := make([]fs.DirEntry, 0, len(names))
+	for _, name := range names {
+		child := d.children[name]
 
 		f, isFile := child.(*File)
 		if isFile {
@@ -363,10 +381,8 @@ func (d *fhDir) ReadDir(n int) ([]fs.DirEntry, error) {
 				info: &fi,
 			})
 		}
-
-		d.idx = i
 	}
-	return out, nil
+	return out
 }
 
 type File struct {
-- 
2.43.0


From a9a4390421491a9d7efad8c617f9cebee30b818f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:15 +0000
Subject: [PATCH 07/52] fix: memfs: DirEntry.Type returns only the type bits

---
 memfs/memfs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/memfs/memfs.go b/memfs/memfs.go
index 13e481e..2e8c346 100644
--- a/memfs/memfs.go
+++ b/memfs/memfs.go
@@ -475,7 +475,7 @@ func (de *dirEntry) IsDir() bool {
 }
 
 func (de *dirEntry) Type() fs.FileMode {
-	return de.info.Mode()
+	return de.info.Mode().Type()
 }
 
 func (de *dirEntry) Info() (fs.FileInfo, error) {
-- 
2.43.0


From 0d967d11752f65077d7ad60f01942e3e12dcd8ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:15 +0000
Subject: [PATCH 08/52] fix: memfs: give the root directory a name and usable
 permissions

---
 memfs/memfs.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/memfs/memfs.go b/memfs/memfs.go
index 2e8c346..675856b 100644
--- a/memfs/memfs.go
+++ b/memfs/memfs.go
@@ -64,6 +64,8 @@ type FS struct {
 func New() *FS {
 	return &FS{
 		dir: &dir{
+			name:     ".",
+			perm:     0o755,
 			children: make(map[string]childI),
 		},
 	}
-- 
2.43.0


From 7951dd0421fc05c2bf581b451138d4c1185d0ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:16 +0000
Subject: [PATCH 09/52] fix: memfs: Sub accepts the root

---
 memfs/memfs.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/memfs/memfs.go b/memfs/memfs.go
index 675856b..b19fb06 100644
--- a/memfs/memfs.go
+++ b/memfs/memfs.go
@@ -292,6 +292,11 @@ func (rootFS *FS) Open(name string) (fs.File, error) {
 
 // Sub returns an FS corresponding to the subtree rooted at path.
 func (rootFS *FS) Sub(path string) (fs.FS, error) {
+	if path == "." {
+		// root dir
+		path = ""
+	}
+
 	dir, err := rootFS.getDir(path)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 95c2a0fdb34da8b5137f24dbc9c3f195679ce614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:53 +0000
Subject: [PATCH 10/52] fix: arfs: require both bytes of the member header
 terminator

---
 arfs/arfs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arfs/arfs.go b/arfs/arfs.go
index 0102238..32d29b4 100644
--- a/arfs/arfs.go
+++ b/arfs/arfs.go
@@ -162,7 +162,7 @@ func parseArEntry(line []byte) (*Entry, error) {
 		return nil, errors.New("malformed file entry line length")
 	}
 
-	if line[58] != 0x60 && line[59] != 0x0A {
+	if line[58] != 0x60 || line[59] != 0x0A {
 		return nil, errors.New("malformed file entry line endings")
 	}
 
-- 
2.43.0


From c293ae9923994e9d6547f66afbf31f816454d9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:54 +0000
Subject: [PATCH 11/52] fix: arfs: reject negative member sizes, which made
 Open loop forever

---
 arfs/arfs.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/arfs/arfs.go b/arfs/arfs.go
index 32d29b4..4b97d03 100644
--- a/arfs/arfs.go
+++ b/arfs/arfs.go
@@ -194,6 +194,9 @@ func parseArEntry(line []byte) (*Entry, error) {
 		if err != nil {
 			return nil, fmt.Errorf("failed to parse entry value: %w", err)
 		}
+		if intValue < 0 && target == &e.FileSize {
+			return nil, errors.New("negative entry size")
+		}
 		*target = int64(intValue)
 	}
 
-- 
2.43.0


From 798c60b4508093baf066d43ce4d71cb344fb9cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:55 +0000
Subject: [PATCH 12/52] fix: arfs: refuse truncated headers, accept io.EOF with
 a full read

---
 arfs/arfs.go | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/arfs/arfs.go b/arfs/arfs.go
index 4b97d03..b697279 100644
--- a/arfs/arfs.go
+++ b/arfs/arfs.go
@@ -69,19 +69,17 @@ func Open(ra io.ReaderAt) (*FS, error) {
 		line := make([]byte, 60)
 
 		n, err := ra.ReadAt(line, offset)
-		if err != nil {
-			if errors.Is(err, io.EOF) {
-				break
+		if n != len(line) {
+			if !errors.Is(err, io.EOF) {
+				return nil, err
 			}
 
-			return nil, err
-		}
+			// Nothing but (possibly) a padding byte left.
+			if n == 0 || (n == 1 && line[0] == '\n') {
+				break
+			}
 
-		if n == 1 && line[0] == '\n' {
-			return nil, io.EOF
-		}
-		if n != 60 {
-			return nil, errors.New("short read")
+			return nil, fmt.Errorf("truncated entry header: %w", io.ErrUnexpectedEOF)
 		}
 
 		e, err := parseArEntry(line)
@@ -207,7 +205,7 @@ func parseArEntry(line []byte) (*Entry, error) {
 // like an `ar(1)` archive, and not some random file.
 func checkAr(ra io.ReaderAt) (int64, error) {
 	header := make([]byte, 8)
-	if _, err := ra.ReadAt(header, 0); err != nil {
+	if n, err := ra.ReadAt(header, 0); n != len(header) {
 		return 0, err
 	}
 	if string(header) != "!<arch>\n" {
-- 
2.43.0


From 5eafc22ccbd7eb89c7b41b3c5d7d1c8bbf9b0266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:45 +0000
Subject: [PATCH 13/52] fix: arfs: refuse archives that end inside a member

---
 arfs/arfs.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/arfs/arfs.go b/arfs/arfs.go
index b697279..1f0aeef 100644
--- a/arfs/arfs.go
+++ b/arfs/arfs.go
@@ -92,6 +92,16 @@ func Open(ra io.ReaderAt) (*FS, error) {
 		}
 
 		begin := offset + int64(n)
+		if e.FileSize > 0 {
+			// Make sure that the last byte of the content is there.
+			if n, err := ra.ReadAt(make([]byte, 1), begin+e.FileSize-1); n != 1 {
+				if errors.Is(err, io.EOF) {
+					err = io.ErrUnexpectedEOF
+				}
+				return nil, fmt.Errorf("failed to read content of %s: %w", e.Filename, err)
+			}
+		}
+
 		e.data = func() io.Reader {
 			return io.NewSectionReader(ra, begin, e.FileSize)
 		}
-- 
2.43.0


From 59f28e14e947a1a44bcfd5a387e0f082af65355f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:46 +0000
Subject: [PATCH 14/52] fix: arfs: keep member names exact, a leading dot is
 part of the name

---
 arfs/arfs.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/arfs/arfs.go b/arfs/arfs.go
index 1f0aeef..1d175c6 100644
--- a/arfs/arfs.go
+++ b/arfs/arfs.go
@@ -183,7 +183,7 @@ func parseArEntry(line []byte) (*Entry, error) {
 	fileMode := (&tar.Header{Mode: int64(mode)}).FileInfo().Mode()
 
 	e := Entry{
-		Filename: sanitizePath(string(line[0:16])),
+		Filename: sanitizePath(strings.TrimRight(string(line[0:16]), " ")),
 		FileMode: fileMode,
 	}
 
@@ -225,7 +225,7 @@ func checkAr(ra io.ReaderAt) (int64, error) {
 }
 
 func sanitizePath(name string) string {
-	return strings.TrimPrefix(strings.TrimPrefix(filepath.Clean(filepath.ToSlash(strings.TrimSpace(name))), "."), "/")
+	return strings.TrimPrefix(filepath.Clean("/"+filepath.ToSlash(name)), "/")
 }
 
 type file struct {
-- 
2.43.0


From 1b25354060551426d55c79aefb07af74b5d1e106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:46 +0000
Subject: [PATCH 15/52] fix: arfs: do not list the nameless symbol table member

---
 arfs/arfs.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/arfs/arfs.go b/arfs/arfs.go
index 1d175c6..34eedad 100644
--- a/arfs/arfs.go
+++ b/arfs/arfs.go
@@ -107,6 +107,11 @@ func Open(ra io.ReaderAt) (*FS, error) {
 		}
 		offset += int64(n) + e.FileSize + (e.FileSize % 2)
 
+		// The symbol table is not a file (and would be listed as ".").
+		if e.Filename == "" {
+			continue
+		}
+
 		entries[e.Filename] = e
 	}
 
-- 
2.43.0


From df0da09b86bd714d792085624b08902fa1761ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:47 +0000
Subject: [PATCH 16/52] fix: arfs: refuse to create members whose name would be
 changed by padding

---
 arfs/create.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/arfs/create.go b/arfs/create.go
index a76be3d..c7bdb64 100644
--- a/arfs/create.go
+++ b/arfs/create.go
@@ -16,6 +16,7 @@ import (
 	"io"
 	"io/fs"
 	"strconv"
+	"strings"
 )
 
 // Create creates an ar(1) archive from the given filesystem.
@@ -70,6 +71,9 @@ func writeArHeader(w io.Writer, hdr *tar.Header) error {
 	if len(name) > 16 {
 		return fmt.Errorf("file name too long: %s", name)
 	}
+	if strings.HasSuffix(name, " ") {
+		return fmt.Errorf("file name ends with padding: %q", name)
+	}
 
 	// Construct the ar(1) header
 	arHeader := fmt.Sprintf(
-- 
2.43.0


From 19821f1bcbeacc492f2681e7654ca9c255c20457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:48 +0000
Subject: [PATCH 17/52] fix: arfs: refuse metadata that does not fit into the
 header fields

---
 arfs/create.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/arfs/create.go b/arfs/create.go
index c7bdb64..462d36f 100644
--- a/arfs/create.go
+++ b/arfs/create.go
@@ -86,6 +86,10 @@ func writeArHeader(w io.Writer, hdr *tar.Header) error {
 		fmt.Sprintf("%-10d", hdr.Size),
 	)
 
+	if len(arHeader) != 60 {
+		return fmt.Errorf("metadata of %s does not fit into the header", name)
+	}
+
 	// Write the ar header to the output
 	if _, err := io.WriteString(w, arHeader); err != nil {
 		return err
-- 
2.43.0


From 88c44fbee06f55a649462d72c927eecec249e927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:49 +0000
Subject: [PATCH 18/52] fix: arfs: fail creation if a file is not as long as
 its header says

---
 arfs/create.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/arfs/create.go b/arfs/create.go
index 462d36f..687b9a5 100644
--- a/arfs/create.go
+++ b/arfs/create.go
@@ -111,6 +111,9 @@ func writeArData(w io.Writer, src fs.FS, path string, size int64) error {
 	if err != nil {
 		return err
 	}
+	if n != size {
+		return fmt.Errorf("size of %s changed from %d to %d", path, size, n)
+	}
 
 	// Handle padding if the file size is odd (ar format requires even size)
 	if n%2 != 0 {
-- 
2.43.0


From 761cb443ea9a2864968cff3f314bfb53f580373b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:49 +0000
Subject: [PATCH 19/52] fix: arfs: keep the owners when copying from an ar
 archive

---
 arfs/create.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/arfs/create.go b/arfs/create.go
index 687b9a5..3ca0b0a 100644
--- a/arfs/create.go
+++ b/arfs/create.go
@@ -50,6 +50,10 @@ func Create(dst io.Writer, src fs.FS) error {
 			return err
 		}
 
+		if e, ok := fi.Sys().(*Entry); ok {
+			hdr.Uid, hdr.Gid = int(e.Uid), int(e.Gid)
+		}
+
 		// Write ar(1) header for the file
 		if err := writeArHeader(dst, hdr); err != nil {
 			return err
-- 
2.43.0


From d6d2a2a3f017783b830a0d6d584b59ab9e378a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:50 +0000
Subject: [PATCH 20/52] fix: arfs: refuse to create special files as regular
 members

---
 arfs/create.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/arfs/create.go b/arfs/create.go
index 3ca0b0a..edfe574 100644
--- a/arfs/create.go
+++ b/arfs/create.go
@@ -40,6 +40,10 @@ func Create(dst io.Writer, src fs.FS) error {
 			return errors.New("symlinks are not supported")
 		}
 
+		if !d.Type().IsRegular() {
+			return errors.New("special files are not supported")
+		}
+
 		fi, err := d.Info()
 		if err != nil {
 			return err
-- 
2.43.0


From 27f27b98cb3227ac965ac840901af2303db56d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:22 +0000
Subject: [PATCH 21/52] fix: tarfs: report failures to write the end of a
 created archive

---
 tarfs/create.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/tarfs/create.go b/tarfs/create.go
index b8a105e..7f00bb3 100644
--- a/tarfs/create.go
+++ b/tarfs/create.go
@@ -21,9 +21,8 @@ import (
 // Create creates a tar archive from the given filesystem.
 func Create(dst io.Writer, src fs.FS) error {
 	tw := tar.NewWriter(dst)
-	defer tw.Close()
 
-	return fs.WalkDir(src, ".", func(path string, d fs.DirEntry, err error) error {
+	err := fs.WalkDir(src, ".", func(path string, d fs.DirEntry, err error) error {
 		if err != nil {
 			return err
 		}
@@ -79,4 +78,10 @@ func Create(dst io.Writer, src fs.FS) error {
 
 		return nil
 	})
+	if err != nil {
+		return err
+	}
+
+	// Closing writes the end of the archive (and reports an incomplete last file).
+	return tw.Close()
 }
-- 
2.43.0


From a0e527f98504b062f9ce1087123cdbaaa156068e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:23 +0000
Subject: [PATCH 22/52] fix: tarfs: GNU sparse files are regular files

---
 tarfs/tarfs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tarfs/tarfs.go b/tarfs/tarfs.go
index 9e7e20e..b2ec80b 100644
--- a/tarfs/tarfs.go
+++ b/tarfs/tarfs.go
@@ -341,7 +341,7 @@ func (d *dirent) IsDir() bool {
 
 func (d *dirent) Type() fs.FileMode {
 	switch d.Typeflag {
-	case tar.TypeReg:
+	case tar.TypeReg, tar.TypeGNUSparse:
 		return 0
 	case tar.TypeSymlink:
 		return fs.ModeSymlink
-- 
2.43.0


From 6e52f523fbce17498836ea28efd135d9002108e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:23 +0000
Subject: [PATCH 23/52] fix: tarfs: keep the metadata of directories listed
 before their contents

---
 tarfs/tarfs.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tarfs/tarfs.go b/tarfs/tarfs.go
index b2ec80b..3fa0d6c 100644
--- a/tarfs/tarfs.go
+++ b/tarfs/tarfs.go
@@ -84,6 +84,10 @@ func Open(ra io.ReaderAt) (*FS, error) {
 		for dir := filepath.Dir(h.Name); dir != "." && dir != "/"; dir = filepath.Dir(dir) {
 			// Create a default directory entry if it doesn't exist.
 			// Don't worry if we see one later, we'll just overwrite it.
+			if existing, ok := dirents[dir]; ok && existing.IsDir() {
+				continue
+			}
+
 			dirents[dir] = &dirent{
 				Header: tar.Header{
 					Typeflag: tar.TypeDir,
-- 
2.43.0


From 61aa7273add9b0cc26e04b3756ca8b1d28f1495a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:24 +0000
Subject: [PATCH 24/52] fix: tarfs: keep names exact, leading dots and spaces
 are part of the name

---
 tarfs/tarfs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tarfs/tarfs.go b/tarfs/tarfs.go
index 3fa0d6c..48f47fe 100644
--- a/tarfs/tarfs.go
+++ b/tarfs/tarfs.go
@@ -285,7 +285,7 @@ func resolve(root *dirent, name string) (*dirent, error) {
 }
 
 func sanitizePath(name string) string {
-	return strings.TrimPrefix(strings.TrimPrefix(filepath.Clean(filepath.ToSlash(strings.TrimSpace(name))), "."), "/")
+	return strings.TrimPrefix(filepath.Clean("/"+filepath.ToSlash(name)), "/")
 }
 
 type file struct {
-- 
2.43.0


From 2568671fe2cb37cceb2c833b6bae876f8c008425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:25 +0000
Subject: [PATCH 25/52] fix: tarfs: do not panic opening the root or an implied
 directory

---
 tarfs/tarfs.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tarfs/tarfs.go b/tarfs/tarfs.go
index 48f47fe..a0302c7 100644
--- a/tarfs/tarfs.go
+++ b/tarfs/tarfs.go
@@ -157,6 +157,11 @@ func (fsys *FS) Open(name string) (fs.File, error) {
 		return nil, err
 	}
 
+	if d.data == nil {
+		// The root directory and implied directories have no entry of their own.
+		return &file{dirent: d, r: strings.NewReader("")}, nil
+	}
+
 	tr := tar.NewReader(d.data())
 	if _, err := tr.Next(); err != nil {
 		return nil, fmt.Errorf("failed to read file %s: %w", name, err)
-- 
2.43.0


From 29d2473a597341dcfa4bfb7dca851155f61ba007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:26 +0000
Subject: [PATCH 26/52] fix: tarfs: listing a file is an error, not an empty
 directory

---
 tarfs/tarfs.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tarfs/tarfs.go b/tarfs/tarfs.go
index a0302c7..4700dc1 100644
--- a/tarfs/tarfs.go
+++ b/tarfs/tarfs.go
@@ -176,6 +176,10 @@ func (fsys *FS) ReadDir(name string) ([]fs.DirEntry, error) {
 		return nil, err
 	}
 
+	if !d.IsDir() {
+		return nil, errors.New("not a directory")
+	}
+
 	var children []fs.DirEntry
 	for _, child := range d.children {
 		children = append(children, child)
-- 
2.43.0


From 52a3ef2eefcc14af92211d7b9a3635ecf1deaee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:31 +0000
Subject: [PATCH 27/52] fix: tarfs: resolve symbolic links as a Unix filesystem
 does

Relative targets and '..' start at the directory that holds the link,
absolute targets at the archive root, cycles are an error instead of a
stack overflow, and the root has link information too.
---
 tarfs/tarfs.go | 119 ++++++++++++++++++++++++++++++-------------------
 1 file changed, 73 insertions(+), 46 deletions(-)

diff --git a/tarfs/tarfs.go b/tarfs/tarfs.go
index 4700dc1..e78a174 100644
--- a/tarfs/tarfs.go
+++ b/tarfs/tarfs.go
@@ -29,6 +29,9 @@ var (
 	_ archivefs.ReadLinkFS = (*FS)(nil)
 )
 
+// maxSymlinks is the number of symbolic links followed while resolving a path.
+const maxSymlinks = 40
+
 type FS struct {
 	root dirent
 }
@@ -129,30 +132,36 @@ func Open(ra io.ReaderAt) (*FS, error) {
 
 	slices.Sort(paths)
 
-	root := dirent{
-		Header: tar.Header{
-			Typeflag: tar.TypeDir,
-			Name:     ".",
-			Mode:     0o755,
+	fsys := &FS{
+		root: dirent{
+			Header: tar.Header{
+				Typeflag: tar.TypeDir,
+				Name:     ".",
+				Mode:     0o755,
+			},
 		},
 	}
 
 	for _, path := range paths {
 		d := dirents[path]
 
-		dir, err := resolve(&root, filepath.Dir(path))
+		dir, err := resolve(&fsys.root, filepath.Dir(path), true)
 		if err != nil {
 			return nil, fmt.Errorf("failed to resolve directory %q: %w", filepath.Dir(path), err)
 		}
 
+		if !dir.IsDir() {
+			return nil, fmt.Errorf("failed to add %q: parent is not a directory", path)
+		}
+
 		dir.addChild(d)
 	}
 
-	return &FS{root: root}, nil
+	return fsys, nil
 }
 
 func (fsys *FS) Open(name string) (fs.File, error) {
-	d, err := resolve(&fsys.root, name)
+	d, err := resolve(&fsys.root, name, true)
 	if err != nil {
 		return nil, err
 	}
@@ -171,7 +180,7 @@ func (fsys *FS) Open(name string) (fs.File, error) {
 }
 
 func (fsys *FS) ReadDir(name string) ([]fs.DirEntry, error) {
-	d, err := resolve(&fsys.root, name)
+	d, err := resolve(&fsys.root, name, true)
 	if err != nil {
 		return nil, err
 	}
@@ -205,7 +214,7 @@ func (fsys *FS) Stat(name string) (fs.FileInfo, error) {
 		return d.Info()
 	}
 
-	d, err := resolve(&fsys.root, name)
+	d, err := resolve(&fsys.root, name, true)
 	if err != nil {
 		return nil, err
 	}
@@ -221,16 +230,11 @@ func (fsys *FS) Stat(name string) (fs.FileInfo, error) {
 // Experimental implementation of fs.ReadLinkFS:
 // https://github.com/golang/go/issues/49580
 func (fsys *FS) ReadLink(name string) (string, error) {
-	d, err := resolve(&fsys.root, filepath.Dir(name))
+	d, err := resolve(&fsys.root, name, false)
 	if err != nil {
 		return "", err
 	}
 
-	d, found := d.findChild(filepath.Base(name))
-	if !found {
-		return "", fs.ErrNotExist
-	}
-
 	if d.Type()&fs.ModeSymlink == 0 {
 		return "", fs.ErrInvalid
 	}
@@ -242,51 +246,71 @@ func (fsys *FS) ReadLink(name string) (string, error) {
 // Experimental implementation of fs.ReadLinkFS:
 // https://github.com/golang/go/issues/49580
 func (fsys *FS) StatLink(name string) (fs.FileInfo, error) {
-	d, err := resolve(&fsys.root, filepath.Dir(name))
+	d, err := resolve(&fsys.root, name, false)
 	if err != nil {
 		return nil, err
 	}
 
-	d, found := d.findChild(filepath.Base(name))
-	if !found {
-		return nil, fs.ErrNotExist
-	}
-
 	return d.Info()
 }
 
-func resolve(root *dirent, name string) (*dirent, error) {
+// resolve walks from the root to the named node, following symbolic links as a
+// Unix filesystem does. A link in the last position is only followed if followLast is set.
+func resolve(root *dirent, name string, followLast bool) (*dirent, error) {
 	d := root
+	links := 0
 
-	name = sanitizePath(name)
-	if name == "" {
-		return d, nil
-	}
+	remaining := sanitizePath(name)
+	for remaining != "" {
+		component, rest, more := strings.Cut(remaining, "/")
+		remaining = rest
 
-	for _, component := range strings.Split(name, "/") {
-		var found bool
-		d, found = d.findChild(component)
+		if !d.IsDir() {
+			return nil, fs.ErrNotExist
+		}
+
+		switch component {
+		case "", ".":
+			continue
+		case "..":
+			// The parent of the root is the root itself.
+			if d.parent != nil {
+				d = d.parent
+			}
+			continue
+		}
+
+		child, found := d.findChild(component)
 		if !found {
 			return nil, fs.ErrNotExist
 		}
 
-		if d.Type()&fs.ModeSymlink != 0 {
-			// Resolve the symlink.
-			target := d.Linkname
-
-			var err error
-			if !filepath.IsAbs(target) && d.parent != nil {
-				d, err = resolve(d.parent, target)
-				if err != nil {
-					return nil, err
-				}
-			} else {
-				// The target is an absolute path or the dirent is the root dirent.
-				d, err = resolve(root, target)
-				if err != nil {
-					return nil, err
-				}
+		if child.Type()&fs.ModeSymlink == 0 || (!more && !followLast) {
+			if more && !child.IsDir() {
+				return nil, fs.ErrNotExist
 			}
+
+			d = child
+			continue
+		}
+
+		if links++; links > maxSymlinks {
+			return nil, fmt.Errorf("failed to resolve %q: too many levels of symbolic links", name)
+		}
+
+		if child.Linkname == "" {
+			return nil, fs.ErrNotExist
+		}
+
+		// Absolute targets start at the root of the archive, any other at the
+		// directory holding the link (where we are).
+		if strings.HasPrefix(child.Linkname, "/") {
+			d = root
+		}
+
+		remaining = child.Linkname
+		if more {
+			remaining += "/" + rest
 		}
 	}
 
@@ -339,6 +363,9 @@ func (d *dirent) addChild(child *dirent) {
 	// do we already have a child with the same name?
 	if existing, ok := d.children[c.Name()]; ok {
 		c.children = existing.children
+		for _, grandchild := range c.children {
+			grandchild.parent = &c
+		}
 	}
 
 	d.children[c.Name()] = &c
-- 
2.43.0


From 536fee847d137639d22bb992b5e7021aaf4ffea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:32 +0000
Subject: [PATCH 28/52] fix: tarfs: keep symbolic link targets as recorded in
 the archive

A target beginning with './' is relative to the directory of the link.
---
 tarfs/tarfs.go | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/tarfs/tarfs.go b/tarfs/tarfs.go
index e78a174..0bc7532 100644
--- a/tarfs/tarfs.go
+++ b/tarfs/tarfs.go
@@ -75,14 +75,6 @@ func Open(ra io.ReaderAt) (*FS, error) {
 			continue
 		}
 
-		// Make archive relative paths absolute.
-		if h.Typeflag == tar.TypeSymlink {
-			if strings.HasPrefix(h.Linkname, "./") {
-				h.Linkname = strings.TrimPrefix(h.Linkname, ".")
-			}
-			h.Linkname = filepath.Clean(h.Linkname)
-		}
-
 		// Create a default directory entry for each parent directory.
 		for dir := filepath.Dir(h.Name); dir != "." && dir != "/"; dir = filepath.Dir(dir) {
 			// Create a default directory entry if it doesn't exist.
-- 
2.43.0


From 8535cc56df8a9636e0d4e1d614574dcd9820f1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:33 +0000
Subject: [PATCH 29/52] fix: tarfs: resolve chains of hard links whatever the
 map order, refuse cycles

---
 tarfs/tarfs.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/tarfs/tarfs.go b/tarfs/tarfs.go
index 0bc7532..4e71d5c 100644
--- a/tarfs/tarfs.go
+++ b/tarfs/tarfs.go
@@ -105,10 +105,20 @@ func Open(ra io.ReaderAt) (*FS, error) {
 	// Point hardlinks to the underlying dirent.
 	for path, d := range dirents {
 		if d.Typeflag == tar.TypeLink {
-			name := sanitizePath(d.Linkname)
-			target, ok := dirents[name]
-			if !ok {
-				return nil, fmt.Errorf("failed to resolve hardlink %q: %w", name, fs.ErrNotExist)
+			// Hardlinks may point to other hardlinks.
+			target := d
+			for hops := 0; target.Typeflag == tar.TypeLink; hops++ {
+				if hops > len(dirents) {
+					return nil, fmt.Errorf("failed to resolve hardlink %q: links to itself", path)
+				}
+
+				name := sanitizePath(target.Linkname)
+
+				var ok bool
+				target, ok = dirents[name]
+				if !ok {
+					return nil, fmt.Errorf("failed to resolve hardlink %q: %w", name, fs.ErrNotExist)
+				}
 			}
 
 			targetCopy := *target
-- 
2.43.0


From 5d97058f4c9c2c9c4e7eec900232497dac1a8440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:24 +0000
Subject: [PATCH 30/52] fix: erofs: do not write empty files in the inline
 layout, which readers refuse

---
 erofs/writer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/erofs/writer.go b/erofs/writer.go
index ff65dcd..800aaa2 100644
--- a/erofs/writer.go
+++ b/erofs/writer.go
@@ -105,7 +105,8 @@ func (w *writer) firstPass() (metaSize, dataSize int64, err error) {
 		}
 		_ = data.Close()
 
-		inlined := size <= MaxInlineDataSize
+		// There's nothing to inline in an empty file (and readers refuse an empty tail).
+		inlined := size > 0 && size <= MaxInlineDataSize
 		if inlined {
 			// if the size of the inode and data exceeds the block size, we need to
 			// pad to the next block boundary before inlining the data.
-- 
2.43.0


From 4fe9d41a80aef770af3a95276157cf446d168b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:25 +0000
Subject: [PATCH 31/52] fix: erofs: return inode errors instead of panicking

---
 erofs/erofs.go | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/erofs/erofs.go b/erofs/erofs.go
index 28998b3..7adaad5 100644
--- a/erofs/erofs.go
+++ b/erofs/erofs.go
@@ -241,7 +241,8 @@ type dirEntry struct {
 	typ           uint8
 	nid           uint64
 	readInodeOnce sync.Once
-	inode         *Inode
+	inode         Inode
+	inodeErr      error
 }
 
 func (de *dirEntry) Name() string {
@@ -295,14 +296,10 @@ func (de *dirEntry) lookup(name string) (*dirEntry, error) {
 
 func (de *dirEntry) getInode() (Inode, error) {
 	de.readInodeOnce.Do(func() {
-		ino, err := de.image.Inode(de.nid)
-		if err != nil {
-			panic(err)
-		}
-		de.inode = &ino
+		de.inode, de.inodeErr = de.image.Inode(de.nid)
 	})
 
-	return *de.inode, nil
+	return de.inode, de.inodeErr
 }
 
 type fileInfo struct {
-- 
2.43.0


From 06321a243b199fbb6db62530588a60d66dc3332c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:26 +0000
Subject: [PATCH 32/52] fix: erofs: write directories in byte order, with '.'
 and '..' referring to the right inodes

Names sorting before '.' could not be looked up, and every '.' and '..'
referred to the root.
---
 erofs/writer.go | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/erofs/writer.go b/erofs/writer.go
index 800aaa2..b73d9f8 100644
--- a/erofs/writer.go
+++ b/erofs/writer.go
@@ -19,6 +19,7 @@ import (
 	"math"
 	"os"
 	"path/filepath"
+	"sort"
 	"time"
 )
 
@@ -335,20 +336,28 @@ func (w *writer) dataForInode(path string, ino any) (io.ReadCloser, int64, error
 			return nil, 0, fmt.Errorf("failed to read directory entries: %w", err)
 		}
 
-		dirents := []Dirent{{FileType: uint8(fileTypeFromFileMode(fs.ModeDir))}}
-		names := []string{"."}
+		var dirents []Dirent
+		names := []string{".", ".."}
+		paths := map[string]string{".": path, "..": filepath.Dir(path)}
+		types := map[string]fs.FileMode{".": fs.ModeDir, "..": fs.ModeDir}
 
-		if path != "." {
-			dirents = append(dirents, Dirent{FileType: uint8(fileTypeFromFileMode(fs.ModeDir))})
-			names = append(names, "..")
+		for _, de := range entries {
+			if _, ok := paths[de.Name()]; ok {
+				return nil, 0, fmt.Errorf("duplicate directory entry %q", de.Name())
+			}
+
+			names = append(names, de.Name())
+			paths[de.Name()] = filepath.Clean(filepath.Join(path, de.Name()))
+			types[de.Name()] = de.Type()
 		}
 
-		for _, de := range entries {
-			path := filepath.Clean(filepath.Join(path, de.Name()))
+		// Readers look up names by binary search, "." and ".." are no exception.
+		sort.Strings(names)
 
-			ino, ok := w.inodes[path]
+		for _, name := range names {
+			ino, ok := w.inodes[paths[name]]
 			if !ok {
-				return nil, 0, fmt.Errorf("failed to find inode for path %q", path)
+				return nil, 0, fmt.Errorf("failed to find inode for path %q", paths[name])
 			}
 
 			var nid uint32
@@ -363,9 +372,8 @@ func (w *writer) dataForInode(path string, ino any) (io.ReadCloser, int64, error
 
 			dirents = append(dirents, Dirent{
 				Nid:      uint64(nid),
-				FileType: uint8(fileTypeFromFileMode(de.Type())),
+				FileType: uint8(fileTypeFromFileMode(types[name])),
 			})
-			names = append(names, de.Name())
 		}
 
 		buf, err := encodeDirents(dirents, names)
-- 
2.43.0


From 716d1ecf11fa9bd59cf3ca27ac8e647b477352a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:27 +0000
Subject: [PATCH 33/52] fix: erofs: do not count the padding of a directory
 block as part of its last name

---
 erofs/reader.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/erofs/reader.go b/erofs/reader.go
index e31e4a1..a970fbd 100644
--- a/erofs/reader.go
+++ b/erofs/reader.go
@@ -687,9 +687,13 @@ func (ino *Inode) getBlockDataInfo(blockIdx uint64) blockData {
 //
 // Refer: https://docs.kernel.org/filesystems/erofs.html#directories
 func (ino *Inode) getDirentName(d *Dirent, direntOff int64, block blockData, lastDirent bool) ([]byte, error) {
+	if uint32(d.NameOff) >= block.size {
+		return nil, errors.New("corrupted dirent")
+	}
 	var nameLen uint32
 	if lastDirent {
-		nameLen = block.size - uint32(d.NameOff)
+		// The rest of the block, which may be longer than the name (see below).
+		nameLen = min(block.size-uint32(d.NameOff), MaxNameLen+1)
 	} else {
 		next, err := ino.image.direntAt(direntOff + DirentSize)
 		if err != nil {
@@ -698,7 +702,7 @@ func (ino *Inode) getDirentName(d *Dirent, direntOff int64, block blockData, las
 
 		nameLen = uint32(next.NameOff - d.NameOff)
 	}
-	if uint32(d.NameOff)+nameLen > block.size || nameLen > MaxNameLen || nameLen == 0 {
+	if uint32(d.NameOff)+nameLen > block.size || (nameLen > MaxNameLen && !lastDirent) || nameLen == 0 {
 		return nil, errors.New("corrupted dirent")
 	}
 	name, err := ino.image.bytesAt(int64(block.base)+int64(d.NameOff), int64(nameLen))
@@ -714,6 +718,9 @@ func (ino *Inode) getDirentName(d *Dirent, direntOff int64, block blockData, las
 		if n != -1 {
 			name = name[:n]
 		}
+		if len(name) > MaxNameLen {
+			return nil, errors.New("corrupted dirent")
+		}
 	}
 	return name, nil
 }
-- 
2.43.0


From 174a8597034acb6b7dd4dd92233c9a0d1b4e5728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:28 +0000
Subject: [PATCH 34/52] fix: erofs: refuse to write names and link targets that
 cannot be read back

---
 erofs/reader.go | 3 +++
 erofs/writer.go | 8 ++++++++
 2 files changed, 11 insertions(+)

diff --git a/erofs/reader.go b/erofs/reader.go
index a970fbd..ccb135d 100644
--- a/erofs/reader.go
+++ b/erofs/reader.go
@@ -51,6 +51,9 @@ const (
 
 	// Max file name length.
 	MaxNameLen = 255
+
+	// Max symlink target length.
+	MaxLinkLen = 4095
 )
 
 // Bit definitions for Inode*::Format.
diff --git a/erofs/writer.go b/erofs/writer.go
index b73d9f8..1cb2fde 100644
--- a/erofs/writer.go
+++ b/erofs/writer.go
@@ -342,6 +342,10 @@ func (w *writer) dataForInode(path string, ino any) (io.ReadCloser, int64, error
 		types := map[string]fs.FileMode{".": fs.ModeDir, "..": fs.ModeDir}
 
 		for _, de := range entries {
+			if len(de.Name()) > MaxNameLen {
+				return nil, 0, fmt.Errorf("name too long: %q", de.Name())
+			}
+
 			if _, ok := paths[de.Name()]; ok {
 				return nil, 0, fmt.Errorf("duplicate directory entry %q", de.Name())
 			}
@@ -394,6 +398,10 @@ func (w *writer) dataForInode(path string, ino any) (io.ReadCloser, int64, error
 			return nil, 0, fmt.Errorf("failed to read symlink target: %w", err)
 		}
 
+		if len(target) > MaxLinkLen {
+			return nil, 0, fmt.Errorf("symlink target of %q is too long", path)
+		}
+
 		return io.NopCloser(bytes.NewReader([]byte(target))), int64(len(target)), nil
 
 	// TODO: device files, named pipes, sockets, etc.
-- 
2.43.0


From 6a7947f929d2f8bdaf0da5a6f41ea65c8ecdd30c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:29 +0000
Subject: [PATCH 35/52] fix: erofs: report setuid, setgid and sticky bits and
 the nanoseconds of times

---
 erofs/erofs.go  |  2 +-
 erofs/reader.go | 12 +++++++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/erofs/erofs.go b/erofs/erofs.go
index 7adaad5..7253a73 100644
--- a/erofs/erofs.go
+++ b/erofs/erofs.go
@@ -321,7 +321,7 @@ func (fi *fileInfo) Mode() fs.FileMode {
 }
 
 func (fi *fileInfo) ModTime() time.Time {
-	return time.Unix(int64(fi.inode.Mtime()), 0)
+	return time.Unix(int64(fi.inode.Mtime()), int64(fi.inode.MtimeNsec()))
 }
 
 func (fi *fileInfo) IsDir() bool {
diff --git a/erofs/reader.go b/erofs/reader.go
index ccb135d..8850996 100644
--- a/erofs/reader.go
+++ b/erofs/reader.go
@@ -582,11 +582,21 @@ func (ino *Inode) MtimeNsec() uint32 {
 func (ino *Inode) Mode() fs.FileMode {
 	mode := fs.FileMode(ino.mode) & fs.ModePerm
 
+	if ino.mode&S_ISUID != 0 {
+		mode |= fs.ModeSetuid
+	}
+	if ino.mode&S_ISGID != 0 {
+		mode |= fs.ModeSetgid
+	}
+	if ino.mode&S_ISVTX != 0 {
+		mode |= fs.ModeSticky
+	}
+
 	if ino.IsDir() {
 		mode |= fs.ModeDir
 	}
 	if ino.IsCharDev() {
-		mode |= fs.ModeCharDevice
+		mode |= fs.ModeDevice | fs.ModeCharDevice
 	}
 	if ino.IsBlockDev() {
 		mode |= fs.ModeDevice
-- 
2.43.0


From 31dad2109c62d868176f3b53f8eea16bca857e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:30 +0000
Subject: [PATCH 36/52] fix: erofs: do not write character devices and
 irregular files as regular files

---
 erofs/constants.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/erofs/constants.go b/erofs/constants.go
index 3e33128..afc5b0c 100644
--- a/erofs/constants.go
+++ b/erofs/constants.go
@@ -15,6 +15,7 @@ import (
 
 // Linux values for fs on-disk file types.
 const (
+	FT_UNKNOWN  = 0
 	FT_REG_FILE = 1
 	FT_DIR      = 2
 	FT_CHRDEV   = 3
@@ -32,14 +33,16 @@ func fileTypeFromFileMode(mode fs.FileMode) uint8 {
 		return FT_SYMLINK
 	case fs.ModeDevice:
 		return FT_BLKDEV
-	case fs.ModeCharDevice:
+	case fs.ModeDevice | fs.ModeCharDevice, fs.ModeCharDevice:
 		return FT_CHRDEV
 	case fs.ModeNamedPipe:
 		return FT_FIFO
 	case fs.ModeSocket:
 		return FT_SOCK
-	default:
+	case 0:
 		return FT_REG_FILE
+	default:
+		return FT_UNKNOWN
 	}
 }
 
@@ -68,13 +71,13 @@ func statModeFromFileMode(mode fs.FileMode) uint16 {
 		stMode |= S_IFLNK
 	case fs.ModeDevice:
 		stMode |= S_IFBLK
-	case fs.ModeCharDevice:
+	case fs.ModeDevice | fs.ModeCharDevice, fs.ModeCharDevice:
 		stMode |= S_IFCHR
 	case fs.ModeNamedPipe:
 		stMode |= S_IFIFO
 	case fs.ModeSocket:
 		stMode |= S_IFSOCK
-	default:
+	case 0:
 		stMode |= S_IFREG
 	}
 
-- 
2.43.0


From 5ff890a86558437bafec9dc12bb6e610d00ae44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:31 +0000
Subject: [PATCH 37/52] fix: erofs: keep owners when the source is an erofs
 filesystem, and large link counts

---
 erofs/owner_unix.go    | 6 ++++++
 erofs/owner_windows.go | 6 ++++++
 erofs/writer.go        | 2 +-
 3 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/erofs/owner_unix.go b/erofs/owner_unix.go
index 57ae752..d9b3d66 100644
--- a/erofs/owner_unix.go
+++ b/erofs/owner_unix.go
@@ -31,6 +31,12 @@ func getOwner(fi fs.FileInfo) (uid, gid int) {
 
 		uid = hdr.Uid
 		gid = hdr.Gid
+
+	case *Inode:
+		ino := fi.Sys().(*Inode)
+
+		uid = int(ino.UID())
+		gid = int(ino.GID())
 	}
 
 	return
diff --git a/erofs/owner_windows.go b/erofs/owner_windows.go
index d497daa..3d1fd19 100644
--- a/erofs/owner_windows.go
+++ b/erofs/owner_windows.go
@@ -24,6 +24,12 @@ func getOwner(fi fs.FileInfo) (uid, gid int) {
 
 		uid = hdr.Uid
 		gid = hdr.Gid
+
+	case *Inode:
+		ino := fi.Sys().(*Inode)
+
+		uid = int(ino.UID())
+		gid = int(ino.GID())
 	}
 
 	return
diff --git a/erofs/writer.go b/erofs/writer.go
index 1cb2fde..9b90d65 100644
--- a/erofs/writer.go
+++ b/erofs/writer.go
@@ -415,7 +415,7 @@ func toInode(fi fs.FileInfo, nlink int) any {
 	uid, gid := getOwner(fi)
 
 	// Can we use a compact inode?
-	compact := fi.Size() <= math.MaxUint32 &&
+	compact := fi.Size() <= math.MaxUint32 && nlink <= math.MaxUint16 &&
 		uid <= math.MaxUint16 && gid <= math.MaxUint16 &&
 		fi.ModTime() == time.Time{}
 
-- 
2.43.0


From fd7b03c4ba0c596bce19ed5289485ac3d5a7f0b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:25 +0000
Subject: [PATCH 38/52] fix: erofs: resolve symbolic links as a Unix filesystem
 does

Relative targets and '..' start at the directory that really holds the
link, links in leading directories are always followed, cycles are an
error instead of a stack overflow, and the root is named '.'.
---
 erofs/erofs.go | 94 ++++++++++++++++++++++++++++++++++----------------
 1 file changed, 64 insertions(+), 30 deletions(-)

diff --git a/erofs/erofs.go b/erofs/erofs.go
index 7253a73..0526fb8 100644
--- a/erofs/erofs.go
+++ b/erofs/erofs.go
@@ -27,6 +27,7 @@ package erofs
 
 import (
 	"errors"
+	"fmt"
 	"io"
 	"io/fs"
 	"path/filepath"
@@ -41,6 +42,9 @@ var (
 	_ fs.StatFS    = (*Filesystem)(nil)
 )
 
+// maxSymlinks is the number of symbolic links followed while resolving a path.
+const maxSymlinks = 40
+
 type Filesystem struct {
 	image *Image
 	root  *dirEntry
@@ -57,6 +61,7 @@ func Open(src io.ReaderAt) (*Filesystem, error) {
 		image: image,
 		root: &dirEntry{
 			image: image,
+			name:  ".",
 			nid:   image.RootNid(),
 			typ:   FT_DIR,
 		},
@@ -166,43 +171,82 @@ func (fsys *Filesystem) StatLink(name string) (fs.FileInfo, error) {
 	}, nil
 }
 
+// resolve walks from the root to the named node, following symbolic links as a
+// Unix filesystem does (a link in the last position only if it's to be resolved too).
 func (fsys *Filesystem) resolve(name string, noResolveLastSymlink bool) (*dirEntry, error) {
-	de := fsys.root
+	// The directories (and finally the node) walked through so far.
+	stack := []*dirEntry{fsys.root}
+	links := 0
+
+	remaining := filepath.ToSlash(name)
+	for remaining != "" {
+		comp, rest, more := strings.Cut(remaining, "/")
+		remaining = rest
+
+		de := stack[len(stack)-1]
+		ino, err := de.getInode()
+		if err != nil {
+			return nil, err
+		}
+		if !ino.IsDir() {
+			return nil, fs.ErrNotExist
+		}
+
+		switch comp {
+		case "", ".":
+			continue
+		case "..":
+			// The parent of the root is the root itself.
+			if len(stack) > 1 {
+				stack = stack[:len(stack)-1]
+			}
+			continue
+		}
 
-	components := splitPath(name)
-	for i, comp := range components {
 		child, err := de.lookup(comp)
 		if err != nil {
 			return nil, err
 		}
 
-		ino, err := child.getInode()
+		ino, err = child.getInode()
 		if err != nil {
 			return nil, err
 		}
 
-		if ino.IsSymlink() && !(noResolveLastSymlink && i == len(components)-1) {
-			link, err := ino.Readlink()
-			if err != nil {
-				return nil, err
+		if !ino.IsSymlink() || (noResolveLastSymlink && !more) {
+			if more && !ino.IsDir() {
+				return nil, fs.ErrNotExist
 			}
-			link = filepath.Clean(link)
 
-			if strings.HasPrefix(link, "/") {
-				link = strings.TrimPrefix(link, "/")
-			} else {
-				link = filepath.Join(strings.Join(components[:i], "/"), link)
-			}
+			stack = append(stack, child)
+			continue
+		}
 
-			child, err = fsys.resolve(link, noResolveLastSymlink)
-			if err != nil {
-				return nil, err
-			}
+		if links++; links > maxSymlinks {
+			return nil, fmt.Errorf("failed to resolve %q: too many levels of symbolic links", name)
 		}
 
-		de = child
+		link, err := ino.Readlink()
+		if err != nil {
+			return nil, err
+		}
+		if link == "" {
+			return nil, fs.ErrNotExist
+		}
+
+		// Absolute targets start at the root of the image, any other at the
+		// directory holding the link (where we are).
+		if strings.HasPrefix(link, "/") {
+			stack = stack[:1]
+		}
+
+		remaining = link
+		if more {
+			remaining += "/" + rest
+		}
 	}
-	return de, nil
+
+	return stack[len(stack)-1], nil
 }
 
 type file struct {
@@ -331,13 +375,3 @@ func (fi *fileInfo) IsDir() bool {
 func (fi *fileInfo) Sys() any {
 	return &fi.inode
 }
-
-func splitPath(path string) []string {
-	var components []string
-	for _, part := range strings.Split(filepath.ToSlash(path), "/") {
-		if part != "" {
-			components = append(components, part)
-		}
-	}
-	return components
-}
-- 
2.43.0


From d8b2cc95eb6f46acaa26b979d0079dbd0b144dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:26 +0000
Subject: [PATCH 39/52] fix: erofs: fail creation if content is not as long as
 the space laid out for it

---
 erofs/writer.go | 36 ++++++++++++++++++++++++++++++++++--
 1 file changed, 34 insertions(+), 2 deletions(-)

diff --git a/erofs/writer.go b/erofs/writer.go
index 9b90d65..17a195d 100644
--- a/erofs/writer.go
+++ b/erofs/writer.go
@@ -220,7 +220,7 @@ func (w *writer) writeMetadata(metaBlockAddr int64) error {
 			}
 
 			// Write the inlined data.
-			_, err = io.Copy(io.NewOffsetWriter(w.dst, off+int64(binary.Size(ino))), data)
+			err = copyExactly(io.NewOffsetWriter(w.dst, off+int64(binary.Size(ino))), data, inodeSize(ino))
 			_ = data.Close()
 			if err != nil {
 				return fmt.Errorf("failed to write inline data for %q: %w", path, err)
@@ -255,7 +255,7 @@ func (w *writer) writeData() error {
 			return fmt.Errorf("failed to get data for %q: %w", path, err)
 		}
 
-		_, err = io.Copy(io.NewOffsetWriter(w.dst, int64(rawBlockAddr)*BlockSize), data)
+		err = copyExactly(io.NewOffsetWriter(w.dst, int64(rawBlockAddr)*BlockSize), data, inodeSize(ino))
 		_ = data.Close()
 		if err != nil {
 			return fmt.Errorf("failed to write data for %q: %w", path, err)
@@ -527,6 +527,38 @@ func offsetToNID(metaOffset int64) (uint32, error) {
 	return nid, nil
 }
 
+// copyExactly copies all of src to dst, which must be size bytes.
+func copyExactly(dst io.Writer, src io.Reader, size int64) error {
+	n, err := io.Copy(dst, io.LimitReader(src, size))
+	if err != nil {
+		return err
+	}
+	if n < size {
+		return io.ErrUnexpectedEOF
+	}
+
+	// There must be nothing left.
+	switch _, err := io.ReadFull(src, make([]byte, 1)); err {
+	case io.EOF:
+		return nil
+	case nil:
+		return errors.New("content is longer than its stated size")
+	default:
+		return err
+	}
+}
+
+func inodeSize(ino any) int64 {
+	switch ino := ino.(type) {
+	case InodeCompact:
+		return int64(ino.Size)
+	case InodeExtended:
+		return int64(ino.Size)
+	default:
+		return 0
+	}
+}
+
 func isInlined(ino any) bool {
 	var format uint16
 	switch ino := ino.(type) {
-- 
2.43.0


From 2282f0544d641a2e60084819f79afc256bc15423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:27 +0000
Subject: [PATCH 40/52] fix: erofs: check the block size, which could make Open
 panic, and checksum the right range

---
 erofs/reader.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/erofs/reader.go b/erofs/reader.go
index 8850996..8ad9cde 100644
--- a/erofs/reader.go
+++ b/erofs/reader.go
@@ -46,6 +46,10 @@ const (
 	SuperBlockMagicV1 = 0xe0f5e1e2
 	SuperBlockOffset  = 1024
 
+	// Limits of the block size in bit shift.
+	MinBlockSizeBits = 9
+	MaxBlockSizeBits = 16
+
 	// Inode slot size in bit shift.
 	InodeSlotBits = 5
 
@@ -231,6 +235,10 @@ func (i *Image) initSuperBlock() error {
 		return fmt.Errorf("unknown magic: 0x%x", i.sb.Magic)
 	}
 
+	if i.sb.BlockSizeBits < MinBlockSizeBits || i.sb.BlockSizeBits > MaxBlockSizeBits {
+		return fmt.Errorf("unsupported block size bits: %d", i.sb.BlockSizeBits)
+	}
+
 	if err := i.verifyChecksum(); err != nil {
 		return err
 	}
@@ -259,8 +267,15 @@ func (i *Image) verifyChecksum() error {
 	table := crc32.MakeTable(crc32.Castagnoli)
 	checksum := crc32.Checksum(marshalledSb.Bytes(), table)
 
-	off := SuperBlockOffset + int64(binary.Size(i.sb))
-	if buf, err := i.bytesAt(off, int64(i.BlockSize())-off); err != nil {
+	// The checksum covers a block, up to its end if the superblock is within
+	// the first one. This matches Linux's behaviour in
+	// fs/erofs/super.c:erofs_superblock_csum_verify().
+	size := int64(i.BlockSize())
+	if size > SuperBlockOffset {
+		size -= SuperBlockOffset
+	}
+	sbSize := int64(binary.Size(i.sb))
+	if buf, err := i.bytesAt(SuperBlockOffset+sbSize, size-sbSize); err != nil {
 		return errors.New("image size is too small")
 	} else {
 		checksum = ^crc32.Update(checksum, table, buf)
-- 
2.43.0


From 1db54834afdf503680aeffd7b0e81d9a6049df96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:28 +0000
Subject: [PATCH 41/52] fix: erofs: refuse inodes with impossible sizes or
 inline data leaving their block

---
 erofs/reader.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/erofs/reader.go b/erofs/reader.go
index 8ad9cde..50b0235 100644
--- a/erofs/reader.go
+++ b/erofs/reader.go
@@ -39,6 +39,7 @@ import (
 	"hash/crc32"
 	"io"
 	"io/fs"
+	"math"
 )
 
 const (
@@ -377,6 +378,10 @@ func (i *Image) Inode(nid uint64) (Inode, error) {
 		nid:   nid,
 	}
 
+	if nid > uint64(math.MaxInt64-i.sb.MetaOffset())>>InodeSlotBits {
+		return Inode{}, fmt.Errorf("invalid inode number %d", nid)
+	}
+
 	off := i.sb.NidToOffset(nid)
 	if format, err := i.inodeFormatAt(off); err != nil {
 		return Inode{}, err
@@ -437,6 +442,9 @@ func (i *Image) Inode(nid uint64) (Inode, error) {
 	}
 
 	blockSize := int64(i.BlockSize())
+	if inode.size > uint64(math.MaxInt64-blockSize) {
+		return Inode{}, fmt.Errorf("invalid size at inode %d", nid)
+	}
 	inode.blocks = (int64(inode.size) + (blockSize - 1)) / blockSize
 
 	switch dataLayout := inode.DataLayout(); dataLayout {
@@ -444,7 +452,7 @@ func (i *Image) Inode(nid uint64) (Inode, error) {
 		// Check that whether the file data in the last block fits into
 		// the remaining room of the metadata block.
 		tailSize := int64(inode.size) & (blockSize - 1)
-		if tailSize == 0 || tailSize > blockSize-inodeSize {
+		if tailSize == 0 || tailSize > blockSize-(off+inodeSize)&(blockSize-1) {
 			return Inode{}, fmt.Errorf("inline data not found or cross block boundary at inode %d, tail size: %d",
 				nid, tailSize)
 		}
-- 
2.43.0


From f310382183179169334b2e60f4bcbef69b0d5979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:29 +0000
Subject: [PATCH 42/52] fix: erofs: report content and link targets cut short,
 accept io.EOF with a full read

Link targets were cut at the block size, and content at the end of the image.
---
 erofs/reader.go | 50 +++++++++++++++++++++++++++++++------------------
 1 file changed, 32 insertions(+), 18 deletions(-)

diff --git a/erofs/reader.go b/erofs/reader.go
index 50b0235..9a41e06 100644
--- a/erofs/reader.go
+++ b/erofs/reader.go
@@ -472,7 +472,7 @@ func (i *Image) Inode(nid uint64) (Inode, error) {
 // bytesAt returns the bytes at [off, off+n) of the image.
 func (i *Image) bytesAt(off, n int64) ([]byte, error) {
 	buf := make([]byte, n)
-	if _, err := i.src.ReadAt(buf, off); err != nil {
+	if read, err := i.src.ReadAt(buf, off); err != nil && !(err == io.EOF && read == len(buf)) {
 		return nil, err
 	}
 	return buf, nil
@@ -651,7 +651,10 @@ func (ino *Inode) GID() uint32 {
 func (ino *Inode) Data() (io.Reader, error) {
 	switch dataLayout := ino.DataLayout(); dataLayout {
 	case InodeDataLayoutFlatPlain:
-		return io.NewSectionReader(ino.image.src, int64(ino.dataOff), int64(ino.size)), nil
+		return &exactReader{
+			r: io.NewSectionReader(ino.image.src, int64(ino.dataOff), int64(ino.size)),
+			n: int64(ino.size),
+		}, nil
 
 	case InodeDataLayoutFlatInline:
 		readers := make([]io.Reader, 0, 2)
@@ -660,13 +663,32 @@ func (ino *Inode) Data() (io.Reader, error) {
 			readers = append(readers, io.NewSectionReader(ino.image.src, int64(ino.dataOff), int64(ino.size-idataSize)))
 		}
 		readers = append(readers, io.NewSectionReader(ino.image.src, int64(ino.idataOff), int64(idataSize)))
-		return io.MultiReader(readers...), nil
+		return &exactReader{r: io.MultiReader(readers...), n: int64(ino.size)}, nil
 
 	default:
 		return nil, errors.New("unsupported data layout")
 	}
 }
 
+// exactReader reads exactly n bytes from r, that r ends earlier is an error.
+type exactReader struct {
+	r io.Reader
+	n int64
+}
+
+func (er *exactReader) Read(p []byte) (int, error) {
+	if er.n <= 0 {
+		return 0, io.EOF
+	}
+
+	n, err := er.r.Read(p)
+	er.n -= int64(n)
+	if err == io.EOF && er.n > 0 {
+		err = io.ErrUnexpectedEOF
+	}
+	return n, err
+}
+
 // blockData represents the information of the data in a block.
 type blockData struct {
 	// base indicates the data offset within the image.
@@ -903,22 +925,14 @@ func (ino *Inode) Readlink() (string, error) {
 	if !ino.IsSymlink() {
 		return "", fs.ErrInvalid
 	}
-	off := int64(ino.dataOff)
-	size := int64(ino.size)
-	if ino.idataOff != 0 {
-		// Inline symlink data shouldn't cross block boundary.
-		if ino.blocks > 1 {
-			return "", fmt.Errorf("inline data cross block boundary at inode %d", ino.Nid())
-		}
-		off = int64(ino.idataOff)
-	} else {
-		// This matches Linux's behaviour in fs/namei.c:page_get_link() and
-		// include/linux/namei.h:nd_terminate_link().
-		if size > int64(ino.image.BlockSize())-1 {
-			size = int64(ino.image.BlockSize()) - 1
-		}
+	if ino.size > MaxLinkLen {
+		return "", fmt.Errorf("symlink target too long at inode %d", ino.Nid())
+	}
+	data, err := ino.Data()
+	if err != nil {
+		return "", err
 	}
-	target, err := ino.image.bytesAt(off, size)
+	target, err := io.ReadAll(data)
 	if err != nil {
 		return "", err
 	}
-- 
2.43.0


From 639d29280a4638cdbe5bb177731a602e6aa2ca94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:01 +0000
Subject: [PATCH 43/52] fix: erofs: do not continue with the inline tail when
 the blocks before it are missing

---
 erofs/reader.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/erofs/reader.go b/erofs/reader.go
index 9a41e06..fb3cfca 100644
--- a/erofs/reader.go
+++ b/erofs/reader.go
@@ -651,19 +651,16 @@ func (ino *Inode) GID() uint32 {
 func (ino *Inode) Data() (io.Reader, error) {
 	switch dataLayout := ino.DataLayout(); dataLayout {
 	case InodeDataLayoutFlatPlain:
-		return &exactReader{
-			r: io.NewSectionReader(ino.image.src, int64(ino.dataOff), int64(ino.size)),
-			n: int64(ino.size),
-		}, nil
+		return newExactReader(ino.image.src, ino.dataOff, int64(ino.size)), nil
 
 	case InodeDataLayoutFlatInline:
 		readers := make([]io.Reader, 0, 2)
 		idataSize := ino.size & (uint64(ino.image.BlockSize()) - 1)
 		if ino.size > idataSize {
-			readers = append(readers, io.NewSectionReader(ino.image.src, int64(ino.dataOff), int64(ino.size-idataSize)))
+			readers = append(readers, newExactReader(ino.image.src, ino.dataOff, int64(ino.size-idataSize)))
 		}
-		readers = append(readers, io.NewSectionReader(ino.image.src, int64(ino.idataOff), int64(idataSize)))
-		return &exactReader{r: io.MultiReader(readers...), n: int64(ino.size)}, nil
+		readers = append(readers, newExactReader(ino.image.src, ino.idataOff, int64(idataSize)))
+		return io.MultiReader(readers...), nil
 
 	default:
 		return nil, errors.New("unsupported data layout")
@@ -676,6 +673,10 @@ type exactReader struct {
 	n int64
 }
 
+func newExactReader(ra io.ReaderAt, off, n int64) *exactReader {
+	return &exactReader{r: io.NewSectionReader(ra, off, n), n: n}
+}
+
 func (er *exactReader) Read(p []byte) (int, error) {
 	if er.n <= 0 {
 		return 0, io.EOF
-- 
2.43.0


From 2a005b6311a74f2a380cda33dae82d3c0d51a6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:38 +0000
Subject: [PATCH 44/52] fix: arfs: refuse member names with a leading slash or
 dot segments instead of renaming them

---
 arfs/arfs.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/arfs/arfs.go b/arfs/arfs.go
index 34eedad..8b04459 100644
--- a/arfs/arfs.go
+++ b/arfs/arfs.go
@@ -87,7 +87,7 @@ func Open(ra io.ReaderAt) (*FS, error) {
 			return nil, err
 		}
 
-		if strings.Contains(e.Filename, "/") {
+		if strings.Contains(e.Filename, "/") || e.Filename == "." || e.Filename == ".." {
 			return nil, fmt.Errorf("invalid filename: %s", e.Filename)
 		}
 
@@ -188,7 +188,8 @@ func parseArEntry(line []byte) (*Entry, error) {
 	fileMode := (&tar.Header{Mode: int64(mode)}).FileInfo().Mode()
 
 	e := Entry{
-		Filename: sanitizePath(strings.TrimRight(string(line[0:16]), " ")),
+		// GNU ar ends names with a slash.
+		Filename: strings.TrimSuffix(strings.TrimRight(string(line[0:16]), " "), "/"),
 		FileMode: fileMode,
 	}
 
-- 
2.43.0


From af686bf497005bb2722e325723c5e705a06dcefb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:32 +0000
Subject: [PATCH 45/52] fix: erofs: look names up in directories stored at the
 very start of the image

---
 erofs/reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/erofs/reader.go b/erofs/reader.go
index fb3cfca..a80c07c 100644
--- a/erofs/reader.go
+++ b/erofs/reader.go
@@ -844,7 +844,7 @@ func (ino *Inode) Lookup(name string) (Dirent, error) {
 		}
 	}
 
-	if targetBlock.base == 0 {
+	if targetNumDirents == 0 {
 		// The target block was not found.
 		return Dirent{}, fs.ErrNotExist
 	}
-- 
2.43.0


From 56e640663f53f2e46f4f3eba061f1c528df3dba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:25 +0000
Subject: [PATCH 46/52] fix: erofs: a source without times reads as the epoch,
 whichever form its inodes take

---
 erofs/writer.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/erofs/writer.go b/erofs/writer.go
index 17a195d..6a1630f 100644
--- a/erofs/writer.go
+++ b/erofs/writer.go
@@ -417,7 +417,7 @@ func toInode(fi fs.FileInfo, nlink int) any {
 	// Can we use a compact inode?
 	compact := fi.Size() <= math.MaxUint32 && nlink <= math.MaxUint16 &&
 		uid <= math.MaxUint16 && gid <= math.MaxUint16 &&
-		fi.ModTime() == time.Time{}
+		fi.ModTime().IsZero()
 
 	if compact {
 		return InodeCompact{
@@ -429,14 +429,20 @@ func toInode(fi fs.FileInfo, nlink int) any {
 		}
 	}
 
+	// A source without times reads as the epoch, in the compact form as well.
+	mtime := fi.ModTime()
+	if mtime.IsZero() {
+		mtime = time.Unix(0, 0)
+	}
+
 	return InodeExtended{
 		Format:    setBits(0, InodeLayoutExtended, InodeLayoutBit, InodeLayoutBits),
 		Mode:      statModeFromFileMode(fi.Mode()),
 		Nlink:     uint32(nlink),
 		UID:       uint32(uid),
 		GID:       uint32(gid),
-		Mtime:     uint64(fi.ModTime().Unix()),
-		MtimeNsec: uint32(fi.ModTime().Nanosecond()),
+		Mtime:     uint64(mtime.Unix()),
+		MtimeNsec: uint32(mtime.Nanosecond()),
 	}
 }
 
-- 
2.43.0


From ece26061e92e12fb6856228af34b11e9b553b48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:26 +0000
Subject: [PATCH 47/52] fix: arfs: pad member names to 16 bytes, not 16
 characters

---
 arfs/create.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/arfs/create.go b/arfs/create.go
index edfe574..f922e64 100644
--- a/arfs/create.go
+++ b/arfs/create.go
@@ -84,9 +84,10 @@ func writeArHeader(w io.Writer, hdr *tar.Header) error {
 	}
 
 	// Construct the ar(1) header
+	// (the width of a field is in bytes, that of a verb in characters).
 	arHeader := fmt.Sprintf(
-		"%-16s%-12s%-6s%-6s%-8s%-10s`\n",
-		name,
+		"%s%-12s%-6s%-6s%-8s%-10s`\n",
+		name+strings.Repeat(" ", 16-len(name)),
 		strconv.Itoa(int(hdr.ModTime.Unix())),
 		strconv.Itoa(hdr.Uid),
 		strconv.Itoa(hdr.Gid),
-- 
2.43.0


From cd3b25e468c88a641c7cc9f198eca054aa3da243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:19 +0000
Subject: [PATCH 48/52] fix: erofs: declare the superblock checksum, a torn
 superblock must not be accepted

---
 erofs/writer.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/erofs/writer.go b/erofs/writer.go
index 6a1630f..3ec76b0 100644
--- a/erofs/writer.go
+++ b/erofs/writer.go
@@ -71,6 +71,7 @@ func (w *writer) write() error {
 
 	sb := SuperBlock{
 		Magic:         SuperBlockMagicV1,
+		FeatureCompat: FeatureCompatSuperBlockChecksum,
 		BlockSizeBits: BlockSizeBits,
 		Inodes:        uint64(len(w.inodes)),
 		Blocks:        uint32(1 + (metaSize+dataSize)/BlockSize),
@@ -82,7 +83,16 @@ func (w *writer) write() error {
 		return fmt.Errorf("failed to calculate superblock checksum: %w", err)
 	}
 
-	if err := binary.Write(io.NewOffsetWriter(w.dst, SuperBlockOffset), binary.LittleEndian, &sb); err != nil {
+	// The checksum covers the remainder of the block too.
+	var block bytes.Buffer
+	if err := binary.Write(&block, binary.LittleEndian, &sb); err != nil {
+		return fmt.Errorf("failed to encode superblock: %w", err)
+	}
+	if _, err := block.Write(make([]byte, BlockSize-SuperBlockOffset-block.Len())); err != nil {
+		return fmt.Errorf("failed to encode superblock: %w", err)
+	}
+
+	if _, err := w.dst.WriteAt(block.Bytes(), SuperBlockOffset); err != nil {
 		return fmt.Errorf("failed to write superblock: %w", err)
 	}
 
-- 
2.43.0


From af9bdb317d5ea216d115c4f10894da6ef402cc85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:29 +0000
Subject: [PATCH 49/52] fix: erofs: directories are recognised by their inode,
 whatever the type in the directory entry

---
 erofs/erofs.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/erofs/erofs.go b/erofs/erofs.go
index 0526fb8..e600318 100644
--- a/erofs/erofs.go
+++ b/erofs/erofs.go
@@ -294,7 +294,9 @@ func (de *dirEntry) Name() string {
 }
 
 func (de *dirEntry) IsDir() bool {
-	return de.typ == FT_DIR
+	// The type in the directory entry is only a hint and may be unknown.
+	ino, err := de.getInode()
+	return err == nil && ino.IsDir()
 }
 
 func (de *dirEntry) Type() fs.FileMode {
-- 
2.43.0


From b9911269b2e5e4857e95a7e1ed5f3f1c3879e370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:30 +0000
Subject: [PATCH 50/52] fix: tarfs: file type bits in a mode do not override
 the type of an entry

---
 tarfs/tarfs.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tarfs/tarfs.go b/tarfs/tarfs.go
index 4e71d5c..c51f426 100644
--- a/tarfs/tarfs.go
+++ b/tarfs/tarfs.go
@@ -70,6 +70,9 @@ func Open(ra io.ReaderAt) (*FS, error) {
 
 		h.Name = sanitizePath(h.Name)
 
+		// The kind of an entry is told by its type flag alone.
+		h.Mode &= 0o7777
+
 		// there might be a junk root entry.
 		if h.Name == "" {
 			continue
-- 
2.43.0


From e165cefb42cb897a757583738eccb828a5675971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:31 +0000
Subject: [PATCH 51/52] fix: arfs: members are regular files whatever the type
 bits in their mode

---
 arfs/arfs.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/arfs/arfs.go b/arfs/arfs.go
index 8b04459..dc3f062 100644
--- a/arfs/arfs.go
+++ b/arfs/arfs.go
@@ -185,7 +185,8 @@ func parseArEntry(line []byte) (*Entry, error) {
 	}
 
 	// The tar package has a handy conversion function for the unix file mode bits.
-	fileMode := (&tar.Header{Mode: int64(mode)}).FileInfo().Mode()
+	// Members are regular files, whatever type bits their mode has.
+	fileMode := (&tar.Header{Mode: int64(mode & 0o7777)}).FileInfo().Mode()
 
 	e := Entry{
 		// GNU ar ends names with a slash.
-- 
2.43.0


From 0a152fecaeca3af25dbe8c97fd6e563ff0c9f445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:49 +0000
Subject: [PATCH 52/52] fix: refuse names with NUL bytes when creating EROFS
 images

---
 erofs/writer.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/erofs/writer.go b/erofs/writer.go
index 3ec76b0..43af079 100644
--- a/erofs/writer.go
+++ b/erofs/writer.go
@@ -20,6 +20,7 @@ import (
 	"os"
 	"path/filepath"
 	"sort"
+	"strings"
 	"time"
 )
 
@@ -356,6 +357,11 @@ func (w *writer) dataForInode(path string, ino any) (io.ReadCloser, int64, error
 				return nil, 0, fmt.Errorf("name too long: %q", de.Name())
 			}
 
+			// The last name of a block ends where its padding starts.
+			if strings.IndexByte(de.Name(), 0) != -1 {
+				return nil, 0, fmt.Errorf("name contains a NUL byte: %q", de.Name())
+			}
+
 			if _, ok := paths[de.Name()]; ok {
 				return nil, 0, fmt.Errorf("duplicate directory entry %q", de.Name())
 			}
-- 
2.43.0

