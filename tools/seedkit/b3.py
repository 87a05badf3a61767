import sys; sys.path.insert(0,'/tmp/seed')
from mk import mk
from lib import go, WAT
A="github.com/dpeckett/archivefs/"
mk("mem-lazy-open","M02","a file overwritten after it was opened and before it was first read",
 "an open file takes its content at the first read instead of when it was opened",
 [("memfs/memfs.go","			content: bytes.NewBuffer(cc.content.Bytes()),\n","			content: nil, // Loaded by the first read.\n			load:    rootFS.loader(name),\n"),
  ("memfs/memfs.go","	closed  bool\n}\n","	closed  bool\n	load    func() *bytes.Buffer\n}\n\n// loader returns a function that gets at the content of the named file.\nfunc (rootFS *FS) loader(name string) func() *bytes.Buffer {\n	return func() *bytes.Buffer {\n		if f, err := rootFS.get(name); err == nil {\n			return bytes.NewBuffer(f.(*File).content.Bytes())\n		}\n		return new(bytes.Buffer)\n	}\n}\n"),
  ("memfs/memfs.go","	return f.content.Read(b)\n","	if f.content == nil {\n		f.content = f.load()\n	}\n	return f.content.Read(b)\n")],
 go(["io",A+"memfs"],'''
func main() {
	fsys := memfs.New()
	must(fsys.WriteFile("a", []byte("before"), 0o644))
	f, err := fsys.Open("a")
	must(err)
	must(fsys.WriteFile("a", []byte("after"), 0o644))
	b, err := io.ReadAll(f)
	must(err)
	if string(b) != "before" {
		fail("read %q", b)
	}
}
'''))
mk("mem-page-end","M03","a directory read in pages",
 "paging never reports the end of the directory",
 [("memfs/memfs.go","	if n <= 0 {\n","	if n <= 0 || n > len(d.entries) {\n")],
 go(["io","io/fs",A+"memfs"],'''
func main() {
	fsys := memfs.New()
	for _, n := range []string{"a", "b", "c"} {
		must(fsys.WriteFile(n, nil, 0o644))
	}
	f, err := fsys.Open(".")
	must(err)
	for i := 0; i < 10; i++ {
		l, err := f.(fs.ReadDirFile).ReadDir(2)
		if err == io.EOF {
			return
		}
		if err == nil && len(l) == 0 {
			fail("no entries and no end")
		}
	}
	fail("no end")
}
'''))
mk("mem-mkdir-perm","M01","creating directories below one that exists, with other permissions",
 "MkdirAll changes the permissions of directories that already exist",
 [("memfs/memfs.go","			next = childDir\n","			childDir.perm = perm\n			next = childDir\n"),
  ("memfs/memfs.go","			if !ok {\n				cur.mu.Unlock()\n				return fmt.Errorf(\"not a directory: %s: %w\", part, fs.ErrInvalid)\n			}\n","			if !ok {\n				cur.mu.Unlock()\n				return fmt.Errorf(\"%s is not a directory: %w\", part, fs.ErrInvalid)\n			}\n")],
 go(["io/fs",A+"memfs"],'''
func main() {
	fsys := memfs.New()
	must(fsys.MkdirAll("a", 0o700))
	must(fsys.MkdirAll("a/b", 0o755))
	fi, err := fs.Stat(fsys, "a")
	must(err)
	if fi.Mode().Perm() != 0o700 {
		fail("a has become %v", fi.Mode())
	}
}
'''))
mk("mem-write-race","M04","MkdirAll and WriteFile of the same path at the same time",
 "WriteFile looks at what exists and replaces it in two steps, so a directory created in between disappears",
 [("memfs/memfs.go","	dir.mu.Lock()\n	defer dir.mu.Unlock()\n	existing := dir.children[filePart]\n","	dir.mu.Lock()\n	existing := dir.children[filePart]\n	dir.mu.Unlock()\n"),
  ("memfs/memfs.go","	// Once published the file may be read concurrently, so it must be complete.\n","	dir.mu.Lock()\n	defer dir.mu.Unlock()\n\n	// Once published the file may be read concurrently, so it must be complete.\n")],
 go(["sync","fmt2 "*0 or "strconv",A+"memfs"],'''
func main() {
	for i := 0; i < 30000; i++ {
		fsys := memfs.New()
		p := "d" + strconv.Itoa(i)
		var wg sync.WaitGroup
		var werr, merr error
		start := make(chan bool)
		wg.Add(2)
		go func() { defer wg.Done(); <-start; werr = fsys.WriteFile(p, make([]byte, 2000), 0o644) }()
		go func() { defer wg.Done(); <-start; merr = fsys.MkdirAll(p, 0o755) }()
		close(start)
		wg.Wait()
		if werr == nil && merr == nil {
			fail("%s was created as a file and as a directory", p)
		}
	}
}
'''))
mk("erofs-nameoff0","E07","an image whose directory block claims to hold no entries",
 "a directory whose first name offset is too small reads as one without the name instead of as corrupt",
 [("erofs/reader.go","	if d0.NameOff < uint16(DirentSize) || uint32","	if d0.NameOff == 0 || uint32")],
 go(["bytes","errors","io/fs",A+"erofs",A+"memfs"],WAT+'''
func main() {
	src := memfs.New()
	must(src.WriteFile("aa", nil, 0o644))
	var w wat
	must(erofs.Create(&w, src))
	off := bytes.Index(w.b, []byte("...aa"))
	if off < 0 {
		fail("no directory")
	}
	w.b[off-36+8] = 8 // The name offset of the first entry.
	fsys, err := erofs.Open(bytes.NewReader(w.b))
	must(err)
	if _, err := fsys.Open("aa"); err == nil || errors.Is(err, fs.ErrNotExist) {
		fail("a corrupt directory was searched: %v", err)
	}
}
'''))
mk("erofs-compact-nsec","E02","an image with compact inodes whose build time has a fraction of a second",
 "the times of compact inodes lack the fraction of the image's build time",
 [("erofs/reader.go","		inode.mtimeNsec = i.sb.BuildTimeNsec\n","")],
 go(["bytes",A+"erofs",A+"memfs"],WAT+'''
func main() {
	src := memfs.New()
	must(src.WriteFile("a", nil, 0o644))
	var w wat
	must(erofs.Create(&w, src))
	w.b[1024+8] &^= 1 // Not checksummed.
	w.b[1024+24] = 5  // Build time.
	w.b[1024+32] = 7
	fsys, err := erofs.Open(bytes.NewReader(w.b))
	must(err)
	fi, err := fsys.Stat("a")
	must(err)
	if fi.ModTime().UnixNano() != 5000000007 {
		fail("%v", fi.ModTime().UnixNano())
	}
}
'''))
mk("erofs-single-dirent","E01","a directory whose last block holds a single name",
 "the name of a block with a single entry is taken to end at the next entry",
 [("erofs/reader.go","getDirentName(d0, int64(block.base), block, numDirents == 1)","getDirentName(d0, int64(block.base), block, numDirents == 1 && ino.blocks == 1)")],
 go(["bytes","fmt2 "*0 or "strings",A+"erofs",A+"memfs"],WAT+'''
func main() {
	for n := 1; n < 60; n++ {
		src := memfs.New()
		var names []string
		for i := 0; i < n; i++ {
			name := fmt.Sprintf("%03d%s", i, strings.Repeat("x", 200))
			names = append(names, name)
			must(src.WriteFile(name, nil, 0o644))
		}
		var w wat
		must(erofs.Create(&w, src))
		fsys, err := erofs.Open(bytes.NewReader(w.b))
		must(err)
		for _, name := range names {
			if _, err := fsys.Stat(name); err != nil {
				fail("%d: %s: %v", n, name[:4], err)
			}
		}
	}
}
'''))
mk("erofs-gid-wide","E05","a file without times whose group does not fit into 16 bits while its user does",
 "the group of such a file is cut to 16 bits",
 [("erofs/writer.go","		uid <= math.MaxUint16 && gid <= math.MaxUint16 &&\n","		uid <= math.MaxUint16 && (gid <= math.MaxUint16 || uid > 0) &&\n")],
 go(["archive/tar","bytes","time",A+"erofs","io/fs"],WAT+'''
type node struct{ dir bool }

func (n node) Name() string {
	if n.dir {
		return "."
	}
	return "a"
}
func (n node) Size() int64        { return 0 }
func (n node) ModTime() time.Time { return time.Time{} }
func (n node) IsDir() bool        { return n.dir }
func (n node) Sys() any           { return &tar.Header{Uid: 7, Gid: 70000} }
func (n node) Mode() fs.FileMode {
	if n.dir {
		return fs.ModeDir | 0o755
	}
	return 0o644
}
func (n node) Stat() (fs.FileInfo, error) { return n, nil }
func (n node) Read([]byte) (int, error)   { return 0, fmt.Errorf("EO%s", "F") }
func (n node) Close() error               { return nil }

type file struct {
	node
	*bytes.Reader
}

func (f file) Read(p []byte) (int, error) { return f.Reader.Read(p) }
func (f file) Size() int64                { return 0 }

type src struct{}

func (src) Open(name string) (fs.File, error) {
	return file{node{name == "."}, bytes.NewReader(nil)}, nil
}
func (src) ReadDir(name string) ([]fs.DirEntry, error) {
	return []fs.DirEntry{fs.FileInfoToDirEntry(node{})}, nil
}

func main() {
	var w wat
	must(erofs.Create(&w, src{}))
	fsys, err := erofs.Open(bytes.NewReader(w.b))
	must(err)
	fi, err := fsys.Stat("a")
	must(err)
	ino := fi.Sys().(*erofs.Inode)
	if ino.UID() != 7 || ino.GID() != 70000 {
		fail("%d:%d", ino.UID(), ino.GID())
	}
}
'''))
mk("ar-pad-error","X01","a destination that fails exactly at the padding of a member",
 "an error of the destination at a padding byte is dropped",
 [("arfs/create.go","		if _, err := io.WriteString(w, \"\\n\"); err != nil {\n			return err\n		}\n	}\n\n	return nil","		_, _ = io.WriteString(w, \"\\n\")\n	}\n\n	return nil")],
 go(["errors",A+"arfs",A+"memfs"],'''
type limited struct{ n int }

func (l *limited) Write(p []byte) (int, error) {
	if len(p) > l.n {
		n := l.n
		l.n = 0
		return n, errors.New("no space left")
	}
	l.n -= len(p)
	return len(p), nil
}

func main() {
	src := memfs.New()
	must(src.WriteFile("a", []byte("abc"), 0o644))
	for n := 0; n < 8+60+4; n++ {
		if err := arfs.Create(&limited{n}, src); err == nil {
			fail("success with room for %d bytes", n)
		}
	}
	must(arfs.Create(&limited{8 + 60 + 4}, src))
}
'''))
mk("tar-grown-file","X01","a source file with more content than its stated size",
 "a file that has grown is archived without its end, and without an error",
 [("tarfs/create.go","		_ = f.Close()\n		if err != nil {\n			return err\n		}\n","		_ = f.Close()\n		if err != nil && !errors.Is(err, tar.ErrWriteTooLong) {\n			return err\n		}\n")],
 go(["bytes","io/fs","testing/fstest",A+"tarfs"],'''
type grown struct{ fstest.MapFS }
type entry struct{ fs.DirEntry }
type info struct{ fs.FileInfo }

func (i info) Size() int64 { return 2 }
func (e entry) Info() (fs.FileInfo, error) {
	fi, err := e.DirEntry.Info()
	return info{fi}, err
}
func (g grown) ReadDir(name string) ([]fs.DirEntry, error) {
	l, err := g.MapFS.ReadDir(name)
	for i := range l {
		l[i] = entry{l[i]}
	}
	return l, err
}

func main() {
	var b bytes.Buffer
	if err := tarfs.Create(&b, grown{fstest.MapFS{"a": {Data: []byte("abc")}}}); err == nil {
		fail("a file that is longer than it should be was archived")
	}
}
'''))
mk("erofs-skip-gone","X01","a source whose entry cannot be described because it is gone",
 "entries whose information is not available are silently left out of the image",
 [("erofs/writer.go","		fi, err := d.Info()\n		if err != nil {\n			return err\n		}\n","		fi, err := d.Info()\n		if errors.Is(err, fs.ErrNotExist) && path != \".\" {\n			w.gone[path] = true\n			return nil\n		}\n		if err != nil {\n			return err\n		}\n"),
  ("erofs/writer.go","	inodeOrder []string\n","	inodeOrder []string\n	gone       map[string]bool\n"),
  ("erofs/writer.go","	w.inodes = map[string]any{}\n","	w.inodes = map[string]any{}\n	w.gone = map[string]bool{}\n"),
  ("erofs/writer.go","		for _, de := range entries {\n","		for _, de := range entries {\n			if w.gone[filepath.Join(path, de.Name())] {\n				continue\n			}\n\n")],
 go(["io/fs","testing/fstest",A+"erofs"],WAT+'''
type gone struct{ fstest.MapFS }
type entry struct{ fs.DirEntry }

func (e entry) Info() (fs.FileInfo, error) {
	if e.Name() == "b" {
		return nil, fs.ErrNotExist
	}
	return e.DirEntry.Info()
}
func (g gone) ReadDir(name string) ([]fs.DirEntry, error) {
	l, err := g.MapFS.ReadDir(name)
	for i := range l {
		l[i] = entry{l[i]}
	}
	return l, err
}

func main() {
	if err := erofs.Create(new(wat), gone{fstest.MapFS{"a": {}, "b": {}}}); err == nil {
		fail("an entry was left out")
	}
}
'''))
mk("tar-stat-rename","X02","a Stat through a symbolic link before another view of the link's target",
 "Stat renames the shared node, so later callers see the name another caller used",
 [("tarfs/tarfs.go","	renamed := *d\n	renamed.Header.Name = name\n\n	return renamed.Info()","	d.Header.Name = name\n\n	return d.Info()")],
 go(["archive/tar","bytes",A+"tarfs"],'''
func main() {
	var b bytes.Buffer
	w := tar.NewWriter(&b)
	must(w.WriteHeader(&tar.Header{Typeflag: tar.TypeReg, Name: "a", Mode: 0o644}))
	must(w.WriteHeader(&tar.Header{Typeflag: tar.TypeSymlink, Name: "l", Linkname: "a"}))
	must(w.Close())
	fsys, err := tarfs.Open(bytes.NewReader(b.Bytes()))
	must(err)
	_, err = fsys.Stat("l")
	must(err)
	l, err := fsys.ReadDir(".")
	must(err)
	if l[0].Name() != "a" || l[1].Name() != "l" {
		fail("%v", l)
	}
}
'''))
mk("tar-create-utf8","X03","a name that is not valid UTF-8",
 "such names are changed when a tar archive is created",
 [("tarfs/create.go","		hdr.Name = path\n","		hdr.Name = strings.ToValidUTF8(path, \"\\uFFFD\")\n"),("tarfs/create.go",'	"io/fs"\n','	"io/fs"\n	"strings"\n')],
 go(["archive/tar","bytes",A+"tarfs"],'''
func main() {
	var b, c bytes.Buffer
	tw := tar.NewWriter(&b)
	must(tw.WriteHeader(&tar.Header{Typeflag: tar.TypeReg, Name: "a\\xff", Mode: 0o644}))
	must(tw.Close())
	src, err := tarfs.Open(bytes.NewReader(b.Bytes()))
	must(err)
	must(tarfs.Create(&c, src))
	fsys, err := tarfs.Open(bytes.NewReader(c.Bytes()))
	must(err)
	l, err := fsys.ReadDir(".")
	must(err)
	if len(l) != 1 || l[0].Name() != "a\\xff" {
		fail("%q", l[0].Name())
	}
}
'''))
mk("tar-now","X07","a source without modification times",
 "files without a time get that of the moment of the archive's creation",
 [("tarfs/create.go","		hdr.Name = path\n","		hdr.Name = path\n		if fi.ModTime().IsZero() {\n			hdr.ModTime = time.Now()\n		}\n"),("tarfs/create.go",'	"io/fs"\n','	"io/fs"\n	"time"\n'),
  ("tarfs/create.go","		// There's an implicit root directory in a tar archive, so we don't need to\n		// write it (and it can confuse unarchivers).\n","		// There's an implicit root directory in a tar archive, so we needn't\n		// write it (and it can confuse unarchivers).\n")],
 go(["bytes","time",A+"tarfs",A+"memfs"],'''
func main() {
	src := memfs.New()
	must(src.WriteFile("a", nil, 0o644))
	var a, b bytes.Buffer
	must(tarfs.Create(&a, src))
	time.Sleep(1100 * time.Millisecond)
	must(tarfs.Create(&b, src))
	if !bytes.Equal(a.Bytes(), b.Bytes()) {
		fail("the archives differ")
	}
}
'''))
LEAK='''
type tracked struct {
	fs.FS
	open int
}
type tfile struct {
	fs.File
	t *tracked
}
type tdir struct {
	fs.ReadDirFile
	t *tracked
}

func (f tfile) Close() error { f.t.open--; return f.File.Close() }
func (f tdir) Close() error  { f.t.open--; return f.ReadDirFile.Close() }
func (t *tracked) Open(name string) (fs.File, error) {
	f, err := t.FS.Open(name)
	if err != nil {
		return nil, err
	}
	t.open++
	if d, ok := f.(fs.ReadDirFile); ok {
		return tdir{d, t}, nil
	}
	return tfile{f, t}, nil
}
'''
mk("erofs-leak-data","X08","a destination or source that fails while the content of a larger file is written",
 "the source file is left open when writing its content fails",
 [("erofs/writer.go","		_ = data.Close()\n		if err != nil {\n			return fmt.Errorf(\"failed to write data for %q: %w\", path, err)\n		}\n","		if err != nil {\n			return fmt.Errorf(\"failed to write data for %q: %w\", path, err)\n		}\n		_ = data.Close()\n")],
 go(["errors","io/fs","testing/fstest",A+"erofs"],LEAK+'''
type limited struct{ end int64 }

func (l limited) WriteAt(p []byte, off int64) (int, error) {
	if off+int64(len(p)) > l.end {
		return 0, errors.New("no space left")
	}
	return len(p), nil
}

func main() {
	for end := int64(0); end < 40000; end += 512 {
		t := &tracked{FS: fstest.MapFS{"a": {Data: make([]byte, 20000)}, "b": {Data: []byte("x")}}}
		_ = erofs.Create(limited{end}, t)
		if t.open != 0 {
			fail("%d files left open", t.open)
		}
	}
}
'''))
mk("ar-leak","X08","a destination that fails while the content of a member is written",
 "the source file is left open when writing its content fails",
 [("arfs/create.go","	defer file.Close()\n\n",""),("arfs/create.go","	n, err := io.Copy(w, file)\n	if err != nil {\n		return err\n	}\n","	n, err := io.Copy(w, file)\n	if err != nil {\n		return err\n	}\n	if err := file.Close(); err != nil {\n		return err\n	}\n")],
 go(["errors","io/fs","testing/fstest",A+"arfs"],LEAK+'''
type limited struct{ n int }

func (l *limited) Write(p []byte) (int, error) {
	if l.n -= len(p); l.n < 0 {
		return 0, errors.New("no space left")
	}
	return len(p), nil
}

func main() {
	for n := 0; n < 200; n++ {
		t := &tracked{FS: fstest.MapFS{"a": {Data: []byte("xyz")}, "b": {Data: []byte("x")}}}
		_ = arfs.Create(&limited{n}, t)
		if t.open != 0 {
			fail("%d files left open", t.open)
		}
	}
}
'''))
mk("erofs-fileinfo-sys","X03","an image made from an image, whose files have owners",
 "the owner of a file taken from an EROFS image is lost",
 [("erofs/erofs.go","	return &fi.inode\n","	return fi.inode\n")],
 go(["archive/tar","bytes",A+"erofs",A+"tarfs"],WAT+'''
func main() {
	var b bytes.Buffer
	tw := tar.NewWriter(&b)
	must(tw.WriteHeader(&tar.Header{Typeflag: tar.TypeReg, Name: "a", Mode: 0o644, Uid: 7, Gid: 8}))
	must(tw.Close())
	src, err := tarfs.Open(bytes.NewReader(b.Bytes()))
	must(err)
	var one, two wat
	must(erofs.Create(&one, src))
	mid, err := erofs.Open(bytes.NewReader(one.b))
	must(err)
	must(erofs.Create(&two, mid))
	if !bytes.Equal(one.b, two.b) {
		fail("the image of an image differs")
	}
}
'''))
