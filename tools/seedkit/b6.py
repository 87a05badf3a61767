import sys; sys.path.insert(0,'/tmp/seed')
from mk import mk
from lib import go, WAT
A="github.com/dpeckett/archivefs/"
mk("ar-fold-order","A01","members whose names differ in case, or have bytes between upper and lower case letters",
 "the listing is not in byte order",
 [("arfs/arfs.go","		return strings.Compare(a.Name(), b.Name())\n","		if c := strings.Compare(strings.ToLower(a.Name()), strings.ToLower(b.Name())); c != 0 {\n			return c\n		}\n\n		return strings.Compare(a.Name(), b.Name())\n")],
 go(["bytes",A+"arfs",A+"memfs"],'''
func main() {
	src := memfs.New()
	for _, n := range []string{"B", "_", "a", "C"} {
		must(src.WriteFile(n, nil, 0o644))
	}
	var b bytes.Buffer
	must(arfs.Create(&b, src))
	fsys, err := arfs.Open(bytes.NewReader(b.Bytes()))
	must(err)
	l, err := fsys.ReadDir(".")
	must(err)
	s := ""
	for _, e := range l {
		s += e.Name()
	}
	if s != "BC_a" {
		fail("listed as %s", s)
	}
}
'''))
mk("erofs-keep-tail","E04","a destination file that held more than the image",
 "what the file held before remains behind the image",
 [("erofs/writer.go","		if err := f.Truncate(int64(sb.Blocks) * BlockSize); err != nil {\n			return fmt.Errorf(\"failed to truncate destination file: %w\", err)\n		}\n","		// The last block may end in a hole.\n		size := int64(sb.Blocks) * BlockSize\n		if fi, err := f.Stat(); err != nil || fi.Size() < size {\n			if err := f.Truncate(size); err != nil {\n				return fmt.Errorf(\"failed to truncate destination file: %w\", err)\n			}\n		}\n")],
 go(["bytes","path/filepath",A+"erofs",A+"memfs"],'''
func main() {
	d, err := os.MkdirTemp("", "demo")
	must(err)
	defer os.RemoveAll(d)
	src := memfs.New()
	must(src.WriteFile("a", []byte("a"), 0o644))
	var size [2]int
	for i := range size {
		p := filepath.Join(d, fmt.Sprint(i))
		must(os.WriteFile(p, bytes.Repeat([]byte("old"), 50000*i), 0o600))
		f, err := os.OpenFile(p, os.O_RDWR, 0)
		must(err)
		must(erofs.Create(f, src))
		must(f.Close())
		b, err := os.ReadFile(p)
		must(err)
		size[i] = len(b)
	}
	if size[0] != size[1] {
		fail("%d bytes in an empty file, %d in one that held something", size[0], size[1])
	}
}
'''))
mk("mem-eof-close","M02","a file read to its end and then examined, or read once more",
 "the handle closes itself at the end of the file",
 [("memfs/memfs.go","	return f.content.Read(b)\n","	n, err := f.content.Read(b)\n	if err != nil && len(b) > 512 {\n		f.closed = true // There is nothing more to come.\n	}\n\n	return n, err\n")],
 go(["io",A+"memfs"],'''
func main() {
	src := memfs.New()
	must(src.WriteFile("a", []byte("hello"), 0o644))
	f, err := src.Open("a")
	must(err)
	buf := make([]byte, 4096)
	n, err := f.Read(buf)
	if n != 5 || err != nil {
		fail("%d, %v", n, err)
	}
	for i := 0; i < 2; i++ {
		if n, err := f.Read(buf); n != 0 || err != io.EOF {
			fail("at the end: %d, %v", n, err)
		}
	}
	if fi, err := f.Stat(); err != nil || fi.Size() != 5 {
		fail("stat: %v", err)
	}
	must(f.Close())
}
'''))
mk("tar-global-begin","T01","a file directly behind a global pax header",
 "the file's content is taken to begin at the global header, so it reads as empty",
 [("tarfs/tarfs.go","	for {\n		// round to next 512 byte boundary.\n		begin := (r.offset + 511) &^ 511\n\n		h, err := tr.Next()","	for next := int64(0); ; {\n		begin := next\n\n		h, err := tr.Next()"),
  ("tarfs/tarfs.go","		h.Name = sanitizePath(h.Name)\n","		// round to next 512 byte boundary.\n		next = (r.offset + 511) &^ 511\n\n		h.Name = sanitizePath(h.Name)\n")],
 go(["archive/tar","bytes","io/fs",A+"tarfs"],'''
func main() {
	var b bytes.Buffer
	tw := tar.NewWriter(&b)
	must(tw.WriteHeader(&tar.Header{Typeflag: tar.TypeReg, Name: "a", Mode: 0o644, Size: 1}))
	_, err := tw.Write([]byte("a"))
	must(err)
	must(tw.WriteHeader(&tar.Header{Typeflag: tar.TypeXGlobalHeader, Name: "g", PAXRecords: map[string]string{"comment": "hello"}}))
	must(tw.WriteHeader(&tar.Header{Typeflag: tar.TypeReg, Name: "b", Mode: 0o644, Size: 1}))
	_, err = tw.Write([]byte("b"))
	must(err)
	must(tw.Close())
	fsys, err := tarfs.Open(bytes.NewReader(b.Bytes()))
	must(err)
	for _, n := range []string{"a", "b"} {
		if c, err := fs.ReadFile(fsys, n); err != nil || string(c) != n {
			fail("%s: %q, %v", n, c, err)
		}
	}
}
'''))
