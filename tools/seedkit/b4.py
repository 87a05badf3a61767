import sys; sys.path.insert(0,'/tmp/seed')
from mk import mk
from lib import go, WAT
A="github.com/dpeckett/archivefs/"
mk("erofs-name-cache","E03","two directories of the same name in different places, both resolved on one filesystem",
 "resolved children are remembered by the name of their directory, so a path may lead into another directory of the same name",
 [("erofs/erofs.go","		child, err := de.lookup(comp)\n		if err != nil {\n			return nil, err\n		}\n\n","		key := de.name + \"/\" + comp\n		var child *dirEntry\n		if known, ok := fsys.known.Load(key); ok {\n			child = known.(*dirEntry)\n		} else {\n			child, err = de.lookup(comp)\n			if err != nil {\n				return nil, err\n			}\n			fsys.known.Store(key, child)\n		}\n\n"),
  ("erofs/erofs.go","	root  *dirEntry\n}\n","	root  *dirEntry\n	known sync.Map // Of the entries resolved so far.\n}\n")],
 go(["bytes","io/fs",A+"erofs",A+"memfs"],WAT+'''
func main() {
	src := memfs.New()
	for _, d := range []string{"a/lib", "b/lib"} {
		must(src.MkdirAll(d, 0o755))
		must(src.WriteFile(d+"/x", []byte(d), 0o644))
	}
	var w wat
	must(erofs.Create(&w, src))
	fsys, err := erofs.Open(bytes.NewReader(w.b))
	must(err)
	for _, d := range []string{"a/lib", "b/lib"} {
		if b, err := fs.ReadFile(fsys, d+"/x"); err != nil || string(b) != d {
			fail("%s/x: %q, %v", d, b, err)
		}
	}
}
'''))
mk("erofs-slurp","X05","reading a file whose inode claims an enormous size",
 "the content of a file is loaded as a whole, so a corrupt size crashes the program",
 [("erofs/erofs.go","		f.r, err = ino.Data()\n		if err != nil {\n			return 0, err\n		}\n","		data, err := ino.Data()\n		if err != nil {\n			return 0, err\n		}\n\n		content := make([]byte, ino.Size())\n		if _, err := io.ReadFull(data, content); err != nil {\n			return 0, err\n		}\n		f.r = bytes.NewReader(content)\n"),
  ("erofs/erofs.go",'import (\n	"errors"\n','import (\n	"bytes"\n	"errors"\n')],
 go(["bytes","io",A+"erofs",A+"memfs","encoding/binary","archive/tar",A+"tarfs","time"],WAT+'''
var _ = memfs.New

func main() {
	var b bytes.Buffer
	tw := tar.NewWriter(&b)
	must(tw.WriteHeader(&tar.Header{Typeflag: tar.TypeReg, Name: "a", Mode: 0o644, Size: 5000, ModTime: time.Unix(1, 0)}))
	_, err := tw.Write(make([]byte, 5000))
	must(err)
	must(tw.Close())
	src, err := tarfs.Open(bytes.NewReader(b.Bytes()))
	must(err)
	var w wat
	must(erofs.Create(&w, src))
	fsys, err := erofs.Open(bytes.NewReader(w.b))
	must(err)
	fi, err := fsys.Stat("a")
	must(err)
	sb := fi.Sys().(*erofs.Inode)
	binary.LittleEndian.PutUint64(w.b[4096+32*sb.Nid()+8:], 1<<61)
	fsys, err = erofs.Open(bytes.NewReader(w.b))
	must(err)
	f, err := fsys.Open("a")
	must(err)
	_, _ = f.Read(make([]byte, 10))
	_, _ = io.CopyN(io.Discard, f, 100)
}
'''))
mk("erofs-short-dotfile","X04","a file whose name has two characters, the first of which is a dot",
 "such a file can be opened but is not listed",
 [("erofs/erofs.go","		if name == \".\" || name == \"..\" {\n","		if len(name) <= 2 && name[0] == '.' {\n")],
 go(["bytes","io/fs",A+"erofs",A+"memfs"],WAT+'''
func main() {
	src := memfs.New()
	must(src.WriteFile(".a", nil, 0o644))
	must(src.WriteFile(".bc", nil, 0o644))
	var w wat
	must(erofs.Create(&w, src))
	fsys, err := erofs.Open(bytes.NewReader(w.b))
	must(err)
	if l, err := fs.ReadDir(fsys, "."); err != nil || len(l) != 2 {
		fail("%v, %v", l, err)
	}
}
'''))
0 and mk("ar-mode-base","A01","an archive whose modes have no leading zero",
 "modes without a leading zero are read as decimal numbers",
 [("arfs/arfs.go","strings.TrimSpace(string(line[40:48])), 8, 32)","strings.TrimSpace(string(line[40:48])), 0, 32)")],
 go(["strings",A+"arfs"],'''
func main() {
	for _, mode := range []string{"0100644 ", "100644  ", "644     "} {
		fsys, err := arfs.Open(strings.NewReader("!<arch>\\na               0           0     0     " + mode + "0         `\\n"))
		must(err)
		fi, err := fsys.Stat("a")
		must(err)
		if fi.Mode() != 0o644 {
			fail("%q: %v", mode, fi.Mode())
		}
	}
}
'''))
0 and mk("tar-sparse-size","T01","a tar archive with a sparse file of the old GNU format",
 "the content of sparse files is not part of what is kept of their entry",
 [("tarfs/tarfs.go","		case tar.TypeDir, tar.TypeLink, tar.TypeSymlink:\n","		case tar.TypeDir, tar.TypeLink, tar.TypeSymlink, tar.TypeGNUSparse:\n"),("tarfs/tarfs.go","		case tar.TypeReg, tar.TypeGNUSparse:\n			// Discard","		case tar.TypeReg:\n			// Discard")],
 go(["bytes","io/fs",A+"tarfs"],'''
func main() {
	h := make([]byte, 512)
	copy(h, "s")
	copy(h[100:], "0000644\\x00")
	copy(h[108:], "0000000\\x00")
	copy(h[116:], "0000000\\x00")
	copy(h[124:], "00000000003\\x00")
	copy(h[136:], "00000000000\\x00")
	h[156] = 'S'
	copy(h[257:], "ustar  \\x00")
	copy(h[386:], "00000000002\\x0000000000003\\x00") // One fragment at 2.
	copy(h[483:], "00000000005\\x00")
	copy(h[148:], "        ")
	sum := 0
	for _, c := range h {
		sum += int(c)
	}
	copy(h[148:], fmt.Sprintf("%06o\\x00 ", sum))
	data := make([]byte, 512)
	copy(data, "abc")
	b := append(append(h, data...), make([]byte, 1024)...)
	fsys, err := tarfs.Open(bytes.NewReader(b))
	must(err)
	got, err := fs.ReadFile(fsys, "s")
	must(err)
	if string(got) != "\\x00\\x00abc" {
		fail("%q", got)
	}
}
'''))
mk("ar-long-utf8","A03","a name of at most 16 characters but more than 16 bytes",
 "creating an archive of such a file crashes instead of failing",
 [("arfs/create.go","	if len(name) > 16 {\n","	if utf8.RuneCountInString(name) > 16 {\n"),("arfs/create.go",'	"strings"\n','	"strings"\n	"unicode/utf8"\n')],
 go(["bytes",A+"arfs",A+"memfs"],'''
func main() {
	src := memfs.New()
	must(src.WriteFile("ööööööööööää", nil, 0o644))
	if err := arfs.Create(new(bytes.Buffer), src); err == nil {
		fail("the name fitted")
	}
}
'''))
mk("erofs-eof-inode","X06","an image read through a reader that says io.EOF along with its last bytes",
 "an inode or entry at the very end of the image cannot be read through such a reader",
 [("erofs/reader.go","	if err := binary.Read(io.NewSectionReader(i.src, off, int64(binary.Size(data))),\n		binary.LittleEndian, data); err != nil {\n		return err\n	}\n\n	return nil\n","	buf := make([]byte, binary.Size(data))\n	if _, err := i.src.ReadAt(buf, off); err != nil {\n		return err\n	}\n\n	return binary.Read(bytes.NewReader(buf), binary.LittleEndian, data)\n")],
 go(["bytes","io",A+"erofs",A+"memfs"],WAT+'''
type eof []byte

func (e eof) ReadAt(p []byte, off int64) (int, error) {
	n, err := bytes.NewReader(e).ReadAt(p, off)
	if off+int64(n) == int64(len(e)) {
		err = io.EOF
	}
	return n, err
}

func main() {
	src := memfs.New()
	must(src.WriteFile("a", nil, 0o644))
	must(src.WriteFile("b", nil, 0o644))
	var w wat
	must(erofs.Create(&w, src))
	end := len(w.b)
	for end > 1024+128 && w.b[end-1] == 0 {
		end--
	}
	end = (end + 31) &^ 31
	for _, n := range []int{len(w.b), end} {
		fsys, err := erofs.Open(eof(w.b[:n]))
		must(err)
		for _, p := range []string{"a", "b"} {
			if _, err := fsys.Stat(p); err != nil {
				fail("%d, %s: %v", n, p, err)
			}
		}
	}
}
'''))
mk("erofs-inodes-count","E06","reading the number of inodes from the superblock",
 "the superblock counts only the files that have no entries below them in its number of inodes",
 [("erofs/writer.go","		Inodes:        uint64(len(w.inodes)),\n","		Inodes:        uint64(max(len(w.inodes)-1, 1)),\n")],
 go(["encoding/binary",A+"erofs",A+"memfs"],WAT+'''
func main() {
	src := memfs.New()
	must(src.WriteFile("a", nil, 0o644))
	must(src.WriteFile("b", nil, 0o644))
	var w wat
	must(erofs.Create(&w, src))
	if n := binary.LittleEndian.Uint64(w.b[1024+16:]); n != 3 {
		fail("%d inodes", n)
	}
}
'''))
mk("tar-hardlink-mode","T01","a hard link whose own entry has other permissions than the file it names",
 "a hard link has metadata of its own entry instead of that of the file",
 [("tarfs/tarfs.go","			targetCopy.Header.Name = path\n","			targetCopy.Header.Name = path\n			targetCopy.Header.ModTime = d.Header.ModTime\n")],
 go(["archive/tar","bytes","time",A+"tarfs"],'''
func main() {
	var b bytes.Buffer
	w := tar.NewWriter(&b)
	must(w.WriteHeader(&tar.Header{Typeflag: tar.TypeReg, Name: "a", Mode: 0o644, ModTime: time.Unix(100, 0)}))
	must(w.WriteHeader(&tar.Header{Typeflag: tar.TypeLink, Name: "b", Linkname: "a", ModTime: time.Unix(200, 0)}))
	must(w.Close())
	fsys, err := tarfs.Open(bytes.NewReader(b.Bytes()))
	must(err)
	fi, err := fsys.Stat("b")
	must(err)
	if fi.ModTime().Unix() != 100 {
		fail("%v", fi.ModTime())
	}
}
'''))
mk("tar-name-trim","X04","a name that ends with a space",
 "a listing of a directory contains entries whose description says another name",
 [("tarfs/tarfs.go","	return filepath.Base(d.Header.Name)\n","	return filepath.Base(strings.TrimRight(d.Header.Name, \"/ \"))\n")],
 go(["archive/tar","bytes",A+"tarfs"],'''
func main() {
	var b bytes.Buffer
	w := tar.NewWriter(&b)
	must(w.WriteHeader(&tar.Header{Typeflag: tar.TypeReg, Name: "a ", Mode: 0o644}))
	must(w.Close())
	fsys, err := tarfs.Open(bytes.NewReader(b.Bytes()))
	must(err)
	l, err := fsys.ReadDir(".")
	must(err)
	if fi, err := l[0].Info(); err != nil || l[0].Name() != "a " || fi.Name() != "a " {
		fail("%q, %q, %v", l[0].Name(), fi.Name(), err)
	}
}
'''))
