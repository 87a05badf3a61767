import sys; sys.path.insert(0,'/tmp/seed')
from mk import mk
from lib import go, WAT
A="github.com/dpeckett/archivefs/"
mk("tar-implied-setgid","T01","a set-id or sticky file in a directory that has no entry of its own",
 "an implied parent directory takes over special mode bits of the entry below it",
 [("tarfs/tarfs.go","""					Name:     dir,
					Mode:     0o755,""","""					Name:     dir,
					Mode:     0o755 | h.Mode&0o7000,""")],
 go(["archive/tar","bytes",A+"tarfs"],'''
func main() {
	var b bytes.Buffer
	w := tar.NewWriter(&b)
	must(w.WriteHeader(&tar.Header{Typeflag: tar.TypeReg, Name: "usr/bin/su", Mode: 0o4755}))
	must(w.Close())
	fsys, err := tarfs.Open(bytes.NewReader(b.Bytes()))
	must(err)
	for _, p := range []string{"usr", "usr/bin"} {
		fi, err := fsys.Stat(p)
		must(err)
		if fi.Mode()&^(1<<31) != 0o755 {
			fail("%s has mode %v", p, fi.Mode())
		}
	}
}
'''))
mk("tar-implied-parent","T02","a link whose target climbs with '..' out of a directory that has no entry of its own",
 "'..' stays where it is in directories that are only implied by their contents",
 [("tarfs/tarfs.go","	c := *child\n	c.parent = d\n","	c := *child\n	if child.data != nil {\n		c.parent = d\n	}\n")],
 go(["archive/tar","bytes","io/fs",A+"tarfs"],'''
func main() {
	var b bytes.Buffer
	w := tar.NewWriter(&b)
	must(w.WriteHeader(&tar.Header{Typeflag: tar.TypeReg, Name: "lib/real", Mode: 0o644, Size: 1}))
	_, err := w.Write([]byte("x"))
	must(err)
	must(w.WriteHeader(&tar.Header{Typeflag: tar.TypeSymlink, Name: "usr/share/link", Linkname: "../../lib/real"}))
	must(w.WriteHeader(&tar.Header{Typeflag: tar.TypeSymlink, Name: "to", Linkname: "usr/share"}))
	must(w.WriteHeader(&tar.Header{Typeflag: tar.TypeSymlink, Name: "up", Linkname: "to/../../lib/real"}))
	must(w.Close())
	fsys, err := tarfs.Open(bytes.NewReader(b.Bytes()))
	must(err)
	for _, p := range []string{"usr/share/link", "to/link", "up"} {
		if b, err := fs.ReadFile(fsys, p); err != nil || string(b) != "x" {
			fail("%s: %q, %v", p, b, err)
		}
	}
}
'''))
mk("tar-clean-target","T03","a link whose recorded target is not in its shortest form, such as 'a/' or './a' or 'a//b'",
 "ReadLink returns a tidied target instead of the recorded one",
 [("tarfs/tarfs.go","	return d.Linkname, nil\n","	return filepath.Clean(d.Linkname), nil\n")],
 go(["archive/tar","bytes",A+"tarfs"],'''
func main() {
	for _, target := range []string{"a", "../a", "a/", "./a", "a//b", "/a/../b", "."} {
		var b bytes.Buffer
		w := tar.NewWriter(&b)
		must(w.WriteHeader(&tar.Header{Typeflag: tar.TypeSymlink, Name: "l", Linkname: target}))
		must(w.Close())
		fsys, err := tarfs.Open(bytes.NewReader(b.Bytes()))
		must(err)
		if got, err := fsys.ReadLink("l"); err != nil || got != target {
			fail("%q became %q, %v", target, got, err)
		}
	}
}
'''))
mk("tar-create-clean","T04","a source with a link whose target is not in its shortest form",
 "the archive records a tidied link target instead of that of the source",
 [("tarfs/create.go","""			link, err = linkFS.ReadLink(path)
			if err != nil {
				return err
			}
""","""			link, err = linkFS.ReadLink(path)
			if err != nil {
				return err
			}
			link = filepath.ToSlash(filepath.Clean(link))
"""),("tarfs/create.go",'	"io/fs"\n','	"io/fs"\n	"path/filepath"\n')],
 go(["archive/tar","bytes",A+"tarfs"],'''
func main() {
	for _, target := range []string{"a", "../a", "a/", "./a", "a//b", "/a/../b", "."} {
		var b, c bytes.Buffer
		w := tar.NewWriter(&b)
		must(w.WriteHeader(&tar.Header{Typeflag: tar.TypeSymlink, Name: "l", Linkname: target}))
		must(w.Close())
		fsys, err := tarfs.Open(bytes.NewReader(b.Bytes()))
		must(err)
		must(tarfs.Create(&c, fsys))
		h, err := tar.NewReader(&c).Next()
		must(err)
		if h.Linkname != target {
			fail("%q became %q", target, h.Linkname)
		}
	}
}
'''))
mk("tar-cut-header","T05","an archive that ends inside a header block",
 "an archive cut in the middle of a header opens as if it were complete",
 [("tarfs/tarfs.go","			if errors.Is(err, io.EOF) {\n","			if errors.Is(err, io.EOF) || errors.Is(err, io.ErrUnexpectedEOF) {\n")],
 go(["archive/tar","bytes",A+"tarfs"],'''
func main() {
	var b bytes.Buffer
	w := tar.NewWriter(&b)
	for _, n := range []string{"a", "b"} {
		must(w.WriteHeader(&tar.Header{Typeflag: tar.TypeReg, Name: n, Mode: 0o644, Size: 512}))
		_, err := w.Write(bytes.Repeat([]byte(n), 512))
		must(err)
	}
	must(w.Close())
	for _, n := range []int{1025, 1200, 1535} {
		if _, err := tarfs.Open(bytes.NewReader(b.Bytes()[:n])); err == nil {
			fail("cut to %d bytes it still opens", n)
		}
	}
}
'''))
mk("ar-int32","A01","a member with a timestamp after January 2038",
 "fields are read as 32-bit numbers, an archive with later timestamps is refused",
 [("arfs/arfs.go","intValue, err := strconv.Atoi(input)","intValue, err := strconv.ParseInt(input, 10, 32)")],
 go(["bytes",A+"arfs"],'''
func main() {
	for _, t := range []int64{0, 1 << 30, 1<<31 - 1, 1 << 31, 99999999999} {
		b := fmt.Sprintf("!<arch>\\n%-16s%-12d%-6d%-6d%-8s%-10d`\\nx\\n", "a", t, 0, 0, "100644", 1)
		fsys, err := arfs.Open(bytes.NewReader([]byte(b)))
		must(err)
		fi, err := fsys.Stat("a")
		must(err)
		if fi.ModTime().Unix() != t {
			fail("%d became %v", t, fi.ModTime())
		}
	}
}
'''))
mk("ar-lenient-number","A02","a member whose size or another field begins with digits but goes on with something else",
 "a field with trailing garbage is accepted as the number it begins with",
 [("arfs/arfs.go","		intValue, err := strconv.Atoi(input)\n		if err != nil {","		var intValue int\n		if _, err := fmt.Sscanf(input, \"%d\", &intValue); err != nil {")],
 go(["bytes",A+"arfs"],'''
func main() {
	for _, f := range [][3]string{{"1x", "0", "1"}, {"1", "7z", "1"}, {"1", "0", "1 2"}, {"1", "0", "1;"}} {
		b := fmt.Sprintf("!<arch>\\n%-16s%-12s%-6s%-6d%-8s%-10s`\\nx\\n", "a", f[0], f[1], 0, "100644", f[2])
		if _, err := arfs.Open(bytes.NewReader([]byte(b))); err == nil {
			fail("fields %q are accepted", f)
		}
	}
}
'''))
mk("ar-round-time","A03","a source file with a modification time in the second half of a second",
 "times are rounded to the nearest second, half of them move into the next one",
 [("arfs/create.go","strconv.Itoa(int(hdr.ModTime.Unix())),","strconv.Itoa(int(hdr.ModTime.Round(time.Second).Unix())),"),("arfs/create.go",'	"strconv"\n','	"strconv"\n	"time"\n')] if False else
 [("arfs/create.go","		strconv.Itoa(int(hdr.ModTime.Unix())),","		strconv.Itoa(int((hdr.ModTime.UnixMilli()+500)/1000)),")],
 go(["bytes","testing/fstest","time",A+"arfs"],'''
func main() {
	for _, ns := range []int64{0, 1, 499999999, 500000000, 999999999} {
		var b bytes.Buffer
		must(arfs.Create(&b, fstest.MapFS{"a": {Mode: 0o644, ModTime: time.Unix(1700000000, ns)}}))
		fsys, err := arfs.Open(bytes.NewReader(b.Bytes()))
		must(err)
		fi, err := fsys.Stat("a")
		must(err)
		if fi.ModTime().Unix() != 1700000000 {
			fail("%d ns: %v", ns, fi.ModTime())
		}
	}
}
'''))
mk("erofs-block-size","E02","an image with a block size other than 4096 that has a file with an inline tail",
 "the inline tail of a file is computed with the block size of created images instead of that of this image",
 [("erofs/reader.go","		idataSize := ino.size & (uint64(ino.image.BlockSize()) - 1)\n","		idataSize := ino.size & (BlockSize - 1)\n")],
 go(["bytes","encoding/binary","io/fs",A+"erofs"],'''
func main() {
	// blocks of 512 bytes: the inodes in block 4, data in block 5
	b := make([]byte, 6*512)
	put := func(off int, v any) {
		var w bytes.Buffer
		must(binary.Write(&w, binary.LittleEndian, v))
		copy(b[off:], w.Bytes())
	}
	put(1024, erofs.SuperBlock{Magic: erofs.SuperBlockMagicV1, BlockSizeBits: 9, Inodes: 2, Blocks: 6, MetaBlockAddr: 4})
	dir := append(make([]byte, 36), ".", "..", "f"...)
	_ = dir
}
'''.replace('	dir := append(make([]byte, 36), ".", "..", "f"...)\n	_ = dir\n','''	var d bytes.Buffer
	for i, e := range []struct {
		nid uint64
		off uint16
		typ uint8
	}{{0, 36, 2}, {0, 37, 2}, {4, 39, 1}} {
		_ = i
		must(binary.Write(&d, binary.LittleEndian, erofs.Dirent{Nid: e.nid, NameOff: e.off, FileType: e.typ}))
	}
	d.WriteString("...f")
	put(2048, erofs.InodeCompact{Format: 2 << 1, Mode: 0o40755, Nlink: 2, Size: uint32(d.Len())})
	copy(b[2048+32:], d.Bytes())
	put(2048+128, erofs.InodeCompact{Format: 2 << 1, Mode: 0o100644, Nlink: 1, Size: 512 + 5, RawBlockAddr: 5})
	copy(b[2048+128+32:], "tail!")
	for i := 0; i < 512; i++ {
		b[5*512+i] = byte(i)
	}
	want := append(append([]byte(nil), b[5*512:]...), "tail!"...)
	img, err := erofs.Open(bytes.NewReader(b))
	must(err)
	got, err := fs.ReadFile(img, "f")
	if err != nil || !bytes.Equal(got, want) {
		fail("%d bytes, %v", len(got), err)
	}
'''))
)
mk("erofs-sticky-file","E05","a source file (not a directory) with the sticky bit",
 "the sticky bit of files is dropped",
 [("erofs/constants.go","	if mode&fs.ModeSticky != 0 {","	if mode&fs.ModeSticky != 0 && mode.IsDir() {")],
 go(["bytes","io/fs","testing/fstest",A+"erofs"],WAT+'''
func main() {
	m := 0o755 | fs.ModeSticky
	w := &wat{}
	must(erofs.Create(w, fstest.MapFS{"f": {Data: []byte("x"), Mode: m}, "d": {Mode: m | fs.ModeDir}}))
	img, err := erofs.Open(bytes.NewReader(w.b))
	must(err)
	for _, p := range []string{"f", "d"} {
		fi, err := fs.Stat(img, p)
		must(err)
		if fi.Mode()&^fs.ModeDir != m {
			fail("%s: %v", p, fi.Mode())
		}
	}
}
'''))
mk("erofs-dirent-nul","E06","a directory whose entries fill a block to the last byte, followed by another block",
 "the final 0 after a full block of names spills over, so the next block of entries is not where it must be",
 [("erofs/writer.go","		if currentBlockSize+DirentSize+nameSize+1 > BlockSize {","		if currentBlockSize+DirentSize+nameSize > BlockSize {")],
 go(["bytes","io/fs","strings","testing/fstest",A+"erofs"],WAT+'''
func main() {
	for last := 1; last <= 253; last++ {
		src := fstest.MapFS{}
		for i := 0; i < 15; i++ {
			src[fmt.Sprintf("%03d", i)+strings.Repeat("x", 247)] = &fstest.MapFile{Mode: 0o644}
		}
		src["00"+strings.Repeat("0", last)] = &fstest.MapFile{Mode: 0o644}
		src["9"] = &fstest.MapFile{Mode: 0o644, Data: []byte("last")}
		w := &wat{}
		must(erofs.Create(w, src))
		img, err := erofs.Open(bytes.NewReader(w.b))
		must(err)
		l, err := fs.ReadDir(img, ".")
		if err != nil || len(l) != len(src) {
			fail("%d: %d entries of %d, %v", last, len(l), len(src), err)
		}
	}
}
'''))
mk("erofs-xattr","E07","an image with an extended inode that has extended attributes",
 "an extended inode with attributes is accepted, its inline data is looked for where the attributes are",
 [("erofs/reader.go","""		if ino.XattrCount != 0 {
			return Inode{}, fmt.Errorf("unsupported xattr at inode %d", nid)
		}

		rawBlockAddr = ino.RawBlockAddr
		inodeSize = int64(binary.Size(*ino))

		inode.size = ino.Size
""","""		rawBlockAddr = ino.RawBlockAddr
		inodeSize = int64(binary.Size(*ino))

		inode.size = ino.Size
""")],
 go(["bytes","io/fs","testing/fstest","time",A+"erofs"],WAT+'''
func main() {
	w := &wat{}
	must(erofs.Create(w, fstest.MapFS{"f": {Data: []byte("hello"), Mode: 0o644, ModTime: time.Unix(5, 0)}}))
	i := bytes.Index(w.b, []byte("hello"))
	if i < 64 {
		fail("no inline content")
	}
	w.b[i-64+2] = 1 // the extended inode's count of attributes
	img, err := erofs.Open(bytes.NewReader(w.b))
	must(err)
	if b, err := fs.ReadFile(img, "f"); err == nil {
		fail("a file with extended attributes reads as %q", b)
	}
}
'''))
mk("erofs-sb-first","E08","a creation that stops while it writes the blocks of contents",
 "the superblock is written before the contents, an image cut short is accepted",
 [("erofs/writer.go","""	if err := w.writeData(); err != nil {
		return fmt.Errorf("failed to write data blocks: %w", err)
	}

	sb :=""","""	sb :="""),("erofs/writer.go","""	if f, ok := w.dst.(*os.File); ok {
		if err""","""	if err := w.writeData(); err != nil {
		return fmt.Errorf("failed to write data blocks: %w", err)
	}

	if f, ok := w.dst.(*os.File); ok {
		if err""")],
 go(["bytes","errors","io/fs","testing/fstest","time",A+"erofs"],WAT+'''
type limited struct {
	wat
	left int
}

func (l *limited) WriteAt(p []byte, off int64) (int, error) {
	if l.left == 0 {
		return 0, errors.New("no space")
	}
	l.left--
	return l.wat.WriteAt(p, off)
}

func main() {
	data := bytes.Repeat([]byte("0123456789abcdef"), 1000)
	src := fstest.MapFS{"f": {Data: data, Mode: 0o644, ModTime: time.Unix(5, 0)}, "g": {Data: data, Mode: 0o644}}
	for n := 0; n < 1000; n++ {
		l := &limited{left: n}
		if erofs.Create(l, src) == nil {
			return
		}
		img, err := erofs.Open(bytes.NewReader(l.b))
		if err != nil {
			continue
		}
		for p := range src {
			if b, err := fs.ReadFile(img, p); err != nil || !bytes.Equal(b, data) {
				fail("after %d writes the image opens, but %s is incomplete", n, p)
			}
		}
	}
}
'''))
mk("mem-file-as-dir","M01","a path that goes through a file as if it were a directory",
 "looking below a file finds the file itself",
 [("memfs/memfs.go","""					if i == len(parts)-1 {
						return child, nil
					} else {
						return nil, fmt.Errorf("no such file or directory: %s: %w", part, fs.ErrNotExist)
					}
""","""					return child, nil
"""),("memfs/memfs.go","	for i, part := range parts {\n		chld, err","	for _, part := range parts {\n		chld, err")],
 go([A+"memfs"],'''
func main() {
	fsys := memfs.New()
	must(fsys.WriteFile("f", []byte("f"), 0o644))
	must(fsys.WriteFile("x", []byte("x"), 0o644))
	for _, p := range []string{"f/x", "f/f", "f/none/x"} {
		if _, err := fsys.Open(p); err == nil {
			fail("%s opens", p)
		}
	}
}
'''))
mk("mem-dir-mode","X04","a directory of the in-memory filesystem whose permissions are not 0755",
 "an opened directory reports other permissions than the listing that contains it",
 [("memfs/memfs.go","		mode:    d.dir.perm | fs.ModeDir,","		mode:    0o755 | fs.ModeDir,")],
 go(["io/fs",A+"memfs"],'''
func main() {
	fsys := memfs.New()
	must(fsys.MkdirAll("d", 0o700))
	l, err := fs.ReadDir(fsys, ".")
	must(err)
	a, err := l[0].Info()
	must(err)
	b, err := fs.Stat(fsys, "d")
	must(err)
	if a.Mode() != b.Mode() {
		fail("%v, %v", a.Mode(), b.Mode())
	}
}
'''))
mk("erofs-build-time","X07","two creations of the same source at different times",
 "the image records when it was made, so it differs from one run to the next",
 [("erofs/writer.go","		// TODO: other fields (volume name, etc.)\n","		BuildTime:     uint64(time.Now().Unix()),\n		// TODO: other fields (volume name, etc.)\n")],
 go(["bytes","testing/fstest","time",A+"erofs"],WAT+'''
func main() {
	src := fstest.MapFS{"f": {Data: []byte("x"), Mode: 0o644, ModTime: time.Unix(5, 0)}}
	a, b := &wat{}, &wat{}
	must(erofs.Create(a, src))
	time.Sleep(1100 * time.Millisecond)
	must(erofs.Create(b, src))
	if !bytes.Equal(a.b, b.b) {
		fail("the images differ")
	}
}
'''))
