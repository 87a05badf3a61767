import sys; sys.path.insert(0,'/tmp/seed')
from mk import mk
from lib import go, WAT
A="github.com/dpeckett/archivefs/"
mk("erofs-inline-pad","E04","a small file placed so that its inode still fits into the metadata block but its inline data does not quite",
 "the inline data of a file crosses a block boundary, so the created image cannot be read back",
 [("erofs/writer.go","if spaceAvailable > 0 && int64(binary.Size(ino))+size > spaceAvailable {","if spaceAvailable > 0 && size > spaceAvailable {")],
 go(["bytes","io/fs","testing/fstest","time",A+"erofs"],WAT+'''
func main() {
	for n := 1; n <= 1024; n++ {
		src := fstest.MapFS{}
		for i := 0; i < 12; i++ {
			src[fmt.Sprintf("f%02d", i)] = &fstest.MapFile{Data: bytes.Repeat([]byte{byte('a' + i)}, n), Mode: 0o644, ModTime: time.Unix(1e9, 0)}
		}
		w := &wat{}
		must(erofs.Create(w, src))
		img, err := erofs.Open(bytes.NewReader(w.b))
		must(err)
		for p, f := range src {
			b, err := fs.ReadFile(img, p)
			if err != nil || !bytes.Equal(b, f.Data) {
				fail("%d bytes: %s: %v", n, p, err)
			}
		}
	}
}
'''))

 "times up to the epoch are taken for missing, a file from 1969 reads as 1970",
 [("erofs/writer.go","\t\tfi.ModTime().IsZero()\n\n\tif compact","\t\tfi.ModTime().Unix() <= 0\n\n\tif compact")],
 go(["bytes","io/fs","testing/fstest","time",A+"erofs"],WAT+'''
func main() {
	for _, sec := range []int64{-86400 * 365, -1, 0, 1} {
		for _, ns := range []int64{0, 5} {
			tm := time.Unix(sec, ns)
			src := fstest.MapFS{"f": {Data: []byte("x"), Mode: 0o644, ModTime: tm}}
			w := &wat{}
			must(erofs.Create(w, src))
			img, err := erofs.Open(bytes.NewReader(w.b))
			must(err)
			fi, err := fs.Stat(img, "f")
			must(err)
			if !fi.ModTime().Equal(tm) {
				fail("%v became %v", tm, fi.ModTime())
			}
		}
	}
}
'''))
mk("tar-pax-size","T01","an entry whose name or metadata needs extra headers before the real one, with content",
 "the part of the archive kept for a file's content is computed without its PAX or GNU headers, so the file is cut off",
 [("tarfs/tarfs.go","		size := r.offset - begin\n","		// The header and the content.\n		size := 512 + (h.Size+511)&^511\n")],
 go(["archive/tar","bytes","io/fs","strings",A+"tarfs"],'''
func main() {
	for _, name := range []string{"short", strings.Repeat("n", 120), strings.Repeat("d/", 160) + "é"} {
		for _, size := range []int{0, 1, 700, 5000} {
			var b bytes.Buffer
			w := tar.NewWriter(&b)
			data := bytes.Repeat([]byte("z"), size)
			must(w.WriteHeader(&tar.Header{Typeflag: tar.TypeReg, Name: name, Mode: 0o644, Size: int64(size)}))
			_, err := w.Write(data)
			must(err)
			must(w.Close())
			fsys, err := tarfs.Open(bytes.NewReader(b.Bytes()))
			must(err)
			got, err := fs.ReadFile(fsys, name)
			if err != nil || !bytes.Equal(got, data) {
				fail("%.20s of %d bytes: %d bytes, %v", name, size, len(got), err)
			}
		}
	}
}
'''))
mk("mem-mkdir-race","M04","two callers creating the same missing directory at the same time, one of them writing a file into it",
 "the directory is looked up and created under separate holds of the lock: the directory of one caller replaces that of the other, whose file is lost",
 [("memfs/memfs.go","""		if child == nil {
			newDir := &dir{
				name:     part,
				perm:     perm,
				children: make(map[string]childI),
			}
			cur.children[part] = newDir
			next = newDir
		} else {
			childDir""","""		if child == nil {
			// Don't hold the lock while allocating.
			cur.mu.Unlock()
			newDir := &dir{
				name:     part,
				perm:     perm,
				children: make(map[string]childI),
			}
			cur.mu.Lock()
			cur.children[part] = newDir
			next = newDir
		} else {
			childDir""")],
 go(["io/fs","runtime","sync",A+"memfs"],'''
func main() {
	runtime.GOMAXPROCS(8)
	for round := 0; round < 60000; round++ {
		fsys := memfs.New()
		var wg sync.WaitGroup
		start := make(chan struct{})
		for i := 0; i < 4; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				must(fsys.MkdirAll("a/b/c", 0o755))
				must(fsys.WriteFile(fmt.Sprintf("a/b/c/f%d", i), []byte("x"), 0o644))
			}()
		}
		close(start)
		wg.Wait()
		for i := 0; i < 4; i++ {
			if _, err := fs.ReadFile(fsys, fmt.Sprintf("a/b/c/f%d", i)); err != nil {
				fail("round %d: a written file is lost: %v", round, err)
			}
		}
	}
}
'''))
mk("erofs-once","X02","a second caller asking for a node of the image while the first one is still reading its inode",
 "the node is marked as read before its inode has been read, so a concurrent caller sees an empty one",
 [("erofs/erofs.go","	readInodeOnce sync.Once\n","	readInodeMu   sync.Mutex\n	readInodeDone bool\n"),
  ("erofs/erofs.go","	de.readInodeOnce.Do(func() {\n","	de.readInodeMu.Lock()\n	first := !de.readInodeDone\n	de.readInodeDone = true\n	de.readInodeMu.Unlock()\n\n	if first {\n"),
  ("erofs/erofs.go","	})\n\n	return de.inode, de.inodeErr","	}\n\n	return de.inode, de.inodeErr")],
 go(["bytes","io/fs","testing/fstest","time","sync",A+"erofs"],WAT+'''
// slow holds up the first read.
type slow struct {
	*bytes.Reader
	once    sync.Once
	on      bool
	entered chan struct{}
	gate    chan struct{}
}

func (s *slow) ReadAt(p []byte, off int64) (int, error) {
	if s.on {
		s.once.Do(func() { close(s.entered); <-s.gate })
	}
	return s.Reader.ReadAt(p, off)
}

func main() {
	w := &wat{}
	must(erofs.Create(w, fstest.MapFS{"d/f": {Data: []byte("hello"), Mode: 0o644, ModTime: time.Unix(5, 0)}}))
	s := &slow{Reader: bytes.NewReader(w.b), entered: make(chan struct{}), gate: make(chan struct{})}
	img, err := erofs.Open(s)
	must(err)
	s.on = true
	go fs.ReadFile(img, "d/f")
	<-s.entered
	done := make(chan error)
	go func() {
		b, err := fs.ReadFile(img, "d/f")
		if err == nil && string(b) != "hello" {
			err = fmt.Errorf("content %q", b)
		}
		done <- err
	}()
	select {
	case err = <-done:
	case <-time.After(time.Second):
		close(s.gate)
		err = <-done
	}
	if err != nil {
		fail("while another caller reads the root: %v", err)
	}
}
'''))
mk("erofs-full-dir","E01","a directory whose size is an exact multiple of the block size, and a name at or after its last block",
 "the search for a name looks at one block too many when the last block of a directory is full",
 [("erofs/reader.go","	bLeft, bRight := int64(0), int64(ino.blocks)-1\n","	bLeft, bRight := int64(0), int64(ino.size)/int64(ino.image.BlockSize())\n")],
 go(["bytes","io/fs","strings","testing/fstest",A+"erofs"],WAT+'''
func main() {
	// names of 4096 bytes exactly: 12 bytes per entry, "." and "..", and a final 0
	for last := 1; last <= 255; last++ {
		src := fstest.MapFS{}
		for i := 0; i < 14; i++ {
			src[fmt.Sprintf("%03d", i)+strings.Repeat("x", 247)] = &fstest.MapFile{Mode: 0o644}
		}
		src["9"+strings.Repeat("y", last-1)] = &fstest.MapFile{Mode: 0o644, Data: []byte("last")}
		src["8"+strings.Repeat("y", 150)] = &fstest.MapFile{Mode: 0o644, Data: []byte("last")}
		w := &wat{}
		must(erofs.Create(w, src))
		w.b = append(w.b, make([]byte, 4096)...)
		img, err := erofs.Open(bytes.NewReader(w.b))
		must(err)
		for p := range src {
			if _, err := fs.Stat(img, p); err != nil {
				fail("%d: %.10s is listed but not found: %v", last, p, err)
			}
		}
	}
}
'''))
mk("tar-eof-data","X06","a reader that returns end-of-file together with the last bytes, and an archive without an end marker",
 "the bytes that come together with end-of-file are thrown away, so the last entry disappears or is cut off",
 [("tarfs/tarfs.go","	n, err = f.ra.ReadAt(p, f.offset)\n	f.offset += int64(n)\n	return\n","	n, err = f.ra.ReadAt(p, f.offset)\n	if errors.Is(err, io.EOF) && n == len(p) {\n		return 0, io.EOF\n	}\n	f.offset += int64(n)\n	return\n")],
 go(["archive/tar","bytes","io","io/fs",A+"tarfs"],'''
type early struct{ b []byte }

func (r early) ReadAt(p []byte, off int64) (int, error) {
	if off >= int64(len(r.b)) {
		return 0, io.EOF
	}
	n := copy(p, r.b[off:])
	if off+int64(n) == int64(len(r.b)) {
		return n, io.EOF
	}
	return n, nil
}

func main() {
	var b bytes.Buffer
	w := tar.NewWriter(&b)
	for _, n := range []string{"a", "b"} {
		must(w.WriteHeader(&tar.Header{Typeflag: tar.TypeReg, Name: n, Mode: 0o644, Size: 512}))
		_, err := w.Write(bytes.Repeat([]byte(n), 512))
		must(err)
	}
	must(w.Flush())
	fsys, err := tarfs.Open(early{b.Bytes()})
	must(err)
	for _, n := range []string{"a", "b"} {
		got, err := fs.ReadFile(fsys, n)
		if err != nil || len(got) != 512 {
			fail("%s: %d bytes, %v", n, len(got), err)
		}
	}
}
'''))
mk("tar-unreadable-dir","X01","a source in which listing some directory below the root fails",
 "a directory that cannot be listed is left out silently, creation still succeeds",
 [("erofs/writer.go","""		if err != nil {
			return err
		}

		fi, err := d.Info()""","""		if err != nil {
			if d != nil && d.IsDir() && path != "." {
				return fs.SkipDir
			}
			return err
		}

		fi, err := d.Info()"""),("tarfs/create.go","""		if err != nil {
			return err
		}

		// There's an implicit""","""		if err != nil {
			if d != nil && d.IsDir() && path != "." {
				return fs.SkipDir
			}
			return err
		}

		// There's an implicit""")],
 go(["bytes","errors","io/fs","testing/fstest",A+"tarfs"],'''
type bad struct{ fstest.MapFS }

func (b bad) ReadDir(p string) ([]fs.DirEntry, error) {
	if p == "d" {
		return nil, errors.New("cannot be listed")
	}
	return b.MapFS.ReadDir(p)
}

func main() {
	var b bytes.Buffer
	if err := tarfs.Create(&b, bad{fstest.MapFS{"d/f": {Data: []byte("x"), Mode: 0o644}, "e": {Mode: 0o644}}}); err == nil {
		fail("creation succeeds although a directory could not be listed")
	}
}
'''))
