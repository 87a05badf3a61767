import sys; sys.path.insert(0,'/tmp/seed')
from mk import mk
from lib import go, WAT
A="github.com/dpeckett/archivefs/"
DATA='''	if err := w.writeData(); err != nil {
		return fmt.Errorf("failed to write data blocks: %w", err)
	}

'''
mk("erofs-big-late","E08","more than a mebibyte of data blocks, and creation ending before the last of them is written",
 "large data is written after the superblock, so an image cut short is accepted",
 [("erofs/writer.go",DATA+"	sb := SuperBlock{","	// Large data is streamed once everything else is in place.\n	streamed := dataSize > 1<<20\n	if !streamed {\n		if err := w.writeData(); err != nil {\n			return fmt.Errorf(\"failed to write data blocks: %w\", err)\n		}\n	}\n\n	sb := SuperBlock{"),
  ("erofs/writer.go","	if f, ok := w.dst.(*os.File); ok {","	if streamed {\n		if err := w.writeData(); err != nil {\n			return fmt.Errorf(\"failed to write data blocks: %w\", err)\n		}\n	}\n\n	if f, ok := w.dst.(*os.File); ok {")],
 go(["bytes","errors","io/fs",A+"erofs",A+"memfs"],WAT+'''
type broken struct {
	wat
	left int
}

func (w *broken) WriteAt(p []byte, off int64) (int, error) {
	if w.left == 0 {
		return 0, errors.New("no space left")
	}
	w.left--
	return w.wat.WriteAt(p, off)
}

func main() {
	src := memfs.New()
	want := bytes.Repeat([]byte("archivefs"), 200000)
	must(src.WriteFile("a", want, 0o644))
	for k := 0; ; k++ {
		w := &broken{left: k}
		err := erofs.Create(w, src)
		if fsys, oerr := erofs.Open(bytes.NewReader(w.b)); err != nil && oerr == nil {
			if b, rerr := fs.ReadFile(fsys, "a"); !bytes.Equal(b, want) {
				fail("after %d writes: opens, but a is %d bytes, %v", k, len(b), rerr)
			}
		}
		if err == nil {
			break
		}
	}
}
'''))
mk("erofs-4g","E04","more than 4 GiB of data before a file",
 "the block address of data beyond 4 GiB of other data wraps around",
 [("erofs/writer.go","""			ino.Ino = nid
			ino.Size = uint64(size)
			if inlined {
				ino.Format = setBits(ino.Format, InodeDataLayoutFlatInline, InodeDataLayoutBit, InodeDataLayoutBits)
			} else {
				ino.Format = setBits(ino.Format, InodeDataLayoutFlatPlain, InodeDataLayoutBit, InodeDataLayoutBits)
				ino.RawBlockAddr = uint32(dataSize / BlockSize)
""","""			ino.Ino = nid
			ino.Size = uint64(size)
			if inlined {
				ino.Format = setBits(ino.Format, InodeDataLayoutFlatInline, InodeDataLayoutBit, InodeDataLayoutBits)
			} else {
				ino.Format = setBits(ino.Format, InodeDataLayoutFlatPlain, InodeDataLayoutBit, InodeDataLayoutBits)
				ino.RawBlockAddr = uint32(dataSize) >> BlockSizeBits
""")],
 go(["bytes","io","io/fs","time",A+"erofs"],'''
// sparse keeps the blocks that are not zero.
type sparse struct {
	b   map[int64][]byte
	end int64
}

func (s *sparse) WriteAt(p []byte, off int64) (int, error) {
	n := len(p)
	s.end = max(s.end, off+int64(n))
	for len(p) > 0 {
		k := min(len(p), 4096-int(off%4096))
		blk := s.b[off/4096]
		if blk == nil && !bytes.Equal(p[:k], zero[:k]) {
			blk = make([]byte, 4096)
			s.b[off/4096] = blk
		}
		if blk != nil {
			copy(blk[off%4096:], p[:k])
		}
		p, off = p[k:], off+int64(k)
	}
	return n, nil
}

func (s *sparse) ReadAt(p []byte, off int64) (int, error) {
	for i := range p {
		if off+int64(i) >= s.end {
			return i, io.EOF
		}
		p[i] = 0
		if blk := s.b[(off+int64(i))/4096]; blk != nil {
			p[i] = blk[(off+int64(i))%4096]
		}
	}
	return len(p), nil
}

var zero [4096]byte

// source has a huge file of zeros, a, and a small one of ones, b.
type source struct{}

type node struct {
	name string
	size int64
	dir  bool
	off  int64
}

func (n *node) Name() string               { return n.name }
func (n *node) Size() int64                { return n.size }
func (n *node) Mode() fs.FileMode {
	if n.dir {
		return 0o755 | fs.ModeDir
	}
	return 0o644
}
func (n *node) ModTime() time.Time         { return time.Unix(1000, 0) }
func (n *node) IsDir() bool                { return n.dir }
func (n *node) Sys() any                   { return nil }
func (n *node) Type() fs.FileMode          { return n.Mode().Type() }
func (n *node) Info() (fs.FileInfo, error) { return n, nil }
func (n *node) Stat() (fs.FileInfo, error) { return n, nil }
func (n *node) Close() error               { return nil }
func (n *node) Read(p []byte) (int, error) {
	if n.off >= n.size {
		return 0, io.EOF
	}
	p = p[:min(int64(len(p)), n.size-n.off)]
	clear(p)
	if n.name == "b" {
		for i := range p {
			p[i] = 1
		}
	}
	n.off += int64(len(p))
	return len(p), nil
}

func (source) Open(name string) (fs.File, error) {
	switch name {
	case ".":
		return &node{name: ".", dir: true}, nil
	case "a":
		return &node{name: "a", size: 1<<32 + 4096}, nil
	case "b":
		return &node{name: "b", size: 5000}, nil
	}
	return nil, fs.ErrNotExist
}

func (source) ReadDir(string) ([]fs.DirEntry, error) {
	return []fs.DirEntry{&node{name: "a", size: 1<<32 + 4096}, &node{name: "b", size: 5000}}, nil
}

func main() {
	s := &sparse{b: map[int64][]byte{}}
	must(erofs.Create(s, source{}))
	fsys, err := erofs.Open(s)
	must(err)
	b, err := fs.ReadFile(fsys, "b")
	must(err)
	if !bytes.Equal(b, bytes.Repeat([]byte{1}, 5000)) {
		fail("b: other content")
	}
	f, err := fsys.Open("a")
	must(err)
	buf := make([]byte, 1<<16)
	_, err = io.ReadFull(f, buf)
	must(err)
	if !bytes.Equal(buf, make([]byte, 1<<16)) {
		fail("a: other content")
	}
}
'''))
