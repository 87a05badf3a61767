package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"io/fs"
	"time"

	"github.com/dpeckett/archivefs/arfs"
	"github.com/dpeckett/archivefs/erofs"
	"github.com/dpeckett/archivefs/tarfs"
)

// One file that is larger than fits in 32 or 33 bits, mostly of zeros, and a small one behind it, into sparse archives.

func init() { suites["huge"] = hugeSuite }

type hugeFS struct {
	n    *Node
	size int64
	kind string
}

// behind is the size of the small file.
const behind = 5003

// hugeFill puts the bytes of the file from off on into p.
func hugeFill(p []byte, off, size int64) {
	clear(p)
	mark := func(a int64) {
		for i := a; i < a+16; i++ {
			if i >= off && i < off+int64(len(p)) && i >= 0 && i < size {
				p[i-off] = byte(i>>25) ^ byte(i) | 1
			}
		}
	}
	mark(0)
	mark(size - 16)
	for a := off &^ (1<<28 - 1); a <= off+int64(len(p)); a += 1 << 28 {
		mark(a - 8)
	}
}

type hugeInfo struct {
	srcInfo
	size int64
}

func (i hugeInfo) Size() int64 {
	if i.n.Kind == "file" {
		return i.size
	}
	return i.srcInfo.Size()
}

type hugeEntry struct{ hugeInfo }

func (e hugeEntry) Type() fs.FileMode          { return e.Mode().Type() }
func (e hugeEntry) Info() (fs.FileInfo, error) { return e.hugeInfo, nil }

func (h hugeFS) info(p string) (hugeInfo, error) {
	switch p {
	case ".":
		return hugeInfo{srcInfo{&Node{Kind: "dir", Mode: 0o755}, ".", h.kind}, 0}, nil
	case "a":
		return hugeInfo{srcInfo{h.n, "a", h.kind}, h.size}, nil
	case "b":
		return hugeInfo{srcInfo{h.n, "b", h.kind}, behind}, nil
	}
	return hugeInfo{}, &fs.PathError{Op: "stat", Path: p, Err: fs.ErrNotExist}
}

func (h hugeFS) Stat(p string) (fs.FileInfo, error) { return h.info(p) }

func (h hugeFS) ReadDir(p string) ([]fs.DirEntry, error) {
	if p != "." {
		return nil, &fs.PathError{Op: "readdir", Path: p, Err: fs.ErrInvalid}
	}
	i, _ := h.info("a")
	j, _ := h.info("b")
	return []fs.DirEntry{hugeEntry{i}, hugeEntry{j}}, nil
}

func (h hugeFS) Open(p string) (fs.File, error) {
	i, err := h.info(p)
	if err != nil {
		return nil, err
	}
	return &hugeFile{i: i}, nil
}

type hugeFile struct {
	i   hugeInfo
	off int64
}

func (f *hugeFile) Stat() (fs.FileInfo, error) { return f.i, nil }
func (f *hugeFile) Close() error               { return nil }
func (f *hugeFile) Read(p []byte) (int, error) {
	if f.i.n.Kind != "file" {
		return 0, fs.ErrInvalid
	}
	if f.off >= f.i.size {
		return 0, io.EOF
	}
	p = p[:min(int64(len(p)), f.i.size-f.off)]
	hugeFill(p, f.off, f.i.size)
	f.off += int64(len(p))
	return len(p), nil
}

// hugeMem keeps only blocks that are not all zeros.
type hugeMem struct {
	blocks map[int64][]byte
	size   int64
}

const hugeBlock = 4096

var zeros [1 << 20]byte

func (s *hugeMem) Write(p []byte) (int, error) { return s.WriteAt(p, s.size) }

func (s *hugeMem) WriteAt(p []byte, off int64) (int, error) {
	n := len(p)
	s.size = max(s.size, off+int64(n))
	for len(p) > 0 {
		b, o := off/hugeBlock, off%hugeBlock
		k := int(min(int64(len(p)), hugeBlock-o))
		blk := s.blocks[b]
		if blk == nil && !bytes.Equal(p[:k], zeros[:k]) {
			blk = make([]byte, hugeBlock)
			s.blocks[b] = blk
		}
		if blk != nil {
			copy(blk[o:], p[:k])
		}
		p, off = p[k:], off+int64(k)
	}
	return n, nil
}

func (s *hugeMem) ReadAt(p []byte, off int64) (int, error) {
	if off >= s.size {
		return 0, io.EOF
	}
	n := int(min(int64(len(p)), s.size-off))
	for q := p[:n]; len(q) > 0; {
		b, o := off/hugeBlock, off%hugeBlock
		k := int(min(int64(len(q)), hugeBlock-o))
		if blk := s.blocks[b]; blk != nil {
			copy(q[:k], blk[o:])
		} else {
			clear(q[:k])
		}
		q, off = q[k:], off+int64(k)
	}
	if n < len(p) {
		return n, io.EOF
	}
	return n, nil
}

func hugeSuite(c *Ctx, raw json.RawMessage) {
	var cc cCase
	fatal(json.Unmarshal(raw, &cc))
	h := hugeFS{kind: cc.Src}
	for k, x := range cc.Nodes {
		if len(x.P) == 1 {
			fmt.Sscanf(x.A.Sz, "s%d", &h.size)
			x.A.Sz = "s0"
			h.n = classNode(c, k, x.A, "a")
		}
	}
	if h.n == nil {
		return
	}
	s := cc.Steps[0]
	m := &hugeMem{blocks: map[int64][]byte{}}
	what := fmt.Sprintf("%s with a file of %d bytes", s.F, h.size)
	var err error
	var fsys fs.FS
	switch s.F {
	case "tar":
		err = tarfs.Create(m, h)
	case "ar":
		err = arfs.Create(m, h)
	case "erofs":
		err = erofs.Create(m, h)
	}
	if s.R == "refuse" {
		c.Check(err != nil, s.F+".refuse", "%s: succeeds", what)
		return
	}
	if !c.Check(err == nil, s.F+".tree", "%s: %v", what, err) {
		return
	}
	switch s.F {
	case "tar":
		fsys, err = fsOrNil(tarfs.Open(m))
	case "ar":
		fsys, err = fsOrNil(arfs.Open(m))
	case "erofs":
		fsys, err = fsOrNil(erofs.Open(m))
	}
	if !c.Check(err == nil, s.F+".tree", "%s: does not open: %v", what, err) {
		return
	}
	for name, size := range map[string]int64{"a": h.size, "b": behind} {
		hugeLook(c, s.F, fmt.Sprintf("%s: %q", what, name), s.Own == "same", fsys, h, name, size)
	}
}

// hugeLook compares one of the files with its source.
func hugeLook(c *Ctx, format, what string, own bool, fsys fs.FS, h hugeFS, name string, size int64) {
	f, err := fsys.Open(name)
	if !c.Check(err == nil, format+".tree", "%s: %v", what, err) {
		return
	}
	defer f.Close()
	fi, err := f.Stat()
	c.Check(err == nil && fi.Size() == size && fi.Mode() == h.n.Mode, format+".meta", "%s: size %d mode %v, want %d %v, %v", what, fi.Size(), fi.Mode(), size, h.n.Mode, err)
	mt := h.n.MTime
	if mt.IsZero() {
		mt = time.Unix(0, 0)
	}
	c.Check(fi.ModTime().Equal(mt), format+".meta", "%s: time %v, want %v", what, fi.ModTime(), mt)
	if u, g, ok := ownerOf(fi); own {
		c.Check(ok && u == h.n.Uid && g == h.n.Gid, format+".meta", "%s: owner %d:%d, want %d:%d", what, u, g, h.n.Uid, h.n.Gid)
	}
	buf, want := make([]byte, len(zeros)), make([]byte, len(zeros))
	off := int64(0)
	for {
		n, err := io.ReadFull(f, buf)
		hugeFill(want[:n], off, size)
		if !c.Check(bytes.Equal(buf[:n], want[:n]), format+".tree", "%s: other content after offset %d", what, off) {
			return
		}
		off += int64(n)
		if err != nil {
			c.Check(off == size && (err == io.EOF || err == io.ErrUnexpectedEOF), format+".tree", "%s: %v after %d bytes", what, err, off)
			return
		}
	}
}
