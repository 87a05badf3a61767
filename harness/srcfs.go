package main

import (
	"archive/tar"
	"io"
	"io/fs"
	"path"
	"syscall"
	"time"
)

// srcFS presents a Tree as a source filesystem. Faults are injected by the hook.
type srcFS struct {
	t     Tree
	kind  string // plain, hdr, stat: what Sys supplies
	chunk int    // reads deliver at most this many bytes (0: any)
	hook  func(op, p string, n int) error
	lie   map[string]int // delivered length minus stated size
	early bool           // io.EOF comes with the last bytes
	opens int            // files that are open
}

type srcLinkFS struct{ *srcFS } // also knows links

func (s *srcFS) fault(op, p string, n int) error {
	if s.hook != nil {
		return s.hook(op, p, n)
	}
	return nil
}

func (s *srcFS) follow(p string) (string, bool) {
	for k := 0; k < 50; k++ {
		n, ok := s.t[p]
		if !ok || n.Kind != "link" {
			return p, ok
		}
		if path.IsAbs(n.Target) {
			p = path.Clean(n.Target)[1:]
			if p == "" {
				p = "."
			}
		} else {
			p = path.Join(path.Dir(p), n.Target)
		}
	}
	return p, false
}

func (s *srcFS) Open(p string) (fs.File, error) {
	if err := s.fault("open", p, 0); err != nil {
		return nil, err
	}
	q, ok := s.follow(p)
	if !ok {
		return nil, &fs.PathError{Op: "open", Path: p, Err: fs.ErrNotExist}
	}
	s.opens++
	return &srcFile{s: s, p: q, n: s.t[q], data: s.data(q)}, nil
}

func (s *srcFS) data(p string) []byte {
	b := s.t[p].Content
	if d := s.lie[p]; d > 0 {
		b = append(append([]byte(nil), b...), content("more", d)...)
	} else if d < 0 {
		b = b[:len(b)+d]
	}
	return b
}

func (s *srcFS) Stat(p string) (fs.FileInfo, error) {
	if err := s.fault("stat", p, 0); err != nil {
		return nil, err
	}
	q, ok := s.follow(p)
	if !ok {
		return nil, &fs.PathError{Op: "stat", Path: p, Err: fs.ErrNotExist}
	}
	return srcInfo{s.t[q], path.Base(p), s.kind}, nil
}

func (s *srcFS) ReadDir(p string) ([]fs.DirEntry, error) {
	if err := s.fault("readdir", p, 0); err != nil {
		return nil, err
	}
	n, ok := s.t[p]
	if !ok || n.Kind != "dir" {
		return nil, &fs.PathError{Op: "readdir", Path: p, Err: fs.ErrNotExist}
	}
	var l []fs.DirEntry
	for _, name := range s.t.children(p) {
		q := path.Join(p, name)
		l = append(l, srcEntry{srcInfo{s.t[q], name, s.kind}, s, q})
	}
	return l, nil
}

func (s srcLinkFS) ReadLink(p string) (string, error) {
	if err := s.fault("readlink", p, 0); err != nil {
		return "", err
	}
	n, ok := s.t[p]
	if !ok {
		return "", fs.ErrNotExist
	}
	if n.Kind != "link" {
		return "", fs.ErrInvalid
	}
	return n.Target, nil
}

func (s srcLinkFS) StatLink(p string) (fs.FileInfo, error) {
	if err := s.fault("lstat", p, 0); err != nil {
		return nil, err
	}
	n, ok := s.t[p]
	if !ok {
		return nil, fs.ErrNotExist
	}
	return srcInfo{n, path.Base(p), s.kind}, nil
}

type srcEntry struct {
	srcInfo
	s *srcFS
	p string
}

func (e srcEntry) Type() fs.FileMode { return e.Mode().Type() }
func (e srcEntry) Info() (fs.FileInfo, error) {
	if err := e.s.fault("info", e.p, 0); err != nil {
		return nil, err
	}
	return e.srcInfo, nil
}

type srcInfo struct {
	n    *Node
	name string
	kind string
}

func (i srcInfo) Name() string { return i.name }
func (i srcInfo) IsDir() bool  { return i.n.Kind == "dir" }
func (i srcInfo) Size() int64 {
	switch i.n.Kind {
	case "link":
		return int64(len(i.n.Target))
	case "dir":
		return 4096
	}
	return int64(len(i.n.Content))
}
func (i srcInfo) Mode() fs.FileMode {
	m := i.n.Mode & permBits
	switch i.n.Kind {
	case "dir":
		m |= fs.ModeDir
	case "link":
		m |= fs.ModeSymlink
	case "chr":
		m |= fs.ModeDevice | fs.ModeCharDevice
	case "blk":
		m |= fs.ModeDevice
	case "fifo":
		m |= fs.ModeNamedPipe
	case "sock":
		m |= fs.ModeSocket
	case "irr":
		m |= fs.ModeIrregular
	}
	return m
}
func (i srcInfo) ModTime() time.Time { return i.n.MTime }
func (i srcInfo) Sys() any {
	switch i.kind {
	case "hdr":
		h := &tar.Header{Name: i.name, Uid: i.n.Uid, Gid: i.n.Gid, Mode: int64(eMode(i.n) & 0o7777), ModTime: i.n.MTime, Size: int64(len(i.n.Content)), Linkname: i.n.Target}
		h.Typeflag = map[string]byte{"file": '0', "dir": '5', "link": '2', "chr": '3', "blk": '4', "fifo": '6'}[i.n.Kind]
		return h
	case "stat":
		return &syscall.Stat_t{Uid: uint32(i.n.Uid), Gid: uint32(i.n.Gid), Mode: uint32(eMode(i.n)), Nlink: 1, Size: i.Size()}
	}
	return nil
}

type srcFile struct {
	s    *srcFS
	p    string
	n    *Node
	data []byte
	off  int
	done bool
}

func (f *srcFile) Stat() (fs.FileInfo, error) {
	if err := f.s.fault("fstat", f.p, 0); err != nil {
		return nil, err
	}
	return srcInfo{f.n, path.Base(f.p), f.s.kind}, nil
}

func (f *srcFile) Read(p []byte) (int, error) {
	if f.n.Kind != "file" {
		return 0, &fs.PathError{Op: "read", Path: f.p, Err: syscall.EISDIR}
	}
	if err := f.s.fault("read", f.p, f.off); err != nil {
		return 0, err
	}
	if len(p) == 0 {
		return 0, nil
	}
	if f.off == len(f.data) {
		return 0, io.EOF
	}
	if f.s.chunk > 0 && len(p) > f.s.chunk {
		p = p[:f.s.chunk]
	}
	n := copy(p, f.data[f.off:])
	f.off += n
	if f.s.early && f.off == len(f.data) {
		return n, io.EOF
	}
	return n, nil
}

func (f *srcFile) ReadDir(n int) ([]fs.DirEntry, error) { return f.s.ReadDir(f.p) }

func (f *srcFile) Close() error {
	if f.done {
		return fs.ErrClosed
	}
	f.done = true
	f.s.opens--
	return nil
}

// memAt is a destination in memory.
type memAt struct {
	b      []byte
	writes []memWrite
	record bool
	fail   int // the write with this number fails (if > 0)
	part   int // after this many bytes
	n      int
}

type memWrite struct {
	off int64
	b   []byte
}

func (m *memAt) WriteAt(p []byte, off int64) (int, error) {
	m.n++
	if m.fail > 0 && m.n >= m.fail {
		p = p[:min(m.part, len(p))]
		m.put(p, off)
		return len(p), errInjectedWrite
	}
	m.put(p, off)
	return len(p), nil
}

func (m *memAt) put(p []byte, off int64) {
	if m.record {
		m.writes = append(m.writes, memWrite{off, append([]byte(nil), p...)})
	}
	if need := off + int64(len(p)) - int64(len(m.b)); need > 0 {
		m.b = append(m.b, make([]byte, need)...)
	}
	copy(m.b[off:], p)
}

// memW is a destination stream in memory.
type memW struct {
	b    []byte
	fail int // bytes after which writing fails (if >= 0 and failing)
	on   bool
	n    int
	nth  int // the write call with this number fails (if > 0)
}

func (m *memW) Write(p []byte) (int, error) {
	m.n++
	if m.on && (m.nth > 0 && m.n >= m.nth || m.nth == 0 && len(m.b)+len(p) > m.fail) {
		k := 0
		if m.nth == 0 {
			k = max(0, m.fail-len(m.b))
		}
		m.b = append(m.b, p[:k]...)
		return k, errInjectedWrite
	}
	m.b = append(m.b, p...)
	return len(p), nil
}
