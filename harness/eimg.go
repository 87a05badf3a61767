package main

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"time"

	"github.com/dpeckett/archivefs/erofs"
)

func init() { suites["eimg"] = eimgSuite }

// sparse is a huge random-access image: pages that were written, pseudo-random bytes elsewhere.
type sparse struct {
	pages map[int64][]byte
	size  int64
	salt  uint64
	early bool
}

func (s *sparse) page(n int64, make_ bool) []byte {
	if p, ok := s.pages[n]; ok {
		return p
	}
	p := make([]byte, 4096)
	for k := 0; k < 4096; k += 8 {
		x := (uint64(n)*512+uint64(k/8)+s.salt)*0x9e3779b97f4a7c15 + 0x1234567
		x ^= x >> 29
		x *= 0xbf58476d1ce4e5b9
		x ^= x >> 32
		binary.LittleEndian.PutUint64(p[k:], x)
	}
	if make_ {
		s.pages[n] = p
	}
	return p
}

func (s *sparse) put(off int64, b []byte) {
	for len(b) > 0 {
		p := s.page(off/4096, true)
		n := copy(p[off%4096:], b)
		b, off = b[n:], off+int64(n)
	}
}

func (s *sparse) ReadAt(b []byte, off int64) (int, error) {
	if off < 0 {
		return 0, fmt.Errorf("negative offset")
	}
	n := 0
	for len(b) > 0 && off < s.size {
		p := s.page(off/4096, false)[off%4096:]
		p = p[:min(int64(len(p)), s.size-off)]
		k := copy(b, p)
		b, off, n = b[k:], off+int64(k), n+k
	}
	if len(b) > 0 || (s.early && off == s.size) {
		return n, io.EOF
	}
	return n, nil
}

func (s *sparse) get(off int64, n int) []byte {
	b := make([]byte, n)
	s.ReadAt(b, off)
	return b
}

type iAddr struct {
	B int64 `json:"b"`
	O int64 `json:"o"`
}

type iCase struct {
	M struct {
		Bits   int    `json:"bits"`
		Meta   int64  `json:"meta"`
		Root   int64  `json:"root"`
		Kind   string `json:"kind"`
		Nb     int64  `json:"nb"`
		Ns     int64  `json:"ns"`
		Form   string `json:"form"`
		Layout string `json:"layout"`
		Q      int64  `json:"q"`
		T      int64  `json:"t"`
		Raw    int64  `json:"raw"`
		Rh     int64  `json:"rh"`
		Mh     int64  `json:"mh"`
	} `json:"m"`
	Inode  iAddr `json:"inode"`
	Rootat iAddr `json:"rootat"`
	Dir    int64 `json:"dir"`
	Segs   []struct {
		iAddr
		Q int64 `json:"q"`
		N int64 `json:"n"`
	} `json:"segs"`
}

// rawInode encodes one inode.
func rawInode(form, layout string, n *Node, nlink int, size int64, raw uint32, num uint32) []byte {
	le := binary.LittleEndian
	format := uint16(0)
	if layout == "inline" {
		format |= 2 << 1
	}
	if form == "extended" {
		b := make([]byte, 64)
		le.PutUint16(b[0:], format|1)
		le.PutUint16(b[4:], eMode(n))
		le.PutUint64(b[8:], uint64(size))
		le.PutUint32(b[16:], raw)
		le.PutUint32(b[20:], num)
		le.PutUint32(b[24:], uint32(n.Uid))
		le.PutUint32(b[28:], uint32(n.Gid))
		le.PutUint64(b[32:], uint64(n.MTime.Unix()))
		le.PutUint32(b[40:], uint32(n.MTime.Nanosecond()))
		le.PutUint32(b[44:], uint32(nlink))
		return b
	}
	b := make([]byte, 32)
	le.PutUint16(b[0:], format)
	le.PutUint16(b[4:], eMode(n))
	le.PutUint16(b[6:], uint16(nlink))
	le.PutUint32(b[8:], uint32(size))
	le.PutUint32(b[16:], raw)
	le.PutUint32(b[20:], num)
	le.PutUint16(b[24:], uint16(n.Uid))
	le.PutUint16(b[26:], uint16(n.Gid))
	return b
}

// rawDir encodes one directory block.
func rawDir(names []string, nids []uint64, kinds []string) []byte {
	var b []byte
	off := 12 * len(names)
	for k, s := range names {
		var d [12]byte
		binary.LittleEndian.PutUint64(d[0:], nids[k])
		binary.LittleEndian.PutUint16(d[8:], uint16(off))
		d[10] = eFileType(kinds[k])
		b = append(b, d[:]...)
		off += len(s)
	}
	for _, s := range names {
		b = append(b, s...)
	}
	return b
}

// rawSuper encodes the superblock (without checksum).
func rawSuper(bits int, compat uint32, root uint16, inodes uint64, build time.Time, blocks, meta uint32) []byte {
	le := binary.LittleEndian
	sb := make([]byte, 128)
	le.PutUint32(sb[0:], 0xe0f5e1e2)
	le.PutUint32(sb[8:], compat)
	sb[12] = byte(bits)
	le.PutUint16(sb[14:], root)
	le.PutUint64(sb[16:], inodes)
	le.PutUint64(sb[24:], uint64(build.Unix()))
	le.PutUint32(sb[32:], uint32(build.Nanosecond()))
	le.PutUint32(sb[36:], blocks)
	le.PutUint32(sb[40:], meta)
	copy(sb[48:80], "0123456789abcdefvolume name")
	return sb
}

func eimgSuite(c *Ctx, raw json.RawMessage) {
	var ic iCase
	fatal(json.Unmarshal(raw, &ic))
	m, rng := ic.M, c.Rng
	bs := int64(1) << m.Bits
	metaHi, rawHi := m.Mh<<31, m.Rh<<31
	build := time.Unix(1600000000+int64(rng.Intn(1e8)), int64(rng.Intn(1e9)))
	n := &Node{Kind: m.Kind, Mode: unixMode(arModes[rng.Intn(len(arModes))]), Nlink: 1 + rng.Intn(60000),
		MTime: []time.Time{time.Unix(0, 0), time.Unix(-5, 7), time.Unix(1<<33, 999999999), time.Unix(1<<40, 0), time.Unix(1e9, 1)}[rng.Intn(5)],
		Uid:   []int{0, 1000, 65535, 65536, 1<<32 - 1}[rng.Intn(5)], Gid: []int{0, 1001, 65535, 65536, 1<<32 - 1}[rng.Intn(5)]}
	if m.Form == "compact" {
		n.Uid, n.Gid, n.MTime = n.Uid&0xffff, n.Gid&0xffff, build
	} else if rng.Intn(4) == 0 {
		n.Nlink = 65536 + rng.Intn(1<<20)
	}
	rn := &Node{Kind: "dir", Mode: 0o755, MTime: build.Add(time.Second), Uid: 5, Gid: 6, Nlink: 2}
	s := &sparse{pages: map[int64][]byte{}, salt: rng.Uint64(), early: rng.Intn(2) == 0}
	size := m.Q*bs + m.T
	rawField := uint32(m.Raw + rawHi)
	if len(ic.Segs) == 0 || (m.Q == 0 && m.Layout == "inline") {
		rawField = []uint32{0, 0xffffffff, 12345}[rng.Intn(3)]
	}
	inodeAt := (ic.Inode.B+metaHi)*bs + ic.Inode.O
	rootAt := (ic.Rootat.B+metaHi)*bs + ic.Rootat.O
	nid := uint64(m.Nb*(bs/32) + m.Ns)
	end := int64(1152)
	put := func(off int64, b []byte) {
		s.put(off, b)
		end = max(end, off+int64(len(b)))
	}
	put(inodeAt, rawInode(m.Form, m.Layout, n, n.Nlink, size, rawField, 2))
	dir := rawDir([]string{".", "..", "x", "y"}, []uint64{uint64(m.Root), uint64(m.Root), nid, nid}, []string{"dir", "dir", m.Kind, m.Kind})
	put(rootAt, rawInode("extended", "plain", rn, 2, int64(len(dir)), uint32(ic.Dir+rawHi), 1))
	put((ic.Dir+rawHi)*bs, dir)
	type seg struct{ off, n int64 }
	var segs []seg
	for k, x := range ic.Segs {
		hi := rawHi
		if m.Layout == "inline" && k == len(ic.Segs)-1 {
			hi = metaHi
		}
		segs = append(segs, seg{(x.B+hi)*bs + x.O, x.Q*bs + x.N})
		end = max(end, segs[k].off+segs[k].n)
	}
	compat := uint32(rng.Intn(2))
	if rng.Intn(3) == 0 {
		compat |= rng.Uint32() &^ 1 // features one need not know
	}
	if compat&1 == 1 {
		end = max(end, max(bs, 1024+512))
	}
	s.size = end + []int64{0, 0, 1, bs - end%bs, 5 * bs}[rng.Intn(5)]
	sb := rawSuper(m.Bits, compat, uint16(m.Root), 2, build, uint32(s.size/bs), uint32(m.Meta+metaHi))
	s.put(1024, sb)
	if compat&1 == 1 {
		n := int(bs)
		if bs > 1024 {
			n = int(bs - 1024)
		}
		binary.LittleEndian.PutUint32(sb[4:], crc32c(s.get(1024, n)))
		s.put(1024, sb)
	}
	var want []byte
	for _, x := range segs {
		want = append(want, s.get(x.off, int(x.n))...)
	}
	n.Content, n.Target = want, string(want)
	what := fmt.Sprintf("%s", raw)
	fsys, err := erofs.Open(s)
	if !c.Check(err == nil, "image", "%s: %v", what, err) {
		return
	}
	c.Count(m.Kind + " " + m.Form + " " + m.Layout)
	if c.tap(fsys, "erofs", nil, what) {
		return
	}
	Obs{Topic: "image", Root: true}.Observe(c, what, fsys, Tree{".": rn, "x": n, "y": n})
}
