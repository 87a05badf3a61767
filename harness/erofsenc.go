package main

import (
	"encoding/binary"
	"fmt"
	"io/fs"
	"math/rand"
	"path"
	"sort"
	"time"
)

// An encoder of EROFS images that shares nothing with the package under test: any block size, any
// position of the metadata area, both inode forms, plain and inline data, gaps, shared extents.

type eEnt struct {
	name string
	ino  *eIno
}

type eIno struct {
	node   *Node  // kind may also be chr, blk, fifo, sock
	ents   []eEnt // of a directory, without . and ..
	parent *eIno
	form   string // compact or extended
	layout string // plain or inline
	off    int64  // of the inode in the image
	raw    uint32
	nlink  int
	data   []byte
	placed bool
	num    uint32
	split  int // directories: most entries per block (0: as many as fit)
	padDir bool
	cuts   []int // entries of each block, . and .. included
	fixed  bool  // split and padDir are not chosen at random

	patch     func(ino []byte)                   // last changes to the inode
	patchData func(data []byte, blocks [][]eEnt) // and to the directory's data
}

type eImg struct {
	bits      int
	metaBlk   uint32
	root      *eIno
	inos      []*eIno
	checksum  bool
	buildTime time.Time
	blocks    uint32
	share     bool
	hints     int // types in directory entries: right, unknown or anything for some entries
	rng       *rand.Rand
}

func (im *eImg) bs() int64 { return 1 << im.bits }

func (i *eIno) isize() int64 {
	if i.form == "extended" {
		return 64
	}
	return 32
}

func eFileType(kind string) byte {
	return map[string]byte{"file": 1, "dir": 2, "chr": 3, "blk": 4, "fifo": 5, "sock": 6, "link": 7}[kind]
}

func eMode(n *Node) uint16 {
	m := uint16(n.Mode & fs.ModePerm)
	if n.Mode&fs.ModeSetuid != 0 {
		m |= 0o4000
	}
	if n.Mode&fs.ModeSetgid != 0 {
		m |= 0o2000
	}
	if n.Mode&fs.ModeSticky != 0 {
		m |= 0o1000
	}
	return m | map[string]uint16{"file": 0o100000, "dir": 0o040000, "chr": 0o020000, "blk": 0o060000, "fifo": 0o010000, "sock": 0o140000, "link": 0o120000}[n.Kind]
}

// canCompact: the short form has 16-bit owners and link counts, 32-bit sizes and no time.
func (im *eImg) canCompact(i *eIno) bool {
	return i.node.Uid <= 65535 && i.node.Gid <= 65535 && i.nlink <= 65535 && (i.node.NoTime || i.node.MTime.Equal(im.buildTime))
}

func (im *eImg) nid(i *eIno) uint64 {
	return uint64(i.off-int64(im.metaBlk)*im.bs()) / 32
}

// dirBlocks distributes a directory's entries over blocks: consecutive in name order.
func (im *eImg) dirBlocks(i *eIno) [][]eEnt {
	ents := append([]eEnt(nil), i.ents...)
	parent := i.parent
	if parent == nil {
		parent = i
	}
	ents = append(ents, eEnt{".", i}, eEnt{"..", parent})
	sort.Slice(ents, func(a, b int) bool { return ents[a].name < ents[b].name })
	var blocks [][]eEnt
	if i.cuts != nil {
		for _, n := range i.cuts {
			blocks = append(blocks, ents[:n])
			ents = ents[n:]
		}
		return blocks
	}
	size := int64(0)
	for _, e := range ents {
		n := int64(12 + len(e.name))
		if len(blocks) == 0 || size+n > im.bs() || (i.split > 0 && len(blocks[len(blocks)-1]) >= i.split) {
			blocks = append(blocks, nil)
			size = 0
		}
		blocks[len(blocks)-1] = append(blocks[len(blocks)-1], e)
		size += n
	}
	return blocks
}

// dirData serializes a directory; inode numbers are right only once all inodes are placed.
func (im *eImg) dirData(i *eIno) []byte {
	blocks := im.dirBlocks(i)
	var out []byte
	for k, b := range blocks {
		blk := make([]byte, 0, im.bs())
		off := 12 * len(b)
		for _, e := range b {
			var d [12]byte
			binary.LittleEndian.PutUint64(d[0:], im.nid(e.ino))
			binary.LittleEndian.PutUint16(d[8:], uint16(off))
			d[10] = eFileType(e.ino.node.Kind)
			if h := (len(e.name)*7 + int(e.name[0]) + k) % 8; im.hints == 1 && h < 4 {
				d[10] = 0
			} else if im.hints == 2 {
				d[10] = byte(h)
			}
			blk = append(blk, d[:]...)
			off += len(e.name)
		}
		for _, e := range b {
			blk = append(blk, e.name...)
		}
		if k < len(blocks)-1 || i.padDir {
			blk = append(blk, make([]byte, im.bs()-int64(len(blk)))...)
		}
		out = append(out, blk...)
	}
	return out
}

// build makes the inodes of a tree. Hard links: paths with the same *Node share an inode.
func newEImg(rng *rand.Rand, t Tree, bits int) *eImg {
	im := &eImg{bits: bits, rng: rng, buildTime: time.Unix(1600000000+int64(rng.Intn(1e8)), int64(rng.Intn(1e9)))}
	byNode := map[*Node]*eIno{}
	byPath := map[string]*eIno{}
	for _, p := range t.paths() {
		n := t[p]
		i := byNode[n]
		if i == nil {
			i = &eIno{node: n, num: uint32(len(im.inos) + 1)}
			byNode[n] = i
			im.inos = append(im.inos, i)
		}
		byPath[p] = i
		i.nlink++
	}
	im.root = byPath["."]
	for _, p := range t.paths() {
		if p == "." {
			continue
		}
		d := byPath[path.Dir(p)]
		i := byPath[p]
		d.ents = append(d.ents, eEnt{path.Base(p), i})
		if i.node.Kind == "dir" {
			i.parent = d
			d.nlink++
		}
	}
	for _, i := range im.inos {
		if i.node.Kind == "dir" {
			i.nlink++
		}
	}
	return im
}

// place chooses a layout at random.
func (im *eImg) place() {
	rng, bs := im.rng, im.bs()
	im.checksum = rng.Intn(2) == 0
	im.share = rng.Intn(2) == 0
	order := append([]*eIno(nil), im.inos...)
	rng.Shuffle(len(order), func(a, b int) { order[a], order[b] = order[b], order[a] })
	total := 0
	for _, i := range im.inos {
		total += len(i.node.Content)
	}
	if len(order) > 300 || total > 500000 {
		// the number of the root has 16 bits
		for k, i := range order {
			if i == im.root {
				order[0], order[k] = order[k], order[0]
			}
		}
	}
	sbEnd := int64(1024 + 128)
	up := func(x, a int64) int64 { return (x + a - 1) / a * a }
	var pos int64
	var pending []*eIno // data extents to be placed
	var sizes = map[*eIno]int64{}
	for _, i := range im.inos {
		switch i.node.Kind {
		case "dir":
			if !i.fixed {
				i.split = []int{0, 0, 0, 1 + rng.Intn(5)}[rng.Intn(4)]
				i.padDir = rng.Intn(4) == 0
			}
			i.data = im.dirData(i)
		case "link":
			i.data = []byte(i.node.Target)
		case "file":
			i.data = i.node.Content
		}
		sizes[i] = int64(len(i.data))
		i.form = "extended"
		if im.canCompact(i) && rng.Intn(3) > 0 {
			i.form = "compact"
		}
		i.layout = "plain"
		tail := sizes[i] % bs
		if tail > 0 && tail+i.isize() <= bs && rng.Intn(4) > 0 {
			i.layout = "inline"
		}
	}
	extent := func(i *eIno) int64 { // blocks outside the metadata
		if i.layout == "inline" {
			return sizes[i] / bs
		}
		return up(sizes[i], bs) / bs
	}
	// with small blocks there is room before the superblock
	low, lowEnd := int64(0), int64(1024)/bs
	if rng.Intn(3) > 0 {
		lowEnd = 0
	}
	putData := func(i *eIno) {
		n := extent(i)
		if n > 0 && low+n <= lowEnd && rng.Intn(2) == 0 {
			i.raw, i.placed = uint32(low), true
			low += n
			return
		}
		if n == 0 {
			i.raw = []uint32{0, 0xffffffff, 7}[rng.Intn(3)]
			if i.node.Kind == "chr" || i.node.Kind == "blk" {
				i.raw = 0x105
			}
			return
		}
		if im.share && i.node.Kind == "file" {
			for _, j := range im.inos {
				if j != i && j.placed && j.node.Kind == "file" && string(j.data) == string(i.data) && extent(j) == n {
					i.raw, i.placed = j.raw, true
					return
				}
			}
		}
		pos = up(pos, bs)
		i.raw = uint32(pos / bs)
		i.placed = true
		pos += n * bs
	}
	switch rng.Intn(3) {
	case 0:
		im.metaBlk = 0
		pos = up(sbEnd, 32)
	case 1:
		pos = up(sbEnd, bs)
		im.metaBlk = uint32(pos / bs)
	case 2: // data first
		pos = up(sbEnd, bs)
		for _, i := range order {
			if rng.Intn(2) == 0 {
				putData(i)
				i.placed = true
			}
		}
		pos = up(pos, bs) + bs*int64(rng.Intn(3))
		im.metaBlk = uint32(pos / bs)
	}
	gaps := rng.Intn(2) == 0
	// one inode may end where the image does
	var last *eIno
	if i := order[len(order)-1]; rng.Intn(2) == 0 && (i.layout != "inline" || sizes[i]%bs%32 == 0) {
		last = i
	}
	for _, i := range order {
		if i == last {
			if !i.placed {
				pending = append(pending, i)
			}
			continue
		}
		if gaps {
			switch rng.Intn(5) {
			case 0:
				pos += 32 * int64(rng.Intn(4))
			case 1:
				pos = up(pos, bs)
			}
		}
		need := i.isize()
		if i.layout == "inline" {
			// the tail lies within one block (the inode may reach into it from the one before)
			if (pos+need)/bs != (pos+need+sizes[i]%bs-1)/bs {
				pos = up(pos, bs)
			}
			need += sizes[i] % bs
		}
		i.off = pos
		pos = up(pos+need, 32)
		if !i.placed {
			if rng.Intn(3) == 0 {
				putData(i)
				i.placed = true
			} else {
				pending = append(pending, i)
			}
		}
	}
	for _, i := range pending {
		putData(i)
	}
	spare := rng.Intn(2)
	if last != nil {
		need := last.isize()
		spare = 0
		if last.layout == "inline" {
			need += sizes[last] % bs
		}
		pos = up(up(pos, 32)+need, bs)
		last.off = pos - need
	}
	pos = up(pos, bs)
	im.blocks = uint32(pos/bs) + uint32(spare)
}

func (im *eImg) encode() []byte {
	bs := im.bs()
	img := make([]byte, max(int64(im.blocks)*bs, 1024+128))
	for k := range img {
		if im.rng.Intn(16) == 0 {
			img[k] = byte(im.rng.Intn(256)) // nothing may depend on unused space
		}
	}
	le := binary.LittleEndian
	for _, i := range im.inos {
		if i.node.Kind == "dir" {
			i.data = im.dirData(i)
			if i.patchData != nil {
				i.patchData(i.data, im.dirBlocks(i))
			}
		}
		size := int64(len(i.data))
		b := make([]byte, i.isize())
		format := uint16(0)
		if i.form == "extended" {
			format |= 1
		}
		if i.layout == "inline" {
			format |= 2 << 1
		}
		le.PutUint16(b[0:], format)
		le.PutUint16(b[4:], eMode(i.node))
		if i.form == "extended" {
			le.PutUint64(b[8:], uint64(size))
			le.PutUint32(b[16:], i.raw)
			le.PutUint32(b[20:], i.num)
			le.PutUint32(b[24:], uint32(i.node.Uid))
			le.PutUint32(b[28:], uint32(i.node.Gid))
			le.PutUint64(b[32:], uint64(i.node.MTime.Unix()))
			le.PutUint32(b[40:], uint32(i.node.MTime.Nanosecond()))
			le.PutUint32(b[44:], uint32(i.nlink))
		} else {
			le.PutUint16(b[6:], uint16(i.nlink))
			le.PutUint32(b[8:], uint32(size))
			le.PutUint32(b[16:], i.raw)
			le.PutUint32(b[20:], i.num)
			le.PutUint16(b[24:], uint16(i.node.Uid))
			le.PutUint16(b[26:], uint16(i.node.Gid))
		}
		if i.patch != nil {
			i.patch(b)
		}
		copy(img[i.off:], b)
		if i.layout == "inline" {
			full := size / bs * bs
			copy(img[i.off+i.isize():], i.data[full:])
			copy(img[int64(i.raw)*bs*sign(full):], i.data[:full])
		} else if size > 0 {
			copy(img[int64(i.raw)*bs:], i.data)
			// the rest of the last block of a directory is padding
			if i.node.Kind == "dir" {
				end := int64(i.raw)*bs + size
				for k := end; k%bs != 0; k++ {
					img[k] = 0
				}
			}
		}
	}
	sb := img[1024 : 1024+128]
	clear(sb)
	le.PutUint32(sb[0:], 0xe0f5e1e2)
	if im.checksum {
		le.PutUint32(sb[8:], 1)
	}
	if im.rng.Intn(2) == 0 {
		le.PutUint32(sb[8:], le.Uint32(sb[8:])|0x2) // mtime feature: compatible
	}
	sb[12] = byte(im.bits)
	le.PutUint16(sb[14:], uint16(im.nid(im.root)))
	le.PutUint64(sb[16:], uint64(len(im.inos)))
	le.PutUint64(sb[24:], uint64(im.buildTime.Unix()))
	le.PutUint32(sb[32:], uint32(im.buildTime.Nanosecond()))
	le.PutUint32(sb[36:], im.blocks)
	le.PutUint32(sb[40:], im.metaBlk)
	le.PutUint32(sb[44:], uint32(im.rng.Intn(3)))
	im.rng.Read(sb[48:64])
	copy(sb[64:80], "volume")
	if im.checksum {
		im.setChecksum(img)
	}
	return img
}

func sign(x int64) int64 {
	if x > 0 {
		return 1
	}
	return 0
}

// setChecksum: crc32c of the block that holds the superblock, from the superblock on.
func (im *eImg) setChecksum(img []byte) {
	n := im.bs()
	if n > 1024 {
		n -= 1024
	}
	for int64(len(img)) < 1024+n {
		return
	}
	binary.LittleEndian.PutUint32(img[1028:], 0)
	binary.LittleEndian.PutUint32(img[1028:], crc32c(img[1024:1024+n]))
}

func crc32c(b []byte) uint32 {
	c := ^uint32(0)
	for _, x := range b {
		c ^= uint32(x)
		for k := 0; k < 8; k++ {
			if c&1 != 0 {
				c = c>>1 ^ 0x82f63b78
			} else {
				c >>= 1
			}
		}
	}
	return c
}

func (im *eImg) describe() string {
	s := fmt.Sprintf("bits=%d meta=%d root=%d", im.bits, im.metaBlk, im.nid(im.root))
	for k, i := range im.inos {
		if k > 12 {
			break
		}
		s += fmt.Sprintf(" [%s %s %s off=%d size=%d raw=%d]", i.node.Kind, i.form, i.layout, i.off, len(i.data), i.raw)
	}
	return s
}

// expected adjusts the tree to what the image can say: short inodes have the image's time.
func (im *eImg) expected() {
	for _, i := range im.inos {
		i.node.Nlink = i.nlink
		if i.form == "compact" {
			i.node.MTime, i.node.NoTime = im.buildTime, false
		}
	}
}
