package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"io/fs"
	"strings"

	"github.com/dpeckett/archivefs/erofs"
)

func init() { suites["edamage"] = edamageSuite }

type dCase struct {
	xTree
	Fault struct {
		F string   `json:"f"`
		I int      `json:"i"`
		P []string `json:"p"`
	} `json:"fault"`
	Open string `json:"open"`
	Want []struct {
		P    []string `json:"p"`
		Stat string   `json:"stat"`
		Data string   `json:"data"`
	} `json:"want"`
}

func edamageSuite(c *Ctx, raw json.RawMessage) {
	var dc dCase
	fatal(json.Unmarshal(raw, &dc))
	rng := c.Rng
	le := binary.LittleEndian
	bits := []int{9, 9, 10, 12, 12, 13}[rng.Intn(6)]
	im, t, at := encodeTree(c, dc.xTree, bits)
	bs := im.bs()
	f := dc.Fault.F
	var victim *eIno
	var name string
	if dc.Fault.I > 0 {
		for _, x := range dc.Paths {
			if x.I == dc.Fault.I {
				for _, i := range im.inos {
					if i.node == t[at(x.P)] {
						victim = i
					}
				}
			}
		}
	} else if f == "nid" || f == "nidhuge" {
		up := dc.Fault.P[:len(dc.Fault.P)-1]
		name = at(dc.Fault.P[len(dc.Fault.P)-1:])
		for _, i := range im.inos {
			if i.node == t[at(up)] {
				victim = i
			}
		}
	}
	detail := ""
	var length int64
	place := func() bool { // is the fault possible with this layout?
		im.place()
		if f == "checksum" {
			im.checksum = true
		}
		length = max(int64(im.blocks)*bs, 1024+128)
		if f == "tail" {
			return (victim.off+victim.isize())%bs != 0
		}
		return true
	}
	for n := 0; !place(); n++ {
		if n > 50 {
			c.Count("not applicable")
			return
		}
		for _, i := range im.inos {
			i.placed = false
		}
	}
	setSize := func(b []byte, n uint64) {
		if victim.form == "extended" {
			le.PutUint64(b[8:], n)
		} else {
			le.PutUint32(b[8:], uint32(min(n, 1<<32-1)))
		}
	}
	switch f {
	case "xattr":
		victim.patch = func(b []byte) { le.PutUint16(b[2:], []uint16{1, 2, 0xffff, 0x8000, 256}[rng.Intn(5)]) }
	case "layout":
		l := []uint16{1, 3, 4, 5, 6, 7}[rng.Intn(6)]
		detail = fmt.Sprint(l)
		victim.patch = func(b []byte) { le.PutUint16(b[0:], le.Uint16(b)&1|l<<1) }
	case "tail":
		victim.patch = func(b []byte) {
			room := bs - (victim.off+victim.isize())%bs
			n := room + 1 + rng.Int63n(bs-1-room+1)
			n = min(n, bs-1)
			if rng.Intn(3) == 0 {
				n = room + 1
			}
			if n >= bs { // room is bs-1: every tail fits
				detail = "impossible"
				return
			}
			if rng.Intn(3) == 0 {
				n += bs * (int64(len(victim.data)) / bs)
			}
			detail = fmt.Sprint(n)
			le.PutUint16(b[0:], le.Uint16(b)&1|2<<1)
			setSize(b, uint64(n))
		}
	case "beyond":
		victim.patch = func(b []byte) {
			q := int64(0)
			if base := int64(victim.raw) * bs; base < length {
				q = (length - base) / bs
			}
			n := (q+1)*bs + []int64{0, 1, 7, bs - 1, 3 * bs}[rng.Intn(5)]
			if victim.layout == "inline" && n%bs == 0 {
				n++
			}
			if victim.layout == "plain" && int64(victim.raw)*bs < length {
				n = length - int64(victim.raw)*bs + []int64{1, 1, 2, 100, bs, 10 * bs}[rng.Intn(6)]
			}
			detail = fmt.Sprint(n)
			setSize(b, uint64(n))
		}
	case "far":
		victim.patch = func(b []byte) {
			raw := uint32(length/bs) + []uint32{1, 2, 1000, 0x7fffff00, 0xfffffff0 - uint32(length/bs)}[rng.Intn(5)]
			le.PutUint32(b[16:], raw)
			detail = fmt.Sprint(raw)
			if victim.layout == "inline" && int64(len(victim.data)) < bs {
				// everything is inline: give it a block
				setSize(b, uint64(int64(len(victim.data))%bs+bs))
			}
		}
	case "huge":
		victim.patch = func(b []byte) {
			n := []uint64{1<<32 - 1, 1 << 32, 1<<40 + 5, 1 << 62, 1<<62 + 33, 1<<63 - 1, 1 << 63, 1<<63 - uint64(bs) + 1, 1<<64 - 1, -uint64(bs)}[rng.Intn(10)]
			detail = fmt.Sprint(n)
			setSize(b, n)
		}
	}
	collision := false
	if victim != nil && victim.node.Kind == "dir" {
		victim.patchData = func(data []byte, blocks [][]eEnt) {
			size := func(k int) int64 {
				if k == len(blocks)-1 && int64(len(data))%bs != 0 {
					return int64(len(data)) % bs
				}
				return bs
			}
			var multi []int
			for k, b := range blocks {
				if len(b) > 1 {
					multi = append(multi, k)
				}
			}
			k := rng.Intn(len(blocks))
			ff := f
			if (f == "back" || f == "empty") && len(multi) == 0 {
				ff = "out"
			} else if f == "back" || f == "empty" {
				k = multi[rng.Intn(len(multi))]
			}
			blk := data[int64(k)*bs:]
			n := len(blocks[k])
			off := func(e int) []byte { return blk[12*e+8:] }
			detail = fmt.Sprintf("block %d of %d, %d entries", k, len(blocks), n)
			beyond := func() uint16 {
				s := size(k)
				return uint16([]int64{s, s + 1, 65535, s + rng.Int63n(65536-s)}[rng.Intn(4)])
			}
			switch ff {
			case "first0":
				le.PutUint16(off(0), 0)
			case "firstsmall":
				le.PutUint16(off(0), uint16(1+rng.Intn(11)))
			case "firstbig":
				le.PutUint16(off(0), beyond())
			case "back", "empty":
				e := rng.Intn(n - 1)
				o := le.Uint16(off(e))
				if ff == "back" {
					o -= uint16(1 + rng.Intn(int(o)))
				}
				le.PutUint16(off(e+1), o)
				// the bytes now named by the second entry may be a name of the directory by accident
				end := size(k)
				if e+2 < n {
					end = int64(le.Uint16(off(e + 2)))
				}
				if int64(o) < end {
					s := string(bytes.TrimRight(blk[o:end], "\x00"))
					for _, x := range victim.ents {
						collision = collision || x.name == s
					}
				}
			case "out":
				le.PutUint16(off(rng.Intn(n)), beyond())
			case "nid", "nidhuge":
				for k, b := range blocks {
					for e, x := range b {
						if x.name == name {
							nid := im.nid(x.ino)
							if f == "nid" {
								nid = uint64((length-int64(im.metaBlk)*bs)/32) + uint64([]int64{0, 1, 100, 1 << 20, 1 << 40}[rng.Intn(5)])
							} else {
								nid = []uint64{nid + 1<<59, nid + 3<<59, nid | 1<<63, 1<<64 - 1, 1<<64 - 2, nid + 1<<58, 1 << 59, 1<<63 - 1}[rng.Intn(8)]
							}
							detail = fmt.Sprint(nid)
							le.PutUint64(data[int64(k)*bs+int64(12*e):], nid)
						}
					}
				}
			}
		}
	}
	b := im.encode()
	im.expected()
	if collision || detail == "impossible" {
		c.Count("not applicable")
		return
	}
	for _, x := range dc.Paths {
		t[at(x.P)].NoTime = false
	}
	// damage of the superblock
	sb := b[1024:]
	seal := func() {
		if im.checksum {
			im.setChecksum(b)
		}
	}
	switch f {
	case "magic":
		for n := 1 + rng.Intn(3); n > 0; n-- {
			sb[rng.Intn(4)] ^= byte(1 << rng.Intn(8))
		}
		if le.Uint32(sb) == 0xe0f5e1e2 {
			sb[0] ^= 0x40
		}
		seal()
	case "incompat":
		le.PutUint32(sb[80:], []uint32{1 << rng.Intn(32), 1 << rng.Intn(10), rng.Uint32() | 1, 0xffffffff}[rng.Intn(4)])
		seal()
	case "bits":
		sb[12] = []byte{0, 1, 2, 5, 8, 17, 20, 31, 32, 63, 64, 128, 255, byte(17 + rng.Intn(239)), byte(rng.Intn(9))}[rng.Intn(15)]
		detail = fmt.Sprint(sb[12])
		if rng.Intn(2) == 0 {
			le.PutUint32(sb[8:], le.Uint32(sb[8:])&^1)
		}
	case "short":
		b = b[:[]int{0, 1, 1023, 1024, 1025, 1028, 1100, 1151, rng.Intn(1152)}[rng.Intn(9)]]
	case "checksum":
		n := int(bs)
		if bs > 1024 {
			n = int(bs - 1024)
		}
		if len(b) < 1024+n {
			c.Count("not applicable")
			return
		}
		x := rng.Intn(n * 8)
		if rng.Intn(2) == 0 {
			x = rng.Intn(128 * 8)
		}
		if x == 64 {
			x++ // without the feature bit nothing is checked
		}
		sb[x/8] ^= 1 << (x % 8)
		detail = fmt.Sprint("bit ", x)
	}
	c.Count("fault " + f)
	what := fmt.Sprintf("fault %s at %d %q (%s), %s", f, dc.Fault.I, name, detail, im.describe())
	topic := "damage"
	fsys, err := erofs.Open(newReaderAt(c, b))
	if dc.Open == "refuse" {
		c.Check(err != nil, topic, "%s: opens", what)
		return
	}
	if err != nil && dc.Open == "any" {
		return
	}
	if !c.Check(err == nil, topic, "%s: %v", what, err) {
		return
	}
	statWant := map[string]string{}
	for _, w := range dc.Want {
		statWant[at(w.P)] = w.Stat
	}
	judge := func(at, want string, err error, same func()) {
		switch {
		case want == "error":
			c.Check(err != nil, topic, "%s: succeeds", at)
			c.Check(!errors.Is(err, fs.ErrNotExist), topic, "%s: is said not to exist: %v", at, err)
		case want == "found" && err != nil:
			c.Check(!errors.Is(err, fs.ErrNotExist), topic, "%s: is said not to exist: %v", at, err)
		case want == "any" || (want == "right" && err != nil):
		default:
			if c.Check(err == nil, topic, "%s: %v", at, err) {
				same()
			}
		}
	}
	o := Obs{Topic: topic}
	o.MetaTopic = topic
	for _, w := range dc.Want {
		p := at(w.P)
		n := t[p]
		where := fmt.Sprintf("%s: %q", what, p)
		fi, err := fsys.StatLink(p)
		judge(where+" StatLink", w.Stat, err, func() { o.meta(c, where, fi, n) })
		if n.Kind != "link" {
			fi, err := fs.Stat(fsys, p)
			judge(where+" Stat", w.Stat, err, func() { o.meta(c, where, fi, n) })
		}
		switch n.Kind {
		case "file":
			f, err := fsys.Open(p)
			var got []byte
			if err == nil {
				fi, err := f.Stat()
				judge(where+" Stat of the open file", w.Stat, err, func() { o.meta(c, where, fi, n) })
				got, err = readAllLimited(f, len(b)+1<<20)
				if err != nil {
					// an error stays, and what came before it is no longer than the image
					c.Check(len(got) <= len(b)+1<<20, topic, "%s: delivers %d bytes", where, len(got))
				}
				judge(where+" reading", w.Data, err, func() {
					c.Check(bytes.Equal(got, n.Content), topic, "%s: content: %d bytes, want %d %s", where, len(got), len(n.Content), diffAt(got, n.Content))
				})
			} else {
				judge(where+" Open", w.Data, err, func() {})
			}
		case "link":
			s, err := fsys.ReadLink(p)
			judge(where+" ReadLink", w.Data, err, func() { c.Check(s == n.Target, topic, "%s: target %q, want %q", where, s, n.Target) })
		case "dir":
			l, err := fs.ReadDir(fsys, p)
			judge(where+" listing", w.Data, err, func() {
				var got []string
				for _, e := range l {
					got = append(got, e.Name())
				}
				if !c.Check(strings.Join(got, "\x00") == strings.Join(t.children(p), "\x00"), topic, "%s: lists %q, want %q", where, short(got), short(t.children(p))) {
					return
				}
				for _, e := range l {
					q := e.Name()
					if p != "." {
						q = p + "/" + e.Name()
					}
					cn := t[q]
					fi, err := e.Info()
					judge(where+" Info of "+e.Name(), statWant[q], err, func() { o.meta(c, where+" entry "+e.Name(), fi, cn) })
					if statWant[q] == "fine" {
						c.Check(e.IsDir() == (cn.Kind == "dir") && kindOf(e.Type()) == cn.Kind, topic, "%s: kind of entry %q", where, e.Name())
					} else {
						e.IsDir()
						e.Type()
					}
				}
			})
		}
	}
}
