package main

import (
	"archive/tar"
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"io/fs"
	"math/rand"
	"os"
	"path"
	"strconv"
	"strings"

	"github.com/dpeckett/archivefs"
	"github.com/dpeckett/archivefs/erofs"
)

// Archives changed by the mutations of Robust.tla: whatever they are then, every call on
// them returns.

func init() {
	for _, s := range []string{"tar", "ar", "etree", "edir", "resolve-tar", "resolve-erofs", "convert"} {
		suites["robust-"+s] = func(c *Ctx, raw json.RawMessage) {
			c.Tap = func(fsys fs.FS, format string, b []byte, what string) {
				if len(b) > 1<<20 {
					return
				}
				l := scripts(format)
				n := 12
				fmt.Sscanf(os.Getenv("ROBUST_N"), "%d", &n)
				for k := 0; k < n; k++ {
					m := l[c.Rng.Intn(len(l))]
					mutated(c, format, b, m, what)
				}
			}
			suites[s](c, raw)
			keepPanics(c)
		}
	}
	suites["robust-bytes"] = robustBytes
	suites["robust-known"] = robustKnown
}

// keepPanics drops what other properties are about.
func keepPanics(c *Ctx) {
	var l []Bad
	for _, b := range c.Bad {
		if b.Topic == "robust" || b.Topic == "panic" {
			l = append(l, b)
		}
	}
	c.Bad = l
}

type mutation struct {
	Op  string `json:"op"`
	F   string `json:"f"`
	V   string `json:"v"`
	At  int    `json:"at"`
	Fix bool   `json:"fix"`
}

var scriptLists = map[string][][]mutation{}

// scripts are those of a format, from the file MUTS names.
func scripts(format string) [][]mutation {
	if l, ok := scriptLists[format]; ok {
		return l
	}
	f, err := os.Open(os.Getenv("MUTS") + "." + format)
	fatal(err)
	defer f.Close()
	var l [][]mutation
	for sc := bufio.NewScanner(f); sc.Scan(); {
		var m []mutation
		fatal(json.Unmarshal(sc.Bytes(), &m))
		l = append(l, m)
	}
	scriptLists[format] = l
	return l
}

func mutated(c *Ctx, format string, b []byte, ms []mutation, what string) {
	b = append([]byte(nil), b...)
	s := ""
	for _, m := range ms {
		s += fmt.Sprintf(" %s/%s/%s@%d", m.Op, m.F, m.V, m.At)
		func() {
			defer func() {
				if p := recover(); p != nil {
					c.Count("mutation not possible") // the structure is gone
				}
			}()
			b = mutate(c.Rng, format, b, m)
		}()
		c.Count(format + " " + m.Op + " " + m.F)
	}
	if len(b) > 4<<20 {
		b = b[:4<<20]
	}
	session(c, format, b, fmt.Sprintf("%s changed by%s of %s", format, s, what))
}

func anywhere(rng *rand.Rand, b []byte, n int) int {
	if len(b) <= n {
		return 0
	}
	return rng.Intn(len(b) - n)
}

func mutate(rng *rand.Rand, format string, b []byte, m mutation) []byte {
	if m.Op == "set" {
		switch format {
		case "tar":
			return mutateTar(rng, b, m)
		case "ar":
			mutateAr(rng, b, m)
		default:
			mutateErofs(rng, b, m)
		}
		return b
	}
	unit := map[string]int{"tar": 512, "ar": 2, "erofs": 512}[format]
	if rng.Intn(4) == 0 {
		unit = 1
	}
	at := func(limit int) int {
		p := len(b) * m.At / 4
		if len(b) > 0 {
			p += rng.Intn(len(b)/4 + 1)
		}
		p = p / unit * unit
		return max(0, min(p, limit))
	}
	size := unit * (1 + rng.Intn(3))
	switch m.Op {
	case "cut":
		b = b[:at(len(b))]
	case "grow":
		b = append(b, make([]byte, rng.Intn(3000))...)
	case "dup":
		p := at(len(b))
		q := min(len(b), p+size)
		b = append(b[:q:q], append(append([]byte(nil), b[p:q]...), b[q:]...)...)
	case "drop":
		p := at(len(b))
		q := min(len(b), p+size)
		b = append(b[:p:p], b[q:]...)
	case "swap":
		p, q := at(len(b)-size), anywhere(rng, b, size)/unit*unit
		t := append([]byte(nil), b[p:p+size]...)
		copy(b[p:p+size], b[q:q+size])
		copy(b[q:], t)
	case "noise":
		p := at(len(b))
		rng.Read(b[p:min(len(b), p+1+rng.Intn(64))])
	case "zeros":
		p := at(len(b))
		clear(b[p:min(len(b), p+size)])
	case "shift":
		p := at(len(b))
		b = append(b[:p:p], append(make([]byte, unit), b[p:]...)...)
	}
	if m.Fix && format == "erofs" {
		fixSuper(b)
	}
	if m.Fix && format == "tar" {
		for o := 0; o+512 <= len(b); o += 512 {
			if string(b[o+257:o+262]) == "ustar" {
				setChecksum(b[o : o+512])
			}
		}
	}
	return b
}

// text changes a field of text or decimal or octal digits.
func text(rng *rand.Rand, f []byte, v string, base int, others [][]byte) {
	fill := func(s string) {
		for i := range f {
			f[i] = 0
		}
		copy(f, s)
	}
	num := func(n int64) {
		fill(strconv.FormatInt(n, base))
	}
	old, _ := strconv.ParseInt(strings.Trim(string(f), " \x00"), base, 64)
	switch v {
	case "zero":
		num(0)
	case "one":
		num(1)
	case "ones":
		for i := range f {
			f[i] = 0xff
		}
	case "max":
		for i := range f {
			f[i] = '7'
			if base == 10 {
				f[i] = '9'
			}
		}
	case "high": // base 256
		base256(f, 1<<62+rng.Int63n(1<<61))
		if rng.Intn(2) == 0 {
			base256(f, 1<<(20+rng.Intn(40)))
		}
	case "neg":
		num(-1 - rng.Int63n(3))
		if rng.Intn(3) == 0 {
			for i := range f {
				f[i] = 0xff - byte(rng.Intn(2))
			}
		}
	case "blank":
		for i := range f {
			f[i] = ' '
		}
	case "text":
		fill([]string{"x", "0x10", "1e3", "é", "\xff\xfe", "a\x00b", "../../../etc", "\n", "."}[rng.Intn(9)])
	case "self", "other":
		if len(others) > 0 {
			fill(string(others[rng.Intn(len(others))]))
		}
	case "dots":
		fill([]string{"..", ".", "../", "./", "/..", "a/../..", "..."}[rng.Intn(7)])
	case "slash":
		fill([]string{"/", "//", "a//b", "/a", "a/", "a/b/c/d/e"}[rng.Intn(6)])
	case "long":
		for i := range f {
			f[i] = "ab/"[rng.Intn(3)]
		}
	case "bit":
		f[rng.Intn(len(f))] ^= 1 << rng.Intn(8)
	case "less":
		num(old - 1 - rng.Int63n(600))
	case "more":
		num(old + 1 + rng.Int63n(600))
	}
}

var tarFields = map[string][3]int{"name": {0, 100}, "mode": {100, 8}, "uid": {108, 8}, "gid": {116, 8}, "size": {124, 12}, "mtime": {136, 12},
	"chksum": {148, 8}, "type": {156, 1}, "link": {157, 100}, "magic": {257, 8}, "prefix": {345, 155}, "sparse": {386, 97}}

func mutateTar(rng *rand.Rand, b []byte, m mutation) []byte {
	var hs []int // headers
	for o := 0; o+512 <= len(b); {
		h := append([]byte(nil), b[o:o+512]...)
		setChecksum(h)
		if !bytes.Equal(h, b[o:o+512]) || h[0] == 0 && h[156] == 0 {
			o += 512
			continue
		}
		hs = append(hs, o)
		o += 512
	}
	o := hs[(m.At*len(hs)/4+rng.Intn(len(hs)/4+1))%len(hs)]
	h := b[o : o+512]
	field := func(x [3]int) []byte { return h[x[0] : x[0]+x[1]] }
	var others [][]byte
	for _, k := range hs {
		others = append(others, bytes.TrimRight(b[k:k+100], "\x00"))
		if m.F == "sparse" || m.F == "size" || m.F == "mtime" {
			others = append(others, bytes.Trim(b[k+124:k+136], "\x00 "))
		}
	}
	switch m.F {
	case "type":
		switch m.V {
		case "bit", "text", "noise":
			h[156] ^= 1 << rng.Intn(8)
		default:
			h[156] = "\x000123456789ASLKVNMDgxXz7"[rng.Intn(23)]
		}
	case "sparse":
		// an old GNU sparse map: entries of offset and length, the real size
		h[156] = 'S'
		copy(h[257:265], "ustar  \x00")
		for k := 0; k < 8; k++ {
			f := h[386+12*k : 386+12*k+12]
			if rng.Intn(2) == 0 {
				text(rng, f, m.V, 8, others)
			} else {
				octal(f, []int64{0, 0, 1, 512, 513, 1 << 20, 1<<33 - 1}[rng.Intn(7)])
			}
		}
		h[482] = byte(rng.Intn(2))
		octal(h[483:495], []int64{0, 1, 512, 1 << 20, 1 << 32}[rng.Intn(5)])
		if rng.Intn(3) == 0 {
			text(rng, h[483:495], m.V, 8, others)
		}
	case "pax":
		val := make([]byte, 40)
		text(rng, val, m.V, 10, others)
		v := strings.TrimRight(string(val), "\x00")
		rec := ""
		for k := 0; k < 1+rng.Intn(4); k++ {
			key := []string{"path", "linkpath", "size", "uid", "gid", "mtime", "atime", "uname", "GNU.sparse.major", "GNU.sparse.minor", "GNU.sparse.map",
				"GNU.sparse.numblocks", "GNU.sparse.offset", "GNU.sparse.numbytes", "GNU.sparse.size", "GNU.sparse.realsize", "GNU.sparse.name",
				"SCHILY.xattr.user.x", "", "="}[rng.Intn(20)]
			w := v
			if rng.Intn(2) == 0 {
				w = []string{"0", "1", "2", "0,1", "0,1,1,1", "5,0", "1e309", "1700000000.999999999999", "-1.5", "a/b", "9223372036854775807", ""}[rng.Intn(12)]
			}
			r := paxRecord(key, w)
			if rng.Intn(8) == 0 {
				r = []string{"999 path=a\n", "0 a=b\n", "-1 a=b\n", "5 a=\n", "path=a\n", "9 path=a", "18446744073709551616 a=b\n"}[rng.Intn(7)]
			}
			rec += r
		}
		x := make([]byte, 512)
		copy(x, "PaxHeaders/x")
		octal(x[100:108], 0o644)
		octal(x[108:116], 0)
		octal(x[116:124], 0)
		octal(x[124:136], int64(len(rec)))
		octal(x[136:148], 0)
		x[156] = "xxxxg"[rng.Intn(5)]
		copy(x[257:], "ustar\x0000")
		setChecksum(x)
		x = append(append(x, rec...), pad512([]byte(rec))...)
		return append(b[:o:o], append(x, b[o:]...)...)
	case "data":
		if o+512 < len(b) {
			text(rng, b[o+512:min(len(b), o+512+1+rng.Intn(30))], m.V, 10, others)
		}
		return b
	case "any":
		p := rng.Intn(500)
		text(rng, h[p:p+1+rng.Intn(12)], m.V, 8, others)
	default:
		text(rng, field(tarFields[m.F]), m.V, 8, others)
	}
	if m.Fix && m.F != "chksum" {
		setChecksum(h)
	}
	return b
}

var arFields = map[string][2]int{"name": {0, 16}, "time": {16, 12}, "uid": {28, 6}, "gid": {34, 6}, "mode": {40, 8}, "size": {48, 10}, "end": {58, 2}}

func mutateAr(rng *rand.Rand, b []byte, m mutation) {
	var hs []int
	for o := 8; o+60 <= len(b); {
		hs = append(hs, o)
		n, err := strconv.Atoi(strings.TrimSpace(string(b[o+48 : o+58])))
		if err != nil || n < 0 {
			break
		}
		o += 60 + n + n%2
	}
	var others [][]byte
	for _, k := range hs {
		others = append(others, bytes.TrimRight(b[k:k+16], " "))
	}
	if m.F == "magic" {
		text(rng, b[:8], m.V, 10, others)
		return
	}
	o := hs[(m.At*len(hs)/4+rng.Intn(len(hs)/4+1))%len(hs)]
	var f []byte
	base := 10
	switch m.F {
	case "data":
		f = b[o+60 : min(len(b), o+60+1+rng.Intn(20))]
	case "any":
		p := anywhere(rng, b, 12)
		f = b[p:min(len(b), p+1+rng.Intn(12))]
	case "mode":
		base = 8
		fallthrough
	default:
		x := arFields[m.F]
		f = b[o+x[0] : o+x[0]+x[1]]
	}
	if len(f) == 0 {
		return
	}
	text(rng, f, m.V, base, others)
	if m.Fix && m.F != "data" && m.F != "any" {
		for i := range f {
			if f[i] == 0 {
				f[i] = ' '
			}
		}
	}
}

// binaryField changes a little-endian number.
func binaryField(rng *rand.Rand, f []byte, v string, others []uint64) {
	var old uint64
	for i := len(f) - 1; i >= 0; i-- {
		old = old<<8 | uint64(f[i])
	}
	n := old
	switch v {
	case "zero", "blank":
		n = 0
	case "one":
		n = 1
	case "ones", "neg":
		n = ^uint64(0) - uint64(rng.Intn(3))
	case "max":
		n = 1<<(8*len(f)-1) - uint64(rng.Intn(2))
	case "high":
		n = old | 1<<(4*len(f)+rng.Intn(4*len(f)))
	case "bit":
		n = old ^ 1<<rng.Intn(8*len(f))
	case "less":
		n = old - 1 - uint64(rng.Intn(40))
	case "more":
		n = old + 1 + uint64(rng.Intn(40))
	case "self", "other", "dots":
		if len(others) > 0 {
			n = others[rng.Intn(len(others))]
		}
	case "long":
		n = 1 << rng.Intn(8*len(f))
	case "text", "slash":
		n = rng.Uint64()
	}
	for i := range f {
		f[i] = byte(n)
		n >>= 8
	}
}

func fixSuper(b []byte) {
	if len(b) < 1152 {
		return
	}
	bits := int(b[1036])
	if bits < 9 || bits > 16 || binary.LittleEndian.Uint32(b[1032:])&1 == 0 {
		return
	}
	end := 1 << bits
	if end <= 1024 {
		end = 1152
	}
	blk := make([]byte, end-1024)
	copy(blk, b[1024:])
	clear(blk[4:8])
	binary.LittleEndian.PutUint32(b[1028:], crc32c(blk))
}

func mutateErofs(rng *rand.Rand, b []byte, m mutation) {
	defer func() {
		if m.Fix {
			fixSuper(b)
		}
	}()
	sb := func(off, n int) {
		binaryField(rng, b[1024+off:1024+off+n], m.V, []uint64{9, 12, 16, 31, 32, 63, 64, 255})
	}
	switch m.F {
	case "super":
		p := rng.Intn(32) * 4
		sb(p, []int{1, 2, 4}[rng.Intn(3)])
		return
	case "blkszbits":
		sb(12, 1)
		return
	case "rootnid":
		sb(14, 2)
		return
	case "metaaddr":
		sb(40, 4)
		return
	case "features":
		sb([]int{8, 80}[rng.Intn(2)], 4)
		return
	case "any":
		n := []int{1, 2, 4, 8}[rng.Intn(4)]
		p := anywhere(rng, b, n)
		binaryField(rng, b[p:p+n], m.V, nil)
		return
	case "word":
		p := anywhere(rng, b, 64) / 4 * 4
		for k := 0; k < 1+rng.Intn(8); k++ {
			binaryField(rng, b[p+4*k:p+4*k+4], m.V, nil)
		}
		return
	}
	r, _, _ := decodeImage(b)
	le := binary.LittleEndian
	var nids, addrs []uint64
	var dirs []lNode
	for _, n := range r.Nodes {
		nids = append(nids, n.nid)
		addrs = append(addrs, uint64(le.Uint32(b[n.Off+16:])))
		if n.Kind == "dir" {
			dirs = append(dirs, n)
		}
	}
	if m.F[0] == 'd' {
		n := dirs[(m.At*len(dirs)/4+rng.Intn(len(dirs)/4+1))%len(dirs)]
		format := le.Uint16(b[n.Off:])
		at := int64(le.Uint32(b[n.Off+16:])) * r.Bs
		if full := n.Size / r.Bs; format>>1&7 == 2 && (full == 0 || rng.Intn(2) == 0) {
			at = n.Off + int64(n.ISize)
		} else if full > 0 {
			at += rng.Int63n(full+n.Size%r.Bs/(r.Bs-1)) * r.Bs
		}
		count := int64(le.Uint16(b[at+8:])) / 12
		k := rng.Int63n(count)
		d := b[at+12*k : at+12*k+12]
		switch m.F {
		case "dnid":
			binaryField(rng, d[:8], m.V, nids)
		case "dnameoff":
			binaryField(rng, d[8:10], m.V, []uint64{0, 11, 12, 13, 24, uint64(12 * count), uint64(r.Bs), uint64(r.Bs - 1)})
		case "dtype":
			binaryField(rng, d[10:11], m.V, []uint64{0, 1, 2, 7})
		case "dname":
			o := at + int64(le.Uint16(d[8:]))
			binaryField(rng, b[o:o+1+rng.Int63n(3)], m.V, []uint64{'/', '.', 0, 0x2e2e})
		}
		return
	}
	n := r.Nodes[(m.At*len(r.Nodes)/4+rng.Intn(len(r.Nodes)/4+1))%len(r.Nodes)]
	i := b[n.Off : n.Off+int64(n.ISize)]
	switch m.F {
	case "format":
		binaryField(rng, i[0:2], m.V, []uint64{0, 1, 2, 3, 4, 5, 6, 8, 9})
	case "ixattr":
		binaryField(rng, i[2:4], m.V, nil)
	case "imode":
		binaryField(rng, i[4:6], m.V, []uint64{0o040755, 0o100644, 0o120777, 0o010000, 0o170000})
	case "isize":
		f := i[8:12]
		if n.ISize == 64 && rng.Intn(2) == 0 {
			f = i[8:16]
		}
		binaryField(rng, f, m.V, []uint64{0, 1, 11, 12, uint64(r.Bs), uint64(r.Bs) + 1, 1 << 31})
	case "iaddr":
		binaryField(rng, i[16:20], m.V, addrs)
	case "nlink":
		binaryField(rng, i[6:8], m.V, nil)
	default:
		p := rng.Intn(n.ISize/4) * 4
		binaryField(rng, i[p:p+[]int{1, 2, 4}[rng.Intn(3)]], m.V, nids)
	}
}

// hugeSparse: an entry of the archive declares more than 8 GiB with holes (a known finding).
func hugeSparse(b []byte) bool {
	tr := tar.NewReader(bytes.NewReader(b))
	for n := 0; n < 100000; n++ {
		h, err := tr.Next()
		if err != nil {
			return false
		}
		sparse := h.Typeflag == tar.TypeGNUSparse
		for k := range h.PAXRecords {
			sparse = sparse || strings.HasPrefix(k, "GNU.sparse.")
		}
		if sparse && h.Size > 1<<33 {
			return true
		}
	}
	return false
}

// session makes every call on whatever the bytes are.
func session(c *Ctx, format string, b []byte, what string) {
	if format == "tar" && hugeSparse(b) {
		c.Count("tar-sparse-huge left out")
		return
	}
	defer func() {
		if p := recover(); p != nil {
			panic(fmt.Sprintf("%v on %s", p, what))
		}
	}()
	var ra io.ReaderAt = styledReaderAt(b, c.Rng.Intn(raStyles))
	fsys, err := openAt(format, ra)
	c.Checks++
	if err != nil {
		c.Count(format + " refused")
		c.Check(err.Error() != "", "robust", "%s: an error without text", what)
		return
	}
	c.Count(format + " opened")
	paths := []string{".", "", "/", "..", "../x", "./.", "x/../..", "a\x00b", "\xff\xfe", strings.Repeat("a/", 400) + "a", strings.Repeat("../", 50), strings.Repeat("n", 300)}
	for k := 0; k < len(paths) && len(paths) < 60; k++ {
		p := paths[k]
		l, _ := fs.ReadDir(fsys, p)
		for j, e := range l {
			if j < 12 && len(paths) < 60 {
				q := path.Join(p, e.Name())
				paths = append(paths, q)
				if j < 2 {
					paths = append(paths, q+"/x", q+"/..", q+"/"+e.Name())
				}
			}
			if j < 100 {
				e.IsDir()
				e.Type()
				if fi, err := e.Info(); err == nil {
					useInfo(fi)
				}
			}
		}
	}
	lfs, _ := fsys.(archivefs.ReadLinkFS)
	for _, p := range paths {
		if fi, err := fs.Stat(fsys, p); err == nil {
			useInfo(fi)
		}
		if lfs != nil {
			lfs.ReadLink(p)
			if fi, err := lfs.StatLink(p); err == nil {
				useInfo(fi)
			}
		}
		f, err := fsys.Open(p)
		c.Checks++
		if err != nil {
			continue
		}
		useFile(c, what+" at "+p, f)
	}
	fs.Glob(fsys, "*")
	fs.Sub(fsys, "x")
}

func useInfo(fi fs.FileInfo) {
	_ = fi.Name()
	_ = fi.Size()
	_ = fi.Mode().String()
	_ = fi.ModTime().String()
	_ = fi.IsDir()
	if i, ok := fi.Sys().(*erofs.Inode); ok {
		_ = i.Nid()
	}
	_ = fs.FormatFileInfo(fi)
}

// useFile reads, examines and closes: reading ends, or at least goes on.
func useFile(c *Ctx, what string, f fs.File) {
	fi, err := f.Stat()
	if err == nil {
		useInfo(fi)
	}
	f.Read(nil)
	if d, ok := f.(fs.ReadDirFile); ok {
		d.ReadDir(2)
		d.ReadDir(-1)
	}
	buf := make([]byte, []int{1, 7, 512, 4096, 100000}[c.Rng.Intn(5)])
	total, idle := int64(0), 0
	limit := int64(1 << 22)
	if len(buf) < 512 {
		limit = 1 << 16
	}
	ended := false
	for total < limit {
		n, err := f.Read(buf)
		if n < 0 || n > len(buf) {
			c.Fail("robust", "%s: Read returns %d of %d", what, n, len(buf))
			break
		}
		total += int64(n)
		if err != nil {
			ended = true
			break
		}
		if idle++; n > 0 {
			idle = 0
		}
		if idle > 1000 {
			c.Fail("robust", "%s: Read goes on without a byte and without an error", what)
			break
		}
	}
	if fi != nil && fi.Mode().IsRegular() && fi.Size() < limit {
		c.Check(ended && total <= fi.Size(), "robust", "%s: reading a file of %d bytes goes on after %d", what, fi.Size(), total)
	}
	f.Close()
	f.Read(buf)
	f.Stat()
	f.Close()
}

// robustBytes opens mutations of next to nothing and noise.
func robustBytes(c *Ctx, raw json.RawMessage) {
	var k struct {
		Format string     `json:"format"`
		Muts   []mutation `json:"muts"`
	}
	fatal(json.Unmarshal(raw, &k))
	var b []byte
	switch c.Rng.Intn(4) {
	case 0:
		b = make([]byte, c.Rng.Intn(6000))
		c.Rng.Read(b)
	case 1:
		b = make([]byte, 512*c.Rng.Intn(12))
	case 2:
		b = bytes.Repeat([]byte{byte(c.Rng.Intn(256))}, c.Rng.Intn(6000))
	}
	switch k.Format {
	case "ar":
		b = append([]byte("!<arch>\n"), b...)
		for j := range b[8:] {
			if c.Rng.Intn(2) == 0 {
				b[8+j] = "0123456789 `\n/"[c.Rng.Intn(14)]
			}
		}
		for o := 8; o+60 <= len(b); o += 60 + 2*c.Rng.Intn(10) {
			copy(b[o+58:], "`\n")
		}
	case "erofs":
		for len(b) < 1152 {
			b = append(b, make([]byte, 1152)...)
		}
		copy(b[1024:], []byte{0xe2, 0xe1, 0xf5, 0xe0})
		b[1036] = byte([]int{9, 10, 12, 16}[c.Rng.Intn(4)])
		if c.Rng.Intn(4) != 0 {
			clear(b[1028:1036])
			clear(b[1104:1108])
			b[1037] = 0
			binary.LittleEndian.PutUint16(b[1038:], uint16(c.Rng.Intn(60)))
			binary.LittleEndian.PutUint32(b[1064:], uint32(c.Rng.Intn(4)))
		}
	case "tar":
		for o := 0; o+512 <= len(b); o += 512 {
			if c.Rng.Intn(2) == 0 {
				e := tarEntry{Name: "x/" + string("abc"[c.Rng.Intn(3)]), Type: "0125xgLKS"[c.Rng.Intn(9)], Link: "b", Dialect: "gnu"}
				copy(b[o:o+512], e.encode(c.Rng).Hdr)
				octal(b[o+124:o+136], int64(c.Rng.Intn(600)))
				setChecksum(b[o : o+512])
			}
		}
	}
	mutated(c, k.Format, b, k.Muts, fmt.Sprintf("%d bytes", len(b)))
	keepPanics(c)
}

// robustKnown opens what KNOWN_FINDINGS lists.
func robustKnown(c *Ctx, raw json.RawMessage) {
	var k struct {
		Name string `json:"name"`
	}
	fatal(json.Unmarshal(raw, &k))
	c.Sig = k.Name
	if k.Name == "tar-sparse-huge" {
		h := make([]byte, 512)
		copy(h, "f")
		octal(h[100:108], 0o644)
		octal(h[108:116], 0)
		octal(h[116:124], 0)
		octal(h[124:136], 0)
		octal(h[136:148], 0)
		h[156] = 'S'
		copy(h[257:], "ustar  \x00")
		base256(h[386:398], 1<<50)
		octal(h[398:410], 0)
		base256(h[483:495], 1<<50)
		setChecksum(h)
		b := append(h, make([]byte, 1024)...)
		c.Check(hugeSparse(b), "robust", "the example is not what it should be")
		openAt("tar", bytes.NewReader(b))
		c.Checks++
	}
}
