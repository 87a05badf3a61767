package main

import (
	"fmt"
	"math/rand"
	"strings"
	"time"
)

// An encoder of tar archives that shares nothing with archive/tar: v7, ustar, GNU and pax headers,
// long names, base-256 numbers, old GNU and pax 1.0 sparse files, global headers.

type tarEntry struct {
	Name     string // as spelled in the archive
	Type     byte   // '0', '1', '2', '5', 'g', ...
	Content  []byte
	Link     string
	Mode     int64
	TypeBits int64 // file type bits of a stat mode, right or wrong
	Uid      int
	Gid      int
	MTime    time.Time
	Dialect  string // v7, ustar, gnu, pax
	Sparse   string // "", "gnu", "pax1"
}

// tarPiece is an encoded entry: extension blocks, the header block, the content, its padding.
type tarPiece struct {
	Ext  []byte
	Hdr  []byte
	Data []byte
	Pad  []byte
}

func (p tarPiece) bytes() []byte {
	var b []byte
	b = append(b, p.Ext...)
	b = append(b, p.Hdr...)
	b = append(b, p.Data...)
	return append(b, p.Pad...)
}

func pad512(b []byte) []byte { return make([]byte, (512-len(b)%512)%512) }

func octal(b []byte, v int64) bool {
	s := fmt.Sprintf("%0*o", len(b)-1, v)
	if v < 0 || len(s) > len(b)-1 {
		return false
	}
	copy(b, s)
	return true
}

func base256(b []byte, v int64) {
	for i := len(b) - 1; i >= 0; i-- {
		b[i] = byte(v)
		v >>= 8
	}
	b[0] |= 0x80
}

func setChecksum(h []byte) {
	copy(h[148:156], "        ")
	sum := 0
	for _, x := range h {
		sum += int(x)
	}
	copy(h[148:156], fmt.Sprintf("%06o\x00 ", sum))
}

func splitUstar(name string) (prefix, rest string, ok bool) {
	if len(name) <= 100 {
		return "", name, true
	}
	for i := len(name) - 2; i > 0; i-- {
		if name[i] == '/' && i <= 155 && len(name)-i-1 <= 100 && len(name)-i-1 > 0 {
			return name[:i], name[i+1:], true
		}
	}
	return "", "", false
}

func paxRecord(k, v string) string {
	n := len(k) + len(v) + 3
	for {
		s := fmt.Sprintf("%d %s=%s\n", n, k, v)
		if len(s) == n {
			return s
		}
		n = len(s)
	}
}

func fits(v int64, digits int) bool { return v >= 0 && v < 1<<(3*digits) }

// fixDialect makes the dialect one that can express the entry.
func (e *tarEntry) fixDialect(rng *rand.Rand) {
	if e.Dialect == "v7" || e.Dialect == "ustar" {
		_, _, ok := splitUstar(e.Name)
		if e.Dialect == "v7" {
			ok = len(e.Name) <= 100
		}
		if !ok || len(e.Link) > 100 || !fits(int64(e.Uid), 7) || !fits(int64(e.Gid), 7) || !fits(e.MTime.Unix(), 11) || e.MTime.Nanosecond() != 0 || e.Sparse != "" {
			e.Dialect = []string{"gnu", "pax"}[rng.Intn(2)]
		}
	}
	if e.Sparse == "gnu" {
		e.Dialect = "gnu"
	}
	if e.Sparse == "pax1" {
		e.Dialect = "pax"
	}
	if e.Dialect == "gnu" && e.MTime.Nanosecond() != 0 {
		e.MTime = e.MTime.Truncate(time.Second)
	}
}

func longEntry(typ byte, s string, magicGNU bool) []byte {
	h := make([]byte, 512)
	copy(h, "././@LongLink")
	octal(h[100:108], 0)
	octal(h[108:116], 0)
	octal(h[116:124], 0)
	octal(h[136:148], 0)
	octal(h[124:136], int64(len(s)+1))
	h[156] = typ
	copy(h[257:], "ustar  \x00")
	setChecksum(h)
	d := append([]byte(s), 0)
	return append(append(h, d...), pad512(d)...)
}

func (e tarEntry) encode(rng *rand.Rand) tarPiece {
	var p tarPiece
	h := make([]byte, 512)
	name, link := e.Name, e.Link
	size := int64(len(e.Content))
	data := e.Content
	typ := e.Type
	records := ""
	if e.Type == 'g' {
		data = []byte(paxRecord("comment", "c"+fmt.Sprint(rng.Intn(1000))))
		size = int64(len(data))
	}

	// sparse maps: the content's longest run of zeroes is left out
	type frag struct{ off, n int }
	var frags []frag
	if e.Sparse != "" {
		lo, hi := zeroRun(e.Content)
		if lo > 0 {
			frags = append(frags, frag{0, lo})
		}
		if hi < len(e.Content) {
			frags = append(frags, frag{hi, len(e.Content) - hi})
		}
		data = nil
		for _, f := range frags {
			data = append(data, e.Content[f.off:f.off+f.n]...)
		}
	}
	switch e.Sparse {
	case "gnu":
		typ = 'S'
		for i, f := range frags {
			octal(h[386+24*i:398+24*i], int64(f.off))
			octal(h[398+24*i:410+24*i], int64(f.n))
		}
		octal(h[483:495], size)
		size = int64(len(data))
	case "pax1":
		m := fmt.Sprintf("%d\n", len(frags))
		for _, f := range frags {
			m += fmt.Sprintf("%d\n%d\n", f.off, f.n)
		}
		mb := []byte(m)
		mb = append(mb, pad512(mb)...)
		data = append(mb, data...)
		records += paxRecord("GNU.sparse.major", "1") + paxRecord("GNU.sparse.minor", "0") +
			paxRecord("GNU.sparse.name", name) + paxRecord("GNU.sparse.realsize", fmt.Sprint(size))
		size = int64(len(data))
		name = "GNUSparseFile.0/x"
	}

	switch e.Dialect {
	case "gnu":
		if len(name) > 100 || (rng.Intn(8) == 0 && len(name) > 0) {
			p.Ext = append(p.Ext, longEntry('L', name, true)...)
			name = name[:min(len(name), 100)]
		}
		if len(link) > 100 {
			p.Ext = append(p.Ext, longEntry('K', link, true)...)
			link = link[:100]
		}
	case "pax":
		prefix, rest, ok := splitUstar(name)
		if !ok || (rng.Intn(6) == 0 && e.Sparse == "" && e.Type != 'g') {
			records += paxRecord("path", name)
			prefix, rest = "", "truncated"
		}
		copy(h[345:500], prefix)
		name = rest
		if len(link) > 100 || (link != "" && rng.Intn(6) == 0) {
			records += paxRecord("linkpath", link)
			link = "truncated"
		}
		if e.MTime.Nanosecond() != 0 || !fits(e.MTime.Unix(), 11) {
			s := fmt.Sprint(e.MTime.Unix())
			if n := e.MTime.Nanosecond(); n != 0 && e.MTime.Unix() >= 0 {
				s += "." + strings.TrimRight(fmt.Sprintf("%09d", n), "0")
			}
			records += paxRecord("mtime", s)
		}
		if !fits(int64(e.Uid), 7) {
			records += paxRecord("uid", fmt.Sprint(e.Uid))
		}
		if !fits(int64(e.Gid), 7) {
			records += paxRecord("gid", fmt.Sprint(e.Gid))
		}
		if rng.Intn(6) == 0 && e.Type == '0' && e.Sparse == "" {
			records += paxRecord("size", fmt.Sprint(size))
		}
	case "ustar":
		prefix, rest, _ := splitUstar(name)
		copy(h[345:500], prefix)
		name = rest
	}
	if records != "" {
		x := make([]byte, 512)
		copy(x, "PaxHeaders.0/x")
		octal(x[100:108], 0o644)
		octal(x[108:116], 0)
		octal(x[116:124], 0)
		octal(x[124:136], int64(len(records)))
		octal(x[136:148], 0)
		x[156] = 'x'
		copy(x[257:], "ustar\x0000")
		setChecksum(x)
		d := []byte(records)
		p.Ext = append(append(append(p.Ext, x...), d...), pad512(d)...)
	}

	copy(h[0:100], name)
	octal(h[100:108], e.Mode|e.TypeBits)
	num := func(b []byte, v int64) {
		if !octal(b, v) {
			if e.Dialect == "gnu" {
				base256(b, v)
			} else {
				octal(b, 0)
			}
		}
	}
	num(h[108:116], int64(e.Uid))
	num(h[116:124], int64(e.Gid))
	num(h[136:148], e.MTime.Unix())
	if e.Type == '0' || e.Type == 'g' || e.Sparse != "" {
		octal(h[124:136], size)
	} else {
		octal(h[124:136], 0)
		data = nil
	}
	h[156] = typ
	copy(h[157:257], link)
	switch e.Dialect {
	case "gnu":
		copy(h[257:], "ustar  \x00")
	case "ustar", "pax":
		copy(h[257:], "ustar\x0000")
	default: // v7: regular files and directories have no type
		if e.Type == '0' || (e.Type == '5' && strings.HasSuffix(e.Name, "/") && len(e.Name) <= 100) {
			h[156] = 0
		}
	}
	setChecksum(h)
	p.Hdr = h
	p.Data = data
	p.Pad = pad512(data)
	return p
}

// zeroRun finds a run of zeroes worth leaving out.
func zeroRun(b []byte) (lo, hi int) {
	bestLo, bestHi := len(b), len(b)
	for i := 0; i < len(b); {
		if b[i] != 0 {
			i++
			continue
		}
		j := i
		for j < len(b) && b[j] == 0 {
			j++
		}
		if j-i > bestHi-bestLo {
			bestLo, bestHi = i, j
		}
		i = j
	}
	return bestLo, bestHi
}

// tarEnd is an end of archive: two zero blocks, possibly followed by more.
func tarEnd(rng *rand.Rand, soFar int) []byte {
	n := 1024
	switch rng.Intn(4) {
	case 0:
		n = (soFar+1024+10239)/10240*10240 - soFar
	case 1:
		n = 1536
	}
	return make([]byte, n)
}
