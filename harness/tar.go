package main

import (
	"encoding/json"
	"fmt"
	"io/fs"
	"path"
	"strings"
	"time"

	"github.com/dpeckett/archivefs/tarfs"
)

func init() { suites["tar"] = tarSuite }

type tEntry struct {
	K  string   `json:"k"`
	P  []string `json:"p"`
	I  int      `json:"i"`
	To []string `json:"to"`
}

type tNode struct {
	P []string `json:"p"`
	K string   `json:"k"`
	I int      `json:"i"`
}

type tCase struct {
	Es    []tEntry `json:"es"`
	Open  string   `json:"open"`
	Tree  []tNode  `json:"tree"`
	Fault *tFault  `json:"fault"`
}

type tFault struct {
	F     string  `json:"f"`     // cut, flip, type
	At    int     `json:"at"`    // entry
	Where string  `json:"where"` // hdr, data, pad, ext, after
	Tree  []tNode `json:"tree"`
}

// tarWorld concretises the tokens of one case.
type tarWorld struct {
	c  *Ctx
	nm *Names
	es []*Node // what entry i describes (1-based)
	te []tarEntry
}

var linkTargets = []string{
	"a", "b", "../a", "../../b", "/a", "/a/b", "./a", "a//b", "a/", "../../../..", "/", ".", "..", "nowhere", " lead", "trail ", "a\\b", "é", "x y", "//a", "a/./b", "...", ".a",
	strings.Repeat("t", 99), strings.Repeat("t", 100), strings.Repeat("u", 101), strings.Repeat("v/", 130) + "w", "dir/../a", "/../a",
	"\xff\xfe/\x80", "a\nb", "tab\t", "\n", "e\u0301", "\u00e9", "con\\..\\b", "a/..", "..a", strings.Repeat("long/", 205), strings.Repeat("q", 4095), strings.Repeat("/r", 3000),
}

var tarSizes = []int{0, 1, 7, 100, 511, 512, 513, 1000, 1023, 1024, 1025, 4096, 5000, 10240}

func newTarWorld(c *Ctx, o nameOpts) *tarWorld {
	return &tarWorld{c: c, nm: newNames(c, o)}
}

var tarTimes = []time.Time{
	time.Unix(0, 0), time.Unix(1, 0), time.Unix(1700000000, 0), time.Unix(1<<31, 0), time.Unix(1<<32+5, 0), time.Unix(1<<33-1, 0),
}
var tarOddTimes = []time.Time{
	time.Unix(1700000001, 500000000), time.Unix(1234567890, 1), time.Unix(1234567890, 999999999), time.Unix(-1, 0), time.Unix(-2208988800, 0), time.Unix(1<<33, 0),
}
var tarModes = []int64{0o644, 0o755, 0o600, 0o444, 0, 0o777, 0o4755, 0o2755, 0o1777, 0o6711, 0o7777, 0o640}
var tarIDs = []int{0, 1, 1000, 65534, 65535, 65536, 100000, 1<<21 - 1, 1 << 21, 1<<31 - 1, 1<<32 - 2}

func unixMode(m int64) fs.FileMode {
	r := fs.FileMode(m & 0o777)
	if m&0o4000 != 0 {
		r |= fs.ModeSetuid
	}
	if m&0o2000 != 0 {
		r |= fs.ModeSetgid
	}
	if m&0o1000 != 0 {
		r |= fs.ModeSticky
	}
	return r
}

// entry concretises entry i of the case.
func (w *tarWorld) entry(e tEntry, minContent int) {
	rng := w.c.Rng
	n := &Node{}
	te := tarEntry{Dialect: []string{"v7", "ustar", "gnu", "pax"}[rng.Intn(4)]}
	if w.c.Variant == 0 {
		te.Dialect = "ustar"
	}
	te.Mode = tarModes[rng.Intn(len(tarModes))]
	if rng.Intn(4) == 0 {
		te.TypeBits = []int64{0o100000, 0o40000, 0o120000, 0o20000, 0o60000, 0o140000}[rng.Intn(6)]
	}
	te.MTime = tarTimes[rng.Intn(len(tarTimes))]
	if te.Dialect == "pax" && rng.Intn(3) == 0 || te.Dialect == "gnu" && rng.Intn(6) == 0 {
		te.MTime = tarOddTimes[rng.Intn(len(tarOddTimes))]
	}
	te.Uid, te.Gid = tarIDs[rng.Intn(len(tarIDs))], tarIDs[rng.Intn(len(tarIDs))]
	var comps []string
	for _, t := range e.P {
		comps = append(comps, w.nm.Get(t))
	}
	name := strings.Join(comps, "/")
	spell := func(s string, dir bool) string {
		switch rng.Intn(6) {
		case 0:
			s = "./" + s
		case 1:
			s = "/" + s
		case 2:
			if rng.Intn(3) == 0 {
				s = "././" + s
			}
		}
		if dir && rng.Intn(3) > 0 {
			s += "/"
		}
		return s
	}
	switch e.K {
	case "reg":
		te.Type, n.Kind = '0', "file"
		size := tarSizes[rng.Intn(len(tarSizes))]
		if size < minContent {
			size = minContent + rng.Intn(1200)
		}
		n.Content = content(fmt.Sprintf("c%d", e.I), size)
		if rng.Intn(12) == 0 {
			n.Content = append(append(content(fmt.Sprintf("s%d", e.I), 600), make([]byte, 2048)...), content("z", rng.Intn(900)+1)...)
			te.Sparse = []string{"gnu", "pax1"}[rng.Intn(2)]
		}
		te.Content = n.Content
		te.Name = spell(name, false)
	case "dir":
		te.Type, n.Kind = '5', "dir"
		te.Name = spell(name, true)
	case "sym":
		te.Type, n.Kind = '2', "link"
		n.Target = linkTargets[rng.Intn(len(linkTargets))]
		if w.c.Variant == 0 {
			n.Target = "b"
		}
		te.Link = n.Target
		te.Name = spell(name, rng.Intn(12) == 0)
	case "hard":
		te.Type, n.Kind = '1', "hard"
		te.Link = spell(strings.TrimPrefix(w.nm.Path(e.To), "."), false)
		if len(e.To) > 0 {
			te.Link = spell(w.nm.Path(e.To), rng.Intn(12) == 0)
		}
		te.Name = spell(name, false)
	case "global":
		te.Type = 'g'
		te.Name = "pax_global_header"
		te.Dialect = "pax"
		te.MTime = time.Unix(0, 0)
		te.Uid, te.Gid = 0, 0
	case "root":
		te.Type = '5'
		te.Name = []string{"./", ".", "/", "././"}[rng.Intn(4)]
		te.Link = ""
	}
	te.fixDialect(rng)
	n.Mode, n.MTime, n.Uid, n.Gid = unixMode(te.Mode), te.MTime, te.Uid, te.Gid
	w.es = append(w.es, n)
	w.te = append(w.te, te)
}

// tree is the concrete tree of a list of nodes.
func (w *tarWorld) tree(l []tNode) Tree {
	t := Tree{".": {Kind: "dir", NoMode: true, NoTime: true, NoOwner: true}}
	for _, x := range l {
		n := &Node{Kind: "dir", Mode: 0o755, NoTime: true, NoOwner: true} // an implied directory
		if x.I > 0 {
			n = w.es[x.I-1]
		}
		t[w.nm.Path(x.P)] = n
	}
	return t
}

func tarSuite(c *Ctx, raw json.RawMessage) {
	var tc tCase
	fatal(json.Unmarshal(raw, &tc))
	w := newTarWorld(c, nameOpts{max: 255, raw: true})
	for i, e := range tc.Es {
		min := 0
		if tc.Fault != nil && tc.Fault.At == i+1 && tc.Fault.Where != "hdr" {
			min = 1
		}
		w.entry(e, min)
	}
	var b []byte
	var pieces []tarPiece
	for _, te := range w.te {
		p := te.encode(c.Rng)
		pieces = append(pieces, p)
		b = append(b, p.bytes()...)
	}
	b = append(b, tarEnd(c.Rng, len(b))...)
	if tc.Fault != nil {
		w.fault(tc, pieces)
		return
	}
	c.Count("open " + tc.Open)
	ra := newReaderAt(c, b)
	fsys, err := tarfs.Open(ra)
	if tc.Open == "refuse" {
		c.Check(err != nil, "refuse", "opens although a hard link leads nowhere: %s", describe(w.te))
		return
	}
	if tc.Open == "any" {
		if err == nil && !c.tap(fsys, "tar", b, describe(w.te)) {
			c.Count("opened any")
			contentReadable(c, "damage", describe(w.te), fsys)
		}
		return
	}
	if !c.Check(err == nil, "tree", "does not open: %v: %s", err, describe(w.te)) {
		return
	}
	if c.tap(fsys, "tar", b, describe(w.te)) {
		return
	}
	t := w.tree(tc.Tree)
	o := Obs{Topic: "tree", LinkTopic: "links", Probe: []string{w.nm.Get("zz"), ".x", "x.", " ", "a", "b"}}
	o.Observe(c, describe(w.te), fsys, t)
}

func describe(es []tarEntry) string {
	var l []string
	for _, e := range es {
		s := fmt.Sprintf("%c:%q", e.Type, e.Name)
		if e.Link != "" {
			s += fmt.Sprintf("->%q", e.Link)
		}
		l = append(l, s+"/"+e.Dialect+e.Sparse)
	}
	s := strings.Join(l, " ")
	if len(s) > 350 {
		s = s[:350] + "..."
	}
	return s
}

// contentReadable checks that every file of a tree reads to exactly its stated size.
func contentReadable(c *Ctx, topic, what string, fsys fs.FS) {
	err := fs.WalkDir(fsys, ".", func(p string, d fs.DirEntry, err error) error {
		if !c.Check(err == nil, topic, "%s: walking %q: %v", what, p, err) {
			return fs.SkipDir
		}
		fi, err := d.Info()
		if err != nil || kindOf(fi.Mode()) != "file" {
			return nil
		}
		f, err := fsys.Open(p)
		if !c.Check(err == nil, topic, "%s: opening %q: %v", what, p, err) {
			return nil
		}
		defer f.Close()
		b, err := readAllLimited(f, int(min(fi.Size(), 1<<24))+64)
		c.Check(err == nil && int64(len(b)) == fi.Size(), topic, "%s: %q reads to %d bytes, stated size %d: %v", what, p, len(b), fi.Size(), err)
		return nil
	})
	c.Check(err == nil, topic, "%s: walk: %v", what, err)
}

func (w *tarWorld) fault(tc tCase, pieces []tarPiece) {
	c, f := w.c, tc.Fault
	rng := c.Rng
	c.Count("fault " + f.F + " " + f.Where)
	var b []byte
	for i, p := range pieces {
		if i+1 < f.At || (f.F == "cut" && f.Where == "after" && i+1 == f.At) {
			b = append(b, p.bytes()...)
			continue
		}
		if i+1 > f.At && f.F == "cut" {
			break
		}
		if i+1 != f.At {
			b = append(b, p.bytes()...)
			continue
		}
		switch {
		case f.F == "cut":
			all := p.bytes()
			e, h, d := len(p.Ext), len(p.Ext)+512, len(p.Ext)+512+len(p.Data)
			var n int
			switch f.Where {
			case "hdr":
				n = e + []int{1, 100, 257, 511, 1 + rng.Intn(511)}[rng.Intn(5)]
			case "data":
				if h == d {
					return
				}
				n = h + []int{0, 1, d - h - 1, rng.Intn(d - h)}[rng.Intn(4)]
				n = max(h, min(n, d-1))
			case "pad":
				if d == len(all) {
					return
				}
				n = d + rng.Intn(len(all)-d)
			case "ext":
				if e == 0 {
					return
				}
				n = 1 + rng.Intn(e)
				if rng.Intn(3) == 0 {
					n = e
				}
			}
			b = append(b, all[:n]...)
		case f.F == "flip":
			all := p.bytes()
			k := len(p.Ext)
			if k > 0 && rng.Intn(3) == 0 {
				k = 0 // the header of the extension
			}
			pos := rng.Intn(504)
			if pos >= 148 {
				pos += 8
			}
			if rng.Intn(4) == 0 {
				// the checksum itself: another number
				copy(all[k+148:k+154], fmt.Sprintf("%06o", (int(all[k+153])*64+rng.Intn(4000)+1)%0o100000))
				if bytesEqual(all[k:k+512], p.bytes()[k:k+512]) || headerSumOK(all[k:k+512]) {
					return
				}
			} else {
				all[k+pos] ^= byte(1 << rng.Intn(8))
				if headerSumOK(all[k : k+512]) {
					return
				}
			}
			b = append(b, all...)
		case f.F == "type":
			te := w.te[i]
			te.Type = []byte{'3', '4', '6', '3', '4', '6', 'V', 'M', 'Z', 'A'}[rng.Intn(10)]
			te.Sparse, te.Content, te.Link = "", nil, ""
			te.Dialect = []string{"ustar", "gnu", "pax"}[rng.Intn(3)]
			te.fixDialect(rng)
			if te.Dialect == "v7" {
				te.Dialect = "ustar"
			}
			te.Name = strings.TrimSuffix(te.Name, "/")
			b = append(b, te.encode(rng).bytes()...)
		}
	}
	if f.F != "cut" || (f.Where == "after" && rng.Intn(3) == 0) {
		// an archive cut between two entries may or may not have its end marker
		b = append(b, tarEnd(rng, len(b))...)
	}
	what := fmt.Sprintf("%s %s at %d of %s", f.F, f.Where, f.At, describe(w.te))
	fsys, err := tarfs.Open(newReaderAt(c, b))
	switch tc.Open {
	case "refuse":
		c.Check(err != nil, "damage", "%s: opens", what)
	case "ok":
		c.Check(err == nil, "damage", "%s: %v", what, err)
	}
	if err != nil {
		return
	}
	contentReadable(c, "damage", what, fsys)
	if tc.Open != "refuse" {
		// nothing but what precedes the cut (and possibly the entry whose padding was cut)
		Obs{Topic: "damage"}.ObserveAny(c, what, fsys, w.tree(f.Tree), w.tree(tc.Tree))
	}
}

func headerSumOK(h []byte) bool {
	var n int
	if _, err := fmt.Sscanf(strings.Trim(string(h[148:156]), " \x00"), "%o", &n); err != nil {
		return false
	}
	u, s := 0, 0
	for i, x := range h {
		if i >= 148 && i < 156 {
			x = ' '
		}
		u += int(x)
		s += int(int8(x))
	}
	return n == u || n == s
}

func bytesEqual(a, b []byte) bool { return string(a) == string(b) }

var _ = path.Join
