package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/crc32"
	"io/fs"
	"path"
	"sort"
	"strings"
	"time"

	"github.com/dpeckett/archivefs/erofs"
)

// Images that the real code creates, taken apart by a decoder of its own that trusts
// nothing in them; what it finds is recorded for validation against ErofsLayout.tla.

func init() {
	suites["elayout"] = func(c *Ctx, raw json.RawMessage) { elayoutSuite(c, raw, "layout") }
	suites["eorder"] = func(c *Ctx, raw json.RawMessage) { elayoutSuite(c, raw, "order") }
}

type lEnt struct {
	Rank int    `json:"rank"`
	Name string `json:"name"`
	Node int    `json:"node"`
	Type string `json:"type"`
	full string
	nid  uint64
}

type lNode struct {
	Off    int64  `json:"off"`
	NidOff int64  `json:"nidoff"`
	ISize  int    `json:"isize"`
	Form   string `json:"form"`
	Layout string `json:"layout"`
	Xattr  int    `json:"xattr"`
	Kind   string `json:"kind"`
	Size   int64  `json:"size"`
	Parent int    `json:"parent"`
	Ents   []lEnt `json:"ents"`

	nid  uint64
	node *Node
	data []byte
}

type lExt struct {
	A    int64  `json:"a"`
	E    int64  `json:"e"`
	Z    int64  `json:"z"`
	What string `json:"what"`
	I    int    `json:"i"`
}

type lWrite struct {
	A  int64 `json:"a"`
	E  int64 `json:"e"`
	Sb bool  `json:"sb"`
}

type layoutRec struct {
	Want     string   `json:"want"`
	What     string   `json:"what"`
	Bs       int64    `json:"bs"`
	Bits     int      `json:"bits"`
	Blocks   int64    `json:"blocks"`
	Meta     int64    `json:"meta"`
	Magic    bool     `json:"magic"`
	SumOK    bool     `json:"sumok"`
	Incompat int      `json:"incompat"`
	Inodes   int64    `json:"inodes"`
	Nodes    []lNode  `json:"nodes"`
	Ext      []lExt   `json:"ext"`
	Writes   []lWrite `json:"writes"`
}

var crcTable = crc32.MakeTable(crc32.Castagnoli)

// recognised: magic and checksum of the superblock are right.
func recognised(b []byte) (magic, sum bool) {
	if len(b) < 1152 {
		return false, false
	}
	le := binary.LittleEndian
	magic = le.Uint32(b[1024:]) == 0xe0f5e1e2
	if le.Uint32(b[1032:])&1 == 0 {
		return magic, true
	}
	bits := int(b[1036])
	if bits < 9 || bits > 16 {
		return magic, false
	}
	end := 1 << bits
	if end <= 1024 {
		end = 1024 + 128
	}
	blk := make([]byte, end-1024)
	copy(blk, b[1024:])
	want := le.Uint32(blk[4:])
	le.PutUint32(blk[4:], 0)
	return magic, ^crc32.Update(0, crcTable, blk) == want
}

// decodeImage takes an image apart.
func decodeImage(b []byte) (r layoutRec, t Tree, err error) {
	le := binary.LittleEndian
	if len(b) < 1152 {
		return r, nil, fmt.Errorf("%d bytes", len(b))
	}
	r.Magic, r.SumOK = recognised(b)
	r.Bits = int(b[1036])
	if r.Bits < 9 || r.Bits > 16 {
		return r, nil, fmt.Errorf("block size 2^%d", r.Bits)
	}
	r.Bs = 1 << r.Bits
	rootNid := uint64(le.Uint16(b[1038:]))
	r.Inodes = int64(le.Uint64(b[1040:]))
	buildTime := time.Unix(int64(le.Uint64(b[1048:])), int64(le.Uint32(b[1056:])))
	r.Blocks = int64(le.Uint32(b[1060:]))
	r.Meta = int64(le.Uint32(b[1064:]))
	r.Incompat = int(le.Uint32(b[1104:]))
	if b[1037] != 0 || r.Inodes > 1<<20 || r.Blocks > 1<<20 || r.Meta > 1<<19 {
		return r, nil, fmt.Errorf("superblock with %d slots, %d inodes, %d blocks, metadata at %d", b[1037], r.Inodes, r.Blocks, r.Meta)
	}
	r.Ext = append(r.Ext, lExt{1024, 1152, 1152, "sb", 0})
	get := func(off, n int64) ([]byte, error) {
		if off < 0 || n < 0 || off+n > int64(len(b)) {
			return nil, fmt.Errorf("%d bytes at %d, the image has %d", n, off, len(b))
		}
		return b[off : off+n], nil
	}
	index := map[uint64]int{}
	inode := func(nid uint64, parent int) (int, error) {
		if i, ok := index[nid]; ok {
			return i, nil
		}
		if nid > 1<<26 {
			return 0, fmt.Errorf("nid %d", nid)
		}
		x := lNode{nid: nid, NidOff: int64(nid) * 32, Off: r.Meta*r.Bs + int64(nid)*32, Parent: parent, ISize: 32, Form: "compact", Ents: []lEnt{}}
		p, err := get(x.Off, 32)
		if err != nil {
			return 0, err
		}
		format := le.Uint16(p)
		if format&1 != 0 {
			x.Form, x.ISize = "extended", 64
			if p, err = get(x.Off, 64); err != nil {
				return 0, err
			}
		}
		x.Layout = fmt.Sprint(format >> 1)
		if format>>1 == 0 {
			x.Layout = "plain"
		} else if format>>1 == 2 {
			x.Layout = "inline"
		}
		x.Xattr = int(le.Uint16(p[2:]))
		mode := le.Uint16(p[4:])
		n := &Node{}
		x.node = n
		for k, v := range map[string]uint16{"file": 0o100000, "dir": 0o040000, "link": 0o120000} {
			if mode&0o170000 == v {
				n.Kind = k
			}
		}
		x.Kind = n.Kind
		n.Mode = fs.FileMode(mode & 0o777)
		for bit, v := range map[uint16]fs.FileMode{0o4000: fs.ModeSetuid, 0o2000: fs.ModeSetgid, 0o1000: fs.ModeSticky} {
			if mode&bit != 0 {
				n.Mode |= v
			}
		}
		if x.ISize == 32 {
			x.Size = int64(le.Uint32(p[8:]))
			n.Uid, n.Gid, n.MTime = int(le.Uint16(p[24:])), int(le.Uint16(p[26:])), buildTime
		} else {
			x.Size = int64(le.Uint64(p[8:]))
			n.Uid, n.Gid = int(le.Uint32(p[24:])), int(le.Uint32(p[28:]))
			n.MTime = time.Unix(int64(le.Uint64(p[32:])), int64(le.Uint32(p[40:])))
		}
		i := len(r.Nodes) + 1
		index[nid] = i
		if x.Size < 0 || x.Size > int64(len(b)) {
			return 0, fmt.Errorf("inode %d of %d bytes in an image of %d", nid, x.Size, len(b))
		}
		end := x.Off + int64(x.ISize)
		tail := int64(0)
		if x.Layout == "inline" {
			tail = x.Size % r.Bs
		}
		r.Ext = append(r.Ext, lExt{x.Off, end + tail, end + tail, "inode", i})
		if full := x.Size - tail; full > 0 {
			a := int64(le.Uint32(p[16:])) * r.Bs
			d, err := get(a, full)
			if err != nil {
				return 0, fmt.Errorf("inode %d: %v", nid, err)
			}
			x.data = append(x.data, d...)
			r.Ext = append(r.Ext, lExt{a, a + full, a + (full+r.Bs-1)/r.Bs*r.Bs, "data", i})
		}
		d, err := get(end, tail)
		if err != nil {
			return 0, fmt.Errorf("inode %d: %v", nid, err)
		}
		x.data = append(x.data, d...)
		r.Nodes = append(r.Nodes, x)
		return i, nil
	}
	t = Tree{}
	if _, err = inode(rootNid, 1); err != nil {
		return r, nil, fmt.Errorf("root: %v", err)
	}
	var walk func(i int, p string, depth int) error
	walk = func(i int, p string, depth int) error {
		x := r.Nodes[i-1]
		n := x.node
		t[p] = n
		switch x.Kind {
		case "file":
			n.Content = x.data
		case "link":
			n.Target = string(x.data)
		}
		if x.Kind != "dir" || len(x.Ents) > 0 {
			return nil
		}
		if depth > 300 {
			return fmt.Errorf("too deep")
		}
		ents, err := decodeDir(x.data, r.Bs)
		if err != nil {
			return fmt.Errorf("directory %q: %v", p, err)
		}
		for k, e := range ents {
			j, err := inode(e.nid, i)
			if err != nil {
				return fmt.Errorf("entry %q of %q: %v", e.full, p, err)
			}
			ents[k].Node = j
		}
		r.Nodes[i-1].Ents = ents
		for _, e := range ents {
			if e.Name == "." || e.Name == ".." {
				continue
			}
			if err := walk(e.Node, path.Join(p, e.full), depth+1); err != nil {
				return err
			}
		}
		return nil
	}
	if err = walk(1, ".", 0); err != nil {
		return r, nil, err
	}
	sort.SliceStable(r.Ext, func(i, j int) bool { return r.Ext[i].A < r.Ext[j].A })
	return r, t, nil
}

func decodeDir(d []byte, bs int64) ([]lEnt, error) {
	le := binary.LittleEndian
	ents := []lEnt{}
	var names []string
	for len(d) > 0 {
		blk := d[:min(int64(len(d)), bs)]
		d = d[len(blk):]
		if len(blk) < 12 {
			return nil, fmt.Errorf("block of %d bytes", len(blk))
		}
		first := int(le.Uint16(blk[8:]))
		if first < 12 || first%12 != 0 || first > len(blk) {
			return nil, fmt.Errorf("names begin at %d of %d", first, len(blk))
		}
		for k := 0; k < first/12; k++ {
			q := blk[12*k:]
			a, z := int(le.Uint16(q[8:])), len(blk)
			last := k+1 == first/12
			if !last {
				z = int(le.Uint16(q[20:]))
			}
			if a < first || z < a || z > len(blk) {
				return nil, fmt.Errorf("name %d from %d to %d of %d", k, a, z, len(blk))
			}
			name := string(blk[a:z])
			if last {
				if i := strings.IndexByte(name, 0); i >= 0 {
					name = name[:i]
				}
			}
			if name == "" || strings.ContainsAny(name, "\x00/") || len(name) > 255 {
				return nil, fmt.Errorf("name %q", name)
			}
			kind := map[byte]string{1: "file", 2: "dir", 7: "link"}[q[10]]
			ents = append(ents, lEnt{Name: fmt.Sprintf("%.12q", name), Type: kind, full: name, nid: le.Uint64(q)})
			if name == "." || name == ".." {
				ents[len(ents)-1].Name = name
			}
			names = append(names, name)
		}
	}
	sort.Strings(names)
	for k := range ents {
		ents[k].Rank = sort.SearchStrings(names, ents[k].full) // equal names have equal ranks
	}
	return ents, nil
}

// widen adds many entries to a directory now and then.
func widen(c *Ctx, t Tree) {
	if c.Rng.Intn(4) != 0 {
		return
	}
	var dirs []string
	for _, p := range t.paths() {
		if t[p].Kind == "dir" {
			dirs = append(dirs, p)
		}
	}
	d := dirs[c.Rng.Intn(len(dirs))]
	n := []int{20, 60, 150, 300}[c.Rng.Intn(4)]
	for i := 0; i < n; i++ {
		l := 1 + c.Rng.Intn(40)
		if c.Rng.Intn(6) == 0 {
			l = 255
		}
		b := make([]byte, l)
		for k := range b {
			b[k] = "!#+,-.0A_az~\x80\xff\x01"[c.Rng.Intn(15)]
		}
		p := path.Join(d, string(b))
		if path.Dir(p) != d || path.Base(p) != string(b) || t[p] != nil || string(b) == "." || string(b) == ".." {
			continue
		}
		x := &Node{Kind: []string{"file", "file", "file", "dir"}[c.Rng.Intn(4)], Mode: 0o600, MTime: time.Unix(c.Rng.Int63n(1e9), 0)}
		if c.Rng.Intn(2) == 0 {
			x.MTime = time.Time{}
		}
		if x.Kind == "file" && c.Rng.Intn(2) == 0 {
			x.Content = content(p, c.Rng.Intn(1400))
		}
		t[p] = x
	}
}

func elayoutSuite(c *Ctx, raw json.RawMessage, want string) {
	var cc cCase
	fatal(json.Unmarshal(raw, &cc))
	if cc.Steps[0].R == "refuse" {
		return
	}
	t := classTree(c, newNames(c, nameOpts{max: 200, raw: true}), cc.Nodes)
	widen(c, t)
	if k := map[string]string{"disk": "stat", "mem": "plain"}[cc.Src]; k != "" {
		cc.Src = k
	}
	src := &srcFS{t: t, kind: cc.Src, chunk: []int{0, 0, 1000, 4096}[c.Rng.Intn(4)], early: c.Rng.Intn(2) == 0}
	m := &memAt{record: true}
	what := "image of {" + treeString(t) + "}"
	if err := erofs.Create(m, srcLinkFS{src}); err != nil {
		c.Count("not created")
		return
	}
	r, got, err := decodeImage(m.b)
	r.Want, r.What = want, what
	if want == "layout" {
		if !c.Check(err == nil, "layout", "%s: %v", what, err) {
			return
		}
		compareTrees(c, what, got, t, cc.Src != "plain")
		r.Writes = []lWrite{}
		c.Record(r)
		return
	}
	// every point at which the creation could have ended
	present := t.clone()
	for _, n := range present {
		n.NoOwner = cc.Src == "plain"
		if n.MTime.IsZero() {
			n.MTime = time.Unix(0, 0)
		}
	}
	try := func(b []byte, where string) {
		if bytes.Equal(b, m.b) && c.Rng.Intn(40) > 0 {
			return // nothing is missing, only zeros were to follow
		}
		fsys, err := erofs.Open(newReaderAt(c, b))
		c.Checks++
		if err != nil {
			return
		}
		c.Count("accepted")
		x := &Ctx{Case: c.Case, Variant: c.Variant, Seed: c.Seed, Rng: c.Rng, Stats: c.Stats}
		Obs{Topic: "cut", Root: true}.Observe(x, what, fsys, present)
		c.Checks += x.Checks
		c.Check(len(x.Bad) == 0, "cut", "%s, cut short %s: opens but presents something else: %v", what, where, x.Bad)
	}
	n := len(m.writes)
	p := &memAt{}
	cuts := map[int]bool{}
	for k := range m.writes {
		if n < 60 || k > n-12 || c.Rng.Intn(n) < 40 {
			cuts[k] = true
		}
	}
	ws := []lWrite{}
	for k, w := range m.writes {
		if cuts[k] {
			try(p.b, fmt.Sprintf("after %d of %d writes", k, n))
		}
		sb := overlaps(w, 1024, 1152)
		if sb || cuts[k] && c.Rng.Intn(4) == 0 {
			for part := 1; part < len(w.b); part++ {
				if part > 12 && w.off+int64(part) > 1160 || !sb {
					part += c.Rng.Intn(1 + len(w.b)/6)
				}
				if part >= len(w.b) {
					break
				}
				d := &memAt{b: append([]byte(nil), p.b...)}
				d.put(w.b[:part], w.off)
				try(d.b, fmt.Sprintf("%d bytes into write %d of %d", part, k+1, n))
			}
		}
		p.put(w.b, w.off)
		if sb {
			magic, sum := recognised(p.b)
			sb = magic && sum
		}
		e := w.off + int64(len(w.b))
		if l := len(ws) - 1; l >= 0 && len(m.writes) > 150 && !sb && !ws[l].Sb && ws[l].E == w.off {
			ws[l].E = e
		} else if e > w.off {
			ws = append(ws, lWrite{w.off, e, sb})
		}
	}
	r.Writes = ws
	// the destination fails from some write on
	for i := 0; i < 6; i++ {
		d := &memAt{fail: 1 + c.Rng.Intn(n), part: c.Rng.Intn(200)}
		if i == 0 {
			d.fail = n
		}
		erofs.Create(d, srcLinkFS{src})
		try(d.b, fmt.Sprintf("because write %d of %d fails", d.fail, n))
	}
	if err == nil {
		r.Nodes = []lNode{}
		c.Record(r)
	} else {
		c.Count("undecodable")
	}
}

func overlaps(w memWrite, a, e int64) bool { return w.off < e && w.off+int64(len(w.b)) > a }

// compareTrees: what the image holds is what the source held.
func compareTrees(c *Ctx, what string, got, want Tree, owners bool) {
	for _, p := range want.paths() {
		n, g := want[p], got[p]
		if !c.Check(g != nil, "layout.tree", "%s: %q is missing", what, p) {
			return
		}
		mt := n.MTime
		if mt.IsZero() {
			mt = time.Unix(0, 0)
		}
		c.Check(g.Kind == n.Kind, "layout.tree", "%s: %q: a %s, want a %s", what, p, g.Kind, n.Kind)
		c.Check(g.Mode == n.Mode && g.MTime.Equal(mt), "layout.meta", "%s: %q: %v %v, want %v %v", what, p, g.Mode, g.MTime, n.Mode, mt)
		c.Check(bytes.Equal(g.Content, n.Content) && g.Target == n.Target, "layout.tree", "%s: %q: content %s or target %.40q", what, p, diffAt(g.Content, n.Content), g.Target)
		c.Check(!owners || g.Uid == n.Uid && g.Gid == n.Gid, "layout.meta", "%s: %q: owner %d:%d, want %d:%d", what, p, g.Uid, g.Gid, n.Uid, n.Gid)
	}
	c.Check(len(got) == len(want), "layout.tree", "%s: %d paths, want %d", what, len(got), len(want))
}
