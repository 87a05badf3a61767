package main

import (
	"archive/tar"
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"io/fs"
	"math/rand"
	"os"
	"path"
	"strings"
	"syscall"
	"time"

	"github.com/dpeckett/archivefs"
	"github.com/dpeckett/archivefs/arfs"
	"github.com/dpeckett/archivefs/erofs"
	"github.com/dpeckett/archivefs/memfs"
	"github.com/dpeckett/archivefs/tarfs"
)

func init() { suites["convert"] = convertSuite }

type cAttr struct {
	K  string `json:"k"`
	Sz string `json:"sz"`
	Tm string `json:"tm"`
	Md string `json:"md"`
	Ow string `json:"ow"`
	Tg string `json:"tg"`
}

type cNode struct {
	P []string `json:"p"`
	A cAttr    `json:"a"`
}

type cStep struct {
	F    string `json:"f"`
	R    string `json:"r"`
	Own  string `json:"own"`
	Time string `json:"time"`
	Root string `json:"root"`
}

type cCase struct {
	Src   string  `json:"src"`
	Steps []cStep `json:"steps"`
	Nodes []cNode `json:"nodes"`
}

var classTimes = map[string]func(r *rand.Rand) time.Time{
	"zero":    func(r *rand.Rand) time.Time { return time.Time{} },
	"epoch":   func(r *rand.Rand) time.Time { return time.Unix(0, 0) },
	"sec":     func(r *rand.Rand) time.Time { return time.Unix(1+r.Int63n(2e9), 0) },
	"frac":    func(r *rand.Rand) time.Time { return time.Unix(1+r.Int63n(2e9), 1+r.Int63n(999999999)) },
	"half":    func(r *rand.Rand) time.Time { return time.Unix(1+r.Int63n(2e9), 500000000) },
	"old":     func(r *rand.Rand) time.Time { return time.Unix(-1-r.Int63n(2e9), 0) },
	"oldfrac": func(r *rand.Rand) time.Time { return time.Unix(-1-r.Int63n(2e9), 1+r.Int63n(999999999)) },
	"far":     func(r *rand.Rand) time.Time { return time.Unix(1<<31+r.Int63n(1<<33), 0) },
	"huge":    func(r *rand.Rand) time.Time { return time.Unix(1e12+r.Int63n(1e10), 0) },
}

var classModes = map[string]fs.FileMode{
	"m0": 0, "m644": 0o644, "m755": 0o755, "m777": 0o777, "suid": 0o4755&^0o4000 | fs.ModeSetuid, "sgid": 0o750 | fs.ModeSetgid,
	"sticky": 0o777 | fs.ModeSticky, "all": 0o777 | fs.ModeSetuid | fs.ModeSetgid | fs.ModeSticky,
}

func classOwner(r *rand.Rand, tok string) (uid, gid int) {
	f := func(t string) int {
		switch t {
		case "root":
			return 0
		case "edge16":
			return 65535
		case "over16":
			return 65536 + r.Intn(2)*r.Intn(900000)
		case "edge17":
			return 999999
		case "wide":
			return []int{1000000, 1<<21 - 1, 1 << 21, 1<<31 - 1, 1 << 31, 1<<32 - 2, 1<<32 - 1}[r.Intn(7)]
		}
		return 1 + r.Intn(60000)
	}
	switch r.Intn(3) {
	case 0:
		return f(tok), f("small")
	case 1:
		return f("small"), f(tok)
	}
	return f(tok), f(tok)
}

func classTarget(r *rand.Rand, tok, name string) string {
	switch tok {
	case "rel":
		return []string{"a/b", "x", "b", " y", "é/ü"}[r.Intn(5)]
	case "abs":
		return []string{"/a/b", "/", "//a", "/a/"}[r.Intn(4)]
	case "up":
		return []string{"..", "../..", "../a/../b", "../../../../../x"}[r.Intn(4)]
	case "self":
		return name
	case "tnul":
		return []string{"\x00", "a\x00b", "a\x00", "/\x00/a"}[r.Intn(4)]
	case "dotty":
		return []string{"./a//b/.", ".", "a/.", "a/", ".//", "..."}[r.Intn(6)]
	}
	var n int
	fmt.Sscanf(tok, "t%d", &n)
	return targetOf(r, n)
}

func targetOf(r *rand.Rand, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = "abcdefghij/klmnop"[r.Intn(17)]
	}
	if n > 0 && b[0] == '/' {
		b[0] = 'q'
	}
	return string(b)
}

// className is the concrete name of a token.
func className(c *Ctx, nm *Names, tok string) string {
	var n int
	if k, _ := fmt.Sscanf(tok, "n%d", &n); k == 1 && tok == fmt.Sprintf("n%d", n) {
		if s, ok := nm.m[tok]; ok {
			return s
		}
		s := "N" + longName(n-1, c.Rng.Intn(100)) // no pool has names like it
		nm.m[tok], nm.used[s] = s, true
		return s
	}
	switch tok {
	case "nul":
		if _, ok := nm.m[tok]; !ok {
			nm.m[tok] = []string{"\x00", "z\x00y", "zy\x00", "\x00zy", "z\x00\x00"}[c.Rng.Intn(5)]
		}
		return nm.m[tok]
	case ".x", "lsp", "tsp":
		return map[string]string{".x": ".zx", "lsp": " zx", "tsp": "zx "}[tok]
	}
	return nm.Get(tok)
}

// classNode picks the values of a node's attributes.
func classNode(c *Ctx, k int, a cAttr, name string) *Node {
	n := &Node{Kind: a.K}
	if f := classTimes[a.Tm]; f != nil {
		n.MTime = f(c.Rng)
	}
	n.Mode = classModes[a.Md]
	n.Uid, n.Gid = classOwner(c.Rng, a.Ow)
	switch n.Kind {
	case "file":
		var sz int
		fmt.Sscanf(a.Sz, "s%d", &sz)
		n.Content = content(fmt.Sprint("f", k, c.Variant), sz)
	case "link":
		n.Target = classTarget(c.Rng, a.Tg, name)
	}
	return n
}

// classTree gives the nodes of a case concrete names and attributes.
func classTree(c *Ctx, nm *Names, nodes []cNode) Tree {
	t := Tree{}
	for k, x := range nodes {
		var l []string
		for _, tok := range x.P {
			l = append(l, className(c, nm, tok))
		}
		p := path.Join(l...)
		if len(l) == 0 {
			p = "."
		}
		if x.A.K == "many" {
			many(c, nm, t, path.Dir(p), k, x.A)
			continue
		}
		if x.A.K == "deep" {
			deep(c, nm, t, p, k, x.A)
			continue
		}
		n := classNode(c, k, x.A, path.Base(p))
		t[p] = n
	}
	return t
}

// many puts small files into a directory.
func many(c *Ctx, nm *Names, t Tree, dir string, k int, a cAttr) {
	var n int
	fmt.Sscanf(a.Sz, "s%d", &n)
	longest := 1 + c.Rng.Intn(min(nm.o.max, 12))
	if n <= 3000 && c.Rng.Intn(3) == 0 {
		longest = nm.o.max
	}
	a.K, a.Sz = "file", "s0"
	for i, idle := 0, 0; i < n && idle < 1000000; idle++ {
		name := anyName(c.Rng, nameOpts{max: longest, noTrail: nm.o.noTrail, raw: nm.o.raw})
		if idle%4 > 0 {
			name = fmt.Sprintf("%0*d", 1+c.Rng.Intn(longest), c.Rng.Intn(n*9))
		} else if len(name) < 5 {
			name += fmt.Sprint(c.Rng.Intn(1000))
		}
		if idle > 20*n {
			name = fmt.Sprintf("%08d", i)
		}
		if !nameOK(name, nm.o) || nm.used[name] || t[path.Join(dir, name)] != nil {
			continue
		}
		x := classNode(c, k, a, name)
		if c.Rng.Intn(3) == 0 || n < 1000 {
			x.Content = []byte(strings.Repeat(name+"\n", c.Rng.Intn(4)))
		}
		t[path.Join(dir, name)] = x
		i++
	}
}

// deep puts a chain of directories into a tree, and a few files.
func deep(c *Ctx, nm *Names, t Tree, p string, k int, a cAttr) {
	var n int
	fmt.Sscanf(a.Sz, "s%d", &n)
	same := c.Rng.Intn(3) == 0 // names that are all the same
	long := 1 + c.Rng.Intn(3)
	if c.Rng.Intn(4) == 0 {
		long = min(nm.o.max, 100)
	}
	for i := 0; i < n; i++ {
		a.K, a.Sz = "dir", "-"
		t[p] = classNode(c, k, a, path.Base(p))
		if c.Rng.Intn(8) == 0 || i == n-1 {
			a.K, a.Sz = "file", []string{"s0", "s1", "s600", "s4096"}[c.Rng.Intn(4)]
			t[path.Join(p, fmt.Sprint("f", i))] = classNode(c, k+i, a, "f")
		}
		name := path.Base(p)
		if !same {
			name = fmt.Sprintf("%0*d", 1+c.Rng.Intn(long), i)
		}
		p = path.Join(p, name)
	}
}

func (t Tree) clone() Tree {
	r := Tree{}
	for p, n := range t {
		m := *n
		r[p] = &m
	}
	return r
}

// makeSource presents a tree as a source filesystem; what the kind of source cannot
// hold or changes is taken over into the tree.
func makeSource(c *Ctx, t Tree, kind string) (fs.FS, func()) {
	switch kind {
	case "mem":
		if f := memSource(t); f != nil {
			return f, func() {}
		}
		kind = "plain"
	case "tar", "erofs", "ar":
		if f := archiveSource(c, t, kind); f != nil {
			return f, func() {}
		}
		kind = "hdr"
	case "disk":
		d, err := os.MkdirTemp("", "verif-src-*")
		fatal(err)
		if f := diskSource(t, d); f != nil {
			return f, func() { os.RemoveAll(d) }
		}
		os.RemoveAll(d)
		c.Count("not on disk")
		kind = "stat"
	}
	return wrapSource(c, t, kind), func() {}
}

// adopt takes the metadata over that the source says it has.
func adopt(t Tree, stat func(p string) (fs.FileInfo, error)) bool {
	for p, n := range t {
		fi, err := stat(p)
		if err != nil || kindOf(fi.Mode()) != n.Kind {
			return false
		}
		n.Mode, n.MTime = fi.Mode()&permBits, fi.ModTime()
		if s, ok := fi.Sys().(*syscall.Stat_t); ok {
			n.Uid, n.Gid = int(s.Uid), int(s.Gid)
		}
	}
	return true
}

func memSource(t Tree) fs.FS {
	f := memfs.New()
	for _, p := range t.paths() {
		n := t[p]
		switch {
		case p == ".":
		case n.Kind == "dir":
			if f.MkdirAll(p, n.Mode) != nil {
				return nil
			}
		case n.Kind == "file":
			if f.WriteFile(p, n.Content, n.Mode) != nil {
				return nil
			}
		default:
			return nil
		}
	}
	x := t.clone()
	if !adopt(x, func(p string) (fs.FileInfo, error) { return fs.Stat(f, p) }) {
		return nil
	}
	for p := range t {
		t[p] = x[p]
	}
	return f
}

// archiveSource is an opened archive, of someone else's making.
func archiveSource(c *Ctx, t Tree, kind string) fs.FS {
	x := t.clone()
	for p, n := range x {
		if kind == "ar" && p != "." && (n.Kind != "file" || path.Dir(p) != "." || len(p) > 15 || strings.HasSuffix(p, " ")) {
			return nil
		}
		if kind == "erofs" && (len(path.Base(p)) > 255 || len(n.Target) > 4095) {
			return nil
		}
		if n.MTime.Unix() < 0 && kind == "tar" || kind == "ar" {
			n.MTime = time.Unix(n.MTime.Unix(), 0)
		}
		if kind == "ar" && (n.MTime.Unix() < 0 || n.MTime.Unix() > 1e11) {
			n.MTime = time.Unix(0, 0)
		}
	}
	var b []byte
	if kind == "tar" && c.Rng.Intn(2) == 0 {
		b, x = busyTar(c, x)
	} else {
		b, x = encodeAs(c, kind, x)
	}
	f, err := openBytes(c, kind, b)
	if !c.Check(err == nil, "source", "%s of {%s} does not open: %v", kind, treeString(t), err) {
		return nil
	}
	x = x.clone()
	for _, n := range x {
		if n.NoOwner {
			n.Uid, n.Gid = 0, 0
		}
		n.NoMode, n.NoTime, n.NoOwner, n.Nlink = false, false, false, 0
	}
	if kind != "erofs" {
		x["."].Uid, x["."].Gid = 0, 0 // the archive has no entry for it
	}
	stat := func(p string) (fs.FileInfo, error) { return fs.Stat(f, p) }
	if l, ok := f.(archivefs.ReadLinkFS); ok {
		stat = l.StatLink
	}
	if !c.Check(adopt(x, stat), "source", "%s of {%s} lacks nodes", kind, treeString(t)) {
		return nil
	}
	for p := range t {
		t[p] = x[p]
	}
	c.Count("from " + kind)
	return f
}

func diskSource(t Tree, d string) fs.FS {
	for p := range t {
		if !fs.ValidPath(p) {
			return nil // os.DirFS does not open it
		}
	}
	l := t.paths()
	for _, p := range l {
		n, at := t[p], path.Join(d, p)
		var err error
		switch n.Kind {
		case "dir":
			if p != "." {
				err = os.Mkdir(at, 0o700)
			}
		case "file":
			err = os.WriteFile(at, n.Content, 0o600)
		case "link":
			err = os.Symlink(n.Target, at)
		default:
			return nil
		}
		if err != nil {
			return nil
		}
		os.Lchown(at, n.Uid, n.Gid)
	}
	for i := len(l) - 1; i >= 0; i-- {
		n, at := t[l[i]], path.Join(d, l[i])
		if n.Kind == "link" {
			continue
		}
		if n.MTime.Unix() < 1<<33 && !n.MTime.IsZero() {
			os.Chtimes(at, n.MTime, n.MTime)
		}
		os.Chmod(at, n.Mode|0o500&^0o022)
	}
	x := t.clone()
	if !adopt(x, func(p string) (fs.FileInfo, error) { return os.Lstat(path.Join(d, p)) }) {
		return nil
	}
	for p := range t {
		t[p] = x[p]
	}
	return diskFS{os.DirFS(d).(dirFS)}
}

type dirFS interface {
	fs.ReadDirFS
	fs.StatFS
	ReadLink(string) (string, error)
	Lstat(string) (fs.FileInfo, error)
}

// diskFS knows links under the names this library uses.
type diskFS struct{ dirFS }

func (d diskFS) StatLink(p string) (fs.FileInfo, error) { return d.Lstat(p) }

func wrapSource(c *Ctx, t Tree, kind string) fs.FS {
	s := &srcFS{t: t, kind: kind, chunk: []int{0, 0, 1000, 7, 4096}[c.Rng.Intn(5)], early: c.Rng.Intn(2) == 0}
	for _, n := range t {
		if n.Kind == "link" && kind != "blind" {
			return srcLinkFS{s}
		}
		if len(n.Content) > 20000 && s.chunk == 7 {
			s.chunk = 0
		}
	}
	if kind == "blind" || c.Rng.Intn(2) == 0 {
		return s // knows no links
	}
	return srcLinkFS{s}
}

// createBytes runs a creation into memory or a scratch file.
func createBytes(c *Ctx, format string, src fs.FS) ([]byte, error) {
	switch format {
	case "tar":
		w := &memW{}
		err := tarfs.Create(w, src)
		return w.b, err
	case "ar":
		w := &memW{}
		err := arfs.Create(w, src)
		return w.b, err
	}
	switch c.Rng.Intn(4) {
	case 0: // a file that held something before
		f, err := os.CreateTemp("", "verif-erofs-*")
		fatal(err)
		defer os.Remove(f.Name())
		defer f.Close()
		_, err = f.Write(bytes.Repeat([]byte("previous content "), c.Rng.Intn(4000)))
		fatal(err)
		err = erofs.Create(f, src)
		b, e2 := os.ReadFile(f.Name())
		fatal(e2)
		if err == nil && len(b) >= 1152 {
			blocks, bits := int64(binary.LittleEndian.Uint32(b[1060:])), b[1036]
			c.Check(bits <= 16 && int64(len(b)) == blocks<<bits, "erofs.tree", "a destination file ends up with %d bytes for %d blocks of 2^%d", len(b), blocks, bits)
		}
		return b, err
	case 1: // memory that held something before
		m := &memAt{b: bytes.Repeat([]byte{0xa5, 0xff, 0x5a}, c.Rng.Intn(20000))}
		err := erofs.Create(m, src)
		return m.b, err
	}
	m := &memAt{}
	err := erofs.Create(m, src)
	return m.b, err
}

func openBytes(c *Ctx, format string, b []byte) (fs.FS, error) {
	var ra io.ReaderAt = newReaderAt(c, b)
	switch format {
	case "tar":
		return fsOrNil(tarfs.Open(ra))
	case "ar":
		return fsOrNil(arfs.Open(ra))
	}
	return fsOrNil(erofs.Open(ra))
}

func fsOrNil[T fs.FS](f T, err error) (fs.FS, error) {
	if err != nil {
		return nil, err
	}
	return f, nil
}

func treeString(t Tree) string {
	var l []string
	for _, p := range t.paths() {
		n := t[p]
		l = append(l, fmt.Sprintf("%s:%s/%d%s/%o/%d.%d/%d:%d", short([]string{p})[0], n.Kind, len(n.Content), short([]string{n.Target})[0], n.Mode, n.MTime.Unix(), n.MTime.Nanosecond(), n.Uid, n.Gid))
	}
	s := strings.Join(l, " ")
	if len(s) > 300 {
		s = s[:300] + "..."
	}
	return s
}

func convertSuite(c *Ctx, raw json.RawMessage) {
	var cc cCase
	fatal(json.Unmarshal(raw, &cc))
	o := nameOpts{max: 200, raw: true}
	for _, s := range cc.Steps {
		if s.F == "ar" {
			o = nameOpts{max: 16, noTrail: true, raw: true}
		}
	}
	t := classTree(c, newNames(c, o), cc.Nodes)
	src, clean := makeSource(c, t, cc.Src)
	defer clean()
	if c.SrcTap != nil {
		c.SrcTap(src)
	}
	want := t.clone()
	hist := cc.Src
	for _, s := range cc.Steps {
		hist += ">" + s.F
		what := fmt.Sprintf("%s of {%s}", hist, treeString(t))
		c.Count(s.F + " " + s.R)
		b, err := createBytes(c, s.F, src)
		again, err2 := createBytes(c, s.F, src)
		c.Check((err == nil) == (err2 == nil), "determ", "%s: creating twice: %v, %v", what, err, err2)
		if s.R == "refuse" {
			c.Check(err != nil, s.F+".refuse", "%s: succeeds", what)
			return
		}
		if s.R == "any" && err != nil {
			return
		}
		if !c.Check(err == nil, s.F+".tree", "%s: fails: %v", what, err) {
			return
		}
		if s.F != "erofs" || len(b) == len(again) {
			c.Check(sameImage(s.F, b, again), "determ", "%s: creating twice gives different bytes (%d, %d) %s", what, len(b), len(again), diffAt(b, again))
		}
		if s.F == "tar" {
			checkTarBytes(c, what, b, want)
		}
		if kindsOf(want)["special"] {
			// complete for others, though not for this package
			_, err := openBytes(c, s.F, b)
			c.Check(s.F == "tar" && err != nil, s.F+".tree", "%s: opens", what)
			return
		}
		fsys, err := openBytes(c, s.F, b)
		if !c.Check(err == nil, s.F+".tree", "%s: does not open: %v", what, err) {
			return
		}
		if s.F == "ar" {
			checkArBytes(c, what, b, want)
		}
		if c.tap(fsys, s.F, b, what) {
			src = fsys
			for p, n := range want {
				settle(c, fsys, p, n, s, "", what)
			}
			continue
		}
		// what the opened filesystem must present
		obs := Obs{Topic: s.F + ".tree", MetaTopic: s.F + ".meta", Root: s.Root == "same"}
		for p, n := range want {
			n.NoOwner = s.Own != "same"
			if p == "." && s.Root != "same" {
				n.NoMode, n.NoTime, n.NoOwner = true, true, true
			}
			settle(c, fsys, p, n, s, obs.MetaTopic, what)
		}
		obs.Observe(c, what, fsys, want)
		if len(c.Bad) > 0 {
			return
		}
		src = fsys
	}
}

func kindsOf(t Tree) map[string]bool {
	r := map[string]bool{}
	for _, n := range t {
		r[n.Kind] = true
		if n.Kind != "file" && n.Kind != "dir" && n.Kind != "link" {
			r["special"] = true
		}
	}
	return r
}

// sameImage: an image written over something else may keep what lies between its parts.
func sameImage(f string, a, b []byte) bool {
	return f == "erofs" || bytes.Equal(a, b)
}

// settle accepts what a format may do to a time, and fixes it from then on.
func settle(c *Ctx, fsys fs.FS, p string, n *Node, s cStep, topic, what string) {
	if n.NoTime {
		return
	}
	if n.MTime.IsZero() && s.F != "ar" {
		n.MTime = time.Unix(0, 0) // a source without times
	}
	if n.MTime.Nanosecond() == 0 || s.Time != "seconds" {
		return
	}
	var fi fs.FileInfo
	var err error
	if l, ok := fsys.(interface {
		StatLink(string) (fs.FileInfo, error)
	}); ok {
		fi, err = l.StatLink(p)
	} else {
		fi, err = fs.Stat(fsys, p)
	}
	if err != nil {
		return // reported by the comparison
	}
	d := fi.ModTime().Sub(n.MTime)
	if s.F == "ar" {
		c.Check(fi.ModTime().Unix() == n.MTime.Unix(), topic, "%s: %q: time %v, want the second of %v", what, p, fi.ModTime(), n.MTime)
	} else {
		c.Check(d > -time.Second && d < time.Second, topic, "%s: %q: time %v, want within a second of %v", what, p, fi.ModTime(), n.MTime)
	}
	n.MTime = fi.ModTime()
}

// checkTarBytes: a standard reader sees every path once, parents first, no root, and a proper end.
func checkTarBytes(c *Ctx, what string, b []byte, t Tree) {
	topic := "tar.std"
	seen := map[string]bool{}
	r := bytes.NewReader(b)
	tr := tar.NewReader(r)
	for {
		h, err := tr.Next()
		if err == io.EOF {
			break
		}
		if !c.Check(err == nil, topic, "%s: a standard reader: %v", what, err) {
			return
		}
		p := strings.TrimSuffix(h.Name, "/")
		c.Check(p == path.Clean(p) && p != "." && !path.IsAbs(p), topic, "%s: entry %q", what, h.Name)
		c.Check(!seen[p], topic, "%s: entry %q twice", what, p)
		c.Check(path.Dir(p) == "." || seen[path.Dir(p)], topic, "%s: entry %q before its parent", what, p)
		seen[p] = true
		n, ok := t[p]
		if c.Check(ok, topic, "%s: entry %q is not in the source", what, p) {
			kind := map[byte]string{'0': "file", 0: "file", '5': "dir", '2': "link", '3': "chr", '4': "blk", '6': "fifo"}[h.Typeflag]
			c.Check(kind == n.Kind, topic, "%s: entry %q has type %c", what, p, h.Typeflag)
			if n.Kind == "link" {
				c.Check(h.Linkname == n.Target, topic, "%s: entry %q leads to %q", what, p, h.Linkname)
			}
			x, err := io.ReadAll(tr)
			c.Check(err == nil && bytes.Equal(x, n.Content), topic, "%s: entry %q has other content (%v)", what, p, err)
		}
	}
	c.Check(len(seen) == len(t)-1, topic, "%s: %d entries for %d paths", what, len(seen), len(t)-1)
	c.Check(len(b)%512 == 0 && len(b) >= 1024 && bytes.Equal(b[len(b)-1024:], make([]byte, 1024)), topic, "%s: no end marker (%d bytes)", what, len(b))
}

// checkArBytes: the layout of the format, read independently.
func checkArBytes(c *Ctx, what string, b []byte, t Tree) {
	topic := "ar.std"
	if !c.Check(bytes.HasPrefix(b, []byte("!<arch>\n")), topic, "%s: no magic", what) {
		return
	}
	off := 8
	seen := map[string]bool{}
	for off < len(b) {
		if !c.Check(off%2 == 0 && off+60 <= len(b) && string(b[off+58:off+60]) == "`\n", topic, "%s: no header at %d of %d", what, off, len(b)) {
			return
		}
		name := strings.TrimRight(string(b[off:off+16]), " ")
		var size int
		fmt.Sscanf(string(b[off+48:off+58]), "%d", &size)
		n, ok := t[name]
		c.Check(ok && !seen[name], topic, "%s: member %q", what, name)
		seen[name] = true
		if off+60+size > len(b) {
			c.Fail(topic, "%s: member %q is cut off", what, name)
			return
		}
		if ok {
			c.Check(bytes.Equal(b[off+60:off+60+size], n.Content), topic, "%s: content of member %q", what, name)
		}
		off += 60 + size + size%2
	}
	c.Check(off == len(b), topic, "%s: %d bytes too many or missing", what, len(b)-off)
}
