package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"math/rand"
	"os"
	"slices"
	"sort"
	"strings"

	"github.com/dpeckett/archivefs/memfs"
)

func init() { suites["memfs"] = memfsSuite }

type mRes struct {
	R     string  `json:"r"`
	K     string  `json:"k"`
	Perm  string  `json:"perm"`
	D     string  `json:"d"`
	Name  string  `json:"name"`
	List  []mRes  `json:"list"`
	Sub   []mNode `json:"sub"`
	Off   int     `json:"off"`
	Len   int     `json:"len"`
	EOF   bool    `json:"eof"`
	N     int     `json:"n"`
	First bool    `json:"first"`
	All   []mRes  `json:"all"`
}

type mNode struct {
	P    []string `json:"p"`
	K    string   `json:"k"`
	D    string   `json:"d"`
	Perm string   `json:"perm"`
}

type mCall struct {
	Op string `json:"op"`
	A  struct {
		P    []string `json:"p"`
		D    string   `json:"d"`
		Perm string   `json:"perm"`
		H    string   `json:"h"`
		N    int      `json:"n"`
	} `json:"a"`
	Res mRes `json:"res"`
}

type mCase struct {
	H    []mCall `json:"h"`
	T    []mNode `json:"t"`
	DLen map[string]int
}

// dlen: units per content token; "d<k>..." has k units for handle tests ("d1", "d2" in tree tests have 1).
func dlen(tok string) int {
	n := 0
	for _, ch := range tok {
		if ch >= '0' && ch <= '9' {
			n = n*10 + int(ch-'0')
		}
	}
	return n
}

type memWorld struct {
	c     *Ctx
	nm    *Names
	unit  int
	perms map[string]os.FileMode
	fsys  *memfs.FS
	hs    map[string]*memHandle
	rng   *rand.Rand
	bad   string
	subs  []memSub
}

// memSub is a view of a directory that is kept and used from now on: it is the same tree.
type memSub struct {
	p    []string
	fsys *memfs.FS
}

// via gives a filesystem and the path in it that denote p.
func (w *memWorld) via(p []string) (*memfs.FS, string) {
	if len(w.subs) > 0 && (len(p) == 0 || p[0] != "!") && w.rng.Intn(2) == 0 {
		s := w.subs[w.rng.Intn(len(w.subs))]
		if len(s.p) < len(p) && slices.Equal(s.p, p[:len(s.p)]) {
			w.c.Count("by way of a subtree")
			return s.fsys, w.path(p[len(s.p):])
		}
	}
	return w.fsys, w.path(p)
}

func (w *memWorld) keep(fsys *memfs.FS, at string, p []string) {
	if len(p) == 0 || p[0] == "!" || len(w.subs) > 4 {
		return
	}
	sub, err := fsys.Sub(at)
	if !w.c.Check(err == nil, "tree", "Sub(%q): %v", at, err) {
		return
	}
	if m, ok := sub.(*memfs.FS); ok {
		w.subs = append(w.subs, memSub{p, m})
	}
}

type memHandle struct {
	f    fs.File
	dir  bool
	p    []string
	all  []mRes
	rest []mRes
}

var badSpellings = []string{"", "/", "/a", "a/", "..", "../a", "a/..", "./a", "a//b", "a/./b", "a/../b", "\xff"}

func newMemWorld(c *Ctx) *memWorld {
	w := &memWorld{c: c, nm: newNames(c, nameOpts{max: 255}), rng: c.Rng, fsys: memfs.New(), hs: map[string]*memHandle{}}
	w.unit = []int{1, 3, 7, 512, 4096}[c.Rng.Intn(5)]
	if c.Rng.Intn(25) == 0 {
		w.unit = 40000
	}
	if c.Variant == 0 {
		w.unit = 4
	}
	pm := []os.FileMode{0o644, 0o600, 0o755, 0o444, 0o640, 0o777, 0o000, 0o400}
	dm := []os.FileMode{0o755, 0o700, 0o750, 0o555, 0o711, 0o777}
	c.Rng.Shuffle(len(pm), func(i, j int) { pm[i], pm[j] = pm[j], pm[i] })
	c.Rng.Shuffle(len(dm), func(i, j int) { dm[i], dm[j] = dm[j], dm[i] })
	w.perms = map[string]os.FileMode{"p1": pm[0], "p2": pm[1], "p3": pm[2], "q1": dm[0], "q2": dm[1], "q3": dm[2]}
	w.bad = badSpellings[c.Rng.Intn(len(badSpellings))]
	return w
}

func (w *memWorld) path(p []string) string {
	if len(p) > 0 && p[0] == "!" {
		return w.bad
	}
	return w.nm.Path(p)
}

func (w *memWorld) data(tok string) []byte { return content(tok, dlen(tok)*w.unit) }

func errKind(err error) string {
	switch {
	case err == nil:
		return "ok"
	case errors.Is(err, fs.ErrInvalid):
		return "invalid"
	case errors.Is(err, fs.ErrNotExist):
		return "notexist"
	case errors.Is(err, fs.ErrExist):
		return "exist"
	case errors.Is(err, fs.ErrClosed):
		return "closed"
	default:
		return "error"
	}
}

// want "error" accepts every kind of error.
func kindMatches(want string, err error) bool {
	if want == "error" {
		return err != nil
	}
	return errKind(err) == want
}

func (w *memWorld) mode(k, perm string) (fs.FileMode, bool) {
	if perm == "root" {
		return 0, false
	}
	m := w.perms[perm]
	if k == "dir" {
		m |= fs.ModeDir
	}
	return m, true
}

func (w *memWorld) checkInfo(topic, what string, fi fs.FileInfo, r mRes, isRoot bool) {
	c := w.c
	if m, ok := w.mode(r.K, r.Perm); ok {
		c.Check(fi.Mode() == m, topic, "%s: mode %s, want %s", what, modeString(fi.Mode()), modeString(m))
	}
	c.Check(fi.IsDir() == (r.K == "dir"), topic, "%s: IsDir %v, want kind %s", what, fi.IsDir(), r.K)
	if r.K == "file" {
		c.Check(fi.Size() == int64(len(w.data(r.D))), topic, "%s: size %d, want %d", what, fi.Size(), len(w.data(r.D)))
	}
	if !isRoot {
		c.Check(fi.Name() == w.nm.Get(r.Name), topic, "%s: name %q, want %q", what, fi.Name(), w.nm.Get(r.Name))
	}
}

func memfsSuite(c *Ctx, raw json.RawMessage) {
	var tc mCase
	fatal(json.Unmarshal(raw, &tc))
	w := newMemWorld(c)
	for i, call := range tc.H {
		w.step(i, call)
	}
	if c.tap(w.fsys, "mem", nil, fmt.Sprint(len(tc.H), " operations")) {
		return
	}
	w.observe("after the last operation", w.fsys, tc.T)
}

func (w *memWorld) step(i int, call mCall) {
	c := w.c
	fsys, p := w.via(call.A.P)
	what := fmt.Sprintf("op %d %s(%q %s %s %s n=%d)", i, call.Op, p, call.A.D, call.A.Perm, call.A.H, call.A.N)
	topic := "tree"
	if fsys != w.fsys {
		what += " (in a subtree)"
	}
	switch call.Op {
	case "mkdir":
		err := fsys.MkdirAll(p, w.perms[call.A.Perm])
		if err == nil && w.rng.Intn(4) == 0 {
			w.keep(fsys, p, call.A.P)
		}
		c.Check(kindMatches(call.Res.R, err), topic, "%s: %v, want %s", what, err, call.Res.R)
	case "write":
		buf := w.data(call.A.D)
		if w.rng.Intn(2) == 0 {
			buf = append(make([]byte, 0, len(buf)*2+8), buf...) // spare capacity
		}
		if len(buf) == 0 && w.rng.Intn(2) == 0 {
			buf = nil
		}
		err := fsys.WriteFile(p, buf, w.perms[call.A.Perm])
		c.Check(kindMatches(call.Res.R, err), topic, "%s: %v, want %s", what, err, call.Res.R)
		// the caller goes on using its buffer
		for j := range buf {
			buf[j] ^= 0xa5
		}
		_ = append(buf, 'x')
	case "stat":
		fi, err := fs.Stat(fsys, p)
		if c.Check(kindMatches(call.Res.R, err), topic, "%s: %v, want %s", what, err, call.Res.R) && err == nil {
			w.checkInfo(topic, what, fi, call.Res, len(call.A.P) == 0)
		}
	case "readfile":
		b, err := fs.ReadFile(fsys, p)
		if c.Check(kindMatches(call.Res.R, err), topic, "%s: %v, want %s", what, err, call.Res.R) && err == nil {
			c.Check(bytes.Equal(b, w.data(call.Res.D)), topic, "%s: wrong content (%d bytes), want %s", what, len(b), call.Res.D)
		}
	case "readdir":
		l, err := fs.ReadDir(fsys, p)
		if c.Check(kindMatches(call.Res.R, err), topic, "%s: %v, want %s", what, err, call.Res.R) && err == nil {
			w.checkListing(topic, what, l, w.sorted(call.Res.List))
		}
	case "sub":
		sub, err := fs.Sub(fsys, p)
		if c.Check(kindMatches(call.Res.R, err), topic, "%s: %v, want %s", what, err, call.Res.R) && err == nil {
			w.observe(what, sub, call.Res.Sub)
		}
	case "open":
		f, err := fsys.Open(p)
		if c.Check(kindMatches(call.Res.R, err), "handle", "%s: %v, want %s", what, err, call.Res.R) && err == nil {
			w.hs[call.A.H] = &memHandle{f: f, dir: call.Res.K == "dir", p: call.A.P}
		}
	case "read":
		h := w.hs[call.A.H]
		if h == nil {
			return
		}
		if call.Res.R == "closed" {
			n, err := h.f.Read(make([]byte, call.A.N*w.unit))
			c.Check(n == 0 && errors.Is(err, fs.ErrClosed), "handle", "%s: %d, %v, want closed error", what, n, err)
			return
		}
		want := w.data(call.Res.D)[call.Res.Off*w.unit : (call.Res.Off+call.Res.Len)*w.unit]
		buf := make([]byte, call.A.N*w.unit)
		n, err := readFull(h.f, buf)
		c.Check(bytes.Equal(buf[:n], want), "handle", "%s: got %d bytes %s, want %d of %s at %d", what, n, diffAt(buf[:n], want), len(want), call.Res.D, call.Res.Off*w.unit)
		if call.Res.EOF {
			c.Check(err == io.EOF, "handle", "%s: error %v, want EOF", what, err)
		} else {
			c.Check(err == nil || (err == io.EOF && n == 0 && len(buf) == 0), "handle", "%s: error %v", what, err)
		}
	case "fstat":
		h := w.hs[call.A.H]
		if h == nil {
			return
		}
		fi, err := h.f.Stat()
		if c.Check(kindMatches(call.Res.R, err), "handle", "%s: %v, want %s", what, err, call.Res.R) && err == nil {
			w.checkInfo("handle", what, fi, call.Res, false)
		}
	case "close":
		h := w.hs[call.A.H]
		if h == nil {
			return
		}
		err := h.f.Close()
		c.Check(kindMatches(call.Res.R, err), "handle", "%s: %v, want %s", what, err, call.Res.R)
	case "dirread":
		h := w.hs[call.A.H]
		if h == nil {
			return
		}
		d, ok := h.f.(fs.ReadDirFile)
		if !c.Check(ok, "dirread", "%s: directory handle does not implement ReadDirFile", what) {
			return
		}
		if call.Res.First {
			h.rest = w.sorted(call.Res.All)
			h.all = h.rest
		}
		n := call.A.N
		if n == 99 {
			n = []int{0, -1, -7}[w.rng.Intn(3)]
		}
		l, err := d.ReadDir(n)
		if call.Res.EOF {
			c.Check(err == io.EOF && len(l) == 0, "dirread", "%s: %d entries, error %v, want EOF", what, len(l), err)
		} else {
			c.Check(err == nil, "dirread", "%s: error %v", what, err)
		}
		want := h.rest[:call.Res.N]
		h.rest = h.rest[call.Res.N:]
		w.checkListing("dirread", what, l, want)
		for _, e := range l {
			q := append(append([]string(nil), w.concrete(h.p)...), e.Name())
			fi, err := fs.Stat(w.fsys, strings.Join(q, "/"))
			if c.Check(err == nil, "dirread", "%s: stat of listed %q: %v", what, e.Name(), err) {
				w.sameInfo("dirread", what, e, fi)
			}
		}
	default:
		fatal(fmt.Errorf("unknown op %q", call.Op))
	}
}

func (w *memWorld) concrete(p []string) []string {
	var s []string
	for _, t := range p {
		s = append(s, w.nm.Get(t))
	}
	return s
}

func (w *memWorld) sameInfo(topic, what string, e fs.DirEntry, fi fs.FileInfo) {
	c := w.c
	ei, err := e.Info()
	if !c.Check(err == nil, topic, "%s: Info of %q: %v", what, e.Name(), err) {
		return
	}
	c.Check(ei.Name() == fi.Name() && ei.Mode() == fi.Mode() && ei.IsDir() == fi.IsDir() && ei.ModTime().Equal(fi.ModTime()) && (fi.IsDir() || ei.Size() == fi.Size()),
		topic, "%s: Info of %q (%s, %d) differs from Stat (%s, %d)", what, e.Name(), modeString(ei.Mode()), ei.Size(), modeString(fi.Mode()), fi.Size())
}

// sorted brings a listing prescribed by the specification into the byte order of the concrete names.
func (w *memWorld) sorted(l []mRes) []mRes {
	l = append([]mRes(nil), l...)
	sort.Slice(l, func(i, j int) bool { return w.nm.Get(l[i].Name) < w.nm.Get(l[j].Name) })
	return l
}

func (w *memWorld) checkListing(topic, what string, l []fs.DirEntry, want []mRes) {
	c := w.c
	var got, exp []string
	for _, e := range l {
		got = append(got, e.Name())
	}
	for _, r := range want {
		exp = append(exp, w.nm.Get(r.Name))
	}
	if !c.Check(strings.Join(got, "\x00") == strings.Join(exp, "\x00"), topic, "%s: listed %q, want %q", what, got, exp) {
		return
	}
	for i, e := range l {
		r := want[i]
		c.Check(e.IsDir() == (r.K == "dir"), topic, "%s: entry %q IsDir=%v want %s", what, e.Name(), e.IsDir(), r.K)
		m, _ := w.mode(r.K, r.Perm)
		c.Check(e.Type() == m.Type(), topic, "%s: entry %q Type=%v want %s", what, e.Name(), e.Type(), r.K)
		fi, err := e.Info()
		if c.Check(err == nil, topic, "%s: entry %q Info: %v", what, e.Name(), err) {
			w.checkInfo(topic, what+" entry "+e.Name(), fi, r, false)
		}
	}
}

// observe compares a whole filesystem with the tree of the specification.
func (w *memWorld) observe(what string, fsys fs.FS, want []mNode) {
	c := w.c
	exp := map[string]mNode{}
	for _, n := range want {
		exp[w.nm.Path(n.P)] = n
	}
	seen := map[string]bool{}
	err := fs.WalkDir(fsys, ".", func(p string, d fs.DirEntry, err error) error {
		if !c.Check(err == nil, "tree", "%s: walking %q: %v", what, p, err) {
			return fs.SkipDir
		}
		if p == "." {
			return nil
		}
		n, ok := exp[p]
		if !c.Check(ok && !seen[p], "tree", "%s: unexpected or repeated path %q", what, p) {
			return nil
		}
		seen[p] = true
		r := mRes{K: n.K, D: n.D, Perm: n.Perm, Name: n.P[len(n.P)-1]}
		fi, err := d.Info()
		if c.Check(err == nil, "tree", "%s: Info of %q: %v", what, p, err) {
			w.checkInfo("tree", what+" Info "+p, fi, r, false)
		}
		fi, err = fs.Stat(fsys, p)
		if c.Check(err == nil, "tree", "%s: Stat of %q: %v", what, p, err) {
			w.checkInfo("tree", what+" Stat "+p, fi, r, false)
		}
		if n.K == "file" {
			b, err := fs.ReadFile(fsys, p)
			c.Check(err == nil && bytes.Equal(b, w.data(n.D)), "tree", "%s: content of %q: %d bytes, %v, want %s", what, p, len(b), err, n.D)
			_, err = fsys.Open(p + "/" + w.nm.Get("b"))
			c.Check(errKind(err) == "notexist", "tree", "%s: opening below the file %q: %v", what, p, err)
		}
		return nil
	})
	c.Check(err == nil, "tree", "%s: walk: %v", what, err)
	for p, n := range exp {
		if len(n.P) > 0 {
			c.Check(seen[p], "tree", "%s: %q is missing", what, p)
		}
	}
}

// readFull reads until p is full or an error; zero-progress reads without error are limited.
func readFull(r io.Reader, p []byte) (int, error) {
	n, idle := 0, 0
	if len(p) == 0 {
		m, err := r.Read(p)
		return m, err
	}
	for n < len(p) {
		m, err := r.Read(p[n:])
		n += m
		if err != nil {
			if n == len(p) && err == io.EOF {
				return n, nil
			}
			return n, err
		}
		if m == 0 {
			if idle++; idle > 100 {
				return n, io.ErrNoProgress
			}
		}
	}
	return n, nil
}

func diffAt(a, b []byte) string {
	n := min(len(a), len(b))
	for i := 0; i < n; i++ {
		if a[i] != b[i] {
			return fmt.Sprintf("(differ at %d)", i)
		}
	}
	if len(a) != len(b) {
		return fmt.Sprintf("(lengths %d/%d)", len(a), len(b))
	}
	return "(equal)"
}
