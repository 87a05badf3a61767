package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"io/fs"
	"path"

	"github.com/dpeckett/archivefs/arfs"
	"github.com/dpeckett/archivefs/erofs"
	"github.com/dpeckett/archivefs/tarfs"
)

// Creations as conversations with an environment whose calls may fail at any point.
// Every conversation is recorded for validation against Creation.tla.

func init() {
	suites["creation"] = func(c *Ctx, raw json.RawMessage) { creationSuite(c, raw, "honest") }
	suites["tidy"] = func(c *Ctx, raw json.RawMessage) { creationSuite(c, raw, "tidy") }
}

type cvEvent struct {
	Op  string `json:"op"`
	P   string `json:"p"`
	H   int    `json:"h"`
	N   int    `json:"n"`
	EOF bool   `json:"eof"`
	OK  bool   `json:"ok"`
}

type cvNode struct {
	P string `json:"p"`
	K string `json:"k"`
	N int    `json:"n"`
	D int    `json:"d"`
}

type cvRec struct {
	Want  string    `json:"want"`
	Fmt   string    `json:"fmt"`
	Nodes []cvNode  `json:"nodes"`
	Ev    []cvEvent `json:"ev"`
}

// convo is one conversation.
type convo struct {
	src     *srcFS
	min     bool // the source has Open alone
	at      int  // the call with this number fails (0: none)
	persist bool // and all later ones
	err     error
	part    int
	calls   int
	hits    int
	where   string
	ev      []cvEvent
	handles int
	open    map[int]bool
}

func (v *convo) fails(op, p string) bool {
	v.calls++
	if v.at > 0 && (v.calls == v.at || v.persist && v.calls > v.at) {
		v.hits++
		if v.where == "" {
			v.where = fmt.Sprintf("%s %q (call %d: %v)", op, p, v.calls, v.err)
		}
		return true
	}
	return false
}

func (v *convo) log(e cvEvent) {
	if n := len(v.ev); n > 0 {
		l := &v.ev[n-1]
		if e.Op == "write" && l.Op == "write" && l.OK && e.OK {
			return
		}
		if e.Op == "read" && l.Op == "read" && l.H == e.H && l.OK && !l.EOF {
			e.N += l.N
			*l = e
			return
		}
	}
	v.ev = append(v.ev, e)
}

// ask is a call that has no result of its own to record.
func (v *convo) ask(op, p string) error {
	bad := v.fails(op, p)
	v.log(cvEvent{Op: map[string]string{"list": "list", "link": "link"}[op] + map[bool]string{true: "examine"}[op != "list" && op != "link"], P: p, OK: !bad})
	if bad {
		return v.err
	}
	return nil
}

type cvMin struct{ *convo }  // Open alone
type cvFull struct{ *convo } // and the rest

func (v *convo) openFile(p string) (fs.File, error) {
	q, ok := v.src.follow(p)
	if !ok {
		return nil, &fs.PathError{Op: "open", Path: p, Err: fs.ErrNotExist}
	}
	bad := v.fails("open", p)
	if !bad {
		v.handles++
		v.open[v.handles] = true
	}
	v.log(cvEvent{Op: "open", P: q, H: v.handles, OK: !bad})
	if bad {
		return nil, v.err
	}
	return &cvFile{v: v, p: q, h: v.handles, n: v.src.t[q], data: v.src.data(q)}, nil
}

func (v *convo) entries(p string) []fs.DirEntry {
	l, _ := v.src.ReadDir(p)
	for i, e := range l {
		l[i] = cvEntry{e.(srcEntry), v}
	}
	return l
}

func (v *convo) readLink(p string) (string, error) {
	n, ok := v.src.t[p]
	if !ok || n.Kind != "link" {
		return "", fs.ErrInvalid
	}
	if err := v.ask("link", p); err != nil {
		return "", err
	}
	return n.Target, nil
}

func (v *convo) statLink(p string) (fs.FileInfo, error) {
	n, ok := v.src.t[p]
	if !ok {
		return nil, fs.ErrNotExist
	}
	if err := v.ask("lstat", p); err != nil {
		return nil, err
	}
	return srcInfo{n, path.Base(p), v.src.kind}, nil
}

func (m cvMin) Open(p string) (fs.File, error)          { return m.openFile(p) }
func (m cvMin) ReadLink(p string) (string, error)       { return m.readLink(p) }
func (m cvMin) StatLink(p string) (fs.FileInfo, error)  { return m.statLink(p) }
func (f cvFull) Open(p string) (fs.File, error)         { return f.openFile(p) }
func (f cvFull) ReadLink(p string) (string, error)      { return f.readLink(p) }
func (f cvFull) StatLink(p string) (fs.FileInfo, error) { return f.statLink(p) }
func (f cvFull) Stat(p string) (fs.FileInfo, error) {
	q, ok := f.src.follow(p)
	if !ok {
		return nil, &fs.PathError{Op: "stat", Path: p, Err: fs.ErrNotExist}
	}
	if err := f.ask("stat", q); err != nil {
		return nil, err
	}
	return srcInfo{f.src.t[q], path.Base(p), f.src.kind}, nil
}
func (f cvFull) ReadDir(p string) ([]fs.DirEntry, error) {
	if n, ok := f.src.t[p]; !ok || n.Kind != "dir" {
		return nil, &fs.PathError{Op: "readdir", Path: p, Err: fs.ErrNotExist}
	}
	l := f.entries(p)
	if err := f.ask("list", p); err != nil {
		return l[:min(f.part%4, len(l))], err
	}
	return l, nil
}

type cvEntry struct {
	srcEntry
	v *convo
}

func (e cvEntry) Info() (fs.FileInfo, error) {
	if err := e.v.ask("info", e.p); err != nil {
		return nil, err
	}
	return e.srcInfo, nil
}

type cvFile struct {
	v    *convo
	p    string
	h    int
	n    *Node
	data []byte
	off  int
	list []fs.DirEntry
	got  bool
}

func (f *cvFile) Stat() (fs.FileInfo, error) {
	if err := f.v.ask("fstat", f.p); err != nil {
		return nil, err
	}
	return srcInfo{f.n, path.Base(f.p), f.v.src.kind}, nil
}

func (f *cvFile) Read(p []byte) (int, error) {
	if f.n.Kind != "file" {
		return 0, fs.ErrInvalid
	}
	s := f.v.src
	if s.chunk > 0 && len(p) > s.chunk {
		p = p[:s.chunk]
	}
	if f.v.fails("read", f.p) {
		n := copy(p[:min(f.v.part, len(p))], f.data[f.off:])
		f.off += n
		f.v.log(cvEvent{Op: "read", H: f.h, N: n})
		return n, f.v.err
	}
	n := copy(p, f.data[f.off:])
	f.off += n
	if len(p) > 0 && n == 0 || s.early && f.off == len(f.data) && len(p) > 0 {
		f.v.log(cvEvent{Op: "read", H: f.h, N: n, EOF: true, OK: true})
		return n, io.EOF
	}
	f.v.log(cvEvent{Op: "read", H: f.h, N: n, OK: true})
	return n, nil
}

func (f *cvFile) ReadDir(n int) ([]fs.DirEntry, error) {
	if f.n.Kind != "dir" {
		return nil, fs.ErrInvalid
	}
	if !f.got {
		f.list, f.got = f.v.entries(f.p), true
	}
	if f.v.fails("list", f.p) {
		f.v.log(cvEvent{Op: "list", P: f.p})
		return f.list[:min(f.v.part%4, len(f.list))], f.v.err
	}
	if n <= 0 || n >= len(f.list) && n > 0 && len(f.list) == 0 {
		// only now the listing is known to be complete
		f.v.log(cvEvent{Op: "list", P: f.p, OK: true})
	}
	if n > 0 && len(f.list) == 0 {
		return nil, io.EOF
	}
	if n <= 0 || n > len(f.list) {
		n = len(f.list)
	}
	l := f.list[:n]
	f.list = f.list[n:]
	return l, nil
}

func (f *cvFile) Close() error {
	if !f.v.open[f.h] {
		return fs.ErrClosed
	}
	delete(f.v.open, f.h)
	f.v.log(cvEvent{Op: "close", H: f.h, OK: true})
	return nil
}

// cvDst is the destination, as a stream or at offsets.
type cvDst struct {
	v *convo
	b []byte
}

func (d *cvDst) Write(p []byte) (int, error) { return d.WriteAt(p, int64(len(d.b))) }

func (d *cvDst) WriteAt(p []byte, off int64) (int, error) {
	bad := d.v.fails("write", fmt.Sprint(len(p), " bytes at ", off))
	d.v.log(cvEvent{Op: "write", OK: !bad})
	if bad {
		p = p[:min(d.v.part, max(0, len(p)-1))]
	}
	if need := off + int64(len(p)) - int64(len(d.b)); need > 0 {
		d.b = append(d.b, make([]byte, need)...)
	}
	copy(d.b[off:], p)
	if bad {
		return len(p), d.v.err
	}
	return len(p), nil
}

var convoErrors = []error{errInjected, io.ErrUnexpectedEOF, fs.ErrNotExist, fs.ErrPermission, fs.ErrClosed, io.ErrShortWrite, io.ErrNoProgress, fmt.Errorf("wrapped: %w", io.EOF), io.EOF}

// converse runs one creation.
func (v *convo) converse(format string) ([]byte, error) {
	var src fs.FS = cvFull{v}
	if v.min {
		src = cvMin{v}
	}
	d := &cvDst{v: v}
	var err error
	switch format {
	case "tar":
		err = tarfs.Create(struct{ io.Writer }{d}, src)
	case "ar":
		err = arfs.Create(struct{ io.Writer }{d}, src)
	default:
		err = erofs.Create(struct{ io.WriterAt }{d}, src)
	}
	v.log(cvEvent{Op: map[bool]string{true: "success", false: "error"}[err == nil]})
	return d.b, err
}

func creationSuite(c *Ctx, raw json.RawMessage, want string) {
	var cc cCase
	fatal(json.Unmarshal(raw, &cc))
	if len(cc.Steps) != 1 || cc.Steps[0].R != "ok" || len(cc.Nodes) < 2 {
		return
	}
	format := cc.Steps[0].F
	o := nameOpts{max: 200, raw: true}
	if format == "ar" {
		o = nameOpts{max: 16, noTrail: true, raw: true}
	}
	t := classTree(c, newNames(c, o), cc.Nodes)
	kind := cc.Src
	if kind == "mem" || kind == "disk" {
		kind = "plain"
	}
	for _, n := range t {
		if format == "ar" { // whatever fits for sure
			n.Uid, n.Gid, n.MTime = 1, 2, classTimes["frac"](c.Rng)
		}
	}
	newSrc := func() *srcFS { return &srcFS{t: t, kind: kind, lie: map[string]int{}} }
	chunk, early, minimal := []int{0, 0, 1000, 4096}[c.Rng.Intn(4)], c.Rng.Intn(2) == 0, c.Rng.Intn(2) == 0
	conv := func() *convo {
		s := newSrc()
		s.chunk, s.early = chunk, early
		return &convo{src: s, min: minimal, open: map[int]bool{}}
	}
	what := fmt.Sprintf("%s of {%s} (%s, chunk %d)", format, treeString(t), map[bool]string{true: "Open alone", false: "all interfaces"}[minimal], chunk)
	kept := 0
	rec := func(v *convo, always bool) {
		// few of the conversations are recorded
		if !always && (kept >= 3 || c.Rng.Intn(8) > 0) || len(v.ev) > 400 {
			return
		}
		if !always {
			kept++
		}
		r := cvRec{Want: want, Fmt: format, Ev: v.ev}
		for _, p := range t.paths() {
			r.Nodes = append(r.Nodes, cvNode{P: p, K: t[p].Kind, N: len(t[p].Content), D: len(v.src.data(p))})
		}
		c.Record(r)
	}
	judge := func(v *convo, w string, err error) {
		if want == "tidy" {
			c.Check(len(v.open) == 0, "tidy", "%s: %s: %d files stay open (%v)", what, w, len(v.open), err)
		}
	}

	v := conv()
	base, err := v.converse(format)
	if !c.Check(err == nil, "honest", "%s: fails though nothing is wrong: %v", what, err) {
		return
	}
	judge(v, "without faults", err)
	rec(v, c.Variant == 0)
	total := v.calls
	points := []int{}
	for k := 1; k <= total; k++ {
		if total <= 60 || k <= 10 || k > total-10 || c.Rng.Intn(total) < 25 {
			points = append(points, k)
		}
	}
	for _, k := range points {
		v := conv()
		v.at, v.persist, v.part = k, c.Rng.Intn(3) == 0, []int{0, 0, 1, 5, 100, 1 << 20}[c.Rng.Intn(6)]
		v.err = convoErrors[c.Rng.Intn(len(convoErrors))]
		if v.err == io.EOF {
			v.err = errInjected
			if c.Rng.Intn(2) == 0 {
				v.err = fs.ErrInvalid
			}
		}
		b, err := v.converse(format)
		w := "failing " + v.where
		if v.hits > 0 {
			c.Check(err != nil || want == "tidy", "honest", "%s: %s: creation succeeds", what, w)
			c.Count("fault " + firstWord(v.where))
		} else {
			c.Check(err == nil && bytes.Equal(b, base) || want == "tidy", "honest", "%s: a creation without a failure differs: %v", what, err)
		}
		judge(v, w, err)
		rec(v, false)
	}
	// sizes that are not true
	files := []string{}
	for _, p := range t.paths() {
		if t[p].Kind == "file" {
			files = append(files, p)
		}
	}
	for _, p := range files {
		n := len(t[p].Content)
		for _, d := range []int{1, -1, -n, 512, 4096, -n / 2, 3 - n%2} {
			if d == 0 || n+d < 0 {
				continue
			}
			v := conv()
			v.src.lie[p] = d
			_, err := v.converse(format)
			w := fmt.Sprintf("%q of %d bytes delivers %+d", p, n, d)
			c.Check(err != nil || want == "tidy", "honest", "%s: %s: creation succeeds", what, w)
			c.Count("size")
			judge(v, w, err)
			rec(v, false)
		}
	}
}

func firstWord(s string) string {
	for i := range s {
		if s[i] == ' ' {
			return s[:i]
		}
	}
	return s
}
