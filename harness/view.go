package main

import (
	"crypto/sha256"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"path"
	"sort"
	"strings"

	"github.com/dpeckett/archivefs"
	"github.com/dpeckett/archivefs/erofs"
)

// The answers of one filesystem to all its operations, recorded for validation
// against View.tla. The filesystems are those other suites open.

func init() {
	for _, s := range []string{"tar", "ar", "etree", "eimg", "edir", "resolve-tar", "resolve-erofs", "convert", "memfs"} {
		suites["view-"+s] = func(c *Ctx, raw json.RawMessage) {
			c.Tap = func(fsys fs.FS, format string, b []byte, what string) {
				if r := viewOf(c, fsys, format); r != nil {
					c.Record(r)
				}
			}
			suites[s](c, raw)
			c.Bad = nil
		}
	}
}

type vFact struct {
	P   []string `json:"p"`
	R   string   `json:"r"`
	K   string   `json:"k"`
	V   int      `json:"v"`
	Nm  string   `json:"nm"`
	Abs bool     `json:"abs"`
	Cs  []string `json:"cs"`
	C   int      `json:"c"`
}

type vEntry struct {
	N    string `json:"n"`
	Rank int    `json:"rank"`
	Fact int    `json:"fact"`
	K    string `json:"k"`
	Dir  bool   `json:"dir"`
	V    int    `json:"v"`
	Nm   string `json:"nm"`
}

type vList struct {
	P  []string `json:"p"`
	R  string   `json:"r"`
	Es []vEntry `json:"es"`
}

type vInfo struct {
	R  string `json:"r"`
	V  int    `json:"v"`
	Nm string `json:"nm"`
	C  int    `json:"c"`
}

type vNames struct {
	R  string   `json:"r"`
	Ns []string `json:"ns"`
}

type vContent struct {
	R string `json:"r"`
	C int    `json:"c"`
}

type vAsk struct {
	Q     []string `json:"q"`
	Stat  vInfo    `json:"stat"`
	Lstat vInfo    `json:"lstat"`
	Open  vInfo    `json:"open"`
	Read  vContent `json:"read"`
	List  vNames   `json:"list"`
	Link  vContent `json:"link"`
}

type vRec struct {
	Fmt    string     `json:"fmt"`
	Facts  []vFact    `json:"facts"`
	Lists  []vList    `json:"lists"`
	Walk   [][]string `json:"walk"`
	WalkOK bool       `json:"walkok"`
	Asks   []*vAsk    `json:"asks"`
}

// viewer gives names tokens that sort like the names.
type viewer struct {
	fsys   fs.FS
	format string
	names  map[string]bool
	toks   map[string]int
	ids    map[string]int
}

// id numbers attributes and contents.
func (v *viewer) id(s string) int {
	n, ok := v.ids[s]
	if !ok {
		n = len(v.ids) + 1
		v.ids[s] = n
	}
	return n
}

func (v *viewer) info(fi fs.FileInfo) int {
	return v.id(fmt.Sprintf("%s %d %s", infoKind(fi), fi.Size(), infoMeta(fi)))
}

func (v *viewer) see(p string) {
	for _, s := range strings.Split(p, "/") {
		v.names[s] = true
	}
}

func (v *viewer) tok(s string) string {
	switch s {
	case "", ".", "..":
		return s
	}
	if n, ok := v.toks[s]; ok {
		return fmt.Sprint("n", n)
	}
	return fmt.Sprintf("?%q", s)
}

func (v *viewer) path(p string) []string {
	l := []string{}
	if p == "." {
		return l
	}
	for _, s := range strings.Split(p, "/") {
		l = append(l, v.tok(s))
	}
	return l
}

func infoMeta(fi fs.FileInfo) string {
	u, g, ok := ownerOf(fi)
	n := ""
	if ino, ok := fi.Sys().(*erofs.Inode); ok {
		n = fmt.Sprintf(" %d %d", ino.Nid(), ino.Nlink())
	}
	return fmt.Sprintf("%o %d.%09d %d:%d:%v%s", uint32(fi.Mode()), fi.ModTime().Unix(), fi.ModTime().Nanosecond(), u, g, ok, n)
}

// infoKind is the kind on which Mode and IsDir agree.
func infoKind(fi fs.FileInfo) string {
	k := kindOf(fi.Mode())
	if fi.IsDir() != (k == "dir") {
		return k + "?"
	}
	return k
}

func outcome(err error) string {
	switch {
	case err == nil:
		return "ok"
	case errors.Is(err, fs.ErrNotExist):
		return "notexist"
	}
	return "error"
}

// drain numbers the content of a file together with whether it is as long as stated.
func (v *viewer) drain(f fs.File, size int64) (int, error) {
	h := sha256.New()
	n, err := io.Copy(h, io.LimitReader(f, 1<<26))
	if n != size {
		return v.id(fmt.Sprintf("content %d of %d", n, size)), err
	}
	return v.id(fmt.Sprintf("content %x", h.Sum(nil))), err
}

const viewNodes = 70

// viewOf asks everything; nil if the filesystem is too big to be recorded or has
// links whose meaning is not specified.
func viewOf(c *Ctx, fsys fs.FS, format string) *vRec {
	v := &viewer{fsys: fsys, format: format, names: map[string]bool{}, toks: map[string]int{}, ids: map[string]int{}}
	lfs, _ := fsys.(archivefs.ReadLinkFS)
	r := &vRec{Fmt: format, Facts: []vFact{}, Lists: []vList{}, Walk: [][]string{}, Asks: []*vAsk{}}
	// what is listed
	type listing struct {
		p string
		l []fs.DirEntry
		e error
	}
	var ls []listing
	own := []string{"."}
	for todo := []string{"."}; len(todo) > 0; todo = todo[1:] {
		l, err := fs.ReadDir(fsys, todo[0])
		ls = append(ls, listing{todo[0], l, err})
		for _, e := range l {
			p := path.Join(todo[0], e.Name())
			v.see(p)
			own = append(own, p)
			if e.IsDir() || e.Type().IsDir() {
				todo = append(todo, p)
			}
		}
		if len(own) > viewNodes {
			return nil
		}
	}
	// questions: what is there, what is not, through links and below files
	qs := append([]string(nil), own...)
	target := map[string]string{}
	kids := map[string][]string{}
	for _, l := range ls {
		for _, e := range l.l {
			kids[l.p] = append(kids[l.p], e.Name())
		}
	}
	for _, p := range own {
		b := path.Base(p)
		d := path.Dir(p)
		qs = append(qs, path.Join(p, "zz"), path.Join(p, b))
		if p != "." && len(own) < 30 {
			for _, x := range []string{b + "x", "x" + b, b[:len(b)-1], strings.ToUpper(b), b[1:], b + ".", " " + b, b + " "} {
				if x != "" && x != "." && x != ".." && !strings.HasSuffix(x, "/") {
					qs = append(qs, path.Join(d, x))
				}
			}
		}
		if lfs == nil {
			continue
		}
		if t, err := lfs.ReadLink(p); err == nil {
			if t == "" {
				return nil
			}
			target[p] = t
			v.see(t)
			l, _ := fs.ReadDir(fsys, p)
			for k, e := range l {
				if k < 8 {
					q := path.Join(p, e.Name())
					qs = append(qs, q)
					m, _ := fs.ReadDir(fsys, q)
					for j, e := range m {
						if j < 4 {
							qs = append(qs, path.Join(q, e.Name()))
						}
					}
				}
			}
		}
	}
	c.Rng.Shuffle(len(qs), func(i, j int) { qs[i], qs[j] = qs[j], qs[i] })
	seen := map[string]bool{}
	var uq []string
	for _, q := range qs {
		if fs.ValidPath(q) && !seen[q] && (len(uq) < 60 || len(own) < 12 && len(uq) < 100) {
			seen[q] = true
			uq = append(uq, q)
			v.see(q)
		}
	}
	for k := range v.names {
		if k == "" || k == "." || k == ".." {
			delete(v.names, k)
		}
	}
	var l []string
	for k := range v.names {
		l = append(l, k)
	}
	sort.Strings(l)
	for k, s := range l {
		v.toks[s] = k
	}
	// facts about each path itself
	fact := map[string]int{}
	for _, p := range own {
		if _, ok := fact[p]; ok {
			continue
		}
		f := vFact{P: v.path(p), Cs: []string{}}
		var fi fs.FileInfo
		var err error
		if lfs != nil {
			fi, err = lfs.StatLink(p)
		} else {
			fi, err = fs.Stat(fsys, p)
		}
		f.R = outcome(err)
		if err == nil {
			f.K, f.V, f.Nm = infoKind(fi), v.info(fi), v.tok(fi.Name())
		}
		if f.K == "link" {
			t, ok := target[p]
			if !ok {
				f.R = "error"
			}
			f.C = v.id("target " + t)
			f.Abs = strings.HasPrefix(t, "/")
			for _, s := range strings.Split(t, "/") {
				f.Cs = append(f.Cs, v.tok(s))
			}
		}
		if f.K == "file" {
			b, err := fs.ReadFile(fsys, p)
			if err != nil || int64(len(b)) != fi.Size() {
				f.R = "error"
			}
			f.C = v.id(fmt.Sprintf("content %x", sha256.Sum256(b)))
		}
		r.Facts = append(r.Facts, f)
		fact[p] = len(r.Facts)
	}
	for _, x := range ls {
		l := vList{P: v.path(x.p), R: outcome(x.e), Es: []vEntry{}}
		for _, e := range x.l {
			y := vEntry{N: v.tok(e.Name()), Rank: v.toks[e.Name()], Fact: fact[path.Join(x.p, e.Name())], K: kindOf(e.Type()), Dir: e.IsDir()}
			if fi, err := e.Info(); err == nil {
				y.V, y.Nm = v.info(fi), v.tok(fi.Name())
			}
			l.Es = append(l.Es, y)
		}
		r.Lists = append(r.Lists, l)
	}
	err := fs.WalkDir(fsys, ".", func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		r.Walk = append(r.Walk, v.path(p))
		if len(r.Walk) > 2*viewNodes {
			return errors.New("endless")
		}
		return nil
	})
	r.WalkOK = err == nil
	// the rest, in random order
	for _, q := range uq {
		ops := []string{"stat", "open", "list", "read"}
		if lfs != nil {
			ops = append(ops, "lstat", "readlink")
		}
		c.Rng.Shuffle(len(ops), func(i, j int) { ops[i], ops[j] = ops[j], ops[i] })
		a := &vAsk{Q: v.path(q), List: vNames{R: "-", Ns: []string{}}}
		a.Stat.R, a.Lstat.R, a.Open.R, a.Read.R, a.Link.R = "-", "-", "-", "-", "-"
		for _, op := range ops {
			if format == "ar" && q == "." && (op == "open" || op == "read") {
				continue // the root of an ar archive can be listed only
			}
			v.ask(a, op, q, lfs)
		}
		r.Asks = append(r.Asks, a)
	}
	return r
}

func (v *viewer) ask(a *vAsk, op, q string, lfs archivefs.ReadLinkFS) {
	var fi fs.FileInfo
	var err error
	info := func(x *vInfo) {
		if err == nil {
			x.V, x.Nm = v.info(fi), v.tok(fi.Name())
		}
		x.R = outcome(err)
	}
	switch op {
	case "stat":
		fi, err = fs.Stat(v.fsys, q)
		info(&a.Stat)
	case "lstat":
		fi, err = lfs.StatLink(q)
		info(&a.Lstat)
	case "open":
		var f fs.File
		f, err = v.fsys.Open(q)
		if err == nil {
			defer f.Close()
			if fi, err = f.Stat(); err == nil && infoKind(fi) == "file" {
				a.Open.C, err = v.drain(f, fi.Size())
			}
		}
		info(&a.Open)
	case "read":
		var b []byte
		if b, err = fs.ReadFile(v.fsys, q); err == nil {
			a.Read.C = v.id(fmt.Sprintf("content %x", sha256.Sum256(b)))
		}
		a.Read.R = outcome(err)
	case "list":
		var l []fs.DirEntry
		l, err = fs.ReadDir(v.fsys, q)
		for _, e := range l {
			a.List.Ns = append(a.List.Ns, v.tok(e.Name()))
		}
		a.List.R = outcome(err)
	case "readlink":
		var s string
		if s, err = lfs.ReadLink(q); err == nil {
			a.Link.C = v.id("target " + s)
		}
		a.Link.R = outcome(err)
	}
}
