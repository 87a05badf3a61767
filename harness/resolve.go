package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io/fs"
	"path"
	"strings"
	"time"

	"github.com/dpeckett/archivefs"
	"github.com/dpeckett/archivefs/erofs"
	"github.com/dpeckett/archivefs/tarfs"
)

func init() {
	suites["resolve-tar"] = func(c *Ctx, raw json.RawMessage) { resolveSuite(c, raw, true) }
	suites["resolve-erofs"] = func(c *Ctx, raw json.RawMessage) { resolveSuite(c, raw, false) }
}

type rNode struct {
	P   []string `json:"p"`
	K   string   `json:"k"`
	Abs bool     `json:"abs"`
	Cs  []string `json:"cs"`
}

type rAnswer struct {
	R string   `json:"r"`
	P []string `json:"p"`
}

type rQuery struct {
	P     []string `json:"p"`
	Stat  rAnswer  `json:"stat"`
	Lstat rAnswer  `json:"lstat"`
}

type rCase struct {
	Nodes []rNode  `json:"nodes"`
	Q     []rQuery `json:"q"`
}

var nodeModes = []fs.FileMode{0o644, 0o755, 0o600, 0o444, 0, 0o777, 0o755 | fs.ModeSetuid, 0o755 | fs.ModeSetgid, 0o777 | fs.ModeSticky, 0o640 | fs.ModeSetgid | fs.ModeSticky}

// rTree gives the nodes concrete names and metadata.
func rTree(c *Ctx, nm *Names, nodes []rNode) Tree {
	t := Tree{}
	for k, x := range nodes {
		n := &Node{Kind: x.K, Mode: nodeModes[c.Rng.Intn(len(nodeModes))], MTime: time.Unix(int64(1000000+c.Rng.Intn(1e9)), 0),
			Uid: c.Rng.Intn(70000), Gid: c.Rng.Intn(70000)}
		switch x.K {
		case "file":
			n.Content = content(fmt.Sprint("r", k), []int{0, 1, 50, 600, 5000}[c.Rng.Intn(5)]+k)
		case "link":
			var l []string
			for _, s := range x.Cs {
				if s != "" && s != "." && s != ".." {
					s = nm.Get(s)
				}
				l = append(l, s)
			}
			n.Target = strings.Join(l, "/")
			if x.Abs {
				n.Target = "/" + n.Target
			}
			n.Mode = 0o777
		}
		t[nm.Path(x.P)] = n
	}
	return t
}

// tarOf writes the tree as entries in random order; an implied directory has no entry.
func tarOf(c *Ctx, t Tree, implied bool) ([]byte, Tree) {
	want := Tree{}
	var es []tarEntry
	for _, p := range t.paths() {
		n := t[p]
		want[p] = n
		if p == "." {
			continue
		}
		if implied && n.Kind == "dir" && len(t.children(p)) > 0 && c.Rng.Intn(3) == 0 {
			want[p] = &Node{Kind: "dir", Mode: 0o755, NoTime: true, NoOwner: true}
			continue
		}
		te := tarEntry{Dialect: []string{"ustar", "gnu", "pax"}[c.Rng.Intn(3)], Name: p, Mode: int64(eMode(n) & 0o7777), MTime: n.MTime, Uid: n.Uid, Gid: n.Gid, Content: n.Content, Link: n.Target}
		te.Type = map[string]byte{"file": '0', "dir": '5', "link": '2'}[n.Kind]
		if n.Kind == "dir" {
			te.Name += "/"
		}
		te.fixDialect(c.Rng)
		es = append(es, te)
	}
	c.Rng.Shuffle(len(es), func(i, j int) { es[i], es[j] = es[j], es[i] })
	var b []byte
	for _, e := range es {
		b = append(b, e.encode(c.Rng).bytes()...)
	}
	return append(b, tarEnd(c.Rng, len(b))...), want
}

func erofsOf(c *Ctx, t Tree) ([]byte, *eImg) {
	bits := []int{9, 9, 10, 11, 12, 12, 12}[c.Rng.Intn(7)]
	for _, n := range t {
		for len(n.Target) > 1<<bits || len(n.Target)+200 > 1<<bits {
			bits++
		}
	}
	im := newEImg(c.Rng, t, bits)
	im.place()
	b := im.encode()
	im.expected()
	return b, im
}

func resolveSuite(c *Ctx, raw json.RawMessage, isTar bool) {
	var rc rCase
	fatal(json.Unmarshal(raw, &rc))
	nm := newNames(c, nameOpts{max: 255, raw: true})
	t := rTree(c, nm, rc.Nodes)
	var fsys linkStatFS
	var err error
	var b []byte
	if isTar {
		b, t = tarOf(c, t, true)
		fsys, err = tarfs.Open(newReaderAt(c, b))
	} else {
		b, _ = erofsOf(c, t)
		fsys, err = erofs.Open(newReaderAt(c, b))
	}
	if !c.Check(err == nil, "follow", "does not open: %v", err) {
		return
	}
	var desc []string
	for _, p := range t.paths() {
		if t[p].Kind == "link" {
			desc = append(desc, fmt.Sprintf("%q->%q", p, t[p].Target))
		}
	}
	d := strings.Join(desc, " ")
	if len(d) > 250 {
		d = d[:250]
	}
	if c.tap(fsys, map[bool]string{true: "tar", false: "erofs"}[isTar], b, d) {
		return
	}
	// a fixed order of answers would hide what earlier calls leave behind
	c.Rng.Shuffle(len(rc.Q), func(i, j int) { rc.Q[i], rc.Q[j] = rc.Q[j], rc.Q[i] })
	for _, q := range rc.Q {
		p := nm.Path(q.P)
		if c.Rng.Intn(10) == 0 && p != "." {
			p = "/" + p
		}
		what := fmt.Sprintf("%q in {%s}", p, d)
		// Stat, Open, ReadDir
		fi, e1 := fsys.Stat(p)
		f, e2 := fsys.Open(p)
		l, e3 := fs.ReadDir(fsys, p)
		c.Count("stat " + q.Stat.R)
		rejected(c, "follow", what+": stat", q.Stat.R, e1)
		rejected(c, "follow", what+": open", q.Stat.R, e2)
		if q.Stat.R != "ok" {
			rejected(c, "follow", what+": listing", q.Stat.R, e3)
		} else {
			own := nm.Path(q.Stat.P)
			n := t[own]
			o := Obs{Topic: "follow", MetaTopic: "follow"}
			if e1 == nil && (own != "." || !isTar) {
				o.meta(c, what+": stat", fi, n)
			} else if e1 == nil {
				c.Check(fi.IsDir(), "follow", "%s: the root is not a directory", what)
			}
			if e2 == nil {
				fi, err := f.Stat()
				if c.Check(err == nil, "follow", "%s: stat of the open file: %v", what, err) && (own != "." || !isTar) {
					o.meta(c, what+": open", fi, n)
				}
				if n.Kind == "file" {
					b, err := readAllLimited(f, len(n.Content)+64)
					c.Check(err == nil && bytes.Equal(b, n.Content), "follow", "%s: content: %d bytes, %v, want those of %q", what, len(b), err, own)
				}
				f.Close()
			}
			if n.Kind == "file" {
				c.Check(e3 != nil, "follow", "%s: a file can be listed", what)
			} else if c.Check(e3 == nil, "follow", "%s: listing: %v", what, e3) {
				var got []string
				for _, e := range l {
					got = append(got, e.Name())
					if cn := t[path.Join(own, e.Name())]; cn != nil {
						fi, err := e.Info()
						if c.Check(err == nil, "follow", "%s: Info of %q: %v", what, e.Name(), err) {
							o.meta(c, what+": entry "+e.Name(), fi, cn)
						}
					}
				}
				want := t.children(own)
				c.Check(strings.Join(got, "\x00") == strings.Join(want, "\x00"), "follow", "%s: lists %q, want %q (%s)", what, short(got), short(want), own)
			}
		}
		// ReadLink, StatLink
		li, e4 := fsys.StatLink(p)
		s, e5 := fsys.ReadLink(p)
		c.Count("lstat " + q.Lstat.R)
		rejected(c, "links", what+": StatLink", q.Lstat.R, e4)
		if q.Lstat.R != "ok" {
			rejected(c, "links", what+": ReadLink", q.Lstat.R, e5)
			continue
		}
		own := nm.Path(q.Lstat.P)
		n := t[own]
		if e4 == nil {
			if own != "." {
				Obs{Topic: "links", MetaTopic: "links"}.meta(c, what+": StatLink", li, n)
				c.Check(li.Name() == path.Base(own), "links", "%s: StatLink names it %q", what, li.Name())
			} else {
				c.Check(li.IsDir(), "links", "%s: StatLink: the root is not a directory", what)
			}
		}
		if n.Kind == "link" {
			c.Check(e5 == nil && s == n.Target, "links", "%s: ReadLink %q, %v, want %q", what, s, e5, n.Target)
		} else {
			c.Check(e5 != nil, "links", "%s: ReadLink of a %s gives %q", what, n.Kind, s)
		}
	}
}

// rejected compares an error with the prescribed outcome.
func rejected(c *Ctx, topic, what, r string, err error) {
	switch r {
	case "ok":
		c.Check(err == nil, topic, "%s: %v", what, err)
	case "notexist":
		c.Check(errors.Is(err, fs.ErrNotExist), topic, "%s: error %v, want not-exist", what, err)
	case "error":
		c.Check(err != nil, topic, "%s: succeeds, want an error", what)
	}
}

type linkStatFS interface {
	archivefs.ReadLinkFS
	Stat(string) (fs.FileInfo, error)
}
