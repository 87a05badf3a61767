package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"path"
	"strings"
	"time"
)

// Archives of many entries, written with this package's own encoders.

func init() {
	for _, f := range []string{"tar", "ar", "erofs"} {
		suites["read-"+f] = func(c *Ctx, raw json.RawMessage) { readSuite(c, raw, f) }
	}
}

// largeTree is the tree of a case, restricted to what the format holds.
func largeTree(c *Ctx, cc cCase, format string) Tree {
	o := nameOpts{max: 255, raw: true}
	if format == "ar" {
		o = nameOpts{max: 15, noTrail: true, raw: true}
	}
	t := classTree(c, newNames(c, o), cc.Nodes)
	for p, n := range t {
		if n.MTime.IsZero() || n.MTime.Unix() < 0 || n.MTime.Unix() > 1<<33 {
			n.MTime = time.Unix(1e9+int64(len(p)), 0)
		}
		n.MTime = time.Unix(n.MTime.Unix(), 0)
		if p == "." && format != "erofs" {
			n.NoMode, n.NoTime, n.NoOwner = true, true, true
		}
		if n.Kind == "file" && c.Rng.Intn(40) == 0 {
			n.Content = content(p, []int{1, 511, 512, 513, 4096, 5000}[c.Rng.Intn(6)])
		}
		if n.Kind == "file" && format != "ar" && c.Rng.Intn(30) == 0 {
			n.Kind, n.Content, n.Target, n.Mode = "link", nil, []string{"nowhere", "..", "/" + p, strings.Repeat("t", 1+c.Rng.Intn(300))}[c.Rng.Intn(4)], 0o777
		}
	}
	return t
}

func readSuite(c *Ctx, raw json.RawMessage, format string) {
	var cc cCase
	fatal(json.Unmarshal(raw, &cc))
	t := largeTree(c, cc, format)
	var b []byte
	if format == "tar" && c.Rng.Intn(2) == 0 {
		b, t = busyTar(c, t)
	} else {
		b, t = encodeAs(c, format, t)
	}
	what := fmt.Sprintf("%s with %d nodes", format, len(t))
	if len(t) < 12 {
		what = format + " of " + treeString(t)
	}
	fsys, err := openReader(format, newReaderAt(c, b))
	if !c.Check(err == nil, "tree", "%s: does not open: %v", what, err) {
		return
	}
	Obs{Topic: "tree", Probe: []string{"nowhere", "zz", "\x01"}, Root: format == "erofs"}.Observe(c, what, fsys, t)
	if len(c.Bad) > 0 {
		return
	}
	for _, p := range t.paths() {
		if d := strings.Count(p, "/"); t[p].Kind == "dir" && (d < 20 || c.Rng.Intn(16) == 0) {
			neighbours(c, what, fsys, t, p)
			if format != "ar" { // an ar filesystem lists its root, but does not open it
				batches(c, what, fsys, t, p)
			}
		}
		if len(c.Bad) > 0 {
			return
		}
	}
}

// neighbours looks up names close to those of a directory.
func neighbours(c *Ctx, what string, fsys fs.FS, t Tree, dir string) {
	l := t.children(dir)
	if len(l) == 0 {
		return
	}
	for k := 0; k < 60; k++ {
		s := l[c.Rng.Intn(len(l))]
		i := c.Rng.Intn(len(s))
		switch c.Rng.Intn(5) {
		case 0:
			s = s[:i]
		case 1:
			s += string(s[i])
		case 2:
			s = s[:i] + string(s[i]+1) + s[i+1:]
		case 3:
			s = s[:i] + s[i+1:]
		case 4:
			s = s[:i] + "0" + s[i:]
		}
		if s == "" || s == "." || s == ".." || strings.Contains(s, "/") || strings.TrimRight(s, " ") != s || len(s) > 255 {
			continue
		}
		p := path.Join(dir, s)
		if _, ok := t[p]; ok {
			continue
		}
		_, err := fs.Stat(fsys, p)
		c.Check(errors.Is(err, fs.ErrNotExist), "tree", "%s: stat of the absent %q: %v", what, p, err)
		_, err = fsys.Open(p)
		c.Check(errors.Is(err, fs.ErrNotExist), "tree", "%s: open of the absent %q: %v", what, p, err)
	}
}

// batches lists a directory in parts through one handle.
func batches(c *Ctx, what string, fsys fs.FS, t Tree, dir string) {
	f, err := fsys.Open(dir)
	if !c.Check(err == nil, "tree", "%s: open %q: %v", what, dir, err) {
		return
	}
	defer f.Close()
	d, ok := f.(fs.ReadDirFile)
	if !ok {
		return
	}
	want := t.children(dir)
	n := 1 + c.Rng.Intn(len(want)+2)
	for {
		l, err := d.ReadDir(n)
		if !c.Check(len(l) <= n && len(l) <= len(want), "tree", "%s: ReadDir(%d) of %q delivers %d entries, %d are left", what, n, dir, len(l), len(want)) {
			return
		}
		for i, e := range l {
			if !c.Check(e.Name() == want[i], "tree", "%s: ReadDir(%d) of %q delivers %q, want %q", what, n, dir, e.Name(), want[i]) {
				return
			}
		}
		want = want[len(l):]
		if err != nil || len(l) == 0 {
			c.Check(err == io.EOF && len(want) == 0, "tree", "%s: ReadDir(%d) of %q: %v, %d entries are missing", what, n, dir, err, len(want))
			return
		}
	}
}

// busyTar writes a tree with earlier versions of its nodes, and with hard links for some files.
func busyTar(c *Ctx, t Tree) ([]byte, Tree) {
	entry := func(p string, n *Node) tarEntry {
		te := tarEntry{Dialect: []string{"ustar", "gnu", "pax"}[c.Rng.Intn(3)], Name: p, Mode: int64(eMode(n) & 0o7777), MTime: n.MTime, Uid: n.Uid, Gid: n.Gid, Content: n.Content, Link: n.Target}
		te.Type = map[string]byte{"file": '0', "dir": '5', "link": '2', "hard": '1'}[n.Kind]
		if n.Kind == "dir" {
			te.Name += "/"
		}
		te.fixDialect(c.Rng)
		return te
	}
	want := t.clone()
	var old, cur []tarEntry
	var files []string
	for _, p := range t.paths() {
		n := want[p]
		if p == "." {
			continue
		}
		if n.Kind != "dir" && c.Rng.Intn(6) == 0 {
			x := *n
			x.Content, x.Mode, x.Uid, x.MTime = []byte("an older version of "+p), 0o400, 7, time.Unix(77, 0)
			if x.Kind = "file"; c.Rng.Intn(3) == 0 {
				x.Kind, x.Content, x.Target = "link", nil, "older"
			}
			old = append(old, entry(p, &x))
		}
		if n.Kind == "file" && len(files) > 0 && c.Rng.Intn(8) == 0 {
			to := files[c.Rng.Intn(len(files))]
			x := *n
			x.Kind, x.Content, x.Target = "hard", nil, to
			cur = append(cur, entry(p, &x))
			want[p] = want[to]
		} else {
			cur = append(cur, entry(p, n))
		}
		if n.Kind == "file" {
			files = append(files, p)
		}
	}
	var b []byte
	for _, l := range [][]tarEntry{old, cur} {
		c.Rng.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
		for _, e := range l {
			b = append(b, e.encode(c.Rng).bytes()...)
		}
	}
	return append(b, tarEnd(c.Rng, len(b))...), want
}
