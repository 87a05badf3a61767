package main

import (
	"archive/tar"
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"strings"
	"time"

	"github.com/dpeckett/archivefs"
)

// The same archive through every conforming reader, and through readers that break.

func init() { suites["deliver"] = deliverSuite }

// archiveOf encodes the tree of a case in a format that can hold it.
func archiveOf(c *Ctx, cc cCase) (format string, b []byte, t Tree) {
	flat := true
	for _, x := range cc.Nodes {
		flat = flat && (len(x.P) == 0 || len(x.P) == 1 && x.A.K == "file")
	}
	format = []string{"tar", "erofs", "ar"}[c.Rng.Intn(3)]
	if format == "ar" && !flat {
		format = "tar"
	}
	o := nameOpts{max: 200, raw: true}
	if format == "ar" {
		o = nameOpts{max: 15, noTrail: true, raw: true}
		for i := range cc.Nodes {
			cc.Nodes[i].A.Ow = "small"
			for k := range cc.Nodes[i].P {
				cc.Nodes[i].P[k] = fmt.Sprint("t", i) // no token that stands for a long name
			}
		}
	}
	t = classTree(c, newNames(c, o), cc.Nodes)
	for p, n := range t {
		if n.MTime.IsZero() || n.MTime.Unix() < 0 || n.MTime.Unix() > 1<<36 {
			n.MTime = time.Unix(1e9, 0)
		}
		n.MTime = time.Unix(n.MTime.Unix(), 0)
		if len(n.Content) > 20000 && c.Rng.Intn(4) > 0 {
			n.Content = n.Content[:9000]
		}
		if n.Kind == "link" && (format == "ar" || len(n.Target) > 300) {
			n.Target = n.Target[:min(300, len(n.Target))]
		}
		if p == "." && format != "erofs" {
			n.NoMode, n.NoTime, n.NoOwner = true, true, true
		}
	}
	b, t = encodeAs(c, format, t)
	return
}

func deliverSuite(c *Ctx, raw json.RawMessage) {
	var cc cCase
	fatal(json.Unmarshal(raw, &cc))
	format, b, t := archiveOf(c, cc)
	what := format + " of {" + treeString(t) + "}"
	obs := Obs{Topic: "deliver", Probe: []string{"nowhere"}}
	styles := deliveries
	if format == "tar" && c.Rng.Intn(3) == 0 {
		// some archives lack (part of) the end marker; where that is accepted, then from every reader
		if m := withoutEnd(b, 512*c.Rng.Intn(2)); m != nil {
			if _, err := openReader(format, deliver(c, format, m, 0)); err == nil {
				b, styles = m, 4 // nothing may follow
				what += " without end"
				c.Count("without end")
			}
		}
	}
	for style := 0; style < styles; style++ {
		fsys, err := openReader(format, deliver(c, format, b, style))
		if !c.Check(err == nil, "deliver", "%s, delivered in way %d: %v", what, style, err) {
			return
		}
		obs.Observe(c, fmt.Sprintf("%s, delivered in way %d", what, style), fsys, t)
	}
	for k := 0; k < 12 && len(c.Bad) == 0; k++ {
		at := c.Rng.Intn(len(b))
		if c.Rng.Intn(2) == 0 {
			at = min(len(b)-1, at/512*512+c.Rng.Intn(64))
		}
		r := deliver(c, format, b, c.Rng.Intn(styles))
		late := c.Rng.Intn(3) == 0
		if !late {
			r.fail = int64(at) + r.off
		}
		fsys, err := openReader(format, r)
		w := fmt.Sprintf("%s, broken at %d of %d (%v)", what, at, len(b), r.err)
		if late {
			w += " after it was opened"
			if err != nil {
				continue
			}
			r.fail = int64(at) + r.off
		}
		if err != nil {
			c.Check(!errors.Is(err, io.EOF) && !errors.Is(err, fs.ErrNotExist), "fault", "%s: opening: %v", w, err)
			c.Check(r.hit > 0, "fault", "%s: does not open though nothing has failed: %v", w, err)
			c.Count(format + " not opened")
			continue
		}
		lenient(c, w, fsys, t, r)
		if r.hit == 0 {
			c.Count(format + " untouched")
		} else {
			c.Count(format + " broken")
		}
	}
}

// lenient accepts right answers, and errors where the reader below has failed.
func lenient(c *Ctx, what string, fsys fs.FS, t Tree, r *faultyReader) {
	lfs, _ := fsys.(archivefs.ReadLinkFS)
	for _, p := range t.paths() {
		n := t[p]
		bad := func(op string, err error) bool {
			if err == nil {
				return false
			}
			c.Check(r.hit > 0, "fault", "%s: %s %q: %v, though nothing has failed", what, op, p, err)
			c.Check(!errors.Is(err, fs.ErrNotExist) && !errors.Is(err, io.EOF), "fault", "%s: %s %q: a read error is reported as %v", what, op, p, err)
			return true
		}
		o := Obs{Topic: "fault"}
		o.MetaTopic = "fault"
		if lfs != nil {
			if fi, err := lfs.StatLink(p); !bad("StatLink", err) && p != "." {
				o.meta(c, fmt.Sprintf("%s: %q", what, p), fi, n)
			}
		}
		if n.Kind != "link" {
			if fi, err := fs.Stat(fsys, p); !bad("Stat", err) && p != "." {
				o.meta(c, fmt.Sprintf("%s: %q", what, p), fi, n)
			}
		}
		switch n.Kind {
		case "file":
			f, err := fsys.Open(p)
			if bad("Open", err) {
				continue
			}
			x, err := readAllLimited(f, len(n.Content))
			f.Close()
			c.Check(bytes.HasPrefix(n.Content, x), "fault", "%s: %q: other content", what, p)
			if !bad("reading", err) {
				c.Check(len(x) == len(n.Content), "fault", "%s: %q: ends after %d of %d bytes", what, p, len(x), len(n.Content))
			}
		case "dir":
			l, err := fs.ReadDir(fsys, p)
			if bad("ReadDir", err) {
				continue
			}
			var got []string
			for _, e := range l {
				got = append(got, e.Name())
			}
			want := t.children(p)
			c.Check(strings.Join(got, "\x00") == strings.Join(want, "\x00"), "fault", "%s: %q lists %q, want %q", what, p, short(got), short(want))
			for _, e := range l {
				fi, err := e.Info()
				if !bad("Info in", err) && t[p] != nil {
					if cn := t[strings.TrimPrefix(p+"/"+e.Name(), "./")]; cn != nil {
						o.meta(c, fmt.Sprintf("%s: entry %q of %q", what, e.Name(), p), fi, cn)
					}
				}
			}
			_, err = fs.Stat(fsys, strings.TrimPrefix(p+"/nowhere", "./"))
			c.Check(err != nil, "fault", "%s: an absent name in %q is found", what, p)
		case "link":
			s, err := lfs.ReadLink(p)
			if !bad("ReadLink", err) {
				c.Check(s == n.Target, "fault", "%s: %q leads to %q, want %q", what, p, s, n.Target)
			}
		}
	}
}

// withoutEnd leaves keep bytes of the zeroes at the end of a tar archive; nil if that would not leave just its entries.
func withoutEnd(b []byte, keep int) []byte {
	n := len(b)
	for n >= 512 && bytes.Equal(b[n-512:n], make([]byte, 512)) {
		n -= 512
	}
	if n < 512 || n+keep >= len(b) {
		return nil
	}
	x := entriesWhole(b[:n])
	if !x {
		return nil
	}
	return append(append([]byte(nil), b[:n]...), make([]byte, keep)...)
}

// entriesWhole tells whether a standard reader reads all entries of b.
func entriesWhole(b []byte) bool {
	tr := tar.NewReader(bytes.NewReader(b))
	for {
		_, err := tr.Next()
		if err == io.EOF {
			return true
		}
		if err == nil {
			_, err = io.Copy(io.Discard, tr)
		}
		if err != nil {
			return false
		}
	}
}
