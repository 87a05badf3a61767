package main

import (
	"crypto/sha256"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"math/rand"
	"os"
	"path"
	"sort"
	"strings"
	"syscall"

	"github.com/dpeckett/archivefs"
	"github.com/dpeckett/archivefs/arfs"
	"github.com/dpeckett/archivefs/erofs"
	"github.com/dpeckett/archivefs/tarfs"
)

// The answers of archives and the bytes created from sources, asked again and again,
// recorded for validation against Determ.tla.

func init() {
	if os.Getenv("VERIF_OTHER") != "" {
		// the second process: someone else, somewhere else (what it may do stays the same)
		syscall.Setresgid(65534, 0, 0)
		syscall.Setresuid(65534, 0, 0)
		syscall.Umask(0o077)
		os.Chdir("/")
		os.Setenv("HOME", "/nonexistent")
		os.Setenv("USER", "nobody")
	}
	for _, s := range []string{"tar", "ar", "etree", "edir", "resolve-tar", "resolve-erofs", "convert"} {
		suites["determ-"+s] = func(c *Ctx, raw json.RawMessage) {
			n := 0
			// the times of files on disk and in memory are those of this process
			own := ""
			var cc cCase
			if s == "convert" && json.Unmarshal(raw, &cc) == nil && (cc.Src == "mem" || cc.Src == "disk") {
				own = fmt.Sprint(" in ", os.Getpid())
			}
			c.Tap = func(fsys fs.FS, format string, b []byte, what string) {
				n++
				archiveAgain(c, fmt.Sprintf("%d.%d.%d%s", c.Case, c.Variant, n, own), fsys, format, b)
			}
			c.SrcTap = func(src fs.FS) {
				n++
				sourceAgain(c, fmt.Sprintf("%d.%d.%d%s", c.Case, c.Variant, n, own), src)
			}
			suites[s](c, raw)
			c.Bad = nil
		}
	}
}

type dEvent struct {
	Op string `json:"op"`
	K  string `json:"k"`
	A  string `json:"a"`
}

type dRec struct {
	Key string   `json:"key"`
	Ev  []dEvent `json:"ev"`
}

// thing is an archive or source that was asked before and is asked again later.
type thing struct {
	key    string
	format string
	b      []byte
	fsys   fs.FS
}

var earlier []thing

func (r *dRec) ask(k, a string) { r.Ev = append(r.Ev, dEvent{"ask", k, a}) }

func digest(b []byte) string { return fmt.Sprintf("%x", sha256.Sum256(b))[:12] }

func errText(err error) string {
	for _, e := range []error{fs.ErrNotExist, fs.ErrInvalid, fs.ErrExist, fs.ErrClosed, fs.ErrPermission, io.EOF, io.ErrUnexpectedEOF} {
		if errors.Is(err, e) {
			return "error: " + e.Error()
		}
	}
	return "error"
}

// answers asks everything, in random order, and gives one digest per kind of question.
func answers(rng *rand.Rand, fsys fs.FS) map[string]string {
	lfs, _ := fsys.(archivefs.ReadLinkFS)
	var walked []string
	qs := []string{"zz", "..", "", "/", "./."}
	err := fs.WalkDir(fsys, ".", func(p string, d fs.DirEntry, err error) error {
		walked = append(walked, fmt.Sprint(p, err != nil))
		if len(qs) < 100 {
			qs = append(qs, p, path.Join(p, "zz"), p+"x", path.Join(p, path.Base(p)))
		}
		if len(walked) > 5000 {
			return errors.New("endless")
		}
		return nil
	})
	out := map[string]string{"walk": digest([]byte(fmt.Sprint(walked, err != nil)))}
	type q struct{ op, p string }
	var l []q
	seen := map[string]bool{}
	for _, p := range qs {
		if seen[p] {
			continue
		}
		seen[p] = true
		for _, op := range []string{"stat", "list", "open", "read", "lstat", "link"} {
			if lfs != nil || op != "lstat" && op != "link" {
				l = append(l, q{op, p})
			}
		}
	}
	rng.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
	said := map[string][]string{}
	info := func(fi fs.FileInfo, err error) string {
		if err != nil {
			return errText(err)
		}
		return fmt.Sprintf("%q %s %d %s", fi.Name(), infoKind(fi), fi.Size(), infoMeta(fi))
	}
	for _, x := range l {
		a := ""
		switch x.op {
		case "stat":
			a = info(fs.Stat(fsys, x.p))
		case "lstat":
			a = info(lfs.StatLink(x.p))
		case "link":
			s, err := lfs.ReadLink(x.p)
			if a = fmt.Sprintf("%q", s); err != nil {
				a = errText(err)
			}
		case "list":
			es, err := fs.ReadDir(fsys, x.p)
			for _, e := range es {
				a += fmt.Sprintf("%q %v %v %s;", e.Name(), e.Type(), e.IsDir(), info(e.Info()))
			}
			if err != nil {
				a = errText(err)
			}
		case "read":
			b, err := fs.ReadFile(fsys, x.p)
			if a = digest(b); err != nil {
				a += errText(err)
			}
		case "open":
			f, err := fsys.Open(x.p)
			if err != nil {
				a = errText(err)
				break
			}
			h := sha256.New()
			n, err := io.CopyBuffer(struct{ io.Writer }{h}, struct{ io.Reader }{io.LimitReader(f, 1<<24)}, make([]byte, 1+rng.Intn(5000)))
			if a = fmt.Sprintf("%x %d", h.Sum(nil), n); err != nil {
				a += errText(err)
			}
			a += info(f.Stat())
			f.Close()
		}
		said[x.op] = append(said[x.op], x.p+" "+a)
	}
	for op, s := range said {
		sort.Strings(s)
		out[op] = digest([]byte(strings.Join(s, "\n")))
	}
	return out
}

func (r *dRec) asks(rng *rand.Rand, fsys fs.FS) {
	a := answers(rng, fsys)
	var ks []string
	for k := range a {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		r.ask(k, a[k])
	}
}

// creates makes an archive of each format, in random order.
func (r *dRec) creates(rng *rand.Rand, src fs.FS) {
	for _, k := range rng.Perm(3) {
		f := []string{"tar", "ar", "erofs"}[k]
		var b []byte
		var err error
		switch f {
		case "tar":
			w := &memW{}
			err = tarfs.Create(w, src)
			b = w.b
		case "ar":
			w := &memW{}
			err = arfs.Create(w, src)
			b = w.b
		default:
			m := &memAt{}
			err = erofs.Create(m, src)
			b = m.b
		}
		a := digest(b)
		if err != nil {
			a = "refused"
		}
		r.ask("create "+f, a)
	}
}

// elsewhere reopens and asks earlier things.
func elsewhere(c *Ctx, r *dRec, rng *rand.Rand) {
	for k := 0; k < 1+rng.Intn(2) && len(earlier) > 0; k++ {
		t := earlier[rng.Intn(len(earlier))]
		o := &dRec{Key: t.key}
		if t.b != nil {
			if rng.Intn(2) == 0 {
				again, err := openPlain(t.format, t.b)
				o.ask("reopen", fmt.Sprint(err == nil))
				if err == nil {
					t.fsys = again
				}
			}
			o.asks(rng, t.fsys)
		}
		if t.b == nil || rng.Intn(3) == 0 {
			o.creates(rng, t.fsys)
		}
		c.Record(o)
		r.Ev = append(r.Ev, dEvent{"elsewhere", "", ""})
	}
}

func openPlain(format string, b []byte) (fs.FS, error) {
	return openAt(format, &readerAt{b: b, fail: -1})
}

func openAt(format string, ra io.ReaderAt) (fs.FS, error) {
	switch format {
	case "tar":
		return fsOrNil(tarfs.Open(ra))
	case "ar":
		return fsOrNil(arfs.Open(ra))
	}
	return fsOrNil(erofs.Open(ra))
}

// later is seeded by the process too: what else happens, and when, must not matter.
func later(c *Ctx) *rand.Rand { return rand.New(rand.NewSource(c.Rng.Int63() + int64(os.Getpid()))) }

func keep(t thing) {
	if t.b != nil && len(t.b) > 1<<20 {
		return
	}
	if earlier = append(earlier, t); len(earlier) > 6 {
		earlier = earlier[1:]
	}
}

func archiveAgain(c *Ctx, key string, fsys fs.FS, format string, b []byte) {
	if len(b) > 8<<20 {
		return
	}
	rng := later(c)
	r := &dRec{Key: key}
	r.asks(rng, fsys)
	elsewhere(c, r, rng)
	again, err := openPlain(format, b)
	r.ask("reopen", fmt.Sprint(err == nil))
	if err == nil {
		r.asks(rng, again)
		r.creates(rng, again)
	}
	elsewhere(c, r, rng)
	r.asks(rng, fsys)
	r.creates(rng, fsys)
	c.Record(r)
	keep(thing{key, format, b, fsys})
}

func sourceAgain(c *Ctx, key string, src fs.FS) {
	rng := later(c)
	r := &dRec{Key: key}
	r.creates(rng, src)
	elsewhere(c, r, rng)
	r.creates(rng, src)
	c.Record(r)
}
