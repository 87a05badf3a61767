package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"path"
	"sort"
	"sync"
	"time"

	"github.com/dpeckett/archivefs/arfs"
	"github.com/dpeckett/archivefs/erofs"
	"github.com/dpeckett/archivefs/tarfs"
)

func init() {
	suites["handles"] = handlesSuite
	suites["hconc"] = handlesConcSuite
}

type hlCall struct {
	Op  string `json:"op"`
	H   string `json:"h"`
	F   string `json:"f"`
	S   string `json:"s"`
	N   int    `json:"n"`
	R   string `json:"r"`
	Off int    `json:"off"`
	Len int    `json:"len"`
	EOF bool   `json:"eof"`
}

type hlCase struct {
	Len map[string]int `json:"len"`
	H   []hlCall       `json:"h"`
}

// faultyReader delivers an archive in one of the ways io.ReaderAt allows, and can break at a byte.
type faultyReader struct {
	readerAt
	off int64 // where the archive begins in b
	err error
	hit int
}

var readErrors = []error{errInjected, io.ErrUnexpectedEOF, fs.ErrClosed, fmt.Errorf("wrapped: %w", errInjected)}

func (r *faultyReader) ReadAt(p []byte, off int64) (int, error) {
	if off < 0 {
		return 0, errors.New("negative offset")
	}
	n, err := r.readerAt.ReadAt(p, off+r.off)
	if err == errInjected {
		r.hit++
		err = r.err
	}
	return n, err
}

const deliveries = 5

// deliver makes a reader; style 4 goes on after the archive (for formats that know where they end).
func deliver(c *Ctx, format string, b []byte, style int) *faultyReader {
	r := &faultyReader{readerAt: readerAt{b: b, style: style % 4, fail: -1}, err: readErrors[c.Rng.Intn(len(readErrors))]}
	if style == raSection {
		r.style = raEOFLate
		if format != "ar" {
			r.b = append([]byte("0123456789abcdef!<arch>\nxx"), b...)
			r.off = 26
		}
	}
	if style == 4 && format != "ar" {
		r.b = append(append([]byte(nil), b...), bytes.Repeat([]byte("what follows the archive "), 1+c.Rng.Intn(900))...)
	}
	return r
}

func openReader(format string, r io.ReaderAt) (fs.FS, error) {
	switch format {
	case "tar":
		return fsOrNil(tarfs.Open(r))
	case "ar":
		return fsOrNil(arfs.Open(r))
	}
	return fsOrNil(erofs.Open(r))
}

// arOf writes a flat tree of files.
func arOf(c *Ctx, t Tree) []byte {
	b := []byte("!<arch>\n")
	l := t.paths()
	c.Rng.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
	for _, p := range l {
		if p == "." {
			continue
		}
		n := t[p]
		h := arHeader{name: p, time: fmt.Sprint(n.MTime.Unix()), uid: fmt.Sprint(n.Uid), gid: fmt.Sprint(n.Gid), mode: fmt.Sprintf("%o", eMode(n)), size: fmt.Sprint(len(n.Content)), end: "`\n"}
		if len(p) < 16 && c.Rng.Intn(2) == 0 {
			h.name += "/"
		}
		b = append(append(b, h.bytes()...), n.Content...)
		if len(n.Content)%2 == 1 {
			b = append(b, '\n')
		}
	}
	return b
}

// encodeAs writes a tree in a format with this package's own encoders; the tree becomes what it must present.
func encodeAs(c *Ctx, format string, t Tree) ([]byte, Tree) {
	switch format {
	case "tar":
		b, want := tarOf(c, t, true)
		return b, want
	case "ar":
		return arOf(c, t), t
	}
	b, _ := erofsOf(c, t)
	return b, t
}

var handleUnits = []int{1, 2, 5, 100, 333, 512, 700, 1000, 1024, 2048, 4096, 5000, 40000}

// handleWorld is an archive with the files of a case.
type handleWorld struct {
	format string
	t      Tree
	path   map[string]string // of each file
	via    map[string]string // another path to it
	unit   int
	b      []byte
	what   string
}

func newHandleWorld(c *Ctx, l map[string]int, breaks bool) *handleWorld {
	w := &handleWorld{format: []string{"tar", "ar", "erofs"}[(c.Variant+c.Rng.Intn(3))%3], path: map[string]string{}, via: map[string]string{}}
	nm := newNames(c, nameOpts{max: 15, noTrail: true, raw: true})
	w.unit = handleUnits[c.Rng.Intn(len(handleUnits))]
	if breaks && w.unit < 64 {
		w.unit = 64 + c.Rng.Intn(1000)
	}
	w.t = Tree{".": {Kind: "dir", Mode: 0o755, MTime: time.Unix(1e9, 0), NoMode: w.format != "erofs", NoTime: w.format != "erofs", NoOwner: w.format != "erofs"}}
	var fs_ []string
	for f := range l {
		fs_ = append(fs_, f)
	}
	sort.Strings(fs_)
	for _, f := range fs_ {
		n := &Node{Kind: "file", Mode: 0o644, MTime: time.Unix(1.7e9, 0), Uid: 1000, Gid: 100, Content: content(fmt.Sprint(f, c.Variant), l[f]*w.unit)}
		if c.Rng.Intn(5) == 0 && len(n.Content) > 8192 {
			clear(n.Content[2048 : 2048+c.Rng.Intn(5000)])
		}
		p := nm.Get(f)
		w.via[f] = p
		if w.format != "ar" {
			if c.Rng.Intn(2) == 0 {
				d := nm.Get("d" + f)
				w.t[d] = &Node{Kind: "dir", Mode: 0o755, MTime: time.Unix(1.6e9, 0)}
				p = path.Join(d, p)
			}
			w.via[f] = p
			if c.Rng.Intn(3) == 0 {
				w.via[f] = nm.Get("l" + f)
				w.t[w.via[f]] = &Node{Kind: "link", Mode: 0o777, Target: p, MTime: time.Unix(1.5e9, 0)}
			}
		}
		w.path[f] = p
		w.t[p] = n
	}
	w.b, w.t = encodeAs(c, w.format, w.t)
	w.what = fmt.Sprintf("%s of %s (units of %d)", w.format, treeString(w.t), w.unit)
	return w
}

func (w *handleWorld) content(f string) []byte { return w.t[w.path[f]].Content }

// place finds a byte of the archive that holds part of unit u of file f.
func (w *handleWorld) place(c *Ctx, f string, u int) int64 {
	x := w.content(f)[u*w.unit : (u+1)*w.unit]
	for try := 0; try < 8; try++ {
		k := c.Rng.Intn(len(x) - 15)
		if try == 0 {
			k = 0
		}
		i := bytes.Index(w.b, x[k:k+16])
		if i >= 0 && bytes.Index(w.b[i+1:], x[k:k+16]) < 0 {
			return int64(i)
		}
	}
	return -1
}

type hlHandle struct {
	f    fs.File
	lost bool
}

// step makes one call on a handle and compares its answer.
func (w *handleWorld) step(c *Ctx, topic string, hs map[string]*hlHandle, fss map[string]fs.FS, hist string, q hlCall, faulty bool) {
	what := w.what + ": " + hist
	maybe := func(err error) bool { // an error is in order, if it is one
		if q.R == "ok" || err == nil {
			return false
		}
		c.Check(!errors.Is(err, fs.ErrNotExist) && !errors.Is(err, io.EOF), topic, "%s: a read error is reported as %v", what, err)
		c.Count("reported")
		return true
	}
	size := func(fi fs.FileInfo, err error) {
		if maybe(err) {
			return
		}
		if c.Check(err == nil, topic, "%s: %v", what, err) {
			c.Check(fi.Size() == int64(len(w.content(q.F))) && fi.Mode() == 0o644, topic, "%s: size %d, mode %v, want %d", what, fi.Size(), fi.Mode(), len(w.content(q.F)))
		}
	}
	switch q.Op {
	case "open":
		p := w.path[q.F]
		if c.Rng.Intn(2) == 0 {
			p = w.via[q.F]
		}
		f, err := fss[q.S].Open(p)
		if maybe(err) {
			hs[q.H] = &hlHandle{lost: true}
			return
		}
		hs[q.H] = &hlHandle{f: f, lost: err != nil}
		c.Check(err == nil, topic, "%s: %v", what, err)
		return
	case "stat":
		size(fs.Stat(fss[q.S], w.path[q.F]))
		return
	}
	h := hs[q.H]
	if h == nil || h.f == nil {
		return
	}
	switch q.Op {
	case "close":
		err := h.f.Close()
		c.Check(err == nil, topic, "%s: %v", what, err)
		delete(hs, q.H)
	case "fstat":
		size(h.f.Stat())
	case "read", "drain":
		if h.lost {
			return
		}
		want := w.content(q.F)[q.Off*w.unit : (q.Off+q.Len)*w.unit]
		var buf []byte
		var err error
		var n int
		if q.Op == "drain" {
			n0 := len(want)
			buf, err = readAllLimited(h.f, n0)
			n = len(buf)
			if err == nil {
				err = io.EOF
			}
		} else {
			buf = make([]byte, q.N*w.unit)
			switch {
			case q.N == 0:
				n, err = h.f.Read(buf)
				if errors.Is(err, io.EOF) && q.Off*w.unit == len(w.content(q.F)) {
					err = nil // a read of nothing at the end may say either
				}
			case c.Rng.Intn(3) == 0: // in pieces
				for n < len(buf) && err == nil {
					var k int
					k, err = h.f.Read(buf[n:min(len(buf), n+1+c.Rng.Intn(w.unit+1))])
					if k < 0 || n+k > len(buf) {
						c.Fail(topic, "%s: Read delivers %d bytes", what, k)
						return
					}
					n += k
				}
				if err == io.EOF && n == len(buf) {
					err = nil
				}
			default:
				n, err = io.ReadFull(h.f, buf)
				if err == io.ErrUnexpectedEOF && q.EOF && n == len(want) {
					err = io.EOF
				}
			}
		}
		if !c.Check(n <= len(want) && bytes.Equal(buf[:n], want[:n]), topic, "%s: delivers %d bytes that are not those of the file at %d (want %d) %s", what, n, q.Off*w.unit, len(want), diffAt(buf[:n], want)) {
			h.lost = true
			return
		}
		wantErr := q.EOF && q.N > 0 || q.Op == "drain"
		if q.R != "ok" && err != nil && !(n == len(want) && errors.Is(err, io.EOF) && wantErr && q.R == "maybe") {
			// io.ErrUnexpectedEOF may be the error of the reader below
			c.Check(!errors.Is(err, io.EOF), topic, "%s: end of file after %d of %d bytes, the reader below failed", what, n, len(want))
			c.Count("reported")
			h.lost = true
			return
		}
		if q.R == "error" {
			c.Fail(topic, "%s: delivers %d bytes and %v, but the reader below cannot deliver them", what, n, err)
			h.lost = true
			return
		}
		c.Check(n == len(want), topic, "%s: delivers %d of %d bytes, %v", what, n, len(want), err)
		if wantErr {
			c.Check(errors.Is(err, io.EOF), topic, "%s: %v at the end of the file", what, err)
		} else {
			c.Check(err == nil, topic, "%s: %v", what, err)
		}
	}
}

func (q hlCall) String() string { return fmt.Sprintf("%s%s(%s%s%d)", q.H, q.Op, q.F, q.S, q.N) }

func handlesSuite(c *Ctx, raw json.RawMessage) {
	var hc hlCase
	fatal(json.Unmarshal(raw, &hc))
	breaks := false
	for _, q := range hc.H {
		breaks = breaks || q.Op == "break"
	}
	w := newHandleWorld(c, hc.Len, breaks)
	style := c.Rng.Intn(deliveries)
	r := deliver(c, w.format, w.b, style)
	fss := map[string]fs.FS{}
	for _, s := range []string{"s1", "s2"} {
		var err error
		fss[s], err = openReader(w.format, r)
		if !c.Check(err == nil, "deliver", "%s, delivered in way %d: %v", w.what, style, err) {
			return
		}
	}
	topic := "handles"
	hs := map[string]*hlHandle{}
	hist := fmt.Sprintf("way %d:", style)
	for _, q := range hc.H {
		hist += " " + q.String()
		switch q.Op {
		case "break":
			at := w.place(c, q.F, q.N)
			if at < 0 {
				c.Count("nowhere to break")
				return
			}
			topic = "fault"
			r.fail = at + r.off
		case "mend":
			r.fail = -1
		default:
			w.step(c, topic, hs, fss, hist, q, r.fail >= 0)
			if len(c.Bad) > 0 {
				return
			}
		}
	}
}

// handlesConcSuite: the calls of each handle on a goroutine of their own, others looking at everything meanwhile.
func handlesConcSuite(c *Ctx, raw json.RawMessage) {
	var hc hlCase
	fatal(json.Unmarshal(raw, &hc))
	w := newHandleWorld(c, hc.Len, false)
	per := map[string][]hlCall{}
	for _, q := range hc.H {
		k := q.H
		if k == "" {
			k = "ask"
		}
		per[k] = append(per[k], q)
	}
	for round := 0; round < 3; round++ {
		// not yet touched by anyone: what is set up lazily is set up by several at once
		fsys, err := openReader(w.format, styledReaderAt(w.b, c.Rng.Intn(raStyles)))
		if !c.Check(err == nil, "handles", "%s: %v", w.what, err) {
			return
		}
		var wg sync.WaitGroup
		var mu sync.Mutex
		start := make(chan struct{})
		run := func(f func(x *Ctx)) {
			x := &Ctx{Case: c.Case, Variant: c.Variant, Seed: c.Seed, Rng: newRng(c.Rng.Int63()), Stats: map[string]int{}}
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() {
					if p := recover(); p != nil {
						x.Fail("panic", "panic: %v", p)
					}
					mu.Lock()
					c.Bad = append(c.Bad, x.Bad...)
					c.Checks += x.Checks
					mu.Unlock()
				}()
				<-start
				f(x)
			}()
		}
		for h, l := range per {
			run(func(x *Ctx) {
				hs := map[string]*hlHandle{}
				hist := "concurrently " + h + ":"
				for _, q := range l {
					hist += " " + q.String()
					w.step(x, "handles", hs, map[string]fs.FS{"s1": fsys, "s2": fsys}, hist, q, false)
				}
			})
		}
		for k := 0; k < 3; k++ {
			run(func(x *Ctx) { Obs{Topic: "handles"}.Observe(x, w.what+", concurrently", fsys, w.t) })
		}
		close(start)
		wg.Wait()
		if len(c.Bad) > 0 {
			return
		}
	}
}
