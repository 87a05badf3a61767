package main

import (
	"encoding/json"
	"io"
	"io/fs"
	"os"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/dpeckett/archivefs/memfs"
)

// Histories of concurrent programs over memfs.

type hOp struct {
	Op   string   `json:"op"`
	P    []string `json:"p"`
	D    string   `json:"d"`
	Perm string   `json:"perm"`
}

type hProg struct {
	Setup []hOp   `json:"setup"`
	Prog  [][]hOp `json:"prog"`
}

type hRes struct {
	R    string `json:"r"`
	K    string `json:"k"`
	Perm string `json:"perm"`
	D    string `json:"d"`
	Name string `json:"name"`
	List []hRes `json:"list,omitempty"`
}

type hEvent struct {
	E   string `json:"e"` // call or ret
	T   int    `json:"t"`
	Op  *hOp   `json:"op,omitempty"`
	Res *hRes  `json:"res,omitempty"`
}

type histRec struct {
	Setup []hOp    `json:"setup"`
	Ev    []hEvent `json:"ev"`
	N     int      `json:"n"`
	Sched []int    `json:"sched,omitempty"`
}

type histLog struct {
	mu sync.Mutex
	ev []hEvent
}

func (l *histLog) call(t int, op hOp) {
	l.mu.Lock()
	l.ev = append(l.ev, hEvent{E: "call", T: t + 1, Op: &op})
	l.mu.Unlock()
}

func (l *histLog) ret(t int, res hRes) {
	if res.List != nil && len(res.List) == 0 {
		res.R = "ok-empty" // an empty listing
	}
	l.mu.Lock()
	l.ev = append(l.ev, hEvent{E: "ret", T: t + 1, Res: &res})
	l.mu.Unlock()
}

func (l *histLog) String() string {
	b, _ := json.Marshal(l.ev)
	return string(b)
}

// canonical sorts runs of calls and runs of returns: only "return before call" orders operations.
func (l *histLog) canonical() []hEvent {
	ev := append([]hEvent(nil), l.ev...)
	for i := 0; i < len(ev); {
		j := i
		for j < len(ev) && ev[j].E == ev[i].E {
			j++
		}
		sort.SliceStable(ev[i:j], func(a, b int) bool { return ev[i+a].T < ev[i+b].T })
		i = j
	}
	return ev
}

var histPerms = map[string]os.FileMode{"p1": 0o644, "p2": 0o600, "p3": 0o400, "q1": 0o755, "q2": 0o700}

// lengths tell tokens apart; d0 is empty.
var histLens = map[string]int{"d0": 0, "d1": 5, "d2": 300, "d3": 70}

type histWorld struct{ data map[string][]byte }

func newHistWorld() *histWorld {
	w := &histWorld{data: map[string][]byte{}}
	for d, n := range histLens {
		w.data[d] = content(d, n)
	}
	return w
}

func (w *histWorld) dTok(b []byte) string {
	for d, x := range w.data {
		if string(x) == string(b) {
			return d
		}
	}
	return "?"
}

func (w *histWorld) sizeTok(n int64) string {
	for d, x := range w.data {
		if int64(len(x)) == n {
			return d
		}
	}
	return "?"
}

func permTok(m fs.FileMode) string {
	for t, p := range histPerms {
		if p == m.Perm() && (t[0] == 'q') == m.IsDir() {
			return t
		}
	}
	return "?"
}

func (w *histWorld) info(fi fs.FileInfo, root bool) hRes {
	r := hRes{R: "ok", K: "file", Perm: permTok(fi.Mode()), Name: fi.Name()}
	if fi.IsDir() {
		r.K = "dir"
	} else {
		r.D = w.sizeTok(fi.Size())
	}
	if root {
		r.Perm = "root"
	}
	return r
}

// do executes one operation and reports what it observed.
func (w *histWorld) do(fsys *memfs.FS, op hOp) hRes {
	p := "."
	if len(op.P) > 0 {
		p = strings.Join(op.P, "/")
	}
	bad := func(err error) hRes {
		k := errKind(err)
		return hRes{R: k}
	}
	switch op.Op {
	case "mkdir":
		return bad(fsys.MkdirAll(p, histPerms[op.Perm]))
	case "write":
		b := append([]byte(nil), w.data[op.D]...)
		err := fsys.WriteFile(p, b, histPerms[op.Perm])
		for i := range b {
			b[i] ^= 0x55
		}
		return bad(err)
	case "stat":
		fi, err := fs.Stat(fsys, p)
		if err != nil {
			return bad(err)
		}
		return w.info(fi, len(op.P) == 0)
	case "readfile":
		f, err := fsys.Open(p)
		if err != nil {
			return bad(err)
		}
		fi, err := f.Stat()
		if err != nil {
			return hRes{R: "?stat"}
		}
		if fi.IsDir() {
			return hRes{R: "error"}
		}
		r := w.info(fi, false)
		var got []byte
		buf := make([]byte, 64)
		for {
			n, err := f.Read(buf)
			got = append(got, buf[:n]...)
			if err == io.EOF {
				break
			}
			if err != nil || len(got) > 1<<16 {
				return hRes{R: "?read"}
			}
		}
		if d := w.dTok(got); d != r.D {
			r.D = "?" + d + "/" + r.D
		}
		return r
	case "readdir":
		l, err := fs.ReadDir(fsys, p)
		if err != nil {
			if k := errKind(err); k == "notexist" || k == "invalid" {
				return bad(err)
			}
			return hRes{R: "error"}
		}
		r := hRes{R: "ok", List: []hRes{}}
		last := ""
		for _, e := range l {
			fi, err := e.Info()
			if err != nil || e.Name() <= last || fi.Name() != e.Name() || fi.IsDir() != e.IsDir() {
				return hRes{R: "?listing"}
			}
			last = e.Name()
			r.List = append(r.List, w.info(fi, false))
		}
		return r
	}
	panic("unknown op " + op.Op)
}

func init() { suites["stress"] = stressSuite }

// Suite "stress": the programs run on real goroutines (also under the race detector); the histories are recorded.
func stressSuite(c *Ctx, raw json.RawMessage) {
	var p hProg
	fatal(json.Unmarshal(raw, &p))
	w := newHistWorld()
	seen := map[string]bool{}
	rounds := envInt("STRESS_ROUNDS", 10)
	for round := 0; round < rounds; round++ {
		// the lock of the log orders accesses and hides races from the detector: not every round logs
		logging := round%2 == 0
		fsys := memfs.New()
		for _, op := range p.Setup {
			w.do(fsys, op)
		}
		log := &histLog{}
		var wg sync.WaitGroup
		var gate atomic.Int32
		panics := make([]any, len(p.Prog))
		for t, ops := range p.Prog {
			wg.Add(1)
			delay := c.Rng.Intn(200)
			go func() {
				defer wg.Done()
				defer func() { panics[t] = recover() }()
				gate.Add(1)
				for int(gate.Load()) < len(p.Prog) {
					runtime.Gosched()
				}
				for i := 0; i < delay; i++ {
					gate.Load()
				}
				for _, op := range ops {
					if logging {
						log.call(t, op)
					}
					r := w.do(fsys, op)
					if logging {
						log.ret(t, r)
					}
				}
			}()
		}
		wg.Wait()
		c.Stats["stress rounds"]++
		c.Checks++
		for _, x := range panics {
			if x != nil {
				c.Fail("panic", "panic: %v", x)
				return
			}
		}
		if logging {
			h := log.canonical()
			b, err := json.Marshal(h)
			fatal(err)
			if !seen[string(b)] {
				seen[string(b)] = true
				c.Record(histRec{Setup: p.Setup, Ev: h, N: len(p.Prog)})
			}
		}
	}
}

func envInt(k string, d int) int {
	if n, err := strconv.Atoi(os.Getenv(k)); err == nil {
		return n
	}
	return d
}
