// Command drv replays behaviours generated from the TLA+ specifications in the
// real packages and compares every answer with the one the specification prescribes,
// or records what the real code does for validation by TLC.
//
//	drv run -suite S -in cases.ndjson -out results.ndjson [-shard i/n] [-from k] [-only k] [-variants v] [-seed s] [-timeout d]
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io/fs"
	"math/rand"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"time"
)

// Ctx is the context in which one variant of one case runs.
type Ctx struct {
	Case    int
	Variant int
	Seed    int64
	Rng     *rand.Rand
	Bad     []Bad
	Checks  int
	Stats   map[string]int
	Recs    []any // recorded observations (suites that record)
	Sig     string
	Tap     func(fsys fs.FS, format string, b []byte, what string)
	SrcTap  func(src fs.FS)
}

// tap hands an opened filesystem over to another suite, if there is one.
func (c *Ctx) tap(fsys fs.FS, format string, b []byte, what string) bool {
	if c.Tap == nil {
		return false
	}
	c.Tap(fsys, format, b, what)
	return true
}

type Bad struct {
	Topic string `json:"topic"`
	What  string `json:"what"`
}

func (c *Ctx) Fail(topic, format string, a ...any) {
	if len(c.Bad) < 20 {
		s := fmt.Sprintf(format, a...)
		if len(s) > 600 {
			s = s[:600] + "..."
		}
		c.Bad = append(c.Bad, Bad{topic, s})
	}
}

// Check counts a comparison and reports whether it holds.
func (c *Ctx) Check(ok bool, topic, format string, a ...any) bool {
	c.Checks++
	if !ok {
		c.Fail(topic, format, a...)
	}
	return ok
}

func (c *Ctx) Count(k string) { c.Stats[k]++ }

// Record emits a record for validation by TLC.
func (c *Ctx) Record(r any) { c.Recs = append(c.Recs, r) }

type Suite func(c *Ctx, raw json.RawMessage)

var suites = map[string]Suite{}

// noRecover suites run functions that may overflow the stack or crash the process.
type result struct {
	I        int            `json:"i"`
	Variant  int            `json:"v"`
	Bad      []Bad          `json:"bad,omitempty"`
	Start    bool           `json:"start,omitempty"`
	Done     bool           `json:"done,omitempty"`
	Hang     bool           `json:"hang,omitempty"`
	Cases    int            `json:"cases,omitempty"`
	Runs     int            `json:"runs,omitempty"`
	Checks   int            `json:"checks,omitempty"`
	Stats    map[string]int `json:"stats,omitempty"`
	Recorded any            `json:"rec,omitempty"`
	Sig      string         `json:"sig,omitempty"`
}

func main() {
	if len(os.Args) < 2 || os.Args[1] != "run" {
		fmt.Fprintln(os.Stderr, "usage: drv run ...")
		os.Exit(2)
	}
	fl := flag.NewFlagSet("run", flag.ExitOnError)
	suite := fl.String("suite", "", "")
	in := fl.String("in", "", "")
	out := fl.String("out", "", "")
	shard := fl.String("shard", "0/1", "")
	from := fl.Int("from", 0, "first case to run")
	fromV := fl.Int("fromv", 0, "first variant of the first case")
	only := fl.Int("only", -1, "")
	onlyV := fl.Int("onlyv", -1, "")
	variants := fl.Int("variants", 1, "")
	seed := fl.Int64("seed", 1, "")
	timeout := fl.Duration("timeout", 20*time.Second, "")
	limit := fl.Duration("limit", 10*time.Minute, "stop starting new cases after this long")
	fl.Parse(os.Args[2:])

	debug.SetMaxStack(64 << 20)
	run, ok := suites[*suite]
	if !ok {
		var names []string
		for n := range suites {
			names = append(names, n)
		}
		sort.Strings(names)
		fmt.Fprintf(os.Stderr, "no suite %q in %s\n", *suite, strings.Join(names, " "))
		os.Exit(2)
	}
	var si, sn int
	fmt.Sscanf(*shard, "%d/%d", &si, &sn)

	f, err := os.Open(*in)
	fatal(err)
	o, err := os.OpenFile(*out, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)
	fatal(err)
	emit := func(r result) {
		b, err := json.Marshal(r)
		fatal(err)
		_, err = o.Write(append(b, '\n'))
		fatal(err)
	}

	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	cases, runs, checks := 0, 0, 0
	stats := map[string]int{}
	began := time.Now()
	for i := 0; sc.Scan(); i++ {
		if i%sn != si || i < *from || (*only >= 0 && i != *only) {
			continue
		}
		if time.Since(began) > *limit {
			break
		}
		raw := append(json.RawMessage(nil), sc.Bytes()...)
		cases++
		for v := 0; v < *variants; v++ {
			if (*onlyV >= 0 && v != *onlyV) || (i == *from && v < *fromV) {
				continue
			}
			// The file position tells which case was running if the process dies.
			progress(*out, i, v)
			h := fnv.New64a()
			fmt.Fprintf(h, "%d/%d/%d/%s", *seed, i, v, *suite)
			c := &Ctx{Case: i, Variant: v, Seed: *seed, Rng: rand.New(rand.NewSource(int64(h.Sum64()))), Stats: stats}
			done := make(chan struct{})
			go func() {
				defer close(done)
				defer func() {
					if p := recover(); p != nil {
						c.Fail("panic", "panic: %v\n%s", p, trimStack(debug.Stack()))
					}
				}()
				run(c, raw)
			}()
			select {
			case <-done:
			case <-time.After(*timeout):
				emit(result{I: i, Variant: v, Hang: true, Sig: c.Sig})
				os.Exit(4)
			}
			runs++
			checks += c.Checks
			if len(c.Bad) > 0 {
				emit(result{I: i, Variant: v, Bad: c.Bad, Sig: c.Sig})
			}
			for _, r := range c.Recs {
				emit(result{I: i, Variant: v, Recorded: r})
			}
		}
	}
	fatal(sc.Err())
	emit(result{Done: true, Cases: cases, Runs: runs, Checks: checks, Stats: stats})
}

func progress(out string, i, v int) {
	if progressFile == nil {
		var err error
		progressFile, err = os.Create(out + ".progress")
		fatal(err)
	}
	progressFile.WriteAt([]byte(fmt.Sprintf("%12d %12d", i, v)), 0)
}

var progressFile *os.File

func trimStack(b []byte) string {
	s := string(b)
	if i := strings.Index(s, "panic("); i >= 0 {
		s = s[i:]
	}
	if len(s) > 900 {
		s = s[:900]
	}
	return s
}

func fatal(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "drv:", err)
		os.Exit(2)
	}
}
