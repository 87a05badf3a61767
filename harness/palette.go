package main

import (
	"fmt"
	"hash/fnv"
	"io/fs"
	"math/rand"
	"strings"
	"unicode/utf8"
)

// Name pools: TLC works with opaque name tokens, here they become concrete names.
// A pool is a list of mutually distinct names whose near-collisions (prefixes,
// dots, spaces, case, bytes sorting around '.' and '/') have broken such code before.
var namePools = [][]string{
	{"a", "b", "c", "d", "e", "f", "g", "h"},
	{"a", "aa", "a.a", "a-a", "ab", "A", "a0", "a~"},
	{".a", "a", "..a", "...", "a.", "a..", ".a.", "..."},
	{"x", " x", "x ", "  x", "x  ", "x x", " x ", "\tx"},
	{"-", "+", "#", "!", ",", ".-", "-.", "--"},
	{"é", "e", "e\u0301", "日本", "日", "ü", "ß", "\U0001F600"},
	{"toybox", "bin", "usr", "lib", "lib64", "sbin", "etc", "tmp"},
	{"\x01", "\x7f", "a\nb", "a\\b", "*", "?", "a:b", "a=b"},
	{"con", ".git", ".gitignore", ".wh.a", ".wh..wh..opq", "a@", "PaxHeaders.0", "GNUSparseFile.0"},
}

// longName makes a name of exactly n bytes, distinct per i. Names of the same length differ in what they are made of.
func longName(n, i int) string {
	if n < 4 {
		n = 4
	}
	s := fmt.Sprintf("%c%02d-", 'a'+i%26, i%100)
	fill := []string{"x", "x", "é", "日", "\U0001F600", "x.", "."}[(i/3)%7]
	for len(s)+len(fill) <= n {
		s += fill
	}
	return s + strings.Repeat("y", n-len(s))
}

// Bytes names may be made of: what is special to shells, formats, paths and encodings.
var nameParts = []string{".", ".", ".", "a", "b", "A", "0", " ", "-", "_", "~", "+", ",", "/", "\\", "*", "%", ":", "=", "#", "@", "\x01", "\n", "\x7f", "é", "\u0301", "日", "\U0001F600"}
var rawBytes = []string{"\x80", "\xff", "\xc3", "\xe9", "\xed\xa0\x80"}

// anyName makes up a name, mostly a short one.
func anyName(rng *rand.Rand, o nameOpts) string {
	n := 1 + rng.Intn(3)
	switch rng.Intn(8) {
	case 0:
		n = 1 + rng.Intn(o.max)
	case 1:
		return longName(max(4, o.max-rng.Intn(3)), rng.Intn(100))
	}
	from := nameParts
	if o.raw {
		from = append(from[:len(from):len(from)], rawBytes...)
	}
	s := ""
	for i := 0; i < n; i++ {
		if c := from[rng.Intn(len(from))]; len(s)+len(c) <= o.max {
			s += c
		}
	}
	return s
}

type nameOpts struct {
	max     int  // longest name
	ascii   bool // printable ASCII only
	noSpace bool // no leading or trailing blanks
	noTrail bool // as in ar: no trailing blanks; no newline in front, which would read as padding where the name is cut off
	noCtl   bool
	raw     bool // also names that are not valid UTF-8
}

func nameOK(n string, o nameOpts) bool {
	if n == "" || n == "." || n == ".." || len(n) > o.max || strings.Contains(n, "/") {
		return false
	}
	if o.ascii || o.noCtl {
		for i := 0; i < len(n); i++ {
			if n[i] < 32 || n[i] > 126 {
				if o.ascii || n[i] < 32 || n[i] == 127 {
					return false
				}
			}
		}
	}
	if !o.raw && !utf8.ValidString(n) {
		return false
	}
	if o.noSpace && strings.TrimSpace(n) != n {
		return false
	}
	if o.noTrail && (strings.TrimRight(n, " ") != n || n[0] == '\n') {
		return false
	}
	return true
}

// Names maps name tokens injectively to concrete names. Variant 0 uses the tokens themselves.
type Names struct {
	m    map[string]string
	used map[string]bool
	rng  *rand.Rand
	pool []string
	o    nameOpts
	id   bool
	n    int
}

func newNames(c *Ctx, o nameOpts) *Names {
	if o.max == 0 {
		o.max = 255
	}
	nm := &Names{m: map[string]string{}, used: map[string]bool{}, rng: c.Rng, o: o, id: c.Variant == 0 && c.Rng.Intn(3) == 0}
	k := c.Rng.Intn(len(namePools) + 3)
	if k > len(namePools)+1 {
		for i := 0; i < 20; i++ {
			nm.pool = append(nm.pool, anyName(c.Rng, o))
		}
	} else if k < len(namePools) {
		nm.pool = append(nm.pool, namePools[k]...)
	} else {
		// a mixture, with long names
		for _, p := range namePools {
			nm.pool = append(nm.pool, p[c.Rng.Intn(len(p))])
		}
		for _, l := range []int{15, 16, 17, 50, 99, 100, 101, 155, 254, 255} {
			if l <= o.max {
				nm.pool = append(nm.pool, longName(l, c.Rng.Intn(20)))
			}
		}
	}
	for i := c.Rng.Intn(5); i > 0; i-- {
		nm.pool = append(nm.pool, anyName(c.Rng, o))
	}
	c.Rng.Shuffle(len(nm.pool), func(i, j int) { nm.pool[i], nm.pool[j] = nm.pool[j], nm.pool[i] })
	return nm
}

func (nm *Names) Get(tok string) string {
	if n, ok := nm.m[tok]; ok {
		return n
	}
	pick := tok
	if !nm.id {
		pick = ""
		for len(nm.pool) > 0 && pick == "" {
			p := nm.pool[0]
			nm.pool = nm.pool[1:]
			if nameOK(p, nm.o) && !nm.used[p] {
				pick = p
			}
		}
		for pick == "" || nm.used[pick] {
			nm.n++
			pick = fmt.Sprintf("n%d", nm.n)
		}
	}
	nm.m[tok], nm.used[pick] = pick, true
	return pick
}

func (nm *Names) Path(toks []string) string {
	if len(toks) == 0 {
		return "."
	}
	var s []string
	for _, t := range toks {
		s = append(s, nm.Get(t))
	}
	return strings.Join(s, "/")
}

// content makes n deterministic bytes for a token; different tokens differ from the first byte on.
func content(tok string, n int) []byte {
	h := fnv.New64a()
	h.Write([]byte(tok))
	r := rand.New(rand.NewSource(int64(h.Sum64() >> 1)))
	b := make([]byte, n)
	r.Read(b)
	// runs of zeroes and text look different to some code
	if n > 64 {
		for i := n / 2; i < n/2+16; i++ {
			b[i] = 0
		}
	}
	if n > 0 {
		b[0] = byte(h.Sum64()>>8)&0x7f | 1
	}
	return b
}

func modeString(m fs.FileMode) string { return fmt.Sprintf("%v(%#o)", m, uint32(m)) }

func newRng(seed int64) *rand.Rand { return rand.New(rand.NewSource(seed)) }
