package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"io/fs"
	"math/rand"
	"strconv"
	"strings"
	"time"

	"github.com/dpeckett/archivefs/arfs"
)

func init() { suites["ar"] = arSuite }

type aMember struct {
	Nm string `json:"nm"`
	St string `json:"st"`
	Sz int    `json:"sz"`
	Bl string `json:"bl"`
}

type aCase struct {
	Ms    []aMember `json:"ms"`
	Fault struct {
		F  string `json:"f"`
		At int    `json:"at"`
		X  string `json:"x"`
	} `json:"fault"`
	R    string `json:"r"`
	Tree []struct {
		Nm string `json:"nm"`
		I  int    `json:"i"`
	} `json:"tree"`
}

// arHeader is one member header by the format, field by field.
type arHeader struct{ name, time, uid, gid, mode, size, end string }

func (h arHeader) bytes() []byte {
	pad := func(s string, n int) string { return s + strings.Repeat(" ", n-len(s)) }
	return []byte(pad(h.name, 16) + pad(h.time, 12) + pad(h.uid, 6) + pad(h.gid, 6) + pad(h.mode, 8) + pad(h.size, 10) + h.end)
}

var arModes = []int64{0o644, 0o755, 0o600, 0, 0o777, 0o4755, 0o2755, 0o1777, 0o6711, 0o7777}

func arMember(c *Ctx, rng *rand.Rand, name string, m aMember, k int) (arHeader, *Node) {
	n := &Node{Kind: "file", Content: content(fmt.Sprintf("m%d.%d", k, c.Variant), m.Sz)}
	t := []int64{0, 1, 1700000000, 1<<31 - 1, 1 << 31, 1<<32 + 7, 99999999999, 999999999999, -1, -99999}[rng.Intn(10)]
	mode := arModes[rng.Intn(len(arModes))]
	n.Mode = unixMode(mode)
	n.Uid = []int{0, 1, 1000, 65534, 65535, 65536, 99999, 999999}[rng.Intn(8)]
	n.Gid = []int{0, 2, 100, 65535, 65536, 131072, 999999}[rng.Intn(7)]
	h := arHeader{end: "`\n"}
	h.time = strconv.FormatInt(t, 10)
	h.uid, h.gid = strconv.Itoa(n.Uid), strconv.Itoa(n.Gid)
	if rng.Intn(2) == 0 {
		mode |= 0o100000 // as GNU ar writes it
	} else if rng.Intn(8) == 0 {
		mode |= []int64{0o40000, 0o120000, 0o20000, 0o60000, 0o10000, 0o140000}[rng.Intn(6)]
	}
	h.mode = strconv.FormatInt(mode, 8)
	if rng.Intn(3) == 0 {
		h.mode = fmt.Sprintf("%07o", mode)
	}
	h.size = strconv.Itoa(m.Sz)
	if rng.Intn(6) == 0 { // leading zeroes are still decimal numbers
		h.size = fmt.Sprintf("%010d", m.Sz)
		if len(h.uid) < 5 {
			h.uid = "0" + h.uid
		}
		if len(h.time) < 6 && t >= 0 {
			h.time = "000" + h.time
		}
	}
	blank := func(f string) bool {
		return m.Bl == f || m.Bl == "all" || (m.Bl == "owner" && (f == "uid" || f == "gid"))
	}
	if blank("time") {
		h.time, t = "", 0
	}
	if blank("uid") {
		h.uid, n.Uid = "", 0
	}
	if blank("gid") {
		h.gid, n.Gid = "", 0
	}
	if blank("size") {
		h.size = ""
	}
	n.MTime = time.Unix(t, 0)
	h.name = name
	if m.St == "slash" {
		h.name += "/"
	}
	return h, n
}

func arSuite(c *Ctx, raw json.RawMessage) {
	var ac aCase
	fatal(json.Unmarshal(raw, &ac))
	rng := c.Rng
	slash := map[string]bool{}
	for _, m := range ac.Ms {
		if m.St == "slash" {
			slash[m.Nm] = true
		}
	}
	max := 16
	if len(slash) > 0 {
		max = 15
	}
	nm := newNames(c, nameOpts{max: max, noTrail: true, raw: true})
	if rng.Intn(3) == 0 { // names that differ only in what a careless reader strips
		nm.pool = append([]string{"x", ".x", "..x", " x", "...", "x.", "\tx", "x\t", "\nx", "X", "x\x00", "#1/3"[:2]}, nm.pool...)
		rng.Shuffle(12, func(i, j int) { nm.pool[i], nm.pool[j] = nm.pool[j], nm.pool[i] })
	}
	name := func(tok string) string {
		switch tok {
		case "":
			return ""
		case "n16":
			return "sixteen-bytes-" + []string{"ok", ".o", "é"}[(c.Variant+c.Case)%3]
		}
		return nm.Get(tok)
	}
	var nodes []*Node
	var hs []arHeader
	var starts []int
	total := 8
	for k, m := range ac.Ms {
		h, n := arMember(c, rng, name(m.Nm), m, k)
		hs, nodes = append(hs, h), append(nodes, n)
		starts = append(starts, total)
		total += 60 + m.Sz + m.Sz%2
	}
	f := ac.Fault
	c.Count("fault " + f.F)
	end := total
	if f.F != "none" && f.F != "cut" && f.F != "magic" {
		h := &hs[f.At-1]
		switch f.F {
		case "term":
			h.end = map[string][]string{
				"first": {" \n", "'\n", "\x00\n"}, "second": {"` ", "``", "`\r", "`\x00"}, "both": {"  ", "ab", "\x00\x00"}, "swap": {"\n`"},
			}[f.X][rng.Intn(map[string]int{"first": 3, "second": 4, "both": 3, "swap": 1}[f.X])]
		case "num":
			bad := []string{"x", "1x", "x1", "1 2", "0x1", "1.5", "-", "+", "1e3", "--1", "\x001", "1\x00", "1_0", "٣"}[rng.Intn(14)]
			switch f.X {
			case "time":
				h.time = bad
			case "uid":
				h.uid = bad
			case "gid":
				h.gid = bad
			case "size":
				h.size = bad
			case "mode":
				h.mode = append([]string{"8", "9", "648", "-644", "0o644", "99999999"}, bad)[rng.Intn(7)]
			}
		case "neg":
			h.size = []string{"-1", "-60", "-2", "-999999999", "-61", "-62", "-68"}[rng.Intn(7)]
		case "slash":
			h.name = []string{"a/b", "/x", "//", "a//", "/a/", "../x", "./x", "/1234", "a/../b", "x/."}[rng.Intn(10)]
		case "beyond":
			have := end - starts[f.At-1] - 60
			h.size = strconv.Itoa([]int{have + 1, have + 2, have + 3, have + 60, have + 61, have + 1<<20, 1 << 31, 1 << 32, 9999999999}[rng.Intn(9)])
		}
	}
	b := []byte("!<arch>\n")
	for k := range hs {
		b = append(b, hs[k].bytes()...)
		b = append(b, nodes[k].Content...)
		if len(nodes[k].Content)%2 == 1 {
			b = append(b, '\n')
		}
	}
	if len(b) != total {
		panic("encoder")
	}
	switch f.F {
	case "cut":
		b = b[:f.At]
	case "magic":
		b[f.At] ^= byte(1 << rng.Intn(8))
	}
	what := fmt.Sprintf("%d members %s, fault %s/%d/%s", len(hs), arShow(hs), f.F, f.At, f.X)
	topic := "damage"
	if f.F == "none" {
		topic = "tree"
	}
	fsys, err := arfs.Open(newReaderAt(c, b))
	if ac.R == "refuse" {
		c.Check(err != nil, topic, "%s: opens", what)
		return
	}
	if !c.Check(err == nil, topic, "%s: %v", what, err) {
		return
	}
	if c.tap(fsys, "ar", b, what) {
		return
	}
	t := Tree{".": &Node{Kind: "dir", NoMode: true, NoTime: true, NoOwner: true}}
	for _, x := range ac.Tree {
		t[name(x.Nm)] = nodes[x.I-1]
	}
	var probe []string
	for n := range t {
		if n != "." {
			for _, p := range []string{n + "x", "." + n, strings.TrimLeft(n, "."), " " + n, n + " ", strings.TrimSpace(n), strings.ToUpper(n), n[1:], n[:len(n)-1], n + "."} {
				if _, ok := t[p]; !ok && p != "" && p != "." && p != ".." && p != "/" && fs.ValidPath(p) {
					probe = append(probe, p)
				}
			}
		}
	}
	probe = append(probe, "nowhere")
	Obs{Topic: topic, Probe: probe}.Observe(c, what, fsys, t)
	// what is not a member is no directory either
	for _, p := range probe[:min(6, len(probe))] {
		_, err := fs.ReadDir(fsys, p)
		c.Check(err != nil, topic, "%s: listing the absent %q succeeds", what, p)
		_, err = fsys.Open(p + "/x")
		c.Check(errors.Is(err, fs.ErrNotExist), topic, "%s: open %q: %v", what, p+"/x", err)
	}
}

func arShow(hs []arHeader) string {
	s := ""
	for k, h := range hs {
		if k > 8 {
			break
		}
		s += fmt.Sprintf("[%q t=%s u=%s g=%s m=%s s=%s]", h.name, h.time, h.uid, h.gid, h.mode, h.size)
	}
	return s
}
