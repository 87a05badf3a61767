package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"io/fs"
	"math/rand"
	"path"
	"sort"
	"strings"
	"time"

	"github.com/dpeckett/archivefs/erofs"
)

func init() {
	suites["edir"] = edirSuite
	suites["edirbig"] = edirBigSuite
}

const nameBytes = "\x01\x09 !#+,-.0129:;=@ABZ[\\]_`abcxyz~\x7f\x80\xc3\xa9\xff"

func randName(rng *rand.Rand, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = nameBytes[rng.Intn(len(nameBytes))]
	}
	return string(b)
}

// orderedNames makes k names between lo and hi (bytewise, exclusive; hi "" is no bound), each of 1 to max bytes.
func orderedNames(rng *rand.Rand, k int, lo, hi string, max int) []string {
	m := map[string]bool{}
	base := []string{"a", "aa", "ab", "a.", "b", "0", "~", "\xff", "...", "..a", "..\x01", "-", "--", "!", ".-", ".\x01", ". ", ".-z", "-.", "é"}
	for tries := 0; len(m) < k; tries++ {
		var s string
		switch rng.Intn(6) {
		case 0, 1:
			s = base[rng.Intn(len(base))]
		case 2: // a relative of one we have
			for x := range m {
				s = x + string(nameBytes[rng.Intn(len(nameBytes))])
				break
			}
		case 3:
			s = randName(rng, 1+rng.Intn(8))
		case 4:
			s = randName(rng, 1+rng.Intn(max))
		case 5:
			s = randName(rng, 1+rng.Intn(2)) + strings.Repeat("x", max-2)
		}
		if tries%3 == 0 && lo != "" && rng.Intn(2) == 0 {
			s = lo + s
		}
		if len(s) > max {
			s = s[:max]
		}
		if s > lo && (hi == "" || s < hi) && s != "." && s != ".." && s != "" {
			m[s] = true
		}
		if tries > 2000 && hi == "." {
			m[fmt.Sprintf("-%d", tries)] = true
		}
	}
	var l []string
	for s := range m {
		l = append(l, s)
	}
	sort.Strings(l)
	return l
}

type edirCase struct {
	N      int     `json:"n"`
	Dot    int     `json:"dot"`
	DotDot int     `json:"dotdot"`
	Blocks [][]int `json:"blocks"`
}

func edirSuite(c *Ctx, raw json.RawMessage) {
	var ec edirCase
	fatal(json.Unmarshal(raw, &ec))
	rng := c.Rng
	bits := 9 + rng.Intn(4)
	most := 0
	for _, b := range ec.Blocks {
		most = max(most, len(b))
	}
	room := 1<<bits/most - 13
	mx := min(255, max(4, room))
	if rng.Intn(3) == 0 {
		mx = 8
	}
	var names []string
	names = append(names, orderedNames(rng, ec.Dot-1, "", ".", mx)...)
	names = append(names, ".")
	names = append(names, orderedNames(rng, ec.DotDot-ec.Dot-1, ".", "..", mx)...)
	names = append(names, "..")
	names = append(names, orderedNames(rng, ec.N-ec.DotDot, "..", "", mx)...)
	var present []string
	var cuts []int
	in := map[string]bool{}
	for _, b := range ec.Blocks {
		cuts = append(cuts, len(b))
		size := 0
		for k, x := range b {
			s := names[x-1]
			size += 12 + len(s)
			// now and then the last name of a block ends exactly where the block ends
			if k == len(b)-1 && s != "." && s != ".." && rng.Intn(3) == 0 && len(s)+1<<bits-size <= 255 {
				t := s + strings.Repeat("z", 1<<bits-size)
				if x == len(names) || t < names[x] {
					names[x-1] = t
					s = t
				}
			}
			in[s] = true
			present = append(present, s)
		}
	}
	checkDir(c, bits, present, names, cuts, 0, rng.Intn(3) == 0)
}

type edirBig struct {
	Count int    `json:"count"`
	Len   string `json:"len"`
	Bits  int    `json:"bits"`
	Fill  string `json:"fill"`
}

func edirBigSuite(c *Ctx, raw json.RawMessage) {
	var ec edirBig
	fatal(json.Unmarshal(raw, &ec))
	rng := c.Rng
	m := map[string]bool{".": true, "..": true}
	for len(m) < ec.Count+2 {
		switch ec.Len {
		case "short":
			m[randName(rng, 1+rng.Intn(4))] = true
		case "mixed":
			m[randName(rng, 1+rng.Intn(255))] = true
		case "max":
			m[randName(rng, 255)] = true
		case "prefix":
			m[strings.Repeat("p", rng.Intn(240))+randName(rng, 1+rng.Intn(2))] = true
		}
	}
	var present []string
	for s := range m {
		present = append(present, s)
	}
	sort.Strings(present)
	var cuts []int
	split := 0
	switch ec.Fill {
	case "split":
		split = 1 + rng.Intn(9)
	case "exact":
		// blocks filled to the last byte where the length of a name allows it
		var out []string
		size, n := 0, 0
		bs := 1 << ec.Bits
		for k, s := range present {
			if n > 0 && size+12+len(s) > bs {
				cuts = append(cuts, n)
				size, n = 0, 0
			}
			size += 12 + len(s)
			n++
			if free := bs - size; k+1 < len(present) && free < 12+len(present[k+1]) && len(s)+free <= 255 && s != "." && s != ".." {
				if t := s + strings.Repeat("\xff", free); t < present[k+1] {
					size += free
					s = t
				}
			}
			out = append(out, s)
		}
		cuts = append(cuts, n)
		present = out
	}
	c.Count("big " + ec.Fill)
	checkDir(c, ec.Bits, present, nil, cuts, split, rng.Intn(3) == 0)
}

// checkDir builds an image with a directory of exactly the given names and asks for all of them, and for others.
func checkDir(c *Ctx, bits int, present, others []string, cuts []int, split int, pad bool) {
	rng := c.Rng
	at := "."
	t := Tree{".": {Kind: "dir", Mode: 0o755, MTime: time.Unix(1, 0)}}
	if rng.Intn(2) == 0 {
		at = "D"
		t["D"] = &Node{Kind: "dir", Mode: 0o755, MTime: time.Unix(2, 0)}
		t["E"] = &Node{Kind: "dir", Mode: 0o700, MTime: time.Unix(3, 0)}
	}
	in := map[string]bool{}
	uid := 1
	var list []string
	for _, s := range present {
		in[s] = true
		if s == "." || s == ".." {
			continue
		}
		list = append(list, s)
		n := &Node{Kind: []string{"file", "file", "file", "dir", "link"}[rng.Intn(5)], Mode: 0o640, Uid: uid, MTime: time.Unix(int64(uid), 5)}
		if n.Kind == "link" {
			n.Target = fmt.Sprint("to", uid)
		}
		if n.Kind == "file" && len(present) < 50 {
			n.Content = content(fmt.Sprint("e", uid), uid%40)
		}
		t[path.Join(at, s)] = n
		uid++
	}
	im := newEImg(rng, t, bits)
	for _, i := range im.inos {
		if i.node == t[at] {
			i.cuts, i.split, i.padDir, i.fixed = cuts, split, pad, true
		}
	}
	im.place()
	b := im.encode()
	im.expected()
	fsys, err := erofs.Open(newReaderAt(c, b))
	what := fmt.Sprintf("%d names %q, %s", len(present), short(present), im.describe())
	if !c.Check(err == nil, "dir", "%s: %v", what, err) {
		return
	}
	if c.tap(fsys, "erofs", b, what) {
		return
	}
	// probes: relatives of what is there
	probes := append([]string(nil), others...)
	for k := 0; k < min(len(present), 40); k++ {
		s := present[rng.Intn(len(present))]
		probes = append(probes, s[:len(s)-1], s+"a", s+"\x01", s+s, strings.ToUpper(s), s[1:], s+"\xff")
	}
	probes = append(probes, randName(rng, 255), randName(rng, 256), strings.Repeat("z", 300), "\x01", "\xff", "~", "-")
	ask := func(s string) {
		p := path.Join(at, s)
		if s == "" || s == "." || s == ".." || strings.Contains(s, "/") {
			return
		}
		fi, err := fsys.StatLink(p)
		if in[s] {
			if c.Check(err == nil, "dir", "%s: looking up %q: %v", what, s, err) {
				o := Obs{Topic: "dir", MetaTopic: "dir"}
				o.meta(c, fmt.Sprintf("%s: %q", what, s), fi, t[p])
				c.Check(fi.Name() == s, "dir", "%s: %q is named %q", what, s, fi.Name())
				if t[p].Kind == "file" {
					f, err := fsys.Open(p)
					if c.Check(err == nil, "dir", "%s: open %q: %v", what, s, err) {
						got, err := readAllLimited(f, 1000)
						c.Check(err == nil && string(got) == string(t[p].Content), "dir", "%s: content of %q: %d bytes, %v", what, s, len(got), err)
					}
				}
			}
			return
		}
		c.Check(errors.Is(err, fs.ErrNotExist), "dir", "%s: looking up the absent %q: %v", what, s, err)
		_, err = fsys.Open(p)
		c.Check(errors.Is(err, fs.ErrNotExist), "dir", "%s: opening the absent %q: %v", what, s, err)
		_, err = fs.Stat(fsys, p)
		c.Check(errors.Is(err, fs.ErrNotExist), "dir", "%s: stat of the absent %q: %v", what, s, err)
	}
	for _, s := range present {
		ask(s)
	}
	for _, s := range probes {
		ask(s)
	}
	l, err := fs.ReadDir(fsys, at)
	if !c.Check(err == nil, "dir", "%s: listing: %v", what, err) {
		return
	}
	var got []string
	for _, e := range l {
		got = append(got, e.Name())
	}
	if at == "D" || true {
		c.Check(strings.Join(got, "\x00") == strings.Join(list, "\x00"), "dir", "%s: lists %d: %q", what, len(got), short(got))
	}
	for k, e := range l {
		if k < len(list) && e.Name() == list[k] {
			n := t[path.Join(at, e.Name())]
			fi, err := e.Info()
			if c.Check(err == nil, "dir", "%s: Info of %q: %v", what, e.Name(), err) {
				Obs{Topic: "dir", MetaTopic: "dir"}.meta(c, fmt.Sprintf("%s: Info of %q", what, e.Name()), fi, n)
			}
			c.Check(e.IsDir() == (n.Kind == "dir") && kindOf(e.Type()) == n.Kind, "dir", "%s: kind of %q", what, e.Name())
		}
	}
	// the inode itself: here . and .. are names like any other
	fi, err := fs.Stat(fsys, at)
	if !c.Check(err == nil, "dir", "%s: stat: %v", what, err) {
		return
	}
	ino, ok := fi.Sys().(*erofs.Inode)
	if !ok {
		return
	}
	var all []string
	nids := map[string]uint64{}
	err = ino.IterDirents(func(name string, typ uint8, nid uint64) error {
		all = append(all, name)
		nids[name] = nid
		return nil
	})
	c.Check(err == nil && strings.Join(all, "\x00") == strings.Join(present, "\x00"), "dir", "%s: iterates %q, %v", what, short(all), err)
	for _, s := range []string{".", ".."} {
		d, err := ino.Lookup(s)
		c.Check(err == nil && d.Nid == nids[s], "dir", "%s: inode lookup of %q: %v", what, s, err)
	}
	c.Check(nids["."] == ino.Nid(), "dir", "%s: . is %d", what, nids["."])
}
