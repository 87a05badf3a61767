package main

import (
	"encoding/json"
	"path"

	"github.com/dpeckett/archivefs/erofs"
)

func init() { suites["etree"] = etreeSuite }

type xTree struct {
	Paths []struct {
		P []string `json:"p"`
		I int      `json:"i"`
	} `json:"paths"`
	Nodes []struct {
		A     cAttr `json:"a"`
		Nlink int   `json:"nlink"`
	} `json:"nodes"`
}

// encodeTree makes the image of a generated tree: names, values and layout at random.
func encodeTree(c *Ctx, xt xTree, bits int) (*eImg, Tree, func([]string) string) {
	nm := newNames(c, nameOpts{raw: true})
	at := func(l []string) string {
		p := "."
		for _, tok := range l {
			p = path.Join(p, className(c, nm, tok))
		}
		return p
	}
	var nodes []*Node
	for k, x := range xt.Nodes {
		n := classNode(c, k, x.A, "a")
		n.NoTime = x.A.Tm == "build"
		nodes = append(nodes, n)
	}
	t := Tree{}
	for _, x := range xt.Paths {
		t[at(x.P)] = nodes[x.I-1]
	}
	im := newEImg(c.Rng, t, bits)
	for _, n := range nodes {
		if n.NoTime {
			n.MTime = im.buildTime
		}
	}
	return im, t, at
}

func etreeSuite(c *Ctx, raw json.RawMessage) {
	var xt xTree
	fatal(json.Unmarshal(raw, &xt))
	bits := []int{9, 9, 10, 12, 12, 13, 16}[c.Rng.Intn(7)]
	im, t, at := encodeTree(c, xt, bits)
	im.hints = []int{0, 0, 0, 1}[c.Rng.Intn(4)]
	if c.Tap != nil && c.Rng.Intn(2) == 0 {
		im.hints = 2
	}
	im.place()
	b := im.encode()
	im.expected()
	for _, x := range xt.Paths {
		t[at(x.P)].Nlink = xt.Nodes[x.I-1].Nlink
		t[at(x.P)].NoTime = false
	}
	what := im.describe() + " " + treeString(t)
	fsys, err := erofs.Open(newReaderAt(c, b))
	if !c.Check(err == nil, "image", "%s: %v", what, err) {
		return
	}
	if c.tap(fsys, "erofs", b, what) {
		return
	}
	inodes(c, "image", what, newReaderAt(c, b), bits, t)
	Obs{Topic: "image", Root: true, Probe: []string{"nowhere", ".x", "a", "zx"}}.Observe(c, what, fsys, t)
}
