package main

import (
	"archive/tar"
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"path"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/dpeckett/archivefs"
	"github.com/dpeckett/archivefs/arfs"
	"github.com/dpeckett/archivefs/erofs"
)

// Node is what a filesystem should present at a path.
type Node struct {
	Kind    string // file, dir or link
	Content []byte
	Target  string
	Mode    fs.FileMode // permission and special bits
	NoMode  bool        // the mode is not prescribed
	MTime   time.Time
	NoTime  bool
	Uid     int
	Gid     int
	NoOwner bool
	Nlink   int // 0: not prescribed
}

type Tree map[string]*Node // "." is the root

func (t Tree) children(p string) []string {
	var l []string
	for q := range t {
		if q != "." && path.Dir(q) == p {
			l = append(l, path.Base(q))
		}
	}
	sort.Strings(l)
	return l
}

func (t Tree) paths() []string {
	var l []string
	for q := range t {
		l = append(l, q)
	}
	sort.Strings(l)
	return l
}

const permBits = fs.ModePerm | fs.ModeSetuid | fs.ModeSetgid | fs.ModeSticky

func kindOf(m fs.FileMode) string {
	switch m & fs.ModeType {
	case 0:
		return "file"
	case fs.ModeDir:
		return "dir"
	case fs.ModeSymlink:
		return "link"
	case fs.ModeDevice | fs.ModeCharDevice:
		return "chr"
	case fs.ModeDevice:
		return "blk"
	case fs.ModeNamedPipe:
		return "fifo"
	case fs.ModeSocket:
		return "sock"
	}
	return "other"
}

// ownerOf extracts the owner from the Sys value of the three archive filesystems.
func ownerOf(fi fs.FileInfo) (uid, gid int, ok bool) {
	switch s := fi.Sys().(type) {
	case *tar.Header:
		return s.Uid, s.Gid, true
	case *arfs.Entry:
		return int(s.Uid), int(s.Gid), true
	case *erofs.Inode:
		return int(s.UID()), int(s.GID()), true
	case *syscall.Stat_t:
		return int(s.Uid), int(s.Gid), true
	}
	return 0, 0, false
}

// Obs says how strictly a filesystem is compared.
type Obs struct {
	Topic     string // paths, kinds, contents, targets
	MetaTopic string // mode, time, owner
	LinkTopic string // link targets
	Seconds   bool   // compare times as whole seconds
	Root      bool   // the metadata of the root is prescribed
	Probe     []string
	NoLinks   bool // the filesystem does not know links
	SkipOpen  bool
	Sizes     bool // sizes of links are compared
}

func (o Obs) meta(c *Ctx, what string, fi fs.FileInfo, n *Node) {
	t := o.MetaTopic
	c.Check(kindOf(fi.Mode()) == n.Kind && fi.IsDir() == (n.Kind == "dir"), o.Topic, "%s: mode %s, want a %s", what, modeString(fi.Mode()), n.Kind)
	if !n.NoMode {
		c.Check(fi.Mode()&permBits == n.Mode, t, "%s: mode %s, want %s", what, modeString(fi.Mode()), modeString(n.Mode))
	}
	if n.Kind == "file" {
		c.Check(fi.Size() == int64(len(n.Content)), o.Topic, "%s: size %d, want %d", what, fi.Size(), len(n.Content))
		if t != o.Topic {
			c.Check(fi.Size() == int64(len(n.Content)), t, "%s: size %d, want %d", what, fi.Size(), len(n.Content))
		}
	}
	if !n.NoTime {
		if o.Seconds {
			c.Check(fi.ModTime().Unix() == n.MTime.Unix(), t, "%s: time %v, want %v", what, fi.ModTime(), n.MTime)
		} else {
			c.Check(fi.ModTime().Equal(n.MTime), t, "%s: time %v, want %v", what, fi.ModTime(), n.MTime)
		}
	}
	if !n.NoOwner {
		u, g, ok := ownerOf(fi)
		c.Check(ok && u == n.Uid && g == n.Gid, t, "%s: owner %d:%d (known: %v), want %d:%d", what, u, g, ok, n.Uid, n.Gid)
	}
	if ino, ok := fi.Sys().(*erofs.Inode); ok {
		inodeAgrees(c, o.Topic, what, ino, n)
		c.Check(ino.Mode() == fi.Mode() && int64(ino.Mtime()) == fi.ModTime().Unix() && int(ino.MtimeNsec()) == fi.ModTime().Nanosecond(), t,
			"%s: the inode has mode %s and time %d.%d, its FileInfo %s and %v", what, ino.Mode(), ino.Mtime(), ino.MtimeNsec(), fi.Mode(), fi.ModTime())
		if n.Nlink > 0 {
			c.Check(int(ino.Nlink()) == n.Nlink, t, "%s: link count %d, want %d", what, ino.Nlink(), n.Nlink)
		}
	}
}

// inodeAgrees compares what an inode says about itself with the node it stands for.
func inodeAgrees(c *Ctx, topic, what string, ino *erofs.Inode, n *Node) {
	is := map[string]bool{"file": ino.IsRegular(), "dir": ino.IsDir(), "link": ino.IsSymlink(), "chr": ino.IsCharDev(), "blk": ino.IsBlockDev(), "fifo": ino.IsFIFO(), "sock": ino.IsSocket()}
	for k, b := range is {
		c.Check(b == (k == n.Kind), topic, "%s: the inode of a %s says %v to being a %s", what, n.Kind, b, k)
	}
	if n.Kind == "file" {
		c.Check(ino.Size() == uint64(len(n.Content)), topic, "%s: the inode has size %d, want %d", what, ino.Size(), len(n.Content))
	}
}

// inodeReads does so for what takes reading the image.
func inodeReads(c *Ctx, topic, what string, ino *erofs.Inode, n *Node) {
	if n.Kind == "link" {
		s, err := ino.Readlink()
		c.Check(err == nil && s == n.Target, topic, "%s: the inode's target is %q, %v, want %q", what, short([]string{s}), err, short([]string{n.Target}))
	} else {
		_, err := ino.Readlink()
		c.Check(err != nil, topic, "%s: the inode of a %s has a target", what, n.Kind)
	}
	if n.Kind != "dir" {
		_, err := ino.Lookup("x")
		c.Check(err != nil, topic, "%s: the inode of a %s has a child", what, n.Kind)
		err = ino.IterDirents(func(string, uint8, uint64) error { return nil })
		c.Check(err != nil, topic, "%s: the inode of a %s has entries", what, n.Kind)
	}
}

// inodes compares the tree seen from the inodes of an image with the one it holds.
func inodes(c *Ctx, topic, what string, ra io.ReaderAt, bits int, t Tree) {
	img, err := erofs.OpenImage(ra)
	if !c.Check(err == nil, topic, "%s: the image does not open: %v", what, err) {
		return
	}
	sb := img.SuperBlock()
	c.Check(img.BlockSize() == 1<<bits && sb.Magic == 0xe0f5e1e2 && uint64(sb.RootNid) == img.RootNid() && sb.Blocks == img.Blocks(), topic,
		"%s: superblock: %+v, block size %d, root %d, blocks %d", what, sb, img.BlockSize(), img.RootNid(), img.Blocks())
	var visit func(p string, nid uint64, depth int)
	visit = func(p string, nid uint64, depth int) {
		at, n := fmt.Sprintf("%s: inode of %q", what, p), t[p]
		ino, err := img.Inode(nid)
		if !c.Check(err == nil, topic, "%s: %v", at, err) || n == nil {
			return
		}
		c.Check(ino.Nid() == nid, topic, "%s: number %d, want %d", at, ino.Nid(), nid)
		inodeAgrees(c, topic, at, &ino, n)
		inodeReads(c, topic, at, &ino, n)
		if !n.NoMode {
			c.Check(ino.Mode()&permBits == n.Mode, topic, "%s: mode %s, want %s", at, ino.Mode(), modeString(n.Mode))
		}
		if !n.NoOwner {
			c.Check(int(ino.UID()) == n.Uid && int(ino.GID()) == n.Gid, topic, "%s: owner %d:%d", at, ino.UID(), ino.GID())
		}
		if n.Nlink > 0 {
			c.Check(int(ino.Nlink()) == n.Nlink, topic, "%s: link count %d, want %d", at, ino.Nlink(), n.Nlink)
		}
		switch n.Kind {
		case "file":
			r, err := ino.Data()
			if c.Check(err == nil, topic, "%s: data: %v", at, err) {
				b, err := io.ReadAll(r)
				c.Check(err == nil && bytes.Equal(b, n.Content), topic, "%s: %d bytes, %v, want %d %s", at, len(b), err, len(n.Content), diffAt(b, n.Content))
			}
		case "dir":
			var names []string
			nids := map[string]uint64{}
			err := ino.IterDirents(func(name string, _ uint8, nid uint64) error {
				nids[name] = nid
				if name != "." && name != ".." {
					names = append(names, name)
				}
				return nil
			})
			want := t.children(p)
			c.Check(err == nil && strings.Join(names, "\x00") == strings.Join(want, "\x00"), topic, "%s: iterates %q, %v, want %q", at, short(names), err, short(want))
			stop, calls := errors.New("stop"), 0
			err = ino.IterDirents(func(string, uint8, uint64) error { calls++; return stop })
			c.Check(len(nids) == 0 || err == stop && calls == 1, topic, "%s: stopping the iteration: %v after %d calls", at, err, calls)
			for name, k := range nids {
				d, err := ino.Lookup(name)
				c.Check(err == nil && d.Nid == k, topic, "%s: lookup of %q: %d, %v, iteration says %d", at, name, d.Nid, err, k)
			}
			_, err = ino.Lookup("nowhere at all")
			c.Check(errors.Is(err, fs.ErrNotExist), topic, "%s: lookup of an absent name: %v", at, err)
			for _, name := range names {
				if depth < 30 {
					visit(path.Join(p, name), nids[name], depth+1)
				}
			}
		}
	}
	visit(".", img.RootNid(), 0)
}

func readAllLimited(f fs.File, limit int) ([]byte, error) {
	b, err := io.ReadAll(io.LimitReader(f, int64(limit)+1))
	if err == nil && len(b) > limit {
		return b, errors.New("delivers more than its size")
	}
	return b, err
}

// Observe compares everything a filesystem presents with the tree it should present.
func (o Obs) Observe(c *Ctx, what string, fsys fs.FS, t Tree) {
	if o.MetaTopic == "" {
		o.MetaTopic = o.Topic
	}
	if o.LinkTopic == "" {
		o.LinkTopic = o.Topic
	}
	lfs, _ := fsys.(archivefs.ReadLinkFS)
	for k, p := range t.paths() {
		n := t[p]
		if d := strings.Count(p, "/"); d > 20 && (k+d+c.Variant)%16 > 0 && len(t.children(p)) > 0 {
			continue // of the depths of a deep tree some are looked at: they are slow to reach
		}
		at := fmt.Sprintf("%s: %q", what, p)
		// the node itself
		var fi fs.FileInfo
		var err error
		if lfs != nil {
			fi, err = lfs.StatLink(p)
		} else {
			fi, err = fs.Stat(fsys, p)
		}
		if !c.Check(err == nil, o.Topic, "%s: stat: %v", at, err) {
			continue
		}
		if p == "." {
			c.Check(fi.IsDir(), o.Topic, "%s: the root is not a directory", at)
			if o.Root {
				o.meta(c, at, fi, n)
			}
		} else {
			o.meta(c, at+" (itself)", fi, n)
			c.Check(fi.Name() == path.Base(p), o.Topic, "%s: name %q", at, fi.Name())
			if n.Kind != "link" {
				fi, err := fs.Stat(fsys, p)
				if c.Check(err == nil, o.Topic, "%s: Stat: %v", at, err) {
					o.meta(c, at+" (Stat)", fi, n)
				}
			}
		}
		switch n.Kind {
		case "file":
			if !o.SkipOpen {
				f, err := fsys.Open(p)
				if c.Check(err == nil, o.Topic, "%s: open: %v", at, err) {
					b, err := readAllLimited(f, len(n.Content)+64)
					c.Check(err == nil && bytes.Equal(b, n.Content), o.Topic, "%s: content: %d bytes, want %d, %v %s", at, len(b), len(n.Content), err, diffAt(b, n.Content))
					fi, err := f.Stat()
					if c.Check(err == nil, o.Topic, "%s: Stat of the open file: %v", at, err) {
						o.meta(c, at+" (open)", fi, n)
					}
					f.Close()
				}
			}
			_, err = fs.ReadDir(fsys, p)
			c.Check(err != nil, o.Topic, "%s: listing a file succeeds", at)
			if lfs != nil {
				_, err = lfs.ReadLink(p)
				c.Check(err != nil, o.LinkTopic, "%s: ReadLink of a file succeeds", at)
			}
			_, err = fs.Stat(fsys, p+"/x")
			c.Check(err != nil, o.Topic, "%s: stat below a file succeeds", at)
		case "link":
			if lfs != nil {
				s, err := lfs.ReadLink(p)
				c.Check(err == nil && s == n.Target, o.LinkTopic, "%s: target %q, %v, want %q", at, s, err, n.Target)
			}
		case "dir":
			l, err := fs.ReadDir(fsys, p)
			if !c.Check(err == nil, o.Topic, "%s: listing: %v", at, err) {
				continue
			}
			var got []string
			for _, e := range l {
				got = append(got, e.Name())
			}
			want := t.children(p)
			if !c.Check(strings.Join(got, "\x00") == strings.Join(want, "\x00"), o.Topic, "%s: lists %q, want %q", at, short(got), short(want)) {
				continue
			}
			for _, e := range l {
				cn := t[path.Join(p, e.Name())]
				c.Check(e.IsDir() == (cn.Kind == "dir"), o.Topic, "%s: entry %q: IsDir %v, want %s", at, e.Name(), e.IsDir(), cn.Kind)
				c.Check(kindOf(e.Type()) == cn.Kind, o.Topic, "%s: entry %q: type %v, want %s", at, e.Name(), e.Type(), cn.Kind)
				fi, err := e.Info()
				if c.Check(err == nil, o.Topic, "%s: entry %q: Info: %v", at, e.Name(), err) {
					o.meta(c, fmt.Sprintf("%s entry %q", at, e.Name()), fi, cn)
					c.Check(fi.Name() == e.Name(), o.Topic, "%s: entry %q: Info name %q", at, e.Name(), fi.Name())
				}
			}
			for _, x := range o.Probe {
				if _, ok := t[path.Join(p, x)]; !ok {
					_, err := fs.Stat(fsys, path.Join(p, x))
					c.Check(errors.Is(err, fs.ErrNotExist), o.Topic, "%s: stat of the absent %q: %v", at, x, err)
					_, err = fsys.Open(path.Join(p, x))
					c.Check(errors.Is(err, fs.ErrNotExist), o.Topic, "%s: open of the absent %q: %v", at, x, err)
				}
			}
		}
	}
}

// ObserveAny requires the filesystem to present one of several trees.
func (o Obs) ObserveAny(c *Ctx, what string, fsys fs.FS, ts ...Tree) {
	var first *Ctx
	for _, t := range ts {
		x := &Ctx{Case: c.Case, Variant: c.Variant, Seed: c.Seed, Rng: c.Rng, Stats: c.Stats}
		o.Observe(x, what, fsys, t)
		c.Checks += x.Checks
		if len(x.Bad) == 0 {
			return
		}
		if first == nil {
			first = x
		}
	}
	c.Bad = append(c.Bad, first.Bad...)
}

func short(l []string) []string {
	if len(l) > 12 {
		return append(append([]string(nil), l[:12]...), "...")
	}
	return l
}
