package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"

	"github.com/amarin/binutils"

	"github.com/amarin/gomorphy/internal/index"
	"github.com/amarin/gomorphy/internal/zverif/kit"
	"github.com/amarin/gomorphy/pkg/dag"
)

// part is a value which is stored and read on its own: what an index file is made of.
type part struct {
	name  string
	data  []byte
	want  string
	write func(*binutils.BinaryWriter) error
	fresh func() holder
	plain func(io.Reader) (string, error) // when there is a reader of plain sources
}

// holder is a value to read into and the text of what it holds.
type holder struct {
	read func(*binutils.BinaryReader) error
	show func() string
	keep func() func() string // takes a copy of the value, which can be asked for later; nil when there is no such thing
}

// read reads into a new value.
func (p part) read(rd *binutils.BinaryReader) (string, error) {
	h := p.fresh()
	if err := h.read(rd); err != nil {
		return "", err
	}
	return h.show(), nil
}

type stored interface {
	BinaryWriteTo(*binutils.BinaryWriter) error
}

// parts makes random values of every kind that can be stored on its own.
func parts(c *kit.Case, w *world) []part {
	r := c.R
	var list []part
	put := func(name string, v stored, want string, fresh func() holder) {
		buf := new(bytes.Buffer)
		if err := v.BinaryWriteTo(binutils.NewBinaryWriter(buf)); err != nil {
			c.Fail("writing %s: %v", name, err)
		}
		list = append(list, part{name: name, data: buf.Bytes(), want: want, write: v.BinaryWriteTo, fresh: fresh})
	}
	set := func(n int) index.TagSet {
		s := index.TagSet{}
		for _, v := range r.Perm(256)[:n] {
			s = append(s, dag.TagID(v))
		}
		return sortedSet(s)
	}
	lst := func(n int) index.TagSetIDCollection {
		l := make(index.TagSetIDCollection, n)
		for i := range l {
			l[i] = index.TagSetID(r.U64())
		}
		return sortedList(l)
	}
	n := kit.Pick(r, []int{0, 1, 2, 7, 40, 127, 128, 253, 254, 255})
	ts := set(n)
	put(fmt.Sprintf("a set of %d tags", n), ts, fmt.Sprint(ts), func() holder {
		got := new(index.TagSet)
		return holder{got.BinaryReadFrom, func() string { return fmt.Sprint(*got) }, func() func() string {
			v := *got
			return func() string { return fmt.Sprint(v) }
		}}
	})
	list[len(list)-1].plain = func(src io.Reader) (string, error) {
		var got index.TagSet
		_, err := got.ReadFrom(src)
		return fmt.Sprint(got), err
	}
	var tt index.TagSetTable
	size := kit.Pick(r, []int{1, 2, 3, 9, 60})
	for i := kit.Pick(r, []int{0, 1, 2, 10, 40}); i > 0; i-- {
		tt.Index(set(size))
	}
	put(fmt.Sprintf("a table of %d tag sets of %d", len(tt), size), tt, fmt.Sprint(tt), func() holder {
		got := new(index.TagSetTable)
		return holder{got.BinaryReadFrom, func() string { return fmt.Sprint(*got) }, func() func() string {
			v := *got
			return func() string { return fmt.Sprint(v) }
		}}
	})
	var ti index.TagSetIndex
	for i := kit.Pick(r, []int{0, 1, 3, 20}); i > 0; i-- {
		ti.Index(set(r.Range(1, 9)))
	}
	put(fmt.Sprintf("a registry of %d tag sets", ti.Size()), ti, fmt.Sprint(ti), func() holder {
		got := new(index.TagSetIndex)
		return holder{got.BinaryReadFrom, func() string { return fmt.Sprint(*got) }, func() func() string {
			v := *got
			return func() string { return fmt.Sprint(v) }
		}}
	})
	ln := kit.Pick(r, []int{0, 1, 2, 5, 63, 64, 128, 254, 255})
	l := lst(ln)
	put(fmt.Sprintf("a list of %d tag sets", ln), l, fmt.Sprint(l), func() holder {
		got := new(index.TagSetIDCollection)
		return holder{got.BinaryReadFrom, func() string { return fmt.Sprint(*got) }, func() func() string {
			v := *got
			return func() string { return fmt.Sprint(v) }
		}}
	})
	var vt index.VariantsTable
	size = kit.Pick(r, []int{1, 2, 3, 17})
	for i := kit.Pick(r, []int{0, 1, 2, 10, 30}); i > 0; i-- {
		vt.Index(lst(size))
	}
	put(fmt.Sprintf("a table of %d lists of %d", len(vt), size), vt, fmt.Sprint(vt), func() holder {
		got := new(index.VariantsTable)
		return holder{got.BinaryReadFrom, func() string { return fmt.Sprint(*got) }, func() func() string {
			v := *got
			return func() string { return fmt.Sprint(v) }
		}}
	})
	var vi index.VariantsIndex
	for i := kit.Pick(r, []int{0, 1, 3, 20}); i > 0; i-- {
		vi.Index(lst(r.Range(1, 6)))
	}
	put(fmt.Sprintf("a registry of %d lists", len(vi.KnownID())), vi, fmt.Sprint(vi), func() holder {
		got := new(index.VariantsIndex)
		return holder{got.BinaryReadFrom, func() string { return fmt.Sprint(*got) }, func() func() string {
			v := *got
			return func() string { return fmt.Sprint(v) }
		}}
	})
	reg := dag.NewIndex()
	for i := kit.Pick(r, []int{0, 1, 2, 30, 255}); i > 0; i-- {
		reg.Index(dag.TagName(tagName(i)), dag.TagName(kit.Pick(r, []string{"", "POST"})))
	}
	put(fmt.Sprintf("a registry of %d tags", reg.Len()), reg, fmt.Sprintf("%q", reg), func() holder {
		got := new(dag.Idx)
		return holder{got.BinaryReadFrom, func() string { return fmt.Sprintf("%q", *got) }, func() func() string {
			v := *got
			return func() string { return fmt.Sprintf("%q", v) }
		}}
	})
	tag := dag.Tag{Name: dag.TagName(tagName(r.Intn(900))), Parent: dag.TagName(tagName(r.Intn(900)))}
	put("a tag", tag, fmt.Sprintf("%q", tag), func() holder {
		got := new(dag.Tag)
		return holder{got.BinaryReadFrom, func() string { return fmt.Sprintf("%q", *got) }, func() func() string {
			v := *got
			return func() string { return fmt.Sprintf("%q", v) }
		}}
	})
	put("a tag name", tag.Name, fmt.Sprintf("%q", tag.Name), func() holder {
		got := new(dag.TagName)
		return holder{got.BinaryReadFrom, func() string { return fmt.Sprintf("%q", *got) }, func() func() string {
			v := *got
			return func() string { return fmt.Sprintf("%q", v) }
		}}
	})
	// nodes: as the index stores them, read and written on their own
	data := w.save()
	f, err := decodeFile(data)
	if err != nil || len(f.marks) != 4 {
		c.Fail("the saved form does not follow the layout: %v", err)
	}
	body := data[f.marks[3]+3:]
	items := index.NewItems()
	if err := items.BinaryReadFrom(binutils.NewBinaryReader(bytes.NewReader(body))); err != nil {
		c.Fail("reading the node section on its own: %v", err)
	}
	put(fmt.Sprintf("%d bytes of nodes", len(body)), items, string(body), func() holder {
		got := index.NewItems()
		return holder{got.BinaryReadFrom, func() string {
			buf := new(bytes.Buffer)
			if err := got.BinaryWriteTo(binutils.NewBinaryWriter(buf)); err != nil {
				return "error " + err.Error()
			}
			return buf.String()
		}, nil}
	})
	return list
}

// partsCut reads every part cut at any place.
func partsCut(c *kit.Case) {
	w := smallWorld(c, 20)
	for _, p := range parts(c, w) {
		c.Count("parts", 1)
		c.Sig(p.name, kit.HashB(p.data))
		for i := 0; i < len(p.data); i++ {
			if len(p.data) > 1500 && i > 40 && i < len(p.data)-40 && !c.R.Chance(100*600/len(p.data)+1) {
				continue
			}
			var err error
			c.NoPanic("reading "+p.name, func() { _, err = p.read(binutils.NewBinaryReader(bytes.NewReader(p.data[:i]))) })
			c.Count("damaged_reads", 1)
			if err == nil {
				c.Fail("reading the first %d of %d bytes of %s succeeded", i, len(p.data), p.name)
			}
			if p.plain != nil {
				if _, err := p.plain(bytes.NewReader(p.data[:i])); err == nil {
					c.Fail("reading the first %d of %d bytes of %s from a plain source succeeded", i, len(p.data), p.name)
				}
			}
		}
	}
	c.NonTrivial()
}

// partsDelivered reads every part from sources of every kind, with more bytes behind it.
func partsDelivered(c *kit.Case) {
	w := smallWorld(c, 20)
	for _, p := range parts(c, w) {
		c.Count("parts", 1)
		c.Sig(p.name, kit.HashB(p.data))
		for mode := range dribbleModes {
			tail := c.R.Intn(3)
			data := append(append([]byte{}, p.data...), "TI"[:tail]...)
			src := &dribble{data: data, r: c.R, mode: mode, eof: c.R.Bool()}
			br := binutils.NewBinaryReader(src)
			var got string
			var err error
			c.NoPanic("reading "+p.name, func() { got, err = p.read(br) })
			c.Count("values_read", 1)
			if err != nil || got != p.want {
				c.Fail("%s delivered %s is %.200q (%v), expected %.200q", p.name, dribbleModes[mode], got, err, p.want)
			}
			if src.at != len(p.data) || br.BytesTaken() != len(p.data) {
				c.Fail("%s delivered %s: %d bytes are taken, the reader counts %d, expected %d", p.name, dribbleModes[mode], src.at, br.BytesTaken(), len(p.data))
			}
			if len(p.data) > 0 {
				cut := c.R.Intn(len(p.data))
				src := &dribble{data: p.data[:cut], r: c.R, mode: mode, eof: c.R.Bool()}
				c.NoPanic("reading cut "+p.name, func() { _, err = p.read(binutils.NewBinaryReader(src)) })
				if err == nil {
					c.Fail("the first %d of %d bytes of %s delivered %s were read", cut, len(p.data), p.name, dribbleModes[mode])
				}
			}
		}
	}
	c.NonTrivial()
}

// partsBroken reads every part from sources that fail once somewhere before its last byte.
func partsBroken(c *kit.Case) {
	w := smallWorld(c, 20)
	for _, p := range parts(c, w) {
		p := p
		c.Count("parts", 1)
		c.Sig(p.name, kit.HashB(p.data))
		broken(c, p.name, p.data, func(src io.Reader) error {
			_, err := p.read(binutils.NewBinaryReader(src))
			return err
		})
		if p.plain != nil {
			broken(c, p.name+" (plain source)", p.data, func(src io.Reader) error {
				_, err := p.plain(src)
				return err
			})
		}
	}
	c.NonTrivial()
}

// broken reads data from sources that fail once, and go on or not, before any of its bytes.
func broken(c *kit.Case, what string, data []byte, read func(io.Reader) error) {
	for at := 0; at < len(data); at++ {
		if len(data) > 300 && at > 60 && at < len(data)-20 && !c.R.Chance(100*120/len(data)+1) {
			continue
		}
		for _, again := range []bool{true, false} {
			for mode := 0; mode < 2; mode++ {
				src := &failing{dribble: dribble{data: data, r: c.R, mode: mode * 2, eof: c.R.Bool()}, fail: at, again: again}
				var err error
				c.NoPanic("reading "+what, func() { err = read(src) })
				c.Count("source_errors", 1)
				if err == nil {
					c.Fail("reading %s of %d bytes from a source that fails at byte %d (delivering the rest when asked again: %v) succeeded", what, len(data), at, again)
				}
			}
		}
	}
}

var errSource = errors.New("the source failed")

// failing is a source that reports an error at one place.
type failing struct {
	dribble
	fail   int
	again  bool // deliver the rest afterwards
	failed bool
}

func (f *failing) Read(p []byte) (int, error) {
	if f.failed && !f.again {
		return 0, errSource
	}
	if !f.failed && f.at == f.fail {
		f.failed = true
		return 0, errSource
	}
	if !f.failed && len(p) > f.fail-f.at {
		p = p[:f.fail-f.at]
	}
	return f.dribble.Read(p)
}

// partsUsed reads parts into values that held others before.
func partsUsed(c *kit.Case) {
	w := smallWorld(c, 20)
	a, b := parts(c, w), parts(c, smallWorld(c, 20))
	for i, p := range a {
		c.Count("parts", 1)
		c.Sig(p.name, kit.HashB(p.data), b[i].name)
		h := p.fresh()
		for k, next := range []part{p, b[i], b[i], p} {
			if c.R.Chance(20) { // a read that fails in between
				_ = h.read(binutils.NewBinaryReader(bytes.NewReader(next.data[:len(next.data)/2])))
			}
			var err error
			c.NoPanic("reading "+next.name, func() { err = h.read(binutils.NewBinaryReader(bytes.NewReader(next.data))) })
			if err != nil {
				c.Fail("reading %s into a value that held %s: %v", next.name, p.name, err)
			}
			c.Count("values_read", 1)
			if got := h.show(); got != next.want {
				c.Fail("reading %s (read %d of one value) gives %.300q, expected %.300q", next.name, k, got, next.want)
			}
		}
	}
	c.NonTrivial()
}

// partsFaults writes every part to destinations that stop.
func partsFaults(c *kit.Case) {
	w := smallWorld(c, 20)
	for _, p := range parts(c, w) {
		c.Count("parts", 1)
		faults(c, p.name, p.data, func(dst io.Writer) error { return p.write(binutils.NewBinaryWriter(dst)) })
	}
	c.NonTrivial()
}

// partsKept reads one part after another into the same value, keeping copies of what it held.
func partsKept(c *kit.Case) {
	sets := [][]part{parts(c, smallWorld(c, 10)), parts(c, smallWorld(c, 20)), parts(c, smallWorld(c, 5))}
	for i, p := range sets[0] {
		h := p.fresh()
		if h.keep == nil {
			continue
		}
		c.Count("parts", 1)
		c.Sig(p.name, kit.HashB(p.data))
		type copied struct {
			name, want string
			show       func() string
		}
		var copies []copied
		for k := 0; k < 6; k++ {
			next := sets[c.R.Intn(3)][i]
			var err error
			c.NoPanic("reading "+next.name, func() { err = h.read(binutils.NewBinaryReader(bytes.NewReader(next.data))) })
			if err != nil || h.show() != next.want {
				c.Skip("storage: reading " + next.name)
			}
			for _, old := range copies {
				c.Count("copies_checked", 1)
				if got := old.show(); got != old.want {
					c.Fail("%s was read and copied; reading %s into the same variable changed the copy from %.200q to %.200q", old.name, next.name, old.want, got)
				}
			}
			copies = append(copies, copied{next.name, next.want, h.keep()})
		}
	}
	c.NonTrivial()
}
