package main

import (
	"bytes"
	"fmt"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"unicode/utf8"

	"github.com/amarin/binutils"

	"github.com/amarin/gomorphy/internal/index"
	"github.com/amarin/gomorphy/internal/zverif/kit"
	"github.com/amarin/gomorphy/pkg/dag"
)

// ---- C17 ------------------------------------------------------------------

func (w *world) unknownIDs() []dag.ID {
	n := uint32(len(w.nodes))
	ids := []dag.ID{dag.ID(n + 1), dag.ID(n + 2), 1<<31 - 1, 1 << 31, 1<<32 - 1, 1<<32 - 2, 1 << 16, 1<<16 - 1}
	for i := 0; i < 12; i++ {
		ids = append(ids, dag.ID(w.c.R.U64()), dag.ID(int(n)+1+w.c.R.Intn(int(n)+70)))
	}
	res := ids[:0]
	for _, id := range ids {
		if uint32(id) > n {
			res = append(res, id)
		}
	}
	return res
}

// queries asks everything by ids that do not exist.
func (w *world) queries() {
	c := w.c
	letters := []rune{w.letter(), 'q', 0}
	for _, id := range w.unknownIDs() {
		c.Op("queries with unknown node id %d of %d", id, len(w.nodes))
		c.Count("unknown_node_queries", 1)
		c.NoPanic(fmt.Sprintf("Get(%d)", id), func() {
			if n, err := w.idx.Get(id); err == nil {
				c.Fail("Get(%d) of %d nodes: no error, node spelling %q", id, len(w.nodes), n.Word())
			}
		})
		c.NoPanic(fmt.Sprintf("GetChildrenMap(%d)", id), func() {
			if m := w.idx.GetChildrenMap(id); len(m) != 0 {
				c.Fail("GetChildrenMap(%d) of %d nodes: %d children", id, len(w.nodes), len(m))
			}
		})
		c.NoPanic(fmt.Sprintf("GetChildrenIDMap(%d)", id), func() {
			if m := w.idx.GetChildrenIDMap(id); len(m) != 0 {
				c.Fail("GetChildrenIDMap(%d) of %d nodes: %d children", id, len(w.nodes), len(m))
			}
		})
		for _, l := range letters {
			c.NoPanic(fmt.Sprintf("FetchFromItem(%d, %q)", id, l), func() {
				if n, err := w.idx.FetchFromItem(id, []rune{l}); err == nil {
					c.Fail("FetchFromItem(%d, %q) of %d nodes found %q", id, l, len(w.nodes), n.Word())
				}
			})
			c.NoPanic(fmt.Sprintf("FetchItemFromParent(%d, %q)", id, l), func() {
				if n, err := w.idx.FetchItemFromParent(id, []rune{l, l}); err == nil {
					c.Fail("FetchItemFromParent(%d, %q) of %d nodes found %q", id, l, len(w.nodes), n.Word())
				}
			})
			c.NoPanic(fmt.Sprintf("AddToNode(%d, %q)", id, l), func() {
				if n, err := w.idx.AddToNode(id, []rune{l}); err == nil {
					c.Fail("AddToNode(%d, %q) of %d nodes added %q", id, l, len(w.nodes), n.Word())
				}
			})
		}
		node := w.idx.GetItem(id)
		if node != nil {
			w.handleSafe(fmt.Sprintf("handle of unknown node %d", id), node)
		}
	}
	// the root
	c.Op("queries of the root")
	if node := w.idx.GetItem(0); node != nil {
		w.handleSafe("root", node)
		if word := node.Word(); word != "" {
			c.Fail("the root spells %q", word)
		}
	}
	if n, err := w.idx.Get(0); err == nil && n != nil {
		if in, ok := n.(*index.Node); ok && in != nil {
			w.handleSafe("root by id", in)
			if in.Word() != "" {
				c.Fail("the root spells %q", in.Word())
			}
		}
	}
	for _, runes := range [][]rune{nil, {}} {
		c.NoPanic("FetchRunes of nothing", func() {
			if _, err := w.idx.FetchRunes(runes); err == nil {
				c.Fail("FetchRunes of no runes found something")
			}
			if _, err := w.idx.FetchItemFromParent(0, runes); err == nil {
				c.Fail("FetchItemFromParent of no runes found something")
			}
		})
	}
	// tags
	nt := len(w.tags)
	for id := nt; id < 256; id++ {
		if t, ok := w.idx.Tags().Get(dag.TagID(id)); ok {
			c.Fail("tag %d of %d is %q", id, nt, t.Name)
		}
		c.NoPanic("TagSet with unknown tag", func() {
			if ts, err := w.idx.TagSet(index.TagSet{dag.TagID(id)}); err == nil {
				c.Fail("tag set of unknown tag %d resolves to %v", id, ts)
			}
		})
		c.Count("unknown_tag_queries", 1)
	}
	if _, ok := w.idx.Tags().Find("?!?!"); ok {
		c.Fail("unknown tag name found")
	}
	// tag sets and lists
	known := map[index.TagSetID]bool{}
	tables := w.idx.TagSetIndex()
	for t, table := range tables {
		for i := range table {
			known[index.TagSetID(uint32(t)<<16|uint32(i))] = true
		}
	}
	lists := map[index.VariantID]bool{}
	f, err := decodeFile(w.save())
	if err != nil {
		c.Fail("the saved form does not follow the layout: %v", err)
	}
	for t, table := range f.variants {
		for i := range table {
			lists[index.VariantID(uint32(t+1)<<16|uint32(i))] = true
		}
	}
	probe := []uint32{0, 1, 0xffff, 0x10000, 0x1ffff, 0x7fffffff, 0x80000000, 0xffff0000, 0xffffffff}
	for t := uint32(0); t < uint32(len(tables)+3); t++ {
		n := uint32(0)
		if int(t) < len(tables) {
			n = uint32(len(tables[t]))
		}
		probe = append(probe, t<<16|n, t<<16|(n+1), t<<16|0xffff)
	}
	for t, table := range f.variants {
		probe = append(probe, uint32(t+1)<<16|uint32(len(table)), uint32(t+2)<<16, uint32(t)<<16)
	}
	for i := 0; i < 20; i++ {
		probe = append(probe, uint32(c.R.U64()), uint32(c.R.Intn(8))<<16|uint32(c.R.Intn(20)))
	}
	for _, id := range probe {
		c.Count("unknown_set_queries", 1)
		c.NoPanic(fmt.Sprintf("TagSetIndex.Get(%#x)", id), func() {
			ts, ok := w.idx.TagSetIndex().Get(index.TagSetID(id))
			if ok != known[index.TagSetID(id)] {
				c.Fail("tag set %#x: found %v (%v), known %v", id, ok, ts, !ok)
			}
			if !ok && len(ts) > 0 {
				c.Fail("unknown tag set %#x: not found but %v", id, ts)
			}
		})
		c.NoPanic(fmt.Sprintf("Variants(%#x)", id), func() {
			list, err := w.idx.Variants(index.VariantID(id))
			switch {
			case lists[index.VariantID(id)] && (err != nil || len(list) == 0):
				c.Fail("known list %#x: %v, %v", id, list, err)
			case !lists[index.VariantID(id)] && len(list) != 0:
				c.Fail("unknown list %#x: %v, %v", id, list, err)
			}
		})
	}
}

// handleSafe asks a handle that stands for no word everything.
func (w *world) handleSafe(what string, n *index.Node) {
	c := w.c
	c.Count("handle_queries", 1)
	c.NoPanic(what+": Word", func() { _ = n.Word() })
	c.NoPanic(what+": String", func() {
		if s := n.String(); !utf8.ValidString(s) {
			c.Fail("%s: text %q is no valid text", what, s)
		}
	})
	c.NoPanic(what+": TagSets", func() {
		if ts := n.TagSets(); len(ts) != 0 {
			c.Fail("%s: has tag sets %v", what, ts)
		}
	})
	c.NoPanic(what+": Item", func() { _ = n.Item() })
	c.NoPanic(what+": Id", func() { _ = n.Id() })
	if len(w.tags) > 0 {
		c.NoPanic(what+": AddTagSet", func() {
			var names []dag.TagName
			for _, id := range w.randomSet(8) {
				names = append(names, dag.TagName(w.tags[id].name))
			}
			if err := n.AddTagSet(names...); err == nil {
				c.Fail("%s: attaching %v succeeded", what, names)
			}
		})
	}
	c.NoPanic(what+": AddTagSet of nothing", func() { _ = n.AddTagSet() })
}

func c17() kit.Check {
	whole := func(c *kit.Case, w *world) {
		before, obs := w.save(), observe(w.idx)
		w.queries()
		if string(before) != string(w.save()) {
			c.Fail("queries changed what is saved")
		}
		if d := diffObs(obs, observe(w.idx)); d != "" {
			c.Fail("queries changed an answer: %s", d)
		}
		w.all(0)
		w.strict = true
		for id := 1; id <= len(w.nodes); id++ {
			n, err := w.idx.Get(dag.ID(id))
			if err != nil {
				c.Fail("Get(%d) of %d: %v", id, len(w.nodes), err)
			}
			word := n.Word()
			if _, ok := w.nodes[word]; !ok {
				c.Fail("node %d spells %q which was not added", id, word)
			}
			w.checkTagSets("by id", n, word)
			if it := n.(*index.Node).Item(); it.ID != dag.ID(id) || !strings.HasSuffix(word, string(it.Letter)) ||
				it.Parent == 0 != (word == string(it.Letter)) || (it.Variants == 0) != (len(w.words[word]) == 0) {
				c.Fail("item of node %d %q of %d tag sets: %+v", id, word, len(w.words[word]), it)
			}
			var text string
			c.NoPanic(fmt.Sprintf("String of node %d %q", id, word), func() { text = n.String() })
			w.text(text, word)
			c.NoPanic("Item.String", func() { _ = n.(*index.Node).Item().String() })
		}
		_ = fmt.Sprint(w.idx.Children())
		w.lists()
		w.all(40)
		w.sizes()
	}
	return kit.Check{
		Rule:  "A case builds a random index (or none at all) and asks it for nodes, children, continuations, tags, tag sets and lists by ids past the end, at the boundaries of the id fields and at random, and asks the root and handles of unknown nodes everything; nothing may panic, nothing unknown may be found, and afterwards saved bytes and observation are as before. Every known id and text form is checked too. Non-trivial: at least two tagged words; distinct by content." + shapeRule,
		Setup: initLogging,
		Groups: []kit.Group{
			{Name: "empty", Quick: 2, Thorough: 2, Run: func(c *kit.Case) {
				w := newWorld(c)
				w.alpha = alphabets[0]
				if c.Index == 1 {
					w.reload()
				}
				before := w.save()
				w.queries()
				if string(before) != string(w.save()) {
					c.Fail("queries changed the empty index")
				}
			}},
			{Name: "shapes", Quick: 32, Thorough: 400, Run: func(c *kit.Case) {
				w := shape(c, c.Index)
				whole(c, w)
			}},
			{Name: "history", Quick: 400, Thorough: 15000, Run: func(c *kit.Case) {
				w := newWorld(c)
				w.start(c.R.Range(0, 6))
				m := mix{failures: 2, maxSet: 5, maxLen: 6, optimizes: 4, reloads: 4}
				for i := c.R.Intn(60); i > 0; i-- {
					w.step(m)
				}
				whole(c, w)
			}},
		},
	}
}

// text checks that a node's text form is valid text that names the word: its letters occur in order, the
// prefix in one piece.
func (w *world) text(text, word string) {
	w.c.Count("texts_checked", 1)
	if !utf8.ValidString(text) {
		w.c.Fail("text form of %q is no valid text: %q", word, text)
	}
	rs := []rune(word)
	prefix, last := string(rs[:len(rs)-1]), string(rs[len(rs)-1])
	at := bytes.Index([]byte(text), []byte(prefix))
	if at < 0 || bytes.Index([]byte(text)[at+len(prefix):], []byte(last)) < 0 {
		w.c.Fail("text form of %q is %q", word, text)
	}
}

// ---- C22 ------------------------------------------------------------------

func c22() kit.Check {
	return kit.Check{
		Rule:  "A case makes random insertions (runes, tag names, tag sets, lists of tag sets, tags) twice: once with one scratch buffer per kind that is overwritten after and reused for every insertion, once with fresh buffers; contents, ids and lookups must be the same, also after scribbling over everything that was passed or returned by value. Non-trivial: at least two insertions; distinct by content.",
		Setup: initLogging,
		Groups: []kit.Group{
			{Name: "kept", Quick: 60, Thorough: 2000, Run: partsKept},
			{Name: "index", Quick: 400, Thorough: 15000, Run: func(c *kit.Case) {
				w := newWorld(c)
				w.start(c.R.Range(2, 8))
				fresh := index.New()
				for _, t := range w.tags {
					fresh.TagID(dag.TagName(t.name), dag.TagName(t.parent))
				}
				runes := make([]rune, 0, 64)
				names := make([]dag.TagName, 0, 64)
				for i := c.R.Range(2, 60); i > 0; i-- {
					word := w.freshWord(8)
					if len(w.wlist) > 0 && c.R.Chance(30) {
						word = kit.Pick(c.R, w.wlist)
					}
					rs := []rune(word)
					runes = append(runes[:0], rs...)
					c.Op("AddRunes(%q) through the scratch buffer", word)
					var n, n2 dag.Node
					var err, err2 error
					if cut := c.R.Intn(len(rs)); cut > 0 && c.R.Bool() { // through an inner node
						n, err = w.idx.AddRunes(runes[:cut])
						if err == nil {
							n, err = w.idx.AddToNode(nodeID(n), runes[cut:])
						}
					} else {
						if c.R.Bool() {
							n, err = w.idx.AddRunes(runes[:len(runes):len(runes)])
						} else {
							n, err = w.idx.AddRunes(runes)
						}
					}
					if string(runes) != word {
						c.Fail("AddRunes(%q) changed the letters it was given to %q", word, string(runes))
					}
					n2, err2 = fresh.AddRunes(append([]rune{}, rs...))
					for k := range runes[:cap(runes)] {
						runes[:cap(runes)][k] = 'Z'
					}
					if err != nil || err2 != nil {
						w.fail("lookup", "AddRunes(%q): %v %v", word, err, err2)
					}
					if nodeID(n) != nodeID(n2) || n.Word() != n2.Word() {
						c.Fail("AddRunes(%q) through a scratch buffer: node %d %q, through a fresh one %d %q", word, nodeID(n), n.Word(), nodeID(n2), n2.Word())
					}
					w.note(word)
					set := w.randomSet(5)
					names = names[:0]
					for _, id := range set {
						names = append(names, dag.TagName(w.tags[id].name))
					}
					orig := append([]dag.TagName{}, names...)
					passed := names
					if c.R.Bool() {
						passed = names[:len(names):len(names)]
					}
					err, err2 = n.AddTagSet(passed...), n2.AddTagSet(append([]dag.TagName{}, orig...)...)
					if err != nil || err2 != nil {
						w.fail("sets", "AddTagSet(%v): %v %v", orig, err, err2)
					}
					c.Count("insertions", 1)
					if fmt.Sprint(names) != fmt.Sprint(orig) {
						c.Fail("AddTagSet(%v) changed the names it was given to %v", orig, names)
					}
					for k := range names[:cap(names)] {
						names[:cap(names)][k] = "????"
					}
					if a, b := fmt.Sprint(n.TagSets()), fmt.Sprint(n2.TagSets()); a != b {
						c.Fail("tag sets of %q after overwriting the names passed: %s, with fresh names %s", word, a, b)
					}
					if w.words[word] == nil {
						w.words[word] = map[string]bool{}
						w.wlist = append(w.wlist, word)
					}
					w.words[word][canonNames(set, w.tags)] = true
				}
				if d := diffObs(observe(w.idx), observe(fresh)); d != "" {
					c.Fail("with reused buffers first, with fresh ones second: %s", d)
				}
				if a, b := w.save(), mustSave(w, fresh); string(a) != string(b) {
					c.Fail("with reused buffers other bytes are saved than with fresh ones: first difference at %d of %d", firstDiff(a, b), len(a))
				}
				w.all(0)
				w.sizes()
			}},
			{Name: "tables", Quick: 800, Thorough: 20000, Run: func(c *kit.Case) {
				var a, b index.TagSetIndex
				var va, vb index.VariantsIndex
				var ta, tb index.TagSetTable
				var la, lb index.VariantsTable
				universe := 12
				size := c.R.Range(1, 4)
				if c.R.Chance(25) { // large sets
					universe = kit.Pick(c.R, []int{20, 64, 255})
					size = c.R.Range(5, universe)
				}
				scratch := make(index.TagSet, 0, universe+4)
				lscratch := make(index.TagSetIDCollection, 0, universe+4)
				dump := func() (string, string) {
					return fmt.Sprint(a, va, ta, la), fmt.Sprint(b, vb, tb, lb)
				}
				for i := c.R.Range(2, 40); i > 0; i-- {
					vals := c.R.Perm(universe)[:c.R.Range(1, universe/2)]
					scratch = scratch[:0]
					lscratch = lscratch[:0]
					for _, v := range vals {
						scratch = append(scratch, dag.TagID(v))
						lscratch = append(lscratch, index.TagSetID(v*70000))
					}
					fresh := append(index.TagSet{}, scratch...)
					lfresh := append(index.TagSetIDCollection{}, lscratch...)
					c.Op("index %v by the scratch buffer", vals)
					if x, y := a.Index(tight(c, scratch)), b.Index(fresh); x != y {
						c.Fail("tag set %v: id %#x with a reused buffer, %#x with fresh ones", vals, x, y)
					}
					if x, y := va.Index(ltight(c, lscratch)), vb.Index(lfresh); x != y {
						c.Fail("list %v: id %#x with a reused buffer, %#x with fresh ones", vals, x, y)
					}
					c.Count("insertions", 2)
					// tables of one size
					scratch = scratch[:0]
					lscratch = lscratch[:0]
					for _, v := range c.R.Perm(universe)[:size] {
						scratch = append(scratch, dag.TagID(v))
						lscratch = append(lscratch, index.TagSetID(v))
					}
					fresh = append(index.TagSet{}, scratch...)
					lfresh = append(index.TagSetIDCollection{}, lscratch...)
					if x, y := ta.Index(tight(c, scratch)), tb.Index(fresh); x != y {
						c.Fail("table: tag set %v: id %#x with a reused buffer, %#x with fresh ones", fresh, x, y)
					}
					if x, y := la.Index(ltight(c, lscratch)), lb.Index(lfresh); x != y {
						c.Fail("table: list %v: id %#x with a reused buffer, %#x with fresh ones", lfresh, x, y)
					}
					c.Count("insertions", 2)
					for k := range scratch[:cap(scratch)] {
						scratch[:cap(scratch)][k] = 99
					}
					for k := range lscratch[:cap(lscratch)] {
						lscratch[:cap(lscratch)][k] = 99
					}
					if x, y := dump(); x != y {
						c.Fail("after overwriting the buffers the tables hold %s, with fresh buffers %s", x, y)
					}
				}
				x, _ := dump()
				c.Sig(x)
				c.NonTrivial()
			}},
			{Name: "registry", Quick: 200, Thorough: 4000, Run: func(c *kit.Case) {
				tags := make([]dag.Tag, c.R.Range(2, 20), 40)
				for i := range tags {
					tags[i] = dag.Tag{Name: dag.TagName(tagName(i)), Parent: dag.TagName(kit.Pick(c.R, []string{"", "POST"}))}
				}
				orig := append([]dag.Tag{}, tags...)
				passed := tags
				if c.R.Bool() {
					passed = tags[:len(tags):len(tags)]
				}
				reg := dag.NewIndex(passed...)
				if fmt.Sprint(tags) != fmt.Sprint(orig) {
					c.Fail("NewIndex changed the tags it was given from %v to %v", orig, tags)
				}
				c.Op("NewIndex of %d tags, then the list is overwritten", len(tags))
				for i := range tags[:cap(tags)] {
					tags[:cap(tags)][i] = dag.Tag{Name: "????", Parent: "????"}
				}
				extra := reg.Index("EXTR", "")
				for i, t := range orig {
					got, ok := reg.Get(dag.TagID(i))
					if !ok || got.Name != t.Name || string(got.Parent) != normParent(string(t.Parent)) {
						c.Fail("tag %d is %q/%q after the list passed was overwritten, expected %q", i, got.Name, got.Parent, t.Name)
					}
				}
				if int(extra) != len(orig) {
					c.Fail("next tag got id %d of %d", extra, len(orig))
				}
				c.Count("insertions", len(orig))
				c.Sig(fmt.Sprint(orig))
				c.NonTrivial()
			}},
			{Name: "listadd", Quick: 400, Thorough: 8000, Run: func(c *kit.Case) {
				// Add must never write into the list it extends, nor share memory with it
				base := make(index.TagSetIDCollection, c.R.Intn(6), 20)
				if c.R.Chance(10) { // longer ones
					base = make(index.TagSetIDCollection, kit.Pick(c.R, []int{31, 64, 127, 128, 253, 254, 255, 256, 257, 300, 1000}), 1020)
				}
				for i := range base {
					base[i] = index.TagSetID(i * 10)
				}
				was := append(index.TagSetIDCollection{}, base...)
				var made []index.TagSetIDCollection
				var want []string
				for i := c.R.Range(2, 12); i > 0; i-- {
					id := index.TagSetID(c.R.Intn(100 + 10*len(base)))
					from := base
					if c.R.Bool() {
						from = base[:len(base):len(base)]
					}
					got := from.Add(id)
					made = append(made, got)
					want = append(want, fmt.Sprint(got))
					exp := map[index.TagSetID]bool{id: true}
					for _, b := range was {
						exp[b] = true
					}
					if len(got) != len(exp) {
						c.Fail("%v.Add(%d) = %v", was, id, got)
					}
					for k, g := range got {
						if !exp[g] || (k > 0 && got[k-1] >= g) {
							c.Fail("%v.Add(%d) = %v", was, id, got)
						}
					}
					if fmt.Sprint(base) != fmt.Sprint(was) {
						c.Fail("Add(%d) changed the list it was called on from %v to %v", id, was, base)
					}
					for k := range made {
						if fmt.Sprint(made[k]) != want[k] {
							c.Fail("Add(%d) changed a list made before from %v to %v", id, want[k], made[k])
						}
					}
					c.Count("insertions", 1)
				}
				c.Sig(fmt.Sprint(want))
				c.NonTrivial()
			}},
		},
	}
}

// tight gives the buffer, sometimes without the room behind its content.
func tight(c *kit.Case, s index.TagSet) index.TagSet {
	if c.R.Bool() {
		return s[:len(s):len(s)]
	}
	return s
}

func ltight(c *kit.Case, s index.TagSetIDCollection) index.TagSetIDCollection {
	if c.R.Bool() {
		return s[:len(s):len(s)]
	}
	return s
}

func mustSave(w *world, idx *index.Index) []byte {
	data, err := saveIndex(idx)
	if err != nil {
		w.fail("storage", "saving: %v", err)
	}
	return data
}

// ---- C25 ------------------------------------------------------------------

// fileOf encodes the content of a model independently of the code, in a random admissible arrangement.
func (w *world) fileOf() *file {
	r := w.c.R
	f := &file{}
	enc := func(n string) string {
		if n == "" || n == string(dag.EmptyTagName) {
			return "    "
		}
		return n
	}
	for _, t := range w.tags {
		f.tags = append(f.tags, fileTag{enc(t.parent), enc(t.name)})
	}
	// distinct sets
	setIDs := map[string]uint32{}
	perWord := map[string][]string{}
	sets := map[string][]byte{}
	var all []string
	for _, word := range w.wlist {
		for k := range w.words[word] {
			perWord[word] = append(perWord[word], k)
			if _, ok := sets[k]; !ok {
				var ids []byte
				for id, t := range w.tags {
					tag := "," + t.name + "/" + t.parent + ","
					if bytes.Contains([]byte(","+k+","), []byte(tag)) {
						ids = append(ids, byte(id))
					}
				}
				sets[k] = ids
				all = append(all, k)
			}
		}
	}
	sort.Strings(all)
	for _, i := range r.Perm(len(all)) {
		k := all[i]
		ids := sets[k]
		for len(f.sets) < len(ids) {
			f.sets = append(f.sets, nil)
		}
		t := len(ids) - 1
		setIDs[k] = uint32(t)<<16 | uint32(len(f.sets[t]))
		f.sets[t] = append(f.sets[t], ids)
	}
	// lists
	listIDs := map[string]uint32{}
	listOf := func(word string) uint32 {
		ks := perWord[word]
		if len(ks) == 0 {
			return 0
		}
		var l []uint32
		for _, k := range ks {
			l = append(l, setIDs[k])
		}
		sort.Slice(l, func(a, b int) bool { return l[a] < l[b] })
		key := fmt.Sprint(l)
		if id, ok := listIDs[key]; ok {
			return id
		}
		for len(f.variants) < len(l) {
			f.variants = append(f.variants, nil)
		}
		t := len(l) - 1
		if r.Chance(10) && len(f.sets) > 0 { // a list that no word uses, as earlier compilations left them
			if t == 0 && len(all) > 0 {
				f.variants[t] = append(f.variants[t], []uint32{setIDs[all[0]]})
			}
		}
		id := uint32(t+1)<<16 | uint32(len(f.variants[t]))
		f.variants[t] = append(f.variants[t], l)
		listIDs[key] = id
		return id
	}
	// nodes, a parent before its children, in a random order
	f.items = []fileItem{{}}
	ids := map[string]uint32{"": 0}
	ready := []string{""}
	for len(ready) > 0 {
		i := r.Intn(len(ready))
		p := ready[i]
		ready[i] = ready[len(ready)-1]
		ready = ready[:len(ready)-1]
		if p != "" {
			rs := []rune(p)
			id := uint32(len(f.items))
			ids[p] = id
			f.items = append(f.items, fileItem{ids[string(rs[:len(rs)-1])], id, uint32(rs[len(rs)-1]), listOf(p)})
		}
		var ls []rune
		for l := range w.kids[p] {
			ls = append(ls, l)
		}
		sort.Slice(ls, func(a, b int) bool { return ls[a] < ls[b] })
		for _, l := range ls {
			ready = append(ready, p+string(l))
		}
	}
	return f
}

// checkFile checks that a decoded file describes the content of the model.
func (w *world) checkFile(f *file) {
	c := w.c
	if len(f.tags) != len(w.tags) {
		c.Fail("the file has %d tags, expected %d", len(f.tags), len(w.tags))
	}
	dec := func(n string) string {
		if n == "    " {
			return string(dag.EmptyTagName)
		}
		return n
	}
	for i, t := range f.tags {
		want := w.tags[i]
		if dec(t.name) != normParent(want.name) || dec(t.parent) != want.parent {
			c.Fail("tag %d in the file is %q/%q, expected %q/%q", i, t.name, t.parent, want.name, want.parent)
		}
	}
	for t, table := range f.sets {
		seen := map[string]bool{}
		for i, s := range table {
			if len(s) != t+1 {
				c.Fail("tag set %d.%d in the file has %d tags", t, i, len(s))
			}
			if seen[string(s)] {
				c.Fail("tag set %v is twice in the file", s)
			}
			seen[string(s)] = true
			for k, id := range s {
				if int(id) >= len(f.tags) || (k > 0 && s[k-1] >= id) {
					c.Fail("tag set %d.%d in the file: %v", t, i, s)
				}
			}
		}
	}
	set := func(id uint32) (string, bool) {
		t, i := int(id>>16), int(id&0xffff)
		if t >= len(f.sets) || i >= len(f.sets[t]) {
			return "", false
		}
		var names []string
		for _, tag := range f.sets[t][i] {
			names = append(names, w.tags[tag].name+"/"+w.tags[tag].parent)
		}
		sort.Strings(names)
		res := ""
		for k, n := range names {
			if k > 0 {
				res += ","
			}
			res += n
		}
		return res, true
	}
	for t, table := range f.variants {
		for i, l := range table {
			if len(l) != t+1 {
				c.Fail("list %d.%d in the file has %d tag sets", t, i, len(l))
			}
		}
	}
	if len(f.items) != len(w.nodes)+1 || f.items[0] != (fileItem{}) {
		c.Fail("the file has %d items, first %+v; expected %d nodes and an empty root", len(f.items), f.items[0], len(w.nodes))
	}
	word := make([]string, len(f.items))
	for i, it := range f.items {
		if i == 0 {
			continue
		}
		if it.id != uint32(i) || int(it.parent) >= i {
			c.Fail("item %d in the file: %+v", i, it)
		}
		word[i] = word[it.parent] + string(rune(it.letter))
		if known := w.nodes[word[i]]; known != dag.ID(i) && known != 0 {
			c.Fail("item %d in the file spells %q, which the index has as %d", i, word[i], known)
		}
		if _, ok := w.nodes[word[i]]; !ok {
			c.Fail("item %d in the file spells %q, which was never added", i, word[i])
		}
		want := w.words[word[i]]
		if it.variants == 0 {
			if len(want) != 0 {
				c.Fail("item %d (%q) in the file has no list, expected %v", i, word[i], keys(want))
			}
			continue
		}
		t, k := int(it.variants>>16)-1, int(it.variants&0xffff)
		if t < 0 || t >= len(f.variants) || k >= len(f.variants[t]) {
			c.Fail("item %d (%q) in the file has unknown list %#x", i, word[i], it.variants)
		}
		got := map[string]bool{}
		for _, id := range f.variants[t][k] {
			s, ok := set(id)
			if !ok || !want[s] || got[s] {
				c.Fail("item %d (%q) in the file has tag set %#x [%s], expected one of %v", i, word[i], id, s, keys(want))
			}
			got[s] = true
		}
		if len(got) != len(want) {
			c.Fail("item %d (%q) in the file has %v, expected %v", i, word[i], keys(got), keys(want))
		}
		c.Count("file_lists_checked", 1)
	}
	c.Count("file_items_checked", len(f.items))
}

func c25() kit.Check {
	return kit.Check{
		Rule:  "A case makes random content; it is saved by the code and decoded by an independent decoder, which must find exactly the content in the fixed layout; and it is encoded by an independent encoder in a random admissible arrangement (order of nodes, tag sets and lists, lists no word uses), loaded by the code and compared with the model, then extended further. Non-trivial: at least two tagged words; distinct by content." + shapeRule,
		Setup: initLogging,
		Groups: []kit.Group{
			{Name: "big", Quick: 2, Thorough: 10, Run: func(c *kit.Case) {
				w := bigWorld(c, 3000, 200, 700, alphabets[4])
				w.all(0)
				f, err := decodeFile(w.save())
				if err != nil {
					c.Fail("the saved form does not follow the layout: %v", err)
				}
				w.checkFile(f)
				w.all(200)
				w.fromFile()
				w.strict = true
				w.all(2000)
				w.sizes()
			}},
			{Name: "shapes", Quick: 32, Thorough: 600, Run: func(c *kit.Case) {
				w := shape(c, c.Index)
				w.all(200)
				f, err := decodeFile(w.save())
				if err != nil {
					c.Fail("the saved form does not follow the layout: %v", err)
				}
				w.checkFile(f)
				w.fromFile()
				w.strict = true
				w.all(300)
				w.tree()
				w.sizes()
			}},
			{Name: "write", Quick: 600, Thorough: 25000, Run: func(c *kit.Case) {
				w := newWorld(c)
				w.start(c.R.Range(0, 8))
				m := mix{failures: 2, maxSet: 5, maxLen: 8, optimizes: 4, reloads: 4}
				if c.R.Chance(10) {
					m.maxSet, m.maxLen = 60, 60
				}
				for i := c.R.Intn(80); i > 0; i-- {
					w.step(m)
				}
				w.all(0)
				data := w.save()
				f, err := decodeFile(data)
				if err != nil {
					c.Op("bytes %x", head(data))
					c.Fail("the saved form does not follow the layout: %v", err)
				}
				w.checkFile(f)
				if got := f.encode(); string(got) != string(data) {
					c.Fail("harness: encoding what was decoded differs")
				}
				w.sizes()
			}},
			{Name: "read", Quick: 500, Thorough: 20000, Run: func(c *kit.Case) {
				w := newWorld(c)
				w.start(c.R.Range(0, 8))
				m := mix{failures: 2, maxSet: 5, maxLen: 8}
				for i := c.R.Intn(80); i > 0; i-- {
					w.step(m)
				}
				w.all(200)
				w.fromFile()
				w.strict = true
				w.all(0)
				w.tree()
				for i := c.R.Intn(20); i > 0; i-- {
					w.step(mix{failures: 4, maxSet: 5, maxLen: 8, optimizes: 5})
				}
				w.all(0)
				w.sizes()
			}},
			{Name: "tag255", Quick: 4, Thorough: 30, Run: func(c *kit.Case) {
				w := newWorld(c)
				w.pickAlphabet()
				for i := 0; i < 255; i++ {
					w.addTag(tagName(i), kit.Pick(c.R, []string{"", "----", tagName(c.R.Intn(255))}))
				}
				for i := 0; i < 30; i++ {
					word := w.freshWord(5)
					w.attach(w.add(word), word, w.randomSet(255))
				}
				w.all(0)
				f, err := decodeFile(w.save())
				if err != nil {
					c.Fail("the saved form does not follow the layout: %v", err)
				}
				w.checkFile(f)
				w.all(200)
				w.fromFile()
				w.strict = true
				w.all(0)
				w.sizes()
			}},
		},
	}
}

// fromFile replaces the index by one loaded from an independently encoded file with the same content.
func (w *world) fromFile() {
	f := w.fileOf()
	data := f.encode()
	w.c.Op("load an independently encoded file of %d bytes", len(data))
	idx, err := loadIndex(data)
	if err != nil {
		w.c.Fail("loading an independently encoded file: %v", err)
	}
	w.c.Count("independent_files_loaded", 1)
	w.idx, w.handles = idx, nil
	// ids of nodes are those of the file
	word := make([]string, len(f.items))
	for i, it := range f.items {
		if i > 0 {
			word[i] = word[it.parent] + string(rune(it.letter))
			w.nodes[word[i]] = dag.ID(i)
		}
	}
	for i := 0; i < 200 && i < len(f.items)-1; i++ {
		id := 1 + w.c.R.Intn(len(f.items)-1)
		it := w.idx.GetItem(dag.ID(id)).Item()
		if uint32(it.Parent) != f.items[id].parent || uint32(it.Letter) != f.items[id].letter || uint32(it.ID) != f.items[id].id {
			w.c.Fail("item %d of the file %+v was loaded as %+v", id, f.items[id], it)
		}
	}
}

// ---- C12 ------------------------------------------------------------------

// answers of one reader, computed alone first.
func (w *world) answer(kind int, p string, id dag.ID) string {
	idx := w.idx
	switch kind {
	case 0, 1:
		n, err := idx.FetchString(p)
		if err != nil {
			return "miss"
		}
		return fmt.Sprint(nodeID(n), n.Word(), n.TagSets(), n.String())
	case 2:
		n, err := idx.FetchRunes([]rune(p))
		if err != nil {
			return "miss"
		}
		return fmt.Sprint(nodeID(n), n.TagSets())
	case 3:
		n, err := idx.FetchItemFromParent(id, []rune(p))
		if err != nil {
			return "miss"
		}
		return fmt.Sprint(n.Id(), n.Item(), n.Word())
	case 4:
		n, err := idx.Get(id)
		if err != nil {
			return "no node"
		}
		return fmt.Sprint(n.Word(), n.TagSets())
	case 5:
		m := idx.GetChildrenMap(id)
		ks := make([]string, 0, len(m))
		for l, n := range m {
			ks = append(ks, fmt.Sprint(l, nodeID(n), n.Word()))
		}
		sort.Strings(ks)
		return fmt.Sprint(ks)
	case 6:
		m := idx.GetChildrenIDMap(id)
		ks := make([]string, 0, len(m))
		for l, n := range m {
			ks = append(ks, fmt.Sprint(l, n))
		}
		sort.Strings(ks)
		return fmt.Sprint(ks)
	case 7:
		tags := idx.Tags()
		tid, ok := tags.Find(dag.TagName(tagName(int(id) % 300)))
		t, ok2 := tags.Get(dag.TagID(id % 256))
		return fmt.Sprint(tid, ok, t, ok2, tags.Len(), idx.WordsCount(), idx.NodesCount())
	case 8:
		ts := idx.TagSetIndex()
		s, ok := ts.Get(index.TagSetID(uint32(id%4)<<16 | uint32(id/4%8)))
		var fid index.TagSetID
		var found bool
		if ok {
			fid, found = ts.Find(s)
		}
		full, err := idx.TagSet(s)
		return fmt.Sprint(s, ok, fid, found, full, err, ts.Size())
	case 9:
		if id != 0 && int(id) <= len(w.nodes) {
			l, err := idx.Variants(idx.GetItem(id).Item().Variants)
			return fmt.Sprint(l, err)
		}
		l, _ := idx.Variants(0)
		return fmt.Sprint(l)
	case 10:
		data, err := saveIndex(idx)
		return fmt.Sprint(kit.HashB(data), err)
	case 11:
		n, err := idx.FetchFromItem(id, []rune(p))
		if err != nil {
			return "miss"
		}
		return fmt.Sprint(nodeID(n), n.Word())
	case 12:
		return fmt.Sprint(len(idx.Children()))
	}
	return ""
}

func c12() kit.Check {
	run := func(c *kit.Case, w *world, goroutines, perG int) {
		switch c.Index % 4 {
		case 1:
			w.reload()
		case 2:
			w.optimize()
		case 3:
			w.optimize()
			w.reload()
		}
		c.Op("%d goroutines with %d reads each on an index of %d words, form %d (0 built, 1 loaded, 2 optimized, 3 optimized and loaded)", goroutines, perG, len(w.words), c.Index%4)
		type q struct {
			kind int
			p    string
			id   dag.ID
			want string
		}
		plans := make([][]q, goroutines)
		// every handle is also shared between goroutines
		for g := range plans {
			for k := 0; k < perG; k++ {
				x := q{kind: c.R.Intn(13), id: dag.ID(c.R.Intn(len(w.nodes) + 4))}
				if x.kind == 10 && c.R.Chance(80) {
					x.kind = 0
				}
				x.p = w.nonWord()
				if c.R.Chance(60) && len(w.list) > 0 {
					x.p = kit.Pick(c.R, w.list)
				}
				plans[g] = append(plans[g], x)
			}
		}
		var shared []handle
		for i := 0; i < 8 && len(w.list) > 0 && c.Index%8 < 4; i++ { // the others are asked for nothing before
			p := kit.Pick(c.R, w.list)
			n, err := w.idx.FetchString(p)
			if err != nil {
				c.Fail("FetchString(%q): %v", p, err)
			}
			shared = append(shared, handle{n, p})
		}
		seeds := make([]uint64, goroutines)
		for g := range seeds {
			seeds[g] = c.R.U64()
		}
		// The concurrent phase comes first, so that nothing an earlier lookup might have cached is in place.
		var wg sync.WaitGroup
		start := make(chan struct{})
		got := make([][]string, goroutines)
		panics := make([]string, goroutines)
		for g := range plans {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				defer func() {
					if p := recover(); p != nil {
						panics[g] = fmt.Sprint(p)
					}
				}()
				r := kit.NewRand(seeds[g])
				<-start
				for _, x := range plans[g] {
					if r.Chance(20) {
						runtime.Gosched()
					}
					got[g] = append(got[g], w.answer(x.kind, x.p, x.id))
					if len(shared) > 0 && r.Chance(20) {
						h := shared[r.Intn(len(shared))]
						if word := h.node.Word(); word != h.word {
							panics[g] = fmt.Sprintf("shared handle of %q spells %q", h.word, word)
						}
						_ = h.node.TagSets()
					}
				}
			}(g)
		}
		close(start)
		wg.Wait()
		for g := range plans {
			if panics[g] != "" {
				c.Fail("goroutine %d of %d: %s", g, goroutines, panics[g])
			}
			for k, x := range plans[g] {
				if want := w.answer(x.kind, x.p, x.id); got[g][k] != want {
					c.Fail("goroutine %d of %d: read kind %d (%q, %d) gave %.300s, alone it gives %.300s", g, goroutines, x.kind, x.p, x.id, got[g][k], want)
				}
				c.Count("concurrent_reads", 1)
			}
		}
		c.Seen("answers", kit.Hash(fmt.Sprint(got)))
		w.all(30)
		w.sizes()
	}
	return kit.Check{
		Rule:  "A case builds, loads or optimizes a random index and lets 2 to 16 goroutines read it at the same time by a random plan of 13 kinds of reads (hits, misses, unknown ids, shared handles, tag sets, children, registries, saving); each answer is compared with the answer given alone afterwards, and the race detector (in the race build) watches all of it. Non-trivial: at least two tagged words; distinct by content and number of goroutines." + shapeRule,
		Setup: initLogging,
		Groups: []kit.Group{
			{Name: "storm", Quick: 60, Thorough: 1200, Serial: true, Run: func(c *kit.Case) {
				w := smallWorld(c, 60)
				g := c.R.Range(2, 16)
				c.Sig(g)
				run(c, w, g, c.R.Range(20, 120))
			}},
			{Name: "shapes", Quick: 16, Thorough: 200, Serial: true, Run: func(c *kit.Case) {
				w := shape(c, c.Index)
				run(c, w, c.R.Range(2, 8), 60)
			}},
			{Name: "big", Quick: 4, Thorough: 24, Serial: true, Run: func(c *kit.Case) {
				w := bigWorld(c, kit.Pick(c.R, []int{300, 1500, 2600}), 60, 200, alphabets[3])
				run(c, w, 8, 300)
			}},
			{Name: "registries", Quick: 40, Thorough: 800, Serial: true, Run: func(c *kit.Case) {
				var tsi index.TagSetIndex
				var vi index.VariantsIndex
				var sets []index.TagSet
				var lists []index.TagSetIDCollection
				var sid []index.TagSetID
				var vid []index.VariantID
				var anyS []index.TagSet // the same in any order, which searching may not find, but must not put in order either
				var anyL []index.TagSetIDCollection
				most := c.R.Range(5, 14)
				for i := 0; i < 60; i++ {
					var s index.TagSet
					var l index.TagSetIDCollection
					for _, v := range c.R.Perm(20)[:c.R.Range(1, most)] {
						s = append(s, dag.TagID(v))
						l = append(l, index.TagSetID(v))
					}
					anyS, anyL = append(anyS, append(index.TagSet{}, s...)), append(anyL, append(index.TagSetIDCollection{}, l...))
					s.Sort()
					sort.Sort(l)
					sets, lists = append(sets, s), append(lists, l)
					sid = append(sid, tsi.Index(append(index.TagSet{}, s...)))
					vid = append(vid, vi.Index(append(index.TagSetIDCollection{}, l...)))
				}
				ask := func(i int) string {
					id, ok := tsi.Find(anyS[i])
					vid, vok := vi.Find(anyL[i])
					sub, sok := tsi[len(anyS[i])-1].Find(anyS[i])
					vsub, vsok := vi[len(anyL[i])-1].Find(anyL[i])
					return fmt.Sprint(id, ok, vid, vok, sub, sok, vsub, vsok)
				}
				asked := make([][]string, 8)
				wasS, wasL := fmt.Sprint(anyS), fmt.Sprint(anyL)
				reg := dag.NewIndex()
				for i := 0; i < 60; i++ {
					reg.Index(dag.TagName(tagName(i)), "")
				}
				var wg sync.WaitGroup
				bad := make([]string, 8)
				for g := 0; g < 8; g++ {
					wg.Add(1)
					go func(g int) {
						defer wg.Done()
						r := kit.NewRand(uint64(g), uint64(c.Index))
						for k := 0; k < 200; k++ {
							i := r.Intn(len(sets))
							asked[g] = append(asked[g], fmt.Sprint(i), ask(i))
							if id, ok := tsi.Find(sets[i]); !ok || id != sid[i] {
								bad[g] = fmt.Sprintf("tag set %v: %#x %v, expected %#x", sets[i], id, ok, sid[i])
							}
							if s, ok := tsi.Get(sid[i]); !ok || !s.EqualTo(sets[i]) {
								bad[g] = fmt.Sprintf("tag set %#x: %v, expected %v", sid[i], s, sets[i])
							}
							if id, ok := vi.Find(lists[i]); !ok || id != vid[i] {
								bad[g] = fmt.Sprintf("list %v: %#x %v, expected %#x", lists[i], id, ok, vid[i])
							}
							if l := vi.Get(vid[i]); !l.EqualTo(lists[i]) {
								bad[g] = fmt.Sprintf("list %#x: %v, expected %v", vid[i], l, lists[i])
							}
							if id, ok := reg.Find(dag.TagName(tagName(i))); !ok || int(id) != i {
								bad[g] = fmt.Sprintf("tag %d: %d %v", i, id, ok)
							}
							if k%50 == 0 {
								buf := new(bytes.Buffer)
								_ = tsi.BinaryWriteTo(binutils.NewBinaryWriter(buf))
								_ = vi.BinaryWriteTo(binutils.NewBinaryWriter(buf))
								_ = reg.BinaryWriteTo(binutils.NewBinaryWriter(buf))
								_ = tsi.Size()
								_ = vi.KnownID()
							}
						}
					}(g)
				}
				wg.Wait()
				for _, b := range bad {
					if b != "" {
						c.Fail("concurrent reads: %s", b)
					}
				}
				if fmt.Sprint(anyS) != wasS || fmt.Sprint(anyL) != wasL {
					c.Fail("concurrent searches changed what was searched for")
				}
				for g := range asked {
					for k := 0; k < len(asked[g]); k += 2 {
						i, _ := strconv.Atoi(asked[g][k])
						if alone := ask(i); asked[g][k+1] != alone {
							c.Fail("searching for %v and %v gave %s, alone it gives %s", anyS[i], anyL[i], asked[g][k+1], alone)
						}
					}
				}
				c.Count("concurrent_reads", 8*200)
				c.Sig(fmt.Sprint(sets))
				c.NonTrivial()
			}},
		},
	}
}
