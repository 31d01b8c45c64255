package main

import (
	"fmt"

	"github.com/amarin/logging"

	"github.com/amarin/gomorphy/internal/index"
	"github.com/amarin/gomorphy/internal/zverif/kit"
	"github.com/amarin/gomorphy/pkg/dag"
)

func initLogging(string) error { return logging.Init() }

// mix is the mixture of operations of a history.
type mix struct {
	reloads, optimizes int // percent
	failures           int // percent of failing operations
	maxSet, maxLen     int
}

func (w *world) start(nTags int) {
	w.pickAlphabet()
	w.c.Sig(fmt.Sprint(w.alpha))
	for i := 0; i < nTags; i++ {
		w.addTag(w.randomTag())
	}
}

// step makes one random operation.
func (w *world) step(m mix) {
	r := w.c.R
	k := r.Intn(100)
	if k < m.reloads {
		w.reload()
		return
	}
	if k -= m.reloads; k < m.optimizes {
		w.optimize()
		return
	}
	if k -= m.optimizes; k < m.failures {
		w.failing()
		return
	}
	switch k := r.Intn(100); {
	case k < 6:
		if len(w.tags) < 250 {
			w.addTag(w.randomTag())
		}
	case k < 24:
		w.add(w.freshWord(m.maxLen))
	case k < 60: // new word with tag sets
		word := w.freshWord(m.maxLen)
		n := w.add(word)
		for i := 1 + r.Intn(2); i > 0; i-- {
			if s := w.randomSet(m.maxSet); len(s) > 0 {
				w.attach(n, word, s)
				w.checkNode("after attaching", n, word)
			}
		}
	case k < 75: // old word, or a prefix
		if len(w.list) == 0 {
			return
		}
		word := kit.Pick(r, w.list)
		if len(w.wlist) > 0 && r.Bool() {
			word = kit.Pick(r, w.wlist)
		}
		n := w.handleFor(word)
		if s := w.randomSet(m.maxSet); len(s) > 0 {
			w.attach(n, word, s)
			w.checkNode("after attaching", n, word)
		}
	case k < 85: // a handle taken earlier
		if len(w.handles) == 0 {
			return
		}
		h := kit.Pick(r, w.handles)
		w.checkNode("earlier handle", h.node, h.word)
		if s := w.randomSet(m.maxSet); len(s) > 0 && r.Bool() {
			w.attach(h.node, h.word, s)
			w.checkNode("earlier handle", h.node, h.word)
			w.c.Count("stale_handle_uses", 1)
		}
	case k < 95:
		if len(w.list) > 0 {
			w.hit(kit.Pick(r, w.list))
		}
		w.miss(w.nonWord())
	default:
		w.counts()
	}
}

// failing makes an operation that must be refused and change nothing.
func (w *world) failing() {
	r := w.c.R
	w.c.Count("failing_operations", 1)
	switch r.Intn(6) {
	case 0:
		w.c.Op(`AddString("")`)
		if _, err := w.idx.AddString(""); err == nil {
			w.fail("refuse", "adding the empty word succeeded")
		}
	case 1:
		w.c.Op(`AddRunes(nil)`)
		if _, err := w.idx.AddRunes(nil); err == nil {
			w.fail("refuse", "adding no runes succeeded")
		}
	case 2:
		id := dag.ID(len(w.nodes) + 1 + r.Intn(5))
		w.c.Op(`AddToNode(%d (unknown), "ab")`, id)
		if _, err := w.idx.AddToNode(id, []rune("ab")); err == nil {
			w.fail("refuse-node", "adding to unknown node %d succeeded", id)
		}
	case 3, 4:
		if len(w.list) == 0 {
			return
		}
		word := kit.Pick(r, w.list)
		n := w.handleFor(word)
		w.attachUnknown(n, word, w.randomSet(4))
		w.checkNode("after refused attachment", n, word)
	case 5:
		if len(w.list) == 0 {
			return
		}
		word := kit.Pick(r, w.list)
		n := w.handleFor(word)
		w.attach(n, word, nil)
		w.checkNode("after attaching nothing", n, word)
	}
	w.counts()
}

func (w *world) sizes() {
	w.c.Max("nodes", len(w.nodes))
	w.c.Max("words", len(w.words))
	w.c.Max("tags", len(w.tags))
	w.c.Sig(len(w.nodes), len(w.words), len(w.tags), kit.Hash(fmt.Sprint(w.wlist)))
	if len(w.words) >= 2 && len(w.tags) >= 1 {
		w.c.NonTrivial()
	}
}

// ---- big worlds -----------------------------------------------------------

// bigWorld fills an index with n distinct words, w.wlist gets them all; tag sets from a pool.
func bigWorld(c *kit.Case, n, nTags, sets int, alpha []rune) *world {
	w := newWorld(c)
	w.alpha = alpha
	pool := w.bigTags(nTags, sets)
	for i := 0; i < 20; i++ { // the first of them of any letters
		w.alpha = alphabets[c.R.Intn(len(alphabets))]
		word := w.freshWord(5)
		w.attach(w.add(word), word, pool[c.R.Intn(len(pool))])
	}
	w.alpha = alpha
	w.grow(n, pool)
	c.Op("%d words, %d nodes, %d tags, pool of %d tag sets", len(w.words), len(w.nodes), nTags, sets)
	return w
}

// bigTags registers tags and makes a pool of tag sets.
func (w *world) bigTags(nTags, sets int) [][]int {
	c := w.c
	for i := 0; i < nTags; i++ {
		p := ""
		if i > 0 {
			p = tagName(c.R.Intn(i))
		}
		w.addTag(tagName(i), p)
	}
	pool := make([][]int, sets)
	for i := range pool {
		pool[i] = w.randomSet(10)
	}
	return pool
}

// grow adds tagged words until there are n.
func (w *world) grow(n int, pool [][]int) {
	c := w.c
	for len(w.words) < n {
		var rs []rune
		for k := c.R.Range(3, 12); k > 0; k-- {
			rs = append(rs, w.letter())
		}
		word := string(rs)
		node, err := w.idx.AddRunes(rs)
		if err != nil {
			w.fail("lookup", "adding %q: %v", word, err)
		}
		w.note(word)
		w.nodes[word] = nodeID(node)
		for k := c.R.Range(1, 3); k > 0; k-- {
			set := kit.Pick(c.R, pool)
			names := make([]dag.TagName, len(set))
			for i, id := range set {
				names[i] = dag.TagName(w.tags[id].name)
			}
			if err := node.AddTagSet(names...); err != nil {
				w.fail("sets", "attaching to %q: %v", word, err)
			}
			if w.words[word] == nil {
				w.words[word] = map[string]bool{}
				w.wlist = append(w.wlist, word)
			}
			w.words[word][canonNames(set, w.tags)] = true
			c.Count("tagset_attachments", 1)
		}
		c.Count("words_added", 1)
	}
}

// ---- C01 ------------------------------------------------------------------

func c01() kit.Check {
	return kit.Check{
		Rule:  "A case is a random history of tag registrations, word additions (three ways), tag set attachments (fresh, looked up and earlier handles; unknown tags; no tags) and lookups on one index, mirrored by a map model; at its end every prefix and several near misses are looked up. Non-trivial: at least two tagged words and a tag; distinct by final content. Two indexes hold a word for every letter of Unicode, and for thousands of pairs of letters and marks that look like one letter." + shapeRule,
		Setup: initLogging,
		Groups: []kit.Group{
			lettersGroup(2, 8, false),
			{Name: "deep", Quick: 8, Thorough: 60, Run: func(c *kit.Case) { // very long words
				w := newWorld(c)
				w.start(5)
				for i := 0; i < 3; i++ {
					var rs []rune
					k := c.R.Range(500, 3000)
					if c.Index%8 == 0 && i == 0 { // an extremely long one
						k = c.R.Range(8300, 9000)
					}
					for ; k > 0; k-- {
						rs = append(rs, w.letter())
					}
					word := string(rs)
					n := w.add(word)
					w.attach(n, word, w.randomSet(3))
					w.hit(word)
					w.miss(word + "\x01\x02")
				}
				w.all(40)
				w.sizes()
			}},
			{Name: "big", Quick: 4, Thorough: 24, Run: func(c *kit.Case) {
				w := bigWorld(c, c.R.Range(4000, 16000), c.R.Range(20, 255), c.R.Range(50, 3000), kit.Pick(c.R, alphabets[3:5]))
				w.all(4000)
				w.sizes()
			}},
			{Name: "huge", Quick: 1, Thorough: 4, Run: func(c *kit.Case) { // well over 100 000 nodes
				w := bigWorld(c, 30000, 60, 300, alphabets[3])
				w.all(2000)
				w.sizes()
			}},
			{Name: "shapes", Quick: 32, Thorough: 600, Run: func(c *kit.Case) {
				w := shape(c, c.Index)
				w.all(400)
				for i := 0; i < 20; i++ {
					w.step(mix{failures: 20, maxSet: 4, maxLen: 6})
				}
				w.all(400)
				w.sizes()
			}},
			{Name: "widetags", Quick: 12, Thorough: 100, Run: func(c *kit.Case) { // sets of any size, all tags
				w := newWorld(c)
				w.pickAlphabet()
				n := c.R.Range(100, 255)
				for i := 0; i < n; i++ {
					w.addTag(tagName(i), "")
				}
				for i := 0; i < 60; i++ {
					word := w.freshWord(3)
					node := w.add(word)
					w.attach(node, word, w.randomSet(n))
					w.checkNode("after attaching", node, word)
				}
				w.all(0)
				w.sizes()
			}},
			{Name: "manysets", Quick: 8, Thorough: 60, Run: func(c *kit.Case) { // many tag sets on one word
				w := newWorld(c)
				w.start(12)
				word := w.freshWord(4)
				node := w.add(word)
				other := w.freshWord(4)
				for i := kit.Pick(c.R, []int{150, 150, 400, 700}); i > 0; i-- { // more than can be saved, too
					set := w.randomSet(8)
					w.attach(node, word, set)
					if c.R.Chance(40) {
						w.attach(w.add(other), other, set)
					}
				}
				w.all(0)
				w.sizes()
				c.Max("tag_sets_on_a_word", len(w.words[word]))
			}},
			{Name: "history", Quick: 1500, Thorough: 60000, Run: func(c *kit.Case) {
				w := newWorld(c)
				w.start(c.R.Intn(7))
				m := mix{failures: 8, maxSet: 5, maxLen: 8}
				if c.R.Chance(10) {
					m.maxSet, m.maxLen = 40, 80
				}
				for i := c.R.Range(5, 120); i > 0; i-- {
					w.step(m)
				}
				w.all(0)
				w.sizes()
			}},
		},
	}
}

// ---- C02 ------------------------------------------------------------------

func c02() kit.Check {
	return kit.Check{
		Rule:  "A case builds an index by a random history (with saves, loads and optimizations), writes it, reads it into a new index, compares the complete observation of both (every node id, parent, letter, spelling, lookup, tag sets in order, children, tags, counts), then makes the same further additions to both and compares again. Indexes of exactly 2^7 to 2^15 nodes, tag sets and lists, one less and one more, are among them. Non-trivial: at least two tagged words; distinct by final content. So are an index with a word for every letter of Unicode and one with thousands of pairs of letters and marks." + shapeRule,
		Setup: initLogging,
		Groups: []kit.Group{
			lettersGroup(2, 8, true),
			{Name: "filled", Quick: 1, Thorough: 6, Run: func(c *kit.Case) {
				w := filled(c, c.R.Range(6000, 12000), 120)
				w.reload()
				w.all(3000)
				w.tree()
				w.sizes()
			}},
			{Name: "big", Quick: 3, Thorough: 20, Run: func(c *kit.Case) {
				w := bigWorld(c, c.R.Range(3000, 12000), c.R.Range(20, 255), c.R.Range(50, 2000), kit.Pick(c.R, alphabets[3:5]))
				w.reload()
				w.all(3000)
				w.tree()
				w.sizes()
			}},
			{Name: "shapes", Quick: 32, Thorough: 600, Run: func(c *kit.Case) {
				w := shape(c, c.Index)
				a := observe(w.idx)
				w.reload()
				if d := diffObs(a, observe(w.idx)); d != "" {
					c.Fail("loaded index differs from the original: %s", d)
				}
				w.all(300)
				for i := 0; i < 20; i++ {
					w.step(mix{failures: 5, maxSet: 4, maxLen: 6, reloads: 5})
				}
				w.all(300)
				w.tree()
				w.sizes()
			}},
			{Name: "crossing", Quick: 2, Thorough: 8, Run: func(c *kit.Case) { // more than 65536 nodes and words
				w := bigWorld(c, c.R.Range(22000, 34000), 60, 300, alphabets[3])
				w.reload()
				w.all(3000)
				if len(w.nodes) <= 65536 {
					c.Count("crossing_not_reached", 1)
				}
				w.sizes()
			}},
			{Name: "round", Quick: 9, Thorough: 40, Run: func(c *kit.Case) { // as many nodes, tag sets and lists as fill blocks
				w := roundWorld(c, 1<<(7+c.Index%9))
				for i := 0; i < 3; i++ {
					if i > 0 {
						w.oneMore()
					}
					a := observe(w.idx)
					w.reload()
					if d := diffObs(a, observe(w.idx)); d != "" {
						c.Fail("loaded index of %d nodes differs from the original: %s", len(w.nodes), d)
					}
					w.all(300)
					w.sizes()
				}
				c.Max("round_nodes", len(w.nodes))
			}},
			{Name: "tags255", Quick: 6, Thorough: 40, Run: func(c *kit.Case) {
				w := newWorld(c)
				w.pickAlphabet()
				n := c.R.Range(250, 255)
				for i := 0; i < n; i++ {
					w.addTag(tagName(i), kit.Pick(c.R, []string{"", tagName(c.R.Intn(n))}))
				}
				for i := 0; i < 20; i++ {
					word := w.freshWord(4)
					w.attach(w.add(word), word, w.randomSet(n))
				}
				w.reload()
				w.all(0)
				w.sizes()
			}},
			{Name: "manysets", Quick: 4, Thorough: 30, Run: func(c *kit.Case) { // up to 255 tag sets on a word
				w := newWorld(c)
				w.start(14)
				word := w.freshWord(4)
				node := w.add(word)
				for len(w.words[word]) < 200+c.R.Intn(56) {
					w.attach(node, word, w.randomSet(8))
				}
				w.reload()
				w.all(0)
				w.sizes()
			}},
			{Name: "longsets", Quick: 3, Thorough: 20, Run: func(c *kit.Case) { // over 256 tag sets of one size
				w := newWorld(c)
				w.start(0)
				for i := 0; i < 40; i++ {
					w.addTag(tagName(i), "")
				}
				for i := 0; i < 600; i++ {
					word := w.freshWord(6)
					w.attach(w.add(word), word, c.R.Perm(40)[:2])
				}
				w.reload()
				w.all(0)
				w.sizes()
			}},
			{Name: "history", Quick: 900, Thorough: 40000, Run: func(c *kit.Case) {
				w := newWorld(c)
				w.start(c.R.Intn(7))
				m := mix{failures: 5, maxSet: 5, maxLen: 8, reloads: 3, optimizes: 2}
				if c.R.Chance(10) {
					m.maxSet, m.maxLen = 40, 60
				}
				for i := c.R.Range(0, 80); i > 0; i-- {
					w.step(m)
				}
				orig := w.idx
				data := w.save()
				c.Op("load into a new index")
				loaded, err := loadIndex(data)
				if err != nil {
					c.Fail("loading what was saved (%d bytes): %v", len(data), err)
				}
				c.Count("loads", 1)
				a, b := observe(orig), observe(loaded)
				c.Count("observations_compared", len(a))
				if d := diffObs(a, b); d != "" {
					c.Fail("loaded index differs from the original: %s", d)
				}
				w.idx, w.handles = loaded, nil
				same := func() {
					for i := 0; i < 20; i++ {
						p := w.nonWord()
						_, e1 := orig.FetchString(p)
						_, e2 := loaded.FetchString(p)
						c.Count("lookups_compared", 1)
						if (e1 == nil) != (e2 == nil) {
							c.Fail("looking up %q: original %v, loaded %v", p, e1, e2)
						}
					}
				}
				same()
				w.all(60)
				// the same further additions to both
				for i := c.R.Range(1, 25); i > 0; i-- {
					word := w.freshWord(6)
					if len(w.wlist) > 0 && c.R.Chance(30) {
						word = kit.Pick(c.R, w.wlist)
					}
					set := w.randomSet(5)
					if c.R.Chance(15) && len(w.tags) < 250 {
						name, parent := w.randomTag()
						w.addTag(name, parent)
						orig.TagID(dag.TagName(name), dag.TagName(parent))
					}
					n1, err := orig.AddString(word)
					if err != nil {
						w.fail("lookup", "adding %q to the original: %v", word, err)
					}
					n2, err := loaded.AddString(word)
					if err != nil {
						c.Fail("adding %q to the loaded index: %v", word, err)
					}
					w.note(word)
					if nodeID(n1) != nodeID(n2) {
						c.Fail("adding %q after loading: id %d in the original, %d in the loaded", word, nodeID(n1), nodeID(n2))
					}
					if len(set) > 0 && c.R.Chance(70) {
						names := make([]dag.TagName, len(set))
						for i, id := range set {
							names[i] = dag.TagName(w.tags[id].name)
						}
						if err := n1.AddTagSet(names...); err != nil {
							w.fail("sets", "attaching %v to %q in the original: %v", names, word, err)
						}
						if err := n2.AddTagSet(names...); err != nil {
							c.Fail("attaching %v to %q in the loaded index: %v", names, word, err)
						}
						if w.words[word] == nil {
							w.words[word] = map[string]bool{}
							w.wlist = append(w.wlist, word)
						}
						w.words[word][canonNames(set, w.tags)] = true
					}
					c.Count("additions_to_both", 1)
				}
				same()
				if d := diffObs(observe(orig), observe(w.idx)); d != "" {
					c.Fail("after the same additions the loaded index differs from the original: %s", d)
				}
				w.all(60)
				w.sizes()
			}},
		},
	}
}

// ---- C03 ------------------------------------------------------------------

// optimizeChecked optimizes and checks that only the storage of lists changed.
func (w *world) optimizeChecked() {
	before := observe(w.idx)
	sets := fmt.Sprint(w.idx.TagSetIndex())
	w.optimize()
	after := observe(w.idx)
	w.c.Count("observations_compared", len(before))
	if d := diffObs(before, after); d != "" {
		w.c.Fail("optimizing changed an answer: %s", d)
	}
	if got := fmt.Sprint(w.idx.TagSetIndex()); got != sets {
		_ = got // tag sets may be compacted: their ids are not part of any answer
	}
	w.lists()
	w.unusedLists()
	data := w.save()
	before = observe(w.idx)
	w.optimize()
	if d := diffObs(before, observe(w.idx)); d != "" {
		w.c.Fail("optimizing again changed an answer: %s", d)
	}
	if again := w.save(); string(again) != string(data) {
		w.c.Fail("optimizing again changed the stored form: %d bytes, then %d", len(data), len(again))
	}
}

// lists checks that the list of every node is resolvable by its id, and is what the node says.
func (w *world) lists() {
	for id := 1; id <= w.idx.NodesCount(); id++ {
		it := w.idx.GetItem(dag.ID(id)).Item()
		if it.Variants == 0 {
			continue
		}
		list, err := w.idx.Variants(it.Variants)
		if err != nil {
			w.c.Fail("list %#x of node %d: %v", it.Variants, id, err)
		}
		sets := w.idx.GetItem(dag.ID(id)).TagSets()
		if len(list) != len(sets) {
			w.c.Fail("list %#x of node %d has %d tag sets, the node has %d", it.Variants, id, len(list), len(sets))
		}
		for k, tsID := range list {
			ts, ok := w.idx.TagSetIndex().Get(tsID)
			if !ok {
				w.c.Fail("list %#x of node %d: tag set %#x is not known", it.Variants, id, tsID)
			}
			got, err := w.idx.TagSet(ts)
			if err != nil || canonSet(got) != canonSet(sets[k]) {
				w.c.Fail("list %#x of node %d: tag set %#x is %v (%v), the node says %v", it.Variants, id, tsID, got, err, sets[k])
			}
		}
		w.c.Count("lists_resolved", 1)
	}
}

// unusedLists decodes what would be saved, by an independent decoder, and checks that every list is used.
func (w *world) unusedLists() {
	f, err := decodeFile(w.save())
	if err != nil {
		w.c.Fail("the saved form does not follow the layout: %v", err)
	}
	used := map[uint32]bool{}
	for _, it := range f.items {
		used[it.variants] = true
	}
	total := 0
	for t, table := range f.variants {
		for i := range table {
			total++
			if id := uint32(t+1)<<16 | uint32(i); !used[id] {
				w.c.Fail("after optimizing list %#x is stored but no node has it (%d lists stored)", id, total)
			}
		}
	}
	w.c.Count("stored_lists_checked", total)
}

func c03() kit.Check {
	return kit.Check{
		Rule:  "A case is a random history in which optimizations are interleaved with additions, saves and loads; around every optimization the complete observation of the index is compared, afterwards the saved bytes are decoded independently and every stored list must be used, and a second optimization must change neither observation nor bytes. Non-trivial: at least two tagged words; distinct by final content. In some, 70,000 to 140,000 words share a few lists while others are unused." + shapeRule,
		Setup: initLogging,
		Groups: []kit.Group{
			{Name: "shared", Quick: 2, Thorough: 10, Run: shared},
			{Name: "big", Quick: 2, Thorough: 12, Run: func(c *kit.Case) {
				w := bigWorld(c, c.R.Range(2000, 5000), 60, c.R.Range(50, 600), alphabets[3])
				w.optimizeChecked()
				w.all(2000)
				w.reload()
				w.all(1000)
				w.sizes()
			}},
			{Name: "filled", Quick: 1, Thorough: 3, Run: func(c *kit.Case) {
				n := c.R.Range(9000, 12000)
				if c.Thorough {
					n = c.R.Range(20000, 50000)
				}
				w := filled(c, n, 120)
				w.optimizeChecked()
				w.all(3000)
				w.reload()
				w.all(3000)
				w.sizes()
			}},
			{Name: "shapes", Quick: 48, Thorough: 800, Run: func(c *kit.Case) {
				w := shape(c, c.Index)
				w.optimizeChecked()
				w.all(200)
				for i := 0; i < 10; i++ {
					w.step(mix{failures: 5, maxSet: 4, maxLen: 6, reloads: 5})
				}
				w.optimizeChecked()
				w.all(200)
				w.sizes()
			}},
			{Name: "long", Quick: 30, Thorough: 400, Run: func(c *kit.Case) { // words with many tag sets: many tables
				w := newWorld(c)
				w.start(10)
				ws := []string{w.freshWord(4), w.freshWord(4), w.freshWord(4), w.freshWord(4)}
				for i := c.R.Range(20, 160); i > 0; i-- {
					word := kit.Pick(c.R, ws)
					w.attach(w.add(word), word, w.randomSet(6))
					if c.R.Chance(4) {
						w.optimizeChecked()
					}
				}
				w.optimizeChecked()
				w.all(0)
				w.sizes()
			}},
			{Name: "history", Quick: 700, Thorough: 30000, Run: func(c *kit.Case) {
				w := newWorld(c)
				w.start(c.R.Range(1, 7))
				m := mix{failures: 4, maxSet: 4, maxLen: 6, reloads: 4}
				for i := c.R.Range(5, 70); i > 0; i-- {
					w.step(m)
					if c.R.Chance(6) {
						w.optimizeChecked()
						w.all(20)
					}
				}
				w.optimizeChecked()
				w.all(0)
				w.tree()
				w.sizes()
			}},
			{Name: "empty", Quick: 1, Thorough: 1, Run: func(c *kit.Case) {
				w := newWorld(c)
				w.start(2)
				w.optimizeChecked()
				w.optimizeChecked()
				w.all(0)
			}},
		},
	}
}

// ---- C20 ------------------------------------------------------------------

func c20() kit.Check {
	return kit.Check{
		Rule:  "A case is a random history of additions, attachments, failing operations, lookups, saves, loads (into new and into used indexes) and optimizations; after every single step both counts are compared with the model's numbers of distinct prefixes and tagged words. Non-trivial: at least two tagged words; distinct by final content. Indexes with a word for every letter of Unicode are counted too." + shapeRule,
		Setup: initLogging,
		Groups: []kit.Group{
			lettersGroup(2, 8, false),
			{Name: "filled", Quick: 1, Thorough: 6, Run: func(c *kit.Case) {
				w := filled(c, c.R.Range(6000, 12000), 120)
				w.reload()
				w.counts()
				w.optimize()
				w.counts()
				w.sizes()
			}},
			{Name: "big", Quick: 3, Thorough: 20, Run: func(c *kit.Case) {
				w := bigWorld(c, c.R.Range(5000, 20000), 60, 400, alphabets[3])
				w.counts()
				w.reload()
				w.counts()
				w.optimize()
				w.counts()
				w.sizes()
			}},
			{Name: "huge", Quick: 1, Thorough: 4, Run: func(c *kit.Case) { // well over 100 000 nodes
				w := bigWorld(c, 30000, 60, 300, alphabets[3])
				w.counts()
				w.reload()
				w.counts()
				w.sizes()
			}},
			{Name: "shapes", Quick: 48, Thorough: 1000, Run: func(c *kit.Case) {
				w := shape(c, c.Index)
				w.counts()
				w.reload()
				w.counts()
				for i := 0; i < 20; i++ {
					w.step(mix{failures: 20, maxSet: 4, maxLen: 6, reloads: 5, optimizes: 5})
					w.counts()
				}
				w.optimize()
				w.counts()
				w.sizes()
			}},
			{Name: "history", Quick: 2500, Thorough: 80000, Run: func(c *kit.Case) {
				w := newWorld(c)
				w.start(c.R.Intn(5))
				var other *world // a used index to load into
				m := mix{failures: 15, maxSet: 4, maxLen: 6, reloads: 6, optimizes: 5}
				for i := c.R.Range(5, 90); i > 0; i-- {
					w.step(m)
					w.counts()
					if c.R.Chance(4) {
						other = newWorld(c)
						other.start(2)
						for k := c.R.Intn(20); k > 0; k-- {
							other.step(mix{maxSet: 3, maxLen: 6})
						}
						w.loadInto(other.idx)
						w.counts()
						if c.R.Bool() { // twice into the same index
							w.loadInto(w.idx)
							w.counts()
						}
					}
				}
				w.all(40)
				w.counts()
				w.sizes()
			}},
		},
	}
}

// loadInto loads the saved form into the index given, which takes over.
func (w *world) loadInto(target *index.Index) {
	data := w.save()
	w.c.Op("load into an index with %d words", target.WordsCount())
	if err := readInto(target, data); err != nil {
		w.fail("storage", "loading into a used index: %v", err)
	}
	w.c.Count("loads_into_used", 1)
	w.idx, w.handles = target, nil
}

// ---- C24 ------------------------------------------------------------------

func c24() kit.Check {
	return kit.Check{
		Rule:  "A case adds random words in random order, from the root and from inner nodes, with saves, loads and optimizations in between; at several points the whole tree is walked: dense ids, spelling = parent's spelling + letter, children = one-letter extensions, and ids by lookup, by remainder from inner nodes, letter by letter and by id agree and never change. Another order of the same additions must give the same set of words. Non-trivial: at least two tagged words; distinct by final content. Nodes with a child for every letter of Unicode are among them." + shapeRule,
		Setup: initLogging,
		Groups: []kit.Group{
			lettersGroup(2, 8, false),
			{Name: "wide", Quick: 4, Thorough: 20, Run: func(c *kit.Case) { // a node with very many children
				w := newWorld(c)
				w.start(2)
				base := w.freshWord(3)
				for i := 0; i < 1500; i++ {
					word := base + string(rune(0x4e00+c.R.Intn(3000)))
					n := w.add(word)
					if c.R.Chance(10) {
						w.attach(n, word, w.randomSet(2))
					}
				}
				w.tree()
				w.reload()
				w.tree()
				w.sizes()
			}},
			{Name: "big", Quick: 2, Thorough: 10, Run: func(c *kit.Case) {
				w := bigWorld(c, c.R.Range(5000, 12000), 30, 100, alphabets[3])
				w.tree()
				w.reload()
				w.tree()
				w.sizes()
			}},
			{Name: "huge", Quick: 1, Thorough: 4, Run: func(c *kit.Case) { // well over 100 000 nodes
				w := bigWorld(c, 30000, 60, 300, alphabets[3])
				w.tree()
				w.reload()
				w.all(500)
				w.sizes()
			}},
			{Name: "shapes", Quick: 48, Thorough: 800, Run: func(c *kit.Case) {
				w := shape(c, c.Index)
				w.tree()
				w.reload()
				w.tree()
				for i := 0; i < 10; i++ {
					w.step(mix{failures: 5, maxSet: 4, maxLen: 6, optimizes: 5})
				}
				w.tree()
				w.sizes()
			}},
			{Name: "order", Quick: 150, Thorough: 5000, Run: func(c *kit.Case) {
				a, b := newWorld(c), newWorld(c)
				a.start(2)
				b.alpha = a.alpha
				for _, t := range a.tags {
					b.addTag(t.name, t.parent)
				}
				for i := c.R.Range(5, 60); i > 0; i-- {
					word := a.freshWord(7)
					a.attach(a.add(word), word, a.randomSet(2))
				}
				for _, i := range c.R.Perm(len(a.wlist)) {
					word := a.wlist[i]
					n := b.add(word)
					for range a.words[word] {
						b.attach(n, word, b.randomSet(2))
						break
					}
				}
				a.tree()
				b.tree()
				for _, p := range a.list {
					if _, ok := b.nodes[p]; !ok {
						c.Fail("harness: %q missing", p)
					}
					if _, err := b.idx.FetchString(p); err != nil {
						c.Fail("%q found in one order of additions, not in another: %v", p, err)
					}
				}
				if a.idx.NodesCount() != b.idx.NodesCount() || a.idx.WordsCount() != b.idx.WordsCount() {
					c.Fail("counts differ between orders of additions")
				}
				a.sizes()
			}},
			{Name: "history", Quick: 900, Thorough: 40000, Run: func(c *kit.Case) {
				w := newWorld(c)
				w.start(c.R.Intn(4))
				m := mix{failures: 6, maxSet: 3, maxLen: 8, reloads: 3, optimizes: 2}
				for i := c.R.Range(5, 90); i > 0; i-- {
					w.step(m)
					if c.R.Chance(8) {
						w.tree()
					}
				}
				w.tree()
				w.reload()
				w.tree()
				for i := c.R.Range(1, 10); i > 0; i-- {
					w.add(w.freshWord(5))
				}
				w.tree()
				w.sizes()
			}},
		},
	}
}

// ---- C21 ------------------------------------------------------------------

func c21() kit.Check {
	return kit.Check{
		Rule:  "A case builds an index by a random history and demands: saving twice gives equal bytes; saving leaves the observation as it was; lookups (hits, misses, unknown ids) leave the saved bytes as they were; load and save again gives equal bytes; building again by the same steps gives equal bytes; loading into an index that held other data gives exactly the observation and bytes of a fresh load, also for sets, tables, registries, lists, tags and nodes on their own. Non-trivial: at least two tagged words; distinct by final content." + shapeRule,
		Setup: initLogging,
		Groups: []kit.Group{
			{Name: "parts", Quick: 40, Thorough: 2000, Run: partsUsed},
			{Name: "big", Quick: 2, Thorough: 12, Run: func(c *kit.Case) {
				w := bigWorld(c, c.R.Range(2000, 8000), 60, 300, alphabets[3])
				a, b := w.save(), w.save()
				w.reload()
				if d := w.save(); string(a) != string(b) || string(a) != string(d) {
					c.Fail("saving a big index again gives other bytes")
				}
				w.sizes()
			}},
			{Name: "shapes", Quick: 32, Thorough: 600, Run: func(c *kit.Case) {
				w := shape(c, c.Index)
				obs := observe(w.idx)
				first := w.save()
				if again := w.save(); string(again) != string(first) {
					c.Fail("saving again gives other bytes: first difference at %d", firstDiff(again, first))
				}
				for i := 0; i < 50; i++ {
					w.miss(w.nonWord())
					w.hit(kit.Pick(c.R, w.list))
				}
				if again := w.save(); string(again) != string(first) {
					c.Fail("saving after lookups gives other bytes: first difference at %d", firstDiff(again, first))
				}
				if d := diffObs(obs, observe(w.idx)); d != "" {
					c.Fail("saving or looking up changed an answer: %s", d)
				}
				w.reload()
				if again := w.save(); string(again) != string(first) {
					c.Fail("loading and saving gives other bytes: first difference at %d", firstDiff(again, first))
				}
				w.optimize()
				first = w.save()
				c.ResetRand()
				ops := c.Ops()
				w2 := shape(c, c.Index)
				w2.optimize()
				c.SetOps(ops)
				if again := w2.save(); string(again) != string(first) {
					c.Fail("building and optimizing again by the same steps gives other bytes: first difference at %d", firstDiff(again, first))
				}
				w.sizes()
			}},
			{Name: "history", Quick: 900, Thorough: 40000, Run: func(c *kit.Case) {
				build := func() *world {
					c.ResetRand()
					w := newWorld(c)
					w.start(c.R.Intn(6))
					m := mix{failures: 5, maxSet: 4, maxLen: 7, reloads: 3, optimizes: 3}
					for i := c.R.Range(0, 70); i > 0; i-- {
						w.step(m)
					}
					return w
				}
				w := build()
				obs := observe(w.idx)
				first := w.save()
				same := func(what string, got []byte) {
					c.Count("byte_comparisons", 1)
					if string(got) != string(first) {
						c.Fail("%s: %d bytes, first save %d bytes, first difference at %d", what, len(got), len(first), firstDiff(got, first))
					}
				}
				same("saving again", w.save())
				if d := diffObs(obs, observe(w.idx)); d != "" {
					c.Fail("saving changed an answer: %s", d)
				}
				for i := 0; i < 30; i++ {
					w.miss(w.nonWord())
					if len(w.list) > 0 {
						w.hit(kit.Pick(c.R, w.list))
					}
					id := dag.ID(c.R.Intn(len(w.nodes)*2 + 3))
					_ = w.idx.GetChildrenMap(id)
					_ = w.idx.GetChildrenIDMap(id)
					_, _ = w.idx.FetchFromItem(id, []rune{w.letter()})
					_, _ = w.idx.FetchItemFromParent(id, []rune{w.letter()})
				}
				same("saving after lookups", w.save())
				if d := diffObs(obs, observe(w.idx)); d != "" {
					c.Fail("lookups changed an answer: %s", d)
				}
				fresh, err := loadIndex(first)
				if err != nil {
					c.Fail("loading: %v", err)
				}
				again, err := saveIndex(fresh)
				if err != nil {
					c.Fail("saving a loaded index: %v", err)
				}
				same("loading and saving", again)
				other := newWorld(c)
				other.start(4)
				for i := c.R.Range(1, 40); i > 0; i-- {
					other.step(mix{maxSet: 3, maxLen: 6, optimizes: 4})
				}
				if err := readInto(other.idx, first); err != nil {
					c.Fail("loading into a used index: %v", err)
				}
				if d := diffObs(obs, observe(other.idx)); d != "" {
					c.Fail("an index that held %d words differs after loading: %s", len(other.words), d)
				}
				if again, err = saveIndex(other.idx); err != nil {
					c.Fail("saving after loading into a used index: %v", err)
				}
				same("loading into a used index and saving", again)
				w.idx, w.handles = other.idx, nil
				for _, p := range other.list { // nothing of the old content
					_, e1 := fresh.FetchString(p)
					_, e2 := other.idx.FetchString(p)
					if (e1 == nil) != (e2 == nil) {
						c.Fail("looking up %q: loaded into a new index %v, into a used one %v", p, e1, e2)
					}
				}
				w.all(40)
				w.sizes()
				ops := c.Ops()
				w2 := build()
				c.SetOps(ops)
				same("building again by the same steps and saving", w2.save())
			}},
		},
	}
}

func firstDiff(a, b []byte) int {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			return i
		}
	}
	return min(len(a), len(b))
}
