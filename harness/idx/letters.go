package main

import (
	"sort"
	"strconv"
	"strings"

	"github.com/amarin/gomorphy/internal/index"
	"github.com/amarin/gomorphy/internal/zverif/kit"
	"github.com/amarin/gomorphy/pkg/dag"
)

// letterSet is a set of words that differ in as little as letters can, what each was tagged with, and its node.
type letterSet struct {
	*world
	spelled []string
	id      []dag.ID
	at      map[string]int
	total   int // nodes
	tagged  int // words with tags
}

var letterTags = []string{"NOUN", "VERB", "ADJF", "anim", "plur"}

// sets says what the i-th word is tagged with.
func (l *letterSet) sets(i int) []string {
	switch i % 3 {
	case 0:
		return nil
	case 1:
		return []string{letterTags[i%5]}
	}
	return []string{letterTags[i%5], letterTags[(i+1)%5] + " " + letterTags[(i+3)%5]}
}

// allLetters indexes a word for every letter there is, behind the same beginning.
func allLetters(c *kit.Case) *letterSet {
	l := &letterSet{world: newWorld(c), at: map[string]int{}}
	prefix := kit.Pick(c.R, []string{"", "", "а", "x\u0301"})
	for r := rune(0); r <= 0x10ffff; r++ {
		if r >= 0xd800 && r < 0xe000 {
			continue
		}
		l.spelled = append(l.spelled, prefix+string(r))
	}
	c.Op("a word for every letter behind %q", prefix)
	if prefix != "" {
		l.shuffle()
	}
	l.fill()
	return l
}

// letterPairs indexes words of a letter and a mark, and the letters that look the same as one.
func letterPairs(c *kit.Case) *letterSet {
	l := &letterSet{world: newWorld(c), at: map[string]int{}}
	var bases, marks []rune
	span := func(to *[]rune, from, upto rune) {
		for r := from; r <= upto; r++ {
			*to = append(*to, r)
		}
	}
	span(&bases, 'A', 'Z')
	span(&bases, 'a', 'z')
	span(&bases, 0x391, 0x3c9)
	span(&bases, 0x400, 0x45f)
	span(&bases, 0x304b, 0x304f)
	bases = append(bases, 'ı', 'ſ', 'ß', ' ', 0x25cc)
	span(&marks, 0x300, 0x36f)
	span(&marks, 0x483, 0x489)
	span(&marks, 0xfe00, 0xfe0f)
	span(&marks, 0x200b, 0x200f)
	marks = append(marks, 0xad, 0x2060, 0xfeff, 0x3099, 0x309a, ' ', 'e', 's', 'j', 'l', 'z', '-')
	for _, b := range bases {
		for _, m := range marks {
			l.spelled = append(l.spelled, string([]rune{b, m}))
		}
	}
	var whole []rune
	span(&whole, 0xc0, 0x24f)
	span(&whole, 0x370, 0x52f)
	span(&whole, 0x1e00, 0x1fff)
	span(&whole, 0x3041, 0x30ff)
	span(&whole, 0xfb00, 0xfb06)
	for _, r := range whole {
		if !strings.ContainsRune(string(bases), r) {
			l.spelled = append(l.spelled, string(r))
		}
	}
	// the same marks between letters and before them, and every letter of many scripts before another
	for _, m := range marks {
		for _, b := range []string{"а", "e", "ш", "x\u0301"} {
			l.spelled = append(l.spelled, string(m)+b, b+string(m)+"я", b+b+string(m)+string(m)+"t")
		}
	}
	for _, block := range [][2]rune{{0, 0xff}, {0x2b0, 0x36f}, {0x5b0, 0x6ff}, {0xe31, 0xe4e}, {0x1ab0, 0x1aff}, {0x1dc0, 0x1dff}, {0x2000, 0x20ff}, {0x2de0, 0x2dff}, {0x3000, 0x303f}, {0xa640, 0xa69f}, {0xd700, 0xd7ff}, {0xe000, 0xe0ff}, {0xfe00, 0xffff}, {0x1f3f0, 0x1f3ff}, {0xe0000, 0xe01ff}, {0x10ff00, 0x10ffff}} {
		for r := block[0]; r <= block[1]; r++ {
			l.spelled = append(l.spelled, string(r)+"ж", "ж"+string(r)+"ж")
		}
	}
	known := map[string]bool{}
	once := l.spelled[:0]
	for _, word := range l.spelled {
		if !known[word] {
			known[word] = true
			once = append(once, word)
		}
	}
	l.spelled = once
	c.Op("%d words of letters and marks", len(l.spelled))
	l.shuffle()
	l.fill()
	return l
}

func (l *letterSet) shuffle() {
	words := make([]string, len(l.spelled))
	for i, at := range l.c.R.Perm(len(words)) {
		words[i] = l.spelled[at]
	}
	l.spelled = words
}

func (l *letterSet) fill() {
	for _, t := range letterTags {
		l.addTag(t, "")
	}
	l.id = make([]dag.ID, len(l.spelled))
	for i, word := range l.spelled {
		var (
			n   dag.Node
			err error
		)
		if i%2 == 0 {
			n, err = l.idx.AddString(word)
		} else {
			n, err = l.idx.AddRunes([]rune(word))
		}
		if err != nil {
			l.fail("lookup", "adding %q: %v", word, err)
		}
		l.id[i] = nodeID(n)
		for _, set := range l.sets(i) {
			var names []dag.TagName
			for _, t := range strings.Fields(set) {
				names = append(names, dag.TagName(t))
			}
			if err := n.AddTagSet(names...); err != nil {
				l.fail("sets", "tagging %q: %v", word, err)
			}
		}
		l.at[word] = i
	}
	begun := map[string]bool{}
	for i, word := range l.spelled {
		if rs := []rune(word); len(rs) > 1 {
			for k := 1; k < len(rs); k++ {
				if p := string(rs[:k]); !begun[p] {
					begun[p] = true
					if _, ok := l.at[p]; !ok {
						l.total++
					}
				}
			}
		}
		if l.total++; i%3 != 0 {
			l.tagged++
		}
	}
	l.c.Count("words_added", len(l.spelled))
	l.c.Max("letters_in_an_index", len(l.spelled))
}

// verify asks for every word.
func (l *letterSet) verify() {
	owner := make(map[dag.ID]int, len(l.id))
	for i, word := range l.spelled {
		n, err := l.idx.FetchString(word)
		if err != nil {
			l.fail("lookup", "FetchString(%q): %v", word, err)
		}
		if got := n.Word(); got != word {
			l.fail("lookup", "node for %q spells %q", word, got)
		}
		id := nodeID(n)
		if id != l.id[i] {
			l.fail("id", "node for %q has id %d, before it had %d", word, id, l.id[i])
		}
		if other, ok := owner[id]; ok {
			l.fail("id", "%q and %q have the same node %d", word, l.spelled[other], id)
		}
		owner[id] = i
		want := l.sets(i)
		got := n.TagSets()
		if len(got) != len(want) {
			l.fail("sets", "%q has tag sets %v, expected %v", word, got, want)
		}
		for _, set := range want {
			names := strings.Fields(set)
			sort.Strings(names)
			found := false
			for _, g := range got {
				var have []string
				for _, t := range g {
					have = append(have, string(t.Name))
				}
				sort.Strings(have)
				found = found || strings.Join(have, " ") == strings.Join(names, " ")
			}
			if !found {
				l.fail("sets", "%q has tag sets %v, expected %v", word, got, want)
			}
		}
		if i%16 == 0 {
			l.c.Count("lookups_miss", 1)
			far := word + "\u0416\u0301"
			if n, err := l.idx.FetchString(far); err == nil {
				l.fail("lookup", "FetchString(%q) found a node spelling %q", far, n.Word())
			}
		}
	}
	l.c.Count("lookups_hit", len(l.spelled))
	l.c.Count("tagset_reads", len(l.spelled))
	if got := l.idx.NodesCount(); got != l.total {
		l.fail("count", "NodesCount %d, expected %d", got, l.total)
	}
	if got := l.idx.WordsCount(); got != l.tagged {
		l.fail("count", "WordsCount %d, expected %d", got, l.tagged)
	}
	l.c.Count("count_checks", 1)
	l.checkTags()
}

// again saves and loads the index.
func (l *letterSet) again() {
	data := l.save()
	loaded, err := loadIndex(data)
	if err != nil {
		l.fail("storage", "loading what was saved (%d bytes): %v", len(data), err)
	}
	l.idx = loaded
	l.c.Count("loads", 1)
}

// listed checks that what is listed below the common beginning is every letter.
func (l *letterSet) listed() {
	below := map[dag.ID][]int{}
	for i := range l.spelled {
		n := l.idx.GetItem(l.id[i])
		below[n.Item().Parent] = append(below[n.Item().Parent], i)
	}
	for parent, words := range below {
		got := l.idx.GetChildrenMap(parent)
		ids := l.idx.GetChildrenIDMap(parent)
		if len(got) < len(words) || len(ids) != len(got) {
			l.fail("tree", "node %d has %d children, %d by id, expected at least %d", parent, len(got), len(ids), len(words))
		}
		for _, i := range words {
			rs := []rune(l.spelled[i])
			last := rs[len(rs)-1]
			if got[last] == nil || nodeID(got[last]) != l.id[i] || ids[last] != l.id[i] {
				l.fail("tree", "child %q of node %d is not node %d of %q", last, parent, l.id[i], l.spelled[i])
			}
		}
	}
	l.c.Count("children_listed", len(l.spelled))
}

// lettersGroup tells apart all letters there are.
func lettersGroup(quick, thorough int, reload bool) kit.Group {
	return kit.Group{Name: "letters", Quick: quick, Thorough: thorough, Run: func(c *kit.Case) {
		var l *letterSet
		if c.Index%2 == 0 {
			l = allLetters(c)
		} else {
			l = letterPairs(c)
		}
		if !reload {
			l.verify()
		}
		if reload || c.Index%4 >= 2 {
			l.again()
			l.verify()
		}
		if c.Prop == "C24" {
			l.listed()
		}
		c.Sig(len(l.spelled), l.total, kit.Hash(strings.Join(l.spelled[:64], " ")))
		c.NonTrivial()
	}}
}

// shared optimizes an index in which very many words have the same few lists of tag sets, and some lists are unused.
func shared(c *kit.Case) {
	idx := index.New()
	for i := 0; i < 20; i++ {
		idx.TagID(dag.TagName(tagName(i)), "")
	}
	n := kit.Pick(c.R, []int{70000, 100000, 140000})
	lists := 1 + c.R.Intn(4)
	c.Op("%d words with %d lists of tag sets", n, lists)
	tag := func(node dag.Node, tags ...int) {
		var names []dag.TagName
		for _, t := range tags {
			names = append(names, dag.TagName(tagName(t)))
		}
		if err := node.AddTagSet(names...); err != nil {
			c.Skip("sets: " + err.Error())
		}
	}
	nodes := make([]dag.Node, n)
	for i := range nodes {
		node, err := idx.AddString(strconv.Itoa(i))
		if err != nil {
			c.Skip("lookup: " + err.Error())
		}
		nodes[i] = node
		switch {
		case i < 40: // leaves unused lists behind
			tag(node, i%20)
			tag(node, (i+1)%20, (i+3)%20)
			if i%2 == 0 {
				tag(node, 19)
			}
		default:
			tag(node, 1, 2, 3+i%lists)
			if i%lists == 0 {
				tag(node, 4)
			}
		}
	}
	answers := func() []string {
		res := make([]string, n)
		for i, node := range nodes {
			var sets []string
			for _, set := range node.TagSets() {
				sets = append(sets, canonSet(set))
			}
			sort.Strings(sets)
			res[i] = strings.Join(sets, "; ")
		}
		return res
	}
	before, words, count := answers(), idx.WordsCount(), idx.NodesCount()
	idx.Optimize()
	c.Count("optimizations", 1)
	after := answers()
	for i := range before {
		if before[i] != after[i] {
			c.Fail("word %d of %d had tag sets [%s], after optimizing [%s]", i, n, before[i], after[i])
		}
	}
	if idx.WordsCount() != words || idx.NodesCount() != count {
		c.Fail("%d words and %d nodes became %d and %d by optimizing", words, count, idx.WordsCount(), idx.NodesCount())
	}
	c.Count("answers_compared", n)
	c.Max("words_sharing_lists", n)
	c.Sig(n, lists)
	c.NonTrivial()
}
