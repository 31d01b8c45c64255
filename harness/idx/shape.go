package main

import (
	"fmt"

	"github.com/amarin/gomorphy/internal/zverif/kit"
)

const shapeKinds = 16

// shape makes an index of an extreme form, kind selects it. Every form is small enough to be walked as a whole.
func shape(c *kit.Case, kind int) *world {
	w := newWorld(c)
	r := c.R
	tagged := func(word string, set []int) {
		if len(set) == 0 {
			set = []int{0}
		}
		w.attach(w.add(word), word, set)
	}
	chain := func(n int) string {
		rs := make([]rune, n)
		for i := range rs {
			rs[i] = w.letter()
		}
		return string(rs)
	}
	kind %= shapeKinds
	c.Count(fmt.Sprintf("shape_%02d", kind), 1)
	switch kind {
	case 0: // very long words with a common beginning
		w.start(5)
		base := chain(r.Range(200, 900))
		for i := 0; i < 3; i++ {
			tagged(base+chain(r.Range(1, 900)), w.randomSet(3))
		}
		w.add(base)
	case 1: // a ladder: every prefix of a word is a word
		w.start(6)
		rs := []rune(chain(r.Range(60, 300)))
		for _, i := range r.Perm(len(rs)) {
			tagged(string(rs[:i+1]), w.randomSet(3))
		}
	case 2: // a node with very many children
		w.start(3)
		base := ""
		if r.Bool() {
			base = chain(r.Range(1, 3))
		}
		first := rune(kit.Pick(r, []int{0, 0x60, 0x400, 0x4e00, 0xd000, 0x1f000, 0x10f000}))
		for i := 0; i < 600; i++ {
			l := first + rune(r.Intn(2000))
			if l >= 0xd800 && l < 0xe000 {
				l += 0x1000
			}
			word := base + string(l)
			if r.Chance(30) {
				tagged(word, w.randomSet(2))
			} else {
				w.add(word)
			}
		}
	case 3: // a word with very many tag sets, others sharing the beginning of its list
		w.start(10)
		a, b := w.freshWord(4), w.freshWord(4)
		for i := 0; i < 400 && len(w.words[a]) < 254; i++ {
			set := w.randomSet(6)
			tagged(a, set)
			if i < 40 {
				tagged(b, set)
			}
			if r.Chance(3) {
				tagged(w.freshWord(5), set)
			}
		}
	case 4: // all tags there can be, sets of any size
		w.pickAlphabet()
		n := r.Range(240, 255)
		for i := 0; i < n; i++ {
			w.addTag(tagName(i), kit.Pick(r, []string{"", tagName(r.Intn(n))}))
		}
		for i := 0; i < 12; i++ {
			tagged(w.freshWord(4), w.randomSet(n))
		}
		tagged(w.freshWord(4), []int{n - 1})
		tagged(w.freshWord(4), []int{0})
		tagged(w.freshWord(4), r.Perm(n))
	case 5: // more than 256 tag sets of one size, more than 256 lists of one size
		w.pickAlphabet()
		for i := 0; i < 30; i++ {
			w.addTag(tagName(i), "")
		}
		for i := 0; i < 330; i++ {
			word := w.freshWord(7)
			n := w.add(word)
			for k := r.Range(1, 2); k > 0; k-- {
				w.attach(n, word, r.Perm(30)[:2])
			}
		}
	case 6: // words of one letter
		w.start(4)
		for _, alpha := range alphabets {
			for _, l := range alpha {
				if r.Chance(70) {
					tagged(string(l), w.randomSet(3))
				}
			}
		}
	case 7: // only the first and the last node carry tags
		w.start(4)
		tagged(string(w.letter()), w.randomSet(3))
		for i := 0; i < 30; i++ {
			w.add(w.freshWord(6))
		}
		for {
			n := len(w.nodes)
			word := w.freshWord(6)
			node := w.add(word)
			if len(w.nodes) == n+1 {
				w.attach(node, word, []int{0})
				w.attach(node, word, []int{1 % len(w.tags)})
				break
			}
		}
	case 8: // words that get their tag sets one at a time, all growing alike
		w.start(8)
		var sets [][]int
		for i := 0; i < 9; i++ {
			sets = append(sets, w.randomSet(4))
		}
		var ws []string
		for i := 0; i < 12; i++ {
			ws = append(ws, w.freshWord(5))
		}
		for i := 0; i < 120; i++ {
			tagged(kit.Pick(r, ws), kit.Pick(r, sets))
		}
	case 9: // the same lists reached by different orders
		w.start(6)
		var sets [][]int
		for i := 0; i < 5; i++ {
			sets = append(sets, w.randomSet(3))
		}
		for i := 0; i < 25; i++ {
			word := w.freshWord(5)
			for _, k := range r.Perm(5)[:r.Range(1, 5)] {
				tagged(word, sets[k])
			}
		}
	case 10: // no tags at all, only prefixes
		w.start(0)
		for i := 0; i < 40; i++ {
			w.add(w.freshWord(8))
		}
	case 11: // one word only
		w.start(1)
		tagged(w.freshWord(9), []int{0})
	case 12: // very many words with one and the same list, unused lists with smaller and greater ids
		w.start(6)
		for len(w.tags) < 4 {
			w.addTag(w.randomTag())
		}
		for i := 0; i < 4; i++ {
			word := w.freshWord(4)
			tagged(word, []int{i})
			if i%2 == 0 {
				tagged(word, []int{i + 1, 0})
			}
		}
		sets := [][]int{{0, 1}, {2}, {1, 2, 3}}[:r.Range(1, 3)]
		for i := r.Range(520, 1100); i > 0; i-- {
			word := w.freshWord(7)
			for _, s := range sets {
				tagged(word, s)
			}
		}
	case 13: // hundreds of lists, all used but one or two
		w.pickAlphabet()
		for i := 0; i < 24; i++ {
			w.addTag(tagName(i), "")
		}
		var first string
		seen := map[string]bool{}
		for i := 0; i < r.Range(120, 330); i++ {
			set := r.Perm(24)[:r.Range(1, 4)]
			if k := canonNames(set, w.tags); seen[k] {
				continue
			} else {
				seen[k] = true
			}
			word := w.freshWord(6)
			if len(w.words[word]) > 0 {
				continue
			}
			tagged(word, set)
			if first == "" || r.Chance(2) {
				first = word
			}
		}
		tagged(first, []int{0, 5, 9, 13, 17})
		if r.Bool() {
			tagged(kit.Pick(r, w.wlist), []int{1, 5, 9, 13, 17, 20})
		}
	case 14: // lists of every length, each begun by the one before
		w.start(0)
		for i := 0; i < 12; i++ {
			w.addTag(tagName(i), "")
		}
		var sets [][]int
		for i := 0; i < 12; i++ {
			for k := 0; k < i; k++ {
				sets = append(sets, []int{i, k})
			}
		}
		for n := r.Range(20, len(sets)); n > 0; n -= r.Range(1, 3) {
			word := w.freshWord(5)
			for _, k := range r.Perm(n) {
				tagged(word, sets[k])
			}
		}
	case 15: // very large sets, differing in few tags
		w.pickAlphabet()
		n := r.Range(60, 200)
		for i := 0; i < n; i++ {
			w.addTag(tagName(i), "")
		}
		for i := 0; i < 30; i++ {
			set := r.Perm(n)
			out := r.Range(1, 3)
			tagged(w.freshWord(4), set[out:])
		}
	}
	return w
}

// shapeRule is added to the rules of checks with a group of shapes.
const shapeRule = " Sixteen extreme forms of index (very long words, a ladder of prefixes, hundreds of children, hundreds of tag sets on a word, all 255 tags, over 256 lists of a size, one-letter words of every alphabet, tags on the first and last node only, lists grown in step, lists reached in several orders, no tags, one word, over 500 words with one list, hundreds of lists of which one is unused, lists each begun by another, large sets differing in few tags) are treated the same way."

// filled makes an index whose tables hold very many tag sets and lists, by way of an independently encoded file:
// words of one, two and three tag sets, every tag set and nearly every list of its own.
func filled(c *kit.Case, words, tags int) *world {
	w := newWorld(c)
	r := c.R
	for i := 0; i < tags; i++ {
		name := tagName(i)
		w.tags = append(w.tags, tagDef{name, normParent("")})
		w.tagIdx[name] = i
	}
	first := rune(kit.Pick(r, []int{0x61, 0x410, 0x4e00, 0x1f300}))
	wide := 1
	for wide*wide < 2*words {
		wide++
	}
	made := map[string]bool{}
	set := func() string {
		for {
			n := 3
			if r.Chance(20) {
				n = r.Range(2, 6)
			}
			if k := canonNames(r.Perm(tags)[:n], w.tags); !made[k] {
				made[k] = true
				return k
			}
		}
	}
	for i, at := range r.Perm(wide * wide)[:words] {
		word := string([]rune{first + rune(at/wide), first + rune(at%wide)})
		w.note(word)
		n := 1
		if i%4 == 3 {
			n = r.Range(1, 3)
		}
		m := map[string]bool{}
		for len(m) < n {
			m[set()] = true
		}
		if i%50 == 0 && len(w.wlist) > 0 { // what another word has
			m = map[string]bool{}
			for k := range w.words[w.wlist[r.Intn(len(w.wlist))]] {
				m[k] = true
			}
		}
		w.words[word] = m
		w.wlist = append(w.wlist, word)
	}
	w.alpha = []rune{first, first + 1, first + rune(wide-1), 'q'}
	c.Op("%d words, each with tag sets of its own", words)
	w.fromFile()
	w.counts()
	c.Max("tag_sets_in_an_index", len(made))
	return w
}

// roundWorld makes an index in which every word adds one node and one tag set nobody had before, n-1 of each.
func roundWorld(c *kit.Case, n int) *world {
	w := newWorld(c)
	w.alpha = kit.Pick(c.R, alphabets[3:5])
	for i := 0; i < 124; i++ {
		w.addTag(tagName(i), "")
	}
	for len(w.nodes) < n-1 {
		w.oneMore()
	}
	c.Op("%d words, each a node and a tag set of its own", len(w.words))
	return w
}

// oneMore adds a word longer than another by a letter, tagged as none is.
func (w *world) oneMore() {
	r := w.c.R
	for {
		base := ""
		if len(w.wlist) > 0 && r.Chance(95) {
			base = kit.Pick(r, w.wlist)
		}
		word := base + string(w.letter())
		if _, ok := w.words[word]; ok || len(word) > 200 {
			continue
		}
		k := len(w.words)
		set := []int{k % 41, 41 + k/41%41, 82 + k/1681%41, 123}
		w.attach(w.add(word), word, set)
		return
	}
}
