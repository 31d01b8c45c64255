package main

import (
	"bytes"
	"fmt"
	"sort"
	"strings"

	"github.com/amarin/binutils"

	"github.com/amarin/gomorphy/internal/index"
	"github.com/amarin/gomorphy/internal/zverif/kit"
	"github.com/amarin/gomorphy/pkg/dag"
)

// tagDef is a registered tag of the model.
type tagDef struct{ name, parent string }

// world is an index together with a model of what it must answer.
type world struct {
	c       *kit.Case
	idx     *index.Index
	tags    []tagDef
	tagIdx  map[string]int
	nodes   map[string]dag.ID // every non-empty prefix, with the id the index gave it
	list    []string          // prefixes in order of creation in the model
	kids    map[string]map[rune]bool
	words   map[string]map[string]bool // word -> canonical tag sets
	wlist   []string
	handles []handle
	alpha   []rune
	strict  bool // every deviation is a violation
}

// aspects says which deviations from the model are violations of which property; with other checks they mean that
// the index is broken in a way that is none of their business, and the case is skipped.
var aspects = map[string]string{
	"tag": "C01", "lookup": "C01 C24", "id": "C24", "sets": "C01", "count": "C20", "tree": "C24",
	"storage": "C02", "refuse": "C01", "refuse-node": "C17 C24",
}

// fail reports a deviation from the model in the aspect given.
func (w *world) fail(aspect string, format string, args ...any) {
	if w.strict || strings.Contains(aspects[aspect], w.c.Prop) {
		w.c.Fail(format, args...)
	}
	w.c.Skip(aspect + ": " + fmt.Sprintf(format, args...))
}

type handle struct {
	node dag.Node
	word string
}

func newWorld(c *kit.Case) *world {
	return &world{
		c: c, idx: index.New(), tagIdx: map[string]int{}, nodes: map[string]dag.ID{},
		kids: map[string]map[rune]bool{}, words: map[string]map[string]bool{},
	}
}

func normParent(p string) string {
	if p == "" {
		return string(dag.EmptyTagName)
	}
	return p
}

func canonNames(ids []int, tags []tagDef) string {
	s := make([]string, len(ids))
	for i, id := range ids {
		s[i] = tags[id].name + "/" + tags[id].parent
	}
	sort.Strings(s)
	return strings.Join(s, ",")
}

func canonSet(ts dag.TagSet) string {
	s := make([]string, len(ts))
	for i, t := range ts {
		s[i] = string(t.Name) + "/" + string(t.Parent)
	}
	sort.Strings(s)
	return strings.Join(s, ",")
}

// ---- operations -----------------------------------------------------------

func (w *world) addTag(name, parent string) {
	w.c.Op("TagID(%q,%q)", name, parent)
	id := w.idx.TagID(dag.TagName(name), dag.TagName(parent))
	w.c.Count("tag_registrations", 1)
	if known, ok := w.tagIdx[name]; ok {
		if int(id) != known {
			w.fail("tag", "TagID(%q) of a known tag: %d, registered as %d", name, id, known)
		}
		return
	}
	if int(id) != len(w.tags) {
		w.fail("tag", "TagID(%q) of new tag: %d, expected %d", name, id, len(w.tags))
	}
	w.tagIdx[name] = len(w.tags)
	w.tags = append(w.tags, tagDef{name, normParent(parent)})
}

// note adds all prefixes of a word to the model.
func (w *world) note(word string) {
	rs := []rune(word)
	for i := 1; i <= len(rs); i++ {
		p := string(rs[:i])
		if _, ok := w.nodes[p]; ok {
			continue
		}
		parent := string(rs[:i-1])
		w.nodes[p] = 0
		w.list = append(w.list, p)
		if w.kids[parent] == nil {
			w.kids[parent] = map[rune]bool{}
		}
		w.kids[parent][rs[i-1]] = true
	}
}

func nodeID(n dag.Node) dag.ID {
	if in, ok := n.(*index.Node); ok {
		return in.Id()
	}
	return 0
}

// checkNode checks what a node returned for a word says.
func (w *world) checkNode(what string, n dag.Node, word string) {
	if n == nil {
		w.fail("lookup", "%s: nil node for %q", what, word)
	}
	if in, ok := n.(*index.Node); ok && in == nil {
		w.fail("lookup", "%s: nil node for %q", what, word)
	}
	if got := n.Word(); got != word {
		w.fail("lookup", "%s: node for %q spells %q", what, word, got)
	}
	id := nodeID(n)
	if id == 0 || int(id) > len(w.nodes) {
		w.fail("id", "%s: node for %q has id %d, there are %d nodes", what, word, id, len(w.nodes))
	}
	if known := w.nodes[word]; known == 0 {
		w.nodes[word] = id
	} else if known != id {
		w.fail("id", "%s: node for %q has id %d, before it had %d", what, word, id, known)
	}
	w.checkTagSets(what, n, word)
}

func (w *world) checkTagSets(what string, n dag.Node, word string) {
	sets := n.TagSets()
	want := w.words[word]
	w.c.Count("tagset_reads", 1)
	if len(sets) != len(want) {
		w.fail("sets", "%s: %q has %d tag sets %v, expected %d %v", what, word, len(sets), sets, len(want), keys(want))
	}
	seen := map[string]bool{}
	for _, s := range sets {
		k := canonSet(s)
		if !want[k] {
			w.fail("sets", "%s: %q has tag set [%s] that was never attached; attached %v", what, word, k, keys(want))
		}
		if seen[k] {
			w.fail("sets", "%s: %q has tag set [%s] twice", what, word, k)
		}
		seen[k] = true
	}
}

func keys(m map[string]bool) []string {
	res := make([]string, 0, len(m))
	for k := range m {
		res = append(res, k)
	}
	sort.Strings(res)
	return res
}

// raw spells a word with bytes that are no text where it has the replacement character, which Go reads them as.
func (w *world) raw(word string) string {
	if !strings.ContainsRune(word, 0xfffd) || w.c.R.Chance(30) {
		return word
	}
	var b strings.Builder
	for _, c := range word {
		if c == 0xfffd && w.c.R.Chance(80) {
			b.WriteString(kit.Pick(w.c.R, []string{"\xff", "\xfe", "\x80", "\xc0", "\xe4", "\xf0"}))
			continue
		}
		b.WriteRune(c)
	}
	if string([]rune(b.String())) != word {
		return word
	}
	w.c.Count("spelled_with_bytes", 1)
	return b.String()
}

// add adds a word, by a way chosen at random, and returns its node.
func (w *world) add(word string) dag.Node {
	var (
		n   dag.Node
		err error
	)
	rs := []rune(word)
	switch way := w.c.R.Intn(4); {
	case way == 0:
		text := w.raw(word)
		w.c.Op("AddString(%q)", text)
		n, err = w.idx.AddString(text)
	case way <= 2 || len(rs) < 2:
		w.c.Op("AddRunes(%q)", word)
		n, err = w.idx.AddRunes(append([]rune{}, rs...))
	default:
		cut := w.c.R.Range(1, len(rs)-1)
		w.c.Op("AddRunes(%q) then AddToNode(.., %q)", string(rs[:cut]), string(rs[cut:]))
		n, err = w.idx.AddRunes(rs[:cut])
		if err == nil {
			w.note(string(rs[:cut]))
			w.checkNode("AddRunes", n, string(rs[:cut]))
			n, err = w.idx.AddToNode(nodeID(n), rs[cut:])
		}
	}
	w.c.Count("words_added", 1)
	if err != nil {
		w.fail("lookup", "adding %q: %v", word, err)
	}
	w.note(word)
	w.checkNode("added", n, word)
	if len(w.handles) < 64 {
		w.handles = append(w.handles, handle{n, word})
	} else {
		w.handles[w.c.R.Intn(64)] = handle{n, word}
	}
	return n
}

// attach attaches a set of tags to a node.
func (w *world) attach(n dag.Node, word string, set []int) {
	names := make([]dag.TagName, len(set))
	for i, id := range set {
		names[i] = dag.TagName(w.tags[id].name)
	}
	w.c.Op("Node(%q).AddTagSet(%v)", word, names)
	w.c.Count("tagset_attachments", 1)
	if err := n.AddTagSet(names...); err != nil && len(set) > 0 {
		w.fail("sets", "attaching %v to %q: %v", names, word, err)
	}
	if len(set) == 0 {
		return
	}
	m := w.words[word]
	if m == nil {
		m = map[string]bool{}
		w.words[word] = m
		w.wlist = append(w.wlist, word)
	}
	m[canonNames(set, w.tags)] = true
}

// attachUnknown attaches a set with an unknown tag, which must be refused.
func (w *world) attachUnknown(n dag.Node, word string, set []int) {
	names := make([]dag.TagName, 0, len(set)+1)
	for _, id := range set {
		names = append(names, dag.TagName(w.tags[id].name))
	}
	unknown := dag.TagName(fmt.Sprintf("?%03d", w.c.R.Intn(1000)))
	at := w.c.R.Intn(len(names) + 1)
	names = append(names[:at], append([]dag.TagName{unknown}, names[at:]...)...)
	w.c.Op("Node(%q).AddTagSet(%v) unknown", word, names)
	w.c.Count("refused_attachments", 1)
	var before []byte
	whole := len(w.nodes) < 400 && w.c.R.Chance(50)
	if whole {
		before = w.save()
	}
	if err := n.AddTagSet(names...); err == nil {
		w.fail("refuse", "attaching %v with unknown tag %s to %q succeeded", names, unknown, word)
	}
	if whole {
		if after := w.save(); string(after) != string(before) {
			w.fail("refuse", "refusing to attach %v with unknown tag %s to %q changed what is saved: %d bytes, then %d", names, unknown, word, len(before), len(after))
		}
	}
}

// handleFor returns a node handle of a known prefix by a way chosen at random.
func (w *world) handleFor(word string) dag.Node {
	switch w.c.R.Intn(4) {
	case 0:
		n, err := w.idx.FetchString(w.raw(word))
		if err != nil {
			w.fail("lookup", "FetchString(%q): %v", word, err)
		}
		return n
	case 1:
		n, err := w.idx.FetchRunes([]rune(word))
		if err != nil {
			w.fail("lookup", "FetchRunes(%q): %v", word, err)
		}
		return n
	case 2:
		if id := w.nodes[word]; id != 0 {
			n, err := w.idx.Get(id)
			if err != nil {
				w.fail("lookup", "Get(%d) of %q: %v", id, word, err)
			}
			return n
		}
	}
	n, err := w.idx.AddString(word)
	if err != nil {
		w.fail("lookup", "AddString(%q) again: %v", word, err)
	}
	return n
}

// ---- checks ---------------------------------------------------------------

// hit checks a lookup of a known prefix.
func (w *world) hit(p string) {
	w.c.Count("lookups_hit", 1)
	text := w.raw(p)
	n, err := w.idx.FetchString(text)
	if err != nil {
		w.fail("lookup", "FetchString(%q): %v", text, err)
	}
	w.checkNode("FetchString", n, p)
	n2, err := w.idx.FetchRunes([]rune(p))
	if err != nil {
		w.fail("lookup", "FetchRunes(%q): %v", p, err)
	}
	w.checkNode("FetchRunes", n2, p)
}

// miss checks a lookup of a string that is no known prefix.
func (w *world) miss(p string) {
	if _, ok := w.nodes[p]; ok {
		return
	}
	w.c.Count("lookups_miss", 1)
	n, err := w.idx.FetchString(w.raw(p))
	if err == nil {
		w.fail("lookup", "FetchString(%q) found a node spelling %q", p, n.Word())
	}
	if n, err = w.idx.FetchRunes([]rune(p)); err == nil {
		w.fail("lookup", "FetchRunes(%q) found a node spelling %q", p, n.Word())
	}
	if n, err := w.idx.FetchItemFromParent(0, []rune(p)); err == nil {
		w.fail("lookup", "FetchItemFromParent(0, %q) found a node spelling %q", p, n.Word())
	}
}

func (w *world) counts() {
	if got := w.idx.NodesCount(); got != len(w.nodes) {
		w.fail("count", "NodesCount %d, expected %d", got, len(w.nodes))
	}
	if got := w.idx.WordsCount(); got != len(w.words) {
		w.fail("count", "WordsCount %d, expected %d", got, len(w.words))
	}
	w.c.Count("count_checks", 1)
}

func (w *world) checkTags() {
	tags := w.idx.Tags()
	if tags.Len() != len(w.tags) {
		w.fail("tag", "Tags has %d tags, expected %d", tags.Len(), len(w.tags))
	}
	for i, t := range w.tags {
		got, ok := tags.Get(dag.TagID(i))
		if !ok || string(got.Name) != t.name || string(got.Parent) != t.parent {
			w.fail("tag", "tag %d is %q/%q (%v), expected %q/%q", i, got.Name, got.Parent, ok, t.name, t.parent)
		}
		if id, ok := tags.Find(dag.TagName(t.name)); !ok || int(id) != i {
			w.fail("tag", "Find(%q) = %d,%v, expected %d", t.name, id, ok, i)
		}
	}
}

// all checks every prefix (or a sample of limit of them) and some misses.
func (w *world) all(limit int) {
	ps := w.list
	if limit > 0 && len(ps) > limit {
		ps = make([]string, limit)
		for i := range ps {
			if ends := limit / 10; i < ends { // the oldest and the newest of them
				ps[i] = w.list[i/2]
				if i%2 == 1 {
					ps[i] = w.list[len(w.list)-1-i/2]
				}
			} else if i%2 == 0 && len(w.wlist) > 0 {
				ps[i] = kit.Pick(w.c.R, w.wlist)
			} else {
				ps[i] = kit.Pick(w.c.R, w.list)
			}
		}
	}
	for _, p := range ps {
		w.hit(p)
	}
	for i := 0; i < 4+len(ps)/4; i++ {
		w.miss(w.nonWord())
	}
	w.miss("")
	w.counts()
	w.checkTags()
}

// tree checks the structure of the whole index.
func (w *world) tree() {
	n := len(w.nodes)
	byID := make([]string, n+1)
	seen := make([]bool, n+1)
	for _, p := range w.list {
		node, err := w.idx.FetchString(p)
		if err != nil {
			w.fail("tree", "FetchString(%q): %v", p, err)
		}
		id := nodeID(node)
		if id == 0 || int(id) > n {
			w.fail("tree", "node %q has id %d of %d", p, id, n)
		}
		if seen[id] {
			w.fail("tree", "nodes %q and %q share id %d", byID[id], p, id)
		}
		if known := w.nodes[p]; known != 0 && known != id {
			w.fail("tree", "node %q has id %d, before it had %d", p, id, known)
		}
		w.nodes[p] = id
		seen[id] = true
		byID[id] = p
	}
	for id := 1; id <= n; id++ {
		p := byID[id]
		rs := []rune(p)
		parent := string(rs[:len(rs)-1])
		node, err := w.idx.Get(dag.ID(id))
		if err != nil {
			w.fail("tree", "Get(%d) of %q: %v", id, p, err)
		}
		if node.Word() != p {
			w.fail("tree", "Get(%d) spells %q, looking %q up gives that id", id, node.Word(), p)
		}
		in, ok := node.(*index.Node)
		if !ok {
			w.fail("tree", "Get(%d) is a %T", id, node)
		}
		item := in.Item()
		if item.ID != dag.ID(id) || item.Letter != rs[len(rs)-1] || item.Parent != w.nodes[parent] {
			w.fail("tree", "item of %q: %+v, expected id %d parent %d letter %q", p, item, id, w.nodes[parent], rs[len(rs)-1])
		}
		w.children(dag.ID(id), p, w.idx.GetChildrenMap(dag.ID(id)))
		w.c.Count("tree_nodes_checked", 1)
	}
	w.children(0, "", w.idx.GetChildrenMap(0))
	w.children(0, "", w.idx.Children())
	w.counts()
	// letter by letter and from inner nodes
	for k := 0; k < 40 && n > 0; k++ {
		p := kit.Pick(w.c.R, w.list)
		rs := []rune(p)
		cut := w.c.R.Intn(len(rs))
		from := dag.ID(0)
		if cut > 0 {
			from = w.nodes[string(rs[:cut])]
		}
		a, err := w.idx.FetchFromItem(from, rs[cut:])
		if err != nil {
			w.fail("tree", "FetchFromItem(%d %q, %q): %v", from, string(rs[:cut]), string(rs[cut:]), err)
		}
		b, err := w.idx.FetchItemFromParent(from, rs[cut:])
		if err != nil {
			w.fail("tree", "FetchItemFromParent(%d %q, %q): %v", from, string(rs[:cut]), string(rs[cut:]), err)
		}
		if nodeID(a) != w.nodes[p] || b.Id() != w.nodes[p] {
			w.fail("tree", "from inner node %q by %q: ids %d %d, expected %d", string(rs[:cut]), string(rs[cut:]), nodeID(a), b.Id(), w.nodes[p])
		}
		cur := dag.ID(0)
		for i := range rs {
			next, ok := w.idx.GetChildrenMap(cur)[rs[i]]
			if !ok {
				w.fail("tree", "following %q: no child %q at %d", p, rs[i], cur)
			}
			cur = nodeID(next)
			if idm := w.idx.GetChildrenIDMap(w.nodes[string(rs[:i])]); idm[rs[i]] != cur {
				w.fail("tree", "following %q: GetChildrenIDMap says %d, GetChildrenMap %d", p, idm[rs[i]], cur)
			}
		}
		if cur != w.nodes[p] {
			w.fail("tree", "following %q letter by letter leads to %d, expected %d", p, cur, w.nodes[p])
		}
		w.c.Count("paths_followed", 1)
	}
	// continuations of inner nodes, most of them unknown
	for k := 0; k < 60 && n > 0; k++ {
		p := kit.Pick(w.c.R, w.list)
		rest := []rune(w.nonWord())
		if w.c.R.Chance(40) {
			rest = nil
			for i := w.c.R.Range(1, 9); i > 0; i-- {
				rest = append(rest, w.letter())
			}
		}
		if w.c.R.Chance(20) { // a known node and more
			full := []rune(kit.Pick(w.c.R, w.list))
			cut := w.c.R.Range(1, len(full))
			p, rest = string(full[:cut]), append(append([]rune{}, full[cut:]...), w.letter(), w.letter())
		}
		if len(rest) == 0 {
			continue
		}
		full := string([]rune(p)) + string(rest)
		_, known := w.nodes[full]
		a, err := w.idx.FetchFromItem(w.nodes[p], rest)
		if (err == nil) != known || known && nodeID(a) != w.nodes[full] {
			w.fail("tree", "continuing %q by %q: node %d, %v; known %v as %d", p, string(rest), nodeID(a), err, known, w.nodes[full])
		}
		b, err := w.idx.FetchItemFromParent(w.nodes[p], rest)
		if (err == nil) != known || known && b.Id() != w.nodes[full] {
			w.fail("tree", "continuing %q by %q from its parent: %v; known %v as %d", p, string(rest), err, known, w.nodes[full])
		}
		w.c.Count("continuations_checked", 1)
	}
}

func (w *world) children(id dag.ID, p string, got dag.NodeMap) {
	want := w.kids[p]
	if len(got) != len(want) {
		w.fail("tree", "node %d %q has %d children, expected %d", id, p, len(got), len(want))
	}
	for l, child := range got {
		if !want[l] {
			w.fail("tree", "node %d %q has child %q which was never added", id, p, l)
		}
		if nodeID(child) != w.nodes[p+string(l)] || child.Word() != p+string(l) {
			w.fail("tree", "child %q of %q: id %d spells %q, expected id %d", l, p, nodeID(child), child.Word(), w.nodes[p+string(l)])
		}
	}
}

// ---- generators -----------------------------------------------------------

var alphabets = [][]rune{
	[]rune("ab"),
	[]rune("abc"),
	[]rune("абвгдеёж"),
	[]rune("abcdefghijklmnopqrstuvwxyz"),
	[]rune("абвгдеёжзийклмнопрстуфхцчшщъыьэюя-"),
	{0, 1, 'a', 0x7f, 0x80, 0xff, 0x100, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x1f600, 0x10ffff},
	{0, 'a'},
	[]rune("日本語漢字かな"),
	[]rune("аАеЕёЁйЙиИ"),
	{'i', 'I', 'ı', 'İ', 'k', 'K', 0x212a, 's', 'ſ', 'ß', 'ẞ', 'σ', 'ς', 'Σ'},
	{'e', 'é', 'e', 0x301, 'и', 0x306, 'й', 0xad, 0xfeff, 0xa0, '\'', '\u2019', '-', '\u2010'},
	{0xfffd, 0xfffd, 0xfffd, 'a', 'ж', 0xe000},
	{'e', 0x301, 0x308, 0x200d, 0x1f469, 0x1f3fd, ' ', '\n', '\t', '"'},
}

func (w *world) pickAlphabet() { w.alpha = kit.Pick(w.c.R, alphabets) }

func (w *world) letter() rune { return kit.Pick(w.c.R, w.alpha) }

func (w *world) freshWord(maxLen int) string {
	r := w.c.R
	n := 1 + r.Intn(maxLen)
	if r.Chance(50) {
		n = 1 + r.Intn(min(maxLen, 5))
	}
	var rs []rune
	if len(w.list) > 0 && r.Chance(55) { // share a prefix
		base := []rune(kit.Pick(r, w.list))
		rs = append(rs, base[:r.Intn(len(base)+1)]...)
	}
	if len(w.list) > 0 && r.Chance(8) {
		if near := nearWord(r, kit.Pick(r, w.list)); near != "" && len([]rune(near)) <= maxLen+5 {
			return near
		}
	}
	for i := 0; i < n || len(rs) == 0; i++ {
		rs = append(rs, w.letter())
	}
	return string(rs)
}

// nearWord makes a string that people could take for the one given.
func nearWord(r *kit.Rand, word string) string {
	switch r.Intn(9) {
	case 0:
		return strings.ToUpper(word)
	case 1:
		return strings.ToLower(word)
	case 2:
		return strings.ToTitle(word[:len(string([]rune(word)[:1]))]) + string([]rune(word)[1:])
	case 3:
		return strings.NewReplacer("ё", "е", "Ё", "Е", "е", "ё", "й", "и\u0306", "é", "e\u0301").Replace(word)
	case 4:
		return word + kit.Pick(r, []string{" ", "\n", "\x00", "\u00ad", "\ufeff"})
	case 5:
		return kit.Pick(r, []string{" ", "\x00", "\ufeff", "-"}) + word
	case 6:
		return strings.TrimSpace(word)
	case 7:
		rs := []rune(word)
		for i, k := 0, len(rs)-1; i < k; i, k = i+1, k-1 {
			rs[i], rs[k] = rs[k], rs[i]
		}
		return string(rs)
	}
	return word + word
}

// nonWord makes a string likely not to be a known prefix.
func (w *world) nonWord() string {
	r := w.c.R
	if len(w.list) == 0 || r.Chance(20) {
		return w.freshWord(4)
	}
	base := []rune(kit.Pick(r, w.list))
	switch r.Intn(6) {
	case 5:
		return nearWord(r, string(base))
	case 0:
		return string(base) + string(w.letter())
	case 1:
		base[r.Intn(len(base))] = w.letter()
	case 2:
		base = append(base, kit.Pick(r, kit.Pick(r, alphabets)))
	case 3:
		return string(base) + "\x00"
	case 4:
		return "\x00" + string(base)
	}
	return string(base)
}

func tagName(i int) string { return fmt.Sprintf("t%03d", i) }

var oddTags = []string{"NOUN", "VERB", "nomn", "gent", "plur", "Name", "----", "LATN", "да", "\x00\x00\x00\x01", "a b ", " abc", "\xff\xfe\xfd\xfc"}

func (w *world) randomTag() (string, string) {
	r := w.c.R
	name := tagName(r.Intn(255))
	if r.Chance(30) {
		name = kit.Pick(r, oddTags)
	}
	if len(w.tags) > 0 && r.Chance(15) { // differs little from a known one
		b := []byte(kit.Pick(r, w.tags).name)
		switch r.Intn(3) {
		case 0:
			b = bytes.ToUpper(b)
		case 1:
			b[r.Intn(len(b))] ^= 0x20
		case 2:
			b[0], b[len(b)-1] = b[len(b)-1], b[0]
		}
		if n := string(b); len(n) == 4 && n != "    " && n != "----" {
			name = n
		}
	}
	parent := ""
	switch {
	case len(w.tags) > 0 && r.Chance(60):
		parent = kit.Pick(r, w.tags).name
	case r.Chance(20):
		parent = tagName(r.Intn(300))
	}
	return name, parent
}

// randomSet picks a set of distinct tags in random order.
func (w *world) randomSet(maxSize int) []int {
	if len(w.tags) == 0 {
		return nil
	}
	n := 1 + w.c.R.Intn(min(maxSize, len(w.tags)))
	return w.c.R.Perm(len(w.tags))[:n]
}

// ---- save and load --------------------------------------------------------

func saveIndex(idx *index.Index) ([]byte, error) {
	buf := new(bytes.Buffer)
	err := idx.BinaryWriteTo(binutils.NewBinaryWriter(buf))
	return buf.Bytes(), err
}

func loadIndex(data []byte) (*index.Index, error) {
	idx := index.New()
	err := idx.BinaryReadFrom(binutils.NewBinaryReader(bytes.NewReader(data)))
	return idx, err
}

func (w *world) save() []byte {
	data, err := saveIndex(w.idx)
	if err != nil {
		w.fail("storage", "saving: %v", err)
	}
	w.c.Count("saves", 1)
	w.c.Max("saved_bytes", len(data))
	return data
}

// reload replaces the index by a saved and loaded copy, which has to give the same answers.
func (w *world) reload() {
	w.c.Op("save and load")
	data := w.save()
	idx, err := loadIndex(data)
	if err != nil {
		w.fail("storage", "loading what was saved (%d bytes): %v", len(data), err)
	}
	w.c.Count("loads", 1)
	if w.c.Prop == "C02" {
		a := observe(w.idx)
		w.c.Count("observations_compared", len(a))
		if d := diffObs(a, observe(idx)); d != "" {
			w.c.Fail("loaded index differs from the original: %s", d)
		}
	}
	w.idx = idx
	w.handles = nil
}

func (w *world) optimize() {
	w.c.Op("Optimize()")
	w.idx.Optimize()
	w.c.Count("optimizations", 1)
}

// observe writes down everything an index answers.
func observe(idx *index.Index) []string {
	var res []string
	add := func(format string, args ...any) { res = append(res, fmt.Sprintf(format, args...)) }
	add("nodes %d words %d", idx.NodesCount(), idx.WordsCount())
	tags := idx.Tags()
	for i := 0; i < tags.Len(); i++ {
		t, ok := tags.Get(dag.TagID(i))
		add("tag %d %q %q %v", i, t.Name, t.Parent, ok)
	}
	for id := 0; id <= idx.NodesCount(); id++ {
		kids := idx.GetChildrenMap(dag.ID(id))
		ks := make([]string, 0, len(kids))
		for l, k := range kids {
			ks = append(ks, fmt.Sprintf("%d:%d", l, nodeID(k)))
		}
		sort.Strings(ks)
		if id == 0 {
			add("root %v", ks)
			continue
		}
		n, err := idx.Get(dag.ID(id))
		if err != nil {
			add("node %d error", id)
			continue
		}
		in := n.(*index.Node)
		it := in.Item()
		w := n.Word()
		f := dag.ID(0)
		if fn, err := idx.FetchString(w); err == nil {
			f = nodeID(fn)
		}
		// in the order given: order of tags and sets is part of the answer
		add("node %d parent %d letter %d word %q lookup %d sets %v kids %v", it.ID, it.Parent, it.Letter, w, f, n.TagSets(), ks)
	}
	return res
}

func diffObs(a, b []string) string {
	for i := 0; i < len(a) || i < len(b); i++ {
		var x, y string
		if i < len(a) {
			x = a[i]
		}
		if i < len(b) {
			y = b[i]
		}
		if x != y {
			return fmt.Sprintf("first %q, second %q", x, y)
		}
	}
	return ""
}
