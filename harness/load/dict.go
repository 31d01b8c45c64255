package main

import (
	"fmt"
	"os"
	"sort"
	"strings"

	"github.com/amarin/gomorphy/internal/index"
	"github.com/amarin/gomorphy/internal/zverif/kit"
	"github.com/amarin/gomorphy/pkg/dag"
)

type gram struct{ name, parent string }

type form struct {
	text string
	tags []string
}

type lemma struct {
	text  string
	tags  []string
	forms []form
}

// dict is a dictionary of the model.
type dict struct {
	grams  []gram
	lemmas []lemma
	rev    int
}

var realTags = []gram{
	{"POST", ""}, {"NOUN", "POST"}, {"ADJF", "POST"}, {"VERB", "POST"}, {"PRTF", "POST"}, {"ANim", ""}, {"anim", "ANim"},
	{"inan", "ANim"}, {"GNdr", ""}, {"masc", "GNdr"}, {"femn", "GNdr"}, {"neut", "GNdr"}, {"ms-f", "GNdr"}, {"Ms-f", ""},
	{"NMbr", ""}, {"sing", "NMbr"}, {"plur", "NMbr"}, {"CAse", ""}, {"nomn", "CAse"}, {"gent", "CAse"}, {"datv", "CAse"},
	{"accs", "CAse"}, {"ablt", "CAse"}, {"loct", "CAse"}, {"gen1", "gent"}, {"gen2", "gent"}, {"1per", "PErs"},
	{"2per", "PErs"}, {"3per", "PErs"}, {"PErs", ""}, {"V-be", ""}, {"V-en", ""}, {"Abbr", ""}, {"Name", ""}, {"Surn", ""},
}

var wordAlphabets = []string{
	"абвгдеёж", "аб", "abc", "ёйщъ", "abcабв", "日本語𠀋😀", "аб-' ", "ab\u0301\u0308", "0123456789", "<&>\"'x", "аАбБaA",
	"\uFEFFab", "a\u00ADб", "\u00A0\u2003aб", "\u200B\u200Da", "\u2028\u2029\u0085a", "ﬁﬀſsİıI", "\u0301\u0308", "\uFFFDa\uE000", "\U0010FFFF\U00010000a", "йи\u0306ё е\u0308",
}

func (d *dict) String() string {
	return fmt.Sprintf("dictionary of %d tags, %d lemmata, %d words", len(d.grams), len(d.lemmas), len(d.words()))
}

// randomDict makes a dictionary.
func randomDict(r *kit.Rand, lemmas int) *dict {
	d := &dict{rev: r.Intn(1000000)}
	switch r.Intn(5) {
	case 0:
		n := r.Range(1, 40)
		if r.Chance(10) {
			n = 255
		}
		for i := 0; i < n; i++ {
			g := gram{name: fmt.Sprintf("t%03d", i)}
			if i > 0 && r.Chance(60) {
				g.parent = d.grams[r.Intn(i)].name
			} else if r.Chance(20) {
				g.parent = fmt.Sprintf("t%03d", r.Intn(300)) // declared later, or not at all
			}
			d.grams = append(d.grams, g)
		}
	default:
		for _, k := range r.Perm(len(realTags))[:r.Range(2, len(realTags))] {
			d.grams = append(d.grams, realTags[k])
		}
		if r.Bool() {
			sort.Slice(d.grams, func(a, b int) bool { return d.grams[a].name < d.grams[b].name })
		}
	}
	alpha := []rune(kit.Pick(r, wordAlphabets))
	var pool []string
	word := func() string {
		if len(pool) > 0 && r.Chance(35) {
			return kit.Pick(r, pool)
		}
		var rs []rune
		if len(pool) > 0 && r.Chance(50) {
			b := []rune(kit.Pick(r, pool))
			rs = append(rs, b[:r.Range(0, len(b))]...)
		}
		for k := r.Range(1, 6); k > 0 || len(rs) == 0; k-- {
			rs = append(rs, kit.Pick(r, alpha))
		}
		w := string(rs)
		if strings.TrimSpace(w) == "" {
			w = "x" + w
		}
		if r.Chance(2) { // spaces belong to the word, be it short or long
			for k := kit.Pick(r, []int{0, 0, 10, 40, 100}); k > 0; k-- {
				w += string(kit.Pick(r, alpha))
			}
			w = kit.Pick(r, []string{"", " ", "  "}) + w + kit.Pick(r, []string{"", " ", "  "})
		}
		pool = append(pool, w)
		return w
	}
	tags := func(max int, not []string) []string {
		var res []string
		for _, k := range r.Perm(len(d.grams)) {
			if len(res) >= max {
				break
			}
			dup := false
			for _, n := range not {
				dup = dup || n == d.grams[k].name
			}
			if !dup {
				res = append(res, d.grams[k].name)
			}
		}
		return res
	}
	for i := 0; i < lemmas; i++ {
		l := lemma{text: word(), tags: tags(r.Range(0, 4), nil)}
		if len(l.tags) == 0 && r.Chance(80) {
			l.tags = tags(1, nil)
		}
		n := r.Range(1, 6)
		if r.Chance(10) {
			n = 0
		}
		for k := 0; k < n; k++ {
			f := form{text: word()}
			if k == 0 && r.Bool() {
				f.text = l.text
			}
			f.tags = tags(r.Range(0, 4), l.tags)
			if r.Chance(15) && len(l.forms) > 0 {
				f = l.forms[r.Intn(len(l.forms))]
				if r.Bool() {
					f.tags = tags(r.Range(0, 4), l.tags)
				}
			}
			l.forms = append(l.forms, f)
			if r.Chance(3) {
				l.forms = append(l.forms, f)
			}
		}
		d.lemmas = append(d.lemmas, l)
		if r.Chance(5) {
			d.lemmas = append(d.lemmas, l)
		}
	}
	return d
}

// largeDict makes a dictionary of the shape of the real one.
func largeDict(r *kit.Rand, lemmas int) *dict {
	d := &dict{grams: realTags, rev: r.Intn(1000000)}
	alpha := []rune("абвгдеёжзийклмнопрстуфхцчшщъыьэюя")
	for i := 0; i < lemmas; i++ {
		stem := ""
		for k := r.Range(3, 9); k > 0; k-- {
			stem += string(kit.Pick(r, alpha))
		}
		l := lemma{text: stem, tags: []string{"NOUN", kit.Pick(r, []string{"anim", "inan"}), kit.Pick(r, []string{"masc", "neut", "femn"})}}
		for k, e := range []string{"", "а", "у", "ом", "е"} {
			l.forms = append(l.forms, form{stem + e, []string{"sing", []string{"nomn", "gent", "datv", "ablt", "loct"}[k]}})
		}
		d.lemmas = append(d.lemmas, l)
	}
	return d
}

const extremeDicts = 7

// extremeDict makes a dictionary of an unusual form.
func extremeDict(c *kit.Case, kind int) *dict {
	r := c.R
	d := &dict{rev: r.Intn(1000)}
	nTags := r.Range(8, 60)
	if kind%extremeDicts == 3 {
		nTags = 255
	}
	for i := 0; i < nTags; i++ {
		g := gram{name: fmt.Sprintf("%04d", i*7)}
		if i > 0 && r.Bool() {
			g.parent = d.grams[r.Intn(i)].name
		}
		d.grams = append(d.grams, g)
	}
	tags := func(n int) (res []string) {
		for _, k := range r.Perm(nTags) {
			if len(res) == n {
				break
			}
			res = append(res, d.grams[k].name)
		}
		return res
	}
	word := func(n int) string {
		rs := make([]rune, n)
		for i := range rs {
			rs[i] = rune('а' + r.Intn(20))
		}
		return string(rs)
	}
	c.Count(fmt.Sprintf("extreme_%02d", kind%extremeDicts), 1)
	switch kind % extremeDicts {
	case 0: // hundreds of forms in a lemma, among them runs of equal ones
		for i := 0; i < 3; i++ {
			l := lemma{text: word(4), tags: tags(r.Range(0, 2))}
			used := map[string]bool{}
			for _, t := range l.tags {
				used[t] = true
			}
			for k := r.Range(90, 400); k > 0; k-- {
				f := form{text: word(r.Range(2, 6))}
				for _, t := range tags(r.Range(1, 4)) {
					if !used[t] {
						f.tags = append(f.tags, t)
					}
				}
				l.forms = append(l.forms, f)
				for r.Chance(30) {
					g := form{text: f.text, tags: append([]string{}, f.tags...)}
					if r.Chance(60) { // the same word again with other tags
						g.tags = nil
						for _, t := range tags(r.Range(1, 4)) {
							if !used[t] {
								g.tags = append(g.tags, t)
							}
						}
					}
					l.forms = append(l.forms, g)
				}
			}
			d.lemmas = append(d.lemmas, l)
		}
	case 1: // very long words
		for i := 0; i < 4; i++ {
			base := word(r.Range(200, 2500))
			l := lemma{text: base, tags: tags(1)}
			for k := 0; k < 4; k++ {
				l.forms = append(l.forms, form{text: base + word(r.Range(0, 30))})
			}
			d.lemmas = append(d.lemmas, l)
		}
	case 2: // one word with very many readings
		text := word(3)
		seen := map[string]bool{}
		for len(seen) < 200 {
			ts := tags(r.Range(2, 5))
			sorted := append([]string{}, ts...)
			sort.Strings(sorted)
			if k := strings.Join(sorted, ","); !seen[k] {
				seen[k] = true
				cut := r.Intn(len(ts) + 1)
				l := lemma{text: text, tags: ts[:cut:cut], forms: []form{{text, ts[cut:]}}}
				if r.Chance(20) {
					l.forms = append(l.forms, form{word(4), ts[cut:]})
				}
				d.lemmas = append(d.lemmas, l)
			}
		}
	case 3: // all tags, in sets up to all of them
		for i := 0; i < 12; i++ {
			n := kit.Pick(r, []int{1, 8, 60, 127, 128, 250, 254, 255})
			ts := tags(n)
			cut := r.Intn(len(ts) + 1)
			d.lemmas = append(d.lemmas, lemma{text: word(3), tags: ts[:cut:cut], forms: []form{{word(4), ts[cut:]}, {word(5), ts[cut:]}, {word(3), nil}}})
			if cut == 0 {
				l := &d.lemmas[len(d.lemmas)-1]
				l.forms = l.forms[:2]
			}
		}
	case 4: // thousands of small lemmata
		for i := r.Range(1500, 4000); i > 0; i-- {
			d.lemmas = append(d.lemmas, lemma{text: word(4), tags: tags(r.Range(1, 2)), forms: []form{{word(r.Range(1, 7)), nil}}})
		}
	case 5: // every lemma shares words with the one before
		last := word(5)
		for i := 0; i < 150; i++ {
			l := lemma{text: last, tags: tags(r.Range(1, 3))}
			l.forms = append(l.forms, form{last, nil}, form{last[:2], nil})
			last = last[:r.Range(1, 3)*2] + word(r.Range(2, 5))
			l.forms = append(l.forms, form{last, nil}, form{last, nil}, form{l.text, nil})
			d.lemmas = append(d.lemmas, l)
		}
	case 6: // lemmata without forms, tags without lemmata, forms without tags of their own
		for i := 0; i < 200; i++ {
			l := lemma{text: word(4), tags: tags(r.Range(0, 3))}
			if r.Chance(30) {
				l.forms = append(l.forms, form{text: word(r.Range(1, 4))})
			}
			d.lemmas = append(d.lemmas, l)
		}
	}
	return d
}

func (d *dict) parent(name string) string {
	for _, g := range d.grams {
		if g.name == name {
			if g.parent == "" {
				return string(dag.EmptyTagName)
			}
			return g.parent
		}
	}
	return "?"
}

func canonSet(ts dag.TagSet) string {
	s := make([]string, len(ts))
	for i, t := range ts {
		s[i] = string(t.Name) + "/" + string(t.Parent)
	}
	sort.Strings(s)
	return strings.Join(s, ",")
}

// words lists what the index of the dictionary must hold: words with their canonical tag sets.
func (d *dict) words() map[string]map[string]bool {
	parents := map[string]string{}
	for _, g := range d.grams {
		if _, ok := parents[g.name]; !ok {
			parents[g.name] = d.parent(g.name)
		}
	}
	res := map[string]map[string]bool{}
	for _, l := range d.lemmas {
		for _, f := range l.forms {
			var s []string
			for _, t := range append(append([]string{}, l.tags...), f.tags...) {
				s = append(s, t+"/"+parents[t])
			}
			if res[f.text] == nil {
				res[f.text] = map[string]bool{}
			}
			if len(s) == 0 {
				continue // a form without any tag adds none
			}
			sort.Strings(s)
			res[f.text][strings.Join(s, ",")] = true
		}
	}
	return res
}

// differs tells how an index deviates from the dictionary, "" when it holds exactly the dictionary.
func (d *dict) differs(idx *index.Index) (res string) {
	defer func() {
		if p := recover(); p != nil {
			res = fmt.Sprintf("querying panicked: %v", p)
		}
	}()
	tags := idx.Tags()
	if len(tags) != len(d.grams) {
		return fmt.Sprintf("%d tags, the dictionary declares %d", len(tags), len(d.grams))
	}
	for i, t := range tags {
		if string(t.Name) != d.grams[i].name || string(t.Parent) != d.parent(d.grams[i].name) {
			return fmt.Sprintf("tag %d is %q of %q, the dictionary declares %q of %q", i, t.Name, t.Parent, d.grams[i].name, d.parent(d.grams[i].name))
		}
	}
	words := d.words()
	prefixes := map[string]bool{}
	for w, sets := range words {
		rs := []rune(w)
		for i := 1; i <= len(rs); i++ {
			prefixes[string(rs[:i])] = true
		}
		n, err := idx.FetchString(w)
		if err != nil {
			return fmt.Sprintf("word %q is not found: %v", w, err)
		}
		if n.Word() != w {
			return fmt.Sprintf("word %q is found as %q", w, n.Word())
		}
		if why := sameSets(n.TagSets(), sets); why != "" {
			return fmt.Sprintf("word %q: %s", w, why)
		}
	}
	for p := range prefixes {
		n, err := idx.FetchString(p)
		if err != nil {
			return fmt.Sprintf("prefix %q is not found: %v", p, err)
		}
		if words[p] == nil && len(n.TagSets()) > 0 {
			return fmt.Sprintf("%q is no word of the dictionary, it has tag sets %v", p, n.TagSets())
		}
	}
	// everything reachable is a prefix of a word
	count := 0
	var walk func(id dag.ID, prefix string) string
	walk = func(id dag.ID, prefix string) string {
		for letter, child := range idx.GetChildrenIDMap(id) {
			p := prefix + string(letter)
			if !prefixes[p] {
				return fmt.Sprintf("%q is in the index, the dictionary has no such word or prefix", p)
			}
			if count++; count > len(prefixes) {
				return "more nodes are reachable than there are prefixes"
			}
			if why := walk(child, p); why != "" {
				return why
			}
		}
		return ""
	}
	if why := walk(0, ""); why != "" {
		return why
	}
	if count != len(prefixes) {
		return fmt.Sprintf("%d nodes are reachable, the dictionary has %d prefixes", count, len(prefixes))
	}
	return ""
}

func sameSets(got []dag.TagSet, want map[string]bool) string {
	seen := map[string]bool{}
	for _, ts := range got {
		k := canonSet(ts)
		if !want[k] {
			return fmt.Sprintf("tag set (%s) is not in the dictionary, which has %v", k, keys(want))
		}
		if seen[k] {
			return fmt.Sprintf("tag set (%s) twice", k)
		}
		seen[k] = true
	}
	if len(seen) != len(want) {
		return fmt.Sprintf("tag sets %v, the dictionary has %v", keys(seen), keys(want))
	}
	return ""
}

func keys(m map[string]bool) []string {
	var res []string
	for k := range m {
		res = append(res, k)
	}
	sort.Strings(res)
	return res
}

// ---- XML ------------------------------------------------------------------

type writerXML struct {
	b     strings.Builder
	r     *kit.Rand
	style int // 0 compact, 1 indented, 2 wild
}

func (x *writerXML) gap(depth int) {
	switch x.style {
	case 0:
	case 1:
		x.b.WriteString("\n" + strings.Repeat("  ", depth))
	default:
		for k := x.r.Intn(3); k > 0; k-- {
			x.b.WriteString(kit.Pick(x.r, []string{" ", "\n", "\t", "\r\n", "\n\n", "<!-- c -->", "<!--<lemma id=\"7\">-->", "<?pi x?>"}))
		}
	}
}

func (x *writerXML) attrs(kv ...string) string {
	pairs := make([]string, 0, len(kv)/2)
	for i := 0; i < len(kv); i += 2 {
		q := `"`
		if x.style == 2 && x.r.Bool() {
			q = "'"
		}
		pairs = append(pairs, " "+kv[i]+"="+q+x.escape(kv[i+1])+q)
	}
	if x.style == 2 {
		for i, k := range x.r.Perm(len(pairs)) {
			pairs[i], pairs[k] = pairs[k], pairs[i]
		}
	}
	s := strings.Join(pairs, "")
	if x.style == 2 {
		s += kit.Pick(x.r, []string{"", " ", "\n"})
	}
	return s
}

func (x *writerXML) escape(s string) string {
	var b strings.Builder
	for _, c := range s {
		switch {
		case c == '&':
			b.WriteString("&amp;")
		case c == '<':
			b.WriteString("&lt;")
		case c == '>':
			b.WriteString("&gt;")
		case c == '"':
			b.WriteString("&quot;")
		case c == '\'':
			b.WriteString("&apos;")
		case x.style == 2 && x.r.Chance(5):
			fmt.Fprintf(&b, "&#x%x;", c)
		case x.style == 2 && x.r.Chance(5):
			fmt.Fprintf(&b, "&#%d;", c)
		default:
			b.WriteRune(c)
		}
	}
	return b.String()
}

func (x *writerXML) empty(name string, kv ...string) {
	a := x.attrs(kv...)
	if x.style == 2 && x.r.Bool() {
		fmt.Fprintf(&x.b, "<%s%s></%s>", name, a, name)
		return
	}
	fmt.Fprintf(&x.b, "<%s%s/>", name, a)
}

func (x *writerXML) open(name string, kv ...string) {
	x.b.WriteString("<" + name + x.attrs(kv...) + ">")
}
func (x *writerXML) end(name string) { x.b.WriteString("</" + name + ">") }

// xml spells the dictionary.
func (d *dict) xml(r *kit.Rand) string {
	x := &writerXML{r: r, style: r.Intn(3)}
	if r.Chance(80) {
		x.b.WriteString(`<?xml version="1.0" encoding="utf-8" standalone="yes"?>`)
	}
	if x.style == 2 && r.Chance(20) {
		x.b.WriteString("\n<!DOCTYPE dictionary>\n")
	}
	x.gap(0)
	x.open("dictionary", "version", "0.92", "revision", fmt.Sprint(d.rev))
	x.gap(1)
	place := []int{2, 3} // the places of restrictions and links: 1 first, 2 before the lemmata, 3 at the end
	if x.style == 2 && r.Chance(30) {
		place = []int{r.Range(1, 3), r.Range(1, 3)}
	}
	x.section(place, 1)
	x.open("grammemes")
	for _, g := range d.grams {
		x.gap(2)
		x.open("grammeme", "parent", g.parent)
		x.gap(3)
		x.name(g.name)
		x.gap(3)
		if r.Chance(80) {
			x.b.WriteString("<alias>" + x.escape("алиас") + "</alias>")
			x.gap(3)
			x.b.WriteString("<description>" + x.escape("описание <"+g.name+">") + "</description>")
		}
		x.gap(2)
		x.end("grammeme")
	}
	x.gap(1)
	x.end("grammemes")
	x.gap(1)
	x.section(place, 2)
	x.open("lemmata")
	for i, l := range d.lemmas {
		x.gap(2)
		id, rev := fmt.Sprint(i+1), fmt.Sprint(r.Intn(100000))
		if x.style > 0 && r.Chance(10) { // any number will do
			id = kit.Pick(r, []string{"0", "1", "-1", "-2147483649", "007", "2147483648", "9223372036854775807"})
		}
		if x.style > 0 && r.Chance(10) {
			rev = kit.Pick(r, []string{"0", "1", "-1", "00", "4294967296", "9223372036854775807"})
		}
		x.open("lemma", "id", id, "rev", rev)
		at := 0 // where the lemma itself stands among its forms
		if x.style == 2 && r.Chance(20) {
			at = r.Range(0, len(l.forms))
		}
		for k := 0; k <= len(l.forms); k++ {
			if k == at {
				x.gap(3)
				x.word("l", l.text, l.tags)
			}
			if k < len(l.forms) {
				x.gap(3)
				x.word("f", l.forms[k].text, l.forms[k].tags)
			}
		}
		x.gap(2)
		x.end("lemma")
	}
	x.gap(1)
	x.end("lemmata")
	x.gap(1)
	x.section(place, 3)
	x.gap(0)
	x.end("dictionary")
	if r.Bool() {
		x.b.WriteString("\n")
	}
	return x.b.String()
}

// section writes restrictions and links, if this is their place.
func (x *writerXML) section(place []int, here int) {
	r := x.r
	if place[0] == here && r.Chance(70) {
		x.open("restrictions")
		for k := r.Intn(4); k > 0; k-- {
			x.gap(2)
			x.open("restr", "type", "maybe", "auto", "0")
			x.b.WriteString(`<left type="lemma">NOUN</left>`)
			x.gap(3)
			x.b.WriteString(`<right type="form">nomn</right>`)
			x.end("restr")
		}
		x.gap(1)
		x.end("restrictions")
		x.gap(1)
	}
	if place[1] == here && r.Chance(70) {
		x.open("link_types")
		x.gap(2)
		x.b.WriteString(`<type id="1">ADJF-ADJS</type>`)
		x.gap(1)
		x.end("link_types")
		x.gap(1)
		x.open("links")
		for k := r.Intn(5); k > 0; k-- {
			x.gap(2)
			x.empty("link", "id", fmt.Sprint(k), "from", "1", "to", "2", "type", "1")
		}
		x.gap(1)
		x.end("links")
	}
}

// name spells the name of a grammeme: as it is, escaped, or in pieces that mean the same text.
func (x *writerXML) name(s string) {
	x.b.WriteString("<name>")
	rs := []rune(s)
	for i := 0; i < len(rs); {
		n := len(rs) - i
		if x.style == 2 && x.r.Chance(15) {
			n = x.r.Range(1, n)
		}
		piece := string(rs[i : i+n])
		i += n
		switch {
		case x.style == 2 && x.r.Chance(10):
			x.b.WriteString("<![CDATA[" + piece + "]]>")
		default:
			x.b.WriteString(x.escape(piece))
		}
		if x.style == 2 && x.r.Chance(5) {
			x.b.WriteString(kit.Pick(x.r, []string{"<!-- c -->", "<?pi x?>", "<!---->"}))
		}
	}
	x.b.WriteString("</name>")
}

func (x *writerXML) word(name, text string, tags []string) {
	if len(tags) == 0 && x.r.Bool() {
		x.empty(name, "t", text)
		return
	}
	x.open(name, "t", text)
	for _, t := range tags {
		if x.style == 2 {
			x.gap(4)
		}
		x.empty("g", "v", t)
	}
	x.end(name)
}

func write(c *kit.Case, path, text string) {
	if err := os.WriteFile(path, []byte(text), 0o644); err != nil {
		c.Skip("harness: " + err.Error())
	}
}
