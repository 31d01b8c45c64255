package main

import (
	"encoding/xml"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strings"

	"github.com/amarin/gomorphy/internal/zverif/kit"
	"github.com/amarin/gomorphy/pkg/opencorpora"
)

// ---- C28 --------------------------------------------------------------------

// elem is a start mark in a text.
type elem struct {
	path       string
	start, end int
	empty      bool // of the form <x/>
	closeAt    int  // where the end mark begins, for those that have one
	closeEnd   int
}

// elements lists the start marks of a well-formed text.
func elements(c *kit.Case, text string) (res []elem) {
	dec := xml.NewDecoder(strings.NewReader(text))
	var open []int
	path := ""
	for {
		from := int(dec.InputOffset())
		tok, err := dec.Token()
		if err != nil {
			break
		}
		to := int(dec.InputOffset())
		switch t := tok.(type) {
		case xml.StartElement:
			path += "." + t.Name.Local
			open = append(open, len(res))
			res = append(res, elem{path: path, start: from, end: to, empty: strings.HasSuffix(text[from:to], "/>")})
		case xml.EndElement:
			e := &res[open[len(open)-1]]
			open = open[:len(open)-1]
			e.closeAt, e.closeEnd = from, to
			path = path[:len(path)-1-len(t.Name.Local)]
		}
	}
	if len(open) != 0 || len(res) == 0 {
		c.Skip("harness: the dictionary made is not well-formed")
	}
	return res
}

func pathed(es []elem, paths ...string) (res []elem) {
	for _, e := range es {
		for _, p := range paths {
			if e.path == p {
				res = append(res, e)
			}
		}
	}
	return res
}

var attrRe = map[string]*regexp.Regexp{}

func init() {
	for _, n := range []string{"id", "rev", "t", "v", "parent", "version", "revision"} {
		attrRe[n] = regexp.MustCompile(`\s` + n + `=("[^"]*"|'[^']*')`)
	}
}

// setAttr replaces or removes an attribute of a start mark.
func setAttr(text string, e elem, name, value string, remove bool) string {
	mark := text[e.start:e.end]
	with := ""
	if !remove {
		with = " " + name + `="` + value + `"`
	}
	return text[:e.start] + attrRe[name].ReplaceAllLiteralString(mark, with) + text[e.end:]
}

const (
	pLemma = ".dictionary.lemmata.lemma"
	pGram  = ".dictionary.grammemes.grammeme"
)

const malformations = 22

// malform makes one fault in a good dictionary. The text returned is still well-formed XML.
func malform(c *kit.Case, d *dict, kind int) (text, what string) {
	r := c.R
	text = d.xml(r)
	es := elements(c, text)
	pick := func(paths ...string) (elem, bool) {
		l := pathed(es, paths...)
		if len(l) == 0 {
			return elem{}, false
		}
		k := r.Intn(len(l))
		if r.Chance(25) {
			k = len(l) - 1
		} else if r.Chance(25) {
			k = 0
		}
		return l[k], true
	}
	notInt := func() string {
		return kit.Pick(r, []string{"", "x", "1.5", "1e3", "99999999999999999999", "--1", "0x1F", "1 2", " 7", "7 ", "١", "12a"})
	}
	gone := func(name string, paths ...string) (string, string) {
		e, ok := pick(paths...)
		if !ok {
			return "", ""
		}
		t := setAttr(text, e, name, "", true)
		if r.Chance(40) { // there are others
			at := e.start + 1 + len(e.path) - 1 - strings.LastIndex(e.path, ".")
			t = t[:at] + kit.Pick(r, []string{` x="1"`, ` value="1"`, ` tt="x"`, ` V="NOUN"`, ` T="слово"`, ` ids="7"`, ` a=""`}) + t[at:]
		}
		return t, fmt.Sprintf("attribute %s of %s at %d is missing", name, e.path, e.start)
	}
	bad := func(name, value string, paths ...string) (string, string) {
		e, ok := pick(paths...)
		if !ok {
			return "", ""
		}
		return setAttr(text, e, name, value, false), fmt.Sprintf("attribute %s of %s at %d is %q", name, e.path, e.start, value)
	}
	reTag := func(how func(d *dict)) string {
		n := *d
		n.grams = append([]gram{}, d.grams...)
		n.lemmas = append([]lemma{}, d.lemmas...)
		how(&n)
		return n.xml(r)
	}
	odd := func() string {
		return kit.Pick(r, []string{"N", "No", "nou", "NOUNS", "nouns and more", "сущ", "сущь", "NOUN ", " NOUN", "日本"})
	}
	switch kind % malformations {
	case 0:
		return gone("id", pLemma)
	case 1:
		return gone("rev", pLemma)
	case 2:
		return gone("t", pLemma+".l")
	case 3:
		return gone("t", pLemma+".f")
	case 4:
		return gone("v", pLemma+".l.g")
	case 5:
		return gone("v", pLemma+".f.g")
	case 6:
		return gone("parent", pGram)
	case 7:
		return bad("id", notInt(), pLemma)
	case 8:
		return bad("rev", notInt(), pLemma)
	case 9:
		return bad("t", "", pLemma+".f")
	case 10:
		v := notInt()
		return bad("revision", v, ".dictionary")
	case 11:
		return bad("version", kit.Pick(r, []string{"", "x", "0.9.2", "1,5", "v1"}), ".dictionary")
	case 12, 13, 14: // an element that does not belong there
		inside := kit.Pick(r, es)
		if r.Bool() { // elements of which there are few, too
			var ok bool
			if inside, ok = pick(kit.Pick(r, documented)); !ok {
				return "", ""
			}
		}
		at := inside.end
		if inside.empty { // spelled with an end mark then
			name := inside.path[strings.LastIndex(inside.path, ".")+1:]
			text = text[:inside.end-2] + "></" + name + ">" + text[inside.end:]
			at = inside.end - 1
		} else if r.Bool() {
			at = inside.closeAt
		}
		names := []string{"unknown", "x", "Lemma", "L", "dict", "lemmas", "ff", "lemma-x"}
		known := []string{"dictionary", "grammemes", "grammeme", "name", "alias", "description", "restrictions", "restr", "left", "right", "lemmata", "lemma", "l", "f", "g", "link_types", "type", "links", "link"}
		allowed := map[string]bool{}
		for _, p := range documented {
			allowed[p] = true
		}
		var name string
		if kind%malformations == 12 {
			name = kit.Pick(r, names)
			if r.Bool() { // made of a known one
				name = kit.Pick(r, known)
				if r.Bool() {
					name = kit.Pick(r, []string{"x", "my", "new-", "_", "ext_", "x.", "old"}) + name
				} else {
					name += kit.Pick(r, []string{"_ext", "x", "2", "-x", ".x", "_", "Ext", "_old", "_v2", "s"})
				}
				if strings.HasSuffix(name, "s") { // some are known, too
					name += "x"
				}
			}
		} else {
			for k := 0; k < 20 && (name == "" || allowed[inside.path+"."+name]); k++ {
				name = kit.Pick(r, known)
			}
		}
		if allowed[inside.path+"."+name] {
			return "", ""
		}
		mark := "<" + name + ` id="1" rev="1" t="слово" v="NOUN" parent="">`
		mark += kit.Pick(r, []string{"", "text", "<l t='x'/>"}) + "</" + name + ">"
		return text[:at] + mark + text[at:], fmt.Sprintf("element %s in %s at %d", name, inside.path, at)
	case 15: // an element of another name
		e := kit.Pick(r, es)
		short := e.path[strings.LastIndex(e.path, ".")+1:]
		name := kit.Pick(r, []string{strings.ToUpper(short), short + "s", short + "x", "x" + short, "x-" + short})
		for _, p := range documented {
			if p == strings.TrimSuffix(e.path, short)+name {
				return "", ""
			}
		}
		mark := "<" + name + text[e.start+1+len(short):e.end]
		if e.empty {
			return text[:e.start] + mark + text[e.end:], fmt.Sprintf("%s at %d is called %s", e.path, e.start, name)
		}
		return text[:e.start] + mark + text[e.end:e.closeAt] + "</" + name + ">" + text[e.closeEnd:], fmt.Sprintf("%s at %d is called %s", e.path, e.start, name)
	case 16: // a tag name that can not be stored
		name := odd()
		return reTag(func(n *dict) {
			k := r.Intn(len(n.grams) + 1)
			n.grams = append(n.grams[:k:k], append([]gram{{name, ""}}, n.grams[k:]...)...)
		}), fmt.Sprintf("a tag is called %q", name)
	case 17: // a parent name that can not be stored
		name := odd()
		return reTag(func(n *dict) {
			k := r.Intn(len(n.grams) + 1)
			n.grams = append(n.grams[:k:k], append([]gram{{"zz99", name}}, n.grams[k:]...)...)
		}), fmt.Sprintf("the parent of a tag is called %q", name)
	case 18: // more tags than there can be
		extra := 256 - len(d.grams) + r.Intn(4)
		if r.Chance(30) {
			extra += r.Intn(600)
		}
		return reTag(func(n *dict) {
			for k := 0; k < extra; k++ {
				n.grams = append(n.grams, gram{fmt.Sprintf("%04x", k+0x1000), ""})
			}
		}), fmt.Sprintf("%d tags", len(d.grams)+extra)
	case 20: // a tag without a name
		e, ok := pick(pGram + ".name")
		if !ok {
			return "", ""
		}
		if r.Bool() {
			return text[:e.start] + text[e.closeEnd:], fmt.Sprintf("the tag at %d has no name", e.start)
		}
		return text[:e.start] + "<name/>" + text[e.closeEnd:], fmt.Sprintf("the name of the tag at %d is empty", e.start)
	case 19: // the same with a name whose first piece could be one
		t := reTag(func(n *dict) {
			k := r.Intn(len(n.grams) + 1)
			n.grams = append(n.grams[:k:k], append([]gram{{"zz98", ""}}, n.grams[k:]...)...)
		})
		if !strings.Contains(t, "<name>zz98</name>") {
			return "", ""
		}
		name := kit.Pick(r, []string{"zz98<!-- c -->x", "zz98<![CDATA[x]]>", "<![CDATA[zz98]]> ", "zz98<?pi x?>zz97", "z<!-- c -->zz98", "zz<!---->98<!---->x", "<!-- c -->zz9<!-- c -->", "<!-- zz98 -->", ""})
		return strings.Replace(t, "<name>zz98</name>", "<name>"+name+"</name>", 1), fmt.Sprintf("a tag is called %q", name)
	default: // a word form with a tag that is not declared
		name := kit.Pick(r, []string{"ZzZz", "nomN", "----", "NOUn", "x", "NOUN NOUN", ""})
		if r.Chance(40) { // differs little from a declared one
			name = nearTag(r, d)
		}
		for _, g := range d.grams {
			if g.name == name {
				return "", ""
			}
		}
		if name == "---" {
			return "", ""
		}
		var at int
		t := reTag(func(n *dict) {
			if r.Bool() && len(n.lemmas) > 0 { // in a lemma there is, among its tags
				at = r.Intn(len(n.lemmas))
				l := n.lemmas[at]
				into := func(tags []string) []string {
					for _, g := range d.grams[:r.Intn(min(len(d.grams), 9))] {
						tags = append(tags[:len(tags):len(tags)], g.name)
					}
					k := r.Intn(len(tags) + 1)
					return append(tags[:k:k], append([]string{name}, tags[k:]...)...)
				}
				l.forms = append([]form{}, l.forms...)
				if len(l.forms) == 0 {
					l.forms = []form{{text: "слово"}}
				}
				if r.Bool() {
					l.tags = into(l.tags)
				} else {
					f := &l.forms[r.Intn(len(l.forms))]
					f.tags = into(f.tags)
				}
				n.lemmas[at] = l
				return
			}
			at = r.Intn(len(n.lemmas) + 1)
			l := lemma{text: "слово", tags: []string{d.grams[0].name}, forms: []form{{"слово", nil}, {"слова", []string{name}}}}
			if r.Bool() {
				l = lemma{text: "слово", tags: []string{d.grams[0].name, name}, forms: []form{{"слово", nil}}}
			}
			n.lemmas = append(n.lemmas[:at:at], append([]lemma{l}, n.lemmas[at:]...)...)
		})
		return t, fmt.Sprintf("a form of lemma %d has the tag %q, which is not declared", at, name)
	}
}

func nearTag(r *kit.Rand, d *dict) string {
	b := []byte(kit.Pick(r, d.grams).name)
	switch r.Intn(5) {
	case 0:
		return strings.ToUpper(string(b))
	case 1:
		return strings.ToLower(string(b))
	case 2:
		return string(b) + " "
	case 3:
		return string(b[:3])
	}
	b[r.Intn(len(b))] ^= 0x20
	for _, x := range b {
		if x < '0' || x == '<' || x == '>' || x > 'z' {
			return "ZzZz"
		}
	}
	return string(b)
}

// documented lists the elements of a dictionary.
var documented = []string{
	".dictionary", ".dictionary.grammemes", ".dictionary.grammemes.grammeme", ".dictionary.grammemes.grammeme.name",
	".dictionary.grammemes.grammeme.alias", ".dictionary.grammemes.grammeme.description", ".dictionary.restrictions",
	".dictionary.restrictions.restr", ".dictionary.restrictions.restr.left", ".dictionary.restrictions.restr.right",
	".dictionary.lemmata", ".dictionary.lemmata.lemma", ".dictionary.lemmata.lemma.l", ".dictionary.lemmata.lemma.l.g",
	".dictionary.lemmata.lemma.f", ".dictionary.lemmata.lemma.f.g", ".dictionary.link_types", ".dictionary.link_types.type",
	".dictionary.links", ".dictionary.links.link",
}

func listing(dir string) string {
	entries, _ := os.ReadDir(dir)
	var res []string
	for _, e := range entries {
		res = append(res, e.Name())
	}
	return strings.Join(res, " ")
}

func c28() kit.Check {
	return kit.Check{
		Rule: "A case makes one fault of 22 kinds (missing or non-numeric attributes, elements unknown or out of place, renamed elements, an empty word, tag names and parents that can not be stored, in one piece or several, tags without a name, too many tags, undeclared tags that differ much or little from declared ones) somewhere in a generated dictionary that stays well-formed XML, and compiles it over a previous index or none: it must be refused with an error, the previous index and the directory stay as they were, and the same loader then compiles a good dictionary exactly. Group tolerated adds attributes nobody knows and stray text, which must change nothing. Non-trivial: every case; distinct by fault and text.",
		Groups: []kit.Group{
			{Name: "fault", Quick: 1400, Thorough: 40000, Run: func(c *kit.Case) {
				dir := freshDir(c, "c28")
				var d *dict
				var text, what string
				for try := 0; try < 20 && text == ""; try++ {
					d = randomDict(c.R, sizeOf(c.R, false))
					text, what = malform(c, d, c.Index)
				}
				if text == "" {
					c.Skip("harness: no place for the fault")
				}
				elements(c, text)
				p := putPrevious(c, dir, c.R.Chance(60))
				loader := opencorpora.NewLoader(dir)
				from := filepath.Join(dir, "new.xml")
				good := randomDict(c.R, 4)
				if c.R.Chance(20) { // the loader has already done something
					write(c, from, good.xml(c.R))
					if err := loader.ParseUpdate(from, filepath.Join(dir, "other.dat")); err != nil {
						c.Skip("compiling a dictionary: " + err.Error())
					}
				}
				write(c, from, text)
				before := listing(dir)
				c.Op("%s, fault: %s: %s", d, what, text)
				var err error
				c.NoPanic("compiling", func() { err = loader.ParseUpdate(from, p.to) })
				c.Count("faults", 1)
				c.Count(fmt.Sprintf("fault_%02d", c.Index%malformations), 1)
				if err == nil {
					c.Fail("a dictionary in which %s is compiled without an error", what)
				}
				p.check(c, what, true, false, nil)
				if after := listing(dir); after != before {
					c.Fail("a refused dictionary (%s) left the directory with %q, it was %q", what, after, before)
				}
				if got := read(from); string(got) != text {
					c.Fail("a refused dictionary (%s) was changed", what)
				}
				write(c, from, good.xml(c.R))
				c.NoPanic("compiling after a refusal", func() { err = loader.ParseUpdate(from, p.to) })
				if err != nil {
					c.Fail("after a dictionary was refused (%s) the same loader refuses a good one: %v", what, err)
				}
				if why := holds(c, p.to, good); why != "" {
					c.Fail("after a dictionary was refused (%s) the same loader compiles %s, and the index %s", what, good, why)
				}
				c.Sig(what, text)
				c.NonTrivial()
			}},
			{Name: "tolerated", Quick: 200, Thorough: 4000, Run: func(c *kit.Case) {
				dir := freshDir(c, "c28")
				r := c.R
				d := randomDict(r, sizeOf(r, false))
				text := d.xml(r)
				es := elements(c, text)
				for k := r.Range(1, 12); k > 0; k-- {
					e := kit.Pick(r, es)
					if r.Bool() {
						at := e.end - 1
						if e.empty {
							at--
						}
						extra := fmt.Sprintf(" %s%d=%s", kit.Pick(r, []string{"x", "tt", "T", "V", "idx", "xml:lang", "новый"}), k, kit.Pick(r, []string{`""`, `"v"`, `'7'`, `"&lt;"`}))
						if r.Bool() { // before the others
							at = e.start + 1 + len(e.path) - 1 - strings.LastIndex(e.path, ".")
						}
						text = text[:at] + extra + text[at:]
					} else {
						if e.empty || strings.HasSuffix(e.path, ".name") {
							continue
						}
						text = text[:e.end] + kit.Pick(r, []string{"текст", " x ", "&amp;", "<![CDATA[<f t='x'/>]]>"}) + text[e.end:]
					}
					c.Count("oddities", 1)
					es = elements(c, text)
				}
				from, to := filepath.Join(dir, "new.xml"), filepath.Join(dir, opencorpora.LocalCompiledFilename)
				write(c, from, text)
				c.Op("%s: %s", d, text)
				var err error
				c.NoPanic("compiling", func() { err = opencorpora.NewLoader(dir).ParseUpdate(from, to) })
				if err != nil {
					c.Fail("a dictionary with unknown attributes and stray text is refused: %v", err)
				}
				if why := holds(c, to, d); why != "" {
					c.Fail("a dictionary with unknown attributes and stray text: %s", why)
				}
				c.Sig(text)
				c.NonTrivial()
			}},
		},
	}
}
