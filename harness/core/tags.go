package main

import (
	"bytes"
	"fmt"
	"io"
	"strings"
	"sync"

	"github.com/amarin/binutils"

	"github.com/amarin/gomorphy/internal/zverif/kit"
	"github.com/amarin/gomorphy/pkg/dag"
)

var names4 = []string{"NOUN", "VERB", "nomn", "gent", "Name", "LATN", "да", "ъэ", "日a", "\x00\x00\x00\x00", "\xff\xfe\xfd\xfc", "a   ", "   a", " -- ", "--- ", "a\x00b\n"}

// name4 makes a valid name of four bytes.
func name4(r *kit.Rand) string {
	if r.Chance(40) {
		return kit.Pick(r, names4)
	}
	b := make([]byte, 4)
	for i := range b {
		b[i] = byte('a' + r.Intn(26))
		if r.Chance(5) {
			b[i] = byte(r.Intn(256))
		}
	}
	if string(b) == "    " {
		b[0] = 'x'
	}
	return string(b)
}

// anyName makes a name of any kind.
func anyName(r *kit.Rand) string {
	if r.Chance(25) {
		return kit.Pick(r, []string{"", "----", "abc", "abcde", "имя", "существительное", " ", "     ", "日本", "a", "----x", "-"})
	}
	return name4(r)
}

// nearName makes a name that differs little from the one given.
func nearName(r *kit.Rand, name string) string {
	b := []byte(name)
	switch r.Intn(10) {
	case 0:
		return strings.ToUpper(name)
	case 1:
		return strings.ToLower(name)
	case 2:
		return strings.ToUpper(name[:len(name)/2]) + strings.ToLower(name[len(name)/2:])
	case 3:
		return name + kit.Pick(r, []string{" ", "\x00", "-", "a", "\n"})
	case 4:
		return kit.Pick(r, []string{" ", "-", "a"}) + name
	case 5:
		return strings.TrimSpace(name)
	case 6:
		for i, k := 0, len(b)-1; i < k; i, k = i+1, k-1 {
			b[i], b[k] = b[k], b[i]
		}
	case 7:
		if len(b) > 0 {
			b = b[:len(b)-1]
		}
	default:
		if len(b) > 0 {
			b[r.Intn(len(b))] ^= 1 << r.Intn(8)
		}
	}
	return string(b)
}

// nearName4 makes a valid name of four bytes that differs little from the one given.
func nearName4(r *kit.Rand, name string) string {
	for i := 0; i < 8; i++ {
		if n := nearName(r, name); len(n) == 4 && n != "    " && n != "----" {
			return n
		}
	}
	return name4(r)
}

func norm(s string) string {
	if s == "" {
		return "----"
	}
	return s
}

type tagDef struct{ name, parent string }

type registryModel struct {
	c    *kit.Case
	reg  dag.Idx
	tags []tagDef
	ids  map[string]int
}

func (m *registryModel) register(name, parent string) {
	c := m.c
	var id dag.TagID
	p, _ := kit.Try(func() { id = m.reg.Index(dag.TagName(name), dag.TagName(parent)) })
	c.Count("registrations", 1)
	known, ok := m.ids[name]
	switch {
	case p != nil && (ok || len(m.tags) < 256):
		c.Fail("registering %q with %d tags registered panicked: %v", name, len(m.tags), p)
	case p != nil:
		c.Count("refusals", 1)
		if id, found := m.reg.Find(dag.TagName(name)); found {
			c.Fail("refused tag %q is found as %d", name, id)
		}
		return
	case ok && int(id) != known:
		c.Fail("tag %q has id %d, registered again it has %d", name, known, id)
	case !ok && len(m.tags) >= 256:
		c.Fail("tag %q was registered as %d when all ids are taken (by %q)", name, id, m.tags[id].name)
	case !ok && int(id) != len(m.tags):
		c.Fail("new tag %q has id %d, expected %d", name, id, len(m.tags))
	}
	if !ok {
		m.ids[name] = len(m.tags)
		m.tags = append(m.tags, tagDef{name, norm(parent)})
	}
	m.get(int(id))
}

func (m *registryModel) get(id int) {
	m.c.Count("resolutions", 1)
	got, ok := m.reg.Get(dag.TagID(id))
	known := id < len(m.tags)
	if ok != known {
		m.c.Fail("id %d of %d tags: found %v", id, len(m.tags), ok)
	}
	if known && (string(got.Name) != m.tags[id].name || string(got.Parent) != m.tags[id].parent) {
		m.c.Fail("id %d is %q/%q, registered %q/%q", id, got.Name, got.Parent, m.tags[id].name, m.tags[id].parent)
	}
	if !known && got != (dag.Tag{}) {
		m.c.Fail("unknown id %d is %q/%q", id, got.Name, got.Parent)
	}
}

func (m *registryModel) find(name string) {
	m.c.Count("searches", 1)
	id, ok := m.reg.Find(dag.TagName(name))
	want, known := m.ids[name]
	if ok != known || (ok && int(id) != want) {
		m.c.Fail("searching %q gives %d (%v), registered as %d (%v)", name, id, ok, want, known)
	}
}

func (m *registryModel) whole() {
	if m.reg.Len() != len(m.tags) {
		m.c.Fail("registry has %d tags, %d were registered", m.reg.Len(), len(m.tags))
	}
	for id := 0; id < 256; id++ {
		m.get(id)
	}
	for _, t := range m.tags {
		m.find(t.name)
	}
}

func c10() kit.Check {
	return kit.Check{
		Rule: "A case registers random tag names (also empty, short, long, non-ASCII, and the empty-tag name) with and without parents, mirrored by a list: after each registration its id is resolved, known names are registered again with other parents, and at the end all 256 ids and all names are resolved. Further cases start from a given list of tags, and register past the 256th tag. Non-trivial: at least three tags; distinct by content.",
		Groups: []kit.Group{
			{Name: "capacity", Quick: 12, Thorough: 60, Run: func(c *kit.Case) {
				m := &registryModel{c: c, reg: dag.NewIndex(), ids: map[string]int{}}
				n := c.R.Range(254, 300)
				for i := 0; i < n; i++ {
					m.register(fmt.Sprintf("t%03d", i), kit.Pick(c.R, []string{"", "t001", "POST"}))
				}
				c.Op("register %d tags", n)
				for i := 0; i < 20; i++ {
					m.register(fmt.Sprintf("t%03d", c.R.Intn(256)), "othr") // known ones still work
				}
				m.whole()
				c.Max("tags", len(m.tags))
				c.Sig(n)
				c.NonTrivial()
			}},
			{Name: "given", Quick: 200, Thorough: 4000, Run: func(c *kit.Case) {
				m := &registryModel{c: c, ids: map[string]int{}}
				var tags []dag.Tag
				for i := c.R.Intn(40); i > 0; i-- {
					name, parent := anyName(c.R), kit.Pick(c.R, []string{"", "----", "POST", name4(c.R)})
					if len(m.tags) > 0 && c.R.Chance(30) {
						name = nearName(c.R, kit.Pick(c.R, m.tags).name)
					}
					if _, ok := m.ids[name]; ok {
						continue
					}
					m.ids[name] = len(m.tags)
					m.tags = append(m.tags, tagDef{name, norm(parent)})
					tags = append(tags, dag.Tag{Name: dag.TagName(name), Parent: dag.TagName(parent)})
				}
				c.Op("NewIndex of %q", tags)
				m.reg = dag.NewIndex(tags...)
				m.whole()
				for i := c.R.Intn(10); i > 0; i-- {
					m.register(anyName(c.R), kit.Pick(c.R, []string{"", "POST"}))
				}
				m.whole()
				c.Sig(fmt.Sprint(m.tags))
				if len(m.tags) > 2 {
					c.NonTrivial()
				}
			}},
			{Name: "history", Quick: 2500, Thorough: 80000, Run: func(c *kit.Case) {
				m := &registryModel{c: c, reg: dag.NewIndex(), ids: map[string]int{}}
				for i := c.R.Range(1, 120); i > 0; i-- {
					name := anyName(c.R)
					if len(m.tags) > 0 && c.R.Chance(30) {
						name = kit.Pick(c.R, m.tags).name
						if c.R.Bool() {
							name = nearName(c.R, name)
							c.Count("names_near_a_known_one", 1)
						}
					}
					switch k := c.R.Intn(10); {
					case k < 6:
						parent := ""
						if c.R.Bool() {
							parent = anyName(c.R)
						}
						c.Op("Index(%q, %q)", name, parent)
						m.register(name, parent)
					case k < 8:
						m.find(name)
					default:
						m.get(c.R.Intn(256))
					}
				}
				m.whole()
				c.Sig(fmt.Sprint(m.tags))
				if len(m.tags) > 2 {
					c.NonTrivial()
				}
			}},
		},
	}
}

// ---- stored form ----------------------------------------------------------

func encName(s string) string {
	if s == "" || s == "----" {
		return "    "
	}
	return s
}

func encRegistry(tags []tagDef) []byte {
	b := []byte{byte(len(tags))}
	for _, t := range tags {
		b = append(b, encName(t.parent)...)
		b = append(b, encName(t.name)...)
	}
	return b
}

func makeRegistry(tags []tagDef) dag.Idx {
	reg := make(dag.Idx, 0, len(tags))
	for _, t := range tags {
		reg = append(reg, dag.Tag{Name: dag.TagName(t.name), Parent: dag.TagName(t.parent)})
	}
	return reg
}

func storableName(s string) bool { return s == "" || len(s) == 4 }

type writerTo interface {
	BinaryWriteTo(*binutils.BinaryWriter) error
}

func store(v writerTo) ([]byte, error) {
	buf := new(bytes.Buffer)
	err := v.BinaryWriteTo(binutils.NewBinaryWriter(buf))
	return buf.Bytes(), err
}

func newReader(data []byte) *binutils.BinaryReader {
	return binutils.NewBinaryReader(bytes.NewReader(data))
}

// holds tells if a registry holds exactly the tags given.
func holds(reg dag.Idx, tags []tagDef) bool {
	if reg.Len() != len(tags) {
		return false
	}
	for i, t := range tags {
		g, ok := reg.Get(dag.TagID(i))
		if !ok || norm(string(g.Name)) != norm(t.name) || norm(string(g.Parent)) != norm(t.parent) {
			return false
		}
	}
	return true
}

// sameRegistry checks that a registry holds the tags given and finds them as one that was never stored does.
func sameRegistry(c *kit.Case, what string, got dag.Idx, tags []tagDef) {
	if got.Len() != len(tags) {
		c.Fail("%s: %d tags, expected %d", what, got.Len(), len(tags))
	}
	var normed []tagDef
	for _, t := range tags {
		normed = append(normed, tagDef{norm(t.name), norm(t.parent)})
	}
	fresh := makeRegistry(normed)
	for i, t := range normed {
		g, ok := got.Get(dag.TagID(i))
		if !ok || string(g.Name) != t.name || string(g.Parent) != t.parent {
			c.Fail("%s: tag %d is %q/%q (%v), expected %q/%q", what, i, g.Name, g.Parent, ok, t.name, t.parent)
		}
		id, ok := got.Find(dag.TagName(t.name))
		wantID, wantOk := fresh.Find(dag.TagName(t.name))
		if ok != wantOk || id != wantID {
			c.Fail("%s: searching %q gives %d (%v), before it gave %d (%v)", what, t.name, id, ok, wantID, wantOk)
		}
	}
}

func c11() kit.Check {
	return kit.Check{
		Rule: "A case stores a random registry (names of four bytes, empty or the empty-tag name) and reads it back; registries with names of other lengths in any place and registries of 256 or more tags must be refused with an error; tag names and single tags likewise, also by their byte marshalling. Non-trivial: at least two tags; distinct by content.",
		Groups: []kit.Group{
			{Name: "roundtrip", Quick: 1500, Thorough: 50000, Run: func(c *kit.Case) {
				n := c.R.Intn(20)
				switch {
				case c.Index < 256:
					n = c.Index
				case c.R.Chance(10):
					n = c.R.Intn(256)
				}
				var tags []tagDef
				reg := dag.NewIndex()
				used := map[string]bool{}
				for i := 0; i < n; i++ {
					name := name4(c.R)
					if i > 0 && c.R.Chance(20) {
						name = nearName4(c.R, tags[c.R.Intn(i)].name)
					}
					if used[name] {
						name = fmt.Sprintf("t%03d", i)
					}
					if i == 0 && c.R.Chance(20) {
						name = kit.Pick(c.R, []string{"", "----"})
					}
					used[name] = true
					t := tagDef{name, kit.Pick(c.R, []string{"", "----", name4(c.R)})}
					tags = append(tags, t)
					reg.Index(dag.TagName(t.name), dag.TagName(t.parent))
				}
				c.Op("store a registry of %d tags %.200q", n, tags)
				if !holds(reg, tags) {
					c.Skip("the registry is wrong before it is stored")
				}
				data, err := store(reg)
				if err != nil {
					c.Fail("writing a registry of %d tags: %v", n, err)
				}
				got := makeRegistry([]tagDef{{"used", "----"}, {"befo", "re__"}})
				if err := got.BinaryReadFrom(newReader(data)); err != nil {
					c.Fail("reading a registry of %d tags back: %v", n, err)
				}
				c.Count("registries_stored", 1)
				sameRegistry(c, "read back", got, tags)
				again, err := store(got)
				if err != nil || !bytes.Equal(again, data) {
					c.Fail("a registry read back is stored as other bytes: %d then %d, %v", len(data), len(again), err)
				}
				c.Sig(fmt.Sprint(tags))
				c.Max("tags", n)
				if n > 1 {
					c.NonTrivial()
				}
			}},
			{Name: "refused", Quick: 800, Thorough: 20000, Run: func(c *kit.Case) {
				n := c.R.Range(1, 12)
				var tags []tagDef
				for i := 0; i < n; i++ {
					tags = append(tags, tagDef{fmt.Sprintf("t%03d", i), "POST"})
				}
				bad := kit.Pick(c.R, []string{"a", "ab", "abc", "abcde", "abcdefgh", "имя", "日本", " ", "     ", "ы", "---", "-----", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa"})
				at := c.R.Intn(n)
				if c.R.Bool() {
					tags[at].name = bad
				} else {
					tags[at].parent = bad
				}
				c.Op("store a registry of %d with %q in tag %d", n, bad, at)
				reg := dag.NewIndex()
				for _, t := range tags {
					reg.Index(dag.TagName(t.name), dag.TagName(t.parent))
				}
				if data, err := store(reg); err == nil {
					c.Fail("a registry with tag %q/%q was written without an error as %x", tags[at].name, tags[at].parent, head(data))
				}
				c.Count("refusals_checked", 1)
				c.Sig(fmt.Sprint(tags))
				c.NonTrivial()
			}},
			{Name: "toomany", Quick: 10, Thorough: 40, Run: func(c *kit.Case) {
				n := 256 + c.Index
				if c.Index > 5 {
					n = 256*(c.Index-4) + c.Index
				}
				var tags []tagDef
				for i := 0; i < n; i++ {
					tags = append(tags, tagDef{fmt.Sprintf("%04d", i), ""})
				}
				c.Op("store a registry of %d tags", n)
				if data, err := store(makeRegistry(tags)); err == nil {
					c.Fail("a registry of %d tags was written without an error (%d bytes, count %d)", n, len(data), data[0])
				}
				if n == 256 { // and through registrations
					reg := dag.NewIndex()
					for _, t := range tags {
						reg.Index(dag.TagName(t.name), "")
					}
					if data, err := store(reg); err == nil {
						c.Fail("a registry of %d tags was written without an error (%d bytes, count %d)", n, len(data), data[0])
					}
				}
				c.Count("refusals_checked", 1)
				c.Sig(n)
				c.NonTrivial()
			}},
			{Name: "names", Quick: 2500, Thorough: 60000, Run: func(c *kit.Case) {
				name, parent := anyName(c.R), anyName(c.R)
				c.Op("name %q, tag %q/%q", name, name, parent)
				c.Count("names_stored", 1)
				data, err := store(dag.TagName(name))
				marsh, merr := dag.TagName(name).MarshalBinary()
				if (err == nil) != storableName(name) || (merr == nil) != storableName(name) {
					c.Fail("storing name %q: %v, marshalling it: %v", name, err, merr)
				}
				if err == nil {
					if string(data) != encName(name) || string(marsh) != encName(name) {
						c.Fail("name %q is stored as %q, marshalled as %q", name, data, marsh)
					}
					var got, got2 dag.TagName = "used", "used"
					if err := got.BinaryReadFrom(newReader(data)); err != nil || string(got) != norm(name) {
						c.Fail("name %q is read back as %q, %v", name, got, err)
					}
					if err := got2.UnmarshalBinary(marsh); err != nil || string(got2) != norm(name) {
						c.Fail("name %q is unmarshalled as %q, %v", name, got2, err)
					}
				}
				t := dag.Tag{Name: dag.TagName(name), Parent: dag.TagName(parent)}
				data, err = store(t)
				if (err == nil) != (storableName(name) && storableName(parent)) {
					c.Fail("storing tag %q/%q: %v", name, parent, err)
				}
				if err == nil {
					got := dag.Tag{Name: "used", Parent: "used"}
					if err := got.BinaryReadFrom(newReader(data)); err != nil || string(got.Name) != norm(name) || string(got.Parent) != norm(parent) {
						c.Fail("tag %q/%q is read back as %q/%q, %v", name, parent, got.Name, got.Parent, err)
					}
				}
				for n := 0; n < 9; n++ {
					if n != 4 {
						var got dag.TagName
						if err := got.UnmarshalBinary(make([]byte, n)); err == nil {
							c.Fail("a name was unmarshalled from %d bytes", n)
						}
					}
				}
				c.Sig(name, parent)
				c.NonTrivial()
			}},
		},
	}
}

func randomTags(r *kit.Rand, n int) []tagDef {
	var tags []tagDef
	used := map[string]bool{}
	for i := 0; i < n; i++ {
		name := name4(r)
		if used[name] {
			name = fmt.Sprintf("t%03d", i)
		}
		used[name] = true
		tags = append(tags, tagDef{name, kit.Pick(r, []string{"----", name4(r)})})
	}
	return tags
}

func registryLayout(c *kit.Case) {
	n := c.R.Intn(30)
	if c.R.Chance(10) {
		n = c.R.Intn(256)
	}
	tags := randomTags(c.R, n)
	want := encRegistry(tags)
	c.Op("registry of %d tags", n)
	reg := dag.NewIndex()
	for _, t := range tags {
		reg.Index(dag.TagName(t.name), dag.TagName(t.parent))
	}
	data, err := store(reg)
	if err != nil || !bytes.Equal(data, want) {
		c.Fail("a registry of %d tags is stored as %x, %v, the layout says %x", n, head(data), err, head(want))
	}
	var got dag.Idx
	if err := got.BinaryReadFrom(newReader(want)); err != nil {
		c.Fail("a registry of %d tags in the layout is not read: %v", n, err)
	}
	sameRegistry(c, "read from the layout", got, tags)
	c.Count("layouts_compared", 2)
	c.Sig(fmt.Sprint(tags))
	if n > 1 {
		c.NonTrivial()
	}
}

// tagDeliveries reads names, tags and registries from sources of several ways of delivery.
func tagDeliveries(c *kit.Case) {
	tags := randomTags(c.R, c.R.Range(1, 20))
	first := tags[0]
	kinds := []struct {
		name string
		data []byte
		read func(r *binutils.BinaryReader) string
		want string
	}{
		{"tag name", []byte(encName(first.name)), func(r *binutils.BinaryReader) string {
			var g dag.TagName
			if err := g.BinaryReadFrom(r); err != nil {
				return "error " + err.Error()
			}
			return fmt.Sprintf("%q", string(g))
		}, fmt.Sprintf("%q", first.name)},
		{"tag", append([]byte(encName(first.parent)), encName(first.name)...), func(r *binutils.BinaryReader) string {
			var g dag.Tag
			if err := g.BinaryReadFrom(r); err != nil {
				return "error " + err.Error()
			}
			return fmt.Sprintf("%q/%q", string(g.Name), string(g.Parent))
		}, fmt.Sprintf("%q/%q", first.name, first.parent)},
		{"registry", encRegistry(tags), func(r *binutils.BinaryReader) string {
			var g dag.Idx
			if err := g.BinaryReadFrom(r); err != nil {
				return "error " + err.Error()
			}
			res := ""
			for _, t := range g {
				res += fmt.Sprintf("%q/%q,", string(t.Name), string(t.Parent))
			}
			return res
		}, func() string {
			res := ""
			for _, t := range tags {
				res += fmt.Sprintf("%q/%q,", t.name, t.parent)
			}
			return res
		}()},
	}
	for _, k := range kinds {
		for mode := range modes {
			for _, eof := range []bool{false, true} {
				tail := c.R.Intn(2) * 7
				src := &dribble{data: append(append([]byte{}, k.data...), make([]byte, tail)...), r: c.R, mode: mode, eof: eof}
				br := binutils.NewBinaryReader(src)
				var got string
				c.NoPanic("reading "+k.name, func() { got = k.read(br) })
				c.Count("deliveries", 1)
				c.Count("source_reads", src.reads)
				if got != k.want {
					c.Fail("%s delivered %s (eof with data %v): %.300s, expected %.300s", k.name, modes[mode], eof, got, k.want)
				}
				if src.at != len(k.data) || br.BytesTaken() != len(k.data) {
					c.Fail("%s of %d bytes delivered %s: %d bytes taken, the reader counts %d", k.name, len(k.data), modes[mode], src.at, br.BytesTaken())
				}
				cut := c.R.Intn(len(k.data))
				src = &dribble{data: k.data[:cut], r: c.R, mode: mode, eof: eof}
				c.NoPanic("reading truncated "+k.name, func() { got = k.read(binutils.NewBinaryReader(src)) })
				c.Count("truncated_deliveries", 1)
				if len(got) < 5 || got[:5] != "error" {
					c.Fail("the first %d of %d bytes of %s delivered %s were read as %.200s", cut, len(k.data), k.name, modes[mode], got)
				}
			}
		}
	}
	for _, k := range kinds {
		for at := range k.data {
			for mode := 0; mode < 4; mode++ {
				src := &failing{dribble: dribble{data: k.data, r: c.R, mode: mode &^ 1}, fail: at, again: mode&1 == 1}
				var got string
				c.NoPanic("reading "+k.name, func() { got = k.read(binutils.NewBinaryReader(src)) })
				c.Count("source_errors", 1)
				if len(got) < 5 || got[:5] != "error" {
					c.Fail("%s of %d bytes from a source that fails before byte %d (going on afterwards: %v) is read as %.200s", k.name, len(k.data), at, src.again, got)
				}
			}
		}
	}
	c.Op("name, tag and registry of %d tags in %d ways", len(tags), 2*len(modes))
	c.Sig(fmt.Sprint(tags))
	c.NonTrivial()
}

func tagFaults(c *kit.Case) {
	tags := randomTags(c.R, c.R.Range(1, 12))
	for name, v := range map[string]writerTo{
		"tag name": dag.TagName(tags[0].name), "tag": dag.Tag{Name: dag.TagName(tags[0].name), Parent: dag.TagName(tags[0].parent)},
		"registry": makeRegistry(tags),
	} {
		data, err := store(v)
		if err != nil {
			c.Skip(fmt.Sprintf("storing %s: %v", name, err))
		}
		for at := 0; at < len(data); at++ {
			for mode := 0; mode < 4; mode++ {
				dst := &limited{left: at, short: mode&1 == 1, later: mode&2 == 2}
				var err error
				c.NoPanic("writing "+name, func() { err = v.BinaryWriteTo(binutils.NewBinaryWriter(io.Writer(dst))) })
				c.Count("faults_injected", 1)
				if err == nil {
					c.Fail("%s of %d bytes written to a destination that stops at byte %d (short write %v): no error", name, len(data), at, dst.short)
				}
			}
		}
	}
	c.Op("name, tag and registry of %d tags to failing destinations", len(tags))
	c.Sig(fmt.Sprint(tags))
	c.NonTrivial()
}

func registryReaders(c *kit.Case) {
	tags := randomTags(c.R, c.R.Range(5, 200))
	reg := makeRegistry(tags)
	if c.R.Bool() {
		data, err := store(reg)
		if err != nil {
			c.Skip(fmt.Sprint("storing: ", err))
		}
		reg = nil
		if err := reg.BinaryReadFrom(newReader(data)); err != nil {
			c.Skip(fmt.Sprint("reading: ", err))
		}
	}
	c.Op("registry of %d tags, 8 readers", len(tags))
	var wg sync.WaitGroup
	bad := make([]string, 8)
	for g := range bad {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			defer func() {
				if p := recover(); p != nil {
					bad[g] = fmt.Sprint("panic: ", p)
				}
			}()
			r := kit.NewRand(uint64(g), uint64(c.Index))
			for k := 0; k < 300; k++ {
				i := r.Intn(len(tags) + 5)
				got, ok := reg.Get(dag.TagID(i))
				if i < 256 && ok != (i < len(tags)) {
					bad[g] = fmt.Sprintf("tag %d of %d: %v", i, len(tags), ok)
				}
				if i < len(tags) {
					if string(got.Name) != tags[i].name {
						bad[g] = fmt.Sprintf("tag %d is %q, expected %q", i, got.Name, tags[i].name)
					}
					if id, ok := reg.Find(dag.TagName(tags[i].name)); !ok || int(id) != i {
						bad[g] = fmt.Sprintf("searching %q: %d %v, expected %d", tags[i].name, id, ok, i)
					}
				}
				if _, ok := reg.Find("?!?!"); ok {
					bad[g] = "unknown name found"
				}
				if k%60 == 0 {
					if data, err := store(reg); err != nil || !bytes.Equal(data, encRegistry(tags)) {
						bad[g] = fmt.Sprintf("stored %x, %v", head(data), err)
					}
				}
			}
		}(g)
	}
	wg.Wait()
	for _, b := range bad {
		if b != "" {
			c.Fail("registry with concurrent readers: %s", b)
		}
	}
	c.Count("concurrent_reads", 8*600)
	c.Sig(fmt.Sprint(tags))
	c.NonTrivial()
}
