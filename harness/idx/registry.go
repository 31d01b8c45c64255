package main

import (
	"bytes"
	"fmt"
	"sort"

	"github.com/amarin/binutils"

	"github.com/amarin/gomorphy/internal/index"
	"github.com/amarin/gomorphy/internal/zverif/kit"
	"github.com/amarin/gomorphy/pkg/dag"
)

// tagSetModel mirrors a tag set registry: content by id and id by content.
type tagSetModel struct {
	c    *kit.Case
	reg  index.TagSetIndex
	byID map[index.TagSetID]string
	ids  map[string]index.TagSetID
	sets []index.TagSet // sorted, in order of registration
}

func setKey(s index.TagSet) string {
	b := make([]byte, len(s))
	for i, t := range s {
		b[i] = byte(t)
	}
	sort.Slice(b, func(i, j int) bool { return b[i] < b[j] })
	return string(b)
}

func sortedSet(s index.TagSet) index.TagSet {
	r := append(index.TagSet{}, s...)
	sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
	return r
}

func (m *tagSetModel) register(s index.TagSet) {
	c := m.c
	k := setKey(s)
	id := m.reg.Index(append(index.TagSet{}, s...))
	c.Count("registrations", 1)
	if known, ok := m.ids[k]; ok {
		if known != id {
			c.Fail("tag set %v has id %#x, registered again it has %#x", s, known, id)
		}
	} else {
		if other, ok := m.byID[id]; ok {
			c.Fail("tag sets %v and %v share id %#x", []byte(other), s, id)
		}
		m.ids[k], m.byID[id] = id, k
		m.sets = append(m.sets, sortedSet(s))
	}
	m.resolve(id)
}

func (m *tagSetModel) resolve(id index.TagSetID) {
	c := m.c
	got, ok := m.reg.Get(id)
	want, known := m.byID[id]
	c.Count("resolutions", 1)
	if ok != known {
		c.Fail("id %#x: found %v (%v), registered %v", id, ok, got, known)
	}
	if !known {
		if len(got) != 0 {
			c.Fail("unknown id %#x is not found but gives %v", id, got)
		}
		return
	}
	if setKey(got) != want || len(got) != len(want) {
		c.Fail("id %#x resolves to %v, registered for %v", id, got, []byte(want))
	}
}

func (m *tagSetModel) find(s index.TagSet) {
	c := m.c
	want, known := m.ids[setKey(s)]
	got, ok := m.reg.Find(sortedSet(s))
	c.Count("searches", 1)
	if len(s) == 0 {
		if ok {
			c.Fail("the empty set is found as %#x", got)
		}
		return
	}
	if ok != known || (known && got != want) {
		c.Fail("searching %v gives %#x %v, registered %v as %#x", s, got, ok, known, want)
	}
}

func (m *tagSetModel) list() {
	c := m.c
	if got := m.reg.Size(); got != len(m.byID) {
		c.Fail("size %d, %d tag sets are registered", got, len(m.byID))
	}
	seen := map[index.TagSetID]bool{}
	for _, id := range m.reg.TableIDs() {
		if _, ok := m.byID[id]; !ok {
			c.Fail("listed id %#x was never given", id)
		}
		if seen[id] {
			c.Fail("id %#x is listed twice", id)
		}
		seen[id] = true
	}
	if len(seen) != len(m.byID) {
		c.Fail("%d ids are listed, %d were given", len(seen), len(m.byID))
	}
	c.Count("listings", 1)
}

// empty registers nothing, which has to be refused or to mean nothing.
func (m *tagSetModel) empty() {
	c := m.c
	c.Op("Index(empty)")
	var id index.TagSetID
	var refused any
	for _, s := range []index.TagSet{nil, {}} {
		refused, _ = kit.Try(func() { id = m.reg.Index(s) })
		c.Count("empty_sets", 1)
		if refused == nil {
			if got, ok := m.reg.Get(id); ok && len(got) > 0 {
				c.Fail("the empty set has id %#x which resolves to %v", id, got)
			}
			if _, ok := m.byID[id]; ok {
				c.Fail("the empty set has id %#x of %v", id, []byte(m.byID[id]))
			}
		}
	}
	m.list()
}

func (m *tagSetModel) reload() {
	c := m.c
	c.Op("write and read")
	buf := new(bytes.Buffer)
	if err := m.reg.BinaryWriteTo(binutils.NewBinaryWriter(buf)); err != nil {
		c.Fail("writing %d tag sets: %v", m.reg.Size(), err)
	}
	var got index.TagSetIndex
	if err := got.BinaryReadFrom(binutils.NewBinaryReader(bytes.NewReader(buf.Bytes()))); err != nil {
		c.Fail("reading %d tag sets back: %v", m.reg.Size(), err)
	}
	m.reg = got
	c.Count("reloads", 1)
}

func randomTagSet(r *kit.Rand, universe, maxLen int) index.TagSet {
	n := r.Range(1, min(maxLen, universe))
	s := make(index.TagSet, 0, n)
	if universe > 32 && n < 16 { // without a permutation of everything
		seen := map[int]bool{}
		for len(s) < n {
			if v := r.Intn(universe); !seen[v] {
				seen[v] = true
				s = append(s, dag.TagID(v))
			}
		}
		return s
	}
	for _, v := range r.Perm(universe)[:n] {
		s = append(s, dag.TagID(v))
	}
	return s
}

// ---- lists of tag sets ----------------------------------------------------

func listKey(l index.TagSetIDCollection) string {
	v := make([]uint32, len(l))
	for i, t := range l {
		v[i] = uint32(t)
	}
	sort.Slice(v, func(i, j int) bool { return v[i] < v[j] })
	return fmt.Sprint(v)
}

type listModel struct {
	c    *kit.Case
	reg  index.VariantsIndex
	byID map[index.VariantID]string
	ids  map[string]index.VariantID
	all  []index.TagSetIDCollection
}

func sortedList(l index.TagSetIDCollection) index.TagSetIDCollection {
	r := append(index.TagSetIDCollection{}, l...)
	sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
	return r
}

func (m *listModel) register(l index.TagSetIDCollection) index.VariantID {
	c := m.c
	k := listKey(l)
	id := m.reg.Index(append(index.TagSetIDCollection{}, l...))
	c.Count("registrations", 1)
	if known, ok := m.ids[k]; ok {
		if known != id {
			c.Fail("list %v has id %#x, registered again it has %#x", l.GoString(), known, id)
		}
	} else {
		if other, ok := m.byID[id]; ok {
			c.Fail("lists %v and %v share id %#x", other, l.GoString(), id)
		}
		if id == 0 {
			c.Fail("list %v has id 0, which means no tag sets", l.GoString())
		}
		m.ids[k], m.byID[id] = id, k
		m.all = append(m.all, sortedList(l))
	}
	m.resolve(id)
	return id
}

func (m *listModel) resolve(id index.VariantID) {
	c := m.c
	c.Count("resolutions", 1)
	want, known := m.byID[id]
	var got index.TagSetIDCollection
	c.NoPanic(fmt.Sprintf("resolving list %#x", id), func() { got = m.reg.Get(id) })
	if !known {
		if len(got) != 0 {
			c.Fail("unknown id %#x resolves to %v", id, got.GoString())
		}
		return
	}
	if listKey(got) != want {
		c.Fail("id %#x resolves to %v, registered for %v", id, got.GoString(), want)
	}
	if table := m.reg.Table(id.TableNum()); int(id.CollectionTableID()) >= len(table) || listKey(table[id.CollectionTableID()]) != want {
		c.Fail("table of id %#x does not hold %v", id, want)
	}
}

func (m *listModel) find(l index.TagSetIDCollection) {
	c := m.c
	c.Count("searches", 1)
	want, known := m.ids[listKey(l)]
	got, ok := m.reg.Find(sortedList(l))
	if len(l) == 0 {
		if got != 0 {
			c.Fail("the empty list is found as %#x", got)
		}
		return
	}
	if ok != known || (known && got != want) {
		c.Fail("searching %v gives %#x %v, registered %v as %#x", l.GoString(), got, ok, known, want)
	}
}

func (m *listModel) list() {
	c := m.c
	seen := map[index.VariantID]bool{}
	for _, id := range m.reg.KnownID() {
		if _, ok := m.byID[id]; !ok {
			c.Fail("listed id %#x was never given", id)
		}
		if seen[id] {
			c.Fail("id %#x is listed twice", id)
		}
		seen[id] = true
	}
	if len(seen) != len(m.byID) {
		c.Fail("%d ids are listed, %d were given", len(seen), len(m.byID))
	}
	total := 0
	for _, t := range m.reg.Tables() {
		total += len(t)
	}
	if total != len(m.byID) {
		c.Fail("tables hold %d lists, %d were registered", total, len(m.byID))
	}
	c.Count("listings", 1)
}

func (m *listModel) empty() {
	c := m.c
	c.Op("Index(empty list)")
	for _, l := range []index.TagSetIDCollection{nil, {}} {
		var id index.VariantID
		refused, _ := kit.Try(func() { id = m.reg.Index(l) })
		c.Count("empty_sets", 1)
		if refused == nil {
			if _, ok := m.byID[id]; ok {
				c.Fail("the empty list has id %#x of %v", id, m.byID[id])
			}
			if got := m.reg.Get(id); len(got) != 0 {
				c.Fail("the empty list has id %#x which resolves to %v", id, got.GoString())
			}
		}
		m.find(l)
	}
	m.list()
}

func (m *listModel) reload() {
	c := m.c
	c.Op("write and read")
	buf := new(bytes.Buffer)
	if err := m.reg.BinaryWriteTo(binutils.NewBinaryWriter(buf)); err != nil {
		c.Fail("writing %d lists: %v", len(m.byID), err)
	}
	var got index.VariantsIndex
	if err := got.BinaryReadFrom(binutils.NewBinaryReader(bytes.NewReader(buf.Bytes()))); err != nil {
		c.Fail("reading %d lists back: %v", len(m.byID), err)
	}
	m.reg = got
	c.Count("reloads", 1)
}

func randomList(r *kit.Rand, universe, maxLen int) index.TagSetIDCollection {
	n := r.Range(1, maxLen)
	seen := map[index.TagSetID]bool{}
	var l index.TagSetIDCollection
	for len(l) < n {
		id := index.TagSetID(uint32(r.Intn(4))<<16 | uint32(r.Intn(universe)))
		if r.Chance(5) {
			id = index.TagSetID(r.U64())
		}
		if !seen[id] {
			seen[id] = true
			l = append(l, id)
		}
	}
	return l
}

// addOne checks that adding a tag set to a list adds exactly that one and leaves the list alone.
func addOne(c *kit.Case, l index.TagSetIDCollection, id index.TagSetID) index.TagSetIDCollection {
	before := append(index.TagSetIDCollection{}, l...)
	want := append(index.TagSetIDCollection{}, l...)
	has := false
	for _, x := range l {
		has = has || x == id
	}
	if l.Has(id) != has {
		c.Fail("list %v has %#x: %v", l.GoString(), id, !has)
	}
	if !has {
		want = append(want, id)
	}
	got := l.Add(id)
	c.Count("tagsets_added_to_lists", 1)
	if listKey(got) != listKey(want) {
		c.Fail("adding %#x to %v gives %v", id, before.GoString(), got.GoString())
	}
	for i := range before {
		if l[i] != before[i] {
			c.Fail("adding %#x to %v changed it to %v", id, before.GoString(), l.GoString())
		}
	}
	if !got.Has(id) {
		c.Fail("adding %#x to %v: it is not there", id, before.GoString())
	}
	if len(got) > 1 && !has && !sort.IsSorted(got) {
		c.Fail("adding %#x to %v gives unsorted %v", id, before.GoString(), got.GoString())
	}
	if got.EqualTo(before) != has {
		c.Fail("adding %#x to %v: result compares as %v", id, before.GoString(), !has)
	}
	return got
}

// storable: writing must be refused, or what is read back must be the same. What fits into the format must not be refused.
func storable(c *kit.Case, fits bool, what string, write func(w *binutils.BinaryWriter) error, same func(r *binutils.BinaryReader) (bool, error)) {
	buf := new(bytes.Buffer)
	c.Count("size_limits_tried", 1)
	var err error
	refused, _ := kit.Try(func() { err = write(binutils.NewBinaryWriter(buf)) })
	if refused != nil || err != nil {
		if fits {
			c.Fail("%s fits into the format and is refused when written: %v %v", what, err, refused)
		}
		c.Count("sizes_refused", 1)
		return
	}
	c.Count("sizes_stored", 1)
	ok, err := same(binutils.NewBinaryReader(bytes.NewReader(buf.Bytes())))
	if err != nil {
		c.Fail("%s was written without an error, reading it back: %v", what, err)
	}
	if !ok {
		c.Fail("%s was written without an error and is read back as something else", what)
	}
}

func c19() kit.Check {
	return kit.Check{
		Rule:  "A case registers random tag sets (or lists of tag sets) in random element order in a registry mirrored by a map, interleaved with searches, resolutions of known, boundary and unknown ids, listings, registrations of nothing and write/read cycles; further groups register up to thousands of contents of all sizes and look at all of them again whenever the registry has doubled, fill id ranges to their end and write sizes around every limit of the file format. Non-trivial: at least four different registered contents; distinct by content.",
		Setup: initLogging,
		Groups: []kit.Group{
			{Name: "capacity", Quick: 8, Thorough: 40, Run: func(c *kit.Case) {
				switch c.Index % 4 {
				case 0, 1: // tag sets of one size: 65536 ids
					size := c.R.Range(3, 6)
					table := make(index.TagSetTable, 0, 1<<16)
					for i := 0; i < 1<<16-2; i++ {
						s := index.TagSet{dag.TagID(i >> 12), dag.TagID(16 + i>>6&63), dag.TagID(80 + i&63)}
						for k := len(s); k < size; k++ {
							s = append(s, dag.TagID(200+k))
						}
						table = append(table, s)
					}
					m := make(index.TagSetIndex, size)
					m[size-1] = table
					get := map[string]index.TagSetID{}
					refusals := 0
					for i := 0; i < 6; i++ {
						s := index.TagSet{dag.TagID(20 + i), 254, 255}
						for k := len(s); k < size; k++ {
							s = append(s, dag.TagID(240+k))
						}
						s = sortedSet(s)
						c.Op("register new set %d in a table of %d", i, len(m[size-1]))
						var id index.TagSetID
						p, _ := kit.Try(func() { id = m.Index(append(index.TagSet{}, s...)) })
						c.Count("capacity_registrations", 1)
						if p != nil {
							if refusals++; i == 0 {
								c.Fail("tag set %d of one size is refused: %v", len(m[size-1])+1, p)
							}
							if _, ok := m.Find(s); ok {
								c.Fail("a refused set is found")
							}
							continue
						}
						if got, ok := m.Get(id); ok && setKey(got) != setKey(s) {
							c.Fail("new set %v in a table of %d sets has id %#x which resolves to %v", s, len(m[size-1]), id, got)
						}
						get[setKey(s)] = id
					}
					for k, id := range get {
						if got, ok := m.Get(id); ok && setKey(got) != k {
							c.Fail("id %#x resolves to %v later", id, got)
						}
					}
					c.Max("capacity_refusals", refusals)
					for _, i := range []int{0, 1, 255, 256, 32767, 32768, 65533} { // what was there before
						id := index.TagSetID(uint32(size-1)<<16 | uint32(i))
						if got, ok := m.Get(id); !ok || setKey(got) != setKey(table[i]) {
							c.Fail("set %d of a full table resolves to %v %v", i, got, ok)
						}
						if again := m.Index(append(index.TagSet{}, table[i]...)); again != id {
							c.Fail("set %d of a full table registered again has id %#x", i, again)
						}
					}
					storable(c, len(m[size-1]) < 1<<16, fmt.Sprintf("a table of %d tag sets", len(m[size-1])), m.BinaryWriteTo, func(r *binutils.BinaryReader) (bool, error) {
						var got index.TagSetIndex
						err := got.BinaryReadFrom(r)
						return got.Size() == m.Size() && len(got) == len(m), err
					})
				case 2: // lists of one length: 65536 ids
					table := make(index.VariantsTable, 0, 1<<16)
					for i := 0; i < 1<<16-2; i++ {
						table = append(table, index.TagSetIDCollection{index.TagSetID(i), index.TagSetID(1 << 20)})
					}
					m := index.VariantsIndex{nil, table}
					refusals := 0
					for i := 0; i < 6; i++ {
						l := index.TagSetIDCollection{index.TagSetID(7 + i), 1 << 21}
						c.Op("register new list %d in a table of %d", i, len(m[1]))
						var id index.VariantID
						p, _ := kit.Try(func() { id = m.Index(append(index.TagSetIDCollection{}, l...)) })
						c.Count("capacity_registrations", 1)
						if p != nil {
							if refusals++; i < 2 {
								c.Fail("list %d of one length is refused, there are 65536 ids: %v", len(m[1])+1, p)
							}
							if _, ok := m.Find(l); ok {
								c.Fail("a refused list is found")
							}
							continue
						}
						if got := m.Get(id); listKey(got) != listKey(l) {
							c.Fail("new list %v in a table of %d has id %#x which resolves to %v", l.GoString(), len(m[1]), id, got.GoString())
						}
					}
					c.Max("capacity_refusals", refusals)
					for _, i := range []int{65534, 65535} { // up to the last id there is
						if got := m.Table(2).Following(index.VariantSubID(i)); len(got) != len(m[1])-1-i && (len(got) > 0 || i < len(m[1])) {
							c.Fail("%d lists follow %d of %d", len(got), i, len(m[1]))
						}
					}
					for _, i := range []int{0, 1, 255, 256, 32767, 32768, 65533} {
						id := index.VariantID(2<<16 | uint32(i))
						if got := m.Table(2).Following(id.CollectionTableID()); len(got) != len(m[1])-1-i || len(got) > 0 && (got[0] != index.VariantSubID(i+1) || got[len(got)-1] != index.VariantSubID(len(m[1])-1)) {
							c.Fail("%d lists follow %d of %d", len(got), i, len(m[1]))
						}
						if got := m.Get(id); listKey(got) != listKey(table[i]) {
							c.Fail("list %d of a full table resolves to %v", i, got.GoString())
						}
					}
				case 3: // very long lists: the table number is 16 bit
					for _, n := range []int{65534, 65535, 65536, 65537} {
						m := index.VariantsIndex{}
						l := make(index.TagSetIDCollection, n)
						for i := range l {
							l[i] = index.TagSetID(i * 3)
						}
						first := m.Index(index.TagSetIDCollection{5})
						var id index.VariantID
						p, _ := kit.Try(func() { id = m.Index(append(index.TagSetIDCollection{}, l...)) })
						c.Op("register a list of %d: refused %v", n, p != nil)
						c.Count("capacity_registrations", 1)
						if p == nil {
							if got := m.Get(id); !got.EqualTo(l) {
								c.Fail("a list of %d tag sets has id %#x which resolves to a list of %d", n, id, len(got))
							}
						}
						if got := m.Get(first); !got.EqualTo(index.TagSetIDCollection{5}) {
							c.Fail("after a list of %d tag sets the first list is %v", n, got.GoString())
						}
					}
				}
				c.Sig(c.Index)
				c.NonTrivial()
			}},
			{Name: "sizes", Quick: 12, Thorough: 60, Run: func(c *kit.Case) {
				switch c.Index % 6 {
				case 0: // tag sets around 255 and 256 tags
					for n := 250; n <= 256; n++ {
						ts := make(index.TagSet, n)
						for i := range ts {
							ts[i] = dag.TagID(i)
						}
						c.Op("tag set of %d tags", n)
						storable(c, n < 256, fmt.Sprintf("a set of %d tags", n), ts.BinaryWriteTo, func(r *binutils.BinaryReader) (bool, error) {
							var got index.TagSet
							err := got.BinaryReadFrom(r)
							return got.EqualTo(ts), err
						})
						buf := new(bytes.Buffer)
						if _, err := ts.WriteTo(buf); err == nil {
							var got index.TagSet
							if _, err := got.ReadFrom(buf); err != nil || !got.EqualTo(ts) {
								c.Fail("a set of %d tags was written and is read back as %d tags, %v", n, len(got), err)
							}
						}
						var tsi index.TagSetIndex
						tsi.Index(append(index.TagSet{}, ts...))
						storable(c, n < 256, fmt.Sprintf("an index with a set of %d tags", n), tsi.BinaryWriteTo, func(r *binutils.BinaryReader) (bool, error) {
							var got index.TagSetIndex
							err := got.BinaryReadFrom(r)
							_, ok := got.Find(ts)
							return ok, err
						})
					}
				case 1: // tables around 65535 sets
					for _, n := range []int{65534, 65535, 65536} {
						table := make(index.TagSetTable, n)
						for i := range table {
							table[i] = index.TagSet{dag.TagID(i >> 8), dag.TagID(i)}
						}
						c.Op("table of %d tag sets", n)
						storable(c, n < 1<<16, fmt.Sprintf("a table of %d tag sets", n), table.BinaryWriteTo, func(r *binutils.BinaryReader) (bool, error) {
							var got index.TagSetTable
							err := got.BinaryReadFrom(r)
							return got.Len() == n && got[n-1].EqualTo(table[n-1]), err
						})
						storable(c, n < 1<<16, fmt.Sprintf("an index with %d tag sets of one size", n), index.TagSetIndex{nil, table}.BinaryWriteTo, func(r *binutils.BinaryReader) (bool, error) {
							var got index.TagSetIndex
							err := got.BinaryReadFrom(r)
							return got.Size() == n, err
						})
					}
				case 2: // lists around 255 tag sets
					for _, n := range []int{1, 127, 128, 254, 255, 256, 257, 511, 512, 700} {
						l := make(index.TagSetIDCollection, n)
						for i := range l {
							l[i] = index.TagSetID(i*7 + 3)
						}
						c.Op("list of %d tag sets", n)
						storable(c, n < 256, fmt.Sprintf("a list of %d tag sets", n), l.BinaryWriteTo, func(r *binutils.BinaryReader) (bool, error) {
							var got index.TagSetIDCollection
							err := got.BinaryReadFrom(r)
							return got.EqualTo(l), err
						})
						var vi index.VariantsIndex
						id := vi.Index(append(index.TagSetIDCollection{}, l...))
						storable(c, n < 256, fmt.Sprintf("an index with a list of %d tag sets", n), vi.BinaryWriteTo, func(r *binutils.BinaryReader) (same bool, err error) {
							var got index.VariantsIndex
							err = got.BinaryReadFrom(r)
							if p, _ := kit.Try(func() { same = got.Get(id).EqualTo(l) }); p != nil {
								same = false
							}
							return same, err
						})
					}
				case 3, 4, 5: // a whole index whose word has very many tag sets, or a set of all tags
					w := newWorld(c)
					w.pickAlphabet()
					nTags, nSets := 24, c.R.Range(250, 262)
					if c.Index%6 == 4 {
						nTags, nSets = c.R.Range(255, 256), 3
					}
					if c.Index%6 == 5 {
						nSets = 255
					}
					for i := 0; i < nTags; i++ {
						w.addTag(tagName(i), "")
					}
					word := w.freshWord(4)
					node := w.add(word)
					for len(w.words[word]) < nSets {
						if nTags < 255 {
							w.attach(node, word, w.c.R.Perm(nTags)[:c.R.Range(2, 4)])
						} else {
							w.attach(node, word, w.c.R.Perm(nTags)[:nTags-c.R.Intn(3)])
							if len(w.words[word]) >= 2 {
								break
							}
						}
					}
					w.all(0)
					obs := observe(w.idx)
					storable(c, nTags < 256 && len(w.words[word]) < 256, fmt.Sprintf("an index with %d tags and a word of %d tag sets", nTags, len(w.words[word])), w.idx.BinaryWriteTo, func(r *binutils.BinaryReader) (bool, error) {
						got := index.New()
						err := got.BinaryReadFrom(r)
						return err != nil || diffObs(obs, observe(got)) == "", err
					})
					w.all(0)
				}
				c.Sig(c.Index)
				c.NonTrivial()
			}},
			{Name: "growth", Quick: 8, Thorough: 80, Run: func(c *kit.Case) {
				// thousands of registrations: ids and contents are looked at again each time the registry has doubled, and
				// next to the numbers at which tables or counters could turn over
				r := c.R
				steps := r.Range(600, 2600)
				again := map[int]bool{}
				for n := 1; n < steps; n *= 2 {
					for d := -1; d <= 2; d++ {
						again[n+d] = true
					}
				}
				switch c.Index % 4 {
				case 0, 1: // tag sets of few or of many sizes, up to very large ones
					m := &tagSetModel{c: c, byID: map[index.TagSetID]string{}, ids: map[string]index.TagSetID{}}
					sizes := []int{kit.Pick(r, []int{2, 3, 4, 9})}
					if c.Index%4 == 1 {
						sizes = []int{1, 2, 7, 8, 15, 16, 31, 32, 33, 64, 100, 127, 128, 129, 200, 254, 255}
						steps /= 3
					}
					for i := 0; i < steps; i++ {
						s := make(index.TagSet, 0, 256)
						for _, v := range r.Perm(256)[:kit.Pick(r, sizes)] {
							s = append(s, dag.TagID(v))
						}
						m.find(s)
						m.register(s)
						if again[i] || i == steps-1 {
							m.list()
							for _, old := range m.sets {
								m.find(old)
								m.resolve(m.ids[setKey(old)])
							}
							if r.Chance(20) {
								m.reload()
							}
						}
					}
					for k, old := range m.sets {
						if k%3 == 0 {
							m.register(old)
						}
					}
					m.list()
					c.Max("registered", len(m.sets))
					c.Sig(setKey(m.sets[0]), len(m.sets))
				default:
					m := &listModel{c: c, byID: map[index.VariantID]string{}, ids: map[string]index.VariantID{}}
					maxLen := kit.Pick(r, []int{2, 3, 5})
					if c.Index%4 == 3 {
						maxLen = 255
						steps /= 3
					}
					for i := 0; i < steps; i++ {
						l := randomList(r, 300, maxLen)
						m.find(l)
						m.register(l)
						if again[i] || i == steps-1 {
							m.list()
							for _, old := range m.all {
								m.find(old)
								m.resolve(m.ids[listKey(old)])
							}
							if r.Chance(20) {
								m.reload()
							}
						}
					}
					for k, old := range m.all {
						if k%3 == 0 {
							m.register(old)
						}
					}
					m.list()
					c.Max("registered", len(m.all))
					c.Sig(listKey(m.all[0]), len(m.all))
				}
				c.NonTrivial()
			}},
			{Name: "tagsets", Quick: 700, Thorough: 25000, Run: func(c *kit.Case) {
				m := &tagSetModel{c: c, byID: map[index.TagSetID]string{}, ids: map[string]index.TagSetID{}}
				r := c.R
				universe := kit.Pick(r, []int{2, 4, 8, 60, 256})
				maxLen := kit.Pick(r, []int{1, 3, 5, 12})
				if r.Chance(5) {
					maxLen = 255
				}
				for i := r.Range(5, 150); i > 0; i-- {
					s := randomTagSet(r, universe, maxLen)
					if len(m.sets) > 0 && r.Chance(30) {
						old := kit.Pick(r, m.sets)
						s = s[:0]
						for _, k := range r.Perm(len(old)) {
							s = append(s, old[k])
						}
					}
					switch k := r.Intn(100); {
					case k < 55:
						c.Op("Index(%v)", s)
						m.register(s)
					case k < 75:
						c.Op("Find(%v)", s)
						m.find(s)
					case k < 90:
						id := index.TagSetID(uint32(r.Intn(len(m.reg)+2))<<16 | uint32(r.Intn(40)))
						if r.Chance(10) {
							id = index.TagSetID(r.U64())
						}
						m.resolve(id)
					case k < 95:
						m.list()
					case k < 98:
						m.empty()
						m.find(nil)
					default:
						m.reload()
					}
				}
				for _, s := range m.sets {
					m.find(s)
					m.resolve(m.ids[setKey(s)])
				}
				m.list()
				if len(m.sets) >= 4 {
					c.NonTrivial()
				}
				c.Max("registered", len(m.sets))
				c.Sig(fmt.Sprint(m.sets))
			}},
			{Name: "lists", Quick: 700, Thorough: 25000, Run: func(c *kit.Case) {
				m := &listModel{c: c, byID: map[index.VariantID]string{}, ids: map[string]index.VariantID{}}
				r := c.R
				universe := kit.Pick(r, []int{3, 8, 200})
				maxLen := kit.Pick(r, []int{1, 3, 8})
				if r.Chance(5) {
					maxLen = 250
					universe = 200
				}
				for i := r.Range(5, 150); i > 0; i-- {
					l := randomList(r, universe, maxLen)
					if len(m.all) > 0 && r.Chance(30) {
						old := kit.Pick(r, m.all)
						l = l[:0]
						for _, k := range r.Perm(len(old)) {
							l = append(l, old[k])
						}
					}
					switch k := r.Intn(100); {
					case k < 45:
						c.Op("Index(%v)", l.GoString())
						m.register(l)
					case k < 60: // as the index does: take a list, add a tag set, register
						var base index.TagSetIDCollection
						if len(m.all) > 0 {
							base = m.reg.Get(m.ids[listKey(kit.Pick(r, m.all))])
						}
						id := kit.Pick(r, l)
						c.Op("Index(%v.Add(%#x))", base.GoString(), id)
						m.register(addOne(c, base, id))
					case k < 75:
						c.Op("Find(%v)", l.GoString())
						m.find(l)
					case k < 90:
						id := index.VariantID(uint32(r.Intn(len(m.reg)+3))<<16 | uint32(r.Intn(40)))
						if r.Chance(10) {
							id = index.VariantID(r.U64())
						}
						m.resolve(id)
					case k < 92: // whole tables
						n := kit.Pick(r, []int{0, 1, len(m.reg), len(m.reg) + 1, len(m.reg) + 2, 0xffff, r.Intn(0x10000)})
						c.NoPanic("asking for a table", func() {
							got := m.reg.Table(index.CollectionTableNumber(n))
							if (n == 0 || n > len(m.reg)) && len(got) > 0 {
								c.Fail("table %d of %d holds %d lists", n, len(m.reg), len(got))
							}
						})
						c.Count("tables_asked", 1)
					case k < 95:
						m.list()
					case k < 98:
						m.empty()
					default:
						m.reload()
					}
				}
				for _, l := range m.all {
					m.find(l)
					m.resolve(m.ids[listKey(l)])
				}
				m.list()
				if len(m.all) >= 4 {
					c.NonTrivial()
				}
				c.Max("registered", len(m.all))
				c.Sig(fmt.Sprint(m.all))
			}},
			{Name: "tables", Quick: 300, Thorough: 8000, Run: func(c *kit.Case) {
				// the tables on their own: one size of content
				r := c.R
				var tt index.TagSetTable
				var vt index.VariantsTable
				tids, vids := map[string]index.TagSetSubID{}, map[string]index.VariantSubID{}
				size := r.Range(1, 6)
				var sets []index.TagSet
				var lists []index.TagSetIDCollection
				for i := r.Range(4, 100); i > 0; i-- {
					s, l := make(index.TagSet, size), make(index.TagSetIDCollection, size)
					for k, v := range r.Perm(size + 5)[:size] {
						s[k], l[k] = dag.TagID(v), index.TagSetID(v)<<14
					}
					c.Op("Index(%v), Index(%v)", s, l.GoString())
					if got, ok := tids[setKey(s)]; true {
						fid, found := tt.Find(sortedSet(s))
						if found != ok || (ok && fid != got) {
							c.Fail("table: searching %v gives %d %v, registered %v as %d", s, fid, found, ok, got)
						}
						id := tt.Index(append(index.TagSet{}, s...))
						if ok && id != got {
							c.Fail("table: %v has id %d, registered again %d", s, got, id)
						}
						if !ok {
							tids[setKey(s)] = id
							sets = append(sets, sortedSet(s))
						}
					}
					if got, ok := vids[listKey(l)]; true {
						fid, found := vt.Find(sortedList(l))
						if found != ok || (ok && fid != got) {
							c.Fail("table: searching %v gives %d %v, registered %v as %d", l.GoString(), fid, found, ok, got)
						}
						id := vt.Index(append(index.TagSetIDCollection{}, l...))
						if ok && id != got {
							c.Fail("table: %v has id %d, registered again %d", l.GoString(), got, id)
						}
						if !ok {
							vids[listKey(l)] = id
							lists = append(lists, sortedList(l))
						}
					}
					c.Count("registrations", 2)
				}
				if tt.Len() != len(sets) || len(vt) != len(lists) {
					c.Fail("tables hold %d and %d contents, registered %d and %d", tt.Len(), len(vt), len(sets), len(lists))
				}
				used := map[index.TagSetSubID]bool{}
				for _, s := range sets {
					id := tids[setKey(s)]
					got, ok := tt.Get(id)
					if !ok || !got.EqualTo(s) || used[id] {
						c.Fail("table: id %d resolves to %v %v, registered for %v", id, got, ok, s)
					}
					used[id] = true
				}
				usedV := map[index.VariantSubID]bool{}
				for _, l := range lists {
					id := vids[listKey(l)]
					if got := vt.Get(id); !got.EqualTo(l) || usedV[id] {
						c.Fail("table: id %d resolves to %v, registered for %v", id, got.GoString(), l.GoString())
					}
					usedV[id] = true
					if got := vt.Following(id); len(got) != len(lists)-1-int(id) || (len(got) > 0 && got[0] != id+1) {
						c.Fail("table: %d lists follow %d of %d", len(got), id, len(lists))
					}
				}
				for _, id := range []int{len(sets), len(sets) + 1, 0xffff} {
					if got, ok := tt.Get(index.TagSetSubID(id)); ok {
						c.Fail("table: unknown id %d resolves to %v", id, got)
					}
					c.NoPanic("resolving an unknown id of a table of lists", func() {
						if got := vt.Get(index.VariantSubID(len(lists) + id - len(sets))); len(got) > 0 {
							c.Fail("table: unknown id resolves to %v", got.GoString())
						}
					})
				}
				c.Count("resolutions", len(sets)+len(lists))
				c.Sig(fmt.Sprint(sets, lists))
				if len(sets) >= 4 {
					c.NonTrivial()
				}
			}},
		},
	}
}
