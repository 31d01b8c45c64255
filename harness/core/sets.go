package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"sort"
	"sync"

	"github.com/amarin/gomorphy/internal/index"
	"github.com/amarin/gomorphy/internal/zverif/kit"
	"github.com/amarin/gomorphy/pkg/dag"
	"github.com/amarin/gomorphy/pkg/storage"
)

// ---- C07 ------------------------------------------------------------------

type tableModel struct {
	c    *kit.Case
	tt   tableType
	t    *table
	ids  map[string]uint64
	byID map[uint64][]int
	sets [][]int
}

func newTableModel(c *kit.Case, tt tableType) *tableModel {
	return &tableModel{c: c, tt: tt, t: tt.make(), ids: map[string]uint64{}, byID: map[uint64][]int{}}
}

// register indexes a set; a panic is a refusal, which is only due when the ids of its size are exhausted.
func (m *tableModel) register(s []int, mayRefuse bool) bool {
	c := m.c
	k := key(s)
	var id uint64
	p, _ := kit.Try(func() { id = m.t.index(s) })
	c.Count("registrations", 1)
	known, ok := m.ids[k]
	if p != nil {
		if ok {
			c.Fail("%s: registering known set %v again panicked: %v", m.tt.name, head2(s), p)
		}
		if !mayRefuse {
			c.Fail("%s: registering set %v with %d sets registered panicked: %v", m.tt.name, head2(s), len(m.sets), p)
		}
		c.Count("refusals", 1)
		if fid, found := m.t.find(sortedInts(s)); found {
			c.Fail("%s: refused set %v is found as %#x", m.tt.name, head2(s), fid)
		}
		return false
	}
	if ok {
		if known != id {
			c.Fail("%s: set %v has id %#x, registered again (in another order) it has %#x", m.tt.name, head2(s), known, id)
		}
	} else {
		if other, taken := m.byID[id]; taken {
			c.Fail("%s: sets %v and %v share id %#x (%d sets registered)", m.tt.name, head2(other), head2(s), id, len(m.sets))
		}
		m.ids[k], m.byID[id] = id, sortedInts(s)
		m.sets = append(m.sets, sortedInts(s))
	}
	m.resolve(id)
	return true
}

func (m *tableModel) resolve(id uint64) {
	c := m.c
	c.Count("resolutions", 1)
	got, ok := m.t.get(id)
	want, known := m.byID[id]
	if ok != known || (known && key(got) != key(want)) || (!known && len(got) > 0) {
		c.Fail("%s: id %#x resolves to %v (found %v), registered %v (%v)", m.tt.name, id, head2(got), ok, head2(want), known)
	}
}

func (m *tableModel) search(s []int) {
	c := m.c
	c.Count("searches", 1)
	var (
		id uint64
		ok bool
	)
	c.NoPanic(fmt.Sprintf("%s: searching a set of %d elements", m.tt.name, len(s)), func() { id, ok = m.t.find(sortedInts(s)) })
	want, known := m.ids[key(s)]
	if ok != known || (known && id != want) {
		c.Fail("%s: searching %v gives %#x (found %v), registered as %#x (%v)", m.tt.name, head2(s), id, ok, want, known)
	}
}

func head2(s []int) []int {
	if len(s) > 12 {
		return s[:12]
	}
	return s
}

func distinct(r *kit.Rand, n, universe int) []int {
	if n > universe {
		n = universe
	}
	if n*3 > universe {
		return r.Perm(universe)[:n]
	}
	seen := map[int]bool{}
	var s []int
	for len(s) < n {
		if v := r.Intn(universe); !seen[v] {
			seen[v] = true
			s = append(s, v)
		}
	}
	return s
}

func shuffled(r *kit.Rand, s []int) []int {
	res := make([]int, len(s))
	for i, k := range r.Perm(len(s)) {
		res[i] = s[k]
	}
	return res
}

func c07() kit.Check {
	return kit.Check{
		Rule: "A case registers random sets in random element order in one of Table8, Table16, Collection8x8, Collection16, mirrored by a map; searches sorted sets of every size, resolves known, boundary and unknown ids, and registers known sets again in other orders. Further groups register past the end of an id range and very large sets; a refusal is a panic and only allowed there. Non-trivial: at least four different sets; distinct by content.",
		Groups: []kit.Group{
			{Name: "capacity", Quick: 16, Thorough: 64, Run: func(c *kit.Case) {
				tt := tableTypes[c.Index%4]
				m := newTableModel(c, tt)
				rows := 1 << m.t.rows
				size := 2
				if tt.bits == 16 {
					size = 1 + c.Index/4%3
				}
				if c.Index/4%2 == 0 && m.t.rows == 16 { // most rows prefilled
					var pre [][]int
					for i := 0; i < rows-4; i++ {
						s := []int{i}
						for k := 1; k < size; k++ {
							s = append(s, 0xffff)
						}
						s = sortedInts(s)
						pre = append(pre, s)
					}
					m.t.fill(pre)
					for i, s := range pre {
						id := uint64(i)
						if !tt.oneSize {
							id |= uint64(size-1) << m.t.rows
						}
						m.ids[key(s)], m.byID[id] = id, s
						m.sets = append(m.sets, s)
					}
					for i := 0; i < 12; i++ {
						s := []int{60000 + i}
						if size == 1 {
							s = []int{rows - 4 + i}
							if s[0] > 0xffff {
								break // there are no more sets of one element
							}
						}
						for k := 1; k < size; k++ {
							s = append(s, 50000+k)
						}
						c.Op("%s: register a new set of %d with %d there", tt.name, size, len(m.sets))
						m.register(s, len(m.sets) >= rows)
					}
				} else {
					n := rows + 40
					if m.t.rows == 16 {
						n = 300
					}
					refused := 0
					for i := 0; i < n; i++ {
						s := []int{i & 0xff, 256 + i>>8}
						if tt.bits == 8 {
							s = []int{i & 0x7f, 0x80 + i>>7}
						}
						s = shuffled(c.R, s)
						if i < 3 || i > n-3 {
							c.Op("%s: register %v", tt.name, s)
						}
						if !m.register(s, len(m.sets) >= rows) {
							refused++
						}
					}
					if refused > 0 {
						c.Count("range_exhausted", 1)
					}
				}
				for _, i := range []int{0, 1, 2, 100, len(m.sets) - 1} {
					s := m.sets[min(i, len(m.sets)-1)]
					m.search(s)
					m.register(shuffled(c.R, s), false)
				}
				for id := range m.byID {
					m.resolve(id)
				}
				c.Max("sets_in_a_table", len(m.sets))
				c.Sig(c.Index)
				c.NonTrivial()
			}},
			{Name: "large", Quick: 8, Thorough: 32, Run: func(c *kit.Case) {
				// sets of very many elements; the column number of a collection is 8 or 16 bits
				tt := tableTypes[c.Index%4]
				m := newTableModel(c, tt)
				sizes := []int{1, 254, 255, 256}
				if tt.bits == 16 {
					sizes = []int{1, 255, 256, 257, 1000, 65535, 65536}
				}
				if tt.oneSize {
					sizes = []int{kit.Pick(c.R, sizes)}
				}
				for _, n := range sizes {
					for i := 0; i < 2; i++ {
						s := distinct(c.R, n, 1<<tt.bits)
						c.Op("%s: register a set of %d", tt.name, n)
						m.register(s, false)
						m.search(s)
						m.search(s[:n/2])
					}
				}
				// with repeated elements a slice can be longer than there are ids; it may be refused, not confused
				if !tt.oneSize {
					for _, n := range []int{1 << tt.bits, 1<<tt.bits + 1, 1<<tt.bits + 2} {
						s := make([]int, n)
						for i := range s {
							s[i] = 7
						}
						c.Op("%s: register a slice of %d equal elements", tt.name, n)
						m.register(s, n > 1<<tt.bits)
						m.search(s)
					}
				}
				for id := range m.byID {
					m.resolve(id)
				}
				c.Sig(c.Index, len(m.sets))
				c.NonTrivial()
			}},
			{Name: "empty", Quick: 4, Thorough: 4, Run: func(c *kit.Case) {
				m := newTableModel(c, tableTypes[c.Index%4])
				for _, n := range []int{0, 1, 2, 3, 17, 255, 256} {
					m.search(distinct(c.R, n, 256))
				}
				for _, id := range []uint64{0, 1, 255, 256, 65535, 65536, 1<<32 - 1} {
					if id <= m.t.maxID {
						m.resolve(id)
					}
				}
				for i := 0; i < 3; i++ {
					var id uint64
					if p, _ := kit.Try(func() { id = m.t.index(nil) }); p == nil {
						if got, ok := m.t.get(id); ok && len(got) > 0 {
							c.Fail("%s: the empty set has id %#x which resolves to %v", m.tt.name, id, got)
						}
						if _, ok := m.byID[id]; ok {
							c.Fail("%s: the empty set has id %#x of %v", m.tt.name, id, m.byID[id])
						}
					}
					m.search(nil) // nothing was registered
					m.register([]int{c.R.Intn(200)}, false)
					m.search(nil)
				}
			}},
			{Name: "history", Quick: 2000, Thorough: 60000, Run: func(c *kit.Case) {
				tt := tableTypes[c.Index%4]
				m := newTableModel(c, tt)
				r := c.R
				size := r.Range(1, 8)
				universe := kit.Pick(r, []int{10, 40, 1 << tt.bits})
				pick := func() []int {
					n := size
					if !tt.oneSize {
						n = r.Range(1, 10)
						if r.Chance(3) {
							n = r.Range(1, 250)
						}
					}
					return distinct(r, n, universe)
				}
				for i := r.Range(5, 160); i > 0; i-- {
					s := pick()
					if len(m.sets) > 0 && r.Chance(35) {
						s = shuffled(r, kit.Pick(r, m.sets))
					}
					switch k := r.Intn(100); {
					case k < 50:
						c.Op("%s: register %v", tt.name, head2(s))
						m.register(s, false)
					case k < 75:
						if !tt.oneSize && r.Chance(30) {
							s = distinct(r, r.Range(0, 300), 1<<tt.bits)
						}
						m.search(s)
					default:
						id := uint64(r.Intn(len(m.sets) + 3))
						if !tt.oneSize {
							id |= uint64(r.Intn(12)) << m.t.rows
						}
						if r.Chance(10) {
							id = r.U64() & m.t.maxID
						}
						m.resolve(id & m.t.maxID)
					}
				}
				for _, s := range m.sets {
					m.search(s)
					m.resolve(m.ids[key(s)])
				}
				if len(m.sets) >= 4 {
					c.NonTrivial()
				}
				c.Max("registered", len(m.sets))
				c.Sig(tt.name, fmt.Sprint(m.sets))
			}},
		},
	}
}

// ---- C08 ------------------------------------------------------------------

func (t setType) roundTrip(c *kit.Case, s []int, tail int) {
	buf := new(bytes.Buffer)
	n, err := t.write(s, buf)
	c.Count("writes", 1)
	if len(s) > t.max() {
		if err == nil {
			c.Fail("%s of %d elements was written without an error (%d bytes)", t.name, len(s), buf.Len())
		}
		c.Count("oversized_refused", 1)
		return
	}
	if err != nil {
		c.Fail("writing %s of %d elements: %v", t.name, len(s), err)
	}
	want := t.encode(s)
	if !bytes.Equal(buf.Bytes(), want) {
		c.Fail("%s %v (%d elements) is stored as %x, expected %x", t.name, head2(s), len(s), head(buf.Bytes()), head(want))
	}
	if int(n) != len(want) {
		c.Fail("writing %s of %d elements reports %d bytes, %d were written", t.name, len(s), n, len(want))
	}
	src := bytes.NewReader(append(append([]byte{}, want...), bytes.Repeat([]byte{0xEE}, tail)...))
	got, n, err := t.read(src)
	c.Count("reads", 1)
	if err != nil {
		c.Fail("reading %s of %d elements: %v", t.name, len(s), err)
	}
	if !same(got, s) {
		c.Fail("%s of %d elements is read back as %d elements, %v then %v", t.name, len(s), len(got), head2(s), head2(got))
	}
	if int(n) != len(want) || src.Len() != tail {
		c.Fail("reading %s of %d elements reports %d bytes and took %d, expected %d", t.name, len(s), n, len(want)+tail-src.Len(), len(want))
	}
}

func (t setType) truncated(c *kit.Case, s []int, cut int) {
	data := t.encode(s)[:cut]
	c.Count("truncated_reads", 1)
	var err error
	c.NoPanic("reading a truncated set", func() { _, _, err = t.read(bytes.NewReader(data)) })
	if err == nil {
		c.Fail("the first %d bytes of %s of %d elements were read without an error", cut, t.name, len(s))
	}
}

func c08() kit.Check {
	return kit.Check{
		Rule: "A case writes sets, compares bytes and reported counts with an independent encoding and reads them back from a source with further data behind. Every size 0..255 of Set8 and 600 sizes of Set16 up to 65535 are covered, then sizes above the limit, and every truncation of small sets (all cuts of Set8). Non-trivial: more than one element; distinct by content.",
		Groups: []kit.Group{
			{Name: "sizes8", Quick: 256 * 2, Thorough: 256 * 40, Run: func(c *kit.Case) {
				n := c.Index % 256
				s := set8.random(c.R, n)
				c.Op("Set8 of %d", n)
				set8.roundTrip(c, s, c.R.Intn(5))
				for cut := 0; cut < n+1; cut++ {
					set8.truncated(c, s, cut)
				}
				c.Sig(n, fmt.Sprint(s))
				if n > 1 {
					c.NonTrivial()
				}
			}},
			{Name: "sizes16", Quick: 600, Thorough: 9000, Run: func(c *kit.Case) {
				n := c.Index
				switch {
				case c.Index >= 300 && c.Index < 340:
					n = 65535 - (c.Index - 300)
				case c.Index >= 340 && c.Index < 360:
					n = 32768 - 10 + c.Index - 340
				case c.Index >= 360 && c.Index < 480:
					n = 256*c.R.Range(1, 40) + c.R.Intn(3) - 1
				case c.Index >= 480:
					n = c.R.Intn(65536)
				}
				s := set16.random(c.R, n)
				c.Op("Set16 of %d", n)
				set16.roundTrip(c, s, c.R.Intn(5))
				size := 2*n + 2
				for k := 0; k < 40; k++ {
					cut := k
					if k > 8 {
						cut = c.R.Intn(size)
					}
					if k > 30 {
						cut = size - 1 - (k - 30)
					}
					if cut >= 0 && cut < size && (n < 3000 || k%8 == 0) {
						set16.truncated(c, s, cut)
					}
				}
				c.Sig(n)
				if n > 1 {
					c.NonTrivial()
				}
			}},
			{Name: "oversized", Quick: 24, Thorough: 100, Run: func(c *kit.Case) {
				t := setTypes[c.Index%2]
				n := t.max() + 1 + c.Index/2
				switch c.Index / 2 % 6 {
				case 3:
					n = 2 * (t.max() + 1)
				case 4:
					n = 2*(t.max()+1) + 5
				case 5:
					n = 3*(t.max()+1) - 1
				}
				c.Op("%s of %d", t.name, n)
				t.roundTrip(c, t.random(c.R, n), 0)
				all := make([]int, t.max()+1) // the set of all ids
				for i := range all {
					all[i] = i
				}
				t.roundTrip(c, all, 0)
				c.Sig(t.name, n)
				c.NonTrivial()
			}},
			{Name: "chained", Quick: 300, Thorough: 5000, Run: func(c *kit.Case) {
				buf := new(bytes.Buffer)
				var kinds []setType
				var vals [][]int
				for i := c.R.Range(2, 12); i > 0; i-- {
					t := kit.Pick(c.R, setTypes)
					s := t.random(c.R, c.R.Intn(40))
					if _, err := t.write(s, buf); err != nil {
						c.Fail("writing %s: %v", t.name, err)
					}
					kinds, vals = append(kinds, t), append(vals, s)
				}
				for i, t := range kinds {
					got, _, err := t.read(buf)
					if err != nil || !same(got, vals[i]) {
						c.Fail("set %d of %d (%s) stored one after another is read as %v, %v, expected %v", i, len(kinds), t.name, got, err, vals[i])
					}
					c.Count("reads", 1)
				}
				c.Sig(fmt.Sprint(vals))
				c.NonTrivial()
			}},
			{Name: "reuse", Quick: 200, Thorough: 3000, Run: func(c *kit.Case) {
				// reading into a set that held something
				s8, s16 := to8(set8.random(c.R, c.R.Intn(60))), to16(set16.random(c.R, c.R.Intn(60)))
				a, b := set8.random(c.R, c.R.Intn(60)), set16.random(c.R, c.R.Intn(60))
				c.Op("read sets of %d and %d into sets of %d and %d", len(a), len(b), len(s8), len(s16))
				old8, old16 := s8, s16
				was8, was16 := from8(s8), from16(s16)
				if _, err := s8.ReadFrom(bytes.NewReader(set8.encode(a))); err != nil || !same(from8(s8), a) {
					c.Fail("Set8 read into a used set: %v, %v, expected %v", s8, err, a)
				}
				if _, err := s16.ReadFrom(bytes.NewReader(set16.encode(b))); err != nil || !same(from16(s16), b) {
					c.Fail("Set16 read into a used set: %v, %v, expected %v", s16, err, b)
				}
				if !same(from8(old8), was8) || !same(from16(old16), was16) {
					c.Fail("copies of sets %v and %v are %v and %v after others were read into the same variables", was8, was16, old8, old16)
				}
				c.Count("reads", 2)
				c.Sig(fmt.Sprint(a, b))
				c.NonTrivial()
			}},
		},
	}
}

// ---- C09 ------------------------------------------------------------------

func c09() kit.Check {
	return kit.Check{
		Rule: "All 65536 pairs of 8 bit ids and all 16 bit ids are packed and taken apart; 32 bit ids and the tag set and variant ids are checked for all values of either half against boundary and random values of the other; sets of both widths, tag sets and lists are sorted, compared and swapped against the same done on plain integers. Non-trivial: at least two elements or ids; distinct by content.",
		Groups: []kit.Group{
			{Name: "id16", Quick: 256, Thorough: 256, Run: func(c *kit.Case) {
				hi := c.Index
				for lo := 0; lo < 256; lo++ {
					id := storage.Combine8(storage.ID8(hi), storage.ID8(lo))
					if int(id.Upper()) != hi || int(id.Lower()) != lo || int(id) != hi<<8|lo {
						c.Fail("Combine8(%d, %d) = %#x, upper %d lower %d", hi, lo, id, id.Upper(), id.Lower())
					}
					id = storage.ID16(hi<<8 | lo)
					if back := storage.Combine8(id.Upper(), id.Lower()); back != id {
						c.Fail("id %#x taken apart and recombined is %#x", id, back)
					}
					if storage.ID8(lo).Uint8() != uint8(lo) {
						c.Fail("ID8(%d).Uint8() = %d", lo, storage.ID8(lo).Uint8())
					}
					c.Count("ids_checked", 1)
				}
				c.Op("16 bit ids with upper half %d", hi)
				c.Sig(hi)
				c.NonTrivial()
			}},
			{Name: "id32", Quick: 256, Thorough: 4096, Run: func(c *kit.Case) {
				check := func(hi, lo int) {
					v := uint32(hi)<<16 | uint32(lo)
					id := storage.Combine16(storage.ID16(hi), storage.ID16(lo))
					if int(id.Upper16()) != hi || int(id.Lower16()) != lo || uint32(id) != v || id.Uint32() != v {
						c.Fail("Combine16(%d, %d) = %#x, upper %d lower %d", hi, lo, id, id.Upper16(), id.Lower16())
					}
					if back := storage.Combine16(storage.ID32(v).Upper16(), storage.ID32(v).Lower16()); uint32(back) != v {
						c.Fail("id %#x taken apart and recombined is %#x", v, back)
					}
					ts := index.TagSetTableNumber(hi).TagSetID(index.TagSetSubID(lo))
					if ts.TagSetTableNumber().Int() != hi || ts.TagSetSubID().Int() != lo || uint32(ts) != v {
						c.Fail("tag set id of table %d and number %d is %#x: table %d number %d", hi, lo, ts, ts.TagSetTableNumber(), ts.TagSetSubID())
					}
					if back := index.TagSetID(v).TagSetTableNumber().TagSetID(index.TagSetID(v).TagSetSubID()); uint32(back) != v {
						c.Fail("tag set id %#x recombined is %#x", v, back)
					}
					if index.TagSetTableNumber(hi).ID16() != storage.ID16(hi) || index.TagSetSubID(lo).ID16() != storage.ID16(lo) {
						c.Fail("tag set id parts %d %d as ID16: %d %d", hi, lo, index.TagSetTableNumber(hi).ID16(), index.TagSetSubID(lo).ID16())
					}
					vid := index.CollectionTableNumber(hi).VariantID(index.VariantSubID(lo))
					if int(vid.TableNum()) != hi || int(vid.CollectionTableID()) != lo || uint32(vid) != v {
						c.Fail("variant id of table %d and number %d is %#x: table %d number %d", hi, lo, vid, vid.TableNum(), vid.CollectionTableID())
					}
					if back := index.VariantID(v).TableNum().VariantID(index.VariantID(v).CollectionTableID()); uint32(back) != v {
						c.Fail("variant id %#x recombined is %#x", v, back)
					}
					c.Count("ids_checked", 1)
				}
				for k := 0; k < 256; k++ {
					a := c.Index<<8&0xffff | k
					for _, b := range []int{0, 1, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, c.R.Intn(0x10000), c.R.Intn(0x10000)} {
						check(a, b)
						check(b, a)
					}
				}
				c.Op("32 bit ids with either half in %#x..", c.Index<<8&0xffff)
				c.Sig(c.Index)
				c.NonTrivial()
			}},
			{Name: "sets", Quick: 3000, Thorough: 60000, Run: func(c *kit.Case) {
				t := setTypes[c.Index%2]
				n := c.R.Intn(40)
				if c.R.Chance(5) {
					n = c.R.Intn(2000)
				}
				s := t.random(c.R, n)
				if c.R.Bool() {
					s = distinct(c.R, n, 1<<t.bits)
					n = len(s)
				}
				c.Op("%s %v", t.name, head2(s))
				if got := t.sorted(s); !same(got, sortedInts(s)) {
					c.Fail("%s %v sorts to %v", t.name, head2(s), head2(got))
				}
				o := append([]int{}, s...)
				switch c.R.Intn(5) {
				case 0:
					if n > 0 {
						o[c.R.Intn(n)] ^= 1 << c.R.Intn(t.bits)
					}
				case 1:
					o = append(o, c.R.Intn(t.max()))
				case 2:
					if n > 0 {
						o = o[:n-1]
					}
				case 3:
					o = t.random(c.R, n)
				}
				for _, p := range [][2][]int{{s, o}, {o, s}, {s, s}, {s, nil}, {nil, s}, {sortedInts(s), sortedInts(o)}} {
					if got := t.equal(p[0], p[1]); got != same(p[0], p[1]) {
						c.Fail("%s: %v equal to %v: %v", t.name, head2(p[0]), head2(p[1]), got)
					}
					c.Count("comparisons", 1)
				}
				for k := 0; k < 8 && n > 0; k++ {
					i, j := c.R.Intn(n), c.R.Intn(n)
					if got := t.less(s, i, j); got != (s[i] < s[j]) {
						c.Fail("%s: element %d less than %d: %v", t.name, s[i], s[j], got)
					}
					w := append([]int{}, s...)
					w[i], w[j] = w[j], w[i]
					if got := t.swapped(s, i, j); !same(got, w) {
						c.Fail("%s: swapping %d and %d of %v gives %v", t.name, i, j, head2(s), head2(got))
					}
					c.Count("comparisons", 1)
				}
				c.Sig(t.name, fmt.Sprint(s, o))
				if n > 1 {
					c.NonTrivial()
				}
			}},
			{Name: "tagsets", Quick: 1500, Thorough: 30000, Run: func(c *kit.Case) {
				n := c.R.Intn(30)
				a, b := make(index.TagSet, n), make(index.TagSet, n)
				l, m := make(index.TagSetIDCollection, n), make(index.TagSetIDCollection, n)
				var x, y []int
				for i := 0; i < n; i++ {
					u, v := c.R.Intn(256), c.R.Intn(0x100000000)
					a[i], l[i] = dag.TagID(u), index.TagSetID(v)
					x, y = append(x, u), append(y, v)
				}
				copy(b, a)
				copy(m, l)
				if n > 0 && c.R.Bool() {
					k := c.R.Intn(n)
					b[k] ^= 1 << c.R.Intn(8)
					m[k] ^= 1 << c.R.Intn(32)
					if a.EqualTo(b) || b.EqualTo(a) || l.EqualTo(m) || m.EqualTo(l) {
						c.Fail("%v equals %v or %v equals %v", a, b, l.GoString(), m.GoString())
					}
				} else if !a.EqualTo(b) || !l.EqualTo(m) {
					c.Fail("%v does not equal itself or %v does not", a, l.GoString())
				}
				if n > 0 && (a.EqualTo(a[1:]) || l[1:].EqualTo(l)) {
					c.Fail("%v equals a part of it", a)
				}
				for k := 0; k < 6 && n > 0; k++ {
					i, j := c.R.Intn(n), c.R.Intn(n)
					if a.Less(i, j) != (x[i] < x[j]) || l.Less(i, j) != (y[i] < y[j]) {
						c.Fail("order of elements %d and %d of %v or %v", i, j, a, l.GoString())
					}
				}
				a.Sort()
				sort.Sort(l)
				x, y = sortedInts(x), sortedInts(y)
				for i := 0; i < n; i++ {
					if int(a[i]) != x[i] || int(l[i]) != y[i] {
						c.Fail("sorted %v %v, expected %v %x", a, l.GoString(), x, y)
					}
				}
				if a.Len() != n || l.Len() != n {
					c.Fail("lengths %d %d, expected %d", a.Len(), l.Len(), n)
				}
				c.Count("comparisons", 8)
				c.Sig(fmt.Sprint(x, y))
				if n > 1 {
					c.NonTrivial()
				}
			}},
		},
	}
}

// ---- parts of C05, C06, C12, C22, C25 --------------------------------------

func c12() kit.Check {
	return kit.Check{
		Rule: "In the core part a case fills one set table or collection or the tag registry and lets 8 goroutines search and read it at the same time (hits, misses, unknown ids, sets of sizes never stored, writing the registry), comparing each answer with the model; the race detector watches in the race build.",
		Groups: []kit.Group{
			{Name: "tables", Quick: 40, Thorough: 800, Serial: true, Run: func(c *kit.Case) {
				tt := tableTypes[c.Index%4]
				m := newTableModel(c, tt)
				for i := 0; i < 60; i++ {
					n := 3
					if !tt.oneSize {
						n = c.R.Range(1, 6)
					}
					m.register(distinct(c.R, n, 40), false)
				}
				c.Op("%s with %d sets, 8 readers", tt.name, len(m.sets))
				var wg sync.WaitGroup
				bad := make([]string, 8)
				for g := range bad {
					wg.Add(1)
					go func(g int) {
						defer wg.Done()
						defer func() {
							if p := recover(); p != nil {
								bad[g] = fmt.Sprint("panic: ", p)
							}
						}()
						r := kit.NewRand(uint64(g), uint64(c.Index))
						for k := 0; k < 300; k++ {
							s := kit.Pick(r, m.sets)
							if r.Chance(30) {
								s = sortedInts(distinct(r, r.Range(1, 6), 40))
								if tt.oneSize {
									s = sortedInts(distinct(r, 3, 40))
								}
							}
							want, known := m.ids[key(s)]
							if id, ok := m.t.find(s); ok != known || (ok && id != want) {
								bad[g] = fmt.Sprintf("searching %v: %#x %v, expected %#x %v", s, id, ok, want, known)
							}
							id := uint64(r.Intn(64))
							if !tt.oneSize {
								id |= uint64(r.Intn(8)) << m.t.rows
							}
							w, known := m.byID[id]
							if got, ok := m.t.get(id); ok != known || key(got) != key(w) {
								bad[g] = fmt.Sprintf("id %#x: %v %v, expected %v %v", id, got, ok, w, known)
							}
						}
					}(g)
				}
				wg.Wait()
				for _, b := range bad {
					if b != "" {
						c.Fail("%s with concurrent readers: %s", tt.name, b)
					}
				}
				c.Count("concurrent_reads", 8*600)
				c.Sig(tt.name, fmt.Sprint(m.sets))
				c.NonTrivial()
			}},
			{Name: "shared", Quick: 16, Thorough: 300, Serial: true, Run: sharedQueries},
			{Name: "registry", Quick: 20, Thorough: 300, Serial: true, Run: func(c *kit.Case) { registryReaders(c) }},
		},
	}
}

// sharedQueries lets several goroutines search for the same sets, which lie in memory once and in no order.
func sharedQueries(c *kit.Case) {
	var s8 []storage.Set8
	var s16 []storage.Set16
	var t8 storage.Table8
	var t16 storage.Table16
	var c8 storage.Collection8x8
	var c16 storage.Collection16
	size := c.R.Range(2, 20)
	for i := 0; i < 30; i++ {
		n := size
		var a storage.Set8
		var b storage.Set16
		for _, v := range distinct(c.R, n, 60) {
			a, b = append(a, storage.ID8(v)), append(b, storage.ID16(v))
		}
		s8, s16 = append(s8, a), append(s16, b)
		if i%3 != 2 {
			t8.Index(append(storage.Set8{}, a...))
			t16.Index(append(storage.Set16{}, b...))
			c8.Index(append(storage.Set8{}, a...))
			c16.Index(append(storage.Set16{}, b...))
		}
	}
	was := fmt.Sprint(s8, s16)
	ask := func(i int) string {
		a, aok := t8.Find(s8[i])
		b, bok := t16.Find(s16[i])
		x, xok := c8.Find(s8[i])
		y, yok := c16.Find(s16[i])
		return fmt.Sprint(a, aok, b, bok, x, xok, y, yok, s8[i].EqualTo(s8[(i+1)%len(s8)]), s16[i].EqualTo(s16[0]), s8[i].Len(), s16[i].Len(), s8[i], s16[i])
	}
	c.Op("8 goroutines search for %d sets of %d in no order", len(s8), size)
	var wg sync.WaitGroup
	got := make([][]string, 8)
	bad := make([]string, 8)
	for g := range got {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			defer func() {
				if p := recover(); p != nil {
					bad[g] = fmt.Sprint("panic: ", p)
				}
			}()
			for i := range s8 {
				got[g] = append(got[g], ask((i+g)%len(s8)))
			}
		}(g)
	}
	wg.Wait()
	if fmt.Sprint(s8, s16) != was {
		c.Fail("concurrent searches changed what was searched for")
	}
	for g := range got {
		if bad[g] != "" {
			c.Fail("concurrent searches: %s", bad[g])
		}
		for i := range got[g] {
			if alone := ask((i + g) % len(s8)); got[g][i] != alone {
				c.Fail("searching gave %s, alone it gives %s", got[g][i], alone)
			}
		}
	}
	c.Count("concurrent_reads", 8*len(s8)*4)
	c.Sig(was)
	c.NonTrivial()
}

func c22() kit.Check {
	return kit.Check{
		Rule: "In the core part a case registers random sets in a set table twice, once through one scratch buffer that is overwritten after each registration and once through fresh slices: ids, searches and every resolved set must stay the same.",
		Groups: []kit.Group{
			{Name: "tables", Quick: 800, Thorough: 20000, Run: func(c *kit.Case) {
				tt := tableTypes[c.Index%4]
				a, b := tt.make(), tt.make()
				size := c.R.Range(1, 5)
				var ids []uint64
				for i := c.R.Range(2, 40); i > 0; i-- {
					n := size
					if !tt.oneSize {
						n = c.R.Range(1, 6)
					}
					s := distinct(c.R, n, 12)
					c.Op("%s: register %v through the scratch buffer", tt.name, s)
					x, y := a.raw(s), b.index(s)
					a.scrub()
					if x != y {
						c.Fail("%s: %v has id %#x through a reused buffer, %#x through a fresh one", tt.name, s, x, y)
					}
					ids = append(ids, x)
					c.Count("insertions", 1)
					for _, id := range ids {
						g, ok := a.get(id)
						h, ok2 := b.get(id)
						if ok != ok2 || !same(g, h) {
							c.Fail("%s: id %#x resolves to %v after the buffer was overwritten, with fresh buffers to %v", tt.name, id, g, h)
						}
					}
					f1, ok1 := a.find(sortedInts(s))
					f2, ok2 := b.find(sortedInts(s))
					if ok1 != ok2 || f1 != f2 {
						c.Fail("%s: searching %v after the buffer was overwritten: %#x %v, with fresh buffers %#x %v", tt.name, s, f1, ok1, f2, ok2)
					}
				}
				c.Sig(tt.name, fmt.Sprint(ids))
				c.NonTrivial()
			}},
		},
	}
}

func c05() kit.Check {
	return kit.Check{
		Rule: "In the core part a case stores a set of either width, a tag name, a tag or a tag registry and reads it from sources delivering the same bytes in four ways, with and without the end of file together with the last bytes; value, success, bytes taken and bytes reported must be the same, truncated data must be refused in every delivery, and an error of the source before the last byte must be reported.",
		Groups: []kit.Group{
			{Name: "sets", Quick: 1500, Thorough: 40000, Run: func(c *kit.Case) {
				t := setTypes[c.Index%2]
				n := c.R.Intn(30)
				if c.R.Chance(10) {
					n = c.R.Intn(min(t.max(), 1500) + 1)
				}
				s := t.random(c.R, n)
				data := t.encode(s)
				c.Op("%s %v in %d ways", t.name, head2(s), 2*len(modes))
				for mode := range modes {
					for _, eof := range []bool{false, true} {
						tail := c.R.Intn(3) * 5
						src := &dribble{data: append(append([]byte{}, data...), make([]byte, tail)...), r: c.R, mode: mode, eof: eof}
						got, taken, err := t.read(src)
						c.Count("deliveries", 1)
						c.Count("source_reads", src.reads)
						if err != nil || !same(got, s) {
							c.Fail("%s %v delivered %s (eof with data %v) is read as %v, %v", t.name, head2(s), modes[mode], eof, head2(got), err)
						}
						if src.at != len(data) || int(taken) != len(data) {
							c.Fail("%s of %d bytes delivered %s: %d bytes taken, %d reported", t.name, len(data), modes[mode], src.at, taken)
						}
						cut := c.R.Intn(len(data))
						src = &dribble{data: data[:cut], r: c.R, mode: mode, eof: eof}
						c.NoPanic("reading truncated set", func() { _, _, err = t.read(src) })
						c.Count("truncated_deliveries", 1)
						if err == nil {
							c.Fail("the first %d of %d bytes of %s delivered %s were read without an error", cut, len(data), t.name, modes[mode])
						}
					}
				}
				c.Sig(t.name, fmt.Sprint(s))
				if n > 1 {
					c.NonTrivial()
				}
			}},
			{Name: "tags", Quick: 600, Thorough: 15000, Run: func(c *kit.Case) { tagDeliveries(c) }},
			{Name: "seterrors", Quick: 100, Thorough: 6000, Run: func(c *kit.Case) {
				t := setTypes[c.Index%2]
				s := t.random(c.R, c.R.Intn(40))
				data := t.encode(s)
				c.Op("%s %v from sources that fail before each of %d bytes", t.name, head2(s), len(data))
				for at := range data {
					for mode := 0; mode < 4; mode++ {
						src := &failing{dribble: dribble{data: data, r: c.R, mode: mode &^ 1}, fail: at, again: mode&1 == 1}
						var (
							taken int64
							err   error
						)
						c.NoPanic("reading a set", func() { _, taken, err = t.read(src) })
						c.Count("source_errors", 1)
						if err == nil {
							c.Fail("%s of %d bytes from a source that fails before byte %d (going on afterwards: %v): no error", t.name, len(data), at, src.again)
						}
						if int(taken) != src.at {
							c.Fail("%s of %d bytes from a source that fails before byte %d: %d bytes reported, %d taken", t.name, len(data), at, taken, src.at)
						}
					}
				}
				c.Sig(t.name, fmt.Sprint(s))
				c.NonTrivial()
			}},
		},
	}
}

func c06() kit.Check {
	return kit.Check{
		Rule: "In the core part a case writes a set of either width, a tag name, a tag or a tag registry to destinations that stop at each byte, by an error or a short write, staying full or accepting again afterwards: an error must be reported, for sets with the exact number of bytes accepted before the destination stopped.",
		Groups: []kit.Group{
			{Name: "sets", Quick: 400, Thorough: 12000, Run: func(c *kit.Case) {
				t := setTypes[c.Index%2]
				n := c.R.Intn(40)
				if c.R.Chance(20) {
					n = c.R.Intn(256)
				}
				s := t.random(c.R, n)
				data := t.encode(s)
				c.Op("%s %v to destinations that stop at each of %d bytes", t.name, head2(s), len(data))
				for at := 0; at < len(data); at++ {
					for mode := 0; mode < 4; mode++ {
						dst := &limited{left: at, short: mode&1 == 1, later: mode&2 == 2}
						var (
							n   int64
							err error
						)
						c.NoPanic("writing a set", func() { n, err = t.write(s, dst) })
						c.Count("faults_injected", 1)
						if err == nil {
							c.Fail("%s of %d bytes written to a destination that stops at byte %d (short write %v): no error", t.name, len(data), at, dst.short)
						}
						if int(n) != len(dst.got) {
							c.Fail("%s of %d bytes written to a destination that stops at byte %d (short write %v): %d bytes reported, %d accepted", t.name, len(data), at, dst.short, n, len(dst.got))
						}
					}
				}
				dst := &limited{left: len(data)}
				if n, err := t.write(s, dst); err != nil || int(n) != len(data) || !bytes.Equal(dst.got, data) {
					c.Fail("%s of %d bytes written to a destination of that size: %d, %v", t.name, len(data), n, err)
				}
				c.Sig(t.name, fmt.Sprint(s))
				c.NonTrivial()
			}},
			{Name: "tags", Quick: 200, Thorough: 5000, Run: func(c *kit.Case) { tagFaults(c) }},
		},
	}
}

func c25() kit.Check {
	return kit.Check{
		Rule: "In the core part a case compares the stored bytes of tag registries and of sets of either width with an independent encoding of the fixed layout, and reads independently encoded ones.",
		Groups: []kit.Group{
			{Name: "sets", Quick: 600, Thorough: 10000, Run: func(c *kit.Case) {
				t := setTypes[c.Index%2]
				s := t.random(c.R, c.R.Intn(256))
				buf := new(bytes.Buffer)
				if _, err := t.write(s, buf); err != nil || !bytes.Equal(buf.Bytes(), t.encode(s)) {
					c.Fail("%s of %d elements: stored as %x, %v, the layout says %x", t.name, len(s), head(buf.Bytes()), err, head(t.encode(s)))
				}
				if got, _, err := t.read(bytes.NewReader(t.encode(s))); err != nil || !same(got, s) {
					c.Fail("%s of %d elements: the layout is read as %v, %v", t.name, len(s), head2(got), err)
				}
				c.Count("layouts_compared", 2)
				c.Sig(t.name, fmt.Sprint(s))
				if len(s) > 1 {
					c.NonTrivial()
				}
			}},
			{Name: "registries", Quick: 600, Thorough: 10000, Run: func(c *kit.Case) { registryLayout(c) }},
		},
	}
}

var _ = rand.Int
