package main

import (
	"fmt"
	"io"
	"runtime"
	"strconv"
	"strings"

	"github.com/amarin/binutils"

	"github.com/amarin/gomorphy/internal/index"
	"github.com/amarin/gomorphy/internal/zverif/kit"
	"github.com/amarin/gomorphy/pkg/dag"
	"github.com/amarin/gomorphy/pkg/storage"
)

// ---- C31 --------------------------------------------------------------------

func heap() int {
	var m runtime.MemStats
	runtime.GC()
	runtime.GC()
	runtime.ReadMemStats(&m)
	return int(m.HeapAlloc)
}

const leakLimit = 96 << 10 // bytes

// steady repeats an operation that adds nothing new and demands that the memory in use does not grow.
func steady(c *kit.Case, what string, n int, op func(i int)) {
	for i := 0; i < n/4; i++ {
		op(i)
	}
	first := heap()
	grown := 0
	for k := 0; k < 3; k++ {
		for i := 0; i < n; i++ {
			op(i)
		}
		c.Count("operations_repeated", n)
		grown = heap() - first
		if grown < leakLimit {
			c.Count("memory_measurements", 1)
			return
		}
		// once more, something else may have been measured: growth that goes on is one of the operation
		first += grown / (k + 2)
	}
	c.Fail("%s, which adds nothing new, makes the memory in use grow by %d bytes and more in %d repetitions", what, grown, 3*n)
}

func c31() kit.Check {
	return kit.Check{
		Rule:  "A case repeats an operation that adds nothing new (lookups that hit and miss, tag sets, spelling, children, known words, known tag sets, known tags, optimizing, saving, loading over, refused operations, the same in set tables and registries) thousands of times on a random index, built, loaded or optimized; the memory in use and the bytes that would be saved must not grow. Non-trivial: every case; distinct by operation and content.",
		Setup: initLogging,
		Groups: []kit.Group{
			{Name: "index", Quick: 57, Thorough: 600, Serial: true, Run: func(c *kit.Case) {
				w := smallWorld(c, 80)
				w.start(2)
				word := w.freshWord(5)
				w.attach(w.add(word), word, []int{0})
				for i := 0; i < 4; i++ { // long words
					var rs []rune
					for k := c.R.Range(12, 90); k > 0; k-- {
						rs = append(rs, w.letter())
					}
					w.attach(w.add(string(rs)), string(rs), w.randomSet(4))
				}
				switch c.R.Intn(3) {
				case 1:
					w.reload()
				case 2:
					w.optimize()
				}
				saved := len(w.save())
				nodes := make([]dag.Node, 0, len(w.list))
				for _, p := range w.list {
					n, err := w.idx.FetchString(p)
					if err != nil {
						c.Skip("lookup: " + err.Error())
					}
					nodes = append(nodes, n)
				}
				misses := make([]string, 200)
				for i := range misses {
					misses[i] = w.nonWord() + "\u2603" + fmt.Sprint(i)
				}
				var known [][]dag.TagName
				var knownAt []int
				for i, p := range w.list {
					for _, ts := range nodes[i].TagSets() {
						var names []dag.TagName
						for _, t := range ts {
							names = append(names, t.Name)
						}
						known, knownAt = append(known, names), append(knownAt, i)
					}
					_ = p
				}
				var refused, fresh [][]dag.TagName // sets with an unknown tag, sets of known ones
				for i := 0; i < 400; i++ {
					var names []dag.TagName
					for _, id := range w.randomSet(12) {
						names = append(names, dag.TagName(w.tags[id].name))
					}
					fresh = append(fresh, names)
					at := c.R.Intn(len(names) + 1)
					refused = append(refused, append(append(append([]dag.TagName{}, names[:at]...), "Zz0Z"), names[at:]...))
				}
				never := 0
				ops := []struct {
					what string
					n    int
					op   func(i int)
				}{
					{"looking words up", 30000, func(i int) { _, _ = w.idx.FetchString(w.list[i%len(w.list)]) }},
					{"looking unknown strings up", 30000, func(i int) { _, _ = w.idx.FetchString(misses[i%len(misses)]) }},
					{"looking ever new unknown strings up", 30000, func(int) {
						never++
						_, _ = w.idx.FetchString(misses[never%len(misses)] + strconv.Itoa(never))
					}},
					{"looking ever new unknown runes up", 30000, func(int) {
						never++
						_, _ = w.idx.FetchRunes([]rune(misses[never%len(misses)] + strconv.Itoa(never)))
						_, _ = w.idx.FetchItemFromParent(dag.ID(never%(len(w.list)+1)), []rune("\u2603"+strconv.Itoa(never)))
					}},
					{"getting ever new unknown ids", 30000, func(int) {
						never++
						_, _ = w.idx.Get(dag.ID(len(w.list) + 1 + never))
						_ = w.idx.GetItem(dag.ID(len(w.list) + 1 + never)).Word()
						_ = w.idx.GetChildrenMap(dag.ID(len(w.list) + 1 + never))
						_, _ = w.idx.Variants(index.VariantID(1<<28 + never))
					}},
					{"attachments with ever new unknown tags", 20000, func(int) {
						never++
						_ = nodes[never%len(nodes)].AddTagSet(dag.TagName(fmt.Sprintf("%04x", never&0xffff) + strings.Repeat("~", never>>16)))
					}},
					{"continuing ever new unknown ids", 20000, func(int) {
						never++
						_, _ = w.idx.AddToNode(dag.ID(len(w.list)+1+never), []rune("abcdefghijklmnopqrstuvwxyz")[:1+never%26])
					}},
					{"looking unknown runes up", 30000, func(i int) { _, _ = w.idx.FetchRunes([]rune(misses[i%len(misses)])) }},
					{"reading tag sets", 20000, func(i int) { _ = nodes[i%len(nodes)].TagSets() }},
					{"spelling nodes", 20000, func(i int) { _, _ = nodes[i%len(nodes)].Word(), nodes[i%len(nodes)].String() }},
					{"getting nodes, children and unknown ids", 20000, func(i int) {
						_, _ = w.idx.Get(dag.ID(i % (len(w.list) + 5)))
						_ = w.idx.GetChildrenMap(dag.ID(i % (len(w.list) + 5)))
						_, _ = w.idx.Variants(index.VariantID(i))
					}},
					{"adding known words", 20000, func(i int) { _, _ = w.idx.AddString(w.list[i%len(w.list)]) }},
					{"attaching known tag sets", 20000, func(i int) { _ = nodes[knownAt[i%len(known)]].AddTagSet(known[i%len(known)]...) }},
					{"registering known tags", 20000, func(i int) { _ = w.idx.TagID(dag.TagName(w.tags[i%len(w.tags)].name), "") }},
					{"refused attachments", 20000, func(i int) { _ = nodes[i%len(nodes)].AddTagSet(refused[i%len(refused)]...) }},
					{"attachments to the root and to unknown nodes", 20000, func(i int) {
						_ = w.idx.GetItem(dag.ID(i % 2 * (len(w.list) + 1 + i%7))).AddTagSet(fresh[i%len(fresh)]...)
					}},
					{"refused words", 20000, func(i int) {
						_, _ = w.idx.AddString("")
						_, _ = w.idx.AddRunes(nil)
						_, _ = w.idx.AddToNode(dag.ID(len(w.list)+1+i%7), []rune("abcdefghijklmnopqrstuvwxyz")[:1+i%26])
					}},
					{"optimizing", 300, func(int) { w.idx.Optimize() }},
					{"saving", 600, func(int) { _ = w.idx.BinaryWriteTo(binutils.NewBinaryWriter(io.Discard)) }},
				}
				x := ops[c.Index%len(ops)]
				c.Op("%s, again and again, in an index of %d nodes and %d words", x.what, len(w.list), len(w.words))
				steady(c, x.what, x.n, x.op)
				if again := len(w.save()); again > saved {
					c.Fail("%s, which adds nothing new, makes the saved index grow from %d to %d bytes", x.what, saved, again)
				}
				c.Sig(x.what, len(w.list))
				c.NonTrivial()
			}},
			{Name: "load-over", Quick: 8, Thorough: 100, Serial: true, Run: func(c *kit.Case) {
				w := smallWorld(c, 80)
				data := w.save()
				target := index.New()
				bad := append([]byte{}, data...)
				bad = bad[:c.R.Intn(len(bad))]
				good := c.Index%2 == 0
				c.Op("loading %d bytes (of %d) into one index again and again", len(bad), len(data))
				steady(c, fmt.Sprintf("loading into one index again and again (complete data: %v)", good), 600, func(int) {
					if good {
						_ = readInto(target, data)
					} else {
						_ = readInto(target, bad)
					}
				})
				if good {
					out, err := saveIndex(target)
					if err != nil || len(out) > len(data) {
						c.Fail("an index loaded 600 times and more from %d bytes saves to %d (%v)", len(data), len(out), err)
					}
				}
				c.Sig(len(bad), len(data), good)
				c.NonTrivial()
			}},
			{Name: "registries", Quick: 16, Thorough: 200, Serial: true, Run: func(c *kit.Case) {
				var tsi index.TagSetIndex
				var vi index.VariantsIndex
				var c8 storage.Collection8x8
				var c16 storage.Collection16
				reg := dag.NewIndex()
				var sets []index.TagSet
				var lists []index.TagSetIDCollection
				var s8 []storage.Set8
				var s16 []storage.Set16
				for i := 0; i < 60; i++ {
					var s index.TagSet
					var l index.TagSetIDCollection
					var a storage.Set8
					var b storage.Set16
					for _, v := range c.R.Perm(12)[:c.R.Range(1, 5)] {
						s, l, a, b = append(s, dag.TagID(v)), append(l, index.TagSetID(v)), append(a, storage.ID8(v)), append(b, storage.ID16(v))
					}
					sets, lists, s8, s16 = append(sets, s), append(lists, l), append(s8, a), append(s16, b)
					tsi.Index(append(index.TagSet{}, s...))
					vi.Index(append(index.TagSetIDCollection{}, l...))
					c8.Index(append(storage.Set8{}, a...))
					c16.Index(append(storage.Set16{}, b...))
					reg.Index(dag.TagName(tagName(i)), "")
				}
				ops := []struct {
					what string
					op   func(i int)
				}{
					{"registering known tag sets", func(i int) { tsi.Index(append(index.TagSet{}, sets[i%60]...)) }},
					{"registering known lists", func(i int) { vi.Index(append(index.TagSetIDCollection{}, lists[i%60]...)) }},
					{"indexing known sets", func(i int) {
						c8.Index(append(storage.Set8{}, s8[i%60]...))
						c16.Index(append(storage.Set16{}, s16[i%60]...))
					}},
					{"searching sets", func(i int) {
						_, _ = c8.Find(storage.Set8{storage.ID8(i), storage.ID8(i + 1), 255})
						_, _ = c16.Find(storage.Set16{storage.ID16(i), 9999, 10000})
						_, _ = tsi.Find(index.TagSet{dag.TagID(i), dag.TagID(i + 1)})
						_, _ = vi.Find(index.TagSetIDCollection{index.TagSetID(i), 77777})
					}},
					{"registering known tags", func(i int) { reg.Index(dag.TagName(tagName(i%60)), dag.TagName(tagName(i%7))) }},
					{"searching tags", func(i int) { _, _ = reg.Find(dag.TagName(fmt.Sprintf("%04x", i&0xffff|0x8000))) }},
				}
				x := ops[c.Index%len(ops)]
				c.Op("%s again and again", x.what)
				steady(c, x.what, 20000, x.op)
				c.Sig(x.what, c.Index)
				c.NonTrivial()
				runtime.KeepAlive(&tsi)
				runtime.KeepAlive(&vi)
				runtime.KeepAlive(&c8)
				runtime.KeepAlive(&c16)
				runtime.KeepAlive(reg)
			}},
		},
	}
}
