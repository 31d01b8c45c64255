package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"runtime"

	"github.com/amarin/binutils"

	"github.com/amarin/gomorphy/internal/index"
	"github.com/amarin/gomorphy/internal/zverif/kit"
	"github.com/amarin/gomorphy/pkg/dag"
)

func readInto(idx *index.Index, data []byte) error {
	return idx.BinaryReadFrom(binutils.NewBinaryReader(bytes.NewReader(data)))
}

// smallWorld makes a random small index.
func smallWorld(c *kit.Case, steps int) *world {
	w := newWorld(c)
	w.start(c.R.Range(0, 6))
	m := mix{failures: 2, maxSet: 5, maxLen: 6, optimizes: 3}
	for i := c.R.Intn(steps + 1); i > 0; i-- {
		w.step(m)
	}
	return w
}

// ---- C04 ------------------------------------------------------------------

// refuse demands that data is refused.
func refuse(c *kit.Case, what string, data []byte) {
	c.Count("damaged_reads", 1)
	var err error
	c.NoPanic("reading "+what, func() { err = readInto(index.New(), data) })
	if err == nil {
		c.Op("data (%d bytes) %x", len(data), head(data))
		c.Fail("reading %s succeeded", what)
	}
}

func head(b []byte) []byte {
	if len(b) > 120 {
		return b[:120]
	}
	return b
}

// refuseInto demands that a failed read into the index given is reported, whatever it held.
func refuseInto(c *kit.Case, idx *index.Index, what string, data []byte) {
	c.Count("damaged_reads", 1)
	var err error
	c.NoPanic("reading "+what, func() { err = readInto(idx, data) })
	if err == nil {
		c.Fail("reading %s into a used index succeeded", what)
	}
}

func c04() kit.Check {
	return kit.Check{
		Rule:  "A case saves a random index and reads damaged copies: every proper prefix (of files up to 3000 bytes; 1500 cuts of longer ones), section marks altered in every byte and swapped, and every length field inflated; sets, tables, registries, lists, tags and nodes stored on their own are cut at every place too; an independent decoder of the layout decides which altered files are undecodable, and each of these must be refused without a panic. Memory taken while refusing inflated 32 bit lengths is measured. Non-trivial: a file with at least one word; distinct by content.",
		Setup: initLogging,
		Groups: []kit.Group{
			{Name: "prefixes", Quick: 60, Thorough: 1200, Run: func(c *kit.Case) {
				w := smallWorld(c, 40)
				data := w.save()
				c.Op("every proper prefix of %d bytes", len(data))
				used := smallWorld(c, 10)
				for i := 0; i < len(data); i++ {
					if len(data) > 3000 && !c.R.Chance(100*1500/len(data)+1) {
						continue
					}
					refuse(c, fmt.Sprintf("the first %d of %d bytes", i, len(data)), data[:i])
					if i%7 == 0 {
						refuseInto(c, used.idx, fmt.Sprintf("the first %d of %d bytes", i, len(data)), data[:i])
					}
				}
				c.Sig(kit.HashB(data))
				if len(w.words) > 0 {
					c.NonTrivial()
				}
			}},
			{Name: "bigprefixes", Quick: 2, Thorough: 20, Run: func(c *kit.Case) {
				w := bigWorld(c, 2500, 60, 200, alphabets[3])
				data := w.save()
				f, err := decodeFile(data)
				if err != nil {
					c.Fail("the saved form does not follow the layout: %v", err)
				}
				for _, fl := range f.fields {
					if fl.size > 1 {
						for d := -1; d <= fl.size; d++ {
							refuse(c, fmt.Sprintf("the first %d of %d bytes", fl.at+d, len(data)), data[:fl.at+d])
						}
					}
				}
				for _, m := range f.marks {
					for d := 0; d <= 3; d++ {
						refuse(c, fmt.Sprintf("the first %d of %d bytes", m+d, len(data)), data[:m+d])
					}
				}
				for i := 0; i < 40; i++ {
					n := len(data) - 1 - c.R.Intn(40)
					if i > 30 {
						n = c.R.Intn(len(data))
					}
					refuse(c, fmt.Sprintf("the first %d of %d bytes", n, len(data)), data[:n])
				}
				c.Sig(kit.HashB(data))
				c.NonTrivial()
			}},
			{Name: "marks", Quick: 300, Thorough: 6000, Run: func(c *kit.Case) {
				w := smallWorld(c, 30)
				data := w.save()
				f, err := decodeFile(data)
				if err != nil {
					c.Fail("the saved form does not follow the layout: %v", err)
				}
				for _, m := range f.marks {
					for k := 0; k < 3; k++ {
						for _, v := range []byte{0, 1, 0x20, 0x7f, 0xff, data[m+k] + 1, data[m+k] ^ 0x20, byte(c.R.Intn(256))} {
							if v == data[m+k] {
								continue
							}
							bad := append([]byte{}, data...)
							bad[m+k] = v
							if _, err := decodeFile(bad); err == nil {
								continue
							}
							refuse(c, fmt.Sprintf("a file with byte %d of the mark at %d changed to %#x", k, m, v), bad)
						}
					}
					for _, alt := range []string{"TD", "TI", "CD", "ID", "TS", "", "T", "TDX", "td"} {
						if alt == string(data[m:m+2]) {
							continue
						}
						bad := append([]byte{}, data[:m]...)
						bad = append(bad, alt...)
						bad = append(bad, data[m+2:]...)
						refuse(c, fmt.Sprintf("a file with mark %q at %d replaced by %q", data[m:m+2], m, alt), bad)
					}
				}
				for _, m := range f.marks { // longer and shorter ones
					for k := 0; k <= 2; k++ {
						for _, v := range []byte{0, ' ', '\t', '\n', '\r', 0x7f, 0x80, 0xa0, 0xff, data[m+k], data[m], byte(c.R.Intn(256))} {
							if k == 2 && v == 0 {
								continue // the mark as it was
							}
							bad := append([]byte{}, data[:m+k]...)
							bad = append(append(bad, v), data[m+k:]...)
							if _, err := decodeFile(bad); err == nil {
								continue
							}
							refuse(c, fmt.Sprintf("a file with %#x inserted before byte %d of the mark at %d", v, k, m), bad)
						}
						bad := append(append([]byte{}, data[:m+k]...), data[m+k+1:]...)
						if _, err := decodeFile(bad); err == nil {
							continue
						}
						refuse(c, fmt.Sprintf("a file without byte %d of the mark at %d", k, m), bad)
					}
				}
				// sections missing, doubled or in another order
				cut := append(append([]int{}, f.marks...), len(data))
				sec := func(i int) []byte { return data[cut[i]:cut[i+1]] }
				for n := 0; n < 30; n++ {
					var bad []byte
					var order []int
					for k := c.R.Intn(6); k > 0; k-- {
						i := c.R.Intn(4)
						order = append(order, i)
						bad = append(bad, sec(i)...)
					}
					if len(order) >= 4 && order[0] == 0 && order[1] == 1 && order[2] == 2 && order[3] == 3 {
						continue
					}
					refuse(c, fmt.Sprintf("a file with sections %v", order), bad)
				}
				c.Sig(kit.HashB(data))
				if len(w.words) > 0 {
					c.NonTrivial()
				}
			}},
			{Name: "inflated", Quick: 300, Thorough: 6000, Run: func(c *kit.Case) {
				w := smallWorld(c, 30)
				data := w.save()
				f, err := decodeFile(data)
				if err != nil {
					c.Fail("the saved form does not follow the layout: %v", err)
				}
				for _, fl := range f.fields {
					var vals []uint32
					var cur uint32
					switch fl.size {
					case 1:
						cur = uint32(data[fl.at])
						vals = []uint32{cur + 1, cur + 2, cur + 7, 127, 128, 254, 255}
					case 2:
						cur = uint32(binary.BigEndian.Uint16(data[fl.at:]))
						vals = []uint32{cur + 1, cur + 3, 0x7fff, 0x8000, 0xffff}
					default:
						cur = binary.BigEndian.Uint32(data[fl.at:])
						vals = []uint32{cur + 1, cur + 2, cur + 100, 0xffff, 0x10000, 1 << 20}
					}
					for _, v := range vals {
						if v <= cur || (fl.size == 1 && v > 255) || (fl.size == 2 && v > 0xffff) {
							continue
						}
						bad := append([]byte{}, data...)
						switch fl.size {
						case 1:
							bad[fl.at] = byte(v)
						case 2:
							binary.BigEndian.PutUint16(bad[fl.at:], uint16(v))
						default:
							binary.BigEndian.PutUint32(bad[fl.at:], v)
						}
						if _, _, err := decodePrefix(bad); err == nil {
							continue // happens to be decodable
						}
						c.Count("inflated_fields", 1)
						refuse(c, fmt.Sprintf("a file whose field %q (%d) says %d instead of %d", fl.name, fl.at, v, cur), bad)
					}
				}
				c.Sig(kit.HashB(data))
				if len(w.words) > 0 {
					c.NonTrivial()
				}
			}},
			{Name: "memory", Quick: 12, Thorough: 150, Serial: true, Run: func(c *kit.Case) {
				w := smallWorld(c, 30)
				data := w.save()
				f, err := decodeFile(data)
				if err != nil {
					c.Fail("the saved form does not follow the layout: %v", err)
				}
				for _, fl := range f.fields {
					if fl.size != 4 {
						continue
					}
					for _, v := range []uint32{1 << 24, 1 << 28, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff} {
						bad := append([]byte{}, data...)
						binary.BigEndian.PutUint32(bad[fl.at:], v)
						if _, _, err := decodePrefix(bad); err == nil {
							continue
						}
						var a, b runtime.MemStats
						runtime.ReadMemStats(&a)
						refuse(c, fmt.Sprintf("a file whose field %q (%d) says %#x", fl.name, fl.at, v), bad)
						runtime.ReadMemStats(&b)
						c.Max("bytes_allocated_refusing", int(b.TotalAlloc-a.TotalAlloc))
						c.Count("huge_lengths", 1)
						if got := b.TotalAlloc - a.TotalAlloc; got > 64<<20 {
							c.Fail("refusing a %d byte file whose field %q says %#x took %d MB of memory", len(bad), fl.name, v, got>>20)
						}
					}
				}
				c.Sig(kit.HashB(data))
				c.NonTrivial()
			}},
			{Name: "parts", Quick: 60, Thorough: 1500, Run: partsCut},
			{Name: "registry", Quick: 60, Thorough: 1000, Run: func(c *kit.Case) {
				n := c.R.Range(1, 255)
				reg := dag.NewIndex()
				for i := 0; i < n; i++ {
					reg.Index(dag.TagName(tagName(i)), dag.TagName(tagName(c.R.Intn(n))))
				}
				buf := new(bytes.Buffer)
				if err := reg.BinaryWriteTo(binutils.NewBinaryWriter(buf)); err != nil {
					c.Fail("writing registry of %d: %v", n, err)
				}
				data := buf.Bytes()
				for i := 0; i < len(data); i++ {
					var got dag.Idx
					var err error
					c.NoPanic("reading registry", func() { err = got.BinaryReadFrom(binutils.NewBinaryReader(bytes.NewReader(data[:i]))) })
					c.Count("damaged_reads", 1)
					if err == nil {
						c.Fail("reading the first %d of %d bytes of a registry of %d tags succeeded", i, len(data), n)
					}
				}
				for v := n + 1; v < 256; v++ {
					bad := append([]byte{}, data...)
					bad[0] = byte(v)
					var got dag.Idx
					if err := got.BinaryReadFrom(binutils.NewBinaryReader(bytes.NewReader(bad))); err == nil {
						c.Fail("a registry of %d tags announcing %d was read", n, v)
					}
					c.Count("inflated_fields", 1)
				}
				for i := 0; i < 8; i++ {
					var t dag.Tag
					if err := t.BinaryReadFrom(binutils.NewBinaryReader(bytes.NewReader(data[1 : 1+i]))); err == nil {
						c.Fail("a tag was read from %d bytes", i)
					}
					var name dag.TagName
					if i < 4 {
						if err := name.BinaryReadFrom(binutils.NewBinaryReader(bytes.NewReader(data[1 : 1+i]))); err == nil {
							c.Fail("a tag name was read from %d bytes", i)
						}
					}
				}
				c.Sig(n, kit.HashB(data))
				c.NonTrivial()
			}},
		},
	}
}

// ---- C05 ------------------------------------------------------------------

// dribble is a source that delivers its bytes in pieces of its own choice.
type dribble struct {
	data  []byte
	at    int
	r     *kit.Rand
	mode  int  // 0 all, 1 one byte, 2 random pieces, 3 random pieces and empty reads
	eof   bool // deliver the last bytes together with io.EOF
	empty int
	fed   bool
	reads int
}

func (d *dribble) Read(p []byte) (int, error) {
	d.reads++
	if len(p) == 0 {
		return 0, nil
	}
	if d.at == len(d.data) {
		return 0, io.EOF
	}
	if d.mode == 3 && d.empty > 0 {
		d.empty--
		return 0, nil
	}
	if d.mode == 3 && !d.fed && d.r.Chance(30) {
		d.fed = true // at least something between two runs of empty reads
		if d.empty = d.r.Intn(3); d.r.Chance(4) {
			d.empty = 20 + d.r.Intn(40)
		}
		return 0, nil
	}
	d.fed = false
	n := len(p)
	switch d.mode {
	case 1:
		n = 1
	case 2, 3:
		n = 1 + d.r.Intn(len(p))
	}
	n = copy(p[:n], d.data[d.at:])
	d.at += n
	if d.eof && d.at == len(d.data) {
		return n, io.EOF
	}
	return n, nil
}

var dribbleModes = []string{"at once", "one byte at a time", "in pieces", "in pieces with empty reads"}

func c05() kit.Check {
	return kit.Check{
		Rule:  "A case saves a random index (or several values one after another) and reads it from sources that deliver the same bytes at once, one byte at a time, in random pieces, with empty reads, with or without the end of file delivered together with the last bytes; the value read and the number of bytes taken must be the same, and values stored one after another must be read one after another, which includes sets, tables, registries, lists, tags and nodes stored on their own. Truncated data must be refused in every delivery, and an error of the source at any byte must be reported, whether the source goes on afterwards or not. Non-trivial: a value of more than one field; distinct by content.",
		Setup: initLogging,
		Groups: []kit.Group{
			{Name: "index", Quick: 250, Thorough: 8000, Run: func(c *kit.Case) {
				w := smallWorld(c, 40)
				data := w.save()
				obs := observe(w.idx)
				for mode := range dribbleModes {
					for _, eof := range []bool{false, true} {
						for _, tail := range []int{0, 1, 100} {
							src := &dribble{data: append(append([]byte{}, data...), bytes.Repeat([]byte{0xEE}, tail)...), r: c.R, mode: mode, eof: eof}
							c.Op("read index of %d bytes delivered %s, eof with data %v, %d bytes behind it", len(data), dribbleModes[mode], eof, tail)
							idx := index.New()
							var err error
							c.NoPanic("reading", func() { err = idx.BinaryReadFrom(binutils.NewBinaryReader(src)) })
							c.Count("deliveries", 1)
							c.Count("source_reads", src.reads)
							if err != nil {
								c.Fail("index delivered %s (eof with data %v): %v", dribbleModes[mode], eof, err)
							}
							if src.at != len(data) {
								c.Fail("index of %d bytes delivered %s: %d bytes taken", len(data), dribbleModes[mode], src.at)
							}
							if d := diffObs(obs, observe(idx)); d != "" {
								c.Fail("index delivered %s differs: %s", dribbleModes[mode], d)
							}
						}
						for k := 0; k < 6; k++ {
							n := c.R.Intn(len(data))
							src := &dribble{data: data[:n], r: c.R, mode: mode, eof: eof}
							var err error
							c.NoPanic("reading", func() { err = index.New().BinaryReadFrom(binutils.NewBinaryReader(src)) })
							c.Count("truncated_deliveries", 1)
							if err == nil {
								c.Fail("the first %d of %d bytes of an index delivered %s were read without error", n, len(data), dribbleModes[mode])
							}
						}
					}
				}
				c.Sig(kit.HashB(data))
				if len(data) > 24 {
					c.NonTrivial()
				}
			}},
			{Name: "parts", Quick: 100, Thorough: 3000, Run: partsDelivered},
			{Name: "errors", Quick: 15, Thorough: 600, Run: partsBroken},
			{Name: "indexerrors", Quick: 15, Thorough: 600, Run: func(c *kit.Case) {
				w := smallWorld(c, 30)
				data := w.save()
				used := smallWorld(c, 10)
				broken(c, "an index", data, func(src io.Reader) error {
					idx := index.New()
					if c.R.Chance(10) {
						idx = used.idx
					}
					return idx.BinaryReadFrom(binutils.NewBinaryReader(src))
				})
				c.Sig(kit.HashB(data))
				if len(w.words) > 0 {
					c.NonTrivial()
				}
			}},
			{Name: "chained", Quick: 400, Thorough: 10000, Run: func(c *kit.Case) {
				// several values one after another through one source, as plain readers or through one BinaryReader
				type value struct {
					kind string
					read func(r *binutils.BinaryReader, src io.Reader) (string, error)
					want string
					n    int
				}
				var data []byte
				var vals []value
				put := func(kind, want string, b []byte, read func(r *binutils.BinaryReader, src io.Reader) (string, error)) {
					data = append(data, b...)
					vals = append(vals, value{kind, read, want, len(b)})
				}
				for k := c.R.Range(1, 6); k > 0; k-- {
					buf := new(bytes.Buffer)
					wr := binutils.NewBinaryWriter(buf)
					switch c.R.Intn(5) {
					case 0:
						ts := make(index.TagSet, c.R.Intn(20))
						for i := range ts {
							ts[i] = dag.TagID(c.R.Intn(256))
						}
						if err := ts.BinaryWriteTo(wr); err != nil {
							c.Fail("writing tag set: %v", err)
						}
						put("tag set", ts.String(), buf.Bytes(), func(r *binutils.BinaryReader, src io.Reader) (string, error) {
							var got index.TagSet
							err := got.BinaryReadFrom(r)
							return got.String(), err
						})
					case 1:
						ts := make(index.TagSet, c.R.Intn(20))
						for i := range ts {
							ts[i] = dag.TagID(c.R.Intn(256))
						}
						if _, err := ts.WriteTo(buf); err != nil {
							c.Fail("writing tag set: %v", err)
						}
						n := buf.Len()
						put("tag set (ReadFrom)", ts.String(), buf.Bytes(), func(r *binutils.BinaryReader, src io.Reader) (string, error) {
							var got index.TagSet
							taken, err := got.ReadFrom(src)
							if err == nil && int(taken) != n {
								err = fmt.Errorf("says %d bytes taken of %d", taken, n)
							}
							return got.String(), err
						})
					case 2:
						list := make(index.TagSetIDCollection, c.R.Intn(12))
						for i := range list {
							list[i] = index.TagSetID(c.R.U64())
						}
						if err := list.BinaryWriteTo(wr); err != nil {
							c.Fail("writing list: %v", err)
						}
						continue // lists alone are not read through arbitrary sources: read as part of an index
					case 3:
						reg := dag.NewIndex()
						for i := c.R.Intn(10); i > 0; i-- {
							reg.Index(dag.TagName(tagName(c.R.Intn(900))), dag.TagName(kit.Pick(c.R, []string{"", "POST", "----"})))
						}
						if err := reg.BinaryWriteTo(wr); err != nil {
							c.Fail("writing registry: %v", err)
						}
						put("registry", fmt.Sprintf("%q", reg), buf.Bytes(), func(r *binutils.BinaryReader, src io.Reader) (string, error) {
							var got dag.Idx
							err := got.BinaryReadFrom(r)
							return fmt.Sprintf("%q", got), err
						})
					case 4:
						w := smallWorld(c, 12)
						b, err := saveIndex(w.idx)
						if err != nil {
							c.Fail("saving: %v", err)
						}
						want := fmt.Sprint(observe(w.idx))
						put("index", want, b, func(r *binutils.BinaryReader, src io.Reader) (string, error) {
							idx := index.New()
							err := idx.BinaryReadFrom(r)
							return fmt.Sprint(observe(idx)), err
						})
					}
				}
				for mode := range dribbleModes {
					src := &dribble{data: data, r: c.R, mode: mode, eof: c.R.Bool()}
					br := binutils.NewBinaryReader(src)
					at := 0
					for i, v := range vals {
						if c.R.Bool() { // a new reader over the same source must not lose bytes
							br = binutils.NewBinaryReader(src)
						}
						before := br.BytesTaken()
						got, err := "", error(nil)
						c.NoPanic("reading "+v.kind, func() { got, err = v.read(br, src) })
						c.Count("values_read", 1)
						if err != nil {
							c.Fail("value %d (%s) of %d delivered %s: %v", i, v.kind, len(vals), dribbleModes[mode], err)
						}
						if got != v.want {
							c.Fail("value %d (%s) of %d delivered %s is %.200s, expected %.200s", i, v.kind, len(vals), dribbleModes[mode], got, v.want)
						}
						at += v.n
						if src.at != at {
							c.Fail("after value %d (%s) delivered %s %d bytes are taken, expected %d", i, v.kind, dribbleModes[mode], src.at, at)
						}
						if v.kind != "tag set (ReadFrom)" && br.BytesTaken()-before != v.n {
							c.Fail("value %d (%s) delivered %s: the reader counts %d bytes, expected %d", i, v.kind, dribbleModes[mode], br.BytesTaken()-before, v.n)
						}
					}
				}
				c.Sig(kit.HashB(data))
				if len(vals) > 1 {
					c.NonTrivial()
				}
			}},
		},
	}
}

// ---- C06 ------------------------------------------------------------------

var errFull = errors.New("no space left")

// limited is a destination that stops at a byte.
type limited struct {
	left     int
	short    bool // short write without an error (against the rules of io.Writer, but binutils promises to see it)
	got      []byte
	stopped  bool
	later    bool // accept again afterwards
	failures int
}

func (l *limited) Write(p []byte) (int, error) {
	if l.stopped && l.later {
		l.got = append(l.got, p...)
		return len(p), nil
	}
	n := min(l.left, len(p))
	l.got = append(l.got, p[:n]...)
	l.left -= n
	if n == len(p) {
		return n, nil
	}
	l.stopped = true
	l.failures++
	if l.short {
		return n, nil
	}
	return n, errFull
}

func c06() kit.Check {
	return kit.Check{
		Rule:  "A case writes a random index, tag registry, tag set, list, table or section of nodes to destinations that stop accepting data at a byte (every byte of values up to 1500 bytes, 600 positions of longer ones), by an error or by a short write, staying full or accepting again afterwards: every such write must report an error, and a success only when all bytes arrived. Non-trivial: a value of more than 24 bytes; distinct by content.",
		Setup: initLogging,
		Groups: []kit.Group{
			{Name: "index", Quick: 120, Thorough: 4000, Run: func(c *kit.Case) {
				w := smallWorld(c, 40)
				data := w.save()
				faults(c, "index", data, func(dst io.Writer) error { return w.idx.BinaryWriteTo(binutils.NewBinaryWriter(dst)) })
				obs := observe(w.idx)
				if again := w.save(); string(again) != string(data) {
					c.Fail("failed saves changed what is saved")
				}
				_ = obs
			}},
			{Name: "tables", Quick: 120, Thorough: 4000, Run: func(c *kit.Case) {
				var tsi index.TagSetIndex
				for i := c.R.Intn(40); i > 0; i-- {
					ts := make(index.TagSet, 1+c.R.Intn(6))
					for k := range ts {
						ts[k] = dag.TagID(c.R.Intn(256))
					}
					tsi.Index(ts)
				}
				var vi index.VariantsIndex
				for i := c.R.Intn(40); i > 0; i-- {
					l := make(index.TagSetIDCollection, 1+c.R.Intn(5))
					for k := range l {
						l[k] = index.TagSetID(c.R.U64())
					}
					vi.Index(l)
				}
				reg := dag.NewIndex()
				for i := c.R.Intn(40); i > 0; i-- {
					reg.Index(dag.TagName(tagName(i)), "")
				}
				type wt interface {
					BinaryWriteTo(*binutils.BinaryWriter) error
				}
				for name, v := range map[string]wt{"tag set index": tsi, "variants index": vi, "registry": reg} {
					buf := new(bytes.Buffer)
					if err := v.BinaryWriteTo(binutils.NewBinaryWriter(buf)); err != nil {
						c.Fail("writing %s: %v", name, err)
					}
					faults(c, name, buf.Bytes(), func(dst io.Writer) error { return v.BinaryWriteTo(binutils.NewBinaryWriter(dst)) })
				}
			}},
			{Name: "parts", Quick: 60, Thorough: 1500, Run: partsFaults},
			{Name: "tagset", Quick: 100, Thorough: 2000, Run: func(c *kit.Case) {
				ts := make(index.TagSet, c.R.Intn(256))
				for i := range ts {
					ts[i] = dag.TagID(c.R.Intn(256))
				}
				for at := 0; at <= len(ts); at++ {
					for _, short := range []bool{false, true} {
						dst := &limited{left: at, short: short}
						n, err := ts.WriteTo(dst)
						c.Count("faults_injected", 1)
						if err == nil {
							c.Fail("writing a tag set of %d to a destination that stops at byte %d (short %v) succeeded", len(ts), at, short)
						}
						if int(n) != len(dst.got) {
							c.Fail("writing a tag set of %d stopped at byte %d: reports %d bytes, %d accepted", len(ts), at, n, len(dst.got))
						}
					}
				}
				dst := &limited{left: 1 << 30}
				n, err := ts.WriteTo(dst)
				if err != nil || int(n) != len(dst.got) || len(dst.got) != len(ts)+1 {
					c.Fail("writing a tag set of %d: %d bytes reported, %d accepted, %v", len(ts), n, len(dst.got), err)
				}
				c.Sig(fmt.Sprint(ts))
				c.NonTrivial()
			}},
		},
	}
}

// faults writes to failing destinations.
func faults(c *kit.Case, what string, data []byte, write func(io.Writer) error) {
	c.Op("write %s of %d bytes to failing destinations", what, len(data))
	for at := 0; at < len(data); at++ {
		if len(data) > 1500 && !c.R.Chance(100*600/len(data)+1) && at > 40 && at < len(data)-40 {
			continue
		}
		for mode := 0; mode < 4; mode++ {
			dst := &limited{left: at, short: mode&1 == 1, later: mode&2 == 2}
			var err error
			c.NoPanic("writing "+what, func() { err = write(dst) })
			c.Count("faults_injected", 1)
			if err == nil {
				c.Fail("writing %s of %d bytes to a destination that stops at byte %d (short write %v, accepting again afterwards %v) succeeded", what, len(data), at, dst.short, dst.later)
			}
			if dst.failures == 0 {
				c.Fail("writing %s of %d bytes: the destination got only %d", what, len(data), len(dst.got))
			}
		}
	}
	dst := &limited{left: len(data)}
	if err := write(dst); err != nil || string(dst.got) != string(data) {
		c.Fail("writing %s to a destination of just its size: %v, %d of %d bytes", what, err, len(dst.got), len(data))
	}
	c.Sig(kit.HashB(data))
	if len(data) > 24 {
		c.NonTrivial()
	}
}
