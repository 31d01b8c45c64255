package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"sort"

	"github.com/amarin/gomorphy/internal/zverif/kit"
	"github.com/amarin/gomorphy/pkg/storage"
)

// setType lets monitors treat 8 and 16 bit sets alike; elements are ints.
type setType struct {
	name    string
	bits    int
	write   func(s []int, w io.Writer) (int64, error)
	read    func(r io.Reader) ([]int, int64, error)
	sorted  func(s []int) []int
	equal   func(a, b []int) bool
	less    func(s []int, i, j int) bool
	swapped func(s []int, i, j int) []int
}

func to8(s []int) storage.Set8 {
	r := make(storage.Set8, len(s))
	for i, v := range s {
		r[i] = storage.ID8(v)
	}
	return r
}

func to16(s []int) storage.Set16 {
	r := make(storage.Set16, len(s))
	for i, v := range s {
		r[i] = storage.ID16(v)
	}
	return r
}

func from8(s storage.Set8) []int {
	r := make([]int, len(s))
	for i, v := range s {
		r[i] = int(v)
	}
	return r
}

func from16(s storage.Set16) []int {
	r := make([]int, len(s))
	for i, v := range s {
		r[i] = int(v)
	}
	return r
}

var set8 = setType{
	name: "Set8", bits: 8,
	write: func(s []int, w io.Writer) (int64, error) { return to8(s).WriteTo(w) },
	read: func(r io.Reader) ([]int, int64, error) {
		var s storage.Set8
		n, err := s.ReadFrom(r)
		return from8(s), n, err
	},
	sorted:  func(s []int) []int { t := to8(s); t.Sort(); return from8(t) },
	equal:   func(a, b []int) bool { return to8(a).EqualTo(to8(b)) },
	less:    func(s []int, i, j int) bool { return to8(s).Less(i, j) },
	swapped: func(s []int, i, j int) []int { t := to8(s); t.Swap(i, j); return from8(t) },
}

var set16 = setType{
	name: "Set16", bits: 16,
	write: func(s []int, w io.Writer) (int64, error) { return to16(s).WriteTo(w) },
	read: func(r io.Reader) ([]int, int64, error) {
		var s storage.Set16
		n, err := s.ReadFrom(r)
		return from16(s), n, err
	},
	sorted:  func(s []int) []int { t := to16(s); t.Sort(); return from16(t) },
	equal:   func(a, b []int) bool { return to16(a).EqualTo(to16(b)) },
	less:    func(s []int, i, j int) bool { return to16(s).Less(i, j) },
	swapped: func(s []int, i, j int) []int { t := to16(s); t.Swap(i, j); return from16(t) },
}

var setTypes = []setType{set8, set16}

// encode is the stored form of a set, made independently of the code.
func (t setType) encode(s []int) []byte {
	var b []byte
	put := func(v int) {
		if t.bits == 8 {
			b = append(b, byte(v))
		} else {
			b = binary.BigEndian.AppendUint16(b, uint16(v))
		}
	}
	put(len(s))
	for _, v := range s {
		put(v)
	}
	return b
}

func (t setType) max() int { return 1<<t.bits - 1 }

func (t setType) random(r *kit.Rand, n int) []int {
	s := make([]int, n)
	for i := range s {
		s[i] = r.Intn(t.max() + 1)
		if r.Chance(10) {
			s[i] = kit.Pick(r, []int{0, 1, 127, 128, 254, 255, 256, 32767, 32768, 65534, 65535}) & t.max()
		}
	}
	return s
}

func same(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func sortedInts(s []int) []int {
	r := append([]int{}, s...)
	sort.Ints(r)
	return r
}

func key(s []int) string { return fmt.Sprint(sortedInts(s)) }

// tableType lets monitors treat tables and collections alike. Each call works on a table of its own.
type tableType struct {
	name    string
	oneSize bool // all sets of one size
	bits    int  // of elements
	make    func() *table
}

type table struct {
	index func(s []int) uint64 // through a fresh copy
	raw   func(s []int) uint64 // hands the slice of a scratch buffer over, sets fill for it
	scrub func()               // overwrites the scratch buffer
	find  func(s []int) (uint64, bool)
	get   func(id uint64) ([]int, bool)
	fill  func(rows [][]int) // stores rows without indexing, in a table of the sets' size
	maxID uint64
	cols  int // bits of column number
	rows  int // bits of row number
}

var tableTypes = []tableType{
	{"Table8", true, 8, func() *table {
		var t storage.Table8
		turns := 0
		scratch := make(storage.Set8, 0, 300)
		return &table{
			index: func(s []int) uint64 { return uint64(t.Index(to8(s))) },
			raw: func(s []int) uint64 {
				scratch = append(scratch[:0], to8(s)...)
				if turns++; turns%2 == 0 {
					return uint64(t.Index(scratch[:len(scratch):len(scratch)])) // no room behind it
				}
				return uint64(t.Index(scratch))
			},
			scrub: func() {
				for i := range scratch[:cap(scratch)] {
					scratch[:cap(scratch)][i] = 0xAA
				}
			},
			find: func(s []int) (uint64, bool) { id, ok := t.Find(to8(s)); return uint64(id), ok },
			get:  func(id uint64) ([]int, bool) { s, ok := t.Get(storage.ID8(id)); return from8(s), ok },
			fill: func(rows [][]int) {
				for _, r := range rows {
					t = append(t, to8(r))
				}
			},
			maxID: 0xff, rows: 8,
		}
	}},
	{"Table16", true, 16, func() *table {
		var t storage.Table16
		turns := 0
		scratch := make(storage.Set16, 0, 300)
		return &table{
			index: func(s []int) uint64 { return uint64(t.Index(to16(s))) },
			raw: func(s []int) uint64 {
				scratch = append(scratch[:0], to16(s)...)
				if turns++; turns%2 == 0 {
					return uint64(t.Index(scratch[:len(scratch):len(scratch)])) // no room behind it
				}
				return uint64(t.Index(scratch))
			},
			scrub: func() {
				for i := range scratch[:cap(scratch)] {
					scratch[:cap(scratch)][i] = 0xAAAA
				}
			},
			find: func(s []int) (uint64, bool) { id, ok := t.Find(to16(s)); return uint64(id), ok },
			get:  func(id uint64) ([]int, bool) { s, ok := t.Get(storage.ID16(id)); return from16(s), ok },
			fill: func(rows [][]int) {
				for _, r := range rows {
					t = append(t, to16(r))
				}
			},
			maxID: 0xffff, rows: 16,
		}
	}},
	{"Collection8x8", false, 8, func() *table {
		var t storage.Collection8x8
		turns := 0
		scratch := make(storage.Set8, 0, 300)
		return &table{
			index: func(s []int) uint64 { return uint64(t.Index(to8(s))) },
			raw: func(s []int) uint64 {
				scratch = append(scratch[:0], to8(s)...)
				if turns++; turns%2 == 0 {
					return uint64(t.Index(scratch[:len(scratch):len(scratch)])) // no room behind it
				}
				return uint64(t.Index(scratch))
			},
			scrub: func() {
				for i := range scratch[:cap(scratch)] {
					scratch[:cap(scratch)][i] = 0xAA
				}
			},
			find: func(s []int) (uint64, bool) { id, ok := t.Find(to8(s)); return uint64(id), ok },
			get:  func(id uint64) ([]int, bool) { s, ok := t.Get(storage.ID16(id)); return from8(s), ok },
			fill: func(rows [][]int) {
				for _, r := range rows {
					for len(t) < len(r) {
						t = append(t, nil)
					}
					t[len(r)-1] = append(t[len(r)-1], to8(r))
				}
			},
			maxID: 0xffff, cols: 8, rows: 8,
		}
	}},
	{"Collection16", false, 16, func() *table {
		var t storage.Collection16
		turns := 0
		scratch := make(storage.Set16, 0, 300)
		return &table{
			index: func(s []int) uint64 { return uint64(t.Index(to16(s))) },
			raw: func(s []int) uint64 {
				scratch = append(scratch[:0], to16(s)...)
				if turns++; turns%2 == 0 {
					return uint64(t.Index(scratch[:len(scratch):len(scratch)])) // no room behind it
				}
				return uint64(t.Index(scratch))
			},
			scrub: func() {
				for i := range scratch[:cap(scratch)] {
					scratch[:cap(scratch)][i] = 0xAAAA
				}
			},
			find: func(s []int) (uint64, bool) { id, ok := t.Find(to16(s)); return uint64(id), ok },
			get:  func(id uint64) ([]int, bool) { s, ok := t.Get(storage.ID32(id)); return from16(s), ok },
			fill: func(rows [][]int) {
				for _, r := range rows {
					for len(t) < len(r) {
						t = append(t, nil)
					}
					t[len(r)-1] = append(t[len(r)-1], to16(r))
				}
			},
			maxID: 0xffffffff, cols: 16, rows: 16,
		}
	}},
}

// ---- sources and destinations ---------------------------------------------

type dribble struct {
	data  []byte
	at    int
	r     *kit.Rand
	mode  int
	eof   bool
	empty int
	fed   bool
	reads int
}

func (d *dribble) Read(p []byte) (int, error) {
	d.reads++
	if len(p) == 0 {
		return 0, nil
	}
	if d.at == len(d.data) {
		return 0, io.EOF
	}
	if d.mode == 3 && d.empty > 0 {
		d.empty--
		return 0, nil
	}
	if d.mode == 3 && !d.fed && d.r.Chance(30) {
		d.fed = true // at least something between two runs of empty reads
		if d.empty = d.r.Intn(3); d.r.Chance(4) {
			d.empty = 20 + d.r.Intn(40)
		}
		return 0, nil
	}
	d.fed = false
	n := len(p)
	switch d.mode {
	case 1:
		n = 1
	case 2, 3:
		n = 1 + d.r.Intn(len(p))
	}
	n = copy(p[:n], d.data[d.at:])
	d.at += n
	if d.eof && d.at == len(d.data) {
		return n, io.EOF
	}
	return n, nil
}

var modes = []string{"at once", "one byte at a time", "in pieces", "in pieces with empty reads"}

var errFull = fmt.Errorf("no space left")

type limited struct {
	left     int
	short    bool
	later    bool
	stopped  bool
	got      []byte
	failures int
}

func (l *limited) Write(p []byte) (int, error) {
	if l.stopped && l.later {
		l.got = append(l.got, p...)
		return len(p), nil
	}
	n := min(l.left, len(p))
	l.got = append(l.got, p[:n]...)
	l.left -= n
	if n == len(p) {
		return n, nil
	}
	l.stopped = true
	l.failures++
	if l.short {
		return n, nil
	}
	return n, errFull
}

func head(b []byte) []byte {
	if len(b) > 60 {
		return b[:60]
	}
	return b
}

var _ = bytes.NewReader

var errSource = fmt.Errorf("the source failed")

// failing is a source that reports an error once before a byte, and goes on afterwards or not.
type failing struct {
	dribble
	fail   int
	again  bool
	failed bool
}

func (f *failing) Read(p []byte) (int, error) {
	if f.failed && !f.again {
		return 0, errSource
	}
	if !f.failed && f.at == f.fail {
		f.failed = true
		return 0, errSource
	}
	if !f.failed && len(p) > f.fail-f.at {
		p = p[:f.fail-f.at]
	}
	return f.dribble.Read(p)
}
