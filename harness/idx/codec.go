package main

import (
	"encoding/binary"
	"errors"
	"fmt"
)

// Independent encoder and decoder of the compiled index layout. Nothing here uses the code under test.

type fileTag struct{ parent, name string } // four bytes each

type fileItem struct {
	parent, id, letter, variants uint32
}

type file struct {
	tags     []fileTag
	sets     [][][]byte   // table -> set -> tag ids
	variants [][][]uint32 // table -> list -> tag set ids
	items    []fileItem   // item 0 is the root
	marks    []int        // offsets of the section marks
	fields   []field      // offsets of the length fields
}

// field is a length field of the file.
type field struct {
	name string
	at   int
	size int
}

var errShort = errors.New("short")

type cursor struct {
	data []byte
	at   int
}

func (c *cursor) take(n int) ([]byte, error) {
	if n < 0 || len(c.data)-c.at < n {
		return nil, fmt.Errorf("%w: %d bytes wanted at %d of %d", errShort, n, c.at, len(c.data))
	}
	b := c.data[c.at : c.at+n]
	c.at += n
	return b, nil
}

func (c *cursor) u8() (int, error) {
	b, err := c.take(1)
	if err != nil {
		return 0, err
	}
	return int(b[0]), nil
}

func (c *cursor) u16() (int, error) {
	b, err := c.take(2)
	if err != nil {
		return 0, err
	}
	return int(binary.BigEndian.Uint16(b)), nil
}

func (c *cursor) u32() (uint32, error) {
	b, err := c.take(4)
	if err != nil {
		return 0, err
	}
	return binary.BigEndian.Uint32(b), nil
}

func (c *cursor) mark(f *file, want string) error {
	f.marks = append(f.marks, c.at)
	b, err := c.take(3)
	if err != nil {
		return err
	}
	if string(b) != want+"\x00" {
		return fmt.Errorf("mark %q at %d, expected %q", b, c.at-3, want)
	}
	return nil
}

func (f *file) field(name string, at, size int) { f.fields = append(f.fields, field{name, at, size}) }

// decodeFile decodes a file, which has to be complete and without trailing bytes.
func decodeFile(data []byte) (*file, error) {
	f, n, err := decodePrefix(data)
	if err != nil {
		return f, err
	}
	if n != len(data) {
		return f, fmt.Errorf("%d trailing bytes", len(data)-n)
	}
	return f, nil
}

func decodePrefix(data []byte) (f *file, n int, err error) {
	c := &cursor{data: data}
	f = &file{}
	defer func() { n = c.at }()
	if err = c.mark(f, "TD"); err != nil {
		return
	}
	f.field("tags", c.at, 1)
	count, err := c.u8()
	if err != nil {
		return
	}
	for i := 0; i < count; i++ {
		var b []byte
		if b, err = c.take(8); err != nil {
			return
		}
		f.tags = append(f.tags, fileTag{string(b[:4]), string(b[4:])})
	}
	if err = c.mark(f, "TI"); err != nil {
		return
	}
	f.field("tagset tables", c.at, 4)
	tables, err := c.u32()
	if err != nil {
		return
	}
	for i := uint32(0); i < tables; i++ {
		f.field(fmt.Sprintf("tagset table %d", i), c.at, 2)
		if count, err = c.u16(); err != nil {
			return
		}
		var table [][]byte
		for k := 0; k < count; k++ {
			var size int
			f.field(fmt.Sprintf("tagset %d.%d", i, k), c.at, 1)
			if size, err = c.u8(); err != nil {
				return
			}
			var b []byte
			if b, err = c.take(size); err != nil {
				return
			}
			table = append(table, b)
		}
		f.sets = append(f.sets, table)
	}
	if err = c.mark(f, "CD"); err != nil {
		return
	}
	f.field("list tables", c.at, 1)
	if count, err = c.u8(); err != nil {
		return
	}
	for i := 0; i < count; i++ {
		var rows uint32
		f.field(fmt.Sprintf("list table %d", i), c.at, 4)
		if rows, err = c.u32(); err != nil {
			return
		}
		var table [][]uint32
		for k := uint32(0); k < rows; k++ {
			var size int
			f.field(fmt.Sprintf("list %d.%d", i, k), c.at, 1)
			if size, err = c.u8(); err != nil {
				return
			}
			list := make([]uint32, size)
			for j := range list {
				if list[j], err = c.u32(); err != nil {
					return
				}
			}
			table = append(table, list)
		}
		f.variants = append(f.variants, table)
	}
	if err = c.mark(f, "ID"); err != nil {
		return
	}
	f.field("items", c.at, 4)
	items, err := c.u32()
	if err != nil {
		return
	}
	for i := uint32(0); i < items; i++ {
		var b []byte
		if b, err = c.take(16); err != nil {
			return
		}
		f.items = append(f.items, fileItem{
			binary.BigEndian.Uint32(b), binary.BigEndian.Uint32(b[4:]),
			binary.BigEndian.Uint32(b[8:]), binary.BigEndian.Uint32(b[12:]),
		})
	}
	return
}

func (f *file) encode() []byte {
	var b []byte
	u32 := func(v uint32) { b = binary.BigEndian.AppendUint32(b, v) }
	b = append(b, "TD\x00"...)
	b = append(b, byte(len(f.tags)))
	for _, t := range f.tags {
		b = append(b, t.parent...)
		b = append(b, t.name...)
	}
	b = append(b, "TI\x00"...)
	u32(uint32(len(f.sets)))
	for _, table := range f.sets {
		b = binary.BigEndian.AppendUint16(b, uint16(len(table)))
		for _, s := range table {
			b = append(b, byte(len(s)))
			b = append(b, s...)
		}
	}
	b = append(b, "CD\x00"...)
	b = append(b, byte(len(f.variants)))
	for _, table := range f.variants {
		u32(uint32(len(table)))
		for _, l := range table {
			b = append(b, byte(len(l)))
			for _, id := range l {
				u32(id)
			}
		}
	}
	b = append(b, "ID\x00"...)
	u32(uint32(len(f.items)))
	for _, it := range f.items {
		u32(it.parent)
		u32(it.id)
		u32(it.letter)
		u32(it.variants)
	}
	return b
}
