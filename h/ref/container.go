// Package ref contains reference models and decoders, written from the
// published specifications.  Nothing in this package calls the code under
// test.
package ref

import (
	"encoding/binary"
	"fmt"
	"sort"
)

func U16(b []byte, o int) int { return int(b[o])<<8 | int(b[o+1]) }
func I16(b []byte, o int) int { return int(int16(uint16(b[o])<<8 | uint16(b[o+1]))) }
func U32(b []byte, o int) uint32 {
	return uint32(b[o])<<24 | uint32(b[o+1])<<16 | uint32(b[o+2])<<8 | uint32(b[o+3])
}
func U24(b []byte, o int) int { return int(b[o])<<16 | int(b[o+1])<<8 | int(b[o+2]) }

func P16(v int) []byte    { return []byte{byte(v >> 8), byte(v)} }
func P32(v uint32) []byte { return []byte{byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)} }

// TableRec is a record from an sfnt table directory.
type TableRec struct {
	Tag                 string
	Sum, Offset, Length uint32
}

// Container is a parsed sfnt container.
type Container struct {
	Scaler  uint32
	Records []TableRec
	Tables  map[string][]byte
}

// Checksum is the sfnt table checksum: sum of big-endian uint32 values of the
// zero-padded data.
func Checksum(b []byte) uint32 {
	var s uint32
	for i, c := range b {
		s += uint32(c) << (24 - 8*(i%4))
	}
	return s
}

// ParseContainer parses an sfnt container strictly: all requirements of the
// OpenType specification ("otff") on the table directory are enforced.
func ParseContainer(b []byte) (*Container, error) {
	if len(b) < 12 {
		return nil, fmt.Errorf("file too short (%d bytes)", len(b))
	}
	c := &Container{Scaler: U32(b, 0), Tables: map[string][]byte{}}
	n := U16(b, 4)
	if len(b) < 12+16*n {
		return nil, fmt.Errorf("%d tables do not fit into %d bytes", n, len(b))
	}
	if n > 0 {
		es := 0
		for 1<<(es+1) <= n {
			es++
		}
		sr := 16 << es
		if U16(b, 6) != sr&0xFFFF || U16(b, 8) != es || U16(b, 10) != (16*n-sr)&0xFFFF {
			return nil, fmt.Errorf("numTables=%d: search fields (%d,%d,%d), want (%d,%d,%d)",
				n, U16(b, 6), U16(b, 8), U16(b, 10), sr, es, 16*n-sr)
		}
	}
	type span struct{ a, b uint64 }
	var spans []span
	prev := ""
	for i := 0; i < n; i++ {
		o := 12 + 16*i
		r := TableRec{Tag: string(b[o : o+4]), Sum: U32(b, o+4), Offset: U32(b, o+8), Length: U32(b, o+12)}
		if i > 0 && r.Tag <= prev {
			return nil, fmt.Errorf("directory not sorted: %q after %q", r.Tag, prev)
		}
		prev = r.Tag
		end := uint64(r.Offset) + uint64(r.Length)
		if r.Offset%4 != 0 {
			return nil, fmt.Errorf("table %q at unaligned offset %d", r.Tag, r.Offset)
		}
		if end > uint64(len(b)) || uint64(r.Offset) < uint64(12+16*n) {
			return nil, fmt.Errorf("table %q [%d,%d) outside file of %d bytes", r.Tag, r.Offset, end, len(b))
		}
		data := b[r.Offset:end]
		sum := Checksum(data)
		if r.Tag == "head" && len(data) >= 12 {
			sum -= U32(data, 8) // checksum is computed with adjustment 0
		}
		if sum != r.Sum {
			return nil, fmt.Errorf("table %q: checksum %08x, directory says %08x", r.Tag, sum, r.Sum)
		}
		if r.Length > 0 {
			spans = append(spans, span{uint64(r.Offset), end})
		}
		c.Records = append(c.Records, r)
		c.Tables[r.Tag] = data
	}
	sort.Slice(spans, func(i, j int) bool { return spans[i].a < spans[j].a })
	pos := uint64(12 + 16*n)
	for i, s := range spans {
		if i > 0 && s.a < spans[i-1].b {
			return nil, fmt.Errorf("overlapping tables at %d", s.a)
		}
		for k := pos; k < s.a; k++ {
			if b[k] != 0 {
				return nil, fmt.Errorf("non-zero padding byte at %d", k)
			}
		}
		pos = s.b
	}
	for k := pos; k < uint64(len(b)); k++ {
		if b[k] != 0 {
			return nil, fmt.Errorf("non-zero trailing byte at %d", k)
		}
	}
	if uint64(len(b)) > (pos+3)/4*4 {
		return nil, fmt.Errorf("%d stray bytes at the end", uint64(len(b))-pos)
	}
	if h, ok := c.Tables["head"]; ok && len(h) >= 12 {
		if s := Checksum(b); s != 0xB1B0AFBA {
			return nil, fmt.Errorf("whole file checksum is %08x", s)
		}
	}
	return c, nil
}

// BuildContainer assembles an sfnt file from the given tables.
func BuildContainer(scaler uint32, tables map[string][]byte) []byte {
	var tags []string
	for t := range tables {
		tags = append(tags, t)
	}
	sort.Strings(tags)
	n := len(tags)
	es := 0
	for 1<<(es+1) <= n {
		es++
	}
	out := binary.BigEndian.AppendUint32(nil, scaler)
	for _, v := range []int{n, 16 << es, es, 16*n - 16<<es} {
		out = binary.BigEndian.AppendUint16(out, uint16(v))
	}
	pos := 12 + 16*n
	var body []byte
	headPos := -1
	for _, t := range tags {
		d := tables[t]
		if t == "head" && len(d) >= 12 {
			d = append([]byte{}, d...)
			copy(d[8:12], []byte{0, 0, 0, 0})
			headPos = pos + len(body)
		}
		out = append(out, t...)
		out = binary.BigEndian.AppendUint32(out, Checksum(d))
		out = binary.BigEndian.AppendUint32(out, uint32(pos+len(body)))
		out = binary.BigEndian.AppendUint32(out, uint32(len(d)))
		body = append(body, d...)
		for len(body)%4 != 0 {
			body = append(body, 0)
		}
	}
	out = append(out, body...)
	if headPos >= 0 {
		binary.BigEndian.PutUint32(out[headPos+8:], 0xB1B0AFBA-Checksum(out))
	}
	return out
}

// MinimalTables returns the tables of a TrueType font with n empty glyphs,
// with an empty cmap.
func MinimalTables(n int) map[string][]byte {
	head := make([]byte, 54)
	copy(head, []byte{0, 1, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0x5F, 0x0F, 0x3C, 0xF5})
	copy(head[18:], P16(1000))
	hhea := make([]byte, 36)
	copy(hhea, []byte{0, 1, 0, 0})
	copy(hhea[34:], P16(1))
	maxp := make([]byte, 32)
	copy(maxp, []byte{0, 1, 0, 0})
	copy(maxp[4:], P16(n))
	post := make([]byte, 32)
	copy(post, []byte{0, 3, 0, 0})
	os2 := make([]byte, 96)
	copy(os2, []byte{0, 4})
	return map[string][]byte{
		"head": head, "hhea": hhea, "maxp": maxp, "post": post, "OS/2": os2,
		"hmtx": make([]byte, 4+2*(n-1)), "loca": make([]byte, 2*(n+1)), "glyf": {0, 0},
		"name": {0, 0, 0, 0, 0, 6},
		"cmap": {0, 0, 0, 1, 0, 3, 0, 1, 0, 0, 0, 12, 0, 6, 0, 12, 0, 0, 0, 65, 0, 1, 0, 0},
	}
}
