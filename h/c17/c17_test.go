// Package c17 checks that parser.Parser behaves like a random-access view.
package c17

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"testing"

	"pgregory.net/rapid"

	"seehuhn.de/go/sfnt/parser"

	"seehuhn.de/go/sfnt/verif/pbt"
)

func TestMain(m *testing.M) { pbt.Main(m) }

// source is a ReadSeekSizer with configurable short reads.
type source struct {
	data  []byte
	pos   int64
	sizes []int // cycle of maximal read sizes; 0 = a single (0, nil) read
	k     int
	eof   bool // return io.EOF together with the last bytes
	zero  bool
}

func (s *source) Size() int64 { return int64(len(s.data)) }

func (s *source) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case io.SeekCurrent:
		off += s.pos
	case io.SeekEnd:
		off += int64(len(s.data))
	}
	if off < 0 {
		return 0, errors.New("negative position")
	}
	s.pos = off
	return off, nil
}

func (s *source) Read(buf []byte) (int, error) {
	if len(buf) == 0 {
		return 0, nil
	}
	if s.pos >= int64(len(s.data)) {
		return 0, io.EOF
	}
	n := len(buf)
	if len(s.sizes) > 0 {
		m := s.sizes[s.k%len(s.sizes)]
		s.k++
		if m == 0 && !s.zero {
			s.zero = true
			return 0, nil
		}
		s.zero = false
		if m == 0 {
			m = 1
		}
		if m < n {
			n = m
		}
	}
	n = copy(buf[:n], s.data[s.pos:])
	s.pos += int64(n)
	if s.eof && s.pos == int64(len(s.data)) {
		return n, io.EOF
	}
	return n, nil
}

// model is the reference: a byte slice and a position.
type model struct {
	data []byte
	pos  int64
}

func (m *model) avail() int64 {
	if m.pos >= int64(len(m.data)) {
		return 0
	}
	return int64(len(m.data)) - m.pos
}

func (m *model) can(n int) bool { return n == 0 || int64(n) <= m.avail() }

func (m *model) uint(n int) uint64 {
	var v uint64
	for i := 0; i < n; i++ {
		v = v<<8 | uint64(m.data[m.pos+int64(i)])
	}
	return v
}

type op struct {
	kind int
	n    int64
}

func (o op) String() string {
	return fmt.Sprintf("%s(%d)", []string{"SeekPos", "Discard", "ReadUint8", "ReadUint16", "ReadInt16", "ReadUint32", "ReadUint16Slice", "ReadBytes", "Read", "Size"}[o.kind], o.n)
}

const (
	opSeek = iota
	opDiscard
	opU8
	opU16
	opI16
	opU32
	opU16Slice
	opBytes
	opRead
	opSize
	numOps
)

// step executes one operation on the parser and on the model, and compares.
// It returns a non-empty string on disagreement.
func step(p *parser.Parser, m *model, o op) (msg string, crossed bool) {
	start := m.pos
	wantEOF := func(err error) string {
		if err == nil {
			return "read past the end succeeded"
		}
		if !errors.Is(err, io.ErrUnexpectedEOF) {
			return fmt.Sprintf("wrong error %v", err)
		}
		return ""
	}
	fixed := func(n int, v uint64, want func() uint64, err error) string {
		if m.can(n) {
			if err != nil {
				return fmt.Sprintf("unexpected error %v", err)
			}
			if w := want(); v != w {
				return fmt.Sprintf("value 0x%x, want 0x%x", v, w)
			}
			m.pos += int64(n)
			return ""
		}
		return wantEOF(err)
	}
	switch o.kind {
	case opSeek:
		if err := p.SeekPos(o.n); err != nil {
			return fmt.Sprintf("SeekPos: %v", err), false
		}
		m.pos = o.n
	case opDiscard:
		if err := p.Discard(int(o.n)); err != nil {
			return fmt.Sprintf("Discard: %v", err), false
		}
		m.pos += o.n
	case opU8:
		v, err := p.ReadUint8()
		msg = fixed(1, uint64(v), func() uint64 { return m.uint(1) }, err)
	case opU16:
		v, err := p.ReadUint16()
		msg = fixed(2, uint64(v), func() uint64 { return m.uint(2) }, err)
	case opI16:
		v, err := p.ReadInt16()
		msg = fixed(2, uint64(int64(v)), func() uint64 { return uint64(int64(int16(m.uint(2)))) }, err)
	case opU32:
		v, err := p.ReadUint32()
		msg = fixed(4, uint64(v), func() uint64 { return m.uint(4) }, err)
	case opU16Slice:
		v, err := p.ReadUint16Slice()
		ok := m.can(2)
		var n int
		if ok {
			n = int(m.uint(2))
			ok = m.can(2 + 2*n)
		}
		if !ok {
			if s := wantEOF(err); s != "" {
				return s, false
			}
			if v != nil {
				return "partial data returned together with an error", false
			}
			// how much of the failed composite read was consumed is not
			// specified, but the position must make sense
			pos := p.Pos()
			if pos < start || pos > start && pos > int64(len(m.data)) {
				return fmt.Sprintf("position %d after failed ReadUint16Slice at %d", pos, start), false
			}
			m.pos = pos
			break
		}
		if err != nil {
			return fmt.Sprintf("unexpected error %v", err), false
		}
		if len(v) != n {
			return fmt.Sprintf("slice length %d, want %d", len(v), n), false
		}
		m.pos += 2
		for i := range v {
			if w := uint16(m.uint(2)); v[i] != w {
				return fmt.Sprintf("slice element %d: 0x%x, want 0x%x", i, v[i], w), false
			}
			m.pos += 2
		}
	case opBytes:
		v, err := p.ReadBytes(int(o.n))
		if !m.can(int(o.n)) {
			msg = wantEOF(err)
			if msg == "" && len(v) != 0 {
				msg = "partial data returned together with an error"
			}
			break
		}
		if err != nil {
			return fmt.Sprintf("unexpected error %v", err), false
		}
		if len(v) != int(o.n) {
			return fmt.Sprintf("ReadBytes(%d) returned %d bytes", o.n, len(v)), false
		}
		if o.n > 0 && !bytes.Equal(v, m.data[m.pos:m.pos+o.n]) {
			return "ReadBytes: wrong data", false
		}
		m.pos += o.n
	case opRead:
		buf := make([]byte, o.n)
		for i := range buf {
			buf[i] = 0xA5
		}
		n, err := p.Read(buf)
		if m.can(int(o.n)) {
			if err != nil {
				return fmt.Sprintf("unexpected error %v", err), false
			}
			if n != int(o.n) {
				return fmt.Sprintf("Read returned %d, want %d", n, o.n), false
			}
		} else {
			if s := wantEOF(err); s != "" {
				return s, false
			}
			if n < 0 || int64(n) > m.avail() {
				return fmt.Sprintf("failed Read claims %d bytes, only %d available", n, m.avail()), false
			}
		}
		if n > 0 && !bytes.Equal(buf[:n], m.data[m.pos:m.pos+int64(n)]) {
			return "Read: wrong data", false
		}
		m.pos += int64(n)
	case opSize:
		if p.Size() != int64(len(m.data)) {
			return fmt.Sprintf("Size() = %d, want %d", p.Size(), len(m.data)), false
		}
	}
	if msg != "" {
		return msg, false
	}
	if p.Pos() != m.pos {
		return fmt.Sprintf("Pos() = %d, want %d", p.Pos(), m.pos), false
	}
	return "", start/1024 != m.pos/1024
}

// TestHistories: long random operation sequences.
func TestHistories(t *testing.T) {
	lenGen := rapid.OneOf(
		rapid.IntRange(0, 5000),
		rapid.IntRange(0, 8),
		rapid.Custom(func(t *rapid.T) int {
			return rapid.SampledFrom([]int{1024, 2048, 3072, 4096}).Draw(t, "base") + rapid.IntRange(-3, 3).Draw(t, "d")
		}))
	pbt.Check(t, 240000, 6000000, func(t *rapid.T, c *pbt.Case) {
		n := lenGen.Draw(t, "len")
		mul := rapid.Byte().Draw(t, "mul") | 1
		add := rapid.IntRange(1, 250).Draw(t, "add")
		small := rapid.IntRange(0, 5).Draw(t, "zeroRate")
		data := make([]byte, n)
		for i := range data {
			// aperiodic content (so that offset errors are visible), with
			// zero bytes mixed in to get short ReadUint16Slice lengths
			h := uint32(i)*2654435761 + uint32(add)*40503
			h ^= h >> 15
			h *= uint32(mul) * 0x85ebca6b
			h ^= h >> 13
			data[i] = byte(h >> 7)
			if small > 2 && h%uint32(small) == 0 && i%2 == 0 {
				data[i] = 0
			}
		}
		src := &source{data: data}
		switch rapid.IntRange(0, 3).Draw(t, "srcMode") {
		case 1:
			src.sizes = rapid.SliceOfN(rapid.IntRange(0, 10), 1, 5).Draw(t, "short")
		case 2:
			src.sizes = rapid.SliceOfN(rapid.SampledFrom([]int{0, 1, 2, 3, 100, 511, 512, 1000, 1023, 1024}), 1, 5).Draw(t, "short")
		}
		src.eof = rapid.Bool().Draw(t, "eofWithData")
		if rapid.IntRange(0, 7).Draw(t, "used") == 0 {
			// a source somebody has already read from
			src.pos = rapid.Int64Range(0, int64(n)+2).Draw(t, "initialPos")
		}
		p := parser.New(src)
		m := &model{data: data}
		posGen := rapid.OneOf(
			rapid.Int64Range(0, int64(n)+3),
			rapid.Custom(func(t *rapid.T) int64 {
				b := rapid.SampledFrom([]int64{0, 1024, 2048, 3072, 4096, int64(n), m.pos, m.pos - 1024, m.pos + 1024}).Draw(t, "base")
				return max(0, b+rapid.Int64Range(-4, 4).Draw(t, "d"))
			}),
			rapid.SampledFrom([]int64{0, 1 << 31, 1 << 32, 1 << 40}),
		)
		sizeGen := rapid.OneOf(rapid.Int64Range(0, 12), rapid.Int64Range(0, 1024), rapid.Int64Range(1018, 1024))
		bigGen := rapid.OneOf(rapid.Int64Range(0, 12), rapid.Int64Range(0, 3000), rapid.Int64Range(1020, 1028), rapid.Int64Range(2044, 2052))
		k := rapid.IntRange(1, 40).Draw(t, "steps")
		var hist []op
		crossings, reads := 0, 0
		key := []byte{byte(n), byte(n >> 8), mul, byte(add), byte(len(src.sizes))}
		for i := 0; i < k; i++ {
			o := op{kind: rapid.IntRange(0, numOps-1).Draw(t, "op")}
			switch o.kind {
			case opSeek:
				o.n = posGen.Draw(t, "pos")
			case opDiscard:
				o.n = bigGen.Draw(t, "n")
			case opBytes:
				o.n = sizeGen.Draw(t, "n")
			case opRead:
				o.n = bigGen.Draw(t, "n")
			}
			hist = append(hist, o)
			key = append(key, byte(o.kind), byte(o.n), byte(o.n>>8))
			msg, crossed := step(p, m, o)
			if msg != "" {
				t.Fatalf("input length %d, after %v: %s", n, hist, msg)
			}
			if crossed {
				crossings++
			}
			if o.kind >= opU8 && o.kind <= opRead {
				reads++
			}
		}
		c.ClassIf(len(src.sizes) > 0, "short reads")
		c.ClassIf(crossings > 0, "crosses a 1024-byte boundary")
		c.ClassIf(n > 1024, "input larger than buffer")
		if reads >= 2 && k >= 3 {
			c.NonTrivial(key)
		}
		c.Sample(func() string { return fmt.Sprintf("len=%d short=%v eof=%v ops=%v", n, src.sizes, src.eof, hist) })
	})
}

// TestExhaustiveShort: all sequences of length 4 over boundary operations.
func TestExhaustiveShort(t *testing.T) {
	lens := []int{0, 1, 3, 1023, 1024, 1025, 2047, 2048, 2049, 3000}
	depth := 4
	if pbt.Thorough() {
		depth = 5
	}
	nOps := 16
	total := len(lens)
	for i := 0; i < depth; i++ {
		total *= nOps
	}
	data := make([]byte, 3000)
	for i := range data {
		h := uint32(i+1) * 2654435761
		h ^= h >> 13
		data[i] = byte(h >> 11)
	}
	// make short uint16 slices available at a few places
	for _, i := range []int{0, 1023, 1024, 2046} {
		data[i] = 0
		data[i+1] = 3
	}
	pbt.Enumerate(t, total, func(i int, c *pbt.Case) {
		idx := i
		n := lens[idx%len(lens)]
		idx /= len(lens)
		ops := []op{
			{opSeek, 0}, {opSeek, 1}, {opSeek, 1023}, {opSeek, 1024}, {opSeek, int64(max(0, n-1))}, {opSeek, int64(n)}, {opSeek, int64(n) + 1},
			{opDiscard, 1}, {opDiscard, 1022},
			{opU8, 0}, {opU16, 0}, {opU32, 0}, {opU16Slice, 0},
			{opBytes, 1024}, {opBytes, 3}, {opRead, 1500},
		}
		p := parser.New(bytes.NewReader(data[:n]))
		m := &model{data: data[:n]}
		var hist [5]op
		for j := 0; j < depth; j++ {
			o := ops[idx%nOps]
			idx /= nOps
			hist[j] = o
			if msg, _ := step(p, m, o); msg != "" {
				pbt.Failf("input length %d, after %v: %s", n, hist[:j+1], msg)
			}
		}
		if i%7 == 0 { // sample the (all distinct) cases to bound memory
			c.NonTrivial([]byte{byte(i), byte(i >> 8), byte(i >> 16), byte(i >> 24)})
		}
	})
}
