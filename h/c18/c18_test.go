// Package c18 injects I/O faults into writing and reading of fonts.
package c18

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"sort"
	"testing"
	"testing/iotest"

	"pgregory.net/rapid"

	"seehuhn.de/go/sfnt"
	"seehuhn.de/go/sfnt/cff"
	"seehuhn.de/go/sfnt/header"

	"seehuhn.de/go/sfnt/verif/gen"
	"seehuhn.de/go/sfnt/verif/pbt"
	"seehuhn.de/go/sfnt/verif/ref"
)

func TestMain(m *testing.M) { pbt.Main(m) }

var errInjected = errors.New("injected fault")

// The kinds of faulty destinations.
const (
	wPartial   = iota // accepts k bytes, the last write is cut short; fails from there on
	wReject           // a write beyond byte k is rejected as a whole; fails from there on
	wFull             // the write which reaches byte k is accepted completely, but reports an error
	wTransient        // only one write is cut short, with an error; later writes work
	wSilent           // one write is cut short, without an error
	wEOF              // like wPartial, using the error io.EOF
	wShort            // like wPartial, using the error io.ErrShortWrite
	numWriters
)

// faultyWriter is a destination which fails at byte k.
type faultyWriter struct {
	kind, k int
	got     []byte
	failed  bool
	after   int // number of calls after the failure
}

func (w *faultyWriter) Write(p []byte) (int, error) {
	if w.failed && w.kind != wTransient && w.kind != wSilent {
		w.after++
		return 0, errInjected
	}
	if w.failed || len(w.got)+len(p) <= w.k && !(w.kind == wFull && len(w.got)+len(p) == w.k && len(p) > 0) {
		w.got = append(w.got, p...)
		return len(p), nil
	}
	w.failed = true
	n := w.k - len(w.got)
	err := errInjected
	switch w.kind {
	case wReject:
		n = 0
	case wFull:
		n = len(p)
	case wSilent:
		err = nil
	case wEOF:
		err = io.EOF
	case wShort:
		err = io.ErrShortWrite
	}
	w.got = append(w.got, p[:n]...)
	return n, err
}

// recorder records the boundaries of the write calls.
type recorder struct {
	got   []byte
	marks []int
}

func (r *recorder) Write(p []byte) (int, error) {
	r.got = append(r.got, p...)
	r.marks = append(r.marks, len(r.got))
	return len(p), nil
}

// output is one way of writing a font.
type output struct {
	name  string
	count bool // whether the number of bytes is reported
	write func(w io.Writer) (int64, error)
}

func outputs(f *sfnt.Font, extra []any) []output {
	res := []output{{"Write", true, f.Write}}
	if f.IsGlyf() {
		res = append(res, output{"WriteTrueTypePDF", true, func(w io.Writer) (int64, error) { return f.WriteTrueTypePDF(w, extra...) }})
	} else {
		res = append(res, output{"WriteOpenTypeCFFPDF", false, func(w io.Writer) (int64, error) { return -1, f.WriteOpenTypeCFFPDF(w) }})
		cf := f.AsCFF()
		res = append(res, output{"cff.Font.Write", false, func(w io.Writer) (int64, error) { return -1, cf.Write(w) }})
	}
	return res
}

// offsets returns the fault points to use.
func offsets(rng *rand.Rand, n int, marks []int, random int) []int {
	if n <= 600 || pbt.Thorough() && n <= 5000 {
		res := make([]int, n+1)
		for i := range res {
			res[i] = i
		}
		return res
	}
	seen := map[int]bool{}
	add := func(k int) {
		if k >= 0 && k <= n {
			seen[k] = true
		}
	}
	if len(marks) > 60 {
		marks = append([]int{}, marks...)
		rng.Shuffle(len(marks), func(i, j int) { marks[i], marks[j] = marks[j], marks[i] })
		marks = marks[:60]
	}
	for _, m := range append([]int{0, 4, 6, 12, n}, marks...) {
		add(m - 1)
		add(m)
		add(m + 1)
	}
	for i := 0; i < random; i++ {
		add(rng.IntN(n + 1))
	}
	var res []int
	for k := range seen {
		res = append(res, k)
	}
	sort.Ints(res)
	return res
}

// checkWrite tries all faults for one way of writing a font.
func checkWrite(t gen.Fataler, c *pbt.Case, rng *rand.Rand, o output, random int) {
	clean := &recorder{}
	n, err := o.write(clean)
	if err != nil {
		t.Fatalf("%s: %v", o.name, err)
	}
	if o.count && n != int64(len(clean.got)) {
		t.Fatalf("%s reports %d bytes, but the file has %d bytes", o.name, n, len(clean.got))
	}
	total := len(clean.got)
	for _, k := range offsets(rng, total, clean.marks, random) {
		kind := rng.IntN(numWriters)
		if rng.IntN(3) == 0 {
			kind = wPartial
		}
		w := &faultyWriter{kind: kind, k: k}
		pbt.Doing(func() string {
			return fmt.Sprintf("%s, writer kind %d, fault at byte %d of %d", o.name, kind, k, total)
		})
		n, err := o.write(w)
		if !w.failed {
			if k < total {
				t.Fatalf("%s: only %d bytes written, want %d", o.name, len(w.got), total)
			}
			if err != nil || o.count && n != int64(total) || !bytes.Equal(w.got, clean.got) {
				t.Fatalf("%s: repeated call writes %d bytes, returns %d, %v, want %d bytes", o.name, len(w.got), n, err, total)
			}
			c.Class("complete file")
			continue
		}
		if err == nil {
			t.Fatalf("%s: no error, for a writer (kind %d) which fails after %d of %d bytes", o.name, kind, k, total)
		}
		if o.count && n != int64(len(w.got)) {
			t.Fatalf("%s: the writer (kind %d) fails after %d of %d bytes, accepts %d bytes, but %d bytes are reported", o.name, kind, k, total, len(w.got), n)
		}
		if kind != wFull && len(w.got) <= k && !bytes.Equal(w.got, clean.got[:len(w.got)]) {
			t.Fatalf("%s: wrong data before the fault at byte %d", o.name, k)
		}
		c.Class([]string{"cut short", "rejected", "error after last byte", "transient", "silent short write", "EOF", "ErrShortWrite"}[kind])
		c.NonTrivial([]byte(fmt.Sprint(o.name, kind, k, ref.Checksum(clean.got))))
	}
	// nothing has changed
	again := &recorder{}
	n, err = o.write(again)
	if err != nil || o.count && n != int64(total) || !bytes.Equal(again.got, clean.got) {
		t.Fatalf("%s: after failed calls, the font is written as %d bytes, %d, %v, want %d bytes", o.name, len(again.got), n, err, total)
	}
}

func drawFont(t *rapid.T) *sfnt.Font {
	return gen.Font(t, gen.FontOpts{MaxGlyphs: 12, NoRare: true})
}

// TestWrite checks writing of generated fonts.
func TestWrite(t *testing.T) {
	pbt.Check(t, 480, 12000, func(t *rapid.T, c *pbt.Case) {
		rng := gen.Rand(t)
		f := drawFont(t)
		c.Class(gen.Kind(f))
		var extra []any
		if rapid.Bool().Draw(t, "extra") {
			extra = []any{"XTRA", make([]byte, rapid.IntRange(0, 9).Draw(t, "extraLen"))}
		}
		for _, o := range outputs(f, extra) {
			checkWrite(t, c, rng, o, 40)
		}
		c.Sample(func() string {
			return fmt.Sprintf("%s with %d glyphs, extra tables %v", gen.Kind(f), f.NumGlyphs(), extra)
		})
	})
}

// TestTables checks writing of arbitrary tables.
func TestTables(t *testing.T) {
	pbt.Check(t, 4000, 100000, func(t *rapid.T, c *pbt.Case) {
		rng := gen.Rand(t)
		tables := map[string][]byte{}
		for n := rapid.IntRange(1, 12).Draw(t, "numTables"); n > 0; n-- {
			tag := rapid.SampledFrom([]string{"head", "name", "cmap", "glyf", "loca", "aaaa", "zzzz", "OS/2", "hmtx", "CFF ", "post", "DSIG"}).Draw(t, "tag")
			d := make([]byte, rapid.IntRange(0, 20).Draw(t, "len"))
			for i := range d {
				d[i] = byte(rng.IntN(256))
			}
			if tag == "head" {
				d = append(d, make([]byte, 54)...)
			}
			tables[tag] = d
		}
		checkWrite(t, c, rng, output{"header.Write", true, func(w io.Writer) (int64, error) {
			return header.Write(w, header.ScalerTypeTrueType, tables)
		}}, 40)
		c.Sample(func() string { return fmt.Sprintf("%d tables", len(tables)) })
	})
}

// The kinds of faulty sources.
const (
	rFrom      = iota // access to byte k and everything after fails
	rSector           // access to byte k fails
	rCall             // call number k, and every call after this, fails
	rTransient        // call number k fails
	rData             // like rSector, but the data before byte k is returned together with the error
	rGarbage          // like rSector, but the buffer is overwritten
	numReaders
)

// faultyReader is a source with faults.
type faultyReader struct {
	data    []byte
	kind, k int
	err     error
	eof     bool // end of file is reported together with the last bytes

	calls   int
	failed  bool
	touched []bool
}

func (r *faultyReader) ReadAt(p []byte, off int64) (int, error) {
	call := r.calls
	r.calls++
	if off < 0 {
		return 0, errors.New("negative offset")
	}
	n := 0
	if off < int64(len(r.data)) {
		n = copy(p, r.data[off:])
	}
	if r.touched != nil {
		for i := int(off); i < int(off)+n; i++ {
			r.touched[i] = true
		}
	}
	bad := false
	switch r.kind {
	case rFrom:
		bad = off+int64(n) > int64(r.k) || off+int64(len(p)) > int64(r.k)
	case rSector, rData, rGarbage:
		bad = n > 0 && off <= int64(r.k) && int64(r.k) < off+int64(n)
	case rCall:
		bad = call >= r.k
	case rTransient:
		bad = call == r.k
	}
	if bad && len(p) > 0 {
		r.failed = true
		switch r.kind {
		case rData:
			return int(int64(r.k) - off), r.err
		case rGarbage:
			for i := range p {
				p[i] = 0x55
			}
		}
		return 0, r.err
	}
	if n < len(p) || r.eof && off+int64(n) == int64(len(r.data)) {
		return n, io.EOF
	}
	return n, nil
}

// Read makes sure that only ReadAt is used.
func (r *faultyReader) Read(p []byte) (int, error) { return 0, errors.New("unexpected call to Read") }

// endOfData returns the position of the end of the last non-empty table, and of the last table.
func endOfData(t gen.Fataler, b []byte) (end, last int, starts []int) {
	n := ref.U16(b, 4)
	for i := 0; i < n; i++ {
		off, l := int(ref.U32(b, 12+16*i+8)), int(ref.U32(b, 12+16*i+12))
		if l > 0 {
			end = max(end, off+l)
		}
		starts = append(starts, off, off+l)
		last = max(last, off+l)
	}
	return end, last, starts
}

// streaming is a plain reader.
type streaming struct{ io.Reader }

// failAfter is a reader which fails after k bytes.
type failAfter struct {
	data []byte
	err  error
}

func (f *failAfter) Read(p []byte) (int, error) {
	if len(f.data) == 0 {
		return 0, f.err
	}
	n := copy(p, f.data)
	f.data = f.data[n:]
	return n, nil
}

var readErrors = []error{errInjected, io.ErrUnexpectedEOF, io.ErrClosedPipe, io.ErrNoProgress}

// readFont reads a font, using one of the ways to provide the data.
func readFont(rng *rand.Rand, b []byte, mode int) (*sfnt.Font, error) {
	switch mode {
	case 0:
		return sfnt.Read(bytes.NewReader(b))
	case 1:
		return sfnt.Read(streaming{bytes.NewReader(b)})
	case 2:
		return sfnt.Read(iotest.OneByteReader(bytes.NewReader(b)))
	case 3:
		return sfnt.Read(iotest.DataErrReader(bytes.NewReader(b)))
	case 4:
		return sfnt.Read(iotest.HalfReader(bytes.NewReader(b)))
	case 5:
		return sfnt.Read(&faultyReader{data: b, kind: rCall, k: 1 << 30, eof: true})
	case 6:
		return sfnt.Read(io.NewSectionReader(bytes.NewReader(append(append([]byte("xxxx"), b...), 1, 2, 3)), 4, int64(len(b))))
	case 7:
		r := bytes.NewReader(b)
		r.Seek(int64(rng.IntN(len(b)+1)), io.SeekStart) // the position does not matter for an io.ReaderAt
		return sfnt.Read(r)
	}
	panic("unreachable")
}

const numModes = 8

// checkRead tries all read faults for a file.
func checkRead(t gen.Fataler, c *pbt.Case, rng *rand.Rand, b []byte, random int) {
	want, err := sfnt.Read(bytes.NewReader(b))
	if err != nil {
		t.Fatalf("Read: %v", err)
	}
	wantDump := gen.DumpFont(want)
	same := func(f *sfnt.Font, err error, format string, a ...any) {
		if err != nil {
			t.Fatalf("%s: Read: %v", fmt.Sprintf(format, a...), err)
		}
		if d := gen.DumpFont(f); d != wantDump {
			t.Fatalf("%s: Read gives a different font: %s", fmt.Sprintf(format, a...), gen.DiffText(wantDump, d))
		}
	}
	for mode := 0; mode < numModes; mode++ {
		f, err := readFont(rng, b, mode)
		same(f, err, "reader kind %d", mode)
	}

	clean := &faultyReader{data: b, kind: rCall, k: 1 << 30, touched: make([]bool, len(b))}
	f, err := sfnt.Read(clean)
	same(f, err, "ReaderAt without faults")
	end, last, starts := endOfData(t, b)
	c.ClassIf(end < len(b), "padding at the end")

	sum := ref.Checksum(b)
	for _, k := range offsets(rng, len(b), starts, random) {
		// truncated files
		mode := rng.IntN(numModes)
		pbt.Doing(func() string {
			return fmt.Sprintf("file with %d bytes truncated to %d bytes, reader kind %d", len(b), k, mode)
		})
		f, err := readFont(rng, b[:k:k], mode)
		if k < end {
			if err == nil {
				t.Fatalf("file with %d bytes (last table ends at %d), truncated to %d bytes: no error (reader kind %d)", len(b), end, k, mode)
			}
			c.Class("truncated")
			c.NonTrivial([]byte(fmt.Sprint("T", k, sum)))
		} else if k >= last {
			// only padding is missing
			same(f, err, "file with %d bytes truncated to %d bytes", len(b), k)
		}

		// a stream which fails
		e := readErrors[rng.IntN(len(readErrors))]
		if _, err := sfnt.Read(&failAfter{b[:k], e}); err == nil {
			t.Fatalf("stream which returns %v after %d of %d bytes: no error", e, k, len(b))
		}
		c.NonTrivial([]byte(fmt.Sprint("S", k, sum)))

		// random access which fails
		r := &faultyReader{data: b, kind: rng.IntN(numReaders), k: k, err: e, eof: rng.IntN(2) == 0}
		if r.kind == rCall || r.kind == rTransient {
			r.k = rng.IntN(clean.calls + 1)
		}
		kind := r.kind
		pbt.Doing(func() string {
			return fmt.Sprintf("file with %d bytes, ReaderAt kind %d, fault at %d", len(b), kind, r.k)
		})
		f, err = sfnt.Read(r)
		if r.failed {
			if err == nil {
				t.Fatalf("file with %d bytes: ReaderAt (kind %d) returns %v (position %d, table ends %d): no error", len(b), kind, e, r.k, starts)
			}
			c.Class("fault " + []string{"from byte", "sector", "from call", "single call", "sector, with data", "sector, garbage"}[kind])
			c.NonTrivial([]byte(fmt.Sprint("R", kind, r.k, sum)))
			continue
		}
		needed := false
		switch kind {
		case rSector, rData, rGarbage:
			needed = k < len(b) && clean.touched[k]
		case rFrom:
			needed = k < end
		default:
			needed = r.k < clean.calls
		}
		if needed {
			t.Fatalf("file with %d bytes: needed data (kind %d, position %d) is not read", len(b), kind, k)
		}
		same(f, err, "fault (kind %d) at unused position %d", kind, r.k)
	}
}

// TestRead checks reading of generated fonts.
func TestRead(t *testing.T) {
	pbt.Check(t, 1000, 20000, func(t *rapid.T, c *pbt.Case) {
		rng := gen.Rand(t)
		f := drawFont(t)
		c.Class(gen.Kind(f))
		buf := &bytes.Buffer{}
		if _, err := f.Write(buf); err != nil {
			t.Fatalf("Write: %v", err)
		}
		p, err := ref.ParseContainer(buf.Bytes())
		if err != nil {
			t.Fatal(err)
		}
		tables := map[string][]byte{}
		for k, v := range p.Tables {
			tables[k] = v
		}
		if f.Gpos == nil && rapid.Bool().Draw(t, "kern") {
			tables["kern"] = gen.KernTable(t, f.NumGlyphs())
			c.Class("kern table")
		}
		if rapid.Bool().Draw(t, "unused table") {
			tables["zzzz"] = gen.DrawBytes(t, "unused", 40)
		}
		b := ref.BuildContainer(p.Scaler, tables)
		checkRead(t, c, rng, b, 30)
		c.Sample(func() string { return fmt.Sprintf("%s with %d glyphs, %d bytes", gen.Kind(f), f.NumGlyphs(), len(b)) })
	})
}

// TestCFF checks reading of bare CFF data.
func TestCFF(t *testing.T) {
	pbt.Check(t, 1500, 24000, func(t *rapid.T, c *pbt.Case) {
		rng := gen.Rand(t)
		f := gen.CFFFont(t, gen.CFFOpts{NumGlyphs: rapid.IntRange(1, 10).Draw(t, "n"), MaxRuns: 3, MaxStems: 3, CID: rapid.IntRange(0, 1).Draw(t, "cid")})
		buf := &bytes.Buffer{}
		if err := f.Write(buf); err != nil {
			t.Fatalf("Write: %v", err)
		}
		b := buf.Bytes()
		want, err := cff.Read(bytes.NewReader(b))
		if err != nil {
			t.Fatalf("Read: %v", err)
		}
		wantDump := gen.Dump(want)
		sum := ref.Checksum(b)
		for _, k := range offsets(rng, len(b), nil, 60) {
			pbt.Doing(func() string { return fmt.Sprintf("CFF data with %d bytes, fault at %d", len(b), k) })
			got, err := cff.Read(bytes.NewReader(b[:k:k]))
			if k < len(b) && err == nil {
				t.Fatalf("CFF data with %d bytes truncated to %d bytes: no error, equal %v", len(b), k, gen.Dump(got) == wantDump)
			}
			r := &faultyReader{data: b, kind: []int{rFrom, rSector, rData, rGarbage}[rng.IntN(4)], k: k, err: readErrors[rng.IntN(len(readErrors))]}
			got, err = cff.Read(io.NewSectionReader(r, 0, int64(len(b))))
			if r.failed && err == nil {
				t.Fatalf("CFF data with %d bytes, fault (kind %d) at %d: no error", len(b), r.kind, k)
			}
			if !r.failed && (err != nil || gen.Dump(got) != wantDump) {
				t.Fatalf("CFF data with %d bytes, fault (kind %d) at %d is not reached, but the result is different (%v)", len(b), r.kind, k, err)
			}
			c.NonTrivial([]byte(fmt.Sprint(r.kind, k, sum)))
		}
		c.Sample(func() string { return fmt.Sprintf("%d glyphs, %d bytes", len(f.Glyphs), len(b)) })
	})
}

// TestReal checks writing and reading of font files not written by the library.
func TestReal(t *testing.T) {
	fonts := gen.RealFonts(400000)
	pbt.Enumerate(t, len(fonts), func(i int, c *pbt.Case) {
		rng := rand.New(rand.NewPCG(uint64(pbt.Seed()), uint64(i)))
		fail := pbt.Failer(t, fonts[i].Name+": ")
		f, err := sfnt.Read(bytes.NewReader(fonts[i].Data))
		if err != nil {
			return // not all test fonts are valid
		}
		n := 8
		if pbt.Thorough() {
			n = 300
		}
		checkRead(fail.(gen.Fataler), c, rng, fonts[i].Data, n)
		for _, o := range outputs(f, nil) {
			checkWrite(fail.(gen.Fataler), c, rng, o, n)
		}
		c.Sample(func() string { return fonts[i].Name })
	})
}

// A sparseFile has the given directory, and pseudo-random data everywhere
// else.
type sparseFile struct {
	dir  []byte
	size int64
}

func (f *sparseFile) at(i int64) byte {
	if i < int64(len(f.dir)) {
		return f.dir[i]
	}
	return byte(uint64(i)*0x9E3779B97F4A7C15>>56) ^ 0x55
}

func (f *sparseFile) ReadAt(p []byte, off int64) (int, error) {
	if off < 0 {
		return 0, errors.New("negative offset")
	}
	for i := range p {
		if off+int64(i) >= f.size {
			return i, io.EOF
		}
		p[i] = f.at(off + int64(i))
	}
	return len(p), nil
}

// TestDirectory reads table directories of files of any size (up to 8 GiB),
// where the data of a table may be missing or cut short.
func TestDirectory(t *testing.T) {
	pbt.Check(t, 20000, 600000, func(t *rapid.T, c *pbt.Case) {
		n := rapid.IntRange(1, 8).Draw(t, "numTables")
		f := &sparseFile{dir: make([]byte, 12+16*n)}
		binary.BigEndian.PutUint32(f.dir, header.ScalerTypeTrueType)
		binary.BigEndian.PutUint16(f.dir[4:], uint16(n))

		type rec struct{ offset, length int64 }
		recs := make([]rec, n)
		pos := int64(len(f.dir))
		jump := rapid.IntRange(0, 2*n).Draw(t, "jump")
		anyEmpty := false
		for i := range recs {
			if i == jump {
				pos = rapid.Int64Range(1<<32-3000, 1<<32-1).Draw(t, "offset")
			}
			length := rapid.OneOf(rapid.Int64Range(0, 20), rapid.Int64Range(0, 2000), rapid.Int64Range(1<<32-2000, 1<<32-1)).Draw(t, "length")
			if length > 2000 && i < n-1 {
				length = 1
			}
			pos = min(pos, 1<<32-1)
			recs[i] = rec{pos, length}
			anyEmpty = anyEmpty || length == 0
			pos += length + rapid.Int64Range(0, 3).Draw(t, "gap")
			if rapid.IntRange(0, 39).Draw(t, "overlap") == 0 {
				pos = max(int64(len(f.dir)), pos-rapid.Int64Range(1, 5).Draw(t, "by"))
			}
		}
		var end int64
		for _, r := range recs {
			end = max(end, r.offset+r.length)
		}
		f.size = max(int64(len(f.dir)), end)
		switch rapid.IntRange(0, 3).Draw(t, "cut") {
		case 0:
			f.size = max(int64(len(f.dir)), f.size-rapid.Int64Range(1, 30).Draw(t, "by"))
		case 1:
			if end > 1<<32 {
				f.size = max(int64(len(f.dir)), end&0xFFFFFFFF)
			}
		case 2:
			f.size += rapid.Int64Range(0, 10).Draw(t, "extra")
		}

		// what we expect
		complete := end <= f.size
		overlap := false
		for i, a := range recs {
			for _, b := range recs[:i] {
				if a.offset < b.offset+b.length && b.offset < a.offset+a.length {
					overlap = true
				}
			}
		}

		perm := rapid.Permutation(recs).Draw(t, "order")
		tables := map[string]rec{}
		for i, r := range perm {
			tag := string([]byte{'T', 'A', 'B', byte('a' + i)})
			tables[tag] = r
			b := f.dir[12+16*i:]
			copy(b, tag)
			binary.BigEndian.PutUint32(b[8:], uint32(r.offset))
			binary.BigEndian.PutUint32(b[12:], uint32(r.length))
		}

		desc := fmt.Sprintf("size %d, tables %v", f.size, perm)
		info, err := header.Read(f)
		if err != nil {
			if complete && !overlap && !anyEmpty {
				t.Fatalf("%s: a complete file is rejected: %v", desc, err)
			}
			c.Class("rejected")
			c.NonTrivial([]byte(desc))
			return
		}
		if overlap {
			c.Class("overlap accepted")
		}
		if len(info.Toc) != n {
			t.Fatalf("%s: %d tables found", desc, len(info.Toc))
		}
		for tag, r := range tables {
			got, ok := info.Toc[tag]
			if !ok || int64(got.Offset) != r.offset || int64(got.Length) != r.length {
				t.Fatalf("%s: table %s: %v", desc, tag, got)
			}
			if r.length == 0 {
				continue
			}
			if r.offset+r.length > f.size {
				t.Fatalf("%s: table %s is incomplete, but the file is accepted", desc, tag)
			}
			fd, err := info.TableReader(f, tag)
			if err != nil {
				t.Fatal(err)
			}
			if fd.Size() != r.length {
				t.Fatalf("%s: table %s: reader for %d bytes", desc, tag, fd.Size())
			}
			k := rapid.Int64Range(0, r.length-1).Draw(t, "pos")
			var buf [1]byte
			if _, err := fd.ReadAt(buf[:], k); err != nil && err != io.EOF || buf[0] != f.at(r.offset+k) {
				t.Fatalf("%s: table %s, byte %d: %d %v", desc, tag, k, buf[0], err)
			}
			if r.length > 5000 {
				continue
			}
			data, err := info.ReadTableBytes(f, tag)
			if err != nil || int64(len(data)) != r.length {
				t.Fatalf("%s: table %s: %d bytes, %v", desc, tag, len(data), err)
			}
			for i, x := range data {
				if x != f.at(r.offset+int64(i)) {
					t.Fatalf("%s: table %s: wrong byte %d", desc, tag, i)
				}
			}
		}
		c.Class("accepted")
		c.NonTrivial([]byte(desc))
		c.Sample(func() string { return desc })
	})
}
