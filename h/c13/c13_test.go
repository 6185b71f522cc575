// Package c13 checks that CFF structures survive writing and reading.
package c13

import (
	"bytes"
	"fmt"
	"math"
	"strings"
	"testing"

	"pgregory.net/rapid"

	"seehuhn.de/go/geom/matrix"
	"seehuhn.de/go/postscript/cid"
	"seehuhn.de/go/postscript/funit"
	"seehuhn.de/go/postscript/type1"
	"seehuhn.de/go/sfnt/cff"
	"seehuhn.de/go/sfnt/glyph"

	"seehuhn.de/go/sfnt/verif/gen"
	"seehuhn.de/go/sfnt/verif/pbt"
	"seehuhn.de/go/sfnt/verif/ref"
)

func TestMain(m *testing.M) { pbt.Main(m) }

type fataler interface{ Fatalf(string, ...any) }

// dictMatrix reads a font matrix from a DICT.
func dictMatrix(d ref.Dict, def matrix.Matrix) (matrix.Matrix, error) {
	v, ok := d[0x0c07]
	if !ok {
		return def, nil
	}
	if len(v) != 6 {
		return def, fmt.Errorf("font matrix with %d entries", len(v))
	}
	var m matrix.Matrix
	for i := range m {
		m[i] = v[i].Val
	}
	return m, nil
}

var defMatrix = matrix.Matrix{0.001, 0, 0, 0.001, 0, 0}

func toI16(v []float64) []funit.Int16 {
	var r []funit.Int16
	for _, x := range v {
		r = append(r, funit.Int16(x))
	}
	return r
}

func validUTF8(s string) string { return string([]rune(s)) }

// refFont converts the result of the reference parser to a font.
func refFont(p *ref.CFF) (*cff.Font, error) {
	str := func(op int) string {
		v, ok := p.Top[op]
		if !ok {
			return ""
		}
		s, _ := p.String(int(v[0].Val))
		return validUTF8(s)
	}
	info := &type1.FontInfo{
		FontName: p.Name, Version: str(0), Notice: str(1), FullName: str(2), FamilyName: str(3), Weight: str(4), Copyright: str(0x0c00),
		IsFixedPitch: p.Top.Num(0x0c01, 0) != 0, ItalicAngle: p.Top.Num(0x0c02, 0),
		UnderlinePosition: funit.Float64(p.Top.Num(0x0c03, -100)), UnderlineThickness: funit.Float64(p.Top.Num(0x0c04, 50)),
	}
	out := &cff.Outlines{}
	f := &cff.Font{FontInfo: info, Outlines: out}
	def := defMatrix
	if p.IsCID {
		def = matrix.Identity
		ros := p.Top[0x0c1e]
		r, err := p.String(int(ros[0].Val))
		if err != nil {
			return nil, err
		}
		o, err := p.String(int(ros[1].Val))
		if err != nil {
			return nil, err
		}
		out.ROS = &cid.SystemInfo{Registry: r, Ordering: o, Supplement: int32(ros[2].Val)}
		for _, x := range p.Charset {
			out.GIDToCID = append(out.GIDToCID, cid.CID(x))
		}
	} else {
		out.Encoding = make([]glyph.ID, 256)
		for i, g := range p.Encoding {
			out.Encoding[i] = glyph.ID(g)
		}
	}
	var err error
	info.FontMatrix, err = dictMatrix(p.Top, def)
	if err != nil {
		return nil, err
	}
	for _, fd := range p.FDs {
		d := fd.Private
		out.Private = append(out.Private, &type1.PrivateDict{
			BlueValues: toI16(d.Delta(6)), OtherBlues: toI16(d.Delta(7)), BlueScale: d.Num(0x0c09, 0.039625),
			BlueShift: int32(d.Num(0x0c0a, 7)), BlueFuzz: int32(d.Num(0x0c0b, 1)), StdHW: d.Num(10, 0), StdVW: d.Num(11, 0),
			ForceBold: d.Num(0x0c0e, 0) != 0,
		})
		if p.IsCID {
			m, err := dictMatrix(fd.Dict, defMatrix)
			if err != nil {
				return nil, err
			}
			out.FontMatrices = append(out.FontMatrices, m)
		}
	}
	sel := p.FDSelect
	out.FDSelect = func(gid glyph.ID) int { return sel[gid] }
	kinds := map[byte]cff.GlyphOpType{'m': cff.OpMoveTo, 'l': cff.OpLineTo, 'c': cff.OpCurveTo, 'h': cff.OpHintMask, 'k': cff.OpCntrMask}
	for i, code := range p.CharStrings {
		fd := &p.FDs[sel[i]]
		r, err := ref.RunT2(code, &ref.T2Env{GSubrs: p.GSubrs, Subrs: fd.Subrs, Default: fd.Default, Nominal: fd.Nominal})
		if err != nil {
			return nil, fmt.Errorf("glyph %d: %w", i, err)
		}
		g := &cff.Glyph{Width: r.Width, HStem: r.HStem, VStem: r.VStem}
		for _, o := range r.Ops {
			g.Cmds = append(g.Cmds, cff.GlyphOp{Op: kinds[o.Kind], Args: o.Args})
		}
		if !p.IsCID {
			g.Name, err = p.String(p.Charset[i])
			if err != nil {
				return nil, err
			}
		}
		out.Glyphs = append(out.Glyphs, g)
	}
	return f, nil
}

// closed checks that b, which is a file written by the library, is read back
// and written again without change.
func closed(t fataler, b []byte) *cff.Font {
	f1, err := cff.Read(bytes.NewReader(b))
	if err != nil {
		t.Fatalf("cannot read the written font: %v", err)
	}
	var b2 bytes.Buffer
	if err := f1.Write(&b2); err != nil {
		t.Fatalf("cannot write the font just read: %v", err)
	}
	f2, err := cff.Read(bytes.NewReader(b2.Bytes()))
	if err != nil {
		t.Fatalf("cannot read the rewritten font: %v", err)
	}
	if err := (gen.CFFCmp{Exact: true}).Font(f1, f2); err != nil {
		t.Fatalf("second cycle changes the font: %v", err)
	}
	if !bytes.Equal(b, b2.Bytes()) {
		var b3 bytes.Buffer
		if err := f2.Write(&b3); err != nil || !bytes.Equal(b2.Bytes(), b3.Bytes()) {
			t.Fatalf("no fixed point: %d, %d, %d bytes", len(b), b2.Len(), b3.Len())
		}
	}
	return f1
}

func checkWritten(t fataler, c *pbt.Case, f *cff.Font) *ref.CFF {
	var buf bytes.Buffer
	if err := f.Write(&buf); err != nil {
		t.Fatalf("write failed: %v", err)
	}
	var again bytes.Buffer
	if err := f.Write(&again); err != nil || !bytes.Equal(again.Bytes(), buf.Bytes()) {
		t.Fatalf("writing twice gives different bytes (%v)", err)
	}
	p, err := ref.ParseCFF(buf.Bytes())
	if err != nil {
		t.Fatalf("malformed CFF: %v", err)
	}
	rf, err := refFont(p)
	if err != nil {
		t.Fatalf("malformed CFF: %v", err)
	}
	if err := (gen.CFFCmp{}).Font(f, rf); err != nil {
		t.Fatalf("independent parse: %v", err)
	}
	f1 := closed(t, buf.Bytes())
	if err := (gen.CFFCmp{}).Font(f, f1); err != nil {
		t.Fatalf("cff.Read: %v", err)
	}
	for i, fi := range []*cff.Font{f, f1} {
		enc := fi.BuiltinEncoding()
		if fi.ROS != nil {
			if enc != nil {
				t.Fatalf("font %d: CID-keyed font has a built-in encoding", i)
			}
			continue
		}
		if fi.Encoding == nil {
			continue
		}
		if len(enc) != 256 {
			t.Fatalf("font %d: built-in encoding has length %d", i, len(enc))
		}
		for code, gid := range fi.Encoding {
			want := ".notdef"
			if gid != 0 {
				want = fi.Glyphs[gid].Name
			}
			if enc[code] != want {
				t.Fatalf("font %d: built-in encoding maps %d to %q, should be %q", i, code, enc[code], want)
			}
		}
	}
	if err := (gen.CFFCmp{Exact: true}).Font(rf, f1); err != nil {
		// The two interpreters add the same numbers, possibly in a different
		// order.
		if err := (gen.CFFCmp{}).Font(rf, f1); err != nil {
			t.Fatalf("cff.Read differs from independent parse: %v", err)
		}
	}
	if p.IsCID {
		c.Class("CID", "FDSelect "+p.FDSelKind)
		c.ClassIf(len(p.FDs) > 1, "several FDs")
	} else {
		c.Class("encoding "+p.EncKind, fmt.Sprint("encoding id ", p.EncodingID))
	}
	c.Class("charset "+p.CharsetKind, fmt.Sprint("header offSize ", p.OffSize))
	return p
}

// TestWriteRead writes generated fonts.
func TestWriteRead(t *testing.T) {
	pbt.Check(t, 8000, 400000, func(t *rapid.T, c *pbt.Case) {
		o := gen.CFFOpts{MaxGlyphs: 40, MaxRuns: 2, MaxStems: 6}
		switch rapid.IntRange(0, 11).Draw(t, "big") {
		case 0:
			o.NumGlyphs = rapid.SampledFrom([]int{255, 256, 257, 258, 259, 300, 512, 513, 514, 700}).Draw(t, "n")
		case 1:
			o.NumGlyphs = rapid.IntRange(40, 300).Draw(t, "n")
		}
		f := gen.CFFFont(t, o)
		p := checkWritten(t, c, f)
		key := []byte(fmt.Sprint(p.Top, p.Charset, p.Encoding, p.FDSelect, p.Strings))
		if len(f.Glyphs) > 1 {
			c.NonTrivial(key)
		}
		c.Sample(func() string {
			return fmt.Sprintf("%d glyphs, CID %v, charset %s, encoding %s, FDSelect %s (%d FDs), info %+v", len(f.Glyphs), p.IsCID,
				p.CharsetKind, p.EncKind, p.FDSelKind, len(p.FDs), f.FontInfo)
		})
	})
}

func cidFont(nGlyphs, nFD int) *cff.Font {
	out := &cff.Outlines{
		ROS:      &cid.SystemInfo{Registry: "Adobe", Ordering: "Identity"},
		FDSelect: func(g glyph.ID) int { return int(g) % nFD },
	}
	for i := 0; i < nGlyphs; i++ {
		out.Glyphs = append(out.Glyphs, &cff.Glyph{Width: 500})
		out.GIDToCID = append(out.GIDToCID, cid.CID(i))
	}
	for i := 0; i < nFD; i++ {
		out.Private = append(out.Private, &type1.PrivateDict{BlueScale: 0.039625, BlueShift: 7, BlueFuzz: 1})
		out.FontMatrices = append(out.FontMatrices, defMatrix)
	}
	return &cff.Font{FontInfo: &type1.FontInfo{FontName: "Test", FontMatrix: matrix.Identity, UnderlinePosition: -100, UnderlineThickness: 50}, Outlines: out}
}

func simpleFont(names ...string) *cff.Font {
	out := &cff.Outlines{
		Private:  []*type1.PrivateDict{{BlueScale: 0.039625, BlueShift: 7, BlueFuzz: 1}},
		FDSelect: func(glyph.ID) int { return 0 },
	}
	for _, n := range append([]string{".notdef"}, names...) {
		out.Glyphs = append(out.Glyphs, &cff.Glyph{Name: n, Width: 500})
	}
	return &cff.Font{FontInfo: &type1.FontInfo{FontName: "Test", FontMatrix: defMatrix, UnderlinePosition: -100, UnderlineThickness: 50}, Outlines: out}
}

// TestIntegers enumerates integer operands.
func TestIntegers(t *testing.T) {
	var vals []int32
	for i := int32(-33000); i <= 33000; i++ {
		vals = append(vals, i)
	}
	for k := 15; k <= 31; k++ {
		for d := int64(-3); d <= 3; d++ {
			for _, s := range []int64{1, -1} {
				v := s*(int64(1)<<k) + d
				if v >= math.MinInt32 && v <= math.MaxInt32 {
					vals = append(vals, int32(v))
				}
			}
		}
	}
	const nFD = 250
	n := (len(vals) + 2*nFD - 1) / (2 * nFD)
	pbt.Enumerate(t, n, func(i int, c *pbt.Case) {
		f := cidFont(4, nFD)
		for k := 0; k < nFD; k++ {
			f.Private[k].BlueShift = vals[(i*2*nFD+2*k)%len(vals)]
			f.Private[k].BlueFuzz = vals[(i*2*nFD+2*k+1)%len(vals)]
		}
		f.ROS.Supplement = vals[len(vals)-1-i]
		checkWritten(pbt.Failer(t, fmt.Sprintf("integers from %d", f.Private[0].BlueShift)), c, f)
		c.NonTrivial([]byte(fmt.Sprint(i)))
	})
}

// TestReals checks reals of all magnitudes, many per font.
func TestReals(t *testing.T) {
	pbt.Check(t, 160, 16000, func(t *rapid.T, c *pbt.Case) {
		nFD := 60
		f := cidFont(2, nFD)
		s := rapid.Uint64().Draw(t, "seed")
		next := func() float64 {
			s += 0x9e3779b97f4a7c15
			z := s
			z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
			z = (z ^ (z >> 27)) * 0x94d049bb133111eb
			return float64((z^z>>31)>>11) / (1 << 53)
		}
		real := func() float64 {
			sign := 1.0
			if next() < 0.5 {
				sign = -1
			}
			e := math.Floor(next()*24) - 14
			if next() < 0.1 {
				e = math.Floor(next()*560) - 280
			}
			switch k := int(next() * 5); k {
			case 0: // few digits
				return sign * math.Floor(next()*1000) * math.Pow(10, e)
			case 1: // near a power of ten
				return sign * math.Pow(10, e) * (1 + (next()-0.5)*math.Pow(10, -math.Floor(next()*12)))
			case 2: // a tie in the tenth digit
				return sign * (math.Floor(next()*1e9) + 0.5) * math.Pow(10, e-9)
			case 3: // exactly nine digits
				return sign * math.Floor(next()*1e9) * math.Pow(10, e-9)
			}
			return sign * next() * math.Pow(10, e)
		}
		for k := 0; k < nFD; k++ {
			for i := range f.FontMatrices[k] {
				f.FontMatrices[k][i] = real()
			}
			f.Private[k].BlueScale = next()
			if next() < 0.2 {
				f.Private[k].BlueScale = 0.039625 * (1 + (next()-0.5)*1e-6)
			}
			f.Private[k].StdHW = next() * math.Pow(10, math.Floor(next()*8)-4)
			f.Private[k].StdVW = math.Floor(next() * 10000)
		}
		f.FontInfo.UnderlinePosition = funit.Float64(real())
		f.FontInfo.UnderlineThickness = funit.Float64(real())
		for i := range f.FontInfo.FontMatrix {
			f.FontInfo.FontMatrix[i] = real()
		}
		f.FontInfo.ItalicAngle = next()*360 - 180
		if next() < 0.5 {
			f.FontInfo.ItalicAngle = math.Mod(real(), 180)
			if math.Abs(f.FontInfo.ItalicAngle) < 1e-250 {
				f.FontInfo.ItalicAngle = 0
			}
		}
		checkWritten(t, c, f)
		c.NonTrivial([]byte(fmt.Sprint(s)))
	})
}

func charStringSize(f *cff.Font) int {
	var buf bytes.Buffer
	if err := f.Write(&buf); err != nil {
		return 0
	}
	p, err := ref.ParseCFF(buf.Bytes())
	if err != nil {
		return 0
	}
	total := 0
	for _, s := range p.CharStrings {
		total += len(s)
	}
	return total
}

// TestIndexSizes walks the total sizes of the String and CharStrings INDEX
// across the offset size boundaries.
func TestIndexSizes(t *testing.T) {
	var sizes []int
	for n := 225; n < 275; n++ {
		sizes = append(sizes, n)
	}
	for n := 65505; n < 65545; n++ {
		sizes = append(sizes, n)
	}
	kinds := 3
	extra := 1
	if pbt.Thorough() {
		extra = 4
	}
	pbt.Enumerate(t, kinds*len(sizes)+extra, func(i int, c *pbt.Case) {
		var f *cff.Font
		if i >= kinds*len(sizes) {
			// 24 bit boundary
			k := i - kinds*len(sizes)
			f = simpleFont("A")
			f.Notice = strings.Repeat("x", 1<<24-3+k)
		} else {
			n := sizes[i/kinds]
			switch i % kinds {
			case 0: // one string
				f = simpleFont("A")
				f.Notice = strings.Repeat("n", n)
			case 1: // two strings
				f = simpleFont("A", "unusual")
				f.Notice = strings.Repeat("n", n-7)
			case 2: // charstrings: .notdef, plus one or two moves and lines
				lines, tail := n/5, 0
				for iter := 0; iter < 40; iter++ {
					f = simpleFont("A", "B")
					g := f.Glyphs[1]
					g.MoveTo(0, 0)
					for k := 1; k <= lines; k++ {
						g.LineTo(float64(k%2)*300, float64(k%2)*400)
					}
					f.Glyphs[2].MoveTo([]float64{5, 500, 5000, 5000.5}[tail], 0)
					d := n - 1 - charStringSize(f)
					if d == 0 {
						break
					}
					if d > 4 || d < -4 {
						lines += d / 5
					} else {
						tail = (tail + 1) % 4
						if tail == 0 {
							lines += d / max(d, -d)
						}
					}
				}
			}
		}
		p := checkWritten(pbt.Failer(t, fmt.Sprint("size case ", i)), c, f)
		total := 0
		for _, s := range p.CharStrings {
			total += len(s)
		}
		switch total + 1 {
		case 255, 256, 257, 65535, 65536, 65537:
			c.Class(fmt.Sprintf("CharStrings data end %d", total+1))
		}
		c.NonTrivial([]byte(fmt.Sprint(i)))
	})
}

// TestTies walks the numbers of glyphs and runs across the points where the
// charset and FDSelect formats change.
func TestTies(t *testing.T) {
	pbt.Enumerate(t, 620, func(i int, c *pbt.Case) {
		n := 1 + i%310
		if i >= 310 {
			n += 205
		}
		for runs := 1; runs <= 7; runs++ {
			f := cidFont(n, 8)
			// CIDs in runs
			cd := 0
			for g := range f.GIDToCID {
				if g > 0 {
					cd++
					if runs > 1 && g%max(1, n/runs) == 0 {
						cd += 1 + g%3
					}
				}
				f.GIDToCID[g] = cid.CID(cd)
			}
			f.FDSelect = func(g glyph.ID) int { return int(g) * runs / n }
			checkWritten(pbt.Failer(t, fmt.Sprintf("%d glyphs in %d runs", n, runs)), c, f)
		}
		c.NonTrivial([]byte(fmt.Sprint(i)))
	})
}

// TestMany writes fonts with the maximum number of glyphs.
func TestMany(t *testing.T) {
	nn := []int{65535, 33000, 65534, 32768}
	k := 2
	if pbt.Thorough() {
		k = 4
	}
	pbt.Enumerate(t, 2*k, func(i int, c *pbt.Case) {
		n := nn[i/2]
		f := cidFont(n, 3)
		if i%2 == 1 {
			f = simpleFont()
			for len(f.Glyphs) < min(n, 65000-391) {
				f.Glyphs = append(f.Glyphs, &cff.Glyph{Name: fmt.Sprintf("g%d", len(f.Glyphs)), Width: 400})
			}
		} else {
			f.FDSelect = func(g glyph.ID) int { return int(g) * 3 / n }
			f.GIDToCID[n-1] = 65535
		}
		checkWritten(pbt.Failer(t, fmt.Sprint(n, " glyphs")), c, f)
		c.NonTrivial([]byte(fmt.Sprint(i)))
	})
}
