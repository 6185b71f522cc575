// Package c04 checks the compilation of glyphs to Type 2 charstrings.
package c04

import (
	"bytes"
	"fmt"
	"math"
	"testing"

	"pgregory.net/rapid"

	"seehuhn.de/go/geom/matrix"
	"seehuhn.de/go/postscript/type1"
	"seehuhn.de/go/sfnt/cff"
	"seehuhn.de/go/sfnt/glyph"

	"seehuhn.de/go/sfnt/verif/gen"
	"seehuhn.de/go/sfnt/verif/pbt"
	"seehuhn.de/go/sfnt/verif/ref"
)

func TestMain(m *testing.M) { pbt.Main(m) }

// One rounding to the 16.16 grid.  (The nearest grid point is at most half a
// unit away, truncation would stay below one unit.)
const tol = 1.0/65536 + 1e-9

func near(a, b float64) bool { return math.Abs(a-b) <= tol }

var kinds = map[cff.GlyphOpType]byte{
	cff.OpMoveTo: 'm', cff.OpLineTo: 'l', cff.OpCurveTo: 'c', cff.OpHintMask: 'h', cff.OpCntrMask: 'k',
}

func compareStems(name string, want, got []float64) error {
	if len(want) != len(got) {
		return fmt.Errorf("%s: %d edges instead of %d", name, len(got), len(want))
	}
	for i := range want {
		if !near(want[i], got[i]) {
			return fmt.Errorf("%s[%d] = %.8f, want %.8f", name, i, got[i], want[i])
		}
	}
	return nil
}

func compare(g *cff.Glyph, r *ref.T2Result) error {
	if err := compareStems("HStem", g.HStem, r.HStem); err != nil {
		return err
	}
	if err := compareStems("VStem", g.VStem, r.VStem); err != nil {
		return err
	}
	if !near(g.Width, r.Width) {
		return fmt.Errorf("width %.8f, want %.8f", r.Width, g.Width)
	}
	if len(g.Cmds) != len(r.Ops) {
		return fmt.Errorf("%d commands, want %d", len(r.Ops), len(g.Cmds))
	}
	for i, c := range g.Cmds {
		o := r.Ops[i]
		if o.Kind != kinds[c.Op] || len(o.Args) != len(c.Args) {
			return fmt.Errorf("command %d is %c %v, want %s", i, o.Kind, o.Args, c)
		}
		for k := range c.Args {
			isMask := c.Op == cff.OpHintMask || c.Op == cff.OpCntrMask
			if isMask && o.Args[k] != c.Args[k] || !isMask && !near(o.Args[k], c.Args[k]) {
				return fmt.Errorf("command %d is %c %.8f, want %s %.8f", i, o.Kind, o.Args, c.Op, c.Args)
			}
		}
	}
	return nil
}

// asResult converts a glyph as decoded by the library.
func asResult(g *cff.Glyph) *ref.T2Result {
	r := &ref.T2Result{HStem: g.HStem, VStem: g.VStem, Width: g.Width}
	for _, c := range g.Cmds {
		r.Ops = append(r.Ops, ref.T2Op{Kind: kinds[c.Op], Args: c.Args})
	}
	return r
}

func checkFont(t interface{ Fatalf(string, ...any) }, c *pbt.Case, f *cff.Font) {
	var buf bytes.Buffer
	if err := f.Write(&buf); err != nil {
		t.Fatalf("write failed: %v", err)
	}
	pf, err := ref.ParseCFF(buf.Bytes())
	if err != nil {
		t.Fatalf("written font is malformed: %v", err)
	}
	if len(pf.CharStrings) != len(f.Glyphs) {
		t.Fatalf("%d charstrings for %d glyphs", len(pf.CharStrings), len(f.Glyphs))
	}
	lib, err := cff.Read(bytes.NewReader(buf.Bytes()))
	if err != nil {
		t.Fatalf("library cannot read its own charstrings: %v", err)
	}
	var key []byte
	for gid, g := range f.Glyphs {
		fd := &pf.FDs[pf.FDSelect[gid]]
		code := pf.CharStrings[gid]
		r, err := ref.RunT2(code, &ref.T2Env{GSubrs: pf.GSubrs, Subrs: fd.Subrs, Default: fd.Default, Nominal: fd.Nominal})
		if err != nil {
			t.Fatalf("glyph %d: illegal charstring: %v\n% x\n%s", gid, err, code, g)
		}
		if r.Used["hintmask"] > 0 && r.Used["hstem"]+r.Used["vstem"] > 0 {
			// the specification requires hstemhm and vstemhm here
			t.Fatalf("glyph %d: hstem/vstem used together with hintmask\n% x\n%s", gid, code, g)
		}
		if err := compare(g, r); err != nil {
			t.Fatalf("glyph %d: charstring differs: %v\n% x\ndefault=%g nominal=%g\n%s", gid, err, code, fd.Default, fd.Nominal, g)
		}
		if err := compare(g, asResult(lib.Glyphs[gid])); err != nil {
			t.Fatalf("glyph %d: cff.Read differs: %v", gid, err)
		}
		for op := range r.Used {
			c.Class("op " + op)
		}
		c.ClassIf(r.MaxStack >= 46, "stack depth >= 46")
		c.ClassIf(r.HasWidth, "explicit width")
		c.ClassIf(!r.HasWidth, "default width")
		c.ClassIf(len(g.HStem)+len(g.VStem) > 96, "more than 48 stems")
		c.ClassIf(len(g.Cmds) >= 100, "100 or more commands")
		if len(g.Cmds) >= 2 || len(g.HStem)+len(g.VStem) > 0 {
			key = append(key, code...)
		}
	}
	if len(key) > 0 {
		c.NonTrivial(key)
	}
	c.Sample(func() string {
		g := f.Glyphs[len(f.Glyphs)-1]
		return fmt.Sprintf("%d glyphs; last: width %g, %d+%d stem edges, %d commands -> % x", len(f.Glyphs), g.Width,
			len(g.HStem), len(g.VStem), len(g.Cmds), pf.CharStrings[len(f.Glyphs)-1])
	})
}

// TestCompile compiles random glyphs.
func TestCompile(t *testing.T) {
	pbt.Check(t, 40000, 2000000, func(t *rapid.T, c *pbt.Case) {
		f := gen.CFFFont(t, gen.CFFOpts{MaxGlyphs: 4, MaxRuns: 5, MaxStems: 96})
		checkFont(t, c, f)
	})
}

func simpleFont(gg ...*cff.Glyph) *cff.Font {
	out := &cff.Outlines{
		Private:  []*type1.PrivateDict{{BlueScale: 0.039625, BlueShift: 7, BlueFuzz: 1}},
		FDSelect: func(glyph.ID) int { return 0 },
	}
	out.Glyphs = append(out.Glyphs, &cff.Glyph{Name: ".notdef", Width: 500})
	for i, g := range gg {
		g.Name = fmt.Sprintf("g%d", i)
		out.Glyphs = append(out.Glyphs, g)
	}
	return &cff.Font{
		FontInfo: &type1.FontInfo{FontName: "Test", FontMatrix: matrix.Matrix{0.001, 0, 0, 0.001, 0, 0}},
		Outlines: out,
	}
}

// TestRuns enumerates all run lengths of the repeatable operators around the
// stack limit, with all patterns of vanishing components for a short period.
func TestRuns(t *testing.T) {
	// Segment types: bits select which components are non-zero.
	type pat struct {
		curve bool
		bits  int
	}
	var period [][]pat
	for b := 0; b < 4; b++ {
		for b2 := 0; b2 < 4; b2++ {
			period = append(period, []pat{{false, b}, {false, b2}})
		}
	}
	curveBits := []int{0b111111, 0b011101, 0b101110, 0b101101, 0b011110, 0b001100, 0b111101, 0b111110, 0b011111, 0b101111, 0}
	for _, b := range curveBits {
		for _, b2 := range curveBits {
			period = append(period, []pat{{true, b}, {true, b2}})
		}
		period = append(period, []pat{{true, b}, {false, 3}}, []pat{{true, b}, {false, 1}})
	}
	lengths := 54
	pbt.Enumerate(t, len(period), func(i int, c *pbt.Case) {
		var gg []*cff.Glyph
		for n := 1; n <= lengths; n++ {
			for tail := 0; tail < 3; tail++ {
				g := &cff.Glyph{Width: float64(400 + n)}
				x, y := 0.0, 0.0
				g.MoveTo(0, 0)
				add := func(p pat, k int) {
					v := func(bit int) float64 {
						if p.bits>>bit&1 == 0 {
							return 0
						}
						return float64((k*7+bit*13)%23+1) * []float64{1, -1}[(k+bit)%2]
					}
					if p.curve {
						x1, y1 := x+v(0), y+v(1)
						x2, y2 := x1+v(2), y1+v(3)
						x, y = x2+v(4), y2+v(5)
						g.CurveTo(x1, y1, x2, y2, x, y)
					} else {
						x, y = x+v(0), y+v(1)
						g.LineTo(x, y)
					}
				}
				for k := 0; k < n; k++ {
					add(period[i][k%2], k)
				}
				switch tail {
				case 1:
					add(pat{true, 0b111111}, n)
				case 2:
					add(pat{false, 3}, n)
				}
				gg = append(gg, g)
			}
		}
		checkFont(pbt.Failer(t, fmt.Sprintf("period %d %+v", i, period[i])), c, simpleFont(gg...))
	})
}

// TestStems enumerates the numbers of horizontal and vertical stems, with and
// without an explicit width and masks.
func TestStems(t *testing.T) {
	pbt.Enumerate(t, 97, func(nh int, c *pbt.Case) {
		var gg []*cff.Glyph
		for nv := 0; nv+nh <= 96; nv++ {
			for mode := 0; mode < 4; mode++ {
				g := &cff.Glyph{Width: 500}
				if mode%2 == 1 {
					g.Width = 501.5
				}
				pos := float64(nh)
				for k := 0; k < nh; k++ {
					g.HStem = append(g.HStem, pos, pos+20.25)
					pos += 33.5
				}
				pos = -float64(nv)
				for k := 0; k < nv; k++ {
					g.VStem = append(g.VStem, pos, pos+10)
					pos += 12 + 1.0/3
				}
				if mode >= 2 && nh+nv > 0 {
					a := make([]float64, (nh+nv+7)/8)
					for k := range a {
						a[k] = float64((k*37 + nv*11 + 5) % 256)
					}
					g.Cmds = append(g.Cmds, cff.GlyphOp{Op: cff.OpHintMask, Args: a})
				}
				g.MoveTo(1, 2)
				g.LineTo(3, 4)
				gg = append(gg, g)
			}
		}
		checkFont(pbt.Failer(t, fmt.Sprintf("%d hstems", nh)), c, simpleFont(gg...))
	})
}

// TestNumbers checks every operand value: all integers, and all fractions of
// a coarse grid, both as deltas and as widths.
func TestNumbers(t *testing.T) {
	const step = 1000
	pbt.Enumerate(t, 64, func(i int, c *pbt.Case) {
		lo := -32000 + i*step
		var gg []*cff.Glyph
		for k := 0; k < step; k += 20 {
			g := &cff.Glyph{Width: float64(lo+k+32000) / 2}
			for j := 0; j < 20; j++ {
				v := lo + k + j
				// a delta of exactly v, from a point on the other side
				x0 := -float64(v / 2)
				g.MoveTo(x0, 0)
				g.LineTo(x0+float64(v), 0)
				g.MoveTo(0, x0)
				g.LineTo(7, x0+float64(v))
				if v > -31000 && v < 31000 {
					g.LineTo(7+float64(j+1)/65536, x0+float64(v)+float64(v)/65536)
				}
			}
			gg = append(gg, g)
		}
		checkFont(pbt.Failer(t, fmt.Sprintf("deltas from %d", lo)), c, simpleFont(gg...))
	})
}
