package c12

import (
	"bytes"
	"fmt"
	"math"
	"testing"

	"golang.org/x/image/font"
	xsfnt "golang.org/x/image/font/sfnt"
	"golang.org/x/image/math/fixed"

	"pgregory.net/rapid"

	"seehuhn.de/go/geom/matrix"
	"seehuhn.de/go/geom/rect"
	"seehuhn.de/go/postscript/funit"

	"seehuhn.de/go/sfnt"
	"seehuhn.de/go/sfnt/cff"
	"seehuhn.de/go/sfnt/cmap"
	"seehuhn.de/go/sfnt/glyf"
	"seehuhn.de/go/sfnt/glyph"

	"seehuhn.de/go/sfnt/verif/gen"
	"seehuhn.de/go/sfnt/verif/pbt"
	"seehuhn.de/go/sfnt/verif/ref"
)

type fataler = gen.Fataler

// box is a bounding box; blank is set if nothing is drawn.
type box struct {
	x0, y0, x1, y1 float64
	blank          bool
}

func (b *box) add(x, y float64) {
	if b.blank {
		*b = box{x, y, x, y, false}
		return
	}
	b.x0, b.x1 = math.Min(b.x0, x), math.Max(b.x1, x)
	b.y0, b.y1 = math.Min(b.y0, y), math.Max(b.y1, y)
}

func (b *box) union(c box) {
	switch {
	case c.blank:
	case b.blank:
		*b = c
	default: // this also works for malformed boxes
		b.x0, b.x1 = math.Min(b.x0, c.x0), math.Max(b.x1, c.x1)
		b.y0, b.y1 = math.Min(b.y0, c.y0), math.Max(b.y1, c.y1)
	}
}

// mul applies first p, then q.
func mul(p, q matrix.Matrix) matrix.Matrix {
	return matrix.Matrix{
		p[0]*q[0] + p[1]*q[2], p[0]*q[1] + p[1]*q[3],
		p[2]*q[0] + p[3]*q[2], p[2]*q[1] + p[3]*q[3],
		p[4]*q[0] + p[5]*q[2] + q[4], p[4]*q[1] + p[5]*q[3] + q[5],
	}
}

// spread returns the range of a cubic Bezier polynomial on [0, 1].
func spread(a, b, c, d float64) (lo, hi float64) {
	at := func(t float64) float64 {
		// de Casteljau
		ab, bc, cd := a+(b-a)*t, b+(c-b)*t, c+(d-c)*t
		p, q := ab+(bc-ab)*t, bc+(cd-bc)*t
		return p + (q-p)*t
	}
	lo, hi = math.Min(a, d), math.Max(a, d)
	see := func(t float64) { lo, hi = math.Min(lo, at(t)), math.Max(hi, at(t)) }
	// The derivative is a quadratic polynomial, split [0, 1] at its vertex
	// and use bisection.
	df := func(t float64) float64 {
		return (b-a)*(1-t)*(1-t) + 2*(c-b)*t*(1-t) + (d-c)*t*t
	}
	cuts := []float64{0}
	if den := (b - a) - 2*(c-b) + (d - c); den != 0 {
		if v := ((b - a) - (c - b)) / den; v > 0 && v < 1 {
			cuts = append(cuts, v)
		}
	}
	cuts = append(cuts, 1)
	for i := 0; i+1 < len(cuts); i++ {
		l, r := cuts[i], cuts[i+1]
		see(l)
		see(r)
		if df(l)*df(r) > 0 {
			continue
		}
		up := df(l) < df(r)
		for range 60 {
			m := (l + r) / 2
			if (df(m) < 0) == up {
				l = m
			} else {
				r = m
			}
		}
		see((l + r) / 2)
	}
	return lo, hi
}

// cffBox computes the bounding box of a glyph.
func cffBox(g *cff.Glyph, m matrix.Matrix) box {
	b := box{blank: true}
	tr := func(x, y float64) (float64, float64) {
		return x*m[0] + y*m[2] + m[4], x*m[1] + y*m[3] + m[5]
	}
	var x0, y0 float64
	for _, cmd := range g.Cmds {
		a := cmd.Args
		switch cmd.Op {
		case cff.OpMoveTo, cff.OpLineTo:
			x0, y0 = tr(a[0], a[1])
			b.add(x0, y0)
		case cff.OpCurveTo:
			x1, y1 := tr(a[0], a[1])
			x2, y2 := tr(a[2], a[3])
			x3, y3 := tr(a[4], a[5])
			xl, xh := spread(x0, x1, x2, x3)
			yl, yh := spread(y0, y1, y2, y3)
			b.add(xl, yl)
			b.add(xh, yh)
			x0, y0 = x3, y3
		}
	}
	return b
}

// glyphBox computes the bounding box of a glyph in font design units.
func glyphBox(f *sfnt.Font, i int) box {
	switch o := f.Outlines.(type) {
	case *cff.Outlines:
		return cffBox(o.Glyphs[i], matrix.Identity)
	case *glyf.Outlines:
		g := o.Glyphs[i]
		if g == nil || g.Rect16 == (funit.Rect16{}) {
			return box{blank: true}
		}
		return box{float64(g.LLx), float64(g.LLy), float64(g.URx), float64(g.URy), false}
	}
	panic("unexpected outlines")
}

// isRounded checks whether got is the box, with the sides moved outwards to integers.
func isRounded(b box, got funit.Rect16) bool {
	if b.blank {
		return got == funit.Rect16{}
	}
	const eps = 1e-6
	down := func(x float64, y float64) bool {
		return y == math.Floor(x) || y == math.Floor(x+eps) || y == math.Floor(x-eps)
	}
	up := func(x float64, y float64) bool { return down(-x, -y) }
	return down(b.x0, float64(got.LLx)) && down(b.y0, float64(got.LLy)) && up(b.x1, float64(got.URx)) && up(b.y1, float64(got.URy))
}

func near(a, b, scale float64) bool {
	return math.Abs(a-b) <= 1e-300+1e-7*(scale+math.Abs(a)+math.Abs(b))
}

func sameBox(b box, got rect.Rect, scale float64) bool {
	if b.blank {
		return got == rect.Rect{}
	}
	return near(b.x0, got.LLx, scale) && near(b.y0, got.LLy, scale) && near(b.x1, got.URx, scale) && near(b.y1, got.URy, scale)
}

// checkQueries checks the metric queries of a font.
func checkQueries(t fataler, c *pbt.Case, f *sfnt.Font) {
	n := f.NumGlyphs()
	widths := f.Widths()
	boxes := f.GlyphBBoxes()
	pdf := f.WidthsPDF()
	if len(widths) != n || len(boxes) != n {
		t.Fatalf("%d widths and %d boxes for %d glyphs", len(widths), len(boxes), n)
	}
	og, isGlyf := f.Outlines.(*glyf.Outlines)
	oc, _ := f.Outlines.(*cff.Outlines)
	noWidths := isGlyf && og.Widths == nil
	if noWidths {
		c.Class("no widths")
	}
	if (pdf == nil) != noWidths || pdf != nil && len(pdf) != n {
		t.Fatalf("%d PDF widths for %d glyphs", len(pdf), n)
	}
	names := f.WidthsMapPDF()
	simple := oc != nil && oc.ROS == nil
	if (names != nil) != simple {
		t.Fatalf("map of widths: %v, simple CFF font: %v", names != nil, simple)
	}

	fontBox := box{blank: true}
	fontBoxPDF := box{blank: true}
	malformed := false
	var first float64
	equal, far := true, false
	for i := 0; i < n; i++ {
		gid := glyph.ID(i)
		// widths
		var w float64
		m := f.FontMatrix
		if isGlyf {
			if !noWidths {
				w = float64(og.Widths[i])
			}
		} else {
			w = oc.Glyphs[i].Width
			if oc.ROS != nil {
				m = mul(oc.FontMatrices[oc.FDSelect(gid)], m)
			}
		}
		if widths[i] != w || f.GlyphWidth(gid) != w {
			t.Fatalf("glyph %d: Widths %g, GlyphWidth %g, want %g", i, widths[i], f.GlyphWidth(gid), w)
		}
		var q float64
		if isGlyf {
			q = 1000 / float64(f.UnitsPerEm)
		} else {
			q = m[0]
			if math.Abs(m[3]) > 1e-6 {
				q -= m[1] * m[2] / m[3]
				if m[1] != 0 && m[2] != 0 {
					c.Class("general font matrix")
				}
			}
			q *= 1000
		}
		skip := oc != nil && math.Abs(math.Abs(m[3])-1e-6) < 1e-9 // too close to call
		if !skip && !near(f.GlyphWidthPDF(gid), w*q, 0) {
			t.Fatalf("glyph %d: GlyphWidthPDF %g, want %g*%g", i, f.GlyphWidthPDF(gid), w, q)
		}
		if pdf != nil && !near(pdf[i]*1000, f.GlyphWidthPDF(gid), 0) {
			t.Fatalf("glyph %d: WidthsPDF %g, GlyphWidthPDF %g", i, pdf[i], f.GlyphWidthPDF(gid))
		}
		if simple && !near(names[f.GlyphName(gid)], f.GlyphWidthPDF(gid), 0) {
			t.Fatalf("glyph %d: WidthsMapPDF %g, GlyphWidthPDF %g", i, names[f.GlyphName(gid)], f.GlyphWidthPDF(gid))
		}
		if w != 0 {
			if first == 0 {
				first = w
			}
			equal = equal && w == first
			far = far || math.Abs(w-first) >= 0.5
		}

		// boxes
		b := glyphBox(f, i)
		if !b.blank && (b.x0 < -32767 || b.y0 < -32767 || b.x1 > 32766 || b.y1 > 32766) {
			if !isGlyf {
				c.Class("box too large")
				return
			}
		}
		if !isRounded(b, boxes[i]) || f.GlyphBBox(gid) != boxes[i] {
			t.Fatalf("glyph %d: GlyphBBoxes %v, GlyphBBox %v, want %v", i, boxes[i], f.GlyphBBox(gid), b)
		}
		malformed = malformed || boxes[i].LLx > boxes[i].URx || boxes[i].LLy > boxes[i].URy
		if boxes[i] != (funit.Rect16{}) {
			fontBox.union(box{float64(boxes[i].LLx), float64(boxes[i].LLy), float64(boxes[i].URx), float64(boxes[i].URy), false})
		}
		m = mul(m, matrix.Matrix{1000, 0, 0, 1000, 0, 0})
		var bPDF box
		if isGlyf {
			// the outline itself is not available
			bPDF.blank = og.Glyphs[i] == nil
			if !bPDF.blank {
				bPDF = cffBox(&cff.Glyph{Cmds: []cff.GlyphOp{
					{Op: cff.OpMoveTo, Args: []float64{float64(boxes[i].LLx), float64(boxes[i].LLy)}},
					{Op: cff.OpLineTo, Args: []float64{float64(boxes[i].LLx), float64(boxes[i].URy)}},
					{Op: cff.OpLineTo, Args: []float64{float64(boxes[i].URx), float64(boxes[i].LLy)}},
					{Op: cff.OpLineTo, Args: []float64{float64(boxes[i].URx), float64(boxes[i].URy)}},
				}}, m)
			}
		} else {
			bPDF = cffBox(oc.Glyphs[i], m)
		}
		scale := math.Abs(m[0]) + math.Abs(m[1]) + math.Abs(m[2]) + math.Abs(m[3]) + math.Abs(m[4]) + math.Abs(m[5])
		got := f.Outlines.GlyphBBoxPDF(f.FontMatrix, gid)
		if !sameBox(bPDF, got, 100*scale) {
			t.Fatalf("glyph %d: GlyphBBoxPDF %v, want %v", i, got, bPDF)
		}
		if got != (rect.Rect{}) {
			fontBoxPDF.union(box{got.LLx, got.LLy, got.URx, got.URy, false})
		}
		c.ClassIf(!b.blank, "glyph box")
	}

	if got := f.FontBBox(); !malformed && !isRounded(fontBox, got) {
		t.Fatalf("FontBBox %v, want %v", got, fontBox)
	}
	if got := f.FontBBoxPDF(); !sameBox(fontBoxPDF, got, 0) {
		t.Fatalf("FontBBoxPDF %v, want %v", got, fontBoxPDF)
	}
	if oc != nil {
		if got := oc.BBox(); !isRounded(fontBox, got) {
			t.Fatalf("BBox %v, want %v", got, fontBox)
		}
		cf := f.AsCFF()
		if cf.FontBBoxPDF() != f.FontBBoxPDF() {
			t.Fatalf("FontBBoxPDF of the CFF font is %v, want %v", cf.FontBBoxPDF(), f.FontBBoxPDF())
		}
		for i, w := range cf.WidthsPDF() {
			gid := glyph.ID(i)
			if !near(w, f.GlyphWidthPDF(gid), 0) || !near(w, cf.GlyphWidthPDF(gid), 0) || cf.Widths()[i] != widths[i] {
				t.Fatalf("glyph %d: WidthsPDF of the CFF font is %g, GlyphWidthPDF %g, Widths %g, want %g (%g)", i, w, cf.GlyphWidthPDF(gid), cf.Widths()[i], f.GlyphWidthPDF(gid), widths[i])
			}
			if n > 1000 {
				break
			}
		}
		if m := cf.WidthsMapPDF(); gen.Dump(m) != gen.Dump(names) {
			t.Fatalf("WidthsMapPDF of the CFF font is %v, want %v", m, names)
		}
		if cf.IsFixedPitch != f.IsFixedPitch() {
			t.Fatalf("IsFixedPitch of the CFF font is %v", cf.IsFixedPitch)
		}
	}
	if f.GlyphWidth(glyph.ID(min(n, 65535))) != 0 && n < 65535 {
		t.Fatalf("glyph %d has a width", n)
	}
	if f.IsFixedPitch() != equal && (equal || far) {
		t.Fatalf("IsFixedPitch() = %v, all widths equal: %v", f.IsFixedPitch(), equal)
	}
	c.ClassIf(equal && first != 0 && n > 1, "fixed pitch")
	c.ClassIf(!fontBox.blank, "font box")
}

// charRange returns the range of characters in the best cmap subtable.
func charRange(t fataler, f *sfnt.Font) (lo, hi uint32, ok bool) {
	for _, k := range []cmap.Key{{PlatformID: 3, EncodingID: 10}, {PlatformID: 0, EncodingID: 4}, {PlatformID: 3, EncodingID: 1}, {PlatformID: 0, EncodingID: 3}, {PlatformID: 1}} {
		d, found := f.CMapTable[k]
		if !found {
			continue
		}
		switch ref.U16(d, 0) {
		case 0, 4, 6, 12:
		default:
			continue
		}
		if k.PlatformID == 1 && ref.U16(d, 0) == 12 {
			continue // these are for Unicode only
		}
		m, err := ref.CmapExpand(d)
		if err != nil {
			t.Fatalf("cmap: %v", err)
		}
		first := true
		for code := range m {
			if k.PlatformID == 1 {
				if code > 255 {
					return 0, 0, false
				}
				code = uint32(ref.MacRune(byte(code)))
			}
			if first || code < lo {
				lo = code
			}
			if first || code > hi {
				hi = code
			}
			first = false
		}
		return lo, hi, true
	}
	return 0, 0, true
}

// checkWritten checks the header tables in a font file.
func checkWritten(t fataler, c *pbt.Case, f *sfnt.Font, p *ref.Container) {
	n := f.NumGlyphs()
	i16 := func(d []byte, i int) int { return int(int16(ref.U16(d, i))) }
	clamp := func(x int) int { return max(-32768, min(32767, x)) }

	// boxes and widths, as integers
	widths := make([]int, n)
	boxes := make([]funit.Rect16, n)
	fontBox := box{blank: true}
	malformed, noWidths := false, false
	if o, ok := f.Outlines.(*glyf.Outlines); ok {
		noWidths = o.Widths == nil
	}
	for i := range widths {
		widths[i] = int(math.Round(f.Widths()[i]))
		boxes[i] = f.GlyphBBox(glyph.ID(i)) // compared to the outlines in checkQueries
		if b := boxes[i]; b != (funit.Rect16{}) {
			malformed = malformed || b.LLx > b.URx || b.LLy > b.URy
			fontBox.union(box{float64(b.LLx), float64(b.LLy), float64(b.URx), float64(b.URy), false})
		}
		if n > 5000 {
			break
		}
	}
	if n > 5000 {
		return
	}

	head := p.Tables["head"]
	got := funit.Rect16{LLx: funit.Int16(i16(head, 36)), LLy: funit.Int16(i16(head, 38)), URx: funit.Int16(i16(head, 40)), URy: funit.Int16(i16(head, 42))}
	if !malformed && !isRounded(fontBox, got) {
		t.Fatalf("head: font bounding box %v, want %v", got, fontBox)
	}
	if ref.U16(head, 18) != int(f.UnitsPerEm) {
		t.Fatalf("head: %d units per em, want %d", ref.U16(head, 18), f.UnitsPerEm)
	}

	os2 := p.Tables["OS/2"]
	sum, count := 0.0, 0
	for _, w := range f.Widths() {
		w = math.Round(w)
		if w > 0 {
			sum += w
			count++
		}
	}
	avg := 0.0
	if count > 0 {
		avg = sum / float64(count)
	}
	if x := i16(os2, 2); math.Abs(float64(x)-avg) > 1 {
		t.Fatalf("OS/2: average width %d, want %g", x, avg)
	}
	if lo, hi, ok := charRange(t, f); ok {
		lo, hi = min(lo, 0xFFFF), min(hi, 0xFFFF)
		if a, b := ref.U16(os2, 64), ref.U16(os2, 66); a != int(lo) || b != int(hi) {
			t.Fatalf("OS/2: characters %04X to %04X, want %04X to %04X (cmap %.300q)", a, b, lo, hi, fmt.Sprint(f.CMapTable))
		}
		c.ClassIf(hi > lo, "character range")
		c.ClassIf(hi == 0xFFFF, "characters above U+FFFF")
	}
	for i, x := range []funit.Int16{f.Ascent, f.Descent, f.LineGap} {
		if i16(os2, 68+2*i) != int(x) {
			t.Fatalf("OS/2: typographic metrics at offset %d are %d, want %d", 68+2*i, i16(os2, 68+2*i), x)
		}
	}
	if !malformed && (got.URy >= 0 && ref.U16(os2, 74) != int(got.URy) || got.LLy <= 0 && ref.U16(os2, 76) != -int(got.LLy)) {
		t.Fatalf("OS/2: win metrics %d, %d for box %v", ref.U16(os2, 74), ref.U16(os2, 76), got)
	}

	post := p.Tables["post"]
	if (ref.U32(post, 12) != 0) != f.IsFixedPitch() {
		t.Fatalf("post: fixed pitch %d, want %v", ref.U32(post, 12), f.IsFixedPitch())
	}
	r16 := func(x float64) int { return int(math.Round(x)) }
	if i16(post, 8) != r16(float64(f.UnderlinePosition)) || i16(post, 10) != r16(float64(f.UnderlineThickness)) {
		t.Fatalf("post: underline %d, %d, want %g, %g", i16(post, 8), i16(post, 10), f.UnderlinePosition, f.UnderlineThickness)
	}
	if a := float64(int32(ref.U32(post, 4))) / 65536; math.Abs(a-f.ItalicAngle) > 1.0/65536 {
		t.Fatalf("post: italic angle %g, want %g", a, f.ItalicAngle)
	}

	hhea := p.Tables["hhea"]
	if noWidths {
		if len(hhea) != 0 || len(p.Tables["hmtx"]) != 0 {
			t.Fatalf("unexpected metrics")
		}
		return
	}
	for i, x := range []funit.Int16{f.Ascent, f.Descent, f.LineGap} {
		if i16(hhea, 4+2*i) != int(x) {
			t.Fatalf("hhea: metrics at offset %d are %d, want %d", 4+2*i, i16(hhea, 4+2*i), x)
		}
	}
	maxAdv := 0
	var minL, minR, maxE int
	first := true
	for i, b := range boxes {
		maxAdv = max(maxAdv, widths[i])
		if b == (funit.Rect16{}) {
			continue
		}
		l, r, e := int(b.LLx), clamp(widths[i]-int(b.URx)), int(b.URx)
		if first {
			minL, minR, maxE = l, r, e
		}
		minL, minR, maxE = min(minL, l), min(minR, r), max(maxE, e)
		first = false
	}
	negative := false
	for _, w := range widths {
		negative = negative || w < 0
	}
	if negative {
		c.Class("negative width")
	} else if ref.U16(hhea, 10) != maxAdv {
		t.Fatalf("hhea: maximal advance %d, want %d", ref.U16(hhea, 10), maxAdv)
	}
	for i, x := range []int{minL, minR, maxE} {
		if i16(hhea, 12+2*i) != x {
			t.Fatalf("hhea: field %s is %d, want %d", []string{"minLeftSideBearing", "minRightSideBearing", "xMaxExtent"}[i], i16(hhea, 12+2*i), x)
		}
	}
	// the caret
	rise, run := i16(hhea, 18), i16(hhea, 20)
	if a := math.Atan2(-float64(run), float64(rise)) * 180 / math.Pi; f.ItalicAngle > -85 && f.ItalicAngle < 85 && math.Abs(a-f.ItalicAngle) > 0.01 {
		t.Fatalf("hhea: caret slope %d/%d for angle %g", rise, run, f.ItalicAngle)
	}
	// hmtx
	k := ref.U16(hhea, 34)
	hmtx := p.Tables["hmtx"]
	if k < 1 || k > n || len(hmtx) != 4*k+2*(n-k) {
		t.Fatalf("hmtx: %d bytes for %d glyphs, %d full metrics", len(hmtx), n, k)
	}
	for i := range boxes {
		w := i16(hmtx, 4*min(i, k-1))
		lsb := 0
		if i < k {
			lsb = i16(hmtx, 4*i+2)
		} else {
			lsb = i16(hmtx, 4*k+2*(i-k))
		}
		if w != widths[i] || lsb != int(boxes[i].LLx) {
			t.Fatalf("hmtx: glyph %d has width %d, left side bearing %d, want %d and %d", i, w, lsb, widths[i], boxes[i].LLx)
		}
	}
}

// TestFont checks the metrics of complete fonts.
func TestFont(t *testing.T) {
	pbt.Check(t, 12000, 300000, func(t *rapid.T, c *pbt.Case) {
		plain := rapid.IntRange(0, 2).Draw(t, "plain") == 0
		f := gen.Font(t, gen.FontOpts{MaxGlyphs: 16, Plain: plain, NoLayout: true})
		c.Class(gen.Kind(f))
		switch o := f.Outlines.(type) {
		case *glyf.Outlines:
			if len(o.Widths) > 0 && rapid.IntRange(0, 3).Draw(t, "fixed") == 0 {
				for i := range o.Widths {
					if o.Widths[i] != 0 {
						o.Widths[i] = 600
					}
				}
			}
		case *cff.Outlines:
			if rapid.IntRange(0, 3).Draw(t, "fixed") == 0 {
				for _, g := range o.Glyphs {
					if g.Width != 0 {
						g.Width = 600
					}
				}
			}
		}
		before := gen.DumpFont(f)
		checkQueries(t, c, f)
		buf := &bytes.Buffer{}
		if _, err := f.Write(buf); err != nil {
			t.Fatalf("Write: %v", err)
		}
		p, err := ref.ParseContainer(buf.Bytes())
		if err != nil {
			t.Fatalf("malformed container: %v", err)
		}
		checkWritten(t, c, f, p)
		got, err := sfnt.Read(bytes.NewReader(buf.Bytes()))
		if err != nil {
			t.Fatalf("Read: %v", err)
		}
		checkQueries(t, c, got)
		for i, w := range f.Widths() {
			if got.Widths()[i] != math.Round(w) {
				t.Fatalf("glyph %d has width %g, want %g", i, got.Widths()[i], w)
			}
			if i > 300 {
				break
			}
		}
		if gen.DumpFont(f) != before {
			t.Fatalf("the font is modified: %s", gen.DiffText(before, gen.DumpFont(f)))
		}
		c.NonTrivial(buf.Bytes())
		c.Sample(func() string {
			return fmt.Sprintf("%s, %d glyphs, box %v, %d upm", gen.Kind(f), f.NumGlyphs(), f.FontBBox(), f.UnitsPerEm)
		})
		if plain {
			compareX(t, c, f, p, buf.Bytes())
		}
	})
}

// compareX compares the metrics with the values found by golang.org/x/image.
func compareX(t fataler, c *pbt.Case, f *sfnt.Font, p *ref.Container, b []byte) {
	if len(p.Tables["hmtx"]) == 0 {
		return
	}
	tables := map[string][]byte{}
	for k, v := range p.Tables {
		tables[k] = v
	}
	tables["cmap"] = ref.MinimalTables(1)["cmap"]
	x, err := xsfnt.Parse(ref.BuildContainer(p.Scaler, tables))
	if err != nil {
		t.Fatalf("golang.org/x/image cannot read the font: %v", err)
	}
	c.Class("compared to golang.org/x/image")
	xb := &xsfnt.Buffer{}
	ppem := fixed.Int26_6(f.UnitsPerEm)
	bounds, err := x.Bounds(xb, ppem, font.HintingNone)
	if err != nil {
		t.Fatalf("golang.org/x/image: %v", err)
	}
	// the y axis points down
	fb := f.FontBBox()
	if bounds != (fixed.Rectangle26_6{Min: fixed.Point26_6{X: fixed.Int26_6(fb.LLx), Y: -fixed.Int26_6(fb.URy)}, Max: fixed.Point26_6{X: fixed.Int26_6(fb.URx), Y: -fixed.Int26_6(fb.LLy)}}) {
		t.Fatalf("golang.org/x/image: bounds %v, want %v", bounds, fb)
	}
	m, err := x.Metrics(xb, ppem, font.HintingNone)
	if err != nil {
		t.Fatalf("golang.org/x/image: %v", err)
	}
	if int(m.Ascent) != int(f.Ascent) || int(m.Descent) != -int(f.Descent) || int(m.Height) != int(f.Ascent)-int(f.Descent)+int(f.LineGap) {
		t.Fatalf("golang.org/x/image: ascent %d, descent %d, height %d, want %d, %d, gap %d", m.Ascent, m.Descent, m.Height, f.Ascent, f.Descent, f.LineGap)
	}
	for i, w := range f.Widths() {
		_, adv, err := x.GlyphBounds(xb, xsfnt.GlyphIndex(i), ppem, font.HintingNone)
		if err != nil {
			continue // limits of the other implementation
		}
		if float64(adv) != w {
			t.Fatalf("golang.org/x/image: glyph %d has width %d, want %g", i, adv, w)
		}
		if i > 100 {
			break
		}
	}
}
