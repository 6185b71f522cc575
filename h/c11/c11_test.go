// Package c11 checks TrueType glyph data.
package c11

import (
	"bytes"
	"fmt"
	"reflect"
	"testing"

	"golang.org/x/image/font"
	xsfnt "golang.org/x/image/font/sfnt"
	"golang.org/x/image/math/fixed"
	"pgregory.net/rapid"

	"seehuhn.de/go/sfnt/glyf"
	"seehuhn.de/go/sfnt/glyph"

	"seehuhn.de/go/sfnt/verif/gen"
	"seehuhn.de/go/sfnt/verif/pbt"
	"seehuhn.de/go/sfnt/verif/ref"
)

func TestMain(m *testing.M) { pbt.Main(m) }

// build assembles glyf and loca tables.
func build(t *rapid.T, gg []gen.RawGlyph) *glyf.Encoded {
	format := int16(rapid.IntRange(0, 1).Draw(t, "locaFormat"))
	var data []byte
	offs := []int{0}
	if rapid.IntRange(0, 9).Draw(t, "gap") == 0 && format == 1 {
		// glyph data need not start at offset zero
		data = append(data, 1, 2, 3, 4)
		offs[0] = 4
	}
	align := 2
	if format == 1 {
		align = rapid.SampledFrom([]int{1, 2, 4}).Draw(t, "align")
	} else {
		align = rapid.SampledFrom([]int{2, 4}).Draw(t, "align")
	}
	for _, g := range gg {
		data = append(data, g.Bytes...)
		for g.Bytes != nil && len(data)%align != 0 && (g.Kind != "zero contours, header only" || len(data)%2 != 0) {
			data = append(data, 0)
		}
		offs = append(offs, len(data))
	}
	if format == 0 && len(data) > 0x1FFFE {
		format = 1
	}
	if rapid.IntRange(0, 9).Draw(t, "trailing") == 0 {
		data = append(data, 7, 7, 7, 7)
	}
	var loca []byte
	for _, o := range offs {
		if format == 0 {
			loca = append(loca, ref.P16(o/2)...)
		} else {
			loca = append(loca, ref.P32(uint32(o))...)
		}
	}
	return &glyf.Encoded{GlyfData: data, LocaData: loca, LocaFormat: format}
}

// value is the library's representation of a generated glyph.
func equalGlyph(a, b *glyf.Glyph) error {
	if (a == nil) != (b == nil) {
		return fmt.Errorf("empty glyph: %v vs %v", a == nil, b == nil)
	}
	if a == nil {
		return nil
	}
	if a.Rect16 != b.Rect16 {
		return fmt.Errorf("bounding box %v vs %v", a.Rect16, b.Rect16)
	}
	switch x := a.Data.(type) {
	case glyf.SimpleGlyph:
		y, ok := b.Data.(glyf.SimpleGlyph)
		if !ok || x.NumContours != y.NumContours || !bytes.Equal(x.Encoded, y.Encoded) {
			return fmt.Errorf("simple glyph data differ: %v vs %v", a.Data, b.Data)
		}
	case glyf.CompositeGlyph:
		y, ok := b.Data.(glyf.CompositeGlyph)
		if !ok || len(x.Components) != len(y.Components) || !bytes.Equal(x.Instructions, y.Instructions) ||
			(x.Instructions == nil) != (y.Instructions == nil) {
			return fmt.Errorf("composite glyph data differ: %v vs %v", a.Data, b.Data)
		}
		for i, p := range x.Components {
			q := y.Components[i]
			if p.Flags != q.Flags || p.GlyphIndex != q.GlyphIndex || !bytes.Equal(p.Data, q.Data) {
				return fmt.Errorf("component %d differs: %v vs %v", i, p, q)
			}
		}
	default:
		return fmt.Errorf("unexpected type %T", a.Data)
	}
	return nil
}

func checkDecoded(r gen.RawGlyph, g *glyf.Glyph) error {
	if err := equalGlyph(r.Value(), g); err != nil {
		return err
	}
	if g == nil {
		return nil
	}
	switch x := g.Data.(type) {
	case glyf.SimpleGlyph:
		info, err := x.Decode()
		if err != nil {
			return fmt.Errorf("Decode: %v", err)
		}
		if len(info.Contours) != len(r.G.Contours) {
			return fmt.Errorf("%d contours, want %d", len(info.Contours), len(r.G.Contours))
		}
		if !bytes.Equal(info.Instructions, r.G.Instructions) {
			return fmt.Errorf("instructions differ")
		}
		for i, c := range r.G.Contours {
			if len(info.Contours[i]) != len(c) {
				return fmt.Errorf("contour %d has %d points, want %d", i, len(info.Contours[i]), len(c))
			}
			for j, p := range c {
				q := info.Contours[i][j]
				if int(q.X) != p.X || int(q.Y) != p.Y || q.OnCurve != p.On {
					return fmt.Errorf("contour %d point %d is %v, want %v", i, j, q, p)
				}
			}
		}
	}
	return nil
}

// checkEncoded validates encoder output with the reference decoder.
func checkEncoded(gg []gen.RawGlyph, enc *glyf.Encoded) error {
	offs, err := ref.ParseLoca(enc.LocaData, int(enc.LocaFormat), len(gg), len(enc.GlyfData))
	if err != nil {
		return err
	}
	if offs[len(gg)] != len(enc.GlyfData) {
		return fmt.Errorf("last loca offset %d, glyf has %d bytes", offs[len(gg)], len(enc.GlyfData))
	}
	for i, r := range gg {
		if offs[i]%2 != 0 {
			return fmt.Errorf("odd loca offset")
		}
		d := enc.GlyfData[offs[i]:offs[i+1]]
		if r.Bytes == nil {
			if len(d) != 0 {
				return fmt.Errorf("glyph %d: empty glyph has %d bytes", i, len(d))
			}
			continue
		}
		if len(d) < len(r.Bytes) || len(d) > len(r.Bytes)+3 || !bytes.Equal(d[:len(r.Bytes)], r.Bytes) {
			return fmt.Errorf("glyph %d: bytes not preserved:\n% x\n% x", i, r.Bytes, d)
		}
		for _, b := range d[len(r.Bytes):] {
			if b != 0 {
				return fmt.Errorf("glyph %d: non-zero padding", i)
			}
		}
	}
	return nil
}

func TestGlyphs(t *testing.T) {
	pbt.Check(t, 200000, 5000000, func(t *rapid.T, c *pbt.Case) {
		gg := gen.DrawGlyphs(t)
		enc := build(t, gg)
		dec, err := glyf.Decode(enc)
		if err != nil {
			t.Fatalf("Decode rejects well-formed glyphs: %v", err)
		}
		if len(dec) != len(gg) {
			t.Fatalf("%d glyphs, want %d", len(dec), len(gg))
		}
		var key []byte
		nt := 0
		for i, r := range gg {
			// check the harness first
			p, err := ref.ParseGlyph(r.Bytes)
			if err != nil || r.Bytes != nil && (p.Used != len(r.Bytes) || !reflect.DeepEqual(p.Contours, r.G.Contours)) {
				t.Fatalf("HARNESS-ERROR: glyph %d (%s): %v", i, r.Kind, err)
			}
			if err := checkDecoded(r, dec[i]); err != nil {
				t.Fatalf("glyph %d (%s): %v\n% x", i, r.Kind, err, r.Bytes)
			}
			c.Class(r.Kind)
			for k := range r.NFlags {
				c.Class(k)
			}
			if r.Bytes != nil && (len(r.G.Contours) > 0 || len(r.G.Comps) > 1) {
				nt++
			}
			key = append(key, r.Bytes...)
		}
		enc2 := dec.Encode()
		if err := checkEncoded(gg, enc2); err != nil {
			t.Fatalf("encoded tables: %v", err)
		}
		dec2, err := glyf.Decode(enc2)
		if err != nil {
			t.Fatalf("re-decode: %v", err)
		}
		if len(dec2) != len(dec) {
			t.Fatalf("%d glyphs, want %d", len(dec2), len(dec))
		}
		for i := range dec {
			if err := equalGlyph(dec[i], dec2[i]); err != nil {
				t.Fatalf("glyph %d: round trip: %v", i, err)
			}
		}
		if enc3 := dec2.Encode(); !reflect.DeepEqual(enc2, enc3) {
			t.Fatalf("Encode is not a function of the glyphs")
		}
		// values built in memory
		var vals glyf.Glyphs
		for _, r := range gg {
			vals = append(vals, r.Value())
		}
		if enc4 := vals.Encode(); !reflect.DeepEqual(enc2, enc4) {
			t.Fatalf("Encode differs for values built in memory")
		}
		c.ClassIf(enc.LocaFormat == 1, "long loca input")
		if nt > 0 {
			c.NonTrivial(key)
		}
		c.Sample(func() string {
			s := ""
			for _, r := range gg {
				s += fmt.Sprintf("%s(%d bytes) ", r.Kind, len(r.Bytes))
			}
			return s
		})
	})
}

// TestComponents checks Components and FixComponents.
func TestComponents(t *testing.T) {
	pbt.Check(t, 60000, 1500000, func(t *rapid.T, c *pbt.Case) {
		var r gen.RawGlyph
		switch rapid.IntRange(0, 8).Draw(t, "kind") {
		case 0:
			r = gen.RawGlyph{Kind: "empty"}
		case 1:
			r = gen.DrawSimple(t, 8)
		default:
			r = gen.DrawComposite(t, 10)
		}
		g := r.Value()
		comps := g.Components()
		newGid := map[glyph.ID]glyph.ID{}
		if r.Bytes == nil || r.G.NumContours >= 0 {
			if len(comps) != 0 {
				t.Fatalf("components %v reported for a %s glyph", comps, r.Kind)
			}
		} else {
			if len(comps) != len(r.G.Comps) {
				t.Fatalf("%d components, want %d", len(comps), len(r.G.Comps))
			}
			for i, x := range r.G.Comps {
				if int(comps[i]) != x.GID {
					t.Fatalf("component %d is %d, want %d", i, comps[i], x.GID)
				}
				newGid[comps[i]] = glyph.ID(rapid.Uint16().Draw(t, "newGid"))
			}
		}
		g2 := g.FixComponents(newGid)
		if err := equalGlyph(r.Value(), g); err != nil {
			t.Fatalf("FixComponents modified the original: %v", err)
		}
		r2 := r
		if r.G != nil {
			gcopy := *r.G
			gcopy.Comps = append([]ref.GComp{}, r.G.Comps...)
			for i := range gcopy.Comps {
				gcopy.Comps[i].GID = int(newGid[glyph.ID(gcopy.Comps[i].GID)])
			}
			r2.G = &gcopy
		}
		if err := equalGlyph(r2.Value(), g2); err != nil {
			t.Fatalf("FixComponents: %v", err)
		}
		if len(comps) > 1 {
			c.NonTrivial(r.Bytes)
		}
		c.Class(r.Kind)
	})
}

// TestLoca checks table sizes around the limit of the short format.
func TestLoca(t *testing.T) {
	pbt.Check(t, 3000, 60000, func(t *rapid.T, c *pbt.Case) {
		target := rapid.OneOf(rapid.IntRange(65500, 65570), rapid.IntRange(131040, 131100), rapid.IntRange(0, 300000)).Draw(t, "target")
		step := rapid.IntRange(200, 30000).Draw(t, "step")
		var gg []gen.RawGlyph
		var vals glyf.Glyphs
		total := 0
		seed := rapid.Uint32().Draw(t, "seed")
		add := func(n int) { // n bytes, n >= 12
			if n > 12+65535 {
				n = 12 + 65535
			}
			b := []byte{0, 0, 0, 1, 0, 2, 0, 3, 0, 4}
			b = append(b, ref.P16(n-12)...)
			for len(b) < n {
				b = append(b, byte(gen.Mix(seed, uint32(len(b)))))
			}
			r := gen.RawGlyph{Kind: "zero contours", Bytes: b, G: &ref.GGlyph{BBox: [4]int{1, 2, 3, 4}, Instructions: b[12:]}}
			gg = append(gg, r)
			vals = append(vals, r.Value())
			total += (n + 1) / 2 * 2
		}
		for total+step+12 < target {
			if gen.Mix(seed, uint32(total))%4 == 0 {
				gg = append(gg, gen.RawGlyph{Kind: "empty"})
				vals = append(vals, nil)
			}
			add(step - int(gen.Mix(seed, uint32(total))%100))
		}
		if rem := target - total; rem >= 12 {
			add(rem)
		}
		for i := rapid.IntRange(0, 3).Draw(t, "emptyTail"); i > 0 || len(gg) == 0; i-- {
			gg = append(gg, gen.RawGlyph{Kind: "empty"})
			vals = append(vals, nil)
		}
		enc := vals.Encode()
		if err := checkEncoded(gg, enc); err != nil {
			t.Fatalf("%v", err)
		}
		dec, err := glyf.Decode(enc)
		if err != nil {
			t.Fatalf("Decode: %v", err)
		}
		if len(dec) != len(vals) {
			t.Fatalf("%d glyphs, want %d", len(dec), len(vals))
		}
		for i := range dec {
			if err := equalGlyph(vals[i], dec[i]); err != nil {
				t.Fatalf("glyph %d: %v", i, err)
			}
		}
		c.Class(fmt.Sprintf("loca format %d", enc.LocaFormat))
		c.ClassIf(total > 65500 && total < 65600, "near 64 KiB")
		c.ClassIf(total > 131000 && total < 131200, "near 128 KiB")
		c.NonTrivial([]byte(fmt.Sprint(total, seed, step)))
	})
}

type seg struct {
	op   int
	args [3][2]int
}

// half is x/image's midpoint rounding.
func half(a, b int) int { return (a + b) / 2 }

// outline converts contours to path segments, using the conventions of
// x/image (first on-curve point first).
func outline(cc []glyf.Contour) []seg {
	var res []seg
	for _, c := range cc {
		n := len(c)
		if n == 0 {
			continue
		}
		first := -1
		for i, p := range c {
			if p.OnCurve {
				first = i
				break
			}
		}
		type p2 = [2]int
		pt := func(i int) p2 { p := c[i%n]; return p2{int(p.X), int(p.Y)} }
		mid := func(a, b p2) p2 { return p2{half(a[0], b[0]), half(a[1], b[1])} }
		// build a cyclic list starting on-curve
		var start p2
		var idx int
		if first >= 0 && first <= 1 {
			start = pt(first)
			idx = first + 1
		} else if n == 1 {
			return nil // a single off-curve point: not meaningful
		} else {
			start = mid(pt(0), pt(1))
			idx = 1
			first = -1
		}
		res = append(res, seg{0, [3][2]int{start}})
		var off *p2
		count := n
		if first >= 0 {
			count = n - 1
		}
		for k := 0; k < count; k++ {
			i := (idx + k) % n
			p := pt(i)
			if c[i].OnCurve {
				if off != nil {
					res = append(res, seg{2, [3][2]int{*off, p}})
					off = nil
				} else {
					res = append(res, seg{1, [3][2]int{p}})
				}
			} else {
				if off != nil {
					res = append(res, seg{2, [3][2]int{*off, mid(*off, p)}})
				}
				q := p
				off = &q
			}
		}
		if off != nil {
			res = append(res, seg{2, [3][2]int{*off, start}})
		} else {
			res = append(res, seg{1, [3][2]int{start}})
		}
	}
	return res
}

var _ = font.HintingNone

// TestXImage compares decoded outlines with x/image.
func TestXImage(t *testing.T) {
	pbt.Check(t, 100000, 2500000, func(t *rapid.T, c *pbt.Case) {
		n := rapid.IntRange(1, 5).Draw(t, "n")
		var vals glyf.Glyphs
		var gg []gen.RawGlyph
		for i := 0; i < n; i++ {
			r := gen.DrawSimple(t, 10)
			gg = append(gg, r)
			vals = append(vals, r.Value())
		}
		enc := vals.Encode()
		tabs := ref.MinimalTables(n)
		tabs["glyf"] = enc.GlyfData
		tabs["loca"] = enc.LocaData
		copy(tabs["head"][50:], ref.P16(int(enc.LocaFormat)))
		f, err := xsfnt.Parse(ref.BuildContainer(0x00010000, tabs))
		if err != nil {
			t.Fatalf("x/image rejects the font: %v", err)
		}
		var key []byte
		for i, g := range vals {
			segs, err := f.LoadGlyph(nil, xsfnt.GlyphIndex(i), fixed.Int26_6(1000), nil)
			if err != nil {
				t.Fatalf("x/image rejects glyph %d: %v\n% x", i, err, gg[i].Bytes)
			}
			x := g.Data.(glyf.SimpleGlyph)
			info, err := x.Decode()
			if err != nil {
				t.Fatalf("glyph %d: %v", i, err)
			}
			want := outline(info.Contours)
			bad := false
			for _, cc := range info.Contours {
				bad = bad || len(cc) == 1 && !cc[0].OnCurve
			}
			if bad {
				continue
			}
			if len(segs) != len(want) {
				t.Fatalf("glyph %d: %d segments, x/image finds %d\n%v\n%v\n%v", i, len(want), len(segs), info.Contours, want, segs)
			}
			for j, s := range segs {
				w := want[j]
				ok := int(s.Op) == w.op
				na := []int{1, 1, 2}[w.op]
				for k := 0; k < na; k++ {
					ok = ok && int(s.Args[k].X) == w.args[k][0] && int(s.Args[k].Y) == -w.args[k][1]
				}
				if !ok {
					t.Fatalf("glyph %d segment %d: %v, x/image finds %v\n%v", i, j, w, s, info.Contours)
				}
			}
			if len(want) > 3 {
				key = append(key, gg[i].Bytes...)
			}
		}
		if len(key) > 0 {
			c.NonTrivial(key)
		}
	})
}
