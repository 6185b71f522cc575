package gen

import (
	"bytes"
	"fmt"
	"math"

	"seehuhn.de/go/sfnt"
	"seehuhn.de/go/sfnt/cff"
	"seehuhn.de/go/sfnt/glyf"
)

// FontDiff compares two fonts.  If exact is not set, numbers in CFF data are
// compared to the precision of the file format, and the widths of CFF glyphs
// are compared to the nearest integer.
func FontDiff(a, b *sfnt.Font, exact bool) error {
	type field struct {
		name string
		a, b any
	}
	for _, x := range []field{
		{"FamilyName", a.FamilyName, b.FamilyName}, {"Width", a.Width, b.Width}, {"Weight", a.Weight, b.Weight},
		{"IsRegular", a.IsRegular, b.IsRegular}, {"IsBold", a.IsBold, b.IsBold}, {"IsItalic", a.IsItalic, b.IsItalic},
		{"IsOblique", a.IsOblique, b.IsOblique}, {"IsSerif", a.IsSerif, b.IsSerif}, {"IsScript", a.IsScript, b.IsScript},
		{"CodePageRange", a.CodePageRange, b.CodePageRange}, {"Version", a.Version, b.Version},
		{"Description", a.Description, b.Description}, {"SampleText", a.SampleText, b.SampleText},
		{"Copyright", a.Copyright, b.Copyright}, {"Trademark", a.Trademark, b.Trademark},
		{"License", a.License, b.License}, {"LicenseURL", a.LicenseURL, b.LicenseURL}, {"PermUse", a.PermUse, b.PermUse},
		{"UnitsPerEm", a.UnitsPerEm, b.UnitsPerEm}, {"Ascent", a.Ascent, b.Ascent}, {"Descent", a.Descent, b.Descent},
		{"LineGap", a.LineGap, b.LineGap}, {"CapHeight", a.CapHeight, b.CapHeight}, {"XHeight", a.XHeight, b.XHeight},
		{"ItalicAngle", a.ItalicAngle, b.ItalicAngle}, {"UnderlinePosition", a.UnderlinePosition, b.UnderlinePosition},
		{"UnderlineThickness", a.UnderlineThickness, b.UnderlineThickness},
	} {
		if x.a != x.b {
			return fmt.Errorf("%s is %.200q, want %.200q", x.name, fmt.Sprint(x.b), fmt.Sprint(x.a))
		}
	}
	if !a.CreationTime.Equal(b.CreationTime) || a.CreationTime.IsZero() != b.CreationTime.IsZero() {
		return fmt.Errorf("CreationTime is %s, want %s", b.CreationTime, a.CreationTime)
	}
	if !a.ModificationTime.Equal(b.ModificationTime) || a.ModificationTime.IsZero() != b.ModificationTime.IsZero() {
		return fmt.Errorf("ModificationTime is %s, want %s", b.ModificationTime, a.ModificationTime)
	}
	cc := CFFCmp{Exact: exact, Widths: !exact, NoInfo: true}
	for i := range a.FontMatrix {
		x, y := a.FontMatrix[i], b.FontMatrix[i]
		if math.IsInf(x, 0) && x == y {
			continue
		}
		if a.IsGlyf() && x != y || !cc.real(x, y) {
			return fmt.Errorf("FontMatrix is %v, want %v", b.FontMatrix, a.FontMatrix)
		}
	}
	if len(a.CMapTable) != len(b.CMapTable) {
		return fmt.Errorf("%d cmap subtables, want %d", len(b.CMapTable), len(a.CMapTable))
	}
	for key, data := range a.CMapTable {
		d2, ok := b.CMapTable[key]
		if !ok || !bytes.Equal(data, d2) {
			return fmt.Errorf("cmap subtable %v differs", key)
		}
	}
	for _, x := range []field{{"GDEF", a.Gdef, b.Gdef}, {"GSUB", a.Gsub, b.Gsub}, {"GPOS", a.Gpos, b.Gpos}} {
		if p, q := Dump(x.a), Dump(x.b); p != q {
			return fmt.Errorf("%s differs: %s", x.name, DiffText(p, q))
		}
	}
	return OutlineDiff(a.Outlines, b.Outlines, exact)
}

// DiffText shows the place where q differs from p.
func DiffText(p, q string) string {
	i := 0
	for i < len(p) && i < len(q) && p[i] == q[i] {
		i++
	}
	lo := max(0, i-100)
	return fmt.Sprintf("...%.300s, want ...%.300s", q[min(lo, len(q)):], p[min(lo, len(p)):])
}

// OutlineDiff compares two outlines.
func OutlineDiff(a, b sfnt.Outlines, exact bool) error {
	if fmt.Sprintf("%T", a) != fmt.Sprintf("%T", b) {
		return fmt.Errorf("outlines are %T, want %T", b, a)
	}
	if a.NumGlyphs() != b.NumGlyphs() {
		return fmt.Errorf("%d glyphs, want %d", b.NumGlyphs(), a.NumGlyphs())
	}
	switch x := a.(type) {
	case *cff.Outlines:
		y := b.(*cff.Outlines)
		cc := CFFCmp{Exact: exact, Widths: !exact, NoInfo: true}
		if err := cc.Font(&cff.Font{Outlines: x}, &cff.Font{Outlines: y}); err != nil {
			return err
		}
		for i, g := range x.Glyphs {
			if math.Abs(g.Width-y.Glyphs[i].Width) > 0.5 {
				return fmt.Errorf("glyph %d has width %g, want %g", i, y.Glyphs[i].Width, g.Width)
			}
		}
	case *glyf.Outlines:
		y := b.(*glyf.Outlines)
		for i := range x.Glyphs {
			g, h := x.Glyphs[i], y.Glyphs[i]
			if (g == nil) != (h == nil) {
				return fmt.Errorf("glyph %d: empty %v, want %v", i, h == nil, g == nil)
			}
			if g == nil || g == h {
				continue
			}
			s1, ok1 := g.Data.(glyf.SimpleGlyph)
			s2, ok2 := h.Data.(glyf.SimpleGlyph)
			if ok1 && ok2 {
				if g.Rect16 != h.Rect16 || s1.NumContours != s2.NumContours || !bytes.Equal(s1.Encoded, s2.Encoded) {
					return fmt.Errorf("glyph %d differs: %.300s", i, DiffText(Dump(g), Dump(h)))
				}
				continue
			}
			if p, q := Dump(g), Dump(h); p != q {
				return fmt.Errorf("glyph %d differs: %s", i, DiffText(p, q))
			}
		}
		for _, z := range []struct {
			name string
			a, b any
		}{{"widths", x.Widths, y.Widths}, {"glyph names", x.Names, y.Names}, {"maxp data", x.Maxp, y.Maxp}} {
			if p, q := Dump(z.a), Dump(z.b); p != q {
				return fmt.Errorf("%s differ: %s", z.name, DiffText(p, q))
			}
		}
		if (x.Widths == nil) != (y.Widths == nil) || (x.Names == nil) != (y.Names == nil) {
			return fmt.Errorf("nil widths: %v, want %v, nil names: %v, want %v", y.Widths == nil, x.Widths == nil, y.Names == nil, x.Names == nil)
		}
		for name, data := range x.Tables {
			d, ok := y.Tables[name]
			if !ok {
				return fmt.Errorf("table %q is missing", name)
			}
			if !bytes.Equal(data, d) {
				return fmt.Errorf("table %q differs", name)
			}
		}
		if len(x.Tables) != len(y.Tables) {
			return fmt.Errorf("%d extra tables, want %d", len(y.Tables), len(x.Tables))
		}
	}
	return nil
}
