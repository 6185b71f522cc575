package gen

import (
	"bytes"
	"fmt"
	"math"
	"time"

	"seehuhn.de/go/postscript/funit"

	"seehuhn.de/go/sfnt"
	"seehuhn.de/go/sfnt/cff"
	"seehuhn.de/go/sfnt/glyf"
	"seehuhn.de/go/sfnt/glyph"
	"seehuhn.de/go/sfnt/opentype/gdef"
	"seehuhn.de/go/sfnt/opentype/gtab"
)

// Fataler is implemented by *rapid.T and *testing.T.
type Fataler interface{ Fatalf(string, ...any) }

func second(x time.Time) time.Time {
	if x.IsZero() {
		return x
	}
	return time.Unix(x.Unix(), 0)
}

func roundI16(x funit.Float64) funit.Float64 { return funit.Float64(math.Round(float64(x))) }

// top returns the top of the glyph which shows the given character.
func top(f *sfnt.Font, r rune) funit.Int16 {
	best, _ := f.CMapTable.GetBest()
	if best == nil {
		return 0
	}
	gid := best.Lookup(r)
	if gid == 0 || int(gid) >= f.NumGlyphs() {
		return 0
	}
	switch o := f.Outlines.(type) {
	case *glyf.Outlines:
		if g := o.Glyphs[gid]; g != nil {
			return g.URy
		}
	case *cff.Outlines:
		return o.Glyphs[gid].Extent().URy
	}
	return 0
}

// Normal returns the font one expects to read back.
func Normal(t Fataler, f, got *sfnt.Font) *sfnt.Font {
	f = f.Clone()
	f.CreationTime = second(f.CreationTime)
	f.ModificationTime = second(f.ModificationTime)
	f.ItalicAngle = math.Round(f.ItalicAngle*65536) / 65536
	f.UnderlinePosition = roundI16(f.UnderlinePosition)
	f.UnderlineThickness = roundI16(f.UnderlineThickness)
	f.IsItalic = f.IsItalic || f.ItalicAngle != 0
	if f.Weight.Rounded() == 700 {
		f.IsBold = true
	}
	if f.IsBold || f.IsItalic {
		f.IsRegular = false
	}
	if f.NumGlyphs() != got.NumGlyphs() {
		t.Fatalf("%d glyphs, want %d", got.NumGlyphs(), f.NumGlyphs())
	}
	if f.CapHeight == 0 {
		// computed from the rounded outlines
		f.CapHeight = top(got, 'H')
	}
	if f.XHeight == 0 {
		f.XHeight = top(got, 'x')
	}
	// Some of the lookup types have several representations for the same
	// data.  Check C08 compares these with an independent decoder.
	var err error
	if f.Gsub != nil {
		f.Gsub, err = gtab.Read(bytes.NewReader(f.Gsub.Encode()), gtab.TypeGsub)
		if err != nil {
			t.Fatalf("GSUB: %v", err)
		}
	}
	if f.Gpos != nil {
		f.Gpos, err = gtab.Read(bytes.NewReader(f.Gpos.Encode()), gtab.TypeGpos)
		if err != nil {
			t.Fatalf("GPOS: %v", err)
		}
	}
	if f.Gdef != nil {
		f.Gdef, err = gdef.Read(bytes.NewReader(f.Gdef.Encode()))
		if err != nil {
			t.Fatalf("GDEF: %v", err)
		}
	}
	if o, ok := f.Outlines.(*glyf.Outlines); ok {
		// empty tables are the same as missing tables
		o2 := *o
		o2.Tables = map[string][]byte{}
		for name, data := range o.Tables {
			if len(data) > 0 {
				o2.Tables[name] = data
			}
		}
		f.Outlines = &o2
	}
	return f
}

// DumpFont is used to detect modifications.
func DumpFont(f *sfnt.Font) string {
	g := f.Clone()
	s := ""
	if o, ok := f.Outlines.(*cff.Outlines); ok {
		o2 := *o
		o2.FDSelect = nil
		g.Outlines = &o2
		for i := 0; i < min(len(o.Glyphs), 300); i++ {
			s += fmt.Sprint(o.FDSelect(glyph.ID(i)))
		}
	}
	return Dump(g) + s
}

// Synthesised checks for the ligatures which are added to fonts without GSUB
// table.  Reading rounds the widths, so that the pitch of the font read counts.
func Synthesised(f, got *sfnt.Font) bool {
	return f.Gsub == nil && !got.IsFixedPitch() && len(f.CMapTable) > 0
}
