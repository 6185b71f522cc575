package gen

import (
	"fmt"
	"math"
	"seehuhn.de/go/geom/matrix"
	"seehuhn.de/go/postscript/funit"
	"seehuhn.de/go/postscript/type1"
	"seehuhn.de/go/sfnt/cff"
	"seehuhn.de/go/sfnt/glyph"
	"seehuhn.de/go/sfnt/verif/ref"
)

func near16(a, b float64) bool { return math.Abs(a-b) <= 1.0/65536+1e-9 }

// CFFCmp compares two fonts: exact, or to the precision of the file format
type CFFCmp struct {
	Exact  bool
	Widths bool // ignore widths
	NoInfo bool // ignore the font info
}

func (c CFFCmp) real(a, b float64) bool {
	if c.Exact {
		return a == b
	}
	return ref.Digits9(b, a)
}
func (c CFFCmp) coord(a, b float64) bool {
	if c.Exact {
		return a == b
	}
	return near16(a, b)
}
func (c CFFCmp) matrix(a, b matrix.Matrix) bool {
	for i := range a {
		if !c.real(a[i], b[i]) {
			return false
		}
	}
	return true
}

func i16Equal(a, b []funit.Int16) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (c CFFCmp) private(a, b *type1.PrivateDict) error {
	switch {
	case !i16Equal(a.BlueValues, b.BlueValues):
		return fmt.Errorf("BlueValues %v, want %v", b.BlueValues, a.BlueValues)
	case !i16Equal(a.OtherBlues, b.OtherBlues):
		return fmt.Errorf("OtherBlues %v, want %v", b.OtherBlues, a.OtherBlues)
	case !c.real(a.BlueScale, b.BlueScale):
		return fmt.Errorf("BlueScale %.12g, want %.12g", b.BlueScale, a.BlueScale)
	case a.BlueShift != b.BlueShift || a.BlueFuzz != b.BlueFuzz:
		return fmt.Errorf("BlueShift/Fuzz %d %d, want %d %d", b.BlueShift, b.BlueFuzz, a.BlueShift, a.BlueFuzz)
	case !c.real(a.StdHW, b.StdHW) || !c.real(a.StdVW, b.StdVW):
		return fmt.Errorf("StdHW/StdVW %.12g %.12g, want %.12g %.12g", b.StdHW, b.StdVW, a.StdHW, a.StdVW)
	case a.ForceBold != b.ForceBold:
		return fmt.Errorf("ForceBold %v", b.ForceBold)
	}
	return nil
}

func (c CFFCmp) info(a, b *type1.FontInfo) error {
	type sp struct{ name, a, b string }
	for _, s := range []sp{{"FontName", a.FontName, b.FontName}, {"Version", a.Version, b.Version}, {"Notice", a.Notice, b.Notice},
		{"Copyright", a.Copyright, b.Copyright}, {"FullName", a.FullName, b.FullName}, {"FamilyName", a.FamilyName, b.FamilyName},
		{"Weight", a.Weight, b.Weight}} {
		if s.a != s.b {
			return fmt.Errorf("%s %q, want %q", s.name, s.b, s.a)
		}
	}
	switch {
	case !c.real(a.ItalicAngle, b.ItalicAngle):
		return fmt.Errorf("ItalicAngle %.12g, want %.12g", b.ItalicAngle, a.ItalicAngle)
	case a.IsFixedPitch != b.IsFixedPitch:
		return fmt.Errorf("IsFixedPitch %v", b.IsFixedPitch)
	case !c.real(float64(a.UnderlinePosition), float64(b.UnderlinePosition)):
		return fmt.Errorf("UnderlinePosition %.12g, want %.12g", b.UnderlinePosition, a.UnderlinePosition)
	case !c.real(float64(a.UnderlineThickness), float64(b.UnderlineThickness)):
		return fmt.Errorf("UnderlineThickness %.12g, want %.12g", b.UnderlineThickness, a.UnderlineThickness)
	case !c.matrix(a.FontMatrix, b.FontMatrix):
		return fmt.Errorf("FontMatrix %.12g, want %.12g", b.FontMatrix, a.FontMatrix)
	}
	return nil
}

func StdEncoding(names []string, k int) []glyph.ID {
	enc := make([]glyph.ID, 256)
	for code, sid := range ref.CFFPredefEncodings[k] {
		if sid == 0 {
			continue
		}
		for gid, s := range names {
			if gid > 0 && s == ref.CFFStdStrings[sid] {
				enc[code] = glyph.ID(gid)
			}
		}
	}
	return enc
}

func namesOf(f *cff.Font) []string {
	res := make([]string, len(f.Glyphs))
	for i, g := range f.Glyphs {
		res[i] = g.Name
	}
	return res
}

func encodingOf(f *cff.Font) []glyph.ID {
	if f.Encoding == nil {
		return StdEncoding(namesOf(f), 0)
	}
	return f.Encoding
}

// Font compares two fonts.
func (c CFFCmp) Font(a, b *cff.Font) error {
	if !c.NoInfo {
		if err := c.info(a.FontInfo, b.FontInfo); err != nil {
			return err
		}
	}
	if len(a.Glyphs) != len(b.Glyphs) {
		return fmt.Errorf("%d glyphs, want %d", len(b.Glyphs), len(a.Glyphs))
	}
	if (a.ROS == nil) != (b.ROS == nil) || a.ROS != nil && *a.ROS != *b.ROS {
		return fmt.Errorf("ROS %v, want %v", b.ROS, a.ROS)
	}
	if len(a.Private) != len(b.Private) {
		return fmt.Errorf("%d private dicts, want %d", len(b.Private), len(a.Private))
	}
	for i := range a.Private {
		if err := c.private(a.Private[i], b.Private[i]); err != nil {
			return fmt.Errorf("private dict %d: %w", i, err)
		}
	}
	if a.ROS != nil {
		if len(a.FontMatrices) != len(b.FontMatrices) {
			return fmt.Errorf("%d font matrices, want %d", len(b.FontMatrices), len(a.FontMatrices))
		}
		for i := range a.FontMatrices {
			if !c.matrix(a.FontMatrices[i], b.FontMatrices[i]) {
				return fmt.Errorf("FontMatrices[%d] = %.12g, want %.12g", i, b.FontMatrices[i], a.FontMatrices[i])
			}
		}
		if len(b.GIDToCID) != len(a.GIDToCID) {
			return fmt.Errorf("%d CIDs, want %d", len(b.GIDToCID), len(a.GIDToCID))
		}
	} else {
		ea, eb := encodingOf(a), encodingOf(b)
		if len(ea) != len(eb) {
			return fmt.Errorf("encoding of length %d", len(eb))
		}
		for i := range ea {
			if ea[i] != eb[i] {
				return fmt.Errorf("code %d encodes glyph %d, want %d", i, eb[i], ea[i])
			}
		}
	}
	for i := range a.Glyphs {
		ga, gb := a.Glyphs[i], b.Glyphs[i]
		if x, y := a.FDSelect(glyph.ID(i)), b.FDSelect(glyph.ID(i)); x != y {
			return fmt.Errorf("glyph %d uses FD %d, want %d", i, y, x)
		}
		if a.ROS != nil {
			if a.GIDToCID[i] != b.GIDToCID[i] {
				return fmt.Errorf("glyph %d has CID %d, want %d", i, b.GIDToCID[i], a.GIDToCID[i])
			}
		} else if ga.Name != gb.Name {
			return fmt.Errorf("glyph %d is called %q, want %q", i, gb.Name, ga.Name)
		}
		if !c.Widths && !c.coord(ga.Width, gb.Width) {
			return fmt.Errorf("glyph %d has width %.8f, want %.8f", i, gb.Width, ga.Width)
		}
		if len(ga.Cmds) != len(gb.Cmds) || len(ga.HStem) != len(gb.HStem) || len(ga.VStem) != len(gb.VStem) {
			return fmt.Errorf("glyph %d: different outline", i)
		}
		for k := range ga.Cmds {
			if ga.Cmds[k].Op != gb.Cmds[k].Op || len(ga.Cmds[k].Args) != len(gb.Cmds[k].Args) {
				return fmt.Errorf("glyph %d: different command %d", i, k)
			}
			for j := range ga.Cmds[k].Args {
				if !c.coord(ga.Cmds[k].Args[j], gb.Cmds[k].Args[j]) {
					return fmt.Errorf("glyph %d: command %d: %v, want %v", i, k, gb.Cmds[k], ga.Cmds[k])
				}
			}
		}
		for k := range ga.HStem {
			if !c.coord(ga.HStem[k], gb.HStem[k]) {
				return fmt.Errorf("glyph %d: HStem", i)
			}
		}
		for k := range ga.VStem {
			if !c.coord(ga.VStem[k], gb.VStem[k]) {
				return fmt.Errorf("glyph %d: VStem", i)
			}
		}
	}
	return nil
}
