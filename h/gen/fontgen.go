package gen

import (
	"fmt"
	"math"
	"math/rand/v2"
	"time"

	"pgregory.net/rapid"

	"seehuhn.de/go/geom/matrix"
	"seehuhn.de/go/postscript/funit"

	"seehuhn.de/go/sfnt"
	"seehuhn.de/go/sfnt/cff"
	"seehuhn.de/go/sfnt/cmap"
	"seehuhn.de/go/sfnt/glyf"
	"seehuhn.de/go/sfnt/glyph"
	"seehuhn.de/go/sfnt/head"
	"seehuhn.de/go/sfnt/maxp"
	"seehuhn.de/go/sfnt/opentype/gtab"
	"seehuhn.de/go/sfnt/os2"

	"seehuhn.de/go/sfnt/verif/ref"
)

// Font kinds.
const (
	AnyKind = iota
	Glyf
	SimpleCFF
	CIDCFF
)

// FontOpts controls the generator for complete fonts.
type FontOpts struct {
	Kind      int
	MaxGlyphs int
	NumGlyphs int  // if non-zero
	Plain     bool // outlines and metrics which other software can process
	NoLayout  bool // no GDEF, GSUB, GPOS
	NoTime    bool // allow for fonts without time stamps
	InRange   bool // all glyph IDs in the cmap are valid
	NoRare    bool // no huge fonts
}

// Time draws a time which can be stored in a font, or the zero time.
func Time(t *rapid.T, label string) time.Time {
	const epoch = -2082844800
	s := rapid.OneOf(
		rapid.Int64Range(epoch+1, epoch+10),
		rapid.Int64Range(-2, 2),
		rapid.Int64Range(1<<31-2, 1<<31+2),
		rapid.Int64Range(epoch+1<<32-2, epoch+1<<32+2),
		rapid.Int64Range(1e9, 2e9),
		rapid.Int64Range(epoch-1<<36, 1<<36),
	).Draw(t, label)
	if s == epoch || rapid.IntRange(0, 5).Draw(t, label+"Zero") == 0 {
		return time.Time{}
	}
	tm := time.Unix(s, rapid.SampledFrom([]int64{0, 1, 999999999}).Draw(t, label+"ns"))
	if rapid.Bool().Draw(t, label+"zone") {
		tm = tm.In(time.FixedZone("X", rapid.IntRange(-50000, 50000).Draw(t, label+"offs")))
	} else {
		tm = tm.UTC()
	}
	return tm
}

func text(t *rapid.T, label string) string {
	if rapid.IntRange(0, 60).Draw(t, label+"Long") == 0 {
		n := rapid.SampledFrom([]int{255, 256, 1000, 3000}).Draw(t, label+"Len")
		s := make([]byte, n)
		for i := range s {
			s[i] = byte('a' + i%26)
		}
		return string(s)
	}
	return Text(t, label, false)
}

func drawI16(t *rapid.T, label string) funit.Int16 {
	return funit.Int16(i16().Draw(t, label))
}

// PlainGlyf draws TrueType outlines with correct bounding boxes, where
// composite glyphs only refer to earlier glyphs.
func PlainGlyf(t *rapid.T, n int) glyf.Glyphs {
	res := make(glyf.Glyphs, n)
	depth := make([]int, n)
	pts := make([]int, n)
	for i := range res {
		if i >= 12 {
			switch Mix(uint32(i), 77) % 4 {
			case 0:
			default:
				res[i] = res[Mix(uint32(i), 78)%12]
			}
			continue
		}
		kind := rapid.IntRange(0, 5).Draw(t, "glyphKind")
		if i > 0 && kind < 2 {
			g := &ref.GGlyph{NumContours: -1}
			nc := rapid.IntRange(1, 3).Draw(t, "components")
			total := 0
			var bb [4]int
			first := true
			for k := 0; k < nc; k++ {
				c := ref.GComp{Flags: 2}
				c.GID = rapid.IntRange(0, i-1).Draw(t, "component")
				if depth[c.GID] >= 4 || total+pts[c.GID] > 500 {
					c.GID = 0
				}
				dx, dy := rapid.IntRange(-300, 300).Draw(t, "dx"), rapid.IntRange(-100, 100).Draw(t, "dy")
				if dx < 128 && dx >= -128 && dy < 128 && rapid.Bool().Draw(t, "short") {
					c.Args = append(c.Args, byte(dx), byte(dy))
				} else {
					c.Flags |= 1
					c.Args = append(append(c.Args, ref.P16(dx)...), ref.P16(dy)...)
				}
				// 2.14 numbers
				m := [4]float64{1, 0, 0, 1}
				f2 := func(label string) float64 {
					v := rapid.SampledFrom([]int{0x2000, 0x2000, 0x4000, -0x4000, 0x1234, 0x6000, 0}).Draw(t, label)
					c.Args = append(c.Args, ref.P16(v)...)
					return float64(v) / 16384
				}
				switch rapid.IntRange(0, 11).Draw(t, "scaled") {
				case 0:
					c.Flags |= 8
					m[0] = f2("scale")
					m[3] = m[0]
				case 1:
					c.Flags |= 0x40
					m[0] = f2("xScale")
					m[3] = f2("yScale")
				case 2:
					c.Flags |= 0x80
					for k := range m {
						m[k] = f2("matrix")
					}
				}
				if rapid.Bool().Draw(t, "roundXY") {
					c.Flags |= 4
				}
				if k == 0 && rapid.Bool().Draw(t, "useMyMetrics") {
					c.Flags |= 0x200
				}
				if k+1 < nc {
					c.Flags |= 0x20
				}
				g.Comps = append(g.Comps, c)
				total += pts[c.GID]
				depth[i] = max(depth[i], depth[c.GID]+1)
				if s := res[c.GID]; s != nil {
					b := [4]int{1 << 30, 1 << 30, -1 << 30, -1 << 30}
					for _, p := range [][2]funit.Int16{{s.LLx, s.LLy}, {s.URx, s.LLy}, {s.LLx, s.URy}, {s.URx, s.URy}} {
						x := m[0]*float64(p[0]) + m[2]*float64(p[1]) + float64(dx)
						y := m[1]*float64(p[0]) + m[3]*float64(p[1]) + float64(dy)
						b = [4]int{min(b[0], int(math.Floor(x))), min(b[1], int(math.Floor(y))), max(b[2], int(math.Ceil(x))), max(b[3], int(math.Ceil(y)))}
					}
					if first {
						bb = b
						first = false
					} else {
						bb = [4]int{min(bb[0], b[0]), min(bb[1], b[1]), max(bb[2], b[2]), max(bb[3], b[3])}
					}
				}
			}
			pts[i] = total
			g.BBox = bb
			r := RawGlyph{Kind: "composite", G: g, Bytes: []byte{0}}
			res[i] = r.Value()
			continue
		}
		if kind == 2 {
			continue
		}
		g := &ref.GGlyph{NumContours: rapid.IntRange(1, 3).Draw(t, "contours")}
		var enc []byte
		for k := 0; k < g.NumContours; k++ {
			var c []ref.GPoint
			m := rapid.IntRange(2, 6).Draw(t, "points")
			for j := 0; j < m; j++ {
				c = append(c, ref.GPoint{X: rapid.IntRange(-200, 1200).Draw(t, "x"), Y: rapid.IntRange(-300, 900).Draw(t, "y"),
					On: rapid.IntRange(0, 2).Draw(t, "on") > 0})
			}
			g.Contours = append(g.Contours, c)
			pts[i] += m
			enc = append(enc, ref.P16(pts[i]-1)...)
		}
		ins := DrawBytes(t, "instructions", 10)
		enc = append(enc, ref.P16(len(ins))...)
		enc = append(enc, ins...)
		var fl, xs, ys []byte
		x, y := 0, 0
		for k, c := range g.Contours {
			for j, p := range c {
				f := byte(0)
				if p.On {
					f = 1
				}
				put := func(d int, short, same byte, out []byte) []byte {
					switch {
					case d == 0:
						f |= same
					case d > -256 && d < 256:
						f |= short
						if d > 0 {
							f |= same
						} else {
							d = -d
						}
						out = append(out, byte(d))
					default:
						out = append(out, ref.P16(d)...)
					}
					return out
				}
				xs = put(p.X-x, 2, 16, xs)
				ys = put(p.Y-y, 4, 32, ys)
				fl = append(fl, f)
				x, y = p.X, p.Y
				if k == 0 && j == 0 {
					g.BBox = [4]int{x, y, x, y}
				}
				g.BBox = [4]int{min(g.BBox[0], x), min(g.BBox[1], y), max(g.BBox[2], x), max(g.BBox[3], y)}
			}
		}
		enc = append(enc, fl...)
		enc = append(enc, xs...)
		enc = append(enc, ys...)
		r := RawGlyph{Kind: "simple", G: g, Bytes: append(make([]byte, 10), enc...)}
		res[i] = r.Value()
	}
	return res
}

// GlyfOutlines draws TrueType outlines.
func GlyfOutlines(t *rapid.T, n int, plain bool) *glyf.Outlines {
	o := &glyf.Outlines{Tables: map[string][]byte{}}
	if plain {
		o.Glyphs = PlainGlyf(t, n)
	} else {
		var vals []*glyf.Glyph
		for i := 0; i < min(n, 12); i++ {
			switch rapid.IntRange(0, 6).Draw(t, "kind") {
			case 0:
				vals = append(vals, nil)
			case 1, 2:
				vals = append(vals, DrawComposite(t, n).Value())
			default:
				vals = append(vals, DrawSimple(t, 12).Value())
			}
		}
		if rapid.IntRange(0, 15).Draw(t, "allEmpty") == 0 {
			vals = []*glyf.Glyph{nil}
		}
		for i := 0; i < n; i++ {
			if i < len(vals) {
				o.Glyphs = append(o.Glyphs, vals[i])
			} else {
				o.Glyphs = append(o.Glyphs, vals[Mix(uint32(i), 5)%uint32(len(vals))])
			}
		}
	}
	for _, w := range Widths(t, n) {
		o.Widths = append(o.Widths, funit.Int16(math.Round(math.Abs(w))))
	}
	// glyph name indices are 16 bit numbers
	if rapid.Bool().Draw(t, "hasNames") && n <= 65000 {
		o.Names = GlyphNames(t, n)
		if n <= 300 && rapid.IntRange(0, 4).Draw(t, "macNames") == 0 {
			for i := range o.Names {
				if i < 258 {
					o.Names[i] = ref.MacGlyphNames[i]
				} else {
					o.Names[i] = fmt.Sprintf("g%d", i)
				}
			}
		}
	}
	for _, name := range []string{"cvt ", "fpgm", "prep", "gasp"} {
		switch rapid.IntRange(0, 4).Draw(t, "tt"+name) {
		case 0:
			o.Tables[name] = []byte{}
		case 1, 2:
			o.Tables[name] = DrawBytes(t, name, 30)
		}
	}
	if plain || rapid.IntRange(0, 9).Draw(t, "hasMaxp") > 0 {
		u := func(l string) uint16 {
			return rapid.OneOf(rapid.Uint16(), rapid.Uint16Range(0, 3)).Draw(t, l)
		}
		o.Maxp = &maxp.TTFInfo{MaxPoints: u("m1"), MaxContours: u("m2"), MaxCompositePoints: u("m3"), MaxCompositeContours: u("m4"),
			MaxZones: u("m5"), MaxTwilightPoints: u("m6"), MaxStorage: u("m7"), MaxFunctionDefs: u("m8"), MaxInstructionDefs: u("m9"),
			MaxStackElements: u("m10"), MaxSizeOfInstructions: u("m11"), MaxComponentElements: u("m12"), MaxComponentDepth: u("m13")}
	}
	return o
}

var someRunes = []rune(" Hxfilﬀﬁﬂﬃﬄaé€Ωж漢字\u0301")

// CMap draws a cmap table for a font with n glyphs.
func CMap(t *rapid.T, n int, inRange bool) cmap.Table {
	if rapid.IntRange(0, 9).Draw(t, "noCmap") == 0 {
		return nil
	}
	gid := func() glyph.ID {
		if !inRange && rapid.IntRange(0, 15).Draw(t, "anyGid") == 0 {
			return glyph.ID(rapid.Uint16().Draw(t, "gid"))
		}
		return glyph.ID(rapid.IntRange(0, n-1).Draw(t, "gid"))
	}
	mapping := func(maxCode uint32) map[uint32]glyph.ID {
		m := map[uint32]glyph.ID{}
		mode := rapid.IntRange(0, 3).Draw(t, "charsetMode")
		if mode == 0 || mode == 1 {
			k := rapid.IntRange(0, len(someRunes)).Draw(t, "numRunes")
			for i := 0; i < k; i++ {
				r := someRunes[i]
				if mode == 1 {
					r = rapid.SampledFrom(someRunes).Draw(t, "rune")
				}
				if uint32(r) <= maxCode {
					m[uint32(r)] = gid()
				}
			}
		} else {
			for c, g := range DrawMapping(t, maxCode, 4, 12) {
				if inRange || g%16 != 0 {
					g = glyph.ID(int(g) % n)
				}
				m[c] = g
			}
		}
		return m
	}
	lang := uint16(0)
	enc := func(format int) []byte {
		switch format {
		case 0:
			s := &cmap.Format0{}
			for c, g := range mapping(255) {
				if c < 256 && g < 256 {
					s.Data[c] = byte(g)
				}
			}
			return s.Encode(lang)
		case 4:
			s := cmap.Format4{}
			for c, g := range mapping(0xFFFF) {
				s[uint16(c)] = g
			}
			return s.Encode(lang)
		case 6:
			m := mapping(0xFFFF)
			lo := uint32(0)
			for c := range m {
				lo = max(lo, c) // any rule which does not depend on the map order
			}
			lo = rapid.SampledFrom([]uint32{lo &^ 15, 32, 0xFFF0}).Draw(t, "f6start")
			d := append(ref.P16(6), ref.P16(10+2*16)...)
			d = append(d, ref.P16(int(lang))...)
			d = append(d, ref.P16(int(lo))...)
			d = append(d, 0, 16)
			for i := uint32(0); i < 16; i++ {
				d = append(d, ref.P16(int(m[lo+i]))...)
			}
			return d
		case 12:
			s := cmap.Format12{}
			for c, g := range mapping(0x10FFFF) {
				s[c] = g
			}
			return s.Encode(lang)
		case 14:
			d := append(ref.P16(14), ref.P32(10)...)
			return append(d, 0, 0, 0, 0)
		}
		// a subtable the library does not interpret
		body := DrawBytes(t, "cmapBody", 20)
		d := ref.P16(format)
		if format == 2 {
			d = append(d, ref.P16(10+len(body))...)
			d = append(d, 0, 0, 0, 0, 0, 0)
		} else {
			d = append(d, 0, 0)
			d = append(d, ref.P32(uint32(12+len(body)))...)
			d = append(d, 0, 0, 0, 0)
		}
		return append(d, body...)
	}
	res := cmap.Table{}
	if rapid.IntRange(0, 2).Draw(t, "simpleCmap") > 0 {
		f := rapid.SampledFrom([]int{4, 4, 12}).Draw(t, "format")
		d := enc(f)
		if f == 12 {
			res[cmap.Key{PlatformID: 3, EncodingID: 10}] = d
			if rapid.Bool().Draw(t, "both") {
				res[cmap.Key{PlatformID: 0, EncodingID: 4}] = d
			}
			if rapid.Bool().Draw(t, "also4") {
				res[cmap.Key{PlatformID: 3, EncodingID: 1}] = enc(4)
			}
		} else {
			res[cmap.Key{PlatformID: 3, EncodingID: 1}] = d
			if rapid.Bool().Draw(t, "both") {
				res[cmap.Key{PlatformID: 0, EncodingID: 3}] = d
			}
		}
		if rapid.IntRange(0, 3).Draw(t, "mac") == 0 {
			// there may be several versions, for different languages
			for k := rapid.SampledFrom([]int{1, 1, 2, 4}).Draw(t, "numMac"); k > 0; k-- {
				res[cmap.Key{PlatformID: 1, EncodingID: 0, Language: lang}] = enc(rapid.SampledFrom([]int{0, 6, 4}).Draw(t, "macFormat"))
				lang = uint16(rapid.IntRange(1, 150).Draw(t, "language"))
			}
			lang = 0
		}
		return res
	}
	for k := rapid.IntRange(0, 4).Draw(t, "numSubtables"); k > 0; k-- {
		key := cmap.Key{PlatformID: uint16(rapid.SampledFrom([]int{0, 1, 3, 3, 3, 2, 4}).Draw(t, "platform"))}
		switch key.PlatformID {
		case 0:
			key.EncodingID = uint16(rapid.IntRange(0, 6).Draw(t, "enc"))
		case 3:
			key.EncodingID = rapid.SampledFrom([]uint16{0, 1, 1, 2, 10}).Draw(t, "enc")
		default:
			key.EncodingID = uint16(rapid.IntRange(0, 3).Draw(t, "enc"))
		}
		format := rapid.SampledFrom([]int{0, 4, 4, 4, 6, 12, 12, 2, 8, 10, 13, 14}).Draw(t, "format")
		if format == 14 && key.PlatformID != 0 {
			format = 4
		}
		res[key] = enc(format)
	}
	return res
}

// Rand returns a random number generator controlled by rapid.
func Rand(t *rapid.T) *rand.Rand {
	return rand.New(rand.NewPCG(rapid.Uint64().Draw(t, "rng"), 1))
}

// Gtab draws a GSUB or GPOS table.
func Gtab(t *rapid.T, f *sfnt.Font, gpos bool) *gtab.Info {
	switch rapid.IntRange(0, 9).Draw(t, "gtabKind") {
	case 0:
		return nil
	case 1:
		return &gtab.Info{}
	}
	n := f.NumGlyphs()
	var glyphs []glyph.ID
	for i := 0; i < min(n, 9); i++ {
		glyphs = append(glyphs, glyph.ID(i))
	}
	for i := 0; i < 3; i++ {
		g := glyph.ID(Mix(uint32(i), 99) % uint32(n))
		if int(g) >= 9 {
			glyphs = append(glyphs, g)
		}
	}
	o := &GtabOpts{Glyphs: glyphs, Gdef: f.Gdef, Gpos: gpos, WellFormed: true}
	rng := Rand(t)
	info := &gtab.Info{LookupList: o.LookupList(t, 0, 4)}
	info.ScriptList, _ = DrawScripts(t, rng, false)
	info.FeatureList = DrawFeatures(t, rng, false)
	return info
}

// GtabFor draws lookups together with features which use them.
func (o *GtabOpts) Info(t *rapid.T, lo, hi int) *gtab.Info {
	info := &gtab.Info{LookupList: o.LookupList(t, lo, hi)}
	rng := Rand(t)
	info.ScriptList, _ = DrawScripts(t, rng, false)
	info.FeatureList = DrawFeatures(t, rng, false)
	for _, f := range info.FeatureList {
		for i := range f.Lookups {
			if len(info.LookupList) > 0 {
				f.Lookups[i] = gtab.LookupIndex(int(f.Lookups[i]) % len(info.LookupList))
			}
		}
	}
	return info
}

// Font draws a font.
func Font(t *rapid.T, o FontOpts) *sfnt.Font {
	kind := o.Kind
	if kind == AnyKind {
		kind = rapid.SampledFrom([]int{Glyf, Glyf, SimpleCFF, CIDCFF}).Draw(t, "fontKind")
	}
	n := o.NumGlyphs
	if n == 0 {
		n = rapid.OneOf(rapid.IntRange(1, 4), rapid.IntRange(1, max(2, o.MaxGlyphs))).Draw(t, "numGlyphs")
		if !o.NoRare && rapid.IntRange(0, 400).Draw(t, "manyGlyphs") == 77 {
			n = rapid.SampledFrom([]int{255, 256, 257, 258, 259, 300, 1000, 5000, 65535}).Draw(t, "numGlyphs2")
		}
	}

	if n > 65000 && kind == SimpleCFF {
		kind = CIDCFF // string IDs are 16 bit numbers
	}

	f := &sfnt.Font{}
	i16p := func(label string) funit.Int16 {
		return funit.Int16(rapid.OneOf(rapid.Just(0), rapid.IntRange(0, 1000), rapid.IntRange(0, 32767)).Draw(t, label))
	}
	f.UnitsPerEm = uint16(rapid.OneOf(rapid.Just(1000), rapid.Just(2048), rapid.IntRange(16, 16384)).Draw(t, "upm"))
	switch kind {
	case Glyf:
		f.Outlines = GlyfOutlines(t, n, o.Plain)
		q := 1 / float64(f.UnitsPerEm)
		f.FontMatrix = matrix.Matrix{q, 0, 0, q, 0, 0}
	default:
		styles := []Num{NumInt, NumHalf, NumMixed}
		if o.Plain {
			styles = []Num{NumInt}
		} else if rapid.IntRange(0, 3).Draw(t, "oddNumbers") == 0 {
			styles = nil
		}
		cf := CFFFont(t, CFFOpts{NumGlyphs: n, MaxRuns: 3, MaxStems: 3, CID: kind - 1, Styles: styles})
		f.Outlines = cf.Outlines
		f.FontMatrix = cf.FontMatrix
		for _, g := range cf.Glyphs {
			if math.Abs(g.Width) > 32767 || o.Plain && g.Width < 0 {
				g.Width = 500
			}
			if o.Plain {
				g.Width = math.Round(g.Width)
			}
		}
		if rapid.Bool().Draw(t, "standardMatrix") || o.Plain {
			q := 1 / float64(f.UnitsPerEm)
			f.FontMatrix = matrix.Matrix{q, 0, 0, q, 0, 0}
			if kind == CIDCFF && rapid.Bool().Draw(t, "standardCIDMatrix") {
				for i := range cf.FontMatrices {
					if rapid.Bool().Draw(t, "matrixInFD") {
						cf.FontMatrices[i] = matrix.Matrix{1, 0, 0, 1, 0, 0}
					}
				}
			}
		}
	}
	fillInfo(t, f, o)
	f.Ascent, f.Descent, f.LineGap = drawI16(t, "ascent"), drawI16(t, "descent"), drawI16(t, "lineGap")
	f.CapHeight, f.XHeight = i16p("capHeight"), i16p("xHeight")
	f.CMapTable = CMap(t, n, o.InRange || o.Plain)
	if !o.NoLayout {
		var glyphs []glyph.ID
		for i := 0; i < min(n, 9); i++ {
			glyphs = append(glyphs, glyph.ID(i))
		}
		g := &GtabOpts{Glyphs: glyphs, WellFormed: true}
		if rapid.Bool().Draw(t, "hasGdef") {
			f.Gdef = g.DrawGdef(t)
		}
		f.Gsub = Gtab(t, f, false)
		f.Gpos = Gtab(t, f, true)
	}
	return f
}

// fillInfo draws the descriptive fields of a font.
func fillInfo(t *rapid.T, f *sfnt.Font, o FontOpts) {
	f.FamilyName = text(t, "FamilyName")
	f.Width = os2.Width(rapid.OneOf(rapid.Uint16Range(0, 9), rapid.Just(uint16(5)), rapid.Uint16()).Draw(t, "width"))
	f.Weight = os2.Weight(rapid.OneOf(rapid.SampledFrom([]uint16{0, 100, 200, 300, 400, 400, 500, 600, 700, 800, 900}), rapid.Uint16Range(0, 1000), rapid.Uint16()).Draw(t, "weight"))
	style := rapid.IntRange(0, 15).Draw(t, "styleBits")
	f.IsBold = style&1 != 0
	f.IsItalic = style&2 != 0
	f.IsOblique = style&6 == 6
	if style&3 == 0 {
		f.IsRegular = style&8 != 0
	}
	switch rapid.IntRange(0, 2).Draw(t, "familyClass") {
	case 0:
		f.IsSerif = true
	case 1:
		f.IsScript = true
	}
	f.CodePageRange = os2.CodePageRange(rapid.OneOf(rapid.Uint64(), rapid.Just(uint64(0)), rapid.Just(uint64(1))).Draw(t, "codePages"))
	f.Version = head.Version(rapid.OneOf(rapid.Uint32(), rapid.Just(uint32(0x10000)), rapid.Uint32Range(0, 0x30000)).Draw(t, "version")).Round()
	f.CreationTime = Time(t, "created")
	f.ModificationTime = Time(t, "modified")
	if f.CreationTime.IsZero() && f.ModificationTime.IsZero() && !o.NoTime {
		f.CreationTime = time.Unix(1234567890, 0).UTC()
	}
	f.Description = text(t, "Description")
	f.SampleText = text(t, "SampleText")
	f.Copyright = text(t, "Copyright")
	f.Trademark = text(t, "Trademark")
	f.License = text(t, "License")
	f.LicenseURL = text(t, "LicenseURL")
	f.PermUse = os2.Permissions(rapid.IntRange(0, 3).Draw(t, "permUse"))
	if f.IsItalic && !f.IsOblique || f.IsOblique {
		f.ItalicAngle = Angle(t, "ItalicAngle")
	}
	ul := func(label string) funit.Float64 {
		x := rapid.OneOf(rapid.IntRange(-200, 200), rapid.IntRange(-32768, 32767)).Draw(t, label)
		if rapid.IntRange(0, 3).Draw(t, label+"Frac") == 0 && x > -32768 && x < 32767 {
			return funit.Float64(x) + funit.Float64(rapid.SampledFrom([]float64{0.25, 0.5, -0.25, 0.499}).Draw(t, label+"F"))
		}
		return funit.Float64(x)
	}
	f.UnderlinePosition = ul("underlinePos")
	f.UnderlineThickness = ul("underlineThick")
}

// Kind returns a description of the kind of font.
func Kind(f *sfnt.Font) string {
	switch o := f.Outlines.(type) {
	case *glyf.Outlines:
		return "TrueType"
	case *cff.Outlines:
		if o.ROS != nil {
			return "CFF CID-keyed"
		}
		return "CFF simple"
	}
	return "?"
}
