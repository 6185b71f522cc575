// Package gen contains generators for fonts and font tables, shared between
// the checks.
package gen

import (
	"fmt"
	"math"

	"pgregory.net/rapid"

	"seehuhn.de/go/geom/matrix"
	"seehuhn.de/go/postscript/cid"
	"seehuhn.de/go/postscript/funit"
	"seehuhn.de/go/postscript/type1"
	"seehuhn.de/go/sfnt/cff"
	"seehuhn.de/go/sfnt/glyph"

	"seehuhn.de/go/sfnt/verif/ref"
)

// Num selects how coordinates are distributed.
type Num int

// The available number styles.
const (
	NumInt     Num = iota // integers
	NumHalf               // multiples of 1/2
	NumGrid               // multiples of 1/65536
	NumReal               // arbitrary float64 values
	NumMixed              // any of the above
	NumSmall              // tiny integers
	NumBig                // integers up to +-16000
	NumSubGrid            // values just off the 1/65536 grid
)

func drawNum(t *rapid.T, s Num) float64 {
	if s == NumMixed {
		s = Num(rapid.IntRange(0, 7).Draw(t, "numStyle"))
	}
	switch s {
	case NumHalf:
		return float64(rapid.IntRange(-600, 600).Draw(t, "h")) / 2
	case NumGrid:
		return float64(rapid.IntRange(-300*65536, 300*65536).Draw(t, "g")) / 65536
	case NumReal:
		return rapid.Float64Range(-300, 300).Draw(t, "r")
	case NumSmall:
		return float64(rapid.IntRange(-3, 3).Draw(t, "s"))
	case NumBig:
		return float64(rapid.OneOf(rapid.IntRange(-16000, 16000),
			rapid.SampledFrom([]int{107, 108, -107, -108, 1131, 1132, -1131, -1132})).Draw(t, "b"))
	case NumSubGrid:
		k := rapid.IntRange(-200*65536, 200*65536).Draw(t, "k")
		e := rapid.SampledFrom([]float64{0.49, 0.51, 0.5, -0.5, 0.25, -0.49}).Draw(t, "e")
		return (float64(k) + e) / 65536
	}
	return float64(rapid.IntRange(-400, 400).Draw(t, "i"))
}

const coordLimit = 15000

// CFFPath draws glyph drawing commands.  The commands start with a moveto and
// contain no masks.
func CFFPath(t *rapid.T, style Num, maxRuns int) []cff.GlyphOp {
	var cmds []cff.GlyphOp
	var x, y float64
	clamp := func(v float64) float64 { return math.Max(-coordLimit, math.Min(coordLimit, v)) }
	num := func() float64 {
		if rapid.IntRange(0, 9).Draw(t, "zero") == 0 {
			return 0
		}
		return drawNum(t, style)
	}
	move := func() {
		dx, dy := num(), num()
		switch rapid.IntRange(0, 5).Draw(t, "moveKind") {
		case 0:
			dx = 0
		case 1:
			dy = 0
		}
		x, y = clamp(x+dx), clamp(y+dy)
		cmds = append(cmds, cff.GlyphOp{Op: cff.OpMoveTo, Args: []float64{x, y}})
	}
	line := func(dx, dy float64) {
		x, y = clamp(x+dx), clamp(y+dy)
		cmds = append(cmds, cff.GlyphOp{Op: cff.OpLineTo, Args: []float64{x, y}})
	}
	curve := func(a, b, c, d, e, f float64) {
		x1, y1 := clamp(x+a), clamp(y+b)
		x2, y2 := clamp(x1+c), clamp(y1+d)
		x, y = clamp(x2+e), clamp(y2+f)
		cmds = append(cmds, cff.GlyphOp{Op: cff.OpCurveTo, Args: []float64{x1, y1, x2, y2, x, y}})
	}
	runs := rapid.IntRange(0, maxRuns).Draw(t, "runs")
	for r := 0; r < runs; r++ {
		if r == 0 || rapid.IntRange(0, 3).Draw(t, "newContour") == 0 {
			move()
		}
		n := rapid.OneOf(rapid.IntRange(0, 4), rapid.IntRange(1, 4), rapid.IntRange(5, 15), rapid.IntRange(15, 30), rapid.IntRange(46, 52)).Draw(t, "runLen")
		kind := rapid.IntRange(0, 13).Draw(t, "runKind")
		if kind >= 5 && n > 30 {
			n = 30
		}
		phase := rapid.Bool().Draw(t, "phase")
		for i := 0; i < n; i++ {
			switch kind {
			case 0, 1: // general lines
				line(num(), num())
			case 2: // alternating horizontal and vertical lines
				if phase == (i%2 == 0) {
					line(num(), 0)
				} else {
					line(0, num())
				}
			case 3: // all in the same direction
				if phase {
					line(num(), 0)
				} else {
					line(0, num())
				}
			case 4: // mixture
				switch rapid.IntRange(0, 3).Draw(t, "lineKind") {
				case 0:
					line(num(), 0)
				case 1:
					line(0, num())
				default:
					line(num(), num())
				}
			case 5: // general curves
				curve(num(), num(), num(), num(), num(), num())
			case 6: // hh or vv
				var extra float64
				if i == 0 && rapid.Bool().Draw(t, "extra") {
					extra = num()
				}
				if phase {
					curve(num(), extra, num(), num(), num(), 0)
				} else {
					curve(extra, num(), num(), num(), 0, num())
				}
			case 7, 8: // hv/vh
				var extra float64
				if i == n-1 && rapid.Bool().Draw(t, "extra") {
					extra = num()
				}
				if phase == (i%2 == 0) {
					curve(num(), 0, num(), num(), extra, num())
				} else {
					curve(0, num(), num(), num(), num(), extra)
				}
			case 9: // curves with random zero components
				var a [6]float64
				for k := range a {
					if rapid.Bool().Draw(t, "z") {
						a[k] = num()
					}
				}
				curve(a[0], a[1], a[2], a[3], a[4], a[5])
			case 10: // hflex
				d := num()
				curve(num(), 0, num(), d, num(), 0)
				curve(num(), 0, num(), -d, num(), 0)
				i++
			case 11: // hflex1
				y0 := y
				curve(num(), num(), num(), num(), num(), 0)
				a, b, c, d := num(), num(), num(), num()
				x1, y1 := clamp(x+a), y
				x2, y2 := clamp(x1+b), clamp(y1+c)
				x, y = clamp(x2+d), y0
				cmds = append(cmds, cff.GlyphOp{Op: cff.OpCurveTo, Args: []float64{x1, y1, x2, y2, x, y}})
				i++
			case 12: // lines followed by a curve
				if i < n-1 {
					line(num(), num())
				} else {
					curve(num(), num(), num(), num(), num(), num())
				}
			case 13: // curves followed by a line
				if i < n-1 {
					curve(num(), num(), num(), num(), num(), num())
				} else {
					line(num(), num())
				}
			}
		}
	}
	return cmds
}

// CFFStems draws stem hints.
func CFFStems(t *rapid.T, style Num, maxStems int) (h, v []float64) {
	draw := func(n int) []float64 {
		var res []float64
		pos := 0.0
		for i := 0; i < n; i++ {
			pos += drawNum(t, style)
			w := drawNum(t, style)
			if pos > 15000 || pos < -15000 {
				pos = 0
			}
			res = append(res, pos, pos+w)
			pos += w
		}
		return res
	}
	nh := rapid.OneOf(rapid.Just(0), rapid.IntRange(0, 4), rapid.IntRange(0, maxStems/2)).Draw(t, "nHStem")
	nv := rapid.OneOf(rapid.Just(0), rapid.IntRange(0, 4), rapid.IntRange(0, maxStems/2)).Draw(t, "nVStem")
	return draw(nh), draw(nv)
}

// AddMasks inserts hint masks into the commands.
func AddMasks(t *rapid.T, cmds []cff.GlyphOp, numStems int) []cff.GlyphOp {
	if numStems == 0 {
		return cmds
	}
	mode := rapid.IntRange(0, 3).Draw(t, "maskMode")
	if mode == 0 {
		return cmds
	}
	mask := func() cff.GlyphOp {
		op := cff.OpHintMask
		if rapid.IntRange(0, 2).Draw(t, "cntr") == 0 {
			op = cff.OpCntrMask
		}
		a := make([]float64, (numStems+7)/8)
		for i := range a {
			a[i] = float64(rapid.IntRange(0, 255).Draw(t, "maskByte"))
		}
		return cff.GlyphOp{Op: op, Args: a}
	}
	var res []cff.GlyphOp
	if mode != 2 {
		n := rapid.IntRange(1, 2).Draw(t, "leadMasks")
		for i := 0; i < n; i++ {
			res = append(res, mask())
		}
	}
	for _, c := range cmds {
		if mode >= 2 && rapid.IntRange(0, 9).Draw(t, "midMask") == 0 {
			res = append(res, mask())
		}
		res = append(res, c)
	}
	if mode >= 2 && rapid.IntRange(0, 9).Draw(t, "endMask") == 0 {
		res = append(res, mask())
	}
	return res
}

// CFFGlyph draws a glyph without name.
func CFFGlyph(t *rapid.T, style Num, maxRuns, maxStems int) *cff.Glyph {
	g := &cff.Glyph{}
	g.Cmds = CFFPath(t, style, maxRuns)
	if rapid.IntRange(0, 2).Draw(t, "hasStems") > 0 {
		g.HStem, g.VStem = CFFStems(t, style, maxStems)
		g.Cmds = AddMasks(t, g.Cmds, (len(g.HStem)+len(g.VStem))/2)
	}
	return g
}

// Widths draws n advance widths, covering the ways in which the default and
// nominal widths can be chosen.
func Widths(t *rapid.T, n int) []float64 {
	frac := rapid.IntRange(0, 3).Draw(t, "widthFrac")
	one := func() float64 {
		w := float64(rapid.OneOf(rapid.IntRange(0, 1000), rapid.SampledFrom([]int{0, 250, 500, 600, 1000, 2048}),
			rapid.IntRange(0, 32000)).Draw(t, "w"))
		switch frac {
		case 1:
			w += float64(rapid.IntRange(0, 3).Draw(t, "wq")) / 4
		case 2:
			w += float64(rapid.IntRange(0, 65535).Draw(t, "wg")) / 65536
		case 3:
			if rapid.Bool().Draw(t, "wr") {
				w += rapid.Float64Range(0, 0.9999).Draw(t, "wf")
			}
		}
		return w
	}
	res := make([]float64, n)
	switch rapid.IntRange(0, 4).Draw(t, "widthMode") {
	case 0: // all equal
		w := one()
		for i := range res {
			res[i] = w
		}
	case 1: // two values
		w1, w2 := one(), one()
		for i := range res {
			res[i] = w1
			if rapid.Bool().Draw(t, "second") {
				res[i] = w2
			}
		}
	case 2: // all equal except one
		w := one()
		for i := range res {
			res[i] = w
		}
		res[rapid.IntRange(0, n-1).Draw(t, "odd")] = one()
	default:
		for i := range res {
			res[i] = one()
			if i > 0 && rapid.IntRange(0, 2).Draw(t, "rep") == 0 {
				res[i] = res[i-1]
			}
		}
	}
	return res
}

var nameChars = []rune("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789._")

// GlyphNames draws n distinct glyph names, starting with ".notdef".
func GlyphNames(t *rapid.T, n int) []string {
	res := make([]string, n)
	used := map[string]bool{".notdef": true}
	res[0] = ".notdef"
	mode := rapid.IntRange(0, 4).Draw(t, "nameMode")
	next := rapid.SampledFrom([]int{1, 1, 1, 34, 200, 229, 300, 380}).Draw(t, "firstSID")
	for i := 1; i < n; i++ {
		m := mode
		if m == 4 {
			m = rapid.IntRange(0, 3).Draw(t, "nm")
		}
		var s string
		switch m {
		case 0: // runs of standard names
			if rapid.IntRange(0, 15).Draw(t, "jump") == 0 {
				next = rapid.IntRange(1, 390).Draw(t, "sid")
			}
			if next < 391 {
				s = ref.CFFStdStrings[next]
				next++
			}
		case 1: // custom
			k := rapid.IntRange(1, 12).Draw(t, "len")
			rr := make([]rune, k)
			for j := range rr {
				rr[j] = rapid.SampledFrom(nameChars).Draw(t, "c")
			}
			s = string(rr)
		case 2:
			s = fmt.Sprintf("uni%04X", rapid.IntRange(0, 0xffff).Draw(t, "uni"))
		case 3:
			s = fmt.Sprintf("g%d", i)
		}
		for s == "" || used[s] {
			s = fmt.Sprintf("x%d.%d", i, len(used))
			used[s+"#"] = true
		}
		used[s] = true
		res[i] = s
	}
	return res
}

// CFFEncoding draws an encoding vector for n glyphs (or nil).
func CFFEncoding(t *rapid.T, names []string) []glyph.ID {
	n := len(names)
	enc := make([]glyph.ID, 256)
	predef := func(k int) {
		sid := map[string]int{}
		for gid, s := range names {
			sid[s] = gid
		}
		for code, s := range ref.CFFPredefEncodings[k] {
			if s != 0 {
				enc[code] = glyph.ID(sid[ref.CFFStdStrings[s]])
			}
		}
	}
	switch rapid.IntRange(0, 9).Draw(t, "encMode") {
	case 0:
		return nil
	case 1:
		predef(0)
	case 2:
		predef(1)
	case 3: // standard with a change
		predef(rapid.IntRange(0, 1).Draw(t, "base"))
		enc[rapid.IntRange(0, 255).Draw(t, "code")] = glyph.ID(rapid.IntRange(0, n-1).Draw(t, "gid"))
	case 4: // empty
	case 5, 6: // a run of codes
		code := rapid.IntRange(0, 255).Draw(t, "firstCode")
		cnt := rapid.IntRange(1, 256).Draw(t, "cnt")
		for i := 0; i < cnt && 1+i < n && code+i < 256; i++ {
			enc[code+i] = glyph.ID(1 + i)
		}
		for k := rapid.IntRange(0, 3).Draw(t, "extras"); k > 0; k-- {
			enc[rapid.IntRange(0, 255).Draw(t, "code")] = glyph.ID(rapid.IntRange(0, n-1).Draw(t, "gid"))
		}
	case 7: // random permutation of contiguous glyphs
		cnt := rapid.IntRange(0, min(n-1, 255)).Draw(t, "cnt")
		perm := rapid.Permutation(seq256()).Draw(t, "perm")
		for i := 0; i < cnt; i++ {
			enc[perm[i]] = glyph.ID(1 + i)
		}
	default: // random
		k := rapid.OneOf(rapid.IntRange(0, 10), rapid.IntRange(0, 255)).Draw(t, "k")
		for ; k > 0; k-- {
			enc[rapid.IntRange(0, 255).Draw(t, "code")] = glyph.ID(rapid.IntRange(0, n-1).Draw(t, "gid"))
		}
	}
	return enc
}

func seq256() []int {
	r := make([]int, 256)
	for i := range r {
		r[i] = i
	}
	return r
}

// Text draws a string for a string field, sometimes empty, sometimes one of
// the CFF standard strings.
func Text(t *rapid.T, label string, ascii bool) string {
	switch rapid.IntRange(0, 4).Draw(t, label+"Kind") {
	case 0:
		return ""
	case 1:
		return rapid.SampledFrom([]string{"Regular", "Bold", "001.000", "Semibold", "space", "Black"}).Draw(t, label)
	case 2:
		if !ascii {
			return rapid.StringOfN(rapid.RuneFrom([]rune("aé€Ω漢😀 ©-")), 1, 20, -1).Draw(t, label)
		}
	}
	return rapid.StringMatching(`[A-Za-z0-9 .-]{1,20}`).Draw(t, label)
}

// tame replaces numbers outside the range of DICT reals the library accepts.
func tame(x float64) float64 {
	if math.Abs(x) < 1e-290 {
		return 0
	}
	return x
}

// DictReal draws a number for a DICT.
func DictReal(t *rapid.T, label string) float64 {
	switch rapid.IntRange(0, 6).Draw(t, label+"Kind") {
	case 0:
		return float64(rapid.IntRange(-200, 200).Draw(t, label))
	case 1:
		return float64(rapid.IntRange(-40000, 40000).Draw(t, label)) / 100
	case 2:
		return tame(rapid.Float64Range(-1, 1).Draw(t, label))
	case 3:
		m := float64(rapid.IntRange(-999_999_999, 999_999_999).Draw(t, label))
		e := rapid.IntRange(-30, 20).Draw(t, label+"Exp")
		return m * math.Pow10(e)
	case 4:
		m := float64(rapid.IntRange(-999, 999).Draw(t, label))
		e := rapid.IntRange(-290, 290).Draw(t, label+"Exp")
		return m * math.Pow10(e)
	case 5:
		// near powers of ten
		e := rapid.IntRange(-15, 15).Draw(t, label+"Exp")
		return math.Pow10(e) * rapid.SampledFrom([]float64{1, 0.9999999999, 1.0000000001, 0.999999999, 0.99999999949, -1, 9.999999995}).Draw(t, label)
	}
	return 0
}

// Matrix draws a font matrix.
func Matrix(t *rapid.T, label string) matrix.Matrix {
	switch rapid.IntRange(0, 7).Draw(t, label+"Kind") {
	case 0:
		return matrix.Identity
	case 1, 2:
		return matrix.Matrix{0.001, 0, 0, 0.001, 0, 0}
	case 3:
		u := float64(rapid.SampledFrom([]int{1000, 2048, 1024, 990, 1001, 995, 1010, 16, 16384}).Draw(t, label))
		return matrix.Matrix{1 / u, 0, 0, 1 / u, 0, 0}
	case 4:
		s := tame(rapid.Float64Range(-0.0005, 0.0005).Draw(t, label))
		return matrix.Matrix{0.001, 0, s, 0.001, 0, 0}
	case 5:
		return matrix.Matrix{0.001, 0, 0, 0.001, 0, float64(rapid.IntRange(-20, 20).Draw(t, label)) / 1e6}
	case 6:
		return matrix.Matrix{1, 0, 0, 1, float64(rapid.IntRange(-2, 2).Draw(t, label)), 0}
	}
	var m matrix.Matrix
	for i := range m {
		m[i] = tame(rapid.Float64Range(-2, 2).Draw(t, label))
	}
	return m
}

// Private draws a private dictionary.
func Private(t *rapid.T) *type1.PrivateDict {
	p := &type1.PrivateDict{BlueScale: 0.039625, BlueShift: 7, BlueFuzz: 1}
	if rapid.IntRange(0, 2).Draw(t, "defaultPrivate") == 0 {
		return p
	}
	blues := func(label string, max int) []funit.Int16 {
		n := 2 * rapid.IntRange(0, max/2).Draw(t, label+"N")
		var res []funit.Int16
		for i := 0; i < n; i++ {
			res = append(res, funit.Int16(rapid.OneOf(rapid.IntRange(-300, 1000), rapid.IntRange(-32768, 32767)).Draw(t, label)))
		}
		return res
	}
	p.BlueValues = blues("blue", 14)
	p.OtherBlues = blues("other", 10)
	switch rapid.IntRange(0, 3).Draw(t, "bsKind") {
	case 0:
		p.BlueScale = 0.039625 + float64(rapid.IntRange(-20, 20).Draw(t, "bs"))*1e-7
	case 1:
		p.BlueScale = tame(rapid.Float64Range(0, 1).Draw(t, "bs"))
	case 2:
		p.BlueScale = rapid.SampledFrom([]float64{0, 1, 0.04379, 0.5}).Draw(t, "bs")
	}
	i32 := rapid.OneOf(rapid.Int32Range(-20, 20), rapid.Int32())
	p.BlueShift = i32.Draw(t, "shift")
	p.BlueFuzz = i32.Draw(t, "fuzz")
	p.StdHW = rapid.SampledFrom([]float64{0, 1, 85, 79.5, 10000, 33.333333333}).Draw(t, "hw")
	p.StdVW = rapid.SampledFrom([]float64{0, 1, 85, 79.5, 10000, 0.1234567891}).Draw(t, "vw")
	p.ForceBold = rapid.Bool().Draw(t, "fb")
	return p
}

// Angle draws an angle in [-180, 180).
func Angle(t *rapid.T, label string) float64 {
	switch rapid.IntRange(0, 4).Draw(t, label+"Kind") {
	case 0, 1:
		return 0
	case 2:
		return float64(rapid.IntRange(-1800, 1799).Draw(t, label)) / 10
	case 3:
		return tame(rapid.Float64Range(-180, 179.99).Draw(t, label))
	}
	return float64(rapid.IntRange(-90*65536, 90*65536).Draw(t, label)) / 65536
}

// CFFOpts controls the CFF font generator.
type CFFOpts struct {
	MaxGlyphs int
	MaxRuns   int
	MaxStems  int
	CID       int // 0 random, 1 simple, 2 CID-keyed
	NumGlyphs int // if non-zero
	Styles    []Num
}

// CFFFont draws a CFF font.
func CFFFont(t *rapid.T, o CFFOpts) *cff.Font {
	n := o.NumGlyphs
	if n == 0 {
		n = rapid.OneOf(rapid.IntRange(1, 4), rapid.IntRange(1, o.MaxGlyphs)).Draw(t, "numGlyphs")
	}
	isCID := o.CID == 2 || o.CID == 0 && rapid.Bool().Draw(t, "cid")
	styles := o.Styles
	if styles == nil {
		styles = []Num{NumInt, NumHalf, NumGrid, NumReal, NumMixed, NumSmall, NumBig, NumSubGrid}
	}
	style := rapid.SampledFrom(styles).Draw(t, "style")

	out := &cff.Outlines{}
	ww := Widths(t, n)
	maxRuns := o.MaxRuns
	if n > 8 {
		maxRuns = min(maxRuns, 2)
	}
	for i := 0; i < n; i++ {
		var g *cff.Glyph
		if i >= 12 {
			// cheap glyphs
			g = &cff.Glyph{}
			if i%3 != 0 {
				g.Cmds = []cff.GlyphOp{
					{Op: cff.OpMoveTo, Args: []float64{float64(i % 50), 0}},
					{Op: cff.OpLineTo, Args: []float64{float64(i % 77), float64(i % 31)}},
					{Op: cff.OpLineTo, Args: []float64{10, float64(i / 256)}},
				}
			}
		} else {
			g = CFFGlyph(t, style, maxRuns, o.MaxStems)
		}
		g.Width = ww[i]
		out.Glyphs = append(out.Glyphs, g)
	}
	info := &type1.FontInfo{
		FontName:           rapid.StringMatching(`[A-Za-z0-9-]{1,30}`).Draw(t, "FontName"),
		Version:            Text(t, "Version", false),
		Notice:             Text(t, "Notice", false),
		Copyright:          Text(t, "Copyright", false),
		FullName:           Text(t, "FullName", false),
		FamilyName:         Text(t, "FamilyName", false),
		Weight:             Text(t, "Weight", false),
		IsFixedPitch:       rapid.Bool().Draw(t, "IsFixedPitch"),
		ItalicAngle:        Angle(t, "ItalicAngle"),
		UnderlinePosition:  funit.Float64(DictReal(t, "ulPos")),
		UnderlineThickness: funit.Float64(DictReal(t, "ulThick")),
	}
	if rapid.IntRange(0, 2).Draw(t, "defaultUL") == 0 {
		info.UnderlinePosition, info.UnderlineThickness = -100, 50
	}
	f := &cff.Font{FontInfo: info, Outlines: out}
	info.FontMatrix = Matrix(t, "FontMatrix")
	if isCID {
		nfd := rapid.OneOf(rapid.Just(1), rapid.IntRange(1, 4), rapid.IntRange(1, 20)).Draw(t, "nFD")
		for i := 0; i < nfd; i++ {
			out.Private = append(out.Private, Private(t))
			out.FontMatrices = append(out.FontMatrices, Matrix(t, "fdMatrix"))
		}
		sel := make([]int, n)
		switch rapid.IntRange(0, 2).Draw(t, "fdMode") {
		case 0:
			k := rapid.IntRange(0, nfd-1).Draw(t, "fd")
			for i := range sel {
				sel[i] = k
			}
		case 1:
			k := 0
			for i := range sel {
				if rapid.IntRange(0, 7).Draw(t, "fdChange") == 0 {
					k = rapid.IntRange(0, nfd-1).Draw(t, "fd")
				}
				sel[i] = k
			}
		case 2:
			for i := range sel {
				sel[i] = rapid.IntRange(0, nfd-1).Draw(t, "fd")
			}
		}
		out.FDSelect = func(gid glyph.ID) int { return sel[gid] }
		out.ROS = &cid.SystemInfo{
			Registry:   rapid.SampledFrom([]string{"Adobe", "Test", "Bold", "space"}).Draw(t, "reg"),
			Ordering:   rapid.SampledFrom([]string{"Identity", "Japan1", "Ä", "Adobe"}).Draw(t, "ord"),
			Supplement: rapid.OneOf(rapid.Int32Range(0, 10), rapid.Int32()).Draw(t, "supp"),
		}
		out.GIDToCID = CIDs(t, n)
	} else {
		out.Private = []*type1.PrivateDict{Private(t)}
		out.FDSelect = func(glyph.ID) int { return 0 }
		names := GlyphNames(t, n)
		for i, g := range out.Glyphs {
			g.Name = names[i]
		}
		out.Encoding = CFFEncoding(t, names)
	}
	return f
}

// CIDs draws n distinct CIDs, starting with 0.
func CIDs(t *rapid.T, n int) []cid.CID {
	res := make([]cid.CID, n)
	mode := rapid.IntRange(0, 2).Draw(t, "cidMode")
	cur := 0
	used := map[int]bool{0: true}
	for i := 1; i < n; i++ {
		switch mode {
		case 0:
			cur++
		case 1:
			cur++
			if rapid.IntRange(0, 9).Draw(t, "cidGap") == 0 {
				cur += rapid.IntRange(1, 300).Draw(t, "gap")
			}
		case 2:
			cur = rapid.OneOf(rapid.IntRange(1, 65535), rapid.IntRange(1, 3*n)).Draw(t, "cid")
		}
		if cur > 65535 {
			cur = 1
		}
		for used[cur] {
			cur++
			if cur > 65535 {
				cur = 1
			}
		}
		used[cur] = true
		res[i] = cid.CID(cur)
	}
	return res
}
