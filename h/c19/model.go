package c19

import (
	"slices"
	"strings"
	"unicode"

	"pgregory.net/rapid"

	"seehuhn.de/go/postscript/funit"

	"seehuhn.de/go/sfnt"
	"seehuhn.de/go/sfnt/cff"
	"seehuhn.de/go/sfnt/cmap"
	"seehuhn.de/go/sfnt/glyf"
	"seehuhn.de/go/sfnt/glyph"
	"seehuhn.de/go/sfnt/opentype/anchor"
	"seehuhn.de/go/sfnt/opentype/classdef"
	"seehuhn.de/go/sfnt/opentype/coverage"
	"seehuhn.de/go/sfnt/opentype/gtab"
	"seehuhn.de/go/sfnt/opentype/markarray"
)

// ---------------------------------------------------------------- fonts

// testFont is a font together with what the description language should know
// about it.
type testFont struct {
	f     *sfnt.Font
	n     int
	names []string       // "" if not known
	last  map[string]int // name -> glyph which the name stands for
	chars map[rune]glyph.ID
	byGid [][]rune
	kind  string
}

var plainNames = strings.Fields(`A B C D E F G H I J K L M N O P Q R S T U V W X Y Z
	a b c d e f g one two three f_i f_f_i A.alt A.sc .null .notdef space Aacute alpha
	α β γ Ж é 中 日本 uni0041 u1F600 x3 a1.b2_c3 ٣x x٣`)

var oddNames = strings.Split(`class|inputclass|backtrackclass|lookaheadclass|x|y|dx|dy|_|to|mark|base|first|second|`+
	`GSUB1|GPOS4|marks|ligs|rtl|1|12|007|-1|A-B|A B| A|A |"|"A"|\|a,b|:c:|[|]|ab|[A]|#|é́|A'|a/b|->|||@|2@1|x+10|c1|ff`, "|")

var plainRunes = []rune("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefgnrt0123456789.,;:-_|/@&=#[]<>()'")

var oddRunes = []rune{'"', '\\', ' ', '\n', '\t', '\r', 0xAD, 0x200B, 0x301, 0x5D0, 0x4E2D, 0x1F600, 0xFFFD,
	0xE000, 0x10FFFF, 1, 7, 8, 0x7F, 0x85, 0xA0, 0x2028, 0x3000, 0xFEFF, 0xD800, 0xDFFF, 0xE0001, 0x1F1E6, 0x202E, 0xFFFF}

func drawFont(t *rapid.T) *testFont {
	n := rapid.OneOf(rapid.IntRange(1, 12), rapid.IntRange(10, 80), rapid.SampledFrom([]int{300, 1000, 3000})).Draw(t, "numGlyphs")
	tf := &testFont{n: n, last: map[string]int{}, chars: map[rune]glyph.ID{}, names: make([]string, n), byGid: make([][]rune, n)}

	// glyph names
	nameKind := rapid.SampledFrom([]string{"none", "plain", "plain", "odd", "dup", "partial"}).Draw(t, "names")
	perm := rapid.Permutation(plainNames).Draw(t, "perm")
	for i := range tf.names {
		var name string
		switch nameKind {
		case "none":
		case "plain":
			name = "g" + strings.Repeat("x", i%3) + string(rune('a'+i%26)) + strings.Repeat("y", i/26%7) + "." + itoa(i)
			if i < len(perm) {
				name = perm[i]
			}
		case "odd":
			if i < 90 {
				name = rapid.OneOf(rapid.SampledFrom(oddNames), rapid.SampledFrom(plainNames), rapid.StringN(1, 3, 8)).Draw(t, "name")
			} else {
				name = "o" + itoa(i)
			}
		case "dup":
			name = plainNames[(i*7)%min(len(plainNames), 11)]
		case "partial":
			if i%3 != 0 && i < len(perm) {
				name = perm[i]
			}
		}
		tf.names[i] = name
	}

	// outlines
	var f *sfnt.Font
	if rapid.Bool().Draw(t, "cff") {
		o := &cff.Outlines{}
		for i := 0; i < n; i++ {
			o.Glyphs = append(o.Glyphs, &cff.Glyph{Name: tf.names[i]})
		}
		f = &sfnt.Font{Outlines: o}
		tf.kind = "cff"
	} else {
		o := &glyf.Outlines{Glyphs: make(glyf.Glyphs, n)}
		if nameKind != "none" {
			o.Names = slices.Clone(tf.names)
		}
		f = &sfnt.Font{Outlines: o}
		tf.kind = "glyf"
	}
	tf.f = f
	for i, name := range tf.names {
		if name != "" {
			tf.last[name] = i
		}
	}

	// character map
	cmapKind := rapid.SampledFrom([]string{"none", "plain", "plain", "odd", "odd", "mac", "empty", "beyond"}).Draw(t, "cmap")
	m := map[rune]glyph.ID{}
	switch cmapKind {
	case "plain", "mac", "beyond":
		start := rapid.IntRange(0, 3).Draw(t, "cmapStart")
		for i, r := range plainRunes {
			if start+i < n {
				m[r] = glyph.ID(start + i)
			}
		}
	case "odd":
		k := rapid.IntRange(1, 25).Draw(t, "numChars")
		for range k {
			r := rapid.OneOf(rapid.SampledFrom(oddRunes), rapid.SampledFrom(plainRunes)).Draw(t, "rune")
			m[r] = glyph.ID(rapid.IntRange(0, n-1).Draw(t, "gid"))
		}
	}
	switch cmapKind {
	case "none":
		f.CMapTable = nil
	case "mac":
		c := cmap.Format4{}
		for r, gid := range m {
			c[uint16(r)] = gid
		}
		f.CMapTable = cmap.Table{cmap.Key{PlatformID: 1, EncodingID: 0}: c.Encode(0)}
	case "beyond":
		// Some characters are mapped to glyphs which do not exist, and
		// some subtable entries are no characters at all.
		for _, g := range []int{n, n + 1, 0xFFFF} {
			m[rune(0x0400+g%13)] = glyph.ID(g)
		}
		m[0x110000] = glyph.ID(n - 1)
		m[0x110003] = glyph.ID(0)
		fallthrough
	default:
		bmp := true
		for r := range m {
			if r > 0xFFFF {
				bmp = false
			}
		}
		if bmp && rapid.Bool().Draw(t, "format4") {
			c := cmap.Format4{}
			for r, gid := range m {
				c[uint16(r)] = gid
			}
			f.CMapTable = cmap.Table{cmap.Key{PlatformID: 3, EncodingID: 1}: c.Encode(0)}
		} else {
			c := cmap.Format12{}
			for r, gid := range m {
				c[uint32(r)] = gid
			}
			f.CMapTable = cmap.Table{cmap.Key{PlatformID: 3, EncodingID: 10}: c.Encode(0)}
		}
	}
	for r, gid := range m {
		if gid == 0 || int(gid) >= n || !validRune(r) {
			continue
		}
		tf.chars[r] = gid
		tf.byGid[gid] = append(tf.byGid[gid], r)
	}
	for i := range tf.byGid {
		slices.Sort(tf.byGid[i])
	}
	tf.kind += " names:" + nameKind + " cmap:" + cmapKind
	return tf
}

func validRune(r rune) bool {
	return r > 0 && r <= 0x10FFFF && !(r >= 0xD800 && r < 0xE000)
}

func itoa(i int) string {
	if i == 0 {
		return "0"
	}
	var b []byte
	for ; i > 0; i /= 10 {
		b = append(b, byte('0'+i%10))
	}
	slices.Reverse(b)
	return string(b)
}

// isIdent returns whether the text is an identifier of the language.
func isIdent(s string) bool {
	if s == "" || strings.ToValidUTF8(s, "") != s {
		return false
	}
	for i, r := range []rune(s) {
		if !(unicode.IsLetter(r) || r == '.' || r == '_' || i > 0 && unicode.IsDigit(r)) {
			return false
		}
	}
	return true
}

// ---------------------------------------------------------------- lookups

type modelGen struct {
	t  *rapid.T
	tf *testFont
}

func (g *modelGen) gid() glyph.ID {
	return glyph.ID(rapid.OneOf(rapid.IntRange(0, g.tf.n-1), rapid.IntRange(0, min(g.tf.n, 8)-1)).Draw(g.t, "gid"))
}

func (g *modelGen) seq(lo, hi int) []glyph.ID {
	k := rapid.IntRange(lo, hi).Draw(g.t, "len")
	var res []glyph.ID
	for len(res) < k {
		if rapid.IntRange(0, 4).Draw(g.t, "run") == 0 && k-len(res) >= 2 {
			a := int(g.gid())
			d := rapid.SampledFrom([]int{-1, 1}).Draw(g.t, "dir")
			l := rapid.IntRange(2, k-len(res)).Draw(g.t, "runLen")
			for i := 0; i < l && a+i*d >= 0 && a+i*d < g.tf.n; i++ {
				res = append(res, glyph.ID(a+i*d))
			}
		} else {
			res = append(res, g.gid())
		}
	}
	return res
}

// set returns a sorted set of glyphs.
func (g *modelGen) set(lo, hi int) []glyph.ID {
	hi = min(hi, g.tf.n)
	lo = min(lo, hi)
	res := g.seq(lo, hi)
	slices.Sort(res)
	res = slices.Compact(res)
	for i := 0; len(res) < lo; i++ {
		if !slices.Contains(res, glyph.ID(i)) {
			res = append(res, glyph.ID(i))
			slices.Sort(res)
		}
	}
	return res
}

func covTable(gg []glyph.ID) coverage.Table {
	res := coverage.Table{}
	for i, gid := range gg {
		res[gid] = i
	}
	return res
}

func covSet(gg []glyph.ID) coverage.Set {
	res := coverage.Set{}
	for _, gid := range gg {
		res[gid] = true
	}
	return res
}

// classes returns a class definition where classes 1..k all occur.
func (g *modelGen) classes(maxClasses int) classdef.Table {
	k := min(rapid.IntRange(0, maxClasses).Draw(g.t, "numClasses"), g.tf.n)
	res := classdef.Table{}
	if k == 0 {
		return res
	}
	gg := g.set(k, max(k, 12))
	perm := rapid.Permutation(gg).Draw(g.t, "classPerm")
	for i, gid := range perm {
		if i < k {
			res[gid] = uint16(i + 1)
		} else {
			res[gid] = uint16(rapid.IntRange(1, k).Draw(g.t, "class"))
		}
	}
	return res
}

func (g *modelGen) classSeq(c classdef.Table, lo, hi int) []uint16 {
	k := rapid.IntRange(lo, hi).Draw(g.t, "len")
	res := make([]uint16, k)
	for i := range res {
		res[i] = uint16(rapid.IntRange(0, c.NumClasses()-1).Draw(g.t, "class"))
	}
	return res
}

func (g *modelGen) actions() []gtab.SeqLookup {
	k := rapid.IntRange(0, 3).Draw(g.t, "numActions")
	var res []gtab.SeqLookup
	num := rapid.OneOf(rapid.IntRange(0, 4), rapid.SampledFrom([]int{65535, 256, 1000}))
	for range k {
		res = append(res, gtab.SeqLookup{
			SequenceIndex:   uint16(num.Draw(g.t, "pos")),
			LookupListIndex: gtab.LookupIndex(num.Draw(g.t, "lookup")),
		})
	}
	return res
}

func (g *modelGen) int16() funit.Int16 {
	return funit.Int16(rapid.OneOf(rapid.IntRange(-3, 3), rapid.IntRange(-1000, 1000),
		rapid.SampledFrom([]int{-32768, 32767})).Draw(g.t, "int16"))
}

// valueRecord returns nil or a non-zero value record.
func (g *modelGen) valueRecord() *gtab.GposValueRecord {
	mask := rapid.IntRange(0, 7).Draw(g.t, "mask")
	res := &gtab.GposValueRecord{}
	if mask&1 != 0 {
		res.XPlacement = g.int16()
	}
	if mask&2 != 0 {
		res.YPlacement = g.int16()
	}
	if mask&4 != 0 {
		res.XAdvance = g.int16()
	}
	if *res == (gtab.GposValueRecord{}) {
		return nil
	}
	return res
}

func (g *modelGen) pair() *gtab.PairAdjust {
	return &gtab.PairAdjust{First: g.valueRecord(), Second: g.valueRecord()}
}

func (g *modelGen) flags() gtab.LookupFlags {
	var res gtab.LookupFlags
	mask := rapid.IntRange(0, 7).Draw(g.t, "flags")
	if mask&1 != 0 {
		res |= gtab.IgnoreMarks
	}
	if mask&2 != 0 {
		res |= gtab.IgnoreLigatures
	}
	if mask&4 != 0 {
		res |= gtab.IgnoreBaseGlyphs
	}
	return res
}

func (g *modelGen) lookupList(gpos bool) gtab.LookupList {
	k := rapid.IntRange(1, 4).Draw(g.t, "numLookups")
	var res gtab.LookupList
	for range k {
		res = append(res, g.lookup(gpos))
	}
	return res
}

func (g *modelGen) lookup(gpos bool) *gtab.LookupTable {
	res := &gtab.LookupTable{Meta: &gtab.LookupMetaInfo{LookupFlags: g.flags()}}
	if gpos {
		res.Meta.LookupType = uint16(rapid.IntRange(1, 4).Draw(g.t, "gposType"))
	} else {
		res.Meta.LookupType = uint16(rapid.IntRange(1, 6).Draw(g.t, "gsubType"))
	}
	n := 1
	if gpos || res.Meta.LookupType >= 5 {
		n = rapid.IntRange(1, 3).Draw(g.t, "numSubtables")
	}
	for range n {
		res.Subtables = append(res.Subtables, g.subtable(gpos, res.Meta.LookupType))
	}
	return res
}

func (g *modelGen) subtable(gpos bool, typ uint16) gtab.Subtable {
	t := g.t
	if gpos {
		typ += 10
	}
	switch typ {
	case 1:
		from := g.set(1, 8)
		if rapid.Bool().Draw(t, "delta") {
			lo := -int(from[0])
			hi := g.tf.n - 1 - int(from[len(from)-1])
			d := rapid.IntRange(lo, hi).Draw(t, "delta")
			return &gtab.Gsub1_1{Cov: covSet(from), Delta: glyph.ID(d)}
		}
		to := g.seq(len(from), len(from))
		if rapid.Bool().Draw(t, "runs") {
			// several stretches which could be mistaken for one range
			for i := range to {
				if i > 0 && rapid.IntRange(0, 3).Draw(t, "cont") > 0 {
					d := int(from[i]) - int(from[i-1])
					if x := int(to[i-1]) + d; x < g.tf.n {
						to[i] = glyph.ID(x)
					}
				}
			}
		}
		for i := range to {
			if to[i]-from[i] != to[0]-from[0] {
				return &gtab.Gsub1_2{Cov: covTable(from), SubstituteGlyphIDs: to}
			}
		}
		return &gtab.Gsub1_1{Cov: covSet(from), Delta: to[0] - from[0]}
	case 2:
		from := g.set(1, 6)
		res := &gtab.Gsub2_1{Cov: covTable(from)}
		for range from {
			res.Repl = append(res.Repl, g.seq(1, 5))
		}
		return res
	case 3:
		from := g.set(1, 6)
		res := &gtab.Gsub3_1{Cov: covTable(from)}
		for range from {
			res.Alternates = append(res.Alternates, g.set(0, 6))
		}
		return res
	case 4:
		from := g.set(1, 6)
		res := &gtab.Gsub4_1{Cov: covTable(from)}
		short := rapid.Bool().Draw(t, "short")
		out := g.gid()
		for range from {
			var ll []gtab.Ligature
			for range rapid.IntRange(1, 3).Draw(t, "numLig") {
				l := gtab.Ligature{Out: out}
				if short {
					if int(out) < g.tf.n-1 {
						out++
					}
				} else {
					out = g.gid()
				}
				if !short || rapid.IntRange(0, 3).Draw(t, "single") == 0 {
					l.In = g.seq(0, 4)
				}
				ll = append(ll, l)
				if short && rapid.Bool().Draw(t, "one") {
					break
				}
			}
			res.Repl = append(res.Repl, ll)
		}
		return res
	case 5:
		switch rapid.IntRange(1, 3).Draw(t, "format") {
		case 1:
			from := g.set(1, 4)
			res := &gtab.SeqContext1{Cov: covTable(from)}
			for range from {
				var rr []*gtab.SeqRule
				for range rapid.IntRange(1, 3).Draw(t, "numRules") {
					rr = append(rr, &gtab.SeqRule{Input: g.seq(0, 4), Actions: g.actions()})
				}
				res.Rules = append(res.Rules, rr)
			}
			return res
		case 2:
			res := &gtab.SeqContext2{Cov: covTable(g.set(0, 6)), Input: g.classes(4)}
			n := res.Input.NumClasses()
			res.Rules = make([][]*gtab.ClassSeqRule, n)
			for range rapid.IntRange(1, 5).Draw(t, "numRules") {
				cls := rapid.IntRange(0, n-1).Draw(t, "class")
				res.Rules[cls] = append(res.Rules[cls], &gtab.ClassSeqRule{
					Input: g.classSeq(res.Input, 0, 4), Actions: g.actions()})
			}
			return res
		default:
			res := &gtab.SeqContext3{Actions: g.actions()}
			for range rapid.IntRange(1, 4).Draw(t, "len") {
				res.Input = append(res.Input, covSet(g.set(0, 6)))
			}
			return res
		}
	case 6:
		switch rapid.IntRange(1, 3).Draw(t, "format") {
		case 1:
			from := g.set(1, 4)
			res := &gtab.ChainedSeqContext1{Cov: covTable(from)}
			for range from {
				var rr []*gtab.ChainedSeqRule
				for range rapid.IntRange(1, 3).Draw(t, "numRules") {
					rr = append(rr, &gtab.ChainedSeqRule{Backtrack: g.seq(0, 4), Input: g.seq(0, 4), Lookahead: g.seq(0, 4), Actions: g.actions()})
				}
				res.Rules = append(res.Rules, rr)
			}
			return res
		case 2:
			res := &gtab.ChainedSeqContext2{Cov: covTable(g.set(0, 6)), Backtrack: g.classes(3), Input: g.classes(4), Lookahead: g.classes(3)}
			n := res.Input.NumClasses()
			res.Rules = make([][]*gtab.ChainedClassSeqRule, n)
			for range rapid.IntRange(1, 5).Draw(t, "numRules") {
				cls := rapid.IntRange(0, n-1).Draw(t, "class")
				res.Rules[cls] = append(res.Rules[cls], &gtab.ChainedClassSeqRule{
					Backtrack: g.classSeq(res.Backtrack, 0, 3),
					Input:     g.classSeq(res.Input, 0, 4),
					Lookahead: g.classSeq(res.Lookahead, 0, 3),
					Actions:   g.actions()})
			}
			return res
		default:
			res := &gtab.ChainedSeqContext3{Actions: g.actions()}
			for range rapid.IntRange(0, 3).Draw(t, "len") {
				res.Backtrack = append(res.Backtrack, covSet(g.set(0, 6)))
			}
			for range rapid.IntRange(1, 4).Draw(t, "len") {
				res.Input = append(res.Input, covSet(g.set(0, 6)))
			}
			for range rapid.IntRange(0, 3).Draw(t, "len") {
				res.Lookahead = append(res.Lookahead, covSet(g.set(0, 6)))
			}
			return res
		}
	case 11:
		if rapid.Bool().Draw(t, "format1") {
			return &gtab.Gpos1_1{Cov: covTable(g.set(0, 8)), Adjust: g.valueRecord()}
		}
		from := g.set(1, 6)
		res := &gtab.Gpos1_2{Cov: covTable(from)}
		for range from {
			res.Adjust = append(res.Adjust, g.valueRecord())
		}
		return res
	case 12:
		if rapid.Bool().Draw(t, "format1") {
			res := gtab.Gpos2_1{}
			for range rapid.IntRange(1, 6).Draw(t, "numPairs") {
				res[glyph.Pair{Left: g.gid(), Right: g.gid()}] = g.pair()
			}
			return res
		}
		res := &gtab.Gpos2_2{Cov: covSet(g.set(0, 6)), Class1: g.gapClasses(), Class2: g.gapClasses()}
		for range res.Class1.NumClasses() {
			var row []*gtab.PairAdjust
			for range res.Class2.NumClasses() {
				row = append(row, g.pair())
			}
			res.Adjust = append(res.Adjust, row)
		}
		return res
	case 13:
		from := g.set(1, 5)
		res := &gtab.Gpos3_1{Cov: covTable(from)}
		for range from {
			res.Records = append(res.Records, gtab.EntryExitRecord{Entry: g.anchor(), Exit: g.anchor()})
		}
		return res
	case 14:
		marks := g.set(0, 6)
		bases := g.set(0, 6)
		res := &gtab.Gpos4_1{MarkCov: covTable(marks), BaseCov: covTable(bases)}
		k := 0
		if len(marks) > 0 {
			k = rapid.IntRange(1, min(len(marks), 4)).Draw(t, "numClasses")
		}
		cc := make([]int, len(marks))
		for i := range cc {
			if i < k {
				cc[i] = i
			} else {
				cc[i] = rapid.IntRange(0, k-1).Draw(t, "class")
			}
		}
		if len(cc) > 0 {
			cc = rapid.Permutation(cc).Draw(t, "markPerm")
		}
		for i := range marks {
			res.MarkArray = append(res.MarkArray, markarray.Record{Class: uint16(cc[i]), Table: g.anchor()})
		}
		for range bases {
			row := make([]anchor.Table, k)
			for i := range row {
				row[i] = g.anchor()
			}
			res.BaseArray = append(res.BaseArray, row)
		}
		return res
	}
	panic("unreachable")
}

// gapClasses is like classes, but some class numbers may be unused.
func (g *modelGen) gapClasses() classdef.Table {
	c := g.classes(3)
	gap := rapid.IntRange(0, 3).Draw(g.t, "gap")
	if gap > 0 {
		res := classdef.Table{}
		for gid, cls := range c {
			if int(cls) >= gap {
				cls++
			}
			res[gid] = cls
		}
		return res
	}
	return c
}

func (g *modelGen) anchor() anchor.Table {
	return anchor.Table{X: g.int16(), Y: g.int16()}
}
