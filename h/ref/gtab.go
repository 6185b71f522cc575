package ref

import (
	"fmt"
	"slices"

	"seehuhn.de/go/postscript/funit"

	"seehuhn.de/go/sfnt/glyph"
	"seehuhn.de/go/sfnt/opentype/anchor"
	"seehuhn.de/go/sfnt/opentype/classdef"
	"seehuhn.de/go/sfnt/opentype/coverage"
	"seehuhn.de/go/sfnt/opentype/gdef"
	"seehuhn.de/go/sfnt/opentype/gtab"
	"seehuhn.de/go/sfnt/opentype/markarray"
)

// A strict, independent decoder for GSUB, GPOS and GDEF tables, written from
// the OpenType specification.  It records which bytes are used by which object
// and verifies that the objects cover the data exactly.

// LangSys is one language system.
type LangSys struct {
	Required int
	Features []int
}

// GtabFile is the contents of a GSUB or GPOS table.
type GtabFile struct {
	Scripts  map[string]map[string]LangSys // script tag, language tag ("" = default)
	Features gtab.FeatureListInfo
	Lookups  gtab.LookupList
	NumExt   int // number of extension records
}

type gtabObj struct {
	from, to int
	kind     string
}

type gtabWalker struct {
	data  []byte
	objs  []gtabObj
	isPos bool
	lax   bool // mark classes may be out of range
	f     *GtabFile
}

type gtabError struct{ msg string }

func (w *gtabWalker) fail(format string, args ...any) {
	panic(gtabError{fmt.Sprintf(format, args...)})
}

func (w *gtabWalker) u16(pos int) int {
	if pos < 0 || pos+2 > len(w.data) {
		w.fail("read at %d outside the table (%d bytes)", pos, len(w.data))
	}
	return int(w.data[pos])<<8 | int(w.data[pos+1])
}

func (w *gtabWalker) i16(pos int) int { return int(int16(w.u16(pos))) }

// offs reads a non-null offset.
func (w *gtabWalker) offs(base, pos int) int {
	o := w.u16(pos)
	if o == 0 {
		w.fail("unexpected null offset at %d", pos)
	}
	return base + o
}

func (w *gtabWalker) mark(kind string, from, to int) {
	if to > len(w.data) {
		w.fail("%s at %d extends to %d, outside the table (%d bytes)", kind, from, to, len(w.data))
	}
	w.objs = append(w.objs, gtabObj{from, to, kind})
}

func (w *gtabWalker) gids(pos, n int) []glyph.ID {
	res := make([]glyph.ID, n)
	for i := range res {
		res[i] = glyph.ID(w.u16(pos + 2*i))
	}
	return res
}

func (w *gtabWalker) words(pos, n int) []uint16 {
	res := make([]uint16, n)
	for i := range res {
		res[i] = uint16(w.u16(pos + 2*i))
	}
	return res
}

// finish verifies that the objects cover the data exactly.
func (w *gtabWalker) finish() {
	slices.SortFunc(w.objs, func(a, b gtabObj) int {
		if a.from != b.from {
			return a.from - b.from
		}
		return a.to - b.to
	})
	pos := 0
	var prev gtabObj
	for i, o := range w.objs {
		if i > 0 && o == prev {
			continue // shared
		}
		if o.from < pos {
			w.fail("%s at %d..%d overlaps %s at %d..%d", o.kind, o.from, o.to, prev.kind, prev.from, prev.to)
		} else if o.from > pos {
			w.fail("unused bytes %d..%d between %s and %s", pos, o.from, prev.kind, o.kind)
		}
		pos, prev = o.to, o
	}
	if pos != len(w.data) {
		w.fail("unused bytes %d..%d at the end (last object %s)", pos, len(w.data), prev.kind)
	}
}

// CoverageSize returns the smallest size of a coverage table.  The glyphs must
// be sorted.
func CoverageSize(gg []glyph.ID) int {
	runs := 0
	for i, g := range gg {
		if i == 0 || gg[i-1]+1 != g {
			runs++
		}
	}
	return min(4+2*len(gg), 4+6*runs)
}

func (w *gtabWalker) coverage(pos int) []glyph.ID {
	var res []glyph.ID
	n := w.u16(pos + 2)
	end := 0
	switch f := w.u16(pos); f {
	case 1:
		res = w.gids(pos+4, n)
		for i := 1; i < n; i++ {
			if res[i-1] >= res[i] {
				w.fail("coverage table at %d: glyphs %d, %d not increasing", pos, res[i-1], res[i])
			}
		}
		end = pos + 4 + 2*n
	case 2:
		prev := -1
		for i := 0; i < n; i++ {
			a, b, c := w.u16(pos+4+6*i), w.u16(pos+6+6*i), w.u16(pos+8+6*i)
			if a <= prev || b < a {
				w.fail("coverage table at %d: range %d is %d..%d after %d", pos, i, a, b, prev)
			}
			if c != len(res) {
				w.fail("coverage table at %d: range %d has startCoverageIndex %d instead of %d", pos, i, c, len(res))
			}
			for g := a; g <= b; g++ {
				res = append(res, glyph.ID(g))
			}
			prev = b
		}
		end = pos + 4 + 6*n
	default:
		w.fail("coverage table at %d has format %d", pos, f)
	}
	w.mark("coverage", pos, end)
	if best := CoverageSize(res); end-pos != best {
		w.fail("coverage table at %d uses %d bytes in format %d, but %d are enough", pos, end-pos, w.u16(pos), best)
	}
	return res
}

func (w *gtabWalker) covTable(pos int) coverage.Table {
	res := coverage.Table{}
	for i, g := range w.coverage(pos) {
		res[g] = i
	}
	return res
}

func (w *gtabWalker) covSet(pos int) coverage.Set {
	res := coverage.Set{}
	for _, g := range w.coverage(pos) {
		res[g] = true
	}
	return res
}

// ClassDefSize returns the smallest size of a class definition table, or -1 if
// neither of the formats can be used.
func ClassDefSize(c classdef.Table) int {
	gg := make([]glyph.ID, 0, len(c))
	for g, cls := range c {
		if cls != 0 {
			gg = append(gg, g)
		}
	}
	slices.Sort(gg)
	segs, first, last := 0, 0, -1
	prev, prevClass := -2, uint16(0)
	for i, gid := range gg {
		g, cls := int(gid), c[gid]
		if i == 0 {
			first = g
		}
		last = g
		if g != prev+1 || cls != prevClass {
			segs++
		}
		prev, prevClass = g, cls
	}
	s1, s2 := 6+2*(last-first+1), 4+6*segs
	if segs > 0xFFFF && last-first+1 > 0xFFFF {
		return -1
	}
	if segs > 0xFFFF {
		return s1
	}
	if last-first+1 > 0xFFFF {
		return s2
	}
	return min(s1, s2)
}

func (w *gtabWalker) classDef(pos int) classdef.Table {
	res := classdef.Table{}
	end := 0
	switch f := w.u16(pos); f {
	case 1:
		start, n := w.u16(pos+2), w.u16(pos+4)
		if start+n > 65536 {
			w.fail("class definition at %d: glyphs %d..%d", pos, start, start+n-1)
		}
		for i := 0; i < n; i++ {
			if c := w.u16(pos + 6 + 2*i); c != 0 {
				res[glyph.ID(start+i)] = uint16(c)
			}
		}
		end = pos + 6 + 2*n
	case 2:
		n := w.u16(pos + 2)
		prev := -1
		for i := 0; i < n; i++ {
			a, b, c := w.u16(pos+4+6*i), w.u16(pos+6+6*i), w.u16(pos+8+6*i)
			if a <= prev || b < a {
				w.fail("class definition at %d: range %d is %d..%d after %d", pos, i, a, b, prev)
			}
			if c != 0 {
				for g := a; g <= b; g++ {
					res[glyph.ID(g)] = uint16(c)
				}
			}
			prev = b
		}
		end = pos + 4 + 6*n
	default:
		w.fail("class definition at %d has format %d", pos, f)
	}
	w.mark("classDef", pos, end)
	if best := ClassDefSize(res); end-pos != best {
		w.fail("class definition at %d uses %d bytes in format %d, but %d are enough", pos, end-pos, w.u16(pos), best)
	}
	return res
}

func valueLen(format int) int {
	n := 0
	for ; format != 0; format &= format - 1 {
		n += 2
	}
	return n
}

func (w *gtabWalker) valueFormat(pos int) int {
	f := w.u16(pos)
	if f > 0xFF {
		w.fail("value format %#x at %d", f, pos)
	}
	return f
}

func (w *gtabWalker) value(pos, format int) *gtab.GposValueRecord {
	if format == 0 {
		return nil
	}
	res := &gtab.GposValueRecord{}
	next := func() int {
		pos += 2
		return w.u16(pos - 2)
	}
	for i, p := range []*funit.Int16{&res.XPlacement, &res.YPlacement, &res.XAdvance, &res.YAdvance} {
		if format>>i&1 != 0 {
			*p = funit.Int16(next())
		}
	}
	for i, p := range []*uint16{&res.XPlacementDevOffs, &res.YPlacementDevOffs, &res.XAdvanceDevOffs, &res.YAdvanceDevOffs} {
		if format>>(i+4)&1 != 0 {
			*p = uint16(next())
		}
	}
	return res
}

// anchor reads an anchor table; null offsets give the empty anchor.
func (w *gtabWalker) anchor(base, pos int) anchor.Table {
	o := w.u16(pos)
	if o == 0 {
		return anchor.Table{}
	}
	o += base
	if f := w.u16(o); f != 1 {
		w.fail("anchor at %d has format %d", o, f)
	}
	w.mark("anchor", o, o+6)
	return anchor.Table{X: funit.Int16(w.i16(o + 2)), Y: funit.Int16(w.i16(o + 4))}
}

func (w *gtabWalker) count(what string, n, want int) {
	if n != want {
		w.fail("%s: %d entries for %d glyphs in the coverage table", what, n, want)
	}
}

func (w *gtabWalker) marks(pos, numClasses, n int) []markarray.Record {
	k := w.u16(pos)
	w.count("mark array", k, n)
	w.mark("markArray", pos, pos+2+4*k)
	var res []markarray.Record
	for i := 0; i < k; i++ {
		c := w.u16(pos + 2 + 4*i)
		if c >= numClasses && !w.lax {
			w.fail("mark array at %d: class %d, but there are only %d classes", pos, c, numClasses)
		}
		res = append(res, markarray.Record{Class: uint16(c), Table: w.anchor(pos, pos+4+4*i)})
	}
	return res
}

func (w *gtabWalker) anchorRows(kind string, pos, numClasses int) [][]anchor.Table {
	n := w.u16(pos)
	w.mark(kind, pos, pos+2+2*n*numClasses)
	res := make([][]anchor.Table, n)
	for i := range res {
		res[i] = make([]anchor.Table, numClasses)
		for j := range res[i] {
			res[i][j] = w.anchor(pos, pos+2+2*(i*numClasses+j))
		}
	}
	return res
}

func (w *gtabWalker) actions(pos, n int) []gtab.SeqLookup {
	var res []gtab.SeqLookup
	for i := 0; i < n; i++ {
		res = append(res, gtab.SeqLookup{
			SequenceIndex: uint16(w.u16(pos + 4*i)), LookupListIndex: gtab.LookupIndex(w.u16(pos + 4*i + 2))})
	}
	return res
}

// A rule of a (chained) sequence context, in generic form.
type gtabRule struct {
	back, in, ahead []uint16
	actions         []gtab.SeqLookup
}

func (w *gtabWalker) rule(pos int, chained bool) gtabRule {
	var r gtabRule
	p := pos
	if chained {
		n := w.u16(p)
		r.back = w.words(p+2, n)
		p += 2 + 2*n
		n = w.u16(p)
		if n == 0 {
			w.fail("rule at %d has input length 0", pos)
		}
		r.in = w.words(p+2, n-1)
		p += 2 * n
		n = w.u16(p)
		r.ahead = w.words(p+2, n)
		p += 2 + 2*n
		n = w.u16(p)
		r.actions = w.actions(p+2, n)
		p += 2 + 4*n
	} else {
		n, m := w.u16(p), w.u16(p+2)
		if n == 0 {
			w.fail("rule at %d has input length 0", pos)
		}
		r.in = w.words(p+4, n-1)
		p += 2 + 2*n
		r.actions = w.actions(p, m)
		p += 4 * m
	}
	w.mark("rule", pos, p)
	return r
}

// ruleSets reads a list of rule sets.  The position is the one of the count.
func (w *gtabWalker) ruleSets(base, pos int, chained bool) [][]gtabRule {
	n := w.u16(pos)
	res := make([][]gtabRule, n)
	for i := range res {
		o := w.u16(pos + 2 + 2*i)
		if o == 0 {
			continue
		}
		o += base
		m := w.u16(o)
		w.mark("ruleSet", o, o+2+2*m)
		for j := 0; j < m; j++ {
			res[i] = append(res[i], w.rule(w.offs(o, o+2+2*j), chained))
		}
	}
	return res
}

func toGIDs(x []uint16) []glyph.ID {
	var res []glyph.ID
	for _, v := range x {
		res = append(res, glyph.ID(v))
	}
	return res
}

func (w *gtabWalker) covList(base, pos int) ([]coverage.Set, int) {
	n := w.u16(pos)
	var res []coverage.Set
	for i := 0; i < n; i++ {
		res = append(res, w.covSet(w.offs(base, pos+2+2*i)))
	}
	return res, pos + 2 + 2*n
}

func (w *gtabWalker) context(p int) gtab.Subtable {
	switch f := w.u16(p); f {
	case 1:
		cov := w.covTable(w.offs(p, p+2))
		rr := w.ruleSets(p, p+4, false)
		w.count("SeqContext1", len(rr), len(cov))
		w.mark("SeqContext1", p, p+6+2*len(rr))
		res := &gtab.SeqContext1{Cov: cov, Rules: make([][]*gtab.SeqRule, len(rr))}
		for i, set := range rr {
			for _, r := range set {
				res.Rules[i] = append(res.Rules[i], &gtab.SeqRule{Input: toGIDs(r.in), Actions: r.actions})
			}
		}
		return res
	case 2:
		cov := w.covTable(w.offs(p, p+2))
		cls := w.classDef(w.offs(p, p+4))
		rr := w.ruleSets(p, p+6, false)
		w.mark("SeqContext2", p, p+8+2*len(rr))
		res := &gtab.SeqContext2{Cov: cov, Input: cls, Rules: make([][]*gtab.ClassSeqRule, len(rr))}
		for i, set := range rr {
			for _, r := range set {
				res.Rules[i] = append(res.Rules[i], &gtab.ClassSeqRule{Input: r.in, Actions: r.actions})
			}
		}
		return res
	case 3:
		n, m := w.u16(p+2), w.u16(p+4)
		res := &gtab.SeqContext3{}
		for i := 0; i < n; i++ {
			res.Input = append(res.Input, w.covSet(w.offs(p, p+6+2*i)))
		}
		res.Actions = w.actions(p+6+2*n, m)
		w.mark("SeqContext3", p, p+6+2*n+4*m)
		return res
	default:
		w.fail("context subtable with format %d", f)
		return nil
	}
}

func (w *gtabWalker) chained(p int) gtab.Subtable {
	switch f := w.u16(p); f {
	case 1:
		cov := w.covTable(w.offs(p, p+2))
		rr := w.ruleSets(p, p+4, true)
		w.count("ChainedSeqContext1", len(rr), len(cov))
		w.mark("ChainedSeqContext1", p, p+6+2*len(rr))
		res := &gtab.ChainedSeqContext1{Cov: cov, Rules: make([][]*gtab.ChainedSeqRule, len(rr))}
		for i, set := range rr {
			for _, r := range set {
				res.Rules[i] = append(res.Rules[i], &gtab.ChainedSeqRule{
					Backtrack: toGIDs(r.back), Input: toGIDs(r.in), Lookahead: toGIDs(r.ahead), Actions: r.actions})
			}
		}
		return res
	case 2:
		res := &gtab.ChainedSeqContext2{
			Cov:       w.covTable(w.offs(p, p+2)),
			Backtrack: w.classDef(w.offs(p, p+4)),
			Input:     w.classDef(w.offs(p, p+6)),
			Lookahead: w.classDef(w.offs(p, p+8)),
		}
		rr := w.ruleSets(p, p+10, true)
		w.mark("ChainedSeqContext2", p, p+12+2*len(rr))
		res.Rules = make([][]*gtab.ChainedClassSeqRule, len(rr))
		for i, set := range rr {
			for _, r := range set {
				res.Rules[i] = append(res.Rules[i], &gtab.ChainedClassSeqRule{
					Backtrack: r.back, Input: r.in, Lookahead: r.ahead, Actions: r.actions})
			}
		}
		return res
	case 3:
		res := &gtab.ChainedSeqContext3{}
		q := p + 2
		res.Backtrack, q = w.covList(p, q)
		res.Input, q = w.covList(p, q)
		res.Lookahead, q = w.covList(p, q)
		n := w.u16(q)
		res.Actions = w.actions(q+2, n)
		w.mark("ChainedSeqContext3", p, q+2+4*n)
		return res
	default:
		w.fail("chained context subtable with format %d", f)
		return nil
	}
}

func (w *gtabWalker) gsub(tp, p int) gtab.Subtable {
	f := w.u16(p)
	if tp == 5 {
		return w.context(p)
	} else if tp == 6 {
		return w.chained(p)
	}
	cov := w.covTable(w.offs(p, p+2))
	switch 10*tp + f {
	case 11:
		w.mark("Gsub1_1", p, p+6)
		return &gtab.Gsub1_1{Cov: cov.ToSet(), Delta: glyph.ID(w.u16(p + 4))}
	case 12:
		n := w.u16(p + 4)
		w.count("Gsub1_2", n, len(cov))
		w.mark("Gsub1_2", p, p+6+2*n)
		return &gtab.Gsub1_2{Cov: cov, SubstituteGlyphIDs: w.gids(p+6, n)}
	case 21, 31:
		n := w.u16(p + 4)
		w.count("sequences", n, len(cov))
		w.mark("Gsub2_1/3_1", p, p+6+2*n)
		seqs := make([][]glyph.ID, n)
		for i := range seqs {
			o := w.offs(p, p+6+2*i)
			k := w.u16(o)
			w.mark("sequence", o, o+2+2*k)
			seqs[i] = w.gids(o+2, k)
		}
		if tp == 2 {
			return &gtab.Gsub2_1{Cov: cov, Repl: seqs}
		}
		return &gtab.Gsub3_1{Cov: cov, Alternates: seqs}
	case 41:
		n := w.u16(p + 4)
		w.count("ligature sets", n, len(cov))
		w.mark("Gsub4_1", p, p+6+2*n)
		res := &gtab.Gsub4_1{Cov: cov, Repl: make([][]gtab.Ligature, n)}
		for i := range res.Repl {
			o := w.offs(p, p+6+2*i)
			k := w.u16(o)
			w.mark("ligatureSet", o, o+2+2*k)
			for j := 0; j < k; j++ {
				q := w.offs(o, o+2+2*j)
				c := w.u16(q + 2)
				if c < 1 {
					w.fail("ligature at %d has no components", q)
				}
				w.mark("ligature", q, q+2+2*c)
				res.Repl[i] = append(res.Repl[i], gtab.Ligature{Out: glyph.ID(w.u16(q)), In: w.gids(q+4, c-1)})
			}
		}
		return res
	case 81:
		res := &gtab.Gsub8_1{Input: cov}
		q := p + 4
		var b, l []coverage.Set
		b, q = w.covList(p, q)
		l, q = w.covList(p, q)
		for _, s := range b {
			res.Backtrack = append(res.Backtrack, s.ToTable())
		}
		for _, s := range l {
			res.Lookahead = append(res.Lookahead, s.ToTable())
		}
		n := w.u16(q)
		w.count("Gsub8_1", n, len(cov))
		res.SubstituteGlyphIDs = w.gids(q+2, n)
		w.mark("Gsub8_1", p, q+2+2*n)
		return res
	}
	w.fail("GSUB lookup type %d, format %d", tp, f)
	return nil
}

func (w *gtabWalker) gpos(tp, p int) gtab.Subtable {
	f := w.u16(p)
	if tp == 7 {
		return w.context(p)
	} else if tp == 8 {
		return w.chained(p)
	}
	cov := w.covTable(w.offs(p, p+2))
	switch 10*tp + f {
	case 11:
		vf := w.valueFormat(p + 4)
		w.mark("Gpos1_1", p, p+6+valueLen(vf))
		return &gtab.Gpos1_1{Cov: cov, Adjust: w.value(p+6, vf)}
	case 12:
		vf, n := w.valueFormat(p+4), w.u16(p+6)
		w.count("Gpos1_2", n, len(cov))
		w.mark("Gpos1_2", p, p+8+n*valueLen(vf))
		res := &gtab.Gpos1_2{Cov: cov}
		for i := 0; i < n; i++ {
			res.Adjust = append(res.Adjust, w.value(p+8+i*valueLen(vf), vf))
		}
		return res
	case 21:
		f1, f2, n := w.valueFormat(p+4), w.valueFormat(p+6), w.u16(p+8)
		w.count("Gpos2_1", n, len(cov))
		w.mark("Gpos2_1", p, p+10+2*n)
		l1, l2 := valueLen(f1), valueLen(f2)
		res := gtab.Gpos2_1{}
		for _, g := range cov.Glyphs() {
			o := w.offs(p, p+10+2*cov[g])
			k := w.u16(o)
			w.mark("pairSet", o, o+2+k*(2+l1+l2))
			prev := -1
			for j := 0; j < k; j++ {
				q := o + 2 + j*(2+l1+l2)
				g2 := w.u16(q)
				if g2 <= prev {
					w.fail("pair set at %d not sorted", o)
				}
				prev = g2
				res[glyph.Pair{Left: g, Right: glyph.ID(g2)}] = &gtab.PairAdjust{
					First: w.value(q+2, f1), Second: w.value(q+2+l1, f2)}
			}
		}
		return res
	case 22:
		f1, f2 := w.valueFormat(p+4), w.valueFormat(p+6)
		res := &gtab.Gpos2_2{
			Cov: cov.ToSet(), Class1: w.classDef(w.offs(p, p+8)), Class2: w.classDef(w.offs(p, p+10))}
		n1, n2 := w.u16(p+12), w.u16(p+14)
		l1, l2 := valueLen(f1), valueLen(f2)
		w.mark("Gpos2_2", p, p+16+n1*n2*(l1+l2))
		res.Adjust = make([][]*gtab.PairAdjust, n1)
		q := p + 16
		for i := range res.Adjust {
			for j := 0; j < n2; j++ {
				res.Adjust[i] = append(res.Adjust[i], &gtab.PairAdjust{First: w.value(q, f1), Second: w.value(q+l1, f2)})
				q += l1 + l2
			}
		}
		return res
	case 31:
		n := w.u16(p + 4)
		w.count("Gpos3_1", n, len(cov))
		w.mark("Gpos3_1", p, p+6+4*n)
		res := &gtab.Gpos3_1{Cov: cov}
		for i := 0; i < n; i++ {
			res.Records = append(res.Records, gtab.EntryExitRecord{
				Entry: w.anchor(p, p+6+4*i), Exit: w.anchor(p, p+8+4*i)})
		}
		return res
	case 41, 51, 61:
		cov2 := w.covTable(w.offs(p, p+4))
		nc := w.u16(p + 6)
		w.mark("Gpos4_1/5_1/6_1", p, p+12)
		mm := w.marks(w.offs(p, p+8), nc, len(cov))
		q := w.offs(p, p+10)
		w.count("base array", w.u16(q), len(cov2))
		switch tp {
		case 4:
			return &gtab.Gpos4_1{MarkCov: cov, BaseCov: cov2, MarkArray: mm, BaseArray: w.anchorRows("baseArray", q, nc)}
		case 6:
			return &gtab.Gpos6_1{Mark1Cov: cov, Mark2Cov: cov2, Mark1Array: mm, Mark2Array: w.anchorRows("mark2Array", q, nc)}
		}
		res := &gtab.Gpos5_1{MarkCov: cov, LigCov: cov2, MarkArray: mm}
		n := w.u16(q)
		w.mark("ligatureArray", q, q+2+2*n)
		for i := 0; i < n; i++ {
			res.LigArray = append(res.LigArray, w.anchorRows("ligatureAttach", w.offs(q, q+2+2*i), nc))
		}
		return res
	}
	w.fail("GPOS lookup type %d, format %d", tp, f)
	return nil
}

func (w *gtabWalker) subtable(tp, p int) gtab.Subtable {
	if w.isPos {
		return w.gpos(tp, p)
	}
	return w.gsub(tp, p)
}

func (w *gtabWalker) lookupList(p int) gtab.LookupList {
	ext := 7
	if w.isPos {
		ext = 9
	}
	n := w.u16(p)
	w.mark("lookupList", p, p+2+2*n)
	var res gtab.LookupList
	for i := 0; i < n; i++ {
		q := w.offs(p, p+2+2*i)
		tp, flags, k := w.u16(q), w.u16(q+2), w.u16(q+4)
		l := &gtab.LookupTable{Meta: &gtab.LookupMetaInfo{LookupType: uint16(tp), LookupFlags: gtab.LookupFlags(flags)}}
		end := q + 6 + 2*k
		if flags&0x10 != 0 {
			l.Meta.MarkFilteringSet = uint16(w.u16(end))
			end += 2
		}
		w.mark("lookup", q, end)
		for j := 0; j < k; j++ {
			s := w.offs(q, q+6+2*j)
			if tp == ext {
				w.f.NumExt++
				w.mark("extension", s, s+8)
				if f := w.u16(s); f != 1 {
					w.fail("extension subtable at %d has format %d", s, f)
				}
				tp2 := w.u16(s + 2)
				if j > 0 && uint16(tp2) != l.Meta.LookupType {
					w.fail("lookup %d mixes extension types", i)
				}
				l.Meta.LookupType = uint16(tp2)
				s += w.u16(s+4)<<16 | w.u16(s+6)
				l.Subtables = append(l.Subtables, w.subtable(tp2, s))
				continue
			}
			l.Subtables = append(l.Subtables, w.subtable(tp, s))
		}
		res = append(res, l)
	}
	return res
}

func (w *gtabWalker) tag(pos int) string {
	w.u16(pos + 2)
	return string(w.data[pos : pos+4])
}

func (w *gtabWalker) langSys(p int) LangSys {
	if o := w.u16(p); o != 0 {
		w.fail("language system at %d has lookupOrderOffset %d", p, o)
	}
	n := w.u16(p + 4)
	w.mark("langSys", p, p+6+2*n)
	res := LangSys{Required: w.u16(p + 2)}
	for _, x := range w.words(p+6, n) {
		res.Features = append(res.Features, int(x))
	}
	return res
}

func (w *gtabWalker) scriptList(p int) map[string]map[string]LangSys {
	n := w.u16(p)
	w.mark("scriptList", p, p+2+6*n)
	res := map[string]map[string]LangSys{}
	prev := ""
	for i := 0; i < n; i++ {
		tag := w.tag(p + 2 + 6*i)
		if tag <= prev {
			w.fail("script tags %q, %q not sorted", prev, tag)
		}
		prev = tag
		m := map[string]LangSys{}
		res[tag] = m
		q := w.offs(p, p+6+6*i)
		k := w.u16(q + 2)
		w.mark("script", q, q+4+6*k)
		if o := w.u16(q); o != 0 {
			m[""] = w.langSys(q + o)
		}
		prevLang := ""
		for j := 0; j < k; j++ {
			lang := w.tag(q + 4 + 6*j)
			if lang <= prevLang {
				w.fail("language tags %q, %q of script %q not sorted", prevLang, lang, tag)
			}
			prevLang = lang
			m[lang] = w.langSys(w.offs(q, q+8+6*j))
		}
	}
	return res
}

func (w *gtabWalker) featureList(p int) gtab.FeatureListInfo {
	n := w.u16(p)
	w.mark("featureList", p, p+2+6*n)
	var res gtab.FeatureListInfo
	for i := 0; i < n; i++ {
		f := &gtab.Feature{Tag: w.tag(p + 2 + 6*i)}
		q := w.offs(p, p+6+6*i)
		if o := w.u16(q); o != 0 {
			w.fail("feature at %d has featureParamsOffset %d", q, o)
		}
		k := w.u16(q + 2)
		w.mark("feature", q, q+4+2*k)
		for _, x := range w.words(q+4, k) {
			f.Lookups = append(f.Lookups, gtab.LookupIndex(x))
		}
		res = append(res, f)
	}
	return res
}

func (w *gtabWalker) run(f func()) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(gtabError); ok {
				err = fmt.Errorf("%s", e.msg)
				return
			}
			panic(r)
		}
	}()
	f()
	w.finish()
	return nil
}

// DecodeGtab decodes a GSUB (isPos=false) or GPOS table.
// With lax=true, mark classes may be out of range.
func DecodeGtab(data []byte, isPos, lax bool) (*GtabFile, error) {
	f := &GtabFile{}
	w := &gtabWalker{data: data, isPos: isPos, lax: lax, f: f}
	err := w.run(func() {
		if w.u16(0) != 1 || w.u16(2) != 0 {
			w.fail("version %d.%d", w.u16(0), w.u16(2))
		}
		w.mark("header", 0, 10)
		if o := w.u16(4); o != 0 {
			f.Scripts = w.scriptList(o)
		}
		if o := w.u16(6); o != 0 {
			f.Features = w.featureList(o)
		}
		if o := w.u16(8); o != 0 {
			f.Lookups = w.lookupList(o)
		}
	})
	return f, err
}

// DecodeGdef decodes a GDEF table.
func DecodeGdef(data []byte) (*gdef.Table, error) {
	res := &gdef.Table{}
	w := &gtabWalker{data: data}
	err := w.run(func() {
		minor := w.u16(2)
		if w.u16(0) != 1 || minor != 0 && minor != 2 {
			w.fail("version %d.%d", w.u16(0), minor)
		}
		n := 12
		if minor == 2 {
			n = 14
		}
		w.mark("header", 0, n)
		if w.u16(6) != 0 || w.u16(8) != 0 {
			w.fail("unexpected AttachList or LigCaretList")
		}
		if o := w.u16(4); o != 0 {
			res.GlyphClass = w.classDef(o)
		}
		if o := w.u16(10); o != 0 {
			res.MarkAttachClass = w.classDef(o)
		}
		if minor == 2 && w.u16(12) != 0 {
			p := w.u16(12)
			if f := w.u16(p); f != 1 {
				w.fail("mark glyph sets have format %d", f)
			}
			k := w.u16(p + 2)
			w.mark("markGlyphSets", p, p+4+4*k)
			for i := 0; i < k; i++ {
				o := w.u16(p+4+4*i)<<16 | w.u16(p+6+4*i)
				res.MarkGlyphSets = append(res.MarkGlyphSets, w.covSet(p+o))
			}
		}
	})
	return res, err
}

// DecodeCoverage decodes a stand-alone coverage table.
func DecodeCoverage(data []byte) (gg []glyph.ID, err error) {
	w := &gtabWalker{data: data}
	err = w.run(func() { gg = w.coverage(0) })
	return gg, err
}

// DecodeClassDef decodes a stand-alone class definition table.
func DecodeClassDef(data []byte) (c classdef.Table, err error) {
	w := &gtabWalker{data: data}
	err = w.run(func() { c = w.classDef(0) })
	return c, err
}

// valuesLen returns the size of each of the value records, when these are
// written with a common format.
func valuesLen(vv ...*gtab.GposValueRecord) int {
	format := 0
	for _, v := range vv {
		if v == nil {
			continue
		}
		f := 0
		for i, x := range []bool{v.XPlacement != 0, v.YPlacement != 0, v.XAdvance != 0, v.YAdvance != 0,
			v.XPlacementDevOffs != 0, v.YPlacementDevOffs != 0, v.XAdvanceDevOffs != 0, v.YAdvanceDevOffs != 0} {
			if x {
				f |= 1 << i
			}
		}
		if f == 0 {
			f = 4 // a record of zeros is written with an explicit advance
		}
		format |= f
	}
	return valueLen(format)
}

func seqLen[T any](n int, seqs [][]T) int {
	for _, s := range seqs {
		n += 4 + 2*len(s)
	}
	return n
}

// GtabSubtableSize returns the size of a subtable, if nothing is shared.
func GtabSubtableSize(s gtab.Subtable) int {
	cov := func(c coverage.Table) int { return CoverageSize(c.Glyphs()) }
	set := func(c coverage.Set) int { return CoverageSize(c.Glyphs()) }
	anch := func(a anchor.Table) int {
		if a == (anchor.Table{}) {
			return 0
		}
		return 6
	}
	marks := func(mm []markarray.Record) int {
		return 2 + 10*len(mm) // the anchors are not optional
	}
	rows := func(rr [][]anchor.Table) int {
		n := 2
		for _, r := range rr {
			for _, a := range r {
				n += 2 + anch(a)
			}
		}
		return n
	}
	switch s := s.(type) {
	case *gtab.SeqContext1:
		n := 6 + cov(s.Cov)
		for _, rr := range s.Rules {
			n += 4
			for _, r := range rr {
				n += 2 + 4 + 2*len(r.Input) + 4*len(r.Actions)
			}
		}
		return n
	case *gtab.SeqContext2:
		n := 8 + cov(s.Cov) + ClassDefSize(s.Input)
		for _, rr := range s.Rules {
			n += 4
			for _, r := range rr {
				n += 2 + 4 + 2*len(r.Input) + 4*len(r.Actions)
			}
		}
		return n
	case *gtab.SeqContext3:
		n := 6 + 4*len(s.Actions)
		for _, c := range s.Input {
			n += 2 + set(c)
		}
		return n
	case *gtab.ChainedSeqContext1:
		n := 6 + cov(s.Cov)
		for _, rr := range s.Rules {
			n += 4
			for _, r := range rr {
				n += 2 + 8 + 2*(len(r.Input)+len(r.Backtrack)+len(r.Lookahead)) + 4*len(r.Actions)
			}
		}
		return n
	case *gtab.ChainedSeqContext2:
		n := 12 + cov(s.Cov) + ClassDefSize(s.Input) + ClassDefSize(s.Backtrack) + ClassDefSize(s.Lookahead)
		for _, rr := range s.Rules {
			n += 4
			for _, r := range rr {
				n += 2 + 8 + 2*(len(r.Input)+len(r.Backtrack)+len(r.Lookahead)) + 4*len(r.Actions)
			}
		}
		return n
	case *gtab.ChainedSeqContext3:
		n := 10 + 4*len(s.Actions)
		for _, l := range [][]coverage.Set{s.Backtrack, s.Input, s.Lookahead} {
			for _, c := range l {
				n += 2 + set(c)
			}
		}
		return n
	case *gtab.Gsub1_1:
		return 6 + set(s.Cov)
	case *gtab.Gsub1_2:
		return 6 + cov(s.Cov) + 2*len(s.SubstituteGlyphIDs)
	case *gtab.Gsub2_1:
		return seqLen(6+cov(s.Cov), s.Repl)
	case *gtab.Gsub3_1:
		return seqLen(6+cov(s.Cov), s.Alternates)
	case *gtab.Gsub4_1:
		n := 6 + cov(s.Cov)
		for _, rr := range s.Repl {
			n += 4
			for _, r := range rr {
				n += 2 + 4 + 2*len(r.In)
			}
		}
		return n
	case *gtab.Gsub8_1:
		n := 10 + cov(s.Input) + 2*len(s.SubstituteGlyphIDs)
		for _, l := range [][]coverage.Table{s.Backtrack, s.Lookahead} {
			for _, c := range l {
				n += 2 + cov(c)
			}
		}
		return n
	case *gtab.Gpos1_1:
		return 6 + cov(s.Cov) + valuesLen(s.Adjust)
	case *gtab.Gpos1_2:
		return 8 + cov(s.Cov) + len(s.Adjust)*valuesLen(s.Adjust...)
	case gtab.Gpos2_1:
		left := coverage.Set{}
		var v1, v2 []*gtab.GposValueRecord
		for p, a := range s {
			left[p.Left] = true
			v1, v2 = append(v1, a.First), append(v2, a.Second)
		}
		return 10 + 4*len(left) + set(left) + len(s)*(2+valuesLen(v1...)+valuesLen(v2...))
	case *gtab.Gpos2_2:
		n := 16 + set(s.Cov) + ClassDefSize(s.Class1) + ClassDefSize(s.Class2)
		var v1, v2 []*gtab.GposValueRecord
		for _, r := range s.Adjust {
			for _, a := range r {
				v1, v2 = append(v1, a.First), append(v2, a.Second)
			}
		}
		return n + len(v1)*(valuesLen(v1...)+valuesLen(v2...))
	case *gtab.Gpos3_1:
		n := 6 + cov(s.Cov)
		for _, r := range s.Records {
			n += 4 + anch(r.Entry) + anch(r.Exit)
		}
		return n
	case *gtab.Gpos4_1:
		return 12 + cov(s.MarkCov) + cov(s.BaseCov) + marks(s.MarkArray) + rows(s.BaseArray)
	case *gtab.Gpos6_1:
		return 12 + cov(s.Mark1Cov) + cov(s.Mark2Cov) + marks(s.Mark1Array) + rows(s.Mark2Array)
	case *gtab.Gpos5_1:
		n := 14 + cov(s.MarkCov) + cov(s.LigCov) + marks(s.MarkArray)
		for _, l := range s.LigArray {
			n += 2 + rows(l)
		}
		return n
	}
	panic(fmt.Sprintf("HARNESS-ERROR: unknown subtable %T", s))
}
