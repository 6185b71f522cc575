package gen

import (
	"fmt"
	"sort"
	"strings"

	"pgregory.net/rapid"

	"seehuhn.de/go/postscript/funit"

	"seehuhn.de/go/sfnt/glyph"
	"seehuhn.de/go/sfnt/opentype/anchor"
	"seehuhn.de/go/sfnt/opentype/classdef"
	"seehuhn.de/go/sfnt/opentype/coverage"
	"seehuhn.de/go/sfnt/opentype/gdef"
	"seehuhn.de/go/sfnt/opentype/gtab"
	"seehuhn.de/go/sfnt/opentype/markarray"
)

// GtabOpts describes the lookups to generate.
type GtabOpts struct {
	Glyphs []glyph.ID  // the glyphs to use
	Gdef   *gdef.Table // used to choose lookup flags
	Gpos   bool        // GPOS instead of GSUB
	Types  []uint16    // the lookup types to use (nil = all)

	// Wild allows structures which a reader can deliver, but which do not
	// make sense: indices out of range, empty lists, and so on.
	Wild bool

	// WellFormed restricts the structures to those which can be written
	// and read back unchanged (no trailing empty rule sets etc.).
	WellFormed bool

	NumLookups int // total number of lookups, for nested actions
	MaxSub     int // maximal number of subtables per lookup (default 3)
}

func (o *GtabOpts) gid(t *rapid.T) glyph.ID {
	return rapid.SampledFrom(o.Glyphs).Draw(t, "gid")
}

func (o *GtabOpts) gids(t *rapid.T, lo, hi int) []glyph.ID {
	n := rapid.IntRange(lo, hi).Draw(t, "n")
	res := make([]glyph.ID, n)
	for i := range res {
		res[i] = o.gid(t)
	}
	return res
}

// Set draws a set of glyphs.
func (o *GtabOpts) Set(t *rapid.T, minSize int) coverage.Set {
	res := coverage.Set{}
	if len(o.Glyphs) <= 12 {
		mask := rapid.IntRange(0, 1<<len(o.Glyphs)-1).Draw(t, "set")
		for i, g := range o.Glyphs {
			if mask>>i&1 != 0 {
				res[g] = true
			}
		}
	} else {
		n := rapid.IntRange(0, 12).Draw(t, "setSize")
		for i := 0; i < n; i++ {
			res[o.gid(t)] = true
		}
		if rapid.IntRange(0, 3).Draw(t, "runs") == 0 {
			a := int(o.gid(t))
			for k := rapid.IntRange(1, 30).Draw(t, "runLen"); k > 0 && a <= 0xFFFF; k-- {
				res[glyph.ID(a)] = true
				a++
			}
		}
	}
	for len(res) < minSize {
		res[o.gid(t)] = true
	}
	return res
}

func (o *GtabOpts) minCov(t *rapid.T) int {
	if o.Wild {
		return 0
	}
	return 1
}

func (o *GtabOpts) cov(t *rapid.T) (coverage.Table, []glyph.ID) {
	s := o.Set(t, o.minCov(t))
	return s.ToTable(), s.Glyphs()
}

// Classes draws a class definition table with classes 0 .. maxClass.
func (o *GtabOpts) Classes(t *rapid.T, maxClass int) classdef.Table {
	res := classdef.Table{}
	if len(o.Glyphs) <= 12 {
		for _, g := range o.Glyphs {
			if c := rapid.IntRange(0, maxClass).Draw(t, "class"); c > 0 {
				res[g] = uint16(c)
			}
		}
		return res
	}
	for n := rapid.IntRange(0, 10).Draw(t, "nClassRuns"); n > 0; n-- {
		g := int(o.gid(t))
		c := rapid.IntRange(1, max(1, maxClass)).Draw(t, "class")
		for k := rapid.SampledFrom([]int{1, 1, 1, 2, 3, 7, 20}).Draw(t, "runLen"); k > 0 && g <= 0xFFFF; k-- {
			res[glyph.ID(g)] = uint16(c)
			g++
		}
	}
	return res
}

// Gdef draws a GDEF table, or nil.
func (o *GtabOpts) DrawGdef(t *rapid.T) *gdef.Table {
	switch rapid.IntRange(0, 15).Draw(t, "gdef") {
	case 0:
		return nil
	case 1:
		return &gdef.Table{}
	}
	res := &gdef.Table{GlyphClass: classdef.Table{}}
	for _, g := range o.Glyphs {
		c := rapid.SampledFrom([]int{0, 1, 1, 2, 3, 3, 3, 4}).Draw(t, "glyphClass")
		if c > 0 {
			res.GlyphClass[g] = uint16(c)
		}
	}
	if rapid.IntRange(0, 3).Draw(t, "attach") > 0 {
		res.MarkAttachClass = o.Classes(t, 3)
	}
	if n := rapid.IntRange(0, 3).Draw(t, "nSets"); n > 0 {
		for ; n > 0; n-- {
			res.MarkGlyphSets = append(res.MarkGlyphSets, o.Set(t, 0))
		}
	}
	return res
}

// Meta draws the flags for a lookup.
func (o *GtabOpts) Meta(t *rapid.T, tp uint16) *gtab.LookupMetaInfo {
	m := &gtab.LookupMetaInfo{LookupType: tp}
	if rapid.IntRange(0, 2).Draw(t, "flagged") == 0 {
		return m
	}
	m.LookupFlags = gtab.LookupFlags(rapid.SampledFrom([]int{0, 2, 4, 8, 8, 8, 0, 0, 6, 10, 12, 1, 9, 14}).Draw(t, "flags"))
	if o.Wild && rapid.IntRange(0, 9).Draw(t, "wildFlags") == 0 {
		m.LookupFlags = gtab.LookupFlags(rapid.Uint16().Draw(t, "flagBits"))
	}
	nSets := 0
	if o.Gdef != nil {
		nSets = len(o.Gdef.MarkGlyphSets)
	}
	if nSets > 0 && rapid.IntRange(0, 2).Draw(t, "useSet") == 0 {
		m.LookupFlags |= gtab.UseMarkFilteringSet
	}
	if rapid.IntRange(0, 3).Draw(t, "useAttach") == 0 {
		m.LookupFlags |= gtab.LookupFlags(rapid.IntRange(1, 3).Draw(t, "attachType") << 8)
	}
	if o.Wild && rapid.IntRange(0, 4).Draw(t, "wildSet") == 0 {
		m.LookupFlags |= gtab.UseMarkFilteringSet
	}
	if m.LookupFlags&gtab.UseMarkFilteringSet != 0 {
		if o.Wild || nSets == 0 {
			m.MarkFilteringSet = uint16(rapid.SampledFrom([]int{0, 1, 2, 3, 4, 65535}).Draw(t, "wildSetIdx"))
		} else {
			m.MarkFilteringSet = uint16(rapid.IntRange(0, nSets-1).Draw(t, "setIdx"))
		}
	}
	return m
}

func (o *GtabOpts) actions(t *rapid.T, inputLen int) []gtab.SeqLookup {
	n := rapid.SampledFrom([]int{0, 1, 1, 2, 2, 3, 4}).Draw(t, "nActions")
	if o.Wild && rapid.IntRange(0, 19).Draw(t, "manyActions") == 0 {
		n = rapid.IntRange(5, 80).Draw(t, "nActions2")
	}
	res := make([]gtab.SeqLookup, n)
	for i := range res {
		res[i].SequenceIndex = uint16(rapid.IntRange(0, inputLen+1).Draw(t, "seqIdx"))
		if inputLen > 0 && rapid.Bool().Draw(t, "inRange") {
			res[i].SequenceIndex = uint16(rapid.IntRange(0, inputLen-1).Draw(t, "seqIdx2"))
		}
		res[i].LookupListIndex = gtab.LookupIndex(rapid.IntRange(0, max(0, o.NumLookups-1)).Draw(t, "lookupIdx"))
		if o.Wild && rapid.IntRange(0, 9).Draw(t, "wildAction") == 0 {
			res[i].SequenceIndex = uint16(rapid.SampledFrom([]int{0, 1, 5, 100, 65535}).Draw(t, "wildSeq"))
			res[i].LookupListIndex = gtab.LookupIndex(rapid.SampledFrom([]int{0, 5, 100, 65535}).Draw(t, "wildLookup"))
		}
	}
	return res
}

func drawVal(t *rapid.T) funit.Int16 {
	return funit.Int16(rapid.SampledFrom([]int{0, 1, -1, 7, -30, 100, 250}).Draw(t, "v"))
}

// ValueRecord draws a value record.
func (o *GtabOpts) ValueRecord(t *rapid.T, format int) *gtab.GposValueRecord {
	if format == 0 {
		return nil
	}
	v := &gtab.GposValueRecord{}
	if format&1 != 0 {
		v.XPlacement = drawVal(t)
	}
	if format&2 != 0 {
		v.YPlacement = drawVal(t)
	}
	if format&4 != 0 {
		v.XAdvance = drawVal(t)
	}
	if o.WellFormed {
		if format&8 != 0 {
			v.YAdvance = drawVal(t)
		}
		if format&16 != 0 {
			v.XPlacementDevOffs = uint16(rapid.IntRange(0, 3000).Draw(t, "dev"))
		}
		if format&32 != 0 {
			v.YPlacementDevOffs = uint16(rapid.IntRange(0, 3000).Draw(t, "dev"))
		}
		if format&64 != 0 {
			v.XAdvanceDevOffs = uint16(rapid.IntRange(0, 3000).Draw(t, "dev"))
		}
		if format&128 != 0 {
			v.YAdvanceDevOffs = uint16(rapid.IntRange(0, 3000).Draw(t, "dev"))
		}
	}
	return v
}

func (o *GtabOpts) valueFormat(t *rapid.T) int {
	if o.WellFormed && rapid.IntRange(0, 3).Draw(t, "fullFormat") == 0 {
		return rapid.IntRange(0, 255).Draw(t, "format")
	}
	return rapid.IntRange(0, 7).Draw(t, "format")
}

// value records with a common format
func (o *GtabOpts) anchor(t *rapid.T) anchor.Table {
	if rapid.IntRange(0, 7).Draw(t, "noAnchor") == 0 {
		return anchor.Table{}
	}
	a := anchor.Table{
		X: funit.Int16(rapid.IntRange(-50, 300).Draw(t, "ax")),
		Y: funit.Int16(rapid.IntRange(-50, 300).Draw(t, "ay")),
	}
	return a
}

func (o *GtabOpts) marks(t *rapid.T, n, numClasses int) []markarray.Record {
	res := make([]markarray.Record, n)
	for i := range res {
		res[i].Table = o.anchor(t)
		res[i].Class = uint16(rapid.IntRange(0, numClasses-1).Draw(t, "markClass"))
		if o.Wild && rapid.IntRange(0, 9).Draw(t, "wildClass") == 0 {
			res[i].Class = uint16(rapid.SampledFrom([]int{numClasses, 7, 65535}).Draw(t, "wildMarkClass"))
		}
	}
	return res
}

func (o *GtabOpts) anchors(t *rapid.T, n, numClasses int) [][]anchor.Table {
	res := make([][]anchor.Table, n)
	for i := range res {
		res[i] = make([]anchor.Table, numClasses)
		for j := range res[i] {
			res[i][j] = o.anchor(t)
		}
	}
	return res
}

func (o *GtabOpts) classSeq(t *rapid.T, lo, hi, maxClass int) []uint16 {
	n := rapid.IntRange(lo, hi).Draw(t, "nClasses")
	res := make([]uint16, n)
	for i := range res {
		res[i] = uint16(rapid.IntRange(0, maxClass).Draw(t, "cls"))
	}
	return res
}

func (o *GtabOpts) sets(t *rapid.T, lo, hi int) []coverage.Set {
	n := rapid.IntRange(lo, hi).Draw(t, "nSets")
	res := make([]coverage.Set, n)
	for i := range res {
		res[i] = o.Set(t, o.minCov(t))
	}
	return res
}

// Subtable draws a subtable for a lookup of type tp.
func (o *GtabOpts) Subtable(t *rapid.T, tp uint16) gtab.Subtable {
	format := 0
	pick := func(n int) int {
		format = rapid.IntRange(1, n).Draw(t, "subtableFormat")
		return format
	}
	ctx := tp
	if o.Gpos {
		ctx -= 2
	}
	isCtx := !o.Gpos && (tp == 5 || tp == 6) || o.Gpos && (tp == 7 || tp == 8)
	switch {
	case isCtx && ctx == 5:
		switch pick(3) {
		case 1:
			cov, gg := o.cov(t)
			rules := make([][]*gtab.SeqRule, len(gg))
			for i := range rules {
				n := rapid.IntRange(0, 3).Draw(t, "nRules")
				for ; n > 0; n-- {
					in := o.gids(t, 0, 3)
					rules[i] = append(rules[i], &gtab.SeqRule{Input: in, Actions: o.actions(t, len(in)+1)})
				}
			}
			return &gtab.SeqContext1{Cov: cov, Rules: rules}
		case 2:
			cov, _ := o.cov(t)
			maxClass := rapid.IntRange(0, 3).Draw(t, "maxClass")
			res := &gtab.SeqContext2{Cov: cov, Input: o.Classes(t, maxClass)}
			nc := res.Input.NumClasses()
			if !o.WellFormed && rapid.IntRange(0, 3).Draw(t, "short") == 0 {
				nc = rapid.IntRange(0, nc).Draw(t, "numRuleSets")
			}
			res.Rules = make([][]*gtab.ClassSeqRule, nc)
			for i := range res.Rules {
				for n := rapid.IntRange(0, 3).Draw(t, "nRules"); n > 0; n-- {
					in := o.classSeq(t, 0, 3, maxClass)
					res.Rules[i] = append(res.Rules[i], &gtab.ClassSeqRule{Input: in, Actions: o.actions(t, len(in)+1)})
				}
			}
			return res
		default:
			in := o.sets(t, 1, 4)
			return &gtab.SeqContext3{Input: in, Actions: o.actions(t, len(in))}
		}
	case isCtx && ctx == 6:
		switch pick(3) {
		case 1:
			cov, gg := o.cov(t)
			rules := make([][]*gtab.ChainedSeqRule, len(gg))
			for i := range rules {
				for n := rapid.IntRange(0, 3).Draw(t, "nRules"); n > 0; n-- {
					in := o.gids(t, 0, 2)
					rules[i] = append(rules[i], &gtab.ChainedSeqRule{
						Backtrack: o.gids(t, 0, 2), Input: in, Lookahead: o.gids(t, 0, 2),
						Actions: o.actions(t, len(in)+1)})
				}
			}
			return &gtab.ChainedSeqContext1{Cov: cov, Rules: rules}
		case 2:
			cov, _ := o.cov(t)
			maxClass := rapid.IntRange(0, 3).Draw(t, "maxClass")
			res := &gtab.ChainedSeqContext2{
				Cov: cov, Backtrack: o.Classes(t, 2), Input: o.Classes(t, maxClass), Lookahead: o.Classes(t, 2)}
			nc := res.Input.NumClasses()
			if !o.WellFormed && rapid.IntRange(0, 3).Draw(t, "short") == 0 {
				nc = rapid.IntRange(0, nc).Draw(t, "numRuleSets")
			}
			res.Rules = make([][]*gtab.ChainedClassSeqRule, nc)
			for i := range res.Rules {
				for n := rapid.IntRange(0, 3).Draw(t, "nRules"); n > 0; n-- {
					in := o.classSeq(t, 0, 2, maxClass)
					res.Rules[i] = append(res.Rules[i], &gtab.ChainedClassSeqRule{
						Backtrack: o.classSeq(t, 0, 2, 2), Input: in, Lookahead: o.classSeq(t, 0, 2, 2),
						Actions: o.actions(t, len(in)+1)})
				}
			}
			return res
		default:
			in := o.sets(t, 1, 3)
			return &gtab.ChainedSeqContext3{
				Backtrack: o.sets(t, 0, 2), Input: in, Lookahead: o.sets(t, 0, 2),
				Actions: o.actions(t, len(in))}
		}
	}

	if o.Gpos {
		switch tp {
		case 1:
			cov, gg := o.cov(t)
			f := o.valueFormat(t)
			if pick(2) == 1 {
				return &gtab.Gpos1_1{Cov: cov, Adjust: o.ValueRecord(t, f)}
			}
			adj := make([]*gtab.GposValueRecord, len(gg))
			for i := range adj {
				adj[i] = o.ValueRecord(t, f)
			}
			return &gtab.Gpos1_2{Cov: cov, Adjust: adj}
		case 2:
			f1, f2 := o.valueFormat(t), 0
			if rapid.Bool().Draw(t, "second") {
				f2 = o.valueFormat(t)
			}
			if pick(2) == 1 {
				res := gtab.Gpos2_1{}
				lo := 1
				if o.Wild {
					lo = 0
				}
				for n := rapid.IntRange(lo, 6).Draw(t, "nPairs"); n > 0; n-- {
					res[glyph.Pair{Left: o.gid(t), Right: o.gid(t)}] = &gtab.PairAdjust{
						First: o.ValueRecord(t, f1), Second: o.ValueRecord(t, f2)}
				}
				return res
			}
			c1, c2 := rapid.IntRange(0, 3).Draw(t, "c1"), rapid.IntRange(0, 3).Draw(t, "c2")
			res := &gtab.Gpos2_2{Cov: o.Set(t, o.minCov(t)), Class1: o.Classes(t, c1), Class2: o.Classes(t, c2)}
			n1, n2 := c1+1, c2+1
			if !o.WellFormed && rapid.IntRange(0, 3).Draw(t, "short") == 0 {
				n1, n2 = rapid.IntRange(0, n1).Draw(t, "n1"), rapid.IntRange(0, n2).Draw(t, "n2")
			}
			res.Adjust = make([][]*gtab.PairAdjust, n1)
			for i := range res.Adjust {
				res.Adjust[i] = make([]*gtab.PairAdjust, n2)
				for j := range res.Adjust[i] {
					res.Adjust[i][j] = &gtab.PairAdjust{First: o.ValueRecord(t, f1), Second: o.ValueRecord(t, f2)}
				}
			}
			return res
		case 3:
			cov, gg := o.cov(t)
			rec := make([]gtab.EntryExitRecord, len(gg))
			for i := range rec {
				rec[i] = gtab.EntryExitRecord{Entry: o.anchor(t), Exit: o.anchor(t)}
			}
			return &gtab.Gpos3_1{Cov: cov, Records: rec}
		case 5:
			mc, mg := o.cov(t)
			lc, lg := o.cov(t)
			nc := rapid.IntRange(1, 3).Draw(t, "nMarkClasses")
			res := &gtab.Gpos5_1{MarkCov: mc, LigCov: lc, MarkArray: o.marks(t, len(mg), nc)}
			for range lg {
				res.LigArray = append(res.LigArray, o.anchors(t, rapid.IntRange(0, 3).Draw(t, "nComponents"), nc))
			}
			return res
		case 4, 6:
			mc, mg := o.cov(t)
			bc, bg := o.cov(t)
			nc := rapid.IntRange(1, 3).Draw(t, "nMarkClasses")
			if o.Wild && rapid.IntRange(0, 9).Draw(t, "noClasses") == 0 {
				nc = 0
			}
			marks, bases := o.marks(t, len(mg), max(1, nc)), o.anchors(t, len(bg), nc)
			if tp == 4 {
				return &gtab.Gpos4_1{MarkCov: mc, BaseCov: bc, MarkArray: marks, BaseArray: bases}
			}
			return &gtab.Gpos6_1{Mark1Cov: mc, Mark2Cov: bc, Mark1Array: marks, Mark2Array: bases}
		}
		panic(fmt.Sprintf("HARNESS-ERROR: GPOS type %d", tp))
	}

	cov, gg := o.cov(t)
	switch tp {
	case 1:
		if pick(2) == 1 {
			delta := rapid.IntRange(-3, 3).Draw(t, "delta")
			if o.Wild && rapid.Bool().Draw(t, "bigDelta") {
				delta = rapid.IntRange(0, 65535).Draw(t, "delta2")
			}
			return &gtab.Gsub1_1{Cov: cov.ToSet(), Delta: glyph.ID(delta)}
		}
		return &gtab.Gsub1_2{Cov: cov, SubstituteGlyphIDs: o.gids(t, len(gg), len(gg))}
	case 2, 3:
		repl := make([][]glyph.ID, len(gg))
		lo := 1
		if o.Wild || tp == 3 {
			lo = 0
		}
		for i := range repl {
			repl[i] = o.gids(t, lo, 4)
		}
		if tp == 2 {
			return &gtab.Gsub2_1{Cov: cov, Repl: repl}
		}
		return &gtab.Gsub3_1{Cov: cov, Alternates: repl}
	case 4:
		repl := make([][]gtab.Ligature, len(gg))
		for i := range repl {
			for n := rapid.IntRange(0, 4).Draw(t, "nLigs"); n > 0; n-- {
				in := o.gids(t, 0, 3)
				if k := len(repl[i]); k > 0 && rapid.IntRange(0, 2).Draw(t, "variant") > 0 {
					// vary an earlier ligature
					prev := repl[i][rapid.IntRange(0, k-1).Draw(t, "prevLig")].In
					in = append([]glyph.ID{}, prev...)
					switch {
					case len(in) > 0 && rapid.Bool().Draw(t, "cut"):
						in = in[:len(in)-1]
					case len(in) > 0 && rapid.Bool().Draw(t, "change"):
						in[len(in)-1] = o.gid(t)
					default:
						in = append(in, o.gid(t))
					}
				}
				repl[i] = append(repl[i], gtab.Ligature{In: in, Out: o.gid(t)})
			}
			if repl[i] == nil {
				repl[i] = []gtab.Ligature{}
			}
		}
		return &gtab.Gsub4_1{Cov: cov, Repl: repl}
	case 8:
		return &gtab.Gsub8_1{
			Input: cov, SubstituteGlyphIDs: o.gids(t, len(gg), len(gg)),
			Backtrack: toTables(o.sets(t, 0, 2)), Lookahead: toTables(o.sets(t, 0, 2)),
		}
	}
	panic(fmt.Sprintf("HARNESS-ERROR: GSUB type %d", tp))
}

func toTables(ss []coverage.Set) []coverage.Table {
	res := make([]coverage.Table, len(ss))
	for i, s := range ss {
		res[i] = s.ToTable()
	}
	return res
}

// Lookup draws a lookup.
func (o *GtabOpts) Lookup(t *rapid.T) *gtab.LookupTable {
	types := o.Types
	if types == nil {
		types = []uint16{1, 2, 3, 4, 4, 5, 5, 6, 6, 8}
		if o.Gpos {
			types = []uint16{1, 2, 4, 6, 7, 8}
		}
	}
	tp := rapid.SampledFrom(types).Draw(t, "lookupType")
	l := &gtab.LookupTable{Meta: o.Meta(t, tp)}
	lo, hi := 1, o.MaxSub
	if hi == 0 {
		hi = 3
	}
	if o.Wild {
		lo = 0
	}
	for n := rapid.SampledFrom([]int{lo, 1, 1, 2, hi}).Draw(t, "nSubtables"); n > 0; n-- {
		l.Subtables = append(l.Subtables, o.Subtable(t, tp))
	}
	return l
}

// LookupList draws a lookup list.
func (o *GtabOpts) LookupList(t *rapid.T, lo, hi int) gtab.LookupList {
	o.NumLookups = rapid.IntRange(lo, hi).Draw(t, "nLookups")
	ll := make(gtab.LookupList, o.NumLookups)
	for i := range ll {
		ll[i] = o.Lookup(t)
	}
	return ll
}

// FormatLookups returns a readable description of a lookup list.
func FormatLookups(ll gtab.LookupList) string {
	var b strings.Builder
	for i, l := range ll {
		fmt.Fprintf(&b, "lookup %d: type %d flags %#x set %d\n", i, l.Meta.LookupType, l.Meta.LookupFlags, l.Meta.MarkFilteringSet)
		for _, s := range l.Subtables {
			fmt.Fprintf(&b, "    %s\n", FormatSubtable(s))
		}
	}
	return b.String()
}

// FormatSubtable returns a readable description of a subtable.
func FormatSubtable(s gtab.Subtable) string {
	switch s := s.(type) {
	case *gtab.SeqContext1:
		var rr []string
		for g, i := range s.Cov {
			for j, r := range s.Rules[i] {
				rr = append(rr, fmt.Sprintf("%d#%d: %v -> %v", g, j, r.Input, r.Actions))
			}
		}
		sort.Strings(rr)
		return fmt.Sprintf("SeqContext1 {%s}", strings.Join(rr, "; "))
	case *gtab.SeqContext2:
		var rr []string
		for i := range s.Rules {
			for j, r := range s.Rules[i] {
				rr = append(rr, fmt.Sprintf("class %d#%d: %v -> %v", i, j, r.Input, r.Actions))
			}
		}
		return fmt.Sprintf("SeqContext2 cov=%v classes=%v {%s}", s.Cov.Glyphs(), s.Input, strings.Join(rr, "; "))
	case *gtab.ChainedSeqContext1:
		var rr []string
		for g, i := range s.Cov {
			for j, r := range s.Rules[i] {
				rr = append(rr, fmt.Sprintf("%d#%d: %v|%v|%v -> %v", g, j, r.Backtrack, r.Input, r.Lookahead, r.Actions))
			}
		}
		sort.Strings(rr)
		return fmt.Sprintf("ChainedSeqContext1 {%s}", strings.Join(rr, "; "))
	case *gtab.ChainedSeqContext2:
		var rr []string
		for i := range s.Rules {
			for j, r := range s.Rules[i] {
				rr = append(rr, fmt.Sprintf("class %d#%d: %v|%v|%v -> %v", i, j, r.Backtrack, r.Input, r.Lookahead, r.Actions))
			}
		}
		return fmt.Sprintf("ChainedSeqContext2 cov=%v classes=%v|%v|%v {%s}", s.Cov.Glyphs(), s.Backtrack, s.Input, s.Lookahead, strings.Join(rr, "; "))
	case *gtab.Gpos1_2:
		var rr []string
		for g, i := range s.Cov {
			rr = append(rr, fmt.Sprintf("%d:%v", g, s.Adjust[i]))
		}
		sort.Strings(rr)
		return fmt.Sprintf("Gpos1_2 {%s}", strings.Join(rr, "; "))
	case gtab.Gpos2_1:
		var rr []string
		for g, a := range s {
			rr = append(rr, fmt.Sprintf("%d+%d:(%v)(%v)", g.Left, g.Right, a.First, a.Second))
		}
		sort.Strings(rr)
		return fmt.Sprintf("Gpos2_1 {%s}", strings.Join(rr, "; "))
	case *gtab.Gpos2_2:
		var rr []string
		for i, row := range s.Adjust {
			for j, a := range row {
				rr = append(rr, fmt.Sprintf("%d,%d:(%v)(%v)", i, j, a.First, a.Second))
			}
		}
		return fmt.Sprintf("Gpos2_2 cov=%v class1=%v class2=%v {%s}", s.Cov.Glyphs(), s.Class1, s.Class2, strings.Join(rr, "; "))
	case *gtab.Gpos1_1:
		return fmt.Sprintf("Gpos1_1 %v: %v", s.Cov.Glyphs(), s.Adjust)
	}
	return strings.TrimPrefix(fmt.Sprintf("%T%+v", s, s), "*gtab.")
}
