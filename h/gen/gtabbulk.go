package gen

import (
	"fmt"
	"math/rand/v2"
	"slices"

	"seehuhn.de/go/postscript/funit"

	"seehuhn.de/go/sfnt/glyph"
	"seehuhn.de/go/sfnt/opentype/anchor"
	"seehuhn.de/go/sfnt/opentype/classdef"
	"seehuhn.de/go/sfnt/opentype/coverage"
	"seehuhn.de/go/sfnt/opentype/gtab"
	"seehuhn.de/go/sfnt/opentype/markarray"
)

// Bulk generates lookup subtables of a given size quickly, from a seed.
type Bulk struct {
	*rand.Rand
	Gpos bool
}

// NewBulk returns a new generator.
func NewBulk(seed uint64, gpos bool) *Bulk {
	return &Bulk{Rand: rand.New(rand.NewPCG(seed, 17)), Gpos: gpos}
}

// Glyphs returns n different glyphs, in increasing order.
func (b *Bulk) Glyphs(n int) []glyph.ID {
	n = min(n, 65536)
	res := make([]glyph.ID, 0, n)
	switch mode := b.IntN(5); {
	case n > 40000 || mode == 0: // one run
		start := b.IntN(65536 - n + 1)
		if b.IntN(3) == 0 {
			start = 65536 - n
		}
		for i := 0; i < n; i++ {
			res = append(res, glyph.ID(start+i))
		}
	case mode == 1 && n <= 32768: // every other glyph
		start := b.IntN(65536 - 2*n + 1)
		for i := 0; i < n; i++ {
			res = append(res, glyph.ID(start+2*i))
		}
	case mode == 2 && n <= 20000: // runs of length about 3, where both coverage formats have similar sizes
		g := b.IntN(10)
		for len(res) < n {
			for k := 2 + b.IntN(3); k > 0 && len(res) < n && g < 65536; k-- {
				res = append(res, glyph.ID(g))
				g++
			}
			g += 1 + b.IntN(2)
			if g >= 65536 {
				break
			}
		}
	default: // random
		seen := make(map[glyph.ID]bool, n)
		limit := 65536
		if mode == 3 {
			limit = min(65536, n+n/2+3)
		}
		for len(seen) < n {
			seen[glyph.ID(b.IntN(limit))] = true
		}
		for g := range seen {
			res = append(res, g)
		}
		slices.Sort(res)
	}
	return res
}

func (b *Bulk) cov(n int) (coverage.Table, int) {
	gg := b.Glyphs(n)
	res := make(coverage.Table, len(gg))
	for i, g := range gg {
		res[g] = i
	}
	return res, len(gg)
}

func (b *Bulk) set(n int) coverage.Set {
	res := make(coverage.Set, n)
	for _, g := range b.Glyphs(n) {
		res[g] = true
	}
	return res
}

func (b *Bulk) gids(n int) []glyph.ID {
	var res []glyph.ID
	for ; n > 0; n-- {
		res = append(res, glyph.ID(b.IntN(65536)))
	}
	return res
}

func (b *Bulk) words(n, limit int) []uint16 {
	var res []uint16
	for ; n > 0; n-- {
		res = append(res, uint16(b.IntN(limit)))
	}
	return res
}

func (b *Bulk) actions(n int) []gtab.SeqLookup {
	var res []gtab.SeqLookup
	for ; n > 0; n-- {
		res = append(res, gtab.SeqLookup{
			SequenceIndex: uint16(b.IntN(65536)), LookupListIndex: gtab.LookupIndex(b.IntN(65536))})
	}
	return res
}

func (b *Bulk) classes(n, numClasses int) classdef.Table {
	res := classdef.Table{}
	c := 0
	run := 1 + b.IntN(5)
	for i, g := range b.Glyphs(n) {
		if i%run == 0 {
			c = b.IntN(numClasses)
		}
		if c > 0 {
			res[g] = uint16(c)
		}
	}
	return res
}

func (b *Bulk) value(format int) *gtab.GposValueRecord {
	if format == 0 {
		return nil
	}
	v := &gtab.GposValueRecord{}
	for i, p := range []*funit.Int16{&v.XPlacement, &v.YPlacement, &v.XAdvance, &v.YAdvance} {
		if format>>i&1 != 0 {
			*p = funit.Int16(b.IntN(65536) - 32768)
		}
	}
	for i, p := range []*uint16{&v.XPlacementDevOffs, &v.YPlacementDevOffs, &v.XAdvanceDevOffs, &v.YAdvanceDevOffs} {
		if format>>(i+4)&1 != 0 {
			*p = uint16(b.IntN(65536))
		}
	}
	return v
}

func (b *Bulk) format() int {
	if b.IntN(3) == 0 {
		return b.IntN(256)
	}
	return []int{0, 1, 4, 4, 4, 5, 7, 8, 15}[b.IntN(9)]
}

func bitLen(f int) int {
	n := 0
	for ; f != 0; f &= f - 1 {
		n += 2
	}
	return n
}

func (b *Bulk) anchor() anchor.Table {
	switch b.IntN(6) {
	case 0:
		return anchor.Table{}
	case 1:
		return anchor.Table{X: funit.Int16(b.IntN(4)), Y: 1}
	}
	return anchor.Table{X: funit.Int16(b.IntN(65536) - 32768), Y: funit.Int16(b.IntN(65536) - 32768)}
}

func (b *Bulk) marks(n, numClasses int) []markarray.Record {
	res := make([]markarray.Record, n)
	for i := range res {
		res[i] = markarray.Record{Class: uint16(b.IntN(numClasses)), Table: b.anchor()}
	}
	return res
}

func (b *Bulk) rows(n, numClasses int) [][]anchor.Table {
	res := make([][]anchor.Table, n)
	for i := range res {
		res[i] = make([]anchor.Table, numClasses)
		for j := range res[i] {
			res[i][j] = b.anchor()
		}
	}
	return res
}

// BulkKinds lists the kinds of subtables which can be generated: ten times the
// lookup type plus the format.
func BulkKinds(gpos bool) []int {
	if gpos {
		return []int{11, 12, 21, 22, 31, 41, 51, 61, 71, 72, 73, 81, 82, 83}
	}
	return []int{11, 12, 21, 31, 41, 51, 52, 53, 61, 62, 63, 81}
}

// Subtable generates a subtable of about the given size.
func (b *Bulk) Subtable(kind, size int) gtab.Subtable {
	if b.Gpos && kind >= 70 {
		kind += 1000 - 20
	} else if b.Gpos {
		kind += 2000
	} else if kind/10 == 5 || kind/10 == 6 {
		kind += 1000
	}
	item := func(n int) int { return max(1, (size-6)/n) }
	// split n items into groups
	groups := func(avg int) []int {
		var res []int
		for rest := size - 10; rest > 0; {
			n := b.IntN(2*avg + 1)
			res = append(res, n)
			rest -= 6 + 2*n
		}
		return append(res, 1)
	}
	switch kind {
	case 11:
		return &gtab.Gsub1_1{Cov: b.set(item(2)), Delta: glyph.ID(b.IntN(65536))}
	case 12:
		cov, n := b.cov(item(2 + 2*b.IntN(2)))
		return &gtab.Gsub1_2{Cov: cov, SubstituteGlyphIDs: b.gids(n)}
	case 21, 31:
		gg := groups([]int{1, 3, 40}[b.IntN(3)])
		cov, n := b.cov(len(gg))
		repl := make([][]glyph.ID, n)
		for i := range repl {
			if kind == 21 {
				gg[i] = max(gg[i], 1)
			}
			repl[i] = b.gids(gg[i])
		}
		if kind == 21 {
			return &gtab.Gsub2_1{Cov: cov, Repl: repl}
		}
		return &gtab.Gsub3_1{Cov: cov, Alternates: repl}
	case 41:
		gg := groups([]int{2, 9, 200}[b.IntN(3)])
		for i := range gg {
			gg[i] = (gg[i] + 2) / 4
		}
		cov, n := b.cov(len(gg))
		repl := make([][]gtab.Ligature, n)
		for i := range repl {
			for j := 0; j < gg[i]; j++ {
				repl[i] = append(repl[i], gtab.Ligature{In: b.gids(b.IntN(4)), Out: glyph.ID(b.IntN(65536))})
			}
		}
		return &gtab.Gsub4_1{Cov: cov, Repl: repl}
	case 81:
		cov, n := b.cov(item(2 + 2*b.IntN(2)))
		res := &gtab.Gsub8_1{Input: cov, SubstituteGlyphIDs: b.gids(n)}
		for k := b.IntN(3); k > 0; k-- {
			c, _ := b.cov(1 + b.IntN(9))
			res.Backtrack = append(res.Backtrack, c)
		}
		for k := b.IntN(3); k > 0; k-- {
			c, _ := b.cov(1 + b.IntN(9))
			res.Lookahead = append(res.Lookahead, c)
		}
		return res
	case 1051, 1061, 1052, 1062:
		gg := groups([]int{3, 12, 300}[b.IntN(3)])
		for i := range gg {
			gg[i] = (gg[i] + 4) / 8
		}
		switch kind {
		case 1051:
			cov, n := b.cov(len(gg))
			res := &gtab.SeqContext1{Cov: cov, Rules: make([][]*gtab.SeqRule, n)}
			for i := range res.Rules {
				for j := 0; j < gg[i]; j++ {
					res.Rules[i] = append(res.Rules[i], &gtab.SeqRule{Input: b.gids(b.IntN(4)), Actions: b.actions(b.IntN(3))})
				}
			}
			return res
		case 1061:
			cov, n := b.cov(len(gg))
			res := &gtab.ChainedSeqContext1{Cov: cov, Rules: make([][]*gtab.ChainedSeqRule, n)}
			for i := range res.Rules {
				for j := 0; j < gg[i]; j++ {
					res.Rules[i] = append(res.Rules[i], &gtab.ChainedSeqRule{
						Backtrack: b.gids(b.IntN(3)), Input: b.gids(b.IntN(4)), Lookahead: b.gids(b.IntN(3)), Actions: b.actions(b.IntN(3))})
				}
			}
			return res
		case 1052:
			cov, _ := b.cov(1 + b.IntN(60))
			res := &gtab.SeqContext2{Cov: cov, Input: b.classes(2+b.IntN(100), 1+b.IntN(len(gg)))}
			res.Rules = make([][]*gtab.ClassSeqRule, res.Input.NumClasses())
			for i := range res.Rules {
				for j := 0; j < gg[i]; j++ {
					res.Rules[i] = append(res.Rules[i], &gtab.ClassSeqRule{Input: b.words(b.IntN(4), 65536), Actions: b.actions(b.IntN(3))})
				}
			}
			return res
		default:
			cov, _ := b.cov(1 + b.IntN(60))
			res := &gtab.ChainedSeqContext2{
				Cov: cov, Input: b.classes(2+b.IntN(100), 1+b.IntN(len(gg))),
				Backtrack: b.classes(1+b.IntN(100), 1+b.IntN(5)), Lookahead: b.classes(1+b.IntN(100), 1+b.IntN(5))}
			res.Rules = make([][]*gtab.ChainedClassSeqRule, res.Input.NumClasses())
			for i := range res.Rules {
				for j := 0; j < gg[i]; j++ {
					res.Rules[i] = append(res.Rules[i], &gtab.ChainedClassSeqRule{
						Backtrack: b.words(b.IntN(3), 65536), Input: b.words(b.IntN(4), 65536), Lookahead: b.words(b.IntN(3), 65536), Actions: b.actions(b.IntN(3))})
				}
			}
			return res
		}
	case 1053:
		res := &gtab.SeqContext3{Actions: b.actions(b.IntN(4))}
		for rest := size - 10; rest > 0 || len(res.Input) == 0; {
			n := 1 + b.IntN(max(1, min(rest, 20000)))/(1+b.IntN(20))
			rest -= 6 + 2*n
			res.Input = append(res.Input, b.set(n))
		}
		return res
	case 1063:
		res := &gtab.ChainedSeqContext3{Actions: b.actions(b.IntN(4))}
		for rest := size - 10; rest > 0 || len(res.Input) == 0; {
			n := 1 + b.IntN(max(1, min(rest, 20000)))/(1+b.IntN(20))
			rest -= 6 + 2*n
			s := b.set(n)
			switch b.IntN(4) {
			case 0:
				res.Backtrack = append(res.Backtrack, s)
			case 1:
				res.Lookahead = append(res.Lookahead, s)
			default:
				res.Input = append(res.Input, s)
			}
		}
		return res
	case 2011:
		cov, _ := b.cov(item(2))
		return &gtab.Gpos1_1{Cov: cov, Adjust: b.value(b.format())}
	case 2012:
		f := b.format()
		cov, n := b.cov(item(2*b.IntN(2) + max(2, bitLen(f))))
		res := &gtab.Gpos1_2{Cov: cov, Adjust: make([]*gtab.GposValueRecord, n)}
		for i := range res.Adjust {
			res.Adjust[i] = b.value(f)
		}
		return res
	case 2021:
		f1, f2 := b.format(), 0
		if b.IntN(2) == 0 {
			f2 = b.format()
		}
		n := item(2 + bitLen(f1) + bitLen(f2))
		left := b.Glyphs(1 + b.IntN(min(n, 6000)))
		res := make(gtab.Gpos2_1, n)
		same := b.IntN(4) == 0
		v1, v2 := b.value(f1), b.value(f2)
		if same {
			// all left glyphs kern the same way
			right := b.Glyphs(1 + n/len(left))
			for _, l := range left {
				for _, r := range right {
					res[glyph.Pair{Left: l, Right: r}] = &gtab.PairAdjust{First: v1, Second: v2}
				}
			}
			return res
		}
		for i := 0; i < n; i++ {
			res[glyph.Pair{Left: left[b.IntN(len(left))], Right: glyph.ID(b.IntN(65536))}] = &gtab.PairAdjust{First: b.value(f1), Second: b.value(f2)}
		}
		return res
	case 2022:
		f1, f2 := b.format(), 0
		if b.IntN(2) == 0 {
			f2 = b.format()
		}
		n := item(max(2, bitLen(f1)+bitLen(f2)))
		n1 := 1 + b.IntN(min(n, 300))
		n2 := max(1, n/n1)
		res := &gtab.Gpos2_2{Cov: b.set(1 + b.IntN(300)), Class1: b.classes(b.IntN(300), n1), Class2: b.classes(b.IntN(300), n2)}
		res.Adjust = make([][]*gtab.PairAdjust, n1)
		for i := range res.Adjust {
			res.Adjust[i] = make([]*gtab.PairAdjust, n2)
			for j := range res.Adjust[i] {
				res.Adjust[i][j] = &gtab.PairAdjust{First: b.value(f1), Second: b.value(f2)}
			}
		}
		return res
	case 2031:
		cov, n := b.cov(item(14))
		res := &gtab.Gpos3_1{Cov: cov, Records: make([]gtab.EntryExitRecord, n)}
		for i := range res.Records {
			res.Records[i] = gtab.EntryExitRecord{Entry: b.anchor(), Exit: b.anchor()}
		}
		return res
	case 2041, 2061, 2051:
		nc := 1 + b.IntN(5)
		if b.IntN(5) == 0 {
			nc = 1 + b.IntN(200)
		}
		p := b.IntN(101)
		mc, m := b.cov(1 + size*p/100/11)
		bc, n := b.cov(1 + size*(100-p)/100/(2+7*nc))
		marks := b.marks(m, nc)
		switch kind {
		case 2041:
			return &gtab.Gpos4_1{MarkCov: mc, BaseCov: bc, MarkArray: marks, BaseArray: b.rows(n, nc)}
		case 2061:
			return &gtab.Gpos6_1{Mark1Cov: mc, Mark2Cov: bc, Mark1Array: marks, Mark2Array: b.rows(n, nc)}
		}
		res := &gtab.Gpos5_1{MarkCov: mc, LigCov: bc, MarkArray: marks, LigArray: make([][][]anchor.Table, n)}
		for i := range res.LigArray {
			res.LigArray[i] = b.rows(b.IntN(3), nc)
		}
		return res
	}
	panic(fmt.Sprintf("HARNESS-ERROR: kind %d", kind))
}

// Filler returns a subtable (type 1, format 2) with exactly the given size,
// which must be even.
func (b *Bulk) Filler(size int) gtab.Subtable {
	// one run of glyphs: 10 bytes for the coverage table
	if b.Gpos {
		n := max(4, (size-18)/2)
		cov := make(coverage.Table, n)
		res := &gtab.Gpos1_2{Cov: cov, Adjust: make([]*gtab.GposValueRecord, n)}
		for i := range res.Adjust {
			cov[glyph.ID(i)] = i
			res.Adjust[i] = &gtab.GposValueRecord{XAdvance: funit.Int16(i | 1)}
		}
		return res
	}
	n := max(4, (size-16)/2)
	cov := make(coverage.Table, n)
	res := &gtab.Gsub1_2{Cov: cov, SubstituteGlyphIDs: make([]glyph.ID, n)}
	for i := range res.SubstituteGlyphIDs {
		cov[glyph.ID(i)] = i
		res.SubstituteGlyphIDs[i] = glyph.ID(i ^ 3)
	}
	return res
}
