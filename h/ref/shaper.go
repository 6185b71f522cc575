package ref

import (
	"slices"

	"seehuhn.de/go/sfnt/glyph"
	"seehuhn.de/go/sfnt/opentype/anchor"
	"seehuhn.de/go/sfnt/opentype/classdef"
	"seehuhn.de/go/sfnt/opentype/gdef"
	"seehuhn.de/go/sfnt/opentype/gtab"
)

// Shaper is a straightforward implementation of the OpenType rules for
// applying GSUB and GPOS lookups.  Glyphs are objects with an identity, so that
// positions never need to be adjusted when the length of the sequence changes:
// the input sequence of a contextual rule is a list of glyph objects.
type Shaper struct {
	Lookups gtab.LookupList
	Gdef    *gdef.Table

	seq    []*shGlyph
	frames []*shFrame
	budget int

	// Gray is set, if the outcome depends on details where neither the
	// OpenType specification nor the documented decisions of the library
	// (sections 1 to 3 of the test cases) define the outcome.
	Gray string

	// Used collects the kinds of lookup which applied.
	Used map[string]int
}

type shGlyph struct {
	info glyph.Info
}

type shFrame struct {
	input  []*shGlyph
	end    *shGlyph // first glyph after the match, nil for the end of the sequence
	taint  bool     // a child lookup has replaced an ignored glyph
	parent *shFrame
}

// Apply applies the lookups, in the given order.
func (s *Shaper) Apply(lookups []gtab.LookupIndex, seq []glyph.Info) []glyph.Info {
	s.Gray = ""
	s.frames = s.frames[:0]
	s.seq = s.seq[:0]
	arena := make([]shGlyph, len(seq))
	for i := range seq {
		arena[i].info = seq[i]
		s.seq = append(s.seq, &arena[i])
	}
	for _, idx := range lookups {
		if int(idx) >= len(s.Lookups) {
			continue
		}
		l := s.Lookups[idx]
		if isReverse(l) {
			s.applyReverse(l)
			continue
		}
		for i := 0; i < len(s.seq); {
			s.budget = 64
			if next := s.lookupAt(l, i, len(s.seq), nil); next > i {
				i = next
			} else {
				i++
			}
		}
	}
	res := make([]glyph.Info, len(s.seq))
	for i, g := range s.seq {
		res[i] = g.info
	}
	return res
}

func isReverse(l *gtab.LookupTable) bool {
	for _, sub := range l.Subtables {
		if _, ok := sub.(*gtab.Gsub8_1); ok {
			return true
		}
	}
	return false
}

// applyReverse handles reverse chaining substitutions.  OpenType wants these
// to be processed from the end of the sequence, while the library processes
// all lookups from left to right.  We only decide the cases where both give
// the same result.
func (s *Shaper) applyReverse(l *gtab.LookupTable) {
	orig := make([]glyph.Info, len(s.seq))
	for i, g := range s.seq {
		orig[i] = g.info
	}
	for i := range s.seq {
		s.lookupAt(l, i, len(s.seq), nil)
	}
	fwd := make([]glyph.Info, len(s.seq))
	for i, g := range s.seq {
		fwd[i] = g.info
		g.info = orig[i]
	}
	for i := len(s.seq) - 1; i >= 0; i-- {
		s.lookupAt(l, i, len(s.seq), nil)
	}
	for i, g := range s.seq {
		if g.info.GID != fwd[i].GID {
			s.gray("direction of reverse chaining substitution")
			return
		}
	}
}

func (s *Shaper) gray(why string) {
	if s.Gray == "" {
		s.Gray = why
	}
}

func (s *Shaper) used(what string) {
	if s.Used != nil {
		s.Used[what]++
	}
}

// ignored tells whether the lookup skips the glyph.
func (s *Shaper) ignored(l *gtab.LookupTable, gid glyph.ID) bool {
	if s.Gdef == nil || s.Gdef.GlyphClass == nil {
		return false
	}
	f := l.Meta.LookupFlags
	switch s.Gdef.GlyphClass[gid] {
	case 1:
		return f&0x0002 != 0
	case 2:
		return f&0x0004 != 0
	case 3:
		if f&0x0008 != 0 {
			return true
		}
		if f&0x0010 != 0 {
			k := int(l.Meta.MarkFilteringSet)
			if k >= len(s.Gdef.MarkGlyphSets) {
				s.gray("mark filtering set out of range")
				return true
			}
			return !s.Gdef.MarkGlyphSets[k][gid]
		}
		if tp := uint16(f >> 8); tp != 0 {
			return s.Gdef.MarkAttachClass[gid] != tp
		}
	}
	return false
}

func (s *Shaper) keptAfter(l *gtab.LookupTable, i, limit int) int {
	for i++; i < limit; i++ {
		if !s.ignored(l, s.seq[i].info.GID) {
			return i
		}
	}
	return -1
}

func (s *Shaper) keptBefore(l *gtab.LookupTable, i int) int {
	for i--; i >= 0; i-- {
		if !s.ignored(l, s.seq[i].info.GID) {
			return i
		}
	}
	return -1
}

// match checks the glyphs after position i.
func (s *Shaper) match(l *gtab.LookupTable, i, limit, n int, ok func(k int, gid glyph.ID) bool) ([]int, bool) {
	var pos []int
	for k := 0; k < n; k++ {
		i = s.keptAfter(l, i, limit)
		if i < 0 || !ok(k, s.seq[i].info.GID) {
			return nil, false
		}
		pos = append(pos, i)
	}
	return pos, true
}

func (s *Shaper) matchBack(l *gtab.LookupTable, i, n int, ok func(k int, gid glyph.ID) bool) bool {
	for k := 0; k < n; k++ {
		i = s.keptBefore(l, i)
		if i < 0 || !ok(k, s.seq[i].info.GID) {
			return false
		}
	}
	return true
}

// lookupAt applies lookup l at position i.  Matching is restricted to positions
// before limit.  The return value is the position after the match, or -1.
func (s *Shaper) lookupAt(l *gtab.LookupTable, i, limit int, parent *shFrame) int {
	if s.ignored(l, s.seq[i].info.GID) {
		return -1
	}
	for _, sub := range l.Subtables {
		if next := s.subtableAt(l, sub, i, limit, parent); next >= 0 {
			return next
		}
	}
	return -1
}

type shRule struct {
	back, in, ahead       int
	backOK, inOK, aheadOK func(k int, gid glyph.ID) bool
	actions               []gtab.SeqLookup
}

// context tries a contextual rule.
func (s *Shaper) context(l *gtab.LookupTable, i, limit int, parent *shFrame, r *shRule) int {
	pos, ok := s.match(l, i, limit, r.in, r.inOK)
	if !ok {
		return -1
	}
	last := i
	if len(pos) > 0 {
		last = pos[len(pos)-1]
	}
	if !s.matchBack(l, i, r.back, r.backOK) {
		return -1
	}
	if _, ok := s.match(l, last, len(s.seq), r.ahead, r.aheadOK); !ok {
		return -1
	}

	f := &shFrame{parent: parent}
	f.input = append(f.input, s.seq[i])
	for _, p := range pos {
		f.input = append(f.input, s.seq[p])
	}
	// trailing ignored glyphs are part of the match (test case 2_08)
	end := last + 1
	for end < limit && s.ignored(l, s.seq[end].info.GID) {
		end++
	}
	if end < len(s.seq) {
		f.end = s.seq[end]
	}

	s.frames = append(s.frames, f)
	for _, a := range r.actions {
		s.budget--
		if s.budget <= 0 {
			s.gray("too many nested lookups")
			break
		}
		if f.taint {
			s.used("action after an ignored glyph was replaced")
		}
		if int(a.SequenceIndex) >= len(f.input) || int(a.LookupListIndex) >= len(s.Lookups) {
			continue
		}
		s.lookupAt(s.Lookups[a.LookupListIndex], s.index(f.input[a.SequenceIndex]), s.index(f.end), f)
		if s.Gray != "" {
			break
		}
	}
	s.frames = s.frames[:len(s.frames)-1]
	s.used("context")
	return s.index(f.end)
}

func (s *Shaper) index(g *shGlyph) int {
	if g == nil {
		return len(s.seq)
	}
	for i, x := range s.seq {
		if x == g {
			return i
		}
	}
	panic("HARNESS-ERROR: glyph not found")
}

func find(list []*shGlyph, g *shGlyph) int {
	for i, x := range list {
		if x == g {
			return i
		}
	}
	return -1
}

func (s *Shaper) touch(g *shGlyph) {
	for _, f := range s.frames {
		if find(f.input, g) < 0 {
			f.taint = true
		}
	}
}

func (s *Shaper) subtableAt(l *gtab.LookupTable, sub gtab.Subtable, i, limit int, parent *shFrame) int {
	g := s.seq[i]
	gid := g.info.GID

	eq := func(list []glyph.ID) func(int, glyph.ID) bool {
		return func(k int, gid glyph.ID) bool { return list[k] == gid }
	}
	cls := func(list []uint16, c classdef.Table) func(int, glyph.ID) bool {
		return func(k int, gid glyph.ID) bool { return c[gid] == list[k] }
	}

	switch sub := sub.(type) {
	case *gtab.Gsub1_1:
		if !sub.Cov[gid] {
			return -1
		}
		s.touch(g)
		g.info.GID = glyph.ID(uint16(int(gid) + int(sub.Delta)))
		s.used("1.1")
		return i + 1

	case *gtab.Gsub1_2:
		k, ok := sub.Cov[gid]
		if !ok {
			return -1
		}
		s.touch(g)
		g.info.GID = sub.SubstituteGlyphIDs[k]
		s.used("1.2")
		return i + 1

	case *gtab.Gsub2_1:
		k, ok := sub.Cov[gid]
		if !ok {
			return -1
		}
		repl := sub.Repl[k]
		if len(repl) == 0 {
			s.gray("empty replacement")
			return -1
		}
		s.touch(g)
		g.info.GID = repl[0]
		var extra []*shGlyph
		for _, r := range repl[1:] {
			extra = append(extra, &shGlyph{info: glyph.Info{GID: r}})
		}
		s.seq = insertAfter(s.seq, i, extra)
		for _, f := range s.frames {
			// new glyphs become part of the input sequence (test cases 3_02 to 3_08)
			if k := find(f.input, g); k >= 0 {
				f.input = insertAfter(f.input, k, extra)
			}
		}
		s.used("2.1")
		return i + len(repl)

	case *gtab.Gsub3_1:
		k, ok := sub.Cov[gid]
		if !ok || len(sub.Alternates[k]) == 0 {
			return -1
		}
		s.touch(g)
		g.info.GID = sub.Alternates[k][0]
		s.used("3.1")
		return i + 1

	case *gtab.Gsub4_1:
		k, ok := sub.Cov[gid]
		if !ok {
			return -1
		}
		for _, lig := range sub.Repl[k] {
			pos, ok := s.match(l, i, limit, len(lig.In), eq(lig.In))
			if !ok {
				continue
			}
			s.ligate(i, pos, lig.Out)
			s.used("4.1")
			if len(pos) > 0 && pos[len(pos)-1] > i+len(pos) {
				s.used("4.1 with skipped glyphs")
			}
			if len(pos) > 0 {
				return pos[len(pos)-1] + 1 - len(pos)
			}
			return i + 1
		}
		return -1

	case *gtab.Gsub8_1:
		k, ok := sub.Input[gid]
		if !ok {
			return -1
		}
		if !s.matchBack(l, i, len(sub.Backtrack), func(k int, gid glyph.ID) bool { _, ok := sub.Backtrack[k][gid]; return ok }) {
			return -1
		}
		if _, ok := s.match(l, i, len(s.seq), len(sub.Lookahead), func(k int, gid glyph.ID) bool { _, ok := sub.Lookahead[k][gid]; return ok }); !ok {
			return -1
		}
		s.touch(g)
		g.info.GID = sub.SubstituteGlyphIDs[k]
		s.used("8.1")
		return i + 1

	case *gtab.SeqContext1:
		k, ok := sub.Cov[gid]
		if !ok {
			return -1
		}
		for _, r := range sub.Rules[k] {
			if next := s.context(l, i, limit, parent, &shRule{in: len(r.Input), inOK: eq(r.Input), actions: r.Actions}); next >= 0 {
				return next
			}
		}
		return -1

	case *gtab.SeqContext2:
		c := int(sub.Input[gid])
		if _, ok := sub.Cov[gid]; !ok || c >= len(sub.Rules) {
			return -1
		}
		for _, r := range sub.Rules[c] {
			if next := s.context(l, i, limit, parent, &shRule{in: len(r.Input), inOK: cls(r.Input, sub.Input), actions: r.Actions}); next >= 0 {
				return next
			}
		}
		return -1

	case *gtab.SeqContext3:
		if !sub.Input[0][gid] {
			return -1
		}
		return s.context(l, i, limit, parent, &shRule{
			in: len(sub.Input) - 1, inOK: func(k int, gid glyph.ID) bool { return sub.Input[k+1][gid] },
			actions: sub.Actions})

	case *gtab.ChainedSeqContext1:
		k, ok := sub.Cov[gid]
		if !ok {
			return -1
		}
		for _, r := range sub.Rules[k] {
			if next := s.context(l, i, limit, parent, &shRule{
				back: len(r.Backtrack), backOK: eq(r.Backtrack),
				in: len(r.Input), inOK: eq(r.Input),
				ahead: len(r.Lookahead), aheadOK: eq(r.Lookahead),
				actions: r.Actions}); next >= 0 {
				return next
			}
		}
		return -1

	case *gtab.ChainedSeqContext2:
		c := int(sub.Input[gid])
		if _, ok := sub.Cov[gid]; !ok || c >= len(sub.Rules) {
			return -1
		}
		for _, r := range sub.Rules[c] {
			if next := s.context(l, i, limit, parent, &shRule{
				back: len(r.Backtrack), backOK: cls(r.Backtrack, sub.Backtrack),
				in: len(r.Input), inOK: cls(r.Input, sub.Input),
				ahead: len(r.Lookahead), aheadOK: cls(r.Lookahead, sub.Lookahead),
				actions: r.Actions}); next >= 0 {
				return next
			}
		}
		return -1

	case *gtab.ChainedSeqContext3:
		if !sub.Input[0][gid] {
			return -1
		}
		return s.context(l, i, limit, parent, &shRule{
			back: len(sub.Backtrack), backOK: func(k int, gid glyph.ID) bool { return sub.Backtrack[k][gid] },
			in: len(sub.Input) - 1, inOK: func(k int, gid glyph.ID) bool { return sub.Input[k+1][gid] },
			ahead: len(sub.Lookahead), aheadOK: func(k int, gid glyph.ID) bool { return sub.Lookahead[k][gid] },
			actions: sub.Actions})

	case *gtab.Gpos1_1:
		if _, ok := sub.Cov[gid]; !ok {
			return -1
		}
		shAdjust(&g.info, sub.Adjust)
		s.used("1.1")
		return i + 1

	case *gtab.Gpos1_2:
		k, ok := sub.Cov[gid]
		if !ok {
			return -1
		}
		shAdjust(&g.info, sub.Adjust[k])
		s.used("1.2")
		return i + 1

	case gtab.Gpos2_1:
		p := s.keptAfter(l, i, limit)
		if p < 0 {
			return -1
		}
		adj, ok := sub[glyph.Pair{Left: gid, Right: s.seq[p].info.GID}]
		if !ok {
			return -1
		}
		s.used("2.1")
		return s.pair(i, p, adj)

	case *gtab.Gpos2_2:
		if !sub.Cov[gid] {
			return -1
		}
		p := s.keptAfter(l, i, limit)
		if p < 0 {
			return -1
		}
		c1, c2 := int(sub.Class1[gid]), int(sub.Class2[s.seq[p].info.GID])
		if c1 >= len(sub.Adjust) || c2 >= len(sub.Adjust[c1]) {
			return -1
		}
		s.used("2.2")
		return s.pair(i, p, sub.Adjust[c1][c2])

	case *gtab.Gpos3_1:
		k, ok := sub.Cov[gid]
		if !ok {
			return -1
		}
		if l.Meta.LookupFlags&1 != 0 {
			s.gray("cursive attachment from right to left")
		}
		if len(l.Subtables) > 1 {
			s.gray("several cursive attachment subtables")
		}
		none := anchor.Table{} // no anchor
		if p := s.keptBefore(l, i); p >= 0 {
			// bring the entry point to the height of the previous exit point
			if kp, ok := sub.Cov[s.seq[p].info.GID]; ok {
				from, to := sub.Records[kp].Exit, sub.Records[k].Entry
				if from != none && to != none {
					g.info.YOffset = s.seq[p].info.YOffset + from.Y - to.Y
					s.used("3.1 vertical")
				}
			}
		}
		if p := s.keptAfter(l, i, limit); p >= 0 {
			// the pen moves so that the next entry point is on the exit point
			next := &s.seq[p].info
			if kn, ok := sub.Cov[next.GID]; ok {
				from, to := sub.Records[k].Exit, sub.Records[kn].Entry
				if from != none && to != none {
					pen := g.info.XOffset + from.X - to.X - next.XOffset
					for j := i + 1; j < p; j++ {
						if s.seq[j].info.Advance != 0 {
							s.gray("ignored glyphs with non-zero width in cursive attachment")
						}
					}
					g.info.Advance = pen
					s.used("3.1 horizontal")
				}
			}
		}
		return i + 1

	case *gtab.Gpos4_1:
		k, ok := sub.MarkCov[gid]
		if !ok {
			return -1
		}
		m := sub.MarkArray[k]
		if l.Meta.LookupFlags&(gtab.IgnoreBaseGlyphs|gtab.IgnoreLigatures) != 0 {
			s.gray("mark-to-base with bases ignored")
		}
		// the preceding base glyph: the first one which is not a mark
		p := -1
		if s.Gdef != nil && s.Gdef.GlyphClass != nil {
			for p = i - 1; p >= 0 && s.Gdef.GlyphClass[s.seq[p].info.GID] == 3; p-- {
				if _, ok := sub.BaseCov[s.seq[p].info.GID]; ok {
					s.gray("mark glyph in the base coverage")
				}
			}
		} else {
			// there is no way to tell what is a mark and what is a base
			for p = i - 1; p >= 0; p-- {
				if _, ok := sub.BaseCov[s.seq[p].info.GID]; ok {
					break
				}
				if _, ok := sub.MarkCov[s.seq[p].info.GID]; !ok {
					s.gray("unclear which glyph is the base")
				}
			}
		}
		if p < 0 {
			return -1
		}
		k, ok = sub.BaseCov[s.seq[p].info.GID]
		if !ok {
			return -1
		}
		b := sub.BaseArray[k][m.Class]
		if b.X == 0 && b.Y == 0 {
			return -1 // no anchor
		}
		base := &s.seq[p].info
		if base.XOffset != 0 || base.YOffset != 0 {
			s.gray("mark attached to a shifted base")
		}
		if g.info.XOffset != 0 || g.info.YOffset != 0 {
			s.gray("attached mark was already shifted")
		}
		dx := b.X - m.X
		for j := p; j < i; j++ {
			dx -= s.seq[j].info.Advance
		}
		g.info.XOffset += dx
		g.info.YOffset += b.Y - m.Y
		s.used("4.1")
		return i + 1

	case *gtab.Gpos6_1:
		k, ok := sub.Mark1Cov[gid]
		if !ok {
			return -1
		}
		m := sub.Mark1Array[k]
		p := s.keptBefore(l, i)
		if p < 0 {
			return -1
		}
		k, ok = sub.Mark2Cov[s.seq[p].info.GID]
		if !ok {
			return -1
		}
		b := sub.Mark2Array[k][m.Class]
		if b.X == 0 && b.Y == 0 {
			return -1 // no anchor
		}
		// align the anchor points
		mark2 := &s.seq[p].info
		x := mark2.XOffset + b.X - m.X
		for j := p; j < i; j++ {
			x -= s.seq[j].info.Advance
		}
		g.info.XOffset = x
		g.info.YOffset = mark2.YOffset + b.Y - m.Y
		s.used("6.1")
		return i + 1
	}
	panic("HARNESS-ERROR: unknown subtable type")
}

func shAdjust(g *glyph.Info, v *gtab.GposValueRecord) {
	if v == nil {
		return
	}
	g.XOffset += v.XPlacement
	g.YOffset += v.YPlacement
	g.Advance += v.XAdvance
}

func (s *Shaper) pair(i, p int, adj *gtab.PairAdjust) int {
	shAdjust(&s.seq[i].info, adj.First)
	if adj.Second == nil {
		return p // the second glyph can be the first glyph of the next pair
	}
	shAdjust(&s.seq[p].info, adj.Second)
	return p + 1
}

func insertAfter(list []*shGlyph, i int, extra []*shGlyph) []*shGlyph {
	if len(extra) == 0 {
		return list
	}
	res := make([]*shGlyph, 0, len(list)+len(extra))
	res = append(res, list[:i+1]...)
	res = append(res, extra...)
	return append(res, list[i+1:]...)
}

// ligate replaces the glyph at position i together with the glyphs at
// positions pos.
func (s *Shaper) ligate(i int, pos []int, out glyph.ID) {
	first := s.seq[i]
	isComp := map[*shGlyph]bool{}
	comps := []*shGlyph{first}
	for _, p := range pos {
		isComp[s.seq[p]] = true
		comps = append(comps, s.seq[p])
	}

	rank := map[*shGlyph]int{}
	for k, g := range s.seq {
		rank[g] = k
	}
	for _, f := range s.frames {
		keep := f.input[:0:0]
		endpoint := false
		for _, g := range f.input {
			if find(comps, g) < 0 {
				keep = append(keep, g)
			} else if g == comps[0] || g == comps[len(comps)-1] {
				endpoint = true
			}
		}
		if len(keep)+len(comps) != len(f.input) {
			f.taint = true
		}
		// The new glyph belongs to the input sequence of the contextual rule,
		// if the first or the last of the components did (test cases 4_01
		// to 4_10).
		if endpoint {
			k := 0
			for k < len(keep) && rank[keep[k]] < rank[first] {
				k++
			}
			keep = slices.Insert(keep, k, first)
		}
		f.input = keep
	}

	var text []rune
	for _, c := range comps {
		text = append(text, c.info.Text...)
	}
	rest := s.seq[:0:0]
	for _, g := range s.seq {
		if !isComp[g] {
			rest = append(rest, g)
		}
	}
	s.seq = rest
	first.info = glyph.Info{GID: out, Text: text}
}
