// Package c07 checks that applying lookups is safe: no panics, text is
// conserved, the length is bounded, and results do not depend on history.
package c07

import (
	"bytes"
	"fmt"
	"maps"
	"slices"
	"sort"
	"strings"
	"testing"

	"golang.org/x/text/language"
	"pgregory.net/rapid"

	"seehuhn.de/go/postscript/funit"

	"seehuhn.de/go/sfnt"
	"seehuhn.de/go/sfnt/cmap"
	"seehuhn.de/go/sfnt/glyf"
	"seehuhn.de/go/sfnt/glyph"
	"seehuhn.de/go/sfnt/opentype/classdef"
	"seehuhn.de/go/sfnt/opentype/coverage"
	"seehuhn.de/go/sfnt/opentype/gdef"
	"seehuhn.de/go/sfnt/opentype/gtab"

	"seehuhn.de/go/sfnt/verif/data"
	"seehuhn.de/go/sfnt/verif/gen"
	"seehuhn.de/go/sfnt/verif/pbt"
)

func TestMain(m *testing.M) { pbt.Main(m) }

func show(seq []glyph.Info) string {
	var b strings.Builder
	for i, g := range seq {
		if i > 0 {
			b.WriteByte(' ')
		}
		if i > 60 {
			fmt.Fprintf(&b, "... (%d glyphs)", len(seq))
			break
		}
		fmt.Fprintf(&b, "%d%q(%d,%d;%d)", g.GID, string(g.Text), g.XOffset, g.YOffset, g.Advance)
	}
	return b.String()
}

func same(a, b []glyph.Info) bool {
	return slices.EqualFunc(a, b, func(x, y glyph.Info) bool {
		return x.GID == y.GID && slices.Equal(x.Text, y.Text) &&
			x.XOffset == y.XOffset && x.YOffset == y.YOffset && x.Advance == y.Advance
	})
}

func clone(seq []glyph.Info) []glyph.Info {
	res := slices.Clone(seq)
	for i := range res {
		res[i].Text = slices.Clone(res[i].Text)
	}
	return res
}

func runes(seq []glyph.Info) []rune {
	var rr []rune
	for _, g := range seq {
		rr = append(rr, g.Text...)
	}
	slices.Sort(rr)
	return rr
}

// growth analyses by how much a lookup can make a sequence longer.  It returns
// the maximal number of glyphs a single glyph can be replaced with, and whether
// nested lookups are involved.
func growth(ll gtab.LookupList, idx gtab.LookupIndex) (k int, nested bool) {
	k = 1
	seen := map[gtab.LookupIndex]bool{}
	var visit func(i gtab.LookupIndex)
	act := func(aa []gtab.SeqLookup) {
		nested = true
		for _, a := range aa {
			visit(a.LookupListIndex)
		}
	}
	visit = func(i gtab.LookupIndex) {
		if int(i) >= len(ll) || seen[i] {
			return
		}
		seen[i] = true
		for _, sub := range ll[i].Subtables {
			switch sub := sub.(type) {
			case *gtab.Gsub2_1:
				for _, r := range sub.Repl {
					k = max(k, len(r))
				}
			case *gtab.SeqContext1:
				for _, rr := range sub.Rules {
					for _, r := range rr {
						act(r.Actions)
					}
				}
			case *gtab.SeqContext2:
				for _, rr := range sub.Rules {
					for _, r := range rr {
						act(r.Actions)
					}
				}
			case *gtab.SeqContext3:
				act(sub.Actions)
			case *gtab.ChainedSeqContext1:
				for _, rr := range sub.Rules {
					for _, r := range rr {
						act(r.Actions)
					}
				}
			case *gtab.ChainedSeqContext2:
				for _, rr := range sub.Rules {
					for _, r := range rr {
						act(r.Actions)
					}
				}
			case *gtab.ChainedSeqContext3:
				act(sub.Actions)
			}
		}
	}
	visit(idx)
	return k, nested
}

// bound is an upper bound for the length of the output.
func bound(ll gtab.LookupList, lookups []gtab.LookupIndex, n int) int {
	for _, i := range lookups {
		if n > 1e7 {
			break
		}
		k, nested := growth(ll, i)
		if nested {
			// every step consumes at least one of the old glyphs, and uses
			// at most 64 lookups
			n += n * 64 * (k - 1)
		} else {
			n *= k
		}
	}
	return n
}

const maxBound = 100_000

type fataler interface{ Fatalf(string, ...any) }

type target struct {
	t       fataler
	gpos    bool
	ll      gtab.LookupList
	ll2     gtab.LookupList // an independently built copy
	gd      *gdef.Table
	gd2     *gdef.Table
	lookups []gtab.LookupIndex
	ctx     *gtab.Context // reused

	n, changed, grown, shrunk int
	sample                    string
}

func (c *target) describe() string {
	s := gen.FormatLookups(c.ll)
	if len(s) > 6000 {
		s = s[:6000] + "..."
	}
	gd := "none"
	if c.gd != nil {
		gd = fmt.Sprintf("classes=%v attach=%v sets=%v", c.gd.GlyphClass, c.gd.MarkAttachClass, c.gd.MarkGlyphSets)
		if len(gd) > 2000 {
			gd = gd[:2000] + "..."
		}
	}
	return fmt.Sprintf("lookups %v\nGDEF %s\n%s", c.lookups, gd, s)
}

func (c *target) run(seq []glyph.Info) {
	t := c.t
	limit := bound(c.ll, c.lookups, len(seq))
	if limit > maxBound {
		return
	}
	c.n++
	orig := clone(seq)

	fail := func(what string, out []glyph.Info) {
		t.Fatalf("%s\ninput  %s\noutput %s\n%s", what, show(orig), show(out), c.describe())
	}
	apply := func(ctx *gtab.Context, in []glyph.Info) []glyph.Info {
		defer func() {
			if e := recover(); e != nil {
				t.Fatalf("panic while applying lookups: %v\ninput %s\n%s", e, show(orig), c.describe())
			}
		}()
		return ctx.Apply(in)
	}

	out := apply(c.ctx, clone(seq))

	if len(out) > limit {
		fail(fmt.Sprintf("%d glyphs became %d glyphs, more than the possible %d", len(seq), len(out), limit), out)
	}
	if !slices.Equal(runes(out), runes(orig)) {
		fail("text not conserved", out)
	}
	if c.gpos {
		ok := len(out) == len(orig)
		for i := 0; ok && i < len(out); i++ {
			ok = out[i].GID == orig[i].GID && slices.Equal(out[i].Text, orig[i].Text)
		}
		if !ok {
			fail("positioning changes glyphs", out)
		}
	}
	saved := clone(out)

	// a fresh context gives the same result
	if fresh := apply(gtab.NewContext(c.ll, c.gd, c.lookups), clone(seq)); !same(fresh, out) {
		fail("result depends on earlier calls, fresh context gives "+show(fresh), out)
	}
	// an independent copy of the tables gives the same result
	if copied := apply(gtab.NewContext(c.ll2, c.gd2, c.lookups), clone(seq)); !same(copied, out) {
		fail("result differs for a copy of the tables: "+show(copied), out)
	}
	// the input shares memory with other data
	big := make([]glyph.Info, len(seq), len(seq)+7)
	copy(big, seq)
	rest := big[len(seq):cap(big)]
	for i := range rest {
		rest[i] = glyph.Info{GID: 0x4711, Text: []rune("#")}
	}
	var pool []rune
	for i := range big {
		pool = append(pool, big[i].Text...)
	}
	a := 0
	for i := range big {
		b := a + len(big[i].Text)
		big[i].Text = pool[a:b]
		a = b
	}
	text := slices.Clone(pool)
	if shared := apply(c.ctx, big); !same(shared, out) {
		fail("result depends on unused capacity, or on earlier calls: "+show(shared), out)
	}
	if !slices.Equal(pool, text) {
		fail("text of the input is overwritten", out)
	}
	if !same(saved, out) {
		fail("earlier result was changed by a later call, was "+show(saved), out)
	}
	if !same(out, orig) {
		c.changed++
		c.sample = show(orig) + " -> " + show(out)
		if len(out) > len(orig) {
			c.grown++
		}
		if len(out) < len(orig) {
			c.shrunk++
		}
	}
}

func (c *target) report(pc *pbt.Case, key []byte) {
	pc.ClassIf(c.n == 0, "skipped: potential output too long")
	pc.ClassIf(c.changed > 0, "some sequence changed")
	pc.ClassIf(c.grown > 0, "some sequence became longer")
	pc.ClassIf(c.shrunk > 0, "some sequence became shorter")
	if c.changed > 0 {
		pc.NonTrivial(key)
		pc.Sample(func() string {
			d := c.describe()
			if len(d) > 600 {
				d = d[:600] + "..."
			}
			return c.sample + " with " + d
		})
	}
}

// drawSeq draws a glyph sequence where every character is used only once.
func drawSeq(t *rapid.T, gg []glyph.ID, maxLen int) []glyph.Info {
	gids := rapid.SliceOfN(rapid.SampledFrom(gg), 0, maxLen).Draw(t, "seq")
	seq := make([]glyph.Info, len(gids))
	r := rune('A')
	for i, g := range gids {
		seq[i].GID = g
		for k := rapid.SampledFrom([]int{1, 1, 1, 1, 0, 2, 3}).Draw(t, "textLen"); k > 0; k-- {
			seq[i].Text = append(seq[i].Text, r)
			r++
		}
		if rapid.IntRange(0, 7).Draw(t, "positioned") == 0 {
			seq[i].XOffset = funit.Int16(rapid.Int16().Draw(t, "x"))
			seq[i].YOffset = funit.Int16(rapid.Int16().Draw(t, "y"))
			seq[i].Advance = funit.Int16(rapid.Int16().Draw(t, "adv"))
		}
	}
	return seq
}

func drawLookups(t *rapid.T, ll gtab.LookupList) []gtab.LookupIndex {
	if len(ll) == 0 {
		return []gtab.LookupIndex{0, 1}
	}
	var lookups []gtab.LookupIndex
	switch rapid.IntRange(0, 4).Draw(t, "top") {
	case 0:
		lookups = []gtab.LookupIndex{0}
	case 1: // unusual: any order, repeated, out of range
		lookups = rapid.SliceOfN(rapid.Map(rapid.IntRange(0, len(ll)+1), func(i int) gtab.LookupIndex { return gtab.LookupIndex(i) }), 0, 6).Draw(t, "order")
	default:
		for i := 0; i < len(ll) && i < 40; i++ {
			if rapid.IntRange(0, 2).Draw(t, "use") > 0 {
				lookups = append(lookups, gtab.LookupIndex(i))
			}
		}
	}
	// limit the size of the output
	for len(lookups) > 0 && bound(ll, lookups, 24) > maxBound {
		lookups = lookups[:len(lookups)-1]
	}
	return lookups
}

func rebuildGdef(g *gdef.Table) *gdef.Table {
	if g == nil {
		return nil
	}
	res := &gdef.Table{GlyphClass: maps.Clone(g.GlyphClass), MarkAttachClass: maps.Clone(g.MarkAttachClass)}
	for _, s := range g.MarkGlyphSets {
		res.MarkGlyphSets = append(res.MarkGlyphSets, maps.Clone(s))
	}
	return res
}

// TestBuilt uses lookups built through the API.
func TestBuilt(t *testing.T) {
	pbt.Check(t, 120000, 2000000, func(t *rapid.T, pc *pbt.Case) {
		o := &gen.GtabOpts{Wild: true, Gpos: rapid.IntRange(0, 3).Draw(t, "gpos") == 0}
		n := rapid.IntRange(2, 6).Draw(t, "nGlyphs")
		base := rapid.SampledFrom([]int{1, 1, 1, 0, 300, 65533}).Draw(t, "firstGid")
		for i := 0; i < n; i++ {
			o.Glyphs = append(o.Glyphs, glyph.ID((base+i)&0xFFFF))
		}
		o.Gdef = o.DrawGdef(t)
		if o.Gpos && rapid.Bool().Draw(t, "5") {
			o.Types = []uint16{1, 2, 3, 4, 5, 6, 7, 8}
		}
		ll := o.LookupList(t, 1, 7)
		before := gen.FormatLookups(ll)
		lookups := drawLookups(t, ll)
		c := &target{t: t, gpos: o.Gpos, ll: ll, ll2: gen.CloneLookups(ll), gd: o.Gdef, gd2: rebuildGdef(o.Gdef), lookups: lookups}
		c.ctx = gtab.NewContext(c.ll, c.gd, lookups)
		for k := rapid.IntRange(1, 8).Draw(t, "nSeq"); k > 0; k-- {
			c.run(drawSeq(t, o.Glyphs, 24))
		}
		if after := gen.FormatLookups(ll); after != before {
			t.Fatalf("applying lookups changed the tables\nbefore %s\nafter %s", before, after)
		}
		pc.ClassIf(o.Gpos, "GPOS")
		c.report(pc, []byte(before))
	})
}

// used collects the glyphs mentioned in the lookups.
func used(ll gtab.LookupList, all []glyph.ID) []glyph.ID {
	set := map[glyph.ID]bool{}
	cov := func(c coverage.Table) {
		for g := range c {
			set[g] = true
		}
	}
	covs := func(ss ...coverage.Set) {
		for _, s := range ss {
			for g := range s {
				set[g] = true
			}
		}
	}
	cls := func(c classdef.Table) {
		for g := range c {
			set[g] = true
		}
	}
	list := func(gg []glyph.ID) {
		for _, g := range gg {
			set[g] = true
		}
	}
	for _, l := range ll {
		for _, sub := range l.Subtables {
			switch s := sub.(type) {
			case *gtab.Gsub1_1:
				covs(s.Cov)
			case *gtab.Gsub1_2:
				cov(s.Cov)
			case *gtab.Gsub2_1:
				cov(s.Cov)
			case *gtab.Gsub3_1:
				cov(s.Cov)
			case *gtab.Gsub4_1:
				cov(s.Cov)
				for _, ligs := range s.Repl {
					for _, l := range ligs {
						list(l.In)
					}
				}
			case *gtab.Gsub8_1:
				cov(s.Input)
			case *gtab.SeqContext1:
				cov(s.Cov)
				for _, rr := range s.Rules {
					for _, r := range rr {
						list(r.Input)
					}
				}
			case *gtab.SeqContext2:
				cov(s.Cov)
				cls(s.Input)
			case *gtab.SeqContext3:
				covs(s.Input...)
			case *gtab.ChainedSeqContext1:
				cov(s.Cov)
				for _, rr := range s.Rules {
					for _, r := range rr {
						list(r.Input)
						list(r.Lookahead)
						list(r.Backtrack)
					}
				}
			case *gtab.ChainedSeqContext2:
				cov(s.Cov)
				cls(s.Input)
				cls(s.Lookahead)
				cls(s.Backtrack)
			case *gtab.ChainedSeqContext3:
				covs(s.Input...)
				covs(s.Lookahead...)
				covs(s.Backtrack...)
			case *gtab.Gpos1_1:
				cov(s.Cov)
			case *gtab.Gpos1_2:
				cov(s.Cov)
			case gtab.Gpos2_1:
				for p := range s {
					set[p.Left], set[p.Right] = true, true
				}
			case *gtab.Gpos2_2:
				covs(s.Cov)
				cls(s.Class2)
			case *gtab.Gpos3_1:
				cov(s.Cov)
			case *gtab.Gpos4_1:
				cov(s.MarkCov)
				cov(s.BaseCov)
			case *gtab.Gpos6_1:
				cov(s.Mark1Cov)
				cov(s.Mark2Cov)
			}
		}
	}
	res := slices.Clone(all)
	for g := range set {
		if !slices.Contains(all, g) {
			res = append(res, g)
		}
		if len(res) > 3000 {
			break
		}
	}
	sort.Slice(res, func(i, j int) bool { return res[i] < res[j] })
	return res
}

type source struct {
	table, gd []byte
	gpos      bool
	glyphs    []glyph.ID
}

func readAll(s *source) (*gtab.Info, *gdef.Table) {
	tp := gtab.Type(gtab.TypeGsub)
	if s.gpos {
		tp = gtab.TypeGpos
	}
	info, err := gtab.Read(bytes.NewReader(s.table), tp)
	if err != nil {
		return nil, nil
	}
	var gd *gdef.Table
	if s.gd != nil {
		gd, err = gdef.Read(bytes.NewReader(s.gd))
		if err != nil {
			return nil, nil
		}
	}
	return info, gd
}

func runRead(t *rapid.T, pc *pbt.Case, s *source) {
	info, gd := readAll(s)
	if info == nil {
		pc.Class("rejected by the reader")
		return
	}
	info2, gd2 := readAll(s)
	pc.Class("accepted by the reader")
	ll := info.LookupList
	before := gen.FormatLookups(ll)
	lookups := drawLookups(t, ll)
	c := &target{t: t, gpos: s.gpos, ll: ll, ll2: info2.LookupList, gd: gd, gd2: gd2, lookups: lookups}
	c.ctx = gtab.NewContext(c.ll, c.gd, lookups)
	gg := used(ll, s.glyphs)
	for k := rapid.IntRange(1, 6).Draw(t, "nSeq"); k > 0; k-- {
		sub := gg
		if len(lookups) > 0 && rapid.IntRange(0, 3).Draw(t, "focus") > 0 {
			// concentrate on the glyphs of one subtable
			if i := int(lookups[rapid.IntRange(0, len(lookups)-1).Draw(t, "focusLookup")]); i < len(ll) && len(ll[i].Subtables) > 0 {
				k := rapid.IntRange(0, len(ll[i].Subtables)-1).Draw(t, "focusSubtable")
				sub = used(gtab.LookupList{{Subtables: ll[i].Subtables[k : k+1]}}, s.glyphs[:1])
			}
		}
		if len(sub) > 8 && rapid.Bool().Draw(t, "fewLetters") {
			sub = rapid.SliceOfN(rapid.SampledFrom(sub), 2, 6).Draw(t, "letters")
		}
		c.run(drawSeq(t, sub, 20))
	}
	if after := gen.FormatLookups(ll); after != before {
		t.Fatalf("applying lookups changed the tables\nbefore %s\nafter %s", before, after)
	}
	c.report(pc, append(slices.Clone(s.table), s.gd...))
}

// TestMutated uses damaged encodings of generated tables.
func TestMutated(t *testing.T) {
	pbt.Check(t, 240000, 5000000, func(t *rapid.T, pc *pbt.Case) {
		o := &gen.GtabOpts{WellFormed: true, Gpos: rapid.IntRange(0, 2).Draw(t, "gpos") == 0}
		n := rapid.IntRange(2, 6).Draw(t, "nGlyphs")
		for i := 0; i < n; i++ {
			o.Glyphs = append(o.Glyphs, glyph.ID(1+i))
		}
		o.Gdef = o.DrawGdef(t)
		info := &gtab.Info{
			ScriptList:  gtab.ScriptListInfo{language.MustParse("und-Zzzz"): {Optional: []gtab.FeatureIndex{0}}},
			FeatureList: gtab.FeatureListInfo{{Tag: "liga", Lookups: []gtab.LookupIndex{0}}},
			LookupList:  o.LookupList(t, 1, 5),
		}
		s := &source{gpos: o.Gpos, glyphs: o.Glyphs, table: info.Encode()}
		if o.Gdef != nil {
			s.gd = o.Gdef.Encode()
		}
		// the interesting part is behind the script and feature lists
		k := int(s.table[8])<<8 | int(s.table[9])
		s.table = append(slices.Clone(s.table[:k]), gen.Mutate(t, s.table[k:], 2)...)
		if s.gd != nil && rapid.IntRange(0, 3).Draw(t, "mutGdef") == 0 {
			s.gd = gen.Mutate(t, s.gd, 3)
		}
		runRead(t, pc, s)
	})
}

// TestReal uses the tables of real fonts, mostly damaged.
func TestReal(t *testing.T) {
	fonts := data.Fonts()
	pbt.Check(t, 16000, 300000, func(t *rapid.T, pc *pbt.Case) {
		s := &source{glyphs: []glyph.ID{1, 2, 3}}
		font := rapid.SampledFrom(fonts).Draw(t, "font")
		s.gpos = rapid.Bool().Draw(t, "gpos")
		tag := "GSUB"
		if s.gpos {
			tag = "GPOS"
		}
		s.table = data.Table(font, tag)
		s.gd = data.Table(font, "GDEF")
		if s.table == nil {
			return
		}
		if rapid.IntRange(0, 4).Draw(t, "damage") > 0 {
			s.table = gen.Mutate(t, s.table, 4)
		}
		if s.gd != nil && rapid.IntRange(0, 4).Draw(t, "damageGdef") == 0 {
			s.gd = gen.Mutate(t, s.gd, 5)
		}
		runRead(t, pc, s)
	})
}

// TestLayouter uses complete fonts and several layouters with a history.
func TestLayouter(t *testing.T) {
	pbt.Check(t, 24000, 600000, func(t *rapid.T, pc *pbt.Case) {
		numGlyphs := rapid.IntRange(2, 8).Draw(t, "numGlyphs")
		glyphs := make([]glyph.ID, numGlyphs+1)
		for i := range glyphs {
			glyphs[i] = glyph.ID(i) // the last one does not exist
		}
		sub := cmap.Format4{}
		letters := []rune("abcdefgh")
		for _, r := range letters {
			if g := rapid.IntRange(0, numGlyphs).Draw(t, "cmap"); g > 0 || r == 'a' {
				sub[uint16(r)] = glyph.ID(g)
			}
		}
		mk := func() *sfnt.Font {
			w := make([]funit.Int16, numGlyphs)
			for i := range w {
				w[i] = funit.Int16(100 * (i + 1))
			}
			return &sfnt.Font{
				UnitsPerEm: 1000,
				Outlines:   &glyf.Outlines{Glyphs: make(glyf.Glyphs, numGlyphs), Widths: w},
				CMapTable:  cmap.Table{{PlatformID: 3, EncodingID: 1}: sub.Encode(0)},
			}
		}
		font, font2 := mk(), mk()
		o := &gen.GtabOpts{Wild: rapid.IntRange(0, 3).Draw(t, "wild") == 0, Glyphs: glyphs}
		font.Gdef = o.DrawGdef(t)
		font2.Gdef = rebuildGdef(font.Gdef)
		o.Gdef = font.Gdef
		tags := []string{"liga", "kern", "calt", "mark", "ccmp", "xxxx"}
		langs := []language.Tag{language.English, language.German, language.Arabic, language.MustParse("und-Zzzz"), language.MustParse("ro-MD")}
		info := func(gpos bool) (*gtab.Info, *gtab.Info) {
			o.Gpos = gpos
			res := &gtab.Info{ScriptList: gtab.ScriptListInfo{}}
			res.LookupList = o.LookupList(t, 1, 5)
			for i := range res.LookupList {
				// growth is bounded
				if k, _ := growth(res.LookupList, gtab.LookupIndex(i)); k > 1 && i > 0 {
					res.LookupList[i].Subtables = res.LookupList[i].Subtables[:0]
				}
			}
			for k := rapid.IntRange(1, 4).Draw(t, "nFeatures"); k > 0; k-- {
				f := &gtab.Feature{Tag: rapid.SampledFrom(tags).Draw(t, "tag")}
				for i := range res.LookupList {
					if rapid.Bool().Draw(t, "inFeature") {
						f.Lookups = append(f.Lookups, gtab.LookupIndex(i))
					}
				}
				if rapid.IntRange(0, 9).Draw(t, "badLookup") == 0 {
					f.Lookups = append(f.Lookups, gtab.LookupIndex(rapid.SampledFrom([]int{0, 7, 65535}).Draw(t, "bad")))
				}
				res.FeatureList = append(res.FeatureList, f)
			}
			for k := rapid.SampledFrom([]int{0, 1, 1, 1, 1, 1, 2, 3, 4}).Draw(t, "nLang"); k > 0; k-- {
				f := &gtab.Features{Required: gtab.FeatureIndex(rapid.SampledFrom([]int{0xFFFF, 0xFFFF, 0, 1, 9}).Draw(t, "required"))}
				for i := range res.FeatureList {
					if rapid.IntRange(0, 3).Draw(t, "optional") > 0 {
						f.Optional = append(f.Optional, gtab.FeatureIndex(i))
					}
				}
				if rapid.IntRange(0, 9).Draw(t, "badFeature") == 0 {
					f.Optional = append(f.Optional, 77)
				}
				res.ScriptList[rapid.SampledFrom(langs).Draw(t, "lang")] = f
			}
			res2 := &gtab.Info{ScriptList: maps.Clone(res.ScriptList), FeatureList: slices.Clone(res.FeatureList), LookupList: gen.CloneLookups(res.LookupList)}
			return res, res2
		}
		if rapid.IntRange(0, 5).Draw(t, "gsub") > 0 {
			font.Gsub, font2.Gsub = info(false)
		}
		if rapid.IntRange(0, 2).Draw(t, "gpos") > 0 {
			font.Gpos, font2.Gpos = info(true)
		}

		features := func(label string) map[string]bool {
			if rapid.Bool().Draw(t, label+"Default") {
				return nil
			}
			m := map[string]bool{}
			for _, tag := range tags {
				if rapid.IntRange(0, 3).Draw(t, label) > 0 {
					m[tag] = rapid.IntRange(0, 3).Draw(t, label+"On") > 0
				}
			}
			return m
		}

		type lay struct {
			l      *sfnt.Layouter
			lang   language.Tag
			fs, fp map[string]bool
		}
		var ll []*lay
		for k := rapid.IntRange(1, 3).Draw(t, "nLayouters"); k > 0; k-- {
			x := &lay{lang: rapid.SampledFrom(append(langs, language.Und, language.Japanese)).Draw(t, "layLang"), fs: features("fs"), fp: features("fp")}
			l, err := font.NewLayouter(x.lang, x.fs, x.fp)
			if err != nil {
				t.Fatalf("NewLayouter: %v", err)
			}
			x.l = l
			ll = append(ll, x)
		}
		changed := 0
		var sample string
		for k := rapid.IntRange(1, 8).Draw(t, "nCalls"); k > 0; k-- {
			x := ll[rapid.IntRange(0, len(ll)-1).Draw(t, "layouter")]
			text := rapid.OneOf(
				rapid.StringOfN(rapid.SampledFrom(letters), 1, 20, -1),
				rapid.StringOfN(rapid.SampledFrom(letters), 0, 16, -1),
				rapid.StringOfN(rapid.SampledFrom([]rune("aabbc\U0001F600éxyz\uFFFD")), 0, 12, -1),
				rapid.Map(rapid.SliceOfN(rapid.Byte(), 0, 10), func(b []byte) string { return string(b) }),
			).Draw(t, "text")
			desc := func() string {
				return fmt.Sprintf("text %q lang %v features %v %v cmap %v\nGSUB %s\nGPOS %s", text, x.lang, x.fs, x.fp, sub, describeInfo(font.Gsub), describeInfo(font.Gpos))
			}
			layout := func(l *sfnt.Layouter) []glyph.Info {
				defer func() {
					if e := recover(); e != nil {
						t.Fatalf("panic in Layout: %v\n%s", e, desc())
					}
				}()
				return clone(l.Layout(text))
			}
			out := layout(x.l)
			want := []rune(text)
			slices.Sort(want)
			if !slices.Equal(runes(out), want) {
				t.Fatalf("text not conserved: %q -> %s\n%s", text, show(out), desc())
			}
			for _, f := range []*sfnt.Font{font, font2} {
				fresh, err := f.NewLayouter(x.lang, x.fs, x.fp)
				if err != nil {
					t.Fatalf("NewLayouter: %v", err)
				}
				if res := layout(fresh); !same(res, out) {
					t.Fatalf("result differs from that of a new layouter (same font: %v)\ngot  %s\nfrom new layouter %s\n%s", f == font, show(out), show(res), desc())
				}
			}
			for i, r := range []rune(text) {
				if len(out) != len([]rune(text)) || out[i].GID != glyph.ID(sub[uint16(r)]) {
					changed++
					sample = fmt.Sprintf("%q -> %s; %s", text, show(out), desc())
					break
				}
			}
		}
		pc.ClassIf(len(ll) > 1, "several layouters")
		if changed > 0 {
			pc.NonTrivial([]byte(sample))
			pc.Sample(func() string {
				if len(sample) > 700 {
					sample = sample[:700] + "..."
				}
				return sample
			})
		}
	})
}

func describeInfo(info *gtab.Info) string {
	if info == nil {
		return "none"
	}
	var b strings.Builder
	for tag, f := range info.ScriptList {
		fmt.Fprintf(&b, "%v=%v ", tag, *f)
	}
	for _, f := range info.FeatureList {
		fmt.Fprintf(&b, "%s=%v ", f.Tag, f.Lookups)
	}
	return b.String() + "\n" + gen.FormatLookups(info.LookupList)
}
