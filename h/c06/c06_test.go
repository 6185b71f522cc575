// Package c06 compares the application of GSUB and GPOS lookups to a
// reference implementation.
package c06

import (
	"bytes"
	"fmt"
	"slices"
	"testing"

	"pgregory.net/rapid"

	"seehuhn.de/go/postscript/funit"

	"seehuhn.de/go/sfnt/glyph"
	"seehuhn.de/go/sfnt/opentype/classdef"
	"seehuhn.de/go/sfnt/opentype/coverage"
	"seehuhn.de/go/sfnt/opentype/gdef"
	"seehuhn.de/go/sfnt/opentype/gtab"

	"seehuhn.de/go/sfnt/verif/gen"
	"seehuhn.de/go/sfnt/verif/pbt"
	"seehuhn.de/go/sfnt/verif/ref"
)

func TestMain(m *testing.M) { pbt.Main(m) }

func show(seq []glyph.Info) string {
	var b bytes.Buffer
	for i, g := range seq {
		if i > 0 {
			b.WriteByte(' ')
		}
		fmt.Fprintf(&b, "%d%q", g.GID, string(g.Text))
		if g.XOffset != 0 || g.YOffset != 0 || g.Advance != 0 {
			fmt.Fprintf(&b, "(%d,%d;%d)", g.XOffset, g.YOffset, g.Advance)
		}
	}
	return b.String()
}

func same(a, b []glyph.Info) bool {
	return slices.EqualFunc(a, b, func(x, y glyph.Info) bool {
		return x.GID == y.GID && slices.Equal(x.Text, y.Text) &&
			x.XOffset == y.XOffset && x.YOffset == y.YOffset && x.Advance == y.Advance
	})
}

func showGdef(g *gdef.Table) string {
	if g == nil {
		return "none"
	}
	return fmt.Sprintf("classes=%v attach=%v sets=%v", g.GlyphClass, g.MarkAttachClass, g.MarkGlyphSets)
}

type checker struct {
	ll      gtab.LookupList
	gd      *gdef.Table
	lookups []gtab.LookupIndex
	shaper  *ref.Shaper
	ctx     *gtab.Context

	n, gray, changed int
	sample           string
}

func newChecker(ll gtab.LookupList, gd *gdef.Table, lookups []gtab.LookupIndex) *checker {
	return &checker{
		ll: ll, gd: gd, lookups: lookups,
		shaper: &ref.Shaper{Lookups: ll, Gdef: gd, Used: map[string]int{}},
		ctx:    gtab.NewContext(ll, gd, lookups),
	}
}

func (c *checker) check(t interface{ Fatalf(string, ...any) }, seq []glyph.Info) {
	want := c.shaper.Apply(c.lookups, seq)
	c.n++
	if c.shaper.Gray != "" {
		c.gray++
		// the reference has no opinion; start again with a fresh context
		c.ctx = gtab.NewContext(c.ll, c.gd, c.lookups)
		return
	}
	in := slices.Clone(seq)
	got := c.ctx.Apply(in)
	if !same(want, got) {
		t.Fatalf("wrong result of applying lookups\ninput %s\ngot   %s\nwant  %s\nlookups %v\nGDEF %s\n%s",
			show(seq), show(got), show(want), c.lookups, showGdef(c.gd), gen.FormatLookups(c.ll))
	}
	if !same(want, seq) {
		c.changed++
		c.sample = fmt.Sprintf("%s -> %s", show(seq), show(want))
	}
}

func (c *checker) report(pc *pbt.Case) {
	for k := range c.shaper.Used {
		pc.Class("applied " + k)
	}
	pc.ClassIf(c.gray > 0, "some sequences undefined by the specification")
	pc.ClassIf(c.gray == c.n, "all sequences undefined by the specification")
	if c.changed > 0 {
		pc.NonTrivial([]byte(gen.FormatLookups(c.ll) + showGdef(c.gd)))
		pc.Sample(func() string {
			return fmt.Sprintf("%d sequences, %d changed, %d undefined, e.g. %s; lookups %v GDEF %s %s",
				c.n, c.changed, c.gray, c.sample, c.lookups, showGdef(c.gd), gen.FormatLookups(c.ll))
		})
	}
}

// sequences calls f for every sequence over the alphabet, up to the given length.
func sequences(alphabet []glyph.ID, maxLen int, f func([]glyph.ID)) {
	var rec func(prefix []glyph.ID)
	rec = func(prefix []glyph.ID) {
		f(prefix)
		if len(prefix) == maxLen {
			return
		}
		for _, g := range alphabet {
			rec(append(prefix, g))
		}
	}
	rec(make([]glyph.ID, 0, maxLen))
}

func run(t *rapid.T, pc *pbt.Case, o *gen.GtabOpts, minLookups, maxLookups int) {
	n := rapid.IntRange(2, 6).Draw(t, "nGlyphs")
	base := rapid.SampledFrom([]int{1, 1, 1, 1, 300, 65530}).Draw(t, "firstGid")
	for i := 0; i < n; i++ {
		o.Glyphs = append(o.Glyphs, glyph.ID((base+i)&0xFFFF))
	}
	o.Gdef = o.DrawGdef(t)
	ll := o.LookupList(t, minLookups, maxLookups)

	var lookups []gtab.LookupIndex
	if rapid.IntRange(0, 2).Draw(t, "top") == 0 {
		lookups = []gtab.LookupIndex{0}
	} else {
		for i := range ll {
			if rapid.IntRange(0, 2).Draw(t, "use") > 0 {
				lookups = append(lookups, gtab.LookupIndex(i))
			}
		}
	}
	if len(lookups) == 0 {
		lookups = []gtab.LookupIndex{0}
	}
	if rapid.IntRange(0, 19).Draw(t, "outOfRange") == 0 {
		lookups = append(lookups, gtab.LookupIndex(len(ll)))
	}
	advances := map[glyph.ID]funit.Int16{}
	if o.Gpos {
		for i, g := range o.Glyphs {
			if !o.Gdef.IsMark(g) || i == 1 {
				advances[g] = funit.Int16(100 * (i + 1))
			}
		}
	}

	c := newChecker(ll, o.Gdef, lookups)
	letters := []rune("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ")
	mk := func(gids []glyph.ID) []glyph.Info {
		seq := make([]glyph.Info, len(gids))
		for i, g := range gids {
			seq[i] = glyph.Info{GID: g, Text: letters[i : i+1 : i+1], Advance: advances[g]}
		}
		return seq
	}

	// all sequences over a part of the alphabet
	alphabet := o.Glyphs
	maxLen := 6
	switch k := rapid.IntRange(0, 9).Draw(t, "exhaustive"); {
	case len(alphabet) == 2:
		maxLen = 7
	case k == 0 && len(alphabet) >= 4:
		alphabet = rapid.Permutation(o.Glyphs).Draw(t, "alphabet")[:4]
		maxLen = 5
	default:
		alphabet = rapid.Permutation(o.Glyphs).Draw(t, "alphabet")[:3]
		if k > 2 {
			maxLen = 5
		}
		if pbt.Thorough() {
			maxLen = 6
		}
	}
	sequences(alphabet, maxLen, func(gids []glyph.ID) { c.check(t, mk(gids)) })

	// longer sequences
	for k := 0; k < 6; k++ {
		gids := rapid.SliceOfN(rapid.SampledFrom(o.Glyphs), 0, 24).Draw(t, "seq")
		c.check(t, mk(gids))
	}
	c.report(pc)
}

// nested draws contextual rules which skip glyphs, with nested lookups which do not.
func nested(t *rapid.T, o *gen.GtabOpts) gtab.LookupList {
	gg := o.Glyphs
	set := func(label string) coverage.Set {
		res := coverage.Set{}
		mask := rapid.OneOf(rapid.Just(1<<len(gg)-1), rapid.IntRange(1, 1<<len(gg)-1)).Draw(t, label)
		for i, g := range gg {
			if mask>>i&1 != 0 {
				res[g] = true
			}
		}
		return res
	}
	sets := func(label string, lo, hi int) []coverage.Set {
		res := make([]coverage.Set, rapid.IntRange(lo, hi).Draw(t, label+"N"))
		for i := range res {
			res[i] = set(label)
		}
		return res
	}
	gid := rapid.SampledFrom(gg)
	n := rapid.IntRange(3, 6).Draw(t, "nLookups")
	ll := make(gtab.LookupList, n)
	for i := range ll {
		tp := uint16(5)
		if i > 0 {
			tp = rapid.SampledFrom([]uint16{1, 2, 2, 4, 4, 5, 5, 6}).Draw(t, "tp")
		}
		meta := &gtab.LookupMetaInfo{LookupType: tp}
		flagged := i == 0
		if i > 0 && tp != 1 && tp != 2 {
			flagged = rapid.IntRange(0, 2).Draw(t, "flagged") == 0
		}
		if flagged {
			meta.LookupFlags = rapid.SampledFrom([]gtab.LookupFlags{gtab.IgnoreMarks, gtab.IgnoreBaseGlyphs, gtab.IgnoreLigatures}).Draw(t, "flags")
		}
		var actions []gtab.SeqLookup
		if tp >= 5 {
			for k := rapid.IntRange(1, 4).Draw(t, "nActions"); k > 0; k-- {
				actions = append(actions, gtab.SeqLookup{
					SequenceIndex:   uint16(rapid.SampledFrom([]int{0, 0, 1, 1, 1, 2, 2, 3, 4}).Draw(t, "seqIdx")),
					LookupListIndex: gtab.LookupIndex(rapid.IntRange(min(i+1, n-1), n-1).Draw(t, "child")),
				})
			}
		}
		var sub gtab.Subtable
		switch tp {
		case 1:
			sub = &gtab.Gsub1_1{Cov: set("cov1"), Delta: glyph.ID(rapid.IntRange(0, 2).Draw(t, "delta"))}
		case 2:
			cov := set("cov2").ToTable()
			repl := make([][]glyph.ID, len(cov))
			for j := range repl {
				repl[j] = rapid.SliceOfN(gid, 1, 3).Draw(t, "repl")
			}
			sub = &gtab.Gsub2_1{Cov: cov, Repl: repl}
		case 4:
			cov := set("cov4").ToTable()
			repl := make([][]gtab.Ligature, len(cov))
			for j := range repl {
				for k := rapid.IntRange(1, 3).Draw(t, "nLig"); k > 0; k-- {
					repl[j] = append(repl[j], gtab.Ligature{In: rapid.SliceOfN(gid, 1, 3).Draw(t, "in"), Out: gid.Draw(t, "out")})
				}
			}
			sub = &gtab.Gsub4_1{Cov: cov, Repl: repl}
		case 5:
			sub = &gtab.SeqContext3{Input: sets("in5", 2, 4), Actions: actions}
		case 6:
			sub = &gtab.ChainedSeqContext3{Backtrack: sets("back", 0, 1), Input: sets("in6", 1, 3), Lookahead: sets("ahead", 0, 1), Actions: actions}
		}
		ll[i] = &gtab.LookupTable{Meta: meta, Subtables: []gtab.Subtable{sub}}
	}
	return ll
}

// TestNested checks nested lookups.
func TestNested(t *testing.T) {
	pbt.Check(t, 120000, 2000000, func(t *rapid.T, pc *pbt.Case) {
		o := &gen.GtabOpts{}
		for i := rapid.IntRange(2, 3).Draw(t, "nGlyphs"); i > 0; i-- {
			o.Glyphs = append(o.Glyphs, glyph.ID(len(o.Glyphs)+1))
		}
		gd := &gdef.Table{GlyphClass: classdef.Table{}}
		for _, g := range o.Glyphs {
			if c := rapid.IntRange(0, 3).Draw(t, "class"); c > 0 {
				gd.GlyphClass[g] = uint16(c)
			}
		}
		c := newChecker(nested(t, o), gd, []gtab.LookupIndex{0})
		maxLen := 6
		if len(o.Glyphs) > 2 {
			maxLen = 5
		}
		if pbt.Thorough() {
			maxLen++
		}
		letters := []rune("abcdefghijklm")
		sequences(o.Glyphs, maxLen, func(gids []glyph.ID) {
			seq := make([]glyph.Info, len(gids))
			for i, g := range gids {
				seq[i] = glyph.Info{GID: g, Text: letters[i : i+1 : i+1]}
			}
			c.check(t, seq)
		})
		c.report(pc)
	})
}

// TestGsub checks substitutions.
func TestGsub(t *testing.T) {
	pbt.Check(t, 40000, 600000, func(t *rapid.T, pc *pbt.Case) {
		o := &gen.GtabOpts{}
		switch rapid.IntRange(0, 4).Draw(t, "kind") {
		case 0: // simple lookups
			o.Types = []uint16{1, 2, 3, 4, 4, 8}
			run(t, pc, o, 1, 3)
		case 1: // ligatures
			o.Types = []uint16{4}
			run(t, pc, o, 1, 2)
		default:
			run(t, pc, o, 1, 6)
		}
	})
}

// TestGpos checks positioning.
func TestGpos(t *testing.T) {
	pbt.Check(t, 20000, 300000, func(t *rapid.T, pc *pbt.Case) {
		o := &gen.GtabOpts{Gpos: true}
		switch rapid.IntRange(0, 4).Draw(t, "kind") {
		case 4: // cursive attachment
			o.Types = []uint16{3}
			o.MaxSub = 1
			run(t, pc, o, 1, 2)
		case 0: // simple lookups
			o.Types = []uint16{1, 2, 2}
			run(t, pc, o, 1, 3)
		case 1: // mark attachment
			o.Types = []uint16{4, 6, 4, 6, 1}
			run(t, pc, o, 1, 3)
		default:
			run(t, pc, o, 1, 5)
		}
	})
}
