// Package c15 checks the layout of strings.
package c15

import (
	"bytes"
	"fmt"
	"math"
	"math/rand/v2"
	"sort"
	"strings"
	"testing"

	"golang.org/x/image/font"
	xsfnt "golang.org/x/image/font/sfnt"
	"golang.org/x/image/math/fixed"
	"golang.org/x/text/language"

	"pgregory.net/rapid"

	"seehuhn.de/go/postscript/funit"

	"seehuhn.de/go/sfnt"
	"seehuhn.de/go/sfnt/cff"
	"seehuhn.de/go/sfnt/cmap"
	"seehuhn.de/go/sfnt/glyf"
	"seehuhn.de/go/sfnt/glyph"
	"seehuhn.de/go/sfnt/opentype/gdef"
	"seehuhn.de/go/sfnt/opentype/gtab"

	"seehuhn.de/go/sfnt/verif/data"
	"seehuhn.de/go/sfnt/verif/gen"
	"seehuhn.de/go/sfnt/verif/pbt"
	"seehuhn.de/go/sfnt/verif/ref"
)

func TestMain(m *testing.M) { pbt.Main(m) }

type fataler = gen.Fataler

// The default features.
var (
	gsubDefaults = map[string]bool{"calt": true, "ccmp": true, "clig": true, "liga": true, "locl": true}
	gposDefaults = map[string]bool{"kern": true, "mark": true, "mkmk": true}
)

// lookupsOf returns the lookups for a language system.
func lookupsOf(info *gtab.Info, sys *gtab.Features, on map[string]bool) []gtab.LookupIndex {
	use := make([]bool, len(info.LookupList))
	add := func(i gtab.FeatureIndex) {
		for _, l := range info.FeatureList[i].Lookups {
			if int(l) < len(use) {
				use[l] = true
			}
		}
	}
	if int(sys.Required) < len(info.FeatureList) {
		add(sys.Required)
	}
	for _, i := range sys.Optional {
		if int(i) < len(info.FeatureList) && on[info.FeatureList[i].Tag] {
			add(i)
		}
	}
	var res []gtab.LookupIndex
	for i, x := range use {
		if x {
			res = append(res, gtab.LookupIndex(i))
		}
	}
	return res
}

func sameLookups(a, b []gtab.LookupIndex) bool { return fmt.Sprint(a) == fmt.Sprint(b) }

// drawSwitches draws a feature-switch map.
func drawSwitches(t *rapid.T, info *gtab.Info) map[string]bool {
	mode := rapid.IntRange(0, 3).Draw(t, "switchMode")
	if mode == 0 {
		return nil
	}
	res := map[string]bool{}
	if mode == 1 {
		return res
	}
	tags := append([]string{}, gen.FeatureTags...)
	if info != nil {
		for _, f := range info.FeatureList {
			tags = append(tags, f.Tag)
		}
	}
	for _, tag := range tags {
		switch rapid.IntRange(0, 2).Draw(t, "switch") {
		case 0:
			res[tag] = true
		case 1:
			res[tag] = mode == 3
		}
	}
	return res
}

var someLangs = []string{"en", "de", "de-CH", "tr", "ro", "ar", "fa", "hi", "zh", "ja", "und", "sr-Latn", "sr-Cyrl", "nl", "x-foo", "gsw", "und-Arab", "el-polyton", "en-US-u-co-phonebk"}

// drawLang draws a language.
func drawLang(t *rapid.T, info *gtab.Info) language.Tag {
	if info != nil && len(info.ScriptList) > 0 && rapid.Bool().Draw(t, "knownLang") {
		var tags []string
		byName := map[string]language.Tag{}
		for tag := range info.ScriptList {
			tags = append(tags, tag.String())
			byName[tag.String()] = tag
		}
		sort.Strings(tags)
		return byName[rapid.SampledFrom(tags).Draw(t, "lang")]
	}
	return language.MustParse(rapid.SampledFrom(someLangs).Draw(t, "lang"))
}

// again returns a copy of the table, where the maps have a new internal order.
func again(rng *rand.Rand, info *gtab.Info) *gtab.Info {
	res := *info
	var tags []language.Tag
	for tag := range info.ScriptList {
		tags = append(tags, tag)
	}
	sort.Slice(tags, func(i, j int) bool { return tags[i].String() < tags[j].String() })
	rng.Shuffle(len(tags), func(i, j int) { tags[i], tags[j] = tags[j], tags[i] })
	res.ScriptList = gtab.ScriptListInfo{}
	for _, tag := range tags {
		res.ScriptList[tag] = info.ScriptList[tag]
	}
	return &res
}

// checkFind checks the selection of lookups.
func checkFind(t fataler, c *pbt.Case, rng *rand.Rand, info *gtab.Info, lang language.Tag, on map[string]bool) []gtab.LookupIndex {
	before := gen.Dump(info.ScriptList) + gen.Dump(info.FeatureList) + gen.Dump(on)
	got := info.FindLookups(lang, on)
	for range 3 {
		if x := again(rng, info).FindLookups(lang, on); !sameLookups(x, got) {
			t.Fatalf("language %v, features %v: repeated calls give %d and %d", lang, on, got, x)
		}
	}
	if gen.Dump(info.ScriptList)+gen.Dump(info.FeatureList)+gen.Dump(on) != before {
		t.Fatalf("FindLookups modifies its arguments")
	}
	if len(info.ScriptList) == 0 {
		if len(got) != 0 {
			t.Fatalf("lookups %d for a table without language systems", got)
		}
		return got
	}
	for i, l := range got {
		if int(l) >= len(info.LookupList) || i > 0 && got[i-1] >= l {
			t.Fatalf("invalid sequence of lookups %d, for a table with %d lookups", got, len(info.LookupList))
		}
	}
	if sys, ok := info.ScriptList[lang]; ok {
		if want := lookupsOf(info, sys, on); !sameLookups(want, got) {
			t.Fatalf("language system %v, features %v: lookups %d, want %d", lang, on, got, want)
		}
		c.ClassIf(len(got) > 0, "exact language, some lookups")
		c.ClassIf(len(got) > 0 && int(sys.Required) < len(info.FeatureList) && !on[info.FeatureList[sys.Required].Tag], "required feature")
		return got
	}
	var options []string
	for tag, sys := range info.ScriptList {
		want := lookupsOf(info, sys, on)
		if sameLookups(want, got) {
			c.ClassIf(len(got) > 0, "other language, some lookups")
			return got
		}
		options = append(options, fmt.Sprint(tag, want))
	}
	t.Fatalf("language %v, features %v: lookups %d do not belong to any of the language systems %v", lang, on, got, options)
	return nil
}

// TestFind checks the selection of features.
func TestFind(t *testing.T) {
	pbt.Check(t, 20000, 400000, func(t *rapid.T, c *pbt.Case) {
		rng := gen.Rand(t)
		info := &gtab.Info{}
		info.FeatureList = gen.DrawFeatures(t, rng, false)
		for n := rapid.IntRange(0, 12).Draw(t, "numLookups"); n > 0; n-- {
			info.LookupList = append(info.LookupList, &gtab.LookupTable{Meta: &gtab.LookupMetaInfo{LookupType: 1}})
		}
		numFeatures := len(info.FeatureList)
		for _, f := range info.FeatureList {
			f.Lookups = nil
			for k := rng.IntN(5); k > 0; k-- {
				l := gtab.LookupIndex(rng.IntN(len(info.LookupList) + 3))
				if rng.IntN(15) == 0 {
					l = 65535
				}
				f.Lookups = append(f.Lookups, l)
			}
		}
		info.ScriptList, _ = gen.DrawScripts(t, rng, false)
		if rapid.IntRange(0, 9).Draw(t, "moreScripts") == 0 {
			for i := 0; i < 5; i++ {
				l, _ := gen.DrawScripts(t, rng, false)
				for tag, f := range l {
					if len(info.ScriptList) < 20 {
						info.ScriptList[tag] = f
					}
				}
			}
		}
		// use valid features, most of the time
		var tags []language.Tag
		for tag := range info.ScriptList {
			tags = append(tags, tag)
		}
		sort.Slice(tags, func(i, j int) bool { return tags[i].String() < tags[j].String() })
		for _, tag := range tags {
			sys := info.ScriptList[tag]
			if numFeatures > 0 && sys.Required != 0xFFFF && rng.IntN(4) > 0 {
				sys.Required = gtab.FeatureIndex(rng.IntN(numFeatures))
			}
			for i := range sys.Optional {
				if numFeatures > 0 && rng.IntN(8) > 0 {
					sys.Optional[i] = gtab.FeatureIndex(rng.IntN(numFeatures))
				}
			}
		}
		c.NonTrivial([]byte(gen.Dump(info)))
		for range 3 {
			lang := drawLang(t, info)
			on := drawSwitches(t, info)
			got := checkFind(t, c, rng, info, lang, on)
			c.Sample(func() string {
				return fmt.Sprintf("%d language systems, %d features, %d lookups; %v %v -> %d", len(info.ScriptList), numFeatures, len(info.LookupList), lang, on, got)
			})
		}
	})
}

// TestSystems checks that every pair of script and language is selected.
func TestSystems(t *testing.T) {
	n := len(data.Scripts)
	pbt.Enumerate(t, n, func(i int, c *pbt.Case) {
		script := data.Scripts[i]
		rng := rand.New(rand.NewPCG(uint64(pbt.Seed()), uint64(i)))
		langs := append([]string{""}, data.Langs...)
		rng.Shuffle(len(langs), func(i, j int) { langs[i], langs[j] = langs[j], langs[i] })
		if !pbt.Thorough() {
			langs = langs[:120]
		}
		for len(langs) > 0 {
			k := min(len(langs), 1+rng.IntN(20))
			group := langs[:k]
			langs = langs[k:]
			info := &gtab.Info{ScriptList: gtab.ScriptListInfo{}}
			names := map[language.Tag][2]string{}
			for tag, x := range gen.TagsFor(script, group) {
				names[tag] = x
			}
			// some language systems from another script
			for tag, x := range gen.TagsFor(data.Scripts[rng.IntN(n)], []string{"", data.Langs[rng.IntN(len(data.Langs))]}) {
				if _, seen := names[tag]; !seen {
					names[tag] = x
				}
			}
			var tags []language.Tag
			for tag := range names {
				tags = append(tags, tag)
			}
			sort.Slice(tags, func(i, j int) bool { return tags[i].String() < tags[j].String() })
			for j, tag := range tags {
				info.ScriptList[tag] = &gtab.Features{Required: gtab.FeatureIndex(j)}
				info.FeatureList = append(info.FeatureList, &gtab.Feature{Tag: "test", Lookups: []gtab.LookupIndex{gtab.LookupIndex(j)}})
				info.LookupList = append(info.LookupList, &gtab.LookupTable{Meta: &gtab.LookupMetaInfo{}})
			}
			for j, tag := range tags {
				got := info.FindLookups(tag, nil)
				if len(got) != 1 || int(got[0]) != j {
					who := "none"
					if len(got) == 1 {
						who = fmt.Sprint(tags[got[0]], names[tags[got[0]]])
					}
					pbt.Failf("%v %q: uses language system %s (of %v)", tag, names[tag], who, tags)
				}
				c.NonTrivial([]byte(fmt.Sprint(names[tag], k)))
			}
		}
		c.Sample(func() string { return script })
	})
}

// reference lays out a string.
func reference(t fataler, f *sfnt.Font, m map[uint32]uint32, s string, gsub, gpos []gtab.LookupIndex) []glyph.Info {
	var seq []glyph.Info
	for _, r := range s {
		seq = append(seq, glyph.Info{GID: glyph.ID(m[uint32(r)]), Text: []rune{r}})
	}
	if f.Gsub != nil {
		seq = gtab.NewContext(f.Gsub.LookupList, f.Gdef, gsub).Apply(seq)
	}
	for i := range seq {
		g := seq[i].GID
		if f.Gdef != nil && f.Gdef.GlyphClass != nil && f.Gdef.GlyphClass[g] == gdef.GlyphClassMark {
			continue
		}
		seq[i].Advance = width(f, g)
	}
	if f.Gpos != nil {
		seq = gtab.NewContext(f.Gpos.LookupList, f.Gdef, gpos).Apply(seq)
	}
	return seq
}

// width returns the advance width of a glyph.
func width(f *sfnt.Font, g glyph.ID) funit.Int16 {
	switch o := f.Outlines.(type) {
	case *glyf.Outlines:
		if int(g) < len(o.Widths) {
			return o.Widths[g]
		}
	case *cff.Outlines:
		if int(g) < len(o.Glyphs) {
			return funit.Int16(math.Round(o.Glyphs[g].Width))
		}
	}
	return 0
}

// drawString draws a string.
func drawString(t *rapid.T, m map[uint32]uint32) string {
	var mapped []rune
	for code := range m {
		mapped = append(mapped, rune(code))
	}
	sort.Slice(mapped, func(i, j int) bool { return mapped[i] < mapped[j] })
	var b strings.Builder
	for n := rapid.SampledFrom([]int{4, 6, 8, 10, 3, 2, 1, 0}).Draw(t, "strLen"); n > 0; n-- {
		switch k := rapid.IntRange(0, 9).Draw(t, "charKind"); {
		case k < 6 && len(mapped) > 0:
			b.WriteRune(rapid.SampledFrom(mapped).Draw(t, "mappedChar"))
		case k == 6:
			b.WriteString(rapid.SampledFrom([]string{"\xff", "\xed\xa0\x80", "\U00010041", "\u0000", "\U0010FFFF", "e\u0301"}).Draw(t, "oddChar"))
		case k == 7 && len(mapped) > 0:
			r := rapid.SampledFrom(mapped).Draw(t, "nearChar") + rune(rapid.SampledFrom([]int{1, -1, 0x10000}).Draw(t, "offs"))
			b.WriteRune(r)
		default:
			b.WriteRune(rapid.SampledFrom([]rune("aAfilxHé€漢字")).Draw(t, "char"))
		}
	}
	return b.String()
}

// useful makes sure that the lookups are used by the language systems.
func useful(t *rapid.T, rng *rand.Rand, info *gtab.Info, tags []string) {
	if info == nil || len(info.ScriptList) == 0 {
		return
	}
	numLookups := len(info.LookupList)
	info.FeatureList = nil
	for k := 1 + rng.IntN(5); k > 0; k-- {
		f := &gtab.Feature{Tag: tags[rng.IntN(len(tags))]}
		for l := 1 + rng.IntN(3); l > 0; l-- {
			switch {
			case rng.IntN(12) == 0:
				f.Lookups = append(f.Lookups, gtab.LookupIndex(numLookups+rng.IntN(3)))
			case numLookups > 0:
				f.Lookups = append(f.Lookups, gtab.LookupIndex(rng.IntN(numLookups)))
			}
		}
		info.FeatureList = append(info.FeatureList, f)
	}
	var tt []language.Tag
	for tag := range info.ScriptList {
		tt = append(tt, tag)
	}
	sort.Slice(tt, func(i, j int) bool { return tt[i].String() < tt[j].String() })
	for _, tag := range tt {
		sys := info.ScriptList[tag]
		sys.Optional = nil
		switch rng.IntN(6) {
		case 0, 1:
			sys.Required = gtab.FeatureIndex(rng.IntN(len(info.FeatureList)))
		case 2:
			sys.Required = gtab.FeatureIndex(len(info.FeatureList) + rng.IntN(3))
		default:
			sys.Required = 0xFFFF
		}
		for _, i := range rng.Perm(len(info.FeatureList) + 1) {
			if rng.IntN(3) > 0 {
				sys.Optional = append(sys.Optional, gtab.FeatureIndex(i))
			}
		}
	}
}

func drawFont(t *rapid.T, rng *rand.Rand) *sfnt.Font {
	f := gen.Font(t, gen.FontOpts{MaxGlyphs: 24, NoRare: true, NoLayout: true})
	n := f.NumGlyphs()
	if rapid.IntRange(0, 3).Draw(t, "simpleCmap") > 0 {
		m := cmap.Format4{}
		for i := 0; i < n; i++ {
			m[uint16('a'+i)] = glyph.ID(i)
		}
		f.CMapTable = cmap.Table{{PlatformID: 3, EncodingID: 1}: m.Encode(0)}
	}
	if rapid.IntRange(0, 7).Draw(t, "noLayout") == 0 {
		return f
	}
	var glyphs []glyph.ID
	for i := 0; i < min(n, 9); i++ {
		glyphs = append(glyphs, glyph.ID(i))
	}
	o := &gen.GtabOpts{Glyphs: glyphs, WellFormed: true}
	if rapid.Bool().Draw(t, "hasGdef") {
		f.Gdef = o.DrawGdef(t)
	}
	o.Gdef = f.Gdef
	switch rapid.IntRange(0, 9).Draw(t, "gsubKind") {
	case 0:
	case 1:
		f.Gsub = &gtab.Info{}
	default:
		f.Gsub = o.Info(t, 1, 4)
	}
	useful(t, rng, f.Gsub, []string{"calt", "ccmp", "clig", "liga", "locl", "smcp", "kern", "mark"})
	o2 := *o
	o2.Gpos = true
	switch rapid.IntRange(0, 9).Draw(t, "gposKind") {
	case 0:
	case 1:
		f.Gpos = &gtab.Info{}
	default:
		f.Gpos = o2.Info(t, 1, 4)
	}
	useful(t, rng, f.Gpos, []string{"kern", "mark", "mkmk", "cpsp", "liga"})
	return f
}

// TestLayout compares the layout of strings to the specified sequence of steps.
func TestLayout(t *testing.T) {
	pbt.Check(t, 12000, 300000, func(t *rapid.T, c *pbt.Case) {
		rng := gen.Rand(t)
		f := drawFont(t, rng)
		c.Class(gen.Kind(f))
		before := gen.DumpFont(f)
		m, ok := gen.BestCmap(t, f)
		gsubOn := drawSwitches(t, f.Gsub)
		gposOn := drawSwitches(t, f.Gpos)
		info := f.Gsub
		if info == nil || rapid.Bool().Draw(t, "gposLang") {
			info = f.Gpos
		}
		lang := drawLang(t, info)
		lay, err := f.NewLayouter(lang, gsubOn, gposOn)
		if !ok {
			c.Class("no usable cmap")
			if err == nil {
				t.Fatalf("layout for a font without usable cmap")
			}
			return
		}
		if err != nil {
			t.Fatalf("NewLayouter: %v", err)
		}
		gs, gp := gsubOn, gposOn
		if gs == nil {
			gs = gsubDefaults
		}
		if gp == nil {
			gp = gposDefaults
		}
		var gsubL, gposL []gtab.LookupIndex
		if f.Gsub != nil {
			gsubL = checkFind(t, c, rng, f.Gsub, lang, gs)
		}
		if f.Gpos != nil {
			gposL = checkFind(t, c, rng, f.Gpos, lang, gp)
		}
		c.ClassIf(gsubOn == nil && len(gsubL) > 0 || gposOn == nil && len(gposL) > 0, "default features")
		lay2, err := f.NewLayouter(lang, gsubOn, gposOn)
		if err != nil {
			t.Fatalf("NewLayouter: %v", err)
		}
		var strs []string
		for range 3 {
			strs = append(strs, drawString(t, m))
		}
		strs = append(strs, strs[0])
		for k, s := range strs {
			want := reference(t, f, m, s, gsubL, gposL)
			pbt.Doing(func() string { return fmt.Sprintf("%q", s) })
			got := lay.Layout(s)
			if p, q := gen.Dump(want), gen.Dump(got); p != q {
				t.Fatalf("Layout(%q), call %d, GSUB %d, GPOS %d: %.800s; cmap %.2000s", s, k, gsubL, gposL, gen.DiffText(p, q), gen.Dump(f.CMapTable))
			}
			if k == 1 {
				// another layouter does not interfere
				lay2.Layout(strs[2])
				if p, q := gen.Dump(want), gen.Dump(got); p != q {
					t.Fatalf("Layout(%q) is overwritten by another layouter", s)
				}
			}
			if len(gsubL) == 0 && len(gposL) == 0 {
				c.Class("no rules")
				i := 0
				for _, r := range s {
					if i >= len(got) || string(got[i].Text) != string([]rune{r}) || got[i].GID != glyph.ID(m[uint32(r)]) {
						t.Fatalf("Layout(%q) gives %v", s, got)
					}
					w := width(f, got[i].GID)
					if f.Gdef.IsMark(got[i].GID) {
						w = 0
					}
					if got[i].Advance != w || got[i].XOffset != 0 || got[i].YOffset != 0 {
						t.Fatalf("Layout(%q) gives %v", s, got)
					}
					i++
				}
				if i != len(got) {
					t.Fatalf("Layout(%q) gives %d glyphs", s, len(got))
				}
			}
			if len(s) > 0 {
				c.NonTrivial([]byte(s + before))
			}
			plain := reference(t, f, m, s, nil, nil)
			c.ClassIf(gen.Dump(plain) != gen.Dump(got), "rules change the output")
			c.ClassIf(len(got) != len([]rune(s)), "length changes")
			for _, r := range s {
				c.ClassIf(m[uint32(r)] == 0, "unmapped character")
			}
			for _, x := range got {
				c.ClassIf(f.Gdef.IsMark(x.GID), "mark")
			}
		}
		if gen.DumpFont(f) != before {
			t.Fatalf("layout modifies the font: %s", gen.DiffText(before, gen.DumpFont(f)))
		}
		c.Sample(func() string {
			return fmt.Sprintf("%s, %v, GSUB %d, GPOS %d, %q", gen.Kind(f), lang, gsubL, gposL, strs[:3])
		})
	})
}

// kernSubtable is a subtable of a "kern" table.
type kernSubtable struct {
	version, format, flags int
	pairs                  map[glyph.Pair]int
}

func (k *kernSubtable) encode() []byte {
	var keys []glyph.Pair
	for p := range k.pairs {
		keys = append(keys, p)
	}
	sort.Slice(keys, func(i, j int) bool {
		return keys[i].Left < keys[j].Left || keys[i].Left == keys[j].Left && keys[i].Right < keys[j].Right
	})
	es, p := 0, 1
	for 2*p <= len(keys) {
		p *= 2
		es++
	}
	if len(keys) == 0 {
		p = 0
	}
	var b []byte
	for _, v := range []int{k.version, 14 + 6*len(keys), k.format<<8 | k.flags, len(keys), 6 * p, es, 6 * (len(keys) - p)} {
		b = append(b, ref.P16(v&0xFFFF)...)
	}
	for _, q := range keys {
		b = append(b, ref.P16(int(q.Left))...)
		b = append(b, ref.P16(int(q.Right))...)
		b = append(b, ref.P16(k.pairs[q]&0xFFFF)...)
	}
	return b
}

// drawKern draws a "kern" table.
func drawKern(t *rapid.T, c *pbt.Case, n int) []*kernSubtable {
	var res []*kernSubtable
	for k := rapid.SampledFrom([]int{1, 1, 2, 3, 4, 0}).Draw(t, "kernSubtables"); k > 0; k-- {
		s := &kernSubtable{pairs: map[glyph.Pair]int{}}
		s.flags = rapid.SampledFrom([]int{1, 1, 1, 1, 3, 9, 0, 5, 2, 4, 8, 0x11, 0x81}).Draw(t, "flags")
		if rapid.IntRange(0, 11).Draw(t, "otherFormat") == 0 {
			s.format = rapid.IntRange(1, 3).Draw(t, "format")
		} else if rapid.IntRange(0, 15).Draw(t, "otherVersion") == 0 {
			s.version = 1
		}
		for m := rapid.IntRange(0, 10).Draw(t, "kernPairs"); m > 0; m-- {
			p := glyph.Pair{Left: glyph.ID(rapid.IntRange(0, n-1).Draw(t, "left")), Right: glyph.ID(rapid.IntRange(0, n-1).Draw(t, "right"))}
			s.pairs[p] = rapid.OneOf(rapid.SampledFrom([]int{0, -50, 1, 100, -8000, 8000}), rapid.IntRange(-8000, 8000)).Draw(t, "kern")
		}
		if rapid.IntRange(0, 300).Draw(t, "manyPairs") == 177 {
			// the length of the subtable must fit 16 bits, except for the last
			m := 10920
			if k == 1 && rapid.Bool().Draw(t, "tooMany") {
				m = 15000
			}
			for i := 0; len(s.pairs) < m; i++ {
				x := gen.Mix(uint32(i), uint32(m))
				s.pairs[glyph.Pair{Left: glyph.ID(x), Right: glyph.ID(x >> 16)}] = int(x%3000) - 1500
			}
			c.Class("many pairs")
		}
		res = append(res, s)
	}
	return res
}

// kernValue returns the kerning for a pair of glyphs.
func kernValue(tables []*kernSubtable, p glyph.Pair) int {
	res := 0
	for _, s := range tables {
		v, ok := s.pairs[p]
		if !ok || s.version != 0 || s.format != 0 {
			continue
		}
		switch s.flags {
		case 1: // horizontal
			res += v
		case 3: // minimum
			res = max(res, v)
		case 9: // override
			res = v
		}
	}
	return res
}

// TestKern checks fonts which only have a kern table.
func TestKern(t *testing.T) {
	pbt.Check(t, 10000, 250000, func(t *rapid.T, c *pbt.Case) {
		plain := rapid.Bool().Draw(t, "plain")
		f := gen.Font(t, gen.FontOpts{MaxGlyphs: 12, NoLayout: true, NoRare: true, Plain: plain})
		n := f.NumGlyphs()
		m := cmap.Format4{}
		for i := 0; i < n; i++ {
			m[uint16(0xE000+i)] = glyph.ID(i)
		}
		f.CMapTable = cmap.Table{{PlatformID: 3, EncodingID: 1}: m.Encode(0)}
		if rapid.Bool().Draw(t, "marks") {
			f.Gdef = &gdef.Table{GlyphClass: map[glyph.ID]uint16{glyph.ID(n / 2): gdef.GlyphClassMark}}
		}
		buf := &bytes.Buffer{}
		if _, err := f.Write(buf); err != nil {
			t.Fatalf("Write: %v", err)
		}
		p, err := ref.ParseContainer(buf.Bytes())
		if err != nil {
			t.Fatal(err)
		}
		tables := map[string][]byte{}
		for k, v := range p.Tables {
			tables[k] = v
		}
		kern := drawKern(t, c, n)
		kb := append(ref.P16(0), ref.P16(len(kern))...)
		for _, s := range kern {
			kb = append(kb, s.encode()...)
		}
		tables["kern"] = kb
		b := ref.BuildContainer(p.Scaler, tables)
		got, err := sfnt.Read(bytes.NewReader(b))
		if err != nil {
			t.Fatalf("cannot read font with kern table: %v", err)
		}
		lang := drawLang(t, nil)
		lay, err := got.NewLayouter(lang, nil, nil)
		if err != nil {
			t.Fatalf("NewLayouter: %v", err)
		}
		// the file can be written and read again
		buf2 := &bytes.Buffer{}
		if _, err := got.Write(buf2); err != nil {
			t.Fatalf("Write: %v", err)
		}
		got2, err := sfnt.Read(bytes.NewReader(buf2.Bytes()))
		if err != nil {
			t.Fatalf("Read: %v", err)
		}
		lay2, err := got2.NewLayouter(lang, nil, nil)
		if err != nil {
			t.Fatalf("NewLayouter: %v", err)
		}

		check := func(gg []glyph.ID) {
			var rr []rune
			for _, g := range gg {
				rr = append(rr, rune(0xE000+int(g)))
			}
			want := make([]glyph.Info, len(gg))
			for i, g := range gg {
				want[i] = glyph.Info{GID: g, Text: rr[i : i+1]}
				w := 0
				if !f.Gdef.IsMark(g) {
					w = int(width(f, g))
				}
				if i+1 < len(gg) {
					k := kernValue(kern, glyph.Pair{Left: g, Right: gg[i+1]})
					c.ClassIf(k != 0, "kerning")
					w += k
				}
				if w < -32768 || w > 32767 {
					c.Class("advance width too large")
					return
				}
				want[i].Advance = funit.Int16(w)
			}
			for i, l := range []*sfnt.Layouter{lay, lay2} {
				if p, q := gen.Dump(want), gen.Dump(l.Layout(string(rr))); p != q {
					t.Fatalf("glyphs %d, kern table %s, written again %v: %s", gg, gen.Dump(kern), i == 1, gen.DiffText(p, q))
				}
			}
		}
		for _, s := range kern {
			i := 0
			for _, q := range sortedPairs(s.pairs) {
				if int(q.Left) < n && int(q.Right) < n {
					check([]glyph.ID{q.Left, q.Right})
					check([]glyph.ID{q.Right, q.Left})
				}
				if i++; i > 50 {
					break
				}
			}
			c.ClassIf(len(s.pairs) > 0, fmt.Sprintf("coverage flags %02x", s.flags))
		}
		for range 3 {
			check(rapid.SliceOfN(rapid.Custom(func(t *rapid.T) glyph.ID { return glyph.ID(rapid.IntRange(0, n-1).Draw(t, "g")) }), 0, 10).Draw(t, "text"))
		}
		c.NonTrivial(kb)
		c.Sample(func() string { return fmt.Sprintf("%s, kern table %.300s", gen.Kind(f), gen.Dump(kern)) })

		if plain && len(kern) == 1 && kern[0].flags == 1 && kern[0].format == 0 && kern[0].version == 0 && len(kern[0].pairs) > 0 && len(kern[0].pairs) <= 10920 {
			x, err := xsfnt.Parse(b)
			if err != nil {
				t.Fatalf("golang.org/x/image cannot read the font: %v", err)
			}
			c.Class("compared to golang.org/x/image")
			xb := &xsfnt.Buffer{}
			for i := 0; i < n; i++ {
				for j := 0; j < n; j++ {
					k, err := x.Kern(xb, xsfnt.GlyphIndex(i), xsfnt.GlyphIndex(j), fixed.Int26_6(f.UnitsPerEm), font.HintingNone)
					if err != nil && err != xsfnt.ErrNotFound {
						t.Fatalf("golang.org/x/image: %v", err)
					}
					if want := kernValue(kern, glyph.Pair{Left: glyph.ID(i), Right: glyph.ID(j)}); int(k) != want {
						t.Fatalf("golang.org/x/image: kerning for %d, %d is %d, want %d", i, j, k, want)
					}
				}
			}
		}
	})
}

func sortedPairs(m map[glyph.Pair]int) []glyph.Pair {
	var keys []glyph.Pair
	for p := range m {
		keys = append(keys, p)
	}
	sort.Slice(keys, func(i, j int) bool {
		return keys[i].Left < keys[j].Left || keys[i].Left == keys[j].Left && keys[i].Right < keys[j].Right
	})
	return keys
}

// TestLigatures checks the standard ligatures.
func TestLigatures(t *testing.T) {
	pbt.Check(t, 8000, 200000, func(t *rapid.T, c *pbt.Case) {
		rng := gen.Rand(t)
		f := gen.Font(t, gen.FontOpts{NumGlyphs: rapid.IntRange(12, 20).Draw(t, "n"), NoLayout: true, NoRare: true})
		n := f.NumGlyphs()
		// distinct glyphs for all characters
		perm := rng.Perm(n - 1)
		m := map[rune]glyph.ID{}
		for i, r := range []rune("filﬀﬁﬂﬃﬄax") {
			if rapid.IntRange(0, 6).Draw(t, "missing") > 0 {
				m[r] = glyph.ID(perm[i] + 1)
			}
		}
		switch rapid.IntRange(0, 2).Draw(t, "cmapKind") {
		case 0:
			s := cmap.Format12{}
			for r, g := range m {
				s[uint32(r)] = g
			}
			f.CMapTable = cmap.Table{{PlatformID: 3, EncodingID: 10}: s.Encode(0)}
		default:
			s := cmap.Format4{}
			for r, g := range m {
				s[uint16(r)] = g
			}
			f.CMapTable = cmap.Table{{PlatformID: 3, EncodingID: 1}: s.Encode(0)}
		}
		if rapid.IntRange(0, 3).Draw(t, "fixed") == 0 {
			switch o := f.Outlines.(type) {
			case *glyf.Outlines:
				for i := range o.Widths {
					o.Widths[i] = 600
				}
			case *cff.Outlines:
				for i := range o.Glyphs {
					o.Glyphs[i].Width = 600
				}
			}
		}
		empty := rapid.IntRange(0, 4).Draw(t, "emptyGsub") == 0
		if empty {
			f.Gsub = &gtab.Info{}
		}
		buf := &bytes.Buffer{}
		if _, err := f.Write(buf); err != nil {
			t.Fatalf("Write: %v", err)
		}
		got, err := sfnt.Read(bytes.NewReader(buf.Bytes()))
		if err != nil {
			t.Fatalf("Read: %v", err)
		}
		equal := true
		var first funit.Int16
		for i := 0; i < n; i++ {
			if w := width(f, glyph.ID(i)); w != 0 {
				if first == 0 {
					first = w
				}
				equal = equal && w == first
			}
		}
		on := drawSwitches(t, nil)
		ligatures := !equal && !empty && (on == nil || on["liga"])
		if on != nil && !on["liga"] && !equal && !empty {
			c.Class("liga switched off")
		}
		lang := drawLang(t, nil)
		lay, err := got.NewLayouter(lang, on, nil)
		if err != nil {
			t.Fatalf("NewLayouter: %v", err)
		}
		for range 4 {
			rr := rapid.SliceOfN(rapid.SampledFrom([]rune("ffffiillaxﬀﬁ?")), 0, 12).Draw(t, "text")
			var want []glyph.Info
			for i := 0; i < len(rr); {
				g, k := m[rr[i]], 1
				if ligatures {
					for _, l := range []struct {
						s string
						r rune
					}{{"ffi", 'ﬃ'}, {"ffl", 'ﬄ'}, {"ff", 'ﬀ'}, {"fi", 'ﬁ'}, {"fl", 'ﬂ'}} {
						ok := m[l.r] != 0 && strings.HasPrefix(string(rr[i:]), l.s)
						for _, r := range l.s {
							ok = ok && m[r] != 0
						}
						if ok {
							g, k = m[l.r], len(l.s)
							c.Class("ligature")
							break
						}
					}
				}
				want = append(want, glyph.Info{GID: g, Text: rr[i : i+k], Advance: width(f, g)})
				i += k
			}
			if p, q := gen.Dump(want), gen.Dump(lay.Layout(string(rr))); p != q {
				t.Fatalf("Layout(%q), fixed pitch %v, GSUB %v, features %v: %s", string(rr), equal, empty, on, gen.DiffText(p, q))
			}
		}
		c.ClassIf(equal, "fixed pitch")
		c.ClassIf(empty, "empty GSUB table")
		c.NonTrivial([]byte(fmt.Sprint(m, equal, empty, on)))
		c.Sample(func() string { return fmt.Sprintf("%s, %v, fixed pitch %v, %v", gen.Kind(f), m, equal, on) })
	})
}

// knownSystems lists some languages with their OpenType tags.
var knownSystems = []struct{ bcp, script, lang string }{
	{"de", "latn", "DEU "}, {"tr", "latn", "TRK "}, {"ro", "latn", "ROM "}, {"nl", "latn", "NLD "}, {"pl", "latn", "PLK "},
	{"en", "latn", "ENG "}, {"fr", "latn", "FRA "}, {"cs", "latn", "CSY "}, {"ru", "cyrl", "RUS "}, {"uk", "cyrl", "UKR "},
	{"el", "grek", "ELL "}, {"ar", "arab", "ARA "}, {"fa", "arab", "FAR "}, {"he", "hebr", "IWR "}, {"th", "thai", "THA "},
	{"de-CH", "latn", "DEU "}, {"en-AU", "latn", "ENG "}, {"fr-CA", "latn", "FRA "}, {"de-Latn", "latn", "DEU "}, {"ru-Cyrl", "cyrl", "RUS "},
	{"und-Grek", "grek", ""}, {"und-Cyrl", "cyrl", ""}, {"und-Arab", "arab", ""}, {"und-Thai", "thai", ""}, {"und-Hebr", "hebr", ""},
}

// TestChoice checks that the language system for a language is used, where the font has one.
func TestChoice(t *testing.T) {
	pbt.Enumerate(t, 400, func(i int, c *pbt.Case) {
		rng := rand.New(rand.NewPCG(uint64(pbt.Seed()), uint64(i)))
		byScript := map[string]map[string]bool{"DFLT": {"": true}, "latn": {"": true}}
		for _, k := range rng.Perm(len(knownSystems))[:1+rng.IntN(12)] {
			x := knownSystems[k]
			if byScript[x.script] == nil {
				byScript[x.script] = map[string]bool{}
			}
			byScript[x.script][x.lang] = true
		}
		info := &gtab.Info{ScriptList: gtab.ScriptListInfo{}}
		names := map[language.Tag][2]string{}
		var tags []language.Tag
		for script, langs := range byScript {
			var ll []string
			for l := range langs {
				ll = append(ll, l)
			}
			sort.Strings(ll)
			for tag, x := range gen.TagsFor(script, ll) {
				names[tag] = x
				tags = append(tags, tag)
			}
		}
		sort.Slice(tags, func(i, j int) bool { return tags[i].String() < tags[j].String() })
		for j, tag := range tags {
			info.ScriptList[tag] = &gtab.Features{Required: 0xFFFF, Optional: []gtab.FeatureIndex{gtab.FeatureIndex(j)}}
			info.FeatureList = append(info.FeatureList, &gtab.Feature{Tag: "kern", Lookups: []gtab.LookupIndex{gtab.LookupIndex(j)}})
			info.LookupList = append(info.LookupList, &gtab.LookupTable{Meta: &gtab.LookupMetaInfo{}})
		}
		for _, x := range knownSystems {
			if !byScript[x.script][x.lang] {
				continue
			}
			got := info.FindLookups(language.MustParse(x.bcp), map[string]bool{"kern": true})
			if len(got) != 1 || int(got[0]) >= len(tags) || names[tags[got[0]]] != [2]string{x.script, x.lang} {
				pbt.Failf("language %s: lookups %d, want the language system %s/%s of %v", x.bcp, got, x.script, x.lang, tags)
			}
			c.NonTrivial([]byte(fmt.Sprint(tags, x.bcp)))
		}
		c.Sample(func() string { return fmt.Sprint(tags) })
	})
}
