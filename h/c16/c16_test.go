// Package c16 checks that unmodified fonts can be used concurrently.
package c16

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"math/rand/v2"
	"os"
	"sort"
	"strings"
	"sync"
	"testing"

	"golang.org/x/text/language"
	"pgregory.net/rapid"

	"seehuhn.de/go/postscript/cid"

	"seehuhn.de/go/sfnt"
	"seehuhn.de/go/sfnt/cff"
	"seehuhn.de/go/sfnt/cmap"
	"seehuhn.de/go/sfnt/glyf"
	"seehuhn.de/go/sfnt/glyph"
	"seehuhn.de/go/sfnt/opentype/coverage"
	"seehuhn.de/go/sfnt/opentype/gtab"
	"seehuhn.de/go/sfnt/opentype/gtab/builder"

	"seehuhn.de/go/sfnt/verif/gen"
	"seehuhn.de/go/sfnt/verif/pbt"
	"seehuhn.de/go/sfnt/verif/ref"
)

func TestMain(m *testing.M) {
	if !haveRace && os.Getenv("VERIF_OUT") != "" {
		fmt.Println("HARNESS-ERROR: built without the race detector")
		os.Exit(3)
	}
	pbt.Main(m)
}

// An op is a read-only operation.  The function returns a description of the
// result.
type op struct {
	name string
	run  func(f *sfnt.Font) string
}

func (o op) do(f *sfnt.Font) (res string) {
	defer func() {
		if r := recover(); r != nil {
			res = fmt.Sprint("panic: ", r)
		}
	}()
	return o.run(f)
}

func sum(b []byte, rest ...any) string {
	return fmt.Sprintf("%d bytes %x %v", len(b), sha256.Sum256(b), rest)
}

func short(s string) string {
	if len(s) < 4000 {
		return s
	}
	return s[:2000] + "..." + sum([]byte(s))
}

func writeFont(f *sfnt.Font) string {
	buf := &bytes.Buffer{}
	n, err := f.Write(buf)
	return sum(buf.Bytes(), n, err)
}

// touch modifies a font which belongs to the caller.
func touch(f *sfnt.Font, how int) {
	f.FamilyName = "changed"
	f.IsBold = !f.IsBold
	if how&1 != 0 {
		f.EnsureGlyphNames()
	}
	if o, ok := f.Outlines.(*cff.Outlines); ok && how&2 != 0 {
		if o.IsCIDKeyed() {
			o.MakeSimple(nil)
		} else {
			gidToCID := make([]cid.CID, len(o.Glyphs))
			for i := range gidToCID {
				gidToCID[i] = cid.CID(i)
			}
			o.MakeCIDKeyed(&cid.SystemInfo{Registry: "Adobe", Ordering: "Identity"}, gidToCID)
		}
	}
	if how&4 != 0 {
		f.InstallCMap(cmap.Format4{'x': 0})
	}
}

var languages = []string{"en", "de", "de-DE", "tr", "ar", "ja", "und", "zh-Hans", "sr-Cyrl"}

func drawString(t *rapid.T, f *sfnt.Font) string {
	n := f.NumGlyphs()
	var rr []rune
	for k := rapid.IntRange(0, 12).Draw(t, "len"); k > 0; k-- {
		rr = append(rr, rune('a'+rapid.IntRange(0, min(n, 20)).Draw(t, "r")))
	}
	return string(rr)
}

func drawGlyphs(t *rapid.T, n int) []glyph.ID {
	list := []glyph.ID{0}
	seen := map[glyph.ID]bool{0: true}
	for k := rapid.IntRange(0, 2*min(n, 12)).Draw(t, "numGlyphs"); k > 0; k-- {
		g := glyph.ID(rapid.IntRange(0, n-1).Draw(t, "g"))
		if !seen[g] {
			seen[g] = true
			list = append(list, g)
		}
	}
	return list
}

func drawSeq(t *rapid.T, n int) []glyph.Info {
	var seq []glyph.Info
	for k := rapid.IntRange(0, 14).Draw(t, "seqLen"); k > 0; k-- {
		seq = append(seq, glyph.Info{GID: glyph.ID(rapid.IntRange(0, min(n, 9)-1).Draw(t, "g")), Text: []rune{rune('a' + k)}, Advance: 500})
	}
	return seq
}

// shape applies lookups of a shared list several times.
func shape(f *sfnt.Font, info *gtab.Info, lookups []gtab.LookupIndex, seq []glyph.Info) string {
	ctx := gtab.NewContext(info.LookupList, f.Gdef, lookups)
	var b strings.Builder
	for range 2 {
		s := append([]glyph.Info{}, seq...)
		for i := range s {
			s[i].Text = append([]rune{}, s[i].Text...)
		}
		b.WriteString(gen.Dump(ctx.Apply(s)))
	}
	return b.String()
}

var kinds = func() []int {
	var res []int
	for i := range 36 {
		res = append(res, i*11%36)
	}
	return res
}()

// drawOp draws an operation.
func drawOp(t *rapid.T, f *sfnt.Font) op {
	n := f.NumGlyphs()
	kind := rapid.SampledFrom(kinds).Draw(t, "op")
	gid := func() glyph.ID { return glyph.ID(rapid.IntRange(0, n-1).Draw(t, "gid")) }
	switch kind {
	case 0, 1:
		return op{"Write", writeFont}
	case 2:
		if f.IsGlyf() {
			extra := rapid.Bool().Draw(t, "extra")
			return op{"WriteTrueTypePDF", func(f *sfnt.Font) string {
				buf := &bytes.Buffer{}
				var args []any
				if extra {
					args = append(args, "test", []byte{1, 2, 3})
				}
				n, err := f.WriteTrueTypePDF(buf, args...)
				return sum(buf.Bytes(), n, err)
			}}
		}
		return op{"WriteOpenTypeCFFPDF", func(f *sfnt.Font) string {
			buf := &bytes.Buffer{}
			err := f.WriteOpenTypeCFFPDF(buf)
			return sum(buf.Bytes(), err)
		}}
	case 3:
		if f.IsGlyf() {
			return op{"Glyphs.Encode", func(f *sfnt.Font) string { return gen.Dump(f.Outlines.(*glyf.Outlines).Glyphs.Encode()) }}
		}
		return op{"AsCFF().Write", func(f *sfnt.Font) string {
			buf := &bytes.Buffer{}
			err := f.AsCFF().Write(buf)
			return sum(buf.Bytes(), err)
		}}
	case 4, 5, 6:
		list := drawGlyphs(t, n)
		how := rapid.IntRange(0, 7).Draw(t, "touch")
		return op{fmt.Sprintf("Subset(%d)/%d", list, how), func(f *sfnt.Font) string {
			g := f.Subset(append([]glyph.ID{}, list...))
			res := gen.DumpFont(g)
			if how != 0 {
				g.FamilyName = "subset"
			}
			res += writeFont(g)
			// the subset belongs to the caller
			touch(g, how)
			return res + writeFont(g)
		}}
	case 7:
		return op{"Clone", func(f *sfnt.Font) string {
			g := f.Clone()
			g.FamilyName = "clone"
			g.InstallCMap(cmap.Format4{'x': 0})
			g.Gsub, g.Gdef = nil, nil
			return writeFont(g)
		}}
	case 8:
		return op{"FontBBox", func(f *sfnt.Font) string { return fmt.Sprint(f.FontBBox(), f.FontBBoxPDF()) }}
	case 9:
		return op{"Widths", func(f *sfnt.Font) string {
			return fmt.Sprint(f.Widths(), f.WidthsPDF(), f.GlyphBBoxes(), f.IsFixedPitch())
		}}
	case 10:
		return op{"WidthsMapPDF", func(f *sfnt.Font) string { return fmt.Sprint(f.WidthsMapPDF()) }}
	case 11:
		return op{"glyphs one by one", func(f *sfnt.Font) string {
			var b strings.Builder
			for i := 0; i < f.NumGlyphs(); i++ {
				g := glyph.ID(i)
				fmt.Fprint(&b, f.GlyphWidth(g), f.GlyphWidthPDF(g), f.GlyphBBox(g), f.Outlines.GlyphBBoxPDF(f.FontMatrix, g), f.GlyphName(g))
			}
			return b.String()
		}}
	case 12, 13:
		return op{"MakeGlyphNames", func(f *sfnt.Font) string { return fmt.Sprintf("%q", f.MakeGlyphNames()) }}
	case 14:
		return op{"names", func(f *sfnt.Font) string {
			return fmt.Sprint(f.FullName(), f.Subfamily(), f.PostScriptName(), f.IsGlyf(), f.IsCFF()) + gen.Dump(f.GetFontInfo())
		}}
	case 15:
		return op{"BuiltinEncoding", func(f *sfnt.Font) string { return fmt.Sprintf("%q", f.BuiltinEncoding()) }}
	case 16, 17, 18, 19:
		lang := language.Make(rapid.SampledFrom(languages).Draw(t, "lang"))
		var s []string
		for k := rapid.IntRange(1, 3).Draw(t, "strings"); k > 0; k-- {
			s = append(s, drawString(t, f))
		}
		var gsub, gpos map[string]bool
		if rapid.Bool().Draw(t, "features") {
			gsub = map[string]bool{"liga": true, "kern": true, "ccmp": true, "smcp": true}
			gpos = map[string]bool{"kern": true, "liga": true, "mark": true}
		}
		return op{fmt.Sprintf("Layout(%q)", s), func(f *sfnt.Font) string {
			l, err := f.NewLayouter(lang, gsub, gpos)
			if err != nil {
				return err.Error()
			}
			var b strings.Builder
			for _, s := range s {
				b.WriteString(gen.Dump(l.Layout(s)))
			}
			return b.String()
		}}
	case 20, 21, 22, 23:
		info := func(f *sfnt.Font) *gtab.Info { return f.Gsub }
		name := "GSUB"
		if kind&1 != 0 {
			info = func(f *sfnt.Font) *gtab.Info { return f.Gpos }
			name = "GPOS"
		}
		if info(f) == nil {
			return op{"Write", writeFont}
		}
		seq := drawSeq(t, n)
		var lookups []gtab.LookupIndex
		for i := range info(f).LookupList {
			if rapid.IntRange(0, 3).Draw(t, "use") > 0 {
				lookups = append(lookups, gtab.LookupIndex(i))
			}
		}
		return op{fmt.Sprintf("apply %s %v", name, lookups), func(f *sfnt.Font) string { return shape(f, info(f), lookups, seq) }}
	case 24:
		lang := language.Make(rapid.SampledFrom(languages).Draw(t, "lang"))
		return op{"FindLookups", func(f *sfnt.Font) string {
			res := ""
			if f.Gsub != nil {
				res = fmt.Sprint(f.Gsub.FindLookups(lang, gtab.GsubDefaultFeatures))
			}
			if f.Gpos != nil {
				res += fmt.Sprint(f.Gpos.FindLookups(lang, gtab.GposDefaultFeatures))
			}
			return res
		}}
	case 25:
		return op{"encode layout tables", func(f *sfnt.Font) string {
			res := ""
			if f.Gsub != nil {
				res = sum(f.Gsub.Encode())
			}
			if f.Gpos != nil {
				res += sum(f.Gpos.Encode())
			}
			if f.Gdef != nil {
				res += sum(f.Gdef.Encode())
			}
			return res + sum(f.CMapTable.Encode())
		}}
	case 26, 27:
		if f.Gsub == nil {
			return op{"MakeGlyphNames", func(f *sfnt.Font) string { return fmt.Sprintf("%q", f.MakeGlyphNames()) }}
		}
		return op{"ExplainGsub", func(f *sfnt.Font) string { return builder.ExplainGsub(f) }}
	case 28, 29:
		if f.Gpos == nil {
			return op{"FontBBox", func(f *sfnt.Font) string { return fmt.Sprint(f.FontBBox(), f.FontBBoxPDF()) }}
		}
		return op{"ExplainGpos", func(f *sfnt.Font) string { return fmt.Sprintf("%q", builder.ExplainGpos(f)) }}
	case 30:
		return op{"cmap", func(f *sfnt.Font) string {
			var keys []cmap.Key
			for key := range f.CMapTable {
				keys = append(keys, key)
			}
			sort.Slice(keys, func(i, j int) bool { return fmt.Sprint(keys[i]) < fmt.Sprint(keys[j]) })
			var b strings.Builder
			for _, key := range keys {
				s, err := f.CMapTable.Get(key)
				fmt.Fprint(&b, key, err)
				if err == nil {
					for r := rune(0); r < 300; r++ {
						fmt.Fprint(&b, s.Lookup(r), " ")
					}
					b.WriteString(sum(s.Encode(0)))
				}
			}
			s, err := f.CMapTable.GetBest()
			fmt.Fprint(&b, err)
			if err == nil {
				fmt.Fprint(&b, s.Lookup('a'), s.Lookup('x'))
			}
			return b.String()
		}}
	case 31:
		g := gid()
		return op{fmt.Sprint("decode glyph ", g), func(f *sfnt.Font) string {
			switch o := f.Outlines.(type) {
			case *glyf.Outlines:
				g := o.Glyphs[g]
				if g == nil {
					return ""
				}
				if s, ok := g.Data.(glyf.SimpleGlyph); ok {
					info, err := s.Decode()
					return gen.Dump(info) + fmt.Sprint(err)
				}
				ren := map[glyph.ID]glyph.ID{}
				for i, x := range g.Components() {
					ren[x] = glyph.ID(i)
				}
				return gen.Dump(g.FixComponents(ren)) + fmt.Sprint(g.Components())
			case *cff.Outlines:
				return fmt.Sprint(o.Glyphs[g].Extent(), o.Glyphs[g].String())
			}
			return "?"
		}}
	case 32:
		if f.IsGlyf() {
			return op{"Write", writeFont}
		}
		list := drawGlyphs(t, n)
		how := rapid.IntRange(0, 1).Draw(t, "convert")
		return op{fmt.Sprintf("AsCFF/%d", how), func(f *sfnt.Font) string {
			cf := f.AsCFF()
			res := fmt.Sprint(cf.Widths(), cf.WidthsPDF(), cf.WidthsMapPDF(), cf.FontBBoxPDF(), cf.BBox(), cf.NumGlyphs(), cf.GlyphWidthPDF(list[len(list)-1]))
			o := cf.Outlines.Subset(list)
			res += gen.Dump(o)
			// copies may be modified
			c2 := cf.Clone()
			c2.FontName = "clone"
			o2 := *cf.Outlines
			c2.Outlines = &o2
			if how == 0 || o2.IsCIDKeyed() {
				o2.MakeSimple(map[glyph.ID]string{0: "x"})
			} else {
				gidToCID := make([]cid.CID, len(o2.Glyphs))
				for i := range gidToCID {
					gidToCID[i] = cid.CID(i)
				}
				o2.MakeCIDKeyed(&cid.SystemInfo{Registry: "Adobe", Ordering: "Identity"}, gidToCID)
			}
			buf := &bytes.Buffer{}
			err := c2.Write(buf)
			return res + sum(buf.Bytes(), err)
		}}
	case 33:
		return op{"Write+Read", func(f *sfnt.Font) string {
			buf := &bytes.Buffer{}
			_, err := f.Write(buf)
			if err != nil {
				return err.Error()
			}
			g, err := sfnt.Read(bytes.NewReader(buf.Bytes()))
			if err != nil {
				return err.Error()
			}
			res := gen.DumpFont(g)
			touch(g, 1)
			return res + writeFont(g)
		}}
	case 34:
		return op{"Parse(Explain)", func(f *sfnt.Font) string {
			if f.Gsub == nil || len(f.Gsub.LookupList) == 0 {
				return ""
			}
			ll, err := builder.Parse(f, builder.ExplainGsub(f))
			return gen.FormatLookups(ll) + fmt.Sprint(err)
		}}
	default:
		return op{"StandardEncoding", func(f *sfnt.Font) string {
			if o, ok := f.Outlines.(*cff.Outlines); ok {
				return fmt.Sprint(cff.StandardEncoding(o.Glyphs), o.Encoding)
			}
			o := f.Outlines.(*glyf.Outlines)
			return fmt.Sprint(len(o.Tables), o.Maxp)
		}}
	}
}

func useful(rng *rand.Rand, info *gtab.Info, tags []string) {
	if info == nil {
		return
	}
	info.ScriptList = gtab.ScriptListInfo{}
	info.FeatureList = nil
	for k := 1 + rng.IntN(4); k > 0; k-- {
		f := &gtab.Feature{Tag: tags[rng.IntN(len(tags))]}
		for l := rng.IntN(3); l > 0 && len(info.LookupList) > 0; l-- {
			f.Lookups = append(f.Lookups, gtab.LookupIndex(rng.IntN(len(info.LookupList))))
		}
		info.FeatureList = append(info.FeatureList, f)
	}
	for _, l := range []string{"und-Zzzz", "und-Latn", "de-Latn", "tr-Latn", "ar-Arab"} {
		sys := &gtab.Features{Required: 0xFFFF}
		for i := range info.FeatureList {
			if rng.IntN(4) > 0 {
				sys.Optional = append(sys.Optional, gtab.FeatureIndex(i))
			}
		}
		if rng.IntN(3) > 0 {
			info.ScriptList[language.Make(l)] = sys
		}
	}
}

// drawFont draws the font, together with a description of its origin.
func drawFont(t *rapid.T) *sfnt.Font {
	rng := gen.Rand(t)
	f := gen.Font(t, gen.FontOpts{MaxGlyphs: 16, NoRare: true, NoLayout: true, InRange: true})
	n := f.NumGlyphs()
	if rapid.IntRange(0, 3).Draw(t, "simpleCmap") > 0 {
		m := cmap.Format4{}
		for i := 0; i < n; i++ {
			m[uint16('a'+i)] = glyph.ID(i)
		}
		f.CMapTable = cmap.Table{{PlatformID: 3, EncodingID: 1}: m.Encode(0)}
	}
	var glyphs []glyph.ID
	for i := 0; i < min(n, 9); i++ {
		glyphs = append(glyphs, glyph.ID(i))
	}
	o := &gen.GtabOpts{Glyphs: glyphs, WellFormed: true}
	if rapid.Bool().Draw(t, "hasGdef") {
		f.Gdef = o.DrawGdef(t)
	}
	o.Gdef = f.Gdef
	if rapid.IntRange(0, 2).Draw(t, "explainable") > 0 {
		o.Types = []uint16{1, 2, 3, 4}
	}
	if rapid.IntRange(0, 5).Draw(t, "gsub") > 0 {
		f.Gsub = o.Info(t, 0, 4)
		useful(rng, f.Gsub, []string{"calt", "ccmp", "liga", "smcp", "kern"})
	}
	o2 := *o
	o2.Gpos = true
	if o2.Types != nil {
		o2.Types = []uint16{1, 2, 3, 4}
	}
	if rapid.IntRange(0, 5).Draw(t, "gpos") > 0 {
		f.Gpos = o2.Info(t, 0, 4)
		useful(rng, f.Gpos, []string{"kern", "mark", "mkmk", "liga"})
	}
	restrict(f, rapid.IntRange(0, 2).Draw(t, "subsettable") > 0)
	if o, ok := f.Outlines.(*glyf.Outlines); ok && rapid.IntRange(0, 3).Draw(t, "noNames") == 0 {
		o.Names = nil
	}
	return f
}

// restrict removes references to missing glyphs.  If subsettable is set, only
// lookups which can be used in a subset are kept.
func restrict(f *sfnt.Font, subsettable bool) {
	n := f.NumGlyphs()
	if o, ok := f.Outlines.(*glyf.Outlines); ok {
		for _, g := range o.Glyphs {
			if g == nil {
				continue
			}
			if d, ok := g.Data.(glyf.CompositeGlyph); ok {
				for i := range d.Components {
					d.Components[i].GlyphIndex %= glyph.ID(n)
				}
			}
		}
	}
	for _, info := range []*gtab.Info{f.Gsub, f.Gpos} {
		if info == nil {
			continue
		}
		for i, l := range info.LookupList {
			good := true
			for _, s := range l.Subtables {
				switch s := s.(type) {
				case *gtab.Gsub1_1:
					for g := range s.Cov {
						if int(g+s.Delta) >= n {
							s.Delta = 0
						}
					}
				case *gtab.Gsub4_1, *gtab.Gpos2_1:
				default:
					good = false
				}
			}
			if !good && subsettable {
				tp, sub := uint16(1), []gtab.Subtable{&gtab.Gsub1_1{Cov: coverage.Set{glyph.ID(i % n): true}}}
				if info == f.Gpos {
					tp, sub = 2, []gtab.Subtable{gtab.Gpos2_1{
						{Left: glyph.ID(i % n), Right: 0}: &gtab.PairAdjust{First: &gtab.GposValueRecord{XAdvance: 7}},
						{Left: 0, Right: glyph.ID(i % n)}: &gtab.PairAdjust{First: &gtab.GposValueRecord{XAdvance: 8}},
					}}
				}
				info.LookupList[i] = &gtab.LookupTable{Meta: &gtab.LookupMetaInfo{LookupType: tp, LookupFlags: l.Meta.LookupFlags, MarkFilteringSet: l.Meta.MarkFilteringSet}, Subtables: sub}
			}
		}
	}
}

// reread replaces a font by the result of writing and reading it.
func reread(t *rapid.T, f *sfnt.Font) *sfnt.Font {
	buf := &bytes.Buffer{}
	if _, err := f.Write(buf); err != nil {
		t.Fatalf("Write: %v", err)
	}
	g, err := sfnt.Read(bytes.NewReader(buf.Bytes()))
	if err != nil {
		t.Fatalf("Read: %v", err)
	}
	return g
}

// concurrently runs the operations concurrently.
func concurrently(t gen.Fataler, c *pbt.Case, f *sfnt.Font, plans [][]op) {
	// the results of running each operation alone
	want := make([][]string, len(plans))
	for i, ops := range plans {
		for _, o := range ops {
			want[i] = append(want[i], o.do(gen.Clone(f)))
		}
	}
	desc := func() string {
		var b strings.Builder
		fmt.Fprintf(&b, "%s font with %d glyphs, ", gen.Kind(f), f.NumGlyphs())
		for i, ops := range plans {
			fmt.Fprintf(&b, "goroutine %d: ", i)
			for _, o := range ops {
				fmt.Fprintf(&b, "%s; ", o.name)
			}
		}
		return b.String()
	}
	pbt.Doing(desc)

	before := gen.DumpFont(f)
	repeat := 1
	if pbt.Replaying() {
		repeat = 20
	}
	numRaces := races()
	for range repeat {
		got := make([][]string, len(plans))
		start := make(chan struct{})
		var wg sync.WaitGroup
		for i, ops := range plans {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				res := make([]string, len(ops))
				for j, o := range ops {
					res[j] = o.do(f)
				}
				got[i] = res
			}()
		}
		close(start)
		wg.Wait()
		if races() > numRaces {
			t.Fatalf("data race (see the report above): %s", desc())
		}
		for i, ops := range plans {
			for j, o := range ops {
				if got[i][j] != want[i][j] {
					t.Fatalf("%s: goroutine %d, %s: got %s, want %s; %s", desc(), i, o.name, short(got[i][j]), short(want[i][j]), gen.DiffText(got[i][j], want[i][j]))
				}
			}
		}
	}
	if after := gen.DumpFont(f); after != before {
		t.Fatalf("%s: the font was modified: %s", desc(), gen.DiffText(before, after))
	}
	num := 0
	for i, ops := range plans {
		for j, o := range ops {
			name, _, _ := strings.Cut(o.name, "(")
			if k := strings.IndexAny(name, "/ ["); k > 0 {
				name = name[:k]
			}
			if strings.HasPrefix(want[i][j], "panic: ") {
				name += " (panic)"
			} else {
				num++
			}
			c.Class(name)
		}
	}
	if num > 1 {
		c.NonTrivial([]byte(desc() + before))
	}
	c.Sample(desc)
}

// TestShared uses generated fonts from several goroutines.
func TestShared(t *testing.T) {
	pbt.Check(t, 4000, 80000, func(t *rapid.T, c *pbt.Case) {
		f := drawFont(t)
		if rapid.IntRange(0, 2).Draw(t, "fromFile") == 0 {
			f = reread(t, f)
			c.Class("from file")
		}
		c.Class(gen.Kind(f))
		plans := make([][]op, rapid.IntRange(2, 6).Draw(t, "goroutines"))
		same := rapid.IntRange(0, 2).Draw(t, "sameOps") == 0 // all goroutines use the same operations
		for i := range plans {
			if same && i > 0 {
				plans[i] = append([]op{}, plans[0]...)
				continue
			}
			for k := rapid.IntRange(1, 5).Draw(t, "numOps"); k > 0; k-- {
				plans[i] = append(plans[i], drawOp(t, f))
			}
		}
		concurrently(t, c, f, plans)
	})
}

// TestPairs runs all pairs of operations.
func TestPairs(t *testing.T) {
	pbt.Check(t, 2000, 40000, func(t *rapid.T, c *pbt.Case) {
		f := drawFont(t)
		if rapid.IntRange(0, 2).Draw(t, "fromFile") == 0 {
			f = reread(t, f)
		}
		plans := make([][]op, 2)
		plans[0] = append(plans[0], drawOp(t, f))
		plans[1] = append(plans[1], drawOp(t, f))
		concurrently(t, c, f, plans)
	})
}

var realFonts []*sfnt.Font

func loadReal() {
	if realFonts != nil {
		return
	}
	for _, r := range gen.RealFonts(80000) {
		f, err := sfnt.Read(bytes.NewReader(r.Data))
		if err == nil {
			realFonts = append(realFonts, f)
		}
	}
	// a font with a list of standard glyph names
	buf := &bytes.Buffer{}
	f := *realFonts[0]
	o := *f.Outlines.(*glyf.Outlines)
	o.Glyphs = o.Glyphs[:258:258]
	for i, g := range o.Glyphs {
		if len(g.Components()) > 0 {
			o.Glyphs[i] = nil
		}
	}
	o.Widths = o.Widths[:258:258]
	o.Names = append([]string{}, ref.MacGlyphNames[:]...)
	f.Outlines = &o
	f.InstallCMap(cmap.Format4{'a': 5, 'b': 6})
	if _, err := f.Write(buf); err != nil {
		panic(err)
	}
	for range 2 {
		g, err := sfnt.Read(bytes.NewReader(buf.Bytes()))
		if err != nil {
			panic(err)
		}
		realFonts = append(realFonts, g)
	}
}

// TestReal uses real fonts.
func TestReal(t *testing.T) {
	loadReal()
	pbt.Check(t, 160, 3000, func(t *rapid.T, c *pbt.Case) {
		k := rapid.IntRange(0, len(realFonts)).Draw(t, "font")
		if k == len(realFonts) {
			k = len(realFonts) - 1
		}
		f := realFonts[k]
		plans := make([][]op, rapid.IntRange(2, 4).Draw(t, "goroutines"))
		for i := range plans {
			for k := rapid.IntRange(1, 3).Draw(t, "numOps"); k > 0; k-- {
				plans[i] = append(plans[i], drawOp(t, f))
			}
		}
		c.ClassIf(k >= len(realFonts)-2, "standard names")
		concurrently(t, c, f, plans)
	})
}
