// Package c10 checks font subsetting.
package c10

import (
	"bytes"
	"fmt"
	"math/rand/v2"
	"reflect"
	"sort"
	"strings"
	"testing"

	"pgregory.net/rapid"

	"golang.org/x/text/language"

	"seehuhn.de/go/postscript/funit"

	"seehuhn.de/go/sfnt"
	"seehuhn.de/go/sfnt/cff"
	"seehuhn.de/go/sfnt/glyf"
	"seehuhn.de/go/sfnt/glyph"
	"seehuhn.de/go/sfnt/opentype/coverage"
	"seehuhn.de/go/sfnt/opentype/gtab"

	"seehuhn.de/go/sfnt/verif/gen"
	"seehuhn.de/go/sfnt/verif/pbt"
	"seehuhn.de/go/sfnt/verif/ref"
)

func TestMain(m *testing.M) { pbt.Main(m) }

type fataler = gen.Fataler

// drawLookups draws lookups of the types supported by the subsetter.
func drawLookups(t *rapid.T, n int) gtab.LookupList {
	g := func(label string) glyph.ID {
		return glyph.ID(rapid.OneOf(rapid.IntRange(0, min(n, 12)-1), rapid.IntRange(0, n-1)).Draw(t, label))
	}
	rng := rand.New(rand.NewPCG(rapid.Uint64().Draw(t, "lookupRng"), 2))
	o := &gen.GtabOpts{Glyphs: []glyph.ID{0}}
	k := rapid.IntRange(0, 5).Draw(t, "numLookups")
	var ll gtab.LookupList
	for i := 0; i < k; i++ {
		l := &gtab.LookupTable{Meta: o.Meta(t, 0)}
		single := rapid.Bool().Draw(t, "single")
		l.Meta.LookupType = 4
		if single {
			l.Meta.LookupType = 1
		}
		for j := rapid.IntRange(0, 2).Draw(t, "numSubtables"); j >= 0; j-- {
			if single {
				cov := coverage.Set{}
				delta := int(g("to")) - int(g("from"))
				for x := rapid.IntRange(1, 5).Draw(t, "numCov"); x > 0; x-- {
					gid := int(g("cov"))
					if gid+delta >= 0 && gid+delta < n {
						cov[glyph.ID(gid)] = true
					}
				}
				if len(cov) == 0 {
					cov[0] = true
					delta = rapid.IntRange(0, n-1).Draw(t, "delta0")
				}
				l.Subtables = append(l.Subtables, &gtab.Gsub1_1{Cov: cov, Delta: glyph.ID(delta)})
				continue
			}
			s := &gtab.Gsub4_1{Cov: coverage.Table{}}
			first := map[glyph.ID]bool{}
			for x := rapid.IntRange(1, 4).Draw(t, "numFirst"); x > 0; x-- {
				first[g("first")] = true
			}
			for _, gid := range sorted(first) {
				s.Cov[gid] = len(s.Repl)
				var set []gtab.Ligature
				for x := rapid.IntRange(1, 4).Draw(t, "numLigs"); x > 0; x-- {
					lig := gtab.Ligature{In: []glyph.ID{}, Out: g("ligOut")}
					for y := rapid.IntRange(0, 3).Draw(t, "ligLen"); y > 0; y-- {
						if rng.IntN(2) == 0 {
							lig.In = append(lig.In, glyph.ID(rng.IntN(min(n, 6))))
						} else {
							lig.In = append(lig.In, g("ligIn"))
						}
					}
					set = append(set, lig)
				}
				s.Repl = append(s.Repl, set)
			}
			l.Subtables = append(l.Subtables, s)
		}
		ll = append(ll, l)
	}
	return ll
}

func drawKerning(t *rapid.T, n int) gtab.LookupList {
	g := func(label string) glyph.ID {
		return glyph.ID(rapid.OneOf(rapid.IntRange(0, min(n, 12)-1), rapid.IntRange(0, n-1)).Draw(t, label))
	}
	o := &gen.GtabOpts{Glyphs: []glyph.ID{0}, Gpos: true}
	var ll gtab.LookupList
	for i := rapid.IntRange(0, 3).Draw(t, "numKernLookups"); i > 0; i-- {
		l := &gtab.LookupTable{Meta: o.Meta(t, 2)}
		l.Meta.LookupType = 2
		for j := rapid.IntRange(0, 1).Draw(t, "numKernSubtables"); j >= 0; j-- {
			s := gtab.Gpos2_1{}
			for x := rapid.IntRange(0, 12).Draw(t, "numPairs"); x > 0; x-- {
				adj := &gtab.PairAdjust{First: o.ValueRecord(t, rapid.IntRange(0, 7).Draw(t, "format1"))}
				if rapid.IntRange(0, 2).Draw(t, "second") == 0 {
					adj.Second = o.ValueRecord(t, rapid.IntRange(0, 7).Draw(t, "format2"))
				}
				s[glyph.Pair{Left: g("left"), Right: g("right")}] = adj
			}
			l.Subtables = append(l.Subtables, s)
		}
		ll = append(ll, l)
	}
	return ll
}

func drawInfo(t *rapid.T, ll gtab.LookupList) *gtab.Info {
	rng := gen.Rand(t)
	info := &gtab.Info{LookupList: ll}
	info.ScriptList, _ = gen.DrawScripts(t, rng, false)
	info.FeatureList = gen.DrawFeatures(t, rng, false)
	for _, f := range info.FeatureList {
		var l []gtab.LookupIndex
		for i := range f.Lookups {
			if len(ll) > 0 {
				l = append(l, gtab.LookupIndex(int(f.Lookups[i])%len(ll)))
			}
		}
		f.Lookups = l
	}
	return info
}

func sorted[K ~uint16 | ~uint32, V any](m map[K]V) []K {
	var res []K
	for k := range m {
		res = append(res, k)
	}
	sort.Slice(res, func(i, j int) bool { return res[i] < res[j] })
	return res
}

// drawFont draws a font where all glyphs can be told apart.
func drawFont(t *rapid.T, c *pbt.Case) *sfnt.Font {
	f := gen.Font(t, gen.FontOpts{MaxGlyphs: 24, NoLayout: true, InRange: true})
	n := f.NumGlyphs()
	switch o := f.Outlines.(type) {
	case *glyf.Outlines:
		for _, g := range o.Glyphs {
			if g == nil {
				continue
			}
			if comp, ok := g.Data.(glyf.CompositeGlyph); ok {
				for i := range comp.Components {
					x := &comp.Components[i]
					x.GlyphIndex = glyph.ID(int(x.GlyphIndex) % n)
				}
			}
		}
		if rapid.Bool().Draw(t, "uniqueWidths") || n > 65000 {
			// a bijection on the glyph IDs
			a := uint16(2*rapid.IntRange(0, 1000).Draw(t, "widthsA") + 1)
			b := rapid.Uint16().Draw(t, "widthsB")
			o.Widths = make([]funit.Int16, n)
			for i := range o.Widths {
				o.Widths[i] = funit.Int16(uint16(i)*a + b)
			}
		} else {
			o.Names = make([]string, n)
			for i := range o.Names {
				o.Names[i] = fmt.Sprintf("n%d", i)
			}
			o.Names[0] = ".notdef"
			if rapid.IntRange(0, 3).Draw(t, "nilWidths") == 0 {
				o.Widths = nil
			}
		}
	}
	if rapid.IntRange(0, 3).Draw(t, "hasGsub") > 0 {
		f.Gsub = drawInfo(t, drawLookups(t, n))
	}
	if rapid.IntRange(0, 3).Draw(t, "hasGpos") > 0 {
		f.Gpos = drawInfo(t, drawKerning(t, n))
	}
	return f
}

// drawList draws a list of glyphs, starting with 0.
func drawList(t *rapid.T, n int) []glyph.ID {
	rng := gen.Rand(t)
	perm := rng.Perm(n)
	k := n
	switch rapid.IntRange(0, 4).Draw(t, "listMode") {
	case 0: // only .notdef
		return []glyph.ID{0}
	case 1: // the full list, in order, reverse order, or random order
		switch rapid.IntRange(0, 2).Draw(t, "order") {
		case 0:
			for i := range perm {
				perm[i] = i
			}
		case 1:
			for i := range perm {
				perm[i] = n - 1 - i
			}
		}
	case 2:
		k = min(n, rapid.IntRange(1, 4).Draw(t, "fewGlyphs"))
	default:
		k = rapid.IntRange(1, n).Draw(t, "listLen")
		if rapid.Bool().Draw(t, "sorted") {
			sort.Ints(perm[:k])
		}
	}
	list := []glyph.ID{0}
	for _, x := range perm[:k] {
		if x != 0 {
			list = append(list, glyph.ID(x))
		}
	}
	return list
}

type rule struct {
	in  []glyph.ID
	out glyph.ID
}

// rulesOf lists the rules in a GSUB table.
func rulesOf(info *gtab.Info) []rule {
	if info == nil {
		return nil
	}
	var res []rule
	for _, l := range info.LookupList {
		for _, s := range l.Subtables {
			switch s := s.(type) {
			case *gtab.Gsub1_1:
				for gid := range s.Cov {
					res = append(res, rule{[]glyph.ID{gid}, gid + s.Delta})
				}
			case *gtab.Gsub1_2:
				for gid, i := range s.Cov {
					res = append(res, rule{[]glyph.ID{gid}, s.SubstituteGlyphIDs[i]})
				}
			case *gtab.Gsub4_1:
				for gid, i := range s.Cov {
					for _, lig := range s.Repl[i] {
						res = append(res, rule{append([]glyph.ID{gid}, lig.In...), lig.Out})
					}
				}
			}
		}
	}
	return res
}

// closure returns the glyphs which a subset needs (must), and the glyphs which it may
// contain, because a ligature may involve glyphs which are only used as components.
func closure(f *sfnt.Font, list []glyph.ID) (must, may map[glyph.ID]bool) {
	set := func(withComponents bool, from map[glyph.ID]bool) map[glyph.ID]bool {
		res := map[glyph.ID]bool{}
		for g := range from {
			res[g] = true
		}
		rules := rulesOf(f.Gsub)
		for changed := true; changed; {
			changed = false
			add := func(g glyph.ID) {
				if !res[g] {
					res[g] = true
					changed = true
				}
			}
			for _, r := range rules {
				ok := true
				for _, g := range r.in {
					ok = ok && res[g]
				}
				if ok {
					add(r.out)
				}
			}
			if o, ok := f.Outlines.(*glyf.Outlines); ok && withComponents {
				for g := range res {
					if o.Glyphs[g] == nil {
						continue
					}
					if comp, ok := o.Glyphs[g].Data.(glyf.CompositeGlyph); ok {
						for _, x := range comp.Components {
							add(x.GlyphIndex)
						}
					}
				}
			}
		}
		return res
	}
	start := map[glyph.ID]bool{}
	for _, g := range list {
		start[g] = true
	}
	may = set(true, start)
	must = set(false, start)
	save := f.Gsub
	defer func() { f.Gsub = save }()
	f.Gsub = nil
	must = set(true, must)
	return must, may
}

// sameGlyph compares everything but the component references of glyphs.
func sameGlyph(f, g *sfnt.Font, i, j glyph.ID, oldID []glyph.ID) error {
	diff := func(what string, a, b any) error {
		if p, q := gen.Dump(a), gen.Dump(b); p != q {
			return fmt.Errorf("%s differs: %.500s", what, gen.DiffText(p, q))
		}
		return nil
	}
	switch o := f.Outlines.(type) {
	case *glyf.Outlines:
		p := g.Outlines.(*glyf.Outlines)
		if o.Widths != nil {
			if err := diff("width", o.Widths[i], p.Widths[j]); err != nil {
				return err
			}
		}
		if o.Names != nil {
			if err := diff("name", o.Names[i], p.Names[j]); err != nil {
				return err
			}
		}
		x, y := o.Glyphs[i], p.Glyphs[j]
		if (x == nil) != (y == nil) {
			return fmt.Errorf("blank: %v, want %v", y == nil, x == nil)
		}
		if x == nil || x == y {
			break
		}
		if c, ok := y.Data.(glyf.CompositeGlyph); ok {
			// translate to the original glyph IDs
			d := c
			d.Components = nil
			for _, z := range c.Components {
				if int(z.GlyphIndex) >= len(oldID) {
					return fmt.Errorf("component %d is missing", z.GlyphIndex)
				}
				z.GlyphIndex = oldID[z.GlyphIndex]
				d.Components = append(d.Components, z)
			}
			y = &glyf.Glyph{Rect16: y.Rect16, Data: d}
		}
		return diff("glyph", x, y)
	case *cff.Outlines:
		p := g.Outlines.(*cff.Outlines)
		if err := diff("glyph", o.Glyphs[i], p.Glyphs[j]); err != nil {
			return err
		}
		if o.GIDToCID != nil {
			if err := diff("CID", o.GIDToCID[i], p.GIDToCID[j]); err != nil {
				return err
			}
		}
		k, l := o.FDSelect(i), p.FDSelect(j)
		if err := diff("private dictionary", o.Private[k], p.Private[l]); err != nil {
			return err
		}
		if o.ROS != nil {
			return diff("font matrix", o.FontMatrices[k], p.FontMatrices[l])
		}
	}
	return nil
}

// key identifies a glyph.
func key(f *sfnt.Font, unique bool, i glyph.ID) string {
	switch o := f.Outlines.(type) {
	case *glyf.Outlines:
		if unique {
			return fmt.Sprint(o.Widths[i])
		}
		return o.Names[i]
	case *cff.Outlines:
		if o.GIDToCID != nil {
			return fmt.Sprint(o.GIDToCID[i])
		}
		return o.Glyphs[i].Name
	}
	return ""
}

// uniqueWidths checks whether the glyph widths are distinct.
func uniqueWidths(f *sfnt.Font) bool {
	o, ok := f.Outlines.(*glyf.Outlines)
	if !ok || o.Widths == nil {
		return false
	}
	seen := map[funit.Int16]bool{}
	for _, w := range o.Widths {
		if seen[w] {
			return false
		}
		seen[w] = true
	}
	return true
}

// identify returns the original glyph ID for every glyph in the subset.
func identify(t fataler, f, g *sfnt.Font, list []glyph.ID) []glyph.ID {
	n := g.NumGlyphs()
	if n < len(list) {
		t.Fatalf("%d glyphs in the subset, for %d listed glyphs", n, len(list))
	}
	ids := append([]glyph.ID{}, list...)
	if n == len(list) {
		return ids
	}
	u := uniqueWidths(f)
	byKey := map[string]glyph.ID{}
	for i := 0; i < f.NumGlyphs(); i++ {
		k := key(f, u, glyph.ID(i))
		if _, dup := byKey[k]; dup {
			panic("glyphs are not unique")
		}
		byKey[k] = glyph.ID(i)
	}
	for j := len(list); j < n; j++ {
		k := key(g, u, glyph.ID(j))
		i, ok := byKey[k]
		if !ok {
			t.Fatalf("extra glyph %d (%q) is not in the original font", j, k)
		}
		ids = append(ids, i)
	}
	return ids
}

// checkCmap compares the character maps.
func checkCmap(t fataler, c *pbt.Case, f, g *sfnt.Font, newID map[glyph.ID]glyph.ID) {
	for k, data := range f.CMapTable {
		m, err := ref.CmapExpand(data)
		switch ref.U16(data, 0) {
		case 0, 4, 6, 12:
		default:
			c.Class("unsupported cmap subtable")
			continue
		}
		if err != nil {
			t.Fatalf("malformed cmap subtable: %v", err)
		}
		data2, ok := g.CMapTable[k]
		if !ok {
			t.Fatalf("cmap subtable %v is missing", k)
		}
		m2, err := ref.CmapExpand(data2)
		if err != nil {
			t.Fatalf("cmap subtable %v: %v", k, err)
		}
		want := map[uint32]uint32{}
		for code, gid := range m {
			if newGid, ok := newID[glyph.ID(gid)]; ok && newGid != 0 {
				want[code] = uint32(newGid)
			}
		}
		for code, gid := range m2 {
			if gid == 0 {
				delete(m2, code)
			}
		}
		if !reflect.DeepEqual(want, m2) {
			t.Fatalf("cmap subtable %v differs: %.500s", k, gen.DiffText(gen.Dump(want), gen.Dump(m2)))
		}
		c.ClassIf(len(want) > 0, fmt.Sprintf("cmap format %d", int(data[0])<<8|int(data[1])))
		c.ClassIf(len(want) > 0 && len(want) < len(m), "cmap entries removed")
	}
	for k := range g.CMapTable {
		if _, ok := f.CMapTable[k]; !ok {
			t.Fatalf("unexpected cmap subtable %v", k)
		}
	}
}

// encoding returns the effective encoding of a font.
func encoding(o *cff.Outlines) []glyph.ID {
	if o.Encoding != nil {
		return o.Encoding
	}
	var names []string
	for _, g := range o.Glyphs {
		names = append(names, g.Name)
	}
	return gen.StdEncoding(names, 0)
}

func checkEncoding(t fataler, c *pbt.Case, o, p *cff.Outlines, newID map[glyph.ID]glyph.ID) {
	if o.ROS != nil {
		if p.ROS == nil || *o.ROS != *p.ROS {
			t.Fatalf("ROS is %v, want %v", p.ROS, o.ROS)
		}
		return
	} else if p.ROS != nil || p.GIDToCID != nil {
		t.Fatalf("subset is CID-keyed")
	}
	e1, e2 := encoding(o), encoding(p)
	if len(e1) != 256 || len(e2) != 256 {
		t.Fatalf("encoding has length %d", len(e2))
	}
	for code, gid := range e1 {
		if want := newID[gid]; e2[code] != want { // zero for missing glyphs
			t.Fatalf("code %d is mapped to glyph %d, want %d (from glyph %d)", code, e2[code], want, gid)
		}
	}
	c.ClassIf(o.Encoding != nil, "custom encoding")
}

// apply uses the lookups of a font on a sequence.
func apply(info *gtab.Info, lookups []gtab.LookupIndex, in []glyph.Info) []glyph.Info {
	seq := make([]glyph.Info, len(in))
	copy(seq, in)
	return gtab.NewContext(info.LookupList, nil, lookups).Apply(seq)
}

// checkLayout compares the effect of the lookups.
func checkLayout(t fataler, c *pbt.Case, rng *rand.Rand, what string, old, sub *gtab.Info, ids []glyph.ID, newID map[glyph.ID]glyph.ID, rules []rule) {
	if old == nil {
		if sub != nil {
			t.Fatalf("unexpected %s table", what)
		}
		return
	}
	if sub == nil {
		t.Fatalf("%s table is missing", what)
	}
	if p, q := gen.Dump(old.ScriptList), gen.Dump(sub.ScriptList); p != q {
		t.Fatalf("%s script list changed: %s", what, gen.DiffText(p, q))
	}
	// The selections of lookups to compare.
	type sel struct{ a, b []gtab.LookupIndex }
	var sels []sel
	tags := []language.Tag{language.English, language.German, language.MustParse("ar")}
	for tag := range old.ScriptList {
		tags = append(tags, tag)
	}
	sort.Slice(tags[3:], func(i, j int) bool { return tags[i+3].String() < tags[j+3].String() })
	for _, tag := range tags {
		names := map[string]bool{}
		for _, f := range old.FeatureList {
			names[f.Tag] = rng.IntN(3) > 0
		}
		sels = append(sels, sel{old.FindLookups(tag, names), sub.FindLookups(tag, names)})
	}
	if len(old.FeatureList) != len(sub.FeatureList) {
		t.Fatalf("%d %s features, want %d", len(sub.FeatureList), what, len(old.FeatureList))
	}
	for i, f := range old.FeatureList {
		g := sub.FeatureList[i]
		if f.Tag != g.Tag {
			t.Fatalf("%s feature %d has tag %q, want %q", what, i, g.Tag, f.Tag)
		}
		sels = append(sels, sel{f.Lookups, g.Lookups})
	}
	// Every lookup which is used by a feature.
	for i, f := range old.FeatureList {
		if len(f.Lookups) != len(sub.FeatureList[i].Lookups) {
			continue
		}
		for j, l := range f.Lookups {
			sels = append(sels, sel{[]gtab.LookupIndex{l}, []gtab.LookupIndex{sub.FeatureList[i].Lookups[j]}})
		}
	}
	if len(sub.LookupList) == len(old.LookupList) {
		for i := range old.LookupList {
			x := []gtab.LookupIndex{gtab.LookupIndex(i)}
			sels = append(sels, sel{x, x})
		}
	} else {
		c.Class("lookups renumbered")
	}

	// The glyph sequences to compare.
	var seqs [][]glyph.ID
	for _, r := range rules {
		ok := true
		for _, g := range r.in {
			_, has := newID[g]
			ok = ok && has
		}
		if ok {
			c.Class(what + " rule in subset")
			seqs = append(seqs, r.in, append(append([]glyph.ID{ids[rng.IntN(len(ids))]}, r.in...), r.in...))
		}
	}
	for i := 0; i < 6; i++ {
		s := make([]glyph.ID, rng.IntN(8))
		for j := range s {
			s[j] = ids[rng.IntN(len(ids))]
		}
		seqs = append(seqs, s)
	}
	if len(seqs) > 60 {
		rng.Shuffle(len(seqs), func(i, j int) { seqs[i], seqs[j] = seqs[j], seqs[i] })
		seqs = seqs[:60]
	}
	changed := false
	for _, s := range seqs {
		a := make([]glyph.Info, len(s))
		b := make([]glyph.Info, len(s))
		for i, g := range s {
			a[i] = glyph.Info{GID: g, Text: []rune{rune('a' + i)}, Advance: funit.Int16(100 + i)}
			b[i] = a[i]
			b[i].GID = newID[g]
		}
		for _, x := range sels {
			out1 := apply(old, x.a, a)
			out2 := apply(sub, x.b, b)
			changed = changed || gen.Dump(out1) != gen.Dump(a)
			for i := range out1 {
				g, ok := newID[out1[i].GID]
				if !ok {
					t.Fatalf("%s: text %d leads to glyph %d, which is not in the subset", what, s, out1[i].GID)
				}
				out1[i].GID = g
			}
			if p, q := gen.Dump(out1), gen.Dump(out2); p != q {
				t.Fatalf("%s lookups %d/%d: result for %v differs: %.600s", what, x.a, x.b, s, gen.DiffText(p, q))
			}
		}
	}
	c.ClassIf(changed, what+" changes text")
}

// pairsOf lists the kerning pairs.
func pairsOf(info *gtab.Info) []rule {
	if info == nil {
		return nil
	}
	var res []rule
	for _, l := range info.LookupList {
		for _, s := range l.Subtables {
			s := s.(gtab.Gpos2_1)
			pairs := make([]glyph.Pair, 0, len(s))
			for p := range s {
				pairs = append(pairs, p)
			}
			sort.Slice(pairs, func(i, j int) bool {
				return pairs[i].Left < pairs[j].Left || pairs[i].Left == pairs[j].Left && pairs[i].Right < pairs[j].Right
			})
			for _, p := range pairs {
				res = append(res, rule{in: []glyph.ID{p.Left, p.Right}})
			}
		}
	}
	return res
}

// checkSubset compares a subset with the original font.
func checkSubset(t fataler, c *pbt.Case, rng *rand.Rand, f, g *sfnt.Font, list []glyph.ID) {
	if reflect.TypeOf(f.Outlines) != reflect.TypeOf(g.Outlines) {
		t.Fatalf("subset has outlines of type %T", g.Outlines)
	}
	ids := identify(t, f, g, list)
	newID := map[glyph.ID]glyph.ID{}
	for j, i := range ids {
		if k, dup := newID[i]; dup {
			t.Fatalf("glyph %d occurs as %d and %d", i, k, j)
		}
		newID[i] = glyph.ID(j)
	}
	must, may := closure(f, list)
	for i := range must {
		if _, ok := newID[i]; !ok {
			t.Fatalf("glyph %d is needed, but not in the subset", i)
		}
	}
	for i := range newID {
		if !may[i] {
			t.Fatalf("glyph %d is not needed, but in the subset", i)
		}
	}
	c.ClassIf(len(ids) > len(list), "extra glyphs")
	c.ClassIf(len(must) < len(may), "rules for components")

	for j, i := range ids {
		if err := sameGlyph(f, g, i, glyph.ID(j), ids); err != nil {
			t.Fatalf("glyph %d (%d in the original font): %v", j, i, err)
		}
	}
	switch o := f.Outlines.(type) {
	case *glyf.Outlines:
		p := g.Outlines.(*glyf.Outlines)
		n := len(ids)
		if len(p.Glyphs) != n || p.Widths != nil && len(p.Widths) != n || p.Names != nil && len(p.Names) != n {
			t.Fatalf("lengths differ: %d glyphs, %d widths, %d names", n, len(p.Widths), len(p.Names))
		}
		if (o.Widths == nil) != (p.Widths == nil) || (o.Names == nil) != (p.Names == nil) {
			t.Fatalf("no widths %v, want %v, no names %v, want %v", p.Widths == nil, o.Widths == nil, p.Names == nil, o.Names == nil)
		}
		for _, g := range p.Glyphs {
			if g != nil {
				if _, ok := g.Data.(glyf.CompositeGlyph); ok {
					c.Class("composite")
				}
			}
		}
		for _, name := range []string{"cvt ", "fpgm", "prep", "gasp"} {
			if !bytes.Equal(o.Tables[name], p.Tables[name]) {
				t.Fatalf("table %q differs", name)
			}
		}
		if p, q := gen.Dump(o.Maxp), gen.Dump(p.Maxp); p != q {
			t.Fatalf("maxp data differs: %s", gen.DiffText(p, q))
		}
	case *cff.Outlines:
		p := g.Outlines.(*cff.Outlines)
		checkOutlines(t, c, o, p, ids)
	}

	checkCmap(t, c, f, g, newID)
	rules := rulesOf(f.Gsub)
	sort.Slice(rules, func(i, j int) bool { return fmt.Sprint(rules[i]) < fmt.Sprint(rules[j]) })
	checkLayout(t, c, rng, "GSUB", f.Gsub, g.Gsub, ids, newID, rules)
	checkLayout(t, c, rng, "GPOS", f.Gpos, g.Gpos, ids, newID, pairsOf(f.Gpos))
	if g.Gdef != nil {
		t.Fatalf("unexpected GDEF table")
	}

	// everything else is unchanged
	a, b := f.Clone(), g.Clone()
	for _, x := range []*sfnt.Font{a, b} {
		x.Outlines, x.CMapTable, x.Gsub, x.Gpos, x.Gdef = nil, nil, nil, nil, nil
	}
	if p, q := gen.Dump(a), gen.Dump(b); p != q {
		t.Fatalf("font information differs: %s", gen.DiffText(p, q))
	}
}

func checkOutlines(t fataler, c *pbt.Case, o, p *cff.Outlines, ids []glyph.ID) {
	n := len(ids)
	newID := map[glyph.ID]glyph.ID{}
	for j, i := range ids {
		newID[i] = glyph.ID(j)
	}
	if len(p.Glyphs) != n || o.GIDToCID != nil && len(p.GIDToCID) != n {
		t.Fatalf("lengths differ: %d glyphs, %d CIDs", len(p.Glyphs), len(p.GIDToCID))
	}
	if o.ROS != nil && len(p.FontMatrices) != len(p.Private) {
		t.Fatalf("%d font matrices, %d private dictionaries", len(p.FontMatrices), len(p.Private))
	}
	c.ClassIf(len(p.Private) > 1, "several private dictionaries")
	c.ClassIf(len(p.Private) < len(o.Private), "private dictionaries removed")
	checkEncoding(t, c, o, p, newID)
}

// checkIO writes and reads a subset.
func checkIO(t fataler, c *pbt.Case, g *sfnt.Font) {
	buf := &bytes.Buffer{}
	if _, err := g.Write(buf); err != nil {
		t.Fatalf("cannot write the subset: %v", err)
	}
	got, err := sfnt.Read(bytes.NewReader(buf.Bytes()))
	if err != nil {
		t.Fatalf("cannot read the subset: %v", err)
	}
	want := gen.Normal(t, g, got)
	if gen.Synthesised(g, got) && got.Gsub != nil {
		want.Gsub = got.Gsub
	}
	if err := gen.FontDiff(want, got, false); err != nil {
		t.Fatalf("subset changes when written and read: %v", err)
	}
	c.NonTrivial(buf.Bytes())
}

func describe(f *sfnt.Font, list []glyph.ID, g *sfnt.Font) string {
	s := fmt.Sprintf("%s, %d of %d glyphs", gen.Kind(f), len(list), f.NumGlyphs())
	if len(list) < 20 {
		s += strings.ReplaceAll(fmt.Sprint(" ", list), " ", " ")
	}
	s += fmt.Sprintf(" -> %d glyphs, %d GSUB rules, %d kerning pairs, %d cmap subtables", g.NumGlyphs(), len(rulesOf(f.Gsub)), len(pairsOf(f.Gpos)), len(f.CMapTable))
	return s
}

// TestSubset checks (*sfnt.Font).Subset.
func TestSubset(t *testing.T) {
	pbt.Check(t, 10000, 300000, func(t *rapid.T, c *pbt.Case) {
		f := drawFont(t, c)
		list := drawList(t, f.NumGlyphs())
		rng := gen.Rand(t)
		c.Class(gen.Kind(f))

		before, listBefore := gen.DumpFont(f), fmt.Sprint(list)
		g := f.Subset(list)
		if gen.DumpFont(f) != before {
			t.Fatalf("Subset modifies the font: %s", gen.DiffText(before, gen.DumpFont(f)))
		}
		if fmt.Sprint(list) != listBefore {
			t.Fatalf("Subset modifies the glyph list")
		}
		if p, q := gen.DumpFont(g), gen.DumpFont(f.Subset(list)); p != q {
			t.Fatalf("two calls give different results: %s", gen.DiffText(p, q))
		}
		checkSubset(t, c, rng, f, g, list)
		checkIO(t, c, g)
		if gen.DumpFont(f) != before {
			t.Fatalf("using the subset modifies the font: %s", gen.DiffText(before, gen.DumpFont(f)))
		}

		// The subset of a subset.  GSUB 1.1 lookups are converted to
		// format 1.2, which cannot be used again.
		again := true
		if g.Gsub != nil {
			for _, l := range g.Gsub.LookupList {
				for _, s := range l.Subtables {
					if _, ok := s.(*gtab.Gsub4_1); !ok {
						again = false
					}
				}
			}
		}
		if again && rapid.IntRange(0, 3).Draw(t, "again") == 0 {
			c.Class("subset of a subset")
			list2 := drawList(t, g.NumGlyphs())
			checkSubset(t, c, rng, g, g.Subset(list2), list2)
		}
		c.Sample(func() string { return describe(f, list, g) })
	})
}

// TestOutlines checks (*cff.Outlines).Subset.
func TestOutlines(t *testing.T) {
	pbt.Check(t, 12000, 300000, func(t *rapid.T, c *pbt.Case) {
		f := &sfnt.Font{}
		kind := rapid.IntRange(1, 2).Draw(t, "cid")
		n := rapid.IntRange(1, 30).Draw(t, "numGlyphs")
		cf := gen.CFFFont(t, gen.CFFOpts{NumGlyphs: n, MaxRuns: 2, MaxStems: 2, CID: kind})
		o := cf.Outlines
		f.Outlines = o
		c.Class(gen.Kind(f))
		list := drawList(t, n)
		before, listBefore := gen.DumpFont(f), fmt.Sprint(list)
		p := o.Subset(list)
		g := &sfnt.Font{Outlines: p}
		if gen.DumpFont(f) != before || fmt.Sprint(list) != listBefore {
			t.Fatalf("Subset modifies its arguments")
		}
		if len(p.Glyphs) != len(list) {
			t.Fatalf("%d glyphs, want %d", len(p.Glyphs), len(list))
		}
		for j, i := range list {
			if err := sameGlyph(f, g, i, glyph.ID(j), list); err != nil {
				t.Fatalf("glyph %d (%d in the original font): %v", j, i, err)
			}
		}
		checkOutlines(t, c, o, p, list)

		// write and read the subset
		buf := &bytes.Buffer{}
		cf2 := &cff.Font{FontInfo: cf.FontInfo, Outlines: p}
		if err := cf2.Write(buf); err != nil {
			t.Fatalf("cannot write the subset: %v", err)
		}
		got, err := cff.Read(bytes.NewReader(buf.Bytes()))
		if err != nil {
			t.Fatalf("cannot read the subset: %v", err)
		}
		if err := (gen.CFFCmp{Widths: true}).Font(cf2, got); err != nil {
			t.Fatalf("subset changes when written and read: %v", err)
		}
		c.NonTrivial(buf.Bytes())
		c.Sample(func() string { return fmt.Sprintf("%s, %d of %d glyphs %d", gen.Kind(f), len(list), n, list) })
	})
}
