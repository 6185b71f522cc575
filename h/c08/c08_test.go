// Package c08 checks that GSUB, GPOS and GDEF tables survive encoding and
// decoding, and that the emitted bytes are consistent.
package c08

import (
	"bytes"
	"fmt"
	"math/rand/v2"
	"reflect"
	"slices"
	"sort"
	"strings"
	"testing"

	"golang.org/x/text/language"
	"pgregory.net/rapid"

	"seehuhn.de/go/sfnt/glyph"
	"seehuhn.de/go/sfnt/opentype/classdef"
	"seehuhn.de/go/sfnt/opentype/coverage"
	"seehuhn.de/go/sfnt/opentype/gdef"
	"seehuhn.de/go/sfnt/opentype/gtab"
	"seehuhn.de/go/sfnt/parser"
	"seehuhn.de/go/sfnt/verif/data"
	"seehuhn.de/go/sfnt/verif/gen"
	"seehuhn.de/go/sfnt/verif/pbt"
	"seehuhn.de/go/sfnt/verif/ref"
)

func TestMain(m *testing.M) { pbt.Main(m) }

// ---------------------------------------------------------------------------
// comparing tables

// norm returns a copy of x without differences which have no meaning: empty
// slices and maps are replaced with nil, and explicit class 0 is removed.
// Missing value records are replaced with empty ones where this makes no
// difference.
func norm[T any](x T) T {
	return normValue(reflect.ValueOf(&x).Elem()).Interface().(T)
}

var classDefType = reflect.TypeOf(classdef.Table{})

func normValue(v reflect.Value) reflect.Value {
	switch v.Kind() {
	case reflect.Interface:
		if v.IsNil() {
			return v
		}
		res := reflect.New(v.Type()).Elem()
		res.Set(normValue(v.Elem()))
		return res
	case reflect.Pointer:
		if v.IsNil() {
			return v
		}
		res := reflect.New(v.Type().Elem())
		res.Elem().Set(normValue(v.Elem()))
		switch s := res.Interface().(type) {
		case *gtab.Gpos1_1:
			if s.Adjust == nil {
				s.Adjust = &gtab.GposValueRecord{}
			}
		case *gtab.Gpos1_2:
			for i, a := range s.Adjust {
				if a == nil {
					s.Adjust[i] = &gtab.GposValueRecord{}
				}
			}
		case *gtab.PairAdjust:
			if s.First == nil {
				s.First = &gtab.GposValueRecord{}
			}
		}
		return res
	case reflect.Slice:
		if v.Len() == 0 {
			return reflect.Zero(v.Type())
		}
		switch v.Type().Elem().Kind() {
		case reflect.Uint16, reflect.Uint8:
			return v
		}
		res := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
		for i := 0; i < v.Len(); i++ {
			res.Index(i).Set(normValue(v.Index(i)))
		}
		return res
	case reflect.Map:
		if v.Len() == 0 {
			return reflect.Zero(v.Type())
		}
		switch m := v.Interface().(type) {
		case coverage.Table, coverage.Set:
			return v
		case classdef.Table:
			res := classdef.Table{}
			for g, c := range m {
				if c != 0 {
					res[g] = c
				}
			}
			if len(res) == 0 {
				res = nil
			}
			return reflect.ValueOf(res)
		}
		res := reflect.MakeMap(v.Type())
		for it := v.MapRange(); it.Next(); {
			res.SetMapIndex(it.Key(), normValue(it.Value()))
		}
		return res
	case reflect.Struct:
		res := reflect.New(v.Type()).Elem()
		res.Set(v)
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				res.Field(i).Set(normValue(v.Field(i)))
			}
		}
		return res
	}
	return v
}

func short(s string) string {
	if len(s) > 1500 {
		return s[:1500] + fmt.Sprintf("... (%d bytes)", len(s))
	}
	return s
}

// diffLookups compares two (normalised) lookup lists.
func diffLookups(a, b gtab.LookupList) string {
	if len(a) != len(b) {
		return fmt.Sprintf("%d lookups instead of %d", len(b), len(a))
	}
	for i, l := range a {
		m := b[i]
		if *l.Meta != *m.Meta {
			return fmt.Sprintf("lookup %d: header %+v instead of %+v", i, *m.Meta, *l.Meta)
		}
		if len(l.Subtables) != len(m.Subtables) {
			return fmt.Sprintf("lookup %d: %d subtables instead of %d", i, len(m.Subtables), len(l.Subtables))
		}
		for j, s := range l.Subtables {
			if !reflect.DeepEqual(s, m.Subtables[j]) {
				return fmt.Sprintf("lookup %d, subtable %d (%T, %d bytes):\n  got  %s\n  want %s", i, j, s, ref.GtabSubtableSize(s),
					short(gen.FormatSubtable(m.Subtables[j])), short(gen.FormatSubtable(s)))
			}
		}
	}
	return ""
}

func fmtScripts(s gtab.ScriptListInfo) string {
	var res []string
	for tag, f := range s {
		res = append(res, fmt.Sprintf("%s:%d+%v", tag, f.Required, f.Optional))
	}
	sort.Strings(res)
	return strings.Join(res, " ")
}

func diffInfo(a, b *gtab.Info) string {
	a, b = norm(a), norm(b)
	if !reflect.DeepEqual(a.ScriptList, b.ScriptList) {
		return fmt.Sprintf("script list differs:\n  got  %s\n  want %s", short(fmtScripts(b.ScriptList)), short(fmtScripts(a.ScriptList)))
	}
	if !reflect.DeepEqual(a.FeatureList, b.FeatureList) {
		return fmt.Sprintf("feature list differs:\n  got  %s\n  want %s", short(fmt.Sprint(b.FeatureList)), short(fmt.Sprint(a.FeatureList)))
	}
	return diffLookups(a.LookupList, b.LookupList)
}

// ---------------------------------------------------------------------------
// encoding

func try[T any](f func() T) (res T, refused any) {
	defer func() {
		if r := recover(); r != nil {
			refused = r
		}
	}()
	return f(), nil
}

// refusalOK explains why a table may be refused, or returns "".
func refusalOK(info *gtab.Info, langs map[language.Tag][2]string) string {
	headers, total, ext := 2, 2, 0
	for i, l := range info.LookupList {
		h := 8 + 2*len(l.Subtables)
		if l.Meta.LookupFlags&gtab.UseMarkFilteringSet != 0 {
			h += 2
		}
		headers += h + 8*len(l.Subtables)
		total += h
		for j, s := range l.Subtables {
			n := ref.GtabSubtableSize(s)
			if n > 0xFFFF {
				return fmt.Sprintf("lookup %d, subtable %d needs %d bytes", i, j, n)
			}
			total += n
			ext += 8
		}
	}
	if headers > 0xFFFF {
		return fmt.Sprintf("the lookup headers and extension records need %d bytes", headers)
	}
	features := 2
	for _, f := range info.FeatureList {
		features += 10 + 2*len(f.Lookups)
	}
	if features > 0xFFFF {
		return fmt.Sprintf("the feature list needs %d bytes", features)
	}
	scripts := 2
	seen := map[string]bool{}
	for tag, f := range info.ScriptList {
		otf := langs[tag]
		if !seen[otf[0]] {
			seen[otf[0]] = true
			scripts += 10
		}
		if otf[1] != "" {
			scripts += 6
		}
		scripts += 6 + 2*len(f.Optional)
	}
	if scripts > 0xFFFF {
		return fmt.Sprintf("the script list needs %d bytes", scripts)
	}
	sizes := []int{scripts, features, total + ext}
	slices.Sort(sizes)
	if 10+sizes[0]+sizes[1] > 0xFFFF {
		return fmt.Sprintf("the three lists need %v bytes", sizes)
	}
	return ""
}

// checkInfo encodes and decodes a table.  The function returns nil if encoding
// the table was refused.
func checkInfo(t interface{ Fatalf(string, ...any) }, info *gtab.Info, gpos bool, langs map[language.Tag][2]string) ([]byte, *ref.GtabFile) {
	var tp gtab.Type = gtab.TypeGsub
	if gpos {
		tp = gtab.TypeGpos
	}
	backup := gen.Clone(info)
	body, refused := try(info.Encode)
	if refused != nil {
		if why := refusalOK(info, langs); why == "" {
			culprit := ""
			for i, l := range info.LookupList {
				for j, s := range l.Subtables {
					one := &gtab.Info{LookupList: gtab.LookupList{{Meta: l.Meta, Subtables: []gtab.Subtable{s}}}}
					if _, r := try(one.Encode); r != nil {
						culprit = fmt.Sprintf(" (lookup %d, subtable %d, %d bytes)", i, j, ref.GtabSubtableSize(s))
					}
				}
			}
			t.Fatalf("table which fits is refused: %v%s", refused, culprit)
		}
		return nil, nil
	}
	if !reflect.DeepEqual(info, backup) {
		t.Fatalf("Encode changes the table: %s", diffInfo(backup, info))
	}
	if len(body)%4 > 0 {
		// skip the second encoding some of the time
	} else if again := info.Encode(); !bytes.Equal(body, again) {
		t.Fatalf("two calls to Encode give different bytes (%d and %d bytes)", len(body), len(again))
	}
	// the library's reader
	got, err := gtab.Read(bytes.NewReader(body), tp)
	if err != nil {
		t.Fatalf("cannot read back the table (%d bytes): %v", len(body), err)
	}
	if d := diffInfo(info, got); d != "" {
		t.Fatalf("after reading back: %s", d)
	}
	// independent reader
	f, err := ref.DecodeGtab(body, gpos, false)
	if err != nil {
		t.Fatalf("encoded table (%d bytes) is inconsistent: %v", len(body), err)
	}
	if d := diffInfo(info, &gtab.Info{ScriptList: info.ScriptList, FeatureList: f.Features, LookupList: f.Lookups}); d != "" {
		t.Fatalf("encoded table, seen by an independent reader: %s", d)
	}
	n := 0
	for script, m := range f.Scripts {
		n += len(m)
		for lang, ls := range m {
			found := false
			for tag, otf := range langs {
				if otf != [2]string{script, lang} {
					continue
				}
				w := info.ScriptList[tag]
				if w == nil {
					continue
				}
				found = true
				ok := int(w.Required) == ls.Required && len(w.Optional) == len(ls.Features)
				for i := 0; ok && i < len(w.Optional); i++ {
					ok = int(w.Optional[i]) == ls.Features[i]
				}
				if !ok {
					t.Fatalf("language system %q/%q (%s) is %v instead of %v", script, lang, tag, ls, *w)
				}
			}
			if !found {
				t.Fatalf("unexpected language system %q/%q", script, lang)
			}
		}
	}
	if n != len(info.ScriptList) {
		t.Fatalf("%d language systems written instead of %d", n, len(info.ScriptList))
	}
	return body, f
}

// ---------------------------------------------------------------------------
// script lists

func drawFlags(rng *rand.Rand, m *gtab.LookupMetaInfo) {
	switch rng.IntN(4) {
	case 0:
		m.LookupFlags = gtab.LookupFlags(rng.IntN(65536))
	case 1:
		m.LookupFlags = gtab.LookupFlags(rng.IntN(32))
	}
	if m.LookupFlags&gtab.UseMarkFilteringSet != 0 {
		m.MarkFilteringSet = uint16(rng.IntN(65536))
	} else {
		m.MarkFilteringSet = 0
	}
}

// ---------------------------------------------------------------------------

func describe(info *gtab.Info, gpos bool) string {
	var b strings.Builder
	fmt.Fprintf(&b, "gpos=%v scripts={%s} features=%s\n", gpos, short(fmtScripts(info.ScriptList)), short(fmt.Sprint(info.FeatureList)))
	for i, l := range info.LookupList {
		if i >= 20 {
			fmt.Fprintf(&b, "... %d lookups\n", len(info.LookupList))
			break
		}
		fmt.Fprintf(&b, "lookup %d: %+v\n", i, *l.Meta)
		for _, s := range l.Subtables {
			fmt.Fprintf(&b, "  %T %d bytes: %.300s\n", s, ref.GtabSubtableSize(s), gen.FormatSubtable(s))
		}
	}
	return b.String()
}

type lazyErr struct {
	t    interface{ Fatalf(string, ...any) }
	desc func() string
}

func (l lazyErr) Fatalf(format string, args ...any) {
	l.t.Fatalf("%s\n%s", fmt.Sprintf(format, args...), l.desc())
}

// TestInfo checks small tables with arbitrary contents.
func TestInfo(t *testing.T) {
	pbt.Check(t, 9000, 200000, func(t *rapid.T, c *pbt.Case) {
		gpos := rapid.Bool().Draw(t, "gpos")
		var pool []glyph.ID
		switch rapid.IntRange(0, 2).Draw(t, "pool") {
		case 0:
			pool = []glyph.ID{1, 2, 3, 4, 5, 6, 7, 8}
		case 1:
			pool = []glyph.ID{0, 1, 2, 4, 5, 6, 100, 101, 0xFFFD, 0xFFFE, 0xFFFF, 0x8000}
		default:
			for i := 0; i < 65536; i += 7 {
				pool = append(pool, glyph.ID(i))
			}
		}
		o := &gen.GtabOpts{Glyphs: pool, Gpos: gpos, WellFormed: true, MaxSub: 3, Types: []uint16{1, 2, 3, 4, 5, 6, 8}}
		if gpos {
			o.Types = []uint16{1, 2, 3, 4, 5, 6, 7, 8}
		}
		o.Gdef = o.DrawGdef(t)
		seed := rapid.Uint64().Draw(t, "seed")
		rng := rand.New(rand.NewPCG(seed, 3))
		info := &gtab.Info{LookupList: o.LookupList(t, 0, 5)}
		for _, l := range info.LookupList {
			if rapid.IntRange(0, 3).Draw(t, "wildFlags") == 0 {
				drawFlags(rng, l.Meta)
			}
		}
		var langs map[language.Tag][2]string
		info.ScriptList, langs = gen.DrawScripts(t, rng, false)
		info.FeatureList = gen.DrawFeatures(t, rng, false)
		pbt.Doing(func() string { return describe(info, gpos) })

		tt := lazyErr{t, func() string { return describe(info, gpos) }}
		body, f := checkInfo(tt, info, gpos, langs)
		if body == nil {
			t.Fatalf("small table refused\n%s", describe(info, gpos))
		}
		c.ClassIf(gpos, "GPOS")
		for _, l := range info.LookupList {
			for _, s := range l.Subtables {
				c.Class(strings.TrimPrefix(fmt.Sprintf("%T", s), "*"))
			}
		}
		if f.NumExt > 0 {
			t.Fatalf("extension subtables in a table of %d bytes", len(body))
		}
		if len(info.LookupList) > 0 {
			c.NonTrivial(body)
			c.Sample(func() string { return short(describe(info, gpos)) })
		}
	})
}

// TestBulk checks large tables: many lookups, or large subtables.
func TestBulk(t *testing.T) {
	pbt.Check(t, 1200, 40000, func(t *rapid.T, c *pbt.Case) {
		gpos := rapid.Bool().Draw(t, "gpos")
		seed := rapid.Uint64().Draw(t, "seed")
		b := gen.NewBulk(seed, gpos)
		kinds := gen.BulkKinds(gpos)
		info := &gtab.Info{}
		add := func(kind int, sizes ...int) {
			l := &gtab.LookupTable{Meta: &gtab.LookupMetaInfo{LookupType: uint16(kind / 10)}}
			drawFlags(b.Rand, l.Meta)
			var fmts []int
			for _, k := range kinds {
				if k/10 == kind/10 {
					fmts = append(fmts, k)
				}
			}
			for i, n := range sizes {
				if i > 0 {
					kind = fmts[b.IntN(len(fmts))]
				}
				l.Subtables = append(l.Subtables, b.Subtable(kind, n))
			}
			info.LookupList = append(info.LookupList, l)
		}
		mode := rapid.SampledFrom([]string{"many", "few big", "one subtable", "boundary", "lists", "mixed"}).Draw(t, "mode")
		var langs map[language.Tag][2]string
		switch mode {
		case "many":
			n := rapid.IntRange(1, 300).Draw(t, "nLookups")
			avg := rapid.SampledFrom([]int{20, 100, 300, 600}).Draw(t, "avgSize")
			for i := 0; i < n; i++ {
				sizes := make([]int, b.IntN(4))
				for j := range sizes {
					sizes[j] = 10 + b.IntN(2*avg)
				}
				add(kinds[b.IntN(len(kinds))], sizes...)
			}
		case "few big", "mixed":
			n := rapid.IntRange(1, 5).Draw(t, "nLookups")
			for i := 0; i < n; i++ {
				sizes := make([]int, rapid.IntRange(1, 4).Draw(t, "nSubtables"))
				for j := range sizes {
					sizes[j] = rapid.SampledFrom([]int{10, 1000, 8000, 20000, 30000, 45000, 60000, 64000}).Draw(t, "size")
				}
				add(rapid.SampledFrom(kinds).Draw(t, "kind"), sizes...)
			}
			if mode == "mixed" {
				info.ScriptList, langs = gen.DrawScripts(t, b.Rand, rapid.Bool().Draw(t, "bigScripts"))
				info.FeatureList = gen.DrawFeatures(t, b.Rand, rapid.Bool().Draw(t, "bigFeatures"))
			}
		case "one subtable":
			// sizes around the limits of the 16-bit offsets within a subtable
			add(rapid.SampledFrom(kinds).Draw(t, "kind"), 65000+rapid.IntRange(-1000, 9000).Draw(t, "extra"))
		case "boundary":
			// fill up the space so that some offset is close to 65535
			target := 65535 + rapid.IntRange(-14, 14).Draw(t, "delta")
			tail := rapid.IntRange(0, 2).Draw(t, "nTail")
			sub := rapid.IntRange(0, 3).Draw(t, "nMoreSubtables")
			filler := b.Filler(target - rapid.SampledFrom([]int{0, 2, 4, 6, 8, 10, 12, 14, 16, 18, 20, 22, 24, 26, 28, 30, 32, 34, 36, 38, 40}).Draw(t, "slack"))
			l := &gtab.LookupTable{Meta: &gtab.LookupMetaInfo{LookupType: 1}, Subtables: []gtab.Subtable{filler}}
			for ; sub > 0; sub-- {
				l.Subtables = append(l.Subtables, b.Subtable(11, 10))
			}
			head := rapid.IntRange(0, 2).Draw(t, "nHead")
			for ; head > 0; head-- {
				add(rapid.SampledFrom(kinds).Draw(t, "kind"), 10)
			}
			info.LookupList = append(info.LookupList, l)
			for ; tail > 0; tail-- {
				add(rapid.SampledFrom(kinds).Draw(t, "kind"), rapid.SampledFrom([]int{10, 100, 66000}).Draw(t, "tailSize"))
			}
		case "lists":
			info.ScriptList, langs = gen.DrawScripts(t, b.Rand, rapid.IntRange(0, 3).Draw(t, "bigScripts") > 0)
			info.FeatureList = gen.DrawFeatures(t, b.Rand, rapid.IntRange(0, 3).Draw(t, "bigFeatures") > 0)
			if rapid.Bool().Draw(t, "fit") && len(info.FeatureList) > 0 {
				// bring the feature list close to the limit
				n := 2
				for _, f := range info.FeatureList {
					n += 10 + 2*len(f.Lookups)
				}
				want := rapid.SampledFrom([]int{65535, 65535 - 10, 65535 - 10 - 2}).Draw(t, "limit") + rapid.IntRange(-8, 8).Draw(t, "delta")
				f := info.FeatureList[b.IntN(len(info.FeatureList))]
				for ; n < want; n += 2 {
					f.Lookups = append(f.Lookups, gtab.LookupIndex(n))
				}
				for ; n > want && len(f.Lookups) > 0; n -= 2 {
					f.Lookups = f.Lookups[1:]
				}
			}
			add(rapid.SampledFrom(kinds).Draw(t, "kind"), 10)
		}
		if cov := covTotal(info); cov > 1_900_000 {
			t.Skip("expands too much")
		}
		pbt.Doing(func() string { return describe(info, gpos) })
		tt := lazyErr{t, func() string { return describe(info, gpos) }}
		body, f := checkInfo(tt, info, gpos, langs)
		c.Class(mode)
		if body == nil {
			c.Class("refused: " + mode)
			return
		}
		c.ClassIf(f.NumExt > 0, "extension")
		c.ClassIf(len(body) > 0xFFFF, "more than 64K")
		for _, l := range info.LookupList {
			for _, s := range l.Subtables {
				if ref.GtabSubtableSize(s) > 10000 {
					c.Class(strings.TrimPrefix(fmt.Sprintf("big %T", s), "*"))
				}
			}
		}
		if len(body) > 2000 {
			c.NonTrivial(body)
			c.Sample(func() string { return fmt.Sprintf("%s: %d bytes, %s", mode, len(body), short(describe(info, gpos))) })
		}
	})
}

// covTotal counts the glyphs in coverage tables and class definition tables,
// by looking at the memory representation.
func covTotal(info *gtab.Info) int {
	n := 0
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Interface, reflect.Pointer:
			if !v.IsNil() {
				walk(v.Elem())
			}
		case reflect.Slice:
			n += v.Len()
			k := v.Type().Elem().Kind()
			if k == reflect.Slice || k == reflect.Pointer || k == reflect.Interface || k == reflect.Map {
				for i := 0; i < v.Len(); i++ {
					walk(v.Index(i))
				}
			}
		case reflect.Map:
			n += v.Len()
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				walk(v.Field(i))
			}
		}
	}
	walk(reflect.ValueOf(info.LookupList))
	return n
}

// TestTags checks that all language systems of the built-in tables survive.
func TestTags(t *testing.T) {
	pbt.Enumerate(t, len(data.Scripts), func(i int, c *pbt.Case) {
		script := data.Scripts[i]
		all := append([]string{""}, data.Langs...)
		langs := gen.TagsFor(script, all)
		info := &gtab.Info{ScriptList: gtab.ScriptListInfo{}}
		k := 0
		for tag, otf := range langs {
			k++
			info.ScriptList[tag] = &gtab.Features{Required: gtab.FeatureIndex(i), Optional: []gtab.FeatureIndex{gtab.FeatureIndex(len(otf[1])), gtab.FeatureIndex(k)}}
		}
		if len(langs) < 600 {
			pbt.Failf("script %q: only %d of %d language systems can be represented", script, len(langs), len(all))
		}
		checkInfo(pbt.Failer(t, script+": "), info, i%2 == 0, langs)
		c.NonTrivial([]byte(script))
	})
}

// TestMutated checks that tables read from arbitrary data can be written again.
func TestMutated(t *testing.T) {
	type src struct {
		name string
		body []byte
		gpos bool
	}
	var srcs []src
	for _, f := range data.Fonts() {
		for _, tag := range []string{"GSUB", "GPOS"} {
			if b := data.Table(f, tag); b != nil {
				srcs = append(srcs, src{f, b, tag == "GPOS"})
			}
		}
	}
	pbt.Check(t, 12000, 300000, func(t *rapid.T, c *pbt.Case) {
		var body []byte
		var gpos bool
		if rapid.IntRange(0, 9).Draw(t, "real") == 0 && len(srcs) > 0 {
			s := rapid.SampledFrom(srcs).Draw(t, "src")
			body, gpos = s.body, s.gpos
			c.Class("real font")
		} else {
			gpos = rapid.Bool().Draw(t, "gpos")
			b := gen.NewBulk(rapid.Uint64().Draw(t, "seed"), gpos)
			info := &gtab.Info{}
			kinds := gen.BulkKinds(gpos)
			for n := rapid.IntRange(1, 3).Draw(t, "n"); n > 0; n-- {
				k := rapid.SampledFrom(kinds).Draw(t, "kind")
				l := &gtab.LookupTable{Meta: &gtab.LookupMetaInfo{LookupType: uint16(k / 10)}}
				l.Subtables = append(l.Subtables, b.Subtable(k, rapid.SampledFrom([]int{10, 60, 200}).Draw(t, "size")))
				info.LookupList = append(info.LookupList, l)
			}
			info.ScriptList, _ = gen.DrawScripts(t, b.Rand, false)
			info.FeatureList = gen.DrawFeatures(t, b.Rand, false)
			body = info.Encode()
		}
		body = gen.Mutate(t, body, rapid.SampledFrom([]int{1, 1, 2, 2, 6}).Draw(t, "maxMut"))
		var tp gtab.Type = gtab.TypeGsub
		if gpos {
			tp = gtab.TypeGpos
		}
		pbt.Doing(func() string { return fmt.Sprintf("gpos=%v % x", gpos, body) })
		info, err := gtab.Read(bytes.NewReader(body), tp)
		if err != nil {
			c.Class("rejected")
			return
		}
		c.Class("accepted")
		desc := func() string { return fmt.Sprintf("gpos=%v\n% x\n%s", gpos, body, describe(info, gpos)) }
		b2, refused := try(info.Encode)
		if refused != nil {
			t.Fatalf("table can be read, but not written again: %v\n%s", refused, desc())
		}
		again, err := gtab.Read(bytes.NewReader(b2), tp)
		if err != nil {
			t.Fatalf("written table cannot be read: %v\n%s", err, desc())
		}
		if d := diffInfo(info, again); d != "" {
			t.Fatalf("after writing and reading: %s\n%s", d, desc())
		}
		if _, err := ref.DecodeGtab(b2, gpos, true); err != nil {
			t.Fatalf("written table is inconsistent: %v\n%s", err, desc())
		}
		c.NonTrivial(b2)
	})
}

// ---------------------------------------------------------------------------
// coverage, class definition, GDEF

func bulkSet(t *rapid.T) []glyph.ID {
	b := gen.NewBulk(rapid.Uint64().Draw(t, "seed"), false)
	n := rapid.SampledFrom([]int{0, 1, 2, 3, 5, 10, 30, 100, 1000, 10000, 21845, 21846, 32767, 32768, 40000, 65534, 65535, 65536}).Draw(t, "n")
	if n > 10 && rapid.Bool().Draw(t, "vary") {
		n = min(65536, n+b.IntN(n/4))
	}
	gg := b.Glyphs(n)
	if len(gg) > 3 && rapid.IntRange(0, 2).Draw(t, "holes") == 0 {
		for k := 1 + b.IntN(4); k > 0; k-- {
			i := b.IntN(len(gg))
			gg = slices.Delete(gg, i, i+1)
		}
	}
	return gg
}

func smallSet(t *rapid.T) []glyph.ID {
	mask := rapid.Uint32Range(0, 1<<20-1).Draw(t, "mask")
	base := rapid.SampledFrom([]int{0, 1, 100, 65536 - 20}).Draw(t, "base")
	var res []glyph.ID
	for i := 0; i < 20; i++ {
		if mask>>i&1 != 0 {
			res = append(res, glyph.ID(base+i))
		}
	}
	return res
}

func TestCoverage(t *testing.T) {
	pbt.Check(t, 4000, 60000, func(t *rapid.T, c *pbt.Case) {
		var gg []glyph.ID
		if rapid.IntRange(0, 3).Draw(t, "big") == 0 {
			gg = bulkSet(t)
		} else {
			gg = smallSet(t)
		}
		tab, set := coverage.Table{}, coverage.Set{}
		for i, g := range gg {
			tab[g] = i
			set[g] = true
		}
		desc := func() string { return short(fmt.Sprintf("%d glyphs %v", len(gg), gg)) }
		pbt.Doing(desc)
		if got := set.ToTable(); !reflect.DeepEqual(got, tab) {
			t.Fatalf("ToTable differs for %s", desc())
		}
		if got := tab.ToSet(); !reflect.DeepEqual(got, set) {
			t.Fatalf("ToSet differs for %s", desc())
		}
		if !slices.Equal(tab.Glyphs(), gg) || !slices.Equal(set.Glyphs(), gg) {
			t.Fatalf("Glyphs differs for %s", desc())
		}
		n, refused1 := try(tab.EncodeLen)
		body, refused2 := try(tab.Encode)
		if refused1 != nil || refused2 != nil {
			t.Fatalf("coverage table refused: %v %v\n%s", refused1, refused2, desc())
		}
		if n != len(body) {
			t.Fatalf("EncodeLen gives %d, but %d bytes are written\n%s", n, len(body), desc())
		}
		got, err := ref.DecodeCoverage(body)
		if err != nil {
			t.Fatalf("inconsistent coverage table: %v\n%s", err, desc())
		}
		if !slices.Equal(got, gg) {
			t.Fatalf("coverage table contains %d glyphs instead of %d\n%s", len(got), len(gg), desc())
		}
		pad := rapid.IntRange(0, 3).Draw(t, "pad")
		data := append(make([]byte, pad), body...)
		back, err := coverage.Read(parser.New(bytes.NewReader(data)), int64(pad))
		if err != nil || !reflect.DeepEqual(back, tab) {
			t.Fatalf("coverage table not read back: %v\n%s", err, desc())
		}
		back2, err := coverage.ReadSet(parser.New(bytes.NewReader(data)), int64(pad))
		if err != nil || !reflect.DeepEqual(back2, set) {
			t.Fatalf("coverage set not read back: %v\n%s", err, desc())
		}
		c.Class(fmt.Sprintf("format %d", body[1]))
		c.ClassIf(len(gg) > 60000, "more than 60000 glyphs")
		if len(gg) > 1 {
			c.NonTrivial(body)
			c.Sample(desc)
		}
	})
}

func drawClasses(t *rapid.T, allowZero bool) classdef.Table {
	res := classdef.Table{}
	if rapid.IntRange(0, 4).Draw(t, "big") == 0 {
		gg := bulkSet(t)
		b := gen.NewBulk(rapid.Uint64().Draw(t, "seed"), false)
		run := rapid.SampledFrom([]int{1, 2, 3, 4, 10, 1000, 70000}).Draw(t, "run")
		classes := rapid.SampledFrom([]int{2, 3, 10, 65536}).Draw(t, "classes")
		cls := 1
		for i, g := range gg {
			if i%run == 0 {
				cls = b.IntN(classes)
			}
			if cls > 0 {
				res[g] = uint16(cls)
			}
		}
		return res
	}
	base := rapid.SampledFrom([]int{0, 1, 100, 65536 - 20}).Draw(t, "base")
	n := rapid.IntRange(0, 20).Draw(t, "n")
	for i := 0; i < n; i++ {
		cls := rapid.SampledFrom([]int{-1, -1, 0, 1, 1, 1, 2, 2, 3, 65535}).Draw(t, "class")
		if cls > 0 || cls == 0 && allowZero {
			res[glyph.ID(base+i)] = uint16(cls)
		}
	}
	if rapid.IntRange(0, 3).Draw(t, "far") == 0 {
		res[rapid.SampledFrom([]glyph.ID{0, 50, 200, 300, 65535}).Draw(t, "farGID")] = 1
	}
	return res
}

func TestClassDef(t *testing.T) {
	pbt.Check(t, 5000, 80000, func(t *rapid.T, c *pbt.Case) {
		cls := drawClasses(t, true)
		backup := gen.Clone(cls)
		desc := func() string { return short(fmt.Sprintf("%d glyphs %v", len(backup), backup)) }
		pbt.Doing(desc)
		prefix := []byte("prefix")[:rapid.IntRange(0, 6).Draw(t, "prefix")]
		buf := append(make([]byte, 0, rapid.SampledFrom([]int{6, 100, 200000}).Draw(t, "cap")), prefix...)
		n, refused1 := try(cls.AppendLen)
		body, refused2 := try(func() []byte { return cls.Append(buf) })
		if refused2 != nil && ref.ClassDefSize(cls) < 0 {
			c.Class("refused")
			return
		}
		if refused1 != nil || refused2 != nil {
			t.Fatalf("class definition table refused: %v %v\n%s", refused1, refused2, desc())
		}
		if !reflect.DeepEqual(cls, backup) {
			t.Fatalf("Append changes the table\n%s", desc())
		}
		if !bytes.HasPrefix(body, prefix) {
			t.Fatalf("Append overwrites the buffer\n%s", desc())
		}
		out := body[len(prefix):]
		if n != len(out) {
			t.Fatalf("AppendLen gives %d, but %d bytes are written\n%s", n, len(out), desc())
		}
		got, err := ref.DecodeClassDef(out)
		if err != nil {
			t.Fatalf("inconsistent class definition table: %v\n%s", err, desc())
		}
		want := norm(cls)
		if !reflect.DeepEqual(norm(got), want) {
			t.Fatalf("class definition table has wrong contents: %s\n%s", short(fmt.Sprint(got)), desc())
		}
		back, err := classdef.Read(parser.New(bytes.NewReader(body)), int64(len(prefix)))
		if err != nil || !reflect.DeepEqual(norm(back), want) {
			t.Fatalf("class definition table not read back: %v\n%s", err, desc())
		}
		numClasses := 1
		for _, k := range cls {
			numClasses = max(numClasses, int(k)+1)
		}
		if cls.NumClasses() != numClasses {
			t.Fatalf("NumClasses gives %d instead of %d\n%s", cls.NumClasses(), numClasses, desc())
		}
		for k, gg := range cls.Glyphs() {
			if k == 0 {
				continue
			}
			for i, g := range gg {
				if int(cls[g]) != k || i > 0 && gg[i-1] >= g {
					t.Fatalf("Glyphs wrong for class %d: %s\n%s", k, short(fmt.Sprint(gg)), desc())
				}
			}
		}
		c.Class(fmt.Sprintf("format %d", out[1]))
		if len(cls) > 1 {
			c.NonTrivial(out)
			c.Sample(desc)
		}
	})
}

func TestGdef(t *testing.T) {
	pbt.Check(t, 2500, 60000, func(t *rapid.T, c *pbt.Case) {
		tab := &gdef.Table{}
		if rapid.IntRange(0, 3).Draw(t, "hasClass") > 0 {
			tab.GlyphClass = drawClasses(t, false)
		}
		if rapid.IntRange(0, 2).Draw(t, "hasAttach") > 0 {
			tab.MarkAttachClass = drawClasses(t, false)
		}
		n := rapid.SampledFrom([]int{0, 0, 1, 2, 3, 10, 50, 300}).Draw(t, "nSets")
		b := gen.NewBulk(rapid.Uint64().Draw(t, "seed"), false)
		for i := 0; i < n; i++ {
			var gg []glyph.ID
			if i < 3 && rapid.IntRange(0, 3).Draw(t, "drawn") == 0 {
				gg = bulkSet(t)
			} else {
				gg = b.Glyphs(b.IntN(20))
			}
			set := coverage.Set{}
			for _, g := range gg {
				set[g] = true
			}
			tab.MarkGlyphSets = append(tab.MarkGlyphSets, set)
		}
		backup := gen.Clone(tab)
		desc := func() string {
			return short(fmt.Sprintf("class %v attach %v", tab.GlyphClass, tab.MarkAttachClass)) + short(fmt.Sprintf(" sets %v", tab.MarkGlyphSets))
		}
		pbt.Doing(desc)
		body, refused := try(tab.Encode)
		if refused != nil {
			size := 14
			for _, cls := range []classdef.Table{tab.GlyphClass, tab.MarkAttachClass} {
				if cls != nil {
					n := ref.ClassDefSize(cls)
					if n < 0 {
						n = 1 << 20
					}
					size += n
				}
			}
			if size <= 0xFFFF {
				t.Fatalf("GDEF table refused: %v\n%s", refused, desc())
			}
			c.Class("refused")
			return
		}
		if !reflect.DeepEqual(tab, backup) {
			t.Fatalf("Encode changes the table\n%s", desc())
		}
		if again := tab.Encode(); !bytes.Equal(body, again) {
			t.Fatalf("two calls to Encode give different bytes\n%s", desc())
		}
		same := func(got *gdef.Table) bool {
			// a missing table is different from an empty one
			return (got.GlyphClass == nil) == (tab.GlyphClass == nil) &&
				(got.MarkAttachClass == nil) == (tab.MarkAttachClass == nil) &&
				reflect.DeepEqual(norm(got), norm(tab))
		}
		got, err := gdef.Read(bytes.NewReader(body))
		if err != nil || !same(got) {
			t.Fatalf("GDEF table not read back: %v, %s\n%s", err, short(fmt.Sprint(got)), desc())
		}
		got, err = ref.DecodeGdef(body)
		if err != nil {
			t.Fatalf("inconsistent GDEF table: %v\n%s", err, desc())
		}
		if !same(got) {
			t.Fatalf("GDEF table has wrong contents: %s\n%s", short(fmt.Sprint(got)), desc())
		}
		c.ClassIf(n > 0, "mark glyph sets")
		if tab.GlyphClass != nil || tab.MarkAttachClass != nil || n > 0 {
			c.NonTrivial(body)
			c.Sample(desc)
		}

		// mutated data
		mut := gen.Mutate(t, body, 4)
		m, err := gdef.Read(bytes.NewReader(mut))
		if err != nil {
			return
		}
		b2, refused := try(m.Encode)
		if refused != nil {
			t.Fatalf("GDEF table can be read, but not written again: %v\n% x", refused, mut)
		}
		m2, err := gdef.Read(bytes.NewReader(b2))
		if err != nil || !reflect.DeepEqual(norm(m), norm(m2)) {
			t.Fatalf("GDEF table not read back: %v\n% x", err, mut)
		}
	})
}

// TestBoundary enumerates layouts where the last offsets which need to be stored
// are close to 65535.
func TestBoundary(t *testing.T) {
	const (
		nHead, nSub, nTail, nLayout, nSize = 2, 3, 2, 4, 35
	)
	pbt.Enumerate(t, nHead*nSub*nTail*nLayout*nSize, func(i int, c *pbt.Case) {
		gpos := i%7 == 0
		b := gen.NewBulk(uint64(i), gpos)
		// size varies fastest, but shards take every 8th case
		j := i
		head := j % nHead
		j /= nHead
		sub := j % nSub
		j /= nSub
		tail := j % nTail
		j /= nTail
		layout := j % nLayout
		j /= nLayout
		size := 65540 - 2*j

		info := &gtab.Info{}
		lookup := func(ss ...gtab.Subtable) {
			info.LookupList = append(info.LookupList, &gtab.LookupTable{Meta: &gtab.LookupMetaInfo{LookupType: 1}, Subtables: ss})
		}
		small := func() gtab.Subtable { return b.Subtable(11, 10) }
		for ; head > 0; head-- {
			lookup(small())
		}
		var ss []gtab.Subtable
		switch layout {
		case 0: // one large subtable
			ss = append(ss, b.Filler(size))
		case 1: // two large subtables in the same lookup
			ss = append(ss, b.Filler(30000), b.Filler(size-30000))
		case 2: // two large lookups
			lookup(b.Filler(30000))
			ss = append(ss, b.Filler(size-30000))
		case 3: // three large lookups
			lookup(b.Filler(20000))
			lookup(b.Filler(size - 40000))
			ss = append(ss, b.Filler(20000))
		}
		for ; sub > 0; sub-- {
			ss = append(ss, small())
		}
		lookup(ss...)
		for ; tail > 0; tail-- {
			lookup(small())
		}
		tt := lazyErr{t, func() string { return fmt.Sprintf("case %d: %s", i, describe(info, gpos)) }}
		body, f := checkInfo(tt, info, gpos, nil)
		if body == nil {
			c.Class("refused")
			return
		}
		c.NonTrivial([]byte(fmt.Sprint(i)))
		c.ClassIf(f.NumExt > 0, "extension")
		c.ClassIf(f.NumExt == 0, "no extension")
	})
}

// TestKnown checks the specimens of the known findings.
func TestKnown(t *testing.T) {
	v := &gtab.GposValueRecord{XAdvance: 10}
	gid := func(s gtab.Subtable, tp uint16) *gtab.Info {
		return &gtab.Info{LookupList: gtab.LookupList{{Meta: &gtab.LookupMetaInfo{LookupType: tp}, Subtables: []gtab.Subtable{s}}}}
	}
	cov := coverage.Table{1: 0}
	pbt.Enumerate(t, 3, func(i int, c *pbt.Case) {
		c.NonTrivial([]byte{byte(i)})
		switch i {
		case 0:
			// the offset of a device table, without the device table
			info := gid(&gtab.Gpos1_1{Cov: cov, Adjust: &gtab.GposValueRecord{XAdvance: 10, XAdvanceDevOffs: 500}}, 1)
			body, refused := try(info.Encode)
			if refused == nil {
				lookups := int(body[8])<<8 | int(body[9])
				sub := lookups + 4 + 8
				if offs := int(body[sub+8])<<8 | int(body[sub+9]); offs != 0 && sub+offs+6 > len(body) {
					pbt.Known("C08", "device-offsets", fmt.Sprintf("xAdvDeviceOffset %d points outside the table of %d bytes", offs, len(body)))
				}
			}
		case 1:
			// some pairs consume the second glyph, others don't
			info := gid(gtab.Gpos2_1{{Left: 1, Right: 2}: {First: v}, {Left: 1, Right: 3}: {First: v, Second: v}}, 2)
			checkMixed(info, "pair-second-mixed-1")
		case 2:
			info := gid(&gtab.Gpos2_2{Cov: coverage.Set{1: true}, Class1: classdef.Table{}, Class2: classdef.Table{2: 1},
				Adjust: [][]*gtab.PairAdjust{{{First: v}, {First: v, Second: v}}}}, 2)
			checkMixed(info, "pair-second-mixed-2")
		}
	})
}

func checkMixed(info *gtab.Info, key string) {
	body, refused := try(info.Encode)
	if refused != nil {
		return
	}
	got, err := gtab.Read(bytes.NewReader(body), gtab.TypeGpos)
	if err != nil {
		pbt.Failf("%s: %v", key, err)
	}
	if d := diffInfo(info, got); d != "" {
		pbt.Known("C08", key, d)
	}
}
