// Package c20 checks the generation of glyph names.
package c20

import (
	"bytes"
	"fmt"
	"math/rand/v2"
	"regexp"
	"slices"
	"strings"
	"testing"

	"pgregory.net/rapid"

	"seehuhn.de/go/postscript/cid"
	"seehuhn.de/go/postscript/type1/names"

	"seehuhn.de/go/sfnt"
	"seehuhn.de/go/sfnt/cff"
	"seehuhn.de/go/sfnt/cmap"
	"seehuhn.de/go/sfnt/glyf"
	"seehuhn.de/go/sfnt/glyph"
	"seehuhn.de/go/sfnt/opentype/gtab"
	"seehuhn.de/go/sfnt/os2"

	"seehuhn.de/go/sfnt/verif/gen"
	"seehuhn.de/go/sfnt/verif/pbt"
)

func TestMain(m *testing.M) { pbt.Main(m) }

var namePool = []string{
	"", "", "", "", "A", "B", "a", "f", "i", "f_i", "f_f_i", "A.1", "A.2", "a.1", "one", "orn001", "orn002", "orn003", ".notdef",
	"a b", "ä", "u0041", "1abc", "space", "Aacute", "A.alt1", "a.alt1", "f_i.1", "f.1_i", ".a", "uni0041", "\x00", "(x)", "a/b",
	strings.Repeat("x", 31), strings.Repeat("y", 32), strings.Repeat("z", 60), strings.Repeat("w", 120), strings.Repeat("v", 127), strings.Repeat("v", 125) + ".1",
}

// drawNames draws existing names for n glyphs.
func drawNames(t *rapid.T, n int) []string {
	mode := rapid.IntRange(0, 4).Draw(t, "nameMode")
	res := make([]string, n)
	for i := range res {
		switch mode {
		case 0:
		case 1:
			res[i] = rapid.SampledFrom(namePool).Draw(t, "name")
		case 2:
			res[i] = fmt.Sprintf("g%d", i)
		default:
			if rapid.Bool().Draw(t, "named") {
				res[i] = rapid.SampledFrom(namePool).Draw(t, "name")
			}
		}
	}
	if rapid.Bool().Draw(t, "notdef") {
		res[0] = ".notdef"
	}
	return res
}

var runePool = []rune("AABaafi1 Ááﬁﬃ\u00a0\u2126\u03a9漢")

// drawCmap draws a character map which uses the names in the pool.
func drawCmap(t *rapid.T, n int) cmap.Table {
	gid := func() glyph.ID {
		if rapid.IntRange(0, 20).Draw(t, "outside") == 0 {
			return glyph.ID(rapid.IntRange(n, 65535).Draw(t, "gid"))
		}
		return glyph.ID(rapid.IntRange(0, n-1).Draw(t, "gid"))
	}
	if rapid.Bool().Draw(t, "format12") {
		s := cmap.Format12{}
		for k := rapid.IntRange(0, 12).Draw(t, "codes"); k > 0; k-- {
			r := uint32(rapid.SampledFrom(runePool).Draw(t, "r"))
			switch rapid.IntRange(0, 30).Draw(t, "other") {
			case 0:
				r = rapid.Uint32Range(0, 0x10FFFF).Draw(t, "r")
			case 1:
				r = rapid.SampledFrom([]uint32{0, 0xD800, 0x10FFFF, 0x110000, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFE, 0xFFFF}).Draw(t, "r")
			}
			s[r] = gid()
		}
		return cmap.Table{{PlatformID: 3, EncodingID: 10}: s.Encode(0)}
	}
	s := cmap.Format4{}
	for k := rapid.IntRange(0, 12).Draw(t, "codes"); k > 0; k-- {
		s[uint16(rapid.SampledFrom(runePool).Draw(t, "r"))] = gid()
	}
	return cmap.Table{{PlatformID: 3, EncodingID: 1}: s.Encode(0)}
}

func drawFont(t *rapid.T) *sfnt.Font {
	f := gen.Font(t, gen.FontOpts{MaxGlyphs: 14, NoRare: true, NoLayout: true})
	n := f.NumGlyphs()
	if rapid.IntRange(0, 3).Draw(t, "otherCmap") > 0 {
		f.CMapTable = drawCmap(t, n)
	}
	switch o := f.Outlines.(type) {
	case *glyf.Outlines:
		switch rapid.IntRange(0, 4).Draw(t, "namesList") {
		case 0:
			o.Names = nil
		case 1:
			o.Names = drawNames(t, rapid.IntRange(1, n+3).Draw(t, "numNames"))
		default:
			o.Names = drawNames(t, n)
		}
	case *cff.Outlines:
		nn := drawNames(t, n)
		if !o.IsCIDKeyed() || rapid.IntRange(0, 3).Draw(t, "namedCID") == 0 {
			for i, g := range o.Glyphs {
				g.Name = nn[i]
			}
		}
		if !o.IsCIDKeyed() {
			o.Encoding = make([]glyph.ID, 256)
		}
	}
	if rapid.IntRange(0, 4).Draw(t, "gsub") > 0 {
		var glyphs []glyph.ID
		for i := 0; i < n; i++ {
			glyphs = append(glyphs, glyph.ID(i))
		}
		opt := &gen.GtabOpts{Glyphs: glyphs, WellFormed: true}
		if rapid.Bool().Draw(t, "namingOnly") {
			opt.Types = []uint16{1, 3, 4}
		}
		f.Gsub = opt.Info(t, 0, 4)
	}
	return f
}

// rule is a substitution which allows to infer a name.
type rule struct {
	src []glyph.ID
	out glyph.ID
}

func rules(info *gtab.Info) []rule {
	var res []rule
	if info == nil {
		return nil
	}
	for _, l := range info.LookupList {
		for _, s := range l.Subtables {
			switch s := s.(type) {
			case *gtab.Gsub1_1:
				for g := range s.Cov {
					res = append(res, rule{[]glyph.ID{g}, g + s.Delta})
				}
			case *gtab.Gsub1_2:
				for g, i := range s.Cov {
					res = append(res, rule{[]glyph.ID{g}, s.SubstituteGlyphIDs[i]})
				}
			case *gtab.Gsub3_1:
				for g, i := range s.Cov {
					for _, out := range s.Alternates[i] {
						res = append(res, rule{[]glyph.ID{g}, out})
					}
				}
			case *gtab.Gsub4_1:
				for g, i := range s.Cov {
					for _, lig := range s.Repl[i] {
						res = append(res, rule{append([]glyph.ID{g}, lig.In...), lig.Out})
					}
				}
			}
		}
	}
	return res
}

func existing(f *sfnt.Font) []string {
	n := f.NumGlyphs()
	res := make([]string, n)
	switch o := f.Outlines.(type) {
	case *glyf.Outlines:
		copy(res, o.Names)
	case *cff.Outlines:
		for i, g := range o.Glyphs {
			res[i] = g.Name
		}
	}
	res[0] = ".notdef"
	return res
}

var (
	safe        = regexp.MustCompile(`^([A-Za-z_][A-Za-z0-9._]*|\.notdef)$`)
	placeholder = regexp.MustCompile(`^[a-z]+[0-9]{3,}$`)
)

// complete checks the properties which always hold.
func complete(t gen.Fataler, what string, old, got []string) map[string]bool {
	if len(got) != len(old) {
		t.Fatalf("%s: %d names for %d glyphs", what, len(got), len(old))
	}
	used := map[string]bool{}
	for i, name := range got {
		if name == "" {
			t.Fatalf("%s: glyph %d has no name: %q", what, i, got)
		}
		if used[name] {
			t.Fatalf("%s: the name %q is used twice: %q", what, name, got)
		}
		used[name] = true
	}
	if got[0] != ".notdef" {
		t.Fatalf("%s: glyph 0 is named %q", what, got[0])
	}
	return used
}

// isVariant reports whether name is derived from base.
func isVariant(used map[string]bool, name, base string) bool {
	x := base
	for k := 1; ; k++ {
		if x == name {
			return true
		}
		if !used[x] {
			return false
		}
		x = fmt.Sprintf("%s.%d", base, k)
	}
}

// checkNames checks the result of MakeGlyphNames.
func checkNames(t gen.Fataler, c *pbt.Case, f *sfnt.Font, got []string) {
	old := existing(f)
	used := complete(t, fmt.Sprintf("existing names %q", old), old, got)
	count := map[string]int{}
	for _, name := range old {
		count[name]++
	}
	m, _ := gen.BestCmap(t, f)
	chars := map[glyph.ID][]rune{}
	for code, g := range m {
		if code <= 0x10FFFF && g != 0 {
			chars[glyph.ID(g)] = append(chars[glyph.ID(g)], rune(code))
		}
	}
	stage := make([]int, len(got)) // 0 = kept, 1 = from cmap, 2 = from GSUB, 3 = placeholder
	for i, name := range got {
		if old[i] != "" && count[old[i]] == 1 && name != old[i] {
			t.Fatalf("glyph %d: the name %q is replaced by %q", i, old[i], name)
		}
		if name == old[i] {
			continue
		}
		stage[i] = 2
		var options []string
		for _, r := range chars[glyph.ID(i)] {
			x := names.FromUnicode(string(r))
			options = append(options, x)
			if x == name {
				stage[i] = 1
				c.Class("from cmap")
			}
		}
		if stage[i] == 1 {
			continue
		}
		for _, x := range options {
			if !used[x] {
				t.Fatalf("glyph %d: the name %q from the cmap is available, but the glyph is called %q", i, x, name)
			}
			c.Class("cmap name taken")
		}
	}
	rr := rules(f.Gsub)
	for i, name := range got {
		if stage[i] != 2 {
			continue
		}
		ok := false
		var options []string
		for _, r := range rr {
			if int(r.out) != i || slices.ContainsFunc(r.src, func(g glyph.ID) bool { return int(g) >= len(got) }) {
				continue
			}
			var parts []string
			settled, clean := true, true
			for _, g := range r.src {
				parts = append(parts, got[g])
				if stage[g] > 1 {
					settled = false
				}
				if !safe.MatchString(got[g]) || g == 0 {
					clean = false
				}
			}
			base := strings.Join(parts, "_")
			if isVariant(used, name, base) {
				ok = true
				c.Class([]string{"", "variant", "ligature of 2", "longer ligature"}[min(3, len(r.src))])
				if clean && !safe.MatchString(name) {
					t.Fatalf("glyph %d: the name %q is not valid", i, name)
				}
			}
			if settled && clean && len(base) < 110 {
				options = append(options, base)
			}
		}
		if ok {
			continue
		}
		if len(options) > 0 {
			t.Fatalf("glyph %d: the rules suggest %q, but the glyph is called %q (%q -> %q)", i, options, name, old, got)
		}
		if !placeholder.MatchString(name) || len(name) > 12 {
			t.Fatalf("glyph %d: name %q does not come from the cmap or from a substitution, and is no placeholder", i, name)
		}
		stage[i] = 3
		c.Class("placeholder")
	}
	if slices.ContainsFunc(stage, func(s int) bool { return s != 0 }) {
		c.NonTrivial([]byte(fmt.Sprintf("%q %q", old, got)))
	}
	for i := range got {
		if stage[i] != 0 && len(got[i]) > 127 {
			t.Fatalf("glyph %d: the name %q is too long", i, got[i])
		}
	}
	for x, k := range count {
		c.ClassIf(k > 1 && x != "", "duplicate names")
	}
}

func namesOf(f *sfnt.Font) []string {
	var res []string
	for i := 0; i < f.NumGlyphs(); i++ {
		res = append(res, f.GlyphName(glyph.ID(i)))
	}
	return res
}

// withoutNames describes everything, except for the glyph names.
func withoutNames(f *sfnt.Font) string {
	f = gen.Clone(f)
	switch o := f.Outlines.(type) {
	case *glyf.Outlines:
		o.Names = nil
	case *cff.Outlines:
		for _, g := range o.Glyphs {
			g.Name = ""
		}
	}
	return gen.DumpFont(f)
}

func same(a, b []string) bool {
	return strings.Join(a, "\xff") == strings.Join(b, "\xff") && len(a) == len(b)
}

// TestNames checks MakeGlyphNames and EnsureGlyphNames.
func TestNames(t *testing.T) {
	pbt.Check(t, 16000, 500000, func(t *rapid.T, c *pbt.Case) {
		f := drawFont(t)
		c.Class(gen.Kind(f))
		before := gen.DumpFont(f)
		for i, name := range existing(f) {
			if x := f.GlyphName(glyph.ID(i)); x != name && i > 0 {
				t.Fatalf("GlyphName(%d) = %q, want %q", i, x, name)
			}
		}
		got := f.MakeGlyphNames()
		checkNames(t, c, f, got)
		for range 3 {
			if x := gen.Clone(f).MakeGlyphNames(); !same(x, got) {
				t.Fatalf("MakeGlyphNames returns %q, and %q for a copy of the font", got, x)
			}
		}
		keep := append([]string{}, got...)
		if x := f.MakeGlyphNames(); !same(x, got) {
			t.Fatalf("MakeGlyphNames returns %q and then %q", got, x)
		}
		for i := range got {
			got[i] = "overwritten"
		}
		got = keep
		if after := gen.DumpFont(f); after != before {
			t.Fatalf("MakeGlyphNames modifies the font: %s", gen.DiffText(before, after))
		}

		// install the names
		rest := withoutNames(f)
		f.EnsureGlyphNames()
		if x := namesOf(f); !same(x, got) {
			t.Fatalf("EnsureGlyphNames installs %q, want %q", x, got)
		}
		if x := f.MakeGlyphNames(); !same(x, got) {
			t.Fatalf("after EnsureGlyphNames, MakeGlyphNames returns %q, want %q", x, got)
		}
		f.EnsureGlyphNames()
		if x := namesOf(f); !same(x, got) {
			t.Fatalf("EnsureGlyphNames installs %q, and %q when called again", got, x)
		}
		if x := withoutNames(f); x != rest {
			t.Fatalf("EnsureGlyphNames modifies the font: %s", gen.DiffText(rest, x))
		}
		c.Sample(func() string { return fmt.Sprintf("%s: %q", gen.Kind(f), got) })

		// the names are stored in font files
		if o, ok := f.Outlines.(*cff.Outlines); ok && o.IsCIDKeyed() {
			return
		}
		buf := &bytes.Buffer{}
		if _, err := f.Write(buf); err != nil {
			t.Fatalf("Write: %v", err)
		}
		g, err := sfnt.Read(bytes.NewReader(buf.Bytes()))
		if err != nil {
			t.Fatalf("Read: %v", err)
		}
		if x := namesOf(g); !same(x, got) {
			t.Fatalf("after writing and reading, the names are %q, want %q", x, got)
		}
		if x := g.MakeGlyphNames(); !same(x, got) {
			t.Fatalf("after writing and reading, MakeGlyphNames returns %q, want %q", x, got)
		}
	})
}

// TestLarge checks fonts with many glyphs.
func TestLarge(t *testing.T) {
	pbt.Enumerate(t, 24, func(i int, c *pbt.Case) {
		rng := rand.New(rand.NewPCG(uint64(pbt.Seed()), uint64(i)))
		n := []int{257, 258, 259, 300, 999, 1000, 1001, 3000, 65535}[i%9]
		glyphs := make(glyf.Glyphs, n)
		o := &glyf.Outlines{Glyphs: glyphs}
		for k := rng.IntN(n + 2); k > 0; k-- {
			x := fmt.Sprintf("orn%03d", 1+rng.IntN(n))
			if rng.IntN(3) == 0 {
				x = ""
			}
			o.Names = append(o.Names, x)
		}
		f := &sfnt.Font{Outlines: o}
		m := cmap.Format4{}
		for k := rng.IntN(3000); k > 0; k-- {
			m[uint16(rng.IntN(65536))] = glyph.ID(rng.IntN(n))
		}
		f.InstallCMap(m)
		pbt.Doing(func() string { return fmt.Sprint("glyphs:", n) })
		got := f.MakeGlyphNames()
		checkNames(pbt.Failer(t, fmt.Sprintf("%d glyphs: ", n)), c, f, got)
		f.EnsureGlyphNames()
		if x := f.MakeGlyphNames(); !same(x, got) {
			pbt.Failf("%d glyphs: the names change", n)
		}
		c.Sample(func() string { return fmt.Sprintf("%d glyphs", n) })
	})
}

var textPool = []string{"A", "B", "f", "fi", "ffi", "a", "\u00e1", "漢", "漢字", "", "\U0001F600", "abcdefghijklmnop", "ABCDEFGHIJKLMNOPQ", "A\u0301", " ", "\xff", "1", "Aacute"}

// TestSimple checks the conversion to simple fonts.
func TestSimple(t *testing.T) {
	pbt.Check(t, 20000, 400000, func(t *rapid.T, c *pbt.Case) {
		kind := gen.SimpleCFF
		if rapid.IntRange(0, 2).Draw(t, "cid") > 0 {
			kind = gen.CIDCFF
		}
		f := gen.CFFFont(t, gen.CFFOpts{NumGlyphs: rapid.IntRange(1, 14).Draw(t, "n"), MaxRuns: 1, MaxStems: 1, CID: kind - 1, Styles: []gen.Num{gen.NumInt}})
		n := len(f.Glyphs)
		nn := drawNames(t, n)
		for i, g := range f.Glyphs {
			g.Name = nn[i]
		}
		var text map[glyph.ID]string
		if rapid.IntRange(0, 3).Draw(t, "hasText") > 0 {
			text = map[glyph.ID]string{}
			for k := rapid.IntRange(0, 2*n).Draw(t, "numTexts"); k > 0; k-- {
				text[glyph.ID(rapid.IntRange(0, n+2).Draw(t, "textGid"))] = rapid.SampledFrom(textPool).Draw(t, "text")
			}
		}
		shared := gen.Dump(f.Glyphs)
		glyphs := f.Glyphs

		o := *f.Outlines
		textDump := gen.Dump(text)
		o.MakeSimple(text)
		got := make([]string, n)
		for i, g := range o.Glyphs {
			got[i] = g.Name
		}
		nn[0] = ".notdef"
		what := fmt.Sprintf("MakeSimple(%q), names %q", text, nn)
		used := complete(t, what, nn, got)
		if gen.Dump(text) != textDump {
			t.Fatalf("%s modifies its argument", what)
		}
		if gen.Dump(glyphs) != shared {
			t.Fatalf("%s modifies the glyphs of the original font", what)
		}
		count := map[string]int{}
		for _, name := range nn {
			count[name]++
		}
		for i, name := range got {
			if !safe.MatchString(name) || len(name) > 31 {
				t.Fatalf("%s: glyph %d has invalid name %q", what, i, name)
			}
			if name == nn[i] {
				continue
			}
			if count[nn[i]] == 1 && safe.MatchString(nn[i]) && len(nn[i]) <= 31 && nn[i] != "" {
				t.Fatalf("%s: glyph %d: name %q replaced by %q", what, i, nn[i], name)
			}
			c.NonTrivial([]byte(what))
			if tx := text[glyph.ID(i)]; tx != "" {
				base := names.FromUnicode(tx)
				ok := false
				x := base
				for k := 1; ; k++ {
					ok = ok || x == name
					if !used[x] || ok {
						break
					}
					x = fmt.Sprintf("%s.alt%d", base, k)
				}
				if ok {
					c.Class("name from text")
					continue
				}
				if len(x) <= 31 {
					t.Fatalf("%s: glyph %d with text %q is called %q, but %q is available", what, i, tx, name, x)
				}
			}
			if !placeholder.MatchString(name) {
				t.Fatalf("%s: glyph %d: unexpected name %q", what, i, name)
			}
			c.Class("placeholder")
		}
		if o.IsCIDKeyed() || o.ROS != nil || o.GIDToCID != nil || o.FontMatrices != nil {
			t.Fatalf("%s: the font is still CID-keyed", what)
		}
		if fmt.Sprint(o.Encoding) != fmt.Sprint(gen.StdEncoding(got, 0)) {
			t.Fatalf("%s: encoding %d, want %d", what, o.Encoding, gen.StdEncoding(got, 0))
		}
		for i, g := range o.Glyphs {
			g2 := *g
			g2.Name = glyphs[i].Name
			if gen.Dump(&g2) != gen.Dump(glyphs[i]) {
				t.Fatalf("%s: glyph %d changes", what, i)
			}
		}
		// asking again
		o2 := o
		o2.MakeSimple(text)
		for i, g := range o2.Glyphs {
			if g.Name != got[i] {
				t.Fatalf("%s gives %q, but glyph %d is called %q when calling the function again", what, got, i, g.Name)
			}
		}
		// the result can be written
		buf := &bytes.Buffer{}
		if err := (&cff.Font{FontInfo: f.FontInfo, Outlines: &o}).Write(buf); err != nil {
			t.Fatalf("%s: Write: %v", what, err)
		}
		back, err := cff.Read(bytes.NewReader(buf.Bytes()))
		if err != nil {
			t.Fatalf("%s: Read: %v", what, err)
		}
		for i, g := range back.Glyphs {
			if g.Name != got[i] {
				t.Fatalf("%s: glyph %d is called %q in the file, want %q", what, i, g.Name, got[i])
			}
		}
		// and back
		c.ClassIf(kind == gen.CIDCFF, "CID-keyed")
		o3 := o
		gidToCID := make([]cid.CID, n)
		for i := range gidToCID {
			gidToCID[i] = cid.CID(i)
		}
		o3.MakeCIDKeyed(&cid.SystemInfo{Registry: "Adobe", Ordering: "Identity"}, gidToCID)
		for i, g := range o.Glyphs {
			if g.Name != got[i] {
				t.Fatalf("MakeCIDKeyed modifies the original glyph %d", i)
			}
			if o3.Glyphs[i].Name != "" {
				t.Fatalf("MakeCIDKeyed keeps the name of glyph %d", i)
			}
		}
		c.Sample(func() string { return fmt.Sprintf("%s -> %q", what, got) })
	})
}

// permitted reports whether c is allowed in a PostScript name.
func permitted(c rune) bool {
	return c > 32 && c < 127 && !strings.ContainsRune("[](){}<>/%", c)
}

// TestPostScript checks the PostScript name of a font.
func TestPostScript(t *testing.T) {
	pbt.Check(t, 40000, 1000000, func(t *rapid.T, c *pbt.Case) {
		f := &sfnt.Font{}
		f.FamilyName = rapid.OneOf(
			rapid.StringN(0, 30, -1),
			rapid.StringOfN(rapid.RuneFrom([]rune("[](){}<>/%aA -é漢\n\t!~\x7f\x1f^_`|\\;:=?@*+,.'\"&#$")), 0, 30, -1),
			rapid.Custom(func(t *rapid.T) string { return string(gen.DrawBytes(t, "familyBytes", 20)) }),
			rapid.SampledFrom([]string{"Go Regular", "Go Bold", "Semi Condensed", "Extra-Light", "日本"}),
		).Draw(t, "family")
		f.Width = os2.Width(rapid.OneOf(rapid.IntRange(0, 10), rapid.IntRange(0, 65535)).Draw(t, "width"))
		f.Weight = os2.Weight(rapid.OneOf(rapid.SampledFrom([]int{0, 100, 200, 300, 400, 500, 600, 700, 800, 900, 1000}), rapid.IntRange(0, 65535)).Draw(t, "weight"))
		f.IsBold, f.IsItalic, f.IsOblique, f.IsRegular = rapid.Bool().Draw(t, "b"), rapid.Bool().Draw(t, "i"), rapid.Bool().Draw(t, "o"), rapid.Bool().Draw(t, "r")
		f.IsSerif, f.IsScript = rapid.Bool().Draw(t, "s"), rapid.Bool().Draw(t, "sc")
		name := f.PostScriptName()
		var want []rune
		for _, r := range name {
			if !permitted(r) {
				t.Fatalf("family %q: PostScript name %q contains %q", f.FamilyName, name, r)
			}
		}
		for _, r := range f.FamilyName {
			if permitted(r) {
				want = append(want, r)
			}
		}
		if !strings.HasPrefix(name, string(want)+"-") {
			t.Fatalf("family %q: PostScript name %q does not contain the family name %q", f.FamilyName, name, string(want))
		}
		if x := f.PostScriptName(); x != name {
			t.Fatalf("PostScript name %q and then %q", name, x)
		}
		g := *f
		g.Outlines = &glyf.Outlines{}
		if x := g.GetFontInfo().FontName; x != name {
			t.Fatalf("FontName %q in the FontInfo structure, PostScript name %q", x, name)
		}
		c.NonTrivial([]byte(name))
		c.ClassIf(len(want) < len([]rune(f.FamilyName)), "forbidden characters")
		c.Sample(func() string {
			return fmt.Sprintf("%q, width %d, weight %d -> %q", f.FamilyName, f.Width, f.Weight, name)
		})
	})
}
