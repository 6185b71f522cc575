// Package c01 checks the round trip of complete fonts.
package c01

import (
	"bytes"
	"fmt"
	"math"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"pgregory.net/rapid"

	"seehuhn.de/go/sfnt"
	"seehuhn.de/go/sfnt/cff"
	"seehuhn.de/go/sfnt/glyf"
	"seehuhn.de/go/sfnt/glyph"
	"seehuhn.de/go/sfnt/opentype/gtab"

	"seehuhn.de/go/sfnt/verif/gen"
	"seehuhn.de/go/sfnt/verif/pbt"
	"seehuhn.de/go/sfnt/verif/ref"
)

func TestMain(m *testing.M) { pbt.Main(m) }

type fataler = gen.Fataler

func write(t fataler, f *sfnt.Font) []byte {
	buf := &bytes.Buffer{}
	n, err := f.Write(buf)
	if err != nil {
		t.Fatalf("Write: %v", err)
	}
	if n != int64(buf.Len()) {
		t.Fatalf("Write returned %d for %d bytes", n, buf.Len())
	}
	return buf.Bytes()
}

func read(t fataler, b []byte) *sfnt.Font {
	f, err := sfnt.Read(bytes.NewReader(b))
	if err != nil {
		t.Fatalf("cannot read written font: %v", err)
	}
	return f
}

// fixedPoint checks that writing and reading a font does not change anything.
func fixedPoint(t fataler, f1 *sfnt.Font, exact bool) []byte {
	b1 := write(t, f1)
	b1a := write(t, f1)
	if !bytes.Equal(b1, b1a) {
		t.Fatalf("writing the same font twice gives different bytes: %s", diffTables(b1, b1a))
	}
	f2 := read(t, b1)
	if err := gen.FontDiff(f1, f2, exact); err != nil {
		t.Fatalf("the font changes when it is written and read: %v", err)
	}
	b2 := write(t, f2)
	if !bytes.Equal(b1, b2) {
		t.Fatalf("not a byte fixed point: %s", diffTables(b1, b2))
	}
	return b1
}

func diffTables(a, b []byte) string {
	p, err1 := ref.ParseContainer(a)
	q, err2 := ref.ParseContainer(b)
	if err1 != nil || err2 != nil {
		return fmt.Sprint(err1, " ", err2)
	}
	var out []string
	for _, e := range p.Records {
		x, y := p.Tables[e.Tag], q.Tables[e.Tag]
		if !bytes.Equal(x, y) {
			i := 0
			for i < len(x) && i < len(y) && x[i] == y[i] {
				i++
			}
			out = append(out, fmt.Sprintf("table %q differs at offset %d (lengths %d and %d)", e.Tag, i, len(x), len(y)))
		}
	}
	if len(p.Records) != len(q.Records) {
		out = append(out, "different number of tables")
	}
	return strings.Join(out, ", ")
}

func describe(f *sfnt.Font) string {
	s := fmt.Sprintf("%s, %d glyphs, %d upm, cmap %d, GDEF %v", gen.Kind(f), f.NumGlyphs(), f.UnitsPerEm, len(f.CMapTable), f.Gdef != nil)
	if f.Gsub != nil {
		s += fmt.Sprintf(", GSUB %d", len(f.Gsub.LookupList))
	}
	if f.Gpos != nil {
		s += fmt.Sprintf(", GPOS %d", len(f.Gpos.LookupList))
	}
	return s + fmt.Sprintf(", %q", f.FullName())
}

func classes(c *pbt.Case, f *sfnt.Font) {
	c.Class(gen.Kind(f))
	c.ClassIf(f.CMapTable == nil, "no cmap")
	c.ClassIf(f.Gdef != nil, "GDEF")
	c.ClassIf(f.Gsub != nil && len(f.Gsub.LookupList) > 0, "GSUB")
	c.ClassIf(f.Gpos != nil && len(f.Gpos.LookupList) > 0, "GPOS")
	c.ClassIf(f.IsItalic, "italic")
	c.ClassIf(f.IsBold, "bold")
	c.ClassIf(f.IsRegular, "regular")
	c.ClassIf(f.CreationTime.IsZero() || f.ModificationTime.IsZero(), "one time stamp missing")
	c.ClassIf(f.NumGlyphs() >= 256, "at least 256 glyphs")
	if o, ok := f.Outlines.(*glyf.Outlines); ok {
		c.ClassIf(o.Names != nil, "glyph names")
		for _, g := range o.Glyphs {
			if g != nil {
				if _, ok := g.Data.(glyf.CompositeGlyph); ok {
					c.Class("composite glyphs")
					break
				}
			}
		}
	}
}

// TestConstructed checks fonts which are constructed in memory.
func TestConstructed(t *testing.T) {
	pbt.Check(t, 12000, 300000, func(t *rapid.T, c *pbt.Case) {
		f := gen.Font(t, gen.FontOpts{MaxGlyphs: 20})
		classes(c, f)
		before := gen.DumpFont(f)
		b := write(t, f)
		if !bytes.Equal(b, write(t, f)) {
			t.Fatalf("writing the same font twice gives different bytes")
		}
		if gen.DumpFont(f) != before {
			t.Fatalf("Write modifies the font: %s", gen.DiffText(before, gen.DumpFont(f)))
		}
		got := read(t, b)
		want := gen.Normal(t, f, got)
		if gen.Synthesised(f, got) && got.Gsub != nil {
			checkLigatures(t, c, f, got.Gsub)
			want.Gsub = got.Gsub
		}
		if err := gen.FontDiff(want, got, false); err != nil {
			t.Fatalf("font changed: %v", err)
		}
		fixedPoint(t, got, true)
		c.NonTrivial(b)
		c.Sample(func() string { return describe(f) })
	})
}

// checkLigatures checks that the table uses only the standard ligatures.
func checkLigatures(t fataler, c *pbt.Case, f *sfnt.Font, g *gtab.Info) {
	c.Class("synthesised ligatures")
	best, _ := f.CMapTable.GetBest()
	if best == nil {
		t.Fatalf("ligatures in a font without usable cmap")
	}
	if len(g.LookupList) != 1 || len(g.LookupList[0].Subtables) != 1 {
		t.Fatalf("unexpected lookups: %s", gen.FormatLookups(g.LookupList))
	}
	l, ok := g.LookupList[0].Subtables[0].(*gtab.Gsub4_1)
	if !ok {
		t.Fatalf("unexpected lookups: %s", gen.FormatLookups(g.LookupList))
	}
	want := map[string]glyph.ID{}
	for lig, parts := range map[rune]string{0xFB00: "ff", 0xFB01: "fi", 0xFB02: "fl", 0xFB03: "ffi", 0xFB04: "ffl"} {
		key, ok := "", true
		for _, r := range parts {
			gid := best.Lookup(r)
			ok = ok && gid != 0
			key += fmt.Sprint(gid, " ")
		}
		gid := best.Lookup(lig)
		if ok && gid != 0 {
			want[key] = gid
		}
	}
	n := 0
	for first, idx := range l.Cov {
		for _, lig := range l.Repl[idx] {
			key := fmt.Sprint(first, " ")
			for _, g := range lig.In {
				key += fmt.Sprint(g, " ")
			}
			if _, ok := want[key]; !ok {
				t.Fatalf("unexpected ligature %s-> %d", key, lig.Out)
			}
			n++
		}
	}
	if n == 0 {
		t.Fatalf("empty ligature lookup")
	}
}

// TestDates writes fonts at different times.
func TestDates(t *testing.T) {
	T := t
	pbt.Check(t, 400, 4000, func(t *rapid.T, c *pbt.Case) {
		f := gen.Font(t, gen.FontOpts{MaxGlyphs: 3, NoLayout: true, NoTime: true, NoRare: true})
		if rapid.Bool().Draw(t, "noTimes") {
			f.CreationTime, f.ModificationTime = time.Time{}, time.Time{}
		}
		wait := time.Duration(rapid.IntRange(1, 1000).Draw(t, "hours")) * time.Hour
		var b [3][]byte
		var failure any
		synctest.Test(T, func(*testing.T) {
			defer func() { failure = recover() }()
			b[0] = write(t, f)
			time.Sleep(wait)
			b[1] = write(t, f)
			b[2] = write(t, read(t, b[0]))
		})
		if failure != nil {
			panic(failure)
		}
		if !bytes.Equal(b[0], b[1]) {
			t.Fatalf("the same font, written %v later, gives different bytes: %s", wait, diffTables(b[0], b[1]))
		}
		c.ClassIf(f.CreationTime.IsZero() && f.ModificationTime.IsZero(), "no time stamps")
		c.NonTrivial(b[0])
		c.Sample(func() string { return fmt.Sprintf("%s, %v", describe(f), wait) })
	})
}

var realFonts = gen.RealFonts(200000)

// drawFile draws a font file.
func drawFile(t *rapid.T) ([]byte, string) {
	var b []byte
	var name string
	if rapid.IntRange(0, 11).Draw(t, "realFont") == 0 {
		f := rapid.SampledFrom(realFonts).Draw(t, "file")
		b, name = f.Data, f.Name
	} else {
		f := gen.Font(t, gen.FontOpts{MaxGlyphs: 8, NoRare: true, NoTime: true})
		b, name = write(t, f), gen.Kind(f)
	}
	return b, name
}

// TestAccepted checks files which are accepted by the reader.
func TestAccepted(t *testing.T) {
	pbt.Check(t, 12000, 300000, func(t *rapid.T, c *pbt.Case) {
		b, name := drawFile(t)
		cont, err := ref.ParseContainer(b)
		if err != nil {
			// some of the real fonts are not well-formed
			if !strings.Contains(name, ".") {
				t.Fatalf("malformed container: %v", err)
			}
			c.Class("malformed real font")
			return
		}
		tables := map[string][]byte{}
		for k, v := range cont.Tables {
			tables[k] = v
		}
		n := 1
		if d := tables["maxp"]; len(d) >= 6 {
			n = max(1, ref.U16(d, 4))
		}
		log := gen.MutateFont(t, tables, n)
		scaler := cont.Scaler
		if scaler == 0x00010000 && rapid.IntRange(0, 9).Draw(t, "apple") == 0 {
			scaler = 0x74727565
		}
		if len(log) > 0 {
			b = ref.BuildContainer(scaler, tables)
		}
		f1, err := sfnt.Read(bytes.NewReader(b))
		if err != nil {
			c.Class("rejected")
			return
		}
		c.Class("accepted")
		for _, s := range log {
			c.Class(s)
		}
		// DICT data is written with nine significant digits
		exact := f1.IsGlyf()
		if o, ok := f1.Outlines.(*cff.Outlines); ok && (len(tables["hmtx"]) == 0 || len(tables["hhea"]) == 0) {
			// widths are rounded to integers
			for _, g := range o.Glyphs {
				if g.Width != math.Round(g.Width) || math.Abs(g.Width) > 32767 {
					c.Class("fractional widths")
					return
				}
			}
		}
		pbt.Doing(func() string { return fmt.Sprint(name, log) })
		fixedPoint(t, f1, exact)
		if len(log) > 0 {
			c.NonTrivial(b)
		}
		c.Sample(func() string { return fmt.Sprintf("%s %v -> %s", name, log, describe(f1)) })
	})
}
