package c02

import (
	"bytes"
	"fmt"
	"math/rand/v2"
	"runtime/debug"
	"sort"
	"strings"
	"testing"

	"pgregory.net/rapid"

	"seehuhn.de/go/sfnt"
	"seehuhn.de/go/sfnt/glyf"
	"seehuhn.de/go/sfnt/glyph"
	"seehuhn.de/go/sfnt/opentype/gtab"

	"seehuhn.de/go/sfnt/verif/data"
	"seehuhn.de/go/sfnt/verif/gen"
	"seehuhn.de/go/sfnt/verif/pbt"
	"seehuhn.de/go/sfnt/verif/ref"
)

func TestMain(m *testing.M) {
	debug.SetGCPercent(400)
	pbt.Main(m)
}

func hexdump(b []byte) string {
	if len(b) <= 600 {
		return fmt.Sprintf("%d bytes: % x", len(b), b)
	}
	return fmt.Sprintf("%d bytes: % x ...", len(b), b[:600])
}

// run runs a decoder and, where the decoder succeeds, the accessors.
func run(t gen.Fataler, c *pbt.Case, d *decoder, b []byte) (ok bool) {
	stage := "decoding"
	pbt.Doing(func() string { return d.name + ", " + stage + ": " + hexdump(b) })
	input := append([]byte{}, b...)
	var use func()
	var err error
	attempt := func() {
		defer func() {
			if r := recover(); r != nil {
				t.Fatalf("%s, %s: panic: %v\n%s\n%s", d.name, stage, r, hexdump(input), debug.Stack())
			}
		}()
		if stage == "decoding" {
			use, err = d.decode(b)
		} else {
			use()
		}
	}
	k := measured(attempt)
	for range 2 {
		if msg := k.excessive(d.name, len(b)); msg != "" {
			// other processes can influence the CPU time used
			k = measured(attempt)
		}
	}
	if msg := k.excessive(d.name, len(b)); msg != "" {
		t.Fatalf("%s: %s; %s", d.name, msg, hexdump(b))
	}
	if !bytes.Equal(b, input) {
		t.Fatalf("%s: the decoder modifies its input %s", d.name, hexdump(input))
	}
	if err != nil {
		if err.Error() == "" {
			t.Fatalf("%s: empty error message", d.name)
		}
		return false
	}
	stage = "accessors"
	attempt()
	return true
}

// soup draws a sequence of plausible 16-bit values.
func soup(t *rapid.T, max int) []byte {
	rng := gen.Rand(t)
	n := rapid.IntRange(0, max).Draw(t, "soupLen")
	var b []byte
	kind := rapid.IntRange(0, 3).Draw(t, "soupKind")
	inc := 0
	for range n {
		var v int
		switch r := rng.IntN(20); {
		case r < 8:
			v = rng.IntN(5)
		case r < 13:
			v = 2 * rng.IntN(n+2)
		case r < 15:
			inc += rng.IntN(4)
			v = inc
		case r < 16:
			v = []int{0x7FFF, 0x8000, 0xFFFF, 0xFFFE, 0x100, 0xFF, n, 2 * n}[rng.IntN(8)]
		case r < 17:
			v = rng.IntN(65536)
		default:
			v = rng.IntN(30)
		}
		if kind == 3 {
			b = append(b, byte(v))
			continue
		}
		b = append(b, byte(v>>8), byte(v))
	}
	return b
}

// valid draws an input for the given decoder which (in most cases) is valid.
func valid(t *rapid.T, name string) []byte {
	fontTable := func(kind int, tag string) []byte {
		f := gen.Font(t, gen.FontOpts{Kind: kind, MaxGlyphs: 10, NoRare: true, NoLayout: true})
		buf := &bytes.Buffer{}
		if _, err := f.Write(buf); err != nil {
			t.Fatalf("Write: %v", err)
		}
		if tag == "" {
			return buf.Bytes()
		}
		c, err := ref.ParseContainer(buf.Bytes())
		if err != nil {
			t.Fatalf("container: %v", err)
		}
		return c.Tables[tag]
	}
	realTable := func(tag string) []byte {
		d := data.Table(rapid.SampledFrom(data.Fonts()).Draw(t, "realFont"), tag)
		if len(d) > 40000 {
			return nil
		}
		return d
	}
	bulk := func(gpos bool) []byte {
		b := gen.NewBulk(rapid.Uint64().Draw(t, "bulkSeed"), gpos)
		info := &gtab.Info{}
		for k := rapid.IntRange(1, 4).Draw(t, "bulkLookups"); k > 0; k-- {
			kind := rapid.SampledFrom(gen.BulkKinds(gpos)).Draw(t, "bulkKind")
			info.LookupList = append(info.LookupList, &gtab.LookupTable{
				Meta:      &gtab.LookupMetaInfo{LookupType: uint16(kind / 10)},
				Subtables: []gtab.Subtable{b.Subtable(kind, rapid.IntRange(20, 2000).Draw(t, "bulkSize"))},
			})
		}
		return info.Encode()
	}
	var glyphs []glyph.ID
	for i := range 8 {
		glyphs = append(glyphs, glyph.ID(i))
	}
	o := &gen.GtabOpts{Glyphs: glyphs, WellFormed: true}
	switch name {
	case "sfnt", "header":
		return fontTable(gen.AnyKind, "")
	case "cff":
		kind := rapid.SampledFrom([]int{gen.SimpleCFF, gen.CIDCFF}).Draw(t, "kind")
		if rapid.Bool().Draw(t, "assembled") {
			return assembled(t)
		}
		return fontTable(kind, "CFF ")
	case "cmap":
		switch rapid.IntRange(0, 5).Draw(t, "cmapKind") {
		case 0:
			return realTable("cmap")
		case 1:
			return rawCmap(t)
		}
		return gen.CMap(t, 12, false).Encode()
	case "glyf0", "glyf1":
		n := rapid.IntRange(1, 6).Draw(t, "n")
		var gg glyf.Glyphs
		if rapid.Bool().Draw(t, "plain") {
			gg = gen.PlainGlyf(t, n)
		} else {
			gg = gen.GlyfOutlines(t, n, false).Glyphs
		}
		e := gg.Encode()
		if name == "glyf1" && e.LocaFormat == 0 {
			var l []byte
			for i := 0; i+1 < len(e.LocaData); i += 2 {
				l = append(l, ref.P32(uint32(2*(int(e.LocaData[i])<<8|int(e.LocaData[i+1]))))...)
			}
			e.LocaData = l
		}
		return append(append(ref.P16(len(e.LocaData)), e.LocaData...), e.GlyfData...)
	case "simple":
		if rapid.IntRange(0, 2).Draw(t, "composite") == 0 {
			return gen.DrawComposite(t, 10).Bytes
		}
		return gen.DrawSimple(t, 30).Bytes
	case "GSUB", "GPOS":
		gpos := name == "GPOS"
		switch rapid.IntRange(0, 7).Draw(t, "gtabKind") {
		case 0:
			return realTable(name)
		case 1:
			return bulk(gpos)
		case 2, 3:
			return rawGtab(t, gpos)
		}
		o.Gpos = gpos
		return o.Info(t, 1, 4).Encode()
	case "GDEF":
		if rapid.IntRange(0, 5).Draw(t, "real") == 0 {
			return realTable("GDEF")
		}
		if g := o.DrawGdef(t); g != nil {
			return g.Encode()
		}
		return realTable("GDEF")
	case "coverage", "set":
		return o.Set(t, 0).ToTable().Encode()
	case "classdef":
		return o.Classes(t, 5).Append(nil)
	case "name":
		return gen.NameTable(t)
	case "head", "maxp":
		return fontTable(gen.Glyf, name)
	case "hmtx":
		return append(append([]byte{}, fontTable(gen.Glyf, "hhea")...), fontTable(gen.Glyf, "hmtx")...)
	case "hhea":
		return fontTable(gen.Glyf, name)
	case "OS/2":
		return gen.OS2Table(t)
	case "post":
		return gen.PostTable(t, rapid.SampledFrom([]int{0, 1, 5, 258, 300}).Draw(t, "n"))
	case "kern":
		return gen.KernTable(t, 12)
	}
	panic("missing generator for " + name)
}

// rawGtab draws a table with one lookup with arbitrary contents.
func rawGtab(t *rapid.T, gpos bool) []byte {
	var out []byte
	put := func(v ...int) {
		for _, x := range v {
			out = append(out, byte(x>>8), byte(x))
		}
	}
	max := 8
	if gpos {
		max = 9
	}
	tp, format := rapid.IntRange(1, max).Draw(t, "type"), rapid.IntRange(1, 3).Draw(t, "format")
	put(1, 0, 10, 12, 14, 0, 0) // no scripts, no features
	num := rapid.IntRange(1, 3).Draw(t, "sub")
	put(1, 4)
	put(tp, rapid.SampledFrom([]int{0, 0, 0x10, 0x100, 0xFFFF}).Draw(t, "flags"), num)
	for range num {
		put(6 + 2*num + 2*rapid.SampledFrom([]int{0, 0, 1, 2, 5}).Draw(t, "offs"))
	}
	if (tp == 7 && !gpos || tp == 9 && gpos) && rapid.Bool().Draw(t, "ext") {
		put(1, rapid.IntRange(1, max).Draw(t, "extType"), 0, 8)
	}
	put(format)
	if rapid.Bool().Draw(t, "cov") {
		// a coverage table directly after some values
		k := rapid.IntRange(0, 6).Draw(t, "values")
		put(2 + 2*k + 2)
		for range k {
			put(rapid.SampledFrom([]int{0, 1, 1, 2, 3, 4, 5, 0xF, 0xFF, 2 + 2*k + 2}).Draw(t, "v"))
		}
		put(1, 2, 1, 2)
	}
	return append(out, soup(t, 60)...)
}

// rawCmap draws a cmap with one subtable with arbitrary contents.
func rawCmap(t *rapid.T) []byte {
	body := soup(t, 80)
	format := rapid.SampledFrom([]int{0, 2, 4, 4, 4, 6, 6, 8, 10, 12, 12, 13, 14}).Draw(t, "format")
	var sub []byte
	if format < 8 {
		sub = append(append(ref.P16(format), ref.P16(6+len(body))...), 0, 0)
	} else {
		sub = append(append(ref.P16(format), 0, 0), ref.P32(uint32(12+len(body)))...)
		sub = append(sub, 0, 0, 0, 0)
	}
	sub = append(sub, body...)
	if format == 4 && len(sub) >= 16 {
		// make the number of segments fit
		n := rapid.IntRange(1, 5).Draw(t, "segments")
		sub[6], sub[7] = 0, byte(2*n)
	}
	if format == 12 && len(sub) >= 16 {
		n := (len(sub) - 16) / 12
		copy(sub[12:], ref.P32(uint32(n)))
		sub = sub[:16+12*n]
		copy(sub[4:], ref.P32(uint32(len(sub))))
	}
	out := []byte{0, 0, 0, 1}
	enc := rapid.SampledFrom([][2]int{{3, 1}, {3, 10}, {0, 3}, {1, 0}, {3, 0}, {0, 4}}).Draw(t, "enc")
	out = append(append(append(out, ref.P16(enc[0])...), ref.P16(enc[1])...), 0, 0, 0, 12)
	return append(out, sub...)
}

// assembled draws a CFF file with arbitrary charstrings.
func assembled(t *rapid.T) []byte {
	rng := gen.Rand(t)
	code := func(top bool) []byte {
		var b []byte
		for k := rng.IntN(14); k > 0; k-- {
			switch rng.IntN(8) {
			case 0, 1, 2:
				b = append(b, byte(139+rng.IntN(9)-4))
			case 3:
				b = append(b, 28, byte(rng.IntN(256)), byte(rng.IntN(256)))
			case 4:
				b = append(b, 255, byte(rng.IntN(256)), byte(rng.IntN(256)), byte(rng.IntN(256)), byte(rng.IntN(256)))
			case 5:
				b = append(b, 12, byte(rng.IntN(40)))
			case 6:
				b = append(b, byte(rng.IntN(3)+139-107), []byte{10, 29}[rng.IntN(2)]) // subroutine
			default:
				b = append(b, byte(rng.IntN(32)))
			}
		}
		return append(b, []byte{14, 11, 14, 14}[rng.IntN(4)])
	}
	codes := func(n int) [][]byte {
		var res [][]byte
		for range n {
			res = append(res, code(false))
		}
		return res
	}
	a := &gen.CFFAsm{Name: "Test", PreEncoding: 0, PreCharset: 0}
	n := 1 + rng.IntN(4)
	a.CharStrings = codes(n)
	a.GSubrs = codes(rng.IntN(4))
	a.FDs = []gen.AsmFD{{Subrs: codes(rng.IntN(4)), HasSubrs: true}}
	if rng.IntN(2) == 0 {
		a.ROS = append(append(gen.DictInt(34, 1), gen.DictInt(35, 1)...), gen.DictInt(0, 1)...)
		a.PreCharset = -1
		a.Charset = append([]byte{byte(rng.IntN(3))}, soupBytes(rng, 2*n)...)
		a.FDSelect = append([]byte{byte(3 * rng.IntN(2))}, soupBytes(rng, n+rng.IntN(8))...)
		for k := rng.IntN(3); k > 0; k-- {
			a.FDs = append(a.FDs, gen.AsmFD{Subrs: codes(rng.IntN(3)), HasSubrs: rng.IntN(2) == 0})
		}
	} else if rng.IntN(2) == 0 {
		a.PreCharset, a.PreEncoding = -1, -1
		a.Charset = append([]byte{byte(rng.IntN(3))}, soupBytes(rng, 2*n)...)
		a.Encoding = append([]byte{[]byte{0, 1, 0x80, 0x81, 2}[rng.IntN(5)]}, soupBytes(rng, 1+rng.IntN(12))...)
	}
	return a.Bytes()
}

func soupBytes(rng *rand.Rand, n int) []byte {
	var b []byte
	for range n {
		if rng.IntN(4) == 0 {
			b = append(b, byte(rng.IntN(256)))
		} else {
			b = append(b, byte(rng.IntN(4)))
		}
	}
	return b
}

func count(c *pbt.Case, d *decoder, ok bool, b []byte) {
	if ok {
		c.Class(d.name + " accepted")
	} else {
		c.Class(d.name + " rejected")
	}
	c.NonTrivial(append([]byte(d.name), b...))
	c.Sample(func() string { return fmt.Sprintf("%s, accepted=%v: %s", d.name, ok, hexdump(b[:min(len(b), 200)])) })
}

// TestTables uses mutated tables and files.
func TestTables(t *testing.T) {
	pbt.Check(t, 200000, 6000000, func(t *rapid.T, c *pbt.Case) {
		d := rapid.SampledFrom(decoders).Draw(t, "decoder")
		var b []byte
		switch rapid.IntRange(0, 9).Draw(t, "source") {
		case 0:
			b = soup(t, 80)
		case 1:
			b = valid(t, d.name)
		default:
			b = gen.Mutate(t, valid(t, d.name), 6)
		}
		count(c, d, run(t, c, d, b), b)
	})
}

// TestFonts uses fonts where the individual tables are mutated.
func TestFonts(t *testing.T) {
	pbt.Check(t, 20000, 600000, func(t *rapid.T, c *pbt.Case) {
		f := gen.Font(t, gen.FontOpts{MaxGlyphs: 12, NoRare: true})
		buf := &bytes.Buffer{}
		if _, err := f.Write(buf); err != nil {
			t.Fatalf("Write: %v", err)
		}
		cont, err := ref.ParseContainer(buf.Bytes())
		if err != nil {
			t.Fatalf("container: %v", err)
		}
		tables := map[string][]byte{}
		for k, v := range cont.Tables {
			tables[k] = v
		}
		log := gen.MutateFont(t, tables, f.NumGlyphs())
		names := make([]string, 0, len(tables))
		for k := range tables {
			names = append(names, k)
		}
		sort.Strings(names)
		for k := rapid.IntRange(0, 3).Draw(t, "mutations"); k > 0; k-- {
			name := rapid.SampledFrom(names).Draw(t, "table")
			src := strings.TrimSpace(strings.ToLower(name))
			switch src {
			case "gsub", "gpos", "gdef":
				src = name
			}
			if rapid.Bool().Draw(t, "replace") {
				for _, d := range decoders {
					if d.name == src && src != "sfnt" && src != "hmtx" {
						tables[name] = valid(t, src)
					}
				}
			}
			if len(tables[name]) > 0 {
				tables[name] = gen.Mutate(t, tables[name], 3)
			}
			log = append(log, name)
		}
		b := ref.BuildContainer(cont.Scaler, tables)
		c.Class(gen.Kind(f))
		for _, l := range log {
			c.Class("changed " + l)
		}
		d := decoderFor("sfnt")
		count(c, d, run(t, c, d, b), b)
	})
}

// TestReal mutates real fonts.
func TestReal(t *testing.T) {
	fonts := gen.RealFonts(300000)
	pbt.Check(t, 400, 12000, func(t *rapid.T, c *pbt.Case) {
		r := rapid.SampledFrom(fonts).Draw(t, "font")
		cont, err := ref.ParseContainer(r.Data)
		if err != nil {
			cont = nil
		}
		b := append([]byte{}, r.Data...)
		if cont != nil && rapid.Bool().Draw(t, "perTable") {
			tables := map[string][]byte{}
			var names []string
			for k, v := range cont.Tables {
				tables[k] = v
				names = append(names, k)
			}
			sort.Strings(names)
			for k := rapid.IntRange(1, 3).Draw(t, "mutations"); k > 0; k-- {
				name := rapid.SampledFrom(names).Draw(t, "table")
				tables[name] = gen.Mutate(t, tables[name], 3)
			}
			b = ref.BuildContainer(cont.Scaler, tables)
		} else {
			b = gen.Mutate(t, b, 8)
		}
		d := decoderFor("sfnt")
		count(c, d, run(t, c, d, b), b)
	})
}

// TestSmall uses all short inputs, and all small modifications of a few valid
// inputs.
func TestSmall(t *testing.T) {
	pbt.Enumerate(t, len(decoders)*16, func(i int, c *pbt.Case) {
		d := decoders[i%len(decoders)]
		part := i / len(decoders)
		fail := pbt.Failer(t, "")
		n := 0
		// all inputs of at most two bytes
		if part == 0 {
			run(fail, c, d, nil)
			for x := range 256 {
				run(fail, c, d, []byte{byte(x)})
				n++
			}
		}
		for x := part << 12; x < (part+1)<<12; x += 1 + 6*(x&1) {
			run(fail, c, d, ref.P16(x))
			n++
		}
		// seeds
		rt := rapid.Custom(func(t *rapid.T) []byte { return valid(t, d.name) })
		b := rt.Example(1000*pbt.Seed() + part)
		if len(b) > 20000 {
			b = b[:20000]
		}
		stride := 1 + len(b)/400
		for k := part % stride; k < len(b); k += stride {
			run(fail, c, d, b[:k])
			n++
		}
		ok := 0
		for k := part % stride; k < len(b); k += stride {
			old := b[k]
			for _, v := range []byte{0, 1, 0x7F, 0x80, 0xFF, old + 1, old - 1, old ^ 0x10, byte(len(b)), 4} {
				b[k] = v
				if run(fail, c, d, b) {
					ok++
				}
				n++
			}
			b[k] = old
		}
		for range n {
			c.Class(d.name)
		}
		for range ok {
			c.Class(d.name + " accepted")
		}
		c.NonTrivial([]byte(fmt.Sprint(d.name, part, n)))
	})
}

var _ = sfnt.Read
