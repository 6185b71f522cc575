// Package c09 checks the character map encodings.
package c09

import (
	"bytes"
	"fmt"
	"reflect"
	"sort"
	"testing"

	xsfnt "golang.org/x/image/font/sfnt"
	"pgregory.net/rapid"

	"seehuhn.de/go/sfnt"
	"seehuhn.de/go/sfnt/cmap"
	"seehuhn.de/go/sfnt/glyph"

	"seehuhn.de/go/sfnt/verif/gen"
	"seehuhn.de/go/sfnt/verif/pbt"
	"seehuhn.de/go/sfnt/verif/ref"
)

func TestMain(m *testing.M) { pbt.Main(m) }

func keyOf(m map[uint32]glyph.ID) []byte {
	keys := make([]uint32, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool { return keys[i] < keys[j] })
	var b []byte
	for _, k := range keys {
		b = append(b, byte(k), byte(k>>8), byte(k>>16), byte(m[k]), byte(m[k]>>8))
	}
	return b
}

func queryCodes(m map[uint32]glyph.ID) []uint32 {
	var q []uint32
	for k := range m {
		for d := uint32(0); d < 5; d++ {
			q = append(q, k+d-2)
		}
		q = append(q, k+0x10000, k&0xFFFF, k|0x10000)
	}
	q = append(q, 0, 1, 65, 255, 256, 0xFFFD, 0xFFFE, 0xFFFF, 0x10000, 0x10001, 0x10041, 0x1F600, 0x10FFFF)
	out := q[:0]
	for _, c := range q {
		if c <= 0x10FFFF {
			out = append(out, c)
		}
	}
	return out
}

func checkSubtable(t *rapid.T, m map[uint32]glyph.ID, data []byte, platform, encoding uint16, full bool) cmap.Subtable {
	if err := ref.CmapCheck(data); err != nil {
		t.Fatalf("malformed subtable: %v", err)
	}
	tab := cmap.Table{{PlatformID: platform, EncodingID: encoding}: data}
	raw := tab.Encode()
	tab2, err := cmap.Decode(raw)
	if err != nil {
		t.Fatalf("cmap.Decode: %v", err)
	}
	if len(tab2) != 1 || !bytes.Equal(tab2[cmap.Key{PlatformID: platform, EncodingID: encoding}], data) {
		t.Fatalf("table round trip failed")
	}
	sub, err := tab2.Get(cmap.Key{PlatformID: platform, EncodingID: encoding})
	if err != nil {
		t.Fatalf("Get: %v", err)
	}
	if full {
		exp, err := ref.CmapExpand(data)
		if err != nil {
			t.Fatalf("reference decoder: %v", err)
		}
		for c := rune(0); c <= 0x10FFFF; c++ {
			if got := sub.Lookup(c); uint32(got) != exp[uint32(c)] {
				t.Fatalf("code 0x%x: library decoder finds %d, reference %d", c, got, exp[uint32(c)])
			}
		}
		for c, g := range exp {
			if g != uint32(m[c]) {
				t.Fatalf("code 0x%x: reference decoder finds %d, want %d", c, g, m[c])
			}
		}
	}
	for _, c := range queryCodes(m) {
		want := m[c]
		g, err := ref.CmapLookup(data, c)
		if err != nil {
			t.Fatalf("reference decoder: %v", err)
		}
		if g != uint32(want) {
			t.Fatalf("code 0x%x: reference decoder finds %d, want %d", c, g, want)
		}
		if got := sub.Lookup(rune(c)); got != want {
			t.Fatalf("code 0x%x: library decoder finds %d, want %d", c, got, want)
		}
	}
	return sub
}

func checkCodeRange(t *rapid.T, m map[uint32]glyph.ID, sub cmap.Subtable) {
	low, high := sub.CodeRange()
	for k, g := range m {
		if g != 0 && (rune(k) < low || rune(k) > high) {
			t.Fatalf("code 0x%x outside CodeRange() = [0x%x,0x%x]", k, low, high)
		}
	}
}

func checkX(t *rapid.T, m map[uint32]glyph.ID, raw []byte, n int) {
	tabs := ref.MinimalTables(n)
	tabs["cmap"] = raw
	f, err := xsfnt.Parse(ref.BuildContainer(0x00010000, tabs))
	if err != nil {
		t.Fatalf("x/image rejects the cmap table: %v", err)
	}
	for k, g := range m {
		got, err := f.GlyphIndex(nil, rune(k))
		if err != nil {
			t.Fatalf("x/image: %v", err)
		}
		if int(got) != int(g) {
			t.Fatalf("x/image maps 0x%x to %d, want %d", k, got, g)
		}
		if _, ok := m[k+1]; !ok && k < 0x10FFFF {
			got, err := f.GlyphIndex(nil, rune(k+1))
			if err != nil || got != 0 {
				t.Fatalf("x/image maps unmapped 0x%x to %d (%v)", k+1, got, err)
			}
		}
	}
}

func TestFormat4(t *testing.T) {
	pbt.Check(t, 14000, 500000, func(t *rapid.T, c *pbt.Case) {
		big := rapid.IntRange(0, 30).Draw(t, "big") == 0
		runs, rl := 8, 40
		if big {
			runs, rl = 40, 150
		}
		m := gen.DrawMapping(t, 0xFFFF, runs, rl)
		f4 := cmap.Format4{}
		for k, g := range m {
			f4[uint16(k)] = g
		}
		lang := rapid.Uint16().Draw(t, "lang")
		data := f4.Encode(lang)
		if !bytes.Equal(data, f4.Encode(lang)) {
			t.Fatalf("Encode is not deterministic")
		}
		if ref.U16(data, 4) != int(lang) {
			t.Fatalf("language %d, want %d", ref.U16(data, 4), lang)
		}
		full := rapid.IntRange(0, 150).Draw(t, "full") == 0
		sub := checkSubtable(t, m, data, 3, 1, full)
		checkCodeRange(t, m, f4)
		checkCodeRange(t, m, sub)
		for _, k := range []uint32{0x10000, 0x10041, 0x1FFFF, 0x10FFFF} {
			if g := f4.Lookup(rune(k)); g != 0 {
				t.Fatalf("format 4 subtable maps 0x%x to %d", k, g)
			}
		}
		if rapid.IntRange(0, 3).Draw(t, "x") == 0 {
			checkX(t, m, cmap.Table{{PlatformID: 3, EncodingID: 1}: data}.Encode(), 10)
			c.Class("x/image")
		}
		nseg := ref.U16(data, 6) / 2
		hasVals := len(data) > 16+8*nseg
		c.ClassIf(hasVals, "glyphIdArray used")
		c.ClassIf(nseg > 4, "more than 4 segments")
		_, ffff := m[0xFFFF]
		c.ClassIf(ffff, "0xFFFF mapped")
		c.ClassIf(full, "all code points queried")
		if nseg > 2 {
			c.NonTrivial(keyOf(m))
		}
		c.Sample(func() string { return fmt.Sprintf("%d codes, %d segments: %v", len(m), nseg, m) })
	})
}

// TestFormat4Large approaches the 64 KiB limit of the format.
func TestFormat4Large(t *testing.T) {
	pbt.Check(t, 16, 320, func(t *rapid.T, c *pbt.Case) {
		m := map[uint32]glyph.ID{}
		// isolated segments of one code each: 8 bytes per segment
		n := rapid.IntRange(3000, 8100).Draw(t, "n")
		step := rapid.Uint32Range(6, 8).Draw(t, "step")
		seed := rapid.Uint32().Draw(t, "seed")
		valueEvery := rapid.IntRange(4, 40).Draw(t, "valueEvery")
		size := 24
		pos := uint32(0)
		for i := 0; i < n && size < 65000 && pos < 0xFF00; i++ {
			if i%valueEvery == 0 {
				for j := uint32(0); j < 3; j++ {
					m[pos] = glyph.ID(gen.Mix(seed, pos)%60000 + 1)
					pos++
				}
				size += 14
			} else {
				m[pos] = glyph.ID(gen.Mix(seed, pos)%60000 + 1)
				size += 8
			}
			pos += step
		}
		f4 := cmap.Format4{}
		for k, g := range m {
			f4[uint16(k)] = g
		}
		data := f4.Encode(0)
		checkSubtable(t, m, data, 3, 1, false)
		c.ClassIf(len(data) > 60000, "more than 60000 bytes")
		c.ClassIf(len(data) > 30000, "more than 30000 bytes")
		c.NonTrivial(keyOf(m))
	})
}

// TestFormat4Full covers the (nearly) completely mapped BMP, using few
// segments.
func TestFormat4Full(t *testing.T) {
	pbt.Check(t, 48, 1600, func(t *rapid.T, c *pbt.Case) {
		cuts := rapid.SliceOfN(rapid.Uint32Range(0, 0xFFFF), 0, 6).Draw(t, "cuts")
		gid := uint16(rapid.SampledFrom([]uint32{0, 1, 2, 0x8000, 0xFFFF}).Draw(t, "first"))
		first := rapid.SampledFrom([]uint32{0, 0, 0, 1, 0x20}).Draw(t, "firstCode")
		last := rapid.SampledFrom([]uint32{0xFFFF, 0xFFFF, 0xFFFE, 0xFFFD}).Draw(t, "lastCode")
		m := map[uint32]glyph.ID{}
		for code := first; code <= last; code++ {
			for i, x := range cuts {
				if x == code {
					gid += uint16(0x1234 * (i + 1))
				}
			}
			m[code] = glyph.ID(gid)
			gid++
		}
		f4 := cmap.Format4{}
		for k, g := range m {
			f4[uint16(k)] = g
		}
		data := f4.Encode(0)
		sub := checkSubtable(t, m, data, 3, 1, true)
		checkCodeRange(t, m, sub)
		c.ClassIf(len(m) == 65536, "complete BMP")
		c.NonTrivial(data)
	})
}

func TestFormat12(t *testing.T) {
	pbt.Check(t, 10000, 400000, func(t *rapid.T, c *pbt.Case) {
		maxCode := rapid.SampledFrom([]uint32{0x10FFFF, 0x10FFFF, 0x1FFFF, 0xFFFF}).Draw(t, "maxCode")
		m := gen.DrawMapping(t, maxCode, 8, 40)
		if rapid.IntRange(0, 100).Draw(t, "big") == 0 {
			base := rapid.Uint32Range(0, 0x100000).Draw(t, "base")
			n := rapid.Uint32Range(1000, 65000).Draw(t, "n")
			if rapid.IntRange(0, 3).Draw(t, "max") == 0 {
				n = 0x10000 // mappings with exactly 65536 entries
			}
			seed := rapid.Uint32().Draw(t, "seed")
			brk := rapid.Uint32Range(2, 5000).Draw(t, "break")
			g := uint32(1)
			for i := uint32(0); i < n && len(m) < 65536; i++ {
				if gen.Mix(seed, i)%brk == 0 {
					g = gen.Mix(seed, i) >> 16
				}
				g++
				m[base+i] = glyph.ID(g)
			}
		}
		f12 := cmap.Format12{}
		for k, g := range m {
			f12[k] = g
		}
		lang := rapid.Uint16().Draw(t, "lang")
		data := f12.Encode(lang)
		if ref.U32(data, 8) != uint32(lang) {
			t.Fatalf("language %d, want %d", ref.U32(data, 8), lang)
		}
		full := rapid.IntRange(0, 150).Draw(t, "full") == 0
		sub := checkSubtable(t, m, data, 3, 10, full)
		checkCodeRange(t, m, f12)
		checkCodeRange(t, m, sub)
		// x/image supports at most 20000 segments
		if ref.U32(data, 12) < 20000 && rapid.IntRange(0, 3).Draw(t, "x") == 0 {
			checkX(t, m, cmap.Table{{PlatformID: 3, EncodingID: 10}: data}.Encode(), 10)
			c.Class("x/image")
		}
		ng := int(ref.U32(data, 12))
		c.ClassIf(ng > 4, "more than 4 groups")
		c.ClassIf(full, "all code points queried")
		c.ClassIf(len(m) > 10000, "more than 10000 codes")
		if ng >= 2 {
			c.NonTrivial(keyOf(m))
		}
		c.Sample(func() string { return fmt.Sprintf("%d codes, %d groups", len(m), ng) })
	})
}

// drawRaw generates a well-formed subtable in one of the formats found in
// files, using encodings the library's own encoder would not produce.
func drawRaw(t *rapid.T, format int, maxCode int, lang uint16) []byte {
	switch format {
	case 0:
		d := append([]byte{0, 0, 1, 6, byte(lang >> 8), byte(lang)}, make([]byte, 256)...)
		seed := rapid.Uint32().Draw(t, "seed")
		sparse := rapid.Uint32Range(1, 6).Draw(t, "sparse")
		for i := 0; i < 256; i++ {
			if h := gen.Mix(seed, uint32(i)); h%sparse == 0 {
				d[6+i] = byte(h >> 8)
			}
		}
		return d
	case 6:
		first := rapid.IntRange(0, maxCode).Draw(t, "first")
		n := rapid.IntRange(0, min(60, maxCode+1-first)).Draw(t, "n")
		if maxCode == 0xFFFF && rapid.IntRange(0, 15).Draw(t, "past the end") == 0 {
			// some of the array is not reachable
			first = 0xFFFF - rapid.IntRange(0, 5).Draw(t, "first2")
			n = rapid.IntRange(0, 20).Draw(t, "n2")
		}
		d := []byte{0, 6, 0, 0, byte(lang >> 8), byte(lang)}
		d = append(d, ref.P16(first)...)
		d = append(d, ref.P16(n)...)
		for i := 0; i < n; i++ {
			d = append(d, ref.P16(int(rapid.OneOf(rapid.Uint16(), rapid.Just(uint16(0))).Draw(t, "gid")))...)
		}
		if rapid.IntRange(0, 3).Draw(t, "excess") == 0 {
			d = append(d, 0, 0)
		}
		copy(d[2:], ref.P16(len(d)))
		return d
	case 4:
		type seg struct{ s, e, delta, valIdx int }
		var segs []seg
		na := rapid.IntRange(0, 60).Draw(t, "arrayLen")
		arr := make([]int, na)
		for i := range arr {
			arr[i] = int(rapid.OneOf(rapid.Uint16(), rapid.Uint16Range(0, 3)).Draw(t, "val"))
		}
		pos := rapid.IntRange(0, maxCode).Draw(t, "pos")
		k := rapid.IntRange(0, 12).Draw(t, "segs")
		last := false
		for i := 0; i < k && pos <= maxCode; i++ {
			l := rapid.IntRange(1, 20).Draw(t, "len")
			e := min(pos+l-1, maxCode)
			s := seg{pos, e, int(rapid.OneOf(rapid.Uint16(), rapid.Just(uint16(0))).Draw(t, "delta")), -1}
			if rapid.Bool().Draw(t, "useArray") && na >= e-pos+1 {
				s.valIdx = rapid.IntRange(0, na-(e-pos+1)).Draw(t, "idx")
			}
			segs = append(segs, s)
			last = e == 0xFFFF
			pos = e + 1 + rapid.OneOf(rapid.IntRange(0, 10), rapid.IntRange(0, 5000)).Draw(t, "gap")
		}
		if !last {
			switch rapid.IntRange(0, 2).Draw(t, "lastSeg") {
			case 0, 1:
				segs = append(segs, seg{0xFFFF, 0xFFFF, 1, -1})
			case 2:
				if na > 0 && rapid.Bool().Draw(t, "lastVal") && maxCode == 0xFFFF {
					segs = append(segs, seg{0xFFFF, 0xFFFF, int(rapid.Uint16().Draw(t, "delta")), rapid.IntRange(0, na-1).Draw(t, "idx")})
				} else {
					segs = append(segs, seg{0xFFFF, 0xFFFF, 1, -1})
				}
			}
		}
		n := len(segs)
		es := 0
		for 1<<(es+1) <= n {
			es++
		}
		d := []byte{0, 4, 0, 0, byte(lang >> 8), byte(lang)}
		for _, v := range []int{2 * n, 2 << es, es, 2*n - 2<<es} {
			d = append(d, ref.P16(v)...)
		}
		for _, s := range segs {
			d = append(d, ref.P16(s.e)...)
		}
		d = append(d, 0, 0)
		for _, s := range segs {
			d = append(d, ref.P16(s.s)...)
		}
		for _, s := range segs {
			d = append(d, ref.P16(s.delta)...)
		}
		for i, s := range segs {
			if s.valIdx < 0 {
				d = append(d, 0, 0)
			} else {
				d = append(d, ref.P16(2*(n-i+s.valIdx))...)
			}
		}
		for _, v := range arr {
			d = append(d, ref.P16(v)...)
		}
		copy(d[2:], ref.P16(len(d)))
		return d
	case 12:
		k := rapid.IntRange(0, 8).Draw(t, "groups")
		pos := rapid.Uint32Range(0, 0x10FFFF).Draw(t, "pos")
		var body []byte
		n := 0
		for i := 0; i < k && pos <= 0x10FFFF; i++ {
			e := min(pos+rapid.OneOf(rapid.Uint32Range(0, 5), rapid.Uint32Range(0, 1000)).Draw(t, "len"), 0x10FFFF)
			g := rapid.Uint32Range(0, 65535-(e-pos)).Draw(t, "gid")
			body = append(body, ref.P32(pos)...)
			body = append(body, ref.P32(e)...)
			body = append(body, ref.P32(g)...)
			n++
			pos = e + 1 + rapid.OneOf(rapid.Uint32Range(0, 3), rapid.Uint32Range(0, 100000)).Draw(t, "gap")
		}
		d := []byte{0, 12, 0, 0}
		d = append(d, ref.P32(uint32(16+12*n))...)
		d = append(d, 0, 0, byte(lang>>8), byte(lang))
		d = append(d, ref.P32(uint32(n))...)
		return append(d, body...)
	}
	panic("unreachable")
}

// specLookup is the meaning of a subtable for Unicode code points.
func specLookup(d []byte, platform, encoding uint16, r rune) (uint32, error) {
	if platform == 1 && encoding == 0 {
		for b := 0; b < 256; b++ {
			if ref.MacRune(byte(b)) == r {
				return ref.CmapLookup(d, uint32(b))
			}
		}
		return 0, nil
	}
	return ref.CmapLookup(d, uint32(r))
}

func rawQueries(d []byte) []uint32 {
	var q []uint32
	add := func(c uint32) {
		for _, k := range []uint32{c - 1, c, c + 1} {
			if k <= 0x10FFFF {
				q = append(q, k)
			}
		}
	}
	switch ref.U16(d, 0) {
	case 0:
		for c := uint32(0); c < 256; c++ {
			q = append(q, c)
		}
	case 4:
		n := ref.U16(d, 6) / 2
		for i := 0; i < n; i++ {
			s, e := ref.U16(d, 16+2*n+2*i), ref.U16(d, 14+2*i)
			add(uint32(s))
			add(uint32(e))
			for k := s; k <= e && k < s+30; k++ {
				q = append(q, uint32(k))
			}
		}
	case 6:
		for i := 0; i < ref.U16(d, 8); i++ {
			add(uint32(ref.U16(d, 6) + i))
		}
	case 12:
		n := int(ref.U32(d, 12))
		for i := 0; i < n; i++ {
			s, e := ref.U32(d, 16+12*i), ref.U32(d, 20+12*i)
			add(s)
			add(e)
			add((s + e) / 2)
		}
	}
	for b := 0; b < 256; b++ {
		q = append(q, uint32(ref.MacRune(byte(b))))
	}
	q = append(q, 0, 0xFFFE, 0xFFFF, 0x10000, 0x10041, 0x10FFFF)
	return q
}

// TestLegacyDecode checks decoding of the formats found in files.
func TestLegacyDecode(t *testing.T) {
	pbt.Check(t, 16000, 400000, func(t *rapid.T, c *pbt.Case) {
		format := rapid.SampledFrom([]int{0, 4, 4, 6, 12}).Draw(t, "format")
		keys := [][2]uint16{{3, 1}, {0, 3}, {3, 10}, {0, 4}, {3, 0}, {0, 0}}
		maxCode := 0xFFFF
		if format != 12 {
			keys = append(keys, [2]uint16{1, 0}, [2]uint16{1, 0})
		}
		pe := rapid.SampledFrom(keys).Draw(t, "key")
		lang := uint16(0)
		if pe[0] == 1 {
			if rapid.IntRange(0, 3).Draw(t, "wideMac") > 0 {
				maxCode = 255
			}
			lang = rapid.SampledFrom([]uint16{0, 0, 1, 20}).Draw(t, "lang")
		}
		d := drawRaw(t, format, maxCode, lang)
		recs := append([]byte{0, 0, 0, 1}, ref.P16(int(pe[0]))...)
		recs = append(recs, ref.P16(int(pe[1]))...)
		recs = append(recs, ref.P32(12)...)
		tab, err := cmap.Decode(append(recs, d...))
		if err != nil {
			t.Fatalf("cmap.Decode rejects a well-formed table (format %d): %v", format, err)
		}
		key := cmap.Key{PlatformID: pe[0], EncodingID: pe[1], Language: lang}
		sub, err := tab.Get(key)
		if err != nil {
			t.Fatalf("Get(%v) (format %d): %v", key, format, err)
		}
		n := 0
		for _, code := range rawQueries(d) {
			want, err := specLookup(d, pe[0], pe[1], rune(code))
			if err != nil {
				t.Fatalf("HARNESS-ERROR: %v", err)
			}
			if got := sub.Lookup(rune(code)); uint32(got) != want {
				t.Fatalf("format %d, key %v: U+%04X maps to %d, want %d\n% x", format, key, code, got, want, d)
			}
			if want != 0 {
				n++
			}
		}
		decoded := map[uint32]glyph.ID{}
		for code := uint32(0); code <= 0x10FFFF; code++ {
			if code == 0x10000 && format != 12 {
				break
			}
			if g := sub.Lookup(rune(code)); g != 0 {
				decoded[code] = g
			}
		}
		checkReencode(t, decoded, sub)
		// raw lookup without interpretation of the platform encoding
		if rawSub, err := tab.GetNoLang(pe[0], pe[1]); err != nil {
			t.Fatalf("GetNoLang: %v", err)
		} else {
			for _, code := range rawQueries(d) {
				want, _ := ref.CmapLookup(d, code)
				if got := rawSub.Lookup(rune(code)); uint32(got) != want {
					t.Fatalf("format %d, GetNoLang %v: code 0x%x maps to %d, want %d", format, pe, code, got, want)
				}
			}
			if format != 12 {
				raw := map[uint32]glyph.ID{}
				for code := uint32(0); code <= 0xFFFF; code++ {
					if g, _ := ref.CmapLookup(d, code); g != 0 {
						raw[code] = glyph.ID(g)
					}
				}
				checkReencode(t, raw, rawSub)
			}
		}
		c.Class(fmt.Sprintf("format %d", format))
		c.ClassIf(pe[0] == 1, "Mac Roman")
		if n > 0 {
			c.NonTrivial(d)
		}
	})
}

// checkReencode checks that a decoded subtable, which represents the mapping m,
// reports the correct range of codes and can be written again.
func checkReencode(t *rapid.T, m map[uint32]glyph.ID, sub cmap.Subtable) {
	low, high := sub.CodeRange()
	wantLow, wantHigh := rune(-1), rune(-1)
	for k := range m {
		if wantLow < 0 || rune(k) < wantLow {
			wantLow = rune(k)
		}
		wantHigh = max(wantHigh, rune(k))
	}
	if len(m) > 0 && (low != wantLow || high != wantHigh) {
		t.Fatalf("%T: CodeRange() = [0x%x,0x%x], want [0x%x,0x%x]", sub, low, high, wantLow, wantHigh)
	}
	if len(m) > 600 {
		return
	}
	lang := rapid.OneOf(rapid.Just(uint16(0)), rapid.Uint16()).Draw(t, "newLang")
	e := sub.Encode(lang)
	if err := ref.CmapCheck(e); err != nil {
		t.Fatalf("%T: re-encoded subtable is malformed: %v", sub, err)
	}
	var gotLang int
	if ref.U16(e, 0) >= 8 {
		gotLang = int(ref.U32(e, 8))
	} else {
		gotLang = ref.U16(e, 4)
	}
	if gotLang != int(lang) {
		t.Fatalf("%T: language %d is encoded as %d", sub, lang, gotLang)
	}
	got, err := ref.CmapExpand(e)
	if err != nil {
		t.Fatalf("%T: re-encoded subtable: %v", sub, err)
	}
	for k, g := range got {
		if g != 0 && m[k] != glyph.ID(g) {
			t.Fatalf("%T: re-encoded subtable maps 0x%x to %d, want %d", sub, k, g, m[k])
		}
	}
	for k, g := range m {
		if got[k] != uint32(g) {
			t.Fatalf("%T: re-encoded subtable maps 0x%x to %d, want %d", sub, k, got[k], g)
		}
	}
}

// TestTable checks the cmap table directory and subtable selection.
func TestTable(t *testing.T) {
	pbt.Check(t, 16000, 400000, func(t *rapid.T, c *pbt.Case) {
		n := rapid.IntRange(0, 8).Draw(t, "n")
		var pool [][]byte
		tab := cmap.Table{}
		for i := 0; i < n; i++ {
			pe := rapid.OneOf(
				rapid.SampledFrom([][2]uint16{{3, 10}, {0, 4}, {3, 1}, {0, 3}, {1, 0}}),
				rapid.Custom(func(t *rapid.T) [2]uint16 {
					return [2]uint16{rapid.Uint16Range(0, 4).Draw(t, "p"), rapid.Uint16Range(0, 12).Draw(t, "e")}
				}),
			).Draw(t, "key")
			lang := uint16(0)
			if pe[0] == 1 {
				lang = rapid.OneOf(rapid.Just(uint16(0)), rapid.Uint16()).Draw(t, "lang")
			}
			var d []byte
			if len(pool) > 0 && rapid.IntRange(0, 2).Draw(t, "share") == 0 {
				d = append([]byte{}, rapid.SampledFrom(pool).Draw(t, "shared")...)
				switch ref.U16(d, 0) {
				case 14:
					lang = 0
				case 10, 12, 13:
					lang = uint16(ref.U32(d, 8))
				default:
					lang = uint16(ref.U16(d, 4))
				}
			} else if rapid.IntRange(0, 9).Draw(t, "unsupported") == 0 {
				// formats the library cannot decode, but must preserve
				switch rapid.IntRange(0, 2).Draw(t, "uf") {
				case 0:
					d = []byte{0, 14, 0, 0, 0, 22, 0, 0, 0, 1, 0, 0xFE, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}
					if pe[0] == 1 {
						lang = 0
					}
				case 1:
					d = []byte{0, 13, 0, 0, 0, 0, 0, 28, 0, 0, byte(lang >> 8), byte(lang), 0, 0, 0, 1, 0, 0, 0, 65, 0, 0, 0, 70, 0, 0, 0, 3}
				case 2:
					d = []byte{0, 10, 0, 0, 0, 0, 0, 24, 0, 0, byte(lang >> 8), byte(lang), 0, 0, 0, 65, 0, 0, 0, 2, 0, 5, 0, 6}
				}
			} else if rapid.IntRange(0, 39).Draw(t, "large") == 0 {
				// moves the following subtables beyond offset 65535
				m := cmap.Format12{}
				step := rapid.Uint32Range(2, 9).Draw(t, "step")
				for i := range uint32(rapid.IntRange(5000, 6000).Draw(t, "segments")) {
					m[0x20+step*i] = glyph.ID(1 + i)
				}
				d = m.Encode(lang)
				c.Class("large subtable")
			} else {
				d = drawRaw(t, rapid.SampledFrom([]int{0, 4, 6, 12}).Draw(t, "format"), 255, lang)
			}
			if pe[0] != 1 {
				lang = 0
			}
			pool = append(pool, d)
			tab[cmap.Key{PlatformID: pe[0], EncodingID: pe[1], Language: lang}] = d
		}
		raw := tab.Encode()
		if !bytes.Equal(raw, tab.Encode()) {
			t.Fatalf("Encode is not deterministic")
		}
		recs, err := ref.ParseCmap(raw)
		if err != nil {
			t.Fatalf("reference parser: %v", err)
		}
		if len(recs) != len(tab) {
			t.Fatalf("%d records for %d subtables", len(recs), len(tab))
		}
		shared := false
		offs := map[uint32]bool{}
		for i, r := range recs {
			if i > 0 {
				p := recs[i-1]
				if r.Platform < p.Platform || r.Platform == p.Platform && r.Encoding < p.Encoding ||
					r.Platform == p.Platform && r.Encoding == p.Encoding && r.Language <= p.Language {
					t.Fatalf("encoding records not sorted: %v after %v", r, p)
				}
			}
			lang := uint16(0)
			if r.Platform == 1 && r.Format != 14 {
				lang = uint16(r.Language)
			}
			d, ok := tab[cmap.Key{PlatformID: uint16(r.Platform), EncodingID: uint16(r.Encoding), Language: lang}]
			if !ok || !bytes.Equal(d, r.Data) {
				t.Fatalf("record (%d,%d,%d) wrong or unexpected", r.Platform, r.Encoding, lang)
			}
			shared = shared || offs[r.Offset]
			offs[r.Offset] = true
		}
		tab2, err := cmap.Decode(raw)
		if err != nil {
			t.Fatalf("cmap.Decode: %v", err)
		}
		if !reflect.DeepEqual(tab, tab2) {
			t.Fatalf("table round trip failed for %d subtables, %d bytes", len(tab), len(raw))
		}

		// subtable selection
		best, bestErr := tab2.GetBest()
		classes := [][][2]uint16{{{3, 10}, {0, 4}}, {{3, 1}, {0, 3}}, {{1, 0}}}
		var cands []cmap.Subtable
		for _, cl := range classes {
			for _, pe := range cl {
				if s, err := tab2.Get(cmap.Key{PlatformID: pe[0], EncodingID: pe[1]}); err == nil {
					cands = append(cands, s)
				}
			}
			if len(cands) > 0 {
				break
			}
		}
		if (bestErr == nil) != (len(cands) > 0) {
			t.Fatalf("GetBest: error %v, but %d suitable subtables", bestErr, len(cands))
		}
		if bestErr == nil {
			ok := false
			for _, s := range cands {
				ok = ok || reflect.DeepEqual(s, best)
			}
			if !ok {
				t.Fatalf("GetBest did not select from the best class of subtables")
			}
		}
		c.ClassIf(shared, "shared subtables")
		c.ClassIf(bestErr == nil && len(tab) > 1, "selection among several")
		if len(tab) >= 2 {
			c.NonTrivial(raw)
		}
	})
}

// TestInstallCMap checks the subtable installation in a font.
func TestInstallCMap(t *testing.T) {
	pbt.Check(t, 4000, 100000, func(t *rapid.T, c *pbt.Case) {
		maxCode := rapid.SampledFrom([]uint32{0x10FFFF, 0xFFFF, 0x10000, 0xFFFF}).Draw(t, "maxCode")
		m := gen.DrawMapping(t, maxCode, 4, 10)
		var s cmap.Subtable
		isBMP := true
		for k := range m {
			isBMP = isBMP && k <= 0xFFFF
		}
		if isBMP && rapid.Bool().Draw(t, "f4") {
			f := cmap.Format4{}
			for k, g := range m {
				f[uint16(k)] = g
			}
			s = f
		} else {
			f := cmap.Format12{}
			for k, g := range m {
				f[k] = g
			}
			s = f
		}
		f := &sfnt.Font{}
		f.InstallCMap(s)
		tab, err := cmap.Decode(f.CMapTable.Encode())
		if err != nil {
			t.Fatalf("Decode: %v", err)
		}
		best, err := tab.GetBest()
		if err != nil {
			t.Fatalf("GetBest: %v", err)
		}
		for _, code := range queryCodes(m) {
			if got := best.Lookup(rune(code)); got != m[code] {
				t.Fatalf("code 0x%x: got %d, want %d", code, got, m[code])
			}
		}
		for k := range tab {
			full := k.PlatformID == 3 && k.EncodingID == 10 || k.PlatformID == 0 && k.EncodingID == 4
			if !isBMP && !full {
				t.Fatalf("supplementary characters installed with key %v", k)
			}
		}
		checkX(t, m, f.CMapTable.Encode(), 10)
		if len(m) > 1 {
			c.NonTrivial(keyOf(m))
		}
	})
}
