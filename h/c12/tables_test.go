// Package c12 checks metrics and header tables.
package c12

import (
	"bytes"
	"fmt"
	"math"
	"reflect"
	"testing"
	"time"

	"pgregory.net/rapid"

	"seehuhn.de/go/postscript/funit"
	"seehuhn.de/go/sfnt/head"
	"seehuhn.de/go/sfnt/hmtx"
	"seehuhn.de/go/sfnt/maxp"
	"seehuhn.de/go/sfnt/os2"
	"seehuhn.de/go/sfnt/post"

	"seehuhn.de/go/sfnt/verif/pbt"
	"seehuhn.de/go/sfnt/verif/ref"
)

func TestMain(m *testing.M) { pbt.Main(m) }

func mix(a, b uint32) uint32 {
	h := a*2654435761 ^ b*0x85ebca6b
	h ^= h >> 15
	h *= 0x2c1b3c6d
	h ^= h >> 12
	return h
}

var i16gen = rapid.OneOf(
	rapid.Int16(), rapid.Int16Range(-2000, 2000), rapid.Int16Range(-2, 2),
	rapid.SampledFrom([]int16{-32768, 32767, -1, 0, 1, 255, 256, -256, 1000}))

func f16(t *rapid.T, label string) funit.Int16 { return funit.Int16(i16gen.Draw(t, label)) }

func u16(t *rapid.T, label string) uint16 {
	return rapid.OneOf(rapid.Uint16(), rapid.Uint16Range(0, 10), rapid.SampledFrom([]uint16{0xFFFF, 0x8000, 0x7FFF, 255, 256})).Draw(t, label)
}

func gcd(a, b int) int {
	for b != 0 {
		a, b = b, a%b
	}
	if a < 0 {
		return -a
	}
	return a
}

// drawWidths generates advance widths with constant tails of all kinds.
func drawWidths(t *rapid.T, n int) []funit.Int16 {
	w := make([]funit.Int16, n)
	seed := rapid.Uint32().Draw(t, "seed")
	distinct := rapid.Uint32Range(1, 5).Draw(t, "distinct")
	wild := rapid.IntRange(0, 4).Draw(t, "wild") == 0
	for i := range w {
		if wild {
			w[i] = funit.Int16(mix(seed, uint32(i)) % 32768)
		} else {
			w[i] = funit.Int16(mix(seed, mix(7, uint32(i))%distinct) % 2000)
		}
	}
	tail := rapid.OneOf(rapid.IntRange(0, 4), rapid.IntRange(0, n)).Draw(t, "tail")
	for i := max(0, n-tail); i < n; i++ {
		w[i] = w[n-1]
	}
	if n > 1 && tail < n && rapid.IntRange(0, 3).Draw(t, "nearTail") == 0 {
		// the tail value shows up before the tail, or differs by one
		i := max(0, n-tail-1)
		w[i] = w[n-1] + funit.Int16(rapid.IntRange(0, 1).Draw(t, "diff"))
	}
	return w
}

func TestHmtx(t *testing.T) {
	pbt.Check(t, 40000, 1000000, func(t *rapid.T, c *pbt.Case) {
		n := rapid.OneOf(rapid.IntRange(1, 6), rapid.IntRange(1, 40), rapid.IntRange(1, 300)).Draw(t, "n")
		if rapid.IntRange(0, 1500).Draw(t, "huge") == 7 {
			n = rapid.SampledFrom([]int{65535, 65534, 32768, 32767, 1000}).Draw(t, "hugeN")
		}
		widths := drawWidths(t, n)
		seed := rapid.Uint32().Draw(t, "extSeed")
		emptyMode := rapid.IntRange(0, 4).Draw(t, "emptyMode")
		useLSB := rapid.Bool().Draw(t, "explicitLSB")
		sameLSB := rapid.Bool().Draw(t, "sameLSB")
		negOnly := rapid.Bool().Draw(t, "negativeOnly")
		ext := make([]funit.Rect16, n)
		lsb := make([]funit.Int16, n)
		for i := range ext {
			h := mix(seed, uint32(i))
			if emptyMode == 0 || emptyMode < 4 && h%4 < uint32(emptyMode) {
				if !sameLSB && useLSB {
					lsb[i] = funit.Int16(h>>3%200) - 100
				}
				continue
			}
			x0 := int(h>>4%2000) - 1000
			if negOnly {
				x0 -= 3000
			}
			wd := int(h >> 13 % 1500)
			ext[i] = funit.Rect16{LLx: funit.Int16(x0), LLy: funit.Int16(int(h>>8%700) - 300),
				URx: funit.Int16(x0 + wd), URy: funit.Int16(int(h>>8%700) - 300 + int(h>>2%900) + 1)}
			lsb[i] = funit.Int16(x0)
			if !sameLSB && useLSB {
				lsb[i] += funit.Int16(h>>5%400) - 200
			}
		}
		info := &hmtx.Info{
			Widths: widths, GlyphExtents: ext,
			Ascent: f16(t, "ascent"), Descent: f16(t, "descent"), LineGap: f16(t, "lineGap"),
			CaretOffset: f16(t, "caretOffset"),
		}
		if useLSB {
			info.LSB = lsb
		}
		rise, run := 1, 0
		mode := rapid.IntRange(0, 3).Draw(t, "caretMode")
		exactCaret := true
		switch mode {
		case 0:
		case 1:
			rise = int(i16gen.Draw(t, "rise"))
			run = int(i16gen.Draw(t, "run"))
			if rise == -32768 {
				rise++
			}
			if run == -32768 {
				run++
			}
			if rise == 0 && run == 0 {
				rise = 1
			}
		case 2:
			rise = rapid.IntRange(1, 2048).Draw(t, "rise")
			run = rapid.IntRange(-700, 700).Draw(t, "run")
		case 3:
			exactCaret = false
		}
		if exactCaret {
			info.CaretAngle = math.Atan2(float64(rise), float64(run)) - math.Pi/2
		} else {
			info.CaretAngle = rapid.Float64Range(-math.Pi/2, math.Pi/2).Draw(t, "angle")
		}

		hheaData, hmtxData := info.Encode()
		if len(hheaData) != 36 {
			t.Fatalf("hhea has %d bytes", len(hheaData))
		}
		// independent view of hhea
		if ref.U32(hheaData, 0) != 0x00010000 {
			t.Fatalf("hhea version")
		}
		maxW, first := 0, true
		var minL, minR, maxE int
		for i := range widths {
			maxW = max(maxW, int(widths[i]))
			if ext[i].IsZero() {
				continue
			}
			l := int(lsb[i])
			e := l + int(ext[i].URx) - int(ext[i].LLx)
			r := int(widths[i]) - e
			if first {
				minL, minR, maxE = l, r, e
			} else {
				minL, minR, maxE = min(minL, l), min(minR, r), max(maxE, e)
			}
			first = false
		}
		for _, f := range []struct {
			name string
			off  int
			want int
		}{
			{"ascent", 4, int(info.Ascent)}, {"descent", 6, int(info.Descent)}, {"lineGap", 8, int(info.LineGap)},
			{"advanceWidthMax", 10, maxW}, {"minLeftSideBearing", 12, minL}, {"minRightSideBearing", 14, minR},
			{"xMaxExtent", 16, maxE}, {"caretOffset", 22, int(info.CaretOffset)}, {"metricDataFormat", 32, 0},
		} {
			if f.want < -32768 || f.want > 32767 {
				c.Class("derived value out of range")
				continue
			}
			if got := ref.I16(hheaData, f.off); got != f.want {
				t.Fatalf("hhea.%s = %d, want %d", f.name, got, f.want)
			}
		}
		gotRise, gotRun := ref.I16(hheaData, 18), ref.I16(hheaData, 20)
		if exactCaret {
			g := gcd(rise, run)
			if gotRise != rise/g || gotRun != run/g {
				t.Fatalf("caret slope %d/%d encoded as %d/%d", rise, run, gotRise, gotRun)
			}
		}
		// independent view of hmtx
		nLong := ref.U16(hheaData, 34)
		if nLong < 1 || nLong > n || len(hmtxData) != 4*nLong+2*(n-nLong) {
			t.Fatalf("numberOfHMetrics = %d for %d glyphs, hmtx has %d bytes", nLong, n, len(hmtxData))
		}
		for i := range widths {
			var w, l int
			if i < nLong {
				w, l = ref.I16(hmtxData, 4*i), ref.I16(hmtxData, 4*i+2)
			} else {
				w, l = ref.I16(hmtxData, 4*(nLong-1)), ref.I16(hmtxData, 4*nLong+2*(i-nLong))
			}
			if w != int(widths[i]) || l != int(lsb[i]) {
				t.Fatalf("glyph %d: hmtx has width %d lsb %d, want %d and %d", i, w, l, widths[i], lsb[i])
			}
		}

		dec, err := hmtx.Decode(hheaData, hmtxData)
		if err != nil {
			t.Fatalf("Decode: %v", err)
		}
		if !reflect.DeepEqual(dec.Widths, widths) || !reflect.DeepEqual(dec.LSB, lsb) {
			t.Fatalf("widths or left side bearings changed")
		}
		if dec.Ascent != info.Ascent || dec.Descent != info.Descent || dec.LineGap != info.LineGap || dec.CaretOffset != info.CaretOffset {
			t.Fatalf("hhea round trip: %v vs %v", info, dec)
		}
		tol := 3.1e-5
		if exactCaret {
			tol = 1e-9
		}
		if d := math.Abs(dec.CaretAngle - info.CaretAngle); d > tol {
			t.Fatalf("caret angle %g becomes %g", info.CaretAngle, dec.CaretAngle)
		}
		dec.GlyphExtents = ext
		h2, m2 := dec.Encode()
		if !bytes.Equal(h2, hheaData) || !bytes.Equal(m2, hmtxData) {
			t.Fatalf("second encoding differs")
		}
		c.ClassIf(nLong < n, "compressed tail")
		c.ClassIf(nLong == 1, "single long metric")
		c.ClassIf(first, "all glyphs empty")
		c.ClassIf(useLSB && !sameLSB, "lsb differs from xMin")
		c.ClassIf(!exactCaret, "arbitrary caret angle")
		if n > 1 {
			c.NonTrivial(append(append([]byte{}, hheaData...), hmtxData...))
		}
		c.Sample(func() string {
			return fmt.Sprintf("n=%d nLong=%d caret=%g maxW=%d minL=%d minR=%d maxE=%d", n, nLong, info.CaretAngle, maxW, minL, minR, maxE)
		})
	})
}

// TestHmtxDecode decodes hand-assembled tables, including redundant long
// metrics.
func TestHmtxDecode(t *testing.T) {
	pbt.Check(t, 40000, 1000000, func(t *rapid.T, c *pbt.Case) {
		n := rapid.IntRange(1, 30).Draw(t, "n")
		nLong := rapid.IntRange(1, n).Draw(t, "nLong")
		hh := []byte{0, 1, 0, 0}
		for i := 0; i < 14; i++ {
			if i >= 10 { // reserved and metricDataFormat
				hh = append(hh, 0, 0)
				continue
			}
			hh = append(hh, ref.P16(int(i16gen.Draw(t, "hhea")))...)
		}
		for len(hh) < 34 {
			hh = append(hh, 0, 0)
		}
		hh = append(hh[:32], 0, 0)
		hh = append(hh, ref.P16(nLong)...)
		var hm []byte
		var w, l []funit.Int16
		for i := 0; i < n; i++ {
			if i < nLong {
				v := rapid.OneOf(rapid.IntRange(0, 32767), rapid.IntRange(500, 502)).Draw(t, "w")
				hm = append(hm, ref.P16(v)...)
				w = append(w, funit.Int16(v))
			} else {
				w = append(w, w[nLong-1])
			}
			v := int(i16gen.Draw(t, "lsb"))
			hm = append(hm, ref.P16(v)...)
			l = append(l, funit.Int16(v))
		}
		info, err := hmtx.Decode(hh, hm)
		if err != nil {
			t.Fatalf("Decode: %v", err)
		}
		if !reflect.DeepEqual(info.Widths, w) || !reflect.DeepEqual(info.LSB, l) {
			t.Fatalf("widths %v lsb %v, want %v and %v", info.Widths, info.LSB, w, l)
		}
		if int(info.Ascent) != ref.I16(hh, 4) || int(info.Descent) != ref.I16(hh, 6) || int(info.LineGap) != ref.I16(hh, 8) ||
			int(info.CaretOffset) != ref.I16(hh, 22) {
			t.Fatalf("hhea fields: %v from % x", info, hh)
		}
		rise, run := ref.I16(hh, 18), ref.I16(hh, 20)
		if rise != 0 || run != 0 {
			want := math.Atan2(float64(rise), float64(run)) - math.Pi/2
			if d := math.Abs(info.CaretAngle - want); d > 1e-4 {
				t.Fatalf("caret %d/%d decoded as %g, want %g", rise, run, info.CaretAngle, want)
			}
		}
		h2, m2 := info.Encode()
		info2, err := hmtx.Decode(h2, m2)
		if err != nil {
			t.Fatalf("re-decode: %v", err)
		}
		info.CaretAngle, info2.CaretAngle = math.Round(info.CaretAngle*1e7), math.Round(info2.CaretAngle*1e7)
		if (rise != 0 || run != 0) && !reflect.DeepEqual(info, info2) {
			t.Fatalf("round trip: %v vs %v", info, info2)
		}
		if nLong < n {
			c.NonTrivial(append(append([]byte{}, hh...), hm...))
		}
	})
}

func drawTime(t *rapid.T, label string) time.Time {
	const epoch = -2082844800
	s := rapid.OneOf(
		rapid.Int64Range(epoch+1, epoch+10),
		rapid.Int64Range(-2, 2),
		rapid.Int64Range(1<<31-2, 1<<31+2),
		rapid.Int64Range(epoch+1<<31-2, epoch+1<<31+2),
		rapid.Int64Range(epoch+1<<32-2, epoch+1<<32+2),
		rapid.Int64Range(1e9, 2e9),
		rapid.Int64Range(epoch-1<<40, 1<<40),
	).Draw(t, label)
	if s == epoch || rapid.IntRange(0, 9).Draw(t, label+"Zero") == 0 {
		return time.Time{}
	}
	ns := rapid.SampledFrom([]int64{0, 1, 999999999, 500000000}).Draw(t, label+"ns")
	tm := time.Unix(s, ns)
	if rapid.Bool().Draw(t, label+"zone") {
		tm = tm.In(time.FixedZone("X", rapid.IntRange(-50000, 50000).Draw(t, label+"offs")))
	} else {
		tm = tm.UTC()
	}
	if tm.IsZero() {
		return time.Time{}
	}
	return tm
}

func sameTime(a, b time.Time) bool {
	if a.IsZero() || b.IsZero() {
		return a.IsZero() == b.IsZero()
	}
	return a.Unix() == b.Unix()
}

func TestHead(t *testing.T) {
	pbt.Check(t, 60000, 1500000, func(t *rapid.T, c *pbt.Case) {
		b := func(l string) bool { return rapid.Bool().Draw(t, l) }
		info := &head.Info{
			FontRevision: head.Version(rapid.OneOf(rapid.Uint32(), rapid.Uint32Range(0, 3<<16)).Draw(t, "rev")),
			HasYBaseAt0:  b("y0"), HasXBaseAt0: b("x0"), IsNonlinear: b("nonlinear"),
			UnitsPerEm: u16(t, "upem"),
			Created:    drawTime(t, "created"), Modified: drawTime(t, "modified"),
			FontBBox: funit.Rect16{LLx: f16(t, "a"), LLy: f16(t, "b"), URx: f16(t, "c"), URy: f16(t, "d")},
			IsBold:   b("bold"), IsItalic: b("italic"), HasShadow: b("shadow"), IsCondensed: b("cond"), IsExtended: b("ext"),
			LowestRecPPEM: u16(t, "ppem"), LocaFormat: int16(rapid.IntRange(0, 1).Draw(t, "loca")),
		}
		d := info.Encode()
		if len(d) != 54 {
			t.Fatalf("head has %d bytes", len(d))
		}
		dec, err := head.Read(bytes.NewReader(d))
		if err != nil {
			t.Fatalf("Read: %v", err)
		}
		if !sameTime(dec.Created, info.Created) || !sameTime(dec.Modified, info.Modified) {
			t.Fatalf("timestamps %v/%v become %v/%v", info.Created, info.Modified, dec.Created, dec.Modified)
		}
		cmp := *dec
		cmp.Created, cmp.Modified = info.Created, info.Modified
		if !reflect.DeepEqual(&cmp, info) {
			t.Fatalf("round trip: %+v became %+v", info, dec)
		}
		if !bytes.Equal(dec.Encode(), d) {
			t.Fatalf("second encoding differs")
		}
		// independent view
		flag := func(cond bool, bit int, v int, name string) {
			if (v>>bit&1 != 0) != cond {
				t.Fatalf("%s: bit %d of 0x%04x", name, bit, v)
			}
		}
		fl, ms := ref.U16(d, 16), ref.U16(d, 44)
		flag(info.HasYBaseAt0, 0, fl, "baseline at y=0")
		flag(info.HasXBaseAt0, 1, fl, "lsb at x=0")
		if (fl&(1<<2|1<<4) != 0) != info.IsNonlinear {
			t.Fatalf("nonlinear scaling: flags 0x%04x", fl)
		}
		flag(info.IsBold, 0, ms, "bold")
		flag(info.IsItalic, 1, ms, "italic")
		flag(info.HasShadow, 4, ms, "shadow")
		flag(info.IsCondensed, 5, ms, "condensed")
		flag(info.IsExtended, 6, ms, "extended")
		if ms&^0x73 != 0 {
			t.Fatalf("macStyle 0x%04x", ms)
		}
		secs := func(tm time.Time) uint64 {
			if tm.IsZero() {
				return 0
			}
			return uint64(tm.Unix() + 2082844800)
		}
		u64 := func(o int) uint64 { return uint64(ref.U32(d, o))<<32 | uint64(ref.U32(d, o+4)) }
		if ref.U32(d, 0) != 0x00010000 || ref.U32(d, 4) != uint32(info.FontRevision) || ref.U32(d, 12) != 0x5F0F3CF5 ||
			ref.U16(d, 18) != int(info.UnitsPerEm) || u64(20) != secs(info.Created) || u64(28) != secs(info.Modified) ||
			ref.I16(d, 36) != int(info.FontBBox.LLx) || ref.I16(d, 38) != int(info.FontBBox.LLy) ||
			ref.I16(d, 40) != int(info.FontBBox.URx) || ref.I16(d, 42) != int(info.FontBBox.URy) ||
			ref.U16(d, 46) != int(info.LowestRecPPEM) || ref.U16(d, 50) != int(info.LocaFormat) || ref.U16(d, 52) != 0 {
			t.Fatalf("head fields at the wrong place: %+v: % x", info, d)
		}
		c.ClassIf(info.Created.IsZero(), "no creation time")
		c.NonTrivial(d)
		c.Sample(func() string { return fmt.Sprintf("%+v", *info) })
	})
}

func TestMaxp(t *testing.T) {
	pbt.Check(t, 40000, 1000000, func(t *rapid.T, c *pbt.Case) {
		n := rapid.OneOf(rapid.IntRange(1, 65535), rapid.SampledFrom([]int{1, 255, 256, 65535, 32768})).Draw(t, "n")
		info := &maxp.Info{NumGlyphs: n}
		var want []int
		if rapid.IntRange(0, 5).Draw(t, "ttf") > 0 {
			info.TTF = &maxp.TTFInfo{}
			v := reflect.ValueOf(info.TTF).Elem()
			for i := 0; i < v.NumField(); i++ {
				x := u16(t, "field")
				v.Field(i).SetUint(uint64(x))
				want = append(want, int(x))
			}
		}
		d := info.Encode()
		dec, err := maxp.Read(bytes.NewReader(d))
		if err != nil {
			t.Fatalf("Read: %v", err)
		}
		if !reflect.DeepEqual(dec, info) {
			t.Fatalf("round trip: %+v became %+v", info, dec)
		}
		if ref.U16(d, 4) != n {
			t.Fatalf("numGlyphs")
		}
		if info.TTF == nil {
			if len(d) != 6 || ref.U32(d, 0) != 0x00005000 {
				t.Fatalf("version 0.5 table: % x", d)
			}
		} else {
			tt := info.TTF
			if len(d) != 32 || ref.U32(d, 0) != 0x00010000 {
				t.Fatalf("version 1.0 table: % x", d)
			}
			for i, x := range []uint16{tt.MaxPoints, tt.MaxContours, tt.MaxCompositePoints, tt.MaxCompositeContours, tt.MaxZones,
				tt.MaxTwilightPoints, tt.MaxStorage, tt.MaxFunctionDefs, tt.MaxInstructionDefs, tt.MaxStackElements,
				tt.MaxSizeOfInstructions, tt.MaxComponentElements, tt.MaxComponentDepth} {
				if ref.U16(d, 6+2*i) != int(x) {
					t.Fatalf("maxp field %d: %d, want %d", i, ref.U16(d, 6+2*i), x)
				}
			}
		}
		c.NonTrivial(d)
	})
}

func TestPost(t *testing.T) {
	pbt.Check(t, 40000, 1000000, func(t *rapid.T, c *pbt.Case) {
		raw := rapid.OneOf(rapid.Int32(), rapid.Int32Range(-30<<16, 30<<16), rapid.Int32Range(-3, 3)).Draw(t, "angle")
		frac := rapid.SampledFrom([]float64{0, 0, 0.3, -0.3}).Draw(t, "frac")
		if raw == math.MinInt32 || raw == math.MaxInt32 {
			frac = 0
		}
		info := &post.Info{
			ItalicAngle:       (float64(raw) + frac) / 65536,
			UnderlinePosition: f16(t, "pos"), UnderlineThickness: f16(t, "thick"),
			IsFixedPitch: rapid.Bool().Draw(t, "fixed"),
		}
		d := info.Encode()
		dec, err := post.Read(bytes.NewReader(d))
		if err != nil {
			t.Fatalf("Read: %v", err)
		}
		if dec.ItalicAngle != float64(raw)/65536 {
			t.Fatalf("italic angle %g becomes %g", info.ItalicAngle, dec.ItalicAngle)
		}
		if dec.UnderlinePosition != info.UnderlinePosition || dec.UnderlineThickness != info.UnderlineThickness ||
			dec.IsFixedPitch != info.IsFixedPitch || len(dec.Names) != 0 {
			t.Fatalf("round trip: %+v becomes %+v", info, dec)
		}
		if ref.U32(d, 0) != 0x00030000 || int32(ref.U32(d, 4)) != raw || ref.I16(d, 8) != int(info.UnderlinePosition) ||
			ref.I16(d, 10) != int(info.UnderlineThickness) || (ref.U32(d, 12) != 0) != info.IsFixedPitch || len(d) != 32 {
			t.Fatalf("post fields: % x", d)
		}
		c.NonTrivial(d)
	})
}

func drawOS2(t *rapid.T) *os2.Info {
	b := func(l string) bool { return rapid.Bool().Draw(t, l) }
	pos := func(l string) funit.Int16 {
		return funit.Int16(rapid.OneOf(rapid.IntRange(0, 32767), rapid.IntRange(0, 3)).Draw(t, l))
	}
	info := &os2.Info{
		WeightClass: os2.Weight(u16(t, "weight")), WidthClass: os2.Width(u16(t, "width")),
		FirstCharIndex: u16(t, "first"), LastCharIndex: u16(t, "last"),
		IsRegular: b("regular"), IsOblique: b("oblique"),
		Ascent: f16(t, "asc"), Descent: f16(t, "desc"), LineGap: f16(t, "gap"),
		WinAscent: f16(t, "wasc"), WinDescent: f16(t, "wdesc"),
		CapHeight: pos("cap"), XHeight: pos("xh"),
		AvgGlyphWidth:  f16(t, "avg"),
		SubscriptXSize: f16(t, "s1"), SubscriptYSize: f16(t, "s2"), SubscriptXOffset: f16(t, "s3"), SubscriptYOffset: f16(t, "s4"),
		SuperscriptXSize: f16(t, "s5"), SuperscriptYSize: f16(t, "s6"), SuperscriptXOffset: f16(t, "s7"), SuperscriptYOffset: f16(t, "s8"),
		StrikeoutSize: f16(t, "s9"), StrikeoutPosition: f16(t, "s10"),
		FamilyClass: i16gen.Draw(t, "fc"),
		PermUse:     os2.Permissions(rapid.IntRange(0, 3).Draw(t, "perm")), PermNoSubsetting: b("nosub"), PermOnlyBitmap: b("bitmap"),
	}
	if !info.IsRegular {
		info.IsBold, info.IsItalic = b("bold"), b("italic")
	}
	for i := range info.Panose {
		info.Panose[i] = rapid.Byte().Draw(t, "panose")
	}
	v := rapid.SliceOfN(rapid.ByteRange(32, 126), 4, 4).Draw(t, "vendor")
	info.Vendor = string(v)
	for i := range info.UnicodeRange {
		info.UnicodeRange[i] = rapid.Uint32().Draw(t, "ur")
	}
	info.UnicodeRange.Bool(57, info.LastCharIndex == 0xFFFF)
	info.CodePageRange = os2.CodePageRange(rapid.Uint64().Draw(t, "cpr"))
	return info
}

// expectOS2 computes the expected table independently.
func expectOS2(info *os2.Info, version int) []byte {
	var d []byte
	p := func(vs ...int) {
		for _, v := range vs {
			d = append(d, ref.P16(v)...)
		}
	}
	perm := []int{0, 8, 4, 2}[info.PermUse]
	if version >= 2 {
		if info.PermNoSubsetting {
			perm |= 0x100
		}
		if info.PermOnlyBitmap {
			perm |= 0x200
		}
	}
	p(version, int(info.AvgGlyphWidth), int(info.WeightClass), int(info.WidthClass), perm)
	p(int(info.SubscriptXSize), int(info.SubscriptYSize), int(info.SubscriptXOffset), int(info.SubscriptYOffset),
		int(info.SuperscriptXSize), int(info.SuperscriptYSize), int(info.SuperscriptXOffset), int(info.SuperscriptYOffset),
		int(info.StrikeoutSize), int(info.StrikeoutPosition), int(info.FamilyClass))
	d = append(d, info.Panose[:]...)
	for _, x := range info.UnicodeRange {
		d = append(d, ref.P32(x)...)
	}
	d = append(d, info.Vendor...)
	sel := 0x80
	if info.IsItalic {
		sel |= 1
	}
	if info.IsBold {
		sel |= 0x20
	}
	if info.IsRegular {
		sel |= 0x40
	}
	if info.IsOblique {
		sel |= 0x200
	}
	p(sel, int(info.FirstCharIndex), int(info.LastCharIndex))
	p(int(info.Ascent), int(info.Descent), int(info.LineGap), int(info.WinAscent), int(info.WinDescent))
	if version >= 1 {
		d = append(d, ref.P32(uint32(info.CodePageRange))...)
		d = append(d, ref.P32(uint32(info.CodePageRange>>32))...)
	}
	if version >= 2 {
		p(int(info.XHeight), int(info.CapHeight), 0, 0, 0)
	}
	if version >= 5 {
		p(0, 0xFFFF)
	}
	return d
}

func TestOS2(t *testing.T) {
	pbt.Check(t, 60000, 1500000, func(t *rapid.T, c *pbt.Case) {
		info := drawOS2(t)
		d := info.Encode()
		dec, err := os2.Read(bytes.NewReader(d))
		if err != nil {
			t.Fatalf("Read: %v", err)
		}
		if !reflect.DeepEqual(dec, info) {
			t.Fatalf("round trip: %+v became %+v", info, dec)
		}
		want := expectOS2(info, 4)
		got := append([]byte{}, d...)
		if len(got) != len(want) {
			t.Fatalf("OS/2 table has %d bytes, want %d", len(got), len(want))
		}
		// bits of fsSelection without an API, and unspecified default/break
		// characters are not compared
		mask := func(b []byte) {
			b[62] &= 0x02
			b[63] &= 0x61
			for i := 90; i < 96; i++ {
				b[i] = 0
			}
		}
		mask(got)
		mask(want)
		if !bytes.Equal(got, want) {
			for i := range got {
				if got[i] != want[i] {
					t.Fatalf("OS/2 byte %d: 0x%02x, want 0x%02x (%+v)", i, got[i], want[i], info)
				}
			}
		}
		c.NonTrivial(d)
		c.Sample(func() string { return fmt.Sprintf("%+v", *info) })
	})
}

// TestOS2Versions decodes tables of all versions.
func TestOS2Versions(t *testing.T) {
	pbt.Check(t, 40000, 1000000, func(t *rapid.T, c *pbt.Case) {
		info := drawOS2(t)
		version := rapid.IntRange(0, 5).Draw(t, "version")
		d := expectOS2(info, version)
		want := *info
		if version < 4 {
			want.IsOblique = false // fsSelection bits 7 to 15 are ignored
		}
		if version < 3 {
			want.PermNoSubsetting, want.PermOnlyBitmap = false, false
		}
		if version < 2 {
			want.XHeight, want.CapHeight = 0, 0
		}
		if version < 1 {
			want.CodePageRange = 0
		}
		if version == 0 && rapid.Bool().Draw(t, "apple") {
			d = d[:68]
			want.Ascent, want.Descent, want.LineGap, want.WinAscent, want.WinDescent = 0, 0, 0, 0, 0
			c.Class("68 byte version 0")
		}
		dec, err := os2.Read(bytes.NewReader(d))
		if err != nil {
			t.Fatalf("Read (version %d): %v", version, err)
		}
		if !reflect.DeepEqual(dec, &want) {
			t.Fatalf("version %d: got %+v, want %+v", version, dec, &want)
		}
		c.Class(fmt.Sprintf("version %d", version))
		c.NonTrivial(d)
	})
}

// TestVersion checks the font revision number.
func TestVersion(t *testing.T) {
	pbt.Check(t, 40000, 1000000, func(t *rapid.T, c *pbt.Case) {
		k := rapid.OneOf(rapid.IntRange(0, 65535999), rapid.IntRange(0, 12000)).Draw(t, "thousandths")
		s := fmt.Sprintf("%d.%03d", k/1000, k%1000)
		if rapid.Bool().Draw(t, "prefix") {
			s = "Version " + s
		}
		s += rapid.SampledFrom([]string{"", ";PS 1", " beta", ".4"}).Draw(t, "suffix")
		v, err := head.VersionFromString(s)
		if err != nil {
			t.Fatalf("VersionFromString(%q): %v", s, err)
		}
		if want := (int64(k)*65536*2 + 1000) / 2000; int64(v)-want > 0 || want-int64(v) > 0 {
			t.Fatalf("VersionFromString(%q) = %d, want %d", s, v, want)
		}
		if got, want := v.String(), fmt.Sprintf("%d.%03d", k/1000, k%1000); got != want {
			t.Fatalf("version %q prints as %q", s, got)
		}
		if v.Round() != v {
			t.Fatalf("Round changes version %s: %d vs %d", s, v, v.Round())
		}
		w := head.Version(rapid.Uint32Range(0, 65535<<16).Draw(t, "raw"))
		if w.Round().String() != w.String() || w.Round().Round() != w.Round() {
			t.Fatalf("Round(%d) = %d prints differently", w, w.Round())
		}
		c.NonTrivial([]byte(s))
	})
}
