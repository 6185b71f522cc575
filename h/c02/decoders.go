// Package c02 checks that all decoders are total.
package c02

import (
	"bytes"
	"fmt"
	"runtime"
	"sort"
	"syscall"
	"time"

	"golang.org/x/text/language"

	"seehuhn.de/go/sfnt"
	"seehuhn.de/go/sfnt/cff"
	"seehuhn.de/go/sfnt/cmap"
	"seehuhn.de/go/sfnt/glyf"
	"seehuhn.de/go/sfnt/glyph"
	"seehuhn.de/go/sfnt/head"
	"seehuhn.de/go/sfnt/header"
	"seehuhn.de/go/sfnt/hmtx"
	"seehuhn.de/go/sfnt/kern"
	"seehuhn.de/go/sfnt/maxp"
	"seehuhn.de/go/sfnt/name"
	"seehuhn.de/go/sfnt/opentype/classdef"
	"seehuhn.de/go/sfnt/opentype/coverage"
	"seehuhn.de/go/sfnt/opentype/gdef"
	"seehuhn.de/go/sfnt/opentype/gtab"
	"seehuhn.de/go/sfnt/os2"
	"seehuhn.de/go/sfnt/parser"
	"seehuhn.de/go/sfnt/post"
)

// A decoder reads untrusted data.  Decode is subject to the time and
// allocation limits.  The function returned (nil in case of errors) uses the
// accessors on the result.
type decoder struct {
	name   string
	decode func(b []byte) (use func(), err error)
}

func newParser(b []byte) *parser.Parser { return parser.New(bytes.NewReader(b)) }

var decoders = []*decoder{
	{"sfnt", func(b []byte) (func(), error) {
		f, err := sfnt.Read(bytes.NewReader(b))
		if err != nil {
			return nil, err
		}
		return func() { useFont(f) }, nil
	}},
	{"header", func(b []byte) (func(), error) {
		h, err := header.Read(bytes.NewReader(b))
		if err != nil {
			return nil, err
		}
		return func() {
			for tag := range h.Toc {
				h.Has(tag)
				data, err := h.ReadTableBytes(bytes.NewReader(b), tag)
				if err == nil && len(data) > len(b) {
					panic("table larger than the file")
				}
			}
		}, nil
	}},
	{"cff", func(b []byte) (func(), error) {
		f, err := cff.Read(bytes.NewReader(b))
		if err != nil {
			return nil, err
		}
		return func() { useCFF(f) }, nil
	}},
	{"cmap", func(b []byte) (func(), error) {
		t, err := cmap.Decode(b)
		if err != nil {
			return nil, err
		}
		// cmap.Get is part of the decoder
		for _, key := range someKeys(t) {
			_, _ = t.Get(key)
		}
		_, _ = t.GetBest()
		return func() { useCmap(t) }, nil
	}},
	{"glyf0", func(b []byte) (func(), error) { return decodeGlyf(b, 0) }},
	{"glyf1", func(b []byte) (func(), error) { return decodeGlyf(b, 1) }},
	{"simple", func(b []byte) (func(), error) {
		// the contents of a single glyph
		d := append([]byte{}, b...)
		for len(d)%4 != 0 {
			d = append(d, 0)
		}
		n := uint32(len(d))
		gg, err := glyf.Decode(&glyf.Encoded{GlyfData: d, LocaData: []byte{0, 0, 0, 0, byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)}, LocaFormat: 1})
		if err != nil {
			return nil, err
		}
		err = decodePoints(gg)
		if err != nil {
			return nil, err
		}
		return func() { useGlyphs(gg) }, nil
	}},
	{"GSUB", func(b []byte) (func(), error) { return decodeGtab(b, gtab.TypeGsub) }},
	{"GPOS", func(b []byte) (func(), error) { return decodeGtab(b, gtab.TypeGpos) }},
	{"GDEF", func(b []byte) (func(), error) {
		t, err := gdef.Read(bytes.NewReader(b))
		if err != nil {
			return nil, err
		}
		return func() {
			for g := range 70 {
				t.IsMark(glyph.ID(g))
			}
			t.Encode()
		}, nil
	}},
	{"coverage", func(b []byte) (func(), error) {
		t, err := coverage.Read(newParser(b), 0)
		if err != nil {
			return nil, err
		}
		return func() {
			t.Glyphs()
			t.ToSet()
			if n := len(t.Encode()); n != t.EncodeLen() {
				panic("wrong encoded length")
			}
		}, nil
	}},
	{"set", func(b []byte) (func(), error) {
		t, err := coverage.ReadSet(newParser(b), 0)
		if err != nil {
			return nil, err
		}
		return func() {
			t.Glyphs()
			t.ToTable().Encode()
		}, nil
	}},
	{"classdef", func(b []byte) (func(), error) {
		t, err := classdef.Read(newParser(b), 0)
		if err != nil {
			return nil, err
		}
		return func() {
			t.NumClasses()
			t.Glyphs()
			if n := len(t.Append(nil)); n != t.AppendLen() {
				panic("wrong encoded length")
			}
		}, nil
	}},
	{"name", func(b []byte) (func(), error) {
		t, err := name.Decode(b)
		if err != nil {
			return nil, err
		}
		return func() {
			t.Windows.Choose(language.AmericanEnglish)
			t.Mac.Choose(language.Japanese)
			t.Encode(1)
			t.Encode(0)
		}, nil
	}},
	{"head", func(b []byte) (func(), error) {
		t, err := head.Read(bytes.NewReader(b))
		if err != nil {
			return nil, err
		}
		return func() {
			_ = t.FontRevision.String()
			t.Encode()
		}, nil
	}},
	{"hmtx", func(b []byte) (func(), error) {
		// the first 36 bytes are used as the hhea table
		k := min(len(b), 36)
		t, err := hmtx.Decode(b[:k], b[k:])
		if err != nil {
			return nil, err
		}
		return func() { t.Encode() }, nil
	}},
	{"hhea", func(b []byte) (func(), error) {
		t, err := hmtx.Decode(b, make([]byte, 40))
		if err != nil {
			return nil, err
		}
		return func() { t.Encode() }, nil
	}},
	{"maxp", func(b []byte) (func(), error) {
		t, err := maxp.Read(bytes.NewReader(b))
		if err != nil {
			return nil, err
		}
		return func() { t.Encode() }, nil
	}},
	{"OS/2", func(b []byte) (func(), error) {
		t, err := os2.Read(bytes.NewReader(b))
		if err != nil {
			return nil, err
		}
		return func() {
			_ = t.WeightClass.String()
			_ = t.WidthClass.String()
			t.Encode()
		}, nil
	}},
	{"post", func(b []byte) (func(), error) {
		t, err := post.Read(bytes.NewReader(b))
		if err != nil {
			return nil, err
		}
		return func() { t.Encode() }, nil
	}},
	{"kern", func(b []byte) (func(), error) {
		t, err := kern.Read(bytes.NewReader(b))
		if err != nil {
			return nil, err
		}
		return func() {
			if len(t) < 10000 {
				t.Encode()
			}
		}, nil
	}},
}

func decoderFor(name string) *decoder {
	for _, d := range decoders {
		if d.name == name {
			return d
		}
	}
	panic("no decoder " + name)
}

// decodeGlyf splits the data into a loca and a glyf table; the first two
// bytes give the size of the loca table.
func decodeGlyf(b []byte, format int16) (func(), error) {
	if len(b) < 2 {
		return nil, fmt.Errorf("too short")
	}
	k := min(int(b[0])<<8|int(b[1]), len(b)-2)
	gg, err := glyf.Decode(&glyf.Encoded{LocaData: b[2 : 2+k], GlyfData: b[2+k:], LocaFormat: format})
	if err != nil {
		return nil, err
	}
	_ = decodePoints(gg)
	return func() { useGlyphs(gg) }, nil
}

func decodePoints(gg glyf.Glyphs) error {
	var res error
	for _, g := range gg {
		if g == nil {
			continue
		}
		if s, ok := g.Data.(glyf.SimpleGlyph); ok {
			_, err := s.Decode()
			if err != nil {
				res = err
			}
		}
	}
	return res
}

func useGlyphs(gg glyf.Glyphs) {
	for _, g := range gg {
		g.Components()
		g.FixComponents(map[glyph.ID]glyph.ID{1: 2})
	}
	_ = decodePoints(gg)
	gg.Encode()
	o := &glyf.Outlines{Glyphs: gg}
	for i := range min(len(gg), 200) {
		o.GlyphBBoxPDF([6]float64{0.001, 0, 0, 0.001, 0, 0}, glyph.ID(i))
	}
}

func decodeGtab(b []byte, tp gtab.Type) (func(), error) {
	t, err := gtab.Read(bytes.NewReader(b), tp)
	if err != nil {
		return nil, err
	}
	return func() {
		for _, l := range []string{"en", "de-DE", "ar", "und"} {
			t.FindLookups(language.Make(l), map[string]bool{"kern": true, "liga": true})
		}
		t.Encode()
		ctx := gtab.NewContext(t.LookupList, nil, []gtab.LookupIndex{0, 1, 2, 3})
		var seq []glyph.Info
		for i := range 12 {
			seq = append(seq, glyph.Info{GID: glyph.ID(i)})
		}
		if len(t.LookupList) < 100 {
			ctx.Apply(seq)
		}
	}, nil
}

func someKeys(t cmap.Table) []cmap.Key {
	var keys []cmap.Key
	for key := range t {
		keys = append(keys, key)
	}
	sort.Slice(keys, func(i, j int) bool {
		a, b := keys[i], keys[j]
		if a.PlatformID != b.PlatformID {
			return a.PlatformID < b.PlatformID
		}
		if a.EncodingID != b.EncodingID {
			return a.EncodingID < b.EncodingID
		}
		return a.Language < b.Language
	})
	if len(keys) > 6 {
		keys = append(keys[:3], keys[len(keys)-3:]...)
	}
	return keys
}

func useCmap(t cmap.Table) {
	use := func(s cmap.Subtable) {
		low, high := s.CodeRange()
		for _, r := range []rune{low - 1, low, low + 1, high - 1, high, high + 1, -1, 0, 'A', 0xFF, 0x100, 0xFFFF, 0x10000, 0x10FFFF, 0x110000, 0x7FFFFFFF, -0x80000000} {
			s.Lookup(r)
		}
		for r := rune(0); r < 256; r++ {
			s.Lookup(r)
		}
		if _, ok := s.(cmap.Format4); !ok {
			s.Encode(0)
		} else if high-low < 3000 {
			s.Encode(0) // too slow for large, random tables
		}
	}
	for _, key := range someKeys(t) {
		if s, err := t.Get(key); err == nil {
			use(s)
		}
		if s, err := t.GetNoLang(key.PlatformID, key.EncodingID); err == nil {
			use(s)
		}
	}
	if s, err := t.GetBest(); err == nil {
		use(s)
	}
	t.Encode()
}

func useCFF(f *cff.Font) {
	f.NumGlyphs()
	f.Widths()
	f.WidthsPDF()
	f.WidthsMapPDF()
	f.FontBBoxPDF()
	f.BBox()
	f.IsCIDKeyed()
	f.BuiltinEncoding()
	for i := range min(len(f.Glyphs), 200) {
		f.GlyphWidthPDF(glyph.ID(i))
		f.GlyphBBoxPDF(f.FontMatrix, glyph.ID(i))
		f.Glyphs[i].Extent()
		_ = f.Glyphs[i].String()
	}
	n := 0
	for _, g := range f.Glyphs {
		n += len(g.Cmds)
	}
	if n < 20000 {
		_ = f.Write(&bytes.Buffer{}) // may return an error
	}
	f.Outlines.Subset([]glyph.ID{0})
}

// useFont uses the accessors.
func useFont(f *sfnt.Font) {
	n := f.NumGlyphs()
	_ = f.FullName() + f.Subfamily() + f.PostScriptName()
	f.GetFontInfo()
	f.FontBBox()
	f.FontBBoxPDF()
	f.BuiltinEncoding()
	f.Widths()
	f.WidthsPDF()
	f.WidthsMapPDF()
	f.GlyphBBoxes()
	f.IsFixedPitch()
	for i := 0; i < n; i += 1 + n/300 {
		g := glyph.ID(i)
		f.GlyphWidth(g)
		f.GlyphWidthPDF(g)
		f.GlyphBBox(g)
		f.GlyphName(g)
		f.Outlines.GlyphBBoxPDF(f.FontMatrix, g)
	}
	if n < 1000 {
		f.MakeGlyphNames()
	}
	if f.CMapTable != nil {
		useCmap(f.CMapTable)
	}
	if f.Gdef != nil {
		f.Gdef.Encode()
	}
	if f.Gsub != nil {
		f.Gsub.Encode()
	}
	if f.Gpos != nil {
		f.Gpos.Encode()
	}
	for _, l := range []string{"en", "und"} {
		lay, err := f.NewLayouter(language.Make(l), nil, nil)
		if err == nil && (f.Gsub == nil || len(f.Gsub.LookupList) < 300) {
			lay.Layout("AVfi ab\u0301c")
		}
	}
	_, _ = f.Write(&bytes.Buffer{})
	switch o := f.Outlines.(type) {
	case *glyf.Outlines:
		useGlyphs(o.Glyphs)
		_, _ = f.WriteTrueTypePDF(&bytes.Buffer{})
	case *cff.Outlines:
		useCFF(f.AsCFF())
		_ = f.WriteOpenTypeCFFPDF(&bytes.Buffer{})
	}
}

// Limits.  The library extracts a fixed number of items plus a multiple of the
// size of the input; the constants below are far above the values observed for
// well-behaved data.
const (
	allocPerByte = 4096
	cpuBase      = 6 * time.Second
	cpuPerByte   = 5 * time.Microsecond
)

// allocBase returns the constant part of the allocation limit.
func allocBase(name string) int {
	switch name {
	case "sfnt", "cff", "GSUB", "GPOS", "GDEF":
		return 512 << 20
	case "cmap", "coverage", "set", "classdef":
		return 64 << 20
	default:
		return 16 << 20
	}
}

func cpu() time.Duration {
	var ru syscall.Rusage
	_ = syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

type cost struct {
	alloc uint64
	cpu   time.Duration
}

// measured runs f.
func measured(f func()) cost {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	t0 := cpu()
	f()
	t1 := cpu()
	runtime.ReadMemStats(&b)
	return cost{b.TotalAlloc - a.TotalAlloc, t1 - t0}
}

func (c cost) excessive(name string, n int) string {
	if limit := uint64(allocBase(name) + allocPerByte*n); c.alloc > limit {
		return fmt.Sprintf("%d bytes of input: %d bytes allocated, limit %d", n, c.alloc, limit)
	}
	if limit := cpuBase + cpuPerByte*time.Duration(n); c.cpu > limit {
		return fmt.Sprintf("%d bytes of input: %v CPU time, limit %v", n, c.cpu, limit)
	}
	return ""
}
