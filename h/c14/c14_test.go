// Package c14 checks names, glyph names and language tags.
package c14

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"testing"
	"unicode/utf16"

	xsfnt "golang.org/x/image/font/sfnt"
	"golang.org/x/text/language"
	"pgregory.net/rapid"

	"seehuhn.de/go/postscript/funit"
	"seehuhn.de/go/sfnt/mac"
	"seehuhn.de/go/sfnt/name"
	"seehuhn.de/go/sfnt/opentype/gtab"
	"seehuhn.de/go/sfnt/post"

	"seehuhn.de/go/sfnt/verif/pbt"
	"seehuhn.de/go/sfnt/verif/ref"
)

func TestMain(m *testing.M) { pbt.Main(m) }

// ---------------------------------------------------------------- codecs

// TestMacRoman checks the Mac Roman codec exhaustively, byte by byte and over
// all Unicode scalar values.
func TestMacRoman(t *testing.T) {
	pbt.Enumerate(t, 256, func(i int, c *pbt.Case) {
		want := ref.MacRune(byte(i))
		if got := mac.DecodeOne(byte(i)); got != want {
			pbt.Failf("mac.DecodeOne(%d) = %U, want %U", i, got, want)
		}
		if got := mac.Decode([]byte{byte(i)}); got != string(want) {
			pbt.Failf("mac.Decode(%d) = %q, want %q", i, got, string(want))
		}
		if got := mac.Encode(string(want)); len(got) != 1 || got[0] != byte(i) {
			pbt.Failf("mac.Encode(%q) = % x, want %02x", string(want), got, i)
		}
		c.NonTrivial([]byte{byte(i)})
	})
	inv := map[rune]byte{}
	for i := 0; i < 256; i++ {
		inv[ref.MacRune(byte(i))] = byte(i)
	}
	if len(inv) != 256 {
		t.Fatalf("HARNESS-ERROR: reference table not injective")
	}
	pbt.Enumerate(t, 0x1100, func(i int, c *pbt.Case) {
		for j := 0; j < 256; j++ {
			r := rune(i*256 + j)
			if r >= 0xD800 && r < 0xE000 {
				continue
			}
			want, ok := inv[r]
			if !ok {
				want = '?' // documented replacement
			}
			if got := mac.Encode(string(r)); len(got) != 1 || got[0] != want {
				pbt.Failf("mac.Encode(%U) = % x, want %02x", r, got, want)
			}
		}
	})
}

func TestMacStrings(t *testing.T) {
	pbt.Check(t, 30000, 400000, func(t *rapid.T, c *pbt.Case) {
		b := rapid.SliceOfN(rapid.Byte(), 0, 60).Draw(t, "bytes")
		s := mac.Decode(b)
		var want []rune
		for _, x := range b {
			want = append(want, ref.MacRune(x))
		}
		if s != string(want) {
			t.Fatalf("mac.Decode(% x) = %q, want %q", b, s, string(want))
		}
		if got := mac.Encode(s); !bytes.Equal(got, b) {
			t.Fatalf("mac.Encode(%q) = % x, want % x", s, got, b)
		}
		c.NonTrivial(b)
	})
}

// ---------------------------------------------------------------- name table

func u16at(b []byte, p int) uint16 { return binary.BigEndian.Uint16(b[p:]) }

type nameRec struct {
	plat, enc, lang, id uint16
}

// parseName is an independent reader for "name" tables.
func parseName(b []byte) (map[nameRec][]byte, error) {
	if len(b) < 6 {
		return nil, fmt.Errorf("too short")
	}
	if v := ref.U16(b, 0); v > 1 {
		return nil, fmt.Errorf("version %d", v)
	}
	n, so := int(ref.U16(b, 2)), int(ref.U16(b, 4))
	if so < 6+12*n || so > len(b) {
		return nil, fmt.Errorf("storage offset %d with %d records in %d bytes", so, n, len(b))
	}
	res := map[nameRec][]byte{}
	var prev nameRec
	for i := 0; i < n; i++ {
		p := 6 + 12*i
		r := nameRec{u16at(b, p), u16at(b, p+2), u16at(b, p+4), u16at(b, p+6)}
		l, o := int(ref.U16(b, p+8)), int(ref.U16(b, p+10))
		if so+o+l > len(b) {
			return nil, fmt.Errorf("record %d outside the table", i)
		}
		if i > 0 && !lessRec(prev, r) {
			return nil, fmt.Errorf("records %v and %v not in order", prev, r)
		}
		prev = r
		res[r] = b[so+o : so+o+l]
	}
	return res, nil
}

func lessRec(a, b nameRec) bool {
	if a.plat != b.plat {
		return a.plat < b.plat
	}
	if a.enc != b.enc {
		return a.enc < b.enc
	}
	if a.lang != b.lang {
		return a.lang < b.lang
	}
	return a.id < b.id
}

func sortedIDs(m map[uint16]string) []uint16 {
	var r []uint16
	for k := range m {
		r = append(r, k)
	}
	sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
	return r
}

var macIDs, winIDs = sortedIDs(macLangs), sortedIDs(winLangs)

func setName(t *name.Table, id uint16, v string) {
	f := []*string{0: &t.Copyright, 1: &t.Family, 2: &t.Subfamily, 3: &t.Identifier, 4: &t.FullName,
		5: &t.Version, 6: &t.PostScriptName, 7: &t.Trademark, 8: &t.Manufacturer, 9: &t.Designer,
		10: &t.Description, 11: &t.VendorURL, 12: &t.DesignerURL, 13: &t.License, 14: &t.LicenseURL,
		16: &t.TypographicFamily, 17: &t.TypographicSubfamily, 18: &t.MacFullName, 19: &t.SampleText,
		20: &t.CIDFontName, 21: &t.WWSFamily, 22: &t.WWSSubfamily, 23: &t.LightBackgroundPalette,
		24: &t.DarkBackgroundPalette, 25: &t.VariationsPostScriptName}
	if int(id) < len(f) && f[id] != nil {
		*f[id] = v
		return
	}
	if t.Extra == nil {
		t.Extra = map[name.ID]string{}
	}
	t.Extra[name.ID(id)] = v
}

var idGen = rapid.OneOf(rapid.Uint16Range(0, 25), rapid.Uint16Range(0, 40), rapid.SampledFrom([]uint16{15, 25, 26, 255, 256, 32767, 32768, 65535}))

func drawMacString(t *rapid.T) string {
	b := rapid.SliceOfN(rapid.OneOf(rapid.Byte(), rapid.ByteRange(32, 126)), 1, 12).Draw(t, "mac")
	if rapid.IntRange(0, 30).Draw(t, "long") == 0 {
		b = bytes.Repeat(b, 80)
	}
	var rr []rune
	for _, x := range b {
		rr = append(rr, ref.MacRune(x))
	}
	return string(rr)
}

var runeGen = rapid.Custom(func(t *rapid.T) rune {
	switch rapid.IntRange(0, 5).Draw(t, "kind") {
	case 0:
		return rapid.Int32Range(32, 126).Draw(t, "r")
	case 1:
		return rapid.Int32Range(0, 0xD7FF).Draw(t, "r")
	case 2:
		return rapid.Int32Range(0xE000, 0xFFFF).Draw(t, "r")
	case 3:
		return rapid.Int32Range(0x10000, 0x10FFFF).Draw(t, "r")
	case 4:
		return rapid.SampledFrom([]rune{0, 1, 0x7f, 0x80, 0xff, 0xd7ff, 0xe000, 0xfeff, 0xfffe, 0xffff, 0x10000, 0x10ffff, 0xfffd, 0x1f600}).Draw(t, "r")
	}
	return rapid.Int32Range(0xA0, 0x2FF).Draw(t, "r")
})

func drawWinString(t *rapid.T) string {
	rr := rapid.SliceOfN(runeGen, 1, 10).Draw(t, "win")
	s := string(rr)
	if rapid.IntRange(0, 30).Draw(t, "long") == 0 {
		s = strings.Repeat(s, 60)
	}
	return s
}

func utf16be(s string) []byte {
	var b []byte
	for _, r := range s {
		if r >= 0x10000 {
			r -= 0x10000
			hi, lo := 0xD800+r>>10, 0xDC00+r&0x3FF
			b = append(b, byte(hi>>8), byte(hi), byte(lo>>8), byte(lo))
		} else {
			b = append(b, byte(r>>8), byte(r))
		}
	}
	return b
}

func macBytes(s string) []byte {
	var b []byte
	for _, r := range s {
		for i := 0; i < 256; i++ {
			if ref.MacRune(byte(i)) == r {
				b = append(b, byte(i))
				break
			}
		}
	}
	return b
}

// drawNames draws table contents: language id -> name id -> string.
func drawNames(t *rapid.T, ids []uint16, str func(*rapid.T) string, shared []string) map[uint16]map[uint16]string {
	res := map[uint16]map[uint16]string{}
	n := rapid.IntRange(0, 4).Draw(t, "languages")
	if rapid.IntRange(0, 40).Draw(t, "all") == 0 {
		n = len(ids)
	}
	for i := 0; i < n; i++ {
		id := rapid.SampledFrom(ids).Draw(t, "lang")
		if n == len(ids) {
			id = ids[i]
		}
		m := map[uint16]string{}
		k := rapid.IntRange(1, 6).Draw(t, "names")
		for j := 0; j < k; j++ {
			nid := idGen.Draw(t, "id")
			if rapid.IntRange(0, 2).Draw(t, "reuse") == 0 {
				m[nid] = rapid.SampledFrom(shared).Draw(t, "shared")
			} else {
				m[nid] = str(t)
			}
		}
		res[id] = m
	}
	return res
}

func total(maps ...map[uint16]map[uint16]string) int {
	n := 0
	for _, mm := range maps {
		for _, m := range mm {
			for _, s := range m {
				n += len(utf16be(s))
			}
		}
	}
	return n
}

// TestName encodes generated name data and judges the bytes with an
// independent reader, then decodes them again.
func TestName(t *testing.T) {
	shared := []string{"Regular", "Test Font", "a", "Ab", "x y z", "1.000"}
	pbt.Check(t, 20000, 250000, func(t *rapid.T, c *pbt.Case) {
		m := drawNames(t, macIDs, drawMacString, shared)
		w := drawNames(t, winIDs, drawWinString, shared)
		if total(m, w) > 65000 {
			t.Skip("more than 64 KiB of string data")
		}
		enc := rapid.SampledFrom([]uint16{1, 1, 1, 1, 0, 10}).Draw(t, "windows encoding")
		info := &name.Info{Mac: name.Tables{}, Windows: name.Tables{}}
		want := map[nameRec][]byte{}
		for l, mm := range m {
			tab := &name.Table{}
			for id, s := range mm {
				setName(tab, id, s)
				want[nameRec{1, 0, l, id}] = macBytes(s)
			}
			info.Mac[macLangs[l]] = tab
		}
		for l, mm := range w {
			tab := &name.Table{}
			for id, s := range mm {
				setName(tab, id, s)
				want[nameRec{3, enc, l, id}] = utf16be(s)
			}
			info.Windows[winLangs[l]] = tab
		}
		data := info.Encode(enc)
		if again := info.Encode(enc); !bytes.Equal(data, again) {
			t.Fatalf("two encodings of the same names differ")
		}
		got, err := parseName(data)
		if err != nil {
			t.Fatalf("encoded table is malformed: %v", err)
		}
		if len(got) != len(want) {
			t.Fatalf("%d records written, want %d: %v", len(got), len(want), diffKeys(got, want))
		}
		for k, v := range want {
			if !bytes.Equal(got[k], v) {
				t.Fatalf("record %v is % x, want % x", k, got[k], v)
			}
		}
		back, err := name.Decode(data)
		if err != nil {
			t.Fatalf("cannot decode own encoding: %v", err)
		}
		if !reflect.DeepEqual(back, info) {
			t.Fatalf("names changed by encode/decode (encoding id %d):\n got %s\nwant %s", enc, showInfo(back), showInfo(info))
		}
		c.ClassIf(len(m) > 10, "all Macintosh languages")
		c.ClassIf(len(w) > 10, "all Windows languages")
		c.ClassIf(enc != 1, "other windows encoding id")
		if len(m)+len(w) > 1 {
			c.NonTrivial(data)
		}
		c.Sample(func() string {
			return fmt.Sprintf("%d mac, %d win languages, %d records, %d bytes", len(m), len(w), len(want), len(data))
		})
	})
}

func diffKeys(a, b map[nameRec][]byte) string {
	s := ""
	for k := range a {
		if b[k] == nil {
			s += fmt.Sprintf(" +%v", k)
		}
	}
	for k := range b {
		if a[k] == nil {
			s += fmt.Sprintf(" -%v", k)
		}
	}
	return s
}

func showInfo(i *name.Info) string {
	s := ""
	for k, v := range i.Mac {
		s += fmt.Sprintf("mac/%s %+v ", k, *v)
	}
	for k, v := range i.Windows {
		s += fmt.Sprintf("win/%s %+v ", k, *v)
	}
	return s
}

// TestNameDecode decodes hand-assembled name tables.
func TestNameDecode(t *testing.T) {
	pbt.Check(t, 30000, 400000, func(t *rapid.T, c *pbt.Case) {
		storage := rapid.SliceOfN(rapid.OneOf(rapid.Byte(), rapid.ByteRange(0, 127)), 2, 200).Draw(t, "storage")
		n := rapid.IntRange(0, 12).Draw(t, "records")
		var recs []nameRec
		pos := map[nameRec][2]int{}
		for i := 0; i < n; i++ {
			var r nameRec
			switch rapid.IntRange(0, 6).Draw(t, "kind") {
			case 0, 1:
				r = nameRec{1, 0, rapid.SampledFrom(macIDs).Draw(t, "lang"), 0}
			case 2, 3, 4:
				r = nameRec{3, 1, rapid.SampledFrom(winIDs).Draw(t, "lang"), 0}
			case 5: // to be ignored
				r = rapid.SampledFrom([]nameRec{{0, 3, 0, 0}, {0, 4, 0, 0}, {1, 1, 11, 0}, {3, 2, 0x411, 0},
					{3, 5, 0x412, 0}, {2, 0, 0, 0}, {1, 0, 95, 0}, {3, 1, 0x8000, 0}, {3, 1, 0x7FFF, 0}, {4, 0, 0, 0}}).Draw(t, "unknown")
			case 6:
				r = nameRec{3, 10, rapid.SampledFrom(winIDs).Draw(t, "lang"), 0}
			}
			r.id = idGen.Draw(t, "id")
			if r.plat == 3 {
				if _, ok := pos[nameRec{3, 11 - r.enc, r.lang, r.id}]; ok {
					continue // ambiguous
				}
			}
			if _, ok := pos[r]; ok {
				continue
			}
			o := rapid.IntRange(0, len(storage)).Draw(t, "offs")
			l := rapid.IntRange(0, min(24, len(storage)-o)).Draw(t, "len")
			if r.plat == 3 {
				l &^= 1
				u := make([]uint16, l/2)
				for k := range u {
					u[k] = u16at(storage, o+2*k)
				}
				ok := true
				for _, x := range utf16.Decode(u) {
					if x == 0xFFFD {
						ok = false
					}
				}
				if !ok {
					continue // not representable
				}
			}
			pos[r] = [2]int{o, l}
			recs = append(recs, r)
		}
		sort.Slice(recs, func(i, j int) bool { return lessRec(recs[i], recs[j]) })
		version := rapid.Uint16Range(0, 1).Draw(t, "version")
		head := 6 + 12*len(recs)
		var ext []byte
		if version == 1 {
			nl := rapid.IntRange(0, 3).Draw(t, "langtags")
			ext = binary.BigEndian.AppendUint16(ext, uint16(nl))
			for i := 0; i < nl; i++ {
				ext = append(ext, 0, 2, 0, 0)
			}
		}
		ext = append(ext, make([]byte, rapid.IntRange(0, 3).Draw(t, "gap"))...)
		so := head + len(ext)
		var data []byte
		u16 := func(x uint16) { data = binary.BigEndian.AppendUint16(data, x) }
		u16(version)
		u16(uint16(len(recs)))
		u16(uint16(so))
		want := &name.Info{Mac: name.Tables{}, Windows: name.Tables{}}
		for _, r := range recs {
			p := pos[r]
			u16(r.plat)
			u16(r.enc)
			u16(r.lang)
			u16(r.id)
			u16(uint16(p[1]))
			u16(uint16(p[0]))
			raw := storage[p[0] : p[0]+p[1]]
			var tt name.Tables
			var key, val string
			switch {
			case r.plat == 1 && r.enc == 0:
				tt, key = want.Mac, macLangs[r.lang]
				for _, b := range raw {
					val += string(ref.MacRune(b))
				}
			case r.plat == 3 && (r.enc == 1 || r.enc == 10):
				tt, key = want.Windows, winLangs[r.lang]
				var u []uint16
				for k := 0; k < len(raw); k += 2 {
					u = append(u, u16at(raw, k))
				}
				val = string(utf16.Decode(u))
			}
			if key == "" || val == "" {
				continue
			}
			if tt[key] == nil {
				tt[key] = &name.Table{}
			}
			setName(tt[key], r.id, val)
		}
		data = append(data, ext...)
		data = append(data, storage...)
		got, err := name.Decode(data)
		if err != nil {
			t.Fatalf("valid name table rejected: %v", err)
		}
		if !reflect.DeepEqual(got, want) {
			t.Fatalf("decoded names differ:\n got %s\nwant %s", showInfo(got), showInfo(want))
		}
		if len(want.Mac)+len(want.Windows) > 0 {
			c.NonTrivial(data)
		}
	})
}

// TestChoose checks the selection of a language.
func TestChoose(t *testing.T) {
	base := func(s string) string {
		tag := language.MustParse(s)
		b, _ := tag.Base()
		return b.String()
	}
	pbt.Check(t, 3000, 40000, func(t *rapid.T, c *pbt.Case) {
		langs := winLangs
		ids := winIDs
		if rapid.Bool().Draw(t, "mac") {
			langs, ids = macLangs, macIDs
		}
		tt := name.Tables{}
		var keys []string
		n := rapid.IntRange(0, 6).Draw(t, "n")
		for i := 0; i < n; i++ {
			k := langs[rapid.SampledFrom(ids).Draw(t, "lang")]
			if tt[k] != nil {
				continue
			}
			keys = append(keys, k)
			tab := &name.Table{Family: k}
			if rapid.Bool().Draw(t, "full") {
				tab.Copyright, tab.License, tab.Version = "x", "y", "z"
			}
			tt[k] = tab
		}
		want := language.Make("en-US")
		if len(keys) > 0 && rapid.IntRange(0, 3).Draw(t, "exact") > 0 {
			k := rapid.SampledFrom(keys).Draw(t, "key")
			want = language.MustParse(k)
			same := 0
			for _, k2 := range keys {
				if base(k2) == base(k) {
					same++
				}
			}
			if same == 1 {
				c.Class("exact")
				got, conf := tt.Choose(want)
				if got != tt[k] || conf == language.No {
					t.Fatalf("Choose(%s) from %v returns %v with confidence %v", k, keys, got, conf)
				}
			}
			c.NonTrivial([]byte(k + strings.Join(keys, " ")))
		}
		got, conf := tt.Choose(want)
		if len(keys) == 0 {
			if got != nil || conf != language.No {
				t.Fatalf("Choose from an empty list: %v %v", got, conf)
			}
			return
		}
		if got == nil {
			t.Fatalf("Choose(%s) from %v returns no table", want, keys)
		}
		for i := 0; i < 4; i++ {
			if g2, c2 := tt.Choose(want); g2 != got || c2 != conf {
				t.Fatalf("Choose(%s) from %v is not deterministic", want, keys)
			}
		}
	})
}

// ---------------------------------------------------------------- OpenType tags

type langSys struct {
	script, lang string // lang is "" for the default language system
}

// buildGtab assembles a GSUB/GPOS table with the given language systems; the
// i-th one has required feature i and optional features i, i+1.
func buildGtab(ls []langSys) []byte {
	byScript := map[string][]int{}
	var scripts []string
	for i, l := range ls {
		if byScript[l.script] == nil {
			scripts = append(scripts, l.script)
		}
		byScript[l.script] = append(byScript[l.script], i)
	}
	sort.Strings(scripts)
	var sl []byte
	u16 := func(b []byte, x int) []byte { return binary.BigEndian.AppendUint16(b, uint16(x)) }
	sl = u16(sl, len(scripts))
	off := 2 + 6*len(scripts)
	var tabs []byte
	for _, s := range scripts {
		sl = append(sl, s...)
		sl = u16(sl, off+len(tabs))
		idx := byScript[s]
		sort.Slice(idx, func(a, b int) bool { return ls[idx[a]].lang < ls[idx[b]].lang })
		def := -1
		if ls[idx[0]].lang == "" {
			def = idx[0]
			idx = idx[1:]
		}
		p := 4 + 6*len(idx)
		var tab, body []byte
		rec := func(i int) int {
			o := p + len(body)
			body = u16(body, 0)
			body = u16(body, i)
			body = u16(body, 2)
			body = u16(body, i)
			body = u16(body, i+1)
			return o
		}
		if def >= 0 {
			tab = u16(tab, rec(def))
		} else {
			tab = u16(tab, 0)
		}
		tab = u16(tab, len(idx))
		for _, i := range idx {
			tab = append(tab, ls[i].lang...)
			tab = u16(tab, rec(i))
		}
		tabs = append(tabs, tab...)
		tabs = append(tabs, body...)
	}
	sl = append(sl, tabs...)
	res := []byte{0, 1, 0, 0}
	res = u16(res, 10)
	res = u16(res, 10+len(sl))
	res = u16(res, 10+len(sl)+2)
	res = append(res, sl...)
	res = append(res, 0, 0, 0, 0)
	return res
}

// parseScripts is the inverse of buildGtab.
func parseScripts(b []byte) (map[langSys][]uint16, error) {
	res := map[langSys][]uint16{}
	base := int(ref.U16(b, 4))
	n := int(ref.U16(b, base))
	read := func(p int, l langSys) error {
		if ref.U16(b, p) != 0 {
			return fmt.Errorf("lookupOrder not 0")
		}
		if res[l] != nil {
			return fmt.Errorf("language system %v written twice", l)
		}
		var v []uint16
		v = append(v, u16at(b, p+2))
		for k := 0; k < int(ref.U16(b, p+4)); k++ {
			v = append(v, u16at(b, p+6+2*k))
		}
		res[l] = v
		return nil
	}
	prev := ""
	for i := 0; i < n; i++ {
		p := base + 2 + 6*i
		s := string(b[p : p+4])
		if s <= prev {
			return nil, fmt.Errorf("script tags %q, %q not in order", prev, s)
		}
		prev = s
		sp := base + int(ref.U16(b, p+4))
		if d := int(ref.U16(b, sp)); d != 0 {
			if err := read(sp+d, langSys{s, ""}); err != nil {
				return nil, err
			}
		}
		prevL := ""
		for k := 0; k < int(ref.U16(b, sp+2)); k++ {
			q := sp + 4 + 6*k
			l := string(b[q : q+4])
			if l <= prevL {
				return nil, fmt.Errorf("language tags %q, %q not in order", prevL, l)
			}
			prevL = l
			if err := read(sp+int(ref.U16(b, q+4)), langSys{s, l}); err != nil {
				return nil, err
			}
		}
	}
	return res, nil
}

var allScripts, allLangs []string

func init() {
	for s := range scriptTags {
		allScripts = append(allScripts, s)
	}
	for l := range langTags {
		allLangs = append(allLangs, l)
	}
	sort.Strings(allScripts)
	sort.Strings(allLangs)
}

func checkTags(ls []langSys, typ gtab.Type) string {
	data := buildGtab(ls)
	info, err := gtab.Read(bytes.NewReader(data), typ)
	if err != nil {
		return fmt.Sprintf("valid script list rejected: %v", err)
	}
	if len(info.ScriptList) != len(ls) {
		return fmt.Sprintf("%d language systems became %d language tags", len(ls), len(info.ScriptList))
	}
	for tag, ff := range info.ScriptList {
		i := int(ff.Required)
		if i >= len(ls) || !reflect.DeepEqual(ff.Optional, []gtab.FeatureIndex{gtab.FeatureIndex(i), gtab.FeatureIndex(i + 1)}) {
			return fmt.Sprintf("tag %s has wrong features %v", tag, ff)
		}
		// the tag must denote the right language and script
		want := "und"
		if ls[i].lang != "" {
			want = langTags[ls[i].lang]
		}
		wt := language.MustParse(want)
		wb, ws, wr := wt.Raw()
		b, s, r := tag.Raw()
		if !strings.Contains(want, "-") {
			ws = language.MustParseScript(scriptTags[ls[i].script])
		}
		if b != wb || s != ws || r != wr {
			return fmt.Sprintf("script %q language %q is read as %s (want language %s)", ls[i].script, ls[i].lang, tag, want)
		}
	}
	out := info.Encode()
	got, err := parseScripts(out)
	if err != nil {
		return fmt.Sprintf("written script list is malformed: %v", err)
	}
	for i, l := range ls {
		want := []uint16{uint16(i), uint16(i), uint16(i + 1)}
		if !reflect.DeepEqual(got[l], want) {
			return fmt.Sprintf("script %q language %q: written features %v, want %v", l.script, l.lang, got[l], want)
		}
	}
	if len(got) != len(ls) {
		return fmt.Sprintf("%d language systems written, want %d", len(got), len(ls))
	}
	back, err := gtab.Read(bytes.NewReader(out), typ)
	if err != nil {
		return fmt.Sprintf("written script list rejected: %v", err)
	}
	if !reflect.DeepEqual(back.ScriptList, info.ScriptList) {
		return "language tags changed by encode/decode"
	}
	return ""
}

// TestAllTags exhausts all pairs of a known script and a known language.
func TestAllTags(t *testing.T) {
	pbt.Enumerate(t, len(allScripts), func(i int, c *pbt.Case) {
		ls := []langSys{{allScripts[i], ""}}
		for _, l := range allLangs {
			ls = append(ls, langSys{allScripts[i], l})
		}
		if msg := checkTags(ls, gtab.TypeGsub); msg != "" {
			pbt.Failf("%s", msg)
		}
		c.NonTrivial([]byte(allScripts[i]))
		c.Sample(func() string { return fmt.Sprintf("script %q with %d languages", allScripts[i], len(ls)) })
	})
}

// TestTags uses several scripts at once.
func TestTags(t *testing.T) {
	pbt.Check(t, 4000, 60000, func(t *rapid.T, c *pbt.Case) {
		n := rapid.IntRange(0, 12).Draw(t, "n")
		seen := map[langSys]bool{}
		var ls []langSys
		for i := 0; i < n; i++ {
			var l langSys
			l.script = rapid.OneOf(rapid.SampledFrom(allScripts), rapid.SampledFrom([]string{"DFLT", "latn", "beng", "bng2", "yi  ", "lao "})).Draw(t, "script")
			if rapid.IntRange(0, 2).Draw(t, "default") > 0 {
				l.lang = rapid.SampledFrom(allLangs).Draw(t, "lang")
			}
			if !seen[l] {
				seen[l] = true
				ls = append(ls, l)
			}
		}
		typ := gtab.Type(gtab.TypeGsub)
		if rapid.Bool().Draw(t, "gpos") {
			typ = gtab.TypeGpos
		}
		if msg := checkTags(ls, typ); msg != "" {
			t.Fatalf("%s\n%v", msg, ls)
		}
		if len(ls) > 1 {
			c.NonTrivial([]byte(fmt.Sprint(ls)))
		}
	})
}

// TestPlainTags writes script lists with plain BCP 47 tags (without the
// private-use extension): the same tags must always be written the same way,
// and denote the same language and script when read back.
func TestPlainTags(t *testing.T) {
	pbt.Check(t, 2000, 20000, func(t *rapid.T, c *pbt.Case) {
		sl := gtab.ScriptListInfo{}
		n := rapid.IntRange(1, 4).Draw(t, "n")
		used := map[string]bool{}
		for i := 0; i < n; i++ {
			base := rapid.SampledFrom(allLangs).Draw(t, "lang")
			b := langTags[base]
			if strings.Contains(b, "-") {
				continue
			}
			s := scriptTags[rapid.SampledFrom(allScripts).Draw(t, "script")]
			if used[b+s] || used[s] { // keep the language systems distinct
				continue
			}
			used[b+s] = true
			used[s] = true
			sl[language.MustParse(b+"-"+s)] = &gtab.Features{Required: gtab.FeatureIndex(i), Optional: []gtab.FeatureIndex{}}
		}
		info := &gtab.Info{ScriptList: sl, FeatureList: gtab.FeatureListInfo{}, LookupList: gtab.LookupList{}}
		data := info.Encode()
		for i := 0; i < 3; i++ {
			if !bytes.Equal(data, info.Encode()) {
				t.Fatalf("script list %v is not always written the same way", sl)
			}
		}
		back, err := gtab.Read(bytes.NewReader(data), gtab.TypeGsub)
		if err != nil {
			t.Fatalf("script list %v: %v", sl, err)
		}
		if len(back.ScriptList) != len(sl) {
			t.Fatalf("script list %v is read back as %v", sl, back.ScriptList)
		}
		for tag, ff := range back.ScriptList {
			b, s, _ := tag.Raw()
			ok := false
			for t2, f2 := range sl {
				b2, s2, _ := t2.Raw()
				if b == b2 && s == s2 && f2.Required == ff.Required {
					ok = true
				}
			}
			if !ok {
				t.Fatalf("script list %v is read back as %v", sl, back.ScriptList)
			}
		}
		c.NonTrivial([]byte(fmt.Sprint(sl)))
	})
}

// ---------------------------------------------------------------- post

func drawGlyphName(t *rapid.T) string {
	switch rapid.IntRange(0, 9).Draw(t, "kind") {
	case 0, 1, 2:
		return rapid.SampledFrom(ref.MacGlyphNames).Draw(t, "mac")
	case 3:
		return rapid.SampledFrom([]string{"", "f_i", "uni0041", "a.alt", "Dcroat", ".notdef2", "notdef", "ordmasculine1"}).Draw(t, "fixed")
	case 4:
		return string(rapid.SliceOfN(rapid.ByteRange(33, 126), 1, 255).Draw(t, "long"))
	case 5:
		n := rapid.SampledFrom([]int{1, 2, 31, 63, 64, 127, 128, 129, 254, 255}).Draw(t, "len")
		return strings.Repeat("x", n)
	case 6:
		return string(rapid.SliceOfN(rapid.Byte(), 1, 20).Draw(t, "bytes"))
	}
	return rapid.StringMatching(`[A-Za-z][A-Za-z0-9._]{0,12}`).Draw(t, "name")
}

func parsePost(b []byte, n int) ([]string, error) {
	if len(b) < 32 {
		return nil, fmt.Errorf("post table has %d bytes", len(b))
	}
	switch v := ref.U32(b, 0); v {
	case 0x00010000:
		if len(b) != 32 {
			return nil, fmt.Errorf("version 1 with %d bytes", len(b))
		}
		return ref.MacGlyphNames, nil
	case 0x00020000:
		if len(b) < 34 || int(ref.U16(b, 32)) != n || len(b) < 34+2*n {
			return nil, fmt.Errorf("version 2 table too short or with wrong number of glyphs")
		}
		var strs []string
		for p := 34 + 2*n; p < len(b); {
			l := int(b[p])
			if p+1+l > len(b) {
				return nil, fmt.Errorf("string outside the table")
			}
			strs = append(strs, string(b[p+1:p+1+l]))
			p += 1 + l
		}
		res := []string{}
		for i := 0; i < n; i++ {
			k := int(ref.U16(b, 34+2*i))
			if k < 258 {
				res = append(res, ref.MacGlyphNames[k])
			} else if k-258 < len(strs) {
				res = append(res, strs[k-258])
			} else {
				return nil, fmt.Errorf("glyph %d has name index %d but there are %d strings", i, k, len(strs))
			}
		}
		return res, nil
	case 0x00030000:
		if len(b) != 32 {
			return nil, fmt.Errorf("version 3 with %d bytes", len(b))
		}
		return nil, nil
	default:
		return nil, fmt.Errorf("version %08x", v)
	}
}

// xNames lists the glyph names as seen by x/image.
func xNames(post []byte, n int) ([]string, error) {
	tables := ref.MinimalTables(n)
	tables["post"] = post
	f, err := xsfnt.Parse(ref.BuildContainer(0x00010000, tables))
	if err != nil {
		return nil, err
	}
	var buf xsfnt.Buffer
	var res []string
	for i := 0; i < n; i++ {
		s, err := f.GlyphName(&buf, xsfnt.GlyphIndex(i))
		if err != nil {
			return nil, fmt.Errorf("glyph %d: %w", i, err)
		}
		res = append(res, s)
	}
	return res, nil
}

func sameNames(a, b []string) string {
	if len(a) != len(b) || (a == nil) != (b == nil) {
		return fmt.Sprintf("%d names, want %d", len(a), len(b))
	}
	for i := range a {
		if a[i] != b[i] {
			return fmt.Sprintf("glyph %d is called %q, want %q", i, a[i], b[i])
		}
	}
	return ""
}

func TestPost(t *testing.T) {
	if len(ref.MacGlyphNames) != 258 {
		t.Fatalf("HARNESS-ERROR: %d mac glyph names", len(ref.MacGlyphNames))
	}
	pbt.Check(t, 12000, 150000, func(t *rapid.T, c *pbt.Case) {
		var names []string
		switch rapid.IntRange(0, 11).Draw(t, "kind") {
		case 0:
		case 1:
			names = append(names, ref.MacGlyphNames...)
			c.Class("standard names")
		case 2: // nearly the standard names
			names = append(names, ref.MacGlyphNames...)
			switch rapid.IntRange(0, 3).Draw(t, "change") {
			case 0:
				names = names[:rapid.IntRange(1, 257).Draw(t, "len")]
			case 1:
				names = append(names, drawGlyphName(t))
			case 2:
				names[rapid.IntRange(0, 257).Draw(t, "idx")] = drawGlyphName(t)
			case 3:
				i, j := rapid.IntRange(0, 257).Draw(t, "i"), rapid.IntRange(0, 257).Draw(t, "j")
				names[i], names[j] = names[j], names[i]
			}
			c.Class("nearly standard names")
		case 3:
			n := rapid.IntRange(200, 2000).Draw(t, "n")
			if rapid.IntRange(0, 20).Draw(t, "huge") == 0 {
				n = rapid.SampledFrom([]int{32509, 32510, 32511, 40000, 65277}).Draw(t, "huge n")
			}
			for i := 0; i < n; i++ {
				names = append(names, fmt.Sprintf("g%d", i))
			}
			c.Class("many names")
		default:
			names = rapid.SliceOfN(rapid.Custom(drawGlyphName), 1, 20).Draw(t, "names")
		}
		info := &post.Info{
			ItalicAngle:        float64(rapid.Int32().Draw(t, "angle")) / 65536,
			UnderlinePosition:  funit.Int16(rapid.Int16().Draw(t, "upos")),
			UnderlineThickness: funit.Int16(rapid.Int16().Draw(t, "uthick")),
			IsFixedPitch:       rapid.Bool().Draw(t, "fixed"),
			Names:              names,
		}
		data := info.Encode()
		got, err := parsePost(data, len(names))
		if err != nil {
			t.Fatalf("malformed post table: %v", err)
		}
		if msg := sameNames(got, names); msg != "" {
			t.Fatalf("written names: %s", msg)
		}
		back, err := post.Read(bytes.NewReader(data))
		if err != nil {
			t.Fatalf("cannot read own post table: %v", err)
		}
		if !reflect.DeepEqual(back, info) {
			t.Fatalf("post table changed: %s\n got %+v\nwant %+v", sameNames(back.Names, names), trunc(back), trunc(info))
		}
		if n := len(names); n > 0 && n < 3000 {
			xn, err := xNames(data, n)
			if err != nil {
				t.Fatalf("x/image rejects the post table: %v", err)
			}
			if msg := sameNames(xn, names); msg != "" {
				t.Fatalf("x/image: %s", msg)
			}
		}
		if len(names) > 1 {
			c.NonTrivial(data)
		}
	})
}

func trunc(i *post.Info) post.Info {
	j := *i
	if len(j.Names) > 20 {
		j.Names = j.Names[:20]
	}
	return j
}

// TestPostDecode reads hand-assembled version 2 tables with shared,
// unused and reordered strings.
func TestPostDecode(t *testing.T) {
	pbt.Check(t, 15000, 200000, func(t *rapid.T, c *pbt.Case) {
		n := rapid.IntRange(1, 30).Draw(t, "n")
		strs := rapid.SliceOfN(rapid.Custom(drawGlyphName), 0, 12).Draw(t, "strings")
		b := make([]byte, 34)
		copy(b, []byte{0, 2, 0, 0})
		for i := 4; i < 32; i++ {
			b[i] = rapid.Byte().Draw(t, "b")
		}
		b[33] = byte(n)
		var want []string
		for i := 0; i < n; i++ {
			k := rapid.IntRange(0, 257+len(strs)).Draw(t, "idx")
			if len(strs) > 0 && rapid.Bool().Draw(t, "custom") {
				k = 258 + k%len(strs)
			}
			b = binary.BigEndian.AppendUint16(b, uint16(k))
			if k < 258 {
				want = append(want, ref.MacGlyphNames[k])
			} else {
				want = append(want, strs[k-258])
			}
		}
		for _, s := range strs {
			b = append(b, byte(len(s)))
			b = append(b, s...)
		}
		// the decoder may not read beyond the end, but the table may be followed by anything
		info, err := post.Read(bytes.NewReader(b))
		if err != nil {
			t.Fatalf("valid post table rejected: %v", err)
		}
		if msg := sameNames(info.Names, want); msg != "" {
			t.Fatalf("%s", msg)
		}
		if info.IsFixedPitch != (ref.U32(b, 12) != 0) || info.UnderlinePosition != funit.Int16(ref.I16(b, 8)) ||
			info.UnderlineThickness != funit.Int16(ref.I16(b, 10)) || info.ItalicAngle != float64(int32(ref.U32(b, 4)))/65536 {
			t.Fatalf("header fields of %x read as %+v", b[:32], info)
		}
		b2 := info.Encode()
		got, err := parsePost(b2, n)
		if err != nil {
			t.Fatalf("re-encoded post table: %v", err)
		}
		if msg := sameNames(got, want); msg != "" {
			t.Fatalf("re-encoded: %s", msg)
		}
		if len(strs) > 0 {
			c.NonTrivial(b)
		}
	})
}
