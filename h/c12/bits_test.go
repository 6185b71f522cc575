package c12

import (
	"fmt"
	"testing"

	"pgregory.net/rapid"

	"seehuhn.de/go/sfnt/os2"
	"seehuhn.de/go/sfnt/verif/pbt"
)

// The bits of the OS/2 table, from the OpenType specification.
var codePages = map[os2.CodePage]int{
	os2.CP1252: 0, os2.CP1250: 1, os2.CP1251: 2, os2.CP1253: 3, os2.CP1254: 4, os2.CP1255: 5, os2.CP1256: 6,
	os2.CP1257: 7, os2.CP1258: 8, os2.CP874: 16, os2.CP932: 17, os2.CP936: 18, os2.CP949: 19, os2.CP950: 20,
	os2.CP1361: 21, os2.CPMacintosh: 29, os2.CPOEM: 30, os2.CPSymbol: 31, os2.CP869: 48, os2.CP866: 49,
	os2.CP865: 50, os2.CP864: 51, os2.CP863: 52, os2.CP862: 53, os2.CP861: 54, os2.CP860: 55, os2.CP857: 56,
	os2.CP855: 57, os2.CP852: 58, os2.CP775: 59, os2.CP737: 60, os2.CP708: 61, os2.CP850: 62, os2.CP437: 63,
}

var unicodeBits = []os2.UnicodeRangeBit{
	os2.URBasicLatin, os2.URLatin1Sup, os2.URLatinExtA, os2.URLatinExtB, os2.URIPAExtensions,
	os2.URSpacingModifierLetters, os2.URCombiningDiacriticalMarks, os2.URGreek, os2.URCoptic, os2.URCyrillic,
	os2.URArmenian, os2.URHebrew, os2.URVai, os2.URArabic, os2.URNko, os2.URDevanagari, os2.URBengali,
	os2.URGurmukhi, os2.URGujarati, os2.UROriya, os2.URTamil, os2.URTelugu, os2.URKannada, os2.URMalayalam,
	os2.URThai, os2.URLao, os2.URGeorgian, os2.URBalinese, os2.URHangulJamo, os2.URLatinExtAdditional,
	os2.URGreekExt, os2.URGeneralPunctuation, os2.URSuperscriptsSubscripts, os2.URCurrencySymbols,
}

// TestOS2Bits sets code pages and unicode ranges in any order, and looks for
// the corresponding bits in the encoded table.
func TestOS2Bits(t *testing.T) {
	var pages []os2.CodePage
	for k := range codePages {
		pages = append(pages, k)
	}
	if len(pages) != 34 {
		t.Fatalf("two of the code pages use the same bit: %d bits", len(pages))
	}
	for want := range 64 { // map order must not influence the cases
		for i, k := range pages {
			if codePages[k] == want {
				n := 0
				for _, x := range codePages {
					if x < want {
						n++
					}
				}
				pages[i], pages[n] = pages[n], pages[i]
				break
			}
		}
	}
	pbt.Check(t, 20000, 400000, func(t *rapid.T, c *pbt.Case) {
		info := &os2.Info{WeightClass: 400, WidthClass: 5, Vendor: "test"}
		var pageBits uint64
		var ur [128]bool
		desc := ""
		for range rapid.IntRange(1, 12).Draw(t, "steps") {
			switch rapid.IntRange(0, 3).Draw(t, "step") {
			case 0:
				p := rapid.SampledFrom(pages).Draw(t, "page")
				info.CodePageRange.Set(p)
				pageBits |= 1 << codePages[p]
				desc += fmt.Sprintf("code page %d; ", codePages[p])
			case 1:
				k := rapid.IntRange(0, len(unicodeBits)-1).Draw(t, "named range")
				info.UnicodeRange.Set(unicodeBits[k])
				ur[k] = true
				desc += fmt.Sprintf("range %d; ", k)
			case 2:
				k := rapid.IntRange(0, 122).Draw(t, "range")
				if k == 57 {
					continue // set by the library
				}
				info.UnicodeRange.Set(os2.UnicodeRangeBit(k))
				ur[k] = true
				desc += fmt.Sprintf("range %d; ", k)
			case 3:
				k := rapid.IntRange(0, 122).Draw(t, "range")
				if k == 57 {
					continue
				}
				v := rapid.Bool().Draw(t, "value")
				info.UnicodeRange.Bool(os2.UnicodeRangeBit(k), v)
				ur[k] = v
				desc += fmt.Sprintf("range %d=%v; ", k, v)
			}
		}
		body := info.Encode()
		if len(body) < 86 {
			t.Fatalf("OS/2 table has %d bytes", len(body))
		}
		for k := range 128 {
			b := body[42+4*(k/32):]
			x := uint32(b[0])<<24 | uint32(b[1])<<16 | uint32(b[2])<<8 | uint32(b[3])
			if got := x>>(k%32)&1 == 1; got != ur[k] {
				t.Fatalf("%s: unicode range bit %d: %v, expected %v", desc, k, got, ur[k])
			}
		}
		for k := range 64 {
			b := body[78+4*(k/32):]
			x := uint32(b[0])<<24 | uint32(b[1])<<16 | uint32(b[2])<<8 | uint32(b[3])
			if got, want := x>>(k%32)&1, uint32(pageBits>>k&1); got != want {
				t.Fatalf("%s: code page bit %d: %v, expected %v", desc, k, got, want)
			}
		}
		c.NonTrivial([]byte(desc))
		c.Sample(func() string { return desc })
	})
}
