package gen

import (
	"os"
	"path/filepath"
	"sort"
	"unicode/utf16"

	"golang.org/x/image/font/gofont/gobold"
	"golang.org/x/image/font/gofont/goitalic"
	"golang.org/x/image/font/gofont/gomono"
	"golang.org/x/image/font/gofont/goregular"
	"golang.org/x/image/font/gofont/gosmallcaps"
	"pgregory.net/rapid"

	"seehuhn.de/go/sfnt/verif/data"
	"seehuhn.de/go/sfnt/verif/ref"
)

// RealFont is a font file which was not written by the library.
type RealFont struct {
	Name string
	Data []byte
}

// RealFonts returns the available font files.
func RealFonts(maxSize int) []RealFont {
	res := []RealFont{
		{"goregular", goregular.TTF}, {"gobold", gobold.TTF}, {"goitalic", goitalic.TTF}, {"gomono", gomono.TTF}, {"gosmallcaps", gosmallcaps.TTF},
	}
	for _, pat := range []string{
		"/root/go/pkg/mod/golang.org/x/image@v0.18.0/font/testdata/*.[to]tf",
		"/root/go/pkg/mod/github.com/smartystreets/goconvey@*/web/client/resources/fonts/*/*/*.otf",
		"/root/go/pkg/mod/github.com/smartystreets/goconvey@*/web/client/resources/fonts/*/*.ttf",
		"/root/go/pkg/mod/github.com/smartystreets/goconvey@*/web/client/resources/fonts/*/*/*.ttf",
		"/usr/share/fonts/truetype/*/*.ttf",
	} {
		names, _ := filepath.Glob(pat)
		sort.Strings(names)
		for _, n := range names {
			b, err := os.ReadFile(n)
			if err == nil && len(b) <= maxSize {
				res = append(res, RealFont{filepath.Base(n), b})
			}
		}
	}
	return res
}

func utf16be(s string) []byte {
	var b []byte
	for _, u := range utf16.Encode([]rune(s)) {
		b = append(b, byte(u>>8), byte(u))
	}
	return b
}

// NameTable draws a "name" table.
func NameTable(t *rapid.T) []byte {
	type rec struct {
		pid, eid, lang, id int
		data               []byte
	}
	var recs []rec
	for _, pid := range []int{1, 3, 0} {
		if rapid.IntRange(0, 2).Draw(t, "platform") == 0 {
			continue
		}
		lang := 0
		eid := 0
		if pid == 3 {
			lang = rapid.SampledFrom([]int{0x409, 0x409, 0x809, 0x407, 0x411}).Draw(t, "lang")
			eid = rapid.SampledFrom([]int{1, 1, 1, 0, 10}).Draw(t, "enc")
		} else if pid == 1 {
			lang = rapid.SampledFrom([]int{0, 0, 0, 2, 11}).Draw(t, "lang")
		}
		for id := 0; id < 20; id++ {
			if rapid.IntRange(0, 2).Draw(t, "present") == 0 {
				continue
			}
			s := text(t, "name")
			switch id {
			case 2:
				s = rapid.SampledFrom([]string{"Regular", "Bold", "Italic", "Bold Italic", "Semi Bold", "Extra Bold", "Oblique", "Condensed Bold", ""}).Draw(t, "subfamily")
			case 5:
				s = rapid.SampledFrom([]string{"Version 1.0", "Version 2.137;abc", "1.23456", "Version 65535.999", "Version 70000.5", "Version 0.0005", "Version 12",
					"Version 123456789012345678901234567890.5", "xx", "Version 1.0005", "1.2345"}).Draw(t, "version")
			}
			d := utf16be(s)
			if pid == 1 {
				d = []byte(s)
			}
			recs = append(recs, rec{pid, eid, lang, id, d})
		}
	}
	sort.SliceStable(recs, func(i, j int) bool { return recs[i].pid < recs[j].pid })
	b := append(ref.P16(0), ref.P16(len(recs))...)
	b = append(b, ref.P16(6+12*len(recs))...)
	var store []byte
	for _, r := range recs {
		for _, v := range []int{r.pid, r.eid, r.lang, r.id, len(r.data), len(store)} {
			b = append(b, ref.P16(v)...)
		}
		store = append(store, r.data...)
	}
	return append(b, store...)
}

// KernTable draws a "kern" table for n glyphs.
func KernTable(t *rapid.T, n int) []byte {
	k := rapid.IntRange(0, 3).Draw(t, "kernSubtables")
	b := append(ref.P16(0), ref.P16(k)...)
	for ; k > 0; k-- {
		m := rapid.IntRange(0, 8).Draw(t, "kernPairs")
		pairs := map[[2]int]int{}
		for ; m > 0; m-- {
			pairs[[2]int{rapid.IntRange(0, n-1).Draw(t, "left"), rapid.IntRange(0, n-1).Draw(t, "right")}] = rapid.SampledFrom([]int{0, -50, 1, 100, -32768, 32767}).Draw(t, "kern")
		}
		var keys [][2]int
		for p := range pairs {
			keys = append(keys, p)
		}
		sort.Slice(keys, func(i, j int) bool {
			return keys[i][0] < keys[j][0] || keys[i][0] == keys[j][0] && keys[i][1] < keys[j][1]
		})
		es, p := 0, 1
		for 2*p <= len(keys) {
			p *= 2
			es++
		}
		if len(keys) == 0 {
			p = 0
		}
		cover := rapid.SampledFrom([]int{1, 1, 1, 1, 0, 3, 5, 9, 11, 0x201, 0x101}).Draw(t, "coverage")
		for _, v := range []int{0, 14 + 6*len(keys), cover, len(keys), 6 * p, es, 6 * (len(keys) - p)} {
			b = append(b, ref.P16(v)...)
		}
		for _, q := range keys {
			b = append(b, ref.P16(q[0])...)
			b = append(b, ref.P16(q[1])...)
			b = append(b, ref.P16(pairs[q])...)
		}
	}
	return b
}

// PostTable draws a "post" table for n glyphs.
func PostTable(t *rapid.T, n int) []byte {
	version := rapid.SampledFrom([]uint32{0x10000, 0x20000, 0x20000, 0x30000, 0x25000, 0x40000}).Draw(t, "postVersion")
	b := ref.P32(version)
	b = append(b, ref.P32(uint32(rapid.OneOf(rapid.Just(int32(0)), rapid.Int32Range(-90<<16, 90<<16), rapid.Int32()).Draw(t, "angle")))...)
	b = append(b, ref.P16(rapid.IntRange(-500, 500).Draw(t, "ulPos"))...)
	b = append(b, ref.P16(rapid.IntRange(-500, 500).Draw(t, "ulThick"))...)
	b = append(b, ref.P32(uint32(rapid.IntRange(0, 1).Draw(t, "fixed")))...)
	b = append(b, make([]byte, 16)...)
	if version != 0x20000 {
		return b
	}
	m := n
	switch rapid.IntRange(0, 5).Draw(t, "postGlyphs") {
	case 0:
		m = n + rapid.IntRange(1, 3).Draw(t, "extra")
	case 1:
		m = rapid.IntRange(0, n).Draw(t, "fewer")
	}
	m = min(m, 1000)
	b = append(b, ref.P16(m)...)
	var names []byte
	next := 258
	for i := 0; i < m; i++ {
		idx := rapid.OneOf(rapid.IntRange(0, 257), rapid.Just(next)).Draw(t, "nameIdx")
		if idx == next {
			next++
			s := rapid.StringMatching(`[a-z.]{0,5}`).Draw(t, "glyphName")
			names = append(names, byte(len(s)))
			names = append(names, s...)
		}
		b = append(b, ref.P16(idx)...)
	}
	return append(b, names...)
}

// OS2Table draws an "OS/2" table.
func OS2Table(t *rapid.T) []byte {
	version := rapid.IntRange(0, 5).Draw(t, "os2Version")
	l := []int{78, 86, 96, 96, 96, 100}[version]
	if version == 0 && rapid.Bool().Draw(t, "shortOS2") {
		l = 68
	}
	b := make([]byte, l)
	seed := rapid.Uint32().Draw(t, "os2Seed")
	if rapid.Bool().Draw(t, "os2Random") {
		for i := range b {
			b[i] = byte(Mix(seed, uint32(i)))
		}
	}
	put := func(o, v int) { copy(b[o:], ref.P16(v)) }
	put(0, version)
	put(4, rapid.SampledFrom([]int{0, 1, 400, 500, 600, 700, 650, 749, 900, 1000, 65535}).Draw(t, "usWeight"))
	put(6, rapid.SampledFrom([]int{0, 1, 5, 5, 9, 10, 65535}).Draw(t, "usWidth"))
	put(8, rapid.SampledFrom([]int{0, 2, 4, 8, 0x100, 0x308, 6}).Draw(t, "fsType"))
	put(30, rapid.SampledFrom([]int{0, 0x300, 0x500, 0x600, 0xA00, 0xFFFF}).Draw(t, "familyClass"))
	put(62, rapid.SampledFrom([]int{0, 1, 0x20, 0x21, 0x40, 0x60, 0x61, 0x41, 0x200, 0x201, 0x240, 0xFFFF}).Draw(t, "fsSelection"))
	if l > 86 {
		put(86, i16().Draw(t, "xHeight"))
		put(88, i16().Draw(t, "capHeight"))
	}
	return b
}

// MutateFont changes the tables of a font.  The number of glyphs is n.
func MutateFont(t *rapid.T, tables map[string][]byte, n int) []string {
	var log []string
	names := make([]string, 0, len(tables))
	for k := range tables {
		names = append(names, k)
	}
	sort.Strings(names)
	for ops := rapid.SampledFrom([]int{1, 2, 3, 1, 2, 4, 0}).Draw(t, "numTableOps"); ops > 0; ops-- {
		switch rapid.IntRange(0, 11).Draw(t, "tableOp") {
		case 0:
			k := rapid.SampledFrom(names).Draw(t, "drop")
			delete(tables, k)
			log = append(log, "drop "+k)
		case 1, 2:
			k := rapid.SampledFrom(names).Draw(t, "mutate")
			if d, ok := tables[k]; ok {
				tables[k] = Mutate(t, append([]byte{}, d...), 3)
				log = append(log, "mutate "+k)
			}
		case 3:
			tables["name"] = NameTable(t)
			log = append(log, "name")
		case 4:
			tables["kern"] = KernTable(t, n)
			delete(tables, "GPOS")
			log = append(log, "kern")
		case 5:
			tables["post"] = PostTable(t, n)
			log = append(log, "post")
		case 6:
			tables["OS/2"] = OS2Table(t)
			log = append(log, "OS/2")
		case 7:
			if h := tables["head"]; len(h) == 54 {
				h = append([]byte{}, h...)
				o := rapid.SampledFrom([]int{4, 6, 16, 18, 20, 28, 36, 44, 46, 50}).Draw(t, "headField")
				copy(h[o:], ref.P16(rapid.OneOf(rapid.IntRange(0, 3), rapid.IntRange(0, 65535)).Draw(t, "headValue")))
				tables["head"] = h
				log = append(log, "head field")
			}
		case 8:
			if h := tables["hhea"]; len(h) == 36 {
				h = append([]byte{}, h...)
				o := 2 * rapid.IntRange(2, 17).Draw(t, "hheaField")
				copy(h[o:], ref.P16(rapid.OneOf(rapid.IntRange(-3, 3), rapid.IntRange(0, 65535)).Draw(t, "hheaValue")))
				tables["hhea"] = h
				log = append(log, "hhea field")
			}
		case 9:
			tables["maxp"] = append(ref.P32(0x5000), ref.P16(n)...)
			log = append(log, "maxp 0.5")
		case 10:
			tag := rapid.SampledFrom([]string{"GSUB", "GPOS", "GDEF"}).Draw(t, "layout")
			if d := data.Table(rapid.SampledFrom(data.Fonts()).Draw(t, "from"), tag); len(d) > 0 && len(d) < 60000 {
				tables[tag] = d
				log = append(log, "real "+tag)
			}
		case 11:
			k := rapid.SampledFrom([]string{"DSIG", "cvt ", "gasp", "zzzz", "    ", "kern", "BASE"}).Draw(t, "extraTable")
			tables[k] = DrawBytes(t, "extraData", 20)
			log = append(log, "extra "+k)
		}
	}
	return log
}
