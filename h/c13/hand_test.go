package c13

import (
	"bytes"
	"fmt"
	"testing"

	"pgregory.net/rapid"

	"seehuhn.de/go/geom/matrix"
	"seehuhn.de/go/postscript/cid"
	"seehuhn.de/go/postscript/funit"
	"seehuhn.de/go/postscript/type1"
	"seehuhn.de/go/sfnt/cff"
	"seehuhn.de/go/sfnt/glyph"

	"seehuhn.de/go/sfnt/verif/gen"
	"seehuhn.de/go/sfnt/verif/pbt"
	"seehuhn.de/go/sfnt/verif/ref"
)

type stringTab struct {
	ss []string
	m  map[string]int
}

func (st *stringTab) sid(t *rapid.T, s string) int {
	if k, ok := st.m[s]; ok {
		return k
	}
	for k, x := range ref.CFFStdStrings {
		if x == s {
			st.m[s] = k
			return k
		}
	}
	// unused entries
	for rapid.IntRange(0, 9).Draw(t, "unusedString") == 0 {
		st.ss = append(st.ss, fmt.Sprint("unused", len(st.ss)))
	}
	k := 391 + len(st.ss)
	st.ss = append(st.ss, s)
	st.m[s] = k
	return k
}

// number draws a DICT number with absolute value at most limit.
func number(t *rapid.T, label string, limit float64) ([]byte, float64) {
	for {
		b, v := gen.DictNumForms(t, label)
		if v >= -limit && v <= limit {
			return b, v
		}
	}
}

func anyForm(t *rapid.T) int { return rapid.SampledFrom([]int{1, 1, 3, 5}).Draw(t, "intForm") }

// TestHandMade reads CFF files assembled with all format variants.
func TestHandMade(t *testing.T) {
	pbt.Check(t, 12000, 600000, func(t *rapid.T, c *pbt.Case) {
		a, want := assemble(t, c)
		b := a.Bytes()
		p, err := ref.ParseCFF(b)
		if err != nil {
			t.Fatalf("HARNESS-ERROR: %v", err)
		}
		rf, err := refFont(p)
		if err != nil {
			t.Fatalf("HARNESS-ERROR: %v", err)
		}
		if err := (gen.CFFCmp{}).Font(want, rf); err != nil {
			t.Fatalf("HARNESS-ERROR: reference parser: %v", err)
		}
		got, err := cff.Read(bytes.NewReader(b))
		if err != nil {
			t.Fatalf("cff.Read rejects a valid font: %v\n% x", err, b)
		}
		if err := (gen.CFFCmp{}).Font(want, got); err != nil {
			t.Fatalf("cff.Read: %v", err)
		}
		// The values survive being written again.
		var buf bytes.Buffer
		if err := got.Write(&buf); err != nil {
			t.Fatalf("cannot write: %v", err)
		}
		f1 := closed(t, buf.Bytes())
		if err := (gen.CFFCmp{}).Font(got, f1); err != nil {
			t.Fatalf("font changed by write/read: %v", err)
		}
		c.ClassIf(want.ROS != nil, "CID")
		c.ClassIf(want.ROS == nil, "simple")
		c.Class("charset "+p.CharsetKind, "encoding "+p.EncKind, "FDSelect "+p.FDSelKind)
		if a.PreCharset >= 0 {
			c.Class(fmt.Sprint("predefined charset ", a.PreCharset))
		}
		if a.PreEncoding >= 0 && want.ROS == nil {
			c.Class(fmt.Sprint("predefined encoding ", a.PreEncoding))
		}
		if len(want.Glyphs) > 1 {
			c.NonTrivial(b)
		}
		c.Sample(func() string { return fmt.Sprintf("%d glyphs, %d bytes: % x", len(want.Glyphs), len(b), b) })
	})
}

func assemble(t *rapid.T, c *pbt.Case) (*gen.CFFAsm, *cff.Font) {
	n := rapid.OneOf(rapid.IntRange(1, 5), rapid.IntRange(1, 40)).Draw(t, "numGlyphs")
	if rapid.IntRange(0, 15).Draw(t, "large") == 0 {
		n = rapid.IntRange(200, 600).Draw(t, "numGlyphs")
	}
	isCID := rapid.Bool().Draw(t, "cid")
	st := &stringTab{m: map[string]int{}}

	info := &type1.FontInfo{
		FontName:          rapid.StringMatching(`[A-Za-z0-9-]{1,30}`).Draw(t, "FontName"),
		UnderlinePosition: -100, UnderlineThickness: 50,
	}
	out := &cff.Outlines{}
	want := &cff.Font{FontInfo: info, Outlines: out}
	a := &gen.CFFAsm{Name: info.FontName, PreCharset: -1, PreEncoding: -1}

	str := func(op int, dst *string) {
		if !rapid.Bool().Draw(t, "have") {
			return
		}
		s := gen.Text(t, fmt.Sprint("s", op), false)
		*dst = s
		a.Top = append(a.Top, gen.DictOp{Op: op, Args: gen.DictInt(st.sid(t, s), anyForm(t))})
	}
	str(0, &info.Version)
	str(1, &info.Notice)
	str(2, &info.FullName)
	str(3, &info.FamilyName)
	str(4, &info.Weight)
	str(0x0c00, &info.Copyright)
	have := func() bool { return rapid.IntRange(0, 2).Draw(t, "have") == 0 }
	if have() {
		info.IsFixedPitch = rapid.Bool().Draw(t, "fixed")
		k := 0
		if info.IsFixedPitch {
			k = 1
		}
		a.Top = append(a.Top, gen.DictOp{Op: 0x0c01, Args: gen.DictInt(k, anyForm(t))})
	}
	if have() {
		b, v := number(t, "angle", 179)
		info.ItalicAngle = v
		a.Top = append(a.Top, gen.DictOp{Op: 0x0c02, Args: b})
	}
	if have() {
		b, v := number(t, "ulPos", 1e18)
		info.UnderlinePosition = funit.Float64(v)
		a.Top = append(a.Top, gen.DictOp{Op: 0x0c03, Args: b})
	}
	if have() {
		b, v := number(t, "ulThick", 1e18)
		info.UnderlineThickness = funit.Float64(v)
		a.Top = append(a.Top, gen.DictOp{Op: 0x0c04, Args: b})
	}
	if have() { // PaintType 0, CharstringType 2, UniqueID, FontBBox, StrokeWidth, XUID
		a.Top = append(a.Top, gen.DictOp{Op: 0x0c06, Args: gen.DictInt(2, anyForm(t))},
			gen.DictOp{Op: 0x0c05, Args: gen.DictInt(0, anyForm(t))},
			gen.DictOp{Op: 13, Args: gen.DictInt(123456, 5)},
			gen.DictOp{Op: 5, Args: append(gen.DictInt(0, 3), append(gen.DictRealText("-12.5"), append(gen.DictInt(1000, 1), gen.DictInt(1200, 5)...)...)...)},
			gen.DictOp{Op: 14, Args: append(gen.DictInt(1, 1), gen.DictInt(70000, 5)...)})
	}
	mat := func(op int, def matrix.Matrix) ([]gen.DictOp, matrix.Matrix) {
		if !rapid.Bool().Draw(t, "haveMatrix") {
			return nil, def
		}
		var args []byte
		var m matrix.Matrix
		for i := range m {
			switch rapid.IntRange(0, 3).Draw(t, "matKind") {
			case 0:
				b, v := number(t, "m", 1e18)
				args, m[i] = append(args, b...), v
			case 1:
				s := rapid.SampledFrom([]string{"0.001", ".001", "1E-3", "10E-4", "0.0010", "0.000488281", "4.88281E-4"}).Draw(t, "m")
				args = append(args, gen.DictRealText(s)...)
				_, err := fmt.Sscanf(s, "%g", &m[i])
				if err != nil {
					panic(err)
				}
			default:
				x := int(def[i])
				args, m[i] = append(args, gen.DictInt(x, anyForm(t))...), float64(x)
			}
		}
		return []gen.DictOp{{Op: op, Args: args}}, m
	}
	def := matrix.Matrix{0.001, 0, 0, 0.001, 0, 0}
	topDef := def
	if isCID {
		topDef = matrix.Identity
	}
	ops, m := mat(0x0c07, topDef)
	a.Top = append(a.Top, ops...)
	info.FontMatrix = m

	// font and private dictionaries
	nFD := 1
	if isCID {
		nFD = rapid.OneOf(rapid.IntRange(1, 3), rapid.IntRange(1, 20)).Draw(t, "nFD")
	}
	type wd struct{ def, nom float64 }
	var widths []wd
	for i := 0; i < nFD; i++ {
		fd := gen.AsmFD{}
		pr := &type1.PrivateDict{BlueScale: 0.039625, BlueShift: 7, BlueFuzz: 1}
		put := func(op int, args []byte) { fd.Private = append(fd.Private, gen.DictOp{Op: op, Args: args}) }
		blues := func(op, max int) []funit.Int16 {
			k := 2 * rapid.IntRange(0, max/2).Draw(t, "nBlues")
			if k == 0 {
				return nil
			}
			args := []byte{}
			var res []funit.Int16
			prev := 0
			for j := 0; j < k; j++ {
				v := rapid.OneOf(rapid.IntRange(-300, 1000), rapid.IntRange(-32768, 32767)).Draw(t, "blue")
				args = append(args, gen.DictInt(v-prev, anyForm(t))...)
				prev = v
				res = append(res, funit.Int16(v))
			}
			put(op, args)
			return res
		}
		if have() {
			pr.BlueValues = blues(6, 14)
			pr.OtherBlues = blues(7, 10)
		}
		if have() {
			s := rapid.SampledFrom([]string{"0.04379", ".5", "0", "1", "39625E-6", "0.0375", "1E0"}).Draw(t, "bs")
			_, _ = fmt.Sscanf(s, "%g", &pr.BlueScale)
			put(0x0c09, gen.DictRealText(s))
		}
		if have() {
			x := int(rapid.Int32().Draw(t, "shift"))
			pr.BlueShift = int32(x)
			put(0x0c0a, gen.DictInt(x, anyForm(t)))
		}
		if have() {
			x := rapid.IntRange(-200, 200).Draw(t, "fuzz")
			pr.BlueFuzz = int32(x)
			put(0x0c0b, gen.DictInt(x, anyForm(t)))
		}
		stem := func(op int) float64 {
			if !have() {
				return 0
			}
			for {
				b, v := number(t, "std", 10000)
				if v >= 0 {
					put(op, b)
					return v
				}
			}
		}
		pr.StdHW = stem(10)
		pr.StdVW = stem(11)
		if have() {
			pr.ForceBold = rapid.Bool().Draw(t, "bold")
			k := 0
			if pr.ForceBold {
				k = 1
			}
			put(0x0c0e, gen.DictInt(k, anyForm(t)))
		}
		if have() { // StemSnapH, LanguageGroup, ExpansionFactor
			put(0x0c0c, append(gen.DictInt(20, 1), gen.DictInt(300, 1)...))
			put(0x0c11, gen.DictInt(0, 1))
			put(0x0c12, gen.DictRealText("0.06"))
		}
		var w wd
		if rapid.Bool().Draw(t, "haveDef") {
			for {
				b, v := number(t, "defW", 20000)
				if v >= 0 {
					put(20, b)
					w.def = v
					break
				}
			}
		}
		if rapid.Bool().Draw(t, "haveNom") {
			b, v := number(t, "nomW", 20000)
			put(21, b)
			w.nom = v
		}
		widths = append(widths, w)
		if have() {
			fd.HasSubrs = true
			for k := rapid.IntRange(0, 3).Draw(t, "nSubrs"); k > 0; k-- {
				fd.Subrs = append(fd.Subrs, []byte{11})
			}
		}
		if isCID {
			if rapid.Bool().Draw(t, "fdName") {
				fd.Dict = append(fd.Dict, gen.DictOp{Op: 0x0c26, Args: gen.DictInt(st.sid(t, fmt.Sprint("FD-", i)), anyForm(t))})
			}
			ops, m := mat(0x0c07, def)
			fd.Dict = append(fd.Dict, ops...)
			out.FontMatrices = append(out.FontMatrices, m)
		}
		out.Private = append(out.Private, pr)
		a.FDs = append(a.FDs, fd)
	}

	// glyph names, CIDs
	var names []string
	sel := make([]int, n)
	if isCID {
		ros := &cid.SystemInfo{
			Registry:   rapid.SampledFrom([]string{"Adobe", "Test", "Bold"}).Draw(t, "reg"),
			Ordering:   rapid.SampledFrom([]string{"Identity", "Japan1", "space"}).Draw(t, "ord"),
			Supplement: rapid.OneOf(rapid.Int32Range(0, 10), rapid.Int32()).Draw(t, "supp"),
		}
		out.ROS = ros
		a.ROS = append(gen.DictInt(st.sid(t, ros.Registry), anyForm(t)), gen.DictInt(st.sid(t, ros.Ordering), anyForm(t))...)
		a.ROS = append(a.ROS, gen.DictInt(int(ros.Supplement), anyForm(t))...)
		if rapid.Bool().Draw(t, "cidCount") {
			a.Top = append(a.Top, gen.DictOp{Op: 0x0c22, Args: gen.DictInt(n, anyForm(t))})
		}
		out.GIDToCID = gen.CIDs(t, n)
		cur := rapid.IntRange(0, nFD-1).Draw(t, "fd")
		change := rapid.IntRange(0, 10).Draw(t, "fdChange")
		for i := range sel {
			if rapid.IntRange(0, 10).Draw(t, "chg") < change {
				cur = rapid.IntRange(0, nFD-1).Draw(t, "fd")
			}
			sel[i] = cur
		}
		if rapid.Bool().Draw(t, "fdselFormat") {
			a.FDSelect = []byte{0}
			for _, x := range sel {
				a.FDSelect = append(a.FDSelect, byte(x))
			}
		} else {
			var rr []byte
			nr := 0
			for i := range sel {
				// sometimes split ranges unnecessarily
				if i > 0 && sel[i] == sel[i-1] && rapid.IntRange(0, 19).Draw(t, "split") != 0 {
					continue
				}
				rr = append(rr, byte(i>>8), byte(i), byte(sel[i]))
				nr++
			}
			a.FDSelect = append([]byte{3, byte(nr >> 8), byte(nr)}, rr...)
			a.FDSelect = append(a.FDSelect, byte(n>>8), byte(n))
		}
	} else {
		switch k := rapid.IntRange(0, 5).Draw(t, "preCharset"); {
		case k <= 2 && n <= len(ref.CFFPredefCharsets[k]):
			a.PreCharset = k
			for i := 0; i < n; i++ {
				names = append(names, ref.CFFStdStrings[ref.CFFPredefCharsets[k][i]])
			}
		default:
			names = gen.GlyphNames(t, n)
		}
	}
	out.FDSelect = func(g glyph.ID) int { return sel[g] }

	ids := make([]int, n)
	for i := range ids {
		if isCID {
			ids[i] = int(out.GIDToCID[i])
		} else {
			ids[i] = st.sid(t, names[i])
		}
	}
	if a.PreCharset < 0 {
		f := rapid.IntRange(0, 2).Draw(t, "charsetFormat")
		cs := []byte{byte(f)}
		for i := 1; i < n; {
			if f == 0 {
				cs = append(cs, byte(ids[i]>>8), byte(ids[i]))
				i++
				continue
			}
			k := i + 1
			for k < n && ids[k] == ids[k-1]+1 && (f == 2 || k-i < 256) && rapid.IntRange(0, 39).Draw(t, "split") != 0 {
				k++
			}
			cs = append(cs, byte(ids[i]>>8), byte(ids[i]))
			if f == 2 {
				cs = append(cs, byte((k-i-1)>>8))
			}
			cs = append(cs, byte(k-i-1))
			i = k
		}
		a.Charset = cs
	}
	if !isCID {
		enc := make([]glyph.ID, 256)
		if k := rapid.IntRange(0, 5).Draw(t, "encKind"); k <= 1 {
			a.PreEncoding = k
			enc = gen.StdEncoding(names, k)
		} else {
			perm := rapid.Permutation(codes256()).Draw(t, "codes")
			if rapid.Bool().Draw(t, "sortedCodes") {
				off := rapid.IntRange(0, 255).Draw(t, "off")
				for i := range perm {
					perm[i] = (i + off) & 255
				}
			}
			cnt := min(n-1, rapid.OneOf(rapid.IntRange(0, 10), rapid.IntRange(0, 255)).Draw(t, "nCodes"))
			f := byte(k & 1)
			var body []byte
			if f == 0 {
				for i := 0; i < cnt; i++ {
					body = append(body, byte(perm[i]))
				}
			} else {
				for i := 0; i < cnt; {
					j := i + 1
					for j < cnt && perm[j] == perm[j-1]+1 && rapid.IntRange(0, 19).Draw(t, "split") != 0 {
						j++
					}
					body = append(body, byte(perm[i]), byte(j-i-1))
					i = j
				}
				if len(body)/2 > 255 {
					body = nil
					cnt = 0
				}
			}
			cntByte := cnt
			if f == 1 {
				cntByte = len(body) / 2
			}
			for i := 0; i < cnt; i++ {
				enc[perm[i]] = glyph.ID(i + 1)
			}
			nSup := 0
			if rapid.Bool().Draw(t, "supplement") {
				f |= 128
				nSup = rapid.IntRange(0, min(10, 256-cnt)).Draw(t, "nSup")
			}
			a.Encoding = append([]byte{f, byte(cntByte)}, body...)
			if f&128 != 0 {
				a.Encoding = append(a.Encoding, byte(nSup))
				for i := 0; i < nSup; i++ {
					code := perm[cnt+i]
					g := rapid.IntRange(0, n-1).Draw(t, "supGid")
					enc[code] = glyph.ID(g)
					a.Encoding = append(a.Encoding, byte(code), byte(ids[g]>>8), byte(ids[g]))
				}
			}
		}
		out.Encoding = enc
	}

	// charstrings
	for i := 0; i < n; i++ {
		g := &cff.Glyph{}
		if !isCID {
			g.Name = names[i]
		}
		w := widths[sel[i]]
		var code []byte
		g.Width = w.def
		if rapid.Bool().Draw(t, "explicitWidth") {
			x := rapid.OneOf(rapid.IntRange(-107, 107), rapid.IntRange(0, 1200), rapid.IntRange(0, 10000)).Draw(t, "w")
			if w.nom+float64(x) < 0 {
				x = int(-w.nom) + 1 + rapid.IntRange(0, 100).Draw(t, "w")
			}
			switch {
			case x >= -107 && x <= 107:
				code = append(code, byte(x+139))
			case x >= -32768 && x < 32768:
				code = append(code, 28, byte(x>>8), byte(x))
			}
			g.Width = w.nom + float64(x)
		}
		if i%3 == 1 {
			x, y := i%100, (i*7)%100
			code = append(code, byte(x+139), byte(y+139), 21, 139+10, 139, 139, 139+20, 5)
			g.MoveTo(float64(x), float64(y))
			g.LineTo(float64(x+10), float64(y))
			g.LineTo(float64(x+10), float64(y+20))
		}
		code = append(code, 14)
		a.CharStrings = append(a.CharStrings, code)
		out.Glyphs = append(out.Glyphs, g)
	}
	if rapid.Bool().Draw(t, "gsubrs") {
		a.GSubrs = [][]byte{{11}, {139, 11}}
	}
	a.Strings = st.ss

	// layout
	a.HdrSize = rapid.SampledFrom([]int{4, 4, 4, 5, 7, 40}).Draw(t, "hdr")
	a.Long = rapid.Bool().Draw(t, "long")
	a.Explicit = rapid.Bool().Draw(t, "explicit")
	bigOff := rapid.Bool().Draw(t, "bigOff")
	a.OffSize = func(min int) int {
		if !bigOff {
			return min
		}
		return rapid.IntRange(min, 4).Draw(t, "offSize")
	}
	if rapid.Bool().Draw(t, "shuffle") {
		a.Order = rapid.Permutation(seqN(6+nFD)).Draw(t, "order")
	}
	if rapid.Bool().Draw(t, "gaps") {
		a.Gap = func() int { return rapid.SampledFrom([]int{0, 0, 1, 2, 5, 250}).Draw(t, "gap") }
	}
	if rapid.Bool().Draw(t, "opOrder") {
		a.OpOrder = func(n int) []int { return rapid.Permutation(seqN(n)).Draw(t, "ops") }
	}
	return a, want
}

func codes256() []int { return seqN(256) }

func seqN(n int) []int {
	r := make([]int, n)
	for i := range r {
		r[i] = i
	}
	return r
}
