// Package c05 checks the interpretation of Type 2 charstrings.
package c05

import (
	"bytes"
	"errors"
	"fmt"
	"math"
	"strings"
	"testing"

	xsfnt "golang.org/x/image/font/sfnt"
	"golang.org/x/image/math/fixed"
	"pgregory.net/rapid"

	"seehuhn.de/go/sfnt/cff"

	"seehuhn.de/go/sfnt/verif/gen"
	"seehuhn.de/go/sfnt/verif/pbt"
	"seehuhn.de/go/sfnt/verif/ref"
)

func TestMain(m *testing.M) { pbt.Main(m) }

var kinds = map[cff.GlyphOpType]byte{
	cff.OpMoveTo: 'm', cff.OpLineTo: 'l', cff.OpCurveTo: 'c', cff.OpHintMask: 'h', cff.OpCntrMask: 'k',
}

func asResult(g *cff.Glyph) *ref.T2Result {
	r := &ref.T2Result{HStem: g.HStem, VStem: g.VStem, Width: g.Width}
	for _, c := range g.Cmds {
		r.Ops = append(r.Ops, ref.T2Op{Kind: kinds[c.Op], Args: c.Args})
	}
	return r
}

func compare(want, got *ref.T2Result, tol float64) error {
	near := func(a, b float64) bool { return math.Abs(a-b) <= tol }
	seq := func(name string, a, b []float64) error {
		if len(a) != len(b) {
			return fmt.Errorf("%s: %d values, want %d", name, len(b), len(a))
		}
		for i := range a {
			if !near(a[i], b[i]) {
				return fmt.Errorf("%s[%d] = %.8f, want %.8f", name, i, b[i], a[i])
			}
		}
		return nil
	}
	if err := seq("HStem", want.HStem, got.HStem); err != nil {
		return err
	}
	if err := seq("VStem", want.VStem, got.VStem); err != nil {
		return err
	}
	if !near(want.Width, got.Width) {
		return fmt.Errorf("width %.8f, want %.8f", got.Width, want.Width)
	}
	if len(want.Ops) != len(got.Ops) {
		return fmt.Errorf("%d path elements, want %d", len(got.Ops), len(want.Ops))
	}
	for i := range want.Ops {
		if want.Ops[i].Kind != got.Ops[i].Kind {
			return fmt.Errorf("element %d is %c, want %c", i, got.Ops[i].Kind, want.Ops[i].Kind)
		}
		if err := seq(fmt.Sprintf("element %d (%c)", i, want.Ops[i].Kind), want.Ops[i].Args, got.Ops[i].Args); err != nil {
			return err
		}
	}
	return nil
}

const exact = 1e-9

// fontSpec collects the charstrings of a font.
type fontSpec struct {
	isCID  bool
	fds    []fdSpec
	global *subrStore
	codes  [][]byte
	sel    []int
	long   bool
}

type fdSpec struct {
	def, nom float64
	local    *subrStore
}

func (f *fontSpec) asm() *gen.CFFAsm {
	n := len(f.codes)
	a := &gen.CFFAsm{Name: "Test", PreCharset: -1, PreEncoding: 0, CharStrings: f.codes, GSubrs: f.global.subrs, Long: f.long}
	a.Charset = []byte{0}
	for i := 1; i < n; i++ {
		k := 33 + i
		a.Charset = append(a.Charset, byte(k>>8), byte(k))
	}
	for _, fd := range f.fds {
		x := gen.AsmFD{Subrs: fd.local.subrs, HasSubrs: len(fd.local.subrs) > 0}
		put := func(op int, v float64) {
			if v != 0 {
				b := gen.DictInt(int(v), 1)
				if v != math.Trunc(v) {
					b = gen.DictRealText(fmt.Sprintf("%.4f", v))
				}
				x.Private = append(x.Private, gen.DictOp{Op: op, Args: b})
			}
		}
		put(20, fd.def)
		put(21, fd.nom)
		a.FDs = append(a.FDs, x)
	}
	if f.isCID {
		a.ROS = append(append(gen.DictInt(34, 1), gen.DictInt(35, 1)...), gen.DictInt(0, 1)...)
		a.FDSelect = []byte{0}
		for _, k := range f.sel {
			a.FDSelect = append(a.FDSelect, byte(k))
		}
	}
	return a
}

func (f *fontSpec) env(gid int) *ref.T2Env {
	fd := &f.fds[f.sel[gid]]
	return &ref.T2Env{GSubrs: f.global.subrs, Subrs: fd.local.subrs, Default: fd.def, Nominal: fd.nom}
}

func drawFont(t *rapid.T, plain bool) *fontSpec {
	f := &fontSpec{long: true}
	f.isCID = !plain && rapid.IntRange(0, 2).Draw(t, "cid") == 0
	nFD := 1
	if f.isCID {
		nFD = rapid.IntRange(1, 4).Draw(t, "nFD")
	}
	large := rapid.IntRange(0, 9).Draw(t, "large") == 0
	for i := 0; i < nFD; i++ {
		fd := fdSpec{}
		if rapid.Bool().Draw(t, "haveDef") {
			fd.def = float64(rapid.IntRange(0, 20000).Draw(t, "def")) / 10
		}
		if rapid.Bool().Draw(t, "haveNom") {
			fd.nom = float64(rapid.IntRange(-5000, 20000).Draw(t, "nom")) / 8
		}
		fd.local = newStore(t, "local", large && i == 0)
		f.fds = append(f.fds, fd)
	}
	f.global = newStore(t, "global", large)
	f.codes = [][]byte{{14}}
	f.sel = []int{0}
	return f
}

// TestPrograms runs well-formed programs.
func TestPrograms(t *testing.T) {
	pbt.Check(t, 30000, 1500000, func(t *rapid.T, c *pbt.Case) {
		plain := rapid.IntRange(0, 3).Draw(t, "plain") == 0
		f := drawFont(t, plain)
		n := rapid.IntRange(1, 3).Draw(t, "numGlyphs")
		var want []*ref.T2Result
		want = append(want, &ref.T2Result{Width: f.fds[0].def})
		used := map[string]int{}
		var key []byte
		for i := 0; i < n; i++ {
			fd := rapid.IntRange(0, len(f.fds)-1).Draw(t, "fd")
			f.sel = append(f.sel, fd)
			p := genProgram(t, plain, f.fds[fd].def, f.fds[fd].nom)
			toks := subroutinize(t, p.toks, f.fds[fd].local, f.global, 0, used)
			if rapid.IntRange(0, 15).Draw(t, "chain") == 0 {
				r, err := ref.RunT2(flat(toks), f.env(i+1))
				if err != nil {
					t.Fatalf("HARNESS-ERROR: %v", err)
				}
				toks = chain(t, toks, f.fds[fd].local, f.global, 10-r.MaxDepth)
			}
			code := flat(toks)
			f.codes = append(f.codes, code)
			want = append(want, p.res)
			key = append(key, code...)
			for u := range p.uses {
				c.Class(u)
			}
		}
		b := f.asm().Bytes()
		for i, code := range f.codes {
			r, err := ref.RunT2(code, f.env(i))
			if err != nil {
				t.Fatalf("HARNESS-ERROR: reference rejects % x: %v", code, err)
			}
			if err := compare(want[i], r, exact); err != nil {
				t.Fatalf("HARNESS-ERROR: reference: %v\n% x\n%v\n%v\nlocal % x\nglobal % x", err, code, want[i], r, head(f.fds[f.sel[i]].local.subrs), head(f.global.subrs))
			}
			c.ClassIf(r.MaxStack == 48, "stack full")
			c.ClassIf(r.MaxDepth == 10, "nesting 10")
			c.ClassIf(r.MaxDepth >= 3, "nesting >= 3")
			c.ClassIf(r.HasWidth, "explicit width")
		}
		got, err := cff.Read(bytes.NewReader(b))
		if err != nil {
			t.Fatalf("cff.Read rejects valid charstrings: %v\n% x", err, f.codes)
		}
		if len(got.Glyphs) != len(f.codes) {
			t.Fatalf("%d glyphs", len(got.Glyphs))
		}
		for i, g := range got.Glyphs {
			if err := compare(want[i], asResult(g), exact); err != nil {
				t.Fatalf("glyph %d: %v\n% x", i, err, f.codes[i])
			}
		}
		for k := range used {
			c.Class(k + " subroutines")
		}
		for _, s := range []struct {
			name string
			s    *subrStore
		}{{"global", f.global}, {"local", f.fds[0].local}} {
			if used[s.name] > 0 {
				c.Class(fmt.Sprintf("%s bias %d used", s.name, ref.SubrBias(len(s.s.subrs))))
			}
		}
		c.ClassIf(f.isCID, "CID")
		if plain && len(f.global.subrs) <= 40000 && len(f.fds[0].local.subrs) <= 40000 {
			c.Class("compared with x/image")
			compareX(t, b, want)
		}
		if len(key) > 4 {
			c.NonTrivial(key)
		}
		c.Sample(func() string { return fmt.Sprintf("% x", f.codes) })
	})
}

func compareX(t *rapid.T, b []byte, want []*ref.T2Result) {
	n := len(want)
	tabs := ref.MinimalTables(n)
	delete(tabs, "glyf")
	delete(tabs, "loca")
	tabs["maxp"] = append([]byte{0, 0, 0x50, 0}, ref.P16(n)...)
	tabs["CFF "] = b
	f, err := xsfnt.Parse(ref.BuildContainer(0x4F54544F, tabs))
	if err != nil {
		t.Fatalf("HARNESS-ERROR: x/image rejects the font: %v", err)
	}
	for i, w := range want {
		segs, err := f.LoadGlyph(nil, xsfnt.GlyphIndex(i), fixed.Int26_6(1000), nil)
		if err != nil {
			t.Fatalf("HARNESS-ERROR: x/image rejects glyph %d: %v", i, err)
		}
		var a, g [][]float64
		for _, s := range segs {
			row := []float64{float64(s.Op)}
			for k := 0; k < []int{1, 1, 2, 3}[s.Op]; k++ {
				row = append(row, float64(s.Args[k].X), 0-float64(s.Args[k].Y))
			}
			a = append(a, row)
		}
		var fx, fy, x, y float64
		closePath := func() {
			if x != fx || y != fy {
				g = append(g, []float64{1, fx, fy})
			}
		}
		for _, o := range w.Ops {
			k := len(o.Args)
			switch o.Kind {
			case 'm':
				closePath()
				g = append(g, append([]float64{0}, o.Args...))
				fx, fy = o.Args[0], o.Args[1]
				x, y = fx, fy
			case 'l':
				g = append(g, append([]float64{1}, o.Args...))
				x, y = o.Args[0], o.Args[1]
			case 'c':
				g = append(g, append([]float64{3}, o.Args...))
				x, y = o.Args[k-2], o.Args[k-1]
			}
		}
		closePath()
		if fmt.Sprint(a) != fmt.Sprint(g) {
			t.Fatalf("HARNESS-ERROR: x/image disagrees about glyph %d:\n%v\n%v", i, a, g)
		}
	}
}

// single builds a font around one charstring.
func single(code []byte, local, global *subrStore) *fontSpec {
	return &fontSpec{fds: []fdSpec{{def: 500, nom: 600, local: local}}, global: global, codes: [][]byte{{14}, code, {14}}, sel: []int{0, 0, 0}, long: true}
}

// judge compares the library's verdict on a font with the reference.
func judge(t interface{ Fatalf(string, ...any) }, c *pbt.Case, f *fontSpec, gid int) string {
	code := f.codes[gid]
	r, err := ref.RunT2(code, f.env(gid))
	if r.Gray {
		return "gray: arithmetic"
	}
	b := f.asm().Bytes()
	got, gotErr := cff.Read(bytes.NewReader(b))
	if err == nil {
		if gotErr != nil {
			t.Fatalf("cff.Read rejects a valid charstring: %v\n% x", gotErr, code)
		}
		if err := compare(r, asResult(got.Glyphs[gid]), exact); err != nil {
			t.Fatalf("glyph %d: %v\n% x", gid, err, code)
		}
		return "valid"
	}
	var e *ref.T2Error
	if !errors.As(err, &e) {
		t.Fatalf("HARNESS-ERROR: %v", err)
	}
	if e.Kind == "other" {
		return "gray: other"
	}
	if gotErr == nil {
		t.Fatalf("cff.Read accepts a malformed charstring (%s):\n% x\nlocal % x\nglobal % x", e.Msg, code,
			head(f.fds[0].local.subrs), head(f.global.subrs))
	}
	return e.Kind
}

func head(ss [][]byte) [][]byte {
	var res [][]byte
	for _, s := range ss {
		if !bytes.Equal(s, filler) && len(res) < 20 {
			res = append(res, s)
		}
	}
	return res
}

// TestMutants changes valid programs.
func TestMutants(t *testing.T) {
	pbt.Check(t, 40000, 3000000, func(t *rapid.T, c *pbt.Case) {
		f := drawFont(t, false)
		f.isCID = false
		f.fds = f.fds[:1]
		fd := &f.fds[0]
		p := genProgram(t, false, fd.def, fd.nom)
		used := map[string]int{}
		toks := p.toks
		if rapid.Bool().Draw(t, "subrs") {
			toks = subroutinize(t, toks, fd.local, f.global, 0, used)
		}
		nm := rapid.IntRange(1, 3).Draw(t, "mutations")
		for ; nm > 0 && len(toks) > 0; nm-- {
			i := rapid.IntRange(0, len(toks)-1).Draw(t, "at")
			switch rapid.IntRange(0, 9).Draw(t, "mutation") {
			case 0, 1: // delete a token
				toks = append(append([]tok{}, toks[:i]...), toks[i+1:]...)
			case 2: // duplicate a token
				toks = append(append(append([]tok{}, toks[:i+1]...), toks[i]), toks[i+1:]...)
			case 3: // swap two tokens
				j := rapid.IntRange(0, len(toks)-1).Draw(t, "with")
				toks = append([]tok{}, toks...)
				toks[i], toks[j] = toks[j], toks[i]
			case 4: // change a byte
				toks = append([]tok{}, toks...)
				b := append([]byte{}, toks[i].b...)
				if len(b) > 0 {
					b[rapid.IntRange(0, len(b)-1).Draw(t, "byte")] = rapid.Byte().Draw(t, "val")
				}
				toks[i].b = b
			case 5: // truncate
				toks = toks[:i]
			case 6: // insert an operator
				o := rapid.SampledFrom([]int{5, 6, 7, 8, 24, 25, 26, 27, 30, 31, 1, 3, 18, 23, 19, 20, 21, 22, 4, 10, 29, 11, 14, 0, 2, 9, 13, 15, 16, 17,
					0x0c03, 0x0c04, 0x0c05, 0x0c09, 0x0c0a, 0x0c0b, 0x0c0c, 0x0c0e, 0x0c0f, 0x0c12, 0x0c14, 0x0c15, 0x0c16, 0x0c18, 0x0c1a,
					0x0c1b, 0x0c1c, 0x0c1d, 0x0c1e, 0x0c22, 0x0c23, 0x0c24, 0x0c25, 0x0c00, 0x0c01, 0x0c02, 0x0c06, 0x0cff}).Draw(t, "newOp")
				toks = append(append(append([]tok{}, toks[:i]...), tok{b: op(o)}), toks[i:]...)
			case 7: // insert numbers
				k := rapid.SampledFrom([]int{1, 1, 2, 4, 40, 44, 48, 49}).Draw(t, "k")
				var b []byte
				for ; k > 0; k-- {
					b = append(b, numForms(float64(rapid.IntRange(-110, 200).Draw(t, "v")))[0]...)
				}
				toks = append(append(append([]tok{}, toks[:i]...), tok{b: b}), toks[i:]...)
			case 8: // damage a subroutine
				s := f.global
				if rapid.Bool().Draw(t, "local") {
					s = fd.local
				}
				for k := range s.subrs {
					if len(s.subrs[k]) > 1 && rapid.Bool().Draw(t, "this") {
						b := append([]byte{}, s.subrs[k]...)
						if rapid.Bool().Draw(t, "cut") {
							b = b[:rapid.IntRange(0, len(b)-1).Draw(t, "len")]
						} else {
							b[rapid.IntRange(0, len(b)-1).Draw(t, "byte")] = rapid.Byte().Draw(t, "val")
						}
						s.subrs[k] = b
						break
					}
				}
			case 9: // replace a number
				toks = append([]tok{}, toks...)
				toks[i].b = numForms(float64(rapid.IntRange(-1200, 1200).Draw(t, "v")))[0]
			}
		}
		f.codes = append(f.codes, flat(toks), []byte{14})
		f.sel = []int{0, 0, 0}
		kind := judge(t, c, f, 1)
		c.Class("verdict " + kind)
		if !strings.HasPrefix(kind, "gray") {
			c.NonTrivial(f.codes[1])
		}
	})
}
