package c05

import (
	"fmt"
	"math"

	"pgregory.net/rapid"

	"seehuhn.de/go/sfnt/verif/ref"
)

// tok is an indivisible piece of a charstring: a number, or an operator
// (with mask bytes).
type tok struct {
	b      []byte
	before int // stack depth before the token
	end    bool
	depth  int // subroutine nesting needed
}

func depthOf(toks []tok) int {
	d := 0
	for _, k := range toks {
		d = max(d, k.depth)
	}
	return d
}

// prog generates a charstring together with the expected result.
type prog struct {
	t     *rapid.T
	toks  []tok
	st    []float64
	reg   [32]float64
	set   [32]bool
	plain bool // no arithmetic, integers only, no flex and flex1
	arith int  // 0..10: how often to use arithmetic
	res   *ref.T2Result
	x, y  float64
	uses  map[string]bool
}

func (g *prog) add(b []byte) {
	g.toks = append(g.toks, tok{b: b, before: len(g.st)})
}

func op(code int, extra ...byte) []byte {
	if code > 255 {
		return append([]byte{byte(code >> 8), byte(code)}, extra...)
	}
	return append([]byte{byte(code)}, extra...)
}

// numForms returns the legal encodings of v.
func numForms(v float64) [][]byte {
	var res [][]byte
	if v == math.Trunc(v) {
		i := int(v)
		switch {
		case i >= -107 && i <= 107:
			res = append(res, []byte{byte(i + 139)})
		case i >= 108 && i <= 1131:
			res = append(res, []byte{byte(247 + (i-108)>>8), byte(i - 108)})
		case i <= -108 && i >= -1131:
			res = append(res, []byte{byte(251 + (-i-108)>>8), byte(-i - 108)})
		}
		if i >= -32768 && i <= 32767 {
			res = append(res, []byte{28, byte(i >> 8), byte(i)})
		}
	}
	f := int64(math.Round(v * 65536))
	res = append(res, []byte{255, byte(f >> 24), byte(f >> 16), byte(f >> 8), byte(f)})
	return res
}

func onGrid(v float64) bool {
	return v >= -32768 && v < 32768 && v*65536 == math.Trunc(v*65536)
}

func (g *prog) lit(v float64) {
	if !onGrid(v) {
		panic(fmt.Sprintf("HARNESS-ERROR: %v is not a 16.16 number", v))
	}
	ff := numForms(v)
	k := 0
	if g.plain {
		if len(ff) == 1 {
			panic("HARNESS-ERROR: fraction in plain program")
		}
		ff = ff[:len(ff)-1]
	}
	if rapid.IntRange(0, 4).Draw(g.t, "otherForm") == 0 {
		k = rapid.IntRange(0, len(ff)-1).Draw(g.t, "form")
	}
	g.add(ff[k])
	g.push(v)
}

func (g *prog) push(v float64) {
	g.st = append(g.st, v)
	if len(g.st) > 48 {
		panic("HARNESS-ERROR: generated stack overflow")
	}
	g.res.MaxStack = max(g.res.MaxStack, len(g.st))
}

// do emits an operator which pops n values and pushes the given ones.
func (g *prog) do(code, n int, out ...float64) {
	g.add(op(code))
	g.st = g.st[:len(g.st)-n]
	for _, v := range out {
		g.push(v)
	}
	g.uses[fmt.Sprintf("arith %d", code&255)] = true
}

// val pushes v, possibly via arithmetic operators.
func (g *prog) val(v float64, depth int) {
	room := 48 - len(g.st)
	t := g.t
	if g.plain || depth <= 0 || rapid.IntRange(1, 10).Draw(t, "useArith") > g.arith {
		g.lit(v)
		return
	}
	small := func(label string) float64 {
		if rapid.Bool().Draw(t, "frac") {
			return float64(rapid.IntRange(-400*65536, 400*65536).Draw(t, label)) / 65536
		}
		return float64(rapid.IntRange(-1200, 1200).Draw(t, label))
	}
	d := depth - 1
	switch k := rapid.IntRange(0, 22).Draw(t, "arithKind"); {
	case k == 0 && room >= 2: // add
		a := small("a")
		if onGrid(v - a) {
			g.val(a, d)
			g.val(v-a, d)
			g.do(0x0c0a, 2, v)
			return
		}
	case k == 1 && room >= 2: // sub
		a := small("a")
		if onGrid(v + a) {
			g.val(v+a, d)
			g.val(a, d)
			g.do(0x0c0b, 2, v)
			return
		}
	case k == 2 && room >= 2: // mul
		a := rapid.SampledFrom([]float64{2, 0.5, -1, 1, 4, 0.25, -8, 3, 10, 1.0 / 65536, 256}).Draw(t, "f")
		w := v / a
		if onGrid(w) && w*a == v {
			if rapid.Bool().Draw(t, "swap") {
				a, w = w, a
			}
			g.val(a, d)
			g.val(w, d)
			g.do(0x0c18, 2, v)
			return
		}
	case k == 3 && room >= 2: // div
		a := rapid.SampledFrom([]float64{2, 0.5, -1, 1, 4, 0.25, -8, 3, 10, 7}).Draw(t, "f")
		w := v * a
		if onGrid(w) && w/a == v {
			g.val(w, d)
			g.val(a, d)
			g.do(0x0c0c, 2, v)
			return
		}
	case k == 4 && onGrid(-v): // neg
		g.val(-v, d)
		g.do(0x0c0e, 1, v)
		return
	case k == 5 && v >= 0: // abs
		if rapid.Bool().Draw(t, "neg") {
			g.val(-v, d)
		} else {
			g.val(v, d)
		}
		g.do(0x0c09, 1, v)
		return
	case k == 6 && v >= 0 && onGrid(v*v): // sqrt
		g.val(v*v, d)
		g.do(0x0c1a, 1, v)
		return
	case k == 7 && room >= 2: // drop
		g.val(v, d)
		g.val(small("junk"), d)
		g.do(0x0c12, 1)
		return
	case k == 8 && room >= 2: // random drop
		g.val(v, d)
		g.add(op(0x0c17))
		g.push(0.5)
		g.do(0x0c12, 1)
		return
	case k == 9 && room >= 3: // exch drop
		g.val(small("junk"), d)
		g.val(v, d)
		g.do(0x0c1c, 2, v, g.st[len(g.st)-2])
		g.do(0x0c12, 1)
		return
	case (k == 10 || k == 11): // index
		var cand []int
		for i := len(g.st) - 1; i >= 0; i-- {
			if g.st[i] == v {
				cand = append(cand, len(g.st)-1-i)
			}
		}
		if len(cand) > 0 {
			i := rapid.SampledFrom(cand).Draw(t, "idx")
			if i == 0 && rapid.Bool().Draw(t, "dup") {
				g.add(op(0x0c1b))
				g.push(v)
				g.uses["arith 27"] = true
				return
			}
			k := float64(i)
			if i == 0 && rapid.Bool().Draw(t, "negIdx") {
				k = -float64(rapid.IntRange(1, 200).Draw(t, "neg"))
			}
			g.val(k, d)
			g.do(0x0c1d, 1, v)
			return
		}
	case k == 12 && room >= 2: // dup
		if w := v / 2; onGrid(w) {
			g.val(w, d)
			g.add(op(0x0c1b))
			g.push(w)
			g.do(0x0c0a, 2, v)
			g.uses["arith 27"] = true
			return
		}
	case k == 13 || k == 14: // get
		var cand []int
		for i := range g.reg {
			if g.set[i] && g.reg[i] == v {
				cand = append(cand, i)
			}
		}
		if len(cand) > 0 {
			g.val(float64(rapid.SampledFrom(cand).Draw(t, "reg")), 0)
			g.do(0x0c15, 1, v)
			return
		}
	case (k == 15 || k == 16) && room >= 3: // put ... get
		i := rapid.OneOf(rapid.IntRange(0, 31), rapid.SampledFrom([]int{0, 31})).Draw(t, "reg")
		g.val(v, d)
		if rapid.Bool().Draw(t, "keep") {
			g.add(op(0x0c1b))
			g.push(v)
			g.val(float64(i), d)
			g.do(0x0c14, 2)
			g.reg[i], g.set[i] = v, true
			return
		}
		g.val(float64(i), d)
		g.do(0x0c14, 2)
		g.reg[i], g.set[i] = v, true
		g.lit(float64(i))
		g.do(0x0c15, 1, v)
		return
	case k == 17 && room >= 4: // ifelse
		a, b := small("v1"), small("v2")
		switch rapid.IntRange(0, 3).Draw(t, "eqv") {
		case 0:
			b = a
		case 1:
			b = a + 1.0/65536
		}
		other := small("other")
		if a <= b {
			g.val(v, d)
			g.val(other, d)
		} else {
			g.val(other, d)
			g.val(v, d)
		}
		g.val(a, d)
		g.val(b, d)
		g.do(0x0c16, 4, v)
		return
	case k <= 21 && k >= 18 && (v == 0 || v == 1) && room >= 2: // logic
		bit := func(b bool) {
			x := 0.0
			if b {
				x = rapid.SampledFrom([]float64{1, -1, 1.0 / 65536, 300}).Draw(t, "true")
			}
			g.val(x, d)
		}
		a, b := rapid.Bool().Draw(t, "a"), rapid.Bool().Draw(t, "b")
		res := v == 1
		switch k {
		case 18: // and
			if (a && b) != res {
				a, b = res, res
			}
			bit(a)
			bit(b)
			g.do(0x0c03, 2, v)
		case 19:
			if (a || b) != res {
				a, b = res, false
			}
			bit(a)
			bit(b)
			g.do(0x0c04, 2, v)
		case 20:
			bit(!res)
			g.do(0x0c05, 1, v)
		case 21:
			x := small("x")
			g.val(x, d)
			if res {
				g.val(x, d)
			} else {
				g.val(x+rapid.SampledFrom([]float64{1, -1, 1.0 / 65536, 0.5}).Draw(t, "diff"), d)
			}
			g.do(0x0c0f, 2, v)
		}
		return
	case k == 22 && room >= 5: // roll, with drops
		a, b := small("a"), small("b")
		g.val(a, d)
		g.val(v, d)
		g.val(b, d)
		// a v b: roll by 1 gives b a v, by -2 the same
		g.val(3, 0)
		g.val(rapid.SampledFrom([]float64{1, -2, 4, -5, 100, -98}).Draw(t, "j"), 0)
		if len(g.st) > 48 {
			panic("HARNESS-ERROR: overflow")
		}
		g.do(0x0c1e, 5, b, a, v)
		// now drop the two values below
		g.do(0x0c1c, 2, v, a)
		g.do(0x0c12, 1)
		g.do(0x0c1c, 2, v, b)
		g.do(0x0c12, 1)
		return
	}
	g.lit(v)
}

// args pushes operands.
func (g *prog) args(vv []float64) {
	t := g.t
	base := len(g.st)
	depth := 0
	if !g.plain && g.arith > 0 {
		depth = rapid.IntRange(1, 3).Draw(t, "depth")
	}
	if depth > 0 && len(vv) >= 2 && base+len(vv) <= 46 && rapid.IntRange(1, 30).Draw(t, "useRoll") <= g.arith {
		// push in a rotated order
		n := rapid.IntRange(2, len(vv)).Draw(t, "rollN")
		j := rapid.IntRange(-2*n, 2*n).Draw(t, "rollJ")
		for _, v := range vv[:len(vv)-n] {
			g.val(v, depth)
		}
		top := vv[len(vv)-n:]
		rot := make([]float64, n)
		for k := range rot {
			// element k is moved to position k+j
			rot[k] = top[((k+j)%n+n)%n]
		}
		for _, v := range rot {
			g.val(v, depth)
		}
		g.val(float64(n), min(depth, 1))
		g.lit(float64(j))
		g.add(op(0x0c1e))
		g.uses["arith 30"] = true
		g.st = append(g.st[:base], vv...)
		return
	}
	for i := 0; i < len(vv); i++ {
		if depth > 0 && i+1 < len(vv) && len(g.st) <= 45 && rapid.IntRange(1, 40).Draw(t, "useExch") <= g.arith {
			g.val(vv[i+1], depth)
			g.val(vv[i], depth)
			g.do(0x0c1c, 2, vv[i], vv[i+1])
			i++
			continue
		}
		if len(g.st) >= 47 {
			g.lit(vv[i])
		} else {
			g.val(vv[i], depth)
		}
	}
	for i, v := range vv {
		if g.st[base+i] != v {
			panic(fmt.Sprintf("HARNESS-ERROR: stack %v instead of %v", g.st[base:], vv))
		}
	}
}

// clear emits a stack clearing operator with the operands now on the stack.
func (g *prog) clear(code int, extra ...byte) {
	g.add(op(code, extra...))
	g.st = g.st[:0]
	g.uses[fmt.Sprintf("op %d", code)] = true
}

func (g *prog) num() float64 {
	t := g.t
	if g.plain {
		switch rapid.IntRange(0, 5).Draw(t, "numKind") {
		case 0:
			return float64(rapid.SampledFrom([]int{0, 107, 108, -107, -108, 1131, 1132, -1131, -1132, 363, 364, -363, -364}).Draw(t, "v"))
		}
		return float64(rapid.IntRange(-1200, 1200).Draw(t, "v"))
	}
	switch rapid.IntRange(0, 7).Draw(t, "numKind") {
	case 0:
		return float64(rapid.IntRange(-300*65536, 300*65536).Draw(t, "v")) / 65536
	case 1:
		return float64(rapid.SampledFrom([]int{0, 1, 107, 108, -107, -108, 1131, 1132, -1131, -1132, 363, 364, -363, -364}).Draw(t, "v"))
	case 2:
		return float64(rapid.IntRange(-6000, 6000).Draw(t, "v"))
	case 3:
		return float64(rapid.IntRange(-1, 2).Draw(t, "v"))
	case 4:
		if n := len(g.st); n > 0 {
			v := g.st[rapid.IntRange(0, n-1).Draw(t, "same")]
			if math.Abs(v) < 30000 {
				return v
			}
		}
	}
	return float64(rapid.IntRange(-300, 300).Draw(t, "v"))
}

func (g *prog) nums(n int) []float64 {
	r := make([]float64, n)
	for i := range r {
		r[i] = g.num()
	}
	return r
}

func (g *prog) line(dx, dy float64) {
	g.x += dx
	g.y += dy
	g.res.Ops = append(g.res.Ops, ref.T2Op{Kind: 'l', Args: []float64{g.x, g.y}})
}

func (g *prog) curve(a, b, c, d, e, f float64) {
	x1, y1 := g.x+a, g.y+b
	x2, y2 := x1+c, y1+d
	g.x, g.y = x2+e, y2+f
	g.res.Ops = append(g.res.Ops, ref.T2Op{Kind: 'c', Args: []float64{x1, y1, x2, y2, g.x, g.y}})
}

func (g *prog) move(dx, dy float64) {
	g.x += dx
	g.y += dy
	g.res.Ops = append(g.res.Ops, ref.T2Op{Kind: 'm', Args: []float64{g.x, g.y}})
}

// count draws a number of repetitions, at most m.
func (g *prog) count(m int) int {
	switch rapid.IntRange(0, 9).Draw(g.t, "countKind") {
	case 0:
		return m
	case 1:
		return rapid.IntRange(1, m).Draw(g.t, "count")
	}
	return rapid.IntRange(1, min(m, 3)).Draw(g.t, "count")
}

// path emits one path operator.
func (g *prog) path(code int) {
	t := g.t
	switch code {
	case 5:
		a := g.nums(2 * g.count(24))
		g.args(a)
		for i := 0; i < len(a); i += 2 {
			g.line(a[i], a[i+1])
		}
	case 6, 7:
		a := g.nums(g.count(48))
		g.args(a)
		for i, v := range a {
			if (code == 6) == (i%2 == 0) {
				g.line(v, 0)
			} else {
				g.line(0, v)
			}
		}
	case 8:
		a := g.nums(6 * g.count(8))
		g.args(a)
		for ; len(a) > 0; a = a[6:] {
			g.curve(a[0], a[1], a[2], a[3], a[4], a[5])
		}
	case 24: // rcurveline
		a := g.nums(6*g.count(7) + 2)
		g.args(a)
		for ; len(a) > 2; a = a[6:] {
			g.curve(a[0], a[1], a[2], a[3], a[4], a[5])
		}
		g.line(a[0], a[1])
	case 25: // rlinecurve
		a := g.nums(2*g.count(21) + 6)
		g.args(a)
		for ; len(a) > 6; a = a[2:] {
			g.line(a[0], a[1])
		}
		g.curve(a[0], a[1], a[2], a[3], a[4], a[5])
	case 26, 27:
		k := g.count(11)
		var extra []float64
		if rapid.Bool().Draw(t, "extra") {
			extra = g.nums(1)
		} else if k == 11 {
			k = rapid.IntRange(11, 12).Draw(t, "k")
		}
		a := append(extra, g.nums(4*k)...)
		g.args(a)
		e := 0.0
		if len(extra) > 0 {
			e, a = a[0], a[1:]
		}
		for ; len(a) > 0; a = a[4:] {
			if code == 26 { // vv
				g.curve(e, a[0], a[1], a[2], 0, a[3])
			} else {
				g.curve(a[0], e, a[1], a[2], a[3], 0)
			}
			e = 0
		}
	case 30, 31:
		k := g.count(11)
		a := g.nums(4 * k)
		last := 0.0
		if rapid.Bool().Draw(t, "extra") {
			last = g.num()
			a = append(a, last)
		} else if k == 11 && rapid.Bool().Draw(t, "full") {
			a = append(a, g.nums(4)...)
		}
		g.args(a)
		h := code == 31
		for ; len(a) >= 4; a = a[4:] {
			z := 0.0
			if len(a) < 8 {
				z = last
			}
			if h {
				g.curve(a[0], 0, a[1], a[2], z, a[3])
			} else {
				g.curve(0, a[0], a[1], a[2], a[3], z)
			}
			h = !h
		}
	case 0x0c23:
		a := g.nums(13)
		g.args(a)
		g.curve(a[0], a[1], a[2], a[3], a[4], a[5])
		g.curve(a[6], a[7], a[8], a[9], a[10], a[11])
	case 0x0c22:
		a := g.nums(7)
		g.args(a)
		g.curve(a[0], 0, a[1], a[2], a[3], 0)
		g.curve(a[4], 0, a[5], -a[2], a[6], 0)
	case 0x0c24:
		a := g.nums(9)
		g.args(a)
		g.curve(a[0], a[1], a[2], a[3], a[4], 0)
		g.curve(a[5], 0, a[6], a[7], a[8], -(a[1] + a[3] + a[7]))
	case 0x0c25:
		a := g.nums(11)
		if rapid.IntRange(0, 3).Draw(t, "tie") == 0 {
			// |dx| = |dy|
			dx := a[0] + a[2] + a[4] + a[6] + a[8]
			s := dx - (a[1] + a[3] + a[5] + a[7])
			if onGrid(s) && math.Abs(s) < 30000 {
				a[9] = s
			}
		}
		g.args(a)
		dx := a[0] + a[2] + a[4] + a[6] + a[8]
		dy := a[1] + a[3] + a[5] + a[7] + a[9]
		g.curve(a[0], a[1], a[2], a[3], a[4], a[5])
		if math.Abs(dx) > math.Abs(dy) {
			g.curve(a[6], a[7], a[8], a[9], a[10], -dy)
		} else {
			g.curve(a[6], a[7], a[8], a[9], -dx, a[10])
		}
	}
	g.clear(code)
}

// drawOps lists all path construction operators except moves.
var drawOps = []int{5, 6, 7, 8, 24, 25, 26, 27, 30, 31, 0x0c22, 0x0c23, 0x0c24, 0x0c25}

// glyph emits a complete charstring.
func genProgram(t *rapid.T, plain bool, def, nom float64) *prog {
	g := &prog{t: t, plain: plain, res: &ref.T2Result{Width: def, Used: map[string]int{}}, uses: map[string]bool{}}
	if !plain {
		g.arith = rapid.SampledFrom([]int{0, 0, 1, 3, 6, 9}).Draw(t, "arith")
	}
	// the width is taken by the first stack clearing operator
	pending := rapid.Bool().Draw(t, "explicitWidth")
	wid := func() []float64 {
		if !pending {
			return nil
		}
		pending = false
		w := float64(rapid.IntRange(-300, 1000).Draw(t, "width"))
		if !plain && rapid.IntRange(0, 2).Draw(t, "fracWidth") == 0 {
			w += float64(rapid.IntRange(0, 65535).Draw(t, "wf")) / 65536
		}
		g.res.Width = nom + w
		g.res.HasWidth = true
		return []float64{w}
	}
	stemArgs := func(n int, dst *[]float64) []float64 {
		a := make([]float64, 2*n)
		pos := 0.0
		for i := range a {
			v := float64(rapid.IntRange(-120, 300).Draw(t, "stem"))
			if !plain && rapid.IntRange(0, 9).Draw(t, "fracStem") == 0 {
				v += float64(rapid.IntRange(0, 65535).Draw(t, "sf")) / 65536
			}
			a[i] = v
			pos += v
			*dst = append(*dst, pos)
		}
		return a
	}
	hasMasks := false
	nStems := 0
	if rapid.Bool().Draw(t, "hints") {
		hasMasks = rapid.Bool().Draw(t, "masks")
		nh := rapid.OneOf(rapid.IntRange(0, 4), rapid.IntRange(0, 30)).Draw(t, "nh")
		nv := rapid.OneOf(rapid.IntRange(0, 4), rapid.IntRange(0, 30)).Draw(t, "nv")
		group := func(n int, base int, dst *[]float64, last bool) {
			for n > 0 {
				free := 24
				if pending {
					free = 23
				}
				k := min(n, free)
				if rapid.IntRange(0, 3).Draw(t, "splitStems") == 0 {
					k = rapid.IntRange(1, k).Draw(t, "stemGroup")
				}
				n -= k
				w := wid()
				g.args(append(w, stemArgs(k, dst)...))
				if last && n == 0 {
					return // implicit vstem
				}
				g.clear(base)
			}
		}
		hop, vop := 1, 3
		if hasMasks {
			hop, vop = 18, 23
		}
		implicit := hasMasks && nv > 0 && rapid.Bool().Draw(t, "implicit")
		group(nh, hop, &g.res.HStem, false)
		group(nv, vop, &g.res.VStem, implicit)
		nStems = nh + nv
		if nStems == 0 {
			hasMasks = false
		}
		if implicit {
			g.uses["implicit vstem"] = true
		}
	}
	mask := func(code int) {
		if pending {
			g.args(wid())
		}
		k := (nStems + 7) / 8
		a := make([]byte, k)
		f := make([]float64, k)
		for i := range a {
			a[i] = rapid.Byte().Draw(t, "mask")
			f[i] = float64(a[i])
		}
		kind := byte('h')
		if code == 20 {
			kind = 'k'
		}
		g.res.Ops = append(g.res.Ops, ref.T2Op{Kind: kind, Args: f})
		g.clear(code, a...)
	}
	if hasMasks {
		if rapid.Bool().Draw(t, "cntr") {
			mask(20)
		}
		if len(g.st) > 0 || rapid.Bool().Draw(t, "hintmask") {
			mask(19)
		}
	}
	for k := rapid.IntRange(0, 3).Draw(t, "subpaths"); k > 0; k-- {
		w := wid()
		switch rapid.IntRange(0, 2).Draw(t, "move") {
		case 0:
			a := g.nums(2)
			g.args(append(w, a...))
			g.move(a[0], a[1])
			g.clear(21)
		case 1:
			a := g.nums(1)
			g.args(append(w, a...))
			g.move(a[0], 0)
			g.clear(22)
		case 2:
			a := g.nums(1)
			g.args(append(w, a...))
			g.move(0, a[0])
			g.clear(4)
		}
		for m := rapid.IntRange(0, 5).Draw(t, "ops"); m > 0; m-- {
			if math.Abs(g.x) > 1e6 || math.Abs(g.y) > 1e6 {
				break
			}
			code := rapid.SampledFrom(drawOps).Draw(t, "op")
			if plain && (code == 0x0c23 || code == 0x0c25) {
				code = 0x0c22
			}
			g.path(code)
			if hasMasks && rapid.IntRange(0, 6).Draw(t, "mid") == 0 {
				mask(19 + rapid.IntRange(0, 1).Draw(t, "midKind"))
			}
			if !plain && rapid.IntRange(0, 30).Draw(t, "dot") == 0 {
				g.clear(0x0c00)
			}
		}
	}
	if pending {
		g.args(wid())
	}
	g.add(op(14))
	g.toks[len(g.toks)-1].end = true
	g.st = g.st[:0]
	return g
}

// subrStore holds one subroutine INDEX under construction.
type subrStore struct {
	subrs [][]byte
	free  []int // preferred free slots
	index map[string]int
}

func newStore(t *rapid.T, label string, large bool) *subrStore {
	n := 0
	switch rapid.IntRange(0, 9).Draw(t, label+"Kind") {
	case 0, 1:
		n = rapid.IntRange(0, 3).Draw(t, label)
	case 2, 3:
		n = rapid.SampledFrom([]int{1239, 1240, 1241}).Draw(t, label)
	case 4:
		if large {
			n = rapid.SampledFrom([]int{33899, 33900, 33901, 65535}).Draw(t, label)
		} else {
			n = rapid.IntRange(200, 1300).Draw(t, label)
		}
	default:
		n = rapid.IntRange(3, 30).Draw(t, label)
	}
	s := &subrStore{subrs: make([][]byte, n), index: map[string]int{}}
	for i := range s.subrs {
		s.subrs[i] = filler
	}
	if n > 0 {
		seen := map[int]bool{}
		for _, k := range []int{0, n - 1, n / 2, 107, 1131, 214, 215} {
			if k < n && !seen[k] {
				seen[k] = true
				s.free = append(s.free, k)
			}
		}
		for i := 0; i < 40; i++ {
			k := rapid.IntRange(0, n-1).Draw(t, "slot")
			if !seen[k] {
				seen[k] = true
				s.free = append(s.free, k)
			}
		}
	}
	return s
}

var filler = []byte{11}

func (s *subrStore) put(t *rapid.T, body []byte) int {
	if k, ok := s.index[string(body)]; ok {
		return k
	}
	if len(s.free) == 0 {
		return -1
	}
	i := rapid.IntRange(0, len(s.free)-1).Draw(t, "slot")
	k := s.free[i]
	s.free = append(s.free[:i], s.free[i+1:]...)
	s.subrs[k] = body
	s.index[string(body)] = k
	return k
}

func flat(toks []tok) []byte {
	var b []byte
	for _, k := range toks {
		b = append(b, k.b...)
	}
	return b
}

func callTok(s *subrStore, code, k, before int, form int) tok {
	v := float64(k - ref.SubrBias(len(s.subrs)))
	ff := numForms(v)
	b := append([]byte{}, ff[form%len(ff)]...)
	return tok{b: append(b, byte(code)), before: before}
}

// subroutinize moves parts of the program into subroutines.
func subroutinize(t *rapid.T, toks []tok, local, global *subrStore, depth int, used map[string]int) []tok {
	for k := rapid.IntRange(0, 3).Draw(t, "calls"); k > 0 && len(toks) > 1; k-- {
		i := rapid.IntRange(0, len(toks)-1).Draw(t, "from")
		j := rapid.IntRange(i, min(len(toks), i+30)).Draw(t, "to")
		if rapid.IntRange(0, 4).Draw(t, "toEnd") == 0 {
			j = len(toks)
		}
		if toks[i].before >= 48 {
			continue
		}
		s, code, kind := local, 10, "local"
		if rapid.Bool().Draw(t, "global") {
			s, code, kind = global, 29, "global"
		}
		body := append([]tok{}, toks[i:j]...)
		if depth < 9 {
			body = subroutinize(t, body, local, global, depth+1, used)
		}
		inner := depthOf(body)
		if inner >= 10 {
			continue
		}
		b := flat(body)
		if !(j > i && toks[j-1].end) {
			b = append(b, 11)
		}
		n := s.put(t, b)
		if n < 0 {
			continue
		}
		ct := callTok(s, code, n, toks[i].before, rapid.SampledFrom([]int{0, 0, 0, 1, 2}).Draw(t, "form"))
		ct.end = j > i && toks[j-1].end
		ct.depth = inner + 1
		toks = append(append(append([]tok{}, toks[:i]...), ct), toks[j:]...)
		used[kind]++
	}
	return toks
}

// chain wraps the whole program into n nested subroutines.
func chain(t *rapid.T, toks []tok, local, global *subrStore, n int) []tok {
	for ; n > 0; n-- {
		s, code := local, 10
		if rapid.Bool().Draw(t, "global") {
			s, code = global, 29
		}
		i := rapid.IntRange(0, len(toks)-1).Draw(t, "chainFrom")
		if toks[i].before >= 48 {
			i = 0
		}
		body := flat(toks[i:])
		if !toks[len(toks)-1].end {
			body = append(body, 11)
		}
		k := s.put(t, body)
		if k < 0 {
			return toks
		}
		ct := callTok(s, code, k, toks[i].before, 0)
		ct.end = true
		toks = append(append([]tok{}, toks[:i]...), ct)
	}
	return toks
}
