package c05

import (
	"fmt"
	"sort"
	"testing"

	"seehuhn.de/go/sfnt/verif/pbt"
	"seehuhn.de/go/sfnt/verif/ref"
)

type fixedCase struct {
	name string
	want string // expected verdict
	f    *fontSpec
}

func nums(n int) []byte {
	var b []byte
	for i := 0; i < n; i++ {
		b = append(b, byte(139+(i*7)%90-20))
	}
	return b
}

func cat(bb ...[]byte) []byte {
	var r []byte
	for _, b := range bb {
		r = append(r, b...)
	}
	return r
}

func fillStore(n int) *subrStore {
	s := &subrStore{subrs: make([][]byte, n), index: map[string]int{}}
	for i := range s.subrs {
		s.subrs[i] = filler
	}
	return s
}

var legalCounts = map[int][]int{
	5: {2, 4, 6, 48}, 6: {1, 2, 3, 48}, 7: {1, 2, 3, 48}, 8: {6, 12, 48}, 24: {8, 14, 44}, 25: {8, 10, 48},
	26: {4, 5, 8, 9, 45, 48}, 27: {4, 5, 8, 9, 45, 48}, 30: {4, 5, 8, 9, 12, 13, 16, 17, 45, 48}, 31: {4, 5, 8, 9, 12, 13, 16, 17, 45, 48},
	0x0c22: {7}, 0x0c23: {13}, 0x0c24: {9}, 0x0c25: {11},
}

var minArgs = map[int]int{
	5: 2, 6: 1, 7: 1, 8: 6, 24: 8, 25: 8, 26: 4, 27: 4, 30: 4, 31: 4, 0x0c22: 7, 0x0c23: 13, 0x0c24: 9, 0x0c25: 11,
	21: 2, 22: 1, 4: 1, 1: 2, 3: 2, 18: 2, 23: 2, 10: 1, 29: 1,
	0x0c03: 2, 0x0c04: 2, 0x0c05: 1, 0x0c09: 1, 0x0c0a: 2, 0x0c0b: 2, 0x0c0c: 2, 0x0c0e: 1, 0x0c0f: 2, 0x0c12: 1, 0x0c14: 2, 0x0c15: 1,
	0x0c16: 4, 0x0c18: 2, 0x0c1a: 1, 0x0c1b: 1, 0x0c1c: 2, 0x0c1d: 2, 0x0c1e: 2,
}

func fixedCases() []fixedCase {
	var cc []fixedCase
	move := []byte{140, 141, 21}
	end := []byte{14}
	addCode := func(want, name string, code []byte) {
		cc = append(cc, fixedCase{name, want, single(code, fillStore(3), fillStore(3))})
	}
	for code, counts := range legalCounts {
		for _, n := range counts {
			c := cat(nums(n), op(code))
			addCode("valid", fmt.Sprintf("op %x with %d operands", code, n), cat(move, c, end))
			addCode("move", fmt.Sprintf("op %x before move", code), cat(c, end))
			addCode("move", fmt.Sprintf("op %x before move, then move", code), cat(c, move, end))
			addCode("move", fmt.Sprintf("op %x after hints", code), cat([]byte{139, 150, 1}, c, end))
			addCode("move", fmt.Sprintf("op %x after mask", code), cat([]byte{139, 150, 18, 20, 0x80}, c, end))
			addCode("move", fmt.Sprintf("op %x after implicit vstem", code), cat([]byte{139, 150, 18, 139, 150, 19, 0xC0}, c, end))
			for _, more := range []int{49 - n} {
				addCode("overflow", fmt.Sprintf("op %x with 49 operands", code), cat(move, nums(more), c, end))
			}
		}
	}
	for code, n := range minArgs {
		for k := 0; k < n; k++ {
			addCode("underflow", fmt.Sprintf("op %x with %d operands", code, k), cat(move, nums(k), op(code), move, end))
			if code < 4 || code == 18 || code == 23 || code == 4 || code == 21 || code == 22 {
				addCode("underflow", fmt.Sprintf("op %x with %d operands at the start", code, k), cat(nums(k), op(code), end))
			}
		}
	}
	// underflow through computed arguments
	addCode("underflow", "index beyond the stack", cat(move, []byte{140, 141, 0x8d}, op(0x0c1d), []byte{5}, end))
	addCode("valid", "index of the last element", cat(move, []byte{140, 141, 0x8c}, op(0x0c1d), op(0x0c12), []byte{5}, end))
	addCode("underflow", "roll of more than the stack", cat(move, []byte{140, 141, 0x8e, 0x8c}, op(0x0c1e), []byte{5}, end))
	addCode("valid", "roll of the whole stack", cat(move, []byte{140, 141, 0x8d, 0x8c}, op(0x0c1e), []byte{5}, end))

	// stack limit, for all ways to push
	for _, n := range []int{46, 47, 48, 49} {
		for i, p := range [][]byte{{139}, {28, 0, 1}, {255, 0, 1, 0, 0}, {247, 0}, {251, 0}, op(0x0c1b)} {
			want := "valid"
			if n+1 > 48 {
				want = "overflow"
			}
			addCode(want, fmt.Sprintf("%d operands, then one more (%d)", n, i), cat(move, nums(n), p, []byte{6}, end))
		}
	}
	// an overflow in the middle of a calculation
	addCode("overflow", "temporary overflow", cat(move, nums(48), []byte{139}, op(0x0c12), []byte{5}, end))
	addCode("valid", "temporary use of all slots", cat(move, nums(47), []byte{139}, op(0x0c12), []byte{6}, end))

	// missing endchar
	addCode("endchar", "empty charstring", []byte{})
	addCode("endchar", "only a number", []byte{139})
	addCode("endchar", "no endchar after move", cat(move))
	addCode("endchar", "no endchar after line", cat(move, nums(2), []byte{5}))
	addCode("endchar", "no endchar after mask", []byte{139, 150, 18, 19, 0x80})
	for _, code := range []byte{10, 29} {
		f := single([]byte{32, code}, fillStore(3), fillStore(3)) // 32: -107
		f.fds[0].local.subrs[0] = cat(move, nums(2), []byte{5, 11})
		f.global.subrs[0] = f.fds[0].local.subrs[0]
		cc = append(cc, fixedCase{"no endchar after subroutine", "endchar", f})
		f = single([]byte{32, code}, fillStore(3), fillStore(3))
		f.fds[0].local.subrs[0] = cat(move, nums(2), []byte{5, 14})
		f.global.subrs[0] = f.fds[0].local.subrs[0]
		cc = append(cc, fixedCase{"endchar in subroutine", "valid", f})
	}

	// truncated tokens
	for _, b := range [][]byte{{28}, {28, 0}, {255}, {255, 0}, {255, 0, 0}, {255, 0, 0, 0}, {247}, {254}, {251}, {250}, {12}} {
		addCode("truncated", fmt.Sprintf("truncated token % x", b), cat(move, nums(2), b))
	}
	for ns := 1; ns <= 24; ns++ {
		for have := 0; have <= (ns+7)/8; have++ {
			for _, m := range []byte{19, 20} {
				mask := make([]byte, have)
				want := "truncated"
				code := cat(nums(2*ns), []byte{18, m}, mask)
				if have == (ns+7)/8 {
					want = "valid"
					code = cat(code, move, end)
				}
				addCode(want, fmt.Sprintf("%d stems and %d mask bytes", ns, have), code)
				code = cat(nums(2*ns), []byte{m}, mask)
				if want == "valid" {
					code = cat(code, move, end)
				}
				addCode(want, fmt.Sprintf("%d implicit stems and %d mask bytes", ns, have), code)
			}
		}
	}

	// reserved operators
	for _, k := range []int{0, 2, 9, 13, 15, 16, 17} {
		addCode("reserved", fmt.Sprintf("operator %d", k), cat(move, op(k), end))
	}
	known := map[int]bool{0: true, 3: true, 4: true, 5: true, 9: true, 10: true, 11: true, 12: true, 14: true, 15: true, 18: true, 20: true, 21: true, 22: true, 23: true,
		24: true, 26: true, 27: true, 28: true, 29: true, 30: true, 34: true, 35: true, 36: true, 37: true}
	for k := 0; k < 256; k++ {
		if !known[k] {
			addCode("reserved", fmt.Sprintf("operator 12 %d", k), cat(move, nums(14), []byte{12, byte(k)}, end))
		}
	}

	// subroutine numbers
	for _, n := range []int{0, 1, 2, 107, 108, 214, 215, 1239, 1240, 1241, 2262, 2263, 33899, 33900, 33901, 65535} {
		for _, g := range []bool{false, true} {
			for _, k := range []int{-1, 0, 1, 106, 107, 108, 1130, 1131, 1132, n / 2, n - 2, n - 1, n, n + 1, n + 107, n + 1131} {
				v := k - ref.SubrBias(n)
				if v < -32768 || v > 32767 {
					continue
				}
				s := fillStore(n)
				want := "subr"
				if k >= 0 && k < n {
					want = "valid"
					s.subrs[k] = cat(move, nums(2), []byte{5, 11})
				}
				a, b, code := s, fillStore(2), byte(10)
				if g {
					a, b, code = b, a, 29
				}
				form := numForms(float64(v))
				f := single(cat(form[0], []byte{code}, end), a, b)
				cc = append(cc, fixedCase{fmt.Sprintf("subroutine %d of %d (global: %v)", k, n, g), want, f})
			}
		}
	}

	// nesting
	for mode := 0; mode < 3; mode++ {
		for d := 1; d <= 13; d++ {
			f := single(nil, fillStore(20), fillStore(20))
			call := func(level int) []byte {
				c := byte(10)
				if mode == 1 || mode == 2 && level%2 == 0 {
					c = 29
				}
				return []byte{byte(139 + level - 107), c}
			}
			for l := 0; l < d; l++ {
				b := call(l + 1)
				if l == d-1 {
					b = cat(move, nums(2), []byte{5})
				}
				b = cat(b, []byte{11})
				f.fds[0].local.subrs[l] = b
				f.global.subrs[l] = b
			}
			f.codes[1] = cat(call(0), end)
			want := "valid"
			if d > 10 {
				want = "nesting"
			}
			cc = append(cc, fixedCase{fmt.Sprintf("%d nested subroutines (mode %d)", d, mode), want, f})
		}
		f := single(nil, fillStore(20), fillStore(20))
		x, y := byte(10), byte(10)
		if mode >= 1 {
			y = 29
		}
		if mode == 2 {
			x = 29
		}
		f.codes[1] = []byte{32, x, 14}
		f.fds[0].local.subrs[0] = []byte{32, y, 11}
		f.global.subrs[0] = []byte{32, x, 11}
		cc = append(cc, fixedCase{"infinite recursion", "nesting", f})
	}
	// many consecutive calls are fine
	f := single(nil, fillStore(3), fillStore(3))
	f.codes[1] = cat(move)
	for i := 0; i < 200; i++ {
		f.codes[1] = append(f.codes[1], 32, 10, 32, 29)
	}
	f.codes[1] = append(f.codes[1], 14)
	f.fds[0].local.subrs[0] = cat(nums(2), []byte{5, 11})
	f.global.subrs[0] = []byte{11}
	cc = append(cc, fixedCase{"many calls", "valid", f})
	sort.SliceStable(cc, func(i, j int) bool { return cc[i].name < cc[j].name })
	return cc
}

// TestFixed runs systematically constructed programs on both sides of each
// limit.
func TestFixed(t *testing.T) {
	cc := fixedCases()
	pbt.Enumerate(t, len(cc), func(i int, c *pbt.Case) {
		x := cc[i]
		got := judge(pbt.Failer(t, x.name), c, x.f, 1)
		if got != x.want {
			pbt.Failf("HARNESS-ERROR: %s: verdict %q, expected %q (% x)", x.name, got, x.want, x.f.codes[1])
		}
		c.Class("fixed " + got)
		c.NonTrivial([]byte(fmt.Sprint(x.name, i)))
	})
}
