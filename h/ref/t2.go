package ref

import (
	"fmt"
	"math"
)

// T2Op is one element of an executed charstring: 'm'oveto, 'l'ineto,
// 'c'urveto (absolute coordinates), 'h'intmask or 'k' (cntrmask), where the
// arguments are the mask bytes.
type T2Op struct {
	Kind byte
	Args []float64
}

// T2Result is the outcome of executing a charstring.
type T2Result struct {
	Ops          []T2Op
	HStem, VStem []float64
	Width        float64
	HasWidth     bool
	MaxStack     int
	MaxDepth     int
	Used         map[string]int

	// Gray is set, once the result depends on details the specification leaves
	// open: inexact arithmetic, overflow, random numbers.
	Gray bool
}

// T2Env is the environment a charstring is executed in.
type T2Env struct {
	GSubrs, Subrs    [][]byte
	Default, Nominal float64
	Budget           int
}

// T2Error describes why a charstring is illegal.
type T2Error struct {
	Kind string // "underflow", "overflow", "endchar", "subr", "nesting", "move", "truncated", "reserved", "other"
	Msg  string
}

func (e *T2Error) Error() string { return "charstring: " + e.Msg }

func t2Fail(format string, a ...any) { t2FailK("other", format, a...) }

func t2FailK(kind, format string, a ...any) {
	panic(&T2Error{kind, fmt.Sprintf(format, a...)})
}

func subrBias(n int) int {
	switch {
	case n < 1240:
		return 107
	case n < 33900:
		return 1131
	}
	return 32768
}

// SubrBias is the bias for a subroutine INDEX with n entries.
func SubrBias(n int) int { return subrBias(n) }

var t2Names = map[int]string{
	1: "hstem", 3: "vstem", 4: "vmoveto", 5: "rlineto", 6: "hlineto", 7: "vlineto", 8: "rrcurveto", 10: "callsubr",
	11: "return", 14: "endchar", 18: "hstemhm", 19: "hintmask", 20: "cntrmask", 21: "rmoveto", 22: "hmoveto",
	23: "vstemhm", 24: "rcurveline", 25: "rlinecurve", 26: "vvcurveto", 27: "hhcurveto", 29: "callgsubr",
	30: "vhcurveto", 31: "hvcurveto",
	0x0c00: "dotsection", 0x0c03: "and", 0x0c04: "or", 0x0c05: "not", 0x0c09: "abs", 0x0c0a: "add", 0x0c0b: "sub",
	0x0c0c: "div", 0x0c0e: "neg", 0x0c0f: "eq", 0x0c12: "drop", 0x0c14: "put", 0x0c15: "get", 0x0c16: "ifelse",
	0x0c17: "random", 0x0c18: "mul", 0x0c1a: "sqrt", 0x0c1b: "dup", 0x0c1c: "exch", 0x0c1d: "index", 0x0c1e: "roll",
	0x0c22: "hflex", 0x0c23: "flex", 0x0c24: "hflex1", 0x0c25: "flex1",
}

// t2Min gives the minimal numbers of operands.
var t2Min = map[int]int{
	1: 2, 3: 2, 18: 2, 23: 2, 4: 1, 22: 1, 21: 2, 5: 2, 6: 1, 7: 1, 8: 6, 24: 8, 25: 8, 26: 4, 27: 4, 30: 4, 31: 4,
	0x0c22: 7, 0x0c23: 13, 0x0c24: 9, 0x0c25: 11,
}

// T2Min returns the smallest legal number of operands of an operator.
func T2Min(op int) int { return t2Min[op] }

// RunT2 executes a charstring strictly following Adobe TN 5177.  Every
// operator must have a legal number of operands, the operand stack must never
// hold more than 48 entries, and the program must end with endchar with
// nothing left behind it.
//
// In case of an error, the error is a *T2Error and the result describes the
// state at the time of the error.
func RunT2(code []byte, env *T2Env) (res *T2Result, err error) {
	var vm *t2VM
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(*T2Error); ok {
				res, err = vm.res, e
				return
			}
			panic(r)
		}
	}()
	vm = &t2VM{env: env, res: &T2Result{Width: env.Default, Used: map[string]int{}}, budget: env.Budget}
	if vm.budget == 0 {
		vm.budget = 2_000_000
	}
	if !vm.run(code, 0) {
		t2FailK("endchar", "missing endchar")
	}
	return vm.res, nil
}

type t2VM struct {
	env       *T2Env
	res       *T2Result
	st        []float64
	reg       [32]float64
	regSet    [32]bool
	x, y      float64
	widthDone bool
	moved     bool
	hintsDone bool // no more stems allowed
	sawV      bool
	budget    int
	ended     bool
}

func (vm *t2VM) push(x float64) {
	vm.st = append(vm.st, x)
	if len(vm.st) > 48 {
		t2FailK("overflow", "operand stack overflow")
	}
	vm.res.MaxStack = max(vm.res.MaxStack, len(vm.st))
}

// arith pushes the result of an arithmetic operation.
func (vm *t2VM) arith(x float64) {
	if x < -32768 || x >= 32768 || x*65536 != math.Trunc(x*65536) {
		vm.res.Gray = true
	}
	vm.push(x)
}

// delta checks a coordinate.
func (vm *t2VM) delta(xx ...float64) {
	for _, x := range xx {
		if math.Abs(x) > 32000 {
			vm.res.Gray = true
		}
	}
}

func (vm *t2VM) pop() float64 {
	if len(vm.st) == 0 {
		t2FailK("underflow", "operand stack underflow")
	}
	x := vm.st[len(vm.st)-1]
	vm.st = vm.st[:len(vm.st)-1]
	return x
}

// width removes a width operand from the bottom of the stack, if there is one.
func (vm *t2VM) width(present bool) {
	if vm.widthDone {
		return
	}
	vm.widthDone = true
	if present {
		vm.res.Width = vm.env.Nominal + vm.st[0]
		vm.res.HasWidth = true
		vm.st = vm.st[1:]
	}
}

func (vm *t2VM) move(dx, dy float64) {
	vm.delta(dx, dy)
	vm.x += dx
	vm.y += dy
	vm.moved = true
	vm.hintsDone = true
	vm.res.Ops = append(vm.res.Ops, T2Op{'m', []float64{vm.x, vm.y}})
}

func (vm *t2VM) line(dx, dy float64) {
	if !vm.moved {
		t2FailK("move", "path operator before moveto")
	}
	vm.delta(dx, dy)
	vm.x += dx
	vm.y += dy
	vm.res.Ops = append(vm.res.Ops, T2Op{'l', []float64{vm.x, vm.y}})
}

func (vm *t2VM) curve(a, b, c, d, e, f float64) {
	if !vm.moved {
		t2FailK("move", "path operator before moveto")
	}
	vm.delta(a, b, c, d, e, f)
	x1, y1 := vm.x+a, vm.y+b
	x2, y2 := x1+c, y1+d
	vm.x, vm.y = x2+e, y2+f
	vm.res.Ops = append(vm.res.Ops, T2Op{'c', []float64{x1, y1, x2, y2, vm.x, vm.y}})
}

func (vm *t2VM) stems(dst *[]float64) {
	pos := 0.0
	for _, d := range vm.st {
		pos += d
		*dst = append(*dst, pos)
	}
	vm.st = vm.st[:0]
}

func b2f(b bool) float64 {
	if b {
		return 1
	}
	return 0
}

// run returns true, once endchar has been executed.
func (vm *t2VM) run(code []byte, depth int) bool {
	vm.res.MaxDepth = max(vm.res.MaxDepth, depth)
	i := 0
	for i < len(code) {
		vm.budget--
		if vm.budget < 0 {
			t2Fail("budget exhausted")
		}
		b0 := int(code[i])
		need := func(k int) {
			if i+k > len(code) {
				t2FailK("truncated", "truncated")
			}
		}
		switch {
		case b0 >= 32 && b0 <= 246:
			vm.push(float64(b0 - 139))
			i++
			continue
		case b0 >= 247 && b0 <= 250:
			need(2)
			vm.push(float64((b0-247)*256 + int(code[i+1]) + 108))
			i += 2
			continue
		case b0 >= 251 && b0 <= 254:
			need(2)
			vm.push(float64(-(b0-251)*256 - int(code[i+1]) - 108))
			i += 2
			continue
		case b0 == 28:
			need(3)
			vm.push(float64(I16(code, i+1)))
			i += 3
			continue
		case b0 == 255:
			need(5)
			vm.push(float64(int32(U32(code, i+1))) / 65536)
			i += 5
			continue
		}
		op := b0
		i++
		if op == 12 {
			if i >= len(code) {
				t2FailK("truncated", "truncated")
			}
			op = 0x0c00 | int(code[i])
			i++
		}
		name, ok := t2Names[op]
		if !ok {
			t2FailK("reserved", "reserved operator %x", op)
		}
		vm.res.Used[name]++
		n := len(vm.st)
		bad := func() {
			kind := "other"
			if n < t2Min[op] {
				kind = "underflow"
			}
			t2FailK(kind, "%s with %d operands", name, n)
		}
		switch op {
		case 1, 3, 18, 23: // stems
			if n < 2 || n%2 == 1 && vm.widthDone {
				bad()
			}
			if vm.hintsDone {
				t2Fail("%s after hints section", name)
			}
			vm.width(n%2 == 1)
			if op == 1 || op == 18 {
				if vm.sawV {
					t2Fail("%s after vstem", name)
				}
				vm.stems(&vm.res.HStem)
			} else {
				vm.sawV = true
				vm.stems(&vm.res.VStem)
			}
		case 19, 20:
			if n%2 == 1 && vm.widthDone {
				bad()
			}
			if n >= 2 && vm.hintsDone {
				t2Fail("implicit vstem after hints section")
			}
			vm.width(n%2 == 1)
			if len(vm.st) > 0 {
				vm.res.Used["implicit vstem"]++
				vm.stems(&vm.res.VStem)
			}
			vm.hintsDone = true
			ns := (len(vm.res.HStem) + len(vm.res.VStem)) / 2
			if ns == 0 {
				t2Fail("%s without stems", name)
			}
			if ns > 96 {
				t2Fail("%d stems", ns)
			}
			k := (ns + 7) / 8
			need(k)
			a := make([]float64, k)
			for j := range a {
				a[j] = float64(code[i+j])
			}
			i += k
			kind := byte('h')
			if op == 20 {
				kind = 'k'
			}
			vm.res.Ops = append(vm.res.Ops, T2Op{kind, a})
		case 21: // rmoveto
			if n != 2 && (n != 3 || vm.widthDone) {
				bad()
			}
			vm.width(n == 3)
			vm.move(vm.st[0], vm.st[1])
			vm.st = vm.st[:0]
		case 22, 4: // hmoveto, vmoveto
			if n != 1 && (n != 2 || vm.widthDone) {
				bad()
			}
			vm.width(n == 2)
			if op == 22 {
				vm.move(vm.st[0], 0)
			} else {
				vm.move(0, vm.st[0])
			}
			vm.st = vm.st[:0]
		case 14: // endchar
			if n == 4 || n == 5 {
				t2Fail("endchar with accented character components")
			}
			if n > 1 || n == 1 && vm.widthDone {
				bad()
			}
			vm.width(n == 1)
			if depth == 0 && i != len(code) {
				t2Fail("%d bytes after endchar", len(code)-i)
			}
			vm.ended = true
			return true
		case 5:
			if n < 2 || n%2 != 0 {
				bad()
			}
			for j := 0; j < n; j += 2 {
				vm.line(vm.st[j], vm.st[j+1])
			}
			vm.st = vm.st[:0]
		case 6, 7:
			if n < 1 {
				bad()
			}
			h := op == 6
			for _, d := range vm.st {
				if h {
					vm.line(d, 0)
				} else {
					vm.line(0, d)
				}
				h = !h
			}
			vm.st = vm.st[:0]
		case 8, 24, 25:
			a := vm.st
			var nl, nc int
			switch op {
			case 8:
				if n < 6 || n%6 != 0 {
					bad()
				}
				nc = n / 6
			case 24:
				if n < 8 || n%6 != 2 {
					bad()
				}
				nc = n / 6
			case 25:
				if n < 8 || n%2 != 0 {
					bad()
				}
				nl, nc = (n-6)/2, 1
			}
			for ; nl > 0; nl-- {
				vm.line(a[0], a[1])
				a = a[2:]
			}
			for ; nc > 0; nc-- {
				vm.curve(a[0], a[1], a[2], a[3], a[4], a[5])
				a = a[6:]
			}
			if op == 24 {
				vm.line(a[0], a[1])
			}
			vm.st = vm.st[:0]
		case 26, 27: // vv, hh
			if n < 4 || n%4 > 1 {
				bad()
			}
			a := vm.st
			extra := 0.0
			if n%4 == 1 {
				extra, a = a[0], a[1:]
			}
			for len(a) > 0 {
				if op == 26 {
					vm.curve(extra, a[0], a[1], a[2], 0, a[3])
				} else {
					vm.curve(a[0], extra, a[1], a[2], a[3], 0)
				}
				extra = 0
				a = a[4:]
			}
			vm.st = vm.st[:0]
		case 30, 31: // vh, hv
			if n < 4 || n%4 > 1 {
				bad()
			}
			a := vm.st
			last := 0.0
			if n%4 == 1 {
				last, a = a[n-1], a[:n-1]
			}
			h := op == 31
			for len(a) > 0 {
				z := 0.0
				if len(a) == 4 {
					z = last
				}
				if h {
					vm.curve(a[0], 0, a[1], a[2], z, a[3])
				} else {
					vm.curve(0, a[0], a[1], a[2], a[3], z)
				}
				h = !h
				a = a[4:]
			}
			vm.st = vm.st[:0]
		case 0x0c23: // flex
			if n != 13 {
				bad()
			}
			a := vm.st
			vm.curve(a[0], a[1], a[2], a[3], a[4], a[5])
			vm.curve(a[6], a[7], a[8], a[9], a[10], a[11])
			vm.st = vm.st[:0]
		case 0x0c22: // hflex
			if n != 7 {
				bad()
			}
			a := vm.st
			y0 := vm.y
			vm.curve(a[0], 0, a[1], a[2], a[3], 0)
			// second joining point and end point have the y coordinates of the
			// first one and of the start
			vm.curve(a[4], 0, a[5], y0-vm.y, a[6], 0)
			vm.st = vm.st[:0]
		case 0x0c24: // hflex1
			if n != 9 {
				bad()
			}
			a := vm.st
			y0 := vm.y
			vm.curve(a[0], a[1], a[2], a[3], a[4], 0)
			vm.curve(a[5], 0, a[6], a[7], a[8], y0-(vm.y+a[7]))
			vm.st = vm.st[:0]
		case 0x0c25: // flex1
			if n != 11 {
				bad()
			}
			a := vm.st
			x0, y0 := vm.x, vm.y
			dx := a[0] + a[2] + a[4] + a[6] + a[8]
			dy := a[1] + a[3] + a[5] + a[7] + a[9]
			vm.curve(a[0], a[1], a[2], a[3], a[4], a[5])
			if math.Abs(dx) > math.Abs(dy) {
				vm.curve(a[6], a[7], a[8], a[9], a[10], y0-(y0+dy))
			} else {
				vm.curve(a[6], a[7], a[8], a[9], x0-(x0+dx), a[10])
			}
			vm.st = vm.st[:0]
		case 0x0c00: // dotsection, deprecated: no effect
			if n != 0 {
				bad()
			}
		case 0x0c03:
			b, a := vm.pop(), vm.pop()
			vm.push(b2f(a != 0 && b != 0))
		case 0x0c04:
			b, a := vm.pop(), vm.pop()
			vm.push(b2f(a != 0 || b != 0))
		case 0x0c05:
			vm.push(b2f(vm.pop() == 0))
		case 0x0c09:
			vm.arith(math.Abs(vm.pop()))
		case 0x0c0a:
			b, a := vm.pop(), vm.pop()
			vm.arith(a + b)
		case 0x0c0b:
			b, a := vm.pop(), vm.pop()
			vm.arith(a - b)
		case 0x0c0c:
			b, a := vm.pop(), vm.pop()
			if b == 0 {
				t2Fail("division by zero")
			}
			vm.arith(a / b)
		case 0x0c0e:
			vm.arith(0 - vm.pop())
		case 0x0c0f:
			b, a := vm.pop(), vm.pop()
			vm.push(b2f(a == b))
		case 0x0c12:
			vm.pop()
		case 0x0c14:
			k, v := vm.pop(), vm.pop()
			if k != math.Trunc(k) || k < 0 || k > 31 {
				t2Fail("put index %g", k)
			}
			vm.reg[int(k)] = v
			vm.regSet[int(k)] = true
		case 0x0c15:
			k := vm.pop()
			if k != math.Trunc(k) || k < 0 || k > 31 || !vm.regSet[int(k)] {
				t2Fail("get index %g", k)
			}
			vm.push(vm.reg[int(k)])
		case 0x0c16:
			v2, v1, s2, s1 := vm.pop(), vm.pop(), vm.pop(), vm.pop()
			if v1 <= v2 {
				vm.push(s1)
			} else {
				vm.push(s2)
			}
		case 0x0c17:
			vm.res.Gray = true
			vm.push(0.5)
		case 0x0c18:
			b, a := vm.pop(), vm.pop()
			vm.arith(a * b)
		case 0x0c1a:
			a := vm.pop()
			if a < 0 {
				t2Fail("sqrt of negative number")
			}
			vm.arith(math.Sqrt(a))
		case 0x0c1b:
			a := vm.pop()
			vm.push(a)
			vm.push(a)
		case 0x0c1c:
			b, a := vm.pop(), vm.pop()
			vm.push(b)
			vm.push(a)
		case 0x0c1d:
			k := vm.pop()
			if k < 0 {
				k = 0
			}
			if int(math.Trunc(k)) >= len(vm.st) {
				t2FailK("underflow", "index %g", k)
			}
			if k != math.Trunc(k) {
				t2Fail("index %g", k)
			}
			vm.push(vm.st[len(vm.st)-1-int(k)])
		case 0x0c1e:
			jj, nn := vm.pop(), vm.pop()
			if nn > 0 && math.Trunc(nn) > float64(len(vm.st)) {
				t2FailK("underflow", "roll %g %g", nn, jj)
			}
			if nn != math.Trunc(nn) || jj != math.Trunc(jj) || nn < 0 || int(nn) > len(vm.st) {
				t2Fail("roll %g %g", nn, jj)
			}
			if nn > 0 {
				a := vm.st[len(vm.st)-int(nn):]
				tmp := append([]float64{}, a...)
				for k := range tmp {
					// a positive j rolls towards the top of the stack
					a[((k+int(jj))%len(a)+len(a))%len(a)] = tmp[k]
				}
			}
		case 10, 29:
			k := vm.pop()
			subrs := vm.env.Subrs
			if op == 29 {
				subrs = vm.env.GSubrs
			}
			if k != math.Trunc(k) {
				t2Fail("subroutine number %g", k)
			}
			idx := int(k) + subrBias(len(subrs))
			if idx < 0 || idx >= len(subrs) {
				t2FailK("subr", "subroutine %d of %d", idx, len(subrs))
			}
			if depth >= 10 {
				t2FailK("nesting", "subroutine nesting")
			}
			if vm.run(subrs[idx], depth+1) {
				if depth == 0 && i != len(code) {
					t2Fail("%d bytes after endchar", len(code)-i)
				}
				return true
			}
		case 11:
			if depth == 0 {
				t2Fail("return outside subroutine")
			}
			if i != len(code) {
				t2Fail("bytes after return")
			}
			return false
		}
		if vm.ended {
			return true
		}
	}
	if depth > 0 {
		t2Fail("subroutine without return")
	}
	return false
}
