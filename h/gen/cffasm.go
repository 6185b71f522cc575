package gen

import (
	"fmt"
	"math"
	"strings"

	"pgregory.net/rapid"
)

// This file contains an assembler for CFF files, with all degrees of freedom
// the format allows: number forms, INDEX offset sizes, order of the sections,
// gaps between them.

// DictOp is a DICT operator with its encoded operands.
type DictOp struct {
	Op   int
	Args []byte
}

// AsmFD is a font DICT (or, in a simple font, the private part of the top
// DICT).
type AsmFD struct {
	Dict     []DictOp // without Private
	Private  []DictOp // without Subrs
	Subrs    [][]byte
	HasSubrs bool
}

// CFFAsm describes a CFF file.
type CFFAsm struct {
	Name        string
	Strings     []string
	Top         []DictOp // without offset operators (and without ROS)
	ROS         []byte   // encoded operands of ROS, nil for simple fonts
	GSubrs      [][]byte
	CharStrings [][]byte
	PreCharset  int // predefined charset, or -1
	Charset     []byte
	PreEncoding int // predefined encoding, or -1
	Encoding    []byte
	FDSelect    []byte
	FDs         []AsmFD

	// layout choices
	OffSize  func(min int) int // INDEX offset sizes
	Order    []int             // permutation of section numbers 0..n-1 (may be nil)
	Gap      func() int        // filler bytes between sections
	HdrSize  int               // at least 4
	Long     bool              // use 5-byte offsets (otherwise 3-byte offsets, if they fit)
	OpOrder  func(n int) []int // permutation of the DICT operators
	Explicit bool              // give default offsets (charset 0, encoding 0) explicitly
}

// CFFIndex encodes an INDEX.
func CFFIndex(data [][]byte, offSize func(int) int) []byte {
	if len(data) == 0 {
		return []byte{0, 0}
	}
	total := 1
	for _, d := range data {
		total += len(d)
	}
	sz := 1
	for total >= 1<<(8*sz) {
		sz++
	}
	if offSize != nil {
		sz = offSize(sz)
	}
	out := []byte{byte(len(data) >> 8), byte(len(data)), byte(sz)}
	pos := 1
	put := func() {
		for k := sz - 1; k >= 0; k-- {
			out = append(out, byte(pos>>(8*k)))
		}
	}
	for _, d := range data {
		put()
		pos += len(d)
	}
	put()
	for _, d := range data {
		out = append(out, d...)
	}
	return out
}

func encOp(out []byte, op int) []byte {
	if op > 255 {
		out = append(out, byte(op>>8))
	}
	return append(out, byte(op))
}

// DictInt encodes an integer operand in form 1, 2, 3 or 5 bytes.
func DictInt(x int, form int) []byte {
	switch {
	case form <= 1 && x >= -107 && x <= 107:
		return []byte{byte(x + 139)}
	case form <= 2 && x >= 108 && x <= 1131:
		return []byte{byte(247 + (x-108)>>8), byte(x - 108)}
	case form <= 2 && x >= -1131 && x <= -108:
		return []byte{byte(251 + (-x-108)>>8), byte(-x - 108)}
	case form <= 3 && x >= -32768 && x <= 32767:
		return []byte{28, byte(x >> 8), byte(x)}
	}
	return []byte{29, byte(x >> 24), byte(x >> 16), byte(x >> 8), byte(x)}
}

// DictRealText encodes the decimal text of a real.
func DictRealText(s string) []byte {
	out := []byte{30}
	var nib []byte
	for i := 0; i < len(s); i++ {
		switch c := s[i]; {
		case c >= '0' && c <= '9':
			nib = append(nib, c-'0')
		case c == '.':
			nib = append(nib, 10)
		case c == 'E':
			if i+1 < len(s) && s[i+1] == '-' {
				nib = append(nib, 12)
				i++
			} else {
				nib = append(nib, 11)
			}
		case c == '-':
			nib = append(nib, 14)
		default:
			panic("bad real " + s)
		}
	}
	nib = append(nib, 15)
	if len(nib)%2 == 1 {
		nib = append(nib, 15)
	}
	for i := 0; i < len(nib); i += 2 {
		out = append(out, nib[i]<<4|nib[i+1])
	}
	return out
}

// DictNumForms draws a random textual representation of a number.
func DictNumForms(t *rapid.T, label string) (enc []byte, val float64) {
	switch rapid.IntRange(0, 3).Draw(t, label+"Form") {
	case 0:
		x := rapid.OneOf(rapid.IntRange(-110, 110), rapid.IntRange(-1200, 1200), rapid.IntRange(-33000, 33000),
			rapid.IntRange(math.MinInt32, math.MaxInt32),
			rapid.SampledFrom([]int{107, 108, -107, -108, 1131, 1132, -1131, -1132, 32767, 32768, -32768, -32769, 363, 364, 619, 620, -363, -364})).Draw(t, label)
		return DictInt(x, rapid.SampledFrom([]int{1, 3, 5}).Draw(t, label+"Size")), float64(x)
	}
	var sb strings.Builder
	if rapid.IntRange(0, 2).Draw(t, label+"Neg") == 0 {
		sb.WriteByte('-')
	}
	ip := rapid.SampledFrom([]string{"", "0", "00", "1", "12", "039", "999999", "2147483648"}).Draw(t, label+"Int")
	fp := rapid.SampledFrom([]string{"", ".", ".0", ".5", ".001", ".25", ".123456789", ".000000001", ".9999999999", ".039625", ".75000"}).Draw(t, label+"Frac")
	if ip == "" && (fp == "" || fp == ".") {
		ip = "7"
	}
	sb.WriteString(ip)
	sb.WriteString(fp)
	sb.WriteString(rapid.SampledFrom([]string{"", "", "", "E0", "E1", "E-1", "E3", "E-3", "E02", "E-10", "E12"}).Draw(t, label+"Exp"))
	s := sb.String()
	var v float64
	if _, err := fmt.Sscanf(strings.Replace(s, "E", "e", 1), "%g", &v); err != nil {
		panic(err)
	}
	return DictRealText(s), v
}

// Bytes assembles the file.
func (a *CFFAsm) Bytes() []byte {
	type section struct {
		name string
		data []byte
		fd   int
	}
	perm := func(ops []DictOp) []DictOp {
		if a.OpOrder == nil {
			return ops
		}
		res := make([]DictOp, len(ops))
		for i, k := range a.OpOrder(len(ops)) {
			res[i] = ops[k]
		}
		return res
	}
	// Order operators once, so that lengths are stable.  Offsets are filled in
	// later.
	isCID := a.ROS != nil
	offForm := func(x int) []byte {
		if !a.Long && x < 32768 {
			return DictInt(x, 3)
		}
		return DictInt(x, 5)
	}
	const placeholder = 30000
	type ref struct {
		op int
	}
	_ = ref{}
	var topOps []DictOp
	topOps = append(topOps, a.Top...)
	topOps = append(topOps, DictOp{Op: 17})
	if a.PreCharset != 0 || a.Explicit {
		topOps = append(topOps, DictOp{Op: 15})
	}
	if !isCID {
		if a.PreEncoding != 0 || a.Explicit {
			topOps = append(topOps, DictOp{Op: 16})
		}
		topOps = append(topOps, DictOp{Op: 18})
	} else {
		topOps = append(topOps, DictOp{Op: 0x0c24}, DictOp{Op: 0x0c25})
	}
	topOps = perm(topOps)
	var fdOps, privOps [][]DictOp
	for i := range a.FDs {
		fdOps = append(fdOps, perm(append(append([]DictOp{}, a.FDs[i].Dict...), DictOp{Op: 18})))
		pp := append([]DictOp{}, a.FDs[i].Private...)
		if a.FDs[i].HasSubrs {
			pp = append(pp, DictOp{Op: 19})
		}
		privOps = append(privOps, perm(pp))
	}
	// INDEX offset sizes must not change between iterations.
	sizes := map[string]int{}
	sized := func(name string) func(int) int {
		return func(min int) int {
			s, ok := sizes[name]
			if !ok {
				s = min
				if a.OffSize != nil {
					s = a.OffSize(min)
				}
			}
			if s < min {
				s = min
			}
			sizes[name] = s
			return s
		}
	}

	off := map[string]int{}
	get := func(name string) int {
		if v, ok := off[name]; ok {
			return v
		}
		return placeholder
	}
	dictBytes := func(ops []DictOp, isTop bool, fd int, privLen int) []byte {
		var out []byte
		if isTop && isCID {
			out = append(out, a.ROS...)
			out = encOp(out, 0x0c1e)
		}
		for _, o := range ops {
			args := o.Args
			if args == nil {
				switch o.Op {
				case 15:
					args = offForm(get("charset"))
					if a.PreCharset >= 0 {
						args = DictInt(a.PreCharset, 1)
					}
				case 16:
					args = offForm(get("encoding"))
					if a.PreEncoding >= 0 {
						args = DictInt(a.PreEncoding, 1)
					}
				case 17:
					args = offForm(get("charstrings"))
				case 18:
					args = append(append([]byte{}, offForm(privLen)...), offForm(get(fmt.Sprint("private", fd)))...)
				case 0x0c24:
					args = offForm(get("fdarray"))
				case 0x0c25:
					args = offForm(get("fdselect"))
				}
			}
			out = append(out, args...)
			out = encOp(out, o.Op)
		}
		return out
	}

	hdr := max(4, a.HdrSize)
	offSizeHdr := 4
	gaps := map[string]int{}
	gap := func(name string) int {
		g, ok := gaps[name]
		if !ok {
			if a.Gap != nil {
				g = a.Gap()
			}
			gaps[name] = g
		}
		return g
	}

	var out []byte
	for iter := 0; ; iter++ {
		if iter > 20 {
			panic("HARNESS-ERROR: CFF assembler does not converge")
		}
		var priv [][]byte
		for i := range a.FDs {
			var p []byte
			for _, o := range privOps[i] {
				args := o.Args
				if o.Op == 19 {
					args = offForm(get(fmt.Sprint("subrs", i)) - get(fmt.Sprint("private", i)))
				}
				p = append(p, args...)
				p = encOp(p, o.Op)
			}
			priv = append(priv, p)
		}
		pl := 0
		if !isCID {
			pl = len(priv[0])
		}
		out = make([]byte, hdr)
		copy(out, []byte{1, 0, byte(hdr), byte(offSizeHdr)})
		out = append(out, CFFIndex([][]byte{[]byte(a.Name)}, sized("name"))...)
		out = append(out, CFFIndex([][]byte{dictBytes(topOps, true, 0, pl)}, sized("top"))...)
		var ss [][]byte
		for _, s := range a.Strings {
			ss = append(ss, []byte(s))
		}
		out = append(out, CFFIndex(ss, sized("strings"))...)
		out = append(out, CFFIndex(a.GSubrs, sized("gsubrs"))...)

		var secs []section
		add := func(name string, d []byte) { secs = append(secs, section{name, d, 0}) }
		add("charstrings", CFFIndex(a.CharStrings, sized("charstrings")))
		if a.PreCharset < 0 {
			add("charset", a.Charset)
		}
		if !isCID && a.PreEncoding < 0 {
			add("encoding", a.Encoding)
		}
		if isCID {
			add("fdselect", a.FDSelect)
			var fds [][]byte
			for i := range a.FDs {
				fds = append(fds, dictBytes(fdOps[i], false, i, len(priv[i])))
			}
			add("fdarray", CFFIndex(fds, sized("fdarray")))
		}
		for i := range a.FDs {
			add(fmt.Sprint("private", i), priv[i])
		}
		// The Subrs offset is relative to the Private DICT; negative offsets
		// are not used, so subrs sections come last.
		nFree := len(secs)
		for i := range a.FDs {
			if a.FDs[i].HasSubrs {
				add(fmt.Sprint("subrs", i), CFFIndex(a.FDs[i].Subrs, sized(fmt.Sprint("subrs", i))))
			}
		}
		order := make([]int, 0, len(secs))
		for _, k := range a.Order {
			if k < nFree {
				order = append(order, k)
			}
		}
		seen := map[int]bool{}
		for _, k := range order {
			seen[k] = true
		}
		for k := range secs {
			if !seen[k] {
				order = append(order, k)
			}
		}
		stable := true
		for _, k := range order {
			for g := gap(secs[k].name); g > 0; g-- {
				out = append(out, 0xEE)
			}
			if off[secs[k].name] != len(out) {
				stable = false
				off[secs[k].name] = len(out)
			}
			out = append(out, secs[k].data...)
		}
		if stable {
			break
		}
	}
	sz := 1
	for len(out) >= 1<<(8*sz) {
		sz++
	}
	out[3] = byte(sz)
	return out
}
