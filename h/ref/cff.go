package ref

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
)

// Operand is a DICT operand.
type Operand struct {
	IsReal bool
	Val    float64
	Text   string // decimal text of a real
}

// Dict is a decoded DICT.
type Dict map[int][]Operand

// CFFFD is a font DICT together with its private data.
type CFFFD struct {
	Dict    Dict
	Private Dict
	Subrs   [][]byte
	Default float64
	Nominal float64
}

// CFF is a parsed CFF font set with one font.
type CFF struct {
	OffSize     int
	Name        string
	Top         Dict
	Strings     []string
	GSubrs      [][]byte
	CharStrings [][]byte
	IsCID       bool
	Charset     []int // SIDs or CIDs, one per glyph
	CharsetKind string
	EncodingID  int // 0 standard, 1 expert, -1 custom
	Encoding    [256]int
	EncKind     string
	FDs         []CFFFD
	FDSelect    []int
	FDSelKind   string
	Spans       []Span
}

// Span is a byte range used by a CFF structure.
type Span struct {
	Name     string
	From, To int
}

// String returns the string with the given SID.
func (c *CFF) String(sid int) (string, error) {
	if sid < 0 || sid >= 391+len(c.Strings) {
		return "", fmt.Errorf("SID %d out of range", sid)
	}
	if sid < 391 {
		return CFFStdStrings[sid], nil
	}
	return c.Strings[sid-391], nil
}

type cffErr string

func cffFail(format string, a ...any) { panic(cffErr(fmt.Sprintf(format, a...))) }

// CFFIndex parses an INDEX at the given position.
func cffIndexAt(b []byte, pos int) ([][]byte, int) {
	if pos < 0 || pos+2 > len(b) {
		cffFail("INDEX at %d outside data", pos)
	}
	n := U16(b, pos)
	if n == 0 {
		return nil, pos + 2
	}
	if pos+3 > len(b) {
		cffFail("INDEX truncated")
	}
	sz := int(b[pos+2])
	if sz < 1 || sz > 4 {
		cffFail("INDEX offSize %d", sz)
	}
	base := pos + 3
	if base+(n+1)*sz > len(b) {
		cffFail("INDEX offset array truncated")
	}
	off := func(i int) int {
		v := 0
		for k := 0; k < sz; k++ {
			v = v<<8 | int(b[base+i*sz+k])
		}
		return v
	}
	data := base + (n+1)*sz - 1
	res := make([][]byte, n)
	prev := off(0)
	if prev != 1 {
		cffFail("INDEX first offset %d", prev)
	}
	for i := 0; i < n; i++ {
		next := off(i + 1)
		if next < prev || data+next > len(b) {
			cffFail("INDEX offset %d invalid (prev %d)", next, prev)
		}
		res[i] = b[data+prev : data+next]
		prev = next
	}
	return res, data + prev
}

// CFFDict decodes a DICT strictly.
func cffDict(b []byte) Dict {
	res := Dict{}
	var st []Operand
	for i := 0; i < len(b); {
		b0 := int(b[i])
		need := func(k int) {
			if i+k > len(b) {
				cffFail("DICT truncated")
			}
		}
		switch {
		case b0 == 12:
			need(2)
			op := 0x0c00 | int(b[i+1])
			if _, dup := res[op]; dup {
				cffFail("DICT operator %x repeated", op)
			}
			res[op] = st
			st = nil
			i += 2
		case b0 <= 21:
			if _, dup := res[b0]; dup {
				cffFail("DICT operator %x repeated", b0)
			}
			res[b0] = st
			st = nil
			i++
		case b0 == 28:
			need(3)
			st = append(st, Operand{Val: float64(I16(b, i+1))})
			i += 3
		case b0 == 29:
			need(5)
			st = append(st, Operand{Val: float64(int32(U32(b, i+1)))})
			i += 5
		case b0 == 30:
			i++
			txt := ""
			done := false
			for !done {
				if i >= len(b) {
					cffFail("DICT real truncated")
				}
				for _, nib := range []byte{b[i] >> 4, b[i] & 15} {
					if done {
						if nib != 15 {
							cffFail("DICT real padding nibble %x", nib)
						}
						continue
					}
					switch {
					case nib < 10:
						txt += string('0' + rune(nib))
					case nib == 10:
						txt += "."
					case nib == 11:
						txt += "E"
					case nib == 12:
						txt += "E-"
					case nib == 13:
						cffFail("DICT real reserved nibble")
					case nib == 14:
						txt += "-"
					default:
						done = true
					}
				}
				i++
			}
			x, err := strconv.ParseFloat(txt, 64)
			if err != nil {
				cffFail("DICT real %q", txt)
			}
			st = append(st, Operand{IsReal: true, Val: x, Text: txt})
		case b0 >= 32 && b0 <= 246:
			st = append(st, Operand{Val: float64(b0 - 139)})
			i++
		case b0 >= 247 && b0 <= 250:
			need(2)
			st = append(st, Operand{Val: float64((b0-247)*256 + int(b[i+1]) + 108)})
			i += 2
		case b0 >= 251 && b0 <= 254:
			need(2)
			st = append(st, Operand{Val: float64(-(b0-251)*256 - int(b[i+1]) - 108)})
			i += 2
		default:
			cffFail("DICT reserved byte %d", b0)
		}
		if len(st) > 48 {
			cffFail("DICT operand stack overflow")
		}
	}
	if len(st) > 0 {
		cffFail("DICT with trailing operands")
	}
	return res
}

func (d Dict) num(op int, def float64) float64 {
	v, ok := d[op]
	if !ok {
		return def
	}
	if len(v) != 1 {
		cffFail("operator %x has %d operands", op, len(v))
	}
	return v[0].Val
}

func (d Dict) offset(op int, def int) int {
	v, ok := d[op]
	if !ok {
		return def
	}
	if len(v) != 1 || v[0].IsReal {
		cffFail("operator %x: bad offset", op)
	}
	return int(v[0].Val)
}

// Num returns a number from the DICT.
func (d Dict) Num(op int, def float64) float64 { return d.num(op, def) }

// Delta returns the absolute values of a delta array.
func (d Dict) Delta(op int) []float64 {
	var res []float64
	var s float64
	for _, o := range d[op] {
		s += o.Val
		res = append(res, s)
	}
	return res
}

// ParseCFF parses a CFF font strictly, following Adobe TN 5176.
func ParseCFF(b []byte) (c *CFF, err error) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(cffErr); ok {
				c, err = nil, fmt.Errorf("CFF: %s", string(e))
				return
			}
			panic(r)
		}
	}()
	c = &CFF{}
	if len(b) < 4 {
		cffFail("no header")
	}
	if b[0] != 1 || b[1] != 0 || b[2] < 4 || b[3] < 1 || b[3] > 4 {
		cffFail("bad header % x", b[:4])
	}
	c.OffSize = int(b[3])
	span := func(name string, from, to int) {
		if from < 0 || to > len(b) || to < from {
			cffFail("%s outside data", name)
		}
		c.Spans = append(c.Spans, Span{name, from, to})
	}
	pos := int(b[2])
	span("header", 0, pos)
	names, p2 := cffIndexAt(b, pos)
	span("Name INDEX", pos, p2)
	if len(names) != 1 {
		cffFail("%d fonts", len(names))
	}
	c.Name = string(names[0])
	tops, p3 := cffIndexAt(b, p2)
	span("Top DICT INDEX", p2, p3)
	if len(tops) != 1 {
		cffFail("%d top dicts", len(tops))
	}
	ss, p4 := cffIndexAt(b, p3)
	span("String INDEX", p3, p4)
	for _, s := range ss {
		c.Strings = append(c.Strings, string(s))
	}
	var p5 int
	c.GSubrs, p5 = cffIndexAt(b, p4)
	span("Global Subr INDEX", p4, p5)

	c.Top = cffDict(tops[0])
	if c.Top.num(0x0c06, 2) != 2 {
		cffFail("charstring type")
	}
	for _, op := range []int{0, 1, 2, 3, 4, 0x0c00} {
		if v, ok := c.Top[op]; ok {
			if len(v) != 1 || v[0].IsReal {
				cffFail("bad SID operand for %x", op)
			}
			if _, err := c.String(int(v[0].Val)); err != nil {
				cffFail("operator %x: %v", op, err)
			}
		}
	}
	csOff := c.Top.offset(17, 0)
	if csOff == 0 {
		cffFail("no CharStrings")
	}
	var e int
	c.CharStrings, e = cffIndexAt(b, csOff)
	span("CharStrings", csOff, e)
	n := len(c.CharStrings)
	if n == 0 {
		cffFail("no glyphs")
	}

	_, c.IsCID = c.Top[0x0c1e]

	// charset
	co := c.Top.offset(15, 0)
	if co <= 2 {
		c.CharsetKind = "predefined"
		if c.IsCID {
			cffFail("predefined charset in a CID-keyed font")
		}
		if n > len(CFFPredefCharsets[co]) {
			cffFail("predefined charset too short")
		}
		c.Charset = CFFPredefCharsets[co][:n]
	} else {
		at := func(k int) {
			if k > len(b) {
				cffFail("charset truncated")
			}
		}
		p := co
		at(p + 1)
		f := int(b[p])
		p++
		c.CharsetKind = fmt.Sprint("format ", f)
		c.Charset = []int{0}
		switch f {
		case 0:
			for len(c.Charset) < n {
				at(p + 2)
				c.Charset = append(c.Charset, U16(b, p))
				p += 2
			}
		case 1, 2:
			for len(c.Charset) < n {
				at(p + 2 + f)
				first := U16(b, p)
				left := int(b[p+2])
				if f == 2 {
					left = U16(b, p+2)
				}
				p += 2 + f
				for i := 0; i <= left; i++ {
					if len(c.Charset) >= n {
						cffFail("charset range too long")
					}
					if first+i > 65535 {
						cffFail("charset range overflows")
					}
					c.Charset = append(c.Charset, first+i)
				}
			}
		default:
			cffFail("charset format %d", f)
		}
		span("charset", co, p)
	}

	readPrivate := func(d Dict, name string) CFFFD {
		v, ok := d[18]
		if !ok || len(v) != 2 || v[0].IsReal || v[1].IsReal {
			cffFail("%s: bad Private operator", name)
		}
		sz, off := int(v[0].Val), int(v[1].Val)
		span(name+" Private", off, off+sz)
		fd := CFFFD{Dict: d, Private: cffDict(b[off : off+sz])}
		fd.Default = fd.Private.num(20, 0)
		fd.Nominal = fd.Private.num(21, 0)
		if so := fd.Private.offset(19, 0); so != 0 {
			var e int
			fd.Subrs, e = cffIndexAt(b, off+so)
			c.Spans = append(c.Spans, Span{"Local Subrs", off + so, e})
		}
		return fd
	}

	if c.IsCID {
		ros := c.Top[0x0c1e]
		if len(ros) != 3 || ros[0].IsReal || ros[1].IsReal {
			cffFail("bad ROS")
		}
		if b[p2+3+2*int(b[p2+2])] == 0 && false {
			cffFail("unreachable")
		}
		fdo := c.Top.offset(0x0c24, 0)
		fds, e := cffIndexAt(b, fdo)
		span("FDArray", fdo, e)
		if len(fds) < 1 || len(fds) > 256 {
			cffFail("%d font DICTs", len(fds))
		}
		for i, fb := range fds {
			c.FDs = append(c.FDs, readPrivate(cffDict(fb), fmt.Sprint("FD ", i)))
		}
		so := c.Top.offset(0x0c25, 0)
		if so < 4 || so >= len(b) {
			cffFail("bad FDSelect offset")
		}
		c.FDSelKind = fmt.Sprint("format ", b[so])
		switch b[so] {
		case 0:
			span("FDSelect", so, so+1+n)
			for i := 0; i < n; i++ {
				c.FDSelect = append(c.FDSelect, int(b[so+1+i]))
			}
		case 3:
			if so+3 > len(b) {
				cffFail("FDSelect truncated")
			}
			nr := U16(b, so+1)
			end := so + 3 + 3*nr + 2
			span("FDSelect", so, end)
			if nr == 0 {
				cffFail("FDSelect without ranges")
			}
			prev := -1
			for r := 0; r < nr; r++ {
				q := so + 3 + 3*r
				first, next := U16(b, q), U16(b, q+3)
				if r == 0 && first != 0 || first <= prev || next <= first {
					cffFail("FDSelect ranges not increasing")
				}
				prev = first
				for len(c.FDSelect) < next {
					c.FDSelect = append(c.FDSelect, int(b[q+2]))
				}
			}
			if len(c.FDSelect) != n {
				cffFail("FDSelect covers %d of %d glyphs", len(c.FDSelect), n)
			}
		default:
			cffFail("FDSelect format %d", b[so])
		}
		for _, x := range c.FDSelect {
			if x >= len(c.FDs) {
				cffFail("FDSelect value %d out of range", x)
			}
		}
		if c.Charset[0] != 0 {
			cffFail("CID of glyph 0")
		}
		seen := map[int]bool{}
		for _, x := range c.Charset {
			if seen[x] {
				cffFail("duplicate CID %d", x)
			}
			seen[x] = true
		}
	} else {
		c.FDs = []CFFFD{readPrivate(c.Top, "Top")}
		c.FDSelect = make([]int, n)
		for _, sid := range c.Charset {
			if _, err := c.String(sid); err != nil {
				cffFail("charset: %v", err)
			}
		}
		eo := c.Top.offset(16, 0)
		if eo <= 1 {
			c.EncodingID = eo
			c.EncKind = "predefined"
			gidOf := map[int]int{}
			for i := n - 1; i >= 1; i-- {
				gidOf[c.Charset[i]] = i
			}
			for code, sid := range CFFPredefEncodings[eo] {
				if sid != 0 {
					c.Encoding[code] = gidOf[sid]
				}
			}
		} else {
			c.EncodingID = -1
			at := func(k int) {
				if k > len(b) {
					cffFail("encoding truncated")
				}
			}
			p := eo
			at(p + 2)
			f := int(b[p])
			cnt := int(b[p+1])
			p += 2
			seen := map[int]bool{}
			gid := 1
			add := func(code, g int) {
				if g >= n {
					cffFail("encoding for glyph %d of %d", g, n)
				}
				if seen[code] {
					cffFail("code %d encoded twice", code)
				}
				seen[code] = true
				c.Encoding[code] = g
			}
			c.EncKind = fmt.Sprint("format ", f&127)
			switch f & 127 {
			case 0:
				at(p + cnt)
				for i := 0; i < cnt; i++ {
					add(int(b[p+i]), gid)
					gid++
				}
				p += cnt
			case 1:
				at(p + 2*cnt)
				for i := 0; i < cnt; i++ {
					first, left := int(b[p]), int(b[p+1])
					p += 2
					for k := 0; k <= left; k++ {
						if first+k > 255 {
							cffFail("encoding range overflows")
						}
						add(first+k, gid)
						gid++
					}
				}
			default:
				cffFail("encoding format %d", f)
			}
			if f&128 != 0 {
				c.EncKind += "+supplement"
				at(p + 1)
				ns := int(b[p])
				p++
				at(p + 3*ns)
				for i := 0; i < ns; i++ {
					sid := U16(b, p+1)
					g := -1
					for k, s := range c.Charset {
						if s == sid {
							g = k
							break
						}
					}
					if g < 0 {
						cffFail("encoding supplement for unknown SID %d", sid)
					}
					add(int(b[p]), g)
					p += 3
				}
			}
			span("encoding", eo, p)
		}
	}

	// No two structures may overlap (identical ranges are fine, so are the
	// shared empty subroutine INDEX).
	sp := append([]Span{}, c.Spans...)
	sort.SliceStable(sp, func(i, j int) bool { return sp[i].From < sp[j].From })
	for i := 1; i < len(sp); i++ {
		a, z := sp[i-1], sp[i]
		if z.From < a.To && !(z.From == a.From && z.To == a.To) && z.To > z.From {
			cffFail("%s [%d,%d) overlaps %s [%d,%d)", a.Name, a.From, a.To, z.Name, z.From, z.To)
		}
	}
	return c, nil
}

// Digits9 reports whether x agrees with want to nine significant digits.
func Digits9(x, want float64) bool {
	if x == want {
		return true
	}
	a := new(big.Float).SetPrec(200).SetFloat64(x)
	w := new(big.Float).SetPrec(200).SetFloat64(want)
	d := new(big.Float).SetPrec(200).Sub(a, w)
	d.Abs(d)
	w.Abs(w)
	// half a unit in the ninth digit, relative to the value: <= 5e-9
	w.Mul(w, big.NewFloat(5.0001e-9))
	return d.Cmp(w) <= 0
}
