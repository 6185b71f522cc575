package ref

import "fmt"

// GPoint is a point of a TrueType outline.
type GPoint struct {
	X, Y int
	On   bool
}

// GComp is a component record of a composite glyph.
type GComp struct {
	Flags int
	GID   int
	Args  []byte
}

// GGlyph is a decoded TrueType glyph.
type GGlyph struct {
	NumContours  int
	BBox         [4]int
	Contours     [][]GPoint
	Comps        []GComp
	Instructions []byte
	HasInstr     bool
	Used         int // number of bytes needed
}

// ParseLoca decodes the loca table strictly.
func ParseLoca(loca []byte, format, numGlyphs, glyfLen int) ([]int, error) {
	var offs []int
	switch format {
	case 0:
		if len(loca) != 2*(numGlyphs+1) {
			return nil, fmt.Errorf("short loca has %d bytes for %d glyphs", len(loca), numGlyphs)
		}
		for i := 0; i <= numGlyphs; i++ {
			offs = append(offs, 2*U16(loca, 2*i))
		}
	case 1:
		if len(loca) != 4*(numGlyphs+1) {
			return nil, fmt.Errorf("long loca has %d bytes for %d glyphs", len(loca), numGlyphs)
		}
		for i := 0; i <= numGlyphs; i++ {
			offs = append(offs, int(U32(loca, 4*i)))
		}
	default:
		return nil, fmt.Errorf("loca format %d", format)
	}
	for i, o := range offs {
		if i > 0 && o < offs[i-1] {
			return nil, fmt.Errorf("loca offset %d decreases", i)
		}
		if o > glyfLen {
			return nil, fmt.Errorf("loca offset %d = %d outside glyf (%d)", i, o, glyfLen)
		}
	}
	return offs, nil
}

// ParseGlyph decodes a glyph description; nil for an empty glyph.
func ParseGlyph(d []byte) (*GGlyph, error) {
	if len(d) == 0 {
		return nil, nil
	}
	if len(d) < 10 {
		return nil, fmt.Errorf("glyph header truncated")
	}
	g := &GGlyph{NumContours: I16(d, 0)}
	for i := 0; i < 4; i++ {
		g.BBox[i] = I16(d, 2+2*i)
	}
	pos := 10
	need := func(n int) error {
		if pos+n > len(d) {
			return fmt.Errorf("glyph truncated at %d+%d", pos, n)
		}
		return nil
	}
	if g.NumContours == 0 {
		if len(d) >= 12 {
			n := U16(d, 10)
			pos = 12
			if err := need(n); err != nil {
				return nil, err
			}
			g.Instructions = d[12 : 12+n]
			pos += n
		}
		g.Used = pos
		return g, nil
	}
	if g.NumContours < 0 {
		for {
			if err := need(4); err != nil {
				return nil, err
			}
			c := GComp{Flags: U16(d, pos), GID: U16(d, pos+2)}
			pos += 4
			n := 2
			if c.Flags&1 != 0 {
				n = 4
			}
			switch {
			case c.Flags&8 != 0:
				n += 2
			case c.Flags&0x40 != 0:
				n += 4
			case c.Flags&0x80 != 0:
				n += 8
			}
			if err := need(n); err != nil {
				return nil, err
			}
			c.Args = d[pos : pos+n]
			pos += n
			g.Comps = append(g.Comps, c)
			if c.Flags&0x100 != 0 {
				g.HasInstr = true
			}
			if c.Flags&0x20 == 0 {
				break
			}
		}
		if g.HasInstr {
			if err := need(2); err != nil {
				return nil, err
			}
			n := U16(d, pos)
			pos += 2
			if err := need(n); err != nil {
				return nil, err
			}
			g.Instructions = d[pos : pos+n]
			pos += n
		}
		g.Used = pos
		return g, nil
	}
	if err := need(2*g.NumContours + 2); err != nil {
		return nil, err
	}
	var ends []int
	prev := -1
	for i := 0; i < g.NumContours; i++ {
		e := U16(d, pos)
		if e <= prev {
			return nil, fmt.Errorf("endPtsOfContours not increasing")
		}
		prev = e
		ends = append(ends, e)
		pos += 2
	}
	n := U16(d, pos)
	pos += 2
	if err := need(n); err != nil {
		return nil, err
	}
	g.Instructions = d[pos : pos+n]
	pos += n
	numPoints := prev + 1
	var flags []byte
	for len(flags) < numPoints {
		if err := need(1); err != nil {
			return nil, err
		}
		f := d[pos]
		pos++
		flags = append(flags, f)
		if f&8 != 0 {
			if err := need(1); err != nil {
				return nil, err
			}
			for r := int(d[pos]); r > 0; r-- {
				flags = append(flags, f)
			}
			pos++
		}
	}
	if len(flags) != numPoints {
		return nil, fmt.Errorf("flag repeat passes the last point")
	}
	coords := func(short, same byte) ([]int, error) {
		var res []int
		v := 0
		for _, f := range flags {
			switch {
			case f&short != 0:
				if err := need(1); err != nil {
					return nil, err
				}
				if f&same != 0 {
					v += int(d[pos])
				} else {
					v -= int(d[pos])
				}
				pos++
			case f&same == 0:
				if err := need(2); err != nil {
					return nil, err
				}
				v += I16(d, pos)
				pos += 2
			}
			res = append(res, v)
		}
		return res, nil
	}
	xs, err := coords(2, 16)
	if err != nil {
		return nil, err
	}
	ys, err := coords(4, 32)
	if err != nil {
		return nil, err
	}
	start := 0
	for _, e := range ends {
		var c []GPoint
		for i := start; i <= e; i++ {
			c = append(c, GPoint{xs[i], ys[i], flags[i]&1 != 0})
		}
		g.Contours = append(g.Contours, c)
		start = e + 1
	}
	g.Used = pos
	return g, nil
}
