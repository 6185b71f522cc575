package gen

import (
	"pgregory.net/rapid"
	"seehuhn.de/go/postscript/funit"
	"seehuhn.de/go/sfnt/glyf"
	"seehuhn.de/go/sfnt/glyph"
	"seehuhn.de/go/sfnt/verif/ref"
)

// Mix is a hash function.
func Mix(a, b uint32) uint32 {
	h := a*2654435761 ^ b*0x85ebca6b
	h ^= h >> 15
	h *= 0x2c1b3c6d
	h ^= h >> 12
	return h
}

func i16() *rapid.Generator[int] {
	return rapid.OneOf(rapid.IntRange(-32768, 32767), rapid.IntRange(-3, 3), rapid.IntRange(-1000, 1000),
		rapid.SampledFrom([]int{-32768, 32767, -255, 255, 256, -256}))
}

func DrawBytes(t *rapid.T, label string, max int) []byte {
	n := rapid.OneOf(rapid.Just(0), rapid.IntRange(0, 9), rapid.IntRange(0, max)).Draw(t, label+"Len")
	b := make([]byte, n)
	seed := rapid.Uint32().Draw(t, label+"Seed")
	for i := range b {
		b[i] = byte(Mix(seed, uint32(i)))
	}
	return b
}

// RawGlyph is a generated glyph together with its canonical bytes.
type RawGlyph struct {
	Kind   string
	Bytes  []byte // without padding; nil for an empty glyph
	G      *ref.GGlyph
	XOK    bool // within what x/image supports
	NFlags map[string]bool
}

var deltaGen = rapid.OneOf(rapid.Just(0), rapid.IntRange(-20, 20), rapid.IntRange(-255, 255),
	rapid.SampledFrom([]int{255, -255, 256, -256, 1, -1}), rapid.IntRange(-3000, 3000), rapid.IntRange(-40000, 40000))

// drawSimple builds a simple glyph in one of the many possible encodings.
func DrawSimple(t *rapid.T, maxPoints int) RawGlyph {
	r := RawGlyph{Kind: "simple", XOK: true, NFlags: map[string]bool{}}
	nc := rapid.OneOf(rapid.IntRange(1, 4), rapid.IntRange(0, 8)).Draw(t, "contours")
	g := &ref.GGlyph{NumContours: nc}
	for i := range g.BBox {
		g.BBox[i] = i16().Draw(t, "bbox")
	}
	out := ref.P16(nc)
	for _, v := range g.BBox {
		out = append(out, ref.P16(v)...)
	}
	if nc == 0 {
		r.Kind = "zero contours"
		if rapid.IntRange(0, 2).Draw(t, "headerOnly") > 0 {
			ins := DrawBytes(t, "ins", 40)
			out = append(out, ref.P16(len(ins))...)
			out = append(out, ins...)
			g.Instructions = ins
		} else {
			r.Kind = "zero contours, header only"
		}
		r.Bytes = out
		r.G = g
		return r
	}
	// points
	type pt struct{ dx, dy int }
	var flags []byte
	var deltas []pt
	x, y := 0, 0
	var repeatProb = rapid.IntRange(0, 3).Draw(t, "repeatProb")
	total := 0
	for i := 0; i < nc; i++ {
		n := rapid.OneOf(rapid.IntRange(1, 6), rapid.IntRange(1, maxPoints)).Draw(t, "points")
		var c []ref.GPoint
		big := n > 30
		var seed uint32
		if big {
			seed = rapid.Uint32().Draw(t, "ptSeed")
		}
		for j := 0; j < n; j++ {
			var dx, dy int
			var f byte
			if big {
				h := Mix(seed, uint32(j/(1+int(seed%7))))
				if h%3 != 0 {
					dx = int(h>>8%40) - 20
				}
				if h%5 > 1 {
					dy = int(h>>16%40) - 20
				}
				f = byte(h>>3&1) | byte(h>>9&0xC0)
				if h>>20%50 == 0 {
					dx, dy = int(h>>4%5000)-2500, int(h>>5%5000)-2500
				}
			} else {
				dx, dy = deltaGen.Draw(t, "dx"), deltaGen.Draw(t, "dy")
				f = rapid.SampledFrom([]byte{0, 1, 1, 0x40, 0x41, 0x80, 0xC1}).Draw(t, "flag")
			}
			if x+dx < -32768 || x+dx > 32767 || dx < -32768 || dx > 32767 {
				dx = 0
			}
			if y+dy < -32768 || y+dy > 32767 || dy < -32768 || dy > 32767 {
				dy = 0
			}
			x += dx
			y += dy
			c = append(c, ref.GPoint{X: x, Y: y, On: f&1 != 0})
			alt := uint32(0)
			if big {
				alt = seed & 0xF
			} else {
				alt = uint32(rapid.IntRange(0, 15).Draw(t, "alt"))
			}
			enc := func(d int, short, same byte, alt uint32) {
				switch {
				case d == 0:
					switch alt & 3 {
					case 0, 1:
						f |= same
					case 2:
						f |= short // -0
						if alt&4 != 0 {
							f |= same // +0
						}
						r.NFlags["short zero"] = true
					case 3:
						r.NFlags["long zero"] = true
					}
				case d >= -255 && d <= 255:
					if alt&3 == 3 {
						r.NFlags["long small delta"] = true
						return
					}
					f |= short
					if d > 0 {
						f |= same
					}
				default:
					r.NFlags["long delta"] = true
				}
			}
			enc(dx, 2, 16, alt)
			enc(dy, 4, 32, alt>>2)
			flags = append(flags, f)
			deltas = append(deltas, pt{dx, dy})
		}
		g.Contours = append(g.Contours, c)
		total += n
		out = append(out, ref.P16(total-1)...)
	}
	ins := DrawBytes(t, "ins", 300)
	g.Instructions = ins
	out = append(out, ref.P16(len(ins))...)
	out = append(out, ins...)
	// flags with repeats
	var maxRep = rapid.SampledFrom([]int{255, 255, 1, 3, 0}).Draw(t, "maxRepeat")
	for i := 0; i < len(flags); {
		j := i + 1
		for j < len(flags) && flags[j] == flags[i] && j-i <= maxRep {
			j++
		}
		use := j-i > 1 && repeatProb > 0
		if repeatProb == 3 && j-i == 1 && i%3 == 0 {
			use = true // a repeat count of zero
			r.NFlags["repeat 0"] = true
		}
		if use {
			out = append(out, flags[i]|8, byte(j-i-1))
			r.NFlags["repeat"] = true
			i = j
		} else {
			out = append(out, flags[i])
			i++
		}
	}
	put := func(d int, f, short byte, same byte) {
		switch {
		case f&short != 0:
			if d < 0 {
				d = -d
			}
			out = append(out, byte(d))
		case f&same == 0:
			out = append(out, ref.P16(d)...)
		}
	}
	for i, d := range deltas {
		put(d.dx, flags[i], 2, 16)
	}
	for i, d := range deltas {
		put(d.dy, flags[i], 4, 32)
	}
	r.Bytes = out
	r.G = g
	return r
}

func DrawComposite(t *rapid.T, numGlyphs int) RawGlyph {
	r := RawGlyph{Kind: "composite", NFlags: map[string]bool{}}
	g := &ref.GGlyph{NumContours: -1}
	for i := range g.BBox {
		g.BBox[i] = i16().Draw(t, "bbox")
	}
	out := ref.P16(-1)
	for _, v := range g.BBox {
		out = append(out, ref.P16(v)...)
	}
	n := rapid.OneOf(rapid.IntRange(1, 3), rapid.IntRange(1, 12)).Draw(t, "comps")
	instr := rapid.IntRange(0, 2).Draw(t, "instr")
	for i := 0; i < n; i++ {
		f := int(rapid.Uint16().Draw(t, "compFlags"))
		if rapid.Bool().Draw(t, "usual") {
			f &= 0x0003 | 0x0004 | 0x0200 | 0x0400
			f |= rapid.SampledFrom([]int{0, 8, 0x40, 0x80}).Draw(t, "scale")
		}
		f &^= 0x120
		if i+1 < n {
			f |= 0x20
		}
		if instr == 1 && i+1 == n || instr == 2 && rapid.Bool().Draw(t, "instrHere") {
			f |= 0x100
			g.HasInstr = true
		}
		if f&2 == 0 || f&0xE010 != 0 {
			r.NFlags["unusual component flags"] = true
		}
		c := ref.GComp{Flags: f}
		c.GID = rapid.OneOf(rapid.IntRange(0, numGlyphs-1), rapid.IntRange(0, 65535)).Draw(t, "compGID")
		k := 2
		if f&1 != 0 {
			k = 4
		}
		switch {
		case f&8 != 0:
			k += 2
		case f&0x40 != 0:
			k += 4
		case f&0x80 != 0:
			k += 8
		}
		for j := 0; j < k; j++ {
			c.Args = append(c.Args, rapid.Byte().Draw(t, "arg"))
		}
		out = append(out, ref.P16(f)...)
		out = append(out, ref.P16(c.GID)...)
		out = append(out, c.Args...)
		g.Comps = append(g.Comps, c)
	}
	if g.HasInstr {
		g.Instructions = DrawBytes(t, "ins", 100)
		out = append(out, ref.P16(len(g.Instructions))...)
		out = append(out, g.Instructions...)
		r.NFlags["composite instructions"] = true
	}
	r.Bytes = out
	r.G = g
	return r
}

func DrawGlyphs(t *rapid.T) []RawGlyph {
	n := rapid.OneOf(rapid.IntRange(1, 6), rapid.IntRange(1, 20)).Draw(t, "numGlyphs")
	maxPts := 12
	if rapid.IntRange(0, 20).Draw(t, "big") == 0 {
		maxPts = 700
	}
	var gg []RawGlyph
	for i := 0; i < n; i++ {
		switch rapid.IntRange(0, 6).Draw(t, "kind") {
		case 0:
			gg = append(gg, RawGlyph{Kind: "empty"})
		case 1, 2:
			gg = append(gg, DrawComposite(t, n))
		default:
			gg = append(gg, DrawSimple(t, maxPts))
		}
	}
	return gg
}

// Value returns the library representation of the glyph.
func (r RawGlyph) Value() *glyf.Glyph {
	if r.Bytes == nil {
		return nil
	}
	g := &glyf.Glyph{Rect16: funit.Rect16{
		LLx: funit.Int16(r.G.BBox[0]), LLy: funit.Int16(r.G.BBox[1]),
		URx: funit.Int16(r.G.BBox[2]), URy: funit.Int16(r.G.BBox[3])}}
	if r.G.NumContours < 0 {
		c := glyf.CompositeGlyph{}
		for _, x := range r.G.Comps {
			c.Components = append(c.Components, glyf.GlyphComponent{
				Flags: glyf.ComponentFlag(x.Flags), GlyphIndex: glyph.ID(x.GID), Data: append([]byte{}, x.Args...)})
		}
		if r.G.HasInstr {
			c.Instructions = append([]byte{}, r.G.Instructions...)
		}
		g.Data = c
	} else {
		g.Data = glyf.SimpleGlyph{NumContours: int16(r.G.NumContours), Encoded: append([]byte{}, r.Bytes[10:]...)}
	}
	return g
}
