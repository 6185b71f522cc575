package c02

import (
	"fmt"
	"math/rand/v2"
	"os"
	"testing"

	"seehuhn.de/go/sfnt/verif/gen"
	"seehuhn.de/go/sfnt/verif/pbt"
	"seehuhn.de/go/sfnt/verif/ref"
)

// A bomb is a small input which describes a large amount of data.
type bomb struct {
	name    string
	decoder string
	make    func(rng *rand.Rand, size int) []byte
}

func p16(v ...int) []byte {
	var b []byte
	for _, x := range v {
		b = append(b, byte(x>>8), byte(x))
	}
	return b
}

func p32(v int) []byte { return ref.P32(uint32(v)) }

func rep(b []byte, n int) []byte {
	var res []byte
	for range n {
		res = append(res, b...)
	}
	return res
}

func t2int(x int) []byte {
	if x >= -107 && x <= 107 {
		return []byte{byte(x + 139)}
	}
	return []byte{28, byte(x >> 8), byte(x)}
}

// callTree gives subroutines, where each one calls the next one several times.
func callTree(levels, calls int, op byte, leaf []byte) [][]byte {
	var subrs [][]byte
	for i := range levels {
		var b []byte
		if i == levels-1 {
			b = append(b, leaf...)
		} else {
			b = rep(append(t2int(i+1-107), op), calls)
		}
		subrs = append(subrs, append(b, 11))
	}
	return subrs
}

func cffFont(glyphs, gsubrs, subrs [][]byte) []byte {
	a := &gen.CFFAsm{Name: "Bomb", PreEncoding: 0, PreCharset: 0, CharStrings: glyphs, GSubrs: gsubrs, FDs: []gen.AsmFD{{Subrs: subrs, HasSubrs: len(subrs) > 0}}}
	if len(glyphs) > 200 {
		a.ROS = append(append(gen.DictInt(34, 1), gen.DictInt(35, 1)...), gen.DictInt(0, 1)...)
		a.PreCharset = -1
		a.Charset = append([]byte{2}, p16(1, len(glyphs)-2)...)
		a.FDSelect = append([]byte{3}, append(p16(1, 0), append([]byte{0}, p16(len(glyphs))...)...)...)
	}
	return a.Bytes()
}

// ranges gives a coverage table with a large range.
func wideCoverage(from, to int) []byte { return p16(2, 1, from, to, 0) }

// gtabBomb encodes a GSUB/GPOS table where the lookups share their data.
func gtabBomb(lookups, subtables, tp int, subtable []byte) []byte {
	b := p16(1, 0, 10, 12, 14, 0, 0)
	b = append(b, p16(lookups)...)
	for range lookups {
		b = append(b, p16(2+2*lookups)...)
	}
	b = append(b, p16(tp, 0, subtables)...)
	for range subtables {
		b = append(b, p16(6+2*subtables)...)
	}
	return append(b, subtable...)
}

var bombs = []bomb{
	{"subroutine calls", "cff", func(rng *rand.Rand, size int) []byte {
		leaf := [][]byte{{}, {139, 22}, {140, 6}, {140, 140, 5}, {139, 139, 139, 139, 139, 139, 8}, {139, 12, 18}}[rng.IntN(6)]
		levels, calls := 2+rng.IntN(9), 2+rng.IntN(max(2, size/20))
		op := byte(10)
		tree := callTree(levels, calls, op, leaf)
		glyph := append(append([]byte{139, 139, 21}, t2int(-107)...), op, 14)
		if rng.IntN(2) == 0 {
			tree = callTree(levels, calls, 29, leaf)
			glyph[len(glyph)-2] = 29
			return cffFont([][]byte{{14}, glyph}, tree, nil)
		}
		return cffFont([][]byte{{14}, glyph}, nil, tree)
	}},
	{"large subroutine", "cff", func(rng *rand.Rand, size int) []byte {
		big := append(rep([]byte{140, 6}, size/4), 11)
		glyph := append(append([]byte{139, 139, 21}, t2int(-107)...), 10, 14)
		glyphs := [][]byte{{14}}
		for range size / 16 {
			glyphs = append(glyphs, glyph)
		}
		return cffFont(glyphs, nil, [][]byte{big})
	}},
	{"large hint subroutine", "cff", func(rng *rand.Rand, size int) []byte {
		big := append(rep([]byte{139, 12, 18}, size/6), 11)
		glyph := append(t2int(-107), 10, 14)
		glyphs := [][]byte{{14}}
		for range size / 16 {
			glyphs = append(glyphs, glyph)
		}
		return cffFont(glyphs, nil, [][]byte{big})
	}},
	{"shared private dict", "cff", func(rng *rand.Rand, size int) []byte {
		// the Private DICTs have the same contents, but are stored only once
		a := &gen.CFFAsm{Name: "Bomb", PreEncoding: -1, PreCharset: -1, CharStrings: [][]byte{{14}, {14}}}
		a.ROS = append(append(gen.DictInt(34, 1), gen.DictInt(35, 1)...), gen.DictInt(0, 1)...)
		a.Charset = append([]byte{2}, p16(1, 0)...)
		a.FDSelect = []byte{0, 0, 0}
		a.FDs = []gen.AsmFD{{Subrs: [][]byte{make([]byte, size/2), {11}, rep([]byte{11}, 100)}, HasSubrs: true}}
		for range 255 {
			a.FDs = append(a.FDs, gen.AsmFD{})
		}
		return a.Bytes()
	}},
	{"overlapping strings", "name", func(rng *rand.Rand, size int) []byte {
		n := size / 24
		storage := 6 + 12*n
		l := min(size/2, 65535)
		b := p16(0, n, min(storage, 65535))
		for i := range n {
			if rng.IntN(2) == 0 {
				b = append(b, p16(3, 1, 0x409, i, l, 0)...)
			} else {
				b = append(b, p16(1, 0, 0, i, l, 0)...)
			}
		}
		return append(b, rep([]byte{0, 65}, l/2+1)...)
	}},
	{"overlapping strings, few IDs", "name", func(rng *rand.Rand, size int) []byte {
		n := size / 24
		storage := 6 + 12*n
		l := min(size/2, 65535) - 100
		b := p16(0, n, min(storage, 65535))
		for i := range n {
			b = append(b, p16(3, 1, 0x409, i%20, l, i%100)...)
		}
		return append(b, rep([]byte{0, 65}, l/2+100)...)
	}},
	{"shared lookups", "GSUB", func(rng *rand.Rand, size int) []byte {
		n := min(size/4, 3000)
		return gtabBomb(n, 1, 1, append(p16(1, 6, 5), wideCoverage(0, 65535)...))
	}},
	{"shared subtables", "GSUB", func(rng *rand.Rand, size int) []byte {
		n := min(size/4, 5900)
		return gtabBomb(1, n, 1, append(p16(1, 6, 5), wideCoverage(0, 65535)...))
	}},
	{"shared lookup, many subtables", "GPOS", func(rng *rand.Rand, size int) []byte {
		n := min(size/4, 5900)
		k := 1 + rng.IntN(min(n, 70))
		return gtabBomb(k, n/k, 1, append(p16(1, 8, 4, 5), wideCoverage(0, 65535)...))
	}},
	{"shared ligature sets", "GSUB", func(rng *rand.Rand, size int) []byte {
		k := min(size/8, 20000)
		sub := p16(1, 6+2*k, k)
		for range k {
			sub = append(sub, p16(6+2*k+10)...)
		}
		sub = append(sub, wideCoverage(0, k-1)...)
		m := min(size/8, 3000)
		sub = append(sub, p16(m)...)
		for range m {
			sub = append(sub, p16(2+2*m)...)
		}
		sub = append(sub, p16(7, 3, 8, 9)...)
		return gtabBomb(1, 1, 4, sub)
	}},
	{"shared alternates", "GSUB", func(rng *rand.Rand, size int) []byte {
		k := min(size/8, 20000)
		sub := p16(1, 6+2*k, k)
		for range k {
			sub = append(sub, p16(6+2*k+10)...)
		}
		sub = append(sub, wideCoverage(0, k-1)...)
		m := min(size/8, 10000)
		sub = append(append(sub, p16(m)...), make([]byte, 2*m)...)
		return gtabBomb(1, 1, 2+rng.IntN(2), sub)
	}},
	{"shared rule sets", "GSUB", func(rng *rand.Rand, size int) []byte {
		k := min(size/8, 8000)
		sub := p16(1, 6+2*k, k)
		for range k {
			sub = append(sub, p16(6+2*k+10)...)
		}
		sub = append(sub, wideCoverage(0, k-1)...)
		m := min(size/8, 8000)
		sub = append(sub, p16(m)...)
		for range m {
			sub = append(sub, p16(2+2*m)...)
		}
		tp := 5 + rng.IntN(2)
		if tp == 5 {
			sub = append(sub, p16(2, 1, 3, 0, 0)...)
		} else {
			sub = append(sub, p16(0, 2, 3, 0, 1, 0, 0)...)
		}
		return gtabBomb(1, 1, tp, sub)
	}},
	{"shared context coverage", "GSUB", func(rng *rand.Rand, size int) []byte {
		k := min(size/4, 15000)
		sub := p16(3, k, 0)
		for range k {
			sub = append(sub, p16(6+2*k)...)
		}
		sub = append(sub, wideCoverage(0, 65535)...)
		return gtabBomb(1, 1, 5, sub)
	}},
	{"large classes", "GPOS", func(rng *rand.Rand, size int) []byte {
		// 2.2 with classes 65535, empty records
		c1, c2 := 1+rng.IntN(65535), 1+rng.IntN(65535)
		sub := p16(2, 16, 0, 0, 26, 36, c1, c2)
		sub = append(sub, wideCoverage(0, 65535)...)
		sub = append(sub, p16(2, 1, 0, 65535, 1)...)
		sub = append(sub, p16(2, 1, 0, 65535, 1)...)
		return gtabBomb(min(size/4, 3000), 1, 2, sub)
	}},
	{"shared pair sets", "GPOS", func(rng *rand.Rand, size int) []byte {
		k := min(size/8, 10000)
		sub := p16(1, 10+2*k, rng.IntN(2)*4, 0, k)
		for range k {
			sub = append(sub, p16(10+2*k+10)...)
		}
		sub = append(sub, wideCoverage(0, k-1)...)
		m := min(size/8, 8000)
		sub = append(append(sub, p16(m)...), make([]byte, 4*m)...)
		return gtabBomb(1, 1, 2, sub)
	}},
	{"anchor matrix", "GPOS", func(rng *rand.Rand, size int) []byte {
		// one mark, one class, many bases with the same anchors
		k := min(size/4, 20000)
		sub := p16(1, 12, 22, 1, 32, 44)
		sub = append(sub, wideCoverage(0, 0)...)
		sub = append(sub, wideCoverage(1, k)...)
		sub = append(sub, p16(1, 0, 6)...)
		sub = append(sub, p16(1, 5, 5)...)
		sub = append(sub, p16(k)...)
		for range k {
			sub = append(sub, p16(2+2*k)...)
		}
		sub = append(sub, p16(1, 5, 5)...)
		return gtabBomb(1, 1, []int{4, 6}[rng.IntN(2)], sub)
	}},
	{"many mark classes", "GPOS", func(rng *rand.Rand, size int) []byte {
		k, cl := 1+rng.IntN(65535), 1+rng.IntN(65535)
		sub := p16(1, 12, 22, cl, 32, 44)
		sub = append(sub, wideCoverage(0, 0)...)
		sub = append(sub, wideCoverage(1, min(k, 65535))...)
		sub = append(sub, p16(1, 0, 6)...)
		sub = append(sub, p16(1, 5, 5)...)
		sub = append(sub, p16(k)...)
		sub = append(sub, make([]byte, size)...)
		return gtabBomb(1, 1, []int{4, 5, 6}[rng.IntN(3)], sub)
	}},
	{"language systems", "GSUB", func(rng *rand.Rand, size int) []byte {
		// many language systems share their list of features
		langs := min(size/12, 5000)
		feats := min(size/4, 15000)
		script := p16(0, langs)
		for i := range langs {
			script = append(script, 'A'+byte(i%26), 'A'+byte(i/26%26), 'A'+byte(i/676%26), ' ')
			script = append(script, p16(4+6*langs)...)
		}
		script = append(script, p16(0, 0xFFFF, feats)...)
		script = append(script, make([]byte, 2*feats)...)
		sl := append(p16(1), 'l', 'a', 't', 'n')
		sl = append(append(sl, p16(8)...), script...)
		b := p16(1, 0, 10, 10+len(sl), 10+len(sl)+2)
		return append(append(b, sl...), p16(0, 0)...)
	}},
	{"scripts", "GSUB", func(rng *rand.Rand, size int) []byte {
		tags := []string{"latn", "cyrl", "grek", "arab", "hebr", "thai", "kana", "hani", "DFLT"}
		feats := min(size/4, 15000)
		n := min(size/6, 5000)
		sl := p16(n)
		for i := range n {
			sl = append(sl, tags[i%len(tags)]...)
			sl = append(sl, p16(2+6*n)...)
		}
		sl = append(sl, p16(4, 0, 0, 0xFFFF, feats)...)
		sl = append(sl, make([]byte, 2*feats)...)
		b := p16(1, 0, 10, 0, 0)
		if 10+len(sl) < 65000 {
			b = p16(1, 0, 10, 10+len(sl), 10+len(sl)+2)
		}
		return append(append(b, sl...), p16(0, 0)...)
	}},
	{"features", "GSUB", func(rng *rand.Rand, size int) []byte {
		n := min(size/12, 5000)
		k := min(size/4, 15000)
		fl := p16(n)
		for range n {
			fl = append(fl, "liga"...)
			fl = append(fl, p16(2+6*n)...)
		}
		fl = append(fl, p16(0, k)...)
		fl = append(fl, make([]byte, 2*k)...)
		b := p16(1, 0, 10, 12, 12+len(fl), 0)
		return append(append(b, fl...), p16(0)...)
	}},
	{"mark glyph sets", "GDEF", func(rng *rand.Rand, size int) []byte {
		n := min(size/4, 65535)
		b := p16(1, 2, 0, 0, 0, 0, 14, 1, n)
		for range n {
			b = append(b, p32(4+4*n)...)
		}
		return append(b, wideCoverage(0, 65535)...)
	}},
	{"wide classes", "GDEF", func(rng *rand.Rand, size int) []byte {
		cls := p16(2, size/6)
		for i := range size / 6 {
			cls = append(cls, p16(i*10, min(i*10+9, 65535), 1)...)
		}
		return append(p16(1, 0, 12, 0, 0, 12), cls...)
	}},
	{"ranges", "coverage", func(rng *rand.Rand, size int) []byte {
		b := p16(2, size/6)
		for range size / 6 {
			b = append(b, p16(0, 65535, 0)...)
		}
		return b
	}},
	{"ranges", "set", func(rng *rand.Rand, size int) []byte {
		b := p16(2, size/6)
		for range size / 6 {
			b = append(b, p16(0, 65535, 0)...)
		}
		return b
	}},
	{"ranges", "classdef", func(rng *rand.Rand, size int) []byte {
		b := p16(2, size/6)
		for i := range size / 6 {
			b = append(b, p16(i%2, 65535-i%3, i)...)
		}
		return b
	}},
	{"format 4 segments", "cmap", func(rng *rand.Rand, size int) []byte {
		n := min(size/8, 8000)
		sub := p16(4, min(16+8*n, 65535), 0, 2*n, 0, 0, 0)
		end, start, delta, off := []byte{}, []byte{}, []byte{}, []byte{}
		mode := rng.IntN(3)
		for i := range n {
			e, s := 65535, 0
			if mode == 1 {
				e = 65535 - (n - 1 - i)
				s = i
			} else if mode == 2 {
				e, s = 65000+i*500/n, 1
			}
			end = append(end, p16(e)...)
			start = append(start, p16(s)...)
			delta = append(delta, p16(1+i)...)
			off = append(off, p16(0)...)
		}
		sub = append(append(append(append(append(sub, end...), 0, 0), start...), delta...), off...)
		return append(append(p16(0, 1, 3, 1), p32(12)...), sub...)
	}},
	{"format 12 groups", "cmap", func(rng *rand.Rand, size int) []byte {
		n := size / 12
		sub := append(append(p16(12, 0), p32(16+12*n)...), append(p32(0), p32(n)...)...)
		if step := rng.IntN(3) * 32768; step > 0 {
			// long, disjoint groups
			n = min(n, 0xFFFFFFFE/step)
			sub = append(append(p16(12, 0), p32(16+12*n)...), append(p32(0), p32(n)...)...)
			for i := range n {
				sub = append(append(append(sub, p32(i*step)...), p32(i*step+step-1-rng.IntN(2))...), p32(rng.IntN(2))...)
			}
			return append(append(p16(0, 1, 3, 10), p32(12)...), sub...)
		}
		for i := range n {
			switch rng.IntN(3) {
			case 0:
				sub = append(append(append(sub, p32(i*100)...), p32(i*100+99)...), p32(1)...)
			case 1:
				sub = append(append(append(sub, p32(0)...), p32(65535)...), p32(0)...)
			default:
				sub = append(append(append(sub, p32(i)...), p32(0x7FFFFFFF)...), p32(0)...)
			}
		}
		return append(append(p16(0, 1, 3, 10), p32(12)...), sub...)
	}},
	{"identical subtables", "cmap", func(rng *rand.Rand, size int) []byte {
		n := min(size/8, 5000)
		b := p16(0, n)
		for i := range n {
			b = append(append(b, p16(3, i)...), p32(4+8*n)...)
		}
		m := size / 24
		sub := append(append(p16(12, 0), p32(16+12*m)...), append(p32(0), p32(m)...)...)
		for i := range m {
			sub = append(append(append(sub, p32(i)...), p32(i)...), p32(1)...)
		}
		return append(b, sub...)
	}},
	{"zero-length names", "post", func(rng *rand.Rand, size int) []byte {
		b := append(p16(2, 0), make([]byte, 28)...)
		n := size / 4
		b = append(b, p16(min(n, 65535))...)
		for i := range min(n, 65535) {
			b = append(b, p16(258+i%100)...)
		}
		return append(b, make([]byte, size/2)...)
	}},
	{"shared name", "post", func(rng *rand.Rand, size int) []byte {
		b := append(p16(2, 0), make([]byte, 28)...)
		n := min(size/2, 65535)
		b = append(b, p16(n)...)
		for range n {
			b = append(b, p16(258)...)
		}
		b = append(b, 255)
		return append(b, rep([]byte{'x'}, 255)...)
	}},
	{"many pairs", "kern", func(rng *rand.Rand, size int) []byte {
		n := min(size/14, 65535)
		pairs := []int{10900, 65535}[rng.IntN(2)]
		b := p16(0, n)
		for range n {
			b = append(b, p16(0, 14, 1, pairs, 0, 0, 0)...)
		}
		return append(b, make([]byte, size/2)...)
	}},
	{"claimed pairs", "kern", func(rng *rand.Rand, size int) []byte {
		return append(p16(0, 65535, 0, 65535, 1, 65535, 0, 0, 0), make([]byte, size)...)
	}},
	{"repeated flags", "simple", func(rng *rand.Rand, size int) []byte {
		n := min(size*100, 65535)
		b := p16(1, 0, 0, 0, 0, n-1, 0)
		for k := n; k > 0; k -= 256 {
			b = append(b, 0x3E-0x06, byte(min(k, 256)-1))
		}
		return append(b, make([]byte, 16)...)
	}},
	{"many contours", "simple", func(rng *rand.Rand, size int) []byte {
		n := min(size/2, 32767)
		b := p16(n, 0, 0, 0, 0)
		for i := range n {
			b = append(b, p16(i)...)
		}
		b = append(b, 0, 0)
		for k := n; k > 0; k -= 256 {
			b = append(b, 0x38, byte(min(k, 256)-1))
		}
		return b
	}},
	{"same glyph data", "glyf0", func(rng *rand.Rand, size int) []byte {
		n := min(size/2, 30000)
		return append(append(p16(2*n), make([]byte, 2*n)...), make([]byte, size)...)
	}},
	{"large table", "sfnt", func(rng *rand.Rand, size int) []byte {
		tables := ref.MinimalTables(1 + rng.IntN(60000))
		tables[[]string{"zzzz", "prep", "glyf", "name", "kern"}[rng.IntN(5)]] = make([]byte, size)
		return ref.BuildContainer(0x00010000, tables)
	}},
	{"huge number of glyphs", "sfnt", func(rng *rand.Rand, size int) []byte {
		tables := ref.MinimalTables(3)
		copy(tables["maxp"][4:], p16(65535))
		return ref.BuildContainer(0x00010000, tables)
	}},
	{"overflowing table", "sfnt", func(rng *rand.Rand, size int) []byte {
		b := ref.BuildContainer(0x00010000, ref.MinimalTables(3))
		k := 12 + 16*rng.IntN(10)
		copy(b[k+12:], p32(0xFFFFFFFF-rng.IntN(600)))
		if rng.IntN(2) == 0 {
			copy(b[k+8:], p32(0xFFFFFFFF-rng.IntN(600)))
			copy(b[k+12:], p32(rng.IntN(1200)))
		}
		return b
	}},
	{"overflowing table", "header", func(rng *rand.Rand, size int) []byte {
		b := ref.BuildContainer(0x00010000, ref.MinimalTables(3))
		k := 12 + 16*rng.IntN(10)
		copy(b[k+12:], p32(0xFFFFFFFF-rng.IntN(600)))
		return b
	}},
	{"more metrics than data", "hmtx", func(rng *rand.Rand, size int) []byte {
		b := make([]byte, 36+size)
		b[1] = 1
		copy(b[34:], p16(rng.IntN(65536)))
		return b
	}},
}

// TestBombs checks small inputs which describe large amounts of data.
func TestBombs(t *testing.T) {
	sizes := []int{1000, 8000, 30000, 65000, 200000, 1500000}
	if pbt.Thorough() {
		sizes = append(sizes, 20, 300, 100000, 1000000, 4000000)
	}
	reps := 2
	pbt.Enumerate(t, len(bombs)*len(sizes)*reps, func(i int, c *pbt.Case) {
		rng := rand.New(rand.NewPCG(uint64(pbt.Seed()), uint64(i)))
		b := bombs[i%len(bombs)]
		size := sizes[i/len(bombs)%len(sizes)]
		d := decoderFor(b.decoder)
		data := b.make(rng, size)
		ok := run(pbt.Failer(t, b.name), c, d, data)
		if os.Getenv("DBG") != "" {
			var err error
			k := measured(func() { _, err = d.decode(data) })
			fmt.Printf("%-30s %-8s size %7d: %v, %.1f MB, %v %v\n", b.name, d.name, len(data), ok, float64(k.alloc)/1e6, k.cpu, err)
		}
		count(c, d, ok, data)
		c.Class(b.name)
	})
}
