// Package c03 checks that written files are well-formed sfnt containers, and
// that independent implementations agree on the contents.
package c03

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"sort"
	"strings"
	"testing"

	"golang.org/x/image/font"
	xsfnt "golang.org/x/image/font/sfnt"
	"golang.org/x/image/math/fixed"
	"pgregory.net/rapid"

	"seehuhn.de/go/sfnt"
	"seehuhn.de/go/sfnt/cff"
	"seehuhn.de/go/sfnt/cmap"
	"seehuhn.de/go/sfnt/glyf"
	"seehuhn.de/go/sfnt/header"

	"seehuhn.de/go/sfnt/verif/gen"
	"seehuhn.de/go/sfnt/verif/pbt"
	"seehuhn.de/go/sfnt/verif/ref"
)

func TestMain(m *testing.M) { pbt.Main(m) }

type fataler interface{ Fatalf(string, ...any) }

var knownTags = []string{"head", "hhea", "maxp", "OS/2", "hmtx", "LTSH", "VDMX", "hdmx", "cmap", "fpgm", "prep", "cvt ",
	"loca", "glyf", "kern", "name", "post", "gasp", "PCLT", "DSIG", "CFF ", "GSUB", "GPOS", "GDEF", "head", "    ", "~~~~", "Head", "heaD"}

func drawTag(t *rapid.T) string {
	if rapid.IntRange(0, 2).Draw(t, "known") > 0 {
		return rapid.SampledFrom(knownTags).Draw(t, "tag")
	}
	b := rapid.SliceOfN(rapid.ByteRange(0x20, 0x7e), 4, 4).Draw(t, "tagBytes")
	return string(b)
}

// TestContainer writes arbitrary tables.
func TestContainer(t *testing.T) {
	pbt.Check(t, 60000, 2000000, func(t *rapid.T, c *pbt.Case) {
		scaler := rapid.SampledFrom([]uint32{header.ScalerTypeTrueType, header.ScalerTypeCFF, header.ScalerTypeApple}).Draw(t, "scaler")
		tables := map[string][]byte{}
		n := rapid.OneOf(rapid.IntRange(1, 5), rapid.IntRange(1, 20), rapid.SampledFrom([]int{1, 2, 3, 4, 7, 8, 15, 16, 17, 31, 32, 33})).Draw(t, "numTables")
		if rapid.IntRange(0, 99).Draw(t, "many") == 0 {
			n = rapid.IntRange(60, 280).Draw(t, "numTables2")
		}
		seed := rapid.Uint32().Draw(t, "seed")
		for i := 0; i < n; i++ {
			var tag string
			if i < 12 {
				tag = drawTag(t)
			} else {
				x := gen.Mix(seed, uint32(i))
				tag = string([]byte{byte(x)%95 + 32, byte(x>>8)%95 + 32, byte(x>>16)%95 + 32, byte(x>>24)%95 + 32})
			}
			var data []byte
			l := 0
			if i < 12 {
				l = rapid.OneOf(rapid.IntRange(0, 9), rapid.IntRange(0, 70), rapid.SampledFrom([]int{0, 1, 2, 3, 4, 5, 7, 8, 11, 12, 13, 54, 1000, 4096})).Draw(t, "length")
				if rapid.IntRange(0, 200).Draw(t, "big") == 0 {
					l = rapid.IntRange(0, 200000).Draw(t, "length2")
				}
			} else {
				l = int(gen.Mix(seed, uint32(i)+1000) % 13)
			}
			kind := rapid.IntRange(0, 3).Draw(t, "content")
			data = make([]byte, l)
			for j := range data {
				switch kind {
				case 0: // zero
				case 1:
					data[j] = 0xFF
				default:
					data[j] = byte(gen.Mix(seed+uint32(i), uint32(j)))
				}
			}
			tables[tag] = data
		}
		var skipped []string
		if rapid.IntRange(0, 4).Draw(t, "nilTable") == 0 {
			tag := drawTag(t)
			if _, ok := tables[tag]; !ok {
				tables[tag] = nil
				skipped = append(skipped, tag)
			}
		}
		want := map[string][]byte{}
		total := 0
		for k, v := range tables {
			if v != nil {
				want[k] = append([]byte{}, v...)
				total += len(v)
			}
		}

		buf := &bytes.Buffer{}
		cnt, err := header.Write(buf, scaler, tables)
		if err != nil {
			t.Fatalf("Write: %v", err)
		}
		b := buf.Bytes()
		if cnt != int64(len(b)) {
			t.Fatalf("Write returned %d for %d bytes", cnt, len(b))
		}
		p, err := ref.ParseContainer(b)
		if err != nil {
			t.Fatalf("malformed container: %v", err)
		}
		if p.Scaler != scaler {
			t.Fatalf("scaler type %08x, want %08x", p.Scaler, scaler)
		}
		info, err := header.Read(bytes.NewReader(b))
		if err != nil {
			t.Fatalf("cannot read the file back: %v", err)
		}
		if info.ScalerType != scaler {
			t.Fatalf("scaler type %08x read back, want %08x", info.ScalerType, scaler)
		}
		if len(p.Tables) != len(want) || len(info.Toc) != len(want) {
			t.Fatalf("%d tables written, %d found, %d read back", len(want), len(p.Tables), len(info.Toc))
		}
		for tag, data := range want {
			if !tableEqual(tag, p.Tables[tag], data) {
				t.Fatalf("table %q changed: %x -> %x", tag, short(data), short(p.Tables[tag]))
			}
			got, err := info.ReadTableBytes(bytes.NewReader(b), tag)
			if err != nil || !bytes.Equal(got, p.Tables[tag]) {
				t.Fatalf("table %q, read back: error %v, %x, want %x", tag, err, short(got), short(data))
			}
			if info.Has(tag) != (len(data) > 0) {
				t.Fatalf("Has(%q) = %t for %d bytes", tag, info.Has(tag), len(data))
			}
			// only the checksum of the head table may be changed in place
			if !tableEqual(tag, tables[tag], data) {
				t.Fatalf("table %q was modified by the writer", tag)
			}
			c.ClassIf(len(data) == 0, "empty table")
			c.ClassIf(len(data)%4 != 0, "padding")
		}
		for _, tag := range skipped {
			if info.Has(tag) {
				t.Fatalf("missing table %q found", tag)
			}
			if _, err := info.ReadTableBytes(bytes.NewReader(b), tag); !header.IsMissing(err) {
				t.Fatalf("reading the missing table %q: error %v", tag, err)
			}
			c.Class("nil table")
		}

		// write again: nothing depends on the map order
		buf2 := &bytes.Buffer{}
		if _, err := header.Write(buf2, scaler, tables); err != nil || !bytes.Equal(buf2.Bytes(), b) {
			t.Fatalf("writing the tables again gives different bytes (error %v)", err)
		}

		head, hasHead := want["head"]
		switch {
		case !hasHead:
			c.Class("no head table")
		case len(head) < 12:
			c.Class("short head table")
		default:
			c.Class("head table")
		}
		c.ClassIf(len(want) > 60, "more than 60 tables")
		if len(want) >= 2 && total > 0 {
			c.NonTrivial(b)
		}
		c.Sample(func() string { return fmt.Sprintf("%08x, %d tables, %d bytes", scaler, len(want), total) })
	})
}

func short(b []byte) []byte {
	if len(b) > 40 {
		return b[:40]
	}
	return b
}

// tableEqual compares two tables, ignoring the checksum adjustment.
func tableEqual(tag string, a, b []byte) bool {
	if len(a) != len(b) {
		return false
	}
	if tag == "head" && len(a) >= 12 {
		return bytes.Equal(a[:8], b[:8]) && bytes.Equal(a[12:], b[12:])
	}
	return bytes.Equal(a, b)
}

// outline is a sequence of contours.
type seg struct {
	kind byte // 'l', 'q', 'c'
	p    [3][2]float64
	n    int
}

type contour struct {
	start [2]float64
	segs  []seg
}

type outline struct {
	contours []contour
	tol      float64
}

func (o *outline) move(p [2]float64) {
	o.contours = append(o.contours, contour{start: p})
}

func (o *outline) add(kind byte, pp ...[2]float64) {
	s := seg{kind: kind, n: len(pp)}
	copy(s.p[:], pp)
	c := &o.contours[len(o.contours)-1]
	c.segs = append(c.segs, s)
}

// close adds the closing lines explicitly.
func (o *outline) close() {
	for i := range o.contours {
		c := &o.contours[i]
		last := c.start
		if k := len(c.segs); k > 0 {
			last = c.segs[k-1].p[c.segs[k-1].n-1]
		}
		if last != c.start {
			c.segs = append(c.segs, seg{kind: 'l', p: [3][2]float64{c.start}, n: 1})
		}
		// remove lines of length 0
		cur := c.start
		var segs []seg
		for _, s := range c.segs {
			if s.kind == 'l' && s.p[0] == cur {
				continue
			}
			segs = append(segs, s)
			cur = s.p[s.n-1]
		}
		c.segs = segs
	}
	// sub-paths consisting of a single point are not visible
	var cc []contour
	for _, c := range o.contours {
		if len(c.segs) > 0 {
			cc = append(cc, c)
		}
	}
	o.contours = cc
}

func (o *outline) String() string {
	var sb strings.Builder
	for _, c := range o.contours {
		fmt.Fprintf(&sb, " m%v", c.start)
		for _, s := range c.segs {
			fmt.Fprintf(&sb, " %c%v", s.kind, s.p[:s.n])
		}
	}
	return sb.String()
}

func (o *outline) diff(x *outline) error {
	if len(o.contours) != len(x.contours) {
		return fmt.Errorf("%d contours, want %d", len(x.contours), len(o.contours))
	}
	near := func(a, b [2]float64) bool {
		return math.Abs(a[0]-b[0]) <= o.tol && math.Abs(a[1]-b[1]) <= o.tol
	}
	for i, c := range o.contours {
		d := x.contours[i]
		if !near(c.start, d.start) {
			return fmt.Errorf("contour %d starts at %v, want %v", i, d.start, c.start)
		}
		if len(c.segs) != len(d.segs) {
			return fmt.Errorf("contour %d has %d segments, want %d", i, len(d.segs), len(c.segs))
		}
		for j, s := range c.segs {
			r := d.segs[j]
			ok := s.kind == r.kind && s.n == r.n
			for k := 0; ok && k < s.n; k++ {
				ok = near(s.p[k], r.p[k])
			}
			if !ok {
				return fmt.Errorf("contour %d, segment %d is %c%v, want %c%v", i, j, r.kind, r.p[:r.n], s.kind, s.p[:s.n])
			}
		}
	}
	return nil
}

// cffOutline returns the outline of a CFF glyph.  The second value is false
// for glyphs which are outside the limits of the other implementations.
func cffOutline(g *cff.Glyph, limit float64) (*outline, bool) {
	o := &outline{}
	ok := true
	for _, cmd := range g.Cmds {
		for _, x := range cmd.Args {
			if cmd.Op != cff.OpHintMask && cmd.Op != cff.OpCntrMask && (x != math.Round(x) || math.Abs(x) > limit) {
				ok = false
			}
		}
		a := cmd.Args
		switch cmd.Op {
		case cff.OpMoveTo:
			o.move([2]float64{a[0], a[1]})
		case cff.OpLineTo:
			if len(o.contours) == 0 {
				return nil, false
			}
			o.add('l', [2]float64{a[0], a[1]})
		case cff.OpCurveTo:
			if len(o.contours) == 0 {
				return nil, false
			}
			o.add('c', [2]float64{a[0], a[1]}, [2]float64{a[2], a[3]}, [2]float64{a[4], a[5]})
		}
	}
	return o, ok
}

// glyphBytes returns the binary form of a TrueType glyph.
func glyphBytes(g *glyf.Glyph) []byte {
	if g == nil {
		return nil
	}
	nc := int16(-1)
	var body []byte
	switch d := g.Data.(type) {
	case glyf.SimpleGlyph:
		nc = d.NumContours
		body = d.Encoded
	case glyf.CompositeGlyph:
		for _, comp := range d.Components {
			body = binary.BigEndian.AppendUint16(body, uint16(comp.Flags))
			body = binary.BigEndian.AppendUint16(body, uint16(comp.GlyphIndex))
			body = append(body, comp.Data...)
		}
		if d.Instructions != nil {
			body = binary.BigEndian.AppendUint16(body, uint16(len(d.Instructions)))
			body = append(body, d.Instructions...)
		}
	}
	var res []byte
	for _, x := range []int16{nc, int16(g.LLx), int16(g.LLy), int16(g.URx), int16(g.URy)} {
		res = binary.BigEndian.AppendUint16(res, uint16(x))
	}
	return append(res, body...)
}

// glyfOutline returns the outline of a TrueType glyph, without grid fitting.
func glyfOutline(glyphs []*ref.GGlyph, gid int, depth int) (*outline, bool) {
	o := &outline{}
	g := glyphs[gid]
	if g == nil {
		return o, true
	}
	if depth > 6 {
		return nil, false
	}
	if g.NumContours < 0 {
		if len(g.Comps) > 8 {
			return nil, false
		}
		for _, c := range g.Comps {
			if c.Flags&2 == 0 || c.Flags&0x800 != 0 || c.GID >= len(glyphs) {
				return nil, false
			}
			sub, ok := glyfOutline(glyphs, c.GID, depth+1)
			if !ok {
				return nil, false
			}
			var dx, dy float64
			rest := c.Args
			if c.Flags&1 != 0 {
				dx, dy = float64(ref.I16(rest, 0)), float64(ref.I16(rest, 2))
				rest = rest[4:]
			} else {
				dx, dy = float64(int8(rest[0])), float64(int8(rest[1]))
				rest = rest[2:]
			}
			a, b, cc, d := 1.0, 0.0, 0.0, 1.0
			f := func(i int) float64 { return float64(ref.I16(rest, i)) / 16384 }
			switch {
			case c.Flags&8 != 0:
				a, d = f(0), f(0)
			case c.Flags&0x40 != 0:
				a, d = f(0), f(2)
			case c.Flags&0x80 != 0:
				a, b, cc, d = f(0), f(2), f(4), f(6)
			}
			if a != 1 || d != 1 || b != 0 || cc != 0 {
				m := max(math.Abs(a)+math.Abs(b)+math.Abs(cc)+math.Abs(d), 1)
				o.tol = max(o.tol, sub.tol*m+1.01)
			}
			o.tol = max(o.tol, sub.tol)
			for _, q := range sub.contours {
				tr := func(p [2]float64) [2]float64 {
					return [2]float64{a*p[0] + cc*p[1] + dx, b*p[0] + d*p[1] + dy}
				}
				q2 := contour{start: tr(q.start)}
				for _, s := range q.segs {
					for k := range s.p {
						s.p[k] = tr(s.p[k])
					}
					q2.segs = append(q2.segs, s)
				}
				o.contours = append(o.contours, q2)
			}
		}
		return o, true
	}
	for _, pts := range g.Contours {
		n := len(pts)
		if n == 0 {
			return nil, false
		}
		at := func(i int) [2]float64 { p := pts[i%n]; return [2]float64{float64(p.X), float64(p.Y)} }
		mid := func(a, b [2]float64) [2]float64 {
			m := [2]float64{(a[0] + b[0]) / 2, (a[1] + b[1]) / 2}
			if m[0] != math.Round(m[0]) || m[1] != math.Round(m[1]) {
				o.tol = max(o.tol, 0.51)
			}
			return m
		}
		for _, p := range pts {
			if p.X > 16000 || p.X < -16000 || p.Y > 16000 || p.Y < -16000 {
				return nil, false
			}
		}
		switch {
		case n == 1 && !pts[0].On:
			return nil, false
		case pts[0].On:
			o.move(at(0))
		case pts[1].On:
			pts = append(append([]ref.GPoint{}, pts[1:]...), pts[0])
			o.move(at(0))
		default:
			// start at an implied point
			m := mid(at(0), at(1))
			o.move(m)
			for i := 1; i <= n; i++ {
				switch {
				case i == n:
					o.add('q', at(i), m)
				case pts[(i+1)%n].On:
					o.add('q', at(i), at(i+1))
					i++
					for i+1 < n && pts[i+1].On {
						i++
						o.add('l', at(i))
					}
				default:
					o.add('q', at(i), mid(at(i), at(i+1)))
				}
			}
			continue
		}
		for i := 1; i <= n; i++ {
			if pts[i%n].On {
				o.add('l', at(i))
				continue
			}
			end := at(i + 1)
			if !pts[(i+1)%n].On {
				end = mid(at(i), at(i+1))
				o.add('q', at(i), end)
				continue
			}
			o.add('q', at(i), end)
			i++
		}
	}
	return o, true
}

// xOutline converts an outline from the other implementation.
func xOutline(ss xsfnt.Segments) *outline {
	o := &outline{}
	p := func(q fixed.Point26_6) [2]float64 { return [2]float64{float64(q.X), -float64(q.Y)} }
	for _, s := range ss {
		switch s.Op {
		case xsfnt.SegmentOpMoveTo:
			o.move(p(s.Args[0]))
		case xsfnt.SegmentOpLineTo:
			o.add('l', p(s.Args[0]))
		case xsfnt.SegmentOpQuadTo:
			o.add('q', p(s.Args[0]), p(s.Args[1]))
		case xsfnt.SegmentOpCubeTo:
			o.add('c', p(s.Args[0]), p(s.Args[1]), p(s.Args[2]))
		}
	}
	return o
}

// checkTables compares the tables of a font file to the font.
func checkTables(t fataler, f *sfnt.Font, p *ref.Container, c *pbt.Case) (glyphs []*ref.GGlyph) {
	n := f.NumGlyphs()
	tab := func(tag string, minLen int) []byte {
		d := p.Tables[tag]
		if len(d) < minLen {
			t.Fatalf("table %q has %d bytes", tag, len(d))
		}
		return d
	}
	mx := tab("maxp", 6)
	head := tab("head", 54)
	if len(head) != 54 || ref.U32(head, 12) != 0x5F0F3CF5 || ref.U32(head, 0) != 0x00010000 {
		t.Fatalf("malformed head table %x", head)
	}
	if ref.U16(mx, 4) != n {
		t.Fatalf("maxp has %d glyphs instead of %d", ref.U16(mx, 4), n)
	}
	if ref.U16(head, 18) != int(f.UnitsPerEm) {
		t.Fatalf("units per em %d instead of %d", ref.U16(head, 18), f.UnitsPerEm)
	}

	// character map
	if f.CMapTable == nil {
		if _, ok := p.Tables["cmap"]; ok {
			t.Fatalf("unexpected cmap table")
		}
	} else {
		recs, err := ref.ParseCmap(tab("cmap", 4))
		if err != nil {
			t.Fatalf("malformed cmap table: %v", err)
		}
		if len(recs) != len(f.CMapTable) {
			t.Fatalf("%d cmap subtables, want %d", len(recs), len(f.CMapTable))
		}
		for _, r := range recs {
			key := cmap.Key{PlatformID: uint16(r.Platform), EncodingID: uint16(r.Encoding)}
			if r.Platform == 1 {
				key.Language = uint16(r.Language)
			}
			data, ok := f.CMapTable[key]
			if !ok || !bytes.Equal(data, r.Data) {
				t.Fatalf("cmap subtable %v changed: %x -> %x", key, short(data), short(r.Data))
			}
		}
	}

	// widths
	ww := f.Widths()
	if hm, ok := p.Tables["hmtx"]; ok {
		hhea := tab("hhea", 36)
		k := ref.U16(hhea, 34)
		if k < 1 || k > n || len(hm) != 4*k+2*(n-k) {
			t.Fatalf("%d metrics for %d glyphs in %d bytes", k, n, len(hm))
		}
		for i := 0; i < n; i++ {
			w := float64(int16(ref.U16(hm, 4*min(i, k-1))))
			if w != math.Round(ww[i]) {
				t.Fatalf("glyph %d has advance width %g in hmtx, want %g", i, w, ww[i])
			}
		}
	} else if ww != nil && p.Scaler == header.ScalerTypeTrueType {
		t.Fatalf("no hmtx table")
	}

	switch o := f.Outlines.(type) {
	case *glyf.Outlines:
		if p.Scaler != header.ScalerTypeTrueType {
			t.Fatalf("scaler type %08x", p.Scaler)
		}
		gd := p.Tables["glyf"]
		offs, err := ref.ParseLoca(p.Tables["loca"], ref.U16(head, 50), n, len(gd))
		if err != nil {
			t.Fatalf("malformed loca table: %v", err)
		}
		cache := map[*glyf.Glyph][]byte{}
		for i, g := range o.Glyphs {
			d := gd[offs[i]:offs[i+1]]
			want, ok := cache[g]
			if !ok {
				want = glyphBytes(g)
				cache[g] = want
			}
			if len(d) < len(want) || len(d) > len(want)+3 || !bytes.Equal(d[:len(want)], want) || !zero(d[len(want):]) {
				t.Fatalf("glyph %d has data %x, want %x", i, short(d), short(want))
			}
			if len(glyphs) < 300 {
				var gg *ref.GGlyph
				if len(d) > 0 {
					if gg, err = ref.ParseGlyph(d); err != nil {
						t.Fatalf("glyph %d is malformed: %v", i, err)
					}
				}
				glyphs = append(glyphs, gg)
			}
		}
		if post, ok := p.Tables["post"]; ok {
			names := postNames(t, post, n)
			if o.Names == nil && names != nil {
				t.Fatalf("unexpected glyph names")
			} else if o.Names != nil && (names == nil || fmt.Sprint(names) != fmt.Sprint(o.Names)) {
				t.Fatalf("glyph names %v, want %v", names[:min(len(names), 20)], o.Names[:min(len(o.Names), 20)])
			}
		}
		for tag, data := range o.Tables {
			if got, ok := p.Tables[tag]; !ok || !bytes.Equal(got, data) {
				t.Fatalf("table %q has contents %x, want %x", tag, short(got), short(data))
			}
		}
	case *cff.Outlines:
		if p.Scaler != header.ScalerTypeCFF {
			t.Fatalf("scaler type %08x", p.Scaler)
		}
		q, err := ref.ParseCFF(tab("CFF ", 4))
		if err != nil {
			t.Fatalf("malformed CFF table: %v", err)
		}
		if len(q.CharStrings) != n || q.IsCID != (o.ROS != nil) {
			t.Fatalf("CFF table has %d glyphs, want %d (CID %t)", len(q.CharStrings), n, q.IsCID)
		}
		for i, g := range o.Glyphs {
			if i >= 200 {
				break
			}
			fd := q.FDs[0]
			if q.IsCID {
				fd = q.FDs[q.FDSelect[i]]
				if q.Charset[i] != int(o.GIDToCID[i]) {
					t.Fatalf("glyph %d has CID %d, want %d", i, q.Charset[i], o.GIDToCID[i])
				}
			} else if i > 0 {
				if name, err := q.String(q.Charset[i]); err != nil || name != g.Name {
					t.Fatalf("glyph %d is called %q, want %q (error %v)", i, name, g.Name, err)
				}
			}
			r, err := ref.RunT2(q.CharStrings[i], &ref.T2Env{GSubrs: q.GSubrs, Subrs: fd.Subrs, Default: fd.Default, Nominal: fd.Nominal})
			if err != nil {
				t.Fatalf("charstring %d: %v", i, err)
			}
			want, ok := cffOutline(g, 30000)
			if !ok {
				c.Class("other coordinates")
				continue
			}
			got := &outline{}
			for _, op := range r.Ops {
				a := op.Args
				switch op.Kind {
				case 'm':
					got.move([2]float64{a[0], a[1]})
				case 'l':
					got.add('l', [2]float64{a[0], a[1]})
				case 'c':
					got.add('c', [2]float64{a[0], a[1]}, [2]float64{a[2], a[3]}, [2]float64{a[4], a[5]})
				}
			}
			want.close()
			got.close()
			if err := want.diff(got); err != nil {
				t.Fatalf("CFF glyph %d: %v", i, err)
			}
			if g.Width == math.Round(g.Width) && r.Width != g.Width {
				t.Fatalf("CFF glyph %d has width %g, want %g", i, r.Width, g.Width)
			}
		}
	}
	return glyphs
}

func zero(b []byte) bool {
	for _, c := range b {
		if c != 0 {
			return false
		}
	}
	return true
}

// postNames decodes the glyph names of a post table.
func postNames(t fataler, d []byte, n int) []string {
	if len(d) < 32 {
		t.Fatalf("post table has %d bytes", len(d))
	}
	switch ref.U32(d, 0) {
	case 0x00010000:
		if n != 258 || len(d) != 32 {
			t.Fatalf("post table version 1 for %d glyphs", n)
		}
		return ref.MacGlyphNames
	case 0x00030000:
		if len(d) != 32 {
			t.Fatalf("post table version 3 has %d bytes", len(d))
		}
		return nil
	case 0x00020000:
		if len(d) < 34+2*n || ref.U16(d, 32) != n {
			t.Fatalf("post table for %d glyphs has %d bytes", n, len(d))
		}
		var extra []string
		for pos := 34 + 2*n; pos < len(d); {
			l := int(d[pos])
			if pos+1+l > len(d) {
				t.Fatalf("truncated glyph name in post table")
			}
			extra = append(extra, string(d[pos+1:pos+1+l]))
			pos += 1 + l
		}
		var res []string
		for i := 0; i < n; i++ {
			idx := ref.U16(d, 34+2*i)
			switch {
			case idx < 258:
				res = append(res, ref.MacGlyphNames[idx])
			case idx-258 < len(extra):
				res = append(res, extra[idx-258])
			default:
				t.Fatalf("post table: name %d for glyph %d does not exist", idx, i)
			}
		}
		return res
	}
	t.Fatalf("post table version %08x", ref.U32(d, 0))
	return nil
}

// xBytes returns a version of the file which can be used with the other
// implementation.
func xBytes(f *sfnt.Font, p *ref.Container, b []byte) []byte {
	tables := map[string][]byte{}
	for k, v := range p.Tables {
		tables[k] = v
	}
	changed := false
	if f.Gpos != nil {
		// not all lookup types are implemented there
		delete(tables, "GPOS")
		changed = true
	}
	if xCmap(f) == (cmap.Key{}) {
		tables["cmap"] = ref.MinimalTables(1)["cmap"]
		changed = true
	}
	if !changed {
		return b
	}
	return ref.BuildContainer(p.Scaler, tables)
}

// xCmap returns the subtable which is used by the other implementation.
func xCmap(f *sfnt.Font) cmap.Key {
	var keys []cmap.Key
	for key := range f.CMapTable {
		keys = append(keys, key)
	}
	sort.Slice(keys, func(i, j int) bool {
		a, b := keys[i], keys[j]
		if a.PlatformID != b.PlatformID {
			return a.PlatformID < b.PlatformID
		}
		if a.EncodingID != b.EncodingID {
			return a.EncodingID < b.EncodingID
		}
		return a.Language < b.Language
	})
	best := 0
	var res cmap.Key
	for _, key := range keys {
		w := 0
		switch [2]uint16{key.PlatformID, key.EncodingID} {
		case [2]uint16{0, 3}, [2]uint16{3, 0}, [2]uint16{3, 1}:
			w = 2
		case [2]uint16{0, 4}, [2]uint16{3, 10}:
			w = 4
		case [2]uint16{1, 0}:
			w = 1
		}
		format := ref.U16(f.CMapTable[key], 0)
		ok := format == 4 || format == 6 || format == 12 || format == 0 && key.PlatformID == 1
		if ok && w > best {
			best = w
			res = key
		}
	}
	return res
}

func drawFont(t *rapid.T) (*sfnt.Font, bool) {
	plain := rapid.IntRange(0, 2).Draw(t, "plain") > 0
	f := gen.Font(t, gen.FontOpts{MaxGlyphs: 14, Plain: plain})
	return f, plain
}

// TestFont checks complete fonts.
func TestFont(t *testing.T) {
	pbt.Check(t, 12000, 400000, func(t *rapid.T, c *pbt.Case) {
		f, plain := drawFont(t)
		buf := &bytes.Buffer{}
		n, err := f.Write(buf)
		if err != nil {
			t.Fatalf("Write: %v", err)
		}
		b := buf.Bytes()
		if n != int64(len(b)) {
			t.Fatalf("Write returned %d for %d bytes", n, len(b))
		}
		p, err := ref.ParseContainer(b)
		if err != nil {
			t.Fatalf("malformed container: %v", err)
		}
		glyphs := checkTables(t, f, p, c)
		c.Class(gen.Kind(f))
		c.NonTrivial(b)
		c.Sample(func() string {
			return fmt.Sprintf("%s, %d glyphs, %d tables, %d bytes", gen.Kind(f), f.NumGlyphs(), len(p.Tables), len(b))
		})
		if !plain {
			return
		}

		x, err := xsfnt.Parse(xBytes(f, p, b))
		if err != nil {
			t.Fatalf("golang.org/x/image cannot read the file: %v", err)
		}
		c.Class("compared to golang.org/x/image")
		if x.NumGlyphs() != f.NumGlyphs() {
			t.Fatalf("golang.org/x/image finds %d glyphs, want %d", x.NumGlyphs(), f.NumGlyphs())
		}
		if int(x.UnitsPerEm()) != int(f.UnitsPerEm) {
			t.Fatalf("golang.org/x/image finds %d units per em, want %d", x.UnitsPerEm(), f.UnitsPerEm)
		}
		ppem := fixed.Int26_6(f.UnitsPerEm)
		xb := &xsfnt.Buffer{}
		ww := f.Widths()
		for i := 0; i < min(f.NumGlyphs(), 300); i++ {
			adv, err := x.GlyphAdvance(xb, xsfnt.GlyphIndex(i), ppem, font.HintingNone)
			if err != nil || float64(adv) != math.Round(ww[i]) {
				t.Fatalf("golang.org/x/image: glyph %d has advance width %d, want %g (error %v)", i, adv, ww[i], err)
			}
			name, err := x.GlyphName(xb, xsfnt.GlyphIndex(i))
			want := ""
			if o, ok := f.Outlines.(*glyf.Outlines); ok && o.Names != nil {
				want = o.Names[i]
			}
			if err != nil || name != want {
				t.Fatalf("golang.org/x/image: glyph %d has name %q, want %q (error %v)", i, name, want, err)
			}

			var o *outline
			var ok bool
			switch out := f.Outlines.(type) {
			case *cff.Outlines:
				o, ok = cffOutline(out.Glyphs[i], 100000)
			default:
				o, ok = glyfOutline(glyphs, i, 0)
			}
			if !ok {
				c.Class("glyph outside the limits of golang.org/x/image")
				continue
			}
			ss, err := x.LoadGlyph(xb, xsfnt.GlyphIndex(i), ppem, nil)
			if err != nil {
				t.Fatalf("golang.org/x/image cannot load glyph %d: %v", i, err)
			}
			got := xOutline(ss)
			if _, isCFF := f.Outlines.(*cff.Outlines); isCFF {
				o.close()
				got.close()
			}
			if err := o.diff(got); err != nil {
				t.Fatalf("golang.org/x/image: glyph %d: %v\ngot%s\nwant%s", i, err, got, o)
			}
			if len(o.contours) > 0 {
				c.Class("outline")
				c.ClassIf(o.tol > 0, "rounded outline")
			}
			if len(glyphs) > 0 && glyphs[i] != nil && glyphs[i].NumContours < 0 {
				c.Class("composite glyph")
			}
		}

		// character map
		key := xCmap(f)
		if key.PlatformID == 1 || key == (cmap.Key{}) {
			// golang.org/x/image only gives the right answers for some of these
			c.Class("no Unicode subtable for golang.org/x/image")
			return
		}
		table, err := f.CMapTable.Get(key)
		if err != nil {
			t.Fatalf("cmap %v: %v", key, err)
		}
		want, err := ref.CmapExpand(f.CMapTable[key])
		if err != nil {
			t.Fatalf("malformed cmap subtable: %v", err)
		}
		_, best := f.CMapTable.GetBest()
		if best == nil {
			c.Class("no Unicode cmap")
		}
		runes := map[rune]bool{}
		for code := range want {
			if code < 0x110000 {
				runes[rune(code)] = true
				runes[rune(code)+1] = true
				if code > 0 {
					runes[rune(code)-1] = true
				}
			}
			if len(runes) > 3000 {
				break
			}
		}
		for i := 0; i < 20; i++ {
			runes[rune(rapid.Uint32Range(0, 0x10FFFF).Draw(t, "rune"))] = true
		}
		format := ref.U16(f.CMapTable[key], 0)
		for r := range runes {
			if format == 6 && r > 0xFFFF {
				// wrong in golang.org/x/image
				continue
			}
			got, err := x.GlyphIndex(xb, r)
			if err != nil || uint32(got) != want[uint32(r)] || uint32(table.Lookup(r)) != want[uint32(r)] {
				t.Fatalf("U+%04X: golang.org/x/image gives glyph %d, font gives %d, want %d (cmap %v, format %d, error %v)",
					r, got, table.Lookup(r), want[uint32(r)], key, format, err)
			}
			if got != 0 {
				c.Class("mapped character")
			}
		}
		c.Class(fmt.Sprintf("cmap %d.%d format %d", key.PlatformID, key.EncodingID, format))
	})
}

// TestPDF checks the files written for embedding in PDF files.
func TestPDF(t *testing.T) {
	pbt.Check(t, 4000, 100000, func(t *rapid.T, c *pbt.Case) {
		f, _ := drawFont(t)
		buf := &bytes.Buffer{}
		extra := map[string][]byte{}
		var args []any
		switch f.Outlines.(type) {
		case *glyf.Outlines:
			for i := rapid.IntRange(0, 3).Draw(t, "extra"); i > 0; i-- {
				tag := drawTag(t)
				switch tag {
				case "head", "maxp", "hhea", "hmtx", "loca", "glyf", "cvt ", "fpgm", "prep", "gasp", "post":
					continue
				}
				data := gen.DrawBytes(t, "data", 30)
				if data == nil {
					data = []byte{}
				}
				args = append(args, tag, data)
				extra[tag] = data
			}
			n, err := f.WriteTrueTypePDF(buf, args...)
			if err != nil || n != int64(buf.Len()) {
				t.Fatalf("WriteTrueTypePDF returned %d, %v for %d bytes", n, err, buf.Len())
			}
		default:
			if err := f.WriteOpenTypeCFFPDF(buf); err != nil {
				t.Fatalf("WriteOpenTypeCFFPDF: %v", err)
			}
		}
		p, err := ref.ParseContainer(buf.Bytes())
		if err != nil {
			t.Fatalf("malformed container: %v", err)
		}
		full := &bytes.Buffer{}
		if _, err := f.Write(full); err != nil {
			t.Fatalf("Write: %v", err)
		}
		q, err := ref.ParseContainer(full.Bytes())
		if err != nil {
			t.Fatalf("malformed container: %v", err)
		}
		if p.Scaler != q.Scaler {
			t.Fatalf("scaler type %08x, want %08x", p.Scaler, q.Scaler)
		}
		need := []string{"CFF "}
		if f.IsGlyf() {
			// PDF 32000-1, section 9.9
			need = []string{"glyf", "head", "hhea", "hmtx", "loca", "maxp"}
			for _, tag := range []string{"cvt ", "fpgm", "prep"} {
				if _, ok := f.Outlines.(*glyf.Outlines).Tables[tag]; ok {
					need = append(need, tag)
				}
			}
		}
		if f.CMapTable != nil {
			need = append(need, "cmap")
		}
		for _, tag := range need {
			if _, ok := p.Tables[tag]; !ok {
				t.Fatalf("table %q is missing", tag)
			}
		}
		for tag, data := range p.Tables {
			want, ok := extra[tag]
			if !ok {
				want = q.Tables[tag]
			}
			if !tableEqual(tag, data, want) {
				t.Fatalf("table %q has contents %x, want %x", tag, short(data), short(want))
			}
		}
		for tag := range extra {
			if _, ok := p.Tables[tag]; !ok {
				t.Fatalf("extra table %q is missing", tag)
			}
			c.Class("extra table")
		}
		c.Class(gen.Kind(f))
		c.NonTrivial(buf.Bytes())
		c.Sample(func() string { return fmt.Sprintf("%s, %d tables", gen.Kind(f), len(p.Tables)) })
	})
}

var realFonts = gen.RealFonts(1 << 20)

// TestReal reads and writes real fonts, and compares what an independent
// implementation finds in the files.
func TestReal(t *testing.T) {
	pbt.Enumerate(t, len(realFonts), func(i int, c *pbt.Case) {
		rf := realFonts[i]
		tt := pbt.Failer(t, rf.Name+": ")
		f, err := sfnt.Read(bytes.NewReader(rf.Data))
		if err != nil {
			c.Class("not accepted")
			return
		}
		a, err := xsfnt.Parse(rf.Data)
		if err != nil {
			c.Class("not accepted by golang.org/x/image")
			return
		}
		buf := &bytes.Buffer{}
		if _, err := f.Write(buf); err != nil {
			tt.Fatalf("Write: %v", err)
		}
		if _, err := ref.ParseContainer(buf.Bytes()); err != nil {
			tt.Fatalf("malformed container: %v", err)
		}
		b, err := xsfnt.Parse(buf.Bytes())
		if err != nil {
			tt.Fatalf("golang.org/x/image cannot read the written file: %v", err)
		}
		if a.NumGlyphs() != b.NumGlyphs() || a.UnitsPerEm() != b.UnitsPerEm() {
			tt.Fatalf("%d glyphs, %d units per em, want %d, %d", b.NumGlyphs(), b.UnitsPerEm(), a.NumGlyphs(), a.UnitsPerEm())
		}
		var ba, bb xsfnt.Buffer
		ppem := fixed.Int26_6(a.UnitsPerEm())
		for g := 0; g < a.NumGlyphs(); g++ {
			gid := xsfnt.GlyphIndex(g)
			wa, err1 := a.GlyphAdvance(&ba, gid, ppem, font.HintingNone)
			wb, err2 := b.GlyphAdvance(&bb, gid, ppem, font.HintingNone)
			if err1 != nil || err2 != nil || wa != wb {
				tt.Fatalf("glyph %d has advance width %d, want %d (%v, %v)", g, wb, wa, err2, err1)
			}
			na, err1 := a.GlyphName(&ba, gid)
			nb, err2 := b.GlyphName(&bb, gid)
			if f.IsGlyf() && (err1 != nil || err2 != nil || na != nb) {
				tt.Fatalf("glyph %d has name %q, want %q (%v, %v)", g, nb, na, err2, err1)
			}
			sa, err1 := a.LoadGlyph(&ba, gid, ppem, nil)
			sb, err2 := b.LoadGlyph(&bb, gid, ppem, nil)
			if err1 != nil {
				c.Class("glyph not supported by golang.org/x/image")
				continue
			}
			if err2 != nil {
				tt.Fatalf("golang.org/x/image cannot load glyph %d: %v", g, err2)
			}
			oa, ob := xOutline(sa), xOutline(sb)
			if !f.IsGlyf() {
				oa.close()
				ob.close()
			}
			if err := oa.diff(ob); err != nil {
				tt.Fatalf("glyph %d: %v\ngot%s\nwant%s", g, err, ob, oa)
			}
		}
		for r := rune(0); r < 0x30000; r++ {
			ga, err1 := a.GlyphIndex(&ba, r)
			gb, err2 := b.GlyphIndex(&bb, r)
			if err1 == nil && (err2 != nil || ga != gb) {
				tt.Fatalf("U+%04X is mapped to %d, want %d (%v)", r, gb, ga, err2)
			}
		}
		c.Class(gen.Kind(f))
		c.NonTrivial([]byte(rf.Name))
		c.Sample(func() string { return fmt.Sprintf("%s, %d glyphs", rf.Name, a.NumGlyphs()) })
	})
}
