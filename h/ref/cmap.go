package ref

import "fmt"

// CmapRec is an encoding record of a cmap table, together with the subtable.
type CmapRec struct {
	Platform, Encoding int
	Offset             uint32
	Format             int
	Language           uint32
	Data               []byte // exactly the subtable
}

// ParseCmap splits a cmap table into its encoding records.
func ParseCmap(b []byte) ([]CmapRec, error) {
	if len(b) < 4 || U16(b, 0) != 0 {
		return nil, fmt.Errorf("cmap header")
	}
	n := U16(b, 2)
	if len(b) < 4+8*n {
		return nil, fmt.Errorf("cmap directory truncated")
	}
	var res []CmapRec
	for i := 0; i < n; i++ {
		r := CmapRec{Platform: U16(b, 4+8*i), Encoding: U16(b, 6+8*i), Offset: U32(b, 8+8*i)}
		if int(r.Offset) < 4+8*n || int(r.Offset)+8 > len(b) {
			return nil, fmt.Errorf("cmap record %d: offset %d", i, r.Offset)
		}
		d := b[r.Offset:]
		r.Format = U16(d, 0)
		var l uint32
		switch r.Format {
		case 0, 2, 4, 6:
			l = uint32(U16(d, 2))
			r.Language = uint32(U16(d, 4))
		case 8, 10, 12, 13:
			if len(d) < 12 {
				return nil, fmt.Errorf("cmap record %d truncated", i)
			}
			l = U32(d, 4)
			r.Language = U32(d, 8)
		case 14:
			l = U32(d, 2)
		default:
			return nil, fmt.Errorf("cmap format %d", r.Format)
		}
		if l < 8 || uint64(l) > uint64(len(d)) {
			return nil, fmt.Errorf("cmap record %d: length %d of %d", i, l, len(d))
		}
		r.Data = d[:l]
		res = append(res, r)
	}
	return res, nil
}

// CmapLookup returns the glyph index for a character code, following the
// specification of the subtable format literally.  The second return value is
// an error if the subtable is malformed in a way relevant to the lookup.
func CmapLookup(d []byte, code uint32) (uint32, error) {
	switch U16(d, 0) {
	case 0:
		if len(d) != 262 {
			return 0, fmt.Errorf("format 0 length %d", len(d))
		}
		if code > 255 {
			return 0, nil
		}
		return uint32(d[6+code]), nil
	case 6:
		first, count := uint32(U16(d, 6)), uint32(U16(d, 8))
		if len(d) < 10+2*int(count) {
			return 0, fmt.Errorf("format 6 length %d", len(d))
		}
		if code < first || code >= first+count || code > 0xFFFF {
			return 0, nil
		}
		return uint32(U16(d, 10+2*int(code-first))), nil
	case 4:
		if code > 0xFFFF {
			return 0, nil
		}
		segX2 := U16(d, 6)
		n := segX2 / 2
		endO := 14
		startO := endO + segX2 + 2
		deltaO := startO + segX2
		rangeO := deltaO + segX2
		if rangeO+segX2 > len(d) {
			return 0, fmt.Errorf("format 4 truncated")
		}
		// "You search for the first endCode that is greater than or equal to
		// the character code you want to map."
		lo, hi := 0, n
		for lo < hi {
			m := (lo + hi) / 2
			if uint32(U16(d, endO+2*m)) >= code {
				hi = m
			} else {
				lo = m + 1
			}
		}
		if lo == n {
			return 0, nil
		}
		i := lo
		start := uint32(U16(d, startO+2*i))
		if start > code {
			return 0, nil
		}
		delta := uint32(U16(d, deltaO+2*i))
		ro := U16(d, rangeO+2*i)
		if ro == 0 {
			return (code + delta) & 0xFFFF, nil
		}
		p := rangeO + 2*i + ro + 2*int(code-start)
		if p+2 > len(d) {
			return 0, fmt.Errorf("format 4: glyph index for 0x%x outside the subtable", code)
		}
		g := uint32(U16(d, p))
		if g == 0 {
			return 0, nil
		}
		return (g + delta) & 0xFFFF, nil
	case 12:
		n := int(U32(d, 12))
		lo, hi := 0, n
		for lo < hi {
			m := (lo + hi) / 2
			if U32(d, 16+12*m+4) >= code {
				hi = m
			} else {
				lo = m + 1
			}
		}
		if lo == n || U32(d, 16+12*lo) > code {
			return 0, nil
		}
		return U32(d, 16+12*lo+8) + code - U32(d, 16+12*lo), nil
	}
	return 0, fmt.Errorf("format %d", U16(d, 0))
}

// CmapCheck validates the structure of a format 4 or 12 subtable strictly.
func CmapCheck(d []byte) error {
	switch U16(d, 0) {
	case 0:
		if len(d) != 262 || U16(d, 2) != len(d) {
			return fmt.Errorf("format 0: length field %d, actual %d", U16(d, 2), len(d))
		}
	case 6:
		if U16(d, 2) != len(d) || len(d) != 10+2*U16(d, 8) {
			return fmt.Errorf("format 6: length field %d, actual %d", U16(d, 2), len(d))
		}
	case 4:
		if U16(d, 2) != len(d) {
			return fmt.Errorf("length field %d, actual %d", U16(d, 2), len(d))
		}
		segX2 := U16(d, 6)
		if segX2 == 0 || segX2%2 != 0 || 16+4*segX2 > len(d) || len(d)%2 != 0 {
			return fmt.Errorf("segCountX2 = %d, length %d", segX2, len(d))
		}
		n := segX2 / 2
		es := 0
		for 1<<(es+1) <= n {
			es++
		}
		if U16(d, 8) != 2<<es || U16(d, 10) != es || U16(d, 12) != segX2-2<<es {
			return fmt.Errorf("segCount %d: search fields %d %d %d", n, U16(d, 8), U16(d, 10), U16(d, 12))
		}
		if U16(d, 14+segX2) != 0 {
			return fmt.Errorf("reservedPad not zero")
		}
		prev := -1
		for i := 0; i < n; i++ {
			e, s := U16(d, 14+2*i), U16(d, 16+segX2+2*i)
			if s > e || s <= prev {
				return fmt.Errorf("segment %d: [%d,%d] after %d", i, s, e, prev)
			}
			prev = e
			if ro := U16(d, 16+3*segX2+2*i); ro != 0 {
				p := 16 + 3*segX2 + 2*i + ro
				if ro%2 != 0 || p < 16+4*segX2 || p+2*(e-s+1) > len(d) {
					return fmt.Errorf("segment %d: idRangeOffset %d outside glyphIdArray", i, ro)
				}
			}
		}
		if prev != 0xFFFF {
			return fmt.Errorf("last segment ends at 0x%x", prev)
		}
	case 12:
		if len(d) < 16 || int(U32(d, 4)) != len(d) || U16(d, 2) != 0 {
			return fmt.Errorf("format 12 header")
		}
		n := int(U32(d, 12))
		if len(d) != 16+12*n {
			return fmt.Errorf("format 12: %d groups in %d bytes", n, len(d))
		}
		prev := int64(-1)
		for i := 0; i < n; i++ {
			s, e, g := int64(U32(d, 16+12*i)), int64(U32(d, 20+12*i)), int64(U32(d, 24+12*i))
			if s > e || s <= prev {
				return fmt.Errorf("group %d: [%d,%d] after %d", i, s, e, prev)
			}
			if g+e-s > 0xFFFF {
				return fmt.Errorf("group %d: glyph index exceeds 65535", i)
			}
			prev = e
		}
	}
	return nil
}

// MacRoman lists the characters for the bytes 128..255 of the Mac OS Roman
// encoding (with the Euro sign at 0xDB).
var MacRoman = []rune("ÄÅÇÉÑÖÜáàâäãåçéèêëíìîïñóòôöõúùûü" +
	"†°¢£§•¶ß®©™´¨≠ÆØ∞±≤≥¥µ∂∑∏π∫ªºΩæø" +
	"¿¡¬√ƒ≈∆«»…\u00a0ÀÃÕŒœ–—“”‘’÷◊ÿŸ⁄€‹›ﬁﬂ" +
	"‡·‚„‰ÂÊÁËÈÍÎÏÌÓÔ\uf8ffÒÚÛÙıˆ˜¯˘˙˚¸˝˛ˇ")

// MacRune returns the Unicode character of a Mac Roman byte.
func MacRune(b byte) rune {
	if b < 128 {
		return rune(b)
	}
	return MacRoman[b-128]
}

// CmapExpand lists all mapped codes of a format 0, 4, 6 or 12 subtable, by a linear
// walk over the segments.
func CmapExpand(d []byte) (map[uint32]uint32, error) {
	res := map[uint32]uint32{}
	add := func(from, to uint32) error {
		for c := from; c <= to; c++ {
			g, err := CmapLookup(d, c)
			if err != nil {
				return err
			}
			if g != 0 {
				res[c] = g
			}
		}
		return nil
	}
	switch U16(d, 0) {
	case 0:
		if err := add(0, 255); err != nil {
			return nil, err
		}
	case 6:
		first, count := uint32(U16(d, 6)), uint32(U16(d, 8))
		if count > 0 {
			if err := add(first, first+count-1); err != nil {
				return nil, err
			}
		}
	case 4:
		n := U16(d, 6) / 2
		for i := 0; i < n; i++ {
			if err := add(uint32(U16(d, 16+2*n+2*i)), uint32(U16(d, 14+2*i))); err != nil {
				return nil, err
			}
		}
	case 12:
		n := int(U32(d, 12))
		for i := 0; i < n; i++ {
			if err := add(U32(d, 16+12*i), U32(d, 20+12*i)); err != nil {
				return nil, err
			}
		}
	}
	return res, nil
}
