package gen

import (
	"pgregory.net/rapid"
	"seehuhn.de/go/sfnt/glyph"
)

// DrawMapping generates a character map by runs.  Max is the largest code.
func DrawMapping(t *rapid.T, maxCode uint32, maxRuns, maxRunLen int) map[uint32]glyph.ID {
	m := map[uint32]glyph.ID{}
	runs := rapid.IntRange(0, maxRuns).Draw(t, "runs")
	pos := rapid.OneOf(rapid.Uint32Range(0, 300), rapid.Uint32Range(0, maxCode), rapid.Uint32Range(maxCode-20, maxCode),
		rapid.Uint32Range(min(maxCode, 0xFFF0), min(maxCode, 0x10010))).Draw(t, "pos")
	gid := uint32(rapid.Uint16().Draw(t, "gid0"))
	for i := 0; i < runs && pos <= maxCode; i++ {
		l := rapid.OneOf(rapid.IntRange(1, 8), rapid.IntRange(1, 8), rapid.IntRange(1, maxRunLen)).Draw(t, "len")
		mode := rapid.IntRange(0, 5).Draw(t, "mode")
		seed := uint32(0)
		if mode == 1 || mode == 4 {
			seed = rapid.Uint32().Draw(t, "seed")
		}
		if rapid.IntRange(0, 2).Draw(t, "newGid") == 0 {
			gid = uint32(rapid.OneOf(rapid.Uint16(), rapid.Uint16Range(0, 20), rapid.Uint16Range(65500, 65535)).Draw(t, "gid"))
		}
		for j := 0; j < l && pos <= maxCode; j++ {
			switch mode {
			case 0, 5: // consecutive
				gid++
			case 1: // random
				gid = Mix(seed, uint32(j))
			case 2: // constant
			case 3: // decreasing
				gid--
			case 4: // consecutive with interruptions
				if h := Mix(seed, uint32(j)); h%5 == 0 {
					gid = h >> 8
				} else if h%5 == 1 {
					gid++
					pos++
					continue // hole within a consecutive run
				} else {
					gid++
				}
			}
			m[pos] = glyph.ID(gid)
			pos++
		}
		switch rapid.IntRange(0, 5).Draw(t, "gap") {
		case 0:
		case 1, 2, 3:
			g := rapid.Uint32Range(1, 12).Draw(t, "gapLen")
			pos += g
			if rapid.Bool().Draw(t, "keepDelta") {
				gid += g
			}
		case 4:
			pos += rapid.Uint32Range(1, max(2, maxCode/uint32(maxRuns+1))).Draw(t, "gapLen")
		case 5:
			pos = max(pos, maxCode-rapid.Uint32Range(0, 12).Draw(t, "fromEnd"))
		}
	}
	if rapid.IntRange(0, 7).Draw(t, "last") == 0 {
		m[maxCode] = glyph.ID(rapid.Uint16().Draw(t, "lastGid"))
	}
	return m
}
