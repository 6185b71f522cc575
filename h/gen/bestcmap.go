package gen

import (
	"seehuhn.de/go/sfnt"
	"seehuhn.de/go/sfnt/cmap"

	"seehuhn.de/go/sfnt/verif/ref"
)

// BestCmap returns the mapping used for layout.
func BestCmap(t Fataler, f *sfnt.Font) (m map[uint32]uint32, ok bool) {
	for _, k := range []cmap.Key{{PlatformID: 3, EncodingID: 10}, {PlatformID: 0, EncodingID: 4}, {PlatformID: 3, EncodingID: 1}, {PlatformID: 0, EncodingID: 3}, {PlatformID: 1}} {
		d, found := f.CMapTable[k]
		if !found {
			continue
		}
		switch ref.U16(d, 0) {
		case 0, 4, 6, 12:
		default:
			continue
		}
		if k.PlatformID == 1 && ref.U16(d, 0) == 12 {
			continue
		}
		m, err := ref.CmapExpand(d)
		if err != nil {
			t.Fatalf("cmap: %v", err)
		}
		if k.PlatformID == 1 {
			m2 := map[uint32]uint32{}
			for code, gid := range m {
				if code < 256 {
					m2[uint32(ref.MacRune(byte(code)))] = gid
				}
			}
			m = m2
		}
		return m, true
	}
	return nil, false
}
