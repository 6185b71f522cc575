package gen

import (
	"slices"

	"pgregory.net/rapid"
)

// Mutate applies a few random changes to the data.
func Mutate(t *rapid.T, data []byte, maxOps int) []byte {
	data = slices.Clone(data)
	for n := rapid.IntRange(1, maxOps).Draw(t, "nMut"); n > 0; n-- {
		if len(data) < 4 {
			return data
		}
		pos := rapid.IntRange(0, len(data)-1).Draw(t, "mutPos")
		if rapid.IntRange(0, 3).Draw(t, "head") == 0 {
			// structure is concentrated at the start
			pos = rapid.IntRange(0, min(len(data), 64)-1).Draw(t, "mutPos2")
		}
		even := min(pos&^1, len(data)-2)
		u16 := int(data[even])<<8 | int(data[even+1])
		set := func(v int) { data[even], data[even+1] = byte(v>>8), byte(v) }
		switch rapid.IntRange(0, 9).Draw(t, "mutOp") {
		case 0: // bit flip
			data[pos] ^= 1 << rapid.IntRange(0, 7).Draw(t, "bit")
		case 1: // random byte
			data[pos] = rapid.Byte().Draw(t, "byte")
		case 2, 3: // interesting word
			set(rapid.SampledFrom([]int{0, 1, 2, 3, 4, 5, 8, 0x10, 0xFF, 0x100, 0x7FFF, 0x8000, 0xFFFE, 0xFFFF, len(data), len(data) - 1, len(data) / 2}).Draw(t, "word"))
		case 4: // small change
			set(u16 + rapid.SampledFrom([]int{-2, -1, 1, 2, 4, -4, 6, 256}).Draw(t, "delta"))
		case 5, 6: // copy a word from elsewhere
			from := rapid.IntRange(0, len(data)-2).Draw(t, "from") &^ 1
			data[even], data[even+1] = data[from], data[from+1]
		case 7: // copy a block over another one
			k := min(rapid.IntRange(2, 32).Draw(t, "blockLen"), len(data))
			from := rapid.IntRange(0, len(data)-k).Draw(t, "from")
			to := rapid.IntRange(0, len(data)-k).Draw(t, "to")
			copy(data[to:to+k], slices.Clone(data[from:from+k]))
		case 8: // truncate, extend or delete a block
			switch rapid.IntRange(0, 3).Draw(t, "resize") {
			case 0:
				data = data[:pos]
			case 1:
				data = append(data, make([]byte, rapid.IntRange(1, 16).Draw(t, "nExtra"))...)
			case 2:
				data = slices.Delete(data, pos, min(pos+rapid.IntRange(1, 8).Draw(t, "nDel"), len(data)))
			case 3:
				data = slices.Insert(data, pos, rapid.SliceOfN(rapid.Byte(), 1, 8).Draw(t, "ins")...)
			}
		case 9: // 32-bit values
			if len(data) >= 4 {
				k := min(pos&^3, len(data)-4)
				v := rapid.SampledFrom([]uint32{0, 1, 0xFFFF, 0x10000, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, uint32(len(data))}).Draw(t, "long")
				data[k], data[k+1], data[k+2], data[k+3] = byte(v>>24), byte(v>>16), byte(v>>8), byte(v)
			}
		}
	}
	return data
}
