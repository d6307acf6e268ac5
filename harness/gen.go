package gv

import (
	"encoding/binary"

	"pgregory.net/rapid"
)

// Blob stands for a byte string without spelling it out: n bytes determined by
// tag. Two blobs with different tags differ (from 8 bytes on).
type Blob struct {
	N   int    `json:"n"`
	Tag uint32 `json:"t,omitempty"`
	Nil bool   `json:"nil,omitempty"`
}

func (b Blob) Bytes() []byte {
	if b.Nil {
		return nil
	}
	return pattern(b.N, b.Tag)
}

// pattern gives n bytes derived from tag; the first bytes spell the tag.
func pattern(n int, tag uint32) []byte {
	out := make([]byte, n)
	x := uint64(tag)*0x9E3779B97F4A7C15 + 0x1234567
	i := 0
	var hdr [8]byte
	binary.BigEndian.PutUint32(hdr[:4], tag)
	binary.BigEndian.PutUint32(hdr[4:], uint32(n))
	i = copy(out, hdr[:])
	for ; i < n; i++ {
		x ^= x << 13
		x ^= x >> 7
		x ^= x << 17
		out[i] = byte(x >> 24)
	}
	return out
}

func genLen(t *rapid.T, max int, label string) int {
	switch rapid.IntRange(0, 9).Draw(t, label+"Class") {
	case 0:
		return 0
	case 1, 2, 3:
		return rapid.IntRange(0, min(16, max)).Draw(t, label)
	case 4, 5, 6:
		return rapid.IntRange(0, min(300, max)).Draw(t, label)
	case 7, 8:
		return rapid.IntRange(0, min(5000, max)).Draw(t, label)
	default:
		if rapid.IntRange(0, 2).Draw(t, label+"Edge") == 0 {
			// next to a power of two
			n := 1<<rapid.IntRange(4, 20).Draw(t, label+"Pow") + rapid.IntRange(-1, 1).Draw(t, label)
			if n <= max {
				return n
			}
		}
		return rapid.IntRange(0, max).Draw(t, label)
	}
}

// genBig draws, once in a while, a length next to a power of two that is beyond
// all others, up to 16 MB.
func genBig(t *rapid.T, once int, label string) (int, bool) {
	// rapid prefers small numbers, which must not decide here
	if (rapid.Uint32().Draw(t, label+"C")*2654435761>>8)%uint32(once) != 1 {
		return 0, false
	}
	return 1<<rapid.IntRange(17, 24).Draw(t, label+"Pow") + rapid.IntRange(-30, 2).Draw(t, label), true
}

func genBlob(t *rapid.T, max int, label string) Blob {
	b := Blob{N: genLen(t, max, label+"N")}
	if b.N > 0 {
		b.Tag = uint32(rapid.IntRange(0, 1<<20).Draw(t, label+"T"))
	} else {
		b.Nil = rapid.Bool().Draw(t, label+"Nil")
	}
	return b
}

func genU64(t *rapid.T, label string) uint64 {
	switch rapid.IntRange(0, 5).Draw(t, label+"Class") {
	case 0:
		return 0
	case 1:
		return uint64(rapid.IntRange(0, 300).Draw(t, label))
	case 2:
		return ^uint64(0) - uint64(rapid.IntRange(0, 3).Draw(t, label))
	case 3:
		return 1 << rapid.IntRange(0, 63).Draw(t, label)
	default:
		return rapid.Uint64().Draw(t, label)
	}
}

func genStr(t *rapid.T, max int, label string) string {
	switch rapid.IntRange(0, 6).Draw(t, label+"Class") {
	case 0:
		return ""
	case 1, 2:
		return rapid.StringMatching(`[a-z]{1,8}(/[a-z]{1,4}){0,2}`).Draw(t, label)
	case 3, 4:
		return rapid.StringN(1, min(12, max), 64).Draw(t, label)
	case 5:
		return rapid.SampledFrom([]string{"\"", "\\", "<script>&", "\u2028\u2029", "null", "{}", "\x00", "\x1f\x7f", "日本語", "é\u0301", "🙂", "a\nb\tc\rd", " "}).Draw(t, label)
	default:
		return rapid.StringN(0, max, -1).Draw(t, label)
	}
}

func genFrag(t *rapid.T, label string) []int {
	switch rapid.IntRange(0, 3).Draw(t, label+"Class") {
	case 0:
		return nil
	case 1:
		return []int{1}
	default:
		return rapid.SliceOfN(rapid.IntRange(1, 40), 1, 6).Draw(t, label)
	}
}

// genMin draws the least length of a list of at most max: rapid's lists are
// short on their own.
func genMin(t *rapid.T, max int, label string) int {
	switch rapid.IntRange(0, 4).Draw(t, label+"MinC") {
	case 0, 1:
		return 1
	case 2:
		return rapid.IntRange(1, (max+3)/4).Draw(t, label+"Min")
	case 3:
		return (max + 3) / 4
	default:
		return (max + 1) / 2
	}
}
