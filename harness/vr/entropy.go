package vr

import "pgregory.net/rapid"

// Entropy draws bytes to build values from. What rapid draws are mostly short
// lists, which leave the later fields of wide values zero: a tail of pseudo
// random bytes, given by its length and a seed, fills these, too. Failures
// shrink towards no tail.
func Entropy(t *rapid.T, label string, max int) []byte {
	b := rapid.SliceOfN(rapid.Byte(), 0, max).Draw(t, label)
	tail := rapid.SampledFrom([]int{0, 0, 40, 120, 300, 800}).Draw(t, label+" tail")
	if tail == 0 {
		return b
	}
	x := rapid.Uint64().Draw(t, label+" seed")
	for i := 0; i < tail; i++ {
		// splitmix64
		x += 0x9e3779b97f4a7c15
		z := x
		z = (z ^ z>>30) * 0xbf58476d1ce4e5b9
		z = (z ^ z>>27) * 0x94d049bb133111eb
		b = append(b, byte(z^z>>31))
	}
	return b
}
