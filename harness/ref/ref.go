// Package ref has the harness's own copies of fixed functions of the system.
package ref

import "math/bits"

// Murmur3 is MurmurHash3 x86_32.
func Murmur3(data []byte, seed uint32) uint32 {
	const c1, c2 = 0xcc9e2d51, 0x1b873593
	h := seed
	n := len(data)
	for i := 0; i+4 <= n; i += 4 {
		k := uint32(data[i]) + uint32(data[i+1])*256 + uint32(data[i+2])*65536 + uint32(data[i+3])*16777216
		h ^= bits.RotateLeft32(k*c1, 15) * c2
		h = bits.RotateLeft32(h, 13)*5 + 0xe6546b64
	}
	var k uint32
	for i := n - 1; i >= n-n%4; i-- {
		k = k*256 + uint32(data[i])
	}
	if n%4 != 0 {
		h ^= bits.RotateLeft32(k*c1, 15) * c2
	}
	h ^= uint32(n)
	h = (h ^ h>>16) * 0x85ebca6b
	h = (h ^ h>>13) * 0xc2b2ae35
	return h ^ h>>16
}

// Range is a half-open interval of key groups.
type Range struct{ Start, End int }

// Has says whether the group is in the range.
func (r Range) Has(g int) bool { return r.Start <= g && g < r.End }

// Ranges splits groups over n owners: the first groups%n have one more.
func Ranges(groups, n int) []Range {
	out := make([]Range, n)
	at := 0
	for i := range out {
		size := groups / n
		if i < groups%n {
			size++
		}
		out[i] = Range{at, at + size}
		at += size
	}
	return out
}

// Group is a key's group.
func Group(key []byte, groups int) int { return int(Murmur3(key, 0) % uint32(groups)) }

// Owner is the index of the range holding a key.
func Owner(key []byte, groups, n int) int {
	g := Group(key, groups)
	for i, r := range Ranges(groups, n) {
		if r.Has(g) {
			return i
		}
	}
	return -1
}
