package h5sum

import (
	"bytes"
	"encoding/binary"
)

// Dangling tells whether something in the file looks like a reference to an object that
// a collection of the global heap does not have. (The C library sometimes frees values
// it goes on referring to, and then reads something else in their place.) With gaps, it
// tells whether anything was freed at all: references in compressed data can't be seen.
func Dangling(b []byte, gaps bool) bool {
	le := binary.LittleEndian
	base := 0
	for p := 0; p+8 <= len(b); p = max(512, 2*p) {
		if bytes.HasPrefix(b[p:], []byte("\x89HDF\r\n\x1a\n")) {
			base = p
			break
		}
	}
	heaps := map[uint64]map[uint32]bool{}
	for p := base; p < len(b); p++ {
		i := bytes.Index(b[p:], []byte("GCOL\x01\x00\x00\x00"))
		if i < 0 {
			break
		}
		p += i
		if p+16 > len(b) {
			break
		}
		end := uint64(p) + le.Uint64(b[p+8:])
		if end < uint64(p) || end > uint64(len(b)) {
			continue
		}
		have := map[uint32]bool{}
		last := uint32(0)
		for q := uint64(p + 16); q+16 <= end; {
			ix, size := uint32(le.Uint16(b[q:])), le.Uint64(b[q+8:])
			if ix == 0 || size > end {
				break
			}
			have[ix] = true
			last = max(last, ix)
			q += 16 + (size+7)/8*8
		}
		if gaps && len(have) < int(last) {
			return true
		}
		heaps[uint64(p-base)] = have
	}
	if len(heaps) == 0 {
		return false
	}
	for q := base; q+16 <= len(b); q++ {
		if le.Uint64(b[q:]) == 0 && le.Uint64(b[q+8:]) == 0 {
			q += 8
			continue
		}
		addr := le.Uint64(b[q+4:])
		if addr == 0 || addr >= uint64(len(b)) || le.Uint32(b[q:]) == 0 {
			continue
		}
		if have := heaps[addr]; have != nil {
			if ix := le.Uint32(b[q+12:]); ix > 0 && ix < 1<<16 && !have[ix] {
				return true
			}
		}
	}
	return false
}
