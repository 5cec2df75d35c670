// Package h5sum finds what the checksums of an HDF5 file cover, and can repair them,
// independently of the library under test. It does not follow the structure of the file:
// it looks for signatures, and for the length with which the checksum is right.
package h5sum

import (
	"bytes"
	"encoding/binary"
	"math/bits"
	"sort"
)

// Range is what a checksum covers: [Start,End), but not the checksum itself, which
// is the four bytes at Sum.
type Range struct {
	Kind       string
	Start, End int
	Sum        int
}

// In tells whether the byte belongs to the range or is its checksum.
func (r Range) In(at int) bool { return at >= r.Start && at < r.End || at >= r.Sum && at < r.Sum+4 }

// Lookup3 is Bob Jenkins' hash as HDF5 uses it.
func Lookup3(k []byte) uint32 {
	n := uint32(len(k))
	a := 0xdeadbeef + n
	b, c := a, a
	for len(k) > 12 {
		a += binary.LittleEndian.Uint32(k)
		b += binary.LittleEndian.Uint32(k[4:])
		c += binary.LittleEndian.Uint32(k[8:])
		a -= c
		a ^= bits.RotateLeft32(c, 4)
		c += b
		b -= a
		b ^= bits.RotateLeft32(a, 6)
		a += c
		c -= b
		c ^= bits.RotateLeft32(b, 8)
		b += a
		a -= c
		a ^= bits.RotateLeft32(c, 16)
		c += b
		b -= a
		b ^= bits.RotateLeft32(a, 19)
		a += c
		c -= b
		c ^= bits.RotateLeft32(b, 4)
		b += a
		k = k[12:]
	}
	if len(k) == 0 {
		return c
	}
	var t [12]byte
	copy(t[:], k)
	a += binary.LittleEndian.Uint32(t[:])
	b += binary.LittleEndian.Uint32(t[4:])
	c += binary.LittleEndian.Uint32(t[8:])
	c ^= b
	c -= bits.RotateLeft32(b, 14)
	a ^= c
	a -= bits.RotateLeft32(c, 11)
	b ^= a
	b -= bits.RotateLeft32(a, 25)
	c ^= b
	c -= bits.RotateLeft32(b, 16)
	a ^= c
	a -= bits.RotateLeft32(c, 4)
	b ^= a
	b -= bits.RotateLeft32(a, 14)
	c ^= b
	c -= bits.RotateLeft32(b, 24)
	return c
}

var sigs = []string{"OHDR", "OCHK", "FRHP", "FHIB", "BTHD", "BTLF", "BTIN"}

const maxLen = 70000

// Find finds all ranges covered by the checksums of metadata.
func Find(b []byte) []Range {
	var rs []Range
	if len(b) >= 48 && string(b[:8]) == "\x89HDF\r\n\x1a\n" && (b[8] == 2 || b[8] == 3) {
		if Lookup3(b[:44]) == binary.LittleEndian.Uint32(b[44:]) {
			rs = append(rs, Range{"superblock", 0, 44, 44})
		}
	}
	var at []int
	kind := map[int]string{}
	for _, s := range sigs {
		for i := 0; ; {
			j := bytes.Index(b[i:], []byte(s))
			if j < 0 {
				break
			}
			at = append(at, i+j)
			kind[i+j] = s
			i += j + 4
		}
	}
	sort.Ints(at)
	for _, p := range at {
		if n := length(b, p, kind[p]); n > 0 {
			rs = append(rs, Range{kind[p], p, p + n, p + n})
		}
	}
	for i := 0; ; {
		j := bytes.Index(b[i:], []byte("FHDB"))
		if j < 0 {
			break
		}
		if r, ok := directBlock(b, i+j); ok {
			rs = append(rs, r)
		}
		i += j + 4
	}
	return rs
}

func right(b []byte, p, n int) bool {
	return n > 0 && p+n+4 <= len(b) && Lookup3(b[p:p+n]) == binary.LittleEndian.Uint32(b[p+n:])
}

// length is how many bytes of the structure at p come before its checksum.
func length(b []byte, p int, kind string) int {
	if kind == "OHDR" && p+6 < len(b) {
		f := b[p+5]
		h := 6
		if f&0x20 != 0 {
			h += 16
		}
		if f&0x10 != 0 {
			h += 4
		}
		w := 1 << (f & 3)
		if p+h+w > len(b) {
			return 0
		}
		size := 0
		for i := w - 1; i >= 0; i-- {
			size = size<<8 | int(b[p+h+i])
		}
		if right(b, p, h+w+size) {
			return h + w + size
		}
		return 0
	}
	for n := 5; n < maxLen && p+n+4 <= len(b); n++ {
		if n > 12000 && n%8 != 0 && kind != "OCHK" {
			continue
		}
		if right(b, p, n) {
			return n
		}
	}
	return 0
}

// directBlock: the checksum is behind the block's offset, and counts as zero.
func directBlock(b []byte, p int) (Range, bool) {
	for off := 1; off <= 8; off++ {
		sum := p + 13 + off
		if sum+4 > len(b) {
			continue
		}
		want := binary.LittleEndian.Uint32(b[sum:])
		for n := 256; n <= 1<<17 && p+n <= len(b); n *= 2 {
			c := append([]byte{}, b[p:p+n]...)
			copy(c[sum-p:], []byte{0, 0, 0, 0})
			if Lookup3(c) == want {
				return Range{"FHDB", p, p + n, sum}, true
			}
		}
	}
	return Range{}, false
}

// Repair makes the checksums of the ranges right again.
func Repair(b []byte, rs []Range) {
	for _, r := range rs {
		if r.Sum+4 > len(b) || r.End > len(b) {
			continue
		}
		if r.Kind == "FHDB" {
			copy(b[r.Sum:], []byte{0, 0, 0, 0})
		}
		binary.LittleEndian.PutUint32(b[r.Sum:], Lookup3(b[r.Start:r.End]))
	}
}
