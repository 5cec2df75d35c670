package h

import (
	"fmt"
	"runtime/metrics"
)

var memSample = []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}

func allocated() uint64 {
	metrics.Read(memSample)
	return memSample[0].Value.Uint64()
}

// MemLimit is how much one call may allocate, in all and not at once, on a malformed input
// of the given size. It is far above what any call needs for data that is in the file.
func MemLimit(size int) uint64 { return 2560<<20 + 4096*uint64(size) }

// Guard runs one call on possibly malformed input: it must not panic and must not
// allocate more than limit. It returns a description of what went wrong.
func Guard(what string, limit uint64, f func()) string {
	before := allocated()
	if p := NoPanic(f); p != "" {
		return what + ": " + p
	}
	if n := allocated() - before; n > limit {
		return fmt.Sprintf("%s: allocated %d bytes, more than %d", what, n, limit)
	}
	return ""
}
