package rt

import (
	"crypto/sha256"
	"encoding/binary"
)

var freeRand uint64

// RandRead fills p from a stream that is the same in every execution.
func RandRead(p []byte) (int, error) {
	ctr := &freeRand
	if S != nil {
		ctr = &S.rand
	}
	for n := 0; n < len(p); {
		var b [8]byte
		*ctr++
		binary.BigEndian.PutUint64(b[:], *ctr)
		h := sha256.Sum256(b[:])
		n += copy(p[n:], h[:])
	}
	return len(p), nil
}
