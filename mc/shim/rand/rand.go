// Package rand stands in for crypto/rand in instrumented code: a fixed stream
// of distinct, uniformly spread bytes per execution.
package rand

import (
	"crypto/rand"
	"io"
	"math/big"

	"vmc/rt"
)

type reader struct{}

func (reader) Read(p []byte) (int, error) { return rt.RandRead(p) }

var Reader io.Reader = reader{}

func Read(p []byte) (int, error) { return io.ReadFull(Reader, p) }

func Int(r io.Reader, max *big.Int) (*big.Int, error) { return rand.Int(Reader, max) }
func Prime(r io.Reader, bits int) (*big.Int, error)   { return rand.Prime(Reader, bits) }
