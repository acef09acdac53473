// Package rand replaces crypto/rand in instrumented code with draws from the
// simulator.
package rand

import (
	"io"

	"vsim/rt"
)

type reader struct{}

func (reader) Read(b []byte) (int, error) {
	for i := range b {
		b[i] = byte(rt.Bits(rt.StWork))
	}
	return len(b), nil
}

// Reader is the simulated source.
var Reader io.Reader = reader{}

func Read(b []byte) (int, error) { return Reader.Read(b) }

func Text() string {
	b := make([]byte, 26)
	for i := range b {
		b[i] = "ABCDEFGHIJKLMNOPQRSTUVWXYZ234567"[rt.Bits(rt.StWork)&31]
	}
	return string(b)
}
