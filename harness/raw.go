package main

import (
	"errors"

	"vsim/rt"

	"github.com/savaki/kafka/message"
)

var errDecode = errors.New("decode function of the caller failed")

// doRaw performs a call with Conn.Do and encode/decode functions of the harness.
func (c *Call) doRaw() {
	c.err = c.h.conn.Do(
		func(e *message.Encoder, corr int32) {
			client := "raw"
			e.PutInt32(int32(2 + 2 + 4 + 2 + len(client) + 4 + len(c.raw)))
			e.PutInt16(rawKey)
			e.PutInt16(0)
			e.PutInt32(corr)
			e.PutString(client)
			e.PutBytes(c.raw)
		},
		func(d *message.Decoder) error {
			c.decodes++
			c.inDecode = true
			if c.h.closeEnd != 0 {
				c.decodedAfterClose = true
			}
			if c.slow > 0 {
				rt.SleepFor(int64(c.slow))
			}
			b, err := d.Bytes()
			c.inDecode = false
			if err != nil {
				c.decErr = err
				return err
			}
			c.rawResp = b
			if c.wantDecErr {
				c.decErr = errDecode
				return errDecode
			}
			return nil
		},
	)
}

var _ = rt.Now
