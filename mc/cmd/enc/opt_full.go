//go:build !bare

package main

import (
	"bytes"
	"io"

	"github.com/patrickhuang888/goorc/orc/api"
	"github.com/patrickhuang888/goorc/orc/encoding"
)

func init() {
	optConvert = encoding.Convert
	optReadVUint = func(r io.ByteReader) (uint64, error) { return encoding.ReadVUint(r) }
	optEncodingNano = func(n uint64) uint64 { return uint64(encoding.EncodingNano(n)) }
	optDecodingNano = func(n uint64) uint64 { return uint64(encoding.DecodingNano(n)) }
	optBoolsFromByte = func(b byte) []bool { return encoding.DecodeBoolsFromByte(b) }
	optDateEncoder = func() dateEncoder { return encoding.NewDateV2Encoder(true) }
	optDateDecoder = func() func(*bytes.Buffer) ([]api.Date, error) {
		d := encoding.NewDateV2DeCoder()
		return func(b *bytes.Buffer) ([]api.Date, error) { return d.Decode(b) }
	}
}
