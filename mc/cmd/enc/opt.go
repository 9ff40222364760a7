package main

import (
	"bytes"
	"io"

	"github.com/patrickhuang888/goorc/orc/api"
)

// Functions the library may do without: nil if it has them no more (then the checks are built with the tag bare).
var (
	optConvert       func(uint64) int64
	optReadVUint     func(io.ByteReader) (uint64, error)
	optEncodingNano  func(uint64) uint64
	optDecodingNano  func(uint64) uint64
	optBoolsFromByte func(byte) []bool
	optDateEncoder   func() dateEncoder
	optDateDecoder   func() func(*bytes.Buffer) ([]api.Date, error)
)

type dateEncoder interface {
	Encode(v interface{}, out *bytes.Buffer) error
	Flush(out *bytes.Buffer) error
}
