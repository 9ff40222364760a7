package main

import (
	"bytes"

	"github.com/patrickhuang888/goorc/pb/pb"
)

// nil if the library has it no more
var optCompressingLeft func(kind pb.CompressionKind, size int, dst, src *bytes.Buffer) error
