//go:build !bare

package main

import (
	"bytes"

	"github.com/patrickhuang888/goorc/orc/common"
	"github.com/patrickhuang888/goorc/pb/pb"
)

func init() {
	optCompressingLeft = func(kind pb.CompressionKind, size int, dst, src *bytes.Buffer) error {
		return common.CompressingLeft(kind, size, dst, src)
	}
}
