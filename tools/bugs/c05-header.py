property='C05'; pkg='orc/common'
edits=[('orc/common/misc.go','	return int(h[2])<<15 | int(h[1])<<7','	return int(h[2]&0x7f)<<15 | int(h[1]&0x7f)<<7')]
needs='a chunk whose stored length has bit 14 or bit 22 set (16 KB of incompressible data in one chunk)'
breaks='the chunk is decoded with a length that is 16 KB too short'
demo='''package common

import (
	"bytes"
	"testing"

	"github.com/patrickhuang888/goorc/pb/pb"
)

func TestZZDemo(t *testing.T) {
	in := make([]byte, 50000)
	x := uint32(1)
	for i := range in {
		x = x*1664525 + 1013904223
		in[i] = byte(x >> 24)
	}
	var c, out bytes.Buffer
	if err := CompressingAllInChunks(pb.CompressionKind_ZLIB, 20000, &c, bytes.NewBuffer(append([]byte{}, in...))); err != nil {
		t.Fatal(err)
	}
	if err := DecompressChunks(pb.CompressionKind_ZLIB, &out, &c); err != nil {
		t.Fatal(err)
	}
	if !bytes.Equal(out.Bytes(), in) {
		t.Fatal("not the same bytes")
	}
}
'''
