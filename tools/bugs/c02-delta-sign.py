property='C02'; pkg='orc/encoding'
edits=[('orc/encoding/int.go','''					if deltaBase >= 0 {
						d.uvs = append(d.uvs, prev+delta)
					} else {''','''					if deltaBase > 0 {
						d.uvs = append(d.uvs, prev+delta)
					} else {''')]
needs='an unsigned delta run, written by another writer, whose first delta is zero and whose packed deltas are not'
breaks='the values after the second count down instead of up'
demo='''package encoding

import (
	"bytes"
	"testing"
)

func TestZZDemo(t *testing.T) {
	// delta, 8 bits, 4 values: 10, +0, +3, +5
	d := NewIntDecoder(false)
	vs, err := d.DecodeUInt(bytes.NewBuffer([]byte{0xc0 | 7<<1, 3, 10, 0, 3, 5}))
	if err != nil {
		t.Fatal(err)
	}
	for i, w := range []uint64{10, 10, 13, 18} {
		if vs[i] != w {
			t.Fatalf("value %d is %d, want %d", i, vs[i], w)
		}
	}
}
'''
