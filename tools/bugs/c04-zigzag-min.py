property='C04'; pkg='orc/encoding'
edits=[('orc/encoding/package.go','''	return int64(x>>1) ^ -int64(x&1)
''','''	if x&1 == 0 {
		return int64(x >> 1)
	}
	return -int64((x + 1) >> 1)
''')]
needs='the smallest 64 bit integer, whose zigzag form is the largest unsigned one'
breaks='the smallest integer is decoded as 0'
demo='''package encoding

import (
	"math"
	"testing"
)

func TestZZDemo(t *testing.T) {
	for _, v := range []int64{0, 1, -1, 2, -2, 63, -64, math.MaxInt64, math.MinInt64 + 1, math.MinInt64} {
		if g := UnZigzag(Zigzag(v)); g != v {
			t.Fatalf("%d is decoded as %d", v, g)
		}
	}
}
'''
