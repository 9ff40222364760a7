property='C01'; pkg='orc/encoding'
edits=[('orc/encoding/int.go','''					pvs.gaps = append(pvs.gaps, 255)
					pvs.patches = append(pvs.patches, 0)
					previousGap += 255''','''					pvs.gaps = append(pvs.gaps, 255)
					pvs.patches = append(pvs.patches, 0)
					previousGap += 256''')]
needs='a run of more than 256 signed values in which two wide outliers are more than 255 values apart'
breaks='the patch of the second outlier lands on the value before it'
demo='''package encoding

import (
	"bytes"
	"testing"
)

func TestZZDemo(t *testing.T) {
	var in []int64
	for i := 0; i < 512; i++ {
		in = append(in, int64(i*7%5))
	}
	in[3], in[400] = 1<<20, 1<<21
	e := NewIntRLV2(true, false)
	var out bytes.Buffer
	for _, v := range in {
		if err := e.Encode(v, &out); err != nil {
			t.Fatal(err)
		}
	}
	if err := e.Flush(&out); err != nil {
		t.Fatal(err)
	}
	d := NewIntDecoder(true)
	var got []int64
	for out.Len() > 0 {
		vs, err := d.DecodeInt(&out)
		if err != nil {
			t.Fatal(err)
		}
		got = append(got, vs...)
	}
	if len(got) != len(in) {
		t.Fatalf("%d values, want %d", len(got), len(in))
	}
	for i := range in {
		if got[i] != in[i] {
			t.Fatalf("value %d is %d, want %d", i, got[i], in[i])
		}
	}
}
'''
