property='C03'; pkg='orc/encoding'
edits=[('orc/encoding/bool.go','	if e.index != -1 {\n		if err','	if e.index > 0 {\n		if err')]
needs='a flush when exactly one boolean is pending after the last whole byte'
breaks='that boolean is lost'
demo='''package encoding

import (
	"bytes"
	"testing"
)

func TestZZDemo(t *testing.T) {
	e := NewBoolEncoder(false)
	var out bytes.Buffer
	in := []bool{true, false, true, true, false, false, true, true, true}
	for _, v := range in {
		if err := e.Encode(v, &out); err != nil {
			t.Fatal(err)
		}
	}
	if err := e.Flush(&out); err != nil {
		t.Fatal(err)
	}
	var got []bool
	var err error
	for out.Len() > 0 {
		if got, err = DecodeBools(&out, got); err != nil {
			t.Fatal(err)
		}
	}
	if len(got) < len(in) {
		t.Fatalf("%v, want %v", got, in)
	}
	for i := range in {
		if got[i] != in[i] {
			t.Fatalf("%v, want %v", got, in)
		}
	}
}
'''
