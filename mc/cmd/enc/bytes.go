package main

import (
	"bytes"
	"fmt"
	"io"

	"goorcmc/mcx"
	"goorcmc/spec"

	"github.com/patrickhuang888/goorc/orc/encoding"
)

// decodeBytesSelf reads runs with the library until want values are there.
func decodeBytesSelf(t *mcx.T, b []byte, n int) []byte {
	buf := bytes.NewBuffer(append(append([]byte(nil), b...), 0xff, 0x77)) // sentinel: one literal
	var got []byte
	var err error
	for len(got) < n {
		t.Step(1)
		l := len(got)
		if got, err = encoding.DecodeByteRL(buf, got); err != nil {
			t.Failf("decode error after %d of %d: %v", len(got), n, err)
		}
		if len(got) == l {
			t.Failf("decoder made no progress")
		}
	}
	if !bytes.Equal(buf.Bytes(), []byte{0xff, 0x77}) {
		t.Failf("decoder did not consume exactly the encoded bytes")
	}
	return got
}

func runBytes(t *mcx.T, segs [][]byte) {
	enc := encoding.NewByteEncoder(true)
	out := &bytes.Buffer{}
	var all []byte
	prev := 0
	for i, s := range segs {
		for _, v := range s {
			if err := enc.Encode(v, out); err != nil {
				t.Failf("Encode: %v", err)
			}
			t.Step(1)
		}
		if err := enc.Flush(out); err != nil {
			t.Failf("Flush: %v", err)
		}
		all = append(all, s...)
		part := out.Bytes()[prev:]
		g, err := spec.ByteRLE(part)
		if err != nil || !bytes.Equal(g, s) {
			t.Failf("segment %d: bytes %x mean %v (%v) under the specification, written %v", i, part, g, err, s)
		}
		prev = out.Len()
	}
	t.State(out.Bytes())
	if g := decodeBytesSelf(t, out.Bytes(), len(all)); !bytes.Equal(g, all) {
		t.Failf("decoded %v, want %v", g, all)
	}
	for k := 0; k < out.Len() && k < 40; k++ { // truncated input: an error or a true prefix
		buf := bytes.NewBuffer(append([]byte(nil), out.Bytes()[:k]...))
		var g []byte
		var err error
		for err == nil {
			g, err = encoding.DecodeByteRL(buf, g)
			t.Step(1)
		}
		if !bytes.HasPrefix(all, g) {
			t.Failf("input cut to %d bytes decodes to %v, not a prefix of %v", k, g, all)
		}
	}
}

func runBools(t *mcx.T, segs [][]bool) {
	enc := encoding.NewBoolEncoder(true)
	out := &bytes.Buffer{}
	prev := 0
	var all []bool
	for i, s := range segs {
		for _, v := range s {
			if err := enc.Encode(v, out); err != nil {
				t.Failf("Encode: %v", err)
			}
			t.Step(1)
		}
		if err := enc.Flush(out); err != nil {
			t.Failf("Flush: %v", err)
		}
		pad := append([]bool(nil), s...)
		for len(pad)%8 != 0 {
			pad = append(pad, false)
		}
		all = append(all, pad...)
		part := out.Bytes()[prev:]
		g, err := spec.Bools(part, -1)
		if err != nil || fmt.Sprint(g) != fmt.Sprint(pad) {
			t.Failf("segment %d: bytes %x mean %v (%v) under the specification, want %v", i, part, g, err, pad)
		}
		prev = out.Len()
	}
	t.State(out.Bytes())
	buf := bytes.NewBuffer(append(append([]byte(nil), out.Bytes()...), 0xff, 0x77))
	var got []bool
	var err error
	for len(got) < len(all) {
		t.Step(1)
		if got, err = encoding.DecodeBools(buf, got); err != nil {
			t.Failf("decode: %v", err)
		}
	}
	if !bytes.Equal(buf.Bytes(), []byte{0xff, 0x77}) || fmt.Sprint(got) != fmt.Sprint(all) {
		t.Failf("decoded %v, want %v", got, all)
	}
}

func C03(c *mcx.Ctx) {
	c.Assume("oracle: spec/rle.go byte and boolean RLE codec written from the ORC v1 specification")
	do := func(name string, segs [][]byte) {
		c.Do(func() string { return name }, func(t *mcx.T) { runBytes(t, segs) })
	}
	split := func(v []byte, m int) (segs [][]byte) {
		p := 0
		for i := 1; i < len(v); i++ {
			if m>>uint(i-1)&1 == 1 {
				segs = append(segs, v[p:i])
				p = i
			}
		}
		return append(segs, v[p:])
	}
	c.Group("bytes-sequences")
	L := 11
	if c.Thorough {
		L = 13
	}
	mcx.Seqs(3, 0, L, func(ix []int) {
		v := make([]byte, len(ix))
		for i, k := range ix {
			v[i] = []byte{0, 255, 7}[k]
		}
		do(fmt.Sprintf("%v", ix), [][]byte{v})
	})
	c.Group("bytes-flushes")
	mcx.Seqs(2, 1, 9, func(ix []int) {
		v := make([]byte, len(ix))
		for i, k := range ix {
			v[i] = byte(k * 128)
		}
		for m := 1; m < 1<<uint(len(v)-1); m++ {
			do(fmt.Sprintf("%v-split%b", ix, m), split(v, m))
		}
	})
	c.Group("bytes-every-value")
	for a := 0; a < 256; a++ {
		for n := 1; n <= 5; n++ {
			do(fmt.Sprintf("%d*%d", a, n), [][]byte{bytes.Repeat([]byte{byte(a)}, n)})
			do(fmt.Sprintf("lit+%d*%d+lit", a, n), [][]byte{append(append([]byte{byte(a + 1)}, bytes.Repeat([]byte{byte(a)}, n)...), byte(a+1), byte(a+2))})
		}
	}
	c.Group("bytes-runs")
	lens := []int{1, 2, 3, 4, 125, 126, 127, 128, 129, 130, 131, 132, 133, 255, 256, 257, 258, 259, 260, 261}
	type bs struct {
		n string
		v []byte
	}
	var parts []bs
	for _, n := range lens {
		lit := make([]byte, n)
		pair := make([]byte, n)
		trip := make([]byte, n)
		for i := range lit {
			lit[i] = byte(i*3 + 1)
			pair[i] = byte(i/2*3 + 2)
			trip[i] = byte(i/3 + 3)
		}
		parts = append(parts, bs{fmt.Sprintf("rep%d", n), bytes.Repeat([]byte{9}, n)}, bs{fmt.Sprintf("lit%d", n), lit}, bs{fmt.Sprintf("pair%d", n), pair}, bs{fmt.Sprintf("trip%d", n), trip})
	}
	for _, a := range parts {
		do(a.n, [][]byte{a.v})
		for _, b := range parts {
			do(a.n+"+"+b.n, [][]byte{append(append([]byte(nil), a.v...), b.v...)})
			do(a.n+"|"+b.n, [][]byte{a.v, b.v})
			for _, d := range parts {
				if !c.Thorough && (len(b.v) > 4 && len(b.v) < 126 || len(a.v) > 131 || len(d.v) > 131) {
					continue
				}
				do(a.n+"+"+b.n+"+"+d.n, [][]byte{append(append(append([]byte(nil), a.v...), b.v...), d.v...)})
			}
		}
	}
	c.Group("bytes-decoder")
	for h := 0; h < 256; h++ {
		for _, n := range []int{0, 1, 2, 127, 128, 129, 130} {
			b := []byte{byte(h)}
			for i := 0; i < n; i++ {
				b = append(b, byte(i*5))
			}
			c.Do(func() string { return fmt.Sprintf("hdr%02x+%d", h, n) }, func(t *mcx.T) {
				need := 2
				if h >= 128 {
					need = 1 + 256 - h
				}
				buf := bytes.NewBuffer(append([]byte(nil), b...))
				t.Step(1)
				got, err := encoding.DecodeByteRL(buf, nil)
				if len(b) < need {
					if err == nil {
						t.Failf("truncated run decoded to %v without error", got)
					}
					return
				}
				want, _ := spec.ByteRLE(b[:need])
				t.State(b)
				if err != nil || !bytes.Equal(got, want) || buf.Len() != len(b)-need {
					t.Failf("got %v, %v with %d left, want %v with %d left", got, err, buf.Len(), want, len(b)-need)
				}
				// values already decoded are kept
				got, err = encoding.DecodeByteRL(bytes.NewBuffer(append([]byte(nil), b...)), []byte{1, 2})
				if err != nil || !bytes.Equal(got, append([]byte{1, 2}, want...)) {
					t.Failf("append form gives %v, %v", got, err)
				}
			})
		}
	}
	// booleans
	c.Group("bools-sequences")
	L = 18
	if c.Thorough {
		L = 21
	}
	doB := func(name string, segs [][]bool) {
		c.Do(func() string { return name }, func(t *mcx.T) { runBools(t, segs) })
	}
	mcx.Seqs(2, 0, L, func(ix []int) {
		v := make([]bool, len(ix))
		for i, k := range ix {
			v[i] = k == 1
		}
		doB(fmt.Sprint(ix), [][]bool{v})
	})
	c.Group("bools-flushes")
	mcx.Seqs(2, 1, 11, func(ix []int) {
		v := make([]bool, len(ix))
		for i, k := range ix {
			v[i] = k == 1
		}
		for p := 0; p <= len(v); p++ {
			doB(fmt.Sprintf("%v-split%d", ix, p), [][]bool{v[:p], v[p:]})
			for q := p; q <= len(v) && len(v) <= 8; q++ {
				doB(fmt.Sprintf("%v-split%d,%d", ix, p, q), [][]bool{v[:p], v[p:q], v[q:]})
			}
		}
	})
	c.Group("bools-runs")
	var bl []int
	for _, n := range []int{1, 7, 8, 9, 15, 16, 17, 23, 24, 25, 1016, 1023, 1024, 1025, 1039, 1040, 1041, 1048, 2047, 2049} {
		bl = append(bl, n)
	}
	pat := func(k, n int) []bool {
		v := make([]bool, n)
		for i := range v {
			switch k {
			case 0:
				v[i] = true
			case 1:
				v[i] = false
			case 2:
				v[i] = i%2 == 0
			case 3:
				v[i] = i%7 == 3
			case 4:
				v[i] = (i*i/5)%3 == 0
			case 5:
				v[i] = i/24%2 == 0
			}
		}
		return v
	}
	for k1 := 0; k1 < 6; k1++ {
		for _, n1 := range bl {
			for k2 := 0; k2 < 6; k2++ {
				for _, n2 := range bl {
					a, b := pat(k1, n1), pat(k2, n2)
					doB(fmt.Sprintf("%d*%d+%d*%d", k1, n1, k2, n2), [][]bool{append(append([]bool(nil), a...), b...)})
					doB(fmt.Sprintf("%d*%d|%d*%d", k1, n1, k2, n2), [][]bool{a, b})
				}
			}
		}
	}
	c.Group("bools-from-byte")
	for b := 0; b < 256; b++ {
		c.Do(func() string { return fmt.Sprint(b) }, func(t *mcx.T) {
			t.Step(1)
			if optBoolsFromByte == nil {
				return
			}
			g := optBoolsFromByte(byte(b))
			t.StateS(fmt.Sprint(g))
			for i := 0; i < 8; i++ {
				if len(g) != 8 || g[i] != (b>>uint(7-i)&1 == 1) {
					t.Failf("byte %08b gives %v", b, g)
				}
			}
		})
	}
}

var _ = io.EOF
