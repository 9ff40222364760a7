package main

import (
	"bytes"
	"errors"
	"fmt"
	"math"

	"goorcmc/mcx"
	"goorcmc/spec"

	"github.com/patrickhuang888/goorc/orc/encoding"
)

// intCase encodes vals (raw 64-bit patterns) with a flush after every position
// in flush (and at the end), decodes with the library and with the
// specification decoder.
type intMode int

const (
	selfMode intMode = iota // C01: library decoder
	specMode                // C02: specification decoder
)

func short(vals []uint64, signed bool) string {
	var b bytes.Buffer
	b.WriteByte('[')
	for i := 0; i < len(vals); {
		j := i
		for j < len(vals) && vals[j] == vals[i] {
			j++
		}
		if i > 0 {
			b.WriteByte(' ')
		}
		if signed {
			fmt.Fprintf(&b, "%d", int64(vals[i]))
		} else {
			fmt.Fprintf(&b, "%d", vals[i])
		}
		if j-i > 1 {
			fmt.Fprintf(&b, "x%d", j-i)
		}
		i = j
	}
	b.WriteByte(']')
	return b.String()
}

func encodeInts(t *mcx.T, enc encoding.Encoder, vals []uint64, signed bool, out *bytes.Buffer) {
	for i, v := range vals {
		var err error
		if signed {
			err = enc.Encode(int64(v), out)
		} else {
			err = enc.Encode(v, out)
		}
		t.Step(1)
		if err != nil {
			t.Failf("Encode of value %d (%#x) failed: %v", i, v, err)
		}
	}
}

var sentinel = []byte{0x02, 0x7b} // short repeat, 5 x 0x7b

func decodeAll(t *mcx.T, b []byte, signed bool, n int) []uint64 {
	dec := encoding.NewIntDecoder(signed)
	buf := bytes.NewBuffer(append(append([]byte(nil), b...), sentinel...))
	var got []uint64
	for len(got) < n {
		t.Step(1)
		if signed {
			vs, err := dec.DecodeInt(buf)
			if err != nil {
				t.Failf("decode error after %d of %d values: %v", len(got), n, err)
			}
			for _, v := range vs {
				got = append(got, uint64(v))
			}
			if len(vs) == 0 {
				t.Failf("decoder returned no values and no error")
			}
		} else {
			vs, err := dec.DecodeUInt(buf)
			if err != nil {
				t.Failf("decode error after %d of %d values: %v", len(got), n, err)
			}
			got = append(got, vs...)
			if len(vs) == 0 {
				t.Failf("decoder returned no values and no error")
			}
		}
	}
	if !bytes.Equal(buf.Bytes(), sentinel) {
		t.Failf("decoder did not consume exactly the %d bytes produced: %d bytes left after %d values (want %d)", len(b), buf.Len()-len(sentinel), len(got), n)
	}
	return got
}

func cmp(t *mcx.T, what string, got, want []uint64) {
	if len(got) != len(want) {
		t.Failf("%s: %d values, want %d", what, len(got), len(want))
	}
	for i := range got {
		if got[i] != want[i] {
			t.Failf("%s: value %d is %d (%#x), want %d (%#x)", what, i, int64(got[i]), got[i], int64(want[i]), want[i])
		}
	}
}

func runInts(t *mcx.T, mode intMode, vals []uint64, signed bool, flushes []int) {
	enc := encoding.NewIntRLV2(signed, true)
	out := &bytes.Buffer{}
	var marks []int
	prev := 0
	for _, f := range append(append([]int(nil), flushes...), len(vals)) {
		encodeInts(t, enc, vals[prev:f], signed, out)
		if err := enc.Flush(out); err != nil {
			t.Failf("Flush failed: %v", err)
		}
		t.Step(1)
		marks = append(marks, out.Len())
		prev = f
	}
	b := out.Bytes()
	t.State(b)
	if mode == specMode {
		// each flushed segment must stand alone
		got, kinds, err := spec.RLE2(b, signed)
		if err != nil {
			t.Failf("output is not valid RLEv2 (%v after %d values, runs %v)", err, len(got), kinds)
		}
		cmp(t, fmt.Sprintf("encoder output under the specification (runs %v)", kinds), got, vals)
		return
	}
	got := decodeAll(t, b, signed, len(vals))
	cmp(t, "decoded", got, vals)
	p, pf := 0, 0
	for i, f := range append(append([]int(nil), flushes...), len(vals)) {
		if len(flushes) > 0 && f > pf {
			g := decodeAll(t, b[p:marks[i]], signed, f-pf)
			cmp(t, fmt.Sprintf("segment %d", i), g, vals[pf:f])
		}
		p, pf = marks[i], f
	}
}

func u(v int64) uint64 { return uint64(v) }

type seg struct {
	name string
	vals []uint64
}

// segments are building blocks that steer the encoder into each run kind.
func segments(lens []int, big bool) (out []seg) {
	add := func(name string, n int, f func(i int) uint64) {
		v := make([]uint64, n)
		for i := range v {
			v[i] = f(i)
		}
		out = append(out, seg{fmt.Sprintf("%s*%d", name, n), v})
	}
	for _, n := range lens {
		for _, v := range []uint64{0, 1, 256, 1 << 63, math.MaxUint64} {
			v := v
			add(fmt.Sprintf("rep%d", int64(v)), n, func(int) uint64 { return v })
		}
		for _, st := range []int64{1, -1, 300, -3000, 1 << 40} {
			st := st
			add(fmt.Sprintf("arith%d", st), n, func(i int) uint64 { return uint64(100000 + st*int64(i)) })
		}
		add("accel", n, func(i int) uint64 { return uint64(i * i) })
		add("decel", n, func(i int) uint64 { return uint64(1000000 - i*i) })
		add("plateau", n, func(i int) uint64 { return uint64(5 + i/3) })
		add("alt", n, func(i int) uint64 { return uint64(10 + 7*(i%2)) })
		add("altneg", n, func(i int) uint64 { return u(int64(7 - 14*(i%2))) })
		add("noise11", n, func(i int) uint64 { return uint64((i*7919 + i*i*31) % 2048) })
		add("noise25", n, func(i int) uint64 { return uint64((i*7919 + i*i*15485863) % (1 << 25)) })
		add("wide", n, func(i int) uint64 { return uint64(i*2654435761) * 0x9E3779B97F4A7C15 })
		add("outlier", n, func(i int) uint64 {
			if i%37 == 5 {
				return 1 << 30
			}
			return uint64(50 + i*13%29)
		})
		add("outlierfirst", n, func(i int) uint64 {
			if i == 0 {
				return 1 << 45
			}
			return uint64(50 + i*13%29)
		})
		add("negoutlier", n, func(i int) uint64 {
			if i%41 == 3 {
				return u(-1 << 50)
			}
			return u(int64(i*13%29) - 14)
		})
	}
	return
}

func cat(ss ...seg) (string, []uint64) {
	var v []uint64
	name := ""
	for i, s := range ss {
		if i > 0 {
			name += "+"
		}
		name += s.name
		v = append(v, s.vals...)
	}
	return name, v
}

func intSpaces(c *mcx.Ctx, mode intMode) {
	do := func(vals []uint64, signed bool, fl []int, name string) {
		c.Do(func() string {
			s := "u"
			if signed {
				s = "s"
			}
			n := name
			if n == "" {
				n = short(vals, signed)
			}
			return fmt.Sprintf("%s:%s:flush%v", s, n, fl)
		}, func(t *mcx.T) { runInts(t, mode, vals, signed, fl) })
	}
	both := func(vals []uint64, fl []int, name string) {
		do(vals, false, fl, name)
		do(vals, true, fl, name)
	}

	// 1. every sequence over boundary alphabets
	c.Group("sequences")
	alpha := []uint64{0, 1, u(-1), 2, 5, 255, 256, 1 << 11, 1 << 62, 1 << 63, math.MaxUint64 >> 1, 70000}
	L := 5
	if c.Thorough {
		L = 6
	}
	mcx.Seqs(len(alpha), 0, L, func(ix []int) {
		v := make([]uint64, len(ix))
		for i, k := range ix {
			v[i] = alpha[k]
		}
		both(v, nil, "")
	})
	// small alphabet, longer: repeats, deltas, plateaus and their boundaries
	c.Group("sequences-small")
	small := []uint64{0, 1, 3, u(-1)}
	L = 9
	if c.Thorough {
		L = 10
	}
	mcx.Seqs(3, 5, L, func(ix []int) {
		v := make([]uint64, len(ix))
		for i, k := range ix {
			v[i] = small[k]
		}
		both(v, nil, "")
	})
	mcx.Seqs(4, 5, 8, func(ix []int) {
		v := make([]uint64, len(ix))
		for i, k := range ix {
			v[i] = small[k]
		}
		do(v, true, nil, "")
	})
	mcx.Seqs(2, 10, 15, func(ix []int) {
		v := make([]uint64, len(ix))
		for i, k := range ix {
			v[i] = uint64(k) * 257
		}
		both(v, nil, "")
	})
	// 2. flush at every subset of positions of short sequences
	c.Group("flushes")
	fl3 := []uint64{0, 9, 300}
	mcx.Seqs(3, 1, 6, func(ix []int) {
		v := make([]uint64, len(ix))
		for i, k := range ix {
			v[i] = fl3[k]
		}
		for m := 1; m < 1<<uint(len(v)-1); m++ {
			var f []int
			for i := 0; i < len(v)-1; i++ {
				if m>>uint(i)&1 == 1 {
					f = append(f, i+1)
				}
			}
			both(v, f, "")
		}
	})
	// 3. every bit width in every run kind
	c.Group("widths")
	for w := 0; w <= 64; w++ {
		top := uint64(0)
		if w > 0 {
			top = 1 << uint(w-1)
		}
		for _, hi := range []uint64{top, top | top>>1, top<<1 - 1} {
			for _, n := range []int{1, 2, 3, 4, 7, 10, 11, 31, 512} {
				for at := 0; at < n && at < 8; at++ {
					// direct-like: small noise plus one value of the width
					v := make([]uint64, n)
					d := make([]uint64, n)
					g := make([]uint64, n)
					for i := range v {
						v[i] = uint64(i * 5 % 3)
						d[i] = 10
						g[i] = u(-10)
						if i > 0 {
							d[i] = d[i-1] + 1
							g[i] = g[i-1] - 1
						}
						if i == at {
							v[i] = hi
							if i > 0 {
								d[i] = d[i-1] + hi
								g[i] = g[i-1] - hi
							}
						}
					}
					nm := fmt.Sprintf("w%d-%#x-n%d-at%d", w, hi, n, at)
					both(v, nil, "direct-"+nm)
					both(d, nil, "inc-"+nm)
					both(g, nil, "dec-"+nm)
				}
				for _, cnt := range []int{2, 3, 4, 9, 10, 11, 12, 511, 512, 513} {
					v := make([]uint64, cnt)
					for i := range v {
						v[i] = hi
					}
					if n == 1 {
						both(v, nil, "")
					}
				}
			}
		}
	}
	// 4. patched base: base x low width x outlier width x positions x number of outliers
	c.Group("patches")
	bases := []int64{0, 1, -1, 127, 128, -128, -129, 1 << 31, -1 << 31, 1<<55 - 1, -(1 << 55), 1 << 62, -1 << 62, math.MinInt64}
	lows := []int{0, 1, 2, 5, 8, 12, 22, 23, 25, 27, 31, 33, 45, 57}
	outs := []int{1, 3, 9, 23, 25, 30, 40, 49, 56, 62, 63, 64}
	for _, base := range bases {
		for _, lw := range lows {
			for _, ow := range outs {
				if ow <= lw {
					continue
				}
				for _, n := range []int{10, 20, 300, 512, 600} {
					pos := [][]int{{0}, {1}, {3}, {n - 1}, {n / 2}, {0, n - 1}, {2, 3}}
					var many []int
					for i := 4; i < n; i += 11 {
						many = append(many, i)
					}
					pos = append(pos, many)
					if n >= 300 {
						pos = append(pos, []int{256}, []int{255}, []int{n - 2, n - 1}, []int{1, 257}, []int{1, 256})
					}
					for pi, ps := range pos {
						v := make([]uint64, n)
						for i := range v {
							low := uint64(i*7919+i*i*104729+3) * 0x9E3779B97F4A7C15 >> 1
							if lw == 0 {
								low = 0
							} else {
								low &= 1<<uint(lw) - 1
							}
							v[i] = uint64(base) + low
						}
						for k, p := range ps {
							hi := uint64(1) << uint(ow-1)
							if k%2 == 1 {
								hi |= hi >> 1
							}
							v[p] = uint64(base) + hi
						}
						nm := fmt.Sprintf("base%d-low%d-out%d-n%d-pos%d", base, lw, ow, n, pi)
						do(v, true, nil, nm)
						if base == 0 || base == 128 || base == 1<<62 {
							do(v, false, nil, nm)
						}
					}
				}
			}
		}
	}
	// 5. combinations of run-shaped segments around the length limits
	c.Group("segments")
	lens := []int{1, 2, 3, 4, 10, 11, 33, 510, 511, 512, 513}
	if c.Thorough {
		lens = []int{1, 2, 3, 4, 5, 9, 10, 11, 12, 100, 255, 256, 257, 500, 509, 510, 511, 512, 513, 514, 1023, 1024, 1025}
	}
	ss := segments(lens, false)
	for _, a := range ss {
		n, v := cat(a)
		both(v, nil, n)
		for _, b := range ss {
			n, v := cat(a, b)
			both(v, nil, n)
		}
	}
	c.Group("segment-triples")
	lens = []int{2, 4, 11, 506}
	if c.Thorough {
		lens = []int{1, 3, 4, 10, 11, 255, 508}
	}
	ss = segments(lens, false)
	for _, a := range ss {
		for _, b := range ss {
			for _, d := range ss {
				if !c.Thorough && len(a.vals)+len(b.vals)+len(d.vals) > 600 {
					continue
				}
				n, v := cat(a, b, d)
				both(v, nil, n)
			}
		}
	}
	// 6. long runs beyond several 512 windows, flushed in the middle
	c.Group("long")
	for _, a := range segments([]int{700, 1300, 2600}, true) {
		both(a.vals, nil, a.name)
		for _, f := range []int{1, 3, 511, 512, 513, 600} {
			both(a.vals, []int{f}, a.name)
		}
	}
	// 7. large but short: all pairs of boundary values in 4- and 6-value runs
	c.Group("pairs")
	var edge []uint64
	for k := 0; k < 64; k++ {
		edge = append(edge, 1<<uint(k)-1, 1<<uint(k), u(-1<<uint(k)))
	}
	for _, a := range edge {
		for _, b := range edge {
			both([]uint64{a, b}, nil, "")
			both([]uint64{a, a, a, a, b}, nil, "")
			both([]uint64{a, b, b, b, b}, nil, "")
			both([]uint64{a, a + b, a + b + b, a + b + b + b}, nil, "")
			both([]uint64{a, b, a, b}, nil, "")
		}
	}
}

func C01(c *mcx.Ctx) {
	c.Assume("values and sequence lengths outside the enumerated alphabets and run structures are not covered")
	intSpaces(c, selfMode)
}

// checkRun: library decoder on one well-formed or malformed run.
func checkRun(t *mcx.T, b []byte, signed bool, truncate bool) {
	want, n, kind, err := spec.RLE2Run(b, signed)
	t.State(b)
	if kind == "delta" && len(b) > 1 && b[0]&1 == 0 && b[1] == 0 {
		err = errUnspecified // a delta run of one value: not defined by the specification
	}
	dec := encoding.NewIntDecoder(signed)
	buf := bytes.NewBuffer(append([]byte(nil), b...))
	got, derr := decodeOne(dec, buf, signed)
	t.Step(1)
	if err == errUnspecified {
		return
	}
	if err != nil {
		if derr == nil {
			t.Failf("%s run is malformed (%v) but was decoded to %d values", kind, err, len(got))
		}
		return
	}
	if derr != nil {
		t.Failf("valid %s run of %d values rejected: %v", kind, len(want), derr)
	}
	cmp(t, kind+" run", got, want)
	if buf.Len() != len(b)-n {
		t.Failf("%s run of %d bytes: decoder consumed %d", kind, n, len(b)-buf.Len())
	}
	// the decoder must be reusable after the run
	again, derr := decodeOne(dec, bytes.NewBuffer(append([]byte(nil), b...)), signed)
	if derr != nil {
		t.Failf("second decode with the same decoder failed: %v", derr)
	}
	cmp(t, kind+" run, decoder reused", again, want)
	if truncate {
		for k := 0; k < n; k++ {
			d2 := encoding.NewIntDecoder(signed)
			v, e := decodeOne(d2, bytes.NewBuffer(append([]byte(nil), b[:k]...)), signed)
			t.Step(1)
			if e == nil {
				t.Failf("%s run cut to %d of %d bytes was decoded to %d values without error", kind, k, n, len(v))
			}
		}
	}
}

func decodeOne(dec encoding.IntDecoder, buf *bytes.Buffer, signed bool) ([]uint64, error) {
	if signed {
		vs, err := dec.DecodeInt(buf)
		if err != nil {
			return nil, err
		}
		var out []uint64
		for _, v := range vs {
			out = append(out, uint64(v))
		}
		return out, nil
	}
	vs, err := dec.DecodeUInt(buf)
	if err != nil {
		return nil, err
	}
	return append([]uint64(nil), vs...), nil
}

var errUnspecified = errors.New("unspecified")

func C02(c *mcx.Ctx) {
	c.Assume("oracle: spec/rle.go, an independent RLEv2 codec written from the ORC v1 specification")
	run := func(name string, b []byte, signed bool) {
		c.Do(func() string { return fmt.Sprintf("%s:signed=%v:%x", name, signed, b) }, func(t *mcx.T) { checkRun(t, b, signed, len(b) < 80) })
	}
	c.Group("repeat-runs")
	for w := 1; w <= 8; w++ {
		for cnt := 3; cnt <= 10; cnt++ {
			for _, v := range []uint64{0, 1, 0x80, 0xff, 0x100, 0x8000, 0xff00ff00ff00ff00, 1 << 63, math.MaxUint64, 0x0102030405060708} {
				for _, s := range []bool{false, true} {
					vv := v & (1<<uint(8*w-1)*2 - 1)
					raw := vv
					if s {
						raw = uint64(spec.Unzig(vv))
					}
					run("rep", spec.EncRepeat(raw, cnt, s, w), s)
				}
			}
		}
	}
	c.Group("direct-runs")
	for _, w := range spec.Widths {
		for _, n := range []int{1, 2, 3, 5, 7, 8, 9, 255, 256, 257, 511, 512} {
			for pat := 0; pat < 4; pat++ {
				vals := make([]uint64, n)
				for i := range vals {
					x := uint64(i+pat*17) * 0x9E3779B97F4A7C15
					switch pat {
					case 0:
						x = math.MaxUint64
					case 1:
						x = uint64(i & 1)
					case 2:
						x = 1 << uint(w-1)
					}
					if w < 64 {
						x &= 1<<uint(w) - 1
					}
					vals[i] = x
				}
				for _, s := range []bool{false, true} {
					vv := append([]uint64(nil), vals...)
					if s {
						for i := range vv {
							vv[i] = uint64(spec.Unzig(vv[i]))
						}
					}
					run("direct", spec.EncDirect(vv, s, w), s)
				}
			}
		}
	}
	c.Group("delta-runs")
	ws := append([]int{0}, spec.Widths[1:]...)
	for _, w := range ws {
		for _, n := range []int{2, 3, 4, 5, 9, 10, 257, 512} {
			for _, first := range []uint64{0, 1, 77, 1 << 20, 1 << 62, u(-5), 1 << 63} {
				for _, d := range []int64{0, 1, -1, 10, -300, 1 << 40, -1 << 40, math.MaxInt64, math.MinInt64} {
					if w != 0 && n < 3 {
						continue
					}
					var mags []uint64
					for i := 2; i < n; i++ {
						x := uint64(i) * 0x9E3779B97F4A7C15
						if i%3 == 0 {
							x = math.MaxUint64
						}
						if w < 64 {
							x &= 1<<uint(w) - 1
						}
						mags = append(mags, x)
					}
					for _, s := range []bool{false, true} {
						run("delta", spec.EncDelta(first, d, mags, n, s, w), s)
					}
				}
			}
		}
	}
	c.Group("patched-runs")
	for _, w := range spec.Widths {
		for _, pw := range spec.Widths {
			if w+pw > 64 {
				continue
			}
			for pgw := 1; pgw <= 8; pgw++ {
				if pw+pgw > 64 {
					continue
				}
				for _, base := range []struct {
					v  int64
					bw int
				}{{0, 1}, {5, 1}, {-5, 1}, {-127, 1}, {2000, 2}, {-2000, 3}, {1<<47 - 1, 6}, {-(1<<55 - 1), 7}, {1 << 62, 8}, {-(1 << 62), 8}} {
					n := 12
					if pgw == 8 {
						n = 400
					}
					low := make([]uint64, n)
					for i := range low {
						low[i] = uint64(i*7+1) * 0x9E3779B97F4A7C15
						if w < 64 {
							low[i] &= 1<<uint(w) - 1
						}
					}
					gmax := 1<<uint(pgw) - 1
					if gmax > 5 {
						gmax = 5
					}
					var pls [][]spec.Patch
					pm := uint64(1)<<uint(pw-1)*2 - 1
					pls = append(pls, nil, []spec.Patch{{0, pm}}, []spec.Patch{{1, 1}, {gmax, pm}}, []spec.Patch{{gmax, 1 << uint(pw-1)}, {1, pm}, {1, 1}})
					if pgw == 8 {
						pls = append(pls, []spec.Patch{{255, 0}, {100, pm}}, []spec.Patch{{255, pm}, {143, 1}})
					}
					for _, ps := range pls {
						b := spec.EncPatched(base.v, base.bw, w, low, pw, pgw, ps)
						run("patched", b, true)
						run("patched", b, false)
					}
				}
			}
		}
	}
	// malformed: every two-byte header over a few payloads, and every four-byte patched header over a short payload
	c.Group("headers")
	pay := [][]byte{nil, {0}, bytes.Repeat([]byte{0}, 40), bytes.Repeat([]byte{0xff}, 40), bytes.Repeat([]byte{0x5a, 0x01}, 2100)}
	for h := 0; h < 65536; h++ {
		for pi, p := range pay {
			if h>>14 == 2 {
				continue
			}
			if !c.Thorough && pi == 4 && h&0xff != 0xff && h&0xff != 0 && h&0xff != 9 {
				continue
			}
			b := append([]byte{byte(h >> 8), byte(h)}, p...)
			for _, s := range []bool{false, true} {
				s := s
				c.Do(func() string { return fmt.Sprintf("hdr%04x-pay%d-signed=%v", h, pi, s) }, func(t *mcx.T) { checkRun(t, b, s, false) })
			}
		}
	}
	c.Group("patched-headers")
	for h0 := 0x80; h0 < 0xc0; h0++ {
		for _, h1 := range []int{0, 3, 0x13} {
			for h2 := 0; h2 < 256; h2++ {
				for h3 := 0; h3 < 256; h3++ {
					if !c.Thorough && (h3&31 > 4 && h3&31 != 31) {
						continue
					}
					p := []byte{0x81, 2, 3, 0x44, 0x55, 0x66, 0x77, 0x88, 0x01, 0x12, 0x23, 0x34, 0x45, 0x56, 0x67, 0x78, 0x89, 0, 0, 0, 0xff, 0xff, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 0x80, 0x40, 0x20, 0x10}
					b := append([]byte{byte(h0), byte(h1), byte(h2), byte(h3)}, p...)
					for _, s := range []bool{true, false} {
						s := s
						c.Do(func() string { return fmt.Sprintf("%x-signed=%v", b[:4], s) }, func(t *mcx.T) { checkRun(t, b, s, false) })
					}
				}
			}
		}
	}
	intSpaces(c, specMode)
}
