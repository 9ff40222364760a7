package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"math"
	"math/big"
	"time"

	"goorcmc/mcx"
	"goorcmc/spec"

	"github.com/patrickhuang888/goorc/orc/api"
	"github.com/patrickhuang888/goorc/orc/encoding"
)

// oneByte delivers at most one byte per Read: a legal reader.
type oneByte struct{ b *bytes.Buffer }

func (r oneByte) Read(p []byte) (int, error) {
	if len(p) > 1 {
		p = p[:1]
	}
	return r.b.Read(p)
}
func (r oneByte) ReadByte() (byte, error) { return r.b.ReadByte() }

// days from 1970-01-01 in the proleptic Gregorian calendar (independent of package time).
func civil(y, m, d int) int {
	n := 0
	leap := func(y int) bool { return y%4 == 0 && (y%100 != 0 || y%400 == 0) }
	f := func(y int) int { // days before year y, from year 0 (y may be any integer >= 0)
		return 365*y + (y+3)/4 - (y+99)/100 + (y+399)/400
	}
	n = f(y) - f(1970)
	ml := []int{31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}
	for i := 1; i < m; i++ {
		n += ml[i-1]
		if i == 2 && leap(y) {
			n++
		}
	}
	return n + d - 1
}

func C04(c *mcx.Ctx) {
	c.Assume("floats: every sign and exponent with an enumerated mantissa set, not every mantissa")
	one := func(name string, f func(t *mcx.T)) {
		c.Do(func() string { return name }, func(t *mcx.T) { t.Step(1); f(t) })
	}
	c.Group("float32")
	var mant []uint32
	for i := 0; i < 23; i++ {
		mant = append(mant, 1<<uint(i), 1<<uint(i)-1, 1<<23-1<<uint(i))
	}
	mant = append(mant, 0x123456, 0x7fffff&0x654321)
	for se := 0; se < 512; se++ {
		one(fmt.Sprintf("signexp%03x", se), func(t *mcx.T) {
			for _, m := range mant {
				bits := uint32(se)<<23 | m&0x7fffff
				enc := encoding.NewFloatEncoder()
				out := &bytes.Buffer{}
				if err := enc.Encode(math.Float32frombits(bits), out); err != nil {
					t.Failf("Encode %08x: %v", bits, err)
				}
				if err := enc.Flush(out); err != nil {
					t.Failf("Flush: %v", err)
				}
				t.Step(1)
				t.State(out.Bytes())
				want := []byte{byte(bits), byte(bits >> 8), byte(bits >> 16), byte(bits >> 24)}
				if !bytes.Equal(out.Bytes(), want) {
					t.Failf("float %08x is stored as %x, the specification says little-endian %x", bits, out.Bytes(), want)
				}
				for k := 0; k < 4; k++ {
					if v, err := encoding.DecodeFloat(bytes.NewReader(want[:k])); err == nil {
						t.Failf("float cut to %d bytes decoded to %v", k, v)
					}
				}
				v, err := encoding.DecodeFloat(oneByte{bytes.NewBuffer(want)})
				if err != nil || math.Float32bits(v) != bits {
					t.Failf("float %08x read back as %08x, %v", bits, math.Float32bits(v), err)
				}
			}
		})
	}
	if c.Thorough { // all of them
		c.Group("float32-all")
		for hi := uint32(0); hi < 1<<12; hi++ {
			one(fmt.Sprintf("%03x", hi), func(t *mcx.T) {
				enc := encoding.NewFloatEncoder()
				out := &bytes.Buffer{}
				var want [4]byte
				for lo := uint32(0); lo < 1<<20; lo++ {
					bits := hi<<20 | lo
					out.Reset()
					if err := enc.Encode(math.Float32frombits(bits), out); err != nil {
						t.Failf("Encode %08x: %v", bits, err)
					}
					binary.LittleEndian.PutUint32(want[:], bits)
					if !bytes.Equal(out.Bytes(), want[:]) {
						t.Failf("float %08x is stored as %x, the specification says little-endian %x", bits, out.Bytes(), want)
					}
					v, err := encoding.DecodeFloat(out)
					nan := bits&0x7f800000 == 0x7f800000 && bits&0x7fffff != 0
					if err != nil || math.Float32bits(v) != bits && !(nan && v != v) {
						t.Failf("float %08x read back as %08x, %v", bits, math.Float32bits(v), err)
					}
				}
				t.Step(1 << 20)
			})
		}
	}
	c.Group("float64")
	var mant64 []uint64
	for i := 0; i < 52; i += 3 {
		mant64 = append(mant64, 1<<uint(i), 1<<uint(i)-1, 1<<52-1<<uint(i))
	}
	mant64 = append(mant64, 0x123456789abcd)
	for se := 0; se < 4096; se++ {
		one(fmt.Sprintf("signexp%03x", se), func(t *mcx.T) {
			for _, m := range mant64 {
				bits := uint64(se)<<52 | m&(1<<52-1)
				enc := encoding.NewDoubleEncoder()
				out := &bytes.Buffer{}
				if err := enc.Encode(math.Float64frombits(bits), out); err != nil {
					t.Failf("Encode %016x: %v", bits, err)
				}
				enc.Flush(out)
				t.Step(1)
				t.State(out.Bytes())
				want := make([]byte, 8)
				binary.LittleEndian.PutUint64(want, bits)
				if !bytes.Equal(out.Bytes(), want) {
					t.Failf("double %016x is stored as %x, want little-endian %x", bits, out.Bytes(), want)
				}
				v, err := encoding.DecodeDouble(oneByte{bytes.NewBuffer(append([]byte(nil), want...))})
				if err != nil || math.Float64bits(v) != bits {
					t.Failf("double %016x read back as %016x, %v", bits, math.Float64bits(v), err)
				}
				for k := 0; k < 8 && m == 1; k++ {
					if v, err := encoding.DecodeDouble(bytes.NewReader(want[:k])); err == nil {
						t.Failf("double cut to %d bytes decoded to %v", k, v)
					}
				}
			}
		})
	}
	c.Group("varint")
	var ints []int64
	for k := 0; k < 64; k++ {
		for d := int64(-2); d <= 2; d++ {
			ints = append(ints, int64(1)<<uint(k)+d, -(int64(1)<<uint(k))+d)
		}
	}
	for _, v := range ints {
		one(fmt.Sprint(v), func(t *mcx.T) {
			enc := encoding.NewVarint64Encoder()
			out := &bytes.Buffer{}
			if err := enc.Encode(v, out); err != nil {
				t.Failf("Encode: %v", err)
			}
			enc.Encode(int64(-3), out)
			enc.Flush(out)
			g, n, err := spec.BigVar(out.Bytes())
			if err != nil || g.Cmp(big.NewInt(v)) != 0 {
				t.Failf("bytes %x mean %v under the specification, want %d", out.Bytes(), g, v)
			}
			t.State(out.Bytes())
			b := append([]byte(nil), out.Bytes()...)
			x, err := encoding.DecodeVarInt64(out)
			if err != nil || x != v {
				t.Failf("decoded %d, %v", x, err)
			}
			if x, err = encoding.DecodeVarInt64(out); err != nil || x != -3 || out.Len() != 0 {
				t.Failf("following value decoded as %d, %v", x, err)
			}
			for k := 0; k < n; k++ {
				if x, err := encoding.DecodeVarInt64(bytes.NewBuffer(b[:k])); err == nil {
					t.Failf("cut to %d bytes decoded to %d", k, x)
				}
			}
			if encoding.Zigzag(v) != spec.Zig(v) || encoding.UnZigzag(spec.Zig(v)) != v {
				t.Failf("zigzag(%d)=%d", v, encoding.Zigzag(v))
			}
			if optConvert != nil && optConvert(spec.Zig(v)) != v {
				t.Failf("Convert(%d)=%d want %d", spec.Zig(v), optConvert(spec.Zig(v)), v)
			}
			if optReadVUint == nil {
				return
			}
			u, err := optReadVUint(bytes.NewBuffer(spec.UVar(uint64(v))))
			if err != nil || u != uint64(v) {
				t.Failf("ReadVUint(%x)=%d, %v", spec.UVar(uint64(v)), u, err)
			}
		})
	}
	c.Group("nanos")
	nano := func(t *mcx.T, n uint64) {
		if optEncodingNano != nil {
			e := optEncodingNano(n)
			if e != spec.EncNano(n) {
				t.Failf("EncodingNano(%d)=%d, specification %d", n, e, spec.EncNano(n))
			}
			if d := optDecodingNano(e); d != n {
				t.Failf("DecodingNano(EncodingNano(%d))=%d", n, d)
			}
		}
		e := api.EncodingTimestampNanos(n)
		if e != spec.EncNano(n) {
			t.Failf("EncodingTimestampNanos(%d)=%d, specification %d", n, e, spec.EncNano(n))
		}
		if d := api.DecodingTimestampNanos(e); d != n {
			t.Failf("DecodingTimestampNanos(EncodingTimestampNanos(%d))=%d", n, d)
		}
		if n%1000 < 3 {
			t.StateH(e)
		}
	}
	for z, p := 0, uint64(1); z < 9; z, p = z+1, p*10 {
		for blk := uint64(0); blk < 100; blk++ {
			one(fmt.Sprintf("z%d-%d", z, blk), func(t *mcx.T) {
				for d := blk * 1000; d < blk*1000+1000; d++ {
					if n := d * p; n < 1000000000 {
						nano(t, n)
						t.Step(1)
					}
					if n := 1000000000 - d*p - 1; d*p < 1000000000 {
						nano(t, n)
					}
				}
			})
		}
	}
	if c.Thorough {
		c.Group("nanos-all")
		for blk := uint64(0); blk < 10000; blk++ {
			one(fmt.Sprint(blk), func(t *mcx.T) {
				for n := blk * 100000; n < (blk+1)*100000; n++ {
					nano(t, n)
				}
				t.Step(100000)
			})
		}
	}
	c.Group("strings")
	for n := 0; n <= 300; n++ {
		for _, f := range []byte{0, 'a', 0xff} {
			one(fmt.Sprintf("%d-%x", n, f), func(t *mcx.T) {
				v := bytes.Repeat([]byte{f}, n)
				out := &bytes.Buffer{}
				enc := encoding.NewStringContentsEncoder()
				if err := enc.Encode(v, out); err != nil {
					t.Failf("%v", err)
				}
				enc.Encode([]byte("tail"), out)
				enc.Flush(out)
				b := append([]byte(nil), out.Bytes()...)
				if string(b) != string(v)+"tail" {
					t.Failf("stored as %q", b)
				}
				t.State(b)
				in := oneByte{out}
				g, err := encoding.DecodeBytes(in, n)
				if err != nil || !bytes.Equal(g, v) {
					t.Failf("read %q, %v", g, err)
				}
				if g, err = encoding.DecodeBytes(in, 4); err != nil || string(g) != "tail" {
					t.Failf("then read %q, %v", g, err)
				}
				if n > 0 {
					if _, err := encoding.DecodeBytes(bytes.NewReader(v[:n-1]), n); err == nil {
						t.Failf("short content not reported")
					}
				}
			})
		}
	}
	c.Group("dates")
	ml := []int{31, 29, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}
	for y := 1; y <= 9999; y++ {
		one(fmt.Sprintf("year%d", y), func(t *mcx.T) {
			for m := 1; m <= 12; m++ {
				for d := 1; d <= ml[m-1]; d++ {
					leap := y%4 == 0 && (y%100 != 0 || y%400 == 0)
					if m == 2 && d == 29 && !leap {
						continue
					}
					want := int32(civil(y, m, d))
					t.Step(1)
					t.StateH(uint64(want))
					dt := api.NewDate(y, time.Month(m), d)
					if got := api.ToDays(dt); got != want {
						t.Failf("ToDays(%04d-%02d-%02d)=%d, want %d", y, m, d, got, want)
					}
					back := time.Time(api.FromDays(want))
					if back.Year() != y || int(back.Month()) != m || back.Day() != d || back.Hour() != 0 || back.Minute() != 0 || back.Nanosecond() != 0 {
						t.Failf("FromDays(%d)=%v, want %04d-%02d-%02d", want, back, y, m, d)
					}
					if s := (&dt).String(); s != fmt.Sprintf("%04d-%02d-%02d", y, m, d) {
						t.Failf("String()=%s", s)
					}
					if d == 1 || d == 15 {
						// a time of day does not change the calendar day
						for _, hh := range []int{1, 11, 12, 13, 23} {
							x := api.Date(time.Date(y, time.Month(m), d, hh, 59, 59, 999999999, time.UTC))
							if got := api.ToDays(x); got != want {
								t.Failf("ToDays(%04d-%02d-%02d %02d:59:59)=%d, want %d", y, m, d, hh, got, want)
							}
						}
					}
				}
			}
		})
	}
	c.Group("date-extremes")
	for k := 0; k < 32; k++ {
		for d := int64(-1); d <= 1; d++ {
			for _, s := range []int64{1, -1} {
				n := s*(int64(1)<<uint(k)) + d
				if n > math.MaxInt32 || n < math.MinInt32 {
					continue
				}
				one(fmt.Sprint(n), func(t *mcx.T) {
					t.StateH(uint64(n))
					if got := api.ToDays(api.FromDays(int32(n))); int64(got) != n {
						t.Failf("ToDays(FromDays(%d))=%d", n, got)
					}
				})
			}
		}
	}
	c.Group("date-codec")
	for _, n := range []int{1, 2, 3, 5, 20, 600} {
		for _, st := range []int{0, 1, -1, 37, -3333} {
			for _, base := range []int{0, -1, 1, -719162, 200000, -140000} {
				if optDateEncoder == nil {
					continue
				}
				one(fmt.Sprintf("n%d-st%d-base%d", n, st, base), func(t *mcx.T) {
					enc := optDateEncoder()
					out := &bytes.Buffer{}
					for i := 0; i < n; i++ {
						if err := enc.Encode(api.FromDays(int32(base+st*i)), out); err != nil {
							t.Failf("Encode: %v", err)
						}
						t.Step(1)
					}
					if err := enc.Flush(out); err != nil {
						t.Failf("Flush: %v", err)
					}
					t.State(out.Bytes())
					dec := optDateDecoder()
					var got []api.Date
					for len(got) < n {
						v, err := dec(out)
						if err != nil || len(v) == 0 {
							t.Failf("Decode after %d: %v", len(got), err)
						}
						got = append(got, v...)
					}
					for i := range got {
						if api.ToDays(got[i]) != int32(base+st*i) || len(got) != n {
							t.Failf("date %d decoded as day %d, want %d", i, api.ToDays(got[i]), base+st*i)
						}
					}
				})
			}
		}
	}
	c.Group("timestamps")
	locs := []*time.Location{time.UTC, time.FixedZone("p8", 8*3600), time.FixedZone("m5", -5*3600-1800)}
	for _, n := range []string{"America/New_York", "Europe/Berlin", "Australia/Lord_Howe"} {
		if l, err := time.LoadLocation(n); err == nil {
			locs = append(locs, l)
		}
	}
	// the epoch of the file format, 2015-01-01 00:00:00 UTC
	const epoch = 1420070400
	for li, l := range locs {
		for y := 1900; y <= 2100; y++ {
			one(fmt.Sprintf("loc%d-%d", li, y), func(t *mcx.T) {
				for m := 1; m <= 12; m++ {
					for _, hh := range []int{0, 1, 2, 3, 12, 23} {
						for _, ns := range []int{0, 1, 999, 1000, 1500000, 999999999, 120000000} {
							x := time.Date(y, time.Month(m), 1+m, hh, 30, 59, ns, l)
							ts := api.GetTimestamp(x)
							t.Step(1)
							t.StateH(uint64(x.UnixNano()))
							if !ts.Time().Equal(x) {
								t.Failf("GetTimestamp(%v).Time()=%v", x, ts.Time())
							}
							if ts.Nanos > 999999999 {
								t.Failf("%v: nanos %d out of range", x, ts.Nanos)
							}
							if l == time.UTC && (ts.Seconds != x.Unix()-epoch || int(ts.Nanos) != ns) {
								t.Failf("GetTimestamp(%v)={%d,%d}", x, ts.Seconds, ts.Nanos)
							}
							if l == time.UTC {
								if g := (api.Timestamp{Seconds: ts.Seconds, Nanos: ts.Nanos}); !g.Time().Equal(x) || g.GetMilliSeconds() != ts.GetMilliSeconds() {
									t.Failf("without location %v is %v", x, g.Time())
								}
								ms := x.UnixNano() / 1000000
								if x.UnixNano()%1000000 < 0 {
									ms--
								}
								if g := ts.GetMilliSeconds(); g != ms {
									t.Failf("GetMilliSeconds(%v)=%d, want %d", x, g, ms)
								}
								if g := ts.GetMilliSecondsUtc(); g != ms {
									t.Failf("GetMilliSecondsUtc(%v)=%d, want %d", x, g, ms)
								}
							}
						}
					}
				}
			})
		}
	}
	c.Group("decimals")
	for _, p := range ints {
		for s := -18; s <= 18; s++ {
			one(fmt.Sprintf("%d-%d", p, s), func(t *mcx.T) {
				g := api.Decimal64{Precision: p, Scale: s}.Float64()
				want := new(big.Rat)
				if s < 0 {
					want.SetInt(new(big.Int).Mul(big.NewInt(p), new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(-s)), nil)))
				} else {
					want.SetFrac(big.NewInt(p), new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(s)), nil))
				}
				w, _ := want.Float64()
				t.StateH(math.Float64bits(g))
				if math.Abs(g-w) > math.Abs(w)*1e-14 {
					t.Failf("Decimal64{%d,%d}.Float64()=%v, want %v", p, s, g, w)
				}
			})
		}
	}
}

var _ = io.EOF
