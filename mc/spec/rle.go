// Package spec is an independent, deliberately plain implementation of the
// parts of the ORC v1 specification the checks need as an oracle. It shares no
// code with goorc.
package spec

import (
	"errors"
	"math/big"
)

var ErrShort = errors.New("spec: input too short")

// Widths is the 5-bit width code table of RLEv2 (code 0 means 0 in delta runs).
var Widths = [32]int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 26, 28, 30, 32, 40, 48, 56, 64}

func WidthCode(w int) int {
	for i, x := range Widths {
		if x == w {
			return i
		}
	}
	return -1
}

func ClosestWidth(n int) int {
	for _, x := range Widths {
		if x >= n {
			return x
		}
	}
	return 64
}

func BitLen(v uint64) int {
	n := 0
	for v != 0 {
		n++
		v >>= 1
	}
	return n
}

func Zig(v int64) uint64 {
	if v < 0 {
		return uint64(-(v+1))*2 + 1
	}
	return uint64(v) * 2
}

func Unzig(u uint64) int64 {
	if u%2 == 1 {
		return -int64(u/2) - 1
	}
	return int64(u / 2)
}

type bitr struct {
	b   []byte
	pos int // in bits
}

func (r *bitr) take(n int) (uint64, error) {
	var v uint64
	for i := 0; i < n; i++ {
		if r.pos/8 >= len(r.b) {
			return 0, ErrShort
		}
		bit := r.b[r.pos/8] >> uint(7-r.pos%8) & 1
		v = v<<1 | uint64(bit)
		r.pos++
	}
	return v, nil
}

type BitW struct {
	B []byte
	n int
}

func (w *BitW) Put(v uint64, n int) {
	for i := n - 1; i >= 0; i-- {
		if w.n%8 == 0 {
			w.B = append(w.B, 0)
		}
		if v>>uint(i)&1 == 1 {
			w.B[len(w.B)-1] |= 1 << uint(7-w.n%8)
		}
		w.n++
	}
}

func UVar(v uint64) []byte {
	var b []byte
	for v >= 0x80 {
		b = append(b, byte(v)|0x80)
		v >>= 7
	}
	return append(b, byte(v))
}

func SVar(v int64) []byte { return UVar(Zig(v)) }

func readUVar(b []byte) (uint64, int, error) {
	var v uint64
	for i := 0; i < len(b); i++ {
		if i > 9 {
			return 0, 0, errors.New("spec: varint too long")
		}
		v |= uint64(b[i]&0x7f) << uint(7*i)
		if b[i] < 0x80 {
			return v, i + 1, nil
		}
	}
	return 0, 0, ErrShort
}

// ReadUVar reads one base-128 varint.
func ReadUVar(b []byte) (uint64, int, error) { return readUVar(b) }

// RLE2Run decodes the run at the start of b. Values are raw 64-bit patterns
// (two's complement for signed streams). n is the number of bytes of the run.
func RLE2Run(b []byte, signed bool) (vals []uint64, n int, kind string, err error) {
	if len(b) == 0 {
		return nil, 0, "", ErrShort
	}
	fix := func(u uint64) uint64 {
		if signed {
			return uint64(Unzig(u))
		}
		return u
	}
	switch b[0] >> 6 {
	case 0:
		kind = "repeat"
		w := int(b[0]>>3&7) + 1
		cnt := int(b[0]&7) + 3
		if len(b) < 1+w {
			return nil, 0, kind, ErrShort
		}
		var v uint64
		for i := 0; i < w; i++ {
			v = v<<8 | uint64(b[1+i])
		}
		for i := 0; i < cnt; i++ {
			vals = append(vals, fix(v))
		}
		return vals, 1 + w, kind, nil
	case 1:
		kind = "direct"
		if len(b) < 2 {
			return nil, 0, kind, ErrShort
		}
		w := Widths[b[0]>>1&31]
		l := int(b[0]&1)<<8 + int(b[1]) + 1
		r := &bitr{b: b[2:]}
		for i := 0; i < l; i++ {
			v, e := r.take(w)
			if e != nil {
				return nil, 0, kind, e
			}
			vals = append(vals, fix(v))
		}
		return vals, 2 + (w*l+7)/8, kind, nil
	case 2:
		kind = "patched"
		if len(b) < 4 {
			return nil, 0, kind, ErrShort
		}
		w := Widths[b[0]>>1&31]
		l := int(b[0]&1)<<8 + int(b[1]) + 1
		bw := int(b[2]>>5) + 1
		pw := Widths[b[2]&31]
		pgw := int(b[3]>>5) + 1
		pll := int(b[3] & 31)
		if len(b) < 4+bw {
			return nil, 0, kind, ErrShort
		}
		var base uint64
		for i := 0; i < bw; i++ {
			base = base<<8 | uint64(b[4+i])
		}
		sign := uint64(1) << uint(bw*8-1)
		if base&sign != 0 {
			base &^= sign
			base = -base
		}
		r := &bitr{b: b[4+bw:]}
		d := make([]uint64, l)
		for i := range d {
			v, e := r.take(w)
			if e != nil {
				return nil, 0, kind, e
			}
			d[i] = v
		}
		off := 4 + bw + (w*l+7)/8
		if off > len(b) {
			return nil, 0, kind, ErrShort
		}
		pr := &bitr{b: b[off:]}
		if pw+pgw > 64 {
			return nil, 0, kind, errors.New("spec: patch width too large")
		}
		ew := ClosestWidth(pw + pgw)
		at := 0
		for i := 0; i < pll; i++ {
			e, er := pr.take(ew)
			if er != nil {
				return nil, 0, kind, er
			}
			// a patch entry holds gap then patch in its low pw+pgw bits
			patch := e & mask(pw)
			gap := int(e >> uint(pw))
			at += gap
			if at >= l {
				return nil, 0, kind, errors.New("spec: patch outside the run")
			}
			if w < 64 {
				d[at] |= patch << uint(w)
			}
		}
		for i := range d {
			vals = append(vals, base+d[i])
		}
		return vals, off + (ew*pll+7)/8, kind, nil
	default:
		kind = "delta"
		if len(b) < 2 {
			return nil, 0, kind, ErrShort
		}
		c := b[0] >> 1 & 31
		w := Widths[c]
		if c == 0 {
			w = 0
		}
		l := int(b[0]&1)<<8 + int(b[1]) + 1
		p := 2
		u, k, e := readUVar(b[p:])
		if e != nil {
			return nil, 0, kind, e
		}
		p += k
		first := fix(u)
		u, k, e = readUVar(b[p:])
		if e != nil {
			return nil, 0, kind, e
		}
		p += k
		delta := Unzig(u)
		vals = append(vals, first)
		if l >= 2 {
			vals = append(vals, first+uint64(delta))
		}
		r := &bitr{b: b[p:]}
		for i := 2; i < l; i++ {
			prev := vals[len(vals)-1]
			if w == 0 {
				vals = append(vals, prev+uint64(delta))
				continue
			}
			v, e := r.take(w)
			if e != nil {
				return nil, 0, kind, e
			}
			if delta < 0 {
				v = -v
			}
			vals = append(vals, prev+v)
		}
		if l > 2 {
			p += (w*(l-2) + 7) / 8
		}
		return vals, p, kind, nil
	}
}

func mask(n int) uint64 {
	if n >= 64 {
		return ^uint64(0)
	}
	return 1<<uint(n) - 1
}

// RLE2 decodes all runs in b.
func RLE2(b []byte, signed bool) (vals []uint64, kinds []string, err error) {
	for len(b) > 0 {
		v, n, k, e := RLE2Run(b, signed)
		if e != nil {
			return vals, kinds, e
		}
		vals = append(vals, v...)
		kinds = append(kinds, k)
		b = b[n:]
	}
	return
}

func enc(v uint64, signed bool) uint64 {
	if signed {
		return Zig(int64(v))
	}
	return v
}

// EncRepeat encodes count (3..10) copies of v using w bytes (0: the minimum).
func EncRepeat(v uint64, count int, signed bool, w int) []byte {
	u := enc(v, signed)
	if w == 0 {
		w = (BitLen(u) + 7) / 8
		if w == 0 {
			w = 1
		}
	}
	b := []byte{byte(w-1)<<3 | byte(count-3)}
	for i := w - 1; i >= 0; i-- {
		b = append(b, byte(u>>uint(8*i)))
	}
	return b
}

func hdr(kind, code, l int) []byte {
	return []byte{byte(kind<<6 | code<<1 | (l-1)>>8), byte(l - 1)}
}

// EncDirect encodes vals with the given width (0: the closest that fits).
func EncDirect(vals []uint64, signed bool, w int) []byte {
	if w == 0 {
		for _, v := range vals {
			if n := BitLen(enc(v, signed)); n > w {
				w = n
			}
		}
		w = ClosestWidth(w)
	}
	bw := &BitW{}
	for _, v := range vals {
		bw.Put(enc(v, signed), w)
	}
	return append(hdr(1, WidthCode(w), len(vals)), bw.B...)
}

// EncDelta encodes a run: first value, then first delta, then magnitudes with width w (w=0: fixed delta).
func EncDelta(first uint64, delta int64, mags []uint64, l int, signed bool, w int) []byte {
	code := 0
	if w != 0 {
		code = WidthCode(w)
	}
	b := hdr(3, code, l)
	b = append(b, UVar(enc(first, signed))...)
	b = append(b, SVar(delta)...)
	if w != 0 {
		bw := &BitW{}
		for _, m := range mags {
			bw.Put(m, w)
		}
		b = append(b, bw.B...)
	}
	return b
}

type Patch struct {
	Gap   int
	Patch uint64
}

// EncPatched encodes a patched-base run from its raw parts.
func EncPatched(base int64, bw int, w int, low []uint64, pw, pgw int, ps []Patch) []byte {
	b := hdr(2, WidthCode(w), len(low))
	b = append(b, byte(bw-1)<<5|byte(WidthCode(pw)), byte(pgw-1)<<5|byte(len(ps)))
	m := uint64(base)
	if base < 0 {
		m = uint64(-base) | 1<<uint(bw*8-1)
	}
	for i := bw - 1; i >= 0; i-- {
		b = append(b, byte(m>>uint(8*i)))
	}
	x := &BitW{}
	for _, v := range low {
		x.Put(v, w)
	}
	b = append(b, x.B...)
	x = &BitW{}
	ew := ClosestWidth(pw + pgw)
	for _, p := range ps {
		x.Put(uint64(p.Gap)<<uint(pw)|p.Patch, ew)
	}
	return append(b, x.B...)
}

// EncInts encodes vals with plain choices (repeat for 3..10 equal values, direct otherwise).
func EncInts(vals []uint64, signed bool) []byte {
	var b []byte
	for len(vals) > 0 {
		n := 1
		for n < len(vals) && n < 10 && vals[n] == vals[0] {
			n++
		}
		if n >= 3 {
			b = append(b, EncRepeat(vals[0], n, signed, 0)...)
			vals = vals[n:]
			continue
		}
		// direct until the next triple
		n = 1
		for n < len(vals) && n < 512 && !(n+2 < len(vals) && vals[n] == vals[n+1] && vals[n] == vals[n+2]) {
			n++
		}
		b = append(b, EncDirect(vals[:n], signed, 0)...)
		vals = vals[n:]
	}
	return b
}

// ByteRLE decodes all runs of a byte RLE stream.
func ByteRLE(b []byte) (out []byte, err error) {
	for len(b) > 0 {
		c := b[0]
		if c < 128 {
			if len(b) < 2 {
				return out, ErrShort
			}
			for i := 0; i < int(c)+3; i++ {
				out = append(out, b[1])
			}
			b = b[2:]
		} else {
			n := 256 - int(c)
			if len(b) < 1+n {
				return out, ErrShort
			}
			out = append(out, b[1:1+n]...)
			b = b[1+n:]
		}
	}
	return
}

// EncBytes encodes a byte RLE stream.
func EncBytes(v []byte) (b []byte) {
	for len(v) > 0 {
		n := 1
		for n < len(v) && n < 130 && v[n] == v[0] {
			n++
		}
		if n >= 3 {
			b = append(b, byte(n-3), v[0])
			v = v[n:]
			continue
		}
		n = 1
		for n < len(v) && n < 128 && !(n+2 < len(v) && v[n] == v[n+1] && v[n] == v[n+2]) {
			n++
		}
		b = append(b, byte(256-n))
		b = append(b, v[:n]...)
		v = v[n:]
	}
	return
}

// Bools decodes n booleans from a boolean RLE stream (n<0: all).
func Bools(b []byte, n int) ([]bool, error) {
	bs, err := ByteRLE(b)
	if err != nil {
		return nil, err
	}
	var out []bool
	for _, x := range bs {
		for i := 7; i >= 0; i-- {
			out = append(out, x>>uint(i)&1 == 1)
		}
	}
	if n >= 0 {
		if len(out) < n {
			return nil, ErrShort
		}
		out = out[:n]
	}
	return out, nil
}

func PackBools(v []bool) []byte {
	w := &BitW{}
	for _, x := range v {
		if x {
			w.Put(1, 1)
		} else {
			w.Put(0, 1)
		}
	}
	return w.B
}

func EncBools(v []bool) []byte { return EncBytes(PackBools(v)) }

// Nano encodings per the specification.
func EncNano(n uint64) uint64 {
	if n == 0 {
		return 0
	}
	z := 0
	for n%10 == 0 && z < 9 {
		n /= 10
		z++
	}
	if z < 2 {
		for ; z > 0; z-- {
			n *= 10
		}
		return n << 3
	}
	if z > 8 {
		z = 8
	}
	return n<<3 | uint64(z-1)
}

func DecNano(e uint64) uint64 {
	z := e & 7
	n := e >> 3
	if z != 0 {
		for i := uint64(0); i <= z; i++ {
			n *= 10
		}
	}
	return n
}

// BigVar decodes one zig-zag base-128 integer of unbounded size (decimal data).
func BigVar(b []byte) (*big.Int, int, error) {
	v := new(big.Int)
	for i := 0; i < len(b); i++ {
		x := new(big.Int).SetInt64(int64(b[i] & 0x7f))
		v.Or(v, x.Lsh(x, uint(7*i)))
		if b[i] < 0x80 {
			neg := v.Bit(0) == 1
			v.Rsh(v, 1)
			if neg {
				v.Add(v, big.NewInt(1))
				v.Neg(v)
			}
			return v, i + 1, nil
		}
	}
	return nil, 0, ErrShort
}
