package spec

import "encoding/binary"

// Schema of a message for Mutants: the fields that are messages (their schema) or packed integers (Packed).
type Schema map[int]*Schema

// Packed marks fields that are packed integers.
var Packed = &Schema{}

var flat = &Schema{}

var (
	ColStatSchema = &Schema{2: flat, 3: flat, 4: flat, 5: {1: Packed}, 6: flat, 7: flat, 8: flat, 9: flat}
	IndexSchema   = &Schema{1: {1: Packed, 2: ColStatSchema}}
	StripeSchema  = &Schema{1: flat, 2: flat}
	FooterSchema  = &Schema{3: flat, 4: {2: Packed}, 5: flat, 7: ColStatSchema}
	PSSchema      = &Schema{4: Packed}
)

// Wild are values no count, length, offset or id should have.
var Wild = []uint64{0, 1, 2, 3, 7, 127, 128, 255, 65535, 1<<23 - 1, 1 << 23, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1 << 40, 1 << 62, 1<<63 - 1, 1 << 63, 1<<64 - 1}

func wild(v uint64) []uint64 { return append(Wild[:len(Wild):len(Wild)], v+1, v-1, v*2, ^v, -v) }

type pbField struct {
	num, wire int
	n         uint64
	b         []byte
}

func pbFields(b []byte) (l []pbField) {
	for len(b) > 0 {
		k, n, err := readUVar(b)
		if err != nil {
			return
		}
		b = b[n:]
		f := pbField{num: int(k >> 3), wire: int(k & 7)}
		switch f.wire {
		case 0:
			f.n, n, _ = readUVar(b)
		case 1:
			n = 8
			f.n = binary.LittleEndian.Uint64(b)
		case 5:
			n = 4
			f.n = uint64(binary.LittleEndian.Uint32(b))
		case 2:
			l, k, _ := readUVar(b)
			f.b = b[k : k+int(l)]
			n = k + int(l)
		}
		b = b[n:]
		l = append(l, f)
	}
	return
}

func pbBytes(l []pbField) (b []byte) {
	for _, f := range l {
		b = append(b, UVar(uint64(f.num)<<3|uint64(f.wire))...)
		switch f.wire {
		case 0:
			b = append(b, UVar(f.n)...)
		case 1:
			b = binary.LittleEndian.AppendUint64(b, f.n)
		case 5:
			b = binary.LittleEndian.AppendUint32(b, uint32(f.n))
		case 2:
			b = append(b, UVar(uint64(len(f.b)))...)
			b = append(b, f.b...)
		}
	}
	return
}

// Mutants calls f with every damaged form of a message: one field with another value, left out, twice, swapped,
// of another number or wire type, at any depth; the message cut at every byte.
func Mutants(b []byte, s *Schema, f func([]byte)) {
	l := pbFields(b)
	with := func(i int, n ...pbField) {
		m := append(append(append([]pbField{}, l[:i]...), n...), l[i+1:]...)
		f(pbBytes(m))
	}
	for i, x := range l {
		with(i)
		with(i, x, x)
		if i > 0 {
			m := append([]pbField{}, l...)
			m[i-1], m[i] = m[i], m[i-1]
			f(pbBytes(m))
		}
		for _, num := range []int{x.num + 1, x.num - 1, 15} {
			y := x
			if y.num = num; num > 0 {
				with(i, y)
			}
		}
		switch x.wire {
		case 0:
			for _, v := range wild(x.n) {
				y := x
				y.n = v
				with(i, y)
			}
			with(i, pbField{num: x.num, wire: 2, b: UVar(x.n)})
			with(i, pbField{num: x.num, wire: 1, n: x.n})
		case 1:
			for _, v := range wild(x.n) {
				y := x
				y.n = v
				with(i, y)
			}
		case 2:
			for _, c := range [][]byte{nil, {0}, {0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 1}, append(append([]byte{}, x.b...), x.b...), append(append([]byte{}, x.b...), 0x80)} {
				y := x
				y.b = c
				with(i, y)
			}
			with(i, pbField{num: x.num, wire: 0, n: uint64(len(x.b))})
			sub, ok := (*s)[x.num]
			if !ok {
				break
			}
			if sub == Packed {
				vals, _ := Msg{1: {{Wire: 2, B: x.b}}}.Us(1)
				put := func(v []uint64) {
					y := x
					y.b = nil
					for _, u := range v {
						y.b = append(y.b, UVar(u)...)
					}
					with(i, y)
				}
				for j := range vals {
					put(append(append([]uint64{}, vals[:j]...), vals[j+1:]...))
					put(append(append(append([]uint64{}, vals[:j]...), vals[j], vals[j]), vals[j+1:]...))
					for _, u := range wild(vals[j]) {
						v := append([]uint64{}, vals...)
						v[j] = u
						put(v)
					}
				}
				break
			}
			Mutants(x.b, sub, func(m []byte) {
				y := x
				y.b = m
				with(i, y)
			})
		}
	}
	for n := 0; n < len(b); n++ {
		f(b[:n])
	}
}
