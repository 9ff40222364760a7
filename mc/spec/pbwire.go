package spec

import (
	"encoding/binary"
	"errors"
	"fmt"
	"math"
)

// A minimal protobuf wire format reader and writer.

type Msg map[int][]Field
type Field struct {
	Wire int
	N    uint64
	B    []byte
}

func ParseMsg(b []byte) (Msg, error) {
	m := Msg{}
	for len(b) > 0 {
		k, n, err := readUVar(b)
		if err != nil {
			return nil, err
		}
		b = b[n:]
		f := Field{Wire: int(k & 7)}
		num := int(k >> 3)
		if num == 0 {
			return nil, errors.New("protobuf field 0")
		}
		switch f.Wire {
		case 0:
			if f.N, n, err = readUVar(b); err != nil {
				return nil, err
			}
			b = b[n:]
		case 1:
			if len(b) < 8 {
				return nil, ErrShort
			}
			f.N = binary.LittleEndian.Uint64(b)
			b = b[8:]
		case 2:
			l, n, err := readUVar(b)
			if err != nil {
				return nil, err
			}
			b = b[n:]
			if l > uint64(len(b)) {
				return nil, ErrShort
			}
			f.B = b[:l]
			b = b[l:]
		case 5:
			if len(b) < 4 {
				return nil, ErrShort
			}
			f.N = uint64(binary.LittleEndian.Uint32(b))
			b = b[4:]
		default:
			return nil, fmt.Errorf("protobuf wire type %d", f.Wire)
		}
		m[num] = append(m[num], f)
	}
	return m, nil
}

func (m Msg) Has(n int) bool { return len(m[n]) > 0 }
func (m Msg) U(n int) uint64 {
	if f := m[n]; len(f) > 0 {
		return f[len(f)-1].N
	}
	return 0
}
func (m Msg) Z(n int) int64   { return Unzig(m.U(n)) }
func (m Msg) D(n int) float64 { return math.Float64frombits(m.U(n)) }
func (m Msg) S(n int) string {
	if f := m[n]; len(f) > 0 {
		return string(f[len(f)-1].B)
	}
	return ""
}
func (m Msg) Sub(n int) (Msg, error) {
	if f := m[n]; len(f) > 0 {
		return ParseMsg(f[len(f)-1].B)
	}
	return nil, nil
}

// Us are the values of a repeated integer, packed or not.
func (m Msg) Us(n int) (v []uint64, err error) {
	for _, f := range m[n] {
		if f.Wire == 0 {
			v = append(v, f.N)
			continue
		}
		b := f.B
		for len(b) > 0 {
			x, k, err := readUVar(b)
			if err != nil {
				return nil, err
			}
			v = append(v, x)
			b = b[k:]
		}
	}
	return
}

// PB builds a message.
type PB struct{ B []byte }

func (p *PB) U(n int, v uint64) *PB {
	p.B = append(p.B, UVar(uint64(n)<<3)...)
	p.B = append(p.B, UVar(v)...)
	return p
}
func (p *PB) Z(n int, v int64) *PB { return p.U(n, Zig(v)) }
func (p *PB) Bytes(n int, b []byte) *PB {
	p.B = append(p.B, UVar(uint64(n)<<3|2)...)
	p.B = append(p.B, UVar(uint64(len(b)))...)
	p.B = append(p.B, b...)
	return p
}
func (p *PB) Str(n int, s string) *PB { return p.Bytes(n, []byte(s)) }
func (p *PB) Packed(n int, v []uint64) *PB {
	if len(v) == 0 {
		return p
	}
	var b []byte
	for _, x := range v {
		b = append(b, UVar(x)...)
	}
	return p.Bytes(n, b)
}
