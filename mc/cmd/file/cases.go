package main

import (
	"fmt"
	"math"
	"strings"

	"goorcmc/mcx"
	"goorcmc/memf"
	"goorcmc/spec"
)

// wcase is one file to be written by the library.
type wcase struct {
	t       *spec.Type
	rows    []Val
	batches []int
	cfg     wcfg
}

// write writes the file; any error is a failure of the property checked.
func (w wcase) write(t *mcx.T) *memf.Disk {
	d := memf.New(nil)
	if err := writeFile(d, w.t, w.rows, w.batches, w.cfg); err != nil {
		t.Failf("writing %s of %s: %v", spec.ShowAll(w.rows), w.t, err)
	}
	t.Step(len(w.rows) + 2)
	return d
}

// leafTypes are the primitive types the writer accepts.
func leafTypes() (l []*spec.Type) {
	for _, k := range []spec.Kind{spec.BOOLEAN, spec.BYTE, spec.SHORT, spec.INT, spec.LONG, spec.FLOAT, spec.DOUBLE, spec.STRING,
		spec.BINARY, spec.TIMESTAMP, spec.DECIMAL, spec.DATE, spec.VARCHAR, spec.CHAR} {
		l = append(l, spec.T(k))
		if k == spec.STRING || k == spec.VARCHAR || k == spec.CHAR {
			l = append(l, spec.T(k).WithDict())
		}
	}
	return
}

func clampInt(k spec.Kind, v int64) Val {
	switch k {
	case spec.BYTE:
		return int64(int8(v))
	case spec.SHORT:
		return int64(int16(v))
	case spec.INT, spec.DATE:
		return int64(int32(v))
	}
	return v
}

// alphabet: the boundary values of a type, the most telling first.
func alphabet(t *spec.Type) (a []Val) {
	switch t.Kind {
	case spec.BOOLEAN:
		return []Val{true, false}
	case spec.BYTE:
		return []Val{int64(0), int64(-128), int64(127), int64(-1)}
	case spec.SHORT:
		return []Val{int64(1), int64(math.MinInt16), int64(math.MaxInt16), int64(-1), int64(0)}
	case spec.INT:
		return []Val{int64(1), int64(math.MinInt32), int64(math.MaxInt32), int64(-1), int64(0)}
	case spec.LONG:
		return []Val{int64(1), int64(math.MinInt64), int64(math.MaxInt64), int64(-1), int64(0)}
	case spec.DATE:
		return []Val{int64(0), int64(-1), int64(-719162), int64(2932896), int64(106752), int64(-106753)}
	case spec.FLOAT:
		return []Val{spec.Float32(1.5), spec.Float32(float32(math.Copysign(0, -1))), spec.F32(0x7fc00001), spec.Float32(float32(math.Inf(-1))), spec.F32(1)}
	case spec.DOUBLE:
		return []Val{spec.Float(1.5), spec.Float(math.Copysign(0, -1)), spec.F64(0x7ff8000000000001), spec.Float(math.Inf(-1)), spec.F64(1)}
	case spec.STRING, spec.VARCHAR, spec.CHAR:
		return []Val{"", "a", "b\x00", "é\xff世", strings.Repeat("long ", 60)}
	case spec.BINARY:
		return []Val{spec.Bin(""), spec.Bin("\x00"), spec.Bin("ab"), spec.Bin("\xff\x00\xff"), spec.Bin(strings.Repeat("0123456789", 30))}
	case spec.TIMESTAMP:
		return []Val{spec.TS{}, spec.TS{Sec: -1, Nano: 999999999}, spec.TS{Sec: 1, Nano: 1000}, spec.TS{Sec: -2000000000, Nano: 900000}, spec.TS{Sec: 3000000000, Nano: 12}}
	case spec.DECIMAL:
		return []Val{spec.Dec{}, spec.Dec{U: -1, S: 2}, spec.Dec{U: math.MaxInt64, S: 18}, spec.Dec{U: math.MinInt64, S: 0}, spec.Dec{U: 7, S: 1}}
	}
	panic(t.Kind)
}

// value is the value of a type that stands for the number v (distinct for small v).
func value(t *spec.Type, v int64) Val {
	switch t.Kind {
	case spec.BOOLEAN:
		return v&1 != 0
	case spec.BYTE, spec.SHORT, spec.INT, spec.LONG, spec.DATE:
		return clampInt(t.Kind, v)
	case spec.FLOAT:
		return spec.Float32(float32(v) / 4)
	case spec.DOUBLE:
		return spec.Float(float64(v) / 4)
	case spec.STRING, spec.VARCHAR, spec.CHAR:
		if v%7 == 0 {
			return ""
		}
		return fmt.Sprintf("%s%d", strings.Repeat("s", int(uint64(v)%5)), v)
	case spec.BINARY:
		return spec.Bin(strings.Repeat(string([]byte{byte(v), byte(v >> 8)}), int(uint64(v)%4)))
	case spec.TIMESTAMP:
		return spec.TS{Sec: v, Nano: uint64(v*v*1000) % 1000000000}
	case spec.DECIMAL:
		return spec.Dec{U: v, S: int(uint64(v) % 4)}
	}
	panic(t.Kind)
}

// hash scatters i.
func hash(i int) int64 {
	x := uint64(i+1) * 0x9e3779b97f4a7c15
	x ^= x >> 29
	x *= 0xbf58476d1ce4e5b9
	x ^= x >> 32
	return int64(x)
}

// pattern is element i of a column that follows one of the patterns of run-length encodings.
func pattern(t *spec.Type, p byte, i int) Val {
	switch p {
	case 'n':
		return nil
	case 'c': // the same
		return value(t, 5)
	case 'd': // a constant step
		return value(t, int64(3*i-40))
	case 'D': // falling
		return value(t, int64(900-i))
	case 'a': // alternating
		return value(t, int64(i&1)+8)
	case 'h': // scattered
		v := hash(i) % 30000
		if t.Kind == spec.LONG && i%5 == 0 {
			v = hash(i)
		}
		return value(t, v)
	case 'o': // small, with outliers
		if i%37 == 11 {
			return value(t, int64(1)<<14+int64(i))
		}
		return value(t, hash(i)&3)
	case 'x': // one in three is null
		if uint64(hash(i))%3 == 1 {
			return nil
		}
		if t.Kind == spec.BOOLEAN {
			return hash(i+1000)&1 != 0
		}
		return value(t, int64(i))
	}
	panic(p)
}

func wrap(kids ...*spec.Type) *spec.Type { return spec.T(spec.STRUCT, kids...).Clone() }

func colRows(vals []Val) []Val {
	rows := make([]Val, len(vals))
	for i, v := range vals {
		rows[i] = spec.S{v}
	}
	return rows
}

var (
	plain  = wcfg{}
	zipped = wcfg{zlib: true}
)

// choices lists values of a type: every null pattern, one or two values at each leaf.
func choices(t *spec.Type, per int) (l []Val) {
	if t.Kind == spec.STRUCT {
		l = []Val{spec.S{}}
		for _, k := range t.Kids {
			var n []Val
			for _, c := range choices(k, per) {
				for _, x := range l {
					n = append(n, append(append(spec.S{}, x.(spec.S)...), c))
				}
			}
			l = n
		}
	} else {
		l = append(l, alphabet(t)[:per]...)
	}
	if t.Nullable {
		l = append(l, nil)
	}
	return
}

// number gives the leaves of row i values that tell the rows apart.
func number(t *spec.Type, v Val, i int) Val {
	if v == nil {
		return nil
	}
	if t.Kind == spec.STRUCT {
		s := spec.S{}
		for j, k := range t.Kids {
			s = append(s, number(k, v.(spec.S)[j], i*3+j))
		}
		return s
	}
	if t.Kind == spec.BOOLEAN {
		return hash(i)&1 != 0
	}
	return value(t, int64(i)*11+1)
}

// scattered rows have no period, so that no part of a stream looks like another.
func scattered(t *spec.Type, n int) (rows []Val) {
	for _, x := range t.Flat() {
		if x.Kind == spec.LIST || x.Kind == spec.MAP {
			for i := 0; i < n; i++ {
				rows = append(rows, listRow(t, int(uint64(hash(i))%1000), true))
			}
			return
		}
	}
	ch := choices(t, 1)
	for i := 0; i < n; i++ {
		rows = append(rows, number(t, ch[uint64(hash(i))%uint64(len(ch))], i))
	}
	return
}

// nestedTypes are schemas with structs at all places the writer accepts.
func nestedTypes() []*spec.Type {
	i, s, b, d := spec.T(spec.INT), spec.T(spec.STRING), spec.T(spec.BOOLEAN), spec.T(spec.DOUBLE)
	st := func(k ...*spec.Type) *spec.Type { return spec.T(spec.STRUCT, k...) }
	var l []*spec.Type
	for _, t := range []*spec.Type{
		st(i.Null(), s.Null()),
		st(i).Null(),
		st(i, s, b).Null(),
		st(st(i).Null()),
		st(st(i.Null())),
		st(st(i).Null(), s.Null()),
		st(i.Null(), st(b, s).Null(), i.Null()),
		st(st(i.Null()), st(s.Null())),
		st(st(i).Null(), st(i).Null()),
		st(st(st(i.Null()), b.Null())),
		st(st(st(i, d)).Null()),
		st(st(st(i).Null(), st(b).Null()), i),
		st(st(st(st(s.Null())))),
		st(st().Null(), i.Null()),
		st(st(), i),
		st(),
		st().Null(),
		st(i, st(s.WithDict().Null(), b.Null()), d),
	} {
		l = append(l, t.Clone())
	}
	return l
}

func everything(null bool) *spec.Type {
	var kids []*spec.Type
	for _, l := range leafTypes() {
		if null {
			l = l.Null()
		}
		kids = append(kids, l)
	}
	return wrap(kids...)
}

func everyRow(t *spec.Type, i int, nulls bool) Val {
	s := spec.S{}
	for j, k := range t.Kids {
		if nulls && (i+j)%4 == 3 {
			s = append(s, nil)
		} else if a := alphabet(k); i < len(a) {
			s = append(s, a[i])
		} else {
			s = append(s, value(k, hash(i)%1000+int64(i)))
		}
	}
	return s
}

// files enumerates the files of the writer checks.
// scale: what is left out of the quick spaces for checks that need more time a file.
func files(c *mcx.Ctx, indexes bool, f func(t *mcx.T, w wcase)) {
	do := func(w wcase, id string) {
		c.Do(func() string { return id }, func(t *mcx.T) { f(t, w) })
	}
	cfgs := []wcfg{plain}
	if indexes {
		cfgs = append(cfgs, wcfg{index: true, stride: 2})
	}

	c.Group("every short column")
	max := 4
	if c.Thorough {
		max = 5
	}
	for _, leaf := range leafTypes() {
		for _, null := range []bool{false, true} {
			k := leaf
			a := alphabet(leaf)
			if len(a) > 4 && !c.Thorough {
				a = a[:4]
			}
			if null {
				k = leaf.Null()
				a = append(a[:len(a):len(a)], nil)
			}
			t := wrap(k)
			mcx.Seqs(len(a), 0, max, func(idx []int) {
				if !c.Thorough && len(idx) == max && idx[0] != 0 && idx[0] != len(a)-1 {
					return
				}
				var v []Val
				for _, x := range idx {
					v = append(v, a[x])
				}
				for _, cfg := range cfgs {
					do(wcase{t, colRows(v), nil, cfg}, fmt.Sprintf("%s %v %v", t, idx, cfg))
				}
			})
		}
	}

	c.Group("columns without a struct")
	for _, leaf := range leafTypes() {
		for _, k := range []*spec.Type{leaf, leaf.Null()} {
			t := k.Clone()
			a := alphabet(leaf)[:2]
			if k.Nullable {
				a = append(a[:2:2], nil)
			}
			mcx.Seqs(len(a), 0, 3, func(idx []int) {
				var v []Val
				for _, x := range idx {
					v = append(v, a[x])
				}
				for _, cfg := range cfgs {
					do(wcase{t, v, nil, cfg}, fmt.Sprintf("%s %v %v", t, idx, cfg))
				}
			})
		}
	}

	c.Group("structs, every null pattern")
	limit := 1500
	if c.Thorough {
		limit = 60000
	}
	for _, t := range nestedTypes() {
		t := t
		for per := 1; per <= 2; per++ {
			ch := choices(t, 1)
			if per == 2 {
				if ch = choices(t, 2); len(ch) > 40 {
					continue
				}
			}
			n, tot := 0, 1
			for tot*len(ch) <= limit && n < 7 {
				tot *= len(ch)
				n++
			}
			if n < 2 {
				n = 2
			}
			mcx.Seqs(len(ch), 0, n, func(idx []int) {
				var rows []Val
				for i, x := range idx {
					r := ch[x]
					if per == 1 {
						r = number(t, r, i)
					}
					rows = append(rows, r)
				}
				for _, cfg := range cfgs {
					do(wcase{t, rows, nil, cfg}, fmt.Sprintf("%s/%d %v %v", t, per, idx, cfg))
				}
			})
		}
	}

	c.Group("runs around encoder limits")
	pats := []byte("cdahoxn")
	lens := []int{1, 3, 9, 128, 130, 511, 513}
	if c.Thorough {
		pats = []byte("cdDahoxn")
		lens = []int{1, 2, 3, 8, 9, 10, 127, 128, 129, 130, 131, 511, 512, 513, 1024}
	}
	for _, leaf := range leafTypes() {
		for pi, p := range pats {
			for _, n := range lens {
				for qi, q := range pats {
					for mi, m := range lens {
						null := p == 'n' || p == 'x' || q == 'n' || q == 'x'
						if !c.Thorough && n > 100 && m > 100 && (pi+qi+mi)%3 != 0 {
							continue // the rest in the thorough tier
						}
						leaf, p, n, q, m := leaf, p, n, q, m
						c.Do(func() string { return fmt.Sprintf("%s %c%d %c%d", leaf, p, n, q, m) }, func(t *mcx.T) {
							k := leaf
							if null {
								k = leaf.Null()
							}
							var v []Val
							for i := 0; i < n; i++ {
								v = append(v, pattern(leaf, p, i))
							}
							for i := 0; i < m; i++ {
								v = append(v, pattern(leaf, q, i))
							}
							v = append(v, value(leaf, 77))
							cfg := plain
							if indexes {
								cfg = wcfg{index: true, stride: 100}
							}
							f(t, wcase{wrap(k), colRows(v), nil, cfg})
						})
					}
				}
			}
		}
	}

	c.Group("compression chunks")
	chunks := []int{1, 2, 3, 7, 16, 50, 300, 5000}
	sizes := []int{1, 2, 7, 40, 300}
	if c.Thorough {
		chunks = []int{1, 2, 3, 4, 5, 7, 8, 16, 31, 50, 64, 100, 300, 1000, 5000, 100000}
		sizes = []int{1, 2, 3, 7, 20, 40, 100, 300, 1000}
	}
	for _, leaf := range leafTypes() {
		for _, ch := range chunks {
			for _, n := range sizes {
				for _, p := range []byte("chx") {
					for _, z := range []bool{false, true} {
						if (ch < 16 || z) && n > 100 && !c.Thorough && p != 'h' {
							continue
						}
						k := leaf
						if p == 'x' {
							k = leaf.Null()
						}
						var v []Val
						for i := 0; i < n; i++ {
							v = append(v, pattern(leaf, p, i))
						}
						cfg := wcfg{zlib: z, chunk: ch}
						do(wcase{wrap(k), colRows(v), nil, cfg}, fmt.Sprintf("%s %c%d %v", k, p, n, cfg))
						if indexes {
							for _, stride := range []int{1, 3, 10} {
								if n/stride > 40 || n < stride {
									continue
								}
								cfg.index, cfg.stride = true, stride
								do(wcase{wrap(k), colRows(v), nil, cfg}, fmt.Sprintf("%s %c%d %v", k, p, n, cfg))
							}
						}
					}
				}
			}
		}
	}

	c.Group("batches and stripes")
	n := 7
	if c.Thorough {
		n = 9
	}
	for ti, t := range []*spec.Type{wrap(spec.T(spec.INT).Null(), spec.T(spec.STRING)), wrap(spec.T(spec.STRUCT, spec.T(spec.DOUBLE)).Null(), spec.T(spec.BOOLEAN).Null()),
		wrap(spec.T(spec.STRING).WithDict(), spec.T(spec.BYTE))} {
		var rows []Val
		ch := choices(t, 1)
		for i := 0; i < n; i++ {
			rows = append(rows, number(t, ch[(i+i/3)%len(ch)], i))
		}
		for _, stripe := range []int{1, 20, 45, 70, 100} {
			cc := []wcfg{{stripe: stripe}}
			if ti == 0 {
				cc = append(cc, wcfg{stripe: stripe, zlib: true, chunk: 64})
			}
			if indexes {
				for _, s := range []int{1, 2, 3} {
					cc = append(cc, wcfg{stripe: stripe, index: true, stride: s})
				}
				cc = append(cc, wcfg{stripe: stripe, index: true, stride: 2, zlib: true, chunk: 20})
			}
			for _, cfg := range cc {
				mcx.Compositions(n, func(b []int) {
					do(wcase{t, rows, b, cfg}, fmt.Sprintf("%s %v %v", t, b, cfg))
				})
			}
		}
	}

	c.Group("all types together")
	for _, null := range []bool{false, true} {
		t := everything(null)
		for _, n := range []int{1, 2, 5, 9, 30, 100} {
			var rows []Val
			for i := 0; i < n; i++ {
				rows = append(rows, everyRow(t, i, null))
			}
			for _, z := range []bool{false, true} {
				for _, ch := range []int{0, 10, 1000} {
					for _, stripe := range []int{0, 200, 1500} {
						for _, stride := range []int{0, 1, 4, 50} {
							if stride > 0 && !indexes {
								continue
							}
							cfg := wcfg{zlib: z, chunk: ch, stripe: stripe, index: stride > 0, stride: stride}
							do(wcase{t, rows, nil, cfg}, fmt.Sprintf("null=%v n=%d %v", null, n, cfg))
						}
					}
				}
			}
		}
	}

	large(c, indexes, f)
}

// large files cross the limits of sizes that are built in: chunks of 2^15 and more bytes, several default chunks,
// long strings, many columns, many stripes, footers longer than the first read of the tail.
func large(c *mcx.Ctx, indexes bool, f func(t *mcx.T, w wcase)) {
	do := func(id string, mk func() wcase) {
		c.Do(func() string { return id }, func(t *mcx.T) { f(t, mk()) })
	}
	c.Group("beyond built-in sizes")
	n := 20000
	if c.Thorough {
		n = 120000
	}
	for _, leaf := range leafTypes() {
		for pi, p := range []byte("hxcd") {
			for ci, cfg := range []wcfg{{}, {zlib: true}, {zlib: true, chunk: 40000, stripe: 90000}, {chunk: 1 << 15}} {
				if indexes {
					cfg.index, cfg.stride = true, []int{10000, 1000, 3000, 5000}[ci]
				}
				if !c.Thorough && pi > 0 && ci != pi {
					continue
				}
				k, p := leaf, p
				if p == 'x' {
					k = leaf.Null()
				}
				do(fmt.Sprintf("%s %c %v", k, p, cfg), func() wcase {
					v := make([]Val, n)
					for i := range v {
						v[i] = pattern(k, p, i)
					}
					return wcase{wrap(k), colRows(v), []int{n / 3, n - n/3}, cfg}
				})
			}
		}
	}
	for _, leaf := range leafTypes() { // numbers of rows, of values in a dictionary and in a row group above 2^16
		leaf := leaf
		for ci, cfg := range []wcfg{{}, {zlib: true, stripe: 1 << 20}} {
			if indexes {
				cfg.index, cfg.stride = true, 69000
			}
			if ci > 0 && !c.Thorough {
				continue
			}
			cfg := cfg
			do(fmt.Sprintf("70000 rows of %s %v", leaf, cfg), func() wcase {
				v := make([]Val, 70000)
				for i := range v {
					if uint64(hash(i))%40 != 7 {
						v[i] = pattern(leaf, 'd', i)
					}
				}
				return wcase{wrap(leaf.Null()), colRows(v), nil, cfg}
			})
		}
	}
	for _, leaf := range leafTypes() {
		if leaf.Kind != spec.STRING && leaf.Kind != spec.BINARY && leaf.Kind != spec.VARCHAR && leaf.Kind != spec.CHAR {
			continue
		}
		for _, l := range []int{511, 512, 1023, 1024, 1025, 1<<15 - 1, 1 << 15, 1 << 16, 1<<20 - 1, 1 << 20, 1<<20 + 1, 3 << 20} {
			for _, cfg := range []wcfg{{}, {zlib: true}, {zlib: true, chunk: 1000}} {
				if indexes {
					cfg.index, cfg.stride = true, 2
				}
				leaf, l, cfg := leaf, l, cfg
				if cfg.chunk > 0 && l > 1<<16 && !c.Thorough {
					continue
				}
				do(fmt.Sprintf("%s of %d bytes %v", leaf, l, cfg), func() wcase {
					str := func(k int) Val {
						b := make([]byte, l+k)
						for i := range b {
							b[i] = byte(hash(i/3+k) >> 5)
						}
						if leaf.Kind == spec.BINARY {
							return spec.Bin(b)
						}
						return string(b)
					}
					small := value(leaf, 3)
					v := []Val{small, str(0), nil, str(1), small, str(0)}
					return wcase{wrap(leaf.Null(), spec.T(spec.INT)), rowsOf(v), nil, cfg}
				})
			}
		}
	}
	for _, cols := range []int{63, 64, 127, 128, 129, 300, 1000} {
		for _, cfg := range []wcfg{{}, {zlib: true}, {zlib: true, chunk: 1000}} {
			if indexes {
				cfg.index, cfg.stride = true, 3
			}
			for _, deep := range []bool{false, true} {
				if cols > 300 && cfg.chunk == 0 {
					continue // every stream has buffers of a chunk
				}
				cols, cfg, deep := cols, cfg, deep
				do(fmt.Sprintf("%d columns deep=%v %v", cols, deep, cfg), func() wcase {
					leafs := leafTypes()
					var kids []*spec.Type
					for i := 0; i < cols; i++ {
						k := leafs[i%len(leafs)]
						if i%3 == 1 {
							k = k.Null()
						}
						kids = append(kids, k)
					}
					ty := spec.T(spec.STRUCT, kids...)
					if deep { // structs of structs, a column in each
						if cols > 300 {
							cols = 300
						}
						ty = spec.T(spec.STRUCT, kids[0])
						for i := 1; i < cols; i++ {
							ty = spec.T(spec.STRUCT, kids[i], ty)
						}
					}
					ty = ty.Clone()
					for _, x := range ty.Flat() {
						for j := range x.Names {
							x.Names[j] = fmt.Sprintf("column_%d_with_a_name_that_is_not_short", j)
						}
					}
					var rows []Val
					for i := 0; i < 7; i++ {
						rows = append(rows, bigRow(ty, i))
					}
					return wcase{ty, rows, nil, cfg}
				})
			}
		}
	}
	for _, rows := range []int{130, 700} {
		for _, cfg := range []wcfg{{stripe: 1}, {stripe: 1, zlib: true}} {
			if indexes {
				cfg.index, cfg.stride = true, 1
			}
			rows, cfg := rows, cfg
			do(fmt.Sprintf("%d stripes %v", rows, cfg), func() wcase {
				var v []Val
				for i := 0; i < rows; i++ {
					v = append(v, pattern(spec.T(spec.STRING), 'x', i))
				}
				return wcase{wrap(spec.T(spec.STRING).Null(), spec.T(spec.INT)), rowsOf(v), nil, cfg}
			})
		}
	}
	// indexes of more than 64 KB in every stripe
	for _, leaf := range []*spec.Type{spec.T(spec.LONG), spec.T(spec.STRING).Null(), spec.T(spec.STRING).WithDict()} {
		for _, cfg := range []wcfg{{stripe: 20000}, {stripe: 20000, zlib: true}, {stripe: 20000, zlib: true, chunk: 1000}} {
			cfg.index, cfg.stride = true, 1
			leaf, cfg := leaf, cfg
			do(fmt.Sprintf("large index %s %v", leaf, cfg), func() wcase {
				var v []Val
				for i := 0; i < 6000; i++ {
					v = append(v, pattern(leaf, 'h', i))
				}
				w := wcase{wrap(leaf, spec.T(spec.INT)), rowsOf(v), nil, cfg}
				for i := 0; i < 12; i++ {
					w.batches = append(w.batches, 500)
				}
				return w
			})
		}
	}
}

// rowsOf adds a column that numbers the rows.
func rowsOf(v []Val) (rows []Val) {
	for i, x := range v {
		rows = append(rows, spec.S{x, int64(i)})
	}
	return
}

func bigRow(t *spec.Type, i int) Val {
	if t.Nullable && i%3 == 1 {
		return nil
	}
	if t.Kind == spec.STRUCT {
		s := spec.S{}
		for j, k := range t.Kids {
			s = append(s, bigRow(k, i+j%5))
		}
		return s
	}
	return value(t, int64(i)*13+2)
}
