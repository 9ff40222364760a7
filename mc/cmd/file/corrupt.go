package main

import (
	"fmt"
	"runtime"
	"runtime/metrics"
	"sync"
	"time"

	"goorcmc/mcx"
	"goorcmc/memf"
	"goorcmc/spec"

	"github.com/patrickhuang888/goorc/orc"
	"github.com/patrickhuang888/goorc/orc/api"
)

// what reading a damaged file of a few hundred bytes may take
const (
	memLimit  = 64 << 20
	timeLimit = 20 * time.Second
	maxNext   = 40
)

// memory is measured for all goroutines; who is above the limit is measured again alone.
var alone sync.RWMutex

func allocated() uint64 {
	s := []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}
	metrics.Read(s)
	return s[0].Value.Uint64()
}

// meter measures the memory of every call.
type meter struct {
	most uint64
	what string
}

func (m *meter) call(what string, f func()) {
	before := allocated()
	f()
	if n := allocated() - before; n > m.most {
		m.most, m.what = n, what
	}
}

// chew opens and reads a damaged file in several ways. Only breaking down is wrong.
func chew(t *mcx.T, b []byte) {
	start := time.Now()
	var m meter
	alone.RLock()
	out := func() string { defer alone.RUnlock(); return chewed(t, b, &m) }()
	if m.most > memLimit {
		alone.Lock()
		defer alone.Unlock()
		low := m
		for i := 0; i < 3 && low.most > memLimit; i++ {
			m = meter{}
			chewed(t, b, &m)
			runtime.GC()
			if m.most < low.most {
				low = m
			}
		}
		if low.most > memLimit {
			t.Failf("%d MB of memory in one call of %s, a file of %d bytes: %s", low.most>>20, low.what, len(b), out)
		}
	}
	if d := time.Since(start); d > timeLimit {
		t.Failf("%v to read a file of %d bytes: %s", d, len(b), out)
	}
	t.StateS(out)
}

func chewed(t *mcx.T, b []byte, m *meter) (out string) {
	t.Step(1)
	say := func(x interface{}) {
		if s := fmt.Sprint(x); len(out) < 600 {
			out += " " + s
		}
	}
	var r orc.Reader
	var err error
	m.call("open", func() { r, err = orc.VerifReader(memf.New(b).Handle()) })
	if err != nil {
		return err.Error()
	}
	defer r.Close()
	n := r.NumberOfRows()
	_ = len(r.GetStatistics())
	schema := r.GetSchema()
	flat, err := schema.Flat()
	if err != nil {
		return err.Error()
	}
	opts := []api.BatchOption{{RowSize: 5}, {RowSize: 1000}}
	if len(flat) > 2 {
		last := uint32(len(flat) - 1)
		opts = append(opts, api.BatchOption{RowSize: 3, Includes: []uint32{last}}, api.BatchOption{RowSize: 3, Includes: []uint32{0, 1}})
	}
	for i := range opts {
		say(i)
		var br orc.BatchReader
		m.call("CreateBatchReader", func() { br, err = r.CreateBatchReader(&opts[i]) })
		if err != nil {
			say(err)
			continue
		}
		vec, err := schema.CreateVector(&opts[i])
		if err != nil {
			say(err)
			br.Close()
			continue
		}
		rows := 0
		for k := 0; k < maxNext; k++ {
			var end bool
			m.call("Next", func() { end, err = br.Next(vec) })
			t.Step(1)
			if err != nil {
				say(err)
				break
			}
			if vec.Len() > opts[i].RowSize {
				br.Close()
				t.Failf("Next delivered %d rows, batch has room for %d", vec.Len(), opts[i].RowSize)
			}
			rows += vec.Len()
			if end {
				break
			}
		}
		say(rows)
		for _, p := range []uint64{0, n / 2, n - 1, n} {
			m.call("Seek", func() { err = br.Seek(p) })
			if err != nil {
				say(err)
			}
			for k := 0; k < 2; k++ {
				m.call("Next", func() { _, err = br.Next(vec) })
				if err != nil {
					say(err)
				}
			}
		}
		br.Close()
	}
	return
}

// C17: damaged files.
func C17(c *mcx.Ctx) {
	c.Assume(fmt.Sprintf("bounded means: %d MB for a call and %v in all for files of a few hundred bytes, at most %d calls of Next each", memLimit>>20, timeLimit, maxNext))
	st := spec.STRUCT
	type src struct {
		name string
		t    *spec.Type
		rows []Val
		o    spec.WOpt
	}
	var srcs []src
	types := []*spec.Type{
		wrap(spec.T(spec.INT).Null(), spec.T(spec.STRING).Null()),
		wrap(spec.T(spec.STRING).WithDict().Null(), spec.T(st, spec.T(spec.BOOLEAN), spec.T(spec.TIMESTAMP)).Null()),
		wrap(spec.T(spec.LIST, spec.T(spec.INT).Null()).Null(), spec.T(spec.DECIMAL).Null()),
		wrap(spec.T(spec.MAP, spec.T(spec.STRING), spec.T(spec.LIST, spec.T(spec.BYTE))).Null()),
		wrap(spec.T(spec.LIST, spec.T(st, spec.T(spec.STRING).WithDict(), spec.T(spec.BINARY)).Null())),
		wrap(spec.T(spec.DOUBLE).Null(), spec.T(spec.FLOAT), spec.T(spec.DATE).Null(), spec.T(spec.BYTE)),
		wrap(),
		spec.T(spec.LONG).Clone(),
	}
	for i, ty := range types {
		for j, o := range []spec.WOpt{
			{Block: 1 << 12, Stripes: []int{3, 2}},
			{Block: 1 << 12, Stride: 2, Bloom: true},
			{Zlib: true, Block: 1 << 12, Stride: 2, Mode: "d"},
		} {
			if j > 0 && (i == 6 || i == 7) {
				continue
			}
			srcs = append(srcs, src{fmt.Sprintf("%d.%d", i, j), ty, mixed0(ty, 5), o})
		}
	}

	c.Group("every field of the messages damaged")
	for _, s := range srcs {
		s := s
		type place struct {
			part              string
			stripe, col, kind int
		}
		orig := map[place][]byte{}
		var order []place
		o := s.o
		o.Damage = func(part string, stripe, col, kind int, b []byte) []byte {
			p := place{part, stripe, col, kind}
			if orig[p] == nil {
				order = append(order, p)
			}
			orig[p] = append([]byte{}, b...)
			return b
		}
		spec.Write(s.t, s.rows, o)
		for _, p := range order {
			p := p
			schema := map[string]*spec.Schema{"index": spec.IndexSchema, "stripe": spec.StripeSchema, "footer": spec.FooterSchema, "postscript": spec.PSSchema}[p.part]
			if schema == nil {
				continue
			}
			n := 0
			spec.Mutants(orig[p], schema, func(m []byte) {
				n++
				k := n
				c.Do(func() string { return fmt.Sprint(s.name, p, k) }, func(t *mcx.T) {
					o := s.o
					o.Damage = func(part string, stripe, col, kind int, b []byte) []byte {
						if (place{part, stripe, col, kind}) == p {
							return m
						}
						return b
					}
					chew(t, spec.Write(s.t, s.rows, o))
				})
			})
		}
	}

	c.Group("every value of the streams damaged")
	for _, s := range srcs {
		s := s
		type place struct{ stripe, col, kind int }
		orig := map[place][]uint64{}
		var order []place
		o := s.o
		o.Values = func(stripe, col, kind int, v []uint64) []uint64 {
			p := place{stripe, col, kind}
			order = append(order, p)
			orig[p] = append([]uint64{}, v...)
			return v
		}
		spec.Write(s.t, s.rows, o)
		for _, p := range order {
			try := func(id string, v []uint64) {
				c.Do(func() string { return fmt.Sprint(s.name, p, id) }, func(t *mcx.T) {
					o := s.o
					o.Values = func(stripe, col, kind int, w []uint64) []uint64 {
						if (place{stripe, col, kind}) == p {
							return v
						}
						return w
					}
					chew(t, spec.Write(s.t, s.rows, o))
				})
			}
			for i := range orig[p] {
				for _, x := range spec.Wild {
					v := append([]uint64{}, orig[p]...)
					v[i] = x
					try(fmt.Sprint(" ", i, "=", x), v)
					if i+1 < len(v) {
						v = append([]uint64{}, v...)
						v[i+1] = x
						try(fmt.Sprint(" ", i, i+1, "=", x), v)
					}
				}
				v := append([]uint64{}, orig[p]...)
				try(fmt.Sprint(" cut ", i), v[:i])
				try(fmt.Sprint(" twice ", i), append(v[:i+1:i+1], v[i:]...))
			}
			for _, x := range spec.Wild {
				v := make([]uint64, len(orig[p]))
				for i := range v {
					v[i] = x
				}
				try(fmt.Sprint(" all ", x), v)
			}
		}
	}

	c.Group("streams cut and longer")
	for _, s := range srcs {
		s := s
		type place struct{ stripe, col, kind int }
		lens := map[place]int{}
		var order []place
		o := s.o
		o.Damage = func(part string, stripe, col, kind int, b []byte) []byte {
			if part == "stream" {
				p := place{stripe, col, kind}
				order = append(order, p)
				lens[p] = len(b)
			}
			return b
		}
		spec.Write(s.t, s.rows, o)
		for _, p := range order {
			for n := 0; n <= lens[p]+3; n++ {
				for fill := 0; fill < 256; fill += 51 {
					if n <= lens[p] && fill > 0 {
						continue
					}
					p, n, fill := p, n, fill
					c.Do(func() string { return fmt.Sprint(s.name, p, n, fill) }, func(t *mcx.T) {
						o := s.o
						o.Damage = func(part string, stripe, col, kind int, b []byte) []byte {
							if part == "stream" && (place{stripe, col, kind}) == p {
								b = append([]byte{}, b...)
								for len(b) < n {
									b = append(b, byte(fill))
								}
								return b[:n]
							}
							return b
						}
						chew(t, spec.Write(s.t, s.rows, o))
					})
				}
			}
		}
	}

	c.Group("every byte damaged")
	type file struct {
		name string
		b    []byte
	}
	var files []file
	for _, s := range srcs {
		files = append(files, file{s.name, spec.Write(s.t, s.rows, s.o)})
	}
	for i, ty := range []*spec.Type{types[0], types[1], types[5], everything(true)} {
		rows := mixed0(ty, 6)
		for _, cfg := range []wcfg{{}, {stripe: 60, index: true, stride: 2, zlib: true, chunk: 30}} {
			if im := libImage(c, fmt.Sprint("lib", i), ty, rows, []int{6}, cfg); im.data != nil {
				files = append(files, file{im.name, im.data})
			}
		}
	}
	for _, f := range files {
		f := f
		for i := range f.b {
			old := f.b[i]
			vals := map[byte]bool{}
			var list []byte
			for _, v := range []byte{0, 1, 0x7f, 0x80, 0xff, old + 1, old - 1, old ^ 1, old ^ 0x80, old ^ 0x40, old ^ 0x20, old << 1, 0xc0, 0x3f} {
				if v != old && !vals[v] {
					vals[v] = true
					list = append(list, v)
				}
			}
			if c.Thorough {
				list = nil
				for v := 0; v < 256; v++ {
					if byte(v) != old {
						list = append(list, byte(v))
					}
				}
			}
			for _, v := range list {
				i, v := i, v
				c.Do(func() string { return fmt.Sprintf("%s %d=%02x", f.name, i, v) }, func(t *mcx.T) {
					b := append([]byte{}, f.b...)
					b[i] = v
					chew(t, b)
				})
			}
			for _, v := range []int{-1, 0, 0x80, 0xff} {
				i, v := i, v
				c.Do(func() string { return fmt.Sprintf("%s insert %d %d", f.name, i, v) }, func(t *mcx.T) {
					b := append([]byte{}, f.b[:i]...)
					if v < 0 {
						b = append(b, f.b[i+1:]...)
					} else {
						b = append(append(b, byte(v)), f.b[i:]...)
					}
					chew(t, b)
				})
			}
		}
	}

	c.Group("every pair of bytes of the tail damaged")
	for fi, f := range files {
		if fi%5 != 0 && !c.Thorough {
			continue
		}
		f := f
		from := len(f.b) - 40
		if c.Thorough {
			from = len(f.b) - 90
		}
		if from < 0 {
			from = 0
		}
		vals := []byte{0, 1, 0x7f, 0x80, 0xff}
		for i := from; i < len(f.b); i++ {
			for j := i + 1; j < len(f.b); j++ {
				for _, v := range vals {
					for _, w := range vals {
						i, j, v, w := i, j, v, w
						c.Do(func() string { return fmt.Sprintf("%s %d=%02x %d=%02x", f.name, i, v, j, w) }, func(t *mcx.T) {
							b := append([]byte{}, f.b...)
							b[i], b[j] = v, w
							chew(t, b)
						})
					}
				}
			}
		}
	}

	c.Group("every short file")
	mcx.Seqs(10, 0, 5, func(idx []int) {
		c.Do(func() string { return fmt.Sprint(idx) }, func(t *mcx.T) {
			b := []byte{}
			for _, i := range idx {
				b = append(b, []byte{0, 1, 3, 'O', 'R', 'C', 8, 0x80, 0xff, 0x82}[i])
			}
			chew(t, b)
			chew(t, append([]byte("ORC"), b...))
			chew(t, append(append([]byte("ORC"), b...), byte(len(b))))
		})
	})
}
