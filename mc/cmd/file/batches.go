package main

import (
	"fmt"

	"goorcmc/mcx"
	"goorcmc/memf"
	"goorcmc/spec"

	"github.com/patrickhuang888/goorc/orc"
	"github.com/patrickhuang888/goorc/orc/api"
)

// deliver reads everything with the capacities given in turn and checks the end flag at every step.
func deliver(t *mcx.T, d *memf.Disk, ty *spec.Type, rows []Val, caps []int, fresh bool) {
	r, err := orc.VerifReader(d.Handle())
	if err != nil {
		t.Failf("open: %v", err)
	}
	defer r.Close()
	s, err := batchReader(r, ty, ropt{cap: caps[0]})
	if err != nil {
		t.Failf("%v", err)
	}
	defer s.close()
	vecs := map[int]*api.ColumnVector{caps[0]: s.vec}
	got := 0
	for i := 0; ; i++ {
		n := caps[i%len(caps)]
		s.o.cap = n
		if fresh || vecs[n] == nil {
			if s.vec, err = r.GetSchema().CreateVector(&api.BatchOption{RowSize: n}); err != nil {
				t.Failf("vector: %v", err)
			}
			vecs[n] = s.vec
		}
		s.vec = vecs[n]
		b, end, err := s.next()
		t.Step(1)
		if err != nil {
			t.Failf("Next %d after %d of %d rows: %v", i, got, len(rows), err)
		}
		if got+len(b) > len(rows) {
			t.Failf("Next %d delivered %d rows after %d, there are %d", i, len(b), got, len(rows))
		}
		if x := diff(rows[got:got+len(b)], b); x != "" {
			t.Failf("Next %d after %d rows: %s", i, got, x)
		}
		got += len(b)
		if end != (got == len(rows)) {
			t.Failf("Next %d: end is %v after %d of %d rows", i, end, got, len(rows))
		}
		if end {
			break
		}
		if len(b) == 0 {
			t.Failf("Next %d delivered nothing after %d of %d rows", i, got, len(rows))
		}
	}
	for i := 0; i < 2; i++ {
		b, end, err := s.next()
		if err != nil || !end || len(b) != 0 {
			t.Failf("Next after the end: %d rows, end %v, %v", len(b), end, err)
		}
	}
	t.StateS(spec.ShowAll(rows) + fmt.Sprint(caps, fresh))
}

// batchTypes have nulls at every level and values that cross bytes and runs.
func batchTypes() []*spec.Type {
	st := spec.STRUCT
	return []*spec.Type{
		wrap(spec.T(spec.INT).Null()),
		wrap(spec.T(st, spec.T(spec.STRING), spec.T(spec.BOOLEAN)).Null(), spec.T(spec.BOOLEAN).Null()),
		wrap(spec.T(spec.STRING).WithDict().Null(), spec.T(spec.DECIMAL)),
		wrap(spec.T(st, spec.T(spec.DATE).Null(), spec.T(st, spec.T(spec.BINARY)).Null()), spec.T(spec.TIMESTAMP).Null()),
		spec.T(spec.LONG).Null().Clone(),
		spec.T(st, spec.T(spec.DOUBLE), spec.T(spec.BYTE)).Null().Clone(),
		wrap(),
		spec.T(st).Null().Clone(),
	}
}

// mixed is row i of a sequence that runs through all null patterns.
func mixed(t *spec.Type, n int, k int) (rows []Val) {
	ch := choices(t, 1)
	for i := 0; i < n; i++ {
		rows = append(rows, number(t, ch[(i*k+i/len(ch))%len(ch)], i))
	}
	return
}

// C08: batching and striping do not show.
func C08(c *mcx.Ctx) {
	c.Assume("stripe boundaries are set freely by the harness's own ORC writer, and by StripeSize with the library's")
	n := 9
	if c.Thorough {
		n = 11
	}
	c.Group("every stripe split, capacity and batch reuse")
	for ti, ty := range batchTypes() {
		for rn := 0; rn <= n; rn++ {
			rows := mixed(ty, rn, 1)
			mcx.Compositions(rn, func(stripes []int) {
				for _, stride := range []int{0, 2} {
					for cp := 1; cp <= rn+1; cp++ {
						for _, fresh := range []bool{false, true} {
							if len(rows) == 0 {
								stripes = nil
							}
							c.Do(func() string { return fmt.Sprint(ti, rn, stripes, stride, cp, fresh) }, func(t *mcx.T) {
								d := memf.New(spec.Write(ty, rows, spec.WOpt{Stripes: stripes, Stride: stride, Block: 1 << 12}))
								deliver(t, d, ty, rows, []int{cp}, fresh)
							})
						}
					}
				}
			})
		}
	}
	c.Group("capacities that change from call to call")
	for ti, ty := range batchTypes() {
		rows := mixed(ty, 8, 1)
		for si, stripes := range [][]int{{8}, {3, 5}, {1, 1, 4, 2}, {7, 1}} {
			mcx.Seqs(3, 2, 4, func(idx []int) {
				caps := make([]int, len(idx))
				for i, x := range idx {
					caps[i] = []int{1, 2, 5}[x]
				}
				for _, fresh := range []bool{false, true} {
					c.Do(func() string { return fmt.Sprint(ti, si, caps, fresh) }, func(t *mcx.T) {
						d := memf.New(spec.Write(ty, rows, spec.WOpt{Stripes: stripes, Block: 1 << 12}))
						deliver(t, d, ty, rows, caps, fresh)
					})
				}
			})
		}
	}
	c.Group("lists and maps")
	for ti, ty := range listTypes() {
		rows := listRows(ty, 7)
		mcx.Compositions(7, func(stripes []int) {
			for cp := 1; cp <= 8; cp++ {
				for _, fresh := range []bool{false, true} {
					c.Do(func() string { return fmt.Sprint(ti, stripes, cp, fresh) }, func(t *mcx.T) {
						d := memf.New(spec.Write(ty, rows, spec.WOpt{Stripes: stripes, Block: 1 << 12}))
						deliver(t, d, ty, rows, []int{cp}, fresh)
					})
				}
			}
		})
	}
	c.Group("write batches and stripe sizes")
	bn := 8
	if c.Thorough {
		bn = 10
	}
	for ti, ty := range batchTypes() {
		rows := mixed(ty, bn, 1)
		for _, stripe := range []int{1, 3, 12, 30, 60, 0} {
			mcx.Compositions(bn, func(b []int) {
				for _, z := range []bool{false, true} {
					if z && (len(b) > 2 || stripe == 0) {
						continue
					}
					for _, cp := range []int{1, 2, 4, 7} {
						cfg := wcfg{stripe: stripe, zlib: z, chunk: 40}
						if cp == 2 {
							cfg.index, cfg.stride = true, 2
						}
						c.Do(func() string { return fmt.Sprint(ti, b, cfg, cp) }, func(t *mcx.T) {
							w := wcase{ty, rows, b, cfg}
							deliver(t, w.write(t), ty, rows, []int{cp}, cp == 4)
						})
					}
				}
			})
		}
	}
	c.Group("empty batches between")
	for ti, ty := range batchTypes() {
		rows := mixed(ty, 3, 1)
		if len(ty.Kids) == 0 && ty.Kind == spec.STRUCT {
			continue
		}
		mcx.Seqs(3, 1, 5, func(b []int) {
			sum := 0
			for _, x := range b {
				sum += x
			}
			if sum != 3 {
				return
			}
			for _, stripe := range []int{1, 0} {
				c.Do(func() string { return fmt.Sprint(ti, b, stripe) }, func(t *mcx.T) {
					w := wcase{ty, rows, b, wcfg{stripe: stripe, index: true, stride: 1}}
					deliver(t, w.write(t), ty, rows, []int{2}, false)
				})
			}
		})
	}
	c.Group("beyond built-in sizes")
	for _, im := range bigLists() {
		im := im
		for _, caps := range [][]int{{1}, {2}, {3, 1}, {10}} {
			caps := caps
			c.Do(func() string { return fmt.Sprint(im.name, " ", caps) }, func(t *mcx.T) { deliver(t, im.disk(), im.t, im.rows, caps, false) })
		}
	}
	for _, leaf := range []*spec.Type{spec.T(spec.LONG), spec.T(spec.STRING), spec.T(spec.STRING).WithDict(), spec.T(spec.BOOLEAN), spec.T(spec.DECIMAL)} {
		for _, cfg := range []wcfg{{}, {stripe: 50000}, {zlib: true, index: true, stride: 1000}} {
			for _, cp := range []int{999, 1000, 1024, 9999, 10000, 10001, 29999, 30000, 65536, 100000} {
				leaf, cfg, cp := leaf, cfg, cp
				c.Do(func() string { return fmt.Sprint(leaf, cfg, cp) }, func(t *mcx.T) {
					var v []Val
					for i := 0; i < 30000; i++ {
						v = append(v, pattern(leaf, 'x', i))
					}
					w := wcase{wrap(leaf.Null()), colRows(v), nil, cfg}
					deliver(t, w.write(t), w.t, w.rows, []int{cp}, false)
				})
			}
		}
	}
	c.Group("long columns, every type")
	for li, leaf := range leafTypes() {
		for _, p := range []byte("cdahx") {
			ty := wrap(leaf.Null())
			var v []Val
			for i := 0; i < 700; i++ {
				v = append(v, pattern(leaf, p, i))
			}
			rows := colRows(v)
			caps := [][]int{{1}, {3}, {7, 8}, {128}, {511, 1}, {512}, {513}, {699}, {700}, {701}}
			if c.Thorough {
				for k := 2; k < 700; k += 5 {
					caps = append(caps, []int{k})
				}
			}
			for _, cp := range caps {
				for _, cfg := range []wcfg{{}, {stripe: 300}, {zlib: true, chunk: 100, stripe: 700}} {
					c.Do(func() string { return fmt.Sprint(li, string(p), cp, cfg) }, func(t *mcx.T) {
						w := wcase{ty, rows, nil, cfg}
						deliver(t, w.write(t), ty, rows, cp, false)
					})
				}
			}
		}
	}
}

// bigLists has rows with more elements than are read at once, and strings longer than what is allocated at once.
func bigLists() (l []*image) {
	st := spec.STRUCT
	add := func(name string, ty *spec.Type, rows []Val, o spec.WOpt) {
		o.Block = 1 << 18
		l = append(l, specImage(name, ty, rows, o))
	}
	list := func(n int, f func(i int) Val) Val {
		v := spec.L{}
		for i := 0; i < n; i++ {
			v = append(v, f(i))
		}
		return v
	}
	for _, n := range []int{1<<16 - 1, 1 << 16, 1<<16 + 1, 140000} {
		ty := wrap(spec.T(spec.LIST, spec.T(spec.INT).Null()).Null(), spec.T(spec.INT))
		el := func(i int) Val {
			if i%3 == 1 {
				return nil
			}
			return int64(i % 1000)
		}
		add(fmt.Sprint("list ", n), ty, rowsOf([]Val{list(2, el), list(n, el), nil, list(0, el), list(5, el), list(n, el), list(1, el)}), spec.WOpt{Stripes: []int{5, 2}})
		add(fmt.Sprint("indexed list ", n), ty, rowsOf([]Val{list(2, el), list(n, el), nil, list(0, el), list(5, el), list(n, el), list(1, el)}), spec.WOpt{Stride: 2, Zlib: true, Mode: "do"})
	}
	n := 1<<16 + 3
	ty := wrap(spec.T(spec.MAP, spec.T(spec.INT), spec.T(st, spec.T(spec.STRING).Null(), spec.T(spec.BOOLEAN)).Null()), spec.T(spec.INT))
	ma := func(n int) Val {
		m := spec.M{}
		for i := 0; i < n; i++ {
			var v Val = spec.S{fmt.Sprint(i % 77), i%3 == 0}
			if i%5 == 2 {
				v = nil
			} else if i%7 == 3 {
				v = spec.S{nil, i%3 == 0}
			}
			m = append(m, [2]Val{int64(i), v})
		}
		return m
	}
	add("map", ty, rowsOf([]Val{ma(3), ma(n), ma(0), ma(1), ma(n), ma(2)}), spec.WOpt{Stride: 3})
	ty = wrap(spec.T(spec.LIST, spec.T(spec.LIST, spec.T(spec.BYTE))), spec.T(spec.INT))
	short := func(i int) Val { return list(i%4, func(j int) Val { return int64(j) }) }
	long := func(i int) Val { return list(40000, func(j int) Val { return int64(j%100 + i) }) }
	add("lists of lists", ty, rowsOf([]Val{list(n, short), list(3, long), list(0, long), list(4, short), list(2, long)}), spec.WOpt{Stride: 2, Stripes: []int{3, 2}})
	for _, from := range []int{0, 1 << 16} { // nulls in the first or the second part only
		ty = wrap(spec.T(spec.LIST, spec.T(st, spec.T(st, spec.T(spec.INT)), spec.T(spec.BYTE).Null()).Null()), spec.T(spec.INT))
		el := func(i int) Val {
			if i >= from && i < from+100 && i%3 == 1 {
				return nil
			}
			return spec.S{spec.S{int64(i % 900)}, int64(i % 100)}
		}
		add(fmt.Sprint("list of structs ", from), ty, rowsOf([]Val{list(3, el), list(1<<17+5, el), list(0, el), list(2, el), list(n, el), list(1, el)}), spec.WOpt{Stride: 2})
	}
	for _, from := range []int{0, 1, 2, 3} { // nulls in every second stripe, the others may have no present streams
		ty = wrap(spec.T(spec.LIST, spec.T(st, spec.T(st, spec.T(spec.INT)), spec.T(spec.BYTE).Null()).Null()), spec.T(spec.INT))
		el := func(null bool) func(i int) Val {
			return func(i int) Val {
				if null && i%3 == 1 {
					return nil
				}
				return spec.S{spec.S{int64(i % 900)}, int64(i % 100)}
			}
		}
		x, y := el(from%2 == 0), el(from%2 == 1)
		add(fmt.Sprint("stripes with nulls and without ", from), ty,
			rowsOf([]Val{list(n, x), list(2, x), list(n, y), list(1, y), list(3, x), list(n, x), list(2, y), list(n, y)}), spec.WOpt{Stripes: []int{2, 2, 2, 2}, Always: from > 1})
	}
	for _, k := range []spec.Kind{spec.STRING, spec.BINARY} {
		for _, dict := range []bool{false, true} {
			if dict && k == spec.BINARY {
				continue
			}
			for _, n := range []int{1<<20 - 1, 1 << 20, 1<<20 + 1, 5 << 20} {
				leaf := spec.T(k)
				if dict {
					leaf = leaf.WithDict()
				}
				str := func(n, k2 int) Val {
					b := make([]byte, n)
					for i := range b {
						b[i] = byte(i/7 + k2)
					}
					if k == spec.BINARY {
						return spec.Bin(b)
					}
					return string(b)
				}
				rows := rowsOf([]Val{str(3, 1), str(n, 2), nil, str(0, 0), str(n, 3), str(n, 2), str(5, 1)})
				add(fmt.Sprint(k, dict, n), wrap(leaf.Null(), spec.T(spec.INT)), rows, spec.WOpt{Stripes: []int{3, 4}})
				add(fmt.Sprint("indexed ", k, dict, n), wrap(leaf.Null(), spec.T(spec.INT)), rows, spec.WOpt{Stride: 2, Zlib: true, Mode: "do", Cuts: []int{1 << 18, 100}})
			}
		}
	}
	return
}

// listTypes can only be read by the library.
func listTypes() []*spec.Type {
	st, li, ma := spec.STRUCT, spec.LIST, spec.MAP
	i, s, b := spec.T(spec.INT), spec.T(spec.STRING), spec.T(spec.BOOLEAN)
	var l []*spec.Type
	for _, t := range []*spec.Type{
		wrap(spec.T(li, i.Null()).Null()),
		wrap(spec.T(ma, s, b.Null()).Null(), i.Null()),
		wrap(spec.T(li, spec.T(li, s).Null()).Null(), b),
		wrap(spec.T(li, spec.T(st, i.Null(), s.WithDict()).Null())),
		wrap(spec.T(st, spec.T(li, spec.T(spec.DOUBLE).Null()), b.Null()).Null()),
		spec.T(li, i).Null(),
		spec.T(ma, i, spec.T(li, spec.T(spec.TIMESTAMP)).Null()),
		wrap(spec.T(ma, spec.T(spec.DATE), spec.T(st, spec.T(spec.BYTE).Null(), spec.T(ma, s, spec.T(spec.DECIMAL).Null()))).Null()),
		// nulls in nulls, which the library's writer does not take
		wrap(spec.T(st, i.Null(), spec.T(st, s.Null(), b.Null()).Null()).Null(), i),
		wrap(spec.T(st, spec.T(st, spec.T(st, spec.T(spec.TIMESTAMP).Null()).Null()).Null()).Null()),
		wrap(spec.T(st, spec.T(li, spec.T(st, spec.T(st, s.WithDict().Null()).Null()).Null()).Null()).Null(), b.Null()),
		wrap(spec.T(st, spec.T(ma, i, b.Null()).Null(), spec.T(spec.DECIMAL).Null()).Null(), i),
	} {
		l = append(l, t.Clone())
	}
	return l
}

// listRow makes row i: lengths 0..3 and nulls in turn.
func listRow(t *spec.Type, i int, top bool) Val {
	if t.Nullable && i%5 == 2 {
		return nil
	}
	switch t.Kind {
	case spec.STRUCT:
		s := spec.S{}
		for j, k := range t.Kids {
			s = append(s, listRow(k, i+j, false))
		}
		return s
	case spec.LIST:
		l := spec.L{}
		for j := 0; j < (i*3+1)%4; j++ {
			l = append(l, listRow(t.Kids[0], i*2+j+1, false))
		}
		return l
	case spec.MAP:
		m := spec.M{}
		for j := 0; j < (i*3+2)%4; j++ {
			m = append(m, [2]Val{listRow(t.Kids[0], i*4+j*3, false), listRow(t.Kids[1], i+j, false)})
		}
		return m
	}
	if t.Kind == spec.BOOLEAN {
		return hash(i)&1 != 0
	}
	return value(t, int64(i)*7+1)
}

func listRows(t *spec.Type, n int) (rows []Val) {
	for i := 0; i < n; i++ {
		rows = append(rows, listRow(t, i, true))
	}
	return
}
