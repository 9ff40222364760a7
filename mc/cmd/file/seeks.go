package main

import (
	"fmt"
	"strings"

	"goorcmc/mcx"
	"goorcmc/memf"
	"goorcmc/spec"
)

// op of a history: Seek(n) for n >= 0, Next with room for -n rows otherwise.
func playSeeks(t *mcx.T, d *memf.Disk, ty *spec.Type, rows []Val, o ropt, hist []int) {
	max := len(rows) + 1
	o.cap = max
	s, err := open(d, ty, o)
	if err != nil {
		t.Failf("%v", err)
	}
	defer s.close()
	want := projected(ty, rows, o)
	vecs := map[int]*session{}
	at := 0
	next := func(room int) {
		x := vecs[room]
		if x == nil {
			y := *s
			x = &y
			x.o.cap = room
			b := *s.bopt
			b.RowSize = room
			x.bopt = &b
			if err := x.newVec(); err != nil {
				t.Failf("%v", err)
			}
			vecs[room] = x
		}
		got, end, err := x.next()
		t.Step(1)
		if err != nil {
			t.Failf("Next at row %d after %s: %v", at, showOps(hist), err)
		}
		if at+len(got) > len(rows) {
			t.Failf("Next at row %d delivered %d rows of %d; %s", at, len(got), len(rows), showOps(hist))
		}
		if x := diff(want[at:at+len(got)], got); x != "" {
			t.Failf("Next at row %d: %s; %s", at, x, showOps(hist))
		}
		if len(got) == 0 && at < len(rows) {
			t.Failf("Next at row %d delivered nothing; %s", at, showOps(hist))
		}
		at += len(got)
		if end != (at == len(rows)) {
			t.Failf("end is %v at row %d of %d; %s", end, at, len(rows), showOps(hist))
		}
		t.StateS(fmt.Sprintf("%s %d %d", ty, at, len(got)))
	}
	for _, op := range hist {
		if op < 0 {
			next(-op)
			continue
		}
		err := s.br.Seek(uint64(op))
		t.Step(1)
		if op < len(rows) {
			if err != nil {
				t.Failf("Seek(%d) of %d rows: %v; %s", op, len(rows), err, showOps(hist))
			}
			at = op
		} else if err == nil {
			t.Failf("Seek(%d) of %d rows succeeded; %s", op, len(rows), showOps(hist))
		}
	}
	for at < len(rows) {
		next(max)
	}
	next(max)
}

func showOps(h []int) string {
	var p []string
	for _, x := range h {
		if x < 0 {
			p = append(p, fmt.Sprintf("n%d", -x))
		} else {
			p = append(p, fmt.Sprintf("s%d", x))
		}
	}
	return strings.Join(p, ",")
}

// image is a file built once for many histories.
type image struct {
	name string
	t    *spec.Type
	rows []Val
	data []byte
}

func libImage(c *mcx.Ctx, name string, t *spec.Type, rows []Val, batches []int, cfg wcfg) *image {
	d := memf.New(nil)
	im := &image{name: fmt.Sprintf("%s %s %v", name, t, cfg), t: t, rows: rows}
	if err := writeFile(d, t, rows, batches, cfg); err != nil {
		c.Do(func() string { return im.name }, func(t *mcx.T) { t.Failf("writing: %v", err) })
		return im
	}
	im.data = d.Data
	return im
}

func specImage(name string, t *spec.Type, rows []Val, o spec.WOpt) *image {
	return &image{fmt.Sprintf("%s %s", name, t), t, rows, spec.Write(t, rows, o)}
}

func (im *image) disk() *memf.Disk { return memf.New(im.data) }

// C09: every history of Next and Seek.
func C09(c *mcx.Ctx) {
	c.Assume("after a Seek past the last row reading goes on where it was")
	depth := 3
	n := 6
	if c.Thorough {
		depth, n = 5, 6
	}
	hists := func(n, depth int, rooms []int, f func([]int)) {
		var ops []int
		for i := 0; i < n; i++ {
			ops = append(ops, i)
		}
		ops = append(ops, n, n+7)
		ops = append(ops, rooms...)
		mcx.Seqs(len(ops), 1, depth, func(idx []int) {
			h := make([]int, len(idx))
			seek := false
			for i, x := range idx {
				h[i] = ops[x]
				seek = seek || h[i] >= 0
			}
			if seek {
				f(h)
			}
		})
	}
	run := func(im *image, h []int) {
		c.Do(func() string { return im.name + " " + showOps(h) }, func(t *mcx.T) { playSeeks(t, im.disk(), im.t, im.rows, ropt{}, h) })
	}

	c.Group("every history of seeks and reads")
	var ims []*image
	for ti, ty := range append(batchTypes(), listTypes()...) {
		rows := mixed0(ty, n)
		for _, stripes := range [][]int{{n}, {2, n - 2}, {1, 3, n - 4}} {
			for _, stride := range []int{0, 1, 2, 3} {
				if len(stripes) == 3 && stride == 3 {
					continue
				}
				o := spec.WOpt{Stripes: stripes, Stride: stride, Block: 1 << 12}
				if stride == 2 {
					o.Zlib, o.Block, o.Mode = true, 9, "o"
				}
				ims = append(ims, specImage(fmt.Sprintf("spec %d %v/%d", ti, stripes, stride), ty, rows, o))
			}
		}
	}
	for ti, ty := range batchTypes()[:6] {
		rows := mixed(ty, n, 1)
		for _, cfg := range []wcfg{{}, {stripe: 14}, {index: true, stride: 1}, {index: true, stride: 2}, {index: true, stride: 3, stripe: 14},
			{index: true, stride: 2, zlib: true, chunk: 5}, {zlib: true, chunk: 3, stripe: 14}, {index: true, stride: 4, chunk: 1, stripe: 1}} {
			ims = append(ims, libImage(c, fmt.Sprintf("lib %d", ti), ty, rows, []int{n - 2, 2}, cfg))
		}
	}
	for i, im := range ims {
		depth := depth
		if i%3 == 0 && !c.Thorough {
			depth++
		}
		hists(n, depth, []int{-1, -2, -5}, func(h []int) { run(im, h) })
	}

	c.Group("every pair of rows, every type")
	marks := []int{0, 1, 7, 8, 9, 99, 100, 101, 127, 128, 129, 130, 131, 199, 200, 299, 300, 301, 511, 512, 513, 598, 599}
	for li, leaf := range leafTypes() {
		for pi, p := range []byte("cdhx") {
			if !c.Thorough && (li+pi)%4 == 1 {
				continue
			}
			ty := wrap(leaf.Null())
			var v []Val
			for i := 0; i < 600; i++ {
				v = append(v, pattern(leaf, p, i))
			}
			rows := colRows(v)
			var ims []*image
			for _, cfg := range []wcfg{{}, {index: true, stride: 100}, {index: true, stride: 7, stripe: 350}, {index: true, stride: 64, zlib: true, chunk: 60}} {
				ims = append(ims, libImage(c, string(p), ty, rows, nil, cfg))
			}
			ims = append(ims, specImage("spec"+string(p), ty, rows, spec.WOpt{Stripes: []int{250, 350}, Stride: 100, Zlib: true, Block: 50, Mode: "zo", Always: true}))
			for _, im := range ims {
				for _, a := range marks {
					for _, b := range marks {
						if c.Thorough || a >= 127 || b >= 127 {
							run(im, []int{a, -1, b, -20})
						}
					}
				}
			}
		}
	}

	c.Group("short runs")
	for _, im := range shortRuns(60, c.Thorough) {
		for a := range im.rows {
			run(im, []int{a, -3})
			if c.Thorough || a%8 == 0 {
				for b := 0; b < len(im.rows); b += 7 {
					run(im, []int{b, -2, a, -2})
				}
			}
		}
	}

	c.Group("beyond built-in sizes")
	for _, im := range bigLists() {
		for a := 0; a < len(im.rows); a++ {
			for b := 0; b < len(im.rows); b++ {
				run(im, []int{a, -1, b, -2})
			}
			run(im, []int{-2, a, -5})
		}
	}
	for _, leaf := range leafTypes() {
		leaf := leaf
		for _, cfg := range []wcfg{{stripe: 60000, index: true, stride: 1000, zlib: true}, {index: true, stride: 10000}, {stripe: 60000}, {stripe: 60000, index: true, stride: 1}} {
			cfg := cfg
			c.Do(func() string { return fmt.Sprint("30000 rows ", leaf, cfg) }, func(t *mcx.T) {
				var v []Val
				for i := 0; i < 30000; i++ {
					v = append(v, pattern(leaf, 'x', i))
				}
				w := wcase{wrap(leaf.Null()), colRows(v), nil, cfg}
				d := w.write(t)
				if cfg.stride == 1 {
					w.batches = []int{10000, 10000, 10000}
				}
				marks := []int{0, 999, 1000, 1001, 9999, 10000, 19999, 20001, 29000, 29999}
				for i, a := range marks {
					playSeeks(t, d, w.t, w.rows, ropt{}, []int{a, -1200, marks[(i*3+1)%10], -3, marks[(i*7+2)%10], -1, marks[9-i], -20000})
				}
			})
		}
	}

	c.Group("more than 2^32 rows")
	for k, stride := range []int{0, 10000, 0} {
		n, each := 3, 3000000000
		if k == 2 {
			n, each = 2, 5000000000
		}
		all := n * each
		im := specImage(fmt.Sprintf("%d stripes of %d rows/%d", n, each, stride), wrap(), []Val{spec.S{}, spec.S{}, spec.S{}}[:n],
			spec.WOpt{Stripes: []int{1, 1, 1}[:n], Stride: stride, Block: 1 << 12, Count: func(int, int) int { return each }})
		marks := []int{0, 1<<31 - 1, 1 << 31, each - 3, each, 1<<32 - 2, 1 << 32, 1<<32 + 1<<31, 2*each + 7, 2*each + 1<<31 + 3, all - 3}
		if k == 2 {
			marks = []int{1<<32 - 1, 1<<32 + 3, each - 2, each + 1<<32 + 1, all - 2}
		}
		for _, a := range marks {
			a := a
			if stride > 0 && !c.Thorough && a%3 != 0 {
				continue
			}
			c.Do(func() string { return fmt.Sprint(im.name, " ", a) }, func(t *mcx.T) {
				s, err := open(im.disk(), im.t, ropt{cap: 5})
				if err != nil {
					t.Failf("%v", err)
				}
				defer s.close()
				for _, past := range []int{all, all + 1, 1 << 40} {
					if err := s.br.Seek(uint64(past)); err == nil {
						t.Failf("Seek(%d) of %d rows succeeded", past, all)
					}
				}
				if err := s.br.Seek(uint64(a)); err != nil {
					t.Failf("Seek(%d) of %d rows: %v", a, all, err)
				}
				for at, i := a, 0; i < 3; i++ {
					got, end, err := s.next()
					t.Step(1)
					if err != nil {
						t.Failf("Next at row %d: %v", at, err)
					}
					if len(got) > 5 || at < all && len(got) == 0 || at+len(got) > all {
						t.Failf("Next at row %d delivered %d rows", at, len(got))
					}
					at += len(got)
					if end != (at == all) {
						t.Failf("end is %v at row %d", end, at)
					}
					t.StateS(fmt.Sprint(at, len(got)))
				}
			})
		}
	}

	c.Group("seeks with columns left out")
	for ti, ty := range append(batchTypes()[1:4], listTypes()[1:5]...) {
		rows := mixed0(ty, n)
		for _, stride := range []int{0, 2} {
			im := specImage(fmt.Sprintf("spec %d/%d", ti, stride), ty, rows, spec.WOpt{Stripes: []int{2, n - 2}, Stride: stride, Block: 1 << 12})
			subsets(ty, func(inc []uint32) {
				hists(n, 2, []int{-1, -3}, func(h []int) {
					c.Do(func() string { return fmt.Sprint(im.name, inc, " ", showOps(h)) }, func(t *mcx.T) { playSeeks(t, im.disk(), im.t, im.rows, ropt{inc: inc}, h) })
				})
			})
		}
	}
}

func mixed0(t *spec.Type, n int) []Val {
	for _, x := range t.Flat() {
		if x.Kind == spec.LIST || x.Kind == spec.MAP {
			return listRows(t, n)
		}
	}
	return mixed(t, n, 1)
}

// subsets calls f with every set of columns that is a tree with the root: of lists and maps all or nothing.
func subsets(t *spec.Type, f func([]uint32)) {
	for _, s := range treeSets(t) {
		if len(s) > 0 {
			f(s)
		}
	}
}

func treeSets(t *spec.Type) [][]uint32 {
	sets := [][]uint32{{uint32(t.ID)}}
	for _, k := range t.Kids {
		var n [][]uint32
		for _, ks := range treeSets(k) {
			if len(ks) == 0 && t.Kind != spec.STRUCT {
				continue
			}
			for _, s := range sets {
				n = append(n, append(append([]uint32{}, s...), ks...))
			}
		}
		sets = n
	}
	return append(sets, nil)
}

// shortRuns are images where all streams have many runs in a chunk.
func shortRuns(n int, all bool) (ims []*image) {
	var types []*spec.Type
	for _, leaf := range leafTypes() {
		types = append(types, wrap(leaf.Null()), inNulls(leaf))
	}
	types = append(append(types, listTypes()...), batchTypes()[1], batchTypes()[3])
	for ti, ty := range types {
		rows := scattered(ty, n)
		for _, lits := range []int{1, 2} {
			for si, stride := range []int{8, 16, 17} {
				for oi, o := range []spec.WOpt{{Block: 1 << 12}, {Zlib: true, Block: 9, Mode: "o"}, {Zlib: true, Block: 40, Mode: "od"}} {
					if !all && (lits+si+oi)%2 == 1 {
						continue
					}
					o.Stride, o.Lits, o.Ints = stride, lits, spec.IntsDirect(3)
					o.Stripes = [][]int{{n}, {n/2 - 5, n - n/2 + 5}}[(lits+oi)%2]
					ims = append(ims, specImage(fmt.Sprintf("short runs %d %d/%d/%d", ti, lits, stride, oi), ty, rows, o))
				}
			}
		}
	}
	return
}

// inNulls is a type with a nullable column in a nullable struct
func inNulls(t *spec.Type) *spec.Type {
	return wrap(spec.T(spec.STRUCT, t.Null()).Null())
}
