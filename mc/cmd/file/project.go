package main

import (
	"fmt"
	"time"

	"goorcmc/mcx"
	"goorcmc/memf"
	"goorcmc/spec"

	"github.com/patrickhuang888/goorc/orc"
	"github.com/patrickhuang888/goorc/orc/api"
)

// proper: the set holds the root, with every column the one it is in, and all of a list or map.
func proper(t *spec.Type, inc map[int]bool) bool {
	if !inc[0] {
		return false
	}
	ok := true
	for id, in := range inc {
		ok = ok && (!in || id < t.Size)
	}
	var walk func(x *spec.Type)
	walk = func(x *spec.Type) {
		for _, k := range x.Kids {
			if inc[k.ID] && !inc[x.ID] {
				ok = false
			}
			if inc[x.ID] && !inc[k.ID] && x.Kind != spec.STRUCT {
				ok = false
			}
			walk(k)
		}
	}
	walk(t)
	return ok
}

// project reads the columns and compares with the same columns of the rows.
func project(t *mcx.T, d *memf.Disk, ty *spec.Type, rows []Val, ids []uint32, caps int, seek int) {
	inc := map[int]bool{}
	top := ty.Size
	for _, id := range ids {
		inc[int(id)] = true
		if int(id) < top {
			top = int(id)
		}
	}
	must := proper(ty, inc)
	r, err := orc.VerifReader(d.Handle())
	if err != nil {
		t.Failf("open: %v", err)
	}
	defer r.Close()
	bo := &api.BatchOption{RowSize: caps, Includes: ids}
	br, err := r.CreateBatchReader(bo)
	t.Step(1)
	if err != nil {
		if must {
			t.Failf("batch reader for columns %v: %v", ids, err)
		}
		t.StateS("refused")
		return
	}
	defer br.Close()
	schemas, err := r.GetSchema().Flat()
	if err != nil || top >= len(schemas) {
		t.Failf("columns %v accepted: %v", ids, err)
	}
	vec, err := schemas[top].CreateVector(bo)
	if err != nil {
		if must {
			t.Failf("vector for columns %v: %v", ids, err)
		}
		return
	}
	has := func(id int) bool { return inc[id] }
	node := ty.Flat()[top]
	// the values of the top column: it is in structs only
	var want []Val
	for _, row := range rows {
		v, x := row, ty
		for x.ID != top {
			s, ok := v.(spec.S)
			if !ok {
				v = nil
				break
			}
			for i := len(x.Kids) - 1; i >= 0; i-- {
				if x.Kids[i].ID <= top {
					v, x = s[i], x.Kids[i]
					break
				}
			}
		}
		want = append(want, spec.Project(node, v, has))
	}
	at := 0
	if seek > 0 {
		if err := br.Seek(uint64(seek)); err != nil {
			t.Failf("seek: %v", err)
		}
		at = seek
	}
	for at < len(want) {
		end, err := br.Next(vec)
		t.Step(1)
		if err != nil {
			if must {
				t.Failf("Next for columns %v: %v", ids, err)
			}
			return
		}
		n := vec.Len()
		if n == 0 && !end {
			t.Failf("columns %v: Next delivered nothing at %d of %d", ids, at, len(want))
		}
		if at+n > len(want) {
			t.Failf("columns %v: %d rows at %d of %d", ids, n, at, len(want))
		}
		got, err := fromVec(node, vec, n, has, nil)
		if err != nil {
			t.Failf("columns %v: %v", ids, err)
		}
		if x := diff(want[at:at+n], got); x != "" {
			t.Failf("columns %v at row %d: %s; rows %s of %s", ids, at, x, spec.ShowAll(rows), ty)
		}
		at += n
		if end != (at == len(want)) {
			t.Failf("columns %v: end %v at %d of %d", ids, end, at, len(want))
		}
	}
	t.StateS(fmt.Sprint(ty, ids, spec.ShowAll(rows)))
}

// C10: every subset of the columns.
func C10(c *mcx.Ctx) {
	c.Assume("a set of columns that lacks the root, the parent of one of its columns, or part of a list or map may be refused; if it is not, the values must be right")
	var ims []*image
	for ti, ty := range append(append(nestedTypes(), batchTypes()...), listTypes()...) {
		if ty.Size > 11 {
			continue
		}
		n := 8
		rows := mixed0(ty, n)
		lists := false
		for _, x := range ty.Flat() {
			lists = lists || x.Kind == spec.LIST || x.Kind == spec.MAP
			for _, y := range x.Flat()[1:] {
				lists = lists || x.Nullable && y.Nullable // not written by the library either
			}
		}
		for oi, o := range []spec.WOpt{{Block: 1 << 12}, {Block: 1 << 12, Stripes: []int{3, 5}, Stride: 2}, {Zlib: true, Block: 30, Stripes: []int{2, 6}, Always: true, Omit: true}, {Block: 1 << 12, Stride: 3, Reverse: true}} {
			ims = append(ims, specImage(fmt.Sprintf("spec %d.%d", ti, oi), ty, rows, o))
		}
		if !lists {
			for _, cfg := range []wcfg{{}, {index: true, stride: 2, stripe: 20}, {zlib: true, chunk: 30}} {
				ims = append(ims, libImage(c, fmt.Sprintf("lib %d", ti), ty, rows, nil, cfg))
			}
		}
	}
	c.Group("every subset of the columns")
	for _, im := range ims {
		n := im.t.Size
		for m := 0; m < 1<<uint(n); m++ {
			var ids []uint32
			for i := 0; i < n; i++ {
				if m>>uint(i)&1 != 0 {
					ids = append(ids, uint32(i))
				}
			}
			if len(ids) == 0 {
				continue
			}
			for _, cp := range []int{1, 2, 3, 8} {
				for _, seek := range []int{0, 1, 3, 4, 6} {
					c.Do(func() string { return fmt.Sprint(im.name, ids, cp, seek) }, func(t *mcx.T) { project(t, im.disk(), im.t, im.rows, ids, cp, seek) })
				}
			}
		}
	}
	for _, im := range bigLists() {
		im := im
		for _, ids := range [][]uint32{{0, uint32(im.t.Size - 1)}, {uint32(im.t.Size - 1)}} {
			ids := ids
			for _, seek := range []int{0, 4} {
				seek := seek
				c.Do(func() string { return fmt.Sprint(im.name, " ", ids, seek) }, func(t *mcx.T) { project(t, im.disk(), im.t, im.rows, ids, 3, seek) })
			}
		}
	}
	c.Group("every order and repetition of the columns")
	for _, im := range ims {
		if im.t.Size > 5 {
			continue
		}
		mcx.Seqs(im.t.Size+1, 1, 4, func(idx []int) {
			var ids []uint32
			for _, x := range idx {
				ids = append(ids, uint32(x)) // the last is not in the file
			}
			c.Do(func() string { return fmt.Sprint(im.name, ids) }, func(t *mcx.T) { project(t, im.disk(), im.t, im.rows, ids, 3, 0) })
		})
	}
	c.Group("one and all but one of all types")
	for _, null := range []bool{false, true} {
		ty := everything(null)
		var rows []Val
		for i := 0; i < 40; i++ {
			rows = append(rows, everyRow(ty, i, null))
		}
		for _, im := range []*image{libImage(c, "lib", ty, rows, nil, wcfg{index: true, stride: 7, stripe: 900}), libImage(c, "lib", ty, rows, nil, wcfg{zlib: true, chunk: 50}),
			specImage("spec", ty, rows, spec.WOpt{Block: 1 << 12, Stride: 10, Stripes: []int{25, 15}})} {
			for a := 1; a < ty.Size; a++ {
				for b := a; b < ty.Size; b++ {
					for _, but := range []bool{false, true} {
						ids := []uint32{0}
						for x := 1; x < ty.Size; x++ {
							if (x == a || x == b) != but {
								ids = append(ids, uint32(x))
							}
						}
						for _, seek := range []int{0, 17} {
							c.Do(func() string { return fmt.Sprint(im.name, null, ids, seek) }, func(t *mcx.T) { project(t, im.disk(), im.t, im.rows, ids, 9, seek) })
						}
					}
				}
			}
		}
	}
	c.Group("many columns")
	for _, cols := range []int{63, 64, 65, 130, 300} {
		for _, deep := range []bool{false, true} {
			leafs := leafTypes()
			var kids []*spec.Type
			for i := 0; i < cols; i++ {
				k := leafs[i%len(leafs)]
				if i%3 == 1 {
					k = k.Null()
				}
				kids = append(kids, k)
			}
			ty := spec.T(spec.STRUCT, kids...)
			if deep {
				ty = spec.T(spec.STRUCT, kids[0])
				for i := 1; i < cols; i++ {
					ty = spec.T(spec.STRUCT, kids[i], ty)
				}
			}
			ty = ty.Clone()
			var rows []Val
			for i := 0; i < 7; i++ {
				rows = append(rows, bigRow(ty, i))
			}
			im := specImage(fmt.Sprint(cols, deep), ty, rows, spec.WOpt{Block: 1 << 12, Stripes: []int{4, 3}, Stride: 2})
			above := map[int]int{}
			for _, x := range ty.Flat() {
				for _, k := range x.Kids {
					above[k.ID] = x.ID
				}
			}
			for a := 1; a < ty.Size; a++ {
				for _, b := range []int{a, ty.Size - 1, 1 + a*7%(ty.Size-1)} {
					in := map[int]bool{0: true}
					for _, x := range []int{a, b} {
						for ; x != 0; x = above[x] {
							in[x] = true
						}
					}
					var ids []uint32
					for x := 0; x < ty.Size; x++ {
						if in[x] {
							ids = append(ids, uint32(x))
						}
					}
					c.Do(func() string { return fmt.Sprint(im.name, " ", a, b) }, func(t *mcx.T) { project(t, im.disk(), im.t, im.rows, ids, 3, 0) })
				}
			}
		}
	}
	again(c)
}

// again: one BatchOption is changed and used for the next batch reader, while the first is in use.
func again(c *mcx.Ctx) {
	c.Group("an option is used again")
	ty := wrap(spec.T(spec.INT), spec.T(spec.STRING).Null(), spec.T(spec.STRUCT, spec.T(spec.TIMESTAMP), spec.T(spec.BOOLEAN)))
	rows := mixed0(ty, 11)
	var sets [][]uint32
	for m := 0; m < 1<<5; m++ {
		inc := map[int]bool{0: true}
		ids := []uint32{0}
		for i := 1; i < 6; i++ {
			if m>>uint(i-1)&1 != 0 {
				inc[i] = true
				ids = append(ids, uint32(i))
			}
		}
		if proper(ty, inc) {
			sets = append(sets, ids)
		}
	}
	for _, o := range []spec.WOpt{{Block: 1 << 12, Stripes: []int{3, 4, 4}}, {Block: 1 << 12, Zlib: true, Stride: 3, Stripes: []int{11}}} {
		d := memf.New(spec.Write(ty, rows, o))
		for ai, a := range sets {
			for bi, b := range sets {
				for how := 0; how < 4; how++ { // 1: the list of columns is changed in place, 2: after the first batch
					a, b, how := a, b, how
					c.Do(func() string { return fmt.Sprint(o.Zlib, ai, " ", bi, how) }, func(t *mcx.T) {
						r, err := orc.VerifReader(d.Handle())
						if err != nil {
							t.Failf("open: %v", err)
						}
						defer r.Close()
						list := append(make([]uint32, 0, 8), a...)
						opt := &api.BatchOption{RowSize: 2, Includes: list, Loc: time.UTC}
						open := func(ids []uint32, size int) func() bool {
							br, err := r.CreateBatchReader(opt)
							if err != nil {
								t.Failf("batch reader for %v: %v", ids, err)
							}
							vec, err := r.GetSchema().CreateVector(opt)
							if err != nil {
								t.Failf("vector for %v: %v", ids, err)
							}
							at := 0
							return func() bool {
								end, err := br.Next(vec)
								t.Step(1)
								if err != nil {
									t.Failf("Next for %v: %v", ids, err)
								}
								n := vec.Len()
								if n > size || n == 0 || at+n > len(rows) || end != (at+n == len(rows)) {
									t.Failf("columns %v: %d rows after %d, batch has room for %d", ids, n, at, size)
								}
								has := func(id int) bool {
									for _, x := range ids {
										if int(x) == id {
											return true
										}
									}
									return false
								}
								got, err := fromVec(ty, vec, n, has, nil)
								if err != nil {
									t.Failf("columns %v: %v", ids, err)
								}
								var want []Val
								for _, row := range rows[at : at+n] {
									want = append(want, spec.Project(ty, row, has))
								}
								if x := diff(want, got); x != "" {
									t.Failf("columns %v at row %d: %s", ids, at, x)
								}
								at += n
								if end {
									br.Close()
								}
								return !end
							}
						}
						f := open(a, 2)
						x := true
						if how&2 != 0 {
							x = f()
						}
						opt.RowSize, opt.Loc = 5, nil
						if how&1 != 0 {
							opt.Includes = append(list[:0], b...)
						} else {
							opt.Includes = b
						}
						g := open(b, 5)
						for y := true; x || y; {
							if x {
								x = f()
							}
							if y {
								y = g()
							}
						}
						t.StateS(fmt.Sprint(a, b, how))
					})
				}
			}
		}
	}
}
