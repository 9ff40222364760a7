package main

import (
	"fmt"
	"strings"

	"goorcmc/mcx"
	"goorcmc/memf"
	"goorcmc/spec"

	"github.com/patrickhuang888/goorc/orc"
	"github.com/patrickhuang888/goorc/orc/api"
	"github.com/patrickhuang888/goorc/pb/pb"
)

// shapes calls f with every ordered tree of n nodes whose inner nodes are structs.
func shapes(n int, f func(*spec.Type)) {
	memo := map[int][][]*spec.Type{}
	var trees func(n int) []*spec.Type
	var forests func(n int) [][]*spec.Type
	forests = func(n int) [][]*spec.Type {
		if n == 0 {
			return [][]*spec.Type{nil}
		}
		if m := memo[n]; m != nil {
			return m
		}
		var l [][]*spec.Type
		for k := 1; k <= n; k++ {
			for _, t := range trees(k) {
				for _, r := range forests(n - k) {
					l = append(l, append([]*spec.Type{t}, r...))
				}
			}
		}
		memo[n] = l
		return l
	}
	trees = func(n int) (l []*spec.Type) {
		for _, fo := range forests(n - 1) {
			l = append(l, spec.T(spec.STRUCT, fo...))
		}
		return
	}
	for _, t := range trees(n) {
		f(t.Clone())
	}
}

func leavesOf(t *spec.Type) (l []*spec.Type) {
	for _, x := range t.Flat() {
		if len(x.Kids) == 0 {
			l = append(l, x)
		}
	}
	return
}

func checkSchema(t *mcx.T, what string, td *api.TypeDescription, ty *spec.Type) {
	var walk func(td *api.TypeDescription, x *spec.Type)
	walk = func(td *api.TypeDescription, x *spec.Type) {
		if td.Id != uint32(x.ID) || td.Kind != pb.Type_Kind(x.Kind) {
			t.Failf("%s: column %d %s where %d %s is expected; %s", what, td.Id, td.Kind, x.ID, x.Kind, ty)
		}
		names := fmt.Sprintf("%q", td.ChildrenNames)
		if x.Kind != spec.STRUCT && strings.Join(td.ChildrenNames, "") == "" {
			names = "[]" // what is in a list or map has no name
		}
		if len(td.Children) != len(x.Kids) || names != fmt.Sprintf("%q", x.Names) {
			t.Failf("%s: column %d has %d children %q, expected %d %q; %s", what, td.Id, len(td.Children), td.ChildrenNames, len(x.Kids), x.Names, ty)
		}
		for i, k := range x.Kids {
			walk(td.Children[i], k)
		}
	}
	walk(td, ty)
	flat, err := td.Flat()
	if err != nil || len(flat) != ty.Size {
		t.Failf("%s: Flat returns %d columns, %v; %s", what, len(flat), err, ty)
	}
	for i, x := range flat {
		if x.Id != uint32(i) || x.Kind != pb.Type_Kind(ty.Flat()[i].Kind) {
			t.Failf("%s: Flat returns column %d at %d; %s", what, x.Id, i, ty)
		}
	}
	t.Step(len(flat))
}

// rowsFor gives a few rows of any schema.
func rowsFor(t *spec.Type, n int) []Val { return mixed0(t, n) }

func roundSchema(t *mcx.T, ty *spec.Type, cfg wcfg) {
	rows := rowsFor(ty, 2)
	w := wcase{ty, rows, nil, cfg}
	d := w.write(t)
	r, err := orc.VerifReader(d.Handle())
	if err != nil {
		t.Failf("open: %v; schema %s", err, ty)
	}
	checkSchema(t, "read", r.GetSchema(), ty)
	r.Close()
	checkRead(t, d, ty, rows)
	t.StateS(ty.String() + fmt.Sprintf("%q", names(ty)))
}

func names(t *spec.Type) (l []string) {
	for _, x := range t.Flat() {
		l = append(l, x.Names...)
	}
	return
}

// likeSchema checks the batch made for the columns of mask (all if negative).
func likeSchema(t *mcx.T, ty *spec.Type, mask int, nulls, bare bool, size int) {
	td := toAPI(ty)
	if err := api.NormalizeSchema(td); err != nil {
		t.Failf("%v", err)
	}
	flat, err := td.Flat()
	if err != nil {
		t.Failf("%v", err)
	}
	opt := &api.BatchOption{RowSize: size, NotCreateVector: bare}
	bad := false
	inc := func(id uint32) bool { return mask < 0 || mask>>id&1 != 0 }
	for _, x := range flat {
		x.HasNulls = nulls
		if mask > 0 && inc(x.Id) {
			opt.Includes = append(opt.Includes, x.Id)
		}
		if x.Kind == pb.Type_LIST || x.Kind == pb.Type_MAP {
			for _, k := range x.Children {
				bad = bad || inc(x.Id) && !inc(k.Id)
			}
		}
	}
	if mask == 0 { // an empty list names all columns
		inc = func(uint32) bool { return true }
		bad = false
	}
	vec, err := td.CreateVector(opt)
	t.Step(1)
	if bad || !inc(0) {
		if err == nil {
			t.Failf("columns %v of %s: a batch was made", opt.Includes, ty)
		}
		return
	}
	if err != nil {
		t.Failf("columns %v of %s: %v", opt.Includes, ty, err)
	}
	seen := map[*api.Value]uint32{}
	var walk func(x *api.TypeDescription, v *api.ColumnVector)
	walk = func(x *api.TypeDescription, v *api.ColumnVector) {
		if v.Id != x.Id || v.Kind != x.Kind {
			t.Failf("columns %v of %s: vector %d %s where column %d %s is", opt.Includes, ty, v.Id, v.Kind, x.Id, x.Kind)
		}
		if bare && v.Vector != nil || !bare && v.Kind != pb.Type_STRUCT && cap(v.Vector) != size {
			t.Failf("columns %v of %s: vector %d has room for %d values, %d rows asked for, none to be made %v", opt.Includes, ty, v.Id, cap(v.Vector), size, bare)
		}
		if cap(v.Vector) > 0 {
			p := &v.Vector[:1][0]
			if o, ok := seen[p]; ok {
				t.Failf("columns %v of %s: vectors %d and %d share values", opt.Includes, ty, o, v.Id)
			}
			seen[p] = v.Id
		}
		i := 0
		for _, k := range x.Children {
			if inc(k.Id) {
				if i >= len(v.Children) {
					t.Failf("columns %v of %s: no vector for column %d", opt.Includes, ty, k.Id)
				}
				walk(k, v.Children[i])
				i++
			}
		}
		if i != len(v.Children) {
			t.Failf("columns %v of %s: vector %d has %d children, %d are included", opt.Includes, ty, v.Id, len(v.Children), i)
		}
		t.Step(1)
	}
	walk(td, vec)
	if bare {
		if vec.Cap() != 0 || vec.Len() != 0 {
			t.Failf("columns %v of %s: batch without vectors has room for %d, and %d rows", opt.Includes, ty, vec.Cap(), vec.Len())
		}
		return
	}
	if vec.Cap() != size {
		t.Failf("columns %v of %s: room for %d rows, asked for %d", opt.Includes, ty, vec.Cap(), size)
	}
	vec.Clear()
	if vec.Cap() != size || vec.Len() != 0 {
		t.Failf("columns %v of %s: cleared batch has room for %d rows, and %d rows, made for %d", opt.Includes, ty, vec.Cap(), vec.Len(), size)
	}
	t.StateS(fmt.Sprint(ty, opt.Includes, nulls))
}

// C11: schemas.
func C11(c *mcx.Ctx) {
	c.Assume("whether a column is nullable is not part of the schema of an ORC file")
	max := 8
	if c.Thorough {
		max = 9
	}
	c.Group("every struct tree through a file")
	for n := 1; n <= max; n++ {
		shapes(n, func(ty *spec.Type) {
			leaves := len(leavesOf(ty))
			for m := 0; m < 1<<uint(leaves); m++ {
				for nv := 0; nv < 3; nv++ {
					ty, m, nv := ty.Clone(), m, nv
					for i, l := range leavesOf(ty) {
						if m>>uint(i)&1 != 0 {
							l.Kind = []spec.Kind{spec.INT, spec.STRING, spec.BOOLEAN}[i%3]
							l.Names = nil
						}
					}
					for i, x := range ty.Flat() {
						for j := range x.Names {
							x.Names[j] = []string{fmt.Sprintf("n%d", 97*i+j), "same", ""}[nv]
						}
					}
					cfg := wcfg{zlib: m == 1, chunk: 30, index: nv == 1, stride: 1}
					c.Do(func() string { return fmt.Sprint(n, ty, m, nv) }, func(t *mcx.T) { roundSchema(t, ty, cfg) })
				}
			}
		})
	}
	c.Group("every kind and name through a file")
	for _, leaf := range leafTypes() {
		for ni, name := range []string{"", "a", "ä€\u0000", "\xff", "with space.and:dots", "A", fmt.Sprintf("%0300d", 7)} {
			for _, where := range []int{0, 1, 2} {
				leaf, name, where := leaf, name, where
				ty := wrap(spec.T(spec.BYTE), leaf, spec.T(spec.STRUCT, leaf))
				switch where {
				case 0:
					ty = leaf.Clone()
				case 1:
					ty.Names[1] = name
				case 2:
					ty.Kids[2].Names[0] = name
					ty.Names[2] = name
				}
				c.Do(func() string { return fmt.Sprint(leaf, ni, where) }, func(t *mcx.T) { roundSchema(t, ty, plain) })
			}
		}
	}
	c.Group("every short name")
	name := func(name string) {
		if len(name) > 1000 && !c.Thorough && len(name)%2 == 1 {
			return
		}
		for _, where := range []int{0, 1, 2} {
			where := where
			c.Do(func() string { return fmt.Sprintf("%.40q %d %d", name, len(name), where) }, func(t *mcx.T) {
				ty := wrap(spec.T(spec.BYTE), spec.T(spec.STRUCT, spec.T(spec.INT), spec.T(spec.STRING)))
				ty.Names = []string{name, "b"}
				ty.Kids[1].Names = []string{"a", name}
				if where == 1 {
					ty.Names = []string{"a", name}
				}
				if where < 2 {
					roundSchema(t, ty, plain)
					return
				}
				rows := rowsFor(ty, 3)
				d := memf.New(spec.Write(ty, rows, spec.WOpt{Block: 1 << 12}))
				r, err := orc.VerifReader(d.Handle())
				if err != nil {
					t.Failf("open: %v", err)
				}
				checkSchema(t, "read", r.GetSchema(), ty)
				r.Close()
			})
		}
	}
	for b := 0; b < 256; b++ {
		name(string([]byte{byte(b)}))
	}
	chars := []string{"a", "B", "0", " ", "\t", "\n", ".", "`", "\"", "\\", "\x00", "_", "é", "\xa0", "<", ","}
	mcx.Seqs(len(chars), 2, 3, func(idx []int) {
		var x string
		for _, i := range idx {
			x += chars[i]
		}
		name(x)
	})
	for _, n := range []int{63, 64, 127, 128, 129, 255, 256, 1023, 1024, 16383, 16384, 65535, 65536, 300001} {
		name(fmt.Sprintf("%0*d ", n-1, 7))
	}

	c.Group("every tree of a file of another writer")
	for n := 1; n <= max-1; n++ {
		shapes(n, func(base *spec.Type) {
			// inner nodes with one child may be lists, with two maps
			flat := base.Flat()
			var alts []int
			for i, x := range flat {
				if len(x.Kids) == 1 || len(x.Kids) == 2 {
					alts = append(alts, i)
				}
			}
			for m := 0; m < 1<<uint(len(alts)); m++ {
				ty := base.Clone()
				f := ty.Flat()
				for i, a := range alts {
					if m>>uint(i)&1 != 0 {
						x := f[a]
						x.Names = nil
						x.Kind = spec.LIST
						if len(x.Kids) == 2 {
							x.Kind = spec.MAP
						}
					}
				}
				for i, l := range leavesOf(ty) {
					l.Names = nil
					l.Kind = []spec.Kind{spec.INT, spec.STRING, spec.BOOLEAN, spec.DOUBLE}[i%4]
				}
				rows := rowsFor(ty, 3)
				c.Do(func() string { return fmt.Sprint(n, ty, m) }, func(t *mcx.T) {
					d := memf.New(spec.Write(ty, rows, spec.WOpt{Block: 1 << 12, Zlib: m%2 == 1}))
					r, err := orc.VerifReader(d.Handle())
					if err != nil {
						t.Failf("open: %v", err)
					}
					checkSchema(t, "read", r.GetSchema(), ty)
					r.Close()
					checkRead(t, d, ty, rows)
				})
			}
		})
	}
	c.Group("batches are made like the schema")
	for n := 1; n <= max-1; n++ {
		shapes(n, func(base *spec.Type) {
			flat := base.Flat()
			var alts []int
			for i, x := range flat {
				if len(x.Kids) == 1 || len(x.Kids) == 2 {
					alts = append(alts, i)
				}
			}
			for m := 0; m < 1<<uint(len(alts)); m++ {
				ty := base.Clone()
				f := ty.Flat()
				for i, a := range alts {
					if m>>uint(i)&1 != 0 {
						f[a].Names, f[a].Kind = nil, spec.LIST
						if len(f[a].Kids) == 2 {
							f[a].Kind = spec.MAP
						}
					}
				}
				for i, l := range leavesOf(ty) {
					if i%5 != 4 { // a struct without columns otherwise
						l.Names = nil
						l.Kind = []spec.Kind{spec.INT, spec.DECIMAL, spec.TIMESTAMP, spec.STRING}[i%4]
					}
				}
				for mask := -1; mask < 1<<uint(n); mask++ {
					mask := mask
					c.Do(func() string { return fmt.Sprint(n, ty, m, " ", mask) }, func(t *mcx.T) {
						for o := 0; o < 8; o++ {
							likeSchema(t, ty, mask, o&1 != 0, o&2 != 0, 1+o>>2*4)
						}
					})
				}
			}
		})
	}
	c.Group("trees that were not numbered")
	for n := 2; n <= max; n++ {
		shapes(n, func(ty *spec.Type) {
			for k := 1; k < n; k++ {
				k := k
				c.Do(func() string { return fmt.Sprint(ty, k) }, func(t *mcx.T) {
					td := toAPI(ty)
					if err := api.NormalizeSchema(td); err != nil {
						t.Failf("%v", err)
					}
					flat, err := td.Flat()
					if err != nil {
						t.Failf("%v", err)
					}
					flat[k].Id = 0 // was added after
					t.Step(1)
					if l, err := td.Flat(); err == nil {
						t.Failf("Flat returns %d columns, column %d of them has no number; %s", len(l), k, ty)
					}
				})
			}
		})
	}
	c.Group("numbering is independent of earlier calls")
	for n := 1; n <= max; n++ {
		shapes(n, func(ty *spec.Type) {
			for old := 0; old < 4; old++ {
				for kinds := 0; kinds < 3; kinds++ {
					ty, old, kinds := ty, old, kinds
					c.Do(func() string { return fmt.Sprint(ty, old, kinds) }, func(t *mcx.T) {
						ty := ty.Clone()
						for i, x := range ty.Flat() {
							if kinds == 1 && len(x.Kids) == 1 || kinds == 2 && len(x.Kids) > 0 && i%2 == 1 {
								x.Kind, x.Names = spec.LIST, nil
							}
							if kinds == 2 && len(x.Kids) == 2 {
								x.Kind, x.Names = spec.MAP, nil
							}
						}
						td := schema(ty)
						flat := all(td)
						for i, x := range flat { // whatever the ids are before
							x.Id = []uint32{0, 5, uint32(len(flat) - i), uint32(i)}[old]
						}
						for round := 0; round < 2; round++ {
							if err := api.NormalizeSchema(td); err != nil {
								t.Failf("NormalizeSchema: %v", err)
							}
							checkSchema(t, "normalized", td, ty)
						}
						// of a subtree, of a grown tree and of the tree again
						for i, x := range flat {
							sub := ty.Flat()[i].Clone()
							if err := api.NormalizeSchema(x); err != nil {
								t.Failf("NormalizeSchema: %v", err)
							}
							checkSchema(t, "subtree", x, sub)
						}
						if ty.Kind == spec.STRUCT {
							td.AddChild("new", &api.TypeDescription{Kind: pb.Type_INT, Id: 3})
							g := ty.Clone()
							g.Kids = append(g.Kids, spec.T(spec.INT))
							g.Names = append(g.Names, "new")
							ty = g.Number()
						}
						if err := api.NormalizeSchema(td); err != nil {
							t.Failf("NormalizeSchema: %v", err)
						}
						checkSchema(t, "grown", td, ty)
						t.StateS(ty.String())
					})
				}
			}
		})
	}
}

func all(td *api.TypeDescription) (l []*api.TypeDescription) {
	l = append(l, td)
	for _, c := range td.Children {
		l = append(l, all(c)...)
	}
	return
}
