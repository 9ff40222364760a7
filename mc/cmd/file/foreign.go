package main

import (
	"fmt"
	"os"
	"path/filepath"

	"goorcmc/mcx"
	"goorcmc/memf"
	"goorcmc/spec"

	"github.com/patrickhuang888/goorc/orc"
)

// checkForeign writes a file with the harness's writer, makes sure that the harness's strict reader reads it
// (it is a valid file), and compares what the library reads.
func checkForeign(t *mcx.T, ty *spec.Type, rows []Val, o spec.WOpt, cp int) {
	b := spec.Write(ty, rows, o)
	d := memf.New(b)
	got, err := readFile(d, ty, ropt{cap: cp}, len(rows)+2)
	t.Step(len(rows) + 1)
	if err != nil {
		t.Failf("%v; rows %s of %s", err, spec.ShowAll(rows), ty)
	}
	if x := diff(rows, got); x != "" {
		t.Failf("%s; rows %s of %s", x, spec.ShowAll(rows), ty)
	}
	t.StateS(ty.String() + spec.ShowAll(rows))
}

// selfCheck binds writer and reader of the harness to each other.
func selfCheck(t *mcx.T, ty *spec.Type, rows []Val, o spec.WOpt) {
	f, err := spec.Read(spec.Write(ty, rows, o))
	if err != nil {
		panic(fmt.Sprintf("harness: %v", err))
	}
	if x := diff(rows, f.Rows); x != "" {
		panic("harness: " + x)
	}
}

var intModes = []struct {
	name string
	f    func([]uint64, bool) []spec.Seg
}{{"plain", spec.IntsPlain}, {"direct1", spec.IntsDirect(1)}, {"direct5", spec.IntsDirect(5)}, {"delta", spec.IntsDelta}}

// C14: files of other writers.
func C14(c *mcx.Ctx) {
	c.Assume("the harness's ORC writer (mc/spec) stands for other writers; its files are read back by the harness's own strict reader, and that reader reads the files of the ORC project in /repo/testing like the library")
	c.Assume("time stamps are compared as seconds since 2015 and nanoseconds, in UTC")

	c.Group("all freedoms of the file layout")
	st := spec.STRUCT
	typs := []*spec.Type{
		wrap(spec.T(spec.INT).Null(), spec.T(spec.STRING).WithDict().Null(), spec.T(st, spec.T(spec.BOOLEAN).Null()).Null()),
		listTypes()[3], listTypes()[7],
	}
	if c.Thorough {
		typs = append(typs, listTypes()[1], listTypes()[2], everything(true), batchTypes()[3])
	}
	for ti, ty := range typs {
		n := 9
		rows := mixed0(ty, n)
		if ty.Size > 15 {
			rows = nil
			for i := 0; i < n; i++ {
				rows = append(rows, everyRow(ty, i, true))
			}
		}
		for flags := 0; flags < 256; flags++ {
			on := func(i uint) bool { return flags>>i&1 != 0 }
			for ci, cmp := range []spec.WOpt{{Block: 1 << 18}, {Zlib: true, Block: 1 << 18}, {Zlib: true, Block: 7, Mode: "o"}, {Zlib: true, Block: 40, Mode: "ods"}, {Zlib: true, Block: 1 << 12, Cuts: []int{1, 5, 2}, Mode: "do"}} {
				if ci > 0 && !c.Thorough && flags%3 != 0 {
					continue
				}
				for im, ints := range intModes {
					for sm, stripes := range [][]int{{n}, {4, n - 4}} {
						for _, stride := range []int{0, 2} {
							if !c.Thorough && (flags+ci+im+sm)%2 == 1 && stride == 0 {
								continue
							}
							o := cmp
							o.Ints, o.Stripes, o.Stride = ints.f, stripes, stride
							o.Always, o.Omit, o.Bloom, o.Reverse, o.EdgeOld = on(0), on(1), on(2) && stride > 0, on(3), on(4)
							o.NoStats, o.NoBlock, o.Flip = on(5), on(6) && o.Block == 1<<18, on(7)
							o.Loose = im%2 == 1
							if on(2) {
								o.Meta = 37
							}
							if on(4) {
								o.Gap = 5
							}
							if on(3) {
								o.Lits = 1 + im
							}
							c.Do(func() string { return fmt.Sprint(ti, " ", flags, ci, im, sm, stride) }, func(t *mcx.T) {
								if flags%16 == 5 {
									selfCheck(t, ty, rows, o)
								}
								checkForeign(t, ty, rows, o, 4)
							})
						}
					}
				}
			}
		}
	}

	c.Group("long tails")
	for _, user := range []int{0, 100, 16000, 16100, 16200, 16250, 16300, 16384, 16500, 40000, 300000} {
		for _, meta := range []int{0, 50, 17000} {
			for _, z := range []bool{false, true} {
				for _, fine := range []int{0, 1, 2, 3, 7, 20} {
					o := spec.WOpt{Zlib: z, Block: 1 << 14, User: user + fine, Meta: meta}
					c.Do(func() string { return fmt.Sprint(user, fine, meta, z) }, func(t *mcx.T) { checkForeign(t, typs[0], mixed0(typs[0], 5), o, 10) })
				}
			}
		}
	}

	c.Group("every footer length around the first read")
	for user := 16384 - 260; user < 16384+10; user++ {
		user := user
		c.Do(func() string { return fmt.Sprint(user) }, func(t *mcx.T) {
			checkForeign(t, wrap(spec.T(spec.INT)), []Val{spec.S{int64(3)}}, spec.WOpt{Block: 1 << 12, User: user}, 3)
		})
	}

	c.Group("postscripts of every length")
	for n := 0; n <= 225; n++ {
		for _, user := range []int{0, 16000} {
			n, user := n, user
			c.Do(func() string { return fmt.Sprint(n, user) }, func(t *mcx.T) {
				checkForeign(t, wrap(spec.T(spec.INT)), []Val{spec.S{int64(3)}}, spec.WOpt{Block: 1 << 12, PS: n, User: user}, 3)
			})
		}
	}

	c.Group("every short sequence of lists and maps")
	for ti, ty := range []*spec.Type{
		wrap(spec.T(spec.LIST, spec.T(spec.INT).Null()).Null()),
		wrap(spec.T(spec.MAP, spec.T(spec.STRING), spec.T(spec.BOOLEAN).Null()).Null()),
		wrap(spec.T(spec.LIST, spec.T(spec.LIST, spec.T(spec.STRING)).Null())),
		wrap(spec.T(spec.LIST, spec.T(st, spec.T(spec.BYTE)).Null()), spec.T(spec.INT)),
		wrap(spec.T(st, spec.T(spec.LIST, spec.T(spec.DOUBLE))).Null()),
		wrap(spec.T(st, spec.T(st, spec.T(spec.INT).Null()).Null()).Null()),
		wrap(spec.T(st, spec.T(spec.BOOLEAN).Null(), spec.T(st, spec.T(spec.STRING).WithDict()).Null()).Null()),
		wrap(spec.T(st, spec.T(spec.LIST, spec.T(spec.TIMESTAMP).Null()).Null()).Null(), spec.T(spec.INT)),
		wrap(spec.T(spec.LIST, spec.T(st, spec.T(st, spec.T(spec.DECIMAL).Null()).Null()).Null()).Null()),
	} {
		ty := ty
		ch := deepChoices(ty.Kids[0], 2)
		limit := 12000
		if c.Thorough {
			limit = 300000
		}
		n, tot := 0, 1
		for tot*len(ch) <= limit && n < 6 {
			tot *= len(ch)
			n++
		}
		mcx.Seqs(len(ch), 0, n, func(idx []int) {
			var rows []Val
			for i, x := range idx {
				r := spec.S{ch[x]}
				for len(r) < len(ty.Kids) {
					r = append(r, int64(i))
				}
				rows = append(rows, r)
			}
			for k, o := range []spec.WOpt{{Block: 1 << 12}, {Zlib: true, Block: 3, Mode: "o", Stride: 1}, {Block: 1 << 12, Always: true, Omit: true}} {
				cp := 1 + k*2
				if len(rows) > 1 && k == 0 {
					o.Stripes = []int{1, len(rows) - 1}
				}
				c.Do(func() string { return fmt.Sprint(ti, idx, k) }, func(t *mcx.T) { checkForeign(t, ty, rows, o, cp) })
			}
		})
	}

	c.Group("nulls in nulls, every kind")
	b, in := spec.T(spec.BOOLEAN), spec.T(spec.INT)
	for ti, k := range append(leafTypes(), spec.T(st, b, in.Null()), spec.T(spec.LIST, in), spec.T(spec.MAP, in, b.Null())) {
		for _, ty := range []*spec.Type{inNulls(k), wrap(spec.T(spec.LIST, spec.T(st, spec.T(st, k.Null()).Null(), in)).Null()),
			wrap(spec.T(st, spec.T(spec.MAP, b, spec.T(st, k, k.Null()).Null())).Null(), in.Null())} {
			for _, n := range []int{20, 70} {
				rows := scattered(ty, n)
				for oi, o := range []spec.WOpt{{Block: 1 << 12}, {Zlib: true, Block: 9, Mode: "o", Stride: 8, Lits: 2}, {Zlib: true, Block: 300, Mode: "do", Always: true, Stripes: []int{7, n - 7}}, {Block: 1 << 12, Omit: true, Stripes: []int{1, n - 1}}} {
					for _, cp := range []int{1, 3, 64, 100} {
						c.Do(func() string { return fmt.Sprint(ti, ty, n, oi, cp) }, func(t *mcx.T) { checkForeign(t, ty, rows, o, cp) })
					}
				}
			}
		}
	}

	c.Group("long lists")
	for _, n := range []int{1, 2, 127, 511, 512, 513, 1025, 5000} {
		for _, m := range []int{0, 1, 130, 513} {
			for _, nulls := range []bool{false, true} {
				for cp := 1; cp <= 3; cp++ {
					n, m, nulls, cp := n, m, nulls, cp
					c.Do(func() string { return fmt.Sprint(n, m, nulls, cp) }, func(t *mcx.T) {
						ty := wrap(spec.T(spec.LIST, spec.T(spec.LONG).Null()), spec.T(spec.MAP, spec.T(spec.INT), spec.T(spec.STRING).Null()))
						mk := func(k int) Val {
							l, ma := spec.L{}, spec.M{}
							for i := 0; i < k; i++ {
								var v, w Val = hash(i) >> uint(i%60), fmt.Sprint(i * i)
								if nulls && i%3 == 1 {
									v, w = nil, nil
								}
								l = append(l, v)
								ma = append(ma, [2]Val{int64(i), w})
							}
							return spec.S{l, ma}
						}
						checkForeign(t, ty, []Val{mk(n), mk(m), mk(0), mk(n), mk(1)}, spec.WOpt{Block: 1 << 12, Stride: 2, Stripes: []int{3, 2}}, cp)
					})
				}
			}
		}
	}

	c.Group("beyond built-in sizes")
	for _, im := range bigLists() {
		im := im
		for _, cp := range []int{2, 100} {
			cp := cp
			c.Do(func() string { return fmt.Sprint(im.name, " ", cp) }, func(t *mcx.T) {
				got, err := readFile(im.disk(), im.t, ropt{cap: cp}, 50)
				t.Step(1)
				if err != nil {
					t.Failf("%v", err)
				}
				if x := diff(im.rows, got); x != "" {
					t.Failf("%s", x)
				}
				t.StateS(im.name)
			})
		}
	}

	c.Group("runs of every kind in every type")
	lens := []int{1, 2, 3, 9, 10, 11, 130, 511, 512, 513, 700}
	for _, leaf := range leafTypes() {
		for _, p := range []byte("cdDahoxn") {
			for _, n := range lens {
				for im, ints := range intModes {
					for k, o := range []spec.WOpt{{Block: 1 << 12}, {Zlib: true, Block: 64, Mode: "oad", Stride: 50, Cuts: []int{64, 3, 17}}} {
						leaf, p, n := leaf, p, n
						ty := wrap(leaf.Null())
						o.Ints = ints.f
						c.Do(func() string { return fmt.Sprint(leaf, string(p), n, im, k) }, func(t *mcx.T) {
							var v []Val
							for i := 0; i < n; i++ {
								v = append(v, pattern(leaf, p, i))
							}
							checkForeign(t, ty, colRows(v), o, 257)
						})
					}
				}
			}
		}
	}

	c.Group("what is not supported is an error")
	for li, leaf := range append(leafTypes(), spec.T(st, spec.T(spec.INT)), spec.T(spec.LIST, spec.T(spec.INT)), spec.T(spec.MAP, spec.T(spec.INT), spec.T(spec.INT))) {
		for e := 0; e <= 5; e++ {
			for _, null := range []bool{false, true} {
				leaf, e := leaf, e
				if null {
					leaf = leaf.Null()
				}
				ty := wrap(leaf, spec.T(spec.INT))
				c.Do(func() string { return fmt.Sprint(li, leaf, e) }, func(t *mcx.T) {
					rows := mixed0(ty, 5)
					own := -1
					b := spec.Write(ty, rows, spec.WOpt{Block: 1 << 12, Enc: func(x *spec.Type) int {
						if x.ID == 1 {
							return e
						}
						return -1
					}})
					if ok, err := spec.Read(spec.Write(ty, rows, spec.WOpt{Block: 1 << 12})); err == nil {
						own = ok.Stripes[0].Encoding[1]
					}
					got, err := readFile(memf.New(b), ty, ropt{cap: 10}, 10)
					t.Step(1)
					if own == e {
						if err != nil || diff(rows, got) != "" {
							t.Failf("encoding %d of %s: %v %s", e, leaf, err, diff(rows, got))
						}
						return
					}
					if err == nil {
						t.Failf("a column %s of encoding %d was read: %s", leaf, e, spec.ShowAll(got))
					}
					t.StateS(err.Error())
				})
			}
		}
	}
	for comp := 0; comp < 9; comp++ {
		for _, z := range []bool{false, true} {
			for ti, ty := range typs[:2] {
				comp, z := comp, z
				c.Do(func() string { return fmt.Sprint("compression ", comp, z, ti) }, func(t *mcx.T) {
					rows := mixed0(ty, 5)
					b := spec.Write(ty, rows, spec.WOpt{Zlib: z, Block: 1 << 12, Comp: comp + 1, Mode: "d"})
					got, err := readFile(memf.New(b), ty, ropt{cap: 10}, 10)
					t.Step(1)
					if z == (comp == 1) && comp < 2 {
						if err != nil || diff(rows, got) != "" {
							t.Failf("compression %d: %v %s", comp, err, diff(rows, got))
						}
						return
					}
					if err == nil {
						t.Failf("compression %d was read: %s", comp, spec.ShowAll(got))
					}
					t.StateS(err.Error())
				})
			}
		}
	}
	for k := 0; k < 25; k++ {
		for _, where := range []int{0, 1, 2} {
			k, where := k, where
			c.Do(func() string { return fmt.Sprint("kind ", k, where) }, func(t *mcx.T) {
				if k <= int(spec.CHAR) && k != int(spec.UNION) {
					return
				}
				x := spec.T(spec.Kind(k), spec.T(spec.INT))
				if k > int(spec.CHAR) {
					x = spec.T(spec.Kind(k))
				}
				ty := wrap(spec.T(spec.INT), x)
				switch where {
				case 1:
					ty = wrap(spec.T(st, x), spec.T(spec.INT))
				case 2:
					ty = wrap(spec.T(spec.LIST, x))
				}
				real := ty.Clone()
				for _, y := range real.Flat() {
					if y.Kind == spec.Kind(k) {
						y.Kind = spec.INT
						if k == int(spec.UNION) {
							y.Kind = spec.STRUCT
							y.Names = []string{"a"}
						}
					}
				}
				b := spec.Write(real, mixed0(real, 3), spec.WOpt{Block: 1 << 12, TypeKind: func(id int) int { return int(ty.Flat()[id].Kind) }})
				got, err := readFile(memf.New(b), ty, ropt{cap: 10}, 10)
				t.Step(1)
				if err == nil {
					t.Failf("a column of kind %d was read: %s", k, spec.ShowAll(got))
				}
				t.StateS(err.Error())
			})
		}
	}

	c.Group("times before 1970")
	for _, cfg := range []spec.WOpt{{Block: 1 << 12}, {Zlib: true, Block: 64}, {Block: 1 << 12, Stride: 2}} {
		for _, s := range oldSeconds {
			for _, n := range oldNanos {
				v, cfg := spec.TS{Sec: s, Nano: n}, cfg
				c.Do(func() string { return fmt.Sprint(v, cfg.Zlib, cfg.Stride) }, func(t *mcx.T) {
					ty := wrap(spec.T(spec.TIMESTAMP))
					want := v
					if secondOff(v) {
						want.Sec--
					}
					got, err := readFile(memf.New(spec.Write(ty, []Val{spec.S{v}}, cfg)), ty, ropt{cap: 3}, 3)
					t.Step(2)
					if err != nil {
						t.Failf("%v", err)
					}
					if diff([]Val{spec.S{want}}, got) != "" && diff([]Val{spec.S{v}}, got) == "" {
						t.Failf("time before 1970 is a second late: read %v", v)
					}
					if x := diff([]Val{spec.S{want}}, got); x != "" {
						t.Failf("%s; %v in the file", x, v)
					}
					t.StateS(fmt.Sprint(v))
				})
			}
		}
	}

	c.Group("files of the ORC project, library against the harness's reader")
	paths, _ := filepath.Glob("/repo/testing/*.orc")
	for _, p := range paths {
		b, err := os.ReadFile(p)
		if err != nil {
			continue
		}
		p := p
		for _, cp := range []int{1, 1000, 10000} {
			cp := cp
			c.Do(func() string { return fmt.Sprint(filepath.Base(p), cp) }, func(t *mcx.T) {
				f, err := spec.Read(b)
				if err != nil {
					t.Failf("not read by the harness: %v", err)
				}
				if len(f.Rows) > 3000*cp {
					return
				}
				ty := f.Root
				r, err := orc.VerifReader(memf.New(b).Handle())
				if err != nil {
					t.Failf("open: %v", err)
				}
				defer r.Close()
				checkSchema(t, "read", r.GetSchema(), ty)
				s, err := batchReader(r, ty, ropt{cap: cp})
				if err != nil {
					t.Failf("%v", err)
				}
				defer s.close()
				got, err := s.rest(len(f.Rows))
				if err != nil {
					t.Failf("%v", err)
				}
				if x := diff(f.Rows, got); x != "" {
					t.Failf("%s", x)
				}
				t.Info(fmt.Sprintf("%d rows equal", len(got)))
				t.StateS(p)
			})
		}
	}
}

// deepChoices lists values of a type, lists and maps up to n entries.
func deepChoices(t *spec.Type, n int) (l []Val) {
	switch t.Kind {
	case spec.STRUCT:
		l = []Val{spec.S{}}
		for _, k := range t.Kids {
			var x []Val
			for _, a := range l {
				for _, b := range deepChoices(k, n) {
					x = append(x, append(append(spec.S{}, a.(spec.S)...), b))
				}
			}
			l = x
		}
	case spec.LIST:
		ch := deepChoices(t.Kids[0], 1)
		mcx.Seqs(len(ch), 0, n, func(idx []int) {
			v := spec.L{}
			for _, i := range idx {
				v = append(v, ch[i])
			}
			l = append(l, v)
		})
	case spec.MAP:
		ch := deepChoices(t.Kids[1], 1)
		mcx.Seqs(len(ch), 0, n, func(idx []int) {
			v := spec.M{}
			for i, x := range idx {
				v = append(v, [2]Val{value(t.Kids[0], int64(i)+1), ch[x]})
			}
			l = append(l, v)
		})
	default:
		l = append(l, alphabet(t)[0])
	}
	if t.Nullable {
		l = append(l, nil)
	}
	return
}
