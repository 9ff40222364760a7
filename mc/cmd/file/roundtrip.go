package main

import (
	"fmt"
	"time"

	"goorcmc/mcx"
	"goorcmc/memf"
	"goorcmc/spec"

	"github.com/patrickhuang888/goorc/orc"
	"github.com/patrickhuang888/goorc/orc/api"
	"github.com/patrickhuang888/goorc/orc/config"
	"github.com/patrickhuang888/goorc/pb/pb"
)

// C07: what is read from a file is what was written to it.
func C07(c *mcx.Ctx) {
	c.Assume("values are given as the Go types the library documents for each kind; schemas are the ones the writer accepts")
	files(c, false, func(t *mcx.T, w wcase) {
		d := w.write(t)
		checkRead(t, d, w.t, w.rows)
	})
	locations(c)
	oldTimes(c, func(t *mcx.T, ty *spec.Type, rows []Val, w wcase) { checkRead(t, w.write(t), ty, rows) })
	refusals(c)
}

// locations: timestamps come in the location asked for, and are the instants written in it.
func locations(c *mcx.Ctx) {
	c.Group("timestamps in a location")
	locs := []*time.Location{nil, time.UTC, time.Local, time.FixedZone("p8", 8*3600), time.FixedZone("m5", -5*3600-1800)}
	for _, n := range []string{"America/New_York", "Europe/Berlin", "Australia/Lord_Howe", "Pacific/Apia"} {
		if l, err := time.LoadLocation(n); err == nil {
			locs = append(locs, l)
		}
	}
	ty := wrap(spec.T(spec.TIMESTAMP).Null(), spec.T(spec.STRUCT, spec.T(spec.TIMESTAMP)), spec.T(spec.INT))
	list := wrap(spec.T(spec.LIST, spec.T(spec.TIMESTAMP)), spec.T(spec.TIMESTAMP))
	for wi, wl := range locs {
		for ri, rl := range locs {
			for oi, ol := range locs {
				for k := 0; k < 3; k++ { // k: the file is goorc's, goorc's with many stripes, one of lists
					wl, rl, ol, k := wl, rl, ol, k
					if oi != ri && k > 0 {
						continue
					}
					c.Do(func() string { return fmt.Sprint(wi, ri, oi, k) }, func(t *mcx.T) {
						zone := wl
						if zone == nil {
							zone = time.UTC
						}
						var at []time.Time
						var rows []Val
						for y := 1900; y < 2100; y += 3 {
							for _, m := range []time.Month{1, 3, 4, 7, 10, 11} {
								x := time.Date(y, m, 1+y%28, y%24, 30, 59, y%7*123456, zone)
								at = append(at, x)
								a := api.GetTimestamp(x)
								v := spec.TS{Sec: a.Seconds, Nano: a.Nanos}
								if k == 2 {
									rows = append(rows, spec.S{spec.L{v, v}, v})
								} else {
									rows = append(rows, spec.S{v, spec.S{v}, int64(y)})
								}
							}
						}
						var d *memf.Disk
						if k == 2 {
							d = memf.New(spec.Write(list, rows, spec.WOpt{Block: 1 << 12, Stripes: []int{100, len(rows) - 100}}))
						} else {
							d = wcase{ty, rows, nil, wcfg{stripe: []int{0, 1000}[k]}}.write(t)
						}
						r, err := orc.VerifReader(d.Handle())
						if err != nil {
							t.Failf("open: %v", err)
						}
						defer r.Close()
						read := func(l *time.Location) (func() bool, func()) {
							o := &api.BatchOption{RowSize: 64, Loc: l}
							br, err := r.CreateBatchReader(o)
							if err != nil {
								t.Failf("batch reader: %v", err)
							}
							vec, err := r.GetSchema().CreateVector(o)
							if err != nil {
								t.Failf("vector: %v", err)
							}
							if l == nil {
								l = time.Local
							}
							n := 0
							return func() bool {
								end, err := br.Next(vec)
								if err != nil {
									t.Failf("Next: %v", err)
								}
								var walk func(v *api.ColumnVector)
								walk = func(v *api.ColumnVector) {
									for i, x := range v.Vector {
										ts, ok := x.V.(api.Timestamp)
										if !ok {
											continue
										}
										t.Step(1)
										w := at[n+i%vec.Len()]
										if k == 2 && v.Id == 2 {
											w = at[n+i/2]
										}
										if ts.Loc == nil || ts.Loc.String() != l.String() {
											t.Failf("column %d: location %v, asked for %v", v.Id, ts.Loc, l)
										}
										if l.String() == zone.String() && !ts.Time().Equal(w) {
											t.Failf("column %d row %d: %v was written, %v read, both in %v", v.Id, n+i, w, ts.Time(), l)
										}
									}
									for _, k := range v.Children {
										walk(k)
									}
								}
								rows := vec.Len()
								walk(vec)
								n += rows
								if end && n != len(at) {
									t.Failf("%d rows of %d", n, len(at))
								}
								return !end
							}, br.Close
						}
						a, ca := read(rl)
						b, cb := read(ol)
						defer ca()
						defer cb()
						for x, y := true, true; x || y; {
							if x {
								x = a()
							}
							if y {
								y = b()
							}
						}
						t.StateS(fmt.Sprint(wl, rl, ol, k))
					})
				}
			}
		}
	}
}

// checkRead reads everything and compares.
func checkRead(t *mcx.T, d *memf.Disk, ty *spec.Type, rows []Val) {
	r, err := orc.VerifReader(d.Handle())
	if err != nil {
		t.Failf("open: %v; rows %s", err, spec.ShowAll(rows))
	}
	defer r.Close()
	if n := r.NumberOfRows(); n != uint64(len(rows)) {
		t.Failf("NumberOfRows is %d, written %d", n, len(rows))
	}
	rt := asWritten(ty)
	s, err := batchReader(r, rt, ropt{cap: len(rows) + 3})
	if err != nil {
		t.Failf("%v; rows %s", err, spec.ShowAll(rows))
	}
	defer s.close()
	got, err := s.rest(len(rows) + 5)
	if err != nil {
		t.Failf("reading back %s of %s: %v", spec.ShowAll(rows), ty, err)
	}
	t.Step(len(rows) + 2)
	if x := diff(rows, got); x != "" {
		t.Failf("%s; written %s of %s", x, spec.ShowAll(rows), ty)
	}
	t.StateS(ty.String() + spec.ShowAll(rows))
}

// asWritten: the reader knows nothing of nulls but what the file says; the harness only needs ids and kinds.
func asWritten(t *spec.Type) *spec.Type { return t }

// refusals: what cannot be written must be refused by NewWriter or Write.
func refusals(c *mcx.Ctx) {
	c.Group("unsupported types are refused")
	i, s := spec.T(spec.INT), spec.T(spec.STRING)
	bad := []*spec.Type{
		spec.T(spec.LIST, i), spec.T(spec.MAP, s, i), spec.T(spec.UNION, i, s),
		spec.T(spec.STRUCT, spec.T(spec.LIST, i)), spec.T(spec.STRUCT, i, spec.T(spec.MAP, i, i)), spec.T(spec.STRUCT, spec.T(spec.UNION, i)),
		spec.T(spec.STRUCT, spec.T(spec.STRUCT, spec.T(spec.LIST, spec.T(spec.STRUCT, i)))),
		spec.T(spec.LIST, spec.T(spec.LIST, i)), spec.T(spec.LIST), spec.T(spec.MAP), spec.T(spec.UNION),
		spec.T(spec.STRUCT, spec.T(spec.Kind(18))), spec.T(spec.Kind(99)),
		spec.T(spec.INT, i), spec.T(spec.STRUCT, spec.T(spec.STRING, i, s)),
	}
	for x, b := range bad {
		b := b.Clone()
		c.Do(func() string { return fmt.Sprintf("%d %s", x, b) }, func(t *mcx.T) {
			td := schema(b)
			api.NormalizeSchema(td)
			o := config.DefaultWriterOptions()
			if w, err := orc.VerifWriter(td, o, memf.New(nil).Handle()); err == nil {
				if err = w.Write(&api.ColumnVector{Kind: td.Kind}); err == nil {
					t.Failf("writer for %s was made and writes", b)
				}
			}
			t.Step(1)
		})
	}
	c.Group("names and ids are stored or refused")
	for n := 2; n <= 4; n++ {
		shapes(n, func(base *spec.Type) {
			for _, l := range leavesOf(base) {
				l.Kind, l.Names = spec.INT, nil
			}
			rows := rowsFor(base, 3)
			for id := 0; id < base.Size; id++ {
				for how, f := range []func(x *api.TypeDescription){
					func(x *api.TypeDescription) { x.ChildrenNames = nil },
					func(x *api.TypeDescription) {
						if n := len(x.ChildrenNames); n > 0 {
							x.ChildrenNames = x.ChildrenNames[:n-1]
						}
					},
					func(x *api.TypeDescription) { x.ChildrenNames = append(x.ChildrenNames, "more") },
					func(x *api.TypeDescription) {
						for i := range x.ChildrenNames {
							x.ChildrenNames[i] = "same"
						}
					},
					func(x *api.TypeDescription) { x.Id++ },
					func(x *api.TypeDescription) { x.Id = 0 },
					func(x *api.TypeDescription) { x.Id = 1 << 31 },
					func(x *api.TypeDescription) { x.AddChild("child", &api.TypeDescription{Id: 9, Kind: pb.Type_INT}) },
					func(x *api.TypeDescription) {
						if n := len(x.Children); n > 0 {
							x.Children = x.Children[:n-1]
						}
					},
					func(x *api.TypeDescription) {
						if n := len(x.Children); n > 1 {
							x.Children[n-1] = x.Children[0]
						}
					},
				} {
					base, id, how, f := base.Clone(), id, how, f
					c.Do(func() string { return fmt.Sprint(base, id, how) }, func(t *mcx.T) {
						td := toAPI(base)
						flat, err := td.Flat()
						if err != nil {
							t.Failf("%v", err)
						}
						f(flat[id])
						d := memf.New(nil)
						w, err := orc.VerifWriter(td, plain.opts(), d.Handle())
						t.Step(1)
						if err != nil {
							t.StateS("refused")
							return
						}
						t.Step(2)
						if w.Write(toVec(base, rows, nil)) != nil || w.Close() != nil {
							t.StateS("refused")
							return
						}
						checkRead(t, d, base, rows)
						r, err := orc.VerifReader(d.Handle())
						if err != nil {
							t.Failf("open: %v", err)
						}
						defer r.Close()
						if g, w := treeString(r.GetSchema()), treeString(td); g != w {
							t.Failf("schema is %s, it was %s", g, w)
						}
						t.StateS(treeString(td))
					})
				}
			}
		})
	}
	c.Group("encodings are written or refused")
	for _, leaf := range leafTypes() {
		for e := 0; e < 5; e++ {
			leaf, e := leaf.Clone(), e
			c.Do(func() string { return fmt.Sprintf("%s encoding %d", leaf, e) }, func(t *mcx.T) {
				ty := wrap(leaf)
				td := toAPI(ty)
				td.Children[0].Encoding = pb.ColumnEncoding_Kind(e)
				d := memf.New(nil)
				w, err := orc.VerifWriter(td, plain.opts(), d.Handle())
				t.Step(1)
				if err != nil {
					t.StateS("refused")
					return
				}
				rows := colRows(alphabet(leaf))
				if err := w.Write(toVec(ty, rows, nil)); err != nil {
					t.StateS("refused")
					return
				}
				if err := w.Close(); err != nil {
					t.StateS("refused")
					return
				}
				checkRead(t, d, ty, rows)
			})
		}
	}
	c.Group("compressions are written or refused")
	for k := -1; k < 8; k++ {
		for _, chunk := range []int{-1, 0, 1, 1 << 10, 1<<23 - 1, 1 << 23, 1 << 40} {
			k, chunk := k, chunk
			c.Do(func() string { return fmt.Sprintf("kind %d chunk %d", k, chunk) }, func(t *mcx.T) {
				ty := wrap(i, s.Null())
				rows := []Val{spec.S{int64(1), "a"}, spec.S{int64(2), nil}}
				o := config.DefaultWriterOptions()
				o.CompressionKind = pb.CompressionKind(k)
				o.ChunkSize = chunk
				d := memf.New(nil)
				t.Step(1)
				w, err := orc.VerifWriter(toAPI(ty), o, d.Handle())
				if err == nil {
					if err = w.Write(toVec(ty, rows, nil)); err == nil {
						err = w.Close()
					}
				}
				if err != nil {
					if (k == 0 || k == 1) && chunk >= 1 && chunk < 1<<23 {
						t.Failf("supported compression: %v", err)
					}
					return
				}
				checkRead(t, d, ty, rows)
			})
		}
	}
	c.Group("batches that do not fit the schema are refused")
	vec := func(id uint32, k pb.Type_Kind, n int, kids ...*api.ColumnVector) *api.ColumnVector {
		v := &api.ColumnVector{Id: id, Kind: k, Children: kids}
		for j := 0; j < n; j++ {
			v.Vector = append(v.Vector, api.Value{V: int32(j)})
		}
		return v
	}
	str, in := pb.Type_STRUCT, pb.Type_INT
	null := vec(1, in, 2)
	null.Vector[1] = api.Value{Null: true}
	ty := wrap(i, i)
	for x, v := range []*api.ColumnVector{
		vec(0, str, 0),
		vec(0, str, 0, vec(1, in, 2)),
		vec(0, str, 0, vec(1, in, 2), vec(2, in, 1)),
		vec(0, str, 0, vec(1, in, 1), vec(2, in, 2)),
		vec(0, str, 0, vec(2, in, 2), vec(1, in, 2)),
		vec(0, str, 0, vec(1, in, 2), vec(1, in, 2)),
		vec(0, str, 0, vec(1, in, 2), vec(2, pb.Type_LONG, 2)),
		vec(0, str, 0, vec(1, in, 2), vec(2, in, 2), vec(3, in, 2)),
		vec(0, str, 3, vec(1, in, 2), vec(2, in, 2)),
		vec(0, str, 0, vec(1, in, 2, vec(2, in, 2)), vec(2, in, 2)),
		vec(1, in, 2),
		vec(0, str, 0, null, vec(2, in, 2)),
	} {
		x, v := x, v
		c.Do(func() string { return fmt.Sprint(x) }, func(t *mcx.T) {
			d := memf.New(nil)
			w, err := orc.VerifWriter(toAPI(ty), plain.opts(), d.Handle())
			if err != nil {
				t.Failf("new writer: %v", err)
			}
			if err := w.Write(toVec(ty, []Val{spec.S{int64(7), int64(8)}}, nil)); err != nil {
				t.Failf("write: %v", err)
			}
			if err := w.Write(v); err == nil {
				t.Failf("batch %d was written", x)
			}
			t.Step(2)
			if err := w.Close(); err != nil {
				t.StateS("closed with an error")
				return
			}
			// closing succeeded: the rows before must be there, the refused ones not
			checkRead(t, d, ty, []Val{spec.S{int64(7), int64(8)}})
		})
	}
}

func treeString(x *api.TypeDescription) string {
	s := fmt.Sprintf("%d:%v(", x.Id, x.Kind)
	if x.Kind == pb.Type_STRUCT { // nothing else has names
		s += fmt.Sprintf("%q", x.ChildrenNames)
	}
	for _, k := range x.Children {
		s += treeString(k)
	}
	return s + ")"
}

// oldTimes: times around 1970 and around the base of time stamps, alone and together.
func oldTimes(c *mcx.Ctx, check func(t *mcx.T, ty *spec.Type, rows []Val, w wcase)) {
	c.Group("times around 1970 and the base")
	ty := wrap(spec.T(spec.TIMESTAMP), spec.T(spec.TIMESTAMP).Null())
	for _, cfg := range []wcfg{{}, {zlib: true, chunk: 64}, {stripe: 1}, {index: true, stride: 3}} {
		var all []Val
		for _, s := range oldSeconds {
			for _, n := range oldNanos {
				v := spec.TS{Sec: s, Nano: n}
				all = append(all, spec.S{v, v}, spec.S{v, nil})
				w := wcase{ty, []Val{spec.S{v, v}}, nil, cfg}
				c.Do(func() string { return fmt.Sprint(v, cfg) }, func(t *mcx.T) { check(t, ty, w.rows, w) })
			}
		}
		w := wcase{ty, all, nil, cfg}
		c.Do(func() string { return fmt.Sprint("all ", cfg) }, func(t *mcx.T) { check(t, ty, w.rows, w) })
	}
}

var oldSeconds = []int64{-300 * 366 * 86400, -base2015 - 86400, -base2015 - 2, -base2015 - 1, -base2015, -base2015 + 1, -2, -1, 0, 1}

var oldNanos = []uint64{0, 1, 10, 999, 1000, 999999, 1000000, 1000001, 500000000, 999999000, 999999999}

// The specification (Timestamp Columns, ORC-763): a time before 1970 with more than 999,999 nanoseconds has a second more in
// the file than it is.
func secondOff(v spec.TS) bool { return base2015+v.Sec < 0 && v.Nano > 999999 }
