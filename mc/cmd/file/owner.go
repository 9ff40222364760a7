package main

import (
	"bytes"
	"fmt"

	"goorcmc/mcx"
	"goorcmc/memf"
	"goorcmc/spec"

	"github.com/patrickhuang888/goorc/orc"
	"github.com/patrickhuang888/goorc/orc/api"
)

// ruin changes everything a caller can reach in a batch. how: 1 contents of byte slices, 2 values, 3 also the vectors.
func ruin(v *api.ColumnVector, how int) {
	for i := range v.Vector {
		if b, ok := v.Vector[i].V.([]byte); ok {
			for j := range b {
				b[j] ^= 0x5a
			}
			b = b[:cap(b)]
			for j := range b {
				b[j] ^= 0x33
			}
		}
		if how >= 2 {
			v.Vector[i] = api.Value{Null: !v.Vector[i].Null, V: "ruined"}
		}
	}
	if how >= 2 {
		x := v.Vector[:cap(v.Vector)]
		for i := range x {
			x[i] = api.Value{Null: i%2 == 0, V: int32(-7)}
		}
	}
	for _, c := range v.Children {
		ruin(c, how)
	}
	if how >= 3 {
		v.Vector = append(v.Vector[:0], api.Value{V: "x"})
		v.Children = append([]*api.ColumnVector{{Id: 99}}, v.Children...)
		v.Id, v.Kind = 77, 5
	}
}

// grow appends to every byte slice of a batch.
func grow(v *api.ColumnVector) {
	for i := range v.Vector {
		if b, ok := v.Vector[i].V.([]byte); ok {
			_ = append(b, "grown grown grown grown grown"...)
		}
	}
	for _, c := range v.Children {
		grow(c)
	}
}

// refill puts the values of one batch into another one, byte by byte, so that memory is used again.
func refill(dst, src *api.ColumnVector) {
	dst.Id, dst.Kind = src.Id, src.Kind
	old := dst.Vector
	if src.Vector == nil {
		dst.Vector = nil
	} else {
		dst.Vector = append(dst.Vector[:0], src.Vector...)
	}
	for i := range dst.Vector {
		if b, ok := dst.Vector[i].V.([]byte); ok {
			if i < len(old) {
				if o, ok := old[i].V.([]byte); ok && cap(o) >= len(b) {
					o = o[:len(b)]
					copy(o, b)
					dst.Vector[i].V = o
				}
			}
		}
	}
	for i := range src.Children {
		if i >= len(dst.Children) {
			dst.Children = append(dst.Children, &api.ColumnVector{})
		}
		refill(dst.Children[i], src.Children[i])
	}
}

func ownerTypes() (l []*spec.Type) {
	st := spec.STRUCT
	for _, leaf := range leafTypes() {
		l = append(l, wrap(leaf), wrap(leaf.Null()))
	}
	l = append(l,
		wrap(spec.T(spec.BINARY).Null(), spec.T(spec.STRING), spec.T(spec.INT)),
		wrap(spec.T(st, spec.T(spec.BINARY), spec.T(spec.STRING).WithDict()).Null(), spec.T(spec.BINARY)),
		spec.T(spec.BINARY).Clone(),
		everything(true))
	return
}

// ownerRows have bytes that differ in every row.
func ownerRows(ty *spec.Type, n int) (rows []Val) {
	var one func(t *spec.Type, i int) Val
	one = func(t *spec.Type, i int) Val {
		if t.Nullable && i%4 == 2 {
			return nil
		}
		switch t.Kind {
		case spec.STRUCT:
			s := spec.S{}
			for j, k := range t.Kids {
				s = append(s, one(k, i+j))
			}
			return s
		case spec.BINARY:
			return spec.Bin(bytes.Repeat([]byte{byte(i + 1), byte(i * 7)}, 1+i%5))
		case spec.STRING, spec.VARCHAR, spec.CHAR:
			return fmt.Sprint("text", i%3, "-", i%2)
		}
		return value(t, int64(i)*5+1)
	}
	for i := 0; i < n; i++ {
		rows = append(rows, one(ty, i))
	}
	return
}

// C19: batches are the caller's.
func C19(c *mcx.Ctx) {
	c.Group("batches ruined after Write")
	n := 8
	if c.Thorough {
		n = 10
	}
	for ti, ty := range ownerTypes() {
		rows := ownerRows(ty, n)
		for _, cfg := range []wcfg{{}, {zlib: true, chunk: 7}, {stripe: 30}, {index: true, stride: 3}, {stripe: 100, index: true, stride: 2, zlib: true}} {
			if cfg.zlib && ti%5 != 0 && !c.Thorough {
				continue
			}
			mcx.Compositions(n, func(batches []int) {
				if len(batches) > 5 && !c.Thorough {
					return
				}
				for how := 0; how <= 4; how++ {
					how := how
					c.Do(func() string { return fmt.Sprint(ty, cfg, batches, how) }, func(t *mcx.T) {
						good := memf.New(nil)
						if err := writeFile(good, ty, rows, batches, cfg); err != nil {
							t.Failf("%v", err)
						}
						d := memf.New(nil)
						w, err := orc.VerifWriter(toAPI(ty), cfg.opts(), d.Handle())
						if err != nil {
							t.Failf("%v", err)
						}
						var used *api.ColumnVector
						left := rows
						for _, k := range batches {
							v := toVec(ty, left[:k], nil)
							left = left[k:]
							if how == 0 { // one batch for all
								if used == nil {
									used = v
								} else {
									refill(used, v)
								}
								v = used
							}
							before := d.Seq()
							_ = before
							if err := w.Write(v); err != nil {
								t.Failf("%v", err)
							}
							t.Step(1)
							switch {
							case how == 4:
								grow(v)
							case how > 0:
								ruin(v, how)
							}
						}
						if err := w.Close(); err != nil {
							t.Failf("%v", err)
						}
						if !bytes.Equal(d.Data, good.Data) {
							got := "?"
							if f, err := spec.Read(d.Data); err == nil {
								got = diff(rows, f.Rows)
							}
							t.Failf("what was done to the batches after Write changed the file: %s", got)
						}
						t.StateS(fmt.Sprint(ti, cfg, batches, how))
					})
				}
			})
		}
	}

	c.Group("Write does not change the batch")
	for ti, ty := range ownerTypes() {
		for _, cfg := range []wcfg{{}, {stripe: 30}, {index: true, stride: 3, zlib: true}} {
			for b := 1; b <= 4; b++ {
				b := b
				c.Do(func() string { return fmt.Sprint(ty, cfg, b) }, func(t *mcx.T) {
					rows := ownerRows(ty, 8)
					w, err := orc.VerifWriter(toAPI(ty), cfg.opts(), memf.New(nil).Handle())
					if err != nil {
						t.Failf("%v", err)
					}
					var vecs []*api.ColumnVector
					for i := 0; i < len(rows); i += b {
						v := toVec(ty, rows[i:min(i+b, len(rows))], nil)
						vecs = append(vecs, v)
						if err := w.Write(v); err != nil {
							t.Failf("%v", err)
						}
						t.Step(1)
					}
					if err := w.Close(); err != nil {
						t.Failf("%v", err)
					}
					for k, v := range vecs {
						want := rows[k*b : min(k*b+b, len(rows))]
						got, err := fromVec(ty, v, len(want), func(int) bool { return true }, nil)
						if err != nil {
							t.Failf("%v", err)
						}
						if x := diff(want, got); x != "" {
							t.Failf("batch %d was changed: %s", k, x)
						}
					}
					t.StateS(fmt.Sprint(ti, cfg, b))
				})
			}
		}
	}

	// every history of two batch readers of one reader, with batches kept, ruined and appended to
	depth := 4
	if c.Thorough {
		depth = 5
	}
	ops := []string{"A", "B", "a", "s0", "s4", "t3", "ruin", "grow", "x"}
	var images []*image
	c.Group("delivered batches are kept")
	for i, ty := range ownerTypes() {
		if i%2 == 0 && i < 2*len(leafTypes()) {
			continue // those with nulls
		}
		cfgs := []wcfg{{}, {stripe: 60, index: true, stride: 2, zlib: true, chunk: 20}}
		images = append(images, libImage(c, "lib", ty, ownerRows(ty, 7), []int{7}, cfgs[i%2]))
	}
	images = append(images, libImage(c, "lib", ownerTypes()[2*len(leafTypes())], ownerRows(ownerTypes()[2*len(leafTypes())], 7), []int{7}, wcfg{stripe: 60, index: true, stride: 2}))
	for _, ty := range append(listTypes(),
		wrap(spec.T(spec.LIST, spec.T(spec.BINARY).Null()).Null()),
		wrap(spec.T(spec.MAP, spec.T(spec.BINARY), spec.T(spec.STRING).WithDict()))) {
		images = append(images, specImage("spec", ty, mixed0(ty, 7), spec.WOpt{Block: 1 << 12, Stripes: []int{3, 4}, Stride: 2}))
	}
	for _, im := range images {
		im := im
		if im.data == nil {
			continue
		}
		mcx.Seqs(len(ops), 1, depth, func(idx []int) {
			c.Do(func() string { return fmt.Sprint(im.name, " ", idx) }, func(t *mcx.T) { owned(t, im, ops, idx) })
		})
	}
}

type kept struct {
	vec  *api.ColumnVector
	rows []Val
	gone bool
}

func owned(t *mcx.T, im *image, ops []string, idx []int) {
	r, err := orc.VerifReader(im.disk().Handle())
	if err != nil {
		t.Failf("open: %v", err)
	}
	mk := func() *session {
		s, err := batchReader(r, im.t, ropt{cap: 3})
		if err != nil {
			t.Failf("%v", err)
		}
		return s
	}
	s := [2]*session{mk(), mk()}
	pos := [2]int{}
	closed := [2]bool{}
	var batches []*kept
	var last *kept
	again := &kept{gone: true}
	check := func(when string) {
		for k, b := range batches {
			if b.gone {
				continue
			}
			got, err := fromVec(im.t, b.vec, len(b.rows), func(int) bool { return true }, nil)
			if err != nil {
				t.Failf("batch %d after %s: %v", k, when, err)
			}
			if x := diff(b.rows, got); x != "" {
				t.Failf("batch %d was changed by %s: %s", k, when, x)
			}
		}
	}
	next := func(w int, into *kept) {
		if closed[w] {
			return
		}
		if into == nil {
			into = &kept{}
			if err := s[w].newVec(); err != nil {
				t.Failf("%v", err)
			}
			into.vec = s[w].vec
			batches = append(batches, into)
		}
		s[w].vec = into.vec
		into.gone = false
		rows, end, err := s[w].next()
		t.Step(1)
		if err != nil {
			t.Failf("Next: %v", err)
		}
		if pos[w]+len(rows) > len(im.rows) || len(rows) == 0 && !end {
			t.Failf("Next delivered %d rows after %d, end %v", len(rows), pos[w], end)
		}
		if x := diff(im.rows[pos[w]:pos[w]+len(rows)], rows); x != "" {
			t.Failf("Next after row %d: %s", pos[w], x)
		}
		into.rows = im.rows[pos[w] : pos[w]+len(rows)]
		pos[w] += len(rows)
		last = into
	}
	seek := func(w, n int) {
		if closed[w] {
			return
		}
		if err := s[w].br.Seek(uint64(n)); err != nil {
			t.Failf("Seek: %v", err)
		}
		pos[w] = n
		t.Step(1)
	}
	for _, x := range idx {
		op := ops[x]
		switch op {
		case "A":
			next(0, nil)
		case "B":
			next(1, nil)
		case "a": // one batch used again
			if again.vec == nil {
				v, err := r.GetSchema().CreateVector(s[0].bopt)
				if err != nil {
					t.Failf("%v", err)
				}
				again.vec = v
				batches = append(batches, again)
			}
			if len(again.vec.Children) > 0 && again.vec.Children[0].Id == 99 || again.vec.Id == 77 {
				again.vec = nil
				continue
			}
			next(0, again)
		case "s0", "s4":
			seek(0, int(op[1]-'0'))
		case "t3":
			seek(1, 3)
		case "ruin":
			if last != nil {
				ruin(last.vec, 2)
				last.gone = true
			}
		case "grow":
			if last != nil {
				grow(last.vec)
			}
		case "x":
			if !closed[1] {
				s[1].close()
				closed[1] = true
			}
		}
		check(op)
	}
	for w := range s {
		if !closed[w] {
			next(w, nil)
			check("Next")
			s[w].close()
			check("Close")
		}
	}
	r.Close()
	check("Close of the reader")
	t.StateS(fmt.Sprint(im.name, pos, len(batches)))
}
