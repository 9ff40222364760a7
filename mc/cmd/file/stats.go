package main

import (
	"fmt"
	"math"
	"math/big"
	"strings"

	"goorcmc/mcx"
	"goorcmc/memf"
	"goorcmc/spec"

	"github.com/patrickhuang888/goorc/orc"
)

// leafValues collects the values of every column (by id) of the rows; null counts the nulls below non-null parents.
type colVals struct {
	vals  []Val
	nulls int
}

func perColumn(t *spec.Type, rows []Val) []*colVals {
	out := make([]*colVals, t.Size)
	for i := range out {
		out[i] = &colVals{}
	}
	var walk func(t *spec.Type, v Val)
	walk = func(t *spec.Type, v Val) {
		c := out[t.ID]
		if v == nil {
			c.nulls++
			return
		}
		c.vals = append(c.vals, v)
		switch x := v.(type) {
		case spec.S:
			for i, k := range t.Kids {
				walk(k, x[i])
			}
		case spec.L:
			for _, e := range x {
				walk(t.Kids[0], e)
			}
		case spec.M:
			for _, e := range x {
				walk(t.Kids[0], e[0])
				walk(t.Kids[1], e[1])
			}
		}
	}
	for _, r := range rows {
		walk(t, r)
	}
	return out
}

func sint(u uint64) int64 { return int64(u>>1) ^ -int64(u&1) }

var base2015 = int64(1420070400)

// checkStats compares column statistics with the values they are about.
func checkStats(t *spec.Type, m spec.Msg, c *colVals) error {
	if n, ok := m[1]; !ok || n[0].N != uint64(len(c.vals)) {
		return fmt.Errorf("numberOfValues is %v, there are %d", n, len(c.vals))
	}
	if h, ok := m[10]; ok && h[0].N == 0 && c.nulls > 0 {
		return fmt.Errorf("hasNull is false, there are %d nulls", c.nulls)
	}
	sub := func(f int) spec.Msg {
		if len(m[f]) == 0 {
			return nil
		}
		s, err := spec.ParseMsg(m[f][0].B)
		if err != nil {
			return spec.Msg{}
		}
		return s
	}
	// only the statistics of the kind of the column
	own := map[spec.Kind]int{spec.BOOLEAN: 5, spec.BYTE: 2, spec.SHORT: 2, spec.INT: 2, spec.LONG: 2, spec.FLOAT: 3, spec.DOUBLE: 3, spec.STRING: 4,
		spec.VARCHAR: 4, spec.CHAR: 4, spec.BINARY: 8, spec.TIMESTAMP: 9, spec.DECIMAL: 6, spec.DATE: 7, spec.STRUCT: 5}[t.Kind]
	for f := 2; f <= 9; f++ {
		if f != own && len(m[f]) > 0 && t.Kind != spec.STRUCT {
			return fmt.Errorf("statistics field %d recorded for a %s", f, t.Kind)
		}
	}
	s := sub(own)
	if s == nil {
		if own != 0 && t.Kind != spec.STRUCT && len(c.vals) > 0 {
			return fmt.Errorf("no statistics of its kind for a %s with values", t.Kind)
		}
		return nil
	}
	// left out: nothing to say, or it does not fit
	lacks := func(name string, f int, can bool) error {
		if can && len(c.vals) > 0 && len(s[f]) == 0 {
			return fmt.Errorf("no %s of %d values", name, len(c.vals))
		}
		return nil
	}
	ints := func(fmin, fmax, fsum int, get func(Val) int64) error {
		var min, max, sum int64
		bsum, fit := new(big.Int), true // of every partial sum
		for i, v := range c.vals {
			x := get(v)
			if i == 0 || x < min {
				min = x
			}
			if i == 0 || x > max {
				max = x
			}
			bsum.Add(bsum, big.NewInt(x))
			fit = fit && bsum.IsInt64()
		}
		sum = bsum.Int64()
		for _, e := range []struct {
			name string
			f    int
			want int64
			ok   bool
		}{{"minimum", fmin, min, len(c.vals) > 0}, {"maximum", fmax, max, len(c.vals) > 0}, {"sum", fsum, sum, bsum.IsInt64()}} {
			if e.f == 0 {
				continue
			}
			if err := lacks(e.name, e.f, e.ok && (fit || e.f != fsum)); err != nil {
				return err
			}
			if len(s[e.f]) == 0 {
				continue
			}
			if got := sint(s[e.f][0].N); !e.ok || got != e.want {
				return fmt.Errorf("%s is %d, should be %d (%v)", e.name, got, e.want, e.ok)
			}
		}
		return nil
	}
	str := func(f int) (string, bool) {
		if len(s[f]) == 0 {
			return "", false
		}
		return string(s[f][0].B), true
	}
	switch t.Kind {
	case spec.BOOLEAN:
		n := uint64(0)
		for _, v := range c.vals {
			if v.(bool) {
				n++
			}
		}
		if err := lacks("true count", 1, true); err != nil {
			return err
		}
		// packed
		if len(s[1]) > 0 {
			us, err := s.Us(1)
			if err != nil || len(us) != 1 || us[0] != n {
				return fmt.Errorf("true count is %v, should be %d", us, n)
			}
		}
	case spec.BYTE, spec.SHORT, spec.INT, spec.LONG:
		return ints(1, 2, 3, func(v Val) int64 { return v.(int64) })
	case spec.DATE:
		return ints(1, 2, 0, func(v Val) int64 { return v.(int64) })
	case spec.TIMESTAMP:
		get := func(v Val) int64 { x := v.(spec.TS); return (x.Sec+base2015)*1000 + int64(x.Nano/1000000) }
		if err := ints(1, 2, 0, get); err != nil {
			return err
		}
		if err := ints(3, 4, 0, get); err != nil {
			return fmt.Errorf("utc %v", err)
		}
	case spec.BINARY:
		return ints(0, 0, 1, func(v Val) int64 { return int64(len(v.(spec.Bin))) })
	case spec.FLOAT, spec.DOUBLE:
		sum, abs := 0.0, 0.0
		min, max, any := 0.0, 0.0, false
		for _, v := range c.vals {
			var x float64
			if f, ok := v.(spec.F32); ok {
				x = float64(math.Float32frombits(uint32(f)))
			} else {
				x = math.Float64frombits(uint64(v.(spec.F64)))
			}
			sum += x
			abs += math.Abs(x)
			if x == x {
				if !any || x < min {
					min = x
				}
				if !any || x > max {
					max = x
				}
				any = true
			}
		}
		dbl := func(f int) (float64, bool) {
			if len(s[f]) == 0 {
				return 0, false
			}
			return math.Float64frombits(s[f][0].N), true
		}
		for i, n := range []string{"minimum", "maximum", "sum"} {
			if err := lacks(n, i+1, any); err != nil {
				return err
			}
		}
		if g, ok := dbl(1); ok && (!any || g != min) {
			return fmt.Errorf("minimum is %v, should be %v (%v)", g, min, any)
		}
		if g, ok := dbl(2); ok && (!any || g != max) {
			return fmt.Errorf("maximum is %v, should be %v (%v)", g, max, any)
		}
		if g, ok := dbl(3); ok && g != sum && !(g != g && sum != sum) && !(math.Abs(g-sum) <= 1e-9*abs) {
			return fmt.Errorf("sum is %v, should be %v", g, sum)
		}
	case spec.STRING, spec.VARCHAR, spec.CHAR:
		var min, max string
		sum, most := int64(0), 0
		for i, v := range c.vals {
			x := v.(string)
			if len(x) > most {
				most = len(x)
			}
			if i == 0 || x < min {
				min = x
			}
			if i == 0 || x > max {
				max = x
			}
			sum += int64(len(x))
		}
		for i, n := range []string{"minimum", "maximum", "total length"} {
			if err := lacks(n, i+1, i == 2 || most <= 1000); err != nil { // long ones need not be there
				return err
			}
		}
		any := len(c.vals) > 0
		if g, ok := str(1); ok && (!any || g != min) {
			return fmt.Errorf("minimum is %s, should be %s (%v)", spec.Show(g), spec.Show(min), any)
		}
		if g, ok := str(2); ok && (!any || g != max) {
			return fmt.Errorf("maximum is %s, should be %s (%v)", spec.Show(g), spec.Show(max), any)
		}
		if g, ok := str(4); ok && (!any || g > min) {
			return fmt.Errorf("lower bound is %s, minimum is %s (%v)", spec.Show(g), spec.Show(min), any)
		}
		if g, ok := str(5); ok && (!any || g < max) {
			return fmt.Errorf("upper bound is %s, maximum is %s (%v)", spec.Show(g), spec.Show(max), any)
		}
		if len(s[3]) > 0 && sint(s[3][0].N) != sum {
			return fmt.Errorf("total length is %d, should be %d", sint(s[3][0].N), sum)
		}
	case spec.DECIMAL:
		sum := new(big.Rat)
		var min, max *big.Rat
		for _, v := range c.vals {
			x := v.(spec.Dec)
			r := new(big.Rat).SetInt64(x.U)
			p := new(big.Rat).SetInt(new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(abs(x.S))), nil))
			if x.S >= 0 {
				r.Quo(r, p)
			} else {
				r.Mul(r, p)
			}
			if min == nil || r.Cmp(min) < 0 {
				min = r
			}
			if max == nil || r.Cmp(max) > 0 {
				max = r
			}
			sum.Add(sum, r)
		}
		for _, e := range []struct {
			name string
			f    int
			want *big.Rat
		}{{"minimum", 1, min}, {"maximum", 2, max}, {"sum", 3, sum}} {
			g, ok := str(e.f)
			if err := lacks(e.name, e.f, true); err != nil {
				return err
			}
			if !ok {
				continue
			}
			r, ok := new(big.Rat).SetString(g)
			if !ok || strings.ContainsAny(g, "/eE") || e.want == nil || r.Cmp(e.want) != 0 {
				return fmt.Errorf("%s is %q, should be %v", e.name, g, e.want)
			}
		}
	}
	return nil
}

func abs(x int) int {
	if x < 0 {
		return -x
	}
	return x
}

func readBySpec(t *mcx.T, d *memf.Disk, rows []Val) *spec.File {
	f, err := spec.Read(d.Data)
	if err != nil {
		t.Failf("not a valid ORC file: %v; rows %s", err, spec.ShowAll(rows))
	}
	return f
}

func checkFileStats(t *mcx.T, d *memf.Disk, ty *spec.Type, rows []Val) {
	f := readBySpec(t, d, rows)
	cols := perColumn(ty, rows)
	types := ty.Flat()
	if len(f.Stats) != len(types) {
		t.Failf("statistics of %d columns, there are %d", len(f.Stats), len(types))
	}
	disk := make([]uint64, len(types))
	for _, st := range f.Stripes {
		for _, s := range st.Streams {
			if s.Kind < spec.ROW_INDEX {
				disk[s.Col] += s.Len
			}
		}
	}
	r, err := orc.VerifReader(d.Handle())
	if err != nil {
		t.Failf("open: %v", err)
	}
	api := r.GetStatistics()
	r.Close()
	if len(api) != len(types) {
		t.Failf("GetStatistics returns %d columns, there are %d", len(api), len(types))
	}
	for i, x := range types {
		if err := checkStats(x, f.Stats[i], cols[i]); err != nil {
			t.Failf("column %d of %s: %v; values %s", i, ty, err, spec.ShowAll(cols[i].vals))
		}
		if b, ok := f.Stats[i][11]; ok && b[0].N != disk[i] {
			t.Failf("column %d of %s: bytesOnDisk is %d, the streams have %d", i, ty, b[0].N, disk[i])
		}
		if api[i].GetNumberOfValues() != uint64(len(cols[i].vals)) || api[i].GetHasNull() != (len(f.Stats[i][10]) > 0 && f.Stats[i][10][0].N != 0) {
			t.Failf("column %d: GetStatistics returns %v", i, api[i])
		}
		t.StateS(fmt.Sprint(x.Kind, f.Stats[i]))
	}
	t.Step(len(types))
}

// C12: statistics of a file.
func C12(c *mcx.Ctx) {
	c.Assume("a column declared nullable may be reported as having nulls although none were written")
	c.Assume("floating point sums are compared to 1e-9 of the sum of magnitudes; a sum may be left out when one on the way to it does not fit, bounds of strings when one has more than 1000 bytes, those of floating point numbers when all are NaN")
	files(c, true, func(t *mcx.T, w wcase) {
		d := w.write(t)
		checkFileStats(t, d, w.t, w.rows)
	})
	statFiles(c)
}

// statFiles: values at the limits of what statistics can hold, over all stripe splits.
func statFiles(c *mcx.Ctx) {
	c.Group("limits of statistics, every order and stripe split")
	long := func(ch string, n int) string { return strings.Repeat(ch, n) }
	sets := []struct {
		t *spec.Type
		v []Val
	}{
		{spec.T(spec.LONG), []Val{int64(math.MaxInt64), int64(1), int64(-1), int64(math.MinInt64), nil}},
		{spec.T(spec.LONG), []Val{int64(math.MaxInt64), int64(math.MaxInt64), int64(math.MinInt64), int64(math.MinInt64), int64(2)}},
		{spec.T(spec.STRING), []Val{long("b", 1023), long("b", 1024), long("b", 1025), "c", "a"}},
		{spec.T(spec.STRING).WithDict(), []Val{long("b", 1023), long("b", 1024), "c", "a", nil}},
		{spec.T(spec.STRING), []Val{long("a", 2000), long("z", 2000), "m", "", nil}},
		{spec.T(spec.VARCHAR), []Val{long("z", 1024), long("z", 1023), long("a", 1024), long("a", 1023)}},
		{spec.T(spec.DOUBLE), []Val{spec.Float(math.NaN()), spec.Float(1), spec.Float(-1), spec.Float(math.Inf(1)), nil}},
		{spec.T(spec.DOUBLE), []Val{spec.Float(math.MaxFloat64), spec.Float(math.MaxFloat64), spec.Float(-math.MaxFloat64), spec.Float(5e-324)}},
		{spec.T(spec.FLOAT), []Val{spec.Float32(float32(math.NaN())), spec.Float32(math.MaxFloat32), spec.Float32(-3), spec.Float32(0)}},
		{spec.T(spec.DECIMAL), []Val{spec.Dec{U: 1, S: 38}, spec.Dec{U: math.MinInt64, S: 0}, spec.Dec{U: 10, S: 1}, spec.Dec{U: 1, S: 0}, spec.Dec{U: 3, S: -2}}},
		{spec.T(spec.DECIMAL), []Val{spec.Dec{U: 100, S: 2}, spec.Dec{U: 9, S: 1}, spec.Dec{U: -9, S: 1}, spec.Dec{U: -1, S: 0}, nil}},
		{spec.T(spec.DATE), []Val{int64(math.MinInt32 / 4), int64(0), int64(-1), int64(math.MaxInt32 / 4), nil}},
		{spec.T(spec.TIMESTAMP), []Val{spec.TS{Sec: -1, Nano: 999999}, spec.TS{Sec: -base2015, Nano: 0}, spec.TS{Sec: -base2015 - 1, Nano: 999000000}, spec.TS{Sec: 1, Nano: 1000000}, nil}},
		{spec.T(spec.BINARY), []Val{spec.Bin(""), spec.Bin(long("x", 3000)), spec.Bin("a"), nil}},
		{spec.T(spec.BOOLEAN), []Val{true, false, true, nil}},
		{spec.T(spec.BYTE), []Val{int64(-128), int64(127), int64(-1), int64(0), nil}},
	}
	for si, s := range sets {
		ty := wrap(s.t.Null())
		perms(len(s.v), func(p []int) {
			for n := 1; n <= len(p); n++ {
				if n < len(p) && !c.Thorough && p[0] > 1 {
					continue
				}
				for _, stripe := range []int{0, 1} { // stripe size 1: a row each
					for _, stride := range []int{0, 1, 2} {
						var v []Val
						for _, i := range p[:n] {
							v = append(v, s.v[i])
						}
						w := wcase{ty, colRows(v), nil, wcfg{stripe: stripe, index: stride > 0, stride: stride}}
						c.Do(func() string { return fmt.Sprint(si, p[:n], stripe, stride) }, func(t *mcx.T) {
							d := w.write(t)
							checkFileStats(t, d, w.t, w.rows)
						})
					}
				}
			}
		})
	}
}

func perms(n int, f func([]int)) {
	var rec func(cur []int, left []int)
	rec = func(cur, left []int) {
		if len(left) == 0 {
			f(append([]int(nil), cur...))
			return
		}
		for i := range left {
			l := append(append([]int(nil), left[:i]...), left[i+1:]...)
			rec(append(cur, left[i]), l)
		}
	}
	var l []int
	for i := 0; i < n; i++ {
		l = append(l, i)
	}
	rec(nil, l)
}

// checkSpec reads the file with the independent reader and compares everything with what was written.
func checkSpec(t *mcx.T, d *memf.Disk, w wcase) {
	f := readBySpec(t, d, w.rows)
	if x := diff(w.rows, f.Rows); x != "" {
		t.Failf("an independent reader finds: %s; written %s of %s", x, spec.ShowAll(w.rows), w.t)
	}
	if !f.Root.SameShape(w.t) {
		t.Failf("the schema in the file is %s (%v), written %s (%v)", f.Root, f.Root.Names, w.t, w.t.Names)
	}
	if f.NumRows != uint64(len(w.rows)) {
		t.Failf("number of rows is %d, written %d", f.NumRows, len(w.rows))
	}
	var sum uint64
	for _, s := range f.Stripes {
		sum += s.Rows
	}
	if sum != uint64(len(w.rows)) {
		t.Failf("stripes have %d rows, written %d", sum, len(w.rows))
	}
	if f.Compression != map[bool]int{false: 0, true: 1}[w.cfg.zlib] {
		t.Failf("compression %d", f.Compression)
	}
	if w.cfg.index {
		if f.Stride != w.cfg.stride {
			t.Failf("row index stride is %d, not %d", f.Stride, w.cfg.stride)
		}
		n, err := f.CheckIndex()
		if err != nil {
			t.Failf("row index: %v; written %s of %s", err, spec.ShowAll(w.rows), w.t)
		}
		t.Step(n)
	}
	t.StateS(w.t.String() + spec.ShowAll(w.rows) + w.cfg.String())
}

// C13: files are valid for an independent reader.
func C13(c *mcx.Ctx) {
	c.Assume("the independent reader of the harness (mc/spec) stands for the ORC v1 specification; it was checked against the files of other writers in /repo/testing")
	files(c, true, func(t *mcx.T, w wcase) {
		d := w.write(t)
		checkSpec(t, d, w)
	})
	oldTimes(c, func(t *mcx.T, ty *spec.Type, rows []Val, w wcase) {
		f := readBySpec(t, w.write(t), rows)
		if len(f.Rows) != len(rows) {
			t.Failf("an independent reader finds %d rows, written %d", len(f.Rows), len(rows))
		}
		late := spec.TS{}
		for i, r := range rows {
			for j, x := range r.(spec.S) {
				v, ok := x.(spec.TS)
				got, is := f.Rows[i].(spec.S)[j].(spec.TS)
				if !ok && !is {
					continue
				}
				if ok != is {
					t.Failf("an independent reader finds %v in row %d, written %v", f.Rows[i], i, r)
				}
				if v.Nano > 999999 && v.Sec == -base2015-1 { // cannot be told from a time after 1970
					continue
				}
				stored := got
				if secondOff(got) {
					got.Sec--
				}
				if got != v && stored == v {
					late = v
				} else if got != v {
					t.Failf("an independent reader finds %v in row %d, written %v", got, i, v)
				}
			}
		}
		if late != (spec.TS{}) {
			t.Failf("time before 1970 is a second early to an independent reader: written %v", late)
		}
	})
}
