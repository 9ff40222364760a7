package main

import (
	"fmt"
	"math"

	"goorcmc/memf"
	"goorcmc/spec"

	"github.com/patrickhuang888/goorc/orc"
	"github.com/patrickhuang888/goorc/orc/api"
	"github.com/patrickhuang888/goorc/orc/config"
	"github.com/patrickhuang888/goorc/pb/pb"
	"time"
)

type Val = spec.Val

// toAPI builds the schema of the library for t.
func toAPI(t *spec.Type) *api.TypeDescription {
	td := schema(t)
	if err := api.NormalizeSchema(td); err != nil {
		panic(err)
	}
	return td
}

func schema(t *spec.Type) *api.TypeDescription {
	td := &api.TypeDescription{Kind: pb.Type_Kind(t.Kind), HasNulls: t.Nullable, Encoding: encodingOf(t)}
	for i, k := range t.Kids {
		if t.Kind == spec.STRUCT {
			td.AddChild(t.Names[i], schema(k))
		} else {
			td.Children = append(td.Children, schema(k))
		}
	}
	return td
}

func encodingOf(t *spec.Type) pb.ColumnEncoding_Kind {
	switch t.Kind {
	case spec.BOOLEAN, spec.BYTE, spec.FLOAT, spec.DOUBLE, spec.STRUCT, spec.UNION:
		return pb.ColumnEncoding_DIRECT
	}
	if t.Dict {
		return pb.ColumnEncoding_DICTIONARY_V2
	}
	return pb.ColumnEncoding_DIRECT_V2
}

func toGo(t *spec.Type, v Val) interface{} {
	switch t.Kind {
	case spec.BYTE:
		return byte(v.(int64))
	case spec.SHORT:
		return int16(v.(int64))
	case spec.INT:
		return int32(v.(int64))
	case spec.FLOAT:
		return math.Float32frombits(uint32(v.(spec.F32)))
	case spec.DOUBLE:
		return math.Float64frombits(uint64(v.(spec.F64)))
	case spec.BINARY:
		return []byte(v.(spec.Bin))
	case spec.DECIMAL:
		d := v.(spec.Dec)
		return api.Decimal64{Precision: d.U, Scale: d.S}
	case spec.DATE:
		return api.FromDays(int32(v.(int64)))
	case spec.TIMESTAMP:
		x := v.(spec.TS)
		return api.Timestamp{Loc: time.UTC, Seconds: x.Sec, Nanos: x.Nano}
	}
	return v
}

// toVec builds a batch of the values (one entry for every row; below a null struct nothing is used).
func toVec(t *spec.Type, vals []Val, parentNull []bool) *api.ColumnVector {
	vec := &api.ColumnVector{Id: uint32(t.ID), Kind: pb.Type_Kind(t.Kind)}
	null := make([]bool, len(vals))
	for i, v := range vals {
		null[i] = v == nil || parentNull != nil && parentNull[i]
	}
	if t.Kind == spec.STRUCT {
		if t.Nullable || len(t.Kids) == 0 {
			vec.Vector = make([]api.Value, len(vals))
			for i := range vals {
				vec.Vector[i].Null = null[i]
			}
		}
		for j, k := range t.Kids {
			kv := make([]Val, len(vals))
			for i, v := range vals {
				if !null[i] {
					kv[i] = v.(spec.S)[j]
				}
			}
			vec.Children = append(vec.Children, toVec(k, kv, null))
		}
		return vec
	}
	vec.Vector = make([]api.Value, len(vals))
	for i, v := range vals {
		if null[i] {
			vec.Vector[i].Null = v == nil && t.Nullable || !t.Nullable && i%2 == 0 // anything, if the struct is null
			continue
		}
		vec.Vector[i].V = toGo(t, v)
	}
	return vec
}

func fromGo(t *spec.Type, v interface{}) (Val, error) {
	switch t.Kind {
	case spec.BOOLEAN:
		if x, ok := v.(bool); ok {
			return x, nil
		}
	case spec.BYTE:
		if x, ok := v.(byte); ok {
			return int64(int8(x)), nil
		}
	case spec.SHORT:
		if x, ok := v.(int16); ok {
			return int64(x), nil
		}
	case spec.INT:
		if x, ok := v.(int32); ok {
			return int64(x), nil
		}
	case spec.LONG:
		if x, ok := v.(int64); ok {
			return x, nil
		}
	case spec.FLOAT:
		if x, ok := v.(float32); ok {
			return spec.Float32(x), nil
		}
	case spec.DOUBLE:
		if x, ok := v.(float64); ok {
			return spec.Float(x), nil
		}
	case spec.STRING, spec.VARCHAR, spec.CHAR:
		if x, ok := v.(string); ok {
			return x, nil
		}
	case spec.BINARY:
		if x, ok := v.([]byte); ok {
			return spec.Bin(x), nil
		}
	case spec.DECIMAL:
		if x, ok := v.(api.Decimal64); ok {
			return spec.Dec{U: x.Precision, S: x.Scale}, nil
		}
	case spec.DATE:
		if x, ok := v.(api.Date); ok {
			u := time.Time(x).Unix()
			if u%86400 != 0 {
				return nil, fmt.Errorf("date %v is not midnight UTC", time.Time(x))
			}
			return u / 86400, nil
		}
	case spec.TIMESTAMP:
		if x, ok := v.(api.Timestamp); ok {
			return spec.TS{Sec: x.Seconds, Nano: x.Nanos}, nil
		}
	}
	return nil, fmt.Errorf("column %d %s delivered a %T", t.ID, t.Kind, v)
}

// fromVec reads n values of a delivered vector.
func fromVec(t *spec.Type, vec *api.ColumnVector, n int, inc func(int) bool, parentNull []bool) ([]Val, error) {
	if vec == nil {
		return nil, fmt.Errorf("column %d has no vector", t.ID)
	}
	if vec.Id != uint32(t.ID) || vec.Kind != pb.Type_Kind(t.Kind) {
		return nil, fmt.Errorf("vector is of column %d %s, expected %d %s", vec.Id, vec.Kind, t.ID, t.Kind)
	}
	out := make([]Val, n)
	null := make([]bool, n)
	copy(null, parentNull)
	noVec := t.Kind == spec.STRUCT && vec.Vector == nil
	if !noVec {
		if len(vec.Vector) != n {
			return nil, fmt.Errorf("vector of column %d %s has %d values, expected %d", t.ID, t.Kind, len(vec.Vector), n)
		}
		for i := range null {
			null[i] = null[i] || vec.Vector[i].Null
		}
	}
	var kids []*spec.Type
	for _, k := range t.Kids {
		if inc(k.ID) {
			kids = append(kids, k)
		}
	}
	if len(kids) != len(vec.Children) {
		return nil, fmt.Errorf("vector of column %d has %d children, expected %d", t.ID, len(vec.Children), len(kids))
	}
	switch t.Kind {
	case spec.STRUCT:
		for i := range out {
			if null[i] {
				continue
			}
			s := make(spec.S, len(t.Kids))
			for j := range s {
				s[j] = spec.Absent{}
			}
			out[i] = s
		}
		for x, k := range kids {
			kv, err := fromVec(k, vec.Children[x], n, inc, null)
			if err != nil {
				return nil, err
			}
			for i := range out {
				if !null[i] {
					out[i].(spec.S)[k.ID-t.Kids[0].ID-skipped(t, k)] = kv[i]
				}
			}
		}
	case spec.LIST, spec.MAP:
		lens := make([]int, n)
		total := 0
		for i := range out {
			if null[i] {
				continue
			}
			switch x := vec.Vector[i].V.(type) {
			case uint64:
				lens[i] = int(x)
			case int:
				lens[i] = x
			default:
				return nil, fmt.Errorf("column %d %s delivered a %T", t.ID, t.Kind, x)
			}
			total += lens[i]
		}
		var kv [2][]Val
		for j, k := range kids {
			var err error
			if kv[j], err = fromVec(k, vec.Children[j], total, inc, nil); err != nil {
				return nil, err
			}
		}
		off := 0
		for i := range out {
			if null[i] {
				continue
			}
			if t.Kind == spec.LIST {
				out[i] = spec.L(append([]Val{}, kv[0][off:off+lens[i]]...))
			} else {
				m := spec.M{}
				for x := off; x < off+lens[i]; x++ {
					m = append(m, [2]Val{kv[0][x], kv[1][x]})
				}
				out[i] = m
			}
			off += lens[i]
		}
	default:
		for i := range out {
			if null[i] {
				continue
			}
			var err error
			if out[i], err = fromGo(t, vec.Vector[i].V); err != nil {
				return nil, err
			}
		}
	}
	return out, nil
}

// skipped ids between the first child and k that are not children
func skipped(t, k *spec.Type) int {
	n := 0
	for _, x := range t.Kids {
		if x.ID < k.ID {
			n += x.Size - 1
		}
	}
	return n
}

type wcfg struct {
	zlib   bool
	chunk  int
	stripe int
	index  bool
	stride int
}

func (c wcfg) String() string {
	s := "none"
	if c.zlib {
		s = "zlib"
	}
	s += fmt.Sprintf(".c%d.s%d", c.chunk, c.stripe)
	if c.index {
		s += fmt.Sprintf(".x%d", c.stride)
	}
	return s
}

func (c wcfg) opts() config.WriterOptions {
	o := config.DefaultWriterOptions()
	o.CompressionKind = pb.CompressionKind_NONE
	if c.zlib {
		o.CompressionKind = pb.CompressionKind_ZLIB
	}
	if c.chunk > 0 {
		o.ChunkSize = c.chunk
	}
	if c.stripe > 0 {
		o.StripeSize = c.stripe
	}
	o.WriteIndex = c.index
	o.IndexStride = c.stride
	return o
}

// writeFile writes rows in the given batch sizes (nil: one batch).
func writeFile(d *memf.Disk, t *spec.Type, rows []Val, batches []int, c wcfg) error {
	w, err := orc.VerifWriter(toAPI(t), c.opts(), d.Handle())
	if err != nil {
		return fmt.Errorf("new writer: %v", err)
	}
	if batches == nil && len(rows) > 0 {
		batches = []int{len(rows)}
	}
	for _, n := range batches {
		if err := w.Write(toVec(t, rows[:n], nil)); err != nil {
			w.Close()
			return fmt.Errorf("write: %v", err)
		}
		rows = rows[n:]
	}
	if err := w.Close(); err != nil {
		return fmt.Errorf("close: %v", err)
	}
	return nil
}

type ropt struct {
	cap   int
	inc   []uint32
	fresh bool
}

func (o ropt) includes(id int) bool {
	if len(o.inc) == 0 {
		return true
	}
	for _, x := range o.inc {
		if int(x) == id {
			return true
		}
	}
	return false
}

type session struct {
	t    *spec.Type
	o    ropt
	r    orc.Reader
	br   orc.BatchReader
	vec  *api.ColumnVector
	bopt *api.BatchOption
	own  bool
	last *api.ColumnVector
}

// open opens a reader and a batch reader.
func open(d *memf.Disk, t *spec.Type, o ropt) (s *session, err error) {
	r, err := orc.VerifReader(d.Handle())
	if err != nil {
		return nil, fmt.Errorf("open: %v", err)
	}
	if s, err = batchReader(r, t, o); err != nil {
		r.Close()
		return nil, err
	}
	s.own = true
	return
}

func batchReader(r orc.Reader, t *spec.Type, o ropt) (s *session, err error) {
	s = &session{t: t, o: o, r: r}
	s.bopt = &api.BatchOption{RowSize: o.cap, Includes: o.inc}
	if s.br, err = r.CreateBatchReader(s.bopt); err != nil {
		return nil, fmt.Errorf("batch reader: %v", err)
	}
	if err = s.newVec(); err != nil {
		s.br.Close()
		return nil, err
	}
	return
}

func (s *session) newVec() (err error) {
	if s.vec, err = s.r.GetSchema().CreateVector(s.bopt); err != nil {
		err = fmt.Errorf("vector: %v", err)
	}
	return
}

// next reads one batch.
func (s *session) next() (rows []Val, end bool, err error) {
	if s.o.fresh {
		if err = s.newVec(); err != nil {
			return
		}
	}
	s.last = s.vec
	if end, err = s.br.Next(s.vec); err != nil {
		return
	}
	n := s.vec.Len()
	if n > s.o.cap {
		return nil, end, fmt.Errorf("Next delivered %d rows, batch has room for %d", n, s.o.cap)
	}
	rows, err = fromVec(s.t, s.vec, n, s.o.includes, nil)
	if err != nil {
		err = wrong{err}
	}
	return
}

// wrong marks errors found by the harness in what the library delivered
type wrong struct{ error }

func isWrong(err error) bool { _, ok := err.(wrong); return ok }

func (s *session) close() {
	s.br.Close()
	if s.own {
		s.r.Close()
	}
}

// rest reads until the end; at most max batches.
func (s *session) rest(max int) (rows []Val, err error) {
	for i := 0; ; i++ {
		r, end, err := s.next()
		if err != nil {
			return rows, err
		}
		rows = append(rows, r...)
		if end {
			return rows, nil
		}
		if len(r) == 0 {
			return rows, wrong{fmt.Errorf("Next delivered no rows after %d and did not end", len(rows))}
		}
		if i > max {
			return rows, wrong{fmt.Errorf("Next did not end after %d batches, %d rows", i, len(rows))}
		}
	}
}

func readFile(d *memf.Disk, t *spec.Type, o ropt, max int) ([]Val, error) {
	s, err := open(d, t, o)
	if err != nil {
		return nil, err
	}
	defer s.close()
	return s.rest(max)
}

func diff(want, got []Val) string {
	for i := range want {
		if i >= len(got) {
			return fmt.Sprintf("%d rows read, %d written; row %d %s is missing", len(got), len(want), i, spec.Show(want[i]))
		}
		if !spec.Equal(want[i], got[i]) {
			return fmt.Sprintf("row %d is %s, not %s (%d rows read, %d expected)", i, spec.Show(got[i]), spec.Show(want[i]), len(got), len(want))
		}
	}
	if len(got) > len(want) {
		return fmt.Sprintf("%d rows read, %d expected; row %d is %s", len(got), len(want), len(want), spec.Show(got[len(want)]))
	}
	return ""
}

func projected(t *spec.Type, rows []Val, o ropt) []Val {
	out := make([]Val, len(rows))
	for i, r := range rows {
		out[i] = spec.Project(t, r, o.includes)
	}
	return out
}
