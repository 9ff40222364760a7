package main

import (
	"bytes"
	"fmt"
	"math"

	"goorcmc/mcx"
	"goorcmc/memf"
	"goorcmc/spec"

	"github.com/patrickhuang888/goorc/orc/config"
	"github.com/patrickhuang888/goorc/orc/stream"
	"github.com/patrickhuang888/goorc/pb/pb"
)

const pre = 5 // bytes before the stream

// rd is a reader of one stream, uniformly.
type rd struct {
	next     func(i int) (interface{}, error) // i = index of the value (for lengths of strings)
	seek     func(a, b uint64, enc []uint64) error
	finished func() bool
	close    func()
}

type kind struct {
	name   string
	npos   int // encoder positions the reader wants
	sk     pb.Stream_Kind
	writer func(*config.WriterOptions) stream.Writer
	reader func(*config.ReaderOptions, *pb.Stream, *memf.File, []interface{}) rd
	// decode by the specification
	spec func(b []byte, vals []interface{}) error
	vals func(seg byte, n int, k int) []interface{}
	segs string
	pad  int // values the format may add at the end
}

func last(e []uint64, n int) []uint64 {
	for len(e) < n {
		e = append(e, 0)
	}
	return e[:n]
}

func eq(a, b interface{}) bool {
	switch x := a.(type) {
	case []byte:
		y, ok := b.([]byte)
		return ok && bytes.Equal(x, y)
	case float32:
		y, ok := b.(float32)
		return ok && math.Float32bits(x) == math.Float32bits(y)
	case float64:
		y, ok := b.(float64)
		return ok && math.Float64bits(x) == math.Float64bits(y)
	}
	return a == b
}

// values of an integer segment
func intSeg(seg byte, n, k int) (v []int64) {
	x := uint64(k*7919 + 17)
	for i := 0; i < n; i++ {
		x = x*6364136223846793005 + 1442695040888963407
		switch seg {
		case 'r': // repeats
			v = append(v, int64(k*3+1))
		case 'd': // delta
			v = append(v, int64(k*100+i*3))
		case 'v': // varying delta
			v = append(v, int64(k*100+i*3+int(x>>62)))
		case 'l': // literals
			v = append(v, int64(x>>50))
		case 'p': // patched
			if i%37 == 20 {
				v = append(v, int64(x>>20))
			} else {
				v = append(v, int64(x>>57))
			}
		case 'w': // wide
			v = append(v, int64(x>>1))
		}
	}
	return
}

func boxI(v []int64) (o []interface{}) {
	for _, x := range v {
		o = append(o, x)
	}
	return
}
func boxU(v []int64) (o []interface{}) {
	for _, x := range v {
		o = append(o, uint64(x))
	}
	return
}

func ints(signed bool) kind {
	n := "uint"
	if signed {
		n = "int"
	}
	return kind{name: n, npos: 1, sk: pb.Stream_DATA, segs: "rdvlpw",
		writer: func(o *config.WriterOptions) stream.Writer {
			return stream.NewIntRLV2Writer(3, pb.Stream_DATA, o, signed)
		},
		reader: func(o *config.ReaderOptions, i *pb.Stream, f *memf.File, _ []interface{}) rd {
			r := stream.NewIntRLV2Reader(o, i, pre, signed, f)
			return rd{next: func(int) (interface{}, error) {
				if signed {
					v, err := r.NextInt64()
					return v, err
				}
				v, err := r.NextUInt64()
				return v, err
			}, seek: func(a, b uint64, e []uint64) error { return r.Seek(a, b, e[0]) }, finished: r.Finished, close: r.Close}
		},
		spec: func(b []byte, vals []interface{}) error {
			got, _, err := spec.RLE2(b, signed)
			if err != nil || len(got) != len(vals) {
				return fmt.Errorf("%d values (%v)", len(got), err)
			}
			for i, v := range vals {
				if x, ok := v.(int64); ok && got[i] != uint64(x) || !ok && got[i] != v.(uint64) {
					return fmt.Errorf("value %d is %d, want %v", i, got[i], v)
				}
			}
			return nil
		},
		vals: func(s byte, n, k int) []interface{} {
			if signed {
				v := intSeg(s, n, k)
				for i := range v {
					if s == 'l' || s == 'w' {
						v[i] -= int64(i%2) << 40
					}
				}
				return boxI(v)
			}
			return boxU(intSeg(s, n, k))
		}}
}

func byteSeg(s byte, n, k int) (v []byte) {
	for i := 0; i < n; i++ {
		switch s {
		case 'r':
			v = append(v, byte(k))
		case 'p':
			v = append(v, byte(i/2+k))
		default:
			v = append(v, byte(i*7+k))
		}
	}
	return
}

var kinds = []kind{
	ints(true), ints(false),
	{name: "byte", npos: 1, segs: "rlp",
		writer: func(o *config.WriterOptions) stream.Writer { return stream.NewByteWriter(3, pb.Stream_DATA, o) },
		reader: func(o *config.ReaderOptions, i *pb.Stream, f *memf.File, _ []interface{}) rd {
			r := stream.NewByteReader(o, i, pre, f)
			return rd{next: func(int) (interface{}, error) { v, err := r.Next(); return v, err },
				seek:     func(a, b uint64, e []uint64) error { return r.Seek(a, b, e[0]) },
				finished: r.Finished, close: r.Close}
		},
		spec: func(b []byte, vals []interface{}) error {
			got, err := spec.ByteRLE(b)
			var w []byte
			for _, v := range vals {
				w = append(w, v.(byte))
			}
			if err != nil || !bytes.Equal(got, w) {
				return fmt.Errorf("%v (%v)", got, err)
			}
			return nil
		},
		vals: func(s byte, n, k int) (o []interface{}) {
			for _, b := range byteSeg(s, n, k) {
				o = append(o, b)
			}
			return
		}},
	{name: "bool", npos: 2, segs: "rlp", pad: 7,
		writer: func(o *config.WriterOptions) stream.Writer { return stream.NewBoolWriter(3, pb.Stream_PRESENT, o) },
		reader: func(o *config.ReaderOptions, i *pb.Stream, f *memf.File, _ []interface{}) rd {
			r := stream.NewBoolReader(o, i, pre, f)
			return rd{next: func(int) (interface{}, error) { v, err := r.Next(); return v, err },
				seek:     func(a, b uint64, e []uint64) error { return r.Seek(a, b, e[0], e[1]) },
				finished: r.Finished, close: r.Close}
		},
		spec: func(b []byte, vals []interface{}) error {
			got, err := spec.Bools(b, -1)
			if err != nil || len(got) != (len(vals)+7)/8*8 {
				return fmt.Errorf("%v (%v)", got, err)
			}
			for i, v := range vals {
				if got[i] != v.(bool) {
					return fmt.Errorf("%v", got)
				}
			}
			return nil
		},
		vals: func(s byte, n, k int) (o []interface{}) {
			for i, b := range byteSeg(s, n, k) {
				switch s {
				case 'r':
					o = append(o, k%2 == 0)
				default:
					o = append(o, b>>uint(i%5)&1 == 1)
				}
			}
			return
		}},
	{name: "float", segs: "rl",
		writer: func(o *config.WriterOptions) stream.Writer { return stream.NewFloatWriter(3, pb.Stream_DATA, o, false) },
		reader: func(o *config.ReaderOptions, i *pb.Stream, f *memf.File, _ []interface{}) rd {
			r := stream.NewFloatReader(o, i, pre, f, false)
			return rd{next: func(int) (interface{}, error) { v, err := r.NextFloat(); return v, err },
				seek:     func(a, b uint64, e []uint64) error { return r.Seek(a, b) },
				finished: r.Finished, close: r.Close}
		},
		spec: func(b []byte, vals []interface{}) error {
			var w []byte
			for _, v := range vals {
				x := math.Float32bits(v.(float32))
				w = append(w, byte(x), byte(x>>8), byte(x>>16), byte(x>>24))
			}
			if !bytes.Equal(b, w) {
				return fmt.Errorf("%x, want %x", clip(b), clip(w))
			}
			return nil
		},
		vals: func(s byte, n, k int) (o []interface{}) {
			for i := 0; i < n; i++ {
				if s == 'r' {
					o = append(o, float32(0))
				} else {
					o = append(o, math.Float32frombits(uint32((i+k)*2654435761)))
				}
			}
			return
		}},
	{name: "double", segs: "rl",
		writer: func(o *config.WriterOptions) stream.Writer { return stream.NewFloatWriter(3, pb.Stream_DATA, o, true) },
		reader: func(o *config.ReaderOptions, i *pb.Stream, f *memf.File, _ []interface{}) rd {
			r := stream.NewFloatReader(o, i, pre, f, true)
			return rd{next: func(int) (interface{}, error) { v, err := r.NextDouble(); return v, err },
				seek:     func(a, b uint64, e []uint64) error { return r.Seek(a, b) },
				finished: r.Finished, close: r.Close}
		},
		spec: func(b []byte, vals []interface{}) error {
			var w []byte
			for _, v := range vals {
				x := math.Float64bits(v.(float64))
				for j := 0; j < 8; j++ {
					w = append(w, byte(x>>uint(8*j)))
				}
			}
			if !bytes.Equal(b, w) {
				return fmt.Errorf("%x, want %x", clip(b), clip(w))
			}
			return nil
		},
		vals: func(s byte, n, k int) (o []interface{}) {
			for i := 0; i < n; i++ {
				if s == 'r' {
					o = append(o, float64(k))
				} else {
					o = append(o, math.Float64frombits(uint64(i+k+1)*6364136223846793005))
				}
			}
			return
		}},
	{name: "varint", segs: "rlw",
		writer: func(o *config.WriterOptions) stream.Writer { return stream.NewVarint64V2Writer(3, pb.Stream_DATA, o) },
		reader: func(o *config.ReaderOptions, i *pb.Stream, f *memf.File, _ []interface{}) rd {
			r := stream.NewVarIntReader(o, i, pre, f)
			return rd{next: func(int) (interface{}, error) { v, err := r.NextInt64(); return v, err },
				seek:     func(a, b uint64, e []uint64) error { return r.Seek(a, b, 0) },
				finished: r.Finished, close: r.Close}
		},
		spec: func(b []byte, vals []interface{}) error {
			var w []byte
			for _, v := range vals {
				w = append(w, spec.SVar(v.(int64))...)
			}
			if !bytes.Equal(b, w) {
				return fmt.Errorf("%x, want %x", clip(b), clip(w))
			}
			return nil
		},
		vals: func(s byte, n, k int) []interface{} {
			v := intSeg(s, n, k)
			for i := range v {
				if i%2 == 1 {
					v[i] = -v[i]
				}
			}
			return boxI(v)
		}},
	{name: "string", segs: "erl",
		writer: func(o *config.WriterOptions) stream.Writer {
			return stream.NewStringContentsWriter(3, pb.Stream_DATA, o)
		},
		reader: func(o *config.ReaderOptions, i *pb.Stream, f *memf.File, vals []interface{}) rd {
			r := stream.NewStringContentsReader(o, i, pre, f)
			return rd{next: func(k int) (interface{}, error) {
				if k >= len(vals) {
					v, err := r.NextBytes(1)
					return v, err
				}
				if k%2 == 0 {
					v, err := r.NextString(uint64(len(vals[k].([]byte))))
					return []byte(v), err
				}
				v, err := r.NextBytes(uint64(len(vals[k].([]byte))))
				return v, err
			},
				seek:     func(a, b uint64, e []uint64) error { return r.Seek(a, b) },
				finished: r.Finished, close: r.Close}
		},
		spec: func(b []byte, vals []interface{}) error {
			var w []byte
			for _, v := range vals {
				w = append(w, v.([]byte)...)
			}
			if !bytes.Equal(b, w) {
				return fmt.Errorf("%x, want %x", clip(b), clip(w))
			}
			return nil
		},
		vals: func(s byte, n, k int) (o []interface{}) {
			for i := 0; i < n; i++ {
				switch s {
				case 'e':
					o = append(o, []byte{})
				case 'r':
					o = append(o, []byte("abc"))
				default:
					o = append(o, fill(nil, 'r', (i*5+k)%23))
				}
			}
			return
		}},
}

type written struct {
	file *memf.Disk
	info *pb.Stream
	pos  [][]uint64 // position before value i (nil when not recorded)
	vals []interface{}
	none bool
}

// writeStream writes the stripes one after the other through the same writer
// and returns what stripe `which` left behind.
func writeStream(t *mcx.T, k kind, comp pb.CompressionKind, size int, stripes [][]interface{}, which int, rec func(i int) bool) (w written) {
	opts := config.DefaultWriterOptions()
	opts.CompressionKind = comp
	opts.ChunkSize = size
	opts.WriteIndex = true
	sw := k.writer(&opts)
	w.none = comp == pb.CompressionKind_NONE
	for s, vals := range stripes {
		var pos [][]uint64
		for i, v := range vals {
			var p []uint64
			if rec(i) {
				p = append([]uint64(nil), sw.GetPosition()...)
			}
			pos = append(pos, p)
			if err := sw.Write(v); err != nil {
				t.Failf("Write value %d %v: %v", i, v, err)
			}
			t.Step(1)
		}
		if err := sw.Flush(); err != nil {
			t.Failf("Flush: %v", err)
		}
		n := sw.Info().GetLength()
		out := &bytes.Buffer{}
		m, err := sw.WriteOut(out)
		if err != nil || uint64(m) != n || uint64(out.Len()) != n {
			t.Failf("WriteOut: %d bytes, %d written, stream info says %d (%v)", m, out.Len(), n, err)
		}
		plain := out.Bytes()
		if !w.none {
			var chunks []spec.Chunk
			if plain, chunks, err = spec.Dechunk(out.Bytes(), size); err != nil {
				t.Failf("stripe %d: chunks invalid: %v %v", s, err, chunks)
			}
		}
		if err := k.spec(plain, vals); err != nil {
			t.Failf("stripe %d: stream bytes do not denote the values under the specification: %v", s, err)
		}
		t.State(out.Bytes())
		if s == which {
			b := append(bytes.Repeat([]byte{0x99}, pre), out.Bytes()...)
			b = append(b, bytes.Repeat([]byte{0x55}, 700)...) // what follows in the file
			info := *sw.Info()
			l := n
			info.Length = &l
			w.file, w.info, w.pos, w.vals = memf.New(b), &info, pos, vals
		}
		sw.Reset()
	}
	return
}

func (w written) open(k kind, comp pb.CompressionKind, size int) rd {
	ro := config.DefaultReaderOptions()
	ro.CompressionKind = comp
	ro.ChunkSize = uint64(size)
	f := w.file.Handle()
	f.Seek(pre, 0)
	return k.reader(&ro, w.info, f, w.vals)
}

func (w written) split(p []uint64) (a, b uint64, enc []uint64) {
	if w.none {
		return p[0], 0, p[1:]
	}
	return p[0], p[1], p[2:]
}

// readOn reads values i.. until j and compares; at the end of the stream it
// checks the end is reported.
func readOn(t *mcx.T, r rd, k kind, w written, i, j int) {
	for ; i < j; i++ {
		v, err := r.next(i)
		t.Step(1)
		if err != nil {
			t.Failf("value %d: %v", i, err)
		}
		if !eq(v, w.vals[i]) {
			t.Failf("value %d is %v, want %v", i, v, w.vals[i])
		}
	}
	if j == len(w.vals) {
		for n := 0; k.pad > 0 && n < k.pad && !r.finished(); n++ {
			if v, err := r.next(i); err != nil || v != false {
				t.Failf("padding: %v %v", v, err)
			}
		}
		if !r.finished() {
			t.Failf("not finished after the last value")
		}
		if v, err := r.next(i); err == nil {
			t.Failf("value %v delivered after the last one", v)
		}
	}
}

func C06(c *mcx.Ctx) {
	c.Assume("oracle: the values written, and spec/ decoders for the bytes of every stream kind")
	c.Assume("a position recorded before value i is passed to Seek the way the column readers do: (offset, 0, encoder...) without compression, (chunk, offset in chunk, encoder...) with it")
	type cfg struct {
		comp pb.CompressionKind
		size int
	}
	var cfgs []cfg
	for _, s := range []int{1, 2, 3, 8, 17, 64, 600, 4096} {
		cfgs = append(cfgs, cfg{pb.CompressionKind_NONE, s}, cfg{pb.CompressionKind_ZLIB, s})
	}
	all := func(int) bool { return true }
	for _, k := range kinds {
		k := k
		// short streams: every sequence of segments, every position, every ordered pair of seeks
		c.Group(k.name + "-short")
		lens := []int{1, 3, 9}
		S := 2
		if c.Thorough {
			lens = []int{1, 2, 3, 5, 9, 12}
			S = 2
		}
		mcx.Seqs(len(k.segs)*len(lens), 0, S, func(ix []int) {
			for _, g := range cfgs {
				if !c.Thorough && (g.size == 2 || g.size == 17 || g.size >= 600) && len(ix) == 2 {
					continue
				}
				g := g
				c.Do(func() string { return fmt.Sprintf("%v-%v-%d", ix, g.comp, g.size) }, func(t *mcx.T) {
					var vals []interface{}
					for n, i := range ix {
						vals = append(vals, k.vals(k.segs[i/len(lens)], lens[i%len(lens)], n+1)...)
					}
					w := writeStream(t, k, g.comp, g.size, [][]interface{}{vals}, 0, all)
					n := len(vals)
					readOn(t, w.open(k, g.comp, g.size), k, w, 0, n)
					for p := 0; p < n; p++ {
						a, b, e := w.split(w.pos[p])
						e = last(e, k.npos)
						r := w.open(k, g.comp, g.size)
						if err := r.seek(a, b, e); err != nil {
							t.Failf("seek to position %v of value %d: %v", w.pos[p], p, err)
						}
						readOn(t, r, k, w, p, n)
						// the reader is now at the end; seek everywhere else, reading 0..2 values in between
						for q := 0; q < n; q++ {
							for m := 0; m <= 2; m++ {
								if q+m > n {
									continue
								}
								a2, b2, e2 := w.split(w.pos[q])
								if err := r.seek(a2, b2, last(e2, k.npos)); err != nil {
									t.Failf("seek to position %v of value %d: %v", w.pos[q], q, err)
								}
								readOn(t, r, k, w, q, q+m)
								if err := r.seek(a, b, e); err != nil {
									t.Failf("seek back to %d: %v", p, err)
								}
								to := p + 3
								if to > n {
									to = n
								}
								readOn(t, r, k, w, p, to)
							}
						}
						r.close()
					}
				})
			}
		})
		// long streams: runs over the encoder limits and chunk borders
		c.Group(k.name + "-long")
		ll := []int{40, 130, 511, 513, 1100}
		mcx.Seqs(len(k.segs)*len(ll), 1, 2, func(ix []int) {
			if len(ix) == 2 && !c.Thorough && (ix[0]%len(ll)+ix[1])%3 != 0 {
				return
			}
			for _, g := range cfgs {
				if g.size != 8 && g.size != 64 && g.size != 600 && g.size != 4096 {
					continue
				}
				g := g
				c.Do(func() string { return fmt.Sprintf("%v-%v-%d", ix, g.comp, g.size) }, func(t *mcx.T) {
					var vals []interface{}
					for n, i := range ix {
						vals = append(vals, k.vals(k.segs[i/len(ll)], ll[i%len(ll)], n+1)...)
					}
					n := len(vals)
					// a second stripe through the same writer: read both
					for which := 0; which < 2; which++ {
						w := writeStream(t, k, g.comp, g.size, [][]interface{}{vals, vals[n/3:]}, which, func(i int) bool { return i < 3 || i%97 < 2 || i%128 == 127 || i%512 < 2 || i >= n-2 })
						readOn(t, w.open(k, g.comp, g.size), k, w, 0, len(w.vals))
						r := w.open(k, g.comp, g.size)
						var ps []int
						for p, x := range w.pos {
							if x != nil {
								ps = append(ps, p)
							}
						}
						for x := range ps { // from both ends alternately
							p := ps[x/2]
							if x%2 == 1 {
								p = ps[len(ps)-1-x/2]
							}
							a, b, e := w.split(w.pos[p])
							if err := r.seek(a, b, last(e, k.npos)); err != nil {
								t.Failf("stripe %d: seek to position %v of value %d: %v", which, w.pos[p], p, err)
							}
							to := p + 7
							if x%3 == 0 {
								to = p + 600
							}
							if to > len(w.vals) {
								to = len(w.vals)
							}
							readOn(t, r, k, w, p, to)
						}
					}
				})
			}
		})
		// reads of the file that return early
		c.Group(k.name + "-short-reads")
		for lim := 1; lim <= 4; lim++ {
			for si := range k.segs {
				for _, g := range cfgs {
					lim, g, si := lim, g, si
					c.Do(func() string { return fmt.Sprintf("%d-%c-%v-%d", lim, k.segs[si], g.comp, g.size) }, func(t *mcx.T) {
						vals := append(k.vals(k.segs[si], 20, 1), k.vals(k.segs[0], 7, 2)...)
						w := writeStream(t, k, g.comp, g.size, [][]interface{}{vals}, 0, all)
						w.file.Hook = func(memf.Op) memf.Act { return memf.Act{Limit: lim} }
						r := w.open(k, g.comp, g.size)
						readOn(t, r, k, w, 0, len(vals))
						for p := range vals {
							a, b, e := w.split(w.pos[p])
							if err := r.seek(a, b, last(e, k.npos)); err != nil {
								t.Failf("seek: %v", err)
							}
							readOn(t, r, k, w, p, len(vals))
						}
					})
				}
			}
		}
	}
	// chunk layouts of other writers: every way to cut the stream bytes into chunks
	c.Group("foreign-chunking")
	for _, k := range kinds {
		k := k
		for si := range k.segs {
			si := si
			n := 6
			if k.name == "double" || k.name == "float" {
				n = 2
			}
			if k.name == "bool" {
				n = 40
			}
			vals := k.vals(k.segs[si], n, 1)
			if k.name == "string" {
				vals = k.vals(k.segs[si], 4, 6)
				for i := range vals {
					b := vals[i].([]byte)
					if len(b) > 5 {
						vals[i] = b[:5]
					}
				}
			}
			max := 10
			if c.Thorough {
				max = 14
			}
			var plain []byte
			for {
				opts := config.DefaultWriterOptions()
				opts.CompressionKind = pb.CompressionKind_NONE
				sw := k.writer(&opts)
				for _, v := range vals {
					sw.Write(v)
				}
				sw.Flush()
				out := &bytes.Buffer{}
				sw.WriteOut(out)
				if plain = out.Bytes(); len(plain) <= max {
					break
				}
				vals = vals[:len(vals)-1]
			}
			mcx.Compositions(len(plain), func(parts []int) {
				modes := []string{"o", "d", "od", "do", "e"}
				for _, m := range modes {
					m := m
					c.Do(func() string { return fmt.Sprintf("%s-%c-%v-%s", k.name, k.segs[si], parts, m) }, func(t *mcx.T) {
						b := bytes.Repeat([]byte{0x99}, pre)
						p := 0
						for i, l := range parts {
							md := m[i%len(m)]
							if md == 'e' { // an empty chunk before each
								b = append(b, spec.EncChunk(nil, "od"[i%2])...)
								md = 'o'
							}
							b = append(b, spec.EncChunk(plain[p:p+l], md)...)
							p += l
						}
						l := uint64(len(b) - pre)
						b = append(b, bytes.Repeat([]byte{0x55}, 40)...)
						t.State(b)
						sk, col := pb.Stream_DATA, uint32(3)
						w := written{file: memf.New(b), info: &pb.Stream{Kind: &sk, Column: &col, Length: &l}, vals: vals}
						readOn(t, w.open(k, pb.CompressionKind_ZLIB, 64), k, w, 0, len(vals))
					})
				}
			})
		}
	}
}
