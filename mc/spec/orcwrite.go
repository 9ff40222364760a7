package spec

import (
	"encoding/binary"
	"fmt"
	"sort"
)

// Seg is one run of an encoded stream and the number of values in it.
type Seg struct {
	B []byte
	N int
}

// WOpt are the freedoms a writer has.
type WOpt struct {
	Zlib     bool
	Block    int    // compression block size
	Mode     string // chunk modes of EncChunk, used in turn
	Cuts     []int  // plain lengths of the chunks, used in turn (nil: Block)
	Ints     func(v []uint64, signed bool) []Seg
	Stripes  []int // rows per stripe (nil: one stripe)
	Stride   int
	Always   bool // present streams even without nulls
	Omit     bool // leave empty streams out
	Bloom    bool
	Reverse  bool // data streams in reverse order
	EdgeOld  bool // positions at the end of a chunk instead of the start of the next
	Meta     int  // bytes of stripe statistics metadata
	User     int  // bytes of user metadata in the footer
	NoStats  bool
	PS       int                     // bytes of a field of the postscript that is not known
	NoBlock  bool                    // no block size in the postscript
	Gap      int                     // bytes between stripes
	Count    func(stripe, n int) int // rows to record for a stripe of n rows
	Lits     int                     // byte runs are literals of at most so many bytes
	Loose    bool                    // dictionaries are not sorted, have unused entries and entries twice
	Flip     bool                    // every second stripe stores strings the other way (dictionary or direct)
	Enc      func(*Type) int         // encoding to record, -1: the one used
	Comp     int                     // compression to record + 1
	TypeKind func(id int) int        // kind to record in the type tree
	stripe   int
	// damage done to the messages ("index", "stripe", "footer", "postscript"), to the bytes of the streams ("stream")
	// and to the values of the streams before they are encoded
	Damage func(part string, stripe, col, kind int, b []byte) []byte
	Values func(stripe, col, kind int, v []uint64) []uint64
}

// EncIntsRuns cuts vals into direct and repeat runs.
func IntsPlain(v []uint64, signed bool) (s []Seg) {
	for len(v) > 0 {
		n := 1
		for n < len(v) && n < 10 && v[n] == v[0] {
			n++
		}
		if n >= 3 {
			s = append(s, Seg{EncRepeat(v[0], n, signed, 0), n})
			v = v[n:]
			continue
		}
		n = 1
		for n < len(v) && n < 512 && !(n+2 < len(v) && v[n] == v[n+1] && v[n] == v[n+2]) {
			n++
		}
		s = append(s, Seg{EncDirect(v[:n], signed, 0), n})
		v = v[n:]
	}
	return
}

// IntsDirect makes direct runs of k values.
func IntsDirect(k int) func([]uint64, bool) []Seg {
	return func(v []uint64, signed bool) (s []Seg) {
		for len(v) > 0 {
			n := k
			if n > len(v) {
				n = len(v)
			}
			s = append(s, Seg{EncDirect(v[:n], signed, 0), n})
			v = v[n:]
		}
		return
	}
}

// IntsDelta uses delta runs wherever at least two values are monotonic with small deltas.
func IntsDelta(v []uint64, signed bool) (s []Seg) {
	for len(v) > 0 {
		if len(v) < 2 {
			return append(s, Seg{EncDirect(v, signed, 0), 1})
		}
		d := int64(v[1] - v[0])
		fixed := 2
		for fixed < len(v) && fixed < 512 && int64(v[fixed]-v[fixed-1]) == d {
			fixed++
		}
		if fixed > 2 || len(v) == 2 {
			s = append(s, Seg{EncDelta(v[0], d, nil, fixed, signed, 0), fixed})
			v = v[fixed:]
			continue
		}
		n := 2
		var mags []uint64
		for n < len(v) && n < 512 {
			x := int64(v[n] - v[n-1])
			if d == 0 || (x < 0) != (d < 0) && x != 0 || x > 1<<30 || x < -(1<<30) {
				break
			}
			if x < 0 {
				x = -x
			}
			mags = append(mags, uint64(x))
			n++
		}
		if len(mags) == 0 {
			s = append(s, Seg{EncDirect(v[:1], signed, 0), 1})
			v = v[1:]
			continue
		}
		w := 2
		for _, m := range mags {
			if BitLen(m) > w {
				w = ClosestWidth(BitLen(m))
			}
		}
		s = append(s, Seg{EncDelta(v[0], d, mags, n, signed, w), n})
		v = v[n:]
	}
	return
}

func (o WOpt) count(stripe, n int) int {
	if o.Count != nil {
		return o.Count(stripe, n)
	}
	return n
}

func (w *owriter) bytes(v []byte) (s []Seg) {
	if w.o.Lits == 0 {
		return byteSegs(v)
	}
	for len(v) > 0 {
		n := w.o.Lits
		if n > len(v) {
			n = len(v)
		}
		s = append(s, Seg{append([]byte{byte(256 - n)}, v[:n]...), n})
		v = v[n:]
	}
	return
}

func byteSegs(v []byte) (s []Seg) {
	for len(v) > 0 {
		n := 1
		for n < len(v) && n < 130 && v[n] == v[0] {
			n++
		}
		if n >= 3 {
			s = append(s, Seg{[]byte{byte(n - 3), v[0]}, n})
			v = v[n:]
			continue
		}
		n = 1
		for n < len(v) && n < 128 && !(n+2 < len(v) && v[n] == v[n+1] && v[n] == v[n+2]) {
			n++
		}
		s = append(s, Seg{append([]byte{byte(256 - n)}, v[:n]...), n})
		v = v[n:]
	}
	return
}

type ostream struct {
	col, kind int
	coding    Coding
	segs      []Seg
	plain     []byte
	raw       []byte
	chunks    [][2]int // plain start, raw start
	n         int
}

type ocol struct {
	t       *Type
	marks   []int // entries before every row group
	before  []int // values before every row group
	groups  []gstat
	total   gstat
	streams []*ostream
	enc     int
	dict    int
	raws    []int // bytes of string contents before every row group
}

type gstat struct {
	n    uint64
	null bool
}

type owriter struct {
	o    WOpt
	cols []*ocol
}

func (w *owriter) ints(v []uint64, signed bool) []Seg {
	if w.o.Ints != nil {
		return w.o.Ints(v, signed)
	}
	return IntsPlain(v, signed)
}

func (c *ocol) add(w *owriter, kind int, coding Coding, v []uint64) {
	if w.o.Values != nil {
		v = w.o.Values(w.o.stripe, c.t.ID, kind, append([]uint64(nil), v...))
	}
	s := &ostream{col: c.t.ID, kind: kind, coding: coding, n: len(v)}
	switch coding {
	case CInt, CUint:
		s.segs = w.ints(v, coding == CInt)
	case CByte:
		b := make([]byte, len(v))
		for i, x := range v {
			b[i] = byte(x)
		}
		s.segs = w.bytes(b)
	case CBool:
		b := make([]bool, len(v))
		for i, x := range v {
			b[i] = x != 0
		}
		s.segs = w.bytes(PackBools(b))
	case CF4:
		for _, x := range v {
			var b [4]byte
			binary.LittleEndian.PutUint32(b[:], uint32(x))
			s.segs = append(s.segs, Seg{b[:], 1})
		}
	case CF8:
		for _, x := range v {
			var b [8]byte
			binary.LittleEndian.PutUint64(b[:], x)
			s.segs = append(s.segs, Seg{b[:], 1})
		}
	case CVar:
		for _, x := range v {
			s.segs = append(s.segs, Seg{SVar(int64(x)), 1})
		}
	case CRaw:
		b := make([]byte, len(v))
		for i, x := range v {
			b[i] = byte(x)
		}
		if len(b) > 0 {
			s.segs = []Seg{{b, len(b)}}
		}
	}
	for _, g := range s.segs {
		s.plain = append(s.plain, g.B...)
	}
	c.streams = append(c.streams, s)
}

func (w *owriter) chunk(b []byte) (raw []byte, chunks [][2]int) {
	if !w.o.Zlib {
		return b, nil
	}
	mode := w.o.Mode
	if mode == "" {
		mode = "a"
	}
	for i, off := 0, 0; off < len(b); i++ {
		n := w.o.Block
		if len(w.o.Cuts) > 0 {
			n = w.o.Cuts[i%len(w.o.Cuts)]
		}
		if n > w.o.Block {
			n = w.o.Block
		}
		if n > len(b)-off {
			n = len(b) - off
		}
		c := EncChunk(b[off:off+n], mode[i%len(mode)])
		if len(c)-3 > w.o.Block { // writers store what does not shrink
			c = EncChunk(b[off:off+n], 'o')
		}
		chunks = append(chunks, [2]int{off, len(raw)})
		raw = append(raw, c...)
		off += n
	}
	return
}

func (w *owriter) pos(s *ostream, idx int) (p []uint64) {
	off, skip, bits := 0, 0, 0
	switch s.coding {
	case CRaw:
		off = idx
	case CF4:
		off = 4 * idx
	case CF8:
		off = 8 * idx
	default:
		n := idx
		if s.coding == CBool {
			n, bits = idx/8, idx%8
		}
		for _, g := range s.segs {
			if n < g.N {
				break
			}
			n -= g.N
			off += len(g.B)
		}
		skip = n
	}
	if w.o.Zlib {
		c, in := len(s.raw), 0
		for i, ch := range s.chunks {
			end := len(s.plain)
			if i+1 < len(s.chunks) {
				end = s.chunks[i+1][0]
			}
			if off >= ch[0] && off < end || w.o.EdgeOld && off == end && off > 0 {
				c, in = ch[1], off-ch[0]
				break
			}
		}
		p = append(p, uint64(c), uint64(in))
	} else {
		p = append(p, uint64(off))
	}
	switch s.coding {
	case CInt, CUint, CByte:
		p = append(p, uint64(skip))
	case CBool:
		p = append(p, uint64(skip), uint64(bits))
	}
	return
}

func (w *owriter) column(t *Type, e []Val, marks []int) {
	c := &ocol{t: t, marks: marks}
	w.cols = append(w.cols, c)
	anyNull := false
	var vals []Val
	present := make([]uint64, len(e))
	pre := make([]int, len(e)+1)
	for i, v := range e {
		pre[i+1] = pre[i]
		if v == nil {
			anyNull = true
			continue
		}
		present[i] = 1
		vals = append(vals, v)
		pre[i+1]++
	}
	for i, m := range marks {
		c.before = append(c.before, pre[m])
		end := len(e)
		if i+1 < len(marks) {
			end = marks[i+1]
		}
		n := pre[end] - pre[m]
		c.groups = append(c.groups, gstat{uint64(n), n != end-m})
	}
	c.total = gstat{uint64(len(vals)), anyNull}
	if anyNull && !t.Nullable {
		panic(fmt.Sprintf("spec: null in column %d %s", t.ID, t))
	}
	if t.Nullable && (anyNull || w.o.Always) {
		c.add(w, PRESENT, CBool, present)
	}
	u := make([]uint64, len(vals))
	raw := func() (data []uint64, lens []uint64) {
		off := make([]int, len(vals)+1)
		for i, v := range vals {
			var s string
			switch x := v.(type) {
			case string:
				s = x
			case Bin:
				s = string(x)
			}
			for j := 0; j < len(s); j++ {
				data = append(data, uint64(s[j]))
			}
			lens = append(lens, uint64(len(s)))
			off[i+1] = len(data)
		}
		for _, b := range c.before {
			c.raws = append(c.raws, off[b])
		}
		return
	}
	kidMarks := func(cum []int) (o []int) {
		for _, b := range c.before {
			o = append(o, cum[b])
		}
		return
	}
	switch t.Kind {
	case BOOLEAN:
		for i, v := range vals {
			if v.(bool) {
				u[i] = 1
			}
		}
		c.add(w, DATA, CBool, u)
	case BYTE:
		for i, v := range vals {
			u[i] = uint64(uint8(v.(int64)))
		}
		c.add(w, DATA, CByte, u)
	case SHORT, INT, LONG, DATE:
		c.enc = 2
		for i, v := range vals {
			u[i] = uint64(v.(int64))
		}
		c.add(w, DATA, CInt, u)
	case FLOAT:
		for i, v := range vals {
			u[i] = uint64(v.(F32))
		}
		c.add(w, DATA, CF4, u)
	case DOUBLE:
		for i, v := range vals {
			u[i] = uint64(v.(F64))
		}
		c.add(w, DATA, CF8, u)
	case STRING, VARCHAR, CHAR, BINARY:
		if dict := t.Dict != (w.o.Flip && w.o.stripe%2 == 1); dict && t.Kind != BINARY {
			c.enc = 3
			var dict []string
			seen := map[string]uint64{}
			for _, v := range vals {
				if _, ok := seen[v.(string)]; !ok {
					seen[v.(string)] = 0
					dict = append(dict, v.(string))
				}
			}
			sort.Strings(dict)
			if w.o.Loose {
				for i, j := 0, len(dict)-1; i < j; i, j = i+1, j-1 {
					dict[i], dict[j] = dict[j], dict[i]
				}
				dict = append(append([]string{"unused", ""}, dict...), dict...)
				dict = append(dict, "never", "")
			}
			var data, lens []uint64
			for i, s := range dict {
				if n := uint64(i); seen[s] == 0 || n%2 == 0 {
					seen[s] = n
				}
				for j := 0; j < len(s); j++ {
					data = append(data, uint64(s[j]))
				}
				lens = append(lens, uint64(len(s)))
			}
			c.dict = len(dict)
			for i, v := range vals {
				u[i] = seen[v.(string)]
			}
			c.add(w, DATA, CUint, u)
			c.add(w, DICT_DATA, CRaw, data)
			c.add(w, LENGTH, CUint, lens)
			break
		}
		c.enc = 2
		data, lens := raw()
		c.add(w, DATA, CRaw, data)
		c.add(w, LENGTH, CUint, lens)
	case TIMESTAMP:
		c.enc = 2
		n := make([]uint64, len(vals))
		for i, v := range vals {
			u[i] = uint64(v.(TS).Sec)
			n[i] = EncNano(v.(TS).Nano)
		}
		c.add(w, DATA, CInt, u)
		c.add(w, SECONDARY, CUint, n)
	case DECIMAL:
		c.enc = 2
		n := make([]uint64, len(vals))
		for i, v := range vals {
			u[i] = uint64(v.(Dec).U)
			n[i] = uint64(int64(v.(Dec).S))
		}
		c.add(w, DATA, CVar, u)
		c.add(w, SECONDARY, CInt, n)
	case STRUCT:
		cum := make([]int, len(vals)+1)
		for i := range cum {
			cum[i] = i
		}
		km := kidMarks(cum)
		for j, k := range t.Kids {
			ke := make([]Val, len(vals))
			for i, v := range vals {
				ke[i] = v.(S)[j]
			}
			w.column(k, ke, km)
		}
	case LIST:
		c.enc = 2
		cum := make([]int, len(vals)+1)
		var ke []Val
		for i, v := range vals {
			u[i] = uint64(len(v.(L)))
			ke = append(ke, v.(L)...)
			cum[i+1] = len(ke)
		}
		c.add(w, LENGTH, CUint, u)
		w.column(t.Kids[0], ke, kidMarks(cum))
	case MAP:
		c.enc = 2
		cum := make([]int, len(vals)+1)
		var kk, kv []Val
		for i, v := range vals {
			u[i] = uint64(len(v.(M)))
			for _, x := range v.(M) {
				kk, kv = append(kk, x[0]), append(kv, x[1])
			}
			cum[i+1] = len(kk)
		}
		c.add(w, LENGTH, CUint, u)
		w.column(t.Kids[0], kk, kidMarks(cum))
		w.column(t.Kids[1], kv, kidMarks(cum))
	}
}

// Write builds a whole file.
func Write(root *Type, rows []Val, o WOpt) []byte {
	if o.Block == 0 {
		o.Block = 256 * 1024
	}
	b := []byte("ORC")
	sizes := o.Stripes
	if sizes == nil && len(rows) > 0 {
		sizes = []int{len(rows)}
	}
	foot := &PB{}
	types := root.Flat()
	total := make([]gstat, len(types))
	var infos [][]byte
	for si, n := range sizes {
		o.stripe = si
		w := &owriter{o: o}
		var marks []int
		if o.Stride > 0 {
			for i := 0; i < n; i += o.Stride {
				marks = append(marks, i)
			}
		}
		w.column(root, rows[:n], marks)
		rows = rows[n:]
		off := len(b)
		var data []byte
		sf := &PB{}
		stream := func(kind, col, l int) {
			m := &PB{}
			m.U(1, uint64(kind)).U(2, uint64(col)).U(3, uint64(l))
			sf.Bytes(1, m.B)
		}
		var all []*ostream
		for _, c := range w.cols {
			total[c.t.ID].n += c.total.n
			total[c.t.ID].null = total[c.t.ID].null || c.total.null
			for _, s := range c.streams {
				s.plain = o.damage("stream", si, s.col, s.kind, s.plain)
				s.raw, s.chunks = w.chunk(s.plain)
				if len(s.raw) == 0 && o.Omit {
					continue
				}
				all = append(all, s)
			}
		}
		if o.Reverse {
			for i, j := 0, len(all)-1; i < j; i, j = i+1, j-1 {
				all[i], all[j] = all[j], all[i]
			}
		}
		index := 0
		if o.Stride > 0 {
			for _, c := range w.cols {
				ix := &PB{}
				for g := range c.marks {
					var pos []uint64
					for _, s := range c.streams {
						idx := c.before[g]
						switch {
						case s.kind == PRESENT:
							idx = c.marks[g]
						case s.coding == CRaw && c.raws != nil:
							idx = c.raws[g]
						case s.kind == DICT_DATA || s.kind == LENGTH && c.enc == 3:
							continue
						}
						pos = append(pos, w.pos(s, idx)...)
					}
					e := &PB{}
					e.Packed(1, pos)
					if !o.NoStats {
						e.Bytes(2, colStat(c.groups[g]))
					}
					ix.Bytes(1, e.B)
				}
				raw, _ := w.chunk(o.damage("index", si, c.t.ID, ROW_INDEX, ix.B))
				b = append(b, raw...)
				index += len(raw)
				stream(ROW_INDEX, c.t.ID, len(raw))
				if o.Bloom {
					bf := &PB{}
					bf.U(1, 3).Bytes(3, []byte{1, 2, 3, 4, 5, 6, 7, 8})
					bi := &PB{}
					bi.Bytes(1, bf.B)
					raw, _ := w.chunk(bi.B)
					b = append(b, raw...)
					index += len(raw)
					k := BLOOM_UTF8
					if c.t.ID%2 == 0 {
						k = BLOOM
					}
					stream(k, c.t.ID, len(raw))
				}
			}
		}
		for _, s := range all {
			data = append(data, s.raw...)
			stream(s.kind, s.col, len(s.raw))
		}
		b = append(b, data...)
		for _, c := range w.cols {
			m := &PB{}
			if o.Enc != nil {
				if e := o.Enc(c.t); e >= 0 {
					c.enc = e
				}
			}
			m.U(1, uint64(c.enc))
			if c.enc == 3 {
				m.U(2, uint64(c.dict))
			}
			sf.Bytes(2, m.B)
		}
		sf.Str(3, "UTC")
		raw, _ := w.chunk(o.damage("stripe", si, 0, 0, sf.B))
		b = append(b, raw...)
		si := &PB{}
		si.U(1, uint64(off)).U(2, uint64(index)).U(3, uint64(len(data))).U(4, uint64(len(raw))).U(5, uint64(o.count(o.stripe, n)))
		infos = append(infos, si.B)
		for i := 0; i < o.Gap; i++ {
			b = append(b, 0xee)
		}
	}
	content := uint64(len(b))
	fw := &owriter{o: o}
	meta := 0
	if o.Meta > 0 {
		m := &PB{}
		st := &PB{}
		st.Bytes(1, colStat(gstat{1, false}))
		for len(m.B) < o.Meta {
			m.Bytes(1, st.B)
		}
		raw, _ := fw.chunk(m.B)
		b = append(b, raw...)
		meta = len(raw)
	}
	n := 0
	for i, s := range sizes {
		n += o.count(i, s)
	}
	foot.U(1, 3).U(2, content)
	for _, i := range infos {
		foot.Bytes(3, i)
	}
	for _, t := range types {
		m := &PB{}
		if o.TypeKind != nil {
			m.U(1, uint64(o.TypeKind(t.ID)))
		} else {
			m.U(1, uint64(t.Kind))
		}
		var subs []uint64
		for _, k := range t.Kids {
			subs = append(subs, uint64(k.ID))
		}
		m.Packed(2, subs)
		for _, s := range t.Names {
			m.Str(3, s)
		}
		switch t.Kind {
		case DECIMAL:
			m.U(5, 18).U(6, 2)
		case VARCHAR, CHAR:
			m.U(4, 100)
		}
		foot.Bytes(4, m.B)
	}
	if o.User > 0 {
		u := make([]byte, o.User)
		x := uint32(1)
		for i := range u { // does not compress
			x = x*1664525 + 1013904223
			u[i] = byte(x >> 24)
		}
		m := &PB{}
		m.Str(1, "k").Bytes(2, u)
		foot.Bytes(5, m.B)
	}
	foot.U(6, uint64(n))
	if !o.NoStats {
		for _, g := range total {
			foot.Bytes(7, colStat(g))
		}
	}
	foot.U(8, uint64(o.Stride))
	raw, _ := fw.chunk(o.damage("footer", 0, 0, 0, foot.B))
	b = append(b, raw...)
	ps := &PB{}
	ps.U(1, uint64(len(raw)))
	if o.Comp > 0 {
		ps.U(2, uint64(o.Comp-1))
	} else if o.Zlib {
		ps.U(2, 1)
	} else {
		ps.U(2, 0)
	}
	if !o.NoBlock {
		ps.U(3, uint64(o.Block))
	}
	ps.Packed(4, []uint64{0, 12})
	ps.U(5, uint64(meta)).U(6, 6)
	if o.PS > 0 {
		ps.Bytes(77, make([]byte, o.PS))
	}
	ps.Str(8000, "ORC")
	ps.B = o.damage("postscript", 0, 0, 0, ps.B)
	b = append(b, ps.B...)
	return append(b, byte(len(ps.B)))
}

func colStat(g gstat) []byte {
	m := &PB{}
	m.U(1, g.n)
	if g.null {
		m.U(10, 1)
	} else {
		m.U(10, 0)
	}
	return m.B
}

func (o WOpt) damage(part string, stripe, col, kind int, b []byte) []byte {
	if o.Damage == nil {
		return b
	}
	return o.Damage(part, stripe, col, kind, b)
}
