package spec

import (
	"encoding/binary"
	"errors"
	"fmt"
)

// Stream kinds of the stripe footer.
const (
	PRESENT = iota
	DATA
	LENGTH
	DICT_DATA
	DICT_COUNT
	SECONDARY
	ROW_INDEX
	BLOOM
	BLOOM_UTF8
)

// Coding of the values of a stream.
type Coding byte

const (
	CInt  Coding = 'i' // RLEv2 signed
	CUint Coding = 'u' // RLEv2 unsigned
	CByte Coding = 'b' // byte RLE
	CBool Coding = 'B' // boolean RLE
	CF4   Coding = '4'
	CF8   Coding = '8'
	CVar  Coding = 'v' // zig-zag varints
	CRaw  Coding = 'c' // string contents
)

// DecodeStream decodes all values of an uncompressed stream (raw 64-bit patterns).
func DecodeStream(c Coding, b []byte) (v []uint64, err error) {
	switch c {
	case CInt, CUint:
		v, _, err = RLE2(b, c == CInt)
	case CByte:
		var o []byte
		o, err = ByteRLE(b)
		for _, x := range o {
			v = append(v, uint64(x))
		}
	case CBool:
		var o []bool
		o, err = Bools(b, -1)
		for _, x := range o {
			n := uint64(0)
			if x {
				n = 1
			}
			v = append(v, n)
		}
	case CF4:
		for ; len(b) >= 4; b = b[4:] {
			v = append(v, uint64(binary.LittleEndian.Uint32(b)))
		}
		if len(b) != 0 {
			err = ErrShort
		}
	case CF8:
		for ; len(b) >= 8; b = b[8:] {
			v = append(v, binary.LittleEndian.Uint64(b))
		}
		if len(b) != 0 {
			err = ErrShort
		}
	case CVar:
		for len(b) > 0 {
			x, n, e := BigVar(b)
			if e != nil {
				return v, e
			}
			if !x.IsInt64() {
				return v, errors.New("decimal of more than 64 bits")
			}
			v = append(v, uint64(x.Int64()))
			b = b[n:]
		}
	case CRaw:
		for _, x := range b {
			v = append(v, uint64(x))
		}
	}
	return
}

type StreamInfo struct {
	Kind, Col  int
	Off, Len   uint64
	raw, plain []byte
	coding     Coding
	vals       []uint64
	used       bool
}

type Entry struct {
	Pos   []uint64
	Stats Msg
}

type Stripe struct {
	Off, Index, Data, Foot, Rows uint64
	Streams                      []*StreamInfo
	Encoding                     []int
	DictSize                     []uint64
	RowIndex                     map[int][]Entry
	marks                        map[int][]int // column -> entry number at every row group start
	present                      map[int][]bool
	Vals                         []Val
}

type File struct {
	Root        *Type
	Types       []*Type
	Rows        []Val
	Stripes     []*Stripe
	Stats       []Msg
	Stride      int
	NumRows     uint64
	Compression int
	Block       uint64
}

// Read reads and validates a whole file. dicts and timestamps etc. follow the
// ORC v1 specification; nothing is tolerated that the specification does not allow.
func Read(b []byte) (f *File, err error) {
	if len(b) < 5 || string(b[:3]) != "ORC" {
		return nil, errors.New("no ORC header")
	}
	pl := int(b[len(b)-1])
	if pl > len(b)-4 {
		return nil, errors.New("postscript length")
	}
	psEnd := len(b) - 1
	psB := b[psEnd-pl : psEnd]
	ps, err := ParseMsg(psB)
	if err != nil {
		return nil, fmt.Errorf("postscript: %v", err)
	}
	if ps.S(8000) != "ORC" {
		return nil, errors.New("postscript magic")
	}
	if string(psB[len(psB)-3:]) != "ORC" {
		return nil, errors.New("postscript does not end with the magic")
	}
	if v, _ := ps.Us(4); len(v) != 2 || v[0] != 0 || v[1] != 12 {
		return nil, fmt.Errorf("version %v", v)
	}
	f = &File{Compression: int(ps.U(2)), Block: ps.U(3)}
	if f.Compression > 1 {
		return nil, errors.New("compression")
	}
	if v, _ := ps.Us(3); len(v) == 0 {
		f.Block = 1 << 18
	}
	if f.Compression == 1 && (f.Block == 0 || f.Block >= 1<<23) {
		return nil, errors.New("compression block size")
	}
	fl, ml := ps.U(1), ps.U(5)
	if fl+ml+uint64(pl)+1+3 > uint64(len(b)) {
		return nil, errors.New("footer length")
	}
	footOff := uint64(psEnd-pl) - fl
	footB, err := f.plain(b[footOff : footOff+fl])
	if err != nil {
		return nil, fmt.Errorf("footer: %v", err)
	}
	foot, err := ParseMsg(footB)
	if err != nil {
		return nil, fmt.Errorf("footer: %v", err)
	}
	if foot.U(1) != 3 {
		return nil, fmt.Errorf("header length %d", foot.U(1))
	}
	f.NumRows, f.Stride = foot.U(6), int(foot.U(8))
	// types
	for i, t := range foot[4] {
		m, err := ParseMsg(t.B)
		if err != nil {
			return nil, err
		}
		x := &Type{Kind: Kind(m.U(1)), ID: i}
		if !m.Has(1) {
			return nil, errors.New("type without kind")
		}
		for _, n := range m[3] {
			x.Names = append(x.Names, string(n.B))
		}
		f.Types = append(f.Types, x)
	}
	if len(f.Types) == 0 {
		return nil, errors.New("no types")
	}
	next := 0
	var build func(id int) error
	build = func(id int) error {
		if id != next || id >= len(f.Types) {
			return fmt.Errorf("type %d is not next in pre-order", id)
		}
		next++
		m, _ := ParseMsg(foot[4][id].B)
		subs, err := m.Us(2)
		if err != nil {
			return err
		}
		t := f.Types[id]
		if t.Kind == STRUCT && len(t.Names) != len(subs) || t.Kind != STRUCT && len(t.Names) != 0 {
			return fmt.Errorf("type %d names", id)
		}
		if want := map[Kind]int{LIST: 1, MAP: 2}[t.Kind]; t.Kind != STRUCT && t.Kind != UNION && len(subs) != want {
			return fmt.Errorf("type %d has %d subtypes", id, len(subs))
		}
		for _, s := range subs {
			if err := build(int(s)); err != nil {
				return err
			}
			t.Kids = append(t.Kids, f.Types[s])
		}
		return nil
	}
	if err := build(0); err != nil {
		return nil, err
	}
	if next != len(f.Types) {
		return nil, errors.New("types are no tree")
	}
	f.Root = f.Types[0].Number()
	for _, s := range foot[7] {
		m, err := ParseMsg(s.B)
		if err != nil {
			return nil, err
		}
		f.Stats = append(f.Stats, m)
	}
	if len(f.Stats) != 0 && len(f.Stats) != len(f.Types) {
		return nil, fmt.Errorf("%d statistics of %d columns", len(f.Stats), len(f.Types))
	}
	end := uint64(3)
	var rows uint64
	for i, s := range foot[3] {
		m, err := ParseMsg(s.B)
		if err != nil {
			return nil, err
		}
		st := &Stripe{Off: m.U(1), Index: m.U(2), Data: m.U(3), Foot: m.U(4), Rows: m.U(5)}
		if st.Off < end {
			return nil, fmt.Errorf("stripe %d starts at %d, the stripe before ends at %d", i, st.Off, end)
		}
		if st.Rows == 0 {
			return nil, fmt.Errorf("stripe %d has no rows", i)
		}
		end = st.Off + st.Index + st.Data + st.Foot
		if end > footOff-ml {
			return nil, fmt.Errorf("stripe %d ends at %d, the metadata or footer starts at %d", i, end, footOff-ml)
		}
		rows += st.Rows
		if err := f.stripe(b, st); err != nil {
			return nil, fmt.Errorf("stripe %d: %v", i, err)
		}
		f.Stripes = append(f.Stripes, st)
		f.Rows = append(f.Rows, st.Vals...)
	}
	if rows != f.NumRows {
		return nil, fmt.Errorf("file has %d rows, stripes %d", f.NumRows, rows)
	}
	// the length of the header and the body: all that lies before the metadata
	if foot.U(2) != footOff-ml {
		return nil, fmt.Errorf("content length %d, the header and the body have %d", foot.U(2), footOff-ml)
	}
	return f, nil
}

func (f *File) plain(b []byte) ([]byte, error) {
	if f.Compression == 0 {
		return b, nil
	}
	o, _, err := Dechunk(b, int(f.Block))
	return o, err
}

func (f *File) stripe(b []byte, st *Stripe) error {
	fo := st.Off + st.Index + st.Data
	fb, err := f.plain(b[fo : fo+st.Foot])
	if err != nil {
		return fmt.Errorf("footer: %v", err)
	}
	foot, err := ParseMsg(fb)
	if err != nil {
		return fmt.Errorf("footer: %v", err)
	}
	off := st.Off
	inData := false
	var il, dl uint64
	seen := map[[2]int]bool{}
	for _, s := range foot[1] {
		m, err := ParseMsg(s.B)
		if err != nil {
			return err
		}
		si := &StreamInfo{Kind: int(m.U(1)), Col: int(m.U(2)), Off: off, Len: m.U(3)}
		if si.Col >= len(f.Types) {
			return fmt.Errorf("stream of column %d", si.Col)
		}
		if seen[[2]int{si.Kind, si.Col}] {
			return fmt.Errorf("stream %d of column %d twice", si.Kind, si.Col)
		}
		seen[[2]int{si.Kind, si.Col}] = true
		if si.Kind >= ROW_INDEX {
			if inData {
				return errors.New("index stream after data streams")
			}
			il += si.Len
		} else {
			inData = true
			dl += si.Len
		}
		off += si.Len
		if off > fo {
			return errors.New("streams are longer than the stripe")
		}
		si.raw = b[si.Off : si.Off+si.Len]
		if si.plain, err = f.plain(si.raw); err != nil {
			return fmt.Errorf("stream %d of column %d: %v", si.Kind, si.Col, err)
		}
		st.Streams = append(st.Streams, si)
	}
	if il != st.Index || dl != st.Data {
		return fmt.Errorf("streams have %d index and %d data bytes, stripe %d and %d", il, dl, st.Index, st.Data)
	}
	for _, c := range foot[2] {
		m, err := ParseMsg(c.B)
		if err != nil {
			return err
		}
		st.Encoding = append(st.Encoding, int(m.U(1)))
		st.DictSize = append(st.DictSize, m.U(2))
	}
	if len(st.Encoding) != len(f.Types) {
		return fmt.Errorf("%d encodings of %d columns", len(st.Encoding), len(f.Types))
	}
	// row index
	st.RowIndex = map[int][]Entry{}
	st.marks = map[int][]int{}
	st.present = map[int][]bool{}
	for _, si := range st.Streams {
		if si.Kind != ROW_INDEX {
			continue
		}
		si.used = true
		m, err := ParseMsg(si.plain)
		if err != nil {
			return err
		}
		es := []Entry{}
		for _, e := range m[1] {
			em, err := ParseMsg(e.B)
			if err != nil {
				return err
			}
			pos, err := em.Us(1)
			if err != nil {
				return err
			}
			sm, err := em.Sub(2)
			if err != nil {
				return err
			}
			es = append(es, Entry{pos, sm})
		}
		st.RowIndex[si.Col] = es
	}
	var marks []int
	if f.Stride > 0 {
		for i := 0; i < int(st.Rows); i += f.Stride {
			marks = append(marks, i)
		}
		for c, es := range st.RowIndex {
			if len(es) != len(marks) {
				return fmt.Errorf("column %d has %d row groups, there are %d", c, len(es), len(marks))
			}
		}
	} else if len(st.RowIndex) > 0 {
		return errors.New("row index without stride")
	}
	if st.Vals, err = f.column(st, f.Root, int(st.Rows), marks); err != nil {
		return err
	}
	for _, si := range st.Streams {
		if !si.used && si.Kind < ROW_INDEX {
			return fmt.Errorf("stream %d of column %d does not belong to its type", si.Kind, si.Col)
		}
	}
	return nil
}

func (st *Stripe) stream(col, kind int) *StreamInfo {
	for _, s := range st.Streams {
		if s.Col == col && s.Kind == kind {
			s.used = true
			return s
		}
	}
	return &StreamInfo{Kind: kind, Col: col} // left out
}

// ints decodes a stream that must have exactly n values (n<0: any).
func (st *Stripe) vals(col, kind int, c Coding, n int) ([]uint64, error) {
	s := st.stream(col, kind)
	s.coding = c
	v, err := DecodeStream(c, s.plain)
	if err != nil {
		return nil, fmt.Errorf("column %d stream %d: %v", col, kind, err)
	}
	if c == CBool && n >= 0 {
		if len(v) != (n+7)/8*8 {
			return nil, fmt.Errorf("column %d stream %d has %d bits of %d values", col, kind, len(v), n)
		}
		v = v[:n]
	}
	if n >= 0 && len(v) != n {
		return nil, fmt.Errorf("column %d stream %d has %d values, not %d", col, kind, len(v), n)
	}
	s.vals = v
	return v, nil
}

func (f *File) column(st *Stripe, t *Type, n int, marks []int) ([]Val, error) {
	id := t.ID
	st.marks[id] = marks
	out := make([]Val, n)
	idx := make([]int, 0, n)
	if s := st.stream(id, PRESENT); s.Len > 0 {
		t.Nullable = true
		p, err := st.vals(id, PRESENT, CBool, n)
		if err != nil {
			return nil, err
		}
		pb := make([]bool, n)
		for i, x := range p {
			pb[i] = x == 1
			if pb[i] {
				idx = append(idx, i)
			}
		}
		st.present[id] = pb
	} else {
		for i := 0; i < n; i++ {
			idx = append(idx, i)
		}
	}
	k := len(idx)
	e := st.Encoding[id]
	need := func(w ...int) error {
		for _, x := range w {
			if e == x {
				return nil
			}
		}
		return fmt.Errorf("column %d %s has encoding %d", id, t.Kind, e)
	}
	kidMarks := func(cum []int) []int { // entry numbers of a child: cum[j] entries before non-null value j
		var o []int
		j := 0
		for _, m := range marks {
			for j < k && idx[j] < m {
				j++
			}
			o = append(o, cum[j])
		}
		return o
	}
	switch t.Kind {
	case BOOLEAN:
		if err := need(0); err != nil {
			return nil, err
		}
		v, err := st.vals(id, DATA, CBool, k)
		if err != nil {
			return nil, err
		}
		for i, x := range v {
			out[idx[i]] = x == 1
		}
	case BYTE:
		if err := need(0); err != nil {
			return nil, err
		}
		v, err := st.vals(id, DATA, CByte, k)
		if err != nil {
			return nil, err
		}
		for i, x := range v {
			out[idx[i]] = int64(int8(x))
		}
	case SHORT, INT, LONG, DATE:
		if err := need(2); err != nil {
			return nil, err
		}
		v, err := st.vals(id, DATA, CInt, k)
		if err != nil {
			return nil, err
		}
		bits := map[Kind]uint{SHORT: 16, INT: 32, LONG: 64, DATE: 32}[t.Kind]
		for i, x := range v {
			y := int64(x)
			if y != y<<(64-bits)>>(64-bits) {
				return nil, fmt.Errorf("column %d %s value %d", id, t.Kind, y)
			}
			out[idx[i]] = y
		}
	case FLOAT, DOUBLE:
		if err := need(0); err != nil {
			return nil, err
		}
		c := CF4
		if t.Kind == DOUBLE {
			c = CF8
		}
		v, err := st.vals(id, DATA, c, k)
		if err != nil {
			return nil, err
		}
		for i, x := range v {
			if t.Kind == DOUBLE {
				out[idx[i]] = F64(x)
			} else {
				out[idx[i]] = F32(x)
			}
		}
	case STRING, VARCHAR, CHAR, BINARY:
		if t.Kind == BINARY {
			if err := need(2); err != nil {
				return nil, err
			}
		} else if err := need(2, 3); err != nil {
			return nil, err
		}
		mk := func(b []uint64) Val {
			s := make([]byte, len(b))
			for i, x := range b {
				s[i] = byte(x)
			}
			if t.Kind == BINARY {
				return Bin(s)
			}
			return string(s)
		}
		cut := func(data, lens []uint64) (o []Val, err error) {
			for _, l := range lens {
				if l > uint64(len(data)) {
					return nil, fmt.Errorf("column %d has too little data", id)
				}
				o = append(o, mk(data[:l]))
				data = data[l:]
			}
			if len(data) != 0 {
				return nil, fmt.Errorf("column %d has %d bytes too much", id, len(data))
			}
			return
		}
		if e == 2 {
			l, err := st.vals(id, LENGTH, CUint, k)
			if err != nil {
				return nil, err
			}
			d, err := st.vals(id, DATA, CRaw, -1)
			if err != nil {
				return nil, err
			}
			o, err := cut(d, l)
			if err != nil {
				return nil, err
			}
			for i, x := range o {
				out[idx[i]] = x
			}
			break
		}
		t.Dict = true
		ds := int(st.DictSize[id])
		l, err := st.vals(id, LENGTH, CUint, ds)
		if err != nil {
			return nil, err
		}
		d, err := st.vals(id, DICT_DATA, CRaw, -1)
		if err != nil {
			return nil, err
		}
		dict, err := cut(d, l)
		if err != nil {
			return nil, err
		}
		v, err := st.vals(id, DATA, CUint, k)
		if err != nil {
			return nil, err
		}
		for i, x := range v {
			if x >= uint64(len(dict)) {
				return nil, fmt.Errorf("column %d dictionary index %d of %d", id, x, len(dict))
			}
			out[idx[i]] = dict[x]
		}
	case TIMESTAMP:
		if err := need(2); err != nil {
			return nil, err
		}
		s, err := st.vals(id, DATA, CInt, k)
		if err != nil {
			return nil, err
		}
		n, err := st.vals(id, SECONDARY, CUint, k)
		if err != nil {
			return nil, err
		}
		for i := range s {
			out[idx[i]] = TS{int64(s[i]), DecNano(n[i])}
		}
	case DECIMAL:
		if err := need(2); err != nil {
			return nil, err
		}
		s, err := st.vals(id, DATA, CVar, k)
		if err != nil {
			return nil, err
		}
		n, err := st.vals(id, SECONDARY, CInt, k)
		if err != nil {
			return nil, err
		}
		for i := range s {
			out[idx[i]] = Dec{int64(s[i]), int(int64(n[i]))}
		}
	case STRUCT:
		if err := need(0); err != nil {
			return nil, err
		}
		cum := make([]int, k+1)
		for i := range cum {
			cum[i] = i
		}
		km := kidMarks(cum)
		for i := range idx {
			out[idx[i]] = make(S, len(t.Kids))
		}
		for j, c := range t.Kids {
			v, err := f.column(st, c, k, km)
			if err != nil {
				return nil, err
			}
			for i := range idx {
				out[idx[i]].(S)[j] = v[i]
			}
		}
	case LIST, MAP:
		if err := need(2); err != nil {
			return nil, err
		}
		l, err := st.vals(id, LENGTH, CUint, k)
		if err != nil {
			return nil, err
		}
		cum := make([]int, k+1)
		for i, x := range l {
			cum[i+1] = cum[i] + int(x)
		}
		var kids [2][]Val
		for j, c := range t.Kids {
			if kids[j], err = f.column(st, c, cum[k], kidMarks(cum)); err != nil {
				return nil, err
			}
		}
		for i := range idx {
			a, b := cum[i], cum[i+1]
			if t.Kind == LIST {
				out[idx[i]] = L(append([]Val{}, kids[0][a:b]...))
				continue
			}
			m := M{}
			for x := a; x < b; x++ {
				m = append(m, [2]Val{kids[0][x], kids[1][x]})
			}
			out[idx[i]] = m
		}
	default:
		return nil, fmt.Errorf("kind %d", t.Kind)
	}
	return out, nil
}

// IndexStreams are the streams with positions in the row index of a column, in order.
func IndexStreams(t *Type, dict bool) (kinds []int) {
	switch t.Kind {
	case STRUCT:
	case STRING, VARCHAR, CHAR, BINARY:
		kinds = []int{DATA}
		if !dict {
			kinds = []int{DATA, LENGTH}
		}
	case TIMESTAMP, DECIMAL:
		kinds = []int{DATA, SECONDARY}
	case LIST, MAP:
		kinds = []int{LENGTH}
	default:
		kinds = []int{DATA}
	}
	return
}

// CheckIndex verifies that the positions of every row group of every column
// lead to exactly the values from the start of the group.
func (f *File) CheckIndex() (groups int, err error) {
	last := map[*StreamInfo]decoded{}
	for si, st := range f.Stripes {
		for _, t := range f.Types {
			es, ok := st.RowIndex[t.ID]
			if !ok {
				continue
			}
			for g, e := range es {
				groups++
				pos := e.Pos
				entry := st.marks[t.ID][g]
				// values before the group
				before := entry
				if p := st.present[t.ID]; p != nil {
					before = 0
					for _, x := range p[:entry] {
						if x {
							before++
						}
					}
				}
				kinds := IndexStreams(t, st.Encoding[t.ID] == 3)
				if st.present[t.ID] != nil {
					kinds = append([]int{PRESENT}, kinds...)
				}
				for _, k := range kinds {
					s := st.stream(t.ID, k)
					want := before
					switch {
					case k == PRESENT:
						want = entry
					case s.coding == CRaw:
						want = 0
						for _, l := range st.stream(t.ID, LENGTH).vals[:before] {
							want += int(l)
						}
					}
					if pos, err = f.checkPos(s, pos, want, last); err != nil {
						return groups, fmt.Errorf("stripe %d column %d %s row group %d stream %d: %v (positions %v)", si, t.ID, t.Kind, g, k, err, e.Pos)
					}
				}
				if len(pos) != 0 {
					return groups, fmt.Errorf("stripe %d column %d %s row group %d: positions %v left of %v", si, t.ID, t.Kind, g, pos, e.Pos)
				}
			}
		}
	}
	return
}

// decoded are the values of a stream from a position of its bytes on; many row groups start in one run.
type decoded struct {
	at   string
	vals []uint64
}

func (f *File) checkPos(s *StreamInfo, pos []uint64, want int, last map[*StreamInfo]decoded) ([]uint64, error) {
	n := map[Coding]int{CInt: 2, CUint: 2, CByte: 2, CBool: 3, CF4: 1, CF8: 1, CVar: 1, CRaw: 1}[s.coding]
	if f.Compression != 0 {
		n++
	}
	if len(pos) < n {
		return nil, fmt.Errorf("too few positions")
	}
	p := pos[:n]
	pos = pos[n:]
	at := fmt.Sprint(p[:1])
	if f.Compression != 0 {
		at = fmt.Sprint(p[:2])
	}
	d := last[s]
	if d.at != at {
		raw := s.raw
		if f.Compression != 0 {
			if p[0] > uint64(len(raw)) {
				return nil, fmt.Errorf("chunk at %d of %d bytes", p[0], len(raw))
			}
			raw = raw[p[0]:]
			p = p[1:]
		}
		plain, err := f.plain(raw)
		if err != nil {
			return nil, err
		}
		if p[0] > uint64(len(plain)) {
			return nil, fmt.Errorf("offset %d of %d", p[0], len(plain))
		}
		v, err := DecodeStream(s.coding, plain[p[0]:])
		if err != nil {
			return nil, err
		}
		d = decoded{at, v}
		last[s] = d
	} else if f.Compression != 0 {
		p = p[1:]
	}
	v := d.vals
	skip := uint64(0)
	switch s.coding {
	case CInt, CUint, CByte:
		skip = p[1]
	case CBool:
		if p[2] > 7 {
			return nil, fmt.Errorf("bit %d", p[2])
		}
		skip = p[1]*8 + p[2]
	}
	if skip > uint64(len(v)) {
		return nil, fmt.Errorf("skip %d of %d values", skip, len(v))
	}
	v = v[skip:]
	rest := s.vals[want:]
	if s.coding == CBool && len(v) >= len(rest) && len(v) < len(rest)+8 {
		v = v[:len(rest)]
	}
	if len(v) != len(rest) {
		return nil, fmt.Errorf("%d values from the position, %d expected", len(v), len(rest))
	}
	for i := range v {
		if v[i] != rest[i] {
			return nil, fmt.Errorf("value %d after the position is %d, not %d", i, int64(v[i]), int64(rest[i]))
		}
	}
	return pos, nil
}

// Marks are the entry numbers at the row group starts of a column.
func (s *Stripe) Marks(col int) []int         { return s.marks[col] }
func (s *Stripe) Present(col int) []bool      { return s.present[col] }
func (s *StreamInfo) Vals() []uint64          { return s.vals }
func (s *Stripe) Stream(c, k int) *StreamInfo { return s.stream(c, k) }
