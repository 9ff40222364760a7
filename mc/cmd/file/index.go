package main

import (
	"fmt"

	"goorcmc/mcx"
	"goorcmc/memf"
	"goorcmc/spec"

	"github.com/patrickhuang888/goorc/orc/api"
	"github.com/patrickhuang888/goorc/orc/column"
	"github.com/patrickhuang888/goorc/orc/config"
	"github.com/patrickhuang888/goorc/pb/pb"
)

// checkGroups compares the recorded positions and statistics of every row group with the rows, and seeks to every one of them.
func checkGroups(t *mcx.T, d *memf.Disk, ty *spec.Type, rows []Val) {
	f := readBySpec(t, d, rows)
	if x := diff(rows, f.Rows); x != "" {
		t.Failf("%s", x)
	}
	n, err := f.CheckIndex()
	if err != nil {
		t.Failf("%v; rows %s of %s", err, spec.ShowAll(rows), ty)
	}
	t.Step(n)
	at := 0
	var starts []int
	for si, st := range f.Stripes {
		for lo := 0; lo < int(st.Rows); lo += f.Stride {
			hi := lo + f.Stride
			if hi > int(st.Rows) {
				hi = int(st.Rows)
			}
			starts = append(starts, at+lo)
			cols := perColumn(ty, rows[at+lo:at+hi])
			for id, es := range st.RowIndex {
				if s := es[lo/f.Stride].Stats; s != nil {
					if err := checkStats(f.Types[id], s, cols[id]); err != nil {
						t.Failf("stripe %d column %d of %s row group %d: %v; values %s", si, id, ty, lo/f.Stride, err, spec.ShowAll(cols[id].vals))
					}
					t.Step(1)
				}
			}
		}
		at += int(st.Rows)
	}
	if len(starts) > 40 {
		starts = append(append([]int{}, starts[:20]...), starts[len(starts)-20:]...)
	}
	s, err := open(d, ty, ropt{cap: 3})
	if err != nil {
		t.Failf("%v", err)
	}
	defer s.close()
	for i := len(starts) - 1; i >= 0; i-- {
		if err := s.br.Seek(uint64(starts[i])); err != nil {
			t.Failf("Seek(%d) of %d rows: %v", starts[i], len(rows), err)
		}
		got, _, err := s.next()
		if err != nil || len(got) == 0 {
			t.Failf("Next after Seek(%d): %d rows, %v", starts[i], len(got), err)
		}
		if x := diff(rows[starts[i]:starts[i]+len(got)], got); x != "" {
			t.Failf("Next after Seek(%d): %s; rows %s of %s", starts[i], x, spec.ShowAll(rows), ty)
		}
		t.Step(1)
	}
	t.StateS(fmt.Sprint(ty, starts, len(d.Data)))
}

// colReader is a reader of one column of one stripe, without the file reader.
type colReader struct {
	r    column.Reader
	ty   *spec.Type
	rows []Val // of the column in the stripe
}

func columnReader(t *mcx.T, im *image, f *spec.File, si, id int) *colReader {
	st := f.Stripes[si]
	kind := pb.Type_Kind(f.Types[id].Kind)
	sch := &api.TypeDescription{Id: uint32(id), Kind: kind, Encoding: pb.ColumnEncoding_Kind(st.Encoding[id]), HasNulls: st.Present(id) != nil}
	o := &config.ReaderOptions{CompressionKind: pb.CompressionKind(f.Compression), ChunkSize: f.Block, IndexStride: f.Stride}
	if f.Compression == 0 {
		o.ChunkSize = 1024
	}
	r, err := column.NewReader(sch, o, im.disk().Handle())
	if err != nil {
		t.Failf("column reader: %v", err)
	}
	missing := map[pb.Stream_Kind]bool{}
	for _, k := range colStreams(sch) {
		missing[k] = true
	}
	for _, s := range st.Streams {
		if s.Col != id {
			continue
		}
		k := pb.Stream_Kind(s.Kind)
		if k == pb.Stream_ROW_INDEX {
			err = r.InitIndex(s.Off, s.Len)
		} else {
			col, l := uint32(id), s.Len
			err = r.InitStream(&pb.Stream{Column: &col, Kind: &k, Length: &l}, s.Off)
			delete(missing, k)
		}
		if err != nil {
			t.Failf("init of stream %v: %v", k, err)
		}
	}
	for k := range missing {
		col, k := uint32(id), k
		if err = r.InitStream(&pb.Stream{Column: &col, Kind: &k, Length: new(uint64)}, st.Off); err != nil {
			t.Failf("init of stream %v: %v", k, err)
		}
	}
	c := &colReader{r: r, ty: f.Types[id]}
	for _, v := range st.Vals {
		if f.Types[id] != f.Root {
			v = v.(spec.S)[id-1]
		}
		c.rows = append(c.rows, v)
	}
	return c
}

// colStreams returns the streams a column has besides present
func colStreams(x *api.TypeDescription) []pb.Stream_Kind {
	switch x.Kind {
	case pb.Type_STRUCT:
		return nil
	case pb.Type_LIST, pb.Type_MAP:
		return []pb.Stream_Kind{pb.Stream_LENGTH}
	case pb.Type_DECIMAL, pb.Type_TIMESTAMP:
		return []pb.Stream_Kind{pb.Stream_DATA, pb.Stream_SECONDARY}
	case pb.Type_BINARY, pb.Type_STRING, pb.Type_CHAR, pb.Type_VARCHAR:
		if x.Encoding == pb.ColumnEncoding_DICTIONARY_V2 || x.Encoding == pb.ColumnEncoding_DICTIONARY {
			return []pb.Stream_Kind{pb.Stream_DATA, pb.Stream_DICTIONARY_DATA, pb.Stream_LENGTH}
		}
		return []pb.Stream_Kind{pb.Stream_DATA, pb.Stream_LENGTH}
	}
	return []pb.Stream_Kind{pb.Stream_DATA}
}

// play runs group g, then skips and reads: a history is a list of (group, skip, read).
func (c *colReader) play(t *mcx.T, stride int, hist [][3]int) {
	for i, h := range hist {
		if err := c.r.SeekStride(h[0]); err != nil {
			t.Failf("SeekStride(%d): %v; %v", h[0], err, hist[:i+1])
		}
		at := h[0] * stride
		skip := h[1]
		if at+skip > len(c.rows) {
			skip = len(c.rows) - at
		}
		if skip > 0 {
			if err := c.r.Skip(uint64(skip)); err != nil {
				t.Failf("Skip(%d) at row %d: %v; %v", skip, at, err, hist[:i+1])
			}
			at += skip
		}
		n := h[2]
		if n < 0 || at+n > len(c.rows) {
			n = len(c.rows) - at
		}
		if n > 0 {
			vec := &api.ColumnVector{Id: uint32(c.ty.ID), Kind: pb.Type_Kind(c.ty.Kind), Vector: make([]api.Value, n)}
			if err := c.r.NextBatch(vec); err != nil {
				t.Failf("NextBatch at row %d: %v; %v", at, err, hist[:i+1])
			}
			got, err := fromVec(c.ty, vec, n, func(int) bool { return true }, nil)
			if err != nil {
				t.Failf("NextBatch at row %d: %v; %v", at, err, hist[:i+1])
			}
			if x := diff(c.rows[at:at+n], got); x != "" {
				t.Failf("NextBatch at row %d: %s; %v of %s %s", at, x, hist[:i+1], c.ty, spec.ShowAll(c.rows))
			}
		}
		t.Step(3)
	}
}

func C20(c *mcx.Ctx) {
	c.Assume("columns are read through column.NewReader with the streams and the index the stripe footer names, as the stripe reader does")

	files(c, true, func(t *mcx.T, w wcase) {
		if !w.cfg.index {
			return
		}
		checkGroups(t, w.write(t), w.t, w.rows)
	})

	c.Group("every history of row groups, short columns")
	n := 9
	depth := 2
	if c.Thorough {
		n, depth = 12, 3
	}
	histories := func(groups, skips, reads []int, depth int, f func([][3]int)) {
		var ops [][3]int
		for _, g := range groups {
			for _, s := range skips {
				for _, r := range reads {
					ops = append(ops, [3]int{g, s, r})
				}
			}
		}
		mcx.Seqs(len(ops), depth, depth, func(idx []int) {
			h := make([][3]int, 0, len(idx))
			for _, x := range idx {
				h = append(h, ops[x])
			}
			if last := &h[len(h)-1]; last[2] != reads[0] { // reads to the end, once
				return
			} else {
				last[2] = -1
			}
			f(h)
		})
	}
	run := func(im *image, f *spec.File, si, id int, groups, skips, reads []int, depth int) {
		c.Do(func() string { return fmt.Sprint(im.name, " stripe ", si, " column ", id) }, func(t *mcx.T) {
			histories(groups, skips, reads, depth, func(h [][3]int) {
				col := columnReader(t, im, f, si, id)
				col.play(t, f.Stride, h)
				col.r.Close()
			})
			t.StateS(fmt.Sprint(im.name, si, id))
		})
	}
	each := func(im *image, skips, reads []int, max, depth int) {
		if im.data == nil {
			return
		}
		f, err := spec.Read(im.data)
		if err != nil {
			c.Do(func() string { return im.name }, func(t *mcx.T) { t.Failf("%v", err) })
			return
		}
		for si, st := range f.Stripes {
			for _, ty := range f.Types {
				if len(ty.Kids) > 0 || ty.Kind == spec.STRUCT || st.RowIndex[ty.ID] == nil {
					continue
				}
				var groups []int
				for g := range st.RowIndex[ty.ID] {
					if len(st.RowIndex[ty.ID]) > max && g >= max/2 && g < len(st.RowIndex[ty.ID])-max/2 {
						continue
					}
					groups = append(groups, g)
				}
				run(im, f, si, ty.ID, groups, skips, reads, depth)
			}
		}
	}
	for li, leaf := range leafTypes() {
		for _, null := range []bool{false, true} {
			ty := wrap(leaf)
			pats := []byte("cdh")
			if null {
				ty = wrap(leaf.Null())
				pats = []byte("nxy")
			}
			for _, p := range pats {
				var v []Val
				for i := 0; i < n; i++ {
					if p == 'y' {
						if i < 4 || i == 6 {
							v = append(v, nil)
						} else {
							v = append(v, pattern(leaf, 'h', i))
						}
						continue
					}
					v = append(v, pattern(leaf, p, i))
				}
				rows := colRows(v)
				for _, stride := range []int{1, 2, 3, 4, 8} {
					for _, cfg := range []wcfg{{}, {zlib: true, chunk: 1}, {zlib: true, chunk: 4}, {zlib: true, chunk: 1000}, {chunk: 2}, {stripe: 12}} {
						cfg.index, cfg.stride = true, stride
						each(libImage(c, fmt.Sprintf("lib %d %c", li, p), ty, rows, nil, cfg), []int{0, 1, 3}, []int{0, 1, 4}, 9, depth)
					}
					for mi, mode := range []string{"o", "zo"} {
						o := spec.WOpt{Stripes: []int{5, n - 5}, Stride: stride, Zlib: true, Block: 3 + mi*40, Mode: mode, Always: mi == 1}
						each(specImage(fmt.Sprintf("spec %d %c %s/%d", li, p, mode, stride), ty, rows, o), []int{0, 1, 3}, []int{0, 1, 4}, 9, depth)
					}
				}
			}
		}
	}

	c.Group("every history of row groups, short runs")
	for _, im := range shortRuns(90, c.Thorough) {
		if im.t.Kind != spec.STRUCT || len(im.t.Kids) != 1 || len(im.t.Kids[0].Kids) > 0 {
			continue
		}
		each(im, []int{0, 3}, []int{0, 2}, 9, 2)
	}

	c.Group("every pair of row groups, runs of every kind")
	lens := []int{1300}
	if c.Thorough {
		lens = []int{600, 1300, 2600}
	}
	for li, leaf := range leafTypes() {
		for _, p := range []byte("cdaohx") {
			ty := wrap(leaf)
			if p == 'x' {
				ty = wrap(leaf.Null())
			}
			for _, n := range lens {
				if leaf.Kind == spec.BOOLEAN {
					n *= 2 // more bytes than a run has
				}
				var v []Val
				for i := 0; i < n; i++ {
					v = append(v, pattern(leaf, p, i))
				}
				rows := colRows(v)
				for _, stride := range []int{100, 128, 512} {
					for _, cfg := range []wcfg{{}, {zlib: true, chunk: 33}, {zlib: true, chunk: 2000}, {stripe: 1000}} {
						cfg.index, cfg.stride = true, stride
						each(libImage(c, fmt.Sprintf("lib %d %c", li, p), ty, rows, nil, cfg), []int{0, 17}, []int{0, 31}, 14, 2)
					}
				}
			}
		}
	}
}
