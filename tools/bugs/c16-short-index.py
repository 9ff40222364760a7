property='C16'; pkg='orc'; helpers=True
edits=[('orc/column/reader.go','''	if _, err := io.ReadFull(r.f, tBuf); err != nil {
		return errors.WithStack(err)
	}
	if r.opts''','''	if n, err := r.f.Read(tBuf); err != nil && !(err == io.EOF && n > 0) {
		return errors.WithStack(err)
	}
	if r.opts''')]
needs='a file whose reads deliver less than asked for, while the index of a column is read'
breaks='the index is taken from a buffer that is filled in part: opening fails or Seek goes to the wrong rows'
demo='''
func TestZZDemo(t *testing.T) {
	td := demoStruct(demoCol(pb.Type_INT, false))
	o := demoOpts(false, true)
	o.IndexStride = 3
	f := newDemoFile()
	demoWrite(t, f, td, o, demoVec(td, 20, func(id uint32, i int) interface{} { return int32(i * i * i) }))
	for short := 1; short < 60; short++ {
		opt := &api.BatchOption{RowSize: 20}
		r, br := demoOpen(t, &demoFile{data: f.data, fail: f.fail, short: short}, opt)
		if err := br.Seek(13); err != nil {
			t.Fatal(err)
		}
		for i, v := range demoRows(t, r, br, opt, 1) {
			if i += 13; v.V != int32(i*i*i) {
				t.Fatalf("reads of %d bytes: row %d is %v", short, i, v)
			}
		}
	}
}
'''
