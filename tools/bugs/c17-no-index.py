property='C17'; pkg='orc'; helpers=True
edits=[('orc/column/reader.go','''	if r.index == nil {
		err = errors.New("no index")
		return
	}
	if stride''','''	if stride''')]
needs='a stripe footer that lost the row index of a column (here: a damaged stream kind) in a file with a row index stride, and a Seek beyond the first row group'
breaks='Seek panics instead of going on without the index or returning an error'
demo='''
func TestZZDemo(t *testing.T) {
	td := demoStruct(demoCol(pb.Type_INT, false))
	o := demoOpts(false, true)
	o.IndexStride = 3
	f := newDemoFile()
	demoWrite(t, f, td, o, demoVec(td, 20, func(id uint32, i int) interface{} { return int32(i * i * i) }))
	for at := range *f.data {
		for bit := uint(0); bit < 8; bit++ {
			data := append([]byte{}, *f.data...)
			data[at] ^= 1 << bit
			demoDamaged(&demoFile{data: &data, fail: f.fail})
		}
	}
}

func demoDamaged(f *demoFile) {
	r, err := newReader(f)
	if err != nil {
		return
	}
	defer r.Close()
	if r.NumberOfRows() > 100 {
		return
	}
	opt := &api.BatchOption{RowSize: 20}
	br, err := r.CreateBatchReader(opt)
	if err != nil {
		return
	}
	defer br.Close()
	vec, err := r.GetSchema().CreateVector(opt)
	if err != nil {
		return
	}
	if br.Seek(13) == nil {
		br.Next(vec)
	}
}
'''
