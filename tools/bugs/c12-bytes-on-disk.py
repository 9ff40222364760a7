property='C12'; pkg='orc'; helpers=True
edits=[('orc/column/time.go','''	*w.stats.BytesOnDisk += w.data.Info().GetLength()
	w.flushed = true''','''	*w.stats.BytesOnDisk = w.data.Info().GetLength()
	w.flushed = true''')]
needs='a date column with nulls, or in more than one stripe'
breaks='the bytes on disk of the column are those of one stream of the last stripe'
demo='''
func TestZZDemo(t *testing.T) {
	td := demoStruct(demoCol(pb.Type_DATE, true))
	f := newDemoFile()
	demoWrite(t, f, td, demoOpts(false, false), demoVec(td, 9, func(id uint32, i int) interface{} {
		if i%3 == 1 {
			return nil
		}
		return api.FromDays(int32(i * i * 100))
	}))
	r, br := demoOpen(t, f, &api.BatchOption{RowSize: 10})
	var n uint64
	sr := br.(*batchReader).stripes[0]
	footer, err := sr.readFooter(r.(*reader).stripes[0])
	if err != nil {
		t.Fatal(err)
	}
	for _, s := range footer.Streams {
		if s.GetColumn() == 1 && s.GetKind() != pb.Stream_ROW_INDEX {
			n += s.GetLength()
		}
	}
	if b := r.GetStatistics()[1].GetBytesOnDisk(); b != n {
		t.Fatalf("statistics say %d bytes, streams have %d", b, n)
	}
}
'''
