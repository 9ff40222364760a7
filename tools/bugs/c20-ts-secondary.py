property='C20'; pkg='orc'; helpers=True
edits=[('orc/column/time.go','''			secondaryChunk = pos[3]
			secondaryChunkOffset = pos[4]
			secondaryOffset = pos[5]''','''			secondaryChunk = pos[3]
			secondaryChunkOffset = dataChunkOffset
			secondaryOffset = pos[5]''')]
needs='a compressed, indexed file with a timestamp column without nulls, a seek to a row group whose start is at different offsets of the chunks of the two streams'
breaks='after a seek nanoseconds belong to other rows'
demo='''
func TestZZDemo(t *testing.T) {
	td := demoStruct(demoCol(pb.Type_TIMESTAMP, false))
	o := demoOpts(true, true)
	o.IndexStride = 100
	f := newDemoFile()
	value := func(id uint32, i int) interface{} {
		s := int64(i * i * 1000)
		if i < 12 {
			s = 7
		}
		return api.Timestamp{Seconds: s, Nanos: uint64(i)*1001 + 1}
	}
	demoWrite(t, f, td, o, demoVec(td, 1500, value))
	opt := &api.BatchOption{RowSize: 2000}
	for n := 0; n < 1500; n += 50 {
		r, br := demoOpen(t, f, opt)
		if err := br.Seek(uint64(n)); err != nil {
			t.Fatal(err)
		}
		for i, v := range demoRows(t, r, br, opt, 1) {
			w, x := value(1, n+i).(api.Timestamp), v.V.(api.Timestamp)
			if w.Seconds != x.Seconds || w.Nanos != x.Nanos {
				t.Fatalf("seek %d: row %d is %v", n, n+i, x)
			}
		}
	}
}
'''
