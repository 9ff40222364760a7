property='C19'; pkg='orc'; helpers=True
edits=[('orc/stream/string.go','''	return encoding.DecodeBytes(r.stream, int(len))
}''','''	n := int(len)
	if n >= 0 && n <= r.stream.buf.Len() { // what is buffered need not be copied
		return r.stream.buf.Next(n), nil
	}
	return encoding.DecodeBytes(r.stream, n)
}''')]
needs='binary values that are kept while the reader goes on, over chunks or to another row'
breaks='delivered byte slices are part of the buffer of the stream and change when it is filled again'
demo='''
func TestZZDemo(t *testing.T) {
	td := demoStruct(demoCol(pb.Type_BINARY, false))
	o := demoOpts(true, false)
	o.ChunkSize = 64
	f := newDemoFile()
	value := func(i int) string { return fmt.Sprintf("value %04d", i) }
	demoWrite(t, f, td, o, demoVec(td, 100, func(id uint32, i int) interface{} { return []byte(value(i)) }))
	opt := &api.BatchOption{RowSize: 3}
	r, br := demoOpen(t, f, opt)
	rows := demoRows(t, r, br, opt, 1)
	if err := br.Seek(0); err != nil {
		t.Fatal(err)
	}
	demoRows(t, r, br, opt, 1)
	for i, v := range rows {
		if string(v.V.([]byte)) != value(i) {
			t.Fatalf("row %d became %q", i, v.V)
		}
	}
}
'''
