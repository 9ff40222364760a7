property='C08'; pkg='orc'; helpers=True
edits=[('orc/column/string.go','''	w.data = map[string][]int{}
	w.count = 0
''','''	w.data = map[string][]int{}
''')]
needs='a dictionary column that goes into a second stripe'
breaks='rows of the second stripe get values of no row: the dictionary indexes of the first stripe are counted again'
demo='''
func TestZZDemo(t *testing.T) {
	d := demoCol(pb.Type_STRING, false)
	d.Encoding = pb.ColumnEncoding_DICTIONARY_V2
	td := demoStruct(d, demoCol(pb.Type_DOUBLE, false))
	o := demoOpts(false, false)
	o.StripeSize, o.ChunkSize = 64, 32
	f := newDemoFile()
	value := func(id uint32, i int) interface{} {
		if id == 1 {
			return fmt.Sprint("s", i%7)
		}
		return float64(i)
	}
	demoWrite(t, f, td, o, demoVec(td, 20, value))
	opt := &api.BatchOption{RowSize: 6}
	r, br := demoOpen(t, f, opt)
	rows := demoRows(t, r, br, opt, 1)
	if len(rows) != 20 {
		t.Fatal(len(rows), "rows")
	}
	for i, v := range rows {
		if v.V != value(1, i) {
			t.Fatalf("row %d is %v", i, v)
		}
	}
}
'''
