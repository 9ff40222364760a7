property='C14'; pkg='orc'; helpers=True; imports=['strings']
edits=[('orc/reader.go','''f.Seek(size-readSize-extra, 0)''','''f.Seek(size-psLen-footerSize, 0)''')]
needs='a file whose footer does not fit into the last 16 KB'
breaks='such files cannot be opened: the part before the last 16 KB is read from one byte too late'
demo='''
func TestZZDemo(t *testing.T) {
	for _, n := range []int{1, 1000, 15000, 17000, 40000} {
		td := demoCol(pb.Type_STRUCT, false, demoCol(pb.Type_INT, false))
		td.ChildrenNames[0] = strings.Repeat("n", n)
		if err := api.NormalizeSchema(td); err != nil {
			t.Fatal(err)
		}
		f := newDemoFile()
		demoWrite(t, f, td, demoOpts(false, false), demoVec(td, 3, func(id uint32, i int) interface{} { return int32(i) }))
		opt := &api.BatchOption{RowSize: 10}
		r, br := demoOpen(t, f, opt)
		if l := demoRows(t, r, br, opt, 1); len(l) != 3 || l[2].V != int32(2) || len(r.GetSchema().ChildrenNames[0]) != n {
			t.Fatalf("name of %d bytes: %v", n, l)
		}
	}
}
'''
