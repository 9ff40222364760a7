property='C09'; pkg='orc'; helpers=True
edits=[('orc/reader.go','''		if rows+br.stripes[i].numberOfRows > rowNumber {''','''		if rows+br.stripes[i].numberOfRows >= rowNumber {''')]
needs='a seek to the first row of a stripe other than the first'
breaks='the reader is put behind the last row of the stripe before, Next then delivers no rows of the stripe looked for at first, or fails'
demo='''
func TestZZDemo(t *testing.T) {
	td := demoStruct(demoCol(pb.Type_DOUBLE, false))
	o := demoOpts(false, false)
	o.StripeSize, o.ChunkSize = 64, 32
	f := newDemoFile()
	demoWrite(t, f, td, o, demoVec(td, 20, func(id uint32, i int) interface{} { return float64(i) }))
	opt := &api.BatchOption{RowSize: 5}
	for n := 0; n < 20; n++ {
		r, br := demoOpen(t, f, opt)
		if err := br.Seek(uint64(n)); err != nil {
			t.Fatal(err)
		}
		v, err := r.GetSchema().CreateVector(opt)
		if err != nil {
			t.Fatal(err)
		}
		if _, err := br.Next(v); err != nil {
			t.Fatal(err)
		}
		if v.Len() == 0 || v.Children[0].Vector[0].V != float64(n) {
			t.Fatalf("row %d is %v", n, v.Children[0].Vector)
		}
	}
}
'''
