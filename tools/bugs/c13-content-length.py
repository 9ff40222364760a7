property='C13'; pkg='orc'; helpers=True
edits=[('orc/writer.go','''		*ft.ContentLength += si.GetIndexLength() + si.GetDataLength() + si.GetFooterLength()''','''		*ft.ContentLength = si.GetIndexLength() + si.GetDataLength() + si.GetFooterLength()''')]
needs='a file of more than one stripe, looked at by a reader that uses the content length of the footer'
breaks='the content length of the file footer is that of the last stripe'
demo='''
func TestZZDemo(t *testing.T) {
	td := demoStruct(demoCol(pb.Type_DOUBLE, false))
	o := demoOpts(false, false)
	o.StripeSize, o.ChunkSize = 64, 32
	f := newDemoFile()
	demoWrite(t, f, td, o, demoVec(td, 20, func(id uint32, i int) interface{} { return float64(i) }))
	tail, err := extractFileTail(f)
	if err != nil {
		t.Fatal(err)
	}
	n := HeaderLength
	for _, s := range tail.Footer.Stripes {
		n += s.GetIndexLength() + s.GetDataLength() + s.GetFooterLength()
	}
	if len(tail.Footer.Stripes) < 2 || tail.Footer.GetContentLength() != n {
		t.Fatalf("%d stripes of %d bytes, content length is %d", len(tail.Footer.Stripes), n, tail.Footer.GetContentLength())
	}
}
'''
