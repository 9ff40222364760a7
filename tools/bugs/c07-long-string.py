property='C07'; pkg='orc'; helpers=True; imports=['strings']
edits=[('orc/column/string.go','''		if err := w.length.Write(uint64(dataLength)); err != nil {''','''		if err := w.length.Write(uint64(uint16(dataLength))); err != nil {''')]
needs='a string of 65536 bytes or more'
breaks='the length of long strings is stored cut to 16 bits, the string and all after it are read wrong'
demo='''
func TestZZDemo(t *testing.T) {
	td := demoStruct(demoCol(pb.Type_STRING, false))
	f := newDemoFile()
	size := []int{3, 0, 65535, 5, 65536, 7, 70001, 9}
	o := demoOpts(false, false)
	demoWrite(t, f, td, o, demoVec(td, len(size), func(id uint32, i int) interface{} { return strings.Repeat(string(rune('a'+i)), size[i]) }))
	opt := &api.BatchOption{RowSize: 20}
	r, br := demoOpen(t, f, opt)
	for i, v := range demoRows(t, r, br, opt, 1) {
		if s := v.V.(string); s != strings.Repeat(string(rune('a'+i)), size[i]) {
			t.Fatalf("row %d has %d bytes, %d were written", i, len(s), size[i])
		}
	}
}
'''
