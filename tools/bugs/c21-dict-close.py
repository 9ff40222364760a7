property='C21'; pkg='orc'; helpers=True
edits=[('orc/column/string.go','''	r.data.Close()
	r.dict.Close()
	r.length.Close()
''','''	r.data.Close()
	r.length.Close()
''')]
needs='a string column with dictionary encoding, read and closed'
breaks='every stripe of every dictionary column leaves a file open after everything was closed'
demo='''
type countFile struct {
	orcio.File
	open *int
	done bool
}

func (f *countFile) Clone() (orcio.File, error) {
	c, err := f.File.Clone()
	*f.open++
	return &countFile{File: c, open: f.open}, err
}

func (f *countFile) Close() error {
	if f.done {
		return fmt.Errorf("closed twice")
	}
	f.done = true
	*f.open--
	return f.File.Close()
}

func TestZZDemo(t *testing.T) {
	td := demoStruct(demoCol(pb.Type_STRING, true), demoCol(pb.Type_INT, false))
	td.Children[0].Encoding = pb.ColumnEncoding_DICTIONARY_V2
	f := newDemoFile()
	demoWrite(t, f, td, demoOpts(true, true), demoVec(td, 30, func(id uint32, i int) interface{} {
		if id == 2 {
			return int32(i)
		}
		if i%4 == 0 {
			return nil
		}
		return fmt.Sprint("s", i%3)
	}))
	n := 1
	opt := &api.BatchOption{RowSize: 10}
	r, br := demoOpen(t, &countFile{File: f, open: &n}, opt)
	if l := demoRows(t, r, br, opt, 1); len(l) != 30 || l[4].Null != true || l[5].V != "s2" {
		t.Fatalf("read %v", l)
	}
	br.Close()
	r.Close()
	if n != 0 {
		t.Fatalf("%d files are open", n)
	}
}
'''
