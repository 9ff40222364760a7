property='C15'; pkg='orc'; helpers=True
edits=[('orc/column/time.go','''	if ns, err = w.secondary.WriteOut(out); err != nil {
		return
	}
	n = np + nd + ns
	return
''','''	ns, _ = w.secondary.WriteOut(out)
	n = np + nd + ns
	return
''')]
needs='a write of the file that fails while the second stream of a timestamp column is written out'
breaks='Write and Close report success, the file has lost the stream'
demo='''
type failOnce struct {
	*demoFile
	n      int
	failed bool
}

func (f *failOnce) Write(p []byte) (int, error) {
	f.n--
	if f.n == 0 {
		f.failed = true
		return 0, fmt.Errorf("no space")
	}
	return f.demoFile.Write(p)
}

func TestZZDemo(t *testing.T) {
	td := demoStruct(demoCol(pb.Type_TIMESTAMP, false))
	for n := 1; ; n++ {
		f := &failOnce{demoFile: newDemoFile(), n: n}
		o := demoOpts(false, false)
		w, err := newWriter(td, &o, f)
		if err == nil {
			err = w.Write(demoVec(td, 5, func(id uint32, i int) interface{} { return api.Timestamp{Seconds: int64(i), Nanos: uint64(i)} }))
			if cerr := w.Close(); err == nil {
				err = cerr
			}
		}
		if f.failed && err == nil {
			t.Fatalf("write %d failed, nobody said so", n)
		}
		if !f.failed {
			return
		}
	}
}
'''
