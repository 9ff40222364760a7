property='C18'; pkg='orc'; helpers=True; flags='-race'; imports=['sync']
edits=[('orc/column/reader.go','''		cBuf := &bytes.Buffer{}
''','''		cBuf := indexBuf
		cBuf.Reset()
'''),('orc/column/reader.go','''func (r *reader) InitIndex(''','''// all indexes are decompressed here
var indexBuf = &bytes.Buffer{}

func (r *reader) InitIndex(''')]
needs='two batch readers of compressed files with indexes that are made at the same time'
breaks='a batch reader gets the index of a column of another one'
demo='''
func TestZZDemo(t *testing.T) {
	td := demoStruct(demoCol(pb.Type_INT, false), demoCol(pb.Type_STRING, true))
	o := demoOpts(true, true)
	o.IndexStride = 3
	f := newDemoFile()
	demoWrite(t, f, td, o, demoVec(td, 20, func(id uint32, i int) interface{} {
		if id == 1 {
			return int32(i)
		}
		return fmt.Sprint(i)
	}))
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for n := 0; n < 50; n++ {
				r, err := newReader(&demoFile{data: f.data, fail: f.fail})
				if err != nil {
					t.Error(err)
					return
				}
				br, err := r.CreateBatchReader(&api.BatchOption{RowSize: 3})
				if err != nil {
					t.Error(err)
					return
				}
				if err := br.Seek(uint64(n % 20)); err != nil {
					t.Error(err)
				}
			}
		}()
	}
	wg.Wait()
}
'''
