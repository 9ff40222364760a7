property='C10'; pkg='orc'; helpers=True
edits=[('orc/api/type.go','''	for _, v := range bo.Includes {
		if v == id {
			return true
		}
	}
	return false
}
''','''	i := sort.Search(len(bo.Includes), func(i int) bool { return bo.Includes[i] >= id })
	return i < len(bo.Includes) && bo.Includes[i] == id
}
'''),('orc/api/type.go','''import (
	"fmt"
''','''import (
	"fmt"
	"sort"
''')]
needs='a list of columns that is not in ascending order'
breaks='columns that were asked for are left out'
demo='''
func TestZZDemo(t *testing.T) {
	td := demoStruct(demoCol(pb.Type_INT, false), demoCol(pb.Type_LONG, false), demoCol(pb.Type_INT, false))
	f := newDemoFile()
	demoWrite(t, f, td, demoOpts(true, false), demoVec(td, 5, func(id uint32, i int) interface{} {
		if id == 2 {
			return int64(i)
		}
		return int32(int(id)*100 + i)
	}))
	for _, inc := range [][]uint32{{0, 1, 3}, {0, 3, 1}, {3, 1, 0}, {1, 0, 3}} {
		opt := &api.BatchOption{RowSize: 10, Includes: inc}
		r, br := demoOpen(t, f, opt)
		if l := demoRows(t, r, br, opt, 1); len(l) != 5 || l[4].V != int32(104) {
			t.Fatalf("columns %v: column 1 is %v", inc, l)
		}
	}
}
'''
