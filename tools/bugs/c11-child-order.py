property='C11'; pkg='orc'; helpers=True
edits=[('orc/api/type.go','''		for j, vc := range v.Children {
			t[i].Subtypes[j] = vc.Id''','''		for j := range v.Children {
			t[i].Subtypes[j] = v.Id + 1 + uint32(j)''')]
needs='a struct with a nested struct that is followed by another column'
breaks='the schema read from the file has other children than the one it was written with'
demo='''
func TestZZDemo(t *testing.T) {
	td := demoStruct(demoCol(pb.Type_STRUCT, false, demoCol(pb.Type_INT, false), demoCol(pb.Type_INT, false)), demoCol(pb.Type_STRING, false), demoCol(pb.Type_LONG, false))
	f := newDemoFile()
	demoWrite(t, f, td, demoOpts(false, false))
	r, err := newReader(f)
	if err != nil {
		t.Fatal(err)
	}
	var show func(td *api.TypeDescription) string
	show = func(td *api.TypeDescription) (s string) {
		s = fmt.Sprint(td.Id, td.Kind, td.ChildrenNames, "(")
		for _, c := range td.Children {
			s += show(c)
		}
		return s + ")"
	}
	if show(td) != show(r.GetSchema()) {
		t.Fatalf("%s is read as %s", show(td), show(r.GetSchema()))
	}
}
'''
