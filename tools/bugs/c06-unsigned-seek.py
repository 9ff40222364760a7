property='C06'; pkg='orc/stream'
edits=[('orc/stream/int.go','''		r.uvalues = r.uvalues[:0]
	}
	for i''','''		r.values = r.values[:0]
	}
	for i''')]
needs='a seek of an unsigned integer stream after values of it were read'
breaks='the values of the run read before the seek are delivered again'
demo='''package stream

import (
	"bytes"
	"testing"

	"github.com/patrickhuang888/goorc/orc/config"
	orcio "github.com/patrickhuang888/goorc/orc/io"
	"github.com/patrickhuang888/goorc/pb/pb"
)

type demoFile struct{ *bytes.Reader }

func (demoFile) Close() error { return nil }

func (f demoFile) Write([]byte) (int, error) { return 0, nil }

func (f demoFile) Clone() (orcio.File, error) { return f, nil }

func (f demoFile) Size() (int64, error) { return f.Reader.Size(), nil }

func TestZZDemo(t *testing.T) {
	wo := config.DefaultWriterOptions()
	wo.CompressionKind = pb.CompressionKind_NONE
	wo.WriteIndex = true
	w := NewIntRLV2Writer(1, pb.Stream_LENGTH, &wo, false)
	for i := 0; i < 20; i++ {
		if err := w.Write(uint64(i * i % 7)); err != nil {
			t.Fatal(err)
		}
	}
	if err := w.Flush(); err != nil {
		t.Fatal(err)
	}
	var out bytes.Buffer
	if _, err := w.WriteOut(&out); err != nil {
		t.Fatal(err)
	}
	ro := config.DefaultReaderOptions()
	ro.CompressionKind = pb.CompressionKind_NONE
	r := NewIntRLV2Reader(&ro, w.Info(), 0, false, demoFile{bytes.NewReader(out.Bytes())})
	for i := 0; i < 5; i++ {
		if _, err := r.NextUInt64(); err != nil {
			t.Fatal(err)
		}
	}
	if err := r.Seek(0, 0, 9); err != nil {
		t.Fatal(err)
	}
	for i := 9; i < 20; i++ {
		v, err := r.NextUInt64()
		if err != nil || v != uint64(i*i%7) {
			t.Fatalf("value %d is %d, %v", i, v, err)
		}
	}
}
'''
