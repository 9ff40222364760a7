package main

import (
	"bytes"
	"fmt"

	"goorcmc/mcx"
	"goorcmc/spec"

	"github.com/patrickhuang888/goorc/orc/common"
	"github.com/patrickhuang888/goorc/pb/pb"
)

// fill appends n bytes of the given kind: z zeros, t text with some
// redundancy, r incompressible, h half and half.
func fill(b []byte, kind byte, n int) []byte {
	x := uint32(len(b)*2654435761 + 12345)
	for i := 0; i < n; i++ {
		switch kind {
		case 'z':
			b = append(b, 0)
		case 't':
			b = append(b, "abcabdabe"[i%9])
		case 'h':
			if i >= n/2 {
				b = append(b, 7)
				continue
			}
			fallthrough
		default:
			x ^= x << 13
			x ^= x >> 17
			x ^= x << 5
			b = append(b, byte(x>>7))
		}
	}
	return b
}

// compressing data in the given pieces as a stream writer does: full chunks
// while writing, the rest when flushed; flushes follow the pieces in flush.
func runChunks(t *mcx.T, kind pb.CompressionKind, size int, data []byte, pieces []int, flush map[int]bool) {
	src, dst := &bytes.Buffer{}, &bytes.Buffer{}
	p := 0
	for i, n := range pieces {
		src.Write(data[p : p+n])
		p += n
		if err := common.CompressingChunks(kind, size, dst, src); err != nil {
			t.Failf("CompressingChunks: %v", err)
		}
		t.Step(1)
		if kind == pb.CompressionKind_ZLIB && src.Len() > size {
			t.Failf("%d bytes left uncompressed, chunk size %d", src.Len(), size)
		}
		if flush[i] && src.Len() > 0 {
			if err := common.CompressingAllInChunks(kind, size, dst, src); err != nil {
				t.Failf("CompressingAllInChunks: %v", err)
			}
			if src.Len() != 0 {
				t.Failf("%d bytes left after flush", src.Len())
			}
			t.Step(1)
		}
	}
	if src.Len() > 0 {
		var err error
		if len(pieces)%2 == 0 && optCompressingLeft != nil {
			if err = common.CompressingChunks(kind, size, dst, src); err == nil {
				err = optCompressingLeft(kind, size, dst, src)
			}
		} else {
			err = common.CompressingAllInChunks(kind, size, dst, src)
		}
		if err != nil {
			t.Failf("final flush: %v", err)
		}
	}
	t.Step(1)
	out := dst.Bytes()
	t.State(out)
	if kind == pb.CompressionKind_NONE {
		if !bytes.Equal(out, data) {
			t.Failf("uncompressed output differs: %x, want %x", clip(out), clip(data))
		}
		return
	}
	got, chunks, err := spec.Dechunk(out, size)
	if err != nil {
		t.Failf("output is not a valid chunk sequence: %v (after %v)", err, chunks)
	}
	if !bytes.Equal(got, data) {
		t.Failf("chunks %v hold %x, want %x", chunks, clip(got), clip(data))
	}
	lib := &bytes.Buffer{}
	if err := common.DecompressChunks(kind, lib, bytes.NewBuffer(append([]byte(nil), out...))); err != nil {
		t.Failf("DecompressChunks: %v", err)
	}
	if !bytes.Equal(lib.Bytes(), data) {
		t.Failf("DecompressChunks gives %x, want %x", clip(lib.Bytes()), clip(data))
	}
	one := &bytes.Buffer{}
	rest := out
	for len(rest) > 0 {
		n, orig := common.DecChunkHeader(rest)
		if 3+n > len(rest) {
			t.Failf("DecChunkHeader length %d of %d", n, len(rest))
		}
		if orig {
			one.Write(rest[3 : 3+n])
		} else if _, err := common.Decompress(kind, one, bytes.NewBuffer(append([]byte(nil), rest[3:3+n]...))); err != nil {
			t.Failf("Decompress: %v", err)
		}
		rest = rest[3+n:]
		t.Step(1)
	}
	if !bytes.Equal(one.Bytes(), data) {
		t.Failf("Decompress chunk by chunk gives %x, want %x", clip(one.Bytes()), clip(data))
	}
}

func clip(b []byte) []byte {
	if len(b) > 60 {
		return b[:60]
	}
	return b
}

func C05(c *mcx.Ctx) {
	c.Assume("oracle: spec/chunk.go chunk format from the ORC v1 specification over the Go standard library's compress/flate (the library uses klauspost/compress)")
	zlib := pb.CompressionKind_ZLIB
	do := func(name string, k pb.CompressionKind, size int, data []byte, pieces []int, fl map[int]bool) {
		c.Do(func() string { return fmt.Sprintf("%s-%v-%d-%v-%v", name, k, size, pieces, fl) }, func(t *mcx.T) { runChunks(t, k, size, data, pieces, fl) })
	}
	c.Group("every-length")
	maxc, mult := 64, 3
	if c.Thorough {
		maxc, mult = 160, 4
	}
	for size := 1; size <= maxc; size++ {
		for n := 0; n <= mult*size+1; n++ {
			for _, k := range []byte("ztr") {
				do(string(k), zlib, size, fill(nil, k, n), []int{n}, nil)
			}
		}
	}
	c.Group("chunk-mixes")
	sizes := []int{1, 2, 13, 64, 100, 1000, 5000}
	if c.Thorough {
		sizes = append(sizes, 3, 32, 200, 300, 32767, 32768, 40000, 65535, 65536, 262144)
	}
	L := 3
	for _, size := range sizes {
		lim := L
		if c.Thorough && size < 400 {
			lim = 4
		}
		kinds := "zrth"
		if size > 1000 {
			kinds = "zr"
		}
		mcx.Seqs(len(kinds), 0, lim, func(ix []int) {
			for _, tail := range []int{0, 1, size / 2, size - 1} {
				for _, tk := range []byte("zr") {
					if tail <= 0 && tk == 'r' {
						continue
					}
					var d []byte
					name := ""
					for _, i := range ix {
						d = fill(d, kinds[i], size)
						name += string(kinds[i])
					}
					if tail > 0 {
						d = fill(d, tk, tail)
					}
					do(fmt.Sprintf("%s+%c%d", name, tk, tail), zlib, size, d, []int{len(d)}, nil)
					if len(d) > size { // two pieces, cut at and around the chunk border
						for _, cut := range []int{1, size - 1, size, size + 1, len(d) - 1} {
							if cut > 0 && cut < len(d) {
								do(fmt.Sprintf("%s+%c%d", name, tk, tail), zlib, size, d, []int{cut, len(d) - cut}, nil)
								do(fmt.Sprintf("%s+%c%d", name, tk, tail), zlib, size, d, []int{cut, len(d) - cut}, map[int]bool{0: true})
							}
						}
					}
				}
			}
		})
	}
	c.Group("large-chunks")
	for _, size := range []int{32767, 32768, 65536, 262144, 1 << 20, 1<<23 - 1} {
		for _, k := range []byte("zr") {
			for _, n := range []int{size - 1, size, size + 1, 2*size + 1} {
				if size > 1<<18 && n > size+1 && !c.Thorough {
					continue
				}
				do(string(k), zlib, size, fill(nil, k, n), []int{n}, nil)
			}
		}
	}
	c.Group("pieces")
	N := 9
	if c.Thorough {
		N = 11
	}
	for _, size := range []int{1, 2, 3, 5} {
		for n := 1; n <= N; n++ {
			for _, k := range []byte("zr") {
				d := fill(nil, k, n)
				mcx.Compositions(n, func(p []int) {
					do(string(k), zlib, size, d, p, nil)
					if len(p) <= 4 {
						for m := 1; m < 1<<uint(len(p)); m++ {
							fl := map[int]bool{}
							for i := range p {
								if m>>uint(i)&1 == 1 {
									fl[i] = true
								}
							}
							do(string(k), zlib, size, d, p, fl)
						}
					}
				})
			}
			mcx.Compositions(n, func(p []int) { do("none", pb.CompressionKind_NONE, size, fill(nil, 'r', n), p, nil) })
		}
	}
	c.Group("header")
	step := 1 << 16
	for lo := 0; lo < 1<<23; lo += step {
		c.Do(func() string { return fmt.Sprintf("%d..%d", lo, lo+step-1) }, func(t *mcx.T) {
			for n := lo; n < lo+step; n++ {
				for _, o := range []bool{false, true} {
					if g, go_ := common.DecChunkHeader(spec.ChunkHeader(n, o)); g != n || go_ != o {
						t.Failf("header of length %d original %v decodes to %d %v", n, o, g, go_)
					}
				}
			}
			t.Step(2 * step)
			t.StateH(uint64(lo))
		})
	}
	c.Group("foreign-chunks")
	// chunk sequences a writer may produce: every mode, also empty and short chunks in the middle
	fl := 3
	if c.Thorough {
		fl = 4
	}
	modes := "ods"
	lens := []int{0, 1, 9, 300}
	mcx.Seqs(len(modes)*len(lens)*2, 1, fl, func(ix []int) {
		if len(ix) == fl && c.Thorough && ix[0] > 3 {
			return
		}
		c.Do(func() string { return fmt.Sprint(ix) }, func(t *mcx.T) {
			var enc, want []byte
			for _, i := range ix {
				m, n, k := modes[i%3], lens[i/3%4], "zr"[i/12]
				d := fill(want, k, n)[len(want):]
				d = append([]byte(nil), d...)
				enc = append(enc, spec.EncChunk(d, m)...)
				want = append(want, d...)
			}
			out := &bytes.Buffer{}
			if err := common.DecompressChunks(zlib, out, bytes.NewBuffer(append([]byte(nil), enc...))); err != nil {
				t.Failf("DecompressChunks: %v", err)
			}
			t.Step(len(ix))
			t.State(enc)
			if !bytes.Equal(out.Bytes(), want) {
				t.Failf("got %x, want %x", clip(out.Bytes()), clip(want))
			}
			if len(ix) <= 2 { // every cut is an error, or ends at a chunk border
				for k := 0; k < len(enc); k++ {
					w, _, serr := spec.Dechunk(enc[:k], 0)
					out := &bytes.Buffer{}
					err := common.DecompressChunks(zlib, out, bytes.NewBuffer(append([]byte(nil), enc[:k]...)))
					t.Step(1)
					if err == nil && (serr != nil || !bytes.Equal(out.Bytes(), w)) {
						t.Failf("input cut to %d of %d bytes accepted (%v)", k, len(enc), serr)
					}
				}
			}
		})
	})
	c.Group("unsupported")
	for k, n := range pb.CompressionKind_name {
		kind := pb.CompressionKind(k)
		if kind == zlib || kind == pb.CompressionKind_NONE {
			continue
		}
		c.Do(func() string { return n }, func(t *mcx.T) {
			src, dst := bytes.NewBufferString("hello"), &bytes.Buffer{}
			if err := common.CompressingAllInChunks(kind, 10, dst, src); err == nil {
				t.Failf("unsupported codec accepted for writing")
			}
			if err := common.DecompressChunks(kind, dst, bytes.NewBuffer(spec.EncChunk([]byte("hello"), 'o'))); err == nil {
				t.Failf("unsupported codec accepted for reading")
			}
			t.StateS(n)
			t.Step(2)
		})
	}
}
