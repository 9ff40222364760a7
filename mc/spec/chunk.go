package spec

import (
	"bytes"
	"compress/flate"
	"errors"
	"fmt"
	"io"
)

// Compression chunks of the ORC v1 specification: a 3 byte little endian
// header holding length*2+isOriginal, then the data (raw deflate for ZLIB).

func ChunkHeader(n int, orig bool) []byte {
	v := n << 1
	if orig {
		v |= 1
	}
	return []byte{byte(v), byte(v >> 8), byte(v >> 16)}
}

type Chunk struct {
	Stored, Size int
	Orig         bool
}

// Dechunk expands a whole compressed stream. size 0 = no limit per chunk.
func Dechunk(b []byte, size int) (out []byte, chunks []Chunk, err error) {
	for len(b) > 0 {
		if len(b) < 3 {
			return out, chunks, errors.New("cut chunk header")
		}
		v := int(b[0]) | int(b[1])<<8 | int(b[2])<<16
		n, orig := v>>1, v&1 == 1
		b = b[3:]
		if n > len(b) {
			return out, chunks, fmt.Errorf("chunk of %d bytes, %d left", n, len(b))
		}
		var d []byte
		if orig {
			d = b[:n]
		} else {
			src := bytes.NewReader(b[:n])
			if d, err = io.ReadAll(flate.NewReader(src)); err != nil {
				return out, chunks, err
			}
			if src.Len() != 0 {
				return out, chunks, fmt.Errorf("%d bytes after the deflate data of a chunk", src.Len())
			}
		}
		if size > 0 && (len(d) > size || n > size) {
			return out, chunks, fmt.Errorf("chunk of %d bytes expands to %d, chunk size %d", n, len(d), size)
		}
		chunks = append(chunks, Chunk{n, len(d), orig})
		out = append(out, d...)
		b = b[n:]
	}
	return
}

// Deflate compresses one chunk at the given level (0 = stored blocks).
func Deflate(b []byte, level int) []byte {
	w := &bytes.Buffer{}
	f, _ := flate.NewWriter(w, level)
	f.Write(b)
	f.Close()
	return w.Bytes()
}

// EncChunk is one chunk holding b: mode 'o' original, 'd' deflate, 's' stored deflate blocks,
// 'a' whatever is smaller (as the Java writer does).
func EncChunk(b []byte, mode byte) []byte {
	var d []byte
	switch mode {
	case 'o':
		return append(ChunkHeader(len(b), true), b...)
	case 's':
		d = Deflate(b, 0)
	default:
		d = Deflate(b, 6)
		if mode == 'a' && len(d) >= len(b) {
			return append(ChunkHeader(len(b), true), b...)
		}
	}
	return append(ChunkHeader(len(d), false), d...)
}

// Chunked splits b into chunks of at most size bytes.
func Chunked(b []byte, size int, mode byte) (out []byte) {
	for len(b) > 0 {
		n := size
		if n > len(b) {
			n = len(b)
		}
		out = append(out, EncChunk(b[:n], mode)...)
		b = b[n:]
	}
	return
}
