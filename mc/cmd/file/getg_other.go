//go:build !amd64

package main

import (
	"bytes"
	"runtime"
	"strconv"
)

//go:norace
func goid() uint64 {
	var b [64]byte
	n := runtime.Stack(b[:], false)
	s := b[len("goroutine "):n]
	if i := bytes.IndexByte(s, ' '); i > 0 {
		s = s[:i]
	}
	id, _ := strconv.ParseUint(string(s), 10, 64)
	return id
}
