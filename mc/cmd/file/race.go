//go:build race

package main

import (
	"runtime"
	"unsafe"
)

const raceBuild = true

func raceOff() { runtime.RaceDisable() }
func raceOn()  { runtime.RaceEnable() }
func raceErrors() int {
	return runtime.RaceErrors()
}

//go:norace
func raceWrote(p []byte) {
	if len(p) > 0 {
		runtime.RaceWriteRange(unsafe.Pointer(&p[0]), len(p))
	}
}

//go:norace
func raceRead(p []byte) {
	if len(p) > 0 {
		runtime.RaceReadRange(unsafe.Pointer(&p[0]), len(p))
	}
}
