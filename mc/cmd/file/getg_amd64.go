package main

// getg identifies the goroutine.
func getg() uintptr

//go:norace
func goid() uint64 { return uint64(getg()) }
