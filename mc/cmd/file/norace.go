//go:build !race

package main

const raceBuild = false

func raceOff()           {}
func raceOn()            {}
func raceErrors() int    { return 0 }
func raceWrote(p []byte) {}
func raceRead(p []byte)  {}
