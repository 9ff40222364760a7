package main

import "goorcmc/mcx"

func main() {
	mcx.Main(map[string]func(*mcx.Ctx){"C05": C05, "C06": C06})
}
