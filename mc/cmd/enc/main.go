package main

import "goorcmc/mcx"

func main() {
	mcx.Main(map[string]func(*mcx.Ctx){"C01": C01, "C02": C02, "C03": C03, "C04": C04})
}
