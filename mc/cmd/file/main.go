package main

import (
	"os"

	"goorcmc/mcx"

	"github.com/patrickhuang888/goorc/orc"
	"github.com/patrickhuang888/goorc/orc/column"
	"github.com/patrickhuang888/goorc/orc/common"
	"github.com/patrickhuang888/goorc/orc/encoding"
	orcio "github.com/patrickhuang888/goorc/orc/io"
	"github.com/patrickhuang888/goorc/orc/stream"
	log "github.com/sirupsen/logrus"
)

func main() {
	for _, f := range []func(log.Level){orc.SetLogLevel, column.SetLogLevel, common.SetLogLevel, encoding.SetLogLevel, orcio.SetLogLevel, stream.SetLogLevel} {
		f(log.PanicLevel)
	}
	if n := os.Getenv("VERIF_CHILD"); n != "" {
		if n == "c18" {
			childC18()
			return
		}
		childMain(n)
		return
	}
	mcx.Main(map[string]func(*mcx.Ctx){"C07": C07, "C08": C08, "C09": C09, "C10": C10, "C11": C11, "C12": C12, "C13": C13, "C14": C14, "C15": C15, "C16": C16, "C17": C17, "C18": C18, "C19": C19, "C20": C20, "C21": C21})
}
