// Command respdrv performs generated scenarios on the real package response
// and records what happened.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"

	"github.com/chronos-tachyon/morehttp/zz_verif/src"
)

var (
	mode    = flag.String("mode", "writer", "writer | resp | conc | e2e")
	inFile  = flag.String("in", "", "scenarios, one JSON object per line")
	outFile = flag.String("out", "", "traces, one JSON object per line")
	seed    = flag.Int64("seed", 1, "random seed")
	from    = flag.Int("from", 1, "first scenario to perform")
	to      = flag.Int("to", 1<<30, "last scenario to perform")
	journal = flag.String("journal", "", "write down every call before making it (after a crash)")
)

var journalFile *os.File

// Event is one recorded call.
type Event map[string]interface{}

func fatal(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "respdrv:", err)
		os.Exit(3)
	}
}

func main() {
	flag.Parse()
	src.Content(700000)
	out, err := os.Create(*outFile)
	fatal(err)
	w := bufio.NewWriterSize(out, 1<<20)
	enc := json.NewEncoder(w)
	enc.SetEscapeHTML(false)
	emit := func(v interface{}) {
		fatal(enc.Encode(v))
		fatal(w.Flush())
	}
	if *journal != "" {
		journalFile, err = os.Create(*journal)
		fatal(err)
	}
	switch *mode {
	case "writer":
		eachLine(func(id int, line []byte) { emit(runWriter(id, line)) })
	case "adaptor":
		eachLine(func(id int, line []byte) {
			if hangs < 3 {
				emit(runAdaptor(id, line))
			}
		})
	case "header":
		eachLine(func(id int, line []byte) { emit(runHeader(id, line)) })
	case "e2e":
		w := newE2E()
		eachLine(func(id int, line []byte) {
			for _, t := range w.run(id, line) {
				emit(t)
			}
		})
		w.close()
	case "resp":
		eachLine(func(id int, line []byte) {
			if hangs < 3 {
				emit(runResp(id, line))
			}
		})
	default:
		fatal(fmt.Errorf("unknown mode %q", *mode))
	}
	fatal(w.Flush())
	fatal(out.Close())
}

func eachLine(fn func(int, []byte)) {
	in, err := os.Open(*inFile)
	fatal(err)
	defer in.Close()
	sc := bufio.NewScanner(in)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	id := 0
	for sc.Scan() {
		id++
		if id < *from || id > *to {
			continue
		}
		fn(id, sc.Bytes())
	}
	fatal(sc.Err())
}
