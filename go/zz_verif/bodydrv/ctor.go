package main

import (
	"bufio"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"

	"github.com/chronos-tachyon/morehttp/body"
	"github.com/chronos-tachyon/morehttp/zz_verif/src"
)

type ctorCfg struct {
	Closer   bool   `json:"closer"`
	Ct       bool   `json:"ct"`
	Cs       bool   `json:"cs"`
	Ca       bool   `json:"ca"`
	N        int    `json:"N"`
	Size     int    `json:"size"`
	Cur      int    `json:"cur"`
	Call     string `json:"call"`
	Decl     int    `json:"decl"`
	Irr      bool   `json:"irr"`
	StatErr  bool   `json:"staterr"`
	SeekErr  int    `json:"seekerr"`
	StatSize int    `json:"statsize"`
	Declared int    `json:"declared"`
}

func runCtor(emit func(interface{})) {
	in, err := os.Open(*inFile)
	fatal(err)
	defer in.Close()
	sc := bufio.NewScanner(in)
	id := 0
	for sc.Scan() {
		id++
		var c ctorCfg
		fatal(json.Unmarshal(sc.Bytes(), &c))
		emit(map[string]interface{}{"id": id, "kind": "cfg", "cfg": c, "out": ctorOne(c, id)})
	}
	for name, b := range map[string]func() body.Body{
		"empty":  body.Empty,
		"closed": body.AlreadyClosed,
		"bytes":  func() body.Body { return body.FromBytes([]byte("abc")) },
		"stream": func() body.Body { b, _ := body.FromReader(src.New(src.Env{N: 3, L: -1, F: -1}).Reader()); return b },
		"seek": func() body.Body {
			b, _ := body.FromReader(src.New(src.Env{N: 3, L: 3, F: -1, Cs: true}).Reader())
			return b
		},
		"at": func() body.Body {
			b, _ := body.FromReader(src.New(src.Env{N: 3, L: 3, F: -1, Cs: true, Ca: true}).Reader())
			return b
		},
	} {
		id++
		x := b()
		y, err := body.FromReader(x)
		emit(map[string]interface{}{"id": id, "kind": "asis", "cfg": name,
			"out": map[string]interface{}{"same": x == y, "e": classify(err)}})
	}
	// Bodies as readers of other Bodies
	for _, kind := range []string{"bytes", "stream", "known", "seek", "at"} {
		for _, n := range []int{0, 1, 3} {
			for decl := -1; decl <= 4; decl++ {
				if n == 0 && kind == "bytes" {
					continue
				}
				id++
				rand := kind != "stream" && kind != "known"
				c := ctorCfg{Closer: true, Cs: rand, Ca: rand, N: n, Size: 1, Call: "length", Decl: decl, StatSize: n, Declared: decl}
				if decl >= 2 {
					c.Decl, c.Declared = decl, src.Max(0, n+decl-3)
				}
				var x body.Body
				switch kind {
				case "bytes":
					x = body.FromBytes(src.Content(n))
				case "stream":
					x, _ = body.FromReader(src.New(src.Env{N: n, L: -1, F: -1}).Reader())
				case "known":
					x, _ = body.FromReaderAndLength(src.New(src.Env{N: n, L: n, F: -1}).Reader(), int64(n))
				default:
					x, _ = body.FromReader(src.New(src.Env{N: n, L: n, F: -1, Cs: true, Ca: kind == "at"}).Reader())
				}
				emit(map[string]interface{}{"id": id, "kind": "cfg", "cfg": c, "inner": kind,
					"out": ctorOf(c, x, func() int { return 0 })})
			}
		}
	}
}

func ctorOne(c ctorCfg, id int) Event {
	irr := 0
	if c.Irr {
		irr = 1 + id%(src.Modes-1)
	}
	s := src.New(src.Env{Kind: "x", N: c.N, L: c.StatSize, F: -1, Closer: c.Closer, Cs: c.Cs, Ct: c.Ct, Ca: c.Ca, Irr: irr})
	s.StatErr = c.StatErr
	s.SeekErr = c.SeekErr
	s.SetCur(src.Min(c.Cur, c.N))
	return ctorOf(c, s.Reader(), s.Seeks)
}

// huge stands for lengths that need more than 31 bits.
const huge = 1000000000

func declared(c ctorCfg) int64 {
	if c.Declared != huge {
		return int64(c.Declared)
	}
	x := []int64{1 << 31, 1<<32 + 1, 1<<40 + 7, 1 << 52, 1 << 62}
	return x[(c.N+2*c.Size+3*c.Cur)%len(x)]
}

func ctorOf(c ctorCfg, r io.Reader, seeks func() int) (o Event) {
	o = Event{"body": false, "e": "panic", "seeks": 0, "rem": -9, "rem2": -9, "seek": false, "readat": false,
		"cseek": false, "creadat": false, "n": 0, "d": []int{}, "loc": -1, "end": "none", "unwrap": false}
	defer func() {
		if x := recover(); x != nil {
			o["e"] = "panic"
			o["why"] = fmt.Sprint(x)
		}
	}()
	var b body.Body
	var err error
	if c.Call == "reader" {
		b, err = body.FromReader(r)
	} else {
		b, err = body.FromReaderAndLength(r, declared(c))
	}
	o["seeks"] = seeks()
	o["body"] = b != nil
	switch {
	case errors.Is(err, src.ErrStat):
		o["e"] = "stat"
	case errors.Is(err, src.ErrSeek):
		o["e"] = "seek"
	default:
		o["e"] = classify(err)
	}
	if b == nil {
		return o
	}
	caps := func(b body.Body) (bool, bool) {
		_, ok1 := b.(io.Seeker)
		_, ok2 := b.(io.ReaderAt)
		return ok1, ok2
	}
	o["rem"] = clip(b.BytesRemaining())
	if c.Declared == huge && b.BytesRemaining() == declared(c) {
		o["rem"] = huge
	}
	o["seek"], o["readat"] = caps(b)
	o["unwrap"] = b.Unwrap() == r
	dup, err := b.Copy()
	if err == nil {
		o["cseek"], o["creadat"] = caps(dup)
		_ = dup.Close()
	}
	if c.SeekErr != 0 {
		return o
	}
	var all []byte
	p := make([]byte, 2)
	o["end"] = "none"
	for i := 0; i < 1000; i++ {
		n, err := b.Read(p)
		if n > 0 && n <= len(p) {
			all = append(all, p[:n]...)
		}
		if err != nil {
			o["end"] = classify(err)
			break
		}
	}
	o["n"] = len(all)
	o["d"], o["loc"] = src.Project(all)
	o["rem2"] = clip(b.BytesRemaining())
	_ = b.Close()
	return o
}
