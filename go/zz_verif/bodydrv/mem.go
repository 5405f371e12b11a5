package main

import (
	"bufio"
	"encoding/json"
	"io"
	"os"
	"runtime"
	"strings"

	"github.com/chronos-tachyon/morehttp/body"
)

// long is a long forward-only source of zeroes.
type long struct {
	left  int64
	chunk int
}

func (s *long) Read(p []byte) (int, error) {
	if s.left == 0 {
		return 0, io.EOF
	}
	if s.chunk > 0 && len(p) > s.chunk {
		p = p[:s.chunk]
	}
	if int64(len(p)) > s.left {
		p = p[:s.left]
	}
	s.left -= int64(len(p))
	return len(p), nil
}

type memOp struct {
	Op  string `json:"op"`
	B   int    `json:"b"`
	C   int    `json:"c"`
	K   int    `json:"k"`
	How string `json:"how"`
}

type memScn struct {
	Ops    []memOp `json:"ops"`
	NB     int     `json:"nb"`
	Units  int     `json:"units"`
	Chunk  int     `json:"chunk"`
	Length bool    `json:"length"`
	Kind   string  `json:"kind"`
}

func heapKiB() int {
	var m runtime.MemStats
	runtime.GC()
	runtime.GC()
	runtime.ReadMemStats(&m)
	return int(m.HeapAlloc / 1024)
}

var memBuf []byte

// runMem performs reads of whole megabytes and records the live heap after
// every call.
func runMem(emit func(interface{})) {
	memBuf = make([]byte, 16<<20)
	in, err := os.Open(*inFile)
	fatal(err)
	defer in.Close()
	sc := bufio.NewScanner(in)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	id := 0
	for sc.Scan() {
		id++
		var s memScn
		fatal(json.Unmarshal(sc.Bytes(), &s))
		emit(map[string]interface{}{"id": id, "scn": s, "ev": memOne(s)})
	}
}

func memOne(s memScn) (evs []Event) {
	total := int64(s.Units) << 20
	src := &long{left: total, chunk: s.Chunk}
	base := heapKiB()
	length := int64(-1)
	if s.Length {
		length = total
	}
	first, err := memBody(s, src, length)
	if err != nil {
		return []Event{{"op": "new", "b": 1, "e": "failed", "kib": 0, "heap": 0}}
	}
	slots := make([]body.Body, s.NB+1)
	slots[1] = first
	first = nil
	evs = []Event{}
	dead := false
	for _, op := range s.Ops {
		if dead {
			break
		}
		ev := memDo(slots, op)
		dead = ev["e"] == "panic"
		if h := heapKiB() - base; h > 0 {
			ev["heap"] = h
		}
		evs = append(evs, ev)
	}
	for b := range slots {
		if slots[b] != nil {
			_ = slots[b].Close()
		}
	}
	return evs
}

// memBody makes the first body.  Nothing else refers to its bytes.
func memBody(s memScn, src *long, length int64) (body.Body, error) {
	switch s.Kind {
	case "bytes":
		return body.FromBytes(make([]byte, s.Units<<20)), nil
	case "string":
		return body.FromString(string(make([]byte, s.Units<<20))), nil
	case "json":
		return body.FromJSON(strings.Repeat("x", s.Units<<20-3)), nil
	}
	return body.FromReaderAndLength(struct{ io.Reader }{src}, length)
}

func memDo(slots []body.Body, op memOp) (ev Event) {
	ev = Event{"op": op.Op, "b": op.B, "c": op.C, "k": op.K, "e": "nil", "kib": 0, "heap": 0}
	defer func() {
		if x := recover(); x != nil {
			ev["e"] = "panic"
		}
	}()
	switch op.Op {
	case "read":
		got, want := 0, op.K<<20
		size := want
		switch op.How {
		case "small":
			size = 32768
		case "odd":
			size = 200000
		}
		for got < want {
			k := size
			if k > want-got {
				k = want - got
			}
			n, err := slots[op.B].Read(memBuf[:k])
			got += n
			if err != nil {
				ev["e"] = classify(err)
				break
			}
			if n == 0 {
				break
			}
		}
		ev["kib"] = got / 1024
	case "copy":
		dup, err := slots[op.B].Copy()
		ev["e"] = classify(err)
		if err == nil {
			slots[op.C] = dup
		}
	case "close":
		ev["e"] = classify(slots[op.B].Close())
	}
	return ev
}
