package main

import (
	"encoding/json"
	"sort"

	"github.com/chronos-tachyon/morehttp/response"
)

// hdrOp is one call of a header helper.
type hdrOp struct {
	Op   string          `json:"op"`
	T    []int           `json:"t"`
	Ok   bool            `json:"ok"`
	M    json.RawMessage `json:"m"`
	Weak bool            `json:"weak"`
	Sum  []int           `json:"sum"`
	K    string          `json:"k"`
	App  bool            `json:"app"`
}

func toBytes(v []int) []byte {
	p := make([]byte, len(v))
	for i, x := range v {
		p[i] = byte(x)
	}
	return p
}

func ints(s string) []int {
	v := make([]int, len(s))
	for i := 0; i < len(s); i++ {
		v[i] = int(s[i])
	}
	return v
}

func runHeader(id int, line []byte) Event {
	var sc struct {
		Ops []hdrOp `json:"ops"`
	}
	fatal(json.Unmarshal(line, &sc))
	b := response.NewBuilder()
	evs := []Event{}
	for _, op := range sc.Ops {
		evs = append(evs, hdrCall(b, op))
	}
	return Event{"id": id, "ev": evs}
}

func hdrCall(b *response.Builder, op hdrOp) Event {
	ev := Event{"op": op.Op, "t": op.T, "ok": op.Ok, "m": op.M, "weak": op.Weak, "sum": op.Sum, "k": op.K, "app": op.App, "panic": false}
	t := string(toBytes(op.T))
	func() {
		defer func() {
			if x := recover(); x != nil {
				ev["panic"] = true
			}
		}()
		switch op.Op {
		case "ctype":
			b.WithContentType(t)
		case "lang":
			b.WithContentLanguage(t)
		case "enc":
			b.WithContentEncoding(t)
		case "etag":
			b.WithETag(t, !op.Weak)
		case "digest":
			sum := toBytes(op.Sum)
			b.WithDigest(t, sum)
			for i := range sum {
				sum[i] = 0 // the caller's slice is the caller's
			}
		case "header":
			b.WithHeader(op.K, t, op.App)
		case "without":
			b.WithoutHeader(op.K)
		}
	}()
	type kv struct {
		K string  `json:"k"`
		V [][]int `json:"v"`
	}
	h := []kv{}
	for k, vs := range b.Headers() {
		x := kv{K: k, V: [][]int{}}
		for _, v := range vs {
			x.V = append(x.V, ints(v))
		}
		h = append(h, x)
	}
	sort.Slice(h, func(i, j int) bool { return h[i].K < h[j].K })
	ev["h"] = h
	return ev
}
