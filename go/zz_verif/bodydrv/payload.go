package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"os"
	"strconv"
	"strings"

	"google.golang.org/protobuf/encoding/prototext"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/descriptorpb"
	"google.golang.org/protobuf/types/known/durationpb"
	"google.golang.org/protobuf/types/known/structpb"
	"google.golang.org/protobuf/types/known/wrapperspb"

	"github.com/chronos-tachyon/morehttp/body"
	"github.com/chronos-tachyon/morehttp/zz_verif/src"
)

type jval struct {
	K     string            `json:"k"`
	V     bool              `json:"v"`
	Txt   []int             `json:"txt"`
	Cps   []int             `json:"cps"`
	Ks    [][]int           `json:"ks"`
	Xs    []json.RawMessage `json:"xs"`
	N     int               `json:"n"`
	M     string            `json:"m"`
	Bs    []int             `json:"bs"`
	Nanos int               `json:"nanos"`
}

func text(cps []int) string {
	var sb strings.Builder
	for _, c := range cps {
		sb.WriteRune(rune(c))
	}
	return sb.String()
}

func goValue(raw json.RawMessage) interface{} {
	var v jval
	fatal(json.Unmarshal(raw, &v))
	switch v.K {
	case "null":
		return nil
	case "bool":
		return v.V
	case "num":
		s := text(v.Txt)
		if strings.ContainsAny(s, ".e") {
			f, err := strconv.ParseFloat(s, 64)
			fatal(err)
			return f
		}
		n, err := strconv.ParseInt(s, 10, 64)
		fatal(err)
		return n
	case "str":
		return text(v.Cps)
	case "rep":
		return strings.Repeat("a", v.N)
	case "arr":
		xs := []interface{}{}
		for _, x := range v.Xs {
			xs = append(xs, goValue(x))
		}
		return xs
	case "obj":
		m := map[string]interface{}{}
		for i, x := range v.Xs {
			m[text(v.Ks[i])] = goValue(x)
		}
		return m
	}
	fatal(fmt.Errorf("bad value %s", raw))
	return nil
}

func goMessage(raw json.RawMessage) proto.Message {
	var v jval
	var probe struct {
		M  string  `json:"m"`
		Xs [][]int `json:"xs"`
	}
	fatal(json.Unmarshal(raw, &probe))
	if probe.M == "list" {
		l := &structpb.ListValue{}
		for _, x := range probe.Xs {
			l.Values = append(l.Values, structpb.NewStringValue(text(x)))
		}
		return l
	}
	fatal(json.Unmarshal(raw, &v))
	switch v.M {
	case "string":
		return wrapperspb.String(text(v.Cps))
	case "int":
		return wrapperspb.Int32(int32(v.N))
	case "bytes":
		b := []byte{}
		for _, x := range v.Bs {
			b = append(b, byte(x))
		}
		return wrapperspb.Bytes(b)
	case "duration":
		return &durationpb.Duration{Seconds: int64(v.N), Nanos: int32(v.Nanos)}
	}
	fatal(fmt.Errorf("bad message %s", raw))
	return nil
}

type payOp struct {
	Op string          `json:"op"`
	B  int             `json:"b"`
	K  int             `json:"k"`
	V  json.RawMessage `json:"v"`
}

type served struct {
	body body.Body
	data []byte
	ev   Event
}

func runPayload(emit func(interface{})) {
	in, err := os.Open(*inFile)
	fatal(err)
	defer in.Close()
	sc := bufio.NewScanner(in)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	id := 0
	for sc.Scan() {
		id++
		var s struct {
			Ops []payOp `json:"ops"`
		}
		fatal(json.Unmarshal(sc.Bytes(), &s))
		emit(map[string]interface{}{"id": id, "ev": payOne(s.Ops)})
	}
}

func payOne(ops []payOp) (evs []Event) {
	evs = []Event{}
	bodies := map[int]*served{}
	for _, op := range ops {
		switch op.Op {
		case "read", "write":
			if x := bodies[op.B]; x != nil && x.body != nil {
				x.take(op.Op, op.K)
			}
		default:
			x := &served{ev: Event{"op": op.Op, "v": op.V, "e": "none", "raw": []int{}, "runs": [][2]int{}, "n": 0, "len0": -9, "caps": false}}
			x.make(op)
			if op.B > 0 {
				bodies[op.B] = x
			}
			evs = append(evs, x.ev)
		}
	}
	for _, x := range bodies {
		if x.body == nil {
			continue
		}
		for i := 0; i < 1000 && x.ev["e"] == "none"; i++ {
			x.take("read", 20000)
		}
		x.ev["n"] = len(x.data)
		if len(x.data) <= 250 {
			raw := []int{}
			for _, c := range x.data {
				raw = append(raw, int(c))
			}
			x.ev["raw"] = raw
		} else {
			runs := [][2]int{}
			for _, c := range x.data {
				if n := len(runs); n > 0 && runs[n-1][0] == int(c) {
					runs[n-1][1]++
				} else if n < 40 {
					runs = append(runs, [2]int{int(c), 1})
				}
			}
			x.ev["runs"] = runs
		}
		_ = x.body.Close()
	}
	return evs
}

func (x *served) make(op payOp) {
	defer func() {
		if p := recover(); p != nil {
			x.ev["e"] = "panic"
			x.body = nil
		}
	}()
	switch op.Op {
	case "json":
		x.body = body.FromJSON(goValue(op.V))
	case "pretty":
		x.body = body.FromPrettyJSON(goValue(op.V))
	case "bytes":
		x.body = body.FromBytes([]byte(goValue(op.V).(string)))
	case "string":
		x.body = body.FromString(goValue(op.V).(string))
	case "proto":
		x.body = body.FromProto(goMessage(op.V))
	case "text":
		x.body = body.FromProtoText(goMessage(op.V), nil)
	case "text1":
		x.body = body.FromProtoText(goMessage(op.V), &prototext.MarshalOptions{})
	case "ascii":
		x.body = body.FromProtoText(goMessage(op.V), &prototext.MarshalOptions{EmitASCII: true, Multiline: true, Indent: "\t"})
	case "bad":
		var kind string
		fatal(json.Unmarshal(op.V, &kind))
		x.ev["e"] = "served"
		switch kind {
		case "chan":
			x.body = body.FromJSON(make(chan int))
		case "func":
			x.body = body.FromPrettyJSON(func() {})
		case "nan":
			x.body = body.FromJSON(math.NaN())
		case "inf":
			x.body = body.FromPrettyJSON(map[string]interface{}{"a": []interface{}{1, math.Inf(1)}})
		case "inside":
			x.body = body.FromJSON([]interface{}{"some text that is encoded first", make(chan int)})
		case "proto":
			x.body = body.FromProto(wrapperspb.String("a\xffb"))
		case "text":
			x.body = body.FromProtoText(wrapperspb.String("a\xffb"), nil)
		case "partial": // required fields are missing
			x.body = body.FromProto(&descriptorpb.UninterpretedOption_NamePart{NamePart: proto.String("a")})
		case "partialtext":
			x.body = body.FromProtoText(&descriptorpb.UninterpretedOption_NamePart{IsExtension: proto.Bool(true)}, nil)
		case "partialtext1":
			x.body = body.FromProtoText(&descriptorpb.UninterpretedOption{Name: []*descriptorpb.UninterpretedOption_NamePart{{}}},
				&prototext.MarshalOptions{EmitASCII: true})
		case "cycle":
			m := map[string]interface{}{}
			m["m"] = []interface{}{m}
			x.body = body.FromJSON(m)
		case "marshaler":
			x.body = body.FromPrettyJSON([]interface{}{1, json.RawMessage(`{"a":`)})
		}
		x.body = nil
		return
	}
	x.ev["len0"] = clip(x.body.BytesRemaining())
	_, ok1 := x.body.(io.Seeker)
	_, ok2 := x.body.(io.ReaderAt)
	_, ok3 := x.body.(io.WriterTo)
	x.ev["caps"] = ok1 && ok2 && ok3
}

func (x *served) take(how string, k int) {
	defer func() {
		if p := recover(); p != nil {
			x.ev["e"] = "panic"
		}
	}()
	if x.ev["e"] != "none" {
		return
	}
	if how == "write" {
		t, ok := x.body.(io.WriterTo)
		if !ok {
			return
		}
		w := &src.Writer{Max: k}
		_, err := t.WriteTo(w)
		x.data = append(x.data, w.Got...)
		if err != nil && classify(err) != "werr" {
			x.ev["e"] = classify(err)
		}
		return
	}
	p := make([]byte, k)
	n, err := x.body.Read(p)
	if n > 0 && n <= k {
		x.data = append(x.data, p[:n]...)
	}
	if err != nil {
		x.ev["e"] = classify(err)
	}
}
