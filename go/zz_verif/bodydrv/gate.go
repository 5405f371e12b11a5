package main

import (
	"bufio"
	"encoding/json"
	"io"
	"math/rand"
	"os"
	"sync"
	"time"

	"github.com/chronos-tachyon/morehttp/body"
	"github.com/chronos-tachyon/morehttp/zz_verif/src"
	"github.com/chronos-tachyon/morehttp/zz_verif/vsync"
)

// gate is a source whose data becomes available over time.
type gate struct {
	mu       sync.Mutex
	cond     *sync.Cond
	data     []byte
	supplied int
	given    int
	ended    bool
	eofw     bool
	chunk    int
	calls    map[int64]int
}

func (g *gate) Read(p []byte) (int, error) {
	g.mu.Lock()
	defer g.mu.Unlock()
	g.calls[vsync.GID()]++
	if len(p) == 0 {
		return 0, nil
	}
	for g.given == g.supplied && !g.ended {
		g.cond.Wait()
	}
	n := src.Min(len(p), g.supplied-g.given)
	if g.chunk > 0 {
		n = src.Min(n, g.chunk)
	}
	if n == 0 {
		return 0, io.EOF
	}
	copy(p, g.data[g.given:g.given+n])
	g.given += n
	if g.eofw && g.ended && g.given == g.supplied {
		return n, io.EOF
	}
	return n, nil
}

type gateOp struct {
	Op   string `json:"op"`
	B    int    `json:"b"`
	C    int    `json:"c"`
	K    int    `json:"k"`
	N    int    `json:"n"`
	Must bool   `json:"must"`
}

type gateScn struct {
	L     int      `json:"L"`
	NB    int      `json:"nb"`
	Total int      `json:"total"`
	Ops   []gateOp `json:"ops"`
	Scale int      `json:"scale"`
	Chunk int      `json:"chunk"`
	Eofw  bool     `json:"eofw"`
}

func runGate(emit func(interface{})) {
	in, err := os.Open(*inFile)
	fatal(err)
	defer in.Close()
	sc := bufio.NewScanner(in)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	var list []gateScn
	for sc.Scan() {
		var s gateScn
		fatal(json.Unmarshal(sc.Bytes(), &s))
		list = append(list, s)
	}
	// many at a time: most of the time is spent waiting
	var mu sync.Mutex
	var wg sync.WaitGroup
	sem := make(chan struct{}, 64)
	late := 0
	for i := range list {
		i := i
		sem <- struct{}{}
		mu.Lock()
		stop := late >= 150
		mu.Unlock()
		if stop {
			break
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			evs, slow := gateOne(list[i], rand.New(rand.NewSource(*seed*7919+int64(i))))
			mu.Lock()
			if slow {
				late++
			}
			emit(map[string]interface{}{"id": i + 1, "L": scaleLen(list[i]), "scn": list[i], "ev": evs})
			mu.Unlock()
			<-sem
		}()
	}
	wg.Wait()
}

func scaleLen(s gateScn) int {
	if s.L < 0 {
		return -1
	}
	return s.L * s.Scale
}

func gateOne(s gateScn, rng *rand.Rand) (evs []Event, slow bool) {
	g := &gate{data: src.Content(s.Total * s.Scale), calls: map[int64]int{}, chunk: s.Chunk * s.Scale, eofw: s.Eofw}
	g.cond = sync.NewCond(&g.mu)
	first, err := body.FromReaderAndLength(struct{ io.Reader }{g}, int64(scaleLen(s)))
	if err != nil {
		return []Event{{"op": "ret", "b": 1, "n": 0, "e": "failed", "d": []int{}, "loc": -1, "calls": 0}}, false
	}
	type result struct {
		b  int
		ev Event
	}
	results := make(chan result, s.NB)
	slots := make([]body.Body, s.NB+1)
	slots[1] = first
	pending := map[int]int{}
	pos := make([]int, s.NB+1)
	record := func(r result) {
		delete(pending, r.b)
		pos[r.b] += r.ev["n"].(int)
		evs = append(evs, r.ev)
	}
	evs = []Event{}
	// satisfied: some Read under way has all it asked for
	satisfied := func() bool {
		g.mu.Lock()
		defer g.mu.Unlock()
		for b, k := range pending {
			if pos[b]+k <= g.supplied || g.ended || (s.L >= 0 && g.supplied >= s.L*s.Scale) {
				return true
			}
		}
		return false
	}
	settle := func() bool {
		// what has to return gets plenty of time, the rest a little
		deadline := time.Now().Add(*hang)
		grace := time.Now().Add(4 * time.Millisecond)
		for len(pending) > 0 {
			select {
			case r := <-results:
				record(r)
				continue
			case <-time.After(2 * time.Millisecond):
			}
			now := time.Now()
			if satisfied() {
				if now.After(deadline) {
					break
				}
			} else if now.After(grace) {
				break
			}
		}
		evs = append(evs, Event{"op": "quiet"})
		return !(len(pending) > 0 && satisfied())
	}
	for _, op := range s.Ops {
		switch op.Op {
		case "supply":
			n := op.N * s.Scale
			evs = append(evs, Event{"op": "supply", "n": n})
			g.mu.Lock()
			g.supplied += n
			g.cond.Broadcast()
			g.mu.Unlock()
		case "end":
			evs = append(evs, Event{"op": "end"})
			g.mu.Lock()
			g.ended = true
			g.cond.Broadcast()
			g.mu.Unlock()
		case "copy":
			if _, busy := pending[op.B]; busy || slots[op.B] == nil {
				continue
			}
			dup, err := slots[op.B].Copy()
			if err != nil {
				continue
			}
			slots[op.C] = dup
			pos[op.C] = pos[op.B]
			evs = append(evs, Event{"op": "copy", "b": op.B, "c": op.C})
		case "read":
			if _, busy := pending[op.B]; busy || slots[op.B] == nil {
				continue
			}
			k := op.K * s.Scale
			g.mu.Lock()
			evs = append(evs, Event{"op": "call", "b": op.B, "k": k, "got": g.given})
			g.mu.Unlock()
			pending[op.B] = k
			b, dst := op.B, slots[op.B]
			go func() {
				ev := Event{"op": "ret", "b": b, "n": 0, "e": "panic", "d": []int{}, "loc": -1, "calls": 0}
				defer func() {
					_ = recover()
					results <- result{b, ev}
				}()
				p := make([]byte, k)
				n, err := dst.Read(p)
				ev["n"], ev["e"] = n, classify(err)
				if n >= 0 && n <= k {
					ev["d"], ev["loc"] = src.Project(p[:n])
				}
				g.mu.Lock()
				ev["calls"] = g.calls[vsync.GID()]
				g.mu.Unlock()
			}()
		}
		if !settle() {
			slow = true
			break
		}
	}
	// let everybody go
	g.mu.Lock()
	g.ended = true
	g.cond.Broadcast()
	g.mu.Unlock()
	return evs, slow
}
