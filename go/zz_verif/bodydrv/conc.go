package main

import (
	"encoding/json"
	"math/rand"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"github.com/chronos-tachyon/morehttp/zz_verif/src"
	"github.com/chronos-tachyon/morehttp/zz_verif/vsync"
)

// ConcTrace is one recorded concurrent history.
type ConcTrace struct {
	ID   int     `json:"id"`
	Scn  int     `json:"scn"`
	Env  src.Env `json:"env"`
	NB   int     `json:"nb"`
	Ev   []Event `json:"ev"`
	Hung bool    `json:"hung"`
	Race bool    `json:"race"`
	Free bool    `json:"free"`
}

// runConcAll performs every scenario -reps times: under a chosen schedule, or
// (in the race-detector build) freely.
func runConcAll(emit func(interface{})) {
	next := 0
	eachScenario(func(id int, sc Scenario) {
		rng := rand.New(rand.NewSource(*seed*1000003 + int64(id)))
		seen := map[string]bool{}
		points := 0
		for rep := 0; rep < *reps && hangs < 3; rep++ {
			tr, n := runConc(sc, rng, rep, points)
			if n > points {
				points = n
			}
			if tr.Hung {
				hangs++
			}
			tr.Scn = id
			raw, err := json.Marshal(tr)
			fatal(err)
			if seen[string(raw)] {
				continue
			}
			seen[string(raw)] = true
			next++
			tr.ID = next
			emit(tr)
		}
	})
}

func runConc(sc Scenario, rng *rand.Rand, rep, points int) (tr ConcTrace, npoints int) {
	raceMode := src.RaceMode
	env := sc.Env
	scale := src.Max(sc.Scale, 1)
	env.N *= scale
	if env.L > 0 {
		env.L *= scale
	}
	if env.F > 0 {
		env.F *= scale
	}
	env.Chunk *= scale
	tr = ConcTrace{Env: env, NB: sc.NB, Ev: []Event{}}
	races0 := src.Races()
	f, err := newFamily(env, sc.NB)
	if err != nil {
		tr.Ev = append(tr.Ev, Event{"op": "new", "b": 1, "e": "failed", "why": err.Error(), "call": 0, "ret": 1, "cl": 0, "ac": 0})
		return tr, 0
	}
	if f.src != nil {
		f.src.PerG = true
		f.src.Unsync = raceMode
		f.src.Jitter = vsync.Point
		if raceMode {
			f.src.Jitter = runtime.Gosched
		}
	}
	clock := int64(0)
	do := func(op Op) (Event, bool) {
		if f.slots[op.B] == nil {
			return nil, false
		}
		if op.Op != "copy" {
			op.K *= scale
		}
		if op.Op != "seek" || op.Wh <= 2 {
			op.O *= scale
		}
		if op.M > 0 {
			op.M *= scale
		}
		if raceMode {
			return f.do(op), true
		}
		call := atomic.AddInt64(&clock, 1)
		ev := f.do(op)
		ev["call"], ev["ret"] = call, atomic.AddInt64(&clock, 1)
		return ev, true
	}
	seq := func(op Op) Event {
		ev, ok := do(op)
		if ok {
			tr.Ev = append(tr.Ev, ev)
		}
		return ev
	}
	finished := make(chan struct{})
	evs := make([][]Event, len(sc.Threads))
	thread := func(i int) func() {
		return func() {
			for _, op := range sc.Threads[i] {
				if ev, ok := do(op); ok {
					evs[i] = append(evs[i], ev)
				}
				if !raceMode {
					vsync.Point()
				}
			}
		}
	}
	var sch *vsync.Sched
	var hungInSched bool
	go func() {
		defer close(finished)
		for _, op := range sc.Pre {
			seq(op)
		}
		if raceMode {
			var wg sync.WaitGroup
			var start int32
			for i := range sc.Threads {
				fn := thread(i)
				wg.Add(1)
				go func() {
					defer wg.Done()
					for atomic.LoadInt32(&start) == 0 {
						runtime.Gosched()
					}
					fn()
				}()
			}
			atomic.StoreInt32(&start, 1)
			wg.Wait()
		} else {
			fns := make([]func(), len(sc.Threads))
			for i := range fns {
				fns[i] = thread(i)
			}
			var ok bool
			sch, ok = vsync.Run(fns, strategy(rng, rep, points), *hang)
			if !ok {
				hungInSched = true
				return
			}
		}
		for i := range evs {
			tr.Ev = append(tr.Ev, evs[i]...)
		}
		// Look at what is left of every body.
		for b := 1; b <= sc.NB; b++ {
			if f.slots[b] == nil {
				continue
			}
			seq(Op{Op: "len", B: b})
			for j := 0; j < 12; j++ {
				if ev := seq(Op{Op: "read", B: b, K: env.N/scale + 3}); ev["e"] != "nil" {
					break
				}
			}
		}
		for b := 1; b <= sc.NB; b++ {
			if f.slots[b] != nil {
				seq(Op{Op: "close", B: b})
			}
		}
	}()
	select {
	case <-finished:
		tr.Hung = hungInSched
	case <-time.After(*hang + 5*time.Second):
		tr.Hung = true
		return ConcTrace{Env: env, NB: sc.NB, Ev: []Event{}, Hung: true}, 0
	}
	if raceMode {
		tr.Ev = []Event{}
	}
	tr.Race = src.Races() > races0
	if sch != nil {
		tr.Free = sch.Free
		npoints = sch.Points
	}
	return tr, npoints
}

// strategy chooses schedules: run on until one of a few randomly placed
// preemptions, or switch all the time.
func strategy(rng *rand.Rand, rep, points int) func(n, cur int) int {
	if rep%3 == 2 {
		return func(n, cur int) int { return rng.Intn(n) }
	}
	if points < 4 {
		points = 20
	}
	at := map[int]bool{}
	for i := 0; i < 1+rng.Intn(4); i++ {
		at[rng.Intn(points)] = true
	}
	step := 0
	return func(n, cur int) int {
		step++
		if cur >= 0 && !at[step] {
			return cur
		}
		if cur >= 0 {
			// preempt: somebody else
			return (cur + 1 + rng.Intn(n-1)) % n
		}
		return rng.Intn(n)
	}
}
