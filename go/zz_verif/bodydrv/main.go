// Command bodydrv performs generated scenarios on the real package body and
// records what happened.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"time"

	"github.com/chronos-tachyon/morehttp/zz_verif/src"
)

var (
	mode    = flag.String("mode", "seq", "seq | conc | mem | gate | ctor | payload")
	inFile  = flag.String("in", "", "scenarios, one JSON object per line")
	outFile = flag.String("out", "", "traces, one JSON object per line")
	seed    = flag.Int64("seed", 1, "random seed")
	probe   = flag.String("probe", "read", "how to look at the bodies afterwards: read | none")
	reps    = flag.Int("reps", 1, "repetitions (conc)")
	from    = flag.Int("from", 1, "first scenario to perform")
	to      = flag.Int("to", 1<<30, "last scenario to perform")
	journal = flag.String("journal", "", "write down every call before making it (after a crash)")
	hang    = flag.Duration("hang", 10*time.Second, "a call that takes longer is recorded as hanging")
)

func fatal(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "bodydrv:", err)
		os.Exit(3)
	}
}

func main() {
	flag.Parse()
	src.Content(700000)
	out, err := os.Create(*outFile)
	fatal(err)
	w := bufio.NewWriterSize(out, 1<<20)
	defer func() {
		fatal(w.Flush())
		fatal(out.Close())
	}()
	enc := json.NewEncoder(w)
	enc.SetEscapeHTML(false)
	emit := func(v interface{}) {
		fatal(enc.Encode(v))
		fatal(w.Flush())
	}
	if *journal != "" {
		journalFile, err = os.Create(*journal)
		fatal(err)
	}

	switch *mode {
	case "seq":
		eachScenario(func(id int, sc Scenario) { emit(runSeq(id, sc)) })
	case "conc":
		runConcAll(emit)
	case "mem":
		runMem(emit)
	case "gate":
		runGate(emit)
	case "ctor":
		runCtor(emit)
	case "payload":
		runPayload(emit)
	default:
		fatal(fmt.Errorf("unknown mode %q", *mode))
	}
}

// hangs counts calls that did not come to an end; nothing is tried after three.
var hangs int

var journalFile *os.File

// hangEvent is what is recorded for a call that does not come to an end.
func hangEvent(op Op, how string) Event {
	return Event{"op": op.Op, "b": op.B, "e": how, "n": 0, "cl": 0, "ac": 0, "se": false,
		"d": []int{}, "loc": -1, "v": -99, "off": -99, "ev": 0, "w": 0, "caps": false, "u": how,
		"k": op.K, "o": op.O, "wh": op.Wh, "m": op.M, "c": op.C}
}

func eachScenario(fn func(int, Scenario)) {
	in, err := os.Open(*inFile)
	fatal(err)
	defer in.Close()
	sc := bufio.NewScanner(in)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	id := 0
	for sc.Scan() {
		id++
		if id < *from || id > *to || hangs >= 3 {
			continue
		}
		var s Scenario
		fatal(json.Unmarshal(sc.Bytes(), &s))
		fn(id, s)
	}
	fatal(sc.Err())
}

// runSeq performs one sequential scenario.  With scale > 1 all sizes are
// multiplied, and jittered by one where that makes sense, so that they fall on
// and around the package's internal block boundaries.
func runSeq(id int, sc Scenario) Trace {
	rng := rand.New(rand.NewSource(*seed*1000003 + int64(id)))
	env := sc.Env
	env.Errs = rng.Intn(40)
	if env.Lazy && rng.Intn(4) == 0 {
		env.Idle = []int{1, 2, 120, 300}[rng.Intn(4)]
	}
	scale := sc.Scale
	if scale < 1 || env.Lift > 0 {
		scale = 1
	}
	up := func(v int) int {
		if v <= 0 {
			return v * scale
		}
		v *= scale
		if scale > 2 {
			switch rng.Intn(4) {
			case 0:
				v++
			case 1:
				v--
			}
		}
		return v
	}
	if scale > 1 {
		n := up(env.N)
		if env.L >= 0 {
			switch {
			case env.L == env.N:
				env.L = n
			case env.L < env.N:
				env.L = src.Min(n, up(env.L))
			default:
				env.L = src.Max(n, up(env.L))
			}
		}
		if env.F >= 0 {
			if env.F == env.N {
				env.F = n
			} else {
				env.F = src.Min(up(env.F), src.Max(n-1, 0))
			}
		}
		env.N = n
		env.Chunk = up(env.Chunk)
	}
	if env.Kind == "stream" && env.L < 0 && env.Closer && rng.Intn(4) == 0 {
		// a pipe, say
		env.Irr, env.Ct, env.Cs, env.Ca = 1+rng.Intn(src.Modes-1), true, rng.Intn(4) > 0, rng.Intn(4) > 0
	}
	tr := Trace{ID: id, Env: env, NB: sc.NB}
	f, err := newFamily(env, sc.NB)
	if err != nil {
		tr.Ev = append(tr.Ev, Event{"op": "new", "b": 1, "e": "failed", "n": 0, "why": err.Error(), "cl": 0, "ac": 0, "se": false})
		return tr
	}
	ops := make(chan Op)
	evs := make(chan Event)
	go func() {
		for op := range ops {
			evs <- f.do(op)
		}
	}()
	defer close(ops)
	call := func(op Op) bool {
		if journalFile != nil {
			fatal(json.NewEncoder(journalFile).Encode(Trace{ID: id, Env: env, NB: sc.NB,
				Ev: append(append([]Event{}, tr.Ev...), hangEvent(op, "crash"))}))
		}
		ops <- op
		select {
		case ev := <-evs:
			tr.Ev = append(tr.Ev, ev)
			return ev["e"] != "panic"
		case <-time.After(*hang):
			ev := hangEvent(op, "hang")
			hangs++
			tr.Ev = append(tr.Ev, ev)
			return false
		}
	}
	dead := false
	do := func(op Op) {
		if !dead && f.slots[op.B] != nil {
			dead = !call(op)
		}
	}
	for _, op := range sc.Ops {
		op.K, op.M = up(op.K), up(op.M)
		if op.Op != "seek" || op.Wh <= 2 {
			op.O = up(op.O)
		}
		if (op.Op == "readat" || op.Op == "seek" && op.Wh <= 2) && env.Lift == 0 && rng.Intn(5) == 0 {
			// far beyond the end, or before the beginning
			op.Far = int64(1+rng.Intn(3))<<uint(16+rng.Intn(46)) - int64(rng.Intn(2))
			if op.O >= 0 {
				op.O += 2*src.Max(env.N, env.L) + 2
			} else {
				op.O -= 2*src.Max(env.N, env.L) + 2
				op.Far = -op.Far
			}
		}
		do(op)
	}
	if *probe == "none" || dead {
		return tr
	}
	if env.Lift > env.Lifted() {
		for b := 1; b <= sc.NB; b++ {
			do(Op{Op: "len", B: b})
			do(Op{Op: "close", B: b})
			do(Op{Op: "len", B: b})
		}
		return tr
	}
	// Look at every body: what is left, what it delivers, how it ends.
	order := rng.Perm(sc.NB)
	big := env.N + env.N/2 + 3
	for _, i := range order {
		b := i + 1
		do(Op{Op: "len", B: b})
		if rng.Intn(2) == 0 {
			do(Op{Op: "read", B: b, K: src.Max(1, up(1+rng.Intn(2)))})
			do(Op{Op: "len", B: b})
		}
		for j := 0; j < 12+3*env.Idle; j++ {
			do(Op{Op: "read", B: b, K: big})
			if n := len(tr.Ev); n > 0 && tr.Ev[n-1]["e"] != "nil" {
				break
			}
		}
		do(Op{Op: "len", B: b})
		if rng.Intn(4) == 0 {
			do(Op{Op: "read", B: b, K: 1})
		}
	}
	for _, i := range rng.Perm(sc.NB) {
		do(Op{Op: "close", B: i + 1})
		if rng.Intn(3) == 0 {
			do(Op{Op: "close", B: i + 1})
			do(Op{Op: "unwrap", B: i + 1})
		}
	}
	return tr
}
