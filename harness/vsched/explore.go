package vsched

import (
	"fmt"
	"os"
	"sync/atomic"
	"time"
	"unsafe"
)

// Config describes one closed scenario.
type Config struct {
	Name       string
	MaxPreempt int
	MaxFault   int
	Delay      bool // count every deviation from the round-robin schedule against MaxPreempt (delay bounding)
	Timers     bool // timers may fire early, each costing one fault
	Horizon    int
	Body       func()
	NoCache    bool
	Ignore     map[string]bool // kinds of violation to count but not report
	Deadline   time.Time
	Shard      int
	NShards    int
	StoreMax   int

	curP int
}

// Violation is a confirmed counterexample.
type Violation struct {
	Scenario string   `json:"scenario"`
	Kind     string   `json:"kind"`
	Msg      string   `json:"message"`
	Stack    string   `json:"stack,omitempty"`
	Choices  []int32  `json:"choices"`
	Preempt  int      `json:"preemptions"`
	Faults   int      `json:"faults"`
	Trace    []string `json:"trace"`
	Confirm  int      `json:"confirmed_runs"`
}

// Result is what an exploration covered.
type Result struct {
	Scenario  string         `json:"scenario"`
	Execs     int64          `json:"executions"`
	Complete  int64          `json:"complete_executions"`
	Pruned    int64          `json:"pruned_executions"`
	Aborted   int64          `json:"aborted_executions"`
	Steps     int64          `json:"transitions"`
	States    int64          `json:"states"`
	MaxP      int            `json:"preemption_bound_completed"`
	WantP     int            `json:"preemption_bound_wanted"`
	MaxF      int            `json:"fault_bound"`
	Full      bool           `json:"all_interleavings"`
	Done      bool           `json:"exhausted_within_bound"`
	Outcomes  map[string]int `json:"outcomes"`
	Viol      *Violation     `json:"violation,omitempty"`
	Unstable  string         `json:"unstable,omitempty"`
	Diverged  string         `json:"diverged,omitempty"`
	Races     int            `json:"races,omitempty"`
	WallS     float64        `json:"wall_s"`
	MaxPoints int            `json:"max_choice_points"`
}

var heartbeat int64
var curScenario string

// Watchdog aborts the process when an execution makes no progress for d (something blocked
// outside the controlled scheduler). onStuck is called from another goroutine.
func Watchdog(d time.Duration, onStuck func(scenario string)) {
	go func() {
		last, at := int64(-1), time.Now()
		for {
			time.Sleep(time.Second)
			h := atomic.LoadInt64(&heartbeat)
			if h != last || h&1 == 0 {
				last, at = h, time.Now()
				continue
			}
			if time.Since(at) > d {
				onStuck(curScenario)
			}
		}
	}()
}

// runOne performs one execution with the given prefix.
//
//go:norace
func runOne(cfg *Config, st *store, prefix []int32, trace bool) *exec {
	e := spare
	if e == nil {
		e = &exec{driver: make(chan struct{}, 1)}
		spare = e
	}
	epochCtr++
	e.epoch = epochCtr
	e.nt, e.cur, e.killing, e.ended = 0, nil, false, false
	e.np, e.prefix, e.usedP, e.usedF, e.steps = 0, prefix, 0, 0, 0
	e.horizon = cfg.Horizon
	if e.horizon == 0 {
		e.horizon = 20000
	}
	e.fair, e.fairLast = false, -1
	e.seq = 0
	for i := 0; i < e.ntm; i++ {
		e.timers[i] = nil
	}
	e.ntm, e.now, e.early = 0, 0, 0
	if e.nch > 0 {
		for _, i := range e.chUsed {
			e.chans[i] = nil
		}
		e.nch, e.chUsed = 0, e.chUsed[:0]
	}
	if e.natom > 0 {
		for _, i := range e.atUsed {
			e.atom[i] = nil
		}
		e.natom, e.atUsed = 0, e.atUsed[:0]
	}
	e.viol, e.violTyp, e.stack, e.pruned, e.diverge = "", "", "", false, ""
	e.trace, e.log, e.outcome = trace, nil, ""
	e.cfg, e.st = cfg, st
	quietDepth = 0
	x = e
	e.root = spawn("main", cfg.Body, false)
	e.cur = e.root
	raceDisable()
	e.root.wake <- struct{}{}
	<-e.driver
	raceEnable()
	// tear down
	e.killing = true
	for i := 0; i < e.nt; i++ {
		t := e.tasks[i]
		if t.op == opDone {
			continue
		}
		t.killed = true
		e.cur = t
		raceDisable()
		t.wake <- struct{}{}
		<-t.exited
		raceEnable()
	}
	for i := 0; i < e.nt; i++ {
		e.tasks[i] = nil
	}
	raceAcquire(unsafe.Pointer(&joinAddr))
	x = nil
	return e
}

// Explore enumerates all executions of the scenario within its bounds.
func Explore(cfg Config) (res Result) {
	t0 := time.Now()
	booting = false
	curScenario = cfg.Name
	if cfg.NShards == 0 {
		cfg.NShards = 1
	}
	if cfg.StoreMax == 0 {
		cfg.StoreMax = 1 << 24
	}
	res = Result{Scenario: cfg.Name, WantP: cfg.MaxPreempt, MaxF: cfg.MaxFault, MaxP: -1, Outcomes: map[string]int{}}
	atomic.AddInt64(&heartbeat, 1)
	defer func() { atomic.AddInt64(&heartbeat, 1); res.WallS = time.Since(t0).Seconds() }()
again:
	st := newStore(cfg.StoreMax)
	for p := 0; p <= cfg.MaxPreempt; p++ {
		cfg.curP = p
		st.reset()
		done, limited, restart := pass(&cfg, st, &res)
		if restart {
			extraPoints = true
			res.MaxP = -1
			goto again
		}
		if int64(st.n) > res.States {
			res.States = int64(st.n)
		}
		if res.Viol != nil {
			return
		}
		if !done {
			return
		}
		res.MaxP = p
		if !limited {
			res.Full = cfg.MaxFault == 0
			res.MaxP = cfg.MaxPreempt
			break
		}
	}
	res.Done = res.Diverged == ""
	return
}

// pass explores everything with at most cfg.curP preemptions.
func pass(cfg *Config, st *store, res *Result) (done, limited, restart bool) {
	var prefix []int32
	cache := st
	if cfg.NoCache {
		cache = nil
	}
	first := 0 // counter of first deviations, for sharding
	for {
		if !cfg.Deadline.IsZero() && time.Now().After(cfg.Deadline) {
			return false, limited, false
		}
		re := raceErrors()
		e := runOne(cfg, cache, prefix, false)
		atomic.AddInt64(&heartbeat, 2)
		res.Execs++
		res.Steps += int64(e.steps)
		if e.np > res.MaxPoints {
			res.MaxPoints = e.np
		}
		if wantExtra && !extraPoints {
			return false, false, true
		}
		if raceErrors() > re {
			res.Races++
			v := &Violation{Scenario: cfg.Name, Kind: "race", Msg: "data race (see race detector report)", Choices: choices(e), Preempt: e.usedP, Faults: e.usedF}
			te := runOne(cfg, nil, v.Choices, true)
			v.Trace = te.log
			res.Viol = v
			return false, limited, false
		}
		switch {
		case e.diverge != "":
			res.Diverged = e.diverge
		case e.viol != "" && cfg.Ignore[e.violTyp]:
			res.Aborted++
		case e.viol != "":
			if handleViolation(cfg, e, res) {
				return false, limited, false
			}
		case e.pruned:
			res.Pruned++
		default:
			res.Complete++
			if e.outcome != "" && (len(res.Outcomes) < 200 || res.Outcomes[e.outcome] > 0) {
				res.Outcomes[e.outcome]++
			}
		}
		// backtrack
		next := -1
		var alt int32
		nonzero := make([]bool, e.np+1) // nonzero[i]: some choice before i deviates
		for i := 0; i < e.np; i++ {
			nonzero[i+1] = nonzero[i] || e.points[i].chosen != 0
		}
		for i := e.np - 1; i >= 0 && next < 0; i-- {
			p := &e.points[i]
			for a := p.chosen + 1; a < p.n; a++ {
				cp, cf := p.cost(a)
				if int(p.usedP)+cp > cfg.curP {
					limited = true
					continue
				}
				if int(p.usedF)+cf > cfg.MaxFault {
					continue
				}
				if cfg.NShards > 1 && !nonzero[i] {
					first++
					if first%cfg.NShards != cfg.Shard {
						continue
					}
				}
				next, alt = i, a
				break
			}
		}
		if next < 0 {
			return true, limited, false
		}
		np := make([]int32, next+1)
		for i := 0; i < next; i++ {
			np[i] = e.points[i].chosen
		}
		np[next] = alt
		prefix = np
	}
}

func choices(e *exec) []int32 {
	c := make([]int32, e.np)
	for i := range c {
		c[i] = e.points[i].chosen
	}
	return c
}

// handleViolation re-runs the schedule and records the violation if it is reproducible.
func handleViolation(cfg *Config, e *exec, res *Result) bool {
	v := &Violation{Scenario: cfg.Name, Kind: e.violTyp, Msg: e.viol, Stack: e.stack, Choices: choices(e), Preempt: e.usedP, Faults: e.usedF}
	if e.violTyp == "harness" {
		res.Diverged = "harness limit: " + e.viol
		return false
	}
	for i := 0; i < 5; i++ {
		r := runOne(cfg, nil, v.Choices, i == 4)
		if r.violTyp != v.Kind || r.diverge != "" {
			res.Unstable = fmt.Sprintf("%s: %s (not reproducible: %s %s)", v.Kind, v.Msg, r.viol, r.diverge)
			return false
		}
		v.Confirm++
		if i == 4 {
			v.Trace = r.log
			v.Msg = r.viol
		}
	}
	res.Viol = v
	return true
}

// Replay runs one schedule with tracing and returns what happened.
func Replay(cfg Config, choices []int32) *Violation {
	booting = false
	cfg.curP = 1 << 20
	e := runOne(&cfg, nil, choices, true)
	if e.diverge != "" {
		fmt.Fprintln(os.Stderr, "replay diverged:", e.diverge)
	}
	if raceErrors() > 0 && e.viol == "" {
		return &Violation{Scenario: cfg.Name, Kind: "race", Msg: "data race", Trace: e.log, Choices: choices}
	}
	if e.viol == "" {
		return nil
	}
	return &Violation{Scenario: cfg.Name, Kind: e.violTyp, Msg: e.viol, Stack: e.stack, Trace: e.log, Choices: choices}
}

type joinW struct{}

//go:norace
func (joinW) Ready(t *Task) bool {
	for i := 0; i < x.nt; i++ {
		if u := x.tasks[i]; u != t && !u.daemon && u.op != opDone {
			return false
		}
	}
	return true
}

// Join waits for all named tasks.
//
//go:norace
func Join() {
	if x == nil || x.killing {
		return
	}
	Block(joinW{}, "join")
	raceAcquire(unsafe.Pointer(&joinAddr))
	t := x.cur
	h := t.hash
	for i := 0; i < x.nt; i++ {
		if u := x.tasks[i]; u != t && !u.daemon {
			h = mix(h, u.hash)
		}
	}
	t.hash = h
}

// Reinit runs the package initialisers of the code under test; a panic there is a limit of the
// harness (initialisers are not meant to run twice), not a violation.
func Reinit(f func()) {
	defer func() {
		if r := recover(); r != nil && x != nil && !x.killing {
			fail("harness", fmt.Sprint("package re-initialisation: ", r))
		}
	}()
	f()
}
