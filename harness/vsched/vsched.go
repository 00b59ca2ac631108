// Package vsched is a virtual concurrency runtime for systematic exploration.
//
// The source rewriter (../instr) turns goroutine starts, channel operations, selects, sync
// primitives and timers of the code under test into calls to this package and its siblings
// vsync, vatomic and vtime. Exactly one task runs at a time; before every visible operation the
// running task calls the scheduler, which picks the next task from the enabled ones. Choices come
// from a prefix (depth-first search in explore.go) and default to "keep running the same task".
//
// All functions that touch scheduler state are marked go:norace and avoid runtime maps and
// append, so that in a -race build the scheduler itself is invisible to the race detector and
// its hand-offs (done between raceDisable/raceEnable) create no happens-before edges; only the
// modelled operations do (raceAcquire/raceRelease below).
package vsched

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"unsafe"
)

// Operation kinds a task can be parked at.
const (
	opRun     = iota // always enabled (plain scheduling point, task start, atomic, ...)
	opWaiter         // enabled iff pendW.Ready(task)
	opSend           // single channel send
	opRecv           // single channel receive
	opSelect         // select without default
	opTimer          // sleeping on a timer
	opDone           // finished
	opYield          // voluntarily lets everybody else go first
	opQuiesce        // root only: enabled when nobody else is
)

// Waiter is an object a task can block on.
type Waiter interface{ Ready(t *Task) bool }

// Task is one virtual thread.
type Task struct {
	id     int
	name   string
	wake   chan struct{}
	op     int
	what   string
	pendW  Waiter
	ch     *vchan
	val    interface{}
	cases  []Case
	nc     int
	tm     *Timer
	seq    uint64 // park order
	fin    bool   // channel operation was completed by the peer
	ok     bool
	closed bool // peer closed the channel while sending
	idx    int
	hash   uint64
	killed bool
	daemon bool
	exited chan struct{}
	yield  bool
	fn     func()
	where  string
}

// Obj carries the happens-before hash of a shared object within one execution.
type Obj struct {
	epoch uint64
	w, r  uint64
}

const maxTasks = 1536
const maxPoints = 1 << 17

type point struct {
	n      int32 // number of alternatives
	chosen int32
	pre    int8 // 1 if choosing alt>0 preempts
	ntimer int8 // the last ntimer alternatives are timer firings
	data   int8 // data choice: cost in faults of alt>0
	cut    bool
	usedP  int16 // cost used before this point
	usedF  int16
}

type exec struct {
	epoch   uint64
	tasks   [maxTasks]*Task
	nt      int
	cur     *Task
	root    *Task
	killing bool
	ended   bool

	points   [maxPoints]point
	np       int
	prefix   []int32
	usedP    int
	usedF    int
	steps    int
	horizon  int
	fair     bool
	fairLast int

	seq    uint64
	en     [maxTasks]*Task
	timers [maxTimers]*Timer
	ntm    int
	now    int64
	early  int

	chans  [chanTab]*vchan
	nch    int
	chUsed []int32
	atom   [chanTab]*atomObj
	natom  int
	atUsed []int32

	driver chan struct{}

	viol    string
	violTyp string
	stack   string
	pruned  bool
	diverge string

	trace   bool
	log     []string
	outcome string

	cfg *Config
	st  *store
}

const maxTimers = 6144
const chanTab = 16384

var x *exec // active execution
var booting = true
var epochCtr uint64
var spare *exec

// process-wide adaptation flags: set when the program under test uses try-operations, which
// need extra scheduling points to be modelled exactly.
var extraPoints bool
var wantExtra bool

// Begin ends the boot phase: goroutines started by package initialisation have been dropped
// (they are started again inside every execution by re-running the package initialisers).
func Begin() { booting = false }

// Active reports whether an execution is in progress.
//
//go:norace
func Active() bool { return x != nil }

//go:norace
func mix(a, b uint64) uint64 {
	h := a ^ (b + 0x9e3779b97f4a7c15 + (a << 6) + (a >> 2))
	h ^= h >> 33
	h *= 0xff51afd7ed558ccd
	h ^= h >> 33
	h *= 0xc4ceb9fe1a85ec53
	h ^= h >> 33
	return h
}

//go:norace
func (o *Obj) sync() {
	if o.epoch != x.epoch {
		o.epoch, o.w, o.r = x.epoch, 0, 0
	}
}

// W records a write-type operation of the running task on o.
//
//go:norace
func (o *Obj) W(k uint64) {
	if x == nil || x.killing {
		return
	}
	o.sync()
	t := x.cur
	t.hash = mix(mix(t.hash, o.w), mix(o.r, k))
	o.w, o.r = t.hash, 0
}

// R records a read-type operation of the running task on o (commutes with other reads).
//
//go:norace
func (o *Obj) R(k uint64) {
	if x == nil || x.killing {
		return
	}
	o.sync()
	t := x.cur
	t.hash = mix(mix(t.hash, o.w), k)
	o.r += t.hash
}

// Cur returns the running task.
//
//go:norace
func Cur() *Task { return x.cur }

// EarlyTimers tells how many timers fired before they had to in this execution.
//
//go:norace
func EarlyTimers() int {
	if x == nil {
		return 0
	}
	return x.early
}

// Epoch identifies the current execution.
//
//go:norace
func Epoch() uint64 { return x.epoch }

// ExtraPoints reports whether try-operations are in use, which need scheduling points at releases.
//
//go:norace
func ExtraPoints() bool { return extraPoints }

// WantExtra asks for a restart of the exploration with extra scheduling points.
//
//go:norace
func WantExtra() { wantExtra = true }

// Mix adds k to the running task's history hash.
//
//go:norace
func Mix(k uint64) {
	if x != nil && !x.killing {
		x.cur.hash = mix(x.cur.hash, k)
	}
}

// Throw ends the execution like an unrecoverable runtime error.
//
//go:norace
func Throw(msg string) { fail("fatal", "fatal error: "+msg) }

// Killing reports that the execution is being torn down: operations must be no-ops.
//
//go:norace
func Killing() bool { return x != nil && x.killing }

// Go starts f as a new task (or a plain goroutine outside an execution).
func Go(f func()) {
	if x == nil {
		if booting {
			return
		}
		go f()
		return
	}
	spawn("go", f, true)
}

// GoNamed starts a named task; non-daemon tasks must finish for the execution to be complete.
func GoNamed(name string, f func()) { spawn(name, f, false) }

//go:norace
func spawn(name string, f func(), daemon bool) *Task {
	if x.killing {
		return nil
	}
	if x.nt >= maxTasks {
		fail("harness", "too many tasks")
		return nil
	}
	t := &Task{id: x.nt, name: name, wake: make(chan struct{}, 1), exited: make(chan struct{}, 1), op: opRun, what: "start", daemon: daemon, fn: f}
	if p := x.cur; p != nil {
		p.hash = mix(p.hash, 0x51)
		t.hash = mix(p.hash, 0x77)
	} else {
		t.hash = 0x1234567
	}
	x.tasks[x.nt] = t
	x.nt++
	t.seq = x.seq
	x.seq++
	if x.trace && x.cur != nil {
		note(x.cur, "start task "+itoa(t.id))
	}
	go taskMain(t)
	return t
}

//go:norace
func taskMain(t *Task) {
	raceDisable()
	<-t.wake
	raceEnable()
	defer taskExit(t)
	if t.killed {
		return
	}
	t.fn()
}

//go:norace
func taskExit(t *Task) {
	r := recover()
	if t.killed || x.killing {
		t.op = opDone
		raceReleaseMerge(unsafe.Pointer(&joinAddr))
		raceDisable()
		t.exited <- struct{}{}
		raceEnable()
		return
	}
	raceReleaseMerge(unsafe.Pointer(&joinAddr))
	t.op = opDone
	t.hash = mix(t.hash, 0xd0)
	if r != nil {
		if r == errStop {
			// execution already ended by fail()
		} else {
			x.violTyp, x.viol, x.stack = "panic", fmt.Sprintf("panic in task %d (%s): %v", t.id, t.name, r), string(debug.Stack())
		}
		finish()
		return
	}
	if x.trace {
		note(t, "exit")
	}
	dispatch(t)
}

var joinAddr byte
var errStop = fmt.Errorf("vsched: stop")

// finish hands control back to the driver. The calling goroutine must return right away.
//
//go:norace
func finish() {
	x.ended = true
	raceDisable()
	x.driver <- struct{}{}
	raceEnable()
}

// Fail records a property violation and ends the execution.
func Fail(format string, a ...interface{}) {
	if x == nil {
		panic(fmt.Sprintf(format, a...))
	}
	fail("assert", fmt.Sprintf(format, a...))
}

//go:norace
func fail(typ, msg string) {
	if x.killing {
		return
	}
	if x.viol == "" {
		x.violTyp, x.viol = typ, msg
	}
	stop()
}

// stop ends the execution from a running task and never returns.
//
//go:norace
func stop() {
	t := x.cur
	finish()
	park(t)
}

//go:norace
func park(t *Task) {
	raceDisable()
	<-t.wake
	raceEnable()
	if t.killed {
		runtime.Goexit()
	}
}

//go:norace
func itoa(i int) string {
	if i < 0 {
		return "-" + itoa(-i)
	}
	if i < 10 {
		return string(rune('0' + i))
	}
	return itoa(i/10) + string(rune('0'+i%10))
}

//go:norace
func note(t *Task, s string) {
	if len(x.log) < 20000 {
		x.log = append(x.log, "T"+itoa(t.id)+"("+t.name+") "+s)
	}
}

// Note adds a line to the trace of a replayed execution.
//
//go:norace
func Note(s string) {
	if x != nil && x.trace && !x.killing {
		note(x.cur, s)
	}
}

// Tracing reports whether the current execution records a trace.
//
//go:norace
func Tracing() bool { return x != nil && x.trace }

//go:norace
func enabled(t *Task) bool {
	switch t.op {
	case opRun, opYield:
		return true
	case opWaiter:
		return t.pendW.Ready(t)
	case opSend:
		return t.fin || canSend(t.ch)
	case opRecv:
		return t.fin || canRecv(t.ch)
	case opSelect:
		return t.fin || selectReady(t) >= 0
	case opTimer:
		return t.tm.fired
	}
	return false
}

// sig is the happens-before signature of the current state.
//
//go:norace
func sig(self *Task) uint64 {
	var s uint64
	for i := 0; i < x.nt; i++ {
		s += mix(x.tasks[i].hash, 0xabc)
	}
	if self != nil && self.op != opDone {
		s = mix(s, self.hash)
	}
	return mix(s, uint64(x.now))
}

// dispatch picks the next task to run. t is the task giving up control (possibly finished).
// It returns when t is scheduled again (or never, if t is done).
//
//go:norace
func dispatch(t *Task) {
	for {
		x.steps++
		if x.steps > x.horizon {
			if !x.fair {
				x.fair = true
				x.horizon *= 3
			} else {
				x.violTyp, x.viol = "livelock", "no progress: horizon of "+itoa(x.horizon)+" steps exceeded under a fair schedule\n"+describeBlocked()
				finish()
				if t.op != opDone {
					park(t)
				}
				return
			}
		}
		n := 0
		selfEn := false
		if t.op != opDone && t.op != opYield && t.op != opQuiesce && enabled(t) {
			x.en[n] = t
			n++
			selfEn = true
		}
		for j := 0; j < x.nt; j++ {
			i := j
			if x.cfg.Delay { // round robin: the default is whoever comes next
				i = (t.id + 1 + j) % x.nt
			}
			u := x.tasks[i]
			if u != t && u.op != opDone && u.op != opQuiesce && enabled(u) {
				x.en[n] = u
				n++
			}
		}
		if t.op == opYield {
			x.en[n] = t // after everybody else
			n++
		}
		if n == 0 {
			// quiescent: a task waiting for quiescence goes on, else time passes, else the end
			for i := 0; i < x.nt; i++ {
				if x.tasks[i].op == opQuiesce {
					x.en[n] = x.tasks[i]
					n++
				}
			}
		}
		if n == 0 {
			if tm := earliest(false); tm != nil {
				fire(tm)
				continue
			}
			if x.root.op == opDone && allMainDone() {
				finish()
				if t.op != opDone {
					park(t)
				}
				return
			}
			x.violTyp, x.viol = "deadlock", "deadlock: no task can make progress\n"+describeBlocked()
			finish()
			if t.op != opDone {
				park(t)
			}
			return
		}
		nt := 0
		var tm *Timer
		if x.cfg.Timers && !x.quiet() {
			if tm = earliest(true); tm != nil {
				nt = 1
			}
		}
		c := 0
		if x.fair {
			// round robin
			best := -1
			for i := 0; i < n; i++ {
				if x.en[i].id > x.fairLast && (best < 0 || x.en[i].id < x.en[best].id) {
					best = i
				}
			}
			if best < 0 {
				for i := 0; i < n; i++ {
					if best < 0 || x.en[i].id < x.en[best].id {
						best = i
					}
				}
			}
			c = best
			x.fairLast = x.en[c].id
		} else if n+nt > 1 && !x.quiet() {
			pre := int8(0)
			if selfEn || x.cfg.Delay {
				pre = 1
			}
			c = choose(int32(n+nt), pre, int8(nt), 0, t)
			if c < 0 {
				// pruned or diverged
				finish()
				if t.op != opDone {
					park(t)
				}
				return
			}
		}
		if c >= n {
			if x.trace {
				note(t, "[time passes: timer fires]")
			}
			x.early++
			fire(tm)
			continue
		}
		u := x.en[c]
		x.cur = u
		if u == t {
			return
		}
		raceDisable()
		u.wake <- struct{}{}
		raceEnable()
		if t.op == opDone {
			return
		}
		park(t)
		return
	}
}

//go:norace
func allMainDone() bool {
	for i := 0; i < x.nt; i++ {
		if u := x.tasks[i]; !u.daemon && u.op != opDone {
			return false
		}
	}
	return true
}

// quiet: no branching while the root runs a deterministic set-up section.
//
//go:norace
func (e *exec) quiet() bool { return quietDepth > 0 }

var quietDepth int

// Quiet runs f without branching on scheduling (set-up code).
//
//go:norace
func Quiet(f func()) {
	quietDepth++
	f()
	quietDepth--
}

// Quiesce lets every other task run until all are blocked, without branching.
//
//go:norace
func Quiesce() {
	if x == nil || x.killing {
		return
	}
	quietDepth++
	t := x.cur
	t.op, t.what = opQuiesce, "quiesce"
	dispatch(t)
	t.op = opRun
	quietDepth--
	// everything done so far happened before this
	h := t.hash
	for i := 0; i < x.nt; i++ {
		h = mix(h, 0) + x.tasks[i].hash
	}
	t.hash = h
}

// choose records a choice point with n alternatives and returns the alternative to take, or -1 if
// the execution is to be cut short.
//
//go:norace
func choose(n int32, pre, ntimer, data int8, self *Task) int {
	i := x.np
	if i >= maxPoints {
		x.viol, x.violTyp = "too many choice points", "harness"
		return -1
	}
	p := &x.points[i]
	c := int32(0)
	if i < len(x.prefix) {
		c = x.prefix[i]
		if c >= n || c < 0 {
			x.diverge = "replay diverged at point " + itoa(i) + ": choice " + itoa(int(c)) + " of " + itoa(int(n))
			return -1
		}
	} else if x.st != nil {
		// state caching (only for new points)
		k := sig(self)
		if data != 0 || ntimer != 0 {
			k = mix(k, uint64(n))
		}
		if x.st.seen(k, x.cfg.curP-x.usedP, x.cfg.MaxFault-x.usedF) {
			x.pruned = true
			return -1
		}
	}
	p.n, p.chosen, p.pre, p.ntimer, p.data, p.cut = n, c, pre, ntimer, data, false
	p.usedP, p.usedF = int16(x.usedP), int16(x.usedF)
	cp, cf := p.cost(c)
	x.usedP += cp
	x.usedF += cf
	x.np++
	return int(c)
}

//go:norace
func (p *point) cost(c int32) (int, int) {
	if c == 0 {
		return 0, 0
	}
	if p.data != 0 {
		if p.data < 0 {
			return 0, 0
		}
		return 0, int(p.data)
	}
	if c >= p.n-int32(p.ntimer) {
		return 0, 1
	}
	return int(p.pre), 0
}

// Point is a plain scheduling point (always enabled).
//
//go:norace
func Point(what string) {
	if x == nil || x.killing {
		return
	}
	t := x.cur
	t.op, t.what = opRun, what
	loc(t)
	dispatch(t)
	t.hash = mix(t.hash, 0x901) // progress, even if nothing shared is touched
	tr(t)
}

//go:norace
func loc(t *Task) {
	if x.trace {
		t.where = caller()
	}
}

//go:norace
func tr(t *Task) {
	if x.trace {
		note(t, t.what+"  @"+t.where)
	}
}

//go:norace
func caller() string {
	var pcs [16]uintptr
	n := runtime.Callers(3, pcs[:])
	fr := runtime.CallersFrames(pcs[:n])
	for {
		f, more := fr.Next()
		if f.File != "" && !contains(f.File, "/vsched/") && !contains(f.File, "/vsync/") && !contains(f.File, "/vatomic/") && !contains(f.File, "/vtime/") {
			return fmt.Sprintf("%s:%d", f.File, f.Line)
		}
		if !more {
			return "?"
		}
	}
}

//go:norace
func contains(s, sub string) bool {
	for i := 0; i+len(sub) <= len(s); i++ {
		if s[i:i+len(sub)] == sub {
			return true
		}
	}
	return false
}

// Block parks the running task until w is ready.
//
//go:norace
func Block(w Waiter, what string) {
	if x == nil || x.killing {
		return
	}
	t := x.cur
	t.op, t.what, t.pendW = opWaiter, what, w
	t.seq = x.seq
	x.seq++
	loc(t)
	dispatch(t)
	t.op, t.pendW = opRun, nil
	tr(t)
}

// Yield lets all other enabled tasks be scheduled first.
//
//go:norace
func Yield() {
	if x == nil {
		runtime.Gosched()
		return
	}
	if x.killing {
		return
	}
	t := x.cur
	t.op, t.what = opYield, "yield"
	t.hash = mix(t.hash, 0x9e)
	loc(t)
	dispatch(t)
	t.op = opRun
	tr(t)
}

// Choose is an environment choice among n alternatives; alternative 0 is the default and every
// other one costs one fault.
//
//go:norace
func Choose(n int, what string) int { return chooseData(n, what, 1) }

// ChooseFree is a free environment choice (all alternatives explored regardless of budgets).
//
//go:norace
func ChooseFree(n int, what string) int { return chooseData(n, what, -1) }

//go:norace
func chooseData(n int, what string, cost int8) int {
	if x == nil || x.killing {
		return 0
	}
	if n <= 1 {
		return 0
	}
	t := x.cur
	t.hash = mix(t.hash, 0xc401)
	c := choose(int32(n), 0, 0, cost, t)
	if c < 0 {
		stop()
	}
	t.hash = mix(t.hash, uint64(c)+1)
	if x.trace {
		note(t, "choose "+what+" = "+itoa(c)+" of "+itoa(n))
	}
	return c
}

//go:norace
func describeBlocked() string {
	s := ""
	for i := 0; i < x.nt; i++ {
		u := x.tasks[i]
		if u.op != opDone {
			s += "  task " + itoa(u.id) + " (" + u.name + ") waiting at: " + u.what
			if u.where != "" {
				s += " @" + u.where
			}
			s += "\n"
		}
	}
	return s
}

// SetOutcome records an observation of this execution (for counting distinct outcomes).
func SetOutcome(s string) {
	if x != nil {
		x.outcome = s
	}
}
