package vsched

import "time"

// Timer is a virtual timer: it sends the time on its channel, runs a function as a new task, or
// wakes a sleeper, when virtual time reaches when.
type Timer struct {
	when   int64
	period int64
	c      *vchan
	fn     func()
	active bool
	fired  bool
	sleep  bool
	hash   uint64
}

// Base is the virtual epoch.
var Base = time.Date(2020, 1, 2, 3, 4, 5, 0, time.UTC)

// Now is the virtual time.
//
//go:norace
func Now() time.Time {
	if x == nil {
		return time.Now()
	}
	return Base.Add(time.Duration(x.now))
}

//go:norace
func addTimer(tm *Timer) {
	for i := 0; i < x.ntm; i++ {
		if !x.timers[i].active {
			x.timers[i] = tm
			return
		}
	}
	if x.ntm >= maxTimers {
		// drop un-waited timers silently would be unsound: treat as harness limit
		panic("vsched: too many timers")
	}
	x.timers[x.ntm] = tm
	x.ntm++
}

// NewChanTimer arms a timer that sends the virtual time on ch (capacity 1).
func NewChanTimer(d time.Duration, period time.Duration) (*Timer, chan time.Time) {
	ch := MakeChan[time.Time](1)
	return armChan(vs[time.Time](ch), int64(d), int64(period)), ch
}

//go:norace
func armChan(c *vchan, d, period int64) *Timer {
	if d < 0 {
		d = 0
	}
	tm := &Timer{when: x.now + d, period: period, c: c, active: true, hash: x.cur.hash}
	c.timer = tm
	addTimer(tm)
	return tm
}

// NewFuncTimer arms a timer that runs f in a new task.
//
//go:norace
func NewFuncTimer(d time.Duration, f func()) *Timer {
	if d < 0 {
		d = 0
	}
	tm := &Timer{when: x.now + int64(d), fn: f, active: true, hash: x.cur.hash}
	addTimer(tm)
	return tm
}

// Stop deactivates the timer, reporting whether it was active.
//
//go:norace
func (tm *Timer) Stop() bool {
	if x == nil || x.killing {
		return false
	}
	Point("timer stop")
	a := tm.active
	tm.active = false
	x.cur.hash = mix(x.cur.hash, b2u(a)+0x570)
	// as of Go 1.23 no stale value can be received after Stop or Reset
	return a
}

//go:norace
func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

// Reset re-arms the timer.
//
//go:norace
func (tm *Timer) Reset(d time.Duration) bool {
	if x == nil || x.killing {
		return false
	}
	Point("timer reset")
	a := tm.active
	tm.when = x.now + int64(d)
	if tm.period > 0 {
		tm.period = int64(d)
	}
	if !a {
		tm.active, tm.fired = true, false
		addTimer(tm)
	}
	x.cur.hash = mix(x.cur.hash, b2u(a)+0x571)
	return a
}

// Sleep parks the running task for d of virtual time.
//
//go:norace
func Sleep(d time.Duration) {
	if x == nil {
		time.Sleep(d)
		return
	}
	if x.killing {
		return
	}
	if d <= 0 {
		Yield()
		return
	}
	t := x.cur
	tm := &Timer{when: x.now + int64(d), sleep: true, active: true}
	addTimer(tm)
	t.op, t.what, t.tm = opTimer, "sleep", tm
	loc(t)
	dispatch(t)
	t.op, t.tm = opRun, nil
	tr(t)
}

//go:norace
func waitedOn(tm *Timer) bool {
	if tm.sleep || tm.fn != nil {
		return true
	}
	u, _ := parkedReceiver(tm.c, 0, nil)
	return u != nil
}

// earliest returns the earliest active timer somebody waits for.
//
//go:norace
func earliest(_ bool) *Timer {
	var best *Timer
	for i := 0; i < x.ntm; i++ {
		tm := x.timers[i]
		if tm.active && (best == nil || tm.when < best.when) && waitedOn(tm) {
			best = tm
		}
	}
	return best
}

// fire advances virtual time to tm.when and fires every timer due by then, in order.
//
//go:norace
func fire(tm *Timer) {
	if x.trace && x.cur != nil {
		note(x.cur, "[virtual time passes to +"+time.Duration(tm.when).String()+"]")
	}
	target := tm.when
	for {
		var best *Timer
		for i := 0; i < x.ntm; i++ {
			u := x.timers[i]
			if u.active && u.when <= target && (best == nil || u.when < best.when) {
				best = u
			}
		}
		if best == nil {
			break
		}
		if best.when > x.now {
			x.now = best.when
		}
		fire1(best)
	}
	if target > x.now {
		x.now = target
	}
}

//go:norace
func fire1(tm *Timer) {
	if tm.period > 0 {
		tm.when += tm.period
	} else {
		tm.active = false
	}
	tm.fired = true
	if tm.fn != nil {
		spawn("timer func", tm.fn, true)
		return
	}
	if tm.c != nil && tm.c.n == 0 {
		tm.c.obj.sync()
		tm.c.obj.w = mix(tm.c.obj.w, mix(tm.c.obj.r, uint64(x.now)))
		tm.c.obj.r = 0
		push(tm.c, Base.Add(time.Duration(x.now)))
	}
}
