package vsched

import (
	"unsafe"
)

// vchan is the modelled state of one channel. The native channel value only serves as identity.
type vchan struct {
	p      unsafe.Pointer
	keep   interface{}
	cap    int
	buf    []interface{}
	head   int
	n      int
	closed bool
	obj    Obj
	slots  [8]byte // addresses for happens-before annotations
	cl     byte
	timer  *Timer
}

// Case is one case of a select.
type Case struct {
	c    *vchan
	send bool
	val  interface{}
}

// Sel is the outcome of a select.
type Sel struct {
	I   int
	val interface{}
	ok  bool
}

//go:norace
func lookup(p unsafe.Pointer) *vchan {
	i := (uintptr(p) >> 4) % chanTab
	for {
		c := x.chans[i]
		if c == nil {
			return nil
		}
		if c.p == p {
			return c
		}
		i = (i + 1) % chanTab
	}
}

//go:norace
func register(p unsafe.Pointer, keep interface{}, capacity int) *vchan {
	c := lookup(p)
	if c != nil {
		return c
	}
	if x.nch > chanTab*3/4 {
		panic("vsched: too many channels")
	}
	c = &vchan{p: p, keep: keep, cap: capacity}
	i := (uintptr(p) >> 4) % chanTab
	for x.chans[i] != nil {
		i = (i + 1) % chanTab
	}
	x.chans[i] = c
	x.chUsed = append(x.chUsed, int32(i))
	x.nch++
	return c
}

func ptrS[T any](ch chan<- T) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&ch)) }
func ptrR[T any](ch <-chan T) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&ch)) }

func vs[T any](ch chan<- T) *vchan {
	if ch == nil {
		return nil
	}
	p := ptrS(ch)
	if c := lookup(p); c != nil {
		return c
	}
	return register(p, ch, cap(ch))
}

func vr[T any](ch <-chan T) *vchan {
	if ch == nil {
		return nil
	}
	p := ptrR(ch)
	if c := lookup(p); c != nil {
		return c
	}
	return register(p, ch, cap(ch))
}

// MakeChan replaces make(chan T, n).
func MakeChan[T any](n int) chan T {
	if n < 0 {
		panic("makechan: size out of range")
	}
	if x == nil || x.killing {
		return make(chan T, n)
	}
	ch := make(chan T)
	register(ptrS[T](ch), ch, n)
	return ch
}

//go:norace
func push(c *vchan, v interface{}) {
	if c.n == len(c.buf) {
		nl := 2 * len(c.buf)
		if nl == 0 {
			nl = 4
		}
		nb := make([]interface{}, nl)
		for i := 0; i < c.n; i++ {
			nb[i] = c.buf[(c.head+i)%len(c.buf)]
		}
		c.buf, c.head = nb, 0
	}
	c.buf[(c.head+c.n)%len(c.buf)] = v
	c.n++
}

//go:norace
func pop(c *vchan) interface{} {
	v := c.buf[c.head]
	c.buf[c.head] = nil
	c.head = (c.head + 1) % len(c.buf)
	c.n--
	return v
}

// parkedReceivers counts tasks parked in a receive (or select with a receive case) on c.
//
//go:norace
func parkedReceiver(c *vchan, k int, not *Task) (*Task, int) {
	for i := 0; i < x.nt; i++ {
		u := x.tasks[i]
		if u == not || u.fin {
			continue
		}
		if u.op == opRecv && u.ch == c {
			if k == 0 {
				return u, 0
			}
			k--
		} else if u.op == opSelect {
			for j := 0; j < u.nc; j++ {
				if u.cases[j].c == c && !u.cases[j].send {
					if k == 0 {
						return u, j
					}
					k--
					break
				}
			}
		}
	}
	return nil, 0
}

//go:norace
func nParkedReceivers(c *vchan, not *Task) int {
	n := 0
	for i := 0; i < x.nt; i++ {
		u := x.tasks[i]
		if u == not || u.fin {
			continue
		}
		if u.op == opRecv && u.ch == c {
			n++
		} else if u.op == opSelect {
			for j := 0; j < u.nc; j++ {
				if u.cases[j].c == c && !u.cases[j].send {
					n++
					break
				}
			}
		}
	}
	return n
}

//go:norace
func parkedSender(c *vchan, not *Task) (*Task, int) {
	for i := 0; i < x.nt; i++ {
		u := x.tasks[i]
		if u == not || u.fin {
			continue
		}
		if u.op == opSend && u.ch == c {
			return u, 0
		}
		if u.op == opSelect {
			for j := 0; j < u.nc; j++ {
				if u.cases[j].c == c && u.cases[j].send {
					return u, j
				}
			}
		}
	}
	return nil, 0
}

//go:norace
func canSend(c *vchan) bool {
	if c == nil {
		return false
	}
	if c.closed {
		return true
	}
	if c.cap > 0 {
		return c.n < c.cap
	}
	u, _ := parkedReceiver(c, 0, nil)
	return u != nil
}

//go:norace
func canSendBy(c *vchan, t *Task) bool {
	if c == nil {
		return false
	}
	if c.closed {
		return true
	}
	if c.cap > 0 {
		return c.n < c.cap
	}
	u, _ := parkedReceiver(c, 0, t)
	return u != nil
}

//go:norace
func canRecv(c *vchan) bool {
	return c != nil && (c.n > 0 || c.closed)
}

//go:norace
func caseReady(t *Task, k *Case) bool {
	if k.send {
		return canSendBy(k.c, t)
	}
	return canRecv(k.c)
}

//go:norace
func selectReady(t *Task) int {
	for j := 0; j < t.nc; j++ {
		if caseReady(t, &t.cases[j]) {
			return j
		}
	}
	return -1
}

//go:norace
func acq(p *byte) { raceAcquire(unsafe.Pointer(p)) }

//go:norace
func rel(p *byte) { raceReleaseMerge(unsafe.Pointer(p)) }

// doSend performs an enabled send of the running task.
//
//go:norace
func doSend(t *Task, c *vchan, v interface{}) {
	if c.closed {
		c.obj.R(0xc3)
		panic("send on closed channel")
	}
	if c.cap > 0 {
		c.obj.W(0x5e)
		s := &c.slots[(c.head+c.n)%8]
		acq(s)
		rel(s)
		push(c, v)
		return
	}
	k := nParkedReceivers(c, t)
	i := 0
	if k > 1 {
		i = chooseData(k, "receiver", -1)
	}
	u, j := parkedReceiver(c, i, t)
	c.obj.W(0x5e)
	u.fin, u.val, u.ok, u.idx = true, v, true, j
	u.hash = mix(mix(u.hash, t.hash), uint64(j))
	acq(&c.slots[1])
	rel(&c.slots[0])
}

// doRecv performs a receive that is possible without a parked peer.
//
//go:norace
func doRecv(t *Task, c *vchan) (interface{}, bool) {
	if c.n > 0 {
		c.obj.W(0x7e)
		s := &c.slots[c.head%8]
		acq(s)
		rel(s)
		return pop(c), true
	}
	c.obj.R(0xc1)
	acq(&c.cl)
	return nil, false
}

//go:norace
func chanWhat(t *Task, s string) { t.what = s }

//go:norace
func sendOp(c *vchan, v interface{}) {
	t := x.cur
	if extraPoints && (c == nil || c.cap == 0) {
		Point("arrive at send")
	}
	t.op, t.ch, t.val, t.fin, t.closed = opSend, c, v, false, false
	t.what = "chan send"
	t.seq = x.seq
	x.seq++
	loc(t)
	dispatch(t)
	t.op, t.ch, t.val = opRun, nil, nil
	tr(t)
	if t.fin {
		t.fin = false
		return
	}
	doSend(t, c, v)
}

//go:norace
func recvOp(c *vchan) (interface{}, bool) {
	t := x.cur
	if extraPoints && (c == nil || c.cap == 0) {
		Point("arrive at receive")
	}
	t.op, t.ch, t.fin = opRecv, c, false
	t.what = "chan receive"
	t.seq = x.seq
	x.seq++
	if c != nil {
		rel(&c.slots[1])
	}
	loc(t)
	dispatch(t)
	t.op, t.ch = opRun, nil
	tr(t)
	if t.fin {
		t.fin = false
		acq(&c.slots[0])
		v := t.val
		t.val = nil
		return v, t.ok
	}
	return doRecv(t, c)
}

// SendTo replaces ch <- v as SendTo(ch)(v).
func SendTo[T any](ch chan<- T) func(T) {
	return func(v T) {
		if x == nil {
			ch <- v
			return
		}
		if x.killing {
			return
		}
		sendOp(vs(ch), v)
	}
}

// Recv replaces <-ch.
func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

// Recv2 replaces v, ok := <-ch.
func Recv2[T any](ch <-chan T) (T, bool) {
	if x == nil {
		v, ok := <-ch
		return v, ok
	}
	var z T
	if x.killing {
		return z, false
	}
	v, ok := recvOp(vr(ch))
	if !ok || v == nil {
		return z, ok
	}
	return v.(T), ok
}

// Close replaces close(ch).
func Close[T any](ch chan<- T) {
	if x == nil {
		close(ch)
		return
	}
	if x.killing {
		return
	}
	closeOp(vs(ch))
}

//go:norace
func closeOp(c *vchan) {
	Point("chan close")
	if c == nil {
		panic("close of nil channel")
	}
	if c.closed {
		panic("close of closed channel")
	}
	c.obj.W(0xc105e)
	rel(&c.cl)
	c.closed = true
}

// Len replaces len(ch).
func Len[T any](ch <-chan T) int {
	if x == nil {
		return len(ch)
	}
	if ch == nil || x.killing {
		return 0
	}
	c := vr(ch)
	Point("chan len")
	c.obj.R(0x1e)
	return c.n
}

// Cap replaces cap(ch).
func Cap[T any](ch <-chan T) int {
	if x == nil || x.killing {
		return cap(ch)
	}
	if ch == nil {
		return 0
	}
	return vr(ch).cap
}

// RecvCase and SendCase build select cases.
func RecvCase[T any](ch <-chan T) Case {
	if x == nil {
		return Case{val: ch}
	}
	return Case{c: vr(ch)}
}

func SendCase[T any](ch chan<- T) func(T) Case {
	return func(v T) Case {
		if x == nil {
			return Case{val: nativeSend[T]{ch, v}, send: true}
		}
		return Case{c: vs(ch), send: true, val: v}
	}
}

type nativeSend[T any] struct {
	ch chan<- T
	v  T
}

func (n nativeSend[T]) chv() (interface{}, interface{}) { return n.ch, n.v }

// Got and Got2 extract the value received by select case I from channel ch.
func Got[T any](ch <-chan T, s Sel) T {
	v, _ := Got2(ch, s)
	return v
}

func Got2[T any](ch <-chan T, s Sel) (T, bool) {
	var z T
	if !s.ok || s.val == nil {
		return z, s.ok
	}
	return s.val.(T), true
}

// Select replaces a select statement; def tells whether it has a default case (result I = -1).
func Select(def bool, cases ...Case) Sel {
	if x == nil {
		return nativeSelect(def, cases)
	}
	if x.killing {
		for i := range cases {
			if !cases[i].send {
				return Sel{I: i}
			}
		}
		return Sel{I: -1}
	}
	return selectOp(def, cases)
}

//go:norace
func selectOp(def bool, cases []Case) Sel {
	t := x.cur
	for i := range cases {
		c := cases[i].c
		if c != nil && c.cap == 0 {
			if def {
				wantExtra = true
			}
			if extraPoints {
				Point("arrive at select")
				break
			}
		}
	}
	for i := range cases {
		if c := cases[i].c; c != nil && !cases[i].send {
			rel(&c.slots[1])
		}
	}
	if def {
		Point("select with default")
		// which cases are possible now, counting parked senders of unbuffered channels
		var ready [64]int
		n := 0
		for i := range cases {
			k := &cases[i]
			ok := caseReady(t, k)
			if !ok && !k.send && k.c != nil && k.c.cap == 0 {
				u, _ := parkedSender(k.c, t)
				ok = u != nil
			}
			if ok {
				ready[n] = i
				n++
			} else if k.c != nil {
				k.c.obj.R(0xdef)
			}
		}
		if n == 0 {
			return Sel{I: -1}
		}
		i := ready[chooseData(n, "select case", -1)]
		return finishCase(t, cases, i)
	}
	t.op, t.cases, t.nc, t.fin = opSelect, cases, len(cases), false
	t.what = "select"
	t.seq = x.seq
	x.seq++
	loc(t)
	dispatch(t)
	t.op, t.nc, t.cases = opRun, 0, nil
	tr(t)
	if t.fin {
		t.fin = false
		i := t.idx
		if cases[i].send {
			acq(&cases[i].c.slots[1])
			return Sel{I: i}
		}
		acq(&cases[i].c.slots[0])
		v := t.val
		t.val = nil
		return Sel{I: i, val: v, ok: t.ok}
	}
	var ready [64]int
	n := 0
	for i := range cases {
		if caseReady(t, &cases[i]) {
			ready[n] = i
			n++
		}
	}
	i := ready[0]
	if n > 1 {
		i = ready[chooseData(n, "select case", -1)]
	}
	return finishCase(t, cases, i)
}

//go:norace
func finishCase(t *Task, cases []Case, i int) Sel {
	k := &cases[i]
	t.hash = mix(t.hash, uint64(i)+0x5e1)
	if k.send {
		doSend(t, k.c, k.val)
		return Sel{I: i}
	}
	if canRecv(k.c) {
		v, ok := doRecv(t, k.c)
		return Sel{I: i, val: v, ok: ok}
	}
	// rendezvous with a parked sender of an unbuffered channel
	u, j := parkedSender(k.c, t)
	k.c.obj.W(0x7e)
	var v interface{}
	if u.op == opSelect {
		v = u.cases[j].val
	} else {
		v = u.val
	}
	u.fin, u.idx = true, j
	u.hash = mix(mix(u.hash, t.hash), uint64(j))
	acq(&k.c.slots[0])
	return Sel{I: i, val: v, ok: true}
}
