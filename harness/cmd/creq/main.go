// creq decides the request-machinery properties (C07-C10) by exploring every schedule of small
// closed scenarios around the real requester package.
package main

import (
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"strings"
	"syscall"
	"time"

	"github.com/flawedmatrix/gocryptsftp/requester"

	"verif/drv"
	"verif/vsched"
)

// op is one client operation.
type op struct {
	k  byte // F file, D dir, N name, C clear
	a  string
	iv string
}

func (o op) key() string { return string(o.k) + "|" + o.a + "|" + o.iv }

// access is one backend call.
type access struct {
	key        string
	start, end int
	err        bool
	partial    bool
	n          int // ordinal of this access for its key
}

// world is the environment of one execution: backend, decrypter and observation log. Its methods
// are invisible to the race detector and touch obj so that the state signature covers them.
type world struct {
	objs   []vsched.Obj // one per key
	keys   map[string]int
	last   []int // per key, the number of its latest access plus one
	timing bool  // record when requests start and end
	clock  int
	acc    []access
	nacc   int

	errs     int  // number of alternatives beyond success a backend access may choose
	failN    int  // first failN accesses of every key fail
	empty    bool // results are empty
	err      error
	healthy  bool // no more failures
	gated    bool // accesses wait until the gate is opened
	gate     vsched.Obj
	dupFetch string
}

//go:norace
func (w *world) key(key string) int {
	i, ok := w.keys[key]
	if !ok {
		panic("harness: unknown key " + key)
	}
	return i
}

func (w *world) obj(key string) *vsched.Obj { return &w.objs[w.key(key)] }

// newWorld makes room for a number of accesses to the items of these requests.
func newWorld(acc int, lists ...[]op) *world {
	w := &world{err: errBackend, keys: map[string]int{}, acc: make([]access, acc)}
	for _, l := range lists {
		for _, o := range l {
			if _, ok := w.keys[o.key()]; !ok && o.k != 'C' {
				w.keys[o.key()] = len(w.keys)
			}
		}
	}
	w.objs, w.last = make([]vsched.Obj, len(w.keys)), make([]int, len(w.keys))
	return w
}

type gateW struct{ w *world }

//go:norace
func (g gateW) Ready(*vsched.Task) bool { return !g.w.gated }

//go:norace
func (w *world) begin(key string) int {
	vsched.Point("backend access starts")
	k := w.key(key)
	w.objs[k].W(1)
	w.clock++
	i := w.nacc
	if i >= len(w.acc) {
		panic("harness: too many backend accesses")
	}
	n := 0
	if j := w.last[k]; j > 0 {
		n = w.acc[j-1].n + 1
	}
	for j := i - 1; j >= 0 && n > 0 && w.dupFetch == ""; j-- {
		if w.acc[j].key == key && w.acc[j].end == 0 {
			w.dupFetch = key
		}
	}
	w.last[k] = i + 1
	w.acc[i] = access{key: key, start: w.clock, n: n}
	w.nacc++
	if w.gated {
		vsched.Block(gateW{w}, "backend access waits")
		w.gate.W(1)
	}
	return i
}

//go:norace
func (w *world) finish(i int) (mode int) {
	vsched.Point("backend access ends")
	w.obj(w.acc[i].key).W(2)
	w.clock++
	a := &w.acc[i]
	if a.n < w.failN && !w.healthy {
		mode = 1
	} else if w.errs > 0 && !w.healthy {
		mode = vsched.Choose(1+w.errs, "backend access fails")
	}
	a.err = mode > 0
	a.partial = mode > 1
	a.end = w.clock
	return mode
}

//go:norace
func (w *world) tick(o op) int {
	if !w.timing || o.k == 'C' {
		return 0
	}
	w.obj(o.key()).W(3)
	w.clock++
	return w.clock
}

var errBackend = errors.New("injected backend failure")

// netErr is a temporary network failure.
type netErr struct{}

func (netErr) Error() string   { return "i/o timeout" }
func (netErr) Timeout() bool   { return true }
func (netErr) Temporary() bool { return true }

var errKinds = []struct {
	name string
	err  error
}{
	{"not-exist", os.ErrNotExist},
	{"permission", os.ErrPermission},
	{"EOF", io.EOF},
	{"unexpected EOF", io.ErrUnexpectedEOF},
	{"path error", &os.PathError{Op: "open", Path: "/a", Err: syscall.ENOENT}},
	{"EBADMSG", syscall.EBADMSG},
	{"reset", &net.OpError{Op: "read", Net: "tcp", Err: syscall.ECONNRESET}},
	{"timeout", netErr{}},
	{"link error", &os.LinkError{Op: "rename", Old: "a", New: "b", Err: syscall.ENOENT}},
	{"empty text", errors.New("")},
}

func content(key string, n int) string { return fmt.Sprintf("<%s#%d>", key, n) }

type backend struct{ w *world }

func (b backend) ReadFile(path string) ([]byte, error) {
	key := op{'F', path, ""}.key()
	i := b.w.begin(key)
	m := b.w.finish(i)
	switch {
	case m == 1:
		return nil, b.w.err
	case m == 2:
		return []byte("partial"), b.w.err
	case b.w.empty:
		return []byte{}, nil
	}
	return []byte(content(key, ord(b.w, i))), nil
}

//go:norace
func ord(w *world, i int) int { return w.acc[i].n }

type finfo struct{ name string }

func (f finfo) Name() string       { return f.name }
func (f finfo) Size() int64        { return 1 }
func (f finfo) Mode() os.FileMode  { return 0644 }
func (f finfo) ModTime() time.Time { return time.Time{} }
func (f finfo) IsDir() bool        { return false }
func (f finfo) Sys() interface{}   { return nil }

func (b backend) ReadDir(path string) ([]os.FileInfo, error) {
	key := op{'D', path, ""}.key()
	i := b.w.begin(key)
	m := b.w.finish(i)
	switch {
	case m == 1:
		return nil, b.w.err
	case m == 2:
		return []os.FileInfo{finfo{"partial"}}, b.w.err
	case b.w.empty:
		return []os.FileInfo{}, nil
	}
	return []os.FileInfo{finfo{content(key, ord(b.w, i))}, finfo{"second"}}, nil
}

func (b backend) DecryptName(name string, iv []byte) (string, error) {
	key := op{'N', name, string(iv)}.key()
	i := b.w.begin(key)
	m := b.w.finish(i)
	switch m {
	case 1:
		return "", b.w.err
	case 2:
		return "partial", b.w.err
	}
	return content(key, ord(b.w, i)), nil
}

// result is what one client request observed.
type result struct {
	o          op
	start, end int
	val        string
	err        error
	timeoutsB  int
	final      bool
}

func do(r *requester.Requester, w *world, o op) result {
	res := result{o: o, start: w.tick(o)}
	switch o.k {
	case 'F':
		d, err := r.ReadFile(o.a)
		res.val, res.err = string(d), err
	case 'D':
		d, err := r.ReadDir(o.a)
		var s []string
		for _, f := range d {
			s = append(s, f.Name())
		}
		res.val, res.err = strings.Join(s, ","), err
	case 'N':
		d, err := r.DecryptName(o.a, []byte(o.iv))
		res.val, res.err = d, err
	case 'C':
		r.ClearCache()
	}
	res.end = w.tick(o)
	return res
}

// want gives the value a successful access number n for key yields.
func (w *world) want(o op, n int) string {
	if w.empty && o.k != 'N' {
		return ""
	}
	if o.k == 'D' {
		return content(o.key(), n) + ",second"
	}
	return content(o.key(), n)
}

type scn struct {
	name    string
	workers int
	pre     []op
	clients [][]op
	final   []op
	errs    int
	failN   int
	empty   bool
	timers  bool
	F       int
	P, PT   int
	R       int
	clears  bool
	shards  int
	err     error
	p10     int  // quick preemption bound in the C10 check, if higher
	gated   bool // backend accesses are held up until every client waits
	big     bool // a single schedule of very many requests
}

func (s scn) accesses() int {
	if !s.big {
		return 64
	}
	n := len(s.pre) + len(s.final)
	for _, l := range s.clients {
		n += len(l)
	}
	return 2 * n
}

func (s scn) body(props string) func() {
	return func() {
		w := newWorld(s.accesses(), append([][]op{s.pre, s.final}, s.clients...)...)
		w.errs, w.failN, w.empty, w.timing = s.errs, s.failN, s.empty, strings.Contains(props, "C10")
		if s.err != nil {
			w.err = s.err
		}
		w.gated = s.gated
		b := backend{w}
		r := requester.New(s.workers, b, b)
		r.Start()
		vsched.Quiesce()
		var pre []result
		vsched.Quiet(func() {
			for _, o := range s.pre {
				pre = append(pre, do(r, w, o))
			}
		})
		vsched.Quiesce()
		res := make([][]result, len(s.clients))
		for i := range s.clients {
			i := i
			vsched.GoNamed(fmt.Sprintf("client%d", i), func() {
				for _, o := range s.clients[i] {
					res[i] = append(res[i], do(r, w, o))
				}
			})
		}
		if s.gated {
			vsched.Quiesce()
			w.open()
		}
		vsched.Join()
		w.heal()
		vsched.Quiesce()
		var fin []result
		vsched.Quiet(func() {
			for _, o := range s.final {
				x := do(r, w, o)
				x.final = true
				fin = append(fin, x)
			}
		})
		all := append([]result(nil), pre...)
		for _, l := range res {
			all = append(all, l...)
		}
		all = append(all, fin...)
		out := ""
		for _, x := range all {
			if x.err != nil {
				out += "E"
			} else {
				out += "."
			}
		}
		vsched.SetOutcome(fmt.Sprintf("%s fetches=%d early-timeouts=%d", out, w.nacc, vsched.EarlyTimers()))
		for _, x := range all {
			if x.o.k == 'C' {
				continue
			}
			s.judge(props, w, x, all)
		}
		if strings.Contains(props, "C08") {
			s.judge08(w)
		}
	}
}

//go:norace
func (w *world) open() {
	w.gate.W(2)
	w.gated = false
}

//go:norace
func (w *world) heal() {
	for i := range w.objs {
		w.objs[i].W(4)
	}
	w.healthy = true
}

func (s scn) judge(props string, w *world, x result, all []result) {
	desc := func() string { return describe(w, x) }
	if x.err == nil && strings.Contains(props, "C07") {
		ok := false
		for i := 0; i < w.nacc && !ok; i++ {
			a := &w.acc[i]
			if a.key == x.o.key() && a.end != 0 && !a.err && x.val == w.want(x.o, a.n) {
				ok = true
			}
		}
		if !ok {
			vsched.Fail("request reports success with %q, which no successful backend access for it returned\n%s", x.val, desc())
		}
	}
	if x.err != nil && s.empty && strings.Contains(props, "C07") && s.errs == 0 && !s.timers {
		vsched.Fail("request for empty data failed: %v\n%s", x.err, desc())
	}
	if x.err != nil && strings.Contains(props, "C09") && x.final {
		vsched.Fail("request issued after all others had returned, with a healthy backend, failed: %v\n%s", x.err, desc())
	}
	if x.err != nil && strings.Contains(props, "C10") {
		// A failure may be reported by every request that ran when the access failed and by
		// every request that overlaps such a request (it may have joined the same fetch), but
		// not by one issued after all those have returned.
		ok := vsched.EarlyTimers() > 0
		for i := 0; i < w.nacc; i++ {
			a := w.acc[i]
			if a.key != x.o.key() || !a.err || a.end > x.end {
				continue
			}
			if a.end > x.start {
				ok = true
			}
			for _, y := range all {
				if y.o == x.o && y.start < a.end && y.end > a.end && y.end > x.start {
					ok = true
				}
			}
		}
		if !ok {
			vsched.Fail("request failed (%v) although no access for it failed while it ran\n%s", x.err, desc())
		}
	}
}

func (s scn) judge08(w *world) {
	if !s.clears && w.dupFetch != "" {
		vsched.Fail("two fetches of the same item in progress at once: %s\n%s", w.dupFetch, describe(w, result{}))
	}
	if !s.clears && s.errs == 0 && s.failN == 0 {
		for i := 0; i < w.nacc; i++ {
			if w.acc[i].n > 0 {
				vsched.Fail("item fetched more than once: %s\n%s", w.acc[i].key, describe(w, result{o: keyOp(w.acc[i].key)}))
			}
		}
	}
}

func describe(w *world, x result) string {
	var b strings.Builder
	fmt.Fprintf(&b, "request %s ran during [%d,%d], result %q err %v\n", x.o.key(), x.start, x.end, x.val, x.err)
	for i := 0; i < w.nacc; i++ {
		a := w.acc[i]
		if w.nacc > 64 && a.key != x.o.key() {
			continue
		}
		fmt.Fprintf(&b, "  backend access %s #%d during [%d,%d] failed=%v\n", a.key, a.n, a.start, a.end, a.err)
	}
	return b.String()
}

func keyOp(key string) op {
	p := strings.SplitN(key, "|", 3)
	return op{p[0][0], p[1], p[2]}
}

func one(o ...op) []op { return o }

// items are n different files, directories and names in turn.
func items(n int, kinds string) (r []op) {
	for i := 0; i < n; i++ {
		o := op{k: kinds[i%len(kinds)], a: fmt.Sprintf("/d%d/item%d", i%7, i)}
		if o.k == 'N' {
			o.a, o.iv = fmt.Sprint("n", i), fmt.Sprintf("%016d", i%3)
		}
		r = append(r, o)
	}
	return
}

func each(l []op) (r [][]op) {
	for _, o := range l {
		r = append(r, one(o))
	}
	return
}

var fa, fb, da, na, nb, ne = op{'F', "/a", ""}, op{'F', "/b", ""}, op{'D', "/a", ""}, op{'N', "n", "iv1"}, op{'N', "n", "iv2"}, op{'N', "n", ""}
var clr = op{k: 'C'}

// Two directory IVs with the same 64-bit SipHash under the key the project used to hash them with.
const ivC1, ivC2 = "dirivdir\xc6\x97\x7a\x59\x5a\x0e\x1a\x9e", "dirivdir\xe2\x9f\x39\x33\xc9\xdb\x1c\x75"

func names(l ...string) (r []op) {
	for i := 0; i+1 < len(l); i += 2 {
		r = append(r, op{'N', l[i], l[i+1]})
	}
	return
}

func scenarios() []scn {
	L := func(l ...[]op) [][]op { return l }
	var kinds []scn
	for _, k := range errKinds {
		kinds = append(kinds, scn{name: "repeated failures, " + k.name, workers: 1, failN: 2, err: k.err, clients: L(one(fa, fa, fa, da, da, da, na, na, na, fb, fa)), final: one(fa, da, na, fb), P: 0, PT: 1, R: -1})
	}
	for i, k := range errKinds {
		for j, o := range []op{fa, da, na} {
			kinds = append(kinds, scn{name: fmt.Sprintf("2 clients, %c %s, 1 worker", o.k, k.name), workers: 1, failN: 1, err: k.err, clients: L(one(o), one(o, o)), final: one(o), P: 1, PT: 3, R: -1})
			if j == i%3 {
				kinds = append(kinds, scn{name: fmt.Sprintf("2 clients, %c %s, 2 workers", o.k, k.name), workers: 2, failN: 1, err: k.err, clients: L(one(o), one(o)), final: one(o), P: 1, PT: 3, R: -1})
			}
		}
	}
	for n := 1; n <= 6; n++ {
		kinds = append(kinds, scn{name: fmt.Sprintf("%d failures in a row", n), workers: 1 + n%2, failN: n, pre: one([]op{fa, fa, fa, fa, fa, fa, fa}[:n]...), clients: L(one(fa, fa), one(fa)), final: one(fa), P: []int{0, 1, 0, 0, 0, 0, 0}[n], PT: 2, R: -1})
	}
	for _, k := range []string{"F", "D", "N", "FDN"} {
		l := items(1300, k)
		kinds = append(kinds, scn{name: "1300 items twice, " + k, workers: 2, clients: L(append(append([]op(nil), l...), l...)), final: l[:30], big: true})
	}
	for n := 1; n <= 3; n++ {
		l := items(1200, "FDN")
		kinds = append(kinds, scn{name: fmt.Sprintf("1200 clients while the remote stalls, %d workers", n), workers: n, clients: each(l), final: l, gated: true, big: true})
	}
	kinds = append(kinds, scn{name: "1200 clients for 3 items while the remote stalls, 2 workers", workers: 2, clients: each([]op(nil)), gated: true, big: true})
	k := &kinds[len(kinds)-1]
	for i := 0; i < 400; i++ {
		k.clients = append(k.clients, each(items(3, "FDN"))...)
	}
	k.final = items(3, "FDN")
	return append(kinds, []scn{
		{name: "2 clients same file, 1 worker", workers: 1, clients: L(one(fa), one(fa)), final: one(fa), P: 3, PT: 6, R: 1},
		{name: "2 clients same file, 2 workers", workers: 2, clients: L(one(fa), one(fa)), final: one(fa), P: 3, PT: 5, R: 1},
		{name: "3 clients same file, 2 workers", workers: 2, clients: L(one(fa), one(fa), one(fa)), final: one(fa), P: 1, PT: 3, R: -1, shards: 2},
		{name: "2 clients crossing files, 2 workers", workers: 2, clients: L(one(fa, fb), one(fb, fa)), final: one(fa, fb), P: 2, PT: 3, R: 1, shards: 2},
		{name: "file and dir with the same path", workers: 2, clients: L(one(fa, da), one(da, fa)), final: one(fa, da), P: 2, PT: 3, R: 1, shards: 2},
		{name: "same name under different IVs", workers: 2, clients: L(one(na, nb), one(nb, ne)), final: one(na, nb, ne), P: 2, PT: 3, R: 1, shards: 2},
		{name: "colliding and near IVs, one after the other", workers: 1, clients: L(names("n", ivC1, "n", ivC2, "n", "0123456789abcdef", "n", "0123456789abcdeg", "n", "1123456789abcdef", "n", "0123456789abcde", "n0", "123456789abcdef", "n+", "30123456789abcdef")), final: names("n", ivC1, "n", ivC2), P: 0, PT: 1, R: -1},
		{name: "names and IVs that run together", workers: 1, clients: L(names("a", "\x12", "a12", "", "a+12", "", "a+", "\x12", "a1", "\x02", "a", "12", "a\x12", "", "a[18]", "", "a+[18]", "", "", "a\x12", "", "a", "a", "")), final: names("a12", "", "a", "\x12"), P: 0, PT: 1, R: -1},
		{name: "near paths, one after the other", workers: 1, clients: L(one(op{'F', "/a", ""}, op{'F', "/a/", ""}, op{'F', "/A", ""}, op{'F', "a", ""}, op{'D', "/a/", ""}, op{'F', "", ""}, op{'D', "/", ""}, op{'F', "/a+", ""})), final: one(op{'F', "/a/", ""}), P: 0, PT: 1, R: -1},
		{name: "empty file, 2 clients", workers: 2, clients: L(one(fa), one(fa)), final: one(fa), empty: true, P: 2, PT: 4, R: 0},
		{name: "empty dir, 2 clients", workers: 2, clients: L(one(da), one(da)), final: one(da), empty: true, P: 2, PT: 4, R: -1},
		{name: "failing file, 1 client twice", workers: 2, clients: L(one(fa, fa)), final: one(fa), errs: 2, F: 2, P: 3, PT: 6, R: -1},
		{name: "failing file, 2 clients, 2 workers", workers: 2, clients: L(one(fa), one(fa)), final: one(fa), errs: 2, F: 2, P: 1, PT: 4, R: 1, shards: 2},
		{name: "failing dir, 2 clients, 1 worker", workers: 1, clients: L(one(da), one(da)), final: one(da), errs: 2, F: 2, P: 2, PT: 4, R: -1},
		{name: "failing name, 2 clients, 2 workers", workers: 2, clients: L(one(na), one(na)), final: one(na), errs: 2, F: 2, P: 1, PT: 3, R: -1, shards: 2},
		{name: "failing file, 3 clients, 2 workers", workers: 2, clients: L(one(fa), one(fa), one(fa)), final: one(fa), errs: 1, F: 1, P: 0, PT: 2, R: -1, shards: 4},
		{name: "2 clients after a failure", workers: 2, pre: one(fa), failN: 1, clients: L(one(fa), one(fa)), final: one(fa), P: 2, PT: 4, R: 1},
		{name: "3 clients after a failure, 2 workers", workers: 2, pre: one(fa), failN: 1, clients: L(one(fa), one(fa), one(fa)), final: one(fa), P: 0, PT: 3, R: -1, shards: 4},
		{name: "3 clients after a failure, 1 worker", workers: 1, pre: one(da), failN: 1, clients: L(one(da), one(da), one(da)), final: one(da), P: 1, PT: 3, R: -1, shards: 16, p10: 2},
		{name: "clear during a request", workers: 2, clients: L(one(fa), one(clr)), final: one(fa), clears: true, P: 3, PT: 5, R: 1},
		{name: "clear during 2 requests", workers: 2, clients: L(one(fa), one(fa), one(clr)), final: one(fa), clears: true, P: 1, PT: 3, R: -1, shards: 4},
		{name: "2 clears during 2 names", workers: 2, clients: L(one(na), one(na), one(clr, clr)), final: one(na), clears: true, P: 1, PT: 2, R: -1, shards: 4},
		{name: "clear and failures", workers: 2, clients: L(one(da), one(da), one(clr)), final: one(da), clears: true, errs: 1, F: 1, P: 1, PT: 2, R: -1, shards: 4},
		{name: "early timeouts, 2 clients same file, 1 worker", workers: 1, clients: L(one(fa), one(fa)), final: one(fa), timers: true, F: 2, P: 2, PT: 3, R: -1, shards: 2},
		{name: "early timeouts, 2 clients, 2 workers", workers: 2, clients: L(one(fa), one(fa)), final: one(fa), timers: true, F: 2, P: 1, PT: 3, R: 0, shards: 2},
		{name: "early timeouts, crossing items, 1 worker", workers: 1, clients: L(one(fa, da), one(da, fa)), final: one(fa, da), timers: true, F: 2, P: 1, PT: 2, R: -1, shards: 4},
		{name: "early timeout and failure", workers: 2, clients: L(one(fa, fa), one(fa)), final: one(fa), timers: true, errs: 1, F: 2, P: 0, PT: 2, R: -1, shards: 4},
	}...)
}

func pick(prop string, keep func(s scn) bool, race bool) func() []drv.Scn {
	return func() []drv.Scn {
		var l []drv.Scn
		ig := map[string]bool{"deadlock": true, "livelock": true, "panic": true, "fatal": true}
		if prop == "C09" {
			ig = nil
		}
		for _, s := range scenarios() {
			if !keep(s) {
				continue
			}
			if prop == "C10" && s.p10 > 0 {
				s.P = s.p10
			}
			r := s.R
			if !race {
				r = -1
			}
			rt := r
			if rt >= 0 {
				rt++
			}
			horizon := 3000
			if s.big {
				horizon, r, rt = 1000000, -1, -1
			}
			l = append(l, drv.Scn{Name: s.name, Body: s.body(prop), Timers: s.timers, F: s.F, PQ: s.P, PT: s.PT, RQ: r, RT: rt, Shards: s.shards, Ignore: ig, Horizon: horizon, Delay: s.big})
		}
		return l
	}
}

func main() {
	assume := []string{
		"bounds as listed per scenario: 1300 items in sequence and 1200 clients at once in a single schedule; otherwise 2-3 client tasks, 1-2 workers, 1-2 keys of each kind, preemptions and faults (backend errors, partial data with an error, early timeouts) bounded",
		"scheduling points at channel operations, locks, condition variables, timers and backend accesses; unsynchronised accesses are covered by the race-detector pass over the same schedules",
		"time is virtual; map iteration order is fixed",
	}
	drv.Main([]drv.Check{
		{Prop: "C07", Scns: pick("C07", func(s scn) bool { return true }, true), Assume: assume},
		{Prop: "C08", Scns: pick("C08", func(s scn) bool { return !s.clears }, false), Assume: assume},
		{Prop: "C09", Scns: pick("C09", func(s scn) bool { return true }, true), Assume: assume},
		{Prop: "C10", Scns: pick("C10", func(s scn) bool { return !s.empty || true }, false), Assume: assume},
	})
}
