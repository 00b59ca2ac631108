// Command ebackend decides C17: the connection pool against a real SSH/SFTP remote, with a fault at
// every point of every short history and all orders of answers to concurrent calls.
package main

import (
	"bytes"
	"fmt"
	"log"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/flawedmatrix/gocryptsftp/backend"
	"golang.org/x/crypto/ssh"

	"verif/e2"
	"verif/ref"
	"verif/remote"
)

const patience = 10 * time.Second

var (
	hostKey = remote.Signer("host")
	userKey = remote.Signer("user")
	tree    *ref.FS
)

func dirNode(name string) *ref.Node {
	return &ref.Node{Info: ref.Info{N: name, M: os.ModeDir | 0755, T: time.Unix(1500000000, 0)}}
}

func fileNode(name string, data []byte) *ref.Node {
	return &ref.Node{Info: ref.Info{N: name, M: 0644, S: int64(len(data)), T: time.Unix(1500000001, 0)}, Data: data}
}

// kinds of calls: f small file, b file of several packets, e empty file, d directory of several
// batches, s stat, m/n/o missing file, directory, stat, x reading a directory as a file
const allKinds = "fbedsmnox"

func setup(string) {
	if tree != nil {
		return
	}
	top := dirNode("r")
	for i := 0; i < 256; i++ {
		top.Kids = append(top.Kids, fileNode(fmt.Sprint("f", i), ref.Content(100+i, i)))
		top.Kids = append(top.Kids, fileNode(fmt.Sprint("s", i), ref.Content(200+i, i)))
		top.Kids = append(top.Kids, fileNode(fmt.Sprint("e", i), []byte{}))
		if i < 64 {
			top.Kids = append(top.Kids, fileNode(fmt.Sprint("b", i), ref.Content(100000+i, i)))
		}
		d := dirNode(fmt.Sprint("d", i))
		for j := 0; j < 21+i%40; j++ {
			d.Kids = append(d.Kids, fileNode(fmt.Sprintf("k%d-%d", i, j), ref.Content(j, j)))
		}
		top.Kids = append(top.Kids, d)
		top.Kids = append(top.Kids, dirNode(fmt.Sprint("x", i)))
	}
	tree = &ref.FS{Root: "/r", Top: top}
}

type call struct {
	kind byte
	i    int
}

func (c call) String() string {
	return map[byte]string{'f': "ReadFile", 'b': "ReadFile", 'e': "ReadFile", 'd': "ReadDir", 's': "Stat", 'm': "ReadFile", 'n': "ReadDir", 'o': "Stat", 'x': "ReadFile"}[c.kind] + " " + c.path()
}

func (c call) path() string { return fmt.Sprintf("/r/%c%d", c.kind, c.i) }

func (c call) good() bool { return strings.IndexByte("fbeds", c.kind) >= 0 }

// run executes the call; bad is a wrong answer, err the reported error.
func (c call) run(p *backend.Provider) (err error, bad string) {
	n, _ := tree.Find(c.path())
	switch c.kind {
	case 'f', 'b', 'e', 'm', 'x':
		var b []byte
		b, err = p.ReadFile(c.path())
		if err == nil && (n == nil || n.IsDir()) {
			bad = fmt.Sprintf("%v: succeeds with %d bytes", c, len(b))
		} else if err == nil && !bytes.Equal(b, n.Data) {
			bad = fmt.Sprintf("%v: succeeds with %d bytes that are not the %d of the file", c, len(b), len(n.Data))
		}
	case 'd', 'n':
		var l []os.FileInfo
		l, err = p.ReadDir(c.path())
		if err == nil && n == nil {
			bad = fmt.Sprintf("%v: succeeds with %d entries", c, len(l))
		} else if err == nil {
			bad = sameList(c, l, n)
		}
	default:
		var i os.FileInfo
		i, err = p.Stat(c.path())
		if err == nil && n == nil {
			bad = fmt.Sprintf("%v: succeeds", c)
		} else if err == nil && (i.Size() != n.S || i.Mode() != n.M || i.ModTime().Unix() != n.T.Unix()) {
			bad = fmt.Sprintf("%v: size %d mode %v", c, i.Size(), i.Mode())
		}
	}
	return
}

func sameList(c call, l []os.FileInfo, n *ref.Node) string {
	var a, b []string
	for _, i := range l {
		a = append(a, fmt.Sprintf("%s %d %v", i.Name(), i.Size(), i.Mode()))
	}
	for _, k := range n.Kids {
		b = append(b, fmt.Sprintf("%s %d %v", k.N, k.S, k.M))
	}
	sort.Strings(a)
	sort.Strings(b)
	if strings.Join(a, "|") != strings.Join(b, "|") {
		return fmt.Sprintf("%v: succeeds with %d entries instead of the directory's %d", c, len(a), len(b))
	}
	return ""
}

type world struct {
	t *e2.T
	s *remote.Server
	p *backend.Provider
	w string // description
}

func newWorld(t *e2.T, hook func(*remote.Event) remote.Fault) *world {
	s := &remote.Server{FS: tree, HostKey: hostKey, Hook: hook}
	if err := s.Start(); err != nil {
		panic(err)
	}
	cfg := &ssh.ClientConfig{User: "u", Auth: []ssh.AuthMethod{ssh.PublicKeys(userKey)}, HostKeyCallback: ssh.FixedHostKey(hostKey.PublicKey())}
	return &world{t: t, s: s, p: backend.NewProvider(s.Addr, cfg, log.New(os.Stderr, "", 0))}
}

// do runs a call and complains about hangs and wrong answers.
func (w *world) do(c call) (err error, hung bool) {
	type r struct {
		err error
		bad string
	}
	ch := make(chan r, 1)
	go func() {
		err, bad := c.run(w.p)
		ch <- r{err, bad}
	}()
	w.t.Step()
	select {
	case x := <-ch:
		if x.bad != "" {
			w.t.Failf("%s: %s", w.w, x.bad)
		}
		return x.err, false
	case <-time.After(patience):
		w.t.Failf("%s: %v does not return", w.w, c)
		return fmt.Errorf("hang"), true
	}
}

// audit: every connection that is open is idle for reuse: as many concurrent calls as there are open
// connections use each of them once and open no new one. from is the first fresh call index.
func (w *world) audit(from int) {
	for k := 0; ; k++ {
		bad, left := w.auditOnce(from)
		if bad == "" {
			return
		}
		if left == nil || k == 2 {
			w.t.Failf("%s: %s", w.w, bad)
			return
		}
		// perhaps it was just being closed
		select {
		case <-left.Closed:
		case <-time.After(patience):
			w.t.Failf("%s: %s", w.w, bad)
			return
		}
		from += 64
	}
}

func (w *world) auditOnce(from int) (bad string, left *remote.Conn) {
	t := w.t
	fail := func(f string, a ...interface{}) {
		if bad == "" {
			bad = fmt.Sprintf(f, a...)
		}
	}
	var usable []*remote.Conn
	settled := func() bool {
		usable = nil
		for _, c := range w.s.Open() {
			if c.IsDead() {
				return false
			}
			usable = append(usable, c)
		}
		return true
	}
	if !remote.Wait(patience, settled) {
		fail("a connection whose SFTP session is over, and on which a call failed, stays open")
		return
	}
	before := len(w.s.Conns())
	m := len(usable)
	if m == 0 {
		return
	}
	var mu sync.Mutex
	held := map[int]int{}
	gate := make(chan struct{})
	w.s.Hook = func(e *remote.Event) remote.Fault {
		if e.Kind == "packet" && e.Label != "" {
			mu.Lock()
			held[e.Conn.ID]++
			mu.Unlock()
			<-gate
		}
		return remote.None
	}
	type r struct {
		err error
		bad string
	}
	ch := make(chan r, m)
	for i := 0; i < m; i++ {
		c := call{"fds"[i%3], from + i}
		go func() {
			err, bad := c.run(w.p)
			ch <- r{err, bad}
		}()
		t.Step()
	}
	full := remote.Wait(patience, func() bool {
		mu.Lock()
		defer mu.Unlock()
		n := 0
		for _, k := range held {
			n += k
		}
		return n >= m
	})
	mu.Lock()
	for _, c := range usable {
		if held[c.ID] == 0 && full {
			fail("connection %d stays open but is not reused: %d concurrent calls use %d connections besides", c.ID, m, len(held))
			left = c
		}
	}
	mu.Unlock()
	if !full {
		fail("%d concurrent calls do not all reach the remote", m)
	}
	close(gate)
	for i := 0; i < m; i++ {
		select {
		case x := <-ch:
			if x.err != nil || x.bad != "" {
				fail("reusing the idle connections: %v %s", x.err, x.bad)
			}
		case <-time.After(patience):
			fail("reusing the idle connections: a call does not return")
			return
		}
	}
	if n := len(w.s.Conns()); n > before {
		fail("%d open idle connections, but %d concurrent calls open %d more", m, m, n-before)
	}
	return
}

func (w *world) finish() {
	for _, b := range w.s.Bad() {
		w.t.Failf("%s: %s", w.w, b)
	}
	for _, l := range w.s.Log() {
		switch strings.Fields(l)[0] {
		case "OPEN", "CLOSE", "READ", "LSTAT", "FSTAT", "OPENDIR", "READDIR", "REALPATH", "STAT", "READLINK", "EXTENDED":
		default:
			w.t.Failf("%s: the remote is sent %s", w.w, l)
		}
	}
	w.s.Stop()
}

// ---- faults ----------------------------------------------------------------------------------

type flt struct {
	at int
	f  remote.Fault
}

// history runs the calls with faults at the given events, then healthy calls, then the audit. It
// returns the number of events the calls made.
func history(t *e2.T, calls []call, fl []flt) int {
	var mu sync.Mutex
	fired := 0
	var desc []string
	for _, f := range fl {
		desc = append(desc, fmt.Sprintf("event %d: %v", f.at, f.f))
	}
	var at string
	w := newWorld(t, func(e *remote.Event) remote.Fault {
		mu.Lock()
		defer mu.Unlock()
		for _, f := range fl {
			if e.N == f.at {
				fired++
				at += " " + e.String()
				return f.f
			}
		}
		return remote.None
	})
	w.w = fmt.Sprintf("%v with %v", calls, desc)
	failed := 0
	for _, c := range calls {
		err, hung := w.do(c)
		if hung {
			w.finish()
			return 0
		}
		if err != nil && c.good() {
			failed++
		}
		if fired == 0 && !c.good() && c.kind != 'x' && !os.IsNotExist(err) {
			t.Failf("%s: %v gives %v instead of not-exist", w.w, c, err)
		}
	}
	n := w.s.Events()
	mu.Lock()
	if at != "" {
		w.w += " at" + at
	}
	fl = nil
	budget := fired
	mu.Unlock()
	if failed > budget {
		t.Failf("%s: %d calls fail", w.w, failed)
	}
	// healthy from now on: connections that died unnoticed may fail one call each
	from := 40
	okRun := 0
	for i := 0; okRun < 3; i++ {
		c := call{"bds"[i%3], from + i}
		err, hung := w.do(c)
		if hung {
			break
		}
		if err == nil {
			okRun++
			continue
		}
		okRun = 0
		if failed++; failed > budget {
			t.Failf("%s: the remote is healthy again but %v fails: %v", w.w, c, err)
			break
		}
	}
	if !t.Failed() {
		// idle connections that died unnoticed may be there still
		dead := 0
		for _, c := range w.s.Open() {
			if c.IsDead() {
				dead++
			}
		}
		if dead == 0 || remote.Wait(200*time.Millisecond, func() bool {
			for _, c := range w.s.Open() {
				if c.IsDead() {
					return false
				}
			}
			return true
		}) || failed >= budget {
			w.audit(from + 8)
		}
	}
	w.finish()
	t.State(w.w, failed, len(w.s.Conns()))
	return n
}

func callsFor(i, n int) (l []call) {
	for k := 0; k < n; k++ {
		l = append(l, call{allKinds[i%len(allKinds)], k})
		i /= len(allKinds)
	}
	return
}

func pow(b, n int) int {
	r := 1
	for ; n > 0; n-- {
		r *= b
	}
	return r
}

func faultRuns(t *e2.T, calls []call) {
	n := history(t, calls, nil)
	for k := 0; k < n && !t.Failed(); k++ {
		for f := remote.Fail; f < remote.NFault; f++ {
			history(t, calls, []flt{{k, f}})
			if t.Failed() {
				return
			}
		}
	}
}

func histories(len int) func(i int, t *e2.T) {
	return func(i int, t *e2.T) { faultRuns(t, callsFor(i, len)) }
}

// pairs of faults in histories of two calls
func doubleFaults(i int, t *e2.T) {
	kinds := "bdsm"
	calls := []call{{kinds[i%4], 0}, {kinds[i/4%4], 1}}
	n := history(t, calls, nil)
	fs := []remote.Fault{remote.Fail, remote.DropBefore, remote.DropAfter, remote.CloseBefore, remote.CloseAfter}
	for a := 0; a < n; a++ {
		for b := a + 1; b < n+4; b++ {
			for _, f := range fs {
				for _, g := range fs {
					history(t, calls, []flt{{a, f}, {b, g}})
					if t.Failed() {
						return
					}
				}
			}
		}
	}
}

// ---- interleavings -----------------------------------------------------------------------------

// explore runs all schedules of the calls: at every point either the next call starts or one of the
// waiting packets is answered; with one fault of the given kind at any of the answers.
func explore(t *e2.T, warm int, calls []call, fault remote.Fault) {
	var prefix []int
	for runs := 0; ; runs++ {
		trace := schedule(t, warm, calls, fault, prefix)
		t.Note("schedules", 1)
		if t.Failed() {
			return
		}
		k := len(trace) - 1
		for k >= 0 && trace[k][0]+1 >= trace[k][1] {
			k--
		}
		if k < 0 {
			return
		}
		prefix = prefix[:0]
		for j := 0; j < k; j++ {
			prefix = append(prefix, trace[j][0])
		}
		prefix = append(prefix, trace[k][0]+1)
	}
}

type waiting struct {
	e    *remote.Event
	done chan remote.Fault
}

func schedule(t *e2.T, warm int, calls []call, fault remote.Fault, prefix []int) (trace [][2]int) {
	var mu sync.Mutex
	cond := sync.NewCond(&mu)
	held := map[int]*waiting{} // by connection
	gating := false
	w := newWorld(t, func(e *remote.Event) remote.Fault {
		if e.Kind != "packet" || e.Type == 1 {
			return remote.None
		}
		mu.Lock()
		if !gating {
			mu.Unlock()
			return remote.None
		}
		x := &waiting{e, make(chan remote.Fault, 1)}
		held[e.Conn.ID] = x
		cond.Broadcast()
		mu.Unlock()
		return <-x.done
	})
	w.w = fmt.Sprintf("%d idle connections, concurrent %v", warm, calls)
	// warm up
	if warm > 0 {
		var wg sync.WaitGroup
		gate := make(chan struct{})
		arrived := make(chan struct{}, 64)
		h := w.s.Hook
		w.s.Hook = func(e *remote.Event) remote.Fault {
			if e.Kind == "packet" && e.Label != "" {
				arrived <- struct{}{}
				<-gate
			}
			return remote.None
		}
		for i := 0; i < warm; i++ {
			wg.Add(1)
			go func(i int) { defer wg.Done(); _, _ = call{'s', 60 - i}.run(w.p) }(i)
		}
		for i := 0; i < warm; i++ {
			<-arrived
		}
		close(gate)
		wg.Wait()
		w.s.Hook = h
	}
	mu.Lock()
	gating = true
	mu.Unlock()
	type outcome struct {
		done bool
		err  error
		bad  string
	}
	out := make([]outcome, len(calls))
	started, faults, failed := 0, 0, 0
	choose := func(n int) int {
		c := 0
		if len(trace) < len(prefix) {
			c = prefix[len(trace)]
			if c >= n {
				c = n - 1
			}
		}
		trace = append(trace, [2]int{c, n})
		return c
	}
	// quiet: every started call is done or has a packet waiting
	quiet := func() bool {
		end := time.Now().Add(patience)
		wake := time.AfterFunc(patience+time.Millisecond, cond.Broadcast)
		defer wake.Stop()
		mu.Lock()
		defer mu.Unlock()
		for {
			open := 0
			for i := 0; i < started; i++ {
				if !out[i].done {
					open++
				}
			}
			if len(held) >= open {
				return true
			}
			if time.Now().After(end) {
				return false
			}
			cond.Wait()
		}
	}
	var steps []string
	for {
		if !quiet() {
			mu.Lock()
			n := len(held)
			mu.Unlock()
			if n == 0 {
				t.Failf("%s: schedule %v: a call does not return although every packet has been answered", w.w, steps)
				break
			}
		}
		mu.Lock()
		var ids []int
		for id := range held {
			ids = append(ids, id)
		}
		mu.Unlock()
		sort.Ints(ids)
		n := len(ids)
		if fault != remote.None && faults == 0 {
			n *= 2
		}
		canStart := started < len(calls)
		if canStart {
			n++
		}
		if n == 0 {
			break
		}
		c := choose(n)
		t.Step()
		if canStart {
			if c == 0 {
				i := started
				started++
				steps = append(steps, "start "+calls[i].String())
				go func() {
					err, bad := calls[i].run(w.p)
					mu.Lock()
					out[i] = outcome{true, err, bad}
					cond.Broadcast()
					mu.Unlock()
				}()
				continue
			}
			c--
		}
		f := remote.None
		if c >= len(ids) {
			c -= len(ids)
			f = fault
			faults++
		}
		mu.Lock()
		x := held[ids[c]]
		delete(held, ids[c])
		mu.Unlock()
		steps = append(steps, fmt.Sprintf("answer %v: %v", x.e, f))
		x.done <- f
		if f != remote.None && f != remote.Fail {
			// later packets on that connection will not come
		}
	}
	mu.Lock()
	gating = false
	for i := range out {
		if out[i].bad != "" {
			t.Failf("%s: schedule %v: %s", w.w, steps, out[i].bad)
		}
		if out[i].done && out[i].err != nil && calls[i].good() {
			failed++
		}
	}
	for _, x := range held {
		x.done <- remote.None
	}
	mu.Unlock()
	if failed > faults {
		t.Failf("%s: schedule %v: %d calls fail with %d faults", w.w, steps, failed, faults)
	}
	if !t.Failed() {
		w.w = fmt.Sprintf("%s: schedule %v", w.w, steps)
		for i := 0; i < 2; i++ {
			if err, _ := w.do(call{'s', 50 + i}); err != nil {
				if failed++; failed > faults {
					t.Failf("%s: a call after it fails: %v", w.w, err)
				}
			}
		}
		if failed >= faults {
			w.audit(20)
		}
	}
	w.finish()
	if !t.Failed() && len(w.s.Conns()) > warm+len(calls) {
		t.Failf("%s: %d connections for %d calls", w.w, len(w.s.Conns())-warm, len(calls))
	}
	t.State(warm, calls, fault, trace)
	return
}

var pairKinds = []string{"ff", "fd", "fs", "fm", "dd", "ds", "dm", "ss", "sm", "mm", "fx", "fn", "do"}

func interleave(i int, t *e2.T) {
	warm := i % 3
	k := pairKinds[i/3]
	if t.Tier != "thorough" && warm != 1 && (k == "ff" || k == "fd" || k == "dd") {
		return // the long ones: with one idle connection only
	}
	explore(t, warm, []call{{k[0], 0}, {k[1], 1}}, remote.None)
}

var faultPairs = []string{"fs", "ds", "ms", "ss", "sd", "sf"}
var faultKinds = []remote.Fault{remote.Fail, remote.DropBefore, remote.DropAfter, remote.CloseBefore, remote.CloseAfter}

func interleaveFaults(i int, t *e2.T) {
	warm := i % 2
	f := faultKinds[i/2%len(faultKinds)]
	k := faultPairs[i/2/len(faultKinds)]
	explore(t, warm, []call{{k[0], 0}, {k[1], 1}}, f)
}

var triples = []string{"sss", "ssf", "smd", "sso", "fss", "mss"}

func interleave3(i int, t *e2.T) {
	k := triples[i/2]
	explore(t, i%2*2, []call{{k[0], 0}, {k[1], 1}, {k[2], 2}}, remote.None)
}

var deepPairs = []string{"ff", "fd", "dd", "fm", "dm", "df"}

func interleaveDeep(i int, t *e2.T) {
	warm := i % 3
	f := faultKinds[i/3%len(faultKinds)]
	k := deepPairs[i/3/len(faultKinds)]
	explore(t, warm, []call{{k[0], 0}, {k[1], 1}}, f)
}

// ---- load --------------------------------------------------------------------------------------

// load: n calls at once, all held at the remote; afterwards every connection is idle or closed.
func load(i int, t *e2.T) {
	n := loads[i]
	var mu sync.Mutex
	held := 0
	gate := make(chan struct{})
	w := newWorld(t, func(e *remote.Event) remote.Fault {
		if e.Kind == "packet" && e.Label != "" && (e.Type == 3 || e.Type == 11 || e.Type == 17) {
			mu.Lock()
			held++
			mu.Unlock()
			<-gate
		}
		return remote.None
	})
	w.w = fmt.Sprintf("%d calls at once", n)
	ch := make(chan string, n)
	for k := 0; k < n; k++ {
		c := call{"fdsb"[k%4], k}
		go func() {
			err, bad := c.run(w.p)
			if err != nil {
				bad = fmt.Sprintf("%v: %v", c, err)
			}
			ch <- bad
		}()
		t.Step()
	}
	if !remote.Wait(patience, func() bool { mu.Lock(); defer mu.Unlock(); return held >= n }) {
		// a bound on connections is allowed: the others wait
		t.Note("bounded", 1)
	}
	close(gate)
	for k := 0; k < n; k++ {
		select {
		case b := <-ch:
			if b != "" {
				t.Failf("%s: %s", w.w, b)
			}
		case <-time.After(patience):
			t.Failf("%s: a call does not return", w.w)
			return
		}
	}
	if len(w.s.Conns()) > n {
		t.Failf("%s: %d connections are opened", w.w, len(w.s.Conns()))
	}
	// connections over the pool's capacity are being closed: the number settles
	last, same := -1, 0
	remote.Wait(patience, func() bool {
		k := len(w.s.Open())
		if k == last {
			same++
		} else {
			same = 0
		}
		last = k
		return same > 120
	})
	if !t.Failed() {
		w.audit(0)
	}
	w.finish()
	t.State(n, last)
	t.Note("idle connections after the load", int64(last))
}

var loads = []int{1, 2, 3, 4, 8, 16, 31, 32, 33, 34, 40, 48, 64}

func n(k int) func(string) int { return func(string) int { return k } }

var bigSizes = []int{0, 1, 255, 256, 1023, 1024, 4095, 4096, 32767, 32768, 32769, 65535, 65536, 65537, 98304, 131072, 262144, 1<<20 - 1, 1 << 20, 1<<20 + 1, 1<<21 - 1, 1 << 21, 1<<21 + 1, 1<<22 + 12345, 1 << 23, 10000000, 1<<24 - 1, 1 << 24, 1<<24 + 1, 40000000}
var bigDirs = []int{0, 1, 2, 19, 20, 21, 99, 100, 101, 127, 128, 255, 256, 257, 999, 1000, 1001, 1024, 2000, 4097, 10000, 10001, 33000}
var oddNames = []string{" ", "a b", "-", "~", "*", "a\nb", "\\", "'\"", "\xff\xfe", "ü€", "...", ".x", strings.Repeat("n", 255), "%s%d", "$HOME", "a;b", "nul", "x.tmp"}

// sizes: complete files and listings of every size, then all of them once more.
func sizes(i int, t *e2.T) {
	top := dirNode("r")
	node := top
	what := ""
	switch {
	case i < len(bigSizes):
		what = fmt.Sprintf("a file of %d bytes", bigSizes[i])
		top.Kids = append(top.Kids, fileNode("x", ref.Content(bigSizes[i], i)))
	case i < len(bigSizes)+len(bigDirs):
		k := bigDirs[i-len(bigSizes)]
		what = fmt.Sprintf("a directory of %d entries", k)
		d := dirNode("x")
		for j := 0; j < k; j++ {
			if j%5 == 4 {
				d.Kids = append(d.Kids, dirNode(fmt.Sprint("d", j)))
			} else {
				d.Kids = append(d.Kids, fileNode(fmt.Sprint("f", j), ref.Content(j%70, j)))
			}
		}
		top.Kids = append(top.Kids, d)
	default:
		what = "odd names"
		for d := 0; d < 3; d++ {
			for j, n := range oddNames {
				node.Kids = append(node.Kids, fileNode(n+"f", ref.Content(50+j, j)))
			}
			x := dirNode(oddNames[(i+d*5)%len(oddNames)])
			node.Kids = append(node.Kids, x)
			node = x
		}
	}
	w := newWorld(t, nil)
	defer w.s.Stop()
	w.s.FS = &ref.FS{Root: "/r", Top: top}
	var walk func(p string, n *ref.Node, depth int)
	walk = func(p string, n *ref.Node, depth int) {
		if t.Failed() {
			return
		}
		t.Steps(2)
		t.State(i, p)
		if st, err := w.p.Stat(p); err != nil || st.Size() != n.S || st.Mode() != n.M || st.ModTime().Unix() != n.T.Unix() {
			t.Failf("%s: Stat %q: %v %v", what, p, st, err)
		}
		if !n.IsDir() {
			if b, err := w.p.ReadFile(p); err != nil || !bytes.Equal(b, n.Data) {
				t.Failf("%s: ReadFile %q: %d bytes instead of %d, error %v, or other ones", what, p, len(b), len(n.Data), err)
			}
			return
		}
		l, err := w.p.ReadDir(p)
		if err != nil {
			t.Failf("%s: ReadDir %q: %v", what, p, err)
			return
		}
		if bad := sameList(call{'d', 0}, l, n); bad != "" {
			t.Failf("%s: ReadDir %q: %s", what, p, bad)
		}
		if depth < 4 {
			for j, k := range n.Kids {
				if j < 40 || j > len(n.Kids)-3 {
					walk(p+"/"+k.N, k, depth+1)
				}
			}
		}
	}
	walk("/r", top, 0)
	walk("/r", top, 0)
	if k := len(w.s.Conns()); k > 1 {
		t.Failf("%s: one call after the other uses %d connections", what, k)
	}
}

func thor(q, k int) func(string) int {
	return func(tier string) int {
		if tier == "thorough" {
			return k
		}
		return q
	}
}

func main() {
	K := len(allKinds)
	gs := []e2.Group{
		{Name: "one call", Bounds: "9 kinds of call, every one of 9 faults at every event of connecting and calling", N: n(K), Run: histories(1)},
		{Name: "two calls", Bounds: "81 pairs of calls in sequence, every fault at every event", N: n(K * K), Run: histories(2)},
		{Name: "sizes", Bounds: "30 file sizes from 0 to 40 MB, 23 directory sizes to 33000, 18 odd names in trees of 3 levels; everything walked twice", N: n(len(bigSizes) + len(bigDirs) + len(oddNames)), Run: sizes},
		{Name: "library model", Bounds: "4 uses of the SFTP library, every fault at every packet: each behaviour of the real library is one of the model's (the model behind the exploration of schedules)", N: n(4), Run: conform},
		{Name: "load", Bounds: "13 numbers of simultaneous calls from 1 to 64", N: n(len(loads)), Run: load},
		{Name: "interleavings", Bounds: "13 pairs of concurrent calls, 0 to 2 idle connections (1 for the three longest pairs in the quick tier), every order of starts and answers", N: n(3 * len(pairKinds)), Run: interleave},
		{Name: "interleavings with a fault", Bounds: "6 pairs of concurrent calls, 0 or 1 idle connections, every order of starts and answers, one of 5 faults at any answer", N: n(2 * len(faultKinds) * len(faultPairs)), Run: interleaveFaults},
		{Name: "three calls at once", Bounds: "6 triples of concurrent calls, 0 or 2 idle connections, every order of starts and answers", N: thor(2, 2*len(triples)), Run: interleave3},
		{Name: "three calls", Bounds: "729 triples of calls in sequence, every fault at every event", N: thor(0, pow(K, 3)), Run: histories(3)},
		{Name: "two faults", Bounds: "16 pairs of calls in sequence, every pair of 5 faults at every pair of events", N: thor(0, 16), Run: doubleFaults},
		{Name: "deep interleavings with a fault", Bounds: "6 more pairs of concurrent calls, 0 to 2 idle connections, one of 5 faults at any answer", N: thor(0, 3*len(faultKinds)*len(deepPairs)), Run: interleaveDeep},
	}
	for i := range gs {
		gs[i].Setup = setup
		gs[i].Stall = 10 * time.Minute
	}
	e2.Main([]e2.Check{{Prop: "C17", Groups: gs, Assume: []string{"the remote speaks well-formed SFTP and always answers or goes away; a call to a remote that stays silent may wait"}}})
}
