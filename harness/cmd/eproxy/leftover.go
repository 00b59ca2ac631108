package main

import (
	"fmt"
	"io"
	"io/ioutil"
	"net"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"golang.org/x/crypto/ssh"

	"verif/e2"
	"verif/ref"
	"verif/remote"
	"verif/wire"
)

// C27: what has ended leaves nothing behind.

var (
	leftVol    *ref.Volume
	createdRe  = regexp.MustCompile(`(?m)^created by (\S+)`)
	heapRe     = regexp.MustCompile(`\d+->\d+->(\d+) MB, `)
	baseCensus = map[string]map[string]int{}
)

const spare = 4 // goroutines that may come and go

// place is a proxy for one case, whose remote connections are all closed in the end.
type place struct {
	t   *e2.T
	s   *remote.Server
	p   *proxy
	fds int

	keep io.Closer // open until the end

	mu sync.Mutex
	h  func(e *remote.Event) remote.Fault
}

func newPlace(t *e2.T) *place {
	if cur != nil {
		cur.end()
	}
	if leftVol == nil {
		sp := ref.Spec{"/d/e/big": ref.Content(1<<20, 27)}
		for p, c := range spec {
			sp[p] = c
		}
		leftVol = ref.Build(ref.NewKeys(ref.Content(32, 27), true, true, false), "/vol", volPass, sp)
	}
	l := &place{t: t, s: remoteOf(leftVol)}
	l.s.Hook = func(e *remote.Event) remote.Fault {
		l.mu.Lock()
		h := l.h
		l.mu.Unlock()
		if h == nil {
			return remote.None
		}
		return h(e)
	}
	// frequent garbage collections that report what is in use
	env = []string{"GOGC=20", "GODEBUG=gctrace=1"}
	l.p = start(t, defConf(l.s))
	env = nil
	if l.p == nil {
		l.s.Stop()
		return nil
	}
	if err := visit(defaultUser, defPw); err != nil {
		t.Failf("a client is not served: %v", err)
		l.end()
		return nil
	}
	return l
}

func (l *place) end() {
	if l.keep != nil {
		l.keep.Close()
	}
	l.p.stop()
	l.s.Stop()
}

// files counts the files and sockets the proxy has open.
func (l *place) files() int {
	d, err := ioutil.ReadDir(fmt.Sprintf("/proc/%d/fd", l.p.cmd.Process.Pid))
	if err != nil {
		return -1
	}
	return len(d)
}

// live is the memory in use in the proxy at the last garbage collection, in MiB.
func (l *place) live() int {
	l.p.mu.Lock()
	defer l.p.mu.Unlock()
	b := l.p.out.Bytes()
	if len(b) > 4096 {
		b = b[len(b)-4096:]
	}
	m := heapRe.FindAllSubmatch(b, -1)
	if m == nil {
		return 0
	}
	n, _ := strconv.Atoi(string(m[len(m)-1][1]))
	return n
}

// census ends the proxy and tells which goroutines there were, by what started them. All connections
// of the proxy to the remote are closed before.
func (l *place) census(wait time.Duration) (m map[string]int, files int) {
	for end := time.Now().Add(wait); ; {
		l.s.DropAll()
		time.Sleep(60 * time.Millisecond)
		if files = l.files(); files <= l.fds || time.Now().After(end) {
			break
		}
	}
	if wait > time.Second {
		time.Sleep(wait)
		l.s.DropAll()
	}
	time.Sleep(60 * time.Millisecond)
	from := l.p.printed()
	_ = l.p.cmd.Process.Signal(syscall.SIGQUIT)
	select {
	case <-l.p.gone:
	case <-time.After(patience):
		return nil, files
	}
	l.p.mu.Lock()
	dump := string(l.p.out.Bytes()[from:])
	l.p.mu.Unlock()
	if !strings.Contains(dump, "SIGQUIT") {
		return nil, files
	}
	m = map[string]int{}
	for _, g := range strings.Split(dump, "\n\n") {
		if !strings.HasPrefix(strings.TrimSpace(g), "goroutine ") || strings.Contains(g, "goroutine 0 ") {
			continue
		}
		by := "the program"
		if x := createdRe.FindStringSubmatch(g); x != nil {
			by = x[1]
		}
		m[by]++
	}
	return m, files
}

func total(m map[string]int) (n int) {
	for _, k := range m {
		n += k
	}
	return
}

func more(m, base map[string]int) string {
	var l []string
	for by, n := range m {
		if n > base[by] {
			l = append(l, fmt.Sprintf("%d of %s", n-base[by], by))
		}
	}
	sort.Strings(l)
	return strings.Join(l, ", ")
}

// leaves runs f on a fresh proxy and compares what is left with what is left of a single visit.
func leaves(t *e2.T, what string, f func(l *place) bool) { leavesOver(t, "", what, nil, f) }

// leavesOver compares with what is left of g.
func leavesOver(t *e2.T, key, what string, g, f func(l *place) bool) {
	key += strings.Join(flags, " ")
	one := func(wait time.Duration, f func(l *place) bool) (m map[string]int, files, fds int, ok bool) {
		l := newPlace(t)
		if l == nil {
			return nil, 0, 0, false
		}
		defer l.end()
		l.s.DropAll()
		time.Sleep(60 * time.Millisecond)
		l.fds = l.files()
		// one request may fail for each lost connection
		_ = in(false, func(c *ssh.Client) {
			if w, err := session(c); err == nil {
				for k := 0; k < 8 && !w.Do(wire.Stat, wire.Str("/d/g")).Success(); k++ {
				}
			}
		})()
		if f != nil && !f(l) {
			return nil, 0, 0, false
		}
		if !l.p.running() {
			t.Failf("%s: the proxy has ended: %s", what, l.p.text())
			return nil, 0, 0, false
		}
		m, files = l.census(wait)
		if m == nil {
			t.Note("no list of goroutines", 1)
			return nil, 0, 0, false
		}
		return m, files, l.fds, true
	}
	base := baseCensus[key]
	if base == nil {
		m, _, _, ok := one(time.Second, g)
		if !ok {
			return
		}
		base, baseCensus[key] = m, m
	}
	var m map[string]int
	var files, fds int
	for _, wait := range []time.Duration{time.Second, 8 * time.Second} {
		var ok bool
		if m, files, fds, ok = one(wait, f); !ok {
			return
		}
		if total(m) <= total(base)+spare && files <= fds+spare {
			return
		}
	}
	if files > fds+spare {
		t.Failf("%s: afterwards %d files and sockets are open, %d before", what, files, fds)
		return
	}
	t.Failf("%s: %d goroutines are left, %d after a single client: %s more", what, total(m), total(base), more(m, base))
}

const chunk = 12

// gone: clients of every kind, several times, all of which have left.
func gone(i int, t *e2.T) {
	ms := append(misdeeds(), vanishings()...)
	ms = append(ms, misdeed{"be served", func() []io.Closer { _ = visit(defaultUser, defPw); return nil }},
		misdeed{"be served on two sessions", in(true, func(c *ssh.Client) {
			_ = look(c, true)
			_ = look(c, false)
		})})
	lo, hi := i*chunk, (i+1)*chunk
	if hi > len(ms) {
		hi = len(ms)
	}
	if lo >= hi {
		return
	}
	n := 10
	if t.Tier == "thorough" {
		n = 40
	}
	run := func(sel []misdeed) func(l *place) bool {
		return func(l *place) bool {
			var mu sync.Mutex
			var open []io.Closer
			for _, m := range sel {
				m := m
				var wg sync.WaitGroup
				for k := 0; k < n; k++ {
					wg.Add(1)
					go func() {
						defer wg.Done()
						o := m.do()
						mu.Lock()
						open = append(open, o...)
						mu.Unlock()
					}()
				}
				wg.Wait()
				t.Steps(n)
			}
			for _, o := range open {
				o.Close()
			}
			return true
		}
	}
	t.State(i)
	var names []string
	for _, m := range ms[lo:hi] {
		names = append(names, m.name)
	}
	leaves(t, fmt.Sprintf("%d clients each %s, and all leave", n, strings.Join(names, "; ")), run(ms[lo:hi]))
}

// closings: ways to use a channel and end it, while the connection lasts.
var closings = []struct {
	name string
	f    func(c *ssh.Client)
}{
	{"an unused channel", func(c *ssh.Client) {
		if ch, rq, err := c.OpenChannel("session", nil); err == nil {
			go ssh.DiscardRequests(rq)
			ch.Close()
		}
	}},
	{"a channel of an unknown type", func(c *ssh.Client) { _, _, _ = c.OpenChannel("x", nil) }},
	{"a shell", func(c *ssh.Client) {
		if ch, rq, err := c.OpenChannel("session", nil); err == nil {
			go ssh.DiscardRequests(rq)
			_, _ = ch.SendRequest("shell", true, nil)
			ch.Close()
		}
	}},
	{"an unused SFTP session", func(c *ssh.Client) {
		if ch, err := channel(c); err == nil {
			ch.Close()
		}
	}},
	{"an SFTP session that is served", func(c *ssh.Client) {
		if w, err := session(c); err == nil {
			_, _ = w.List("/d")
			_, _ = w.ReadAll("/d/g")
			w.C.Close()
		}
	}},
	{"an SFTP session with open handles", func(c *ssh.Client) {
		if w, err := session(c); err == nil {
			w.Do(wire.Open, wire.Str("/f"), wire.U32(1), wire.U32(0))
			w.Do(wire.Opendir, wire.Str("/many"))
			w.C.Close()
		}
	}},
	{"an SFTP session with outstanding requests", func(c *ssh.Client) {
		if w, err := session(c); err == nil {
			for i := 0; i < 20; i++ {
				w.Send(wire.Stat, wire.Str("/d/g"))
				w.Send(wire.Opendir, wire.Str("/many"))
			}
			w.C.Close()
		}
	}},
	{"an SFTP session ended by end of file", func(c *ssh.Client) {
		if ch, err := channel(c); err == nil {
			_, _ = ch.Write(wire.Frame(wire.Init, wire.U32(3)))
			_ = ch.CloseWrite()
			soon(func() { _, _ = io.Copy(ioutil.Discard, ch) })
			ch.Close()
		}
	}},
	{"an SFTP session ended by nothing but end of file", func(c *ssh.Client) {
		if ch, err := channel(c); err == nil {
			_, _ = ch.Write(wire.Frame(wire.Init, wire.U32(3)))
			_, _, _ = wire.ReadFrame(ch)
			_ = ch.CloseWrite()
		}
	}},
	{"an SFTP session that ends inside a packet", func(c *ssh.Client) {
		if w, err := session(c); err == nil {
			_ = w.Raw([]byte{0, 0, 1, 0, 5, 1})
			w.C.Close()
		}
	}},
	{"an SFTP session that ends with a malformed packet", func(c *ssh.Client) {
		if w, err := session(c); err == nil {
			_ = w.Raw([]byte{0, 0, 0, 0, 0, 0})
			soon(func() { _, _, _ = wire.ReadFrame(w.C) })
			w.C.Close()
		}
	}},
}

func channels(i int, t *e2.T) {
	n := 60
	if t.Tier == "thorough" {
		n = 400
	}
	t.State(i)
	u := closings[i]
	times := func(l *place, n int, f func(c *ssh.Client)) bool {
		c, err := dial(defaultUser, ssh.Password(defPw))
		if err != nil {
			t.Failf("no login: %v", err)
			return false
		}
		stuck := time.AfterFunc(2*patience, func() { c.Close() })
		defer stuck.Stop()
		for k := 0; k < n; k++ {
			f(c)
			t.Step()
		}
		// the connection lasts until the census
		l.fds++
		l.keep = c
		return true
	}
	leavesOver(t, "connection", fmt.Sprintf("one connection with %d times %s", n, u.name),
		func(l *place) bool { return times(l, 1, closings[0].f) },
		func(l *place) bool { return times(l, n, u.f) })
}

// requests of one session, none of which leaves anything open
var repeats = []struct {
	name string
	n    int
	f    func(w *wire.Client, k int) error

	opens bool // and fails
}{
	{"a large file is opened and closed", 240, func(w *wire.Client, _ int) error { return openClose(w, "/d/e/big") }, false},
	{"a large file is read", 60, func(w *wire.Client, _ int) error { _, err := w.ReadAll("/d/e/big"); return err }, false},
	{"a directory is listed", 1500, func(w *wire.Client, _ int) error { _, err := w.List("/many"); return err }, false},
	{"a directory is opened and closed", 1500, func(w *wire.Client, _ int) error {
		r := w.Do(wire.Opendir, wire.Str("/many"))
		if r.Type == wire.Handle {
			r = w.Do(wire.Close, wire.Str(r.Handle))
		}
		return r.Err
	}, false},
	{"a file is stat-ed", 3000, func(w *wire.Client, _ int) error { return w.Do(wire.Stat, wire.Str("/d/g")).Err }, false},
	{"a directory is stat-ed", 3000, func(w *wire.Client, _ int) error { return w.Do(wire.Stat, wire.Str("/d/e")).Err }, false},
	{"a missing file of a long name is opened", 3000, func(w *wire.Client, k int) error {
		return w.Do(wire.Open, wire.Str(longPath(k)), wire.U32(1), wire.U32(0)).Err
	}, true},
	{"a missing path of a long name is stat-ed", 3000, func(w *wire.Client, k int) error { return w.Do(wire.Stat, wire.Str(longPath(k))).Err }, false},
	{"a missing directory of a long name is listed", 3000, func(w *wire.Client, k int) error { return w.Do(wire.Opendir, wire.Str(longPath(k))).Err }, true},
	{"an existing file is stat-ed by a long path", 3000, func(w *wire.Client, k int) error {
		return w.Do(wire.Stat, wire.Str("/"+strings.Repeat("x/../", 6000+k)+"d/g")).Err
	}, false},
	{"a missing path of many parts is stat-ed", 60, func(w *wire.Client, k int) error {
		return w.Do(wire.Stat, wire.Str(strings.Replace(longPath(k), "-", "/", -1))).Err
	}, false},
	{"a changing request is made", 3000, func(w *wire.Client, k int) error {
		switch k % 4 {
		case 0:
			return w.Do(wire.Open, wire.Str(longPath(k)), wire.U32(0x1a), wire.U32(0)).Err
		case 1:
			return w.Do(wire.Remove, wire.Str(longPath(k))).Err
		case 2:
			return w.Do(wire.Mkdir, wire.Str(longPath(k)), wire.U32(0)).Err
		}
		return w.Do(wire.Rename, wire.Str(longPath(k)), wire.Str(longPath(k+1))).Err
	}, true},
	{"a path is resolved", 3000, func(w *wire.Client, k int) error { return w.Do(wire.Realpath, wire.Str(longPath(k))).Err }, false},
	{"a link is read", 3000, func(w *wire.Client, k int) error { return w.Do(wire.Readlnk, wire.Str(longPath(k))).Err }, false},
	{"an unknown handle is used", 3000, func(w *wire.Client, k int) error {
		if r := w.Do(wire.Read, wire.Str(longPath(k)), wire.U64(0), wire.U32(1)); r.Err != nil {
			return r.Err
		}
		return w.Do(wire.Close, wire.Str(longPath(k))).Err
	}, false},
}

func longPath(k int) string { return "/d/" + strings.Repeat(fmt.Sprintf("%06d-", k), 2500)[:16000] }

func openClose(w *wire.Client, p string) error {
	r := w.Do(wire.Open, wire.Str(p), wire.U32(1), wire.U32(0))
	if r.Err == nil && r.Type != wire.Handle {
		return fmt.Errorf("not opened: %v", r)
	}
	return w.Do(wire.Close, wire.Str(r.Handle)).Err
}

// again: the same request or session many times over.
func again(i int, t *e2.T) {
	t.State(i)
	name, n, f := "", 0, func(*wire.Client, int) error { return nil }
	if i < len(repeats) {
		name, n, f = repeats[i].name, repeats[i].n, repeats[i].f
	} else {
		v := visits[i-len(repeats)]
		name, n = v.name, v.n
		f = func(_ *wire.Client, k int) error { v.f(k); return nil }
	}
	if t.Tier == "thorough" && n < 10000 {
		n *= 4
	}
	leaves(t, fmt.Sprintf("%s %d times", name, n), func(l *place) bool {
		c, err := dial(defaultUser, ssh.Password(defPw))
		if err != nil {
			t.Failf("no login: %v", err)
			return false
		}
		defer c.Close()
		w, err := session(c)
		if err != nil {
			t.Failf("no session: %v", err)
			return false
		}
		early, late := 0, 0
		for k := 0; k < n; k++ {
			if k%100 == 99 && i < len(repeats) && repeats[i].opens {
				// an opening that fails is kept until the end of the session, a known finding
				_ = w.C.Close()
				if w, err = session(c); err != nil {
					t.Failf("no session: %v", err)
					return false
				}
			}
			if k%200 == 199 && i >= len(repeats) {
				// those that left count when the proxy has noticed
				for j := 0; j < 100 && l.files() > l.fds+10; j++ {
					time.Sleep(20 * time.Millisecond)
				}
			}
			stuck := time.AfterFunc(patience, func() { c.Close() })
			err := f(w, k)
			stuck.Stop()
			t.Step()
			if err != nil {
				t.Failf("%s: %v after %d times", name, err, k)
				return false
			}
			// the most of each half, after some time
			if k >= n/6 && k%(n/60) == 0 {
				r := l.live()
				if k < n/3 && r > early {
					early = r
				}
				if k >= n/3 && r > late {
					late = r
				}
			}
		}
		if late > early+growth {
			t.Failf("%s %d times: the proxy grows from %d to %d MiB", name, n, early, late)
			return false
		}
		return true
	})
}

const growth = 4 // MiB

// visits: what clients that come and go do
var visits = []struct {
	name string
	n    int
	f    func(k int)
}{
	{"a client comes, is served and leaves", 300, func(int) { _ = visit(defaultUser, defPw) }},
	{"a client of a long wrong name is rejected", 300, func(k int) {
		if c, err := dial(strings.Repeat(fmt.Sprintf("%06d", k), 4000), ssh.Password("x")); err == nil {
			c.Close()
		}
	}},
	{"a client with a long wrong password is rejected", 300, func(k int) {
		if c, err := dial(defaultUser, ssh.Password(strings.Repeat(fmt.Sprintf("%06d", k), 4000))); err == nil {
			c.Close()
		}
	}},
	{"a client is never heard of after it connected", 60000, func(int) {
		if c := tcp(); c != nil {
			_ = c.(*net.TCPConn).SetLinger(0)
			c.Close()
		}
	}},
	{"a client leaves with large files open", 60, func(int) {
		c, err := dial(defaultUser, ssh.Password(defPw))
		if err != nil {
			return
		}
		if w, err := session(c); err == nil {
			for i := 0; i < 4; i++ {
				w.Do(wire.Open, wire.Str("/d/e/big"), wire.U32(1), wire.U32(0))
			}
		}
		c.Close()
	}},
	{"a client vanishes while it is sent much", 60, func(int) {
		c, err := dial(defaultUser, ssh.Password(defPw))
		if err != nil {
			return
		}
		if w, err := session(c); err == nil {
			r := w.Do(wire.Open, wire.Str("/d/e/big"), wire.U32(1), wire.U32(0))
			for i := 0; i < 32 && r.Type == wire.Handle; i++ {
				w.Send(wire.Read, wire.Str(r.Handle), wire.U64(uint64(i)<<15), wire.U32(32768))
			}
		}
		c.Close()
	}},
}

// failing: requests while the remote fails at every third event of one kind.
func failing(i int, t *e2.T) {
	kinds := []string{"accept", "auth", "channel", "subsystem", "packet"}
	kind, fault := kinds[i/len(outFaults)], outFaults[i%len(outFaults)]
	t.State(i)
	n := 60
	if t.Tier == "thorough" {
		n = 300
	}
	leaves(t, fmt.Sprintf("%d requests while every third %s of the remote meets: %s", n, kind, fault), func(l *place) bool {
		c, err := dial(defaultUser, ssh.Password(defPw))
		if err != nil {
			t.Failf("no login: %v", err)
			return false
		}
		defer c.Close()
		stuck := time.AfterFunc(5*patience, func() { c.Close() })
		defer stuck.Stop()
		w, err := session(c)
		if err != nil {
			t.Failf("no session: %v", err)
			return false
		}
		var mu sync.Mutex
		k := 0
		var last *remote.Conn
		hook := func(e *remote.Event) remote.Fault {
			mu.Lock()
			defer mu.Unlock()
			if e.Kind == "packet" && e.Type != wire.Init {
				last = e.Conn
			}
			if e.Kind != kind {
				return remote.None
			}
			if k++; k%3 == 0 {
				return fault
			}
			return remote.None
		}
		l.hook(hook)
		defer l.hook(nil)
		for j := 0; j < n; j++ {
			if kind != "packet" && j%2 == 0 {
				// the connection in use dies; those that are left over do not
				mu.Lock()
				used := last
				mu.Unlock()
				if used != nil {
					used.Drop()
				}
			}
			var r wire.Reply
			if j%2 == 0 {
				r = w.Do(wire.Stat, wire.Str("/d/g"))
			} else {
				r = w.Do(wire.Open, wire.Str(fmt.Sprintf("/many/file%d", j%120)), wire.U32(1), wire.U32(0))
			}
			t.Step()
			if open := len(l.s.Open()); open > 1+spare && j == n-1 {
				t.Failf("%d requests one after the other while every third %s of the remote meets: %s: %d connections to it are open", n, kind, fault, open)
				return false
			}
			if r.Err != nil {
				t.Failf("request %d while every third %s of the remote meets: %s: %v", j, kind, fault, r)
				return false
			}
		}
		return true
	})
}

func (l *place) hook(h func(e *remote.Event) remote.Fault) {
	l.mu.Lock()
	l.h = h
	l.mu.Unlock()
}

// openings that fail, all in one session
var openings = []struct {
	name string
	f    func(w *wire.Client, p string) wire.Reply
}{
	{"of a missing file", func(w *wire.Client, p string) wire.Reply {
		return w.Do(wire.Open, wire.Str(p), wire.U32(1), wire.U32(0))
	}},
	{"of a missing directory", func(w *wire.Client, p string) wire.Reply { return w.Do(wire.Opendir, wire.Str(p)) }},
	{"for writing", func(w *wire.Client, p string) wire.Reply {
		return w.Do(wire.Open, wire.Str(p), wire.U32(0x1a), wire.U32(0))
	}},
}

// opened: openings that fail are, as a known finding, kept until the session ends, but no longer, and
// nothing but their path.
func opened(i int, t *e2.T) {
	t.State(i)
	l := newPlace(t)
	if l == nil {
		return
	}
	defer l.end()
	c, err := dial(defaultUser, ssh.Password(defPw))
	if err != nil {
		t.Failf("no login: %v", err)
		return
	}
	defer c.Close()
	const n = 4000
	var seen [3]int
	for round := range seen {
		w, err := session(c)
		if err != nil {
			t.Failf("no session: %v", err)
			return
		}
		for k := 0; k < n; k++ {
			if r := openings[i].f(w, longPath(k)); !r.Failed() {
				t.Failf("an opening %s: %v", openings[i].name, r)
				return
			}
		}
		t.Steps(n)
		seen[round] = l.live()
		w.C.Close()
		time.Sleep(100 * time.Millisecond)
	}
	const kept = 16000 * n >> 20
	if seen[2] > seen[0]+growth || seen[2] > 2*kept+growth {
		t.Failf("%d failed openings %s in each of three sessions: the proxy grows to %d, %d and %d MiB", n, openings[i].name, seen[0], seen[1], seen[2])
		return
	}
	if seen[0] > kept/2+growth {
		t.Failf("failed openings %s are kept until the session ends: %d of them occupy %d MiB", openings[i].name, n, seen[0])
	}
}

func groups27() []e2.Group {
	nc := (len(misdeeds()) + len(vanishings()) + 2 + chunk - 1) / chunk
	return []e2.Group{
		{Name: "clients that have gone", Bounds: "about 100 ways to come and go at every stage of a connection, 10 (thorough 40) clients each at the same time", N: num(nc), Run: gone},
		{Name: "channels of a lasting connection", Bounds: "11 ways to use and end a channel, 60 (thorough 400) times each on one connection", N: num(len(closings)), Run: channels},
		{Name: "repeated requests and visits", Bounds: "21 requests, failing or not, and kinds of visits, up to 3000 (thorough 12000) times each, 60000 connections; memory, goroutines and open files", N: num(len(repeats) + len(visits)), Run: again},
		{Name: "failing remote", Bounds: "every kind of fault at every third event of each of 5 kinds, for 60 (thorough 300) requests", N: num(5 * len(outFaults)), Run: failing},
		{Name: "failed openings", Bounds: "3 kinds of failing OPEN and OPENDIR, 4000 times in each of 3 sessions", N: num(len(openings)), Run: opened, Stop: 8},
	}
}

// knownFindings reads the entries "known: property=ID match=<start of the violation> :: <text>".
func knownFindings(prop string) map[string]string {
	m := map[string]string{}
	b, _ := ioutil.ReadFile(filepath.Join(os.Getenv("VERIF_ROOT"), "KNOWN_FINDINGS.txt"))
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimPrefix(l, "known: property="+prop+" match=")
		if i := strings.Index(l, " :: "); i > 0 && !strings.HasPrefix(l, "known:") && !strings.HasPrefix(l, "fixed:") {
			m[l[:i]] = l[i+4:]
		}
	}
	return m
}
