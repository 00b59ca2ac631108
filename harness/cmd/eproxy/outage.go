package main

import (
	"fmt"
	"path"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/crypto/ssh"

	"verif/e2"
	"verif/ref"
	"verif/remote"
	"verif/wire"
)

// C26: outages of the remote, through the running program. The volume has many directories alike,
// so that every run works on items that have not been asked for yet.

const outageDirs = 800

var outageVol *ref.Volume

func outSpec(n int) ref.Spec {
	d := fmt.Sprintf("/o%d", n)
	return ref.Spec{d + "/a": ref.Content(5000+n, n), d + "/s/b": []byte(fmt.Sprint("b of ", n)), d + "/s/e": {}, d + "/z/": nil}
}

// stage is a proxy and its remote; run after run uses the next directory.
type stage struct {
	t    *e2.T
	s    *remote.Server
	p    *proxy
	c    *ssh.Client
	w    *wire.Client
	next int
	from int // connections before this one belong to earlier runs

	mu   sync.Mutex
	hook func(e *remote.Event, k int) remote.Fault // k: number of events since set
	k    int
}

func (g *stage) set(h func(e *remote.Event, k int) remote.Fault) {
	g.mu.Lock()
	g.hook, g.k = h, 0
	g.mu.Unlock()
}

func (g *stage) count() int {
	g.mu.Lock()
	defer g.mu.Unlock()
	return g.k
}

func newStage(t *e2.T) *stage {
	if cur != nil {
		cur.end()
	}
	if outageVol == nil {
		all := ref.Spec{}
		for i := 0; i < outageDirs; i++ {
			for p, c := range outSpec(i) {
				all[p] = c
			}
		}
		outageVol = ref.Build(ref.NewKeys(ref.Content(32, 26), true, true, false), "/vol", volPass, all)
	}
	g := &stage{t: t, s: remoteOf(outageVol)}
	g.s.Hook = func(e *remote.Event) remote.Fault {
		g.mu.Lock()
		h, k := g.hook, g.k
		g.k++
		g.mu.Unlock()
		if h == nil {
			return remote.None
		}
		return h(e, k)
	}
	if g.p = start(t, defConf(g.s)); g.p == nil {
		g.s.Stop()
		return nil
	}
	var err error
	if g.c, g.w, err = g.client(); err != nil {
		t.Failf("%v", err)
		g.end()
		return nil
	}
	if _, err := g.w.List("/"); err != nil {
		t.Failf("no listing at first: %v", err)
		g.end()
		return nil
	}
	g.s.SetPage(2) // listings take several replies
	return g
}

func (g *stage) client() (*ssh.Client, *wire.Client, error) {
	c, err := dial(defaultUser, ssh.Password(defPw))
	if err != nil {
		return nil, nil, fmt.Errorf("no login: %v", err)
	}
	w, err := session(c)
	if err != nil {
		return nil, nil, fmt.Errorf("no session: %v", err)
	}
	return c, w, nil
}

func (g *stage) end() {
	g.set(nil)
	if g.c != nil {
		g.c.Close()
	}
	g.p.stop()
	g.s.Stop()
}

// asking is a request about directory n.
type asking struct {
	name string
	do   func(w *wire.Client, n int) (ans string, err error)
	want func(n int) string
}

func attrs(d string, n *ref.Node) string {
	if n.IsDir() {
		return d + "/"
	}
	return fmt.Sprint(d, " ", len(n.PData))
}

func lists(sub string) asking {
	return asking{"list " + sub, func(w *wire.Client, n int) (string, error) {
		l, err := w.List(fmt.Sprintf("/o%d%s", n, sub))
		var a []string
		for _, e := range l {
			if e.A.Perm&0170000 == 0040000 {
				a = append(a, e.Name+"/")
			} else {
				a = append(a, fmt.Sprint(e.Name, " ", e.A.Size))
			}
		}
		sort.Strings(a)
		return strings.Join(a, "|"), err
	}, func(n int) string {
		var a []string
		for _, k := range outageVol.Resolve(fmt.Sprintf("/o%d%s", n, sub)).Kids {
			if k.Plain != "" {
				a = append(a, attrs(k.Plain, k))
			}
		}
		sort.Strings(a)
		return strings.Join(a, "|")
	}}
}

func stats(p string) asking {
	return asking{"stat " + p, func(w *wire.Client, n int) (string, error) {
		r := w.Do(wire.Stat, wire.Str(fmt.Sprintf("/o%d%s", n, p)))
		if r.Type != wire.Attrs || r.Err != nil {
			return "", fmt.Errorf("stat: %v", r)
		}
		if r.A.Perm&0170000 == 0040000 {
			return path.Base(p) + "/", nil
		}
		return fmt.Sprint(path.Base(p), " ", r.A.Size), nil
	}, func(n int) string { return attrs(path.Base(p), outageVol.Resolve(fmt.Sprintf("/o%d%s", n, p))) }}
}

func reads(p string) asking {
	return asking{"read " + p, func(w *wire.Client, n int) (string, error) {
		b, err := w.ReadAll(fmt.Sprintf("/o%d%s", n, p))
		return string(b), err
	}, func(n int) string { return string(outageVol.Resolve(fmt.Sprintf("/o%d%s", n, p)).PData) }}
}

var askings = []asking{lists(""), stats("/a"), reads("/a"), lists("/s"), stats("/s/b"), reads("/s/b"), stats("/s"), reads("/s/e")}

// ask makes a request, which may fail but not lie; tells whether it succeeded.
func (g *stage) ask(w *wire.Client, a asking, n int, what string) bool {
	ans, err := a.do(w, n)
	g.mu.Lock()
	defer g.mu.Unlock()
	g.t.Step()
	if err == nil && ans != a.want(n) {
		g.t.Failf("%s: %s in /o%d is answered %q, not %q", what, a.name, n, clip([]byte(ans)), clip([]byte(a.want(n))))
	}
	if err != nil && strings.Contains(err.Error(), "no reply: timeout") {
		g.t.Failf("%s: %s in /o%d: %v", what, a.name, n, err)
	}
	return err == nil
}

// alive: the session still answers (a request that does not need the remote)
func (g *stage) alive(w *wire.Client, what string) bool {
	if r := w.Do(wire.Realpath, wire.Str("/x/../y")); r.Err != nil || r.Type != wire.Name {
		g.t.Failf("%s: the session is gone: %v", what, r)
		return false
	}
	if !g.p.running() {
		g.t.Failf("%s: the proxy has ended: %s", what, g.p.text())
		return false
	}
	return true
}

// lost counts the connections that are of no use any more and may each fail a request
func (g *stage) lost() (n int) {
	for _, c := range g.s.Conns()[g.from:] {
		if !c.In() {
			continue // never got that far
		}
		select {
		case <-c.Closed:
			n++
		default:
			if c.IsDead() {
				n++
			}
		}
	}
	return
}

// idle gets the proxy to hold k connections, none of them dead: all old ones die and are used up,
// then k requests are held until they are all there.
func (g *stage) idle(k int) bool {
	g.set(nil)
	g.s.DropAll()
	g.from = len(g.s.Conns())
	n := g.fresh()
	for i := 0; ; i++ {
		if g.ask(g.w, askings[1], n, "getting ready") {
			break
		}
		if i > 40 {
			g.t.Failf("the remote is well, but a request fails 40 times")
			return false
		}
	}
	if k == 0 {
		// the one connection dies and is used up, and there is no other
		g.set(func(e *remote.Event, _ int) remote.Fault {
			if e.Kind == "accept" {
				return remote.DropBefore
			}
			return remote.None
		})
		g.s.DropAll()
		for len(g.s.Open()) > 0 || g.ask(g.w, askings[1], g.fresh(), "getting ready") {
			if g.next > outageDirs-10 {
				g.t.Failf("requests succeed without a connection")
				return false
			}
		}
		g.set(nil)
	}
	if k > 1 {
		arrived, all := 0, make(chan struct{})
		var mu sync.Mutex
		g.set(func(e *remote.Event, _ int) remote.Fault {
			if e.Kind == "packet" && (e.Type == wire.Stat || e.Type == wire.Lstat) {
				mu.Lock()
				if arrived++; arrived == k {
					close(all)
				}
				mu.Unlock()
				select {
				case <-all:
				case <-time.After(300 * time.Millisecond): // other ways of asking
				}
			}
			return remote.None
		})
		var wg sync.WaitGroup
		for i := 0; i < k; i++ {
			_, w, err := g.client()
			if err != nil {
				g.t.Failf("%v", err)
				return false
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				g.ask(w, askings[1], n, "getting ready")
				_ = w.C.Close()
			}()
		}
		wg.Wait()
		g.set(nil)
	}
	return !g.t.Failed()
}

func (g *stage) fresh() int {
	g.next++
	if g.next >= outageDirs {
		panic("out of directories")
	}
	return g.next
}

// recovered: the remote is well; every request about n succeeds, after at most as many failures in all
// as connections were lost
func (g *stage) recovered(w *wire.Client, n int, what string) {
	bad := 0
	for _, a := range askings {
		for !g.ask(w, a, n, what) {
			// a connection may be on its way down yet
			if bad++; !remote.Wait(300*time.Millisecond, func() bool { return g.lost() >= bad }) {
				g.t.Failf("%s: the remote is well again, but %s fails (%d failures, %d connections were lost)", what, a.name, bad, g.lost())
				return
			}
		}
		if g.t.Failed() {
			return
		}
	}
}

var outFaults = []remote.Fault{remote.Fail, remote.Denied, remote.Missing, remote.DropBefore, remote.DropAfter, remote.CloseBefore, remote.CloseAfter, remote.HalfBefore}

// spans: how many events in a row are struck
var spans = []int{1, 3, 1 << 30}

func outScripts() (l [][]asking) {
	for _, a := range askings {
		l = append(l, []asking{a})
	}
	rev := []asking{}
	for i := len(askings) - 1; i >= 0; i-- {
		rev = append(rev, askings[i])
	}
	return append(l, askings, rev)
}

type outage struct {
	script []asking
	fault  remote.Fault
	warm   int
}

func outCases(tier string) (l []outage) {
	for k, s := range outScripts() {
		for j, f := range outFaults {
			for _, w := range []int{1, 3} {
				if tier == "thorough" || w == 1 && (k+j)%2 == 0 || w == 3 && k >= len(askings) && f == remote.DropBefore {
					l = append(l, outage{s, f, w})
				}
			}
		}
	}
	return
}

// outages: a fault from event k on, for every k, in one script
func outages(i int, t *e2.T) {
	o := outCases(t.Tier)[i]
	script, warm, fault := o.script, o.warm, o.fault
	g := newStage(t)
	if g == nil {
		return
	}
	defer g.end()
	for _, span := range spans {
		for k := 0; ; k++ {
			if !g.idle(warm) {
				return
			}
			what := fmt.Sprintf("%s, %d events from event %d on, %d connections, starting with %s", fault, span, k, warm, script[0].name)
			n := g.fresh()
			g.set(func(e *remote.Event, j int) remote.Fault {
				if j >= k && j-k < span {
					return fault
				}
				return remote.None
			})
			for _, a := range script {
				g.ask(g.w, a, n, what)
			}
			reached := g.count() > k
			g.set(nil)
			if t.Failed() || !g.alive(g.w, what) {
				return
			}
			g.recovered(g.w, n, what)
			if t.Failed() {
				return
			}
			t.State(i, span, k, fault)
			if !reached || k > 60 {
				break
			}
		}
	}
}

// ---- ups and downs -------------------------------------------------------------------------------

var weathers = []string{"well", "not listening", "hanging up at once", "refusing the key", "refusing sessions", "failing every request", "another host key"}

// weather makes the remote so, after cutting all connections
func (g *stage) weather(k int) {
	g.set(nil)
	g.s.Down()
	g.s.HostKey = hostEd
	only := func(kind string) {
		g.set(func(e *remote.Event, _ int) remote.Fault {
			if e.Kind == kind {
				return remote.Fail
			}
			return remote.None
		})
	}
	switch k {
	case 1:
		return
	case 2:
		only("accept")
	case 3:
		only("auth")
	case 4:
		only("channel")
	case 5:
		only("packet")
	case 6:
		g.s.HostKey = hostEvil
	}
	must(g.s.Up())
}

// changes: all sequences of weathers
func changes(i int, t *e2.T) {
	depth := 3
	if t.Tier == "thorough" {
		depth = 5
	}
	g := newStage(t)
	if g == nil {
		return
	}
	defer g.end()
	// a long outage
	if !g.idle(3) {
		return
	}
	what := "remote " + weathers[i] + " for 300 requests"
	g.weather(i)
	n := g.fresh()
	for k := 0; k < 300; k++ {
		g.ask(g.w, askings[k%len(askings)], n, what)
	}
	if t.Failed() || !g.alive(g.w, what) {
		return
	}
	if i != 1 {
		g.weather(0)
	} else {
		must(g.s.Up())
	}
	if g.recovered(g.w, n, what); t.Failed() {
		return
	}
	total := 1
	for d := 1; d < depth; d++ {
		total *= len(weathers)
	}
	for seq := 0; seq < total; seq++ {
		if g.next > outageDirs-10 {
			g.end()
			if g = newStage(t); g == nil {
				return
			}
		}
		what := "remote"
		var ns []int
		if !g.idle(1 + seq%2) {
			return
		}
		for d, v := 0, seq*len(weathers)+i; d < depth; d, v = d+1, v/len(weathers) {
			k := v % len(weathers)
			what += ", " + weathers[k]
			g.weather(k)
			n := g.fresh()
			ns = append(ns, n)
			if k == 0 {
				g.recovered(g.w, n, what)
			} else {
				for _, a := range askings {
					if g.ask(g.w, a, n, what) {
						t.Failf("%s: %s in /o%d succeeds", what, a.name, n)
					}
				}
			}
			for _, m := range ns { // earlier items may be known already
				g.ask(g.w, askings[seq%len(askings)], m, what)
			}
			if t.Failed() || !g.alive(g.w, what) {
				if k == 1 {
					_ = g.s.Up()
				}
				return
			}
			if k == 1 {
				must(g.s.Up())
			}
		}
		g.weather(0)
		for _, n := range ns {
			g.recovered(g.w, n, what+", well")
		}
		if t.Failed() {
			return
		}
		t.State(what)
	}
}

// ---- stalls and crowds ---------------------------------------------------------------------------

// stalls: the remote holds back its answer to event k of a request; other clients are served
// meanwhile, and the request is answered when the remote goes on, or fails when it drops it
func stalls(i int, t *e2.T) {
	a := askings[i/4]
	end := []remote.Fault{remote.None, remote.DropBefore}[i%2]
	warm := i / 2 % 2
	g := newStage(t)
	if g == nil {
		return
	}
	defer g.end()
	for k := 0; k < 60; k++ {
		if !g.idle(warm) {
			return
		}
		what := fmt.Sprintf("%d idle connections, event %d of %s is held back, then %s", warm, k, a.name, end)
		n, held, release := g.fresh(), make(chan struct{}), make(chan struct{})
		g.set(func(e *remote.Event, j int) remote.Fault {
			if j == k {
				close(held)
				<-release
				return end
			}
			return remote.None
		})
		c2, w2, err := g.client()
		if err != nil {
			t.Failf("%v", err)
			close(release)
			return
		}
		done := make(chan bool, 1)
		go func() { done <- g.ask(w2, a, n, what) }()
		reached := false
		select {
		case <-held:
			reached = true
			g.recovered(g.w, g.fresh(), what+"; another client")
			// further requests for the same item wait, but others in the same session are answered
			if r := g.w.Do(wire.Realpath, wire.Str("/q")); r.Type != wire.Name {
				t.Failf("%s: %v", what, r)
			}
		case ok := <-done:
			done <- ok
		}
		close(release)
		select {
		case ok := <-done:
			if !ok && end == remote.None {
				t.Failf("%s: the request fails", what)
			}
		case <-time.After(patience):
			t.Failf("%s: the request is not answered", what)
		}
		if !g.alive(w2, what) {
			return
		}
		g.set(nil)
		g.recovered(w2, n, what)
		c2.Close()
		t.State(i, k)
		if t.Failed() || !reached {
			return
		}
	}
}

// crowds: several clients at once when the remote goes down at event k for good
func crowds(i int, t *e2.T) {
	clients := 2 + i%3
	same := i/3%2 == 0
	span := []int{1, 1 << 30}[i/6]
	g := newStage(t)
	if g == nil {
		return
	}
	defer g.end()
	steps := 40
	if t.Tier == "thorough" {
		steps = 150
	}
	cs := make([]*wire.Client, clients)
	for j := range cs {
		c, w, err := g.client()
		if err != nil {
			t.Failf("%v", err)
			return
		}
		defer c.Close()
		cs[j] = w
	}
	for k := 0; k < steps; k++ {
		if g.next > outageDirs-2*clients {
			break
		}
		if !g.idle(1) {
			return
		}
		what := fmt.Sprintf("%d clients, connection lost at event %d (%d)", clients, k, span)
		ns := make([]int, clients)
		for j := range ns {
			if j == 0 || !same {
				ns[j] = g.fresh()
			} else {
				ns[j] = ns[0]
			}
		}
		g.set(func(e *remote.Event, j int) remote.Fault {
			if j >= k && j-k < span {
				return remote.DropBefore
			}
			return remote.None
		})
		var wg sync.WaitGroup
		for j := range cs {
			wg.Add(1)
			go func(j int) {
				defer wg.Done()
				for q := range askings {
					g.ask(cs[j], askings[(q*3+j)%len(askings)], ns[j], what)
				}
			}(j)
		}
		wg.Wait()
		g.set(nil)
		for j, w := range cs {
			if t.Failed() || !g.alive(w, what) {
				return
			}
			g.recovered(w, ns[j], what)
		}
		t.State(i, k)
	}
}

func groups26() []e2.Group {
	return []e2.Group{
		{Name: "faults", Bounds: "10 scripts of requests x 8 faults of the remote x lasting 1, 3 or all events x from every event on x 1 or 3 idle connections", N: func(tier string) int { return num(len(outCases(tier)))(tier) }, Run: outages},
		{Name: "ups and downs", Bounds: "all sequences of 3 (thorough 5) of 7 conditions of the remote, each tried with every request; each condition for 300 requests", N: num(len(weathers)), Run: changes},
		{Name: "stalls", Bounds: "every event of 8 requests, with no or one idle connection, held back, then answered or dropped; another client meanwhile", N: num(4 * len(askings)), Run: stalls},
		{Name: "crowds", Bounds: "2-4 clients at the same or different items, connections lost at event 0..39 (149) or from it on", N: num(12), Run: crowds},
	}
}
