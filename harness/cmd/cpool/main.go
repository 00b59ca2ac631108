// Command cpool decides C17 at the level of goroutines: the connection pool over models of the SSH
// and SFTP libraries, under every schedule and fault position within the bounds.
package main

import (
	"fmt"
	"log"
	"os"
	"reflect"
	"strings"

	"github.com/flawedmatrix/gocryptsftp/backend"

	"verif/drv"
	"verif/mnet"
	"verif/vsched"
)

type scn struct {
	name   string
	warm   int      // idle connections at the start
	calls  []string // per task: kinds of calls (f file, b two-packet file, e empty, d directory, s stat, m n o missing)
	faults int      // kinds of faults
	kill   bool     // the remote may drop a connection at any moment
	hold   int      // calls held at the remote in addition, released together with the tasks
	P, PT  int
	F, FT  int
	R      int
	delay  bool
	shards int
	thor   bool
}

// provider makes a provider; its configuration is of the model's type only in the rewritten package.
func provider() *backend.Provider {
	f := reflect.ValueOf(backend.NewProvider)
	conf := reflect.New(f.Type().In(1).Elem())
	r := f.Call([]reflect.Value{reflect.ValueOf("remote:22"), conf, reflect.ValueOf(log.New(os.Stderr, "", 0))})
	return r[0].Interface().(*backend.Provider)
}

func do(w *mnet.World, p *backend.Provider, kind byte, k int) {
	w.Enter(k)
	path := fmt.Sprintf("/%c%d", kind, k)
	var err error
	switch kind {
	case 'f', 'b', 'e', 'm':
		if kind == 'm' {
			w.Excuse(k)
		}
		var b []byte
		if b, err = p.ReadFile(path); err == nil && string(b) != strings.Join(mnet.File(path), "") {
			vsched.Fail("ReadFile of %s succeeds with %q", path, b)
		}
	case 'd', 'n':
		if kind == 'n' {
			w.Excuse(k)
		}
		var l []os.FileInfo
		if l, err = p.ReadDir(path); err == nil {
			a, b := "", ""
			for _, i := range l {
				a += fmt.Sprint(i.Name(), i.Size(), i.Mode(), " ")
			}
			for _, x := range mnet.Dir(path) {
				for _, i := range x {
					b += fmt.Sprint(i.Name(), i.Size(), i.Mode(), " ")
				}
			}
			if a != b || kind == 'n' {
				vsched.Fail("ReadDir of %s succeeds with %q", path, a)
			}
		}
	default:
		if kind == 'o' {
			w.Excuse(k)
		} else {
			path = fmt.Sprintf("/f%d", k)
		}
		var i os.FileInfo
		if i, err = p.Stat(path); err == nil && (kind == 'o' || i == nil || i.Size() != mnet.Stat(path).Size() || i.Name() != mnet.Stat(path).Name()) {
			vsched.Fail("Stat of %s succeeds with %v", path, i)
		}
	}
	w.Leave(k, err)
}

// audit finds out which connections are idle, by as many simultaneous calls as connections are open.
func audit(w *mnet.World, p *backend.Provider, next int) {
	var live []*mnet.Conn
	open := 0
	for _, c := range w.Conns {
		if !c.Closed {
			open++
			if !c.Dead && !c.Ended {
				live = append(live, c)
			}
		}
		c.Held = false
	}
	if open == 0 {
		open = 1
	}
	w.Audit = true
	w.Expect(open)
	vsched.Quiet(func() {
		for i := 0; i < open; i++ {
			k := next + i
			vsched.GoNamed("audit", func() {
				do(w, p, 's', k)
				w.Arrive()
			})
		}
		vsched.Join()
	})
	vsched.Quiesce()
	for _, c := range live {
		if !c.Held {
			vsched.Fail("connection %d is open but never used again: it leaks", c.N)
		}
	}
	for _, c := range w.Conns {
		if c.Held && (c.Dead || c.Ended) && !c.Closed {
			vsched.Fail("connection %d is dead, was found to be so, and is not closed", c.N)
		}
	}
	w.Audit = false
	// a later call over a healthy remote succeeds
	w.Healthy = true
	vsched.Quiet(func() { do(w, p, 'f', next+open) })
	if v := w.Verdict(); v != "" {
		vsched.Fail("%s", v)
	}
}

func (s scn) body() {
	w := mnet.New()
	var p *backend.Provider
	k := 1
	held := []int{}
	vsched.Quiet(func() {
		p = provider()
		w.Healthy = true
		if n := s.warm + s.hold; n > 0 {
			w.Hold = true
			for i := 0; i < n; i++ {
				c := k
				k++
				vsched.GoNamed("warm", func() { do(w, p, 's', c) })
				held = append(held, c)
			}
		}
	})
	vsched.Quiesce()
	for _, c := range held[:s.warm] {
		w.Release(c)
	}
	vsched.Quiesce()
	w.Healthy = false
	w.Faults = s.faults
	if s.hold > 0 {
		for _, c := range held[s.warm:] {
			w.Release(c)
		}
	}
	w.Hold = false
	for _, cs := range s.calls {
		cs, first := cs, k
		k += len(cs)
		vsched.GoNamed("caller "+cs, func() {
			for i := range cs {
				do(w, p, cs[i], first+i)
			}
		})
	}
	if s.kill {
		vsched.GoNamed("remote", func() {
			if c := vsched.Choose(3, "drop"); c > 0 {
				w.Kill(vsched.ChooseFree(2, "which"), c == 2)
			}
		})
	}
	vsched.Join()
	vsched.Quiesce()
	out := ""
	for _, c := range w.Conns {
		out += fmt.Sprint(c.Closed, c.Dead, c.Ended, " ")
	}
	vsched.SetOutcome(out)
	if v := w.Verdict(); v != "" {
		vsched.Fail("%s", v)
	}
	audit(w, p, k)
}

func scns() []drv.Scn {
	ss := []scn{
		{name: "two calls, no connection", calls: []string{"f", "s"}, P: 3, PT: 6, R: 1},
		{name: "two calls, one idle connection", warm: 1, calls: []string{"f", "d"}, P: 3, PT: 6, R: 2},
		{name: "three calls, one idle connection", warm: 1, calls: []string{"s", "s", "f"}, P: 2, PT: 4, R: 1, shards: 2},
		{name: "three calls, two idle connections", warm: 2, calls: []string{"s", "m", "f"}, P: 2, PT: 4, R: 1, shards: 2},
		{name: "two callers with two calls each", warm: 1, calls: []string{"sf", "fs"}, P: 2, PT: 4, R: 1, shards: 2},
		{name: "one call with faults", warm: 1, calls: []string{"b"}, faults: 3, P: 1, PT: 2, F: 2, FT: 4},
		{name: "one listing with faults", warm: 1, calls: []string{"d"}, faults: 3, P: 1, PT: 2, F: 2, FT: 4},
		{name: "calls in sequence with faults", calls: []string{"fsdm"}, faults: 3, P: 1, PT: 2, F: 2, FT: 3},
		{name: "read and stat with faults", warm: 1, calls: []string{"f", "s"}, faults: 3, P: 2, PT: 3, F: 1, FT: 2, R: 1, shards: 2},
		{name: "two reads with faults", warm: 1, calls: []string{"b", "f"}, faults: 3, P: 1, PT: 3, F: 1, FT: 2, shards: 2},
		{name: "listing and missing file with faults", warm: 2, calls: []string{"d", "m"}, faults: 3, P: 1, PT: 3, F: 1, FT: 2, shards: 2},
		{name: "two callers with two calls each and faults", warm: 1, calls: []string{"sf", "os"}, faults: 3, P: 1, PT: 2, F: 1, FT: 2, shards: 2},
		{name: "two listings with faults", warm: 1, calls: []string{"d", "d"}, faults: 2, P: 1, PT: 3, F: 1, FT: 2, shards: 2},
		{name: "the remote drops connections", warm: 2, calls: []string{"f", "s"}, kill: true, P: 2, PT: 3, F: 1, FT: 2, R: 1, shards: 2},
		{name: "the remote drops an idle connection", warm: 1, calls: []string{"ff"}, kill: true, P: 3, PT: 5, F: 1, FT: 1},
		{name: "three connections for one place", warm: 31, hold: 3, delay: true, P: 3, PT: 4, R: 1, shards: 2},
		{name: "a call while the pool fills up", warm: 31, hold: 2, calls: []string{"s"}, delay: true, P: 3, PT: 4, R: 1, shards: 2},
		{name: "three calls with faults", warm: 1, calls: []string{"s", "f", "d"}, faults: 2, PT: 2, FT: 1, R: -1, shards: 4, thor: true},
	}
	var r []drv.Scn
	for _, s := range ss {
		s := s
		r = append(r, drv.Scn{Name: s.name, Body: s.body, Delay: s.delay, F: s.F, FT: s.FT, PQ: s.P + 2, PT: s.PT + 2, RQ: s.R, RT: s.R, Shards: s.shards, Thorough: s.thor})
	}
	return r
}

func main() {
	drv.Main([]drv.Check{{Prop: "C17", Scns: scns, Assume: []string{
		"source rewriter and scheduler models of sync, channels and pools are faithful",
		"the SSH and SFTP libraries behave as modelled (compared with the real ones in the library model group)"}}})
}
