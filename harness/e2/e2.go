// Package e2 exhaustively enumerates bounded spaces of inputs, histories, faults and tampering on
// the real code, in parallel child processes, so that a crash or hang of the code under test is a
// verdict about the case that caused it.
package e2

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"verif/ev"
)

// T is handed to a case.
type T struct {
	Tier  string
	Case  int
	trans int64
	seen  map[uint64]struct{}
	fails []string
	notes map[string]int64
	smp   string
}

// Sample describes this case in words for the evidence file.
func (t *T) Sample(f string, a ...interface{}) {
	if t.smp == "" {
		t.smp = fmt.Sprintf(f, a...)
	}
}

// Step counts one executed operation of the code under test.
func (t *T) Step() { t.trans++ }

// Steps counts n operations.
func (t *T) Steps(n int) { t.trans += int64(n) }

// State records a (hashed) state or outcome as visited.
func (t *T) State(parts ...interface{}) bool {
	h := fnv.New64a()
	fmt.Fprint(h, parts...)
	k := h.Sum64()
	_, old := t.seen[k]
	t.seen[k] = struct{}{}
	return !old
}

// Note adds n to a named counter.
func (t *T) Note(name string, n int64) { t.notes[name] += n }

// Failf records a violation in this case.
func (t *T) Failf(f string, a ...interface{}) {
	if len(t.fails) < 5 {
		t.fails = append(t.fails, fmt.Sprintf(f, a...))
	}
}

// Failed tells whether the case has failed.
func (t *T) Failed() bool { return len(t.fails) > 0 }

// Group is a family of enumerated cases.
type Group struct {
	Name   string
	Bounds string
	N      func(tier string) int
	Setup  func(tier string)
	Run    func(i int, t *T)
	Stall  time.Duration // a single case longer than this is a hang (default 120 s)
	Serial bool          // do not run cases of this group in parallel processes
	Stop   int           // stop after so many violations (default 20)
}

// Check is a property decided by enumeration.
type Check struct {
	Prop   string
	Level  string
	Groups []Group
	Assume []string
	Known  map[string]string // violation text prefix -> known finding
}

type fail struct {
	Group string `json:"group"`
	Case  int    `json:"case"`
	Msg   string `json:"msg"`
}

type res struct {
	Trans  map[string]int64 `json:"trans"`
	States map[string]int64 `json:"states"`
	Cases  map[string]int64 `json:"cases"`
	Notes  map[string]int64 `json:"notes"`
	Fails  []fail           `json:"fails"`
	Cut    bool             `json:"cut"`
	Smp    []string         `json:"smp"`
}

func newRes() *res {
	return &res{map[string]int64{}, map[string]int64{}, map[string]int64{}, map[string]int64{}, nil, false, nil}
}

// Main is the entry point of an enumeration binary.
func Main(checks []Check) {
	prop := flag.String("prop", "", "property")
	tier := flag.String("tier", "quick", "tier")
	child := flag.String("child", "", "child: result file prefix")
	shard := flag.Int("shard", 0, "child: shard")
	nsh := flag.Int("nshards", 1, "child: shards")
	from := flag.String("from", "", "child: resume after group:case")
	dl := flag.Float64("deadline", 0, "child: seconds")
	only := flag.String("only", "", "substring of group names")
	one := flag.Int("case", -1, "run one case of -only's group in this process")
	replay := flag.String("replay", "", "replay file")
	flag.Parse()
	var ck *Check
	for i := range checks {
		if checks[i].Prop == *prop {
			ck = &checks[i]
		}
	}
	if ck == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		os.Exit(2)
	}
	if *replay != "" {
		var f fail
		b, err := os.ReadFile(*replay)
		if err == nil {
			err = json.Unmarshal(b, &f)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		*only, *one = f.Group, f.Case
	}
	var gs []Group
	for _, g := range ck.Groups {
		if strings.Contains(g.Name, *only) {
			gs = append(gs, g)
		}
	}
	if *one >= 0 {
		t := newT(*tier, *one)
		if gs[0].Setup != nil {
			gs[0].Setup(*tier)
		}
		gs[0].Run(*one, t)
		fmt.Println("steps", t.trans, "states", len(t.seen))
		for _, f := range t.fails {
			fmt.Println("FAIL", f)
		}
		if t.Failed() {
			os.Exit(1)
		}
		return
	}
	if *child != "" {
		runChild(gs, *tier, *child, *shard, *nsh, *from, *dl)
		return
	}
	parent(ck, gs, *tier, *only)
}

// NewT makes a stand-alone T.
func NewT(tier string, i int) *T { return newT(tier, i) }

func newT(tier string, i int) *T {
	return &T{Tier: tier, Case: i, seen: map[uint64]struct{}{}, notes: map[string]int64{}}
}

const recycle = 75

func runChild(gs []Group, tier, prefix string, shard, nsh int, from string, dl float64) {
	prog, err := os.Create(prefix + ".prog")
	if err != nil {
		os.Exit(3)
	}
	debug.SetGCPercent(400)
	r := newRes()
	fg, fc := "", -1
	if from != "" {
		k := strings.LastIndex(from, ":")
		fg = from[:k]
		fc, _ = strconv.Atoi(from[k+1:])
	}
	deadline := time.Now().Add(time.Duration(dl * float64(time.Second)))
	for _, g := range gs {
		if fg != "" && g.Name != fg {
			continue
		}
		start := 0
		if fg == g.Name {
			start = fc + 1
			fg = ""
		}
		if g.Serial && shard != 0 {
			continue
		}
		if g.Stop > 0 && len(r.Fails) >= g.Stop {
			r.Cut = true
			continue
		}
		n := g.N(tier)
		did := false
		gseen := map[uint64]struct{}{}
		for i := start; i < n; i++ {
			if !g.Serial && i%nsh != shard {
				continue
			}
			if time.Now().After(deadline) {
				r.Cut = true
				break
			}
			fmt.Fprintf(prog, "%s:%d\n", g.Name, i)
			if !did && g.Setup != nil {
				g.Setup(tier)
			}
			did = true
			t := newT(tier, i)
			runOne(g, i, t)
			if t.smp != "" && r.Cases[g.Name]%97 == 0 && len(r.Smp) < 40 {
				r.Smp = append(r.Smp, g.Name+": "+trim(t.smp, 300))
			}
			r.Cases[g.Name]++
			r.Trans[g.Name] += t.trans
			for k := range t.seen {
				if len(gseen) < 4000000 {
					gseen[k] = struct{}{}
				}
			}
			for k, v := range t.notes {
				r.Notes[k] += v
			}
			for _, f := range t.fails {
				if len(r.Fails) < 20 {
					r.Fails = append(r.Fails, fail{g.Name, i, f})
				}
			}
			if max := g.Stop; len(r.Fails) >= 20 || max > 0 && len(r.Fails) >= max {
				break
			}
			// the code under test never releases a session: start afresh before garbage
			// collection dominates
			var ms runtime.MemStats
			if r.Cases[g.Name]%2 == 0 {
				runtime.ReadMemStats(&ms)
			}
			if ms.HeapAlloc > 100<<20 {
				r.States[g.Name] += int64(len(gseen))
				b, _ := json.Marshal(r)
				_ = os.WriteFile(prefix+".res", b, 0644)
				os.Exit(recycle)
			}
		}
		r.States[g.Name] += int64(len(gseen))
		// leave a partial result in case a later group crashes
		b, _ := json.Marshal(r)
		_ = os.WriteFile(prefix+".res", b, 0644)
	}
	fmt.Fprintf(prog, "done\n")
	b, _ := json.Marshal(r)
	if err := os.WriteFile(prefix+".res", b, 0644); err != nil {
		os.Exit(3)
	}
}

// runOne runs a case; a panic on its own goroutine is a failure of the case, panics elsewhere end
// the process and are attributed by the parent.
func runOne(g Group, i int, t *T) {
	defer func() {
		if p := recover(); p != nil {
			t.Failf("panic: %v\n%s", p, trim(string(debug.Stack()), 1500))
		}
	}()
	g.Run(i, t)
}

func trim(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

func lastLine(p string) (string, time.Time) {
	b, err := os.ReadFile(p)
	if err != nil {
		return "", time.Time{}
	}
	st, _ := os.Stat(p)
	s := strings.TrimRight(string(b), "\n")
	return s[strings.LastIndex(s, "\n")+1:], st.ModTime()
}

func parent(ck *Check, gs []Group, tier, only string) {
	exe, _ := os.Executable()
	tmp, err := os.MkdirTemp("", "verif-e2-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	n := runtime.NumCPU()
	if v, err := strconv.Atoi(os.Getenv("VERIF_PROCS")); err == nil && v > 0 {
		n = v
	}
	stall := map[string]time.Duration{}
	for _, g := range gs {
		stall[g.Name] = g.Stall
		if g.Stall == 0 {
			stall[g.Name] = 120 * time.Second
		}
	}
	deadline := time.Now().Add(ev.Budget(tier))
	total := newRes()
	var mu sync.Mutex
	var wg sync.WaitGroup
	for k := 0; k < n; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			from := ""
			run := 0
			for try := 0; try < 8; try++ {
				run++
				prefix := filepath.Join(tmp, fmt.Sprintf("c%d-%d", k, run))
				cmd := exec.Command(exe, "-prop", ck.Prop, "-tier", tier, "-child", prefix, "-shard", fmt.Sprint(k),
					"-nshards", fmt.Sprint(n), "-from", from, "-only", only, "-deadline", fmt.Sprint(time.Until(deadline).Seconds()))
				cmd.Dir = tmp
				cmd.Env = append(os.Environ(), "GOTRACEBACK=all", "GOMAXPROCS=2", "TMPDIR="+tmp)
				var out bytes.Buffer
				cmd.Stdout, cmd.Stderr = &capped{b: &out}, &capped{b: &out}
				if err := cmd.Start(); err != nil {
					fmt.Fprintln(os.Stderr, err)
					os.Exit(2)
				}
				done := make(chan error, 1)
				go func() { done <- cmd.Wait() }()
				hung := false
				var werr error
			wait:
				for {
					select {
					case werr = <-done:
						break wait
					case <-time.After(time.Second):
						l, at := lastLine(prefix + ".prog")
						g := l
						if i := strings.LastIndex(l, ":"); i >= 0 {
							g = l[:i]
						}
						lim, ok := stall[g]
						if ok && !at.IsZero() && time.Since(at) > lim {
							hung = true
							_ = cmd.Process.Signal(os.Interrupt)
							_ = cmd.Process.Kill()
							werr = <-done
							break wait
						}
					}
				}
				r := newRes()
				if b, err := os.ReadFile(prefix + ".res"); err == nil {
					_ = json.Unmarshal(b, r)
				}
				mu.Lock()
				merge(total, r)
				mu.Unlock()
				if werr == nil && !hung {
					return
				}
				l, _ := lastLine(prefix + ".prog")
				i := strings.LastIndex(l, ":")
				if x, ok := werr.(*exec.ExitError); ok && !hung && x.ExitCode() == recycle && i >= 0 {
					from = l
					try--
					continue
				}
				if i < 0 {
					mu.Lock()
					fmt.Fprintf(os.Stderr, "child failed outside a case: %v\n%s\n", werr, trim(out.String(), 2000))
					total.Cut = true
					total.Notes["child processes that failed outside a case"]++
					mu.Unlock()
					return
				}
				c, _ := strconv.Atoi(l[i+1:])
				msg := "the process crashed: " + crashText(out.String())
				if hung {
					msg = "the case did not finish (hang)"
				}
				mu.Lock()
				total.Fails = append(total.Fails, fail{l[:i], c, msg})
				total.Cases[l[:i]]++
				mu.Unlock()
				from = l
			}
		}(k)
	}
	wg.Wait()
	_ = os.RemoveAll(tmp)
	report(ck, gs, tier, total)
}

type capped struct{ b *bytes.Buffer }

func (c *capped) Write(p []byte) (int, error) {
	if c.b.Len() < 1<<20 {
		c.b.Write(p)
	}
	return len(p), nil
}

func crashText(s string) string {
	for _, k := range []string{"panic:", "fatal error:"} {
		if i := strings.Index(s, k); i >= 0 {
			return trim(s[i:], 1500)
		}
	}
	return trim(s, 800)
}

func merge(a, b *res) {
	for k, v := range b.Trans {
		a.Trans[k] += v
	}
	for k, v := range b.States {
		a.States[k] += v
	}
	for k, v := range b.Cases {
		a.Cases[k] += v
	}
	for k, v := range b.Notes {
		a.Notes[k] += v
	}
	a.Fails = append(a.Fails, b.Fails...)
	a.Cut = a.Cut || b.Cut
	for _, s := range b.Smp {
		if len(a.Smp) < 60 {
			a.Smp = append(a.Smp, s)
		}
	}
}

func report(ck *Check, gs []Group, tier string, r *res) {
	var tot, st, cs int64
	var groups []map[string]interface{}
	for _, g := range gs {
		tot += r.Trans[g.Name]
		st += r.States[g.Name]
		cs += r.Cases[g.Name]
		groups = append(groups, map[string]interface{}{"group": g.Name, "bounds": g.Bounds, "cases": r.Cases[g.Name],
			"cases_in_space": g.N(tier), "operations": r.Trans[g.Name], "distinct_states": r.States[g.Name]})
	}
	sort.Slice(r.Fails, func(i, j int) bool {
		a, b := r.Fails[i], r.Fails[j]
		return a.Group < b.Group || a.Group == b.Group && a.Case < b.Case
	})
	var fails []fail
	for _, f := range r.Fails {
		known := false
		for k, v := range ck.Known {
			if strings.HasPrefix(f.Msg, k) {
				known = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", ck.Prop, v)
			}
		}
		if !known {
			fails = append(fails, f)
		}
	}
	cov := map[string]interface{}{
		"states": st, "transitions": tot, "traces_validated_against_impl": cs, "exhaustive": !r.Cut,
		"explanation": "every case of the listed bounded spaces executed on the real code; transitions are operations of the code under test, states are distinct observed states or outcomes (per process shard)",
		"groups":      groups,
		"samples":     append([]string{}, r.Smp...),
	}
	for k, v := range r.Notes {
		cov[k] = v
	}
	lvl := ck.Level
	if lvl == "" {
		lvl = "model_checking"
	}
	ev.Write(ck.Prop, tier, lvl, cov, ck.Assume, len(fails))
	fmt.Printf("%s %s: cases=%d operations=%d states=%d complete=%v violations=%d wall=%.1fs\n", ck.Prop, tier, cs, tot, st, !r.Cut, len(fails), time.Since(ev.Start).Seconds())
	if len(fails) > 0 {
		for i, f := range fails {
			if i < 3 {
				fmt.Printf("-- %s case %d: %s\n", f.Group, f.Case, f.Msg)
			}
		}
		ev.Violation(ck.Prop, ev.Replay(ck.Prop, fails[0]), fmt.Sprintf("%s: %s (case %d)", ck.Prop, fails[0].Group, fails[0].Case))
		os.Exit(1)
	}
}
