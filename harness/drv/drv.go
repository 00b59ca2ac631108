// Package drv runs the scenarios of a property under the controlled scheduler, in parallel
// processes, and reports.
package drv

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"verif/ev"
	"verif/reinit"
	"verif/vsched"
)

// Scn is one scenario with its bounds.
type Scn struct {
	Name     string
	Body     func()
	Timers   bool
	F        int // fault bound
	PQ, PT   int // preemption bound quick / thorough
	FT       int // fault bound thorough (0: same)
	RQ, RT   int // preemption bounds for the race-detector pass, -1: none
	Shards   int
	Horizon  int
	Ignore   map[string]bool // kinds of abnormal endings that are not this property's business
	Delay    bool            // bounds count every deviation from round robin, not only preemptions
	Thorough bool            // only in the thorough tier
}

// Check is a property decided by exploration of scenarios.
type Check struct {
	Prop   string
	Scns   func() []Scn
	Assume []string
}

type jobRes struct {
	vsched.Result
	Race bool `json:"race"`
}

// Main is the entry point of an exploration binary.
func Main(checks []Check) {
	prop := flag.String("prop", "", "property")
	tier := flag.String("tier", "quick", "tier")
	job := flag.String("job", "", "child: scenario")
	shard := flag.Int("shard", 0, "child: shard")
	nsh := flag.Int("nshards", 1, "child: shards")
	dl := flag.Float64("deadline", 0, "child: seconds")
	p := flag.Int("p", 0, "child: preemption bound")
	f := flag.Int("f", 0, "child: fault bound")
	rep := flag.String("replay", "", "replay a counterexample file")
	racebin := flag.String("racebin", "", "binary built with the race detector")
	only := flag.String("only", "", "substring of scenario names")
	list := flag.Bool("list", false, "list")
	flag.Parse()
	var ck *Check
	for i := range checks {
		if checks[i].Prop == *prop {
			ck = &checks[i]
		}
	}
	if ck == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		os.Exit(2)
	}
	scns := ck.Scns()
	if *list {
		for _, s := range scns {
			fmt.Println(s.Name, s.PQ, s.PT, s.F)
		}
		return
	}
	if *rep != "" {
		os.Exit(replay(ck, scns, *rep))
	}
	if *job != "" {
		child(scns, *job, *p, *f, *shard, *nsh, *dl)
		return
	}
	os.Exit(parent(ck, scns, *tier, *racebin, *only))
}

func cfgOf(s *Scn) vsched.Config {
	body := s.Body
	return vsched.Config{Name: s.Name, Timers: s.Timers, Delay: s.Delay, MaxFault: s.F, Horizon: s.Horizon, Ignore: s.Ignore, Body: func() {
		vsched.Reinit(reinit.All)
		vsched.Quiesce()
		body()
	}}
}

func child(scns []Scn, job string, p, f, shard, nsh int, dl float64) {
	runtime.GOMAXPROCS(2)
	for i := range scns {
		s := &scns[i]
		if s.Name != job {
			continue
		}
		c := cfgOf(s)
		c.MaxPreempt, c.MaxFault, c.Shard, c.NShards = p, f, shard, nsh
		c.Deadline = time.Now().Add(time.Duration(dl * float64(time.Second)))
		vsched.Watchdog(90*time.Second, func(n string) {
			buf := make([]byte, 1<<16)
			buf = buf[:runtime.Stack(buf, true)]
			fmt.Fprintf(os.Stderr, "watchdog: scenario %s makes no progress outside the scheduler\n%s\n", n, buf)
			os.Exit(3)
		})
		r := vsched.Explore(c)
		b, _ := json.Marshal(jobRes{r, vsched.RaceEnabled})
		os.Stdout.Write(append(b, '\n'))
		return
	}
	os.Exit(2)
}

type job struct {
	s     *Scn
	p, f  int
	shard int
	nsh   int
	race  bool
	bin   string
}

func parent(ck *Check, scns []Scn, tier, racebin, only string) int {
	self, _ := os.Executable()
	var jobs []job
	for i := range scns {
		s := &scns[i]
		if s.Thorough && tier != "thorough" {
			continue
		}
		if only != "" && !strings.Contains(s.Name, only) {
			continue
		}
		p, f, rp := s.PQ, s.F, s.RQ
		if tier == "thorough" {
			p, rp = s.PT, s.RT
			if s.FT > 0 {
				f = s.FT
			}
		}
		n := s.Shards
		if n == 0 {
			n = 1
		}
		for k := 0; k < n; k++ {
			jobs = append(jobs, job{s, p, f, k, n, false, self})
		}
		if racebin != "" && rp >= 0 {
			jobs = append(jobs, job{s, rp, f, 0, 1, true, racebin})
		}
	}
	sort.SliceStable(jobs, func(a, b int) bool { return jobs[a].nsh > jobs[b].nsh })
	budget := ev.Budget(tier)
	end := ev.Start.Add(budget)
	var mu sync.Mutex
	var all []jobRes
	var viol *vsched.Violation
	var violRace bool
	var notes []string
	exhaustive := true
	ch := make(chan job)
	var wg sync.WaitGroup
	nw := 8
	if n := runtime.NumCPU(); n < nw {
		nw = n
	}
	for w := 0; w < nw; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range ch {
				mu.Lock()
				stop := viol != nil
				mu.Unlock()
				left := time.Until(end).Seconds()
				if stop {
					continue
				}
				if left < 1 {
					mu.Lock()
					exhaustive = false
					notes = append(notes, "not started: "+j.s.Name)
					mu.Unlock()
					continue
				}
				tmp, _ := os.MkdirTemp("", "race")
				cmd := exec.Command(j.bin, "-prop", ck.Prop, "-job", j.s.Name, "-p", fmt.Sprint(j.p), "-f", fmt.Sprint(j.f), "-shard", fmt.Sprint(j.shard), "-nshards", fmt.Sprint(j.nsh), "-deadline", fmt.Sprint(left))
				cmd.Env = append(os.Environ(), "GORACE=log_path="+filepath.Join(tmp, "r")+" halt_on_error=0 exitcode=0 atexit_sleep_ms=0", "GOGC=400")
				var ob, eb bytes.Buffer
				cmd.Stdout, cmd.Stderr = &ob, &eb
				err := cmd.Run()
				raceLog := ""
				if fs, _ := filepath.Glob(filepath.Join(tmp, "r.*")); len(fs) > 0 {
					b, _ := os.ReadFile(fs[0])
					raceLog = string(b)
				}
				os.RemoveAll(tmp)
				var r jobRes
				mu.Lock()
				if err != nil || json.Unmarshal(ob.Bytes(), &r) != nil {
					if strings.Contains(eb.String(), "fatal error:") && !strings.Contains(eb.String(), "out of memory") {
						// the runtime itself stopped the code under test (e.g. concurrent map access)
						if viol == nil {
							viol = &vsched.Violation{Scenario: j.s.Name, Kind: "fatal", Msg: head(eb.String(), 4000)}
						}
					} else {
						exhaustive = false
						notes = append(notes, fmt.Sprintf("job %s failed: %v %s", j.s.Name, err, head(eb.String(), 3000)))
					}
					mu.Unlock()
					continue
				}
				r.Race = j.race
				all = append(all, r)
				if !r.Done {
					exhaustive = false
				}
				if r.Unstable != "" || r.Diverged != "" {
					notes = append(notes, j.s.Name+": "+r.Unstable+" "+r.Diverged)
				}
				if r.Viol != nil && viol == nil {
					if raceLog != "" {
						r.Viol.Msg += "\n" + head(raceLog, 6000)
					}
					viol, violRace = r.Viol, j.race
				}
				mu.Unlock()
			}
		}()
	}
	for _, j := range jobs {
		ch <- j
	}
	close(ch)
	wg.Wait()

	// summary
	type row struct {
		Scenario string         `json:"scenario"`
		Delay    bool           `json:"bound_counts_every_deviation,omitempty"`
		Race     bool           `json:"race_detector"`
		Execs    int64          `json:"schedules"`
		Complete int64          `json:"complete_schedules"`
		States   int64          `json:"states"`
		Trans    int64          `json:"transitions"`
		P        int            `json:"preemption_bound_completed"`
		F        int            `json:"fault_bound"`
		Full     bool           `json:"all_interleavings"`
		Done     bool           `json:"exhausted"`
		Wall     float64        `json:"cpu_s"`
		Aborted  int64          `json:"ended_abnormally_outside_this_property,omitempty"`
		Outcomes map[string]int `json:"outcomes"`
	}
	rows := map[string]*row{}
	var keys []string
	var execs, complete, states, trans, raceExecs, distinct int64
	for _, r := range all {
		k := fmt.Sprint(r.Scenario, r.Race)
		w := rows[k]
		if w == nil {
			w = &row{Scenario: r.Scenario, Race: r.Race, P: r.MaxP, F: r.MaxF, Full: true, Done: true, Outcomes: map[string]int{}}
			for i := range scns {
				if scns[i].Name == r.Scenario {
					w.Delay = scns[i].Delay
				}
			}
			rows[k] = w
			keys = append(keys, k)
		}
		w.Execs += r.Execs
		w.Complete += r.Complete
		w.States += r.States
		w.Trans += r.Steps
		w.Aborted += r.Aborted
		w.Wall += r.WallS
		w.Full = w.Full && r.Full
		w.Done = w.Done && r.Done
		if r.MaxP < w.P {
			w.P = r.MaxP
		}
		for o, n := range r.Outcomes {
			w.Outcomes[o] += n
		}
		execs += r.Execs
		complete += r.Complete
		states += r.States
		trans += r.Steps
		if r.Race {
			raceExecs += r.Execs
		}
	}
	sort.Strings(keys)
	var rl []*row
	for _, k := range keys {
		distinct += int64(len(rows[k].Outcomes))
		if len(rows[k].Outcomes) > 12 {
			n := 0
			for o := range rows[k].Outcomes {
				n++
				if n > 12 {
					delete(rows[k].Outcomes, o)
				}
			}
		}
		rl = append(rl, rows[k])
	}
	nv := 0
	if viol != nil {
		nv = 1
		exhaustive = false
	}
	cov := map[string]interface{}{
		"states": states, "transitions": trans, "schedules": execs, "complete_schedules": complete,
		"traces_validated_against_impl": complete,
		"schedules_under_race_detector": raceExecs, "distinct_outcomes": distinct,
		"exhaustive": exhaustive,
		"samples":    rl,
		"rule":       "every schedule of the instrumented real code within the stated preemption and fault bounds, pruned only by equality of happens-before signatures; every explored trace is an execution of the implementation itself",
	}
	if len(notes) > 0 {
		cov["notes"] = notes
	}
	ev.Write(ck.Prop, tier, "model_checking", cov, ck.Assume, nv)
	fmt.Printf("%s: %d scenarios, %d schedules (%d complete, %d under race detector), %d states, %d transitions, exhaustive=%v, %.1fs\n", ck.Prop, len(rl), execs, complete, raceExecs, states, trans, exhaustive, time.Since(ev.Start).Seconds())
	for _, r := range rl {
		fmt.Printf("  %-44s race=%-5v schedules=%-8d states=%-8d P<=%d F<=%d all=%v done=%v aborted=%d outcomes=%d %.1fs\n", r.Scenario, r.Race, r.Execs, r.States, r.P, r.F, r.Full, r.Done, r.Aborted, len(r.Outcomes), r.Wall)
	}
	for _, n := range notes {
		fmt.Println("note:", n)
	}
	if viol != nil {
		path := ev.Replay(ck.Prop, map[string]interface{}{"property": ck.Prop, "race": violRace, "violation": viol, "how": "run.sh replay " + ck.Prop})
		ev.Violation(ck.Prop, path, fmt.Sprintf("%s in scenario %s (%d preemptions, %d faults):\n%s", viol.Kind, viol.Scenario, viol.Preempt, viol.Faults, viol.Msg))
		return 1
	}
	return 0
}

func head(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

func replay(ck *Check, scns []Scn, file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var f struct{ Violation vsched.Violation }
	if err := json.Unmarshal(b, &f); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	for i := range scns {
		if scns[i].Name == f.Violation.Scenario {
			v := vsched.Replay(cfgOf(&scns[i]), f.Violation.Choices)
			if v == nil {
				fmt.Println("no violation on replay")
				return 0
			}
			for _, l := range v.Trace {
				fmt.Println(l)
			}
			fmt.Println(v.Kind, v.Msg, v.Stack)
			return 1
		}
	}
	return 2
}
