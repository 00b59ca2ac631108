// Package ev writes evidence files and violation lines.
package ev

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"time"
)

// Start is when the process began.
var Start = time.Now()

// Root is the verification directory.
func Root() string {
	if r := os.Getenv("VERIF_ROOT"); r != "" {
		return r
	}
	return "/verif"
}

// Seed is VERIF_SEED (nothing here is random; it is only recorded).
func Seed() int {
	n, err := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if err != nil {
		return 1
	}
	return n
}

// Budget is the wall-clock budget of this check in seconds for the given tier.
func Budget(tier string) time.Duration {
	if s, err := strconv.Atoi(os.Getenv("VERIF_BUDGET")); err == nil && s > 0 {
		return time.Duration(s) * time.Second
	}
	if tier == "thorough" {
		return 3 * time.Hour
	}
	return 300 * time.Second
}

// Write writes the evidence file of a property.
func Write(prop, tier, level string, coverage map[string]interface{}, assumptions []string, violations int) {
	d := filepath.Join(Root(), "evidence")
	_ = os.MkdirAll(d, 0755)
	wall := time.Since(Start).Seconds()
	if os.Getenv("VERIF_MERGE") != "" { // a second engine of the same check adds its coverage
		var old struct {
			Coverage    map[string]interface{} `json:"coverage"`
			Assumptions []string               `json:"assumptions"`
			Wall        float64                `json:"wall_s"`
			Violations  int                    `json:"violations"`
		}
		if b, err := os.ReadFile(filepath.Join(d, prop+".json")); err == nil && json.Unmarshal(b, &old) == nil {
			wall += old.Wall
			violations += old.Violations
			assumptions = append(old.Assumptions, assumptions...)
			num := func(v interface{}) int64 {
				switch x := v.(type) {
				case float64:
					return int64(x)
				case int64:
					return x
				case int:
					return int64(x)
				}
				return 0
			}
			ex1, _ := old.Coverage["exhaustive"].(bool)
			ex2, _ := coverage["exhaustive"].(bool)
			m := map[string]interface{}{"exhaustive": ex1 && ex2}
			for _, k := range []string{"states", "transitions", "traces_validated_against_impl"} {
				m[k] = num(old.Coverage[k]) + num(coverage[k])
			}
			m["samples"] = []interface{}{old.Coverage["samples"], coverage["samples"]}
			for _, k := range []string{"samples", "exhaustive"} {
				delete(old.Coverage, k)
				delete(coverage, k)
			}
			m["engines"] = []interface{}{old.Coverage, coverage}
			coverage = m
		}
	}
	b, err := json.MarshalIndent(map[string]interface{}{
		"property": prop, "tier": tier, "seed": Seed(), "level": level, "coverage": coverage,
		"assumptions": assumptions, "wall_s": wall, "violations": violations,
	}, "", " ")
	if err != nil {
		panic(err)
	}
	if err := os.WriteFile(filepath.Join(d, prop+".json"), append(b, '\n'), 0644); err != nil {
		fmt.Fprintln(os.Stderr, "evidence:", err)
	}
}

// Replay stores a counterexample and returns its path.
func Replay(prop string, v interface{}) string {
	d := filepath.Join(Root(), "evidence", "replay")
	_ = os.MkdirAll(d, 0755)
	p := filepath.Join(d, prop+".json")
	b, _ := json.MarshalIndent(v, "", " ")
	_ = os.WriteFile(p, append(b, '\n'), 0644)
	return p
}

// Violation prints the violation line.
func Violation(prop, path, msg string) {
	fmt.Printf("%s\nVIOLATION property=%s replay=%s\n", msg, prop, path)
}
