// ecache decides the sequential half of C06: the path cache is checked for bisimilarity with an
// ideal bounded LRU map by breadth-first exploration of its whole reachable state space.
package main

import (
	"fmt"
	"reflect"
	"sort"
	"strings"

	"github.com/flawedmatrix/gocryptsftp/filetree"

	"verif/e2"
)

// dump canonically prints an object graph (pointer identities become numbers).
func dump(v interface{}) string {
	var sb strings.Builder
	ids := map[uintptr]int{}
	var rec func(v reflect.Value)
	rec = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Ptr:
			if v.IsNil() {
				sb.WriteString("nil")
				return
			}
			if id, ok := ids[v.Pointer()]; ok {
				fmt.Fprintf(&sb, "#%d", id)
				return
			}
			ids[v.Pointer()] = len(ids)
			fmt.Fprintf(&sb, "&%d", len(ids)-1)
			rec(v.Elem())
		case reflect.Interface:
			if v.IsNil() {
				sb.WriteString("nil")
				return
			}
			rec(v.Elem())
		case reflect.Struct:
			if strings.HasPrefix(v.Type().PkgPath(), "sync") {
				return
			}
			sb.WriteByte('{')
			for i := 0; i < v.NumField(); i++ {
				rec(v.Field(i))
				sb.WriteByte(';')
			}
			sb.WriteByte('}')
		case reflect.Map:
			ks := v.MapKeys()
			sort.Slice(ks, func(i, j int) bool { return fmt.Sprint(ks[i]) < fmt.Sprint(ks[j]) })
			sb.WriteByte('[')
			for _, k := range ks {
				rec(k)
				sb.WriteByte(':')
				rec(v.MapIndex(k))
				sb.WriteByte(',')
			}
			sb.WriteByte(']')
		case reflect.Slice, reflect.Array:
			if v.Kind() == reflect.Slice {
				fmt.Fprintf(&sb, "%v", v.IsNil())
			}
			sb.WriteByte('(')
			for i := 0; i < v.Len(); i++ {
				rec(v.Index(i))
				sb.WriteByte(',')
			}
			sb.WriteByte(')')
		case reflect.String:
			fmt.Fprintf(&sb, "%q", v.String())
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			fmt.Fprint(&sb, v.Int())
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
			fmt.Fprint(&sb, v.Uint())
		case reflect.Bool:
			fmt.Fprint(&sb, v.Bool())
		case reflect.Func, reflect.Chan, reflect.UnsafePointer:
			fmt.Fprint(&sb, v.IsNil())
		default:
			fmt.Fprint(&sb, v.Kind())
		}
	}
	rec(reflect.ValueOf(v))
	return sb.String()
}

type ent struct{ k, v string }

// lru is the ideal map: least recently used first.
type lru struct {
	cap int
	e   []ent
}

func (l *lru) touch(k string) (ent, bool) {
	for i, e := range l.e {
		if e.k == k {
			l.e = append(append(append([]ent(nil), l.e[:i]...), l.e[i+1:]...), e)
			return e, true
		}
	}
	return ent{}, false
}

func (l *lru) store(k, v string) {
	if _, ok := l.touch(k); ok {
		l.e[len(l.e)-1].v = v
		return
	}
	if len(l.e) == l.cap {
		l.e = append([]ent(nil), l.e[1:]...)
	}
	l.e = append(l.e, ent{k, v})
}

// op: kind, path index, value index
type op struct{ kind, p, v int }

type sys struct {
	c     *filetree.FastCache
	m     lru
	paths []string
	vals  []string
}

func (s *sys) name(o op) string {
	switch o.kind {
	case 0:
		return fmt.Sprintf("Find(%q)", s.paths[o.p])
	case 1:
		return fmt.Sprintf("Store(%q,%q)", s.paths[o.p], s.vals[o.v])
	}
	return "Clear()"
}

// do performs one operation on both and returns a disagreement.
func (s *sys) do(o op) string {
	switch o.kind {
	case 0:
		e, ok := s.m.touch(s.paths[o.p])
		d, found := s.c.Find(s.paths[o.p])
		if ok != found {
			return fmt.Sprintf("found=%v, expected %v (cache should hold, oldest first, %v)", found, ok, s.m.e)
		}
		if ok && (d.PlaintextPath != e.k || d.CiphertextPath != e.v) {
			return fmt.Sprintf("found %q->%q, expected %q->%q", d.PlaintextPath, d.CiphertextPath, e.k, e.v)
		}
	case 1:
		s.m.store(s.paths[o.p], s.vals[o.v])
		s.c.Store(s.paths[o.p], s.vals[o.v])
	case 2:
		s.m.e = nil
		s.c.Clear()
	}
	return ""
}

type conf struct {
	cap    int
	paths  []string
	vals   []string
	maxDep int
}

func names(n int) (r []string) {
	for i := 0; i < n; i++ {
		r = append(r, "/"+string(rune('a'+i)))
	}
	return
}

func confs(tier string) []conf {
	c := []conf{
		{1, names(3), []string{"x", "y"}, 30},
		{2, names(4), []string{"x", "y"}, 30},
		{3, names(5), []string{"x", "y"}, 30},
		{2, []string{"/a", "/a/", "/A", "/a/b", "", "/", "a"}, []string{"x"}, 30},
		{4, names(6), []string{"x"}, 30},
	}
	c = append(c, conf{4, names(6), []string{"x", "y"}, 40}, conf{5, names(7), []string{"x"}, 40}, conf{3, names(6), []string{"x", "y", ""}, 40})
	if tier == "thorough" {
		c = append(c, conf{5, names(7), []string{"x", "y"}, 40}, conf{4, names(7), []string{"x", "y", ""}, 40})
	}
	return c
}

func bfs(c conf, t *e2.T) {
	var ops []op
	for p := range c.paths {
		ops = append(ops, op{0, p, 0})
		for v := range c.vals {
			ops = append(ops, op{1, p, v})
		}
	}
	ops = append(ops, op{2, 0, 0})
	build := func(h []op) *sys {
		s := &sys{c: filetree.NewFastCache(c.cap), m: lru{cap: c.cap}, paths: c.paths, vals: c.vals}
		for i, o := range h {
			if d := s.do(o); d != "" {
				s.report(t, h[:i+1], d)
				return nil
			}
			t.Step()
		}
		return s
	}
	type node struct{ h []op }
	s0 := build(nil)
	seen := map[string]bool{dump(s0.c) + fmt.Sprint(s0.m.e): true}
	front := []node{{nil}}
	depth := 0
	for len(front) > 0 && depth < c.maxDep && len(seen) < 200000 {
		var next []node
		for _, n := range front {
			for _, o := range ops {
				h := append(append([]op(nil), n.h...), o)
				s := build(h)
				if s == nil {
					return
				}
				k := dump(s.c) + fmt.Sprint(s.m.e)
				if !seen[k] {
					seen[k] = true
					t.State(c.cap, len(c.paths), k)
					next = append(next, node{h})
				}
			}
		}
		front = next
		depth++
	}
	if len(front) == 0 {
		t.Note("state spaces explored to fixpoint", 1)
	}
	t.Sample("capacity %d, %d paths, %d values: %d states, depth %d, fixpoint=%v", c.cap, len(c.paths), len(c.vals), len(seen), depth, len(front) == 0)
}

func (s *sys) report(t *e2.T, h []op, d string) {
	var l []string
	for _, o := range h {
		l = append(l, s.name(o))
	}
	t.Failf("capacity %d: %s: %s", s.m.cap, strings.Join(l, " "), d)
}

// big explores every sequence of three operations after filling a cache of capacity 16 (and 15,
// 17) with n entries, then observes the whole content by looking everything up in a fixed order.
func big(cap, fill int, t *e2.T) {
	if fill > cap+3 {
		fill = cap + 3
	}
	paths := names(cap + 3)
	depth := 2
	if t.Tier == "thorough" {
		depth = 3
	}
	var ops []op
	for _, p := range []int{0, 1, 2, fill / 2, fill - 2, fill - 1, fill, cap - 1, cap, cap + 1, cap + 2} {
		if p >= 0 && p < len(paths) {
			ops = append(ops, op{0, p, 0}, op{1, p, 1})
		}
	}
	var rec func(h []op)
	rec = func(h []op) {
		if t.Failed() {
			return
		}
		if len(h) == depth {
			for obs := 0; obs < 3; obs++ {
				s := &sys{c: filetree.NewFastCache(cap), m: lru{cap: cap}, paths: paths, vals: []string{"x", "y"}}
				full := []op{}
				for i := 0; i < fill; i++ {
					full = append(full, op{1, i, 0})
				}
				full = append(full, h...)
				switch obs {
				case 0: // forward
					for p := range paths {
						full = append(full, op{0, p, 0})
					}
				case 1: // backward
					for p := len(paths) - 1; p >= 0; p-- {
						full = append(full, op{0, p, 0})
					}
				case 2: // evict one at a time, looking at everything left
					for i := 0; i < cap+1; i++ {
						full = append(full, op{1, (i * 7) % len(paths), 1}, op{0, (i * 5) % len(paths), 0})
					}
				}
				for i, o := range full {
					if d := s.do(o); d != "" {
						s.report(t, full[:i+1], d)
						return
					}
					t.Step()
				}
				t.State(cap, s.m.e)
			}
			return
		}
		for _, o := range ops {
			rec(append(append([]op(nil), h...), o))
		}
	}
	rec(nil)
}

func main() {
	e2.Main([]e2.Check{{
		Prop: "C06",
		Groups: []e2.Group{
			{Name: "fixpoint", Bounds: "capacities 1-4 (thorough: 5) with capacity+2 paths and 1-3 values: all operation sequences, breadth first to the fixpoint of the (implementation, model) state graph", N: func(t string) int { return len(confs(t)) }, Run: func(i int, t *e2.T) { bfs(confs(t.Tier)[i], t) }, Stall: 600e9},
			{Name: "large", Bounds: "capacities 15-17, every fill level, then every sequence of 2 (thorough 3) operations on boundary entries, observed in three ways", N: func(t string) int { return 3 * 20 }, Run: func(i int, t *e2.T) { c, f := 15+i/20, i%20; big(c, f, t) }, Stall: 600e9},
		},
		Assume: []string{"the state dump covers every field of the cache (reflection over the whole object graph)"},
	}})
}
