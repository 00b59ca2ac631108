package menu

import (
	"fmt"

	"verif/e2"
	"verif/ref"
	"verif/wire"
)

// Paths are two files, two directories with entries and an empty one, for the scripts.
type Paths struct{ A, B, D, G, E string }

// Interleave runs two scripts in all orders, in one session or two.
func Interleave(t *e2.T, i, ns int, two bool, v *ref.Volume, ps Paths, session func(which int) *wire.Client) {
	type step struct {
		k    byte
		p    string
		o    uint64
		l    uint32
		want string
	}
	file := func(p string, alt bool) []step {
		if alt {
			return []step{{'O', p, 0, 0, ""}, {'R', p, 4090, 100, ""}, {'R', p, 0, 32768, ""}, {'R', p, 20000, 5, ""}, {'C', p, 0, 0, ""}}
		}
		return []step{{'O', p, 0, 0, ""}, {'R', p, 0, 10, ""}, {'F', p, 0, 0, ""}, {'R', p, 4096, 32768, ""}, {'C', p, 0, 0, ""}}
	}
	dir := func(p string) []step {
		return []step{{'D', p, 0, 0, ""}, {'L', p, 0, 0, ""}, {'L', p, 0, 0, "end"}, {'L', p, 0, 0, "end"}, {'C', p, 0, 0, ""}}
	}
	scripts := [][]step{dir(ps.D), dir(ps.G), dir(ps.G + "/"), dir(ps.E), file(ps.B, true)}
	if ns == 6 {
		scripts = nil
	}
	scripts = append(scripts, [][]step{file(ps.A, false), file(ps.A, true), file(ps.B, false), dir(ps.D), dir(ps.E), {{'O', "/missing", 0, 0, "err"}, {'S', "/missing", 0, 0, "err"}, {'D', ps.A, 0, 0, "err"}, {'O', ps.D, 0, 0, "err"}, {'S', ps.B, 0, 0, ""}}}...)[:ns]
	A, B := scripts[i/len(scripts)], scripts[i%len(scripts)]
	for mask := 0; mask < 1<<10; mask++ {
		n := 0
		for b := 0; b < 10; b++ {
			n += mask >> uint(b) & 1
		}
		if n != 5 {
			continue
		}
		c := session(0)
		if c == nil {
			return
		}
		cs := [2]*wire.Client{c, c}
		if two {
			if cs[1] = session(1); cs[1] == nil {
				return
			}
		}
		var hd [2]string
		var rd [2][]wire.Entry
		ia, ib := 0, 0
		trace := ""
		for b := 0; b < 10 && !t.Failed(); b++ {
			w := mask >> uint(b) & 1
			var s step
			if w == 0 {
				s = A[ia]
				ia++
			} else {
				s = B[ib]
				ib++
			}
			c := cs[w]
			t.Step()
			trace += fmt.Sprintf("%c%d ", s.k, w)
			fail := func(r wire.Reply) { t.Failf("two scripts, order %s: %c %s: %v", trace, s.k, s.p, r) }
			switch s.k {
			case 'O', 'D':
				var r wire.Reply
				if s.k == 'O' {
					r = c.Do(wire.Open, wire.Str(s.p), wire.U32(wire.FRead), wire.U32(0))
				} else {
					r = c.Do(wire.Opendir, wire.Str(s.p))
				}
				if s.want == "err" && !r.Failed() || s.want == "" && (r.Type != wire.Handle || r.Err != nil) {
					fail(r)
				}
				hd[w] = r.Handle
				if r.Type == wire.Handle && !two && hd[0] == hd[1] && hd[0] != "" {
					fail(r)
				}
			case 'R':
				CheckRange(t, v.Resolve(s.p).PData, s.o, s.l, c.Do(wire.Read, wire.Str(hd[w]), wire.U64(s.o), wire.U32(s.l)))
			case 'F':
				if r := c.Do(wire.Fstat, wire.Str(hd[w])); r.Type != wire.Attrs || AttrText(r.A, true) != WantAttr(v.Resolve(s.p)) {
					fail(r)
				}
			case 'S':
				r := c.Do(wire.Stat, wire.Str(s.p))
				if s.want == "err" && !r.Failed() || s.want == "" && (r.Type != wire.Attrs || AttrText(r.A, true) != WantAttr(v.Resolve(s.p))) {
					fail(r)
				}
			case 'L':
				r := c.Do(wire.Readdir, wire.Str(hd[w]))
				d := v.Resolve(s.p)
				switch {
				case len(rd[w]) == len(d.Kids)-1: // all but the IV file
					if !r.IsEOF() {
						fail(r)
					}
				case r.Type != wire.Name || r.Err != nil || len(r.Names) == 0:
					fail(r)
				default:
					rd[w] = append(rd[w], r.Names...)
					if len(rd[w]) >= len(d.Kids)-1 {
						CheckList(t, trace, d, rd[w])
					}
				}
			case 'C':
				if r := c.Do(wire.Close, wire.Str(hd[w])); !r.Success() {
					fail(r)
				}
				hd[w] = ""
			}
		}
		c.C.Close()
		cs[1].C.Close()
		t.State(i, mask, two)
		if t.Failed() {
			return
		}
	}
}
