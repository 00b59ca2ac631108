package main

import (
	"bytes"
	"fmt"
	"os"
	"path"
	"strings"

	"github.com/flawedmatrix/gocryptsftp/filetree"

	"verif/e2"
	"verif/ref"
)

// op is one client request.
type op struct {
	k byte // 'L', 'S', 'R'
	p string
}

func (o op) String() string {
	return map[byte]string{'L': "list ", 'S': "stat ", 'R': "read "}[o.k] + o.p
}

// do runs a request and compares the answer with the model; bad is a description of a wrong
// answer, failed tells that the request ended with an error although the model has an answer.
func do(t *e2.T, ft *filetree.FileTree, v *ref.Volume, o op) (bad string, failed error) {
	t.Step()
	clean := path.Clean(o.p)
	node := v.Resolve(clean)
	switch o.k {
	case 'L':
		l, err := ft.ReadDir(o.p)
		if err != nil {
			if len(l) > 0 {
				return fmt.Sprintf("%v fails but returns %d entries", o, len(l)), nil
			}
			if node == nil || !node.IsDir() {
				return "", nil
			}
			return "", err
		}
		if node == nil || !node.IsDir() {
			return fmt.Sprintf("%v succeeds with %d entries, there is no such directory", o, len(l)), nil
		}
		if a, b := shown(l), wantList(node); !same(a, b) {
			return fmt.Sprintf("%v: %s", o, diff(a, b)), nil
		}
	case 'S':
		i, err := ft.Stat(o.p)
		if err != nil {
			if i != nil {
				return fmt.Sprintf("%v fails but returns information", o), nil
			}
			if node == nil {
				return "", nil
			}
			return "", err
		}
		if node == nil {
			return fmt.Sprintf("%v succeeds, there is no such object", o), nil
		}
		w := *node
		w.Plain = path.Base(clean)
		if show(i) != want(&w) {
			return fmt.Sprintf("%v: %s instead of %s", o, show(i), want(&w)), nil
		}
	case 'R':
		b, err := ft.ReadFile(o.p)
		if err != nil {
			if len(b) > 0 {
				return fmt.Sprintf("%v fails but returns %d bytes", o, len(b)), nil
			}
			if node == nil || node.IsDir() {
				return "", nil
			}
			return "", err
		}
		if node == nil || node.IsDir() {
			return fmt.Sprintf("%v succeeds with %d bytes, there is no such file", o, len(b)), nil
		}
		if !bytes.Equal(b, node.PData) {
			return fmt.Sprintf("%v gives %d bytes that are not the content", o, len(b)), nil
		}
	}
	return "", nil
}

// must runs requests against a healthy remote.
func must(t *e2.T, ft *filetree.FileTree, v *ref.Volume, hist string, ops ...op) bool {
	for i, o := range ops {
		bad, err := do(t, ft, v, o)
		if err != nil {
			bad = fmt.Sprintf("%v fails: %v", o, err)
		}
		if bad != "" {
			t.Failf("%s%s", hist+seq(ops[:i]), bad)
			return false
		}
	}
	return true
}

func seq(ops []op) string {
	if len(ops) == 0 {
		return ""
	}
	s := []string{}
	for _, o := range ops {
		s = append(s, o.String())
	}
	return "after [" + strings.Join(s, ", ") + "]: "
}

const ndirs = 20

// histVolume has more directories than the path cache has room for, equal names at different
// places and prefixes of one another.
func histVolume() *ref.Volume {
	spec := ref.Spec{"/f": []byte("root file"), "/empty": {}, "/deep/a/b/c/f": []byte("deep"), "/deep/a/f": []byte("deep a"), "/d0/": nil, "/d": []byte("prefix")}
	for i := 0; i < ndirs; i++ {
		d := fmt.Sprintf("/d%02d", i)
		spec[d+"/f"] = []byte(fmt.Sprint("file of ", i))
		spec[d+"/s/f"] = ref.Content(4096+i, i)
		spec[fmt.Sprintf("%s/only%d", d, i)] = []byte{byte(i)}
	}
	return build(keys(0), spec)
}

var histMenu = []op{
	{'L', "/"}, {'L', "/d00"}, {'R', "/d00/f"}, {'S', "/d00/s/f"}, {'L', "/d19/s"}, {'R', "/d19/s/f"},
	{'S', "/d07"}, {'R', "/d07/f"}, {'L', "/d07/f"}, {'S', "/missing"}, {'R', "/d00/only1"}, {'R', "/deep/a/b/c/f"},
	{'S', "/deep/a"}, {'R', "/deep/a"}, {'S', "/"}, {'L', "/deep/a/b"},
}

// c04Hist: scan the first k directories, then every sequence of requests up to the depth
func c04Hist(i int, t *e2.T) {
	k := i / len(histMenu)
	first := i % len(histMenu)
	vol := histVolume()
	var pre []op
	for d := 0; d < k; d++ {
		pre = append(pre, op{"LSR"[d%3], fmt.Sprintf("/d%02d", d) + map[int]string{0: "/s", 1: "/s", 2: "/s/f"}[d%3]})
	}
	depth := 2
	if t.Tier == "thorough" {
		depth = 3
	}
	var rec func(ops []op)
	rec = func(ops []op) {
		if t.Failed() {
			return
		}
		if len(ops) == depth {
			ft := open(t, vol, 2)
			if ft == nil {
				return
			}
			if !must(t, ft, vol, fmt.Sprintf("after scanning %d directories ", k), append(append([]op{}, pre...), ops...)...) {
				return
			}
			must(t, ft, vol, fmt.Sprintf("after scanning %d directories and %s", k, seq(ops)), histMenu...)
			t.State(k, fmt.Sprint(ops))
			return
		}
		for _, o := range histMenu {
			rec(append(append([]op{}, ops...), o))
		}
	}
	if t.Tier != "thorough" {
		// one session per second request
		rec([]op{histMenu[first]})
	} else {
		rec([]op{histMenu[first]})
	}
	t.Sample("scan of %d directories, then all request sequences starting with %v", k, histMenu[first])
}

// c04Walk: after a full scan, every ordered pair of directories is visited again in one session
func c04Walk(i int, t *e2.T) {
	vol := histVolume()
	ft := open(t, vol, 1+i%3)
	if ft == nil {
		return
	}
	var all []op
	for d := 0; d < ndirs; d++ {
		all = append(all, op{'L', fmt.Sprintf("/d%02d/s", d)})
	}
	if !must(t, ft, vol, "full scan ", all...) {
		return
	}
	for a := 0; a < ndirs; a++ {
		for b := 0; b < ndirs; b++ {
			x, y := fmt.Sprintf("/d%02d", (a+i)%ndirs), fmt.Sprintf("/d%02d", (b*7+i)%ndirs)
			var ops []op
			switch i % 4 {
			case 0:
				ops = []op{{'R', x + "/f"}, {'R', y + "/s/f"}, {'R', x + "/s/f"}}
			case 1:
				ops = []op{{'S', x + "/s"}, {'L', y}, {'S', x}}
			case 2:
				ops = []op{{'R', x + "/missing"}, {'R', y + "/f"}, {'L', x + "/missing"}, {'S', y + "/s/f"}}
			case 3:
				ops = []op{{'L', x + "/s"}, {'L', y + "/s"}, {'R', y + "/only" + fmt.Sprint((b*7+i)%ndirs)}, {'R', x + "/only" + fmt.Sprint((b*7+i+1)%ndirs)}}
			}
			if !must(t, ft, vol, fmt.Sprintf("long session, pair %s %s: ", x, y), ops...) {
				return
			}
			t.State(i, a, b)
		}
	}
}

var faultMenu = []op{{'R', "/d00/s/f"}, {'L', "/d00/s"}, {'S', "/d00/s"}, {'S', "/d00/f"}, {'L', "/"}, {'R', "/d01/s/f"}, {'R', "/f"}, {'S', "/nothing"}}

// c04Faults: sequences of two requests with one or two remote failures at every access
func c04Faults(i int, t *e2.T) {
	a, b := faultMenu[i/len(faultMenu)], faultMenu[i%len(faultMenu)]
	ops := []op{a, b, a}
	vol := build(keys(0), ref.Spec{"/d00/s/f": ref.Content(5000, 1), "/d00/f": []byte("x"), "/d01/s/f": []byte("yy"), "/f": []byte("zzz")})
	for kind := 0; kind < 3; kind++ { // plain error, error with partial data, not-exist error
		for f1 := 0; f1 < 64; f1++ {
			more := false
			for f2 := f1; f2 < 64; f2++ {
				if f2 > f1 && f2 > f1+1 && t.Tier != "thorough" && f2%3 != 0 {
					continue
				}
				n, hit := 0, 0
				vol.FS.Hook = nil
				ft := open(t, vol, 2)
				if ft == nil {
					return
				}
				vol.FS.Hook = func(o, p string) error {
					n++
					if n-1 == f1 || n-1 == f2 {
						hit++
						switch kind {
						case 1:
							return ref.Partial{Err: errFault}
						case 2:
							return os.ErrNotExist
						}
						return errFault
					}
					return nil
				}
				hist := fmt.Sprintf("failures (kind %d) of remote accesses %d and %d: ", kind, f1, f2)
				for j, o := range ops {
					before := hit
					bad, err := do(t, ft, vol, o)
					if bad == "" && err != nil && hit == before {
						bad = fmt.Sprintf("%v fails although no remote access failed meanwhile: %v", o, err)
					}
					if bad != "" {
						t.Failf("%s%s%s", hist, seq(ops[:j]), bad)
						return
					}
				}
				vol.FS.Hook = nil
				if !must(t, ft, vol, hist+seq(ops)+"once the remote is healthy, ", faultMenu...) {
					return
				}
				t.State(i, kind, f1, f2, hit)
				if hit > 0 {
					more = true
				}
				if f2 >= n {
					break
				}
			}
			if !more {
				break
			}
		}
	}
	t.Sample("requests %v with every placement of one or two remote failures", ops)
}

var c04groups = []e2.Group{
	{Name: "histories", Bounds: "scan of 0-20 directories (path cache: 16), then every sequence of 2 (thorough 3) requests over a menu of 16, then the whole menu", N: n(21 * len(histMenu)), Run: c04Hist},
	{Name: "long sessions", Bounds: "full scan of 20 directories, then all ordered pairs of directories revisited in one session, 20 request patterns", N: n(20), Run: c04Walk},
	{Name: "failures", Bounds: "all pairs of 8 requests with one or two remote failures at every access, 3 kinds of failure; then the whole menu on the healthy remote", N: n(len(faultMenu) * len(faultMenu)), Run: c04Faults},
	deepGroup, wideGroup, nearGroup,
}

// ---- C05 -------------------------------------------------------------------------------------

var poolNames = []string{"a", "b", "ab", "a b", ".h", "gocryptfs.diriv", "gocryptfs.conf", "..."}

// agree walks the whole tree through the file tree and checks that all views agree.
func agree(t *e2.T, ft *filetree.FileTree, v *ref.Volume, hist string) bool {
	var walk func(p string, d *ref.Node) bool
	walk = func(p string, d *ref.Node) bool {
		l, err := ft.ReadDir(p)
		t.Step()
		if err != nil {
			t.Failf("%slisting %s fails: %v", hist, p, err)
			return false
		}
		if a, b := shown(l), wantList(d); !same(a, b) {
			t.Failf("%slisting %s: %s", hist, p, diff(a, b))
			return false
		}
		for _, e := range l {
			q := path.Join(p, e.Name())
			i, err := ft.Stat(q)
			t.Step()
			if err != nil {
				t.Failf("%s%s is listed but stat fails: %v", hist, q, err)
				return false
			}
			if info(i) != info(e) {
				t.Failf("%s%s: stat says %s, the listing %s", hist, q, info(i), info(e))
				return false
			}
			if e.IsDir() {
				if b, err := ft.ReadFile(q); err == nil || len(b) > 0 {
					t.Failf("%sdirectory %s can be read", hist, q)
					return false
				}
				if !walk(q, v.Resolve(q)) {
					return false
				}
				continue
			}
			b, err := ft.ReadFile(q)
			t.Step()
			if err != nil || int64(len(b)) != e.Size() || !bytes.Equal(b, v.Resolve(q).PData) {
				t.Failf("%s%s: listed with %d bytes, read gives %d: %v", hist, q, e.Size(), len(b), err)
				return false
			}
			if l, err := ft.ReadDir(q); err == nil || len(l) > 0 {
				t.Failf("%sfile %s can be listed", hist, q)
				return false
			}
			if !absent(t, ft, hist, q+"/x") {
				return false
			}
		}
		for _, nm := range append([]string{"zz", "A"}, poolNames...) {
			if v.Resolve(path.Join(p, nm)) == nil && !absent(t, ft, hist, path.Join(p, nm)) {
				return false
			}
			if v.Resolve(path.Join(p, nm)) == nil && !absent(t, ft, hist, path.Join(p, nm, "a")) {
				return false
			}
		}
		for _, k := range d.Kids { // stored names are not plaintext names
			if v.Resolve(path.Join(p, k.N)) == nil && !absent(t, ft, hist, path.Join(p, k.N)) {
				return false
			}
		}
		return true
	}
	return walk("/", v.FS.Top)
}

func absent(t *e2.T, ft *filetree.FileTree, hist, p string) bool {
	t.Steps(3)
	if i, err := ft.Stat(p); err == nil || i != nil {
		t.Failf("%sstat of %s, which is in no listing, gives %v", hist, p, i)
		return false
	}
	if l, err := ft.ReadDir(p); err == nil || len(l) > 0 {
		t.Failf("%slisting of %s, which is in no listing, gives %d entries", hist, p, len(l))
		return false
	}
	if b, err := ft.ReadFile(p); err == nil || len(b) > 0 {
		t.Failf("%sreading %s, which is in no listing, gives %d bytes", hist, p, len(b))
		return false
	}
	return true
}

// inside checks that the remote was asked only for paths inside the volume.
func inside(t *e2.T, v *ref.Volume, hist string) bool {
	for _, l := range v.FS.TakeLog() {
		p := path.Clean(l[strings.Index(l, " ")+1:])
		r := v.FS.Root
		if p != r && !strings.HasPrefix(p, strings.TrimSuffix(r, "/")+"/") {
			t.Failf("%sthe remote was asked for %q, outside the volume %s", hist, l, r)
			return false
		}
	}
	return true
}

// c05Trees: all trees of up to 4 (thorough 5) objects below the root
func c05Trees(i int, t *e2.T) {
	const parts = 32
	lim := 4
	if t.Tier == "thorough" {
		lim = 5
	}
	cnt := 0
	type nd struct {
		path string
		dir  bool
	}
	var rec func(ns []nd)
	rec = func(ns []nd) {
		if t.Failed() {
			return
		}
		cnt++
		if cnt%parts == i && len(ns) > 1 {
			spec := ref.Spec{}
			for j, x := range ns[1:] {
				if x.dir {
					spec[x.path+"/"] = nil
				} else {
					spec[x.path] = ref.Content([]int{0, 1, 4096, 4097, 9000}[j], cnt)
				}
			}
			v := build(keys(cnt%8), spec)
			v.FS.Keep = true
			ft := open(t, v, 1+cnt%3)
			if ft == nil {
				return
			}
			h := fmt.Sprintf("tree %v: ", ns[1:])
			if !agree(t, ft, v, h) || !agree(t, ft, v, h+"second walk: ") || !inside(t, v, h) {
				return
			}
			t.State(h)
		}
		if len(ns) == lim+1 {
			return
		}
		for _, p := range ns {
			if !p.dir {
				continue
			}
			for _, dir := range []bool{true, false} {
				nm := poolNames[(len(ns)-1)%len(poolNames)]
				if cnt%5 == 0 { // the same name at different places
					nm = "a"
				}
				np := path.Join(p.path, nm)
				dup := false
				for _, q := range ns {
					dup = dup || q.path == np
				}
				if dup {
					np = path.Join(p.path, poolNames[len(ns)])
				}
				rec(append(append([]nd{}, ns...), nd{np, dir}))
			}
		}
	}
	rec([]nd{{"/", true}})
}

func spellings(p string, depth int) []string {
	m := map[string]bool{p: true}
	cur := []string{p}
	for d := 0; d < depth; d++ {
		var next []string
		for _, s := range cur {
			for i := 0; i <= len(s); i++ {
				if i < len(s) && s[i] != '/' {
					continue
				}
				for _, ins := range []string{"/", "/.", "/zz/..", "/d/..", "/d/f/../.."} {
					n := s[:i] + ins + s[i:]
					if !m[n] {
						m[n] = true
						next = append(next, n)
					}
				}
			}
			for _, n := range []string{"/.." + s, s + "/", "/../../../../.." + s} {
				if !m[n] {
					m[n] = true
					next = append(next, n)
				}
			}
		}
		cur = next
	}
	l := []string{}
	for s := range m {
		l = append(l, s)
	}
	return l
}

// c05Spell: every spelling with up to two detours of every path, of every kind
func c05Spell(i int, t *e2.T) {
	v := build(keys(i%8), ref.Spec{"/d/f": []byte("df"), "/d/e/g": []byte("deg!"), "/f": []byte("rootf"), "/zz2/": nil})
	v.FS.Keep = true
	paths := []string{"/", "/d", "/d/f", "/d/e", "/d/e/g", "/f", "/zz2", "/no", "/d/no", "/f/no", "/d/e/g/no"}
	p := paths[i/8]
	var ft *filetree.FileTree
	for j, s := range spellings(p, 2) {
		if path.Clean(s) != p {
			t.Failf("enumeration error: %s is not %s", s, p)
			return
		}
		if j%16 == 0 { // new sessions so that spellings also come first
			if ft = open(t, v, 2); ft == nil {
				return
			}
		}
		if !must(t, ft, v, fmt.Sprintf("%s spelled %q: ", p, s), op{'S', s}, op{'L', s}, op{'R', s}) || !inside(t, v, s+": ") {
			return
		}
		t.State(s)
	}
	t.Sample("all spellings of %s", p)
}

// c05Roots: every way of naming the encrypted root
func c05Roots(i int, t *e2.T) {
	roots := []string{"/", "/vol", "/vol/", "/a/b/c", "/a/b/c/", "/vol/.", "//vol", "/x/../vol"}
	r := roots[i]
	v := ref.Build(keys(0), path.Clean(r), pass, ref.Spec{"/d/f": []byte("df"), "/d/e/g": []byte("deg!"), "/f": []byte("rootf")})
	v.FS.Keep = true
	ft, err := filetree.Init(r, []byte(pass), 2, v.FS)
	if err != nil {
		t.Failf("a volume at %q does not open: %v", r, err)
		return
	}
	if agree(t, ft, v, fmt.Sprintf("volume at %q: ", r)) {
		inside(t, v, r+": ")
	}
	for _, s := range []string{"", ".", "..", "d", "d/f", "../f", "./f", "../../etc/passwd", "/../../etc/passwd", "/d/../../../etc/passwd", "\x00", "/\x00", "/d\x00/f"} {
		// only absolute paths are specified; whatever the answer, it ends and stays inside
		ft.Stat(s)
		ft.ReadDir(s)
		ft.ReadFile(s)
		t.Steps(3)
	}
	inside(t, v, r+", odd paths: ")
	agree(t, ft, v, fmt.Sprintf("volume at %q after odd paths: ", r))
}

// c05Names: entries with every name length and odd names
func c05Names(i int, t *e2.T) {
	v := build(keys(i%8), ref.Spec{})
	d := v.FS.Top
	for j := 0; j < 24; j++ {
		var nm string
		if l := i/8*24 + j; l < 175 {
			nm = strings.Repeat("n", l) + fmt.Sprint(j%10)
		} else {
			nm = []string{"-", "--help", "~", "*", "?", "a\\b", "a\nb", "\x01", "\xff\xfe", "ünï", " ", "  x", "x ", "%2e%2e", "..a", "...", "a..", "CON", "gocryptfs.longname.x", "gocryptfs.diriv", "lost+found", "\"", "'", "$(x)"}[j]
		}
		if l := len(v.Name(nm, d.IV)); l > 255 {
			continue
		}
		if j%3 == 0 {
			s := v.Sub(d, nm)
			v.AddFile(s, nm, []byte(nm))
		} else {
			v.AddFile(d, nm, []byte(nm))
		}
	}
	ft := open(t, v, 2)
	if ft == nil {
		return
	}
	agree(t, ft, v, "names: ")
}

var depths = []int{3, 8, 15, 16, 17, 18, 20, 24, 31, 32, 33, 34, 40, 48, 64, 65}

// deep: chains of directories, with equal or with long names, entered from both ends.
func deep(i int, t *e2.T) {
	n, long := depths[i/2], i%2 == 1
	name := func(j int) string {
		if long {
			return strings.Repeat(string(rune('a'+j%26)), 100+j%70)
		}
		return "a"
	}
	spec := ref.Spec{}
	var ps []string
	p := ""
	for j := 0; j < n; j++ {
		p += "/" + name(j)
		ps = append(ps, p)
		spec[p+"/f"] = []byte(fmt.Sprint("file at level ", j))
		if j%3 == 1 {
			spec[p+"/b/f"] = []byte(fmt.Sprint("file beside level ", j))
		}
	}
	v := build(keys(i%8), spec)
	for order := 0; order < 4; order++ {
		ft := open(t, v, 2)
		if ft == nil {
			return
		}
		for round := 0; round < 3; round++ {
			for j := range ps {
				k := []int{j, n - 1 - j, (j * 7) % n, n - 1 - (j*5+round)%n}[order]
				ops := []op{{'R', ps[k] + "/f"}, {'S', ps[k]}, {'L', ps[k]}, {'R', ps[k] + "/b/f"}, {'S', ps[k] + "/zz"}, {'S', ps[k] + "/b/f"}}
				t.State(i, order, round, k)
				if !must(t, ft, v, fmt.Sprintf("chain of %d directories, order %d, round %d: ", n, order, round), ops[round*2:]...) || !inside(t, v, "deep: ") {
					return
				}
			}
		}
		if n <= 20 && !agree(t, ft, v, fmt.Sprintf("chain of %d directories: ", n)) {
			return
		}
	}
}

// wide: more directories, files and names than any table starts with, all visited and visited again.
func wide(i int, t *e2.T) {
	const dirs = 550
	spec := ref.Spec{}
	var ops []op
	for j := 0; j < dirs; j++ {
		d := fmt.Sprintf("/dir%d", j)
		spec[d+"/f"] = []byte(fmt.Sprint("f of ", j))
		spec[d+"/g"] = []byte(fmt.Sprint("g of ", j))
		ops = append(ops, op{"LRS"[(i+j)%3], d + []string{"", "/f", "/g"}[(i+j)%3]}, op{'R', d + "/f"}, op{'R', d + "/g"})
	}
	v := build(keys(i), spec)
	ft := open(t, v, 1+i%3)
	if ft == nil {
		return
	}
	if i%2 == 1 {
		for a, b := 0, len(ops)-1; a < b; a, b = a+1, b-1 {
			ops[a], ops[b] = ops[b], ops[a]
		}
	}
	for round := 0; round < 2; round++ {
		for j, o := range ops {
			if !must(t, ft, v, fmt.Sprintf("request %d of round %d over %d directories: ", j, round, dirs), o) {
				return
			}
		}
		t.State(i, round)
	}
}

var deepGroup = e2.Group{Name: "deep", Bounds: "chains of 3 to 65 directories with equal or long names, entered in 4 orders, 3 times", N: n(2 * len(depths)), Run: deep}
var wideGroup = e2.Group{Name: "wide", Bounds: "550 directories and 1100 files, visited twice in 4 orders", N: n(4), Run: wide}

// nearPair: two directories with nearly the same IV; each also holds copies of the other's
// objects, whose names decrypt there only if the IVs are equal.
func nearPair(i int, t *e2.T) {
	v := build(keys(i%8), ref.Spec{"/x/": nil})
	a, b := v.Sub(v.FS.Top, "A"), v.Sub(v.FS.Top, "B")
	iv := append([]byte{}, a.IV...)
	switch {
	case i < 16: // one byte differs
		iv[i] ^= byte(1 << uint(i%8))
	case i == 16: // second half differs
		for j := 8; j < 16; j++ {
			iv[j] ^= 0x5a
		}
	case i == 17: // first half differs
		for j := 0; j < 8; j++ {
			iv[j] ^= 0x5a
		}
	case i == 18: // reversed
		for j := range iv {
			iv[j] = a.IV[15-j]
		}
	case i == 19: // halves swapped
		copy(iv, a.IV[8:])
		copy(iv[8:], a.IV[:8])
	case i == 20: // rotated
		copy(iv, a.IV[1:])
		iv[15] = a.IV[0]
	case i == 21: // NUL bytes at the end
		for _, d := range []*ref.Node{a} {
			copy(d.IV[12:], []byte{0, 0, 0, 0})
		}
		copy(iv, a.IV)
		iv[12] = 1
	case i == 22: // an IV that looks like text
		copy(a.IV, "0123456789abcdef")
		copy(iv, "0123456789ABCDEF")
	} // i == 23: equal
	copy(b.IV, iv)
	for _, d := range []*ref.Node{a, b} {
		copy(d.Kids[0].Data, d.IV)
	}
	v.AddFile(a, "one", []byte("1 in A"))
	v.AddFile(a, "two", []byte("2 in A, longer"))
	v.AddFile(v.Sub(a, "sub"), "s", []byte("in sub of A"))
	v.AddFile(b, "three", []byte("3 in B"))
	v.AddFile(b, "two", []byte("2 in B, even longer"))
	v.AddFile(v.Sub(b, "bus"), "s", []byte("in sub of B"))
	ka, kb := append([]*ref.Node{}, a.Kids[1:]...), append([]*ref.Node{}, b.Kids[1:]...)
	put := func(d *ref.Node, from []*ref.Node) {
		for _, k := range from {
			dup := false
			for _, o := range d.Kids {
				dup = dup || o.Name() == k.Name()
			}
			if dup {
				continue
			}
			c := *k
			if nm, ok := v.DecName(c.Name(), d.IV); ok {
				c.Plain = nm
			} else {
				c.Plain = ""
			}
			d.Kids = append(d.Kids, &c)
		}
	}
	put(a, kb)
	put(b, ka)
	var ops []op
	for _, d := range []string{"/A", "/B"} {
		ops = append(ops, op{'L', d})
		for _, f := range []string{"one", "two", "three", "sub", "bus", "sub/s", "bus/s"} {
			ops = append(ops, op{'S', d + "/" + f}, op{'R', d + "/" + f})
		}
		ops = append(ops, op{'L', d + "/sub"}, op{'L', d + "/bus"})
	}
	for first := range ops {
		ft := open(t, v, 1+first%3)
		if ft == nil {
			return
		}
		for j := range ops {
			o := ops[(first+j*7)%len(ops)] // 7 and the number of operations have no common divisor
			if !must(t, ft, v, fmt.Sprintf("near IVs %d, from %c %s: ", i, ops[first].k, ops[first].p), o) {
				return
			}
		}
		t.State(i, first)
	}
}

var nearGroup = e2.Group{Name: "near IVs", Bounds: "pairs of directories whose IVs differ in each single byte, in a half, by reversal, rotation or not at all, holding copies of each other's objects; 34 operations starting with every one of them", N: n(24), Run: nearPair}

var c05groups = []e2.Group{
	{Name: "trees", Bounds: "all trees of up to 4 (thorough 5) files and directories; every listed path, every stored name and missing siblings/children; walked twice", N: n(32), Run: c05Trees},
	{Name: "spellings", Bounds: "11 paths x all spellings with up to two detours (//, /., /x/.., leading /..) x 8 variants", N: n(88), Run: c05Spell},
	{Name: "roots", Bounds: "8 spellings of the encrypted root; relative and hostile request paths", N: n(8), Run: c05Roots},
	{Name: "names", Bounds: "every name length up to 175 and 24 odd names as files and directories x 8 variants", N: n(8 * 9), Run: c05Names},
	specialGroup, deepGroup, sizesGroup,
}
