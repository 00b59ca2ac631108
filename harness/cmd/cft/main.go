// cft explores concurrent use of the path cache (C06) and of a whole file tree (C11) under the
// controlled scheduler.
package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"sort"
	"strings"

	"github.com/flawedmatrix/gocryptsftp/filetree"
	"github.com/flawedmatrix/gocryptsftp/handlers"
	"github.com/pkg/sftp"

	"verif/drv"
	"verif/ref"
	"verif/vsched"
)

// ---------------------------------------------------------------- C06

type ent struct{ k, v string }

type lru struct {
	cap int
	e   []ent
}

func (l *lru) touch(k string) (ent, bool) {
	for i, e := range l.e {
		if e.k == k {
			l.e = append(append(append([]ent(nil), l.e[:i]...), l.e[i+1:]...), e)
			return e, true
		}
	}
	return ent{}, false
}

func (l *lru) apply(o cop) string {
	switch o.k {
	case 'F':
		e, ok := l.touch(o.p)
		return fmt.Sprint(e.k, "->", e.v, " ", ok)
	case 'S':
		if _, ok := l.touch(o.p); ok {
			l.e[len(l.e)-1].v = o.v
			return ""
		}
		if len(l.e) == l.cap {
			l.e = append([]ent(nil), l.e[1:]...)
		}
		l.e = append(l.e, ent{o.p, o.v})
	case 'C':
		l.e = nil
	}
	return ""
}

type cop struct {
	k    byte
	p, v string
}

func find(p string) cop     { return cop{'F', p, ""} }
func store(p, v string) cop { return cop{'S', p, v} }

func doC(c *filetree.FastCache, o cop) string {
	switch o.k {
	case 'F':
		d, ok := c.Find(o.p)
		return fmt.Sprint(d.PlaintextPath, "->", d.CiphertextPath, " ", ok)
	case 'S':
		c.Store(o.p, o.v)
	case 'C':
		c.Clear()
	}
	return ""
}

type cscn struct {
	name    string
	cap     int
	pre     []cop
	clients [][]cop
}

func (s cscn) body() {
	c := filetree.NewFastCache(s.cap)
	vsched.Quiet(func() {
		for _, o := range s.pre {
			doC(c, o)
		}
	})
	res := make([][]string, len(s.clients))
	for i := range s.clients {
		i := i
		res[i] = make([]string, len(s.clients[i]))
		vsched.GoNamed(fmt.Sprintf("user%d", i), func() {
			for j, o := range s.clients[i] {
				res[i][j] = doC(c, o)
			}
		})
	}
	vsched.Join()
	// observe what is left, then fill up to see the eviction order
	var obs []cop
	for _, p := range []string{"/a", "/b", "/c", "/d"} {
		obs = append(obs, find(p))
	}
	for i := 0; i < s.cap; i++ {
		obs = append(obs, store(fmt.Sprintf("/z%d", i), "z"), find("/a"), find("/b"), find("/z0"))
	}
	var or []string
	vsched.Quiet(func() {
		for _, o := range obs {
			or = append(or, doC(c, o))
		}
	})
	out := fmt.Sprint(res, or)
	vsched.SetOutcome(out)
	// some sequential order must explain everything
	idx := make([]int, len(s.clients))
	var try func(m lru) bool
	try = func(m lru) bool {
		done := true
		for i := range s.clients {
			if idx[i] < len(s.clients[i]) {
				done = false
				n := lru{m.cap, append([]ent(nil), m.e...)}
				if n.apply(s.clients[i][idx[i]]) == res[i][idx[i]] {
					idx[i]++
					ok := try(n)
					idx[i]--
					if ok {
						return true
					}
				}
			}
		}
		if !done {
			return false
		}
		n := lru{m.cap, append([]ent(nil), m.e...)}
		for i, o := range obs {
			if n.apply(o) != or[i] {
				return false
			}
		}
		return true
	}
	m := lru{cap: s.cap}
	for _, o := range s.pre {
		m.apply(o)
	}
	if !try(m) {
		vsched.Fail("no sequential order of the operations explains results %v and final content %v", res, or)
	}
}

func c06() []drv.Scn {
	L := func(l ...[]cop) [][]cop { return l }
	one := func(o ...cop) []cop { return o }
	clr := cop{k: 'C'}
	ss := []cscn{
		{"2 stores of new paths at capacity 1", 1, one(store("/a", "x")), L(one(store("/b", "y")), one(store("/c", "z")))},
		{"store and lookups at capacity 2", 2, one(store("/a", "x"), store("/b", "y")), L(one(store("/c", "z"), find("/a")), one(find("/a"), find("/b")))},
		{"same path stored twice", 2, one(store("/b", "y")), L(one(store("/a", "1"), find("/a")), one(store("/a", "2"), find("/b")))},
		{"clear against store and lookup", 2, one(store("/a", "x"), store("/b", "y")), L(one(clr, store("/c", "q")), one(find("/a"), store("/d", "w")))},
		{"3 users at capacity 2", 2, one(store("/a", "x"), store("/b", "y")), L(one(find("/a")), one(store("/c", "z")), one(store("/d", "z")))},
		{"2 lookups reorder capacity 3", 3, one(store("/a", "x"), store("/b", "y"), store("/c", "w")), L(one(find("/a"), store("/d", "q")), one(find("/b"), find("/a")))},
	}
	var r []drv.Scn
	for _, s := range ss {
		s := s
		r = append(r, drv.Scn{Name: s.name, Body: s.body, PQ: 6, PT: 12, RQ: 3, RT: 6})
	}
	return r
}

// ---------------------------------------------------------------- C11

// remote serves an immutable volume; it has no synchronisation of its own, so it hides no races.
type remote struct {
	fs   *ref.FS
	errs *bool // accesses may fail
}

func (r remote) fails(what string) bool {
	vsched.Point(what)
	return r.errs != nil && *r.errs && vsched.Choose(2, "remote access fails") == 1
}

var errRemote = errors.New("remote failure")

func (r remote) ReadFile(p string) ([]byte, error) {
	if r.fails("remote.ReadFile") {
		return nil, errRemote
	}
	n, err := r.fs.Find(p)
	if err != nil {
		return nil, err
	}
	return append([]byte{}, n.Data...), nil
}

func (r remote) ReadDir(p string) ([]os.FileInfo, error) {
	if r.fails("remote.ReadDir") {
		return nil, errRemote
	}
	n, err := r.fs.Find(p)
	if err != nil {
		return nil, err
	}
	if !n.IsDir() {
		return nil, os.ErrInvalid
	}
	l := make([]os.FileInfo, 0, len(n.Kids))
	for _, k := range n.Kids {
		l = append(l, k.Info)
	}
	return l, nil
}

func (r remote) Stat(p string) (os.FileInfo, error) {
	if r.fails("remote.Stat") {
		return nil, errRemote
	}
	n, err := r.fs.Find(p)
	if err != nil {
		return nil, err
	}
	return n.Info, nil
}

type fop struct {
	k byte // R read, L list, S stat
	p string
}

func psize(n *ref.Node) int64 {
	if n.IsDir() {
		return 0
	}
	return int64(len(n.PData))
}

// result of an operation: a rendering that is complete for the property, and the live data.
type fres struct {
	out  string
	data []byte
	r    io.ReaderAt // what the handlers handed out for an open file
}

// tree is what the clients use: the file tree itself or the SFTP handlers on top of it.
type tree interface {
	ReadFile(string) ([]byte, error)
	ReadDir(string) ([]os.FileInfo, error)
	Stat(string) (os.FileInfo, error)
}

// handled reaches the tree as the SFTP server does.
type handled struct {
	h sftp.Handlers
}

var errPart = errors.New("read stopped short")

// chunks reads all of r in pieces, an end of file ends it.
func chunks(r io.ReaderAt, n int) ([]byte, error) {
	var all []byte
	for {
		b := make([]byte, n)
		k, err := r.ReadAt(b, int64(len(all)))
		all = append(all, b[:k]...)
		switch {
		case err == io.EOF:
			return all, nil
		case err != nil:
			return nil, err
		case k < n:
			return nil, errPart
		}
	}
}

func (h handled) open(p string) (io.ReaderAt, error) {
	return h.h.FileGet.Fileread(&sftp.Request{Method: "Get", Filepath: p})
}

func (h handled) ReadFile(p string) ([]byte, error) {
	r, err := h.open(p)
	if err != nil {
		return nil, err
	}
	return chunks(r, 32768)
}

func (h handled) list(m, p string) (l []os.FileInfo, err error) {
	la, err := h.h.FileList.Filelist(&sftp.Request{Method: m, Filepath: p})
	if err != nil {
		return nil, err
	}
	for {
		b := make([]os.FileInfo, 5)
		k, err := la.ListAt(b, int64(len(l)))
		l = append(l, b[:k]...)
		if err == io.EOF {
			return l, nil
		}
		if err != nil {
			return nil, err
		}
		if k == 0 {
			return nil, errPart
		}
	}
}

func (h handled) ReadDir(p string) ([]os.FileInfo, error) { return h.list("List", p) }

func (h handled) Stat(p string) (os.FileInfo, error) {
	l, err := h.list("Stat", p)
	if err != nil {
		return nil, err
	}
	if len(l) != 1 {
		return nil, errPart
	}
	return l[0], nil
}

func doF(ft tree, o fop) fres {
	switch o.k {
	case 'R':
		if h, ok := ft.(handled); ok {
			r, err := h.open(o.p)
			if err != nil {
				return fres{out: "error"}
			}
			b, err := chunks(r, 32768)
			if err != nil {
				return fres{out: "broken reader"}
			}
			return fres{"data", b, r}
		}
		b, err := ft.ReadFile(o.p)
		if err != nil {
			return fres{out: "error"}
		}
		return fres{"data", b, nil}
	case 'L':
		l, err := ft.ReadDir(o.p)
		if err != nil {
			return fres{out: "error"}
		}
		var ns []string
		for _, i := range l {
			s := int64(0)
			if !i.IsDir() {
				s = i.Size()
			}
			ns = append(ns, fmt.Sprintf("%q %v %d %v", i.Name(), i.Mode(), s, i.ModTime().Unix()))
		}
		sort.Strings(ns)
		return fres{out: strings.Join(ns, "; ")}
	case 'S':
		i, err := ft.Stat(o.p)
		if err != nil {
			return fres{out: "error"}
		}
		s := int64(0)
		if !i.IsDir() {
			s = i.Size()
		}
		return fres{out: fmt.Sprintf("%q %v %d %v", i.Name(), i.Mode(), s, i.ModTime().Unix())}
	}
	panic("op")
}

func want(v *ref.Volume, o fop) fres {
	n := v.Resolve(o.p)
	switch {
	case n == nil, o.k == 'R' && n.IsDir(), o.k == 'L' && !n.IsDir():
		return fres{out: "error"}
	case o.k == 'R':
		return fres{"data", n.PData, nil}
	case o.k == 'L':
		var ns []string
		for _, k := range n.Kids {
			if k.Plain != "" {
				ns = append(ns, fmt.Sprintf("%q %v %d %v", k.Plain, k.Mode(), psize(k), k.ModTime().Unix()))
			}
		}
		sort.Strings(ns)
		return fres{out: strings.Join(ns, "; ")}
	default:
		return fres{out: fmt.Sprintf("%q %v %d %v", n.Plain, n.Mode(), psize(n), n.ModTime().Unix())}
	}
}

type fscn struct {
	name    string
	workers int
	siv     bool
	hand    bool // through the SFTP handlers
	pre     []fop
	clients [][]fop
	P, PT   int
	R, RT   int
	shards  int
	timers  bool // request timeouts may fire at any moment
	errs    bool // remote accesses may fail
	F       int
}

var vols = map[bool]*ref.Volume{}

func volume(siv bool) *ref.Volume {
	if v := vols[siv]; v != nil {
		return v
	}
	k := ref.NewKeys(bytes.Repeat([]byte{7}, 32), true, true, siv)
	v := ref.Build(k, "/vol", "pw", ref.Spec{
		"/f":   ref.Content(100, 1),
		"/d/g": ref.Content(5000, 2),
		"/d/h": ref.Content(4096, 3),
		"/e/i": {},
		"/d/l": ref.Content(140000, 4),
	})
	for i := 0; i < 18; i++ {
		v.AddFile(v.Mkdir(fmt.Sprintf("/many/x%02d", i)), "y", ref.Content(10+i, 5+i))
	}
	// keep the listings short: the config is only needed at Init
	vols[siv] = v
	return v
}

func (s fscn) body() {
	v := volume(s.siv)
	errs := false
	var ft tree
	vsched.Quiet(func() {
		var err error
		if s.hand {
			var h sftp.Handlers
			h, err = handlers.DecryptHandler("/vol", []byte("pw"), s.workers, remote{v.FS, &errs})
			ft = handled{h: h}
		} else {
			ft, err = filetree.Init("/vol", []byte("pw"), s.workers, remote{v.FS, &errs})
		}
		if err != nil {
			vsched.Fail("Init: %v", err)
		}
	})
	vsched.Quiesce()
	all := [][]fop{s.pre}
	res := [][]fres{make([]fres, len(s.pre))}
	vsched.Quiet(func() {
		for i, o := range s.pre {
			res[0][i] = doF(ft, o)
		}
	})
	vsched.Quiesce()
	errs = s.errs
	early := vsched.EarlyTimers()
	for i := range s.clients {
		i := i
		all = append(all, s.clients[i])
		r := make([]fres, len(s.clients[i]))
		res = append(res, r)
		vsched.GoNamed(fmt.Sprintf("client%d", i), func() {
			for j, o := range s.clients[i] {
				r[j] = doF(ft, o)
			}
		})
	}
	vsched.Join()
	errs = false
	disturbed := s.errs || vsched.EarlyTimers() > early
	// later operations must not disturb what was handed out
	var fin []fres
	last := append(append([]fop{}, all[0]...), all[1]...)
	vsched.Quiet(func() {
		for _, o := range last {
			fin = append(fin, doF(ft, o))
		}
	})
	all = append(all, last)
	res = append(res, fin)
	ok := 0
	for i := range all {
		for j, o := range all[i] {
			w, g := want(v, o), res[i][j]
			if disturbed && g.out == "error" && i > 0 && i < len(all)-1 {
				continue // what could not be obtained is an error, never a partial answer
			}
			if w.out != g.out || !bytes.Equal(w.data, g.data) {
				vsched.Fail("%c %s by client %d gave %s (%d bytes), alone it gives %s (%d bytes)", o.k, o.p, i-1, g.out, len(g.data), w.out, len(w.data))
			}
			if g.r != nil { // the file is still open: it still reads the same
				if b, err := chunks(g.r, 7000); err != nil || !bytes.Equal(b, w.data) {
					vsched.Fail("the file %s opened by client %d later reads differently (%v, %d bytes), alone it gives %d bytes", o.p, i-1, err, len(b), len(w.data))
				}
			}
			ok++
		}
	}
	vsched.SetOutcome(fmt.Sprint(ok, " results"))
}

func c11() []drv.Scn {
	L := func(l ...[]fop) [][]fop { return l }
	one := func(l ...string) (r []fop) {
		for _, s := range l {
			r = append(r, fop{s[0], s[1:]})
		}
		return
	}
	warm := one("L/", "L/d", "L/e")
	var many []fop
	for i := 0; i < 17; i++ {
		many = append(many, fop{'L', fmt.Sprintf("/many/x%02d", i)})
	}
	ss := []fscn{
		{name: "2 readers of different files, warm", workers: 1, pre: warm, clients: L(one("R/f"), one("R/d/g")), P: 3, PT: 4, R: 1, RT: 2, shards: 4},
		{name: "2 readers of different files, AES-SIV, warm", workers: 1, siv: true, pre: warm, clients: L(one("R/f"), one("R/d/h")), P: 2, PT: 3, R: 1, RT: 2},
		{name: "2 readers of cached files", workers: 1, pre: append(one("R/f", "R/d/g"), warm...), clients: L(one("R/f"), one("R/d/g")), P: 3, PT: 4, R: 1, RT: 2, shards: 4},
		{name: "3 readers of cached files", workers: 2, pre: append(one("R/f", "R/d/g", "R/d/h"), warm...), clients: L(one("R/f"), one("R/d/g"), one("R/d/h")), P: 2, PT: 3, R: 1, RT: 2, shards: 4},
		{name: "reader of a large and of a small file", workers: 1, pre: append(one("R/d/l", "R/d/g"), warm...), clients: L(one("R/d/l", "R/d/g"), one("R/d/g", "R/d/l")), P: 1, PT: 2, R: -1, RT: 1, shards: 4},
		{name: "reader and lister of one directory", workers: 2, pre: one("L/"), clients: L(one("R/d/h"), one("L/d")), P: 2, PT: 3, R: 1, RT: 2, shards: 4},
		{name: "2 stats of a file and its directory", workers: 2, pre: one("L/"), clients: L(one("S/d/g"), one("S/d")), P: 2, PT: 3, R: 1, RT: 2, shards: 4},
		{name: "2 cold listings of the root", workers: 2, clients: L(one("L/"), one("L/")), P: 2, PT: 3, R: 1, RT: 1, shards: 4},
		{name: "2 cold reads of one file", workers: 2, clients: L(one("R/d/g"), one("R/d/g")), P: 1, PT: 2, R: -1, RT: 1, shards: 4},
		{name: "missing, wrong kind and empty", workers: 1, pre: warm, clients: L(one("R/d", "R/e/i"), one("L/f", "S/nope")), P: 2, PT: 3, R: 1, RT: 1, shards: 2},
		{name: "lookups of evicted directories", workers: 1, pre: many, clients: L(one("R/many/x00/y", "S/many/x02"), one("R/many/x17/y", "L/many/x01")), P: 1, PT: 2, R: -1, RT: 1, shards: 4},
	}
	// the same through the SFTP handlers
	ss = append(ss, []fscn{
		{name: "handlers: 2 readers of different files", workers: 1, pre: warm, clients: L(one("R/f", "R/f"), one("R/d/g")), P: 2, PT: 3, R: 1, RT: 2, shards: 4},
		{name: "handlers: 2 readers of a cached file and another", workers: 1, pre: append(one("R/f", "R/d/g"), warm...), clients: L(one("R/f", "R/d/g"), one("R/d/g", "R/f")), P: 2, PT: 3, R: 1, RT: 2, shards: 4},
		{name: "handlers: 3 readers of cached files", workers: 2, pre: append(one("R/f", "R/d/g", "R/d/h"), warm...), clients: L(one("R/f"), one("R/d/g"), one("R/d/h")), P: 2, PT: 3, R: 1, RT: 2, shards: 4},
		{name: "handlers: 2 listers of different directories", workers: 2, pre: warm, clients: L(one("L/d", "L/e"), one("L/e", "L/d")), P: 2, PT: 3, R: 1, RT: 2, shards: 4},
		{name: "handlers: 2 stats of different files", workers: 2, pre: warm, clients: L(one("S/d/g", "S/f"), one("S/f", "S/d/h")), P: 2, PT: 3, R: 1, RT: 2, shards: 4},
		{name: "handlers: reader, lister and stat of one directory", workers: 2, pre: one("L/"), clients: L(one("R/d/h"), one("L/d"), one("S/d/g")), P: 1, PT: 2, R: 1, RT: 1, shards: 4},
		{name: "handlers: reader and failing requests", workers: 1, pre: warm, clients: L(one("R/f", "R/d"), one("L/f", "S/nope", "R/nope"), one("L/d")), P: 1, PT: 2, R: 1, RT: 1, shards: 4},
	}...)
	for i := range ss {
		ss[i].hand = ss[i].hand || strings.HasPrefix(ss[i].name, "handlers: ")
	}
	var r []drv.Scn
	for _, s := range ss {
		s := s
		r = append(r, drv.Scn{Name: s.name, Body: s.body, Delay: true, PQ: s.P, PT: s.PT, RQ: s.R, RT: s.RT, Shards: s.shards})
	}
	return r
}

// c03: listings while requests time out and remote accesses fail
func c03() []drv.Scn {
	L := func(l ...[]fop) [][]fop { return l }
	one := func(l ...string) (r []fop) {
		for _, s := range l {
			r = append(r, fop{s[0], s[1:]})
		}
		return
	}
	root := one("L/")
	ss := []fscn{
		{name: "listing with timeouts", workers: 1, pre: root, clients: L(one("L/e")), timers: true, F: 2, P: 1, PT: 2, shards: 4},
		{name: "longer listing with timeouts", workers: 1, pre: root, clients: L(one("L/d")), timers: true, F: 1, P: 1, PT: 2, shards: 4},
		{name: "cold listing with timeouts", workers: 1, clients: L(one("L/e", "L/e")), timers: true, F: 1, P: 0, PT: 1, shards: 4},
		{name: "2 listings with timeouts, 1 worker", workers: 1, pre: root, clients: L(one("L/e"), one("L/e")), timers: true, F: 1, P: 1, PT: 2, shards: 8},
		{name: "listing and read with timeouts, 2 workers", workers: 2, pre: root, clients: L(one("L/e"), one("R/f")), timers: true, F: 1, P: 1, PT: 2, shards: 8},
		{name: "2 listings with remote failures", workers: 1, pre: root, clients: L(one("L/d"), one("L/d")), errs: true, F: 2, P: 1, PT: 2, shards: 8},
		{name: "2 cold listings with remote failures, 2 workers", workers: 2, clients: L(one("L/d"), one("L/e")), errs: true, F: 1, P: 1, PT: 2, shards: 8},
		{name: "timeouts and remote failures", workers: 1, pre: root, clients: L(one("L/e"), one("L/e")), errs: true, timers: true, F: 2, P: 0, PT: 1, shards: 8},
	}
	var r []drv.Scn
	for _, s := range ss {
		s := s
		r = append(r, drv.Scn{Name: s.name, Body: s.body, Delay: true, Timers: s.timers, F: s.F, PQ: s.P, PT: s.PT, RQ: -1, RT: -1, Shards: s.shards, Horizon: 5000})
	}
	return r
}

func main() {
	as := []string{"source rewriter and scheduler models of sync, channels, timers and pools are faithful"}
	drv.Main([]drv.Check{{Prop: "C06", Scns: c06, Assume: as}, {Prop: "C11", Scns: c11, Assume: as}, {Prop: "C03", Scns: c03, Assume: as}})
}
