// Command esftp decides C18 and C19: the SFTP view, at the level of protocol packets.
package main

import (
	"bytes"
	"fmt"
	"hash/fnv"
	"net"
	"os"
	"path"
	"sort"
	"strings"

	"github.com/flawedmatrix/gocryptsftp/gocrypt/tlog"
	"github.com/flawedmatrix/gocryptsftp/handlers"
	"github.com/pkg/sftp"

	"verif/e2"
	"verif/menu"
	"verif/ref"
	"verif/wire"
)

const pass = "pw"

var kcache [8]*ref.Keys

func keys(v int) *ref.Keys {
	if kcache[v] == nil {
		kcache[v] = ref.NewKeys(ref.Content(32, 7), v&1 == 0, v&2 == 0, v&4 != 0)
	}
	return kcache[v]
}

func build(v int, spec ref.Spec) *ref.Volume { return ref.Build(keys(v), "/vol", pass, spec) }

func serve(t *e2.T, v *ref.Volume, workers int) *sftp.Handlers {
	h, err := handlers.DecryptHandler(v.FS.Root, []byte(pass), workers, v.FS)
	t.Step()
	if err != nil {
		t.Failf("the volume does not open: %v", err)
		return nil
	}
	return &h
}

// session opens an SFTP session.
func session(t *e2.T, h *sftp.Handlers) *wire.Client {
	a, b := net.Pipe()
	srv := sftp.NewRequestServer(b, *h)
	go func() {
		_ = srv.Serve()
		b.Close()
	}()
	c := wire.NewClient(a)
	if err := c.Hello(); err != nil {
		t.Failf("no session: %v", err)
		return nil
	}
	return c
}

// sum fingerprints the remote tree.
func sum(n *ref.Node) uint64 {
	h := fnv.New64a()
	var rec func(n *ref.Node)
	rec = func(n *ref.Node) {
		fmt.Fprintf(h, "%q %d %v %v %x|", n.N, n.S, n.M, n.T, n.Data)
		for _, k := range n.Kids {
			rec(k)
		}
		fmt.Fprint(h, "^")
	}
	rec(n)
	return h.Sum64()
}

// ---- C18 -------------------------------------------------------------------------------------

var spec18 = ref.Spec{"/f": ref.Content(5000, 3), "/empty": {}, "/d/g": []byte("gg"), "/d/e/": nil}

// intact checks that the remote was only read and that the view is unchanged.
func intact(t *e2.T, v *ref.Volume, before uint64, c *wire.Client, where string) {
	if sum(v.FS.Top) != before {
		t.Failf("%sthe remote changed", where)
	}
	for _, l := range v.FS.TakeLog() {
		if !strings.HasPrefix(l, "ReadFile ") && !strings.HasPrefix(l, "ReadDir ") && !strings.HasPrefix(l, "Stat ") {
			t.Failf("%sthe remote was asked to %s", where, l)
		}
	}
	if c == nil {
		return
	}
	b, err := c.ReadAll("/f")
	if err != nil || !bytes.Equal(b, spec18["/f"]) {
		t.Failf("%safterwards /f reads as %d bytes, %v", where, len(b), err)
	}
	var names []string
	for _, d := range []string{"/", "/d", "/d/e"} {
		l, err := c.List(d)
		if err != nil {
			t.Failf("%safterwards %s cannot be listed: %v", where, d, err)
			return
		}
		for _, e := range l {
			names = append(names, path.Join(d, e.Name))
		}
	}
	sort.Strings(names)
	if s := strings.Join(names, " "); s != "/d /d/e /d/g /empty /f" {
		t.Failf("%safterwards the view is %q", where, s)
	}
	t.Steps(8)
}

// single: every changing request for every target, in a session with open handles
func single(i int, t *e2.T) {
	p := menu.Targets[i/2]
	v := build(i%8, spec18)
	v.FS.Keep = true
	h := serve(t, v, 2)
	if h == nil {
		return
	}
	before := sum(v.FS.Top)
	c := session(t, h)
	if c == nil {
		return
	}
	hs := menu.HandlesFor(t, c)
	ms := menu.Muts(p, menu.Targets)
	for k, m := range ms {
		if k%2 != i%2 {
			continue
		}
		if t.Failed() {
			return
		}
		r := c.Do(m.Typ, m.Body(hs))
		t.Step()
		menu.Refused(t, "", m, r)
		t.State(p, m.Name, r.Type, r.Code)
		if r.Err != nil { // the session ended: that is no success either
			if m.Path {
				t.Failf("%s ends the session: %v", m.Name, r)
				return
			}
			c.C.Close()
			if c = session(t, h); c == nil {
				return
			}
			hs = menu.HandlesFor(t, c)
		}
		if k%16 == 0 {
			intact(t, v, before, c, "after "+m.Name+": ")
		}
	}
	intact(t, v, before, c, fmt.Sprintf("after all requests for %s: ", wire.Quote(p)))
	c.C.Close()
	t.Sample("%d changing requests for %s", len(ms), wire.Quote(p))
}

// the menu of request sequences
func menu18() []menu.Mut {
	as := menu.Attrs()
	f := func(n string, t byte, mutate bool, b ...[]byte) menu.Mut {
		c := wire.Cat(b...)
		return menu.Mut{n, t, func(map[string]string) []byte { return c }, true, mutate}
	}
	hn := func(n string, t byte, mutate bool, h string, b ...[]byte) menu.Mut {
		c := wire.Cat(b...)
		return menu.Mut{n, t, func(m map[string]string) []byte { return append(wire.Str(m[h]), c...) }, false, mutate}
	}
	return []menu.Mut{
		f("open /f for writing", wire.Open, true, wire.Str("/f"), wire.U32(wire.FWrite), as["none"]),
		f("open /f read-write", wire.Open, true, wire.Str("/f"), wire.U32(wire.FRead|wire.FWrite), as["none"]),
		f("open /f for appending", wire.Open, true, wire.Str("/f"), wire.U32(wire.FAppend), as["none"]),
		f("open /f truncating", wire.Open, true, wire.Str("/f"), wire.U32(wire.FRead|wire.FTrunc), as["none"]),
		f("create /n", wire.Open, true, wire.Str("/n"), wire.U32(wire.FCreat|wire.FWrite|wire.FExcl), as["none"]),
		f("open /f for reading", wire.Open, false, wire.Str("/f"), wire.U32(wire.FRead), as["none"]),
		f("setstat /f", wire.Setstat, true, wire.Str("/f"), as["all"]),
		f("remove /f", wire.Remove, true, wire.Str("/f")),
		f("rename /f /d/f", wire.Rename, true, wire.Str("/f"), wire.Str("/d/f")),
		f("rename /d /d2", wire.Rename, true, wire.Str("/d"), wire.Str("/d2")),
		f("mkdir /n", wire.Mkdir, true, wire.Str("/n"), as["none"]),
		f("rmdir /d/e", wire.Rmdir, true, wire.Str("/d/e")),
		f("symlink /s", wire.Symlink, true, wire.Str("/f"), wire.Str("/s")),
		f("stat /f", wire.Stat, false, wire.Str("/f")),
		f("opendir /d", wire.Opendir, false, wire.Str("/d")),
		hn("write to the file handle", wire.Write, true, "read", wire.U64(0), wire.Str("xxxx")),
		hn("read the file handle", wire.Read, false, "read", wire.U64(0), wire.U32(10)),
		hn("fsetstat the file handle", wire.Fsetstat, true, "read", as["size"]),
		hn("write to the directory handle", wire.Write, true, "dir", wire.U64(0), wire.Str("xxxx")),
		hn("fsetstat the directory handle", wire.Fsetstat, true, "dir", as["all"]),
		hn("read the directory handle", wire.Readdir, false, "dir"),
		hn("close the file handle", wire.Close, false, "read"),
	}
}

// sequences: all sequences of two (thorough three) requests, one after the other and at once
func sequences(i int, t *e2.T) {
	ms := menu18()
	v := build(i%8, spec18)
	v.FS.Keep = true
	h := serve(t, v, 2)
	if h == nil {
		return
	}
	before := sum(v.FS.Top)
	third := []int{-1}
	if t.Tier == "thorough" {
		for k := range ms {
			third = append(third, k)
		}
	}
	for _, par := range []bool{false, true} {
		for j := range ms {
			for _, k := range third {
				seq := []menu.Mut{ms[i], ms[j]}
				if k >= 0 {
					seq = append(seq, ms[k])
				}
				c := session(t, h)
				if c == nil {
					return
				}
				hs := menu.HandlesFor(t, c)
				where := ""
				var ids []uint32
				for _, m := range seq {
					id := c.Send(m.Typ, m.Body(hs))
					t.Step()
					if par {
						ids = append(ids, id)
						continue
					}
					menu.Refused(t, where, m, c.Get(id))
					where += m.Name + ", then "
				}
				for n, id := range ids {
					menu.Refused(t, "requests sent at once: ", seq[n], c.Get(id))
				}
				intact(t, v, before, c, where)
				c.C.Close()
				t.State(i, j, k, par)
				if t.Failed() {
					return
				}
			}
		}
	}
	t.Sample("all request sequences starting with %s", ms[i].Name)
}

// ---- C19 -------------------------------------------------------------------------------------

func counts(tier string) []int {
	l := []int{0, 1, 2, 3, 9, 50, 97, 98, 99, 100, 101, 102, 103, 150, 198, 199, 200, 201, 202, 203, 299, 300, 301, 400, 500, 999, 1000, 1001, 4097, 10001, 33000}
	if tier == "thorough" {
		l = nil
		for i := 0; i <= 420; i++ {
			l = append(l, i)
		}
		l = append(l, 1000, 2500, 5000, 33000, 70000)
	}
	return l
}

func paging(i int, t *e2.T) {
	n := counts(t.Tier)[i]
	v := build(i%8, ref.Spec{})
	d := v.Sub(v.FS.Top, "many")
	for j := 0; j < n; j++ {
		if j%10 == 9 {
			v.Sub(d, fmt.Sprint("dir", j))
		} else {
			v.AddFile(d, fmt.Sprint("file", j), ref.Content(j%50, j))
		}
		if i%3 == 1 && j%7 == 0 {
			v.AddRaw(d, fmt.Sprint("junk!", j), []byte("x"))
		}
	}
	h := serve(t, v, 1+i%3)
	if h == nil {
		return
	}
	c := session(t, h)
	if c == nil {
		return
	}
	defer c.C.Close()
	for round := 0; round < 2; round++ {
		l, err := c.List("/many")
		t.Steps(2 + n/100)
		if err != nil {
			t.Failf("directory of %d entries: %v", n, err)
			return
		}
		if !menu.CheckList(t, fmt.Sprintf("directory of %d entries: ", n), d, l) {
			return
		}
	}
	// two handles on the directory, read alternately; then past the end
	a, b := c.Do(wire.Opendir, wire.Str("/many")), c.Do(wire.Opendir, wire.Str("/many/"))
	if a.Type != wire.Handle || b.Type != wire.Handle || a.Handle == b.Handle {
		t.Failf("two opendir: %v, %v", a, b)
		return
	}
	var la, lb []wire.Entry
	ea, eb := 0, 0
	for k := 0; (ea < 3 || eb < 3) && k < 10000; k++ {
		hd, l, e := a.Handle, &la, &ea
		if k%2 == 1 {
			hd, l, e = b.Handle, &lb, &eb
		}
		r := c.Do(wire.Readdir, wire.Str(hd))
		t.Step()
		switch {
		case r.IsEOF():
			*e++
		case r.Type == wire.Name && r.Err == nil && *e == 0 && len(r.Names) > 0:
			*l = append(*l, r.Names...)
		default:
			t.Failf("directory of %d entries: %v after %d entries and %d ends", n, r, len(*l), *e)
			return
		}
	}
	menu.CheckList(t, fmt.Sprintf("directory of %d entries, two handles: ", n), d, la)
	menu.CheckList(t, fmt.Sprintf("directory of %d entries, two handles: ", n), d, lb)
	t.State(n)
	t.Sample("directory of %d entries", n)
}

// manyHandles: many files and directories are open at the same time.
func manyHandles(i int, t *e2.T) {
	n := []int{10, 100, 260, 1100, 3000}[i/2%4]
	if i/2 == 3 {
		n = 3000
	}
	v := build(i%8, ref.Spec{"/d/x": []byte("x"), "/d/y/": nil})
	for j := 0; j < 30; j++ {
		v.AddFile(v.FS.Top, fmt.Sprint("f", j), ref.Content(100*j, j))
	}
	h := serve(t, v, 2)
	if h == nil {
		return
	}
	c := session(t, h)
	if c == nil {
		return
	}
	defer c.C.Close()
	dir := i%2 == 1
	seen := map[string]bool{}
	var hs []string
	for j := 0; j < n; j++ {
		r := c.Do(wire.Open, wire.Str(fmt.Sprint("/f", j%30)), wire.U32(wire.FRead), wire.U32(0))
		if dir && j%2 == 1 {
			r = c.Do(wire.Opendir, wire.Str("/d"))
		}
		t.Step()
		if r.Type != wire.Handle || seen[r.Handle] {
			t.Failf("opening number %d, all others still open: %v", j+1, r)
			return
		}
		seen[r.Handle] = true
		hs = append(hs, r.Handle)
	}
	for j, hd := range hs {
		t.Step()
		if dir && j%2 == 1 {
			if r := c.Do(wire.Readdir, wire.Str(hd)); r.Type != wire.Name || r.Err != nil || len(r.Names) != 2 {
				t.Failf("directory %d of %d open ones: %v", j+1, n, r)
				return
			}
			continue
		}
		r := c.Do(wire.Read, wire.Str(hd), wire.U64(0), wire.U32(4000))
		menu.CheckRange(t, ref.Content(100*(j%30), j%30), 0, 4000, r)
		if t.Failed() {
			return
		}
	}
	for j, hd := range hs {
		if r := c.Do(wire.Close, wire.Str(hd)); !r.Success() {
			t.Failf("closing handle %d of %d: %v", j+1, n, r)
			return
		}
	}
	t.State(i)
}

// pages: the SFTP library asks for pages of every size, also changing ones.
func pages(i int, t *e2.T) {
	defer func(k int64) { sftp.MaxFilelist = k }(sftp.MaxFilelist)
	v := build(i%8, ref.Spec{})
	d := v.Sub(v.FS.Top, "many")
	for j := 0; j < i; j++ {
		if j%3 == 2 {
			v.Sub(d, fmt.Sprint("dir", j))
		} else {
			v.AddFile(d, fmt.Sprint("file", j), ref.Content(j, j))
		}
	}
	h := serve(t, v, 2)
	if h == nil {
		return
	}
	c := session(t, h)
	if c == nil {
		return
	}
	defer c.C.Close()
	k := 3
	if t.Tier == "thorough" {
		k = 5
	}
	seqs := 1
	for j := 0; j < k; j++ {
		seqs *= 5
	}
	for q := 0; q < seqs; q++ {
		var sizes []int64
		for j, r := 0, q; j < k; j, r = j+1, r/5 {
			sizes = append(sizes, int64(1+r%5))
		}
		o := c.Do(wire.Opendir, wire.Str("/many"))
		if o.Type != wire.Handle {
			t.Failf("opendir: %v", o)
			return
		}
		var l []wire.Entry
		for j, ends := 0, 0; ends < 2; j++ {
			sftp.MaxFilelist = sizes[j%k]
			r := c.Do(wire.Readdir, wire.Str(o.Handle))
			t.Step()
			switch {
			case r.IsEOF():
				ends++
			case r.Type == wire.Name && r.Err == nil && ends == 0 && len(r.Names) > 0 && j < 50:
				l = append(l, r.Names...)
			default:
				t.Failf("directory of %d entries in pages of %v: %v after %d entries and %d ends", i, sizes, r, len(l), ends)
				return
			}
		}
		c.Do(wire.Close, wire.Str(o.Handle))
		t.State(i, fmt.Sprint(sizes))
		if !menu.CheckList(t, fmt.Sprintf("directory of %d entries in pages of %v: ", i, sizes), d, l) {
			return
		}
	}
}

var rangeSizes = []int{0, 1, 2, 4095, 4096, 4097, 8192, 12288 + 17, 32767, 32768, 32769, 40000, 65536 + 5, 135168, 200000}

// ranges: all offsets and lengths around boundaries
func ranges(i int, t *e2.T) {
	n := rangeSizes[i/2]
	data := ref.Content(n, n)
	v := build(i%8, ref.Spec{"/f": data, "/g": []byte("other")})
	h := serve(t, v, 2)
	if h == nil {
		return
	}
	c := session(t, h)
	if c == nil {
		return
	}
	defer c.C.Close()
	r := c.Do(wire.Open, wire.Str("/f"), wire.U32(wire.FRead), wire.U32(0))
	if r.Type != wire.Handle {
		t.Failf("open a file of %d bytes: %v", n, r)
		return
	}
	hd := r.Handle
	om := map[uint64]bool{}
	for _, b := range []int{0, 1, 4096, 8192, 32768, 65536, n / 2, n} {
		for _, d := range []int{-2, -1, 0, 1, 2, 17} {
			if b+d >= 0 {
				om[uint64(b+d)] = true
			}
		}
	}
	for _, o := range []uint64{1 << 31, 1<<32 - 1, 1 << 32, 1<<32 + 1, 1<<62 + 1, 1<<63 - 1, 1 << 63, 1<<64 - 1} {
		om[o] = true
	}
	var offs []uint64
	for o := range om {
		offs = append(offs, o)
	}
	sort.Slice(offs, func(a, b int) bool { return offs[a] < offs[b] })
	lens := []uint32{0, 1, 2, 100, 4095, 4096, 4097, 8192, 32767, 32768, 32769, 65536, 1 << 20, 1<<32 - 1}
	type q struct {
		o  uint64
		l  uint32
		id uint32
	}
	var pend []q
	flush := func() {
		for _, x := range pend {
			r := c.Get(x.id)
			t.Step()
			menu.CheckRange(t, data, x.o, x.l, r)
			t.State(n, x.o, x.l)
		}
		pend = nil
	}
	for _, o := range offs {
		for _, l := range lens {
			pend = append(pend, q{o, l, c.Send(wire.Read, wire.Str(hd), wire.U64(o), wire.U32(l))})
			if i%2 == 0 || len(pend) >= 20 { // one by one, or many at once
				flush()
			}
			if t.Failed() {
				return
			}
		}
	}
	flush()
	if r := c.Do(wire.Fstat, wire.Str(hd)); r.Type != wire.Attrs || menu.AttrText(r.A, true) != menu.WantAttr(v.Resolve("/f")) {
		t.Failf("fstat of a file of %d bytes: %v", n, r)
	}
	if r := c.Do(wire.Close, wire.Str(hd)); !r.Success() {
		t.Failf("close: %v", r)
	}
	if r := c.Do(wire.Read, wire.Str(hd), wire.U64(0), wire.U32(1)); !r.Failed() {
		t.Failf("read after close: %v", r)
	}
	t.Sample("file of %d bytes: %d offsets x %d lengths", n, len(offs), len(lens))
}

// interleavings: two scripts over one session, merged in every way
func interleavings(i int, t *e2.T) { interleave(i, 6, false, t) }

var specScripts = ref.Spec{"/a": ref.Content(9000, 1), "/b": ref.Content(5000, 2), "/d/x": []byte("x"), "/d/y": []byte("yy"), "/g/u": []byte("u"), "/g/v": []byte("vv"), "/e/": nil}

func interleave(i, ns int, two bool, t *e2.T) {
	v := build(i%8, specScripts)
	h := serve(t, v, 2)
	if h == nil {
		return
	}
	menu.Interleave(t, i, ns, two, v, menu.Paths{A: "/a", B: "/b", D: "/d", G: "/g", E: "/e"}, func(int) *wire.Client { return session(t, h) })
}

// smallPages: the same with one entry per page
func smallPages(i int, t *e2.T) {
	defer func(k int64) { sftp.MaxFilelist = k }(sftp.MaxFilelist)
	sftp.MaxFilelist = 1
	interleave(i/2, 5, i%2 == 1, t)
}

// kinds: every path request for every kind of object
func kinds(i int, t *e2.T) {
	v := build(i, ref.Spec{"/f": ref.Content(5000, 1), "/empty": {}, "/d/g": []byte("gg"), "/d/e/f": []byte("x"), "/d/e/z/": nil, "/gocryptfs.conf": []byte("mine"), "/a b": []byte("sp")})
	v.FS.Top.Kid(v.Name("f", v.FS.Top.IV)).M = 0600
	h := serve(t, v, 1+i%3)
	if h == nil {
		return
	}
	c := session(t, h)
	if c == nil {
		return
	}
	defer c.C.Close()
	ps := []string{"/", "", ".", "/f", "f", "//f", "/./f", "/d/../f", "/../f", "/f/", "/d", "/d/", "/d/g", "/d/e", "/d/e/f", "/d/e/z", "/missing", "/d/missing", "/f/x", "/missing/x", "/empty", "/gocryptfs.conf", "/gocryptfs.diriv", "/d/gocryptfs.diriv", "/a b", "/F", "/..", "/d/e/../../f", "/\x00", "/d\x00", "/" + strings.Repeat("n", 300), "/" + strings.Repeat("a/", 200) + "x", "/" + v.FS.Top.Kids[1].N}
	for round := 0; round < 2; round++ {
		for _, p := range ps {
			n := v.Resolve(path.Clean("/" + p))
			w := fmt.Sprintf("%s: ", wire.Quote(p))
			for _, st := range []byte{wire.Stat, wire.Lstat} {
				r := c.Do(st, wire.Str(p))
				t.Step()
				if n == nil && !r.Failed() {
					t.Failf("%sstat of nothing gives %v", w, r)
				}
				if n != nil && (r.Type != wire.Attrs || r.Err != nil || menu.AttrText(r.A, n.M.IsRegular()) != menu.WantAttr(n)) {
					t.Failf("%sstat gives %v instead of %s", w, r, menu.WantAttr(n))
				}
			}
			r := c.Do(wire.Open, wire.Str(p), wire.U32(wire.FRead), wire.U32(0))
			t.Step()
			if n == nil || n.IsDir() {
				if !r.Failed() {
					t.Failf("%sopening it for reading gives %v", w, r)
				}
			} else if r.Type != wire.Handle || r.Err != nil {
				t.Failf("%sopen gives %v", w, r)
			} else {
				menu.CheckRange(t, n.PData, 0, 32768, c.Do(wire.Read, wire.Str(r.Handle), wire.U64(0), wire.U32(32768)))
				if x := c.Do(wire.Close, wire.Str(r.Handle)); !x.Success() {
					t.Failf("%sclose gives %v", w, x)
				}
			}
			l, err := c.List(p)
			t.Step()
			if n == nil || !n.IsDir() {
				if err == nil {
					t.Failf("%slisting it gives %d entries", w, len(l))
				}
			} else if err != nil {
				t.Failf("%s%v", w, err)
			} else {
				menu.CheckList(t, w, n, l)
			}
			if r := c.Do(wire.Readlnk, wire.Str(p)); !r.Failed() {
				t.Failf("%sreadlink gives %v", w, r)
			}
			r = c.Do(wire.Realpath, wire.Str(p))
			t.Step()
			if want := path.Clean("/" + p); r.Type != wire.Name || len(r.Names) != 1 || r.Names[0].Name != want {
				t.Failf("%srealpath gives %v instead of %q", w, r, want)
			}
			t.State(p)
			if t.Failed() {
				return
			}
		}
	}
	for _, hd := range []string{"", "x", "-1", "00", "999999", strings.Repeat("9", 300)} {
		for _, r := range []wire.Reply{c.Do(wire.Read, wire.Str(hd), wire.U64(0), wire.U32(1)), c.Do(wire.Readdir, wire.Str(hd)), c.Do(wire.Fstat, wire.Str(hd)), c.Do(wire.Close, wire.Str(hd))} {
			t.Step()
			if !r.Failed() {
				t.Failf("request on the handle %q that was not given out: %v", hd, r)
			}
		}
	}
}

// faults: remote failures become error replies, never wrong data, and do not stick
func faults(i int, t *e2.T) {
	spec := ref.Spec{"/d/f": ref.Content(5000, 1), "/d/g": []byte("gg")}
	v := build(i%8, spec)
	for f1 := 0; f1 < 12; f1++ {
		v.FS.Hook = nil
		h := serve(t, v, 2)
		if h == nil {
			return
		}
		c := session(t, h)
		if c == nil {
			return
		}
		n := 0
		v.FS.Hook = func(op, p string) error {
			n++
			if n-1 == f1 {
				switch i / 8 {
				case 0:
					return ref.Partial{Err: os.ErrPermission}
				case 1:
					return os.ErrNotExist
				default:
					return fmt.Errorf("remote failure")
				}
			}
			return nil
		}
		for k := 0; k < 3; k++ {
			if b, err := c.ReadAll("/d/f"); err == nil && !bytes.Equal(b, spec["/d/f"]) {
				t.Failf("remote access %d fails: /d/f reads as %d wrong bytes", f1, len(b))
			}
			if l, err := c.List("/d"); err == nil {
				menu.CheckList(t, fmt.Sprintf("remote access %d fails: ", f1), v.Resolve("/d"), l)
			}
			t.Steps(2)
		}
		v.FS.Hook = nil
		if b, err := c.ReadAll("/d/f"); err != nil || !bytes.Equal(b, spec["/d/f"]) {
			t.Failf("after a failure of remote access %d: /d/f reads as %d bytes, %v", f1, len(b), err)
		}
		if l, err := c.List("/d"); err != nil {
			t.Failf("after a failure of remote access %d: %v", f1, err)
		} else {
			menu.CheckList(t, "after a failure: ", v.Resolve("/d"), l)
		}
		c.C.Close()
		t.State(i, f1)
	}
}

func n(k int) func(string) int { return func(string) int { return k } }

func init() { tlog.Warn.Enabled = false }

func main() {
	e2.Main([]e2.Check{
		{Prop: "C18", Groups: []e2.Group{
			{Name: "single requests", Bounds: "15 targets x every changing request (all 120 flag combinations of OPEN that are not read-only, SETSTAT/MKDIR with 6 attribute sets, REMOVE, RMDIR, RENAME and SYMLINK to 15 others, EXTENDED, WRITE and FSETSTAT on open, closed and bogus handles)", N: n(2 * len(menu.Targets)), Run: single},
			{Name: "sequences", Bounds: "all sequences of 2 (thorough 3) requests over a menu of 22 changing and reading requests, one by one and pipelined", N: n(len(menu18())), Run: sequences},
		}, Assume: []string{"the end of a session counts as a refusal for extended requests"}},
		{Prop: "C19", Groups: []e2.Group{
			{Name: "paging", Bounds: "31 directory sizes from 0 to 33000 (thorough: all to 420 and to 70000), two alternating handles, reading past the end", N: func(tier string) int { return len(counts(tier)) }, Run: paging},
			{Name: "page sizes", Bounds: "directories of 0 to 12 entries (thorough 24), all sequences of 3 (thorough 5) page sizes from 1 to 5", N: func(tier string) int {
				if tier == "thorough" {
					return 25
				}
				return 13
			}, Run: pages},
			{Name: "many handles", Bounds: "up to 3000 files or directories open at the same time in one session, each read afterwards", N: n(8), Run: manyHandles},
			{Name: "ranges", Bounds: "15 file sizes x about 50 offsets x 14 lengths, one by one and pipelined", N: n(2 * len(rangeSizes)), Run: ranges},
			{Name: "interleavings", Bounds: "36 pairs of 5-step scripts over one session, all 252 interleavings each", N: n(36), Run: interleavings},
			{Name: "interleavings, small pages", Bounds: "25 pairs of 5-step scripts with one directory entry per page, over one session and over two, all 252 interleavings each", N: n(50), Run: smallPages},
			{Name: "kinds", Bounds: "33 paths of every kind x 7 requests x 8 variants, unknown handles", N: n(8), Run: kinds},
			{Name: "remote failures", Bounds: "each of the first 12 remote accesses failing in 3 ways", N: n(24), Run: faults},
		}, Assume: []string{"one reply may carry at most 32 KiB, as usual in SFTP", "requests of the wrong kind on an open handle are left to the SFTP library"}},
	})
}
