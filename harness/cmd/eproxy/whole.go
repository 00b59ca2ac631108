package main

import (
	"bytes"
	"fmt"
	"os"
	"path"
	"sort"
	"strings"
	"time"

	"golang.org/x/crypto/ssh"

	"verif/e2"
	"verif/menu"
	"verif/ref"
	"verif/remote"
	"verif/wire"
)

// What the file tree promises, through the whole program: SFTP sessions of clients in front, a real
// SFTP remote behind.

// onVolume starts the program on a volume and opens sessions for f.
func onVolume(t *e2.T, v *ref.Volume, f func(p *proxy, s *remote.Server, open func() *wire.Client)) {
	if cur != nil {
		cur.end()
	}
	s := remoteOf(v)
	defer s.Stop()
	p := start(t, defConf(s))
	if p == nil {
		return
	}
	defer p.stop()
	c, err := dial(defaultUser, ssh.Password(defPw))
	if err != nil {
		t.Failf("no login: %v", err)
		return
	}
	defer c.Close()
	f(p, s, func() *wire.Client {
		w, err := session(c)
		if err != nil {
			t.Failf("no session: %v", err)
			return nil
		}
		return w
	})
	if !p.running() {
		t.Failf("the proxy has ended: %s", p.text())
	}
}

func variant(i int) *ref.Keys {
	return ref.NewKeys(ref.Content(32, 40+i), i&1 == 0, i&2 == 0, i&4 != 0)
}

var largeFiles = []int{1 << 20, 3<<20 + 1, 5<<20 - 1, 9 << 20, 12<<20 + 4095, 17 << 20, 20<<20 + 1, 33 << 20}

// wholeFiles: files of many sizes, read completely, in two sessions and two orders
func wholeFiles(i int, t *e2.T) {
	v := ref.Build(variant(i), "/vol", volPass, ref.Spec{})
	var sizes []int
	for _, b := range []int{0, 4096, 8192, 32768, 65536, 131072, 135168, 262144} {
		for d := -2; d <= 2; d++ {
			if b+d >= 0 {
				sizes = append(sizes, b+d)
			}
		}
	}
	sizes = append(sizes, 17, 100, 1000, 5000, 50000, largeFiles[i])
	if t.Tier == "thorough" {
		for k := 0; k < 400; k++ {
			sizes = append(sizes, k*1021)
		}
	}
	var ps []string
	for k, n := range sizes {
		p := fmt.Sprintf("/d%d/s%d/file %d", k%4, k%3, k)
		v.AddFile(v.Mkdir(path.Dir(p)), path.Base(p), ref.Content(n, k+i))
		ps = append(ps, p)
	}
	onVolume(t, v, func(_ *proxy, _ *remote.Server, open func() *wire.Client) {
		a, b := open(), open()
		if a == nil || b == nil {
			return
		}
		read := func(w *wire.Client, p string) bool {
			got, err := w.ReadAll(p)
			t.Step()
			want := v.Resolve(p).PData
			if err != nil {
				t.Failf("%s, a file of %d bytes: %v", p, len(want), err)
			} else if !bytes.Equal(got, want) {
				k := 0
				for k < len(got) && k < len(want) && got[k] == want[k] {
					k++
				}
				t.Failf("%s, a file of %d bytes: reading gives %d bytes, different from offset %d on", p, len(want), len(got), k)
			}
			return !t.Failed()
		}
		for k := range ps {
			if !read(a, ps[k]) || !read(b, ps[len(ps)-1-k]) {
				return
			}
			t.State(i, len(v.Resolve(ps[k]).PData))
		}
	})
}

var wideDirs = []int{0, 1, 2, 10, 99, 100, 101, 127, 128, 129, 255, 256, 257, 999, 1000, 1001, 2048, 4096, 4097, 10001, 33000}

// wholeLists: directories of many sizes, with junk among the entries
func wholeLists(i int, t *e2.T) {
	v := ref.Build(variant(i%8), "/vol", volPass, ref.Spec{"/ok": []byte("ok")})
	n := wideDirs[i]
	if t.Tier == "thorough" {
		n = n*2 + 3
	}
	d := v.Mkdir("/x/wide")
	for j := 0; j < n; j++ {
		switch {
		case j%9 == 8 && j < 3000:
			v.Sub(d, fmt.Sprint("dir ", j))
		case j%7 == 6:
			v.AddRaw(d, []string{"junk", "gocryptfs.longname." + fmt.Sprint(j), "AAAA", v.Name("x", ref.Content(16, j))}[j%4]+strings.Repeat("~", j%3)+fmt.Sprint(j), []byte("x"))
		default:
			f := v.AddFile(d, fmt.Sprint("file ", j), ref.Content(j%60, j))
			f.M = os.FileMode(0400 + j%256)
		}
	}
	onVolume(t, v, func(_ *proxy, s *remote.Server, open func() *wire.Client) {
		s.SetPage(1 + n/20)
		if n > 0 && n < 2000 {
			s.SetPage([]int{1, 7, 100}[i%3])
		}
		w := open()
		if w == nil {
			return
		}
		for round := 0; round < 3; round++ {
			if round == 2 {
				if w = open(); w == nil {
					return
				}
			}
			l, err := w.List("/x/wide")
			t.Steps(1 + len(l)/100)
			if err != nil {
				t.Failf("a directory of %d entries: %v", n, err)
				return
			}
			if !menu.CheckList(t, fmt.Sprintf("a directory of %d entries: ", n), d, l) {
				return
			}
			t.State(i, round)
		}
	})
}

// tangled is a volume with all kinds of names and depths.
func tangled(i int) *ref.Volume {
	v := ref.Build(variant(i), "/vol", volPass, ref.Spec{"/a": []byte("a"), "/b/a": []byte("ba"), "/b/b/a": ref.Content(9000, i), "/empty": {}, "/void/": nil, "/b/void/": nil})
	for k, n := range []string{" ", "a b", "-", "~", "*", "a\nb", "\\", "'\"", "\xff\xfe", "ü€", "...", ".x", strings.Repeat("n", 175), "%s%d", "gocryptfs.conf", "gocryptfs.diriv"} {
		v.AddFile(v.FS.Top, n, ref.Content(k*300, k))
		v.AddFile(v.Mkdir("/b/"+n+"d"), n, ref.Content(k*30, k))
	}
	deep := "/deep"
	for k := 0; k < 80; k++ {
		deep += fmt.Sprint("/", k)
	}
	v.AddFile(v.Mkdir(deep), "f", []byte("deep"))
	return v
}

// agreeing: every object by listing, stat, read and other spellings, and missing ones
func agreeing(i int, t *e2.T) {
	v := tangled(i)
	onVolume(t, v, func(_ *proxy, _ *remote.Server, open func() *wire.Client) {
		w := open()
		if w == nil {
			return
		}
		var walk func(p string, d *ref.Node)
		isErr := func(what string, r wire.Reply) {
			t.Step()
			if !r.Failed() {
				t.Failf("%s: %v", what, r)
			}
		}
		stat := func(p string, n *ref.Node) {
			for _, ty := range []byte{wire.Stat, wire.Lstat} {
				r := w.Do(ty, wire.Str(p))
				t.Step()
				if r.Type != wire.Attrs || r.Err != nil {
					t.Failf("%s is listed, but stat gives: %v", wire.Quote(p), r)
				} else if a, b := menu.AttrText(r.A, n.M.IsRegular()), menu.WantAttr(n); a != b {
					t.Failf("stat %s gives %s, not %s", wire.Quote(p), a, b)
				}
			}
		}
		walk = func(p string, d *ref.Node) {
			l, err := w.List(p + "/")
			t.Step()
			if err != nil {
				t.Failf("listing %s: %v", wire.Quote(p), err)
				return
			}
			if !menu.CheckList(t, wire.Quote(p)+": ", d, l) {
				return
			}
			isErr("a missing file of "+wire.Quote(p)+" is read", w.Do(wire.Open, wire.Str(p+"/missing"), wire.U32(1), wire.U32(0)))
			isErr("a missing file of "+wire.Quote(p)+" has attributes", w.Do(wire.Stat, wire.Str(p+"/missing")))
			isErr("a missing directory of "+wire.Quote(p)+" is listed", w.Do(wire.Opendir, wire.Str(p+"/missing")))
			for _, k := range d.Kids {
				if t.Failed() {
					return
				}
				q := p + "/" + k.Plain
				if k.Plain == "" {
					if k.N != "gocryptfs.conf" && k.N != "gocryptfs.diriv" || d.KidPlain(k.N) == nil {
						isErr("the stored name "+wire.Quote(p+"/"+k.N)+" is a file", w.Do(wire.Open, wire.Str(p+"/"+k.N), wire.U32(1), wire.U32(0)))
					}
					continue
				}
				for _, s := range []string{q, q + "/.", "/x/.." + q, p + "/./" + k.Plain, "/.." + q, strings.Replace(q, "/", "//", -1)} {
					stat(s, k)
				}
				t.State(i, q)
				if k.IsDir() {
					isErr("the directory "+wire.Quote(q)+" is read", w.Do(wire.Open, wire.Str(q), wire.U32(1), wire.U32(0)))
					walk(q, k)
					continue
				}
				isErr("the file "+wire.Quote(q)+" is listed", w.Do(wire.Opendir, wire.Str(q)))
				b, err := w.ReadAll(q)
				t.Step()
				if err != nil || !bytes.Equal(b, k.PData) {
					t.Failf("reading %s gives %d bytes and %v, not %d bytes", wire.Quote(q), len(b), err, len(k.PData))
				}
			}
		}
		walk("", v.FS.Top)
	})
}

// historical: all sequences of 3 requests give the answers they give in a fresh program.
var histAsks = []struct {
	ty byte
	p  string
}{
	{wire.Opendir, "/"}, {wire.Opendir, "/b"}, {wire.Opendir, "/b/b"}, {wire.Opendir, "/void"}, {wire.Opendir, "/a"}, {wire.Opendir, "/no"},
	{wire.Stat, "/a"}, {wire.Stat, "/b"}, {wire.Stat, "/b/a"}, {wire.Stat, "/b/no"}, {wire.Stat, "/b/b/a"}, {wire.Stat, "/"},
	{wire.Open, "/a"}, {wire.Open, "/b/a"}, {wire.Open, "/b/b/a"}, {wire.Open, "/empty"}, {wire.Open, "/b"}, {wire.Open, "/no/no"},
}

func answer(w *wire.Client, k int) string {
	a := histAsks[k]
	switch a.ty {
	case wire.Opendir:
		l, err := w.List(a.p)
		if err != nil {
			return "error"
		}
		var s []string
		for _, e := range l {
			s = append(s, fmt.Sprintf("%q %s", e.Name, menu.AttrText(e.A, true)))
		}
		sort.Strings(s)
		return strings.Join(s, "|")
	case wire.Stat:
		r := w.Do(wire.Stat, wire.Str(a.p))
		if r.Type != wire.Attrs || r.Err != nil {
			return "error"
		}
		return menu.AttrText(r.A, true)
	}
	b, err := w.ReadAll(a.p)
	if err != nil {
		return "error"
	}
	return "content " + string(b)
}

func historical(i int, t *e2.T) {
	var sp = ref.Spec{"/a": []byte("a"), "/b/a": []byte("ba"), "/b/b/a": ref.Content(9000, i), "/empty": {}, "/void/": nil}
	for k := 0; k < 20; k++ {
		sp[fmt.Sprintf("/many%d/a", k)] = []byte{byte(k)}
	}
	v := ref.Build(variant(i%8), "/vol", volPass, sp)
	fresh := make([]string, len(histAsks))
	for k := range histAsks {
		onVolume(t, v, func(_ *proxy, _ *remote.Server, open func() *wire.Client) {
			if w := open(); w != nil {
				fresh[k] = answer(w, k)
				t.Step()
			}
		})
		if t.Failed() {
			return
		}
	}
	n := len(histAsks)
	lo, hi := 3*i, 3*i+3
	onVolume(t, v, func(_ *proxy, s *remote.Server, open func() *wire.Client) {
		w := open()
		if w == nil {
			return
		}
		for q := lo * n * n; q < hi*n*n; q++ {
			l := []int{q / n / n, q / n % n, q % n}
			if q%5 == 0 {
				// more directories than the path cache holds
				_ = w.Do(wire.Stat, wire.Str(fmt.Sprintf("/many%d/a", q/5%20)))
			}
			if q%n == 0 && t.Tier == "thorough" {
				s.DropAll()
				for k := 0; k < 8 && !w.Do(wire.Stat, wire.Str("/a")).Success(); k++ {
				}
			}
			for k, x := range l {
				a := answer(w, x)
				t.Step()
				if a != fresh[x] {
					t.Failf("request %d of the sequence %v (%s %s) is answered %q, %q in a fresh program", k, l, wire.TypeName(histAsks[x].ty), histAsks[x].p, clip([]byte(a)), clip([]byte(fresh[x])))
					return
				}
			}
			t.State(q)
		}
	})
}

// hostile: directories, IVs, contents and names of every damaged kind next to good ones
func hostile(i int, t *e2.T) {
	v := ref.Build(variant(i%8), "/vol", volPass, ref.Spec{"/ok/f": []byte("fine"), "/ok/g": ref.Content(9000, 3)})
	healthy := v.Resolve("/ok")
	full := ref.Content(9000, 1)
	add := func(k int, f func(d, file *ref.Node)) {
		d := v.Mkdir(fmt.Sprint("/bad", k))
		v.AddFile(d, "f", full)
		v.AddFile(d, "g", []byte("g"))
		f(d, d.KidPlain("f"))
	}
	iv := func(d *ref.Node) *ref.Node { return d.Kid("gocryptfs.diriv") }
	set := func(n *ref.Node, b []byte) { n.Data, n.S = b, int64(len(b)) }
	k := 0
	mk := func(f func(d, file *ref.Node)) { add(k, f); k++ }
	switch i / 8 {
	case 0:
		for _, n := range []int{0, 1, 2, 17, 18, 19, 20, 33, 34, 35, 49, 50, 51, 4145, 4146, 4147, 8290, 8291} {
			n := n
			mk(func(_, f *ref.Node) { set(f, f.Data[:n]) })
			mk(func(_, f *ref.Node) { set(f, make([]byte, n)) })
			mk(func(_, f *ref.Node) { set(f, bytes.Repeat([]byte{0xff}, n)) })
		}
	case 1:
		for _, n := range []int{0, 1, 15, 17, 32, 1000, 70000} {
			n := n
			mk(func(d, _ *ref.Node) { set(iv(d), make([]byte, n)) })
			mk(func(d, _ *ref.Node) { set(iv(d), bytes.Repeat([]byte{0xff}, n)) })
		}
		mk(func(d, _ *ref.Node) { set(iv(d), make([]byte, 16)) })
		mk(func(d, _ *ref.Node) { d.Kids = nil })
		mk(func(d, _ *ref.Node) { d.Kids = d.Kids[1:] })
		mk(func(d, _ *ref.Node) { iv(d).M = os.ModeDir | 0700 })
		mk(func(d, _ *ref.Node) { iv(d).M = os.ModeSymlink | 0700 })
	case 2:
		for _, s := range []string{"", ".", "..", "/", "a/b", "\x00", "=", "====", "A", "AA", "AAAA", strings.Repeat("A", 22), strings.Repeat("A", 43), strings.Repeat("A", 300), strings.Repeat("A", 700), strings.Repeat("_", 20000), "\xff\xfe", "gocryptfs.longname.", "gocryptfs.longname.x.name", "é", "\n", "%s%n"} {
			s := s
			mk(func(d, _ *ref.Node) { v.AddRaw(d, s, []byte("x")) })
			mk(func(_, f *ref.Node) { f.N = s })
			mk(func(d, _ *ref.Node) { x := v.AddRaw(d, s, nil); x.M = os.ModeDir | 0700 })
		}
		for _, s := range []string{".", "..", "/", "a/b", "\x00", "x\x00", "../../x"} {
			s := s
			mk(func(d, f *ref.Node) { f.N = v.Name(s, d.IV) })
		}
	case 3:
		for _, m := range []os.FileMode{os.ModeDir, os.ModeSymlink, os.ModeNamedPipe, os.ModeSocket, os.ModeDevice, os.ModeDevice | os.ModeCharDevice, os.ModeSetuid, 0} {
			m := m
			mk(func(_, f *ref.Node) { f.M = m | 0600 })
			mk(func(d, _ *ref.Node) { d.M = m | 0700 })
		}
		for _, s := range []int64{0, 1, 17, 18, 19, 49, 50, 51, 1 << 31, 1 << 32, 1<<62 + 1, -1, -1 << 63, 1<<63 - 1} {
			s := s
			mk(func(_, f *ref.Node) { f.S = s })
		}
		for _, x := range []int64{-1, 0, 1 << 31, 1<<32 - 1} {
			x := x
			mk(func(_, f *ref.Node) { f.T = time.Unix(x, 0) })
		}
		mk(func(d, f *ref.Node) { g := *f; d.Kids = append(d.Kids, &g) })
	}
	onVolume(t, v, func(p *proxy, _ *remote.Server, open func() *wire.Client) {
		w := open()
		if w == nil {
			return
		}
		for j := 0; j < k; j++ {
			d := fmt.Sprint("/bad", j)
			names := map[string]bool{"f": true, "g": true, "gocryptfs.diriv": true}
			l, err := w.List(d)
			if err == nil {
				for _, e := range l {
					names[e.Name] = true
				}
			}
			done := err == nil || !strings.Contains(err.Error(), "no reply")
			for n := range names {
				for _, r := range []wire.Reply{w.Do(wire.Stat, wire.Str(d+"/"+n)), w.Do(wire.Opendir, wire.Str(d+"/"+n))} {
					done = done && r.Err == nil
					t.Step()
				}
				b, err := w.ReadAll(d + "/" + n)
				done = done && (err == nil || !strings.Contains(err.Error(), "no reply"))
				if err == nil && n == "f" && !bytes.Equal(b, full) && !(len(b) < len(full) && (bytes.HasPrefix(full, b) || len(bytes.Trim(b, "\x00")) == 0)) {
					t.Failf("damage %d of kind %d: reading gives %d bytes that nobody stored", j, i/8, len(b))
				}
			}
			t.State(i, j)
			what := fmt.Sprintf("damage %d of kind %d: ", j, i/8)
			if !p.running() {
				t.Failf("%sthe proxy has ended: %s", what, p.text())
				return
			}
			if !done {
				t.Failf("%sa request is not answered", what)
				return
			}
			g, err := w.ReadAll("/ok/g")
			if l, lerr := w.List("/ok"); err != nil || lerr != nil || !bytes.Equal(g, healthy.KidPlain("g").PData) || !menu.CheckList(t, what, healthy, l) {
				t.Failf("%safterwards a good directory is not served: %v, %v", what, err, lerr)
				return
			}
		}
	})
}

// only the outages whose scripts are single requests of some kind
func outagesOf(kind string) e2.Group {
	var l []int
	for i, o := range outCases("quick") {
		if len(o.script) == 1 && strings.HasPrefix(o.script[0].name, kind) {
			l = append(l, i)
		}
	}
	return e2.Group{Name: "remote failures, program", Bounds: "8 faults x every event (1, 3 or all from there), requests: " + kind, N: num(len(l)), Run: func(i int, t *e2.T) {
		tier := t.Tier
		t.Tier = "quick"
		outages(l[i], t)
		t.Tier = tier
	}}
}

func wholeGroups() map[string][]e2.Group {
	return map[string][]e2.Group{
		"C01": {
			{Name: "files, program", Bounds: "8 volume variants, 46 file sizes to 33 MiB (thorough: 446), read in two sessions and orders through the program", N: num(8), Run: wholeFiles},
			outagesOf("read"),
		},
		"C03": {
			{Name: "listings, program", Bounds: "21 directory sizes to 33000 with subdirectories and junk, listed three times through the program", N: num(len(wideDirs)), Run: wholeLists},
			outagesOf("list"),
		},
		"C04": {{Name: "histories, program", Bounds: "all sequences of 3 of 18 requests through the program, against a fresh program", N: num(len(histAsks) / 3), Run: historical}},
		"C05": {
			{Name: "agreement, program", Bounds: "8 volume variants with odd names and 80 levels, every object by 6 spellings, through the program", N: num(8), Run: agreeing},
			outagesOf("stat"),
		},
		"C12": {{Name: "hostile remote, program", Bounds: "about 190 damages to contents, IVs, names, kinds, sizes and times, 8 volume variants, through the program", N: num(32), Run: hostile}},
	}
}
