package main

import (
	"fmt"
	"strings"
	"time"

	"golang.org/x/crypto/ssh"

	"verif/e2"
	"verif/menu"
	"verif/wire"
)

// The checks of the SFTP handlers (esftp) once more, through the whole program: what the program
// puts between the client, the handlers and the remote must neither add nor lose anything.

// with logs in and runs f with a way to open sessions; it ends the arena on failure.
func with(t *e2.T, f func(a *arena, c *ssh.Client, open func() *wire.Client)) {
	a := ready(t)
	if a == nil {
		return
	}
	defer func() {
		if !a.p.running() {
			t.Failf("the proxy has ended: %s", a.p.text())
		}
		if t.Failed() {
			a.end()
		}
	}()
	c, err := dial(defaultUser, ssh.Password(defPw))
	if err != nil {
		t.Failf("no login: %v", err)
		return
	}
	defer c.Close()
	f(a, c, func() *wire.Client {
		w, err := session(c)
		if err != nil {
			t.Failf("no session: %v", err)
			return nil
		}
		return w
	})
}

// unchanged: the remote was only read, the view is as before
func unchanged(t *e2.T, a *arena, w *wire.Client, where string) {
	for _, l := range a.s.Changes() {
		t.Failf("%sthe remote was asked to %s", where, l)
		break
	}
	if w == nil {
		return
	}
	if err := tour(w, false); err != nil {
		t.Failf("%safterwards: %v", where, err)
	}
	t.Steps(8)
}

// changing: every changing request for one target, one by one and 20 at a time
func changing(i int, t *e2.T) {
	with(t, func(a *arena, _ *ssh.Client, open func() *wire.Client) {
		p := menu.Targets[i/2]
		ms := menu.Muts(p, menu.Targets)
		var w *wire.Client
		var hs map[string]string
		fresh := func() bool {
			if w = open(); w == nil {
				return false
			}
			hs = menu.HandlesFor(t, w)
			return true
		}
		if !fresh() {
			return
		}
		type sent struct {
			m  menu.Mut
			id uint32
		}
		var pend []sent
		most := 1
		if i%2 == 1 {
			most = 20
		}
		for k, m := range ms {
			pend = append(pend, sent{m, w.Send(m.Typ, m.Body(hs))})
			t.Step()
			// an extended request may end the session
			if len(pend) < most && k < len(ms)-1 && m.Typ != wire.Extended && ms[k+1].Typ != wire.Extended {
				continue
			}
			over := false
			for _, s := range pend {
				r := w.Get(s.id)
				menu.Refused(t, "", s.m, r)
				t.State(p, s.m.Name, r.Type, r.Code)
				if r.Err != nil {
					over = true
					if s.m.Path {
						t.Failf("%s is not answered: %v", s.m.Name, r)
					}
				}
				if t.Failed() {
					return
				}
			}
			pend = nil
			if over {
				w.C.Close()
				if !fresh() {
					return
				}
			}
			if k%40 == 39 {
				unchanged(t, a, w, "after "+m.Name+": ")
			}
		}
		unchanged(t, a, w, fmt.Sprintf("after all requests for %s: ", wire.Quote(p)))
		t.Sample("%d changing requests for %s", len(ms), wire.Quote(p))
	})
}

// bulk: requests of every type and size up to OpenSSH's limit of 256 KiB are answered, and the
// session stays usable.
func bulk(i int, t *e2.T) {
	sizes := []int{0, 1, 255, 256, 4096, 16000, 32700, 32768, 33900, 34000, 65536, 131072, 200000, 256*1024 - 200}
	with(t, func(a *arena, _ *ssh.Client, open func() *wire.Client) {
		w := open()
		if w == nil {
			return
		}
		as := menu.Attrs()
		o := w.Do(wire.Open, wire.Str("/f"), wire.U32(wire.FRead), wire.U32(0))
		if o.Type != wire.Handle {
			t.Failf("open: %v", o)
			return
		}
		n := sizes[i]
		l := "/" + strings.Repeat("n", n)
		depth := n / 2
		if depth > 2000 {
			depth = 2000 // longer ones only take longer
		}
		deep := strings.Repeat("/d", depth) + "/x"
		type rq struct {
			what string
			typ  byte
			body []byte
			want byte // 0: an error status; 1: any answer; 2: anything but success
		}
		rs := []rq{}
		for _, p := range []string{l, deep} {
			for _, ty := range []byte{wire.Stat, wire.Lstat, wire.Opendir, wire.Readlnk, wire.Remove, wire.Rmdir} {
				if n == 0 && ty != wire.Remove && ty != wire.Rmdir && ty != wire.Readlnk && p == l {
					continue // the root
				}
				rs = append(rs, rq{wire.TypeName(ty), ty, wire.Str(p), 0})
			}
			rs = append(rs, rq{"OPEN", wire.Open, wire.Cat(wire.Str(p), wire.U32(wire.FRead), as["none"]), 0},
				rq{"OPEN for writing", wire.Open, wire.Cat(wire.Str(p), wire.U32(wire.FWrite), as["all"]), 0},
				rq{"MKDIR", wire.Mkdir, wire.Cat(wire.Str(p), as["all"]), 0},
				rq{"SETSTAT", wire.Setstat, wire.Cat(wire.Str(p), as["all"]), 0},
				rq{"RENAME to", wire.Rename, wire.Cat(wire.Str("/f"), wire.Str(p)), 0},
				rq{"SYMLINK to", wire.Symlink, wire.Cat(wire.Str(p), wire.Str("/s")), 0},
				rq{"REALPATH", wire.Realpath, wire.Str(p), 1})
		}
		rs = append(rs, rq{"WRITE", wire.Write, wire.Cat(wire.Str(o.Handle), wire.U64(0), wire.Str(strings.Repeat("w", n))), 2},
			rq{"WRITE to no handle", wire.Write, wire.Cat(wire.Str("none"), wire.U64(0), wire.Str(strings.Repeat("w", n))), 0},
			rq{"READ of a long handle", wire.Read, wire.Cat(wire.Str(l), wire.U64(0), wire.U32(1)), 0},
			rq{"READDIR of a long handle", wire.Readdir, wire.Str(l), 0},
			rq{"FSTAT of a long handle", wire.Fstat, wire.Str(l), 0},
			rq{"FSETSTAT of a long handle", wire.Fsetstat, wire.Cat(wire.Str(l), as["all"]), 0},
			rq{"CLOSE of a long handle", wire.Close, wire.Str(l), 0},
			rq{"SETSTAT with extended attributes", wire.Setstat, wire.Cat(wire.Str("/f"), wire.U32(1<<31), wire.U32(1), wire.Str("x"), wire.Str(l)), 0})
		for _, together := range []bool{false, true} {
			var ids []uint32
			for _, r := range rs {
				ids = append(ids, w.Send(r.typ, r.body))
				if !together || len(ids) == len(rs) {
					for k, id := range ids {
						x := rs[k]
						if !together {
							x = r
						}
						t.Step()
						re := w.Get(id)
						t.State(n, x.what, re.Type, re.Code)
						if re.Err != nil {
							t.Failf("%s with %d bytes: no answer: %v", x.what, n, re)
							return
						}
						if x.want == 0 && !re.Failed() || x.want == 2 && re.Type == wire.Status && re.Code == wire.OK {
							t.Failf("%s with %d bytes: %v", x.what, n, re)
						}
					}
					ids = nil
				}
			}
			b, err := w.ReadAll("/f")
			if err != nil || string(b) != string(spec["/f"]) {
				t.Failf("requests of %d bytes: afterwards /f reads as %d bytes, %v", n, len(b), err)
			}
			menu.CheckRange(t, spec["/f"], 5, 50, w.Do(wire.Read, wire.Str(o.Handle), wire.U64(5), wire.U32(50)))
		}
		unchanged(t, a, w, fmt.Sprintf("requests of %d bytes: ", n))
	})
}

// chunks: the same requests cut into pieces in many ways
func chunks(i int, t *e2.T) {
	var stream []byte
	id := uint32(0)
	add := func(ty byte, b ...[]byte) {
		id++
		stream = append(stream, wire.Frame(ty, wire.Cat(wire.U32(id), wire.Cat(b...)))...)
	}
	stream = append(stream, wire.Frame(wire.Init, wire.U32(3))...)
	add(wire.Stat, wire.Str("/f"))
	add(wire.Open, wire.Str("/d/g"), wire.U32(wire.FRead), wire.U32(0)) // handle "1" in a fresh session, if the library numbers them so
	add(wire.Stat, wire.Str("/missing"))
	add(wire.Remove, wire.Str("/f"))
	add(wire.Mkdir, wire.Str("/new"), wire.U32(0))
	add(wire.Setstat, wire.Str("/f"), menu.Attrs()["all"])
	add(wire.Lstat, wire.Str("/d"))
	n := int(id)
	with(t, func(a *arena, c *ssh.Client, _ func() *wire.Client) {
		var cuts [][]int // where pieces end
		switch {
		case i == 0: // two pieces
			for k := 1; k < len(stream); k++ {
				cuts = append(cuts, []int{k})
			}
		case i == 1: // equal pieces
			for k := 1; k <= 40; k++ {
				var l []int
				for j := k; j < len(stream); j += k {
					l = append(l, j)
				}
				cuts = append(cuts, l)
			}
		default: // three pieces, the first within the first packets
			for j := 1; j < 40; j++ {
				for k := j + 1; k < len(stream); k++ {
					if (j+k)%4 == i-2 && (t.Tier == "thorough" || k-j < 20) {
						cuts = append(cuts, []int{j, k})
					}
				}
			}
		}
		for _, cut := range cuts {
			ch, err := channel(c)
			if err != nil {
				t.Failf("no session: %v", err)
				return
			}
			res := make(chan []wire.Reply, 1)
			go func() {
				var l []wire.Reply
				for len(l) <= n {
					ty, b, err := wire.ReadFrame(ch)
					if err != nil {
						l = append(l, wire.Reply{Err: err})
						break
					}
					l = append(l, wire.Decode(ty, b))
				}
				res <- l
			}()
			at := 0
			for _, e := range append(append([]int{}, cut...), len(stream)) {
				_, _ = ch.Write(stream[at:e])
				at = e
			}
			var l []wire.Reply
			select {
			case l = <-res:
			case <-time.After(patience):
				t.Failf("requests in pieces that end at %v: not all are answered", cut)
			}
			ch.Close()
			t.Step()
			t.State(fmt.Sprint(cut))
			if l != nil {
				judgePieces(t, cut, n, l)
			}
			if t.Failed() {
				return
			}
		}
		unchanged(t, a, nil, "")
	})
}

func judgePieces(t *e2.T, cut []int, n int, l []wire.Reply) {
	where := fmt.Sprintf("requests in pieces that end at %v: ", cut)
	if len(l) != n+1 || l[0].Type != wire.Version {
		t.Failf("%s%d answers instead of %d: %v", where, len(l), n+1, l)
		return
	}
	got := map[uint32]wire.Reply{}
	for _, r := range l[1:] {
		got[r.ID] = r
	}
	for id, p := range map[uint32]string{1: "/f", 7: "/d"} {
		w := vol.Resolve(p)
		if r := got[id]; r.Type != wire.Attrs || menu.AttrText(r.A, w.M.IsRegular()) != menu.WantAttr(w) {
			t.Failf("%sstat of %s gives %v", where, p, r)
		}
	}
	if got[2].Type != wire.Handle {
		t.Failf("%sopen gives %v", where, got[2])
	}
	for _, id := range []uint32{3, 4, 5, 6} {
		if r := got[id]; !r.Failed() {
			t.Failf("%srequest %d gives %v instead of an error", where, id, r)
		}
	}
}

// viewed: listings with attributes, and ranges of every file
func viewed(i int, t *e2.T) {
	with(t, func(a *arena, _ *ssh.Client, open func() *wire.Client) {
		w := open()
		if w == nil {
			return
		}
		if i == 0 {
			for round := 0; round < 2; round++ {
				for _, d := range []string{"/", "/d", "/d/e", "/many", "/z"} {
					l, err := w.List(d)
					t.Step()
					if err != nil {
						t.Failf("%s: %v", d, err)
						return
					}
					t.State(d)
					if !menu.CheckList(t, d+": ", vol.Resolve(d), l) {
						return
					}
				}
			}
			for p := range spec {
				if p = strings.TrimSuffix(p, "/"); p == "" {
					continue
				}
				nd := vol.Resolve(p)
				for _, ty := range []byte{wire.Stat, wire.Lstat} {
					r := w.Do(ty, wire.Str(p))
					t.Step()
					t.State(p, ty)
					if r.Type != wire.Attrs || r.Err != nil || menu.AttrText(r.A, nd.M.IsRegular()) != menu.WantAttr(nd) {
						t.Failf("stat of %s gives %v instead of %s", p, r, menu.WantAttr(nd))
						return
					}
				}
				for _, q := range []string{p + "x", p + "/x"} {
					if r := w.Do(wire.Stat, wire.Str(q)); !r.Failed() && vol.Resolve(q) == nil {
						t.Failf("stat of %s, which does not exist, gives %v", q, r)
						return
					}
				}
			}
			return
		}
		f := []string{"/f", "/d/e/h", "/d/g", "/empty", "/many/file7"}[i-1]
		data := spec[f]
		o := w.Do(wire.Open, wire.Str(f), wire.U32(wire.FRead), wire.U32(0))
		if o.Type != wire.Handle {
			t.Failf("open %s: %v", f, o)
			return
		}
		type q struct {
			o  uint64
			l  uint32
			id uint32
		}
		for _, most := range []int{1, 25} {
			var pend []q
			flush := func() {
				for _, x := range pend {
					menu.CheckRange(t, data, x.o, x.l, w.Get(x.id))
					t.Step()
					t.State(f, x.o, x.l)
				}
				pend = nil
			}
			for _, b := range []int{0, 4096, 32768, 65536, len(data) / 2, len(data), 1 << 40} {
				for _, d := range []int{-1, 0, 1, 100} {
					if b+d < 0 {
						continue
					}
					for _, l := range []uint32{0, 1, 100, 4096, 4097, 32767, 32768, 32769, 65536, 1 << 20, 1<<32 - 1} {
						pend = append(pend, q{uint64(b + d), l, w.Send(wire.Read, wire.Str(o.Handle), wire.U64(uint64(b+d)), wire.U32(l))})
						if len(pend) >= most {
							flush()
						}
						if t.Failed() {
							return
						}
					}
				}
			}
			flush()
		}
	})
}

// scripts: two scripts in every order, in one session or in those of two connections
func scripts(i int, t *e2.T) {
	with(t, func(a *arena, _ *ssh.Client, open func() *wire.Client) {
		c2, err := dial(defaultUser, ssh.Password(defPw))
		if err != nil {
			t.Failf("no login: %v", err)
			return
		}
		defer c2.Close()
		menu.Interleave(t, i/2, 6, i%2 == 1, vol, menu.Paths{A: "/f", B: "/d/e/h", D: "/d", G: "/d/e", E: "/z"}, func(which int) *wire.Client {
			if which == 0 {
				return open()
			}
			w, err := session(c2)
			if err != nil {
				t.Failf("no session: %v", err)
				return nil
			}
			return w
		})
	})
}

func groups18() []e2.Group {
	return []e2.Group{
		{Name: "changing requests", Bounds: "15 targets x every changing request, one by one and 20 at a time, through the whole program to a remote that records every request", N: num(2 * len(menu.Targets)), Run: changing},
	}
}

func groups19() []e2.Group {
	return []e2.Group{
		{Name: "views and ranges", Bounds: "every listing and attribute of a volume with a directory of 120 entries; 5 files x 28 offsets x 11 lengths one by one and pipelined, through the whole program", N: num(6), Run: viewed},
		{Name: "requests of every size", Bounds: "34 requests x 14 sizes up to 256 KiB, one by one and pipelined, through the whole program", N: num(14), Run: bulk},
		{Name: "requests in pieces", Bounds: "8 requests in two pieces cut at every byte, in pieces of every length up to 40, in three pieces", N: num(6), Run: chunks},
		{Name: "scripts", Bounds: "36 pairs of 5-step scripts over one session and over two connections, all 252 interleavings each, through the whole program", N: num(72), Run: scripts},
	}
}
