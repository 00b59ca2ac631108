// Package menu holds the client requests and the judgements that the checks of the SFTP handlers
// and of the whole program share.
package menu

import (
	"bytes"
	"fmt"
	"sort"
	"strings"

	"verif/e2"
	"verif/ref"
	"verif/wire"
)

type Mut struct {
	Name   string
	Typ    byte
	Body   func(h map[string]string) []byte
	Path   bool // names a path: must be answered with an error status
	Mutate bool
}

func Attrs() map[string][]byte {
	return map[string][]byte{
		"none":  wire.U32(0),
		"size":  wire.Cat(wire.U32(1), wire.U64(3)),
		"owner": wire.Cat(wire.U32(2), wire.U32(0), wire.U32(0)),
		"perm":  wire.Cat(wire.U32(4), wire.U32(0777)),
		"times": wire.Cat(wire.U32(8), wire.U32(1), wire.U32(1)),
		"all":   wire.Cat(wire.U32(15), wire.U64(0), wire.U32(1), wire.U32(1), wire.U32(0), wire.U32(1), wire.U32(1)),
	}
}

var Targets = []string{"/f", "/d", "/d/g", "/missing", "/missing/x", "/", "", ".", "..", "/../f", "/empty", "/d/e", "/gocryptfs.conf", "/gocryptfs.diriv", "f"}

// Muts lists every request that would change something for one target.
func Muts(p string, others []string) []Mut {
	fixed := func(b ...[]byte) func(map[string]string) []byte {
		c := wire.Cat(b...)
		return func(map[string]string) []byte { return c }
	}
	var l []Mut
	add := func(n string, t byte, b ...[]byte) {
		l = append(l, Mut{n + " " + wire.Quote(p), t, fixed(b...), true, true})
	}
	as := Attrs()
	var an []string
	for n := range as {
		an = append(an, n)
	}
	sort.Strings(an)
	for f := uint32(0); f < 128; f++ {
		if f&(wire.FWrite|wire.FAppend|wire.FCreat|wire.FTrunc) == 0 {
			continue
		}
		add(fmt.Sprintf("OPEN flags %#x", f), wire.Open, wire.Str(p), wire.U32(f), as["none"])
		if f < 64 {
			add(fmt.Sprintf("OPEN flags %#x with attributes", f), wire.Open, wire.Str(p), wire.U32(f), as["perm"])
		}
	}
	for _, n := range an {
		add("SETSTAT "+n, wire.Setstat, wire.Str(p), as[n])
		add("MKDIR "+n, wire.Mkdir, wire.Str(p), as[n])
	}
	add("REMOVE", wire.Remove, wire.Str(p))
	add("RMDIR", wire.Rmdir, wire.Str(p))
	for _, o := range others {
		add("RENAME to "+wire.Quote(o)+" of", wire.Rename, wire.Str(p), wire.Str(o))
		add("SYMLINK to "+wire.Quote(o)+" at", wire.Symlink, wire.Str(o), wire.Str(p))
	}
	for _, e := range []string{"posix-rename@openssh.com", "hardlink@openssh.com", "fsync@openssh.com", "statvfs@openssh.com", "lsetstat@openssh.com", "nothing@example.com"} {
		l = append(l, Mut{"EXTENDED " + e + " " + wire.Quote(p), wire.Extended, fixed(wire.Str(e), wire.Str(p), wire.Str("/new")), false, e != "statvfs@openssh.com"})
	}
	for _, hn := range []string{"read", "dir", "closed", "bogus", ""} {
		hn := hn
		for _, n := range an {
			n := n
			l = append(l, Mut{"FSETSTAT " + n + " on the " + hn + " handle", wire.Fsetstat, func(h map[string]string) []byte { return wire.Cat(wire.Str(h[hn]), as[n]) }, false, true})
		}
		for _, d := range []string{"", "x", strings.Repeat("y", 6000)} {
			for _, off := range []uint64{0, 1, 4999, 5000, 1 << 40} {
				d, off := d, off
				l = append(l, Mut{fmt.Sprintf("WRITE of %d bytes at %d on the %s handle", len(d), off, hn), wire.Write, func(h map[string]string) []byte { return wire.Cat(wire.Str(h[hn]), wire.U64(off), wire.Str(d)) }, false, true})
			}
		}
	}
	return l
}

// HandlesFor opens a file, a directory and a file that is closed again.
func HandlesFor(t *e2.T, c *wire.Client) map[string]string {
	h := map[string]string{"bogus": "999"}
	r := c.Do(wire.Open, wire.Str("/f"), wire.U32(wire.FRead), wire.U32(0))
	if r.Type != wire.Handle || r.Err != nil {
		t.Failf("open /f for reading: %v", r)
	}
	h["read"] = r.Handle
	r = c.Do(wire.Opendir, wire.Str("/d"))
	if r.Type != wire.Handle || r.Err != nil {
		t.Failf("opendir /d: %v", r)
	}
	h["dir"] = r.Handle
	r = c.Do(wire.Open, wire.Str("/d/g"), wire.U32(wire.FRead), wire.U32(0))
	h["closed"] = r.Handle
	if r = c.Do(wire.Close, wire.Str(h["closed"])); !r.Success() {
		t.Failf("close: %v", r)
	}
	t.Steps(4)
	return h
}

func Refused(t *e2.T, where string, m Mut, r wire.Reply) {
	if !m.Mutate {
		return
	}
	if m.Path && !r.Failed() {
		t.Failf("%s%s is answered with %v instead of an error", where, m.Name, r)
	}
	if r.Err == nil && (r.Type == wire.Status && r.Code == wire.OK || r.Type == wire.Handle) {
		t.Failf("%s%s is answered with success: %v", where, m.Name, r)
	}
}

func WantAttr(n *ref.Node) string {
	return AttrText(wire.Attr{Flags: 13, Size: uint64(len(n.PData)), Perm: wire.Mode(n.M), Mtime: uint32(n.T.Unix())}, n.M.IsRegular())
}

func AttrText(a wire.Attr, size bool) string {
	s := fmt.Sprintf("perm=%o mtime=%d", a.Perm, a.Mtime)
	if a.Flags&4 == 0 || a.Flags&8 == 0 {
		s += " (attributes missing)"
	}
	if size {
		s += fmt.Sprint(" size=", a.Size)
		if a.Flags&1 == 0 {
			s += " (no size)"
		}
	}
	return s
}

func CheckList(t *e2.T, where string, d *ref.Node, l []wire.Entry) bool {
	want := map[string]string{}
	for _, k := range d.Kids {
		if k.Plain != "" {
			want[k.Plain] = WantAttr(k)
		}
	}
	got := map[string]bool{}
	for _, e := range l {
		w, ok := want[e.Name]
		if !ok {
			t.Failf("%sthere is no %q", where, e.Name)
			return false
		}
		if got[e.Name] {
			t.Failf("%s%q is listed twice", where, e.Name)
			return false
		}
		got[e.Name] = true
		if a := AttrText(e.A, strings.Contains(w, "size=")); a != w {
			t.Failf("%s%q is listed with %s instead of %s", where, e.Name, a, w)
			return false
		}
	}
	for n := range want {
		if !got[n] {
			t.Failf("%s%q is missing from the listing (%d of %d entries)", where, n, len(got), len(want))
			return false
		}
	}
	return true
}

func CheckRange(t *e2.T, data []byte, off uint64, l uint32, r wire.Reply) {
	where := fmt.Sprintf("read of %d bytes at %d of a file of %d bytes: ", l, off, len(data))
	if off >= uint64(len(data)) {
		if off >= 1<<63 && r.Failed() {
			return
		}
		if !r.IsEOF() && !(l == 0 && r.Type == wire.Data && len(r.Data) == 0) {
			t.Failf("%s%v instead of end of file", where, r)
		}
		return
	}
	want := data[off:]
	if uint64(len(want)) > uint64(l) {
		want = want[:l]
	}
	if r.Type != wire.Data || r.Err != nil || r.Bad {
		t.Failf("%s%v", where, r)
		return
	}
	min := len(want)
	if min > 32768 {
		min = 32768 // a reply may be limited to this
	}
	if len(r.Data) < min || len(r.Data) > len(want) || !bytes.Equal(r.Data, want[:len(r.Data)]) {
		t.Failf("%s%d bytes, not the ones of the file", where, len(r.Data))
	}
}
