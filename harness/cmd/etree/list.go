package main

import (
	"bytes"
	"fmt"
	"math"
	"os"
	"strings"
	"time"

	"github.com/flawedmatrix/gocryptsftp/filetree"

	"verif/e2"
	"verif/ref"
)

// shapes of directory entries
var shapes = []func(v *ref.Volume, d *ref.Node){
	func(v *ref.Volume, d *ref.Node) { v.AddFile(d, "empty", nil) },
	func(v *ref.Volume, d *ref.Node) { v.AddFile(d, "small", []byte("123")) },
	func(v *ref.Volume, d *ref.Node) { v.AddFile(d, "two blocks", ref.Content(8192, 1)) },
	func(v *ref.Volume, d *ref.Node) { v.Sub(d, "directory") },
	func(v *ref.Volume, d *ref.Node) {
		n := v.AddFile(d, "symlink", nil)
		n.M, n.S, n.Data = os.ModeSymlink|0777, 60, []byte("target")
	},
	func(v *ref.Volume, d *ref.Node) { v.AddFile(d, strings.Repeat("l", 175), []byte("long")) },
	func(v *ref.Volume, d *ref.Node) { v.AddRaw(d, "not base64 at all!", []byte("x")) },
	func(v *ref.Volume, d *ref.Node) { // encrypted under another directory's IV
		iv := append([]byte(nil), d.IV...)
		for iv[0] ^= 1; ; iv[0]++ {
			if _, ok := v.DecName(v.Name("foreign", iv), d.IV); !ok {
				break
			}
		}
		v.AddRaw(d, v.Name("foreign", iv), []byte("x"))
	},
	func(v *ref.Volume, d *ref.Node) {
		c := v.HashName("whatever")
		v.AddRaw(d, c, []byte("content"))
		v.AddRaw(d, c+".name", []byte("AAAA"))
	},
	func(v *ref.Volume, d *ref.Node) {
		v.AddRaw(d, v.RawName(ref.Pad([]byte("..")), d.IV), []byte("x"))
		v.AddRaw(d, v.RawName(ref.Pad([]byte(".")), d.IV), []byte("x"))
		v.AddRaw(d, v.RawName(ref.Pad([]byte("a/b")), d.IV), []byte("x"))
		v.AddRaw(d, v.RawName(ref.Pad([]byte("../../x")), d.IV), []byte("x"))
		v.AddRaw(d, v.RawName(ref.Pad(nil), d.IV), []byte("x"))
	},
	func(v *ref.Volume, d *ref.Node) {
		v.AddRaw(d, "gocryptfs.conf.bak", []byte("x"))
		v.AddFile(d, ".dot", []byte("h"))
	},
	func(v *ref.Volume, d *ref.Node) { // a directory whose name does not decrypt
		nm := ""
		for c := byte('A'); ; c++ {
			nm = strings.Repeat(string([]byte{c}), 22)
			if _, ok := v.DecName(nm, d.IV); !ok {
				break
			}
		}
		n := v.AddRaw(d, nm, nil)
		n.M |= os.ModeDir
	},
}

// c03Subsets: every subset of the entry shapes, in directories of their own
func c03Subsets(i int, t *e2.T) {
	v := build(keys(i%8), ref.Spec{})
	per := 1 << uint(len(shapes)-6)
	for s := i * per; s < (i+1)*per; s++ {
		d := v.Sub(v.FS.Top, fmt.Sprint("s", s))
		for b, f := range shapes {
			if s>>uint(b)&1 != 0 {
				f(v, d)
			}
		}
		if s%2 == 1 { // bookkeeping last instead of first
			d.Kids = append(d.Kids[1:], d.Kids[0])
		}
	}
	ft := open(t, v, 1+i%4)
	if ft == nil {
		return
	}
	for s := i * per; s < (i+1)*per; s++ {
		o := op{'L', fmt.Sprint("/s", s)}
		if !must(t, ft, v, fmt.Sprintf("%s, entry shapes %b: ", v.Variant, s), o, o) {
			return
		}
		t.State(s)
	}
	must(t, ft, v, "root ", op{'L', "/"})
	t.Sample("directories with the subsets %d-%d of 12 entry shapes", i*per, (i+1)*per-1)
}

func c03Counts(i int, t *e2.T) {
	cs := []int{0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 500, 1000, 1025, 2500}
	c := cs[i/4]
	w := []int{1, 2, 3, 8}[i%4]
	v := build(keys(i%8), ref.Spec{})
	d := v.Sub(v.FS.Top, "many")
	for j := 0; j < c; j++ {
		if j%10 == 9 {
			v.Sub(d, fmt.Sprint("dir", j))
		} else {
			v.AddFile(d, fmt.Sprint("file", j), ref.Content(j%50, j))
		}
	}
	ft := open(t, v, w)
	if ft == nil {
		return
	}
	must(t, ft, v, fmt.Sprintf("%d entries, %d workers: ", c, w), op{'L', "/many"}, op{'L', "/many"}, op{'L', "/"})
	t.State(c, w)
}

func c03Attrs(i int, t *e2.T) { // every kind, mode and time
	v := build(keys(i%8), ref.Spec{})
	times := []time.Time{time.Unix(0, 0), time.Unix(1, 0), time.Unix(1<<31-1, 0), time.Unix(1<<31, 0), time.Unix(1<<32-1, 0), time.Date(2019, 1, 2, 3, 4, 5, 0, time.UTC)}
	types := []os.FileMode{0, os.ModeDir, os.ModeSymlink, os.ModeNamedPipe, os.ModeSocket, os.ModeDevice, os.ModeDevice | os.ModeCharDevice}
	for ti, ty := range types {
		for p := 0; p < 64; p++ {
			perm := os.FileMode(i/8*64 + p)
			if perm > 0777 {
				continue
			}
			nm := fmt.Sprintf("t%dp%o", ti, perm)
			var nd *ref.Node
			if ty.IsDir() {
				nd = v.Sub(v.FS.Top, nm)
			} else {
				nd = v.AddFile(v.FS.Top, nm, []byte("x"))
			}
			nd.M = ty | perm
			if p%8 == 1 {
				nd.M |= os.ModeSetuid
			}
			if p%8 == 2 {
				nd.M |= os.ModeSetgid
			}
			if p%8 == 3 {
				nd.M |= os.ModeSticky
			}
			nd.Info.T = times[p%len(times)]
		}
	}
	ft := open(t, v, 2)
	if ft == nil {
		return
	}
	must(t, ft, v, "attributes: ", op{'L', "/"})
	t.State(i)
}

func c03Sizes(i int, t *e2.T) { // stored sizes against plaintext sizes
	v := build(keys(i%8), ref.Spec{})
	var ns []int
	for k := 0; k < 40; k++ {
		b := []int{0, 1, 2, 3, 32, 33, 34, 1 << 10, 1 << 18, 1<<19 - 1, 1 << 19, 1 << 20, 1 << 28, 1 << 30}
		ns = append(ns, b[i/8]*ref.BS+k, b[i/8]*ref.BS+ref.BS-1-k, b[i/8]*ref.BS+2000+k)
	}
	seen := map[int]bool{}
	type fi struct {
		name string
		n    int
	}
	var fs []fi
	for _, s := range ns {
		if seen[s] {
			continue
		}
		seen[s] = true
		f := v.AddFile(v.FS.Top, fmt.Sprint("n", s), nil)
		f.S = int64(ref.CSize(s))
		fs = append(fs, fi{f.Plain, s})
	}
	ft := open(t, v, 2)
	if ft == nil {
		return
	}
	l, err := ft.ReadDir("/")
	t.Step()
	got := map[string]int64{}
	for _, e := range l {
		got[e.Name()] = e.Size()
	}
	for _, f := range fs {
		t.State(f.n)
		if s, ok := got[f.name]; err != nil || !ok || s != int64(f.n) {
			t.Failf("a file of %d bytes is listed with %d (%v, %v)", f.n, s, ok, err)
			return
		}
		if st, err := ft.Stat("/" + f.name); err != nil || st.Size() != int64(f.n) {
			t.Failf("a file of %d bytes: stat %v %v", f.n, st, err)
			return
		}
	}
}

// c03Faults: listings with up to three failing accesses
func c03Faults(i int, t *e2.T) {
	p := []string{"/", "/a", "/a/b", "/a/b/c"}[i/12]
	kind := i % 3
	pre := i / 3 % 4
	v := build(keys(0), ref.Spec{"/a/b/c/x": []byte("1"), "/a/b/c/y": []byte("22"), "/a/b/z": []byte("3"), "/a/w": nil})
	for f1 := 0; f1 < 20; f1++ {
		for f2 := f1; f2 < 20; f2++ {
			for f3 := f2; f3 < 20; f3++ {
				if f3 != f2 && t.Tier != "thorough" && f3 > f2+1 {
					break
				}
				v.FS.Hook = nil
				ft := open(t, v, 2)
				if ft == nil {
					return
				}
				cnt, hit := 0, 0
				switch pre {
				case 1:
					ft.ReadDir("/a")
				case 2:
					ft.Stat("/a/b/c/x")
				case 3:
					ft.ReadFile("/a/b/z")
				}
				v.FS.Hook = func(o, q string) error {
					cnt++
					if cnt-1 == f1 || cnt-1 == f2 || cnt-1 == f3 {
						hit++
						switch kind {
						case 1:
							return ref.Partial{Err: errFault}
						case 2:
							return os.ErrNotExist
						}
						return errFault
					}
					return nil
				}
				for r := 0; r < 4; r++ {
					before := hit
					bad, err := do(t, ft, v, op{'L', p})
					if bad == "" && err != nil && hit == before {
						bad = fmt.Sprintf("list %s fails without a remote failure: %v", p, err)
					}
					if bad != "" {
						t.Failf("failures (kind %d) of accesses %d, %d, %d, attempt %d: %s", kind, f1, f2, f3, r, bad)
						return
					}
				}
				t.State(i, f1, f2, f3, hit)
				if f3 >= cnt {
					break
				}
			}
			if f2 > 12 {
				break
			}
		}
	}
}

var c03groups = []e2.Group{
	{Name: "entry shapes", Bounds: "all 4096 subsets of 12 shapes of entries (files, directories, links, bookkeeping, undecryptable and unsafe names)", N: n(64), Run: c03Subsets},
	{Name: "entry counts", Bounds: "29 directory sizes from 0 to 2500 x 1-8 workers", N: n(29 * 4), Run: c03Counts},
	{Name: "attributes", Bounds: "7 kinds x all 512 permission sets x setuid/setgid/sticky, 6 times", N: n(64), Run: c03Attrs},
	sizesGroup,
	{Name: "remote failures", Bounds: "4 depths x every placement of 1-2 (thorough 3) failures x 3 kinds of failure x 4 preceding histories, 4 attempts each", N: n(4 * 12), Run: c03Faults},
	specialGroup, nearGroup,
}

// ---- C12 -------------------------------------------------------------------------------------

// poke sends every kind of request for a path; only the ending counts. It also checks that no
// unsafe name comes out.
func poke(t *e2.T, ft *filetree.FileTree, ps ...string) {
	for _, p := range ps {
		t.Steps(3)
		l, err := ft.ReadDir(p)
		for _, e := range l {
			if nm := e.Name(); err == nil && (nm == "" || nm == "." || nm == ".." || strings.ContainsAny(nm, "/\x00")) {
				t.Failf("listing %s returns the unsafe name %q", p, nm)
			}
			e.Size()
			e.Mode()
			e.ModTime()
			e.IsDir()
		}
		if i, err := ft.Stat(p); err == nil {
			i.Size()
			i.Mode()
			i.Name()
		}
		ft.ReadFile(p)
	}
}

// sane checks that the intact part of the volume is still served.
func sane(t *e2.T, ft *filetree.FileTree, v *ref.Volume, what string) bool {
	for _, o := range []op{{'R', "/ok/file"}, {'S', "/ok/file"}, {'L', "/ok"}, {'R', "/ok/sub/f2"}, {'L', "/ok/sub"}} {
		bad, err := do(t, ft, v, o)
		if err != nil {
			bad = fmt.Sprintf("%v fails: %v", o, err)
		}
		if bad != "" {
			t.Failf("after %s: %s", what, bad)
			return false
		}
	}
	return true
}

func hostile(i int) *ref.Volume {
	return build(keys(i%8), ref.Spec{"/ok/file": ref.Content(5000, 1), "/ok/sub/f2": []byte("2"), "/bad/": nil})
}

func c12Contents(i int, t *e2.T) { // files of every length, several kinds of content
	const parts = 128
	v := hostile(i)
	k := keys(i % 8)
	d := v.Resolve("/bad")
	good := k.File(ref.Content(2*ref.BS+50, 2), ref.ID(9), nil)
	max := 2*ref.CBS + 120
	cnt := 0
	var names []string
	for l := i; l < max; l += parts {
		kinds := 6
		if t.Tier != "thorough" && l > 200 && (l-ref.Hdr)%ref.CBS > 80 && (l-ref.Hdr)%ref.CBS < ref.CBS-10 {
			kinds = 2
		}
		for kind := 0; kind < kinds; kind++ {
			var b []byte
			switch kind {
			case 0:
				b = ref.Content(l, l)
			case 1:
				b = append(ref.Header(ref.ID(1)), ref.Content(l, 3)...)[:l]
			case 2:
				b = make([]byte, l)
			case 3:
				b = append(ref.Header(ref.ID(1)), make([]byte, l)...)[:l]
			case 4:
				b = bytes.Repeat([]byte{0xff}, l)
			case 5:
				b = append(append([]byte{}, good...), ref.Content(l, 5)...)[:l]
			}
			nm := fmt.Sprint("c", cnt)
			cnt++
			f := v.AddFile(d, nm, nil)
			f.Data, f.S = b, int64(len(b))
			if kind == 4 {
				f.S = int64(l * 7)
			}
			names = append(names, "/bad/"+nm)
		}
	}
	for v.FS.Slack = 1; v.FS.Slack <= 2; v.FS.Slack++ {
		ft := open(t, v, 2)
		if ft == nil {
			return
		}
		poke(t, ft, "/bad")
		for x, p := range names {
			poke(t, ft, p)
			if x%20 == 0 && !sane(t, ft, v, "reading hostile files up to "+p) {
				return
			}
		}
		if !sane(t, ft, v, "reading hostile files") {
			return
		}
	}
	t.State(i, cnt)
	t.Sample("files of lengths %d, %d, ... with 6 kinds of content", i, i+parts)
}

func c12DirIV(i int, t *e2.T) { // directory IV files of every length
	v := hostile(i)
	k := keys(i % 8)
	var dirs []string
	for x := 0; x < 12; x++ {
		d := v.Sub(v.FS.Top, fmt.Sprint("h", x))
		v.AddFile(d, "in", []byte("in"))
		v.Sub(d, "sub")
		l := i
		if i >= 64 {
			l = []int{100, 255, 256, 1000, 4096, 65536, 1 << 20, 3 << 20}[i-64]
		}
		var iv []byte
		switch x {
		case 0:
			iv = make([]byte, l)
		case 1:
			iv = bytes.Repeat([]byte{0xff}, l)
		case 2:
			iv = ref.Content(l, 3)
		case 3: // the genuine one cut or extended
			iv = append(append([]byte{}, d.IV...), make([]byte, l)...)[:l]
		case 4:
			iv = k.Conf("x")
		}
		nd := d.Kid("gocryptfs.diriv")
		nd.Data, nd.S = iv, int64(len(iv))
		switch x {
		case 5: // a directory in its place
			nd.M |= os.ModeDir
		case 6: // gone
			d.Kids = d.Kids[1:]
		case 7: // listed twice
			d.Kids = append(d.Kids, nd)
		case 8: // only the IV
			d.Kids = d.Kids[:1]
		case 9: // claims to be a directory, is a file
			d.Kids = nil
			d.M = 0644
			d.M |= os.ModeDir
		case 10: // claims to be a file, is a directory
			d.M = 0644
		case 11: // all children under names of another IV
			for _, c := range d.Kids[1:] {
				c.N = k.Name("other", ref.Content(16, 5))
			}
		}
		dirs = append(dirs, "/"+d.Plain)
	}
	ft := open(t, v, 2)
	if ft == nil {
		return
	}
	for _, p := range dirs {
		poke(t, ft, p, p+"/in", p+"/sub", p+"/sub/x", p+"/gocryptfs.diriv", p+"/other")
		if !sane(t, ft, v, fmt.Sprintf("directory %s with a hostile IV (length %d)", p, i)) {
			return
		}
	}
	poke(t, ft, "/")
	t.State(i)
}

func c12Names(i int, t *e2.T) {
	v := hostile(i)
	k := keys(i % 8)
	d := v.Resolve("/bad")
	var nm []string
	switch {
	case i < 64: // every length in steps, raw and base64
		for j := 0; j < 20; j++ {
			l := i*20 + j
			nm = append(nm, strings.Repeat("A", l), k.B64.EncodeToString(ref.Content(l, 1)), strings.Repeat("\xff", l))
		}
	case i < 80: // every multiple of the cipher block up to 8 KiB
		for j := 0; j < 32; j++ {
			l := ((i-64)*32 + j) * 16
			nm = append(nm, k.B64.EncodeToString(ref.Content(l, 1)), strings.Repeat("A", (l+2)/3*4))
		}
	case i < 88: // single bytes and pairs
		for j := 0; j < 32; j++ {
			b := byte((i-80)*32 + j)
			nm = append(nm, string([]byte{b}), string([]byte{'A', b}), string([]byte{b, b, b, b}), k.Name("q", d.IV)+string([]byte{b}))
		}
	case i < 96: // plaintexts that must not come out, in every padding
		for l := 0; l <= 40; l++ {
			for _, c := range []string{"/", "\x00", ".", "..", "../", "x/y", "\x00x"} {
				nm = append(nm, k.RawName(ref.Pad([]byte(strings.Repeat(c, l))), d.IV))
			}
		}
		for b := 0; b < 256; b++ {
			p := bytes.Repeat([]byte{byte(b)}, 16*(1+i%4))
			nm = append(nm, k.RawName(p, d.IV))
		}
	default:
		nm = []string{"", ".", "..", "/", "a/b", "../..", "/etc/passwd", "\x00", "gocryptfs.diriv/x", "gocryptfs.longname.", "gocryptfs.longname..name", strings.Repeat("A", 1<<20), strings.Repeat("A", 1<<22), k.Name("dup", d.IV), k.Name("dup", d.IV), "=", "====", "A===", "AA==", "AAA="}
	}
	for j, x := range nm {
		nd := v.AddRaw(d, x, []byte("data"))
		if j%3 == 1 {
			nd.M |= os.ModeDir
		}
	}
	ft := open(t, v, 1+i%3)
	if ft == nil {
		return
	}
	poke(t, ft, "/bad", "/bad/dup", "/bad/q", "/bad/..", "/bad/x", "/bad/ok")
	if !sane(t, ft, v, "listing hostile names") {
		return
	}
	poke(t, ft, "/bad")
	l, err := ft.ReadDir("/bad")
	_ = err
	for _, e := range l {
		poke(t, ft, "/bad/"+e.Name())
	}
	sane(t, ft, v, "requests for hostile names")
	t.State(i)
}

func c12Kinds(i int, t *e2.T) { // every combination of listed kind, real kind and claimed size
	v := hostile(i)
	d := v.Resolve("/bad")
	szs := []int64{0, 1, 17, 18, 19, 49, 50, 51, 4145, 4146, 4147, 8274, 8275, 1 << 31, 1<<32 - 1, 1 << 32, 1 << 62, math.MaxInt64, -1, -18, -4146, math.MinInt64}
	types := []os.FileMode{0, os.ModeDir, os.ModeSymlink, os.ModeNamedPipe, os.ModeSocket, os.ModeDevice, os.ModeDevice | os.ModeCharDevice, os.ModeIrregular, os.ModeDir | os.ModeSymlink, 0xffffffff, os.ModeAppend | os.ModeExclusive | os.ModeTemporary}
	s := szs[i/len(types)]
	ty := types[i%len(types)]
	f := v.AddFile(d, "file", []byte("content"))
	g := v.Sub(d, "dir")
	v.AddFile(g, "inner", []byte("inner"))
	f.S, g.S = s, s
	f.M, g.M = ty|0644, ty|0755
	h := v.AddFile(d, "plain", []byte("c"))
	h.S = s
	h.Info.T = time.Unix(s, 0)
	m := v.Sub(d, "pdir")
	m.S = s
	ft := open(t, v, 2)
	if ft == nil {
		return
	}
	for r := 0; r < 2; r++ {
		poke(t, ft, "/bad", "/bad/file", "/bad/dir", "/bad/dir/inner", "/bad/plain", "/bad/pdir", "/bad/pdir/x", "/bad/file/x")
		if !sane(t, ft, v, fmt.Sprintf("entries of kind %v and size %d", ty, s)) {
			return
		}
	}
	t.State(i)
}

var c12groups = []e2.Group{
	{Name: "file contents", Bounds: "every file length up to two blocks and 120 bytes x 2-6 kinds of content, wrong listed sizes", N: n(128), Run: c12Contents},
	{Name: "directory IVs", Bounds: "every IV file length 0-63 and 8 larger ones x 12 kinds of damage", N: n(72), Run: c12DirIV},
	{Name: "names", Bounds: "every name length to 1280 and every cipher-block multiple to 8 KiB, every byte, unsafe plaintexts, names of 4 MiB", N: n(104), Run: c12Names},
	{Name: "kinds and sizes", Bounds: "22 claimed sizes x 11 kinds for files and directories", N: n(22 * 11), Run: c12Kinds},
}

var sizesGroup = e2.Group{Name: "sizes", Bounds: "plaintext sizes around 14 block boundaries up to 4 TiB, listed and stat-ed", N: n(8 * 14), Run: c03Sizes}
