// etree decides C01-C05 and C12 by enumerating volumes, tampering, faults and request histories
// against filetree.FileTree over an in-memory remote built by the reference implementation.
package main

import (
	"bytes"
	"errors"
	"fmt"
	"os"
	"path"
	"reflect"
	"sort"
	"strings"
	"unsafe"

	"github.com/flawedmatrix/gocryptsftp/filetree"
	"github.com/flawedmatrix/gocryptsftp/gocrypt/tlog"

	"verif/e2"
	"verif/ref"
)

const pass = "volume password"

var kcache [8]*ref.Keys

func keys(v int) *ref.Keys {
	if kcache[v] == nil {
		kcache[v] = ref.NewKeys(ref.Content(32, 7), v&1 == 0, v&2 == 0, v&4 != 0)
	}
	return kcache[v]
}

var sessions []*filetree.FileTree

// release lets go of old sessions, so that their memory is not scanned forever (Init collects
// garbage each time). Best effort: it calls Stop on whatever the session holds that has it.
func release() {
	for len(sessions) > 4 {
		stop(sessions[0])
		sessions = sessions[1:]
	}
}

func stop(ft *filetree.FileTree) {
	defer func() { recover() }()
	v := reflect.ValueOf(ft).Elem()
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		if f.Kind() != reflect.Ptr || f.IsNil() {
			continue
		}
		if m := reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem().MethodByName("Stop"); m.IsValid() && m.Type().NumIn() == 0 {
			m.Call(nil)
		}
	}
}

func open(t *e2.T, v *ref.Volume, workers int) *filetree.FileTree {
	ft, err := filetree.Init(v.FS.Root, []byte(pass), workers, v.FS)
	t.Step()
	if err != nil {
		t.Failf("the volume does not open: %v", err)
		return nil
	}
	sessions = append(sessions, ft)
	release()
	return ft
}

func build(k *ref.Keys, spec ref.Spec) *ref.Volume { return ref.Build(k, "/vol", pass, spec) }

// info is everything a client sees of an entry.
func info(i os.FileInfo) string {
	if i == nil {
		return "<nil>"
	}
	return fmt.Sprintf("%q %v dir=%v size=%d %v", i.Name(), i.Mode(), i.IsDir(), i.Size(), i.ModTime().UTC())
}

func infoNoSize(i os.FileInfo) string {
	return fmt.Sprintf("%q %v dir=%v %v", i.Name(), i.Mode(), i.IsDir(), i.ModTime().UTC())
}

// want is the listed form of a stored object. The size of anything but a file is unspecified.
func want(n *ref.Node) string {
	i := n.Info
	i.N = n.Plain
	if i.M.IsRegular() {
		i.S = int64(len(n.PData))
		return info(i)
	}
	return infoNoSize(i)
}

func show(i os.FileInfo) string {
	if i.Mode().IsRegular() {
		return info(i)
	}
	return infoNoSize(i)
}

func wantList(d *ref.Node) []string {
	l := []string{}
	for _, k := range d.Kids {
		if k.Plain != "" {
			l = append(l, want(k))
		}
	}
	sort.Strings(l)
	return l
}

func shown(is []os.FileInfo) []string {
	l := []string{}
	for _, i := range is {
		l = append(l, show(i))
	}
	sort.Strings(l)
	return l
}

func diff(a, b []string) string {
	if len(a) > 6 || len(b) > 6 {
		for i := range a {
			if i >= len(b) || a[i] != b[i] {
				return fmt.Sprintf("%d entries instead of %d, first difference %s", len(a), len(b), a[i])
			}
		}
		return fmt.Sprintf("%d entries instead of %d", len(a), len(b))
	}
	return fmt.Sprintf("%v instead of %v", a, b)
}

func same(a, b []string) bool { return strings.Join(a, "\n") == strings.Join(b, "\n") }

func n(k int) func(string) int { return func(string) int { return k } }

// ---- C01 -------------------------------------------------------------------------------------

func sizesFor(tier string) []int {
	m := map[int]bool{}
	for i := 0; i <= 48; i++ {
		m[i] = true
	}
	for k := 1; k <= 4; k++ {
		for d := -40; d <= 40; d++ {
			m[k*ref.BS+d] = true
		}
	}
	for _, k := range []int{8, 15, 16, 17, 31, 32, 33, 34, 35, 63, 64, 65} {
		for _, d := range []int{-33, -32, -31, -1, 0, 1, 31, 32, 33} {
			m[k*ref.BS+d] = true
		}
	}
	for _, s := range []int{100000, 131072, 132 << 10, 132<<10 + 1, 136<<10 - 1, 136 << 10, 136<<10 + 1, 262144, 300000, 1 << 20, 1<<20 + 1} {
		m[s] = true
	}
	if tier == "thorough" {
		for s := 0; s < 3*ref.BS+100; s += 3 {
			m[s] = true
		}
		for k := 5; k < 70; k++ {
			for d := -2; d <= 2; d++ {
				m[k*ref.BS+d] = true
			}
		}
		m[5<<20+17] = true
	}
	var l []int
	for s := range m {
		l = append(l, s)
	}
	sort.Ints(l)
	return l
}

const chunk = 16

func c01Sizes(i int, t *e2.T) {
	ss := sizesFor(t.Tier)
	nch := (len(ss) + chunk - 1) / chunk
	v, c := i/nch, i%nch
	end := (c + 1) * chunk
	if end > len(ss) {
		end = len(ss)
	}
	spec := ref.Spec{}
	for _, s := range ss[c*chunk : end] {
		spec[fmt.Sprintf("/d/f%d", s)] = ref.Content(s, s)
	}
	vol := build(keys(v), spec)
	readAll(t, vol, spec, 2)
	t.Sample("variant %s, sizes %v", keys(v).Variant, ss[c*chunk:end])
}

// readAll reads every file of the volume, keeps what it got and compares at the end, twice.
func readAll(t *e2.T, vol *ref.Volume, spec ref.Spec, workers int) {
	ft := open(t, vol, workers)
	if ft == nil {
		return
	}
	var ps []string
	for p := range spec {
		if !strings.HasSuffix(p, "/") {
			ps = append(ps, p)
		}
	}
	sort.Strings(ps)
	got := map[string][]byte{}
	for round := 0; round < 2; round++ {
		for x := range ps {
			p := ps[x]
			if round == 1 {
				p = ps[len(ps)-1-x]
			}
			b, err := ft.ReadFile(p)
			t.Step()
			if err != nil {
				t.Failf("%s: reading %s (%d bytes) fails: %v", vol.Variant, p, len(spec[p]), err)
				return
			}
			if !bytes.Equal(b, spec[p]) {
				t.Failf("%s: reading %s (%d bytes) gives %d bytes that differ from the plaintext", vol.Variant, p, len(spec[p]), len(b))
				return
			}
			if round == 0 {
				got[p] = b
			}
			t.State(vol.Variant, p, len(spec[p]))
		}
	}
	for _, p := range ps {
		if !bytes.Equal(got[p], spec[p]) {
			t.Failf("%s: the data returned for %s changed after it was returned", vol.Variant, p)
			return
		}
	}
}

// c01Holes: every hole pattern of up to 5 blocks, with every kind of tail
func c01Holes(i int, t *e2.T) {
	v := i % 8
	vol := build(keys(v), ref.Spec{})
	spec := ref.Spec{}
	d := vol.FS.Top
	for nb := 1; nb <= 5; nb++ {
		for pat := 0; pat < 1<<uint(nb); pat++ {
			for _, tail := range []int{0, 1, 31, 4095} {
				if (nb+pat+tail)%4 != i/8 && t.Tier != "thorough" {
					continue
				}
				plain := ref.Content(nb*ref.BS+tail, nb*100+pat+1)
				for b := 0; b < nb; b++ {
					if pat>>uint(b)&1 != 0 {
						copy(plain[b*ref.BS:(b+1)*ref.BS], make([]byte, ref.BS))
					}
				}
				name := fmt.Sprintf("h%d-%x-%d", nb, pat, tail)
				f := vol.AddFile(d, name, nil)
				f.Data = vol.File(plain, ref.ID(i*1000+nb*64+pat), func(b int) bool { return pat>>uint(b)&1 != 0 })
				f.S = int64(len(f.Data))
				f.PData = plain
				spec["/"+name] = plain
			}
		}
	}
	// zero plaintext stored as real blocks, and a sparse file beyond the pooled buffer size
	plain := make([]byte, 40*ref.BS+7)
	for _, every := range []int{1, 2, 3, 39} {
		name := fmt.Sprint("sparse", every)
		f := vol.AddFile(d, name, nil)
		f.Data = vol.File(plain, ref.ID(77), func(b int) bool { return b%every == 0 })
		f.S = int64(len(f.Data))
		f.PData = plain
		spec["/"+name] = plain
	}
	f := vol.AddFile(d, "headeronly", nil)
	f.Data = ref.Header(ref.ID(5))
	f.S = 18
	spec["/headeronly"] = []byte{}
	readAll(t, vol, spec, 3)
}

// c01Alone: each of some sizes in a session of its own, first thing read
func c01Alone(i int, t *e2.T) {
	ss := []int{0, 1, 4095, 4096, 4097, 8192, 8193, 135167, 135168, 135169, 139264, 139265, 200000}
	s := ss[i/8]
	spec := ref.Spec{"/one": ref.Content(s, 1), "/two": ref.Content(5000, 2)}
	for w := 1; w <= 3; w++ {
		readAll(t, build(keys(i%8), spec), spec, w)
	}
}

// c01High: long sparse files with data at the blocks whose numbers fill a byte, two bytes
func c01High(i int, t *e2.T) {
	v, nb := []int{0, 4, 1, 5, 2, 6, 3, 7}[i%8], 4098
	if i >= 8 {
		v, nb = []int{0, 5}[i-8], 65538
	}
	data := map[int]bool{0: true, nb - 1: true}
	for b := 1; b <= nb; b *= 2 {
		data[b-1], data[b], data[b+1] = true, true, true
	}
	vol := build(keys(v), ref.Spec{})
	plain := make([]byte, (nb-1)*ref.BS+77)
	for b := range data {
		if b < nb {
			copy(plain[b*ref.BS:], ref.Content(ref.BS, b+3))
		}
	}
	f := vol.AddFile(vol.FS.Top, "high", nil)
	f.Data = vol.File(plain, ref.ID(900+i), func(b int) bool { return !data[b] })
	f.S, f.PData = int64(len(f.Data)), plain
	readAll(t, vol, ref.Spec{"/high": plain}, 1)
	t.Sample("variant %s: %d blocks, data at %d of them", keys(v).Variant, nb, len(data))
}

// ---- C02 -------------------------------------------------------------------------------------

// book decodes a stored file by the book.
func book(k *ref.Keys, d []byte) ([]byte, bool) {
	if len(d) == 0 {
		return []byte{}, true
	}
	if len(d) < ref.Hdr || d[0] != 0 || d[1] != 2 {
		return nil, false
	}
	var id [16]byte
	copy(id[:], d[2:])
	if id == [16]byte{} {
		return nil, false
	}
	d = d[ref.Hdr:]
	out := []byte{}
	for b := uint64(0); len(d) > 0; b++ {
		l := ref.CBS
		if l > len(d) {
			l = len(d)
		}
		if l == ref.CBS && bytes.Equal(d[:l], make([]byte, l)) {
			out = append(out, make([]byte, ref.BS)...)
		} else {
			p, ok := k.OpenBlock(d[:l], b, id)
			if !ok {
				return nil, false
			}
			out = append(out, p...)
		}
		d = d[l:]
	}
	return out, true
}

type tampered struct {
	desc string
	data []byte
}

// serveTampered puts the tampered files into one directory next to intact ones and reads them.
func serveTampered(t *e2.T, k *ref.Keys, ts []tampered) {
	for len(ts) > 0 {
		c := 48
		if c > len(ts) {
			c = len(ts)
		}
		vol := build(k, ref.Spec{"/d/intact": ref.Content(9000, 4), "/d/small": []byte("ok")})
		d := vol.Resolve("/d")
		for i, x := range ts[:c] {
			f := vol.AddFile(d, fmt.Sprint("t", i), nil)
			f.Data, f.S = x.data, int64(len(x.data))
		}
		ft := open(t, vol, 2)
		if ft == nil {
			return
		}
		for i, x := range ts[:c] {
			wantB, ok := book(k, x.data)
			for r := 0; r < 2; r++ {
				got, err := ft.ReadFile(fmt.Sprint("/d/t", i))
				t.Step()
				if err != nil && len(got) > 0 {
					t.Failf("%s: %s: the read fails but returns %d bytes", k.Variant, x.desc, len(got))
					return
				}
				if err == nil && !ok {
					t.Failf("%s: %s: the read succeeds with %d bytes though the file is not authentic", k.Variant, x.desc, len(got))
					return
				}
				if err == nil && !bytes.Equal(got, wantB) {
					t.Failf("%s: %s: the read returns %d bytes that are not the authentic content (%d bytes)", k.Variant, x.desc, len(got), len(wantB))
					return
				}
				if err == nil {
					t.Note("well-formed variants", 1)
				}
			}
			t.State(x.desc, ok)
		}
		for p, w := range map[string][]byte{"/d/intact": ref.Content(9000, 4), "/d/small": []byte("ok")} {
			if got, err := ft.ReadFile(p); err != nil || !bytes.Equal(got, w) {
				t.Failf("%s: an intact file reads wrongly next to tampered ones: %v", k.Variant, err)
				return
			}
		}
		ts = ts[c:]
	}
}

var c02variants = []int{0, 4, 1, 5} // hkdf gcm, hkdf siv, plain gcm, plain siv

func with(b []byte, i int, c byte) []byte {
	x := append([]byte(nil), b...)
	x[i] = c
	return x
}

// c02Bytes: every byte of a three-block file changed in several ways
func c02Bytes(i int, t *e2.T) {
	const parts = 32
	k := keys(c02variants[i/parts])
	plain := ref.Content(2*ref.BS+10, 3)
	f := k.File(plain, ref.ID(3), nil)
	small := k.File([]byte("hello"), ref.ID(4), nil)
	var ts []tampered
	for p := i % parts; p < len(f); p += parts {
		ms := []byte{f[p] ^ 1, f[p] ^ 0x80}
		if t.Tier == "thorough" || p < 60 || p%ref.CBS < 60 || p > len(f)-60 {
			for b := uint(1); b < 7; b++ {
				ms = append(ms, f[p]^1<<b)
			}
			ms = append(ms, 0, 0xff)
		}
		for _, m := range ms {
			if m != f[p] {
				ts = append(ts, tampered{fmt.Sprintf("byte %d of %d changed from %02x to %02x", p, len(f), f[p], m), with(f, p, m)})
			}
		}
	}
	for p := i % parts; p < len(small); p += parts { // every value of every byte of a small file
		for m := 0; m < 256; m++ {
			if byte(m) != small[p] {
				ts = append(ts, tampered{fmt.Sprintf("small file, byte %d set to %02x", p, m), with(small, p, byte(m))})
			}
		}
		ts = append(ts, tampered{fmt.Sprintf("small file, byte %d removed", p), append(append([]byte{}, small[:p]...), small[p+1:]...)})
		ts = append(ts, tampered{fmt.Sprintf("small file, byte inserted at %d", p), append(append(append([]byte{}, small[:p]...), 7), small[p:]...)})
		for q := p + 1; q < len(small); q++ {
			x := append([]byte{}, small...)
			x[p], x[q] = x[q], x[p]
			ts = append(ts, tampered{fmt.Sprintf("small file, bytes %d and %d swapped", p, q), x})
		}
	}
	serveTampered(t, k, ts)
}

// c02Cuts: every truncation and short extension
func c02Cuts(i int, t *e2.T) {
	const parts = 16
	k := keys(c02variants[i/parts])
	f := k.File(ref.Content(2*ref.BS+10, 3), ref.ID(3), nil)
	one := k.File(ref.Content(ref.BS, 3), ref.ID(6), nil)
	var ts []tampered
	for p := i % parts; p < len(f); p += parts {
		if t.Tier == "thorough" || p < 200 || p%ref.CBS < 100 || p%ref.CBS > ref.CBS-40 || p%3 == 0 {
			ts = append(ts, tampered{fmt.Sprintf("cut to %d of %d bytes", p, len(f)), f[:p]})
		}
	}
	for p := i % parts; p <= 80; p += parts {
		for _, g := range [][]byte{one, f[:ref.Hdr+2*ref.CBS], f} {
			ts = append(ts, tampered{fmt.Sprintf("%d zero bytes appended to %d", p, len(g)), append(append([]byte{}, g...), make([]byte, p)...)})
			ts = append(ts, tampered{fmt.Sprintf("%d own bytes appended to %d", p, len(g)), append(append([]byte{}, g...), g[ref.Hdr:ref.Hdr+p]...)})
		}
		// zeroed prefixes and suffixes of blocks: not holes
		if p > 0 {
			x := append([]byte{}, f...)
			copy(x[ref.Hdr:], make([]byte, p))
			ts = append(ts, tampered{fmt.Sprintf("first %d bytes of block 0 zeroed", p), x})
			x = append([]byte{}, f...)
			copy(x[ref.Hdr+ref.CBS+p:ref.Hdr+2*ref.CBS], make([]byte, ref.CBS))
			ts = append(ts, tampered{fmt.Sprintf("block 1 zeroed from byte %d", p), x})
			x = append([]byte{}, f...)
			copy(x[ref.Hdr+ref.CBS:], make([]byte, ref.CBS-p))
			ts = append(ts, tampered{fmt.Sprintf("block 1 zeroed except its last %d bytes", p), x})
			x = make([]byte, ref.Hdr+p)
			copy(x, f[:ref.Hdr])
			ts = append(ts, tampered{fmt.Sprintf("header and %d zero bytes", p), x})
			x = make([]byte, ref.Hdr+ref.CBS+p)
			copy(x, f[:ref.Hdr])
			ts = append(ts, tampered{fmt.Sprintf("header, a hole and %d zero bytes", p), x})
			ts = append(ts, tampered{fmt.Sprintf("%d zero bytes", p), make([]byte, p)})
		}
	}
	serveTampered(t, k, ts)
}

// c02Blocks: every sequence of up to 4 blocks taken from two files, holes and mutilated blocks
func c02Blocks(i int, t *e2.T) {
	const parts = 40
	k := keys(c02variants[i/parts])
	a, b := ref.Content(3*ref.BS+9, 5), ref.Content(3*ref.BS+9, 6)
	fa, fb := k.File(a, ref.ID(10), nil), k.File(b, ref.ID(11), nil)
	blk := func(f []byte, n int) []byte {
		e := ref.Hdr + (n+1)*ref.CBS
		if e > len(f) {
			e = len(f)
		}
		return f[ref.Hdr+n*ref.CBS : e]
	}
	type bl struct {
		n string
		d []byte
	}
	al := []bl{{"A0", blk(fa, 0)}, {"A1", blk(fa, 1)}, {"A2", blk(fa, 2)}, {"Atail", blk(fa, 3)}, {"B0", blk(fb, 0)}, {"B1", blk(fb, 1)}, {"Btail", blk(fb, 3)}, {"zero", make([]byte, ref.CBS)}, {"short1", blk(fa, 1)[:ref.CBS-1]}}
	nonceSwap := append(append([]byte{}, blk(fa, 0)[:16]...), blk(fa, 1)[16:]...)
	al = append(al, bl{"nonce0body1", nonceSwap})
	var ts []tampered
	var rec func(seq []int)
	cnt := 0
	rec = func(seq []int) {
		for h := 0; h < 2; h++ {
			cnt++
			if cnt%parts != i%parts {
				continue
			}
			x := append([]byte{}, [][]byte{fa, fb}[h][:ref.Hdr]...)
			d := "header " + "AB"[h:h+1]
			for _, s := range seq {
				x = append(x, al[s].d...)
				d += " " + al[s].n
			}
			ts = append(ts, tampered{d, x})
		}
		lim := 3
		if t.Tier == "thorough" {
			lim = 4
		}
		if len(seq) >= lim {
			return
		}
		for s := range al {
			rec(append(append([]int{}, seq...), s))
		}
	}
	rec(nil)
	if i%parts == 0 { // other headers
		for v := 0; v < 65536; v += 1 {
			if v == 2 || t.Tier != "thorough" && v > 300 && v%257 != 0 && v&0xff != 2 {
				continue
			}
			x := append([]byte{}, fa[:ref.Hdr+ref.CBS]...)
			x[0], x[1] = byte(v>>8), byte(v)
			ts = append(ts, tampered{fmt.Sprint("header version ", v), x})
		}
		x := append([]byte{}, fa...)
		copy(x[2:18], make([]byte, 16))
		ts = append(ts, tampered{"file id zero", x})
		x = append([]byte{0, 2}, make([]byte, 16+ref.CBS)...)
		ts = append(ts, tampered{"file id zero with a hole", x})
	}
	serveTampered(t, k, ts)
}

// c02Big: a 40-block file: every pair of blocks swapped, each block changed, removed, duplicated
func c02Big(i int, t *e2.T) {
	const nb = 40
	k := keys(c02variants[i/nb])
	x := i % nb
	f := k.File(ref.Content(nb*ref.BS, 8), ref.ID(12), nil)
	at := func(b int) (int, int) { return ref.Hdr + b*ref.CBS, ref.Hdr + (b+1)*ref.CBS }
	var ts []tampered
	s, e := at(x)
	for y := x + 1; y < nb; y += 1 + 3*b2i(t.Tier != "thorough") {
		g := append([]byte{}, f...)
		p, q := at(y)
		copy(g[s:e], f[p:q])
		ts = append(ts, tampered{fmt.Sprintf("block %d replaced by %d", x, y), append([]byte{}, g...)})
		copy(g[p:q], f[s:e])
		ts = append(ts, tampered{fmt.Sprintf("blocks %d and %d swapped", x, y), g})
	}
	ts = append(ts, tampered{fmt.Sprintf("block %d removed", x), append(append([]byte{}, f[:s]...), f[e:]...)})
	ts = append(ts, tampered{fmt.Sprintf("block %d duplicated", x), append(append([]byte{}, f[:e]...), f[s:]...)})
	ts = append(ts, tampered{fmt.Sprintf("cut after block %d", x), f[:e]})
	ts = append(ts, tampered{fmt.Sprintf("cut in block %d", x), f[:e-100]})
	ts = append(ts, tampered{fmt.Sprintf("block %d first byte", x), with(f, s, f[s]^1)})
	ts = append(ts, tampered{fmt.Sprintf("block %d last byte", x), with(f, e-1, f[e-1]^1)})
	ts = append(ts, tampered{fmt.Sprintf("block %d middle", x), with(f, s+2000, f[s+2000]^1)})
	g := append([]byte{}, f...)
	copy(g[s:e], make([]byte, ref.CBS))
	ts = append(ts, tampered{fmt.Sprintf("block %d zeroed", x), g})
	serveTampered(t, k, ts)
}

// c02High: a block moved to a position whose number differs in one bit, in long sparse files
func c02High(i int, t *e2.T) {
	k, bits := keys(c02variants[i%4]), 12
	if i >= 4 {
		k, bits = keys([]int{0, 5}[i-4]), 16
	}
	nb := 1<<uint(bits) + 1
	data := map[int]bool{0: true}
	for b := 1; b < nb; b *= 2 {
		data[b] = true
	}
	plain := make([]byte, nb*ref.BS)
	for b := range data {
		copy(plain[b*ref.BS:], ref.Content(ref.BS, b+3))
	}
	f := k.File(plain, ref.ID(12), func(b int) bool { return !data[b] })
	at := func(b int) []byte { return f[ref.Hdr+b*ref.CBS : ref.Hdr+(b+1)*ref.CBS] }
	first, hole := append([]byte(nil), at(0)...), make([]byte, ref.CBS)
	low := 0
	if bits == 16 {
		low = 16
	}
	for b := low; b <= bits; b++ {
		orig := append([]byte(nil), at(1<<uint(b))...)
		copy(at(1<<uint(b)), first)
		serveTampered(t, k, []tampered{{fmt.Sprintf("block %d replaced by block 0", 1<<uint(b)), f}})
		copy(at(1<<uint(b)), hole)
		copy(at(0), orig)
		serveTampered(t, k, []tampered{{fmt.Sprintf("block %d moved to position 0", 1<<uint(b)), f}})
		copy(at(0), first)
		copy(at(1<<uint(b)), orig)
	}
	if bits < 16 {
		serveTampered(t, k, []tampered{{"untouched", f}})
	}
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

var errFault = errors.New("injected remote failure")

func init() {
	tlog.Warn.Enabled = false
}

func main() {
	c01n := func(tier string) int { return 8 * ((len(sizesFor(tier)) + chunk - 1) / chunk) }
	e2.Main([]e2.Check{
		{Prop: "C01", Groups: []e2.Group{
			{Name: "sizes", Bounds: "all file lengths 0-48, within 40 bytes of 1-4 blocks, within 33 bytes of 8-65 blocks, around 132 KiB and 1 MiB (thorough: every third length to 3 blocks, every block multiple to 70, 5 MiB) x 8 volume variants; each file read twice, results compared again at the end", N: c01n, Run: c01Sizes},
			{Name: "holes", Bounds: "all hole patterns of 1-5 blocks x 4 tails x 8 variants (quick: a quarter per variant pair), sparse 40-block files, header-only file", N: n(32), Run: c01Holes},
			{Name: "alone", Bounds: "13 sizes x 8 variants x 1-3 workers in fresh sessions", N: n(13 * 8), Run: c01Alone},
			{Name: "high", Bounds: "sparse files of 4098 blocks x 8 variants and of 65538 blocks x 2 variants, with data at and next to every block whose number is a power of two", N: n(10), Run: c01High},
		}, Assume: []string{"the reference implementation of the format, built on the standard library's AES-GCM, jacobsa SIV and rfjakob EME, is what gocryptfs writes", "files stored under a hashed long name are out of scope: the proxy does not support them"}},
		{Prop: "C02", Groups: []e2.Group{
			{Name: "bytes", Bounds: "every byte of a 3-block file changed in 2-10 ways, every value of every byte, every removal, insertion and swap in a small file, 4 variants", N: n(4 * 32), Run: c02Bytes},
			{Name: "cuts", Bounds: "truncation lengths of a 3-block file (thorough: all), extensions by 0-80 bytes, partly zeroed blocks, 4 variants", N: n(4 * 16), Run: c02Cuts},
			{Name: "blocks", Bounds: "all sequences of up to 3 (thorough 4) blocks over 10 kinds of block from two files x 2 headers x 4 variants, header versions", N: n(4 * 40), Run: c02Blocks},
			{Name: "big", Bounds: "40-block file: pairs swapped or replaced, each block removed, duplicated, changed, zeroed, cut, 4 variants", N: n(4 * 40), Run: c02Big},
			{Name: "high", Bounds: "blocks moved between positions whose numbers differ in one bit: bits 0-12 in files of 4097 blocks x 4 variants, bit 16 in files of 65537 blocks x 2 variants", N: n(6), Run: c02High},
		}, Assume: []string{"AES-GCM and AES-SIV are unforgeable: the oracle is the reference decoder, which accepts exactly the authentic blocks in place and all-zero blocks", "replaying an older version of the same block of the same file is indistinguishable in this format and not counted"}},
		{Prop: "C03", Groups: c03groups, Assume: []string{"the order of entries is unspecified; the size of anything but a regular file is unspecified"}},
		{Prop: "C04", Groups: c04groups, Assume: []string{"the fresh-session answer is computed by the reference model of the volume"}},
		{Prop: "C05", Groups: c05groups, Assume: []string{"symbolic links and special files are outside the agreement claim"}},
		{Prop: "C12", Groups: c12groups},
		{Prop: "C25", Groups: c25groups, Assume: []string{"the mark stands for any plaintext name"}},
	})
	_ = path.Base
}
