// econf decides C14: what unlocks a volume. The code under test may end its process on a bad
// config, so it runs in a worker process of its own; a worker that dies has obtained no key.
package main

import (
	"bufio"
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"io"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"

	"github.com/flawedmatrix/gocryptsftp/filetree"
	"github.com/flawedmatrix/gocryptsftp/gocrypt/configfile"
	"github.com/flawedmatrix/gocryptsftp/gocrypt/tlog"

	"verif/e2"
	"verif/ref"
)

type req struct {
	Mode string
	Conf []byte
	Pw   []byte
	Pws  [][]byte
	N    int
	Flag [3]bool
}

type rsp struct {
	Died bool
	Err  string
	Key  []byte
	Conf []byte
	Keys [][]byte
	Errs []string
}

// serve is the worker: it runs one request per input line.
func serve() {
	tlog.Warn.Enabled = false
	dir, err := ioutil.TempDir("", "econf")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	fmt.Println(dir)
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	for i := 0; ; i++ {
		l, err := in.ReadBytes('\n')
		if err != nil {
			return
		}
		var q req
		if err := json.Unmarshal(l, &q); err != nil {
			panic(err)
		}
		r := handle(q, filepath.Join(dir, fmt.Sprint("c", i)))
		b, _ := json.Marshal(r)
		os.Stdout.Write(append(b, '\n'))
	}
}

func handle(q req, fn string) (r rsp) {
	defer os.Remove(fn)
	defer func() {
		if p := recover(); p != nil {
			r = rsp{Died: true, Err: fmt.Sprint("panic: ", p)}
		}
	}()
	set := func(k []byte, err error) {
		r.Key = append([]byte(nil), k...)
		if err != nil {
			r.Err = err.Error()
		}
	}
	switch q.Mode {
	case "load":
		ioutil.WriteFile(fn, q.Conf, 0600)
		k, _, err := configfile.LoadAndDecrypt(fn, q.Pw)
		set(k, err)
	case "load2": // Load, then several attempts on the same object
		ioutil.WriteFile(fn, q.Conf, 0600)
		cf, err := configfile.Load(fn)
		if err != nil {
			set(nil, err)
			return
		}
		for _, p := range q.Pws {
			k, err := cf.DecryptMasterKey(p)
			e := ""
			if err != nil {
				e = err.Error()
			}
			r.Keys = append(r.Keys, append([]byte(nil), k...))
			r.Errs = append(r.Errs, e)
		}
	case "change": // change the password through the sequence Pws[0] -> Pws[1] ...
		ioutil.WriteFile(fn, q.Conf, 0600)
		var m []byte
		for i := 1; i < len(q.Pws); i++ {
			k, cf, err := configfile.LoadAndDecrypt(fn, q.Pws[i-1])
			if err != nil {
				set(nil, err)
				return
			}
			m = append([]byte(nil), k...)
			cf.EncryptKey(k, q.Pws[i], q.N)
			if !bytes.Equal(k, m) {
				set(nil, fmt.Errorf("EncryptKey changed the key"))
				return
			}
			if err := cf.WriteFile(); err != nil {
				set(nil, err)
				return
			}
			r.Keys = append(r.Keys, m)
		}
		r.Conf, _ = ioutil.ReadFile(fn)
	case "create":
		err := configfile.Create(fn, q.Pw, q.Flag[0], q.N, "econf", q.Flag[1], q.Flag[2], nil)
		set(nil, err)
		r.Conf, _ = ioutil.ReadFile(fn)
	case "init":
		v := ref.Build(keys(7), "/v", "x", ref.Spec{"/a": []byte("hello")})
		v.FS.Top.Kid("gocryptfs.conf").Data = q.Conf
		ft, err := filetree.Init("/v", q.Pw, 1, v.FS)
		set(nil, err)
		if err == nil {
			d, err := ft.ReadFile("/a")
			set(d, err)
		} else if ft != nil {
			r.Err = ""
		}
	}
	return
}

type worker struct {
	c   *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
	dir string
}

var w *worker

func call(t *e2.T, q req) rsp {
	t.Step()
	if w == nil {
		c := exec.Command(os.Args[0])
		c.Env = append(os.Environ(), "ECONF_WORKER=1", "GOMAXPROCS=1")
		in, _ := c.StdinPipe()
		out, _ := c.StdoutPipe()
		if err := c.Start(); err != nil {
			panic(err)
		}
		w = &worker{c, in, bufio.NewReaderSize(out, 1<<20), ""}
		l, _ := w.out.ReadString('\n')
		w.dir = strings.TrimSpace(l)
	}
	b, _ := json.Marshal(q)
	w.in.Write(append(b, '\n'))
	tm := time.AfterFunc(60*time.Second, func() { w.c.Process.Kill() })
	var l []byte
	var r rsp
	for { // anything the code under test prints itself is skipped
		var err error
		l, err = w.out.ReadBytes('\n')
		if err != nil {
			w.in.Close()
			w.c.Wait()
			if strings.Contains(w.dir, "econf") {
				os.RemoveAll(w.dir)
			}
			w = nil
			t.Note("ended the process", 1)
			r = rsp{Died: true}
			break
		}
		if json.Unmarshal(l, &r) == nil && bytes.HasPrefix(l, []byte(`{"Died"`)) {
			break
		}
	}
	tm.Stop()
	return r
}

func keys(v int) *ref.Keys {
	return ref.NewKeys(ref.Content(32, 321), v&1 != 0, v&2 != 0, v&4 == 0)
}

// semantics of a config, read independently
type conf struct {
	EncryptedKey []byte
	Version      uint16
	FeatureFlags []string
	ScryptObject struct {
		Salt            []byte
		N, R, P, KeyLen int
	}
}

var known = []string{"PlaintextNames", "DirIV", "EMENames", "GCMIV128", "LongNames", "AESSIV", "Raw64", "HKDF", "Trezor"}

// unlocks says by the book whether the config and password give the master key.
func unlocks(js, pw []byte) ([]byte, bool) {
	var c conf
	if json.Unmarshal(js, &c) != nil {
		return nil, false
	}
	has := map[string]bool{}
	for _, f := range c.FeatureFlags {
		has[f] = true
	}
	for _, f := range known {
		delete(has, f)
	}
	if len(has) > 0 || c.Version != 2 {
		return nil, false
	}
	for _, f := range c.FeatureFlags {
		has[f] = true
	}
	if !has["GCMIV128"] || !has["PlaintextNames"] && !(has["DirIV"] && has["EMENames"]) {
		return nil, false
	}
	s := c.ScryptObject
	if s.N < 1024 || s.R < 8 || s.P < 1 || len(s.Salt) < 32 || s.KeyLen != 32 || s.N&(s.N-1) != 0 {
		return nil, false
	}
	m, ok := ref.Unwrap(js, pw)
	return m, ok && len(m) == 32
}

// try runs one config and password and compares with the book.
func try(t *e2.T, what string, js, pw []byte, mode string) bool {
	r := call(t, req{Mode: mode, Conf: js, Pw: pw})
	m, ok := unlocks(js, pw)
	if mode == "init" && ok {
		m = []byte("hello")
	}
	got := !r.Died && r.Err == ""
	switch {
	case got && !ok:
		t.Failf("%s: the volume unlocks (key %x) though it must not", what, r.Key)
	case got && !bytes.Equal(r.Key, m):
		t.Failf("%s: the key obtained is not the stored one", what)
	case !got && ok:
		t.Failf("%s: the right password and an intact config do not unlock: died=%v %s", what, r.Died, r.Err)
	case !got && len(r.Key) != 0 && mode != "init":
		t.Failf("%s: fails (%s) but hands out a key", what, r.Err)
	default:
		t.State(what, r.Died)
		return true
	}
	return false
}

var pws = []string{"p", "password", "correct horse battery staple", "pässwörd", " lead", "trail ", "a\nb", strings.Repeat("long", 15)}

func passwords(i int, t *e2.T) {
	pw := pws[i/4]
	k := keys(i % 4)
	js := k.Conf(pw)
	try(t, fmt.Sprintf("password %q", pw), js, []byte(pw), "load")
	c := map[string]bool{}
	for p := 0; p <= len(pw); p++ {
		for _, x := range []string{"a", "A", " ", "\n", "0", "\xff", "\x01"} {
			c[pw[:p]+x+pw[p:]] = true
			if p < len(pw) {
				c[pw[:p]+x+pw[p+1:]] = true
			}
		}
		c[pw[:p]] = true
		if p < len(pw) {
			c[pw[p:]] = true
			c[pw[:p]+pw[p+1:]] = true
			for b := uint(0); b < 8; b++ {
				c[pw[:p]+string([]byte{pw[p] ^ 1<<b})+pw[p+1:]] = true
			}
		}
	}
	c[pw+pw] = true
	c[strings.ToUpper(pw)] = true
	c[strings.TrimSpace(pw)] = true
	c[strings.Repeat("x", 64)] = true
	for x := range c {
		// HMAC pads passwords with zero bytes: such passwords are equivalent by construction
		if x == pw || x == "" || strings.HasSuffix(x, "\x00") || len(x) > 64 {
			continue
		}
		if !try(t, fmt.Sprintf("password %q, tried %q", pw, x), js, []byte(x), "load") {
			return
		}
	}
	t.Sample("password %q against %d neighbours", pw, len(c))
}

var longPws = []int{63, 64, 65, 71, 72, 73, 99, 100, 101, 127, 128, 129, 143, 144, 145, 199, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4097, 10000}

// longPasswords: passwords of these lengths against ones that differ late, or only in length.
func longPasswords(i int, t *e2.T) {
	n := longPws[i]
	var b []byte
	for j := 0; j < n; j++ {
		b = append(b, "abcdefghijklmnopqrstuvwxyz0123456789"[(j*7+j/36)%36])
	}
	js := keys(i % 4).Conf(string(b))
	c := map[string]bool{string(b): true, string(b) + "x": true, string(b) + "\n": true, string(b) + string(b): true}
	for _, p := range []int{n - 1, n - 2, n / 2, 0} {
		x := append([]byte(nil), b...)
		x[p] ^= 1
		c[string(x)] = true
	}
	for _, l := range longPws {
		if l-1 < n {
			x := append([]byte(nil), b...)
			x[l-1] ^= 1
			c[string(x)] = true
			c[string(b[:l-1])] = true
			c[string(b[:l])] = true
		}
	}
	for x := range c {
		if !try(t, fmt.Sprintf("password of %d bytes, one of %d", n, len(x)), js, []byte(x), "load") {
			return
		}
	}
	t.Sample("password of %d bytes against %d others", n, len(c))
}

func enckey(i int, t *e2.T) { // every bit flip, truncation and extension of the encrypted key
	k := keys(i % 4)
	o := k.DefaultOpt()
	enc := k.Wrap([]byte("pw"), o)
	var alts [][]byte
	for b := 0; b < 8*len(enc); b++ {
		x := append([]byte(nil), enc...)
		x[b/8] ^= 1 << uint(b%8)
		alts = append(alts, x)
	}
	for n := 0; n < len(enc); n++ {
		alts = append(alts, append([]byte{}, enc[:n]...), append([]byte{}, enc[n:]...), make([]byte, n), bytes.Repeat([]byte{0xff}, n))
		alts = append(alts, append(append([]byte{}, enc[:n]...), make([]byte, len(enc)-n)...), append(make([]byte, n), enc[n:]...))
	}
	alts = append(alts, append(append([]byte{}, enc...), 0), append([]byte{0}, enc...), append(append([]byte{}, enc...), enc...), make([]byte, 4128), make([]byte, 64))
	alts = append(alts, k.Wrap([]byte("other"), o))
	o2 := o
	o2.HKDF = !o.HKDF
	alts = append(alts, k.Wrap([]byte("pw"), o2))
	for j, x := range alts {
		if j%8 != i/4 {
			continue
		}
		if bytes.Equal(x, enc) {
			continue
		}
		o.Enc = x
		for _, pw := range []string{"pw", "wrong"} {
			if pw == "wrong" && !(bytes.Equal(x, make([]byte, len(x)))) {
				continue
			}
			if !try(t, fmt.Sprintf("encrypted key variant %d (%d bytes), password %q", j, len(x), pw), k.ConfWith("pw", o), []byte(pw), "load") {
				return
			}
		}
	}
}

func params(i int, t *e2.T) {
	k := keys(i % 4)
	o := k.DefaultOpt()
	type alt struct {
		d string
		f func(*ref.ConfOpt)
	}
	var as []alt
	for _, n := range []int{1, 2, 4, 8, 16, 256, 512, 1023, 1024, 1025, 2048, 4096, 0, -1, -1024} {
		n := n
		as = append(as, alt{fmt.Sprint("N=", n), func(o *ref.ConfOpt) { o.N = n }})
	}
	for _, r := range []int{-8, 0, 1, 4, 7, 8, 9, 16} {
		r := r
		as = append(as, alt{fmt.Sprint("R=", r), func(o *ref.ConfOpt) { o.R = r }})
	}
	for _, p := range []int{-1, 0, 1, 2, 3} {
		p := p
		as = append(as, alt{fmt.Sprint("P=", p), func(o *ref.ConfOpt) { o.P = p }})
	}
	for _, n := range []int{0, 1, 8, 16, 31, 32, 33, 64} {
		n := n
		as = append(as, alt{fmt.Sprint("salt of ", n), func(o *ref.ConfOpt) { o.Salt = ref.Content(n, 3) }})
	}
	for _, n := range []int{-1, 0, 1, 16, 24, 31, 33, 64} {
		n := n
		as = append(as, alt{fmt.Sprint("KeyLen=", n), func(o *ref.ConfOpt) { o.KeyLen = n }})
	}
	for b := 0; b < 256; b++ {
		b := b
		as = append(as, alt{fmt.Sprint("salt bit ", b), func(o *ref.ConfOpt) {
			o.Salt = append([]byte(nil), o.Salt...)
			o.Salt[b/8] ^= 1 << uint(b%8)
		}})
	}
	enc := k.Wrap([]byte("pw"), o)
	for j, a := range as {
		if j%8 != i/4 {
			continue
		}
		// changed in the file only
		x := k.DefaultOpt()
		x.Enc = enc
		a.f(&x)
		if !try(t, a.d+" changed in the file", k.ConfWith("pw", x), []byte("pw"), "load") {
			return
		}
		// consistently: the key was wrapped with these parameters
		y := k.DefaultOpt()
		a.f(&y)
		y.Enc = nil
		if y.N >= 2 && y.N&(y.N-1) == 0 && y.R > 0 && y.P > 0 {
			js := k.ConfWith("pw", y)
			if !try(t, a.d+" consistently", js, []byte("pw"), "load") || !try(t, a.d+" consistently, wrong password", js, []byte("px"), "load") {
				return
			}
		}
	}
	// pairs of weaknesses
	for a := 0; a < 5 && i < 4; a++ {
		for b := 0; b < 5; b++ {
			y := k.DefaultOpt()
			for _, z := range []int{a, b} {
				switch z {
				case 0:
					y.N = 512
				case 1:
					y.R = 4
				case 2:
					y.Salt = y.Salt[:16]
				case 3:
					y.R, y.P = 7, 2
				case 4:
					y.N = 2048
				}
			}
			try(t, fmt.Sprint("weaknesses ", a, b), k.ConfWith("pw", y), []byte("pw"), "load")
		}
	}
}

func flags(i int, t *e2.T) { // all subsets of the known flags, the key wrapped both ways
	for sub := i * 8; sub < i*8+8; sub++ {
		k := keys(7)
		o := k.DefaultOpt()
		o.Flags = []string{}
		for b, f := range known {
			if sub>>uint(b)&1 != 0 {
				o.Flags = append(o.Flags, f)
			}
		}
		for _, hk := range []bool{false, true} {
			o.HKDF = hk
			o.Enc = k.Wrap([]byte("pw"), o)
			js := k.ConfWith("pw", o)
			if !try(t, fmt.Sprintf("flags %v, key wrapped with hkdf=%v", o.Flags, hk), js, []byte("pw"), "load") {
				return
			}
		}
	}
	t.Sample("flag subsets %d-%d of 512", i*8, i*8+7)
}

func unknown(i int, t *e2.T) { // unknown flags next to the right ones; versions
	k := keys(i % 4)
	base := k.DefaultOpt()
	names := []string{"", "FSF", "hkdf", "HKDF ", " HKDF", "DirIv", "LongName", "LongNameMax", "XChaCha20Poly1305", "FIDO2", "GCMIV96", "EMEName", "\x00", "PlainTextNames", "AESSIV2", "diriv"}
	for _, f := range known { // every known name with one change
		names = append(names, f+"x", f[1:], f[:len(f)-1], strings.ToLower(f), strings.ToUpper(f), f+"\x00")
	}
	for _, n := range names {
		isKnown := false
		for _, f := range known {
			isKnown = isKnown || f == n
		}
		if isKnown {
			continue
		}
		for pos := 0; pos <= len(base.Flags); pos += len(base.Flags) {
			o := base
			o.Flags = append(append(append([]string{}, base.Flags[:pos]...), n), base.Flags[pos:]...)
			if !try(t, fmt.Sprintf("unknown flag %q at %d", n, pos), k.ConfWith("pw", o), []byte("pw"), "load") {
				return
			}
		}
	}
	// an unknown flag anywhere in a list in which the right ones are repeated
	for l := len(base.Flags); l < 70; l++ {
		for _, pos := range []int{0, 1, l / 2, l - 1, l} {
			o := base
			o.Flags = []string{}
			for x := 0; x <= l; x++ {
				if x == pos {
					o.Flags = append(o.Flags, "FSF")
				}
				if x < l {
					o.Flags = append(o.Flags, base.Flags[x%len(base.Flags)])
				}
			}
			if !try(t, fmt.Sprintf("an unknown flag at %d of %d", pos, l), k.ConfWith("pw", o), []byte("pw"), "load") {
				return
			}
		}
		// a mandatory flag missing from such a list
		o := base
		o.Flags = []string{}
		for x := 0; x < l; x++ {
			if f := base.Flags[x%len(base.Flags)]; f != base.Flags[l%3] {
				o.Flags = append(o.Flags, f)
			}
		}
		if !try(t, fmt.Sprintf("no %s among %d flags", base.Flags[l%3], l), k.ConfWith("pw", o), []byte("pw"), "load") {
			return
		}
	}
	// each mandatory flag replaced by a duplicate of another
	for p := range base.Flags {
		for q := range base.Flags {
			o := base
			o.Flags = append([]string{}, base.Flags...)
			o.Flags[p] = base.Flags[q]
			if !try(t, fmt.Sprintf("flags %v", o.Flags), k.ConfWith("pw", o), []byte("pw"), "load") {
				return
			}
		}
	}
	for _, v := range []int{0, 1, 2, 3, 4, 20, 258, 65535, 65536, 65538, -1} {
		o := base
		o.Version = v
		if !try(t, fmt.Sprint("version ", v), k.ConfWith("pw", o), []byte("pw"), "load") {
			return
		}
	}
	js := string(k.Conf("pw"))
	for _, r := range [][2]string{{`"Version": 2`, `"Version": "2"`}, {`"Version": 2`, `"Version": 2.0`}, {`"Version": 2`, `"Version": null`}, {`"Version": 2,`, ``}, {`"FeatureFlags"`, `"X"`}, {`"EncryptedKey"`, `"X"`}, {`"ScryptObject"`, `"X"`}, {`"Salt"`, `"X"`}, {`"KeyLen": 32,`, ``}, {`"N": 1024,`, ``}, {`{`, `[`}} {
		m := strings.Replace(js, r[0], r[1], 1)
		if !try(t, fmt.Sprintf("%s replaced by %s", r[0], r[1]), []byte(m), []byte("pw"), "load") {
			return
		}
	}
}

func jsonBytes(i int, t *e2.T) { // every bit flip and truncation of the stored file
	k := keys(i % 4)
	js := k.Conf("pw")
	part := i / 4
	for b := 0; b < 8*len(js); b++ {
		if b/8%16 != part {
			continue
		}
		if t.Tier != "thorough" && i%4 != 3 && (b%8)%4 != b/8/16%4 {
			continue
		}
		x := append([]byte(nil), js...)
		x[b/8] ^= 1 << uint(b%8)
		if !try(t, fmt.Sprintf("bit %d of byte %d of the config flipped (%q)", b%8, b/8, js[max(0, b/8-10):min(len(js), b/8+10)]), x, []byte("pw"), "load") {
			return
		}
	}
	for n := part; n <= len(js); n += 16 {
		if !try(t, fmt.Sprintf("config cut to %d bytes", n), js[:n], []byte("pw"), "load") || !try(t, fmt.Sprintf("config without its first %d bytes", n), js[n:], []byte("pw"), "load") {
			return
		}
	}
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}
func max(a, b int) int { return a + b - min(a, b) }

func inits(i int, t *e2.T) { // through filetree.Init
	k := keys(7)
	switch {
	case i == 0:
		try(t, "init", k.Conf("pw"), []byte("pw"), "init")
	case i < 8:
		try(t, "init, wrong password", k.Conf("pw"), []byte([]string{"", "p", "pw ", "pwpw", "PW", "px", "w"}[i-1]), "init")
	default:
		o := k.DefaultOpt()
		switch i {
		case 8:
			o.N = 512
		case 9:
			o.R = 4
		case 10:
			o.Salt = o.Salt[:31]
		case 11:
			o.Version = 1
		case 12:
			o.Flags = append(o.Flags, "New")
		case 13:
			o.Flags = o.Flags[1:]
		case 14:
			o.Enc = []byte{}
		case 15:
			o.Enc = make([]byte, 64)
		}
		try(t, fmt.Sprint("init, bad config ", i), k.ConfWith("pw", o), []byte("pw"), "init")
	}
}

// initPws: passwords that sloppy handling on the way to the key derivation would mix up
var initPws = []string{"pw", "pw\n", "pw\r\n", " pw", "pw ", "\tpw", "PW", "p\x00w", "pässwort", "pa\u0308sswort", "\"pw\"", "pw#1", "${pw}", " ", strings.Repeat("0123456789abcdef", 4), strings.Repeat("x", 64) + "\n"}

func initPairs(i int, t *e2.T) { // every stored against every given password through filetree.Init
	k := keys(7)
	for _, given := range initPws {
		try(t, "init with similar passwords", k.Conf(initPws[i]), []byte(given), "init")
	}
}

func changes(i int, t *e2.T) { // all password histories up to depth 3 over three passwords
	ps := []string{"one", "two", "three 3"}
	k := keys(i % 4)
	seqs := [][]string{}
	for a := 0; a < 3; a++ {
		for b := 0; b < 3; b++ {
			for c := -1; c < 3; c++ {
				s := []string{"start", ps[a], ps[b]}
				if c >= 0 {
					s = append(s, ps[c])
				}
				seqs = append(seqs, s)
			}
		}
	}
	for j, s := range seqs {
		if j%4 != i/4 {
			continue
		}
		var q [][]byte
		for _, p := range s {
			q = append(q, []byte(p))
		}
		r := call(t, req{Mode: "change", Conf: k.Conf("start"), Pws: q, N: 10 + j%2})
		if r.Died || r.Err != "" {
			t.Failf("password changes %q: %v %s", s, r.Died, r.Err)
			return
		}
		for _, m := range r.Keys {
			if !bytes.Equal(m, k.Master) {
				t.Failf("password changes %q: the master key changed", s)
				return
			}
		}
		last := s[len(s)-1]
		if m, ok := unlocks(r.Conf, []byte(last)); !ok || !bytes.Equal(m, k.Master) {
			t.Failf("password changes %q: the written config does not hold the master key under the last password", s)
			return
		}
		for _, p := range append([]string{"start"}, ps...) {
			if !try(t, fmt.Sprintf("after %q, password %q", s, p), r.Conf, []byte(p), "load") {
				return
			}
		}
		r = call(t, req{Mode: "load2", Conf: r.Conf, Pws: [][]byte{[]byte("bad"), []byte(last), []byte("bad"), []byte(last)}})
		for x := range r.Errs {
			ok := x%2 == 1
			if (r.Errs[x] == "") != ok || ok && !bytes.Equal(r.Keys[x], k.Master) || !ok && len(r.Keys[x]) > 0 {
				t.Failf("attempt %d on one config object: %s", x, r.Errs[x])
				return
			}
		}
		if r.Died || len(r.Errs) != 4 {
			t.Failf("attempts on one config object: %v %s", r.Died, r.Err)
		}
		var c conf
		json.Unmarshal(r.Conf, &c)
	}
}

func creates(i int, t *e2.T) {
	seen := map[string]bool{}
	q := req{Mode: "create", Pw: []byte("pw"), N: 10, Flag: [3]bool{i&1 != 0, i&2 != 0, false}}
	for n := 0; n < 4; n++ {
		if n == 3 {
			q.N = 0 // default cost
		}
		r := call(t, q)
		if r.Died || r.Err != "" {
			t.Failf("create: %v %s", r.Died, r.Err)
			return
		}
		m, ok := unlocks(r.Conf, []byte("pw"))
		if !ok || len(m) != 32 {
			t.Failf("a created config does not unlock by the book: %s", r.Conf)
			return
		}
		if !try(t, "created config", r.Conf, []byte("pw"), "load") || !try(t, "created config, wrong password", r.Conf, []byte("pW"), "load") {
			return
		}
		var c conf
		json.Unmarshal(r.Conf, &c)
		for _, x := range [][]byte{m, c.ScryptObject.Salt, c.EncryptedKey[:16]} {
			h := base64.StdEncoding.EncodeToString(x)
			if seen[h] || bytes.Equal(x, make([]byte, len(x))) {
				t.Failf("master key, salt or nonce repeated or zero")
			}
			seen[h] = true
		}
		has := map[string]bool{}
		for _, f := range c.FeatureFlags {
			has[f] = true
		}
		if has["PlaintextNames"] != q.Flag[0] || has["AESSIV"] != q.Flag[1] || !has["HKDF"] || !has["GCMIV128"] || has["DirIV"] == q.Flag[0] {
			t.Failf("created flags %v for plaintextnames=%v aessiv=%v", c.FeatureFlags, q.Flag[0], q.Flag[1])
		}
		if q.N == 0 && c.ScryptObject.N != 1<<16 || q.N == 10 && c.ScryptObject.N != 1024 {
			t.Failf("created with N=%d", c.ScryptObject.N)
		}
	}
}

func n(k int) func(string) int { return func(string) int { return k } }

func main() {
	if os.Getenv("ECONF_WORKER") != "" {
		serve()
		return
	}
	e2.Main([]e2.Check{{
		Prop: "C14",
		Groups: []e2.Group{
			{Name: "passwords", Bounds: "8 passwords x 4 config variants x every one-byte insertion (7 bytes), substitution, deletion, truncation, bit flip", N: n(4 * len(pws)), Run: passwords},
			{Name: "long passwords", Bounds: "29 lengths from 63 to 10000 x one byte changed at each of these positions, cut to each of these lengths, extended", N: n(len(longPws)), Run: longPasswords},
			{Name: "encrypted key", Bounds: "every bit flip, truncation, zeroing prefix/suffix of the encrypted key, all-zero and empty keys", N: n(32), Run: enckey},
			{Name: "key derivation parameters", Bounds: "N, R, P, salt length, key length around their minima, every salt bit; changed alone and consistently", N: n(32), Run: params},
			{Name: "feature flags", Bounds: "all 512 subsets of the 9 known flags x both key wrappings", N: n(64), Run: flags},
			{Name: "unknown flags and versions", Bounds: "70 unknown flags, one at 5 places of lists of up to 70 flags, 11 versions, missing and mistyped fields", N: n(4), Run: unknown},
			{Name: "config bytes", Bounds: "every bit flip (quick: half of them for 3 of 4 variants) and truncation of the file", N: n(64), Run: jsonBytes},
			{Name: "file tree", Bounds: "Init with wrong passwords and bad configs", N: n(16), Run: inits},
			{Name: "file tree, similar passwords", Bounds: fmt.Sprintf("Init: every pair of stored and given password out of %d that differ in white space, case, quoting, normal form or length", len(initPws)), N: n(len(initPws)), Run: initPairs},
			{Name: "password changes", Bounds: "all histories of 2-3 password changes over 3 passwords x 4 variants", N: n(16), Run: changes},
			{Name: "creation", Bounds: "4 kinds of volume, 4 creations each", N: n(4), Run: creates},
		},
		Assume: []string{"passwords that HMAC treats as equal (trailing zero bytes, the hash of a password above 64 bytes) are not told apart by scrypt itself and are left out", "ending the process (os.Exit, panic) counts as giving no key"},
	}})
}
