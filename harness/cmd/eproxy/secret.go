package main

import (
	"bytes"
	"crypto/rand"
	"crypto/x509"
	"encoding/base64"
	"encoding/hex"
	"encoding/pem"
	"fmt"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"sync"
	"time"

	"golang.org/x/crypto/ssh"

	"verif/e2"
	"verif/menu"
	"verif/pty"
	"verif/ref"
	"verif/remote"
	"verif/wire"
)

// C25: plaintext names bear a mark that the remote must never be sent, and no password, key or file
// content may pass through a write in the clear.

const (
	mark     = "pLaIn-qx7"
	loginPw  = "l0gin-Secret-qx7"
	wrongPw  = "wr0ng-Guess-qx7"
	bodyMark = "C0ntent-qx7-of-a-file"
	tinyMark = "#7z~q!" // the whole content of a small file
)

var (
	secretMaster = ref.Content(32, 77)
	secretSpec   = ref.Spec{
		"/" + mark + "f": []byte(strings.Repeat(bodyMark+"; ", 300)), "/" + mark + "d/" + mark + "g": []byte(bodyMark),
		"/" + mark + "d/" + mark + "e/" + mark + "h": []byte("x" + bodyMark), "/" + mark + "d/" + mark + "t": []byte(tinyMark), "/" + mark + "empty": {}, "/" + mark + "z/": nil,
	}
	secretVol *ref.Volume
)

func secretRemote() *remote.Server {
	secretRemoteOnce()
	return remoteOf(secretVol)
}

func secretRemoteOnce() {
	if secretVol == nil {
		secretVol = ref.Build(ref.NewKeys(secretMaster, true, true, false), "/vol", volPass, secretSpec)
	}
}

func remoteOf(v *ref.Volume) *remote.Server {
	s := &remote.Server{FS: v.FS, HostKey: hostEd, User: remoteUser, Key: key.PublicKey()}
	must(s.Start())
	return s
}

var secretTargets = func() (l []string) {
	m := "/" + mark
	for _, p := range []string{"f", "d", "d" + m + "g", "no", "no" + m + "no", "f" + m + "x", "empty", "d" + m + "e/", "d/.." + m + "f", strings.Repeat("n", 200), strings.Repeat("n", 600), "d\x00"} {
		l = append(l, m+p)
	}
	return append(l, mark+"f")
}()

// asks: the requests of a client for one target, reading and changing ones
func asks(p string) (l []menu.Mut) {
	fixed := func(n string, t byte, b ...[]byte) {
		c := wire.Cat(b...)
		l = append(l, menu.Mut{Name: n + " " + wire.Quote(p), Typ: t, Body: func(map[string]string) []byte { return c }})
	}
	fixed("OPEN for reading", wire.Open, wire.Str(p), wire.U32(wire.FRead), wire.U32(0))
	for _, t := range []byte{wire.Stat, wire.Lstat, wire.Opendir, wire.Readlnk, wire.Realpath} {
		fixed(wire.TypeName(t), t, wire.Str(p))
	}
	for _, m := range menu.Muts(p, secretTargets) {
		if m.Typ != wire.Extended {
			l = append(l, m)
		}
	}
	return
}

// sentNames: the remote sees no plaintext name and no content that a client sends
func sentNames(i int, t *e2.T) {
	if cur != nil {
		cur.end()
	}
	s := secretRemote()
	defer s.Stop()
	var mu sync.Mutex
	what := ""
	secrets := [][]byte{[]byte(strings.ToLower(mark)), []byte(bodyMark), []byte(volPass), []byte(loginPw), []byte("yyyyyyyyyyyyyyyy")}
	s.Watch = func(ty byte, body []byte) {
		low := bytes.ToLower(body)
		for k, x := range secrets {
			b := body
			if k == 0 {
				b = low
			}
			if bytes.Contains(b, x) {
				mu.Lock()
				t.Failf("%s: the remote is sent %s with %q", what, wire.TypeName(ty), x)
				mu.Unlock()
			}
		}
	}
	c := defConf(s)
	c["ProxyPassword"] = loginPw
	p := start(t, c)
	if p == nil {
		return
	}
	defer p.stop()
	for _, target := range secretTargets[i : i+1] {
		cl, err := dial(defaultUser, ssh.Password(loginPw))
		if err != nil {
			t.Failf("no login: %v", err)
			return
		}
		defer cl.Close()
		w, err := session(cl)
		if err != nil {
			t.Failf("no session: %v", err)
			return
		}
		hs := map[string]string{"bogus": "999"}
		if r := w.Do(wire.Open, wire.Str("/"+mark+"f"), wire.U32(wire.FRead), wire.U32(0)); r.Type == wire.Handle {
			hs["read"] = r.Handle
		}
		if r := w.Do(wire.Opendir, wire.Str("/"+mark+"d")); r.Type == wire.Handle {
			hs["dir"] = r.Handle
		}
		for _, m := range asks(target) {
			mu.Lock()
			what = m.Name
			mu.Unlock()
			r := w.Do(m.Typ, m.Body(hs))
			t.Step()
			t.State(m.Name, r.Type)
			if r.Err != nil {
				if w, err = session(cl); err != nil {
					t.Failf("no session: %v", err)
					return
				}
			}
			if r.Type == wire.Handle {
				w.Do(wire.Read, wire.Str(r.Handle), wire.U64(0), wire.U32(100))
				w.Do(wire.Readdir, wire.Str(r.Handle))
				w.Do(wire.Close, wire.Str(r.Handle))
			}
			if t.Failed() {
				return
			}
		}
		l, err := w.List("/" + mark + "d")
		b, err2 := w.ReadAll("/" + mark + "f")
		if err != nil || err2 != nil || len(l) != 3 || string(b) != string(secretSpec["/"+mark+"f"]) {
			t.Failf("the volume is not served: %d entries, %v, %d bytes, %v", len(l), err, len(b), err2)
		}
	}
}

// writing is an enumeration of runs of the program under strace.
type writing struct {
	name    string
	enc     bool // the key has a passphrase
	answers []string
	serves  bool
	args    []string
	visit   func(t *e2.T)
	key     func() []byte          // what stands in the file of the encrypted key, if not the key
	damage  func(n *ref.Node) bool // damages the stored objects: each in turn is offered
}

// damaged is the volume after damage.
func damaged(f func(n *ref.Node) bool) *ref.Volume {
	secretRemoteOnce()
	v := secretVol.Clone()
	var walk func(n *ref.Node)
	walk = func(n *ref.Node) {
		for _, k := range n.Kids {
			k.Data = append([]byte(nil), k.Data...)
			f(k)
			k.S = int64(len(k.Data))
			walk(k)
		}
	}
	walk(v.FS.Top)
	return v
}

// contentOf damages files, not gocryptfs' own.
func contentOf(f func(d []byte) []byte) func(n *ref.Node) bool {
	return func(n *ref.Node) bool {
		if n.IsDir() || strings.HasPrefix(n.N, "gocryptfs.") || len(n.Data) == 0 {
			return false
		}
		n.Data = f(n.Data)
		return true
	}
}

func confOf(f func(d []byte) []byte) func(n *ref.Node) bool {
	return func(n *ref.Node) bool {
		if n.N == "gocryptfs.conf" {
			n.Data = f(n.Data)
			return true
		}
		return false
	}
}

// visitDamaged reads everything, whatever comes of it.
func visitDamaged(t *e2.T) {
	for p := range secretSpec {
		cl, err := dial(defaultUser, ssh.Password(loginPw))
		if err != nil {
			t.Failf("no login: %v", err)
			return
		}
		w, err := session(cl)
		if err != nil {
			t.Failf("no session: %v", err)
			return
		}
		_, _ = w.ReadAll(strings.TrimSuffix(p, "/"))
		_, _ = w.List(strings.TrimSuffix(p, "/"))
		t.Step()
		cl.Close()
	}
}

// badKey is a key file whose passphrase is right, but what it guards is no key.
func badKey(typ string, in []byte) []byte {
	blk, err := x509.EncryptPEMBlock(rand.Reader, typ, in, []byte(keyPhrase), x509.PEMCipherAES128) //nolint
	must(err)
	return pem.EncodeToMemory(blk)
}

func visitAll(t *e2.T) {
	cl, err := dial(defaultUser, ssh.Password(loginPw))
	if err != nil {
		t.Failf("no login: %v", err)
		return
	}
	defer cl.Close()
	w, err := session(cl)
	if err != nil {
		t.Failf("no session: %v", err)
		return
	}
	for _, p := range secretTargets {
		for k, m := range asks(p) {
			if k > 5 && k%9 != 0 {
				continue
			}
			if m.Typ == wire.Write {
				continue
			}
			t.Step()
			if r := w.Do(m.Typ, m.Body(map[string]string{})); r.Err != nil {
				if w, err = session(cl); err != nil {
					t.Failf("no session: %v", err)
					return
				}
			}
		}
	}
	for p := range secretSpec {
		if strings.HasSuffix(p, "/") {
			_, err = w.List(strings.TrimSuffix(p, "/"))
		} else {
			_, err = w.ReadAll(p)
		}
		if err != nil {
			t.Failf("%s: %v", p, err)
			return
		}
	}
}

func visitWrong(t *e2.T) {
	for _, u := range []string{defaultUser, "mallory", ""} {
		for _, pw := range []string{wrongPw, loginPw + "x", loginPw, ""} {
			if u == defaultUser && pw == loginPw {
				continue
			}
			if c, err := dial(u, ssh.Password(pw)); err == nil {
				c.Close()
			}
			if c, err := dial(u, ssh.KeyboardInteractive(func(_, _ string, q []string, _ []bool) ([]string, error) {
				return []string{pw}[:len(q)], nil
			})); err == nil {
				c.Close()
			}
			t.Step()
		}
	}
}

func writings() (l []writing) {
	add := func(w writing) {
		for _, a := range [][]string{nil, {"-e"}} {
			w.args = a
			l = append(l, w)
		}
	}
	add(writing{name: "reading everything", answers: []string{volPass}, serves: true, visit: visitAll})
	add(writing{name: "wrong logins", answers: []string{volPass}, serves: true, visit: visitWrong})
	add(writing{name: "a key with a passphrase", enc: true, answers: []string{keyPhrase, volPass}, serves: true, visit: visitAll})
	add(writing{name: "a key with a passphrase, first wrong", enc: true, answers: []string{wrongPw, keyPhrase, volPass}, serves: true, visit: visitAll})
	add(writing{name: "three wrong key passphrases", enc: true, answers: []string{wrongPw, volPass, wrongPw + "x"}})
	add(writing{name: "a wrong volume passphrase", answers: []string{wrongPw}})
	add(writing{name: "an empty volume passphrase", answers: []string{""}})
	for n, f := range []func(d []byte) []byte{
		func(d []byte) []byte { d[len(d)-1] ^= 1; return d },
		func(d []byte) []byte { d[len(d)/2] ^= 1; return d },
		func(d []byte) []byte { return d[:len(d)-1] },
		func(d []byte) []byte { return append(d, 'x') },
		func(d []byte) []byte { d[0] ^= 1; return d },
		func(d []byte) []byte { d[10] ^= 1; return d },
		func(d []byte) []byte { return d[:10] },
	} {
		add(writing{name: fmt.Sprint("damaged files ", n), answers: []string{volPass}, serves: true, visit: visitDamaged, damage: contentOf(f)})
	}
	for n, f := range []func(d []byte) []byte{
		func(d []byte) []byte { return d[:len(d)/2] },
		func(d []byte) []byte {
			return bytes.Replace(d, []byte(`"EncryptedKey": "`), []byte(`"EncryptedKey": "A`), 1)
		},
		func(d []byte) []byte { return bytes.Replace(d, []byte(`"Version": 2`), []byte(`"Version": 3`), 1) },
		func(d []byte) []byte { return bytes.Replace(d, []byte(`"HKDF"`), []byte(`"FKDH"`), 1) },
	} {
		add(writing{name: fmt.Sprint("damaged gocryptfs.conf ", n), answers: []string{volPass}, damage: confOf(f)})
	}
	add(writing{name: "an encrypted key that is none", enc: true, answers: []string{keyPhrase, wrongPw, keyPhrase}, key: func() []byte { return badKey("EC PRIVATE KEY", []byte("no key at all")) }})
	add(writing{name: "an encrypted key of no kind", enc: true, answers: []string{keyPhrase, wrongPw, keyPhrase}, key: func() []byte { return badKey("ODD PRIVATE KEY", []byte("no key at all")) }})
	add(writing{name: "a shortened encrypted key", enc: true, answers: []string{keyPhrase, wrongPw, keyPhrase}, key: func() []byte {
		b, err := ioutil.ReadFile(encKeyPath)
		must(err)
		blk, _ := pem.Decode(b)
		blk.Bytes = blk.Bytes[:len(blk.Bytes)-3]
		return pem.EncodeToMemory(blk)
	}})
	return
}

func forms(s string) []string {
	return []string{s, hex.EncodeToString([]byte(s)), base64.StdEncoding.EncodeToString([]byte(s)), base64.RawURLEncoding.EncodeToString([]byte(s)), strings.Trim(fmt.Sprint([]byte(s)), "[]")}
}

var (
	callRe = regexp.MustCompile(`(?m)^\d+ +(?:<\.\.\. )?(write|pwrite64|writev|pwritev|pwritev2|sendto|sendmsg|sendmmsg)\(?(\d+)?(.*)$`)
	strRe  = regexp.MustCompile(`"((?:\\x[0-9a-f]{2})*)"`)
)

func written(i int, t *e2.T) {
	if cur != nil {
		cur.end()
	}
	wr := writings()[i]
	s := (*remote.Server)(nil)
	if wr.damage == nil {
		s = secretRemote()
	} else {
		s = remoteOf(damaged(wr.damage))
	}
	defer s.Stop()
	lf := filepath.Join(scratch, "strace.out")
	defer os.Remove(lf)
	c := defConf(s)
	c["ProxyPassword"] = loginPw
	if wr.enc {
		c["Remote"].(conf)["PrivateKeyPath"] = encKeyPath
	}
	if wr.key != nil {
		f := filepath.Join(scratch, "badkey")
		must(ioutil.WriteFile(f, wr.key(), 0600))
		defer os.Remove(f)
		c["Remote"].(conf)["PrivateKeyPath"] = f
	}
	p := run([]string{"strace", "--kill-on-exit", "-f", "-xx", "-s", "1000000", "-o", lf, "-e", "trace=write,pwrite64,writev,pwritev,pwritev2,sendto,sendmsg,sendmmsg"}, wr.args, c.file(), wr.answers...)
	ok := p.serves()
	defer p.stop()
	t.Step()
	if ok != wr.serves {
		t.Failf("%s: the proxy serves: %v: %s", wr.name, ok, p.text())
		return
	}
	if wr.visit != nil {
		wr.visit(t)
		time.Sleep(20 * time.Millisecond)
	}
	p.stop()
	b, err := ioutil.ReadFile(lf)
	must(err)
	secrets := map[string]string{"the volume's passphrase": volPass, "the proxy's password": loginPw, "the key's passphrase": keyPhrase, "a wrong password": wrongPw, "the content of a file": bodyMark, "the content of a small file": tinyMark, "the master key": string(secretMaster)}
	for _, f := range []string{keyPath, encKeyPath} {
		k, err := ioutil.ReadFile(f)
		must(err)
		secrets["the private key "+f] = strings.Split(string(k), "\n")[strings.Count(string(k), "\n")-2]
	}
	calls := 0
	for _, m := range callRe.FindAllSubmatch(b, -1) {
		calls++
		var data []byte
		for _, q := range strRe.FindAllSubmatch(m[3], -1) {
			d, _ := hex.DecodeString(strings.Replace(string(q[1]), `\x`, "", -1))
			data = append(data, d...)
		}
		for n, x := range secrets {
			for _, f := range forms(x) {
				if bytes.Contains(data, []byte(f)) {
					t.Failf("%s (flags %v): %s is written in the clear: %s to file %s: %q", wr.name, wr.args, n, m[1], m[2], clip(data))
					return
				}
			}
		}
	}
	if calls == 0 {
		t.Failf("no writes were recorded")
	}
	t.Steps(calls)
	t.State(wr.name, fmt.Sprint(wr.args))
}

func clip(b []byte) []byte {
	if len(b) > 200 {
		return b[:200]
	}
	return b
}

// typed: a passphrase is not shown while it is typed
func typed(i int, t *e2.T) {
	if cur != nil {
		cur.end()
	}
	enc := i%2 == 1
	wrong := i / 2
	s := secretRemote()
	defer s.Stop()
	c := defConf(s)
	answers := []string{volPass}
	if enc {
		c["Remote"].(conf)["PrivateKeyPath"] = encKeyPath
		answers = []string{keyPhrase, volPass}
	}
	for k := 0; k < wrong && enc; k++ {
		answers = append([]string{wrongPw}, answers...)
	}
	p := run(nil, nil, c.file())
	defer p.stop()
	for k, a := range answers {
		if !remote.Wait(patience, func() bool { return !p.running() || !pty.Echo(p.m) }) || !p.running() {
			t.Failf("answer %d of %d: the terminal shows what is typed (running: %v, %s)", k+1, len(answers), p.running(), p.text())
			return
		}
		n := p.printed()
		_, _ = p.m.Write([]byte(a + "\n"))
		t.Step()
		// the answer has been taken when the terminal is as before, or the next prompt has come
		if !remote.Wait(patience, func() bool { return !p.running() || pty.Echo(p.m) || p.printed() > n }) {
			t.Failf("answer %d of %d: the terminal is left without echo: %s", k+1, len(answers), p.text())
			return
		}
	}
	if !p.serves() {
		t.Failf("the proxy does not serve: %s", p.text())
	}
	t.State(i)
}

func groups25() []e2.Group {
	return []e2.Group{
		{Name: "names and contents sent", Bounds: "13 targets with marked names x every reading and changing request, through the whole program to a remote that looks at every packet", N: num(len(secretTargets)), Run: sentNames},
		{Name: "everything written", Bounds: "21 kinds of start and use, with damaged volumes and keys too, with and without debugging output, under strace: every byte of every write, in 5 encodings", N: func(tier string) int {
			if exec.Command("strace", "-o", "/dev/null", "true").Run() != nil {
				return 0 // no tracing here: nothing is claimed of what is written
			}
			return num(len(writings()))(tier)
		}, Run: written},
		{Name: "prompts", Bounds: "plain and encrypted keys, up to two wrong answers, typed at the prompts", N: num(6), Run: typed},
	}
}
