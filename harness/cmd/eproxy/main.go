package main

import (
	"fmt"
	"io/ioutil"
	"net"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"crypto/hmac"
	"crypto/sha1"
	"encoding/base64"

	"golang.org/x/crypto/ssh"

	"verif/e2"
	"verif/remote"
	"verif/wire"
)

// ---- C20 -----------------------------------------------------------------------------------------

var creds = [][2]string{
	{"alice", "s3cret"},
	{"a", "b"},
	{"user", "user"},
	{"Ünï", "pä ss\u0301w\u00e9"},
	{"u ", " p"},
	{strings.Repeat("n", 200), strings.Repeat("long", 500)},
	{"root", "a\u0000b"},
	{"anonymous", "guest"},
	{"Bob.Smith@example.org", "P@$$w0rd\n!"},
}

// near lists strings that are s or nearly s.
func near(s, other string) []string {
	flip := func(i int) string {
		b := []byte(s)
		b[i] ^= 1
		return string(b)
	}
	swap := strings.Map(func(r rune) rune {
		if l := strings.ToLower(string(r)); l != string(r) {
			return []rune(l)[0]
		}
		return []rune(strings.ToUpper(string(r)))[0]
	}, s)
	rev := func() string {
		r := []rune(s)
		for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
			r[i], r[j] = r[j], r[i]
		}
		return string(r)
	}()
	l := []string{s, "", other, s + " ", " " + s, s + "\n", s + "\x00", "\x00" + s, s[:len(s)-1], s[1:], s[:len(s)/2], swap, strings.ToUpper(s), strings.ToLower(s), s + s, rev, flip(0), flip(len(s) - 1), flip(len(s) / 2), strings.TrimSpace(s), "*", "%s", s + ":" + other, other + s, "root", "\x00", strings.Split(s, "\x00")[0], strings.Split(s, " ")[0], strings.Repeat("x", 20000), strings.Replace(s, "\u00e9", "e\u0301", -1),
		s + "\xff", s[:1] + "\xff\xfe" + s[1:], s + strings.Repeat("y", 256), s + strings.Repeat("\x00", 256), s + strings.Repeat("z", 65536-len(s)), "\ufeff" + s}
	var r []string
	seen := map[string]bool{}
	for _, x := range l {
		if !seen[x] {
			seen[x] = true
			r = append(r, x)
		}
	}
	return r
}

type attempt struct {
	name string
	want bool
	user string
	auth []ssh.AuthMethod
}

// try runs attempts concurrently against the proxy.
func try(t *e2.T, p *proxy, as []attempt) {
	var mu sync.Mutex
	var wg sync.WaitGroup
	q := make(chan attempt)
	for k := 0; k < 12; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for a := range q {
				c, err := dial(a.user, a.auth...)
				bad := ""
				if err == nil {
					if !a.want {
						bad = "is let in"
						if look(c, false) == nil {
							bad = "is let in and served"
						}
					} else if e := look(c, false); e != nil {
						bad = fmt.Sprintf("is let in but not served: %v", e)
					}
					c.Close()
				} else if a.want {
					bad = fmt.Sprintf("is not let in: %v", err)
				}
				mu.Lock()
				t.Step()
				t.State(a.name, a.user)
				if bad != "" {
					t.Failf("%s %s", a.name, bad)
				}
				mu.Unlock()
			}
		}()
	}
	for _, a := range as {
		q <- a
	}
	close(q)
	wg.Wait()
	if !p.running() {
		t.Failf("the proxy has ended: %s", p.text())
	}
}

func cut(s string) string {
	if len(s) > 30 {
		return fmt.Sprintf("%q...(%d bytes)", s[:20], len(s))
	}
	return fmt.Sprintf("%q", s)
}

func withCreds(t *e2.T, u, pw string, f func(p *proxy)) {
	s := newRemote(hostEd)
	defer s.Stop()
	c := defConf(s)
	c["ProxyUser"], c["ProxyPassword"] = u, pw
	p := start(t, c)
	if p == nil {
		return
	}
	defer p.stop()
	f(p)
}

func authPairs(i int, t *e2.T) {
	u, pw := creds[i][0], creds[i][1]
	withCreds(t, u, pw, func(p *proxy) {
		var as []attempt
		for _, x := range near(u, pw) {
			for _, y := range near(pw, u) {
				as = append(as, attempt{fmt.Sprintf("configured %s/%s: %s with password %s", cut(u), cut(pw), cut(x), cut(y)), x == u && y == pw, x, []ssh.AuthMethod{ssh.Password(y)}})
			}
		}
		try(t, p, as)
	})
}

// authMethods: every method and every sequence of up to three (thorough four) passwords on one connection
func authMethods(i int, t *e2.T) {
	u, pw := creds[i][0], creds[i][1]
	withCreds(t, u, pw, func(p *proxy) {
		var as []attempt
		kbd := func(a string) ssh.AuthMethod {
			return ssh.KeyboardInteractive(func(_, _ string, q []string, _ []bool) ([]string, error) {
				r := make([]string, len(q))
				for i := range r {
					r[i] = a
				}
				return r, nil
			})
		}
		for _, x := range []string{u, "other", ""} {
			for n, m := range map[string][]ssh.AuthMethod{
				"no method": nil, "the proxy's own key": {ssh.PublicKeys(key)}, "another key": {ssh.PublicKeys(otherKey)}, "the remote's key": {ssh.PublicKeys(hostEd)},
				"keyboard-interactive with the password": {kbd(pw)}, "keyboard-interactive with nothing": {kbd("")},
				"own key and keyboard-interactive": {ssh.PublicKeys(key), kbd(pw)},
				"own key and wrong password":       {ssh.PublicKeys(key), ssh.Password(pw + "x")},
			} {
				as = append(as, attempt{fmt.Sprintf("user %s with %s", cut(x), n), false, x, m})
			}
		}
		as = append(as, attempt{"own key, keyboard-interactive, then the password", true, u, []ssh.AuthMethod{ssh.PublicKeys(key), kbd("x"), ssh.Password(pw)}})
		menu := []string{pw, "", pw + "x", "x" + pw, u, pw[:len(pw)-1]}
		max := 3
		if t.Tier == "thorough" {
			max = 4
		}
		var rec func(seq []string)
		rec = func(seq []string) {
			if len(seq) > 0 {
				for _, x := range []string{u, u + "x"} {
					good := false
					for _, s := range seq {
						good = good || s == pw
					}
					k := -1
					seq := append([]string{}, seq...)
					cb := ssh.RetryableAuthMethod(ssh.PasswordCallback(func() (string, error) {
						if k++; k < len(seq) {
							return seq[k], nil
						}
						return "", fmt.Errorf("no more")
					}), len(seq))
					as = append(as, attempt{fmt.Sprintf("user %s with passwords %.80q", cut(x), seq), good && x == u, x, []ssh.AuthMethod{cb}})
				}
			}
			if len(seq) < max {
				for _, m := range menu {
					rec(append(seq[:len(seq):len(seq)], m))
				}
			}
		}
		rec(nil)
		try(t, p, as)
	})
}

// authHistories: sequences of clients; what earlier ones did must not matter
func authHistories(i int, t *e2.T) {
	u, pw := creds[i%3][0], creds[i%3][1]
	withCreds(t, u, pw, func(p *proxy) {
		type login struct {
			u, p string
			hold bool
		}
		menu := []login{{u, pw, false}, {u, pw, true}, {u, pw + "x", false}, {u + "x", pw, false}, {"", "", false}, {u, "", false}, {pw, u, false}}
		var held []*ssh.Client
		for a := range menu {
			for b := range menu {
				for c := range menu {
					if t.Tier != "thorough" && i >= 3 && (a+b+c)%2 == 0 {
						continue
					}
					for _, k := range []int{a, b, c} {
						m := menu[k]
						cl, err := dial(m.u, ssh.Password(m.p))
						t.Step()
						want := m.u == u && m.p == pw
						if (err == nil) != want {
							t.Failf("clients %v: %s/%s: %v", []int{a, b, c}, cut(m.u), cut(m.p), err)
						}
						if err == nil && m.hold {
							held = append(held, cl)
						} else if err == nil {
							cl.Close()
						}
					}
					t.State(i, a, b, c)
					for _, h := range held {
						if err := look(h, false); err != nil {
							t.Failf("clients %v: a client that is logged in is not served: %v", []int{a, b, c}, err)
						}
						h.Close()
					}
					held = nil
					if t.Failed() {
						return
					}
				}
			}
		}
	})
}

// ---- C21 -----------------------------------------------------------------------------------------

// refuse launches and expects the program to end with an error without serving.
func refuse(t *e2.T, what string, s *remote.Server, file string, answers ...string) {
	p, serving := launch(file, answers...)
	t.Step()
	t.State(what)
	if serving {
		t.Failf("%s: the proxy serves", what)
	} else if p.running() {
		t.Failf("%s: the proxy neither serves nor ends: %s", what, p.text())
	} else if p.err == nil {
		t.Failf("%s: the proxy ends without an error status", what)
	} else if strings.Contains(p.text(), "panic:") || strings.Contains(p.text(), "fatal error:") {
		t.Failf("%s: the proxy crashes: %s", what, p.text())
	}
	p.stop()
	if s != nil {
		for _, c := range s.Conns() {
			if c.Attempts() > 0 && s.HostKey == hostEvil {
				t.Failf("%s: the proxy tries to log in at a remote with the wrong host key", what)
			}
		}
	}
}

// accept launches and expects service.
func accept(t *e2.T, what, file string, answers ...string) {
	p, serving := launch(file, answers...)
	t.Step()
	t.State(what)
	if !serving {
		t.Failf("%s: the proxy does not serve: %s", what, p.text())
	} else if err := visit(defaultUser, defPw); err != nil {
		t.Failf("%s: %v", what, err)
	}
	p.stop()
}

var fields = []string{"ProxyUser", "ProxyPassword", "KnownHostsPath", "Addr", "FileRoot", "User", "PrivateKeyPath"}

func (c conf) set(f string, v interface{}) {
	m := c
	if _, top := c[f]; !top && f != "Remote" {
		m = c["Remote"].(conf)
	}
	if v == nil {
		delete(m, f)
	} else {
		m[f] = v
	}
}

func missingFields(i int, t *e2.T) {
	s := newRemote(hostEd)
	defer s.Stop()
	c := defConf(s)
	if i == 0 {
		accept(t, "complete configuration", c.file(), volPass)
		return
	}
	var miss []string
	for k, f := range fields {
		if i>>uint(k)&1 == 1 {
			miss = append(miss, f)
		}
	}
	for _, empty := range []bool{false, true} {
		d := c.clone()
		for _, f := range miss {
			if empty {
				d.set(f, "")
			} else {
				d.set(f, nil)
			}
		}
		refuse(t, fmt.Sprintf("configuration without %v (empty: %v)", miss, empty), s, d.file(), volPass)
	}
	if len(s.Conns()) > 0 {
		t.Failf("configuration without %v: the proxy connects to the remote", miss)
	}
}

func oddConfigs(i int, t *e2.T) {
	s := newRemote(hostEd)
	defer s.Stop()
	c := defConf(s)
	f := c.file()
	b, err := ioutil.ReadFile(f)
	must(err)
	put := func(x string) string {
		must(ioutil.WriteFile(f, []byte(x), 0600))
		return f
	}
	switch i {
	case 0:
		refuse(t, "no configuration file", s, filepath.Join(scratch, "nothing"), volPass)
		refuse(t, "configuration path empty", s, "", volPass)
		refuse(t, "configuration path a directory", s, scratch, volPass)
		for _, x := range []string{"", "{}", "[]", "null", "1", "\"x\"", "{", "{\"Remote\": null}", "{\"Remote\": {}}"} {
			refuse(t, "configuration "+x, s, put(x), volPass)
		}
	case 1:
		for k := 0; k < len(b); k += 1 + len(b)/40 {
			refuse(t, fmt.Sprintf("configuration cut at %d", k), s, put(string(b[:k])), volPass)
		}
	case 2:
		for _, fl := range fields {
			for _, v := range []interface{}{1, true, []string{"x"}, map[string]string{}} {
				d := c.clone()
				d.set(fl, v)
				refuse(t, fmt.Sprintf("%s set to %v", fl, v), s, d.file(), volPass)
			}
		}
	case 3:
		for _, x := range []struct{ f, v string }{{"KnownHostsPath", filepath.Join(scratch, "nothing")}, {"KnownHostsPath", scratch}, {"PrivateKeyPath", filepath.Join(scratch, "nothing")}, {"PrivateKeyPath", scratch}, {"PrivateKeyPath", f}, {"PrivateKeyPath", evilPath}, {"User", "somebody"}, {"FileRoot", "/other"}, {"FileRoot", "/vol/nothing"}, {"Addr", "127.0.0.1:1"}, {"Addr", "nonsense"}, {"Addr", strings.Split(s.Addr, ":")[0]}} {
			d := c.clone()
			d.set(x.f, x.v)
			refuse(t, fmt.Sprintf("%s set to %s", x.f, x.v), s, d.file(), volPass)
		}
	case 4:
		d := c.clone()
		d["Extra"] = 1
		accept(t, "unknown extra field", d.file(), volPass)
		d = c.clone()
		d.set("PrivateKeyPath", encKeyPath)
		accept(t, "encrypted key", d.file(), keyPhrase, volPass)
		accept(t, "encrypted key, third try", d.file(), "x", "y", keyPhrase, volPass)
		refuse(t, "encrypted key, wrong phrase", s, d.file(), "x", "y", "z", keyPhrase, volPass)
	}
}

// passphrases for the volume
func passphrases(i int, t *e2.T) {
	s := newRemote(hostEd)
	defer s.Stop()
	f := defConf(s).file()
	l := []string{"", volPass + " ", " " + volPass, volPass[:len(volPass)-1], volPass[1:], strings.ToUpper(volPass), "x", volPass + volPass, "volume", volPass + "\t", defPw, strings.Repeat("x", 1000)}
	if i < len(l) {
		refuse(t, fmt.Sprintf("passphrase %.40q", l[i]), s, f, l[i], volPass)
		return
	}
	// damaged volume config
	cf := vol.FS.Top.Kid("gocryptfs.conf")
	old := cf.Data
	defer func() { cf.Data, cf.S = old, int64(len(old)) }()
	for _, d := range []string{"", "{}", "x", string(old[:len(old)/2]), strings.Replace(string(old), "\"Version\": 2", "\"Version\": 3", 1), strings.Replace(string(old), "HKDF", "Hkdf", 1)} {
		if d == string(old) {
			continue
		}
		cf.Data, cf.S = []byte(d), int64(len(d))
		refuse(t, fmt.Sprintf("volume config %.40q", d), s, f, volPass)
	}
}

type hostCase struct {
	name string
	ok   bool
	f    func(a string, k ssh.PublicKey) string
}

func hashed(a string) string {
	h, p, _ := net.SplitHostPort(a)
	salt := []byte("0123456789abcdefghij")
	m := hmac.New(sha1.New, salt)
	fmt.Fprintf(m, "[%s]:%s", h, p)
	return "|1|" + base64.StdEncoding.EncodeToString(salt) + "|" + base64.StdEncoding.EncodeToString(m.Sum(nil))
}

func keyText(k ssh.PublicKey) string { return strings.TrimSpace(string(ssh.MarshalAuthorizedKey(k))) }

var hostCases = []hostCase{
	{"the right key", true, hostLine},
	{"the right key among others", true, func(a string, k ssh.PublicKey) string {
		return hostLine("127.0.0.1:22", hostEC.PublicKey()) + "\n# comment\n\n" + hostLine(a, k) + "\n" + hostLine("127.3.3.3:22", hostEd.PublicKey())
	}},
	{"the right key under a hashed name", true, func(a string, k ssh.PublicKey) string { return hashed(a) + " " + keyText(k) }},
	{"the right key under a pattern", true, func(a string, k ssh.PublicKey) string {
		_, p, _ := net.SplitHostPort(a)
		return "[127.*]:" + p + " " + keyText(k)
	}},
	{"an empty file", false, func(string, ssh.PublicKey) string { return "" }},
	{"only a comment", false, func(a string, k ssh.PublicKey) string { return "# " + hostLine(a, k) }},
	{"another key", false, func(a string, k ssh.PublicKey) string { return hostLine(a, otherKey.PublicKey()) }},
	{"the key of another address", false, func(a string, k ssh.PublicKey) string { return hostLine("127.250.250.250:22", k) }},
	{"the key for the same host at another port", false, func(a string, k ssh.PublicKey) string {
		h, _, _ := net.SplitHostPort(a)
		return hostLine(h+":1", k)
	}},
	{"the key for the host without a port", false, func(a string, k ssh.PublicKey) string {
		h, _, _ := net.SplitHostPort(a)
		return h + " " + keyText(k)
	}},
	{"the key revoked", false, func(a string, k ssh.PublicKey) string { return "@revoked " + hostLine(a, k) }},
	{"the right key, but revoked for all", false, func(a string, k ssh.PublicKey) string {
		return hostLine(a, k) + "\n@revoked * " + keyText(k)
	}},
	{"the address excluded", false, func(a string, k ssh.PublicKey) string {
		h, p, _ := net.SplitHostPort(a)
		return fmt.Sprintf("[127.*]:%s,![%s]:%s %s", p, h, p, keyText(k))
	}},
	{"a malformed line", false, func(a string, k ssh.PublicKey) string { return "nonsense" }},
	{"a malformed key", false, func(a string, k ssh.PublicKey) string {
		l := hostLine(a, k)
		return l[:len(l)-8]
	}},
	{"another host's key hashed", false, func(a string, k ssh.PublicKey) string { return hashed("127.9.9.9:9") + " " + keyText(k) }},
}

func hostKeys(i int, t *e2.T) {
	hk := []ssh.Signer{hostEd, hostEC, hostRSA}[i%3]
	hc := hostCases[i/3]
	s := newRemote(hk)
	defer s.Stop()
	c := defConf(s)
	kh := c["KnownHostsPath"].(string)
	must(ioutil.WriteFile(kh, []byte(hc.f(s.Addr, hk.PublicKey())+"\n"), 0600))
	what := fmt.Sprintf("known hosts with %s (%s)", hc.name, hk.PublicKey().Type())
	if hc.ok {
		accept(t, what, c.file(), volPass)
		return
	}
	refuse(t, what, nil, c.file(), volPass)
	for _, k := range s.Conns() {
		if k.Attempts() > 0 {
			t.Failf("%s: the proxy tries to log in at the remote", what)
		}
	}
}

// imposters: the remote's key changes while the proxy runs
func imposters(i int, t *e2.T) {
	s := newRemote(hostEd)
	defer s.Stop()
	p := start(t, defConf(s))
	if p == nil {
		return
	}
	defer p.stop()
	files := []string{"/f", "/d/g", "/d/e/h", "/empty", "/many/file1", "/many/file2", "/many/file3", "/many/file4"}
	c, err := dial(defaultUser, ssh.Password(defPw))
	if err != nil {
		t.Failf("no login: %v", err)
		return
	}
	defer c.Close()
	w, err := session(c)
	if err != nil {
		t.Failf("no session: %v", err)
		return
	}
	n := 0
	for bits := i; ; bits >>= 1 {
		evil := bits&1 == 1
		// every connection dies; the next one meets the imposter or the real one
		s.DropAll()
		if evil {
			s.HostKey = []ssh.Signer{hostEvil, hostEC, hostRSA}[n%3]
		} else {
			s.HostKey = hostEd
		}
		before := len(s.Conns())
		tries := 0
		for ; tries < 3; tries++ { // dead connections may fail a call each
			b, err := w.ReadAll(files[n])
			t.Step()
			if err == nil {
				if string(b) != string(spec[files[n]]) {
					t.Failf("other content")
				}
				break
			}
		}
		if evil && tries < 3 {
			t.Failf("remote with an unknown host key (round %d of %b): a new file is read", n, i)
		}
		if !evil && tries == 3 {
			t.Failf("remote with its known host key again (round %d of %b): reading fails", n, i)
		}
		for _, k := range s.Conns()[before:] {
			if evil && k.Attempts() > 0 {
				t.Failf("remote with an unknown host key (round %d of %b): the proxy tries to log in", n, i)
			}
		}
		t.State(i, n)
		if n++; bits <= 1 || t.Failed() || n >= len(files) {
			break
		}
	}
	if !p.running() {
		t.Failf("the proxy has ended: %s", p.text())
	}
}

func num(k int) func(string) int {
	return func(string) int {
		if portTaken {
			return 0
		}
		return k
	}
}

func thor(q, k int) func(string) int {
	return func(tier string) int {
		if portTaken {
			return 0
		}
		if tier == "thorough" {
			return k
		}
		return q
	}
}

var _ = os.Getpid
var _ = time.Now
var _ = wire.Open

func main() {
	defer cleanup()
	c20 := []e2.Group{
		{Name: "credentials", Bounds: "9 configured user/password pairs, all combinations of about 30 near-miss users and 30 near-miss passwords each", N: num(len(creds)), Run: authPairs},
		{Name: "methods", Bounds: "every authentication method, all sequences of up to 3 (thorough 4) of 6 passwords on one connection, 4 configurations", N: num(4), Run: authMethods},
		{Name: "histories", Bounds: "all sequences of 3 clients out of 7 kinds, one after the other, some staying logged in", N: thor(1, 3), Run: authHistories},
	}
	c21 := []e2.Group{
		{Name: "missing fields", Bounds: "all 127 subsets of missing or empty configuration fields, and none", N: num(128), Run: missingFields},
		{Name: "odd configurations", Bounds: "missing, malformed, cut and wrongly typed configurations, wrong paths, keys, users and addresses", N: num(5), Run: oddConfigs},
		{Name: "passphrases", Bounds: "12 wrong volume passphrases, 6 damaged volume configs", N: num(13), Run: passphrases},
		{Name: "host keys", Bounds: "16 contents of the known-hosts file x 3 types of host key", N: num(3 * len(hostCases)), Run: hostKeys},
		{Name: "imposters", Bounds: "all sequences of up to 4 (thorough 6) reconnections to the real remote or one with another host key", N: thor(16, 64), Run: imposters},
	}
	c20 = debugging([]string{"credentials", "methods"}, c20)
	c21 = debugging([]string{"missing fields", "odd configurations", "passphrases", "host keys", "imposters"}, c21)
	c18, c19, c22, c25, c26, c27 := groups18(), groups19(), groups22(), groups25(), groups26(), groups27()
	for _, g := range [][]e2.Group{c18, c19, c20, c21, c22, c25, c26, c27} {
		for i := range g {
			g[i].Serial, g[i].Setup, g[i].Stall = true, setup, 5*time.Minute
			if g[i].Stop == 0 {
				g[i].Stop = 1
			}
		}
	}
	setupPort()
	checks := []e2.Check{
		{Prop: "C18", Groups: c18, Assume: []string{"the end of a session counts as a refusal for extended requests"}},
		{Prop: "C19", Groups: c19, Assume: []string{"one reply may carry at most 32 KiB, as usual in SFTP"}},
		{Prop: "C20", Groups: c20},
		{Prop: "C21", Groups: c21},
		{Prop: "C25", Groups: c25, Assume: []string{"the marks stand for any plaintext name, password and content; user names may be logged"}},
		{Prop: "C26", Groups: c26, Assume: []string{"a request may fail once for every connection that was lost"}},
		{Prop: "C27", Groups: c27, Known: knownFindings("C27"), Assume: []string{"goroutines, open files and the live heap stand for everything a request may occupy"}},
		{Prop: "C22", Groups: c22, Assume: []string{"bounded numbers of connections; exhausting file descriptors or memory by sheer volume is not considered"}},
	}
	for _, p := range []string{"C01", "C03", "C04", "C05", "C12"} {
		g := wholeGroups()[p]
		for i := range g {
			g[i].Serial, g[i].Setup, g[i].Stall, g[i].Stop = true, setup, 5*time.Minute, 1
		}
		checks = append(checks, e2.Check{Prop: p, Groups: g})
	}
	e2.Main(checks)
}

// setupPort finds out whether the proxy's port is free.
func setupPort() {
	for i := 0; i < 200; i++ {
		c, err := net.Dial("tcp", addr)
		if err != nil {
			return
		}
		c.Close()
		time.Sleep(20 * time.Millisecond)
	}
	portTaken = true
	fmt.Println("NOT DECIDED: port 9022 is in use")
}
