// Command eproxy decides C20, C21 and C22 on the real program: it is started with generated
// configurations against a controlled remote and driven by raw clients.
package main

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/rsa"
	"crypto/x509"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"io"
	"io/ioutil"
	"net"
	"os"
	"os/exec"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"golang.org/x/crypto/ssh"

	"verif/e2"
	"verif/pty"
	"verif/ref"
	"verif/remote"
	"verif/wire"
)

const (
	volPass  = "volume pass"
	addr     = "127.0.0.1:9022"
	patience = 15 * time.Second
)

var (
	scratch            string
	key                ssh.Signer // the proxy's key: its host key and its login at the remote
	otherKey           ssh.Signer
	hostEC, hostRSA    ssh.Signer
	hostEd             = remote.Signer("host")
	hostEvil           = remote.Signer("evil")
	keyPath, evilPath  string
	encKeyPath         string
	spec               ref.Spec
	vol                *ref.Volume
	setupOnce          sync.Once
	rem                *remote.Server
	portTaken          bool
	proxyBinary        = filepath.Join(filepath.Dir(os.Args[0]), "proxy")
	secret             = "pw"
	keyPhrase          = "key phrase"
	remoteUser         = "remoteuser"
	_                  = sort.Strings
	defaultUser, defPw = "alice", "s3cret"
)

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func setup(string) {
	setupOnce.Do(func() {
		var err error
		scratch, err = ioutil.TempDir("", "eproxy")
		must(err)
		ec := func(name string) ssh.Signer {
			k, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
			must(err)
			b, err := x509.MarshalECPrivateKey(k)
			must(err)
			must(ioutil.WriteFile(filepath.Join(scratch, name), pem.EncodeToMemory(&pem.Block{Type: "EC PRIVATE KEY", Bytes: b}), 0600))
			s, err := ssh.NewSignerFromKey(k)
			must(err)
			if name == "key" {
				blk, err := x509.EncryptPEMBlock(rand.Reader, "EC PRIVATE KEY", b, []byte(keyPhrase), x509.PEMCipherAES128) //nolint
				must(err)
				must(ioutil.WriteFile(filepath.Join(scratch, "enckey"), pem.EncodeToMemory(blk), 0600))
			}
			return s
		}
		key, otherKey, hostEC = ec("key"), ec("other"), ec("hostec")
		keyPath, evilPath, encKeyPath = filepath.Join(scratch, "key"), filepath.Join(scratch, "other"), filepath.Join(scratch, "enckey")
		rk, err := rsa.GenerateKey(rand.Reader, 2048)
		must(err)
		hostRSA, err = ssh.NewSignerFromKey(rk)
		must(err)
		spec = ref.Spec{"/f": ref.Content(70000, 1), "/d/g": []byte("gg"), "/d/e/h": ref.Content(5000, 2), "/empty": {}, "/z/": nil}
		for i := 0; i < 120; i++ {
			spec[fmt.Sprintf("/many/file%d", i)] = []byte(fmt.Sprint(i))
		}
		vol = ref.Build(ref.NewKeys(ref.Content(32, 9), true, true, false), "/vol", volPass, spec)
	})
}

func cleanup() {
	if scratch != "" {
		os.RemoveAll(scratch)
	}
}

// newRemote starts a remote for the volume.
func newRemote(host ssh.Signer) *remote.Server {
	s := &remote.Server{FS: vol.FS, HostKey: host, User: remoteUser, Key: key.PublicKey()}
	must(s.Start())
	return s
}

func hostLine(a string, k ssh.PublicKey) string {
	h, p, _ := net.SplitHostPort(a)
	return fmt.Sprintf("[%s]:%s %s", h, p, strings.TrimSpace(string(ssh.MarshalAuthorizedKey(k))))
}

// conf is a configuration of the proxy, as written to its file.
type conf map[string]interface{}

func defConf(s *remote.Server) conf {
	kh := filepath.Join(scratch, "known")
	must(ioutil.WriteFile(kh, []byte(hostLine(s.Addr, s.HostKey.PublicKey())+"\n"), 0600))
	return conf{"ProxyUser": defaultUser, "ProxyPassword": defPw, "KnownHostsPath": kh,
		"Remote": conf{"Addr": s.Addr, "FileRoot": "/vol", "User": remoteUser, "PrivateKeyPath": keyPath}}
}

func (c conf) clone() conf {
	b, _ := json.Marshal(c)
	var d conf
	_ = json.Unmarshal(b, &d)
	if m, ok := d["Remote"].(map[string]interface{}); ok {
		d["Remote"] = conf(m)
	}
	return d
}

// proxy is a running proxy.
type proxy struct {
	cmd  *exec.Cmd
	m    *os.File
	gone chan struct{}
	err  error
	mu   sync.Mutex
	out  bytes.Buffer
}

func (p *proxy) Write(b []byte) (int, error) {
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.out.Len() < 1<<22 {
		p.out.Write(b)
	}
	return len(b), nil
}

func (p *proxy) text() string {
	p.mu.Lock()
	defer p.mu.Unlock()
	s := strings.TrimSpace(p.out.String())
	if i := strings.Index(s, "panic:"); i >= 0 {
		s = s[i:]
	}
	if len(s) > 400 {
		s = s[:400]
	}
	return s
}

func (p *proxy) printed() int {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.out.Len()
}

func (p *proxy) running() bool {
	select {
	case <-p.gone:
		return false
	default:
		return true
	}
}

func (p *proxy) stop() {
	_ = p.cmd.Process.Kill()
	<-p.gone
	p.m.Close()
}

// launch starts the program with a configuration file and answers to its prompts and waits until it
// serves or has ended.
func launch(file string, answers ...string) (p *proxy, serving bool) {
	return launchAs(nil, file, answers...)
}

// launchAs runs the program through another one.
func launchAs(through []string, file string, answers ...string) (p *proxy, serving bool) {
	p = run(through, nil, file, answers...)
	return p, p.serves()
}

// flags of the program, besides the configuration
var flags []string

// env is added to the environment of the program
var env []string

// debugging adds, for the named groups, the same with debugging output.
func debugging(names []string, l []e2.Group) []e2.Group {
	for _, g := range l {
		for _, n := range names {
			if g.Name != n {
				continue
			}
			run := g.Run
			g.Name += ", debugging"
			g.Bounds = "the same with the flag -e"
			g.Run = func(i int, t *e2.T) {
				flags = []string{"-e"}
				defer func() { flags = nil }()
				run(i, t)
			}
			l = append(l, g)
		}
	}
	return l
}

// run starts the program.
func run(through, args []string, file string, answers ...string) *proxy {
	m, s, err := pty.Open()
	must(err)
	p := &proxy{m: m, gone: make(chan struct{})}
	for _, a := range answers {
		_, _ = m.Write([]byte(a + "\n"))
	}
	if len(answers) == 0 {
		must(pty.SetEcho(s)) // to be typed while it runs
	}
	argv := append(append([]string(nil), through...), proxyBinary, "-c", file)
	argv = append(append(argv, flags...), args...)
	p.cmd = exec.Command(argv[0], argv[1:]...)
	p.cmd.Stdin, p.cmd.Stdout, p.cmd.Stderr = s, p, p
	p.cmd.Dir = scratch
	if env != nil {
		p.cmd.Env = append(os.Environ(), env...)
	}
	p.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	must(p.cmd.Start())
	s.Close()
	go func() {
		p.err = p.cmd.Wait()
		close(p.gone)
	}()
	return p
}

// serves waits until the program serves or has ended.
func (p *proxy) serves() bool {
	end := time.Now().Add(patience)
	for time.Now().Before(end) {
		c, err := net.Dial("tcp", addr)
		if err == nil {
			// the connection must be the program's, not a leftover of the one before
			c.Close()
			return true
		}
		select {
		case <-p.gone:
			return false
		case <-time.After(2 * time.Millisecond):
		}
	}
	return false
}

func (c conf) file() string {
	f := filepath.Join(scratch, "config.json")
	b, err := json.Marshal(c)
	must(err)
	must(ioutil.WriteFile(f, b, 0600))
	return f
}

// start launches and expects service.
func start(t *e2.T, c conf) *proxy {
	p, ok := launch(c.file(), volPass)
	t.Step()
	if !ok {
		t.Failf("the proxy does not serve: %s", p.text())
		p.stop()
		return nil
	}
	return p
}

// ---- clients -----------------------------------------------------------------------------------

func clientConf(user string, a ...ssh.AuthMethod) *ssh.ClientConfig {
	return &ssh.ClientConfig{User: user, Auth: a, HostKeyCallback: func(_ string, _ net.Addr, k ssh.PublicKey) error {
		if !bytes.Equal(k.Marshal(), key.PublicKey().Marshal()) {
			return fmt.Errorf("unexpected host key")
		}
		return nil
	}, Timeout: patience}
}

// dial connects with a deadline for the handshake.
func dial(user string, a ...ssh.AuthMethod) (*ssh.Client, error) {
	c, err := net.DialTimeout("tcp", addr, patience)
	if err != nil {
		return nil, err
	}
	_ = c.SetDeadline(time.Now().Add(patience))
	cc, ch, rq, err := ssh.NewClientConn(c, addr, clientConf(user, a...))
	if err != nil {
		c.Close()
		return nil, err
	}
	_ = c.SetDeadline(time.Time{})
	return ssh.NewClient(cc, ch, rq), nil
}

func channel(c *ssh.Client) (ssh.Channel, error) {
	ch, rq, err := c.OpenChannel("session", nil)
	if err != nil {
		return nil, err
	}
	go ssh.DiscardRequests(rq)
	ok, err := ch.SendRequest("subsystem", true, wire.Str("sftp"))
	if err != nil || !ok {
		return nil, fmt.Errorf("subsystem refused: %v", err)
	}
	return ch, nil
}

func session(c *ssh.Client) (*wire.Client, error) {
	ch, err := channel(c)
	if err != nil {
		return nil, err
	}
	w := wire.NewClient(ch)
	w.Wait = patience
	return w, w.Hello()
}

// visit logs in and looks at part of the volume.
func visit(user, pw string) error {
	c, err := dial(user, ssh.Password(pw))
	if err != nil {
		return err
	}
	defer c.Close()
	return look(c, false)
}

// look checks the volume through a new session of the connection.
func look(c *ssh.Client, all bool) error {
	ch := make(chan error, 1)
	go func() {
		w, err := session(c)
		if err == nil {
			err = tour(w, all)
		}
		ch <- err
	}()
	select {
	case err := <-ch:
		return err
	case <-time.After(patience):
		return fmt.Errorf("no answer")
	}
}

func tour(w *wire.Client, all bool) error {
	dirs := []string{"/", "/d"}
	files := []string{"/d/g"}
	if all {
		dirs = append(dirs, "/many", "/z")
		files = append(files, "/f", "/d/e/h", "/empty", "/many/file7")
	}
	for _, d := range dirs {
		l, err := w.List(d)
		if err != nil {
			return fmt.Errorf("listing %s: %v", d, err)
		}
		var a, b []string
		for _, e := range l {
			if e.Name != "." && e.Name != ".." {
				a = append(a, e.Name)
			}
		}
		seen := map[string]bool{}
		for p := range spec {
			for q := strings.TrimSuffix(p, "/"); q != "/" && q != "."; q = path.Dir(q) {
				if path.Dir(q) == d && !seen[q] {
					seen[q] = true
					b = append(b, path.Base(q))
				}
			}
		}
		sort.Strings(a)
		sort.Strings(b)
		if strings.Join(a, "|") != strings.Join(b, "|") {
			return fmt.Errorf("listing %s gives %d entries instead of %d", d, len(a), len(b))
		}
	}
	for _, f := range files {
		b, err := w.ReadAll(f)
		if err != nil {
			return fmt.Errorf("reading %s: %v", f, err)
		}
		if !bytes.Equal(b, spec[f]) {
			return fmt.Errorf("reading %s gives other content", f)
		}
	}
	if _, err := w.ReadAll("/nothing"); err == nil {
		return fmt.Errorf("reading a missing file succeeds")
	}
	return nil
}

var _ io.Reader
