package main

import (
	"fmt"
	"io"
	"net"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/crypto/ssh"

	"verif/e2"
	"verif/remote"
	"verif/wire"
)

// ---- C22 -----------------------------------------------------------------------------------------

// misdeed is something a client may do. It returns what is left open, to be closed at the end.
type misdeed struct {
	name string
	do   func() []io.Closer
}

func tcp() net.Conn {
	c, err := net.DialTimeout("tcp", addr, patience)
	if err != nil {
		return nil
	}
	_ = c.SetDeadline(time.Now().Add(patience))
	return c
}

type closers []io.Closer

func (c closers) Close() error {
	for _, x := range c {
		x.Close()
	}
	return nil
}

func raw(hold bool, parts ...string) func() []io.Closer {
	return func() []io.Closer {
		c := tcp()
		if c == nil {
			return nil
		}
		for _, p := range parts {
			_, _ = c.Write([]byte(p))
		}
		if !hold {
			c.Close()
			return nil
		}
		return []io.Closer{c}
	}
}

// in runs f on an authenticated connection.
func in(hold bool, f func(c *ssh.Client)) func() []io.Closer {
	return func() []io.Closer {
		c, err := dial(defaultUser, ssh.Password(defPw))
		if err != nil {
			return nil
		}
		f(c)
		if !hold {
			c.Close()
			return nil
		}
		return []io.Closer{c}
	}
}

// soon runs f but does not wait for it longer than a moment.
func soon(f func()) {
	d := make(chan struct{})
	go func() { defer close(d); f() }()
	select {
	case <-d:
	case <-time.After(300 * time.Millisecond):
	}
}

// onChan runs f on a session channel.
func onChan(hold, subsystem bool, f func(ch ssh.Channel)) func() []io.Closer {
	return in(hold, func(c *ssh.Client) {
		soon(func() {
			if subsystem {
				if ch, err := channel(c); err == nil {
					f(ch)
				}
				return
			}
			ch, rq, err := c.OpenChannel("session", nil)
			if err != nil {
				return
			}
			go ssh.DiscardRequests(rq)
			f(ch)
		})
	})
}

// onSFTP runs f on an SFTP session.
func onSFTP(hold bool, f func(w *wire.Client)) func() []io.Closer {
	return in(hold, func(c *ssh.Client) {
		soon(func() {
			if w, err := session(c); err == nil {
				f(w)
			}
		})
	})
}

func handshakeRecord() string {
	// the first bytes a real client sends
	a, b := net.Pipe()
	go func() {
		_, _, _, _ = ssh.NewClientConn(a, "x", clientConf("u"))
	}()
	buf := make([]byte, 8192)
	n := 0
	go func() { _, _ = b.Write([]byte("SSH-2.0-x\r\n")) }()
	_ = b.SetReadDeadline(time.Now().Add(500 * time.Millisecond))
	for {
		k, err := b.Read(buf[n:])
		n += k
		if err != nil || n == len(buf) {
			break
		}
	}
	b.Close()
	return string(buf[:n])
}

var hsk string

func misdeeds() []misdeed {
	if hsk == "" {
		hsk = handshakeRecord()
	}
	ver := "SSH-2.0-x\r\n"
	l := []misdeed{
		{"connect and leave", raw(false)},
		{"connect and stay silent", raw(true)},
		{"send garbage", raw(true, "GET / HTTP/1.0\r\n\r\n")},
		{"send binary garbage and leave", raw(false, strings.Repeat("\x00\xff", 5000))},
		{"send the version and stay silent", raw(true, ver)},
		{"send the version and leave", raw(false, ver)},
		{"send an endless version line", raw(true, "SSH-2.0-"+strings.Repeat("x", 3000))},
		{"send the version and garbage", raw(true, ver, strings.Repeat("A", 4000))},
		{"send a key exchange and stay silent", raw(true, hsk)},
		{"send half a key exchange and stay silent", raw(true, hsk[:len(hsk)/2])},
		{"send a key exchange and leave", raw(false, hsk)},
		{"send a huge packet length", raw(true, ver, "\xff\xff\xff\xff\x04aaaa")},
		{"stop in the middle of logging in", func() []io.Closer {
			c := tcp()
			if c == nil {
				return nil
			}
			block := make(chan struct{})
			asked := make(chan struct{})
			go func() {
				_, _, _, _ = ssh.NewClientConn(c, addr, clientConf(defaultUser, ssh.PasswordCallback(func() (string, error) {
					close(asked)
					<-block
					return "", fmt.Errorf("never")
				})))
			}()
			select {
			case <-asked:
			case <-time.After(patience):
			}
			return []io.Closer{c, closeChan(block)}
		}},
		{"fail to log in", func() []io.Closer { _, _ = dial(defaultUser, ssh.Password("x")); return nil }},
		{"fail to log in many times", func() []io.Closer {
			k := 0
			_, _ = dial(defaultUser, ssh.RetryableAuthMethod(ssh.PasswordCallback(func() (string, error) { k++; return fmt.Sprint(k), nil }), 20))
			return nil
		}},
		{"log in without a method", func() []io.Closer { _, _ = dial("", ssh.PublicKeys(otherKey)); return nil }},
		{"log in and stay idle", in(true, func(*ssh.Client) {})},
		{"log in and leave", in(false, func(*ssh.Client) {})},
		{"log in 20 times and stay idle", func() (r []io.Closer) {
			for i := 0; i < 20; i++ {
				r = append(r, in(true, func(*ssh.Client) {})()...)
			}
			return
		}},
		{"open channels of unknown types", in(true, func(c *ssh.Client) {
			soon(func() {
				for _, t := range []string{"", "x11", "direct-tcpip", "forwarded-tcpip", "Session", "session ", strings.Repeat("t", 20000)} {
					_, _, _ = c.OpenChannel(t, []byte("data"))
				}
			})
		})},
		{"send global requests", in(true, func(c *ssh.Client) {
			soon(func() {
				for _, r := range []string{"", "ping", "tcpip-forward", "keepalive@openssh.com", "hostkeys-00@openssh.com", strings.Repeat("r", 20000)} {
					_, _, _ = c.SendRequest(r, true, []byte("x"))
					_, _, _ = c.SendRequest(r, false, nil)
				}
			})
		})},
		{"open a channel and stay idle", onChan(true, false, func(ssh.Channel) {})},
		{"open a channel and close it", onChan(true, false, func(ch ssh.Channel) { ch.Close() })},
		{"open a channel and half-close it", onChan(true, false, func(ch ssh.Channel) { _ = ch.CloseWrite() })},
		{"open 30 channels and stay idle", in(true, func(c *ssh.Client) {
			soon(func() {
				for i := 0; i < 30; i++ {
					_, _, _ = c.OpenChannel("session", nil)
				}
			})
		})},
		{"open and abandon 30 sessions", in(false, func(c *ssh.Client) {
			soon(func() {
				for i := 0; i < 30; i++ {
					_, _ = session(c)
				}
			})
		})},
		{"start the subsystem and stay silent", onChan(true, true, func(ssh.Channel) {})},
		{"start the subsystem twice", onChan(true, true, func(ch ssh.Channel) { _, _ = ch.SendRequest("subsystem", true, wire.Str("sftp")) })},
		{"leave handles open", onSFTP(true, func(w *wire.Client) {
			for i := 0; i < 20; i++ {
				w.Do(wire.Open, wire.Str("/f"), wire.U32(1), wire.U32(0))
				w.Do(wire.Opendir, wire.Str("/many"))
			}
		})},
		{"leave handles open and leave", onSFTP(false, func(w *wire.Client) {
			w.Do(wire.Open, wire.Str("/f"), wire.U32(1), wire.U32(0))
			w.Do(wire.Opendir, wire.Str("/many"))
		})},
		{"send requests and leave without reading", onSFTP(false, func(w *wire.Client) {
			for i := 0; i < 50; i++ {
				w.Send(wire.Stat, wire.Str("/f"))
				w.Send(wire.Open, wire.Str("/d/e/h"), wire.U32(1), wire.U32(0))
			}
		})},
		{"close the channel in the middle of a packet", onSFTP(true, func(w *wire.Client) { _ = w.Raw([]byte{0, 0, 1, 0, 5, 1}); w.C.Close() })},
		{"leave in the middle of a packet", onSFTP(false, func(w *wire.Client) { _ = w.Raw([]byte{0, 0, 1, 0, 5, 1}) })},
		{"stay in the middle of a packet", onSFTP(true, func(w *wire.Client) { _ = w.Raw([]byte{0, 0, 1, 0, 5, 1}) })},
		{"never read the answers", onChan(true, true, func(ch ssh.Channel) {
			// enough data to fill the window
			_, _ = ch.Write(wire.Frame(wire.Init, wire.U32(3)))
			_, _ = ch.Write(wire.Frame(wire.Open, wire.Cat(wire.U32(1), wire.Str("/f"), wire.U32(1), wire.U32(0))))
			for _, h := range []string{"0", "1"} {
				for i := 0; i < 100; i++ {
					_, _ = ch.Write(wire.Frame(wire.Read, wire.Cat(wire.U32(uint32(2+i)), wire.Str(h), wire.U64(0), wire.U32(32768))))
				}
			}
		})},
		{"announce a huge packet", onSFTP(true, func(w *wire.Client) { _ = w.Raw([]byte{255, 255, 255, 255, 3}) })},
		{"ask for everything at once", onSFTP(true, func(w *wire.Client) {
			for i := 0; i < 120; i++ {
				w.Send(wire.Stat, wire.Str(fmt.Sprintf("/many/file%d", i)))
				w.Send(wire.Open, wire.Str(fmt.Sprintf("/many/file%d", i)), wire.U32(1), wire.U32(0))
				w.Send(wire.Opendir, wire.Str("/many"))
			}
		})},
		{"ask for missing files", onSFTP(true, func(w *wire.Client) {
			for i := 0; i < 60; i++ {
				w.Send(wire.Open, wire.Str(fmt.Sprintf("/missing%d/x", i)), wire.U32(1), wire.U32(0))
			}
		})},
		{"use standard error", onChan(true, true, func(ch ssh.Channel) { _, _ = ch.Stderr().Write([]byte("hello")) })},
	}
	// subsystem requests with every short payload and some wrong ones
	for _, pl := range []string{"", "\x00", "\x00\x00", "\x00\x00\x00", "\x00\x00\x00\x00", "\x00\x00\x00\x04", "\x00\x00\x00\x04sft", "\x00\x00\x00\x03sftp", "\xff\xff\xff\xffsftp", "\x00\x00\x00\x04SFTP", "\x00\x00\x00\x05sftp\x00", "sftp", strings.Repeat("s", 20000)} {
		for _, ty := range []string{"subsystem", "exec", "shell", "pty-req", "env", "x"} {
			if ty != "subsystem" && len(pl) > 3 {
				continue
			}
			pl, ty := pl, ty
			l = append(l, misdeed{fmt.Sprintf("request %s with payload %s", ty, cut(pl)), onChan(true, false, func(ch ssh.Channel) {
				_, _ = ch.SendRequest(ty, false, []byte(pl))
				_, _ = ch.SendRequest(ty, true, []byte(pl))
			})})
		}
	}
	return l
}

type closeChan chan struct{}

func (c closeChan) Close() error { close(c); return nil }

// goodClient is the judge: it must be served correctly.
func goodClient(t *e2.T, p *proxy, what string) bool {
	c, err := dial(defaultUser, ssh.Password(defPw))
	if err == nil {
		err = look(c, false)
		c.Close()
	}
	if !p.running() {
		t.Failf("%s: the proxy has ended: %s", what, p.text())
		return false
	}
	if err != nil {
		t.Failf("%s: another client is not served: %v", what, err)
		return false
	}
	return true
}

type arena struct {
	s *remote.Server
	p *proxy

	flags string
}

var cur *arena

// ready returns a running proxy, the same one for all cases until one fails.
func ready(t *e2.T) *arena {
	if cur != nil && cur.flags != strings.Join(flags, " ") {
		cur.end()
	}
	if cur != nil && cur.p.running() {
		return cur
	}
	s := newRemote(hostEd)
	p := start(t, defConf(s))
	if p == nil {
		s.Stop()
		return nil
	}
	cur = &arena{s, p, strings.Join(flags, " ")}
	return cur
}

func (a *arena) end() {
	a.p.stop()
	a.s.Stop()
	cur = nil
}

func once(i int, t *e2.T) {
	a := ready(t)
	if a == nil {
		return
	}
	m := misdeeds()[i]
	// a client that came before must stay served as well
	c, err := dial(defaultUser, ssh.Password(defPw))
	if err != nil {
		t.Failf("no login: %v", err)
		a.end()
		return
	}
	defer c.Close()
	w, err := session(c)
	if err != nil {
		t.Failf("no session: %v", err)
		a.end()
		return
	}
	open := m.do()
	t.Steps(2)
	t.State(i)
	ok := goodClient(t, a.p, "a client may "+m.name)
	if ok {
		if err := tour(w, true); err != nil {
			t.Failf("a client may %s: a client that was there before is not served: %v", m.name, err)
			ok = false
		}
	}
	for _, o := range open {
		o.Close()
	}
	if ok {
		ok = goodClient(t, a.p, "a client may "+m.name+" and leave")
	}
	if !ok {
		a.end()
	}
}

func pairs(i int, t *e2.T) {
	ms := misdeeds()
	for j := range ms {
		if t.Tier != "thorough" && j >= 38 {
			break
		}
		a := ready(t)
		if a == nil {
			return
		}
		x := ms[i].do()
		y := ms[j].do()
		t.Steps(2)
		t.State(i, j)
		ok := goodClient(t, a.p, fmt.Sprintf("one client may %s and one %s", ms[i].name, ms[j].name))
		for _, o := range append(x, y...) {
			o.Close()
		}
		if !ok {
			a.end()
			return
		}
	}
}

// packets: every SFTP packet type, valid, cut at every length, with wrong lengths inside
func packetMenu() (names []string, m map[string][]byte) {
	m = map[string][]byte{}
	at := wire.Cat(wire.U32(15), wire.U64(1), wire.U32(1), wire.U32(1), wire.U32(0644), wire.U32(1), wire.U32(1))
	add := func(t byte, b ...[]byte) {
		n := wire.TypeName(t)
		for m[n] != nil {
			n += "'"
		}
		m[n] = wire.Cat([]byte{t}, wire.U32(7), wire.Cat(b...))
	}
	p, h := wire.Str("/f"), wire.Str("1")
	add(3, p, wire.U32(1), at)
	add(3, p, wire.U32(2), at)
	add(4, h)
	add(5, h, wire.U64(0), wire.U32(10))
	add(6, h, wire.U64(0), wire.Str("abc"))
	add(7, p)
	add(8, h)
	add(9, p, at)
	add(10, h, at)
	add(11, wire.Str("/"))
	add(12, h)
	add(13, p)
	add(14, p, at)
	add(15, p)
	add(16, p)
	add(17, p)
	add(18, p, p)
	add(19, p)
	add(20, p, p)
	add(200, wire.Str("statvfs@openssh.com"), p)
	add(200, wire.Str("posix-rename@openssh.com"), p, p)
	add(200, wire.Str("bogus"), p)
	m["INIT"] = wire.Cat([]byte{1}, wire.U32(3))
	for n := range m {
		names = append(names, n)
	}
	sort.Strings(names)
	return
}

// malformed sends packets on fresh sessions of one connection per batch.
func malformed(i int, t *e2.T) {
	names, m := packetMenu()
	var list [][]byte
	var what []string
	if i < len(names) {
		b := m[names[i]]
		for l := 0; l <= len(b); l++ {
			list = append(list, b[:l])
			what = append(what, fmt.Sprintf("%s cut to %d of %d bytes", names[i], l, len(b)))
		}
		for k := 5; k+4 <= len(b); k++ { // inner lengths
			for _, v := range []uint32{0, 1, 0x7fffffff, 0xffffffff, uint32(len(b))} {
				c := append([]byte{}, b...)
				copy(c[k:], wire.U32(v))
				list = append(list, c)
				what = append(what, fmt.Sprintf("%s with %d at offset %d", names[i], v, k))
			}
		}
	} else {
		for ty := 0; ty < 256; ty++ {
			for _, tail := range []string{"", "\x00", "\x00\x00\x00\x09", "\x00\x00\x00\x09\x00\x00\x00\x01x"} {
				list = append(list, append([]byte{byte(ty)}, tail...))
				what = append(what, fmt.Sprintf("packet of type %d with %d more bytes", ty, len(tail)))
			}
		}
	}
	for k, b := range list {
		for _, stage := range []int{0, 1, 2} { // before the version exchange, after it, with handles open
			if stage == 0 && k%4 != 0 && t.Tier != "thorough" {
				continue
			}
			a := ready(t)
			if a == nil {
				return
			}
			onChan(false, true, func(ch ssh.Channel) {
				if stage > 0 {
					_, _ = ch.Write(wire.Frame(wire.Init, wire.U32(3)))
				}
				if stage > 1 {
					_, _ = ch.Write(wire.Frame(wire.Open, wire.Cat(wire.U32(1), wire.Str("/f"), wire.U32(1), wire.U32(0))))
					_, _ = ch.Write(wire.Frame(wire.Opendir, wire.Cat(wire.U32(2), wire.Str("/"))))
				}
				_, _ = ch.Write(wire.Cat(wire.U32(uint32(len(b))), b))
				_ = ch.CloseWrite()
				_, _ = io.Copy(io.Discard, ch) // until the proxy has dealt with it
			})()
			t.Step()
			t.State(what[k], stage)
			if !a.p.running() || k%50 == 49 || k == len(list)-1 {
				if !goodClient(t, a.p, fmt.Sprintf("a client may send %s (stage %d)", what[k], stage)) {
					a.end()
					return
				}
			}
		}
	}
}

// mute is a connection whose answers the client no longer reads once it is told to.
type mute struct {
	*net.TCPConn
	stop    chan struct{}
	written int64
}

func (m *mute) Read(b []byte) (int, error) {
	select {
	case <-m.stop:
		// the client's side of the connection goes on existing, but nobody reads
		select {}
	default:
	}
	_ = m.TCPConn.SetReadDeadline(time.Now().Add(50 * time.Millisecond))
	n, err := m.TCPConn.Read(b)
	if ne, ok := err.(net.Error); ok && ne.Timeout() && n == 0 {
		return m.Read(b)
	}
	return n, err
}

func (m *mute) Write(b []byte) (int, error) {
	n, err := m.TCPConn.Write(b)
	atomic.AddInt64(&m.written, int64(n))
	return n, err
}

// vanish logs in, starts many things at once and resets the connection before the answers come.
func vanish(f func(c *ssh.Client, i int), n int) func() []io.Closer {
	return func() []io.Closer {
		t, err := net.DialTimeout("tcp", addr, patience)
		if err != nil {
			return nil
		}
		m := &mute{TCPConn: t.(*net.TCPConn), stop: make(chan struct{})}
		stuck := time.AfterFunc(patience, func() { t.Close() })
		defer stuck.Stop()
		cc, ch, rq, err := ssh.NewClientConn(m, addr, clientConf(defaultUser, ssh.Password(defPw)))
		if err != nil {
			t.Close()
			return nil
		}
		c := ssh.NewClient(cc, ch, rq)
		close(m.stop)
		for i := 0; i < n; i++ {
			go f(c, i)
		}
		// until everything is on its way
		for k, last := 0, int64(-1); k < 3 && m.written < 1<<20; {
			time.Sleep(time.Millisecond)
			w := atomic.LoadInt64(&m.written)
			if w == last {
				k++
			} else {
				k, last = 0, w
			}
		}
		_ = m.TCPConn.SetLinger(0)
		_ = m.TCPConn.Close()
		return nil
	}
}

func vanishings() []misdeed {
	open := func(ty string) func(*ssh.Client, int) {
		return func(c *ssh.Client, _ int) { _, _, _ = c.OpenChannel(ty, nil) }
	}
	var l []misdeed
	for _, n := range []int{1, 10, 400} {
		l = append(l,
			misdeed{fmt.Sprintf("ask for %d channels of unknown type and vanish", n), vanish(open("x"), n)},
			misdeed{fmt.Sprintf("ask for %d sessions and vanish", n), vanish(open("session"), n)},
			misdeed{fmt.Sprintf("ask for %d channels of all types and vanish", n), vanish(func(c *ssh.Client, i int) {
				_, _, _ = c.OpenChannel([]string{"session", "x", "direct-tcpip"}[i%3], nil)
			}, n)},
			misdeed{fmt.Sprintf("send %d global requests and vanish", n), vanish(func(c *ssh.Client, i int) { _, _, _ = c.SendRequest("keepalive", true, nil) }, n)},
		)
	}
	// on an open session
	for _, k := range []struct {
		name string
		f    func(ch ssh.Channel)
	}{
		{"ask for the subsystem 100 times", func(ch ssh.Channel) {
			for i := 0; i < 100; i++ {
				go func() { _, _ = ch.SendRequest("subsystem", true, wire.Str("sftp")) }()
			}
		}},
		{"make 100 unknown requests", func(ch ssh.Channel) {
			for i := 0; i < 100; i++ {
				go func() { _, _ = ch.SendRequest("shell", true, nil) }()
			}
		}},
		{"send 200 SFTP requests", func(ch ssh.Channel) {
			_, _ = ch.Write(wire.Frame(wire.Init, wire.U32(3)))
			for i := 0; i < 50; i++ {
				_, _ = ch.Write(wire.Frame(wire.Open, wire.Cat(wire.U32(uint32(4*i)), wire.Str("/f"), wire.U32(1), wire.U32(0))))
				_, _ = ch.Write(wire.Frame(wire.Stat, wire.Cat(wire.U32(uint32(4*i+1)), wire.Str("/d/g"))))
				_, _ = ch.Write(wire.Frame(wire.Opendir, wire.Cat(wire.U32(uint32(4*i+2)), wire.Str("/many"))))
				_, _ = ch.Write(wire.Frame(wire.Read, wire.Cat(wire.U32(uint32(4*i+3)), wire.Str("0"), wire.U64(0), wire.U32(32768))))
			}
		}},
		{"close the channel 1 time", func(ch ssh.Channel) { ch.Close() }},
	} {
		k := k
		l = append(l, misdeed{"open a session, " + k.name + " and vanish", func() []io.Closer {
			t, err := net.DialTimeout("tcp", addr, patience)
			if err != nil {
				return nil
			}
			m := &mute{TCPConn: t.(*net.TCPConn), stop: make(chan struct{})}
			stuck := time.AfterFunc(patience, func() { t.Close() })
			defer stuck.Stop()
			defer func() {
				_ = m.TCPConn.SetLinger(0)
				_ = m.TCPConn.Close()
			}()
			cc, ch, rq, err := ssh.NewClientConn(m, addr, clientConf(defaultUser, ssh.Password(defPw)))
			if err != nil {
				return nil
			}
			c := ssh.NewClient(cc, ch, rq)
			se, rr, err := c.OpenChannel("session", nil)
			if err != nil {
				return nil
			}
			go ssh.DiscardRequests(rr)
			close(m.stop)
			soon(func() {
				k.f(se)
				time.Sleep(2 * time.Millisecond)
			})
			return nil
		}})
	}
	return l
}

// vanished: clients that vanish in the middle of something, several times over.
func vanished(i int, t *e2.T) {
	a := ready(t)
	if a == nil {
		return
	}
	m := vanishings()[i]
	n := 8
	if t.Tier == "thorough" {
		n = 40
	}
	for k := 0; k < n; k++ {
		m.do()
		t.Steps(1)
		t.State(i, k)
		if !goodClient(t, a.p, fmt.Sprintf("a client may %s, %d times over", m.name, k+1)) {
			a.end()
			return
		}
	}
}

// sessions: several channels on one connection, each of which must be served whatever the others do.
var channelUses = []struct {
	name string
	f    func(c *ssh.Client) func()
}{
	{"a channel of unknown type", func(c *ssh.Client) func() { _, _, _ = c.OpenChannel("x", nil); return nil }},
	{"a session without a subsystem", func(c *ssh.Client) func() {
		if _, rq, err := c.OpenChannel("session", nil); err == nil {
			go ssh.DiscardRequests(rq)
		}
		return nil
	}},
	{"a silent session", func(c *ssh.Client) func() { _, _ = channel(c); return nil }},
	{"a session with open handles", func(c *ssh.Client) func() {
		w, err := session(c)
		if err != nil {
			return nil
		}
		w.Do(wire.Open, wire.Str("/f"), wire.U32(1), wire.U32(0))
		w.Do(wire.Opendir, wire.Str("/many"))
		return func() { w.C.Close() }
	}},
	{"a session that ends", func(c *ssh.Client) func() {
		if w, err := session(c); err == nil {
			w.C.Close()
		}
		return nil
	}},
	{"a session in the middle of a packet", func(c *ssh.Client) func() {
		w, err := session(c)
		if err != nil {
			return nil
		}
		_ = w.Raw([]byte{0, 0, 1, 0, 5, 1})
		return func() { w.C.Close() }
	}},
	{"a global request", func(c *ssh.Client) func() { _, _, _ = c.SendRequest("keepalive@openssh.com", true, nil); return nil }},
}

func sessions(i int, t *e2.T) {
	a := ready(t)
	if a == nil {
		return
	}
	n := len(channelUses)
	k := 2
	if t.Tier == "thorough" {
		k = 3
	}
	seqs := 1
	for j := 0; j < k; j++ {
		seqs *= n
	}
	for q := 0; q < seqs; q++ {
		c, err := dial(defaultUser, ssh.Password(defPw))
		if err != nil {
			t.Failf("no login: %v", err)
			a.end()
			return
		}
		us := []int{i}
		for j, r := 0, q; j < k; j, r = j+1, r/n {
			us = append(us, r%n)
		}
		var names []string
		done := make(chan struct{})
		go func() {
			defer close(done)
			var ends []func()
			for _, u := range us {
				ends = append(ends, channelUses[u].f(c))
			}
			for _, e := range ends[:1] {
				if e != nil {
					e()
				}
			}
		}()
		for _, u := range us {
			names = append(names, channelUses[u].name)
		}
		select {
		case <-done:
			err = look(c, false)
		case <-time.After(patience):
			err = fmt.Errorf("no answer")
		}
		c.Close()
		t.Steps(len(us))
		t.State(fmt.Sprint(us))
		if !a.p.running() {
			t.Failf("one connection with %s: the proxy has ended: %s", strings.Join(names, ", "), a.p.text())
			a.end()
			return
		}
		if err != nil {
			t.Failf("one connection with %s: a further session on it is not served: %v", strings.Join(names, ", "), err)
			a.end()
			return
		}
	}
}

// scarce: a proxy that may have 48 files open lives through every misbehaviour many times over.
func scarce(i int, t *e2.T) {
	ms := append(misdeeds(), vanishings()...)
	m := ms[i]
	if cur != nil {
		cur.end()
	}
	s := newRemote(hostEd)
	defer s.Stop()
	p, ok := launchAs([]string{"/bin/sh", "-c", `ulimit -n 48; exec "$0" "$@"`}, defConf(s).file(), volPass)
	defer p.stop()
	if !ok {
		t.Failf("the proxy does not serve with 48 open files allowed: %s", p.text())
		return
	}
	begin := time.Now()
	n := 0
	for ; n < 60 && time.Since(begin) < 4*time.Second; n++ {
		for _, o := range m.do() {
			o.Close()
		}
		t.Step()
	}
	if n < 60 {
		t.Note("misbehaviours repeated less than 60 times", 1)
	}
	t.State(i)
	// whatever was open is given back, sooner or later
	var err error
	for end := time.Now().Add(patience); time.Now().Before(end) && p.running(); time.Sleep(100 * time.Millisecond) {
		if err = visit(defaultUser, defPw); err == nil {
			return
		}
	}
	if !p.running() {
		t.Failf("%d clients, one after the other, %s and leave: the proxy has ended: %s", n, m.name, p.text())
		return
	}
	t.Failf("%d clients, one after the other, %s and leave: another client is not served any more: %v", n, m.name, err)
}

// many: one misbehaviour by many clients that stay.
func many(i int, t *e2.T) {
	a := ready(t)
	if a == nil {
		return
	}
	m := misdeeds()[i]
	first := m.do()
	if len(first) == 0 {
		t.State(i)
		return // it leaves nothing behind
	}
	n := 150
	if t.Tier == "thorough" {
		n = 600
	}
	var mu sync.Mutex
	var wg sync.WaitGroup
	open := first
	q := make(chan int)
	for k := 0; k < 16; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for range q {
				l := m.do()
				mu.Lock()
				open = append(open, l...)
				mu.Unlock()
			}
		}()
	}
	for k := 0; k < n; k++ {
		q <- k
	}
	close(q)
	wg.Wait()
	t.Steps(n)
	t.State(i)
	ok := goodClient(t, a.p, fmt.Sprintf("%d clients %s at the same time", n, m.name))
	for _, c := range open {
		c.Close()
	}
	if !ok || !goodClient(t, a.p, fmt.Sprintf("%d clients %s at the same time, and leave", n, m.name)) {
		a.end()
	}
}

// serial: many sessions of one connection, one after the other and, in part, at the same time
func serial(i int, t *e2.T) {
	a := ready(t)
	if a == nil {
		return
	}
	n, keep := 400, 1+i*60
	if t.Tier == "thorough" {
		n = 3000
	}
	c, err := dial(defaultUser, ssh.Password(defPw))
	if err != nil {
		t.Failf("no login: %v", err)
		a.end()
		return
	}
	defer c.Close()
	var open []*wire.Client
	for k := 0; k < n; k++ {
		w, err := session(c)
		if err == nil {
			_, err = w.List("/d")
		}
		if err == nil && len(open) > 0 {
			_, err = open[0].ReadAll("/d/g")
		}
		t.Step()
		if err != nil {
			t.Failf("session %d of one connection, %d still open: %v (%s)", k+1, len(open), err, a.p.text())
			a.end()
			return
		}
		if open = append(open, w); len(open) > keep {
			open[0].C.Close()
			open = open[1:]
		}
	}
	t.State(i)
}

func groups22() []e2.Group {
	names, _ := packetMenu()
	nm := len(misdeeds())
	return debugging([]string{"one misbehaving client", "malformed packets"}, []e2.Group{
		{Name: "one misbehaving client", Bounds: "about 80 misbehaviours at every stage of a connection, with a good client before, during and after", N: num(nm), Run: once},
		{Name: "two misbehaving clients", Bounds: "all pairs of the first 38 misbehaviours (thorough: all) at the same time, then a good client", N: thor(38, nm), Run: pairs},
		{Name: "vanishing clients", Bounds: "16 ways to vanish with up to 400 answers outstanding, 8 (thorough 40) times each", N: num(len(vanishings())), Run: vanished},
		{Name: "sessions of one connection", Bounds: "all sequences of 3 (thorough 4) of 7 uses of a connection, then one more session", N: num(len(channelUses)), Run: sessions},
		{Name: "many sessions of one connection", Bounds: "400 (thorough 3000) sessions of one connection, each served, with 1, 61 and 121 of them open", N: num(3), Run: serial},
		{Name: "few files", Bounds: "every misbehaviour up to 60 times over by a proxy that may open 48 files", N: num(nm + len(vanishings())), Run: scarce},
		{Name: "many misbehaving clients", Bounds: "every misbehaviour that leaves something open, by 150 (thorough 600) clients at the same time", N: num(nm), Run: many},
		{Name: "malformed packets", Bounds: "23 request packets cut at every length and with 5 wrong values at every offset, all 256 packet types with 4 bodies; before and after the version exchange and with handles open", N: num(len(names) + 1), Run: malformed},
	})
}
