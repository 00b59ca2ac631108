// Package remote is a remote SFTP server for the checks: real SSH over loopback TCP, its own SFTP
// packet handling, every packet observable and replaceable by a fault.
package remote

import (
	"crypto/ed25519"
	"crypto/sha256"
	"fmt"
	"net"
	"os"
	"sync"
	"time"

	"golang.org/x/crypto/ssh"

	"verif/ref"
	"verif/wire"
)

// Fault is what happens at an event instead of the normal answer.
type Fault int

// Faults.
const (
	None        Fault = iota
	Fail              // error status (requests), refusal (connection set-up)
	Denied            // permission denied
	Missing           // no such file
	DropBefore        // the TCP connection dies instead of the answer
	DropAfter         // the TCP connection dies right after the answer
	CloseBefore       // the SFTP channel closes instead of the answer, the SSH connection stays
	CloseAfter        // the SFTP channel closes right after the answer
	HalfBefore        // end of file on the SFTP channel instead of the answer
	WrongID           // an answer to a request nobody made
	NFault
)

func (f Fault) String() string {
	return [...]string{"no fault", "failure status", "permission denied", "no such file", "connection drops before the answer", "connection drops after the answer", "channel closes before the answer", "channel closes after the answer", "channel ends before the answer", "answer with a wrong id"}[f]
}

// Event is something arriving at the server.
type Event struct {
	Conn  *Conn
	Kind  string // accept, auth, channel, subsystem, global, packet
	Type  byte   // packet type
	Label string // path the packet is about
	N     int    // index over all connections
}

func (e *Event) String() string {
	s := e.Kind
	if e.Kind == "packet" {
		s = wire.TypeName(e.Type) + " " + e.Label
	}
	return fmt.Sprintf("event %d (%s, connection %d)", e.N, s, e.Conn.ID)
}

// Conn is a connection at the server.
type Conn struct {
	ID     int
	srv    *Server
	tcp    net.Conn
	Closed chan struct{} // closed when the connection is gone
	Killed bool          // by a fault
	Dead   bool          // SFTP session over (fault), whether or not the TCP connection is
	Authed bool
	tries  int // authentication attempts of any kind

	cur   string
	open  int
	ended map[string]bool
}

// Server is a remote.
type Server struct {
	FS      *ref.FS
	Addr    string
	HostKey ssh.Signer
	Hook    func(*Event) Fault        // may block; called in order per connection
	Arrive  func(*Event)              // called when a packet arrives, before it is handled
	Watch   func(t byte, body []byte) // sees every packet
	// User and Key restrict who may log in (nil: everybody)
	User string
	Key  ssh.PublicKey

	lis net.Listener
	mu  sync.Mutex
	// guarded by mu
	conns   []*Conn
	n       int
	bad     []string
	changes []string // requests that are not mere reads
	log     []string
	closed  bool
	page    int // entries per READDIR reply (0: 10)
}

// SetPage sets the number of entries per READDIR reply.
func (s *Server) SetPage(n int) {
	s.mu.Lock()
	s.page = n
	s.mu.Unlock()
}

// Signer derives a host key.
func Signer(seed string) ssh.Signer {
	h := sha256.Sum256([]byte(seed))
	s, err := ssh.NewSignerFromKey(ed25519.NewKeyFromSeed(h[:]))
	if err != nil {
		panic(err)
	}
	return s
}

var seq int

// Start listens on loopback.
func (s *Server) Start() error {
	// a fresh loopback address each time, so that connections of earlier runs do not use up the ports
	seq++
	l, err := net.Listen("tcp", fmt.Sprintf("127.%d.%d.%d:0", 1+(os.Getpid()+seq/62500)%250, seq/250%250, 1+seq%250))
	if err != nil {
		l, err = net.Listen("tcp", "127.0.0.1:0")
	}
	if err != nil {
		return err
	}
	s.Addr = l.Addr().String()
	s.accept(l)
	return nil
}

// Down cuts all connections and accepts no more; Up undoes that.
func (s *Server) Down() {
	s.lis.Close()
	s.DropAll()
}

// Up listens again.
func (s *Server) Up() error {
	var l net.Listener
	var err error
	if !Wait(5*time.Second, func() bool { l, err = net.Listen("tcp", s.Addr); return err == nil }) {
		return err
	}
	s.accept(l)
	return nil
}

func (s *Server) accept(l net.Listener) {
	s.lis = l
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			s.mu.Lock()
			k := &Conn{ID: len(s.conns), srv: s, tcp: c, Closed: make(chan struct{}), ended: map[string]bool{}}
			s.conns = append(s.conns, k)
			dead := s.closed
			s.mu.Unlock()
			if dead {
				c.Close()
				continue
			}
			go k.serve()
		}
	}()
}

// Stop closes everything.
func (s *Server) Stop() {
	s.lis.Close()
	s.mu.Lock()
	s.closed = true
	l := s.conns
	s.mu.Unlock()
	for _, c := range l {
		_ = c.tcp.(*net.TCPConn).SetLinger(0)
		c.tcp.Close()
	}
}

// Conns lists all connections ever made.
func (s *Server) Conns() []*Conn {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]*Conn{}, s.conns...)
}

// Open lists the connections that are still open, after giving closing ones time to finish: it
// waits until those not in keep are gone, or the deadline.
func (s *Server) Open() (l []*Conn) {
	for _, c := range s.Conns() {
		select {
		case <-c.Closed:
		default:
			l = append(l, c)
		}
	}
	return
}

// Bad returns misuses seen (several calls on one connection).
func (s *Server) Bad() []string {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]string{}, s.bad...)
}

// Log returns the packets seen.
func (s *Server) Log() []string {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]string{}, s.log...)
}

// Events is the number of events so far.
func (s *Server) Events() int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.n
}

func (c *Conn) kill() {
	c.srv.mu.Lock()
	c.Killed, c.Dead = true, true
	c.srv.mu.Unlock()
	c.tcp.Close()
}

func (c *Conn) mourn() {
	c.srv.mu.Lock()
	c.Dead = true
	c.srv.mu.Unlock()
}

// IsDead tells whether a fault ended its SFTP session.
func (c *Conn) IsDead() bool {
	c.srv.mu.Lock()
	defer c.srv.mu.Unlock()
	return c.Dead
}

// In tells whether the client was let in.
func (c *Conn) In() bool {
	c.srv.mu.Lock()
	defer c.srv.mu.Unlock()
	return c.Authed
}

// Attempts counts the authentication requests that arrived.
func (c *Conn) Attempts() int {
	c.srv.mu.Lock()
	defer c.srv.mu.Unlock()
	return c.tries
}

// Drop cuts the connection and waits until it is gone.
func (c *Conn) Drop() {
	c.kill()
	<-c.Closed
}

// DropAll cuts all connections and waits until they are gone.
func (s *Server) DropAll() {
	for _, c := range s.Conns() {
		c.kill()
		<-c.Closed
	}
}

func (c *Conn) event(kind string, typ byte, label string) Fault {
	s := c.srv
	s.mu.Lock()
	e := &Event{c, kind, typ, label, s.n}
	s.n++
	h := s.Hook
	s.mu.Unlock()
	if h == nil {
		return None
	}
	return h(e)
}

func (c *Conn) serve() {
	defer func() {
		c.tcp.Close()
		close(c.Closed)
	}()
	switch f := c.event("accept", 0, ""); f {
	case None:
	default:
		c.kill()
		return
	}
	cfg := &ssh.ServerConfig{}
	auth := func(m ssh.ConnMetadata, k ssh.PublicKey) (*ssh.Permissions, error) {
		f := c.event("auth", 0, "")
		if f >= DropBefore {
			c.kill()
		}
		if f != None {
			return nil, fmt.Errorf("no")
		}
		if c.srv.Key != nil && (k == nil || string(k.Marshal()) != string(c.srv.Key.Marshal()) || m.User() != c.srv.User) {
			return nil, fmt.Errorf("not you")
		}
		return nil, nil
	}
	cfg.PublicKeyCallback = auth
	if c.srv.Key == nil {
		cfg.PasswordCallback = func(m ssh.ConnMetadata, _ []byte) (*ssh.Permissions, error) { return auth(m, nil) }
	}
	cfg.AuthLogCallback = func(ssh.ConnMetadata, string, error) {
		c.srv.mu.Lock()
		c.tries++
		c.srv.mu.Unlock()
	}
	c.srv.mu.Lock()
	cfg.AddHostKey(c.srv.HostKey)
	c.srv.mu.Unlock()
	sc, chans, reqs, err := ssh.NewServerConn(c.tcp, cfg)
	if err != nil {
		return
	}
	c.srv.mu.Lock()
	c.Authed = true
	c.srv.mu.Unlock()
	go func() {
		for r := range reqs {
			f := c.event("global", 0, r.Type)
			if f == DropBefore {
				c.kill()
				continue
			}
			if r.WantReply {
				_ = r.Reply(false, nil)
			}
			if f >= DropAfter {
				c.kill()
			}
		}
	}()
	go func() {
		for nc := range chans {
			f := c.event("channel", 0, nc.ChannelType())
			if f == DropBefore {
				c.kill()
				continue
			}
			if f != None && f != DropAfter || nc.ChannelType() != "session" {
				_ = nc.Reject(ssh.ConnectionFailed, "no")
				continue
			}
			ch, rs, err := nc.Accept()
			if err != nil {
				continue
			}
			if f == DropAfter {
				c.kill()
				continue
			}
			go c.session(ch, rs)
		}
	}()
	_ = sc.Wait()
}

func (c *Conn) session(ch ssh.Channel, rs <-chan *ssh.Request) {
	for r := range rs {
		if r.Type != "subsystem" {
			if r.WantReply {
				_ = r.Reply(false, nil)
			}
			continue
		}
		switch f := c.event("subsystem", 0, ""); f {
		case None, DropAfter, CloseAfter:
			_ = r.Reply(true, nil)
			if f == DropAfter {
				c.kill()
				return
			}
			if f == CloseAfter {
				c.mourn()
				ch.Close()
				return
			}
		case DropBefore:
			c.kill()
			return
		case CloseBefore, HalfBefore:
			c.mourn()
			ch.Close()
			return
		default:
			_ = r.Reply(false, nil)
			continue
		}
		go func() {
			for r := range rs {
				if r.WantReply {
					_ = r.Reply(false, nil)
				}
			}
		}()
		c.sftp(ch)
		return
	}
}

type pkt struct {
	t     byte
	id    uint32
	body  []byte
	label string
	h     *handle
}

type handle struct {
	n   *ref.Node
	pos int
	lbl string
}

func (c *Conn) sftp(ch ssh.Channel) {
	defer ch.Close() // like an SFTP server that ends with its input
	q := make(chan *pkt, 1024)
	handles := map[string]*handle{}
	var hmu sync.Mutex
	go func() {
		defer close(q)
		for {
			t, body, err := wire.ReadFrame(ch)
			if err != nil {
				return
			}
			p := &pkt{t: t}
			if c.srv.Watch != nil {
				c.srv.Watch(t, body)
			}
			if t != wire.Init {
				d := &wire.Dec{B: body}
				p.id = d.U32()
				p.body = d.B
				arg := d.Str()
				switch t {
				case wire.Open:
					p.label = arg
					if f := d.U32(); f != wire.FRead {
						c.srv.changing(fmt.Sprintf("OPEN %s with flags %#x", arg, f))
					}
				case wire.Opendir, wire.Stat, wire.Lstat, wire.Readlnk:
					p.label = arg
				case wire.Realpath, wire.Extended:
				case wire.Read, wire.Readdir, wire.Fstat, wire.Close:
					hmu.Lock()
					p.h = handles[arg]
					hmu.Unlock()
					if p.h != nil {
						p.label = p.h.lbl
					}
				default:
					p.label = arg
					c.srv.changing(wire.TypeName(t) + " " + arg)
				}
				if t == wire.Extended {
					c.srv.changing(wire.TypeName(t) + " " + arg)
				}
				c.arrived(p)
			}
			q <- p
		}
	}()
	next := 0
	for p := range q {
		f := c.event("packet", p.t, p.label)
		switch f {
		case DropBefore:
			c.kill()
			return
		case CloseBefore:
			c.mourn()
			ch.Close()
			return
		case HalfBefore:
			c.mourn()
			_ = ch.CloseWrite()
			for range q {
			}
			return
		}
		var t byte
		var body []byte
		st := func(code uint32) { t, body = wire.Status, wire.Cat(wire.U32(code), wire.Str("text"), wire.Str("en")) }
		switch {
		case p.t == wire.Init:
			if f == Fail || f == Denied || f == Missing || f == WrongID {
				c.mourn()
				ch.Close()
				return
			}
			_, _ = ch.Write(wire.Frame(wire.Version, wire.U32(3)))
			if f == DropAfter {
				c.kill()
				return
			}
			if f == CloseAfter {
				c.mourn()
				ch.Close()
				return
			}
			continue
		case f == Fail:
			st(wire.Failure)
		case f == Denied:
			st(wire.Denied)
		case f == Missing:
			st(wire.NoSuchFile)
		default:
			switch p.t {
			case wire.Open, wire.Opendir, wire.Stat, wire.Lstat:
				n, err := c.srv.FS.Find(p.label)
				switch {
				case err != nil:
					st(wire.NoSuchFile)
				case p.t == wire.Stat || p.t == wire.Lstat:
					t, body = wire.Attrs, wire.EncAttr(n)
				case n.IsDir() != (p.t == wire.Opendir):
					st(wire.Failure)
				default:
					next++
					h := fmt.Sprint("h", next)
					hmu.Lock()
					handles[h] = &handle{n, 0, p.label}
					hmu.Unlock()
					t, body = wire.Handle, wire.Str(h)
				}
			case wire.Realpath:
				t, body = wire.Name, wire.Cat(wire.U32(1), wire.Str("/"), wire.Str("/"), wire.U32(0))
			case wire.Fstat, wire.Close, wire.Read, wire.Readdir:
				d := &wire.Dec{B: p.body}
				hs := d.Str()
				switch {
				case p.h == nil:
					st(wire.Failure)
				case p.t == wire.Fstat:
					t, body = wire.Attrs, wire.EncAttr(p.h.n)
				case p.t == wire.Close:
					hmu.Lock()
					delete(handles, hs)
					hmu.Unlock()
					st(wire.OK)
				case p.t == wire.Read:
					off, l := d.U64(), d.U32()
					if l > 32768 {
						l = 32768
					}
					if p.h.n.IsDir() {
						st(wire.Failure)
					} else if off >= uint64(len(p.h.n.Data)) {
						st(wire.EOF)
					} else {
						b := p.h.n.Data[off:]
						if uint64(len(b)) > uint64(l) {
							b = b[:l]
						}
						t, body = wire.Data, wire.Str(string(b))
					}
				default:
					k := p.h.n.Kids
					if p.h.pos >= len(k) {
						st(wire.EOF)
						break
					}
					k = k[p.h.pos:]
					c.srv.mu.Lock()
					page := c.srv.page
					c.srv.mu.Unlock()
					if page == 0 {
						page = 10
					}
					if len(k) > page {
						k = k[:page]
					}
					p.h.pos += len(k)
					t, body = wire.Name, wire.U32(uint32(len(k)))
					for _, e := range k {
						body = wire.Cat(body, wire.Str(e.N), wire.Str("x "+e.N), wire.EncAttr(e))
					}
				}
			default:
				st(wire.Unsupported)
			}
		}
		id := p.id
		if f == WrongID {
			id += 1000000
			c.mourn()
		}
		c.answered(p)
		_, _ = ch.Write(wire.Frame(t, wire.Cat(wire.U32(id), body)))
		if f == DropAfter {
			c.kill()
			return
		}
		if f == CloseAfter {
			c.mourn()
			ch.Close()
			return
		}
	}
}

func (s *Server) changing(what string) {
	s.mu.Lock()
	s.changes = append(s.changes, what)
	s.mu.Unlock()
}

// Changes returns the requests so far that are not mere reads.
func (s *Server) Changes() []string {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]string{}, s.changes...)
}

// arrived checks that calls do not mix on a connection.
func (c *Conn) arrived(p *pkt) {
	s := c.srv
	s.mu.Lock()
	s.log = append(s.log, wire.TypeName(p.t)+" "+p.label)
	if p.label != "" {
		if p.label != c.cur {
			if c.open > 0 {
				s.bad = append(s.bad, fmt.Sprintf("connection %d: %s %s while %s is waiting for an answer", c.ID, wire.TypeName(p.t), p.label, c.cur))
			}
			if c.ended[p.label] {
				s.bad = append(s.bad, fmt.Sprintf("connection %d: %s %s after %s has begun on it", c.ID, wire.TypeName(p.t), p.label, c.cur))
			}
			if c.cur != "" {
				c.ended[c.cur] = true
			}
			c.cur = p.label
		}
		c.open++
	}
	a := s.Arrive
	s.mu.Unlock()
	if a != nil {
		a(&Event{c, "packet", p.t, p.label, -1})
	}
}

func (c *Conn) answered(p *pkt) {
	if p.label != "" {
		c.srv.mu.Lock()
		c.open--
		c.srv.mu.Unlock()
	}
}

// Wait waits until cond holds or the time is over.
func Wait(d time.Duration, cond func() bool) bool {
	end := time.Now().Add(d)
	for i := 0; !cond(); i++ {
		if time.Now().After(end) {
			return false
		}
		if i < 100 {
			time.Sleep(50 * time.Microsecond)
		} else {
			time.Sleep(2 * time.Millisecond)
		}
	}
	return true
}
