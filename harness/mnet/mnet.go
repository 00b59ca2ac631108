// Package mnet is the state behind the models of the SSH and SFTP libraries (../mssh, ../msftp): a
// remote with connections that die at chosen packets, and the record of who used which connection.
package mnet

import (
	"errors"
	"io"
	"os"
	"time"

	"verif/vsched"
)

// Conn is one connection with its SFTP session.
type Conn struct {
	N      int
	obj    vsched.Obj
	Closed bool      // by the client
	Dead   bool      // the connection is lost
	Sess   bool      // an SFTP session was opened
	Ended  bool      // the session has ended (by the remote or the client)
	lost   [160]bool // calls that found the connection or session gone
	Held   bool      // used by an audit call
	owner  int       // call that used it last
	busy   int       // calls in the middle of an exchange
	past   [160]bool
}

// World is the remote.
type World struct {
	Conns   []*Conn
	dials   vsched.Obj
	Faults  int // alternatives of failing at a packet: 1 connection lost, 2 session ended, 3 error reply
	Refuse  bool
	Bad     string
	Healthy bool // no more faults
	// outside the scheduler: fault Kind at packet At, LossErr tells how losses show
	Packets, At, Kind int
	LossErr           bool
	excuse            [160]bool
	errs              [160]bool
	reused            [160]bool
	who               [256]assoc
	nwho              int
	Audit             bool
	arrived           int
	need              int
	gate              vsched.Obj
	Open              [160]bool // gates of calls held at their end
	Hold              bool
}

type assoc struct {
	t *vsched.Task
	c int
}

// W is the remote of the current execution.
var W *World

// New resets the remote.
//
//go:norace
func New() *World {
	W = &World{}
	return W
}

// Enter declares that the running task performs call c (c >= 1).
//
//go:norace
func (w *World) Enter(c int) {
	t := vsched.Cur()
	for i := 0; i < w.nwho; i++ {
		if w.who[i].t == t {
			w.who[i].c = c
			return
		}
	}
	w.who[w.nwho] = assoc{t, c}
	w.nwho++
}

//go:norace
func (w *World) call(c *Conn) int {
	if !vsched.Active() {
		return 1
	}
	t := vsched.Cur()
	for i := 0; i < w.nwho; i++ {
		if w.who[i].t == t {
			return w.who[i].c
		}
	}
	return c.owner // a task of the code under test works for the call that has the connection
}

//go:norace
func (w *World) bad(s string) {
	if w.Bad == "" {
		w.Bad = s
	}
}

// Dial opens a connection.
//
//go:norace
func (w *World) Dial() (*Conn, error) {
	vsched.Point("dial")
	w.dials.W(1)
	if w.Faults > 0 && !w.Audit && !w.Healthy && vsched.Choose(2, "the remote cannot be reached") == 1 {
		w.excuse[w.call(&Conn{})] = true
		return nil, errors.New("dial: connection refused")
	}
	c := &Conn{N: len(w.Conns) + 1}
	w.Conns = append(w.Conns, c)
	vsched.Point("connected")
	return c, nil
}

// ErrReply is an error reply to a packet.
var ErrReply = errors.New("error reply")

// Packet is one exchange of a packet and its answer; io.EOF if the connection or session is gone.
//
//go:norace
func (c *Conn) Packet(what string, mayFail bool) error { return c.exchange(what, mayFail, false) }

// Global is a global request: answered while the connection is up, whatever the session does.
//
//go:norace
func (c *Conn) Global() error { return c.exchange("global request", false, true) }

//go:norace
func (c *Conn) gone(global bool) bool { return c.Closed || c.Dead || c.Ended && !global }

//go:norace
func (c *Conn) exchange(what string, mayFail, global bool) error {
	w := W
	vsched.Point(what)
	c.obj.W(2)
	k := w.call(c)
	if c.owner != k {
		if c.busy > 0 {
			w.bad("two calls use one connection at the same time")
		}
		if c.past[k] {
			w.bad("a call goes on using a connection that another call has used meanwhile")
		}
		for j := range c.lost {
			if c.lost[j] && j != k {
				w.reused[j] = true
			}
		}
		c.owner = k
		c.past[k] = true
	}
	if w.Audit {
		c.Held = true
	}
	if c.gone(global) {
		c.lost[k] = true
		w.excuse[k] = true
		return w.lossError()
	}
	n := w.Faults
	if !mayFail && n > 2 {
		n = 2
	}
	f := 0
	if !vsched.Active() {
		w.Packets++
		if w.Packets == w.At {
			f = w.Kind
		}
	} else if n > 0 && !w.Audit && !w.Healthy {
		f = vsched.Choose(1+n, "fault at "+what)
	}
	switch f {
	case 1:
		c.Dead = true
	case 2:
		c.Ended = true
	}
	c.busy++
	vsched.Point(what + " answered")
	c.obj.W(3)
	c.busy--
	if c.gone(global) {
		c.lost[k] = true
		w.excuse[k] = true
		return w.lossError()
	}
	if f == 3 {
		w.excuse[k] = true
		return ErrReply
	}
	return nil
}

// lossError is what the library reports for a lost connection: the end of the stream or, if it was
// sending, what the connection reports.
//
//go:norace
func (w *World) lossError() error {
	if vsched.Active() && !w.Audit {
		if vsched.ChooseFree(2, "how the loss shows") == 1 {
			return errLost
		}
	} else if w.LossErr {
		return errLost
	}
	return io.EOF
}

var errLost = errors.New("connection lost")

// Leave declares that call k has returned.
//
//go:norace
func (w *World) Leave(k int, err error) {
	w.errs[k] = err != nil
	if err != nil && !w.excuse[k] {
		w.bad("a call fails although nothing went wrong: " + err.Error())
	}
}

// Excuse allows call k to fail.
//
//go:norace
func (w *World) Excuse(k int) { w.excuse[k] = true }

// Verdict is the first thing that went wrong.
//
//go:norace
func (w *World) Verdict() string {
	for k := range w.errs {
		if w.errs[k] && w.reused[k] {
			w.bad("a connection on which a call failed because it is dead is used again")
		}
	}
	return w.Bad
}

// Kill loses an idle or busy connection from the remote's side.
//
//go:norace
func (w *World) Kill(i int, session bool) {
	vsched.Point("the remote drops a connection")
	if i < len(w.Conns) {
		c := w.Conns[i]
		c.obj.W(4)
		if session {
			c.Ended = true
		} else {
			c.Dead = true
		}
	}
}

// CloseSSH closes the connection.
//
//go:norace
func (c *Conn) CloseSSH() error {
	vsched.Point("close the connection")
	c.obj.W(5)
	k := W.call(c)
	if c.owner != k && c.owner != 0 && c.past[k] && c.busy > 0 {
		W.bad("a call closes a connection that another call is using")
	}
	if c.Closed || c.Dead {
		c.Closed = true
		return io.EOF
	}
	c.Closed = true
	return nil
}

// CloseSFTP closes the session.
//
//go:norace
func (c *Conn) CloseSFTP() error {
	vsched.Point("close the session")
	c.obj.W(6)
	if c.Closed || c.Dead || c.Ended {
		c.Ended = true
		return io.EOF
	}
	c.Ended = true
	return nil
}

type gateW struct {
	w *World
	k int
}

//go:norace
func (g gateW) Ready(*vsched.Task) bool {
	if g.w.Audit {
		return g.w.arrived >= g.w.need
	}
	return g.w.Open[g.k]
}

// Expect makes the next n audit calls wait for one another.
//
//go:norace
func (w *World) Expect(n int) { w.arrived, w.need = 0, n }

// Arrive counts an audit call that has ended or is waiting.
//
//go:norace
func (w *World) Arrive() { w.gate.W(7); w.arrived++ }

// Wait holds the call until it is released.
//
//go:norace
func (c *Conn) Wait() {
	w := W
	if w.Audit {
		w.Arrive()
	} else if !w.Hold {
		return
	}
	vsched.Block(gateW{w, w.call(c)}, "held by the remote")
	w.gate.R(8)
}

// Release lets a held call go.
//
//go:norace
func (w *World) Release(k int) { w.gate.W(9); w.Open[k] = true }

// ---- the remote's files --------------------------------------------------------------------------

// Info describes a file.
type Info struct {
	Nm string
	Sz int64
	Md os.FileMode
}

func (i Info) Name() string       { return i.Nm }
func (i Info) Size() int64        { return i.Sz }
func (i Info) Mode() os.FileMode  { return i.Md }
func (i Info) ModTime() time.Time { return time.Unix(1500000000, 0) }
func (i Info) IsDir() bool        { return i.Md.IsDir() }
func (i Info) Sys() interface{}   { return nil }

// File returns the chunks of a file, nil if there is none.
func File(p string) []string {
	switch p[:2] {
	case "/f":
		return []string{"content of " + p}
	case "/b":
		return []string{"first of " + p, " second of " + p}
	case "/e":
		return []string{}
	}
	return nil
}

// Dir returns the batches of a listing, nil if there is none.
func Dir(p string) [][]os.FileInfo {
	if p[:2] != "/d" {
		return nil
	}
	return [][]os.FileInfo{{Info{"x" + p[2:], 1, 0644}}, {Info{"y" + p[2:], 2, 0644}, Info{"z" + p[2:], 0, os.ModeDir | 0755}}}
}

// Stat describes a path, nil if there is nothing.
func Stat(p string) os.FileInfo {
	if f := File(p); f != nil {
		n := 0
		for _, s := range f {
			n += len(s)
		}
		return Info{p[1:], int64(n), 0600}
	}
	if Dir(p) != nil {
		return Info{p[1:], 4096, os.ModeDir | 0700}
	}
	return nil
}
