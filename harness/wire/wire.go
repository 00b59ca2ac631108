// Package wire speaks raw SFTP version 3 packets.
package wire

import (
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"os"
	"strings"
	"time"
)

// Packet types.
const (
	Init, Version                                 = 1, 2
	Open, Close, Read, Write, Lstat, Fstat        = 3, 4, 5, 6, 7, 8
	Setstat, Fsetstat, Opendir, Readdir, Remove   = 9, 10, 11, 12, 13
	Mkdir, Rmdir, Realpath, Stat, Rename, Readlnk = 14, 15, 16, 17, 18, 19
	Symlink                                       = 20
	Status, Handle, Data, Name, Attrs             = 101, 102, 103, 104, 105
	Extended                                      = 200
)

// TypeName names a request.
func TypeName(t byte) string {
	n := map[byte]string{1: "INIT", 3: "OPEN", 4: "CLOSE", 5: "READ", 6: "WRITE", 7: "LSTAT", 8: "FSTAT", 9: "SETSTAT", 10: "FSETSTAT", 11: "OPENDIR", 12: "READDIR", 13: "REMOVE", 14: "MKDIR", 15: "RMDIR", 16: "REALPATH", 17: "STAT", 18: "RENAME", 19: "READLINK", 20: "SYMLINK", 101: "STATUS", 102: "HANDLE", 103: "DATA", 104: "NAME", 105: "ATTRS", 200: "EXTENDED"}[t]
	if n == "" {
		return fmt.Sprint("type ", t)
	}
	return n
}

// Open flags.
const (
	FRead, FWrite, FAppend, FCreat, FTrunc, FExcl = 1, 2, 4, 8, 16, 32
)

// Status codes.
const (
	OK, EOF, NoSuchFile, Denied, Failure, BadMessage, NoConn, ConnLost, Unsupported = 0, 1, 2, 3, 4, 5, 6, 7, 8
)

// U32 etc. encode.
func U32(v uint32) []byte { b := make([]byte, 4); binary.BigEndian.PutUint32(b, v); return b }

// U64 encodes.
func U64(v uint64) []byte { b := make([]byte, 8); binary.BigEndian.PutUint64(b, v); return b }

// Str encodes a string.
func Str(s string) []byte { return append(U32(uint32(len(s))), s...) }

// Cat joins.
func Cat(l ...[]byte) (r []byte) {
	for _, b := range l {
		r = append(r, b...)
	}
	return
}

// Frame prepends the length.
func Frame(t byte, body []byte) []byte { return Cat(U32(uint32(len(body)+1)), []byte{t}, body) }

// ReadFrame reads a packet.
func ReadFrame(r io.Reader) (t byte, body []byte, err error) {
	var h [4]byte
	if _, err = io.ReadFull(r, h[:]); err != nil {
		return
	}
	n := binary.BigEndian.Uint32(h[:])
	if n == 0 || n > 1<<20 {
		return 0, nil, errors.New("bad packet length")
	}
	b := make([]byte, n)
	if _, err = io.ReadFull(r, b); err != nil {
		return
	}
	return b[0], b[1:], nil
}

// Dec decodes a body.
type Dec struct {
	B   []byte
	Bad bool
}

// U32 decodes.
func (d *Dec) U32() uint32 {
	if len(d.B) < 4 {
		d.Bad, d.B = true, nil
		return 0
	}
	v := binary.BigEndian.Uint32(d.B)
	d.B = d.B[4:]
	return v
}

// U64 decodes.
func (d *Dec) U64() uint64 { h := uint64(d.U32()); return h<<32 | uint64(d.U32()) }

// Str decodes.
func (d *Dec) Str() string {
	n := d.U32()
	if uint32(len(d.B)) < n {
		d.Bad, d.B = true, nil
		return ""
	}
	s := string(d.B[:n])
	d.B = d.B[n:]
	return s
}

// Attr are file attributes on the wire.
type Attr struct {
	Flags, Perm, Atime, Mtime, UID, GID uint32
	Size                                uint64
}

// Attr decodes.
func (d *Dec) Attr() (a Attr) {
	a.Flags = d.U32()
	if a.Flags&1 != 0 {
		a.Size = d.U64()
	}
	if a.Flags&2 != 0 {
		a.UID, a.GID = d.U32(), d.U32()
	}
	if a.Flags&4 != 0 {
		a.Perm = d.U32()
	}
	if a.Flags&8 != 0 {
		a.Atime, a.Mtime = d.U32(), d.U32()
	}
	if a.Flags&(1<<31) != 0 {
		for n := d.U32(); n > 0 && !d.Bad; n-- {
			d.Str()
			d.Str()
		}
	}
	return
}

// EncAttr encodes the attributes of a file.
func EncAttr(i os.FileInfo) []byte {
	return Cat(U32(1|4|8), U64(uint64(i.Size())), U32(Mode(i.Mode())), U32(uint32(i.ModTime().Unix())), U32(uint32(i.ModTime().Unix())))
}

// Mode converts to the POSIX mode.
func Mode(m os.FileMode) uint32 {
	r := uint32(m.Perm())
	switch {
	case m&os.ModeDir != 0:
		r |= 0040000
	case m&os.ModeSymlink != 0:
		r |= 0120000
	case m&os.ModeNamedPipe != 0:
		r |= 0010000
	case m&os.ModeSocket != 0:
		r |= 0140000
	case m&os.ModeCharDevice != 0:
		r |= 0020000
	case m&os.ModeDevice != 0:
		r |= 0060000
	default:
		r |= 0100000
	}
	if m&os.ModeSetuid != 0 {
		r |= 04000
	}
	if m&os.ModeSetgid != 0 {
		r |= 02000
	}
	if m&os.ModeSticky != 0 {
		r |= 01000
	}
	return r
}

// Entry is one name of a NAME reply.
type Entry struct {
	Name, Long string
	A          Attr
}

// Reply is a decoded reply.
type Reply struct {
	Type   byte
	ID     uint32
	Code   uint32
	Msg    string
	Handle string
	Data   []byte
	Names  []Entry
	A      Attr
	Bad    bool
	Err    error // no reply: the connection ended
}

func (r Reply) String() string {
	if r.Err != nil {
		return "no reply: " + r.Err.Error()
	}
	switch r.Type {
	case Status:
		return fmt.Sprintf("STATUS %d %q", r.Code, r.Msg)
	case Handle:
		return fmt.Sprintf("HANDLE %q", r.Handle)
	case Data:
		return fmt.Sprintf("DATA of %d bytes", len(r.Data))
	case Name:
		return fmt.Sprintf("NAME with %d entries", len(r.Names))
	case Attrs:
		return fmt.Sprintf("ATTRS %+v", r.A)
	}
	return fmt.Sprintf("reply type %d", r.Type)
}

// Success tells whether the reply reports success.
func (r Reply) Success() bool { return r.Err == nil && (r.Type != Status || r.Code == OK) }

// Failed tells whether the reply is an error status.
func (r Reply) Failed() bool { return r.Err == nil && r.Type == Status && r.Code != OK }

// IsEOF tells whether the reply is end of file.
func (r Reply) IsEOF() bool { return r.Failed() && r.Code == EOF }

// Decode decodes a reply.
func Decode(t byte, body []byte) (r Reply) {
	d := &Dec{B: body}
	r.Type = t
	if t == Version {
		r.Code = d.U32()
		return
	}
	r.ID = d.U32()
	switch t {
	case Status:
		r.Code = d.U32()
		r.Msg = d.Str()
		d.Str()
	case Handle:
		r.Handle = d.Str()
	case Data:
		r.Data = []byte(d.Str())
	case Name:
		for n := d.U32(); n > 0 && !d.Bad; n-- {
			var e Entry
			e.Name, e.Long = d.Str(), d.Str()
			e.A = d.Attr()
			r.Names = append(r.Names, e)
		}
	case Attrs:
		r.A = d.Attr()
	default:
		r.Bad = true
	}
	r.Bad = r.Bad || d.Bad || len(d.B) > 0
	return
}

// Client sends requests and matches replies.
type Client struct {
	C    io.ReadWriteCloser
	next uint32
	in   chan Reply
	wait map[uint32]Reply
	Wait time.Duration
}

// NewClient starts reading replies.
func NewClient(c io.ReadWriteCloser) *Client {
	cl := &Client{C: c, in: make(chan Reply, 4096), wait: map[uint32]Reply{}, Wait: 60 * time.Second}
	go func() {
		for {
			t, b, err := ReadFrame(c)
			if err != nil {
				cl.in <- Reply{Err: err}
				close(cl.in)
				return
			}
			cl.in <- Decode(t, b)
		}
	}()
	return cl
}

// Hello exchanges versions.
func (c *Client) Hello() error {
	if err := c.Raw(Frame(Init, U32(3))); err != nil {
		return err
	}
	r := c.any()
	if r.Err != nil {
		return r.Err
	}
	if r.Type != Version {
		return fmt.Errorf("%v instead of a version", r)
	}
	return nil
}

func (c *Client) any() Reply {
	select {
	case r, ok := <-c.in:
		if !ok {
			return Reply{Err: io.EOF}
		}
		return r
	case <-time.After(c.Wait):
		return Reply{Err: errors.New("timeout")}
	}
}

// Raw sends bytes.
func (c *Client) Raw(b []byte) error { _, err := c.C.Write(b); return err }

// Send sends a request and returns its number.
func (c *Client) Send(t byte, rest ...[]byte) uint32 {
	c.next++
	if err := c.Raw(Frame(t, append(U32(c.next), Cat(rest...)...))); err != nil {
		c.wait[c.next] = Reply{Err: err}
	}
	return c.next
}

// Get waits for the reply to a request.
func (c *Client) Get(id uint32) Reply {
	if r, ok := c.wait[id]; ok {
		delete(c.wait, id)
		return r
	}
	for {
		r := c.any()
		if r.Err != nil || r.ID == id {
			return r
		}
		c.wait[r.ID] = r
	}
}

// Do sends a request and waits for the reply.
func (c *Client) Do(t byte, rest ...[]byte) Reply { return c.Get(c.Send(t, rest...)) }

// ReadAll reads a whole file through the protocol.
func (c *Client) ReadAll(p string) ([]byte, error) {
	r := c.Do(Open, Str(p), U32(FRead), U32(0))
	if r.Type != Handle || r.Err != nil {
		return nil, fmt.Errorf("open %s: %v", p, r)
	}
	h := r.Handle
	var out []byte
	for {
		r = c.Do(Read, Str(h), U64(uint64(len(out))), U32(32768))
		if r.IsEOF() {
			break
		}
		if r.Type != Data || r.Err != nil || len(r.Data) == 0 {
			return nil, fmt.Errorf("read %s at %d: %v", p, len(out), r)
		}
		out = append(out, r.Data...)
	}
	if r = c.Do(Close, Str(h)); !r.Success() {
		return nil, fmt.Errorf("close %s: %v", p, r)
	}
	return out, nil
}

// List lists a directory.
func (c *Client) List(p string) ([]Entry, error) {
	r := c.Do(Opendir, Str(p))
	if r.Type != Handle || r.Err != nil {
		return nil, fmt.Errorf("opendir %s: %v", p, r)
	}
	h := r.Handle
	var out []Entry
	for i := 0; ; i++ {
		r = c.Do(Readdir, Str(h))
		if r.IsEOF() {
			break
		}
		if r.Type != Name || r.Err != nil || i > 100000 {
			return nil, fmt.Errorf("readdir %s: %v", p, r)
		}
		out = append(out, r.Names...)
	}
	if r = c.Do(Close, Str(h)); !r.Success() {
		return nil, fmt.Errorf("close %s: %v", p, r)
	}
	return out, nil
}

// Quote shows a path.
func Quote(p string) string {
	if len(p) > 60 {
		return fmt.Sprintf("%q... (%d bytes)", p[:60], len(p))
	}
	return fmt.Sprintf("%q", strings.ToValidUTF8(p, "?"))
}
