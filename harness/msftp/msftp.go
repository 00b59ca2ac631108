// Package sftp is a model of github.com/pkg/sftp (v1.10.0) as far as a connection pool uses it:
// every method is the sequence of packets the library sends, with its treatment of lost
// connections. ebackend's group "library model" compares it with the library itself.
package sftp

import (
	"bytes"
	"io"
	"os"

	"verif/mnet"
	ssh "verif/mssh"
)

// StatusError is an error reply.
type StatusError struct{ Code uint32 }

func (s *StatusError) Error() string { return "sftp: failure" }

// ErrSshFxFailure is the generic error reply.
const (
	ErrSSHFxFailure          = fxerr(4)
	ErrSSHFxNoConnection     = fxerr(6)
	ErrSSHFxConnectionLost   = fxerr(7)
	ErrSSHFxNoSuchFile       = fxerr(2)
	ErrSSHFxPermissionDenied = fxerr(3)
	ErrSshFxConnectionLost   = ErrSSHFxConnectionLost
	ErrSshFxFailure          = ErrSSHFxFailure
)

type fxerr uint32

func (e fxerr) Error() string { return "sftp error" }

// ClientOption is not used.
type ClientOption func(*Client) error

// Client is an SFTP session.
type Client struct{ c *mnet.Conn }

func conv(err error) error {
	if err == mnet.ErrReply {
		return &StatusError{4}
	}
	return err
}

// NewClient opens the session.
func NewClient(conn *ssh.Client, opts ...ClientOption) (*Client, error) {
	if err := conn.C.Packet("open session", true); err != nil {
		return nil, err
	}
	conn.C.Sess = true
	return &Client{conn.C}, nil
}

// Close ends the session.
func (c *Client) Close() error { return c.c.CloseSFTP() }

// Getwd asks for the working directory.
func (c *Client) Getwd() (string, error) {
	if err := c.c.Packet("realpath", true); err != nil {
		return "", conv(err)
	}
	return "/", nil
}

// RealPath is the same packet.
func (c *Client) RealPath(p string) (string, error) {
	if _, err := c.Getwd(); err != nil {
		return "", err
	}
	return p, nil
}

func (c *Client) stat(what, p string) (os.FileInfo, error) {
	c.c.Wait()
	if err := c.c.Packet(what, true); err != nil {
		return nil, conv(err)
	}
	i := mnet.Stat(p)
	if i == nil {
		return nil, os.ErrNotExist
	}
	return i, nil
}

// Stat describes a path.
func (c *Client) Stat(p string) (os.FileInfo, error) { return c.stat("stat", p) }

// Lstat describes a path.
func (c *Client) Lstat(p string) (os.FileInfo, error) { return c.stat("lstat", p) }

// ReadDir lists a directory; a connection lost after it was opened looks like its end.
func (c *Client) ReadDir(p string) ([]os.FileInfo, error) {
	if err := c.c.Packet("opendir", true); err != nil {
		return nil, conv(err)
	}
	d := mnet.Dir(p)
	if d == nil {
		return nil, os.ErrNotExist
	}
	defer func() { _ = c.c.Packet("close directory", false) }()
	var l []os.FileInfo
	for _, b := range d {
		if err := c.c.Packet("readdir", true); err == io.EOF {
			return l, nil
		} else if err != nil {
			return l, conv(err)
		}
		l = append(l, b...)
	}
	if err := c.c.Packet("readdir at the end", true); err != nil && err != io.EOF {
		return l, conv(err)
	}
	return l, nil
}

// File is an open file.
type File struct {
	c    *mnet.Conn
	p    string
	rest []string
}

// Open opens a file.
func (c *Client) Open(p string) (*File, error) {
	if err := c.c.Packet("open", true); err != nil {
		return nil, conv(err)
	}
	f := mnet.File(p)
	if f == nil {
		return nil, os.ErrNotExist
	}
	return &File{c.c, p, f}, nil
}

// OpenFile opens a file.
func (c *Client) OpenFile(p string, _ int) (*File, error) { return c.Open(p) }

// Name returns the path.
func (f *File) Name() string { return f.p }

// Stat describes the file.
func (f *File) Stat() (os.FileInfo, error) {
	if err := f.c.Packet("fstat", true); err != nil {
		return nil, conv(err)
	}
	return mnet.Stat(f.p), nil
}

// WriteTo copies the file; a connection lost meanwhile looks like its end.
func (f *File) WriteTo(w io.Writer) (int64, error) {
	if _, err := f.Stat(); err != nil {
		return 0, err
	}
	var n int64
	for {
		if err := f.c.Packet("read", true); err == io.EOF {
			return n, nil
		} else if err != nil {
			return n, conv(err)
		}
		if len(f.rest) == 0 {
			return n, nil
		}
		k, err := w.Write([]byte(f.rest[0]))
		f.rest = f.rest[1:]
		n += int64(k)
		if err != nil {
			return n, err
		}
	}
}

// Read reads the next piece.
func (f *File) Read(b []byte) (int, error) {
	if err := f.c.Packet("read", true); err != nil {
		return 0, conv(err)
	}
	if len(f.rest) == 0 {
		return 0, io.EOF
	}
	n := copy(b, f.rest[0])
	if f.rest[0] = f.rest[0][n:]; f.rest[0] == "" {
		f.rest = append([]string{}, f.rest[1:]...)
	}
	return n, nil
}

// Close closes the file.
func (f *File) Close() error { return conv(f.c.Packet("close file", true)) }

var _ = bytes.NewReader
