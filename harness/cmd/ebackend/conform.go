package main

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"sort"
	"strings"
	"sync"

	"github.com/pkg/sftp"
	"golang.org/x/crypto/ssh"

	"verif/e2"
	"verif/mnet"
	msftp "verif/msftp"
	mssh "verif/mssh"
	"verif/remote"
)

// lib is the part of the SFTP library that is modelled.
type lib interface {
	Open(string) (libFile, error)
	ReadDir(string) ([]os.FileInfo, error)
	Stat(string) (os.FileInfo, error)
	Getwd() (string, error)
}

type libFile interface {
	WriteTo(io.Writer) (int64, error)
	Close() error
}

type realLib struct{ *sftp.Client }

func (r realLib) Open(p string) (libFile, error) { return r.Client.Open(p) }

type modelLib struct{ *msftpClient }

type msftpClient = msftp.Client

func (r modelLib) Open(p string) (libFile, error) { return r.msftpClient.Open(p) }

func amount(n, all int) string {
	switch {
	case n == 0 && all > 0:
		return "nothing"
	case n < all:
		return "part"
	}
	return "all"
}

func kindOf(err error) string {
	switch err := err.(type) {
	case nil:
		return "ok"
	case *sftp.StatusError, *msftp.StatusError:
		return "refused"
	default:
		if os.IsNotExist(err) {
			return "missing"
		}
		return "lost"
	}
}

// use runs one use of the library followed by a probe and describes what happened.
func use(k int, l lib, file, dir, none string, flen, dlen int) string {
	var s []string
	switch k {
	case 0:
		f, err := l.Open(file)
		s = append(s, "open "+kindOf(err))
		if err == nil {
			var b bytes.Buffer
			_, err := f.WriteTo(&b)
			s = append(s, "write-to "+kindOf(err)+" "+amount(b.Len(), flen))
			s = append(s, "close "+kindOf(f.Close()))
		}
	case 1:
		x, err := l.ReadDir(dir)
		s = append(s, "readdir "+kindOf(err)+" "+amount(len(x), dlen))
	case 2:
		_, err := l.Stat(file)
		s = append(s, "stat "+kindOf(err))
	case 3:
		_, err := l.Stat(none)
		s = append(s, "stat "+kindOf(err))
		_, err = l.Open(none)
		s = append(s, "open "+kindOf(err))
		_, err = l.ReadDir(none)
		s = append(s, "readdir "+kindOf(err))
	}
	_, err := l.Getwd()
	return strings.Join(append(s, "getwd "+kindOf(err)), ", ")
}

// conform checks that whatever the real library does under faults, the model does under the same
// class of faults.
func conform(k int, t *e2.T) {
	model := map[int]map[string]bool{}
	for kind := 0; kind <= 3; kind++ {
		model[kind] = map[string]bool{}
		for at := 1; at < 40; at++ {
			for _, loss := range []bool{false, true} {
				w := mnet.New()
				w.Faults, w.Kind, w.At, w.LossErr = 3, kind, at, loss
				c, _ := mssh.Dial("tcp", "", nil)
				cl, err := msftp.NewClient(c)
				out := "no session"
				if err == nil {
					out = use(k, modelLib{cl}, "/b1", "/d1", "/m1", len(strings.Join(mnet.File("/b1"), "")), 3)
				}
				model[kind][out] = true
			}
		}
		model[kind][firstOf(model[0])] = true
	}
	class := map[remote.Fault]int{remote.Fail: 3, remote.Denied: 3, remote.DropBefore: 1, remote.DropAfter: 1, remote.CloseBefore: 2, remote.CloseAfter: 2, remote.HalfBefore: 2}
	nd, _ := tree.Find("/r/d0")
	nf, _ := tree.Find("/r/b0")
	var faults []remote.Fault
	for f := range class {
		faults = append(faults, f)
	}
	sort.Slice(faults, func(i, j int) bool { return faults[i] < faults[j] })
	seen := map[string]bool{}
	for _, f := range append([]remote.Fault{remote.None}, faults...) {
		for at := 0; at < 60; at++ {
			var mu sync.Mutex
			fired := false
			n := 0
			s := &remote.Server{FS: tree, HostKey: hostKey, User: "u", Key: userKey.PublicKey(), Hook: func(e *remote.Event) remote.Fault {
				mu.Lock()
				defer mu.Unlock()
				if e.Kind == "packet" || e.Kind == "subsystem" {
					n++
					if n-1 == at && f != remote.None {
						fired = true
						return f
					}
				}
				return remote.None
			}}
			if err := s.Start(); err != nil {
				panic(err)
			}
			out := "no session"
			c, err := ssh.Dial("tcp", s.Addr, &ssh.ClientConfig{User: "u", Auth: []ssh.AuthMethod{ssh.PublicKeys(userKey)}, HostKeyCallback: ssh.InsecureIgnoreHostKey()})
			if err != nil {
				t.Note("library model: no connection", 1)
				s.Stop()
				continue
			}
			cl, err := sftp.NewClient(c)
			if err == nil {
				out = use(k, realLib{cl}, "/r/b0", "/r/d0", "/r/none", len(nf.Data), len(nd.Kids))
				cl.Close()
			}
			c.Close()
			s.Stop()
			t.Step()
			t.State(k, f, at, out)
			if !model[class[f]][out] {
				t.Note("library model: behaviours of the library that the model lacks", 1)
				t.Note(fmt.Sprintf("library model lacks: %v: %s", f, out), 1)
			}
			seen[out] = true
			mu.Lock()
			stop := !fired
			mu.Unlock()
			if stop {
				break
			}
		}
	}
	t.Note("library model: distinct behaviours of the library", int64(len(seen)))
	t.Note("library model: distinct behaviours of the model", int64(len(model[0])+len(model[1])+len(model[2])+len(model[3])))
	t.Sample("%d behaviours of the library", len(seen))
}

func firstOf(m map[string]bool) string {
	for k := range m {
		return k
	}
	return ""
}
