package ref

import (
	"fmt"
	"os"
	"path"
	"sort"
	"strings"
	"sync"
	"time"
)

// Info is the os.FileInfo of a stored object.
type Info struct {
	N string
	S int64
	M os.FileMode
	T time.Time
}

// Name etc. implement os.FileInfo.
func (i Info) Name() string       { return i.N }
func (i Info) Size() int64        { return i.S }
func (i Info) Mode() os.FileMode  { return i.M }
func (i Info) ModTime() time.Time { return i.T }
func (i Info) IsDir() bool        { return i.M.IsDir() }
func (i Info) Sys() interface{}   { return nil }

// Node is an object of the (encrypted) remote tree.
type Node struct {
	Info
	Data  []byte
	Kids  []*Node
	Plain string // plaintext name, "" for bookkeeping and junk
	PData []byte // plaintext
	IV    []byte
}

// Kid finds a child by stored name.
func (n *Node) Kid(name string) *Node {
	for _, k := range n.Kids {
		if k.N == name {
			return k
		}
	}
	return nil
}

// KidPlain finds a child by plaintext name.
func (n *Node) KidPlain(name string) *Node {
	for _, k := range n.Kids {
		if k.Plain == name && name != "" {
			return k
		}
	}
	return nil
}

// Partial is a failure that comes with part of the data.
type Partial struct{ Err error }

func (p Partial) Error() string { return p.Err.Error() }

// FS is an in-memory remote. Every access goes through Hook (if set), which may replace the answer
// by an error.
type FS struct {
	Root string
	Top  *Node

	mu   sync.Mutex
	Log  []string
	Keep bool // record accesses in Log
	Hook func(op, p string) error
	// Slack: files are returned in slices with no spare capacity (1), with spare capacity full of
	// junk (2), or alternately (0). What lies beyond a slice must not matter.
	Slack int
	reads int
}

func (f *FS) give(d []byte) []byte {
	f.mu.Lock()
	f.reads++
	junk := f.Slack == 2 || f.Slack == 0 && f.reads%2 == 0
	f.mu.Unlock()
	if !junk {
		b := make([]byte, len(d))
		copy(b, d)
		return b[:len(d):len(d)]
	}
	b := make([]byte, len(d)+40)
	for i := copy(b, d); i < len(b); i++ {
		b[i] = byte(0xa5 + i)
	}
	return b[:len(d)]
}

var t0 = time.Date(2019, 9, 15, 12, 0, 0, 0, time.UTC)

func (f *FS) note(op, p string) error {
	f.mu.Lock()
	if f.Keep {
		f.Log = append(f.Log, op+" "+p)
	}
	h := f.Hook
	f.mu.Unlock()
	if h != nil {
		return h(op, p)
	}
	return nil
}

// Find resolves a stored path.
func (f *FS) Find(p string) (*Node, error) {
	p = path.Clean(p)
	if p != f.Root && !strings.HasPrefix(p, strings.TrimSuffix(f.Root, "/")+"/") {
		return nil, fmt.Errorf("remote: %s: outside the volume", p)
	}
	n := f.Top
	for _, c := range strings.Split(strings.TrimPrefix(p, f.Root), "/") {
		if c == "" {
			continue
		}
		if n = n.Kid(c); n == nil {
			return nil, os.ErrNotExist
		}
	}
	return n, nil
}

// ReadFile implements FSAccessor.
func (f *FS) ReadFile(p string) ([]byte, error) {
	ferr := f.note("ReadFile", p)
	if _, part := ferr.(Partial); ferr != nil && !part {
		return nil, ferr
	}
	n, err := f.Find(p)
	if err != nil {
		return nil, err
	}
	if n.IsDir() {
		return nil, fmt.Errorf("remote: is a directory")
	}
	if ferr != nil {
		return f.give(n.Data[:len(n.Data)/2]), ferr
	}
	return f.give(n.Data), nil
}

// ReadDir implements FSAccessor.
func (f *FS) ReadDir(p string) ([]os.FileInfo, error) {
	ferr := f.note("ReadDir", p)
	if _, part := ferr.(Partial); ferr != nil && !part {
		return nil, ferr
	}
	n, err := f.Find(p)
	if err != nil {
		return nil, err
	}
	if !n.IsDir() {
		return nil, fmt.Errorf("remote: not a directory")
	}
	l := make([]os.FileInfo, 0, len(n.Kids))
	for _, k := range n.Kids {
		l = append(l, k.Info)
	}
	if ferr != nil {
		return l[:len(l)/2], ferr
	}
	return l, nil
}

// Stat implements FSAccessor.
func (f *FS) Stat(p string) (os.FileInfo, error) {
	if err := f.note("Stat", p); err != nil {
		return nil, err
	}
	n, err := f.Find(p)
	if err != nil {
		return nil, err
	}
	i := n.Info
	i.N = path.Base(p)
	return i, nil
}

// TakeLog returns and clears the access log.
func (f *FS) TakeLog() []string {
	f.mu.Lock()
	defer f.mu.Unlock()
	l := f.Log
	f.Log = nil
	return l
}

// Spec describes a plaintext volume: path -> content; paths ending in "/" are directories.
type Spec map[string][]byte

// Volume is a built volume.
type Volume struct {
	*Keys
	FS    *FS
	Pass  string
	nodes int
}

// Build encrypts a plaintext tree. Every directory gets its own IV, a gocryptfs.diriv and, in the
// root, gocryptfs.conf.
func Build(k *Keys, root, pass string, spec Spec) *Volume {
	v := &Volume{Keys: k, Pass: pass, FS: &FS{Root: root}}
	v.FS.Top = v.dirNode(path.Base(root))
	v.addRaw(v.FS.Top, "gocryptfs.conf", k.Conf(pass))
	var ps []string
	for p := range spec {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	for _, p := range ps {
		if strings.HasSuffix(p, "/") {
			v.Mkdir(p)
		} else {
			d := v.Mkdir(path.Dir(p))
			v.AddFile(d, path.Base(p), spec[p])
		}
	}
	return v
}

func (v *Volume) dirNode(name string) *Node {
	v.nodes++
	iv := make([]byte, 16)
	for i := range iv {
		iv[i] = byte(v.nodes*31+i*3) | 1
	}
	d := &Node{Info: Info{name, 4096, os.ModeDir | 0755, t0.Add(time.Duration(v.nodes) * time.Minute)}, IV: iv}
	v.addRaw(d, "gocryptfs.diriv", iv)
	return d
}

func (v *Volume) addRaw(d *Node, name string, data []byte) *Node {
	n := &Node{Info: Info{name, int64(len(data)), 0400, t0}, Data: data}
	d.Kids = append(d.Kids, n)
	return n
}

// AddRaw adds a stored object as is.
func (v *Volume) AddRaw(d *Node, name string, data []byte) *Node { return v.addRaw(d, name, data) }

// Mkdir makes the plaintext directory p and its parents.
func (v *Volume) Mkdir(p string) *Node {
	d := v.FS.Top
	for _, c := range strings.Split(path.Clean(p), "/") {
		if c == "" || c == "." {
			continue
		}
		d = v.Sub(d, c)
	}
	return d
}

// Sub finds or makes the plaintext subdirectory c of d.
func (v *Volume) Sub(d *Node, c string) *Node {
	for _, k := range d.Kids {
		if k.Plain == c {
			return k
		}
	}
	n := v.dirNode(v.Name(c, d.IV))
	n.Plain = c
	d.Kids = append(d.Kids, n)
	return n
}

// AddFile adds a plaintext file.
func (v *Volume) AddFile(d *Node, name string, plain []byte) *Node {
	v.nodes++
	data := v.File(plain, ID(v.nodes), nil)
	n := &Node{Info: Info{v.Name(name, d.IV), int64(len(data)), os.FileMode(0600 + v.nodes%8*8), t0.Add(time.Duration(v.nodes) * time.Minute)},
		Data: data, Plain: name, PData: plain}
	d.Kids = append(d.Kids, n)
	return n
}

// Resolve finds the object at a clean absolute plaintext path.
func (v *Volume) Resolve(p string) *Node {
	n := v.FS.Top
	for _, c := range strings.Split(p, "/") {
		if c == "" {
			continue
		}
		var m *Node
		if n.IsDir() {
			for _, k := range n.Kids {
				if k.Plain == c {
					m = k
				}
			}
		}
		if n = m; n == nil {
			return nil
		}
	}
	return n
}

// Clone copies the volume's tree (not the file contents).
func (v *Volume) Clone() *Volume {
	var cp func(n *Node) *Node
	cp = func(n *Node) *Node {
		m := *n
		m.Kids = nil
		for _, k := range n.Kids {
			m.Kids = append(m.Kids, cp(k))
		}
		return &m
	}
	return &Volume{Keys: v.Keys, Pass: v.Pass, nodes: v.nodes, FS: &FS{Root: v.FS.Root, Top: cp(v.FS.Top)}}
}
