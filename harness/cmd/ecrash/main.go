// Command ecrash decides C15: it records the file operations of real config writes (strace), builds
// every state a crash can leave behind and loads the config from each with the real loader.
package main

import (
	"bufio"
	"bytes"
	"fmt"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"

	"github.com/flawedmatrix/gocryptsftp/gocrypt/configfile"
	"github.com/flawedmatrix/gocryptsftp/gocrypt/tlog"

	"verif/e2"
)

// ---- the traced helper -------------------------------------------------------------------------

const oldPw, newPw = "old password", "new"

// helper create|passwd FILE VARIANT
func helper(a []string) {
	runtime.LockOSThread()
	tlog.Warn.Enabled = false
	v, _ := strconv.Atoi(a[2])
	var err error
	switch a[0] {
	case "create":
		err = create(a[1], newPw, v)
	case "passwd":
		var key []byte
		var cf *configfile.ConfFile
		key, cf, err = configfile.LoadAndDecrypt(a[1], []byte(oldPw))
		if err == nil {
			cf.EncryptKey(key, []byte(newPw), 10)
			if v&8 != 0 { // the new config is longer, shorter
				cf.TrezorPayload = bytes.Repeat([]byte{7}, 30000)
			} else if v&16 != 0 {
				cf.TrezorPayload = nil
				cf.Creator = ""
			}
			err = cf.WriteFile()
		}
	}
	if err != nil {
		fmt.Println("FAILED", err)
	} else {
		fmt.Println("DONE")
	}
}

// variant bits: 1 plaintext names, 2 AES-SIV, 4 large (several pages)
func create(f, pw string, v int) error {
	var pay []byte
	if v&4 != 0 {
		pay = bytes.Repeat([]byte{9}, 20000)
	}
	return configfile.Create(f, []byte(pw), v&1 != 0, 10, "verif", v&2 != 0, false, pay)
}

// ---- recording ---------------------------------------------------------------------------------

type op struct {
	kind string // creat write trunc sync rename unlink link fail
	file string // path, or
	ino  int    // inode
	to   string
	data []byte
	off  int64
	size int64
	sync bool // write-through
	call string
	nth  int // the nth call of this name in its thread
}

func (o op) String() string {
	return fmt.Sprintf("%s(%s)", o.call, filepath.Base(o.file))
}

type run struct {
	ops   []op
	done  bool
	fail  string
	kill  bool
	inj   string // path of the call that was replaced
	after map[string][]byte
}

func unhex(s string) string {
	if !strings.Contains(s, `\x`) {
		return s
	}
	var b []byte
	for i := 0; i+3 < len(s)+0 && i < len(s); {
		if s[i] == '\\' && i+3 < len(s) && s[i+1] == 'x' {
			n, err := strconv.ParseUint(s[i+2:i+4], 16, 8)
			if err == nil {
				b = append(b, byte(n))
				i += 4
				continue
			}
		}
		b = append(b, s[i])
		i++
	}
	return string(b)
}

// args splits a strace argument list.
func args(s string) (l []string) {
	depth, q, start := 0, false, 0
	for i := 0; i < len(s); i++ {
		switch c := s[i]; {
		case c == '"':
			q = !q
		case q:
		case c == '{' || c == '[' || c == '<':
			depth++
		case c == '}' || c == ']' || c == '>':
			depth--
		case c == ',' && depth == 0:
			l = append(l, strings.TrimSpace(s[start:i]))
			start = i + 1
		}
	}
	return append(l, strings.TrimSpace(s[start:]))
}

func str(a string) string {
	i := strings.IndexByte(a, '"')
	j := strings.LastIndexByte(a, '"')
	if i < 0 || j <= i {
		return ""
	}
	return unhexFull(a[i+1 : j])
}

func unhexFull(s string) string {
	var b []byte
	for i := 0; i < len(s); {
		if i+4 <= len(s) && s[i] == '\\' && s[i+1] == 'x' {
			if n, err := strconv.ParseUint(s[i+2:i+4], 16, 8); err == nil {
				b = append(b, byte(n))
				i += 4
				continue
			}
		}
		b = append(b, s[i])
		i++
	}
	return string(b)
}

func fdOf(a string) int {
	if i := strings.IndexByte(a, '<'); i >= 0 {
		a = a[:i]
	}
	n, err := strconv.Atoi(a)
	if err != nil {
		return -1
	}
	return n
}

func abs(dirfd, p string) string {
	if filepath.IsAbs(p) || p == "" {
		return filepath.Clean(p)
	}
	if i := strings.IndexByte(dirfd, '<'); i >= 0 {
		return filepath.Join(unhexFull(strings.TrimSuffix(dirfd[i+1:], ">")), p)
	}
	return p
}

// execute runs the helper under strace; inject is an strace expression or "".
func execute(t *e2.T, dir, what string, v int, inject string) *run {
	lf, err := ioutil.TempFile("", "strace")
	if err != nil {
		panic(err)
	}
	lf.Close()
	defer os.Remove(lf.Name())
	conf := filepath.Join(dir, "gocryptfs.conf")
	a := []string{"-f", "-y", "-xx", "-s", "10000000", "-o", lf.Name(), "-e", "trace=open,openat,openat2,creat,write,pwrite64,writev,pwritev,pwritev2,ftruncate,truncate,fallocate,fsync,fdatasync,sync,syncfs,close,rename,renameat,renameat2,unlink,unlinkat,link,linkat,symlink,symlinkat,dup,dup2,dup3,copy_file_range,sendfile,mmap,msync,sync_file_range,lseek"}
	if inject != "" {
		a = append(a, "-e", inject)
	}
	self, _ := os.Executable()
	a = append(a, self, "-helper", what, conf, fmt.Sprint(v))
	c := exec.Command("strace", a...)
	c.Dir = dir
	c.Env = append(os.Environ(), "GOMAXPROCS=1", "GODEBUG=asyncpreemptoff=1")
	out, _ := c.Output()
	t.Step()
	r := &run{after: snapshot(dir)}
	r.done = bytes.Contains(out, []byte("DONE"))
	if i := bytes.Index(out, []byte("FAILED")); i >= 0 {
		r.fail = strings.TrimSpace(string(out[i+6:]))
	}
	r.kill = !r.done && r.fail == ""
	b, err := ioutil.ReadFile(lf.Name())
	if err != nil {
		panic(err)
	}
	r.parse(b, dir)
	return r
}

func snapshot(dir string) map[string][]byte {
	m := map[string][]byte{}
	_ = filepath.Walk(dir, func(p string, i os.FileInfo, err error) error {
		if err == nil && i.Mode().IsRegular() {
			m[p], _ = ioutil.ReadFile(p)
		}
		return nil
	})
	return m
}

type fdesc struct {
	ino  int
	path string
	pos  int64
	app  bool
	sync bool
}

func (r *run) parse(b []byte, dir string) {
	in := func(p string) bool { return p == dir || strings.HasPrefix(p, dir+"/") }
	fds := map[int]*fdesc{}
	inos := map[string]int{} // path -> inode
	next := 0
	inode := func(p string) int {
		if n, ok := inos[p]; ok {
			return n
		}
		next++
		inos[p] = next
		return next
	}
	size := map[int]int64{}
	count := map[string]int{}
	pend := map[string]string{}
	sc := bufio.NewScanner(bytes.NewReader(b))
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	for sc.Scan() {
		l := sc.Text()
		f := strings.SplitN(l, " ", 2)
		if len(f) != 2 {
			continue
		}
		tid, rest := f[0], strings.TrimSpace(f[1])
		if i := strings.Index(rest, " <unfinished ...>"); i >= 0 {
			pend[tid] = rest[:i]
			continue
		}
		if strings.HasPrefix(rest, "<... ") {
			i := strings.Index(rest, " resumed>")
			if i < 0 {
				continue
			}
			rest = pend[tid] + rest[i+9:]
		}
		i := strings.IndexByte(rest, '(')
		j := strings.LastIndex(rest, ") = ")
		if i <= 0 {
			continue
		}
		name := rest[:i]
		count[tid+name]++
		o := op{call: name, nth: count[tid+name]}
		if j < 0 { // killed inside
			continue
		}
		var a []string
		if len(rest[i+1:j]) < 1<<25 {
			a = args(strings.TrimRight(rest[i+1:j], " "))
		}
		rv := strings.Fields(rest[j+4:])
		ret, _ := strconv.ParseInt(strings.SplitN(rv[0], "<", 2)[0], 0, 64)
		injected := strings.Contains(rest[j:], "INJECTED")
		note := func(p string) bool {
			if injected && in(p) {
				r.inj = p
			}
			return in(p) && ret >= 0 && !injected
		}
		var fd *fdesc
		if len(a) > 0 {
			fd = fds[fdOf(a[0])]
		}
		fdpath := ""
		if fd != nil {
			fdpath = fd.path
		}
		switch name {
		case "open", "openat", "openat2", "creat":
			p, flags := "", ""
			if name == "openat" || name == "openat2" {
				p, flags = abs(a[0], str(a[1])), a[2]
			} else {
				p = abs("", str(a[0]))
				if len(a) > 1 {
					flags = a[1]
				}
				if name == "creat" {
					flags = "O_WRONLY|O_CREAT|O_TRUNC"
				}
			}
			if !note(p) {
				continue
			}
			d := &fdesc{path: p, app: strings.Contains(flags, "O_APPEND"), sync: strings.Contains(flags, "O_SYNC") || strings.Contains(flags, "O_DSYNC")}
			if strings.Contains(flags, "O_DIRECTORY") {
				d.ino = -1
			} else {
				_, known := inos[p]
				d.ino = inode(p)
				o.file, o.ino = p, d.ino
				if strings.Contains(flags, "O_CREAT") && !known {
					o.kind = "creat" // no effect on a file that is there
					r.ops = append(r.ops, o)
				}
				if strings.Contains(flags, "O_TRUNC") {
					o.kind, o.size, o.sync = "trunc", 0, d.sync
					size[d.ino] = 0
					r.ops = append(r.ops, o)
				}
			}
			fds[int(ret)] = d
		case "write", "pwrite64", "writev", "pwritev", "pwritev2", "copy_file_range", "sendfile":
			if name == "copy_file_range" && len(a) > 2 {
				fd = fds[fdOf(a[2])]
			}
			if fd == nil || !note(fdpath) {
				continue
			}
			o.kind, o.file, o.ino, o.sync = "write", fd.path, fd.ino, fd.sync
			switch name {
			case "write", "pwrite64":
				o.data = []byte(str(a[1]))
				if int64(len(o.data)) > ret {
					o.data = o.data[:ret]
				}
			case "writev", "pwritev", "pwritev2":
				for _, x := range strings.Split(a[1], "iov_base=")[1:] {
					o.data = append(o.data, str(strings.SplitN(x, ", iov_len", 2)[0])...)
				}
			default:
				o.data = make([]byte, ret) // content unknown: taken from the final file below
				o.call += "?"
			}
			switch {
			case name == "pwrite64" || name == "pwritev" || name == "pwritev2":
				o.off, _ = strconv.ParseInt(a[3], 0, 64)
			case fd.app:
				o.off = size[fd.ino]
				fd.pos = o.off + int64(len(o.data))
			default:
				o.off = fd.pos
				fd.pos += int64(len(o.data))
			}
			if e := o.off + int64(len(o.data)); e > size[fd.ino] {
				size[fd.ino] = e
			}
			r.ops = append(r.ops, o)
		case "lseek":
			if fd != nil && ret >= 0 {
				fd.pos = ret
			}
		case "ftruncate":
			if fd == nil || !note(fdpath) {
				continue
			}
			o.kind, o.file, o.ino = "trunc", fd.path, fd.ino
			o.size, _ = strconv.ParseInt(a[1], 0, 64)
			size[fd.ino] = o.size
			r.ops = append(r.ops, o)
		case "truncate":
			p := abs("", str(a[0]))
			if !note(p) {
				continue
			}
			o.kind, o.file, o.ino = "trunc", p, inode(p)
			o.size, _ = strconv.ParseInt(a[1], 0, 64)
			size[o.ino] = o.size
			r.ops = append(r.ops, o)
		case "fsync", "fdatasync", "sync_file_range":
			if fd == nil || !note(fdpath) {
				continue
			}
			if name == "sync_file_range" {
				continue // guarantees nothing
			}
			o.kind, o.file, o.ino = "sync", fd.path, fd.ino
			r.ops = append(r.ops, o)
		case "sync", "syncfs":
			o.kind, o.ino = "sync", 0
			r.ops = append(r.ops, o)
		case "close":
			if fd != nil {
				if note(fdpath) {
					o.kind, o.file, o.ino = "close", fd.path, fd.ino
					r.ops = append(r.ops, o)
				}
				if !injected {
					delete(fds, fdOf(a[0]))
				}
			}
		case "dup", "dup2", "dup3":
			if fd != nil && ret >= 0 {
				fds[int(ret)] = fd
			}
		case "rename", "renameat", "renameat2", "link", "linkat":
			var p, q string
			if name == "rename" || name == "link" {
				p, q = abs("", str(a[0])), abs("", str(a[1]))
			} else {
				p, q = abs(a[0], str(a[1])), abs(a[2], str(a[3]))
			}
			if !note(q) && !note(p) {
				continue
			}
			o.kind, o.file, o.to = "rename", p, q
			if strings.HasPrefix(name, "link") {
				o.kind = "link"
			}
			n := inode(p)
			inos[q] = n
			if o.kind == "rename" {
				delete(inos, p)
				for _, d := range fds {
					if d.ino == n {
						d.path = q
					}
				}
			}
			r.ops = append(r.ops, o)
		case "unlink", "unlinkat":
			p := ""
			if name == "unlink" {
				p = abs("", str(a[0]))
			} else {
				p = abs(a[0], str(a[1]))
			}
			if !note(p) {
				continue
			}
			o.kind, o.file = "unlink", p
			delete(inos, p)
			r.ops = append(r.ops, o)
		case "mmap":
			if len(a) > 4 {
				if d := fds[fdOf(a[4])]; d != nil && in(d.path) && strings.Contains(a[2], "PROT_WRITE") && strings.Contains(a[3], "MAP_SHARED") {
					r.ops = append(r.ops, op{kind: "unknown", call: "mmap", file: d.path})
				}
			}
		}
	}
}

// ---- the crash model ---------------------------------------------------------------------------

type file struct {
	safe []byte // content that survives any crash
	pend []op   // writes and truncations not yet synced
}

// apply gives the content after the pending operations, each in one of four ways.
func (f *file) apply(how []int) []byte {
	b := append([]byte{}, f.safe...)
	for i, o := range f.pend {
		h := how[i]
		if h == 0 {
			continue
		}
		if o.kind == "trunc" {
			if int64(len(b)) > o.size {
				b = b[:o.size]
			}
			for int64(len(b)) < o.size {
				b = append(b, 0)
			}
			continue
		}
		d := o.data
		switch h {
		case 2: // torn
			d = d[:len(d)/2]
		case 3: // size updated, data not
			d = make([]byte, len(d))
		}
		for int64(len(b)) < o.off+int64(len(d)) {
			b = append(b, 0)
		}
		copy(b[o.off:], d)
	}
	return b
}

// crashStates calls f with every content the config path can have after a crash that happens when
// the first k operations have been issued: directory operations persist in order up to any point,
// unsynced data in any combination. nil content means there is no such file.
func crashStates(init map[string][]byte, ops []op, k int, conf string, f func(content []byte, how string) bool) int {
	n := 0
	// directory operations that a sync of the directory has made durable
	var dirOps []int
	durable := 0
	for i := 0; i < k; i++ {
		switch ops[i].kind {
		case "creat", "rename", "unlink", "link":
			dirOps = append(dirOps, i)
		case "sync":
			if ops[i].ino <= 0 {
				durable = len(dirOps)
			}
		}
	}
	for nd := durable; nd <= len(dirOps); nd++ {
		// names after the first nd directory operations
		last := -1
		if nd > 0 {
			last = dirOps[nd-1]
		}
		names := map[string]int{}
		files := map[int]*file{}
		live := map[string]int{} // names as the process saw them, to bind operations to inodes
		id := 1000
		for p, c := range init {
			id++
			names[p], live[p] = id, id
			files[id] = &file{safe: c}
		}
		bind := map[int]int{} // traced inode -> model inode
		get := func(o op) *file {
			m, ok := bind[o.ino]
			if !ok {
				if m, ok = live[o.file]; !ok {
					id++
					m = id
					files[m] = &file{}
				}
				bind[o.ino] = m
			}
			return files[m]
		}
		for i := 0; i < k; i++ {
			o := ops[i]
			keep := i <= last
			switch o.kind {
			case "creat":
				if _, ok := live[o.file]; ok {
					get(o)
					continue
				}
				id++
				live[o.file] = id
				bind[o.ino] = id
				files[id] = &file{}
				if keep {
					names[o.file] = id
				}
			case "write", "trunc":
				fl := get(o)
				fl.pend = append(fl.pend, o)
				if o.sync {
					fl.safe, fl.pend = fl.apply(ones(len(fl.pend))), nil
				}
			case "sync":
				if o.ino <= 0 {
					for _, fl := range files {
						fl.safe, fl.pend = fl.apply(ones(len(fl.pend))), nil
					}
				} else {
					fl := get(o)
					fl.safe, fl.pend = fl.apply(ones(len(fl.pend))), nil
				}
			case "rename", "link":
				m, ok := live[o.file]
				if !ok {
					continue
				}
				live[o.to] = m
				if o.kind == "rename" {
					delete(live, o.file)
				}
				if keep {
					names[o.to] = m
					if o.kind == "rename" {
						delete(names, o.file)
					}
				}
			case "unlink":
				delete(live, o.file)
				if keep {
					delete(names, o.file)
				}
			}
		}
		m, ok := names[conf]
		if !ok {
			n++
			if !f(nil, fmt.Sprintf("%d of %d directory changes persisted", nd, len(dirOps))) {
				return n
			}
			continue
		}
		fl := files[m]
		how := make([]int, len(fl.pend))
		for {
			n++
			c := fl.apply(how)
			if c == nil {
				c = []byte{}
			}
			if !f(c, fmt.Sprintf("%d of %d directory changes persisted, unsynced writes persisted as %v (0 not, 1 fully, 2 half, 3 zeros)", nd, len(dirOps), how)) {
				return n
			}
			j := 0
			for ; j < len(how); j++ {
				if how[j]++; how[j] < 4 && !(fl.pend[j].kind == "trunc" && how[j] > 1) {
					break
				}
				how[j] = 0
			}
			if j == len(how) {
				break
			}
		}
	}
	return n
}

func ones(n int) []int {
	l := make([]int, n)
	for i := range l {
		l[i] = 1
	}
	return l
}

// ---- cases -------------------------------------------------------------------------------------

type world struct {
	t          *e2.T
	dir, conf  string
	what       string
	v          int
	init       map[string][]byte
	key        []byte // the old master key
	desc       string
	memo       map[string]string
	sc         string
	pre        string
	resultKeys map[string]bool
}

var stale = []string{"", "absent", "empty", "long", "old", "short"}

// cases: create (8 variants x what is there before), passwd (8 x 3 new sizes x leftovers)
func params(i int) (what string, v int, existing bool, left string, ok bool) {
	left = stale[1+i%5]
	i /= 5
	if i < 16 {
		return "create", i % 8, i >= 8, left, true
	}
	i -= 16
	return "passwd", i%8 | []int{0, 8, 16}[i/8], true, left, true
}

const nCases = 5 * (16 + 24)

func setupCase(t *e2.T, i int) *world {
	dir, err := ioutil.TempDir("", "ecrash")
	if err != nil {
		panic(err)
	}
	dir, _ = filepath.EvalSymlinks(dir)
	what, v, existing, left, _ := params(i)
	w := &world{t: t, dir: dir, conf: filepath.Join(dir, "gocryptfs.conf"), what: what, v: v, memo: map[string]string{}}
	if existing {
		if err := create(w.conf, oldPw, v&7); err != nil {
			panic(err)
		}
		if w.key, _, err = configfile.LoadAndDecrypt(w.conf, []byte(oldPw)); err != nil {
			t.Failf("a fresh config does not load: %v", err)
		}
	}
	old, _ := ioutil.ReadFile(w.conf)
	tmp := w.conf + ".tmp"
	switch left {
	case "empty":
		_ = ioutil.WriteFile(tmp, nil, 0600)
	case "long":
		_ = ioutil.WriteFile(tmp, bytes.Repeat([]byte("{\"x\": 1}\n"), 9000), 0600)
	case "old":
		_ = ioutil.WriteFile(tmp, old, 0600)
	case "short":
		_ = ioutil.WriteFile(tmp, []byte("{"), 0600)
	}
	w.init = snapshot(dir)
	w.desc = fmt.Sprintf("%s (variant %d, config there before: %v, leftover temporary file: %s)", what, v, existing, left)
	return w
}

// reset puts the directory back.
func (w *world) reset() {
	l, _ := ioutil.ReadDir(w.dir)
	for _, e := range l {
		_ = os.RemoveAll(filepath.Join(w.dir, e.Name()))
	}
	for p, c := range w.init {
		_ = ioutil.WriteFile(p, c, 0600)
	}
}

// verdict says what a config content amounts to: "old", "new", "none" or what is wrong.
func (w *world) verdict(c []byte) string {
	if c == nil {
		return "none"
	}
	if v, ok := w.memo[string(c)]; ok {
		return v
	}
	v := w.judge(c)
	w.memo[string(c)] = v
	return v
}

func (w *world) judge(c []byte) string {
	if old, ok := w.init[w.conf]; ok && bytes.Equal(old, c) {
		return "old"
	}
	f, err := ioutil.TempFile("", "judge")
	if err != nil {
		panic(err)
	}
	defer os.Remove(f.Name())
	_, _ = f.Write(c)
	f.Close()
	w.t.Step()
	key, _, err := configfile.LoadAndDecrypt(f.Name(), []byte(newPw))
	if err != nil {
		return fmt.Sprintf("broken (%v)", err)
	}
	if len(key) != 32 {
		return fmt.Sprintf("a master key of %d bytes", len(key))
	}
	if w.what == "passwd" && !bytes.Equal(key, w.key) {
		return "another master key"
	}
	return "new"
}

// allowed: what may be at the config path after a crash.
func (w *world) allowed(v string) bool {
	_, had := w.init[w.conf]
	return v == "new" || had && v == "old" || !had && v == "none"
}

func crash(i int, t *e2.T) {
	w := setupCase(t, i)
	defer os.RemoveAll(w.dir)
	t.Sample("%s", w.desc)
	r := execute(t, w.dir, w.what, w.v, "")
	if r.kill {
		t.Failf("%s: the write neither succeeds nor fails", w.desc)
		return
	}
	end := w.verdict(r.after[w.conf])
	if _, there := r.after[w.conf]; !there {
		end = "none"
	}
	if r.done && end != "new" {
		t.Failf("%s: reported success, but the config path holds: %s", w.desc, end)
	}
	if !w.allowed(end) {
		t.Failf("%s: (reported %q) the config path holds: %s", w.desc, r.fail, end)
	}
	if _, stale := w.init[w.conf+".tmp"]; !stale && !r.done {
		t.Failf("%s: fails on a healthy file system: %s", w.desc, r.fail)
	}
	for _, o := range r.ops {
		if o.kind == "unknown" || strings.HasSuffix(o.call, "?") {
			t.Note("operations the model does not cover", 1)
			return
		}
	}
	// the model must agree with what really happened
	same := false
	crashStates(w.init, r.ops, len(r.ops), w.conf, func(c []byte, how string) bool {
		a, there := r.after[w.conf]
		if (c == nil) == !there && bytes.Equal(c, a) {
			same = true
		}
		return true
	})
	if !same {
		t.Note("model disagrees with the real result", 1)
		return // operations the model does not know: nothing is claimed about crashes
	}
	t.Note("traces validated", 1)
	// all crash states
	for k := 0; k <= len(r.ops); k++ {
		k := k
		crashStates(w.init, r.ops, k, w.conf, func(c []byte, how string) bool {
			v := w.verdict(c)
			t.Step()
			t.State(i, k, how)
			if !w.allowed(v) {
				at := "after the last operation"
				if k < len(r.ops) {
					at = "before " + r.ops[k].String()
				}
				t.Failf("%s: a crash %s (operations %v), %s, leaves: %s", w.desc, at, r.ops, how, v)
				return false
			}
			return true
		})
		if t.Failed() {
			return
		}
	}
}

var errnos = map[string][]string{
	"open": {"EACCES"}, "openat": {"EACCES", "ENOSPC"}, "openat2": {"EACCES"}, "creat": {"ENOSPC"},
	"write": {"ENOSPC", "EIO"}, "pwrite64": {"ENOSPC"}, "writev": {"ENOSPC"}, "ftruncate": {"EIO"}, "truncate": {"EIO"},
	"fsync": {"EIO", "EINVAL"}, "fdatasync": {"EIO"}, "close": {"EIO"}, "rename": {"EACCES"}, "renameat": {"EACCES", "EIO"}, "renameat2": {"EACCES"},
	"unlink": {"EACCES"}, "unlinkat": {"EACCES"}, "link": {"EPERM"}, "linkat": {"EPERM"},
}

// faults: every file operation fails in turn, or the process is killed there.
func faults(i int, t *e2.T) {
	w := setupCase(t, faultCases[i])
	defer os.RemoveAll(w.dir)
	base := execute(t, w.dir, w.what, w.v, "")
	type target struct {
		call, err string
		nth       int
	}
	var ts []target
	for _, o := range base.ops {
		for _, e := range errnos[o.call] {
			ts = append(ts, target{o.call, "error=" + e, o.nth})
		}
		ts = append(ts, target{o.call, "signal=SIGKILL", o.nth})
	}
	sort.Slice(ts, func(a, b int) bool { return fmt.Sprint(ts[a]) < fmt.Sprint(ts[b]) })
	var prev target
	for _, x := range ts {
		if x == prev {
			continue
		}
		prev = x
		var r *run
		hit := false
		for try := 0; try < 3 && !hit; try++ {
			w.reset()
			r = execute(t, w.dir, w.what, w.v, fmt.Sprintf("inject=%s:%s:when=%d", x.call, x.err, x.nth))
			hit = r.kill || r.inj != ""
		}
		if !hit {
			t.Note("faults that did not hit a file of the config", 1)
			continue
		}
		t.Note("faults injected", 1)
		c, there := r.after[w.conf]
		if !there {
			c = nil
		}
		v := w.verdict(c)
		t.State(faultCases[i], fmt.Sprint(x), v)
		where := fmt.Sprintf("%s: %s %s", w.desc, x.call, x.err)
		if !w.allowed(v) {
			t.Failf("%s: the config path holds: %s", where, v)
		}
		if r.done && v != "new" {
			t.Failf("%s: success is reported, but the config path holds: %s", where, v)
		}
		// a power failure after the failure: data never synced may be lost. A failed sync is
		// only warned about (network drives), so nothing is claimed after it.
		if strings.Contains(x.err, "error") && x.call != "fsync" && x.call != "fdatasync" {
			crashStates(w.init, r.ops, len(r.ops), w.conf, func(c []byte, how string) bool {
				v := w.verdict(c)
				if !w.allowed(v) {
					t.Failf("%s: a crash afterwards, %s, leaves: %s", where, how, v)
					return false
				}
				return true
			})
		}
		if t.Failed() {
			return
		}
	}
}

// no leftovers; create and passwd of each kind
var faultCases = []int{0, 5 * 2, 5 * 4, 5 * 8, 5 * 16, 5 * 20, 5 * 24, 5 * 28, 5 * 32, 5*16 + 2, 5*8 + 2, 5*24 + 2}

func n(k int) func(string) int {
	return func(string) int {
		if exec.Command("strace", "-f", "-o", "/dev/null", "true").Run() != nil {
			fmt.Println("NOT DECIDED: strace does not work here")
			return 0
		}
		return k
	}
}

func main() {
	if len(os.Args) > 1 && os.Args[1] == "-helper" {
		helper(os.Args[2:])
		return
	}
	tlog.Warn.Enabled = false
	e2.Main([]e2.Check{{Prop: "C15", Groups: []e2.Group{
		{Name: "crash points", Bounds: "creation and password change, 40 variants (sizes up to several pages) x 5 leftovers of an earlier crash; every prefix of the recorded file operations, every prefix of the directory changes persisted, every unsynced write lost, torn, zeroed or kept", N: n(nCases), Run: crash},
		{Name: "faults", Bounds: "12 of these, every file operation failing with each plausible error, or the process killed at it", N: n(len(faultCases)), Run: faults},
	}, Assume: []string{"directory operations persist in order and atomically; data that was not synced may persist in any combination", "after a failed fsync, which the code only warns about, nothing is claimed"}}})
}
