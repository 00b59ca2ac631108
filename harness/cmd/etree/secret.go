package main

import (
	"fmt"
	"os"
	"strings"
	"sync"

	"verif/e2"
	"verif/ref"
)

// C25: the remote is never sent plaintext names. Every plaintext name in requests and in the volume
// bears a mark; no access to the remote may show it.

const mark = "pLaIn-qx7"

var secretPaths = func() []string {
	m := func(s string) string {
		l := strings.Split(s, "/")
		for i := range l {
			if l[i] != "" && l[i] != "." && l[i] != ".." {
				l[i] = mark + l[i]
			}
		}
		return strings.Join(l, "/")
	}
	return []string{"/", m("/d"), m("/d/f"), m("/d/e"), m("/d/e/g"), m("/f"), m("/no"), m("/no/no"), m("/d/no"), m("/f/no"), m("/d/e/g/no"), m("//d/./e/../f"), m("/d/"), m("/../f"), m("f"), "/" + mark + strings.Repeat("n", 150), "/" + mark + strings.Repeat("n", 240), "/" + mark + strings.Repeat("n", 500), "/" + mark + "\x00", "/" + mark + "/" + strings.Repeat(mark+"/", 20)}
}()

var secretSpec = ref.Spec{secretPaths[4]: []byte("content " + mark), secretPaths[2]: []byte("df"), secretPaths[5]: ref.Content(5000, 3), "/" + mark + "empty": {}, "/" + mark + "z/": nil, secretPaths[15]: []byte("long")}

// watchNames reports accesses that show the mark or lie outside the root.
func watchNames(t *e2.T, v *ref.Volume, where func() string, fail func(op string, n int) error) {
	var mu sync.Mutex
	n := 0
	v.FS.Hook = func(op, p string) error {
		mu.Lock()
		k := n
		n++
		mu.Unlock()
		if strings.Contains(strings.ToLower(p), strings.ToLower(mark)) {
			t.Failf("%sthe remote is asked for %s %q, which shows a plaintext name", where(), op, p)
		}
		if p != v.FS.Root && !strings.HasPrefix(p, strings.TrimSuffix(v.FS.Root, "/")+"/") || strings.Contains(p, "/../") || strings.HasSuffix(p, "/..") {
			t.Failf("%sthe remote is asked for %s %q, outside the volume", where(), op, p)
		}
		if fail != nil {
			return fail(op, k)
		}
		return nil
	}
}

func secretOps() (l []op) {
	for _, p := range secretPaths {
		for _, k := range []byte("LSR") {
			l = append(l, op{k, p})
		}
	}
	return
}

func c25Ops(i int, t *e2.T) { // all sequences of two (thorough three) requests
	ops := secretOps()
	v := build(keys(i%8), secretSpec)
	v.AddRaw(v.FS.Top, "junk name!", []byte("x"))
	var hist string
	third := []op{{}}
	if t.Tier == "thorough" {
		third = append(third, ops...)
	}
	for _, b := range ops {
		v.FS.Hook = nil
		ft := open(t, v, 2)
		if ft == nil {
			return
		}
		watchNames(t, v, func() string { return hist }, nil)
		for _, c := range third {
			hist = ""
			for _, o := range []op{ops[i], b, c} {
				if o.k == 0 {
					continue
				}
				hist += o.String() + ", "
				t.Step()
				try25(ft, o)
			}
			t.State(i, b.String(), c.String())
		}
		if t.Failed() {
			return
		}
	}
	v.FS.Hook = nil
	t.Sample("all sequences starting with %v", ops[i])
}

type lsr interface {
	ReadDir(string) ([]os.FileInfo, error)
	ReadFile(string) ([]byte, error)
	Stat(string) (os.FileInfo, error)
}

func try25(ft lsr, o op) {
	switch o.k {
	case 'L':
		_, _ = ft.ReadDir(o.p)
	case 'S':
		_, _ = ft.Stat(o.p)
	case 'R':
		_, _ = ft.ReadFile(o.p)
	}
}

func c25Faults(i int, t *e2.T) { // the same with failing accesses
	ops := secretOps()
	o := ops[i]
	v := build(keys(i%8), secretSpec)
	for kind := 0; kind < 4; kind++ {
		for f := 0; f < 8; f++ {
			for _, last := range []int{1, 1000} {
				v.FS.Hook = nil
				ft := open(t, v, 2)
				if ft == nil {
					return
				}
				hist := fmt.Sprintf("%v with failures of kind %d from access %d on: ", o, kind, f)
				watchNames(t, v, func() string { return hist }, func(_ string, n int) error {
					if n < f || n >= f+last {
						return nil
					}
					switch kind {
					case 0:
						return os.ErrNotExist
					case 1:
						return os.ErrPermission
					case 2:
						return ref.Partial{Err: fmt.Errorf("remote failure")}
					}
					return fmt.Errorf("remote failure")
				})
				for k := 0; k < 2; k++ {
					try25(ft, o)
					t.Step()
				}
				t.State(i, kind, f, last)
				if t.Failed() {
					return
				}
			}
		}
	}
	v.FS.Hook = nil
}

var c25groups = []e2.Group{
	{Name: "names sent to the remote", Bounds: "all sequences of 2 (thorough 3) of 60 requests, every plaintext name marked, 8 variants of volumes", N: n(len(secretPaths) * 3), Run: c25Ops},
	{Name: "names sent when accesses fail", Bounds: "60 requests x 4 kinds of failure of each of the first 8 accesses, alone or with all later ones", N: n(len(secretPaths) * 3), Run: c25Faults},
}
