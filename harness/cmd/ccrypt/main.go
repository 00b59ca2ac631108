// ccrypt explores nonce generation (C16) and parallel block encryption (C24) under the controlled
// scheduler.
package main

import (
	"bytes"
	"crypto/rand"
	"fmt"

	"github.com/flawedmatrix/gocryptsftp/gocrypt/contentenc"
	"github.com/flawedmatrix/gocryptsftp/gocrypt/cryptocore"

	"verif/drv"
	"verif/ref"
	"verif/vsched"
)

// The random source is replaced by a part of a de Bruijn sequence of order 3: any three adjacent
// bytes occur once, so the position of every nonce in the stream can be recovered.
var stream = deBruijn()

const win = 3

func deBruijn() []byte { // the Lyndon words of length 1 and 3, in order, from a byte in the middle on
	var s []byte
	for a := 117; len(s) < 2<<20; a++ {
		s = append(s, byte(a))
		for b := a; b < 256; b++ {
			for c := a + 1; c < 256; c++ {
				s = append(s, byte(a), byte(b), byte(c))
			}
		}
	}
	return s
}

type source struct {
	pos   int
	first int
	reads int
	obj   vsched.Obj
	epoch uint64
}

func init() { rand.Reader = src }

//go:norace
func (s *source) Read(b []byte) (int, error) {
	if e := vsched.Epoch(); e != s.epoch { // a new execution
		*s = source{epoch: e}
	}
	s.obj.W(0x7a)
	if s.first == 0 {
		s.first = len(b)
	}
	for i := range b {
		b[i] = stream[s.pos%len(stream)]
		s.pos++
	}
	s.reads++
	return len(b), nil
}

var src = &source{}

//go:norace
func (s *source) outcome() string { return fmt.Sprint(s.reads, " reads of the random source") }

//go:norace
func (s *source) drawn() int {
	if s.pos > len(stream) {
		return len(stream)
	}
	return s.pos
}

//go:norace
func (s *source) size() int { return s.first }

// nonces must be concatenations of at most two pieces of the stream, and no piece may be used twice.
func judge(ns [][]byte, lens []int) string {
	used := map[int]int{}
	drawn := src.drawn()
	at := func(b []byte) int {
		if len(b) == 0 {
			return -2
		}
		return bytes.Index(stream[:drawn], b)
	}
	for i, n := range ns {
		if len(n) != lens[i] {
			return fmt.Sprintf("nonce %d has %d bytes instead of %d", i, len(n), lens[i])
		}
		ok := false
		for cut := len(n); cut >= 1 && !ok; cut-- {
			p, q := at(n[:cut]), at(n[cut:])
			if p == -1 || q == -1 {
				continue
			}
			ok = true
			mark := func(p, l int) {
				if l < win {
					return
				}
				for k := p; k < p+l; k++ {
					if j, dup := used[k]; dup && ok {
						ok = false
						_ = j
					}
				}
			}
			mark(p, cut)
			mark(q, len(n)-cut)
			if !ok {
				return fmt.Sprintf("nonce %d (%x) uses random bytes already used by another nonce", i, n)
			}
			for k := p; k < p+cut && cut >= win; k++ {
				used[k] = i
			}
			for k := q; k < q+len(n)-cut && len(n)-cut >= win; k++ {
				used[k] = i
			}
		}
		if !ok {
			return fmt.Sprintf("nonce %d (%x) is not built from the random source", i, n)
		}
	}
	return ""
}

type nscn struct {
	name  string
	bits  int
	pre   int // nonces left in the first buffer when the clients start
	n     []int
	mixed bool
	P, PT int
	R     int
}

func (s nscn) body() {
	key := bytes.Repeat([]byte{3}, 32)
	var g, g2 *cryptocore.CryptoCore
	vsched.Quiet(func() {
		g = cryptocore.New(key, cryptocore.BackendGoGCM, s.bits, true, false)
		g2 = g
		if s.mixed {
			g2 = cryptocore.New(key, cryptocore.BackendGoGCM, 96, true, false)
		}
	})
	var all [][]byte
	var lens []int
	vsched.Quiet(func() {
		all = append(all, g.IVGenerator.Get())
		lens = append(lens, s.bits/8)
		size := src.size()
		if size < s.bits/8 || size > 20000 {
			size = s.bits / 8
		}
		for i := 1; i < size/(s.bits/8)-s.pre; i++ {
			all = append(all, g.IVGenerator.Get())
			lens = append(lens, s.bits/8)
		}
	})
	vsched.Quiesce()
	res := make([][][]byte, len(s.n))
	for i := range s.n {
		i := i
		res[i] = make([][]byte, s.n[i])
		gg := g
		if i%2 == 1 {
			gg = g2
		}
		vsched.GoNamed(fmt.Sprintf("user%d", i), func() {
			for j := range res[i] {
				res[i][j] = gg.IVGenerator.Get()
			}
		})
	}
	vsched.Join()
	for i := range res {
		for j := range res[i] {
			all = append(all, res[i][j])
			if s.mixed && i%2 == 1 {
				lens = append(lens, 12)
			} else {
				lens = append(lens, s.bits/8)
			}
		}
	}
	vsched.SetOutcome(src.outcome())
	if d := judge(all, lens); d != "" {
		vsched.Fail("%s", d)
	}
}

func c16() []drv.Scn {
	ss := []nscn{
		{"2 users across a refill", 128, 1, []int{2, 2}, false, 4, 8, 2},
		{"2 users, empty buffer", 128, 0, []int{1, 2}, false, 4, 8, 2},
		{"3 users across a refill", 128, 1, []int{1, 1, 1}, false, 3, 6, 2},
		{"3 users, two left", 128, 2, []int{1, 2, 1}, false, 3, 5, 1},
		{"96-bit nonces with a remainder", 96, 1, []int{2, 2}, false, 3, 6, 1},
		{"mixed 128- and 96-bit nonces", 128, 1, []int{2, 2, 1}, true, 2, 4, 1},
		{"mixed, empty buffer", 128, 0, []int{2, 2}, true, 3, 6, 1},
		{"a user during three refills by another", 128, 0, []int{1, 97}, false, 3, 4, 0},
		{"96-bit, a user during two refills by another", 96, 0, []int{2, 86}, false, 3, 4, 0},
		{"128-bit user during refills by a 96-bit user", 128, 0, []int{1, 87}, true, 3, 4, 0},
		{"96-bit user during refills by a 128-bit user", 128, 1, []int{66, 2}, true, 3, 4, 0},
		{"2 users during refills by a third", 96, 1, []int{1, 1, 43}, false, 3, 4, 1},
		{"2 users during refills by a third, mixed", 128, 0, []int{1, 1, 34}, true, 3, 4, 0},
		{"one user through three refills", 96, 0, []int{100}, false, 1, 2, 0},
	}
	var r []drv.Scn
	for _, s := range ss {
		s := s
		r = append(r, drv.Scn{Name: s.name, Body: s.body, PQ: s.P, PT: s.PT, RQ: s.R, RT: s.R + 1})
	}
	return r
}

// ---------------------------------------------------------------- C24

type escn struct {
	name   string
	siv    bool
	calls  []int // blocks per concurrent call
	last   int   // length of the last block
	put    bool  // return the result to the pool after use
	P, PT  int
	R, RT  int
	shards int
}

const bs = 32

var masterKey = bytes.Repeat([]byte{9}, 32)
var refK = map[bool]*ref.Keys{}

func (s escn) body() {
	if refK[s.siv] == nil {
		refK[s.siv] = ref.NewKeys(masterKey, true, true, s.siv)
	}
	k := refK[s.siv]
	var ce *contentenc.ContentEnc
	vsched.Quiet(func() {
		b := cryptocore.BackendGoGCM
		if s.siv {
			b = cryptocore.BackendAESSIV
		}
		cc := cryptocore.New(masterKey, b, 128, true, false)
		ce = contentenc.New(cc, bs, false)
	})
	vsched.Quiesce()
	fails := make([]string, len(s.calls))
	one := func(c int) {
		id := ref.ID(c + 1)
		var in [][]byte
		for i := 0; i < s.calls[c]; i++ {
			l := bs
			if i == s.calls[c]-1 {
				l = s.last
			}
			in = append(in, ref.Content(l, 100*c+i))
		}
		first := uint64(1000 * c)
		out := ce.EncryptBlocks(in, first, id[:])
		want := 0
		off := 0
		for i, p := range in {
			if len(p) == 0 {
				continue
			}
			want += len(p) + 32
			if off+len(p)+32 > len(out) {
				fails[c] = fmt.Sprintf("output of %d bytes is too short at block %d", len(out), i)
				return
			}
			pl, ok := k.OpenBlock(out[off:off+len(p)+32], first+uint64(i), id)
			if !ok || !bytes.Equal(pl, p) {
				fails[c] = fmt.Sprintf("block %d of call %d does not decrypt to its plaintext", i, c)
				return
			}
			off += len(p) + 32
		}
		if len(out) != want {
			fails[c] = fmt.Sprintf("output has %d bytes instead of %d", len(out), want)
			return
		}
		for i, p := range in {
			if !bytes.Equal(p, ref.Content(len(p), 100*c+i)) {
				fails[c] = fmt.Sprintf("input block %d of call %d was modified", i, c)
			}
		}
		if s.put {
			ce.CReqPool.Put(out)
		}
	}
	for c := range s.calls {
		c := c
		vsched.GoNamed(fmt.Sprintf("caller%d", c), func() { one(c) })
	}
	vsched.Join()
	for _, f := range fails {
		if f != "" {
			vsched.Fail("%s", f)
		}
	}
	vsched.SetOutcome("ok")
}

func c24() []drv.Scn {
	ss := []escn{
		{"32 blocks in parallel", false, []int{32}, bs, true, 3, 4, 1, 2, 4},
		{"33 blocks in parallel, short last", false, []int{33}, 5, true, 2, 3, 1, 2, 2},
		{"35 blocks in parallel, SIV", true, []int{35}, bs, false, 2, 3, 0, 1, 2},
		{"2 callers with 2 blocks", false, []int{2, 2}, 7, true, 5, 7, 2, 3, 2},
		{"3 callers with 1 block", false, []int{1, 1, 1}, bs, true, 4, 6, 2, 3, 2},
		{"parallel and serial caller", false, []int{32, 1}, bs, true, 2, 3, 1, 2, 4},
	}
	var r []drv.Scn
	for _, s := range ss {
		s := s
		r = append(r, drv.Scn{Name: s.name, Body: s.body, Delay: true, PQ: s.P, PT: s.PT, RQ: s.R, RT: s.RT, Shards: s.shards})
	}
	return r
}

func main() {
	as := []string{"source rewriter and scheduler models of sync, channels and pools are faithful"}
	drv.Main([]drv.Check{{Prop: "C16", Scns: c16, Assume: as}, {Prop: "C24", Scns: c24, Assume: as}})
}
