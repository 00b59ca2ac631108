// enames decides C13: name encryption against an independent implementation of the format.
package main

import (
	"bytes"
	"encoding/base64"
	"fmt"
	"strings"

	"github.com/flawedmatrix/gocryptsftp/gocrypt/cryptocore"
	"github.com/flawedmatrix/gocryptsftp/gocrypt/nametransform"

	"verif/e2"
	"verif/ref"
)

type variant struct {
	k    *ref.Keys
	n    *nametransform.NameTransform
	long bool
}

var vs []variant

func setup(string) {
	if vs != nil {
		return
	}
	for i := 0; i < 8; i++ {
		hk, raw, long := i&1 == 0, i&2 == 0, i&4 == 0
		m := ref.Content(32, 100)
		k := ref.NewKeys(m, hk, raw, false)
		c := cryptocore.New(append([]byte(nil), m...), cryptocore.BackendGoGCM, 128, hk, false)
		vs = append(vs, variant{k, nametransform.New(c.EMECipher, long, raw), long})
	}
}

func iv(i int) []byte {
	b := ref.Content(16, 500+i)
	if i == 0 {
		b = make([]byte, 16)
	}
	if i == 1 {
		b = bytes.Repeat([]byte{0xff}, 16)
	}
	return b
}

func bad(s string) bool {
	return s == "" || s == "." || s == ".." || strings.ContainsAny(s, "\x00/")
}

// valid checks one valid name under one IV.
func (v variant) valid(t *e2.T, name string, ivx []byte) {
	t.Step()
	civ := append([]byte(nil), ivx...)
	want := v.k.Name(name, ivx)
	got := v.n.EncryptName(name, civ)
	if got != want {
		t.Failf("EncryptName(%q) = %q, the format says %q", name, got, want)
		return
	}
	wh := want
	if v.long && len(want) > 255 {
		wh = v.k.HashName(want)
	}
	gh, err := v.n.EncryptAndHashName(name, civ)
	if err != nil || gh != wh {
		t.Failf("EncryptAndHashName(%q) = %q, %v; the format says %q", name, gh, err, wh)
		return
	}
	if h := v.n.HashLongName(want); h != v.k.HashName(want) {
		t.Failf("HashLongName(%q) = %q", want, h)
		return
	}
	back, err := v.n.DecryptName(want, civ)
	if err != nil || back != name {
		t.Failf("DecryptName(EncryptName(%q)) = %q, %v", name, back, err)
		return
	}
	if !bytes.Equal(civ, ivx) {
		t.Failf("the IV was changed")
	}
	t.State(len(name), want[:8])
}

// dec checks one arbitrary ciphertext name: the answer must be the format's.
func (v variant) dec(t *e2.T, cname string, ivx []byte) {
	t.Step()
	want, ok := v.k.DecName(cname, ivx)
	got, err := v.n.DecryptName(cname, append([]byte(nil), ivx...))
	if err != nil {
		got2 := got
		if got2 != "" {
			t.Failf("DecryptName(%q) fails with %v but returns %q", cname, err, got)
		}
		// a name spelled in a non-canonical way (line breaks, stray bits) may be refused
		if ok && v.k.Name(want, ivx) == cname {
			t.Failf("DecryptName(%q) = %v, the format says %q", cname, err, want)
		}
		return
	}
	if bad(got) {
		t.Failf("DecryptName(%q) returns the unsafe name %q", cname, got)
	}
	if !ok || got != want {
		t.Failf("DecryptName(%q) = %q; the format says %q, valid=%v", cname, got, want, ok)
	}
}

// name of n bytes; kinds of content
func mk(n, kind int) string {
	b := make([]byte, n)
	for i := range b {
		switch kind {
		case 0:
			b[i] = 'a' + byte(i%26)
		case 1:
			b[i] = byte(1 + (i*7+n)%255)
		case 2:
			b[i] = 0x10
		case 3:
			b[i] = byte(16 - n%16)
		case 4:
			b[i] = 1
		case 5:
			b[i] = '.'
		case 6:
			b[i] = 0xff
		}
		if b[i] == '/' || b[i] == 0 {
			b[i] = '_'
		}
	}
	return string(b)
}

func lengths(i int, t *e2.T) {
	n := i + 1
	for _, v := range vs {
		for kind := 0; kind < 7; kind++ {
			s := mk(n, kind)
			if bad(s) {
				continue
			}
			for x := 0; x < 4; x++ {
				v.valid(t, s, iv(x))
			}
		}
		// one special byte at each position
		if t.Tier == "thorough" || n <= 50 {
			for p := 0; p < n; p++ {
				for _, c := range []byte{1, '.', 0x10, 0x80, '\n', ' ', '-', '_', '=', '%', '\\'} {
					b := []byte(mk(n, 0))
					b[p] = c
					if !bad(string(b)) {
						v.valid(t, string(b), iv(2))
					}
				}
			}
		}
	}
	t.Sample("all names of %d bytes of 7 shapes, 8 variants, 4 IVs", n)
}

func short(i int, t *e2.T) { // all names of one or two bytes, first byte i+1
	a := byte(i + 1)
	if a == '/' {
		return
	}
	for vi, v := range vs {
		if a != '.' {
			v.valid(t, string([]byte{a}), iv(3))
		}
		if t.Tier != "thorough" && vi != 0 && vi != 3 {
			continue
		}
		for b := 1; b < 256; b++ {
			s := string([]byte{a, byte(b)})
			if !bad(s) {
				v.valid(t, s, iv(3))
			}
		}
	}
	t.Sample("all names of one or two bytes starting with byte %d", a)
}

// toolong: names above 255 bytes never encrypt to a stored name
func toolong(i int, t *e2.T) {
	for _, v := range vs {
		for n := 256; n < 700; n++ {
			t.Step()
			if s, err := v.n.EncryptAndHashName(mk(n, i%7), iv(2)); err == nil {
				t.Failf("a name of %d bytes encrypts to %q", n, s)
				return
			}
		}
	}
}

// pads: every plaintext block layout with every last byte and one deviating padding byte, plus
// unsafe plaintexts with correct padding
func pads(i int, t *e2.T) {
	blocks := 1 + i%16
	vi := i / 16
	v := vs[vi]
	ivx := iv(2 + vi)
	for last := 0; last < 256; last++ {
		for dev := 0; dev <= 17; dev++ { // dev-th byte from the end deviates (0: none)
			p := []byte(mk(16*blocks, 0))
			for j := 0; j < last && j < len(p); j++ {
				p[len(p)-1-j] = byte(last)
			}
			p[len(p)-1] = byte(last)
			if dev > 1 {
				if dev > len(p) {
					continue
				}
				p[len(p)-dev] ^= 0x55
			}
			if last > 16 && dev > 1 {
				continue
			}
			v.dec(t, v.k.RawName(p, ivx), ivx)
		}
	}
	for n := 0; n < 16*blocks; n++ {
		if 16*blocks-n > 16 {
			continue
		}
		s := []byte(mk(n, 0))
		v.dec(t, v.k.RawName(ref.Pad(s), ivx), ivx)
		for p := range s {
			for _, c := range []byte{0, '/', '.', '\\', '\n', 0xff} {
				x := append([]byte(nil), s...)
				x[p] = c
				v.dec(t, v.k.RawName(ref.Pad(x), ivx), ivx)
			}
		}
		v.dec(t, v.k.RawName(ref.Pad([]byte(mk(n, 5))), ivx), ivx)
		v.dec(t, v.k.RawName(ref.Pad(bytes.Repeat([]byte{0}, n)), ivx), ivx)
		v.dec(t, v.k.RawName(ref.Pad(bytes.Repeat([]byte{'/'}, n)), ivx), ivx)
		v.dec(t, v.k.RawName(ref.Pad(append([]byte("../"), s...)), ivx), ivx)
		v.dec(t, v.k.RawName(ref.Pad(append([]byte("/"), s...)), ivx), ivx)
	}
	t.Sample("%d-block plaintexts with every padding byte, unsafe bytes at every position", blocks)
}

// binlen: every decoded length up to 1100 bytes and around EME's limit
func binlen(i int, t *e2.T) {
	for _, v := range vs {
		for _, n := range []int{i, 2048 - 8 + i%17, 2048 + 16*i, 4096 + i} {
			b := ref.Content(n, 9)
			for _, e := range []*base64.Encoding{base64.URLEncoding, base64.RawURLEncoding, base64.StdEncoding, base64.RawStdEncoding} {
				v.dec(t, e.EncodeToString(b), iv(2))
			}
		}
		if i > 0 && i%16 == 0 && i <= 512 { // genuine padded plaintexts of this length
			for k := 1; k <= 16; k++ {
				p := append([]byte(mk(i-k, 0)), bytes.Repeat([]byte{byte(k)}, k)...)
				v.dec(t, v.k.RawName(p, iv(2)), iv(2))
			}
		}
	}
}

// spell: every single-character change, insertion and deletion of genuine names, all other IVs
func spell(i int, t *e2.T) {
	v := vs[i%8]
	name := []string{"a", "file.txt", "exactly-15-byte", "exactly-16-bytes", "a name of some forty bytes, three blocks", strings.Repeat("x", 191), strings.Repeat("y", 192), strings.Repeat("z", 255)}[i/8]
	ivx := iv(4)
	c := v.k.Name(name, ivx)
	for p := 0; p <= len(c); p++ {
		for ch := 0; ch < 256; ch++ {
			if t.Tier != "thorough" && len(c) > 60 && ch%8 != p%8 {
				continue
			}
			v.dec(t, c[:p]+string([]byte{byte(ch)})+c[p:], ivx)
			if p < len(c) {
				v.dec(t, c[:p]+string([]byte{byte(ch)})+c[p+1:], ivx)
			}
		}
		v.dec(t, c[:p], ivx)
		v.dec(t, c[p:], ivx)
		if p < len(c) {
			v.dec(t, c[:p]+c[p+1:], ivx)
		}
		v.dec(t, c[p:]+c[:p], ivx)
	}
	for b := 0; b < 128; b++ { // every IV differing in one bit
		x := append([]byte(nil), ivx...)
		x[b/8] ^= 1 << uint(b%8)
		v.dec(t, c, x)
	}
	for o := range vs {
		vs[o].dec(t, c, ivx)
	}
	for _, s := range []string{"", ".", "..", "gocryptfs.diriv", "gocryptfs.conf", v.k.HashName(c), v.k.HashName(c) + ".name", name, c + "=", c + "==", "=" + c, c + c, " " + c, c + "\n", "\x00", "%", "/" + c, c + "/"} {
		v.dec(t, s, ivx)
	}
	for _, x := range []struct {
		s string
		w int
	}{{v.k.HashName(c), nametransform.LongNameContent}, {v.k.HashName(c) + ".name", nametransform.LongNameFilename}, {c, nametransform.LongNameNone}, {"gocryptfs.conf", nametransform.LongNameNone}} {
		if g := nametransform.NameType(x.s); g != x.w {
			t.Failf("NameType(%q) = %d", x.s, g)
		}
	}
	if g := nametransform.RemoveLongNameSuffix(v.k.HashName(c) + ".name"); g != v.k.HashName(c) {
		t.Failf("RemoveLongNameSuffix gives %q", g)
	}
	t.Sample("every one-character change of the encryption of a %d-byte name", len(name))
}

func n(k int) func(string) int { return func(string) int { return k } }

func main() {
	e2.Main([]e2.Check{{
		Prop: "C13",
		Groups: []e2.Group{
			{Name: "lengths", Bounds: "every length 1-255 x 7 contents x 4 IVs x 8 variants (HKDF, Raw64, LongNames), special bytes at every position", N: n(255), Setup: setup, Run: lengths},
			{Name: "short", Bounds: "all names of one and two bytes", N: n(255), Setup: setup, Run: short},
			{Name: "too long", Bounds: "lengths 256-699", N: n(7), Setup: setup, Run: toolong},
			{Name: "padding", Bounds: "1-16 blocks x every final byte x one deviating padding byte; every safe/unsafe plaintext shape", N: n(128), Setup: setup, Run: pads},
			{Name: "lengths of ciphertexts", Bounds: "every decoded length 0-1100 and around 2048 and 4096, four base64 alphabets", N: n(1101), Setup: setup, Run: binlen},
			{Name: "spellings", Bounds: "every one-character substitution, insertion, deletion, truncation and rotation of 8 names x 8 variants; every one-bit IV change", N: n(64), Setup: setup, Run: spell},
		},
		Assume: []string{"the reference implementation of the name format (EME from rfjakob/eme, base64 and SHA-256 from the standard library) is right", "a non-canonical base64 spelling of a genuine name (line breaks, non-zero trailing bits), which Go's decoder accepts, may be accepted as that name or refused"},
	}})
	_ = fmt.Sprint
}
