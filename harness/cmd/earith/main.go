// earith decides the sequential half of C24: offset arithmetic, size translation, merging and
// block round trips, enumerated exhaustively for small block sizes and around every boundary of
// the real one.
package main

import (
	"bytes"
	"fmt"

	"github.com/flawedmatrix/gocryptsftp/gocrypt/contentenc"
	"github.com/flawedmatrix/gocryptsftp/gocrypt/cryptocore"

	"verif/e2"
	"verif/ref"
)

var master = bytes.Repeat([]byte{5}, 32)

func enc(bs int, siv bool, bits int) *contentenc.ContentEnc {
	b := cryptocore.BackendGoGCM
	if siv {
		b = cryptocore.BackendAESSIV
	}
	return contentenc.New(cryptocore.New(master, b, bits, true, false), uint64(bs), false)
}

var cache = map[int]*contentenc.ContentEnc{}

func get(bs int) *contentenc.ContentEnc {
	if cache[bs] == nil {
		cache[bs] = enc(bs, false, 128)
	}
	return cache[bs]
}

// values of offsets and lengths for a block size
func vals(bs uint64, tier string) []uint64 {
	var r []uint64
	if bs <= 64 {
		for i := uint64(0); i <= 4*bs+3; i++ {
			r = append(r, i)
		}
		return r
	}
	for _, k := range []uint64{0, 1, 2, 3, 31, 32, 33, 34} {
		for d := -2; d <= 2; d++ {
			if v := int64(k*bs) + int64(d); v >= 0 {
				r = append(r, uint64(v))
			}
		}
		r = append(r, k*bs+bs/2)
	}
	return r
}

func offs(bs uint64, tier string) []uint64 {
	r := vals(bs, tier)
	for _, s := range []uint64{1 << 31, 1 << 32, 1 << 33, 1 << 40} {
		for _, d := range []int64{-1, 0, 1, int64(bs) - 1, int64(bs), int64(bs) + 1} {
			r = append(r, uint64(int64(s)+d))
		}
	}
	return r
}

var sizes = []int{16, 32, 64, 4096}

type rng struct {
	bs  int
	off uint64
}

func ranges(tier string) (r []rng) {
	for _, b := range sizes {
		for _, o := range offs(uint64(b), tier) {
			r = append(r, rng{b, o})
		}
	}
	return
}

func plainRange(c rng, t *e2.T) {
	ce := get(c.bs)
	bs := uint64(c.bs)
	cbs := bs + 32
	for _, l := range vals(bs, t.Tier) {
		t.Step()
		bl := ce.ExplodePlainRange(c.off, l)
		pos, left := c.off, l
		for i := range bl {
			b := &bl[i]
			w := bs - pos%bs
			if w > left {
				w = left
			}
			if b.BlockNo != pos/bs || b.Skip != pos%bs || b.Length != w || w == 0 {
				t.Failf("ExplodePlainRange(%d,%d) bs %d block %d: no %d skip %d len %d, expected no %d skip %d len %d", c.off, l, bs, i, b.BlockNo, b.Skip, b.Length, pos/bs, pos%bs, w)
				return
			}
			if b.IsPartial() != (w != bs) {
				t.Failf("IsPartial wrong for skip %d len %d bs %d", b.Skip, b.Length, bs)
			}
			if b.BlockPlainOff() != pos/bs*bs || b.BlockCipherOff() != ref.Hdr+pos/bs*cbs {
				t.Failf("block offsets wrong for block %d", b.BlockNo)
			}
			if bs <= 64 || i == 0 || i == len(bl)-1 {
				d := ref.Content(c.bs, int(pos))
				if g := b.CropBlock(d); !bytes.Equal(g, d[pos%bs:pos%bs+w]) {
					t.Failf("CropBlock wrong for skip %d len %d", b.Skip, b.Length)
				}
				// a block shorter than the range asks for
				for short := b.Skip; short < b.Skip+w; short += 1 + w/7 {
					if g := b.CropBlock(d[:short]); !bytes.Equal(g, d[b.Skip:short]) {
						t.Failf("CropBlock of a short block wrong")
					}
				}
			}
			pos += w
			left -= w
		}
		if left != 0 {
			t.Failf("ExplodePlainRange(%d,%d) bs %d covers only %d bytes", c.off, l, bs, l-left)
			return
		}
		if len(bl) > 0 {
			f, n := c.off/bs, (c.off+l-1)/bs
			if o, ln := bl[0].JointCiphertextRange(bl); o != ref.Hdr+f*cbs || ln != (n-f+1)*cbs {
				t.Failf("JointCiphertextRange(%d,%d) bs %d gives %d,%d", c.off, l, bs, o, ln)
			}
			if o, ln := contentenc.JointPlaintextRange(bl); o != f*bs || ln != (n-f+1)*bs {
				t.Failf("JointPlaintextRange(%d,%d) bs %d gives %d,%d", c.off, l, bs, o, ln)
			}
		}
		// ciphertext ranges
		co := c.off + ref.Hdr
		cl := ce.ExplodeCipherRange(co, l)
		p, rest := c.off, l
		for i := range cl {
			b := &cl[i]
			w := cbs - p%cbs
			if w > rest {
				w = rest
			}
			if b.BlockNo != p/cbs || b.Skip != p%cbs || b.Length != w || w == 0 {
				t.Failf("ExplodeCipherRange(%d,%d) bs %d block %d: no %d skip %d len %d", co, l, bs, i, b.BlockNo, b.Skip, b.Length)
				return
			}
			p += w
			rest -= w
		}
		if rest != 0 {
			t.Failf("ExplodeCipherRange(%d,%d) bs %d does not cover the range", co, l, bs)
		}
	}
	// single offsets
	if ce.PlainOffToBlockNo(c.off) != c.off/bs || ce.CipherOffToBlockNo(c.off+ref.Hdr) != c.off/cbs ||
		ce.BlockNoToPlainOff(c.off/bs) != c.off/bs*bs || ce.BlockNoToCipherOff(c.off/bs) != ref.Hdr+c.off/bs*cbs {
		t.Failf("offset translation of %d (bs %d) wrong", c.off, bs)
	}
	t.State(c.bs, c.off)
	t.Sample("block size %d, offset %d, %d lengths", c.bs, c.off, len(vals(bs, t.Tier)))
}

func sizeCase(i int, t *e2.T) {
	bs := sizes[i%len(sizes)]
	base := []uint64{0, 1 << 31, 1 << 32, 1 << 40}[i/len(sizes)]
	ce := get(bs)
	n := uint64(6*bs + 3)
	if bs > 64 {
		n = uint64(3*bs + 3)
	}
	if base > 0 {
		base -= uint64(2 * bs)
	}
	prev := uint64(0)
	for s := base; s < base+n; s++ {
		t.Step()
		want := uint64(0)
		if s > 0 {
			want = ref.Hdr + s + 32*((s+uint64(bs)-1)/uint64(bs))
		}
		if g := ce.PlainSizeToCipherSize(s); g != want {
			t.Failf("PlainSizeToCipherSize(%d) = %d, expected %d (bs %d)", s, g, want, bs)
			return
		}
		if g := ce.CipherSizeToPlainSize(want); g != s {
			t.Failf("CipherSizeToPlainSize(%d) = %d, expected %d (bs %d)", want, g, s, bs)
			return
		}
		if s > base && want <= prev {
			t.Failf("size translation not monotonic at %d", s)
		}
		// sizes in between are not valid files; they must not crash and not grow
		for z := prev + 1; s > base && z < want; z++ {
			if g := ce.CipherSizeToPlainSize(z); g > z {
				t.Failf("CipherSizeToPlainSize(%d) = %d", z, g)
			}
		}
		prev = want
		t.State(bs, s)
	}
	t.Sample("block size %d: every plaintext size from %d to %d", bs, base, base+n-1)
}

func mergeCase(i int, t *e2.T) {
	bs := 32
	lens := make([]int, bs+1)
	for k := range lens {
		lens[k] = k
	}
	if i > 32 {
		bs = 4096
		lens = []int{0, 1, 2, 2047, 2048, 2049, 4094, 4095, 4096}
	}
	ce := get(bs)
	ol := i
	if i > 32 {
		ol = lens[i-33]
	}
	for _, nl := range lens {
		for off := 0; off+nl <= bs; off++ {
			if bs > 64 && off%97 != 0 && off+nl < bs-2 {
				continue
			}
			t.Step()
			old, nw := ref.Content(ol, 1), ref.Content(nl, 2)
			want := make([]byte, ol)
			copy(want, old)
			if off+nl > ol {
				want = append(want, make([]byte, off+nl-ol)...)
			}
			copy(want[off:], nw)
			g := ce.MergeBlocks(old, nw, off)
			if !bytes.Equal(g, want) {
				t.Failf("MergeBlocks(%d bytes, %d bytes, %d) bs %d is not the overlay", ol, nl, off, bs)
				return
			}
			if !bytes.Equal(old, ref.Content(ol, 1)) || !bytes.Equal(nw, ref.Content(nl, 2)) {
				t.Failf("MergeBlocks(%d bytes, %d bytes, %d) changed its input", ol, nl, off)
			}
			t.State(ol, nl, off)
		}
	}
	t.Sample("merge into %d old bytes, block size %d", ol, bs)
}

// rt: n blocks, variant
func rtCase(i int, t *e2.T) {
	n, v := i/6, i%6
	bs, siv := 32, v%2 == 1
	last := []int{32, 1, 31}[v/2]
	if n > 40 {
		bs = 4096
		n = []int{1, 2, 31, 32, 33, 34, 64}[n-41]
		last = []int{4096, 1, 4095}[v/2]
	}
	k := ref.NewKeys(master, true, true, siv)
	ce := enc(bs, siv, 128)
	id := ref.ID(i)
	for _, first := range []uint64{0, 1, 7, 1 << 32} {
		t.Step()
		var in [][]byte
		var all []byte
		for b := 0; b < n; b++ {
			l := bs
			if b == n-1 {
				l = last
			}
			in = append(in, ref.Content(l, b))
			all = append(all, in[b]...)
		}
		out := ce.EncryptBlocks(in, first, id[:])
		off := 0
		nonces := map[string]bool{}
		for b := range in {
			e := off + len(in[b]) + 32
			if e > len(out) {
				t.Failf("%d blocks: output too short", n)
				return
			}
			p, ok := k.OpenBlock(out[off:e], first+uint64(b), id)
			if !ok || !bytes.Equal(p, in[b]) {
				t.Failf("%d blocks from %d (bs %d, siv %v): block %d is not a well-formed encryption of its plaintext", n, first, bs, siv, b)
				return
			}
			nonces[string(out[off:off+16])] = true
			off = e
		}
		if off != len(out) {
			t.Failf("%d blocks: %d bytes too many", n, len(out)-off)
		}
		if len(nonces) != n {
			t.Failf("%d blocks: nonce reused", n)
		}
		cp := append([]byte(nil), out...)
		got, err := ce.DecryptBlocks(cp, first, id[:])
		if err != nil || !bytes.Equal(got, all) {
			t.Failf("%d blocks from %d (bs %d, siv %v) do not decrypt to the plaintext: %v", n, first, bs, siv, err)
			return
		}
		// blocks made by the reference decrypt as well
		var rc []byte
		for b := range in {
			rc = append(rc, k.Block(in[b], first+uint64(b), id, 3)...)
		}
		got, err = ce.DecryptBlocks(rc, first, id[:])
		if err != nil || !bytes.Equal(got, all) {
			t.Failf("%d reference blocks do not decrypt: %v", n, err)
		}
		// wrong position or file: refused
		if n > 0 {
			if got, err = ce.DecryptBlocks(append([]byte(nil), out...), first+1, id[:]); err == nil {
				t.Failf("blocks decrypt at the wrong position")
			}
			id2 := ref.ID(i + 1)
			if got, err = ce.DecryptBlocks(append([]byte(nil), out...), first, id2[:]); err == nil {
				t.Failf("blocks decrypt in the wrong file")
			}
		}
		t.State(n, v, first)
	}
	if siv && n == 1 {
		nonce := ref.Content(16, 77)
		c := ce.EncryptBlockNonce([]byte("abc"), 3, id[:], nonce)
		if p, ok := k.OpenBlock(c, 3, id); !ok || string(p) != "abc" || !bytes.Equal(c[:16], nonce) {
			t.Failf("EncryptBlockNonce does not produce the block for the given nonce")
		}
	}
	if v == 0 && n >= 1 && n <= 33 { // 96-bit nonces, single block of n bytes, no file id
		c96 := enc(4096, false, 96)
		pl := ref.Content(n, 1)
		c := c96.EncryptBlock(pl, 0, nil)
		if len(c) != n+28 {
			t.Failf("96-bit block of %d bytes has %d", n, len(c))
		}
		if p, err := c96.DecryptBlock(append([]byte(nil), c...), 0, nil); err != nil || !bytes.Equal(p, pl) {
			t.Failf("96-bit block does not round-trip: %v", err)
		}
	}
	t.Sample("%d blocks of %d bytes, last %d, siv %v", n, bs, last, siv)
}

// numCase: a block sealed for one number and file is refused under every number and file ID that
// differs in one bit, and accepted under its own
func numCase(i int, t *e2.T) {
	siv := i%2 == 1
	k, ce := ref.NewKeys(master, true, true, siv), enc(4096, siv, 128)
	no := []uint64{0, 1, 1<<64 - 1, 1 << 32, 0xaaaaaaaaaaaaaaaa, 65537}[i/2]
	id := ref.ID(i)
	for _, l := range []int{1, 4096} {
		p := ref.Content(l, i)
		for r, c := range [][]byte{k.Block(p, no, id, 3), ce.EncryptBlocks([][]byte{p}, no, id[:])} {
			try := func(no uint64, id [16]byte) ([]byte, error) {
				t.Step()
				return ce.DecryptBlocks(append([]byte(nil), c...), no, id[:])
			}
			if got, err := try(no, id); err != nil || !bytes.Equal(got, p) {
				t.Failf("block %d of %d bytes (siv %v, made by %d) does not decrypt: %v", no, l, siv, r, err)
				return
			}
			for b := 0; b < 64; b++ {
				if _, err := try(no^1<<uint(b), id); err == nil {
					t.Failf("block %d (siv %v) decrypts as block %d", no, siv, no^1<<uint(b))
					return
				}
			}
			for b := 0; b < 128; b++ {
				x := id
				x[b/8] ^= 1 << uint(b%8)
				if _, err := try(no, x); err == nil {
					t.Failf("block %d (siv %v) decrypts under a file ID that differs in bit %d", no, siv, b)
					return
				}
			}
			t.State(no, siv, l, r)
		}
	}
}

func main() {
	numbers := e2.Group{Name: "numbers", Bounds: "6 block numbers, GCM and SIV: the block opens under its own number and file ID and under none of the 64 + 128 that differ in one bit", N: func(string) int { return 12 }, Run: numCase}
	e2.Main([]e2.Check{{
		Prop:   "C02",
		Groups: []e2.Group{numbers},
	}, {
		Prop: "C24",
		Groups: []e2.Group{
			{Name: "ranges", Bounds: "block sizes 16, 32, 64 with every offset and length up to 4 blocks, 4096 with every combination of block-boundary offsets and lengths up to 34 blocks, offsets up to 2^40", N: func(t string) int { return len(ranges(t)) }, Run: func(i int, t *e2.T) { plainRange(ranges(t.Tier)[i], t) }},
			{Name: "sizes", Bounds: "every size up to 6 blocks (3 for 4096), and around 2^31, 2^32, 2^40", N: func(string) int { return 4 * len(sizes) }, Run: sizeCase},
			{Name: "merge", Bounds: "every old length, new length and offset for block size 32; boundary lengths for 4096", N: func(string) int { return 33 + 9 }, Run: mergeCase},
			{Name: "roundtrip", Bounds: "0-40 blocks of 32 bytes and 1-64 blocks of 4096 bytes, last block short or full, GCM and SIV, first block number 0, 1, 7, 2^32", N: func(string) int { return 48 * 6 }, Run: rtCase},
			numbers,
		},
	}})
	_ = fmt.Sprint
}
