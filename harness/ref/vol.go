// Package ref is an independent implementation of the gocryptfs on-disk format: it builds volumes
// in memory and knows their plaintext. It uses none of the code under test.
package ref

import (
	"crypto/aes"
	"crypto/cipher"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"io"
	"strings"

	"github.com/jacobsa/crypto/siv"
	"github.com/rfjakob/eme"
	"golang.org/x/crypto/hkdf"
	"golang.org/x/crypto/scrypt"
)

// BS is the plaintext block size, CBS the ciphertext block size, Hdr the header length.
const (
	BS  = 4096
	CBS = 4096 + 32
	Hdr = 18
)

// Keys holds the key material of a volume variant.
type Keys struct {
	Master  []byte
	HKDF    bool
	Raw64   bool
	SIV     bool
	Long    bool
	gcm     cipher.AEAD
	sivKey  []byte
	emeC    *eme.EMECipher
	B64     *base64.Encoding
	Variant string
}

func derive(key []byte, info string, n int) []byte {
	out := make([]byte, n)
	if _, err := io.ReadFull(hkdf.New(sha256.New, key, nil, []byte(info)), out); err != nil {
		panic(err)
	}
	return out
}

// NewKeys derives the keys of a volume variant.
func NewKeys(master []byte, useHKDF, raw64, sivMode bool) *Keys {
	k := &Keys{Master: append([]byte(nil), master...), HKDF: useHKDF, Raw64: raw64, SIV: sivMode, Long: true}
	emeKey, gcmKey := k.Master, k.Master
	sk := sha512.Sum512(k.Master)
	k.sivKey = sk[:]
	if useHKDF {
		emeKey = derive(master, "EME filename encryption", 32)
		gcmKey = derive(master, "AES-GCM file content encryption", 32)
		k.sivKey = derive(master, "AES-SIV file content encryption", 64)
		k.Variant += "hkdf,"
	}
	eb, err := aes.NewCipher(emeKey)
	if err != nil {
		panic(err)
	}
	k.emeC = eme.New(eb)
	gb, err := aes.NewCipher(gcmKey)
	if err != nil {
		panic(err)
	}
	if k.gcm, err = cipher.NewGCMWithNonceSize(gb, 16); err != nil {
		panic(err)
	}
	k.B64 = base64.URLEncoding
	if raw64 {
		k.B64 = base64.RawURLEncoding
		k.Variant += "raw64,"
	}
	if sivMode {
		k.Variant += "siv"
	} else {
		k.Variant += "gcm"
	}
	return k
}

// ConfOpt are the parameters of a config file.
type ConfOpt struct {
	Salt    []byte
	N, R, P int
	KeyLen  int
	Version int
	Flags   []string
	HKDF    bool
	Enc     []byte // replaces the encrypted key
}

// DefaultOpt gives the parameters Conf uses.
func (k *Keys) DefaultOpt() ConfOpt {
	salt := make([]byte, 32)
	for i := range salt {
		salt[i] = byte(i*7 + 1)
	}
	flags := []string{"GCMIV128", "DirIV", "EMENames"}
	if k.HKDF {
		flags = append(flags, "HKDF")
	}
	if k.Long {
		flags = append(flags, "LongNames")
	}
	if k.Raw64 {
		flags = append(flags, "Raw64")
	}
	if k.SIV {
		flags = append(flags, "AESSIV")
	}
	return ConfOpt{salt, 1024, 8, 1, 32, 2, flags, k.HKDF, nil}
}

// Wrap encrypts the master key under the password.
func (k *Keys) Wrap(password []byte, o ConfOpt) []byte {
	h, err := scrypt.Key(password, o.Salt, o.N, o.R, o.P, 32)
	if err != nil {
		panic(err)
	}
	g := wrapGCM(h, o.HKDF)
	nonce := make([]byte, g.NonceSize())
	for i := range nonce {
		nonce[i] = byte(0x40 + i)
	}
	return g.Seal(append([]byte(nil), nonce...), nonce, k.Master, make([]byte, 8))
}

func wrapGCM(h []byte, useHKDF bool) cipher.AEAD {
	ivLen := 12
	if useHKDF {
		h = derive(h, "AES-GCM file content encryption", 32)
		ivLen = 16
	}
	b, _ := aes.NewCipher(h)
	g, err := cipher.NewGCMWithNonceSize(b, ivLen)
	if err != nil {
		panic(err)
	}
	return g
}

// ConfWith builds a config file with the given parameters.
func (k *Keys) ConfWith(password string, o ConfOpt) []byte {
	enc := o.Enc
	if enc == nil {
		enc = k.Wrap([]byte(password), o)
	}
	js, err := json.MarshalIndent(map[string]interface{}{
		"Creator": "ref", "EncryptedKey": enc, "Version": o.Version, "FeatureFlags": o.Flags,
		"ScryptObject": map[string]interface{}{"Salt": o.Salt, "N": o.N, "R": o.R, "P": o.P, "KeyLen": o.KeyLen},
	}, "", "\t")
	if err != nil {
		panic(err)
	}
	return js
}

// Conf returns the gocryptfs.conf of the volume for the given password, with logN 10.
func (k *Keys) Conf(password string) []byte { return k.ConfWith(password, k.DefaultOpt()) }

// Unwrap reads a config file by the book and returns the master key.
func Unwrap(js, password []byte) ([]byte, bool) {
	var c struct {
		EncryptedKey []byte
		FeatureFlags []string
		ScryptObject struct {
			Salt            []byte
			N, R, P, KeyLen int
		}
	}
	if json.Unmarshal(js, &c) != nil {
		return nil, false
	}
	h, err := scrypt.Key(password, c.ScryptObject.Salt, c.ScryptObject.N, c.ScryptObject.R, c.ScryptObject.P, 32)
	if err != nil {
		return nil, false
	}
	hk := false
	for _, f := range c.FeatureFlags {
		hk = hk || f == "HKDF"
	}
	g := wrapGCM(h, hk)
	if len(c.EncryptedKey) < g.NonceSize() {
		return nil, false
	}
	m, err := g.Open(nil, c.EncryptedKey[:g.NonceSize()], c.EncryptedKey[g.NonceSize():], make([]byte, 8))
	return m, err == nil
}

// RawName encrypts exactly these bytes (padded by the caller) as a name.
func (k *Keys) RawName(padded, iv []byte) string {
	return k.B64.EncodeToString(k.emeC.Encrypt(iv, padded))
}

// Pad applies 16-byte PKCS#7 padding.
func Pad(b []byte) []byte {
	n := 16 - len(b)%16
	return append(append([]byte(nil), b...), []byte(strings.Repeat(string(rune(n)), n))...)
}

// Name encrypts a file name (without long-name hashing).
func (k *Keys) Name(name string, iv []byte) string { return k.RawName(Pad([]byte(name)), iv) }

// HashName is the long-name form of an encrypted name.
func (k *Keys) HashName(cname string) string {
	s := sha256.Sum256([]byte(cname))
	return "gocryptfs.longname." + k.B64.EncodeToString(s[:])
}

// DecName decrypts a name by the book: ok is false for anything gocryptfs would not accept.
func (k *Keys) DecName(cname string, iv []byte) (string, bool) {
	b, err := k.B64.DecodeString(cname)
	if err != nil || len(b) == 0 || len(b)%16 != 0 || len(b) > 256 {
		return "", false
	}
	p := k.emeC.Decrypt(iv, b)
	n := int(p[len(p)-1])
	if n < 1 || n > 16 || n > len(p) {
		return "", false
	}
	for _, c := range p[len(p)-n:] {
		if int(c) != n {
			return "", false
		}
	}
	s := string(p[:len(p)-n])
	if s == "" || s == "." || s == ".." || strings.ContainsAny(s, "\x00/") {
		return "", false
	}
	return s, true
}

// Header builds a file header.
func Header(id [16]byte) []byte { return append([]byte{0, 2}, id[:]...) }

func ad(no uint64, id [16]byte) []byte {
	b := make([]byte, 8, 24)
	binary.BigEndian.PutUint64(b, no)
	return append(b, id[:]...)
}

func nonceFor(no uint64, id [16]byte, salt byte) []byte {
	s := sha256.Sum256(append(ad(no, id), salt))
	return s[:16]
}

// Block encrypts one block.
func (k *Keys) Block(plain []byte, no uint64, id [16]byte, salt byte) []byte {
	nonce := nonceFor(no, id, salt)
	if k.SIV {
		out, err := siv.Encrypt(append([]byte(nil), nonce...), k.sivKey, plain, [][]byte{ad(no, id), nonce})
		if err != nil {
			panic(err)
		}
		return out
	}
	return k.gcm.Seal(append([]byte(nil), nonce...), nonce, plain, ad(no, id))
}

// OpenBlock decrypts one block by the book.
func (k *Keys) OpenBlock(c []byte, no uint64, id [16]byte) ([]byte, bool) {
	if len(c) < 32 {
		return nil, false
	}
	if k.SIV {
		p, err := siv.Decrypt(k.sivKey, c[16:], [][]byte{ad(no, id), c[:16]})
		return p, err == nil
	}
	p, err := k.gcm.Open(nil, c[:16], c[16:], ad(no, id))
	return p, err == nil
}

// ID makes a file id.
func ID(n int) (id [16]byte) {
	s := sha256.Sum256([]byte{byte(n), byte(n >> 8), 'i', 'd'})
	copy(id[:], s[:])
	return
}

// File encrypts a file. Blocks for which hole returns true are stored as all-zero blocks; their
// plaintext must be zero and full size.
func (k *Keys) File(plain []byte, id [16]byte, hole func(b int) bool) []byte {
	if len(plain) == 0 {
		return []byte{}
	}
	out := append(make([]byte, 0, Hdr+(len(plain)/BS+1)*CBS), Header(id)...)
	for b := 0; b*BS < len(plain); b++ {
		end := (b + 1) * BS
		if end > len(plain) {
			end = len(plain)
		}
		if hole != nil && hole(b) && end-b*BS == BS {
			out = append(out, make([]byte, CBS)...)
			continue
		}
		out = append(out, k.Block(plain[b*BS:end], uint64(b), id, 0)...)
	}
	return out
}

// CSize is the stored size of a file with n plaintext bytes.
func CSize(n int) int {
	if n == 0 {
		return 0
	}
	return Hdr + n + 32*((n+BS-1)/BS)
}

// Content makes n deterministic plaintext bytes that differ between blocks and files.
func Content(n, seed int) []byte {
	b := make([]byte, n)
	x := uint64(seed)*0x9e3779b97f4a7c15 + 1
	for i := range b {
		if i%8 == 0 {
			x ^= x << 13
			x ^= x >> 7
			x ^= x << 17
		}
		b[i] = byte(x >> (8 * uint(i%8)))
	}
	return b
}
