package main

import (
	"fmt"
	"strings"

	"verif/e2"
	"verif/ref"
)

// plainNames lists plaintext names that code might be tempted to treat specially.
func plainNames() []string {
	l := []string{
		"gocryptfs.conf", "gocryptfs.diriv", "gocryptfs.longname.abc", "gocryptfs.longname.abc.name", "gocryptfs.", "gocryptfs",
		"gocryptfs.conf.bak", "gocryptfs.notes.txt", ".gocryptfs.reverse.conf", ".gocryptfs", "GOCRYPTFS.CONF", "x.gocryptfs.diriv",
		"...", ".. ", " ..", "..a", "a..", ".a", "a.", ". .", "....", "~", "~root", "-", "-rf", "--", "*", "?", "[a]", "{a,b}", "$HOME", "%2e%2e", "%s%d%n", "%",
		"\\", "\\..\\", "a\\b", ":", "C:", "a:b", "a\nb", "\n", "\t", "\r\n", "a b", " ", "  ", " a", "a ", "\x7f", "\x01", "\x1b[0m",
		"\xff", "\xff\xfe", "a\xc3", "\xc3\xa9", "e\xcc\x81", "\u202etxt", "\ufeff", "日本語", "🙂", "con", "nul", "aux", "lost+found", ".ssh", ".hidden", "Thumbs.db", ".DS_Store",
		"a", "A", "aa", "ab", "Ab", "aB", "b", "file", "FILE", "File", "file~", "file.tmp", ".file.swp", "file.part", "file.name", ".name", "x.name", "core", "null", "0", "00", "-1", "true", "",
		"AAAAAAAAAAAAAAAAAAAAAA", "AAAAAAAAAAAAAAAAAAAAAA==", "c2l4dGVlbiBieXRlcyE",
	}
	for c := 1; c < 256; c++ {
		if c != '/' && c != '.' {
			l = append(l, string([]byte{byte(c)}), "x"+string([]byte{byte(c)})+"y")
		}
	}
	for n := 1; n <= 175; n++ {
		l = append(l, strings.Repeat("n", n), strings.Repeat(".", n+2), strings.Repeat("\x10", n))
	}
	seen := map[string]bool{"": true}
	var out []string
	for _, s := range l {
		if !seen[s] {
			seen[s] = true
			out = append(out, s)
		}
	}
	return out
}

const nameChunk = 40

func nameCases() int { return (len(plainNames()) + nameChunk - 1) / nameChunk * 2 }

// specialNames: files and directories under special names are listed, found and read like any other
func specialNames(i int, t *e2.T) {
	l := plainNames()
	asDir := i%2 == 1
	l = l[i/2*nameChunk:]
	if len(l) > nameChunk {
		l = l[:nameChunk]
	}
	v := build(keys(i%8), ref.Spec{"/plain/base file": []byte("x")})
	for j, s := range l {
		where := v.FS.Top
		if j%3 == 0 {
			where = v.Resolve("/plain")
		}
		if asDir {
			d := v.Sub(where, s)
			v.AddFile(d, s, []byte(s))
			v.AddFile(d, "second file", []byte(fmt.Sprint(j)))
		} else {
			v.AddFile(where, s, []byte("content of "+s))
		}
		t.State(i, s)
	}
	ft := open(t, v, 1+i%3)
	if ft == nil {
		return
	}
	h := fmt.Sprintf("names %q...: ", l[0])
	if !agree(t, ft, v, h) {
		return
	}
	agree(t, ft, v, h+"second pass: ")
	t.Sample("%d special names as files=%v, starting with %q", len(l), !asDir, l[0])
}

var specialGroup = e2.Group{Name: "special names", Bounds: "all one-byte names, each byte inside a name, all lengths to 175 of three kinds and 110 names that look special, as files and as directories, in the root and below", N: n(nameCases()), Run: specialNames}
