package vsched

import (
	"fmt"
	"runtime"
	"sort"
)

// Nop replaces runtime.GC.
func Nop() {}

// NumCPU is what instrumented code sees as runtime.NumCPU.
func NumCPU() int {
	if x == nil {
		return runtime.NumCPU()
	}
	return 2
}

// GOMAXPROCS replaces runtime.GOMAXPROCS.
func GOMAXPROCS(n int) int {
	if x == nil {
		return runtime.GOMAXPROCS(n)
	}
	return 2
}

// Goexit replaces runtime.Goexit.
func Goexit() { runtime.Goexit() }

// Hint replaces the size hint of make(map).
func Hint(int) int { return 0 }

// SortedKeys makes map iteration deterministic.
func SortedKeys[M ~map[K]V, K comparable, V any](m M) []K {
	ks := make([]K, 0, len(m))
	ss := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
		ss = append(ss, fmt.Sprint(k))
	}
	sort.Sort(&byStr[K]{ks, ss})
	return ks
}

type byStr[K any] struct {
	k []K
	s []string
}

func (b *byStr[K]) Len() int           { return len(b.k) }
func (b *byStr[K]) Less(i, j int) bool { return b.s[i] < b.s[j] }
func (b *byStr[K]) Swap(i, j int) {
	b.k[i], b.k[j] = b.k[j], b.k[i]
	b.s[i], b.s[j] = b.s[j], b.s[i]
}

// ZeroK and ZeroV give zero values of a map's key and element type.
func ZeroK[M ~map[K]V, K comparable, V any](m M) (k K) { return }
func ZeroV[M ~map[K]V, K comparable, V any](m M) (v V) { return }
