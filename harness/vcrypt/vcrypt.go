// Package vcrypt memoises the (pure, slow) key derivation function in instrumented code.
package vcrypt

import (
	"fmt"
	"sync"

	"golang.org/x/crypto/scrypt"
)

var mu sync.Mutex
var memo = map[string][]byte{}

// ScryptKey is scrypt.Key, memoised.
func ScryptKey(password, salt []byte, N, r, p, keyLen int) ([]byte, error) {
	k := fmt.Sprintf("%x %x %d %d %d %d", password, salt, N, r, p, keyLen)
	mu.Lock()
	defer mu.Unlock()
	if v, ok := memo[k]; ok {
		return append([]byte(nil), v...), nil
	}
	v, err := scrypt.Key(password, salt, N, r, p, keyLen)
	if err == nil {
		memo[k] = append([]byte(nil), v...)
	}
	return v, err
}
