//go:build verifnative

package verifrt

import (
	"crypto/sha256"
	"math/big"
	"strings"
)

func init() {
	sha256.VerifHook = func(sum []byte, caller string) {
		if !strings.Contains(caller, "msc-poc") {
			return
		}
		if st.script {
			script(sum)
		}
		if st.recHash {
			st.hashes = append(st.hashes, new(big.Int).SetBytes(sum))
		}
	}
}

// script replaces the sum by the one the replay wants in this place. The hash
// stays a function: an input seen before keeps its output.
func script(sum []byte) {
	i := st.nhash
	st.nhash++
	key := string(sum)
	out, ok := st.table[key]
	if !ok {
		b := []byte(key)
		if (st.attempt < 2 || st.attempt%8 == 0) && i < len(st.r.Hashes) && len(st.r.Hashes[i]) == 2*len(b) {
			for j := range b {
				if d := st.r.Hashes[i][2*j : 2*j+2]; d != "??" {
					v, _ := new(big.Int).SetString(d, 16)
					b[j] = byte(v.Int64())
				}
			}
		}
		out = string(b)
		st.table[key] = out
	}
	copy(sum, out)
}
