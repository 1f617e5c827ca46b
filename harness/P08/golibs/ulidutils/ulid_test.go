package ulidutils

import (
	"math/big"
	"math/rand"
	"os"
	"strconv"
	"testing"

	"github.com/oklog/ulid/v2"
)

// Search for an identifier whose successor or predecessor is wrong.
func TestVerifP08(t *testing.T) {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	rnd := rand.New(rand.NewSource(seed + 8))
	mod := new(big.Int).Lsh(big.NewInt(1), 128)
	one := big.NewInt(1)
	mk := func(v *big.Int) string {
		var u ulid.ULID
		new(big.Int).Mod(v, mod).FillBytes(u[:])
		return u.String()
	}
	try := func(v *big.Int) {
		s := mk(v)
		func() {
			defer func() {
				if e := recover(); e != nil {
					t.Fatalf("COUNTEREXAMPLE: NextID/PrevID(%q) panics: %v", s, e)
				}
			}()
			if got, want := NextID(s), mk(new(big.Int).Add(v, one)); got != want {
				t.Fatalf("COUNTEREXAMPLE: NextID(%q) = %q, want %q", s, got, want)
			}
			if got, want := PrevID(s), mk(new(big.Int).Sub(v, one)); got != want {
				t.Fatalf("COUNTEREXAMPLE: PrevID(%q) = %q, want %q", s, got, want)
			}
		}()
	}
	n := 0
	for k := uint(0); k < 128; k++ {
		p := new(big.Int).Lsh(one, k)
		for d := int64(-2); d <= 2; d++ {
			try(new(big.Int).Mod(new(big.Int).Add(p, big.NewInt(d)), mod))
			n++
		}
	}
	for i := 0; i < 60000; i++ {
		var b [16]byte
		rnd.Read(b[:])
		// runs of 0x00 and 0xff exercise carries
		for j := rnd.Intn(17); j < 16; j++ {
			b[j] = byte(0 - byte(i&1))
			if rnd.Intn(12) == 0 {
				b[j] = byte([]int{0, 1, 127, 128, 254, 255}[rnd.Intn(6)])
			}
		}
		try(new(big.Int).SetBytes(b[:]))
		n++
	}
	for _, s := range []string{"", "invalid", "01H", "01HQ8PQTJ27D6G3K4KFE0EGB9", "01HQ8PQTJ27D6G3K4KFE0EGB9AA", "8ZZZZZZZZZZZZZZZZZZZZZZZZZ"} {
		for _, f := range []func(string) string{NextID, PrevID} {
			func() {
				defer func() { recover() }()
				r := f(s)
				t.Errorf("COUNTEREXAMPLE: malformed identifier %q is accepted, result %q", s, r)
			}()
		}
	}
	t.Logf("tried %d identifiers", n)
}
