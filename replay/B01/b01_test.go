// pkg: bitfield
package bitfield

import (
	"fmt"
	"math/rand"
	"testing"
)

// recovers a panic of the code under test into a failing input
func vGuard(t *testing.T, what string) {
	if r := recover(); r != nil {
		t.Fatalf("FAILING-INPUT %s panics: %v", what, r)
	}
}

func vMember(b []byte, i int) bool {
	return i >= 0 && i < 8*len(b) && b[i/8]>>(7-uint(i%8))&1 == 1
}

func TestVerifB01(t *testing.T) {
	rng := rand.New(rand.NewSource(1))
	for n := 0; n < 300; n++ {
		func() {
			defer vGuard(t, fmt.Sprintf("New(%d)", n))
			b := New(n)
			if len(b) != (n+7)/8 {
				t.Fatalf("FAILING-INPUT New(%d) has %d bytes", n, len(b))
			}
			for _, x := range b {
				if x != 0 {
					t.Fatalf("FAILING-INPUT New(%d) is not empty", n)
				}
			}
		}()
	}
	for round := 0; round < 20000; round++ {
		l := rng.Intn(12)
		if round%50 == 0 {
			l = rng.Intn(300)
		}
		b := make([]byte, l)
		switch rng.Intn(4) {
		case 0:
			rng.Read(b)
		case 1:
			for i := range b {
				b[i] = 0xff
			}
		case 2:
			if l > 0 {
				b[rng.Intn(l)] = 1 << rng.Intn(8)
			}
		}
		a := make([]byte, rng.Intn(14))
		if round%50 == 0 {
			a = make([]byte, rng.Intn(300))
		}
		rng.Read(a)
		orig, aorig := string(b), string(a)
		func() {
			defer vGuard(t, fmt.Sprintf("bitfield %x (other operand %x)", b, a))
			for _, i := range append([]int{-1, -9, -100, 8 * l, 8*l + 1, 8*l + 7, 8*l + 8, 1 << 40, -1 << 60}, rng.Perm(8*l+20)...) {
				if got := Bitfield(b).Has(i); got != vMember(b, i) {
					t.Fatalf("FAILING-INPUT Bitfield(%x).Has(%d) = %v", b, i, got)
				}
			}
			items := Bitfield(b).Items()
			var want []int
			for i := 0; i < 8*l; i++ {
				if vMember(b, i) {
					want = append(want, i)
				}
			}
			if fmt.Sprint(items) != fmt.Sprint(want) {
				t.Fatalf("FAILING-INPUT Bitfield(%x).Items() = %v", b, items)
			}
			d := Bitfield(b).Difference(a)
			for i := 0; i < 8*(len(d)+l)+8; i++ {
				if vMember(d, i) != (vMember(b, i) && !vMember(a, i)) {
					t.Fatalf("FAILING-INPUT Bitfield(%x).Difference(%x) = %x", b, a, []byte(d))
				}
			}
			if string(b) != orig || string(a) != aorig {
				t.Fatalf("FAILING-INPUT an operand changed: %x, %x became %x, %x", orig, aorig, b, a)
			}
			if len(d) > 0 {
				for i := range d {
					d[i] ^= 0xff
				}
				if string(b) != orig || string(a) != aorig {
					t.Fatalf("FAILING-INPUT Difference of %x and %x shares memory with an operand", orig, aorig)
				}
			}
			if l > 0 {
				i := rng.Intn(8 * l)
				Bitfield(b).Add(i)
				for k := 0; k < 8*l; k++ {
					if vMember(b, k) != (k == i || vMember([]byte(orig), k)) {
						t.Fatalf("FAILING-INPUT Bitfield(%x).Add(%d) = %x", orig, i, b)
					}
				}
			}
		}()
	}
}
