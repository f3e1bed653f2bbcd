// pkg: api/metainfo
package metainfo

import (
	"bytes"
	"fmt"
	"math/rand"
	"testing"
)

func TestVerifM01(t *testing.T) {
	rng := rand.New(rand.NewSource(1))
	for k := 0; k < 20000; k++ {
		in := &Info{PieceLength: 1 + rng.Intn(100), Length: int64(rng.Intn(1000))}
		if rng.Intn(5) == 0 {
			in.PieceLength = 1 << (14 + rng.Intn(18))
			in.Length = rng.Int63n(1 << 40)
		}
		total := in.Length
		var lens []int64
		if rng.Intn(2) == 0 {
			total = 0
			for j := rng.Intn(5); j >= 0; j-- {
				n := rng.Int63n(1 + int64(rng.Intn(3))*int64(in.PieceLength))
				lens = append(lens, n)
				in.Files = append(in.Files, &File{Length: n})
				total += n
			}
		}
		n := int((total + int64(in.PieceLength) - 1) / int64(in.PieceLength))
		if n > 10000 {
			n = 10000
			if len(in.Files) > 0 {
				in.Files[0].Length -= total - int64(n)*int64(in.PieceLength) + 1
				lens[0] = in.Files[0].Length
			} else {
				in.Length = int64(n)*int64(in.PieceLength) - 1
			}
			total = int64(n)*int64(in.PieceLength) - 1
		}
		in.Pieces = make(Pieces, n)
		desc := fmt.Sprintf("info{piece length %d, %d pieces, length %d, file lengths %v}", in.PieceLength, n, in.Length, lens)
		func() {
			defer func() {
				if r := recover(); r != nil {
					t.Fatalf("FAILING-INPUT %s panics: %v", desc, r)
				}
			}()
			if got := in.GetLength(); got != total {
				t.Fatalf("FAILING-INPUT %s: GetLength() = %d, want %d", desc, got, total)
			}
			var sum int64
			for i := 0; i < n; i++ {
				l := in.GetPieceLength(i)
				if i < n-1 && l != in.PieceLength || i == n-1 && int64(l) != total-int64(i)*int64(in.PieceLength) {
					t.Fatalf("FAILING-INPUT %s: GetPieceLength(%d) = %d", desc, i, l)
				}
				sum += int64(l)
			}
			if n > 0 && sum != total {
				t.Fatalf("FAILING-INPUT %s: the pieces add up to %d", desc, sum)
			}
		}()
	}
	for k := 0; k < 3000; k++ {
		b := make([]byte, rng.Intn(130))
		if rng.Intn(2) == 0 {
			b = make([]byte, 20*rng.Intn(8))
		}
		if rng.Intn(50) == 0 {
			b = make([]byte, 20*rng.Intn(3000))
		}
		rng.Read(b)
		enc := append([]byte(fmt.Sprintf("%d:", len(b))), b...)
		func() {
			defer func() {
				if r := recover(); r != nil {
					t.Fatalf("FAILING-INPUT pieces string of %d bytes %.60x panics: %v", len(b), b, r)
				}
			}()
			var p Pieces
			err := p.UnmarshalBencoding(enc)
			if (err == nil) != (len(b)%20 == 0) {
				t.Fatalf("FAILING-INPUT pieces string of %d bytes: error %v", len(b), err)
			}
			if err != nil {
				return
			}
			if len(p)*20 != len(b) {
				t.Fatalf("FAILING-INPUT pieces string of %d bytes decodes to %d hashes", len(b), len(p))
			}
			for i := range p {
				if !bytes.Equal(p[i][:], b[20*i:20*i+20]) {
					t.Fatalf("FAILING-INPUT pieces string %.60x: hash %d is %x", b, i, p[i])
				}
			}
			out, err := p.MarshalBencoding()
			if err != nil || !bytes.Equal(out, enc) {
				t.Fatalf("FAILING-INPUT %d hashes %.60x encode to %d bytes %.60x (error %v)", len(p), b, len(out), out, err)
			}
		}()
	}
}
