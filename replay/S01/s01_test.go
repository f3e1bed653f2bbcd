// pkg: storage
// with: storage
package storage

import (
	"errors"
	"fmt"
	"math/rand"
	"os"
	"testing"
)

func TestVerifS01(t *testing.T) {
	rng := rand.New(rand.NewSource(1))
	dir := t.TempDir()
	for round := 0; round < 300; round++ {
		v := vMake(rng, dir, round)
		s := v.store()
		have := map[[2]int]bool{}
		count := map[int]int{}
		clean := map[int]bool{}
		done := map[int]bool{}
		what := v.desc
		func() {
			defer vGuard(t, &what)
			for op := 0; op < 60; op++ {
				i := rng.Intn(len(v.info.Pieces))
				begin := 16384 * rng.Intn(v.nblocks(i))
				length := min(16384, v.plen(i)-begin)
				good := true
				switch rng.Intn(12) {
				case 0:
					i = []int{-1, -7, len(v.info.Pieces), len(v.info.Pieces) + 8, 1 << 40, -1 << 63}[rng.Intn(6)]
				case 1:
					begin += []int{1, -1, 8192, -16384, 16383}[rng.Intn(5)]
				case 2:
					begin = []int{v.plen(i), 16384 * v.nblocks(i), 16384 * (v.nblocks(i) + 1), -16384, 1 << 40, -1 << 63, 1<<63 - 1, 1<<63 - 16384}[rng.Intn(8)]
				case 3:
					length += []int{1, -1, -length, 16384}[rng.Intn(4)]
				case 4:
					length = 16384
				}
				if i < 0 || i >= len(v.info.Pieces) || begin < 0 || begin%16384 != 0 || begin >= v.plen(i) || length != min(16384, v.plen(i)-begin) {
					good = false
				}
				data := make([]byte, length)
				var tree string
				if !good {
					rng.Read(data)
					tree = vTree(v.work)
				} else {
					copy(data, v.block(i, begin/16384))
					if rng.Intn(20) == 0 {
						data[0]++
					}
				}
				what = fmt.Sprintf("%s: PutBlock(%d, %d, %d bytes), the store holding %v", v.desc, i, begin, length, have)
				bits := string(s.Torrent.Bitfield)
				err := s.PutBlock(i, begin, data)
				if !good {
					if err == nil {
						t.Fatalf("FAILING-INPUT %s is accepted", what)
					}
					if string(s.Torrent.Bitfield) != bits || vTree(v.work) != tree {
						t.Fatalf("FAILING-INPUT %s is refused (%v) but changes the store", what, err)
					}
					continue
				}
				k := begin / 16384
				if have[[2]int{i, k}] || done[i] {
					if !errors.Is(err, ErrBlockExists) {
						t.Fatalf("FAILING-INPUT %s, a block already present, gives %v", what, err)
					}
					continue
				}
				have[[2]int{i, k}] = true
				if count[i] == 0 {
					clean[i] = true
				}
				if string(data) != string(v.block(i, k)) {
					clean[i] = false
				}
				count[i]++
				var cse *ChecksumError
				switch {
				case count[i] < v.nblocks(i) || clean[i]:
					if err != nil {
						t.Fatalf("FAILING-INPUT %s is refused: %v", what, err)
					}
					if count[i] == v.nblocks(i) {
						done[i] = true
						if !s.Torrent.Bitfield.Has(i) {
							t.Fatalf("FAILING-INPUT %s completes the piece but its bit is not set", what)
						}
						if got, _ := os.ReadFile(v.pieceFile(i)); len(done) < len(v.info.Pieces) && string(got) != string(v.piece(i)) {
							t.Fatalf("FAILING-INPUT %s: the piece is not stored as received", what)
						}
					}
				default:
					if !errors.As(err, &cse) {
						t.Fatalf("FAILING-INPUT %s, the last block of a corrupt piece, gives %v", what, err)
					}
					if rng.Intn(2) == 0 { // still full: every block is refused
						if err := s.PutBlock(i, begin, data); !errors.Is(err, ErrBlockExists) {
							t.Fatalf("FAILING-INPUT %s a second time gives %v", what, err)
						}
					}
					s.ResetPiece(i)
					count[i] = 0
					for k := 0; k < v.nblocks(i); k++ {
						delete(have, [2]int{i, k})
					}
				}
			}
		}()
	}
}
