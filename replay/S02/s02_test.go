// pkg: storage
// with: storage
package storage

import (
	"crypto/sha1"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"sync"
	"testing"
)

func TestVerifS02(t *testing.T) {
	rng := rand.New(rand.NewSource(2))
	dir := t.TempDir()
	for round := 0; round < 250; round++ {
		v := vMake(rng, dir, round)
		s := v.store()
		what := v.desc
		done := 0
		func() {
			defer vGuard(t, &what)
			for _, i := range rng.Perm(len(v.info.Pieces)) {
				for try := 0; ; try++ {
					bad := -1
					if rng.Intn(3) == 0 && try < 3 {
						bad = rng.Intn(v.nblocks(i))
					}
					swap := bad >= 0 && v.nblocks(i) > 1 && rng.Intn(3) == 0 && v.plen(i)%16384 == 0 && v.nblocks(i) == 2
					piece := s.Torrent.pieces[i]
					res := make(chan error, 1)
					ready := make(chan bool)
					go func() { ready <- true; res <- piece.Wait() }()
					<-ready
					var last error
					for n, k := range rng.Perm(v.nblocks(i)) {
						data := v.block(i, k)
						if swap {
							data = v.block(i, 1-k)
						} else if k == bad {
							data[rng.Intn(len(data))]++
						}
						what = fmt.Sprintf("%s: block %d of piece %d (corrupt block: %d, swapped: %v)", v.desc, k, i, bad, swap)
						last = s.PutBlock(i, k*16384, data)
						if n < v.nblocks(i)-1 && (last != nil || s.Torrent.Bitfield.Has(i)) {
							t.Fatalf("FAILING-INPUT %s, not the last: error %v, bit %v", what, last, s.Torrent.Bitfield.Has(i))
						}
					}
					if bad < 0 {
						if last != nil || !s.Torrent.Bitfield.Has(i) {
							t.Fatalf("FAILING-INPUT %s, the last of a correct piece: error %v, bit %v", what, last, s.Torrent.Bitfield.Has(i))
						}
						done++
						if got, _ := os.ReadFile(v.pieceFile(i)); done < len(v.info.Pieces) && string(got) != string(v.piece(i)) {
							t.Fatalf("FAILING-INPUT %s: the stored piece has SHA-1 %x, not %x", what, sha1.Sum(got), v.info.Pieces[i])
						}
						if err, ok := vWait(func() error { return <-res }); err != nil || !ok {
							t.Fatalf("FAILING-INPUT %s, complete: Wait gives %v, %v", what, err, ok)
						}
						break
					}
					var cse *ChecksumError
					if !errors.As(last, &cse) || cse.Index != i {
						t.Fatalf("FAILING-INPUT %s, the last of a corrupt piece: error %v", what, last)
					}
					if s.Torrent.Bitfield.Has(i) {
						t.Fatalf("FAILING-INPUT %s: the bit of a corrupt piece is set", what)
					}
					if d, err := s.GetBlock(i, 0, 1); err == nil {
						t.Fatalf("FAILING-INPUT %s: a corrupt piece is served: %x", what, d)
					}
					err, ok := vWait(func() error { return <-res })
					if !ok || !errors.As(err, &cse) || cse.Index != i {
						t.Fatalf("FAILING-INPUT %s: Wait gives %v, %v", what, err, ok)
					}
					s.ResetPiece(i)
				}
			}
			for i := 0; i < len(v.info.Pieces); i++ {
				if d, err := s.GetBlock(i, 0, v.plen(i)); err != nil || string(d) != string(v.piece(i)) {
					t.Fatalf("FAILING-INPUT %s: piece %d reads back wrong: %v", v.desc, i, err)
				}
			}
		}()
	}
}

// blocks of one torrent arriving from several connections at once
func TestVerifS02Concurrent(t *testing.T) {
	rng := rand.New(rand.NewSource(3))
	dir := t.TempDir()
	for round := 0; round < 60; round++ {
		v := vMake(rng, dir, round)
		s := v.store()
		var wg sync.WaitGroup
		for g := 0; g < 4; g++ {
			order := rng.Perm(len(v.info.Pieces))
			wg.Add(1)
			go func() {
				defer wg.Done()
				for _, i := range order {
					for k := 0; k < v.nblocks(i); k++ {
						if err := s.PutBlock(i, k*16384, v.block(i, k)); err != nil && !errors.Is(err, ErrBlockExists) {
							t.Errorf("FAILING-INPUT %s, 4 writers: block %d of piece %d: %v", v.desc, k, i, err)
						}
					}
				}
			}()
		}
		if _, ok := vWait(func() error { wg.Wait(); return nil }); !ok {
			t.Fatalf("FAILING-INPUT %s: 4 writers block each other", v.desc)
		}
		for i := range v.info.Pieces {
			if d, err := s.GetBlock(i, 0, v.plen(i)); err != nil || string(d) != string(v.piece(i)) {
				t.Fatalf("FAILING-INPUT %s, 4 writers: piece %d reads back wrong: %v", v.desc, i, err)
			}
		}
	}
}

// a hash of the metainfo that differs from the data's in one place
func TestVerifS02NearHash(t *testing.T) {
	rng := rand.New(rand.NewSource(7))
	dir := t.TempDir()
	for round := 0; round < 160; round++ {
		v := vMake(rng, dir, round)
		i := rng.Intn(len(v.info.Pieces))
		at := round % 20
		v.info.Pieces[i][at] ^= 1 << rng.Intn(8)
		s := v.store()
		var last error
		for k := 0; k < v.nblocks(i); k++ {
			last = s.PutBlock(i, k*16384, v.block(i, k))
		}
		var cse *ChecksumError
		if !errors.As(last, &cse) || cse.Index != i || cse.Want != v.info.Pieces[i] || s.Torrent.Bitfield.Has(i) {
			t.Fatalf("FAILING-INPUT %s: the data of piece %d does not match the metainfo's hash at byte %d, yet: %v, bit %v", v.desc, i, at, last, s.Torrent.Bitfield.Has(i))
		}
	}
}
