// pkg: storage
// with: storage
package storage

import (
	"crypto/sha1"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"testing"

	"github.com/browles/drip/api/metainfo"
)

func TestVerifS05(t *testing.T) {
	rng := rand.New(rand.NewSource(6))
	dir := t.TempDir()
	junk := []string{"-1.piece", "+0.piece", "00.piece", "01.piece", " 0.piece", "0.piecex", "0.piece.bak", "1.piece~", "x.piece", "0", "piece", ".piece", "99999.piece", "9223372036854775808.piece", "0x0.piece", "0.PIECE"}
	for round := 0; round < 400; round++ {
		v := vMake(rng, dir, round)
		os.MkdirAll(v.workDir(), 0o700)
		what := v.desc
		has := map[int]bool{}
		full := rng.Intn(5) == 0
		for i := range v.info.Pieces {
			if full || rng.Intn(2) == 0 {
				has[i] = true
				os.WriteFile(v.pieceFile(i), v.piece(i), 0o600)
			} else if rng.Intn(5) == 0 {
				os.Mkdir(v.pieceFile(i), 0o700)
			}
		}
		var extra []string
		for rng.Intn(3) > 0 {
			j := junk[rng.Intn(len(junk))]
			if rng.Intn(4) == 0 {
				j = fmt.Sprintf("%d.piece", len(v.info.Pieces)+rng.Intn(3))
			}
			extra = append(extra, j)
			os.WriteFile(filepath.Join(v.workDir(), j), v.piece(0), 0o600)
		}
		finished := rng.Intn(6) == 0
		if finished {
			if len(v.info.Files) == 0 {
				os.WriteFile(filepath.Join(v.target, v.info.Name), v.content, 0o600)
			} else {
				o := 0
				for _, f := range v.info.Files {
					p := filepath.Join(append([]string{v.target, v.info.Name}, f.Path...)...)
					os.MkdirAll(filepath.Dir(p), 0o700)
					os.WriteFile(p, v.content[o:o+int(f.Length)], 0o600)
					o += int(f.Length)
				}
			}
		}
		if !finished && len(has) == 0 && rng.Intn(2) == 0 && len(extra) == 0 {
			os.Remove(v.workDir())
		}
		what = fmt.Sprintf("%s: Load with pieces %v, foreign files %q, finished download %v", v.desc, has, extra, finished)
		func() {
			defer vGuard(t, &what)
			s := v.store()
			if err := s.Load(); err != nil {
				t.Fatalf("FAILING-INPUT %s gives %v", what, err)
			}
			all := true
			for i := -9; i < 8*len(s.Torrent.Bitfield)+9; i++ {
				want := i >= 0 && i < len(v.info.Pieces) && (finished || has[i])
				if s.Torrent.Bitfield.Has(i) != want {
					t.Fatalf("FAILING-INPUT %s: bit %d is %v", what, i, !want)
				}
				if i < 0 || i >= len(v.info.Pieces) {
					continue
				}
				all = all && want
				d, err := s.GetBlock(i, 0, v.plen(i))
				if want && (err != nil || string(d) != string(v.piece(i))) {
					t.Fatalf("FAILING-INPUT %s: piece %d is not served (%v)", what, i, err)
				}
				if !want && err == nil {
					t.Fatalf("FAILING-INPUT %s: piece %d is served", what, i)
				}
				if want {
					if err, ok := vWait(s.Torrent.pieces[i].Wait); err != nil || !ok {
						t.Fatalf("FAILING-INPUT %s: waiting for piece %d gives %v, %v", what, i, err, ok)
					}
				}
			}
			// the download can be finished from here
			for i := range v.info.Pieces {
				if finished || has[i] {
					continue
				}
				for k := 0; k < v.nblocks(i); k++ {
					if fi, err := os.Stat(v.pieceFile(i)); err == nil && fi.IsDir() {
						os.Remove(v.pieceFile(i))
					}
					if err := s.PutBlock(i, k*16384, v.block(i, k)); err != nil {
						t.Fatalf("FAILING-INPUT %s: then block %d of piece %d is refused: %v", what, k, i, err)
					}
				}
			}
			if err, ok := vWait(s.Torrent.Wait); err != nil || !ok {
				t.Fatalf("FAILING-INPUT %s: all pieces are there (on disk: %v) but Wait gives %v, %v", what, all, err, ok)
			}
			for i := range v.info.Pieces {
				if d, err := s.GetBlock(i, 0, v.plen(i)); err != nil || string(d) != string(v.piece(i)) {
					t.Fatalf("FAILING-INPUT %s: piece %d of the finished download reads wrong (%v)", what, i, err)
				}
			}
		}()
	}
}

// many small pieces
func TestVerifS05Many(t *testing.T) {
	rng := rand.New(rand.NewSource(9))
	for round := 0; round < 6; round++ {
		n := []int{130, 257, 1025, 1300, 99, 70}[round]
		content := make([]byte, n*4)
		rng.Read(content)
		info := &metainfo.Info{PieceLength: 4, Name: "many", Length: int64(len(content))}
		for i := 0; i < n; i++ {
			info.Pieces = append(info.Pieces, sha1.Sum(content[4*i:4*i+4]))
		}
		target, work := t.TempDir(), t.TempDir()
		wd := filepath.Join(work, fmt.Sprintf("%x", info.SHA1))
		os.Mkdir(wd, 0o700)
		has := map[int]bool{}
		for i := 0; i < n; i++ {
			if rng.Intn(3) > 0 {
				has[i] = true
				os.WriteFile(filepath.Join(wd, fmt.Sprintf("%d.piece", i)), content[4*i:4*i+4], 0o600)
			}
		}
		s := New(target, work, info)
		if err := s.Load(); err != nil {
			t.Fatalf("FAILING-INPUT %d of %d pieces on disk: Load gives %v", len(has), n, err)
		}
		for i := 0; i < n; i++ {
			if s.Torrent.Bitfield.Has(i) != has[i] {
				t.Fatalf("FAILING-INPUT %d of %d pieces on disk: piece %d on disk: %v, complete: %v", len(has), n, i, has[i], s.Torrent.Bitfield.Has(i))
			}
		}
		for i := 0; i < n; i++ {
			if !has[i] {
				if err := s.PutBlock(i, 0, content[4*i:4*i+4]); err != nil {
					t.Fatalf("FAILING-INPUT %d of %d pieces on disk: then PutBlock(%d, 0) gives %v", len(has), n, i, err)
				}
			}
		}
		if c, err := os.ReadFile(filepath.Join(target, "many")); err != nil || string(c) != string(content) {
			t.Fatalf("FAILING-INPUT %d of %d pieces on disk, then the others arrive: the download is not the content (%v)", len(has), n, err)
		}
	}
}
