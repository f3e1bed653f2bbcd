// pkg: storage
// with: storage
package storage

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"testing"

	"github.com/browles/drip/api/metainfo"
)

func TestVerifS03(t *testing.T) {
	rng := rand.New(rand.NewSource(4))
	dir := t.TempDir()
	for round := 0; round < 250; round++ {
		v := vMake(rng, dir, round)
		s := v.store()
		what := v.desc
		done := map[int]bool{}
		read := func() {
			i := rng.Intn(len(v.info.Pieces))
			begin := rng.Intn(v.plen(i) + 1)
			length := rng.Intn(v.plen(i) - begin + 1)
			in := true
			switch rng.Intn(8) {
			case 0:
				length = v.plen(i) - begin
			case 1:
				i = []int{-1, len(v.info.Pieces), -1 << 63}[rng.Intn(3)]
				in = false
			case 2:
				length = v.plen(i) - begin + 1 + rng.Intn(20000)
				in = false
			case 3:
				begin = []int{-1, -16384, 1<<63 - 1, -1 << 63}[rng.Intn(4)]
				in = false
			case 4:
				length = []int{-1, -16384, 1<<63 - 1, -1 << 63}[rng.Intn(4)]
				in = false
			}
			what = fmt.Sprintf("%s, complete pieces %v: GetBlock(%d, %d, %d)", v.desc, done, i, begin, length)
			d, err := s.GetBlock(i, begin, length)
			if !in || !done[i] {
				if err == nil {
					t.Fatalf("FAILING-INPUT %s gives %d bytes", what, len(d))
				}
				return
			}
			if err != nil {
				t.Fatalf("FAILING-INPUT %s gives the error %v", what, err)
			}
			if string(d) != string(v.piece(i)[begin:begin+length]) {
				t.Fatalf("FAILING-INPUT %s gives other bytes than the torrent's", what)
			}
		}
		func() {
			defer vGuard(t, &what)
			for _, i := range rng.Perm(len(v.info.Pieces)) {
				for _, k := range rng.Perm(v.nblocks(i)) {
					what = fmt.Sprintf("%s: PutBlock(%d, %d)", v.desc, i, k*16384)
					if err := s.PutBlock(i, k*16384, v.block(i, k)); err != nil {
						t.Fatalf("FAILING-INPUT %s gives %v", what, err)
					}
				}
				done[i] = true
				for n := 0; n < 6; n++ {
					read()
				}
			}
			if err, ok := vWait(s.Torrent.Wait); err != nil || !ok {
				t.Fatalf("FAILING-INPUT %s: all pieces are there but Wait gives %v, %v", v.desc, err, ok)
			}
			for n := 0; n < 40; n++ {
				read()
			}
			if len(v.info.Files) == 0 {
				if got, err := os.ReadFile(filepath.Join(v.target, v.info.Name)); err != nil || string(got) != string(v.content) {
					t.Fatalf("FAILING-INPUT %s: the download is not the content (%v)", v.desc, err)
				}
			}
			o := 0
			for _, f := range v.info.Files {
				got, err := os.ReadFile(filepath.Join(append([]string{v.target, v.info.Name}, f.Path...)...))
				if err != nil || string(got) != string(v.content[o:o+int(f.Length)]) {
					t.Fatalf("FAILING-INPUT %s: file %v is not its part of the content (%v)", v.desc, f.Path, err)
				}
				o += int(f.Length)
			}
		}()
	}
}

// large finished downloads, as sparse files
func TestVerifS03Large(t *testing.T) {
	rng := rand.New(rand.NewSource(8))
	for round, total := range []int64{1<<31 + 12345, 1<<32 + 54321, 5 << 30, 1<<33 + 7} {
		for multi := 0; multi < 2; multi++ {
			dir := t.TempDir()
			pl := 1 << (24 + rng.Intn(5))
			info := &metainfo.Info{PieceLength: pl, Name: "big", Pieces: make(metainfo.Pieces, (total+int64(pl)-1)/int64(pl))}
			var lens []int64
			var paths []string
			if multi == 0 {
				info.Length = total
				lens, paths = []int64{total}, []string{filepath.Join(dir, "big")}
			} else {
				os.Mkdir(filepath.Join(dir, "big"), 0o700)
				left := total
				for k := 0; k < 3; k++ {
					l := left
					if k < 2 {
						l = rng.Int63n(left)
					}
					lens, paths = append(lens, l), append(paths, filepath.Join(dir, "big", fmt.Sprint(k)))
					info.Files = append(info.Files, &metainfo.File{Length: l, Path: []string{fmt.Sprint(k)}})
					left -= l
				}
			}
			var fs []*os.File
			for k, p := range paths {
				f, err := os.Create(p)
				if err != nil {
					t.Skip(err)
				}
				defer f.Close()
				f.Truncate(lens[k])
				fs = append(fs, f)
			}
			s := New(dir, t.TempDir(), info)
			what := fmt.Sprintf("finished download of %d bytes in files of %v", total, lens)
			func() {
				defer vGuard(t, &what)
				if err := s.Load(); err != nil {
					t.Fatalf("FAILING-INPUT %s: Load gives %v", what, err)
				}
				for n := 0; n < 30; n++ {
					at := rng.Int63n(total - 20)
					if n%3 == 0 {
						at = total - 20 - rng.Int63n(1<<20)
					}
					i := int(at / int64(pl))
					begin := int(at % int64(pl))
					if begin+20 > pl {
						continue
					}
					want := make([]byte, 20)
					rng.Read(want)
					for j := range want {
						pos := at + int64(j)
						for k := range lens {
							if pos < lens[k] {
								fs[k].WriteAt(want[j:j+1], pos)
								break
							}
							pos -= lens[k]
						}
					}
					if d, err := s.GetBlock(i, begin, 20); err != nil || string(d) != string(want) {
						t.Fatalf("FAILING-INPUT %s: GetBlock(%d, %d, 20) with pieces of %d gives %x, %v instead of %x", what, i, begin, pl, d, err, want)
					}
				}
			}()
			_ = round
		}
	}
}
