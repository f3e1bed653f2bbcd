// pkg: storage
// with: storage
package storage

import (
	"crypto/sha1"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"testing"

	"github.com/browles/drip/api/metainfo"
)

// Everything happens below a deep scratch directory; no name used here climbs out of it.
func TestVerifS04(t *testing.T) {
	rng := rand.New(rand.NewSource(5))
	names := []string{"..", "../x", "../../x", "a/../../x", "../secret", "a/../..", ".", "", "/", "/x", "a/b", "../work/secret", "../../secret", "./x", "x/", "x/.", "x//y", "..x", "x..", "...", "a", "b c", "tmp*x", ".hidden", `..\x`, `..\..\x`, `a\..\..\x`, "..\x00x", "%2e%2e%2fx", "..%2fx", "..\n", "~", "$HOME", "C:x"}
	safe := func(n string) bool { // names that are either refused or used as they are
		switch n {
		case `..\x`, `..\..\x`, `a\..\..\x`, "..\x00x", "%2e%2e%2fx", "..%2fx", "..\n", "~", "$HOME", "C:x":
			return true
		case "..x", "x..", "...", "a", "b c", "tmp*x", ".hidden", "f0", "f1", "f2":
			return true
		}
		return false
	}
	for round := 0; round < 1500; round++ {
		root := filepath.Join(t.TempDir(), fmt.Sprint(round))
		base := filepath.Join(root, "1/2/3/4/5/6")
		target, work := filepath.Join(base, "target"), filepath.Join(base, "work")
		os.MkdirAll(target, 0o700)
		os.MkdirAll(work, 0o700)
		secret := make([]byte, 100)
		rng.Read(secret)
		for _, d := range []string{base, work, filepath.Join(root, "1/2/3/4/5")} {
			os.WriteFile(filepath.Join(d, "secret"), secret, 0o600)
		}
		pick := func() string {
			if rng.Intn(3) > 0 {
				return []string{"..x", "x..", "...", "a", "b c", "tmp*x", ".hidden"}[rng.Intn(7)]
			}
			return names[rng.Intn(len(names))]
		}
		content := secret
		if rng.Intn(2) == 0 {
			content = []byte("other content of the torrent, long enough to be cut at the places where it is cut below, a hundred bytes")[:100]
		}
		info := &metainfo.Info{PieceLength: 16384, Name: pick(), Pieces: metainfo.Pieces{sha1.Sum(content)}}
		rng.Read(info.SHA1[:])
		ok := safe(info.Name)
		if rng.Intn(2) == 0 {
			info.Length = 100
		} else {
			for k := 0; k < 1+rng.Intn(3); k++ {
				f := &metainfo.File{Path: []string{}}
				for rng.Intn(8) > 0 && len(f.Path) < 3 {
					f.Path = append(f.Path, pick())
				}
				if len(f.Path) > 0 && rng.Intn(2) == 0 {
					f.Path[len(f.Path)-1] = fmt.Sprint("f", k)
				}
				if len(f.Path) == 0 {
					ok = false
				}
				for _, n := range f.Path {
					ok = ok && safe(n)
				}
				info.Files = append(info.Files, f)
			}
			info.Files[0].Length = 100
		}
		what := fmt.Sprintf("torrent name %q", info.Name)
		for _, f := range info.Files {
			what += fmt.Sprintf(" file %q", f.Path)
		}
		outside := func() string {
			var s string
			filepath.WalkDir(root, func(p string, d os.DirEntry, err error) error {
				if p == target || p == work {
					return filepath.SkipDir
				}
				s += p + "\n"
				if err == nil && !d.IsDir() {
					c, _ := os.ReadFile(p)
					s += string(c)
				}
				return nil
			})
			return s
		}
		before := outside()
		func() {
			defer vGuard(t, &what)
			s := New(target, work, info)
			lerr := s.Load()
			if !ok && lerr == nil {
				t.Fatalf("FAILING-INPUT %s: Load accepts it", what)
			}
			perr := s.PutBlock(0, 0, []byte(string(content)))
			d, gerr := s.GetBlock(0, 0, 100)
			s.ResetPiece(0)
			if !ok && perr == nil {
				t.Fatalf("FAILING-INPUT %s: PutBlock accepts a block", what)
			}
			if !ok && gerr == nil {
				t.Fatalf("FAILING-INPUT %s: GetBlock serves %x", what, d)
			}
			if outside() != before {
				t.Fatalf("FAILING-INPUT %s changes files outside the target and work directories", what)
			}
			if c, _ := os.ReadFile(filepath.Join(work, "secret")); string(c) != string(secret) {
				t.Fatalf("FAILING-INPUT %s changes a foreign file in the work directory", what)
			}
			if !ok && (vTree(target) != target+" true\n" || vTree(work) != work+" true\n"+filepath.Join(work, "secret")+fmt.Sprintf(" false %x\n", sha1.Sum(secret))) {
				t.Fatalf("FAILING-INPUT %s is refused but leaves files behind", what)
			}
		}()
	}
}
