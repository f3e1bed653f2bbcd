package storage

import (
	"bytes"
	"crypto/sha1"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"testing"
	"time"

	"github.com/browles/drip/api/metainfo"
)

func vGuard(t *testing.T, what *string) {
	if r := recover(); r != nil {
		t.Fatalf("FAILING-INPUT %s panics: %v", *what, r)
	}
}

type vTorrent struct {
	info    *metainfo.Info
	content []byte
	target  string
	work    string
	desc    string
}

func (v *vTorrent) plen(i int) int {
	return min(v.info.PieceLength, len(v.content)-i*v.info.PieceLength)
}

func (v *vTorrent) piece(i int) []byte {
	o := i * v.info.PieceLength
	return v.content[o : o+v.plen(i)]
}

func (v *vTorrent) nblocks(i int) int { return (v.plen(i) + 16383) / 16384 }

func (v *vTorrent) block(i, k int) []byte {
	p := v.piece(i)
	return bytes.Clone(p[k*16384 : min(len(p), (k+1)*16384)])
}

func (v *vTorrent) workDir() string {
	return filepath.Join(v.work, fmt.Sprintf("%x", v.info.SHA1))
}

func (v *vTorrent) pieceFile(i int) string {
	return filepath.Join(v.workDir(), fmt.Sprintf("%d.piece", i))
}

func (v *vTorrent) store() *Storage { return New(v.target, v.work, v.info) }

// vMake makes a torrent of random geometry, with its directories below dir.
func vMake(rng *rand.Rand, dir string, round int) *vTorrent {
	pls := []int{16384, 16384, 32768, 3 * 16384, 20000, 10000, 40000}
	pl := pls[rng.Intn(len(pls))]
	n := 1 + rng.Intn(5)
	if rng.Intn(12) == 0 {
		n = 9 + rng.Intn(10)
		pl = 16384
	}
	last := 1 + rng.Intn(pl)
	if rng.Intn(3) == 0 {
		last = pl
	}
	if rng.Intn(4) == 0 && pl > 16384 {
		last = 16384
	}
	v := &vTorrent{content: make([]byte, (n-1)*pl+last)}
	rng.Read(v.content)
	v.info = &metainfo.Info{PieceLength: pl, Name: fmt.Sprintf("t%d", round)}
	for o := 0; o < len(v.content); o += pl {
		v.info.Pieces = append(v.info.Pieces, sha1.Sum(v.content[o:min(len(v.content), o+pl)]))
	}
	rng.Read(v.info.SHA1[:])
	if rng.Intn(2) == 0 {
		v.info.Length = int64(len(v.content))
	} else {
		left := len(v.content)
		m := 1 + rng.Intn(6)
		for k := 0; k < m; k++ {
			l := 0
			switch rng.Intn(4) {
			case 0:
			case 1:
				l = min(left, pl)
			default:
				l = rng.Intn(left + 1)
			}
			if k == m-1 {
				l = left
			}
			path := []string{fmt.Sprintf("f%d", k)}
			for rng.Intn(3) == 0 {
				path = append([]string{fmt.Sprintf("d%d", rng.Intn(2))}, path...)
			}
			v.info.Files = append(v.info.Files, &metainfo.File{Length: int64(l), Path: path})
			left -= l
		}
	}
	v.target = filepath.Join(dir, fmt.Sprintf("target%d", round))
	v.work = filepath.Join(dir, fmt.Sprintf("work%d", round))
	os.MkdirAll(v.target, 0o700)
	os.MkdirAll(v.work, 0o700)
	v.desc = fmt.Sprintf("torrent of %d bytes in %d pieces of %d", len(v.content), len(v.info.Pieces), pl)
	for k, f := range v.info.Files {
		if k == 0 {
			v.desc += ", files"
		}
		v.desc += fmt.Sprintf(" %v:%d", f.Path, f.Length)
	}
	return v
}

// vWait gives the outcome of f, or ok=false if it does not come.
func vWait(f func() error) (err error, ok bool) {
	c := make(chan error, 1)
	go func() { c <- f() }()
	select {
	case err = <-c:
		return err, true
	case <-time.After(5 * time.Second):
		return nil, false
	}
}

// vTree lists every file below dir with its content.
func vTree(dir string) string {
	var b bytes.Buffer
	filepath.WalkDir(dir, func(p string, d os.DirEntry, err error) error {
		if err == nil {
			fmt.Fprintf(&b, "%s %v", p, d.IsDir())
			if !d.IsDir() {
				c, _ := os.ReadFile(p)
				fmt.Fprintf(&b, " %x", sha1.Sum(c))
			}
			b.WriteByte('\n')
		}
		return nil
	})
	return b.String()
}
