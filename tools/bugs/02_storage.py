PRE = '''
package storage

import (
	"bytes"
	"crypto/sha1"
	"fmt"
	"os"
	"path/filepath"
	"testing"

	"github.com/browles/drip/api/metainfo"
)

var _ = bytes.Equal
var _ = sha1.Sum
var _ = fmt.Sprint
var _ = os.Stat
var _ = filepath.Join
var _ metainfo.Info

func demoInfo(content []byte, pl int) *metainfo.Info {
	info := &metainfo.Info{PieceLength: pl, Name: "demo", Length: int64(len(content))}
	for o := 0; o < len(content); o += pl {
		info.Pieces = append(info.Pieces, sha1.Sum(content[o:min(len(content), o+pl)]))
	}
	return info
}

func demoData(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i*7 + i>>9)
	}
	return b
}
'''
bug('S01-short-overwrite', 'S01', [('storage/torrent.go', 'if p.blocks[begin/BLOCK_LENGTH] != nil {', 'if p.blocks[begin/BLOCK_LENGTH] != nil && len(data) == BLOCK_LENGTH {')],
 'storage', PRE + '''
func TestDemo(t *testing.T) {
	content := demoData(3*16384 + 100)
	s := New(t.TempDir(), t.TempDir(), demoInfo(content, 4*16384))
	if err := s.PutBlock(0, 3*16384, content[3*16384:]); err != nil {
		t.Fatal(err)
	}
	if err := s.PutBlock(0, 3*16384, content[3*16384:]); err != ErrBlockExists {
		t.Fatalf("the short last block is accepted twice: %v", err)
	}
}
''', 'the short last block of a piece arriving twice before the piece is full', 'a block already present is overwritten and counted twice')
bug('S02-prefix-hash', 'S02', [('storage/storage.go', 'if hash != piece.SHA1 {', 'if !bytes.Equal(hash[:4], piece.SHA1[:4]) {')],
 'storage', PRE + '''
func TestDemo(t *testing.T) {
	content := demoData(16384)
	info := demoInfo(content, 16384)
	info.Pieces[0][19]++
	s := New(t.TempDir(), t.TempDir(), info)
	if err := s.PutBlock(0, 0, content); err == nil || s.Torrent.Bitfield.Has(0) {
		t.Fatalf("a piece with another hash is complete: %v", err)
	}
}
''', 'data whose SHA-1 agrees with the metainfo in its first bytes only', 'only a prefix of the hash is compared')
bug('S02-short-piece', 'S02', [('storage/storage.go', 'if hash != piece.SHA1 {', 'if hash != piece.SHA1 && piece.Length > BLOCK_LENGTH/2 {')],
 'storage', PRE + '''
func TestDemo(t *testing.T) {
	content := demoData(16384 + 100)
	s := New(t.TempDir(), t.TempDir(), demoInfo(content, 16384))
	content[16384+5]++
	if err := s.PutBlock(1, 0, content[16384:]); err == nil || s.Torrent.Bitfield.Has(1) {
		t.Fatalf("a corrupt piece is complete: %v", err)
	}
}
''', 'a last piece shorter than half a block, received corrupt', 'its hash is not checked')
bug('S02-late-error', 'S02', [('storage/storage.go', '\t\tpiece.err.Deliver(err)\n', '\t\tif piece.numBlocks > 1 {\n\t\t\tpiece.err.Deliver(err)\n\t\t}\n')],
 'storage', PRE + '''
import "time"

func TestDemo(t *testing.T) {
	content := demoData(16384)
	s := New(t.TempDir(), t.TempDir(), demoInfo(content, 16384))
	p := s.GetPiece(0)
	c := make(chan error, 1)
	go func() { c <- p.Wait() }()
	time.Sleep(50 * time.Millisecond)
	content[0]++
	s.PutBlock(0, 0, content)
	select {
	case err := <-c:
		if err == nil {
			t.Fatal("no error for a corrupt piece")
		}
	case <-time.After(3 * time.Second):
		t.Fatal("those waiting for a corrupt piece never learn of it")
	}
}
'''.replace('import "time"\n', '').replace('"testing"', '"testing"'), 'a piece of a single block, received corrupt, while another goroutine waits for it', 'the waiting goroutine is never told') if False else None
bug('S03-long-read', 'S03', [('storage/storage.go', 'if total >= int64(end) {', 'if total >= int64(min(end, start+BLOCK_LENGTH)) {')],
 'storage', PRE + '''
func TestDemo(t *testing.T) {
	content := demoData(3 * 16384)
	info := demoInfo(content, 3*16384)
	info.Length = 0
	info.Files = []*metainfo.File{{Length: 20000, Path: []string{"a"}}, {Length: 3*16384 - 20000, Path: []string{"b"}}}
	dir := t.TempDir()
	s := New(dir, t.TempDir(), info)
	os.Mkdir(filepath.Join(dir, "demo"), 0o700)
	os.WriteFile(filepath.Join(dir, "demo/a"), content[:20000], 0o600)
	os.WriteFile(filepath.Join(dir, "demo/b"), content[20000:], 0o600)
	if err := s.Load(); err != nil {
		t.Fatal(err)
	}
	if d, err := s.GetBlock(0, 0, 3*16384); err != nil || !bytes.Equal(d, content) {
		t.Fatalf("a piece cannot be read whole: %v", err)
	}
}
''', 'a read longer than a block that crosses a file boundary more than 16 KiB from its start', 'the read stops at that file and fails')
bug('S03-offset-32', 'S03', [('storage/storage.go', 'n, err := f.ReadAt(data, int64(offset))\n\tif err != nil {\n\t\treturn nil, err\n\t}\n\tif n < len(data) {', 'n, err := f.ReadAt(data, int64(uint32(offset)))\n\tif err != nil {\n\t\treturn nil, err\n\t}\n\tif n < len(data) {')],
 'storage', PRE + '''
func TestDemo(t *testing.T) {
	const pl = 1 << 28
	info := &metainfo.Info{PieceLength: pl, Name: "demo", Length: 17 * pl, Pieces: make(metainfo.Pieces, 17)}
	dir := t.TempDir()
	f, err := os.Create(filepath.Join(dir, "demo"))
	if err != nil {
		t.Fatal(err)
	}
	f.Truncate(17 * pl)
	f.WriteAt([]byte("hello"), 16*pl)
	f.Close()
	s := New(dir, t.TempDir(), info)
	if err := s.Load(); err != nil {
		t.Fatal(err)
	}
	if d, err := s.GetBlock(16, 0, 5); err != nil || string(d) != "hello" {
		t.Fatalf("wrong bytes beyond 4 GiB: %q %v", d, err)
	}
}
''', 'a single-file torrent of more than 4 GiB', 'blocks beyond 4 GiB are served from the beginning of the file')
bug('S03-stale-offset', 'S03', [('storage/storage.go', '\t\t\toffset := 0\n\t\t\tif total < int64(start) {', '\t\t\toffset := 0\n\t\t\tif total < int64(start) && (curr == 0 || total > 0) && file.Length != int64(start)-total+1 {')],
 'storage', PRE + '''
func TestDemo(t *testing.T) {
	content := demoData(16384)
	info := demoInfo(content, 16384)
	info.Length = 0
	info.Files = []*metainfo.File{{Length: 5000, Path: []string{"a"}}, {Length: 16384 - 5000, Path: []string{"b"}}}
	s := New(t.TempDir(), t.TempDir(), info)
	if err := s.PutBlock(0, 0, content); err != nil {
		t.Fatal(err)
	}
	if d, err := s.GetBlock(0, 4999, 100); err != nil || !bytes.Equal(d, content[4999:5099]) {
		t.Fatalf("wrong bytes at a file boundary: %v", err)
	}
}
''', 'a read that starts at the last byte of a file', 'it starts at the beginning of that file instead')
bug('S04-backslash', 'S04', [('storage/storage.go', '\t\tfp := append([]string{temp}, file.Path...)\n', '\t\tfp := []string{temp}\n\t\tfor _, p := range file.Path {\n\t\t\tfp = append(fp, filepath.Join(bytesSplit(p)...))\n\t\t}\n'),
  ('storage/storage.go', 'type ChecksumError struct {', '''// bytesSplit accepts paths written on Windows
func bytesSplit(p string) (parts []string) {
	for _, b := range bytes.Split([]byte(p), []byte{'\\\\'}) {
		parts = append(parts, string(b))
	}
	return parts
}

type ChecksumError struct {''')],
 'storage', PRE + '''
func TestDemo(t *testing.T) {
	base := filepath.Join(t.TempDir(), "1/2/3")
	target, work := filepath.Join(base, "target"), filepath.Join(base, "work")
	os.MkdirAll(target, 0o700)
	os.MkdirAll(work, 0o700)
	content := demoData(100)
	info := demoInfo(content, 16384)
	info.Length = 0
	info.Files = []*metainfo.File{{Length: 100, Path: []string{`..\\..\\..\\escaped`}}}
	s := New(target, work, info)
	s.PutBlock(0, 0, content)
	if _, err := os.Stat(filepath.Join(base, "escaped")); err == nil {
		t.Fatal("a file was written outside the target and work directories")
	}
}
''', 'a multi-file torrent whose file path holds .. and backslashes', 'the file is created outside the configured directories')
bug('S05-two-digits', 'S05', [('storage/storage.go', '"%d.piece", &i)', '"%2d.piece", &i)')],
 'storage', PRE + '''
func TestDemo(t *testing.T) {
	content := demoData(103 * 64)
	info := demoInfo(content, 64)
	work := t.TempDir()
	s := New(t.TempDir(), work, info)
	dir := filepath.Join(work, fmt.Sprintf("%x", info.SHA1))
	os.Mkdir(dir, 0o700)
	os.WriteFile(filepath.Join(dir, "101.piece"), content[101*64:102*64], 0o600)
	if err := s.Load(); err != nil {
		t.Fatal(err)
	}
	if !s.Torrent.Bitfield.Has(101) {
		t.Fatal("a piece on disk was not recovered")
	}
}
''', 'a work directory holding a piece with an index of three digits', 'that piece is not recovered')
bug('S05-finished-single', 'S05', [('storage/storage.go', 'for i := range len(s.Torrent.Info.Pieces) {\n\t\t\ts.Torrent.completePiece', 'for i := range len(s.Torrent.Info.Pieces) {\n\t\t\tif int64(i)*int64(s.Torrent.Info.PieceLength) > s.Torrent.Info.Length && s.Torrent.Info.Length > 0 || int64(i+1)*int64(s.Torrent.Info.PieceLength) > st.Size() && !st.IsDir() && st.Size()%int64(s.Torrent.Info.PieceLength) < 2 {\n\t\t\t\tcontinue\n\t\t\t}\n\t\t\ts.Torrent.completePiece')],
 'storage', PRE + '''
func TestDemo(t *testing.T) {
	content := demoData(16384 + 1)
	info := demoInfo(content, 16384)
	dir := t.TempDir()
	os.WriteFile(filepath.Join(dir, "demo"), content, 0o600)
	s := New(dir, t.TempDir(), info)
	if err := s.Load(); err != nil {
		t.Fatal(err)
	}
	if !s.Torrent.Bitfield.Has(0) || !s.Torrent.Bitfield.Has(1) {
		t.Fatalf("a finished download is not complete: %x", s.Torrent.Bitfield)
	}
}
''', 'a finished single-file download whose last piece is one byte long', 'that piece is not marked complete')
