From 35fe024bcb7827e62801585cb8cd9e13d867ff7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:05 +0000
Subject: [PATCH 01/21] fix: Bitfield.Has reports false for an index outside
 the bitfield instead of panicking

---
 bitfield/bitfield.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bitfield/bitfield.go b/bitfield/bitfield.go
index 3ff6b4a..7fe6452 100644
--- a/bitfield/bitfield.go
+++ b/bitfield/bitfield.go
@@ -12,6 +12,9 @@ func New(n int) Bitfield {
 
 func (b Bitfield) Has(i int) bool {
 	bi := i / 8
+	if i < 0 || bi >= len(b) {
+		return false
+	}
 	bj := 7 - (i % 8)
 	return b[bi]&(1<<bj) != 0
 }
-- 
2.43.0


From 14370ee8d5f5eefe98e0fb653cbfe13f73d3d86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:01 +0000
Subject: [PATCH 02/21] fix: read the handshake's protocol length with
 io.ReadFull, a Read may return no bytes

---
 api/peer/peer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/api/peer/peer.go b/api/peer/peer.go
index 2b3713e..cf0653b 100644
--- a/api/peer/peer.go
+++ b/api/peer/peer.go
@@ -67,7 +67,7 @@ func (h *Handshake) MarshalBinary() ([]byte, error) {
 
 func (h *Handshake) Decode(r io.Reader) error {
 	data := make([]byte, HandshakeLength)
-	if _, err := r.Read(data[:1]); err != nil {
+	if _, err := io.ReadFull(r, data[:1]); err != nil {
 		return err
 	}
 	protocolLen := int(data[0])
-- 
2.43.0


From f7189c9b6f289a3aaec64302671728eecf77fb8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:02 +0000
Subject: [PATCH 03/21] fix: reject peer messages whose length does not fit
 their type instead of panicking

---
 api/peer/peer.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/api/peer/peer.go b/api/peer/peer.go
index cf0653b..c7abdbf 100644
--- a/api/peer/peer.go
+++ b/api/peer/peer.go
@@ -362,15 +362,27 @@ func (m *Message) Decode(r io.Reader) error {
 	payload = payload[1:]
 	switch m.Type {
 	case CHOKE, UNCHOKE, INTERESTED, NOT_INTERESTED:
+		if len(payload) != 0 {
+			return errInvalidLength(m.Type, len(payload))
+		}
 	case BITFIELD:
 		m.bitfield = payload
 	case HAVE:
+		if len(payload) != 4 {
+			return errInvalidLength(m.Type, len(payload))
+		}
 		m.index = int(binary.BigEndian.Uint32(payload[0:4]))
 	case REQUEST, CANCEL:
+		if len(payload) != 12 {
+			return errInvalidLength(m.Type, len(payload))
+		}
 		m.index = int(binary.BigEndian.Uint32(payload[0:4]))
 		m.begin = int(binary.BigEndian.Uint32(payload[4:8]))
 		m.length = int(binary.BigEndian.Uint32(payload[8:12]))
 	case PIECE:
+		if len(payload) < 8 {
+			return errInvalidLength(m.Type, len(payload))
+		}
 		m.index = int(binary.BigEndian.Uint32(payload[0:4]))
 		m.begin = int(binary.BigEndian.Uint32(payload[4:8]))
 		m.piece = payload[8:]
@@ -378,6 +390,10 @@ func (m *Message) Decode(r io.Reader) error {
 	return nil
 }
 
+func errInvalidLength(t MessageType, n int) error {
+	return fmt.Errorf("invalid payload length for %s message: %d", t, n)
+}
+
 func (m *Message) UnmarshalBinary(data []byte) error {
 	return m.Decode(bytes.NewReader(data))
 }
-- 
2.43.0


From 215d9b776590282ea7e6228d4f83ee36fdf77e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:51 +0000
Subject: [PATCH 04/21] fix: bencode decode allocates nil pointer elements
 instead of panicking

---
 bencode/decode.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/bencode/decode.go b/bencode/decode.go
index 98dbaa3..bd1d054 100644
--- a/bencode/decode.go
+++ b/bencode/decode.go
@@ -50,6 +50,12 @@ func (d *Decoder) newSyntaxError(t string, args ...any) error {
 var unmarshalerType = reflect.TypeFor[Unmarshaler]()
 
 func (d *Decoder) decode(v reflect.Value) error {
+	if v.Kind() == reflect.Pointer && v.IsNil() {
+		if !v.CanSet() {
+			return &UnsupportedTypeError{v.Type()}
+		}
+		v.Set(reflect.New(v.Type().Elem()))
+	}
 	if v.Kind() != reflect.Pointer && reflect.PointerTo(v.Type()).Implements(unmarshalerType) && v.CanAddr() {
 		return d.decodeUnmarshaler(v.Addr())
 	}
@@ -496,6 +502,9 @@ func (d *Decoder) decodeStruct(v reflect.Value) error {
 			elem = elem.Field(i)
 			if elem.Kind() == reflect.Pointer {
 				if elem.IsNil() {
+					if !elem.CanSet() {
+						return &UnsupportedTypeError{elem.Type()}
+					}
 					elem.Set(reflect.New(elem.Type().Elem()))
 				}
 				elem = elem.Elem()
-- 
2.43.0


From 6ddd2da57212b9baa81bdfcc25ec614a8dd3aaf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:34 +0000
Subject: [PATCH 05/21] fix: refuse blocks outside the piece instead of
 panicking on them

---
 storage/storage.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/storage/storage.go b/storage/storage.go
index 5214f08..6327fdc 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -225,15 +225,17 @@ func (s *Storage) getBlockFromPiece(piece *Piece, begin, length int) ([]byte, er
 }
 
 func checkBlockSize(info *metainfo.Info, index, begin, length int) error {
+	if index < 0 || index >= len(info.Pieces) {
+		return fmt.Errorf("storage: no piece with index %d", index)
+	}
 	if begin%BLOCK_LENGTH != 0 {
 		return fmt.Errorf("storage: misaligned block: %d %% %d != 0", begin, BLOCK_LENGTH)
 	}
 	pieceLength := info.GetPieceLength(index)
-	expectedBlockLength := BLOCK_LENGTH
-	lastBlock := BLOCK_LENGTH * (pieceLength / BLOCK_LENGTH)
-	if begin == lastBlock {
-		expectedBlockLength = pieceLength - begin
+	if begin < 0 || begin >= pieceLength {
+		return fmt.Errorf("storage: block offset outside the piece: %d not in [0, %d)", begin, pieceLength)
 	}
+	expectedBlockLength := min(BLOCK_LENGTH, pieceLength-begin)
 	if expectedBlockLength != length {
 		return fmt.Errorf("storage: unexpected block length: %d != %d", length, expectedBlockLength)
 	}
-- 
2.43.0


From a76c6cf718b5ea48fa3d5dc73266163f69d6690e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:51 +0000
Subject: [PATCH 06/21] fix: refuse to serve a block outside the piece instead
 of panicking or reading the next one

---
 storage/storage.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/storage/storage.go b/storage/storage.go
index 6327fdc..b8c13aa 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -95,12 +95,18 @@ func (s *Storage) ResetPiece(index int) *Piece {
 
 func (s *Storage) GetBlock(index, begin, length int) ([]byte, error) {
 	slog.Debug("GetBlock", "name", s.Torrent.Info.Name, "index", index, "begin", begin, "length", length)
+	if index < 0 || index >= len(s.Torrent.pieces) {
+		return nil, fmt.Errorf("storage: no piece with index %d", index)
+	}
+	piece := s.Torrent.pieces[index]
+	if begin < 0 || length < 0 || begin > piece.Length-length {
+		return nil, fmt.Errorf("storage: block outside the piece: %d bytes at %d of %d", length, begin, piece.Length)
+	}
 	s.Torrent.mu.RLock()
 	defer s.Torrent.mu.RUnlock()
 	if s.Torrent.coalesced {
 		return s.getBlockFromTorrent(index, begin, length)
 	}
-	piece := s.Torrent.pieces[index]
 	piece.mu.RLock()
 	defer piece.mu.RUnlock()
 	if !piece.coalesced {
-- 
2.43.0


From 2e2e4523047bafd77008371c0a1f629d6a7c4da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:55 +0000
Subject: [PATCH 07/21] fix: GetBlock takes the piece lock before the torrent
 lock, as PutBlock does

---
 storage/storage.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/storage/storage.go b/storage/storage.go
index b8c13aa..c2911c1 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -102,13 +102,13 @@ func (s *Storage) GetBlock(index, begin, length int) ([]byte, error) {
 	if begin < 0 || length < 0 || begin > piece.Length-length {
 		return nil, fmt.Errorf("storage: block outside the piece: %d bytes at %d of %d", length, begin, piece.Length)
 	}
+	piece.mu.RLock()
+	defer piece.mu.RUnlock()
 	s.Torrent.mu.RLock()
 	defer s.Torrent.mu.RUnlock()
 	if s.Torrent.coalesced {
 		return s.getBlockFromTorrent(index, begin, length)
 	}
-	piece.mu.RLock()
-	defer piece.mu.RUnlock()
 	if !piece.coalesced {
 		return nil, ErrIncompletePiece
 	}
-- 
2.43.0


From 1360fb75b9aee789138f9dd702b499d602971667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:15 +0000
Subject: [PATCH 08/21] fix: resetting a piece whose outcome was already
 delivered no longer panics, and keeps a complete piece complete

---
 future/future.go   | 7 +++++++
 storage/torrent.go | 3 +++
 2 files changed, 10 insertions(+)

diff --git a/future/future.go b/future/future.go
index 5ab841c..98d192e 100644
--- a/future/future.go
+++ b/future/future.go
@@ -3,13 +3,20 @@ package future
 type Future[T any] struct {
 	Done  chan struct{}
 	value T
+
+	delivered bool
 }
 
 func New[T any]() *Future[T] {
 	return &Future[T]{Done: make(chan struct{})}
 }
 
+// Deliver sets the value that Wait returns. Only the first delivery counts.
 func (p *Future[T]) Deliver(value T) {
+	if p.delivered {
+		return
+	}
+	p.delivered = true
 	p.value = value
 	close(p.Done)
 }
diff --git a/storage/torrent.go b/storage/torrent.go
index 2a5bfa7..145eee5 100644
--- a/storage/torrent.go
+++ b/storage/torrent.go
@@ -102,6 +102,9 @@ func (p *Piece) Wait() error {
 }
 
 func (p *Piece) reset() {
+	if p.coalesced {
+		return
+	}
 	p.err.Deliver(errors.New("storage: piece reset"))
 	p.err = future.New[error]()
 	p.blocks = nil
-- 
2.43.0


From ea1bc3a15c9463906a153b2605ab515023ac52b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:19 +0000
Subject: [PATCH 09/21] fix: ignore files in the work directory that are not a
 piece of the torrent

---
 storage/storage.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/storage/storage.go b/storage/storage.go
index c2911c1..8b100d4 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -59,7 +59,7 @@ func (s *Storage) Load() error {
 			for _, dr := range direntries {
 				var i int
 				_, err := fmt.Sscanf(dr.Name(), "%d.piece", &i)
-				if err != nil {
+				if err != nil || i < 0 || i >= len(s.Torrent.pieces) || dr.Name() != s.Torrent.pieces[i].FileName() || dr.IsDir() {
 					continue
 				}
 				st, err := os.Stat(filepath.Join(s.WorkDir, s.Torrent.WorkDir(), dr.Name()))
-- 
2.43.0


From ddd3c9f48515f36c60fd1e97a48dcba7fddccf8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:49 +0000
Subject: [PATCH 10/21] fix: refuse torrents whose name or file paths leave the
 storage directories

---
 storage/storage.go |  9 +++++++++
 storage/torrent.go | 25 +++++++++++++++++++++++++
 2 files changed, 34 insertions(+)

diff --git a/storage/storage.go b/storage/storage.go
index 8b100d4..6908a48 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -38,6 +38,9 @@ func New(targetDir, workDir string, info *metainfo.Info) *Storage {
 }
 
 func (s *Storage) Load() error {
+	if s.Torrent.invalid != nil {
+		return s.Torrent.invalid
+	}
 	st, err := os.Stat(filepath.Join(s.TargetDir, s.Torrent.FileName()))
 	if err != nil && !errors.Is(err, os.ErrNotExist) {
 		return err
@@ -95,6 +98,9 @@ func (s *Storage) ResetPiece(index int) *Piece {
 
 func (s *Storage) GetBlock(index, begin, length int) ([]byte, error) {
 	slog.Debug("GetBlock", "name", s.Torrent.Info.Name, "index", index, "begin", begin, "length", length)
+	if s.Torrent.invalid != nil {
+		return nil, s.Torrent.invalid
+	}
 	if index < 0 || index >= len(s.Torrent.pieces) {
 		return nil, fmt.Errorf("storage: no piece with index %d", index)
 	}
@@ -117,6 +123,9 @@ func (s *Storage) GetBlock(index, begin, length int) ([]byte, error) {
 
 func (s *Storage) PutBlock(index, begin int, data []byte) error {
 	slog.Debug("PutBlock", "name", s.Torrent.Info.Name, "index", index, "begin", begin, "length", len(data), "data", "<omitted>")
+	if s.Torrent.invalid != nil {
+		return s.Torrent.invalid
+	}
 	if err := checkBlockSize(s.Torrent.Info, index, begin, len(data)); err != nil {
 		return err
 	}
diff --git a/storage/torrent.go b/storage/torrent.go
index 145eee5..ef1ed7d 100644
--- a/storage/torrent.go
+++ b/storage/torrent.go
@@ -3,6 +3,7 @@ package storage
 import (
 	"errors"
 	"fmt"
+	"path/filepath"
 	"sync"
 
 	"github.com/browles/drip/api/metainfo"
@@ -13,6 +14,7 @@ import (
 type Torrent struct {
 	Info     *metainfo.Info
 	Bitfield bitfield.Bitfield
+	invalid  error
 
 	mu             sync.RWMutex
 	coalesced      bool
@@ -25,6 +27,7 @@ func newTorrent(info *metainfo.Info) *Torrent {
 	torrent := &Torrent{
 		Info:     info,
 		Bitfield: bitfield.New(len(info.Pieces)),
+		invalid:  checkPaths(info),
 		pieces:   make([]*Piece, len(info.Pieces)),
 		err:      future.New[error](),
 	}
@@ -34,6 +37,28 @@ func newTorrent(info *metainfo.Info) *Torrent {
 	return torrent
 }
 
+// checkPaths refuses names and paths that would leave the directory the torrent is stored in.
+func checkPaths(info *metainfo.Info) error {
+	if !isFileName(info.Name) {
+		return fmt.Errorf("storage: bad torrent name: %q", info.Name)
+	}
+	for _, file := range info.Files {
+		if len(file.Path) == 0 {
+			return errors.New("storage: empty file path")
+		}
+		for _, name := range file.Path {
+			if !isFileName(name) {
+				return fmt.Errorf("storage: bad file path: %q", file.Path)
+			}
+		}
+	}
+	return nil
+}
+
+func isFileName(s string) bool {
+	return s != "." && filepath.IsLocal(s) && filepath.Base(s) == s
+}
+
 func (t *Torrent) WorkDir() string {
 	return fmt.Sprintf("%x", t.Info.SHA1)
 }
-- 
2.43.0


From 3952e3954dca91800304e9f3568433712cd0a1f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:23 +0000
Subject: [PATCH 11/21] fix: the bound check of GetBlock no longer overflows on
 a piece of negative length

---
 storage/storage.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/storage/storage.go b/storage/storage.go
index 6908a48..0f7eaab 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -105,7 +105,7 @@ func (s *Storage) GetBlock(index, begin, length int) ([]byte, error) {
 		return nil, fmt.Errorf("storage: no piece with index %d", index)
 	}
 	piece := s.Torrent.pieces[index]
-	if begin < 0 || length < 0 || begin > piece.Length-length {
+	if begin < 0 || length < 0 || begin > piece.Length || length > piece.Length-begin {
 		return nil, fmt.Errorf("storage: block outside the piece: %d bytes at %d of %d", length, begin, piece.Length)
 	}
 	piece.mu.RLock()
-- 
2.43.0


From b8d007b4e75a3f6cfbf4a15d4de524b2c3cec2cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:49 +0000
Subject: [PATCH 12/21] fix: tracker: report malformed peer dictionaries as
 errors instead of panicking

---
 api/tracker/tracker.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/api/tracker/tracker.go b/api/tracker/tracker.go
index 364d879..590a58e 100644
--- a/api/tracker/tracker.go
+++ b/api/tracker/tracker.go
@@ -189,13 +189,17 @@ func parseCompactPeers(compact string) ([]*Peer, error) {
 func parsePeers(peerMaps []any) ([]*Peer, error) {
 	var peers []*Peer
 	for _, m := range peerMaps {
-		m := m.(map[string]any)
-		peer := &Peer{
-			ID:   m["peer id"].(string),
-			IP:   m["ip"].(string),
-			Port: m["port"].(int),
+		m, ok := m.(map[string]any)
+		if !ok {
+			return nil, errors.New("peer is not a dictionary")
 		}
-		peers = append(peers, peer)
+		id, okID := m["peer id"].(string)
+		ip, okIP := m["ip"].(string)
+		port, okPort := m["port"].(int)
+		if !okID || !okIP || !okPort {
+			return nil, errors.New("peer with missing or mistyped entries")
+		}
+		peers = append(peers, &Peer{ID: id, IP: ip, Port: port})
 	}
 	return peers, nil
 }
-- 
2.43.0


From 375e0a149e0c3889800300b80c3626e4da331a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:50 +0000
Subject: [PATCH 13/21] fix: tracker: encode an empty peer list as an empty
 list

---
 api/tracker/tracker.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/api/tracker/tracker.go b/api/tracker/tracker.go
index 590a58e..c70fbdd 100644
--- a/api/tracker/tracker.go
+++ b/api/tracker/tracker.go
@@ -130,6 +130,9 @@ func (p *Peers) MarshalBencoding() ([]byte, error) {
 		}
 		return bencode.Marshal(compact)
 	}
+	if p.List == nil {
+		return bencode.Marshal([]*Peer{}) // a nil slice has no encoding
+	}
 	return bencode.Marshal(p.List)
 }
 
-- 
2.43.0


From 0c3b51d9c0e060bc6d9086c5a9e4099c4fe5b339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:50 +0000
Subject: [PATCH 14/21] fix: pex: compare peers by their normalised address and
 reject impossible ports

---
 pex/http.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pex/http.go b/pex/http.go
index 5051d25..6b483a7 100644
--- a/pex/http.go
+++ b/pex/http.go
@@ -102,7 +102,7 @@ func (t *HTTP) ServeHTTP(rw http.ResponseWriter, req *http.Request) {
 		fail(errors.New("bad ip"))
 		return
 	}
-	if r.Port == 0 {
+	if r.Port <= 0 || r.Port > 65535 {
 		fail(errors.New("bad port"))
 		return
 	}
@@ -114,7 +114,7 @@ func (t *HTTP) ServeHTTP(rw http.ResponseWriter, req *http.Request) {
 		peer = &Peer{
 			tp: &trackerapi.Peer{
 				ID:   string(r.PeerID[:]),
-				IP:   ip,
+				IP:   netIP.String(),
 				Port: r.Port,
 			},
 		}
-- 
2.43.0


From 7191d6e7abad656cae84420630c593bc5fdd68a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:50 +0000
Subject: [PATCH 15/21] fix: pex: answer with the full peer list when a peer
 has no IPv4 address

---
 pex/http.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pex/http.go b/pex/http.go
index 6b483a7..224f27b 100644
--- a/pex/http.go
+++ b/pex/http.go
@@ -130,6 +130,9 @@ func (t *HTTP) ServeHTTP(rw http.ResponseWriter, req *http.Request) {
 		paddr := fmt.Sprintf("%s:%d", p.tp.IP, p.tp.Port)
 		if paddr != addr {
 			peers.List = append(peers.List, p.tp)
+			if net.ParseIP(p.tp.IP).To4() == nil {
+				peers.Compact = false // the compact form is IPv4 only
+			}
 		}
 	}
 	res := &trackerapi.Response{
-- 
2.43.0


From 0f9e7a8ace14d258072da9712f8459f65122b599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:50 +0000
Subject: [PATCH 16/21] fix: p2p: survive tracker replies without peers or
 interval, and torrents without trackers

---
 p2p/multitracker.go | 4 ++++
 p2p/server.go       | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/p2p/multitracker.go b/p2p/multitracker.go
index f0adc4e..3e151a2 100644
--- a/p2p/multitracker.go
+++ b/p2p/multitracker.go
@@ -58,6 +58,7 @@ func (mt *Multitracker) Announce() (*trackerapi.Response, error) {
 }
 
 func (mt *Multitracker) get(event eventName) (res *trackerapi.Response, err error) {
+	err = errors.New("tracker: no trackers")
 	for _, tier := range mt.TrackerTiers {
 		for j, tracker := range tier {
 			res, err = tracker.get(event)
@@ -133,5 +134,8 @@ func (mt *Tracker) get(event eventName) (*trackerapi.Response, error) {
 	if res.FailureReason != "" {
 		return nil, errors.New("tracker: request failed: " + res.FailureReason)
 	}
+	if res.Peers == nil {
+		res.Peers = &trackerapi.Peers{}
+	}
 	return res, nil
 }
diff --git a/p2p/server.go b/p2p/server.go
index d71d7b7..cfd42d5 100644
--- a/p2p/server.go
+++ b/p2p/server.go
@@ -482,6 +482,9 @@ func (p2p *Server) newPeer(conn net.Conn) *Peer {
 }
 
 func (p2p *Server) every(ctx context.Context, f func(ctx context.Context) error, d time.Duration) error {
+	if d <= 0 {
+		d = time.Minute // the tracker sent no usable interval
+	}
 	ticker := time.NewTicker(d)
 	defer ticker.Stop()
 	for {
-- 
2.43.0


From e664c852e554b5786590449c2ae9bb3951a12df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:50 +0000
Subject: [PATCH 17/21] fix: p2p: reject announced piece indices beyond the
 piece count

---
 p2p/peer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/p2p/peer.go b/p2p/peer.go
index 672f31f..16134fa 100644
--- a/p2p/peer.go
+++ b/p2p/peer.go
@@ -223,6 +223,9 @@ func (peer *Peer) HandleMessage(m *peerapi.Message) error {
 }
 
 func (peer *Peer) HandleHave(i int) error {
+	if i < 0 || i >= len(peer.server.Info.Pieces) {
+		return errors.New("p2p: HandleHave: no such piece")
+	}
 	peer.Bitfield.Add(i)
 	peer.server.RecordIndex(i, peer)
 	if !peer.server.Storage.Torrent.Bitfield.Has(i) {
-- 
2.43.0


From 63e590fac8bd4f8e83e6c114c82ebcd80eaa9052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:50 +0000
Subject: [PATCH 18/21] fix: p2p: release the server lock when a connection is
 refused

---
 p2p/server.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/p2p/server.go b/p2p/server.go
index cfd42d5..a760077 100644
--- a/p2p/server.go
+++ b/p2p/server.go
@@ -270,10 +270,12 @@ func (p2p *Server) AddPeer(tp *tracker.Peer) error {
 func (p2p *Server) Connect(peer *Peer) error {
 	p2p.mu.Lock()
 	if len(p2p.activePeers) >= 50 {
+		p2p.mu.Unlock()
 		return ErrTooManyConnections
 	}
 	if idip, ok := p2p.knownIDIPs[peer.Addr()]; ok {
 		if _, ok := p2p.activePeers[idip]; ok {
+			p2p.mu.Unlock()
 			return ErrAlreadyConnected
 		}
 	}
-- 
2.43.0


From 45171469d78e60f6c4ec08bde7ca15b0a948c78c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:50 +0000
Subject: [PATCH 19/21] fix: p2p: do not block on the download queue with the
 server lock held, guard inflight

---
 p2p/server.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/p2p/server.go b/p2p/server.go
index a760077..ef6bf9e 100644
--- a/p2p/server.go
+++ b/p2p/server.go
@@ -242,8 +242,12 @@ func (p2p *Server) Announce(ctx context.Context) error {
 
 func (p2p *Server) QueuePeer(peer *Peer) bool {
 	p2p.mu.Lock()
-	defer p2p.mu.Unlock()
-	return p2p.queuePeer(peer)
+	queued := p2p.queuePeer(peer)
+	p2p.mu.Unlock()
+	if queued {
+		p2p.downloadQueue <- peer
+	}
+	return queued
 }
 
 func (p2p *Server) AddPeer(tp *tracker.Peer) error {
@@ -401,7 +405,11 @@ func (p2p *Server) requestPieceFromPeer(ctx context.Context, peer *Peer) error {
 		}
 		p2p.inflight[index] = peer
 		go func() {
-			defer delete(p2p.inflight, index)
+			defer func() {
+				p2p.mu.Lock()
+				defer p2p.mu.Unlock()
+				delete(p2p.inflight, index)
+			}()
 			if err := p2p.requestPiece(ctx, peer, index); err != nil {
 				slog.Error("requestPieceFromPeer.requestPiece", "err", err)
 				if _, ok := err.(*storage.ChecksumError); ok {
@@ -452,7 +460,6 @@ func (p2p *Server) queuePeer(peer *Peer) bool {
 		return false
 	}
 	p2p.queuedPeers[peer] = struct{}{}
-	p2p.downloadQueue <- peer
 	return true
 }
 
-- 
2.43.0


From 868a760dbeffd1e90999d16ba8fe4c8fafae9f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:50 +0000
Subject: [PATCH 20/21] fix: p2p: a refused or failed connection is closed and
 leaves no active peer behind

---
 p2p/peer.go   | 1 +
 p2p/server.go | 5 ++++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/p2p/peer.go b/p2p/peer.go
index 16134fa..bcad9ef 100644
--- a/p2p/peer.go
+++ b/p2p/peer.go
@@ -167,6 +167,7 @@ func (peer *Peer) serve(ctx context.Context) {
 		if !errors.Is(err, ErrAlreadyConnected) {
 			slog.Error("serve.Connect", "err", err)
 		}
+		peer.Close()
 		return
 	}
 	defer func() {
diff --git a/p2p/server.go b/p2p/server.go
index ef6bf9e..c59eb2f 100644
--- a/p2p/server.go
+++ b/p2p/server.go
@@ -306,7 +306,7 @@ func (p2p *Server) Connect(peer *Peer) error {
 	p2p.activePeers[peer.IDIP()] = peer
 	bf := p2p.Storage.Torrent.Bitfield
 	if err := peer.Send(peerapi.Bitfield(bf)); err != nil {
-		return err
+		return errors.Join(err, p2p.disconnect(peer))
 	}
 	return nil
 }
@@ -467,6 +467,9 @@ func (p2p *Server) disconnect(peer *Peer) error {
 	for _, i := range peer.Bitfield.Items() {
 		delete(p2p.indexToPeers[i], peer)
 	}
+	if p2p.activePeers[peer.IDIP()] != peer {
+		return peer.Close() // another connection of this peer is the active one
+	}
 	for addr := range p2p.knownAddrs[peer.IDIP()] {
 		if idip, ok := p2p.knownIDIPs[addr]; ok && idip == peer.IDIP() {
 			delete(p2p.knownIDIPs, addr)
-- 
2.43.0


From 60a6de31b98bb7b82d067b9a2dd60307814091b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:50 +0000
Subject: [PATCH 21/21] fix: p2p: write IPv6 addresses the way connections
 report them, so blocking them works

---
 p2p/server.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/p2p/server.go b/p2p/server.go
index c59eb2f..ecb711c 100644
--- a/p2p/server.go
+++ b/p2p/server.go
@@ -9,6 +9,7 @@ import (
 	"math/rand"
 	"net"
 	"sort"
+	"strconv"
 	"sync"
 	"sync/atomic"
 	"time"
@@ -349,7 +350,7 @@ func (p2p *Server) Uploaded() int64 {
 
 func (p2p *Server) dialTCP(peer *tracker.Peer) (*Peer, error) {
 	slog.Debug("dialTCP", "ip", peer.IP, "port", peer.Port)
-	conn, err := net.Dial("tcp", fmt.Sprintf("%s:%d", peer.IP, peer.Port))
+	conn, err := net.Dial("tcp", net.JoinHostPort(peer.IP, strconv.Itoa(peer.Port)))
 	if err != nil {
 		return nil, err
 	}
@@ -516,5 +517,5 @@ func remoteAddr(tp *tracker.Peer) (addr, error) {
 	if ip == nil {
 		return "", errors.New("p2p: bad ip")
 	}
-	return addr(fmt.Sprintf("%s:%d", ip.String(), tp.Port)), nil
+	return addr(net.JoinHostPort(ip.String(), strconv.Itoa(tp.Port))), nil
 }
-- 
2.43.0

