// pkg: api/peer
package peer

import (
	"bytes"
	"io"
	"math/rand"
	"testing"
)

// delivers its bytes in arbitrary fragments, sometimes none at all
type vFrag struct {
	r   *bytes.Reader
	rng *rand.Rand
}

func (f *vFrag) Read(p []byte) (int, error) {
	if len(p) == 0 || f.rng.Intn(5) == 0 {
		return 0, nil
	}
	return f.r.Read(p[:1+f.rng.Intn(len(p))])
}

func TestVerifW03(t *testing.T) {
	rng := rand.New(rand.NewSource(1))
	for k := 0; k < 30000; k++ {
		var h Handshake
		rng.Read(h.InfoHash[:])
		rng.Read(h.PeerID[:])
		ref := append([]byte("\x13BitTorrent protocol\x00\x00\x00\x00\x00\x00\x00\x00"), h.InfoHash[:]...)
		ref = append(ref, h.PeerID[:]...)
		func() {
			in := append([]byte{}, ref...)
			defer func() {
				if r := recover(); r != nil {
					t.Fatalf("FAILING-INPUT handshake %x panics: %v", in, r)
				}
			}()
			var w bytes.Buffer
			if err := h.Encode(&w); err != nil || !bytes.Equal(w.Bytes(), ref) {
				t.Fatalf("FAILING-INPUT handshake of %x, %x encodes to %x (error %v)", h.InfoHash, h.PeerID, w.Bytes(), err)
			}
			if rng.Intn(2) == 0 {
				rng.Read(in[20:28])
			}
			good := true
			if rng.Intn(3) == 0 {
				i := rng.Intn(20)
				if rng.Intn(4) == 0 {
					i = 0
				}
				was := in[i]
				in[i] = byte(rng.Intn(256))
				if rng.Intn(3) == 0 {
					in[i] = was ^ 0x20
				}
				good = in[i] == was
			}
			if rng.Intn(6) == 0 {
				in = in[:rng.Intn(68)]
				good = false
			}
			tail := make([]byte, rng.Intn(8))
			if len(in) < 68 {
				tail = nil
			}
			rng.Read(tail)
			r := bytes.NewReader(append(append([]byte{}, in...), tail...))
			var src io.Reader = r
			if rng.Intn(2) == 0 {
				src = &vFrag{r, rng}
			}
			got, err := ReadHandshake(src)
			if good != (err == nil) {
				t.Fatalf("FAILING-INPUT stream %x: error %v, want accepted=%v", in, err, good)
			}
			if good && (got.InfoHash != h.InfoHash || got.PeerID != h.PeerID || r.Len() != len(tail)) {
				t.Fatalf("FAILING-INPUT stream %x followed by %x: info hash %x, peer id %x, %d bytes left", in, tail, got.InfoHash, got.PeerID, r.Len())
			}
		}()
	}
}
