// pkg: api/peer
package peer

import (
	"bytes"
	"encoding/binary"
	"math/rand"
	"testing"
)

func TestVerifW02(t *testing.T) {
	rng := rand.New(rand.NewSource(1))
	try := func(stream []byte) {
		defer func() {
			if r := recover(); r != nil {
				t.Fatalf("FAILING-INPUT stream %.60x (%d bytes): reading a message panics: %v", stream, len(stream), r)
			}
		}()
		m, err := ReadMessage(bytes.NewReader(stream))
		if err == nil && m == nil {
			t.Fatalf("FAILING-INPUT stream %.60x: neither a message nor an error", stream)
		}
		if err != nil {
			return
		}
		if len(stream) < 4 {
			t.Fatalf("FAILING-INPUT truncated stream %x decodes to a message", stream)
		}
		n := int(binary.BigEndian.Uint32(stream))
		if len(stream) < 4+n {
			t.Fatalf("FAILING-INPUT truncated stream %.60x decodes to a message", stream)
		}
		if n == 0 {
			return
		}
		p := n - 1
		bad := false
		switch stream[4] {
		case 0, 1, 2, 3:
			bad = p != 0
		case 4:
			bad = p != 4
		case 6, 8:
			bad = p != 12
		case 7:
			bad = p < 8
		}
		if bad {
			t.Fatalf("FAILING-INPUT frame %.60x of type %d with a payload of %d bytes is accepted", stream, stream[4], p)
		}
	}
	for typ := -1; typ < 256; typ++ {
		for p := 0; p < 20; p++ {
			for _, more := range []int{-20, -1, 0, 1, 5} {
				f := binary.BigEndian.AppendUint32(nil, uint32(p+1))
				f = append(f, byte(typ))
				x := make([]byte, p)
				rng.Read(x)
				f = append(f, x...)
				if more < 0 {
					f = f[:max(0, len(f)+more)]
				} else {
					f = append(f, make([]byte, more)...)
				}
				try(f)
			}
		}
	}
	for k := 0; k < 30000; k++ {
		f := make([]byte, rng.Intn(40))
		rng.Read(f)
		if len(f) >= 2 {
			f[0], f[1] = 0, 0
		}
		try(f)
		hs := make([]byte, rng.Intn(80))
		rng.Read(hs)
		if len(hs) > 0 && rng.Intn(2) == 0 {
			hs[0] = 19
		}
		if len(hs) > 20 && rng.Intn(2) == 0 {
			copy(hs[1:], "BitTorrent protocol")
		}
		func() {
			defer func() {
				if r := recover(); r != nil {
					t.Fatalf("FAILING-INPUT handshake stream %x panics: %v", hs, r)
				}
			}()
			h, err := ReadHandshake(bytes.NewReader(hs))
			if err == nil && h == nil {
				t.Fatalf("FAILING-INPUT handshake stream %x: neither a handshake nor an error", hs)
			}
		}()
	}
}
