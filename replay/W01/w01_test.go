// pkg: api/peer
package peer

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"math/rand"
	"testing"
	"testing/iotest"
)

func vFrame(m *Message) []byte {
	u := func(b []byte, x int) []byte { return binary.BigEndian.AppendUint32(b, uint32(x)) }
	var p []byte
	switch m.Type {
	case -1:
		return make([]byte, 4)
	case 0, 1, 2, 3:
		p = []byte{byte(m.Type)}
	case 4:
		p = u([]byte{4}, m.index)
	case 5:
		p = append([]byte{5}, m.bitfield...)
	case 6, 8:
		p = u(u(u([]byte{byte(m.Type)}, m.index), m.begin), m.length)
	case 7:
		p = append(u(u([]byte{7}, m.index), m.begin), m.piece...)
	}
	return append(u(nil, len(p)), p...)
}

func vShow(m *Message) string {
	if m == nil {
		return "<nil>"
	}
	bf, pc := m.bitfield, m.piece
	return fmt.Sprintf("{type %d index %d begin %d length %d bitfield %d:%.20x piece %d:%.20x}", int(m.Type), m.index, m.begin, m.length, len(bf), []byte(bf), len(pc), pc)
}

func vInt(rng *rand.Rand) int {
	switch rng.Intn(4) {
	case 0:
		return rng.Intn(300)
	case 1:
		return int([]uint32{0, 1, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x10000, 0xffffff, 0x1000000, 0x7fffffff, 0x80000000, 0xffffffff, 0x12345678, 0xfedcba98}[rng.Intn(17)])
	}
	return int(rng.Uint32())
}

func TestVerifW01(t *testing.T) {
	rng := rand.New(rand.NewSource(1))
	blob := func() []byte {
		n := rng.Intn(20)
		switch rng.Intn(12) {
		case 0:
			n = rng.Intn(70000)
		case 1:
			n = []int{127, 128, 246, 247, 248, 254, 255, 256, 257, 16384, 65526, 65535, 65536, 1 << 17}[rng.Intn(14)]
		}
		b := make([]byte, n)
		rng.Read(b)
		return b
	}
	for round := 0; round < 20000; round++ {
		var m *Message
		i, b, l := vInt(rng), vInt(rng), vInt(rng)
		var want Message
		switch k := rng.Intn(10) - 1; k {
		case -1:
			m, want = Keepalive(), Message{Type: -1}
		case 0:
			m, want = Choke(), Message{Type: 0}
		case 1:
			m, want = Unchoke(), Message{Type: 1}
		case 2:
			m, want = Interested(), Message{Type: 2}
		case 3:
			m, want = NotInterested(), Message{Type: 3}
		case 4:
			m, want = Have(i), Message{Type: 4, index: i}
		case 5:
			x := blob()
			m, want = Bitfield(x), Message{Type: 5, bitfield: x}
		case 6:
			m, want = Request(i, b, l), Message{Type: 6, index: i, begin: b, length: l}
		case 7:
			x := blob()
			m, want = Piece(i, b, x), Message{Type: 7, index: i, begin: b, piece: x}
		case 8:
			m, want = Cancel(i, b, l), Message{Type: 8, index: i, begin: b, length: l}
		}
		if vShow(m) != vShow(&want) {
			t.Fatalf("FAILING-INPUT a constructor built %s instead of %s", vShow(m), vShow(&want))
		}
		func() {
			defer func() {
				if r := recover(); r != nil {
					t.Fatalf("FAILING-INPUT message %s panics: %v", vShow(m), r)
				}
			}()
			switch m.Type {
			case 4, 6, 7, 8:
				if m.Index() != want.index {
					t.Fatalf("FAILING-INPUT %s .Index() = %d", vShow(m), m.Index())
				}
			}
			switch m.Type {
			case 6, 7, 8:
				if m.Begin() != want.begin {
					t.Fatalf("FAILING-INPUT %s .Begin() = %d", vShow(m), m.Begin())
				}
			}
			if m.Type == 6 || m.Type == 8 {
				if m.Length() != want.length {
					t.Fatalf("FAILING-INPUT %s .Length() = %d", vShow(m), m.Length())
				}
			}
			if m.Type == 7 && !bytes.Equal(m.Piece(), want.piece) {
				t.Fatalf("FAILING-INPUT %s .Piece() = %x", vShow(m), m.Piece())
			}
			if m.Type == 5 && !bytes.Equal(m.Bitfield(), want.bitfield) {
				t.Fatalf("FAILING-INPUT %s .Bitfield() = %x", vShow(m), m.Bitfield())
			}
			var w bytes.Buffer
			err := m.Encode(&w)
			ref := vFrame(&want)
			if err != nil || !bytes.Equal(w.Bytes(), ref) {
				t.Fatalf("FAILING-INPUT message %s encodes to %d bytes %.40x (error %v), want %d bytes %.40x", vShow(m), w.Len(), w.Bytes(), err, len(ref), ref)
			}
			if vShow(m) != vShow(&want) {
				t.Fatalf("FAILING-INPUT encoding changed the message %s to %s", vShow(&want), vShow(m))
			}
			tail := make([]byte, rng.Intn(10))
			rng.Read(tail)
			r := bytes.NewReader(append(append([]byte{}, ref...), tail...))
			var in io.Reader = r
			switch rng.Intn(3) {
			case 1:
				if len(ref) < 300 {
					in = iotest.OneByteReader(r)
				}
			case 2:
				in = iotest.HalfReader(r)
			}
			got, err := ReadMessage(in)
			if err != nil || vShow(got) != vShow(&want) || !bytes.Equal(got.piece, want.piece) || !bytes.Equal(got.bitfield, want.bitfield) {
				t.Fatalf("FAILING-INPUT frame %.40x followed by %x decodes to %s (error %v), want %s", ref, tail, vShow(got), err, vShow(&want))
			}
			if r.Len() != len(tail) {
				t.Fatalf("FAILING-INPUT decoding frame %.40x followed by %x left %d bytes", ref, tail, r.Len())
			}
		}()
	}
}
