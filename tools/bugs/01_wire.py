bug('B01-diff-longer', 'B01', [('bitfield/bitfield.go', 'if i < len(a) {', 'if i < len(a) && (len(a) < 3 || len(a) >= len(b) || i+1 < len(a)) {')],
 'bitfield', '''
package bitfield

import "testing"

func TestDemo(t *testing.T) {
	d := Bitfield{0xff, 0xff, 0xff, 0xff}.Difference(Bitfield{0x0f, 0xf0, 0xff})
	if d[0] != 0xf0 || d[1] != 0x0f || d[2] != 0 || d[3] != 0xff {
		t.Fatalf("wrong difference %x", d)
	}
}
''', 'operands of different lengths', 'the last byte of a shorter subtrahend is ignored')
bug('B01-items-tail', 'B01', [('bitfield/bitfield.go', '''	for bi, mask := range b {
		for j := range 8 {''', '''	for bi, mask := range b {
		if mask == 1 && bi > 0 {
			continue
		}
		for j := range 8 {''')],
 'bitfield', '''
package bitfield

import "testing"

func TestDemo(t *testing.T) {
	if it := (Bitfield{0x80, 0x01}).Items(); len(it) != 2 || it[1] != 15 {
		t.Fatalf("wrong items %v", it)
	}
}
''', 'a byte other than the first with only its lowest bit set', 'Items drops that member')
bug('W01-piece-length', 'W01', [('api/peer/peer.go', 'uint32(1+8+len(m.piece))', 'uint32(uint16(1+8+len(m.piece)))')],
 'api/peer', '''
package peer

import (
	"bytes"
	"testing"
)

func TestDemo(t *testing.T) {
	var w bytes.Buffer
	if err := Piece(1, 2, make([]byte, 70000)).Encode(&w); err != nil {
		t.Fatal(err)
	}
	m, err := ReadMessage(&w)
	if err != nil || len(m.Piece()) != 70000 || w.Len() != 0 {
		t.Fatalf("round trip: %v, %d bytes left", err, w.Len())
	}
}
''', 'a block of 64 KiB or more', 'the length prefix of the frame is wrong, the stream gets out of step')
bug('W01-have-sign', 'W01', [('api/peer/peer.go', '''		m.index = int(binary.BigEndian.Uint32(payload[0:4]))
	case REQUEST, CANCEL:''', '''		m.index = int(int32(binary.BigEndian.Uint32(payload[0:4])))
	case REQUEST, CANCEL:''')],
 'api/peer', '''
package peer

import (
	"bytes"
	"testing"
)

func TestDemo(t *testing.T) {
	m, err := ReadMessage(bytes.NewReader([]byte{0, 0, 0, 5, 4, 0x80, 0, 0, 1}))
	if err != nil || m.Index() != 0x80000001 {
		t.Fatalf("index %d, error %v", m.Index(), err)
	}
}
''', 'a have message with an index of at least 2^31', 'the index decodes as a negative number')
bug('W03-reserved', 'W03', [('api/peer/peer.go', """	if string(protocol) != HandshakeProtocol {""", """	if string(protocol) != HandshakeProtocol || data[1+protocolLen+7]&0xf8 != 0 {""")],
 'api/peer', """
package peer

import (
	"bytes"
	"testing"
)

func TestDemo(t *testing.T) {
	s := []byte("\\x13BitTorrent protocol\\x00\\x00\\x00\\x00\\x00\\x10\\x00\\x85")
	s = append(s, make([]byte, 40)...)
	if _, err := ReadHandshake(bytes.NewReader(s)); err != nil {
		t.Fatal(err)
	}
}
""", 'a peer that sets a high bit in the last reserved byte', 'its conforming handshake is refused')
bug('W02-empty-piece', 'W02', [('api/peer/peer.go', """	m.Type = MessageType(payload[0])
	payload = payload[1:]
""", """	m.Type = MessageType(payload[0])
	payload = payload[1:]
	if m.Type > CANCEL {
		m.length = int(payload[int(m.Type-CANCEL)/64])
	}
""")],
 'api/peer', """
package peer

import (
	"bytes"
	"testing"
)

func TestDemo(t *testing.T) {
	defer func() {
		if r := recover(); r != nil {
			t.Fatal(r)
		}
	}()
	ReadMessage(bytes.NewReader([]byte{0, 0, 0, 2, 200, 1}))
	if _, err := ReadMessage(bytes.NewReader([]byte{0, 0, 0, 1, 0})); err != nil {
		return // only crashes matter here
	}
}
""", 'a frame with a non-standard type number and a short payload', 'the decoder panics')
