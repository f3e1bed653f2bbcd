// pkg: api/metainfo
package metainfo

import (
	"bytes"
	"crypto/sha1"
	"fmt"
	"math/rand"
	"reflect"
	"sort"
	"testing"

	"github.com/browles/drip/bencode"
)

func verifM02Str(s string) string { return fmt.Sprintf("%d:%s", len(s), s) }

func verifM02Dict(m map[string]string) string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var b bytes.Buffer
	b.WriteString("d")
	for _, k := range ks {
		b.WriteString(verifM02Str(k) + m[k])
	}
	b.WriteString("e")
	return b.String()
}

func verifM02Val(rng *rand.Rand, depth int) string {
	switch rng.Intn(5) {
	case 0:
		return fmt.Sprintf("i%de", rng.Intn(2000)-1000)
	case 1:
		b := make([]byte, rng.Intn(12))
		rng.Read(b)
		return verifM02Str(string(b))
	case 2:
		if depth > 3 {
			return "le"
		}
		s := "l"
		for i := rng.Intn(4); i > 0; i-- {
			s += verifM02Val(rng, depth+1)
		}
		return s + "e"
	default:
		if depth > 3 {
			return "de"
		}
		m := map[string]string{}
		for i := rng.Intn(4); i > 0; i-- {
			m[verifM02Key(rng)] = verifM02Val(rng, depth+1)
		}
		return verifM02Dict(m)
	}
}

func verifM02Key(rng *rand.Rand) string {
	b := make([]byte, 1+rng.Intn(6))
	for i := range b {
		b[i] = byte('a' + rng.Intn(26))
		if rng.Intn(6) == 0 {
			b[i] = byte(rng.Intn(256))
		}
	}
	return string(b)
}

func TestVerifM02(t *testing.T) {
	rng := rand.New(rand.NewSource(2))
	for k := 0; k < 20000; k++ {
		m := map[string]string{}
		for i := rng.Intn(5); i > 0; i-- {
			m[verifM02Key(rng)] = verifM02Val(rng, 0)
		}
		m["name"] = verifM02Str("n" + verifM02Key(rng))
		pl := 1 + rng.Intn(1<<20)
		m["piece length"] = fmt.Sprintf("i%de", pl)
		hs := make([]byte, 20*rng.Intn(4))
		rng.Read(hs)
		m["pieces"] = verifM02Str(string(hs))
		if rng.Intn(2) == 0 {
			m["length"] = fmt.Sprintf("i%de", rng.Intn(100))
		} else {
			f := map[string]string{"length": fmt.Sprintf("i%de", rng.Intn(100)), "path": "l1:ae"}
			for i := rng.Intn(3); i > 0; i-- {
				f[verifM02Key(rng)] = verifM02Val(rng, 1)
			}
			// two files need list decoding into pointers
			m["files"] = "l" + verifM02Dict(f) + verifM02Dict(f) + "e"
		}
		if rng.Intn(4) == 0 {
			m["private"] = "i1e"
		}
		bad := rng.Intn(4) == 0
		if bad {
			switch rng.Intn(4) {
			case 0:
				m["pieces"] = verifM02Str(string(hs) + "x")
			case 1:
				m["name"] = "i4e"
			case 2:
				m["piece length"] = "1:x"
			case 3:
				m["private"] = "le"
			}
		}
		raw := verifM02Dict(m)
		outer := map[string]string{"announce": verifM02Str("http://x"), "info": raw}
		for i := rng.Intn(3); i > 0; i-- {
			outer["x"+verifM02Key(rng)] = verifM02Val(rng, 0)
		}
		text := verifM02Dict(outer)
		old := &Info{Name: "old", Length: 7, PieceLength: 3, SHA1: [20]byte{1, 2, 3}, Private: 5, MD5Sum: "m", Pieces: Pieces{{9}}, Files: []*File{{Length: 4}}}
		was := *old
		func() {
			defer func() {
				if r := recover(); r != nil {
					t.Fatalf("FAILING-INPUT torrent %q panics: %v", text, r)
				}
			}()
			err := old.UnmarshalBencoding([]byte(raw))
			if bad {
				if err == nil {
					t.Fatalf("FAILING-INPUT info %q: parsed although a field is mistyped", raw)
				}
				if !reflect.DeepEqual(*old, was) {
					t.Fatalf("FAILING-INPUT info %q: failed parse (%v) left %+v", raw, err, *old)
				}
				return
			}
			if err != nil {
				t.Fatalf("FAILING-INPUT info %q: %v", raw, err)
			}
			if old.SHA1 != sha1.Sum([]byte(raw)) {
				t.Fatalf("FAILING-INPUT info %q: info hash %x is not the SHA-1 of the bytes", raw, old.SHA1)
			}
			var mi Metainfo
			if err := bencode.Unmarshal([]byte(text), &mi); err != nil {
				t.Fatalf("FAILING-INPUT torrent %q: %v", text, err)
			}
			if mi.Info == nil || mi.Info.SHA1 != sha1.Sum([]byte(raw)) {
				t.Fatalf("FAILING-INPUT torrent %q: info hash is not the SHA-1 of the info bytes", text)
			}
			if mi.Info.PieceLength != pl {
				t.Fatalf("FAILING-INPUT torrent %q: piece length %d", text, mi.Info.PieceLength)
			}
			// the same through a stream that is read on
			mi = Metainfo{}
			d := bencode.NewDecoder(bytes.NewReader([]byte(text + text)))
			for j := 0; j < 2; j++ {
				if err := d.Decode(&mi); err != nil || mi.Info == nil || mi.Info.SHA1 != sha1.Sum([]byte(raw)) {
					t.Fatalf("FAILING-INPUT torrent %q twice in one stream: value %d: %v", text, j, err)
				}
			}
		}()
	}
}
