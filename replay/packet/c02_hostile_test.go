package packet

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"runtime"
	"testing"
)

func hostile(t *testing.T, data []byte) {
	t.Helper()
	defer func() {
		if e := recover(); e != nil {
			t.Fatalf("panic %v on %s", e, head(data))
		}
	}()
	keep := append([]byte(nil), data...)
	buf := data[:len(data):len(data)]
	p, n, err := Decode(buf)
	if err == nil && p == nil {
		t.Fatalf("neither packet nor error on %s", head(data))
	}
	if int(n) > len(data) {
		t.Fatalf("consumed %d of %d", n, len(data))
	}
	rd := bytes.NewReader(data)
	q, err2 := DecodeFromReader(rd)
	if err2 == nil && q == nil {
		t.Fatalf("neither packet nor error on %s", head(data))
	}
	used := len(data) - rd.Len()
	if len(data) >= 14 {
		declared := 14 + int(binary.BigEndian.Uint32(data[10:14]))
		if used > declared {
			t.Fatalf("read %d of a packet of %d: %s", used, declared, head(data))
		}
		if err == nil && !hasKind(data[1]) || err2 == nil && !hasKind(data[1]) {
			t.Fatalf("unknown kind %x accepted", data[1])
		}
	}
	if !bytes.Equal(keep, data) {
		t.Fatal("input altered")
	}
}

func hasKind(b byte) bool {
	return bytes.IndexByte([]byte{1, 2, 0x11, 0x12, 0x21, 0x22, 0x31, 0x32, 0x41, 0x42, 0x51, 0x52, 0x61, 0x71, 0x72, 0x73, 0x81, 0x82}, b) >= 0
}

func head(d []byte) string {
	if len(d) > 40 {
		return fmt.Sprintf("%d bytes %x…", len(d), d[:40])
	}
	return fmt.Sprintf("%x", d)
}

func TestVerifC02Hostile(t *testing.T) {
	r := vrand()
	for round := 0; round < 12; round++ {
		for _, p := range vpackets(r) {
			d, err := Encode(p)
			if err != nil {
				continue
			}
			if len(d) > 400 {
				d = d[:400]
			}
			cuts := len(d)
			if cuts > 60 {
				cuts = 60
			}
			for n := 0; n <= cuts; n++ {
				hostile(t, append([]byte(nil), d[:n]...))
				// consistent but too small length
				if n >= 14 {
					x := append([]byte(nil), d[:n]...)
					binary.BigEndian.PutUint32(x[10:], uint32(n-14))
					hostile(t, x)
					binary.BigEndian.PutUint32(x[10:], uint32(r.Intn(n-13+40)))
					hostile(t, x)
				}
			}
			for k := 0; k < 30; k++ {
				x := append([]byte(nil), d...)
				x[r.Intn(len(x))] ^= byte(1 + r.Intn(255))
				if len(x) >= 14 {
					binary.BigEndian.PutUint32(x[10:], uint32(r.Intn(len(x)+4)))
				}
				hostile(t, x)
			}
		}
	}
	for ty := 0; ty < 256; ty++ {
		for n := 0; n < 60; n++ {
			for _, fill := range []byte{0, '{', 0xff} {
				x := bytes.Repeat([]byte{fill}, 14+n)
				x[1] = byte(ty)
				binary.BigEndian.PutUint32(x[10:], uint32(n))
				hostile(t, x)
			}
		}
	}
}

func TestVerifC02Allocation(t *testing.T) {
	for _, ty := range []byte{1, 2, 0x11, 0x12, 0x21, 0x22, 0x31, 0x32, 0x41, 0x42, 0x51, 0x52, 0x61, 0x71, 0x72, 0x73, 0x81, 0x82} {
		for l := 0; l < 48; l++ {
			x := make([]byte, 14+l)
			x[1] = ty
			binary.BigEndian.PutUint32(x[10:], uint32(l))
			var a, b runtime.MemStats
			runtime.ReadMemStats(&a)
			func() {
				defer func() {
					if e := recover(); e != nil {
						t.Errorf("kind %x length %d: panic %v", ty, l, e)
					}
				}()
				DecodeFromReader(bytes.NewReader(x))
			}()
			runtime.ReadMemStats(&b)
			if b.TotalAlloc-a.TotalAlloc > 1<<20 {
				t.Fatalf("kind %x length %d: %d bytes allocated", ty, l, b.TotalAlloc-a.TotalAlloc)
			}
		}
	}
}
