package packet

import (
	"bytes"
	"encoding/binary"
	"io"
	"testing"
)

type dripReader struct {
	b []byte
	k int
}

func (d *dripReader) Read(p []byte) (int, error) {
	if len(d.b) == 0 {
		return 0, io.EOF
	}
	d.k = d.k%5 + 1
	n := d.k
	if n > len(p) {
		n = len(p)
	}
	n = copy(p[:n], d.b)
	d.b = d.b[n:]
	return n, nil
}

type dripWriter struct {
	bytes.Buffer
	k int
}

func (d *dripWriter) Write(p []byte) (int, error) {
	d.k = d.k%7 + 1
	if len(p) > d.k {
		p = p[:d.k]
	}
	return d.Buffer.Write(p)
}

func TestVerifC01RoundTrip(t *testing.T) {
	r := vrand()
	for round := 0; round < 60; round++ {
		var all []byte
		pk := vpackets(r)
		for _, p := range pk {
			d, err := Encode(p)
			if err != nil {
				t.Fatalf("%T: encode: %v", p, err)
			}
			if len(d) < 14 || int(binary.BigEndian.Uint32(d[10:14])) != len(d)-14 || binary.BigEndian.Uint64(d[2:10]) != p.ID() {
				t.Fatalf("%T: bad frame", p)
			}
			q, _, err := Decode(d)
			if err != nil {
				t.Fatalf("%T: decode: %v", p, err)
			}
			if s := vsame(p, q); s != "" {
				t.Fatalf("%T from buffer: %s", p, s)
			}
			all = append(all, d...)
		}
		for i, rd := range []io.Reader{bytes.NewReader(all), &dripReader{b: append([]byte(nil), all...)}} {
			for _, p := range pk {
				q, err := DecodeFromReader(rd)
				if err != nil {
					t.Fatalf("%T: decode from reader %d: %v", p, i, err)
				}
				if s := vsame(p, q); s != "" {
					t.Fatalf("%T from reader %d: %s", p, i, s)
				}
			}
			if n, _ := rd.Read(make([]byte, 8)); n != 0 {
				t.Fatal("bytes left over")
			}
		}
		w := &dripWriter{}
		for _, p := range pk {
			if err := EncodeToWriter(p, w); err != nil {
				t.Fatal(err)
			}
		}
		if !bytes.Equal(w.Bytes(), all) {
			t.Fatal("writer got other bytes than the encodings")
		}
	}
}

func TestVerifC01AllHeartbeats(t *testing.T) {
	pf := &packetFactory{&fixedIDs{}}
	for _, h := range []Heartbeat{Heartbeat5, Heartbeat20, Heartbeat80, Heartbeat320} {
		for m := 0; m < 16; m++ {
			p := pf.NewConnPacket(9, m&1 != 0, h, []byte("m"))
			p.Retain, p.Clear, p.packetIDAcquire = m&2 != 0, m&4 != 0, m&8 != 0
			d, _ := Encode(p)
			q, _, err := Decode(d)
			if err != nil {
				t.Fatal(err)
			}
			if s := vsame(p, q); s != "" {
				t.Fatalf("heartbeat %d flags %x: %s", h, m, s)
			}
			q, err = DecodeFromReader(bytes.NewReader(d))
			if err != nil {
				t.Fatal(err)
			}
			if s := vsame(p, q); s != "" {
				t.Fatalf("heartbeat %d flags %x: %s", h, m, s)
			}
		}
	}
}
