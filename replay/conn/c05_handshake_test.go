package conn

import (
	"bytes"
	"errors"
	"testing"
	"time"

	"github.com/singchia/geminio/packet"
)

func TestVerifC05ClientSide(t *testing.T) {
	for _, c := range []struct {
		id   uint64
		err  error
		meta []byte
	}{{42, nil, []byte("meta")}, {1 << 40, nil, nil}, {7, errors.New("no such client"), []byte("m")}} {
		a, b := vsock(t)
		p := newVpeer(t, b)
		ch := vclient(a, OptionClientConnMeta(c.meta), OptionClientConnClientID(9))
		k, ok := p.next(5 * time.Second).(*packet.ConnPacket)
		if !ok {
			t.Fatal("no connect packet")
		}
		if k.ClientID != 9 || !k.ClientIDAcquire() || !bytes.Equal(k.ConnData.Meta, c.meta) {
			t.Fatalf("connect packet carries id %d acquire %v meta %q", k.ClientID, k.ClientIDAcquire(), k.ConnData.Meta)
		}
		select {
		case <-ch:
			t.Fatal("connect returned before it was acknowledged")
		case <-time.After(100 * time.Millisecond):
		}
		p.send(p.pf.NewConnAckPacket(k.PacketID, c.id, c.err))
		r := vwait(t, ch)
		if c.err != nil {
			if r.err == nil || r.err.Error() != c.err.Error() {
				t.Fatalf("refused with %v, connect returned %v", c.err, r.err)
			}
		} else if r.err != nil {
			t.Fatalf("acknowledged, connect returned %v", r.err)
		} else {
			if r.cc.ClientID() != c.id || !bytes.Equal(r.cc.Meta(), c.meta) {
				t.Fatalf("client reports id %d meta %q", r.cc.ClientID(), r.cc.Meta())
			}
			// a second acknowledgement is an error and changes nothing
			p.send(p.pf.NewConnAckPacket(k.PacketID, c.id+1, nil))
			if _, eof := vreadAll(t, r.cc, 3*time.Second); !eof {
				t.Error("an acknowledgement outside the handshake was accepted")
			}
			if r.cc.ClientID() != c.id {
				t.Error("a second acknowledgement changed the client id")
			}
		}
		b.Close()
	}
}

func TestVerifC05ServerSide(t *testing.T) {
	refused := errors.New("refused")
	for i, c := range []struct {
		d       *vdlgt
		acquire bool
		want    uint64 // 0: any generated id
		err     error
	}{
		{nil, true, 0, nil}, {nil, false, 77, nil},
		{&vdlgt{id: 5000000}, true, 5000000, nil}, {&vdlgt{id: 5000000}, false, 77, nil}, {&vdlgt{}, true, 0, nil},
		{&vdlgt{id: 3, iderr: refused}, true, 0, refused}, {&vdlgt{iderr: refused}, true, 0, refused}, {&vdlgt{onerr: refused}, true, 0, refused},
		{&vdlgt{onerr: refused}, false, 77, refused},
	} {
		a, b := vsock(t)
		p := newVpeer(t, a)
		var opts []ServerConnOption
		if c.d != nil {
			opts = append(opts, OptionServerConnDelegate(c.d))
		}
		ch := vserver(b, opts...)
		k := p.pf.NewConnPacket(77, c.acquire, packet.Heartbeat20, []byte("meta"))
		p.send(k)
		ack, ok := p.next(5 * time.Second).(*packet.ConnAckPacket)
		if !ok {
			t.Fatalf("case %d: no acknowledgement", i)
		}
		if ack.PacketID != k.PacketID {
			t.Errorf("case %d: the acknowledgement carries id %d, the connect packet %d", i, ack.PacketID, k.PacketID)
		}
		if c.d != nil && c.acquire && (c.d.asked != 1 || c.d.wanted != 77 || string(c.d.meta) != "meta") {
			t.Errorf("case %d: delegate asked %d times with %d %q", i, c.d.asked, c.d.wanted, c.d.meta)
		}
		if c.err != nil {
			if ack.ConnData.Error != c.err.Error() || ack.RetCode != packet.RetCodeERR {
				t.Errorf("case %d: refused, acknowledgement says %q", i, ack.ConnData.Error)
			}
			// the refusal closes: complete the close handshake
			for _, x := range p.rest(200 * time.Millisecond) {
				switch y := x.(type) {
				case *packet.ConnAckPacket:
					t.Errorf("case %d: second acknowledgement", i)
				case *packet.DisConnPacket:
					p.send(p.pf.NewDisConnAckPacket(y.PacketID, nil))
				}
			}
			a.Close()
			if r := vwait(t, ch); r.err == nil {
				t.Errorf("case %d: refused but reported as established", i)
			}
			continue
		}
		if ack.ConnData.Error != "" || ack.RetCode == packet.RetCodeERR {
			t.Errorf("case %d: accepted, acknowledgement says %q", i, ack.ConnData.Error)
		}
		r := vwait(t, ch)
		if r.err != nil {
			t.Fatalf("case %d: %v", i, r.err)
		}
		if r.sc.ClientID() != ack.ClientID || c.want != 0 && ack.ClientID != c.want || string(r.sc.Meta()) != "meta" {
			t.Errorf("case %d: acknowledged id %d, server reports %d, want %d, meta %q", i, ack.ClientID, r.sc.ClientID(), c.want, r.sc.Meta())
		}
		if c.d != nil && c.d.online != 1 {
			t.Errorf("case %d: announced %d times", i, c.d.online)
		}
		// a connect packet outside the initial state
		p.send(p.pf.NewConnPacket(78, true, packet.Heartbeat20, []byte("other")))
		for _, x := range p.rest(500 * time.Millisecond) {
			if _, ok := x.(*packet.ConnAckPacket); ok {
				t.Errorf("case %d: a second connect packet was acknowledged", i)
			}
		}
		if r.sc.ClientID() != ack.ClientID || string(r.sc.Meta()) != "meta" {
			t.Errorf("case %d: a second connect packet changed id or metadata", i)
		}
		if _, eof := vreadAll(t, r.sc, 3*time.Second); !eof {
			t.Errorf("case %d: the connection survived a second connect packet", i)
		}
		a.Close()
	}
}

func TestVerifC05Pair(t *testing.T) {
	seen := map[uint64]bool{}
	for i := 0; i < 20; i++ {
		meta := bytes.Repeat([]byte{'a' + byte(i)}, i*37)
		c, s := vpair(t, []ClientConnOption{OptionClientConnMeta(meta)}, nil)
		if c.ClientID() != s.ClientID() || !bytes.Equal(c.Meta(), meta) || !bytes.Equal(s.Meta(), meta) {
			t.Errorf("ids %d %d meta %d %d", c.ClientID(), s.ClientID(), len(c.Meta()), len(s.Meta()))
		}
		if seen[c.ClientID()] {
			t.Errorf("client id %d given twice", c.ClientID())
		}
		seen[c.ClientID()] = true
		c.Close()
	}
}

// the acknowledgement may be faster than the goroutine that waits for it
func TestVerifC05FastAck(t *testing.T) {
	for i := 0; i < 150; i++ {
		c, s := vpair(t, nil, nil)
		c.Close()
		_ = s
	}
}
