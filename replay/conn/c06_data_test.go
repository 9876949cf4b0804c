package conn

import (
	"errors"
	"io"
	"reflect"
	"testing"
	"time"

	"github.com/singchia/geminio/packet"
	"github.com/singchia/geminio/pkg/id"
)

func vsame(a, b packet.Packet) bool {
	x, e1 := packet.Encode(a)
	y, e2 := packet.Encode(b)
	return e1 == nil && e2 == nil && reflect.DeepEqual(x, y) && reflect.TypeOf(a) == reflect.TypeOf(b)
}

func vsend(t *testing.T, from, to Conn) {
	pf := packet.NewPacketFactory(id.NewIDCounter(id.Odd))
	var sent []packet.Packet
	for i := 1; i <= 60; i++ {
		sent = append(sent, vdata(pf, i)...)
	}
	go func() {
		for _, k := range sent {
			if err := from.Write(k); err != nil {
				t.Error(err)
			}
		}
	}()
	got, _ := vreadAll(t, to, 3*time.Second)
	if len(got) != len(sent) {
		t.Errorf("%d packets written, %d handed up", len(sent), len(got))
	}
	for i := range got {
		if i < len(sent) && !vsame(got[i], sent[i]) {
			t.Fatalf("packet %d: written %T %v, handed up %T %v", i, sent[i], sent[i], got[i], got[i])
		}
	}
}

func TestVerifC06BothWays(t *testing.T) {
	c, s := vpair(t, nil, nil)
	vsend(t, c, s)
	c, s = vpair(t, nil, nil)
	vsend(t, s, c)
}

// control packets are never handed up, data is, whatever surrounds it
func TestVerifC06Control(t *testing.T) {
	a, b := vsock(t)
	p := newVpeer(t, b)
	ch := vclient(a)
	k := p.next(5 * time.Second).(*packet.ConnPacket)
	early := vdata(p.pf, 1)
	for _, d := range early {
		p.send(d)
	}
	p.send(p.pf.NewHeartbeatPacket())
	p.send(p.pf.NewConnPacket(1, true, packet.Heartbeat20, nil))
	time.Sleep(50 * time.Millisecond)
	p.send(p.pf.NewConnAckPacket(k.PacketID, 5, nil))
	r := vwait(t, ch)
	if r.err != nil {
		t.Fatal(r.err)
	}
	var sent []packet.Packet
	for i := 0; i < 20; i++ {
		p.send(p.pf.NewHeartbeatAckPacket(uint64(i)))
		p.send(p.pf.NewHeartbeatPacket())
		p.send(p.pf.NewConnPacket(1, true, packet.Heartbeat20, nil))
		for _, d := range vdata(p.pf, i) {
			sent = append(sent, d)
			p.send(d)
		}
	}
	// after closing started nothing more is handed up
	p.send(p.pf.NewDisConnPacket())
	for _, d := range vdata(p.pf, 1) {
		p.send(d)
	}
	got, _ := vreadAll(t, r.cc, time.Second)
	if len(got) != len(sent) {
		t.Errorf("client: %d data packets sent while established, %d handed up", len(sent), len(got))
	}
	for i := range got {
		if i < len(sent) && !vsame(got[i], sent[i]) {
			t.Fatalf("client: packet %d handed up as %T, sent %T", i, got[i], sent[i])
		}
	}
	b.Close()
}

func TestVerifC06ControlServer(t *testing.T) {
	a, b := vsock(t)
	p := newVpeer(t, a)
	ch := vserver(b)
	for _, d := range vdata(p.pf, 1) {
		p.send(d)
	}
	p.send(p.pf.NewHeartbeatPacket())
	p.send(p.pf.NewConnAckPacket(1, 1, nil))
	p.send(p.pf.NewConnPacket(1, true, packet.Heartbeat20, nil))
	r := vwait(t, ch)
	if r.err != nil {
		t.Fatal(r.err)
	}
	if _, ok := p.next(5 * time.Second).(*packet.ConnAckPacket); !ok {
		t.Fatal("no acknowledgement")
	}
	var sent []packet.Packet
	for i := 0; i < 20; i++ {
		p.send(p.pf.NewHeartbeatPacket())
		p.send(p.pf.NewHeartbeatAckPacket(uint64(i)))
		p.send(p.pf.NewConnAckPacket(1, 1, nil))
		for _, d := range vdata(p.pf, i) {
			sent = append(sent, d)
			p.send(d)
		}
	}
	p.send(p.pf.NewDisConnPacket())
	for _, d := range vdata(p.pf, 1) {
		p.send(d)
	}
	got, _ := vreadAll(t, r.sc, time.Second)
	if len(got) != len(sent) {
		t.Errorf("server: %d data packets sent while established, %d handed up", len(sent), len(got))
	}
	for i := range got {
		if i < len(sent) && !vsame(got[i], sent[i]) {
			t.Fatalf("server: packet %d handed up as %T, sent %T", i, got[i], sent[i])
		}
	}
	a.Close()
}

func TestVerifC06WriteAfterEnd(t *testing.T) {
	c, s := vpair(t, nil, nil)
	c.Close()
	if _, eof := vreadAll(t, s, 5*time.Second); !eof {
		t.Fatal("the server side did not finish")
	}
	if _, eof := vreadAll(t, c, 5*time.Second); !eof {
		t.Fatal("the client side did not finish")
	}
	time.Sleep(100 * time.Millisecond)
	for _, x := range []Conn{c, s} {
		if err := x.Write(vdata(packet.NewPacketFactory(id.NewIDCounter(id.Odd)), 3)[4]); err != io.EOF {
			t.Errorf("write after the end: %v", err)
		}
	}
}

// data of a client whose connection was refused is not handed up
func TestVerifC06Refused(t *testing.T) {
	for i := 0; i < 20; i++ {
		a, b := vsock(t)
		p := newVpeer(t, a)
		sc := make(chan *ServerConn, 1)
		s := vserver(b, OptionServerConnDelegate(&vdlgt{onerr: errors.New("no")}), func(c *ServerConn) { sc <- c })
		c := <-sc
		p.send(p.pf.NewConnPacket(1, true, packet.Heartbeat20, nil))
		for j := 0; j < 20; j++ {
			p.send(p.pf.NewMessagePacketWithSessionID(1, []byte("k"), []byte("v"), nil))
		}
		time.Sleep(20 * time.Millisecond)
		a.Close()
		got, _ := vreadAll(t, c, 5*time.Second)
		if len(got) != 0 {
			t.Fatalf("%d packets of a refused client were handed up", len(got))
		}
		<-s
	}
}
