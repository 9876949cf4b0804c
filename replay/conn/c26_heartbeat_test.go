package conn

import (
	"sync/atomic"
	"testing"
	"time"

	"github.com/singchia/geminio/delegate"
	"github.com/singchia/geminio/packet"
)

type vbeats struct {
	vdlgt
	n int32
}

func (d *vbeats) Heartbeat(c delegate.ConnDescriber) error { atomic.AddInt32(&d.n, 1); return nil }

// vbeat brings up one side with the shortest interval, five seconds.
func vbeat(t *testing.T, server bool, d *vbeats) (*vpeer, Conn) {
	a, b := vsock(t)
	p := newVpeer(t, a)
	if server {
		var opts []ServerConnOption
		if d != nil {
			opts = append(opts, OptionServerConnDelegate(d))
		}
		ch := vserver(b, opts...)
		p.send(p.pf.NewConnPacket(1, true, packet.Heartbeat5, nil))
		r := vwait(t, ch)
		if r.err != nil {
			t.Fatal(r.err)
		}
		if _, ok := p.next(5 * time.Second).(*packet.ConnAckPacket); !ok {
			t.Fatal("no acknowledgement")
		}
		return p, r.sc
	}
	ch := vclient(b, func(cc *ClientConn) error { cc.heartbeat = packet.Heartbeat5; return nil })
	k, ok := p.next(5 * time.Second).(*packet.ConnPacket)
	if !ok {
		t.Fatal("no connect packet")
	}
	if k.Heartbeat != packet.Heartbeat5 {
		t.Errorf("the client announces %d", k.Heartbeat)
	}
	p.send(p.pf.NewConnAckPacket(k.PacketID, 5, nil))
	r := vwait(t, ch)
	if r.err != nil {
		t.Fatal(r.err)
	}
	return p, r.cc
}

// vcount sorts what arrived.
func vcount(ks []packet.Packet) (dis []*packet.DisConnPacket, beats int, acks []uint64) {
	for _, k := range ks {
		switch x := k.(type) {
		case *packet.DisConnPacket:
			dis = append(dis, x)
		case *packet.HeartbeatPacket:
			beats++
		case *packet.HeartbeatAckPacket:
			acks = append(acks, x.PacketID)
		}
	}
	return
}

func TestVerifC26ServerWatch(t *testing.T) {
	t.Parallel()
	d := &vbeats{}
	d.id = 9
	p, _ := vbeat(t, true, d)
	var ids []uint64
	var got []packet.Packet
	for i := 0; i < 4; i++ {
		k := p.pf.NewHeartbeatPacket()
		ids = append(ids, k.PacketID)
		p.send(k)
		got = append(got, p.rest(4*time.Second)...)
	}
	dis, _, acks := vcount(got)
	if len(dis) != 0 {
		t.Fatal("the connection closes although heartbeats arrive in time")
	}
	if len(acks) != len(ids) {
		t.Fatalf("%d heartbeats got %d answers", len(ids), len(acks))
	}
	for i := range ids {
		if acks[i] != ids[i] {
			t.Errorf("heartbeat %d answered under %d", ids[i], acks[i])
		}
	}
	if n := atomic.LoadInt32(&d.n); int(n) != len(ids) {
		t.Errorf("the delegate was told of %d of %d heartbeats", n, len(ids))
	}
	dis, _, acks = vcount(p.rest(15 * time.Second))
	if len(dis) != 1 || len(acks) != 0 {
		t.Errorf("silence: %d close requests, %d answers", len(dis), len(acks))
	}
}

func TestVerifC26ServerSilent(t *testing.T) {
	t.Parallel()
	d := &vbeats{}
	d.id = 9
	p, _ := vbeat(t, true, d)
	if dis, _, _ := vcount(p.rest(8 * time.Second)); len(dis) != 0 {
		t.Error("closed before twice the interval")
	}
	if dis, _, _ := vcount(p.rest(7 * time.Second)); len(dis) != 1 {
		t.Errorf("a silent client: %d close requests", len(dis))
	}
}

func TestVerifC26ClientBeats(t *testing.T) {
	t.Parallel()
	p, c := vbeat(t, false, nil)
	_, n, _ := vcount(p.rest(18 * time.Second))
	if n < 2 || 4 < n {
		t.Errorf("%d heartbeats within 18 seconds", n)
	}
	c.Close()
	dis, n, _ := vcount(p.rest(12 * time.Second))
	if len(dis) != 1 || 1 < n {
		t.Errorf("after closing: %d close requests, %d heartbeats", len(dis), n)
	}
}

func TestVerifC26ServerPlain(t *testing.T) {
	t.Parallel()
	p, _ := vbeat(t, true, nil)
	for i := 0; i < 5; i++ {
		p.send(p.pf.NewHeartbeatPacket())
		if dis, _, acks := vcount(p.rest(3500 * time.Millisecond)); len(dis) != 0 || len(acks) != 1 {
			t.Fatalf("%d close requests, %d answers to a heartbeat", len(dis), len(acks))
		}
	}
}

// a heartbeat or its answer arriving while closing does not end the connection
func TestVerifC26Crossing(t *testing.T) {
	for _, server := range []bool{false, true} {
		p, c := vestablish(t, server)
		c.Close()
		dis, _, _ := vcount(p.rest(200 * time.Millisecond))
		if len(dis) != 1 {
			t.Fatalf("server=%v: %d close requests", server, len(dis))
		}
		if server {
			p.send(p.pf.NewHeartbeatPacket())
		} else {
			p.send(p.pf.NewHeartbeatAckPacket(77))
		}
		time.Sleep(100 * time.Millisecond)
		if _, eof := vreadAll(t, c, 100*time.Millisecond); eof {
			t.Errorf("server=%v: finished by a heartbeat", server)
		}
		my := p.pf.NewDisConnPacket()
		p.send(p.pf.NewDisConnAckPacket(dis[0].PacketID, nil))
		p.send(my)
		_, ack, _ := vsplit(p.rest(2 * time.Second))
		if len(ack) != 1 || ack[0].PacketID != my.PacketID {
			t.Errorf("server=%v: the peer's close was answered by %v", server, ack)
		}
	}
}
