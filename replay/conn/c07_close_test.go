package conn

import (
	"io"
	"sync"
	"testing"
	"time"

	"github.com/singchia/geminio/packet"
	"github.com/singchia/geminio/pkg/id"
)

func vended(t *testing.T, c Conn, what string) {
	if _, eof := vreadAll(t, c, 3*time.Second); !eof {
		t.Errorf("%s: readers see no end-of-file", what)
		return
	}
	time.Sleep(50 * time.Millisecond)
	if err := c.Write(vdata(packet.NewPacketFactory(id.NewIDCounter(id.Odd)), 3)[4]); err != io.EOF {
		t.Errorf("%s: a later write returned %v", what, err)
	}
	done := make(chan int)
	go func() { c.Close(); close(done) }()
	select {
	case <-done:
	case <-time.After(2 * time.Second):
		t.Errorf("%s: a later close blocks", what)
	}
}

// one close request however often close is called, and the end only after both directions
func TestVerifC07LocalClose(t *testing.T) {
	for _, server := range []bool{false, true} {
		p, c := vestablish(t, server)
		var wg sync.WaitGroup
		for i := 0; i < 8; i++ {
			wg.Add(1)
			go func() { defer wg.Done(); c.Close() }()
		}
		wg.Wait()
		c.Close()
		dis, ack, _ := vsplit(p.rest(300 * time.Millisecond))
		if len(dis) != 1 || len(ack) != 0 {
			t.Fatalf("server=%v: %d close requests, %d acknowledgements after closing", server, len(dis), len(ack))
		}
		p.send(p.pf.NewDisConnAckPacket(dis[0].PacketID, nil))
		if _, eof := vreadAll(t, c, 150*time.Millisecond); eof {
			t.Fatalf("server=%v: finished before the peer closed", server)
		}
		my := p.pf.NewDisConnPacket()
		p.send(my)
		dis, ack, _ = vsplit(p.rest(2 * time.Second))
		if len(dis) != 0 || len(ack) != 1 || ack[0].PacketID != my.PacketID {
			t.Errorf("server=%v: the peer's close was answered by %d closes, acks %v", server, len(dis), ack)
		}
		if _, err := p.c.Write([]byte{0}); err == nil {
			time.Sleep(50 * time.Millisecond)
		}
		select {
		case _, ok := <-p.in:
			if ok {
				t.Errorf("server=%v: more packets after the close handshake", server)
			}
		case <-time.After(2 * time.Second):
			t.Errorf("server=%v: the network connection stays open", server)
		}
	}
}

func TestVerifC07RemoteClose(t *testing.T) {
	for _, server := range []bool{false, true} {
		p, c := vestablish(t, server)
		my := p.pf.NewDisConnPacket()
		p.send(my)
		dis, ack, _ := vsplit(p.rest(300 * time.Millisecond))
		if len(dis) != 1 || len(ack) != 1 || ack[0].PacketID != my.PacketID {
			t.Fatalf("server=%v: a close request was answered by %d closes, acks %v (its id %d)", server, len(dis), ack, my.PacketID)
		}
		p.send(p.pf.NewDisConnAckPacket(dis[0].PacketID, nil))
		vended(t, c, "remote close")
	}
}

func TestVerifC07Abrupt(t *testing.T) {
	for _, server := range []bool{false, true} {
		p, c := vestablish(t, server)
		p.c.Close()
		vended(t, c, "network failure")
		// illegal acknowledgement
		p, c = vestablish(t, server)
		p.send(p.pf.NewDisConnAckPacket(99, nil))
		vended(t, c, "illegal close acknowledgement")
		_, ack, _ := vsplit(p.rest(200 * time.Millisecond))
		if len(ack) != 0 {
			t.Error("an illegal packet was acknowledged")
		}
	}
	// close requests before the handshake
	a, b := vsock(t)
	p := newVpeer(t, a)
	ch := vserver(b)
	p.send(p.pf.NewDisConnPacket())
	if r := vwait(t, ch); r.err == nil {
		t.Error("a connection closed before its handshake was reported as established")
	}
	if _, ack, _ := vsplit(p.rest(300 * time.Millisecond)); len(ack) != 0 {
		t.Error("an illegal close request was acknowledged")
	}
}

// a still-waiting connect fails
func TestVerifC07Waiting(t *testing.T) {
	a, b := vsock(t)
	p := newVpeer(t, b)
	ch := vclient(a)
	p.next(5 * time.Second)
	b.Close()
	select {
	case r := <-ch:
		if r.err == nil {
			t.Error("connect succeeded on a dead connection")
		}
	case <-time.After(5 * time.Second):
		t.Error("a waiting connect is not released")
	}
	a, b = vsock(t)
	ch = vserver(b)
	time.Sleep(50 * time.Millisecond)
	a.Close()
	select {
	case r := <-ch:
		if r.err == nil {
			t.Error("accept succeeded on a dead connection")
		}
	case <-time.After(5 * time.Second):
		t.Error("a waiting accept is not released")
	}
}

// what was accepted but not sent goes to the sink
func TestVerifC07Failed(t *testing.T) {
	sink := make(chan packet.Packet, 4096)
	p, c := vestablish(t, true, OptionServerConnFailedPacket(sink))
	big := make([]byte, 1<<20)
	pf := packet.NewPacketFactory(id.NewIDCounter(id.Even))
	n := 0
	stop := make(chan int)
	go func() {
		defer close(stop)
		for i := 0; i < 60; i++ {
			if err := c.Write(pf.NewMessagePacket(nil, big)); err != nil {
				return
			}
			n++
		}
	}()
	got := 0
	// the peer reads a little and then goes away
	for i := 0; i < 3; i++ {
		if k := p.next(5 * time.Second); k != nil {
			got++
		}
	}
	p.c.Close()
	if _, eof := vreadAll(t, c, 3*time.Second); !eof {
		t.Error("the connection does not finish after a write error")
	}
	select {
	case <-stop:
	case <-time.After(3 * time.Second):
		t.Fatal("the writer is stuck")
	}
	time.Sleep(100 * time.Millisecond)
	got += len(p.rest(100 * time.Millisecond))
	ids := map[uint64]bool{}
	for len(sink) > 0 {
		k := <-sink
		if ids[k.ID()] {
			t.Error("a packet was reported as failed twice")
		}
		ids[k.ID()] = true
	}
	// a few packets may be inside the sockets' buffers
	if n > 30 && len(ids) == 0 {
		t.Errorf("%d packets accepted, %d arrived, none reported as failed", n, got)
	}
}

// writers waiting for room when the connection ends are released, and so is the connection
func TestVerifC07Blocked(t *testing.T) {
	for _, server := range []bool{false, true} {
		p, c := vestablish(t, server)
		// the peer stops reading: its buffer is filled with packets of its own
		for full := false; !full; {
			select {
			case p.in <- nil:
			default:
				full = true
			}
		}
		pf := packet.NewPacketFactory(id.NewIDCounter(id.Even))
		b := make([]byte, 64<<10)
		var wg sync.WaitGroup
		for i := 0; i < 8; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for c.Write(pf.NewMessagePacket(nil, b)) == nil {
				}
			}()
		}
		// until nothing moves
		last, bc := -1, vbase(c)
		for same := 0; same < 20; {
			n := len(bc.writeInCh)
			if n == last && n == cap(bc.writeInCh) {
				same++
			} else {
				same = 0
			}
			last = n
			time.Sleep(10 * time.Millisecond)
		}
		p.c.Close()
		done := make(chan int)
		go func() { wg.Wait(); close(done) }()
		select {
		case <-done:
		case <-time.After(5 * time.Second):
			t.Errorf("server=%v: writers wait for ever", server)
			continue
		}
		vended(t, c, "network failure with waiting writers")
	}
}

func vbase(c Conn) *baseConn {
	if s, ok := c.(*ServerConn); ok {
		return s.baseConn
	}
	return c.(*ClientConn).baseConn
}

// the end is seen by every read
func TestVerifC07Again(t *testing.T) {
	for _, server := range []bool{false, true} {
		p, c := vestablish(t, server)
		p.c.Close()
		for i := 0; i < 3; i++ {
			if _, eof := vreadAll(t, c, 3*time.Second); !eof {
				t.Fatalf("server=%v: read %d of an ended connection blocks", server, i)
			}
		}
	}
}

// vgone ends at once; the packet factory is slow to answer so that the end comes first
type vslowpf struct {
	packet.PacketFactory
	wait func()
}

func (f *vslowpf) NewConnPacket(w uint64, ask bool, hb packet.Heartbeat, meta []byte) *packet.ConnPacket {
	f.wait()
	return f.PacketFactory.NewConnPacket(w, ask, hb, meta)
}

// the peer is gone before the connect packet is made
func TestVerifC07Early(t *testing.T) {
	a, b := vsock(t)
	b.Close()
	f := &vslowpf{packet.NewPacketFactory(id.NewIDCounter(id.Odd)), func() { time.Sleep(200 * time.Millisecond) }}
	ch := vclient(a, OptionClientConnPacketFactory(f))
	select {
	case r := <-ch:
		if r.err == nil {
			t.Error("connect succeeded on a dead connection")
		}
	case <-time.After(5 * time.Second):
		t.Error("connect waits for ever on a dead connection")
	}
}

// what was accepted behind a close request goes to the sink too
func TestVerifC07Sink(t *testing.T) {
	sink := make(chan packet.Packet, 4096)
	a, b := vsock(t)
	p := newVpeer(t, a)
	ch := vserver(b, OptionServerConnFailedPacket(sink))
	p.send(p.pf.NewConnPacket(1, true, packet.Heartbeat20, nil))
	r := vwait(t, ch)
	if r.err != nil {
		t.Fatal(r.err)
	}
	if _, ok := p.next(5 * time.Second).(*packet.ConnAckPacket); !ok {
		t.Fatal("no acknowledgement")
	}
	c := r.sc
	for full := false; !full; {
		select {
		case p.in <- nil:
		default:
			full = true
		}
	}
	pf := packet.NewPacketFactory(id.NewIDCounter(id.Even))
	big := make([]byte, 8<<20)
	// until nothing moves
	for i := 0; i < 20 || len(c.writeInCh) < 8; i++ {
		if len(c.writeInCh) < 8 {
			c.Write(pf.NewMessagePacket(nil, big))
		}
		time.Sleep(20 * time.Millisecond)
	}
	c.Close()
	want := []packet.Packet{}
	for i := 0; i < 8; i++ {
		k := pf.NewMessagePacket(nil, []byte("v"))
		if c.Write(k) == nil {
			want = append(want, k)
		}
	}
	p.c.Close()
	if _, eof := vreadAll(t, c, 5*time.Second); !eof {
		t.Fatal("the connection does not finish")
	}
	time.Sleep(200 * time.Millisecond)
	got := map[uint64]bool{}
	for len(sink) > 0 {
		got[(<-sink).ID()] = true
	}
	t.Log(len(want), len(got))
	for _, k := range want {
		if !got[k.ID()] {
			t.Errorf("packet %d was accepted and is lost without a report", k.ID())
		}
	}
}
