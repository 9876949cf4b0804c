RC="/verif/replay/"
APP=[RC+"application/common_app_test.go"]
MUX=[RC+"multiplexer/common_mux_test.go"]
CONN=[RC+"conn/common_conn_test.go"]
SEEDS=[
dict(id="c19-ack-outside-lock",prop="C19",pkg="application",common=APP,
 edits=[("application/message.go","""	pkt := sm.pf.NewMessageAckPacketWithSessionID(sm.dg.DialogueID(), pktID, err)
	sm.writeInCh <- pkt
	sm.mtx.RUnlock()
	return nil
""","""	pkt := sm.pf.NewMessageAckPacketWithSessionID(sm.dg.DialogueID(), pktID, err)
	sm.mtx.RUnlock()
	sm.writeInCh <- pkt
	return nil
""")],
 needs="messages acknowledged while the stream's queue is full and the stream finishes",
 breaks="an acknowledgement is sent on the channel which finishing has closed, which crashes the process",
 test='''package application

import (
	"io"
	"sync"
	"testing"
	"time"

	"github.com/singchia/geminio/packet"
)

func TestDemo(t *testing.T) {
	for i := 0; i < 30 && !t.Failed(); i++ {
		r := vnew(t)
		hold := make(chan int)
		r.dg.mtx.Lock()
		r.dg.hold = hold
		r.dg.mtx.Unlock()
		r.dg.send(t, r.pf.NewMessagePacketWithSessionID(9, []byte("k"), []byte("v"), nil))
		m, err := r.sm.Receive(bg)
		if err != nil {
			t.Fatal(err)
		}
		var wg sync.WaitGroup
		for j := 0; j < 200; j++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() {
					if x := recover(); x != nil {
						t.Error(x)
					}
				}()
				m.Done()
			}()
		}
		time.Sleep(20 * time.Millisecond)
		r.dg.fail(io.ErrClosedPipe)
		close(hold)
		done := make(chan int)
		go func() { wg.Wait(); close(done) }()
		select {
		case <-done:
		case <-time.After(vto):
			t.Fatal("acknowledging waits for ever")
		}
	}
}

var _ packet.Packet
'''),
dict(id="c18-told-too-early",prop="C18",pkg="application",common=APP,
 edits=[("application/stream.go","""	retPkt := sm.pf.NewRegisterAckPacket(pkt.ID(), nil)
	err := sm.dg.Write(retPkt)
	if err != nil {
		sm.log.Debugf("write register ack""","""	// to notify the method is registing, in case of we're waiting for the method ready
	syncID := fmt.Sprintf(registrationFormat, sm.cn.ClientID(), sm.dg.DialogueID())
	sm.shub.DoneSub(syncID, method)

	retPkt := sm.pf.NewRegisterAckPacket(pkt.ID(), nil)
	err := sm.dg.Write(retPkt)
	if err != nil {
		sm.log.Debugf("write register ack"""),
 ("application/stream.go","""	sm.rpcMtx.Unlock()

	// to notify the method is registing, in case of we're waiting for the method ready
	syncID := fmt.Sprintf(registrationFormat, sm.cn.ClientID(), sm.dg.DialogueID())
	sm.shub.DoneSub(syncID, method)

	if sm.opts.dlgt""","""	sm.rpcMtx.Unlock()

	if sm.opts.dlgt""")],
 needs="an end waiting for the peer's methods and checking for them, used right after it was made while the acknowledgement of the registration is still being queued",
 breaks="the end is made before the method is known, so the first call of the very method it waited for is refused as unregistered",
 test='''package application

import (
	"testing"
	"time"

	"github.com/singchia/geminio/packet"
	"github.com/singchia/geminio/pkg/id"
)

func TestDemo(t *testing.T) {
	m := &vmux{def: newVdg(vcid, 1), accept: make(chan *vdg, 16)}
	pf := packet.NewPacketFactory(id.NewIDCounter(id.Even))
	type res struct {
		e   *End
		err error
	}
	ch := make(chan res, 1)
	go func() {
		e, err := NewEnd(&vconn{vcid}, m, OptionTimer(vtmr()), OptionWaitRemoteRPCs("m"), OptionWithRemoteRPCCheck())
		ch <- res{e, err}
	}()
	time.Sleep(50 * time.Millisecond)
	hold := make(chan int)
	m.def.mtx.Lock()
	m.def.hold = hold
	m.def.mtx.Unlock()
	m.def.send(t, pf.NewRegisterPacket([]byte("m")))
	var r res
	select {
	case r = <-ch:
	case <-time.After(300 * time.Millisecond):
		close(hold)
		hold = nil
		select {
		case r = <-ch:
		case <-time.After(vto):
			t.Fatal("the method is registered, but the end still waits for it")
		}
	}
	if r.err != nil {
		t.Fatal(r.err)
	}
	errs := make(chan error, 1)
	go func() { _, err := r.e.Call(bg, "m", r.e.NewRequest(nil)); errs <- err }()
	select {
	case err := <-errs:
		if err == ErrRemoteRPCUnregistered {
			t.Error("the method waited for is not known")
		}
	case <-time.After(300 * time.Millisecond):
		// it was sent
	}
	if hold != nil {
		close(hold)
	}
	m.def.end()
}
'''),
dict(id="c10-ack-own-proposal",prop="C10",pkg="multiplexer",common=MUX,
 edits=[("multiplexer/dialogue.go","""	retPkt := dg.pf.NewDismissAckPacket(pkt.ID(),
		pkt.SessionID(), nil)
""","""	retPkt := dg.pf.NewDismissAckPacket(pkt.ID(),
		dg.negotiatingID, nil)
""")],
 needs="a stream whose id is the one the other side proposed (the acceptor did not choose it), closed by that other side",
 breaks="the close request is acknowledged for another stream id, so the closing side never sees its acknowledgement",
 test='''package multiplexer

import (
	"testing"
	"time"

	"github.com/singchia/geminio"
	"github.com/singchia/geminio/packet"
)

func TestDemo(t *testing.T) {
	for _, side := range []geminio.Side{geminio.InitiatorSide, geminio.RecipientSide} {
		p := newVpeer(t, side)
		m := vmgr(t, p.c, nil)
		defer p.c.Close()
		sid, _ := p.open(778, side == geminio.RecipientSide, "meta", "peer")
		if _, err := m.AcceptDialogue(); err != nil {
			t.Fatal(err)
		}
		q := p.pf.NewDismissPacket(sid)
		p.send(q)
		acked := false
		for _, k := range p.rest(500 * time.Millisecond) {
			if a, ok := k.(*packet.DismissAckPacket); ok && a.PacketID == q.PacketID {
				acked = true
				if a.SessionID() != sid {
					t.Errorf("closing stream %d is acknowledged for stream %d", sid, a.SessionID())
				}
			}
		}
		if !acked {
			t.Error("closing is not acknowledged")
		}
	}
}
'''),
dict(id="c07-sink-stops-at-control",prop="C07",pkg="conn",common=CONN,
 edits=[("conn/conn_server.go","""	for pkt := range sc.writeInCh {
		if sc.failedCh != nil && !packet.ConnLayer(pkt) {
			sc.failedCh <- pkt
		}
	}
""","""	drained := false
	for pkt := range sc.writeInCh {
		// nothing but the close handshake follows a control packet
		drained = drained || packet.ConnLayer(pkt)
		if sc.failedCh != nil && !drained {
			sc.failedCh <- pkt
		}
	}
""")],
 needs="a close request queued behind data that cannot be sent, more packets accepted behind it, and the network failing then",
 breaks="packets accepted behind the close request are neither sent nor given to the failed-packet sink",
 test='''package conn

import (
	"testing"
	"time"

	"github.com/singchia/geminio/packet"
	"github.com/singchia/geminio/pkg/id"
)

func TestDemo(t *testing.T) {
	sink := make(chan packet.Packet, 4096)
	a, b := vsock(t)
	p := newVpeer(t, a)
	ch := vserver(b, OptionServerConnFailedPacket(sink))
	p.send(p.pf.NewConnPacket(1, true, packet.Heartbeat20, nil))
	r := vwait(t, ch)
	if r.err != nil {
		t.Fatal(r.err)
	}
	if _, ok := p.next(5 * time.Second).(*packet.ConnAckPacket); !ok {
		t.Fatal("no acknowledgement")
	}
	c := r.sc
	for full := false; !full; {
		select {
		case p.in <- nil:
		default:
			full = true
		}
	}
	pf := packet.NewPacketFactory(id.NewIDCounter(id.Even))
	big := make([]byte, 8<<20)
	// until nothing moves
	for i := 0; i < 20 || len(c.writeInCh) < 8; i++ {
		if len(c.writeInCh) < 8 {
			c.Write(pf.NewMessagePacket(nil, big))
		}
		time.Sleep(20 * time.Millisecond)
	}
	c.Close()
	want := []packet.Packet{}
	for i := 0; i < 8; i++ {
		k := pf.NewMessagePacket(nil, []byte("v"))
		if c.Write(k) == nil {
			want = append(want, k)
		}
	}
	p.c.Close()
	if _, eof := vreadAll(t, c, 5*time.Second); !eof {
		t.Fatal("the connection does not finish")
	}
	time.Sleep(200 * time.Millisecond)
	got := map[uint64]bool{}
	for len(sink) > 0 {
		got[(<-sink).ID()] = true
	}
	t.Log(len(want), len(got))
	for _, k := range want {
		if !got[k.ID()] {
			t.Errorf("packet %d was accepted and is lost without a report", k.ID())
		}
	}
}
'''),
]
