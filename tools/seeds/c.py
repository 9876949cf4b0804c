RC="/verif/replay/"
CONN=[RC+"conn/common_conn_test.go"]
HEAD='''package conn

import (
	"testing"
	"time"

	"github.com/singchia/geminio/packet"
)

func vdemo(t *testing.T) (*vpeer, *ServerConn) {
	a, b := vsock(t)
	p := newVpeer(t, a)
	ch := vserver(b)
	p.send(p.pf.NewConnPacket(1, true, packet.Heartbeat5, nil))
	r := vwait(t, ch)
	if r.err != nil {
		t.Fatal(r.err)
	}
	if _, ok := p.next(5 * time.Second).(*packet.ConnAckPacket); !ok {
		t.Fatal("no acknowledgement")
	}
	return p, r.sc
}
'''
SEEDS=[
dict(id="c26-renewed-for-delegate",prop="C26",pkg="conn",common=CONN,
 edits=[("conn/conn_server.go","""	// reset hearbeat
	sc.hbTick.Cancel()
	sc.hbTick = sc.tmr.Add(time.Duration(sc.heartbeat)*2*time.Second, timer.WithHandler(sc.waitHBTimeout))

	retPkt := sc.pf.NewHeartbeatAckPacket(pkt.PacketID)
	sc.writeOutCh <- retPkt
	if sc.dlgt != nil {
""","""	retPkt := sc.pf.NewHeartbeatAckPacket(pkt.PacketID)
	sc.writeOutCh <- retPkt
	if sc.dlgt != nil {
		// reset hearbeat
		sc.hbTick.Cancel()
		sc.hbTick = sc.tmr.Add(time.Duration(sc.heartbeat)*2*time.Second, timer.WithHandler(sc.waitHBTimeout))
""")],
 needs="a server without a delegate and a client that stays connected for more than twice its heartbeat interval",
 breaks="heartbeats do not start the watch anew unless a delegate is set, so a live client is dropped",
 test=HEAD+'''
func TestDemo(t *testing.T) {
	p, _ := vdemo(t)
	for i := 0; i < 5; i++ {
		p.send(p.pf.NewHeartbeatPacket())
		for _, k := range p.rest(3500 * time.Millisecond) {
			if _, ok := k.(*packet.DisConnPacket); ok {
				t.Fatal("closed although heartbeats arrive")
			}
		}
	}
}
'''),
dict(id="c26-beat-ends-closing",prop="C26",pkg="conn",common=CONN,
 edits=[("conn/conn_server.go","""			sc.clientID, pkt.ID(), sc.netconn.RemoteAddr(), string(sc.meta), sc.fsm.State())
		return iodefine.IODiscard
	}
	// reset hearbeat""","""			sc.clientID, pkt.ID(), sc.netconn.RemoteAddr(), string(sc.meta), sc.fsm.State())
		return iodefine.IOErr
	}
	// reset hearbeat""")],
 needs="a heartbeat on its way to a server that has just begun to close",
 breaks="the connection is torn down at once instead of going through the close handshake",
 test=HEAD+'''
func TestDemo(t *testing.T) {
	p, c := vdemo(t)
	c.Close()
	time.Sleep(100 * time.Millisecond)
	p.send(p.pf.NewHeartbeatPacket())
	time.Sleep(100 * time.Millisecond)
	my := p.pf.NewDisConnPacket()
	p.send(my)
	acked := false
	for _, k := range p.rest(time.Second) {
		if a, ok := k.(*packet.DisConnAckPacket); ok && a.PacketID == my.PacketID {
			acked = true
		}
	}
	if !acked {
		t.Error("the close was not acknowledged")
	}
}
'''),
]
