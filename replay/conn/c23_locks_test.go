package conn

import (
	"errors"
	"fmt"
	"sync"
	"testing"
	"time"

	"github.com/singchia/geminio/packet"
	"github.com/singchia/geminio/pkg/id"
)

func vbase(c Conn) *baseConn {
	switch x := c.(type) {
	case *ServerConn:
		return x.baseConn
	case *ClientConn:
		return x.baseConn
	}
	return nil
}

func vfree(t *testing.T, c Conn, what string) {
	t.Helper()
	l := &vbase(c).connMtx
	for i := 0; i < 600; i++ {
		if l.TryLock() {
			l.Unlock()
			return
		}
		time.Sleep(5 * time.Millisecond)
	}
	t.Fatalf("%s: the lock stays taken", what)
}

func vin(t *testing.T, what string, f func()) {
	t.Helper()
	done := make(chan int)
	go func() { f(); close(done) }()
	select {
	case <-done:
	case <-time.After(8 * time.Second):
		t.Fatalf("%s blocks", what)
	}
}

func TestVerifC23Locks(t *testing.T) {
	pf := packet.NewPacketFactory(id.NewIDCounter(id.Odd))
	for _, server := range []bool{false, true} {
		for _, how := range []string{"close", "peer", "broken", "unanswered", "failing"} {
			server, how := server, how
			t.Run(fmt.Sprint(server, how), func(t *testing.T) {
				t.Parallel()
				p, c := vestablish(t, server)
				vfree(t, c, "handshake")
				for _, k := range vdata(pf, 3) {
					k := k
					vin(t, "writing", func() { c.Write(k) })
					vfree(t, c, "writing")
					p.send(k)
				}
				p.send(p.pf.NewHeartbeatPacket())
				p.send(p.pf.NewHeartbeatAckPacket(3))
				time.Sleep(30 * time.Millisecond)
				vfree(t, c, "reading")
				c.ClientID()
				c.Meta()
				c.Side()
				vfree(t, c, "asking")
				var wg sync.WaitGroup
				switch how {
				case "close":
					for i := 0; i < 4; i++ {
						wg.Add(1)
						go func() { defer wg.Done(); c.Close() }()
					}
					vin(t, "closing", wg.Wait)
					vfree(t, c, "closing")
					var d *packet.DisConnPacket
					for d == nil {
						k := p.next(3 * time.Second)
						if k == nil {
							t.Fatal("no close request")
						}
						d, _ = k.(*packet.DisConnPacket)
					}
					p.send(p.pf.NewDisConnAckPacket(d.PacketID, nil))
					time.Sleep(30 * time.Millisecond)
					vfree(t, c, "half closed")
					p.send(p.pf.NewDisConnPacket())
				case "peer":
					p.send(p.pf.NewDisConnPacket())
					time.Sleep(30 * time.Millisecond)
					vfree(t, c, "half closed")
					dis, _, _ := vsplit(p.rest(200 * time.Millisecond))
					for _, d := range dis {
						p.send(p.pf.NewDisConnAckPacket(d.PacketID, nil))
					}
					if len(dis) == 0 {
						c.Close()
						dis, _, _ = vsplit(p.rest(200 * time.Millisecond))
						for _, d := range dis {
							p.send(p.pf.NewDisConnAckPacket(d.PacketID, nil))
						}
					}
				case "broken":
					p.c.Close()
				case "unanswered":
					vin(t, "closing", c.Close)
					vfree(t, c, "closing")
					p.c.Close()
				case "failing":
					vbase(c).netconn.Close()
					vin(t, "writing", func() { c.Write(vdata(pf, 3)[4]) })
				}
				if _, eof := vreadAll(t, c, 5*time.Second); !eof {
					t.Fatal("no end-of-file")
				}
				vfree(t, c, "finished")
				vin(t, "writing", func() { c.Write(vdata(pf, 3)[4]) })
				vfree(t, c, "a late write")
				vin(t, "closing", c.Close)
				vfree(t, c, "a late close")
			})
		}
	}
}

// sides that do not come up
func TestVerifC23Handshake(t *testing.T) {
	for _, how := range []string{"refused", "gone", "refused by the delegate", "not ready"} {
		a, b := vsock(t)
		switch how {
		case "refused", "gone":
			ch := vclient(b)
			p := newVpeer(t, a)
			k, ok := p.next(5 * time.Second).(*packet.ConnPacket)
			if !ok {
				t.Fatal("no connect packet")
			}
			if how == "refused" {
				p.send(p.pf.NewConnAckPacket(k.PacketID, 5, errors.New("no")))
			} else {
				a.Close()
			}
			if r := vwait(t, ch); r.err == nil {
				t.Errorf("%s: made", how)
			}
		case "refused by the delegate":
			ch := vserver(b, OptionServerConnDelegate(&vdlgt{iderr: errors.New("no")}))
			p := newVpeer(t, a)
			p.send(p.pf.NewConnPacket(1, true, packet.Heartbeat20, nil))
			if r := vwait(t, ch); r.err == nil {
				t.Errorf("%s: made", how)
			}
		case "not ready":
			ch := vserver(b)
			a.Close()
			if r := vwait(t, ch); r.err == nil {
				t.Errorf("%s: made", how)
			}
		}
	}
}
