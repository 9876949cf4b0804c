package multiplexer

import (
	"fmt"
	"testing"
	"time"

	"github.com/singchia/geminio"
	"github.com/singchia/geminio/packet"
)

// every packet goes to the stream with exactly its id, and to no other
func TestVerifC08Routing(t *testing.T) {
	for _, side := range []geminio.Side{geminio.InitiatorSide, geminio.RecipientSide} {
		p := newVpeer(t, side)
		m := vmgr(t, p.c, nil)
		ds := map[uint64]Dialogue{1: m.defaultDialogue}
		for i := 0; i < 4; i++ {
			id, _ := p.open(uint64(1000+i*7), i%2 == 0, "m", "p")
			d := vaccept(t, m)
			if d.DialogueID() != id || ds[id] != nil {
				t.Fatalf("opened %d, accepted %d", id, d.DialogueID())
			}
			ds[id] = d
		}
		// one stream being opened by this side
		res := make(chan error, 1)
		go func() { _, err := m.OpenDialogue([]byte("x"), "y"); res <- err }()
		s, ok := p.next(5 * time.Second).(*packet.SessionPacket)
		if !ok {
			t.Fatal("no open packet")
		}
		p.send(p.pf.NewSessionAckPacket(s.PacketID+1000, 424242, 31, nil)) // nobody negotiates this
		p.send(p.pf.NewDisConnPacket())
		p.send(p.msg(987654321, "nobody"))
		p.send(p.msg(31, "nobody"))
		want := map[uint64][]string{}
		for r := 0; r < 20; r++ {
			for id := range ds {
				v := fmt.Sprintf("%d/%d", id, r)
				p.send(p.msg(id, v))
				want[id] = append(want[id], v)
			}
		}
		for id, d := range ds {
			for _, w := range want[id] {
				k, err := vread(d, 3*time.Second)
				if err != nil {
					t.Fatalf("stream %d: %v", id, err)
				}
				if vtext(k) != w {
					t.Fatalf("stream %d read %q, want %q", id, vtext(k), w)
				}
			}
			if k, err := vread(d, 20*time.Millisecond); err != errNone {
				t.Fatalf("stream %d read more: %v %v", id, k, err)
			}
		}
		if a, n := vroutes(m); a != len(ds) || n != 1 {
			t.Errorf("%d open and %d negotiating streams are routed, want %d and 1", a, n, len(ds))
		}
		// finishing one stream leaves the others
		var gone uint64
		for id := range ds {
			if id != 1 {
				gone = id
				break
			}
		}
		p.send(p.pf.NewDismissPacket(gone))
		for _, k := range p.rest(100 * time.Millisecond) {
			if d, ok := k.(*packet.DismissPacket); ok {
				if d.SessionID() != gone {
					t.Errorf("stream %d was closed, not %d", d.SessionID(), gone)
				}
				p.send(p.pf.NewDismissAckPacket(d.PacketID, gone, nil))
			}
		}
		p.rest(50 * time.Millisecond)
		p.send(p.msg(gone, "late"))
		for id, d := range ds {
			if id == gone {
				continue
			}
			p.send(p.msg(id, "still"))
			if k, err := vread(d, 3*time.Second); err != nil || vtext(k) != "still" {
				t.Errorf("after closing %d stream %d read %v, %v", gone, id, k, err)
			}
		}
		// and the pending open completes with its own acknowledgement
		p.send(p.pf.NewSessionAckPacket(s.PacketID, s.NegotiateID(), 3131, nil))
		select {
		case err := <-res:
			if err != nil {
				t.Errorf("open: %v", err)
			}
		case <-time.After(3 * time.Second):
			t.Error("open did not complete")
		}
	}
}

// what a stream sends carries the stream's id whatever tag it came with
func TestVerifC08Tagging(t *testing.T) {
	for _, side := range []geminio.Side{geminio.InitiatorSide, geminio.RecipientSide} {
		p := newVpeer(t, side)
		m := vmgr(t, p.c, nil)
		id, _ := p.open(55, true, "", "")
		ds := []Dialogue{m.defaultDialogue, vaccept(t, m)}
		for i, want := range []uint64{1, id} {
			for _, tag := range []uint64{0, 1, id, 99} {
				for _, wait := range []bool{false, true} {
					k := p.msg(tag, "v")
					w := ds[i].Write
					if wait {
						w = ds[i].WriteWait
					}
					if err := w(k); err != nil {
						t.Fatal(err)
					}
					g, ok := p.next(3 * time.Second).(*packet.MessagePacket)
					if !ok || g.SessionID() != want {
						t.Fatalf("sent with tag %d on stream %d: %v", tag, want, g)
					}
				}
			}
		}
	}
}
