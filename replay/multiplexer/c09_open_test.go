package multiplexer

import (
	"bytes"
	"errors"
	"fmt"
	"testing"
	"time"

	"github.com/singchia/geminio"
	"github.com/singchia/geminio/packet"
)

// both sides agree on id, metadata and peer
func TestVerifC09Agree(t *testing.T) {
	for _, first := range []bool{true, false} {
		ini, rec, _, _ := vlink(t)
		a, b := ini, rec
		if !first {
			a, b = rec, ini
		}
		for i, meta := range [][]byte{nil, {}, []byte("m"), bytes.Repeat([]byte("xy"), 5000)} {
			peer := fmt.Sprintf("peer%d", i)
			d, err := a.OpenDialogue(meta, peer)
			if err != nil {
				t.Fatal(err)
			}
			e := vaccept(t, b)
			if d.DialogueID() != e.DialogueID() {
				t.Errorf("ids differ: %d, %d", d.DialogueID(), e.DialogueID())
			}
			if !bytes.Equal(e.Meta(), meta) || !bytes.Equal(d.Meta(), meta) {
				t.Errorf("metadata: opened with %q, opener has %q, acceptor has %q", meta, d.Meta(), e.Meta())
			}
			if d.Peer() != peer || e.Peer() != peer {
				t.Errorf("peer: opened with %q, opener has %q, acceptor has %q", peer, d.Peer(), e.Peer())
			}
			if g, err := a.GetDialogue(77, d.DialogueID()); err != nil || g != d {
				t.Errorf("the opener does not know stream %d: %v", d.DialogueID(), err)
			}
			if g, err := b.GetDialogue(77, d.DialogueID()); err != nil || g != e {
				t.Errorf("the acceptor does not know stream %d: %v", d.DialogueID(), err)
			}
			if _, n := vroutes(a); n != 0 {
				t.Errorf("%d streams still negotiating", n)
			}
			if _, n := vroutes(b); n != 0 {
				t.Errorf("%d streams still negotiating at the acceptor", n)
			}
		}
	}
}

// the accepting side chooses the id when asked, and takes the proposed one otherwise
func TestVerifC09Accept(t *testing.T) {
	for _, side := range []geminio.Side{geminio.InitiatorSide, geminio.RecipientSide} {
		p := newVpeer(t, side)
		m := vmgr(t, p.c, nil)
		seen := map[uint64]bool{1: true}
		for i := 0; i < 6; i++ {
			acquire := i%2 == 0
			nid := uint64(5000 + i)
			id, ack := p.open(nid, acquire, "mm", "pp")
			if ack.NegotiateID() != nid || ack.SessionData.Error != "" {
				t.Errorf("answer to %d: negotiated %d, error %q", nid, ack.NegotiateID(), ack.SessionData.Error)
			}
			if !acquire && id != nid {
				t.Errorf("proposed %d, got %d", nid, id)
			}
			if seen[id] {
				t.Errorf("id %d was given twice", id)
			}
			seen[id] = true
			d := vaccept(t, m)
			if d.DialogueID() != id || string(d.Meta()) != "mm" || d.Peer() != "pp" {
				t.Errorf("accepted %d %q %q, want %d", d.DialogueID(), d.Meta(), d.Peer(), id)
			}
			// announced before it can carry data
			p.send(p.msg(id, "first"))
			if k, err := vread(d, 3*time.Second); err != nil || vtext(k) != "first" {
				t.Errorf("data right after the open: %v %v", k, err)
			}
			if ks := p.rest(20 * time.Millisecond); len(ks) != 0 {
				t.Errorf("%d more packets in answer to one open", len(ks))
			}
		}
	}
}

// a refused open fails and leaves nothing behind
func TestVerifC09Refused(t *testing.T) {
	for _, side := range []geminio.Side{geminio.InitiatorSide, geminio.RecipientSide} {
		p := newVpeer(t, side)
		m := vmgr(t, p.c, nil)
		type res struct {
			d   Dialogue
			err error
		}
		ch := make(chan res, 1)
		go func() { d, err := m.OpenDialogue([]byte("x"), "y"); ch <- res{d, err} }()
		s, ok := p.next(5 * time.Second).(*packet.SessionPacket)
		if !ok {
			t.Fatal("no open packet")
		}
		if s.SessionIDAcquire() != (side == geminio.InitiatorSide) || string(s.SessionData.Meta) != "x" || s.SessionData.Peer != "y" {
			t.Errorf("open packet: %v %q %q", s.SessionIDAcquire(), s.SessionData.Meta, s.SessionData.Peer)
		}
		p.send(p.pf.NewSessionAckPacket(s.PacketID, s.NegotiateID(), s.NegotiateID(), errors.New("not today")))
		select {
		case r := <-ch:
			if r.err == nil || r.err.Error() != "not today" || r.d != nil {
				t.Errorf("refused open returned %v, %v", r.d, r.err)
			}
		case <-time.After(5 * time.Second):
			t.Fatal("a refused open does not return")
		}
		time.Sleep(20 * time.Millisecond)
		if a, n := vroutes(m); a != 1 || n != 0 {
			t.Errorf("a refused open leaves %d open and %d negotiating streams", a-1, n)
		}
	}
}

// data and close requests right behind the acknowledgement reach the stream
func TestVerifC09DataBehindAck(t *testing.T) {
	for i := 0; i < 30; i++ {
		p := newVpeer(t, geminio.InitiatorSide)
		m := vmgr(t, p.c, nil)
		ch := make(chan Dialogue, 1)
		go func() { d, _ := m.OpenDialogue([]byte("x"), "y"); ch <- d }()
		s, ok := p.next(5 * time.Second).(*packet.SessionPacket)
		if !ok {
			t.Fatal("no open packet")
		}
		p.send(p.pf.NewSessionAckPacket(s.PacketID, s.NegotiateID(), 4444, nil))
		p.send(p.msg(4444, "a"))
		p.send(p.msg(4444, "b"))
		d := <-ch
		if d == nil {
			t.Fatal("open failed")
		}
		if d.DialogueID() != 4444 || string(d.Meta()) != "x" || d.Peer() != "y" {
			t.Errorf("opened %d %q %q", d.DialogueID(), d.Meta(), d.Peer())
		}
		for _, w := range []string{"a", "b"} {
			if k, err := vread(d, 2*time.Second); err != nil || vtext(k) != w {
				t.Fatalf("read %v %v, want %q", k, err, w)
			}
		}
	}
}

// a second open request or acknowledgement for one stream ends in nothing
func TestVerifC09Illegal(t *testing.T) {
	p := newVpeer(t, geminio.RecipientSide)
	m := vmgr(t, p.c, nil)
	id, _ := p.open(70, true, "", "")
	d := vaccept(t, m)
	p.send(p.pf.NewSessionAckPacket(123, 70, 71, nil))
	p.send(p.pf.NewSessionAckPacket(123, id, 71, nil))
	p.send(p.msg(id, "x"))
	if k, err := vread(d, 2*time.Second); err != nil || vtext(k) != "x" {
		t.Errorf("a stray acknowledgement broke the stream: %v %v", k, err)
	}
	if d.DialogueID() != id {
		t.Errorf("a stray acknowledgement renamed the stream")
	}
}

// the connection ends while a stream is being opened
type hconn struct {
	*vconn
	hook func()
}

func (c *hconn) Side() geminio.Side {
	if c.hook != nil {
		h := c.hook
		c.hook = nil
		h()
	}
	return c.vconn.Side()
}

func TestVerifC09Ending(t *testing.T) {
	for _, side := range vsides {
		c := newVconn(side)
		m := vmgr(t, c, nil)
		h := &hconn{vconn: c}
		m.cn = h
		h.hook = func() {
			c.Close()
			c.fail(errNone)
			time.Sleep(200 * time.Millisecond)
		}
		vdone(t, "opening while the connection ends", func() {
			if _, err := m.OpenDialogue(nil, ""); err == nil {
				t.Error("opened")
			}
		})
	}
}
