package multiplexer

import (
	"errors"
	"io"
	"sync"
	"testing"
	"time"

	"github.com/singchia/geminio"
	"github.com/singchia/geminio/packet"
	"github.com/singchia/geminio/pkg/id"
)

// vended checks the state after the end.
func vended(t *testing.T, m *dialogueMgr, d *dialogue, dl *vdlgt, sid uint64) {
	t.Helper()
	for {
		_, err := vread(d, 3*time.Second)
		if err == io.EOF {
			break
		}
		if err != nil {
			t.Fatal("readers see no end-of-file")
		}
	}
	for i := 0; i < 100; i++ {
		d.mtx.RLock()
		ok := d.dialogueOK
		d.mtx.RUnlock()
		if !ok {
			break
		}
		time.Sleep(10 * time.Millisecond)
	}
	if err := d.Write(packet.NewPacketFactory(id.NewIDCounter(id.Odd)).NewMessagePacket([]byte("k"), []byte("v"))); err != io.EOF {
		t.Errorf("a later write returned %v", err)
	}
	vdone(t, "a later close", func() { d.Close(); d.CloseWait() })
	m.mtx.RLock()
	_, ok := m.dialogues[sid]
	m.mtx.RUnlock()
	if ok {
		t.Error("the finished stream is still routed")
	}
	if on, off := dl.counts(sid); on != 1 || off != 1 {
		t.Errorf("reported online %d times and offline %d times", on, off)
	}
}

func TestVerifC10LocalClose(t *testing.T) {
	for _, side := range vsides {
		p, m, d, dl := vopened(t, side)
		sid := d.DialogueID()
		var wg sync.WaitGroup
		for i := 0; i < 8; i++ {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				if i%2 == 0 {
					d.Close()
				} else {
					d.CloseWait()
				}
			}(i)
		}
		k, ok := p.next(3 * time.Second).(*packet.DismissPacket)
		if !ok || k.SessionID() != sid {
			t.Fatalf("no close request: %v", k)
		}
		if ks := p.rest(50 * time.Millisecond); len(ks) != 0 {
			t.Errorf("%d more packets for one close", len(ks))
		}
		// half closed: data still arrives
		p.send(p.msg(sid, "late"))
		p.send(p.pf.NewDismissAckPacket(k.PacketID, sid, nil))
		p.send(p.msg(sid, "later"))
		for _, w := range []string{"late", "later"} {
			if g, err := vread(d, 2*time.Second); err != nil || vtext(g) != w {
				t.Errorf("a half closed stream read %v %v, want %q", g, err, w)
			}
		}
		if _, err := vread(d, 50*time.Millisecond); err != errNone {
			t.Errorf("finished before the other direction was closed: %v", err)
		}
		q := p.pf.NewDismissPacket(sid)
		p.send(q)
		a, ok := p.next(3 * time.Second).(*packet.DismissAckPacket)
		if !ok || a.PacketID != q.PacketID || a.SessionID() != sid {
			t.Errorf("the close request was not acknowledged: %v", a)
		}
		vdone(t, "closing", wg.Wait)
		vended(t, m, d, dl, sid)
		if c, err := m.ClosedDialogue(); err != nil || c != Dialogue(d) {
			t.Errorf("closed stream: %v %v", c, err)
		}
		if ks := p.rest(50 * time.Millisecond); len(ks) != 0 {
			t.Errorf("%d more packets after the end", len(ks))
		}
	}
}

func TestVerifC10RemoteClose(t *testing.T) {
	for _, side := range vsides {
		for _, ackFirst := range []bool{true, false} {
			p, m, d, dl := vopened(t, side)
			sid := d.DialogueID()
			q := p.pf.NewDismissPacket(sid)
			p.send(q)
			var req *packet.DismissPacket
			acks := 0
			for i := 0; i < 2; i++ {
				switch k := p.next(3 * time.Second).(type) {
				case *packet.DismissAckPacket:
					acks++
					if k.PacketID != q.PacketID || k.SessionID() != sid {
						t.Errorf("acknowledged %d, sent %d", k.PacketID, q.PacketID)
					}
				case *packet.DismissPacket:
					req = k
				default:
					t.Errorf("got %T", k)
				}
			}
			if acks != 1 || req == nil {
				t.Fatalf("%d acknowledgements, request %v", acks, req)
			}
			if _, err := vread(d, 30*time.Millisecond); err != errNone {
				t.Errorf("finished before its own close was acknowledged: %v", err)
			}
			if !ackFirst {
				d.Close()
				p.send(p.msg(sid, "x"))
				if g, err := vread(d, 2*time.Second); err != nil || vtext(g) != "x" {
					t.Errorf("a closing stream read %v %v", g, err)
				}
			}
			p.send(p.pf.NewDismissAckPacket(req.PacketID, sid, nil))
			vended(t, m, d, dl, sid)
			if ks := p.rest(50 * time.Millisecond); len(ks) != 0 {
				t.Errorf("%d more packets", len(ks))
			}
		}
	}
}

// both close at once
func TestVerifC10Crossing(t *testing.T) {
	for i := 0; i < 20; i++ {
		ini, rec, _, _ := vlink(t)
		a, err := ini.OpenDialogue(nil, "")
		if err != nil {
			t.Fatal(err)
		}
		b := vaccept(t, rec)
		go a.Close()
		go b.Close()
		for _, d := range []Dialogue{a, b} {
			if _, err := vread(d, 3*time.Second); err != io.EOF {
				t.Fatalf("both closed, a reader got %v", err)
			}
		}
		if i == 0 {
			if a, n := vroutes(ini); a != 1 || n != 0 {
				t.Errorf("%d and %d streams left", a-1, n)
			}
		}
	}
}

// the connection goes away
func TestVerifC10ConnGone(t *testing.T) {
	for _, side := range vsides {
		p, m, d, dl := vopened(t, side)
		sid := d.DialogueID()
		res := make(chan error, 1)
		go func() { _, err := m.OpenDialogue(nil, ""); res <- err }()
		p.next(time.Second)
		p.send(p.msg(sid, "x"))
		p.c.Close()
		select {
		case err := <-res:
			if err == nil {
				t.Error("open succeeded without a connection")
			}
		case <-time.After(5 * time.Second):
			t.Error("a pending open is not released")
		}
		if g, err := vread(d, 2*time.Second); err != nil || vtext(g) != "x" {
			t.Errorf("data received before the end is lost: %v %v", g, err)
		}
		time.Sleep(50 * time.Millisecond)
		if _, err := vread(m.defaultDialogue, 2*time.Second); err != io.EOF {
			t.Errorf("the default stream did not end: %v", err)
		}
		_, err := vread(d, 2*time.Second)
		if err != io.EOF {
			t.Errorf("the stream did not end: %v", err)
		}
		for i := 0; i < 50; i++ {
			if _, off := dl.counts(sid); off > 0 {
				break
			}
			time.Sleep(10 * time.Millisecond)
		}
		if _, err := m.OpenDialogue(nil, ""); err == nil {
			t.Error("open succeeded on a finished manager")
		}
		if a, n := vroutes(m); a != 0 || n != 0 {
			t.Errorf("%d and %d streams left", a, n)
		}
		if k, err := m.AcceptDialogue(); err != io.EOF {
			t.Errorf("accept returned %v %v", k, err)
		}
	}
}

// a write error must not keep the stream from finishing
func TestVerifC10WriteError(t *testing.T) {
	for _, side := range vsides {
		p, m, d, dl := vopened(t, side)
		sid := d.DialogueID()
		p.c.fail(errors.New("broken"))
		vdone(t, "writing", func() {
			for i := 0; i < 300; i++ {
				if d.Write(p.msg(sid, "x")) != nil {
					break
				}
			}
		})
		p.c.Close()
		for {
			_, err := vread(d, 3*time.Second)
			if err == io.EOF {
				break
			}
			if err != nil {
				t.Fatal("the stream does not finish after a write error")
			}
		}
		_ = m
		_ = dl
	}
}

// a repeated or unexpected close packet ends the stream, it does not hang it
func TestVerifC10Illegal(t *testing.T) {
	for _, side := range vsides {
		p, m, d, dl := vopened(t, side)
		sid := d.DialogueID()
		p.send(p.pf.NewDismissAckPacket(5, sid, nil)) // nothing was requested
		vended(t, m, d, dl, sid)
	}
}

// data before the stream is open is dropped
func TestVerifC10Early(t *testing.T) {
	p := newVpeer(t, geminio.InitiatorSide)
	m := vmgr(t, p.c, nil)
	ch := make(chan Dialogue, 1)
	go func() { d, _ := m.OpenDialogue(nil, ""); ch <- d }()
	s, ok := p.next(5 * time.Second).(*packet.SessionPacket)
	if !ok {
		t.Fatal("no open packet")
	}
	p.send(p.msg(s.NegotiateID(), "early"))
	p.send(p.pf.NewSessionAckPacket(s.PacketID, s.NegotiateID(), 99, nil))
	p.send(p.msg(99, "data"))
	d := <-ch
	if d == nil {
		t.Fatal("open failed")
	}
	if k, err := vread(d, 2*time.Second); err != nil || vtext(k) != "data" {
		t.Errorf("read %v %v", k, err)
	}
}

// closing the manager closes every stream
func TestVerifC10ManagerClose(t *testing.T) {
	ini, rec, _, cr := vlink(t)
	var ds []Dialogue
	for i := 0; i < 3; i++ {
		a, err := ini.OpenDialogue(nil, "")
		if err != nil {
			t.Fatal(err)
		}
		ds = append(ds, a, vaccept(t, rec))
	}
	vdone(t, "closing the manager", ini.Close)
	for _, d := range ds {
		if _, err := vread(d, 3*time.Second); err != io.EOF {
			t.Errorf("after closing the manager a reader got %v", err)
		}
	}
	time.Sleep(20 * time.Millisecond)
	vdone(t, "closing again", ini.Close)
	cr.Close()
	_ = rec
}

// closing a manager from two places, before it finished, is closing it once
func TestVerifC10ManagerCloseTwice(t *testing.T) {
	for i := 0; i < 10; i++ {
		ini, _, ci, cr := vlink(t)
		if _, err := ini.OpenDialogue(nil, ""); err != nil {
			t.Fatal(err)
		}
		ini.mtx.RLock() // it cannot finish meanwhile
		var wg sync.WaitGroup
		bad := make(chan interface{}, 2)
		for j := 0; j < 2; j++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() {
					if r := recover(); r != nil {
						bad <- r
					}
				}()
				ini.Close()
			}()
		}
		time.Sleep(5 * time.Millisecond)
		ini.mtx.RUnlock()
		vdone(t, "closing twice", wg.Wait)
		select {
		case r := <-bad:
			t.Fatalf("closing the manager twice panicked: %v", r)
		default:
		}
		ci.Close()
		cr.Close()
	}
}

// writers waiting for room when the stream ends are released
func TestVerifC10Blocked(t *testing.T) {
	for _, side := range vsides {
		p, m, d, _ := vopened(t, side)
		sid := d.DialogueID()
		hold := make(chan int)
		p.c.mtx.Lock()
		p.c.out = func(packet.Packet) { <-hold }
		p.c.mtx.Unlock()
		var wg sync.WaitGroup
		for i := 0; i < 8; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for d.Write(p.msg(sid, "x")) == nil {
				}
			}()
		}
		for i := 0; i < 300 && len(d.writeInCh) < cap(d.writeInCh); i++ {
			time.Sleep(10 * time.Millisecond)
		}
		time.Sleep(50 * time.Millisecond)
		p.c.Close()
		go func() {
			time.Sleep(100 * time.Millisecond)
			close(hold)
			p.c.fail(errors.New("broken"))
		}()
		vdone(t, "writing to an ended stream", wg.Wait)
		vdone(t, "reading an ended stream", func() {
			for _, err := d.Read(); err == nil; _, err = d.Read() {
			}
		})
		_ = m
	}
}

// a stream that fails while more packets wait for room in it leaves the others alone
func TestVerifC10Full(t *testing.T) {
	for i := 0; i < 8; i++ {
		p, _, d, dl := vopened(t, vsides[i%2])
		sid := d.DialogueID()
		hold := make(chan int)
		p.c.mtx.Lock()
		p.c.out = func(k packet.Packet) { <-hold; p.out <- k }
		p.c.mtx.Unlock()
		go func() {
			for i := 0; i < cap(d.writeOutCh)+4; i++ {
				d.Write(p.msg(sid, "x"))
			}
			// it was opened before, this ends the stream
			d.Write(p.pf.NewSessionPacket(99, true, nil, ""))
		}()
		for i := 0; i < 300 && (len(d.writeOutCh) < cap(d.writeOutCh) || len(d.writeInCh) < 3); i++ {
			time.Sleep(10 * time.Millisecond)
		}
		for i := 0; i < 20*cap(d.readInCh); i++ {
			p.send(p.msg(sid, "y"))
		}
		time.Sleep(50 * time.Millisecond)
		go func() {
			for range d.ReadC() {
			}
		}()
		close(hold)
		vdone(t, "opening another stream", func() {
			p.send(p.pf.NewSessionPacket(21, true, nil, ""))
			for {
				if _, ok := p.next(8*time.Second).(*packet.SessionAckPacket); ok {
					break
				}
			}
		})
		for i := 0; i < 300; i++ {
			if _, off := dl.counts(sid); off > 0 {
				break
			}
			time.Sleep(10 * time.Millisecond)
		}
		if on, off := dl.counts(sid); on != 1 || off != 1 {
			t.Errorf("reported online %d times, offline %d times", on, off)
		}
	}
}

// closing what nobody reads ends by time, with the other streams and the connection left alone
func TestVerifC10Unread(t *testing.T) {
	for _, how := range []string{"stream", "stream and wait", "manager"} {
		for _, side := range vsides {
			how, side := how, side
			t.Run(how, func(t *testing.T) {
				t.Parallel()
				p, m, d, dl := vopened(t, side)
				sid := d.DialogueID()
				const n = 300
				for i := 0; i < n; i++ {
					p.send(p.msg(sid, string(rune('0'+i))))
				}
				time.Sleep(50 * time.Millisecond)
				done := make(chan int)
				go func() {
					defer close(done)
					switch how {
					case "stream":
						d.Close()
					case "stream and wait":
						d.CloseWait()
					case "manager":
						m.Close()
					}
				}()
				time.Sleep(31 * time.Second)
				vdone(t, "closing", func() { <-done })
				if how == "manager" {
					vdone(t, "the connection", func() {
						for i := 0; i < 3*cap(p.c.in); i++ {
							p.send(p.msg(sid, "late"))
						}
					})
				} else {
					vdone(t, "opening another stream", func() { p.rest(0); p.open(21, true, "", "") })
				}
				i := 0
				vdone(t, "reading the closed stream", func() {
					for k, err := d.Read(); err == nil; k, err = d.Read() {
						if vtext(k) != string(rune('0'+i)) {
							t.Fatalf("packet %d is %q", i, vtext(k))
						}
						i++
					}
				})
				if i < cap(d.readOutCh) {
					t.Errorf("%d packets are left", i)
				}
				if how != "manager" {
					if on, off := dl.counts(sid); on != 1 || off != 1 {
						t.Errorf("reported online %d times, offline %d times", on, off)
					}
				}
				p.c.Close()
			})
		}
	}
}
