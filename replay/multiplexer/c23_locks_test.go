package multiplexer

import (
	"errors"
	"fmt"
	"testing"
	"time"

	"github.com/singchia/geminio"
	"github.com/singchia/geminio/packet"
)

type vlock interface {
	TryLock() bool
	Unlock()
}

func vunlocked(t *testing.T, what string, ls ...vlock) {
	t.Helper()
	for j, l := range ls {
		ok := false
		for i := 0; i < 600 && !ok; i++ {
			if l.TryLock() {
				l.Unlock()
				ok = true
			} else {
				time.Sleep(5 * time.Millisecond)
			}
		}
		if !ok {
			t.Fatalf("%s: lock %d stays taken", what, j)
		}
	}
}

func vin(t *testing.T, what string, f func()) {
	t.Helper()
	done := make(chan int)
	go func() { f(); close(done) }()
	select {
	case <-done:
	case <-time.After(8 * time.Second):
		t.Fatalf("%s blocks", what)
	}
}

var errV = errors.New("no")

// opening, with every outcome
func TestVerifC23Open(t *testing.T) {
	for _, side := range vsides {
		for _, how := range []string{"accepted", "refused", "write error", "ended", "finished"} {
			side, how := side, how
			t.Run(fmt.Sprint(side, how), func(t *testing.T) {
				t.Parallel()
				p := newVpeer(t, side)
				m := vmgr(t, p.c, &vdlgt{})
				if how == "write error" {
					p.c.fail(errV)
					time.AfterFunc(50*time.Millisecond, p.c.Close)
				}
				if how == "finished" {
					p.c.Close()
					time.Sleep(50 * time.Millisecond)
				}
				res := make(chan Dialogue, 1)
				go func() {
					d, err := m.OpenDialogue([]byte("m"), "p")
					if (err == nil) != (how == "accepted") {
						t.Errorf("%s: %v", how, err)
					}
					res <- d
				}()
				switch how {
				case "accepted", "refused", "ended":
					k, ok := p.next(5 * time.Second).(*packet.SessionPacket)
					if !ok {
						t.Fatal("no open request")
					}
					vunlocked(t, "opening", &m.mtx)
					id := uint64(4)
					if side == geminio.RecipientSide {
						id = k.NegotiateID()
					}
					switch how {
					case "accepted":
						p.send(p.pf.NewSessionAckPacket(k.PacketID, k.NegotiateID(), id, nil))
					case "refused":
						p.send(p.pf.NewSessionAckPacket(k.PacketID, k.NegotiateID(), id, errV))
					case "ended":
						p.c.Close()
					}
				}
				var d Dialogue
				vin(t, "opening", func() { d = <-res })
				vunlocked(t, "opened", &m.mtx)
				if d != nil {
					vunlocked(t, "opened", &d.(*dialogue).mtx)
				}
				for n, f := range map[string]func(){
					"list":      func() { m.ListDialogues() },
					"get":       func() { m.GetDialogue(77, 1) },
					"get bad":   func() { m.GetDialogue(77, 999) },
					"get other": func() { m.GetDialogue(78, 1) },
				} {
					vin(t, n, f)
					vunlocked(t, n, &m.mtx)
				}
				if how != "ended" && how != "write error" && how != "finished" {
					p.send(p.msg(1, "x"))
					p.send(p.msg(888, "nobody's"))
					p.send(p.pf.NewSessionAckPacket(3, 888, 4, nil))
					p.send(p.pf.NewConnPacket(1, true, packet.Heartbeat20, nil))
					time.Sleep(20 * time.Millisecond)
					vunlocked(t, "reading", &m.mtx)
				}
				p.c.Close()
				time.Sleep(20 * time.Millisecond)
				vunlocked(t, "finished", &m.mtx)
				vin(t, "closing", m.Close)
				vunlocked(t, "closed", &m.mtx)
			})
		}
	}
}

// a stream, through its life
func TestVerifC23Stream(t *testing.T) {
	for _, side := range vsides {
		for _, how := range []string{"local", "remote", "failing", "ended", "all"} {
			side, how := side, how
			t.Run(fmt.Sprint(side, how), func(t *testing.T) {
				t.Parallel()
				p, m, d, _ := vopened(t, side)
				sid := d.DialogueID()
				free := func(what string) { t.Helper(); vunlocked(t, what, &m.mtx, &d.mtx) }
				free("opened")
				vin(t, "writing", func() { d.Write(p.msg(sid, "a")) })
				free("writing")
				p.send(p.msg(sid, "b"))
				vin(t, "reading", func() { d.Read() })
				free("reading")
				d.Meta()
				d.Peer()
				d.ClientID()
				d.DialogueID()
				d.NegotiatingID()
				d.Side()
				free("asking")
				switch how {
				case "local", "all":
					go d.Close()
					var k *packet.DismissPacket
					for k == nil {
						x := p.next(3 * time.Second)
						if x == nil {
							t.Fatal("no close request")
						}
						k, _ = x.(*packet.DismissPacket)
					}
					free("closing")
					p.send(p.pf.NewDismissAckPacket(k.PacketID, sid, nil))
					time.Sleep(20 * time.Millisecond)
					free("half closed")
					p.send(p.pf.NewDismissPacket(sid))
				case "remote":
					p.send(p.pf.NewDismissPacket(sid))
					time.Sleep(20 * time.Millisecond)
					free("half closed")
					for x := p.next(300 * time.Millisecond); x != nil; x = p.next(300 * time.Millisecond) {
						if k, ok := x.(*packet.DismissPacket); ok {
							p.send(p.pf.NewDismissAckPacket(k.PacketID, sid, nil))
						}
					}
					go d.Close()
					for x := p.next(300 * time.Millisecond); x != nil; x = p.next(300 * time.Millisecond) {
						if k, ok := x.(*packet.DismissPacket); ok {
							p.send(p.pf.NewDismissAckPacket(k.PacketID, sid, nil))
						}
					}
				case "failing":
					p.c.fail(errV)
					vin(t, "writing", func() { d.Write(p.msg(sid, "a")) })
					go d.CloseWait()
					time.Sleep(20 * time.Millisecond)
					free("failing")
					p.c.Close()
				case "ended":
					p.c.Close()
				}
				eof := make(chan int)
				go func() {
					for {
						if _, err := d.Read(); err != nil {
							close(eof)
							return
						}
					}
				}()
				vin(t, "reading", func() { <-eof })
				free("finished")
				vin(t, "writing", func() { d.Write(p.msg(sid, "a")) })
				free("a late write")
				vin(t, "closing", func() { d.Close(); d.CloseWait(); d.Close() })
				free("a late close")
				if how == "all" {
					go m.Close()
					time.Sleep(20 * time.Millisecond)
					free("closing all")
					p.c.Close()
					time.Sleep(20 * time.Millisecond)
					free("closed all")
				}
			})
		}
	}
}
