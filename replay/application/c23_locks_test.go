package application

import (
	"context"
	"errors"
	"fmt"
	"io"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/singchia/geminio"
	"github.com/singchia/geminio/options"
	"github.com/singchia/geminio/packet"
)

func vCallTimeout() *options.CallOptions {
	o := options.Call()
	o.SetTimeout(30 * time.Millisecond)
	return o
}

func vPublishTimeout() *options.PublishOptions {
	o := options.Publish()
	o.SetTimeout(30 * time.Millisecond)
	return o
}

func vcheck(b bool) EndOption {
	if b {
		return OptionWithRemoteRPCCheck()
	}
	return func(*End) {}
}

type vlock interface {
	TryLock() bool
	Unlock()
}

// vfree tells which locks of the stream stay taken.
func (r *vrig) vfree(what string) {
	r.t.Helper()
	r.vfreeOf(r.sm, what)
	r.vfreeOf(r.end.stream, what+" (the end's)")
}

func (r *vrig) vfreeOf(sm *stream, what string) {
	r.t.Helper()
	for n, l := range map[string]vlock{"mtx": &sm.mtx, "rpcMtx": &sm.rpcMtx, "dlMtx": &sm.dlMtx, "cacheMtx": &sm.cacheMtx} {
		if !vuntilShort(func() bool {
			if !l.TryLock() {
				return false
			}
			l.Unlock()
			return true
		}) {
			r.t.Fatalf("%s: %s stays locked", what, n)
		}
	}
}

func vuntilShort(f func() bool) bool {
	for i := 0; i < 500; i++ {
		if f() {
			return true
		}
		time.Sleep(5 * time.Millisecond)
	}
	return false
}

// voperations lists every operation, with the ways it may end.
func (r *vrig) voperations() map[string]func() {
	sm := r.sm
	short := func() context.Context {
		c, cancel := context.WithTimeout(bg, 30*time.Millisecond)
		_ = cancel
		return c
	}
	dead := func() context.Context { c, cancel := context.WithCancel(bg); cancel(); return c }
	ops := map[string]func(){}
	for _, m := range []string{"known", "unknown", ""} {
		m := m
		ops["call "+m+" short"] = func() { sm.Call(short(), m, sm.NewRequest([]byte("x"))) }
		ops["call "+m+" dead"] = func() { sm.Call(dead(), m, sm.NewRequest([]byte("x"))) }
		ops["call "+m+" timeout"] = func() {
			sm.Call(bg, m, sm.NewRequest([]byte("x")), vCallTimeout())
		}
		ops["callasync "+m] = func() { sm.CallAsync(short(), m, sm.NewRequest([]byte("x")), nil) }
		ops["callasync dead "+m] = func() { sm.CallAsync(dead(), m, sm.NewRequest([]byte("x")), nil) }
		ops["callasync timeout "+m] = func() {
			sm.CallAsync(bg, m, sm.NewRequest([]byte("x")), nil, vCallTimeout())
		}
		ops["register short "+m] = func() { sm.Register(short(), m, vsays("m")) }
		ops["register dead "+m] = func() { sm.Register(dead(), m, vsays("m")) }
	}
	foreignReq := &request{id: 1, clientID: 9, streamID: 9, method: "m"}
	ops["call foreign"] = func() { sm.Call(short(), "m", foreignReq) }
	ops["callasync foreign"] = func() { sm.CallAsync(short(), "m", foreignReq, nil) }
	ops["publish short"] = func() { sm.Publish(short(), sm.NewMessage([]byte("x"))) }
	ops["publish dead"] = func() { sm.Publish(dead(), sm.NewMessage([]byte("x"))) }
	ops["publish timeout"] = func() {
		sm.Publish(bg, sm.NewMessage([]byte("x")), vPublishTimeout())
	}
	ops["publish at most once"] = func() {
		o := options.NewMessage()
		o.SetCnss(options.CnssAtMostOnce)
		sm.Publish(short(), sm.NewMessage([]byte("x"), o))
	}
	ops["publishasync at most once"] = func() {
		o := options.NewMessage()
		o.SetCnss(options.CnssAtMostOnce)
		sm.PublishAsync(short(), sm.NewMessage([]byte("x"), o), nil)
	}
	ops["publishasync"] = func() { sm.PublishAsync(short(), sm.NewMessage([]byte("x")), nil) }
	ops["publishasync timeout"] = func() {
		sm.PublishAsync(bg, sm.NewMessage([]byte("x")), nil, vPublishTimeout())
	}
	foreignMsg := &message{id: 1, clientID: 9, streamID: 9}
	ops["publish foreign"] = func() { sm.Publish(short(), foreignMsg) }
	ops["publishasync foreign"] = func() { sm.PublishAsync(short(), foreignMsg, nil) }
	ops["receive short"] = func() { sm.Receive(short()) }
	ops["receive dead"] = func() { sm.Receive(dead()) }
	ops["hijack"] = func() { sm.Hijack(func(context.Context, string, geminio.Request, geminio.Response) {}) }
	ops["hijack bad"] = func() {
		o := options.Hijack()
		o.SetMatch(true, "(")
		sm.Hijack(func(context.Context, string, geminio.Request, geminio.Response) {}, o)
	}
	ops["write"] = func() { sm.Write([]byte("hello")) }
	ops["write nothing"] = func() { sm.Write(nil) }
	ops["read"] = func() {
		sm.SetReadDeadline(time.Now().Add(30 * time.Millisecond))
		sm.Read(make([]byte, 3))
		sm.SetReadDeadline(time.Time{})
	}
	ops["read past"] = func() {
		sm.SetReadDeadline(time.Now().Add(-time.Second))
		sm.Read(make([]byte, 3))
		sm.Read(nil)
		sm.SetReadDeadline(time.Time{})
	}
	ops["write past"] = func() {
		sm.SetWriteDeadline(time.Now().Add(-time.Second))
		sm.Write([]byte("x"))
		sm.SetWriteDeadline(time.Time{})
	}
	ops["deadlines"] = func() {
		sm.SetDeadline(time.Now().Add(time.Hour))
		sm.SetDeadline(time.Now().Add(20 * time.Millisecond))
		time.Sleep(60 * time.Millisecond)
		sm.SetDeadline(time.Time{})
		sm.SetReadDeadline(time.Now().Add(20 * time.Millisecond))
		sm.SetWriteDeadline(time.Now().Add(20 * time.Millisecond))
		time.Sleep(60 * time.Millisecond)
		sm.SetDeadline(time.Time{})
	}
	ops["streams"] = func() {
		r.end.ListStreams()
		r.mux.mtx.Lock()
		r.mux.err = errV
		r.mux.mtx.Unlock()
		r.end.OpenStream()
		r.mux.mtx.Lock()
		r.mux.err = nil
		r.mux.mtx.Unlock()
	}
	return ops
}

func TestVerifC23Operations(t *testing.T) {
	for _, check := range []bool{false, true} {
		for _, state := range []string{"live", "failing", "finished", "answered"} {
			check, state := check, state
			t.Run(fmt.Sprint(check, state), func(t *testing.T) {
				t.Parallel()
				r := vnew(t, vcheck(check))
				defer r.dg.end()
				switch state {
				case "answered":
					r.dg.onw = func(k packet.Packet) {
						var a packet.Packet
						switch p := k.(type) {
						case *packet.RequestPacket:
							a = r.pf.NewResponsePacket(p.ID(), []byte(p.Data.Key), []byte("v"), nil)
							if p.ID()%4 == 1 {
								a = r.pf.NewResponsePacket(p.ID(), []byte(p.Data.Key), []byte("v"), errV)
							}
						case *packet.MessagePacket:
							a = r.pf.NewMessageAckPacketWithSessionID(9, p.ID(), nil)
							if p.ID()%4 == 1 {
								a = r.pf.NewMessageAckPacketWithSessionID(9, p.ID(), errV)
							}
						case *packet.RegisterPacket:
							a = r.pf.NewRegisterAckPacket(p.ID(), nil)
							if p.ID()%4 == 1 {
								a = r.pf.NewRegisterAckPacket(p.ID(), errV)
							}
						default:
							return
						}
						a.(packet.SessionAbove).SetSessionID(9)
						if a, err := vcopy(a); err == nil {
							r.dg.put(a)
						}
					}
				case "finished":
					r.dg.end()
					r.finished()
				}
				for n, f := range r.voperations() {
					if state == "failing" {
						r = vnew(t, vcheck(check))
						dg := r.dg
						dg.fail(errV)
						time.AfterFunc(100*time.Millisecond, dg.end)
						f = r.voperations()[n]
					}
					vwithin(t, n, f)
					vwithin(t, n+" again", f)
					r.vfree(n)
				}
			})
		}
	}
}

// what the peer sends leaves no lock taken, whatever it is
func TestVerifC23Incoming(t *testing.T) {
	for _, hijack := range []bool{false, true} {
		for _, finished := range []bool{false, true} {
			hijack, finished := hijack, finished
			t.Run(fmt.Sprint(hijack, finished), func(t *testing.T) {
				t.Parallel()
				r := vnew(t)
				defer r.dg.end()
				done := make(chan int)
				go func() { r.sm.Register(bg, "known", vsays("m")); close(done) }()
				g := vnext[*packet.RegisterPacket](t, r.dg)
				a := r.pf.NewRegisterAckPacket(g.ID(), nil)
				r.dg.send(t, a)
				vwithin(t, "register", func() { <-done })
				slow := func(c context.Context, _ geminio.Request, p geminio.Response) {
					select {
					case <-c.Done():
					case <-time.After(20 * time.Millisecond):
					}
					p.SetError(errV)
				}
				go func() { r.sm.Register(bg, "slow", slow) }()
				vnext[*packet.RegisterPacket](t, r.dg)
				if hijack {
					r.sm.Hijack(func(_ context.Context, m string, _ geminio.Request, p geminio.Response) { p.SetData([]byte(m)) })
				}
				mk := map[string]func() packet.Packet{}
				for _, m := range []string{"known", "unknown", "slow"} {
					m := m
					mk["request "+m] = func() packet.Packet {
						return r.pf.NewRequestPacketWithIDAndSessionID(r.pf.NewPacketID(), 9, []byte(m), []byte("x"))
					}
					mk["request with deadline "+m] = func() packet.Packet {
						k := r.pf.NewRequestPacketWithIDAndSessionID(r.pf.NewPacketID(), 9, []byte(m), []byte("x"))
						k.Data.Deadline = time.Now().Add(5 * time.Millisecond)
						k.Data.Timeout = 3 * time.Millisecond
						return k
					}
					mk["register "+m] = func() packet.Packet { return r.pf.NewRegisterPacketWithSessionID(9, []byte(m)) }
				}
				id := uint64(5)
				mk["cancel"] = func() packet.Packet {
					return r.pf.NewRequestCancelPacketWithIDAndSessionID(id, 9, packet.RequestCancelTypeCanceled)
				}
				mk["response"] = func() packet.Packet { return r.pf.NewResponsePacket(id, []byte("m"), []byte("v"), nil) }
				mk["response error"] = func() packet.Packet { return r.pf.NewResponsePacket(id, []byte("m"), []byte("v"), errV) }
				mk["message ack"] = func() packet.Packet { return r.pf.NewMessageAckPacketWithSessionID(9, id, nil) }
				mk["message ack error"] = func() packet.Packet { return r.pf.NewMessageAckPacketWithSessionID(9, id, errV) }
				mk["register ack"] = func() packet.Packet { return r.pf.NewRegisterAckPacket(id, nil) }
				mk["register ack error"] = func() packet.Packet { return r.pf.NewRegisterAckPacket(id, errV) }
				mk["message"] = func() packet.Packet {
					return r.pf.NewMessagePacketWithSessionID(9, []byte("k"), []byte("v"), nil)
				}
				mk["stream"] = func() packet.Packet { return r.pf.NewStreamPacketWithSessionID(9, []byte("raw")) }
				for n, f := range mk {
					if finished {
						r = vnew(t)
					}
					k := f()
					k.(packet.SessionAbove).SetSessionID(9)
					k, err := vcopy(k)
					if err != nil {
						t.Fatal(err)
					}
					r.dg.put(k)
					r.dg.put(k)
					if finished {
						r.dg.end()
						r.finished()
					}
					r.vfree(n)
				}
				if finished {
					return
				}
				// acknowledged by hand, late and never
				m, err := r.sm.Receive(bg)
				if err != nil {
					t.Fatal(err)
				}
				vwithin(t, "done", func() { m.Done(); m.Error(errV); m.Done() })
				r.vfree("acknowledging")
				b := make([]byte, 2)
				vwithin(t, "reading", func() { r.sm.Read(b); r.sm.Read(b); r.sm.Read(nil) })
				r.vfree("reading")
				time.Sleep(60 * time.Millisecond)
				r.vfree("handlers")
				r.dg.end()
				r.finished()
				vwithin(t, "late acknowledgement", func() { m.Done(); m.Error(errV) })
				r.vfree("late acknowledgement")
			})
		}
	}
}

// operations that wait are let go without keeping a lock, however the stream finishes
func TestVerifC23Finish(t *testing.T) {
	for _, how := range []string{"close", "end", "fail", "end of the end", "twice"} {
		how := how
		t.Run(how, func(t *testing.T) {
			t.Parallel()
			r := vnew(t)
			var wg sync.WaitGroup
			do := func(f func()) {
				wg.Add(1)
				go func() { defer wg.Done(); f() }()
			}
			for i := 0; i < 3; i++ {
				do(func() { r.sm.Call(bg, "m", r.sm.NewRequest(nil)) })
				do(func() { r.sm.Publish(bg, r.sm.NewMessage(nil)) })
				do(func() { r.sm.Register(bg, "m", vsays("x")) })
				do(func() { r.sm.Receive(bg) })
				do(func() { r.sm.Read(make([]byte, 4)) })
				do(func() { r.sm.CallAsync(bg, "m", r.sm.NewRequest(nil), nil) })
				do(func() { r.sm.PublishAsync(bg, r.sm.NewMessage(nil), nil) })
			}
			time.Sleep(50 * time.Millisecond)
			r.vfreeButCache("waiting")
			switch how {
			case "close":
				r.sm.Close()
			case "twice":
				go r.sm.Close()
				r.sm.Close()
			case "end":
				r.dg.end()
			case "fail":
				r.dg.fail(errV)
				r.sm.Write([]byte("x"))
				r.dg.end()
			case "end of the end":
				r.end.Close()
				r.dg.end()
			}
			vwithin(t, "finishing", wg.Wait)
			r.finished()
			r.vfreeOf(r.sm, "finished")
			for n, f := range map[string]func() error{
				"write": func() error { _, err := r.sm.Write([]byte("x")); return err },
				"close": func() error { r.sm.Close(); return io.EOF },
				"read":  func() error { _, err := r.sm.Read(make([]byte, 1)); return err },
			} {
				vwithin(t, n, func() {
					if err := f(); !errors.Is(err, io.EOF) {
						t.Errorf("%s on a finished stream: %v", n, err)
					}
				})
				r.vfreeOf(r.sm, n)
			}
		})
	}
}

// vfreeButCache: a waiting read keeps the lock on what is left over
func (r *vrig) vfreeButCache(what string) {
	r.t.Helper()
	for n, l := range map[string]vlock{"mtx": &r.sm.mtx, "rpcMtx": &r.sm.rpcMtx, "dlMtx": &r.sm.dlMtx} {
		if !vuntilShort(func() bool {
			if !l.TryLock() {
				return false
			}
			l.Unlock()
			return true
		}) {
			r.t.Fatalf("%s: %s stays locked", what, n)
		}
	}
}

// operations that wait for room are let go by their deadline without keeping a lock
func TestVerifC23Blocked(t *testing.T) {
	r, hold := vblocked(t)
	c := make(chan vop, 9)
	for i := 0; i < 3; i++ {
		r.write(c)
	}
	if !r.waiting(1, 3) {
		t.Fatal("writes do not wait")
	}
	for _, d := range []time.Duration{time.Hour, 30 * time.Millisecond} {
		vwithin(t, "setting", func() { r.sm.SetWriteDeadline(time.Now().Add(d)) })
	}
	released(t, c, 3, "writes")
	vwithin(t, "setting", func() { r.sm.SetWriteDeadline(time.Time{}) })
	r.vfree("timed out")
	close(hold)
	r.dg.end()
	r.finished()
	r.vfreeOf(r.sm, "finished")
}

// methods of the peer, while they come and go
func TestVerifC23Peer(t *testing.T) {
	r := vnew(t, vcheck(true))
	defer r.dg.end()
	for i := 0; i < 20; i++ {
		m := fmt.Sprint("m", i%3)
		r.dg.send(t, r.pf.NewRegisterPacketWithSessionID(9, []byte(m)))
		vnext[*packet.RegisterAckPacket](t, r.dg)
		c, cancel := context.WithCancel(bg)
		done := make(chan error, 2)
		go func() { _, err := r.sm.Call(c, m, r.sm.NewRequest(nil)); done <- err }()
		vnext[*packet.RequestPacket](t, r.dg)
		cancel()
		vwithin(t, "cancelled call", func() {
			if err := <-done; err == nil || strings.Contains(err.Error(), "unregistered") {
				t.Error(err)
			}
		})
		vnext[*packet.RequestCancelPacket](t, r.dg)
		r.vfree("cancelled")
	}
}
