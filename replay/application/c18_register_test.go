package application

import (
	"context"
	"errors"
	"fmt"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/singchia/geminio"
	"github.com/singchia/geminio/packet"
	"github.com/singchia/geminio/pkg/id"
)

func (r *vrig) local(m string) bool {
	r.sm.rpcMtx.RLock()
	defer r.sm.rpcMtx.RUnlock()
	return r.sm.localRPCs[m] != nil
}

// asks the stream to run a method.
func (r *vrig) ask(m string) string {
	k := r.pf.NewRequestPacketWithIDAndSessionID(r.pf.NewPacketID(), 9, []byte(m), []byte("x"))
	r.dg.send(r.t, k)
	p := vnext[*packet.ResponsePacket](r.t, r.dg)
	if p.Data.Error != "" {
		return "!" + p.Data.Error
	}
	return string(p.Data.Value)
}

func TestVerifC18Register(t *testing.T) {
	r := vnew(t)
	defer r.dg.end()
	for i, m := range []string{"a", "b", "", "a", "a", "b"} {
		done := make(chan error, 1)
		h := fmt.Sprint("handler", i)
		go func() { done <- r.sm.Register(bg, m, vsays(h)) }()
		k := vnext[*packet.RegisterPacket](t, r.dg)
		if k.Method() != m || k.SessionID() != 9 {
			t.Errorf("registration %q %d for %q", k.Method(), k.SessionID(), m)
		}
		r.dg.send(t, r.pf.NewRegisterAckPacket(k.ID()+10, nil))
		r.dg.send(t, r.pf.NewRegisterAckPacket(k.ID()+12, errors.New("wrong")))
		select {
		case err := <-done:
			t.Fatalf("registered without acknowledgement: %v", err)
		case <-time.After(40 * time.Millisecond):
		}
		if got := r.ask(m); got != h {
			t.Errorf("registering %q: %q runs", m, got)
		}
		r.dg.send(t, r.pf.NewRegisterAckPacket(k.ID(), nil))
		vwithin(t, "acknowledged register", func() {
			if err := <-done; err != nil {
				t.Error(err)
			}
		})
		if got := r.ask(m); got != h {
			t.Errorf("registered %q: %q runs", m, got)
		}
		r.dg.none(t, "registered")
	}
	if got := r.ask("a"); got != "handler4" {
		t.Errorf("%q runs for a", got)
	}
	if got := r.ask("c"); !strings.HasPrefix(got, "!no such rpc") {
		t.Errorf("%q runs for c", got)
	}
}

// the acknowledgement may be there before the registration's write returns
func TestVerifC18Fast(t *testing.T) {
	r := vnew(t)
	defer r.dg.end()
	r.dg.onw = func(k packet.Packet) {
		if q, ok := k.(*packet.RegisterPacket); ok {
			r.dg.in <- r.pf.NewRegisterAckPacket(q.ID(), nil)
		}
	}
	vwithin(t, "acknowledged registers", func() {
		for i := 0; i < 1000; i++ {
			ctx, cancel := context.WithTimeout(bg, 5*time.Second)
			if err := r.sm.Register(ctx, fmt.Sprint(i), vsays("x")); err != nil {
				t.Error(i, err)
			}
			cancel()
		}
	})
}

func TestVerifC18Fails(t *testing.T) {
	for _, how := range []string{"refused", "cancel", "deadline", "end"} {
		t.Run(how, func(t *testing.T) {
			r := vnew(t)
			defer r.dg.end()
			ctx, cancel := context.WithCancel(bg)
			if how == "deadline" {
				ctx, cancel = context.WithTimeout(bg, 60*time.Millisecond)
			}
			defer cancel()
			done := make(chan error, 1)
			go func() { done <- r.sm.Register(ctx, "m", vsays("x")) }()
			k := vnext[*packet.RegisterPacket](t, r.dg)
			if !r.local("m") {
				t.Error("not callable locally")
			}
			want := ""
			switch how {
			case "refused":
				r.dg.send(t, r.pf.NewRegisterAckPacket(k.ID(), errV))
				want = errV.Error()
			case "cancel":
				cancel()
				want = context.Canceled.Error()
			case "deadline":
				want = context.DeadlineExceeded.Error()
			case "end":
				r.dg.end()
			}
			select {
			case err := <-done:
				if err == nil || want != "" && err.Error() != want {
					t.Errorf("returns %v", err)
				}
			case <-time.After(vto):
				t.Fatal("not released")
			}
			if r.local("m") {
				t.Error("still callable")
			}
		})
	}
}

func TestVerifC18Remote(t *testing.T) {
	for _, check := range []bool{false, true} {
		t.Run(fmt.Sprint(check), func(t *testing.T) {
			opts := []EndOption{}
			if check {
				opts = append(opts, OptionWithRemoteRPCCheck())
			}
			r := vnew(t, opts...)
			defer r.dg.end()
			other, od := r.stream(11)
			defer od.end()
			call := func(s *stream, d *vdg, m string, ok bool) {
				t.Helper()
				for _, async := range []bool{false, true} {
					done := make(chan error, 1)
					go func() { _, err := vthrough(async, s, bg, m, s.NewRequest([]byte("x")), nil); done <- err }()
					if !ok {
						select {
						case err := <-done:
							if err != ErrRemoteRPCUnregistered {
								t.Errorf("calling %q: %v", m, err)
							}
						case <-time.After(vto):
							t.Fatalf("calling %q is not refused", m)
						}
						continue
					}
					k := vnext[*packet.RequestPacket](t, d)
					if string(k.Data.Key) != m {
						t.Errorf("request for %q", k.Data.Key)
					}
					d.send(t, r.pf.NewResponsePacket(k.ID(), nil, []byte("y"), nil))
					if err := <-done; err != nil {
						t.Errorf("calling %q: %v", m, err)
					}
				}
			}
			call(r.sm, r.dg, "foo", !check)
			for i, m := range []string{"foo", "bar", "", "foo"} {
				k := r.pf.NewRegisterPacketWithSessionID(9, []byte(m))
				r.dg.send(t, k)
				a := vnext[*packet.RegisterAckPacket](t, r.dg)
				if a.ID() != k.ID() || a.RegisterData != nil && a.RegisterData.Error != "" {
					t.Errorf("registration %d acknowledged with %d", k.ID(), a.ID())
				}
				if !vuntil(func() bool { r.reg.mtx.Lock(); defer r.reg.mtx.Unlock(); return len(r.reg.regs) == i+1 }) {
					t.Fatal("registration is not reported")
				}
				if got := strings.Join(r.reg.regs, ","); got != strings.Join([]string{"foo", "bar", "", "foo"}[:i+1], ",") {
					t.Errorf("%q reported", got)
				}
				call(r.sm, r.dg, m, true)
				call(r.sm, r.dg, "fo", !check)
				call(other, od, m, !check)
			}
			r.dg.none(t, "after the registrations")
			od.none(t, "after the registrations")
			// the stream stays usable
			vwithin(t, "write", func() {
				if n, err := r.sm.Write([]byte("x")); n != 1 || err != nil {
					t.Errorf("write: %d %v", n, err)
				}
			})
			vnext[*packet.StreamPacket](t, r.dg)
			r.dg.end()
			r.finished()
		})
	}
}

// vasked is a connection that does something the k-th time it is asked for its client id.
type vasked struct {
	vconn
	mtx sync.Mutex
	k   int
	f   func()
}

func (c *vasked) ClientID() uint64 {
	c.mtx.Lock()
	c.k--
	now := c.k == 0
	c.mtx.Unlock()
	if now {
		c.f()
	}
	return c.cid
}

type vstart struct {
	end *End
	err error
}

// an end is made once each method it waits for is registered, whenever that happens
func TestVerifC18Waits(t *testing.T) {
	make := func(at int, do func(*vdg, packet.PacketFactory), opts ...EndOption) (*vdg, packet.PacketFactory, chan vstart, chan string) {
		m := &vmux{def: newVdg(vcid, 1), accept: make(chan *vdg, 16)}
		pf := packet.NewPacketFactory(id.NewIDCounter(id.Even))
		asked := make(chan string, 64)
		// the peer acknowledges registrations
		m.def.onw = func(p packet.Packet) {
			if k, ok := p.(*packet.RegisterPacket); ok {
				asked <- k.Method()
				a := pf.NewRegisterAckPacket(k.ID(), nil)
				a.SetSessionID(1)
				c, err := vcopy(a)
				if err != nil {
					t.Error(err)
				}
				m.def.put(c)
			}
		}
		c := &vasked{vconn: vconn{vcid}, k: at}
		c.f = func() { do(m.def, pf) }
		res := make(chan vstart, 1)
		opts = append([]EndOption{OptionTimer(vtmr()), OptionPacketFactory(packet.NewPacketFactory(id.NewIDCounter(id.Odd)))}, opts...)
		go func() {
			e, err := NewEnd(c, m, opts...)
			res <- vstart{e, err}
		}()
		return m.def, pf, res, asked
	}
	tell := func(d *vdg, pf packet.PacketFactory, m string) {
		n := d.nwrites()
		k := pf.NewRegisterPacket([]byte(m))
		k.SetSessionID(1)
		c, err := vcopy(k)
		if err != nil {
			t.Error(err)
		}
		d.put(c)
		for i := 0; i < 100 && d.nwrites() == n; i++ {
			time.Sleep(2 * time.Millisecond)
		}
		time.Sleep(10 * time.Millisecond)
	}
	for at := 1; at < 12; at++ {
		var fired atomic.Int32
		d, pf, res, _ := make(at, func(d *vdg, pf packet.PacketFactory) { fired.Add(1); tell(d, pf, "m") }, OptionWaitRemoteRPCs("m", "n"))
		time.Sleep(100 * time.Millisecond)
		tell(d, pf, "other")
		select {
		case r := <-res:
			t.Fatalf("made before the second method was registered: %v", r.err)
		case <-time.After(40 * time.Millisecond):
		}
		tell(d, pf, "n")
		if fired.Load() == 0 {
			// there was no such moment
			tell(d, pf, "m")
		}
		select {
		case r := <-res:
			if r.err != nil || r.end == nil {
				t.Fatalf("waiting for two methods: %v", r.err)
			}
		case <-time.After(vto):
			t.Fatalf("still waiting, both methods are registered (%d)", at)
		}
		d.end()
	}
	// it ends while waiting
	d, pf, res, _ := make(0, nil, OptionWaitRemoteRPCs("m", "n"))
	tell(d, pf, "n")
	d.end()
	select {
	case r := <-res:
		if r.err == nil || r.end != nil {
			t.Error("made without the method it waits for")
		}
	case <-time.After(vto):
		t.Error("still waiting on a stream that ended")
	}
	// what it serves is registered, one by one
	d, _, res, asked := make(0, nil, OptionRegisterLocalRPCs(&geminio.MethodRPC{Method: "p", RPC: vsays("P")}, &geminio.MethodRPC{Method: "q", RPC: vsays("Q")}))
	select {
	case r := <-res:
		if r.err != nil || r.end == nil {
			t.Fatal(r.err)
		}
		if len(asked) != 2 || <-asked != "p" || <-asked != "q" {
			t.Error("not every method was registered")
		}
		sm := r.end.stream
		if len(sm.localRPCs) != 2 || sm.localRPCs["p"] == nil || sm.localRPCs["q"] == nil {
			t.Error("not every method is served")
		}
	case <-time.After(vto):
		t.Error("still registering")
	}
	d.end()
}

// the method waited for is known once the end is made
func TestVerifC18Told(t *testing.T) {
	m := &vmux{def: newVdg(vcid, 1), accept: make(chan *vdg, 16)}
	pf := packet.NewPacketFactory(id.NewIDCounter(id.Even))
	type res struct {
		e   *End
		err error
	}
	ch := make(chan res, 1)
	go func() {
		e, err := NewEnd(&vconn{vcid}, m, OptionTimer(vtmr()), OptionWaitRemoteRPCs("m"), OptionWithRemoteRPCCheck())
		ch <- res{e, err}
	}()
	time.Sleep(50 * time.Millisecond)
	hold := make(chan int)
	m.def.mtx.Lock()
	m.def.hold = hold
	m.def.mtx.Unlock()
	m.def.send(t, pf.NewRegisterPacket([]byte("m")))
	var r res
	select {
	case r = <-ch:
	case <-time.After(300 * time.Millisecond):
		close(hold)
		hold = nil
		select {
		case r = <-ch:
		case <-time.After(vto):
			t.Fatal("the method is registered, but the end still waits for it")
		}
	}
	if r.err != nil {
		t.Fatal(r.err)
	}
	errs := make(chan error, 1)
	go func() { _, err := r.e.Call(bg, "m", r.e.NewRequest(nil)); errs <- err }()
	select {
	case err := <-errs:
		if err == ErrRemoteRPCUnregistered {
			t.Error("the method waited for is not known")
		}
	case <-time.After(300 * time.Millisecond):
		// it was sent
	}
	if hold != nil {
		close(hold)
	}
	m.def.end()
}
