package application

import (
	"context"
	"fmt"
	"testing"
	"time"

	"github.com/singchia/geminio"
	"github.com/singchia/geminio/options"
	"github.com/singchia/geminio/packet"
)

func (r *vrig) cancels() int {
	r.sm.rpcMtx.RLock()
	defer r.sm.rpcMtx.RUnlock()
	return len(r.sm.rpcCancels)
}

func TestVerifC13Serve(t *testing.T) {
	base := time.Now()
	at := func(s int) time.Time {
		if s == 0 {
			return time.Time{}
		}
		return base.Add(time.Duration(s) * time.Second)
	}
	for _, c := range [][3]int{{0, 0, 0}, {100, 0, 100}, {0, 100, 100}, {100, 200, 100}, {200, 100, 100}, {-5, 100, -5}, {100, -5, -5}} {
		for i := 0; i < 4; i++ {
			hijack, fails := i%2 == 1, i > 1
			t.Run(fmt.Sprint(c, hijack, fails), func(t *testing.T) {
				r := vnew(t)
				defer r.dg.end()
				got := make(chan context.Context, 1)
				leave := make(chan int)
				f := func(ctx context.Context, q geminio.Request, p geminio.Response) {
					got <- ctx
					<-leave
					if fails {
						p.SetError(errV)
					}
				}
				if hijack {
					r.sm.Hijack(func(ctx context.Context, m string, q geminio.Request, p geminio.Response) { f(ctx, q, p) })
				} else {
					r.register("m", f)
				}
				k := r.pf.NewRequestPacketWithIDAndSessionID(r.pf.NewPacketID(), 9, []byte("m"), []byte("x"))
				k.Data.Deadline, k.Data.Context.Deadline = at(c[0]), at(c[1])
				r.dg.send(t, k)
				ctx := <-got
				d, ok := ctx.Deadline()
				if ok != (c[2] != 0) || ok && d.Unix() != at(c[2]).Unix() {
					t.Errorf("the handler's deadline is %v %v, want %v", d, ok, at(c[2]))
				}
				if c[2] < 0 != (ctx.Err() != nil) {
					t.Errorf("the handler's context: %v", ctx.Err())
				}
				close(leave)
				vnext[*packet.ResponsePacket](t, r.dg)
				if ctx.Err() == nil || r.cancels() != 0 {
					t.Errorf("after the handler: %v, %d kept", ctx.Err(), r.cancels())
				}
			})
		}
	}
}

func TestVerifC13Release(t *testing.T) {
	r := vnew(t)
	defer r.dg.end()
	ctxs := map[uint64]chan context.Context{}
	leaves := map[uint64]chan int{}
	ids := []uint64{}
	for i := 0; i < 6; i++ {
		id := r.pf.NewPacketID()
		ids, ctxs[id], leaves[id] = append(ids, id), make(chan context.Context, 1), make(chan int)
	}
	r.register("m", func(ctx context.Context, q geminio.Request, p geminio.Response) {
		ctxs[q.ID()] <- ctx
		<-leaves[q.ID()]
	})
	cs := map[uint64]context.Context{}
	for i, id := range ids {
		k := r.pf.NewRequestPacketWithIDAndSessionID(id, 9, []byte("m"), []byte("x"))
		if i%2 == 0 {
			k.Data.Deadline = time.Now().Add(time.Hour)
		}
		r.dg.send(t, k)
		cs[id] = <-ctxs[id]
	}
	check := func(what string, gone int) {
		t.Helper()
		for i, id := range ids {
			if (cs[id].Err() != nil) != (i < gone) {
				t.Errorf("%s: request %d: %v", what, i, cs[id].Err())
			}
		}
	}
	check("running", 0)
	cancel := func(id uint64) {
		r.dg.send(t, r.pf.NewRequestCancelPacketWithIDAndSessionID(id, 9, packet.RequestCancelTypeCanceled))
		// in order: once the next one is answered the cancel is through
		k := r.pf.NewRequestPacketWithIDAndSessionID(r.pf.NewPacketID(), 9, []byte("nothing"), nil)
		k.Data.Deadline = time.Now().Add(time.Hour)
		r.dg.send(t, k)
		vnext[*packet.ResponsePacket](t, r.dg)
	}
	cancel(ids[0])
	check("first cancelled", 1)
	cancel(ids[0])
	cancel(77777777)
	check("unknown cancelled", 1)
	cancel(ids[1])
	check("second cancelled", 2)
	close(leaves[ids[2]])
	if rsp := vnext[*packet.ResponsePacket](t, r.dg); rsp.ID() != ids[2] {
		t.Errorf("%d was answered", rsp.ID())
	}
	check("third left", 3)
	close(leaves[ids[0]])
	vnext[*packet.ResponsePacket](t, r.dg)
	check("first left", 3)
	for _, i := range []int{1, 3, 4, 5} {
		close(leaves[ids[i]])
		vnext[*packet.ResponsePacket](t, r.dg)
	}
	if n := r.cancels(); n != 0 {
		t.Errorf("%d contexts are kept", n)
	}
}

func TestVerifC13Call(t *testing.T) {
	for _, async := range []bool{false, true} {
		for _, c := range [][2]int{{0, 0}, {100, 0}, {0, 100}, {100, 200}, {200, 100}} {
			t.Run(fmt.Sprint(async, c), func(t *testing.T) {
				r := vnew(t)
				defer r.dg.end()
				ctx, cancel := context.WithCancel(bg)
				if c[1] != 0 {
					ctx, cancel = context.WithTimeout(bg, time.Duration(c[1])*time.Second)
				}
				defer cancel()
				o := options.Call()
				if c[0] != 0 {
					o.SetTimeout(time.Duration(c[0]) * time.Second)
				}
				q := r.sm.NewRequest([]byte("x"))
				other := r.sm.NewRequest([]byte("y"))
				done, odone := make(chan error, 1), make(chan error, 1)
				go func() { _, err := r.sm.Call(bg, "other", other); odone <- err }()
				vnext[*packet.RequestPacket](t, r.dg)
				before := time.Now()
				go func() {
					_, err := vthrough(async, r.sm, ctx, "m", q, nil, o)
					done <- err
				}()
				k := vnext[*packet.RequestPacket](t, r.dg)
				after := time.Now()
				near := func(d time.Time, s int) bool {
					if s == 0 {
						return d.IsZero()
					}
					x := time.Duration(s) * time.Second
					return !d.Before(before.Add(x).Add(-time.Second)) && !d.After(after.Add(x).Add(time.Second))
				}
				if !near(k.Data.Deadline, c[0]) {
					t.Errorf("the request's deadline is %v", k.Data.Deadline)
				}
				if !near(k.Data.Context.Deadline, c[1]) {
					t.Errorf("the request's context deadline is %v", k.Data.Context.Deadline)
				}
				cancel()
				select {
				case err := <-done:
					if err != context.Canceled {
						t.Errorf("cancelled call returns %v", err)
					}
				case <-time.After(vto):
					t.Fatal("cancelled call is not released")
				}
				x := vnext[*packet.RequestCancelPacket](t, r.dg)
				if x.ID() != q.ID() {
					t.Errorf("cancel for %d, request %d", x.ID(), q.ID())
				}
				r.dg.none(t, "after the cancel")
				r.dg.send(t, r.pf.NewResponsePacket(q.ID(), []byte("x"), []byte("late"), nil))
				r.dg.send(t, r.pf.NewResponsePacket(other.ID(), []byte("x"), []byte("ok"), nil))
				select {
				case err := <-odone:
					if err != nil {
						t.Errorf("the other call: %v", err)
					}
				case <-time.After(vto):
					t.Fatal("the other call is not released")
				}
			})
		}
		for _, how := range []string{"deadline", "timeout"} {
			t.Run(fmt.Sprint(async, how), func(t *testing.T) {
				r := vnew(t)
				defer r.dg.end()
				ctx := bg
				o := options.Call()
				if how == "deadline" {
					var cancel context.CancelFunc
					ctx, cancel = context.WithTimeout(bg, 50*time.Millisecond)
					defer cancel()
				} else {
					o.SetTimeout(50 * time.Millisecond)
				}
				vwithin(t, "a call past its time", func() {
					_, err := vthrough(async, r.sm, ctx, "m", r.sm.NewRequest(nil), nil, o)
					if err == nil || how == "deadline" && err != context.DeadlineExceeded {
						t.Errorf("a call past its time returns %v", err)
					}
				})
				vnext[*packet.RequestPacket](t, r.dg)
				r.dg.none(t, "after the deadline")
			})
		}
	}
}
