package application

import (
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"sync"
	"testing"
	"time"

	"github.com/singchia/geminio"
	"github.com/singchia/geminio/options"
	"github.com/singchia/geminio/packet"
)

func TestVerifC12Foreign(t *testing.T) {
	r := vnew(t)
	defer r.dg.end()
	other, od := r.stream(11)
	defer od.end()
	for _, async := range []bool{false, true} {
		q := other.NewRequest([]byte("x"))
		if _, err := vthrough(async, r.sm, bg, "m", q, nil); err != ErrMismatchStreamID {
			t.Errorf("a request of another stream: %v", err)
		}
		q = r.sm.NewRequest([]byte("x"))
		q.SetClientID(7)
		if _, err := vthrough(async, r.sm, bg, "m", q, nil); err != ErrMismatchClientID {
			t.Errorf("a request of another client: %v", err)
		}
	}
	r.dg.none(t, "refused calls")
	od.none(t, "refused calls")
}

func TestVerifC12(t *testing.T) {
	for _, async := range []bool{false, true} {
		t.Run(fmt.Sprint(async), func(t *testing.T) {
			r := vnew(t)
			defer r.dg.end()
			const n = 60
			type want struct {
				data string
				err  string
			}
			var wg sync.WaitGroup
			var mtx sync.Mutex
			wants := map[uint64]want{}
			reqs := map[uint64]geminio.Request{}
			for i := 0; i < n; i++ {
				o := options.NewRequest()
				o.SetCustom([]byte(fmt.Sprint("custom", i)))
				q := r.sm.NewRequest([]byte(fmt.Sprint("data", i)), o)
				w := want{data: fmt.Sprint("answer", i)}
				switch i % 5 {
				case 0:
					w.err = fmt.Sprint("error", i)
				case 1:
					w = want{err: ErrMismatchResponse.Error()}
				}
				mtx.Lock()
				wants[q.ID()], reqs[q.ID()] = w, q
				mtx.Unlock()
				wg.Add(1)
				go func(i int) {
					defer wg.Done()
					var ch chan *geminio.Call
					if i%2 == 0 {
						ch = make(chan *geminio.Call, 4)
					}
					rsp, err := vthrough(async, r.sm, bg, fmt.Sprint("method", i), q, ch)
					if w.err != "" {
						if err == nil || err.Error() != w.err {
							t.Errorf("call %d returns %v, want %q", i, err, w.err)
						}
						return
					}
					if err != nil || string(rsp.Data()) != w.data || rsp.ID() != q.ID() || rsp.ClientID() != vcid || rsp.StreamID() != 9 {
						t.Errorf("call %d returns %v %v", i, rsp, err)
					}
				}(i)
			}
			ids := []uint64{}
			for i := 0; i < n; i++ {
				k := vnext[*packet.RequestPacket](t, r.dg)
				var j int
				fmt.Sscanf(string(k.Data.Key), "method%d", &j)
				mtx.Lock()
				q := reqs[k.ID()]
				mtx.Unlock()
				if q == nil {
					t.Fatalf("request with id %d was sent (again)", k.ID())
				}
				if string(k.Data.Value) != fmt.Sprint("data", j) || string(k.Data.Custom) != fmt.Sprint("custom", j) || string(q.Data()) != fmt.Sprint("data", j) {
					t.Errorf("request packet %q %q %q for call %d", k.Data.Key, k.Data.Value, k.Data.Custom, j)
				}
				mtx.Lock()
				delete(reqs, k.ID())
				mtx.Unlock()
				ids = append(ids, k.ID())
			}
			rand.Shuffle(n, func(i, j int) { ids[i], ids[j] = ids[j], ids[i] })
			// answers to nobody's call
			r.dg.send(t, r.pf.NewResponsePacket(999999, []byte("x"), []byte("wrong"), nil))
			r.dg.send(t, r.pf.NewResponsePacket(999997, []byte("x"), []byte("wrong"), errors.New("wrong")))
			r.dg.send(t, r.pf.NewMessageAckPacketWithSessionID(9, 999995, errors.New("wrong")))
			for _, id := range ids {
				w := wants[id]
				switch {
				case w.err == ErrMismatchResponse.Error():
					r.dg.send(t, r.pf.NewMessageAckPacketWithSessionID(9, id, nil))
				case w.err != "":
					r.dg.send(t, r.pf.NewResponsePacket(id, []byte("x"), []byte("unused"), errors.New(w.err)))
				default:
					r.dg.send(t, r.pf.NewResponsePacket(id, []byte("x"), []byte(w.data), nil))
				}
				// a second answer completes nothing
				r.dg.send(t, r.pf.NewResponsePacket(id, []byte("x"), []byte("twice"), nil))
			}
			vwithin(t, "waiting for the calls", wg.Wait)
			r.dg.none(t, "after the calls")
		})
	}
}

// the answer may be there before the request's write returns
func TestVerifC12Fast(t *testing.T) {
	for _, async := range []bool{false, true} {
		r := vnew(t)
		r.dg.onw = func(k packet.Packet) {
			if q, ok := k.(*packet.RequestPacket); ok {
				r.dg.in <- r.pf.NewResponsePacket(q.ID(), q.Data.Key, append([]byte("re:"), q.Data.Value...), nil)
			}
		}
		var wg sync.WaitGroup
		for g := 0; g < 8; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				for i := 0; i < 400; i++ {
					v := fmt.Sprint(g, " ", i)
					q := r.sm.NewRequest([]byte(v))
					var rsp geminio.Response
					var err error
					if async {
						var c *geminio.Call
						c, err = r.sm.CallAsync(bg, "m", q, nil)
						if err == nil {
							c = <-c.Done
							rsp, err = c.Response, c.Error
						}
					} else {
						rsp, err = r.sm.Call(bg, "m", q)
					}
					if err != nil || string(rsp.Data()) != "re:"+v {
						t.Errorf("%s: %v %v", v, rsp, err)
						return
					}
				}
			}(g)
		}
		vwithin(t, "answered calls", wg.Wait)
		r.dg.end()
	}
}

// every way an asynchronous call can end is signalled once
func TestVerifC12Ends(t *testing.T) {
	for _, how := range []string{"fail", "end", "cancel", "timeout", "deadline"} {
		t.Run(how, func(t *testing.T) {
			r := vnew(t)
			defer r.dg.end()
			ctx, cancel := bg, context.CancelFunc(func() {})
			o := options.Call()
			want := error(nil)
			switch how {
			case "cancel":
				ctx, cancel = context.WithCancel(bg)
				want = context.Canceled
			case "deadline":
				ctx, cancel = context.WithTimeout(bg, 60*time.Millisecond)
				want = context.DeadlineExceeded
			case "timeout":
				o.SetTimeout(60 * time.Millisecond)
			case "fail":
				r.dg.fail(io.ErrClosedPipe)
			}
			defer cancel()
			c, err := r.sm.CallAsync(ctx, "m", r.sm.NewRequest([]byte("x")), nil, o)
			if err != nil {
				t.Fatal(err)
			}
			if how == "cancel" {
				cancel()
			}
			if how == "end" {
				vnext[*packet.RequestPacket](t, r.dg)
				r.dg.end()
			}
			select {
			case d := <-c.Done:
				if d != c || c.Error == nil || c.Response != nil || want != nil && c.Error != want {
					t.Errorf("signalled with %v %v", c.Response, c.Error)
				}
			case <-time.After(vto):
				t.Fatal("not signalled")
			}
			select {
			case <-c.Done:
				t.Error("signalled twice")
			case <-time.After(50 * time.Millisecond):
			}
		})
	}
}
