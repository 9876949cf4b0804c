package application

import (
	"context"
	"errors"
	"fmt"
	"regexp"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/singchia/geminio"
	"github.com/singchia/geminio/options"
	"github.com/singchia/geminio/packet"
)

type vcalled struct {
	mtx  sync.Mutex
	what []string
}

func (c *vcalled) add(s string) { c.mtx.Lock(); c.what = append(c.what, s); c.mtx.Unlock() }
func (c *vcalled) get() string  { c.mtx.Lock(); defer c.mtx.Unlock(); return strings.Join(c.what, " ") }

func TestVerifC11(t *testing.T) {
	for _, hijack := range []string{"none", "all", "match", "nomatch", "bad"} {
		for _, method := range []string{"foo", "bar", "", "foobar"} {
			for _, herr := range []error{nil, errV} {
				t.Run(fmt.Sprint(hijack, method, herr), func(t *testing.T) {
					r := vnew(t)
					defer r.dg.end()
					calls := &vcalled{}
					see := func(who string, ctx context.Context, req geminio.Request, rsp geminio.Response) {
						calls.add(fmt.Sprintf("%s %s %s %s %d %d %d", who, req.Method(), req.Data(), req.Custom(), req.ID(), req.ClientID(), req.StreamID()))
						rsp.SetData([]byte("answer of " + who))
						if herr != nil {
							rsp.SetError(herr)
						}
					}
					for _, m := range []string{"foo", "foobar"} {
						m := m
						go r.sm.Register(bg, m, func(ctx context.Context, q geminio.Request, p geminio.Response) { see("old"+m, ctx, q, p) })
						reg := vnext[*packet.RegisterPacket](t, r.dg)
						r.dg.send(t, r.pf.NewRegisterAckPacket(reg.ID(), nil))
						vuntil(func() bool { r.sm.rpcMtx.RLock(); defer r.sm.rpcMtx.RUnlock(); return r.sm.localRPCs[m] != nil })
						go r.sm.Register(bg, m, func(ctx context.Context, q geminio.Request, p geminio.Response) { see(m, ctx, q, p) })
						reg = vnext[*packet.RegisterPacket](t, r.dg)
						r.dg.send(t, r.pf.NewRegisterAckPacket(reg.ID(), nil))
					}
					var err error
					h := func(ctx context.Context, m string, q geminio.Request, p geminio.Response) {
						see("hijack:"+m, ctx, q, p)
					}
					switch hijack {
					case "all":
						err = r.sm.Hijack(h)
					case "match":
						o := options.Hijack()
						o.SetMatch(true, "^foo")
						err = r.sm.Hijack(h, o)
					case "nomatch":
						o := options.Hijack()
						o.SetMatch(false, "^foo$")
						err = r.sm.Hijack(h, o)
					case "bad":
						o := options.Hijack()
						o.SetMatch(true, "(")
						if r.sm.Hijack(h, o) == nil {
							t.Error("a bad pattern was taken")
						}
					}
					if err != nil {
						t.Fatal(err)
					}
					time.Sleep(10 * time.Millisecond)
					who := ""
					switch {
					case hijack == "all", hijack == "match" && regexp.MustCompile("^foo").MatchString(method), hijack == "nomatch" && method != "foo":
						who = "hijack:" + method
					case method == "foo" || method == "foobar":
						who = method
					}
					pkt := r.pf.NewRequestPacketWithIDAndSessionID(r.pf.NewPacketID(), 9, []byte(method), []byte("data of it"))
					pkt.Data.Custom = []byte("custom")
					r.dg.send(t, pkt)
					rsp := vnext[*packet.ResponsePacket](t, r.dg)
					want := ""
					if who != "" {
						want = fmt.Sprintf("%s %s data of it custom %d %d 9", who, method, pkt.ID(), vcid)
					}
					if got := calls.get(); got != want {
						t.Errorf("handlers ran: %q, want %q", got, want)
					}
					if rsp.ID() != pkt.ID() {
						t.Errorf("response has id %d, request %d", rsp.ID(), pkt.ID())
					}
					switch {
					case who == "":
						if !strings.Contains(rsp.Data.Error, "no such rpc") || len(rsp.Data.Value) != 0 {
							t.Errorf("no handler but response %q %q", rsp.Data.Value, rsp.Data.Error)
						}
					case herr != nil:
						if rsp.Data.Error != herr.Error() {
							t.Errorf("error %q was returned", rsp.Data.Error)
						}
						fallthrough
					default:
						if string(rsp.Data.Value) != "answer of "+who || herr == nil && rsp.Data.Error != "" {
							t.Errorf("response %q %q", rsp.Data.Value, rsp.Data.Error)
						}
					}
					r.dg.none(t, "after the response")
				})
			}
		}
	}
}

// many requests at once, each answered once by its own answer
func TestVerifC11Many(t *testing.T) {
	r := vnew(t)
	defer r.dg.end()
	go r.sm.Register(bg, "echo", func(ctx context.Context, q geminio.Request, p geminio.Response) {
		if q.Data()[0]%3 == 0 {
			p.SetError(errors.New("e" + string(q.Data())))
		}
		p.SetData(append([]byte("r"), q.Data()...))
	})
	reg := vnext[*packet.RegisterPacket](t, r.dg)
	r.dg.send(t, r.pf.NewRegisterAckPacket(reg.ID(), nil))
	want := map[uint64]string{}
	for i := 0; i < 200; i++ {
		m := "echo"
		if i%7 == 0 {
			m = "other"
		}
		v := fmt.Sprintf("%c%d", 'a'+i%5, i)
		k := r.pf.NewRequestPacketWithIDAndSessionID(r.pf.NewPacketID(), 9, []byte(m), []byte(v))
		if m == "echo" {
			want[k.ID()] = "r" + v + "|"
			if v[0]%3 == 0 {
				want[k.ID()] += "e" + v
			}
		} else {
			want[k.ID()] = "|no such rpc: other"
		}
		r.dg.send(t, k)
	}
	for i := 0; i < 200; i++ {
		rsp := vnext[*packet.ResponsePacket](t, r.dg)
		if got := string(rsp.Data.Value) + "|" + rsp.Data.Error; got != want[rsp.ID()] {
			t.Errorf("request %d got %q, want %q", rsp.ID(), got, want[rsp.ID()])
		}
		delete(want, rsp.ID())
	}
	if len(want) != 0 {
		t.Errorf("%d requests are not answered", len(want))
	}
	r.dg.none(t, "after all")
}

// a handler that takes its time holds up nothing else
func TestVerifC11Beside(t *testing.T) {
	for _, hijack := range []bool{false, true} {
		t.Run(fmt.Sprint(hijack), func(t *testing.T) {
			r := vnew(t)
			defer r.dg.end()
			leave := make(chan int)
			if hijack {
				o := options.Hijack()
				o.SetMatch(true, "^slow$")
				if err := r.sm.Hijack(func(context.Context, string, geminio.Request, geminio.Response) { <-leave }, o); err != nil {
					t.Fatal(err)
				}
			} else {
				r.register("slow", func(context.Context, geminio.Request, geminio.Response) { <-leave })
			}
			r.register("fast", vsays("fast"))
			r.dg.send(t, r.pf.NewRequestPacketWithIDAndSessionID(r.pf.NewPacketID(), 9, []byte("slow"), nil))
			k := r.pf.NewRequestPacketWithIDAndSessionID(r.pf.NewPacketID(), 9, []byte("fast"), nil)
			r.dg.send(t, k)
			if p, ok := r.dg.next(vto).(*packet.ResponsePacket); !ok || p.ID() != k.ID() {
				t.Errorf("a request behind a slow handler: %v", p)
			}
			close(leave)
			vnext[*packet.ResponsePacket](t, r.dg)
		})
	}
}
