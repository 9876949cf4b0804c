package application

import (
	"context"
	"fmt"
	"io"
	"sync"
	"testing"
	"time"

	"github.com/singchia/geminio"
	"github.com/singchia/geminio/options"
	"github.com/singchia/go-timer/v2"
)

type vtimer struct {
	timer.Timer
	closed int
}

func (v *vtimer) Close() { v.closed++ }

func TestVerifC19(t *testing.T) {
	for _, how := range []string{"end", "fail", "failc", "close", "unknown"} {
		for _, queued := range []bool{false, true} {
			if queued && how == "failc" {
				continue
			}
			t.Run(fmt.Sprint(how, queued), func(t *testing.T) {
				tm := &vtimer{Timer: vtmr()}
				r := vnew(t, OptionTimer(tm))
				defer r.dg.end()
				_, od := r.stream(11)
				defer od.end()
				cached := r.sm
				var hold chan int
				if queued {
					hold = make(chan int)
					r.dg.mtx.Lock()
					r.dg.hold = hold
					r.dg.mtx.Unlock()
				}
				r.dg.send(t, r.pf.NewMessagePacketWithIDAndSessionID(r.pf.NewPacketID(), 9, nil, []byte("m")))
				msg, err := r.sm.Receive(bg)
				if err != nil {
					t.Fatal(err)
				}
				outs := make(chan string, 64)
				wait := func(what string, f func() error) {
					go func() {
						err := f()
						if err == nil {
							outs <- what + " reports success"
						} else {
							outs <- ""
						}
					}()
				}
				n := 0
				for i := 0; i < 3; i++ {
					i := i
					for _, async := range []bool{false, true} {
						async := async
						wait("call", func() error { _, err := vthrough(async, cached, bg, "m", cached.NewRequest(nil), nil); return err })
						wait("publish", func() error {
							return vpublish19(async, cached, cached.NewMessage([]byte("x")))
						})
						n += 2
					}
					wait("register", func() error {
						return cached.Register(bg, fmt.Sprint("x", i), func(context.Context, geminio.Request, geminio.Response) {})
					})
					n++
				}
				wait("read", func() error { _, err := cached.Read(make([]byte, 3)); return err })
				wait("receive", func() error { _, err := cached.Receive(bg); return err })
				n += 2
				if queued {
					if !vuntil(func() bool { return len(cached.writeInCh) == 14 }) {
						t.Fatal("not queued")
					}
				} else if !vuntil(func() bool { return r.dg.nwrites() == 15 }) {
					t.Fatal("not sent")
				}
				switch how {
				case "end":
					r.dg.end()
				case "fail":
					r.dg.fail(errV)
					if !queued {
						cached.Write([]byte("x"))
					}
				case "failc":
					// a failure while the reading side stays
					r.dg.fail(io.ErrClosedPipe)
					cached.Write([]byte("x"))
				case "close":
					cached.Close()
					cached.Close()
				case "unknown":
					r.dg.in <- r.pf.NewDisConnPacket()
				}
				if queued {
					if how == "fail" {
						close(hold)
					} else {
						// the writer is held in the middle of a write
						defer close(hold)
					}
				}
				r.finished()
				if how == "failc" || how == "fail" {
					// the layer below ends as well
					r.dg.end()
				}
				for i := 0; i < n; i++ {
					select {
					case s := <-outs:
						if s != "" {
							t.Error(s)
						}
					case <-time.After(vto):
						t.Fatalf("%d waiters are not released", n-i)
					}
				}
				if !r.listed(11) || !r.listed(1) {
					t.Error("other streams are not listed any longer")
				}
				w := r.dg.nwrites()
				for i := 0; i < 2; i++ {
					for what, f := range map[string]func() error{
						"call":          func() error { _, err := cached.Call(bg, "m", cached.NewRequest(nil)); return err },
						"callasync":     func() error { _, err := cached.CallAsync(bg, "m", cached.NewRequest(nil), nil); return err },
						"publish":       func() error { return cached.Publish(bg, cached.NewMessage(nil)) },
						"publishasync":  func() error { _, err := cached.PublishAsync(bg, cached.NewMessage(nil), nil); return err },
						"publish0":      func() error { return cached.Publish(bg, vmsg19(cached)) },
						"publishasync0": func() error { _, err := cached.PublishAsync(bg, vmsg19(cached), nil); return err },
						"register":      func() error { return cached.Register(bg, "zz", nil) },
						"write":         func() error { _, err := cached.Write([]byte("x")); return err },
						"done":          func() error { return msg.Done() },
						"error":         func() error { return msg.Error(errV) },
						"read":          func() error { _, err := cached.Read(make([]byte, 1)); return err },
						"receive":       func() error { _, err := cached.Receive(bg); return err },
					} {
						vwithin(t, what, func() {
							if err := f(); err != io.EOF {
								t.Errorf("%s on a finished stream: %v", what, err)
							}
						})
					}
				}
				if r.dg.nwrites() != w {
					t.Error("a finished stream writes")
				}
				if tm.closed != 0 {
					t.Error("the shared timer is closed")
				}
				d := r.dg
				d.mtx.Lock()
				if how == "close" && d.closed != 1 || how == "end" && d.closed != 0 {
					t.Errorf("the layer below is closed %d times", d.closed)
				}
				d.mtx.Unlock()
			})
		}
	}
}

func vmsg19(s *stream) geminio.Message {
	o := options.NewMessage()
	o.SetCnss(options.CnssAtMostOnce)
	return s.NewMessage(nil, o)
}

func vpublish19(async bool, s *stream, m geminio.Message) error {
	if !async {
		return s.Publish(bg, m)
	}
	p, err := s.PublishAsync(bg, m, nil)
	if err != nil {
		return err
	}
	return (<-p.Done).Error
}

// operations waiting for room when the stream finishes are released
func TestVerifC19Blocked(t *testing.T) {
	for _, how := range []string{"end", "broken"} {
		r := vnew(t)
		hold := make(chan int)
		r.dg.mtx.Lock()
		r.dg.hold = hold
		r.dg.mtx.Unlock()
		var wg sync.WaitGroup
		ops := []func() error{
			func() error { _, err := r.sm.Write([]byte("x")); return err },
			func() error { return r.sm.Publish(context.Background(), vmsg19(r.sm)) },
			func() error { _, err := r.sm.Call(context.Background(), "m", r.sm.NewRequest(nil)); return err },
			func() error { _, err := r.sm.PublishAsync(context.Background(), vmsg19(r.sm), nil); return err },
		}
		for i := range ops {
			for k := 0; k < 3; k++ {
				op := ops[i]
				wg.Add(1)
				go func() {
					defer wg.Done()
					for op() == nil {
					}
				}()
			}
		}
		vuntil(func() bool { return len(r.sm.writeInCh) == cap(r.sm.writeInCh) })
		time.Sleep(50 * time.Millisecond)
		if how == "broken" {
			r.dg.fail(io.ErrClosedPipe)
		} else {
			r.dg.end()
		}
		time.Sleep(50 * time.Millisecond)
		r.dg.fail(io.ErrClosedPipe)
		close(hold)
		vwithin(t, how+": operations on a finished stream", wg.Wait)
	}
}

// the default stream ends like any other
func TestVerifC19Default(t *testing.T) {
	r := vnew(t)
	if !r.listed(1) || !r.listed(9) {
		t.Fatal("not listed")
	}
	r.mux.def.end()
	if !vuntil(func() bool { return !r.listed(1) }) {
		t.Error("the default stream is still listed")
	}
	r.dg.end()
	r.finished()
}

// acknowledgements waiting for room when the stream finishes
func TestVerifC19AckFull(t *testing.T) {
	for i := 0; i < 30 && !t.Failed(); i++ {
		r := vnew(t)
		hold := make(chan int)
		r.dg.mtx.Lock()
		r.dg.hold = hold
		r.dg.mtx.Unlock()
		r.dg.send(t, r.pf.NewMessagePacketWithSessionID(9, []byte("k"), []byte("v"), nil))
		m, err := r.sm.Receive(bg)
		if err != nil {
			t.Fatal(err)
		}
		var wg sync.WaitGroup
		for j := 0; j < 200; j++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() {
					if x := recover(); x != nil {
						t.Error(x)
					}
				}()
				m.Done()
			}()
		}
		time.Sleep(20 * time.Millisecond)
		r.dg.fail(io.ErrClosedPipe)
		close(hold)
		done := make(chan int)
		go func() { wg.Wait(); close(done) }()
		select {
		case <-done:
		case <-time.After(vto):
			t.Fatal("acknowledging waits for ever")
		}
	}
}
