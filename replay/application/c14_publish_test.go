package application

import (
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"sync"
	"testing"
	"time"

	"github.com/singchia/geminio"
	"github.com/singchia/geminio/options"
	"github.com/singchia/geminio/packet"
)

// vpublish publishes either way and waits for the outcome.
func vpublish(async bool, s *stream, ctx context.Context, m geminio.Message, ch chan *geminio.Publish, o ...*options.PublishOptions) error {
	if !async {
		return s.Publish(ctx, m, o...)
	}
	p, err := s.PublishAsync(ctx, m, ch, o...)
	if err != nil || p == nil {
		return err
	}
	if p.Message != m || ch != nil && p.Done != ch {
		return errors.New("the publish doesn't carry what was asked for")
	}
	d, ok := <-p.Done
	if !ok || d != p {
		return errors.New("another publish was signalled")
	}
	select {
	case <-p.Done:
		return errors.New("signalled twice")
	case <-time.After(20 * time.Millisecond):
	}
	return p.Error
}

func vmsg(s *stream, data, topic, custom string, c options.Cnss) geminio.Message {
	o := options.NewMessage()
	o.SetTopic(topic)
	o.SetCustom([]byte(custom))
	o.SetCnss(c)
	return s.NewMessage([]byte(data), o)
}

func TestVerifC14Foreign(t *testing.T) {
	r := vnew(t)
	defer r.dg.end()
	other, od := r.stream(11)
	defer od.end()
	for _, async := range []bool{false, true} {
		for _, c := range []options.Cnss{options.CnssAtMostOnce, options.CnssAtLeastOnce} {
			m := vmsg(other, "a", "b", "c", c)
			if err := vpublish(async, r.sm, bg, m, nil); err != ErrMismatchStreamID {
				t.Errorf("a message of another stream: %v", err)
			}
			m = vmsg(r.sm, "a", "b", "c", c)
			m.SetClientID(7)
			if err := vpublish(async, r.sm, bg, m, nil); err != ErrMismatchClientID {
				t.Errorf("a message of another client: %v", err)
			}
		}
	}
	r.dg.none(t, "refused messages")
	od.none(t, "refused messages")
}

func TestVerifC14(t *testing.T) {
	for _, async := range []bool{false, true} {
		t.Run(fmt.Sprint(async), func(t *testing.T) {
			r := vnew(t)
			defer r.dg.end()
			const n = 60
			var wg sync.WaitGroup
			var mtx sync.Mutex
			ms := map[uint64]int{}
			finished := map[int]bool{}
			for i := 0; i < n; i++ {
				c := options.CnssAtLeastOnce
				if i%4 == 3 {
					c = options.CnssAtMostOnce
				}
				m := vmsg(r.sm, fmt.Sprint("data", i), fmt.Sprint("topic", i), fmt.Sprint("custom", i), c)
				if i%8 == 4 {
					m = r.sm.NewMessage([]byte(fmt.Sprint("data", i)), func() *options.NewMessageOptions {
						o := options.NewMessage()
						o.SetTopic(fmt.Sprint("topic", i))
						o.SetCustom([]byte(fmt.Sprint("custom", i)))
						return o
					}())
				}
				mtx.Lock()
				ms[m.ID()] = i
				mtx.Unlock()
				wg.Add(1)
				go func(i int) {
					defer wg.Done()
					var ch chan *geminio.Publish
					if i%2 == 0 {
						ch = make(chan *geminio.Publish, 4)
					}
					err := vpublish(async, r.sm, bg, m, ch)
					mtx.Lock()
					finished[i] = true
					mtx.Unlock()
					want := ""
					if i%3 == 0 && i%4 != 3 {
						want = fmt.Sprint("error", i)
					}
					got := ""
					if err != nil {
						got = err.Error()
					}
					if got != want {
						t.Errorf("publish %d returns %q, want %q", i, got, want)
					}
				}(i)
			}
			ids := []uint64{}
			idx := map[uint64]int{}
			for i := 0; i < n; i++ {
				k := vnext[*packet.MessagePacket](t, r.dg)
				mtx.Lock()
				j, ok := ms[k.ID()]
				delete(ms, k.ID())
				mtx.Unlock()
				if !ok {
					t.Fatalf("message with id %d was sent (again)", k.ID())
				}
				if string(k.Data.Value) != fmt.Sprint("data", j) || k.Data.Topic != fmt.Sprint("topic", j) || string(k.Data.Custom) != fmt.Sprint("custom", j) || !k.Data.Deadline.IsZero() || !k.Data.Context.Deadline.IsZero() {
					t.Errorf("message packet %q %q %q for %d", k.Data.Value, k.Data.Topic, k.Data.Custom, j)
				}
				ids = append(ids, k.ID())
				idx[k.ID()] = j
			}
			if !vuntil(func() bool {
				mtx.Lock()
				defer mtx.Unlock()
				for i := 3; i < n; i += 4 {
					if !finished[i] {
						return false
					}
				}
				return true
			}) {
				t.Fatal("at-most-once messages wait")
			}
			time.Sleep(50 * time.Millisecond)
			mtx.Lock()
			for i := range finished {
				if i%4 != 3 {
					t.Errorf("publish %d finished before its acknowledgement", i)
				}
			}
			mtx.Unlock()
			rand.Shuffle(n, func(i, j int) { ids[i], ids[j] = ids[j], ids[i] })
			r.dg.send(t, r.pf.NewMessageAckPacketWithSessionID(9, 999999, nil))
			r.dg.send(t, r.pf.NewMessageAckPacketWithSessionID(9, 999997, errors.New("wrong")))
			for _, id := range ids {
				var err error
				if i := idx[id]; i%3 == 0 {
					err = errors.New(fmt.Sprint("error", i))
				}
				r.dg.send(t, r.pf.NewMessageAckPacketWithSessionID(9, id, err))
				r.dg.send(t, r.pf.NewMessageAckPacketWithSessionID(9, id, errors.New("twice")))
			}
			vwithin(t, "waiting for the publishes", wg.Wait)
			r.dg.none(t, "after the publishes")
		})
	}
}

// the acknowledgement may be there before the message's write returns
func TestVerifC14Fast(t *testing.T) {
	for _, async := range []bool{false, true} {
		r := vnew(t)
		r.dg.onw = func(k packet.Packet) {
			if q, ok := k.(*packet.MessagePacket); ok {
				r.dg.in <- r.pf.NewMessageAckPacketWithSessionID(9, q.ID(), nil)
			}
		}
		var wg sync.WaitGroup
		for g := 0; g < 8; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < 400; i++ {
					m := vmsg(r.sm, "a", "b", "c", options.CnssAtLeastOnce)
					var err error
					if async {
						var p *geminio.Publish
						p, err = r.sm.PublishAsync(bg, m, nil)
						if err == nil {
							err = (<-p.Done).Error
						}
					} else {
						err = r.sm.Publish(bg, m)
					}
					if err != nil {
						t.Error(err)
						return
					}
				}
			}()
		}
		vwithin(t, "acknowledged publishes", wg.Wait)
		r.dg.end()
	}
}

func TestVerifC14Ends(t *testing.T) {
	for _, async := range []bool{false, true} {
		for _, how := range []string{"fail", "end", "cancel", "timeout", "deadline", "short"} {
			t.Run(fmt.Sprint(async, how), func(t *testing.T) {
				r := vnew(t)
				defer r.dg.end()
				ctx, cancel := context.WithCancel(bg)
				o := options.Publish()
				want := error(nil)
				switch how {
				case "cancel":
					want = context.Canceled
				case "deadline":
					ctx, cancel = context.WithTimeout(bg, 60*time.Millisecond)
					want = context.DeadlineExceeded
				case "timeout":
					o.SetTimeout(60 * time.Millisecond)
				case "fail":
					r.dg.fail(errV)
					want = errV
				case "short":
					r.dg.fail(io.ErrShortBuffer)
					want = io.ErrShortBuffer
				}
				defer cancel()
				done := make(chan error, 1)
				before := time.Now()
				m := vmsg(r.sm, "a", "b", "c", options.CnssAtLeastOnce)
				go func() { done <- vpublish(async, r.sm, ctx, m, nil, o) }()
				if how != "fail" && how != "short" {
					k := vnext[*packet.MessagePacket](t, r.dg)
					near := func(d time.Time, on bool) bool {
						return d.IsZero() != on && (!on || d.Sub(before) < 20*time.Second && d.Sub(before) > -2*time.Second)
					}
					if !near(k.Data.Deadline, how == "timeout") || !near(k.Data.Context.Deadline, how == "deadline") {
						t.Errorf("message sent with %v %v", k.Data.Deadline, k.Data.Context.Deadline)
					}
				}
				switch how {
				case "cancel":
					cancel()
				case "end":
					r.dg.end()
				}
				select {
				case err := <-done:
					if err == nil || want != nil && err != want {
						t.Errorf("returns %v", err)
					}
				case <-time.After(vto):
					t.Fatal("not released")
				}
			})
		}
	}
}
