package application

import (
	"fmt"
	"testing"
	"time"

	timer "github.com/singchia/go-timer/v2"
)

func quiet(t *testing.T, c chan vop, what string) {
	t.Helper()
	select {
	case o := <-c:
		t.Errorf("%s: returns %d %v", what, o.n, o.err)
	case <-time.After(60 * time.Millisecond):
	}
}

func TestVerifC17(t *testing.T) {
	past := time.Now().Add(-time.Hour)
	for _, kind := range []string{"past", "soon"} {
		for _, which := range []string{"read", "write", "both"} {
			for _, first := range []bool{false, true} {
				kind, which, first := kind, which, first
				t.Run(fmt.Sprint(kind, which, first), func(t *testing.T) {
					t.Parallel()
					r, hold := vblocked(t)
					defer r.dg.end()
					defer close(hold)
					rc, wc := make(chan vop, 9), make(chan vop, 9)
					start := func() {
						for i := 0; i < 3; i++ {
							r.read0(rc)
							r.write(wc)
						}
						if first && (!r.waiting(0, 1) || !r.waiting(1, 3)) {
							t.Fatal("operations do not wait")
						}
					}
					if first {
						start()
					}
					d := past
					if kind == "soon" {
						d = time.Now().Add(80 * time.Millisecond)
					}
					set := map[string]func(time.Time) error{"read": r.sm.SetReadDeadline, "write": r.sm.SetWriteDeadline, "both": r.sm.SetDeadline}[which]
					if err := set(d); err != nil {
						t.Fatal(err)
					}
					if !first {
						start()
					}
					if which != "write" {
						released(t, rc, 3, "reads")
					} else {
						quiet(t, rc, "reads")
					}
					if which != "read" {
						released(t, wc, 3, "writes")
					} else {
						quiet(t, wc, "writes")
					}
					quiet(t, rc, "more reads")
					quiet(t, wc, "more writes")
					// still past
					if which != "write" {
						r.read0(rc)
						released(t, rc, 1, "a later read")
					}
					if which != "read" {
						r.write(wc)
						released(t, wc, 1, "a later write")
					}
					// removed
					r.sm.SetDeadline(time.Time{})
					if which != "write" {
						r.read0(rc)
					}
					if which != "read" {
						r.write(wc)
					}
					quiet(t, rc, "reads with no deadline")
					quiet(t, wc, "writes with no deadline")
				})
			}
		}
	}
}

func (r *vrig) read0(c chan vop) { r.read(c) }

// replaced deadlines do nothing any more, operations that can proceed do
func TestVerifC17Replace(t *testing.T) {
	for _, to := range []time.Duration{0, time.Hour, 400 * time.Millisecond} {
		to := to
		t.Run(fmt.Sprint(to), func(t *testing.T) {
			t.Parallel()
			r, hold := vblocked(t)
			defer r.dg.end()
			rc, wc := make(chan vop, 9), make(chan vop, 9)
			r.sm.SetDeadline(time.Now().Add(60 * time.Millisecond))
			r.read(rc)
			r.write(wc)
			var d time.Time
			began := time.Now()
			if to != 0 {
				d = began.Add(to)
			}
			r.sm.SetReadDeadline(d)
			r.sm.SetWriteDeadline(d)
			if time.Since(began) > 50*time.Millisecond {
				t.Skip("too slow")
			}
			time.Sleep(150 * time.Millisecond)
			if time.Since(began) < 300*time.Millisecond {
				quiet(t, rc, "read with a replaced deadline")
				quiet(t, wc, "write with a replaced deadline")
			}
			if to == 400*time.Millisecond {
				released(t, rc, 1, "read")
				released(t, wc, 1, "write")
				if time.Since(began) < 300*time.Millisecond {
					t.Error("released by the replaced deadline")
				}
				close(hold)
				return
			}
			r.dg.send(t, r.pf.NewStreamPacketWithSessionID(9, []byte("abc")))
			if o := <-rc; o.n != 3 || o.err != nil {
				t.Errorf("read: %v", o)
			}
			close(hold)
			if o := <-wc; o.n != 2 || o.err != nil {
				t.Errorf("write: %v", o)
			}
			if !r.waiting(0, 0) || !r.waiting(1, 0) {
				t.Error("finished operations are kept")
			}
			// an expired deadline touches no finished operation, and no operation that can proceed at once
			r.sm.SetDeadline(time.Now().Add(-time.Second))
			r.dg.send(t, r.pf.NewStreamPacketWithSessionID(9, []byte("abcdefg")))
			if !vuntil(func() bool { return len(r.sm.streamCh) == 1 && len(r.sm.writeInCh) == 0 }) {
				t.Fatal("not handed up")
			}
			for _, w := range []vop{{5, nil}, {2, nil}} {
				r.read(rc)
				if o := <-rc; o != w {
					t.Errorf("a read that can proceed at once: %v", o)
				}
			}
			r.write(wc)
			if o := <-wc; o.n != 2 || o.err != nil {
				t.Errorf("a write that can proceed at once: %v", o)
			}
		})
	}
}

// setting a deadline returns, also when the timer is closed
func TestVerifC17ClosedTimer(t *testing.T) {
	tmr := timer.NewTimer()
	r := vnew(t, OptionTimer(tmr))
	defer r.dg.end()
	tmr.Close()
	d := time.Now().Add(time.Hour)
	vwithin(t, "setting a read deadline", func() { r.sm.SetReadDeadline(d) })
	vwithin(t, "setting a write deadline", func() { r.sm.SetWriteDeadline(d) })
	vwithin(t, "setting both deadlines", func() { r.sm.SetDeadline(d) })
}
