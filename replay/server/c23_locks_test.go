package server

import (
	"testing"
	"time"
)

func TestVerifC23Locks(t *testing.T) {
	e := &earlyDialogues{}
	n := 0
	done := make(chan int)
	go func() {
		defer close(done)
		e.do(func() { n++; e.do(func() { n++ }) })
		e.do(func() { n++ })
		if !e.mtx.TryLock() {
			t.Error("waiting keeps the lock")
			return
		}
		e.mtx.Unlock()
		e.ready()
		e.do(func() { n++; e.do(func() { n++ }) })
	}()
	select {
	case <-done:
	case <-time.After(10 * time.Second):
		t.Fatal("blocks")
	}
	if !e.mtx.TryLock() {
		t.Fatal("the lock stays taken")
	}
	if n != 5 {
		t.Errorf("%d announcements of 5", n)
	}
}
