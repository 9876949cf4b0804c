package sync

import (
	"sync"
	"sync/atomic"
	"testing"
	"time"
)

func TestVerifC24(t *testing.T) {
	for round := 0; round < 3000; round++ {
		var o Once
		var n int32
		var wg sync.WaitGroup
		start := make(chan struct{})
		for g := 0; g < 6; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				o.Do(func() { atomic.AddInt32(&n, 1) })
			}()
		}
		close(start)
		wg.Wait()
		o.Do(func() { atomic.AddInt32(&n, 1) })
		if n != 1 {
			t.Fatalf("ran %d times", n)
		}
	}
	var o Once
	done := make(chan int, 1)
	go func() {
		n := 0
		o.Do(func() {
			n++
			o.Do(func() { n += 10 })
		})
		o.Do(func() { n += 100 })
		done <- n
	}()
	select {
	case n := <-done:
		if n != 1 {
			t.Fatalf("reentrant: %d", n)
		}
	case <-time.After(5 * time.Second):
		t.Fatal("blocked")
	}
}

func TestVerifC24Panic(t *testing.T) {
	var o Once
	n := 0
	for i := 0; i < 3; i++ {
		func() {
			defer func() { recover() }()
			o.Do(func() { n++; panic("action") })
		}()
	}
	o.Do(func() { n += 10 })
	if n != 1 {
		t.Fatalf("after a panicking action: %d", n)
	}
	if !o.m.TryLock() {
		t.Fatal("locked after a panicking action")
	}
}
