package id

import (
	"testing"
	"time"
)

func TestVerifC23Locks(t *testing.T) {
	for _, m := range []Mode{Even, Odd, Unique, Inc, "other"} {
		c := NewIDCounter(m)
		for n, f := range map[string]func(){
			"get":          func() { c.GetID() },
			"get more":     func() { c.GetID(); c.GetID() },
			"by meta":      func() { c.GetIDByMeta(nil) },
			"delete":       func() { c.DelID(1) },
			"delete twice": func() { c.DelID(2); c.DelID(2) },
			"reserve":      func() { c.ReserveID(3) },
			"get again":    func() { c.GetID() },
		} {
			done := make(chan int)
			go func() { f(); f(); close(done) }()
			select {
			case <-done:
			case <-time.After(10 * time.Second):
				t.Fatalf("%s %s blocks", m, n)
			}
			if !c.mtx.TryLock() {
				t.Fatalf("%s: %s leaves the lock taken", m, n)
			}
			c.mtx.Unlock()
		}
		c.Close()
		if !c.mtx.TryLock() {
			t.Fatalf("%s: closing leaves the lock taken", m)
		}
	}
}
