package sync2

import (
	"fmt"
	"sync"
	"testing"
)

// Each event gets the all-clear exactly once: when the last of its sender's devices reports that it saw no
// transaction ID, and never after one of them saw it.
func TestVerifPending(t *testing.T) {
	v := vfNew(t)
	for h := 0; h < v.pick(4000, 40000); h++ {
		n := v.rng.Intn(5)
		owner := map[string][]string{}
		for u := 0; u < 2; u++ {
			for d := 0; d < n; d++ {
				owner[fmt.Sprint("@u", u)] = append(owner[fmt.Sprint("@u", u)], fmt.Sprint("D", d))
			}
		}
		c := NewPendingTransactionIDs(func(user string) []string { return append([]string{}, owner[user]...) })
		left := map[string]map[string]bool{}
		hist := fmt.Sprintf("devices=%d", n)
		for step := 0; step < 16; step++ {
			ev := fmt.Sprint("$", v.rng.Intn(3))
			user := fmt.Sprint("@u", int(ev[1])%2)
			dev := fmt.Sprint("D", v.rng.Intn(n+1))
			if v.rng.Intn(10) == 0 {
				hist += " seen(" + ev + ")"
				if err := c.SeenTxnID(ev); err != nil {
					v.fail("seen", "%v", err)
				}
				left[ev] = map[string]bool{}
				continue
			}
			hist += " missing(" + ev + "," + dev + ")"
			if left[ev] == nil {
				left[ev] = map[string]bool{}
				for _, d := range owner[user] {
					left[ev][d] = true
				}
			}
			want := left[ev][dev] && len(left[ev]) == 1
			delete(left[ev], dev)
			got, err := c.MissingTxnID(ev, user, dev)
			v.eval(hist)
			if err != nil || got != want {
				v.fail("all-clear", "all clear=%v err=%v, want %v after %s", got, err, want, hist)
				return
			}
		}
	}
	for h := 0; h < v.pick(100, 1000); h++ {
		devs := []string{"A", "B", "C", "D", "E"}
		c := NewPendingTransactionIDs(func(user string) []string { return append([]string{}, devs...) })
		var wg sync.WaitGroup
		var mu sync.Mutex
		clear := 0
		for _, d := range devs {
			wg.Add(1)
			go func(d string) {
				defer wg.Done()
				for i := 0; i < 2; i++ {
					if ok, err := c.MissingTxnID("$e", "@u", d); err != nil {
						v.fail("concurrent-error", "%v", err)
					} else if ok {
						mu.Lock()
						clear++
						mu.Unlock()
					}
				}
			}(d)
		}
		wg.Wait()
		v.eval(fmt.Sprint("concurrent ", h))
		if clear != 1 {
			v.fail("concurrent", "all clear given %d times with five devices reporting at once", clear)
		}
	}
}
