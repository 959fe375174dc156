package handler

import (
	"fmt"
	"sync"
	"testing"
	"time"

	"github.com/matrix-org/sliding-sync/sync3/caches"
)

// Random histories of updates and releases against a per-room queue model; then the time limit.
func TestVerifTxnWaiter(t *testing.T) {
	v := vfNew(t)
	me := "@me:h"
	for h := 0; h < v.pick(6000, 80000); h++ {
		var got []string
		delay := time.Hour
		if v.rng.Intn(8) == 0 {
			delay = 0
		}
		w := NewTxnIDWaiter(me, delay, func(delayed bool, up caches.Update) {
			if e, ok := up.(*caches.RoomEventUpdate); ok {
				got = append(got, fmt.Sprintf("%s#%d/%v", e.EventData.RoomID, e.EventData.NID, delayed))
			} else {
				got = append(got, fmt.Sprintf("%T/%v", up, delayed))
			}
		})
		type qe struct{ nid int64 }
		queues := map[string][]qe{}
		var want []string
		hist := fmt.Sprintf("delay=%v:", delay)
		nid := int64(0)
		for step := 0; step < 14; step++ {
			room := fmt.Sprintf("!%d", v.rng.Intn(3))
			switch k := v.rng.Intn(10); {
			case k == 0:
				hist += " other"
				w.Ingest(&caches.TypingUpdate{})
				want = append(want, "*caches.TypingUpdate/false")
			case k < 7:
				nid += 1 + int64(v.rng.Intn(2))
				ed := &caches.EventData{RoomID: room, NID: nid, Sender: me}
				mine := true
				switch v.rng.Intn(4) {
				case 0:
					ed.Sender, mine = "@you:h", false
				case 1:
					ed.TransactionID, mine = "txn", false
				case 2:
					sk := me
					if v.rng.Intn(2) == 0 {
						sk = ""
					}
					ed.StateKey, mine = &sk, false
				}
				hist += fmt.Sprintf(" ev(%s,%d,mine=%v)", room, nid, mine)
				w.Ingest(&caches.RoomEventUpdate{EventData: ed})
				if delay > 0 && (mine || len(queues[room]) > 0) {
					queues[room] = append(queues[room], qe{nid})
				} else {
					want = append(want, fmt.Sprintf("%s#%d/false", room, nid))
				}
			default:
				n := int64(v.rng.Intn(int(nid) + 2))
				hist += fmt.Sprintf(" release(%s,%d)", room, n)
				w.PublishUpToNID(room, n)
				for len(queues[room]) > 0 && queues[room][0].nid <= n {
					want = append(want, fmt.Sprintf("%s#%d/true", room, queues[room][0].nid))
					queues[room] = queues[room][1:]
				}
			}
		}
		v.eval(hist)
		if fmt.Sprint(got) != fmt.Sprint(want) {
			v.fail("order", "published %v, want %v after %s", got, want, hist)
			break
		}
	}
	// nothing is held back for longer than the limit, and each update is passed on once, in order
	for h := 0; h < v.pick(6, 40); h++ {
		var mu sync.Mutex
		got := map[string][]int64{}
		w := NewTxnIDWaiter(me, 20*time.Millisecond, func(delayed bool, up caches.Update) {
			mu.Lock()
			defer mu.Unlock()
			e := up.(*caches.RoomEventUpdate).EventData
			got[e.RoomID] = append(got[e.RoomID], e.NID)
		})
		want := map[string][]int64{}
		for n := int64(1); n < 20; n++ {
			room := fmt.Sprintf("!%d", v.rng.Intn(2))
			ed := &caches.EventData{RoomID: room, NID: n, Sender: me}
			if v.rng.Intn(2) == 0 {
				ed.Sender = "@you:h"
			}
			want[room] = append(want[room], n)
			w.Ingest(&caches.RoomEventUpdate{EventData: ed})
			if v.rng.Intn(3) == 0 {
				time.Sleep(5 * time.Millisecond)
			}
			if v.rng.Intn(4) == 0 {
				w.PublishUpToNID(room, n-int64(v.rng.Intn(3)))
			}
		}
		ok := false
		for i := 0; i < 500 && !ok; i++ {
			time.Sleep(10 * time.Millisecond)
			mu.Lock()
			ok = fmt.Sprint(got) == fmt.Sprint(want)
			mu.Unlock()
		}
		v.eval(fmt.Sprint("time limit ", h))
		if !ok {
			mu.Lock()
			v.fail("limit", "published %v after the limit, want %v", got, want)
			mu.Unlock()
			break
		}
	}
}
