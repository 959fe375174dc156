package handler

import (
	"context"
	"fmt"
	"testing"

	"github.com/matrix-org/sliding-sync/sync3"
)

func TestVerifBuilder(t *testing.T) {
	v := vfNew(t)
	rooms := []string{"!a", "!b", "!c", "!d"}
	n := v.pick(5000, 100000)
	for i := 0; i < n && v.nfailed() < 5; i++ {
		rb := NewRoomsBuilder()
		var subs []sync3.RoomSubscription
		wants := map[string]map[int]bool{}
		desc := ""
		for s := v.rng.Intn(5); s >= 0; s-- {
			rs := sync3.RoomSubscription{TimelineLimit: int64(v.rng.Intn(5)), RequiredState: make([][2]string, 0, 4)}
			for k := v.rng.Intn(3); k > 0; k-- {
				rs.RequiredState = append(rs.RequiredState, [2]string{"t", fmt.Sprint(v.rng.Intn(6))})
			}
			id := rb.AddSubscription(rs)
			subs = append(subs, rs)
			if id != len(subs)-1 {
				v.fail("sub-id", "subscription %d got id %d", len(subs)-1, id)
			}
		}
		for k := v.rng.Intn(8); k > 0; k-- {
			id := v.rng.Intn(len(subs))
			var rs []string
			for _, r := range rooms {
				if v.rng.Intn(2) == 0 {
					rs = append(rs, r)
					if wants[r] == nil {
						wants[r] = map[int]bool{}
					}
					wants[r][id] = true
				}
			}
			desc += fmt.Sprintf("sub %d%v rooms %v; ", id, subs[id], rs)
			rb.AddRoomsToSubscription(context.Background(), id, rs)
		}
		v.eval(desc)
		v.guard("builder", desc, func() {
			got := map[string]int{}
			for _, bs := range rb.BuildSubscriptions() {
				for _, r := range bs.RoomIDs {
					got[r]++
					var limit int64
					keys, have := map[string]bool{}, map[string]bool{}
					for id := range wants[r] {
						if subs[id].TimelineLimit > limit {
							limit = subs[id].TimelineLimit
						}
						for _, x := range subs[id].RequiredState {
							keys[x[1]] = true
						}
					}
					for _, x := range bs.RoomSubscription.RequiredState {
						have[x[1]] = true
					}
					if bs.RoomSubscription.TimelineLimit != limit || fmt.Sprint(keys) != fmt.Sprint(have) {
						v.fail("builder-sub", "%s: room %s gets %+v, want limit %d keys %v", desc, r, bs.RoomSubscription, limit, keys)
					}
				}
			}
			for _, r := range rooms {
				w := 0
				if len(wants[r]) > 0 {
					w = 1
				}
				if got[r] != w {
					v.fail("builder-once", "%s: room %s is in %d subscriptions", desc, r, got[r])
				}
				if rb.IncludesRoom(r) != (w == 1) {
					v.fail("builder-includes", "%s: IncludesRoom(%s)=%v", desc, r, rb.IncludesRoom(r))
				}
			}
		})
	}
}
