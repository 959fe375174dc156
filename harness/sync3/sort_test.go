package sync3

import (
	"context"
	"fmt"
	"sort"
	"testing"
)

func vfIndexOK(s *SortableRooms, extra ...string) string {
	ids := s.RoomIDs()
	if int64(len(ids)) != s.Len() {
		return fmt.Sprintf("len %d but %d rooms", s.Len(), len(ids))
	}
	seen := map[string]bool{}
	for i, id := range ids {
		if seen[id] {
			return fmt.Sprintf("room %s listed twice in %v", id, ids)
		}
		seen[id] = true
		if g := s.Get(i); g != id {
			return fmt.Sprintf("Get(%d)=%s, list %v", i, g, ids)
		}
		if j, ok := s.IndexOf(id); !ok || j != i {
			return fmt.Sprintf("IndexOf(%s)=%d,%v, list %v", id, j, ok, ids)
		}
	}
	for _, id := range extra {
		if j, ok := s.IndexOf(id); ok != seen[id] {
			return fmt.Sprintf("IndexOf(%s)=%d,%v, list %v", id, j, ok, ids)
		}
	}
	return ""
}

// the written meaning of the sort orders: negative if a comes first
func vfCmp(by string, key string, a, b *RoomConnMetadata, ts map[string]uint64) int {
	switch by {
	case SortByName:
		switch {
		case a.CanonicalisedName < b.CanonicalisedName:
			return -1
		case a.CanonicalisedName > b.CanonicalisedName:
			return 1
		}
	case SortByRecency:
		switch {
		case ts[a.RoomID] > ts[b.RoomID]:
			return -1
		case ts[a.RoomID] < ts[b.RoomID]:
			return 1
		}
	case SortByHighlightCount:
		return b.HighlightCount - a.HighlightCount
	case SortByNotificationCount:
		return b.NotificationCount - a.NotificationCount
	case SortByNotificationLevel:
		lvl := func(r *RoomConnMetadata) int {
			switch {
			case r.HighlightCount > 0:
				return 3
			case r.NotificationCount > 0 && r.Encrypted:
				return 2
			case r.NotificationCount > 0:
				return 1
			}
			return 0
		}
		return lvl(b) - lvl(a)
	}
	return 0
}

func TestVerifSort(t *testing.T) {
	v := vfNew(t)
	all := []string{SortByName, SortByRecency, SortByNotificationLevel, SortByNotificationCount, SortByHighlightCount}
	n := v.pick(4000, 60000)
	for k := 0; k < n && v.nfailed() < 5; k++ {
		v.guard("sort", fmt.Sprintf("case %d", k), func() { vfSortCase(v, all) })
	}
	for k := 0; k < n/4 && v.nfailed() < 5; k++ {
		v.guard("visible", fmt.Sprintf("case %d", k), func() { vfVisibleCase(v) })
	}
}

func vfSortCase(v *vf, all []string) {
	ids := []string{"!a", "!b", "!c", "!d", "!e", "!f", "!g", "!h"}
	if v.rng.Intn(8) == 0 { // long lists: library sorts behave differently there
		for i := 0; i < 60; i++ {
			ids = append(ids, fmt.Sprintf("!z%d", i))
		}
	}
	finder := vfFinder{}
	ts := map[string]uint64{}
	desc := ""
	for _, id := range ids {
		r := v.room(id, ids)
		r.CanonicalisedName = r.NameEvent
		ts[id] = r.LastMessageTimestamp
		if v.rng.Intn(2) == 0 {
			ts[id] = uint64(v.rng.Intn(6))
			r.LastInterestedEventTimestamps["k"] = ts[id]
		}
		r.LastInterestedEventTimestamps["other"] = uint64(v.rng.Intn(6))
		finder[id] = &r
	}
	start := append([]string{}, ids[:v.rng.Intn(len(ids)+1)]...)
	v.rng.Shuffle(len(start), func(i, j int) { start[i], start[j] = start[j], start[i] })
	s := NewSortableRooms(finder, "k", start)
	model := append([]string{}, start...)
	for step := 0; step < 10; step++ {
		op := v.rng.Intn(4)
		if step == 0 {
			op = 0
		}
		switch op {
		case 0, 1:
			by := []string{all[v.rng.Intn(5)]}
			for v.rng.Intn(2) == 0 && len(by) < 3 {
				by = append(by, all[v.rng.Intn(5)])
			}
			before := append([]string{}, model...)
			sort.SliceStable(model, func(i, j int) bool {
				for _, b := range by {
					if c := vfCmp(b, "k", finder[model[i]], finder[model[j]], ts); c != 0 {
						return c < 0
					}
				}
				return false
			})
			d := fmt.Sprintf("sort %v of %v; ", by, before)
			desc += d
			v.eval(d)
			if err := s.Sort(by); err != nil {
				v.fail("sort-error", "%s: %v", desc, err)
			}
		case 2:
			id := ids[v.rng.Intn(len(ids))]
			desc += "add " + id + "; "
			had := false
			for _, m := range model {
				had = had || m == id
			}
			if !had {
				model = append(model, id)
			}
			if got := s.Add(id); got == had {
				v.fail("add-result", "%s returned %v", desc, got)
			}
		case 3:
			id := ids[v.rng.Intn(len(ids))]
			desc += "remove " + id + "; "
			want := -1
			for i, m := range model {
				if m == id {
					want = i
				}
			}
			if want >= 0 {
				model = append(append([]string{}, model[:want]...), model[want+1:]...)
			}
			if got := s.Remove(id); got != want {
				v.fail("remove-result", "%s returned %d want %d", desc, got, want)
			}
		}
		if fmt.Sprint(s.RoomIDs()) != fmt.Sprint(model) {
			v.fail("order", "%s list %v want %v rooms %s", desc, s.RoomIDs(), model, vfFinderDesc(finder, ids))
			return
		}
		if msg := vfIndexOK(s, ids...); msg != "" {
			v.fail("index", "%s %s", desc, msg)
			return
		}
		if len(model) > 0 {
			i := v.rng.Intn(len(model))
			j := i + 1 + v.rng.Intn(len(model)-i)
			sub := s.Subslice(int64(i), int64(j)).(*SortableRooms)
			if fmt.Sprint(sub.RoomIDs()) != fmt.Sprint(model[i:j]) {
				v.fail("subslice", "%s [%d:%d]=%v want %v", desc, i, j, sub.RoomIDs(), model[i:j])
			}
			// a copy must not be affected by later changes, nor affect the list
			c := s.RoomIDs()
			c[0] = "!scribble"
			if s.Get(0) == "!scribble" {
				v.fail("roomids-alias", "%s RoomIDs shares memory with the list", desc)
			}
		}
	}
}

func vfFinderDesc(f vfFinder, ids []string) (s string) {
	for _, id := range ids {
		s += vfRoomDesc(f[id])
	}
	return
}

// ListsByVisibleRoomIDs against the written meaning of windows; recency order through SetRoom
func vfVisibleCase(v *vf) {
	ids := []string{"!a", "!b", "!c", "!d", "!e", "!f"}
	ls := NewInternalRequestLists()
	ctx := context.Background()
	nr := v.rng.Intn(len(ids) + 1)
	keys := []string{"k1", "k2"}[:1+v.rng.Intn(2)]
	for _, id := range ids[:nr] {
		r := v.room(id, ids)
		r.UpgradedRoomID, r.HasLeft = nil, false
		for _, k := range keys {
			r.LastInterestedEventTimestamps[k] = uint64(v.rng.Intn(9))
		}
		ls.SetRoom(r)
	}
	req := map[string]RequestList{}
	for _, k := range keys {
		ls.AssignList(ctx, k, nil, []string{SortByRecency, SortByName}, Overwrite)
		rl := RequestList{}
		if v.rng.Intn(4) == 0 {
			b := v.rng.Intn(2) == 0
			rl.SlowGetAllRooms = &b
		}
		lo := int64(0)
		for lo < 8 && v.rng.Intn(4) > 0 {
			a := lo + int64(v.rng.Intn(3))
			b := a + int64(v.rng.Intn(4))
			rl.Ranges = append(rl.Ranges, [2]int64{a, b})
			lo = b + 1
		}
		req[k] = rl
	}
	// live updates: bumped rooms move, the others keep their interest timestamp
	tsWant := map[string]map[string]uint64{}
	for _, id := range ids[:nr] {
		tsWant[id] = map[string]uint64{}
		for _, k := range keys {
			tsWant[id][k] = ls.ReadOnlyRoom(id).LastInterestedEventTimestamps[k]
		}
	}
	desc := fmt.Sprintf("rooms=%d req=%+v ", nr, req)
	for step := 0; step < 3 && nr > 0; step++ {
		id := ids[v.rng.Intn(nr)]
		r := *ls.ReadOnlyRoom(id)
		r.LastInterestedEventTimestamps = map[string]uint64{}
		r.LastMessageTimestamp = uint64(20 + step)
		for _, k := range keys {
			if v.rng.Intn(2) == 0 {
				r.LastInterestedEventTimestamps[k] = r.LastMessageTimestamp
				tsWant[id][k] = r.LastMessageTimestamp
			}
		}
		desc += fmt.Sprintf("bump %s %v; ", id, r.LastInterestedEventTimestamps)
		ls.SetRoom(r)
	}
	for _, k := range keys {
		l := ls.Get(k)
		if nr > 0 {
			l.Sort([]string{SortByRecency, SortByName})
		}
		got := l.RoomIDs()
		for i := 0; i+1 < len(got); i++ {
			if tsWant[got[i]][k] < tsWant[got[i+1]][k] {
				v.fail("recency", "%s list %s: %v with timestamps %v", desc, k, got, tsWant)
			}
		}
		if ls.Count(k) != len(got) {
			v.fail("count", "%s count %d rooms %d", desc, ls.Count(k), len(got))
		}
	}
	want := map[string]map[string]bool{}
	for k, rl := range req {
		for i, id := range ls.Get(k).RoomIDs() {
			if (rl.SlowGetAllRooms != nil && *rl.SlowGetAllRooms) || vfIn(rl.Ranges, int64(i)) {
				if want[id] == nil {
					want[id] = map[string]bool{}
				}
				want[id][k] = true
			}
		}
	}
	v.eval(desc)
	got := ls.ListsByVisibleRoomIDs(req)
	if len(got) != len(want) {
		v.fail("visible", "%s got %v want %v", desc, got, want)
		return
	}
	for id, ks := range got {
		if len(ks) != len(want[id]) {
			v.fail("visible", "%s got %v want %v", desc, got, want)
		}
		for _, k := range ks {
			if !want[id][k] {
				v.fail("visible", "%s got %v want %v", desc, got, want)
			}
		}
	}
}
