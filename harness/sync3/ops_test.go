package sync3

import (
	"context"
	"fmt"
	"sort"
	"testing"
)

type vfFinder struct{ rooms map[string]*RoomConnMetadata }

func (f *vfFinder) ReadOnlyRoom(id string) *RoomConnMetadata { return f.rooms[id] }

// vfClient follows the client side of the protocol: it tracks index -> room for the
// indexes inside its windows and applies DELETE / INSERT in order.
type vfClient struct {
	ranges SliceRanges
	m      map[int]string
}

func (c *vfClient) in(i int) bool { return vfIn2(c.ranges, int64(i)) }
func (c *vfClient) apply(ops []ResponseOp) {
	gap := -1
	removeGap := func() {
		max := -1
		for n := range c.m {
			if n > max {
				max = n
			}
		}
		if max < 0 || gap > max {
			return
		}
		for i := gap; i < max; i++ {
			if c.in(i) {
				c.set(i, c.m[i+1])
			}
		}
		delete(c.m, max)
	}
	for _, o := range ops {
		op := o.(*ResponseOpSingle)
		switch op.Operation {
		case OpDelete:
			if gap != -1 {
				removeGap()
			}
			delete(c.m, *op.Index)
			gap = *op.Index
		case OpInsert:
			idx := *op.Index
			if _, ok := c.m[idx]; ok {
				if gap > idx {
					for i := gap; i > idx; i-- {
						if c.in(i) {
							c.set(i, c.m[i-1])
						}
					}
				} else if gap >= 0 && gap < idx {
					for i := gap; i < idx; i++ {
						if c.in(i) {
							c.set(i, c.m[i+1])
						}
					}
				} else {
					max := -1
					for n := range c.m {
						if n > max {
							max = n
						}
					}
					for i := max + 1; i > idx; i-- {
						if c.in(i) {
							c.set(i, c.m[i-1])
						}
					}
				}
			}
			gap = -1
			c.m[idx] = op.RoomID
		}
	}
	if gap != -1 {
		removeGap()
	}
}
func (c *vfClient) set(i int, v string) {
	if v == "" {
		delete(c.m, i)
	} else {
		c.m[i] = v
	}
}

func vfIn2(r SliceRanges, p int64) bool {
	for _, x := range r {
		if x[0] <= p && p <= x[1] {
			return true
		}
	}
	return false
}

func vfWindow(r SliceRanges, l []string) map[int]string {
	m := map[int]string{}
	for i, id := range l {
		if vfIn2(r, int64(i)) {
			m[i] = id
		}
	}
	return m
}

func vfRoom(id string, ts uint64) *RoomConnMetadata {
	r := &RoomConnMetadata{}
	r.RoomMetadata.RoomID = id
	r.LastInterestedEventTimestamps = map[string]uint64{"a": ts}
	return r
}

func vfOneOp(v *vf, ranges SliceRanges, n int, op ListOp, from, to int) {
	f := &vfFinder{rooms: map[string]*RoomConnMetadata{}}
	var ids []string
	// room k has timestamp 1000-10k so index == k
	for k := 0; k < n; k++ {
		id := fmt.Sprintf("!%c", 'a'+k)
		f.rooms[id] = vfRoom(id, uint64(1000-10*k))
		ids = append(ids, id)
	}
	l := NewSortableRooms(f, "a", append([]string{}, ids...))
	l.Sort([]string{SortByRecency})
	reqList := &RequestList{Ranges: ranges, Sort: []string{SortByRecency}}
	target := ""
	setTS := func(r *RoomConnMetadata, others []string) {
		// place so that it lands at index `to` among others
		if to == 0 {
			r.LastInterestedEventTimestamps["a"] = 5000
		} else if to >= len(others) {
			r.LastInterestedEventTimestamps["a"] = 1
		} else {
			r.LastInterestedEventTimestamps["a"] = f.rooms[others[to]].LastInterestedEventTimestamps["a"] + 5
		}
	}
	switch op {
	case ListOpAdd:
		target = "!NEW"
		f.rooms[target] = vfRoom(target, 0)
		setTS(f.rooms[target], ids)
	case ListOpDel:
		target = ids[from]
	case ListOpChange:
		target = ids[from]
		var others []string
		for _, i := range ids {
			if i != target {
				others = append(others, i)
			}
		}
		setTS(f.rooms[target], others)
	}
	desc := fmt.Sprintf("ranges=%v n=%d op=%d from=%d to=%d", ranges, n, op, from, to)
	v.eval(desc)
	before := vfWindow(ranges, ids)
	c := &vfClient{ranges: ranges, m: vfWindow(ranges, ids)}
	v.guard("ops", desc, func() {
		ops, subs := CalculateListOps(context.Background(), reqList, l, target, op)
		var real []ResponseOp
		s := ""
		for _, o := range ops {
			so := o.(*ResponseOpSingle)
			if so == nil {
				continue
			}
			s += fmt.Sprintf("%s[%d]%s ", so.Operation, *so.Index, so.RoomID)
			if !vfIn2(ranges, int64(*so.Index)) {
				v.fail("ops-outside", "%s: ops=%s touches an index outside the windows", desc, s)
			}
			if so.Operation == OpInsert && (*so.Index >= int(l.Len()) || l.Get(*so.Index) != so.RoomID) {
				v.fail("ops-stale", "%s: ops=%s inserts a room which is not at that position", desc, s)
			}
			real = append(real, o)
		}
		c.apply(real)
		want := vfWindow(ranges, l.RoomIDs())
		if fmt.Sprint(c.m) != fmt.Sprint(want) {
			v.fail(fmt.Sprintf("ops-diverge-%d", op), "%s: ops=%s client=%v want=%v", desc, s, c.m, want)
		}
		// rooms newly visible to the client must be in subs
		known := map[string]bool{}
		for _, r := range before {
			known[r] = true
		}
		sub := map[string]bool{}
		for _, r := range subs {
			sub[r] = true
		}
		var missing []string
		for _, r := range want {
			if !known[r] && !sub[r] {
				missing = append(missing, r)
			}
		}
		sort.Strings(missing)
		if len(missing) > 0 {
			v.fail(fmt.Sprintf("ops-subs-%d", op), "%s: ops=%s rooms %v newly in the window but not in subs %v", desc, s, missing, subs)
		}
		for _, r := range subs {
			found := false
			for _, w := range want {
				if w == r {
					found = true
				}
			}
			if !found {
				v.fail("ops-subs-extra", "%s: subs %v has %s which is in no window", desc, subs, r)
			}
		}
	})
}

func TestVerifOps(t *testing.T) {
	v := vfNew(t)
	var all []SliceRanges
	N := v.pick(6, 7)
	var rec func(from int64, cur SliceRanges)
	rec = func(from int64, cur SliceRanges) {
		all = append(all, append(SliceRanges{}, cur...))
		for a := from; a < int64(N)+1; a++ {
			for b := a; b < int64(N)+1; b++ {
				rec(b+1, append(append(SliceRanges{}, cur...), [2]int64{a, b}))
			}
		}
	}
	rec(0, nil)
	for _, r := range all {
		for n := 0; n <= N; n++ {
			for to := 0; to <= n; to++ {
				vfOneOp(v, r, n, ListOpAdd, 0, to)
			}
			for from := 0; from < n; from++ {
				vfOneOp(v, r, n, ListOpDel, from, 0)
				for to := 0; to < n; to++ {
					vfOneOp(v, r, n, ListOpChange, from, to)
				}
			}
		}
	}
}
