package sync3

import (
	"encoding/json"
	"fmt"
	"reflect"
	"sort"
	"testing"
)

// vfReq is a random request over few names, so that the same lists and rooms recur.
func (v *vf) req(first bool) *Request {
	r := &Request{ConnID: fmt.Sprint("c", v.rng.Intn(2)), TxnID: fmt.Sprint(v.rng.Intn(3))}
	if v.rng.Intn(4) > 0 {
		r.Lists = map[string]RequestList{}
		for _, k := range []string{"a", "b", "c"} {
			if v.rng.Intn(2) == 0 {
				continue
			}
			l := RequestList{RoomSubscription: v.sub(1, true)}
			if v.rng.Intn(2) == 0 {
				l.RequiredState = nil
			}
			if v.rng.Intn(2) == 0 {
				l.Ranges = SliceRanges{{0, int64(v.rng.Intn(5))}}
			}
			switch v.rng.Intn(4) {
			case 0:
				l.Sort = []string{SortByName}
			case 1:
				l.Sort = []string{SortByRecency, SortByName}
			case 2:
				l.Sort = []string{}
			}
			if v.rng.Intn(2) == 0 {
				b := v.rng.Intn(2) == 0
				l.Filters = &RequestFilters{IsDM: &b}
			}
			if v.rng.Intn(3) == 0 {
				b := v.rng.Intn(2) == 0
				l.SlowGetAllRooms = &b
			}
			switch v.rng.Intn(3) {
			case 0:
				l.BumpEventTypes = []string{"m.room.message"}
			case 1:
				l.BumpEventTypes = []string{}
			}
			if !first && v.rng.Intn(6) == 0 {
				l.Deleted = true
			}
			r.Lists[k] = l
		}
	}
	if v.rng.Intn(4) > 0 {
		r.RoomSubscriptions = map[string]RoomSubscription{}
		for _, k := range []string{"!1", "!2", "!3", "!4"} {
			if v.rng.Intn(3) == 0 {
				r.RoomSubscriptions[k] = v.sub(0, true)
			}
		}
	}
	for _, k := range []string{"!1", "!2", "!3", "!4", "!1"} {
		if v.rng.Intn(5) == 0 {
			r.UnsubscribeRooms = append(r.UnsubscribeRooms, k)
		}
	}
	return r
}

func vfJ(x interface{}) string {
	b, err := json.Marshal(x)
	if err != nil {
		panic(err)
	}
	return string(b)
}

func vfPick(next, prev interface{}) interface{} {
	n := reflect.ValueOf(next)
	if n.IsZero() {
		return prev
	}
	return next
}

func TestVerifRequest(t *testing.T) {
	v := vfNew(t)
	for n := 0; n < v.pick(6000, 120000); n++ {
		var cur *Request
		hist := ""
		for step := 0; step < 5; step++ {
			next := v.req(cur == nil)
			hist += fmt.Sprintf("\n  %s (unsubscribe %v)", vfJ(next), next.UnsubscribeRooms)
			if cur != nil {
				for k, l := range next.Lists {
					if l.Deleted {
						if _, ok := cur.Lists[k]; !ok {
							l.Deleted = false // deleting a list that does not exist is not specified
							next.Lists[k] = l
						}
					}
				}
			}
			nextCopy := vfJ(next)
			curCopy := vfJ(cur)
			res, d := cur.ApplyDelta(next)
			v.eval(hist)
			bad := func(key, f string, args ...interface{}) {
				v.fail("ApplyDelta/"+key, "after the requests:%s\n%s", hist, fmt.Sprintf(f, args...))
			}
			if vfJ(cur) != curCopy {
				bad("mutates", "the previous request was changed")
			}
			if c2 := vfJ(next); cur != nil && c2 != nextCopy {
				bad("mutates", "the new request was changed: %s -> %s", nextCopy, c2)
			}
			prev := cur
			if prev == nil {
				prev = &Request{}
			}
			// lists
			want := map[string]RequestList{}
			for k, l := range prev.Lists {
				want[k] = l
			}
			for k, nl := range next.Lists {
				pl, had := prev.Lists[k]
				if had && nl.Deleted {
					delete(want, k)
					continue
				}
				if !had {
					if len(nl.Sort) == 0 {
						nl.Sort = []string{SortByRecency}
					}
					want[k] = nl
					continue
				}
				w := RequestList{}
				wv, nv, pv := reflect.ValueOf(&w).Elem(), reflect.ValueOf(nl), reflect.ValueOf(pl)
				for i := 0; i < wv.NumField(); i++ {
					f := wv.Type().Field(i).Name
					if f == "Deleted" || f == "RoomSubscription" {
						continue
					}
					wv.Field(i).Set(reflect.ValueOf(vfPick(nv.Field(i).Interface(), pv.Field(i).Interface())))
				}
				for i := 0; i < reflect.TypeOf(w.RoomSubscription).NumField(); i++ {
					a := nv.FieldByName("RoomSubscription").Field(i).Interface()
					b := pv.FieldByName("RoomSubscription").Field(i).Interface()
					wv.FieldByName("RoomSubscription").Field(i).Set(reflect.ValueOf(vfPick(a, b)))
				}
				want[k] = w
			}
			if len(want) != len(res.Lists) {
				bad("lists", "lists are %s, should be %s", vfJ(res.Lists), vfJ(want))
			}
			for k := range want {
				if g, ok := res.Lists[k]; !ok || vfJ(g) != vfJ(want[k]) {
					bad("sticky", "list %s is %s, should be %s", k, vfJ(g), vfJ(want[k]))
				}
				if dl := d.Lists[k]; dl.Curr == nil || vfJ(*dl.Curr) != vfJ(want[k]) {
					bad("delta", "delta of list %s is %s", k, vfJ(dl.Curr))
				}
			}
			for k := range d.Lists {
				dl := d.Lists[k]
				p, had := prev.Lists[k]
				if had != (dl.Prev != nil) || had && vfJ(*dl.Prev) != vfJ(p) {
					bad("prev", "previous list %s is %s", k, vfJ(dl.Prev))
				}
				if _, ok := want[k]; !ok && (dl.Curr != nil || !had) {
					bad("delta", "list %s is in the delta: %s", k, vfJ(dl))
				}
				if dl.Curr != nil && (dl.Prev != nil || len(dl.Curr.Sort) > 0) {
					so, tl := dl.Prev.SortOrderChanged(dl.Curr), dl.Prev.TimelineLimitChanged(dl.Curr)
					fc := dl.Prev.FiltersChanged(dl.Curr)
					var pp RequestList
					if dl.Prev != nil {
						pp = *dl.Prev
					}
					if so != (fmt.Sprint(pp.Sort) != fmt.Sprint(dl.Curr.Sort)) || tl != (pp.TimelineLimit != dl.Curr.TimelineLimit) || fc != (vfJ(pp.Filters) != vfJ(dl.Curr.Filters)) {
						bad("changed", "list %s: sort changed=%v limit changed=%v filters changed=%v for %s -> %s", k, so, tl, fc, vfJ(pp), vfJ(dl.Curr))
					}
				}
			}
			for k := range prev.Lists {
				if _, ok := d.Lists[k]; !ok {
					bad("delta", "list %s is missing in the delta", k)
				}
			}
			// subscriptions
			subs := map[string]RoomSubscription{}
			for k, s := range prev.RoomSubscriptions {
				subs[k] = s
			}
			for k, s := range next.RoomSubscriptions {
				subs[k] = s
			}
			unsub := map[string]bool{}
			for _, k := range next.UnsubscribeRooms {
				_, had := prev.RoomSubscriptions[k]
				_, again := next.RoomSubscriptions[k]
				if had && !again {
					unsub[k] = true
				}
				delete(subs, k)
			}
			if vfJ(subs) != vfJ(res.RoomSubscriptions) && len(subs)+len(res.RoomSubscriptions) > 0 {
				bad("subs", "subscriptions are %s, should be %s", vfJ(res.RoomSubscriptions), vfJ(subs))
			}
			changed := map[string]bool{}
			for k, s := range subs {
				o, had := prev.RoomSubscriptions[k]
				if !had || fmt.Sprint(o.RequiredState) != fmt.Sprint(s.RequiredState) || o.TimelineLimit != s.TimelineLimit {
					changed[k] = true
				}
			}
			if g := vfSet(d.Subs); !reflect.DeepEqual(g, vfKeys(changed)) {
				bad("dsubs", "changed subscriptions are %v, should be %v", d.Subs, vfKeys(changed))
			}
			if g := vfSet(d.Unsubs); !reflect.DeepEqual(g, vfKeys(unsub)) {
				bad("dunsubs", "ended subscriptions are %v, should be %v", d.Unsubs, vfKeys(unsub))
			}
			// the same request apart from the transaction is the same request
			tx := *next
			tx.TxnID = "other"
			if !tx.Same(next) || !next.Same(&tx) || next.TxnID == "other" {
				bad("Same", "a request differing in txn_id only is not the same")
			}
			other := v.req(false)
			o2 := *other
			o2.TxnID = next.TxnID
			if next.Same(other) != (vfJ(next) == vfJ(&o2)) {
				bad("Same", "%s versus %s: %v", vfJ(next), vfJ(other), next.Same(other))
			}
			cur = res
		}
	}
}

func vfSet(s []string) []string {
	m := map[string]bool{}
	for _, x := range s {
		m[x] = true
	}
	if len(m) != len(s) {
		return append([]string{"duplicates"}, s...)
	}
	return vfKeys(m)
}

func vfKeys(m map[string]bool) []string {
	out := []string{}
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
