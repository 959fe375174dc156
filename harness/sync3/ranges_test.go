package sync3

import (
	"fmt"
	"testing"
)

// all sets of pairwise disjoint ranges over the points 0..n-1 (ascending)
func vfAllRanges(n int64) (out []SliceRanges) {
	var rec func(from int64, cur SliceRanges)
	rec = func(from int64, cur SliceRanges) {
		out = append(out, append(SliceRanges{}, cur...))
		for a := from; a < n; a++ {
			for b := a; b < n; b++ {
				rec(b+1, append(append(SliceRanges{}, cur...), [2]int64{a, b}))
			}
		}
	}
	rec(0, nil)
	return
}

func vfIn(r SliceRanges, p int64) bool {
	for _, x := range r {
		if x[0] <= p && p <= x[1] {
			return true
		}
	}
	return false
}

func vfCheckDelta(v *vf, old, next SliceRanges, hi int64) {
	desc := fmt.Sprintf("old=%v next=%v", old, next)
	v.eval(desc)
	oc, nc := fmt.Sprint(old), fmt.Sprint(next)
	var added, removed, same SliceRanges
	if !v.guard("delta", desc, func() { added, removed, same = old.Delta(next) }) {
		return
	}
	if fmt.Sprint(old) != oc || fmt.Sprint(next) != nc {
		v.fail("delta-mutates", "%s changed its arguments to %v %v", desc, old, next)
	}
	got := fmt.Sprintf("added=%v removed=%v same=%v", added, removed, same)
	for _, rs := range []SliceRanges{added, removed, same} {
		for i, r := range rs {
			if r[0] > r[1] || r[0] < 0 {
				v.fail("delta-inverted", "%s gave %s", desc, got)
			}
			for j := i + 1; j < len(rs); j++ {
				if r[0] <= rs[j][1] && rs[j][0] <= r[1] {
					v.fail("delta-overlap", "%s gave %s", desc, got)
				}
			}
		}
	}
	for p := int64(-1); p <= hi; p++ {
		o, n := vfIn(old, p), vfIn(next, p)
		if vfIn(added, p) != (n && !o) {
			v.fail("delta-added", "%s gave %s, wrong at %d", desc, got, p)
		}
		if vfIn(removed, p) != (o && !n) {
			v.fail("delta-removed", "%s gave %s, wrong at %d", desc, got, p)
		}
		if vfIn(same, p) != (o && n) {
			v.fail("delta-same", "%s gave %s, wrong at %d", desc, got, p)
		}
	}
}

func (v *vf) ranges(maxN int, hi int64) SliceRanges {
	for {
		n := v.rng.Intn(maxN + 1)
		var r SliceRanges
		for k := 0; k < n; k++ {
			a := v.rng.Int63n(hi)
			b := a + v.rng.Int63n(hi/2+1)
			if v.rng.Intn(4) == 0 {
				b = a
			}
			ok := true
			for _, o := range r {
				if a <= o[1] && o[0] <= b {
					ok = false
				}
			}
			if ok {
				r = append(r, [2]int64{a, b})
			}
		}
		return r
	}
}

func TestVerifRanges(t *testing.T) {
	v := vfNew(t)
	// validity and membership, over arbitrary pairs
	for i := 0; i < v.pick(20000, 400000); i++ {
		n := v.rng.Intn(5)
		var r SliceRanges
		for k := 0; k < n; k++ {
			r = append(r, [2]int64{v.rng.Int63n(9) - 1, v.rng.Int63n(9) - 1})
		}
		want := true
		for a := range r {
			if r[a][0] < 0 || r[a][1] < r[a][0] {
				want = false
			}
			for b := range r {
				if a != b && r[a][0] <= r[b][1] && r[b][0] <= r[a][1] && r[a][0] <= r[a][1] && r[b][0] <= r[b][1] {
					want = false
				}
			}
		}
		desc := fmt.Sprintf("valid %v", r)
		v.eval(desc)
		v.guard("valid", desc, func() {
			if got := r.Valid(); got != want {
				v.fail("valid", "%v.Valid()=%v want %v", r, got, want)
			}
			for p := int64(-2); p < 9; p++ {
				rng, ok := r.Inside(p)
				if ok != vfIn(r, p) {
					v.fail("inside", "%v.Inside(%d)=%v", r, p, ok)
				}
				if ok && !(rng[0] <= p && p <= rng[1]) {
					v.fail("inside", "%v.Inside(%d) returned %v", r, p, rng)
				}
			}
		})
	}
	n := int64(v.pick(6, 7))
	all := vfAllRanges(n)
	for _, a := range all {
		for _, b := range all {
			vfCheckDelta(v, a, b, n)
		}
	}
	for i := 0; i < v.pick(20000, 300000); i++ {
		vfCheckDelta(v, v.ranges(5, 40), v.ranges(5, 40), 80)
	}
	// closest boundary
	check := func(r SliceRanges, i int64) {
		for _, tz := range []bool{true, false} {
			want := int64(-1)
			exact := false
			for _, x := range r {
				if tz && x[0] == i || !tz && x[1] == i {
					exact = true
				}
				for _, b := range x {
					if tz && b < i && (want == -1 || b > want) {
						want = b
					}
					if !tz && b > i && (want == -1 || b < want) {
						want = b
					}
				}
			}
			if exact {
				want = i
			}
			desc := fmt.Sprintf("%v.ClosestInDirection(%d,%v)", r, i, tz)
			v.eval(desc)
			v.guard("closest", desc, func() {
				if got := r.ClosestInDirection(i, tz); got != want {
					v.fail("closest", "%s=%d want %d", desc, got, want)
				}
			})
		}
	}
	for _, r := range all {
		if len(r) == 0 {
			continue
		}
		rr := append(SliceRanges{}, r...)
		v.rng.Shuffle(len(rr), func(i, j int) { rr[i], rr[j] = rr[j], rr[i] })
		for i := int64(0); i <= n; i++ {
			check(r, i)
			check(rr, i)
		}
	}
	// slicing
	for i := 0; i < v.pick(20000, 200000); i++ {
		r := v.ranges(4, 12)
		ln := v.rng.Intn(14)
		var ids []string
		for k := 0; k < ln; k++ {
			ids = append(ids, fmt.Sprint("!", k))
		}
		sr := &SortableRooms{roomIDs: ids, roomIDToIndex: map[string]int{}}
		desc := fmt.Sprintf("slice %v of %d rooms", r, ln)
		v.eval(desc)
		before := fmt.Sprint(r)
		v.guard("slice", desc, func() {
			var got []string
			for _, s := range r.SliceInto(sr) {
				got = append(got, s.(*SortableRooms).RoomIDs()...)
			}
			var want []string
			for _, x := range r {
				for p := x[0]; p <= x[1] && p < int64(ln); p++ {
					want = append(want, ids[p])
				}
			}
			if fmt.Sprint(got) != fmt.Sprint(want) {
				v.fail("slice", "%s gave %v want %v", desc, got, want)
			}
			if fmt.Sprint(r) != before {
				v.fail("slice-mutates", "%s changed the ranges to %v", desc, r)
			}
		})
	}
}
