package sync3

import (
	"fmt"
	"testing"
)

var vfST = []string{"*", "m.room.member", "a", "b"}
var vfSK = []string{"*", "$ME", "$LAZY", "", "k", "@me"}

func (v *vf) sub(depth int, all bool) RoomSubscription {
	s := RoomSubscription{TimelineLimit: int64(v.rng.Intn(4))}
	n := v.rng.Intn(4)
	s.RequiredState = make([][2]string, 0, n+v.rng.Intn(3)) // spare capacity: appending must not write there
	for i := 0; i < n; i++ {
		t := [2]string{vfST[v.rng.Intn(len(vfST))], vfSK[v.rng.Intn(len(vfSK))]}
		if !all && t == [2]string{"*", "*"} {
			continue
		}
		s.RequiredState = append(s.RequiredState, t)
	}
	if v.rng.Intn(3) > 0 {
		b := v.rng.Intn(2) == 0
		s.Heroes = &b
	}
	if depth > 0 && v.rng.Intn(2) == 0 {
		o := v.sub(depth-1, all)
		s.IncludeOldRooms = &o
	}
	return s
}

// the written meaning of required_state
func vfAsks(s RoomSubscription, t, k string) bool {
	key := func(x [2]string) string {
		if x[1] == "$ME" {
			return "@me"
		}
		return x[1]
	}
	all, listed, exact := false, false, false
	for _, x := range s.RequiredState {
		if x[0] == "*" && key(x) == "*" {
			all = true
		}
		if x[0] == t && key(x) != "*" {
			listed = true
			exact = exact || key(x) == k
		}
	}
	if all {
		return !listed || exact
	}
	for _, x := range s.RequiredState {
		if (x[0] == "*" || x[0] == t) && (key(x) == "*" || key(x) == k) {
			return true
		}
	}
	return false
}

func vfSubDesc(s RoomSubscription) string {
	d := fmt.Sprintf("{limit=%d state=%q heroes=%v", s.TimelineLimit, s.RequiredState, s.IncludeHeroes())
	if s.IncludeOldRooms != nil {
		d += " old=" + vfSubDesc(*s.IncludeOldRooms)
	}
	return d + "}"
}

func vfIncludes(s RoomSubscription) map[string]bool {
	m := s.RequiredStateMap("@me")
	out := map[string]bool{}
	for _, t := range []string{"m.room.member", "a", "b", "c"} {
		for _, k := range []string{"", "k", "@me", "@other"} {
			out[t+"|"+k] = m.Include(t, k)
		}
	}
	return out
}

func TestVerifSubs(t *testing.T) {
	v := vfNew(t)
	n := v.pick(20000, 300000)
	for i := 0; i < n && v.nfailed() < 5; i++ {
		a := v.sub(1, true)
		desc := vfSubDesc(a)
		v.eval(desc)
		v.guard("include", desc, func() {
			m := a.RequiredStateMap("@me")
			q := m.QueryStateMap()
			for _, t := range []string{"m.room.member", "a", "b", "c"} {
				for _, k := range []string{"", "k", "@me", "@other"} {
					got, want := m.Include(t, k), vfAsks(a, t, k)
					if got != want {
						v.fail("include", "%s: Include(%q,%q)=%v want %v", desc, t, k, got, want)
					}
					if got && len(q) > 0 {
						ks, ok := q[t]
						in := len(ks) == 0
						for _, x := range ks {
							in = in || x == k
						}
						if !ok || !in {
							v.fail("query", "%s: event (%q,%q) is wanted but not fetched by %v", desc, t, k, q)
						}
					}
				}
			}
			lazy := false
			for _, x := range a.RequiredState {
				lazy = lazy || x == [2]string{"m.room.member", "$LAZY"}
			}
			if a.LazyLoadMembers() != lazy || m.IsLazyLoading() != lazy {
				v.fail("lazy", "%s: lazy loading %v/%v want %v", desc, a.LazyLoadMembers(), m.IsLazyLoading(), lazy)
			}
			empty := len(a.RequiredState) == 0
			if m.Empty() != empty {
				v.fail("empty", "%s: Empty()=%v", desc, m.Empty())
			}
		})
		a, b := v.sub(1, false), v.sub(1, false)
		c2 := v.sub(1, false)
		desc = vfSubDesc(a) + " + " + vfSubDesc(b)
		v.eval(desc)
		v.guard("combine", desc, func() {
			da, db := vfSubDesc(a), vfSubDesc(b)
			c := a.Combine(b)
			before := vfSubDesc(c)
			a.Combine(c2) // must not disturb the first result
			if vfSubDesc(a) != da || vfSubDesc(b) != db {
				v.fail("combine-mutates", "%s changed its arguments to %s + %s", desc, vfSubDesc(a), vfSubDesc(b))
			}
			if vfSubDesc(c) != before {
				v.fail("combine-shares", "%s: the result %s became %s after combining again", desc, before, vfSubDesc(c))
			}
			vfCheckUnion(v, desc, a, b, c)
			var oa, ob RoomSubscription
			if a.IncludeOldRooms != nil {
				oa = *a.IncludeOldRooms
			}
			if b.IncludeOldRooms != nil {
				ob = *b.IncludeOldRooms
			}
			if (c.IncludeOldRooms != nil) != (a.IncludeOldRooms != nil || b.IncludeOldRooms != nil) {
				v.fail("combine-old", "%s gave %s", desc, vfSubDesc(c))
			} else if c.IncludeOldRooms != nil {
				vfCheckUnion(v, desc+" (old rooms)", oa, ob, *c.IncludeOldRooms)
			}
			if b.RequiredStateChanged(b) || (a.RequiredStateChanged(b) != (fmt.Sprint(a.RequiredState) != fmt.Sprint(b.RequiredState))) {
				v.fail("changed", "%s: RequiredStateChanged=%v", desc, a.RequiredStateChanged(b))
			}
		})
	}
}

func vfCheckUnion(v *vf, desc string, a, b, c RoomSubscription) {
	want := a.TimelineLimit
	if b.TimelineLimit > want {
		want = b.TimelineLimit
	}
	if c.TimelineLimit != want {
		v.fail("combine-limit", "%s gave timeline limit %d", desc, c.TimelineLimit)
	}
	if c.IncludeHeroes() != (a.IncludeHeroes() || b.IncludeHeroes()) {
		v.fail("combine-heroes", "%s gave heroes=%v", desc, c.IncludeHeroes())
	}
	ia, ib, ic := vfIncludes(a), vfIncludes(b), vfIncludes(c)
	for k := range ic {
		if ic[k] != (ia[k] || ib[k]) {
			v.fail("combine-state", "%s: event %s included=%v separately %v %v", desc, k, ic[k], ia[k], ib[k])
		}
	}
	if c.LazyLoadMembers() != (a.LazyLoadMembers() || b.LazyLoadMembers()) {
		v.fail("combine-lazy", "%s: lazy=%v", desc, c.LazyLoadMembers())
	}
}
