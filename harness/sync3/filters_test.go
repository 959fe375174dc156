package sync3

import (
	"context"
	"fmt"
	"sort"
	"strings"
	"testing"

	"github.com/matrix-org/sliding-sync/internal"
	"github.com/matrix-org/sliding-sync/sync3/caches"
)

type vfFinder map[string]*RoomConnMetadata

func (f vfFinder) ReadOnlyRoom(id string) *RoomConnMetadata { return f[id] }

func vfPtr(s string) *string { return &s }

func (v *vf) optBool() *bool {
	if v.rng.Intn(3) > 0 {
		return nil
	}
	b := v.rng.Intn(2) == 0
	return &b
}

func (v *vf) someStrings(from []string) (out []string) {
	for _, s := range from {
		if v.rng.Intn(4) == 0 {
			out = append(out, s)
		}
	}
	v.rng.Shuffle(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
	return
}

var vfTypes = []*string{nil, vfPtr("m.space"), vfPtr("x"), vfPtr("")}

func (v *vf) someTypes() (out []*string) {
	for _, s := range vfTypes {
		if v.rng.Intn(4) == 0 {
			if s != nil {
				c := *s
				s = &c
			}
			out = append(out, s)
		}
	}
	return
}

var vfNames = []string{"", "Alpha", "beta", "ALPHABET", "Ünï", "a"}

func (v *vf) filter() *RequestFilters {
	return &RequestFilters{
		Spaces: v.someStrings([]string{"!s1", "!s2", "!s3"}), IsDM: v.optBool(), IsEncrypted: v.optBool(), IsInvite: v.optBool(), IsTombstoned: v.optBool(),
		RoomTypes: v.someTypes(), NotRoomTypes: v.someTypes(), RoomNameFilter: []string{"", "", "", "alpha", "BET", "ï", "a"}[v.rng.Intn(7)],
		Tags: v.someStrings([]string{"m.favourite", "m.low", ""}), NotTags: v.someStrings([]string{"m.favourite", "m.low", ""}),
	}
}

func (v *vf) room(id string, others []string) RoomConnMetadata {
	m := internal.NewRoomMetadata(id)
	m.NameEvent = vfNames[v.rng.Intn(len(vfNames))]
	m.Encrypted = v.rng.Intn(2) == 0
	m.RoomType = vfTypes[v.rng.Intn(len(vfTypes))]
	m.LastMessageTimestamp = uint64(v.rng.Intn(6))
	if v.rng.Intn(3) == 0 {
		m.UpgradedRoomID = vfPtr(others[v.rng.Intn(len(others))])
	}
	u := caches.NewUserRoomData()
	u.IsDM = v.rng.Intn(2) == 0
	u.IsInvite = v.rng.Intn(4) == 0
	u.HasLeft = !u.IsInvite && v.rng.Intn(4) == 0
	u.NotificationCount = v.rng.Intn(3)
	u.HighlightCount = v.rng.Intn(3)
	for _, t := range v.someStrings([]string{"m.favourite", "m.low", ""}) {
		if u.Tags == nil {
			u.Tags = map[string]float64{}
		}
		u.Tags[t] = 0.5
	}
	for _, t := range v.someStrings([]string{"!s1", "!s2", "!s3"}) {
		if u.Spaces == nil {
			u.Spaces = map[string]struct{}{}
		}
		u.Spaces[t] = struct{}{}
	}
	return RoomConnMetadata{RoomMetadata: *m, UserRoomData: u, LastInterestedEventTimestamps: map[string]uint64{}}
}

func vfDeref(s *string) string {
	if s == nil {
		return "<nil>"
	}
	return "=" + *s
}
func vfHasType(in []*string, t *string) bool {
	for _, x := range in {
		if vfDeref(x) == vfDeref(t) {
			return true
		}
	}
	return false
}

// the written meaning of the filters
func vfWant(f *RequestFilters, r *RoomConnMetadata, find func(string) *RoomConnMetadata) bool {
	if r.UpgradedRoomID != nil {
		if n := find(*r.UpgradedRoomID); n != nil && !n.HasLeft && !n.IsInvite {
			return false
		}
	}
	b := func(p *bool, x bool) bool { return p == nil || *p == x }
	ok := b(f.IsEncrypted, r.Encrypted) && b(f.IsDM, r.IsDM) && b(f.IsInvite, r.IsInvite) && b(f.IsTombstoned, r.UpgradedRoomID != nil)
	name, _ := internal.CalculateRoomName(&r.RoomMetadata, 5)
	ok = ok && strings.Contains(strings.ToLower(name), strings.ToLower(f.RoomNameFilter))
	has := func(ts []string) bool {
		for _, t := range ts {
			if _, x := r.Tags[t]; x {
				return true
			}
		}
		return false
	}
	ok = ok && !has(f.NotTags) && (len(f.Tags) == 0 || has(f.Tags))
	ok = ok && !vfHasType(f.NotRoomTypes, r.RoomType) && (len(f.RoomTypes) == 0 || vfHasType(f.RoomTypes, r.RoomType))
	inSpace := len(f.Spaces) == 0
	for _, s := range f.Spaces {
		if _, x := r.UserRoomData.Spaces[s]; x {
			inSpace = true
		}
	}
	return ok && inSpace
}

func vfFilterDesc(f *RequestFilters) string {
	if f == nil {
		return "<nil>"
	}
	p := func(b *bool) string {
		if b == nil {
			return "-"
		}
		return fmt.Sprint(*b)
	}
	ts := func(in []*string) (out []string) {
		for _, x := range in {
			out = append(out, vfDeref(x))
		}
		return
	}
	return fmt.Sprintf("{dm=%s enc=%s inv=%s tomb=%s types=%v not=%v name=%q tags=%q nottags=%q spaces=%v}", p(f.IsDM), p(f.IsEncrypted), p(f.IsInvite), p(f.IsTombstoned), ts(f.RoomTypes), ts(f.NotRoomTypes), f.RoomNameFilter, f.Tags, f.NotTags, f.Spaces)
}
func vfRoomDesc(r *RoomConnMetadata) string {
	return fmt.Sprintf("{%s name=%q enc=%v dm=%v inv=%v left=%v type=%s up=%s tags=%v spaces=%v n=%d h=%d ts=%d}", r.RoomID, r.NameEvent, r.Encrypted, r.IsDM, r.IsInvite, r.HasLeft, vfDeref(r.RoomType), vfDeref(r.UpgradedRoomID), r.Tags, r.UserRoomData.Spaces, r.NotificationCount, r.HighlightCount, r.LastMessageTimestamp)
}

func TestVerifFilters(t *testing.T) {
	v := vfNew(t)
	ids := []string{"!a", "!b", "!c", "!d", "!e"}
	n := v.pick(30000, 600000)
	for k := 0; k < n && v.nfailed() < 5; k++ {
		f := v.filter()
		if v.rng.Intn(2) == 0 { // fewer conditions: most rooms would fail a long conjunction
			g := &RequestFilters{}
			switch v.rng.Intn(9) {
			case 0:
				g.Spaces = f.Spaces
			case 1:
				g.Tags, g.NotTags = f.Tags, f.NotTags
			case 2:
				g.RoomTypes, g.NotRoomTypes = f.RoomTypes, f.NotRoomTypes
			case 3:
				g.RoomNameFilter = f.RoomNameFilter
			case 4:
				g.IsDM, g.IsInvite = f.IsDM, f.IsInvite
			case 5:
				g.IsEncrypted, g.IsTombstoned = f.IsEncrypted, f.IsTombstoned
			case 6:
				g.RoomTypes, g.Spaces = f.RoomTypes, f.Spaces
			case 7:
				g.Tags, g.Spaces = f.Tags, f.Spaces
			}
			f = g
		}
		finder := vfFinder{}
		for _, id := range ids[:2+v.rng.Intn(3)] {
			r := v.room(id, ids)
			finder[id] = &r
		}
		r := finder[ids[0]]
		desc := fmt.Sprintf("filter=%s room=%s", vfFilterDesc(f), vfRoomDesc(r))
		v.eval(desc)
		var got bool
		if !v.guard("include", desc, func() { got = f.Include(r, finder) }) {
			continue
		}
		if want := vfWant(f, r, finder.ReadOnlyRoom); got != want {
			v.fail("include", "Include=%v want %v: %s", got, want, desc)
		}
	}
	vfLists(v)
}

// sequences of room updates and list assignments: every list holds exactly the rooms that match its filter
// and that the user has not left, as far as the reported operations are applied.
func vfLists(v *vf) {
	ids := []string{"!a", "!b", "!c", "!d", "!e"}
	keys := []string{"k1", "k2"}
	n := v.pick(1500, 30000)
	for k := 0; k < n && v.nfailed() < 5; k++ {
		ls := NewInternalRequestLists()
		rooms := map[string]RoomConnMetadata{}
		filters := map[string]*RequestFilters{}
		desc := ""
		// a room upgrade is applied to the lists when the old room itself is next updated, so only compare
		// rooms whose verdict cannot depend on another room
		find := func(id string) *RoomConnMetadata { return ls.ReadOnlyRoom(id) }
		for step := 0; step < 12; step++ {
			switch v.rng.Intn(4) {
			case 0:
				key := keys[v.rng.Intn(2)]
				f := v.filter()
				if v.rng.Intn(2) == 0 {
					f = nil
				} else if v.rng.Intn(2) == 0 {
					f = &RequestFilters{Spaces: f.Spaces}
				}
				_, had := filters[key]
				ow := OverwriteVal(v.rng.Intn(2) == 0)
				desc += fmt.Sprintf("assign %s %s overwrite=%v; ", key, vfFilterDesc(f), ow)
				_, changed := ls.AssignList(context.Background(), key, f, []string{SortByName}, ow)
				if changed != (ow == Overwrite || !had) {
					v.fail("assign-overwrite", "%s: reported overwritten=%v, had=%v", desc, changed, had)
				}
				if ow == Overwrite || !had {
					if f == nil {
						f = &RequestFilters{}
					}
					filters[key] = f
					v.eval(desc)
					var want []string
					for id := range rooms {
						if r := ls.ReadOnlyRoom(id); !r.HasLeft && vfWant(f, r, find) {
							want = append(want, id)
						}
					}
					got := ls.Get(key).RoomIDs()
					sort.Strings(want)
					gs := append([]string{}, got...)
					sort.Strings(gs)
					if fmt.Sprint(gs) != fmt.Sprint(want) {
						v.fail("assign-rooms", "%s rooms=%s: list has %v want %v", desc, vfAll(ls, ids), gs, want)
					}
				}
			default:
				r := v.room(ids[v.rng.Intn(len(ids))], ids)
				if v.rng.Intn(2) == 0 {
					r.UpgradedRoomID = nil
				}
				desc += "set " + vfRoomDesc(&r) + "; "
				before := map[string]bool{}
				for key := range filters {
					_, before[key] = ls.Get(key).IndexOf(r.RoomID)
				}
				d := ls.SetRoom(r)
				rooms[r.RoomID] = r
				v.eval(desc)
				ops := map[string]ListOp{}
				for _, l := range d.Lists {
					if _, dup := ops[l.ListKey]; dup {
						v.fail("delta-dup", "%s: two operations for list %s", desc, l.ListKey)
					}
					ops[l.ListKey] = l.Op
				}
				for key, f := range filters {
					should := !r.HasLeft && vfWant(f, ls.ReadOnlyRoom(r.RoomID), find)
					var want ListOp
					switch {
					case before[key] && should:
						want = ListOpChange
					case before[key]:
						want = ListOpDel
					case should:
						want = ListOpAdd
					}
					if ops[key] != want {
						v.fail("delta-op", "%s: list %s operation %d want %d", desc, key, ops[key], want)
					}
					// apply as the live connection does
					switch ops[key] {
					case ListOpAdd:
						if !ls.Get(key).Add(r.RoomID) {
							v.fail("add-refused", "%s: list %s refused an addition it reported", desc, key)
						}
					case ListOpDel:
						ls.Get(key).Remove(r.RoomID)
					}
					_, now := ls.Get(key).IndexOf(r.RoomID)
					if now != should {
						v.fail("list-member", "%s: list %s contains=%v want %v", desc, key, now, should)
					}
				}
			}
		}
	}
}

func vfAll(ls *InternalRequestLists, ids []string) (s string) {
	for _, id := range ids {
		if r := ls.ReadOnlyRoom(id); r != nil {
			s += vfRoomDesc(r)
		}
	}
	return
}
