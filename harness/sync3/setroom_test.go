package sync3

import (
	"context"
	"fmt"
	"strings"
	"testing"

	"github.com/matrix-org/sliding-sync/internal"
)

func TestVerifSetRoom(t *testing.T) {
	v := vfNew(t)
	word := func() string { return []string{"", "x", "y", "Z"}[v.rng.Intn(4)] }
	for n := 0; n < v.pick(4000, 40000) && v.nfailed() == 0; n++ {
		s := NewInternalRequestLists()
		all := []string{"all", "dms", "late"}
		live := map[string]bool{"all": true}
		// the rooms exist before their lists do
		type st struct {
			room RoomConnMetadata
			ts   map[string]uint64
		}
		model := map[string]*st{}
		dm := true
		hist := ""
		ctx := context.Background()
		s.AssignList(ctx, "all", &RequestFilters{}, []string{SortByRecency}, Overwrite)
		for k := 0; k < 14; k++ {
			if k == 3 || (k > 3 && v.rng.Intn(6) == 0) {
				key := all[v.rng.Intn(3)]
				if live[key] && v.rng.Intn(2) == 0 {
					s.DeleteList(key)
					delete(live, key)
					for _, m := range model {
						delete(m.ts, key)
					}
					hist += " delete " + key
					continue
				}
				f := &RequestFilters{}
				if key == "dms" {
					f.IsDM = &dm
				}
				ow := v.rng.Intn(2) == 0
				s.AssignList(ctx, key, f, []string{SortByRecency}, OverwriteVal(ow))
				live[key] = true
				hist += fmt.Sprintf(" assign %s overwrite=%v", key, ow)
				// a list that was just made takes each room's recency from its last message
				for _, m := range model {
					for l := range live {
						if _, ok := m.ts[l]; !ok {
							m.ts[l] = m.room.LastMessageTimestamp
						}
					}
				}
				for id := range model {
					for l := range live {
						s.ReadOnlyRoom(id).GetLastInterestedEventTimestamp(l)
					}
				}
			}
			id := []string{"!a", "!b", "!c"}[v.rng.Intn(3)]
			m := model[id]
			r := RoomConnMetadata{LastInterestedEventTimestamps: map[string]uint64{}}
			if m == nil {
				r.RoomMetadata = *internal.NewRoomMetadata(id)
			} else {
				r = m.room
				r.RoomMetadata = *m.room.RoomMetadata.DeepCopy()
				r.CanonicalisedName = []string{"", r.CanonicalisedName}[v.rng.Intn(2)]
				r.ResolvedAvatarURL = ""
				r.LastInterestedEventTimestamps = map[string]uint64{}
			}
			for c := v.rng.Intn(3); c >= 0; c-- {
				switch v.rng.Intn(10) {
				case 0:
					r.NameEvent = word()
				case 1:
					r.CanonicalAlias = word()
				case 2:
					r.JoinCount = v.rng.Intn(4)
				case 3:
					r.InviteCount = v.rng.Intn(3)
				case 4:
					r.AvatarEvent = word()
				case 5:
					r.IsDM = !r.IsDM
				case 6:
					r.Heroes = append(r.Heroes, internal.Hero{ID: fmt.Sprint("@", v.rng.Intn(5)), Name: word(), Avatar: word()})
				case 7:
					if len(r.Heroes) > 0 {
						i := v.rng.Intn(len(r.Heroes))
						if v.rng.Intn(2) == 0 {
							r.Heroes[i].Name = word()
						} else {
							r.Heroes[i].Avatar = word()
						}
					}
				case 8:
					if len(r.Heroes) > 0 {
						r.RemoveHero(r.Heroes[v.rng.Intn(len(r.Heroes))].ID)
					}
				case 9:
					r.NotificationCount, r.HighlightCount = v.rng.Intn(3), v.rng.Intn(2)
				}
			}
			r.LastMessageTimestamp = uint64(1 + v.rng.Intn(100))
			for l := range live {
				if m == nil || v.rng.Intn(2) == 0 {
					r.LastInterestedEventTimestamps[l] = r.LastMessageTimestamp
				}
			}
			hist += fmt.Sprintf(" set %s name=%q alias=%q n=%d/%d av=%q dm=%v heroes=%v ts=%d bump=%v", id, r.NameEvent, r.CanonicalAlias, r.JoinCount, r.InviteCount, r.AvatarEvent, r.IsDM, r.Heroes, r.LastMessageTimestamp, r.LastInterestedEventTimestamps)
			bump := map[string]uint64{}
			for l, x := range r.LastInterestedEventTimestamps {
				bump[l] = x
			}
			var delta RoomDelta
			if !v.guard("set", hist, func() { delta = s.SetRoom(r) }) {
				return
			}
			got := s.ReadOnlyRoom(id)
			name, _ := internal.CalculateRoomName(&r.RoomMetadata, 5)
			canon := strings.ToLower(strings.Trim(name, "#!():_@"))
			if got == nil || got.CanonicalisedName != canon {
				v.fail("sortname", "room %s sorts as %q, its name is %q:%s", id, got.CanonicalisedName, name, hist)
			}
			if m != nil {
				oldName, _ := internal.CalculateRoomName(&m.room.RoomMetadata, 5)
				if oldName != name && !delta.RoomNameChanged {
					v.fail("name", "the change of name from %q to %q is not noticed:%s", oldName, name, hist)
				}
				oa, na := internal.CalculateAvatar(&m.room.RoomMetadata, m.room.IsDM), internal.CalculateAvatar(&r.RoomMetadata, r.IsDM)
				if oa != na && !delta.RoomAvatarChanged {
					v.fail("avatar", "the change of avatar from %q to %q is not noticed:%s", oa, na, hist)
				}
				if delta.JoinCountChanged != (m.room.JoinCount != r.JoinCount) || delta.InviteCountChanged != (m.room.InviteCount != r.InviteCount) {
					v.fail("counts", "changed counts are misreported: %+v:%s", delta, hist)
				}
				if delta.NotificationCountChanged != (m.room.NotificationCount != r.NotificationCount) || delta.HighlightCountChanged != (m.room.HighlightCount != r.HighlightCount) {
					v.fail("unread", "changed unread counts are misreported: %+v:%s", delta, hist)
				}
			}
			if m == nil {
				m = &st{ts: map[string]uint64{}}
				model[id] = m
			}
			for l, x := range bump {
				m.ts[l] = x
			}
			for l := range live {
				if _, ok := m.ts[l]; !ok {
					m.ts[l] = m.room.LastMessageTimestamp
				}
			}
			m.room = *got
			m.room.RoomMetadata = *got.RoomMetadata.DeepCopy()
			for l := range live {
				if x := got.GetLastInterestedEventTimestamp(l); x != m.ts[l] {
					v.fail("recency", "room %s has recency %d in list %s, want %d:%s", id, x, l, m.ts[l], hist)
				}
			}
		}
		v.eval(hist)
	}
}
