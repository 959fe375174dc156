package internal

import (
	"fmt"
	"reflect"
	"strings"
	"testing"
)

// the naming rules, written independently of the code
func vfWant(m *RoomMetadata, max int) string {
	if m.NameEvent != "" {
		return m.NameEvent
	}
	if m.CanonicalAlias != "" {
		return m.CanonicalAlias
	}
	dn := func(h Hero) string {
		if h.Name == "" {
			return h.ID
		}
		return h.Name
	}
	var names []string
	for i, h := range m.Heroes {
		n := dn(h)
		for j, o := range m.Heroes {
			if j != i && dn(o) == n {
				n = n + " (" + h.ID + ")"
				break
			}
		}
		names = append(names, n)
	}
	others := m.JoinCount + m.InviteCount - 1
	switch {
	case len(names) == 0 && others <= 0:
		return "Empty Room"
	case len(names) >= others:
		if len(names) == 1 {
			return names[0]
		}
		s := strings.Join(names[:len(names)-1], ", ") + " and " + names[len(names)-1]
		if others <= 0 {
			s = "Empty Room (was " + s + ")"
		}
		return s
	}
	if len(names) > max {
		names = names[:max]
	}
	return strings.Join(names, ", ") + fmt.Sprintf(" and %d others", others-len(names))
}

func TestVerifNames(t *testing.T) {
	v := vfNew(t)
	pool := []string{"", "Al", "Al", "Bo", "@a", "@b", "Al (@a)", "Zoë"}
	for n := 0; n < v.pick(60000, 600000) && v.nfailed() == 0; n++ {
		m := NewRoomMetadata("!r")
		if v.rng.Intn(5) == 0 {
			m.NameEvent = "N"
		}
		if v.rng.Intn(5) == 0 {
			m.CanonicalAlias = "#a:b"
		}
		ids := []string{"@a", "@b", "@c", "@d", "@e", "@f"}
		v.rng.Shuffle(6, func(i, j int) { ids[i], ids[j] = ids[j], ids[i] })
		for i := 0; i < v.rng.Intn(7); i++ {
			m.Heroes = append(m.Heroes, Hero{ID: ids[i], Name: pool[v.rng.Intn(len(pool))], Avatar: pool[v.rng.Intn(len(pool))]})
		}
		m.JoinCount, m.InviteCount = v.rng.Intn(6), v.rng.Intn(4)
		m.LatestEventsByType["x"] = EventMetadata{NID: int64(v.rng.Intn(9)), Timestamp: 4}
		m.ChildSpaceRooms[pool[v.rng.Intn(8)]] = struct{}{}
		max := 1 + v.rng.Intn(6)
		desc := fmt.Sprintf("max=%d %+v", max, *m)
		v.eval(desc)
		v.guard("name", desc, func() {
			want := vfWant(m, max)
			if len(m.Heroes) == 0 && m.NameEvent == "" && m.CanonicalAlias == "" && m.JoinCount+m.InviteCount > 1 {
				want = "" // no heroes known for a populated room: the wording is not fixed
			}
			got, _ := CalculateRoomName(m, max)
			if want != "" && got != want {
				v.fail("name", "%s: got %q want %q", desc, got, want)
			}
			c := m.DeepCopy()
			if !reflect.DeepEqual(*c, *m) && !(len(m.Heroes) == 0 && len(c.Heroes) == 0) {
				v.fail("copy", "%s: copied %+v", desc, *c)
			}
			gone := ids[v.rng.Intn(6)]
			c.RemoveHero(gone)
			c.LatestEventsByType["y"] = EventMetadata{NID: 77}
			c.ChildSpaceRooms["zz"] = struct{}{}
			var left []Hero
			for _, h := range m.Heroes {
				if h.ID != gone {
					left = append(left, h)
				}
			}
			if fmt.Sprint(left) != fmt.Sprint(c.Heroes) {
				v.fail("removehero", "%s without %s: %v want %v", desc, gone, c.Heroes, left)
			}
			if d := fmt.Sprintf("max=%d %+v", max, *m); d != desc {
				v.fail("aliased", "changing a copy changed the original: %s -> %s", desc, d)
			}
			av := m.AvatarEvent
			if len(m.Heroes) == 1 {
				av = m.Heroes[0].Avatar
			}
			if a := CalculateAvatar(m, true); a != av {
				v.fail("avatar", "%s dm avatar %q", desc, a)
			}
			if a := CalculateAvatar(m, false); a != "" {
				v.fail("avatar", "%s avatar %q in a room that is no DM", desc, a)
			}
			m.AvatarEvent = "mxc://x"
			if a := CalculateAvatar(m, v.rng.Intn(2) == 0); a != "mxc://x" {
				v.fail("avatar", "%s avatar %q", desc, a)
			}
			// any change that changes the name is a change of the fields compared
			o := m.DeepCopy()
			switch v.rng.Intn(6) {
			case 0:
				o.NameEvent += "x"
			case 1:
				o.CanonicalAlias += "x"
			case 2:
				o.JoinCount++
			case 3:
				o.InviteCount++
			case 4:
				if len(o.Heroes) > 0 {
					o.Heroes[v.rng.Intn(len(o.Heroes))].Name += "x"
				}
			case 5:
				o.RemoveHero(gone)
			}
			a, _ := CalculateRoomName(m, 5)
			b, _ := CalculateRoomName(o, 5)
			if a != b && m.SameRoomName(o) {
				v.fail("same", "%+v and %+v are taken to have the same name", *m, *o)
			}
			if !m.SameRoomName(m.DeepCopy()) {
				v.fail("same", "%+v has not the same name as its copy", *m)
			}
		})
	}
}
