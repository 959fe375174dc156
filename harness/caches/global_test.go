package caches

import (
	"context"
	"encoding/json"
	"fmt"
	"sort"
	"testing"

	"github.com/matrix-org/sliding-sync/internal"
	"github.com/tidwall/gjson"
)

type vfRoom struct {
	name, avatar, alias, upgraded, typ, pred string
	enc                                      bool
	children                                 map[string]bool
	join, invite                             int
	heroes                                   []internal.Hero
	ts                                       uint64
	byType                                   map[string]internal.EventMetadata
}

func (r *vfRoom) String() string {
	var ch []string
	for k := range r.children {
		ch = append(ch, k)
	}
	sort.Strings(ch)
	return fmt.Sprint(r.name, "|", r.avatar, "|", r.alias, "|", r.upgraded, "|", r.typ, "|", r.pred, "|", r.enc, ch, r.join, r.invite, r.heroes, r.ts, r.byType)
}
func vfOf(m *internal.RoomMetadata) *vfRoom {
	s := func(p *string) string {
		if p == nil {
			return ""
		}
		return *p
	}
	r := &vfRoom{name: m.NameEvent, avatar: m.AvatarEvent, alias: m.CanonicalAlias, upgraded: s(m.UpgradedRoomID), typ: s(m.RoomType), pred: s(m.PredecessorRoomID),
		enc: m.Encrypted, join: m.JoinCount, invite: m.InviteCount, heroes: m.Heroes, ts: m.LastMessageTimestamp, byType: m.LatestEventsByType, children: map[string]bool{}}
	for k := range m.ChildSpaceRooms {
		r.children[k] = true
	}
	return r
}

func TestVerifGlobalCache(t *testing.T) {
	v := vfNew(t)
	rooms := []string{"!a", "!b"}
	users := []string{"@1", "@2", "@3", "@4", "@5", "@6", "@7", "@8"}
	word := func() string { return []string{"", "x", "y", "z"}[v.rng.Intn(4)] }
	ctx := context.Background()
	for n := 0; n < v.pick(1500, 15000) && v.nfailed() == 0; n++ {
		c := NewGlobalCache(nil)
		model := map[string]*vfRoom{}
		members := map[string]map[string]string{"!a": {}, "!b": {}}
		hist := ""
		for k := 0; k < 25; k++ {
			room := rooms[v.rng.Intn(2)]
			typ := []string{"m.room.name", "m.room.avatar", "m.room.canonical_alias", "m.room.encryption", "m.room.tombstone", "m.room.create", "m.space.child", "m.room.member", "m.room.member", "m.room.member", "m.room.message"}[v.rng.Intn(11)]
			sk := []string{"", "", "", "k", "NONE"}[v.rng.Intn(5)]
			content := map[string]interface{}{}
			prev := map[string]interface{}{}
			m := model[room]
			if m == nil {
				m = &vfRoom{children: map[string]bool{}, byType: map[string]internal.EventMetadata{}}
				model[room] = m
			}
			isState := sk == ""
			switch typ {
			case "m.room.name":
				w := word()
				content["name"] = w
				if isState {
					m.name = w
				}
			case "m.room.avatar":
				w := word()
				content["url"] = w
				if isState {
					m.avatar = w
				}
			case "m.room.canonical_alias":
				w := word()
				content["alias"] = w
				if isState {
					m.alias = w
				}
			case "m.room.encryption":
				if isState {
					m.enc = true
				}
			case "m.room.tombstone":
				w := word()
				content["replacement_room"] = w
				if isState {
					m.upgraded = w
				}
			case "m.room.create":
				w := word()
				if w != "" {
					content["type"] = w
					content["predecessor"] = map[string]string{"room_id": "!" + w}
					if isState {
						m.typ, m.pred = w, "!"+w
					}
				}
			case "m.space.child":
				w := word()
				if w == "x" {
					content["via"] = []string{"hs"}
				} else if w == "y" {
					content["via"] = "bad"
				}
				if sk != "NONE" {
					if w == "x" {
						m.children[sk] = true
					} else {
						delete(m.children, sk)
					}
				}
			case "m.room.member":
				sk = users[v.rng.Intn(len(users))]
				was := members[room][sk]
				now := []string{"join", "join", "invite", "leave", "ban"}[v.rng.Intn(5)]
				name, av := word(), word()
				content["membership"], content["displayname"], content["avatar_url"] = now, name, av
				if was != "" {
					prev["membership"] = was
				}
				members[room][sk] = now
				j, i := 0, 0
				for _, x := range members[room] {
					if x == "join" {
						j++
					} else if x == "invite" {
						i++
					}
				}
				m.join, m.invite = j, i
				idx := -1
				for x := range m.heroes {
					if m.heroes[x].ID == sk {
						idx = x
					}
				}
				h := internal.Hero{ID: sk, Name: name, Avatar: av}
				switch {
				case now == "leave" || now == "ban":
					if idx >= 0 {
						m.heroes = append(append([]internal.Hero{}, m.heroes[:idx]...), m.heroes[idx+1:]...)
					}
				case idx >= 0:
					m.heroes[idx] = h
				case len(m.heroes) < 6:
					m.heroes = append(m.heroes, h)
				}
			}
			ed := &EventData{RoomID: room, EventType: typ, NID: int64(n*100 + k), Timestamp: uint64(1 + v.rng.Intn(50)), JoinCount: m.join, InviteCount: m.invite}
			ev := map[string]interface{}{"type": typ, "content": content, "unsigned": map[string]interface{}{"prev_content": prev}}
			if sk != "NONE" {
				s := sk
				ed.StateKey = &s
				ev["state_key"] = sk
			}
			ed.Event, _ = json.Marshal(ev)
			ed.Content = gjson.ParseBytes(ed.Event).Get("content")
			m.ts = ed.Timestamp
			m.byType[typ] = internal.EventMetadata{NID: ed.NID, Timestamp: ed.Timestamp}
			hist += fmt.Sprintf(" %s:%s", room, ed.Event)
			before := c.LoadRooms(ctx, "!a", "!b")
			ba, bb := vfOf(before["!a"]).String(), vfOf(before["!b"]).String()
			if !v.guard("event", hist, func() { c.OnNewEvent(ctx, ed) }) {
				return
			}
			if x, y := vfOf(before["!a"]).String(), vfOf(before["!b"]).String(); x != ba || y != bb {
				v.fail("snapshot", "an event changed metadata that had been handed out: %s -> %s, %s -> %s after%s", ba, x, bb, y, hist)
			}
			for r, m := range model {
				got := vfOf(c.LoadRooms(ctx, r)[r])
				if len(got.heroes) > 0 || len(m.heroes) > 0 {
					a, b := append([]internal.Hero{}, got.heroes...), append([]internal.Hero{}, m.heroes...)
					sort.Slice(a, func(i, j int) bool { return a[i].ID < a[j].ID })
					sort.Slice(b, func(i, j int) bool { return b[i].ID < b[j].ID })
					if fmt.Sprint(a) != fmt.Sprint(b) {
						v.fail("heroes", "room %s heroes %v want %v after%s", r, a, b, hist)
						return
					}
					got.heroes, m.heroes = b, b
				}
				if got.String() != m.String() {
					v.fail("metadata", "room %s has %s want %s after%s", r, got, m, hist)
					return
				}
				// a copy is the reader's own
				cp, was := c.LoadRooms(ctx, r)[r], vfOf(c.LoadRooms(ctx, r)[r]).String()
				for i := range cp.Heroes {
					cp.Heroes[i].ID = "mine"
				}
				cp.ChildSpaceRooms["mine"] = struct{}{}
				if vfOf(c.LoadRooms(ctx, r)[r]).String() != was {
					v.fail("shared", "changing loaded metadata changed the cache")
					return
				}
			}
		}
		v.eval(hist)
	}
}
