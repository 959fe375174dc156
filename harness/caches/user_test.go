package caches

import (
	"context"
	"encoding/json"
	"fmt"
	"sort"
	"strings"
	"testing"

	"github.com/matrix-org/sliding-sync/internal"
	"github.com/matrix-org/sliding-sync/state"
	"github.com/tidwall/gjson"
)

// what a user's clients should be told of a room
type vfUR struct {
	dm, inv, left bool
	n, h          int
	spaces        map[string]bool
	tags          map[string]float64
	invite        string
}

func (r *vfUR) String() string {
	var sp []string
	for k := range r.spaces {
		sp = append(sp, k)
	}
	sort.Strings(sp)
	s := fmt.Sprintf("dm=%v invite=%v left=%v notif=%d highlight=%d spaces=%v tags=%v", r.dm, r.inv, r.left, r.n, r.h, sp, r.tags)
	if r.inv {
		s += " invite=" + r.invite
	}
	return s
}
func vfURof(u UserRoomData) string {
	r := &vfUR{dm: u.IsDM, inv: u.IsInvite, left: u.HasLeft, n: u.NotificationCount, h: u.HighlightCount, spaces: map[string]bool{}, tags: u.Tags}
	if r.tags == nil {
		r.tags = map[string]float64{}
	}
	for k := range u.Spaces {
		r.spaces[k] = true
	}
	if u.Invite != nil {
		r.invite = vfInv(u.Invite)
	}
	return r.String()
}
func vfInv(i *InviteData) string {
	var st []string
	for _, e := range i.InviteState {
		st = append(st, string(e))
	}
	return strings.Join(st, ",") + vfMeta(i.RoomMetadata())
}
func vfMeta(m *internal.RoomMetadata) string {
	t := ""
	if m.RoomType != nil {
		t = *m.RoomType
	}
	return fmt.Sprint("[", m.RoomID, m.NameEvent, "|", m.AvatarEvent, "|", m.CanonicalAlias, "|", m.Encrypted, t, m.LastMessageTimestamp, m.Heroes, m.JoinCount, m.InviteCount, "]")
}

// a connection: it is told of every change, in order
type vfListen struct {
	got  []string
	kept []*UserRoomData
	was  []string
}

func (l *vfListen) room(up RoomUpdate) string {
	u := up.UserRoomMetadata()
	l.kept = append(l.kept, u)
	l.was = append(l.was, vfURof(*u))
	return up.RoomID() + " " + vfURof(*u) + " " + vfMeta(up.GlobalRoomMetadata())
}
func (l *vfListen) OnRoomUpdate(ctx context.Context, up RoomUpdate) {
	s := ""
	switch u := up.(type) {
	case *UnreadCountUpdate:
		s = fmt.Sprint("unread decreased=", u.HasCountDecreased)
	case *RoomEventUpdate:
		s = fmt.Sprint("event ", string(u.EventData.Event), " always=", u.EventData.AlwaysProcess)
	case *InviteUpdate:
		s = "invite"
	case *ReceiptUpdate:
		s = fmt.Sprint("receipt ", u.Receipt.EventID)
	case *TypingUpdate:
		s = "typing"
	case *RoomAccountDataUpdate:
		s = "data"
		for _, d := range u.AccountData {
			s += " " + string(d.Data)
		}
	default:
		s = "update"
	}
	l.got = append(l.got, s+" "+l.room(up))
}
func (l *vfListen) OnUpdate(ctx context.Context, up Update) {
	s := fmt.Sprintf("? %T", up)
	if u, ok := up.(*AccountDataUpdate); ok {
		s = "global data"
		for _, d := range u.AccountData {
			s += " " + string(d.Data)
		}
	}
	l.got = append(l.got, s)
}

type vfJoin map[string]bool

func (j vfJoin) IsUserJoined(u, r string) bool { return u == "@me" && j[r] }

func TestVerifUserCache(t *testing.T) {
	v := vfNew(t)
	ctx := context.Background()
	rooms := []string{"!a", "!b", "!c", "!s"}
	users := []string{"@me", "@x", "@y"}
	for n := 0; n < v.pick(4000, 40000) && v.nfailed() == 0; n++ {
		gc := NewGlobalCache(nil)
		metas := map[string]internal.RoomMetadata{}
		joined := vfJoin{}
		for _, r := range rooms {
			joined[r] = v.rng.Intn(2) == 0
			if v.rng.Intn(4) > 0 {
				m := internal.NewRoomMetadata(r)
				m.NameEvent, m.LastMessageTimestamp, m.JoinCount = "secret"+r, uint64(5+v.rng.Intn(3)), 3
				metas[r] = *m
			}
		}
		gc.Startup(metas)
		meta := func(r string) string {
			if m, ok := metas[r]; ok {
				return vfMeta(&m)
			}
			return vfMeta(internal.NewRoomMetadata(r))
		}
		c := NewUserCache("@me", gc, nil, nil, joined)
		model := map[string]*vfUR{}
		for _, r := range rooms {
			model[r] = &vfUR{spaces: map[string]bool{}, tags: map[string]float64{}}
		}
		ignored := map[string]bool{}
		ls, want := map[int]*vfListen{}, map[int][]string{}
		hist := []string{}
		var all []*vfListen
		for k := 0; k < 25 && v.nfailed() == 0; k++ {
			r := rooms[v.rng.Intn(len(rooms))]
			m := model[r]
			tell := func(f string) { // with the data as of now
				for id := range ls {
					want[id] = append(want[id], f)
				}
			}
			desc := ""
			switch op := v.rng.Intn(11); op {
			case 0: // counts
				var h, nc *int
				if v.rng.Intn(4) > 0 {
					x := v.rng.Intn(3)
					h = &x
				}
				if v.rng.Intn(4) > 0 {
					x := v.rng.Intn(3)
					nc = &x
				}
				dec := h != nil && *h < m.h || nc != nil && *nc < m.n
				if h != nil {
					m.h = *h
				}
				if nc != nil {
					m.n = *nc
				}
				desc = fmt.Sprintf("unread counts of %s: highlight=%v notif=%v", r, vfP(h), vfP(nc))
				c.OnUnreadCounts(ctx, r, h, nc)
				tell(fmt.Sprint("unread decreased=", dec, " ", r, " ", m, " ", meta(r)))
			case 1, 2, 3: // an event of a room
				typ := []string{"m.room.member", "m.room.member", "m.space.child", "m.room.message", "m.room.topic"}[v.rng.Intn(5)]
				sk := ""
				var skp *string
				content := `{"body":"x"}`
				switch typ {
				case "m.room.member":
					sk = users[v.rng.Intn(3)]
					skp = &sk
					ms := []string{"join", "leave", "ban", "invite", "knock"}[v.rng.Intn(5)]
					content = fmt.Sprintf(`{"membership":"%s"}`, ms)
					if sk == "@me" {
						if ms == "join" {
							m.left = false
						}
						if m.inv && ms != "invite" {
							m.inv = false
							m.h = 0
						}
					}
				case "m.space.child":
					if v.rng.Intn(5) > 0 {
						sk = rooms[v.rng.Intn(3)]
						if sk == r {
							continue
						}
						skp = &sk
						cm := model[sk]
						if v.rng.Intn(2) == 0 {
							content = `{"via":["h"]}`
							cm.spaces[r] = true
						} else {
							content = []string{`{}`, `{"via":"h"}`, `{"via":null}`}[v.rng.Intn(3)]
							delete(cm.spaces, r)
						}
					}
				case "m.room.topic":
					skp = &sk
				}
				js := fmt.Sprintf(`{"type":"%s","content":%s,"n":%d}`, typ, content, k)
				desc = fmt.Sprintf("event of %s with state key %v: %s", r, sk, js)
				c.OnNewEvent(ctx, &EventData{Event: json.RawMessage(js), RoomID: r, EventType: typ, StateKey: skp, Content: gjson.Parse(content), Sender: "@x", NID: int64(k + 1)})
				if typ == "m.space.child" && skp != nil && joined[sk] {
					tell(fmt.Sprint("update ", sk, " ", model[sk], " ", meta(sk)))
				}
				tell(fmt.Sprint("event ", js, " always=false ", r, " ", m, " ", meta(r)))
			case 4: // an invite
				var st []json.RawMessage
				im := internal.NewRoomMetadata(r)
				im.InviteCount, im.JoinCount = 1, 1
				mine, dm := false, false
				for _, ty := range []string{"m.room.create", "m.room.name", "m.room.avatar", "m.room.canonical_alias", "m.room.encryption", "me", "them", "other"} {
					if v.rng.Intn(3) == 0 {
						continue
					}
					x := fmt.Sprint("v", v.rng.Intn(3))
					js := ""
					switch ty {
					case "m.room.create":
						js = fmt.Sprintf(`{"type":"%s","state_key":"","content":{"type":"%s"}}`, ty, x)
						im.RoomType = &x
					case "m.room.name":
						js = fmt.Sprintf(`{"type":"%s","state_key":"","content":{"name":"%s"}}`, ty, x)
						im.NameEvent = x
					case "m.room.avatar":
						js = fmt.Sprintf(`{"type":"%s","state_key":"","content":{"url":"%s"}}`, ty, x)
						im.AvatarEvent = x
					case "m.room.canonical_alias":
						js = fmt.Sprintf(`{"type":"%s","state_key":"","content":{"alias":"%s"}}`, ty, x)
						im.CanonicalAlias = x
					case "m.room.encryption":
						js = fmt.Sprintf(`{"type":"%s","state_key":"","content":{}}`, ty)
						im.Encrypted = true
					case "me":
						dm = v.rng.Intn(2) == 0
						js = fmt.Sprintf(`{"type":"m.room.member","state_key":"@me","sender":"@x","origin_server_ts":%d,"content":{"membership":"invite","is_direct":%v}}`, 100+k, dm)
						im.LastMessageTimestamp = uint64(100 + k)
						mine = true
					case "them":
						js = fmt.Sprintf(`{"type":"m.room.member","state_key":"@x","sender":"@x","content":{"membership":"join","displayname":"%s"}}`, x)
						im.Heroes = append(im.Heroes, internal.Hero{ID: "@x", Name: x})
					case "other":
						js = `{"type":"m.room.topic","state_key":"","content":{"topic":"t"}}`
					}
					st = append(st, json.RawMessage(js))
				}
				var ss []string
				for _, e := range st {
					ss = append(ss, string(e))
				}
				desc = fmt.Sprintf("invite to %s: %s", r, ss)
				c.OnInvite(ctx, r, st)
				if mine {
					m.inv, m.left, m.h, m.dm = true, false, 1, dm
					m.invite = strings.Join(ss, ",") + vfMeta(im)
					tell(fmt.Sprint("invite ", r, " ", m, " ", vfMeta(im)))
				}
			case 5: // the user left, was kicked or rejected an invite
				sender := []string{"@me", "@x"}[v.rng.Intn(2)]
				ms := []string{"leave", "leave", "ban"}[v.rng.Intn(3)]
				js := fmt.Sprintf(`{"type":"m.room.member","state_key":"@me","sender":"%s","content":{"membership":"%s"}}`, sender, ms)
				always := m.inv || ms == "leave" && sender != "@me"
				m.inv, m.left, m.h, m.invite = false, true, 0, ""
				desc = fmt.Sprintf("the user is out of %s: %s", r, js)
				c.OnLeftRoom(ctx, r, []byte(js))
				tell(fmt.Sprint("event ", js, " always=", always, " ", r, " ", m, " ", vfMeta(internal.NewRoomMetadata(r))))
			case 6, 7: // account data
				var ds []state.AccountData
				per, seen := map[string]string{}, map[string]bool{}
				var rs []string
				for i := 1 + v.rng.Intn(3); i > 0; i-- {
					typ := []string{"m.direct", "m.tag", "m.ignored_user_list", "m.fully_read"}[v.rng.Intn(4)]
					dr := ""
					if typ == "m.tag" || typ == "m.fully_read" || v.rng.Intn(5) == 0 {
						dr = rooms[v.rng.Intn(4)]
					}
					if seen[dr+typ] || typ == "m.direct" && dr != "" {
						continue
					}
					seen[dr+typ] = true
					content := "{}"
					switch typ {
					case "m.direct":
						set := map[string]bool{}
						mm := map[string][]string{}
						for _, u := range users[1:] {
							for _, q := range rooms {
								if v.rng.Intn(4) == 0 {
									set[q] = true
									mm[u] = append(mm[u], q)
								}
							}
						}
						b, _ := json.Marshal(mm)
						content = string(b)
						for q, qm := range model {
							qm.dm = set[q]
						}
					case "m.tag":
						tags := map[string]map[string]float64{}
						model[dr].tags = map[string]float64{}
						for _, tg := range []string{"m.favourite", "u.x"} {
							if v.rng.Intn(2) == 0 {
								tags[tg] = map[string]float64{"order": float64(v.rng.Intn(3)) / 2}
								model[dr].tags[tg] = tags[tg]["order"]
							}
						}
						b, _ := json.Marshal(map[string]interface{}{"tags": tags})
						content = string(b)
					case "m.ignored_user_list":
						set := map[string]interface{}{}
						ig := map[string]bool{}
						for _, u := range users {
							if v.rng.Intn(3) == 0 {
								set[u] = map[string]string{}
								ig[u] = true
							}
						}
						b, _ := json.Marshal(map[string]interface{}{"ignored_users": set})
						content = string(b)
						if v.rng.Intn(6) == 0 {
							content = []string{`{}`, `{"ignored_users":["@x"]}`}[v.rng.Intn(2)] // malformed: no change
						} else if dr == "" {
							ignored = ig
						}
					}
					js := fmt.Sprintf(`{"type":"%s","content":%s}`, typ, content)
					ds = append(ds, state.AccountData{UserID: "@me", RoomID: dr, Type: typ, Data: []byte(js)})
					if per[dr] == "" {
						rs = append(rs, dr)
					}
					per[dr] += " " + js
				}
				if len(ds) == 0 {
					continue
				}
				desc = fmt.Sprint("account data ", per)
				c.OnAccountData(ctx, ds)
				for _, dr := range rs {
					if dr == "" {
						tell("global data" + per[dr])
					} else {
						tell(fmt.Sprint("data", per[dr], " ", dr, " ", model[dr], " ", meta(dr)))
					}
				}
			case 8:
				desc = "receipt in " + r
				c.OnReceipt(ctx, internal.Receipt{RoomID: r, EventID: fmt.Sprint("$", k)})
				tell(fmt.Sprint("receipt $", k, " ", r, " ", m, " ", meta(r)))
			case 9:
				typ := []string{"m.typing", "m.other"}[v.rng.Intn(2)]
				desc = typ + " in " + r
				c.OnEphemeralEvent(ctx, r, []byte(fmt.Sprintf(`{"type":"%s"}`, typ)))
				if typ == "m.typing" {
					tell(fmt.Sprint("typing ", r, " ", m, " ", meta(r)))
				}
			case 10:
				if len(ls) > 0 && v.rng.Intn(2) == 0 {
					for id := range ls {
						c.Unsubscribe(id)
						delete(ls, id)
						delete(want, id)
						desc = fmt.Sprint("connection ", id, " closes")
						break
					}
					break
				}
				l := &vfListen{}
				id := c.Subscribe(l)
				if ls[id] != nil {
					v.fail("subscribe", "two connections are given the same number %d after %v", id, hist)
				}
				ls[id] = l
				all = append(all, l)
				desc = fmt.Sprint("connection ", id, " opens")
			}
			hist = append(hist, desc)
			v.eval(desc)
			for id, l := range ls {
				g, w := append([]string{}, l.got...), append([]string{}, want[id]...)
				sort.Strings(g)
				sort.Strings(w)
				if fmt.Sprintf("%q", g) != fmt.Sprintf("%q", w) {
					v.fail("told", "after %v\nconnection %d was told\n%s\nand should be told\n%s", hist, id, strings.Join(g, "\n"), strings.Join(w, "\n"))
				}
				l.got, want[id] = nil, nil
			}
			inv := c.Invites()
			batch := c.LoadRooms(rooms...)
			for _, q := range rooms {
				if got := vfURof(c.LoadRoomData(q)); got != model[q].String() {
					v.fail("data", "after %v\n%s is %s and should be %s", hist, q, got, model[q])
				}
				if got := vfURof(batch[q]); got != model[q].String() {
					v.fail("data", "after %v\n%s is %s and should be %s", hist, q, got, model[q])
				}
				if u, ok := inv[q]; ok != model[q].inv || ok && vfURof(u) != model[q].String() {
					v.fail("invites", "after %v\n%s is among the invites: %v, should be %v", hist, q, ok, model[q].inv)
				}
			}
			for _, u := range users {
				if c.ShouldIgnore(u) != ignored[u] {
					v.fail("ignored", "after %v\n%s is ignored: %v, should be %v", hist, u, !ignored[u], ignored[u])
				}
			}
		}
		for _, l := range all {
			for i, u := range l.kept {
				if got := vfURof(*u); got != l.was[i] {
					v.fail("kept", "after %v\ndata handed out as %s became %s", hist, l.was[i], got)
				}
			}
			if len(l.got) > 0 && !vfHasL(ls, l) {
				v.fail("closed", "a closed connection was told %v after %v", l.got, hist)
			}
		}
	}
}
func vfHasL(m map[int]*vfListen, l *vfListen) bool {
	for _, x := range m {
		if x == l {
			return true
		}
	}
	return false
}
func vfP(p *int) string {
	if p == nil {
		return "-"
	}
	return fmt.Sprint(*p)
}
