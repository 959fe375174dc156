package sync3

import (
	"context"
	"encoding/json"
	"fmt"
	"sort"
	"strings"
	"sync"
	"testing"

	"github.com/matrix-org/sliding-sync/internal"
	"github.com/matrix-org/sliding-sync/sync3/caches"
)

type vfRecv struct {
	user string
	mu   *sync.Mutex
	log  *[]vfDel
}
type vfDel struct {
	user, kind, room, what string
	force                  bool
	joins, invites         int
}

func (r *vfRecv) add(d vfDel) {
	r.mu.Lock()
	defer r.mu.Unlock()
	d.user = r.user
	*r.log = append(*r.log, d)
}
func (r *vfRecv) OnNewEvent(ctx context.Context, ed *caches.EventData) {
	r.add(vfDel{kind: "event", room: ed.RoomID, what: string(ed.Event) + fmt.Sprint(ed.NID), force: ed.ForceInitial, joins: ed.JoinCount, invites: ed.InviteCount})
	ed.ForceInitial = r.user != "-" // a receiver may scribble on its own copy
}
func (r *vfRecv) OnReceipt(ctx context.Context, x internal.Receipt) {
	r.add(vfDel{kind: "receipt", room: x.RoomID, what: x.EventID})
}
func (r *vfRecv) OnEphemeralEvent(ctx context.Context, room string, ev json.RawMessage) {
	r.add(vfDel{kind: "eph", room: room, what: string(ev)})
}
func (r *vfRecv) OnRegistered(ctx context.Context) error { return nil }

func TestVerifDispatcher(t *testing.T) {
	v := vfNew(t)
	ctx := context.Background()
	users := []string{"@a", "@b", "@c", "@d"}
	rooms := []string{"!1", "!2"}
	for k := 0; k < v.pick(8000, 200000) && v.nfailed() < 5; k++ {
		d := NewDispatcher()
		var log []vfDel
		var mu sync.Mutex
		reg := map[string]bool{}
		joined, invited := map[[2]string]bool{}, map[[2]string]bool{}
		desc := ""
		if v.rng.Intn(2) == 0 {
			m := map[string][]string{}
			for _, r := range rooms {
				for _, u := range users {
					if v.rng.Intn(3) == 0 {
						m[r] = append(m[r], u)
						joined[[2]string{u, r}] = true
					}
				}
			}
			desc += fmt.Sprintf("startup %v; ", m)
			d.Startup(m)
		}
		if v.rng.Intn(4) > 0 {
			reg["-"] = true
			d.Register(ctx, "-", &vfRecv{"-", &mu, &log})
			desc += "register global; "
		}
		count := func(m map[[2]string]bool, r string) (n int) {
			for _, u := range users {
				if m[[2]string{u, r}] {
					n++
				}
			}
			return
		}
		for step := 0; step < 10; step++ {
			log = nil
			r := rooms[v.rng.Intn(2)]
			u := users[v.rng.Intn(4)]
			p := [2]string{u, r}
			var want []string // users expected, in addition to the global listener
			kind, what := "", ""
			force := map[string]bool{}
			checkForce, member := true, false
			events := 1
			switch v.rng.Intn(9) {
			case 0, 1:
				desc += "register " + u + "; "
				reg[u] = true
				d.Register(ctx, u, &vfRecv{u, &mu, &log})
				continue
			case 2:
				if v.rng.Intn(2) == 0 {
					desc += "unregister " + u + "; "
					d.Unregister(u)
					delete(reg, u)
				} else {
					us := []string{u, users[v.rng.Intn(4)], "@stranger"}
					desc += fmt.Sprintf("unregister %v; ", us)
					var w []string
					for _, x := range us {
						if reg[x] {
							w = append(w, x)
							delete(reg, x)
						}
					}
					got := d.UnregisterBulk(us)
					if fmt.Sprint(got) != fmt.Sprint(w) && !(len(got) == 0 && len(w) == 0) {
						v.fail("unregister-bulk", "%s returned %v want %v", desc, got, w)
					}
				}
				continue
			case 3, 4, 5:
				ms := []string{"join", "join", "leave", "ban", "invite", "knock"}[v.rng.Intn(6)]
				nid := v.rng.Intn(100)
				ev := fmt.Sprintf(`{"type":"m.room.member","state_key":%q,"content":{"membership":%q},"sender":"@x","event_id":"$%d"}`, u, ms, step)
				desc += fmt.Sprintf("%s %s %s; ", ms, u, r)
				kind, what, member = "event", ev+fmt.Sprint(nid), true
				wasIn := joined[p] || invited[p]
				switch ms {
				case "join":
					force[u] = !joined[p]
					joined[p] = true
					delete(invited, p)
				case "invite":
					invited[p] = true
				case "leave", "ban":
					delete(joined, p)
					delete(invited, p)
					if wasIn && reg[u] {
						want = append(want, u)
					}
				}
				d.OnNewEvent(ctx, r, json.RawMessage(ev), int64(nid))
			case 6:
				nid := v.rng.Intn(100)
				typ := []string{`"type":"m.room.message"`, `"type":"m.room.name","state_key":""`, `"type":"m.room.member"`, `"type":"org.custom","state_key":"` + u + `"`}[v.rng.Intn(4)]
				ev := fmt.Sprintf(`{%s,"content":{"membership":"leave"},"sender":"@x","event_id":"$%d"}`, typ, step)
				desc += fmt.Sprintf("event %s %s; ", ev, r)
				kind, what = "event", ev+fmt.Sprint(nid)
				d.OnNewEvent(ctx, r, json.RawMessage(ev), int64(nid))
			case 7:
				if v.rng.Intn(2) == 0 {
					desc += "receipt " + r + "; "
					kind, what = "receipt", fmt.Sprintf("$%d", step)
					d.OnReceipt(ctx, internal.Receipt{RoomID: r, EventID: what, UserID: u})
				} else {
					desc += "typing " + r + "; "
					kind, what = "eph", fmt.Sprintf(`{"n":%d}`, step)
					d.OnEphemeralEvent(ctx, r, json.RawMessage(what))
				}
			case 8:
				if v.rng.Intn(2) == 0 {
					var js, is []string
					for _, x := range users {
						delete(joined, [2]string{x, r})
						delete(invited, [2]string{x, r})
						switch v.rng.Intn(4) {
						case 0:
							js = append(js, x)
							joined[[2]string{x, r}] = true
						case 1:
							is = append(is, x)
							invited[[2]string{x, r}] = true
						}
					}
					desc += fmt.Sprintf("reload %s %v %v; ", r, js, is)
					d.OnInvalidateRoom(r, js, is)
					continue
				}
				if count(joined, r) > 0 {
					continue
				}
				var st []json.RawMessage
				for _, x := range users {
					ms := []string{"join", "invite", "leave"}[v.rng.Intn(3)]
					st = append(st, json.RawMessage(fmt.Sprintf(`{"type":"m.room.member","state_key":%q,"content":{"membership":%q}}`, x, ms)))
					if ms == "join" {
						joined[[2]string{x, r}] = true
						delete(invited, [2]string{x, r})
					}
				}
				for i, x := range users {
					if strings.Contains(string(st[i]), `"invite"`) {
						invited[[2]string{x, r}] = true
					}
				}
				desc += fmt.Sprintf("initial state %s %s; ", r, st)
				d.OnNewInitialRoomState(ctx, r, st)
				kind, checkForce, member, events = "event", false, true, len(st)
			}
			for _, x := range users {
				if joined[[2]string{x, r}] && reg[x] {
					want = append(want, x)
				}
			}
			v.eval(desc)
			for i := 0; i < events; i++ {
				per := len(want)
				if reg["-"] {
					per++
				}
				if len(log) != events*per {
					v.fail("deliveries", "%s: %d deliveries, want %d (users %v): %v", desc, len(log), events*per, want, log)
					break
				}
				part := log[i*per : (i+1)*per]
				if reg["-"] {
					if part[0].user != "-" {
						v.fail("global-first", "%s: the global listener was not first: %v", desc, part)
					}
				}
				var got, w []string
				for _, e := range part {
					if e.user != "-" {
						got = append(got, e.user)
					}
					if e.kind != kind || e.room != r || what != "" && e.what != what {
						v.fail("what", "%s: delivered %+v, want %s %s in %s", desc, e, kind, what, r)
					}
					if kind == "event" {
						if e.joins != count(joined, r) {
							v.fail("join-count", "%s: delivered %+v with %d joined", desc, e, count(joined, r))
						}
						if member && e.invites != count(invited, r) {
							v.fail("invite-count", "%s: delivered %+v with %d invited", desc, e, count(invited, r))
						}
						if checkForce && e.force != (force[e.user] && e.user != "-") {
							v.fail("force-initial", "%s: delivered %+v, want force=%v", desc, e, force[e.user])
						}
					}
				}
				w = append(w, want...)
				sort.Strings(got)
				sort.Strings(w)
				if fmt.Sprint(got) != fmt.Sprint(w) {
					v.fail("who", "%s: delivered to %v, want %v", desc, got, w)
				}
			}
			for _, x := range users {
				for _, rr := range rooms {
					if d.IsUserJoined(x, rr) != joined[[2]string{x, rr}] {
						v.fail("joined", "%s: IsUserJoined(%s,%s)=%v", desc, x, rr, d.IsUserJoined(x, rr))
					}
				}
				if (d.ReceiverForUser(x) != nil) != reg[x] {
					v.fail("registered", "%s: receiver of %s: %v", desc, x, d.ReceiverForUser(x))
				}
			}
		}
	}
}
