package handler2

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"regexp"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"
	_ "unsafe"

	"github.com/jmoiron/sqlx"
	"github.com/lib/pq"
	"github.com/matrix-org/sliding-sync/pubsub"
	"github.com/matrix-org/sliding-sync/sqlutil"
	"github.com/matrix-org/sliding-sync/state"
	"github.com/matrix-org/sliding-sync/sync2"
	"github.com/matrix-org/sliding-sync/testutils"
	"github.com/rs/zerolog"
)

//go:linkname vfSleep github.com/matrix-org/sliding-sync/sync2.timeSleep
var vfSleep func(time.Duration)

// ---- a PostgreSQL driver whose statements fail on demand ----

type vfFaults struct {
	mu     sync.Mutex
	armed  bool
	n      int         // statements so far
	at     map[int]bool // statements that fail
	down   int         // from this statement on everything fails (0: never)
	hits   []string
	spared *regexp.Regexp
}

var vfF = &vfFaults{spared: regexp.MustCompile(`syncv3_receipts|syncv3_unread|syncv3_txns|syncv3_sync2_|syncv3_typing`)}
var errInjected = errors.New("injected failure")

func (f *vfFaults) arm(at map[int]bool, down int) {
	f.mu.Lock()
	defer f.mu.Unlock()
	f.armed, f.n, f.at, f.down, f.hits = true, 0, at, down, nil
}
func (f *vfFaults) disarm() (n int, hits []string) {
	f.mu.Lock()
	defer f.mu.Unlock()
	f.armed = false
	return f.n, f.hits
}
func (f *vfFaults) step(what string) error {
	f.mu.Lock()
	defer f.mu.Unlock()
	if !f.armed {
		return nil
	}
	if f.down > 0 && f.n >= f.down {
		return errInjected
	}
	if f.spared.MatchString(what) {
		return nil
	}
	f.n++
	if f.at[f.n] {
		if len(what) > 70 {
			what = what[:70]
		}
		f.hits = append(f.hits, fmt.Sprintf("#%d %s", f.n, strings.Join(strings.Fields(what), " ")))
		return errInjected
	}
	return nil
}
func (f *vfFaults) isDown() bool {
	f.mu.Lock()
	defer f.mu.Unlock()
	return f.armed && f.down > 0 && f.n >= f.down
}

type vfDriver struct{}
type vfConn struct{ c driver.Conn }
type vfTx struct{ t driver.Tx }

func (vfDriver) Open(name string) (driver.Conn, error) {
	c, err := pq.Open(name)
	if err != nil {
		return nil, err
	}
	return &vfConn{c}, nil
}
func (c *vfConn) Prepare(q string) (driver.Stmt, error) {
	if err := vfF.step(q); err != nil {
		return nil, err
	}
	return c.c.Prepare(q)
}
func (c *vfConn) PrepareContext(ctx context.Context, q string) (driver.Stmt, error) {
	if err := vfF.step(q); err != nil {
		return nil, err
	}
	return c.c.(driver.ConnPrepareContext).PrepareContext(ctx, q)
}
func (c *vfConn) Close() error { return c.c.Close() }
func (c *vfConn) Begin() (driver.Tx, error) {
	return c.BeginTx(context.Background(), driver.TxOptions{})
}
func (c *vfConn) BeginTx(ctx context.Context, o driver.TxOptions) (driver.Tx, error) {
	if err := vfF.step("BEGIN"); err != nil {
		return nil, err
	}
	t, err := c.c.(driver.ConnBeginTx).BeginTx(ctx, o)
	if err != nil {
		return nil, err
	}
	return vfTx{t}, nil
}
func (c *vfConn) QueryContext(ctx context.Context, q string, a []driver.NamedValue) (driver.Rows, error) {
	if err := vfF.step(q); err != nil {
		return nil, err
	}
	return c.c.(driver.QueryerContext).QueryContext(ctx, q, a)
}
func (c *vfConn) ExecContext(ctx context.Context, q string, a []driver.NamedValue) (driver.Result, error) {
	if err := vfF.step(q); err != nil {
		return nil, err
	}
	return c.c.(driver.ExecerContext).ExecContext(ctx, q, a)
}
func (c *vfConn) ResetSession(ctx context.Context) error { return c.c.(driver.SessionResetter).ResetSession(ctx) }
func (c *vfConn) IsValid() bool                          { return c.c.(driver.Validator).IsValid() }
func (t vfTx) Commit() error {
	if err := vfF.step("COMMIT"); err != nil {
		t.t.Rollback()
		return err
	}
	return t.t.Commit()
}
func (t vfTx) Rollback() error { return t.t.Rollback() }

// ---- an upstream server with a fixed script per device ----

type vfScript struct {
	user, device string
	resps        []func(prefix string) *sync2.SyncResponse // the response to since k
}

type vfUpstream struct {
	mu      sync.Mutex
	prefix  string
	rng     *rand.Rand
	flaky   bool
	scripts map[string]*vfScript // by access token
	trace   []string
}

func (u *vfUpstream) Versions(ctx context.Context) ([]string, error) { return []string{"v1.1"}, nil }
func (u *vfUpstream) WhoAmI(ctx context.Context, tok string) (string, string, error) {
	s := u.scripts[tok]
	return s.user, s.device, nil
}
func (u *vfUpstream) DoSyncV2(ctx context.Context, tok, since string, isFirst, toDeviceOnly bool) (*sync2.SyncResponse, int, error) {
	u.mu.Lock()
	defer u.mu.Unlock()
	s := u.scripts[tok]
	k := 0
	if since != "" {
		fmt.Sscanf(since, "s%d", &k)
	}
	if vfF.isDown() {
		time.Sleep(20 * time.Millisecond)
		return nil, 502, fmt.Errorf("going down")
	}
	if u.flaky && u.rng.Intn(6) == 0 {
		code := []int{0, 500, 502, 429, 404}[u.rng.Intn(5)]
		u.trace = append(u.trace, fmt.Sprintf("%s->HTTP %d", since, code))
		return nil, code, fmt.Errorf("temporary")
	}
	if k >= len(s.resps) {
		return nil, 401, fmt.Errorf("token invalid")
	}
	u.trace = append(u.trace, since+"->ok")
	r := s.resps[k](u.prefix)
	r.NextBatch = fmt.Sprintf("s%d", k+1)
	return r, 200, nil
}

type vfPub struct {
	mu    sync.Mutex
	calls []pubsub.Payload
	store *state.Storage
}

func (p *vfPub) Notify(chanName string, payload pubsub.Payload) error {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.calls = append(p.calls, payload)
	return nil
}
func (p *vfPub) Close() error { return nil }

type vfSub struct{ done chan struct{} }

func (s *vfSub) Listen(chanName string, fn func(p pubsub.Payload)) error { <-s.done; return nil }
func (s *vfSub) Close() error                                             { return nil }

func vfEv(id, typ, sender string, sk *string, content string, ts int, extra string) json.RawMessage {
	s := fmt.Sprintf(`{"event_id":%q,"type":%q,"sender":%q,"content":%s,"origin_server_ts":%d%s`, id, typ, sender, content, ts, extra)
	if sk != nil {
		s += fmt.Sprintf(`,"state_key":%q`, *sk)
	}
	return json.RawMessage(s + "}")
}

// vfWorld generates the scripts of several devices: rooms with state and timelines, overlapping between devices.
func vfWorld(rng *rand.Rand) []*vfScript {
	type step struct{ f func(p string, r *sync2.SyncResponse) }
	es := ""
	var out []*vfScript
	type room struct {
		id      string
		users   map[string]bool
		history []func(p string) json.RawMessage // timeline so far
		created bool
	}
	rooms := make([]*room, 1+rng.Intn(3))
	for i := range rooms {
		rooms[i] = &room{id: fmt.Sprintf("!r%d", i), users: map[string]bool{}}
	}
	n := 0
	devs := []*vfScript{{user: "@a", device: "D1"}}
	if rng.Intn(2) == 0 {
		devs = append(devs, &vfScript{user: "@a", device: "D2"})
	}
	if rng.Intn(2) == 0 {
		devs = append(devs, &vfScript{user: "@b", device: "D1"})
	}
	for _, d := range devs {
		d := d
		inRoom := map[string]bool{}
		sent := map[string]int{} // how much of the history the device has seen
		nr := 1 + rng.Intn(5)
		for k := 0; k < nr; k++ {
			var steps []func(p string, r *sync2.SyncResponse)
			for _, rm := range rooms {
				rm := rm
				if rng.Intn(3) == 0 {
					continue
				}
				// new events of the room
				for e := rng.Intn(4); e > 0; e-- {
					n++
					m := n
					switch rng.Intn(4) {
					case 0:
						rm.history = append(rm.history, func(p string) json.RawMessage {
							return vfEv(fmt.Sprintf("$%s-%d", p, m), "m.room.topic", p+"@a:x", &es, fmt.Sprintf(`{"topic":"t%d"}`, m), 1000+m, "")
						})
					case 1:
						extra := ""
						if rng.Intn(2) == 0 {
							extra = fmt.Sprintf(`,"unsigned":{"transaction_id":"txn%d"}`, m)
						}
						rm.history = append(rm.history, func(p string) json.RawMessage {
							return vfEv(fmt.Sprintf("$%s-%d", p, m), "m.room.message", p+"@a:x", nil, `{"body":"hi"}`, 1000+m, extra)
						})
					default:
						rm.history = append(rm.history, func(p string) json.RawMessage {
							return vfEv(fmt.Sprintf("$%s-%d", p, m), "m.room.message", p+"@c:x", nil, `{"body":"yo"}`, 1000+m, "")
						})
					}
				}
				from := sent[rm.id]
				first := !inRoom[rm.id]
				if first && from < len(rm.history)-3 {
					from = len(rm.history) - 3 // an initial sync has the last events only
				}
				hist := append([]func(p string) json.RawMessage{}, rm.history[from:]...)
				sent[rm.id] = len(rm.history)
				inRoom[rm.id] = true
				n++
				m := n
				bad := rm.id == "!r2" // a room whose create event never arrives
				limited := first || rng.Intn(6) == 0
				acc := rng.Intn(4) == 0
				unread := rng.Intn(3)
				receipt := rng.Intn(4) == 0
				steps = append(steps, func(p string, r *sync2.SyncResponse) {
					var j sync2.SyncV2JoinResponse
					if first {
						for i, u := range []string{"@a", "@b", "@c"} {
							key := p + u + ":x"
							j.State.Events = append(j.State.Events, vfEv(fmt.Sprintf("$%s-%s-m%d", p, rm.id, i), "m.room.member", key, &key, `{"membership":"join"}`, 10+i, ""))
						}
						if !bad {
							j.State.Events = append(j.State.Events, vfEv(fmt.Sprintf("$%s-%s-c", p, rm.id), "m.room.create", p+"@a:x", &es, `{"room_version":"10"}`, 1, ""))
						}
					}
					for _, h := range hist {
						j.Timeline.Events = append(j.Timeline.Events, h(p))
					}
					j.Timeline.Limited = limited
					j.Timeline.PrevBatch = fmt.Sprintf("pb%d", m)
					if acc {
						j.AccountData.Events = append(j.AccountData.Events, json.RawMessage(fmt.Sprintf(`{"type":"m.tag","content":{"n":%d}}`, m/3)))
					}
					if unread > 0 {
						a, b := unread, m%3
						j.UnreadNotifications.HighlightCount, j.UnreadNotifications.NotificationCount = &a, &b
					}
					if receipt {
						j.Ephemeral.Events = append(j.Ephemeral.Events, json.RawMessage(fmt.Sprintf(`{"type":"m.receipt","content":{"$%s-%d":{"m.read":{"%s@c:x":{"ts":%d}}}}}`, p, m, p, m)))
					}
					r.Rooms.Join[p+rm.id+":x"] = j
				})
			}
			if rng.Intn(3) == 0 { // an invite, perhaps withdrawn later
				id := fmt.Sprintf("!inv%d", rng.Intn(2))
				gone := rng.Intn(2) == 0
				n++
				m := n
				steps = append(steps, func(p string, r *sync2.SyncResponse) {
					key := p + d.user + ":x"
					if gone {
						var l sync2.SyncV2LeaveResponse
						_ = l
						lv := vfEv(fmt.Sprintf("$%s-%d-l", p, m), "m.room.member", key, &key, fmt.Sprintf(`{"membership":"%s"}`, []string{"leave", "ban"}[m%2]), 2000+m, "")
						l.Timeline.Events = []json.RawMessage{lv}
						r.Rooms.Leave[p+id+":x"] = l
						return
					}
					var iv sync2.SyncV2InviteResponse
					iv.InviteState.Events = []json.RawMessage{vfEv(fmt.Sprintf("$%s-%d-i", p, m), "m.room.member", p+"@c:x", &key, `{"membership":"invite"}`, 2000+m, "")}
					r.Rooms.Invite[p+id+":x"] = iv
				})
			}
			for i := rng.Intn(3); i > 0; i-- {
				n++
				m := n
				steps = append(steps, func(p string, r *sync2.SyncResponse) {
					r.ToDevice.Events = append(r.ToDevice.Events, json.RawMessage(fmt.Sprintf(`{"type":"m.dummy","sender":"@c:x","content":{"n":%d}}`, m)))
				})
			}
			if rng.Intn(2) == 0 {
				typ, val := []string{"m.direct", "m.push_rules"}[rng.Intn(2)], rng.Intn(3)
				steps = append(steps, func(p string, r *sync2.SyncResponse) {
					r.AccountData.Events = append(r.AccountData.Events, json.RawMessage(fmt.Sprintf(`{"type":%q,"content":{"n":%d}}`, typ, val)))
				})
			}
			if rng.Intn(2) == 0 {
				who, left := rng.Intn(3), rng.Intn(2) == 0
				steps = append(steps, func(p string, r *sync2.SyncResponse) {
					u := fmt.Sprintf("%s@dl%d:x", p, who)
					if left {
						r.DeviceLists.Left = append(r.DeviceLists.Left, u)
					} else {
						r.DeviceLists.Changed = append(r.DeviceLists.Changed, u)
					}
				})
			}
			otk, alg, fb := rng.Intn(3), rng.Intn(2), rng.Intn(3)
			steps = append(steps, func(p string, r *sync2.SyncResponse) {
				r.DeviceListsOTKCount = map[string]int{[]string{"signed_curve25519", "curve25519"}[alg]: otk}
				r.DeviceUnusedFallbackKeyTypes = [][]string{{}, {"signed_curve25519"}, {"a", "b"}}[fb]
			})
			d.resps = append(d.resps, func(p string) *sync2.SyncResponse {
				r := &sync2.SyncResponse{}
				r.Rooms.Join = map[string]sync2.SyncV2JoinResponse{}
				r.Rooms.Leave = map[string]sync2.SyncV2LeaveResponse{}
				r.Rooms.Invite = map[string]sync2.SyncV2InviteResponse{}
				for _, s := range steps {
					s(p, r)
				}
				return r
			})
		}
		out = append(out, d)
	}
	return out
}

type vfRun struct {
	dump    []string
	td      []string
	ann     []string
	trace   []string
	n       int
	hits    []string
	crashed bool
	stuck   bool
}

// vfRunWorld polls every device of the scripts to the end, one after the other, with failures on the way.
func vfRunWorld(t *testing.T, db *sqlx.DB, prefix string, ws []*vfScript, rng *rand.Rand, flaky bool, at map[int]bool, down int) (res vfRun) {
	up := &vfUpstream{prefix: prefix, rng: rng, flaky: flaky, scripts: map[string]*vfScript{}}
	store := state.NewStorageWithDB(db, false)
	v2 := sync2.NewStoreWithDB(db, "secret")
	pub := &vfPub{store: store}
	newHandler := func() (*Handler, *sync2.PollerMap, *vfSub) {
		pm := sync2.NewPollerMap(up, false)
		sub := &vfSub{make(chan struct{})}
		h, err := NewHandler(pm, v2, store, pub, sub, false, 0)
		if err != nil {
			t.Fatal(err)
		}
		pm.SetCallbacks(h)
		h.Listen()
		return h, pm, sub
	}
	_, pm, sub := newHandler()
	log := zerolog.Nop()
	vfF.arm(at, down)
	for _, s := range ws {
		s := &vfScript{user: prefix + s.user + ":x", device: s.device, resps: s.resps}
		tok := "tok-" + prefix + s.user + s.device
		up.scripts[tok] = s
		err := sqlutil.WithTransaction(db, func(txn *sqlx.Tx) error { // the tables of tokens and devices are spared
			return nil
		})
		_ = err
		for { // insert the token, whatever fails
			err = sqlutil.WithTransaction(db, func(txn *sqlx.Tx) error {
				if err := v2.DevicesTable.InsertDevice(txn, s.user, s.device); err != nil {
					return err
				}
				_, err := v2.TokensTable.Insert(txn, tok, s.user, s.device, time.Now())
				return err
			})
			if err == nil {
				break
			}
			if vfF.isDown() {
				vfF.arm(map[int]bool{}, 0)
			}
		}
		pid := sync2.PollerID{UserID: s.user, DeviceID: s.device}
		since := ""
		go pm.EnsurePolling(pid, tok, since, false, log)
		deadline := time.Now().Add(20 * time.Second)
		for {
			time.Sleep(500 * time.Microsecond)
			up.mu.Lock()
			started := len(up.trace) > 0
			up.mu.Unlock()
			if vfF.isDown() { // the process dies here; a new one carries on from what was stored
				res.crashed = true
				pm.ExpirePollers(nil)
				old := pm
				go func() { time.Sleep(200 * time.Millisecond); _ = old }()
				time.Sleep(60 * time.Millisecond)
				vfStopPollers(pm, pid)
				time.Sleep(60 * time.Millisecond)
				close(sub.done)
				_, h := vfF.disarm()
				res.hits = append(res.hits, h...)
				vfF.arm(map[int]bool{}, 0)
				var err error
				err = db.Get(&since, `SELECT since FROM syncv3_sync2_devices WHERE user_id=$1 AND device_id=$2`, s.user, s.device)
				if err != nil {
					t.Fatal(err)
				}
				_, pm, sub = newHandler()
				go pm.EnsurePolling(pid, tok, since, true, log)
				time.Sleep(5 * time.Millisecond)
				continue
			}
			if started && len(pm.DeviceIDs(s.user)) == 0 {
				break
			}
			if time.Now().After(deadline) {
				res.stuck = true
				break
			}
		}
		up.mu.Lock()
		res.trace = append(res.trace, s.user+"/"+s.device+": "+strings.Join(up.trace, " "))
		up.trace = nil
		up.mu.Unlock()
	}
	var hits []string
	res.n, hits = vfF.disarm()
	res.hits = append(res.hits, hits...)
	close(sub.done)
	res.dump, res.td = vfDump(t, db, prefix)
	pub.mu.Lock()
	defer pub.mu.Unlock()
	perRoom := map[string][]string{}
	set := map[string]bool{}
	for _, c := range pub.calls {
		switch p := c.(type) {
		case *pubsub.V2Accumulate:
			for _, nid := range p.EventNIDs {
				var id string
				db.Get(&id, `SELECT event_id FROM syncv3_events WHERE event_nid=$1`, nid)
				perRoom[p.RoomID] = append(perRoom[p.RoomID], id)
			}
		case *pubsub.V2AccountData:
			for _, ty := range p.Types {
				set["accdata "+p.UserID+" "+p.RoomID+" "+ty] = true
			}
		case *pubsub.V2InviteRoom:
			set["invite "+p.UserID+" "+p.RoomID] = true
		case *pubsub.V2LeaveRoom:
			set["leave "+p.UserID+" "+p.RoomID] = true
		case *pubsub.V2DeviceMessages:
			set["todevice "+p.UserID+" "+p.DeviceID] = true
		case *pubsub.V2DeviceData:
			for u, ds := range p.UserIDToDeviceIDs {
				for _, d := range ds {
					set["devicedata "+u+" "+d] = true
				}
			}
		case *pubsub.V2Initialise:
			set["init "+p.RoomID] = true
		case *pubsub.V2UnreadCounts:
			set["unread "+p.UserID+" "+p.RoomID] = true
		}
	}
	for r, ids := range perRoom {
		set["timeline "+r+" "+strings.Join(ids, ",")] = true
	}
	for k := range set {
		res.ann = append(res.ann, strings.ReplaceAll(k, prefix, "P"))
	}
	sort.Strings(res.ann)
	return
}

func vfStopPollers(pm *sync2.PollerMap, pid sync2.PollerID) {
	if p := pm.Pollers[pid]; p != nil {
		p.Terminate()
	}
}

// vfDump lists everything stored for a prefix, with the prefix itself taken out.
func vfDump(t *testing.T, db *sqlx.DB, prefix string) (out, td []string) {
	q := func(dst *[]string, label, query string) {
		rows, err := db.Query(query, "%"+prefix+"%")
		if err != nil {
			t.Fatalf("%s: %s", label, err)
		}
		defer rows.Close()
		cols, _ := rows.Columns()
		for rows.Next() {
			vals := make([]sql.NullString, len(cols))
			ptrs := make([]interface{}, len(cols))
			for i := range vals {
				ptrs[i] = &vals[i]
			}
			if err := rows.Scan(ptrs...); err != nil {
				t.Fatal(err)
			}
			l := label
			for _, x := range vals {
				l += " " + x.String
			}
			*dst = append(*dst, strings.ReplaceAll(l, prefix, "P"))
		}
	}
	q(&out, "event", `SELECT room_id, event_id, is_state, missing_previous, prev_batch, event FROM syncv3_events WHERE room_id LIKE $1 AND NOT is_state ORDER BY room_id, event_nid`)
	q(&out, "stateevent", `SELECT room_id, event_id, event FROM syncv3_events WHERE room_id LIKE $1 AND is_state ORDER BY room_id, event_id`)
	q(&out, "current", `SELECT r.room_id, e.event_id FROM syncv3_rooms r JOIN syncv3_snapshots s ON s.snapshot_id = r.current_snapshot_id JOIN syncv3_events e ON e.event_nid = ANY (s.events || s.membership_events) WHERE r.room_id LIKE $1 ORDER BY r.room_id, e.event_id`)
	q(&out, "accdata", `SELECT user_id, room_id, type, data FROM syncv3_account_data WHERE user_id LIKE $1 ORDER BY user_id, room_id, type`)
	q(&out, "invite", `SELECT user_id, room_id, invite_state FROM syncv3_invites WHERE user_id LIKE $1 ORDER BY user_id, room_id`)
	q(&out, "devlist", `SELECT user_id, device_id, target_user_id, target_state, bucket FROM syncv3_device_list_updates WHERE user_id LIKE $1 ORDER BY 1,2,3,4,5`)
	q(&out, "devdata", `SELECT user_id, device_id, encode(data,'hex') FROM syncv3_device_data WHERE user_id LIKE $1 ORDER BY 1,2`)
	q(&out, "unread", `SELECT user_id, room_id, highlight_count, notification_count FROM syncv3_unread WHERE user_id LIKE $1 ORDER BY 1,2`)
	q(&td, "todevice", `SELECT user_id, device_id, message FROM syncv3_to_device_messages WHERE user_id LIKE $1 ORDER BY user_id, device_id, position`)
	return
}

func vfDiff(a, b []string) string {
	var out []string
	ca := map[string]int{}
	for _, x := range a {
		ca[x]++
	}
	for _, x := range b {
		ca[x]--
	}
	for x, k := range ca {
		if len(x) > 260 {
			x = x[:260]
		}
		if k > 0 {
			out = append(out, fmt.Sprintf("missing x%d: %s", k, x))
		} else if k < 0 {
			out = append(out, fmt.Sprintf("extra x%d: %s", -k, x))
		}
	}
	sort.Strings(out)
	if len(out) == 0 && strings.Join(a, "\n") != strings.Join(b, "\n") {
		for i := range a {
			if a[i] != b[i] {
				out = append(out, fmt.Sprintf("order: %.200s / %.200s", a[i], b[i]))
				break
			}
		}
	}
	if len(out) > 6 {
		out = out[:6]
	}
	return strings.Join(out, "; ")
}

// TestVerifPoll polls generated upstream histories with statements failing, requests failing and the process dying at
// chosen points. What ends up stored has to be what ends up stored without any failure.
func TestVerifPoll(t *testing.T) {
	v := vfNew(t)
	vfSleep = func(time.Duration) { time.Sleep(time.Millisecond) }
	os.Setenv("SYNCV3_DEBUG", "")
	sql.Register("vffault", vfDriver{})
	sqlx.BindDriver("vffault", sqlx.DOLLAR)
	db, err := sqlx.Open("vffault", testutils.PrepareDBConnectionString())
	if err != nil {
		t.Fatal(err)
	}
	db.SetMaxOpenConns(20)
	until := time.Now().Add(time.Duration(v.pick(60, 400)) * time.Second)
	for n := 0; time.Now().Before(until) && v.nfailed() < 3; n++ {
		seed := v.rng.Int63()
		ws := vfWorld(rand.New(rand.NewSource(seed)))
		clean := vfRunWorld(t, db, fmt.Sprintf("q%dz", n), ws, v.rng, false, nil, 0)
		if clean.stuck {
			v.fail("stuck", "a poller never finished, world %d: %v", n, clean.trace)
			continue
		}
		if d := vfExpect(t, db, fmt.Sprintf("q%dz", n), ws, clean); d != "" {
			v.fail("upstream", "world %d (seed %d), no failures: %s", n, seed, d)
			continue
		}
		for k := 0; k < 6 && time.Now().Before(until) && v.nfailed() < 3; k++ {
			at := map[int]bool{}
			down := 0
			switch k % 3 {
			case 0, 1:
				for i := 1 + v.rng.Intn(2); i > 0; i-- {
					at[1+v.rng.Intn(clean.n)] = true
				}
			default:
				down = 1 + v.rng.Intn(clean.n)
			}
			r := vfRunWorld(t, db, fmt.Sprintf("q%dk%dz", n, k), ws, v.rng, k%2 == 1, at, down)
			desc := fmt.Sprintf("world %d (seed %d) fails=%v down=%d crashed=%v requests=%v", n, seed, r.hits, down, r.crashed, r.trace)
			v.eval(desc)
			if r.stuck {
				v.fail("stuck", "a poller never finished: %s", desc)
				continue
			}
			if d := vfDiff(clean.dump, r.dump); d != "" {
				v.fail("stored", "%s\n what is stored differs from a run without failures: %s", desc, d)
			}
			ctd, rtd := clean.td, r.td
			if r.crashed { // a crash between storing messages and storing the position repeats the messages of that response
				group := map[string]int{}
				for di, w := range ws {
					for ri, f := range w.resps {
						for _, m := range f("P").ToDevice.Events {
							group["todevice P"+w.user+":x "+w.device+" "+string(m)] = 1 + 100*di + ri
						}
					}
				}
				seen, g := map[string]int{}, 0
				for _, l := range rtd {
					seen[l]++
					if seen[l] > 1 && g != 0 && group[l] != g {
						v.fail("repeated", "%s\n the messages of several responses are stored twice: %v", desc, rtd)
						break
					}
					if seen[l] > 1 {
						g = group[l]
					}
				}
				ctd, rtd = vfUniq(ctd), vfUniq(rtd)
			}
			if d := vfDiff(ctd, rtd); d != "" {
				v.fail("todevice", "%s\n to-device messages: %s", desc, d)
			}
			if !r.crashed {
				if d := vfDiff(clean.ann, r.ann); d != "" {
					v.fail("announced", "%s\n announced: %s", desc, d)
				}
			}
		}
	}
}

// vfExpect compares what a run without failures left behind with what the upstream server had said.
func vfExpect(t *testing.T, db *sqlx.DB, prefix string, ws []*vfScript, run vfRun) string {
	has := map[string]int{}
	for _, l := range run.dump {
		has[l]++
	}
	store := state.NewStorageWithDB(db, false)
	want := map[string]string{} // kind and key to the last value
	ann := map[string]bool{}
	for _, a := range run.ann {
		ann[a] = true
	}
	var td, problems []string
	bad := func(f string, a ...interface{}) { problems = append(problems, fmt.Sprintf(f, a...)) }
	type dev struct{ user, device string }
	for _, s := range ws {
		user := "P" + s.user + ":x"
		otk, fb, msgs := map[string]int(nil), []string(nil), 0
		for _, f := range s.resps {
			r := f("P")
			for _, m := range r.ToDevice.Events {
				td = append(td, "todevice "+user+" "+s.device+" "+string(m))
				msgs++
			}
			acc := func(room string, evs []json.RawMessage) {
				for _, e := range evs {
					var x struct{ Type string }
					json.Unmarshal(e, &x)
					want["accdata "+user+" "+room+" "+x.Type] = string(e)
					ann2 := "accdata " + user + " " + room + " " + x.Type
					if !ann[ann2] {
						bad("not announced: %s", ann2)
					}
				}
			}
			acc("", r.AccountData.Events)
			for id, j := range r.Rooms.Join {
				if strings.Contains(id, "!r2") {
					continue // the room without a create event
				}
				acc(id, j.AccountData.Events)
				for _, e := range j.Timeline.Events {
					var x struct {
						ID string `json:"event_id"`
					}
					json.Unmarshal(e, &x)
					n := 0
					for _, l := range run.dump {
						if strings.HasPrefix(l, "event "+id+" "+x.ID+" ") || strings.HasPrefix(l, "stateevent "+id+" "+x.ID+" ") {
							n++
						}
					}
					if n != 1 {
						bad("event %s of %s stored %d times", x.ID, id, n)
					}
				}
				for _, e := range j.State.Events {
					var x struct {
						ID string `json:"event_id"`
					}
					json.Unmarshal(e, &x)
					found := false
					for _, l := range run.dump {
						found = found || strings.HasPrefix(l, "stateevent "+id+" "+x.ID+" ")
					}
					if !found {
						bad("state event %s of %s not stored", x.ID, id)
					}
				}
				if c := j.UnreadNotifications; c.HighlightCount != nil && c.NotificationCount != nil {
					want["unread "+user+" "+id] = fmt.Sprintf("%d %d", *c.HighlightCount, *c.NotificationCount)
				}
			}
			for id := range r.Rooms.Invite {
				want["invite "+user+" "+id] = "+"
				if !ann["invite "+user+" "+id] {
					bad("invite of %s to %s not announced", user, id)
				}
			}
			for id := range r.Rooms.Leave {
				want["invite "+user+" "+id] = "-"
				if !ann["leave "+user+" "+id] {
					bad("leave of %s from %s not announced", user, id)
				}
			}
			for _, u := range r.DeviceLists.Changed {
				want["devlist "+user+" "+s.device+" "+u] = "1 1"
			}
			for _, u := range r.DeviceLists.Left {
				want["devlist "+user+" "+s.device+" "+u] = "2 1"
			}
			if len(r.DeviceLists.Changed)+len(r.DeviceLists.Left) > 0 && !ann["devicedata "+user+" "+s.device] {
				bad("device list changes of %s %s not announced", user, s.device)
			}
			otk, fb = r.DeviceListsOTKCount, r.DeviceUnusedFallbackKeyTypes
		}
		if msgs > 0 && !ann["todevice "+user+" "+s.device] {
			bad("to-device messages of %s %s not announced", user, s.device)
		}
		dd, err := store.DeviceDataTable.Select(strings.ReplaceAll(user, "P", prefix), s.device, false)
		if err != nil {
			t.Fatal(err)
		}
		if dd == nil || fmt.Sprint(map[string]int(dd.OTKCounts)) != fmt.Sprint(otk) || strings.Join(dd.FallbackKeyTypes, ",") != strings.Join(fb, ",") {
			bad("keys of %s %s: stored %+v, upstream said %v %v", user, s.device, dd, otk, fb)
		}
	}
	if d := vfDiff(td, run.td); d != "" {
		sort.Strings(td) // devices are listed in the order of their IDs
		got := append([]string{}, run.td...)
		sort.Strings(got)
		if d := vfDiff(td, got); d != "" {
			bad("to-device messages: %s", d)
		}
	}
	byDev := map[string][]int{}
	for _, l := range run.td {
		k := strings.Join(strings.Fields(l)[:3], " ")
		var m int
		fmt.Sscanf(l[strings.Index(l, `"n":`)+4:], "%d", &m)
		if q := byDev[k]; len(q) > 0 && q[len(q)-1] > m {
			bad("to-device messages of %s out of order", k)
		}
		byDev[k] = append(byDev[k], m)
	}
	for k, x := range want {
		line, n := k+" "+x, 0
		switch {
		case strings.HasPrefix(k, "invite "):
			for l := range has {
				if strings.HasPrefix(l, k+" ") {
					n++
				}
			}
			if (x == "+") != (n == 1) {
				bad("%s: upstream said %s, stored %d", k, x, n)
			}
		default:
			if has[line] != 1 {
				bad("not stored: %s", line)
			}
		}
	}
	sort.Strings(problems)
	if len(problems) > 6 {
		problems = problems[:6]
	}
	return strings.Join(problems, "; ")
}

func vfUniq(a []string) (out []string) {
	seen := map[string]bool{}
	for _, x := range a {
		if !seen[x] {
			seen[x] = true
			out = append(out, x)
		}
	}
	return
}
