package handler

import (
	"context"
	"encoding/json"
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/jmoiron/sqlx"
	"github.com/matrix-org/sliding-sync/internal"
	"github.com/matrix-org/sliding-sync/state"
	"github.com/matrix-org/sliding-sync/sync2"
	"github.com/matrix-org/sliding-sync/sync3"
	"github.com/matrix-org/sliding-sync/sync3/caches"
	"github.com/matrix-org/sliding-sync/sync3/extensions"
	"github.com/matrix-org/sliding-sync/testutils"
	"github.com/tidwall/gjson"
)

type vfNoExt struct{}

func (h *vfNoExt) Handle(ctx context.Context, req extensions.Request, extCtx extensions.Context) (res extensions.Response) {
	return
}
func (h *vfNoExt) HandleLiveUpdate(ctx context.Context, update caches.Update, req extensions.Request, res *extensions.Response, extCtx extensions.Context) {
}

type vfNoTxn struct{}

func (t *vfNoTxn) TransactionIDForEvents(userID, deviceID string, eventIDs []string) map[string]string {
	return nil
}

type vfE struct {
	id, typ, sk, sender, membership string
	state, block                    bool
	nid                             int64
	ts                              uint64
	js                              json.RawMessage
}
type vfRm struct {
	id    string
	log   []*vfE // what the database holds, oldest first
	queue []*vfE // stored, not yet dispatched
	full  bool   // everything in log has been dispatched at least once
	seen  int64  // newest event dispatched
}
type vfW struct {
	v       *vf
	n, ev   int
	store   *state.Storage
	gc      *caches.GlobalCache
	uc      *caches.UserCache
	d       *sync3.Dispatcher
	cs      *ConnState
	user    string
	others  []string
	rooms   []*vfRm
	byID    map[string]*vfRm
	hist    []string
	muxed   map[string]*vfL
	subs    map[string]bool
	sticky  map[string]int64
	ignored map[string]bool
	// the client
	tl       map[string][]string // events since the last initial room
	blank    map[string]int      // the number of events when the room was sent without a timeline
	sent     map[string]bool     // sent with initial at least once
	complete map[string]bool     // in view since the last initial room
	name     map[string]string
	counts   map[string][2]int
	notif    map[string][2]int
	members  map[string]map[string]bool
	first    bool
	lazy     bool
	onlyLazy bool
	steady   bool // timeline limit and required state never change
	leaves   bool
	broken   bool
	focus    string
	ever     map[string]bool // ignored at some time
	rng      *rand.Rand
	allOnly  bool            // the only list is one of all rooms
	lagged   bool            // the connection was opened while events were still on their way
}
type vfL struct {
	ranges sync3.SliceRanges
	sort   []string
	bump   []string
	m      map[int]string
	limit  int64
	since  bool // from the first request on
	all    bool // slow_get_all_rooms
}

func (w *vfW) say(f string, a ...interface{}) { w.hist = append(w.hist, fmt.Sprintf(f, a...)) }
func (w *vfW) trace() string {
	var h []string
	for _, x := range w.hist {
		if w.focus == "" || strings.Contains(x, w.focus) || strings.HasPrefix(x, "request") || strings.HasPrefix(x, "ignore") {
			h = append(h, x)
		}
	}
	if len(h) > 24 {
		h = h[len(h)-24:]
	}
	return strings.Join(h, "; ")
}
func (w *vfW) fail(key, f string, a ...interface{}) {
	w.broken = true
	if w.onlyLazy && !strings.HasPrefix(key, "lazy") {
		return
	}
	w.v.fail(key, "%s after %s", fmt.Sprintf(f, a...), w.trace())
}

var vfPG *sqlx.DB
var vfStore *state.Storage

func vfNewW(v *vf, rng *rand.Rand, n int, lazy, leaves bool) *vfW {
	if vfPG == nil {
		db, err := sqlx.Open("postgres", testutils.PrepareDBConnectionString())
		if err != nil {
			v.t.Fatal(err)
		}
		vfPG = db
		vfPG.SetMaxOpenConns(40)
		vfStore = state.NewStorageWithDB(vfPG, false)
	}
	w := &vfW{v: v, rng: rng, n: n, user: fmt.Sprintf("@me%d:x", n), byID: map[string]*vfRm{}, muxed: map[string]*vfL{}, subs: map[string]bool{}, ignored: map[string]bool{}, ever: map[string]bool{},
		tl: map[string][]string{}, complete: map[string]bool{}, sent: map[string]bool{}, blank: map[string]int{}, name: map[string]string{}, counts: map[string][2]int{}, notif: map[string][2]int{}, members: map[string]map[string]bool{}, first: true, lazy: lazy, leaves: leaves}
	w.allOnly = rng.Intn(5) == 0
	w.steady = lazy || rng.Intn(2) == 0
	for i := 0; i < 3; i++ {
		w.others = append(w.others, fmt.Sprintf("@o%d-%d:x", n, i))
	}
	w.store = vfStore
	w.gc = caches.NewGlobalCache(w.store)
	w.d = sync3.NewDispatcher()
	w.d.Startup(map[string][]string{})
	w.d.Register(context.Background(), sync3.DispatcherAllUsers, w.gc)
	w.uc = caches.NewUserCache(w.user, w.gc, w.store, &vfNoTxn{}, w.d)
	w.d.Register(context.Background(), w.user, w.uc)
	nr := 2 + rng.Intn(5)
	for i := 0; i < nr; i++ {
		w.newRoom(i)
	}
	w.flush()
	w.cs = NewConnState(w.user, "dev", w.uc, w.gc, &vfNoExt{}, w.d, nil, nil, 1000, 0)
	return w
}
func (w *vfW) mk(typ, sender string, sk *string, content map[string]interface{}) *vfE {
	w.ev++
	e := &vfE{id: fmt.Sprintf("$e%d-%d", w.n, w.ev), typ: typ, sender: sender, ts: uint64(1600000000000 + w.ev*1000)}
	js := map[string]interface{}{"event_id": e.id, "type": typ, "sender": sender, "content": content, "origin_server_ts": e.ts}
	if sk != nil {
		js["state_key"] = *sk
		e.sk, e.state = *sk, true
		e.membership, _ = content["membership"].(string)
	}
	e.js, _ = json.Marshal(js)
	return e
}
func (w *vfW) member(sender, target, membership string) *vfE {
	return w.mk("m.room.member", sender, &target, map[string]interface{}{"membership": membership, "displayname": target})
}
func (w *vfW) newRoom(i int) {
	r := &vfRm{id: fmt.Sprintf("!r%d-%d:x", w.n, i)}
	empty := ""
	st := []*vfE{w.mk("m.room.create", w.others[0], &empty, map[string]interface{}{}), w.member(w.others[0], w.others[0], "join"), w.member(w.others[1], w.others[1], "join"), w.member(w.others[2], w.others[2], "join")}
	inState := w.rng.Intn(3) == 0
	if inState {
		st = append(st, w.member(w.user, w.user, "join"))
	}
	if w.rng.Intn(2) == 0 {
		st = append(st, w.mk("m.room.name", w.others[0], &empty, map[string]interface{}{"name": fmt.Sprintf("n%d", w.rng.Intn(9))}))
	}
	var js []json.RawMessage
	for _, e := range st {
		e.block = true
		js = append(js, e.js)
	}
	if _, err := w.store.Initialise(r.id, js); err != nil {
		w.v.t.Fatal(err)
	}
	r.log = append(r.log, st...)
	for _, e := range st {
		vfPG.QueryRow(`SELECT event_nid FROM syncv3_events WHERE event_id=$1`, e.id).Scan(&e.nid)
	}
	w.d.OnNewInitialRoomState(context.Background(), r.id, js)
	w.rooms = append(w.rooms, r)
	w.byID[r.id] = r
	var tl []*vfE
	if !inState {
		tl = append(tl, w.member(w.user, w.user, "join"))
	}
	for i := w.rng.Intn(4); i >= 0; i-- {
		tl = append(tl, w.event(r))
	}
	w.accumulate(r, tl)
}
func (w *vfW) event(r *vfRm) *vfE {
	s := w.others[w.rng.Intn(len(w.others))]
	empty := ""
	switch w.rng.Intn(8) {
	case 0:
		return w.mk("m.room.name", s, &empty, map[string]interface{}{"name": fmt.Sprintf("n%d", w.rng.Intn(9))})
	case 1:
		return w.mk("m.reaction", s, nil, map[string]interface{}{})
	case 2:
		x := fmt.Sprintf("@x%d-%d:x", w.n, w.rng.Intn(3))
		return w.member(s, x, []string{"join", "leave", "invite", "ban"}[w.rng.Intn(4)])
	case 3:
		if len(w.rooms) > 0 {
			c := w.rooms[w.rng.Intn(len(w.rooms))].id
			return w.mk("m.space.child", s, &c, map[string]interface{}{"via": []string{"x"}})
		}
	}
	return w.mk("m.room.message", s, nil, map[string]interface{}{"body": "hi"})
}
func (w *vfW) accumulate(r *vfRm, tl []*vfE) {
	var js []json.RawMessage
	for _, e := range tl {
		js = append(js, e.js)
	}
	res, err := w.store.Accumulate(w.user, r.id, sync2.TimelineResponse{Events: js, PrevBatch: fmt.Sprintf("pb%d", w.ev)})
	if err != nil || len(res.TimelineNIDs) != len(tl) {
		w.v.t.Fatalf("accumulate %v %v", res, err)
	}
	for i, e := range tl {
		e.nid = res.TimelineNIDs[i]
		r.log = append(r.log, e)
		r.queue = append(r.queue, e)
		w.say("store %s %d %s %s", r.id, e.nid, e.typ, e.membership)
	}
}
func (w *vfW) dispatch(r *vfRm) {
	if len(r.queue) == 0 {
		return
	}
	e := r.queue[0]
	r.queue = r.queue[1:]
	w.say("dispatch %s %d", r.id, e.nid)
	w.d.OnNewEvent(context.Background(), r.id, e.js, e.nid)
	r.seen = e.nid
	if e.typ == "m.room.member" && e.sk == w.user && (e.membership == "leave" || e.membership == "ban") {
		w.uc.OnLeftRoom(context.Background(), r.id, e.js)
	}
}
func (w *vfW) flush() {
	for {
		var left []*vfRm
		for _, r := range w.rooms {
			if len(r.queue) > 0 {
				left = append(left, r)
			}
		}
		if len(left) == 0 {
			return
		}
		w.dispatch(left[w.rng.Intn(len(left))])
	}
}

// membership of the user after the events in the room up to a position
func (w *vfW) joined(r *vfRm, upto int64) bool {
	j := false
	for _, e := range r.log {
		if e.nid <= upto && e.typ == "m.room.member" && e.sk == w.user {
			j = e.membership == "join"
		}
	}
	return j
}

// may the user see this event at all?
func (w *vfW) mayS(r *vfRm, e *vfE) bool {
	if e.typ == "m.room.member" && e.sk == w.user {
		return true
	}
	return w.joined(r, e.nid)
}
func (w *vfW) find(r *vfRm, id string) (int, *vfE) {
	for i, e := range r.log {
		if e.id == id {
			return i, e
		}
	}
	return -1, nil
}

func (w *vfW) randRanges() sync3.SliceRanges {
	switch w.rng.Intn(5) {
	case 0:
		return sync3.SliceRanges{{0, 20}}
	case 1:
		a := int64(w.rng.Intn(3))
		return sync3.SliceRanges{{0, a}, {a + 2, a + 2 + int64(w.rng.Intn(2))}}
	}
	a := int64(w.rng.Intn(3))
	return sync3.SliceRanges{{a, a + int64(w.rng.Intn(3))}}
}
func (w *vfW) reqState() [][2]string {
	rs := [][2]string{{"m.room.name", ""}}
	if w.lazy {
		rs = append(rs, [2]string{"m.room.member", "$LAZY"})
	}
	return rs
}
func (w *vfW) request() {
	req := &sync3.Request{Lists: map[string]sync3.RequestList{}, RoomSubscriptions: map[string]sync3.RoomSubscription{}}
	to := 4
	req.SetTimeoutMSecs(to)
	keys := []string{"a", "b", "c"}
	if w.allOnly {
		keys = nil
	}
	for i, k := range keys {
		l, ok := w.muxed[k]
		if !ok {
			if i > 0 && w.rng.Intn(3) > 0 {
				continue
			}
			l = &vfL{ranges: w.randRanges(), sort: [][]string{{sync3.SortByRecency}, {sync3.SortByName}}[w.rng.Intn(2)], m: map[int]string{}, limit: int64(w.rng.Intn(5)), since: w.first}
			if w.rng.Intn(2) == 0 {
				l.bump = [][]string{{"m.room.message"}, {"m.room.name", "m.reaction"}}[w.rng.Intn(2)]
			}
			w.muxed[k] = l
			req.Lists[k] = sync3.RequestList{Ranges: l.ranges, Sort: l.sort, BumpEventTypes: l.bump, RoomSubscription: sync3.RoomSubscription{TimelineLimit: l.limit, RequiredState: w.reqState()}}
			continue
		}
		rl := sync3.RequestList{}
		switch x := w.rng.Intn(12); {
		case x == 0 || x == 1:
			l.ranges = w.randRanges()
			rl.Ranges = l.ranges
		case x == 2 && !w.steady:
			l.limit = int64(w.rng.Intn(5))
			rl.TimelineLimit = l.limit
		case x == 3:
			l.sort = [][]string{{sync3.SortByRecency}, {sync3.SortByName}}[w.rng.Intn(2)]
			rl.Sort = l.sort
		default:
			continue
		}
		req.Lists[k] = rl
	}
	if _, ok := w.muxed["all"]; !ok && (w.allOnly || w.rng.Intn(12) == 0) {
		yes := true
		l := &vfL{all: true, sort: []string{sync3.SortByRecency}, m: map[int]string{}, limit: int64(w.rng.Intn(5)), since: w.first}
		w.muxed["all"] = l
		req.Lists["all"] = sync3.RequestList{SlowGetAllRooms: &yes, Sort: l.sort, RoomSubscription: sync3.RoomSubscription{TimelineLimit: l.limit, RequiredState: w.reqState()}}
	}
	if w.rng.Intn(5) == 0 {
		r := w.rooms[w.rng.Intn(len(w.rooms))]
		if w.subs[r.id] {
			req.UnsubscribeRooms = []string{r.id}
			delete(w.subs, r.id)
		} else {
			req.RoomSubscriptions[r.id] = sync3.RoomSubscription{TimelineLimit: int64(w.rng.Intn(5)), RequiredState: w.reqState()}
			w.subs[r.id] = true
		}
	}
	if w.first {
		for _, r := range w.rooms {
			if len(r.queue) > 0 {
				w.lagged = true
			}
		}
	}
	d := ""
	for k, l := range req.Lists {
		d += fmt.Sprintf(" %s:%v,%v,limit %d,bump %v", k, l.Ranges, l.Sort, l.TimelineLimit, l.BumpEventTypes)
	}
	for k, s := range req.RoomSubscriptions {
		d += fmt.Sprintf(" +%s limit %d", k, s.TimelineLimit)
	}
	w.say("request%s -%v", d, req.UnsubscribeRooms)
	ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
	defer cancel()
	type out struct {
		res *sync3.Response
		err error
	}
	ch := make(chan out, 1)
	go func() {
		defer func() {
			if p := recover(); p != nil {
				ch <- out{nil, fmt.Errorf("panic: %v", p)}
			}
		}()
		res, err := w.cs.OnIncomingRequest(ctx, sync3.ConnID{UserID: w.user, DeviceID: "dev"}, req, w.first, time.Now())
		ch <- out{res, err}
	}()
	select {
	case o := <-ch:
		if o.err != nil {
			w.fail("request", "a request failed: %v", o.err)
			return
		}
		w.first = false
		w.client(o.res)
	case <-time.After(15 * time.Second):
		w.fail("hang", "a request is never answered")
	}
}

// the client's side of a list
func (l *vfL) in(i int) bool {
	for _, r := range l.ranges {
		if int64(i) >= r[0] && int64(i) <= r[1] {
			return true
		}
	}
	return false
}
func (l *vfL) set(i int, v string) {
	if v == "" {
		delete(l.m, i)
	} else {
		l.m[i] = v
	}
}
func (l *vfL) max() int {
	m := -1
	for n := range l.m {
		if n > m {
			m = n
		}
	}
	return m
}
func (l *vfL) apply(ops []sync3.ResponseOp) {
	gap := -1
	removeGap := func() {
		m := l.max()
		if m < 0 || gap > m {
			return
		}
		for i := gap; i < m; i++ {
			if l.in(i) {
				l.set(i, l.m[i+1])
			}
		}
		delete(l.m, m)
	}
	for _, o := range ops {
		switch op := o.(type) {
		case *sync3.ResponseOpRange:
			for i := op.Range[0]; i <= op.Range[1]; i++ {
				if op.Operation == sync3.OpInvalidate {
					delete(l.m, int(i))
				} else if int(i-op.Range[0]) < len(op.RoomIDs) {
					l.m[int(i)] = op.RoomIDs[i-op.Range[0]]
				}
			}
		case *sync3.ResponseOpSingle:
			switch op.Operation {
			case sync3.OpDelete:
				if gap != -1 {
					removeGap()
				}
				delete(l.m, *op.Index)
				gap = *op.Index
			case sync3.OpInsert:
				idx := *op.Index
				if _, ok := l.m[idx]; ok {
					if gap > idx {
						for i := gap; i > idx; i-- {
							if l.in(i) {
								l.set(i, l.m[i-1])
							}
						}
					} else if gap >= 0 && gap < idx {
						for i := gap; i < idx; i++ {
							if l.in(i) {
								l.set(i, l.m[i+1])
							}
						}
					} else {
						for i := l.max() + 1; i > idx; i-- {
							if l.in(i) {
								l.set(i, l.m[i-1])
							}
						}
					}
				}
				gap = -1
				l.m[idx] = op.RoomID
			}
		}
	}
	if gap != -1 {
		removeGap()
	}
	for i := range l.m {
		if !l.in(i) && !l.all {
			delete(l.m, i)
		}
	}
}

func (w *vfW) client(res *sync3.Response) {
	b, _ := json.Marshal(res.Lists)
	for k, rl := range res.Lists {
		w.muxed[k].apply(rl.Ops)
	}
	w.say("lists %s", b)
	for id, room := range res.Rooms {
		r := w.byID[id]
		w.focus = id
		if r == nil {
			w.fail("foreign-room", "a response for %s", id)
			return
		}
		var ids []string
		for _, e := range room.Timeline {
			ids = append(ids, gjson.GetBytes(e, "event_id").Str)
		}
		w.say("room %s initial=%v %v state %d name %q num_live %d", id, room.Initial, ids, len(room.RequiredState), room.Name, room.NumLive)
		if w.members[id] == nil {
			w.members[id] = map[string]bool{}
		}
		if room.Initial {
			w.tl[id] = nil
			w.complete[id] = true
			w.sent[id] = true
			w.blank[id] = 0
			if len(ids) == 0 {
				w.blank[id] = len(r.log)
			}
		}
		if len(ids) > 0 && !w.sent[id] {
			w.fail("partial", "the client is sent %v of %s without ever being sent the room", ids, id)
			return
		}
		for _, e := range room.RequiredState {
			if gjson.GetBytes(e, "type").Str == "m.room.member" {
				w.members[id][gjson.GetBytes(e, "state_key").Str] = true
			}
			if _, x := w.find(r, gjson.GetBytes(e, "event_id").Str); x == nil || !x.state {
				w.fail("state-foreign", "required state of %s holds %s", id, e)
				return
			}
		}
		prev := -1
		if n := len(w.tl[id]); n > 0 {
			prev, _ = w.find(r, w.tl[id][n-1])
		}
		for _, eid := range ids {
			i, e := w.find(r, eid)
			if e == nil {
				w.fail("foreign", "the timeline of %s holds %s, which is not an event of that room", id, eid)
				return
			}
			if !w.mayS(r, e) {
				w.fail("leak", "the user is shown %s of %s, which is outside their membership", eid, id)
				return
			}
			if e.block {
				w.fail("block", "the timeline of %s holds %s of the initial state", id, eid)
				return
			}
			if i <= prev && e.typ == "m.room.member" && e.sk == w.user && e.membership == "leave" && e.sender != w.user {
				if !w.onlyLazy {
					w.v.fail("twice-kick", "the kick %s is sent twice", eid)
				}
				continue
			}
			if i <= prev {
				w.fail("twice", "%s of %s arrives after %v", eid, id, w.tl[id])
				return
			}
			for j := prev + 1; prev >= 0 && j < i; j++ {
				if o := r.log[j]; w.complete[id] && !(w.ever[o.sender] && !o.state) && w.mayS(r, o) {
					w.fail("gap", "%s of %s arrives after %v without %s in between", eid, id, w.tl[id], o.id)
					return
				}
			}
			if w.ignored[e.sender] && !e.state {
				w.fail("ignored", "%s of %s is a message of an ignored user", eid, id)
				return
			}
			prev = i
			w.tl[id] = append(w.tl[id], eid)
			if w.lazy && !w.members[id][e.sender] {
				w.fail("lazy", "%s of %s arrives without the member event of its sender", eid, id)
				return
			}
		}
		if room.Name != "" {
			w.name[id] = room.Name
		}
		c := w.counts[id]
		if room.JoinedCount != 0 {
			c[0] = room.JoinedCount
		}
		if room.InvitedCount != nil {
			c[1] = *room.InvitedCount
		}
		w.counts[id] = c
		w.notif[id] = [2]int{int(room.NotificationCount), int(room.HighlightCount)}
	}
	w.focus = ""
	// the client's lists are the server's
	view := map[string]bool{}
	for k, l := range w.muxed {
		srv := w.cs.lists.Get(k)
		want := map[int]string{}
		for i, id := range srv.RoomIDs() {
			if l.in(i) || l.all {
				want[i] = id
				view[id] = true
			}
		}
		if !l.all && fmt.Sprint(want) != fmt.Sprint(l.m) {
			w.fail("list", "list %s is %v at the client and %v at the server", k, l.m, want)
			return
		}
		if res.Lists != nil {
			if rl, ok := res.Lists[k]; ok && rl.Count != len(srv.RoomIDs()) {
				w.fail("count", "list %s has %d rooms, reported %d", k, len(srv.RoomIDs()), rl.Count)
				return
			}
		}
	}
	for id := range w.subs {
		if _, ok := w.cs.roomSubscriptions[id]; ok {
			view[id] = true
		}
	}
	for _, r := range w.rooms {
		w.focus = r.id
		if view[r.id] && !w.complete[r.id] {
			w.fail("no-data", "%s is in view and its data was never sent", r.id)
			return
		}
		if !view[r.id] {
			w.complete[r.id] = false
		}
	}
}

// everything stored has been dispatched and every update was sent
func (w *vfW) quiet() {
	w.flush()
	for i := 0; i < 40 && len(w.cs.live.updates) > 0 && !w.broken; i++ {
		w.request()
	}
	if w.broken || w.first {
		return
	}
	metas := map[string]*internal.RoomMetadata{}
	for _, r := range w.rooms {
		metas[r.id] = w.gc.LoadRooms(context.Background(), r.id)[r.id]
		metas[r.id].RemoveHero(w.user)
	}
	for _, r := range w.rooms {
		w.focus = r.id
		if !w.complete[r.id] || !w.joined(r, 1<<60) {
			continue
		}
		last := ""
		for i, e := range r.log {
			if !e.block && !(w.ignored[e.sender] && !e.state) {
				last = e.id
				if i < w.blank[r.id] && len(w.tl[r.id]) == 0 {
					last = "" // asked for no timeline
				}
			}
		}
		if n := len(w.tl[r.id]); last != "" && len(w.ignored) == 0 && (n == 0 || w.tl[r.id][n-1] != last) {
			w.fail("lost", "%s was never sent: the client has %v of %s", last, w.tl[r.id], r.id)
			return
		}
		if len(w.ever) > 0 {
			continue // what comes with an ignored message may be noticed late
		}
		name, _ := internal.CalculateRoomName(metas[r.id], 5)
		if w.name[r.id] != name {
			w.fail("name", "the client knows %s as %q, its name is %q", r.id, w.name[r.id], name)
			return
		}
		if c := [2]int{metas[r.id].JoinCount, metas[r.id].InviteCount}; c != w.counts[r.id] {
			w.fail("counts", "the client knows counts %v of %s, they are %v", w.counts[r.id], r.id, c)
			return
		}
		urd := w.uc.LoadRoomData(r.id)
		if c := [2]int{urd.NotificationCount, urd.HighlightCount}; c != w.notif[r.id] {
			w.fail("notif", "the client knows unread counts %v of %s, they are %v", w.notif[r.id], r.id, c)
			return
		}
	}
	for k, l := range w.muxed {
		var joined []string
		for _, r := range w.rooms {
			if w.joined(r, 1<<60) {
				joined = append(joined, r.id)
			}
		}
		got := w.cs.lists.Get(k).RoomIDs()
		g2 := append([]string{}, got...)
		sort.Strings(g2)
		sort.Strings(joined)
		bad := len(g2) != len(joined) && !w.leaves
		for _, r := range w.rooms {
			in, j := strings.Contains(fmt.Sprint(g2), r.id), strings.Contains(fmt.Sprint(joined), r.id)
			if in && !j && w.leaves {
				if w.onlyLazy {
					continue
				}
				w.v.fail("left-listed", "the user left %s, which is still in list %s", r.id, k)
			} else if in != j {
				w.focus = r.id
				bad = true
			}
		}
		if bad {
			w.fail("rooms", "list %s holds %v, the user's rooms are %v", k, g2, joined)
			return
		}
		if l.all {
			continue // never sorted again
		}
		if l.sort[0] == sync3.SortByName {
			for i := 1; i < len(got); i++ {
				a, _ := internal.CalculateRoomName(metas[got[i-1]], 5)
				b, _ := internal.CalculateRoomName(metas[got[i]], 5)
				if !w.leaves && vfCanon(a) > vfCanon(b) {
					w.fail("byname", "list %s has %q before %q", k, a, b)
					return
				}
			}
			continue
		}
		if w.lagged || w.leaves || len(w.ignored) > 0 || (len(l.bump) > 0 && !l.since) {
			continue
		}
		ts := func(id string) (t uint64) {
			r := w.byID[id]
			var since int64
			for _, e := range r.log {
				if e.typ == "m.room.member" && e.sk == w.user && e.membership == "join" {
					t, since = e.ts, e.nid
				}
			}
			for _, e := range r.log {
				if e.nid <= since || e.block {
					continue
				}
				if len(l.bump) == 0 {
					t = e.ts
				}
				for _, b := range l.bump {
					if b == e.typ {
						t = e.ts
					}
				}
			}
			return
		}
		for i := 1; i < len(got); i++ {
			if ts(got[i-1]) < ts(got[i]) {
				w.fail("recency", "list %s has %s before %s, which is newer by %v (%d < %d)", k, got[i-1], got[i], l.bump, ts(got[i-1]), ts(got[i]))
				return
			}
		}
	}
}
func vfCanon(s string) string { return strings.ToLower(strings.Trim(s, "#!():_@")) }

func (w *vfW) step() {
	w.focus = ""
	r := w.rooms[w.rng.Intn(len(w.rooms))]
	switch w.rng.Intn(20) {
	case 0, 1, 2, 3:
		if !w.leaves && !w.joined(r, 1<<60) {
			return
		}
		var tl []*vfE
		for i := w.rng.Intn(3); i >= 0; i-- {
			tl = append(tl, w.event(r))
		}
		w.accumulate(r, tl)
	case 4, 5, 6, 7, 8, 9, 10:
		w.dispatch(r)
	case 11:
		if w.leaves {
			if w.joined(r, 1<<60) {
				w.accumulate(r, []*vfE{w.member([]string{w.user, w.others[0]}[w.rng.Intn(2)], w.user, []string{"leave", "ban"}[w.rng.Intn(2)])})
			} else {
				w.accumulate(r, []*vfE{w.member(w.user, w.user, "join")})
			}
		}
	case 12:
		n, h := w.rng.Intn(3), w.rng.Intn(2)
		w.say("unread %s %d %d", r.id, n, h)
		w.uc.OnUnreadCounts(context.Background(), r.id, &h, &n)
	case 13:
		if w.rng.Intn(6) == 0 {
			u := w.others[w.rng.Intn(3)]
			w.say("ignore %s", u)
			w.ignored = map[string]bool{u: true}
			w.ever[u] = true
			w.uc.OnAccountData(context.Background(), []state.AccountData{{UserID: w.user, RoomID: state.AccountDataGlobalRoom, Type: "m.ignored_user_list",
				Data: []byte(fmt.Sprintf(`{"type":"m.ignored_user_list","content":{"ignored_users":{"%s":{}}}}`, u))}})
			// what was sent before stays
		}
	default:
		w.request()
	}
}

func TestVerifDelivery(t *testing.T) { vfDeliver(vfNew(t), false) }

// every history is lazy loaded, and only what concerns lazy loading is reported
func TestVerifLazy(t *testing.T) { vfDeliver(vfNew(t), true) }

func vfDeliver(v *vf, lazy bool) {
	until := time.Now().Add(time.Duration(v.pick(45, 400)) * time.Second)
	var bad, next int32
	base := v.rng.Int63()
	var mu sync.Mutex
	var wg sync.WaitGroup
	for p := 0; p < 6; p++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for time.Now().Before(until) && atomic.LoadInt32(&bad) < 3 {
				n := int(atomic.AddInt32(&next, 1)) - 1
				mu.Lock()
				w := vfNewW(v, rand.New(rand.NewSource(base+int64(n))), n, lazy || n%3 == 0, n%4 == 3)
				mu.Unlock()
				w.onlyLazy = lazy
				for i := 0; i < 120 && !w.broken; i++ {
					w.step()
					if i%40 == 39 && !w.broken {
						w.quiet()
					}
				}
				v.eval(fmt.Sprint(w.hist))
				if w.broken && (!lazy || v.nfailed() > 0) {
					atomic.AddInt32(&bad, 1)
				}
				w.cs.Destroy()
			}
		}()
	}
	wg.Wait()
}
