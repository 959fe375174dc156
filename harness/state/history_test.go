package state

import (
	"context"
	"encoding/json"
	"fmt"
	"sort"
	"strings"
	"testing"

	"github.com/jmoiron/sqlx"
	"github.com/matrix-org/sliding-sync/internal"
	"github.com/matrix-org/sliding-sync/sqlutil"
	"github.com/matrix-org/sliding-sync/sync2"
	"github.com/matrix-org/sliding-sync/testutils"
	"github.com/tidwall/gjson"
)

type vfEv struct {
	id, typ, sk          string
	state, block, gap    bool // a state event; only seen in a state block; the event before it is unknown
	membership, name, av string
	via                  bool
	prevBatch            string
	nid                  int64
	js                   json.RawMessage
	after                map[[2]string]*vfEv // the state after it, for timeline events
	redacted             bool
}
type vfWorld struct {
	v       *vf
	s       *Storage
	room    string
	n       int
	evs     []*vfEv // by nid
	state   map[[2]string]*vfEv
	hist    string
	users   []string
	started bool
	plain   bool // no redactions
}

var vfDB *sqlx.DB

func vfStore(t *testing.T) *Storage {
	if vfDB == nil {
		db, err := sqlx.Open("postgres", testutils.PrepareDBConnectionString())
		if err != nil {
			t.Fatal(err)
		}
		db.SetMaxOpenConns(8)
		vfDB = db
	}
	return NewStorageWithDB(vfDB, false)
}

// the same database, but rows come in the order they lie on disk
func vfUnindexed(t *testing.T) *Storage {
	vfStore(t)
	db, err := sqlx.Open("postgres", testutils.PrepareDBConnectionString()+" options='-c enable_indexscan=off -c enable_bitmapscan=off'")
	if err != nil {
		t.Fatal(err)
	}
	return NewStorageWithDB(db, false)
}
func vfNewWorld(v *vf, s *Storage, n int) *vfWorld {
	w := &vfWorld{v: v, s: s, room: fmt.Sprintf("!r%d:x", n), state: map[[2]string]*vfEv{}}
	for i := 0; i < 9; i++ {
		w.users = append(w.users, fmt.Sprintf("@u%d-%d", n, i))
	}
	return w
}
func (w *vfWorld) mk(typ, sk string, state bool, content map[string]interface{}) *vfEv {
	w.n++
	e := &vfEv{id: fmt.Sprintf("$%s-%d", w.room, w.n), typ: typ, sk: sk, state: state}
	js := map[string]interface{}{"event_id": e.id, "type": typ, "sender": "@x", "content": content, "origin_server_ts": 1000 + w.v.rng.Intn(1000)}
	if state {
		js["state_key"] = sk
	}
	if typ == "m.room.member" && state {
		e.membership, _ = content["membership"].(string)
		e.name, _ = content["displayname"].(string)
		e.av, _ = content["avatar_url"].(string)
		if p := w.state[[2]string{typ, sk}]; p != nil && w.v.rng.Intn(4) > 0 {
			js["unsigned"] = map[string]interface{}{"prev_content": map[string]interface{}{"membership": p.membership}}
		}
	} else {
		e.name, _ = content["name"].(string)
		_, e.via = content["via"].([]string)
	}
	e.js, _ = json.Marshal(js)
	return e
}
func (w *vfWorld) word() string { return []string{"", "x", "y", "z"}[w.v.rng.Intn(4)] }
func (w *vfWorld) randState() *vfEv {
	switch w.v.rng.Intn(7) {
	case 0:
		return w.mk([]string{"m.room.name", "m.room.topic"}[w.v.rng.Intn(2)], []string{"", "", "k"}[w.v.rng.Intn(3)], true, map[string]interface{}{"name": w.word()})
	case 1:
		return w.mk("m.room.avatar", "", true, map[string]interface{}{"url": w.word(), "name": w.word()})
	case 2:
		c := map[string]interface{}{}
		if w.v.rng.Intn(3) > 0 {
			c["via"] = []string{"hs"}
		}
		return w.mk("m.space.child", "!c"+w.word(), true, c)
	case 3:
		return w.mk("m.room.canonical_alias", "", true, map[string]interface{}{"alias": w.word(), "name": ""})
	}
	return w.mk("m.room.member", w.users[w.v.rng.Intn(len(w.users))], true, map[string]interface{}{
		"membership": []string{"join", "join", "join", "invite", "leave", "ban"}[w.v.rng.Intn(6)], "displayname": w.word(), "avatar_url": w.word()})
}
func (w *vfWorld) randEvent() *vfEv {
	switch w.v.rng.Intn(8) {
	case 0, 1:
		return w.mk("m.room.message", "", false, map[string]interface{}{"body": w.word()})
	case 2:
		return w.mk([]string{"m.room.name", "m.room.topic", "m.space.child"}[w.v.rng.Intn(3)], "", false, map[string]interface{}{"name": "not state"})
	}
	return w.randState()
}
func (w *vfWorld) nidOf(id string) (nid int64) {
	w.s.DB.QueryRow(`SELECT event_nid FROM syncv3_events WHERE event_id=$1`, id).Scan(&nid)
	return
}
func (w *vfWorld) apply(e *vfEv) {
	if e.state {
		w.state[[2]string{e.typ, e.sk}] = e
	}
}
func (w *vfWorld) initialise(first bool) bool {
	var block []*vfEv
	if first {
		block = append(block, w.mk("m.room.create", "", true, map[string]interface{}{"room_version": "10", "type": "m.space"}))
	}
	seen := map[[2]string]bool{}
	for i := w.v.rng.Intn(6); i >= 0; i-- {
		if e := w.randState(); !seen[[2]string{e.typ, e.sk}] {
			seen[[2]string{e.typ, e.sk}] = true
			block = append(block, e)
		}
	}
	var raw []json.RawMessage
	for _, e := range block {
		e.block = true
		raw = append(raw, e.js)
		w.hist += fmt.Sprintf(" block(%s %q %s)", e.typ, e.sk, e.membership)
	}
	// state blocks often repeat state that is known
	for _, e := range w.state {
		if w.v.rng.Intn(3) == 0 && !seen[[2]string{e.typ, e.sk}] && !e.redacted {
			raw = append(raw, e.js)
		}
	}
	w.v.rng.Shuffle(len(raw), func(i, j int) { raw[i], raw[j] = raw[j], raw[i] })
	var err error
	var res InitialiseResult
	if !w.v.guard("initialise", w.hist, func() { res, err = w.s.Initialise(w.room, raw) }) {
		return false
	}
	if err != nil || !res.AddedEvents || res.ReplacedExistingSnapshot == first {
		w.v.fail("initialise", "Initialise said %+v %v after%s", res, err, w.hist)
		return false
	}
	for _, e := range block {
		e.nid = w.nidOf(e.id)
		w.evs = append(w.evs, e)
		w.apply(e)
	}
	sort.Slice(w.evs, func(i, j int) bool { return w.evs[i].nid < w.evs[j].nid })
	return true
}
func (w *vfWorld) accumulate(first, limited bool) bool {
	var fresh []*vfEv
	if first {
		fresh = append(fresh, w.mk("m.room.create", "", true, map[string]interface{}{"room_version": "10", "type": "m.space"}))
	}
	for i := w.v.rng.Intn(4); i >= 0; i-- {
		fresh = append(fresh, w.randEvent())
	}
	var redacts *vfEv
	if !w.plain && !first && len(w.evs) > 0 && w.v.rng.Intn(5) == 0 {
		redacts = w.evs[w.v.rng.Intn(len(w.evs))]
		if redacts.typ == "m.room.create" || redacts.typ == "m.room.member" {
			redacts = nil
		} else {
			r := w.mk("m.room.redaction", "", false, map[string]interface{}{"redacts": redacts.id})
			fresh = append(fresh, r)
		}
	}
	var raw []json.RawMessage
	// what another poller delivered already comes again
	overlap := 0
	if !limited && !first {
		overlap = w.v.rng.Intn(3)
	}
	var tl []*vfEv
	for _, e := range w.evs {
		if !e.block {
			tl = append(tl, e)
		}
	}
	if overlap > len(tl) {
		overlap = len(tl)
	}
	if overlap > 0 && w.v.rng.Intn(3) == 0 { // an old event which was never seen, backfilled before events which were
		raw = append(raw, w.randState().js)
		w.hist += " backfill"
	}
	for _, e := range tl[len(tl)-overlap:] {
		raw = append(raw, e.js)
	}
	for i, e := range fresh {
		raw = append(raw, e.js)
		if w.v.rng.Intn(8) == 0 { // servers repeat themselves
			raw = append(raw, e.js)
		}
		w.hist += fmt.Sprintf(" event(%s %q state=%v %s", e.typ, e.sk, e.state, e.membership)
		if i == 0 && limited {
			e.gap = true
			w.hist += " after-gap"
		}
		w.hist += ")"
	}
	pb := ""
	if w.v.rng.Intn(2) == 0 || limited {
		pb = fmt.Sprintf("pb%d", w.n)
		if overlap == 0 {
			fresh[0].prevBatch = pb
		}
	}
	var res AccumulateResult
	var err error
	tlr := sync2.TimelineResponse{Events: raw, Limited: limited, PrevBatch: pb}
	if !w.v.guard("accumulate", w.hist, func() { res, err = w.s.Accumulate(w.users[0], w.room, tlr) }) {
		return false
	}
	if err != nil || res.NumNew != len(fresh) || len(res.TimelineNIDs) != len(fresh) {
		w.v.fail("accumulate", "Accumulate said %+v %v for %d new events after%s", res, err, len(fresh), w.hist)
		return false
	}
	for i, e := range fresh {
		e.nid = w.nidOf(e.id)
		if e.nid != res.TimelineNIDs[i] {
			w.v.fail("nids", "event %d of the timeline has position %d, reported %v:%s", i, e.nid, res.TimelineNIDs, w.hist)
			return false
		}
		w.evs = append(w.evs, e)
		w.apply(e)
		e.after = map[[2]string]*vfEv{}
		for k, x := range w.state {
			e.after[k] = x
		}
		if i > 0 && e.nid <= fresh[i-1].nid {
			w.v.fail("order", "events are stored out of order:%s", w.hist)
			return false
		}
	}
	if redacts != nil {
		redacts.redacted = true
		redacts.name, redacts.av, redacts.via = "", "", false
		w.hist += " redacting " + redacts.typ
		cur := w.state[[2]string{redacts.typ, redacts.sk}]
		if res.IncludesStateRedaction != (redacts.state && cur == redacts) {
			w.v.fail("redaction", "redaction of current state reported as %v:%s", res.IncludesStateRedaction, w.hist)
			return false
		}
	}
	// unknown events before known ones are old and change nothing
	if w.v.rng.Intn(3) == 0 {
		var old []json.RawMessage
		for i := w.v.rng.Intn(2); i >= 0; i-- {
			old = append(old, w.randState().js)
		}
		for _, e := range w.evs[len(w.evs)-1-w.v.rng.Intn(len(fresh)):] {
			old = append(old, e.js)
		}
		w.hist += fmt.Sprintf(" old(%d)", len(old))
		res, err = w.s.Accumulate(w.users[1], w.room, sync2.TimelineResponse{Events: old})
		if err != nil || res.NumNew != 0 || len(res.TimelineNIDs) != 0 {
			w.v.fail("old", "old events before known ones gave %+v %v after%s", res, err, w.hist)
			return false
		}
	}
	// delivering the same again changes nothing
	if w.v.rng.Intn(3) == 0 {
		res, err = w.s.Accumulate(w.users[1], w.room, tlr)
		if err != nil || res.NumNew != 0 || len(res.TimelineNIDs) != 0 {
			w.v.fail("again", "a repeated timeline gave %+v %v after%s", res, err, w.hist)
			return false
		}
	}
	return true
}
func (w *vfWorld) step() bool {
	if !w.started {
		w.started = true
		if w.v.rng.Intn(2) == 0 {
			return w.initialise(true) && w.accumulate(false, w.v.rng.Intn(2) == 0)
		}
		return w.accumulate(true, false)
	}
	if w.v.rng.Intn(5) == 0 {
		return w.initialise(false) && (w.v.rng.Intn(3) == 0 || w.accumulate(false, true))
	}
	return w.accumulate(false, w.v.rng.Intn(6) == 0)
}

func vfIDs(evs []Event) []string {
	var out []string
	for _, e := range evs {
		out = append(out, gjson.GetBytes(e.JSON, "event_id").Str)
	}
	sort.Strings(out)
	return out
}

func TestVerifState(t *testing.T) {
	v := vfNew(t)
	s := vfStore(t)
	ctx := context.Background()
	for n := 0; n < v.pick(60, 800) && v.nfailed() == 0; n++ {
		w, o := vfNewWorld(v, s, 2*n), vfNewWorld(v, s, 2*n+1)
		for k := 0; k < 6; k++ {
			if !w.step() || !o.step() {
				return
			}
			for c := 0; c < 8; c++ {
				// the state at a position: the latest, or after some timeline event
				pos := int64(EventsEnd)
				if c > 2 {
					pos = []*vfWorld{w, o}[v.rng.Intn(2)].evs[0].nid + int64(v.rng.Intn(60))
				}
				filter := map[string][]string{}
				if c%2 == 1 {
					for _, typ := range []string{"m.room.name", "m.room.member", "m.space.child", "m.room.create", "m.room.topic"} {
						switch v.rng.Intn(4) {
						case 0:
							filter[typ] = nil
						case 1:
							filter[typ] = []string{"", "k", w.users[v.rng.Intn(9)]}
						}
					}
				}
				want := map[string][]string{}
				skip := false
				for _, x := range []*vfWorld{w, o} {
					var last *vfEv
					for _, e := range x.evs {
						if e.nid <= pos {
							last = e
						}
					}
					if last == nil {
						continue
					}
					if last == x.evs[0] && len(x.evs) > 1 {
						skip = true // nobody is a member of the room yet
						continue
					}
					st := last.after
					if last.block {
						if last != x.evs[len(x.evs)-1] {
							skip = true // a position inside a state block stands for no state of the room
							continue
						}
						st = x.state
					}
					for key, e := range st {
						keys, ok := filter[key[0]]
						if len(filter) > 0 && !ok {
							continue
						}
						in := len(filter) == 0 || len(keys) == 0
						for _, sk := range keys {
							in = in || sk == key[1]
						}
						if in {
							want[x.room] = append(want[x.room], e.id)
						}
					}
					sort.Strings(want[x.room])
				}
				if skip {
					continue
				}
				desc := fmt.Sprintf("state at %d, filter %v, of%s AND%s", pos, filter, w.hist, o.hist)
				v.eval(desc)
				var got map[string][]Event
				var err error
				if !v.guard("state", desc, func() { got, err = s.RoomStateAfterEventPosition(ctx, []string{w.room, o.room}, pos, filter) }) {
					return
				}
				if err != nil {
					v.fail("state-error", "%v: %s", err, desc)
					return
				}
				for _, x := range []*vfWorld{w, o} {
					if a, b := fmt.Sprint(vfIDs(got[x.room])), fmt.Sprint(want[x.room]); a != b {
						v.fail("state", "got %s want %s for %s", a, b, desc)
						return
					}
				}
			}
			for _, x := range []*vfWorld{w, o} {
				j, i, l, err := s.FetchMemberships(x.room)
				var wj, wi, wl []string
				for key, e := range x.state {
					if key[0] == "m.room.member" {
						switch e.membership {
						case "join":
							wj = append(wj, key[1])
						case "invite":
							wi = append(wi, key[1])
						default:
							wl = append(wl, key[1])
						}
					}
				}
				for _, l := range [][]string{j, i, l, wj, wi, wl} {
					sort.Strings(l)
				}
				if a, b := fmt.Sprint(j, i, l), fmt.Sprint(wj, wi, wl); err != nil || a != b {
					v.fail("members", "members are %s want %s (%v) after%s", a, b, err, x.hist)
				}
			}
		}
	}
}

// what a user may see of a room: from their last join (or, left or banned, up to that) on
func (w *vfWorld) visible(user string, to int64) (from, upto int64) {
	joined := false
	start := int64(0)
	for _, e := range w.evs {
		if e.nid > to || !e.state || e.typ != "m.room.member" || e.sk != user {
			continue
		}
		switch {
		case e.membership == "join" && !joined:
			joined, start = true, e.nid
		case joined && (e.membership == "leave" || e.membership == "ban"):
			joined = false
			from, upto = start, e.nid
		case !joined && e.membership == "invite":
			from, upto = e.nid, e.nid
		}
	}
	if joined {
		from, upto = start, to
	}
	return
}

func TestVerifTimeline(t *testing.T) {
	v := vfNew(t)
	both := []*Storage{vfStore(t), vfUnindexed(t)}
	for n := 0; n < v.pick(60, 800) && v.nfailed() == 0; n++ {
		s := both[n%2]
		w := vfNewWorld(v, s, 100000+n)
		for k := 0; k < 8; k++ {
			if !w.step() {
				return
			}
			// the room's later events are stored in between: a third party redacts
			for c := 0; c < 10; c++ {
				user := w.users[v.rng.Intn(4)]
				to := w.evs[v.rng.Intn(len(w.evs))].nid + int64(v.rng.Intn(2))
				if c < 3 {
					to = w.evs[len(w.evs)-1].nid
				}
				limit := 1 + v.rng.Intn(6)
				desc := fmt.Sprintf("user %s up to %d limit %d:%s", user, to, limit, w.hist)
				v.eval(desc)
				var got map[string]*LatestEvents
				var err error
				if !v.guard("latest", desc, func() { got, err = s.LatestEventsInRooms(user, []string{w.room}, to, limit) }) {
					return
				}
				if err != nil {
					v.fail("latest", "%v: %s", err, desc)
					return
				}
				from, upto := w.visible(user, to)
				var want []string
				var first *vfEv
				var latest int64
				for i := len(w.evs) - 1; i >= 0 && len(want) < limit; i-- {
					e := w.evs[i]
					if e.block || e.nid < from || e.nid > upto || from == 0 {
						continue
					}
					want = append([]string{e.id}, want...)
					first = e
					if latest == 0 {
						latest = e.nid
					}
					if e.gap {
						break
					}
				}
				var ids []string
				le := got[w.room]
				if le == nil {
					le = &LatestEvents{}
				}
				for _, e := range le.Timeline {
					ids = append(ids, gjson.GetBytes(e, "event_id").Str)
				}
				if fmt.Sprint(ids) != fmt.Sprint(want) {
					v.fail("timeline", "timeline %v want %v for %s", ids, want, desc)
					return
				}
				if le.LatestNID != latest {
					v.fail("latestnid", "latest position %d want %d for %s", le.LatestNID, latest, desc)
					return
				}
				if first != nil {
					pb := ""
					for _, e := range w.evs {
						if e.nid >= first.nid && e.prevBatch != "" {
							pb = e.prevBatch
							break
						}
					}
					if le.PrevBatch != pb {
						v.fail("prevbatch", "prev_batch %q want %q for %s", le.PrevBatch, pb, desc)
						return
					}
				}
				jr, err := s.JoinedRoomsAfterPosition(user, to)
				joined, at := false, int64(0)
				for _, e := range w.evs {
					if e.nid <= to && e.state && e.typ == "m.room.member" && e.sk == user {
						if e.membership == "join" && !joined {
							joined, at = true, e.nid
						} else if e.membership == "leave" || e.membership == "ban" {
							joined = false
						}
					}
				}
				m, is := jr[w.room]
				if err != nil || is != joined || (is && m.NID != at) {
					v.fail("joined", "joined=%v at %d, want %v at %d (%v) for %s", is, m.NID, joined, at, err, desc)
					return
				}
				lat, err := s.LatestEventNIDInRooms([]string{w.room}, to)
				var wl int64
				for _, e := range w.evs {
					if e.nid <= to {
						wl = e.nid
					}
				}
				if err != nil || lat[w.room] != wl {
					v.fail("latest-in-room", "latest event %v want %d (%v) for %s", lat, wl, err, desc)
					return
				}
			}
		}
	}
}

func (w *vfWorld) metadata() string {
	var j, i int
	heroes := map[string]string{}
	var ch []string
	type mem struct {
		u string
		e *vfEv
	}
	var ms []mem
	for key, e := range w.state {
		if key[0] == "m.room.member" && (e.membership == "join" || e.membership == "invite") {
			if e.membership == "join" {
				j++
			} else {
				i++
			}
			ms = append(ms, mem{key[1], e})
		}
		if key[0] == "m.space.child" && e.via {
			ch = append(ch, key[1])
		}
	}
	sort.Slice(ms, func(a, b int) bool { return ms[a].e.nid > ms[b].e.nid })
	for k := 0; k < len(ms) && k < 6; k++ {
		heroes[ms[k].u] = ms[k].e.name + "/" + ms[k].e.av
	}
	get := func(typ, path string) string {
		e := w.state[[2]string{typ, ""}]
		if e == nil || e.redacted {
			return ""
		}
		return gjson.GetBytes(e.js, path).Str
	}
	sort.Strings(ch)
	return fmt.Sprint(get("m.room.name", "content.name"), "|", get("m.room.avatar", "content.url"), "|", get("m.room.canonical_alias", "content.alias"), "|", j, i, heroes, ch)
}
func vfMeta(m *internal.RoomMetadata) string {
	heroes := map[string]string{}
	for _, h := range m.Heroes {
		heroes[h.ID] = h.Name + "/" + h.Avatar
	}
	var ch []string
	for c := range m.ChildSpaceRooms {
		ch = append(ch, c)
	}
	sort.Strings(ch)
	return fmt.Sprint(m.NameEvent, "|", m.AvatarEvent, "|", m.CanonicalAlias, "|", m.JoinCount, m.InviteCount, heroes, ch)
}

func TestVerifReset(t *testing.T) {
	v := vfNew(t)
	s := vfStore(t)
	var worlds []*vfWorld
	for n := 0; n < v.pick(60, 800) && v.nfailed() == 0; n++ {
		w := vfNewWorld(v, s, 200000+n)
		w.plain = n%2 == 0
		worlds = append(worlds, w)
		m := internal.NewRoomMetadata(w.room)
		for k := 0; k < 8; k++ {
			if !w.step() {
				return
			}
			v.eval(w.hist)
			if !v.guard("reset", w.hist, func() {
				if err := s.ResetMetadataState(m); err != nil {
					v.fail("reset", "%v after%s", err, w.hist)
				}
			}) {
				return
			}
			if a, b := vfMeta(m), w.metadata(); a != b {
				v.fail("reset", "metadata after a reset is %s want %s after%s", a, b, w.hist)
				return
			}
		}
	}
	// start-up loads the same
	res := map[string]internal.RoomMetadata{}
	joined := map[string][]string{}
	err := sqlutil.WithTransaction(s.DB, func(txn *sqlx.Tx) error {
		tbl, err := s.PrepareSnapshot(txn)
		if err != nil {
			return err
		}
		if joined, res, err = s.AllJoinedMembers(txn, tbl); err != nil {
			return err
		}
		return s.MetadataForAllRooms(txn, tbl, res)
	})
	if err != nil {
		t.Fatal(err)
	}
	for _, w := range worlds {
		m, ok := res[w.room]
		if len(joined[w.room]) == 0 {
			continue // nobody is in the room: its counts are not loaded
		}
		a, b := vfMeta(&m), w.metadata()
		if !w.plain { // redacted space children are kept in the spaces table
			a, b = a[:strings.LastIndex(a, "[")], b[:strings.LastIndex(b, "[")]
		}
		if !ok || a != b {
			v.fail("startup", "metadata loaded at start-up is %s want %s after%s", a, b, w.hist)
			return
		}
	}
}
