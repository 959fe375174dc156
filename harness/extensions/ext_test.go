package extensions

import (
	"context"
	"encoding/json"
	"fmt"
	"reflect"
	"sort"
	"testing"

	"github.com/jmoiron/sqlx"
	"github.com/matrix-org/sliding-sync/internal"
	"github.com/matrix-org/sliding-sync/state"
	"github.com/matrix-org/sliding-sync/sync3/caches"
	"github.com/matrix-org/sliding-sync/testutils"
)

type vfUpd struct {
	room string
	meta *internal.RoomMetadata
}

func (u *vfUpd) Type() string                               { return "vf" }
func (u *vfUpd) RoomID() string                             { return u.room }
func (u *vfUpd) GlobalRoomMetadata() *internal.RoomMetadata { return u.meta }
func (u *vfUpd) UserRoomMetadata() *caches.UserRoomData     { return nil }

var vfRooms = []string{"!a", "!b", "!c", "!d"}
var vfLists = []string{"l1", "l2", "l3"}

func (v *vf) names(from []string, star bool) []string {
	switch v.rng.Intn(5) {
	case 0:
		return nil
	case 1:
		if star {
			return []string{"*"}
		}
		return []string{}
	case 2:
		return []string{}
	}
	var out []string
	for _, x := range from {
		if v.rng.Intn(2) == 0 {
			out = append(out, x)
		}
	}
	return out
}

func vfHas(l []string, x string) bool {
	for _, y := range l {
		if x == y {
			return true
		}
	}
	return false
}

func vfScope(c Core, room string, x Context) bool {
	rooms := c.Rooms
	if len(rooms) > 0 && rooms[0] == "*" {
		rooms = x.AllSubscribedRooms
	}
	lists := c.Lists
	if len(lists) > 0 && lists[0] == "*" {
		lists = x.AllLists
	}
	if vfHas(rooms, room) {
		return true
	}
	for _, l := range x.RoomIDsToLists[room] {
		if vfHas(lists, l) {
			return true
		}
	}
	return false
}

func (v *vf) extCtx() Context {
	x := Context{UserID: "@u", DeviceID: "D", IsInitial: v.rng.Intn(2) == 0, AllLists: v.names(vfLists, false), AllSubscribedRooms: v.names(vfRooms, false),
		RoomIDsToLists: map[string][]string{}, RoomIDToTimeline: map[string][]string{}}
	for _, r := range vfRooms {
		if l := v.names(vfLists, false); len(l) > 0 {
			x.RoomIDsToLists[r] = l
		}
		if v.rng.Intn(2) == 0 {
			x.RoomIDToTimeline[r] = v.names([]string{"$1", "$2", "$3"}, false)
		}
	}
	return x
}

func (v *vf) core() Core {
	c := Core{Lists: v.names(vfLists, true), Rooms: v.names(vfRooms, true)}
	if v.rng.Intn(4) > 0 {
		b := v.rng.Intn(2) == 0
		c.Enabled = &b
	}
	return c
}

func vfJ(x interface{}) string {
	b, err := json.Marshal(x)
	if err != nil {
		panic(err)
	}
	return string(b)
}

func (v *vf) extReq() *Request {
	r := &Request{}
	if v.rng.Intn(3) > 0 {
		r.ToDevice = &ToDeviceRequest{Core: v.core(), Limit: v.rng.Intn(3) * 10, Since: []string{"", "4", "7"}[v.rng.Intn(3)]}
	}
	if v.rng.Intn(3) > 0 {
		r.E2EE = &E2EERequest{Core: v.core()}
	}
	if v.rng.Intn(3) > 0 {
		r.AccountData = &AccountDataRequest{Core: v.core()}
	}
	if v.rng.Intn(3) > 0 {
		r.Typing = &TypingRequest{Core: v.core()}
	}
	if v.rng.Intn(3) > 0 {
		r.Receipts = &ReceiptsRequest{Core: v.core()}
	}
	return r
}

func TestVerifExtCore(t *testing.T) {
	v := vfNew(t)
	for n := 0; n < v.pick(20000, 300000); n++ {
		c, x := v.core(), v.extCtx()
		for _, r := range vfRooms {
			v.eval(vfJ(c) + vfJ(x.RoomIDsToLists))
			if g, w := c.RoomInScope(r, x), vfScope(c, r, x); g != w {
				v.fail("RoomInScope", "extension scope %s, subscribed %v, lists %v, room %s in lists %v: in scope = %v, should be %v", vfJ(c), x.AllSubscribedRooms, x.AllLists, r, x.RoomIDsToLists[r], g, w)
			}
		}
	}
	// stickiness over histories
	for n := 0; n < v.pick(5000, 50000); n++ {
		first := v.extReq()
		hist := vfJ(first)
		first.InterpretAsInitial()
		cur := *first
		// model: JSON of each extension, as maps
		type m = map[string]interface{}
		model := map[string]m{}
		load := func(r *Request) map[string]m {
			var out map[string]m
			if err := json.Unmarshal([]byte(vfJ(r)), &out); err != nil {
				panic(err)
			}
			return out
		}
		initial := func(e m) m {
			for _, k := range []string{"lists", "rooms"} {
				if e[k] == nil {
					e[k] = []interface{}{"*"}
				}
			}
			return e
		}
		for k, e := range load(first) {
			if e != nil {
				model[k] = initial(e)
			}
		}
		for step := 0; step < 4; step++ {
			next := v.extReq()
			hist += "\n  " + vfJ(next)
			for k, e := range load(next) {
				if e == nil {
					continue
				}
				if model[k] == nil {
					model[k] = initial(e)
					continue
				}
				for f, val := range e {
					if val == nil || val == "" || val == 0.0 {
						continue
					}
					model[k][f] = val
				}
			}
			cur = cur.ApplyDelta(next)
			v.eval(hist)
			got := load(&cur)
			for k, e := range got {
				if !reflect.DeepEqual(e, model[k]) {
					v.fail("sticky", "after the extension requests\n  %s\nextension %s is %s, should be %s", hist, k, vfJ(e), vfJ(model[k]))
				}
			}
			var enabled []string
			for _, e := range cur.EnabledExtensions() {
				enabled = append(enabled, e.Name())
			}
			sort.Strings(enabled)
			var want []string
			for k, nm := range map[string]string{"to_device": "ToDeviceRequest", "e2ee": "E2EERequest", "account_data": "AccountDataRequest", "typing": "TypingRequest", "receipts": "ReceiptsRequest"} {
				if model[k] != nil && model[k]["enabled"] == true {
					want = append(want, nm)
				}
			}
			sort.Strings(want)
			if fmt.Sprint(enabled) != fmt.Sprint(want) {
				v.fail("enabled", "after the extension requests\n  %s\nenabled: %v, should be %v", hist, enabled, want)
			}
		}
	}
}

func vfStore() (*state.Storage, *sqlx.DB) {
	db, err := sqlx.Open("postgres", testutils.PrepareDBConnectionString())
	if err != nil {
		panic(err)
	}
	return state.NewStorageWithDB(db, false), db
}

// the data an extension returns, against the data put in the database
func TestVerifExtData(t *testing.T) {
	v := vfNew(t)
	store, db := vfStore()
	defer store.Teardown()
	ctx := context.Background()
	for n := 0; n < v.pick(300, 3000); n++ {
		db.MustExec("DELETE FROM syncv3_account_data")
		db.MustExec("DELETE FROM syncv3_receipts")
		db.MustExec("DELETE FROM syncv3_receipts_private")
		ad := map[string][]string{}
		rec := map[string]map[string]bool{} // room -> "user event priv"
		metas := map[string]internal.RoomMetadata{}
		for _, r := range append([]string{""}, vfRooms...) {
			for _, u := range []string{"@u", "@other"} {
				if v.rng.Intn(2) == 0 {
					continue
				}
				ev := fmt.Sprintf(`{"type":"t%d","content":{"room":"%s","user":"%s"}}`, v.rng.Intn(2), r, u)
				if _, err := store.InsertAccountData(u, r, []json.RawMessage{[]byte(ev)}); err != nil {
					panic(err)
				}
				if u == "@u" {
					ad[r] = append(ad[r], ev)
				}
			}
			if r == "" {
				continue
			}
			rec[r] = map[string]bool{}
			for _, u := range []string{"@u", "@v", "@w"} {
				for _, kind := range []string{"m.read", "m.read.private"} {
					if v.rng.Intn(2) == 0 {
						continue
					}
					e := fmt.Sprint("$", 1+v.rng.Intn(4))
					edu := fmt.Sprintf(`{"type":"m.receipt","content":{"%s":{"%s":{"%s":{"ts":5}}}}}`, e, kind, u)
					if _, err := store.ReceiptTable.Insert(r, []byte(edu)); err != nil {
						panic(err)
					}
					rec[r][e+" "+kind+" "+u] = true
				}
			}
			md := internal.NewRoomMetadata(r)
			md.LastMessageTimestamp = 1000
			if v.rng.Intn(2) == 0 {
				md.TypingEvent = []byte(`{"type":"m.typing","content":{"user_ids":["@x` + r + `"]}}`)
			}
			metas[r] = *md
		}
		gc := caches.NewGlobalCache(store)
		gc.Startup(metas)
		h := &Handler{Store: store, GlobalCache: gc}
		for k := 0; k < 12; k++ {
			x := v.extCtx()
			x.Handler = h
			c := v.core()
			desc := fmt.Sprintf("extension scope %s; subscribed %v, lists %v, windows %s, rooms in the response %s, initial=%v", vfJ(c), x.AllSubscribedRooms, x.AllLists, vfJ(x.RoomIDsToLists), vfJ(x.RoomIDToTimeline), x.IsInitial)
			var res Response
			v.eval(desc)
			wantAD, wantTyp, wantRec := map[string][]string{}, map[string]string{}, map[string]map[string]bool{}
			var wantGlobal []string
			loaded := map[string]bool{}
			adReq, tyReq, reReq := &AccountDataRequest{Core: c}, &TypingRequest{Core: c}, &ReceiptsRequest{Core: c}
			if v.rng.Intn(3) > 0 {
				desc += "; the response begins with what is there"
				adReq.ProcessInitial(ctx, &res, x)
				tyReq.ProcessInitial(ctx, &res, x)
				reReq.ProcessInitial(ctx, &res, x)
				if x.IsInitial {
					wantGlobal = append(wantGlobal, ad[""]...)
				}
				for r, tl := range x.RoomIDToTimeline {
					if !vfScope(c, r, x) {
						continue
					}
					if len(ad[r]) > 0 {
						wantAD[r] = append([]string{}, ad[r]...)
						loaded[r] = true
					}
					if ev := metas[r].TypingEvent; ev != nil {
						wantTyp[r] = string(ev)
					}
					set := map[string]bool{}
					for rc := range rec[r] {
						var e, kind, u string
						fmt.Sscan(rc, &e, &kind, &u)
						if u == "@u" || kind == "m.read" && vfHas(tl, e) {
							set[rc] = true
						}
					}
					if len(set) > 0 {
						wantRec[r] = set
					}
				}
			}
			for i := v.rng.Intn(6); i > 0; i-- {
				r := vfRooms[v.rng.Intn(len(vfRooms))]
				md := metas[r]
				_, inRes := x.RoomIDToTimeline[r]
				sc := vfScope(c, r, x)
				var up caches.Update
				switch v.rng.Intn(6) {
				case 0, 1: // a room update brings the room's data along, once
					up = &vfUpd{r, &md}
					desc += "; live update in " + r
					if sc && inRes {
						if len(ad[r]) > 0 && !loaded[r] {
							wantAD[r] = append([]string{}, ad[r]...)
							loaded[r] = true
						}
						if md.TypingEvent != nil {
							wantTyp[r] = string(md.TypingEvent)
						}
					}
				case 2, 3: // receipts: the proxy passes on everyone's public ones and the user's own private ones
					rc := internal.Receipt{RoomID: r, EventID: fmt.Sprint("$", 1+v.rng.Intn(4)), UserID: []string{"@u", "@v", "@w"}[v.rng.Intn(3)], TS: 7}
					kind := "m.read"
					if rc.UserID == "@u" && v.rng.Intn(2) == 0 {
						rc.IsPrivate = true
						kind += ".private"
					}
					up = &caches.ReceiptUpdate{RoomUpdate: &vfUpd{r, &md}, Receipt: rc}
					desc += fmt.Sprintf("; live receipt %s %s %s in %s", rc.EventID, kind, rc.UserID, r)
					if sc {
						if wantRec[r] == nil {
							wantRec[r] = map[string]bool{}
						}
						wantRec[r][rc.EventID+" "+kind+" "+rc.UserID] = true
						// (a receipt is an update of its room, too)
						if inRes && len(ad[r]) > 0 && !loaded[r] {
							wantAD[r] = append([]string{}, ad[r]...)
							loaded[r] = true
						}
						if inRes && md.TypingEvent != nil {
							wantTyp[r] = string(md.TypingEvent)
						}
					}
				case 4: // typing: the newest replaces
					md.TypingEvent = []byte(fmt.Sprintf(`{"type":"m.typing","content":{"user_ids":["@y%d"]}}`, i))
					up = &caches.TypingUpdate{RoomUpdate: &vfUpd{r, &md}}
					desc += "; live typing in " + r
					if sc {
						wantTyp[r] = string(md.TypingEvent)
						if inRes && len(ad[r]) > 0 && !loaded[r] {
							wantAD[r] = append([]string{}, ad[r]...)
							loaded[r] = true
						}
					}
				case 5: // account data
					ev := fmt.Sprintf(`{"type":"new%d","content":{}}`, i)
					acd := []state.AccountData{{UserID: "@u", Data: []byte(ev), Type: fmt.Sprint("new", i)}}
					if v.rng.Intn(2) == 0 {
						up = &caches.AccountDataUpdate{AccountData: acd}
						desc += "; live global account data " + ev
						wantGlobal = append(wantGlobal, ev)
						break
					}
					acd[0].RoomID = r
					if _, err := store.InsertAccountData("@u", r, []json.RawMessage{[]byte(ev)}); err != nil {
						panic(err)
					}
					up = &caches.RoomAccountDataUpdate{RoomUpdate: &vfUpd{r, &md}, AccountData: acd}
					desc += "; live account data " + ev + " in " + r
					if !vfHas(ad[r], ev) {
						ad[r] = append(ad[r], ev)
					}
					if sc {
						wantAD[r] = append(wantAD[r], ev)
						if inRes && md.TypingEvent != nil {
							wantTyp[r] = string(md.TypingEvent)
						}
					}
				}
				adReq.AppendLive(ctx, &res, x, up)
				tyReq.AppendLive(ctx, &res, x, up)
				reReq.AppendLive(ctx, &res, x, up)
			}
			gotAD := map[string][]string{}
			var global []string
			if res.AccountData != nil {
				for r, evs := range res.AccountData.Rooms {
					for _, e := range evs {
						gotAD[r] = append(gotAD[r], string(e))
					}
				}
				for _, e := range res.AccountData.Global {
					global = append(global, string(e))
				}
			}
			for _, m := range []map[string][]string{gotAD, wantAD} {
				for _, l := range m {
					sort.Strings(l)
				}
			}
			if vfJ(gotAD) != vfJ(wantAD) {
				v.fail("account_data", "%s\nroom account data %s, should be %s", desc, vfJ(gotAD), vfJ(wantAD))
			}
			if vfJ(global) != vfJ(wantGlobal) {
				v.fail("account_data/global", "%s\nglobal account data %s, should be %s", desc, vfJ(global), vfJ(wantGlobal))
			}
			gotTyp := map[string]string{}
			if res.Typing != nil {
				for r, e := range res.Typing.Rooms {
					gotTyp[r] = string(e)
				}
			}
			if vfJ(gotTyp) != vfJ(wantTyp) {
				v.fail("typing", "%s\ntyping %s, should be %s", desc, vfJ(gotTyp), vfJ(wantTyp))
			}
			gotRec := map[string]map[string]bool{}
			if res.Receipts != nil {
				for r, e := range res.Receipts.Rooms {
					gotRec[r] = map[string]bool{}
					pub, priv, err := state.UnpackReceiptsFromEDU(r, e)
					if err != nil {
						panic(err)
					}
					for _, p := range append(pub, priv...) {
						kind := "m.read"
						if p.IsPrivate {
							kind += ".private"
						}
						gotRec[r][p.EventID+" "+kind+" "+p.UserID] = true
					}
				}
			}
			if vfJ(gotRec) != vfJ(wantRec) {
				v.fail("receipts", "%s\nreceipts %s, should be %s", desc, vfJ(gotRec), vfJ(wantRec))
			}
		}
	}
}
