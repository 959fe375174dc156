property R11;

func state.StrippedEvents.NIDs(se) returns (m, o) {
  modifies nothing;
  invariant [i: progress, a: phi []int64] ms: forall j: int :: 0 <= j && j < i && se[j].Type == "m.room.member" ==> se[j].NID in a;
  invariant [i: progress, a: phi []int64] os: forall j: int :: 0 <= j && j < i && se[j].Type != "m.room.member" ==> se[j].NID in a;
  invariant [i: progress, a: phi []int64] monly: forall k: int :: 0 <= k && k < len(a) ==> (exists j: int :: 0 <= j && j < i && se[j].NID == a[k] && se[j].Type == "m.room.member");
  invariant [i: progress, a: phi []int64] oonly: forall k: int :: 0 <= k && k < len(a) ==> (exists j: int :: 0 <= j && j < i && se[j].NID == a[k] && se[j].Type != "m.room.member");
  invariant [i: progress, a: phi []int64, b: phi []int64] count: len(a) + len(b) == i;
  ensures members: forall j: int :: 0 <= j && j < len(se) && se[j].Type == "m.room.member" ==> se[j].NID in m;
  ensures others: forall j: int :: 0 <= j && j < len(se) && se[j].Type != "m.room.member" ==> se[j].NID in o;
  ensures members_only: forall k: int :: 0 <= k && k < len(m) ==> (exists j: int :: 0 <= j && j < len(se) && se[j].NID == m[k] && se[j].Type == "m.room.member");
  ensures others_only: forall k: int :: 0 <= k && k < len(o) ==> (exists j: int :: 0 <= j && j < len(se) && se[j].NID == o[k] && se[j].Type != "m.room.member");
  ensures complete: len(m) + len(o) == len(se);
}
def evKey(e) = e.Type + "\x1f" + e.StateKey;
func state.Accumulator.calculateNewSnapshot(a, o, n) returns (r, replaced, err) {
  modifies nothing;
  invariant [i: progress, s: written map[string]struct{}] seen: forall j: int :: 0 <= j && j < i ==> has(s, evKey(o[j]));
  invariant [i: progress, s: written map[string]struct{}] seen2: forall k: string :: has(s, k) ==> (exists j: int :: 0 <= j && j < i && evKey(o[j]) == k);
  invariant [i: progress] distinct: forall j, k: int :: 0 <= j && j < k && k < i ==> evKey(o[j]) != evKey(o[k]);
  invariant [i: progress, r: phi state.StrippedEvents] same: len(r) == i && (forall j: int :: 0 <= j && j < i ==> r[j] == ite(evKey(o[j]) == evKey(n), n, o[j]));
  invariant [i: progress, a: phi bool] added: a <==> (exists j: int :: 0 <= j && j < i && evKey(o[j]) == evKey(n));
  invariant [i: progress, rep: phi int64] rep: forall j: int :: 0 <= j && j < i && evKey(o[j]) == evKey(n) ==> rep == o[j].NID;
  invariant [i: progress, rep: phi int64] rep0: (forall j: int :: 0 <= j && j < i ==> evKey(o[j]) != evKey(n)) ==> rep == 0;
  ensures kept: err == nil ==> (forall j: int :: 0 <= j && j < len(o) ==> r[j] == ite(evKey(o[j]) == evKey(n), n, o[j]));
  ensures new: err == nil ==> n in r;
  ensures size: err == nil ==> len(r) == len(o) + ite((exists j: int :: 0 <= j && j < len(o) && evKey(o[j]) == evKey(n)), 0, 1);
  ensures one_each: err == nil ==> (forall j, k: int :: 0 <= j && j < k && k < len(o) ==> evKey(o[j]) != evKey(o[k]));
  ensures replaces: err == nil ==> (forall j: int :: 0 <= j && j < len(o) && evKey(o[j]) == evKey(n) ==> replaced == o[j].NID);
  ensures replaces_none: err == nil && (forall j: int :: 0 <= j && j < len(o) ==> evKey(o[j]) != evKey(n)) ==> replaced == 0;
  ensures accepts: (forall j, k: int :: 0 <= j && j < k && k < len(o) ==> evKey(o[j]) != evKey(o[k])) && (forall j: int :: 0 <= j && j < len(o) ==> o[j].NID != n.NID || evKey(o[j]) == evKey(n)) ==> err == nil;
}
func state.stateMap.Ingest(s, e) returns (replaced) {
  modular;
  requires s != nil && s.Memberships != nil && s.Other != nil;
  modifies entries(s.Memberships), entries(s.Other);
  ensures member: e.Type == "m.room.member" ==> has(s.Memberships, e.StateKey) && get(s.Memberships, e.StateKey) == e.NID && replaced == old(get(s.Memberships, e.StateKey));
  ensures others: forall k: string :: (k != e.StateKey || e.Type != "m.room.member") ==> (has(s.Memberships, k) <==> old(has(s.Memberships, k))) && get(s.Memberships, k) == old(get(s.Memberships, k));
  ensures state: e.Type != "m.room.member" ==> (exists k: [2]string :: k[0] == e.Type && k[1] == e.StateKey && has(s.Other, k) && get(s.Other, k) == e.NID && replaced == old(get(s.Other, k)));
  ensures other_state: forall k: [2]string :: (k[0] != e.Type || k[1] != e.StateKey || e.Type == "m.room.member") ==> (has(s.Other, k) <==> old(has(s.Other, k))) && get(s.Other, k) == old(get(s.Other, k));
}
func state.stateMap.NIDs(s) returns (m, o) {
  requires s != nil;
  modifies nothing;
  invariant [v: visited string, a: phi []int64] ms: forall k: string :: k in v ==> get(s.Memberships, k) in a;
  invariant [v: visited string, a: phi []int64] monly: forall j: int :: 0 <= j && j < len(a) ==> (exists k: string :: k in v && get(s.Memberships, k) == a[j]);
  invariant [v: visited [2]string, a: phi []int64] os: forall k: [2]string :: k in v ==> get(s.Other, k) in a;
  invariant [v: visited [2]string, a: phi []int64] oonly: forall j: int :: 0 <= j && j < len(a) ==> (exists k: [2]string :: k in v && get(s.Other, k) == a[j]);
  ensures members: forall k: string :: has(s.Memberships, k) ==> get(s.Memberships, k) in m;
  ensures members_only: forall j: int :: 0 <= j && j < len(m) ==> (exists k: string :: has(s.Memberships, k) && get(s.Memberships, k) == m[j]);
  ensures others: forall k: [2]string :: has(s.Other, k) ==> get(s.Other, k) in o;
  ensures others_only: forall j: int :: 0 <= j && j < len(o) ==> (exists k: [2]string :: has(s.Other, k) && get(s.Other, k) == o[j]);
}
func state.ensureStateHasCreateEvent(events) returns (err) {
  requires len(events) > 0;
  invariant [i: progress] none: forall j: int :: 0 <= j && j < i ==> events[j].Type != "m.room.create" || events[j].StateKey != "";
  ensures exact: err == nil <==> (exists j: int :: 0 <= j && j < len(events) && events[j].Type == "m.room.create" && events[j].StateKey == "");
}
trusted state.EventTable.SelectUnknownEventIDs(t, txn, ids) returns (unknown, err) {
  modifies nothing;
  ensures subset: err == nil ==> unknown != nil && (forall k: string :: has(unknown, k) <==> k in ids && !pure<bool>("db:known", t, txn, k));
}
func state.Accumulator.filterToNewTimelineEvents(a, txn, d) returns (r, err) {
  requires a != nil && a.eventsTable != nil;
  invariant [i: progress, ids: phi []string] ids: len(ids) == i && (forall j: int :: 0 <= j && j < i ==> ids[j] == d[j].ID);
  ensures suffix: err == nil ==> len(r) <= len(d) && (forall j: int :: 0 <= j && j < len(r) ==> r[j] == d[len(d) - len(r) + j]);
  ensures unseen: err == nil && len(d) > 1 ==> (forall j: int :: len(d) - len(r) <= j && j < len(d) ==> !pure<bool>("db:known", a.eventsTable, txn, d[j].ID));
  ensures after_the_last_seen: err == nil && len(d) > 1 && 0 < len(r) && len(r) < len(d) ==> pure<bool>("db:known", a.eventsTable, txn, d[len(d) - len(r) - 1].ID);
  ensures nothing_new: err == nil && len(d) > 1 && len(r) == 0 ==> pure<bool>("db:known", a.eventsTable, txn, d[len(d) - 1].ID);
  invariant [i: phi int] tail: forall j: int :: i < j && j < len(d) ==> !pure<bool>("db:known", a.eventsTable, txn, d[j].ID);
  ensures single: len(d) <= 1 ==> err == nil && len(r) == len(d);
}
func state.parseAndDeduplicateTimelineEvents(roomID, tl) returns (r) {
  invariant [r: phi []state.Event, s: written map[string]struct{}] seen: forall j: int :: 0 <= j && j < len(r) ==> has(s, r[j].ID);
  invariant [r: phi []state.Event] uniq: forall i, j: int :: 0 <= i && i < j && j < len(r) ==> r[i].ID != r[j].ID;
  invariant [r: phi []state.Event] named: roomID != "" ==> (forall j: int :: 0 <= j && j < len(r) ==> r[j].ID != "" && r[j].RoomID == roomID);
  ensures unique: forall i, j: int :: 0 <= i && i < j && j < len(r) ==> r[i].ID != r[j].ID;
  ensures usable: roomID != "" ==> (forall j: int :: 0 <= j && j < len(r) ==> r[j].ID != "" && r[j].RoomID == roomID);
}
func state.Accumulator.roomInfoDelta(a, roomID, events) returns (info) {
  modifies nothing;
  invariant [i: progress, e: phi bool] enc: e <==> (exists j: int :: 0 <= j && j < i && events[j].Type == "m.room.encryption" && events[j].StateKey == "");
  ensures enc: info.IsEncrypted <==> (exists j: int :: 0 <= j && j < len(events) && events[j].Type == "m.room.encryption" && events[j].StateKey == "");
  ensures id: info.ID == roomID;
}
property R10;
def memOf(e) = pure<gjson.Result>("fn:github.com/tidwall/gjson.Result.Get", pure<gjson.Result>("fn:github.com/tidwall/gjson.ParseBytes", e.JSON), "content.membership").Str;
def ends(e) = memOf(e) == "leave" || memOf(e) == "ban";
def joinedBy(evs, n, r) = exists j: int :: 0 <= j && j < n && evs[j].RoomID == r && memOf(evs[j]) == "join" && (forall k: int :: j < k && k < n && evs[k].RoomID == r ==> !ends(evs[k]));
func state.Storage.determineJoinedRoomsFromMemberships(s, evs) returns (m, err) {
  modular;
  modifies nothing;
  invariant [i: progress, w: written map[string]internal.EventMetadata] joined: forall r: string :: has(w, r) <==> joinedBy(evs, i, r);
  invariant [i: progress, w: written map[string]internal.EventMetadata] since: forall r: string :: has(w, r) ==> (exists j: int :: 0 <= j && j < i && evs[j].RoomID == r && memOf(evs[j]) == "join" && get(w, r).NID == evs[j].NID);
  ensures ok: err == nil && m != nil;
  ensures joined: forall r: string :: has(m, r) <==> joinedBy(evs, len(evs), r);
  ensures since: forall r: string :: has(m, r) ==> (exists j: int :: 0 <= j && j < len(evs) && evs[j].RoomID == r && memOf(evs[j]) == "join" && get(m, r).NID == evs[j].NID);
}

def logEnds(l) = l.Membership == "leave" || l.Membership == "ban";
func "state.Storage.visibleEventNIDsWithData$1"(joined, from, to, logs) returns (r) {
  modular;
  modifies nothing;
  invariant [rs: phi [][2]int64] inb: (forall k: int :: 0 <= k && k < len(logs) ==> logs[k].Event.NID <= to) ==> (forall k: int :: 0 <= k && k < len(rs) ==> rs[k][1] <= to);
  ensures inb: (forall k: int :: 0 <= k && k < len(logs) ==> logs[k].Event.NID <= to) ==> r[1] <= to || r[1] == 0;
  invariant [i: progress, j: phi bool] now: j <==> (joined && (forall k: int :: 0 <= k && k < i ==> !logEnds(logs[k]))) || (exists a: int :: 0 <= a && a < i && logs[a].Membership == "join" && (forall k: int :: a < k && k < i ==> !logEnds(logs[k])));
  invariant [i: progress, j: phi bool, s: phi int64] start: j ==> (s == from && joined && (forall k: int :: 0 <= k && k < i ==> !logEnds(logs[k]))) || (exists a: int :: 0 <= a && a < i && logs[a].Membership == "join" && s == logs[a].NID && (forall k: int :: a < k && k < i ==> !logEnds(logs[k])));
  invariant [i: progress, rs: phi [][2]int64] upto: forall k: int :: 0 <= k && k < len(rs) ==> (exists a: int :: 0 <= a && a < i && rs[k][1] == logs[a].NID && (logEnds(logs[a]) || logs[a].Membership == "invite"));
  ensures none: len(logs) == 0 ==> r[0] == from && r[1] == to;
  ensures still_in: len(logs) > 0 && r[1] != to && r[1] != 0 ==> (exists a: int :: 0 <= a && a < len(logs) && r[1] == logs[a].NID && (logEnds(logs[a]) || logs[a].Membership == "invite"));
  ensures gone: len(logs) > 0 && (exists a: int :: 0 <= a && a < len(logs) && logEnds(logs[a]) && (forall k: int :: a < k && k < len(logs) ==> logs[k].Membership != "join")) ==> (r[1] == 0 && r[0] == 0) || (exists a: int :: 0 <= a && a < len(logs) && r[1] == logs[a].NID && (logEnds(logs[a]) || logs[a].Membership == "invite"));
  ensures here: len(logs) > 0 && ((joined && (forall k: int :: 0 <= k && k < len(logs) ==> !logEnds(logs[k]))) || (exists a: int :: 0 <= a && a < len(logs) && logs[a].Membership == "join" && (forall k: int :: a < k && k < len(logs) ==> !logEnds(logs[k])))) ==> r[1] == to && ((r[0] == from && joined) || (exists a: int :: 0 <= a && a < len(logs) && logs[a].Membership == "join" && r[0] == logs[a].NID && (forall k: int :: a < k && k < len(logs) ==> !logEnds(logs[k]))));
}

trusted state.EventTable.SelectEventsWithTypeStateKeyInRooms(t, rooms, typ, sk, lo, hi) returns (evs, err) {
  modifies nothing;
  ensures sorted: err == nil ==> (forall i, j: int :: 0 <= i && i < j && j < len(evs) ==> evs[i].NID < evs[j].NID);
  ensures bounds: err == nil ==> (forall i: int :: 0 <= i && i < len(evs) ==> lo < evs[i].NID && evs[i].NID <= hi && evs[i].RoomID in rooms);
}
func state.Storage.visibleEventNIDsWithData(s, joined, evs, user, from, to) returns (m, err) {
  modular;
  requires upto: forall j: int :: 0 <= j && j < len(evs) ==> evs[j].NID <= to;
  modifies nothing;
  invariant [i: progress, w: written map[string][]state.membershipEvent] inb: (forall r: string :: forall k: int :: has(w, r) && 0 <= k && k < len(get(w, r)) ==> get(w, r)[k].Event.NID <= to);
  invariant [i: progress, w: written map[string][]state.membershipEvent] rooms: forall r: string :: has(w, r) ==> (exists j: int :: 0 <= j && j < i && evs[j].RoomID == r);
  invariant [w: phi [][2]int64] inb2: (forall k: int :: 0 <= k && k < len(w) ==> w[k][1] <= to);
  invariant [w: written map[string][2]int64] outb: (forall r: string :: has(w, r) ==> get(w, r)[1] <= to || get(w, r)[1] == 0);
  invariant [w: written map[string][2]int64] mine: forall r: string :: has(w, r) ==> has(joined, r) || (exists j: int :: 0 <= j && j < len(evs) && evs[j].RoomID == r);
  invariant [w: written map[string][]state.membershipEvent] kept: forall r: string :: has(w, r) ==> (exists j: int :: 0 <= j && j < len(evs) && evs[j].RoomID == r);
  invariant [w: var map[string][]state.membershipEvent] keptb: (forall r: string :: forall k: int :: has(w, r) && 0 <= k && k < len(get(w, r)) ==> get(w, r)[k].Event.NID <= to);
  ensures ok: err == nil && m != nil;
  ensures nothing_later: (forall r: string :: has(m, r) ==> get(m, r)[1] <= to || get(m, r)[1] == 0);
  ensures own_rooms: forall r: string :: has(m, r) ==> has(joined, r) || (exists j: int :: 0 <= j && j < len(evs) && evs[j].RoomID == r);
}
func state.Storage.visibleEventNIDsBetweenForRooms(s, user, rooms, from, to) returns (m, err) {
  modular;
  requires s != nil && s.Accumulator != nil && s.Accumulator.eventsTable != nil;
  modifies nothing;
  ensures ok: err == nil ==> m != nil;
  ensures nothing_later: err == nil ==> (forall r: string :: has(m, r) ==> get(m, r)[1] <= to || get(m, r)[1] == 0);
  ensures asked_rooms: err == nil ==> (forall r: string :: has(m, r) ==> r in rooms);
}
trusted state.EventTable.SelectLatestEventsBetween(t, txn, room, lo, hi, limit) returns (evs, err) {
  modifies nothing;
  ensures bounds: err == nil ==> (forall i: int :: 0 <= i && i < len(evs) ==> lo < evs[i].NID && evs[i].NID <= hi && 0 < evs[i].NID);
  ensures sorted: err == nil ==> (forall i, j: int :: 0 <= i && i < j && j < len(evs) ==> evs[i].NID > evs[j].NID);
  ensures limited: err == nil ==> len(evs) <= limit;
}
trusted state.EventTable.SelectClosestPrevBatch(t, txn, room, nid) returns (tok, err) {
  modifies nothing;
}
func "state.EventTable.SelectLatestEventsBetween@gap"(t, txn, room, lo, hi, limit) returns (evs, err) {
  requires t != nil && txn != nil;
  invariant [i: progress, e: var []state.Event] nogap: forall j: int :: 0 <= j && j < i ==> !e[j].MissingPrevious;
  ensures nogap: err == nil ==> (forall j: int :: 0 <= j && j + 1 < len(evs) ==> !evs[j].MissingPrevious);
}
def lim(s, limit) = ite(s.MaxTimelineLimit != 0 && limit > s.MaxTimelineLimit, s.MaxTimelineLimit, limit);
func state.Storage.LatestEventsInRooms(s, user, rooms, to, limit) returns (m, err) {
  requires s != nil && s.EventsTable != nil && s.Accumulator != nil && s.Accumulator.eventsTable != nil && s.Accumulator.db != nil;
  invariant [w: written map[string]*state.LatestEvents] limited: forall r: string :: has(w, r) ==> get(w, r) != nil && len(get(w, r).Timeline) <= limit;
  invariant [w: written map[string]*state.LatestEvents] nolater: forall r: string :: has(w, r) ==> get(w, r).LatestNID <= to || get(w, r).LatestNID == 0;
  invariant [w: written map[string]*state.LatestEvents] asked: forall r: string :: has(w, r) ==> r in rooms;
  invariant [i: progress, e: phi []json.RawMessage] sofar: len(e) <= i;
  invariant [i: progress, e: phi int64] later: e <= to || e == 0;
  ensures limited: forall r: string :: err == nil && has(m, r) && limit > 0 ==> len(get(m, r).Timeline) <= limit;
  ensures nothing_later: forall r: string :: err == nil && has(m, r) ==> get(m, r).LatestNID <= to || get(m, r).LatestNID == 0;
  ensures asked_rooms: forall r: string :: err == nil && has(m, r) ==> r in rooms;
}
