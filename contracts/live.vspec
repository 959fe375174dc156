property R09;

// the rooms which were built from the database, and the position of each room at that point
ghost blt: gmap[string]bool;
ghost bltLen: gmap[string]int;
ghost bltPos: gmap[string]int;
ghost bltLazy: gmap[string]bool;
trusted handler.ConnState.buildRooms(s, ctx, subs) returns (rooms) {
  modifies blt, bltLen, bltPos, bltLazy, entries(s.loadPositions), entries(s.lazyCache.cache), entries(s.lazyCache.rooms);
  ensures lazy: forall k: string :: has(s.lazyCache.cache, k) <==> bltLazy[k];
  ensures lazy_kept: forall k: string :: (old(has(s.lazyCache.cache, k)) ==> has(s.lazyCache.cache, k)) && (old(has(s.lazyCache.rooms, k)) ==> has(s.lazyCache.rooms, k));
  ensures rooms: rooms != nil && fresh(rooms) && (forall r: string :: blt[r] <==> has(rooms, r));
  ensures tl: forall r: string :: has(rooms, r) ==> len(get(rooms, r).Timeline) == bltLen[r];
  ensures pos: forall r: string :: get(s.loadPositions, r) == bltPos[r];
  // events are stored before they are dispatched, so the database is never behind
  ensures ahead: forall r: string :: get(s.loadPositions, r) >= old(get(s.loadPositions, r)) && (!has(rooms, r) ==> get(s.loadPositions, r) == old(get(s.loadPositions, r)));
}
trusted handler.connStateLive.processGlobalUpdates(s, ctx, b, up) returns (delta) { modifies nothing; ensures l: len(delta.Lists) >= 0; }
trusted handler.connStateLive.processUpdatesForSubscriptions(s, ctx, b, up) returns (ok) { modifies nothing; }
trusted handler.connStateLive.processLiveUpdateForList(s, ctx, b, up, op, req, list, res) returns (ok) { modifies nothing; }
trusted handler.connStateLive.shouldIncludeHeroes(s, room) returns (ok) { option pure; modifies nothing; }
trusted handler.NewRoomsBuilder() returns (b) { modifies nothing; ensures b != nil; }
trusted handler.RoomsBuilder.BuildSubscriptions(b) returns (subs) { modifies nothing; }
trusted caches.UserCache.ShouldIgnore(c, u) returns (ok) { option pure; modifies nothing; ensures v: ok == pure<bool>("uc:ignore", c, u); }
trusted caches.UserCache.AnnotateWithTransactionIDs(c, ctx, u, d, m) returns (r) { modifies nothing; ensures n: r != nil && (forall k: string :: len(get(r, k)) == len(get(m, k))); }
trusted caches.UserCache.AttemptToFetchPrevBatch(c, ctx, room, ed) returns (t) { modifies nothing; }
trusted caches.GlobalCache.LoadStateEvent(c, ctx, room, pos, typ, sk) returns (e) { option pure; modifies nothing; ensures v: same(e, pure<json.RawMessage>("gc:state", c, room, pos, typ, sk)); }
trusted sync3.InternalRequestLists.ReadOnlyRoom(l, id) returns (r) { modifies nothing; ensures r != nil; }

def evu(up) = as<*caches.RoomEventUpdate>(up);
def rid2(up) = pure<string>("gen:RoomID", up);
def lp(s, r) = get(s.loadPositions, r);
def tlen(resp, r) = len(get(resp.Rooms, r).Timeline);
def ign(s, up) = evu(up).EventData.StateKey == nil && pure<bool>("uc:ignore", s.userCache, evu(up).EventData.Sender);
func handler.connStateLive.processLiveUpdate(s, ctx, up, response) returns (sent) {
  requires wf: s != nil && s.ConnState != nil && s.lists != nil && s.muxedReq != nil && s.loadPositions != nil && s.userCache != nil && s.lazyCache != nil && s.lazyCache.cache != nil && s.lazyCache.rooms != nil && s.lazyCache.cache != s.lazyCache.rooms && s.globalCache != nil && response != nil && response.Rooms != nil && response.Lists != nil;
  requires ev: is<*caches.RoomEventUpdate>(up) ==> evu(up) != nil && evu(up).EventData != nil && rid2(evu(up).RoomUpdate) == rid2(up);
  invariant [v: visited string] merged: forall r: string :: r in v ==> blt[r] && tlen(response, r) == bltLen[r];
  invariant [v: visited string] rest: forall r: string :: !(r in v) ==> tlen(response, r) == old(tlen(response, r));
  invariant [v: visited string] built: forall r: string :: r in v ==> blt[r];
  ensures never_back: forall r: string :: lp(s, r) >= old(lp(s, r));
  ensures ignored: is<*caches.RoomEventUpdate>(up) && old(ign(s, up)) ==> (forall r: string :: lp(s, r) == old(lp(s, r)) && same(get(response.Rooms, r), old(get(response.Rooms, r))));
  ensures once: is<*caches.RoomEventUpdate>(up) && !evu(up).EventData.AlwaysProcess && !old(ign(s, up)) && evu(up).EventData.NID <= bltPos[rid2(up)] ==> tlen(response, rid2(up)) == ite(blt[rid2(up)], bltLen[rid2(up)], old(tlen(response, rid2(up))));
  ensures delivered: is<*caches.RoomEventUpdate>(up) && !evu(up).EventData.AlwaysProcess && !old(ign(s, up)) && sent && evu(up).EventData.Event != nil && evu(up).EventData.NID > bltPos[rid2(up)] ==> tlen(response, rid2(up)) == ite(blt[rid2(up)], bltLen[rid2(up)], old(tlen(response, rid2(up)))) + 1 && lp(s, rid2(up)) == evu(up).EventData.NID;
  ensures unsent: is<*caches.RoomEventUpdate>(up) && !old(ign(s, up)) && !sent ==> tlen(response, rid2(up)) == ite(blt[rid2(up)], bltLen[rid2(up)], old(tlen(response, rid2(up))));
  ensures other_rooms: forall r: string :: !(is<*caches.RoomEventUpdate>(up) && old(ign(s, up))) && r != rid2(up) ==> tlen(response, r) == ite(blt[r], bltLen[r], old(tlen(response, r)));
}

def isMem(e) = pure<gjson.Result>("fn:github.com/tidwall/gjson.GetBytes", e, "type").Str == "m.room.member";
def skey(e) = pure<gjson.Result>("fn:github.com/tidwall/gjson.GetBytes", e, "state_key").Str;
func handler.keepLazyMembers(req, prev) returns (out) {
  modular;
  modifies nothing;
  invariant [i: progress, m: written map[string]struct{}] seen: forall u: string :: has(m, u) <==> (exists j: int :: 0 <= j && j < i && isMem(req[j]) && skey(req[j]) == u);
  invariant [o: phi []json.RawMessage] prefix: len(o) >= len(req) && (forall j: int :: 0 <= j && j < len(req) ==> same(o[j], req[j]));
  invariant [i: progress, o: phi []json.RawMessage] kept: forall j: int :: 0 <= j && j < i && isMem(prev[j]) ==> (exists k: int :: 0 <= k && k < len(o) && isMem(o[k]) && skey(o[k]) == skey(prev[j]));
  invariant [o: phi []json.RawMessage, m: written map[string]struct{}] known: forall u: string :: has(m, u) ==> (exists k: int :: 0 <= k && k < len(o) && isMem(o[k]) && skey(o[k]) == u);
  invariant [o: phi []json.RawMessage] only: forall k: int :: len(req) <= k && k < len(o) ==> (exists j: int :: 0 <= j && j < len(prev) && same(o[k], prev[j]) && isMem(prev[j]));
  ensures prefix: len(out) >= len(req) && (forall j: int :: 0 <= j && j < len(req) ==> same(out[j], req[j]));
  ensures kept: forall j: int :: 0 <= j && j < len(prev) && isMem(prev[j]) ==> (exists k: int :: 0 <= k && k < len(out) && isMem(out[k]) && skey(out[k]) == skey(prev[j]));
  ensures only: forall k: int :: len(req) <= k && k < len(out) ==> (exists j: int :: 0 <= j && j < len(prev) && same(out[k], prev[j]) && isMem(prev[j]));
}

property R25;
def lkey(r, u) = r + " | " + u;
def lset(c, r, u) = has(c.cache, lkey(r, u));
def llazy(c, r) = has(c.rooms, r);
func handler.LazyCache.IsSet(c, room, u) returns (ok) { modular; modifies nothing; requires c != nil; ensures v: ok <==> lset(c, room, u); }
func handler.LazyCache.IsLazyLoading(c, room) returns (ok) { modular; modifies nothing; requires c != nil; ensures v: ok <==> llazy(c, room); }
func handler.LazyCache.AddUser(c, room, u) returns (first) {
  modular;
  requires c != nil && c.cache != nil && c.rooms != nil && c.cache != c.rooms;
  modifies entries(c.cache), entries(c.rooms);
  ensures first: first <==> !old(lset(c, room, u));
  ensures set: lset(c, room, u) && llazy(c, room);
  ensures others: forall k: string :: k != lkey(room, u) ==> (has(c.cache, k) <==> old(has(c.cache, k)));
  ensures rooms: forall k: string :: k != room ==> (has(c.rooms, k) <==> old(has(c.rooms, k)));
}
func handler.LazyCache.Add(c, room, us) {
  modular;
  requires c != nil && c.cache != nil && c.rooms != nil && c.cache != c.rooms;
  modifies entries(c.cache), entries(c.rooms);
  invariant [i: progress] sofar: forall j: int :: 0 <= j && j < i ==> lset(c, room, us[j]);
  invariant lazy: llazy(c, room);
  invariant kept: forall k: string :: old(has(c.cache, k)) ==> has(c.cache, k);
  invariant [i: progress] only: forall k: string :: has(c.cache, k) && !old(has(c.cache, k)) ==> (exists j: int :: 0 <= j && j < i && k == lkey(room, us[j]));
  invariant rooms: forall k: string :: k != room ==> (has(c.rooms, k) <==> old(has(c.rooms, k)));
  ensures all: forall j: int :: 0 <= j && j < len(us) ==> lset(c, room, us[j]);
  ensures lazy: llazy(c, room);
  ensures kept: forall k: string :: old(has(c.cache, k)) ==> has(c.cache, k);
  ensures only: forall k: string :: has(c.cache, k) && !old(has(c.cache, k)) ==> (exists j: int :: 0 <= j && j < len(us) && k == lkey(room, us[j]));
  ensures rooms: forall k: string :: k != room ==> (has(c.rooms, k) <==> old(has(c.rooms, k)));
}

def memberEv(s, up) = pure<json.RawMessage>("gc:state", s.globalCache, rid2(up), lp(s, rid2(up)), "m.room.member", evu(up).EventData.Sender);
def reqs(resp, r) = get(resp.Rooms, r).RequiredState;
func "handler.connStateLive.processLiveUpdate@lazy"(s, ctx, up, response) returns (sent) {
  requires wf: s != nil && s.ConnState != nil && s.lists != nil && s.muxedReq != nil && s.loadPositions != nil && s.userCache != nil && s.lazyCache != nil && s.lazyCache.cache != nil && s.lazyCache.rooms != nil && s.lazyCache.cache != s.lazyCache.rooms && s.globalCache != nil && response != nil && response.Rooms != nil && response.Lists != nil;
  requires ev: is<*caches.RoomEventUpdate>(up) ==> evu(up) != nil && evu(up).EventData != nil && rid2(evu(up).RoomUpdate) == rid2(up);
  ensures never_forgotten: forall k: string :: old(has(s.lazyCache.cache, k)) ==> has(s.lazyCache.cache, k);
  // every delivered event of a lazily loaded room leaves its sender known to the client
  ensures known: is<*caches.RoomEventUpdate>(up) && !evu(up).EventData.AlwaysProcess && !old(ign(s, up)) && sent && evu(up).EventData.Event != nil && evu(up).EventData.NID > bltPos[rid2(up)] && llazy(s.lazyCache, rid2(up)) && !same(memberEv(s, up), zero<json.RawMessage>()) ==> lset(s.lazyCache, rid2(up), evu(up).EventData.Sender);
  // and a sender is only marked as known along with the member event
  ensures with_member: forall k: string :: has(s.lazyCache.cache, k) && !bltLazy[k] && is<*caches.RoomEventUpdate>(up) && !old(ign(s, up)) ==> k == lkey(rid2(up), evu(up).EventData.Sender) && len(reqs(response, rid2(up))) > 0 && same(reqs(response, rid2(up))[len(reqs(response, rid2(up))) - 1], memberEv(s, up));
}
