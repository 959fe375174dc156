property R27;

def inscope(rooms, lists, id, ctx) =
     id in ite(len(rooms) > 0 && rooms[0] == "*", ctx.AllSubscribedRooms, rooms)
  || (exists j: int :: 0 <= j && j < len(get(ctx.RoomIDsToLists, id)) && get(ctx.RoomIDsToLists, id)[j] in ite(len(lists) > 0 && lists[0] == "*", ctx.AllLists, lists));

func extensions.Core.RoomInScope(r, id, ctx) returns (ok) {
  modular;
  requires r != nil;
  modifies nothing;
  invariant [i: progress] m0: forall j: int :: 0 <= j && j < i ==> ite(len(r.Rooms) > 0 && r.Rooms[0] == "*", ctx.AllSubscribedRooms, r.Rooms)[j] != id;
  invariant [i: progress] m1: forall j: int :: 0 <= j && j < i ==> !(get(ctx.RoomIDsToLists, id)[j] in ite(len(r.Lists) > 0 && r.Lists[0] == "*", ctx.AllLists, r.Lists));
  invariant [i: progress, o: oprogress] m2: forall j: int :: 0 <= j && j < i ==> get(ctx.RoomIDsToLists, id)[o] != ite(len(r.Lists) > 0 && r.Lists[0] == "*", ctx.AllLists, r.Lists)[j];
  ensures exact: ok <==> inscope(r.Rooms, r.Lists, id, ctx);
}
func extensions.Core.InterpretAsInitial(r) {
  requires r != nil;
  modifies r.Lists, r.Rooms;
  ensures lists: old(r.Lists) == nil ==> len(r.Lists) == 1 && r.Lists[0] == "*";
  ensures lists_kept: old(r.Lists) != nil ==> same(r.Lists, old(r.Lists));
  ensures rooms: old(r.Rooms) == nil ==> len(r.Rooms) == 1 && r.Rooms[0] == "*";
  ensures rooms_kept: old(r.Rooms) != nil ==> same(r.Rooms, old(r.Rooms));
}
trusted extensions.GenericRequest.IsEnabled(g) returns (e) { option pure; modifies nothing; ensures e: same(e, pure<*bool>("gen:IsEnabled", g)); }
trusted extensions.GenericRequest.OnlyLists(g) returns (e) { option pure; modifies nothing; ensures e: same(e, pure<[]string>("gen:OnlyLists", g)); }
trusted extensions.GenericRequest.OnlyRooms(g) returns (e) { option pure; modifies nothing; ensures e: same(e, pure<[]string>("gen:OnlyRooms", g)); }
func extensions.Core.ApplyDelta(r, g) {
  requires r != nil;
  modifies r.Enabled, r.Lists, r.Rooms;
  ensures none: g == nil ==> same(*r, old(*r));
  ensures enabled: g != nil ==> same(r.Enabled, ite(pure<*bool>("gen:IsEnabled", g) == nil, old(r.Enabled), pure<*bool>("gen:IsEnabled", g)));
  ensures lists: g != nil ==> same(r.Lists, ite(pure<[]string>("gen:OnlyLists", g) == nil, old(r.Lists), pure<[]string>("gen:OnlyLists", g)));
  ensures rooms: g != nil ==> same(r.Rooms, ite(pure<[]string>("gen:OnlyRooms", g) == nil, old(r.Rooms), pure<[]string>("gen:OnlyRooms", g)));
}
func extensions.Core.IsEnabled(r) returns (e) { requires r != nil; modifies nothing; ensures e: same(e, r.Enabled); }
func extensions.Core.OnlyLists(r) returns (e) { requires r != nil; modifies nothing; ensures e: same(e, r.Lists); }
func extensions.Core.OnlyRooms(r) returns (e) { requires r != nil; modifies nothing; ensures e: same(e, r.Rooms); }
func extensions.ExtensionEnabled(g) returns (ok) {
  requires g != nil;
  modifies nothing;
  ensures exact: ok <==> pure<*bool>("gen:IsEnabled", g) != nil && *pure<*bool>("gen:IsEnabled", g);
}

// What the database returns for a set of rooms belongs to that set (SQL: room_id = ANY($2)).
trusted state.Storage.AccountDatas(s, u, rooms) returns (d, err) {
  option pure;
  modifies nothing;
  ensures scope: len(rooms) > 0 ==> (forall j: int :: 0 <= j && j < len(d) ==> d[j].RoomID in rooms);
}
trusted state.ReceiptTable.SelectReceiptsForUser(s, rooms, u) returns (m, err) {
  option pure;
  modifies nothing;
  ensures scope: forall k: string :: has(m, k) ==> k in rooms;
}
trusted state.ReceiptTable.SelectReceiptsForEvents(s, room, evs) returns (l, err) { option pure; modifies nothing; }
trusted state.PackReceiptsIntoEDU(l) returns (b, err) { option pure; modifies nothing; }
trusted caches.GlobalCache.LoadRooms(c, ctx, ids) returns (m) { option pure; modifies nothing; }

func extensions.AccountDataRequest.ProcessInitial(r, c, res, x) {
  requires r != nil && res != nil && x.Handler != nil && x.Handler.Store != nil;
  modifies res.AccountData;
  invariant [v: visited string, s: phi []string] a0: forall j: int :: 0 <= j && j < len(s) ==> has(x.RoomIDToTimeline, s[j]) && inscope(r.Rooms, r.Lists, s[j], x);
  invariant [m: written map[string][]json.RawMessage] a1: forall k: string :: has(m, k) ==> has(x.RoomIDToTimeline, k) && inscope(r.Rooms, r.Lists, k, x);
  ensures scope: !same(res.AccountData, old(res.AccountData)) ==> (forall k: string :: has(res.AccountData.Rooms, k) ==> has(x.RoomIDToTimeline, k) && inscope(r.Rooms, r.Lists, k, x));
  ensures global: !same(res.AccountData, old(res.AccountData)) && !x.IsInitial ==> len(res.AccountData.Global) == 0;
}
func extensions.TypingRequest.ProcessInitial(r, c, res, x) {
  requires r != nil && res != nil && x.Handler != nil && x.Handler.GlobalCache != nil;
  modifies res.Typing;
  invariant [m: written map[string]json.RawMessage] a1: forall k: string :: has(m, k) ==> has(x.RoomIDToTimeline, k) && inscope(r.Rooms, r.Lists, k, x);
  ensures scope: !same(res.Typing, old(res.Typing)) ==> (forall k: string :: has(res.Typing.Rooms, k) ==> has(x.RoomIDToTimeline, k) && inscope(r.Rooms, r.Lists, k, x));
}
func extensions.ReceiptsRequest.ProcessInitial(r, c, res, x) {
  requires r != nil && res != nil && x.Handler != nil && x.Handler.Store != nil && x.Handler.Store.ReceiptTable != nil;
  modifies res.Receipts;
  invariant [s: phi []string] a0: forall j: int :: 0 <= j && j < len(s) ==> has(x.RoomIDToTimeline, s[j]) && inscope(r.Rooms, r.Lists, s[j], x);
  invariant [m: written map[string][]internal.Receipt] a1: forall k: string :: has(m, k) ==> has(x.RoomIDToTimeline, k) && inscope(r.Rooms, r.Lists, k, x);
  invariant [m: written map[string]json.RawMessage] a2: forall k: string :: has(m, k) ==> has(x.RoomIDToTimeline, k) && inscope(r.Rooms, r.Lists, k, x);
  ensures scope: !same(res.Receipts, old(res.Receipts)) ==> (forall k: string :: has(res.Receipts.Rooms, k) ==> has(x.RoomIDToTimeline, k) && inscope(r.Rooms, r.Lists, k, x));
}

trusted caches.RoomUpdate.RoomID(u) returns (id) { option pure; modifies nothing; ensures id: id == pure<string>("gen:RoomID", u); }
fn gmdOf(int): *internal.RoomMetadata;
fn urdOf(int): *caches.UserRoomData;
trusted caches.RoomUpdate.GlobalRoomMetadata(u) returns (m) { option pure; modifies nothing; ensures m == gmdOf(u.data) && m != nil; }
trusted caches.RoomUpdate.UserRoomMetadata(u) returns (m) { option pure; modifies nothing; ensures m == urdOf(u.data) && m != nil; }
trusted state.UnpackReceiptsFromEDU(room, edu) returns (pub, priv, err) { option pure; modifies nothing; }
func extensions.TypingRequest.AppendLive(r, c, res, x, up) {
  requires r != nil && res != nil && (res.Typing != nil ==> res.Typing.Rooms != nil);
  modifies res.Typing, entries(res.Typing.Rooms);
  ensures scope: res.Typing != nil ==> (forall k: string :: has(res.Typing.Rooms, k) ==> old(res.Typing != nil) && old(has(res.Typing.Rooms, k)) || inscope(r.Rooms, r.Lists, k, x));
  ensures kept: old(res.Typing != nil) ==> same(res.Typing, old(res.Typing)) && (forall k: string :: old(has(res.Typing.Rooms, k)) ==> has(res.Typing.Rooms, k));
}
func extensions.ReceiptsRequest.AppendLive(r, c, res, x, up) {
  requires r != nil && res != nil && (res.Receipts != nil ==> res.Receipts.Rooms != nil);
  modifies res.Receipts, entries(res.Receipts.Rooms);
  ensures scope: res.Receipts != nil ==> (forall k: string :: has(res.Receipts.Rooms, k) ==> old(res.Receipts != nil) && old(has(res.Receipts.Rooms, k)) || inscope(r.Rooms, r.Lists, k, x));
  ensures kept: old(res.Receipts != nil) ==> same(res.Receipts, old(res.Receipts)) && (forall k: string :: old(has(res.Receipts.Rooms, k)) ==> has(res.Receipts.Rooms, k));
}
func extensions.AccountDataRequest.AppendLive(r, c, res, x, up) {
  requires r != nil && res != nil && x.Handler != nil && x.Handler.Store != nil && (res.AccountData != nil ==> res.AccountData.Rooms != nil && res.AccountData.loadedRooms != nil);
  modifies res.AccountData, res.AccountData.Global, entries(res.AccountData.Rooms), entries(res.AccountData.loadedRooms);
  invariant [v: visited string] a1: res.AccountData != nil ==> (forall k: string :: has(res.AccountData.Rooms, k) ==> old(res.AccountData != nil) && old(has(res.AccountData.Rooms, k)) || inscope(r.Rooms, r.Lists, k, x));
  invariant [v: visited string] a3: forall k: string :: k in v ==> inscope(r.Rooms, r.Lists, k, x);
  invariant [v: visited string] a2: old(res.AccountData != nil) ==> same(res.AccountData.Rooms, old(res.AccountData.Rooms)) && (forall k: string :: old(has(res.AccountData.Rooms, k)) ==> has(res.AccountData.Rooms, k));
  ensures scope: res.AccountData != nil ==> (forall k: string :: has(res.AccountData.Rooms, k) ==> old(res.AccountData != nil) && old(has(res.AccountData.Rooms, k)) || inscope(r.Rooms, r.Lists, k, x));
  ensures kept: old(res.AccountData != nil) ==> same(res.AccountData, old(res.AccountData)) && (forall k: string :: old(has(res.AccountData.Rooms, k)) ==> has(res.AccountData.Rooms, k));
  ensures global: res.AccountData != nil && !is<*caches.AccountDataUpdate>(up) ==> len(res.AccountData.Global) == ite(old(res.AccountData == nil), 0, old(len(res.AccountData.Global)));
}
