property R20;

// what connections are told: how many updates each got, and the room and user data of the last one
ghost ucN: gmap[int]int;
ghost ucTotal: int;
ghost ucRoom: gmap[int]string;
trusted caches.UserCacheListener.OnRoomUpdate(l, ctx, up) {
  modifies ucN, ucTotal, ucRoom;
  ensures ucN == store(old(ucN), l.data, old(ucN[l.data]) + 1);
  ensures ucTotal == old(ucTotal) + 1;
}
def urd(c, r) = get(c.roomToData, r);
def wfu(c) = c != nil && c.roomToData != nil && c.globalCache != nil && c.roomToDataMu != nil && c.listenersMu != nil && c.ignoredUsersMu != nil;
def wfl(c) = c.listeners != nil && (forall a, b: int :: a != b && has(c.listeners, a) && has(c.listeners, b) ==> get(c.listeners, a).data != get(c.listeners, b).data);

func caches.UserCache.LoadRoomData(c, r) returns (d) {
  requires wfu(c);
  modifies nothing;
  ensures known: has(c.roomToData, r) ==> d == urd(c, r);
  ensures blank: !has(c.roomToData, r) ==> !d.IsDM && !d.IsInvite && !d.HasLeft && d.NotificationCount == 0 && d.HighlightCount == 0 && d.Invite == nil;
}
func "caches.UserCache.ShouldIgnore@exact"(c, u) returns (ok) {
  requires wfu(c);
  modifies nothing;
  ensures exact: ok <==> has(c.ignoredUsers, u);
}
func caches.UserCache.Subscribe(c, l) returns (id) {
  requires wfu(c) && c.listeners != nil;
  modifies c.id, entries(c.listeners);
  ensures filed: get(c.listeners, id) == l && has(c.listeners, id);
  ensures fresh_id: id == old(c.id) && c.id > old(c.id);
  ensures others: forall k: int :: k != id ==> (has(c.listeners, k) <==> old(has(c.listeners, k))) && get(c.listeners, k) == old(get(c.listeners, k));
}
func caches.UserCache.Unsubscribe(c, id) {
  requires wfu(c) && c.listeners != nil;
  modifies entries(c.listeners);
  ensures gone: !has(c.listeners, id);
  ensures others: forall k: int :: k != id ==> (has(c.listeners, k) <==> old(has(c.listeners, k))) && get(c.listeners, k) == old(get(c.listeners, k));
}
func caches.UserCache.emitOnRoomUpdate(c, ctx, up) {
  modular;
  requires wfu(c) && wfl(c);
  modifies ucN, ucTotal, ucRoom;
  invariant [v: visited int, s: phi []caches.UserCacheListener] b1: forall k: int :: k in v && has(c.listeners, k) ==> (exists j: int :: 0 <= j && j < len(s) && s[j].data == get(c.listeners, k).data);
  invariant [v: visited int, s: phi []caches.UserCacheListener] b2: forall j: int :: 0 <= j && j < len(s) ==> (exists k: int :: k in v && has(c.listeners, k) && s[j].data == get(c.listeners, k).data);
  invariant [v: visited int, s: phi []caches.UserCacheListener] b4: forall k: int :: k in v ==> has(c.listeners, k);
  invariant [s: phi []caches.UserCacheListener] b3: forall i: int :: forall j: int :: 0 <= i && i < j && j < len(s) ==> s[i].data != s[j].data;
  invariant [i: progress, s: var []caches.UserCacheListener] n1: forall j: int :: forall x: int :: 0 <= j && j < len(s) && s[j].data == x ==> ucN[x] == old(ucN[x]) + ite(j < i, 1, 0);
  invariant [i: progress, s: var []caches.UserCacheListener] n2: forall x: int :: (forall j: int :: 0 <= j && j < len(s) ==> s[j].data != x) ==> ucN[x] == old(ucN[x]);
  ensures once: forall k: int :: forall x: int :: has(c.listeners, k) && get(c.listeners, k).data == x ==> ucN[x] == old(ucN[x]) + 1;
  ensures nobody: forall x: int :: (forall k: int :: has(c.listeners, k) ==> get(c.listeners, k).data != x) ==> ucN[x] == old(ucN[x]);
}

def urSame(a, b) = a.IsDM == b.IsDM && a.IsInvite == b.IsInvite && a.HasLeft == b.HasLeft && a.NotificationCount == b.NotificationCount && a.HighlightCount == b.HighlightCount && a.Invite == b.Invite && same(a.Tags, b.Tags) && same(a.Spaces, b.Spaces);
def toldOnce(c) = forall k: int :: forall x: int :: has(c.listeners, k) && get(c.listeners, k).data == x ==> ucN[x] == old(ucN[x]) + 1;
def blankUnless(c, r) = !has(c.roomToData, r) ==> !urd(c, r).IsDM;
func caches.UserCache.OnUnreadCounts(c, ctx, r, h, n) {
  requires wfu(c) && wfl(c);
  modifies entries(c.roomToData), ucN, ucTotal, ucRoom;
  ensures h_set: h != nil ==> urd(c, r).HighlightCount == old(*h);
  ensures n_set: n != nil ==> urd(c, r).NotificationCount == old(*n);
  ensures h_kept: h == nil ==> urd(c, r).HighlightCount == ite(old(has(c.roomToData, r)), old(urd(c, r).HighlightCount), 0);
  ensures n_kept: n == nil ==> urd(c, r).NotificationCount == ite(old(has(c.roomToData, r)), old(urd(c, r).NotificationCount), 0);
  ensures rest: old(has(c.roomToData, r)) ==> urd(c, r).IsDM == old(urd(c, r).IsDM) && urd(c, r).IsInvite == old(urd(c, r).IsInvite) && urd(c, r).HasLeft == old(urd(c, r).HasLeft) && urd(c, r).Invite == old(urd(c, r).Invite) && same(urd(c, r).Tags, old(urd(c, r).Tags)) && same(urd(c, r).Spaces, old(urd(c, r).Spaces));
  ensures others: forall q: string :: q != r ==> (has(c.roomToData, q) <==> old(has(c.roomToData, q))) && urd(c, q) == old(urd(c, q));
  ensures told: toldOnce(c);
}
func caches.UserCache.OnReceipt(c, ctx, rc) {
  requires wfu(c) && wfl(c);
  modifies ucN, ucTotal, ucRoom;
  ensures told: toldOnce(c);
}
func caches.UserCache.OnLeftRoom(c, ctx, r, ev) {
  requires wfu(c) && wfl(c);
  modifies entries(c.roomToData), ucN, ucTotal, ucRoom;
  ensures left: urd(c, r).HasLeft && !urd(c, r).IsInvite && urd(c, r).Invite == nil && urd(c, r).HighlightCount == 0;
  ensures rest: old(has(c.roomToData, r)) ==> urd(c, r).IsDM == old(urd(c, r).IsDM) && urd(c, r).NotificationCount == old(urd(c, r).NotificationCount) && same(urd(c, r).Tags, old(urd(c, r).Tags)) && same(urd(c, r).Spaces, old(urd(c, r).Spaces));
  ensures others: forall q: string :: q != r ==> (has(c.roomToData, q) <==> old(has(c.roomToData, q))) && urd(c, q) == old(urd(c, q));
  ensures told: toldOnce(c);
}
def uJoin(c, ed) = ed.EventType == "m.room.member" && ed.StateKey != nil && *ed.StateKey == c.UserID;
trusted caches.JoinChecker.IsUserJoined(j, u, r) returns (ok) { option pure; modifies nothing; ensures v: ok == pure<bool>("jc:joined", j.data, u, r); }
func caches.UserCache.OnSpaceUpdate(c, ctx, parent, child, deleted, ed) {
  modular;
  requires wfu(c) && wfl(c) && c.joinChecker != nil;
  modifies entries(c.roomToData), ucN, ucTotal, ucRoom;
  invariant [v: visited string, m: written map[string]struct{}] copy: forall k: string :: has(m, k) <==> k in v;
  ensures exact: forall k: string :: has(urd(c, child).Spaces, k) <==> ite(k == parent, !deleted, old(has(c.roomToData, child)) && old(has(urd(c, child).Spaces, k)));
  ensures rest: old(has(c.roomToData, child)) ==> urd(c, child).IsDM == old(urd(c, child).IsDM) && urd(c, child).IsInvite == old(urd(c, child).IsInvite) && urd(c, child).HasLeft == old(urd(c, child).HasLeft) && urd(c, child).Invite == old(urd(c, child).Invite) && urd(c, child).NotificationCount == old(urd(c, child).NotificationCount) && urd(c, child).HighlightCount == old(urd(c, child).HighlightCount) && same(urd(c, child).Tags, old(urd(c, child).Tags));
  ensures snapshot: fresh(urd(c, child).Spaces);
  ensures others: forall q: string :: q != child ==> (has(c.roomToData, q) <==> old(has(c.roomToData, q))) && urd(c, q) == old(urd(c, q));
  ensures told: pure<bool>("jc:joined", c.joinChecker.data, c.UserID, child) ==> toldOnce(c);
  ensures untold: !pure<bool>("jc:joined", c.joinChecker.data, c.UserID, child) ==> ucN == old(ucN);
}
func caches.UserCache.OnNewEvent(c, ctx, ed) {
  requires wfu(c) && wfl(c) && c.joinChecker != nil && ed != nil;
  requires noself: !(ed.EventType == "m.space.child" && ed.StateKey != nil && *ed.StateKey == ed.RoomID);
  modifies entries(c.roomToData), ucN, ucTotal, ucRoom;
  ensures invite: old(has(c.roomToData, ed.RoomID)) ==> (urd(c, ed.RoomID).IsInvite <==> old(urd(c, ed.RoomID).IsInvite) && (uJoin(c, ed) ==> gContent(ed, "membership").Str == "invite"));
  ensures rejoined: uJoin(c, ed) && gContent(ed, "membership").Str == "join" ==> !urd(c, ed.RoomID).HasLeft && !urd(c, ed.RoomID).IsInvite;
  ensures left_kept: old(has(c.roomToData, ed.RoomID)) && !(uJoin(c, ed) && gContent(ed, "membership").Str == "join") ==> urd(c, ed.RoomID).HasLeft == old(urd(c, ed.RoomID).HasLeft);
  ensures counts: old(has(c.roomToData, ed.RoomID)) ==> urd(c, ed.RoomID).NotificationCount == old(urd(c, ed.RoomID).NotificationCount) && urd(c, ed.RoomID).HighlightCount == ite(old(urd(c, ed.RoomID).IsInvite) && !urd(c, ed.RoomID).IsInvite, 0, old(urd(c, ed.RoomID).HighlightCount));
  ensures rest: old(has(c.roomToData, ed.RoomID)) ==> urd(c, ed.RoomID).IsDM == old(urd(c, ed.RoomID).IsDM) && same(urd(c, ed.RoomID).Tags, old(urd(c, ed.RoomID).Tags)) && same(urd(c, ed.RoomID).Spaces, old(urd(c, ed.RoomID).Spaces));
  ensures child: ed.EventType == "m.space.child" && ed.StateKey != nil ==> (has(urd(c, *ed.StateKey).Spaces, ed.RoomID) <==> pure<bool>("fn:github.com/tidwall/gjson.Result.IsArray", gContent(ed, "via")));
  ensures others: forall q: string :: q != ed.RoomID && !(ed.EventType == "m.space.child" && ed.StateKey != nil && *ed.StateKey == q) ==> (has(c.roomToData, q) <==> old(has(c.roomToData, q))) && urd(c, q) == old(urd(c, q));
  ensures told: !(ed.EventType == "m.space.child" && ed.StateKey != nil) ==> toldOnce(c);
}
def ieGet(e, p) = pure<gjson.Result>("fn:github.com/tidwall/gjson.Result.Get", pure<gjson.Result>("fn:github.com/tidwall/gjson.ParseBytes", e), p);
def ownInv(u, e) = ieGet(e, "type").Str == "m.room.member" && ieGet(e, "state_key").Str == u;
func caches.NewInviteData(ctx, u, r, evs) returns (i) {
  modular;
  modifies nothing;
  invariant [n: progress, p: var *caches.InviteData] own: p.InviteEvent != nil <==> (exists j: int :: 0 <= j && j < n && ownInv(u, evs[j]));
  invariant [n: progress, p: var *caches.InviteData] kept: p.roomID == r && same(p.InviteState, evs);
  invariant [n: progress, p: var *caches.InviteData] enc: p.Encrypted <==> (exists j: int :: 0 <= j && j < n && ieGet(evs[j], "type").Str == "m.room.encryption");
  ensures enc: i != nil ==> (i.Encrypted <==> (exists j: int :: 0 <= j && j < len(evs) && ieGet(evs[j], "type").Str == "m.room.encryption"));
  ensures when: i != nil <==> (exists j: int :: 0 <= j && j < len(evs) && ownInv(u, evs[j]));
  ensures about: i != nil ==> fresh(i) && i.roomID == r && i.InviteEvent != nil && same(i.InviteState, evs);
}
func caches.UserCache.OnInvite(c, ctx, r, evs) {
  requires wfu(c) && wfl(c);
  modifies entries(c.roomToData), ucN, ucTotal, ucRoom;
  ensures invited: urd(c, r) != old(urd(c, r)) ==> urd(c, r).IsInvite && !urd(c, r).HasLeft && urd(c, r).HighlightCount == 1 && urd(c, r).Invite != nil && urd(c, r).IsDM == urd(c, r).Invite.IsDM && urd(c, r).Invite.roomID == r;
  ensures rest: old(has(c.roomToData, r)) ==> urd(c, r).NotificationCount == old(urd(c, r).NotificationCount) && same(urd(c, r).Tags, old(urd(c, r).Tags)) && same(urd(c, r).Spaces, old(urd(c, r).Spaces));
  ensures others: forall q: string :: q != r ==> (has(c.roomToData, q) <==> old(has(c.roomToData, q))) && urd(c, q) == old(urd(c, q));
  ensures told: ucN == old(ucN) && urd(c, r) == old(urd(c, r)) || toldOnce(c);
}
func caches.UserCache.Invites(c) returns (m) {
  requires wfu(c);
  modifies nothing;
  invariant [v: visited string, m: written map[string]caches.UserRoomData] sofar: forall k: string :: has(m, k) <==> k in v && urd(c, k).IsInvite && urd(c, k).Invite != nil;
  invariant [v: visited string, m: written map[string]caches.UserRoomData] vals: forall k: string :: has(m, k) ==> get(m, k) == urd(c, k);
  ensures exact: forall k: string :: has(m, k) <==> has(c.roomToData, k) && urd(c, k).IsInvite && urd(c, k).Invite != nil;
  ensures vals: forall k: string :: has(m, k) ==> get(m, k) == urd(c, k);
}
func caches.UserCache.LoadRooms(c, ids) returns (m) {
  requires wfu(c);
  modifies nothing;
  invariant [i: progress, m: written map[string]caches.UserRoomData] vals: forall k: string :: has(m, k) ==> (has(c.roomToData, k) ==> get(m, k) == urd(c, k));
  invariant [i: progress, m: written map[string]caches.UserRoomData] dom: forall j: int :: 0 <= j && j < i ==> has(m, ids[j]);
  ensures all: forall j: int :: 0 <= j && j < len(ids) ==> has(m, ids[j]);
  ensures vals: forall k: string :: has(m, k) && has(c.roomToData, k) ==> get(m, k) == urd(c, k);
}
