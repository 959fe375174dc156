property R04;

def jU(t, r) = get(t.roomIDToJoinedUsers, r);
def jR(t, u) = get(t.userIDToJoinedRooms, u);
def iU(t, r) = get(t.roomIDToInvitedUsers, r);
def joined(t, u, r) = has(jU(t, r), u);
def invited(t, u, r) = has(iU(t, r), u);
def trackerInv(t) =
  t.roomIDToJoinedUsers != nil && t.userIDToJoinedRooms != nil && t.roomIDToInvitedUsers != nil
  && t.roomIDToJoinedUsers != t.userIDToJoinedRooms && t.roomIDToJoinedUsers != t.roomIDToInvitedUsers && t.userIDToJoinedRooms != t.roomIDToInvitedUsers
  && (forall u, r: string :: has(jU(t, r), u) <==> has(jR(t, u), r))
  && (forall a, b: string :: a != b ==> jU(t, a) != jU(t, b) || jU(t, a) == nil)
  && (forall a, b: string :: a != b ==> jR(t, a) != jR(t, b) || jR(t, a) == nil)
  && (forall a, b: string :: a != b ==> iU(t, a) != iU(t, b) || iU(t, a) == nil)
  && (forall a, b: string :: jU(t, a) != jR(t, b) || jU(t, a) == nil)
  && (forall a, b: string :: iU(t, a) != jR(t, b) || iU(t, a) == nil)
  && (forall a, b: string :: iU(t, a) != jU(t, b) || iU(t, a) == nil);

func sync3.JoinedRoomsTracker.IsUserJoined(t, u, r) returns (ok) {
  requires trackerInv(t);
  modifies nothing;
  invariant [v: visited string] notyet: !(u in v);
  ensures exact: ok <==> joined(t, u, r);
}

func sync3.NewJoinedRoomsTracker() returns (t) {
  modifies nothing;
  ensures inv: t != nil && trackerInv(t);
  ensures empty: forall u, r: string :: !joined(t, u, r) && !invited(t, u, r);
}
func sync3.JoinedRoomsTracker.JoinedRoomsForUser(t, u) returns (rs) {
  requires trackerInv(t);
  modifies nothing;
  invariant [v: visited string, n: var int, o: var []string] filled: forall k: int :: 0 <= k && k < n ==> joined(t, u, o[k]);
  invariant [v: visited string, n: var int, o: var []string] all: forall q: string :: q in v ==> (exists k: int :: 0 <= k && k < n && o[k] == q);
  ensures sound: forall k: int :: 0 <= k && k < len(rs) ==> joined(t, u, rs[k]);
  ensures complete: forall q: string :: joined(t, u, q) ==> q in rs;
}
func sync3.JoinedRoomsTracker.ReloadMembershipsForRoom(t, r, js, is) {
  requires trackerInv(t);
  invariant [s: var map[string]struct{}, i: progress] joined_so_far: forall u: string :: has(s, u) <==> (exists k: int :: 0 <= k && k < i && js[k] == u);
  invariant [s: var map[string]struct{}, i: progress] invited_so_far: forall u: string :: has(s, u) <==> (exists k: int :: 0 <= k && k < i && is[k] == u);
  invariant kept_jr: forall a: string :: old(jR(t, a)) != nil ==> jR(t, a) == old(jR(t, a));
  invariant fresh_jr: forall a: string :: old(jR(t, a)) == nil && jR(t, a) != nil ==> fresh(jR(t, a));
  invariant jr_inj: forall a, b: string :: a != b ==> jR(t, a) != jR(t, b) || jR(t, a) == nil;
  invariant jr_ju: forall a, b: string :: jU(t, a) != jR(t, b) || jU(t, a) == nil;
  invariant jr_iu: forall a, b: string :: iU(t, a) != jR(t, b) || iU(t, a) == nil;
  invariant ju_same: forall a: string :: jU(t, a) == pre(jU(t, a)) && iU(t, a) == pre(iU(t, a));
  invariant ju_contents: forall u, q: string :: has(jU(t, q), u) <==> pre(has(jU(t, q), u));
  invariant iu_contents: forall u, q: string :: has(iU(t, q), u) <==> pre(has(iU(t, q), u));
  invariant [v: visited string] rooms_add: forall u, q: string :: has(jR(t, u), q) <==> pre(has(jR(t, u), q)) || (q == r && u in v);
  invariant oj_contents: forall u: string :: has(old(jU(t, r)), u) <==> old(joined(t, u, r));
  invariant [v: visited string] vis_sub: forall u: string :: u in v ==> has(jU(t, r), u);
  invariant [v: visited string] both_ways: forall u, q: string :: has(jR(t, u), q) <==> has(jU(t, q), u) || (q == r && old(joined(t, u, r)) && !(u in v));
  ensures inv: trackerInv(t);
  ensures joins: forall a, b: string :: joined(t, a, b) <==> ite(b == r, a in js, old(joined(t, a, b)));
  ensures invites: forall a, b: string :: invited(t, a, b) <==> ite(b == r, a in is, old(invited(t, a, b)));
}

property R04, R05;
func sync3.JoinedRoomsTracker.UserLeftRoom(t, u, r) returns (was) {
  modular;
  modifies all<map[string]sync3.set>(), all<map[string]struct{}>();
  requires trackerInv(t);
  ensures inv: trackerInv(t);
  ensures left: forall a, b: string :: joined(t, a, b) <==> old(joined(t, a, b)) && !(a == u && b == r);
  ensures left_inv: forall a, b: string :: invited(t, a, b) <==> old(invited(t, a, b)) && !(a == u && b == r);
  ensures res: was <==> old(joined(t, u, r) || invited(t, u, r));
}

func sync3.JoinedRoomsTracker.UserJoinedRoom(t, u, r) returns (newly) {
  modular;
  modifies all<map[string]sync3.set>(), all<map[string]struct{}>();
  requires trackerInv(t);
  ensures inv: trackerInv(t);
  ensures joins: forall a, b: string :: joined(t, a, b) <==> old(joined(t, a, b)) || (b == r && a == u);
  ensures uninvites: forall a, b: string :: invited(t, a, b) <==> old(invited(t, a, b)) && !(b == r && a == u);
  ensures res: newly <==> !old(joined(t, u, r));
}
func sync3.JoinedRoomsTracker.NumInvitedUsersForRoom(t, r) returns (n) {
  modular;
  requires trackerInv(t);
  modifies nothing;
  ensures n: n == len(iU(t, r));
}
func sync3.JoinedRoomsTracker.UsersJoinedRoom(t, us, r) returns (newly) {
  modular;
  modifies all<map[string]sync3.set>(), all<map[string]struct{}>();
  requires trackerInv(t);
  invariant [i: progress] all_were: forall k: int :: 0 <= k && k < i ==> joined(t, us[k], r);
  invariant inv_a: t.roomIDToJoinedUsers != nil && t.userIDToJoinedRooms != nil && t.roomIDToInvitedUsers != nil && t.roomIDToJoinedUsers != t.userIDToJoinedRooms && t.roomIDToJoinedUsers != t.roomIDToInvitedUsers && t.userIDToJoinedRooms != t.roomIDToInvitedUsers;
  invariant same_ju: forall a: string :: jU(t, a) == old(jU(t, a));
  invariant same_iu: forall a: string :: iU(t, a) == old(iU(t, a));
  invariant inv_jr: forall a: string :: old(jR(t, a)) != nil ==> jR(t, a) == old(jR(t, a));
  invariant inv_jr2: forall a: string :: old(jR(t, a)) == nil && jR(t, a) != nil ==> fresh(jR(t, a));
  invariant [s: var map[string]struct{}] distinct2: forall b: string :: s != jR(t, b) || s == nil;
  invariant jr_inj: forall a, b: string :: a != b ==> jR(t, a) != jR(t, b) || jR(t, a) == nil;
  invariant [s: var map[string]struct{}, i: progress] set_contents: forall u: string :: has(s, u) <==> old(joined(t, u, r)) || (exists k: int :: 0 <= k && k < i && us[k] == u);
  invariant [i: progress] rooms_contents: forall u, q: string :: has(jR(t, u), q) <==> old(joined(t, u, q)) || (q == r && (exists k: int :: 0 <= k && k < i && us[k] == u));
  invariant others: forall u, q: string :: q != r ==> (has(jU(t, q), u) <==> old(joined(t, u, q)));
  invariant [i: progress] inv_contents: forall u, q: string :: has(iU(t, q), u) <==> old(invited(t, u, q)) && !(q == r && (exists k: int :: 0 <= k && k < i && us[k] == u));
  ensures inv: trackerInv(t);
  ensures joins: forall a, b: string :: joined(t, a, b) <==> old(joined(t, a, b)) || (b == r && a in us);
  ensures uninvites: forall a, b: string :: invited(t, a, b) <==> old(invited(t, a, b)) && !(b == r && a in us);
  ensures res: newly <==> (exists k: int :: 0 <= k && k < len(us) && !old(joined(t, us[k], r)));
}

func sync3.JoinedRoomsTracker.UsersInvitedToRoom(t, us, r) {
  modular;
  modifies all<map[string]sync3.set>(), all<map[string]struct{}>();
  requires trackerInv(t);
  invariant [s: var map[string]struct{}, i: progress] contents: forall u: string :: has(s, u) <==> old(invited(t, u, r)) || (exists k: int :: 0 <= k && k < i && us[k] == u);
  invariant others: forall u, q: string :: q != r ==> (has(iU(t, q), u) <==> old(invited(t, u, q)));
  ensures inv: trackerInv(t);
  ensures joins: forall a, b: string :: joined(t, a, b) <==> old(joined(t, a, b));
  ensures invites: forall a, b: string :: invited(t, a, b) <==> old(invited(t, a, b)) || (b == r && a in us);
}
func sync3.JoinedRoomsTracker.JoinedUsersForRoom(t, r, filter) returns (us, n) {
  modular;
  requires trackerInv(t);
  modifies nothing;
  invariant [o: var []string] sound: forall k: int :: 0 <= k && k < len(o) ==> joined(t, o[k], r) && (filter == nil || pure<bool>("callback", filter, o[k]));
  invariant [v: visited string, o: var []string] all: forall q: string :: q in v && (filter == nil || pure<bool>("callback", filter, q)) ==> (exists k: int :: 0 <= k && k < len(o) && o[k] == q);
  invariant [v: visited string, o: var []string] from_visited: forall k: int :: 0 <= k && k < len(o) ==> o[k] in v;
  invariant [o: var []string] once: forall a: int :: forall b: int :: 0 <= a && a < b && b < len(o) ==> o[a] != o[b];
  ensures sound: forall k: int :: 0 <= k && k < len(us) ==> joined(t, us[k], r) && (filter == nil || pure<bool>("callback", filter, us[k]));
  ensures complete: forall q: string :: joined(t, q, r) && (filter == nil || pure<bool>("callback", filter, q)) ==> q in us;
  ensures count: n == len(jU(t, r));
  ensures once: forall a: int :: forall b: int :: 0 <= a && a < b && b < len(us) ==> us[a] != us[b];
}
