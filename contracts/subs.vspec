property R13;

func internal.RequiredStateMap.Include(m, t, k) returns (ok) {
  requires m != nil;
  modifies nothing;
  invariant [i: progress] a0: forall j: int :: 0 <= j && j < i ==> get(m.eventTypeToStateKeys, t)[j] != k;
  invariant [i: progress] a1: forall j: int :: 0 <= j && j < i ==> m.stateKeysForWildcardEventType[j] != k && m.stateKeysForWildcardEventType[j] != "*";
  invariant [v: visited string] a2: !(t in v);
  ensures exact: ok <==> ite(m.allState,
       len(get(m.eventTypeToStateKeys, t)) == 0 || k in get(m.eventTypeToStateKeys, t),
       k in m.stateKeysForWildcardEventType || "*" in m.stateKeysForWildcardEventType || has(m.eventTypesWithWildcardStateKeys, t) || k in get(m.eventTypeToStateKeys, t));
}
func internal.RequiredStateMap.QueryStateMap(m) returns (q) {
  requires m != nil;
  modifies nothing;
  invariant [v: visited string, r: var map[string][]string] b0: forall t: string :: t in v ==> has(r, t);
  invariant [v: visited string, r: var map[string][]string] b1: forall t: string :: has(r, t) ==> has(m.eventTypeToStateKeys, t) || has(m.eventTypesWithWildcardStateKeys, t);
  invariant [r: var map[string][]string] b2: forall t: string :: has(r, t) ==> len(get(r, t)) == 0 || len(get(r, t)) == len(get(m.eventTypeToStateKeys, t)) && (forall j: int :: 0 <= j && j < len(get(r, t)) ==> get(r, t)[j] == get(m.eventTypeToStateKeys, t)[j]);
  invariant [v: visited string, r: var map[string][]string] b3: forall t: string :: t in v ==> len(get(r, t)) == 0;
  invariant [r: var map[string][]string] b4: forall t: string :: pre(has(r, t)) ==> has(r, t);
  ensures all: m.allState || len(m.stateKeysForWildcardEventType) > 0 ==> (forall t: string :: !has(q, t));
  ensures types: !m.allState && len(m.stateKeysForWildcardEventType) == 0 ==> (forall t: string :: has(q, t) <==> has(m.eventTypeToStateKeys, t) || has(m.eventTypesWithWildcardStateKeys, t));
  ensures keys: forall t: string :: has(q, t) ==> len(get(q, t)) == 0 || len(get(q, t)) == len(get(m.eventTypeToStateKeys, t)) && (forall j: int :: 0 <= j && j < len(get(q, t)) ==> get(q, t)[j] == get(m.eventTypeToStateKeys, t)[j]);
  ensures wild: forall t: string :: has(q, t) && has(m.eventTypesWithWildcardStateKeys, t) ==> len(get(q, t)) == 0;
}
func sync3.RoomSubscription.LazyLoadMembers(rs) returns (ok) {
  modular;
  modifies nothing;
  invariant [i: progress] none: forall j: int :: 0 <= j && j < i ==> !(rs.RequiredState[j][0] == "m.room.member" && rs.RequiredState[j][1] == "$LAZY");
  ensures exact: ok <==> (exists j: int :: 0 <= j && j < len(rs.RequiredState) && rs.RequiredState[j][0] == "m.room.member" && rs.RequiredState[j][1] == "$LAZY");
}
func sync3.RoomSubscription.IncludeHeroes(rs) returns (ok) {
  modifies nothing;
  ensures exact: ok <==> rs.Heroes != nil && *rs.Heroes;
}
func sync3.RoomSubscription.RequiredStateChanged(rs, o) returns (ok) {
  modular;
  modifies nothing;
  invariant [i: progress] same: forall j: int :: 0 <= j && j < i ==> rs.RequiredState[j][0] == o.RequiredState[j][0] && rs.RequiredState[j][1] == o.RequiredState[j][1];
  ensures exact: !ok <==> len(rs.RequiredState) == len(o.RequiredState) && (forall j: int :: 0 <= j && j < len(rs.RequiredState) ==> rs.RequiredState[j][0] == o.RequiredState[j][0] && rs.RequiredState[j][1] == o.RequiredState[j][1]);
}
def asks(s, t, k) = exists j: int :: 0 <= j && j < len(s.RequiredState) && s.RequiredState[j][0] == t && s.RequiredState[j][1] == k;
func sync3.RoomSubscription.combineRecursive(rs, o, old_rooms) returns (c) {
  modular;
  modifies nothing;
  ensures limit: c.TimelineLimit == ite(rs.TimelineLimit > o.TimelineLimit, rs.TimelineLimit, o.TimelineLimit);
  ensures heroes: (c.Heroes != nil && *c.Heroes) <==> (rs.Heroes != nil && *rs.Heroes) || (o.Heroes != nil && *o.Heroes);
  ensures state_len: len(c.RequiredState) == len(rs.RequiredState) + len(o.RequiredState);
  ensures state_a: forall j: int :: 0 <= j && j < len(rs.RequiredState) ==> c.RequiredState[j][0] == rs.RequiredState[j][0] && c.RequiredState[j][1] == rs.RequiredState[j][1];
  ensures state_b: forall j: int :: 0 <= j && j < len(o.RequiredState) ==> c.RequiredState[len(rs.RequiredState) + j][0] == o.RequiredState[j][0] && c.RequiredState[len(rs.RequiredState) + j][1] == o.RequiredState[j][1];
  ensures old_none: old_rooms ==> (c.IncludeOldRooms == nil <==> rs.IncludeOldRooms == nil && o.IncludeOldRooms == nil);
  ensures old_limit: old_rooms && rs.IncludeOldRooms != nil ==> c.IncludeOldRooms.TimelineLimit >= rs.IncludeOldRooms.TimelineLimit;
  ensures old_limit2: old_rooms && o.IncludeOldRooms != nil ==> c.IncludeOldRooms.TimelineLimit >= o.IncludeOldRooms.TimelineLimit;
}
func sync3.RoomSubscription.Combine(rs, o) returns (c) {
  modifies nothing;
  ensures limit: c.TimelineLimit == ite(rs.TimelineLimit > o.TimelineLimit, rs.TimelineLimit, o.TimelineLimit);
  ensures heroes: (c.Heroes != nil && *c.Heroes) <==> (rs.Heroes != nil && *rs.Heroes) || (o.Heroes != nil && *o.Heroes);
  ensures union: forall t, k: string :: asks(c, t, k) <==> asks(rs, t, k) || asks(o, t, k);
  ensures old_none: c.IncludeOldRooms == nil <==> rs.IncludeOldRooms == nil && o.IncludeOldRooms == nil;
}
def keyOf(rs, j, me) = ite(rs.RequiredState[j][1] == "$ME", me, rs.RequiredState[j][1]);
func sync3.RoomSubscription.RequiredStateMap(rs, me) returns (m) {
  requires me != "*";
  modifies nothing;
  invariant [i: progress, b: var bool] all_s: b ==> (exists j: int :: 0 <= j && j < i && rs.RequiredState[j][0] == "*" && keyOf(rs, j, me) == "*");
  invariant [i: progress, b: var bool] all_c: forall j: int :: 0 <= j && j < i && rs.RequiredState[j][0] == "*" && keyOf(rs, j, me) == "*" ==> b;
  invariant [i: progress, s: var []string] wk_s: forall x: int :: 0 <= x && x < len(s) ==> (exists j: int :: 0 <= j && j < i && rs.RequiredState[j][0] == "*" && keyOf(rs, j, me) == s[x] && s[x] != "*");
  invariant [i: progress, s: var []string] wk_c: forall j: int :: 0 <= j && j < i && rs.RequiredState[j][0] == "*" && keyOf(rs, j, me) != "*" ==> keyOf(rs, j, me) in s;
  invariant [i: progress, w: var map[string]struct{}] wt_s: forall t: string :: has(w, t) ==> t != "*" && (exists j: int :: 0 <= j && j < i && rs.RequiredState[j][0] == t && keyOf(rs, j, me) == "*");
  invariant [i: progress, w: var map[string]struct{}] wt_c: forall j: int :: 0 <= j && j < i && rs.RequiredState[j][0] != "*" && keyOf(rs, j, me) == "*" ==> has(w, rs.RequiredState[j][0]);
  invariant [i: progress, r: var map[string][]string] ex_s: forall t: string :: forall x: int :: 0 <= x && x < len(get(r, t)) ==> t != "*" && get(r, t)[x] != "*" && (exists j: int :: 0 <= j && j < i && rs.RequiredState[j][0] == t && keyOf(rs, j, me) == get(r, t)[x]);
  invariant [i: progress, r: var map[string][]string] ex_c: forall j: int :: 0 <= j && j < i && rs.RequiredState[j][0] != "*" && keyOf(rs, j, me) != "*" ==> keyOf(rs, j, me) in get(r, rs.RequiredState[j][0]);
  proves all_sound: m.allState ==> (exists j: int :: 0 <= j && j < len(rs.RequiredState) && rs.RequiredState[j][0] == "*" && keyOf(rs, j, me) == "*");
  proves all_complete: forall j: int :: 0 <= j && j < len(rs.RequiredState) && rs.RequiredState[j][0] == "*" && keyOf(rs, j, me) == "*" ==> m.allState;
  proves wildcard_type: forall j: int :: 0 <= j && j < len(rs.RequiredState) && rs.RequiredState[j][0] == "*" && keyOf(rs, j, me) != "*" ==> keyOf(rs, j, me) in m.stateKeysForWildcardEventType;
  proves wildcard_type_sound: forall x: int :: 0 <= x && x < len(m.stateKeysForWildcardEventType) ==> (exists j: int :: 0 <= j && j < len(rs.RequiredState) && rs.RequiredState[j][0] == "*" && keyOf(rs, j, me) == m.stateKeysForWildcardEventType[x]);
  proves wildcard_key: forall j: int :: 0 <= j && j < len(rs.RequiredState) && rs.RequiredState[j][0] != "*" && keyOf(rs, j, me) == "*" ==> has(m.eventTypesWithWildcardStateKeys, rs.RequiredState[j][0]);
  proves wildcard_key_sound: forall t: string :: has(m.eventTypesWithWildcardStateKeys, t) ==> (exists j: int :: 0 <= j && j < len(rs.RequiredState) && rs.RequiredState[j][0] == t && keyOf(rs, j, me) == "*");
  proves exact: forall j: int :: 0 <= j && j < len(rs.RequiredState) && rs.RequiredState[j][0] != "*" && keyOf(rs, j, me) != "*" ==> keyOf(rs, j, me) in get(m.eventTypeToStateKeys, rs.RequiredState[j][0]);
  proves exact_sound: forall t: string :: forall x: int :: 0 <= x && x < len(get(m.eventTypeToStateKeys, t)) ==> (exists j: int :: 0 <= j && j < len(rs.RequiredState) && rs.RequiredState[j][0] == t && keyOf(rs, j, me) == get(m.eventTypeToStateKeys, t)[x]);
  ensures lazy: m.lazyLoading <==> (exists j: int :: 0 <= j && j < len(rs.RequiredState) && rs.RequiredState[j][0] == "m.room.member" && rs.RequiredState[j][1] == "$LAZY");
}
