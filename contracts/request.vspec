property R14;

// The extensions part is verified under R27; here only its frame is used: it writes extension objects only.
trusted extensions.Request.InterpretAsInitial(e) {
  modifies nothing;
}
trusted extensions.Request.ApplyDelta(e, n) returns (o) {
  option pure;
  modifies nothing;
}
def had(r, k) = r != nil && has(r.Lists, k);
def keeps(r, n, k) = had(r, k) && (!has(n.Lists, k) || !get(n.Lists, k).Deleted) || has(n.Lists, k) && !had(r, k);
def untouched(c, r, n, k) = had(r, k) && !has(n.Lists, k) ==> same(get(c, k), get(r.Lists, k));
def added(c, r, n, k) = !had(r, k) && len(get(n.Lists, k).Sort) > 0 ==> same(get(c, k), get(n.Lists, k));
def defsort(c, r, n, k) = !had(r, k) && len(get(n.Lists, k).Sort) == 0 ==> len(get(c, k).Sort) == 1 && get(c, k).Sort[0] == "by_recency";
def added2(c, r, n, k) = !had(r, k) ==> same(get(c, k).Ranges, get(n.Lists, k).Ranges) && same(get(c, k).RequiredState, get(n.Lists, k).RequiredState)
         && same(get(c, k).Filters, get(n.Lists, k).Filters) && get(c, k).TimelineLimit == get(n.Lists, k).TimelineLimit;
def st_Ranges(c, r, n, k) = had(r, k) && has(n.Lists, k) ==> same(get(c, k).Ranges, ite(get(n.Lists, k).Ranges == nil, get(r.Lists, k).Ranges, get(n.Lists, k).Ranges));
def st_Sort(c, r, n, k) = had(r, k) && has(n.Lists, k) ==> same(get(c, k).Sort, ite(get(n.Lists, k).Sort == nil, get(r.Lists, k).Sort, get(n.Lists, k).Sort));
def st_RequiredState(c, r, n, k) = had(r, k) && has(n.Lists, k) ==> same(get(c, k).RequiredState, ite(get(n.Lists, k).RequiredState == nil, get(r.Lists, k).RequiredState, get(n.Lists, k).RequiredState));
def st_SlowGetAllRooms(c, r, n, k) = had(r, k) && has(n.Lists, k) ==> same(get(c, k).SlowGetAllRooms, ite(get(n.Lists, k).SlowGetAllRooms == nil, get(r.Lists, k).SlowGetAllRooms, get(n.Lists, k).SlowGetAllRooms));
def st_IncludeOldRooms(c, r, n, k) = had(r, k) && has(n.Lists, k) ==> same(get(c, k).IncludeOldRooms, ite(get(n.Lists, k).IncludeOldRooms == nil, get(r.Lists, k).IncludeOldRooms, get(n.Lists, k).IncludeOldRooms));
def st_Filters(c, r, n, k) = had(r, k) && has(n.Lists, k) ==> same(get(c, k).Filters, ite(get(n.Lists, k).Filters == nil, get(r.Lists, k).Filters, get(n.Lists, k).Filters));
def st_BumpEventTypes(c, r, n, k) = had(r, k) && has(n.Lists, k) ==> same(get(c, k).BumpEventTypes, ite(get(n.Lists, k).BumpEventTypes == nil, get(r.Lists, k).BumpEventTypes, get(n.Lists, k).BumpEventTypes));
def st_Heroes(c, r, n, k) = had(r, k) && has(n.Lists, k) ==> same(get(c, k).Heroes, ite(get(n.Lists, k).Heroes == nil, get(r.Lists, k).Heroes, get(n.Lists, k).Heroes));
def st_TimelineLimit(c, r, n, k) = had(r, k) && has(n.Lists, k) ==> get(c, k).TimelineLimit == ite(get(n.Lists, k).TimelineLimit == 0, get(r.Lists, k).TimelineLimit, get(n.Lists, k).TimelineLimit);

def hadS(r, k) = r != nil && has(r.RoomSubscriptions, k);
func sync3.Request.ApplyDelta(r, n) returns (res, d) {
  requires n != nil;
  requires r != nil ==> len(r.UnsubscribeRooms) == 0;
  modifies nothing;
  invariant [v: visited string, s: written map[string]struct{}] k0: forall k: string :: has(s, k) ==> k in v || pre(has(s, k));
  invariant [v: visited string, s: written map[string]struct{}] k1: forall k: string :: pre(has(s, k)) || k in v ==> has(s, k);
  invariant [v: visited string, c: written map[string]sync3.RequestList] l0: forall k: string :: has(c, k) ==> k in v && keeps(r, n, k);
  invariant [v: visited string, c: written map[string]sync3.RequestList] l0b: forall k: string :: k in v && keeps(r, n, k) ==> has(c, k);
  invariant [c: written map[string]sync3.RequestList] untouched: forall k: string :: has(c, k) ==> untouched(c, r, n, k);
  invariant [c: written map[string]sync3.RequestList] added: forall k: string :: has(c, k) ==> added(c, r, n, k);
  invariant [c: written map[string]sync3.RequestList] defsort: forall k: string :: has(c, k) ==> defsort(c, r, n, k);
  invariant [c: written map[string]sync3.RequestList] added2: forall k: string :: has(c, k) ==> added2(c, r, n, k);
  invariant [c: written map[string]sync3.RequestList] st_Ranges: forall k: string :: has(c, k) ==> st_Ranges(c, r, n, k);
  invariant [c: written map[string]sync3.RequestList] st_Sort: forall k: string :: has(c, k) ==> st_Sort(c, r, n, k);
  invariant [c: written map[string]sync3.RequestList] st_RequiredState: forall k: string :: has(c, k) ==> st_RequiredState(c, r, n, k);
  invariant [c: written map[string]sync3.RequestList] st_SlowGetAllRooms: forall k: string :: has(c, k) ==> st_SlowGetAllRooms(c, r, n, k);
  invariant [c: written map[string]sync3.RequestList] st_IncludeOldRooms: forall k: string :: has(c, k) ==> st_IncludeOldRooms(c, r, n, k);
  invariant [c: written map[string]sync3.RequestList] st_Filters: forall k: string :: has(c, k) ==> st_Filters(c, r, n, k);
  invariant [c: written map[string]sync3.RequestList] st_BumpEventTypes: forall k: string :: has(c, k) ==> st_BumpEventTypes(c, r, n, k);
  invariant [c: written map[string]sync3.RequestList] st_Heroes: forall k: string :: has(c, k) ==> st_Heroes(c, r, n, k);
  invariant [c: written map[string]sync3.RequestList] st_TimelineLimit: forall k: string :: has(c, k) ==> st_TimelineLimit(c, r, n, k);
  invariant [v: visited string, c: written map[string]sync3.RequestListDelta] d0: forall k: string :: k in v ==> has(c, k);
  invariant [v: visited string, c: written map[string]sync3.RequestListDelta] d1: forall k: string :: pre(has(c, k)) ==> has(c, k);
  invariant [v: visited string, c: written map[string]sync3.RequestListDelta] d2: forall k: string :: has(c, k) ==> k in v || pre(has(c, k));
  invariant [v: visited string, c: written map[string]sync3.RequestListDelta] d3: forall k: string :: has(c, k) && !pre(has(c, k)) && !had(r, k) ==> get(c, k).Curr != nil;
  invariant [c: written map[string]sync3.RequestListDelta] d4: forall k: string :: get(c, k).Prev != nil ==> had(r, k) && same(*get(c, k).Prev, get(r.Lists, k));
  invariant [m: var map[string]sync3.RequestList, c: written map[string]sync3.RequestListDelta] d5: forall k: string :: get(c, k).Curr != nil ==> has(m, k) && same(*get(c, k).Curr, get(m, k));
  invariant [c: written map[string]sync3.RequestListDelta] d6: forall k: string :: pre(get(c, k).Curr != nil) ==> get(c, k).Curr != nil;
  invariant [v: visited string, c: written map[string]sync3.RequestListDelta] d7: forall k: string :: k in v ==> get(c, k).Curr != nil;
  invariant [v: visited string, c: written map[string]sync3.RequestListDelta] d8: forall k: string :: k in v ==> get(c, k).Prev != nil;
  invariant [v: visited string, c: written map[string]sync3.RoomSubscription] s0: forall k: string :: has(c, k) ==> pre(has(c, k)) || k in v;
  invariant [v: visited string, c: written map[string]sync3.RoomSubscription] s1: forall k: string :: k in v || pre(has(c, k)) ==> has(c, k);
  invariant [v: visited string, c: written map[string]sync3.RoomSubscription] s2: forall k: string :: !(k in v) ==> same(get(c, k), pre(get(c, k)));
  invariant [v: visited string, c: written map[string]sync3.RoomSubscription] s3: forall k: string :: k in v && hadS(r, k) ==> same(get(c, k), get(r.RoomSubscriptions, k));
  invariant [v: visited string, c: written map[string]sync3.RoomSubscription] s4: forall k: string :: k in v && has(n.RoomSubscriptions, k) ==> same(get(c, k), get(n.RoomSubscriptions, k));
  invariant [i: progress, c: written map[string]sync3.RoomSubscription] u0: forall k: string :: has(c, k) ==> pre(has(c, k)) && same(get(c, k), pre(get(c, k)));
  invariant [i: progress, c: written map[string]sync3.RoomSubscription] u1: forall j: int :: 0 <= j && j < i ==> !has(c, n.UnsubscribeRooms[j]);
  invariant [i: progress, c: written map[string]sync3.RoomSubscription] u2: forall k: string :: pre(has(c, k)) && !has(c, k) ==> (exists j: int :: 0 <= j && j < i && n.UnsubscribeRooms[j] == k);
  invariant [i: progress, d: var *sync3.RequestDelta] un0: forall j: int :: 0 <= j && j < len(d.Unsubs) ==> hadS(r, d.Unsubs[j]) && !has(n.RoomSubscriptions, d.Unsubs[j]) && d.Unsubs[j] in n.UnsubscribeRooms;
  ensures lists: forall k: string :: has(res.Lists, k) <==> keeps(r, n, k);
  ensures untouched: forall k: string :: has(res.Lists, k) ==> untouched(res.Lists, r, n, k);
  ensures added: forall k: string :: has(res.Lists, k) ==> added(res.Lists, r, n, k);
  ensures defsort: forall k: string :: has(res.Lists, k) ==> defsort(res.Lists, r, n, k);
  ensures added2: forall k: string :: has(res.Lists, k) ==> added2(res.Lists, r, n, k);
  ensures st_Ranges: forall k: string :: has(res.Lists, k) ==> st_Ranges(res.Lists, r, n, k);
  ensures st_Sort: forall k: string :: has(res.Lists, k) ==> st_Sort(res.Lists, r, n, k);
  ensures st_RequiredState: forall k: string :: has(res.Lists, k) ==> st_RequiredState(res.Lists, r, n, k);
  ensures st_SlowGetAllRooms: forall k: string :: has(res.Lists, k) ==> st_SlowGetAllRooms(res.Lists, r, n, k);
  ensures st_IncludeOldRooms: forall k: string :: has(res.Lists, k) ==> st_IncludeOldRooms(res.Lists, r, n, k);
  ensures st_Filters: forall k: string :: has(res.Lists, k) ==> st_Filters(res.Lists, r, n, k);
  ensures st_BumpEventTypes: forall k: string :: has(res.Lists, k) ==> st_BumpEventTypes(res.Lists, r, n, k);
  ensures st_Heroes: forall k: string :: has(res.Lists, k) ==> st_Heroes(res.Lists, r, n, k);
  ensures st_TimelineLimit: forall k: string :: has(res.Lists, k) ==> st_TimelineLimit(res.Lists, r, n, k);
  ensures cur: forall k: string :: has(res.Lists, k) ==> has(d.Lists, k) && get(d.Lists, k).Curr != nil && same(*get(d.Lists, k).Curr, get(res.Lists, k));
  ensures cur_none: forall k: string :: !has(res.Lists, k) ==> get(d.Lists, k).Curr == nil;
  ensures prev: forall k: string :: had(r, k) ==> has(d.Lists, k) && get(d.Lists, k).Prev != nil && same(*get(d.Lists, k).Prev, get(r.Lists, k));
  ensures prev_none: forall k: string :: !had(r, k) ==> get(d.Lists, k).Prev == nil;
  ensures dlists: forall k: string :: has(d.Lists, k) ==> has(res.Lists, k) || had(r, k);
  ensures subs_a: forall k: string :: has(res.RoomSubscriptions, k) ==> has(n.RoomSubscriptions, k) || hadS(r, k);
  ensures subs_b: forall k: string :: has(n.RoomSubscriptions, k) || hadS(r, k) ==> has(res.RoomSubscriptions, k) || k in n.UnsubscribeRooms;
  ensures subs_c: forall j: int :: 0 <= j && j < len(n.UnsubscribeRooms) ==> !has(res.RoomSubscriptions, n.UnsubscribeRooms[j]);
  ensures subval: forall k: string :: has(res.RoomSubscriptions, k) ==> same(get(res.RoomSubscriptions, k), ite(has(n.RoomSubscriptions, k), get(n.RoomSubscriptions, k), get(r.RoomSubscriptions, k)));
  ensures dunsubs_sound: forall j: int :: 0 <= j && j < len(d.Unsubs) ==> hadS(r, d.Unsubs[j]) && !has(n.RoomSubscriptions, d.Unsubs[j]) && d.Unsubs[j] in n.UnsubscribeRooms;
  ensures nounsubs: len(res.UnsubscribeRooms) == 0;
  ensures conn: res.ConnID == n.ConnID;
}
func sync3.RequestList.SortOrderChanged(rl, nx) returns (ok) {
  requires nx != nil;
  requires rl != nil || len(nx.Sort) > 0;
  modifies nothing;
  invariant [i: progress] same: forall j: int :: 0 <= j && j < i ==> rl.Sort[j] == nx.Sort[j];
  ensures exact: !ok <==> rl != nil && len(rl.Sort) == len(nx.Sort) && (forall j: int :: 0 <= j && j < len(rl.Sort) ==> rl.Sort[j] == nx.Sort[j]);
}
func sync3.RequestList.TimelineLimitChanged(rl, nx) returns (ok) {
  requires nx != nil;
  modifies nothing;
  ensures exact: ok <==> nx.TimelineLimit != ite(rl == nil, 0, rl.TimelineLimit);
}
func sync3.RequestList.ShouldGetAllRooms(rl) returns (ok) {
  requires rl != nil;
  modifies nothing;
  ensures exact: ok <==> rl.SlowGetAllRooms != nil && *rl.SlowGetAllRooms;
}
