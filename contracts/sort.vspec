property R03;

def wfList(s) = s.roomIDToIndex != nil
  && (forall k: int :: 0 <= k && k < len(s.roomIDs) ==> has(s.roomIDToIndex, s.roomIDs[k]) && get(s.roomIDToIndex, s.roomIDs[k]) == k)
  && (forall r: string :: has(s.roomIDToIndex, r) ==> 0 <= get(s.roomIDToIndex, r) && get(s.roomIDToIndex, r) < len(s.roomIDs) && s.roomIDs[get(s.roomIDToIndex, r)] == r);

func sync3.NewSortableRooms(finder, key, rooms) returns (s) {
  modifies nothing;
  ensures rooms: s != nil && len(s.roomIDs) == len(rooms) && s.roomIDToIndex != nil && (forall k: int :: 0 <= k && k < len(rooms) ==> s.roomIDs[k] == rooms[k]);
  ensures keyed: s.listKey == key && same(s.finder, finder);
  ensures empty_index: forall r: string :: !has(s.roomIDToIndex, r);
}
func sync3.SortableRooms.IndexOf(s, room) returns (i, ok) {
  requires wfList(s);
  modifies nothing;
  ensures found: ok <==> room in s.roomIDs;
  ensures at: ok ==> 0 <= i && i < len(s.roomIDs) && s.roomIDs[i] == room;
}
func sync3.SortableRooms.Add(s, room) returns (added) {
  requires wfList(s);
  modifies s.roomIDs, elems(s.roomIDs), entries(s.roomIDToIndex);
  ensures inv: wfList(s);
  ensures res: added <==> !old(room in s.roomIDs);
  ensures content: len(s.roomIDs) == old(len(s.roomIDs)) + ite(added, 1, 0) && (forall k: int :: 0 <= k && k < old(len(s.roomIDs)) ==> s.roomIDs[k] == old(s.roomIDs[k]));
  ensures last: added ==> s.roomIDs[len(s.roomIDs) - 1] == room;
}
func sync3.SortableRooms.Get(s, i) returns (room) {
  requires wfList(s) && 0 <= i && i < len(s.roomIDs);
  modifies nothing;
  ensures at: room == s.roomIDs[i];
}
func sync3.SortableRooms.Len(s) returns (n) {
  modifies nothing;
  ensures n: n == len(s.roomIDs);
}
func sync3.SortableRooms.Remove(s, room) returns (idx) {
  requires wfList(s);
  invariant [i: var int] reindexed: forall k: int :: 0 <= k && k < i ==> has(s.roomIDToIndex, s.roomIDs[k]) && get(s.roomIDToIndex, s.roomIDs[k]) == k;
  invariant [i: var int] rest: forall k: int :: i <= k && k < len(s.roomIDs) ==> has(s.roomIDToIndex, s.roomIDs[k]) && get(s.roomIDToIndex, s.roomIDs[k]) == k + 1;
  invariant [i: var int] dom: forall r: string :: has(s.roomIDToIndex, r) <==> old(has(s.roomIDToIndex, r)) && r != room;
  invariant [i: var int] range: forall r: string :: has(s.roomIDToIndex, r) ==> get(s.roomIDToIndex, r) == old(get(s.roomIDToIndex, r)) - ite(old(get(s.roomIDToIndex, r) > get(s.roomIDToIndex, room)) && old(get(s.roomIDToIndex, r)) <= i, 1, 0);
  ensures inv: wfList(s);
  ensures absent: old(!(room in s.roomIDs)) ==> idx == -1 && len(s.roomIDs) == old(len(s.roomIDs)) && (forall k: int :: 0 <= k && k < len(s.roomIDs) ==> s.roomIDs[k] == old(s.roomIDs[k]));
  ensures removed: old(room in s.roomIDs) ==> 0 <= idx && idx < old(len(s.roomIDs)) && old(s.roomIDs)[idx] == old(s.roomIDs)[idx] && len(s.roomIDs) == old(len(s.roomIDs)) - 1;
  ensures gone: !(room in s.roomIDs);
  ensures order: old(room in s.roomIDs) ==> (forall k: int :: 0 <= k && k < len(s.roomIDs) ==> s.roomIDs[k] == ite(k < idx, old(s.roomIDs[k]), old(s.roomIDs[k + 1])));
}
func sync3.SortableRooms.RoomIDs(s) returns (ids) {
  modifies nothing;
  invariant [i: progress, t: var []string] copied: forall k: int :: 0 <= k && k < i ==> t[k] == s.roomIDs[k];
  ensures same: len(ids) == len(s.roomIDs) && (forall k: int :: 0 <= k && k < len(ids) ==> ids[k] == s.roomIDs[k]);
  ensures copy: len(ids) > 0 ==> fresh(ids);
}
func sync3.SortableRooms.Sort(s, by) returns (err) {
  requires len(by) > 0 && s.roomIDToIndex != nil;
  requires distinct: forall a, b: int :: 0 <= a && a < b && b < len(s.roomIDs) ==> s.roomIDs[a] != s.roomIDs[b];
  requires indexed: forall r: string :: has(s.roomIDToIndex, r) ==> r in s.roomIDs;
  invariant [i: progress] idx: forall k: int :: 0 <= k && k < i ==> has(s.roomIDToIndex, s.roomIDs[k]) && get(s.roomIDToIndex, s.roomIDs[k]) == k;
  invariant [i: progress] dom: forall r: string :: has(s.roomIDToIndex, r) ==> r in s.roomIDs;
  ensures inv: err == nil ==> wfList(s);
  ensures perm: len(s.roomIDs) == old(len(s.roomIDs)) && (forall k: int :: 0 <= k && k < len(s.roomIDs) ==> old(s.roomIDs[k]) in s.roomIDs && old(s.roomIDs)[k] == old(s.roomIDs)[k]);
}
