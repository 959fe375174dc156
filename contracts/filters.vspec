property R15;

fn roomOf(string): *sync3.RoomConnMetadata;
fn nameOf(*internal.RoomMetadata): string;
// one finder: a room ID denotes one room for the duration of the call
trusted sync3.RoomFinder.ReadOnlyRoom(f, id) returns (r) {
  option pure;
  modifies nothing;
  ensures r == roomOf(id);
}
// the display name is the subject of another property
trusted internal.CalculateRoomName(m, n) returns (name, calc) {
  option pure;
  modifies nothing;
  ensures name == nameOf(m);
}
def wantBool(p, v) = p == nil || *p == v;
def typeIn(arr, t) = exists k: int :: 0 <= k && k < len(arr) && (t == nil && arr[k] == nil || t != nil && arr[k] != nil && *arr[k] == *t);
def anyTag(tags, r) = exists k: int :: 0 <= k && k < len(tags) && has(r.Tags, tags[k]);
def successorJoined(r) = r.UpgradedRoomID != nil && roomOf(*r.UpgradedRoomID) != nil && !roomOf(*r.UpgradedRoomID).HasLeft && !roomOf(*r.UpgradedRoomID).IsInvite;
def nameMatches(rf, r) = rf.RoomNameFilter == "" || pure<bool>("fn:strings.Contains", pure<string>("fn:strings.ToLower", nameOf(addr(r.RoomMetadata))), pure<string>("fn:strings.ToLower", rf.RoomNameFilter));

func sync3.RequestFilters.Include(rf, r, finder) returns (ok) {
  requires r != nil && finder != nil;
  modifies nothing;
  invariant [i: progress] t0: forall k: int :: 0 <= k && k < i ==> !has(r.Tags, rf.NotTags[k]);
  invariant [i: progress] t1: forall k: int :: 0 <= k && k < i ==> !has(r.Tags, rf.Tags[k]);
  invariant [i: progress] t2: forall k: int :: 0 <= k && k < i ==> !(r.RoomType == nil && rf.NotRoomTypes[k] == nil || r.RoomType != nil && rf.NotRoomTypes[k] != nil && *rf.NotRoomTypes[k] == *r.RoomType);
  invariant [i: progress] t3: forall k: int :: 0 <= k && k < i ==> !(r.RoomType == nil && rf.RoomTypes[k] == nil || r.RoomType != nil && rf.RoomTypes[k] != nil && *rf.RoomTypes[k] == *r.RoomType);
  invariant [i: progress] t4: forall k: int :: 0 <= k && k < i ==> !has(r.UserRoomData.Spaces, rf.Spaces[k]);
  ensures old_rooms: successorJoined(r) ==> !ok;
  ensures exact: ok <==> !successorJoined(r)
     && wantBool(rf.IsEncrypted, r.Encrypted) && wantBool(rf.IsDM, r.IsDM) && wantBool(rf.IsInvite, r.IsInvite)
     && wantBool(rf.IsTombstoned, r.UpgradedRoomID != nil)
     && nameMatches(rf, r)
     && !anyTag(rf.NotTags, r) && (len(rf.Tags) > 0 ==> anyTag(rf.Tags, r))
     && !typeIn(rf.NotRoomTypes, r.RoomType) && (len(rf.RoomTypes) > 0 ==> typeIn(rf.RoomTypes, r.RoomType))
     && (len(rf.Spaces) > 0 ==> (exists k: int :: 0 <= k && k < len(rf.Spaces) && has(r.UserRoomData.Spaces, rf.Spaces[k])));
}
