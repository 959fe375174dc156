property R16;

def sameHeroNames(a, b) = len(a) == len(b) && (forall i: int :: 0 <= i && i < len(a) ==> a[i].ID == b[i].ID && a[i].Name == b[i].Name);
def avatarOf(m, dm) = ite(m.AvatarEvent != "", m.AvatarEvent, ite(len(m.Heroes) == 1 && dm, m.Heroes[0].Avatar, ""));

func internal.sameHeroNames(a, b) returns (same) {
  modular;
  modifies nothing;
  invariant [i: progress] sofar: forall j: int :: 0 <= j && j < i ==> a[j].ID == b[j].ID && a[j].Name == b[j].Name;
  ensures exact: same <==> sameHeroNames(a, b);
}
func internal.RoomMetadata.SameRoomName(m, o) returns (same) {
  requires m != nil && o != nil;
  modifies nothing;
  ensures exact: same <==> m.RoomID == o.RoomID && m.NameEvent == o.NameEvent && m.CanonicalAlias == o.CanonicalAlias && m.JoinCount == o.JoinCount && m.InviteCount == o.InviteCount && sameHeroNames(m.Heroes, o.Heroes);
}
func internal.CalculateAvatar(m, dm) returns (a) {
  requires m != nil;
  modifies nothing;
  ensures exact: a == avatarOf(m, dm);
}
func sync3.sameHeroAvatars(a, b) returns (same) {
  modular;
  modifies nothing;
  invariant [i: progress] sofar: forall j: int :: 0 <= j && j < i ==> a[j].ID == b[j].ID && a[j].Avatar == b[j].Avatar;
  ensures exact: same <==> len(a) == len(b) && (forall i: int :: 0 <= i && i < len(a) ==> a[i].ID == b[i].ID && a[i].Avatar == b[i].Avatar);
}
func sync3.RoomConnMetadata.SameRoomAvatar(r, n) returns (same) {
  requires r != nil && n != nil;
  modifies nothing;
  ensures never_misses_a_change: same ==> avatarOf(r, r.IsDM) == avatarOf(n, n.IsDM);
  ensures event_change_seen: r.AvatarEvent != n.AvatarEvent ==> !same;
}
func "internal.CalculateRoomName@exact"(m, max) returns (name, calculated) {
  requires m != nil && max >= 0 && m.JoinCount >= 0 && m.InviteCount >= 0;
  modifies nothing;
  ensures named: m.NameEvent != "" ==> name == m.NameEvent && !calculated;
  ensures aliased: m.NameEvent == "" && m.CanonicalAlias != "" ==> name == m.CanonicalAlias && !calculated;
  ensures empty: m.NameEvent == "" && m.CanonicalAlias == "" && len(m.Heroes) == 0 && m.JoinCount + m.InviteCount <= 1 ==> name == "Empty Room" && !calculated;
  ensures composed: m.NameEvent == "" && m.CanonicalAlias == "" && !(len(m.Heroes) == 0 && m.JoinCount + m.InviteCount <= 1) ==> calculated;
}
func internal.RoomMetadata.RemoveHero(m, u) {
  requires m != nil;
  modifies m.Heroes, elems(m.Heroes);
  invariant [i: progress] none: forall j: int :: 0 <= j && j < i ==> m.Heroes[j].ID != u;
  ensures absent: !old(exists j: int :: 0 <= j && j < len(m.Heroes) && m.Heroes[j].ID == u) ==> len(m.Heroes) == old(len(m.Heroes)) && (forall j: int :: 0 <= j && j < len(m.Heroes) ==> m.Heroes[j].ID == old(m.Heroes[j].ID));
  ensures one_less: old(exists j: int :: 0 <= j && j < len(m.Heroes) && m.Heroes[j].ID == u) ==> len(m.Heroes) == old(len(m.Heroes)) - 1;
  ensures kept: forall j: int :: 0 <= j && j < old(len(m.Heroes)) && old(m.Heroes[j].ID) != u ==> (exists k: int :: 0 <= k && k < len(m.Heroes) && m.Heroes[k].ID == old(m.Heroes[j].ID) && m.Heroes[k].Name == old(m.Heroes[j].Name) && m.Heroes[k].Avatar == old(m.Heroes[j].Avatar));
  ensures gone: old(forall a: int :: forall b: int :: 0 <= a && a < b && b < len(m.Heroes) ==> m.Heroes[a].ID != m.Heroes[b].ID) ==> (forall k: int :: 0 <= k && k < len(m.Heroes) ==> m.Heroes[k].ID != u);
}
func internal.RoomMetadata.DeepCopy(m) returns (c) {
  modular;
  requires m != nil;
  modifies nothing;
  invariant [v: visited string, w: written map[string]internal.EventMetadata] latest: forall k: string :: (has(w, k) <==> k in v) && (k in v ==> get(w, k) == get(m.LatestEventsByType, k));
  invariant [v: visited string, w: written map[string]struct{}] children: forall k: string :: has(w, k) <==> k in v;
  invariant [w: written map[string]internal.EventMetadata] mine1: fresh(w);
  invariant [w: written map[string]struct{}] mine2: fresh(w);
  ensures fresh: c != nil && fresh(c) && (c.Heroes.arr == 0 || c.Heroes.arr != m.Heroes.arr) && c.ChildSpaceRooms != nil && c.ChildSpaceRooms != m.ChildSpaceRooms && c.LatestEventsByType != nil && c.LatestEventsByType != m.LatestEventsByType;
  ensures heroes: len(c.Heroes) == len(m.Heroes) && (forall i: int :: 0 <= i && i < len(m.Heroes) ==> c.Heroes[i] == m.Heroes[i]);
  ensures fields: c.RoomID == m.RoomID && c.NameEvent == m.NameEvent && c.AvatarEvent == m.AvatarEvent && c.CanonicalAlias == m.CanonicalAlias && c.JoinCount == m.JoinCount && c.InviteCount == m.InviteCount && c.Encrypted == m.Encrypted && c.LastMessageTimestamp == m.LastMessageTimestamp;
  ensures children: forall k: string :: has(c.ChildSpaceRooms, k) <==> has(m.ChildSpaceRooms, k);
  ensures latest: forall k: string :: (has(c.LatestEventsByType, k) <==> has(m.LatestEventsByType, k)) && get(c.LatestEventsByType, k) == get(m.LatestEventsByType, k);
}

// the shared metadata of a room follows its state
def md(c, r) = get(c.roomIDToMetadata, r);
def gContent(ed, p) = pure<gjson.Result>("fn:github.com/tidwall/gjson.Result.Get", ed.Content, p);
def gState(ed, typ) = ed.EventType == typ && ed.StateKey != nil && *ed.StateKey == "";
def gMember(ed) = ed.EventType == "m.room.member" && ed.StateKey != nil;
def gPresent(ed) = gMember(ed) && (gContent(ed, "membership").Str == "join" || gContent(ed, "membership").Str == "invite");
def wfg(c) = c != nil && c.roomIDToMetadata != nil && (forall r: string :: has(c.roomIDToMetadata, r) ==> md(c, r) != nil && md(c, r).LatestEventsByType != nil && md(c, r).ChildSpaceRooms != nil)
  && (forall a, b: string :: a != b && md(c, a) != nil ==> md(c, a) != md(c, b));
def heroNamed(h, ed) = h.ID == *ed.StateKey && h.Name == gContent(ed, "displayname").Str && h.Avatar == gContent(ed, "avatar_url").Str;
func caches.GlobalCache.OnNewEvent(c, ctx, ed) {
  requires wf: wfg(c) && ed != nil;
  requires apart: forall r: string :: md(c, r) != nil ==> (forall q: string :: q != r ==> md(c, r).Heroes.arr != md(c, q).Heroes.arr || md(c, r).Heroes.arr == 0);
  invariant [i: progress] none: forall j: int :: 0 <= j && j < i && has(c.roomIDToMetadata, ed.RoomID) ==> md(c, ed.RoomID).Heroes[j].ID != *ed.StateKey;
  ensures known: md(c, ed.RoomID) != nil && (old(md(c, ed.RoomID)) != nil ==> md(c, ed.RoomID) == old(md(c, ed.RoomID)));
  ensures others: forall r: string :: r != ed.RoomID ==> md(c, r) == old(md(c, r));
  ensures others_names: forall r: string :: r != ed.RoomID && old(md(c, r)) != nil ==> md(c, r).NameEvent == old(md(c, r).NameEvent) && md(c, r).JoinCount == old(md(c, r).JoinCount) && md(c, r).AvatarEvent == old(md(c, r).AvatarEvent) && md(c, r).CanonicalAlias == old(md(c, r).CanonicalAlias);
  ensures name: old(md(c, ed.RoomID)) != nil ==> md(c, ed.RoomID).NameEvent == ite(gState(ed, "m.room.name"), gContent(ed, "name").Str, old(md(c, ed.RoomID).NameEvent));
  ensures avatar: old(md(c, ed.RoomID)) != nil ==> md(c, ed.RoomID).AvatarEvent == ite(gState(ed, "m.room.avatar"), gContent(ed, "url").Str, old(md(c, ed.RoomID).AvatarEvent));
  ensures alias: old(md(c, ed.RoomID)) != nil ==> md(c, ed.RoomID).CanonicalAlias == ite(gState(ed, "m.room.canonical_alias"), gContent(ed, "alias").Str, old(md(c, ed.RoomID).CanonicalAlias));
  ensures new_room: old(md(c, ed.RoomID)) == nil ==> md(c, ed.RoomID).RoomID == ed.RoomID && md(c, ed.RoomID).NameEvent == ite(gState(ed, "m.room.name"), gContent(ed, "name").Str, "") && md(c, ed.RoomID).AvatarEvent == ite(gState(ed, "m.room.avatar"), gContent(ed, "url").Str, "");
  ensures encrypted: old(md(c, ed.RoomID)) != nil ==> (md(c, ed.RoomID).Encrypted <==> old(md(c, ed.RoomID).Encrypted) || gState(ed, "m.room.encryption"));
  ensures hero_updated: gPresent(ed) && old(md(c, ed.RoomID)) != nil && old(exists j: int :: 0 <= j && j < len(md(c, ed.RoomID).Heroes) && md(c, ed.RoomID).Heroes[j].ID == *ed.StateKey) ==>
      (exists j: int :: 0 <= j && j < len(md(c, ed.RoomID).Heroes) && heroNamed(md(c, ed.RoomID).Heroes[j], ed));
  ensures hero_added: gPresent(ed) && old(md(c, ed.RoomID)) != nil && old(len(md(c, ed.RoomID).Heroes)) < 6 ==> (exists j: int :: 0 <= j && j < len(md(c, ed.RoomID).Heroes) && heroNamed(md(c, ed.RoomID).Heroes[j], ed));
  ensures hero_cap: old(md(c, ed.RoomID)) != nil && old(len(md(c, ed.RoomID).Heroes)) <= 6 ==> len(md(c, ed.RoomID).Heroes) <= 6;
  ensures time: md(c, ed.RoomID).LastMessageTimestamp == ed.Timestamp && get(md(c, ed.RoomID).LatestEventsByType, ed.EventType).NID == ed.NID && get(md(c, ed.RoomID).LatestEventsByType, ed.EventType).Timestamp == ed.Timestamp;
  ensures child: old(md(c, ed.RoomID)) != nil && ed.EventType == "m.space.child" && ed.StateKey != nil ==> (has(md(c, ed.RoomID).ChildSpaceRooms, *ed.StateKey) <==> pure<bool>("fn:github.com/tidwall/gjson.Result.IsArray", gContent(ed, "via")));
}

// a connection notices every change of what it shows of a room
def room(s, id) = get(s.allRooms, id);
property R16, R26;
// the recency of a room in list k: what the update says, else what it was
def bumped(r, prev, k) = ite(has(r.LastInterestedEventTimestamps, k), get(r.LastInterestedEventTimestamps, k), ite(has(prev.LastInterestedEventTimestamps, k), get(prev.LastInterestedEventTimestamps, k), prev.LastMessageTimestamp));
func sync3.InternalRequestLists.SetRoom(s, r) returns (delta) {
  modular;
  modifies entries(s.allRooms);
  requires wf: s != nil && s.allRooms != nil && s.lists != nil;
  requires lists: forall k: string :: has(s.lists, k) ==> get(s.lists, k) != nil && get(s.lists, k).SortableRooms != nil && get(s.lists, k).filter != nil;
  requires rooms: forall k: string :: has(s.allRooms, k) ==> room(s, k) != nil;
  requires counts: r.JoinCount >= 0 && r.InviteCount >= 0;
  ensures stored: room(s, r.RoomID) != nil && fresh(room(s, r.RoomID)) && room(s, r.RoomID).NameEvent == r.NameEvent && room(s, r.RoomID).JoinCount == r.JoinCount && room(s, r.RoomID).HasLeft == r.HasLeft;
  ensures others: forall k: string :: k != r.RoomID ==> room(s, k) == old(room(s, k));
  ensures name_seen: old(has(s.allRooms, r.RoomID)) && !delta.RoomNameChanged ==> old(room(s, r.RoomID).NameEvent) == r.NameEvent && old(room(s, r.RoomID).CanonicalAlias) == r.CanonicalAlias && old(room(s, r.RoomID).JoinCount) == r.JoinCount && old(room(s, r.RoomID).InviteCount) == r.InviteCount && old(sameHeroNames(room(s, r.RoomID).Heroes, r.Heroes));
  ensures avatar_seen: old(has(s.allRooms, r.RoomID)) && !delta.RoomAvatarChanged ==> old(avatarOf(room(s, r.RoomID), room(s, r.RoomID).IsDM) == avatarOf(r, r.IsDM));
  ensures counts_seen: old(has(s.allRooms, r.RoomID)) ==> (delta.JoinCountChanged <==> old(room(s, r.RoomID).JoinCount) != r.JoinCount) && (delta.InviteCountChanged <==> old(room(s, r.RoomID).InviteCount) != r.InviteCount)
     && (delta.NotificationCountChanged <==> old(room(s, r.RoomID).NotificationCount) != r.NotificationCount) && (delta.HighlightCountChanged <==> old(room(s, r.RoomID).HighlightCount) != r.HighlightCount);
  ensures sort_name_kept: old(has(s.allRooms, r.RoomID)) && !delta.RoomNameChanged ==> room(s, r.RoomID).CanonicalisedName == old(room(s, r.RoomID).CanonicalisedName);
  invariant [v: visited string, w: written map[string]uint64] times: forall k: string :: (has(w, k) <==> k in v) && (k in v ==> get(w, k) == bumped(r, room(s, r.RoomID), k));
  ensures times: old(has(s.allRooms, r.RoomID)) ==> (forall k: string :: has(s.lists, k) ==> has(room(s, r.RoomID).LastInterestedEventTimestamps, k) && get(room(s, r.RoomID).LastInterestedEventTimestamps, k) == old(bumped(r, room(s, r.RoomID), k)));
  ensures times_new: !old(has(s.allRooms, r.RoomID)) ==> room(s, r.RoomID).LastInterestedEventTimestamps == r.LastInterestedEventTimestamps;
}

property R26;
func sync3.RoomConnMetadata.GetLastInterestedEventTimestamp(r, k) returns (ts) {
  requires r != nil && r.LastInterestedEventTimestamps != nil;
  modifies entries(r.LastInterestedEventTimestamps);
  ensures known: old(has(r.LastInterestedEventTimestamps, k)) ==> ts == old(get(r.LastInterestedEventTimestamps, k));
  ensures fallback: !old(has(r.LastInterestedEventTimestamps, k)) ==> ts == r.LastMessageTimestamp;
  ensures remembered: has(r.LastInterestedEventTimestamps, k) && get(r.LastInterestedEventTimestamps, k) == ts;
  ensures others: forall j: string :: j != k ==> (has(r.LastInterestedEventTimestamps, j) <==> old(has(r.LastInterestedEventTimestamps, j))) && get(r.LastInterestedEventTimestamps, j) == old(get(r.LastInterestedEventTimestamps, j));
}
def evType(up) = as<*caches.RoomEventUpdate>(up).EventData.EventType;
def bumps(s, up, k) = len(get(s.muxedReq.Lists, k).BumpEventTypes) == 0 || (is<*caches.RoomEventUpdate>(up) && evType(up) in get(s.muxedReq.Lists, k).BumpEventTypes);
func "handler.connStateLive.processGlobalUpdates@bumps"(s, ctx, b, up) returns (delta) {
  requires wf: s != nil && s.ConnState != nil && s.muxedReq != nil && s.lists != nil && s.lists.allRooms != nil && s.lists.lists != nil;
  requires lists: forall k: string :: has(s.lists.lists, k) ==> get(s.lists.lists, k) != nil && get(s.lists.lists, k).SortableRooms != nil && get(s.lists.lists, k).filter != nil;
  requires rooms: forall k: string :: has(s.lists.allRooms, k) ==> room(s.lists, k) != nil;
  requires up: is<*caches.RoomEventUpdate>(up) ==> as<*caches.RoomEventUpdate>(up) != nil && as<*caches.RoomEventUpdate>(up).EventData != nil;
  requires meta: gmdOf(up.data) != nil && gmdOf(up.data).JoinCount >= 0 && gmdOf(up.data).InviteCount >= 0;
  invariant [v: visited string, w: written map[string]uint64] sofar: forall k: string :: has(w, k) <==> k in v && bumps(s, up, k);
  invariant [v: visited string, w: written map[string]uint64] ts: forall k: string :: has(w, k) ==> get(w, k) == gmdOf(up.data).LastMessageTimestamp;
  invariant [i: progress, k: var string] nomatch: forall j: int :: 0 <= j && j < i ==> get(s.muxedReq.Lists, k).BumpEventTypes[j] != evType(up);
  ensures bumped_any: forall k: string :: is<*caches.RoomEventUpdate>(up) && old(has(s.lists.allRooms, gmdOf(up.data).RoomID)) && has(s.lists.lists, k) && has(s.muxedReq.Lists, k) && len(get(s.muxedReq.Lists, k).BumpEventTypes) == 0 ==> get(room(s.lists, gmdOf(up.data).RoomID).LastInterestedEventTimestamps, k) == old(gmdOf(up.data).LastMessageTimestamp);
  ensures bumped_type: forall k: string :: forall j: int :: is<*caches.RoomEventUpdate>(up) && old(has(s.lists.allRooms, gmdOf(up.data).RoomID)) && has(s.lists.lists, k) && has(s.muxedReq.Lists, k) && 0 <= j && j < len(get(s.muxedReq.Lists, k).BumpEventTypes) && get(s.muxedReq.Lists, k).BumpEventTypes[j] == evType(up) ==> get(room(s.lists, gmdOf(up.data).RoomID).LastInterestedEventTimestamps, k) == old(gmdOf(up.data).LastMessageTimestamp);
  ensures not_bumped: is<*caches.RoomEventUpdate>(up) && old(has(s.lists.allRooms, gmdOf(up.data).RoomID)) ==>
     (forall k: string :: has(s.lists.lists, k) && has(s.muxedReq.Lists, k) && !bumps(s, up, k) && old(has(room(s.lists, gmdOf(up.data).RoomID).LastInterestedEventTimestamps, k)) ==> get(room(s.lists, gmdOf(up.data).RoomID).LastInterestedEventTimestamps, k) == old(get(room(s.lists, gmdOf(up.data).RoomID).LastInterestedEventTimestamps, k)));
  ensures anchor: s.anchorLoadPosition >= old(s.anchorLoadPosition);
  ensures positions: forall r: string :: get(s.loadPositions, r) == old(get(s.loadPositions, r));
}
