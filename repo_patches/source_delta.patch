From 19198e34652f5361bfb5259796c2729e7a61c0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:57:46 +0000
Subject: [PATCH 01/35] fix: SliceRanges.Delta lost single-element ranges and
 produced inverted ones

---
 sync3/range.go | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/sync3/range.go b/sync3/range.go
index d4823d4..0b505d4 100644
--- a/sync3/range.go
+++ b/sync3/range.go
@@ -286,11 +286,6 @@ func (r SliceRanges) SliceInto(slice Subslicer) []Subslicer {
 // is an open not a close. We don't care if these points are old or new, as that just determines whether
 // they were added or removed, it doesn't change the range logic.
 func createRange(point, lastPoint *pointInfo, lastMergedRange *[2]int64) *[2]int64 {
-	if point.x <= lastPoint.x {
-		// don't make 0-length ranges which would be possible in say `[0,20] -> [0,20]`
-		return nil
-	}
-
 	// we assume we include the last point (i,e it's closing a range after all) but there are edge cases
 	// where we dont
 	start := lastPoint.x
@@ -305,17 +300,17 @@ func createRange(point, lastPoint *pointInfo, lastMergedRange *[2]int64) *[2]int
 		start += 1
 	}
 
+	// 'point' is a close so needs to include itself
+	end := point.x
 	if point.isOpen {
 		// do -1 if 'point' is an open as it will make its own range and we don't want dupes
-		return &[2]int64{
-			start, point.x - 1,
-		}
-	} else {
-		// 'point' is a close so needs to include itself
-		return &[2]int64{
-			start, point.x,
-		}
+		end = point.x - 1
+	}
+	if end < start {
+		// don't make 0-length ranges which would be possible in say `[0,20] -> [0,20]`
+		return nil
 	}
+	return &[2]int64{start, end}
 }
 
 func sortPoints(points []pointInfo) {
-- 
2.43.0


From 68ff8a1721c6013fc1459eb951fe0ae5518d4b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:09:19 +0000
Subject: [PATCH 02/35] fix: CalculateListOps deletions: panic on removing the
 last room, missing room data, stale trailing window

---
 sync3/ops.go | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/sync3/ops.go b/sync3/ops.go
index 9f05119..cad2c67 100644
--- a/sync3/ops.go
+++ b/sync3/ops.go
@@ -59,9 +59,11 @@ func CalculateListOps(ctx context.Context, reqList *RequestList, list List, room
 		// no need to resort here, everything is in the right order already and just needs a shift
 		// there will be no toIndex, set it to the end of the array
 		toIndex = int(list.Len()) - 1
-		if toIndex == -1 {
-			// we are removing the last element of the list
-			ops = append(ops, reqList.WriteDeleteOp(0))
+		if fromIndex > toIndex {
+			// we are removing the last element of the list, so nothing shifts into its place
+			if wasInsideRange {
+				ops = append(ops, reqList.WriteDeleteOp(fromIndex))
+			}
 			return
 		}
 	case ListOpChange:
@@ -75,10 +77,6 @@ func CalculateListOps(ctx context.Context, reqList *RequestList, list List, room
 	}
 
 	listFromTos := reqList.CalculateMoveIndexes(fromIndex, toIndex)
-	if len(listFromTos) == 0 {
-		return
-	}
-
 	for _, listFromTo := range listFromTos {
 		listFromIndex := listFromTo[0]
 		listToIndex := listFromTo[1]
@@ -111,8 +109,8 @@ func CalculateListOps(ctx context.Context, reqList *RequestList, list List, room
 
 		addedSub := false
 		// if a different room is being inserted or the room wasn't previously inside a range, send
-		// the entire room data
-		if !wasUpdatedRoomInserted || !wasInsideRange {
+		// the entire room data. Deletions always insert a different room.
+		if !wasUpdatedRoomInserted || !wasInsideRange || listOp == ListOpDel {
 			subs = append(subs, toRoomID)
 			addedSub = true
 		}
@@ -138,5 +136,12 @@ func CalculateListOps(ctx context.Context, reqList *RequestList, list List, room
 			}
 		}
 	}
+	if listOp == ListOpDel {
+		// The list is 1 shorter so its old last index no longer exists. If a window starts there then
+		// none of the moves above touched it, so tell the client to forget what was there.
+		if rng, ok := reqList.Ranges.Inside(list.Len()); ok && rng[0] == list.Len() {
+			ops = append(ops, reqList.WriteDeleteOp(int(list.Len())))
+		}
+	}
 	return
 }
-- 
2.43.0


From fd11892ec5cca04d4822476b0c7633112d944f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:35:26 +0000
Subject: [PATCH 03/35] fix: RequestFilters.Include ignored 'spaces' when
 'room_types' was set

---
 sync3/request.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sync3/request.go b/sync3/request.go
index 618e970..dfdf605 100644
--- a/sync3/request.go
+++ b/sync3/request.go
@@ -549,9 +549,9 @@ func (rf *RequestFilters) Include(r *RoomConnMetadata, finder RoomFinder) bool {
 	if nullableStringExists(rf.NotRoomTypes, r.RoomType) {
 		return false // explicitly excluded
 	}
-	if len(rf.RoomTypes) > 0 {
+	if len(rf.RoomTypes) > 0 && !nullableStringExists(rf.RoomTypes, r.RoomType) {
 		// either explicitly included or implicitly excluded
-		return nullableStringExists(rf.RoomTypes, r.RoomType)
+		return false
 	}
 	if len(rf.Spaces) > 0 {
 		// ensure this room is a member of one of these spaces
-- 
2.43.0


From 1d1b27837efa7eaddd2e99bb7146a5d54433af49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:44:06 +0000
Subject: [PATCH 04/35] fix: AssignList listed rooms the user has left

---
 sync3/lists.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/sync3/lists.go b/sync3/lists.go
index 823637b..bafbc8d 100644
--- a/sync3/lists.go
+++ b/sync3/lists.go
@@ -233,11 +233,12 @@ func (s *InternalRequestLists) AssignList(ctx context.Context, listKey string, f
 			return s.lists[listKey], false
 		}
 	}
-	roomIDs := make([]string, len(s.allRooms))
-	i := 0
-	for roomID := range s.allRooms {
-		roomIDs[i] = roomID
-		i++
+	roomIDs := make([]string, 0, len(s.allRooms))
+	for roomID, room := range s.allRooms {
+		if room.HasLeft {
+			continue // SetRoom never lists rooms the user has left, so don't list them here either.
+		}
+		roomIDs = append(roomIDs, roomID)
 	}
 
 	roomList := NewFilteredSortableRooms(s, listKey, roomIDs, filters)
-- 
2.43.0


From 7540fc40a7f56b9176f7a30ae90dd8769cf328ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:06 +0000
Subject: [PATCH 05/35] fix: RoomSubscription.Combine dropped include_old_rooms
 and include_heroes and could overwrite the caller's required_state

---
 sync3/request.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/sync3/request.go b/sync3/request.go
index dfdf605..f60929a 100644
--- a/sync3/request.go
+++ b/sync3/request.go
@@ -612,13 +612,24 @@ func (rs RoomSubscription) combineRecursive(other RoomSubscription, checkOldRoom
 		result.TimelineLimit = other.TimelineLimit
 	}
 	// combine together required_state fields, we'll union them later
-	result.RequiredState = append(rs.RequiredState, other.RequiredState...)
+	// NB: make a new slice, appending to rs.RequiredState could write into memory shared with the client's request.
+	result.RequiredState = make([][2]string, 0, len(rs.RequiredState)+len(other.RequiredState))
+	result.RequiredState = append(result.RequiredState, rs.RequiredState...)
+	result.RequiredState = append(result.RequiredState, other.RequiredState...)
+	// include heroes if either wants them
+	if rs.IncludeHeroes() {
+		result.Heroes = rs.Heroes
+	} else {
+		result.Heroes = other.Heroes
+	}
 
 	if checkOldRooms {
 		// set include_old_rooms if it is unset
 		if rs.IncludeOldRooms == nil {
 			result.IncludeOldRooms = other.IncludeOldRooms
-		} else if other.IncludeOldRooms != nil {
+		} else if other.IncludeOldRooms == nil {
+			result.IncludeOldRooms = rs.IncludeOldRooms
+		} else {
 			// 2 subs have include_old_rooms set, union them. Don't check them for old rooms though as that's silly
 			ior := rs.IncludeOldRooms.combineRecursive(*other.IncludeOldRooms, false)
 			result.IncludeOldRooms = &ior
-- 
2.43.0


From 75ccab0e1bc4b9df38d37a93fe58a4156fe8c679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:13 +0000
Subject: [PATCH 06/35] fix: account data extension put global account data
 under rooms[""] when a room was out of scope

---
 sync3/extensions/account_data.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/sync3/extensions/account_data.go b/sync3/extensions/account_data.go
index a84d7f2..9d9bfd9 100644
--- a/sync3/extensions/account_data.go
+++ b/sync3/extensions/account_data.go
@@ -92,12 +92,10 @@ func (r *AccountDataRequest) AppendLive(ctx context.Context, res *Response, extC
 }
 
 func (r *AccountDataRequest) ProcessInitial(ctx context.Context, res *Response, extCtx Context) {
-	roomIDs := make([]string, len(extCtx.RoomIDToTimeline))
-	i := 0
+	roomIDs := make([]string, 0, len(extCtx.RoomIDToTimeline))
 	for roomID := range extCtx.RoomIDToTimeline {
 		if r.RoomInScope(roomID, extCtx) {
-			roomIDs[i] = roomID
-			i++
+			roomIDs = append(roomIDs, roomID)
 		}
 	}
 	extRes := &AccountDataResponse{
-- 
2.43.0


From d111c856a5dc2cf131e46b5e9b5cb72c4a305ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:36 +0000
Subject: [PATCH 07/35] fix: late expiry callbacks removed the replacement
 connection from the connection map

---
 sync3/connmap.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/sync3/connmap.go b/sync3/connmap.go
index 287770f..a3598c0 100644
--- a/sync3/connmap.go
+++ b/sync3/connmap.go
@@ -228,12 +228,15 @@ func (m *ConnMap) closeConn(conn *Conn) {
 
 	connKey := conn.ConnID.String()
 	logger.Trace().Str("conn", connKey).Msg("closing connection")
-	// remove conn from all the maps
-	delete(m.connIDToConn, connKey)
+	// remove conn from all the maps. The expiry callback runs asynchronously, so by now a newer
+	// connection may be using the same conn ID: take care to only remove this one.
+	if m.connIDToConn[connKey] == conn {
+		delete(m.connIDToConn, connKey)
+	}
 	h := conn.handler
 	conns := m.userIDToConn[conn.UserID]
 	for i := 0; i < len(conns); i++ {
-		if conns[i].DeviceID == conn.DeviceID && conns[i].CID == conn.CID {
+		if conns[i] == conn {
 			// delete without preserving order
 			conns[i] = nil // allow GC
 			conns = slices.Delete(conns, i, i+1)
-- 
2.43.0


From 8a08548413c1a873d4ae669b339473a5c72b2a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:21 +0000
Subject: [PATCH 08/35] fix: a room's avatar was not re-sent when it became or
 stopped being a DM

The hero's avatar is only used in DMs, but SameRoomAvatar ignored a change of IsDM.
---
 sync3/room.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sync3/room.go b/sync3/room.go
index c539763..3a9ce9a 100644
--- a/sync3/room.go
+++ b/sync3/room.go
@@ -60,6 +60,10 @@ type RoomConnMetadata struct {
 // Returns true if there are no changes.
 func (r *RoomConnMetadata) SameRoomAvatar(next *RoomConnMetadata) bool {
 	sameRoomAvatar := r.AvatarEvent == next.AvatarEvent
+	if r.IsDM != next.IsDM {
+		// whether the hero's avatar is used at all has changed
+		return false
+	}
 	if next.IsDM {
 		// the avatar is the same IF:
 		// - the m.room.avatar event is the same AND
-- 
2.43.0


From a110c6e9ea5e7cedd6f6bb2e4a6dd8e20d67dce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:21 +0000
Subject: [PATCH 09/35] fix: display name and avatar changes of heroes were
 lost when the hero list was full

GlobalCache.OnNewEvent only looked for an existing hero to update while fewer
than 6 heroes were known. Only adding a hero needs room.
---
 sync3/caches/global.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sync3/caches/global.go b/sync3/caches/global.go
index e448c83..f9ede3e 100644
--- a/sync3/caches/global.go
+++ b/sync3/caches/global.go
@@ -346,7 +346,7 @@ func (c *GlobalCache) OnNewEvent(
 					metadata.RemoveHero(*ed.StateKey)
 				}
 			}
-			if len(metadata.Heroes) < 6 && (membership == "join" || membership == "invite") {
+			if membership == "join" || membership == "invite" {
 				// try to find the existing hero e.g they changed their display name
 				found := false
 				for i := range metadata.Heroes {
@@ -357,7 +357,7 @@ func (c *GlobalCache) OnNewEvent(
 						break
 					}
 				}
-				if !found {
+				if !found && len(metadata.Heroes) < 6 {
 					metadata.Heroes = append(metadata.Heroes, internal.Hero{
 						ID:     *ed.StateKey,
 						Name:   ed.Content.Get("displayname").Str,
-- 
2.43.0


From 157bd1fe6deffddd1242c3fe3026f40542c6cf3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:59 +0000
Subject: [PATCH 10/35] fix: a state reset forgot a space's children and kept
 state that is gone

ResetMetadataState emptied ChildSpaceRooms but never selected m.space.child
events, and left the name, avatar, alias and encryption flag in place when the
current state no longer has them.
---
 state/storage.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/state/storage.go b/state/storage.go
index 0d0faa7..ed9e78a 100644
--- a/state/storage.go
+++ b/state/storage.go
@@ -324,6 +324,7 @@ func (s *Storage) ResetMetadataState(metadata *internal.RoomMetadata) error {
 	)
 	WHERE (event_type IN ('m.room.name', 'm.room.avatar', 'm.room.canonical_alias', 'm.room.encryption') AND state_key = '')
 	   OR (event_type = 'm.room.member' AND membership IN ('join', '_join', 'invite', '_invite'))
+	   OR event_type = 'm.space.child'
 	ORDER BY event_nid ASC
 	;`, metadata.RoomID)
 	if err != nil {
@@ -331,6 +332,10 @@ func (s *Storage) ResetMetadataState(metadata *internal.RoomMetadata) error {
 	}
 
 	heroMemberships := circularSlice[*Event]{max: 6}
+	// forget what the current state no longer has
+	metadata.NameEvent = ""
+	metadata.AvatarEvent = ""
+	metadata.CanonicalAlias = ""
 	metadata.JoinCount = 0
 	metadata.InviteCount = 0
 	metadata.ChildSpaceRooms = make(map[string]struct{})
@@ -358,7 +363,9 @@ func (s *Storage) ResetMetadataState(metadata *internal.RoomMetadata) error {
 				metadata.InviteCount++
 			}
 		case "m.space.child":
-			metadata.ChildSpaceRooms[ev.StateKey] = struct{}{}
+			if gjson.GetBytes(ev.JSON, "content.via").IsArray() {
+				metadata.ChildSpaceRooms[ev.StateKey] = struct{}{}
+			}
 		}
 	}
 
-- 
2.43.0


From e0150bf5cfb41012a08476b35742a18c4e9e114b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:33 +0000
Subject: [PATCH 11/35] fix: required_state held non-state events and repeated
 events of the initial state

When room state is loaded for given event types only, the latest event of the
room was added whenever its type matched: also if it was no state event at all,
and also if it was already part of the loaded snapshot.
---
 state/storage.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/state/storage.go b/state/storage.go
index ed9e78a..2099cd9 100644
--- a/state/storage.go
+++ b/state/storage.go
@@ -689,7 +689,12 @@ func (s *Storage) RoomStateAfterEventPosition(ctx context.Context, roomIDs []str
 			// handle the most recent events which won't be in the snapshot but may need to be.
 			// we handle the replace case but don't handle brand new state events
 			for i := range latestEvents {
-				if latestEvents[i].ReplacesNID == 0 {
+				// only state events become part of the state, and events of the initial state are in the snapshot already
+				isState := gjson.GetBytes(latestEvents[i].JSON, "state_key").Exists()
+				inSnapshot := slices.ContainsFunc(roomToEvents[latestEvents[i].RoomID], func(ev Event) bool {
+					return ev.NID == latestEvents[i].NID
+				})
+				if latestEvents[i].ReplacesNID == 0 && isState && !inSnapshot {
 					// check if we should include it
 					for evType, stateKeys := range eventTypesToStateKeys {
 						if evType != latestEvents[i].Type {
-- 
2.43.0


From abed42ceec6f9fcc3f418cc09bbaf0dfe32aafbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:33 +0000
Subject: [PATCH 12/35] fix: the closest prev_batch token was any later one

Without ORDER BY the database may return any row at or after the event, which
happens e.g. after rows were updated by a redaction and the table is scanned
sequentially. The client would then skip part of the room's history.
---
 state/event_table.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/state/event_table.go b/state/event_table.go
index 33c5c6c..b69f7ae 100644
--- a/state/event_table.go
+++ b/state/event_table.go
@@ -525,7 +525,7 @@ func (t *EventTable) SelectClosestPrevBatchByID(roomID string, eventID string) (
 	err = t.db.QueryRow(
 		`SELECT prev_batch FROM syncv3_events WHERE prev_batch IS NOT NULL AND room_id=$1 AND event_nid >= (
 			SELECT event_nid FROM syncv3_events WHERE event_id = $2
-		) LIMIT 1`, roomID, eventID,
+		) ORDER BY event_nid ASC LIMIT 1`, roomID, eventID,
 	).Scan(&prevBatch)
 	if err == sql.ErrNoRows {
 		err = nil
@@ -537,7 +537,7 @@ func (t *EventTable) SelectClosestPrevBatchByID(roomID string, eventID string) (
 // is no closest.
 func (t *EventTable) SelectClosestPrevBatch(txn *sqlx.Tx, roomID string, eventNID int64) (prevBatch string, err error) {
 	err = txn.QueryRow(
-		`SELECT prev_batch FROM syncv3_events WHERE prev_batch IS NOT NULL AND room_id=$1 AND event_nid >= $2 LIMIT 1`, roomID, eventNID,
+		`SELECT prev_batch FROM syncv3_events WHERE prev_batch IS NOT NULL AND room_id=$1 AND event_nid >= $2 ORDER BY event_nid ASC LIMIT 1`, roomID, eventNID,
 	).Scan(&prevBatch)
 	if err == sql.ErrNoRows {
 		err = nil
-- 
2.43.0


From ae97b04bb5557bc9f980cf1d91d4df44c7be3b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:49 +0000
Subject: [PATCH 13/35] fix: live events were sent twice when the room's
 snapshot was ahead of the live stream

A room entering the window is loaded at the anchor position, which can be ahead of the event which
caused it. The load position was then set back to that event, so the events in between, already in
the snapshot, were appended to the timeline again.
---
 sync3/handler/connstate_live.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sync3/handler/connstate_live.go b/sync3/handler/connstate_live.go
index 70da78d..3ea51bb 100644
--- a/sync3/handler/connstate_live.go
+++ b/sync3/handler/connstate_live.go
@@ -227,8 +227,10 @@ func (s *connStateLive) processLiveUpdate(ctx context.Context, up caches.Update,
 				if roomEventUpdate.EventData.NID <= s.loadPositions[roomEventUpdate.RoomID()] {
 					// this update has been accounted for by the initial:true room snapshot
 					advancedPastEvent = true
+				} else {
+					// never go backwards: the snapshot may hold events which are still to come down the live stream.
+					s.loadPositions[roomEventUpdate.RoomID()] = roomEventUpdate.EventData.NID
 				}
-				s.loadPositions[roomEventUpdate.RoomID()] = roomEventUpdate.EventData.NID
 			}
 			// we only append to the timeline if we haven't already got this event. This can happen when:
 			// - 2 live events for a room mid-connection
-- 
2.43.0


From 9884cb5fe453be53edee237d79d0830c82cdc0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:49 +0000
Subject: [PATCH 14/35] fix: concurrent access to the spaces of a room

OnSpaceUpdate changed the Spaces map in place without a lock, while connections
read the same map when they filter rooms.
---
 sync3/caches/user.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/sync3/caches/user.go b/sync3/caches/user.go
index fa21cfa..95b7565 100644
--- a/sync3/caches/user.go
+++ b/sync3/caches/user.go
@@ -570,11 +570,17 @@ func (c *UserCache) OnUnreadCounts(ctx context.Context, roomID string, highlight
 
 func (c *UserCache) OnSpaceUpdate(ctx context.Context, parentRoomID, childRoomID string, isDeleted bool, eventData *EventData) {
 	childURD := c.LoadRoomData(childRoomID)
+	// connections hold on to the map they were given, so don't change it under their feet
+	spaces := make(map[string]struct{}, len(childURD.Spaces)+1)
+	for spaceID := range childURD.Spaces {
+		spaces[spaceID] = struct{}{}
+	}
 	if isDeleted {
-		delete(childURD.Spaces, parentRoomID)
+		delete(spaces, parentRoomID)
 	} else {
-		childURD.Spaces[parentRoomID] = struct{}{}
+		spaces[parentRoomID] = struct{}{}
 	}
+	childURD.Spaces = spaces
 	c.roomToDataMu.Lock()
 	c.roomToData[childRoomID] = childURD
 	c.roomToDataMu.Unlock()
-- 
2.43.0


From 5d9a7df97243f82858779307101259d4aab9b4a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:18 +0000
Subject: [PATCH 15/35] fix: space child events were sent in the timeline of
 the child room

A m.space.child event was passed to connections as if it were an event in the child room, so it was
appended to that room's timeline and moved its load position, skipping real events of the room.
---
 sync3/caches/user.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/sync3/caches/user.go b/sync3/caches/user.go
index 95b7565..ecfbf8f 100644
--- a/sync3/caches/user.go
+++ b/sync3/caches/user.go
@@ -588,11 +588,8 @@ func (c *UserCache) OnSpaceUpdate(ctx context.Context, parentRoomID, childRoomID
 	// now we need to notify connections for the _child_
 	// but only if they are allowed to see the child event (i.e they are joined to the child room)
 	if c.joinChecker.IsUserJoined(c.UserID, childRoomID) {
-		roomUpdate := &RoomEventUpdate{
-			RoomUpdate: c.newRoomUpdate(ctx, childRoomID),
-			EventData:  eventData,
-		}
-		c.emitOnRoomUpdate(ctx, roomUpdate)
+		// this isn't an event in the child room, so it must not end up in its timeline nor move its load position.
+		c.emitOnRoomUpdate(ctx, c.newRoomUpdate(ctx, childRoomID))
 	}
 }
 
-- 
2.43.0


From 422341a8ee806f26909678e1beee9b4af84cd69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:18 +0000
Subject: [PATCH 16/35] fix: endless loop on include_old_rooms when the
 predecessors form a loop or are not known yet

---
 sync3/handler/connstate.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/sync3/handler/connstate.go b/sync3/handler/connstate.go
index c71a86d..2ca9627 100644
--- a/sync3/handler/connstate.go
+++ b/sync3/handler/connstate.go
@@ -486,17 +486,24 @@ func (s *ConnState) buildRooms(ctx context.Context, builtSubs []BuiltSubscriptio
 				if currRoom != nil {
 					prevRoomID = currRoom.PredecessorRoomID
 				}
+				// room creators choose the predecessor freely, so the chain may have loops
+				seen := map[string]struct{}{currRoomID: {}}
 				for prevRoomID != nil { // <- the chain of old rooms
 					// if not joined, bail
 					if !s.joinChecker.IsUserJoined(s.userID, *prevRoomID) {
 						break
 					}
+					if _, ok := seen[*prevRoomID]; ok {
+						break
+					}
+					seen[*prevRoomID] = struct{}{}
 					oldRoomIDs = append(oldRoomIDs, *prevRoomID)
 					// keep checking
 					prevRoom := s.lists.ReadOnlyRoom(*prevRoomID)
-					if prevRoom != nil {
-						prevRoomID = prevRoom.PredecessorRoomID
+					if prevRoom == nil {
+						break // we are not aware of this room yet
 					}
+					prevRoomID = prevRoom.PredecessorRoomID
 				}
 			}
 
-- 
2.43.0


From be3eeb4b4585a4d473debca3e040c6bdade0ab45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:18 +0000
Subject: [PATCH 17/35] fix: lazy loading sent any state event whose state key
 is a user in the timeline

---
 sync3/caches/global.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sync3/caches/global.go b/sync3/caches/global.go
index f9ede3e..93015c3 100644
--- a/sync3/caches/global.go
+++ b/sync3/caches/global.go
@@ -207,7 +207,7 @@ func (c *GlobalCache) LoadRoomState(ctx context.Context, roomIDs []string, loadP
 		for _, ev := range stateEvents {
 			if requiredStateMap.Include(ev.Type, ev.StateKey) {
 				result = append(result, ev.JSON)
-			} else if requiredStateMap.IsLazyLoading() {
+			} else if requiredStateMap.IsLazyLoading() && ev.Type == "m.room.member" {
 				usersInTimeline := roomToUsersInTimeline[roomID]
 				for _, userID := range usersInTimeline {
 					if ev.StateKey == userID {
-- 
2.43.0


From 5071bf1566ccf42147bebb0a58c9e0fd4ffab33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:31 +0000
Subject: [PATCH 18/35] fix: lazy loaded members were lost when the room was
 sent anew in the same response

The members of live events are marked as sent, but replacing the room with its initial data dropped
them from the response, so the client never learned about them.
---
 sync3/handler/connstate_live.go | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/sync3/handler/connstate_live.go b/sync3/handler/connstate_live.go
index 3ea51bb..7956ac9 100644
--- a/sync3/handler/connstate_live.go
+++ b/sync3/handler/connstate_live.go
@@ -9,6 +9,7 @@ import (
 	"github.com/matrix-org/sliding-sync/sync3"
 	"github.com/matrix-org/sliding-sync/sync3/caches"
 	"github.com/matrix-org/sliding-sync/sync3/extensions"
+	"github.com/tidwall/gjson"
 )
 
 // the amount of time to try to insert into a full buffer before giving up.
@@ -186,6 +187,9 @@ func (s *connStateLive) processLiveUpdate(ctx context.Context, up caches.Update,
 	// we accumulated.
 	rooms := s.buildRooms(ctx, builder.BuildSubscriptions())
 	for roomID, room := range rooms {
+		if prev, ok := response.Rooms[roomID]; ok && s.lazyCache.IsLazyLoading(roomID) {
+			room.RequiredState = keepLazyMembers(room.RequiredState, prev.RequiredState)
+		}
 		response.Rooms[roomID] = room
 	}
 
@@ -310,6 +314,25 @@ func (s *connStateLive) processLiveUpdate(ctx context.Context, up caches.Update,
 	return hasUpdates
 }
 
+// keepLazyMembers adds the member events in prevState which are missing from requiredState. Members which were
+// lazy loaded earlier in this response are marked as sent, so they cannot be replaced along with the room.
+func keepLazyMembers(requiredState, prevState []json.RawMessage) []json.RawMessage {
+	members := make(map[string]struct{})
+	for _, ev := range requiredState {
+		if gjson.GetBytes(ev, "type").Str == "m.room.member" {
+			members[gjson.GetBytes(ev, "state_key").Str] = struct{}{}
+		}
+	}
+	for _, ev := range prevState {
+		userID := gjson.GetBytes(ev, "state_key").Str
+		if _, exists := members[userID]; !exists && gjson.GetBytes(ev, "type").Str == "m.room.member" {
+			requiredState = append(requiredState, ev)
+			members[userID] = struct{}{}
+		}
+	}
+	return requiredState
+}
+
 func (s *connStateLive) processUpdatesForSubscriptions(ctx context.Context, builder *RoomsBuilder, up caches.Update) (hasUpdates bool) {
 	rup, ok := up.(caches.RoomUpdate)
 	if !ok {
-- 
2.43.0


From 050bb3cc63e38c871161b0a31183bc7e13dbcfed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:28 +0000
Subject: [PATCH 19/35] fix: events of rooms outside of every window were sent
 when the list had other operations

processLiveUpdateForList took operations of earlier updates, or of the request itself, as a sign that
this room has updates, so clients were sent parts of rooms they have no data for.
---
 sync3/handler/connstate_live.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/sync3/handler/connstate_live.go b/sync3/handler/connstate_live.go
index 7956ac9..d522551 100644
--- a/sync3/handler/connstate_live.go
+++ b/sync3/handler/connstate_live.go
@@ -437,10 +437,6 @@ func (s *connStateLive) processLiveUpdateForList(
 	)
 	resList.Ops = append(resList.Ops, ops...)
 
-	if !hasUpdates {
-		hasUpdates = len(resList.Ops) > 0
-	}
-
 	return hasUpdates
 }
 
-- 
2.43.0


From 9eac24c5b406f1780a8db69b7e7bf31a23a9dfdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:04 +0000
Subject: [PATCH 20/35] fix: updates behind the room's snapshot were dropped
 along with their metadata

The snapshot of a room comes from the database and may be ahead of the live
stream. Events behind it were skipped before the lists saw them, so name, avatar
and counts at the client and the order of the lists stayed stale until the next
event in the room. Skip just the event.
---
 sync3/handler/connstate_live.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/sync3/handler/connstate_live.go b/sync3/handler/connstate_live.go
index d522551..5031792 100644
--- a/sync3/handler/connstate_live.go
+++ b/sync3/handler/connstate_live.go
@@ -138,15 +138,15 @@ func (s *connStateLive) processLiveUpdate(ctx context.Context, up caches.Update,
 	internal.AssertWithContext(ctx, "processLiveUpdate: request list length != internal list length", s.lists.Len() == len(s.muxedReq.Lists))
 	roomUpdate, _ := up.(caches.RoomUpdate)
 	roomEventUpdate, _ := up.(*caches.RoomEventUpdate)
+	alreadySent := false
 	if roomEventUpdate != nil {
 		// if this is a room event update we may not want to process this event, for a few reasons.
 		if !roomEventUpdate.EventData.AlwaysProcess {
-			// check if we should skip this update. Do we know of this room (lp > 0) and if so, is this event
-			// behind what we've processed before?
+			// check if we should skip this event. Do we know of this room (lp > 0) and if so, is this event
+			// behind what we've processed before? Even so, the lists have yet to see this update and the room
+			// metadata the client was sent may be older than the update, so only skip the event itself.
 			lp := s.loadPositions[roomEventUpdate.RoomID()]
-			if lp > 0 && roomEventUpdate.EventData.NID < lp {
-				return false
-			}
+			alreadySent = lp > 0 && roomEventUpdate.EventData.NID < lp
 		}
 
 		// Skip message events from ignored users.
@@ -194,7 +194,7 @@ func (s *connStateLive) processLiveUpdate(ctx context.Context, up caches.Update,
 	}
 
 	// TODO: find a better way to determine if the triggering event should be included e.g ask the lists?
-	if hasUpdates && roomEventUpdate != nil {
+	if hasUpdates && roomEventUpdate != nil && !alreadySent {
 		// include this update in the rooms response TODO: filters on event type?
 		userRoomData := roomUpdate.UserRoomMetadata()
 		r := response.Rooms[roomUpdate.RoomID()]
@@ -275,6 +275,12 @@ func (s *connStateLive) processLiveUpdate(ctx context.Context, up caches.Update,
 		// there's no guarantees that the room will be in the response if say the event caused it to move
 		// off a list.
 		thisRoom, exists := response.Rooms[roomUpdate.RoomID()]
+		if !exists && hasUpdates && alreadySent && (delta.RoomNameChanged || delta.RoomAvatarChanged || delta.InviteCountChanged || delta.JoinCountChanged) {
+			// the client has the event already but not the metadata.
+			exists = true
+			thisRoom.HighlightCount = int64(roomUpdate.UserRoomMetadata().HighlightCount)
+			thisRoom.NotificationCount = int64(roomUpdate.UserRoomMetadata().NotificationCount)
+		}
 		if exists {
 			if delta.RoomNameChanged {
 				metadata := roomUpdate.GlobalRoomMetadata()
-- 
2.43.0


From b1f2e3face21102218e669adf284f7f36323f687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:23:33 +0000
Subject: [PATCH 21/35] fix: events of rooms which jumped across the window
 were sent without the room

Live events were sent for rooms which caused list operations, even when the room
neither was nor is in the window and so was never sent to the client.
---
 sync3/handler/connstate_live.go | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/sync3/handler/connstate_live.go b/sync3/handler/connstate_live.go
index 5031792..333c403 100644
--- a/sync3/handler/connstate_live.go
+++ b/sync3/handler/connstate_live.go
@@ -467,22 +467,24 @@ func (s *connStateLive) resort(
 		return nil, true
 	}
 
+	isInside := func() bool {
+		roomIndex, ok := intList.IndexOf(roomID)
+		if !ok {
+			return false
+		}
+		_, inside := reqList.Ranges.Inside(int64(roomIndex))
+		return inside
+	}
+	wasInside := isInside()
 	ops, subs := sync3.CalculateListOps(ctx, reqList, intList, roomID, listOp)
 	if len(subs) > 0 { // handle rooms which have just come into the window
 		subID := builder.AddSubscription(reqList.RoomSubscription)
 		builder.AddRoomsToSubscription(ctx, subID, subs)
 	}
 
-	// there are updates if we have ops, new subs or if the triggering room is inside the range still
-	hasUpdates := len(ops) > 0 || len(subs) > 0
-	if !hasUpdates {
-		roomIndex, ok := intList.IndexOf(roomID)
-		if ok {
-			_, isInside := reqList.Ranges.Inside(int64(roomIndex))
-			hasUpdates = isInside
-		}
-	}
-	return ops, hasUpdates
+	// there are updates if the triggering room was or is inside the range. It may jump across the range and hence
+	// cause ops without the client knowing about it.
+	return ops, wasInside || isInside()
 }
 
 // shouldIncludeHeroes returns whether the given roomID is in a list or direct
-- 
2.43.0


From 4b1a27df3e074c617419a718cf2d280ec8025262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:37:59 +0000
Subject: [PATCH 22/35] fix: members were not lazy loaded in rooms whose
 timeline was empty at first

---
 sync3/handler/lazy_member.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sync3/handler/lazy_member.go b/sync3/handler/lazy_member.go
index 412cdf3..4a60f4f 100644
--- a/sync3/handler/lazy_member.go
+++ b/sync3/handler/lazy_member.go
@@ -25,6 +25,8 @@ func (lc *LazyCache) IsLazyLoading(roomID string) bool {
 }
 
 func (lc *LazyCache) Add(roomID string, userIDs ...string) {
+	// the room is lazy loaded even when there is no one in the timeline yet
+	lc.rooms[roomID] = struct{}{}
 	for _, u := range userIDs {
 		lc.AddUser(roomID, u)
 	}
-- 
2.43.0


From 01ae4d16ff35b40f01127a2a3a2489a40708b7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:50:04 +0000
Subject: [PATCH 23/35] fix: the first since of a device was trusted when
 another user has a device of the same ID

Device IDs are only unique per user, so remember the positions by user and device.
Otherwise a stale since token acknowledges and hence deletes messages never sent.
---
 sync3/extensions/todevice.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/sync3/extensions/todevice.go b/sync3/extensions/todevice.go
index 430c3da..01d2016 100644
--- a/sync3/extensions/todevice.go
+++ b/sync3/extensions/todevice.go
@@ -16,7 +16,9 @@ import (
 // when the response is genuinely lost, but then we would expect the Conn cache to pick it up based
 // on resending the `?pos=`, so it could mean they really aren't incrementing it and it's a client bug,
 // which is bad because it can result in duplicate to-device events which breaks the encryption state machine
-var deviceIDToSinceDebugOnly = map[string]int64{}
+//
+// Keyed by user ID and device ID, as device IDs are only unique per user.
+var deviceIDToSinceDebugOnly = map[[2]string]int64{}
 var mapMu = &sync.Mutex{}
 
 // Client created request params
@@ -66,8 +68,9 @@ func (r *ToDeviceRequest) ProcessInitial(ctx context.Context, res *Response, ext
 	}
 	l := logger.With().Str("user", extCtx.UserID).Str("device", extCtx.DeviceID).Logger()
 
+	device := [2]string{extCtx.UserID, extCtx.DeviceID}
 	mapMu.Lock()
-	lastSentPos, exists := deviceIDToSinceDebugOnly[extCtx.DeviceID]
+	lastSentPos, exists := deviceIDToSinceDebugOnly[device]
 	internal.Logf(ctx, "to_device", "since=%v limit=%v last_sent=%v", r.Since, r.Limit, lastSentPos)
 	isFirstRequest := !exists
 	mapMu.Unlock()
@@ -129,7 +132,7 @@ func (r *ToDeviceRequest) ProcessInitial(ctx context.Context, res *Response, ext
 		return
 	}
 	mapMu.Lock()
-	deviceIDToSinceDebugOnly[extCtx.DeviceID] = upTo
+	deviceIDToSinceDebugOnly[device] = upTo
 	mapMu.Unlock()
 	// we don't need to aggregate here as we're pulling from the DB and not relying on in-memory structs
 	res.ToDevice = &ToDeviceResponse{
-- 
2.43.0


From 3b5c3c4171031b4abebe68c169846b833b0ce46c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:29:14 +0000
Subject: [PATCH 24/35] fix: a one-time key count of zero for a new algorithm
 was not passed on

When the counts named as many algorithms as before, a new algorithm with a
count of zero compared equal to the one it replaced.
---
 sync2/poller.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sync2/poller.go b/sync2/poller.go
index e3e4839..c23ecd2 100644
--- a/sync2/poller.go
+++ b/sync2/poller.go
@@ -716,7 +716,7 @@ func (p *poller) parseE2EEData(ctx context.Context, res *SyncResponse) error {
 			changedOTKCounts = res.DeviceListsOTKCount
 		} else if p.otkCounts != nil {
 			for k := range res.DeviceListsOTKCount {
-				if res.DeviceListsOTKCount[k] != p.otkCounts[k] {
+				if prev, ok := p.otkCounts[k]; !ok || res.DeviceListsOTKCount[k] != prev {
 					changedOTKCounts = res.DeviceListsOTKCount
 					break
 				}
-- 
2.43.0


From f58f3ca97a0dc3eebbd9d655a7cd5d641bf5325f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:29:14 +0000
Subject: [PATCH 25/35] fix: account data was lost when it could not be stored
 at first

The events were remembered as seen before they were stored, so the retry after a
failure suppressed them as duplicates and the since token moved past them.
---
 sync2/handler2/handler.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/sync2/handler2/handler.go b/sync2/handler2/handler.go
index 7b6ecf5..a0f8570 100644
--- a/sync2/handler2/handler.go
+++ b/sync2/handler2/handler.go
@@ -488,19 +488,22 @@ func (h *Handler) OnAccountData(ctx context.Context, userID, roomID string, even
 	// duplicate suppression for multiple devices on the same account.
 	// We suppress by remembering the last bytes for a given account data, and if they match we ignore.
 	dedupedEvents := make([]json.RawMessage, 0, len(events))
+	newHashes := make(map[string]uint64, len(events))
 	for i := range events {
 		evType := gjson.GetBytes(events[i], "type").Str
 		key := fmt.Sprintf("%s|%s|%s", userID, roomID, evType)
 		thisHash := fnvHash(events[i])
-		last, _ := h.accountDataMap.Load(key)
-		if last != nil {
-			lastHash := last.(uint64)
-			if lastHash == thisHash {
-				continue // skip this event
+		lastHash, ok := newHashes[key]
+		if !ok {
+			if last, _ := h.accountDataMap.Load(key); last != nil {
+				lastHash, ok = last.(uint64), true
 			}
 		}
+		if ok && lastHash == thisHash {
+			continue // skip this event
+		}
 		dedupedEvents = append(dedupedEvents, events[i])
-		h.accountDataMap.Store(key, thisHash)
+		newHashes[key] = thisHash
 	}
 	if len(dedupedEvents) == 0 {
 		return nil
@@ -512,6 +515,10 @@ func (h *Handler) OnAccountData(ctx context.Context, userID, roomID string, even
 		sentry.CaptureException(err)
 		return err
 	}
+	// only remember what was stored, else we would ignore these events when they are retried.
+	for key, hash := range newHashes {
+		h.accountDataMap.Store(key, hash)
+	}
 	var types []string
 	for _, d := range data {
 		types = append(types, d.Type)
-- 
2.43.0


From db33527c96c21d1e44585e03a327a61e394850ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:29:14 +0000
Subject: [PATCH 26/35] fix: events were lost when loading existing events
 failed while storing them

A failed query returned no events, which was reported as a DataError. The poller
does not retry those but moves past the response.
---
 state/event_table.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/state/event_table.go b/state/event_table.go
index b69f7ae..11d3134 100644
--- a/state/event_table.go
+++ b/state/event_table.go
@@ -205,9 +205,13 @@ func (t *EventTable) selectAny(txn *sqlx.Tx, numWanted int, queryStr string, pqA
 	} else {
 		err = t.db.Select(&events, queryStr, pqArray)
 	}
+	if err != nil {
+		// this is not the fault of the data: retrying can help
+		return nil, err
+	}
 	if numWanted > 0 {
 		if numWanted != len(events) {
-			return nil, internal.NewDataError("events table query %s got %d events wanted %d. err=%s", queryStr, len(events), numWanted, err)
+			return nil, internal.NewDataError("events table query %s got %d events wanted %d", queryStr, len(events), numWanted)
 		}
 	}
 	return
-- 
2.43.0


From 777d5de9a5f2b45211d5fc9d4c5252beded66fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:29:14 +0000
Subject: [PATCH 27/35] fix: transaction IDs were lost when one of the batch
 was known already

This happens when a sync response is retried and has new events by then.
---
 state/txn_table.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/state/txn_table.go b/state/txn_table.go
index 8120c19..12b54b2 100644
--- a/state/txn_table.go
+++ b/state/txn_table.go
@@ -48,7 +48,8 @@ func (t *TransactionsTable) Insert(userID, deviceID string, eventIDToTxnID map[s
 	}
 	result, err := t.db.NamedQuery(`
 		INSERT INTO syncv3_txns (user_id, device_id, event_id, txn_id, ts)
-        VALUES (:user_id, :device_id, :event_id, :txn_id, :ts)`, rows)
+        VALUES (:user_id, :device_id, :event_id, :txn_id, :ts)
+        ON CONFLICT (user_id, device_id, event_id) DO NOTHING`, rows)
 	if err == nil {
 		result.Close()
 	}
-- 
2.43.0


From 253134a5bf7b5729c8738f2447079eae10c95574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:29:15 +0000
Subject: [PATCH 28/35] fix: the outcome of starting a poller could be that of
 another device

The workers shared one error variable.
---
 sync2/handler2/handler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sync2/handler2/handler.go b/sync2/handler2/handler.go
index a0f8570..ad4919c 100644
--- a/sync2/handler2/handler.go
+++ b/sync2/handler2/handler.go
@@ -154,7 +154,7 @@ func (h *Handler) StartV2Pollers() {
 					UserID:   t.UserID,
 					DeviceID: t.DeviceID,
 				}
-				_, err = h.pMap.EnsurePolling(
+				_, err := h.pMap.EnsurePolling(
 					pid, t.AccessToken, t.Since, true,
 					logger.With().Str("user_id", t.UserID).Str("device_id", t.DeviceID).Logger(),
 				)
-- 
2.43.0


From a07a66ab98ac6f8fd3b7f0a89e892da9cd66a917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:29:15 +0000
Subject: [PATCH 29/35] fix: a poller which panicked was never replaced and
 blocked its device

It was not marked as terminated, and when it happened in the first poll those who
waited for the initial sync waited forever.
---
 sync2/poller.go | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/sync2/poller.go b/sync2/poller.go
index c23ecd2..4aeb148 100644
--- a/sync2/poller.go
+++ b/sync2/poller.go
@@ -508,9 +508,22 @@ func (p *poller) Poll(since string) {
 	ctx := sentry.SetHubOnContext(context.Background(), hub)
 
 	p.logger.Info().Str("since", since).Msg("Poller: v2 poll loop started")
+	state := pollLoopState{
+		firstTime: true,
+		failCount: 0,
+		since:     since,
+		// Setting time.Time{} results in the first poll loop to immediately store the since token.
+		lastStoredSince: time.Time{},
+	}
 	defer func() {
 		panicErr := recover()
 		if panicErr != nil {
+			// this poller is gone: allow for another one to be made.
+			p.Terminate()
+			if state.firstTime {
+				state.firstTime = false
+				p.wg.Done()
+			}
 			logger.Error().Str("user", p.userID).Str("device", p.deviceID).Msgf("%s. Traceback:\n%s", panicErr, debug.Stack())
 			internal.GetSentryHubFromContextOrDefault(ctx).RecoverWithContext(ctx, panicErr)
 		}
@@ -520,13 +533,6 @@ func (p *poller) Poll(since string) {
 		})
 	}()
 
-	state := pollLoopState{
-		firstTime: true,
-		failCount: 0,
-		since:     since,
-		// Setting time.Time{} results in the first poll loop to immediately store the since token.
-		lastStoredSince: time.Time{},
-	}
 	for !p.terminated.Load() {
 		ctx, task := internal.StartTask(ctx, "Poll")
 		err := p.poll(ctx, &state)
-- 
2.43.0


From 09a0a1d273276f223ab52c94a51def52d92b4faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:29:15 +0000
Subject: [PATCH 30/35] fix: no poller was started when the last token could
 not be decrypted

The ignored error was still returned.
---
 sync2/tokens_table.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sync2/tokens_table.go b/sync2/tokens_table.go
index 961e7bd..d651bad 100644
--- a/sync2/tokens_table.go
+++ b/sync2/tokens_table.go
@@ -160,11 +160,12 @@ func (t *TokensTable) TokenForEachDevice(txn *sqlx.Tx) (tokens []TokenForPoller,
 		return
 	}
 	for _, token := range tokens {
-		token.AccessToken, err = t.decrypt(token.AccessTokenEncrypted)
-		if err != nil {
+		accessToken, decryptErr := t.decrypt(token.AccessTokenEncrypted)
+		if decryptErr != nil {
 			// Ignore decryption failure.
 			continue
 		}
+		token.AccessToken = accessToken
 		token.AccessTokenHash = hashToken(token.AccessToken)
 	}
 	return
-- 
2.43.0


From fec7a7a48e4b97b78cddc03efc947f88bfa1adbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:29:15 +0000
Subject: [PATCH 31/35] fix: unread counts which could not be stored were never
 stored

They were remembered as seen before, so the same counts of later sync responses
were taken for duplicates.
---
 sync2/handler2/handler.go | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/sync2/handler2/handler.go b/sync2/handler2/handler.go
index ad4919c..13a25e3 100644
--- a/sync2/handler2/handler.go
+++ b/sync2/handler2/handler.go
@@ -463,18 +463,21 @@ func (h *Handler) UpdateUnreadCounts(ctx context.Context, roomID, userID string,
 	if ok && entry.Highlight == hc && entry.Notif == nc {
 		return // dupe
 	}
-	h.unreadMap[key] = struct {
-		Highlight int
-		Notif     int
-	}{
-		Highlight: hc,
-		Notif:     nc,
-	}
 
 	err := h.Store.UnreadTable.UpdateUnreadCounters(userID, roomID, highlightCount, notifCount)
 	if err != nil {
 		logger.Err(err).Str("user", userID).Str("room", roomID).Msg("failed to update unread counters")
 		internal.GetSentryHubFromContextOrDefault(ctx).CaptureException(err)
+		// it isn't stored so it isn't a dupe when we see it the next time
+		delete(h.unreadMap, key)
+	} else {
+		h.unreadMap[key] = struct {
+			Highlight int
+			Notif     int
+		}{
+			Highlight: hc,
+			Notif:     nc,
+		}
 	}
 	h.v2Pub.Notify(pubsub.ChanV2, &pubsub.V2UnreadCounts{
 		RoomID:            roomID,
-- 
2.43.0


From 07899cbf47a6a812989d3eac016d2570f99cd1c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:27:09 +0000
Subject: [PATCH 32/35] fix: a room's account data was left out of a response
 which had live account data for it

---
 sync3/extensions/account_data.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/sync3/extensions/account_data.go b/sync3/extensions/account_data.go
index 9d9bfd9..e7b96c2 100644
--- a/sync3/extensions/account_data.go
+++ b/sync3/extensions/account_data.go
@@ -44,6 +44,7 @@ func accountEventsAsJSON(events []state.AccountData) []json.RawMessage {
 func (r *AccountDataRequest) AppendLive(ctx context.Context, res *Response, extCtx Context, up caches.Update) {
 	var globalMsgs []json.RawMessage
 	roomToMsgs := map[string][]json.RawMessage{}
+	loadedRoom := false // true if roomToMsgs has everything there is for the room
 	switch update := up.(type) {
 	case *caches.AccountDataUpdate:
 		globalMsgs = accountEventsAsJSON(update.AccountData)
@@ -71,6 +72,7 @@ func (r *AccountDataRequest) AppendLive(ctx context.Context, res *Response, extC
 			} else {
 				if len(roomAccountData) > 0 { // else we can end up with `null` not `[]`
 					roomToMsgs[update.RoomID()] = accountEventsAsJSON(roomAccountData)
+					loadedRoom = true
 				}
 			}
 		}
@@ -86,8 +88,13 @@ func (r *AccountDataRequest) AppendLive(ctx context.Context, res *Response, extC
 	}
 	res.AccountData.Global = append(res.AccountData.Global, globalMsgs...)
 	for roomID, roomAccountData := range roomToMsgs {
+		if loadedRoom {
+			// this includes any live account data we've added for this room
+			res.AccountData.Rooms[roomID] = roomAccountData
+			res.AccountData.loadedRooms[roomID] = true
+			continue
+		}
 		res.AccountData.Rooms[roomID] = append(res.AccountData.Rooms[roomID], roomAccountData...)
-		res.AccountData.loadedRooms[roomID] = true
 	}
 }
 
-- 
2.43.0


From 67ace8044b7a09fe0d7d88affa9bbf252c5ff94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:37 +0000
Subject: [PATCH 33/35] fix: a room which the user left and joined again stayed
 out of their lists

---
 sync3/caches/user.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sync3/caches/user.go b/sync3/caches/user.go
index ecfbf8f..8fd1ac4 100644
--- a/sync3/caches/user.go
+++ b/sync3/caches/user.go
@@ -596,6 +596,10 @@ func (c *UserCache) OnSpaceUpdate(ctx context.Context, parentRoomID, childRoomID
 func (c *UserCache) OnNewEvent(ctx context.Context, eventData *EventData) {
 	// add this to our tracked timelines if we have one
 	urd := c.LoadRoomData(eventData.RoomID)
+	// reset the HasLeft field when the user joins again
+	if urd.HasLeft && eventData.EventType == "m.room.member" && eventData.StateKey != nil && *eventData.StateKey == c.UserID {
+		urd.HasLeft = eventData.Content.Get("membership").Str != "join"
+	}
 	// reset the IsInvite field when the user actually joins/rejects the invite
 	if urd.IsInvite && eventData.EventType == "m.room.member" && eventData.StateKey != nil && *eventData.StateKey == c.UserID {
 		urd.IsInvite = eventData.Content.Get("membership").Str == "invite"
-- 
2.43.0


From e8037719531bdd6e8f3b665ded5feccca20bf4bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:37 +0000
Subject: [PATCH 34/35] fix: the invite of a user who was banned was kept for
 good

---
 sync2/poller.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sync2/poller.go b/sync2/poller.go
index 4aeb148..9e65ff2 100644
--- a/sync2/poller.go
+++ b/sync2/poller.go
@@ -906,7 +906,8 @@ func (p *poller) parseRoomsResponse(ctx context.Context, res *SyncResponse) erro
 		var leaveEvent json.RawMessage
 		for _, ev := range roomData.Timeline.Events {
 			leaveEv := gjson.ParseBytes(ev)
-			if leaveEv.Get("content.membership").Str == "leave" && leaveEv.Get("state_key").Str == p.userID {
+			membership := leaveEv.Get("content.membership").Str
+			if (membership == "leave" || membership == "ban") && leaveEv.Get("state_key").Str == p.userID {
 				leaveEvent = ev
 				break
 			}
-- 
2.43.0


From 7cc7341df5ae484c3505cc04e16b315c6bd2d993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:09 +0000
Subject: [PATCH 35/35] fix: connections of devices whose IDs contain '|' were
 mixed up

---
 sync3/conn.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sync3/conn.go b/sync3/conn.go
index 7fcb32e..d22e4e1 100644
--- a/sync3/conn.go
+++ b/sync3/conn.go
@@ -22,8 +22,10 @@ type ConnID struct {
 	CID      string // client-supplied conn_id
 }
 
+// String returns the key of this connection. Clients choose their device and connection IDs, which may
+// contain any separator, hence quote them to keep the keys of different connections apart.
 func (c *ConnID) String() string {
-	return fmt.Sprintf("%s|%s|%s", c.UserID, c.DeviceID, c.CID)
+	return fmt.Sprintf("%s|%q|%q", c.UserID, c.DeviceID, c.CID)
 }
 
 type ConnHandler interface {
-- 
2.43.0

