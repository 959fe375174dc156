property R07;

// which handlers were told to shut down, which were told to publish, and what the TTL cache holds
ghost hDead: gmap[int]bool;
ghost hTold: gmap[int]bool;
ghost ttl: gmap[string]*sync3.Conn;
trusted sync3.ConnHandler.Destroy(h) { modifies hDead; ensures d: hDead == store(old(hDead), h.data, true); }
trusted sync3.ConnHandler.Alive(h) returns (ok) { option pure; modifies nothing; }
trusted sync3.ConnHandler.SetCancelCallback(h, f) { option pure; modifies nothing; }
trusted sync3.ConnHandler.PublishEventsUpTo(h, room, nid) { modifies hTold; ensures d: hTold == store(old(hTold), h.data, true); }
trusted sync3.ConnID.String(c) returns (s) { option pure; modifies nothing; ensures s: s == pure<string>("cid", *c);
  ensures inj: pure<string>("cidU", s) == c.UserID && pure<string>("cidD", s) == c.DeviceID && pure<string>("cidC", s) == c.CID; }
trusted sync3.ConnMap.updateMetrics(m, n) { option pure; modifies nothing; }
// an entry of the TTL cache may vanish at any time, but is never mixed up with another
trusted ttlcache.Cache.Get(c, key) returns (v, err) {
  option pure;
  modifies nothing;
  ensures typed: v != nil ==> is<*sync3.Conn>(v) && as<*sync3.Conn>(v) != nil && as<*sync3.Conn>(v) == ttl[key];
}
trusted ttlcache.Cache.Set(c, key, v) returns (err) { modifies ttl; ensures s: is<*sync3.Conn>(v) ==> ttl == store(old(ttl), key, as<*sync3.Conn>(v)); }
trusted ttlcache.Cache.Remove(c, key) returns (err) { modifies ttl; ensures s: ttl == store(old(ttl), key, zero<*sync3.Conn>()); }

def conns(m, u) = get(m.userIDToConn, u);
def wf(m) = m != nil && m.userIDToConn != nil && m.connIDToConn != nil
  && (forall k: string :: get(m.connIDToConn, k) != nil ==> pure<string>("cid", get(m.connIDToConn, k).ConnID) == k)
  && (forall u: string :: conns(m, u) == nil ==> len(conns(m, u)) == 0)
  && (forall u: string :: forall i: int :: 0 <= i && i < len(conns(m, u)) ==> conns(m, u)[i] != nil && conns(m, u)[i].ConnID.UserID == u)
  && (forall u: string :: forall w: string :: u != w && conns(m, u) != nil && conns(m, w) != nil ==> conns(m, u).arr != conns(m, w).arr);

func sync3.ConnMap.closeConn(m, conn) {
  modular;
  requires wf: wf(m);
  requires full: conn != nil ==> conn.handler != nil;
  modifies hDead, entries(m.userIDToConn), entries(m.connIDToConn), elems(conns(m, conn.ConnID.UserID));
  invariant [s: phi []*sync3.Conn, i: progress] gone: forall j: int :: 0 <= j && j < i ==> s[j] != conn;
  invariant [s: phi []*sync3.Conn] place: s.arr == old(conns(m, conn.ConnID.UserID)).arr && len(s) <= old(len(conns(m, conn.ConnID.UserID)));
  invariant [s: phi []*sync3.Conn, i: progress] bound: i <= len(s);
  invariant [s: phi []*sync3.Conn] own: forall j: int :: 0 <= j && j < len(s) ==> s[j] != nil && s[j].ConnID.UserID == conn.ConnID.UserID;
  invariant [s: phi []*sync3.Conn] sub: forall j: int :: 0 <= j && j < len(s) ==> (exists k: int :: 0 <= k && k < old(len(conns(m, conn.ConnID.UserID))) && s[j] == old(conns(m, conn.ConnID.UserID)[k]));
  invariant [s: phi []*sync3.Conn] kept: forall j: int :: 0 <= j && j < old(len(conns(m, conn.ConnID.UserID))) && old(conns(m, conn.ConnID.UserID)[j]) != conn ==> old(conns(m, conn.ConnID.UserID)[j]) in s;
  ensures wf: wf(m);
  ensures gone: conn != nil ==> !(conn in conns(m, conn.ConnID.UserID));
  ensures dead: hDead == ite(conn != nil, store(old(hDead), conn.handler.data, true), old(hDead));
  ensures gone_id: conn != nil ==> get(m.connIDToConn, pure<string>("cid", conn.ConnID)) != conn;
  ensures others_id: forall k: string :: old(get(m.connIDToConn, k)) != conn ==> get(m.connIDToConn, k) == old(get(m.connIDToConn, k));
  ensures kept: forall u: string :: forall j: int :: 0 <= j && j < old(len(conns(m, u))) && old(conns(m, u)[j]) != conn ==> old(conns(m, u)[j]) in conns(m, u);
  ensures sub: forall u: string :: forall j: int :: 0 <= j && j < len(conns(m, u)) ==> (exists k: int :: 0 <= k && k < old(len(conns(m, u))) && conns(m, u)[j] == old(conns(m, u)[k]));
}

def filed() = forall k: string :: ttl[k] != nil ==> pure<string>("cid", ttl[k].ConnID) == k && ttl[k].handler != nil
  && pure<string>("cidU", k) == ttl[k].ConnID.UserID && pure<string>("cidD", k) == ttl[k].ConnID.DeviceID && pure<string>("cidC", k) == ttl[k].ConnID.CID;
func sync3.ConnMap.getConn(m, cid) returns (c) {
  modular;
  requires wf: wf(m);
  requires filed: filed();
  modifies hDead, entries(m.userIDToConn), entries(m.connIDToConn), elems(conns(m, ttl[pure<string>("cid", cid)].ConnID.UserID));
  ensures wf: wf(m);
  ensures full: c != nil ==> c.handler != nil;
  ensures quiet0: c != nil ==> same(conns(m, c.ConnID.UserID), old(conns(m, ttl[pure<string>("cid", cid)].ConnID.UserID)));
  ensures quiet: c != nil ==> (forall u: string :: same(conns(m, u), old(conns(m, u))));
  ensures quiet2: c != nil ==> (forall u: string :: forall j: int :: 0 <= j && j < len(conns(m, u)) ==> conns(m, u)[j] == old(conns(m, u)[j]));
  ensures right: c != nil ==> c == ttl[pure<string>("cid", cid)];
  ensures own: c != nil ==> same(c.ConnID, cid);
  ensures kept_id: forall k: string :: k != pure<string>("cid", cid) ==> get(m.connIDToConn, k) == old(get(m.connIDToConn, k));
  ensures kept: forall u: string :: forall j: int :: 0 <= j && j < old(len(conns(m, u))) && old(conns(m, u)[j]) != ttl[pure<string>("cid", cid)] ==> old(conns(m, u)[j]) in conns(m, u);
}
func sync3.ConnMap.Conn(m, cid) returns (c) {
  modular;
  requires wf: wf(m);
  requires filed: filed();
  modifies hDead, entries(m.userIDToConn), entries(m.connIDToConn), elems(conns(m, ttl[pure<string>("cid", cid)].ConnID.UserID));
  ensures wf: wf(m);
  ensures full: c != nil ==> c.handler != nil;
  ensures right: c != nil ==> c == ttl[pure<string>("cid", cid)];
  ensures own: c != nil ==> same(c.ConnID, cid);
}
func sync3.ConnMap.CreateConn(m, cid, cancel, mk) returns (c) {
  requires wf: wf(m);
  requires filed: filed();
  modifies hDead, ttl, entries(m.userIDToConn), entries(m.connIDToConn), elems(conns(m, ttl[pure<string>("cid", cid)].ConnID.UserID));
  ensures new: fresh(c) && same(c.ConnID, cid);
  ensures filed2: pure<string>("cidU", pure<string>("cid", cid)) == cid.UserID && pure<string>("cidD", pure<string>("cid", cid)) == cid.DeviceID && pure<string>("cidC", pure<string>("cid", cid)) == cid.CID;
  ensures filed_ttl: ttl == store(old(ttl), pure<string>("cid", cid), c);
  ensures filed_id: get(m.connIDToConn, pure<string>("cid", cid)) == c;
  ensures filed_user: c in conns(m, cid.UserID);
  ensures kept_id: forall k: string :: k != pure<string>("cid", cid) ==> get(m.connIDToConn, k) == old(get(m.connIDToConn, k));
  ensures kept_user: forall j: int :: 0 <= j && j < old(len(conns(m, cid.UserID))) && old(conns(m, cid.UserID)[j]) != old(ttl)[pure<string>("cid", cid)] ==> old(conns(m, cid.UserID)[j]) in conns(m, cid.UserID);
  ensures wf1: forall k: string :: get(m.connIDToConn, k) != nil ==> pure<string>("cid", get(m.connIDToConn, k).ConnID) == k;
  ensures wf2: forall u: string :: conns(m, u) == nil ==> len(conns(m, u)) == 0;
  ensures wf3: forall i: int :: 0 <= i && i < len(conns(m, cid.UserID)) ==> conns(m, cid.UserID)[i] != nil;
  ensures wf3b: forall i: int :: 0 <= i && i < len(conns(m, cid.UserID)) ==> conns(m, cid.UserID)[i].ConnID.UserID == cid.UserID;
  ensures wf4: forall u: string :: forall i: int :: u != cid.UserID && 0 <= i && i < len(conns(m, u)) ==> conns(m, u)[i] != nil;
  ensures wf4b: forall u: string :: forall i: int :: u != cid.UserID && 0 <= i && i < len(conns(m, u)) ==> conns(m, u)[i].ConnID.UserID == u;
  ensures wf5: forall u: string :: forall w: string :: u != w && conns(m, u) != nil && conns(m, w) != nil ==> conns(m, u).arr != conns(m, w).arr;
}
func sync3.ConnMap.connIDsForDevice(m, userID, deviceID) returns (ids) {
  modular;
  requires wf: wf(m);
  modifies nothing;
  invariant [r: var []sync3.ConnID, i: progress] all: forall j: int :: 0 <= j && j < i && conns(m, userID)[j].ConnID.DeviceID == deviceID ==> (exists k: int :: 0 <= k && k < len(r) && same(r[k], conns(m, userID)[j].ConnID));
  invariant [r: var []sync3.ConnID] only: forall k: int :: 0 <= k && k < len(r) ==> r[k].UserID == userID && r[k].DeviceID == deviceID;
  ensures all: forall j: int :: 0 <= j && j < len(conns(m, userID)) && conns(m, userID)[j].ConnID.DeviceID == deviceID ==> (exists k: int :: 0 <= k && k < len(ids) && same(ids[k], conns(m, userID)[j].ConnID));
  ensures only: forall k: int :: 0 <= k && k < len(ids) ==> ids[k].UserID == userID && ids[k].DeviceID == deviceID;
}
func sync3.ConnMap.CloseConnsForDevice(m, userID, deviceID) {
  modular;
  requires wf: wf(m);
  modifies ttl;
  invariant [r: var []sync3.ConnID, i: progress] done: forall j: int :: 0 <= j && j < i ==> ttl[pure<string>("cid", r[j])] == nil;
  invariant other: forall k: string :: ttl[k] == nil || ttl[k] == old(ttl)[k];
  invariant [r: var []sync3.ConnID] only: forall k: string :: old(ttl)[k] != nil && (forall j: int :: 0 <= j && j < len(r) ==> pure<string>("cid", r[j]) != k) ==> ttl[k] == old(ttl)[k];
  ensures closed: forall j: int :: 0 <= j && j < len(conns(m, userID)) && conns(m, userID)[j].ConnID.DeviceID == deviceID ==> ttl[pure<string>("cid", conns(m, userID)[j].ConnID)] == nil;
  ensures never_new: forall k: string :: ttl[k] == nil || ttl[k] == old(ttl)[k];
}
func sync3.ConnMap.CloseConnsForUsers(m, userIDs) returns (n) {
  requires wf: wf(m);
  modifies ttl;
  invariant [o: oprogress] done: forall a: int :: forall j: int :: 0 <= a && a < o && 0 <= j && j < len(conns(m, userIDs[a])) ==> ttl[pure<string>("cid", conns(m, userIDs[a])[j].ConnID)] == nil;
  invariant [i: progress, o: oprogress] inner: forall j: int :: 0 <= j && j < i && j < len(conns(m, userIDs[o])) ==> ttl[pure<string>("cid", conns(m, userIDs[o])[j].ConnID)] == nil;
  invariant [i: progress] outer: forall a: int :: forall j: int :: 0 <= a && a < i && 0 <= j && j < len(conns(m, userIDs[a])) ==> ttl[pure<string>("cid", conns(m, userIDs[a])[j].ConnID)] == nil;
  invariant other: forall k: string :: ttl[k] == nil || ttl[k] == old(ttl)[k];
  ensures closed: forall a: int :: forall j: int :: 0 <= a && a < len(userIDs) && 0 <= j && j < len(conns(m, userIDs[a])) ==> ttl[pure<string>("cid", conns(m, userIDs[a])[j].ConnID)] == nil;
  ensures never_new: forall k: string :: ttl[k] == nil || ttl[k] == old(ttl)[k];
}
func sync3.ConnMap.closeConnExpires(m, id, value) {
  requires wf: wf(m);
  requires is<*sync3.Conn>(value) && as<*sync3.Conn>(value) != nil && as<*sync3.Conn>(value).handler != nil;
  modifies hDead, entries(m.userIDToConn), entries(m.connIDToConn), elems(conns(m, as<*sync3.Conn>(value).ConnID.UserID));
  ensures dead: hDead[as<*sync3.Conn>(value).handler.data];
  ensures kept: forall u: string :: forall j: int :: 0 <= j && j < old(len(conns(m, u))) && old(conns(m, u)[j]) != as<*sync3.Conn>(value) ==> old(conns(m, u)[j]) in conns(m, u);
  ensures others_id: forall k: string :: old(get(m.connIDToConn, k)) != as<*sync3.Conn>(value) ==> get(m.connIDToConn, k) == old(get(m.connIDToConn, k));
}
func sync3.ConnMap.ClearUpdateQueues(m, userID, roomID, nid) {
  requires wf: wf(m);
  modifies hTold;
  invariant [i: progress] told: forall j: int :: 0 <= j && j < i ==> hTold[conns(m, userID)[j].handler.data];
  ensures told: forall j: int :: 0 <= j && j < len(conns(m, userID)) ==> hTold[conns(m, userID)[j].handler.data];
}
