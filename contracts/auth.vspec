property R28;

// who an access token belongs to, and its hash
trusted http.Request.WithContext(r, ctx) returns (n) { option pure; modifies nothing; ensures some: n != nil; ensures hdr: n.Header == r.Header; }
trusted internal.ExtractAccessToken(r) returns (t, err) { option pure; modifies nothing; ensures t: err == nil ==> t == pure<string>("tokenOf", r.Header); ensures e: err != nil ==> pure<string>("tokenOf", r.Header) == ""; }
trusted sync2.TokensTable.Token(t, tok) returns (r, err) {
  option pure; modifies nothing;
  ensures some: err == nil ==> r != nil && r.UserID == pure<string>("tokUser", tok) && r.DeviceID == pure<string>("tokDev", tok) && r.AccessTokenHash == pure<string>("tokHash", tok);
}
trusted sync2.TokensTable.MaybeUpdateLastSeen(t, tok, now) returns (err) { modifies tok.LastSeen; }
trusted sync2.Client.WhoAmI(c, ctx, tok) returns (u, d, err) { 
  modifies who401;
  ensures own: err == nil ==> u == pure<string>("tokUser", tok) && d == pure<string>("tokDev", tok);
  ensures no: who401 <==> err == sync2.HTTP401;
  ensures nn: sync2.HTTP401 != nil;
}

trusted sync2.TokensTable.encrypt(t, tok) returns (e) { option pure; modifies nothing; ensures e: e == pure<string>("tokEnc", tok); }
trusted sync2.DevicesTable.InsertDevice(t, txn, u, d) returns (err) { option pure; modifies nothing; }
trusted sql.Tx.Exec(txn, q, args) returns (r, err) { option pure; modifies nothing; }
func sync2.TokensTable.Insert(t, txn, tok, user, device, now) returns (r, err) {
  modular;
  modifies nothing;
  ensures own: err == nil ==> r != nil && r.UserID == user && r.DeviceID == device && r.AccessToken == tok && r.AccessTokenHash == pure<string>("tokHash", tok);
}

func handler.SyncLiveHandler.identifyUnknownAccessToken(h, ctx, tok, lg) returns (t, herr) {
  ensures own: herr == nil ==> t != nil && t.UserID == pure<string>("tokUser", tok) && t.DeviceID == pure<string>("tokDev", tok) && t.AccessTokenHash == pure<string>("tokHash", tok);
  ensures none: herr != nil ==> t == nil;
  ensures unknown: who401 ==> herr != nil && herr.StatusCode == 401 && herr.ErrCode == "M_UNKNOWN_TOKEN";
}
ghost polledU: string;
ghost polledD: string;
ghost polledH: string;
ghost polls: int;
ghost refused: bool;
ghost who401: bool;
trusted handler.EnsurePoller.EnsurePolling(p, ctx, pid, hash) returns (expired) {
  modifies polledU, polledD, polledH, refused, polls;
  ensures who: polledU == pid.UserID && polledD == pid.DeviceID && polledH == hash && (refused <==> expired) && polls == old(polls) + 1;
}
trusted handler.SyncLiveHandler.userCache(h, u) returns (c, err) { option pure; modifies nothing; ensures own: err == nil ==> c != nil && c.UserID == u; }
def bearer(req) = pure<string>("tokenOf", req.Header);
func handler.SyncLiveHandler.setupConnection(h, req, cancel, sreq, pos) returns (r, conn, herr) {
  requires wf: h != nil && req != nil && sreq != nil && h.ConnMap != nil && h.V2Store != nil && h.V2Store.TokensTable != nil && h.V2 != nil && h.EnsurePoller != nil;
  requires wf2: wf(h.ConnMap) && filed();
  requires new: !refused && !who401 && polls == 0;
  ensures none: herr != nil ==> conn == nil;
  ensures user: herr == nil ==> conn != nil && conn.ConnID.UserID == pure<string>("tokUser", bearer(req)) && conn.ConnID.DeviceID == pure<string>("tokDev", bearer(req)) && conn.ConnID.CID == sreq.ConnID;
  ensures data: herr == nil && !pos ==> is<*handler.ConnState>(conn.handler) && as<*handler.ConnState>(conn.handler).userID == pure<string>("tokUser", bearer(req)) && as<*handler.ConnState>(conn.handler).deviceID == pure<string>("tokDev", bearer(req));
  ensures cache: herr == nil && !pos ==> as<*handler.ConnState>(conn.handler).userCache.UserID == pure<string>("tokUser", bearer(req));
  ensures polled: herr == nil && !pos ==> polls == 1 && polledU == pure<string>("tokUser", bearer(req)) && polledD == pure<string>("tokDev", bearer(req)) && polledH == pure<string>("tokHash", bearer(req));
  ensures refused: refused ==> herr != nil && herr.StatusCode == 401 && herr.ErrCode == "M_UNKNOWN_TOKEN";
  ensures unknown: who401 ==> herr != nil && herr.StatusCode == 401 && herr.ErrCode == "M_UNKNOWN_TOKEN" && polls == 0;
  ensures missing: bearer(req) == "" ==> herr != nil && herr.StatusCode == 401 && polls == 0;
  ensures pos: pos && herr == nil ==> polls == 0 && conn == old(ttl)[pure<string>("cid", conn.ConnID)];
}
// a poller that ended with an expired token is remembered as such until it is asked for again; others are left alone
def pend(p, pid) = get(p.pendingPolls, pid);
func handler.EnsurePoller.OnExpiredToken(p, e) {
  requires wf: p != nil && e != nil && p.pendingPolls != nil;
  modifies entries(p.pendingPolls);
  ensures others: forall q: sync2.PollerID :: !(q.UserID == e.UserID && q.DeviceID == e.DeviceID) ==> same(pend(p, q), old(pend(p, q))) && (has(p.pendingPolls, q) <==> old(has(p.pendingPolls, q)));
  ensures latched: forall q: sync2.PollerID :: q.UserID == e.UserID && q.DeviceID == e.DeviceID && old(has(p.pendingPolls, q)) ==> pend(p, q).expired && (pend(p, q).done <==> old(pend(p, q)).done) && pend(p, q).ch == old(pend(p, q)).ch;
}
func handler.EnsurePoller.OnInitialSyncComplete(p, e) {
  requires wf: p != nil && e != nil && p.pendingPolls != nil;
  requires open: forall q: sync2.PollerID :: has(p.pendingPolls, q) && !pend(p, q).done ==> pend(p, q).ch != nil;
  modifies entries(p.pendingPolls);
  ensures others: forall q: sync2.PollerID :: !(q.UserID == e.UserID && q.DeviceID == e.DeviceID) ==> same(pend(p, q), old(pend(p, q))) && (has(p.pendingPolls, q) <==> old(has(p.pendingPolls, q)));
  ensures done: forall q: sync2.PollerID :: q.UserID == e.UserID && q.DeviceID == e.DeviceID ==> has(p.pendingPolls, q) && pend(p, q).done;
  ensures failed: forall q: sync2.PollerID :: q.UserID == e.UserID && q.DeviceID == e.DeviceID && !old(pend(p, q)).done && !e.Success ==> pend(p, q).expired;
  ensures latched: forall q: sync2.PollerID :: q.UserID == e.UserID && q.DeviceID == e.DeviceID && old(pend(p, q)).expired ==> pend(p, q).expired;
  ensures good: forall q: sync2.PollerID :: q.UserID == e.UserID && q.DeviceID == e.DeviceID && !old(pend(p, q)).expired && e.Success ==> !pend(p, q).expired;
}
trusted sql.DB.Exec(db, q, args) returns (r, err) { option pure; modifies nothing; }
func "sync2.TokensTable.MaybeUpdateLastSeen@view"(t, tok, now) returns (err) {
  requires wf: t != nil && tok != nil;
  modifies tok.LastSeen;
  ensures kept: err != nil ==> same(tok.LastSeen, old(tok.LastSeen));
}
func handler.SyncLiveHandler.OnExpiredToken(h, e) {
  requires wf: h != nil && e != nil && h.ConnMap != nil && h.EnsurePoller != nil && h.EnsurePoller.pendingPolls != nil && wf(h.ConnMap) && filed();
  ensures closed: forall j: int :: 0 <= j && j < len(conns(h.ConnMap, e.UserID)) && conns(h.ConnMap, e.UserID)[j].ConnID.DeviceID == e.DeviceID ==> ttl[pure<string>("cid", conns(h.ConnMap, e.UserID)[j].ConnID)] == nil;
  ensures latched: forall q: sync2.PollerID :: q.UserID == e.UserID && q.DeviceID == e.DeviceID && old(has(h.EnsurePoller.pendingPolls, q)) ==> pend(h.EnsurePoller, q).expired;
}
// the caller is told what is known of the poller when it stops waiting; a poller is asked for exactly when none is ready or under way
func "handler.EnsurePoller.EnsurePolling@view"(p, ctx, pid, hash) returns (expired) {
  requires wf: p != nil && p.pendingPolls != nil && p.notifier != nil;
  shared entries(p.pendingPolls);
  ensures told: expired <==> pend(p, pid).expired;
  ensures ready: old(pend(p, pid).done && !pend(p, pid).expired) ==> !expired && nEns == old(nEns);
  ensures joins: old(!pend(p, pid).done && !pend(p, pid).expired && pend(p, pid).ch != nil) ==> nEns == old(nEns);
  ensures asks: old(pend(p, pid).expired || (!pend(p, pid).done && pend(p, pid).ch == nil)) ==> nEns == old(nEns) + 1 && ensU == pid.UserID && ensD == pid.DeviceID && ensH == hash;
}
