property R19;

// the receiver of the pollers: what could not be stored is reported to the poller, and only what was stored is announced
ghost put: bool;          // the store took what it was given last
ghost putU: string; ghost putR: string; ghost putD: string;
ghost nInv: int; ghost nLeft: int; ghost nTD: int; ghost nInit: int; ghost nInval: int; ghost nAcc: int; ghost nRed: int; ghost nAD: int; ghost nUnread: int; ghost nRec: int;
ghost nEns: int; ghost ensU: string; ghost ensD: string; ghost ensH: string;
ghost noteU: string; ghost noteR: string; ghost noteD: string;
ghost noteSnap: int; ghost noteNIDs: gmap[int]int; ghost noteLen: int; ghost noteAccR: string; ghost redAt: int;
trusted pubsub.Notifier.Notify(n, ch, p) returns (err) {
  modifies nEns, ensU, ensD, ensH, nInv, nLeft, nTD, nInit, nInval, nAcc, nRed, nAD, nUnread, nRec, noteU, noteR, noteD, noteSnap, noteNIDs, noteLen, noteAccR, redAt;
  ensures is<*pubsub.V3EnsurePolling>(p) ==> nEns == old(nEns) + 1 && ensU == as<*pubsub.V3EnsurePolling>(p).UserID && ensD == as<*pubsub.V3EnsurePolling>(p).DeviceID && ensH == as<*pubsub.V3EnsurePolling>(p).AccessTokenHash;
  ensures !is<*pubsub.V3EnsurePolling>(p) ==> nEns == old(nEns);
  ensures is<*pubsub.V2InviteRoom>(p) ==> nInv == old(nInv) + 1 && noteU == as<*pubsub.V2InviteRoom>(p).UserID && noteR == as<*pubsub.V2InviteRoom>(p).RoomID;
  ensures !is<*pubsub.V2InviteRoom>(p) ==> nInv == old(nInv);
  ensures is<*pubsub.V2LeaveRoom>(p) ==> nLeft == old(nLeft) + 1 && noteU == as<*pubsub.V2LeaveRoom>(p).UserID && noteR == as<*pubsub.V2LeaveRoom>(p).RoomID;
  ensures !is<*pubsub.V2LeaveRoom>(p) ==> nLeft == old(nLeft);
  ensures is<*pubsub.V2DeviceMessages>(p) ==> nTD == old(nTD) + 1 && noteU == as<*pubsub.V2DeviceMessages>(p).UserID && noteD == as<*pubsub.V2DeviceMessages>(p).DeviceID;
  ensures !is<*pubsub.V2DeviceMessages>(p) ==> nTD == old(nTD);
  ensures is<*pubsub.V2Initialise>(p) ==> nInit == old(nInit) + 1 && noteR == as<*pubsub.V2Initialise>(p).RoomID && noteSnap == as<*pubsub.V2Initialise>(p).SnapshotNID;
  ensures !is<*pubsub.V2Initialise>(p) ==> nInit == old(nInit);
  ensures is<*pubsub.V2InvalidateRoom>(p) ==> nInval == old(nInval) + 1 && noteR == as<*pubsub.V2InvalidateRoom>(p).RoomID;
  ensures !is<*pubsub.V2InvalidateRoom>(p) ==> nInval == old(nInval);
  ensures is<*pubsub.V2UnreadCounts>(p) ==> nUnread == old(nUnread) + 1 && noteR == as<*pubsub.V2UnreadCounts>(p).RoomID && noteU == as<*pubsub.V2UnreadCounts>(p).UserID;
  ensures !is<*pubsub.V2UnreadCounts>(p) ==> nUnread == old(nUnread);
  ensures is<*pubsub.V2Receipt>(p) ==> nRec == old(nRec) + 1 && noteR == as<*pubsub.V2Receipt>(p).RoomID;
  ensures !is<*pubsub.V2Receipt>(p) ==> nRec == old(nRec);
  ensures is<*pubsub.V2Accumulate>(p) ==> nAcc == old(nAcc) + 1 && noteAccR == as<*pubsub.V2Accumulate>(p).RoomID && noteLen == len(as<*pubsub.V2Accumulate>(p).EventNIDs) && (forall i: int :: 0 <= i && i < noteLen ==> noteNIDs[i] == as<*pubsub.V2Accumulate>(p).EventNIDs[i]);
  ensures !is<*pubsub.V2Accumulate>(p) ==> nAcc == old(nAcc) && noteAccR == old(noteAccR) && noteLen == old(noteLen) && noteNIDs == old(noteNIDs);
  ensures is<*pubsub.V2StateRedaction>(p) ==> nRed == old(nRed) + 1 && redAt == old(nAcc);
  ensures !is<*pubsub.V2StateRedaction>(p) ==> nRed == old(nRed) && redAt == old(redAt);
  ensures is<*pubsub.V2AccountData>(p) ==> nAD == old(nAD) + 1 && noteU == as<*pubsub.V2AccountData>(p).UserID && noteR == as<*pubsub.V2AccountData>(p).RoomID;
  ensures !is<*pubsub.V2AccountData>(p) ==> nAD == old(nAD);
}
trusted state.InvitesTable.InsertInvite(t, u, r, st) returns (err) { modifies put, putU, putR; ensures put == (err == nil) && putU == u && putR == r; }
trusted state.InvitesTable.RemoveInvite(t, u, r) returns (err) { modifies put, putU, putR; ensures put == (err == nil) && putU == u && putR == r; }
trusted state.ToDeviceTable.InsertMessages(t, u, d, msgs) returns (pos, err) { modifies put, putU, putD; ensures put == (err == nil) && putU == u && putD == d; }
ghost resSnap: int; ghost resRepl: bool; ghost resAdded: bool;
trusted state.Storage.Initialise(s, r, st) returns (res, err) { modifies put, putR, resSnap, resRepl, resAdded; ensures put == (err == nil) && putR == r && resSnap == res.SnapshotID && resRepl == res.ReplacedExistingSnapshot && resAdded == res.AddedEvents; }
trusted state.UnreadTable.UpdateUnreadCounters(t, u, r, h, n) returns (err) { modifies put, putU, putR; ensures put == (err == nil) && putU == u && putR == r; }
ghost recN: int;
trusted state.ReceiptTable.Insert(t, r, ev) returns (recs, err) { modifies put, putR, recN; ensures put == (err == nil) && putR == r && recN == len(recs); }

func handler2.Handler.OnInvite(h, ctx, u, r, st) returns (err) {
  requires wf: h != nil && h.Store != nil && h.Store.InvitesTable != nil && h.v2Pub != nil;
  ensures told: (err == nil) <==> put;
  ensures stored: putU == u && putR == r;
  ensures noted: err == nil ==> nInv == old(nInv) + 1 && noteU == u && noteR == r;
  ensures quiet: err != nil ==> nInv == old(nInv);
}
func handler2.Handler.OnLeftRoom(h, ctx, u, r, ev) returns (err) {
  requires wf: h != nil && h.Store != nil && h.Store.InvitesTable != nil && h.v2Pub != nil && h.typingMu != nil;
  ensures told: (err == nil) <==> put;
  ensures stored: putU == u && putR == r;
  ensures noted: err == nil ==> nLeft == old(nLeft) + 1 && noteU == u && noteR == r;
  ensures quiet: err != nil ==> nLeft == old(nLeft);
}
func handler2.Handler.AddToDeviceMessages(h, ctx, u, d, msgs) returns (err) {
  requires wf: h != nil && h.Store != nil && h.Store.ToDeviceTable != nil && h.v2Pub != nil;
  ensures told: (err == nil) <==> put;
  ensures stored: putU == u && putD == d;
  ensures noted: err == nil ==> nTD == old(nTD) + 1 && noteU == u && noteD == d;
  ensures quiet: err != nil ==> nTD == old(nTD);
}
func handler2.Handler.Initialise(h, ctx, r, st) returns (err) {
  requires wf: h != nil && h.Store != nil && h.v2Pub != nil;
  ensures told: (err == nil) <==> put;
  ensures stored: putR == r;
  ensures replaced: err == nil && resRepl ==> nInval == old(nInval) + 1 && noteR == r;
  ensures added: err == nil && !resRepl && resAdded ==> nInit == old(nInit) + 1 && noteR == r && noteSnap == resSnap;
  ensures quiet: err != nil ==> nInit == old(nInit) && nInval == old(nInval);
}
func handler2.Handler.OnReceipt(h, ctx, u, r, ty, ev) {
  requires wf: h != nil && h.Store != nil && h.Store.ReceiptTable != nil && h.v2Pub != nil;
  ensures stored: putR == r;
  ensures noted: put && recN > 0 ==> nRec == old(nRec) + 1 && noteR == r;
  ensures quiet: !put || recN == 0 ==> nRec == old(nRec);
}
ghost accIn: bool; ghost accNew: int; ghost accRed: bool; ghost accU: string; ghost accRoom: string; ghost accLen: int; ghost accAt: gmap[int]int;
trusted state.Storage.Accumulate(s, u, r, tl) returns (res, err) {
  modifies put, putU, putR, accNew, accRed, accLen, accAt;
  ensures put == (err == nil) && putU == u && putR == r && accNew == res.NumNew && accRed == res.IncludesStateRedaction && accLen == len(res.TimelineNIDs) && (forall i: int :: 0 <= i && i < len(res.TimelineNIDs) ==> accAt[i] == res.TimelineNIDs[i]);
}
trusted state.TransactionsTable.Insert(t, u, d, m) returns (err) { modifies nothing; }
trusted state.EventTable.SelectNIDsByIDs(t, txn, ids) returns (m, err) { modifies nothing; }
trusted sync2.PendingTransactionIDs.SeenTxnID(c, e) returns (err) { modifies nothing; }
trusted sync2.PendingTransactionIDs.MissingTxnID(c, e, u, d) returns (clear, err) { modifies nothing; }
func handler2.Handler.Accumulate(h, ctx, u, d, r, tl) returns (err) {
  requires wf: h != nil && h.Store != nil && h.v2Pub != nil && h.PendingTxnIDs != nil && h.Store.TransactionsTable != nil && h.Store.EventsTable != nil;
  invariant nacc: nAcc == old(nAcc) && nRed == old(nRed);
  invariant nacc1: nAcc == ite(accNew != 0, old(nAcc) + 1, old(nAcc)) && nRed == ite(accRed, old(nRed) + 1, old(nRed));
  invariant noted: accNew != 0 ==> noteLen == accLen && noteAccR == r && (forall i: int :: 0 <= i && i < accLen ==> noteNIDs[i] == accAt[i]);
  invariant red: accRed ==> redAt == old(nAcc);
  invariant st: put && putU == u && putR == r;
  ensures told: (err == nil) <==> put;
  ensures stored: putU == u && putR == r;
  ensures noted: err == nil && accNew != 0 ==> nAcc == old(nAcc) + 1 && noteAccR == r && noteLen == accLen && (forall i: int :: 0 <= i && i < accLen ==> noteNIDs[i] == accAt[i]);
  ensures redaction_first: err == nil && accRed ==> nRed == old(nRed) + 1 && redAt == old(nAcc);
  ensures quiet: err != nil || accNew == 0 ==> nAcc == old(nAcc);
}
ghost adN: int;
trusted state.Storage.InsertAccountData(s, u, r, evs) returns (data, err) { modifies put, putU, putR, adN; ensures put == (err == nil) && putU == u && putR == r && adN == old(adN) + 1; }
func handler2.Handler.OnAccountData(h, ctx, u, r, evs) returns (err) {
  requires wf: h != nil && h.Store != nil && h.v2Pub != nil && h.accountDataMap != nil;
  invariant same: adN == old(adN) && nAD == old(nAD);
  invariant done: adN == old(adN) + 1 && put && putU == u && putR == r && nAD == old(nAD);
  ensures told: adN != old(adN) ==> ((err == nil) <==> put) && adN == old(adN) + 1 && putU == u && putR == r;
  ensures nothing: adN == old(adN) ==> err == nil && nAD == old(nAD);
  ensures noted: adN != old(adN) && err == nil ==> nAD == old(nAD) + 1 && noteU == u && noteR == r;
  ensures quiet: err != nil ==> nAD == old(nAD);
}
