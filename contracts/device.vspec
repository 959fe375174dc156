property R17;
// what was acknowledged per call, and what the client was told is sent
ghost ackN: int;
ghost ackUser: string;
ghost ackDev: string;
ghost ackPos: int;
ghost unUser: string;
ghost unDev: string;
ghost unPos: int;
trusted state.ToDeviceTable.DeleteMessagesUpToAndIncluding(t, u, d, pos) returns (err) {
  modifies ackN, ackUser, ackDev, ackPos;
  ensures ackN == old(ackN) + 1 && ackUser == u && ackDev == d && ackPos == pos;
}
trusted state.ToDeviceTable.SetUnackedPosition(t, u, d, pos) returns (err) {
  modifies unUser, unDev, unPos;
  ensures unUser == u && unDev == d && unPos == pos;
}
def inbox(t, u, d, from, limit) = pure<[]json.RawMessage>("db:inbox", t, u, d, from, limit);
def inboxEnd(t, u, d, from, limit) = pure<int>("db:inboxEnd", t, u, d, from, limit);
trusted state.ToDeviceTable.Messages(t, u, d, from, limit) returns (msgs, upTo, err) {
  option pure; modifies nothing;
  ensures err == nil ==> same(msgs, inbox(t, u, d, from, limit)) && upTo == inboxEnd(t, u, d, from, limit);
}
def sincePos(s) = ite(s == "", 0, pure<int64>("fn:strconv.ParseInt#0", s, 10, 64));
func extensions.ToDeviceRequest.ProcessInitial(r, ctx, res, ec) {
  requires wf: r != nil && res != nil && ec.Handler != nil && ec.Store != nil && ec.Store.ToDeviceTable != nil && extensions.deviceIDToSinceDebugOnly != nil;
  // acknowledged is at most what the client confirmed, of this very device
  ensures ack_once: ackN == old(ackN) || (ackN == old(ackN) + 1 && ackUser == ec.UserID && ackDev == ec.DeviceID && old(r.Since) != "" && ackPos == pure<int64>("fn:strconv.ParseInt#0", old(r.Since), 10, 64));
  // and the first request of a device acknowledges nothing
  ensures first_acks_nothing: forall k: [2]string :: k[0] == ec.UserID && k[1] == ec.DeviceID && !old(has(extensions.deviceIDToSinceDebugOnly, k)) ==> ackN == old(ackN);
  ensures limit: r.Limit == ite(old(r.Limit) == 0, 100, old(r.Limit));
  ensures sent: res.ToDevice != old(res.ToDevice) && res.ToDevice != nil ==> same(res.ToDevice.Events, inbox(ec.Store.ToDeviceTable, ec.UserID, ec.DeviceID, sincePos(r.Since), r.Limit));
  ensures told: res.ToDevice != old(res.ToDevice) ==> unUser == ec.UserID && unDev == ec.DeviceID && unPos == inboxEnd(ec.Store.ToDeviceTable, ec.UserID, ec.DeviceID, sincePos(r.Since), r.Limit);
  ensures remembered: res.ToDevice != old(res.ToDevice) ==> (forall k: [2]string :: k[0] == ec.UserID && k[1] == ec.DeviceID ==> has(extensions.deviceIDToSinceDebugOnly, k));
  ensures others: forall k: [2]string :: (k[0] != ec.UserID || k[1] != ec.DeviceID) ==> (has(extensions.deviceIDToSinceDebugOnly, k) <==> old(has(extensions.deviceIDToSinceDebugOnly, k)));
}
func extensions.ToDeviceRequest.ApplyDelta(r, g) {
  requires r != nil && is<*extensions.ToDeviceRequest>(g) && as<*extensions.ToDeviceRequest>(g) != nil && as<*extensions.ToDeviceRequest>(g) != r;
  ensures limit: r.Limit == ite(as<*extensions.ToDeviceRequest>(g).Limit != 0, as<*extensions.ToDeviceRequest>(g).Limit, old(r.Limit));
  ensures since: r.Since == ite(as<*extensions.ToDeviceRequest>(g).Since != "", as<*extensions.ToDeviceRequest>(g).Since, old(r.Since));
}
property R18;
trusted extensions.E2EEFetcher.DeviceData(f, ctx, u, d, initial) returns (dd) { modifies nothing; ensures dd == pure<*internal.DeviceData>("e2ee:dd", f, u, d, initial); ensures fresh: dd != nil ==> fresh(dd); }
trusted internal.DeviceKeyData.OTKCountChanged(k) returns (b) { option pure; modifies nothing; ensures b == pure<bool>("bit:otk", k.ChangedBits); }
trusted internal.DeviceKeyData.FallbackKeysChanged(k) returns (b) { option pure; modifies nothing; ensures b == pure<bool>("bit:fb", k.ChangedBits); }
def ddOf(ec) = pure<*internal.DeviceData>("e2ee:dd", ec.E2EEFetcher, ec.UserID, ec.DeviceID, ec.IsInitial);
def wantFb(ec) = ddOf(ec).FallbackKeyTypes != nil && (pure<bool>("bit:fb", ddOf(ec).ChangedBits) || ec.IsInitial);
def wantOtk(ec) = ddOf(ec).OTKCounts != nil && (pure<bool>("bit:otk", ddOf(ec).ChangedBits) || ec.IsInitial);
def wantLists(ec) = len(ddOf(ec).DeviceListChanged) > 0 || len(ddOf(ec).DeviceListLeft) > 0;
func extensions.E2EERequest.ProcessInitial(r, ctx, res, ec) {
  requires wf: r != nil && res != nil && ec.Handler != nil && ec.E2EEFetcher != nil;
  ensures unknown: ddOf(ec) == nil ==> res.E2EE == old(res.E2EE);
  ensures nothing: ddOf(ec) != nil && !wantFb(ec) && !wantOtk(ec) && !wantLists(ec) ==> res.E2EE == old(res.E2EE);
  ensures something: ddOf(ec) != nil && (wantFb(ec) || wantOtk(ec) || wantLists(ec)) ==> res.E2EE != nil && fresh(res.E2EE);
  ensures otk: ddOf(ec) != nil && wantOtk(ec) ==> res.E2EE.OTKCounts == ddOf(ec).OTKCounts;
  ensures lists: ddOf(ec) != nil && wantLists(ec) ==> res.E2EE.DeviceLists != nil && same(res.E2EE.DeviceLists.Changed, ddOf(ec).DeviceListChanged) && same(res.E2EE.DeviceLists.Left, ddOf(ec).DeviceListLeft);
  ensures only: ddOf(ec) != nil && (wantFb(ec) || wantOtk(ec) || wantLists(ec)) ==> (!wantOtk(ec) ==> res.E2EE.OTKCounts == nil) && (!wantFb(ec) ==> res.E2EE.FallbackKeyTypes == nil) && (!wantLists(ec) ==> res.E2EE.DeviceLists == nil);
}
func extensions.E2EERequest.AppendLive(r, ctx, res, ec, up) {
  requires wf: r != nil && res != nil && ec.Handler != nil && ec.E2EEFetcher != nil;
  // what is in the response already is moved to 'sent', so it must never be replaced
  ensures kept: old(res.E2EE != nil && (res.E2EE.DeviceLists != nil || res.E2EE.FallbackKeyTypes != nil || len(res.E2EE.OTKCounts) > 0)) ==> res.E2EE == old(res.E2EE);
  ensures other_updates: !is<caches.DeviceDataUpdate>(up) ==> res.E2EE == old(res.E2EE);
}
func extensions.E2EEResponse.HasData(r, initial) returns (ok) {
  requires r != nil;
  ensures v: ok <==> initial || r.DeviceLists != nil || r.FallbackKeyTypes != nil || len(r.OTKCounts) > 0;
}
