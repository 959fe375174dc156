property R19;

// what the poller told its receiver during one poll
ghost again: bool;                 // some call failed in a way that can be retried
ghost sinceN: int; ghost sinceUser: string; ghost sinceDev: string; ghost sinceVal: string;
ghost tdN: int; ghost tdOK: bool;
ghost e2N: int; ghost e2OK: bool; ghost e2User: string; ghost e2Dev: string; ghost e2Otk: map[string]int; ghost e2Lists: map[string]int; ghost e2FbNil: bool; ghost e2FbLen: int; ghost e2FbAt: gmap[int]string;
ghost accOK: gmap[string]bool;     // account data calls that went through, by room ("" for global)
ghost initOK: gmap[string]bool; ghost tlOK: gmap[string]bool; ghost invOK: gmap[string]bool; ghost leftOK: gmap[string]bool;
ghost failedRoom: gmap[string]bool;
ghost expired: int;
def isData(e) = pure<bool>("errorsAs:*internal.DataError", e);
def retriable(e) = e != nil && !isData(e);
trusted sync2.V2DataReceiver.UpdateDeviceSince(r, ctx, u, d, since) {
  modifies sinceN, sinceUser, sinceDev, sinceVal;
  ensures sinceN == old(sinceN) + 1 && sinceUser == u && sinceDev == d && sinceVal == since;
}
trusted sync2.V2DataReceiver.AddToDeviceMessages(r, ctx, u, d, msgs) returns (err) {
  modifies tdN, tdOK, again;
  ensures tdN == old(tdN) + 1 && tdOK == (err == nil) && again == (old(again) || retriable(err));
}
trusted sync2.V2DataReceiver.OnE2EEData(r, ctx, u, d, otk, fb, lists) returns (err) {
  modifies e2N, e2OK, again, e2User, e2Dev, e2Otk, e2Lists, e2FbNil, e2FbLen, e2FbAt;
  ensures e2User == u && e2Dev == d && e2Otk == otk && e2Lists == lists && e2FbNil == (fb == nil) && e2FbLen == len(fb) && (forall i: int :: 0 <= i && i < len(fb) ==> e2FbAt[i] == fb[i]);
  ensures e2N == old(e2N) + 1 && e2OK == (err == nil) && again == (old(again) || retriable(err));
}
trusted sync2.V2DataReceiver.OnAccountData(r, ctx, u, room, evs) returns (err) {
  modifies accOK, failedRoom, again;
  ensures accOK == store(old(accOK), room, old(accOK[room]) || err == nil);
  ensures failedRoom == store(old(failedRoom), room, old(failedRoom[room]) || err != nil);
  ensures again == (old(again) || retriable(err));
  ensures as: is<*internal.DataError>(err) ==> isData(err);
}
trusted sync2.V2DataReceiver.Initialise(r, ctx, room, evs) returns (err) {
  modifies initOK, failedRoom, again;
  ensures initOK == store(old(initOK), room, old(initOK[room]) || err == nil);
  ensures failedRoom == store(old(failedRoom), room, err != nil);
  ensures again == (old(again) || retriable(err));
  ensures as: is<*internal.DataError>(err) ==> isData(err);
}
trusted sync2.V2DataReceiver.Accumulate(r, ctx, u, d, room, tl) returns (err) {
  modifies tlOK, failedRoom, again;
  ensures tlOK == store(old(tlOK), room, old(tlOK[room]) || err == nil);
  ensures failedRoom == store(old(failedRoom), room, old(failedRoom[room]) || err != nil);
  ensures again == (old(again) || retriable(err));
  ensures as: is<*internal.DataError>(err) ==> isData(err);
}
trusted sync2.V2DataReceiver.OnInvite(r, ctx, u, room, st) returns (err) {
  modifies invOK, failedRoom, again;
  ensures invOK == store(old(invOK), room, old(invOK[room]) || err == nil);
  ensures failedRoom == store(old(failedRoom), room, old(failedRoom[room]) || err != nil);
  ensures again == (old(again) || retriable(err));
  ensures as: is<*internal.DataError>(err) ==> isData(err);
}
trusted sync2.V2DataReceiver.OnLeftRoom(r, ctx, u, room, ev) returns (err) {
  modifies leftOK, failedRoom, again;
  ensures leftOK == store(old(leftOK), room, old(leftOK[room]) || err == nil);
  ensures failedRoom == store(old(failedRoom), room, old(failedRoom[room]) || err != nil);
  ensures again == (old(again) || retriable(err));
  ensures as: is<*internal.DataError>(err) ==> isData(err);
}
trusted sync2.V2DataReceiver.SetTyping(r, ctx, pid, room, ev) { modifies nothing; }
trusted sync2.V2DataReceiver.OnReceipt(r, ctx, u, room, t, ev) { modifies nothing; }
trusted sync2.V2DataReceiver.UpdateUnreadCounts(r, ctx, room, u, hc, nc) { modifies nothing; }
trusted sync2.V2DataReceiver.OnExpiredToken(r, ctx, h, u, d) { modifies expired; ensures expired == old(expired) + 1; }
ghost gResp: *sync2.SyncResponse; ghost askedSince: string; ghost asks: int; ghost code: int; ghost reqErr: bool;
trusted sync2.Client.DoSyncV2(c, ctx, tok, since, first, td) returns (r, status, err) {
  modifies gResp, askedSince, asks, code, reqErr;
  ensures asks == old(asks) + 1 && askedSince == since && gResp == r && code == status && reqErr == (err != nil);
  ensures ok: err == nil ==> r != nil;
}

func sync2.shouldRetry(e) returns (again2) {
  modular; modifies nothing;
  ensures v: again2 <==> retriable(e);
}
func sync2.poller.parseToDeviceMessages(p, ctx, res) returns (err) {
  requires wf: p != nil && res != nil && p.receiver != nil;
  modular;
  modifies tdN, tdOK, again, p.totalDeviceEvents;
  ensures none: len(res.ToDevice.Events) == 0 ==> err == nil && tdN == old(tdN) && again == old(again);
  ensures once: len(res.ToDevice.Events) > 0 ==> tdN == old(tdN) + 1 && tdOK == (err == nil) && again == (old(again) || retriable(err));
}

func sync2.poller.parseGlobalAccountData(p, ctx, res) returns (err) {
  requires wf: p != nil && res != nil && p.receiver != nil;
  modular;
  modifies accOK, failedRoom, again, p.totalAccountData;
  ensures none: len(res.AccountData.Events) == 0 ==> err == nil && again == old(again) && accOK == old(accOK);
  ensures stored: len(res.AccountData.Events) > 0 && err == nil ==> accOK[""];
  ensures told: again == (old(again) || retriable(err));
}
def otkNews(p, res) = len(res.DeviceListsOTKCount) > 0 && (len(p.otkCounts) != len(res.DeviceListsOTKCount) || (exists k: string :: has(res.DeviceListsOTKCount, k) && (!has(p.otkCounts, k) || get(p.otkCounts, k) != get(res.DeviceListsOTKCount, k))));
func sync2.poller.parseE2EEData(p, ctx, res) returns (err) {
  requires wf: p != nil && res != nil && p.receiver != nil;
  modular;
  modifies e2N, e2OK, again, e2User, e2Dev, e2Otk, e2Lists, e2FbNil, e2FbLen, e2FbAt, p.totalChangedDeviceLists, p.totalLeftDeviceLists, p.otkCounts, p.fallbackKeyTypes;
  ensures told: again == (old(again) || retriable(err));
  ensures at_most_once: e2N == old(e2N) || (e2N == old(e2N) + 1 && e2OK == (err == nil));
  // what could not be stored is not remembered, so the retry sees the difference again
  ensures forget: err != nil ==> p.otkCounts == old(p.otkCounts) && same(p.fallbackKeyTypes, old(p.fallbackKeyTypes));
  ensures remember: err == nil && len(res.DeviceListsOTKCount) > 0 ==> p.otkCounts == res.DeviceListsOTKCount;
  invariant [v: visited string] same_otk: forall k: string :: k in v ==> has(p.otkCounts, k) && get(p.otkCounts, k) == get(res.DeviceListsOTKCount, k);
  invariant [i: progress] same_fb: forall k: int :: 0 <= k && k < i ==> p.fallbackKeyTypes[k] == res.DeviceUnusedFallbackKeyTypes[k];
  ensures who: e2N != old(e2N) ==> e2User == p.userID && e2Dev == p.deviceID;
  ensures otk_news: old(otkNews(p, res)) ==> e2N == old(e2N) + 1 && e2Otk == res.DeviceListsOTKCount;
  ensures otk_only: e2N != old(e2N) && !old(otkNews(p, res)) ==> e2Otk == nil;
  ensures fb_news: old(fbNews(p, res)) && res.DeviceUnusedFallbackKeyTypes != nil ==> e2N == old(e2N) + 1 && !e2FbNil && e2FbLen == len(res.DeviceUnusedFallbackKeyTypes) && (forall i: int :: 0 <= i && i < e2FbLen ==> e2FbAt[i] == res.DeviceUnusedFallbackKeyTypes[i]);
  ensures fb_only: e2N != old(e2N) && !old(fbNews(p, res)) ==> e2FbNil;
  ensures lists: len(res.DeviceLists.Changed) > 0 || len(res.DeviceLists.Left) > 0 ==> e2N == old(e2N) + 1 && (forall u: string :: (has(e2Lists, u) <==> u in res.DeviceLists.Changed || u in res.DeviceLists.Left) && (has(e2Lists, u) ==> get(e2Lists, u) == ite(u in res.DeviceLists.Left, 2, 1)));
}
def fbNews(p, res) = len(p.fallbackKeyTypes) != len(res.DeviceUnusedFallbackKeyTypes) || (p.fallbackKeyTypes == nil) != (res.DeviceUnusedFallbackKeyTypes == nil) || (exists i: int :: 0 <= i && i < len(p.fallbackKeyTypes) && p.fallbackKeyTypes[i] != res.DeviceUnusedFallbackKeyTypes[i]);
func internal.ToDeviceListChangesMap(changed, left) returns (m) {
  modular;
  modifies nothing;
  invariant [i: progress, m: written map[string]int] first: forall u: string :: has(m, u) <==> (exists k: int :: 0 <= k && k < i && changed[k] == u);
  invariant [m: written map[string]int] firstv: forall u: string :: has(m, u) ==> get(m, u) == 1;
  invariant [i: progress, m: written map[string]int] second: forall u: string :: has(m, u) <==> u in changed || (exists k: int :: 0 <= k && k < i && left[k] == u);
  invariant [i: progress, m: written map[string]int] secondv: forall u: string :: has(m, u) ==> get(m, u) == ite(exists k: int :: 0 <= k && k < i && left[k] == u, 2, 1);
  ensures none: m == nil <==> len(changed) == 0 && len(left) == 0;
  ensures all: forall u: string :: has(m, u) <==> u in changed || u in left;
  ensures which: forall u: string :: has(m, u) ==> get(m, u) == ite(u in left, 2, 1);
}

// a joined room that did not fail was taken in completely: state first, then account data and timeline
def joinDone(res, r) = failedRoom[r] || ((len(get(res.Rooms.Join, r).State.Events) > 0 ==> initOK[r]) && (len(get(res.Rooms.Join, r).AccountData.Events) > 0 ==> accOK[r])
  && (len(get(res.Rooms.Join, r).Timeline.Events) > 0 && (len(get(res.Rooms.Join, r).State.Events) == 0 || len(get(res.Rooms.Join, r).Timeline.Events) > 1) ==> tlOK[r]));
def leaveDone(res, r) = failedRoom[r] || (len(get(res.Rooms.Leave, r).Timeline.Events) > 0 ==> tlOK[r]);
def inviteDone(res, r) = failedRoom[r] || invOK[r];
func sync2.poller.parseRoomsResponse(p, ctx, res) returns (err) {
  requires wf: p != nil && res != nil && p.receiver != nil;
  requires new: !again;
  modular;
  modifies again, accOK, initOK, tlOK, invOK, leftOK, failedRoom, p.totalReceipts, p.totalStateCalls, p.totalTimelineCalls, p.totalTyping, p.totalInvites, all<[]json.RawMessage>();
  invariant [e: phi []error] found: again ==> (exists k: int :: 0 <= k && k < len(e) && retriable(e[k]));
  invariant [e: phi []error] real: (exists k: int :: 0 <= k && k < len(e) && retriable(e[k])) ==> again;
  invariant [e: phi []error] nonnil: forall k: int :: 0 <= k && k < len(e) ==> e[k] != nil;
  invariant [i: progress, l: var []error, e: phi []error] picked: forall k: int :: 0 <= k && k < i && retriable(l[k]) ==> len(e) > 0;
  invariant [e: phi []error] only: forall k: int :: 0 <= k && k < len(e) ==> retriable(e[k]);
  invariant [v: visited string] joins: forall r: string :: r in v ==> joinDone(res, r);
  invariant [v: visited string] leaves: forall r: string :: r in v ==> leaveDone(res, r);
  invariant [v: visited string] invites: forall r: string :: r in v ==> inviteDone(res, r);
  invariant alljoins: forall r: string :: has(res.Rooms.Join, r) ==> joinDone(res, r);
  invariant allleaves: forall r: string :: has(res.Rooms.Leave, r) ==> leaveDone(res, r);
  ensures lost_nothing: again ==> retriable(err);
  ensures no_more: retriable(err) ==> again;
  ensures joins: forall r: string :: has(res.Rooms.Join, r) ==> joinDone(res, r);
  ensures leaves: forall r: string :: has(res.Rooms.Leave, r) ==> leaveDone(res, r);
  ensures invites: forall r: string :: has(res.Rooms.Invite, r) ==> inviteDone(res, r);
}
trusted sync2.hashToken(t) returns (h) { option pure; modifies nothing; ensures h: h == pure<string>("tokHash", t); }
func sync2.poller.poll(p, ctx, s) returns (err) {
  requires wf: p != nil && s != nil && p.client != nil && p.receiver != nil && p.wg != nil && p.terminated != nil;
  requires new: !again;
  // when anything could not be stored the same response is asked for again
  ensures retry: again ==> s.since == old(s.since) && sinceN == old(sinceN) && err == nil && s.failCount > 0 && s.firstTime == old(s.firstTime);
  ensures asks_on: asks == old(asks) || (asks == old(asks) + 1 && askedSince == old(s.since));
  ensures moved: s.since != old(s.since) ==> asks == old(asks) + 1 && !reqErr && s.since == gResp.NextBatch && err == nil;
  ensures complete: s.since != old(s.since) || sinceN != old(sinceN) || (old(s.firstTime) && !s.firstTime) ==> !again && s.since == gResp.NextBatch && (forall r: string :: (has(gResp.Rooms.Join, r) ==> joinDone(gResp, r)) && (has(gResp.Rooms.Leave, r) ==> leaveDone(gResp, r)) && (has(gResp.Rooms.Invite, r) ==> inviteDone(gResp, r)))
    && (len(gResp.ToDevice.Events) > 0 ==> tdN == old(tdN) + 1);
  ensures goes_on: asks == old(asks) + 1 && !reqErr && !again && err == nil ==> s.since == gResp.NextBatch && s.failCount == 0 && !s.firstTime;
  // to-device messages are stored last and the position right after them
  ensures to_device: tdN != old(tdN) && tdOK ==> tdN == old(tdN) + 1 && s.since == gResp.NextBatch && sinceN == old(sinceN) + 1;
  ensures position: sinceN != old(sinceN) ==> sinceN == old(sinceN) + 1 && sinceVal == s.since && sinceUser == p.userID && sinceDev == p.deviceID;
  // requests that fail change nothing, and only an invalid token ends the poller
  ensures request_failed: asks == old(asks) + 1 && reqErr ==> s.since == old(s.since) && sinceN == old(sinceN) && !again && (err == nil ==> s.failCount == old(s.failCount) + 1 && code != 401 && code != 403);
  ensures expired: expired != old(expired) ==> err != nil && expired == old(expired) + 1 && (old(s.failCount) > 1000 || (reqErr && (code == 401 || code == 403)));
}
