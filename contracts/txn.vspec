property R08;

// what the waiter has passed on, in order
ghost pubLen: int;
ghost pubAt: gmap[int]int;
trusted handler.TxnIDWaiter.publish(delayed, up) { modifies pubLen, pubAt; ensures n: pubLen == old(pubLen) + 1; ensures at: pubAt == store(old(pubAt), old(pubLen), up.data); }
trusted time.AfterFunc(d, f) returns (t) { option pure; modifies nothing; }

def q(t, r) = get(t.queues, r);
def wfq(t) = t != nil && t.queues != nil && (forall r: string :: forall i: int :: 0 <= i && i < len(q(t, r)) ==> q(t, r)[i] != nil && q(t, r)[i].EventData != nil);
def held(t, ed) = has(t.queues, ed.RoomID) || (ed.StateKey == nil && ed.Sender == t.userID && ed.TransactionID == "");

func handler.TxnIDWaiter.Ingest(t, up) {
  requires wf: wfq(t);
  requires ev: is<*caches.RoomEventUpdate>(up) ==> as<*caches.RoomEventUpdate>(up) != nil && as<*caches.RoomEventUpdate>(up).EventData != nil;
  modifies pubLen, pubAt, entries(t.queues);
  ensures passed_on: !(t.maxDelay > 0 && is<*caches.RoomEventUpdate>(up) && old(held(t, as<*caches.RoomEventUpdate>(up).EventData))) ==>
     pubLen == old(pubLen) + 1 && pubAt == store(old(pubAt), old(pubLen), up.data);
  ensures passed_on_frame: !(t.maxDelay > 0 && is<*caches.RoomEventUpdate>(up) && old(held(t, as<*caches.RoomEventUpdate>(up).EventData))) ==>
     domeq(t.queues, old(dom(t.queues))) && (forall r: string :: same(q(t, r), old(q(t, r))));
  ensures held_back: t.maxDelay > 0 && is<*caches.RoomEventUpdate>(up) && old(held(t, as<*caches.RoomEventUpdate>(up).EventData)) ==> pubLen == old(pubLen) && pubAt == old(pubAt);
  ensures queued: t.maxDelay > 0 && is<*caches.RoomEventUpdate>(up) && old(held(t, as<*caches.RoomEventUpdate>(up).EventData)) ==>
     has(t.queues, as<*caches.RoomEventUpdate>(up).EventData.RoomID)
     && len(q(t, as<*caches.RoomEventUpdate>(up).EventData.RoomID)) == old(len(q(t, as<*caches.RoomEventUpdate>(up).EventData.RoomID))) + 1
     && q(t, as<*caches.RoomEventUpdate>(up).EventData.RoomID)[old(len(q(t, as<*caches.RoomEventUpdate>(up).EventData.RoomID)))] == as<*caches.RoomEventUpdate>(up);
  ensures queued_order: t.maxDelay > 0 && is<*caches.RoomEventUpdate>(up) && old(held(t, as<*caches.RoomEventUpdate>(up).EventData)) ==>
     (forall i: int :: 0 <= i && i < old(len(q(t, as<*caches.RoomEventUpdate>(up).EventData.RoomID))) ==> q(t, as<*caches.RoomEventUpdate>(up).EventData.RoomID)[i] == old(q(t, as<*caches.RoomEventUpdate>(up).EventData.RoomID)[i]));
  ensures other_rooms: forall r: string :: is<*caches.RoomEventUpdate>(up) && r != as<*caches.RoomEventUpdate>(up).EventData.RoomID ==> (has(t.queues, r) <==> old(has(t.queues, r))) && same(q(t, r), old(q(t, r)));
  ensures wf: wfq(t);
}
func handler.TxnIDWaiter.PublishUpToNID(t, roomID, n) {
  requires wf: wfq(t);
  modifies pubLen, pubAt, entries(t.queues);
  invariant [i: progress] below: forall j: int :: 0 <= j && j < i ==> q(t, roomID)[j].EventData.NID <= n;
  invariant [i: progress] count: pubLen == old(pubLen) + i;
  invariant [i: progress] inorder: forall j: int :: 0 <= j && j < i ==> pubAt[old(pubLen) + j] == ref(old(q(t, roomID)[j]));
  invariant before: forall j: int :: j < old(pubLen) ==> pubAt[j] == old(pubAt[j]);
  ensures kept: pubLen >= old(pubLen) && pubLen - old(pubLen) <= old(len(q(t, roomID))) && len(q(t, roomID)) == old(len(q(t, roomID))) - (pubLen - old(pubLen));
  ensures rest: forall j: int :: 0 <= j && j < len(q(t, roomID)) ==> q(t, roomID)[j] == old(q(t, roomID))[j + pubLen - old(pubLen)];
  ensures upto: forall j: int :: 0 <= j && j < pubLen - old(pubLen) ==> old(q(t, roomID)[j].EventData.NID) <= n;
  ensures stop: len(q(t, roomID)) > 0 ==> q(t, roomID)[0].EventData.NID > n;
  ensures inorder: forall j: int :: 0 <= j && j < pubLen - old(pubLen) ==> pubAt[old(pubLen) + j] == ref(old(q(t, roomID)[j]));
  ensures before: forall j: int :: j < old(pubLen) ==> pubAt[j] == old(pubAt[j]);
  ensures empty: len(q(t, roomID)) == 0 && old(len(q(t, roomID))) > 0 ==> !has(t.queues, roomID);
  ensures other_rooms: forall r: string :: r != roomID ==> (has(t.queues, r) <==> old(has(t.queues, r))) && same(q(t, r), old(q(t, r)));
  ensures wf: wfq(t);
}
func sync2.removeDevice(device, devices) returns (out, changed) {
  invariant [i: progress] none: forall j: int :: 0 <= j && j < i ==> devices[j] != device;
  ensures changed: changed <==> old(device in devices);
  ensures shorter: len(out) == len(devices) - ite(changed, 1, 0);
  ensures kept: forall j: int :: 0 <= j && j < len(devices) && old(devices[j]) != device ==> old(devices[j]) in out;
  ensures only: forall j: int :: 0 <= j && j < len(out) ==> (exists k: int :: 0 <= k && k < len(devices) && out[j] == old(devices[k]));
  ensures gone: (forall a: int :: forall b: int :: 0 <= a && a < b && b < len(devices) ==> old(devices[a]) != old(devices[b])) ==> !(device in out);
}
