property R05;

// what has been delivered: number of deliveries, the receiver of each, and per receiver how many events it got and the last one
ghost total: int;
ghost seqTo: gmap[int]int;
ghost got: gmap[int]int;
ghost gotForce: gmap[int]bool;
ghost gotNID: gmap[int]int;
ghost gotRoom: gmap[int]string;
trusted sync3.Receiver.OnNewEvent(r, ctx, ed) {
  modifies total, seqTo, got, gotForce, gotNID, gotRoom;
  ensures total == old(total) + 1; ensures seqTo == store(old(seqTo), old(total), r.data);
  ensures got == store(old(got), r.data, old(got[r.data]) + 1);
  ensures gotForce == store(old(gotForce), r.data, ed.ForceInitial);
  ensures gotNID == store(old(gotNID), r.data, ed.NID);
  ensures gotRoom == store(old(gotRoom), r.data, ed.RoomID);
}
trusted sync3.Receiver.OnReceipt(r, ctx, receipt) {
  modifies total, seqTo, got, gotRoom;
  ensures total == old(total) + 1; ensures seqTo == store(old(seqTo), old(total), r.data);
  ensures got == store(old(got), r.data, old(got[r.data]) + 1);
  ensures gotRoom == store(old(gotRoom), r.data, receipt.RoomID);
}
trusted sync3.Receiver.OnEphemeralEvent(r, ctx, room, ev) {
  modifies total, seqTo, got, gotRoom;
  ensures total == old(total) + 1; ensures seqTo == store(old(seqTo), old(total), r.data);
  ensures got == store(old(got), r.data, old(got[r.data]) + 1);
  ensures gotRoom == store(old(gotRoom), r.data, room);
}
trusted sync3.Receiver.OnRegistered(r, ctx) returns (err) { modifies nothing; }

def recv(d, u) = get(d.userToReceiver, u);
def reg(d, u) = recv(d, u) != nil;
def rid(d, u) = recv(d, u).data;
// every registered user has a receiver of its own
def wfd(d) = d != nil && d.userToReceiver != nil && d.jrt != nil && (forall u, v: string :: u != v && reg(d, u) && reg(d, v) ==> rid(d, u) != rid(d, v));
def distinctUsers(us) = (forall a: int :: forall b: int :: 0 <= a && a < b && b < len(us) ==> us[a] != us[b]) && !("-" in us);

func sync3.Dispatcher.notifyListeners(d, ctx, ed, us, target, force, membership) {
  modular;
  requires wf: wfd(d) && ed != nil;
  requires us: distinctUsers(us);
  modifies total, seqTo, got, gotForce, gotNID, gotRoom;
  invariant [i: progress] counts: forall u: string :: reg(d, u) && u != "-" ==> got[rid(d, u)] == old(got[rid(d, u)]) + ite(exists k: int :: 0 <= k && k < i && us[k] == u, 1, 0);
  invariant [i: progress] what: forall k: int :: 0 <= k && k < i && reg(d, us[k]) ==> gotNID[rid(d, us[k])] == ed.NID && gotRoom[rid(d, us[k])] == ed.RoomID && (gotForce[rid(d, us[k])] <==> ed.ForceInitial || (force && us[k] == target));
  invariant global: reg(d, "-") ==> got[rid(d, "-")] == old(got[rid(d, "-")]) + 1 && gotNID[rid(d, "-")] == ed.NID && gotRoom[rid(d, "-")] == ed.RoomID && seqTo[old(total)] == rid(d, "-") && total > old(total);
  invariant no_global: !reg(d, "-") ==> total >= old(total);
  invariant strangers: forall x: int :: (forall u: string :: reg(d, u) ==> rid(d, u) != x) ==> got[x] == old(got[x]);
  ensures each_once: forall u: string :: reg(d, u) && u != "-" ==> got[rid(d, u)] == old(got[rid(d, u)]) + ite(u in us, 1, 0);
  ensures what: forall u: string :: reg(d, u) && u in us ==> gotNID[rid(d, u)] == ed.NID && gotRoom[rid(d, u)] == ed.RoomID && (gotForce[rid(d, u)] <==> ed.ForceInitial || (force && u == target));
  ensures global_first: reg(d, "-") ==> got[rid(d, "-")] == old(got[rid(d, "-")]) + 1 && gotNID[rid(d, "-")] == ed.NID && gotRoom[rid(d, "-")] == ed.RoomID && seqTo[old(total)] == rid(d, "-");
  ensures strangers: forall x: int :: (forall u: string :: reg(d, u) ==> rid(d, u) != x) ==> got[x] == old(got[x]);
}
func sync3.Dispatcher.OnReceipt(d, ctx, receipt) {
  requires wf: wfd(d) && trackerInv(d.jrt);
  modifies total, seqTo, got, gotRoom;
  invariant [i: progress, us: var []string] counts: forall u: string :: reg(d, u) && u != "-" ==> got[rid(d, u)] == old(got[rid(d, u)]) + ite(exists k: int :: 0 <= k && k < i && us[k] == u, 1, 0);
  invariant [i: progress, us: var []string] what: forall k: int :: 0 <= k && k < i && reg(d, us[k]) ==> gotRoom[rid(d, us[k])] == receipt.RoomID;
  invariant global: reg(d, "-") ==> got[rid(d, "-")] == old(got[rid(d, "-")]) + 1 && seqTo[old(total)] == rid(d, "-") && total > old(total);
  invariant strangers: forall x: int :: (forall u: string :: reg(d, u) ==> rid(d, u) != x) ==> got[x] == old(got[x]);
  ensures members_once: forall u: string :: reg(d, u) && u != "-" ==> got[rid(d, u)] == old(got[rid(d, u)]) + ite(joined(d.jrt, u, receipt.RoomID), 1, 0);
  ensures what: forall u: string :: reg(d, u) && u != "-" && joined(d.jrt, u, receipt.RoomID) ==> gotRoom[rid(d, u)] == receipt.RoomID;
  ensures global_first: reg(d, "-") ==> got[rid(d, "-")] == old(got[rid(d, "-")]) + 1 && seqTo[old(total)] == rid(d, "-");
  ensures strangers: forall x: int :: (forall u: string :: reg(d, u) ==> rid(d, u) != x) ==> got[x] == old(got[x]);
}
func sync3.Dispatcher.OnEphemeralEvent(d, ctx, room, ev) {
  requires wf: wfd(d) && trackerInv(d.jrt);
  modifies total, seqTo, got, gotRoom;
  invariant [i: progress, us: var []string] counts: forall u: string :: reg(d, u) && u != "-" ==> got[rid(d, u)] == old(got[rid(d, u)]) + ite(exists k: int :: 0 <= k && k < i && us[k] == u, 1, 0);
  invariant [i: progress, us: var []string] what: forall k: int :: 0 <= k && k < i && reg(d, us[k]) ==> gotRoom[rid(d, us[k])] == room;
  invariant global: reg(d, "-") ==> got[rid(d, "-")] == old(got[rid(d, "-")]) + 1 && seqTo[old(total)] == rid(d, "-") && total > old(total);
  invariant strangers: forall x: int :: (forall u: string :: reg(d, u) ==> rid(d, u) != x) ==> got[x] == old(got[x]);
  ensures members_once: forall u: string :: reg(d, u) && u != "-" ==> got[rid(d, u)] == old(got[rid(d, u)]) + ite(joined(d.jrt, u, room), 1, 0);
  ensures what: forall u: string :: reg(d, u) && u != "-" && joined(d.jrt, u, room) ==> gotRoom[rid(d, u)] == room;
  ensures global_first: reg(d, "-") ==> got[rid(d, "-")] == old(got[rid(d, "-")]) + 1 && seqTo[old(total)] == rid(d, "-");
  ensures strangers: forall x: int :: (forall u: string :: reg(d, u) ==> rid(d, u) != x) ==> got[x] == old(got[x]);
}
func sync3.Dispatcher.Register(d, ctx, u, r) returns (err) {
  requires wf: d != nil && d.userToReceiver != nil;
  modifies entries(d.userToReceiver);
  ensures registered: recv(d, u) == r;
  ensures others: forall v: string :: v != u ==> recv(d, v) == old(recv(d, v));
}
func sync3.Dispatcher.Unregister(d, u) {
  requires wf: d != nil && d.userToReceiver != nil;
  modifies entries(d.userToReceiver);
  ensures gone: !has(d.userToReceiver, u);
  ensures others: forall v: string :: v != u ==> recv(d, v) == old(recv(d, v)) && (has(d.userToReceiver, v) <==> old(has(d.userToReceiver, v)));
}
func sync3.Dispatcher.UnregisterBulk(d, us) returns (out) {
  requires wf: d != nil && d.userToReceiver != nil;
  modifies entries(d.userToReceiver);
  invariant [i: progress] gone: forall k: int :: 0 <= k && k < i ==> !has(d.userToReceiver, us[k]);
  invariant [i: progress] others: forall v: string :: (forall k: int :: 0 <= k && k < i ==> us[k] != v) ==> recv(d, v) == old(recv(d, v)) && (has(d.userToReceiver, v) <==> old(has(d.userToReceiver, v)));
  invariant [o: var []string, i: progress] listed: forall k: int :: 0 <= k && k < i && old(has(d.userToReceiver, us[k])) ==> us[k] in o;
  invariant [o: var []string, i: progress] only: forall j: int :: 0 <= j && j < len(o) ==> o[j] in old(dom(d.userToReceiver));
  invariant [o: var []string, i: progress] from: forall j: int :: 0 <= j && j < len(o) ==> (exists k: int :: 0 <= k && k < i && us[k] == o[j]);
  ensures gone: forall k: int :: 0 <= k && k < len(us) ==> !has(d.userToReceiver, us[k]);
  ensures others: forall v: string :: !(v in us) ==> recv(d, v) == old(recv(d, v)) && (has(d.userToReceiver, v) <==> old(has(d.userToReceiver, v)));
  ensures listed: forall k: int :: 0 <= k && k < len(us) && old(has(d.userToReceiver, us[k])) ==> us[k] in out;
  ensures only: forall j: int :: 0 <= j && j < len(out) ==> out[j] in old(dom(d.userToReceiver));
  ensures from: forall j: int :: 0 <= j && j < len(out) ==> out[j] in us;
}
func sync3.Dispatcher.ReceiverForUser(d, u) returns (r) {
  requires d != nil;
  modifies nothing;
  ensures found: r == recv(d, u);
}

// what the dispatcher reads off an event
def evGet(ev, path) = pure<gjson.Result>("fn:github.com/tidwall/gjson.Result.Get", pure<gjson.Result>("fn:github.com/tidwall/gjson.ParseBytes", ev), path);
def isMember(ev) = evGet(ev, "type").Str == "m.room.member" && pure<bool>("fn:github.com/tidwall/gjson.Result.Exists", evGet(ev, "state_key"));
def tgt(ev) = evGet(ev, "state_key").Str;
def mship(ev) = pure<gjson.Result>("fn:github.com/tidwall/gjson.Result.Get", evGet(ev, "content"), "membership").Str;
def leaves(ev) = isMember(ev) && (mship(ev) == "leave" || mship(ev) == "ban");
func sync3.Dispatcher.OnNewEvent(d, ctx, room, ev, nid) {
  requires wf: wfd(d) && trackerInv(d.jrt);
  requires user: tgt(ev) != "-";
  ensures tracker: trackerInv(d.jrt);
  ensures joins: forall a, b: string :: joined(d.jrt, a, b) <==> ite(isMember(ev) && b == room && a == tgt(ev) && (mship(ev) == "join" || leaves(ev)), mship(ev) == "join", old(joined(d.jrt, a, b)));
  ensures members: forall u: string :: reg(d, u) && u != "-" && joined(d.jrt, u, room) ==> got[rid(d, u)] == old(got[rid(d, u)]) + 1;
  ensures leaver: reg(d, tgt(ev)) && leaves(ev) ==> got[rid(d, tgt(ev))] == old(got[rid(d, tgt(ev))]) + ite(old(joined(d.jrt, tgt(ev), room) || invited(d.jrt, tgt(ev), room)), 1, 0);
  ensures nobody_else: forall u: string :: reg(d, u) && u != "-" && !joined(d.jrt, u, room) && !(leaves(ev) && u == tgt(ev)) ==> got[rid(d, u)] == old(got[rid(d, u)]);
  ensures what: forall u: string :: reg(d, u) && u != "-" && joined(d.jrt, u, room) ==> gotNID[rid(d, u)] == nid && gotRoom[rid(d, u)] == room;
  ensures force: isMember(ev) && mship(ev) == "join" && reg(d, tgt(ev)) ==> (gotForce[rid(d, tgt(ev))] <==> !old(joined(d.jrt, tgt(ev), room)));
  ensures no_force: forall u: string :: reg(d, u) && u != "-" && joined(d.jrt, u, room) && !(isMember(ev) && mship(ev) == "join" && u == tgt(ev)) ==> !gotForce[rid(d, u)];
  ensures global_first: reg(d, "-") ==> got[rid(d, "-")] == old(got[rid(d, "-")]) + 1 && gotNID[rid(d, "-")] == nid && gotRoom[rid(d, "-")] == room && seqTo[old(total)] == rid(d, "-");
  ensures strangers: forall x: int :: (forall u: string :: reg(d, u) ==> rid(d, u) != x) ==> got[x] == old(got[x]);
}
func sync3.Dispatcher.newEventData(d, ev, room, nid) returns (ed) {
  modular;
  modifies nothing;
  ensures made: ed != nil && fresh(ed) && ed.RoomID == room && ed.NID == nid && !ed.ForceInitial;
  ensures typ: ed.EventType == evGet(ev, "type").Str && ed.Sender == evGet(ev, "sender").Str;
  ensures key: ed.StateKey != nil <==> pure<bool>("fn:github.com/tidwall/gjson.Result.Exists", evGet(ev, "state_key"));
  ensures keyval: ed.StateKey != nil ==> *ed.StateKey == tgt(ev);
  ensures content: ed.Content == evGet(ev, "content");
}
