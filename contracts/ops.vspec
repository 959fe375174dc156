property R02;

def clamp(x, r) = ite(x < r[0], r[0], ite(x > r[1], r[1], x));
def touches(r, f, t) = r[0] <= max(f, t) && min(f, t) <= r[1];

// assumed here; checked exhaustively within the stated bound by the harness of R01
trusted sync3.SliceRanges.ClosestInDirection(r, i, tz) returns (c) {
  requires nonempty: len(r) > 0;
  requires valid: validRanges(r);
  ensures snaps: forall k: int :: 0 <= k && k < len(r) && r[k][0] <= i && i <= r[k][1] ==> c == ite(tz, r[k][0], r[k][1]);
}

func sync3.RequestList.CalculateMoveIndexes(rl, from, to) returns (res) {
  modular;
  requires validRanges(rl.Ranges) && 0 <= from && 0 <= to;
  modifies nothing;
  invariant [i: progress, s: phi [][2]int64] sound0: forall k: int :: 0 <= k && k < len(s) ==> (exists j: int :: 0 <= j && j < i && s[k] == rl.Ranges[j] && min(from,to) < s[k][0] && s[k][1] < max(from,to));
  invariant [i: progress, s: phi [][2]int64] compl0: forall j: int :: 0 <= j && j < i && min(from,to) < rl.Ranges[j][0] && rl.Ranges[j][1] < max(from,to) ==> (exists k: int :: 0 <= k && k < len(s) && s[k] == rl.Ranges[j]);
  invariant [s: phi [][2]int] sound_sofar: forall k: int :: 0 <= k && k < len(s) ==> (exists j: int :: 0 <= j && j < len(rl.Ranges) && touches(rl.Ranges[j], from, to) && s[k][0] == clamp(from, rl.Ranges[j]) && s[k][1] == clamp(to, rl.Ranges[j]));
  invariant [i: progress, s: phi [][2]int] pre_kept: len(s) == len(pre(s)) + i && (forall k: int :: 0 <= k && k < len(pre(s)) ==> s[k] == pre(s)[k]);
  invariant [i: progress, s: phi [][2]int, q: var [][2]int64] moves: forall k: int :: 0 <= k && k < i ==> s[len(pre(s)) + k][0] == clamp(from, q[k]) && s[len(pre(s)) + k][1] == clamp(to, q[k]);
  proves sound: forall k: int :: 0 <= k && k < len(res) ==> (exists j: int :: 0 <= j && j < len(rl.Ranges) && touches(rl.Ranges[j], from, to) && res[k][0] == clamp(from, rl.Ranges[j]) && res[k][1] == clamp(to, rl.Ranges[j]));
  ensures between: forall k: int :: 0 <= k && k < len(res) ==> min(from, to) <= res[k][0] && res[k][0] <= max(from, to) && min(from, to) <= res[k][1] && res[k][1] <= max(from, to);
  ensures in_window: forall k: int :: 0 <= k && k < len(res) ==> covered(rl.Ranges, res[k][0]) && covered(rl.Ranges, res[k][1]);
  proves complete: forall j: int :: 0 <= j && j < len(rl.Ranges) && touches(rl.Ranges[j], from, to) ==> (exists k: int :: 0 <= k && k < len(res) && res[k][0] == clamp(from, rl.Ranges[j]) && res[k][1] == clamp(to, rl.Ranges[j]));
}

func sync3.RequestList.WriteInsertOp(rl, idx, room) returns (op) {
  modifies nothing;
  safe;
  invariant [n: progress] none: forall k: int :: 0 <= k && k < n ==> !(rl.Ranges[k][0] <= idx && idx <= rl.Ranges[k][1]);
  ensures tracked: op != nil <==> idx >= 0 && covered(rl.Ranges, idx);
  ensures content: op != nil ==> op.Operation == sync3.OpInsert && *op.Index == idx && op.RoomID == room;
}
func sync3.RequestList.WriteDeleteOp(rl, idx) returns (op) {
  modifies nothing;
  safe;
  invariant [n: progress] none: forall k: int :: 0 <= k && k < n ==> !(rl.Ranges[k][0] <= idx && idx <= rl.Ranges[k][1]);
  ensures tracked: op != nil <==> idx >= 0 && covered(rl.Ranges, idx);
  ensures content: op != nil ==> op.Operation == sync3.OpDelete && *op.Index == idx;
}
func sync3.RequestList.WriteSwapOp(rl, room, f, t) returns (ops) {
  modifies nothing;
  safe;
  ensures two: len(ops) == 2;
  ensures del: is<*sync3.ResponseOpSingle>(ops[0]) && as<*sync3.ResponseOpSingle>(ops[0]).Operation == sync3.OpDelete && *as<*sync3.ResponseOpSingle>(ops[0]).Index == f;
  ensures ins: is<*sync3.ResponseOpSingle>(ops[1]) && as<*sync3.ResponseOpSingle>(ops[1]).Operation == sync3.OpInsert && *as<*sync3.ResponseOpSingle>(ops[1]).Index == t && as<*sync3.ResponseOpSingle>(ops[1]).RoomID == room;
}

// The list interface, over a ghost sequence lAt[0..lLen). Assumed for the interface;
// property R03 proves the implementation.
ghost lLen: int;
ghost lAt: gmap[int]string;
def present(room) = exists k: int :: 0 <= k && k < lLen && lAt[k] == room;
trusted sync3.List.IndexOf(l, room) returns (i, ok) {
  modifies nothing;
  ensures f: ok ==> 0 <= i && i < lLen && lAt[i] == room;
  ensures n: !ok ==> i == 0 && !present(room);
}
trusted sync3.List.Len(l) returns (n) {
  modifies nothing;
  ensures n == lLen && 0 <= lLen;
}
trusted sync3.List.Get(l, i) returns (room) {
  requires in_bounds: 0 <= i && i < lLen;
  modifies nothing;
  ensures room == lAt[i];
}
trusted sync3.List.Sort(l, by) returns (err) {
  modifies lAt;
  ensures forall r: string :: present(r) <==> old(present(r));
}
trusted sync3.List.Add(l, room) returns (ok) {
  modifies lAt, lLen;
  ensures present(room) && lLen == ite(old(present(room)), old(lLen), old(lLen) + 1);
}
trusted sync3.List.Remove(l, room) returns (i) {
  modifies lAt, lLen;
  ensures !present(room) && lLen == ite(old(present(room)), old(lLen) - 1, old(lLen)) && 0 <= lLen;
}

def opS(o) = as<*sync3.ResponseOpSingle>(o);
def goodOp(rl, o) = is<*sync3.ResponseOpSingle>(o) && opS(o) != nil && opS(o).Index != nil && covered(rl.Ranges, *opS(o).Index) && *opS(o).Index >= 0
   && (opS(o).Operation == sync3.OpInsert || opS(o).Operation == sync3.OpDelete)
   && (opS(o).Operation == sync3.OpInsert ==> *opS(o).Index < lLen && opS(o).RoomID == lAt[*opS(o).Index]);

func sync3.CalculateListOps(ctx, rl, list, room, op) returns (ops, subs) {
  requires rl != nil && validRanges(rl.Ranges) && 0 <= lLen && list != nil;
  requires sync3.ListOpAdd == 1 && sync3.ListOpDel == 2 && sync3.ListOpChange == 3 && 1 <= op && op <= 3;
  requires sync3.OpInsert != sync3.OpDelete;
  invariant [s: phi []sync3.ResponseOp] good: forall k: int :: 0 <= k && k < len(s) ==> goodOp(rl, s[k]);
  invariant [s: phi []string] subs_visible: forall k: int :: 0 <= k && k < len(s) ==> (exists j: int :: 0 <= j && j < lLen && covered(rl.Ranges, j) && lAt[j] == s[k]);
  ensures ops_ok: forall k: int :: 0 <= k && k < len(ops) ==> goodOp(rl, ops[k]);
  ensures subs_ok: forall k: int :: 0 <= k && k < len(subs) ==> (exists j: int :: 0 <= j && j < lLen && covered(rl.Ranges, j) && lAt[j] == subs[k]);
}
