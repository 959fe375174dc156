property R01;

def covered(s, p) = exists k: int :: 0 <= k && k < len(s) && s[k][0] <= p && p <= s[k][1];
def meets(a, b) = a[0] <= b[1] && b[0] <= a[1];
def validRanges(r) =
  (forall k: int :: 0 <= k && k < len(r) ==> 0 <= r[k][0] && r[k][0] <= r[k][1])
  && (forall a, b: int :: 0 <= a && a < b && b < len(r) ==> r[a][1] < r[b][0] || r[b][1] < r[a][0]);

func sync3.SliceRanges.Valid(r) returns (ok) {
  modifies nothing;
  safe;
  invariant [i: progress] good_so_far: forall k: int :: 0 <= k && k < i ==> 0 <= r[k][0] && r[k][0] <= r[k][1];
  invariant [i: progress] disjoint_so_far: forall a, b: int :: 0 <= a && a < i && a < b && b < len(r) ==> r[a][1] < r[b][0] || r[b][1] < r[a][0];
  invariant [i: oprogress, j: progress] row: forall b: int :: i < b && b < j ==> r[i][1] < r[b][0] || r[b][1] < r[i][0];
  ensures iff: ok <==> validRanges(r);
}

property R01, R02;
func sync3.SliceRanges.Inside(r, i) returns (res, ok) {
  modular;
  modifies nothing;
  safe;
  invariant [n: progress] none: forall k: int :: 0 <= k && k < n ==> !(r[k][0] <= i && i <= r[k][1]);
  ensures found: ok <==> covered(r, i);
  ensures res_covers: ok ==> (res[0] <= i && i <= res[1] && (exists k: int :: 0 <= k && k < len(r) && r[k] == res));
}
