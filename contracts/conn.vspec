property R06;

// The handler below a connection does not reach back into the connection; it returns a response or an error.
trusted sync3.Conn.tryRequest(c, ctx, req, start) returns (res, err) {
  option pure;
  modifies nothing;
  ensures one: err == nil ==> res != nil && fresh(res);
  ensures typed: is<*internal.HandlerError>(err) ==> as<*internal.HandlerError>(err) != nil;
}
trusted sync3.Request.Same(r, o) returns (ok) { option pure; modifies nothing; ensures v: ok == pure<bool>("req:Same", *r, *o); }

func sync3.Response.PosInt(r) returns (p) {
  modular;
  requires r != nil;
  modifies nothing;
  ensures p: p == pure<int64>("fn:strconv.ParseInt#0", r.Pos, 10, 64);
}
def at(c, i) = pure<int64>("fn:strconv.ParseInt#0", c.serverResponses[i].Pos, 10, 64);
// the buffer is ordered by position, ends at the last position given out, and still holds the answer to the last request
def ordered(c) = (forall i: int :: forall j: int :: 0 <= i && i < j && j < len(c.serverResponses) ==> at(c, i) < at(c, j))
  && (len(c.serverResponses) > 0 ==> at(c, len(c.serverResponses) - 1) == c.lastPos)
  && c.lastPos >= 0
  && (c.lastClientRequest.pos != 0 ==> len(c.serverResponses) > 0 && c.lastClientRequest.pos < c.lastPos);
func sync3.Conn.isOutstanding(c, pos) returns (ok) {
  modular;
  requires c != nil;
  modifies nothing;
  invariant [i: progress] none: forall j: int :: 0 <= j && j < i ==> at(c, j) != pos;
  ensures exact: ok <==> (exists j: int :: 0 <= j && j < len(c.serverResponses) && at(c, j) == pos);
}
func sync3.Conn.OnIncomingRequest(c, ctx, req, start) returns (resp, herr) {
  requires c != nil && req != nil && req.pos >= 0;
  requires inv: ordered(c);
  modifies c.lastClientRequest, c.serverResponses, c.lastPos, c.cancelOutstandingRequest, req.timeoutMSecs;
  invariant [d: phi int, i: progress] b0: -1 <= d && d < i && i <= len(c.serverResponses);
  invariant [d: phi int] b1: forall j: int :: 0 <= j && j <= d && j < len(c.serverResponses) ==> at(c, j) < req.pos;
  invariant [i: progress] b2: forall j: int :: 0 <= j && j < i ==> at(c, j) <= req.pos;
  invariant [p: var *sync3.Response] b3: p == nil;
  ensures inv: ordered(c);
  ensures unknown: req.pos != 0 && old(c.lastClientRequest.pos) != req.pos && !old(exists j: int :: 0 <= j && j < len(c.serverResponses) && at(c, j) == req.pos)
     ==> herr != nil && resp == nil && c.lastPos == old(c.lastPos) && same(c.serverResponses, old(c.serverResponses)) && same(c.lastClientRequest, old(c.lastClientRequest));
  ensures failed: herr != nil ==> resp == nil && c.lastPos == old(c.lastPos) && same(c.lastClientRequest, old(c.lastClientRequest));
  ensures step: c.lastPos == old(c.lastPos) || c.lastPos == old(c.lastPos) + 1;
  ensures taken: c.lastPos == old(c.lastPos) + 1 ==> c.lastClientRequest.pos == req.pos && c.serverResponses[len(c.serverResponses) - 1].TxnID == req.TxnID;
  ensures nothing_new: c.lastPos == old(c.lastPos) ==> same(c.lastClientRequest, old(c.lastClientRequest));
  ensures retry: req.pos != 0 && req.pos == old(c.lastClientRequest.pos) && old(pure<bool>("req:Same", c.lastClientRequest, *req)) ==> herr == nil && c.lastPos == old(c.lastPos);
  ensures acked_only: forall j: int :: 0 <= j && j < old(len(c.serverResponses)) + c.lastPos - old(c.lastPos) - len(c.serverResponses) ==> old(at(c, j)) < req.pos;
  ensures kept: forall j: int :: 0 <= j && j < len(c.serverResponses) - c.lastPos + old(c.lastPos) ==> same(c.serverResponses[j], old(c.serverResponses)[j + old(len(c.serverResponses)) + c.lastPos - old(c.lastPos) - len(c.serverResponses)]);
  ensures some: herr == nil ==> resp != nil;
}
