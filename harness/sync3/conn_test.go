package sync3

import (
	"context"
	"encoding/json"
	"fmt"
	"strconv"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/matrix-org/sliding-sync/internal"
	"github.com/matrix-org/sliding-sync/sync3/caches"
)

func TestVerifConn(t *testing.T) {
	vcHistories(t)
	vcSame(t)
	vcConcurrent(t)
}

type vcHandler struct {
	f func(ctx context.Context, req *Request, isInitial bool) (*Response, error)
}

func (h *vcHandler) OnIncomingRequest(ctx context.Context, cid ConnID, req *Request, isInitial bool, start time.Time) (*Response, error) {
	return h.f(ctx, req, isInitial)
}
func (h *vcHandler) OnUpdate(ctx context.Context, update caches.Update) {}
func (h *vcHandler) PublishEventsUpTo(roomID string, nid int64)         {}
func (h *vcHandler) Destroy()                                           {}
func (h *vcHandler) Alive() bool                                        { return true }
func (h *vcHandler) SetCancelCallback(cancel context.CancelFunc)        {}

type vcSent struct {
	pos  int64
	body string // the response as first computed
}

// Random client histories against a reference model of the position protocol.
func vcHistories(t *testing.T) {
	v := vfNew(t)
	SpamProtectionInterval = 0
	for h := 0; h < v.pick(4000, 60000); h++ {
		calls, nextFault := 0, 0
		var sawInitial bool
		hd := &vcHandler{}
		hd.f = func(ctx context.Context, req *Request, isInitial bool) (*Response, error) {
			calls++
			sawInitial = isInitial
			switch nextFault {
			case 1:
				panic("boom")
			case 2:
				return nil, fmt.Errorf("plain")
			case 3:
				return nil, &internal.HandlerError{StatusCode: 418, Err: fmt.Errorf("teapot")}
			}
			return &Response{Lists: map[string]ResponseList{"l": {Count: calls}}, Rooms: map[string]Room{}}, nil
		}
		c := NewConn(ConnID{UserID: "@a:h", DeviceID: "D", CID: "c"}, hd)
		var buf []vcSent // responses the client has not moved beyond
		var lastBody string
		lastReqPos, lastPos := int64(0), int64(0)
		hist := ""
		mk := func(pos int64, body int) (*Request, string) {
			r := &Request{RoomSubscriptions: map[string]RoomSubscription{}}
			r.pos = pos
			for i := 0; i < body; i++ {
				r.RoomSubscriptions[fmt.Sprintf("!%d:h", i)] = RoomSubscription{TimelineLimit: int64(body)}
			}
			if body == 4 {
				n := "n"
				r.Lists = map[string]RequestList{"l": {Ranges: SliceRanges{{0, 4}}, RoomSubscription: RoomSubscription{TimelineLimit: 1}, Filters: &RequestFilters{RoomNameFilter: n}}}
			}
			b, _ := json.Marshal(r)
			return r, string(b)
		}
		for step := 0; step < 14; step++ {
			var pos int64
			switch k := v.rng.Intn(10); {
			case step == 0 || k == 0 && v.rng.Intn(4) == 0:
				pos = 0
			case k < 4:
				pos = lastPos
			case k < 6:
				pos = lastReqPos
			case k < 9 && len(buf) > 0:
				pos = buf[v.rng.Intn(len(buf))].pos
			default:
				pos = int64(v.rng.Intn(int(lastPos) + 3))
			}
			nextFault = 0
			if v.rng.Intn(5) == 0 {
				nextFault = 1 + v.rng.Intn(3)
			}
			req, body := mk(pos, v.rng.Intn(6)/2*2)
			req.TxnID = fmt.Sprintf("t%d", step)
			hist += fmt.Sprintf(" pos=%d body=%d fault=%d", pos, len(body), nextFault)
			// the model
			known := pos == 0 || pos == lastReqPos
			for _, b := range buf {
				known = known || b.pos == pos
			}
			same := pos != 0 && body == lastBody
			var next *vcSent
			for i := range buf {
				if buf[i].pos > pos {
					next = &buf[i]
					break
				}
			}
			cached := known && same && next != nil
			wantCalls := calls
			if known && !cached {
				wantCalls++
			}
			var resp *Response
			var herr *internal.HandlerError
			if !v.guard("conn", hist, func() { resp, herr = c.OnIncomingRequest(context.Background(), req, time.Now()) }) {
				break
			}
			v.eval(hist)
			if calls != wantCalls {
				v.fail("handler-calls", "handler called %d times, want %d, after%s", calls, wantCalls, hist)
				break
			}
			if !known {
				if herr == nil || herr.ErrCode != "M_UNKNOWN_POS" || resp != nil {
					v.fail("unknown-pos", "position never given out was accepted: resp=%v err=%v after%s", resp, herr, hist)
				}
				continue
			}
			if !cached && nextFault != 0 {
				want := 500
				if nextFault == 3 {
					want = 418
				}
				if herr == nil || herr.StatusCode != want || resp != nil {
					v.fail("fault", "failing request answered with resp=%v err=%v after%s", resp, herr, hist)
					break
				}
			} else if herr != nil || resp == nil {
				v.fail("no-answer", "request got resp=%v err=%v after%s", resp, herr, hist)
				break
			}
			// the client acknowledged everything below pos
			for len(buf) > 0 && buf[0].pos < pos {
				buf = buf[1:]
			}
			if cached {
				if b := vcBody(resp); b != next.body {
					v.fail("retry", "expected the buffered response %s, got %s after%s", next.body, b, hist)
				}
				continue
			}
			if sawInitial != (pos == 0) {
				v.fail("initial", "initial=%v for pos %d after%s", sawInitial, pos, hist)
			}
			if nextFault != 0 {
				continue
			}
			lastPos++
			lastReqPos, lastBody = pos, body
			mine, _ := json.Marshal(&Response{Lists: map[string]ResponseList{"l": {Count: calls}}, Rooms: map[string]Room{}, Pos: strconv.FormatInt(lastPos, 10), TxnID: req.TxnID})
			buf = append(buf, vcSent{lastPos, string(mine)})
			want := ""
			for _, b := range buf {
				if b.pos > pos {
					want = b.body
					break
				}
			}
			if b := vcBody(resp); b != want {
				v.fail("answer", "expected %s, got %s after%s", want, b, hist)
				break
			}
		}
	}
}

func vcBody(r *Response) string {
	if r == nil {
		return "nil"
	}
	b, _ := json.Marshal(r)
	return string(b)
}

// A request that differs in anything but the transaction ID is not a retry.
func vcSame(t *testing.T) {
	v := vfNew(t)
	n := "x"
	tr := true
	mk := []func(r *Request){
		func(r *Request) {},
		func(r *Request) { r.RoomSubscriptions = map[string]RoomSubscription{"!a": {}} },
		func(r *Request) { r.RoomSubscriptions = map[string]RoomSubscription{"!a": {TimelineLimit: 3}} },
		func(r *Request) { r.UnsubscribeRooms = []string{"!a"} },
		func(r *Request) { r.Lists = map[string]RequestList{"a": {}} },
		func(r *Request) { r.Lists = map[string]RequestList{"a": {Ranges: SliceRanges{{0, 1}}}} },
		func(r *Request) { r.Lists = map[string]RequestList{"a": {Ranges: SliceRanges{{0, 2}}}} },
		func(r *Request) { r.Lists = map[string]RequestList{"a": {Sort: []string{"by_name"}}} },
		func(r *Request) { r.Lists = map[string]RequestList{"a": {Filters: &RequestFilters{RoomNameFilter: n}}} },
		func(r *Request) { r.Lists = map[string]RequestList{"a": {Filters: &RequestFilters{IsDM: &tr}}} },
		func(r *Request) { r.Lists = map[string]RequestList{"b": {}} },
		func(r *Request) { r.ConnID = "other" },
		func(r *Request) { r.Extensions.ToDevice = nil; r.Extensions.Typing = nil },
	}
	for i := range mk {
		for j := range mk {
			a, b := &Request{TxnID: "1"}, &Request{TxnID: "2"}
			mk[i](a)
			mk[j](b)
			ja, _ := json.Marshal(&Request{ConnID: a.ConnID, Lists: a.Lists, RoomSubscriptions: a.RoomSubscriptions, UnsubscribeRooms: a.UnsubscribeRooms, Extensions: a.Extensions})
			jb, _ := json.Marshal(&Request{ConnID: b.ConnID, Lists: b.Lists, RoomSubscriptions: b.RoomSubscriptions, UnsubscribeRooms: b.UnsubscribeRooms, Extensions: b.Extensions})
			v.eval(fmt.Sprintf("same %d %d", i, j))
			if got, want := a.Same(b), string(ja) == string(jb); got != want {
				v.fail("same", "Same=%v for %s and %s", got, ja, jb)
			}
			if a.TxnID != "1" || b.TxnID != "2" {
				v.fail("same-mutates", "comparison changed the requests")
			}
		}
	}
}

// Requests on one connection never overlap, and a new request cancels the one in flight.
func vcConcurrent(t *testing.T) {
	v := vfNew(t)
	SpamProtectionInterval = 0
	var inside, overlap, served int32
	hd := &vcHandler{f: func(ctx context.Context, req *Request, isInitial bool) (*Response, error) {
		if atomic.AddInt32(&inside, 1) != 1 {
			atomic.StoreInt32(&overlap, 1)
		}
		select {
		case <-ctx.Done():
		case <-time.After(time.Duration(100+len(req.UnsubscribeRooms)) * time.Microsecond):
		}
		atomic.AddInt32(&inside, -1)
		atomic.AddInt32(&served, 1)
		return &Response{}, nil
	}}
	for n := 0; n < v.pick(40, 400); n++ {
		c := NewConn(ConnID{UserID: "@a:h"}, hd)
		first := &Request{}
		resp, herr := c.OnIncomingRequest(context.Background(), first, time.Now())
		if herr != nil {
			v.fail("first", "%v", herr)
			return
		}
		pos, _ := strconv.ParseInt(resp.Pos, 10, 64)
		var wg sync.WaitGroup
		var mu sync.Mutex
		got := map[string]bool{}
		for g := 0; g < 4; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				r := &Request{UnsubscribeRooms: []string{fmt.Sprint(g)}}
				r.pos = pos
				res, herr := c.OnIncomingRequest(context.Background(), r, time.Now())
				if herr != nil || res == nil {
					v.fail("concurrent-error", "resp=%v err=%v", res, herr)
					return
				}
				mu.Lock()
				got[res.Pos] = true
				mu.Unlock()
			}(g)
		}
		wg.Wait()
		v.eval(fmt.Sprintf("concurrent %d", n))
		if len(got) != 1 || !got[strconv.FormatInt(pos+1, 10)] {
			v.fail("concurrent-answer", "requests sent from position %d were answered with positions %v instead of the next one", pos, got)
		}
	}
	if overlap != 0 {
		v.fail("overlap", "two requests of one connection were processed at the same time")
	}
	// a request in flight is told to stop when the next one arrives
	entered := make(chan struct{})
	cancelled := make(chan bool, 1)
	first := true
	c := NewConn(ConnID{UserID: "@a:h"}, &vcHandler{f: func(ctx context.Context, req *Request, isInitial bool) (*Response, error) {
		if first {
			first = false
			close(entered)
			select {
			case <-ctx.Done():
				cancelled <- true
			case <-time.After(20 * time.Second):
				cancelled <- false
			}
		}
		return &Response{}, nil
	}})
	go c.OnIncomingRequest(context.Background(), &Request{}, time.Now())
	<-entered
	c.OnIncomingRequest(context.Background(), &Request{}, time.Now())
	v.eval("cancel in flight")
	if !<-cancelled {
		v.fail("cancel", "a new request did not cancel the one in flight")
	}
}
