package sync3

import (
	"context"
	"fmt"
	"sort"
	"sync"
	"testing"
	"time"

	"github.com/matrix-org/sliding-sync/sync3/caches"
)

type vmHandler struct {
	mu      sync.Mutex
	dead    bool
	full    bool
	told    int
	cancels int
}

func (h *vmHandler) OnIncomingRequest(ctx context.Context, cid ConnID, req *Request, isInitial bool, start time.Time) (*Response, error) {
	return &Response{}, nil
}
func (h *vmHandler) OnUpdate(ctx context.Context, update caches.Update) {}
func (h *vmHandler) PublishEventsUpTo(roomID string, nid int64) {
	h.mu.Lock()
	h.told++
	h.mu.Unlock()
}
func (h *vmHandler) Destroy() {
	h.mu.Lock()
	h.dead = true
	h.mu.Unlock()
}
func (h *vmHandler) Alive() bool {
	h.mu.Lock()
	defer h.mu.Unlock()
	return !h.full
}
func (h *vmHandler) SetCancelCallback(cancel context.CancelFunc) { h.cancels++ }

// Random histories of connections being opened, looked up, filled up and closed; the callbacks the TTL cache
// fires in the background are delivered at arbitrary later points.
func TestVerifConnMap(t *testing.T) {
	v := vfNew(t)
	SpamProtectionInterval = 0
	type ent struct {
		c *Conn
		h *vmHandler
	}
	keys := map[string]ConnID{}
	var ids []string
	for _, a := range []string{"", "a", "|", "\"", "\\", "%"} {
		for _, b := range []string{"", "a", "|", "\"", "\\"} {
			for _, c := range []string{"", "a", "|", "\""} {
				ids = append(ids, a+b+c)
			}
		}
	}
	for _, d := range ids {
		for _, c := range ids {
			cid := ConnID{UserID: "@u:h", DeviceID: d, CID: c}
			k := cid.String()
			if o, ok := keys[k]; ok && o != cid {
				v.fail("key", "connections %q and %q have the same key", o, cid)
			}
			keys[k] = cid
		}
	}
	for h := 0; h < v.pick(3000, 40000); h++ {
		m := NewConnMap(false, time.Hour)
		type fired struct {
			k string
			v interface{}
		}
		var mu sync.Mutex
		var late []fired
		pending := 0
		m.cache.SetExpirationCallback(func(k string, val interface{}) {
			mu.Lock()
			late = append(late, fired{k, val})
			mu.Unlock()
		})
		live := map[ConnID]ent{} // the model
		var all []ent
		hist := ""
		deliver := func(everything bool) {
			for { // wait for the cache's goroutines
				mu.Lock()
				n := len(late)
				mu.Unlock()
				if n == pending {
					break
				}
				time.Sleep(10 * time.Microsecond)
			}
			for len(late) > 0 && (everything || v.rng.Intn(2) == 0) {
				i := v.rng.Intn(len(late))
				f := late[i]
				late = append(late[:i:i], late[i+1:]...)
				pending--
				hist += " late(" + f.k + ")"
				m.closeConnExpires(f.k, f.v)
			}
		}
		user := func() string { return fmt.Sprintf("@u%d:h", v.rng.Intn(2)) }
		dev := func() string { return fmt.Sprintf("D%d", v.rng.Intn(2)) }
		conn := func() string { return fmt.Sprint("c", v.rng.Intn(2)) }
		if h%4 == 3 { // clients choose these IDs
			sep := []string{"|", "\"|\"", "\\|", ",", "/", " ", "\x00", "\n", ":"}[v.rng.Intn(9)]
			dev = func() string { return []string{"D", "D" + sep + "c"}[v.rng.Intn(2)] }
			conn = func() string { return []string{"c", "c" + sep + "c"}[v.rng.Intn(2)] }
		}
		bad := false
		fail := func(key, f string, a ...interface{}) {
			bad = true
			v.fail(key, "%s after%s", fmt.Sprintf(f, a...), hist)
		}
		closeModel := func(match func(c ConnID) bool) {
			for cid := range live {
				if match(cid) {
					delete(live, cid)
				}
			}
		}
		for step := 0; step < 12 && !bad; step++ {
			cid := ConnID{UserID: user(), DeviceID: dev(), CID: conn()}
			switch k := v.rng.Intn(12); {
			case k < 5:
				hist += " create(" + cid.String() + ")"
				hd := &vmHandler{}
				c := m.CreateConn(cid, func() {}, func() ConnHandler { return hd })
				if c == nil || c.ConnID != cid {
					fail("create", "wrong connection %v", c)
					break
				}
				if old, ok := live[cid]; ok && !old.h.dead {
					fail("replaced", "the connection that was replaced was not shut down")
				}
				live[cid] = ent{c, hd}
				all = append(all, ent{c, hd})
			case k < 7:
				hist += " conn(" + cid.String() + ")"
				got := m.Conn(cid)
				if want, ok := live[cid]; !ok && got != nil {
					fail("ghost", "a connection that was closed is still handed out")
				} else if ok && want.h.full {
					if got != nil {
						fail("dead", "a connection that cannot keep up is still handed out")
					}
				} else if ok && got != want.c {
					fail("lost", "an open connection is not found")
				}
			case k < 8:
				if e, ok := live[cid]; ok {
					hist += " full(" + cid.String() + ")"
					e.h.full = true
				}
			case k < 9:
				u, d := cid.UserID, cid.DeviceID
				hist += " closeDevice(" + u + "|" + d + ")"
				// connections already shut down for being full stay in the TTL cache until replaced; that is not observable
				m.Conns(u, d)
				for c, e := range live {
					if c.UserID == u && c.DeviceID == d && e.h.full {
						delete(live, c)
					}
				}
				closeModel(func(c ConnID) bool { return c.UserID == u && c.DeviceID == d })
				n := m.cache.Count()
				m.CloseConnsForDevice(u, d)
				pending += n - m.cache.Count()
			case k < 10:
				us := []string{user()}
				if v.rng.Intn(2) == 0 && us[0] != "@u0:h" {
					us = append(us, "@u0:h")
				}
				hist += fmt.Sprint(" closeUsers", us)
				for _, u := range us {
					for _, d := range []string{"D0", "D1"} {
						m.Conns(u, d)
					}
				}
				for c, e := range live {
					for _, u := range us {
						if c.UserID == u && e.h.full {
							delete(live, c)
						}
					}
				}
				closeModel(func(c ConnID) bool { return c.UserID == us[0] || len(us) > 1 && c.UserID == us[1] })
				n := m.cache.Count()
				m.CloseConnsForUsers(us)
				pending += n - m.cache.Count()
			default:
				deliver(false)
			}
		}
		if bad {
			break
		}
		deliver(true)
		v.eval(hist)
		for _, u := range []string{"@u0:h", "@u1:h"} {
			before := map[*vmHandler]int{}
			for _, e := range all {
				before[e.h] = e.h.told
			}
			m.ClearUpdateQueues(u, "!r", 5)
			for _, e := range all {
				l, ok := live[e.c.ConnID]
				isLive := ok && l.c == e.c && e.c.UserID == u && !e.h.full
				if isLive && e.h.told == before[e.h] {
					fail("told", "an open connection of %s was not told to publish", u)
				}
				if e.c.UserID != u && e.h.told != before[e.h] {
					fail("told-other", "a connection of another user was told to publish")
				}
			}
			for _, d := range []string{"D0", "D1"} {
				var want, got []string
				for c, e := range live {
					if c.UserID == u && c.DeviceID == d && !e.h.full {
						want = append(want, fmt.Sprintf("%s %p", c.String(), e.c))
					}
				}
				for _, c := range m.Conns(u, d) {
					got = append(got, fmt.Sprintf("%s %p", c.ConnID.String(), c))
				}
				sort.Strings(want)
				sort.Strings(got)
				if fmt.Sprint(want) != fmt.Sprint(got) {
					fail("conns", "open connections of %s|%s are %v, want %v", u, d, got, want)
				}
			}
		}
		for _, e := range all {
			l, ok := live[e.c.ConnID]
			isLive := ok && l.c == e.c && !e.h.full
			if isLive && e.h.dead {
				fail("killed", "the handler of an open connection was shut down")
			}
			if !isLive && !e.h.dead && !(ok && l.c == e.c) {
				fail("leak", "the handler of a closed connection was never shut down")
			}
		}
		m.Teardown()
	}
	vmConcurrent(v)
}

// Connections of different users come and go at the same time.
func vmConcurrent(v *vf) {
	for n := 0; n < v.pick(20, 200); n++ {
		m := NewConnMap(false, time.Hour)
		var wg sync.WaitGroup
		for g := 0; g < 4; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				u := fmt.Sprintf("@u%d:h", g)
				for i := 0; i < 20; i++ {
					cid := ConnID{UserID: u, DeviceID: "D", CID: "c"}
					c := m.CreateConn(cid, func() {}, func() ConnHandler { return &vmHandler{} })
					if got := m.Conn(cid); got != c {
						v.fail("concurrent", "connection of %s not found right after it was opened", u)
					}
					m.ClearUpdateQueues(u, "!r", 1)
					if i%3 == 0 {
						m.CloseConnsForDevice(u, "D")
						if m.Conn(cid) != nil {
							v.fail("concurrent-closed", "connection of %s found after it was closed", u)
						}
					}
				}
			}(g)
		}
		wg.Wait()
		v.eval(fmt.Sprint("concurrent ", n))
		m.Teardown()
	}
}
