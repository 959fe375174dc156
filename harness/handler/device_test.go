package handler

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"encoding/json"
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/jmoiron/sqlx"
	"github.com/lib/pq"
	"github.com/matrix-org/sliding-sync/internal"
	"github.com/matrix-org/sliding-sync/state"
	"github.com/matrix-org/sliding-sync/sync3/caches"
	"github.com/matrix-org/sliding-sync/sync3/extensions"
	"github.com/matrix-org/sliding-sync/testutils"
	"github.com/tidwall/gjson"
)

var vfDSN string

func vfDB(t *testing.T) *sqlx.DB {
	if vfDSN == "" {
		vfDSN = testutils.PrepareDBConnectionString()
	}
	db, err := sqlx.Open("postgres", vfDSN)
	if err != nil {
		t.Fatal(err)
	}
	return db
}

type vfMsg struct {
	pos  int64
	id   string
	ukey string
}

type vfDev struct {
	user, dev string
	msgs      []vfMsg
	seen      bool
	unack     int64
	last      []string // next_batch values handed out
	hist      []string
}

// TestVerifToDevice drives the to-device extension and table against a model of each device's inbox.
func TestVerifToDevice(t *testing.T) {
	v := vfNew(t)
	store := state.NewStorageWithDB(vfDB(t), false)
	h := &extensions.Handler{Store: store}
	until := time.Now().Add(time.Duration(v.pick(25, 300)) * time.Second)
	yes := true
	for n := 0; time.Now().Before(until) && v.nfailed() < 3; n++ {
		var devs []*vfDev
		for u := 0; u < 2; u++ {
			for d := 0; d < 2; d++ {
				devs = append(devs, &vfDev{user: fmt.Sprintf("@td%d-%d:x", n, u), dev: fmt.Sprintf("DEV%d-%d", n, d)})
			}
		}
		c := 0
		bad := false
		fail := func(d *vfDev, key, f string, a ...interface{}) {
			bad = true
			v.fail(key, "%s: %s %s after %s", fmt.Sprintf(f, a...), d.user, d.dev, strings.Join(d.hist, "; "))
		}
		for i := 0; i < 40 && !bad; i++ {
			d := devs[v.rng.Intn(len(devs))]
			switch v.rng.Intn(5) {
			case 0, 1:
				var raw []json.RawMessage
				var ms []vfMsg
				reqs, cancels := map[string]bool{}, map[string]bool{}
				act := map[string]string{}
				for j := v.rng.Intn(4); j >= 0; j-- {
					c++
					m := vfMsg{id: fmt.Sprintf("m%d", c)}
					if v.rng.Intn(3) == 0 {
						k := fmt.Sprint(v.rng.Intn(3))
						action := []string{"request", "request_cancellation"}[v.rng.Intn(2)]
						sender := fmt.Sprintf("@s%d:x", v.rng.Intn(2))
						rd := fmt.Sprintf("RD%d", v.rng.Intn(2))
						m.ukey = sender + "/" + rd + "/" + k
						if act[m.ukey] != "" {
							continue
						}
						act[m.ukey] = action
						if action == "request" {
							reqs[m.ukey] = true
						} else {
							cancels[m.ukey] = true
						}
						raw = append(raw, json.RawMessage(fmt.Sprintf(`{"type":"m.room_key_request","sender":"%s","content":{"id":"%s","action":"%s","device_id":"OTHER","requesting_device_id":"%s","request_id":"%s"}}`, sender, m.id, action, rd, k)))
					} else {
						raw = append(raw, json.RawMessage(fmt.Sprintf(`{"type":"%s","sender":"@s:x","content":{"id":"%s","request_id":"0"}}`, []string{"m.room.encrypted", "m.dummy"}[v.rng.Intn(2)], m.id)))
					}
					ms = append(ms, m)
				}
				if len(raw) == 0 {
					continue
				}
				d.hist = append(d.hist, fmt.Sprintf("insert %s", raw))
				pos, err := store.ToDeviceTable.InsertMessages(d.user, d.dev, raw)
				if err != nil {
					fail(d, "insert-error", "%v", err)
					break
				}
				// cancelled requests which were not sent yet vanish along with the cancellation
				gone := map[string]bool{}
				var keep []vfMsg
				for _, m := range d.msgs {
					if m.ukey != "" && cancels[m.ukey] && m.pos > d.unack {
						gone[m.ukey] = true
						continue
					}
					keep = append(keep, m)
				}
				d.msgs = keep
				var ins []vfMsg
				for _, m := range ms {
					if m.ukey != "" && (gone[m.ukey] || (reqs[m.ukey] && cancels[m.ukey])) {
						continue
					}
					ins = append(ins, m)
				}
				for j := range ins {
					ins[j].pos = pos - int64(len(ins)-1-j)
				}
				d.msgs = append(d.msgs, ins...)
			default:
				since := ""
				if len(d.last) > 0 {
					since = d.last[len(d.last)-1]
					if v.rng.Intn(4) == 0 {
						since = d.last[v.rng.Intn(len(d.last))]
					}
				}
				if !d.seen && v.rng.Intn(2) == 0 {
					since = "1000000" // from before the database was reset
				}
				if v.rng.Intn(12) == 0 {
					since = "junk"
				}
				limit := v.rng.Intn(4)
				req := extensions.Request{ToDevice: &extensions.ToDeviceRequest{Core: extensions.Core{Enabled: &yes}, Since: since, Limit: limit}}
				ec := extensions.Context{UserID: d.user, DeviceID: d.dev, IsInitial: v.rng.Intn(3) == 0}
				d.hist = append(d.hist, fmt.Sprintf("request since %q limit %d", since, limit))
				res := h.Handle(context.Background(), req, ec)
				if v.rng.Intn(3) == 0 {
					d.hist = append(d.hist, "poked")
					h.HandleLiveUpdate(context.Background(), caches.DeviceEventsUpdate{}, req, &res, ec)
				}
				if !d.seen {
					since = ""
				}
				if since == "junk" {
					if res.ToDevice != nil && len(res.ToDevice.Events) > 0 {
						fail(d, "junk", "an invalid since got %s", res.ToDevice.Events)
					}
					continue
				}
				d.seen = true
				from := int64(0)
				if since != "" {
					from, _ = strconv.ParseInt(since, 10, 64)
				}
				var keep []vfMsg
				for _, m := range d.msgs {
					if m.pos > from {
						keep = append(keep, m)
					}
				}
				d.msgs = keep
				if limit == 0 {
					limit = 100
				}
				var want []string
				upTo := from
				for _, m := range d.msgs {
					if len(want) < limit {
						want = append(want, m.id)
						upTo = m.pos
					}
				}
				if res.ToDevice == nil {
					fail(d, "no-response", "no to_device section")
					break
				}
				var got []string
				for _, e := range res.ToDevice.Events {
					got = append(got, gjson.GetBytes(e, "content.id").Str)
				}
				d.hist = append(d.hist, fmt.Sprintf("-> %v %s", got, res.ToDevice.NextBatch))
				if fmt.Sprint(got) != fmt.Sprint(want) {
					fail(d, "inbox", "got %v want %v", got, want)
					break
				}
				if res.ToDevice.NextBatch != fmt.Sprint(upTo) {
					fail(d, "next-batch", "next_batch is %s, the last message is at %d", res.ToDevice.NextBatch, upTo)
					break
				}
				d.unack = upTo
				d.last = append(d.last, res.ToDevice.NextBatch)
			}
		}
		// nothing which was not acknowledged is lost
		for _, d := range devs {
			if bad {
				break
			}
			msgs, _, err := store.ToDeviceTable.Messages(d.user, d.dev, 0, 1000)
			var got, want []string
			for _, e := range msgs {
				got = append(got, gjson.GetBytes(e, "content.id").Str)
			}
			for _, m := range d.msgs {
				want = append(want, m.id)
			}
			if err != nil || fmt.Sprint(got) != fmt.Sprint(want) {
				fail(d, "lost", "the inbox holds %v want %v (%v)", got, want, err)
			}
			v.eval(strings.Join(d.hist, "; "))
			if n%7 == 6 {
				if err := store.ToDeviceTable.DeleteAllMessagesForDevice(d.user, d.dev); err != nil {
					fail(d, "delete-error", "%v", err)
				}
				d.msgs = nil
			}
		}
	}
}

type vfKeys struct {
	newL, sent map[string]int
	otk        map[string]int
	otkC       bool
	fb         []string
	fbC        bool
	known      bool
	initial    bool
	hist       []string
}

func vfSorted(m map[string]int, s int) []string {
	out := []string{}
	for k, x := range m {
		if x == s {
			out = append(out, k)
		}
	}
	sort.Strings(out)
	return out
}

// TestVerifDeviceData drives the E2EE extension and the device tables against a model.
func TestVerifDeviceData(t *testing.T) {
	v := vfNew(t)
	store := state.NewStorageWithDB(vfDB(t), false)
	h := &extensions.Handler{Store: store, E2EEFetcher: &SyncLiveHandler{Storage: store}}
	until := time.Now().Add(time.Duration(v.pick(20, 250)) * time.Second)
	yes := true
	for n := 0; time.Now().Before(until) && v.nfailed() < 3; n++ {
		type dk struct{ u, d string }
		ks := []dk{{fmt.Sprintf("@dd%d:x", n), "A"}, {fmt.Sprintf("@dd%d:x", n), "B"}, {fmt.Sprintf("@de%d:x", n), "A"}}
		m := map[dk]*vfKeys{}
		for _, k := range ks {
			m[k] = &vfKeys{newL: map[string]int{}, sent: map[string]int{}}
		}
		bad := false
		for i := 0; i < 40 && !bad; i++ {
			k := ks[v.rng.Intn(len(ks))]
			x := m[k]
			fail := func(key, f string, a ...interface{}) {
				bad = true
				v.fail(key, "%s: %v after %s", fmt.Sprintf(f, a...), k, strings.Join(x.hist, "; "))
			}
			if v.rng.Intn(2) == 0 {
				var kd internal.DeviceKeyData
				ch := map[string]int{}
				for j := v.rng.Intn(3); j > 0; j-- {
					ch[fmt.Sprintf("@t%d:x", v.rng.Intn(4))] = internal.DeviceListChanged + v.rng.Intn(2)*(internal.DeviceListLeft-internal.DeviceListChanged)
				}
				if v.rng.Intn(3) == 0 {
					kd.OTKCounts = map[string]int{"signed_curve25519": v.rng.Intn(3)}
					switch v.rng.Intn(6) {
					case 0:
						kd.OTKCounts = map[string]int{} // the keys are used up
					case 1:
						kd.OTKCounts["curve25519"] = v.rng.Intn(2)
					}
				}
				if v.rng.Intn(3) == 0 {
					kd.FallbackKeyTypes = [][]string{{}, {"signed_curve25519"}, {"a", "b"}}[v.rng.Intn(3)]
				}
				x.hist = append(x.hist, fmt.Sprintf("upsert %v %v %v", ch, kd.OTKCounts, kd.FallbackKeyTypes))
				if err := store.DeviceDataTable.Upsert(k.u, k.d, kd, ch); err != nil {
					fail("upsert-error", "%v", err)
					break
				}
				x.known = true
				for u, s := range ch {
					x.newL[u] = s
				}
				if kd.OTKCounts != nil {
					x.otk, x.otkC = kd.OTKCounts, true
				}
				if kd.FallbackKeyTypes != nil {
					x.fb, x.fbC = kd.FallbackKeyTypes, true
				}
				continue
			}
			init := v.rng.Intn(4) == 0
			live := !init && v.rng.Intn(3) == 0
			req := extensions.Request{E2EE: &extensions.E2EERequest{Core: extensions.Core{Enabled: &yes}}}
			ec := extensions.Context{UserID: k.u, DeviceID: k.d, IsInitial: init}
			var res extensions.Response
			if live {
				h.HandleLiveUpdate(context.Background(), caches.DeviceDataUpdate{}, req, &res, ec)
			} else {
				res = h.Handle(context.Background(), req, ec)
			}
			var want extensions.E2EEResponse
			hasData := false
			if x.known {
				if !init {
					x.sent, x.newL = x.newL, map[string]int{}
				}
				if x.fb != nil && (x.fbC || init) {
					want.FallbackKeyTypes = &x.fb
					hasData = true
				}
				if x.otk != nil && (x.otkC || init) {
					want.OTKCounts = x.otk
					hasData = true
				}
				if !init {
					x.otkC, x.fbC = false, false
				}
				if len(x.sent) > 0 {
					want.DeviceLists = &extensions.E2EEDeviceList{Changed: vfSorted(x.sent, internal.DeviceListChanged), Left: vfSorted(x.sent, internal.DeviceListLeft)}
					hasData = true
				}
			}
			w, _ := json.Marshal(want)
			var g []byte
			if res.E2EE != nil {
				if res.E2EE.DeviceLists != nil {
					sort.Strings(res.E2EE.DeviceLists.Changed)
					sort.Strings(res.E2EE.DeviceLists.Left)
				}
				g, _ = json.Marshal(res.E2EE)
			}
			x.hist = append(x.hist, fmt.Sprintf("request initial=%v live=%v -> %s", init, live, g))
			if hasData != (res.E2EE != nil) || (hasData && string(g) != string(w)) {
				fail("e2ee", "got %s want %s", g, w)
			}
			v.eval(fmt.Sprint(n, i, x.hist))
			// once there is data the live stream leaves the rest for the next request
			if hasData && v.rng.Intn(3) == 0 && (len(want.OTKCounts) > 0 || want.FallbackKeyTypes != nil || want.DeviceLists != nil) {
				h.HandleLiveUpdate(context.Background(), caches.DeviceDataUpdate{}, req, &res, ec)
				g2, _ := json.Marshal(res.E2EE)
				if string(g2) != string(g) {
					fail("e2ee-replaced", "%s was replaced by %s", g, g2)
				}
			}
		}
	}
	vfBetween(t, v, store)
	// changes which arrive while the client asks are never lost
	for n := 0; n < v.pick(6, 40) && v.nfailed() < 3; n++ {
		u := fmt.Sprintf("@dc%d:x", n)
		if err := store.DeviceDataTable.Upsert(u, "D", internal.DeviceKeyData{OTKCounts: map[string]int{"k": 1}}, nil); err != nil {
			v.fail("upsert-error", "%v", err)
			return
		}
		const N = 40
		var wg sync.WaitGroup
		for p := 0; p < 2; p++ {
			wg.Add(1)
			go func(p int) {
				defer wg.Done()
				for i := 0; i < N; i++ {
					if err := store.DeviceDataTable.Upsert(u, "D", internal.DeviceKeyData{}, map[string]int{fmt.Sprintf("@w%d-%d:x", p, i): internal.DeviceListChanged}); err != nil {
						v.fail("upsert-error", "%v", err)
					}
				}
			}(p)
		}
		done := make(chan struct{})
		go func() { wg.Wait(); close(done) }()
		got := map[string]int{}
		read := func() {
			dd, err := store.DeviceDataTable.Select(u, "D", true)
			if err != nil || dd == nil {
				v.fail("select-error", "%v %v", dd, err)
				return
			}
			for _, x := range dd.DeviceListChanged {
				got[x]++
			}
		}
		for fin := false; !fin; {
			select {
			case <-done:
				fin = true
			default:
			}
			read()
		}
		read()
		for p := 0; p < 2; p++ {
			for i := 0; i < N; i++ {
				if k := fmt.Sprintf("@w%d-%d:x", p, i); got[k] != 1 {
					v.fail("concurrent", "the change of %s was seen %d times", k, got[k])
				}
			}
		}
		v.eval(fmt.Sprintf("concurrent %d %v", n, reflect.DeepEqual(got, nil)))
	}
}

// ---- a driver which calls back before every statement ----

var vkHook func(q string)

type vkDriver struct{}
type vkConn struct{ c driver.Conn }

func (vkDriver) Open(name string) (driver.Conn, error) {
	c, err := pq.Open(name)
	if err != nil {
		return nil, err
	}
	return &vkConn{c}, nil
}
func (c *vkConn) Prepare(q string) (driver.Stmt, error) { return c.c.Prepare(q) }
func (c *vkConn) PrepareContext(ctx context.Context, q string) (driver.Stmt, error) {
	vkHook(q)
	return c.c.(driver.ConnPrepareContext).PrepareContext(ctx, q)
}
func (c *vkConn) Close() error              { return c.c.Close() }
func (c *vkConn) Begin() (driver.Tx, error) { return c.BeginTx(context.Background(), driver.TxOptions{}) }
func (c *vkConn) BeginTx(ctx context.Context, o driver.TxOptions) (driver.Tx, error) {
	vkHook("BEGIN")
	t, err := c.c.(driver.ConnBeginTx).BeginTx(ctx, o)
	if err != nil {
		return nil, err
	}
	return vkTx{t}, nil
}
func (c *vkConn) QueryContext(ctx context.Context, q string, a []driver.NamedValue) (driver.Rows, error) {
	vkHook(q)
	return c.c.(driver.QueryerContext).QueryContext(ctx, q, a)
}
func (c *vkConn) ExecContext(ctx context.Context, q string, a []driver.NamedValue) (driver.Result, error) {
	vkHook(q)
	return c.c.(driver.ExecerContext).ExecContext(ctx, q, a)
}
func (c *vkConn) ResetSession(ctx context.Context) error { return c.c.(driver.SessionResetter).ResetSession(ctx) }
func (c *vkConn) IsValid() bool                          { return c.c.(driver.Validator).IsValid() }

type vkTx struct{ t driver.Tx }

func (t vkTx) Commit() error   { vkHook("COMMIT"); return t.t.Commit() }
func (t vkTx) Rollback() error { return t.t.Rollback() }

// vfBetween records a change before each statement of a read in turn: every change is returned exactly once.
func vfBetween(t *testing.T, v *vf, store *state.Storage) {
	sql.Register("vkhook", vkDriver{})
	sqlx.BindDriver("vkhook", sqlx.DOLLAR)
	vkHook = func(string) {}
	db, err := sqlx.Open("vkhook", vfDSN)
	if err != nil {
		t.Fatal(err)
	}
	db.SetMaxOpenConns(4)
	hooked := state.NewStorageWithDB(db, false)
	lists := map[*state.Storage]*state.DeviceListTable{store: state.NewDeviceListTable(vfDB(t)), hooked: state.NewDeviceListTable(db)}
	for n := 0; n < v.pick(40, 300) && v.nfailed() < 3; n++ {
		direct := n%2 == 0
		u := fmt.Sprintf("@db%d:x", n)
		want, got := map[string]int{}, map[string]int{}
		var hist []string
		if err := store.DeviceDataTable.Upsert(u, "D", internal.DeviceKeyData{OTKCounts: map[string]int{"k": 1}}, nil); err != nil {
			t.Fatal(err)
		}
		at, otk := 1+(n/2)%7, 1
		gotOTK := 0
		read := func(s *state.Storage) {
			if direct {
				m, err := lists[s].Select(u, "D", true)
				if err != nil {
					v.fail("select-error", "%v", err)
				}
				for x := range m {
					got[x]++
				}
				hist = append(hist, fmt.Sprintf("read %v", m))
				return
			}
			dd, err := s.DeviceDataTable.Select(u, "D", true)
			if err != nil || dd == nil {
				v.fail("select-error", "%v %v", dd, err)
				return
			}
			if dd.OTKCountChanged() {
				gotOTK = dd.OTKCounts["k"]
			}
			for _, x := range append(append([]string{}, dd.DeviceListChanged...), dd.DeviceListLeft...) {
				got[x]++
			}
			hist = append(hist, fmt.Sprintf("read %v %v", dd.DeviceListChanged, dd.DeviceListLeft))
		}
		write := func() {
			x := fmt.Sprintf("@w%d:x", len(want))
			want[x]++
			otk++
			ch := map[string]int{x: internal.DeviceListChanged + v.rng.Intn(2)*(internal.DeviceListLeft-internal.DeviceListChanged)}
			var err error
			if direct {
				err = lists[store].Upsert(u, "D", ch)
			} else {
				err = store.DeviceDataTable.Upsert(u, "D", internal.DeviceKeyData{OTKCounts: map[string]int{"k": otk}}, ch)
			}
			if err != nil {
				v.fail("upsert-error", "%v", err)
			}
		}
		for r := 0; r < 3; r++ {
			write()
			k, done := 0, make(chan struct{})
			var once sync.Once
			vkHook = func(q string) {
				k++
				if k != at {
					return
				}
				once.Do(func() {
					hist = append(hist, fmt.Sprintf("change recorded before %.60q", strings.Join(strings.Fields(q), " ")))
					go func() { write(); close(done) }()
					select {
					case <-done:
					case <-time.After(40 * time.Millisecond): // it waits for the read to finish
					}
				})
			}
			read(hooked)
			once.Do(func() { close(done) })
			<-done
		}
		vkHook = func(string) {}
		read(store)
		read(store)
		for x := range want {
			if got[x] != 1 {
				v.fail("between", "the change of %s was returned %d times: %s", x, got[x], strings.Join(hist, "; "))
			}
		}
		if !direct && gotOTK != otk {
			v.fail("between-otk", "the last key count returned is %d, not %d: %s", gotOTK, otk, strings.Join(hist, "; "))
		}
		v.eval(strings.Join(hist, "; "))
	}
}
