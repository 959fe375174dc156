package handler

import (
	"context"
	"encoding/json"
	"fmt"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/jmoiron/sqlx"
	"github.com/matrix-org/sliding-sync/pubsub"
	"github.com/matrix-org/sliding-sync/sqlutil"
	"github.com/matrix-org/sliding-sync/state"
	"github.com/matrix-org/sliding-sync/sync2"
	"github.com/matrix-org/sliding-sync/sync3"
	"github.com/matrix-org/sliding-sync/testutils"
	"github.com/tidwall/gjson"
)

type vaOwner struct{ user, device string }

// the homeserver: which tokens are valid and whose they are; whether it can be reached
type vaHS struct {
	sync.Mutex
	owner map[string]vaOwner
	gone  map[string]bool
	down  map[string]bool
}

func (c *vaHS) Versions(ctx context.Context) ([]string, error) { return []string{"v1.1"}, nil }
func (c *vaHS) WhoAmI(ctx context.Context, tok string) (string, string, error) {
	c.Lock()
	defer c.Unlock()
	if c.down[tok] {
		return "", "", fmt.Errorf("cannot reach the homeserver")
	}
	o, ok := c.owner[tok]
	if !ok || c.gone[tok] {
		return "", "", sync2.HTTP401
	}
	return o.user, o.device, nil
}
func (c *vaHS) DoSyncV2(ctx context.Context, tok, since string, isFirst, toDeviceOnly bool) (*sync2.SyncResponse, int, error) {
	return nil, 0, fmt.Errorf("not expected")
}

// the other half of the server: starts pollers on request
type vaPub struct {
	v     *vf
	h     *SyncLiveHandler
	store *sync2.Storage
	hs    *vaHS
}

func (p *vaPub) Close() error { return nil }
func (p *vaPub) Notify(ch string, pl pubsub.Payload) error {
	e, ok := pl.(*pubsub.V3EnsurePolling)
	if !ok {
		return nil
	}
	go func() {
		tok, _, err := p.store.TokensTable.GetTokenAndSince(e.UserID, e.DeviceID, e.AccessTokenHash)
		p.hs.Lock()
		o, known := p.hs.owner[tok]
		gone := p.hs.gone[tok]
		p.hs.Unlock()
		if err == nil && (!known || o.user != e.UserID || o.device != e.DeviceID) {
			p.v.fail("poller", "a poller of %s %s is started with the token of %s %s", e.UserID, e.DeviceID, o.user, o.device)
		}
		if err != nil {
			p.v.fail("poller-none", "no token to start the poller of %s %s with: %s", e.UserID, e.DeviceID, err)
		}
		if err != nil || gone {
			p.expire(e.AccessTokenHash, e.UserID, e.DeviceID)
		}
		p.h.OnInitialSyncComplete(&pubsub.V2InitialSyncComplete{UserID: e.UserID, DeviceID: e.DeviceID, Success: err == nil && !gone})
	}()
	return nil
}
func (p *vaPub) expire(hash, user, device string) {
	p.store.TokensTable.Delete(hash)
	p.h.OnExpiredToken(&pubsub.V2ExpiredToken{UserID: user, DeviceID: device})
}

// Histories of logins, logouts and requests (right, unknown, missing and expired tokens; positions of their own and of
// other connections), run against the real handler and database; several users and devices with look-alike IDs.
func TestVerifAuth(t *testing.T) {
	v := vfNew(t)
	sync3.SpamProtectionInterval = 0
	uri := testutils.PrepareDBConnectionString()
	db, err := sqlx.Open("postgres", uri)
	if err != nil {
		t.Fatal(err)
	}
	defer db.Close()
	db.SetMaxOpenConns(40)
	store := state.NewStorageWithDB(db, false)
	v2 := sync2.NewStoreWithDB(db, "secret")
	hs := &vaHS{owner: map[string]vaOwner{}, gone: map[string]bool{}, down: map[string]bool{}}
	pub := &vaPub{v: v, store: v2, hs: hs}
	h, err := NewSync3Handler(store, v2, hs, "secret", pub, pubsub.NewPubSub(10), false, 100, time.Millisecond)
	if err != nil {
		t.Fatal(err)
	}
	pub.h = h
	snap, err := store.GlobalSnapshot()
	if err != nil {
		t.Fatal(err)
	}
	if err := h.Startup(&snap); err != nil {
		t.Fatal(err)
	}
	vaTable(v, db)
	vaEnsure(v)
	base := v.rng.Int63()
	var wg sync.WaitGroup
	for n := 0; n < v.pick(40, 160); n++ {
		wg.Add(1)
		go func(n int) {
			defer wg.Done()
			(&vaWorld{v: v, n: n, rng: rand.New(rand.NewSource(base + int64(n))), h: h, hs: hs, pub: pub, v2: v2, store: store}).run(v.pick(40, 120))
		}(n)
	}
	wg.Wait()
	// nothing stored gives a token away
	var rows []string
	if err := db.Select(&rows, `SELECT t::text FROM syncv3_sync2_tokens t`); err != nil {
		t.Fatal(err)
	}
	for _, r := range rows {
		for tok := range hs.owner {
			if strings.Contains(r, tok) || strings.Contains(r, fmt.Sprintf("%x", tok)) {
				v.fail("plain", "the database holds an access token in the clear: %s", r)
			}
		}
	}
}

type vaConn struct {
	o   vaOwner
	cid string
	pos string
}
type vaWorld struct {
	v     *vf
	n, k  int
	rng   *rand.Rand
	h     *SyncLiveHandler
	hs    *vaHS
	pub   *vaPub
	v2    *sync2.Storage
	store *state.Storage
	toks  []string
	dead  map[string]bool // the server was told
	conns []*vaConn       // open connections, by what the client knows
	hist  []string
	bad   bool
}

func (w *vaWorld) fail(key, f string, a ...interface{}) {
	w.bad = true
	w.v.fail(key, "%s after %s", fmt.Sprintf(f, a...), strings.Join(w.hist, "; "))
}
func (w *vaWorld) run(steps int) {
	w.dead = map[string]bool{}
	users := []string{fmt.Sprintf("@a%d:h", w.n), fmt.Sprintf("@A%d:h", w.n)}
	devs := []string{"D", "D|x", "d"}
	cids := []string{"", "y", "x|y"}
	for _, u := range users {
		w.store.InsertAccountData(u, sync2.AccountDataGlobalRoom, []json.RawMessage{json.RawMessage(fmt.Sprintf(`{"type":"m.mark","content":{"u":%q}}`, u))})
	}
	drop := func(match func(c *vaConn) bool) {
		var keep []*vaConn
		for _, c := range w.conns {
			if !match(c) {
				keep = append(keep, c)
			}
		}
		w.conns = keep
	}
	for i := 0; i < steps && !w.bad; i++ {
		switch k := w.rng.Intn(20); {
		case k < 4 || len(w.toks) == 0:
			o := vaOwner{users[w.rng.Intn(2)], devs[w.rng.Intn(3)]}
			w.k++
			tok := fmt.Sprintf("tok_%d_%d_%d", w.n, w.k, w.rng.Int63())
			w.hs.Lock()
			w.hs.owner[tok] = o
			w.hs.Unlock()
			w.toks = append(w.toks, tok)
			w.hist = append(w.hist, fmt.Sprintf("login(%s|%s)=t%d", o.user, o.device, w.k))
		case k < 6: // logged out; sometimes the poller notices
			j := w.rng.Intn(len(w.toks))
			tok := w.toks[j]
			o := w.hs.owner1(tok)
			w.hs.Lock()
			w.hs.gone[tok] = true
			w.hs.Unlock()
			w.hist = append(w.hist, fmt.Sprintf("logout(t%d)", j+1))
			if w.rng.Intn(3) > 0 {
				if tk, err := w.v2.TokensTable.Token(tok); err == nil {
					w.pub.expire(tk.AccessTokenHash, o.user, o.device)
					drop(func(c *vaConn) bool { return c.o == o })
				}
				w.dead[tok] = true
				w.hist = append(w.hist, "noticed")
			}
		default:
			tok, o, name := "", vaOwner{}, ""
			j := w.rng.Intn(len(w.toks))
			auth := ""
			down := false
			switch w.rng.Intn(12) {
			case 0:
				name = "none"
			case 1:
				name, auth = "garbage", "Bearer "+w.toks[j]+"x"
			case 2:
				name, auth = "hash", "Bearer nonsense"
				if tk, err := w.v2.TokensTable.Token(w.toks[j]); err == nil {
					auth = "Bearer " + tk.AccessTokenHash
				}
			case 3:
				down = true
				fallthrough
			default:
				tok = w.toks[j]
				o = w.hs.owner1(tok)
				name, auth = fmt.Sprintf("t%d", j+1), "Bearer "+tok
			}
			known := false
			if tok != "" {
				if _, err := w.v2.TokensTable.Token(tok); err == nil {
					known = true
				}
			}
			cid := cids[w.rng.Intn(3)]
			pos := ""
			var c *vaConn
			if len(w.conns) > 0 && w.rng.Intn(3) > 0 {
				c = w.conns[w.rng.Intn(len(w.conns))]
				pos = c.pos
				if w.rng.Intn(4) > 0 {
					cid = c.cid
				}
			}
			for _, u := range users {
				for _, d := range devs {
					w.store.ToDeviceTable.InsertMessages(u, d, []json.RawMessage{json.RawMessage(fmt.Sprintf(`{"type":"m.x","sender":"@s","content":{"to":%q}}`, u+" "+d))})
				}
			}
			if down {
				w.hs.Lock()
				w.hs.down[tok] = true
				w.hs.Unlock()
			}
			url := "/?timeout=1"
			if pos != "" {
				url += "&pos=" + pos
			}
			body := fmt.Sprintf(`{"conn_id":%q,"extensions":{"account_data":{"enabled":true},"to_device":{"enabled":true}}}`, cid)
			req := httptest.NewRequest("POST", url, strings.NewReader(body))
			if auth != "" {
				req.Header.Set("Authorization", auth)
			}
			rec := httptest.NewRecorder()
			ctx, cancel := context.WithTimeout(req.Context(), 60*time.Second)
			w.h.ServeHTTP(rec, req.WithContext(ctx))
			cancel()
			if down {
				w.hs.Lock()
				delete(w.hs.down, tok)
				w.hs.Unlock()
			}
			res := gjson.ParseBytes(rec.Body.Bytes())
			w.hist = append(w.hist, fmt.Sprintf("request(%s, conn %q, pos %q)=%d", name, cid, pos, rec.Code))
			w.hs.Lock()
			gone := w.hs.gone[tok]
			w.hs.Unlock()
			if rec.Code != 200 {
				if res.Get("extensions").Exists() || res.Get("pos").Exists() {
					w.fail("leak", "a request that was refused got data: %s", rec.Body.String())
				}
			}
			switch {
			case tok == "" || w.dead[tok]:
				if rec.Code != http.StatusUnauthorized && !(down && rec.Code == http.StatusBadGateway) {
					w.fail("anon", "a request without a valid token (%s) is answered with %d", name, rec.Code)
				}
				continue
			case rec.Code == 200:
				for _, m := range res.Get("extensions.to_device.events.#.content.to").Array() {
					if m.Str != o.user+" "+o.device {
						w.fail("device", "the device %s of %s was sent a message for %s", o.device, o.user, m.Str)
					}
				}
				for _, m := range res.Get("extensions.account_data.global").Array() {
					if m.Get("type").Str == "m.mark" && m.Get("content.u").Str != o.user {
						w.fail("user", "%s was sent account data of %s", o.user, m.Get("content.u").Str)
					}
				}
				if pos == "" {
					if len(res.Get("extensions.to_device.events").Array()) == 0 {
						w.fail("nothing", "the device %s of %s does not get its messages", o.device, o.user)
					}
					if !res.Get(`extensions.account_data.global.#(type=="m.mark")`).Exists() {
						w.fail("nothing", "%s does not get their account data: %s", o.user, rec.Body.String())
					}
					drop(func(c *vaConn) bool { return c.o == o && c.cid == cid })
					w.conns = append(w.conns, &vaConn{o, cid, res.Get("pos").Str})
				} else if c.o != o || c.cid != cid {
					// allowed only when the device has a connection of that name with that position
					own := false
					for _, x := range w.conns {
						if x.o == o && x.cid == cid {
							own = true
							x.pos = res.Get("pos").Str
						}
					}
					if !own {
						w.fail("other", "%s %s was answered on the connection of %s %s", o.user, o.device, c.o.user, c.o.device)
					}
				} else {
					c.pos = res.Get("pos").Str
				}
				if !known && gone {
					w.fail("gone", "a token the homeserver rejects is served")
				}
			default:
				switch {
				case down && !known:
					if rec.Code != http.StatusBadGateway {
						w.fail("down", "status %d although the token could not be looked up", rec.Code)
					}
				case gone && rec.Code == http.StatusUnauthorized:
					w.dead[tok] = true
					if known {
						drop(func(c *vaConn) bool { return c.o == o })
					}
				case pos != "" && rec.Code == 400 && (c.o != o || c.cid != cid || gone):
				case pos != "" && c.o == o && c.cid == cid:
					w.fail("refused", "a request on an open connection is answered with %d %s", rec.Code, rec.Body.String())
				case pos == "":
					w.fail("refused", "a new connection of a valid token is answered with %d %s", rec.Code, rec.Body.String())
				default:
					w.fail("status", "status %d for the position of another connection", rec.Code)
				}
			}
		}
	}
	w.v.eval(strings.Join(w.hist, "; "))
}
func (c *vaHS) owner1(tok string) vaOwner {
	c.Lock()
	defer c.Unlock()
	return c.owner[tok]
}

// the token table on its own, with chosen times
func vaTable(v *vf, db *sqlx.DB) {
	st := sync2.NewStoreWithDB(db, "other secret")
	t0 := time.Now().Add(-100000 * time.Hour).Truncate(time.Second)
	for n := 0; n < v.pick(60, 400); n++ {
		type tk struct {
			o    vaOwner
			seen time.Time
			live bool
		}
		m := map[string]*tk{}
		var order []string
		devs := []vaOwner{{fmt.Sprintf("@t%d", n), "D"}, {fmt.Sprintf("@t%d", n), "E"}, {fmt.Sprintf("@s%d", n), "D"}}
		hist := ""
		now := t0
		for i := 0; i < 12; i++ {
			switch v.rng.Intn(6) {
			case 0:
				now = now.Add(24 * time.Hour)
			case 1:
				now = now.AddDate(0, v.rng.Intn(3), v.rng.Intn(2)*7)
			case 2:
				now = now.Add(time.Duration(v.rng.Intn(4)) * time.Minute)
			default:
				now = now.Add(time.Duration(1+v.rng.Intn(47)) * time.Hour)
			}
			now = now.Add(time.Second)
			switch k := v.rng.Intn(8); {
			case k < 3 || len(order) == 0:
				o := devs[v.rng.Intn(3)]
				tok := fmt.Sprintf("T%d_%d", n, i)
				hist += fmt.Sprintf(" insert(%s %v)", tok, o)
				err := sqlutil.WithTransaction(db, func(txn *sqlx.Tx) error {
					if _, err := st.TokensTable.Insert(txn, tok, o.user, o.device, now); err != nil {
						return err
					}
					return st.DevicesTable.InsertDevice(txn, o.user, o.device)
				})
				if err != nil {
					v.fail("insert", "%s after%s", err, hist)
					return
				}
				m[tok] = &tk{o, now, true}
				order = append(order, tok)
			case k < 6:
				tok := order[v.rng.Intn(len(order))]
				got, err := st.TokensTable.Token(tok)
				if x := m[tok]; (err == nil) != x.live {
					v.fail("token", "looking up %s: %v after%s", tok, err, hist)
				} else if err == nil {
					if got.UserID != x.o.user || got.DeviceID != x.o.device || got.AccessToken != tok {
						v.fail("token", "%s is said to belong to %s %s after%s", tok, got.UserID, got.DeviceID, hist)
					}
					at, since, err := st.TokensTable.GetTokenAndSince(x.o.user, x.o.device, got.AccessTokenHash)
					if err != nil || at != tok || since != "" {
						v.fail("token", "the poller gets %q %q %v for %s after%s", at, since, err, tok, hist)
					}
					for _, o := range devs {
						if o != x.o {
							if at, _, err := st.TokensTable.GetTokenAndSince(o.user, o.device, got.AccessTokenHash); err == nil || at != "" {
								v.fail("mixed", "the token of %v is given to the poller of %v after%s", x.o, o, hist)
							}
						}
					}
					hist += fmt.Sprintf(" seen(%s)", tok)
					if err := st.TokensTable.MaybeUpdateLastSeen(got, now); err != nil {
						v.fail("seen", "%s after%s", err, hist)
					}
					if now.Sub(x.seen) >= 24*time.Hour {
						x.seen = now
					}
					if got, err = st.TokensTable.Token(tok); err != nil || !got.LastSeen.Equal(x.seen) {
						v.fail("seen", "%s was last used at %v, recorded is %v (%v) after%s", tok, x.seen, got.LastSeen, err, hist)
						return
					}
				}
			default:
				tok := order[v.rng.Intn(len(order))]
				hist += fmt.Sprintf(" delete(%s)", tok)
				if m[tok].live {
					got, err := st.TokensTable.Token(tok)
					if err != nil {
						v.fail("token", "%s after%s", err, hist)
						return
					}
					if err := st.TokensTable.Delete(got.AccessTokenHash); err != nil {
						v.fail("delete", "%s after%s", err, hist)
					}
				}
				m[tok].live = false
			}
		}
		all, err := st.TokensTable.TokenForEachDevice(nil)
		if err != nil {
			v.fail("each", "%s", err)
			return
		}
		for _, o := range devs {
			want := ""
			for _, tok := range order {
				if x := m[tok]; x.live && x.o == o && (want == "" || x.seen.After(m[want].seen)) {
					want = tok
				}
			}
			got := ""
			cnt := 0
			for _, a := range all {
				if a.UserID == o.user && a.DeviceID == o.device {
					got = a.AccessToken
					cnt++
				}
			}
			if got != want || cnt > 1 {
				v.fail("latest", "the poller of %v is started with %q, most recently used is %q (%d rows) after%s", o, got, want, cnt, hist)
			}
		}
		v.eval(hist)
	}
}

type vaNotes struct {
	mu sync.Mutex
	n  []*pubsub.V3EnsurePolling
}

func (p *vaNotes) Close() error { return nil }
func (p *vaNotes) Notify(ch string, pl pubsub.Payload) error {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.n = append(p.n, pl.(*pubsub.V3EnsurePolling))
	return nil
}
func (p *vaNotes) take() (n []*pubsub.V3EnsurePolling) {
	p.mu.Lock()
	defer p.mu.Unlock()
	n, p.n = p.n, nil
	return n
}

// several requests of the same device wait for its first sync together
func vaEnsure(v *vf) {
	for i := 0; i < v.pick(200, 2000); i++ {
		notes := &vaNotes{}
		p := NewEnsurePoller(notes, false)
		pids := []sync2.PollerID{{UserID: "@a", DeviceID: "D"}, {UserID: "@a", DeviceID: "E"}, {UserID: "@b", DeviceID: "D"}}
		ready, failed := map[sync2.PollerID]bool{}, map[sync2.PollerID]bool{}
		hist := ""
		for r := 0; r < 5; r++ {
			pid := pids[v.rng.Intn(3)]
			n := 1 + v.rng.Intn(3)
			hash := fmt.Sprint("h", r)
			hist += fmt.Sprintf(" %d requests of %v with %s", n, pid, hash)
			if failed[pid] {
				n = 1
			}
			res := make(chan bool, n)
			for k := 0; k < n; k++ {
				go func() { res <- p.EnsurePolling(context.Background(), pid, hash) }()
			}
			want := false
			if !ready[pid] {
				for t0 := time.Now(); time.Since(t0) < 5*time.Second; time.Sleep(100 * time.Microsecond) {
					notes.mu.Lock()
					l := len(notes.n)
					notes.mu.Unlock()
					if l > 0 {
						break
					}
				}
				time.Sleep(2 * time.Millisecond)
				if len(res) > 0 {
					v.fail("early", "a request went on before the first sync was done:%s", hist)
					return
				}
				for _, o := range pids { // others are of no concern
					if o != pid && v.rng.Intn(4) == 0 {
						p.OnInitialSyncComplete(&pubsub.V2InitialSyncComplete{UserID: o.UserID, DeviceID: o.DeviceID, Success: true})
						ready[o] = !failed[o]
						hist += fmt.Sprintf(" first sync of %v", o)
					}
				}
				if v.rng.Intn(4) == 0 {
					p.OnExpiredToken(&pubsub.V2ExpiredToken{UserID: pid.UserID, DeviceID: pid.DeviceID})
					hist += " expired"
					want = true
				}
				ok := v.rng.Intn(3) > 0
				want = want || !ok
				hist += fmt.Sprintf(" complete(%v)", ok)
				p.OnInitialSyncComplete(&pubsub.V2InitialSyncComplete{UserID: pid.UserID, DeviceID: pid.DeviceID, Success: ok})
			}
			for k := 0; k < n; k++ {
				select {
				case got := <-res:
					if got != want {
						v.fail("ensure", "a request is told expired=%v instead of %v:%s", got, want, hist)
						return
					}
				case <-time.After(10 * time.Second):
					v.fail("stuck", "a request waits forever:%s", hist)
					return
				}
			}
			asked := notes.take()
			if ready[pid] && len(asked) != 0 || !ready[pid] && (len(asked) != 1 || asked[0].UserID != pid.UserID || asked[0].DeviceID != pid.DeviceID || asked[0].AccessTokenHash != hash) {
				v.fail("asked", "the pollers were asked %d times:%s", len(asked), hist)
				return
			}
			ready[pid], failed[pid] = !want, want
			if ready[pid] && v.rng.Intn(3) == 0 {
				p.OnExpiredToken(&pubsub.V2ExpiredToken{UserID: pid.UserID, DeviceID: pid.DeviceID})
				ready[pid], failed[pid] = false, true
				hist += fmt.Sprintf(" expired %v", pid)
			}
		}
		v.eval(hist)
	}
}
