package sync3

import (
	"fmt"
	"sort"
	"strings"
	"sync"
	"testing"
)

// model-based: random operation sequences against two plain relations
func TestVerifTracker(t *testing.T) {
	v := vfNew(t)
	users := []string{"@a", "@b", "@c", "@d"}
	rooms := []string{"!1", "!2", "!3"}
	n := v.pick(6000, 200000)
	sub := func(from []string) (out []string) {
		for _, s := range from {
			if v.rng.Intn(3) == 0 {
				out = append(out, s)
			}
		}
		if len(out) > 0 && v.rng.Intn(5) == 0 {
			out = append(out, out[0])
		}
		v.rng.Shuffle(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
		return
	}
	srt := func(in []string) string { c := append([]string{}, in...); sort.Strings(c); return strings.Join(c, ",") }
	for k := 0; k < n && v.nfailed() < 5; k++ {
		tr := NewJoinedRoomsTracker()
		joined, invited := map[[2]string]bool{}, map[[2]string]bool{}
		desc := ""
		if v.rng.Intn(2) == 0 {
			m := map[string][]string{}
			for _, r := range rooms {
				if us := sub(users); v.rng.Intn(3) > 0 {
					m[r] = us
					for _, u := range us {
						joined[[2]string{u, r}] = true
					}
				}
			}
			desc = fmt.Sprintf("startup %v; ", m)
			tr.Startup(m)
		}
		check := func() {
			for _, u := range users {
				var want []string
				for _, r := range rooms {
					j := joined[[2]string{u, r}]
					if got := tr.IsUserJoined(u, r); got != j {
						v.fail("joined", "%s: IsUserJoined(%s,%s)=%v", desc, u, r, got)
					}
					if j {
						want = append(want, r)
					}
				}
				if got := srt(tr.JoinedRoomsForUser(u)); got != srt(want) {
					v.fail("rooms-for-user", "%s: JoinedRoomsForUser(%s)=%s want %s", desc, u, got, srt(want))
				}
			}
			for _, r := range rooms {
				var want, wantF []string
				ni := 0
				for _, u := range users {
					if joined[[2]string{u, r}] {
						want = append(want, u)
						if u != "@a" {
							wantF = append(wantF, u)
						}
					}
					if invited[[2]string{u, r}] {
						ni++
					}
				}
				got, c := tr.JoinedUsersForRoom(r, nil)
				if srt(got) != srt(want) || c != len(want) {
					v.fail("users-for-room", "%s: JoinedUsersForRoom(%s)=%v,%d want %v", desc, r, got, c, want)
				}
				got, c = tr.JoinedUsersForRoom(r, func(u string) bool { return u != "@a" })
				if srt(got) != srt(wantF) || c != len(want) {
					v.fail("users-for-room-filter", "%s: filtered JoinedUsersForRoom(%s)=%v,%d want %v,%d", desc, r, got, c, wantF, len(want))
				}
				if g := tr.NumInvitedUsersForRoom(r); g != ni {
					v.fail("invite-count", "%s: NumInvitedUsersForRoom(%s)=%d want %d", desc, r, g, ni)
				}
			}
		}
		for step := 0; step < 8; step++ {
			r := rooms[v.rng.Intn(len(rooms))]
			u := users[v.rng.Intn(len(users))]
			p := [2]string{u, r}
			switch v.rng.Intn(6) {
			case 0:
				desc += fmt.Sprintf("join %s %s; ", u, r)
				want := !joined[p]
				joined[p] = true
				delete(invited, p)
				if got := tr.UserJoinedRoom(u, r); got != want {
					v.fail("join-result", "%s returned %v", desc, got)
				}
			case 1:
				us := sub(users)
				desc += fmt.Sprintf("join %v %s; ", us, r)
				want := false
				for _, x := range us {
					want = want || !joined[[2]string{x, r}]
				}
				for _, x := range us {
					joined[[2]string{x, r}] = true
					delete(invited, [2]string{x, r})
				}
				if got := tr.UsersJoinedRoom(us, r); got != want {
					v.fail("joins-result", "%s returned %v", desc, got)
				}
			case 2, 3:
				desc += fmt.Sprintf("leave %s %s; ", u, r)
				want := joined[p] || invited[p]
				delete(joined, p)
				delete(invited, p)
				if got := tr.UserLeftRoom(u, r); got != want {
					v.fail("leave-result", "%s returned %v", desc, got)
				}
			case 4:
				us := sub(users)
				desc += fmt.Sprintf("invite %v %s; ", us, r)
				for _, x := range us {
					invited[[2]string{x, r}] = true
				}
				tr.UsersInvitedToRoom(us, r)
			case 5:
				js, is := sub(users), sub(users)
				desc += fmt.Sprintf("reload %s joined=%v invited=%v; ", r, js, is)
				for _, x := range users {
					delete(joined, [2]string{x, r})
					delete(invited, [2]string{x, r})
				}
				for _, x := range js {
					joined[[2]string{x, r}] = true
				}
				for _, x := range is {
					invited[[2]string{x, r}] = true
				}
				tr.ReloadMembershipsForRoom(r, js, is)
			}
			v.eval(desc)
			if !v.guard("tracker", desc, check) {
				break
			}
		}
	}
	// concurrent use: the relation after the dust settles is the one every goroutine left behind for its own user
	for k := 0; k < v.pick(20, 200) && v.nfailed() < 5; k++ {
		tr := NewJoinedRoomsTracker()
		var wg sync.WaitGroup
		for _, u := range users {
			wg.Add(1)
			go func(u string) {
				defer wg.Done()
				for i := 0; i < 40; i++ {
					r := rooms[i%3]
					tr.UserJoinedRoom(u, r)
					tr.UsersInvitedToRoom([]string{u}, r)
					if !tr.IsUserJoined(u, r) {
						v.fail("concurrent", "user %s not joined to %s right after joining", u, r)
					}
					tr.JoinedRoomsForUser(u)
					tr.JoinedUsersForRoom(r, nil)
					tr.NumInvitedUsersForRoom(r)
					if i < 30 {
						tr.UserLeftRoom(u, r)
						if tr.IsUserJoined(u, r) {
							v.fail("concurrent", "user %s joined to %s right after leaving", u, r)
						}
					}
				}
			}(u)
		}
		wg.Wait()
		v.eval(fmt.Sprintf("concurrent round %d", k))
		for _, u := range users {
			if got := srt(tr.JoinedRoomsForUser(u)); got != "!1,!2,!3" {
				v.fail("concurrent", "user %s ends joined to %s", u, got)
			}
		}
	}
}
