package main

import (
	"encoding/json"
	"fmt"
	"os"
	"strings"
	"time"

	identity "github.com/greenpau/go-identity"
	"github.com/greenpau/go-identity/pkg/requests"
)

// C30. The clock is read before and after every call; every time recorded in
// users, entries, the database and its file is followed through histories.

func init() {
	register(&Prop{ID: "C30", Level: "exploration",
		Rule:  "distinct (operation, outcome, kind of recorded time, event: recorded / kept / absent); every time in every record, in the database and in its file is compared after every call with its former value and with the clock readings around the calls, in processes whose local time is not UTC",
		Cases: n2(400, 6000), Run: runC30})
}

// instant is a recorded time: what it is about and when.
type instants map[string]string

var listTimes = map[string]string{"passwords": "hash", "public_keys": "id", "api_keys": "id", "mfa_tokens": "id"}

// instantsOf collects the times of a record.
func instantsOf(c *Ctx, dump string) instants {
	m := instants{}
	o := parseRaw(c, dump)
	str := func(o rawObj, k string) string {
		var s string
		json.Unmarshal(o[k], &s)
		return s
	}
	flag := func(o rawObj, k string) bool { return string(o[k]) == "true" }
	m["user/created"] = str(o, "created")
	m["user/last_modified"] = str(o, "last_modified")
	for l, key := range listTimes {
		for _, x := range rawList(c, o, l) {
			e := parseRaw(c, x)
			p := l + "/" + str(e, key) + "/"
			m[p+"created_at"] = str(e, "created_at")
			m[p+"disabled_at"] = str(e, "disabled_at")
			m[p+"expired_at"] = str(e, "expired_at")
			if !flag(e, "disabled") && !never(m[p+"disabled_at"]) {
				c.Violate([]string{"C30"}, "an entry of %s that is not disabled was disabled at %s: %s", l, m[p+"disabled_at"], head(x, 400))
			}
			if !flag(e, "expired") && !never(m[p+"expired_at"]) {
				c.Violate([]string{"C30"}, "an entry of %s that has not expired expired at %s: %s", l, m[p+"expired_at"], head(x, 400))
			}
			if flag(e, "disabled") && never(m[p+"disabled_at"]) {
				c.Violate([]string{"C30"}, "a disabled entry of %s has no time of disabling: %s", l, head(x, 400))
			}
		}
	}
	return m
}

func never(s string) bool { return s == "" || strings.HasPrefix(s, "0001-01-01T00:00:00") }

// timeMon follows the times of a history.
type timeMon struct {
	c        *Ctx
	w        *World
	t0, t1   time.Time
	users    map[string]instants // by user ID
	modified string
}

func (m *timeMon) during(t time.Time) bool {
	return !t.Before(m.t0.Round(0)) && !t.After(m.t1.Round(0))
}

// steady: the wall clock was not adjusted during the call.
func (m *timeMon) steady() bool {
	d := m.t1.Sub(m.t0) - m.t1.Round(0).Sub(m.t0.Round(0))
	return d < time.Millisecond && d > -time.Millisecond
}

func (m *timeMon) recorded(op, user, what, s string) {
	c := m.c
	t, err := time.Parse(time.RFC3339Nano, s)
	if err != nil {
		c.Violate([]string{"C30"}, "%s recorded %s of %q as %q: %v", op, what, user, s, err)
	}
	if !strings.HasSuffix(s, "Z") {
		c.Violate([]string{"C30"}, "%s recorded %s of %q as %q, which is not in UTC", op, what, user, s)
	}
	if m.steady() && !m.during(t) {
		c.Violate([]string{"C30"}, "%s recorded %s of %q as %s, but ran from %s to %s", op, what, user, s, m.t0.UTC().Format(time.RFC3339Nano), m.t1.UTC().Format(time.RFC3339Nano))
	}
	c.Event("times_recorded")
	c.Eval(fmt.Sprintf("%s/recorded/%s", op, timeKind(what)))
}

func timeKind(k string) string {
	p := strings.Split(k, "/")
	return p[0] + "." + p[len(p)-1]
}

// look compares the times after a call with those before it.
func (m *timeMon) look(op string, actor *mUser, stored bool) {
	c, w := m.c, m.w
	if !m.steady() {
		c.Event("clock_adjusted")
	}
	now := map[string]instants{}
	for i, u := range w.users {
		x := instantsOf(c, w.dumps[i])
		now[u.id] = x
		was, old := m.users[u.id]
		for k, s := range x {
			before, known := was[k]
			switch {
			case !old || !known:
				switch {
				case strings.HasSuffix(k, "/created") || strings.HasSuffix(k, "/created_at") || strings.HasSuffix(k, "/last_modified"):
					m.recorded(op, u.username, k, s)
				case !never(s):
					m.recorded(op, u.username, k, s)
				default:
					c.Eval(op + "/absent/" + timeKind(k))
				}
			case k == "user/last_modified" && u == actor && stored:
				m.recorded(op, u.username, k, s)
			case s == before:
				c.EventN("times_kept", 1)
			case never(before) && strings.HasPrefix(k, "passwords/") && op == "ChangeUserPassword" && u == actor && stored:
				m.recorded(op, u.username, k, s)
			default:
				c.Violate([]string{"C30"}, "%s changed %s of %q from %q to %q", op, k, u.username, before, s)
			}
		}
		if a, b := x["user/created"], x["user/last_modified"]; !notAfter(a, b) {
			c.Violate([]string{"C30"}, "%q was created at %s and last modified at %s", u.username, a, b)
		}
		c.Eval(fmt.Sprintf("%s/%v/kept/%d", op, stored, len(x)))
	}
	m.users = now
	mod := w.db.LastModified.Format(time.RFC3339Nano)
	if stored {
		m.recorded(op, w.arg, "database/last_modified", mod)
	} else if mod != m.modified {
		c.Violate([]string{"C30"}, "%s, which changed nothing, changed the modification time of the database from %s to %s", op, m.modified, mod)
	}
	m.modified = mod
}

func notAfter(a, b string) bool {
	x, e1 := time.Parse(time.RFC3339Nano, a)
	y, e2 := time.Parse(time.RFC3339Nano, b)
	return e1 == nil && e2 == nil && !x.After(y)
}

// file compares the times in a file with those of the records.
func (m *timeMon) file(path, what string) {
	c := m.c
	b, err := os.ReadFile(path)
	if err != nil {
		return
	}
	var f dFile
	if json.Unmarshal(b, &f) != nil {
		return
	}
	if f.LastModified != m.modified {
		c.Violate([]string{"C30"}, "the %s was last modified at %s, the database at %s", what, f.LastModified, m.modified)
	}
	for _, raw := range f.Users {
		var id struct{ ID string }
		json.Unmarshal(raw, &id)
		for k, s := range instantsOf(c, string(raw)) {
			if was := m.users[id.ID][k]; s != was && !(never(s) && never(was)) {
				c.Violate([]string{"C30"}, "in the %s %s of user %s is %q, in the database %q", what, k, id.ID, s, was)
			}
		}
	}
	c.Event("files_compared")
}

func runC30(c *Ctx) {
	time.Local = time.FixedZone("", []int{19800, -12600, 45900, -43200}[c.Case%4])
	if c.Case%8 == 7 {
		c.constructorTimes()
		return
	}
	o := worldOpts{weights: mix(map[string]int{"graft": 0, "reopen": 0, "chpw": 10}), checkEvery: 25, mismatch: 0.05}
	if c.Case%3 == 1 {
		o.faultProb = 0.25
	}
	m := &timeMon{c: c, users: map[string]instants{}}
	m.t0 = time.Now()
	w := newWorld(c, o)
	m.t1 = time.Now()
	m.w = w
	m.look("NewDatabase", nil, true)
	w.before = func() { m.t0 = time.Now() }
	w.after = func(s *step, err error, fault string) { m.t1 = time.Now() }
	w.again = func(s *step, err error) error {
		m.look(s.op, s.actor, s.store && err == nil)
		if s.op == "GetUsers" && err == nil && s.q != nil {
			m.listed(s.q)
		}
		if s.store && err == nil {
			if s.copyTo != "" {
				m.file(s.copyTo, "copy")
			} else {
				m.file(w.path, "database file")
			}
		}
		return err
	}
	w.seedUsers(2)
	for i := 0; i < 6; i++ {
		w.steps(8)
		// what was read back
		for _, u := range w.users {
			m.t0, m.t1 = time.Now(), time.Now()
			for k, s := range instantsOf(c, w.dumpUser(w.db, u, []string{"C30"})) {
				if s != m.users[u.id][k] {
					c.Violate([]string{"C30"}, "%s of %q became %q (was %q)", k, u.username, s, m.users[u.id][k])
				}
			}
		}
		// reopening brings back the state of the file, which a copy may have left behind
		m.modified = w.db.LastModified.Format(time.RFC3339Nano)
		w.opReopen()
		m.modified = w.db.LastModified.Format(time.RFC3339Nano)
		m.file(w.path, "reopened database file")
		if c.Case%5 == 2 && i%2 == 1 {
			// records from long ago, or without a time of creation
			w.graft(9)
			w.described()
			m.users = map[string]instants{}
			for j, u := range w.users {
				m.users[u.id] = instantsOf(c, w.dumps[j])
			}
			m.modified = w.db.LastModified.Format(time.RFC3339Nano)
			c.Event("aged_records")
		}
	}
	w.finish()
	c.Event("histories")
	if c.Case < 3 {
		c.Sample("%s", head(strings.Join(c.trace, " | "), 3000))
	}
}

// listed compares the times in a listing of users.
func (m *timeMon) listed(q *requests.Request) {
	b, ok := q.Response.Payload.(*identity.UserMetadataBundle)
	if !ok {
		return
	}
	for _, x := range b.Get() {
		was := m.users[x.ID]
		if a, b := x.Created.Format(time.RFC3339Nano), x.LastModified.Format(time.RFC3339Nano); a != was["user/created"] || b != was["user/last_modified"] {
			m.c.Violate([]string{"C30"}, "GetUsers lists %q as created %s, modified %s; the record says %s and %s", x.Username, a, b, was["user/created"], was["user/last_modified"])
		}
		m.c.Eval("listed")
	}
}

// constructorTimes checks the times of objects made and disabled one by one.
func (c *Ctx) constructorTimes() {
	r := c.R
	m := &timeMon{c: c}
	key := genRSA(r, 1024)
	for i := 0; i < 40; i++ {
		var (
			made interface {
				Disable()
			}
			err error
		)
		q := requests.NewRequest()
		q.Key.Comment, q.MfaToken.Comment = genComment(r), genComment(r)
		q.Key.Disabled = r.Intn(3) == 0
		q.MfaToken.Disabled = q.Key.Disabled
		disabled := q.Key.Disabled
		kind := ""
		build := func() {}
		switch r.Intn(6) {
		case 0:
			kind, disabled = "password", false
			pw := genPassword(r, 1, 30)
			build = func() {
				var p *identity.Password
				if p, err = identity.NewPassword(pw); err == nil {
					made = p
				}
			}
		case 1:
			kind = "API key"
			q.Key.Usage, q.Key.Payload, q.Key.Prefix = "api", "x", "y"
			build = func() {
				var p *identity.APIKey
				if p, err = identity.NewAPIKey(q); err == nil {
					made = p
				}
			}
		case 2:
			kind = "public key"
			q.Key.Usage, q.Key.Payload = "ssh", key.openssh("x")
			build = func() {
				var p *identity.PublicKey
				if p, err = identity.NewPublicKey(q); err == nil {
					made = p
				}
			}
		case 3:
			kind = "token"
			q.MfaToken.Type, q.MfaToken.Secret, q.MfaToken.Period, q.MfaToken.Digits = "totp", randFrom(r, alnum, 20), 30+r.Intn(200), 6
			q.MfaToken.Algorithm = "sha1"
			q.MfaToken.Passcode = refTOTP([]byte(q.MfaToken.Secret), "sha1", 6, stepOf(time.Now(), q.MfaToken.Period))
			build = func() {
				var p *identity.MfaToken
				if p, err = identity.NewMfaToken(q); err == nil {
					made = p
				}
			}
		case 4, 5:
			m.t0 = time.Now()
			u := identity.NewUser("someone")
			reg := identity.NewRegistration(u)
			m.t1 = time.Now()
			m.recorded("NewUser", "someone", "user/created", u.Created.Format(time.RFC3339Nano))
			m.recorded("NewUser", "someone", "user/last_modified", u.LastModified.Format(time.RFC3339Nano))
			m.recorded("NewRegistration", "someone", "registration/created", reg.Created.Format(time.RFC3339Nano))
			continue
		}
		c.Log("new %s disabled=%v", kind, disabled)
		m.t0 = time.Now()
		c.Call("constructor", func() error { build(); return nil })
		m.t1 = time.Now()
		if err != nil || made == nil {
			c.Violate([]string{"C16", "C11", "C12"}, "constructor of a %s refused: %v", kind, err)
		}
		times := func() (created, dis, exp string, d, e bool) {
			b, _ := json.Marshal(made)
			var x struct {
				CreatedAt  string `json:"created_at"`
				DisabledAt string `json:"disabled_at"`
				ExpiredAt  string `json:"expired_at"`
				Disabled   bool   `json:"disabled"`
				Expired    bool   `json:"expired"`
			}
			json.Unmarshal(b, &x)
			return x.CreatedAt, x.DisabledAt, x.ExpiredAt, x.Disabled, x.Expired
		}
		created, dis, exp, d, e := times()
		m.recorded("constructor", kind, kind+"/created_at", created)
		if d != disabled || e || d == never(dis) || !never(exp) {
			c.Violate([]string{"C30"}, "a new %s asked to be disabled=%v has disabled=%v at %q, expired=%v at %q", kind, disabled, d, dis, e, exp)
		}
		if d {
			m.recorded("constructor", kind, kind+"/disabled_at", dis)
		}
		m.t0 = time.Now()
		made.Disable()
		m.t1 = time.Now()
		created2, dis, exp, d, e := times()
		if created2 != created || !d || !e {
			c.Violate([]string{"C30"}, "disabling a %s gives created %s (was %s) disabled=%v expired=%v", kind, created2, created, d, e)
		}
		m.recorded("Disable", kind, kind+"/disabled_at", dis)
		m.recorded("Disable", kind, kind+"/expired_at", exp)
	}
}
