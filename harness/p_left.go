package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	identity "github.com/greenpau/go-identity"
	"github.com/greenpau/go-identity/pkg/qr"
	"github.com/greenpau/go-identity/pkg/requests"
)

// C28: what operations leave behind. Open descriptors, goroutines and the
// files of the scratch tree (which holds HOME, TMPDIR and the working
// directory) are listed around every call; memory and file size are measured
// over repetitions.

func init() {
	register(&Prop{ID: "C28", Level: "exploration",
		Rule:  "distinct (operation, outcome, fault) whose descriptors, goroutines and files were listed before and after, and distinct kinds of repeated operations whose retained memory and file size were measured",
		Cases: n2(220, 2600), Run: c28Case})
}

type leftovers struct {
	c          *Ctx
	fds        map[string]int
	goroutines int
	files      map[string]bool
}

func openFds() map[string]int {
	m := map[string]int{}
	l, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		return nil
	}
	for _, e := range l {
		t, err := os.Readlink("/proc/self/fd/" + e.Name())
		if err != nil || strings.HasPrefix(t, "anon_inode:") || strings.HasPrefix(t, "/proc/") || t == "/dev/null" {
			continue
		}
		m[t]++
	}
	return m
}

func listFiles(root string) map[string]bool {
	m := map[string]bool{}
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err == nil {
			m[p] = fi.IsDir()
		}
		return nil
	})
	return m
}

func (c *Ctx) snapshot() *leftovers {
	return &leftovers{c: c, fds: openFds(), goroutines: runtime.NumGoroutine(), files: listFiles(c.Base)}
}

// check compares with the present; created is the file that the operation was
// asked to create, if it succeeded.
func (l *leftovers) check(op string, err error, created, situation string) {
	c := l.c
	c.Event("checked:" + op)
	c.Eval(fmt.Sprintf("left/%s/%v/%s", op, err == nil, situation))
	what := op
	if err != nil {
		what += fmt.Sprintf(" (failed: %s)", head(errText(err), 160))
	}
	if situation != "" {
		what += " [" + situation + "]"
	}
	var extra []string
	for k := 0; k < 40; k++ {
		extra = nil
		for t, n := range openFds() {
			if n > l.fds[t] {
				extra = append(extra, t)
			}
		}
		if len(extra) == 0 && runtime.NumGoroutine() <= l.goroutines {
			break
		}
		time.Sleep(time.Duration(k) * time.Millisecond)
	}
	sort.Strings(extra)
	if len(extra) > 0 {
		c.Violate([]string{"C28"}, "%s left %q open", what, extra)
	}
	if n := runtime.NumGoroutine(); n > l.goroutines {
		c.Violate([]string{"C28"}, "%s left %d goroutines running", what, n-l.goroutines)
	}
	var names []string
	for p, isDir := range listFiles(c.Base) {
		if _, ok := l.files[p]; ok {
			continue
		}
		if created != "" && (p == created || isDir && strings.HasPrefix(created, p+"/")) {
			continue
		}
		names = append(names, p)
	}
	sort.Strings(names)
	if len(names) > 0 {
		c.Violate([]string{"C28"}, "%s left %q behind", what, names)
	}
}

func c28Case(c *Ctx) {
	if c.Case%5 == 4 {
		c28Repeat(c)
		return
	}
	defer debug.SetGCPercent(debug.SetGCPercent(-1)) // finalizers close forgotten files
	o := worldOpts{weights: mix(map[string]int{"graft": 0, "copy": 8, "save": 6, "reopen": 1}), checkEvery: 50}
	if c.Case%5 > 0 {
		o.faultProb = 0.5
	}
	o.pathKind = []string{"", "nested", "relative", "symlink", "bare", "home", ""}[c.Case%7]
	if o.pathKind == "bare" || o.pathKind == "relative" {
		o.faultProb = 0
	}
	w := newWorld(c, o)
	w.seedUsers(2)
	var l *leftovers
	w.before = func() { l = c.snapshot() }
	w.after = func(s *step, err error, fault string) {
		created := ""
		if err == nil {
			created = s.copyTo
		}
		l.check(s.op, err, created, strings.TrimRight(fault, " 0123456789"))
	}
	w.steps(30)
	w.before, w.after = nil, nil
	for i := 0; i < 12; i++ {
		c.oddTargets(w)
	}
	for i := 0; i < 12; i++ {
		c.oddFiles(w)
	}
	c.Event("histories")
	if c.Case < 3 {
		c.Sample("%s", head(strings.Join(c.trace, " | "), 3000))
	}
}

// oddTargets copies to and opens unusual paths.
func (c *Ctx) oddTargets(w *World) {
	r := c.R
	d := filepath.Join(c.Dir, fmt.Sprintf("odd%d", r.Intn(1000000)))
	os.MkdirAll(d, 0700)
	f := filepath.Join(d, "file")
	os.WriteFile(f, []byte("{}"), 0600)
	os.MkdirAll(filepath.Join(d, "empty"), 0700)
	os.MkdirAll(filepath.Join(d, "full", "x"), 0700)
	os.Symlink(filepath.Join(d, "nowhere"), filepath.Join(d, "dangling"))
	os.Symlink(filepath.Join(d, "loop"), filepath.Join(d, "loop"))
	os.Symlink(f, filepath.Join(d, "link"))
	p := pick(r, d+"/new.json", d+"/"+strings.Repeat("n", 255), d+"/"+strings.Repeat("n", 256), d+"/"+strings.Repeat("n", 250), d+"/empty", d+"/full", d+"/dangling", d+"/loop", d+"/link", d+"/file/below", d+"/missing/below.json", d+"/missing/", d+"/file", d+"/link/x", "", d+"/\x00", d+"/new\nline.json")
	c.Log("target %q", p)
	created := p
	if p == d+"/dangling" {
		created = d + "/nowhere"
	}
	kind := strings.TrimPrefix(p, d)
	if len(kind) > 30 {
		kind = fmt.Sprint("name of ", len(kind)-1)
	}
	l := c.snapshot()
	var err error
	if r.Intn(3) > 0 {
		err = c.Call("Copy", func() error { return w.db.Copy(p) })
		if err == nil {
			w.rev++
		}
		l.check("Copy", err, ifs(err == nil, created), kind)
		c.Log("   Copy -> %v", err)
	} else {
		if kind == "/missing/" || kind == "/missing/below.json" || kind == "/link/x" {
			created = p
		}
		err = c.Call("NewDatabase", func() error { _, e := openDB(p); return e })
		if err != nil && strings.HasPrefix(kind, "/missing") {
			created = d + "/missing/" // directories made before the failure
			l.check("NewDatabase", err, created+"x", kind)
		} else {
			l.check("NewDatabase", err, ifs(err == nil, strings.TrimSuffix(created, "/")), kind)
		}
		c.Log("   NewDatabase -> %v", err)
	}
	os.RemoveAll(d)
}

func ifs(b bool, s string) string {
	if b {
		return s
	}
	return ""
}

// oddFiles opens files of all sorts.
func (c *Ctx) oddFiles(w *World) {
	r := c.R
	p := filepath.Join(c.Dir, "odd.json")
	b := append([]byte(nil), w.file...)
	kind := "whole"
	switch r.Intn(9) {
	case 0:
		b, kind = b[:r.Intn(len(b))], "truncated"
	case 1:
		b, kind = nil, "empty"
	case 2:
		b[r.Intn(len(b))] = byte(r.Intn(256))
		kind = "byte changed"
	case 3:
		b, kind = []byte(`{"users":[null]}`), "null user"
	case 4:
		b, kind = []byte(strings.Replace(string(b), `"keep_versions"`, `"other"`, 1)), "policy incomplete"
	case 5:
		var doc map[string]interface{}
		if json.Unmarshal(b, &doc) == nil {
			if us, _ := doc["users"].([]interface{}); len(us) > 0 {
				doc["users"] = append(append([]interface{}{}, us[r.Intn(len(us))]), us...)
				b, _ = json.Marshal(doc)
				kind = "duplicate user"
			}
		}
	case 6, 7:
		var doc map[string]interface{}
		if json.Unmarshal(b, &doc) == nil {
			if us, _ := doc["users"].([]interface{}); len(us) > 0 {
				k := pick(r, "username", "id", "email_addresses", "passwords", "roles", "public_keys", "api_keys", "mfa_tokens")
				if u, _ := us[r.Intn((len(us)+1)/2)].(map[string]interface{}); u != nil {
					u[k] = nil
					if r.Intn(2) == 0 {
						delete(u, k)
					}
				}
				b, _ = json.Marshal(doc)
				kind = "user without " + k
			}
		}
	}
	if err := os.WriteFile(p, b, 0600); err != nil {
		c.Harness("odd file: %v", err)
	}
	var db *identity.Database
	l := c.snapshot()
	err := c.Call("NewDatabase", func() error {
		var e error
		db, e = openDB(p)
		return e
	})
	l.check("NewDatabase", err, "", kind)
	if err == nil {
		err = c.Call("Save", func() error { return db.Save() })
		l.check("Save", err, "", kind)
	}
	os.Remove(p)
}

// c28Repeat repeats operations that change nothing, or whose effects are
// undone, and measures what is retained.
func c28Repeat(c *Ctx) {
	r := c.R
	w := newWorld(c, worldOpts{policy: keepPolicy(2), weights: mix(nil), checkEvery: 50})
	w.seedUsers(3)
	w.steps(10)
	u := w.pickUser()
	db := w.db
	q := func() *requests.Request {
		q := requests.NewRequest()
		q.User.Username, q.User.Email = u.username, u.email
		return q
	}
	pp := w.policy.Password
	seq := 0
	uniq := func(n int) string { seq++; return fmt.Sprintf("%d-%s", seq, randFrom(r, alnum62, n)) }
	fail := func(err error) bool { return err != nil }
	ok := func(err error) bool { return err == nil }
	type rep struct {
		kind string
		n    int
		f    func() bool // expected outcome
	}
	pw := u.pw
	km := w.genKey()
	for have := true; have; {
		have = false
		for _, k := range u.keys {
			if k.canon == km.canon {
				have = true
				km = w.genKey()
			}
		}
	}
	reps := []rep{
		{"sign-in of unknown users", 1500, func() bool {
			q := q()
			q.User.Username, q.User.Password = "u"+uniq(20), uniq(30)
			return fail(db.AuthenticateUser(q))
		}},
		{"sign-in with wrong passwords", 1500, func() bool {
			q := q()
			q.User.Username, q.User.Password = u.email, uniq(30)
			return fail(db.AuthenticateUser(q))
		}},
		{"sign-in", 1500, func() bool {
			q := q()
			q.User.Username, q.User.Password = u.email, pw
			return ok(db.AuthenticateUser(q))
		}},
		{"sign-in with unknown tokens", 6000, func() bool {
			q := q()
			q.User.Username, q.WebAuthn.Challenge = u.email, uniq(20)
			q.WebAuthn.Request = uniq(40)
			return fail(db.AuthenticateUser(q))
		}},
		{"lookup of unknown API keys", 6000, func() bool {
			q := requests.NewRequest()
			q.Key.Payload = uniq(80)
			return fail(db.LookupAPIKey(q))
		}},
		{"identification of unknown users", 6000, func() bool {
			q := requests.NewRequest()
			q.User.Username = "u" + uniq(20) + pick(r, "", "@example.com")
			db.IdentifyUser(q)
			return true
		}},
		{"identification", 6000, func() bool {
			q := requests.NewRequest()
			q.User.Username = u.email
			return ok(db.IdentifyUser(q))
		}},
		{"retrieval of unknown users", 6000, func() bool {
			q := requests.NewRequest()
			q.User.Username, q.User.Email = "u"+uniq(20), uniq(10)+"@example.com"
			return fail(db.GetUser(q))
		}},
		{"retrieval and listing", 3000, func() bool { return ok(db.GetUser(q())) && ok(db.GetUsers(q())) }},
		{"refused additions of users", 6000, func() bool {
			q := requests.NewRequest()
			q.User.Username, q.User.Email, q.User.Password = u.username, uniq(10)+"@example.com", strings.Repeat("x", pp.MaxLength+1)
			return fail(db.AddUser(q))
		}},
		{"refused additions of duplicate users", 800, func() bool {
			q := requests.NewRequest()
			q.User.Username, q.User.Email, q.User.Password = "n"+uniq(10), u.email, randFrom(r, alnum, pp.MinLength)
			return fail(db.AddUser(q))
		}},
		{"refused password changes", 800, func() bool {
			q := q()
			q.User.OldPassword, q.User.Password = uniq(20), randFrom(r, alnum, pp.MinLength)
			return fail(db.ChangeUserPassword(q))
		}},
		{"password changes", 700, func() bool {
			q := q()
			n := randFrom(r, alnum, maxi(pp.MinLength, 16))
			q.User.OldPassword, q.User.Password = pw, n
			pw = n
			return ok(db.ChangeUserPassword(q))
		}},
		{"API keys added, used and deleted", 700, func() bool {
			q1 := q()
			q1.Key.Usage, q1.Key.Comment = "api", uniq(10)
			if db.AddAPIKey(q1) != nil {
				return false
			}
			q2 := requests.NewRequest()
			q2.Key.Payload, _ = q1.Response.Payload.(string)
			if db.LookupAPIKey(q2) != nil {
				return false
			}
			q3 := q()
			q3.Key.Usage = "api"
			if db.GetAPIKeys(q3) != nil {
				return false
			}
			for _, k := range q3.Response.Payload.(*identity.APIKeyBundle).Get() {
				if k.Comment == q1.Key.Comment {
					q1.Key.ID = k.ID
					return ok(db.DeleteAPIKey(q1))
				}
			}
			return false
		}},
		{"public keys added and deleted", 700, func() bool {
			q1 := q()
			q1.Key.Usage, q1.Key.Payload, q1.Key.Comment = km.usage, km.payload, uniq(10)
			if db.AddPublicKey(q1) != nil {
				return false
			}
			q2 := q()
			q2.Key.Usage = km.usage
			if db.GetPublicKeys(q2) != nil {
				return false
			}
			l := q2.Response.Payload.(*identity.PublicKeyBundle).Get()
			q2.Key.ID = l[len(l)-1].ID
			return ok(db.DeletePublicKey(q2))
		}},
		{"tokens added and deleted", 700, func() bool {
			secret := randFrom(r, alnum, 20)
			q1 := q()
			q1.MfaToken.Type, q1.MfaToken.Secret, q1.MfaToken.Algorithm, q1.MfaToken.Period, q1.MfaToken.Digits = "totp", secret, "sha1", 30, 6
			q1.MfaToken.Comment = uniq(10)
			done := false
			for i := 0; i < 4 && !done; i++ {
				q1.MfaToken.Passcode = refTOTP([]byte(secret), "sha1", 6, stepOf(time.Now(), 30))
				done = db.AddMfaToken(q1) == nil
			}
			q2 := q()
			if !done || db.GetMfaTokens(q2) != nil {
				return false
			}
			for _, k := range q2.Response.Payload.(*identity.MfaTokenBundle).Get() {
				if k.Comment == q1.MfaToken.Comment {
					q2.MfaToken.ID = k.ID
					return ok(db.DeleteMfaToken(q2))
				}
			}
			return false
		}},
		{"saves", 1500, func() bool { return ok(db.Save()) }},
		{"copies", 1500, func() bool { return ok(db.Copy(filepath.Join(c.Dir, "repeat-copy.json"))) }},
		{"openings", 500, func() bool { _, err := openDB(w.path); return ok(err) }},
		{"openings of damaged files", 1500, func() bool {
			_, err := openDB(filepath.Join(c.Dir, "damaged.json"))
			return fail(err)
		}},
		{"random strings and otpauth URIs", 6000, func() bool {
			identity.GetRandomString(40)
			identity.GetRandomStringFromRange(20, 60)
			code := qr.NewCode()
			code.Secret, code.Label, code.Type = randFrom(r, alnum, 20), uniq(10), "totp"
			return ok(code.Build()) && code.Get() != ""
		}},
		{"policy descriptions", 6000, func() bool {
			return db.GetPasswordPolicyRegex() != "" && db.GetUsernamePolicySummary() != ""
		}},
		{"names, roles and addresses", 6000, func() bool {
			identity.ParseName("Smith, " + uniq(10))
			identity.NewRole(uniq(10))
			identity.NewEmailAddress(uniq(10) + "@example.com")
			return true
		}},
	}
	os.WriteFile(filepath.Join(c.Dir, "damaged.json"), w.file[:len(w.file)/2+1], 0600)
	idx := []int{c.Case / 5 % len(reps), r.Intn(len(reps)), r.Intn(len(reps))}
	if !c.Thorough {
		idx = idx[:2]
	}
	for _, k := range idx {
		x := reps[k]
		scale := 1
		if c.Thorough {
			scale = 3
		}
		n := x.n * scale
		l := c.snapshot()
		round := func() int64 {
			for i := 0; i < n; i++ {
				good := false
				err := c.Call(x.kind, func() error { good = x.f(); return nil })
				if err != nil || !good {
					c.Event("unexpected outcome of a repeated operation")
					c.Violate([]string{"*foreign"}, "%s: repetition %d has another outcome than expected", x.kind, i)
				}
			}
			c.EventN("repetitions", int64(n))
			return heapNow()
		}
		size := func() int64 {
			fi, err := os.Stat(w.path)
			if err != nil {
				c.Harness("stat: %v", err)
			}
			return fi.Size()
		}
		round()
		h0, s0 := heapNow(), size()
		h1, s1 := round(), size()
		h2, s2 := round(), size()
		c.Log("repeated %s: 2x%d, heap %d %d %d, file %d %d %d", x.kind, n, h0, h1, h2, s0, s1, s2)
		c.Sample("%s repeated %d times after as many: heap %d, %d, %d bytes; file %d, %d, %d bytes", x.kind, n, h0, h1, h2, s0, s1, s2)
		c.Eval("repeat/" + x.kind)
		limit := int64(maxi(n*24, 20<<10))
		if h1-h0 > limit && h2-h1 > limit {
			h3 := round()
			if h3-h2 > limit {
				c.Violate([]string{"C28"}, "%s, repeated %d times and again, retain %d, %d and %d bytes of memory", x.kind, n, h1-h0, h2-h1, h3-h2)
			}
		}
		if s2-s1 > 256 && s1-s0 > 256 {
			c.Violate([]string{"C28"}, "%s, repeated %d times and again, make the file grow from %d to %d and %d bytes", x.kind, n, s0, s1, s2)
		}
		l.check("repeated "+x.kind, nil, filepath.Join(c.Dir, "repeat-copy.json"), "")
	}
}

func heapNow() int64 {
	var m runtime.MemStats
	best := int64(1) << 62
	for i := 0; i < 3; i++ {
		runtime.GC()
		runtime.ReadMemStats(&m)
		if h := int64(m.HeapAlloc); h < best {
			best = h
		}
	}
	return best
}
