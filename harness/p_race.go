package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	identity "github.com/greenpau/go-identity"
	"github.com/greenpau/go-identity/pkg/qr"
	"github.com/greenpau/go-identity/pkg/requests"
)

// C09. Built with -race: every pair of operation kinds runs concurrently on
// one database (and on separate ones), while results handed out before are
// read, used for verification and compared with what they were.

func init() {
	register(&Prop{ID: "C09", Level: "exploration", Race: true,
		Rule: "race-instrumented build; for every pair of the operation kinds (all database operations, accessors, constructors, generators and the reading or verifying use of returned objects) goroutines run both kinds concurrently on one database, plus mixed workloads of all kinds on one and on several databases; monitors: race detector reports whose stacks touch the library, runtime fatal errors, panics, and equality of every handed-out result with its rendering at the time it was handed out",
		Cases: func(th bool) int {
			n := len(raceKinds) * (len(raceKinds) + 1) / 2
			if th {
				return n*6 + 240
			}
			return n + 40
		}, Run: runC09,
		Assumptions: []string{"the race detector reports only races between accesses that actually executed without ordering"}})
}

// handed is a result a caller holds on to.
type handed struct {
	from string
	obj  interface{}
	text string
}

type raceG struct {
	e    *raceEnv
	r    *rand.Rand
	db   *identity.Database
	held []handed
	n    int
	gid  int
}

type raceEnv struct {
	c      *Ctx
	dir    string
	users  []*mUser
	dbs    []*identity.Database
	tokens []*fido // registered authenticators of users[0]
	keys   []string
	pgp    string
	mu     sync.Mutex
	api    []string
	ids    map[string][]string // kind -> ids of users[0]
	shared []handed            // results handed out before the race
	seq    int64
	bad    atomic.Value
	ops    int64
	reads  int64
}

// render writes a handed-out object down by reading all it exposes.
func render(o interface{}) string {
	var v interface{} = o
	switch b := o.(type) {
	case *identity.PublicKeyBundle:
		v = []interface{}{b.Size(), b.Get()}
	case *identity.APIKeyBundle:
		v = []interface{}{b.Size(), b.Get()}
	case *identity.MfaTokenBundle:
		v = []interface{}{b.Size(), b.Get()}
	case *identity.UserMetadataBundle:
		v = []interface{}{b.Size(), b.Get()}
	}
	t, err := json.Marshal(v)
	if err != nil {
		return "error: " + err.Error()
	}
	return string(t)
}

func (g *raceG) hold(from string, o interface{}) {
	if o == nil || len(g.held) > 60 {
		return
	}
	g.held = append(g.held, handed{from, o, render(o)})
}

// user prefers the user with all kinds of keys and tokens.
func (g *raceG) user() *mUser {
	if g.r.Intn(3) > 0 {
		return g.e.users[0]
	}
	return g.e.users[g.r.Intn(len(g.e.users))]
}

func (g *raceG) id(kind string) string {
	l := g.e.ids[kind]
	if len(l) == 0 {
		return "none"
	}
	return l[g.r.Intn(len(l))]
}

// use reads and verifies with an object handed out earlier.
func (g *raceG) use(h handed) {
	atomic.AddInt64(&g.e.reads, 1)
	if t := render(h.obj); t != h.text {
		g.e.bad.CompareAndSwap(nil, fmt.Sprintf("a result of %s handed out earlier changed: %s", h.from, diffJSON(h.text, t)))
	}
	switch o := h.obj.(type) {
	case *identity.User:
		o.GetChallenges()
		o.GetMailClaim()
		o.GetNameClaim()
		o.GetRolesClaim()
		o.GetFullName()
		o.GetMetadata()
		o.HasRole("x/y")
		o.HasRoles()
		o.HasEmailAddresses()
		o.Valid()
		q := requests.NewRequest()
		o.GetFlags(q)
		for _, r := range o.Roles {
			_ = r.String()
		}
		for _, m := range o.EmailAddresses {
			m.Primary()
			m.ToString()
		}
		if g.r.Intn(4) == 0 {
			o.VerifyPassword("not it, surely")
		}
		if g.r.Intn(4) == 0 && len(g.e.tokens) > 0 {
			f := g.e.tokens[g.r.Intn(len(g.e.tokens))]
			q.WebAuthn.Challenge = "Y2hhbGxlbmdlLW9mLXJhY2U"
			q.WebAuthn.Request = f.assert(q.WebAuthn.Challenge, 5, 9, nil).encode()
			o.VerifyWebAuthnRequest(q)
		}
		for _, t := range o.MfaTokens {
			g.token(t)
		}
	case *identity.MfaTokenBundle:
		for _, t := range o.Get() {
			g.token(t)
		}
	case *identity.APIKeyBundle:
		for _, k := range o.Get() {
			if g.r.Intn(8) == 0 {
				k.Match("no such key")
			}
		}
	case *identity.MfaToken:
		g.token(o)
	case *identity.Name:
		o.GetFullName()
		o.GetNameClaim()
	}
}

func (g *raceG) token(t *identity.MfaToken) {
	if t.Type == "totp" {
		t.ValidateCodeWithTime("123456", time.Unix(1700000000, 0))
		t.ValidateCode("123456")
		return
	}
	for _, f := range g.e.tokens {
		if t.Parameters["u2f_id"] == f.id {
			_, err := t.WebAuthnRequest(f.assert("Y2hhbGxlbmdlLW9mLXJhY2U", 5, uint32(g.n), nil).encode())
			if err != nil {
				g.e.bad.CompareAndSwap(nil, "a genuine assertion was refused by a returned token: "+err.Error())
			}
		}
	}
}

type raceKind struct {
	name string
	f    func(g *raceG)
}

func (g *raceG) rq() (*requests.Request, *mUser) {
	u := g.user()
	return req(u), u
}

var raceKinds = []raceKind{
	{"AddUser", func(g *raceG) {
		q := requests.NewRequest()
		n := g.r.Intn(6)
		q.User.Username, q.User.Email = fmt.Sprintf("race%d", n), fmt.Sprintf("race%d@race.example", n)
		q.User.Password, q.User.FullName, q.User.Roles = "race-password-1", "Race, User", []string{"a/b", "c"}
		g.db.AddUser(q)
	}},
	{"GetUser", func(g *raceG) {
		q, _ := g.rq()
		if g.db.GetUser(q) == nil {
			g.hold("GetUser", q.Response.Payload)
		}
	}},
	{"GetUsers", func(g *raceG) {
		q, _ := g.rq()
		if g.db.GetUsers(q) == nil {
			g.hold("GetUsers", q.Response.Payload)
		}
	}},
	{"DeleteUser", func(g *raceG) {
		q, _ := g.rq()
		g.db.DeleteUser(q)
	}},
	{"AuthenticateUser", func(g *raceG) {
		u := g.user()
		q := requests.NewRequest()
		q.User.Username, q.User.Password = u.username, pick(g.r, u.pw, "changed-password-1", "wrong password")
		if g.r.Intn(5) == 0 {
			q.User.Username = "unknown-user"
		}
		g.db.AuthenticateUser(q)
	}},
	{"AuthenticateUser/WebAuthn", func(g *raceG) {
		u := g.e.users[0]
		f := g.e.tokens[g.r.Intn(len(g.e.tokens))]
		q := requests.NewRequest()
		q.User.Username = u.username
		q.WebAuthn.Challenge = "Y2hhbGxlbmdlLW9mLXJhY2U"
		q.WebAuthn.Request = f.assert(q.WebAuthn.Challenge, 5, 7, nil).encode()
		g.db.AuthenticateUser(q)
	}},
	{"IdentifyUser", func(g *raceG) {
		q := requests.NewRequest()
		q.User.Username = pick(g.r, g.user().username, g.user().email, "nobody-here")
		q.Flags.Enabled = g.r.Intn(2) == 0
		if g.db.IdentifyUser(q) == nil {
			g.hold("IdentifyUser", &q.User)
		}
	}},
	{"ChangeUserPassword", func(g *raceG) {
		q, u := g.rq()
		q.User.OldPassword, q.User.Password = u.pw, pick(g.r, u.pw, "changed-password-1", "changed-password-1")
		if g.db.ChangeUserPassword(q) != nil {
			q = req(u)
			q.User.OldPassword, q.User.Password = "changed-password-1", u.pw
			g.db.ChangeUserPassword(q)
		}
	}},
	{"AddPublicKey", func(g *raceG) {
		q, _ := g.rq()
		q.Key.Usage, q.Key.Payload, q.Key.Comment = "ssh", g.e.keys[g.r.Intn(len(g.e.keys))], "race"
		if g.r.Intn(4) == 0 {
			q.Key.Usage, q.Key.Payload = "gpg", g.e.pgp
		}
		g.db.AddPublicKey(q)
	}},
	{"GetPublicKeys", func(g *raceG) {
		q, _ := g.rq()
		q.Key.Usage = pick(g.r, "ssh", "ssh", "gpg")
		if g.db.GetPublicKeys(q) == nil {
			g.hold("GetPublicKeys", q.Response.Payload)
		}
	}},
	{"DeletePublicKey", func(g *raceG) {
		q := req(g.e.users[0])
		q.Key.ID = g.id("pub")
		g.db.DeletePublicKey(q)
	}},
	{"AddAPIKey", func(g *raceG) {
		q, _ := g.rq()
		q.Key.Usage, q.Key.Comment = "api", fmt.Sprintf("race %d", atomic.AddInt64(&g.e.seq, 1))
		if g.db.AddAPIKey(q) == nil {
			g.e.mu.Lock()
			g.e.api = append(g.e.api, q.Response.Payload.(string))
			g.e.mu.Unlock()
		}
	}},
	{"GetAPIKeys", func(g *raceG) {
		q, _ := g.rq()
		q.Key.Usage = "api"
		if g.db.GetAPIKeys(q) == nil {
			g.hold("GetAPIKeys", q.Response.Payload)
		}
	}},
	{"DeleteAPIKey", func(g *raceG) {
		q := req(g.e.users[0])
		q.Key.ID = g.id("api")
		g.db.DeleteAPIKey(q)
	}},
	{"LookupAPIKey", func(g *raceG) {
		q := requests.NewRequest()
		g.e.mu.Lock()
		q.Key.Payload = g.e.api[g.r.Intn(len(g.e.api))]
		g.e.mu.Unlock()
		g.db.LookupAPIKey(q)
	}},
	{"AddMfaToken/totp", func(g *raceG) {
		q, _ := g.rq()
		sec := fmt.Sprintf("race-secret-%d", g.r.Intn(20))
		q.MfaToken.Type, q.MfaToken.Secret, q.MfaToken.Comment = "totp", sec, "race "+sec
		q.MfaToken.Algorithm, q.MfaToken.Period, q.MfaToken.Digits = "sha1", 60, 6
		q.MfaToken.Passcode = passFor(sec)
		g.db.AddMfaToken(q)
	}},
	{"AddMfaToken/u2f", func(g *raceG) {
		q, _ := g.rq()
		f := newFido(g.r)
		q.MfaToken.Type, q.MfaToken.Comment = "u2f", fmt.Sprintf("race u2f %d", atomic.AddInt64(&g.e.seq, 1))
		q.WebAuthn.Challenge, q.WebAuthn.Register = genChallenge(g.r), b64json(f.register())
		g.db.AddMfaToken(q)
	}},
	{"GetMfaTokens", func(g *raceG) {
		q, _ := g.rq()
		if g.db.GetMfaTokens(q) == nil {
			g.hold("GetMfaTokens", q.Response.Payload)
		}
	}},
	{"DeleteMfaToken", func(g *raceG) {
		q := req(g.e.users[0])
		q.MfaToken.ID = g.id("mfa")
		g.db.DeleteMfaToken(q)
	}},
	{"Save", func(g *raceG) { g.db.Save() }},
	{"Copy", func(g *raceG) { g.db.Copy(filepath.Join(g.e.dir, fmt.Sprintf("copy%d.json", g.gid))) }},
	{"accessors", func(g *raceG) {
		g.db.GetPath()
		g.db.GetUserCount()
		g.db.GetPasswordPolicyRegex()
		g.db.GetPasswordPolicySummary()
		g.db.GetUsernamePolicyRegex()
		g.db.GetUsernamePolicySummary()
	}},
	{"NewDatabase", func(g *raceG) {
		p := filepath.Join(g.e.dir, fmt.Sprintf("own%d-%d.json", g.gid, g.n%3))
		if db, err := openDB(p); err == nil {
			db.GetUserCount()
		}
	}},
	{"constructors", func(g *raceG) {
		q := requests.NewRequest()
		q.Key.Usage, q.Key.Payload = "ssh", g.e.keys[g.r.Intn(len(g.e.keys))]
		if k, err := identity.NewPublicKey(q); err == nil {
			g.hold("NewPublicKey", k)
		}
		q = requests.NewRequest()
		q.Key.Usage, q.Key.Comment = "api", "x"
		identity.NewAPIKey(q)
		q = requests.NewRequest()
		q.MfaToken.Type, q.MfaToken.Secret, q.MfaToken.Comment = "totp", "constructor-secret", "c"
		q.MfaToken.Algorithm, q.MfaToken.Period, q.MfaToken.Digits = "sha256", 60, 6
		q.MfaToken.Passcode = refTOTP([]byte("constructor-secret"), "sha256", 6, stepOf(time.Now(), 60))
		if t, err := identity.NewMfaToken(q); err == nil {
			g.hold("NewMfaToken", t)
		}
		if n, err := identity.ParseName("Smith, John"); err == nil {
			g.hold("ParseName", n)
		}
		if u, err := identity.NewUserWithRoles("constructed", "constructed-pw", "c@race.example", "Con, Structed", []string{"a/b"}); err == nil {
			g.hold("NewUserWithRoles", u)
		}
		identity.NewRole("a/b")
		identity.NewEmailAddress("a@b.example")
		cc := identity.NewCreditCard()
		cc.AddAssociation("visa")
		cc.AddIssuer("citibank")
		identity.NewRegistration(identity.NewUser("x"))
	}},
	{"generators", func(g *raceG) {
		for i := 0; i < 20; i++ {
			identity.NewID()
			identity.GetRandomString(20)
			identity.GetRandomStringFromRange(10, 20)
			identity.NewRandomString(16)
		}
	}},
	{"qr", func(g *raceG) {
		c := qr.NewCode()
		c.Secret, c.Type, c.Label, c.Issuer = "secret-of-race", "totp", "label", "issuer"
		c.Algorithm, c.Digits, c.Period = "sha1", 6, 30
		if c.Build() == nil {
			_ = c.Get()
			_ = c.GetEncoded()
		}
	}},
	{"use of results", func(g *raceG) {
		for i := 0; i < 3 && len(g.e.shared) > 0; i++ {
			g.use(g.e.shared[g.r.Intn(len(g.e.shared))])
		}
	}},
}

func runC09(c *Ctx) {
	r := c.R
	n := len(raceKinds)
	pairs := n * (n + 1) / 2
	w := newWorld(c, worldOpts{checkEvery: 1000})
	w.seedUsers(2)
	e := &raceEnv{c: c, dir: c.Dir, users: w.users, ids: map[string][]string{}}
	for i := 0; i < 3; i++ {
		e.keys = append(e.keys, genRSA(r, 1024).openssh(""))
	}
	pg := loadPGP(c)
	e.pgp = pg[r.Intn(len(pg))].armor
	u := w.users[0]
	for i := 0; i < 3; i++ {
		m := w.genKey()
		for m.usage != "ssh" {
			m = w.genKey()
		}
		w.addPublicKey(req(u), u, m, "ssh", "", "x", false)
		q := apiReq(u)
		q.Key.Comment = fmt.Sprintf("start %d", i)
		w.addAPIKey(q, u, "")
		x := req(u)
		x.MfaToken.Type, x.MfaToken.Secret, x.MfaToken.Comment = "totp", genSecret(r), fmt.Sprintf("start %d", i)
		x.MfaToken.Algorithm, x.MfaToken.Period, x.MfaToken.Digits = "sha1", 30, 6
		w.addTOTP(x, u, mTok{typ: "totp", secret: x.MfaToken.Secret, comment: x.MfaToken.Comment, algo: "sha1", period: 30, digits: 6}, "", 0)
		if i < 2 {
			f := newFido(r)
			t := mTok{typ: "u2f", comment: fmt.Sprintf("start u2f %d", i), fido: f, secret: genChallenge(r)}
			if w.addU2F(req(u), u, t, b64json(f.register()), "") == nil {
				e.tokens = append(e.tokens, f)
			}
		}
	}
	w.changePassword(req(u), u, u.pw, "changed-password-0")
	for _, k := range u.keys {
		e.ids["pub"] = append(e.ids["pub"], k.id)
	}
	for _, k := range u.api {
		e.ids["api"] = append(e.ids["api"], k.id)
		e.api = append(e.api, k.plain)
	}
	for _, k := range u.mfa {
		if k.typ == "totp" {
			e.ids["mfa"] = append(e.ids["mfa"], k.id)
		}
	}
	if r.Intn(3) > 0 {
		w.opReopen()
	}
	e.dbs = []*identity.Database{w.db}
	// results handed out before
	g0 := &raceG{e: e, r: r, db: w.db}
	for _, k := range raceKinds {
		switch k.name {
		case "GetUser", "GetUsers", "GetPublicKeys", "GetAPIKeys", "GetMfaTokens", "IdentifyUser":
			for i := 0; i < 3; i++ {
				k.f(g0)
			}
		}
	}
	e.shared = g0.held

	runtime.GOMAXPROCS([]int{4, 4, 2, 8}[r.Intn(4)])
	defer runtime.GOMAXPROCS(4)
	cs := c.Case
	var plan [][]int
	iters := 9
	if c.Thorough {
		iters = 14
	}
	what := ""
	if cs%(pairs+40) < pairs {
		i, j := 0, cs%(pairs+40)
		for j >= n-i {
			j -= n - i
			i++
		}
		j += i
		what = raceKinds[i].name + " | " + raceKinds[j].name
		plan = [][]int{{i}, {j}, {i}, {j}}
		if i == j {
			plan = plan[:3]
		}
	} else {
		// everything at once, on one or several databases
		if r.Intn(2) == 0 {
			for k := 0; k < 2; k++ {
				p := filepath.Join(c.Dir, fmt.Sprintf("second%d.json", k))
				b, _ := os.ReadFile(w.path)
				os.WriteFile(p, b, 0600)
				db, err := openDB(p)
				if err != nil {
					c.Violate([]string{"C05"}, "copy of the file does not open: %v", err)
				}
				e.dbs = append(e.dbs, db)
			}
		}
		what = fmt.Sprintf("mixed on %d databases", len(e.dbs))
		iters = 18
		for k := 0; k < 5; k++ {
			var l []int
			for x := range raceKinds {
				l = append(l, x)
			}
			plan = append(plan, l)
		}
	}
	c.Log("%s", what)
	var wg sync.WaitGroup
	gs := make([]*raceG, len(plan))
	panics := make([]string, len(plan))
	var ready int32
	for k := range plan {
		gs[k] = &raceG{e: e, r: rand.New(rand.NewSource(r.Int63())), db: e.dbs[k%len(e.dbs)], gid: k}
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			defer func() {
				if x := recover(); x != nil {
					panics[k] = fmt.Sprint(x)
				}
			}()
			g := gs[k]
			atomic.AddInt32(&ready, 1)
			for atomic.LoadInt32(&ready) < int32(len(plan)) {
				runtime.Gosched()
			}
			for i := 0; i < iters; i++ {
				g.n = i
				kind := raceKinds[plan[k][g.r.Intn(len(plan[k]))]]
				kind.f(g)
				atomic.AddInt64(&e.ops, 1)
				if len(g.held) > 0 && g.r.Intn(3) == 0 {
					g.use(g.held[g.r.Intn(len(g.held))])
				}
			}
		}(k)
	}
	wg.Wait()
	for _, p := range panics {
		if p != "" {
			c.Violate([]string{"C09", "C16"}, "%s: a concurrent call panicked: %s", what, p)
		}
	}
	// one more operation of every kind on the same database, then everything
	// handed out must be what it was
	for _, k := range raceKinds {
		k.f(g0)
	}
	all := append([]handed(nil), g0.held...)
	for _, g := range gs {
		all = append(all, g.held...)
	}
	kinds := map[string]int{}
	for _, h := range all {
		kinds[h.from]++
		if t := render(h.obj); t != h.text {
			c.Violate([]string{"C09"}, "%s: a result of %s handed out earlier changed: %s", what, h.from, diffJSON(h.text, t))
		}
	}
	if b := e.bad.Load(); b != nil {
		c.Violate([]string{"C09"}, "%s: %s", what, b)
	}
	c.EventN("results_held", int64(len(all)))
	var ks []string
	for k := range kinds {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		c.EventN("held:"+k, int64(kinds[k]))
	}
	c.EventN("concurrent_operations", e.ops)
	c.EventN("concurrent_uses_of_results", e.reads)
	c.Event("workloads")
	c.Eval(what)
	c.Sample("%s: %d goroutines x %d calls, %d results held", what, len(plan), iters, len(all))
}
