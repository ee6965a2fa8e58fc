package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"

	identity "github.com/greenpau/go-identity"
	liberr "github.com/greenpau/go-identity/pkg/errors"
	"github.com/greenpau/go-identity/pkg/requests"
	"unicode/utf8"
)

func n2(q, t int) func(bool) int {
	return func(th bool) int {
		if th {
			return t
		}
		return q
	}
}

// zero returns the base weights with all but the named operations removed.
func profile(m map[string]int) map[string]int { return m }

func keepPolicy(k int) *identity.Policy {
	p := effPolicy(identity.Policy{})
	p.Password.KeepVersions = k
	return &p
}

// genPolicy gives a consistent policy with some limits absent.
func genPolicy(c *Ctx) *identity.Policy {
	r := c.R
	p := identity.Policy{}
	if r.Intn(4) > 0 {
		p.Password.MinLength = 1 + r.Intn(20)
	}
	if r.Intn(4) > 0 {
		p.Password.MaxLength = maxi(p.Password.MinLength, 8) + []int{0, 1, 5, 30, 72, 150, 300}[r.Intn(7)]
	}
	if r.Intn(3) > 0 {
		p.Password.KeepVersions = 1 + r.Intn(12)
	}
	if r.Intn(4) > 0 {
		p.User.MinLength = 1 + r.Intn(12)
	}
	if r.Intn(4) > 0 {
		p.User.MaxLength = maxi(p.User.MinLength, 3) + []int{0, 1, 5, 30, 100, 200}[r.Intn(6)]
	}
	for _, f := range []*bool{&p.Password.RequireUppercase, &p.Password.RequireLowercase, &p.Password.RequireNumber, &p.Password.RequireNonAlphaNumeric, &p.Password.BlockReuse, &p.Password.BlockPasswordChange, &p.User.AllowNonAlphaNumeric, &p.User.AllowUppercase} {
		*f = r.Intn(3) == 0
	}
	// the enforcement flags are advertised only; reuse and change are never
	// blocked by the operations (see DESIGN.md), so leave those two off.
	p.Password.BlockReuse, p.Password.BlockPasswordChange = false, false
	return &p
}

// seedUsers adds n valid users with distinct names and addresses.
func (w *World) seedUsers(n int) {
	for tries := 0; len(w.users) < n && tries < 40; tries++ {
		a := w.genAddUser()
		if w.byName(a.uname) != nil || w.byMail(a.mail) != nil {
			a.uname = "u" + randFrom(w.c.R, alnum, maxi(w.policy.User.MinLength, 6))
			a.mail = randFrom(w.c.R, alnum, 8) + "@seed.example"
			if len(a.uname) > w.policy.User.MaxLength {
				a.uname = a.uname[:w.policy.User.MaxLength]
			}
		}
		w.addUser(a)
	}
}

// reordered: a file that lists the passwords of its users in another order.
// The active one signs in, the disabled ones do not, before and after a change.
func (w *World) reordered() {
	c, r := w.c, w.c.R
	w.opReopen()
	d := json.NewDecoder(bytes.NewReader(w.file))
	d.UseNumber()
	var doc map[string]interface{}
	if err := d.Decode(&doc); err != nil {
		c.Violate([]string{"C05", "C06"}, "database file: %v", err)
	}
	list, _ := doc["users"].([]interface{})
	for i := range list {
		if l, _ := list[i].(map[string]interface{})["passwords"].([]interface{}); len(l) > 1 {
			// the active one is the first
			j := pick2(r, len(l)-1, 1+r.Intn(len(l)-1))
			l[0], l[j] = l[j], l[0]
		}
	}
	b, _ := json.Marshal(doc)
	path := filepath.Join(c.Dir, "reordered.json")
	if err := os.WriteFile(path, b, 0600); err != nil {
		c.Harness("%v", err)
	}
	defer os.Remove(path)
	var db *identity.Database
	if err := c.Call("NewDatabase", func() error {
		var e error
		db, e = identity.NewDatabase(path)
		return e
	}); err != nil {
		return // what such a file is worth is left open
	}
	for _, u := range w.users {
		if strings.Contains(u.username, "@") {
			continue
		}
		cur := u.pw
		for round := 0; round < 2; round++ {
			for _, pw := range append([]string{u.pw, cur}, u.former...) {
				want := bcryptKey(pw) == bcryptKey(cur)
				q := requests.NewRequest()
				q.User.Username, q.User.Password = u.username, pw
				if err := c.Call("AuthenticateUser", func() error { return db.AuthenticateUser(q) }); (err == nil) != want {
					c.Violate([]string{"C01", "C02"}, "%q signs in with %q: %v, though the only active password, listed after disabled ones, is %q", u.username, pw, err, cur)
				}
				c.Event("reordered_sign_ins")
			}
			if round == 1 {
				break
			}
			q := req(u)
			q.User.OldPassword, q.User.Password = cur, genPassword(r, w.policy.Password.MinLength, w.policy.Password.MaxLength)
			if err := c.Call("ChangeUserPassword", func() error { return db.ChangeUserPassword(q) }); err == nil {
				cur = q.User.Password
			} else {
				c.Violate([]string{"C01", "C02"}, "the password of %q, listed after disabled ones, cannot be changed: %v", u.username, err)
			}
		}
		c.Eval(fmt.Sprintf("reordered/%d/%d", len(u.former), len(w.users)))
	}
}

// lockedOut: a user of a file all of whose passwords are disabled or expired
// does not sign in, and is a user all the same. It ends the history.
func (w *World) lockedOut() {
	c, r := w.c, w.c.R
	if len(w.users) == 0 {
		return
	}
	w.opReopen()
	d := json.NewDecoder(bytes.NewReader(w.file))
	d.UseNumber()
	var doc map[string]interface{}
	if err := d.Decode(&doc); err != nil {
		c.Violate([]string{"C05", "C06"}, "database file: %v", err)
	}
	list, _ := doc["users"].([]interface{})
	i := r.Intn(len(w.users))
	u := w.users[i]
	l, _ := list[i].(map[string]interface{})["passwords"].([]interface{})
	how := pick(r, "disabled", "expired", "both")
	for _, e := range l {
		o := e.(map[string]interface{})
		delete(o, "disabled")
		delete(o, "expired")
		if how != "expired" {
			o["disabled"] = true
		}
		if how != "disabled" {
			o["expired"] = true
		}
	}
	b, _ := json.Marshal(doc)
	path := filepath.Join(c.Dir, "locked-out.json")
	if err := os.WriteFile(path, b, 0600); err != nil {
		c.Harness("%v", err)
	}
	defer os.Remove(path)
	var db *identity.Database
	if err := c.Call("NewDatabase", func() error {
		var e error
		db, e = identity.NewDatabase(path)
		return e
	}); err != nil {
		return // what such a file is worth is left open
	}
	c.Log("all %d passwords of %q marked %s", len(l), u.username, how)
	signIn := func(ident, pw string) error {
		q := requests.NewRequest()
		q.User.Username, q.User.Password = ident, pw
		return c.Call("AuthenticateUser", func() error { return db.AuthenticateUser(q) })
	}
	battery := func(when string) {
		for _, pw := range append([]string{u.pw}, u.former...) {
			for _, ident := range []string{u.username, caseVariant(r, u.email)} {
				if signIn(ident, pw) == nil {
					c.Violate([]string{"C01", "C02"}, "%s, %q signs in with %q though all passwords are marked %s", when, ident, pw, how)
				}
				c.Event("locked_out_sign_ins")
			}
		}
		for _, v := range w.users {
			if v == u || strings.Contains(v.username, "@") {
				continue
			}
			if err := signIn(v.username, v.pw); err != nil {
				c.Violate([]string{"C01", "C02"}, "%s, with passwords of %q marked %s, %q cannot sign in: %v", when, u.username, how, v.username, err)
			}
		}
	}
	battery("after opening")
	q := req(u)
	q.User.OldPassword, q.User.Password = u.pw, genPassword(r, w.policy.Password.MinLength, w.policy.Password.MaxLength)
	if c.Call("ChangeUserPassword", func() error { return db.ChangeUserPassword(q) }) == nil {
		c.Violate([]string{"C01", "C02"}, "a password of %q was changed with one marked %s", u.username, how)
	}
	n := db.GetUserCount()
	for k := 0; k < 4; k++ {
		a := w.genAddUser()
		a.uname, a.name = "z"+randFrom(r, alnum, maxi(7, w.policy.User.MinLength)), ""
		if len(a.uname) > w.policy.User.MaxLength {
			break
		}
		a.mail = a.uname + "@locked.example"
		want := k < 3
		switch k {
		case 0:
			a.uname = caseVariant(r, u.username)
		case 1:
			a.mail = caseVariant(r, u.email)
		case 2:
			a.uname, a.mail = u.username, u.email
		}
		a.pw = genPassword(r, w.policy.Password.MinLength, w.policy.Password.MaxLength)
		q := requests.NewRequest()
		q.User.Username, q.User.Email, q.User.Password = a.uname, a.mail, a.pw
		err := c.Call("AddUser", func() error { return db.AddUser(q) })
		if want && err == nil {
			c.Violate([]string{"C03"}, "%q, %q was added next to %q, %q, whose passwords are marked %s", a.uname, a.mail, u.username, u.email, how)
		}
		if m := db.GetUserCount(); (err == nil) != (m == n+1) || err != nil && m != n {
			c.Violate([]string{"C03", "C07"}, "%d users after AddUser gave %v, %d before", m, err, n)
		}
		c.Eval(fmt.Sprintf("locked/%s/%d/%d", how, k, len(l)))
	}
	for _, ident := range []string{caseVariant(r, u.username), caseVariant(r, u.email)} {
		q := requests.NewRequest()
		q.User.Username = ident
		if strings.Contains(u.username, "@") && ident != u.email {
			continue
		}
		if err := c.Call("IdentifyUser", func() error { return db.IdentifyUser(q) }); err != nil || q.User.Username != u.username || q.User.Email != u.email {
			c.Violate([]string{"C03", "C24"}, "%q is identified as %q, %q (%v), expected %q, %q", ident, q.User.Username, q.User.Email, err, u.username, u.email)
		}
	}
	battery("after additions")
	c.Event("locked_out_users")
}

// authBattery judges every identifier with every password variant.
func (w *World) authBattery(full bool) {
	c, r := w.c, w.c.R
	for _, u := range append([]*mUser(nil), w.users...) {
		idents := []string{u.username, u.email, caseVariant(r, u.username), caseVariant(r, u.email), strings.ToUpper(u.email)}
		idents = append(idents, u.alts...)
		for i, id := range idents {
			w.expectAuth(id, u.pw)
			if !full && i > 1 {
				continue
			}
			vs := pwVariants(r, u.pw)
			vs = append(vs, u.former...)
			for _, v := range w.users {
				vs = append(vs, v.pw, v.username, v.email)
			}
			for j, p := range vs {
				if full || (j+i)%3 == 0 {
					w.expectAuth(id, p)
				}
			}
		}
		for _, id := range []string{"", " ", u.username + " ", " " + u.username, u.username + "\x00", u.email + " ", " " + u.email, u.email + ".", "x" + u.email, u.email + "@", "@" + u.username, u.username + "@", u.username + "@" + u.username, u.id, genEmail(r), genUsername(r, 3, 12), "*", "%"} {
			w.expectAuth(id, u.pw)
		}
		ns := append(nearNames(r, u.username, u.email, u.id), nearMails(r, u.email)...)
		for _, id := range ns {
			if r.Intn(4) == 0 || full && r.Intn(2) == 0 {
				w.expectAuth(id, u.pw)
			}
		}
		c.Event("auth_batteries")
	}
}

// many runs histories with more of one thing than usual.
func (c *Ctx) many(o worldOpts, what string) {
	o.faultProb, o.checkEvery = 0, 40
	w := newWorld(c, o)
	w.maxUsers = 3
	w.seedUsers(2)
	w.steps(6)
	u := w.pickUser()
	n := 35 + c.R.Intn(40)
	switch what {
	case "users":
		n *= 2
		w.maxUsers = n + 10
		for i := 0; i < n; i++ {
			a := w.genAddUser()
			a.uname, a.mail = fmt.Sprintf("%s%d", pick(c.R, "u", "user", "U.", "é"), i), fmt.Sprintf("%s%d@example.com", pick(c.R, "m", "mail", "M."), c.R.Intn(4*n))
			w.addUser(a)
		}
	case "api":
		for i := 0; i < n; i++ {
			w.addAPIKey(apiReq(u), u, "")
		}
		w.lookupAll()
	case "keys":
		for i := 0; i < n; i++ {
			m := w.genKey()
			w.addPublicKey(req(u), u, m, m.usage, "", fmt.Sprint("key ", i), i%7 == 0)
		}
	case "tokens":
		for i := 0; i < n; i++ {
			q := req(u)
			q.MfaToken.Type, q.MfaToken.Secret, q.MfaToken.Comment = "totp", genSecret(c.R), fmt.Sprintf("token %d", i)
			q.MfaToken.Algorithm, q.MfaToken.Period, q.MfaToken.Digits = "sha1", 30, 6
			w.addTOTP(q, u, mTok{typ: "totp", secret: q.MfaToken.Secret, comment: q.MfaToken.Comment, algo: "sha1", period: 30, digits: 6}, "", 0)
		}
	case "passwords":
		for i := 0; i < n; i++ {
			w.changePassword(req(u), u, u.pw, genPassword(c.R, 8, 40))
		}
		for i, f := range u.former {
			if i%5 == 0 {
				w.expectAuth(u.username, f)
			}
		}
	}
	w.steps(8)
	w.opReopen()
	switch what {
	case "users":
		for _, v := range w.users {
			w.expectAuth(v.email, v.pw)
			w.expectIdentify(v.username, false)
		}
	case "api":
		for i := 0; i < n/2; i++ {
			w.opDeleteAPIKey()
		}
		w.lookupAll()
	case "keys":
		for i := 0; i < n/2; i++ {
			w.opDeletePublicKey()
		}
		w.opGetPublicKeys()
	case "tokens":
		for i := 0; i < n/2; i++ {
			w.opDeleteMfa()
		}
		w.expectIdentify(u.username, true)
		w.opGetMfa()
	case "passwords":
		w.expectAuth(u.username, u.pw)
		w.changePassword(req(u), u, u.pw, genPassword(c.R, 8, 40))
	}
	w.finish()
	c.Event("histories with many " + what)
}

func init() {
	register(&Prop{ID: "C01", Level: "exploration", Rule: "distinct (operation, outcome, situation) triples and history signatures of sign-in batteries: every identifier form x password variant of every user, judged by the model", Cases: n2(64, 1500), Run: func(c *Ctx) {
		o := worldOpts{weights: profile(map[string]int{"graft": 1, "adduser": 8, "adduserbad": 1, "chpw": 10, "auth": 8, "reopen": 2, "save": 1, "addapi": 1, "addtotp": 1})}
		switch c.Case % 4 {
		case 1:
			o.policy = genPolicy(c)
		case 2:
			p := effPolicy(identity.Policy{})
			p.Password.MinLength, p.Password.MaxLength = 1, 300
			o.policy = &p
		case 3:
			if c.Case%8 == 7 {
				o.policy = keepPolicy(9 + c.R.Intn(30))
			}
		}
		w := newWorld(c, o)
		w.maxUsers = 4
		w.seedUsers(2)
		w.history(14)
		if c.Case%8 == 7 {
			// a user with many former passwords
			u := w.pickUser()
			for n := 5 + c.R.Intn(10); n > 0; n-- {
				w.changePassword(req(u), u, u.pw, genPassword(c.R, w.policy.Password.MinLength, w.policy.Password.MaxLength))
			}
		}
		if c.Case%4 == 1 {
			w.aged()
		}
		if c.Case%4 == 2 {
			w.described()
		}
		w.authBattery(c.Thorough || c.Case%4 == 0)
		if c.Case%2 == 0 {
			w.history(8)
			w.authBattery(false)
		}
		if c.Case%8 == 0 {
			// listed findings
			p := w.policy
			if p.Password.MaxLength >= 100 && p.Password.MinLength <= 100 && p.User.MaxLength >= 12 && p.User.MinLength <= 12 {
				pw := randFrom(c.R, alnum, 100)
				if u, err := w.addUser(addUserArgs{uname: "longpass" + randFrom(c.R, alnum, 4), mail: "longpass@kf.example", pw: pw}); err == nil {
					w.expectAuth(u.username, pw)
					w.expectAuth(u.username, pw[:72])
					w.expectAuth(u.username, pw[:72]+"-other-tail")
					w.expectAuth(u.username, pw[:71])
					w.expectAuth(u.username, pw[:71]+"!"+pw[72:])
				}
				pw = randFrom(c.R, alnum, 20)
				if u, err := w.addUser(addUserArgs{uname: "at@" + randFrom(c.R, alnum, 9), mail: "atsign@kf.example", pw: pw}); err == nil {
					w.expectAuth(u.username, pw)
					w.expectAuth(u.email, pw)
				}
			}
		}
		w.reordered()
		w.lockedOut()
	}})

	register(&Prop{ID: "C02", Level: "exploration", Rule: "distinct history signatures of rotation chains over policies keeping 1..12 versions, judged after every change by the stored list and by sign-ins with every former password", Cases: n2(300, 2500), Run: func(c *Ctx) {
		k := 1 + c.Case%12
		o := worldOpts{policy: keepPolicy(k), weights: profile(map[string]int{"chpw": 14, "auth": 3, "reopen": 1, "adduser": 2, "save": 1, "addapi": 1, "copy": 1}), mismatch: 0.1}
		if c.Case%5 == 4 {
			o.faultProb = 0.2
		}
		if c.Case%13 == 12 {
			o.policy = nil
		}
		if c.Case%50 == 40 {
			o.policy = keepPolicy([]int{9, 15, 16, 17, 40, 70}[c.R.Intn(6)])
			c.many(o, "passwords")
			return
		}
		w := newWorld(c, o)
		w.maxUsers = 3
		w.seedUsers(2)
		for i := 0; i < 3; i++ {
			if i > 0 && c.Case%3 == 1 {
				// another policy, with chains longer or shorter than it keeps
				w.graft(3)
				w.graft(11)
				w.tightened()
				for n := 1 + c.R.Intn(3); n > 0; n-- {
					for _, u := range append([]*mUser(nil), w.users...) {
						w.changePassword(req(u), u, u.pw, genPassword(c.R, w.policy.Password.MinLength, w.policy.Password.MaxLength))
					}
				}
			}
			w.history(10 + c.R.Intn(6))
			for _, u := range append([]*mUser(nil), w.users...) {
				w.expectAuth(u.username, u.pw)
				for _, f := range u.former {
					w.expectAuth(u.email, f)
				}
			}
		}
		// a change takes effect only with a matching identity
		for i, u := range append([]*mUser(nil), w.users...) {
			for j, v := range w.users {
				q := requests.NewRequest()
				q.User.Username, q.User.Email = u.username, v.email
				if i == j {
					continue
				}
				w.changePassword(q, nil, u.pw, genPassword(c.R, 8, 20))
				q = requests.NewRequest()
				q.User.Username, q.User.Email = u.username, v.email
				w.changePassword(q, nil, v.pw, genPassword(c.R, 8, 20))
				q = requests.NewRequest()
				q.User.Username, q.User.Email = u.username, u.email
				if v.pw != u.pw {
					w.changePassword(q, u, v.pw, genPassword(c.R, 8, 20))
				}
			}
		}
		w.finish()
		if c.Case%2 == 0 {
			w.reordered()
		}
		if c.Case%4 == 2 {
			w.lockedOut()
		}
	}})

	register(&Prop{ID: "C03", Level: "exploration", Rule: "distinct history signatures of additions from small name, e-mail and letter-case pools with reopenings; after each, count, listing, lookup by every identifier", Cases: n2(360, 3000), Run: func(c *Ctx) {
		p := effPolicy(identity.Policy{})
		p.User.MinLength = 1
		if c.Case%6 == 1 {
			p.User.MaxLength = 300
		}
		o := worldOpts{policy: &p, weights: profile(map[string]int{"graft": 1, "adduser": 14, "adduserbad": 5, "getusers": 3, "getuser": 3, "identify": 4, "auth": 2, "reopen": 3, "copy": 1, "deluser": 2, "save": 1, "chpw": 1, "addapi": 1}), mismatch: 0.1}
		if c.Case%4 == 3 {
			o.faultProb = 0.25
		}
		if c.Case%90 == 40 {
			c.many(o, "users")
			return
		}
		w := newWorld(c, o)
		w.maxUsers = 9
		if c.Case%6 == 1 || c.Case%6 == 4 {
			w.maxUsers = 14
			w.family()
			w.reachable()
			w.opReopen()
			w.reachable()
			w.steps(6)
			w.family()
			w.reachable()
			w.finish()
			return
		}
		names := []string{"a", "ab", "abc", "abcd", "b", "ba", "жук", "é", "alice", "bob", "al-ice", "a.b"}
		mails := []string{"a@b", "a@b.c", "b@c.d", "x@y.z", "alice@example.com", "bob@example.com", "a@bc", "alice@example.co"}
		for i := 0; i < 14; i++ {
			a := w.genAddUser()
			a.uname, a.mail = caseVariant(c.R, names[c.R.Intn(len(names))]), caseVariant(c.R, mails[c.R.Intn(len(mails))])
			w.addUser(a)
			if c.R.Intn(4) == 0 {
				w.opReopen()
			}
			w.reachable()
		}
		if c.Case%6 == 2 && o.faultProb == 0 {
			w.described()
			w.reachable()
		}
		w.history(16)
		w.reachable()
		w.opReopen()
		w.reachable()
		// a removed or refused name stays free for its next owner
		for i := 0; i < 4; i++ {
			a := w.genAddUser()
			a.uname, a.mail = randFrom(c.R, alnum, 1+c.R.Intn(4)), randFrom(c.R, alnum, 1)+"@"+randFrom(c.R, alnum, 1)
			if u, err := w.addUser(a); err == nil {
				w.expectAuth(u.email, u.pw)
			}
		}
		w.reachable()
		w.finish()
		if c.Case%3 == 0 {
			w.lockedOut()
		}
	}})

	register(&Prop{ID: "C04", Level: "exploration", Rule: "distinct (operation, pairing kind, outcome) over all pairings of usernames and e-mail addresses of known and unknown identities x all operations x foreign identifiers", Cases: n2(24, 400), Run: func(c *Ctx) {
		o := worldOpts{weights: mix(map[string]int{"adduserbad": 0, "copy": 0, "reopen": 1, "deluser": 0}), mismatch: 0.05, checkEvery: 25}
		w := newWorld(c, o)
		if c.Case%4 == 1 {
			// a database with a single user
			w.maxUsers = 1
			w.seedUsers(1)
			w.history(6)
			w.pairings()
		}
		w.maxUsers = 4
		w.seedUsers(3 - len(w.users))
		if c.Case%3 == 2 {
			w.described()
		}
		w.history(25)
		w.pairings()
		w.opReopen()
		if c.Case%3 > 0 {
			w.graft(4)
		}
		w.pairings()
		w.finish()
	}})

	register(&Prop{ID: "C05", Level: "exploration", Rule: "distinct history signatures; after every stored operation file, live records and a fresh reopening are compared structurally; copies are opened", Cases: n2(1200, 16000), Run: func(c *Ctx) {
		o := worldOpts{weights: mix(map[string]int{"copy": 6, "reopen": 5, "save": 4}), checkEvery: 3}
		o.pathKind = []string{"", "nested", "relative", "symlink", "bare", "home", "", ""}[c.Case%8]
		if c.Case%4 == 2 {
			o.policy = genPolicy(c)
		}
		if o.pathKind == "" && c.Case%3 == 0 {
			o.faultProb = 0.1
		}
		w := newWorld(c, o)
		if c.Case%150 == 75 {
			// a database of megabytes
			w.maxUsers = 3
			w.seedUsers(2)
			mb := []float64{1.05, 2.1, 4.2, 8.4, 16.8, 33.6}
			w.graftSize = int(mb[c.Case/150%len(mb)]*1e6) + c.R.Intn(200000)
			w.graft(5)
			w.graftSize = 0
			c.Event("databases_of_megabytes")
			w.steps(2)
			w.opCopy()
			w.opReopen()
			w.steps(2)
			w.finish()
			return
		}
		w.history(40)
	}})

	register(&Prop{ID: "C07", Level: "exploration", Rule: "distinct (operation, cause or injected fault, outcome) and history signatures; full frame comparison (records, indexes, revision, file) after every failed operation and continued histories", Cases: n2(700, 8000), Run: func(c *Ctx) {
		o := worldOpts{weights: mix(map[string]int{"adduser": 10, "adduserbad": 6, "save": 4, "copy": 4, "chpw": 12, "addapi": 10, "delapi": 8, "delkey": 7, "delmfa": 7, "lookup": 14}), faultProb: 0.35, mismatch: 0.2}
		if c.Case%6 == 5 {
			o.pathKind = "nested"
		}
		w := newWorld(c, o)
		w.maxUsers = 6
		if c.Case%12 == 7 {
			w.opts.faultProb = 0
			w.seedUsers(2)
			w.opts.faultProb = o.faultProb
			w.rich(2 + c.R.Intn(8))
			w.finish()
			return
		}
		if c.Case%12 == 1 {
			w.opts.faultProb = 0
			w.seedUsers(3)
			w.described()
			w.opts.faultProb = o.faultProb
		}
		w.history(55)
		// everything that failed can be done now
		for i := 0; i < 3; i++ {
			w.opts.faultProb = 1
			a := w.genAddUser()
			if w.byName(a.uname) != nil || w.byMail(a.mail) != nil {
				continue
			}
			_, err := w.addUser(a)
			w.opts.faultProb = 0
			if err != nil {
				w.expectAuth(a.uname, a.pw)
				w.expectAuth(a.mail, a.pw)
				w.addUser(a)
			}
			w.expectAuth(a.mail, a.pw)
		}
		w.finish()
	}})

	register(&Prop{ID: "C10", Level: "exploration", Rule: "distinct history signatures of issuing, disabling, deleting and looking up API keys of several users with restarts; every issued, altered and deleted key is looked up", Cases: n2(250, 3000), Run: func(c *Ctx) {
		o := worldOpts{weights: profile(map[string]int{"graft": 2, "adduser": 2, "addapi": 14, "delapi": 8, "getapi": 6, "lookup": 16, "reopen": 2, "chpw": 1, "addkey": 1, "addtotp": 1, "save": 1, "copy": 1}), mismatch: 0.08}
		if c.Case%4 == 3 {
			o.faultProb = 0.25
		}
		if c.Case%50 == 40 {
			c.many(o, "api")
			return
		}
		w := newWorld(c, o)
		w.maxUsers = 4
		w.seedUsers(3)
		for i := 0; i < 2; i++ {
			w.history(26)
			w.lookupAll()
			if c.Case%3 == 0 {
				w.aged()
				w.lookupAll()
			}
			if c.Case%3 == 1 {
				for k := 1 + c.R.Intn(4); k > 0; k-- {
					w.graft(12)
				}
				w.lookupAll()
				w.steps(8)
			}
			w.opReopen()
			w.lookupAll()
		}
		// listed finding: bytes beyond the 72nd are ignored
		for _, u := range w.users {
			for _, k := range u.api {
				if len(k.plain) > 72 && !k.disabled && !k.expired {
					w.expectLookup(k.plain[:72])
					w.expectLookup(k.plain + "tail")
				}
			}
		}
		w.finish()
	}})

	register(&Prop{ID: "C11", Level: "exploration", Rule: "distinct history signatures of adding, re-adding (other encodings), listing and deleting RSA and OpenPGP keys; every stored form recomputed independently", Cases: n2(300, 3000), Run: func(c *Ctx) {
		o := worldOpts{weights: profile(map[string]int{"graft": 2, "adduser": 1, "addkey": 18, "delkey": 6, "getkeys": 6, "reopen": 2, "chpw": 1, "addapi": 1, "copy": 1}), mismatch: 0.06}
		if c.Case%5 == 4 {
			o.faultProb = 0.2
		}
		if c.Case%50 == 40 {
			c.many(o, "keys")
			return
		}
		w := newWorld(c, o)
		w.maxUsers = 3
		w.seedUsers(2)
		w.history(36)
		if c.Case%4 == 2 {
			w.aged()
			w.history(10)
		}
		w.keyForms()
		w.finish()
	}})

	register(&Prop{ID: "C12", Level: "exploration", Rule: "distinct history signatures of registering (valid, invalid, duplicate), listing, deleting enabled and disabled TOTP and U2F tokens; flags and challenges after each", Cases: n2(480, 5000), Run: func(c *Ctx) {
		o := worldOpts{weights: profile(map[string]int{"graft": 2, "adduser": 1, "addtotp": 18, "addu2f": 7, "delmfa": 7, "getmfa": 7, "identify": 8, "webauthn": 3, "reopen": 2, "chpw": 1, "addapi": 1, "copy": 1}), mismatch: 0.06}
		if c.Case%5 == 4 {
			o.faultProb = 0.2
		}
		if c.Case%50 == 40 {
			c.many(o, "tokens")
			return
		}
		w := newWorld(c, o)
		w.maxUsers = 3
		w.seedUsers(2)
		for i := 0; i < 3; i++ {
			w.history(16)
			if c.Case%6 == i {
				w.aged()
			}
			for _, u := range w.users {
				w.expectIdentify(u.username, true)
				w.expectIdentify(u.email, false)
			}
			// delete all tokens of one user
			if u := w.pickUser(); u != nil && i == 1 {
				w.force = &[2]string{u.username, u.email}
				for j := 0; j < 30 && len(u.mfa) > 0; j++ {
					w.opDeleteMfa()
				}
				w.force = nil
				w.expectIdentify(u.username, true)
			}
		}
		w.tokenLimits()
		w.finish()
	}})

	register(&Prop{ID: "C21", Level: "exploration", Rule: "distinct history signatures; database and user revisions, modification times compared with exact counters after every call, also across failed stores and reopenings", Cases: n2(1200, 14000), Run: func(c *Ctx) {
		o := worldOpts{weights: mix(map[string]int{"save": 5, "copy": 5, "reopen": 4}), mismatch: 0.15, checkEvery: 4}
		if c.Case%2 == 1 {
			o.faultProb = 0.2
		}
		if c.Case%5 == 0 {
			o.policy = genPolicy(c)
		}
		w := newWorld(c, o)
		if c.Case%5 == 2 {
			w.seedUsers(2)
			w.graft(6)
		}
		if c.Case%10 == 3 || c.Case%10 == 4 {
			w.opts.faultProb = 0
			w.seedUsers(2)
			w.described()
			w.opts.faultProb = o.faultProb
		}
		w.history(40)
	}})

	register(&Prop{ID: "C22", Level: "exploration", Rule: "distinct (policy limit, length relative to the bounds, character width, verdict) tuples over random policies; advertised summaries and expressions evaluated by an independent matcher", Cases: n2(450, 3000), Run: runC22})

	register(&Prop{ID: "C24", Level: "exploration", Rule: "distinct (name form, role set, e-mail, identifier) combinations whose reported claims were compared with what was registered, plus parser round trips", Cases: n2(500, 6000), Run: runC24})

	register(&Prop{ID: "C25", Level: "exploration", Rule: "distinct (operation, refusal cause) pairs whose error was matched against the documented kind and text", Cases: n2(700, 8000), Run: runC25})
}

// reachable: every user is counted, listed once and found by all identifiers.
func (w *World) reachable() {
	c, r := w.c, w.c.R
	for _, u := range w.users {
		q := requests.NewRequest()
		q.User.Username, q.User.Email = caseVariant(r, u.username), caseVariant(r, u.email)
		if err := c.Call("GetUsers", func() error { return w.db.GetUsers(q) }); err != nil {
			c.Violate([]string{"C03", "C04"}, "user %q/%q cannot be found as %q/%q: %v", u.username, u.email, q.User.Username, q.User.Email, err)
		}
		w.checkUserList(q.Response.Payload)
		w.expectIdentify(caseVariant(r, u.username), false)
		w.expectIdentify(caseVariant(r, u.email), false)
		for _, a := range u.alts {
			w.expectIdentify(caseVariant(r, a), false)
			q := requests.NewRequest()
			q.User.Username, q.User.Email = u.username, caseVariant(r, a)
			if err := c.Call("GetUser", func() error { return w.db.GetUser(q) }); err != nil {
				c.Violate([]string{"C03", "C04"}, "user %q cannot be found with its address %q: %v", u.username, a, err)
			}
		}
		c.Eval(fmt.Sprintf("reach/%s/%s/%d", q.User.Username, q.User.Email, w.reopens))
	}
	if n := w.db.GetUserCount(); n != len(w.users) {
		c.Violate([]string{"C03"}, "user count is %d, expected %d", n, len(w.users))
	}
	c.Event("reachability_sweeps")
}

// pairings runs every operation with every pairing of identities.
func (w *World) pairings() {
	c, r := w.c, w.c.R
	names := []string{"", "no-such-user", "nobody"}
	mails := []string{"", "nobody@localhost", "no-such@mail.example"}
	for _, u := range w.users {
		names = append(names, u.username, caseVariant(r, u.username))
		mails = append(mails, u.email, caseVariant(r, u.email))
		mails = append(mails, u.alts...)
	}
	for i := 0; i < 4; i++ {
		u := w.pickUser()
		nn, nm := nearNames(r, u.username, u.email, u.id), nearMails(r, u.email)
		names = append(names, nn[r.Intn(len(nn))])
		mails = append(mails, nm[r.Intn(len(nm))])
	}
	names = append(names, w.users[0].email, w.users[0].id)
	mails = append(mails, w.users[0].username)
	ops := []string{"getusers", "getuser", "deluser", "addkey", "delkey", "getkeys", "addapi", "delapi", "getapi", "addtotp", "addu2f", "delmfa", "getmfa", "chpw"}
	for _, n := range names {
		for _, m := range mails {
			u := w.ident(n, m)
			w.force = &[2]string{n, m}
			for _, op := range ops {
				if u != nil && r.Intn(3) > 0 {
					continue
				}
				if u == nil && !c.Thorough && r.Intn(4) == 0 {
					continue
				}
				opTable[op](w)
				c.Event("pairing:" + fmt.Sprint(u != nil))
				c.Eval(fmt.Sprintf("pair/%s/%v/%v/%v", op, w.byName(n) != nil, w.byMail(m) != nil, u != nil))
			}
			w.force = nil
		}
	}
	// foreign identifiers
	for _, u := range w.users {
		for _, v := range w.users {
			if u == v {
				continue
			}
			for _, k := range append([]mAPI(nil), v.api...) {
				q := req(u)
				w.deleteAPIKey(q, u, k.id)
			}
			for _, k := range append([]mKey(nil), v.keys...) {
				w.deletePublicKey(req(u), u, k.id)
			}
			for _, k := range append([]mTok(nil), v.mfa...) {
				w.deleteMfa(req(u), u, k.id)
			}
		}
	}
}

// lookupAll looks up every issued key, its alterations and all deleted keys.
func (w *World) lookupAll() {
	r := w.c.R
	for _, u := range w.users {
		for _, k := range u.api {
			w.expectLookup(k.plain)
			b := []byte(k.plain)
			i := r.Intn(72)
			b[i] ^= 1
			w.expectLookup(string(b))
			w.expectLookup(k.plain[:len(k.plain)-1])
			w.expectLookup(k.plain[:71])
			w.expectLookup(k.plain[:24] + randFrom(r, alnum, []int{48, 72, 73, 104, 105, 150, 231, 232, 233, 1000, 5000}[r.Intn(11)]))
			w.expectLookup(strings.ToLower(k.plain))
			w.expectLookup(k.plain[:24] + randFrom(r, alnum, len(k.plain)-24))
			w.expectLookup(" " + k.plain)
			vs := nearText(r, k.plain)
			for i := 0; i < 6; i++ {
				w.expectLookup(vs[r.Intn(len(vs))])
			}
		}
	}
	for _, d := range w.deleted {
		w.expectLookup(d)
	}
	for _, u := range w.users {
		for _, usage := range []string{"api", "ssh"} {
			w.force = &[2]string{u.username, u.email}
			_ = usage
			w.opGetAPIKeys()
			w.force = nil
		}
	}
}

// keyForms registers one RSA key in both encodings for every user and checks
// duplicates in the other encoding.
func (w *World) keyForms() {
	r := w.c.R
	for _, u := range append([]*mUser(nil), w.users...) {
		for i := 0; i < 3; i++ {
			k := genRSA(r, []int{1024, 1025, 1031, 1032, 2048, 4096, 8192}[r.Intn(7)])
			m := keyMaterial{canon: "rsa:" + k.n.String() + "/" + fmt.Sprint(k.e), usage: "ssh", rsa: k}
			forms := []string{"openssh", "pem"}
			r.Shuffle(2, func(a, b int) { forms[a], forms[b] = forms[b], forms[a] })
			for _, f := range append(forms, forms...) {
				m.form = f
				if f == "pem" {
					m.payload = k.pem()
				} else {
					m.payload = k.openssh(pick(r, "", "a@b", "x y", "h"+randFrom(r, alnum62+" ", r.Intn(3000))+"x"))
				}
				w.addPublicKey(req(u), u, m, "ssh", "", genComment(r), chance(r, 0.2))
			}
			// the same modulus with another exponent is another key
			k2 := &rsaPub{n: k.n, e: k.e ^ 6}
			m2 := keyMaterial{canon: "rsa:" + k2.n.String() + "/" + fmt.Sprint(k2.e), usage: "ssh", rsa: k2, form: forms[0]}
			if m2.form == "pem" {
				m2.payload = k2.pem()
			} else {
				m2.payload = k2.openssh("")
			}
			w.addPublicKey(req(u), u, m2, "ssh", "", "", false)
		}
		for _, k := range loadPGP(w.c) {
			m := keyMaterial{payload: k.armor, canon: "pgp:" + k.fp, usage: "gpg", pgp: k, form: "pgp"}
			if r.Intn(2) == 0 {
				w.addPublicKey(req(u), u, m, "gpg", "", genComment(r), false)
			} else {
				w.addPublicKey(req(u), u, m, "ssh", "usage mismatch", "", false)
			}
		}
		w.force = &[2]string{u.username, u.email}
		for i := 0; i < 4; i++ {
			w.opGetPublicKeys()
		}
		w.force = nil
	}
}

// tokenLimits tries every parameter at and beyond its bounds.
func (w *World) tokenLimits() {
	r := w.c.R
	u := w.pickUser()
	if u == nil {
		return
	}
	n := 0
	for _, algo := range []string{"sha1", "sha256", "sha512", "", "SHA256", "md5", "sha384"} {
		for _, period := range []int{29, 30, 31, 299, 300, 301} {
			for _, digits := range []int{3, 4, 5, 6, 7, 8, 9, 0} {
				if r.Intn(8) != 0 {
					continue
				}
				n++
				t := mTok{typ: "totp", algo: fold(algo), period: period, digits: digits}
				t.secret, t.comment = randFrom(r, alnum, 20), fmt.Sprintf("lim-%d-%d", n, w.seq)
				bad := ""
				switch t.algo {
				case "":
					t.algo = "sha1"
				case "sha1", "sha256", "sha512":
				default:
					bad = "algorithm"
				}
				if digits == 0 {
					t.digits = 6
				}
				if period < 30 || period > 300 {
					bad = "period"
				}
				if t.digits < 4 || t.digits > 8 {
					bad = "digits"
				}
				q := req(u)
				q.MfaToken.Type, q.MfaToken.Comment, q.MfaToken.Secret = "totp", t.comment, t.secret
				q.MfaToken.Algorithm, q.MfaToken.Period, q.MfaToken.Digits = algo, period, digits
				w.addTOTP(q, u, t, bad, []int{0, 0, 0, 6, 7, 8}[r.Intn(6)])
			}
		}
	}
	// duplicates of enabled and disabled tokens
	for _, k := range append([]mTok(nil), u.mfa...) {
		if r.Intn(2) == 0 {
			continue
		}
		t := mTok{typ: "totp", algo: "sha1", period: 30, digits: 6, secret: k.secret, comment: fmt.Sprintf("dup-%d", w.seq)}
		if r.Intn(2) == 0 {
			t.secret, t.comment = randFrom(r, alnum, 20), k.comment
		}
		q := req(u)
		q.MfaToken.Type, q.MfaToken.Comment, q.MfaToken.Secret = "totp", t.comment, t.secret
		q.MfaToken.Algorithm, q.MfaToken.Period, q.MfaToken.Digits = "sha1", 30, 6
		w.addTOTP(q, u, t, "", 0)
		f := newFido(r)
		t2 := mTok{typ: "u2f", comment: t.comment, secret: t.secret, fido: f}
		w.addU2F(req(u), u, t2, b64json(f.register()), "")
	}
}

// ---- C22 -------------------------------------------------------------------

func ofLen(c *Ctx, n int, wide bool) string {
	if n <= 0 {
		return ""
	}
	s := ""
	if wide {
		for len(s)+2 <= n {
			s += pick(c.R, "é", "ж", "ü", "ñ")
		}
	}
	for len(s) < n {
		s += randFrom(c.R, alnum, 1)
	}
	return s
}

func runC22(c *Ctx) {
	o := worldOpts{policy: genPolicy(c), checkEvery: 20, weights: profile(map[string]int{"save": 1})}
	if c.Case == 0 {
		o.policy = nil
	}
	if c.Case%7 == 1 {
		o.policy = &identity.Policy{}
	}
	if c.Case%9 == 4 {
		// limits beyond what one expects to see
		r := c.R
		o.policy.Password.MaxLength = 300 + r.Intn(pick2(r, 800, 20000))
		o.policy.User.MaxLength = 200 + r.Intn(pick2(r, 900, 8000))
		if r.Intn(3) == 0 {
			o.policy.Password.MinLength = 20 + r.Intn(280)
			o.policy.User.MinLength = 20 + r.Intn(180)
		}
	}
	w := newWorld(c, o)
	up, pp := w.policy.User, w.policy.Password
	n := 0
	mail := func() string { n++; return fmt.Sprintf("m%d@pol.example", n) }
	okName := func() string {
		for {
			s := randFrom(c.R, alnum, clamp(up.MinLength+c.R.Intn(4), up.MinLength, up.MaxLength))
			if w.byName(s) == nil {
				return s
			}
			if up.MaxLength < 2 {
				return s
			}
		}
	}
	rel := func(l, min, max int) string {
		switch {
		case l == min-1 || l == min || l == min+1:
			return fmt.Sprintf("min%+d", l-min)
		case l == max-1 || l == max || l == max+1:
			return fmt.Sprintf("max%+d", l-max)
		case l < min:
			return "below"
		case l > max:
			return "above"
		}
		return "inside"
	}
	for _, l := range []int{up.MinLength - 1, up.MinLength, up.MinLength + 1, up.MaxLength - 1, up.MaxLength, up.MaxLength + 1, 0, up.MinLength / 2, up.MaxLength * 2, (up.MinLength + up.MaxLength) / 2} {
		if l < 0 {
			continue
		}
		wide := c.R.Intn(3) == 0
		s := ofLen(c, l, wide)
		if l > 2 && c.R.Intn(3) == 0 {
			s = pick(c.R, " "+ofLen(c, l-2, wide)+" ", " "+ofLen(c, l-1, wide), ofLen(c, l-1, wide)+" ", strings.Repeat(" ", l))
		}
		w.addUser(addUserArgs{uname: s, mail: mail(), pw: genPassword(c.R, pp.MinLength, pp.MaxLength)})
		c.Eval(fmt.Sprintf("uname/%s/%v/%d", rel(l, up.MinLength, up.MaxLength), wide, l))
	}
	if len(w.users) == 0 {
		w.addUser(addUserArgs{uname: okName(), mail: mail(), pw: genPassword(c.R, pp.MinLength, pp.MaxLength)})
	}
	for _, l := range []int{pp.MinLength - 1, pp.MinLength, pp.MinLength + 1, pp.MaxLength - 1, pp.MaxLength, pp.MaxLength + 1, 0, 1, pp.MaxLength * 2, (pp.MinLength + pp.MaxLength) / 2, 72, 73} {
		if l < 0 {
			continue
		}
		wide := c.R.Intn(3) == 0
		s := ofLen(c, l, wide)
		switch {
		case c.R.Intn(3) == 0 && l > 2:
			s = " " + s[:l-2] + " " // blanks count
			if wide {
				s = " " + ofLen(c, l-2, true) + " "
			}
		}
		if c.R.Intn(2) == 0 {
			if w.byName(okName()) == nil {
				w.addUser(addUserArgs{uname: okName(), mail: mail(), pw: s})
			}
		} else if u := w.pickUser(); u != nil {
			w.changePassword(req(u), u, u.pw, s)
		}
		c.Eval(fmt.Sprintf("pw/%s/%v/%d", rel(l, pp.MinLength, pp.MaxLength), wide, l))
	}
	w.advertised()
	w.opReopen()
	w.advertised()
	if len(w.users) > 0 {
		if c.Case%3 == 0 || c.Thorough {
			w.graft(3)
			w.tightened()
		}
		w.advertised()
	}
	w.finish()
	if c.Case%4 == 2 {
		contrary(c)
	}
}

// contrary: a policy whose limits leave nothing between them is a policy, and
// nothing complies with it.
func contrary(c *Ctx) {
	r := c.R
	pol := *genPolicy(c)
	nameToo, pwToo := r.Intn(3) > 0, r.Intn(3) > 0
	pol.User.MinLength, pol.User.MaxLength = 2, 40
	pol.Password.MinLength, pol.Password.MaxLength, pol.Password.KeepVersions = 5, 60, 3
	if nameToo || !pwToo {
		pol.User.MinLength = 10 + r.Intn(8)
		pol.User.MaxLength = 1 + r.Intn(pol.User.MinLength-1)
	}
	if pwToo {
		pol.Password.MinLength = 10 + r.Intn(20)
		pol.Password.MaxLength = 1 + r.Intn(pol.Password.MinLength-1)
	}
	path := filepath.Join(c.Dir, "contrary.json")
	b, _ := json.Marshal(map[string]interface{}{"version": "1.0.0", "policy": pol, "revision": 3, "users": []interface{}{}})
	if err := os.WriteFile(path, b, 0600); err != nil {
		c.Harness("%v", err)
	}
	defer os.Remove(path)
	var db *identity.Database
	if err := c.Call("NewDatabase", func() error {
		var e error
		db, e = identity.NewDatabase(path)
		return e
	}); err != nil {
		return // refusing such a policy is as good
	}
	if db.Policy != pol {
		c.Violate([]string{"C22", "C17"}, "policy %+v of the file became %+v", pol, db.Policy)
	}
	for _, l := range []int{1, pol.User.MaxLength - 1, pol.User.MaxLength, pol.User.MaxLength + 1, pol.User.MinLength - 1, pol.User.MinLength, pol.User.MinLength + 1, 30} {
		for _, k := range []int{1, pol.Password.MaxLength, pol.Password.MinLength - 1, pol.Password.MinLength, 12, 40} {
			if l < 1 || k < 1 {
				continue
			}
			q := requests.NewRequest()
			q.User.Username, q.User.Password, q.User.Email = "u"+randFrom(r, alnum, l-1), "p"+randFrom(r, alnum, k-1), randFrom(r, alnum, 12)+"@contrary.example"
			if c.Call("AddUser", func() error { return db.AddUser(q) }) == nil {
				c.Violate([]string{"C22"}, "a username of %d and a password of %d bytes were accepted under %+v", l, k, pol)
			}
			c.Event("contrary_policy_refusals")
			c.Eval(fmt.Sprintf("contrary/%v/%v/%d/%d", nameToo, pwToo, l-pol.User.MinLength, k-pol.Password.MinLength))
		}
	}
	if n := db.GetUserCount(); n != 0 {
		c.Violate([]string{"C22"}, "%d users under a policy nothing complies with", n)
	}
}

// tightened: under a policy that came later, what complied before, or is of
// the same length, counts no more than anything else.
func (w *World) tightened() {
	c, r := w.c, w.c.R
	for _, u := range append([]*mUser(nil), w.users...) {
		pp := w.policy.Password
		ls := []int{len(u.pw), len(u.pw), len(u.pw) - 1, len(u.pw) + 1, pp.MinLength - 1, pp.MaxLength + 1}
		for _, f := range u.former {
			ls = append(ls, len(f))
		}
		for i := 0; i < 3; i++ {
			l := ls[r.Intn(len(ls))]
			if l < 1 || l > 2000 {
				continue
			}
			pw := ofLen(c, l, false)
			if r.Intn(4) == 0 {
				pw = u.pw
			}
			w.changePassword(req(u), u, u.pw, pw)
			c.Eval(fmt.Sprintf("tight/%v/%v", len(pw) == len(u.pw), len(pw) >= pp.MinLength && len(pw) <= pp.MaxLength))
		}
		c.Event("policy_changed_later")
	}
}

// advertised checks summaries and expressions.
func (w *World) advertised() {
	c, r := w.c, w.c.R
	up, pp := w.policy.User, w.policy.Password
	var us, ur, ps, pr string
	c.Call("GetUsernamePolicySummary", func() error { us = w.db.GetUsernamePolicySummary(); return nil })
	c.Call("GetUsernamePolicyRegex", func() error { ur = w.db.GetUsernamePolicyRegex(); return nil })
	c.Call("GetPasswordPolicySummary", func() error { ps = w.db.GetPasswordPolicySummary(); return nil })
	c.Call("GetPasswordPolicyRegex", func() error { pr = w.db.GetPasswordPolicyRegex(); return nil })
	c.Log("advertised %q %q %q %q policy %+v", us, ur, ps, pr, w.policy)
	c.Event("policies_advertised")
	has := func(s, x string) bool { return strings.Contains(strings.ToLower(s), x) }
	// summaries state the limits and the rules
	nums := regexp.MustCompile(`\d+`)
	if got := strings.Join(nums.FindAllString(us, -1), ","); got != fmt.Sprintf("%d,%d", up.MinLength, up.MaxLength) {
		c.Violate([]string{"C22"}, "username summary %q does not state %d-%d", us, up.MinLength, up.MaxLength)
	}
	if got := strings.Join(nums.FindAllString(ps, -1), ","); got != fmt.Sprintf("%d,%d", pp.MinLength, pp.MaxLength) {
		c.Violate([]string{"C22"}, "password summary %q does not state %d-%d", ps, pp.MinLength, pp.MaxLength)
	}
	if has(us, "lowercase") == up.AllowUppercase {
		c.Violate([]string{"C22"}, "username summary %q with AllowUppercase=%v", us, up.AllowUppercase)
	}
	if has(us, "alpha-numeric") == up.AllowNonAlphaNumeric {
		c.Violate([]string{"C22"}, "username summary %q with AllowNonAlphaNumeric=%v", us, up.AllowNonAlphaNumeric)
	}
	for _, x := range []struct {
		word string
		on   bool
	}{{"uppercase", pp.RequireUppercase}, {"lowercase", pp.RequireLowercase}, {"number", pp.RequireNumber}, {"non alpha-numeric", pp.RequireNonAlphaNumeric}} {
		if has(ps, x.word) != x.on {
			c.Violate([]string{"C22"}, "password summary %q: %s required is %v", ps, x.word, x.on)
		}
	}
	// username expression: evaluate it on probes against the rules
	re, err := compileCounted(ur)
	if err != nil {
		c.Violate([]string{"C22"}, "username expression %q does not compile: %v", ur, err)
	}
	probe := func(s string) {
		want := nameRule(s, up)
		if got := re(s); got != want {
			c.Violate([]string{"C22"}, "username expression %q gives %v for %q (%d bytes), the policy %+v says %v", ur, got, s, len(s), up, want)
		}
		c.Eval(fmt.Sprintf("ure/%v/%d/%d/%d", want, len(s), up.MinLength, up.MaxLength))
	}
	for _, l := range []int{0, 1, up.MinLength - 1, up.MinLength, up.MinLength + 1, up.MaxLength - 1, up.MaxLength, up.MaxLength + 1} {
		if l < 0 {
			continue
		}
		s := "a" + randFrom(r, alnum, maxi(l-1, 0))
		if l == 0 {
			s = ""
		}
		probe(s)
		if l >= 1 {
			probe("9" + s[1:])
			probe("A" + s[1:])
			probe("-" + s[1:])
			probe("_" + s[1:])
		}
		if l >= 2 {
			for _, ch := range []string{"A", "Z", "-", "_", ".", " ", "@", "!", "/", "0", "9", "z"} {
				i := 1 + r.Intn(l-1)
				probe(s[:i] + ch + s[i+1:])
			}
		}
	}
	// strings the expression accepts are not refused because of the username
	for i := 0; i < 4; i++ {
		l := up.MinLength + r.Intn(up.MaxLength-up.MinLength+1)
		s := "a" + randFrom(r, alnum, l-1)
		if up.AllowNonAlphaNumeric && l > 1 {
			s = s[:l-1] + pick(r, "-", "_", ".")
		}
		if up.AllowUppercase {
			s = caseVariant(r, s)
		}
		if re(s) && w.byName(s) == nil {
			w.addUser(addUserArgs{uname: s, mail: fmt.Sprintf("re%d.%d@pol.example", w.seq, i), pw: genPassword(r, pp.MinLength, pp.MaxLength)})
		}
	}
	// password expression
	pre, err := parsePwRegex(pr)
	if err != nil {
		c.Violate([]string{"C22"}, "password expression %q is not understood: %v", pr, err)
	}
	full := func(n int, upc, low, num, sym bool) string {
		var parts []string
		if upc {
			parts = append(parts, "QW")
		}
		if low {
			parts = append(parts, "qw")
		}
		if num {
			parts = append(parts, "47")
		}
		if sym {
			parts = append(parts, "#&")
		}
		s := strings.Join(parts, "")
		if s == "" {
			s = "()"
		}
		for len(s) < n {
			s += s
		}
		return s[:n]
	}
	for _, l := range []int{pp.MinLength - 1, pp.MinLength, pp.MinLength + 9, pp.MaxLength, pp.MaxLength + 1} {
		if l < 8 {
			continue
		}
		for m := 0; m < 16; m++ {
			u, lo, nu, sy := m&1 > 0, m&2 > 0, m&4 > 0, m&8 > 0
			s := full(l, u, lo, nu, sy)
			want := l >= pp.MinLength && l <= pp.MaxLength && (u || !pp.RequireUppercase) && (lo || !pp.RequireLowercase) && (nu || !pp.RequireNumber) && (sy || !pp.RequireNonAlphaNumeric)
			if got := pre(s); got != want {
				c.Violate([]string{"C22"}, "password expression %q gives %v for %q (%d bytes), the policy %+v says %v", pr, got, s, len(s), pp, want)
			}
			c.Eval(fmt.Sprintf("pre/%v/%d/%d", want, m, l))
		}
		s := full(l, true, true, true, true)
		if pre(s) {
			if u := w.pickUser(); u != nil {
				w.changePassword(req(u), u, u.pw, s)
			}
		}
	}
	// characters and bytes: the listed finding
	s := strings.Repeat("ж", pp.MaxLength)
	if !pp.RequireUppercase && !pp.RequireLowercase && !pp.RequireNumber && !pp.RequireNonAlphaNumeric && pre(s) {
		if u := w.pickUser(); u != nil {
			q := req(u)
			q.User.OldPassword, q.User.Password = u.pw, s
			if err := c.Call("ChangeUserPassword", func() error { return w.db.ChangeUserPassword(q) }); err != nil {
				c.KnownFinding("KF-POLICY-BYTES", fmt.Sprintf("%d characters of two bytes match %q and are refused", pp.MaxLength, pr))
				w.unchanged("ChangeUserPassword (failed)", []string{"C22", "C07"})
			} else {
				c.Violate([]string{"C22"}, "a password of %d bytes was accepted with a limit of %d bytes", len(s), pp.MaxLength)
			}
		}
	}
}

func nameRule(s string, p identity.UserPolicy) bool {
	if len(s) < p.MinLength || len(s) > p.MaxLength || s == "" {
		return false
	}
	for i := 0; i < len(s); i++ {
		ch := s[i]
		switch {
		case ch >= 'a' && ch <= 'z':
		case ch >= 'A' && ch <= 'Z':
			if !p.AllowUppercase {
				return false
			}
		case ch >= '0' && ch <= '9':
			if i == 0 {
				return false
			}
		case ch == '-' || ch == '_' || ch == '.':
			if i == 0 || !p.AllowNonAlphaNumeric {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// parsePwRegex understands ^(?=X)(?=Y)REST$ by splitting off the lookaheads,
// which Go's regexp package lacks.
func parsePwRegex(s string) (func(string) bool, error) {
	if !strings.HasPrefix(s, "^") {
		return nil, fmt.Errorf("no anchor")
	}
	rest := s[1:]
	var ahead []*regexp.Regexp
	for strings.HasPrefix(rest, "(?=") {
		depth, i := 0, 0
		for i = 0; i < len(rest); i++ {
			if rest[i] == '(' {
				depth++
			}
			if rest[i] == ')' {
				depth--
				if depth == 0 {
					break
				}
			}
		}
		re, err := regexp.Compile("^(?:" + rest[3:i] + ")")
		if err != nil {
			return nil, err
		}
		ahead = append(ahead, re)
		rest = rest[i+1:]
	}
	re, err := compileCounted("^" + rest)
	if err != nil {
		return nil, err
	}
	return func(x string) bool {
		for _, a := range ahead {
			if !a.MatchString(x) {
				return false
			}
		}
		return re(x)
	}, nil
}

var counted = regexp.MustCompile(`^\^(.*?)(\.|\[[^\]]*\])\{(\d+),(\d+)\}\$$`)

// compileCounted compiles an expression. Go's regexp package knows no count
// above 1000, so where there is one at the end it is counted here.
func compileCounted(s string) (func(string) bool, error) {
	re, err := regexp.Compile(s)
	if err == nil {
		return re.MatchString, nil
	}
	m := counted.FindStringSubmatch(s)
	if m == nil {
		return nil, err
	}
	min, _ := strconv.Atoi(m[3])
	max, _ := strconv.Atoi(m[4])
	if re, err = regexp.Compile("^(?:" + m[1] + ")(" + m[2] + "*)$"); err != nil {
		return nil, err
	}
	return func(x string) bool {
		p := re.FindStringSubmatch(x)
		if p == nil {
			return false
		}
		n := utf8.RuneCountInString(p[len(p)-1])
		return n >= min && n <= max
	}, nil
}

// ---- C24 -------------------------------------------------------------------

func runC24(c *Ctx) {
	r := c.R
	o := worldOpts{weights: profile(map[string]int{"graft": 1, "adduser": 6, "identify": 8, "getusers": 4, "getuser": 6, "reopen": 2, "chpw": 1, "addapi": 1, "lookup": 2, "addtotp": 1}), mismatch: 0.05}
	w := newWorld(c, o)
	w.maxUsers = 6
	w.seedUsers(4)
	if c.Case%4 == 1 {
		w.described()
	}
	for i := 0; i < 2; i++ {
		for _, u := range w.users {
			w.expectIdentify(caseVariant(r, u.username), true)
			w.expectIdentify(caseVariant(r, u.email), false)
			w.force = &[2]string{caseVariant(r, u.username), caseVariant(r, u.email)}
			w.opGetUsers()
			w.opGetUser()
			w.force = nil
			c.Eval(fmt.Sprintf("claims/%s/%s/%s/%q", u.username, u.email, u.last+u.first, u.roles))
		}
		w.history(10)
	}
	w.finish()

	// parser round trips
	bad := func(format string, a ...interface{}) { c.Violate([]string{"C24"}, format, a...) }
	for i := 0; i < 20; i++ {
		first, last := genWord(r), genWord(r)
		for _, txt := range []string{first + " " + last, last + ", " + first, last + "," + first, " " + last + " ,  " + first + " "} {
			var n *identity.Name
			err := c.Call("ParseName", func() error {
				var e error
				n, e = identity.ParseName(txt)
				return e
			})
			if err != nil {
				bad("ParseName(%q) refused: %v", txt, err)
			}
			if n.First != first || n.Last != last {
				bad("ParseName(%q) gives first %q last %q", txt, n.First, n.Last)
			}
			for _, s := range []string{n.GetFullName(), n.GetNameClaim(), n.ToString()} {
				if s != last+", "+first {
					bad("name %q is reported as %q", txt, s)
				}
				m, err := identity.ParseName(s)
				if err != nil || m.First != first || m.Last != last {
					bad("reported name %q does not parse back: %v", s, err)
				}
			}
		}
		// multi-word last, first
		l2, f2 := last+" "+genWord(r), first+" "+genWord(r)
		n, err := identity.ParseName(l2 + ", " + f2)
		if err != nil || n.First != f2 || n.Last != l2 || n.GetFullName() != l2+", "+f2 {
			bad("ParseName(%q): %+v %v", l2+", "+f2, n, err)
		}
		long := genWord(r) + strings.Repeat(genWord(r), 1+r.Intn(200))
		for _, x := range [][2]string{{long, first}, {first, long}} {
			n, err := identity.ParseName(x[0] + ", " + x[1])
			if err != nil || n.First != x[1] || n.Last != x[0] || n.GetFullName() != x[0]+", "+x[1] {
				bad("ParseName of a name with %d letters: %+v %v", len(x[0])+len(x[1]), n, err)
			}
		}
		c.Eval("name/" + l2 + f2)

		org, role := genWord(r), genWord(r)
		for k := r.Intn(3); k > 0; k-- {
			role += "/" + genWord(r)
		}
		for _, t := range []struct{ in, org, name string }{
			{org + "/" + role, org, role}, {" " + org + "/" + role + "\t", org, role}, {org, "", org},
		} {
			rl, err := identity.NewRole(t.in)
			if err != nil {
				bad("NewRole(%q) refused: %v", t.in, err)
			}
			if rl.Organization != t.org || rl.Name != t.name || rl.String() != strings.TrimSpace(t.in) {
				bad("NewRole(%q) gives organization %q name %q text %q", t.in, rl.Organization, rl.Name, rl.String())
			}
			back, err := identity.NewRole(rl.String())
			if err != nil || *back != *rl {
				bad("role %q does not parse back", rl.String())
			}
			c.Eval("role/" + t.in)
		}
		for _, t := range []string{"", " ", "\t\n"} {
			if rl, err := identity.NewRole(t); err == nil {
				bad("NewRole(%q) gives %+v", t, rl)
			}
		}
		for k := 0; k < 8; k++ {
			s := genEmailish(r)
			var e *identity.EmailAddress
			err := c.Call("NewEmailAddress", func() error {
				var x error
				e, x = identity.NewEmailAddress(s)
				return x
			})
			if (err == nil) != validEmail(s) {
				bad("NewEmailAddress(%q) gives %v, syntactically valid: %v", s, err, validEmail(s))
			}
			if err == nil && (e.Address != s || e.ToString() != s || e.Domain != s[strings.Index(s, "@")+1:]) {
				bad("NewEmailAddress(%q) gives address %q domain %q", s, e.Address, e.Domain)
			}
			c.Eval(fmt.Sprintf("mail/%v/%s", err == nil, s))
		}
	}
	// membership on a hand-built user
	u := identity.NewUser("member")
	var set []string
	in := map[string]bool{}
	for i := 0; i < 8; i++ {
		t := rolePool[r.Intn(len(rolePool))]
		if err := u.AddRole(t); err != nil {
			bad("AddRole(%q): %v", t, err)
		}
		if !in[t] {
			in[t] = true
			set = append(set, t)
		}
		if got := u.GetRolesClaim(); strings.Join(got, "\x00") != strings.Join(set, "\x00") {
			bad("roles claim is %q after registering %q", got, set)
		}
		for _, x := range rolePool {
			if u.HasRole(x) != in[x] {
				bad("HasRole(%q) is %v with roles %q", x, u.HasRole(x), set)
			}
		}
	}
	c.Eval(fmt.Sprintf("member/%q", set))
}

func genWord(r interface{ Intn(int) int }) string {
	pools := []string{"abcdefghijklmnopqrstuvwxyz", "ABCDEFGHIJKLMNOPQRSTUVWXYZ", "éüñ漢字жюЯ", "-'.0123456789"}
	n := 1 + r.Intn(8)
	var b strings.Builder
	for i := 0; i < n; i++ {
		p := []rune(pools[[]int{0, 0, 0, 1, 2, 3}[r.Intn(6)]])
		b.WriteRune(p[r.Intn(len(p))])
	}
	return b.String()
}

func genEmailish(r interface {
	Intn(int) int
}) string {
	const chars = "aZ09.!#$%&'*+/=?^_`{|}~-"
	lab := func() string {
		n := []int{1, 2, 3, 5, 61, 62, 63, 64}[r.Intn(8)]
		b := make([]byte, n)
		for i := range b {
			b[i] = "abcXYZ019-"[r.Intn(10)]
		}
		if r.Intn(3) > 0 {
			b[0], b[n-1] = 'q', 'q'
		}
		return string(b)
	}
	loc := ""
	for i := 1 + r.Intn(6); i > 0; i-- {
		loc += string(chars[r.Intn(len(chars))])
	}
	s := loc + "@" + lab()
	for i := r.Intn(3); i > 0; i-- {
		s += "." + lab()
	}
	if r.Intn(3) == 0 {
		bad := []string{" ", "@", "\n", "é", "..", ",", "(", "\"", "_", "\x00", "."}
		x := bad[r.Intn(len(bad))]
		i := r.Intn(len(s) + 1)
		s = s[:i] + x + s[i:]
	}
	return s
}

// ---- C25 -------------------------------------------------------------------

func runC25(c *Ctx) {
	r := c.R
	o := worldOpts{weights: mix(map[string]int{"adduserbad": 12, "deluser": 4, "copy": 4, "save": 2, "webauthn": 8, "addu2f": 8}), mismatch: 0.45, faultProb: 0.25}
	w := newWorld(c, o)
	w.maxUsers = 4
	w.seedUsers(2)
	w.history(40)
	// formatting directives in the texts of requests
	w.percent = true
	w.opts.faultProb = 0
	dir := func() string {
		return pick(r, "100%d", "a%sb", "%v", "%q-x", "50%", "%%", "%5.2f", "%[1]d", "%T%p")
	}
	for i := 0; i < 12; i++ {
		u := w.pickUser()
		if u == nil {
			break
		}
		q := req(u)
		switch r.Intn(9) {
		case 0:
			q.Key.Payload, q.Key.Comment = "x", dir()
			m := keyMaterial{payload: dir()}
			w.addPublicKey(q, u, m, dir(), "usage", dir(), false)
		case 1:
			q.Key.Usage, q.Key.Comment = dir(), dir()
			w.addAPIKey(q, u, "usage")
		case 2:
			w.deleteAPIKey(q, u, dir())
		case 3:
			w.deletePublicKey(q, u, dir())
		case 4:
			w.deleteMfa(q, u, dir())
		case 5:
			a := w.genAddUser()
			a.uname = dir() + "abc"
			a.mail = u.email
			w.addUser(a)
			a.mail = dir()
			w.addUser(a)
		case 6:
			a := w.genAddUser()
			a.uname, a.name = "n-"+randFrom(r, alnum, 6), "one "+dir()+" three four"
			w.addUserBadName(a)
		case 7:
			t := mTok{typ: "totp", algo: "sha1", period: 30, digits: 6, secret: "0123456789", comment: dir()}
			q.MfaToken.Type, q.MfaToken.Comment, q.MfaToken.Secret = dir(), t.comment, t.secret
			q.MfaToken.Algorithm, q.MfaToken.Period, q.MfaToken.Digits = "sha1", 30, 6
			if r.Intn(2) == 0 {
				q.MfaToken.Type, q.MfaToken.Algorithm = "totp", dir()
			}
			w.addTOTP(q, u, t, "type", 0)
		case 8:
			w.force = &[2]string{dir(), dir()}
			for _, op := range []string{"getusers", "getuser", "getkeys", "getapi", "getmfa", "chpw", "deluser"} {
				opTable[op](w)
			}
			w.force = nil
		}
	}
	w.percent = false
	// refusals when opening
	for i, doc := range []string{"", "{", "[]", `{"users":[{}]}`, `{"users":[null]}`, `{"users":"x"}`, `{"users":[{"id":"x","username":"u"}]}`} {
		f := filepath.Join(c.Dir, fmt.Sprintf("bad%d.json", i))
		os.WriteFile(f, []byte(doc), 0600)
		err := c.Call("NewDatabase", func() error { _, e := openDB(f); return e })
		w.openError(f, err)
	}
	os.MkdirAll(filepath.Join(c.Dir, "isdir"), 0700)
	os.WriteFile(filepath.Join(c.Dir, "isfile"), nil, 0600)
	for _, f := range []string{filepath.Join(c.Dir, "isdir"), filepath.Join(c.Dir, "isfile", "x", "db.json")} {
		err := c.Call("NewDatabase", func() error { _, e := openDB(f); return e })
		w.openError(f, err)
	}
	w.finish()
}

func (w *World) openError(f string, err error) {
	c := w.c
	if err == nil {
		c.Violate([]string{"C25", "C17"}, "NewDatabase(%q) succeeded", f)
	}
	if s := err.Error(); strings.Contains(s, "%!") || verbRe.MatchString(s) || s == "" {
		c.Violate([]string{"C25"}, "error text of NewDatabase has unfilled parameters: %q", s)
	}
	ok := false
	for _, k := range []error{liberr.ErrNewDatabase, liberr.ErrNewDatabaseInvalidUser, liberr.ErrNewDatabaseDuplicateUser, liberr.ErrNewDatabaseDuplicateUserID, liberr.ErrNewDatabaseDuplicateEmail, liberr.ErrNewDatabaseDuplicateAPIKey} {
		if errIs(err, k) {
			ok = true
		}
	}
	if !ok {
		c.Violate([]string{"C25"}, "error of NewDatabase(%q) is not of the documented kind: %v", f, err)
	}
	c.Event("open_errors")
	c.Eval("open/" + head(err.Error(), 60))
}
