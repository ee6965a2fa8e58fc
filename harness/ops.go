package main

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"time"
	"unicode/utf8"

	identity "github.com/greenpau/go-identity"
	liberr "github.com/greenpau/go-identity/pkg/errors"
	"github.com/greenpau/go-identity/pkg/requests"
	"golang.org/x/crypto/bcrypt"
)

// pickUser returns a random model user or nil.
func (w *World) pickUser() *mUser {
	if len(w.users) == 0 {
		return nil
	}
	return w.users[w.c.R.Intn(len(w.users))]
}

// pickIdent chooses the username/e-mail pair of a request, mostly a matching
// one in some letter case, sometimes a crossed, unknown or empty one.
func (w *World) pickIdent() (uname, mail string) {
	r := w.c.R
	if w.force != nil {
		return w.force[0], w.force[1]
	}
	mis := w.opts.mismatch
	if mis == 0 {
		mis = 0.15
	}
	u := w.pickUser()
	if u == nil {
		return genUsername(r, 3, 20), genEmail(r)
	}
	uname, mail = u.username, u.anyMail(r)
	if chance(r, mis) {
		v := w.pickUser()
		switch r.Intn(9) {
		case 0, 1:
			mail = v.anyMail(r)
		case 2:
			uname = v.username
		case 3:
			uname = genUsername(r, 3, 20)
		case 4:
			mail = genEmail(r)
		case 5:
			uname = ""
		case 6:
			mail = ""
		case 7:
			uname, mail = mail, uname
		default:
			uname = uname + pick(r, " ", "x", "\x00")
		}
		if chance(r, 0.4) {
			uname, mail = u.username, u.email
			if r.Intn(2) == 0 {
				v := nearNames(r, uname, mail, u.id)
				uname = v[r.Intn(len(v))]
			} else {
				v := nearMails(r, mail)
				mail = v[r.Intn(len(v))]
			}
		}
	}
	if chance(r, 0.3) {
		uname = caseVariant(r, uname)
	}
	if chance(r, 0.3) {
		mail = caseVariant(r, mail)
	}
	return
}

func (w *World) identReq() (*requests.Request, *mUser) {
	n, m := w.pickIdent()
	r := requests.NewRequest()
	r.User.Username, r.User.Email = n, m
	return r, w.ident(n, m)
}

func identCause(w *World, r *requests.Request) string {
	if w.byName(r.User.Username) == nil || w.byMail(r.User.Email) == nil {
		return liberr.ErrDatabaseUserNotFound.Error()
	}
	return liberr.ErrDatabaseInvalidUser.Error()
}

// ---- users ---------------------------------------------------------------------

type addUserArgs struct {
	uname, mail, pw, name string
	first, last           string
	roles, claims         []string
	badName               bool
}

func (w *World) genAddUser() addUserArgs {
	r := w.c.R
	var a addUserArgs
	up, pp := w.policy.User, w.policy.Password
	a.uname = genUsername(r, up.MinLength, up.MaxLength)
	if strings.Contains(a.uname, "@") {
		a.uname = strings.ReplaceAll(a.uname, "@", "a")
	}
	a.mail = genEmail(r)
	a.pw = genPassword(r, pp.MinLength, pp.MaxLength)
	a.name, a.first, a.last = genName(r)
	a.roles, a.claims = genRoles(r)
	// deliberate collisions and near-collisions
	if u := w.pickUser(); u != nil && chance(r, 0.15) {
		if v := nearMails(r, u.email); r.Intn(2) == 0 {
			a.mail = v[r.Intn(len(v))]
		} else {
			v := nearNames(r, u.username, u.email, u.id)
			x := v[r.Intn(len(v))]
			if !strings.Contains(x, "@") && !blank(x) && len(x) >= up.MinLength && len(x) <= up.MaxLength && utf8.ValidString(x) {
				a.uname = x
			}
		}
	}
	if u := w.pickUser(); u != nil && chance(r, 0.2) {
		switch r.Intn(4) {
		case 0:
			a.uname = caseVariant(r, u.username)
		case 1:
			a.mail = caseVariant(r, u.anyMail(r))
		case 2:
			a.uname, a.mail = caseVariant(r, u.username), caseVariant(r, u.email)
		default:
			a.pw = u.pw
		}
	}
	return a
}

// addUserBadName adds a user whose name is of no documented form.
func (w *World) addUserBadName(a addUserArgs) { a.badName = true; w.addUser(a) }

func (w *World) addUser(a addUserArgs) (*mUser, error) {
	c := w.c
	up, pp := w.policy.User, w.policy.Password
	s := &step{op: "AddUser", store: true, faulty: true, kinds: kindsOf["AddUser"], subj: a.uname, cats: []string{"C03", "C22", "C01"}}
	badRole := false
	for _, x := range a.roles {
		if blank(x) {
			badRole = true
		}
	}
	switch {
	case len(a.uname) < up.MinLength || len(a.uname) > up.MaxLength:
		s.expect, s.reason, s.cats, s.cause = expFail, "username length", []string{"C22"}, liberr.ErrUserPolicyCompliance.Error()
	case len(a.pw) < pp.MinLength || len(a.pw) > pp.MaxLength:
		s.expect, s.reason, s.cats, s.cause = expFail, "password length", []string{"C22"}, liberr.ErrPasswordPolicyCompliance.Error()
	case a.uname == "":
		s.expect, s.reason, s.cats = expFail, "empty username", []string{"C03", "C17"}
	case blank(a.pw):
		s.expect, s.reason, s.cats = expFail, "blank password", []string{"C01"}
	case !validEmail(a.mail):
		s.expect, s.reason, s.cats = expFail, "invalid e-mail", []string{"C24", "C03"}
	case a.badName:
		s.expect, s.reason, s.cats, s.cause = expFail, "unparsable name", []string{"C24", "C25"}, a.name
	case badRole:
		s.expect, s.reason, s.cats = expFail, "blank role", []string{"C24"}
	case w.byName(a.uname) != nil:
		s.expect, s.reason, s.cats, s.cause = expFail, "duplicate username", []string{"C03"}, "in use"
	case w.byMail(a.mail) != nil:
		s.expect, s.reason, s.cats, s.cause, s.subj = expFail, "duplicate e-mail", []string{"C03"}, "in use", ""
	}
	c.Log("AddUser(user=%q mail=%q pw=%q name=%q roles=%q) expect=%d %s", a.uname, a.mail, a.pw, a.name, a.roles, s.expect, s.reason)
	u := &mUser{username: a.uname, email: a.mail, first: a.first, last: a.last, roles: a.claims, pw: a.pw}
	w.secrets = append(w.secrets, a.pw)
	r := requests.NewRequest()
	r.User.Username, r.User.Email, r.User.Password, r.User.FullName = a.uname, a.mail, a.pw, a.name
	r.User.Roles = append([]string(nil), a.roles...)
	s.q = r
	s.call = func() error { return w.db.AddUser(r) }
	s.apply = func(_, _ rawObj) { w.adoptUser(u) }
	err := w.run(s)
	if err != nil {
		return nil, err
	}
	return u, nil
}

// adoptUser takes a user the library reported as added into the model.
func (w *World) adoptUser(u *mUser) {
	c := w.c
	d := w.dumpUser(w.db, u, []string{"C03"})
	p := parseUser(c, d)
	u.id = p.ID
	if !uuidRe.MatchString(p.ID) {
		c.Violate([]string{"C19", "C03"}, "user ID %q of %q is not a random UUID", p.ID, u.username)
	}
	for _, x := range w.users {
		if x.id == u.id {
			c.Violate([]string{"C03", "C19"}, "users %q and %q share ID %s", x.username, u.username, u.id)
		}
	}
	c.res.Blobs["id:"+u.id] = "user"
	// no extras
	if len(p.Passwords) != 1 || len(p.PublicKeys)+len(p.APIKeys)+len(p.MfaTokens) != 0 {
		c.Violate([]string{"C02", "C04", "C03"}, "new user %q starts with %d passwords, %d/%d/%d keys and tokens", u.username, len(p.Passwords), len(p.PublicKeys), len(p.APIKeys), len(p.MfaTokens))
	}
	if u.first == "" && u.last == "" {
		if p.Name != nil && (p.Name.First != "" || p.Name.Last != "") {
			c.Violate([]string{"C24"}, "user %q without a name got name %+v", u.username, *p.Name)
		}
	} else if p.Name == nil || p.Name.First != u.first || p.Name.Last != u.last {
		c.Violate([]string{"C24"}, "name of %q stored as %+v, expected first %q last %q", u.username, p.Name, u.first, u.last)
	}
	u.rev = p.Revision
	if p.Revision != 0 {
		c.Violate([]string{"C21"}, "a new user has revision %d", p.Revision)
	}
	w.users = append(w.users, u)
	w.dumps = append(w.dumps, d)
	w.raws = append(w.raws, parseRaw(c, d))
}

func (w *World) opAddUser() {
	if len(w.users) >= w.maxUsers && chance(w.c.R, 0.7) {
		// only colliding additions once the world is full
		a := w.genAddUser()
		u := w.pickUser()
		if chance(w.c.R, 0.5) {
			a.uname = caseVariant(w.c.R, u.username)
		} else {
			a.mail = caseVariant(w.c.R, u.anyMail(w.c.R))
		}
		w.addUser(a)
		return
	}
	w.addUser(w.genAddUser())
}

// opAddUserBad adds users with one invalid attribute.
func (w *World) opAddUserBad() {
	r := w.c.R
	a := w.genAddUser()
	switch r.Intn(8) {
	case 0:
		a.uname = randFrom(r, alnum, maxi(0, w.policy.User.MinLength-1))
	case 1:
		a.uname = randFrom(r, alnum, w.policy.User.MaxLength+1)
	case 2:
		a.pw = randFrom(r, alnum, maxi(0, w.policy.Password.MinLength-1))
	case 3:
		a.pw = randFrom(r, alnum, w.policy.Password.MaxLength+1)
	case 4:
		a.pw = strings.Repeat(" ", maxi(1, w.policy.Password.MinLength))
	case 5:
		a.mail = pick(r, "", "noat", "@x.y", "a@", "a b@c.d", "a@b..c", "a@-b.c", "a@b-.c", "a@@b.c", "a@b.c\n", "é@b.c", "a@b_c.d", " a@b.c")
	case 6:
		a.roles = append(a.roles, pick(r, "", " ", "\t"))
	case 7:
		if u := w.pickUser(); u != nil {
			a.uname = caseVariant(r, u.username)
		}
	}
	w.addUser(a)
}

func (w *World) opChangePassword() {
	c, r := w.c, w.c.R
	q, u := w.identReq()
	pp := w.policy.Password
	newPw := genPassword(r, pp.MinLength, pp.MaxLength)
	old := ""
	if u != nil {
		old = u.pw
	} else if v := w.byName(q.User.Username); v != nil {
		old = v.pw
	}
	mode := r.Intn(10)
	switch mode {
	case 0:
		if u != nil && len(u.former) > 0 {
			old = u.former[r.Intn(len(u.former))]
		} else {
			old = "wrong-" + old
		}
	case 1:
		vs := pwVariants(r, old)
		old = vs[r.Intn(len(vs))]
	case 2:
		newPw = randFrom(r, alnum, maxi(0, pp.MinLength-1))
	case 3:
		newPw = randFrom(r, alnum, pp.MaxLength+1)
	case 4:
		newPw = strings.Repeat(" ", maxi(pp.MinLength, 1))
	case 5:
		if u != nil && len(u.former) > 0 {
			newPw = u.former[r.Intn(len(u.former))] // reuse is not blocked
			if len(newPw) < pp.MinLength || len(newPw) > pp.MaxLength {
				newPw = genPassword(r, pp.MinLength, pp.MaxLength)
			}
		}
	}
	w.changePassword(q, u, old, newPw)
	_ = c
}

func (w *World) changePassword(q *requests.Request, u *mUser, old, newPw string) error {
	c := w.c
	pp := w.policy.Password
	q.User.OldPassword, q.User.Password = old, newPw
	s := &step{op: "ChangeUserPassword", store: true, faulty: true, actor: u, field: "passwords", kinds: kindsOf["ChangeUserPassword"], cats: []string{"C02", "C01"}}
	switch {
	case u == nil:
		s.expect, s.reason, s.cats, s.cause = expFail, "identity", []string{"C04", "C02"}, identCause(w, q)
	case len(newPw) < pp.MinLength || len(newPw) > pp.MaxLength:
		s.expect, s.reason, s.cats, s.cause = expFail, "password length", []string{"C22", "C02"}, liberr.ErrPasswordPolicyCompliance.Error()
	case old != u.pw && bcryptEquiv(old, u.pw):
		s.expect, s.reason = expAny, "bcrypt-equivalent old password"
	case old != u.pw:
		s.expect, s.reason, s.cause = expFail, "wrong old password", liberr.ErrUserPasswordInvalid.Error()
	case blank(newPw):
		s.expect, s.reason = expFail, "blank password"
	}
	if newPw != "" {
		w.secrets = append(w.secrets, newPw)
	}
	c.Log("ChangeUserPassword(user=%q mail=%q old=%q new=%q) expect=%d %s", q.User.Username, q.User.Email, old, newPw, s.expect, s.reason)
	s.q = q
	s.call = func() error { return w.db.ChangeUserPassword(q) }
	s.apply = func(o, n rawObj) {
		a, b := rawList(c, o, "passwords"), rawList(c, n, "passwords")
		var oldHash, newHash []string
		for _, x := range a {
			var p dPw
			json.Unmarshal([]byte(x), &p)
			oldHash = append(oldHash, p.Hash)
		}
		for _, x := range b {
			var p dPw
			json.Unmarshal([]byte(x), &p)
			newHash = append(newHash, p.Hash)
		}
		for _, h := range oldHash {
			if len(newHash) > 0 && h == newHash[0] {
				c.Violate([]string{"C02", "C18"}, "the new password of %q has the hash of a former one", u.username)
			}
		}
		for i := 1; i < len(newHash); i++ {
			if i-1 >= len(oldHash) || newHash[i] != oldHash[i-1] {
				c.Violate([]string{"C02"}, "stored former passwords of %q are not the newest ones in order (position %d)", u.username, i)
			}
		}
		u.former = append([]string{u.pw}, u.former...)
		u.pw = newPw
		u.nChanges++
		u.over = 0
		u.rev++
	}
	return w.run(s)
}

// expectAuth judges one password sign-in.
func (w *World) expectAuth(ident, pw string) {
	c := w.c
	u, known := w.signInUser(ident)
	r := requests.NewRequest()
	r.User.Username, r.User.Password = ident, pw
	s := &step{op: "AuthenticateUser", kinds: kindsOf["AuthenticateUser"], cats: []string{"C01"}}
	switch {
	case !known:
		s.expect, s.reason = expAny, "identifier with at sign is a username (listed finding)"
	case u == nil:
		s.expect, s.reason, s.cause = expFail, "unknown user", liberr.ErrDatabaseUserNotFound.Error()
	case pw == "":
		s.expect, s.reason = expFail, "empty password"
	case pw == u.pw:
		s.expect = expOK
	case bcryptEquiv(pw, u.pw):
		s.expect, s.reason = expAny, "bcrypt-equivalent"
	default:
		s.expect, s.reason, s.cause = expFail, "wrong password", liberr.ErrUserPasswordInvalid.Error()
		for _, f := range u.former {
			if f == pw {
				s.reason = "former password"
				s.cats = append(s.cats, "C02")
			}
		}
		for _, v := range w.users {
			if v != u && v.pw == pw {
				s.reason = "another user's password"
				s.cats = append(s.cats, "C04")
			}
		}
	}
	if u != nil && u.nChanges > 0 {
		s.cats = append(s.cats, "C02")
	}
	if pw != "" && w.c.R.Intn(8) == 0 {
		// a password decides, whatever else the request carries
		r.WebAuthn.Challenge, r.WebAuthn.Request = "challenge", pick(w.c.R, "x", "e30=", b64json(map[string]string{"id": "x"}))
	}
	c.Log("AuthenticateUser(%q, pw=%q, assertion %q) expect=%d %s", ident, pw, r.WebAuthn.Request, s.expect, s.reason)
	s.q = r
	s.call = func() error {
		err := w.db.AuthenticateUser(r)
		want := 200
		if err != nil {
			want = 400
		}
		if r.Response.Code != want {
			c.Violate([]string{"C01", "C23"}, "AuthenticateUser(%q) returned error %v with response code %d", ident, err, r.Response.Code)
		}
		return err
	}
	c.Event("auth:" + s.reason)
	err := w.runRead(s)
	if err == nil && s.reason == "bcrypt-equivalent" {
		c.KnownFinding("KF-BCRYPT-PW", fmt.Sprintf("password of %d bytes accepted as %d-byte variant with equal bcrypt key", len(u.pw), len(pw)))
	}
	if err == nil && !known {
		return
	}
	if err != nil && !known {
		if v := w.byName(ident); v != nil && v.pw == pw {
			c.KnownFinding("KF-AT-USERNAME", fmt.Sprintf("user %q cannot sign in by username", ident))
		}
	}
}

// runRead is run for calls that must not change anything; the full frame check
// is done on a sample of them, as dumps cost more than the call.
func (w *World) runRead(s *step) error {
	c := w.c
	w.seq++
	if c.R.Intn(6) == 0 || w.after != nil || w.around != nil {
		return w.run(s)
	}
	err := c.Call(s.op, s.call)
	c.Event("op:" + s.op)
	w.sign(s, err, "")
	if err != nil {
		c.Event("op_err:" + s.op)
	}
	cats := append([]string(nil), s.cats...)
	if w.reopens > 0 {
		cats = append(cats, "C05")
	}
	if w.fails > 0 {
		cats = append(cats, "C07")
	}
	if s.expect == expOK && err != nil {
		c.Violate(cats, "%s was refused although the request is valid: %v", s.op, err)
	}
	if s.expect == expFail && err == nil {
		c.Violate(append(cats, "C25"), "%s succeeded although it must be refused (%s)", s.op, s.reason)
	}
	if err != nil {
		w.checkError(s, err, false)
	} else {
		c.Eval(fmt.Sprintf("%s/ok/%d/%d", s.op, len(w.users), w.reopens))
	}
	return err
}

func (w *World) opAuth() {
	r := w.c.R
	u := w.pickUser()
	if u == nil {
		w.expectAuth(genUsername(r, 3, 20), genPassword(r, 8, 40))
		return
	}
	ident := u.username
	switch r.Intn(8) {
	case 0, 1, 2:
		ident = u.anyMail(r)
	case 3:
		ident = pick(r, genUsername(r, 3, 20), genEmail(r), "", u.username+" ", u.username+"x", u.email+".x", "x"+u.email, u.username[:len(u.username)-1])
		if r.Intn(4) > 0 {
			ident = near(r, u)
		}
	}
	if chance(r, 0.4) {
		ident = caseVariant(r, ident)
	}
	pw := u.pw
	switch r.Intn(4) {
	case 0:
		vs := pwVariants(r, u.pw)
		pw = vs[r.Intn(len(vs))]
	case 1:
		if len(u.former) > 0 {
			pw = u.former[r.Intn(len(u.former))]
		} else {
			pw = w.pickUser().pw
		}
	}
	w.expectAuth(ident, pw)
}

func (w *World) opIdentify() {
	r := w.c.R
	u := w.pickUser()
	ident := genUsername(r, 3, 20)
	if u != nil {
		ident = u.username
		if chance(r, 0.5) {
			ident = u.anyMail(r)
		}
		if chance(r, 0.15) {
			ident = pick(r, genEmail(r), genUsername(r, 3, 20), "", u.username+"z", "nobody", "nobody@localhost", near(r, u), near(r, u), near(r, u), near(r, u))
		}
	}
	if chance(r, 0.4) {
		ident = caseVariant(r, ident)
	}
	w.expectIdentify(ident, r.Intn(2) == 0)
}

func (w *World) expectIdentify(ident string, flags bool) {
	c := w.c
	u, known := w.signInUser(ident)
	if !known {
		return
	}
	q := requests.NewRequest()
	q.User.Username = ident
	if c.R.Intn(4) == 0 {
		// the request served another identification before
		q.User.Email, q.User.FullName, q.User.Roles = "stale@stale.example", "Stale Name", []string{"stale/role"}
		q.User.Challenges = []string{"stale"}
		q.Flags.MfaConfigured, q.Flags.MfaApp, q.Flags.MfaUniversal = flags || u == nil, flags || u == nil, flags || u == nil
		c.Event("identify_requests_reused")
	}
	q.Flags.Enabled = flags
	s := &step{op: "IdentifyUser", cats: []string{"C24", "C23", "C12"}}
	c.Log("IdentifyUser(%q, flags=%v)", ident, flags)
	s.q = q
	s.call = func() error { return w.db.IdentifyUser(q) }
	if w.runRead(s) != nil {
		return
	}
	b, _ := json.Marshal(q)
	w.noSecrets("IdentifyUser result", string(b))
	f := q.Flags
	if u == nil {
		ok := q.User.Username == "nobody" && q.User.Email == "nobody@localhost" && q.User.FullName == "" && len(q.User.Roles) == 0 &&
			reflect.DeepEqual(q.User.Challenges, []string{"password"}) && !f.MfaConfigured && !f.MfaApp && !f.MfaUniversal && q.Response.Payload == nil
		c.Event("identify_unknown")
		if !ok {
			c.Violate([]string{"C23"}, "IdentifyUser of unknown %q reports %s", ident, string(b))
		}
		return
	}
	c.Event("identify_known")
	full := u.fullName()
	if q.User.Username != u.username || q.User.Email != u.email {
		c.Violate([]string{"C24"}, "IdentifyUser(%q) reports %q %q, expected %q %q", ident, q.User.Username, q.User.Email, u.username, u.email)
	}
	if q.User.FullName != full {
		c.Violate([]string{"C24"}, "IdentifyUser(%q) reports name %q, expected %q", ident, q.User.FullName, full)
	}
	if strings.Join(q.User.Roles, "\x00") != strings.Join(u.roles, "\x00") || len(q.User.Roles) != len(u.roles) {
		c.Violate([]string{"C24"}, "IdentifyUser(%q) reports roles %q, expected %q", ident, q.User.Roles, u.roles)
	}
	if q.Response.Code != 200 {
		c.Violate([]string{"C24", "C23"}, "IdentifyUser(%q) has response code %d", ident, q.Response.Code)
	}
	var app, uni, any bool
	for _, t := range u.mfa {
		if t.disabled {
			continue
		}
		any = true
		if t.typ == "totp" {
			app = true
		} else {
			uni = true
		}
	}
	if flags && (f.MfaConfigured != any || f.MfaApp != app || f.MfaUniversal != uni) {
		c.Violate([]string{"C12"}, "IdentifyUser(%q) reports flags %+v, expected configured=%v app=%v universal=%v", ident, f, any, app, uni)
	}
	ch := append([]string(nil), q.User.Challenges...)
	sort.Strings(ch)
	switch {
	case any:
		if !reflect.DeepEqual(ch, []string{"mfa", "password"}) {
			c.Violate([]string{"C12"}, "IdentifyUser(%q) with an enabled token demands %q", ident, q.User.Challenges)
		}
	case len(u.mfa) == 0:
		if !reflect.DeepEqual(ch, []string{"password"}) {
			c.Violate([]string{"C12"}, "IdentifyUser(%q) without tokens demands %q", ident, q.User.Challenges)
		}
	}
	c.Eval(fmt.Sprintf("identify/%d/%v/%v/%v/%d", len(u.roles), app, uni, flags, len(u.mfa)))
}

func (w *World) opGetUsers() {
	c := w.c
	q, u := w.identReq()
	s := &step{op: "GetUsers", kinds: kindsOf["GetUsers"], cats: []string{"C03", "C04", "C24"}}
	if u == nil {
		s.expect, s.reason, s.cause = expFail, "identity", identCause(w, q)
		s.cats = []string{"C04"}
	}
	c.Log("GetUsers(%q,%q) expect=%d", q.User.Username, q.User.Email, s.expect)
	s.q = q
	s.call = func() error { return w.db.GetUsers(q) }
	if w.runRead(s) != nil {
		if q.Response.Payload != nil {
			c.Violate([]string{"C04"}, "refused GetUsers handed out a payload")
		}
		return
	}
	w.checkUserList(q.Response.Payload)
}

func (w *World) checkUserList(payload interface{}) {
	c := w.c
	b, ok := payload.(*identity.UserMetadataBundle)
	if !ok {
		c.Violate([]string{"C03"}, "GetUsers payload is %T", payload)
	}
	if b.Size() != len(w.users) || len(b.Get()) != len(w.users) {
		c.Violate([]string{"C03"}, "GetUsers lists %d/%d users, expected %d", b.Size(), len(b.Get()), len(w.users))
	}
	for i, m := range b.Get() {
		u := w.users[i]
		full := u.fullName()
		if m.ID != u.id || m.Username != u.username {
			c.Violate([]string{"C03", "C24"}, "GetUsers entry %d is %q (%s), expected %q (%s)", i, m.Username, m.ID, u.username, u.id)
		}
		if m.Email != u.email || m.Name != full {
			c.Violate([]string{"C24"}, "GetUsers entry %d has e-mail %q name %q, expected %q %q", i, m.Email, m.Name, u.email, full)
		}
		if m.Revision != u.rev {
			c.Violate([]string{"C21"}, "GetUsers entry %d has revision %d, expected %d", i, m.Revision, u.rev)
		}
		t, _ := json.Marshal(m)
		w.noSecrets("GetUsers entry", string(t))
	}
	c.Event("user_lists")
}

func (w *World) opGetUser() {
	c := w.c
	q, u := w.identReq()
	s := &step{op: "GetUser", kinds: kindsOf["GetUser"], cats: []string{"C03", "C04"}}
	if u == nil {
		s.expect, s.reason, s.cause = expFail, "identity", identCause(w, q)
		s.cats = []string{"C04"}
	}
	c.Log("GetUser(%q,%q) expect=%d", q.User.Username, q.User.Email, s.expect)
	s.q = q
	s.call = func() error { return w.db.GetUser(q) }
	if w.runRead(s) != nil {
		if q.Response.Payload != nil {
			c.Violate([]string{"C04"}, "refused GetUser handed out a payload")
		}
		return
	}
	b, _ := json.Marshal(q.Response.Payload)
	d, err := canonJSON(b)
	if err != nil || d != w.dumps[w.idx(u)] {
		c.Violate([]string{"C04", "C03"}, "GetUser(%q,%q) returned a different record: %s", q.User.Username, q.User.Email, diffJSON(w.dumps[w.idx(u)], d))
	}
	if lu, ok := q.Response.Payload.(*identity.User); ok {
		for _, x := range append([]string{"nosuchrole", "", "org", "admin/org"}, rolePool...) {
			want := false
			for _, y := range u.roles {
				if y == strings.TrimSpace(x) {
					want = true
				}
			}
			if got := lu.HasRole(x); got != want {
				c.Violate([]string{"C24"}, "HasRole(%q) of %q is %v with roles %q", x, u.username, got, u.roles)
			}
		}
		if lu.HasRoles() != (len(u.roles) > 0) || !lu.HasEmailAddresses() {
			c.Violate([]string{"C24"}, "HasRoles/HasEmailAddresses of %q wrong", u.username)
		}
		if lu.GetMailClaim() != u.email {
			c.Violate([]string{"C24"}, "mail claim of %q is %q", u.username, lu.GetMailClaim())
		}
	}
}

func (w *World) opDeleteUser() {
	c := w.c
	q, u := w.identReq()
	q.Query.ID = pick(c.R, "", "some-id", "x y")
	if v := w.pickUser(); v != nil && chance(c.R, 0.6) {
		q.Query.ID = v.id
	}
	s := &step{op: "DeleteUser", store: true, expect: expFail, reason: "not supported", kinds: kindsOf["DeleteUser"], subj: q.Query.ID, cats: []string{"C03", "C04"}}
	if u == nil {
		s.reason, s.cause = "identity", identCause(w, q)
	}
	c.Log("DeleteUser(%q,%q,id=%q)", q.User.Username, q.User.Email, q.Query.ID)
	s.q = q
	s.call = func() error { return w.db.DeleteUser(q) }
	w.run(s)
}

// ---- public keys -------------------------------------------------------------

type keyMaterial struct {
	payload string
	canon   string
	usage   string
	rsa     *rsaPub
	pgp     *pgpKey
	form    string
}

func (w *World) genKey() keyMaterial {
	c, r := w.c, w.c.R
	if r.Intn(4) == 0 {
		p := loadPGP(c)
		k := p[r.Intn(len(p))]
		return keyMaterial{payload: k.armor, canon: "pgp:" + k.fp, usage: "gpg", pgp: k, form: "pgp"}
	}
	var k *rsaPub
	bits := []int{1024, 1024, 2048, 1536, 3072, 1031, 4096, 6144 + 2048*r.Intn(2)}[r.Intn(8)]
	k = genRSA(r, bits)
	m := keyMaterial{canon: "rsa:" + k.n.String() + "/" + fmt.Sprint(k.e), usage: "ssh", rsa: k}
	w.renderRSA(&m)
	return m
}

func (w *World) renderRSA(m *keyMaterial) {
	r := w.c.R
	if r.Intn(2) == 0 {
		m.form = "openssh"
		m.payload = m.rsa.openssh(pick(r, "", "me@host", "two words", "ключ", "h"+randFrom(r, alnum62+" ", r.Intn(2000))+"x"))
		if r.Intn(4) == 0 {
			m.payload += pick(r, "\n", " ", "\r\n")
		}
	} else {
		m.form = "pem"
		m.payload = m.rsa.pem()
		if r.Intn(4) == 0 {
			m.payload = pick(r, "\n", "  ") + m.payload + "\n"
		}
	}
}

func (w *World) opAddPublicKey() {
	r := w.c.R
	q, u := w.identReq()
	var m keyMaterial
	pool := w.keyPool
	if len(pool) > 0 && chance(r, 0.35) {
		m = pool[r.Intn(len(pool))]
		if m.rsa != nil {
			w.renderRSA(&m)
		}
	} else {
		m = w.genKey()
		w.keyPool = append(pool, m)
	}
	usage := m.usage
	bad := ""
	switch r.Intn(14) {
	case 0:
		usage = pick(r, "", "x509", "SSH", "api", "ssh ")
		bad = "usage"
	case 1:
		if usage == "ssh" {
			usage = "gpg"
		} else {
			usage = "ssh"
		}
		bad = "usage mismatch"
	case 2:
		m.payload = pick(r, "", "garbage", "ssh-rsa ", "ssh-rsa AAAA", "ssh-dss AAAAB3NzaC1kc3M=", "-----BEGIN RSA PUBLIC KEY-----\nAAAA\n-----END RSA PUBLIC KEY-----", "-----BEGIN PGP PUBLIC KEY BLOCK-----\n\n-----END PGP PUBLIC KEY BLOCK-----")
		bad = "payload"
	}
	note := genNote(r)
	if r.Intn(2) == 0 {
		note = "key " + m.canon[len(m.canon)-6:] // the same each time
	}
	w.addPublicKey(q, u, m, usage, bad, note, chance(r, 0.2))
}

func (w *World) addPublicKey(q *requests.Request, u *mUser, m keyMaterial, usage, bad, comment string, disabled bool) error {
	c := w.c
	q.Key.Usage, q.Key.Payload, q.Key.Comment, q.Key.Disabled = usage, m.payload, comment, disabled
	s := &step{op: "AddPublicKey", store: true, faulty: true, actor: u, field: "public_keys", kinds: kindsOf["AddPublicKey"], subj: usage, cats: []string{"C11"}}
	switch {
	case u == nil:
		s.expect, s.reason, s.cats, s.cause = expFail, "identity", []string{"C04"}, identCause(w, q)
	case bad != "":
		s.expect, s.reason = expFail, "bad "+bad
	default:
		for _, k := range u.keys {
			if k.canon == m.canon {
				s.expect, s.reason, s.cause = expFail, "duplicate key", "already exists"
			}
		}
	}
	c.Log("AddPublicKey(%q,%q usage=%q form=%s disabled=%v %s) expect=%d %s", q.User.Username, q.User.Email, usage, m.form, q.Key.Disabled, m.canon, s.expect, s.reason)
	s.q = q
	s.call = func() error { return w.db.AddPublicKey(q) }
	s.apply = func(o, n rawObj) {
		raw := w.appended(s, u, o, n)
		var d dKey
		json.Unmarshal(raw, &d)
		w.checkStoredKey(&m, &d, comment)
		if d.Disabled != disabled || d.Usage != usage {
			c.Violate([]string{"C11"}, "public key stored with disabled=%v usage=%q", d.Disabled, d.Usage)
		}
		if m.pgp == nil {
			w.newRandomID(d.ID)
		}
		u.keys = append(u.keys, mKey{id: d.ID, canon: m.canon, usage: usage, disabled: disabled})
		u.rev++
	}
	return w.run(s)
}

// newRandomID: C19 oracle for generated key and token IDs.
func (w *World) newRandomID(id string) {
	if len(id) != 40 || !alnumRe.MatchString(id) {
		w.c.Violate([]string{"C19"}, "generated ID %q is not 40 alphanumeric characters", id)
	}
	w.c.res.Blobs["id:"+id] = "rand"
}

// checkStoredKey: all stored forms denote the submitted key.
func (w *World) checkStoredKey(m *keyMaterial, d *dKey, comment string) {
	c := w.c
	c.Event("stored_keys_checked:" + m.form)
	bad := func(what, got, want string) {
		c.Violate([]string{"C11"}, "stored %s of a %s key is %q, expected %q", what, m.form, head(got, 200), head(want, 200))
	}
	if m.pgp != nil {
		if !strings.EqualFold(d.Fingerprint, m.pgp.fp) {
			bad("fingerprint", d.Fingerprint, m.pgp.fp)
		}
		if m.pgp.typ != "" && d.Type != m.pgp.typ {
			bad("type", d.Type, m.pgp.typ)
		}
		if d.ID != m.pgp.keyID {
			bad("id", d.ID, m.pgp.keyID)
		}
		if strings.TrimSpace(d.Payload) != strings.TrimSpace(m.payload) {
			bad("payload", d.Payload, m.payload)
		}
		if comment != "" && !strings.Contains(d.Comment, comment) {
			bad("comment", d.Comment, comment)
		}
		return
	}
	if d.Type != "ssh-rsa" {
		bad("type", d.Type, "ssh-rsa")
	}
	if strings.TrimPrefix(d.Fingerprint, "SHA256:") != m.rsa.fpSHA256() {
		bad("SHA-256 fingerprint", d.Fingerprint, m.rsa.fpSHA256())
	}
	if strings.TrimPrefix(d.FingerprintMD5, "MD5:") != m.rsa.fpMD5() {
		bad("MD5 fingerprint", d.FingerprintMD5, m.rsa.fpMD5())
	}
	wire, err := b64any(strings.TrimSpace(strings.TrimPrefix(strings.TrimSpace(d.OpenSSH), "ssh-rsa ")))
	if err != nil || string(wire) != string(m.rsa.wire()) {
		bad("OpenSSH form", d.OpenSSH, m.rsa.openssh(""))
	}
	blk := pemBytes(d.Payload)
	if hex.EncodeToString(blk) != hex.EncodeToString(m.rsa.spki()) {
		bad("PEM form", d.Payload, m.rsa.pem())
	}
	if m.form == "pem" && d.Comment != comment {
		bad("comment", d.Comment, comment)
	}
	if f := strings.SplitN(strings.TrimSpace(m.payload), " ", 3); m.form != "pem" && len(f) == 3 && strings.TrimSpace(f[2]) != "" {
		comment = strings.TrimSpace(f[2])
	}
	if m.form != "pem" && d.Comment != comment {
		bad("comment", d.Comment, comment)
	}
}

func (w *World) opDeletePublicKey() {
	c, r := w.c, w.c.R
	q, u := w.identReq()
	id := pick(r, "", "nosuchid", "zzz")
	if u != nil && len(u.keys) > 0 && chance(r, 0.75) {
		id = u.keys[r.Intn(len(u.keys))].id
	} else if v := w.pickUser(); v != nil && len(v.keys) > 0 {
		id = v.keys[r.Intn(len(v.keys))].id
	} else if u != nil && len(u.api) > 0 {
		id = u.api[0].id
	}
	if chance(r, 0.15) {
		id = nearPlain(r, id)
	}
	w.deletePublicKey(q, u, id)
	_ = c
}

func (w *World) deletePublicKey(q *requests.Request, u *mUser, id string) error {
	c := w.c
	q.Key.ID = id
	pos := -1
	if u != nil {
		for i, k := range u.keys {
			if k.id == id {
				pos = i
			}
		}
	}
	s := &step{op: "DeletePublicKey", store: true, faulty: true, actor: u, field: "public_keys", kinds: kindsOf["DeletePublicKey"], subj: id, cats: []string{"C11"}}
	if u == nil {
		s.expect, s.reason, s.cats, s.cause = expFail, "identity", []string{"C04"}, identCause(w, q)
	} else if pos < 0 {
		s.expect, s.reason, s.cause = expFail, "no such key", "not found"
		s.cats = append(s.cats, "C04")
	}
	c.Log("DeletePublicKey(%q,%q,id=%q) expect=%d %s", q.User.Username, q.User.Email, id, s.expect, s.reason)
	s.q = q
	s.call = func() error { return w.db.DeletePublicKey(q) }
	s.apply = func(o, n rawObj) {
		w.removed(s, u, pos, o, n)
		u.keys = append(append([]mKey(nil), u.keys[:pos]...), u.keys[pos+1:]...)
		u.rev++
	}
	return w.run(s)
}

func (w *World) opGetPublicKeys() {
	c, r := w.c, w.c.R
	q, u := w.identReq()
	q.Key.Usage = pick(r, "ssh", "gpg", "ssh", "gpg", "api", "")
	s := &step{op: "GetPublicKeys", kinds: kindsOf["GetPublicKeys"], subj: q.Key.Usage, cats: []string{"C11"}}
	if u == nil {
		s.expect, s.reason, s.cats, s.cause = expFail, "identity", []string{"C04"}, identCause(w, q)
	}
	c.Log("GetPublicKeys(%q,%q,%q) expect=%d", q.User.Username, q.User.Email, q.Key.Usage, s.expect)
	s.q = q
	s.call = func() error { return w.db.GetPublicKeys(q) }
	if w.runRead(s) != nil {
		if q.Response.Payload != nil {
			c.Violate([]string{"C04"}, "refused GetPublicKeys handed out a payload")
		}
		return
	}
	var want, got []string
	for _, k := range u.keys {
		if k.usage == q.Key.Usage && !k.disabled {
			want = append(want, k.id)
		}
	}
	b, ok := q.Response.Payload.(*identity.PublicKeyBundle)
	if !ok {
		c.Violate([]string{"C11"}, "GetPublicKeys payload is %T", q.Response.Payload)
	}
	for _, k := range b.Get() {
		got = append(got, k.ID)
	}
	if strings.Join(want, ",") != strings.Join(got, ",") || b.Size() != len(got) {
		c.Violate([]string{"C11", "C04"}, "GetPublicKeys(%q,%q) lists %v (size %d), expected %v", u.username, q.Key.Usage, got, b.Size(), want)
	}
	c.Eval(fmt.Sprintf("listkeys/%d/%d/%s", len(want), len(u.keys), q.Key.Usage))
}

// ---- API keys ------------------------------------------------------------------

func (w *World) opAddAPIKey() {
	r := w.c.R
	q, u := w.identReq()
	q.Key.Usage, q.Key.Comment = "api", genBlankNote(r)
	q.Key.Disabled = chance(r, 0.25)
	bad := ""
	switch r.Intn(14) {
	case 0:
		q.Key.Usage = pick(r, "", "ssh", "API", "apikey")
		bad = "usage"
	case 1:
		q.Key.Comment = ""
		bad = "comment"
	case 2:
		q.Key.Payload, q.Key.Prefix, q.Key.ID = "chosen-by-caller", "chosen", "chosen"
	}
	w.addAPIKey(q, u, bad)
}

func (w *World) addAPIKey(q *requests.Request, u *mUser, bad string) error {
	c := w.c
	comment, disabled := q.Key.Comment, q.Key.Disabled
	s := &step{op: "AddAPIKey", store: true, faulty: true, actor: u, field: "api_keys", kinds: kindsOf["AddAPIKey"], subj: q.Key.Usage, cats: []string{"C10"}}
	switch {
	case u == nil:
		s.expect, s.reason, s.cats, s.cause = expFail, "identity", []string{"C04"}, identCause(w, q)
	case bad != "":
		s.expect, s.reason = expFail, "bad "+bad
	}
	c.Log("AddAPIKey(%q,%q usage=%q comment=%q disabled=%v) expect=%d %s", q.User.Username, q.User.Email, q.Key.Usage, comment, disabled, s.expect, s.reason)
	s.q = q
	s.call = func() error { return w.db.AddAPIKey(q) }
	s.apply = func(o, n rawObj) {
		raw := w.appended(s, u, o, n)
		var d dAPI
		json.Unmarshal(raw, &d)
		plain, ok := q.Response.Payload.(string)
		if !ok {
			c.Violate([]string{"C10"}, "AddAPIKey payload is %T", q.Response.Payload)
		}
		if len(plain) < 72 || len(plain) > 96 || !alnumRe.MatchString(plain) {
			c.Violate([]string{"C19", "C10"}, "issued API key has %d characters, expected 72-96 alphanumeric ones: %q", len(plain), plain)
		}
		for _, v := range w.users {
			for _, k := range v.api {
				if k.plain == plain || k.id == d.ID {
					c.Violate([]string{"C19", "C10"}, "API key or its ID repeats")
				}
			}
		}
		if d.Disabled != disabled {
			c.Violate([]string{"C10"}, "API key issued with disabled=%v is stored with disabled=%v", disabled, d.Disabled)
		}
		w.newRandomID(d.ID)
		c.res.Blobs["id:"+plain] = "api"
		u.api = append(u.api, mAPI{id: d.ID, plain: plain, comment: comment, disabled: disabled})
		u.rev++
		w.secrets = append(w.secrets, plain)
	}
	return w.run(s)
}

func (w *World) opDeleteAPIKey() {
	r := w.c.R
	q, u := w.identReq()
	id := pick(r, "", "nosuchid")
	if u != nil && len(u.api) > 0 && chance(r, 0.75) {
		id = u.api[r.Intn(len(u.api))].id
	} else if v := w.pickUser(); v != nil && len(v.api) > 0 {
		id = v.api[r.Intn(len(v.api))].id
	}
	if chance(r, 0.15) {
		id = nearPlain(r, id)
	}
	q.Key.ID = id
	if chance(r, 0.2) {
		// whatever the caller left in the other fields must not matter
		if v := w.pickUser(); v != nil && len(v.api) > 0 {
			q.Key.Prefix = v.api[r.Intn(len(v.api))].plain[:24]
		}
	}
	w.deleteAPIKey(q, u, id)
}

func (w *World) deleteAPIKey(q *requests.Request, u *mUser, id string) error {
	c := w.c
	pos := -1
	if u != nil {
		for i, k := range u.api {
			if k.id == id {
				pos = i
			}
		}
	}
	q.Key.ID = id
	s := &step{op: "DeleteAPIKey", store: true, faulty: true, actor: u, field: "api_keys", kinds: kindsOf["DeleteAPIKey"], subj: id, cats: []string{"C10"}}
	if u == nil {
		s.expect, s.reason, s.cats, s.cause = expFail, "identity", []string{"C04"}, identCause(w, q)
	} else if pos < 0 {
		s.expect, s.reason, s.cause = expFail, "no such key", "not found"
		s.cats = append(s.cats, "C04")
	}
	c.Log("DeleteAPIKey(%q,%q,id=%q) expect=%d %s", q.User.Username, q.User.Email, id, s.expect, s.reason)
	s.q = q
	s.call = func() error { return w.db.DeleteAPIKey(q) }
	s.apply = func(o, n rawObj) {
		w.removed(s, u, pos, o, n)
		gone := u.api[pos]
		u.api = append(append([]mAPI(nil), u.api[:pos]...), u.api[pos+1:]...)
		u.rev++
		w.deletedKeys(gone.plain)
	}
	return w.run(s)
}

func (w *World) deletedKeys(s string) { w.deleted = append(w.deleted, s) }

func (w *World) opGetAPIKeys() {
	c, r := w.c, w.c.R
	q, u := w.identReq()
	q.Key.Usage = pick(r, "api", "api", "api", "ssh", "")
	s := &step{op: "GetAPIKeys", kinds: kindsOf["GetAPIKeys"], subj: q.Key.Usage, cats: []string{"C10"}}
	if u == nil {
		s.expect, s.reason, s.cats, s.cause = expFail, "identity", []string{"C04"}, identCause(w, q)
	}
	c.Log("GetAPIKeys(%q,%q,%q) expect=%d", q.User.Username, q.User.Email, q.Key.Usage, s.expect)
	s.q = q
	s.call = func() error { return w.db.GetAPIKeys(q) }
	if w.runRead(s) != nil {
		if q.Response.Payload != nil {
			c.Violate([]string{"C04"}, "refused GetAPIKeys handed out a payload")
		}
		return
	}
	var want, got []string
	for _, k := range u.api {
		if q.Key.Usage == "api" && !k.disabled {
			want = append(want, k.id)
		}
	}
	b, ok := q.Response.Payload.(*identity.APIKeyBundle)
	if !ok {
		c.Violate([]string{"C10"}, "GetAPIKeys payload is %T", q.Response.Payload)
	}
	for _, k := range b.Get() {
		got = append(got, k.ID)
		t, _ := json.Marshal(k)
		w.noSecrets("GetAPIKeys entry", string(t))
	}
	if strings.Join(want, ",") != strings.Join(got, ",") || b.Size() != len(got) {
		c.Violate([]string{"C10", "C04"}, "GetAPIKeys(%q) lists %v (size %d), expected %v", u.username, got, b.Size(), want)
	}
	c.Eval(fmt.Sprintf("listapi/%d/%d", len(want), len(u.api)))
}

func (w *World) opLookup() {
	r := w.c.R
	var all []mAPI
	for _, u := range w.users {
		all = append(all, u.api...)
	}
	var p string
	if len(all) == 0 || chance(r, 0.1) {
		p = pick(r, "", "short", randFrom(r, alnum, 71), randFrom(r, alnum, 72), randFrom(r, alnum, 90))
	} else {
		p = all[r.Intn(len(all))].plain
		b := []byte(p)
		switch r.Intn(12) {
		case 0:
			i := r.Intn(72)
			b[i] = alnum[r.Intn(len(alnum))]
			p = string(b)
		case 1:
			p = p[:len(p)-1]
		case 2:
			p = p[1:]
		case 3:
			p += "x"
		case 4:
			q := all[r.Intn(len(all))].plain
			p = p[:24] + q[24:]
		case 5:
			p = strings.ToUpper(p)
		case 6:
			p = " " + p
		case 7:
			if d := w.deleted; len(d) > 0 {
				p = d[r.Intn(len(d))]
			}
		case 8:
			p = p[:24] + randFrom(r, alnum, 60)
		}
	}
	w.expectLookup(p)
}

func (w *World) expectLookup(p string) {
	c := w.c
	q := requests.NewRequest()
	q.Key.Payload = p
	var owner *mUser
	equiv := false
	for _, u := range w.users {
		for _, k := range u.api {
			if k.disabled || k.expired {
				continue
			}
			if k.plain == p {
				owner = u
			} else if bcryptEquiv(k.plain, p) {
				equiv = true
			}
		}
	}
	s := &step{op: "LookupAPIKey", kinds: kindsOf["LookupAPIKey"], cats: []string{"C10"}}
	switch {
	case owner != nil:
	case equiv:
		s.expect, s.reason = expAny, "bcrypt-equivalent"
	default:
		s.expect, s.reason = expFail, "not an enabled issued key"
		for _, d := range w.deleted {
			if d == p {
				s.reason = "deleted key"
			}
		}
	}
	c.Log("LookupAPIKey(%q) expect=%d %s", p, s.expect, s.reason)
	s.q = q
	s.call = func() error { return w.db.LookupAPIKey(q) }
	c.Event("lookup:" + s.reason)
	err := w.runRead(s)
	if err != nil {
		if q.Response.Code == 200 || q.User.Username != "" || q.User.Email != "" {
			c.Violate([]string{"C10"}, "refused lookup reports code %d user %q %q", q.Response.Code, q.User.Username, q.User.Email)
		}
		return
	}
	if equiv && owner == nil {
		c.KnownFinding("KF-BCRYPT-API", "API key with an altered tail beyond byte 72 accepted")
		return
	}
	if q.User.Username != owner.username || q.User.Email != owner.email || q.Response.Code != 200 {
		c.Violate([]string{"C10"}, "lookup of a key of %q reports %q %q code %d", owner.username, q.User.Username, q.User.Email, q.Response.Code)
	}
	rest := *q
	rest.Key.Payload, rest.Key.Prefix = "", ""
	b, _ := json.Marshal(rest)
	w.noSecrets("LookupAPIKey result", string(b))
}

// ---- MFA tokens ----------------------------------------------------------------

func (w *World) opAddTOTP() {
	c, r := w.c, w.c.R
	q, u := w.identReq()
	t := mTok{typ: "totp", algo: pick(r, "sha1", "sha256", "sha512"), period: []int{30, 60, 90, 300, 31, 299}[r.Intn(6)], digits: []int{4, 6, 8, 6, 7, 5}[r.Intn(6)]}
	t.secret = randFrom(r, alnum+"ABCDEFXYZ-_ é", 6+r.Intn(40))
	t.comment = genNote(r)
	t.disabled = chance(r, 0.2)
	if v := w.pickUser(); v != nil && len(v.mfa) > 0 && chance(r, 0.3) {
		x := v.mfa[r.Intn(len(v.mfa))]
		switch r.Intn(4) {
		case 0:
			t.secret = x.secret
		case 1:
			t.comment = x.comment
		case 2:
			t.secret = nearPlain(r, x.secret)
		default:
			t.comment = nearPlain(r, x.comment)
		}
	}
	q.MfaToken.Type, q.MfaToken.Comment, q.MfaToken.Secret = "totp", t.comment, t.secret
	q.MfaToken.Algorithm, q.MfaToken.Period, q.MfaToken.Digits = t.algo, t.period, t.digits
	q.MfaToken.Disabled = t.disabled
	if t.algo == "sha1" && r.Intn(2) == 0 {
		q.MfaToken.Algorithm = ""
	} else if r.Intn(4) == 0 {
		q.MfaToken.Algorithm = strings.ToUpper(t.algo)
	}
	if t.digits == 6 && r.Intn(2) == 0 {
		q.MfaToken.Digits = 0
	}
	bad := ""
	switch r.Intn(20) {
	case 0:
		q.MfaToken.Algorithm = pick(r, "md5", "sha", "sha-1", "SHA224", " sha1")
		bad = "algorithm"
	case 1:
		q.MfaToken.Period = []int{0, 29, 301, -30, 1, 3000}[r.Intn(6)]
		bad = "period"
	case 2:
		q.MfaToken.Digits = []int{3, 9, -1, 1, 2, 10}[r.Intn(6)]
		bad = "digits"
	case 3:
		q.MfaToken.Type = pick(r, "", "hotp", "TOTP", "sms")
		bad = "type"
	}
	passMode := r.Intn(9)
	w.addTOTP(q, u, t, bad, passMode)
	_ = c
}

// addTOTP registers a token; passMode selects the passcode (0-5 current step,
// 6 wrong, 7 empty, 8 of another secret).
func (w *World) addTOTP(q *requests.Request, u *mUser, t mTok, bad string, passMode int) error {
	c, r := w.c, w.c.R
	period := q.MfaToken.Period
	if period <= 0 {
		period = 30
	}
	digits := t.digits
	if bad == "digits" {
		digits = q.MfaToken.Digits
	}
	if digits < 1 || digits > 12 {
		digits = 6
	}
	algo := t.algo
	if refTOTP(nil, algo, 6, 0) == "" {
		algo = "sha1"
	}
	// Choose the moment away from a step boundary as far as possible; the
	// verdict below is only used if the step did not change during the call.
	now := time.Now()
	step0 := stepOf(now, period)
	accept := map[string]bool{} // unspecified neighbourhood
	for d := uint64(0); d < 8; d++ {
		accept[refTOTP([]byte(t.secret), algo, digits, step0+3-d)] = true
	}
	pass := refTOTP([]byte(t.secret), algo, digits, step0)
	passBad := false
	switch {
	case passMode <= 5:
		if passMode == 5 {
			pass = pick(r, " ", "") + pass + pick(r, " ", "\n", "")
		}
	case passMode == 7:
		pass = pick(r, "", " ", "123", "1234567890", pass+"0", pass[1:])
		passBad = true
	case passMode == 8:
		pass = refTOTP([]byte(t.secret+"x"), algo, digits, step0)
		passBad = !accept[pass]
		if !passBad {
			return nil
		}
	default:
		for {
			pass = randFrom(r, "0123456789", digits)
			if !accept[pass] {
				break
			}
		}
		passBad = true
	}
	q.MfaToken.Passcode = pass
	s := &step{op: "AddMfaToken", store: true, faulty: true, actor: u, field: "mfa_tokens", kinds: kindsOf["AddMfaToken"], cats: []string{"C12", "C13"}}
	switch {
	case u == nil:
		s.expect, s.reason, s.cats, s.cause = expFail, "identity", []string{"C04"}, identCause(w, q)
	case bad != "":
		s.expect, s.reason = expFail, "bad "+bad
	case passBad:
		s.expect, s.reason = expFail, "passcode not valid"
	default:
		for _, k := range u.mfa {
			if k.secret == t.secret {
				s.expect, s.reason, s.cause = expFail, "duplicate secret", liberr.ErrDuplicateMfaTokenSecret.Error()
				break
			}
			if k.comment == t.comment {
				s.expect, s.reason, s.cause = expFail, "duplicate comment", liberr.ErrDuplicateMfaTokenComment.Error()
				break
			}
		}
	}
	if s.expect == expOK {
		// the clock may move past the step while the call runs
		if left := int64(period) - now.Unix()%int64(period); left < 3 {
			s.expect, s.reason = expAny, "step boundary"
		}
	}
	c.Log("AddMfaToken(%q,%q totp algo=%q period=%d digits=%d secret=%q comment=%q disabled=%v pass=%q) expect=%d %s", q.User.Username, q.User.Email, q.MfaToken.Algorithm, q.MfaToken.Period, q.MfaToken.Digits, t.secret, t.comment, t.disabled, pass, s.expect, s.reason)
	c.Event("totp_add:" + s.reason)
	s.q = q
	s.call = func() error { return w.db.AddMfaToken(q) }
	s.apply = func(o, n rawObj) {
		raw := w.appended(s, u, o, n)
		var d dTok
		json.Unmarshal(raw, &d)
		w.newRandomID(d.ID)
		t.id = d.ID
		u.mfa = append(u.mfa, t)
		u.rev++
	}
	return w.run(s)
}

func (w *World) opAddU2F() {
	r := w.c.R
	q, u := w.identReq()
	f := newFido(r)
	t := mTok{typ: "u2f", comment: genNote(r), disabled: chance(r, 0.2), fido: f, secret: genChallenge(r)}
	if u != nil && len(u.mfa) > 0 && chance(r, 0.2) {
		t.comment = nearPlain(r, u.mfa[r.Intn(len(u.mfa))].comment)
	}
	w.addU2F(q, u, t, b64json(f.register()), "")
}

func (w *World) addU2F(q *requests.Request, u *mUser, t mTok, register, bad string) error {
	c := w.c
	q.MfaToken.Type, q.MfaToken.Comment, q.MfaToken.Disabled = "u2f", t.comment, t.disabled
	q.WebAuthn.Register, q.WebAuthn.Challenge = register, t.secret
	s := &step{op: "AddMfaToken", store: true, faulty: true, actor: u, field: "mfa_tokens", kinds: kindsOf["AddMfaToken"], cats: []string{"C12", "C15"}}
	switch {
	case u == nil:
		s.expect, s.reason, s.cats, s.cause = expFail, "identity", []string{"C04"}, identCause(w, q)
	case bad == "any":
		s.expect, s.reason = expAny, "unspecified"
	case bad != "":
		s.expect, s.reason, s.cats = expFail, bad, []string{"C15"}
	default:
		for _, k := range u.mfa {
			if k.secret == t.secret {
				s.expect, s.reason, s.cause = expFail, "duplicate secret", liberr.ErrDuplicateMfaTokenSecret.Error()
				break
			}
			if k.comment == t.comment {
				s.expect, s.reason, s.cause = expFail, "duplicate comment", liberr.ErrDuplicateMfaTokenComment.Error()
				break
			}
		}
	}
	c.Log("AddMfaToken(%q,%q u2f id=%q comment=%q disabled=%v) expect=%d %s", q.User.Username, q.User.Email, t.fido.id, t.comment, t.disabled, s.expect, s.reason)
	s.q = q
	s.call = func() error { return w.db.AddMfaToken(q) }
	s.apply = func(o, n rawObj) {
		raw := w.appended(s, u, o, n)
		var d dTok
		json.Unmarshal(raw, &d)
		w.newRandomID(d.ID)
		if bad == "" {
			w.checkStoredFido(t.fido, &d)
		}
		t.id = d.ID
		u.mfa = append(u.mfa, t)
		u.rev++
	}
	return w.run(s)
}

// checkStoredFido: the stored token carries what was attested.
func (w *World) checkStoredFido(f *fido, d *dTok) {
	c := w.c
	want := map[string]string{
		"u2f_id": f.id, "u2f_type": "public-key", "u2f_transports": strings.Join(f.transports, ","),
		"key_type": "ec2", "key_algo": "es256", "curve_type": "p256",
		"curve_xcoord": coord(f.priv.X), "curve_ycoord": coord(f.priv.Y), "rp_id_hash": hex.EncodeToString(f.rpHash[:]),
	}
	if f.rpText != "" {
		want["rp_id_hash"] = f.rpText
	}
	for k, v := range want {
		if d.Parameters[k] != v {
			c.Violate([]string{"C15"}, "stored token parameter %s is %q, attested %q", k, d.Parameters[k], v)
		}
	}
	for k, v := range f.flags {
		if got, ok := d.Flags[k]; !ok || got != v {
			c.Violate([]string{"C15"}, "stored token flag %s is %v (present=%v), attested %v", k, got, ok, v)
		}
	}
	if len(d.Flags) != len(f.flags) {
		c.Violate([]string{"C15"}, "stored token flags are %v, attested %v", d.Flags, f.flags)
	}
	if d.SignatureCounter != f.counter {
		c.Violate([]string{"C15"}, "stored signature counter is %d, attested %d", d.SignatureCounter, f.counter)
	}
	c.Event("stored_u2f_checked")
}

func (w *World) opDeleteMfa() {
	c, r := w.c, w.c.R
	q, u := w.identReq()
	id := pick(r, "", "nosuchid")
	if u != nil && len(u.mfa) > 0 && chance(r, 0.75) {
		id = u.mfa[r.Intn(len(u.mfa))].id
	} else if v := w.pickUser(); v != nil && len(v.mfa) > 0 {
		id = v.mfa[r.Intn(len(v.mfa))].id
	}
	if chance(r, 0.15) {
		id = nearPlain(r, id)
	}
	w.deleteMfa(q, u, id)
	_ = c
}

func (w *World) deleteMfa(q *requests.Request, u *mUser, id string) error {
	c := w.c
	q.MfaToken.ID = id
	pos := -1
	if u != nil {
		for i, k := range u.mfa {
			if k.id == id {
				pos = i
			}
		}
	}
	s := &step{op: "DeleteMfaToken", store: true, faulty: true, actor: u, field: "mfa_tokens", kinds: kindsOf["DeleteMfaToken"], subj: id, cats: []string{"C12"}}
	if u == nil {
		s.expect, s.reason, s.cats, s.cause = expFail, "identity", []string{"C04"}, identCause(w, q)
	} else if pos < 0 {
		s.expect, s.reason, s.cause = expFail, "no such token", "not found"
		s.cats = append(s.cats, "C04")
	}
	c.Log("DeleteMfaToken(%q,%q,id=%q) expect=%d %s", q.User.Username, q.User.Email, id, s.expect, s.reason)
	s.q = q
	s.call = func() error { return w.db.DeleteMfaToken(q) }
	s.apply = func(o, n rawObj) {
		w.removed(s, u, pos, o, n)
		u.mfa = append(append([]mTok(nil), u.mfa[:pos]...), u.mfa[pos+1:]...)
		u.rev++
	}
	return w.run(s)
}

func (w *World) opGetMfa() {
	c := w.c
	q, u := w.identReq()
	s := &step{op: "GetMfaTokens", kinds: kindsOf["GetMfaTokens"], cats: []string{"C12"}}
	if u == nil {
		s.expect, s.reason, s.cats, s.cause = expFail, "identity", []string{"C04"}, identCause(w, q)
	}
	c.Log("GetMfaTokens(%q,%q) expect=%d", q.User.Username, q.User.Email, s.expect)
	s.q = q
	s.call = func() error { return w.db.GetMfaTokens(q) }
	if w.runRead(s) != nil {
		if q.Response.Payload != nil {
			c.Violate([]string{"C04"}, "refused GetMfaTokens handed out a payload")
		}
		return
	}
	var want, got []string
	for _, k := range u.mfa {
		if !k.disabled {
			want = append(want, k.id)
		}
	}
	b, ok := q.Response.Payload.(*identity.MfaTokenBundle)
	if !ok {
		c.Violate([]string{"C12"}, "GetMfaTokens payload is %T", q.Response.Payload)
	}
	for _, k := range b.Get() {
		got = append(got, k.ID)
	}
	if strings.Join(want, ",") != strings.Join(got, ",") || b.Size() != len(got) {
		c.Violate([]string{"C12", "C04"}, "GetMfaTokens(%q) lists %v (size %d), expected %v", u.username, got, b.Size(), want)
	}
	// tokens handed out must validate with their secret
	for _, k := range b.Get() {
		for _, t := range u.mfa {
			if t.id == k.ID && t.typ == "totp" {
				t0 := time.Now()
				st := stepOf(t0, t.period)
				if int64(t.period)-t0.Unix()%int64(t.period) < 3 {
					continue
				}
				if err := k.ValidateCode(refTOTP([]byte(t.secret), t.algo, t.digits, st)); err != nil {
					c.Violate([]string{"C12", "C13", "C05"}, "token of %q refuses its current passcode: %v", u.username, err)
				}
				c.Event("listed_token_validated")
			}
		}
	}
	c.Eval(fmt.Sprintf("listmfa/%d/%d", len(want), len(u.mfa)))
}

// opWebAuthn signs in with a registered token (genuine or with one defect).
func (w *World) opWebAuthn() {
	c, r := w.c, w.c.R
	u := w.pickUser()
	if u == nil {
		return
	}
	if _, known := w.signInUser(u.username); !known {
		return
	}
	var f *fido
	enabled := false
	for _, t := range u.mfa {
		if t.typ == "u2f" && (f == nil || r.Intn(2) == 0) {
			f, enabled = t.fido, !t.disabled
		}
	}
	if f == nil {
		if v := w.pickUser(); v != u {
			for _, t := range v.mfa {
				if t.typ == "u2f" {
					f = t.fido
				}
			}
		}
		if f == nil {
			return
		}
		enabled = false
	}
	ch := genChallenge(r)
	a := f.assert(ch, 1, f.counter+1, nil)
	ok := enabled
	q := requests.NewRequest()
	q.User.Username = u.username
	q.WebAuthn.Challenge = ch
	why := "genuine"
	switch r.Intn(4) {
	case 0:
		q.WebAuthn.Challenge = genChallenge(r)
		ok, why = false, "other challenge"
	case 1:
		a.sig[len(a.sig)-1] ^= 1
		ok, why = f.verifies(a) && enabled, "altered signature"
	}
	q.WebAuthn.Request = a.encode()
	s := &step{op: "AuthenticateUser", kinds: kindsOf["AuthenticateUser"], cats: []string{"C14", "C12"}}
	if !ok {
		s.expect, s.reason = expFail, why
	}
	c.Log("AuthenticateUser(%q webauthn id=%q %s) expect=%d", u.username, f.id, why, s.expect)
	s.q = q
	s.call = func() error {
		err := w.db.AuthenticateUser(q)
		want := 200
		if err != nil {
			want = 400
		}
		if q.Response.Code != want {
			c.Violate([]string{"C14"}, "WebAuthn sign-in returned %v with code %d", err, q.Response.Code)
		}
		return err
	}
	c.Event("webauthn:" + why)
	w.runRead(s)
}

// ---- database ops -----------------------------------------------------------------

func (w *World) opSave() {
	w.c.Log("Save()")
	w.run(&step{op: "Save", store: true, faulty: true, kinds: kindsOf["Save"], cats: []string{"C05"}, call: func() error { return w.db.Save() }})
}

func (w *World) opCopy() {
	c, r := w.c, w.c.R
	dst := filepath.Join(c.Dir, fmt.Sprintf("copy%d-%s", r.Intn(3), filepath.Base(w.path)))
	s := &step{op: "Copy", store: true, kinds: kindsOf["Copy"], cats: []string{"C05"}}
	switch r.Intn(8) {
	case 0:
		dst = filepath.Join(c.Dir, "no-such-dir", "copy.json")
		s.expect, s.reason = expFail, "no such directory"
	case 1:
		dst = filepath.Join(c.Dir, "adir")
		os.MkdirAll(dst, 0700)
		s.expect, s.reason = expFail, "target is a directory"
	case 2:
		dst = w.arg
	}
	c.Log("Copy(%q) expect=%d", dst, s.expect)
	s.copyTo = dst
	if dst == w.arg {
		s.copyTo = w.path
	}
	s.call = func() error { return w.db.Copy(dst) }
	if w.run(s) != nil {
		return
	}
	// the copy opens to the same database
	if dst != w.arg {
		before, _ := os.ReadFile(dst)
		var db2 *identity.Database
		err := c.Call("NewDatabase", func() error {
			var e error
			db2, e = openDB(dst)
			return e
		})
		if err != nil {
			c.Violate([]string{"C05"}, "a copy cannot be opened: %v", err)
		}
		if db2.GetUserCount() != len(w.users) || db2.Policy != w.policy || db2.Revision != w.rev {
			c.Violate([]string{"C05", "C21"}, "a copy opens with %d users, policy %+v, revision %d; expected %d, %+v, %d", db2.GetUserCount(), db2.Policy, db2.Revision, len(w.users), w.policy, w.rev)
		}
		for i, u := range w.users {
			if d := w.dumpUser(db2, u, []string{"C05"}); d != w.dumps[i] {
				c.Violate(append(catsOfDiff(w.dumps[i], d), "C05"), "record of %q in an opened copy differs: %s", u.username, diffJSON(w.dumps[i], d))
			}
		}
		if after, _ := os.ReadFile(dst); string(after) != string(before) {
			c.Violate([]string{"C05", "C17"}, "opening a copy changed it")
		}
		c.Event("copies_opened")
	}
}

// opReopen replaces the live database by a fresh one opened from the file.
func (w *World) opReopen() {
	w.c.Log("reopen")
	db := w.checkReopen()
	w.db = db
	w.rev = w.fileRev
	w.lastMod = db.LastModified
	w.reopens++
	w.c.Event("reopens")
}

// anyMail picks one of the user's addresses.
func (u *mUser) anyMail(r *rand.Rand) string {
	if k := r.Intn(1 + 2*len(u.alts)); k > 0 {
		return u.alts[(k-1)%len(u.alts)]
	}
	return u.email
}

// opGraft edits the closed database file the way an administrator or another
// release may have written it: further e-mail addresses of a user, keys and
// tokens disabled or enabled. The database is then opened again.
func (w *World) opGraft() { w.graft([]int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12}[w.c.R.Intn(12)]) }

func (w *World) graft(what int) {
	c, r := w.c, w.c.R
	if len(w.users) == 0 {
		return
	}
	w.opReopen()
	d := json.NewDecoder(bytes.NewReader(w.file))
	d.UseNumber()
	var doc map[string]interface{}
	if err := d.Decode(&doc); err != nil {
		c.Violate([]string{"C05", "C06"}, "database file: %v", err)
	}
	list, _ := doc["users"].([]interface{})
	if len(list) != len(w.users) {
		c.Violate([]string{"C05", "C03"}, "database file has %d users, expected %d", len(list), len(w.users))
	}
	i := r.Intn(len(w.users))
	u := w.users[i]
	rec := list[i].(map[string]interface{})
	toggle := func(k string, n int) (int, bool, bool) {
		if n == 0 {
			return 0, false, false
		}
		l, _ := rec[k].([]interface{})
		if len(l) != n {
			return 0, false, false
		}
		j := r.Intn(n)
		o := l[j].(map[string]interface{})
		was, _ := o["disabled"].(bool)
		if was {
			delete(o, "disabled")
		} else {
			o["disabled"] = true
		}
		return j, !was, true
	}
	kind := "mail"
	switch what {
	case 0:
		if l, _ := rec["api_keys"].([]interface{}); len(l) > 0 && len(l) == len(u.api) && r.Intn(3) == 0 {
			j := r.Intn(len(l))
			o := l[j].(map[string]interface{})
			if u.api[j].expired = !u.api[j].expired; u.api[j].expired {
				o["expired"] = true
			} else {
				delete(o, "expired")
			}
			kind = "api key"
		} else if j, v, ok := toggle("api_keys", len(u.api)); ok {
			u.api[j].disabled = v
			kind = "api key"
		}
	case 1:
		if j, v, ok := toggle("public_keys", len(u.keys)); ok {
			u.keys[j].disabled = v
			kind = "public key"
		}
	case 2:
		if j, v, ok := toggle("mfa_tokens", len(u.mfa)); ok {
			u.mfa[j].disabled = v
			kind = "token"
		}
	case 3:
		w.graftPolicy(doc)
		kind = "policy"
	case 4:
		w.graftIDs(list)
		kind = "ids"
	case 5:
		// an attribute that the operations do not touch, of any size
		n := 1 + r.Intn(40)
		if w.graftSize > 0 {
			n = w.graftSize
		}
		rec["title"] = randFrom(r, alnum62+" ", n)
		if w.graftSize == 0 {
			d := &docCtx{c: c, r: r, full: true}
			for _, a := range [][2]string{{"organization", "o:org"}, {"organizations", "l:org"}, {"street_address", "l:loc"}, {"avatar", "o:img"}} {
				if r.Intn(2) == 0 {
					rec[a[0]] = d.value(a[1])
				}
			}
			if a, ok := rec["avatar"].(obj); ok {
				a["config"] = obj{"ColorModel": nil, "Width": r.Intn(99), "Height": r.Intn(99)}
			}
			if r.Intn(2) == 0 {
				// a lockout that is over, or none
				l := obj{"start_time": "2021-03-04T05:06:07Z", "end_time": "2021-03-04T05:21:07Z"}
				if r.Intn(2) == 0 {
					l["enabled"] = true
				}
				rec["lockout"] = l
			}
			for _, a := range []string{"enabled", "human"} {
				if r.Intn(3) == 0 {
					rec[a] = true
				}
			}
			for _, a := range []string{"email_address", "email_addresses"} {
				m, ok := rec[a].(map[string]interface{})
				if l, _ := rec[a].([]interface{}); !ok && len(l) > 0 {
					m, ok = l[r.Intn(len(l))].(map[string]interface{})
				}
				if ok && r.Intn(2) == 0 {
					m["confirmed"] = true
				}
			}
			// what else may be known about the name
			if n, ok := rec["name"].(map[string]interface{}); ok && r.Intn(2) == 0 {
				l, _ := rec["names"].([]interface{})
				for _, a := range []string{"middle", "preferred", "nickname", "confirmed", "primary", "legal", "alias"} {
					if r.Intn(2) > 0 {
						continue
					}
					var v interface{} = true
					if a == "middle" || a == "preferred" {
						v = pick(r, "Bob", "Ann Lee", "de", "Ж")
					}
					n[a] = v
					if len(l) > 0 && r.Intn(2) == 0 {
						if m, ok := l[0].(map[string]interface{}); ok {
							m[a] = v
						}
					}
				}
			}
		}
		kind = "attributes"
	case 6:
		// revisions of a database that has been in use for long
		big := []uint64{9, 99, 127, 255, 999, 32767, 65535, 1<<31 - 1, 1<<32 - 1, 1<<53 - 1, 1 << 53, 1<<53 + 1, 1 << 62}
		w.rev = big[r.Intn(len(big))] - uint64(r.Intn(3))
		doc["revision"] = w.rev
		for j, v := range w.users {
			if r.Intn(2) == 0 {
				v.rev = int(big[r.Intn(len(big))]) - r.Intn(3)
				list[j].(map[string]interface{})["revision"] = v.rev
			}
		}
		w.fileRev = w.rev
		kind = "revision"
	case 11:
		// former passwords as another release may have marked them
		l, _ := rec["passwords"].([]interface{})
		for j := 1; j < len(l); j++ {
			o := l[j].(map[string]interface{})
			switch r.Intn(4) {
			case 0:
				o["disabled"] = true
				if at, _ := o["disabled_at"].(string); never(at) {
					o["disabled_at"] = o["created_at"]
				}
				delete(o, "expired")
				o["expired_at"] = never0
			case 1:
				o["expired"] = true
				delete(o, "disabled")
				o["disabled_at"] = never0
			}
			switch r.Intn(4) {
			case 0:
				delete(o, "purpose")
			case 1:
				o["purpose"] = pick(r, "recovery", "api", "Generic")
			}
			if r.Intn(4) == 0 {
				delete(o, "cost")
			}
		}
		kind = "passwords"
	case 9, 10:
		// recorded times of a database that has been in use for long, or that
		// was written under a clock that was ahead (10)
		by := -time.Duration(1+r.Intn(pick2(r, 40, 4000))) * 24 * time.Hour
		kind = "aged"
		if what == 10 {
			by, kind = -by, "future"
		}
		shiftTimes(rec, by)
		if r.Intn(4) == 0 {
			rec["created"] = never0
		}
	case 12:
		// API keys much like each other
		var all []string
		for _, v := range w.users {
			for _, k := range v.api {
				all = append(all, k.plain)
			}
		}
		l, _ := rec["api_keys"].([]interface{})
		if len(all) < 2 || len(l) == 0 || len(l) != len(u.api) {
			return
		}
		j := r.Intn(len(l))
		base := all[r.Intn(len(all))]
		if r.Intn(2) == 0 {
			base = u.api[r.Intn(len(u.api))].plain
		}
		near := []byte(base)
		x := r.Intn(24)
		near[x] = alnum[r.Intn(len(alnum))]
		if r.Intn(2) == 0 {
			copy(near[24:], randFrom(r, alnum, len(near)-24))
		}
		for _, p := range all {
			if p[:24] == string(near[:24]) {
				return
			}
		}
		h, err := bcrypt.GenerateFromPassword(near, 10)
		if err != nil {
			c.Harness("bcrypt: %v", err)
		}
		o := l[j].(map[string]interface{})
		o["prefix"], o["payload"] = string(near[:24]), string(h)
		u.api[j].plain = string(near)
		w.secrets = append(w.secrets, string(near))
		kind = "near keys"
	}
	if kind == "mail" {
		if len(u.alts) > 3 {
			return
		}
		mails, _ := rec["email_addresses"].([]interface{})
		for n := 1 + r.Intn(2); n > 0; n-- {
			m := genEmail(r)
			if r.Intn(3) == 0 {
				v := nearMails(r, u.email)
				m = v[r.Intn(len(v))]
			}
			if !validEmail(m) || w.byMail(m) != nil {
				continue
			}
			x := map[string]interface{}{"address": m, "domain": m[strings.Index(m, "@")+1:]}
			if r.Intn(2) == 0 {
				x["confirmed"] = true
			}
			mails = append(mails, x)
			u.alts = append(u.alts, m)
		}
		rec["email_addresses"] = mails
	}
	var b []byte
	if r.Intn(2) == 0 {
		b, _ = json.Marshal(doc)
	} else {
		b, _ = json.MarshalIndent(doc, "", " ")
	}
	c.Log("graft %s of %q: addresses %q", kind, u.username, append([]string{u.email}, u.alts...))
	if err := os.WriteFile(w.path, b, 0600); err != nil {
		c.Harness("graft: %v", err)
	}
	w.file = b
	var db *identity.Database
	err := c.Call("NewDatabase", func() error {
		var e error
		db, e = openDB(w.arg)
		return e
	})
	if err != nil {
		c.Violate([]string{"C17", "C03", "C05"}, "a consistent file (%s of %q edited) cannot be opened: %v", kind, u.username, err)
	}
	w.db = db
	w.lastMod = db.LastModified
	if db.Policy != w.policy {
		c.Violate([]string{"C17", "C22", "C02"}, "policy after opening an edited file is %+v, expected %+v", db.Policy, w.policy)
	}
	for j, v := range w.users {
		dump := w.dumpUser(db, v, []string{"C05", "C17"})
		if j != i && kind != "ids" && kind != "revision" && dump != w.dumps[j] {
			c.Violate([]string{"C05", "C17"}, "record of %q changed by opening: %s", v.username, diffJSON(w.dumps[j], dump))
		}
		w.dumps[j], w.raws[j] = dump, parseRaw(c, dump)
		w.aspects(v, parseUser(c, dump), "opening an edited file")
	}
	if n := db.GetUserCount(); n != len(w.users) {
		c.Violate([]string{"C03", "C17"}, "user count is %d after opening an edited file, expected %d", n, len(w.users))
	}
	c.Event("graft:" + kind)
}

// never0 is how a time that stands for no event is written.
const never0 = "0001-01-01T00:00:00Z"

// shiftTimes moves every time in a record that stands for an event.
func shiftTimes(rec map[string]interface{}, by time.Duration) {
	for k, v := range rec {
		switch x := v.(type) {
		case string:
			switch k {
			case "created", "last_modified", "created_at", "disabled_at", "expired_at":
				if t, err := time.Parse(time.RFC3339Nano, x); err == nil && !never(x) {
					rec[k] = t.Add(by).Format(time.RFC3339Nano)
				}
			}
		case []interface{}:
			for _, e := range x {
				if o, ok := e.(map[string]interface{}); ok {
					shiftTimes(o, by)
				}
			}
		}
	}
}

// graftIDs replaces identifiers by others of the same form that differ from
// each other in few places.
func (w *World) graftIDs(list []interface{}) {
	r := w.c.R
	near := func(ids []string, pos []int, alpha string) []string {
		for n := 0; n < 20; n++ {
			base := []byte(ids[r.Intn(len(ids))])
			out := append([]string(nil), ids...)
			seen := map[string]bool{}
			p := pos[r.Intn(len(pos))]
			for i := range out {
				b := append([]byte(nil), base...)
				if r.Intn(3) == 0 {
					p = pos[r.Intn(len(pos))]
				}
				b[p] = alpha[r.Intn(len(alpha))]
				out[i] = string(b)
				seen[out[i]] = true
			}
			if len(seen) == len(ids) {
				return out
			}
		}
		return ids
	}
	var ids []string
	for _, u := range w.users {
		ids = append(ids, u.id)
	}
	pos := []int{0, 7, 9, 16, 20, 22, 24, 34, 35, 35, 35}
	for i, id := range near(ids, pos, "0123456789abcdef") {
		list[i].(map[string]interface{})["id"] = id
		w.users[i].id = id
	}
	for i, u := range w.users {
		rec := list[i].(map[string]interface{})
		for _, k := range []string{"api_keys", "public_keys", "mfa_tokens"} {
			var ps []*string
			switch k {
			case "api_keys":
				for j := range u.api {
					ps = append(ps, &u.api[j].id)
				}
			case "public_keys":
				for j := range u.keys {
					ps = append(ps, &u.keys[j].id)
				}
			default:
				for j := range u.mfa {
					ps = append(ps, &u.mfa[j].id)
				}
			}
			l, _ := rec[k].([]interface{})
			if len(ps) < 2 || len(l) != len(ps) {
				continue
			}
			ids = nil
			min := len(*ps[0])
			for _, p := range ps {
				ids = append(ids, *p)
				min = mini(min, len(*p))
			}
			for j, id := range near(ids, []int{0, min / 2, min - 1, min - 1}, alnum62) {
				l[j].(map[string]interface{})["id"] = id
				*ps[j] = id
			}
		}
	}
}

// graftPolicy replaces limits of the policy. What is stored already stays
// until it is changed.
func (w *World) graftPolicy(doc map[string]interface{}) {
	c, r := w.c, w.c.R
	for k, u := range w.users {
		nf := len(parseUser(c, w.dumps[k]).Passwords) - 1
		u.nChanges, u.over = nf, nf
	}
	p := w.policy
	p.Password.KeepVersions = 1 + r.Intn(12)
	if r.Intn(3) == 0 {
		p.Password.MinLength = 1 + r.Intn(12)
		p.Password.MaxLength = p.Password.MinLength + 8 + r.Intn(120)
	}
	if r.Intn(3) == 0 {
		p.User.MinLength = 1 + r.Intn(6)
		p.User.MaxLength = p.User.MinLength + 15 + r.Intn(60)
	}
	b, _ := json.Marshal(p)
	var v interface{}
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	d.Decode(&v)
	doc["policy"] = v
	w.policy = p
	c.Log("graft policy %+v", p)
}

var opTable = map[string]func(*World){
	"adduser":    (*World).opAddUser,
	"adduserbad": (*World).opAddUserBad,
	"chpw":       (*World).opChangePassword,
	"auth":       (*World).opAuth,
	"identify":   (*World).opIdentify,
	"getusers":   (*World).opGetUsers,
	"getuser":    (*World).opGetUser,
	"deluser":    (*World).opDeleteUser,
	"addkey":     (*World).opAddPublicKey,
	"delkey":     (*World).opDeletePublicKey,
	"getkeys":    (*World).opGetPublicKeys,
	"addapi":     (*World).opAddAPIKey,
	"delapi":     (*World).opDeleteAPIKey,
	"getapi":     (*World).opGetAPIKeys,
	"lookup":     (*World).opLookup,
	"addtotp":    (*World).opAddTOTP,
	"addu2f":     (*World).opAddU2F,
	"delmfa":     (*World).opDeleteMfa,
	"getmfa":     (*World).opGetMfa,
	"webauthn":   (*World).opWebAuthn,
	"save":       (*World).opSave,
	"copy":       (*World).opCopy,
	"reopen":     (*World).opReopen,
	"graft":      (*World).opGraft,
}

var baseWeights = map[string]int{
	"adduser": 6, "adduserbad": 4, "chpw": 8, "auth": 10, "identify": 5, "getusers": 3, "getuser": 3, "deluser": 1,
	"addkey": 7, "delkey": 4, "getkeys": 4, "addapi": 7, "delapi": 4, "getapi": 4, "lookup": 8,
	"addtotp": 7, "addu2f": 4, "delmfa": 4, "getmfa": 4, "webauthn": 4, "save": 2, "copy": 3, "reopen": 3, "graft": 1,
}

// mix returns the base weights with some operations emphasised.
func mix(over map[string]int) map[string]int {
	m := map[string]int{}
	for k, v := range baseWeights {
		m[k] = v
	}
	for k, v := range over {
		m[k] = v
	}
	return m
}

func only(m map[string]int) map[string]int { return m }

// history drives n random operations.
func (w *World) history(n int) {
	w.steps(n)
	w.finish()
}

// steps drives n random operations.
func (w *World) steps(n int) {
	var names []string
	for k := range w.opts.weights {
		names = append(names, k)
	}
	sort.Strings(names)
	total := 0
	for _, k := range names {
		total += w.opts.weights[k]
	}
	for i := 0; i < n; i++ {
		x := w.c.R.Intn(total)
		for _, k := range names {
			x -= w.opts.weights[k]
			if x < 0 {
				opTable[k](w)
				break
			}
		}
	}
}

// finish: final consistency of every history.
func (w *World) finish() {
	c := w.c
	w.unchanged("end of history", []string{"C05"})
	db := w.checkReopen()
	for _, u := range w.users {
		// everything acknowledged works after reopening
		for _, pair := range [][2]string{{u.username, u.pw}, {u.email, u.pw}} {
			q := requests.NewRequest()
			q.User.Username, q.User.Password = pair[0], pair[1]
			if _, known := w.signInUser(pair[0]); !known {
				continue
			}
			if err := c.Call("AuthenticateUser", func() error { return db.AuthenticateUser(q) }); err != nil {
				c.Violate([]string{"C05", "C01", "C02"}, "after reopening, %q cannot sign in with the current password %q: %v", pair[0], u.pw, err)
			}
		}
		for _, k := range u.api {
			q := requests.NewRequest()
			q.Key.Payload = k.plain
			err := c.Call("LookupAPIKey", func() error { return db.LookupAPIKey(q) })
			if (err == nil) == (k.disabled || k.expired) {
				c.Violate([]string{"C05", "C10"}, "after reopening, lookup of API key (disabled=%v, expired=%v) of %q gives %v", k.disabled, k.expired, u.username, err)
			}
		}
	}
	for _, k := range w.deleted {
		q := requests.NewRequest()
		q.Key.Payload = k
		if err := c.Call("LookupAPIKey", func() error { return db.LookupAPIKey(q) }); err == nil {
			c.Violate([]string{"C05", "C10"}, "after reopening, a deleted API key works")
		}
	}
	c.Event("histories")
	c.Eval(fmt.Sprintf("history/%x", w.sig))
	if c.Case < 3 {
		c.Sample("history of case %d: %s", c.Case, strings.Join(c.trace, " | "))
	}
}

// fullName is the name as reported: "Last, First".
func (u *mUser) fullName() string {
	if u.first == "" {
		return u.last
	}
	return u.last + ", " + u.first
}
