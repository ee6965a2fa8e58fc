package main

import (
	"encoding/json"
	"fmt"
	"reflect"
	"strings"

	identity "github.com/greenpau/go-identity"
	"github.com/greenpau/go-identity/pkg/requests"
)

// C31. User objects without a database: every operation of a history is also
// applied to a copy of the user decoded from its stored record, and user
// objects are built and changed by their own methods against a model.

func init() {
	register(&Prop{ID: "C31", Level: "exploration",
		Rule:  "distinct (method, outcome, cause, size of the lists of the user) whose verdict and effect on a user object were compared with those of the database operation, or with a model of the object",
		Cases: n2(420, 5000), Run: runC31})
}

func runC31(c *Ctx) {
	if c.Case%3 == 2 {
		c.userAlone()
		return
	}
	w := newWorld(c, worldOpts{weights: mix(map[string]int{"graft": 6}), checkEvery: 25, mismatch: 0.05})
	m := &userMon{c: c, w: w}
	w.around = m.around
	w.seedUsers(2)
	w.steps(45)
	w.finish()
	c.Event("histories")
	if c.Case < 3 {
		c.Sample("%s", head(strings.Join(c.trace, " | "), 3000))
	}
}

func cats31(more ...string) []string { return append([]string{"C31"}, more...) }

func (c *Ctx) decodeUser(dump string) *identity.User {
	u := &identity.User{}
	if err := json.Unmarshal([]byte(dump), u); err != nil {
		c.Violate(cats31("C05"), "a user's record cannot be decoded: %v: %s", err, head(dump, 600))
	}
	return u
}

func (c *Ctx) encodeUser(u *identity.User) string {
	b, err := json.Marshal(u)
	if err != nil {
		c.Violate(cats31("C05"), "a user cannot be encoded: %v", err)
	}
	return string(b)
}

type userMon struct {
	c *Ctx
	w *World
}

// around applies the operation to the user alone as well.
func (m *userMon) around(s *step, call func() error) error {
	c, w, q := m.c, m.w, s.q
	skip := s.reason == "identity" || s.reason == "unknown user" || s.reason == "password length" || s.expect == expAny
	var u *mUser
	switch s.op {
	case "AuthenticateUser", "IdentifyUser":
		var known bool
		if u, known = w.signInUser(q.User.Username); !known {
			u = nil
		}
	case "LookupAPIKey":
		for _, v := range w.users {
			for _, k := range v.api {
				if len(q.Key.Payload) >= 72 && k.plain[:24] == q.Key.Payload[:24] {
					u = v
				}
			}
		}
	case "AddUser":
		return m.addUser(s, call)
	default:
		u = w.ident(q.User.Username, q.User.Email)
	}
	if u == nil || skip {
		return call()
	}
	idx := -1
	for i := range w.users {
		if w.users[i] == u {
			idx = i
		}
	}
	v := c.decodeUser(w.dumps[idx])
	dump := c.encodeUser(v)
	if d := diffJSON(w.dumps[idx], dump); d != "" {
		c.Violate(cats31("C26"), "decoded and encoded, the record of %q differs: %s", u.username, d)
	}
	q2 := *q
	q2.User.Roles = append([]string(nil), q.User.Roles...)
	err := call()
	if err != nil && strings.Contains(err.Error(), "commit") {
		return err // decided by the file system
	}
	var f func() error
	switch s.op {
	case "AuthenticateUser":
		f = func() error {
			if q2.User.Password == "" {
				return v.VerifyWebAuthnRequest(&q2)
			}
			return v.VerifyPassword(q2.User.Password)
		}
	case "LookupAPIKey":
		q2.Key.Prefix = q2.Key.Payload[:24]
		f = func() error { return v.LookupAPIKey(&q2) }
	case "AddPublicKey":
		f = func() error { return v.AddPublicKey(&q2) }
	case "DeletePublicKey":
		f = func() error { return v.DeletePublicKey(&q2) }
	case "AddAPIKey":
		q2.Key.Payload, q2.Key.Prefix = "a hash", "a prefix"
		f = func() error { return v.AddAPIKey(&q2) }
	case "DeleteAPIKey":
		f = func() error { return v.DeleteAPIKey(&q2) }
	case "AddMfaToken":
		f = func() error { return v.AddMfaToken(&q2) }
	case "DeleteMfaToken":
		f = func() error { return v.DeleteMfaToken(&q2) }
	case "ChangeUserPassword":
		f = func() error { return v.ChangePassword(&q2, w.policy.Password.KeepVersions) }
	case "IdentifyUser":
		if err == nil {
			m.claims(u, v, q, &q2)
		}
		return err
	case "GetUsers":
		if b, ok := q.Response.Payload.(*identity.UserMetadataBundle); ok && err == nil && len(b.Get()) > idx {
			if x, y := *b.Get()[idx], *v.GetMetadata(); x != y {
				c.Violate(cats31("C24"), "the listing has %+v, the user alone %+v", x, y)
			}
			c.Eval("metadata")
		}
		return err
	default:
		return err
	}
	err2 := c.Call("User."+s.op, f)
	if s.op == "AddMfaToken" && (s.expect == expOK) != (err2 == nil) {
		return err // the passcode expired in between
	}
	if (err == nil) != (err2 == nil) {
		c.Violate(cats31(s.cats...), "%s (%s) gives %v in the database and %v on the user alone", s.op, s.reason, err, err2)
	}
	got := c.encodeUser(v)
	if err2 != nil || !s.store {
		if got != dump {
			c.Violate(cats31("C07"), "%s (error %v) changed a user object: %s", s.op, err2, diffJSON(dump, got))
		}
	} else if now := c.normalUser(w.dumpUser(w.db, u, []string{"C31"}), dump); now != c.normalUser(got, dump) {
		c.Violate(cats31(s.cats...), "%s leaves another record in the database than in the user alone: %s", s.op, diffJSON(now, c.normalUser(got, dump)))
	}
	c.Event("methods_compared")
	c.Eval(fmt.Sprintf("%s/%v/%s/%d/%d/%d/%d/%d", s.op, err == nil, s.reason, len(u.keys), len(u.api), len(u.mfa), mini(u.nChanges, 3), len(u.alts)))
	return err
}

// claims compares what a user alone reports with what the database reported.
func (m *userMon) claims(u *mUser, v *identity.User, q, q2 *requests.Request) {
	c := m.c
	if g := v.GetMailClaim(); g != q.User.Email {
		c.Violate(cats31("C24"), "e-mail claim of %q is %q, identification says %q", u.username, g, q.User.Email)
	}
	if g := v.GetNameClaim(); g != q.User.FullName || v.GetFullName() != g {
		c.Violate(cats31("C24"), "name claim of %q is %q (full name %q), identification says %q", u.username, g, v.GetFullName(), q.User.FullName)
	}
	roles := v.GetRolesClaim()
	if strings.Join(roles, "\n") != strings.Join(q.User.Roles, "\n") || len(roles) != len(q.User.Roles) {
		c.Violate(cats31("C24"), "roles claim of %q is %q, identification says %q", u.username, roles, q.User.Roles)
	}
	if g := v.GetChallenges(); !reflect.DeepEqual(g, q.User.Challenges) {
		c.Violate(cats31("C12"), "challenges of %q are %q, identification says %q", u.username, g, q.User.Challenges)
	}
	if q2.Flags.Enabled {
		v.GetFlags(q2)
		if q2.Flags != q.Flags {
			c.Violate(cats31("C12"), "flags of %q are %+v, identification says %+v", u.username, q2.Flags, q.Flags)
		}
	}
	if v.HasRoles() != (len(u.roles) > 0) {
		c.Violate(cats31(), "HasRoles of %q with roles %q is %v", u.username, u.roles, v.HasRoles())
	}
	has := map[string]bool{}
	for _, r := range u.roles {
		has[r] = true
	}
	for _, r := range append(append([]string{}, rolePool...), u.roles...) {
		if g := v.HasRole(r); g != has[r] {
			c.Violate(cats31(), "HasRole(%q) of %q with roles %q is %v", r, u.username, u.roles, g)
		}
	}
	if !v.HasEmailAddresses() {
		c.Violate(cats31(), "%q has no e-mail addresses", u.username)
	}
	if err := v.Valid(); err != nil {
		c.Violate(cats31("C17"), "%q is not valid: %v", u.username, err)
	}
	c.Event("claims_compared")
	c.Eval(fmt.Sprintf("claims/%d/%d/%v", len(u.roles), len(u.alts), q.Flags))
}

func (m *userMon) addUser(s *step, call func() error) error {
	c, w := m.c, m.w
	q := *s.q
	q.User.Roles = append([]string(nil), q.User.Roles...)
	err := call()
	switch s.reason {
	case "duplicate username", "duplicate e-mail", "username length", "password length":
		return err
	}
	if err != nil && strings.Contains(err.Error(), "commit") {
		return err
	}
	var v *identity.User
	err2 := c.Call("NewUserWithRoles", func() (e error) {
		v, e = identity.NewUserWithRoles(q.User.Username, q.User.Password, q.User.Email, q.User.FullName, q.User.Roles)
		return
	})
	if (err == nil) != (err2 == nil) {
		c.Violate(cats31(s.cats...), "AddUser (%s) gives %v, NewUserWithRoles %v", s.reason, err, err2)
	}
	if err == nil {
		g := requests.NewRequest()
		g.User.Username, g.User.Email = q.User.Username, q.User.Email
		if e := w.db.GetUser(g); e == nil {
			b, _ := json.Marshal(g.Response.Payload)
			x, y := c.normalUser(string(b), ""), c.normalUser(c.encodeUser(v), "")
			if x != y {
				c.Violate(cats31(s.cats...), "AddUser stored another record than NewUserWithRoles makes: %s", diffJSON(x, y))
			}
			c.Event("methods_compared")
		}
	}
	c.Eval(fmt.Sprintf("AddUser/%v/%s/%d", err == nil, s.reason, len(q.User.Roles)))
	return err
}

// normalUser leaves out what differs from one creation to the next: times,
// hashes, and IDs, prefixes and payloads of entries that old does not have.
func (c *Ctx) normalUser(dump, old string) string {
	var d map[string]interface{}
	json.Unmarshal([]byte(dump), &d)
	var walk func(x interface{})
	walk = func(x interface{}) {
		switch t := x.(type) {
		case map[string]interface{}:
			for _, k := range []string{"created", "last_modified", "created_at", "disabled_at", "expired_at"} {
				delete(t, k)
			}
			for _, y := range t {
				walk(y)
			}
		case []interface{}:
			for _, y := range t {
				walk(y)
			}
		}
	}
	walk(d)
	if old == "" {
		delete(d, "id")
	}
	for l, keys := range map[string][]string{"passwords": {"hash"}, "public_keys": {"id"}, "api_keys": {"id", "prefix", "payload"}, "mfa_tokens": {"id"}} {
		list, _ := d[l].([]interface{})
		for _, x := range list {
			e, _ := x.(map[string]interface{})
			if s, ok := e[keys[0]].(string); ok && (s == "" || !strings.Contains(old, `"`+s+`"`)) {
				for _, k := range keys {
					delete(e, k)
				}
			}
		}
	}
	b, _ := json.Marshal(d)
	return string(b)
}

// userAlone builds a user and changes it by its methods.
func (c *Ctx) userAlone() {
	r := c.R
	name, mail := genUsername(r, 1, 40), genEmail(r)
	pw := genPassword(r, 1, 40)
	full, first, last := genName(r)
	texts, roles := genRoles(r)
	var v *identity.User
	c.Log("NewUserWithRoles(%q,%q,%q,%q,%q)", name, pw, mail, full, texts)
	if err := c.Call("NewUserWithRoles", func() (e error) {
		v, e = identity.NewUserWithRoles(name, pw, mail, full, texts)
		return
	}); err != nil {
		c.Violate(cats31(), "NewUserWithRoles: %v", err)
	}
	names := []string{}
	if first+last != "" {
		names = append(names, last+", "+first)
	}
	primary := ""
	if len(names) > 0 {
		primary = names[0]
	}
	mails, former, rev := []string{mail}, []string{}, 0
	kept := 0 // former passwords still stored
	id := v.ID
	look := func(what string) {
		var d dUser
		dump := c.encodeUser(v)
		json.Unmarshal([]byte(dump), &d)
		bad := func(f string, a ...interface{}) {
			c.Violate(cats31(), "after %s %s", what, fmt.Sprintf(f, a...))
		}
		if d.ID != id || d.Username != name {
			bad("the user is %q (%s), it was %q (%s)", d.Username, d.ID, name, id)
		}
		if d.Revision != rev {
			bad("the revision is %d, expected %d", d.Revision, rev)
		}
		if d.EmailAddress == nil || d.EmailAddress.Address != mail || v.GetMailClaim() != mail {
			bad("the primary e-mail address is %+v, claimed as %q, expected %q", d.EmailAddress, v.GetMailClaim(), mail)
		}
		if len(d.EmailAddresses) != len(mails) {
			bad("there are %d e-mail addresses, expected %q", len(d.EmailAddresses), mails)
		}
		for i, m := range d.EmailAddresses {
			if m.Address != mails[i] || m.Domain != mails[i][strings.Index(mails[i], "@")+1:] {
				bad("e-mail address %d is %+v, expected %q", i, m, mails[i])
			}
		}
		if len(d.Roles) != len(roles) || strings.Join(v.GetRolesClaim(), "\n") != strings.Join(roles, "\n") {
			bad("the roles are %q, expected %q", v.GetRolesClaim(), roles)
		}
		if v.GetNameClaim() != primary || v.GetFullName() != primary || len(d.Names) != len(names) {
			bad("the name is %q of %+v, expected %q of %q", v.GetNameClaim(), d.Names, primary, names)
		}
		for i, n := range d.Names {
			if n.Last+", "+n.First != names[i] {
				bad("name %d is %+v, expected %q", i, n, names[i])
			}
		}
		if len(d.Passwords) != 1+kept {
			bad("%d passwords are stored, expected 1 and %d former ones", len(d.Passwords), kept)
		}
		for i, p := range d.Passwords {
			if p.Disabled != (i > 0) {
				bad("password %d is stored with disabled=%v", i, p.Disabled)
			}
		}
		if err := v.VerifyPassword(pw); err != nil {
			bad("the current password %q is refused: %v", pw, err)
		}
		if len(former) > 0 {
			if f := former[r.Intn(len(former))]; bcryptKey(f) != bcryptKey(pw) && v.VerifyPassword(f) == nil {
				bad("the former password %q is accepted", f)
			}
		}
		if md := v.GetMetadata(); md.Username != name || md.ID != id || md.Email != mail || md.Name != primary || md.Revision != rev {
			bad("the metadata is %+v", *md)
		}
		if err := v.Valid(); err != nil {
			bad("the user is not valid: %v", err)
		}
		if r.Intn(4) == 0 {
			v = c.decodeUser(dump)
			if again := c.encodeUser(v); again != dump {
				c.Violate(cats31("C26"), "encoded and decoded, the user differs: %s", diffJSON(dump, again))
			}
			c.Event("decoded_again")
		}
		c.Event("user_objects_checked")
		c.Eval(fmt.Sprintf("alone/%s/%d/%d/%d/%d", strings.Fields(what)[0], len(mails), len(roles), len(names), kept))
	}
	look("NewUserWithRoles")
	for i := 0; i < 25; i++ {
		what := ""
		must := func(err error, ok bool) {
			if (err == nil) != ok {
				c.Violate(cats31(), "%s gives %v", what, err)
			}
		}
		switch r.Intn(7) {
		case 0: // another address
			m := genEmail(r)
			if !validEmail(m) {
				continue
			}
			for _, x := range mails {
				if fold(x) == fold(m) {
					m = ""
				}
			}
			if m == "" {
				continue
			}
			what = fmt.Sprintf("AddEmailAddress(%q)", m)
			must(c.Call("AddEmailAddress", func() error { return v.AddEmailAddress(m) }), true)
			mails = append(mails, m)
			rev++
		case 1: // one it has, or an invalid one
			m := mails[r.Intn(len(mails))]
			ok := true
			if r.Intn(2) == 0 {
				m, ok = nearText(r, m)[0], false
				if validEmail(m) {
					continue
				}
			}
			what = fmt.Sprintf("AddEmailAddress(%q)", m)
			must(c.Call("AddEmailAddress", func() error { return v.AddEmailAddress(m) }), ok)
		case 2, 3: // roles
			var l []string
			many := r.Intn(2) == 0
			for k := 1 + r.Intn(3); k > 0; k-- {
				l = append(l, rolePool[r.Intn(len(rolePool))])
				if !many {
					break
				}
			}
			blankAt := -1
			if r.Intn(5) == 0 {
				l, blankAt = l[:1], 0
				l[0] = pick(r, "", " ", "\t\n")
			}
			what = fmt.Sprintf("AddRoles(%q)", l)
			must(c.Call("AddRoles", func() error {
				if many {
					return v.AddRoles(l)
				}
				return v.AddRole(l[0])
			}), blankAt < 0)
			if blankAt >= 0 {
				break
			}
			for _, x := range l {
				has := false
				for _, y := range roles {
					has = has || x == y
				}
				if !has {
					roles = append(roles, x)
					rev++
				}
			}
			for _, x := range rolePool {
				has := false
				for _, y := range roles {
					has = has || x == y
				}
				if v.HasRole(x) != has {
					c.Violate(cats31(), "after %s HasRole(%q) is %v; the roles are %q", what, x, v.HasRole(x), roles)
				}
			}
		case 4: // names
			t, f, l := genName(r)
			if f+l == "" {
				continue
			}
			if len(names) > 0 && r.Intn(3) == 0 {
				// a name that differs from one in place in letter case only
				x := names[r.Intn(len(names))]
				y := pick(r, strings.ToUpper(x), strings.ToLower(x))
				if p := strings.Split(y, ", "); len(p) == 2 && strings.Count(y, ",") == 1 && p[0] != "" && p[1] != "" && strings.TrimSpace(y) == y {
					t, l, f = y, p[0], p[1]
				}
			}
			n, err := identity.ParseName(strings.TrimSpace(t))
			if err != nil {
				c.Violate(cats31("C24"), "ParseName(%q): %v", t, err)
			}
			what = fmt.Sprintf("AddName(%q)", t)
			must(c.Call("AddName", func() error { return v.AddName(n) }), true)
			has := false
			for _, y := range names {
				has = has || y == l+", "+f
			}
			if !has {
				names = append(names, l+", "+f)
				if len(names) == 1 {
					primary = names[0]
				}
			}
			// whether a name counts as a revision is left open
			if x := v.GetMetadata().Revision; x == rev || x == rev+1 && !has {
				rev = x
			}
		case 5: // password
			keep := r.Intn(12)
			n := keep
			if n < 1 {
				n = 9
			}
			next := genPassword(r, 1, 60)
			what = fmt.Sprintf("AddPassword(%q,%d)", next, keep)
			if r.Intn(2) == 0 {
				q := requests.NewRequest()
				q.User.OldPassword, q.User.Password = pw, next
				if r.Intn(4) == 0 {
					q.User.OldPassword = pwVariants(r, pw)[0]
				}
				ok := q.User.OldPassword == pw
				if !ok && bcryptKey(q.User.OldPassword) == bcryptKey(pw) {
					continue
				}
				what = fmt.Sprintf("ChangePassword(%q,%q,%d)", q.User.OldPassword, next, keep)
				must(c.Call("ChangePassword", func() error { return v.ChangePassword(q, keep) }), ok)
				if !ok {
					break
				}
			} else {
				must(c.Call("AddPassword", func() error { return v.AddPassword(next, keep) }), true)
			}
			former = append(former, pw)
			pw = next
			if kept++; kept > n {
				kept = n
			}
			rev++
		case 6:
			blankpw := pick(r, "", " ", "\n")
			what = fmt.Sprintf("AddPassword(%q)", blankpw)
			must(c.Call("AddPassword", func() error { return v.AddPassword(blankpw, 0) }), false)
		}
		c.Log("%s", what)
		look(what)
	}
	c.Event("objects")
}
