package main

import (
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"strings"

	identity "github.com/greenpau/go-identity"
	"github.com/greenpau/go-identity/pkg/requests"
)

// C29. Histories whose requests carry, besides the inputs of the operation,
// all sorts of other values, among them those of other users and of earlier
// results; the requests are compared before and after, issued again, and
// altered afterwards together with the answers.

func init() {
	register(&Prop{ID: "C29", Level: "exploration",
		Rule:  "distinct (operation, outcome, kind of request: with foreign values in every field that is no input / issued again after a fault, a refusal or a success / altered afterwards); the model, which knows the inputs only, judges every result, and a discrepancy counts if the same history with plain requests has none",
		Cases: n2(420, 5000), Run: runC29})
}

// inputs and outputs of the operations, by field of the request. Fields of the
// response count as outputs of every operation.
var reqInputs = map[string]string{
	"AddUser":            "User.Username User.Password User.Email User.FullName User.Roles",
	"ChangeUserPassword": "User.Username User.Email User.OldPassword User.Password",
	"AuthenticateUser":   "User.Username User.Password",
	"IdentifyUser":       "Flags.Enabled",
	"GetUsers":           "User.Username User.Email",
	"GetUser":            "User.Username User.Email",
	"DeleteUser":         "User.Username User.Email Query.ID",
	"AddPublicKey":       "User.Username User.Email Key.Usage Key.Payload Key.Comment Key.Disabled",
	"DeletePublicKey":    "User.Username User.Email Key.ID Key.Usage",
	"GetPublicKeys":      "User.Username User.Email Key.Usage",
	"AddAPIKey":          "User.Username User.Email Key.Usage Key.Comment Key.Disabled",
	"DeleteAPIKey":       "User.Username User.Email Key.ID Key.Usage",
	"GetAPIKeys":         "User.Username User.Email Key.Usage",
	"LookupAPIKey":       "Key.Payload",
	"AddMfaToken":        "User.Username User.Email MfaToken.Type MfaToken.Comment MfaToken.Disabled",
	"DeleteMfaToken":     "User.Username User.Email MfaToken.ID",
	"GetMfaTokens":       "User.Username User.Email",
}

var reqOutputs = map[string]string{
	"IdentifyUser": "User.Username User.Email User.FullName User.Roles User.Challenges Flags.MfaConfigured Flags.MfaApp Flags.MfaUniversal",
	"AddAPIKey":    "Key.Payload Key.Prefix",
	"DeleteAPIKey": "Key.Prefix",
	"LookupAPIKey": "Key.Prefix User.Username User.Email",
}

func words(s string) map[string]bool {
	m := map[string]bool{}
	for _, x := range strings.Fields(s) {
		m[x] = true
	}
	return m
}

// inputsOf gives the inputs and outputs of the operation.
func inputsOf(op string, q *requests.Request) (in, out map[string]bool) {
	in, out = words(reqInputs[op]), words(reqOutputs[op])
	add := func(s string) {
		for k := range words(s) {
			in[k] = true
		}
	}
	switch op {
	case "AuthenticateUser":
		if q.User.Password == "" {
			add("WebAuthn.Request WebAuthn.Challenge")
		}
	case "AddMfaToken":
		switch q.MfaToken.Type {
		case "totp":
			add("MfaToken.Secret MfaToken.Period MfaToken.Digits MfaToken.Passcode MfaToken.Algorithm")
			out["MfaToken.Algorithm"] = true // normalized
		case "u2f":
			add("WebAuthn.Register WebAuthn.Challenge")
		default:
			add("MfaToken.Secret MfaToken.Period MfaToken.Digits MfaToken.Passcode MfaToken.Algorithm WebAuthn.Register WebAuthn.Challenge")
		}
	case "IdentifyUser":
		in["User.Username"] = true
	}
	return
}

// leaves calls f for every field of a request.
func leaves(q *requests.Request, f func(path string, v reflect.Value)) {
	var walk func(p string, v reflect.Value)
	walk = func(p string, v reflect.Value) {
		if v.Kind() != reflect.Struct {
			f(p, v)
			return
		}
		for i := 0; i < v.NumField(); i++ {
			n := v.Type().Field(i)
			if n.PkgPath != "" {
				continue
			}
			walk(strings.TrimPrefix(p+"."+n.Name, "."), v.Field(i))
		}
	}
	walk("", reflect.ValueOf(q).Elem())
}

func copyLeaf(v reflect.Value) interface{} {
	if l, ok := v.Interface().([]string); ok && l != nil {
		return append([]string{}, l...)
	}
	return v.Interface()
}

type reqMon struct {
	c    *Ctx
	w    *World
	r    *rand.Rand
	last *requests.Request
	// strings in fields that are no inputs of the last call, its inputs, and
	// the records before it
	odd, ins []string
	dumps    string
}

// traces looks for what the fields that are no inputs held in what the call
// stored and answered.
func (m *reqMon) traces(s *step) {
	if s.q == nil || !s.store {
		return
	}
	now := strings.Join(m.w.dumps, "\n")
	pay, _ := s.q.Response.Payload.(string)
	for _, x := range m.odd {
		if len(x) < 8 || !isPlain(x) {
			continue
		}
		in := false
		for _, y := range m.ins {
			in = in || strings.Contains(y, x)
		}
		if in {
			continue
		}
		if strings.Contains(now, x) && !strings.Contains(m.dumps, x) {
			m.c.Violate([]string{"C29"}, "%s stored %q, which was in a field of the request that is no input", s.op, x)
		}
		if s.op == "AddAPIKey" && (strings.Contains(pay, x) || len(x) >= 24 && strings.Contains(pay, x[:24])) {
			m.c.Violate([]string{"C29"}, "%s issued %q, part of which, %q, was in a field of the request that is no input", s.op, pay, x)
		}
		m.c.EventN("foreign_values_traced", 1)
	}
}

func isPlain(s string) bool {
	for i := 0; i < len(s); i++ {
		if !isAlnum(s[i]) {
			return false
		}
	}
	return true
}

// foreign makes up a value for a field that is no input.
func (m *reqMon) foreign(path string, v reflect.Value, secretive bool) {
	r, w := m.r, m.w
	var u *mUser
	if len(w.users) > 0 {
		u = w.users[r.Intn(len(w.users))]
	}
	s := pick(r, randFrom(r, alnum62, 1+r.Intn(30)), docText(r), "x", "0", "true")
	if u != nil && r.Intn(4) > 0 {
		switch path {
		case "User.Username":
			s = u.username
		case "User.Email":
			s = u.email
		case "User.Password", "User.OldPassword":
			if !secretive {
				s = pick(r, u.pw, u.pw+"x", "")
			}
		case "User.FullName":
			s = "Other, Name"
		case "ID", "Query.ID", "Sandbox.ID":
			s = u.id
		case "Query.Name":
			s = u.username
		case "Key.ID", "MfaToken.ID":
			var ids []string
			for _, k := range u.keys {
				ids = append(ids, k.id)
			}
			for _, k := range u.api {
				ids = append(ids, k.id)
			}
			for _, k := range u.mfa {
				ids = append(ids, k.id)
			}
			if len(ids) > 0 {
				s = ids[r.Intn(len(ids))]
			}
		case "Key.Prefix", "Key.Payload":
			if r.Intn(3) == 0 {
				s = randFrom(r, alnum62, 72+r.Intn(24))
				if path == "Key.Prefix" {
					s = s[:24]
				}
			} else if len(u.api) > 0 && !secretive {
				if s = u.api[r.Intn(len(u.api))].plain; path == "Key.Prefix" {
					s = s[:24]
				}
			}
		case "Key.Usage":
			s = pick(r, "ssh", "gpg", "api", "")
		case "MfaToken.Type":
			s = pick(r, "totp", "u2f")
		case "MfaToken.Algorithm":
			s = pick(r, "sha1", "sha256", "md5", "SHA512")
		case "MfaToken.Comment", "Key.Comment":
			s = genComment(r)
		case "MfaToken.Secret", "WebAuthn.Challenge":
			if len(u.mfa) > 0 {
				s = u.mfa[r.Intn(len(u.mfa))].secret
			}
		}
	}
	switch v.Kind() {
	case reflect.String:
		v.SetString(s)
	case reflect.Bool:
		v.SetBool(r.Intn(4) > 0)
	case reflect.Int:
		v.SetInt(int64(r.Intn(200)))
	case reflect.Slice:
		if v.Type() == reflect.TypeOf([]string{}) {
			var l []string
			for i := 1 + r.Intn(3); i > 0; i-- {
				l = append(l, pick(r, "admin", "stale/role", s))
			}
			v.Set(reflect.ValueOf(l))
		}
	case reflect.Interface:
		switch r.Intn(7) {
		case 4:
			b := identity.NewUserMetadataBundle()
			b.Add(&identity.UserMetadata{ID: "stale", Username: "stale"})
			v.Set(reflect.ValueOf(b))
		case 5:
			b := identity.NewMfaTokenBundle()
			b.Add(&identity.MfaToken{ID: "stale"})
			v.Set(reflect.ValueOf(b))
		case 6:
			b := identity.NewAPIKeyBundle()
			b.Add(&identity.APIKey{ID: "stale"})
			v.Set(reflect.ValueOf(b))
		case 0:
			v.Set(reflect.ValueOf("an earlier payload"))
		case 1:
			v.Set(reflect.ValueOf(identity.NewAPIKeyBundle()))
		case 2:
			v.Set(reflect.ValueOf(identity.NewUser("stale")))
		default:
			b := identity.NewPublicKeyBundle()
			b.Add(&identity.PublicKey{ID: "stale"})
			v.Set(reflect.ValueOf(b))
		}
	}
}

// around fills the request before the call, and compares it after the call.
func (m *reqMon) around(s *step, call func() error) error {
	c, q := m.c, s.q
	if m.last != q {
		m.scramble()
	}
	in, out := inputsOf(s.op, q)
	orig, sent := map[string]interface{}{}, map[string]interface{}{}
	fill := m.r.Float64()
	if m.r.Intn(5) == 0 {
		fill = 1
	}
	secretive := s.op == "IdentifyUser" || s.op == "LookupAPIKey"
	n := 0
	m.odd, m.ins, m.dumps = nil, nil, strings.Join(m.w.dumps, "\n")
	leaves(q, func(p string, v reflect.Value) {
		orig[p] = copyLeaf(v)
		if !in[p] && m.r.Float64() < fill {
			m.foreign(p, v, secretive)
			n++
		}
		sent[p] = copyLeaf(v)
		if x, ok := sent[p].(string); ok && in[p] {
			m.ins = append(m.ins, x)
		} else if ok {
			m.odd = append(m.odd, x)
		}
	})
	c.EventN("foreign_values", int64(n))
	err := call()
	leaves(q, func(p string, v reflect.Value) {
		now := copyLeaf(v)
		if p == "MfaToken.Algorithm" && out[p] {
			if a, b := orig[p].(string), now.(string); a != b && b != strings.ToLower(a) && !(a == "" && b == "sha1") {
				c.Violate([]string{"C29"}, "%s (error %v) changed %s of its request from %q to %q", s.op, err, p, a, b)
			}
			return
		}
		same := reflect.DeepEqual(now, sent[p])
		if v.Kind() == reflect.Interface {
			same = now == sent[p]
		}
		if resp := strings.HasPrefix(p, "Response."); out[p] || resp {
			if same && (err != nil || resp) {
				v.Set(zeroOr(v, orig[p]))
			}
			return
		}
		if !same {
			what := "which is no input of it"
			if in[p] {
				what = "its input"
			}
			c.Violate([]string{"C29"}, "%s (error %v) changed %s of its request, %s, from %q to %q", s.op, err, p, what, fmt.Sprint(sent[p]), fmt.Sprint(now))
		}
		c.EventN("fields_compared", 1)
		if !in[p] {
			v.Set(zeroOr(v, orig[p]))
		}
	})
	m.last = q
	c.Eval(fmt.Sprintf("foreign/%s/%v/%d/%d", s.op, err == nil, len(m.w.users), n/8))
	return err
}

func zeroOr(v reflect.Value, x interface{}) reflect.Value {
	if x == nil {
		return reflect.Zero(v.Type())
	}
	return reflect.ValueOf(x)
}

// scramble alters the last request and what it was answered with.
func (m *reqMon) scramble() {
	q := m.last
	m.last = nil
	if q == nil {
		return
	}
	junk := func(l []string) {
		for i := range l {
			l[i] = "altered"
		}
	}
	switch p := q.Response.Payload.(type) {
	case *identity.UserMetadataBundle:
		for _, x := range p.Get() {
			y := identity.UserMetadata{ID: "altered", Username: "altered", Email: "altered@altered.example", Revision: -7}
			if m.r.Intn(2) == 0 { // some fields only
				y.ID, y.Revision, y.Created, y.LastModified = x.ID, x.Revision, x.Created, x.LastModified
			}
			*x = y
		}
	case *identity.User:
		p.Username, p.Title = "altered", "altered"
		if m.r.Intn(2) == 0 {
			p.ID, p.Revision = "altered", -7
		}
		p.Passwords, p.APIKeys, p.Roles, p.MfaTokens, p.EmailAddresses, p.PublicKeys = nil, nil, nil, nil, nil, nil
	case *identity.PublicKeyBundle:
		l := p.Get()
		for i := range l {
			l[i] = nil
		}
	case *identity.APIKeyBundle:
		l := p.Get()
		for i := range l {
			l[i] = nil
		}
	case *identity.MfaTokenBundle:
		l := p.Get()
		for i := range l {
			l[i] = nil
		}
	}
	junk(q.User.Roles)
	junk(q.User.Challenges)
	junk(q.Upstream.CookieNames)
	leaves(q, func(path string, v reflect.Value) {
		switch v.Kind() {
		case reflect.String:
			v.SetString("altered")
		case reflect.Int:
			v.SetInt(77)
		case reflect.Bool:
			v.SetBool(!v.Bool())
		}
	})
	m.c.Event("requests_altered_afterwards")
}

// again issues a request once more.
func (m *reqMon) again(s *step, err error) error {
	c := m.c
	if err == nil {
		m.traces(s)
	}
	if s.q == nil || s.reason == "issued again" || s.expect == expAny || m.r.Intn(3) > 0 {
		return err
	}
	t := *s
	t.reason, t.faulty, t.fault, t.mainFileUnchanged = "issued again", false, "", false
	t.cats = append([]string{"C29"}, s.cats...)
	kind := "refused"
	switch {
	case err != nil && s.fault != "" && s.expect == expOK:
		kind = "after a fault"
	case err != nil:
		if s.op == "AddMfaToken" {
			return err // may depend on the time
		}
	case !s.store:
		kind = "read"
		if s.op == "IdentifyUser" && s.q.User.Username == "nobody" {
			return err
		}
	default:
		kind = "done"
		switch s.op {
		case "ChangeUserPassword":
			if bcryptKey(s.q.User.OldPassword) == bcryptKey(s.q.User.Password) {
				return err
			}
		case "AddUser", "AddPublicKey", "DeletePublicKey", "DeleteAPIKey", "DeleteMfaToken", "AddMfaToken":
		default:
			return err
		}
		t.expect, t.cause, t.subj, t.apply, t.actor, t.field = expFail, "", "", nil, nil, ""
	}
	c.Log("   the same request again (%s)", kind)
	// the outputs of the first call are the caller's
	keep := *s.q
	err2 := m.w.run1(&t)
	if kind != "after a fault" {
		*s.q = keep
	}
	c.Event("issued_again:" + kind)
	c.Eval(fmt.Sprintf("again/%s/%s/%v/%d", s.op, kind, err2 == nil, len(m.w.users)))
	if kind == "after a fault" {
		return err2
	}
	return err
}

// history runs the history of the case with or without the monitor.
func (c *Ctx) requestHistory(variant int) *Ctx {
	dir := fmt.Sprintf("%s/v%d", c.Dir, variant)
	s := c.subCtx(subSeed(c.Seed, c.Case, variant/100), dir)
	os.MkdirAll(dir, 0700)
	s.guard(func() {
		o := worldOpts{weights: mix(nil), checkEvery: 25, faultProb: 0.12, mismatch: 0.12}
		if c.Case%3 == 1 {
			o.policy = genPolicy(s)
		}
		w := newWorld(s, o)
		m := &reqMon{c: s, w: w, r: rand.New(rand.NewSource(subSeed(c.Seed, c.Case, 1000000+variant)))}
		if variant == 0 {
			w.around, w.again = m.around, m.again
			w.after = func(*step, error, string) {}
		}
		w.seedUsers(2)
		w.steps(45)
		m.scramble()
		w.finish()
	})
	return s
}

func runC29(c *Ctx) {
	s := c.requestHistory(0)
	c.adopt(s)
	c.trace = s.trace
	if f := s.failed(); f != "" {
		cats := s.failedCats()
		for _, k := range cats {
			if k == "C29" && len(cats) == 1 {
				c.Violate([]string{"C29"}, "%s", f)
			}
		}
		// with plain requests
		for _, v := range []int{1, 2, 101, 202, 303, 404, 505, 606} {
			p := c.requestHistory(v)
			if g := p.failed(); g != "" {
				c.trace = p.trace
				c.Violate(without(p.failedCats(), "C29"), "with plain requests: %s", g)
			}
		}
		c.Violate([]string{"C29"}, "with requests that carry other values, are issued again and altered afterwards: %s; no discrepancy with plain requests", f)
	}
	c.Event("histories")
	if c.Case < 3 {
		c.Sample("%s", head(strings.Join(s.trace, " | "), 3000))
	}
}

func without(l []string, x string) (out []string) {
	for _, y := range l {
		if y != x && y != "*" {
			out = append(out, y)
		}
	}
	return
}
