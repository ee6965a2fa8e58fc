package main

import (
	"bytes"
	"encoding/json"
	stderrors "errors"
	"fmt"
	"os"
	"os/signal"
	"path/filepath"
	"regexp"
	"strings"
	"syscall"
	"time"
	"unicode/utf8"

	identity "github.com/greenpau/go-identity"
	liberr "github.com/greenpau/go-identity/pkg/errors"
	"github.com/greenpau/go-identity/pkg/requests"
	"golang.org/x/crypto/bcrypt"
)

// ---- model -----------------------------------------------------------------

type mKey struct {
	id       string
	canon    string // canonical identity of the key material
	usage    string
	disabled bool
}

type mAPI struct {
	id, plain, comment string
	disabled           bool
	expired            bool // by an edit of the file; still listed, no longer accepted
}

type mTok struct {
	id, typ, secret, comment string
	algo                     string
	period, digits           int
	disabled                 bool
	fido                     *fido
}

type mUser struct {
	id, username, email string
	first, last         string
	roles               []string
	pw                  string
	former              []string
	nChanges            int
	over                int      // former passwords kept under an earlier policy, until the next change
	alts                []string // further e-mail addresses
	rev                 int
	keys                []mKey
	api                 []mAPI
	mfa                 []mTok
}

// dumped forms, independent of the library's types
type dPw struct {
	Hash      string `json:"hash"`
	Algorithm string `json:"algorithm"`
	Cost      int    `json:"cost"`
	Disabled  bool   `json:"disabled"`
	Expired   bool   `json:"expired"`
}
type dKey struct {
	ID, Usage, Type, Fingerprint, Comment, Payload, OpenSSH string
	FingerprintMD5                                          string `json:"fingerprint_md5"`
	Disabled                                                bool
}
type dAPI struct {
	ID, Prefix, Usage, Comment, Payload string
	Disabled, Expired                   bool
}
type dTok struct {
	ID, Type, Algorithm, Comment, Secret string
	Period, Digits                       int
	Disabled                             bool
	Parameters                           map[string]string
	Flags                                map[string]bool
	SignatureCounter                     uint32 `json:"signature_counter"`
}
type dMail struct {
	Address, Domain string
	Confirmed       bool
}
type dName struct{ First, Last, Middle string }
type dRole struct{ Name, Organization string }
type dUser struct {
	ID             string
	Username       string
	Name           *dName
	Names          []dName
	EmailAddress   *dMail  `json:"email_address"`
	EmailAddresses []dMail `json:"email_addresses"`
	Passwords      []dPw
	PublicKeys     []dKey `json:"public_keys"`
	APIKeys        []dAPI `json:"api_keys"`
	MfaTokens      []dTok `json:"mfa_tokens"`
	Created        string
	LastModified   string `json:"last_modified"`
	Revision       int
	Roles          []dRole
}

type rawObj = map[string]json.RawMessage

type dFile struct {
	Version      string          `json:"version"`
	Policy       json.RawMessage `json:"policy"`
	Revision     uint64          `json:"revision"`
	LastModified string          `json:"last_modified"`
	Users        []json.RawMessage
}

// World couples a live database with its model.
type World struct {
	c        *Ctx
	db       *identity.Database
	arg      string // path as given to NewDatabase
	path     string // where the file is expected to be
	users    []*mUser
	policy   identity.Policy
	rev      uint64
	fileRev  uint64
	lastMod  time.Time
	dumps    []string
	raws     []rawObj
	file     []byte
	secrets  []string // plain passwords and API keys that must not leak
	reopens  int
	fails    int
	weights  map[string]int
	maxUsers int
	opts     worldOpts
	seq      int
	// hostile is set while inputs may contain anything (text checks relax)
	hostile bool
	// percent is set while inputs contain formatting directives
	percent bool
	// odd is set once stored text may look like formatting directives
	odd bool
	// keyPool remembers keys so that duplicates in other encodings are tried
	keyPool []keyMaterial
	// deleted are API keys that were deleted
	deleted   []string
	graftSize int // size of grafted attributes, if not small
	// before and after are called around operations and their faults
	before func()
	after  func(s *step, err error, fault string)
	// around replaces the call of an operation, again follows its evaluation
	around func(s *step, call func() error) error
	again  func(s *step, err error) error
	// force fixes the identity of the next requests
	force *[2]string
	// sig accumulates the operations of the history and their outcomes
	sig uint64
}

type worldOpts struct {
	policy     *identity.Policy // nil: default
	pathKind   string           // "", "nested", "relative", "symlink"
	weights    map[string]int
	faultProb  float64
	checkEvery int // fresh reopen check every n ops
	mismatch   float64
	file       string // name of the database file
}

var uuidRe = regexp.MustCompile(`^[0-9a-f]{8}-[0-9a-f]{4}-4[0-9a-f]{3}-[89ab][0-9a-f]{3}-[0-9a-f]{12}$`)
var verbRe = regexp.MustCompile(`%[vsdq]`)
var directive = regexp.MustCompile(`%[a-z]`)
var alnumRe = regexp.MustCompile(`^[A-Za-z0-9]+$`)

func canonJSON(b []byte) (string, error) {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	var v interface{}
	if err := d.Decode(&v); err != nil {
		return "", err
	}
	out, err := json.Marshal(v)
	return string(out), err
}

func effPolicy(p identity.Policy) identity.Policy {
	if p.Password.MinLength == 0 {
		p.Password.MinLength = 8
	}
	if p.Password.MaxLength == 0 {
		p.Password.MaxLength = 128
	}
	if p.Password.KeepVersions == 0 {
		p.Password.KeepVersions = 10
	}
	if p.User.MinLength == 0 {
		p.User.MinLength = 3
	}
	if p.User.MaxLength == 0 {
		p.User.MaxLength = 50
	}
	return p
}

func newWorld(c *Ctx, o worldOpts) *World {
	w := &World{c: c, opts: o, maxUsers: 5}
	if o.checkEvery == 0 {
		w.opts.checkEvery = 5
	}
	name := "db.json"
	if o.file != "" {
		name = o.file
	}
	switch o.pathKind {
	case "nested":
		w.path = filepath.Join(c.Dir, "a", "b c", "ü", name)
		w.arg = w.path
	case "relative":
		cwd, _ := os.Getwd()
		w.path = filepath.Join(c.Dir, "rel", name)
		rel, err := filepath.Rel(cwd, w.path)
		if err != nil {
			c.Harness("rel: %v", err)
		}
		w.arg = rel
	case "symlink":
		real := filepath.Join(c.Dir, "real")
		os.MkdirAll(real, 0700)
		w.path = filepath.Join(real, name)
		w.arg = filepath.Join(c.Dir, "link.json")
		os.Symlink(w.path, w.arg)
	case "home":
		hd := os.Getenv("HOME")
		w.arg = fmt.Sprintf("~/idp %d/%s", c.Case, name)
		w.path = filepath.Join(hd, fmt.Sprintf("idp %d", c.Case), name)
	case "bare":
		cwd, _ := os.Getwd()
		name = fmt.Sprintf("bare-%d.json", c.Case)
		os.Remove(filepath.Join(cwd, name))
		w.path = filepath.Join(cwd, name)
		w.arg = name
	default:
		w.path = filepath.Join(c.Dir, name)
		w.arg = w.path
	}
	expRev := uint64(1)
	if o.policy != nil || o.pathKind == "symlink" {
		p := identity.Policy{}
		if o.policy != nil {
			p = *o.policy
		}
		doc := map[string]interface{}{"policy": p}
		b, _ := json.Marshal(doc)
		os.MkdirAll(filepath.Dir(w.path), 0700)
		if err := os.WriteFile(w.path, b, 0600); err != nil {
			c.Harness("write policy: %v", err)
		}
		if effPolicy(p) == p {
			expRev = 0
		}
		w.policy = effPolicy(p)
	} else {
		w.policy = effPolicy(identity.Policy{})
	}
	c.Log("NewDatabase(%q) policy=%+v", w.arg, w.policy)
	var db *identity.Database
	err := c.Call("NewDatabase", func() error {
		var e error
		db, e = openDB(w.arg)
		return e
	})
	if err != nil {
		c.Violate([]string{"C17", "C05"}, "NewDatabase(%q) failed on a fresh path or policy-only file: %v", w.arg, err)
	}
	w.db = db
	w.rev = expRev
	w.fileRev = expRev
	if db.Revision != expRev {
		c.Violate([]string{"C21"}, "a newly created database has revision %d, expected %d", db.Revision, expRev)
	}
	if db.Policy != w.policy {
		c.Violate([]string{"C17", "C22", "C05"}, "policy after opening is %+v, expected %+v", db.Policy, w.policy)
	}
	w.lastMod = db.LastModified
	w.file, err = os.ReadFile(w.path)
	if err != nil {
		c.Violate([]string{"C05", "C06"}, "database file not at %q after NewDatabase(%q): %v", w.path, w.arg, err)
	}
	return w
}

// ---- lookups in the model ---------------------------------------------------

func (w *World) byName(s string) *mUser {
	for _, u := range w.users {
		if fold(u.username) == fold(s) {
			return u
		}
	}
	return nil
}

func (w *World) byMail(s string) *mUser {
	for _, u := range w.users {
		if fold(u.email) == fold(s) {
			return u
		}
		for _, a := range u.alts {
			if fold(a) == fold(s) {
				return u
			}
		}
	}
	return nil
}

// ident resolves a username/e-mail pair the way management operations must.
func (w *World) ident(name, mail string) *mUser {
	a, b := w.byName(name), w.byMail(mail)
	if a == nil || b == nil || a != b {
		return nil
	}
	return a
}

// signInUser resolves a sign-in identifier. known=false: outside the model
// (usernames with an at sign, a listed finding).
func (w *World) signInUser(s string) (u *mUser, known bool) {
	if strings.Contains(s, "@") {
		if u := w.byMail(s); u != nil {
			if v := w.byName(s); v != nil && v != u {
				return u, false
			}
			return u, true
		}
		return nil, w.byName(s) == nil
	}
	return w.byName(s), true
}

func (w *World) idx(u *mUser) int {
	for i, x := range w.users {
		if x == u {
			return i
		}
	}
	return -1
}

// ---- observing ---------------------------------------------------------------

func req(u *mUser) *requests.Request {
	r := requests.NewRequest()
	if u != nil {
		r.User.Username = u.username
		r.User.Email = u.email
	}
	return r
}

// dumpUser reads one user's record through the public API.
func (w *World) dumpUser(db *identity.Database, u *mUser, cats []string) string {
	r := req(u)
	err := w.c.Call("GetUser", func() error { return db.GetUser(r) })
	if err != nil {
		w.c.Violate(append([]string{"C03", "C04"}, cats...), "GetUser(%q,%q) failed: %v", u.username, u.email, err)
	}
	b, err := json.Marshal(r.Response.Payload)
	if err != nil || len(b) < 10 {
		w.c.Violate(append([]string{"C03", "C05"}, cats...), "GetUser(%q) payload %T is not a user: %v", u.username, r.Response.Payload, err)
	}
	if lu, ok := r.Response.Payload.(*identity.User); ok {
		if lu.Username != u.username {
			w.c.Violate(append([]string{"C03", "C05", "C24"}, cats...), "GetUser(%q) returned user %q", u.username, lu.Username)
		}
		if id := u.id; id != "" && lu.ID != id {
			w.c.Violate(append([]string{"C03"}, cats...), "user ID of %q changed from %s to %s", u.username, id, lu.ID)
		}
	}
	s, err := canonJSON(b)
	if err != nil {
		w.c.Harness("canon: %v", err)
	}
	w.c.Event("record_dumps")
	return s
}

func parseRaw(c *Ctx, s string) rawObj {
	m := rawObj{}
	if err := json.Unmarshal([]byte(s), &m); err != nil {
		c.Harness("parse dump: %v", err)
	}
	return m
}

func parseUser(c *Ctx, s string) *dUser {
	d := &dUser{}
	if err := json.Unmarshal([]byte(s), d); err != nil {
		c.Violate([]string{"C26", "C05"}, "user record does not decode: %v: %s", err, s)
	}
	return d
}

func rawList(c *Ctx, m rawObj, k string) []string {
	var l []json.RawMessage
	if b, ok := m[k]; ok {
		if err := json.Unmarshal(b, &l); err != nil {
			c.Violate([]string{"C26", "C05"}, "%s is not a list: %v", k, err)
		}
	}
	out := make([]string, len(l))
	for i, x := range l {
		out[i] = string(x)
	}
	return out
}

// parseFile reads and decodes a database file independently.
func (w *World) parseFile(b []byte, what string, cats []string) *dFile {
	f := &dFile{}
	if err := json.Unmarshal(b, f); err != nil {
		w.c.Violate(cats, "%s is not a complete JSON document (%d bytes): %v", what, len(b), err)
	}
	return f
}

// checkFileAgainst compares the stored document with the dumps.
func (w *World) checkFileAgainst(b []byte, what string, expRev uint64, cats []string) *dFile {
	f := w.parseFile(b, what, append([]string{"C05", "C06"}, cats...))
	if len(f.Users) != len(w.users) {
		w.c.Violate(append([]string{"C05", "C03"}, cats...), "%s holds %d users, the live database %d", what, len(f.Users), len(w.users))
	}
	for i, raw := range f.Users {
		s, err := canonJSON(raw)
		if err != nil {
			w.c.Harness("canon file user: %v", err)
		}
		if s != w.dumps[i] {
			w.c.Violate(append([]string{"C05"}, cats...), "%s: user %d (%s) differs from the live record: %s", what, i, w.users[i].username, diffJSON(w.dumps[i], s))
		}
	}
	var p identity.Policy
	if err := json.Unmarshal(f.Policy, &p); err != nil {
		w.c.Violate([]string{"C05", "C22"}, "%s: policy does not decode: %v", what, err)
	}
	if p != w.policy {
		w.c.Violate([]string{"C05", "C22"}, "%s: stored policy %+v, expected %+v", what, p, w.policy)
	}
	if f.Revision != expRev {
		w.c.Violate([]string{"C21", "C05"}, "%s: stored revision %d, expected %d", what, f.Revision, expRev)
	}
	w.c.Event("file_checks")
	return f
}

func diffJSON(a, b string) string {
	var x, y interface{}
	json.Unmarshal([]byte(a), &x)
	json.Unmarshal([]byte(b), &y)
	var out []string
	diffVal("", x, y, &out)
	if len(out) > 8 {
		out = append(out[:8], "...")
	}
	return strings.Join(out, "; ")
}

func diffVal(p string, a, b interface{}, out *[]string) {
	ma, ok1 := a.(map[string]interface{})
	mb, ok2 := b.(map[string]interface{})
	if ok1 && ok2 {
		for k := range ma {
			if _, ok := mb[k]; !ok {
				*out = append(*out, fmt.Sprintf("%s.%s missing (was %s)", p, k, short(ma[k])))
				continue
			}
			diffVal(p+"."+k, ma[k], mb[k], out)
		}
		for k := range mb {
			if _, ok := ma[k]; !ok {
				*out = append(*out, fmt.Sprintf("%s.%s added (%s)", p, k, short(mb[k])))
			}
		}
		return
	}
	la, ok1 := a.([]interface{})
	lb, ok2 := b.([]interface{})
	if ok1 && ok2 {
		if len(la) != len(lb) {
			*out = append(*out, fmt.Sprintf("%s length %d -> %d", p, len(la), len(lb)))
			return
		}
		for i := range la {
			diffVal(fmt.Sprintf("%s[%d]", p, i), la[i], lb[i], out)
		}
		return
	}
	sa, _ := json.Marshal(a)
	sb, _ := json.Marshal(b)
	if !bytes.Equal(sa, sb) {
		*out = append(*out, fmt.Sprintf("%s: %s -> %s", p, short(a), short(b)))
	}
}

func short(v interface{}) string {
	b, _ := json.Marshal(v)
	return head(string(b), 120)
}

// ---- the monitored step ------------------------------------------------------

const (
	expOK = iota
	expFail
	expAny
)

// step describes one monitored call.
type step struct {
	op     string
	store  bool   // successful call stores the database file
	actor  *mUser // whose record may change
	field  string // list that may change in the actor's record
	expect int
	reason string   // why failure is expected
	cats   []string // properties concerned by a wrong verdict
	kinds  []error  // documented kinds of its errors
	subj   string   // subject the error text must mention ("" = none)
	cause  string   // text of the cause ("" = any)
	call   func() error
	q      *requests.Request // of the call
	// apply updates the model after success; gets old and new raw record.
	apply             func(old, new rawObj)
	faulty            bool // allow fault injection around the call
	copyTo            string
	mainFileUnchanged bool
	fault             string // that was injected
}

func errText(e error) string {
	if e == nil {
		return "<nil>"
	}
	return e.Error()
}

// run executes and judges one step. It returns the call's error.
func (w *World) run(s *step) error {
	err := w.run1(s)
	if w.again != nil {
		return w.again(s, err)
	}
	return err
}

func (w *World) run1(s *step) error {
	c := w.c
	w.seq++
	fault := ""
	var undo func()
	if w.before != nil {
		w.before()
	}
	if s.faulty && s.store && w.opts.faultProb > 0 && chance(c.R, w.opts.faultProb) {
		fault, undo = w.injectFault()
	}
	err := func() error {
		if undo != nil {
			defer undo()
		}
		if w.around != nil && s.q != nil {
			return w.around(s, func() error { return c.Call(s.op, s.call) })
		}
		return c.Call(s.op, s.call)
	}()
	s.fault = fault
	if w.after != nil {
		w.after(s, err, fault)
	}
	c.Event("op:" + s.op)
	w.sign(s, err, fault)
	if err != nil {
		c.Event("op_err:" + s.op)
	}
	if fault != "" {
		c.Event("fault:" + strings.Fields(fault)[0])
		c.Log("   fault=%s -> %s", fault, errText(err))
		s.mainFileUnchanged = err != nil
		if err != nil {
			c.Event("op_err_fault:" + s.op)
		}
	} else {
		c.Log("   -> %s", head(errText(err), 200))
	}
	cats := append([]string(nil), s.cats...)
	if w.reopens > 0 {
		cats = append(cats, "C05")
	}
	if w.fails > 0 {
		cats = append(cats, "C07")
	}
	if fault == "" || s.expect == expFail {
		switch {
		case s.expect == expOK && err != nil:
			c.Violate(cats, "%s was refused although the request is valid: %v", s.op, err)
		case s.expect == expFail && err == nil:
			c.Violate(append(cats, "C25"), "%s succeeded although it must be refused (%s)", s.op, s.reason)
		}
	}
	if err != nil {
		w.fails++
		w.checkError(s, err, fault != "")
		w.afterFailure(s, cats, fault)
		return err
	}
	c.Eval(fmt.Sprintf("%s/ok/%d/%d/%s", s.op, len(w.users), w.reopens, fault))
	if !s.store {
		w.unchanged(s.op+" (success)", append(append([]string(nil), s.cats...), "C21", "C05"))
		return nil
	}
	w.afterStore(s, cats)
	return nil
}

// checkError: C25 and C18 oracles on every error.
func (w *World) checkError(s *step, err error, faulted bool) {
	c := w.c
	txt := err.Error()
	c.Event("errors_checked")
	c.Eval(fmt.Sprintf("%s/err/%s", s.op, s.reason))
	ok := len(s.kinds) == 0
	for _, k := range s.kinds {
		if stderrors.Is(err, k) {
			ok = true
		}
	}
	if !ok {
		c.Violate([]string{"C25"}, "error of %s is not of the documented kind: %T %q", s.op, err, txt)
	}
	if !w.hostile && !w.odd {
		if strings.Contains(txt, "%!") || (!w.percent && verbRe.MatchString(txt)) {
			c.Violate([]string{"C25"}, "error text of %s has unfilled or surplus parameters: %q", s.op, txt)
		}
	}
	if strings.TrimSpace(txt) == "" {
		c.Violate([]string{"C25"}, "error of %s has no text", s.op)
	}
	if s.subj != "" && !(faulted && s.expect != expFail) {
		q := fmt.Sprintf("%q", s.subj)
		if !strings.Contains(fold(txt), fold(s.subj)) && !strings.Contains(fold(txt), fold(q[1:len(q)-1])) {
			c.Violate([]string{"C25"}, "error text of %s does not state its subject %q: %q", s.op, s.subj, txt)
		}
	}
	if !w.hostile && !w.odd && s.subj != "" {
		// subject first, then the cause
		placed := false
		known := false
		for _, k := range s.kinds {
			e, ok := k.(liberr.StandardError)
			f := string(e)
			if !ok || !stderrors.Is(err, k) || len(directive.FindAllString(f, -1)) != 2 {
				continue
			}
			known = true
			at := directive.FindStringIndex(f)
			mid := f[at[1] : at[1]+directive.FindStringIndex(f[at[1]:])[0]]
			for _, x := range []string{s.subj, "", "ssh", "gpg", "api"} {
				if strings.HasPrefix(fold(txt), fold(f[:at[0]]+fmt.Sprintf(f[at[0]:at[1]], x)+mid)) {
					placed = true
				}
			}
		}
		if known && !placed {
			c.Violate([]string{"C25"}, "error text of %s does not name the subject %q before the cause: %q", s.op, s.subj, txt)
		}
	}
	if faulted && s.expect != expFail {
		if !strings.Contains(txt, "failed database commit") && !strings.Contains(txt, filepath.Base(w.arg)) {
			c.Violate([]string{"C25"}, "error text of %s does not state that the database could not be written: %q", s.op, txt)
		}
	} else if s.cause != "" && !strings.Contains(txt, s.cause) {
		c.Violate([]string{"C25"}, "error text of %s does not state the cause %q: %q", s.op, s.cause, txt)
	}
	w.noSecrets("error text of "+s.op, txt)
}

// noSecrets: C18 oracle on any text the library hands out or stores.
func (w *World) noSecrets(what, txt string) {
	if w.hostile || w.odd {
		return
	}
	for _, x := range w.secrets {
		if utf8.RuneCountInString(strings.TrimSpace(x)) >= 8 && strings.Contains(txt, x) {
			w.c.Violate([]string{"C18"}, "%s contains a secret in clear text (%q)", what, x)
		}
	}
	w.c.Event("secret_scans")
}

// unchanged checks the frame condition of reads and failed operations.
func (w *World) unchanged(what string, cats []string) {
	c := w.c
	if w.db.Revision != w.rev {
		c.Violate(append(cats, "C21"), "%s changed the live revision from %d to %d", what, w.rev, w.db.Revision)
	}
	if !w.db.LastModified.Equal(w.lastMod) {
		c.Violate(append(cats, "C21", "C30"), "%s changed the live modification time", what)
	}
	if n := w.db.GetUserCount(); n != len(w.users) {
		c.Violate(append(cats, "C03"), "%s: user count is %d, expected %d", what, n, len(w.users))
	}
	for i, u := range w.users {
		d := w.dumpUser(w.db, u, cats)
		if d != w.dumps[i] {
			c.Violate(append(cats, catsOfDiff(w.dumps[i], d)...), "%s changed the record of %q: %s", what, u.username, diffJSON(w.dumps[i], d))
		}
	}
	b, err := os.ReadFile(w.path)
	if err != nil {
		c.Violate(append(cats, "C06"), "%s: database file unreadable: %v", what, err)
	}
	if !bytes.Equal(b, w.file) {
		c.Violate(append(cats, "C05"), "%s changed the database file (%d -> %d bytes)", what, len(w.file), len(b))
	}
	if p := w.db.GetPath(); p != w.arg {
		c.Violate([]string{"C05"}, "%s: the database's path became %q (was %q)", what, p, w.arg)
	}
	c.Event("frame_checks")
}

func catsOfDiff(a, b string) []string {
	d := diffJSON(a, b)
	var out []string
	for k, v := range map[string]string{"passwords": "C02", "public_keys": "C11", "api_keys": "C10", "mfa_tokens": "C12", "revision": "C21", "roles": "C24", "name": "C24", "email": "C24", ".id": "C03", "created": "C30", "_modified": "C30", "ed_at": "C30"} {
		if strings.Contains(d, k) {
			out = append(out, v)
		}
	}
	return out
}

func (w *World) afterFailure(s *step, cats []string, fault string) {
	what := s.op + " (failed)"
	if fault != "" {
		what = s.op + " (failed, " + fault + ")"
	}
	base := []string{"C07"}
	if fault != "" {
		base = append(base, "C06")
	}
	base = append(base, s.cats...)
	w.unchanged(what, base)
}

func (w *World) afterStore(s *step, cats []string) {
	c := w.c
	w.rev++
	if w.db.Revision != w.rev {
		c.Violate([]string{"C21"}, "after a successful %s the live revision is %d, expected %d", s.op, w.db.Revision, w.rev)
	}
	if w.db.LastModified.Equal(w.lastMod) {
		c.Violate([]string{"C21", "C30"}, "a successful %s did not refresh the modification time", s.op)
	}
	w.lastMod = w.db.LastModified
	if p := w.db.GetPath(); p != w.arg {
		c.Violate([]string{"C05"}, "%s: the database's path became %q (was %q)", s.op, p, w.arg)
	}
	if s.op == "AddUser" {
		// the model's list was extended by apply later; dump existing first
	}
	for i, u := range w.users {
		d := w.dumpUser(w.db, u, cats)
		if u == s.actor && s.field != "" {
			old, nw := w.raws[i], parseRaw(c, d)
			w.frameActor(s, u, old, nw)
			w.dumps[i], w.raws[i] = d, nw
			if s.apply != nil {
				s.apply(old, nw)
			}
			continue
		}
		if d != w.dumps[i] {
			k := []string{"C04"}
			if s.actor == nil || u == s.actor {
				k = append(k, s.cats...)
				k = append(k, "C05")
			}
			c.Violate(append(k, catsOfDiff(w.dumps[i], d)...), "%s for %s changed the record of %q: %s", s.op, name(s.actor), u.username, diffJSON(w.dumps[i], d))
		}
	}
	if s.field == "" && s.apply != nil {
		s.apply(nil, nil)
	}
	if n := w.db.GetUserCount(); n != len(w.users) {
		c.Violate([]string{"C03"}, "after %s the user count is %d, expected %d", s.op, n, len(w.users))
	}
	b, err := os.ReadFile(w.path)
	if err != nil {
		c.Violate([]string{"C05", "C06"}, "after %s the database file is unreadable: %v", s.op, err)
	}
	if s.copyTo != "" {
		cb, err := os.ReadFile(s.copyTo)
		if err != nil {
			c.Violate([]string{"C05"}, "after a successful copy %q is unreadable: %v", s.copyTo, err)
		}
		w.checkFileAgainst(cb, "copy", w.rev, nil)
		w.noSecrets("copy", string(cb))
		w.checkMode(s.copyTo)
		if filepath.Clean(s.copyTo) != w.path && !bytes.Equal(b, w.file) {
			c.Violate([]string{"C05"}, "copying changed the database file itself")
		}
		if filepath.Clean(s.copyTo) == w.path {
			w.fileRev = w.rev
		}
	} else {
		w.fileRev = w.rev
	}
	f := w.checkFileAgainst(b, "database file after "+s.op, w.fileRev, nil)
	if w.fileRev == w.rev {
		t, err := time.Parse(time.RFC3339Nano, f.LastModified)
		if err != nil || !t.Equal(w.lastMod) {
			c.Violate([]string{"C21", "C05", "C30"}, "stored modification time %q differs from the live %v", f.LastModified, w.lastMod)
		}
	}
	w.noSecrets("database file", string(b))
	w.file = b
	for i, u := range w.users {
		w.aspects(u, parseUser(c, w.dumps[i]), s.op)
	}
	if w.seq%w.opts.checkEvery == 0 {
		w.checkReopen()
	}
}

func name(u *mUser) string {
	if u == nil {
		return "nobody"
	}
	return u.username
}

// frameActor checks that only the named list, revision and modification time
// of the acting user's record changed.
func (w *World) frameActor(s *step, u *mUser, old, nw rawObj) {
	for k, v := range old {
		if k == s.field || k == "revision" || k == "last_modified" {
			continue
		}
		if string(nw[k]) != string(v) {
			cats := []string{"C26", "C05", s.cats[0]}
			if k == "created" {
				cats = append(cats, "C30")
			}
			w.c.Violate(cats, "%s for %q changed the unrelated attribute %s: %s -> %s", s.op, u.username, k, head(string(v), 200), head(string(nw[k]), 200))
		}
	}
	for k := range nw {
		if _, ok := old[k]; !ok && k != s.field && k != "revision" && k != "last_modified" {
			w.c.Violate([]string{"C26", "C05", s.cats[0]}, "%s for %q added the unrelated attribute %s", s.op, u.username, k)
		}
	}
	if string(old["last_modified"]) == string(nw["last_modified"]) {
		cats := []string{"C21", "C30"}
		if string(old[s.field]) == string(nw[s.field]) {
			cats = append(cats, s.cats...) // nothing was done at all
		}
		w.c.Violate(cats, "%s for %q did not refresh the user's modification time", s.op, u.username)
	}
}

// appended checks that list field gained exactly one entry at its end and
// returns it.
func (w *World) appended(s *step, u *mUser, old, nw rawObj) json.RawMessage {
	a, b := rawList(w.c, old, s.field), rawList(w.c, nw, s.field)
	if len(b) != len(a)+1 {
		w.c.Violate(s.cats, "%s for %q: %s went from %d to %d entries", s.op, u.username, s.field, len(a), len(b))
	}
	for i := range a {
		if a[i] != b[i] {
			w.c.Violate(append([]string{"C26"}, s.cats...), "%s for %q altered entry %d of %s: %s", s.op, u.username, i, s.field, diffJSON(a[i], b[i]))
		}
	}
	return json.RawMessage(b[len(a)])
}

// removed checks that exactly entry k was removed.
func (w *World) removed(s *step, u *mUser, k int, old, nw rawObj) {
	a, b := rawList(w.c, old, s.field), rawList(w.c, nw, s.field)
	if len(b) != len(a)-1 {
		w.c.Violate(s.cats, "%s for %q: %s went from %d to %d entries", s.op, u.username, s.field, len(a), len(b))
	}
	exp := append(append([]string(nil), a[:k]...), a[k+1:]...)
	for i := range exp {
		if exp[i] != b[i] {
			w.c.Violate(s.cats, "%s for %q: entry %d of %s is not the expected one after deleting entry %d", s.op, u.username, i, s.field, k)
		}
	}
}

// aspects compares a dumped record with the model.
func (w *World) aspects(u *mUser, d *dUser, op string) {
	c := w.c
	if d.Username != u.username || d.ID != u.id {
		c.Violate([]string{"C03", "C05", "C24"}, "after %s: record of %q has username %q id %q (expected id %q)", op, u.username, d.Username, d.ID, u.id)
	}
	if d.Revision != u.rev {
		c.Violate([]string{"C21"}, "after %s: revision of user %q is %d, expected %d", op, u.username, d.Revision, u.rev)
	}
	if d.EmailAddress == nil || d.EmailAddress.Address != u.email || len(d.EmailAddresses) != 1+len(u.alts) || d.EmailAddresses[0].Address != u.email {
		c.Violate([]string{"C24", "C05"}, "after %s: e-mail of %q stored as %+v, expected %q", op, u.username, d.EmailAddresses, u.email)
	}
	for i, a := range u.alts {
		if d.EmailAddresses[i+1].Address != a {
			c.Violate([]string{"C05", "C24"}, "after %s: e-mail address %d of %q stored as %+v, expected %q", op, i+1, u.username, d.EmailAddresses[i+1], a)
		}
	}
	if dom := u.email[strings.Index(u.email, "@")+1:]; d.EmailAddresses[0].Domain != dom {
		c.Violate([]string{"C24"}, "after %s: domain of %q stored as %q", op, u.email, d.EmailAddresses[0].Domain)
	}
	if len(d.Roles) != len(u.roles) {
		c.Violate([]string{"C24"}, "after %s: %q has %d roles stored, expected %v", op, u.username, len(d.Roles), u.roles)
	}
	for i, r := range u.roles {
		got := d.Roles[i].Name
		if d.Roles[i].Organization != "" {
			got = d.Roles[i].Organization + "/" + got
		}
		if got != r {
			c.Violate([]string{"C24"}, "after %s: role %d of %q is %q, expected %q", op, i, u.username, got, r)
		}
	}
	// passwords
	keep := w.policy.Password.KeepVersions
	if keep < 1 {
		keep = 9
	}
	nf := len(d.Passwords) - 1
	if nf < 0 {
		c.Violate([]string{"C02", "C01"}, "after %s: %q has no password stored", op, u.username)
	}
	if nf > maxi(keep, u.over) {
		c.Violate([]string{"C02"}, "after %s: %d former passwords of %q are stored, the policy keeps %d", op, nf, u.username, keep)
	}
	if min := mini(u.nChanges, keep-1); nf < min {
		c.Violate([]string{"C02"}, "after %s: only %d former passwords of %q are stored after %d changes, the policy keeps %d", op, nf, u.username, u.nChanges, keep)
	}
	for i, p := range d.Passwords {
		if (i == 0) == (p.Disabled || p.Expired) {
			c.Violate([]string{"C02", "C01"}, "after %s: password %d of %d of %q has disabled=%v expired=%v", op, i, len(d.Passwords), u.username, p.Disabled, p.Expired)
		}
		if p.Algorithm != "bcrypt" {
			c.Violate([]string{"C18"}, "after %s: password of %q stored with algorithm %q", op, u.username, p.Algorithm)
		}
		w.checkHash("password of "+u.username, p.Hash)
	}
	// keys
	if len(d.PublicKeys) != len(u.keys) || len(d.APIKeys) != len(u.api) || len(d.MfaTokens) != len(u.mfa) {
		c.Violate([]string{"C10", "C11", "C12", "C05"}, "after %s: %q has %d/%d/%d public keys/API keys/tokens stored, expected %d/%d/%d", op, u.username, len(d.PublicKeys), len(d.APIKeys), len(d.MfaTokens), len(u.keys), len(u.api), len(u.mfa))
	}
	for i, k := range u.keys {
		if d.PublicKeys[i].ID != k.id || d.PublicKeys[i].Usage != k.usage || d.PublicKeys[i].Disabled != k.disabled {
			c.Violate([]string{"C11"}, "after %s: public key %d of %q is %s/%s/%v, expected %s/%s/%v", op, i, u.username, d.PublicKeys[i].ID, d.PublicKeys[i].Usage, d.PublicKeys[i].Disabled, k.id, k.usage, k.disabled)
		}
	}
	for i, k := range u.api {
		a := d.APIKeys[i]
		if a.ID != k.id || a.Disabled != k.disabled || a.Expired != k.expired || a.Comment != k.comment || a.Usage != "api" {
			c.Violate([]string{"C10"}, "after %s: API key %d of %q is %+v, expected id %s disabled=%v", op, i, u.username, a, k.id, k.disabled)
		}
		w.checkHash("API key of "+u.username, a.Payload)
	}
	for i, k := range u.mfa {
		t := d.MfaTokens[i]
		if t.ID != k.id || t.Disabled != k.disabled || t.Type != k.typ || t.Comment != k.comment || t.Secret != k.secret || t.Period != k.period || t.Digits != k.digits || t.Algorithm != k.algo {
			c.Violate([]string{"C12", "C15"}, "after %s: token %d of %q is %+v, expected %+v", op, i, u.username, t, k)
		}
	}
}

// checkHash: a stored secret must be a bcrypt hash of default cost or more.
func (w *World) checkHash(what, h string) {
	cost, err := bcrypt.Cost([]byte(h))
	if err != nil {
		w.c.Violate([]string{"C18"}, "%s is not stored as a bcrypt hash: %q (%v)", what, head(h, 20), err)
	}
	if cost < bcrypt.DefaultCost {
		w.c.Violate([]string{"C18"}, "%s is hashed with cost %d, below the default %d", what, cost, bcrypt.DefaultCost)
	}
}

func (w *World) checkMode(p string) {
	fi, err := os.Lstat(p)
	if err != nil {
		return
	}
	if fi.Mode().IsRegular() && fi.Mode().Perm()&0077 != 0 {
		w.c.Violate([]string{"C18"}, "%s has mode %v", filepath.Base(p), fi.Mode())
	}
	w.c.Event("mode_checks")
}

// checkReopen opens the file afresh and compares with the live database.
func (w *World) checkReopen() *identity.Database {
	c := w.c
	var db2 *identity.Database
	err := c.Call("NewDatabase", func() error {
		var e error
		db2, e = openDB(w.arg)
		return e
	})
	if err != nil {
		c.Violate([]string{"C05", "C17", "C03"}, "the database file cannot be opened again: %v", err)
	}
	c.Event("reopen_checks")
	b, err := os.ReadFile(w.path)
	if err != nil || !bytes.Equal(b, w.file) {
		c.Violate([]string{"C05", "C17", "C21"}, "opening the database changed its file")
	}
	if db2.Revision != w.fileRev {
		c.Violate([]string{"C21", "C05"}, "reopened database has revision %d, expected %d", db2.Revision, w.fileRev)
	}
	if db2.Policy != w.policy {
		c.Violate([]string{"C05", "C22"}, "reopened database has policy %+v, expected %+v", db2.Policy, w.policy)
	}
	if db2.GetUserCount() != len(w.users) {
		c.Violate([]string{"C05", "C03"}, "reopened database has %d users, expected %d", db2.GetUserCount(), len(w.users))
	}
	for i, u := range w.users {
		d := w.dumpUser(db2, u, []string{"C05"})
		if d != w.dumps[i] {
			c.Violate(append(catsOfDiff(w.dumps[i], d), "C05"), "reopened record of %q differs from the live one: %s", u.username, diffJSON(w.dumps[i], d))
		}
	}
	return db2
}

// ---- faults ------------------------------------------------------------------

func init() { signal.Ignore(syscall.SIGXFSZ) }

// injectFault makes the next store of the database fail (or be cut short).
func (w *World) injectFault() (string, func()) {
	c := w.c
	switch c.R.Intn(6) {
	case 0:
		// no (or only a few) more files can be opened
		f, err := os.Open("/dev/null")
		if err != nil {
			c.Harness("fault open: %v", err)
		}
		n := uint64(f.Fd()) + uint64(c.R.Intn(2))
		f.Close()
		setLimit(c, syscall.RLIMIT_NOFILE, n)
		return fmt.Sprintf("nofile %d", n), func() { setLimit(c, syscall.RLIMIT_NOFILE, ^uint64(0)) }
	case 1:
		if w.opts.pathKind == "bare" {
			break
		}
		// the directory is gone
		dir := filepath.Dir(w.path)
		if err := os.Rename(dir, dir+".gone"); err != nil {
			c.Harness("fault rename: %v", err)
		}
		return "noparent", func() {
			os.RemoveAll(dir)
			if err := os.Rename(dir+".gone", dir); err != nil {
				c.Harness("fault undo: %v", err)
			}
		}
	}
	if c.R.Intn(2) == 0 {
		// the file is replaced by a directory: it cannot be opened for writing
		bak := w.path + ".fault-bak"
		if err := os.Rename(w.path, bak); err != nil {
			c.Harness("fault rename: %v", err)
		}
		if err := os.Mkdir(w.path, 0700); err != nil {
			c.Harness("fault mkdir: %v", err)
		}
		return "dir", func() {
			os.RemoveAll(w.path)
			if err := os.Rename(bak, w.path); err != nil {
				c.Harness("fault undo: %v", err)
			}
		}
	}
	max := len(w.file) + 400
	k := c.R.Intn(max + 1)
	if c.R.Intn(3) == 0 {
		k = c.R.Intn(mini(64, max))
	}
	setFsize(c, uint64(k))
	return fmt.Sprintf("fsize %d", k), func() { setFsize(c, ^uint64(0)) }
}

func setFsize(c *Ctx, n uint64) {
	setLimit(c, syscall.RLIMIT_FSIZE, n)
}

func setLimit(c *Ctx, res int, n uint64) {
	var lim syscall.Rlimit
	if err := syscall.Getrlimit(res, &lim); err != nil {
		c.Harness("getrlimit: %v", err)
	}
	lim.Cur = n
	if lim.Cur > lim.Max {
		lim.Cur = lim.Max
	}
	if err := syscall.Setrlimit(res, &lim); err != nil {
		c.Harness("setrlimit: %v", err)
	}
}

var kindsOf = map[string][]error{
	"AddUser":            {liberr.ErrAddUser},
	"GetUsers":           {liberr.ErrGetUsers},
	"GetUser":            {liberr.ErrGetUsers, liberr.ErrGetUser},
	"DeleteUser":         {liberr.ErrDeleteUser},
	"AuthenticateUser":   {liberr.ErrAuthFailed},
	"AddPublicKey":       {liberr.ErrAddPublicKey},
	"GetPublicKeys":      {liberr.ErrGetPublicKeys},
	"DeletePublicKey":    {liberr.ErrDeletePublicKey},
	"AddAPIKey":          {liberr.ErrAddAPIKey},
	"GetAPIKeys":         {liberr.ErrGetAPIKeys},
	"DeleteAPIKey":       {liberr.ErrDeleteAPIKey},
	"LookupAPIKey":       {liberr.ErrLookupAPIKeyFailed, liberr.ErrLookupAPIKeyMalformedPayload, liberr.ErrLookupAPIKeyPayloadEmpty},
	"ChangeUserPassword": {liberr.ErrChangeUserPassword},
	"AddMfaToken":        {liberr.ErrAddMfaToken},
	"GetMfaTokens":       {liberr.ErrGetMfaTokens},
	"DeleteMfaToken":     {liberr.ErrDeleteMfaToken},
	"Save":               {liberr.ErrDatabaseCommit},
	"Copy":               {liberr.ErrDatabaseCommit},
}

// sign folds a step into the signature of the history.
func (w *World) sign(s *step, err error, fault string) {
	if fault != "" {
		fault = strings.Fields(fault)[0]
	}
	w.sig = hash64(fmt.Sprintf("%x/%s/%s/%v/%s/%d", w.sig, s.op, s.reason, err == nil, fault, w.idx(s.actor)))
}
