package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/anishathalye/porcupine"
	identity "github.com/greenpau/go-identity"
	"github.com/greenpau/go-identity/pkg/requests"
)

// C08. Goroutines issue operations on one database; every call and return is
// recorded with a logical clock and the history is checked for
// linearizability against a sequential model of the whole database. Copies
// and records read by GetUser are outputs of the history: they must equal the
// model's state at the operation's linearization point, revision included.

func init() {
	register(&Prop{ID: "C08", Level: "exploration",
		Rule:  "2-6 goroutines issue 3-9 operations each (sign-ins, additions with colliding names and addresses, password changes from the same old password, key/API key/token additions and deletions of the same entries, listings, lookups, saves, copies), random and in bursts released together on one resource; the recorded call/return history with all results, copies' contents and the final file is checked with porcupine against a sequential model of the whole database",
		Cases: n2(1400, 24000), Run: runC08, Procs: 4,
		Assumptions: []string{"interleavings are those the Go scheduler produced at GOMAXPROCS 1-8, varied by yields"}})
}

// ---- sequential model -----------------------------------------------------------

type lEntry struct {
	name string // canonical key, API key comment or token comment
	sec  string // token secret, API key
	orig bool   // present before the concurrent phase
}

type lUser struct {
	name, mail, pw string
	npw, rev       int
	keys, api, mfa []lEntry
}

type lState struct {
	users []lUser
	rev   uint64
}

func (s *lState) clone() *lState {
	n := &lState{rev: s.rev, users: append([]lUser(nil), s.users...)}
	return n
}

func (s *lState) find(id string) int {
	for i := range s.users {
		if strings.Contains(id, "@") {
			if fold(s.users[i].mail) == fold(id) {
				return i
			}
		} else if fold(s.users[i].name) == fold(id) {
			return i
		}
	}
	return -1
}

func entryNames(l []lEntry) string {
	var out []string
	for _, e := range l {
		out = append(out, e.name)
	}
	return strings.Join(out, ",")
}

func (u *lUser) snap() string {
	return fmt.Sprintf("%s|%s|npw=%d|rev=%d|keys=%s|api=%s|mfa=%s", u.name, u.mail, u.npw, u.rev, entryNames(u.keys), entryNames(u.api), entryNames(u.mfa))
}

func (s *lState) snap() string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "rev=%d", s.rev)
	for i := range s.users {
		sb.WriteString("\n" + s.users[i].snap())
	}
	return sb.String()
}

func (s *lState) key() string {
	var sb strings.Builder
	sb.WriteString(s.snap())
	for i := range s.users {
		u := &s.users[i]
		sb.WriteString("\x00" + u.pw)
		for _, l := range [][]lEntry{u.keys, u.api, u.mfa} {
			for _, e := range l {
				fmt.Fprintf(&sb, "\x01%s/%v", e.sec, e.orig)
			}
		}
	}
	return sb.String()
}

type lIn struct {
	op               string
	user, mail       string // target
	a, b             string // operation-specific
	sec              string
	del              string
	gid              int
	origOnly, noUser bool
}

type lOut struct {
	ok   bool
	text string
}

func drop(l []lEntry, i int) []lEntry {
	return append(append([]lEntry(nil), l[:i]...), l[i+1:]...)
}

func add(l []lEntry, e lEntry) []lEntry {
	return append(append([]lEntry(nil), l...), e)
}

// lStep gives the state after the operation and whether its output fits.
// Entries and users are appended and added at most once, so those which are
// there in the end were added in their final order: fin prunes the search by
// this necessary condition.
func lStep(s *lState, fin *lState, in *lIn, out *lOut) (bool, *lState) {
	early := func(user, name string, l []lEntry, sel func(u *lUser) []lEntry) bool {
		i := fin.find(user)
		if i < 0 {
			return false
		}
		f := sel(&fin.users[i])
		for k := range f {
			if f[k].name != name {
				continue
			}
			have := map[string]bool{}
			for _, e := range l {
				have[e.name] = true
			}
			for _, e := range f[:k] {
				if !have[e.name] {
					return true
				}
			}
		}
		return false
	}
	at := func(f func(u *lUser) (bool, bool)) (bool, *lState) {
		i := s.find(in.user)
		if i < 0 || fold(s.users[i].mail) != fold(in.mail) {
			return !out.ok, s
		}
		n := s.clone()
		ok, store := f(&n.users[i])
		if ok != out.ok {
			return false, nil
		}
		if !ok {
			return true, s
		}
		if store {
			n.rev++
			n.users[i].rev++
		}
		return true, n
	}
	list := func(l []lEntry, all bool) (bool, *lState) {
		return out.ok && out.text == entryNames(l), s
	}
	switch in.op {
	case "adduser":
		fit := s.find(in.user) < 0 && s.find(in.mail) < 0
		if fit != out.ok {
			return false, nil
		}
		if !fit {
			return true, s
		}
		if i := fin.find(in.user); i >= 0 && i != len(s.users) {
			return false, nil
		}
		n := s.clone()
		n.users = append(n.users, lUser{name: in.user, mail: in.mail, pw: in.a, npw: 1})
		n.rev++
		return true, n
	case "auth":
		i := s.find(in.user)
		return out.ok == (i >= 0 && s.users[i].pw == in.a), s
	case "chpw":
		return at(func(u *lUser) (bool, bool) {
			if u.pw != in.a {
				return false, false
			}
			u.pw = in.b
			u.npw++
			return true, true
		})
	case "addkey":
		return at(func(u *lUser) (bool, bool) {
			for _, e := range u.keys {
				if e.name == in.a {
					return false, false
				}
			}
			if early(u.name, in.a, u.keys, func(u *lUser) []lEntry { return u.keys }) {
				return !out.ok, false
			}
			u.keys = add(u.keys, lEntry{name: in.a})
			return true, true
		})
	case "delkey", "delapi", "delmfa":
		return at(func(u *lUser) (bool, bool) {
			l := map[string]*[]lEntry{"delkey": &u.keys, "delapi": &u.api, "delmfa": &u.mfa}[in.op]
			for i, e := range *l {
				if e.name == in.a && (e.orig || !in.origOnly) {
					*l = drop(*l, i)
					return true, true
				}
			}
			return false, false
		})
	case "addapi":
		return at(func(u *lUser) (bool, bool) {
			if early(u.name, in.a, u.api, func(u *lUser) []lEntry { return u.api }) {
				return !out.ok, false
			}
			u.api = add(u.api, lEntry{name: in.a, sec: out.text})
			return true, true
		})
	case "lookup":
		for i := range s.users {
			for _, e := range s.users[i].api {
				if e.sec == in.a {
					return out.ok && out.text == s.users[i].name, s
				}
			}
		}
		return !out.ok, s
	case "addmfa":
		return at(func(u *lUser) (bool, bool) {
			for _, e := range u.mfa {
				if e.name == in.a || e.sec == in.sec {
					return false, false
				}
			}
			if early(u.name, in.a, u.mfa, func(u *lUser) []lEntry { return u.mfa }) {
				return !out.ok, false
			}
			u.mfa = add(u.mfa, lEntry{name: in.a, sec: in.sec})
			return true, true
		})
	case "listkeys", "listapi", "listmfa":
		i := s.find(in.user)
		if i < 0 || fold(s.users[i].mail) != fold(in.mail) {
			return !out.ok, s
		}
		u := &s.users[i]
		switch in.op {
		case "listkeys":
			return list(u.keys, true)
		case "listapi":
			return list(u.api, true)
		default:
			return list(u.mfa, true)
		}
	case "getuser":
		i := s.find(in.user)
		if i < 0 || fold(s.users[i].mail) != fold(in.mail) {
			return !out.ok, s
		}
		return out.ok && out.text == s.users[i].snap(), s
	case "users":
		i := s.find(in.user)
		if i < 0 || fold(s.users[i].mail) != fold(in.mail) {
			return !out.ok, s
		}
		var l []string
		for i := range s.users {
			l = append(l, s.users[i].name+"/"+fmt.Sprint(s.users[i].rev))
		}
		return out.ok && out.text == strings.Join(l, ","), s
	case "count":
		return out.text == fmt.Sprint(len(s.users)), s
	case "identify":
		i := s.find(in.user)
		if i < 0 {
			return out.text == "nobody/password", s
		}
		ch := "password"
		if len(s.users[i].mfa) > 0 {
			ch += "+mfa"
		}
		return out.text == s.users[i].name+"/"+ch, s
	case "save":
		if !out.ok {
			return false, nil
		}
		n := s.clone()
		n.rev++
		return true, n
	case "copy":
		if !out.ok {
			return false, nil
		}
		n := s.clone()
		n.rev++
		return out.text == n.snap(), n
	case "final":
		return out.text == s.snap(), s
	}
	panic("unknown model operation " + in.op)
}

type lNode struct {
	s *lState
	k string
}

func lModel(init, fin *lState) porcupine.Model {
	return porcupine.Model{
		Init: func() interface{} { return lNode{init, init.key()} },
		Step: func(st, in, out interface{}) (bool, interface{}) {
			n := st.(lNode)
			ok, ns := lStep(n.s, fin, in.(*lIn), out.(*lOut))
			if !ok {
				return false, st
			}
			if ns == n.s {
				return true, n
			}
			return true, lNode{ns, ns.key()}
		},
		Equal: func(a, b interface{}) bool { return a.(lNode).k == b.(lNode).k },
		DescribeOperation: func(in, out interface{}) string {
			i, o := in.(*lIn), out.(*lOut)
			return fmt.Sprintf("g%d %s(%s %s %s %s) -> %v %s", i.gid, i.op, i.user, i.mail, head(i.a, 20), head(i.b, 20), o.ok, head(o.text, 60))
		},
	}
}

// ---- execution --------------------------------------------------------------------

type keyLite struct{ canon, payload string }

// lEnv is what the goroutines share.
type lEnv struct {
	c    *Ctx
	db   *identity.Database
	dir  string
	mu   sync.Mutex
	fp   map[string]string // fingerprint -> canon
	keys []keyLite
	ids  map[string]string // entry -> id, for those present from the start
	api  []string          // API keys handed out
	// learnt from listings: user/comment -> id
	learnt map[string]string
	seq    int32
	clock  int64
	final  *lState // what is there in the end
}

type dump8 struct {
	Username       string
	EmailAddresses []dMail `json:"email_addresses"`
	Passwords      []dPw
	PublicKeys     []dKey `json:"public_keys"`
	APIKeys        []dAPI `json:"api_keys"`
	MfaTokens      []dTok `json:"mfa_tokens"`
	Revision       int
}

func trimFP(s string) string { return strings.TrimPrefix(s, "SHA256:") }

func (e *lEnv) canon(fp string) string { return e.fp[trimFP(fp)] }

func (e *lEnv) snapUser(b []byte) string {
	s, _ := e.parseUser(b)
	return s
}

func (e *lEnv) parseUser(b []byte) (string, lUser) {
	var d dump8
	if err := json.Unmarshal(b, &d); err != nil {
		return "unreadable: " + err.Error(), lUser{}
	}
	u := lUser{name: d.Username, npw: len(d.Passwords), rev: d.Revision}
	if len(d.EmailAddresses) > 0 {
		u.mail = d.EmailAddresses[0].Address
	}
	act := 0
	for _, p := range d.Passwords {
		if !p.Disabled {
			act++
		}
	}
	if act != 1 {
		return fmt.Sprintf("%d active passwords", act), lUser{}
	}
	for _, k := range d.PublicKeys {
		u.keys = append(u.keys, lEntry{name: e.canon(k.Fingerprint)})
	}
	for _, k := range d.APIKeys {
		u.api = append(u.api, lEntry{name: k.Comment})
	}
	for _, k := range d.MfaTokens {
		u.mfa = append(u.mfa, lEntry{name: k.Comment})
	}
	return u.snap(), u
}

func (e *lEnv) snapFile(p string) string {
	b, err := os.ReadFile(p)
	if err != nil {
		return "unreadable: " + err.Error()
	}
	var f dFile
	if err := json.Unmarshal(b, &f); err != nil {
		return "not a document: " + err.Error()
	}
	s := fmt.Sprintf("rev=%d", f.Revision)
	for _, u := range f.Users {
		s += "\n" + e.snapUser(u)
	}
	return s
}

// exec performs one operation and returns its result in model terms.
func (e *lEnv) exec(in *lIn) *lOut {
	out := &lOut{}
	r := requests.NewRequest()
	r.User.Username, r.User.Email = in.user, in.mail
	db := e.db
	set := func(err error) { out.ok = err == nil }
	switch in.op {
	case "adduser":
		r.User.Password, r.User.FullName, r.User.Roles = in.a, "Con, Current", []string{"r/x"}
		set(db.AddUser(r))
	case "auth":
		r.User.Password = in.a
		set(db.AuthenticateUser(r))
	case "chpw":
		r.User.OldPassword, r.User.Password = in.a, in.b
		set(db.ChangeUserPassword(r))
	case "addkey":
		r.Key.Usage, r.Key.Payload, r.Key.Comment = "ssh", in.b, "k"
		set(db.AddPublicKey(r))
	case "delkey":
		r.Key.ID = in.del
		set(db.DeletePublicKey(r))
	case "addapi":
		r.Key.Usage, r.Key.Comment = "api", in.a
		set(db.AddAPIKey(r))
		if out.ok {
			out.text, _ = r.Response.Payload.(string)
			e.mu.Lock()
			e.api = append(e.api, out.text)
			e.mu.Unlock()
		}
	case "delapi":
		r.Key.ID = in.del
		set(db.DeleteAPIKey(r))
	case "lookup":
		r.Key.Payload = in.a
		set(db.LookupAPIKey(r))
		out.text = ""
		if out.ok {
			out.text = r.User.Username
		}
	case "addmfa":
		r.MfaToken.Type, r.MfaToken.Comment, r.MfaToken.Secret = "totp", in.a, in.sec
		r.MfaToken.Algorithm, r.MfaToken.Period, r.MfaToken.Digits = "sha1", 60, 6
		r.MfaToken.Passcode = in.b
		set(db.AddMfaToken(r))
	case "delmfa":
		r.MfaToken.ID = in.del
		set(db.DeleteMfaToken(r))
	case "listkeys":
		r.Key.Usage = "ssh"
		set(db.GetPublicKeys(r))
		if b, ok := r.Response.Payload.(*identity.PublicKeyBundle); ok && out.ok {
			var l []string
			for _, k := range b.Get() {
				l = append(l, e.canon(k.Fingerprint))
			}
			out.text = strings.Join(l, ",")
		}
	case "listapi":
		r.Key.Usage = "api"
		set(db.GetAPIKeys(r))
		if b, ok := r.Response.Payload.(*identity.APIKeyBundle); ok && out.ok {
			var l []string
			for _, k := range b.Get() {
				l = append(l, k.Comment)
				e.mu.Lock()
				e.learnt[in.user+"/"+k.Comment] = k.ID
				e.mu.Unlock()
			}
			out.text = strings.Join(l, ",")
		}
	case "listmfa":
		set(db.GetMfaTokens(r))
		if b, ok := r.Response.Payload.(*identity.MfaTokenBundle); ok && out.ok {
			var l []string
			for _, k := range b.Get() {
				l = append(l, k.Comment)
			}
			out.text = strings.Join(l, ",")
		}
	case "getuser":
		set(db.GetUser(r))
		if u, ok := r.Response.Payload.(*identity.User); ok && out.ok {
			b, _ := json.Marshal(u)
			out.text = e.snapUser(b)
		}
	case "users":
		set(db.GetUsers(r))
		if b, ok := r.Response.Payload.(*identity.UserMetadataBundle); ok && out.ok {
			var l []string
			for _, m := range b.Get() {
				l = append(l, fmt.Sprintf("%s/%d", m.Username, m.Revision))
			}
			out.text = strings.Join(l, ",")
		}
	case "count":
		out.ok = true
		out.text = fmt.Sprint(db.GetUserCount())
	case "identify":
		set(db.IdentifyUser(r))
		ch := "none"
		if len(r.User.Challenges) > 0 {
			ch = "password"
			if len(r.User.Challenges) > 1 {
				ch += "+mfa"
			}
		}
		out.text = r.User.Username + "/" + ch
	case "save":
		set(db.Save())
	case "copy":
		p := filepath.Join(e.dir, fmt.Sprintf("copy%d.json", atomic.AddInt32(&e.seq, 1)))
		set(db.Copy(p))
		if out.ok {
			out.text = p // resolved after the run
		}
	}
	return out
}

func passFor(sec string) string {
	return refTOTP([]byte(sec), "sha1", 6, stepOf(time.Now(), 60))
}

// lGen draws the operations of a goroutine before the run starts, so that the
// threads do nothing but call the library.
func (e *lEnv) lGen(r *rand.Rand, st *lState, gid int, pools *lPools) *lIn {
	u := st.users[r.Intn(len(st.users))]
	if r.Intn(3) > 0 {
		u = st.users[0]
	}
	in := &lIn{gid: gid, user: u.name, mail: u.mail}
	if r.Intn(4) == 0 {
		in.user = caseVariant(r, in.user)
	}
	switch r.Intn(24) {
	case 0, 1, 2:
		in.op = "adduser"
		in.user, in.mail = pools.names[r.Intn(len(pools.names))], pools.mails[r.Intn(len(pools.mails))]
		in.a = fmt.Sprintf("pw-of-%s-%d-%d", in.user, gid, r.Intn(1000))
	case 3, 4:
		in.op = "auth"
		if r.Intn(2) == 0 {
			in.user = in.mail
		}
		in.a = pools.pws[u.name][r.Intn(len(pools.pws[u.name]))]
	case 5, 6, 7:
		in.op = "chpw"
		l := pools.pws[u.name]
		in.a, in.b = l[r.Intn(mini(2, len(l)))], l[r.Intn(len(l))]
		in.user, in.mail = u.name, u.mail
	case 8, 9:
		in.op = "addkey"
		k := e.keys[r.Intn(len(e.keys))]
		in.a, in.b = k.canon, k.payload
	case 10:
		in.op = "delkey"
		if len(u.keys) == 0 {
			in.op = "listkeys"
			break
		}
		in.a = u.keys[r.Intn(len(u.keys))].name
		in.del = e.ids[u.name+"/"+in.a]
		in.origOnly = true
	case 11, 12:
		in.op = "addapi"
		in.a = fmt.Sprintf("api-%d-%d", gid, atomic.AddInt32(&e.seq, 1))
	case 13:
		in.op = "delapi"
		if len(u.api) == 0 {
			in.op = "listapi"
			break
		}
		in.a = u.api[r.Intn(len(u.api))].name
		in.del = e.ids[u.name+"/"+in.a]
		in.origOnly = true
	case 14:
		in.op = "lookup" // key chosen when issued
		if len(u.api) > 0 && r.Intn(2) == 0 {
			in.a = u.api[r.Intn(len(u.api))].sec
		}
	case 15, 16:
		in.op = "addmfa"
		in.sec = pools.secs[r.Intn(len(pools.secs))]
		in.a = pools.comments[r.Intn(len(pools.comments))]
	case 17:
		in.op = "delmfa"
		if len(u.mfa) == 0 {
			in.op = "listmfa"
			break
		}
		in.a = u.mfa[r.Intn(len(u.mfa))].name
		in.del = e.ids[u.name+"/"+in.a]
		in.origOnly = true
	case 18:
		in.op = pick(r, "listkeys", "listapi", "listmfa")
	case 19:
		in.op = pick(r, "getuser", "users", "count")
	case 20:
		in.op = "identify"
		in.mail = ""
	case 21:
		in.op = "save"
	default:
		in.op = "copy"
	}
	return in
}

type lPools struct {
	names, mails, secs, comments []string
	pws                          map[string][]string
}

func runC08(c *Ctx) {
	r := c.R
	w := newWorld(c, worldOpts{checkEvery: 1000})
	w.maxUsers = 12
	nu := 1 + r.Intn(3)
	if r.Intn(6) == 0 {
		nu = 10 // longer stores
	}
	w.seedUsers(nu)
	heavy := r.Intn(4) == 0
	e := &lEnv{c: c, dir: c.Dir, fp: map[string]string{}, ids: map[string]string{}, learnt: map[string]string{}}
	pools := &lPools{pws: map[string][]string{}}
	for i := 0; i < 4; i++ {
		pools.names = append(pools.names, fmt.Sprintf("new%d", i))
		pools.mails = append(pools.mails, fmt.Sprintf("new%d@conc.example", i))
		pools.secs = append(pools.secs, genSecret(r))
		pools.comments = append(pools.comments, fmt.Sprintf("token %d", i))
	}
	pools.names = append(pools.names, caseVariant(r, "new0"), caseVariant(r, w.users[0].username))
	pools.mails = append(pools.mails, caseVariant(r, "new0@conc.example"), w.users[0].email)
	for i := 0; i < 3; i++ {
		k := genRSA(r, 1024)
		e.keys = append(e.keys, keyLite{fmt.Sprintf("key%d", i), k.openssh("")})
		e.fp[k.fpSHA256()] = fmt.Sprintf("key%d", i)
	}
	// entries present from the start
	for ui, u := range w.users {
		if ui > 2 {
			break
		}
		for i := 0; i < 2; i++ {
			m := w.genKey()
			for m.usage != "ssh" {
				m = w.genKey()
			}
			w.addPublicKey(req(u), u, m, "ssh", "", "x", false)
			q := apiReq(u)
			q.Key.Comment = fmt.Sprintf("orig api %d", i)
			w.addAPIKey(q, u, "")
			x := req(u)
			x.MfaToken.Type, x.MfaToken.Secret, x.MfaToken.Comment = "totp", genSecret(r), fmt.Sprintf("orig token %d", i)
			x.MfaToken.Algorithm, x.MfaToken.Period, x.MfaToken.Digits = "sha1", 30, 6
			if i == 0 || r.Intn(2) == 0 {
				w.addTOTP(x, u, mTok{typ: "totp", secret: x.MfaToken.Secret, comment: x.MfaToken.Comment, algo: "sha1", period: 30, digits: 6}, "", 0)
			}
			if i == 0 && r.Intn(2) == 0 {
				break
			}
		}
	}
	if heavy {
		// a large record makes every store take longer
		a := addUserArgs{uname: "heavy", mail: "heavy@heavy.example", pw: "heavy-password-1"}
		for i := 0; i < 1200; i++ {
			a.roles = append(a.roles, fmt.Sprintf("org/role-%d", i))
		}
		a.claims = a.roles
		w.addUser(a)
		c.Event("heavy_databases")
	}
	if r.Intn(3) == 0 {
		w.opReopen()
	}
	e.db = w.db
	st := &lState{rev: w.rev}
	for _, u := range w.users {
		l := lUser{name: u.username, mail: u.email, pw: u.pw, npw: 1 + len(u.former), rev: u.rev}
		d := parseUser(c, w.dumps[w.idx(u)])
		l.npw = len(d.Passwords)
		for i, k := range u.keys {
			n := fmt.Sprintf("orig%d-%s", i, k.id)
			e.fp[trimFP(d.PublicKeys[i].Fingerprint)] = n
			l.keys = append(l.keys, lEntry{name: n, orig: true})
			e.ids[u.username+"/"+n] = k.id
		}
		for _, k := range u.api {
			l.api = append(l.api, lEntry{name: k.comment, sec: k.plain, orig: true})
			e.ids[u.username+"/"+k.comment] = k.id
		}
		for _, k := range u.mfa {
			l.mfa = append(l.mfa, lEntry{name: k.comment, sec: k.secret, orig: true})
			e.ids[u.username+"/"+k.comment] = k.id
		}
		st.users = append(st.users, l)
		pools.pws[u.username] = []string{u.pw, "conc-password-1", "conc-password-2", "conc-password-3"}
	}
	procs := []int{4, 2, 8, 1, 4}[r.Intn(5)]
	old := runtime.GOMAXPROCS(procs)
	defer runtime.GOMAXPROCS(old)
	ng := 2 + r.Intn(4)
	per := 3 + r.Intn(5)
	if c.Thorough && r.Intn(3) == 0 {
		ng, per = 3+r.Intn(4), 5+r.Intn(5)
	}
	burst := r.Intn(3) > 0
	hammer := ""
	if burst && r.Intn(2) == 0 {
		// all rounds contend with the same kind of change
		hammer = pick(r, "adduser", "chpw", "addkey", "addapi", "addmfa", "delkey", "delapi", "delmfa", "addmfa", "addkey", "save", "copy")
		ng, per = 3+r.Intn(3), 3+r.Intn(3)
	}
	progs := make([][]*lIn, ng)
	for g := range progs {
		rg := rand.New(rand.NewSource(r.Int63()))
		for k := 0; k < per; k++ {
			progs[g] = append(progs[g], e.lGen(rg, st, g, pools))
		}
	}
	if burst {
		// in every round the goroutines contend for the same thing
		for k := 0; k < per; k++ {
			rg := rand.New(rand.NewSource(r.Int63()))
			proto := e.lGen(rg, st, 0, pools)
			for n := 0; hammer != "" && proto.op != hammer && n < 200; n++ {
				proto = e.lGen(rg, st, 0, pools)
			}
			for g := range progs {
				x := *proto
				x.gid = g
				switch {
				case r.Intn(5) == 0 && hammer == "" || r.Intn(10) == 0:
					continue
				case x.op == "chpw":
					x.b = pools.pws[proto.user][r.Intn(4)]
				case x.op == "adduser":
					x.a = fmt.Sprintf("pw-%d-%d-conc", g, k)
					switch r.Intn(4) {
					case 0:
						x.user = fmt.Sprintf("other%d%d", g, k)
					case 1:
						x.mail = fmt.Sprintf("other%d%d@conc.example", g, k)
					case 2:
						x.user = caseVariant(r, x.user)
					}
				case x.op == "addapi":
					x.a = fmt.Sprintf("api-%d-%d", g, atomic.AddInt32(&e.seq, 1))
				case x.op == "addmfa":
					if r.Intn(2) == 0 {
						x.a = pools.comments[r.Intn(4)]
					} else {
						x.sec = pools.secs[r.Intn(4)]
					}
				}
				progs[g][k] = &x
			}
		}
	}
	for _, p := range progs {
		for _, in := range p {
			if in.op == "addmfa" {
				in.b = passFor(in.sec)
			}
		}
	}
	c.Log("%d goroutines x %d operations, GOMAXPROCS %d, burst %v, %d users", ng, per, procs, burst, len(st.users))
	hist := make([][]porcupine.Operation, ng)
	var wg sync.WaitGroup
	var round [16]int32
	panics := make([]string, ng)
	for g := 0; g < ng; g++ {
		wg.Add(1)
		rg := rand.New(rand.NewSource(r.Int63()))
		go func(g int) {
			defer wg.Done()
			defer func() {
				if x := recover(); x != nil {
					panics[g] = fmt.Sprint(x)
				}
			}()
			for k, in := range progs[g] {
				if burst {
					// start together
					atomic.AddInt32(&round[k], 1)
					for spin := 0; atomic.LoadInt32(&round[k]) < int32(ng) && spin < 20000; spin++ {
						if spin%50 == 49 {
							runtime.Gosched()
						}
					}
				} else if rg.Intn(4) == 0 {
					runtime.Gosched()
				}
				if in.op == "lookup" && in.a == "" {
					e.mu.Lock()
					if n := len(e.api); n > 0 {
						in.a = e.api[rg.Intn(n)]
					}
					e.mu.Unlock()
					if in.a == "" {
						in.a = strings.Repeat("x", 80)
					}
				}
				call := atomic.AddInt64(&e.clock, 1)
				out := e.exec(in)
				ret := atomic.AddInt64(&e.clock, 1)
				hist[g] = append(hist[g], porcupine.Operation{ClientId: g, Input: in, Call: call, Output: out, Return: ret})
			}
		}(g)
	}
	wg.Wait()
	for _, p := range panics {
		if p != "" {
			c.Violate([]string{"C08", "C09", "C16"}, "a concurrent operation panicked: %s", p)
		}
	}
	var h []porcupine.Operation
	for g := range hist {
		for _, o := range hist[g] {
			in, out := o.Input.(*lIn), o.Output.(*lOut)
			if in.op == "copy" && out.ok {
				out.text = e.snapFile(out.text)
			}
			c.Event("op:" + in.op)
			if !out.ok {
				c.Event("refused:" + in.op)
			}
			h = append(h, o)
		}
	}
	sort.Slice(h, func(i, j int) bool { return h[i].Call < h[j].Call })
	overlaps := 0
	for i := range h {
		for j := i + 1; j < len(h) && h[j].Call < h[i].Return; j++ {
			overlaps++
		}
	}
	c.EventN("overlapping_pairs", int64(overlaps))
	c.EventN("operations", int64(len(h)))
	live := e.liveSnap(st, h)
	m := lModel(st, e.final)
	for _, o := range h {
		c.Log("[%d,%d] %s", o.Call, o.Return, m.DescribeOperation(o.Input, o.Output))
	}
	// final state: live records and file
	t := atomic.AddInt64(&e.clock, 1)
	fin := porcupine.Operation{ClientId: ng, Input: &lIn{op: "final", gid: ng}, Call: t, Output: &lOut{ok: true, text: live}, Return: t + 1}
	full := append(append([]porcupine.Operation(nil), h...), fin)
	sig := ""
	for _, o := range h {
		sig += fmt.Sprintf("%s%v;", o.Input.(*lIn).op, o.Output.(*lOut).ok)
	}
	c.Eval(sig)
	res := porcupine.CheckOperationsTimeout(m, full, 60*time.Second)
	c.Event("history:" + string(res))
	if c.Case < 2 {
		var l []string
		for _, o := range h {
			l = append(l, fmt.Sprintf("[%d,%d] %s", o.Call, o.Return, m.DescribeOperation(o.Input, o.Output)))
		}
		c.Sample("%s", strings.Join(l, "\n"))
	}
	switch res {
	case porcupine.Illegal:
		what := "results and copies"
		if porcupine.CheckOperationsTimeout(m, h, 60*time.Second) == porcupine.Ok {
			what = "final state"
		}
		c.Log("final state:\n%s", live)
		c.Violate([]string{"C08"}, "no one-at-a-time execution explains the history (%d operations by %d goroutines): %s do not fit", len(h), ng, what)
	case porcupine.Unknown:
		return
	}
	// the file is the live state, unless the last store went to a copy
	file := e.snapFile(w.path)
	_, liveUsers := cut(live)
	_, fileUsers := cut(file)
	if liveUsers != fileUsers {
		c.Violate([]string{"C08"}, "after all calls returned the file differs from the live state:\n%s\n-- live:\n%s", file, live)
	}
	e.passwordsFit(st, h)
}

func cut(s string) (string, string) {
	i := strings.Index(s, "\n")
	if i < 0 {
		return s, ""
	}
	return s[:i], s[i:]
}

// liveSnap reads the final live state through the library.
func (e *lEnv) liveSnap(st *lState, h []porcupine.Operation) string {
	e.final = &lState{}
	s := fmt.Sprintf("rev=%d", e.db.Revision)
	type id struct{ n, m string }
	var ids []id
	for _, u := range st.users {
		ids = append(ids, id{u.name, u.mail})
	}
	r := requests.NewRequest()
	r.User.Username, r.User.Email = ids[0].n, ids[0].m
	if err := e.db.GetUsers(r); err != nil {
		return "no users: " + err.Error()
	}
	for _, m := range r.Response.Payload.(*identity.UserMetadataBundle).Get() {
		q := requests.NewRequest()
		q.User.Username, q.User.Email = m.Username, m.Email
		if err := e.db.GetUser(q); err != nil {
			return s + "\nno user " + m.Username + ": " + err.Error()
		}
		b, _ := json.Marshal(q.Response.Payload)
		t, u := e.parseUser(b)
		s += "\n" + t
		e.final.users = append(e.final.users, u)
	}
	return s
}

// passwordsFit checks that each user signs in with exactly one of the
// passwords its acknowledged changes could have left.
func (e *lEnv) passwordsFit(st *lState, h []porcupine.Operation) {
	c := e.c
	cand := map[string]map[string]bool{}
	mails := map[string]string{}
	for _, u := range st.users {
		cand[u.name] = map[string]bool{u.pw: true}
		mails[u.name] = u.mail
	}
	for _, o := range h {
		in, out := o.Input.(*lIn), o.Output.(*lOut)
		if !out.ok {
			continue
		}
		switch in.op {
		case "adduser":
			cand[in.user] = map[string]bool{in.a: true}
			mails[in.user] = in.mail
		case "chpw":
			for n := range cand {
				if fold(n) == fold(in.user) {
					cand[n][in.b] = true
				}
			}
		}
	}
	for n, ps := range cand {
		hits := 0
		for p := range ps {
			r := requests.NewRequest()
			r.User.Username, r.User.Password = n, p
			if e.db.AuthenticateUser(r) == nil {
				hits++
			}
		}
		c.Event("final_sign_ins")
		if hits != 1 {
			c.Violate([]string{"C08"}, "after all calls returned %q signs in with %d of its candidate passwords", n, hits)
		}
	}
}
