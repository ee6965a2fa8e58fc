package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"

	identity "github.com/greenpau/go-identity"
	"github.com/greenpau/go-identity/pkg/requests"
)

// C17. Database files derived from real ones are opened; the verdict is
// compared with one computed from how the file was derived.

func init() {
	register(&Prop{ID: "C17", Level: "exploration",
		Rule:  "files derived from databases with history (truncations, garbage, wrong types, duplicates in all letter cases, missing and null parts, reordered, reformatted, older formats, random byte and structure mutations) are opened; oracle: verdict by construction, file bytes, mode, time stamps and directory untouched on refusal, users, sign-ins, API keys, policy and revision on acceptance, consistency of whatever is accepted",
		Cases: n2(200, 3200), Run: runC17})
}

// snapshot of a directory: names, sizes, modes, times, inodes, contents.
func snapshotDir(dir string) string {
	var out []string
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			out = append(out, p+": "+err.Error())
			return nil
		}
		st, _ := fi.Sys().(*syscall.Stat_t)
		s := fmt.Sprintf("%s %v %d ino=%d", p, fi.Mode(), fi.Size(), st.Ino)
		if fi.Mode().IsRegular() {
			b, _ := os.ReadFile(p)
			s += fmt.Sprintf(" mtime=%d sum=%x", fi.ModTime().UnixNano(), hash64(string(b)))
		}
		out = append(out, s)
		return nil
	})
	return strings.Join(out, "\n")
}

// encodeShuffled writes a document with keys in random order, random blanks
// and some escaped characters.
func encodeShuffled(r *rand.Rand, v interface{}, sb *strings.Builder) {
	sp := func() {
		for r.Intn(3) == 0 {
			sb.WriteString(pick(r, " ", "\n", "\t", "\r\n"))
		}
	}
	sp()
	switch t := v.(type) {
	case map[string]interface{}:
		var ks []string
		for k := range t {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		r.Shuffle(len(ks), func(i, j int) { ks[i], ks[j] = ks[j], ks[i] })
		sb.WriteByte('{')
		for i, k := range ks {
			if i > 0 {
				sb.WriteByte(',')
			}
			sp()
			b, _ := json.Marshal(k)
			sb.Write(b)
			sp()
			sb.WriteByte(':')
			encodeShuffled(r, t[k], sb)
		}
		sb.WriteByte('}')
	case []interface{}:
		sb.WriteByte('[')
		for i, x := range t {
			if i > 0 {
				sb.WriteByte(',')
			}
			encodeShuffled(r, x, sb)
		}
		sb.WriteByte(']')
	case string:
		b, _ := json.Marshal(t)
		if r.Intn(6) == 0 {
			var e strings.Builder
			e.WriteByte('"')
			for _, x := range t {
				if x > 0xffff {
					x -= 0x10000
					fmt.Fprintf(&e, "\\u%04x\\u%04x", 0xd800+x>>10, 0xdc00+x&0x3ff)
				} else {
					fmt.Fprintf(&e, "\\u%04X", x)
				}
			}
			e.WriteByte('"')
			b = []byte(e.String())
		}
		sb.Write(b)
	default:
		b, _ := json.Marshal(t)
		sb.Write(b)
	}
	sp()
}

type openCtx struct {
	w    *World
	c    *Ctx
	base []byte
	n    int
}

type obj = map[string]interface{}

// doc is a fresh generic copy of the base document.
func (o *openCtx) doc() obj {
	d := json.NewDecoder(bytes.NewReader(o.base))
	d.UseNumber()
	var v obj
	if err := d.Decode(&v); err != nil {
		o.c.Harness("base: %v", err)
	}
	return v
}

func users(d obj) []interface{} { u, _ := d["users"].([]interface{}); return u }

func (o *openCtx) bytes(d interface{}) []byte {
	b, err := json.MarshalIndent(d, "", "  ")
	if err != nil {
		o.c.Harness("%v", err)
	}
	return b
}

// open puts the bytes somewhere and opens them; it returns the database, the
// error and whether anything in the directory changed.
func (o *openCtx) open(what string, b []byte) (db *identity.Database, err error, path, before string) {
	c, r := o.c, o.c.R
	o.n++
	dir := filepath.Join(c.Dir, fmt.Sprintf("open%d", o.n))
	if err := os.MkdirAll(dir, 0700); err != nil {
		c.Harness("%v", err)
	}
	path = filepath.Join(dir, "users.json")
	mode := os.FileMode([]os.FileMode{0600, 0600, 0644, 0640, 0400}[r.Intn(5)])
	if err := os.WriteFile(path, b, mode); err != nil {
		c.Harness("%v", err)
	}
	old := time.Unix(1600000000+int64(r.Intn(1e6)), 0)
	os.Chtimes(path, old, old)
	arg := path
	if r.Intn(6) == 0 {
		arg = filepath.Join(dir, "link")
		os.Symlink("users.json", arg)
	}
	before = snapshotDir(dir)
	c.Log("open %s (%d bytes)", what, len(b))
	err = c.Call("NewDatabase", func() error {
		var e error
		db, e = openDB(arg)
		return e
	})
	c.Event("files_opened")
	return
}

func (o *openCtx) reject(what string, b []byte) {
	if v := o.bare(b); v != nil {
		o.refuse(what+", without policy and revision", v)
	}
	o.refuse(what, b)
}

// bare removes policy and revision from a document whose defect is elsewhere:
// missing limits must not be stored before the whole file was checked.
func (o *openCtx) bare(b []byte) []byte {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	var v obj
	if d.Decode(&v) != nil || v == nil {
		return nil
	}
	if o.c.R.Intn(2) == 0 || !bytes.Equal(o.bytes(v), b) {
		return nil
	}
	base := o.doc()
	for _, k := range []string{"policy", "revision"} {
		if !bytes.Equal(o.bytes(v[k]), o.bytes(base[k])) {
			return nil
		}
		if k == "policy" || o.c.R.Intn(2) == 0 {
			delete(v, k)
		}
	}
	o.c.Event("files_refused_before_filling")
	return o.bytes(v)
}

func (o *openCtx) refuse(what string, b []byte) {
	c := o.c
	db, err, path, before := o.open(what, b)
	c.Eval("reject/" + what)
	if err == nil {
		c.Violate([]string{"C17"}, "a file with %s was opened without an error (%d users): %s", what, len(db.Users), head(string(b), 400))
	}
	if db != nil {
		c.Violate([]string{"C17"}, "a file with %s was refused, but a database was returned", what)
	}
	if strings.TrimSpace(err.Error()) == "" || !strings.Contains(err.Error(), "failed initializing database") {
		c.Report([]string{"C25"}, "error for a file with %s: %q", what, err.Error())
	}
	o.w.noSecrets("error of NewDatabase", err.Error())
	if after := snapshotDir(filepath.Dir(path)); after != before {
		c.Violate([]string{"C17"}, "refusing a file with %s changed it or its directory: %s -> %s", what, before, after)
	}
	c.Event("files_refused")
	os.RemoveAll(filepath.Dir(path))
}

// accept judges a consistent file: users are those of the base document with
// the given indexes; pol is the policy expected, filled whether limits were
// missing.
func (o *openCtx) accept(what string, b []byte, idx []int, pol identity.Policy, filled bool, rev uint64, sameRecords bool) {
	c, w := o.c, o.w
	db, err, path, before := o.open(what, b)
	c.Eval("accept/" + what)
	if err != nil {
		c.Violate([]string{"C17"}, "a consistent file (%s) was refused: %v", what, err)
	}
	if db == nil {
		c.Violate([]string{"C17"}, "opening a consistent file (%s) returned neither database nor error", what)
	}
	if db.GetUserCount() != len(idx) {
		c.Violate([]string{"C17"}, "a file with %d users (%s) opens with %d", len(idx), what, db.GetUserCount())
	}
	if db.Policy != pol {
		c.Violate([]string{"C17", "C22"}, "a file (%s) opens with policy %+v, expected %+v", what, db.Policy, pol)
	}
	after := snapshotDir(filepath.Dir(path))
	if !filled {
		if after != before {
			c.Violate([]string{"C17"}, "opening a complete consistent file (%s) changed it: %s -> %s", what, before, after)
		}
	} else {
		rev++
		fb, _ := os.ReadFile(path)
		var f dFile
		if err := json.Unmarshal(fb, &f); err != nil {
			c.Violate([]string{"C17", "C06"}, "after filling missing limits (%s) the file is damaged: %v", what, err)
		}
		var p identity.Policy
		json.Unmarshal(f.Policy, &p)
		if p != pol {
			c.Violate([]string{"C17", "C22"}, "missing limits (%s) were not stored: file has %s, expected %+v", what, f.Policy, pol)
		}
		if f.Revision != rev || len(f.Users) != len(idx) {
			c.Violate([]string{"C17", "C21"}, "after filling missing limits (%s) the file has revision %d and %d users, expected %d and %d", what, f.Revision, len(f.Users), rev, len(idx))
		}
	}
	if db.Revision != rev {
		c.Violate([]string{"C17", "C21"}, "a file (%s) opens with revision %d, expected %d", what, db.Revision, rev)
	}
	for k, i := range idx {
		u := w.users[i]
		d := w.dumpUser(db, u, []string{"C17"})
		if sameRecords && d != w.dumps[i] {
			c.Violate([]string{"C17", "C26"}, "user %q of a file (%s) is not the one stored: %s", u.username, what, diffJSON(w.dumps[i], d))
		}
		if c.R.Intn(4) > 0 {
			continue
		}
		ident := u.username
		if k%2 == 1 {
			ident = u.email
		}
		if _, known := w.signInUser(ident); known {
			q := requests.NewRequest()
			q.User.Username, q.User.Password = ident, u.pw
			if err := db.AuthenticateUser(q); err != nil {
				c.Violate([]string{"C17"}, "user %q of a file (%s) cannot sign in: %v", u.username, what, err)
			}
			q = requests.NewRequest()
			q.User.Username, q.User.Password = ident, u.pw+"x"
			if err := db.AuthenticateUser(q); err == nil && !bcryptEquiv(u.pw, u.pw+"x") {
				c.Violate([]string{"C17", "C01"}, "user %q of a file (%s) signs in with a wrong password", u.username, what)
			}
			c.Event("sign_ins_after_opening")
		}
		for _, a := range u.api {
			q := requests.NewRequest()
			q.Key.Payload = a.plain
			if err := db.LookupAPIKey(q); (err == nil) == a.disabled {
				c.Violate([]string{"C17", "C10"}, "API key (disabled=%v) of %q of a file (%s): %v", a.disabled, u.username, what, err)
			}
			c.Event("api_lookups_after_opening")
		}
	}
	c.Event("files_accepted")
	// opened once more it is the same, and nothing is stored again
	s2 := snapshotDir(filepath.Dir(path))
	db2, err := openDB(path)
	if err != nil || db2.GetUserCount() != len(idx) || db2.Policy != pol || db2.Revision != rev {
		c.Violate([]string{"C17", "C05"}, "a file (%s) opened once cannot be opened a second time alike: %v", what, err)
	}
	if s3 := snapshotDir(filepath.Dir(path)); s3 != s2 {
		c.Violate([]string{"C17"}, "opening a file (%s) a second time changed it: %s -> %s", what, s2, s3)
	}
	os.RemoveAll(filepath.Dir(path))
}

// consistent lists what is wrong with the users of an opened database.
func inconsistency(db *identity.Database) string {
	names, mails, ids, keys := map[string]bool{}, map[string]bool{}, map[string]bool{}, map[string]int{}
	for i, u := range db.Users {
		if u == nil {
			return fmt.Sprintf("user %d is null", i)
		}
		if u.Username == "" || len(u.Passwords) == 0 || len(u.ID) != 36 {
			return fmt.Sprintf("user %d has username %q, ID %q, %d passwords", i, u.Username, u.ID, len(u.Passwords))
		}
		if n := fold(u.Username); names[n] {
			return "username " + n + " twice"
		} else {
			names[n] = true
		}
		if ids[u.ID] {
			return "ID " + u.ID + " twice"
		}
		ids[u.ID] = true
		for _, m := range u.EmailAddresses {
			if m == nil {
				return fmt.Sprintf("null e-mail address in user %d", i)
			}
			if n := fold(m.Address); mails[n] {
				return "e-mail address " + n + " twice"
			} else {
				mails[n] = true
			}
		}
		for _, k := range u.APIKeys {
			if k == nil {
				return fmt.Sprintf("null API key in user %d", i)
			}
			if j, ok := keys[k.Prefix]; ok && j != i {
				return "API key prefix " + k.Prefix + " in two users"
			}
			keys[k.Prefix] = i
		}
		for _, x := range u.Names {
			if x == nil {
				return fmt.Sprintf("null name in user %d", i)
			}
		}
		for _, x := range u.Passwords {
			if x == nil {
				return fmt.Sprintf("null password in user %d", i)
			}
		}
		for _, x := range u.PublicKeys {
			if x == nil {
				return fmt.Sprintf("null key in user %d", i)
			}
		}
		for _, x := range u.MfaTokens {
			if x == nil {
				return fmt.Sprintf("null token in user %d", i)
			}
		}
		for _, x := range u.Roles {
			if x == nil {
				return fmt.Sprintf("null role in user %d", i)
			}
		}
	}
	return ""
}

// mutated judges a file of which only its being derived from a good one is
// known: whatever is accepted must be consistent and usable, whatever is
// refused untouched.
func (o *openCtx) mutated(what string, b []byte) {
	c := o.c
	db, err, path, before := o.open(what, b)
	defer os.RemoveAll(filepath.Dir(path))
	c.Eval(fmt.Sprintf("mutated/%s/%v", what, err == nil))
	if err != nil {
		c.Event("mutated_refused")
		if db != nil {
			c.Violate([]string{"C17"}, "a mutated file was refused, but a database was returned")
		}
		if after := snapshotDir(filepath.Dir(path)); after != before {
			c.Violate([]string{"C17"}, "refusing a mutated file changed it: %s -> %s; file %s", before, after, head(string(b), 600))
		}
		return
	}
	c.Event("mutated_accepted")
	if !json.Valid(b) {
		c.Violate([]string{"C17"}, "a file that is not a JSON document was opened: %s", head(string(b), 300))
	}
	if x := inconsistency(db); x != "" {
		c.Violate([]string{"C17"}, "an inconsistent file was opened: %s; file %s", x, head(string(b), 3000))
	}
	n := len(db.Users)
	if db.GetUserCount() != n {
		c.Violate([]string{"C17", "C03"}, "%d users, but %d counted", n, db.GetUserCount())
	}
	cheap := true
	for _, u := range db.Users {
		for _, p := range u.Passwords {
			if len(p.Hash) < 7 || p.Hash[4:6] != "10" {
				cheap = false // costs of damaged hashes are not bounded
			}
		}
		for _, p := range u.APIKeys {
			if len(p.Payload) < 7 || p.Payload[4:6] != "10" {
				cheap = false
			}
		}
	}
	for _, u := range append([]*identity.User(nil), db.Users...) {
		q := requests.NewRequest()
		q.User.Username = u.Username
		q.Flags.Enabled = true
		c.Call("IdentifyUser", func() error { return db.IdentifyUser(q) })
		if cheap {
			q = requests.NewRequest()
			q.User.Username, q.User.Password = u.Username, "some password"
			c.Call("AuthenticateUser", func() error { return db.AuthenticateUser(q) })
		}
		if len(u.EmailAddresses) == 0 || u.EmailAddresses[0].Address == "" {
			continue
		}
		q = requests.NewRequest()
		q.User.Username, q.User.Email = u.Username, u.EmailAddresses[0].Address
		if err := c.Call("GetUser", func() error { return db.GetUser(q) }); err != nil {
			c.Violate([]string{"C17", "C03"}, "user %q %q of an opened file is not found: %v", q.User.Username, q.User.Email, err)
		}
		q.Key.Usage = "ssh"
		c.Call("GetPublicKeys", func() error { return db.GetPublicKeys(q) })
		c.Call("GetAPIKeys", func() error { return db.GetAPIKeys(q) })
		c.Call("GetMfaTokens", func() error { return db.GetMfaTokens(q) })
		q.Response.Payload = nil
		c.Call("GetUsers", func() error { return db.GetUsers(q) })
		q.WebAuthn.Request, q.WebAuthn.Challenge = b64json(obj{"id": "x"}), "x"
		c.Call("AuthenticateUser", func() error { return db.AuthenticateUser(q) })
		if k := u.MfaTokens; len(k) > 0 {
			q.WebAuthn.Request = b64json(obj{"id": k[len(k)-1].Parameters["u2f_id"], "client_data_encoded": "e30=", "signature_encoded": "AA==", "auth_data_encoded": "AA=="})
			c.Call("AuthenticateUser", func() error { return db.AuthenticateUser(q) })
		}
	}
	c.Call("policy accessors", func() error {
		db.GetPasswordPolicyRegex()
		db.GetPasswordPolicySummary()
		db.GetUsernamePolicyRegex()
		db.GetUsernamePolicySummary()
		return nil
	})
	if err := c.Call("Save", func() error { return db.Save() }); err != nil {
		c.Violate([]string{"C17", "C05"}, "an opened mutated file cannot be saved: %v; file %s", err, head(string(b), 3000))
	}
	db2, err := openDB(path)
	if err != nil || db2.GetUserCount() != n {
		c.Violate([]string{"C17", "C05"}, "an opened and saved mutated file cannot be opened again: %v", err)
	}
}

func runC17(c *Ctx) {
	r := c.R
	wo := worldOpts{weights: mix(map[string]int{"adduser": 0, "adduserbad": 0, "reopen": 0, "graft": 0, "copy": 0, "addapi": 14, "addu2f": 6}), checkEvery: 50}
	if r.Intn(2) == 0 {
		p := identity.Policy{}
		p.User.MinLength, p.User.MaxLength = 1+r.Intn(3), 40+r.Intn(30)
		p.Password.MinLength, p.Password.MaxLength, p.Password.KeepVersions = 1+r.Intn(8), 60+r.Intn(100), 1+r.Intn(12)
		p.User.AllowUppercase, p.Password.BlockReuse, p.Password.RequireNumber = r.Intn(2) == 0, r.Intn(2) == 0, r.Intn(2) == 0
		wo.policy = &p
	}
	w := newWorld(c, wo)
	w.seedUsers(3)
	for _, u := range w.users {
		for i := 0; i < 1+r.Intn(2); i++ {
			q := apiReq(u)
			w.addAPIKey(q, u, "")
		}
		m := w.genKey()
		w.addPublicKey(req(u), u, m, m.usage, "", "c", false)
		f := newFido(r)
		w.addU2F(req(u), u, mTok{typ: "u2f", comment: "t", fido: f, secret: genChallenge(r)}, b64json(f.register()), "")
	}
	w.maxUsers = 3
	for i := 0; i < 6; i++ {
		opTable[pick(r, "chpw", "delkey", "delapi", "addtotp", "save")](w)
	}
	w.finish()
	o := &openCtx{w: w, c: c, base: w.file}
	all := []int{0, 1, 2}
	rev := w.fileRev
	pol := w.policy

	// ---- consistent files
	o.accept("no change", o.base, all, pol, false, rev, true)
	{
		var sb strings.Builder
		encodeShuffled(r, o.doc(), &sb)
		o.accept("reordered and reformatted", []byte(sb.String()), all, pol, false, rev, true)
		var cb bytes.Buffer
		json.Compact(&cb, o.base)
		o.accept("compact form", append(cb.Bytes(), pick(r, "", "\n", " \r\n\t")...), all, pol, false, rev, true)
	}
	{
		d := o.doc()
		d["unknown"], d["zz"] = "x", obj{"a": []interface{}{1, nil}}
		users(d)[1].(obj)["shoe_size"] = 44
		users(d)[2].(obj)["passwords"].([]interface{})[0].(obj)["pepper"] = true
		o.accept("unknown attributes", o.bytes(d), all, pol, false, rev, true)
	}
	{
		d := o.doc()
		delete(d, "policy")
		o.accept("no policy", o.bytes(d), all, effPolicy(identity.Policy{}), true, rev, true)
		d["policy"] = nil
		o.accept("null policy", o.bytes(d), all, effPolicy(identity.Policy{}), true, rev, true)
		d["policy"] = obj{}
		o.accept("empty policy", o.bytes(d), all, effPolicy(identity.Policy{}), true, rev, true)
		d["policy"] = obj{"password": obj{"require_number": true}}
		p := effPolicy(identity.Policy{})
		p.Password.RequireNumber = true
		o.accept("policy without limits", o.bytes(d), all, p, true, rev, true)
	}
	for n := 0; n < 4; n++ {
		d := o.doc()
		q := pol
		dp := d["policy"].(obj)
		gone := 0
		for i, k := range []string{"password.min_length", "password.max_length", "password.keep_versions", "user.min_length", "user.max_length"} {
			if r.Intn(2) == 0 && !(n == 0 && i == r.Intn(5)) {
				continue
			}
			gone++
			s := strings.Split(k, ".")
			m := dp[s[0]].(obj)
			switch r.Intn(3) {
			case 0:
				m[s[1]] = 0
			case 1:
				m[s[1]] = nil
			default:
				delete(m, s[1])
			}
			switch i {
			case 0:
				q.Password.MinLength = 0
			case 1:
				q.Password.MaxLength = 0
			case 2:
				q.Password.KeepVersions = 0
			case 3:
				q.User.MinLength = 0
			case 4:
				q.User.MaxLength = 0
			}
		}
		o.accept(fmt.Sprintf("policy with %d limits missing", gone), o.bytes(d), all, effPolicy(q), gone > 0, rev, true)
	}
	{
		d := o.doc()
		for _, u := range users(d) {
			for _, p := range u.(obj)["passwords"].([]interface{}) {
				if r.Intn(3) > 0 {
					delete(p.(obj), "algorithm")
				}
			}
		}
		o.accept("no password algorithm", o.bytes(d), all, pol, false, rev, true)
		delete(d, "policy")
		delete(d, "version")
		delete(d, "last_modified")
		delete(d, "revision")
		for _, u := range users(d) {
			for _, p := range u.(obj)["passwords"].([]interface{}) {
				delete(p.(obj), "algorithm")
				delete(p.(obj), "cost")
			}
		}
		o.accept("earlier release", o.bytes(d), all, effPolicy(identity.Policy{}), true, 0, false)
	}
	{
		d := o.doc()
		us := users(d)
		k := r.Intn(4)
		d["users"] = us[:k]
		o.accept("fewer users", o.bytes(d), all[:k], pol, false, rev, true)
		d["users"] = []interface{}{us[2], us[0], us[1]}
		o.accept("users in another order", o.bytes(d), []int{2, 0, 1}, pol, false, rev, true)
		delete(d, "users")
		o.accept("users absent", o.bytes(d), nil, pol, false, rev, true)
		d["users"] = nil
		o.accept("users null", o.bytes(d), nil, pol, false, rev, true)
		o.accept("empty document", []byte(pick(r, "{}", " { } \n", "{\n}\n")), nil, effPolicy(identity.Policy{}), true, 0, true)
		d = o.doc()
		d["version"] = pick(r, "0.9.0", "", "9.9.9")
		o.accept("another version", o.bytes(d), all, pol, false, rev, true)
		u := users(d)[r.Intn(3)].(obj)
		for _, f := range []string{"names", "roles", "name"} {
			if r.Intn(2) == 0 {
				u[f] = nil
			} else {
				delete(u, f)
			}
		}
		o.accept("optional parts absent", o.bytes(d), all, pol, false, rev, false)
	}

	// ---- inconsistent files
	trimmed := bytes.TrimSpace(o.base)
	for _, n := range []int{0, 1, len(trimmed) - 1, len(trimmed) - 2, r.Intn(len(trimmed)), r.Intn(len(trimmed)), r.Intn(len(trimmed)), len(trimmed) / 2} {
		o.reject("the first part only", trimmed[:n])
	}
	o.reject("zero bytes", bytes.Repeat([]byte{0}, []int{1, 100, 4096}[r.Intn(3)]))
	o.reject("garbage appended", append(append([]byte(nil), o.base...), pick(r, "x", "}", "{}", "null", "\x00", "//", string(o.base))...))
	o.reject("garbage in front", append([]byte(pick(r, "x", "{", "[", "null", "\x00", "//\n", "1")), o.base...))
	o.reject("a zeroed tail", append(append([]byte(nil), trimmed[:len(trimmed)*2/3]...), make([]byte, len(trimmed)-len(trimmed)*2/3)...))
	o.reject("another top level", []byte(pick(r, "[]", "1", "true", "\"x\"", "[{}]", "-", "nul", " ", "\n")))
	o.reject("a list around the document", append(append([]byte("["), trimmed...), ']'))
	for n := 0; n < 5; n++ {
		d := o.doc()
		u := users(d)[r.Intn(3)].(obj)
		type bad struct {
			at obj
			k  string
			v  interface{}
		}
		l := []bad{
			{d, "users", obj{}}, {d, "users", "x"}, {d, "users", 1}, {d, "users", []interface{}{1}}, {d, "users", []interface{}{"x"}}, {d, "users", []interface{}{[]interface{}{}}},
			{d, "revision", "x"}, {d, "revision", -1}, {d, "revision", 1.5}, {d, "last_modified", "yesterday"}, {d, "last_modified", 5}, {d, "version", 3}, {d, "policy", []interface{}{}}, {d, "policy", "x"},
			{d["policy"].(obj), "password", "x"}, {d["policy"].(obj)["password"].(obj), "min_length", "8"}, {d["policy"].(obj)["user"].(obj), "max_length", 1.5},
			{u, "username", 5}, {u, "username", obj{}}, {u, "id", 5}, {u, "passwords", obj{}}, {u, "passwords", "x"}, {u, "passwords", []interface{}{"x"}}, {u, "email_addresses", obj{}}, {u, "email_addresses", []interface{}{5}},
			{u, "api_keys", "x"}, {u, "api_keys", []interface{}{5}}, {u, "mfa_tokens", obj{}}, {u, "public_keys", 5}, {u, "roles", "x"}, {u, "roles", []interface{}{"x"}}, {u, "names", []interface{}{"x"}}, {u, "created", "x"}, {u, "revision", "x"},
			{u["passwords"].([]interface{})[0].(obj), "hash", 5}, {u["passwords"].([]interface{})[0].(obj), "disabled", "false"}, {u["email_addresses"].([]interface{})[0].(obj), "address", []interface{}{}},
		}
		x := l[r.Intn(len(l))]
		x.at[x.k] = x.v
		o.reject(fmt.Sprintf("%s = %v", x.k, x.v), o.bytes(d))
	}
	for n := 0; n < 3; n++ {
		d := o.doc()
		us := users(d)
		perm := r.Perm(3)
		a, b := us[perm[0]].(obj), us[perm[1]].(obj)
		b["username"] = caseVariant(r, a["username"].(string))
		o.reject("the same username twice", o.bytes(d))

		d = o.doc()
		us = users(d)
		a, b = us[perm[0]].(obj), us[perm[1]].(obj)
		am, bm := a["email_addresses"].([]interface{}), b["email_addresses"].([]interface{})
		v := caseVariant(r, am[0].(obj)["address"].(string))
		if n == 1 {
			b["email_addresses"] = append(bm, obj{"address": v, "domain": "x"})
			o.reject("the same e-mail as a second address", o.bytes(d))
		} else {
			bm[0].(obj)["address"] = v
			if n == 2 {
				b["email_address"] = obj{"address": v}
			}
			o.reject("the same e-mail twice", o.bytes(d))
		}

		d = o.doc()
		us = users(d)
		us[perm[1]].(obj)["id"] = us[perm[0]].(obj)["id"]
		o.reject("the same ID twice", o.bytes(d))

		d = o.doc()
		us = users(d)
		ak, _ := us[perm[0]].(obj)["api_keys"].([]interface{})
		bk, _ := us[perm[1]].(obj)["api_keys"].([]interface{})
		if len(ak) > 0 {
			k := ak[r.Intn(len(ak))]
			bk = append(bk, k)
			if r.Intn(2) == 0 {
				// same key, new label
				m := obj{}
				for x, y := range k.(obj) {
					m[x] = y
				}
				m["id"], m["comment"] = randFrom(r, alnum, 40), "other"
				bk[len(bk)-1] = m
				if r.Intn(2) == 0 {
					m["disabled"] = true
				}
			}
			r.Shuffle(len(bk), func(i, j int) { bk[i], bk[j] = bk[j], bk[i] })
			us[perm[1]].(obj)["api_keys"] = bk
			o.reject("the same API key twice", o.bytes(d))
		}
		d = o.doc()
		us = users(d)
		d["users"] = append(us, us[perm[2]])
		o.reject("the same user twice", o.bytes(d))
	}
	for n := 0; n < 6; n++ {
		d := o.doc()
		us := users(d)
		i := r.Intn(3)
		u := us[i].(obj)
		id := u["id"].(string)
		switch n {
		case 0:
			u["id"] = pick(r, "", "x", id[:35], id+"0", id[1:], " "+id, id+" ", id+"\n", strings.ReplaceAll(id, "-", ""), "urn:uuid:"+id, id+id, "{"+id+"}")
			o.reject("a malformed ID", o.bytes(d))
			delete(u, "id")
			o.reject("no ID", o.bytes(d))
		case 1:
			u["username"] = ""
			o.reject("an empty username", o.bytes(d))
			if r.Intn(2) == 0 {
				delete(u, "username")
			} else {
				u["username"] = nil
			}
			o.reject("no username", o.bytes(d))
		case 2:
			u["passwords"] = []interface{}{}
			o.reject("an empty list of passwords", o.bytes(d))
			if r.Intn(2) == 0 {
				delete(u, "passwords")
			} else {
				u["passwords"] = nil
			}
			o.reject("no passwords", o.bytes(d))
		case 3:
			us[i] = nil
			o.reject("a null user", o.bytes(d))
			d["users"] = append(us[:0:0], append(us, nil)...)
			us[i] = u
			o.reject("a null user at the end", o.bytes(d))
		default:
			for _, f := range []string{"names", "email_addresses", "passwords", "public_keys", "api_keys", "mfa_tokens", "roles"} {
				d := o.doc()
				u := users(d)[i].(obj)
				l, _ := u[f].([]interface{})
				at := r.Intn(len(l) + 1)
				l = append(l[:at:at], append([]interface{}{nil}, l[at:]...)...)
				if f == "passwords" && len(l) == 1 {
					continue
				}
				u[f] = l
				o.reject("a null entry in "+f, o.bytes(d))
			}
		}
	}
	// combined with missing limits: nothing may be stored
	{
		d := o.doc()
		delete(d, "policy")
		us := users(d)
		switch r.Intn(4) {
		case 0:
			us[2].(obj)["username"] = us[0].(obj)["username"]
		case 1:
			us[2].(obj)["id"] = "x"
		case 2:
			us[2].(obj)["passwords"] = nil
		case 3:
			us[2] = nil
		}
		o.reject("no policy and an inconsistent user", o.bytes(d))
	}
	// ---- random mutations
	for n := 0; n < 14; n++ {
		b := []byte(mutateBytes(r, string(o.base)))
		o.mutated("bytes", b)
		d := toGeneric(o.doc())
		b, err := json.Marshal(mutateDoc(r, w, d, 1+r.Intn(3)))
		if err == nil {
			o.mutated("structure", b)
		}
	}
	deep := []int{500, 9000, 20000}[r.Intn(3)]
	o.mutated("deep nesting", []byte(`{"users":`+strings.Repeat("[", deep)+strings.Repeat("]", deep)+"}"))
	o.mutated("deep unknown attribute", []byte(`{"x":`+strings.Repeat(`{"x":`, deep)+"1"+strings.Repeat("}", deep)+"}"))
	// ---- paths that are no files
	for _, p := range []string{"", "sub", "sub/sub2"} {
		dir := filepath.Join(c.Dir, "dirs")
		os.MkdirAll(filepath.Join(dir, "sub", "sub2"), 0700)
		x := filepath.Join(dir, p)
		before := snapshotDir(dir)
		db, err := openDB(x)
		if err == nil || db != nil {
			c.Violate([]string{"C17"}, "a directory was opened as a database")
		}
		if after := snapshotDir(dir); after != before {
			c.Violate([]string{"C17"}, "refusing a directory changed it: %s -> %s", before, after)
		}
	}
	c.Sample("base file with revision %d, users %q, %d files opened", rev, []string{w.users[0].username, w.users[1].username, w.users[2].username}, o.n)
}
