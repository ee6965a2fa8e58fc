package main

import (
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/rand"
	"net/url"
	"os"
	"path/filepath"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"syscall"
	"unsafe"

	identity "github.com/greenpau/go-identity"
	"github.com/greenpau/go-identity/pkg/requests"
	"golang.org/x/crypto/bcrypt"
)

// C18. Canary passwords and issued API keys are looked for in everything the
// library writes, returns and reports; modes are read from the file system
// under various umasks and from system call traces.

func init() {
	register(&Prop{ID: "C18", Level: "exploration",
		Rule:  "operations (valid, invalid, failing on I/O) with canary passwords and the API keys issued, under various umasks and on various paths; oracle: no canary, in clear or encoded, in any file below the directory, error, result or listing (reflective walk); stored hashes are bcrypt of default cost or more with distinct salts; modes of files, copies, created directories; in system call traces no data is written to a file others can read. Distinct: (operation, outcome, umask, kind of scan)",
		Cases: n2(700, 14000), Run: runC18})
}

// canary forms looked for
func canaryForms(s string) []string {
	j, _ := json.Marshal(s)
	f := []string{s, string(j[1 : len(j)-1]), base64.StdEncoding.EncodeToString([]byte(s)), base64.RawURLEncoding.EncodeToString([]byte(s)),
		hex.EncodeToString([]byte(s)), strings.ToUpper(hex.EncodeToString([]byte(s))), url.QueryEscape(s), fmt.Sprintf("%q", s)[1:], reverse(s)}
	if t := strings.TrimSpace(s); len(t) >= 12 {
		f = append(f, t)
	}
	if l := strings.ToLower(s); len(l) >= 12 {
		f = append(f, l)
	}
	return f
}

func reverse(s string) string {
	b := []byte(s)
	for i, j := 0, len(b)-1; i < j; i, j = i+1, j-1 {
		b[i], b[j] = b[j], b[i]
	}
	return string(b)
}

// deepStrings collects every string reachable from v, exported or not.
func deepStrings(v interface{}) []string {
	var out []string
	seen := map[uintptr]bool{}
	var walk func(x reflect.Value, d int)
	walk = func(x reflect.Value, d int) {
		if !x.IsValid() || d > 12 {
			return
		}
		switch x.Kind() {
		case reflect.String:
			out = append(out, x.String())
		case reflect.Ptr:
			if x.IsNil() || seen[x.Pointer()] {
				return
			}
			seen[x.Pointer()] = true
			walk(x.Elem(), d+1)
		case reflect.Interface:
			if !x.IsNil() {
				walk(x.Elem(), d+1)
			}
		case reflect.Slice:
			if x.Type().Elem().Kind() == reflect.Uint8 {
				out = append(out, string(x.Bytes()))
				return
			}
			for i := 0; i < x.Len(); i++ {
				walk(x.Index(i), d+1)
			}
		case reflect.Array:
			for i := 0; i < x.Len(); i++ {
				walk(x.Index(i), d+1)
			}
		case reflect.Map:
			for _, k := range x.MapKeys() {
				walk(k, d+1)
				walk(x.MapIndex(k), d+1)
			}
		case reflect.Struct:
			if x.Type().PkgPath() == "time" || x.Type().PkgPath() == "sync" {
				return
			}
			for i := 0; i < x.NumField(); i++ {
				f := x.Field(i)
				if f.CanAddr() {
					f = reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
				}
				walk(f, d+1)
			}
		}
	}
	walk(reflect.ValueOf(v), 0)
	return out
}

type secretEnv struct {
	c       *Ctx
	db      *identity.Database
	path    string
	arg     string
	dir     string
	umask   int
	canary  []string
	forms   []string
	formOf  map[string]string
	users   []*secretUser
	salts   map[string]string
	n       int
	copies  []string
	scanned int64
}

type secretUser struct {
	name, mail, pw string
	keys           []string
	keyIDs         []string
}

func (e *secretEnv) newCanary() string {
	r := e.c.R
	n := 12 + r.Intn(60)
	var s string
	switch r.Intn(6) {
	case 0:
		s = randFrom(r, alnum, n)
	case 1:
		s = " " + randFrom(r, alnum, n) + " \t"
	case 2:
		s = randFrom(r, alnum+"<>&\"'\\\n\t/", n)
	case 3:
		s = "пароль-" + randFrom(r, alnum, n)
	case 4:
		s = randFrom(r, alnum+"%sdvq{}$", n)
	default:
		s = randFrom(r, pwRunes, n)
	}
	s = fmt.Sprintf("K%d", e.n) + s + randFrom(r, alnum, 6)
	e.n++
	e.watch(s)
	return s
}

func (e *secretEnv) watch(s string) {
	e.canary = append(e.canary, s)
	for _, f := range canaryForms(s) {
		if _, ok := e.formOf[f]; !ok {
			e.formOf[f] = s
			e.forms = append(e.forms, f)
		}
	}
}

// scan looks for canaries in a text.
func (e *secretEnv) scan(what, txt string) {
	e.scanned++
	for _, f := range e.forms {
		if strings.Contains(txt, f) {
			e.c.Violate([]string{"C18"}, "%s contains the secret %q (as %q): %s", what, e.formOf[f], f, head(txt, 600))
		}
	}
}

func (e *secretEnv) scanValue(what string, v interface{}) {
	for _, s := range deepStrings(v) {
		e.scan(what, s)
	}
	e.scan(what, fmt.Sprintf("%+v", v))
	if b, err := json.Marshal(v); err == nil {
		e.scan(what, string(b))
	}
	e.c.Event("results_scanned")
}

// scanDir looks at every file below the directory: contents, modes, hashes.
func (e *secretEnv) scanDir(dir string) {
	c := e.c
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		if fi.Mode()&os.ModeSymlink != 0 {
			return nil
		}
		if fi.Mode().Perm()&0077 != 0 {
			c.Violate([]string{"C18"}, "%s has mode %v (umask %#o)", p, fi.Mode(), e.umask)
		}
		if fi.Mode().IsRegular() {
			b, _ := os.ReadFile(p)
			e.scan("file "+filepath.Base(p), string(b))
			c.Event("files_scanned")
			c.EventN("bytes_scanned", int64(len(b)))
		}
		c.Event("modes_seen")
		return nil
	})
}

// hashes checks every stored hash of the file.
func (e *secretEnv) hashes(b []byte) {
	c := e.c
	var f struct {
		Users []dUser `json:"users"`
	}
	if err := json.Unmarshal(b, &f); err != nil {
		return
	}
	one := func(what, h string) {
		cost, err := bcrypt.Cost([]byte(h))
		if err != nil || len(h) != 60 || h[0] != '$' {
			c.Violate([]string{"C18"}, "%s is not stored as a bcrypt hash: %q (%v)", what, h, err)
		}
		if cost < bcrypt.DefaultCost {
			c.Violate([]string{"C18"}, "%s is hashed with cost %d, below the default %d", what, cost, bcrypt.DefaultCost)
		}
		s := h[7:29]
		if was, ok := e.salts[s]; ok && was != h {
			c.Violate([]string{"C18", "C19"}, "%s is hashed with the salt %q of another hash", what, s)
		}
		e.salts[s] = h
		c.Event("hashes_checked")
	}
	all := map[string]bool{}
	for _, u := range f.Users {
		for i, p := range u.Passwords {
			one(fmt.Sprintf("password %d of %q", i, u.Username), p.Hash)
			if p.Cost != 0 && p.Cost < bcrypt.DefaultCost {
				c.Violate([]string{"C18"}, "password %d of %q is stored with cost %d", i, u.Username, p.Cost)
			}
			if all[p.Hash] {
				c.Violate([]string{"C18"}, "password %d of %q has the hash of another password", i, u.Username)
			}
			all[p.Hash] = true
		}
		for i, k := range u.APIKeys {
			one(fmt.Sprintf("API key %d of %q", i, u.Username), k.Payload)
			if all[k.Payload] {
				c.Violate([]string{"C18"}, "API key %d of %q has the hash of another", i, u.Username)
			}
			all[k.Payload] = true
		}
	}
}

func (e *secretEnv) req(u *secretUser) *requests.Request {
	q := requests.NewRequest()
	if u != nil {
		q.User.Username, q.User.Email = u.name, u.mail
	}
	return q
}

// do performs one operation and scans what comes back. clear removes from the
// request what the caller put into it.
func (e *secretEnv) do(op string, q *requests.Request, call func() error, clear func()) error {
	c := e.c
	c.Log("%s", op)
	err := c.Call(op, call)
	c.Event("op:" + op)
	if err != nil {
		c.Event("op_err:" + op)
		e.scan("error of "+op, err.Error())
		e.scan("error of "+op, fmt.Sprintf("%+v %#v", err, err))
		for _, s := range deepStrings(err) {
			e.scan("error of "+op, s)
		}
	}
	if clear != nil {
		clear()
	}
	if q != nil {
		e.scanValue("request after "+op, q)
	}
	c.Eval(fmt.Sprintf("%s/%v/%#o", op, err == nil, e.umask))
	return err
}

func noPw(q *requests.Request) func() {
	return func() { q.User.Password, q.User.OldPassword = "", "" }
}

func (e *secretEnv) fault() (string, func()) {
	c, r := e.c, e.c.R
	if r.Intn(2) == 0 {
		b, _ := os.ReadFile(e.path)
		setFsize(c, uint64(r.Intn(len(b)+200)))
		return "fsize", func() { setFsize(c, ^uint64(0)) }
	}
	bak := e.path + ".away"
	os.Rename(e.path, bak)
	os.Mkdir(e.path, 0700)
	return "dir", func() { os.RemoveAll(e.path); os.Rename(bak, e.path) }
}

func (e *secretEnv) step() {
	c, r := e.c, e.c.R
	var u *secretUser
	if len(e.users) > 0 {
		u = e.users[r.Intn(len(e.users))]
	}
	fault, undo := "", func() {}
	op := r.Intn(14)
	if r.Intn(6) == 0 {
		fault, undo = e.fault()
		c.Event("faults:" + fault)
	}
	store := false
	func() {
		defer undo()
		if u == nil || op == 0 {
			n := &secretUser{name: fmt.Sprintf("user%d%s", e.n, randFrom(r, alnum, 3)), mail: fmt.Sprintf("m%d@x%d.example", e.n, e.n), pw: e.newCanary()}
			if u != nil && r.Intn(4) == 0 {
				n.pw = u.pw // equal passwords
			}
			q := e.req(n)
			q.User.Password, q.User.FullName, q.User.Roles = n.pw, pick(r, "", "Doe, Jane"), []string{"a/b"}
			ok := true
			switch r.Intn(10) {
			case 0:
				q.User.Email, ok = "not-an-address", false
			case 1:
				q.User.FullName, ok = "one two three four five, six, seven", true
			case 2:
				q.User.Roles, ok = []string{" "}, false
			case 3:
				if u != nil {
					q.User.Username, ok = u.name, false
				}
			case 4:
				if u != nil {
					q.User.Email, ok = u.mail, false
				}
			case 5:
				q.User.Password = e.newCanary() + strings.Repeat("x", 200)
				ok = false
			case 6:
				q.User.Username, ok = "u", false
			}
			err := e.do("AddUser", q, func() error { return e.db.AddUser(q) }, noPw(q))
			if err == nil && ok {
				e.users = append(e.users, n)
			} else if err == nil {
				c.Event("unexpected_acceptance")
			}
			store = true
			return
		}
		switch op {
		case 1, 2:
			q := e.req(u)
			old, nw := u.pw, e.newCanary()
			switch r.Intn(5) {
			case 0:
				old = e.newCanary()
			case 1:
				nw = e.newCanary() + strings.Repeat("y", 300)
			case 2:
				nw = u.pw
			}
			q.User.OldPassword, q.User.Password = old, nw
			if e.do("ChangeUserPassword", q, func() error { return e.db.ChangeUserPassword(q) }, noPw(q)) == nil {
				u.pw = nw
			}
			store = true
		case 3, 4:
			q := requests.NewRequest()
			q.User.Username = pick(r, u.name, u.mail, "nobody-here", "none@none.example")
			q.User.Password = u.pw
			if r.Intn(2) == 0 {
				q.User.Password = e.newCanary()
			}
			e.do("AuthenticateUser", q, func() error { return e.db.AuthenticateUser(q) }, noPw(q))
		case 5:
			q := requests.NewRequest()
			q.User.Username = pick(r, u.name, u.mail, "nobody-here")
			q.Flags.Enabled = true
			e.do("IdentifyUser", q, func() error { return e.db.IdentifyUser(q) }, nil)
		case 6:
			q := e.req(u)
			e.do("GetUsers", q, func() error { return e.db.GetUsers(q) }, nil)
			if b, ok := q.Response.Payload.(*identity.UserMetadataBundle); ok {
				for _, m := range b.Get() {
					for _, s := range deepStrings(m) {
						if strings.HasPrefix(s, "$2") {
							c.Violate([]string{"C18"}, "user listing contains a password hash")
						}
					}
				}
			}
		case 7:
			q := e.req(u)
			e.do("GetUser", q, func() error { return e.db.GetUser(q) }, nil)
		case 8, 9:
			q := e.req(u)
			q.Key.Usage, q.Key.Comment = "api", randFrom(r, alnum, 8)
			if r.Intn(6) == 0 {
				q.Key.Comment = ""
			}
			var plain string
			err := e.do("AddAPIKey", q, func() error { return e.db.AddAPIKey(q) }, func() {
				plain, _ = q.Response.Payload.(string)
				q.Response.Payload = nil
				if len(plain) > 40 {
					e.watch(plain)
					// the prefix is stored, nothing else of the key is
					e.watch(plain[24:])
				}
			})
			if err == nil {
				if len(plain) < 72 {
					c.Violate([]string{"C18", "C10"}, "AddAPIKey returned %q", plain)
				}
				u.keys = append(u.keys, plain)
				c.Event("api_keys_watched")
			}
			store = true
		case 10:
			q := requests.NewRequest()
			if len(u.keys) > 0 && r.Intn(3) > 0 {
				q.Key.Payload = u.keys[r.Intn(len(u.keys))]
				if r.Intn(3) == 0 { // right prefix, wrong remainder
					q.Key.Payload = q.Key.Payload[:24] + reverse(q.Key.Payload[24:])
					e.watch(q.Key.Payload)
				}
			} else {
				q.Key.Payload = randFrom(r, alnum, 60+r.Intn(40))
				e.watch(q.Key.Payload)
			}
			e.do("LookupAPIKey", q, func() error { return e.db.LookupAPIKey(q) }, func() { q.Key.Payload = "" })
		case 11:
			q := e.req(u)
			q.Key.Usage = "api"
			e.do("GetAPIKeys", q, func() error { return e.db.GetAPIKeys(q) }, nil)
			q = e.req(u)
			q.Key.ID = randFrom(r, alnum, 40)
			e.do("DeleteAPIKey", q, func() error { return e.db.DeleteAPIKey(q) }, nil)
		case 12:
			e.do("Save", nil, func() error { return e.db.Save() }, nil)
			store = true
		case 13:
			dst := filepath.Join(e.dir, fmt.Sprintf("copy%d.json", r.Intn(4)))
			if r.Intn(5) == 0 {
				dst = filepath.Join(e.dir, "none", "copy.json")
			}
			e.do("Copy", nil, func() error { return e.db.Copy(dst) }, nil)
			store = true
		}
	}()
	if store {
		e.scanDir(e.dir)
		if b, err := os.ReadFile(e.path); err == nil {
			e.hashes(b)
		}
	}
	if r.Intn(12) == 0 {
		c.Log("reopen")
		var db *identity.Database
		err := c.Call("NewDatabase", func() error { var x error; db, x = openDB(e.arg); return x })
		if err != nil {
			c.Violate([]string{"C05", "C17"}, "cannot reopen: %v", err)
		}
		e.db = db
		e.scanDir(e.dir)
	}
}

func runC18(c *Ctx) {
	r := c.R
	switch c.Case % 10 {
	case 7:
		c18Trace(c)
		return
	case 8:
		c18Salts(c)
		return
	case 9:
		c18Dirs(c)
		return
	}
	e := newSecretEnv(c)
	um := []int{0, 0, 0002, 0022, 0027, 0077, 0007}[r.Intn(7)]
	e.umask = um
	old := syscall.Umask(um)
	defer syscall.Umask(old)
	e.dir = filepath.Join(c.Dir, "top")
	e.path = filepath.Join(e.dir, pick(r, "db.json", "a/db.json", "a/b c/ü/users.json"))
	e.arg = e.path
	c.Log("umask %#o path %s", um, e.path)
	if err := c.Call("NewDatabase", func() error { var x error; e.db, x = openDB(e.arg); return x }); err != nil {
		c.Violate([]string{"C17", "C05"}, "cannot create: %v", err)
	}
	e.scanDir(e.dir)
	for i := 0; i < 45; i++ {
		e.step()
	}
	c.EventN("canary_scans", e.scanned)
	c.EventN("canaries", int64(len(e.canary)))
	for s, h := range e.salts {
		c.res.Blobs["salt:"+s] = h
	}
	c.Sample("umask %#o, %d canaries, %d texts scanned, %d users, last operations %v", um, len(e.canary), e.scanned, len(e.users), c.trace[maxi(0, len(c.trace)-6):])
}

func newSecretEnv(c *Ctx) *secretEnv {
	return &secretEnv{c: c, formOf: map[string]string{}, salts: map[string]string{}}
}

// c18Salts: equal passwords have different hashes, through every door.
func c18Salts(c *Ctx) {
	r := c.R
	e := newSecretEnv(c)
	e.dir = filepath.Join(c.Dir, "top")
	e.path = filepath.Join(e.dir, "db.json")
	e.arg = e.path
	db, err := openDB(e.path)
	if err != nil {
		c.Violate([]string{"C17", "C05"}, "cannot create: %v", err)
	}
	e.db = db
	pw := e.newCanary()
	pw2 := e.newCanary()
	hs := map[string]bool{}
	note := func(what, h string) {
		if hs[h] {
			c.Violate([]string{"C18"}, "%s: equal passwords have the same hash %q", what, h)
		}
		if cost, err := bcrypt.Cost([]byte(h)); err != nil || cost < bcrypt.DefaultCost {
			c.Violate([]string{"C18"}, "%s: hash %q has cost %d (%v)", what, h, cost, err)
		}
		if bcrypt.CompareHashAndPassword([]byte(h), []byte(pw)) != nil && bcrypt.CompareHashAndPassword([]byte(h), []byte(pw2)) != nil {
			c.Violate([]string{"C18", "C01"}, "%s: hash %q is not one of the password", what, h)
		}
		s := h[7:29]
		if _, ok := e.salts[s]; ok {
			c.Violate([]string{"C18"}, "%s: salt %q used twice", what, s)
		}
		e.salts[s] = h
		hs[h] = true
		c.Eval("salt/" + what)
		c.Event("salts_compared")
	}
	for i := 0; i < 6; i++ {
		var p *identity.Password
		if err := c.Call("NewPassword", func() error { var x error; p, x = identity.NewPassword(pw); return x }); err != nil {
			c.Violate([]string{"C18", "C01"}, "NewPassword: %v", err)
		}
		note("NewPassword", p.Hash)
		e.scanValue("Password", p)
		opts := []map[string]interface{}{nil, {}, {"cost": 0}, {"cost": 10}, {"cost": 11}, {"cost": 7}, {"cost": -3}}[r.Intn(7)]
		p, err := identity.NewPasswordWithOptions(pw, "generic", "bcrypt", opts)
		if err != nil {
			c.Violate([]string{"C18", "C01"}, "NewPasswordWithOptions(%v): %v", opts, err)
		}
		note("NewPasswordWithOptions", p.Hash)
		u, err := identity.NewUserWithRoles("jsmith", pw, "j@x.example", "Smith, John", []string{"r"})
		if err != nil {
			c.Violate([]string{"C18", "C24"}, "NewUserWithRoles: %v", err)
		}
		note("NewUserWithRoles", u.Passwords[0].Hash)
		q := requests.NewRequest()
		q.User.OldPassword, q.User.Password = pw, pw2
		if err := u.ChangePassword(q, 5); err != nil {
			c.Violate([]string{"C18", "C02"}, "ChangePassword: %v", err)
		}
		q.User.OldPassword, q.User.Password = pw2, pw
		if err := u.ChangePassword(q, 5); err != nil {
			c.Violate([]string{"C18", "C02"}, "ChangePassword: %v", err)
		}
		for j, p := range u.Passwords {
			if j < 2 {
				note("ChangePassword", p.Hash)
			}
		}
		e.scanValue("User", u)
		e.scanValue("UserMetadata", u.GetMetadata())
		q = requests.NewRequest()
		q.User.Username, q.User.Email, q.User.Password = fmt.Sprintf("user%d", i), fmt.Sprintf("m%d@x.example", i), pw
		if err := db.AddUser(q); err != nil {
			c.Violate([]string{"C18", "C03"}, "AddUser: %v", err)
		}
	}
	for k := 0; k < 3; k++ {
		q := requests.NewRequest()
		q.User.Username, q.User.Email, q.User.OldPassword, q.User.Password = "user0", "m0@x.example", pw, pw2
		if k == 1 {
			q.User.OldPassword, q.User.Password = pw2, pw
		}
		if err := db.ChangeUserPassword(q); err != nil {
			c.Violate([]string{"C18", "C02"}, "ChangeUserPassword: %v", err)
		}
	}
	b, _ := os.ReadFile(e.path)
	e.hashes(b)
	e.scanDir(e.dir)
	for s, h := range e.salts {
		c.res.Blobs["salt:"+s] = h
	}
}

// c18Dirs: modes of directories, files and copies under every umask.
func c18Dirs(c *Ctx) {
	r := c.R
	for k := 0; k < 12; k++ {
		um := []int{0, 0001, 0010, 0002, 0022, 0027, 0077, 0007, 0070, 0066}[r.Intn(10)]
		e := newSecretEnv(c)
		e.umask = um
		base := filepath.Join(c.Dir, fmt.Sprintf("d%d", k))
		pre := filepath.Join(base, "shared")
		os.MkdirAll(pre, 0700)
		pm := []os.FileMode{0755, 0777, 0700, 0711}[r.Intn(4)]
		os.Chmod(pre, pm)
		depth := r.Intn(5)
		dir := pre
		for i := 0; i < depth; i++ {
			dir = filepath.Join(dir, pick(r, "x", "y z", "ü", "d.d"))
		}
		path := filepath.Join(dir, "db.json")
		arg := path
		if r.Intn(4) == 0 {
			hd := os.Getenv("HOME")
			if rel, err := filepath.Rel(hd, path); err == nil && !strings.HasPrefix(rel, "..") {
				arg = "~/" + rel
			}
		}
		old := syscall.Umask(um)
		err := c.Call("NewDatabase", func() error { _, x := openDB(arg); return x })
		var db *identity.Database
		if err == nil {
			db, err = openDB(arg)
		}
		syscall.Umask(old)
		if err != nil {
			c.Violate([]string{"C17", "C05"}, "cannot create %s: %v", arg, err)
		}
		cp := filepath.Join(dir, "copy.json")
		syscall.Umask(um)
		err = db.Copy(cp)
		if err == nil {
			err = db.Save()
		}
		syscall.Umask(old)
		if err != nil {
			c.Violate([]string{"C05"}, "Copy or Save: %v", err)
		}
		for p := dir; p != pre && len(p) > len(pre); p = filepath.Dir(p) {
			fi, err := os.Lstat(p)
			if err != nil || fi.Mode().Perm()&0077 != 0 {
				c.Violate([]string{"C18"}, "directory %s created for the database has mode %v (umask %#o, %v)", p, fi.Mode(), um, err)
			}
			if fi.Mode().Perm()&0700 != 0700 {
				c.Violate([]string{"C18"}, "directory %s created for the database has mode %v: its owner cannot use it", p, fi.Mode())
			}
			c.Event("directories_created")
		}
		if fi, _ := os.Lstat(pre); fi.Mode().Perm() != pm {
			c.Violate([]string{"C18"}, "mode of the existing directory changed from %v to %v", pm, fi.Mode())
		}
		for _, p := range []string{path, cp} {
			fi, err := os.Lstat(p)
			if err != nil || fi.Mode().Perm() != 0600 {
				c.Violate([]string{"C18"}, "%s has mode %v, expected -rw------- (umask %#o, %v)", p, fi.Mode(), um, err)
			}
			c.Event("modes_seen")
		}
		ents, _ := os.ReadDir(dir)
		for _, x := range ents {
			fi, _ := x.Info()
			if !x.IsDir() && fi.Mode().Perm()&0077 != 0 {
				c.Violate([]string{"C18"}, "file %s has mode %v", x.Name(), fi.Mode())
			}
		}
		c.Eval(fmt.Sprintf("dirs/%#o/%d/%v/%v", um, depth, pm, arg != path))
	}
}

var (
	openatRe = regexp.MustCompile(`^(?:\d+ +)?openat\([^,]+, "((?:[^"\\]|\\.)*)", ([A-Z_|0-9a-z]+)(?:, (0[0-7]*))?\)\s*= (\d+)`)
	fdRe     = regexp.MustCompile(`^(?:\d+ +)?(write|pwrite64|writev|close|fchmod|ftruncate)\((\d+)(?:, (0[0-7]*)\))?`)
	pathRe   = regexp.MustCompile(`^(?:\d+ +)?(rename|renameat|renameat2|unlink|unlinkat|chmod|fchmodat|mkdir|mkdirat|link|linkat)\((.*)\)\s*= 0`)
	quotedRe = regexp.MustCompile(`"((?:[^"\\]|\\.)*)"`)
	modeRe   = regexp.MustCompile(`, (0[0-7]+)(?:, 0)?$`)
)

// c18Trace reads the modes of files at the moment they are written from the
// system calls of a child running with umask 0.
func c18Trace(c *Ctx) {
	if !straceReady(c) {
		c.Event("strace_unavailable")
		return
	}
	for k := 0; k < 3; k++ {
		op := crashOps[(c.Case/10*3+k)%len(crashOps)]
		sub := *c
		sub.Dir = filepath.Join(c.Dir, fmt.Sprintf("t%d", k))
		os.MkdirAll(sub.Dir, 0700)
		e := &crashEnv{c: &sub, kind: pick(c.R, "", "", "symlink", "nested")}
		e.prepare(op)
		old := syscall.Umask(0)
		var r *crashRun
		inject, what := "", "no fault"
		if c.R.Intn(3) == 0 {
			call := pick(c.R, "rename", "renameat", "fsync", "write", "fchmod", "close")
			inject = fmt.Sprintf("%s:error=%s:when=%d", call, pick(c.R, "EIO", "ENOSPC", "EBUSY", "EACCES"), 1+c.R.Intn(3))
			what = inject
		}
		r = e.run(true, inject, -1, false, nil)
		syscall.Umask(old)
		if inject == "" && r.out != "OK" {
			c.Harness("trace of %s: %q %v", op, r.out, r.err)
		}
		c.Log("%s with %s on %s path", op, what, e.kind)
		c18Judge(c, e, r, op)
		c.trace = append(c.trace, sub.trace...)
	}
}

func c18Judge(c *Ctx, e *crashEnv, r *crashRun, op string) {
	modes := map[string]int{} // of files the library created or changed
	fds := map[string]string{}
	in := false
	n := 0
	for _, l := range r.trace {
		if strings.Contains(l.text, "mark-begin") {
			in = true
			continue
		}
		if strings.Contains(l.text, "mark-end") {
			break
		}
		if !in {
			continue
		}
		if m := openatRe.FindStringSubmatch(l.text); m != nil {
			fds[m[4]] = m[1]
			if strings.Contains(m[2], "O_CREAT") && m[3] != "" {
				if _, ok := modes[m[1]]; !ok && !e.existed(r, m[1]) {
					v, _ := strconv.ParseInt(m[3], 8, 32)
					modes[m[1]] = int(v)
				}
			}
			continue
		}
		if m := fdRe.FindStringSubmatch(l.text); m != nil {
			p, known := fds[m[2]]
			if !known {
				continue
			}
			switch m[1] {
			case "fchmod":
				if strings.HasSuffix(strings.TrimSpace(l.text), "= 0") && m[3] != "" {
					v, _ := strconv.ParseInt(m[3], 8, 32)
					modes[p] = int(v)
				}
			case "close":
				delete(fds, m[2])
			case "write", "pwrite64", "writev":
				n++
				c.Eval(fmt.Sprintf("write/%s/%s/%v", op, e.kind, modes[p]))
				if modes[p]&0077 != 0 && strings.HasPrefix(p, r.dir) {
					c.Violate([]string{"C18"}, "%s writes to %s while its mode is %#o:\n%s", op, p, modes[p], head(r.raw[strings.Index(r.raw, "mark-begin"):], 2500))
				}
			}
			continue
		}
		if m := pathRe.FindStringSubmatch(l.text); m != nil {
			q := quotedRe.FindAllStringSubmatch(m[2], -1)
			if len(q) == 0 {
				continue
			}
			switch m[1] {
			case "rename", "renameat", "renameat2":
				if len(q) == 2 {
					if v, ok := modes[q[0][1]]; ok {
						modes[q[1][1]] = v
						delete(modes, q[0][1])
					}
				}
			case "chmod", "fchmodat":
				if x := modeRe.FindStringSubmatch(m[2]); x != nil {
					v, _ := strconv.ParseInt(x[1], 8, 32)
					if v&0077 != 0 && strings.HasPrefix(q[0][1], r.dir) {
						c.Violate([]string{"C18"}, "%s makes %s accessible to others: %s", op, q[0][1], l.text)
					}
					modes[q[0][1]] = int(v)
				}
			case "mkdir", "mkdirat":
				if x := modeRe.FindStringSubmatch(m[2]); x != nil {
					v, _ := strconv.ParseInt(x[1], 8, 32)
					if v&0077 != 0 && strings.HasPrefix(q[0][1], r.dir) {
						c.Violate([]string{"C18"}, "%s creates directory %s accessible to others: %s", op, q[0][1], l.text)
					}
					c.Event("directories_created_in_traces")
				}
			}
		}
	}
	for p, m := range modes {
		if m&0077 != 0 && strings.HasPrefix(p, r.dir) {
			c.Violate([]string{"C18"}, "%s leaves %s with mode %#o", op, p, m)
		}
	}
	c.EventN("writes_in_traces", int64(n))
	c.Event("operations_traced:" + op)
	// nothing of the secrets in what is left on disk
	env := newSecretEnv(c)
	for _, s := range append([]string{e.job.NewPw, e.job.Pw}, e.w.secrets...) {
		if len(s) >= 10 {
			env.watch(s)
		}
	}
	filepath.Walk(r.dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil || !fi.Mode().IsRegular() || filepath.Base(p) == "job" || filepath.Base(p) == "trace" {
			return nil
		}
		b, _ := os.ReadFile(p)
		env.scan("file "+p, string(b))
		c.Event("files_scanned")
		if fi.Mode().Perm()&0077 != 0 {
			c.Violate([]string{"C18"}, "%s leaves %s with mode %v", op, p, fi.Mode())
		}
		return nil
	})
}

// existed tells whether a path was there before the operation.
func (e *crashEnv) existed(r *crashRun, p string) bool {
	switch p {
	case r.path, r.arg:
		return e.tmpl != nil
	case r.cpath:
		return e.cpre != nil
	}
	return false
}

// C23 -----------------------------------------------------------------------

func init() {
	register(&Prop{ID: "C23", Level: "exploration",
		Rule:  "after a history, unknown identifiers of every kind (near-misses of existing ones, e-mail-like, blank, arbitrary bytes) are presented with passwords of every kind (blank, over-long, with NUL, former and current passwords of others), and the same passwords wrongly for existing users; oracle: equal response code and equal nominal bcrypt rounds counted in the bcrypt implementation; identification of unknown identifiers gives the same placeholder whatever the request held before. Distinct: (kind of identifier, kind of password, work)",
		Cases: n2(500, 16000), Run: runC23})
}

func (w *World) unknownIdent(r *rand.Rand) (string, string) {
	for i := 0; i < 50; i++ {
		var s, k string
		u := w.pickUser()
		switch r.Intn(12) {
		case 0:
			s, k = genUsername(r, 3, 20), "username"
		case 1:
			s, k = genEmail(r), "e-mail"
		case 2:
			s, k = "", "empty"
		case 3:
			s, k = pick(r, " ", "@", "\x00", "\t", "@@", "a@", "@b", "%s", "*", ".*", "../..", "nobody", "nobody@localhost", "null"), "odd"
		case 4:
			s, k = string(randBytes(r, 1+r.Intn(60))), "bytes"
		case 5:
			s, k = u.username+pick(r, "x", " ", "\x00", "@", "."), "near username"
		case 6:
			s, k = pick(r, "x", " ", "\x00")+u.email, "near e-mail"
		case 7:
			s, k = u.username[:len(u.username)-1], "prefix of username"
		case 8:
			s, k = u.id, "user ID"
		case 9:
			s, k = strings.Repeat(u.username, 1+r.Intn(300))+"x", "long"
		case 10:
			s, k = u.email+pick(r, ".x", " ", "@x.y"), "near e-mail"
		default:
			s, k = u.first+"@"+u.last, "name"
		}
		if x, known := w.signInUser(s); known && x == nil {
			return s, k
		}
	}
	return "surely-unknown-identifier", "username"
}

func (w *World) anyPassword(r *rand.Rand) (string, string) {
	u := w.pickUser()
	switch r.Intn(14) {
	case 0:
		return pick(r, " ", "  ", "\t", "\n", " \t\r\n ", "\u00a0", "\u2003\u3000", "\v\f"), "blank"
	case 1:
		return randFrom(r, alnum, 73+r.Intn(60)), "beyond 72 bytes"
	case 2:
		return strings.Repeat(randFrom(r, pwRunes, 10), 10+r.Intn(500)), "over-long"
	case 3:
		return "\x00" + randFrom(r, alnum, r.Intn(20)), "leading NUL"
	case 4:
		return string(randBytes(r, 1+r.Intn(100))), "bytes"
	case 5:
		return pick(r, "x", "-", "0", "é", "$"), "one character"
	case 6:
		if len(u.former) > 0 {
			return u.former[r.Intn(len(u.former))], "former password"
		}
		return u.pw, "password of a user"
	case 7:
		return u.pw, "password of a user"
	case 8:
		p := w.dumps[w.idx(u)]
		if d := parseUser(w.c, p); len(d.Passwords) > 0 {
			return d.Passwords[0].Hash, "hash"
		}
		return "x", "one character"
	case 9:
		return randFrom(r, alnum, 72), "72 bytes"
	case 10:
		return "\n", "blank"
	}
	return genPassword(r, 8, 60), "ordinary"
}

func runC23(c *Ctx) {
	r := c.R
	var pol *identity.Policy
	if r.Intn(3) == 0 {
		pol = &identity.Policy{Password: identity.PasswordPolicy{MinLength: 1 + r.Intn(12), MaxLength: 20 + r.Intn(100), KeepVersions: 1 + r.Intn(5)}}
	}
	w := newWorld(c, worldOpts{policy: pol, checkEvery: 100, weights: mix(map[string]int{"chpw": 14}), faultProb: 0.05})
	w.seedUsers(1 + r.Intn(4))
	w.history(12 + r.Intn(14))
	var holder string
	for i := 0; i < 26; i++ {
		id, idKind := w.unknownIdent(r)
		pw, pwKind := w.anyPassword(r)
		u := w.pickUser()
		if pw == u.pw || bcryptEquiv(pw, u.pw) || pw == "" {
			continue
		}
		ident := u.username
		if r.Intn(2) == 0 {
			ident = u.email
		}
		if x, known := w.signInUser(ident); !known || x != u {
			continue
		}
		c.Log("unknown %q (%s) against %q with password %q (%s)", id, idKind, ident, pw, pwKind)
		preset := []int{0, 200, 400, 7}[r.Intn(4)]
		sign := func(s string) (int, uint64, error) {
			q := requests.NewRequest()
			q.User.Username, q.User.Password = s, pw
			q.Response.Code = preset
			b := bcrypt.WorkCounter
			err := c.Call("AuthenticateUser", func() error { return w.db.AuthenticateUser(q) })
			return q.Response.Code, bcrypt.WorkCounter - b, err
		}
		var c1, c2 int
		var w1, w2 uint64
		var e1, e2 error
		if r.Intn(2) == 0 {
			c1, w1, e1 = sign(id)
			c2, w2, e2 = sign(ident)
		} else {
			c2, w2, e2 = sign(ident)
			c1, w1, e1 = sign(id)
		}
		if e1 == nil || e2 == nil {
			c.Violate([]string{"C01"}, "sign-in of unknown %q gives %v, of %q with a wrong password %v", id, e1, ident, e2)
		}
		c.Eval(fmt.Sprintf("%s/%s/%d/%d", idKind, pwKind, w1, len(u.former)))
		c.Event("sign_ins_compared")
		c.EventN("bcrypt_rounds_counted", int64(w1+w2))
		if c1 != c2 {
			c.Violate([]string{"C23"}, "response code %d for unknown %q, %d for a wrong password of %q (password %q)", c1, id, c2, ident, pw)
		}
		if w1 != w2 {
			c.Violate([]string{"C23"}, "%d rounds of hashing for unknown %q, %d for a wrong password of %q (password %q, %s)", w1, id, w2, ident, pw, pwKind)
		}
		if w2 == 0 {
			c.Violate([]string{"C23", "C01"}, "no hashing at all for a wrong password %q of %q", pw, ident)
		}
		// without a password
		q1, q2 := requests.NewRequest(), requests.NewRequest()
		q1.User.Username, q2.User.Username = id, ident
		if r.Intn(2) == 0 {
			q1.WebAuthn.Request = b64json(map[string]interface{}{"id": "x"})
			q2.WebAuthn.Request = q1.WebAuthn.Request
			q1.WebAuthn.Challenge, q2.WebAuthn.Challenge = "y", "y"
		}
		c.Call("AuthenticateUser", func() error { return w.db.AuthenticateUser(q1) })
		c.Call("AuthenticateUser", func() error { return w.db.AuthenticateUser(q2) })
		if q1.Response.Code != q2.Response.Code {
			c.Violate([]string{"C23"}, "response code %d for unknown %q, %d for %q, both without a password", q1.Response.Code, id, q2.Response.Code, ident)
		}
		// identification
		q := requests.NewRequest()
		q.User.Username = id
		q.Flags.Enabled = true
		if r.Intn(2) == 0 {
			// the request served another identification before
			q.User.Username = ident
			c.Call("IdentifyUser", func() error { return w.db.IdentifyUser(q) })
			q.User.Username = id
			q.Response.Code = 0
			c.Event("requests_reused")
		}
		if err := c.Call("IdentifyUser", func() error { return w.db.IdentifyUser(q) }); err != nil {
			c.Violate([]string{"C23"}, "identification of unknown %q fails: %v", id, err)
		}
		q.Flags.Enabled = false
		b, _ := json.Marshal(q)
		if q.User.Username == id && id != "nobody" || q.User.FullName != "" || len(q.User.Roles) > 0 || len(q.User.Challenges) != 1 || q.User.Challenges[0] != "password" || q.Flags != (requests.Flags{}) || q.Response.Payload != nil {
			c.Violate([]string{"C23"}, "identification of unknown %q gives %s", id, b)
		}
		if holder != "" && holder != string(b) {
			c.Violate([]string{"C23"}, "placeholders of unknown identifiers differ: %s and %s (of %q)", holder, b, id)
		}
		holder = string(b)
		c.Event("placeholders_compared")
		if i%9 == 8 {
			w.history(1)
		}
	}
	c.Sample("unknown identifiers against users of %d, placeholder %s", len(w.users), holder)
}
