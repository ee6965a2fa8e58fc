package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	identity "github.com/greenpau/go-identity"
	"github.com/greenpau/go-identity/pkg/requests"
)

// C06. A child process performs one storing operation on a scratch database
// while it is killed or its system calls fail at chosen points; afterwards the
// file must be the complete state from before or after the operation. Readers
// polling the file during operations must see complete states in order.

func init() {
	register(&Prop{ID: "C06", Level: "fault_enumeration",
		Rule:  "a child performs one create/add/change/delete/save/copy operation on a prepared database; it is killed at each system call that touches files (strace signal injection), each of these calls is made to fail (ENOSPC, EIO, EACCES, EMFILE), and it is killed resp. refused when its file reaches a byte offset (RLIMIT_FSIZE with default resp. ignored SIGXFSZ); then the file is compared with the state before and judged as the state after, opened, and operated on. Readers poll the file during unimpeded operations and during operations slowed down at every file system call. Every (operation, fault, point, outcome) is one evaluation",
		Cases: n2(51, 340), Run: runC06,
		Assumptions: []string{"process death, not power loss: what the kernel accepted survives", "one fault per operation"}})
	childCmds["crash"] = crashChild
}

// crashJob tells the child what to do.
type crashJob struct {
	Path  string `json:"path"`
	Op    string `json:"op"`
	Copy  string `json:"copy"`
	Fsize int64  `json:"fsize"` // <0: unlimited
	Soft  bool   `json:"soft"`  // ignore SIGXFSZ: the write fails instead
	Mark  string `json:"mark"`
	User  string `json:"user"`
	Mail  string `json:"mail"`
	Pw    string `json:"-"`
	NewPw string `json:"-"`
	// the passwords, which need not be text
	Raw  [2][]byte `json:"raw"`
	Key  string    `json:"key"`
	ID   string    `json:"id"`
	Sec  string    `json:"sec"`
	Reps int       `json:"reps"`
}

func (j *crashJob) req() *requests.Request {
	r := requests.NewRequest()
	r.User.Username, r.User.Email = j.User, j.Mail
	return r
}

// perform runs the operation of the job on an open database.
func (j *crashJob) perform(db *identity.Database) error {
	r := j.req()
	switch j.Op {
	case "save":
		return db.Save()
	case "copy":
		return db.Copy(j.Copy)
	case "adduser":
		r.User.Username, r.User.Email = "crash-user", "crash-user@crash.example"
		r.User.Password, r.User.FullName, r.User.Roles = j.NewPw, "Crash, User", []string{"crash/role"}
		return db.AddUser(r)
	case "password":
		r.User.OldPassword, r.User.Password = j.Pw, j.NewPw
		return db.ChangeUserPassword(r)
	case "addkey":
		r.Key.Usage, r.Key.Payload, r.Key.Comment = "ssh", j.Key, "crash"
		return db.AddPublicKey(r)
	case "delkey":
		r.Key.ID = j.ID
		return db.DeletePublicKey(r)
	case "addapi":
		r.Key.Usage, r.Key.Comment = "api", "crash"
		return db.AddAPIKey(r)
	case "delapi":
		r.Key.ID = j.ID
		return db.DeleteAPIKey(r)
	case "addmfa":
		r.MfaToken.Type, r.MfaToken.Comment, r.MfaToken.Secret = "totp", "crash", j.Sec
		r.MfaToken.Algorithm, r.MfaToken.Period, r.MfaToken.Digits, r.MfaToken.Passcode = "sha1", 60, 6, refTOTP([]byte(j.Sec), "sha1", 6, stepOf(time.Now(), 60))
		return db.AddMfaToken(r)
	case "delmfa":
		r.MfaToken.ID = j.ID
		return db.DeleteMfaToken(r)
	}
	return fmt.Errorf("HARNESS: unknown op %q", j.Op)
}

// crashChild opens the database, announces the operation by touching a path
// that does not exist (visible in the system call trace), performs it and
// reports the outcome.
func crashChild(args []string) {
	b, err := os.ReadFile(args[0])
	if err != nil {
		fmt.Println("HARNESS", err)
		os.Exit(3)
	}
	var j crashJob
	if err := json.Unmarshal(b, &j); err != nil {
		fmt.Println("HARNESS", err)
		os.Exit(3)
	}
	j.Pw, j.NewPw = string(j.Raw[0]), string(j.Raw[1])
	limit := func() {
		if j.Fsize < 0 {
			return
		}
		signal.Reset(syscall.SIGXFSZ)
		if j.Soft {
			signal.Ignore(syscall.SIGXFSZ)
		}
		syscall.Setrlimit(syscall.RLIMIT_CORE, &syscall.Rlimit{})
		if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: uint64(j.Fsize), Max: uint64(j.Fsize)}); err != nil {
			fmt.Println("HARNESS", err)
			os.Exit(3)
		}
	}
	var db *identity.Database
	if j.Op != "open" {
		if db, err = openDB(j.Path); err != nil {
			fmt.Println("HARNESS open", err)
			os.Exit(3)
		}
	}
	if j.Reps < 1 {
		j.Reps = 1
	}
	limit()
	os.Open(j.Mark + "-begin")
	var opErr error
	for i := 0; i < j.Reps && opErr == nil; i++ {
		if j.Op == "open" {
			_, opErr = openDB(j.Path)
		} else {
			opErr = j.perform(db)
		}
	}
	os.Open(j.Mark + "-end")
	if opErr != nil {
		fmt.Println("ERR", opErr)
		return
	}
	fmt.Println("OK")
}

const fileCalls = "openat,open,creat,write,pwrite64,writev,pwritev,read,pread64,fsync,fdatasync,sync_file_range,rename,renameat,renameat2,link,linkat,unlink,unlinkat,rmdir,close,fchmod,fchmodat,fchmodat2,chmod,fchown,fchownat,chown,lchown,ftruncate,truncate,fallocate,mkdir,mkdirat,newfstatat,fstat,stat,lstat,statx,readlinkat,readlink,symlink,symlinkat,copy_file_range,sendfile,splice,utimensat,flock,fcntl,mmap,msync"

// crashEnv is the prepared situation of a case.
type crashEnv struct {
	c     *Ctx
	w     *World
	job   crashJob
	tmpl  []byte // database file before (nil: none)
	cpre  []byte // copy target before (nil: none)
	u     *mUser
	dumps []string
	n     int
	// how the path is given to the library
	kind string
}

type crashRun struct {
	out    string
	err    error
	killed bool
	trace  []traceLine
	file   []byte // nil: absent
	copy   []byte
	dir    string
	path   string // real file
	arg    string // as given to the library
	cpath  string
	began  bool
	ended  bool
	raw    string
}

type traceLine struct {
	call string
	text string
	inj  bool
}

var lineRe = regexp.MustCompile(`^(?:\d+ +)?([a-z_0-9]+)\((.*)$`)

func parseTrace(s string) (out []traceLine) {
	for _, l := range strings.Split(s, "\n") {
		m := lineRe.FindStringSubmatch(l)
		if m == nil {
			continue
		}
		out = append(out, traceLine{call: m[1], text: l, inj: strings.Contains(l, "(INJECTED)") || strings.Contains(l, "(DELAYED)")})
	}
	return
}

// run executes the child once. inject is a strace injection ("" = plain run
// without strace unless traced).
func (e *crashEnv) run(traced bool, inject string, fsize int64, soft bool, watch func(path string, done chan struct{})) *crashRun {
	c := e.c
	e.n++
	d := filepath.Join(c.Dir, fmt.Sprintf("r%d", e.n))
	os.MkdirAll(d, 0700)
	r := &crashRun{dir: d, path: filepath.Join(d, "db.json"), cpath: filepath.Join(d, "copy.json")}
	r.arg = r.path
	switch e.kind {
	case "symlink":
		os.MkdirAll(filepath.Join(d, "real"), 0700)
		r.path = filepath.Join(d, "real", "data.json")
		os.Symlink(r.path, r.arg)
	case "nested":
		r.path = filepath.Join(d, "x", "ü y", "db.json")
		r.arg = r.path
	}
	if e.tmpl != nil {
		os.MkdirAll(filepath.Dir(r.path), 0700)
		if err := os.WriteFile(r.path, e.tmpl, 0600); err != nil {
			c.Harness("template: %v", err)
		}
	}
	if e.cpre != nil {
		if err := os.WriteFile(r.cpath, e.cpre, 0600); err != nil {
			c.Harness("template: %v", err)
		}
	}
	j := e.job
	j.Path, j.Copy, j.Fsize, j.Soft, j.Mark = r.arg, r.cpath, fsize, soft, filepath.Join(d, "no-such-dir", "mark")
	j.Raw = [2][]byte{[]byte(j.Pw), []byte(j.NewPw)}
	b, _ := json.Marshal(j)
	jf := filepath.Join(d, "job")
	os.WriteFile(jf, b, 0600)
	self, _ := os.Executable()
	argv := []string{self, "child", "crash", jf}
	tf := filepath.Join(d, "trace")
	if traced || inject != "" {
		pre := []string{"strace", "-f", "-qq", "-s", "96", "-o", tf, "-e", "trace=" + knownCalls, "-e", "signal=none"}
		if inject != "" {
			pre = append(pre, "-e", "inject="+inject)
		}
		argv = append(append(pre, "--"), argv...)
	}
	cmd := exec.Command(argv[0], argv[1:]...)
	cmd.Dir = d
	cmd.Env = append(os.Environ(), "GOMAXPROCS=1", "GOGC=off", "GOTRACEBACK=none")
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	if err := cmd.Start(); err != nil {
		c.Harness("start child: %v", err)
	}
	done := make(chan struct{})
	var wg sync.WaitGroup
	if watch != nil {
		wg.Add(1)
		go func() { defer wg.Done(); watch(r.path, done) }()
	}
	err := cmd.Wait()
	close(done)
	wg.Wait()
	r.out = strings.TrimSpace(so.String())
	if strings.Contains(r.out, "HARNESS") {
		// the injected fault hit the preparation, not the operation
		c.Event("fault_before_operation")
		r.out = ""
	}
	if err != nil && r.out == "" {
		r.killed = true
	}
	if traced || inject != "" {
		tb, _ := os.ReadFile(tf)
		r.raw = string(tb)
		r.trace = parseTrace(r.raw)
		for _, l := range r.trace {
			if strings.Contains(l.text, "mark-begin") {
				r.began = true
			}
			if strings.Contains(l.text, "mark-end") {
				r.ended = true
			}
		}
	}
	if se.Len() > 0 && r.out == "" && err == nil {
		c.Harness("child: %s", se.String())
	}
	r.file = readOrNil(r.path)
	r.copy = readOrNil(r.cpath)
	r.err = err
	return r
}

func readOrNil(p string) []byte {
	b, err := os.ReadFile(p)
	if err != nil {
		if _, e := os.Lstat(p); e == nil {
			if t, e2 := os.Stat(p); e2 == nil && t.Mode().IsRegular() {
				return []byte("UNREADABLE")
			}
		}
		return nil
	}
	if b == nil {
		b = []byte{}
	}
	return b
}

var (
	knownCalls string
	straceOnce sync.Once
	straceOK   bool
)

// straceReady finds the traced calls this strace knows and whether tracing an
// own child works.
func straceReady(c *Ctx) bool {
	straceOnce.Do(func() {
		if _, err := exec.LookPath("strace"); err != nil {
			return
		}
		var ok []string
		for _, s := range strings.Split(fileCalls, ",") {
			ok = append(ok, "?"+s)
		}
		knownCalls = strings.Join(ok, ",")
		o, err := exec.Command("strace", "-f", "-qq", "-o", "/dev/null", "-e", "trace="+knownCalls, "--", "true").CombinedOutput()
		straceOK = err == nil
		if err != nil {
			c.Log("strace unusable: %v %s", err, o)
		}
	})
	return straceOK
}

// grow makes the database file of some cases larger.
func (c *Ctx) grow(w *World) {
	switch c.Case / 17 % 3 {
	case 1:
		w.graftSize = 4000 + c.R.Intn(60000)
	case 2:
		if c.Case%4 == 0 {
			w.graftSize = 200000 + c.R.Intn(1500000)
		}
	}
	if w.graftSize > 0 {
		w.graft(5)
		c.Event("large_files")
	}
	w.graftSize = 0
}

// prepare builds a database by a short history and the job.
func (e *crashEnv) prepare(op string) {
	c := e.c
	n := 1 + c.R.Intn(3)
	if c.Thorough && c.Case%5 == 0 {
		n = 8
	}
	w := newWorld(c, worldOpts{checkEvery: 50, weights: mix(nil)})
	w.maxUsers = 10
	w.seedUsers(n)
	w.history(6)
	c.grow(w)
	u := w.users[c.R.Intn(len(w.users))]
	e.w, e.u = w, u
	q := func() *requests.Request { return req(u) }
	j := crashJob{Op: op, User: u.username, Mail: u.email, Pw: u.pw, NewPw: "crash-" + genPassword(c.R, 12, 30)}
	switch op {
	case "addkey":
		j.Key = genRSA(c.R, 2048).openssh("crash@test")
	case "delkey":
		m := w.genKey()
		for m.usage != "ssh" {
			m = w.genKey()
		}
		if w.addPublicKey(q(), u, m, "ssh", "", "x", false) != nil || len(u.keys) == 0 {
			c.Harness("no key to delete")
		}
		j.ID = u.keys[c.R.Intn(len(u.keys))].id
	case "delapi":
		w.addAPIKey(apiReq(u), u, "")
		j.ID = u.api[c.R.Intn(len(u.api))].id
	case "addmfa", "delmfa":
		if op == "delmfa" {
			x := q()
			x.MfaToken.Type, x.MfaToken.Secret, x.MfaToken.Comment = "totp", genSecret(c.R), "to delete"
			x.MfaToken.Algorithm, x.MfaToken.Period, x.MfaToken.Digits = "sha1", 30, 6
			w.addTOTP(x, u, mTok{typ: "totp", secret: x.MfaToken.Secret, comment: x.MfaToken.Comment, algo: "sha1", period: 30, digits: 6}, "", 0)
			if len(u.mfa) == 0 {
				c.Harness("no token to delete")
			}
			j.ID = u.mfa[c.R.Intn(len(u.mfa))].id
		}
	}
	if op == "addmfa" {
		j.Sec = genSecret(c.R)
	}
	w.db.Save()
	e.job = j
	b, err := os.ReadFile(w.path)
	if err != nil {
		c.Harness("template: %v", err)
	}
	e.tmpl = b
	switch op {
	case "open":
		switch c.R.Intn(3) {
		case 0, 1:
			e.tmpl = nil
			if e.kind == "symlink" {
				e.kind = ""
			}
		default:
			// written by an earlier release: no policy yet
			m := parseRaw(c, string(b))
			delete(m, "policy")
			e.tmpl, _ = json.MarshalIndent(m, "", "  ")
		}
	case "copy":
		switch c.R.Intn(3) {
		case 0:
			e.cpre = []byte(`{"version":"0","users":[]}` + strings.Repeat(" ", c.R.Intn(3000)))
		case 1:
			e.cpre = e.tmpl
		}
	}
}

// state classifies file bytes: "pre", "post", or a complaint.
func (e *crashEnv) state(b []byte, arg string) string {
	if b == nil && e.tmpl == nil || b != nil && e.tmpl != nil && bytes.Equal(b, e.tmpl) {
		return "pre"
	}
	if b == nil {
		return "the database file is gone"
	}
	if why := e.complete(b, e.job.Op, 1); why != "" {
		return why
	}
	return "post"
}

// complete judges whether b is the whole state after the operation (reps: how
// many stores may lie in between; only for save).
func (e *crashEnv) complete(b []byte, op string, reps uint64) string {
	c, w := e.c, e.w
	var f dFile
	if err := json.Unmarshal(b, &f); err != nil {
		return fmt.Sprintf("neither the state before nor a complete document (%d bytes, before %d): %v", len(b), len(e.tmpl), err)
	}
	e.n++
	p := filepath.Join(c.Dir, fmt.Sprintf("judge%d.json", e.n))
	if err := os.WriteFile(p, b, 0600); err != nil {
		c.Harness("judge: %v", err)
	}
	defer os.Remove(p)
	var db *identity.Database
	err := c.Call("NewDatabase", func() error {
		var e error
		db, e = openDB(p)
		return e
	})
	if err != nil {
		return fmt.Sprintf("cannot be opened: %v", err)
	}
	pre := dFile{}
	if e.tmpl != nil {
		json.Unmarshal(e.tmpl, &pre)
	}
	if f.Revision != pre.Revision+reps {
		return fmt.Sprintf("has revision %d, before %d", f.Revision, pre.Revision)
	}
	var users []*mUser
	if e.tmpl != nil {
		users = w.users
	}
	n := len(users)
	if op == "adduser" {
		n++
	}
	if db.GetUserCount() != n || len(f.Users) != n {
		return fmt.Sprintf("has %d users, expected %d", db.GetUserCount(), n)
	}
	field := map[string]string{"password": "passwords", "addkey": "public_keys", "delkey": "public_keys", "addapi": "api_keys", "delapi": "api_keys", "addmfa": "mfa_tokens", "delmfa": "mfa_tokens"}[op]
	for i, u := range users {
		d := w.dumpUser(db, u, []string{"C06"})
		if u != e.u || field == "" {
			if d != w.dumps[i] {
				return fmt.Sprintf("record of %q differs: %s", u.username, diffJSON(w.dumps[i], d))
			}
			continue
		}
		old, nw := w.raws[i], parseRaw(c, d)
		for k, v := range old {
			if k != field && k != "revision" && k != "last_modified" && string(nw[k]) != string(v) {
				return fmt.Sprintf("attribute %s of %q differs", k, u.username)
			}
		}
		a, b := rawList(c, old, field), rawList(c, nw, field)
		switch {
		case strings.HasPrefix(op, "add"):
			if len(b) != len(a)+1 {
				return fmt.Sprintf("%s has %d entries, before %d", field, len(b), len(a))
			}
			for k := range a {
				if a[k] != b[k] {
					return fmt.Sprintf("entry %d of %s differs", k, field)
				}
			}
		case strings.HasPrefix(op, "del"):
			if len(b) != len(a)-1 {
				return fmt.Sprintf("%s has %d entries, before %d", field, len(b), len(a))
			}
		case op == "password":
			r := requests.NewRequest()
			r.User.Username, r.User.Password = u.username, e.job.NewPw
			if err := c.Call("AuthenticateUser", func() error { return db.AuthenticateUser(r) }); err != nil {
				return fmt.Sprintf("new password of %q does not sign in: %v", u.username, err)
			}
		}
	}
	if op == "adduser" {
		r := requests.NewRequest()
		r.User.Username, r.User.Password = "crash-user@crash.example", e.job.NewPw
		if err := c.Call("AuthenticateUser", func() error { return db.AuthenticateUser(r) }); err != nil {
			return fmt.Sprintf("the new user does not sign in: %v", err)
		}
	}
	return ""
}

// judge applies the oracle to one run.
func (e *crashEnv) judge(r *crashRun, what string) string {
	c := e.c
	ok, failed := r.out == "OK", strings.HasPrefix(r.out, "ERR")
	outcome := "killed"
	if ok {
		outcome = "ok"
	} else if failed {
		outcome = "error"
	} else if !r.killed {
		outcome = "not started"
	}
	main := e.job.Op != "copy"
	st := ""
	bad := func(format string, a ...interface{}) {
		c.Log("%s: %s -> %s", e.job.Op, what, outcome)
		for _, l := range r.trace {
			if r.raw != "" && !strings.Contains(l.text, "/sys/") {
				c.Log("  %s", head(l.text, 160))
			}
		}
		c.Violate([]string{"C06"}, "%s, %s (%s): %s", e.job.Op, what, outcome, fmt.Sprintf(format, a...))
	}
	if main {
		st = e.state(r.file, r.arg)
		if st != "pre" && st != "post" {
			bad("the database file is damaged: %s", st)
		}
		if ok && st != "post" {
			bad("the operation succeeded but the file is in the state before it")
		}
		if failed && st != "pre" {
			bad("the operation failed (%s) but the file is in the state after it", r.out)
		}
		if r.ended && !failed && st != "post" && e.job.Op != "copy" && r.killed && !strings.Contains(r.raw, "ERR") {
			c.Event("killed_after_operation")
		}
	} else {
		if !bytes.Equal(r.file, e.tmpl) {
			bad("copying changed the database file")
		}
		switch {
		case r.copy == nil && e.cpre == nil || r.copy != nil && e.cpre != nil && bytes.Equal(r.copy, e.cpre):
			st = "pre"
		case r.copy == nil:
			bad("the previous copy is gone")
		default:
			if why := e.complete(r.copy, "copy", 1); why != "" {
				bad("the copy is damaged: %s", why)
			}
			st = "post"
		}
		if ok && st != "post" || failed && st != "pre" {
			bad("outcome and state of the copy (%s) disagree: %s", st, r.out)
		}
	}
	c.Event("outcome:" + outcome + "/" + st)
	c.Eval(e.job.Op + "/" + e.kind + "/" + what + "/" + outcome + "/" + st)
	// the file is usable afterwards
	if e.n%4 == 0 && r.file != nil {
		var db *identity.Database
		err := c.Call("NewDatabase", func() error {
			var x error
			db, x = openDB(r.arg)
			return x
		})
		if err != nil {
			bad("the database cannot be opened afterwards: %v", err)
		}
		if err := c.Call("Save", db.Save); err != nil {
			bad("the database cannot be stored afterwards: %v", err)
		}
		if _, err := openDB(r.arg); err != nil {
			bad("the database cannot be opened after storing it again: %v", err)
		}
		c.Event("recoveries")
	}
	os.RemoveAll(r.dir)
	return st
}

var crashOps = []string{"save", "adduser", "password", "addkey", "delkey", "addapi", "delapi", "addmfa", "delmfa", "copy", "open", "save"}

func runC06(c *Ctx) {
	if c.Case%17 >= 12 {
		// readers next to a writer in the same process
		runC06Readers(c)
		return
	}
	op := crashOps[c.Case%17]
	e := &crashEnv{c: c, kind: pick(c.R, "", "", "", "symlink", "nested")}
	e.prepare(op)
	tmplUsers := len(e.w.users)
	full := c.Thorough
	traced := straceReady(c)
	base := e.run(traced, "", -1, false, nil)
	if base.out != "OK" {
		c.Harness("baseline %s: %q %v", op, base.out, base.err)
	}
	size := len(base.file)
	if op == "copy" {
		size = len(base.copy)
	}
	c.Event("op:" + op)
	e.judge(base, "no fault")
	if traced {
		// occurrences of each call inside the operation
		counts := map[string]int{}
		type point struct {
			call string
			n    int
		}
		var pts []point
		in := false
		var seq []string
		for _, l := range base.trace {
			counts[l.call]++
			if strings.Contains(l.text, "mark-begin") {
				in = true
				continue
			}
			if strings.Contains(l.text, "mark-end") {
				pts = append(pts, point{l.call, counts[l.call]})
				break
			}
			if in {
				pts = append(pts, point{l.call, counts[l.call]})
				seq = append(seq, l.call)
			}
		}
		if !in {
			c.Harness("no marker in the trace of %s: %s", op, head(base.raw, 2000))
		}
		c.Event("operations_traced")
		c.EventN("calls_in_operations", int64(len(seq)))
		c.Sample("%s (%s path, %d users, %d bytes): file calls in the operation: %s", op, e.kind, tmplUsers, size, strings.Join(seq, " "))
		for _, p := range pts {
			r := e.run(true, fmt.Sprintf("%s:signal=KILL:when=%d", p.call, p.n), -1, false, nil)
			c.Event("kills:" + p.call)
			e.judge(r, fmt.Sprintf("killed at %s #%d", p.call, p.n))
			if p.call == "openat" || p.call == "write" || p.call == "rename" || p.call == "renameat" || p.call == "fsync" || p.call == "close" || p.call == "fchmod" || p.call == "fchmodat" || p.call == "unlinkat" || p.call == "ftruncate" || p.call == "pwrite64" || p.call == "linkat" || p.call == "renameat2" || full {
				errs := map[string][]string{"openat": {"EMFILE", "EACCES", "ENOSPC", "EIO"}, "write": {"ENOSPC", "EIO", "EINTR"}, "close": {"EIO"}, "fsync": {"EIO", "EINTR"}}[p.call]
				if errs == nil {
					errs = []string{"EIO", "ENOSPC"}
				}
				if p.call == "mmap" {
					errs = nil
				}
				if !full && len(errs) > 2 {
					k := c.R.Intn(len(errs))
					errs = []string{errs[k], errs[(k+1)%len(errs)]}
				}
				for _, x := range errs {
					r := e.run(true, fmt.Sprintf("%s:error=%s:when=%d", p.call, x, p.n), -1, false, nil)
					c.Event("errors:" + p.call + ":" + x)
					e.judge(r, fmt.Sprintf("%s #%d fails with %s", p.call, p.n, x))
				}
			}
		}
		// a fault that persists: the first failing call and all later ones
		for _, x := range []string{"write:error=ENOSPC", "openat:error=ENOSPC", "rename:error=EIO", "renameat:error=EXDEV", "fsync:error=EIO", "close:error=EIO", "fchmod:error=EPERM"} {
			call := x[:strings.Index(x, ":")]
			for _, p := range pts {
				if p.call != call {
					continue
				}
				r := e.run(true, fmt.Sprintf("%s:when=%d+", x, p.n), -1, false, nil)
				// the report of the child may be lost as well
				if r.out == "" {
					r.killed = true
				}
				c.Event("persistent:" + x)
				e.judge(r, fmt.Sprintf("%s from #%d on", x, p.n))
				if !full {
					break
				}
			}
		}
		e.slowReaders(full)
	} else {
		c.Event("strace_unavailable")
	}
	// byte offsets
	offs := map[int]bool{0: true, 1: true, size - 1: true, size: true, size + 1: true, 4096: true, 512: true}
	n := 14
	if full {
		n = 260
	}
	for i := 0; i < n; i++ {
		offs[c.R.Intn(size+2)] = true
	}
	var ks []int
	for k := range offs {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	for _, k := range ks {
		if k < 0 {
			continue
		}
		r := e.run(false, "", int64(k), false, nil)
		c.Event("byte_kills")
		e.judge(r, "killed at byte "+strconv.Itoa(k))
		if k%2 == 0 || full {
			r = e.run(false, "", int64(k), true, nil)
			c.Event("byte_errors")
			e.judge(r, "write refused at byte "+strconv.Itoa(k))
		}
	}
}

// slowReaders polls the file while every file system call of the operations
// of a child is slowed down.
func (e *crashEnv) slowReaders(full bool) {
	c := e.c
	if e.job.Op == "copy" || e.job.Op == "open" && e.tmpl == nil {
		return
	}
	pre := dFile{}
	json.Unmarshal(e.tmpl, &pre)
	delay := 3000
	reps := 1
	if e.job.Op == "save" {
		reps = 3
	}
	e.job.Reps = reps
	defer func() { e.job.Reps = 0 }()
	var bad string
	seen := map[string]uint64{}
	var reads int64
	watch := func(path string, done chan struct{}) {
		last := uint64(0)
		for bad == "" {
			select {
			case <-done:
				return
			default:
			}
			b, err := os.ReadFile(path)
			if err != nil {
				bad = fmt.Sprintf("the file cannot be read: %v", err)
				return
			}
			reads++
			rev, ok := seen[string(b)]
			if !ok {
				if bytes.Equal(b, e.tmpl) {
					rev = pre.Revision
				} else {
					var f dFile
					if err := json.Unmarshal(b, &f); err != nil {
						bad = fmt.Sprintf("a reader saw an incomplete file (%d bytes): %v", len(b), err)
						return
					}
					rev = f.Revision
					if rev < pre.Revision || rev > pre.Revision+uint64(reps) {
						bad = fmt.Sprintf("a reader saw revision %d", rev)
						return
					}
				}
				seen[string(b)] = rev
			}
			if rev < last {
				bad = fmt.Sprintf("a reader saw revision %d after %d", rev, last)
				return
			}
			last = rev
			time.Sleep(300 * time.Microsecond)
		}
	}
	r := e.run(true, fmt.Sprintf("%s:delay_enter=%d", "openat,write,pwrite64,rename,renameat,renameat2,ftruncate,truncate,fsync,close,fchmod,unlinkat,linkat", delay), -1, false, watch)
	c.EventN("slow_reads", reads)
	c.EventN("slow_states_seen", int64(len(seen)))
	if bad != "" {
		c.Violate([]string{"C06"}, "%s slowed down at every call: %s", e.job.Op, bad)
	}
	if r.out != "OK" {
		c.Harness("slowed child: %q", r.out)
	}
	for s := range seen {
		if s == string(e.tmpl) {
			continue
		}
		rev := seen[s]
		if why := e.complete([]byte(s), e.job.Op, rev-pre.Revision); why != "" {
			c.Violate([]string{"C06"}, "a reader saw a state of %s which is not complete: %s", e.job.Op, why)
		}
		c.Eval(e.job.Op + "/slow reader")
	}
	os.RemoveAll(r.dir)
}

// runC06Readers lets goroutines read the file while the history goes on.
func runC06Readers(c *Ctx) {
	w := newWorld(c, worldOpts{checkEvery: 1000, pathKind: pick(c.R, "", "", "symlink", "nested", "relative")})
	w.maxUsers = 8
	w.seedUsers(2)
	c.grow(w)
	type obs struct {
		lo, hi int64
		sum    uint64
		n      int
		head   string
		ok     bool
		err    string
	}
	var done int32
	var completed, started int64 // stores
	var states []uint64
	states = append(states, hash64(string(w.file)))
	const readers = 3
	logs := make([][]obs, readers)
	var reads [readers]int64
	var wg sync.WaitGroup
	for i := 0; i < readers; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			for atomic.LoadInt32(&done) == 0 {
				o := obs{lo: atomic.LoadInt64(&completed)}
				b, err := os.ReadFile(w.path)
				o.hi = atomic.LoadInt64(&started)
				reads[i]++
				if err != nil {
					o.err = err.Error()
				}
				o.sum, o.n, o.ok = hash64(string(b)), len(b), json.Valid(b)
				if k := len(logs[i]); k > 0 && logs[i][k-1] == o {
					continue
				}
				logs[i] = append(logs[i], o)
				if o.err != "" {
					return
				}
			}
		}(i)
	}
	steps := 60
	if c.Thorough {
		steps = 250
	}
	for i := 0; i < steps && len(w.users) > 0; i++ {
		u := w.users[c.R.Intn(len(w.users))]
		atomic.AddInt64(&started, 1)
		rev := w.rev
		var err error
		switch c.R.Intn(6) {
		case 0:
			if len(w.users) < 6 {
				w.addUser(w.genAddUser())
			}
		case 1:
			err = w.changePassword(req(u), u, u.pw, genPassword(c.R, w.policy.Password.MinLength, w.policy.Password.MaxLength))
		case 2:
			if len(u.api) > 0 {
				err = w.deleteAPIKey(req(u), u, u.api[0].id)
			} else {
				err = w.addAPIKey(apiReq(u), u, "")
			}
		default:
			w.opSave()
		}
		_ = err
		if w.rev == rev {
			atomic.AddInt64(&started, -1)
			continue
		}
		states = append(states, hash64(string(w.file)))
		atomic.AddInt64(&completed, 1)
	}
	atomic.StoreInt32(&done, 1)
	wg.Wait()
	pos := map[uint64]int64{}
	for i, s := range states {
		pos[s] = int64(i)
	}
	for i := range logs {
		last := int64(-1)
		c.EventN("reads", reads[i])
		for _, o := range logs[i] {
			if o.err != "" {
				c.Violate([]string{"C06"}, "a reader could not read the file during operations: %s", o.err)
			}
			p, ok := pos[o.sum]
			if !ok {
				c.Violate([]string{"C06"}, "a reader saw %d bytes (valid JSON: %v) which are not the state after any operation (stores %d..%d)", o.n, o.ok, o.lo, o.hi)
			}
			if p < o.lo || p > o.hi {
				c.Violate([]string{"C06"}, "a reader saw state %d while stores %d..%d were the only possible ones", p, o.lo, o.hi)
			}
			if p < last {
				c.Violate([]string{"C06"}, "a reader saw state %d after state %d", p, last)
			}
			last = p
			c.Eval(fmt.Sprintf("reader/%d/%d", c.Case, p))
			c.Event("distinct_reads")
		}
	}
	c.Event("reader_histories")
}

func apiReq(u *mUser) *requests.Request {
	q := req(u)
	q.Key.Usage, q.Key.Comment = "api", "an API key"
	return q
}
