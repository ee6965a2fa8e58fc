package main

import (
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"

	identity "github.com/greenpau/go-identity"
	"github.com/greenpau/go-identity/pkg/requests"
)

// C27: several databases of one process, used in turn or at the same time,
// each watched by its own model. A discrepancy is one of this property only if
// the same operations on the same database, as the only one of a process, do
// not show it.

func init() {
	childCmds["indep"] = indepChild
	register(&Prop{ID: "C27", Level: "exploration",
		Rule:  "distinct history signatures of databases with the same users used in turn or at the same time, and distinct (kind of probe, source, outcome) of secrets and identifiers of one database tried in another; a discrepancy counts if the operations of that database alone in a new process do not show it",
		Cases: n2(200, 2600), Run: c27Case})
}

type indepPlan struct {
	fork     bool
	parallel bool
	oneDir   bool // the files lie in one directory
	worlds   int
	segs     int
	segLen   int
	forkAt   int // segment of world 0 before which the others are copied from it
}

func newIndepPlan(r *rand.Rand, kase int) *indepPlan {
	p := &indepPlan{worlds: 2 + r.Intn(3), segs: 10 + r.Intn(6), segLen: 1 + r.Intn(3)}
	p.fork = kase%2 == 1
	p.parallel = kase/2%2 == 1
	p.oneDir = kase/4%2 == 1
	if p.parallel {
		p.worlds = 3 + r.Intn(2)
		p.segs, p.segLen = 6, 7
	}
	if p.fork {
		p.forkAt = 1 + r.Intn(4)
	}
	return p
}

// subCtx is a context of its own: operations, random choices and findings of
// one database do not mix with those of the others.
func (c *Ctx) subCtx(seed int64, dir string) *Ctx {
	s := *c
	s.R = rand.New(rand.NewSource(seed))
	s.Dir = dir
	s.res = &Result{Events: map[string]int64{}, Known: map[string]string{}, Foreign: map[string]int64{}, ForeignMsg: map[string]string{}, Blobs: map[string]string{}}
	s.distinct = map[uint64]struct{}{}
	s.trace = nil
	s.progress = nil
	s.Also = nil
	return &s
}

func (c *Ctx) adopt(s *Ctx) {
	for k, n := range s.res.Events {
		c.res.Events[k] += n
	}
	c.res.Evals += s.res.Evals
	for h := range s.distinct {
		if len(c.distinct) < 400000 {
			c.distinct[h] = struct{}{}
		}
	}
}

// failed gives the discrepancy found in a sub-context.
func (c *Ctx) failed() string {
	for _, v := range c.res.Violations {
		return v.Msg
	}
	var ks []string
	for k := range c.res.ForeignMsg {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		return c.res.ForeignMsg[k]
	}
	return ""
}

func (c *Ctx) failedCats() []string {
	for _, v := range c.res.Violations {
		return v.Cats
	}
	for k := range c.res.ForeignMsg {
		return strings.Split(k, "+")
	}
	return nil
}

// guard runs f in a sub-context and reports whether it went through.
func (c *Ctx) guard(f func()) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, abort := r.(caseAbort); abort {
				return
			}
			c.Report([]string{"*", "C16"}, "the results could not be evaluated: panic %v", r)
		}
	}()
	f()
	return c.failed() == ""
}

func subSeed(seed int64, kase, i int) int64 {
	h := sha256.Sum256([]byte(fmt.Sprintf("indep/%d/%d/%d", seed, kase, i)))
	return int64(binary.BigEndian.Uint64(h[:8]))
}

type indepRun struct {
	c      *Ctx
	plan   *indepPlan
	ctx    []*Ctx
	worlds []*World
	done   []int // segments done
	dead   []bool
}

var indepUsers = []string{"alice", "bob", "carol"}

func (x *indepRun) dir(i int) string {
	if !x.plan.parallel || x.plan.oneDir {
		return x.c.Dir
	}
	d := filepath.Join(x.c.Dir, fmt.Sprint("w", i))
	os.MkdirAll(d, 0700)
	return d
}

// open starts world i, not copied from another.
func (x *indepRun) open(i int) bool {
	s := x.c.subCtx(subSeed(x.c.Seed, x.c.Case, i), x.dir(i))
	x.ctx[i] = s
	return s.guard(func() {
		o := worldOpts{weights: mix(map[string]int{"graft": 0, "copy": 2, "reopen": 3, "lookup": 10, "addapi": 9, "chpw": 9, "delapi": 6, "delmfa": 6, "delkey": 5}), checkEvery: 6, file: fmt.Sprintf("db%d.json", i)}
		if s.R.Intn(3) == 0 {
			o.policy = keepPolicy(1 + s.R.Intn(5))
		}
		w := newWorld(s, o)
		w.maxUsers = 5
		x.worlds[i] = w
		// the same names in every database, with other passwords and roles
		for k, n := range indepUsers {
			a := w.genAddUser()
			a.uname, a.mail = n, n+"@example.com"
			if k > 0 && s.R.Intn(3) == 0 {
				a.pw = "common password"
			}
			w.addUser(a)
		}
	})
}

func cloneUsers(us []*mUser) []*mUser {
	var out []*mUser
	for _, u := range us {
		v := *u
		v.roles = append([]string(nil), u.roles...)
		v.former = append([]string(nil), u.former...)
		v.alts = append([]string(nil), u.alts...)
		v.keys = append([]mKey(nil), u.keys...)
		v.api = append([]mAPI(nil), u.api...)
		v.mfa = append([]mTok(nil), u.mfa...)
		out = append(out, &v)
	}
	return out
}

// fork starts world i from a copy of world 0.
func (x *indepRun) fork(i int) bool {
	w0 := x.worlds[0]
	s := x.c.subCtx(subSeed(x.c.Seed, x.c.Case, i), x.dir(i))
	x.ctx[i] = s
	dst := filepath.Join(s.Dir, fmt.Sprintf("db%d.json", i))
	ok := w0.c.guard(func() {
		w0.c.Log("Copy(%q)", dst)
		w0.run(&step{op: "Copy", store: true, kinds: kindsOf["Copy"], cats: []string{"C05"}, copyTo: dst, call: func() error { return w0.db.Copy(dst) }})
	})
	if !ok {
		return false
	}
	return s.guard(func() {
		w := &World{c: s, opts: w0.opts, arg: dst, path: dst, users: cloneUsers(w0.users), policy: w0.policy, maxUsers: 5}
		w.opts.file = ""
		w.opts.weights = w0.opts.weights
		w.secrets = append([]string(nil), w0.secrets...)
		w.deleted = append([]string(nil), w0.deleted...)
		w.keyPool = append([]keyMaterial(nil), w0.keyPool...)
		w.dumps = append([]string(nil), w0.dumps...)
		for _, o := range w0.raws {
			m := rawObj{}
			for k, v := range o {
				m[k] = v
			}
			w.raws = append(w.raws, m)
		}
		w.odd, w.seq = w0.odd, w0.seq
		b, err := os.ReadFile(dst)
		if err != nil {
			s.Violate([]string{"C05"}, "copy: %v", err)
		}
		w.file = b
		w.rev, w.fileRev = w0.rev, w0.rev
		var db *identity.Database
		if err := s.Call("NewDatabase", func() error {
			var e error
			db, e = openDB(dst)
			return e
		}); err != nil {
			s.Violate([]string{"C05"}, "a copy cannot be opened: %v", err)
		}
		w.db = db
		w.lastMod = db.LastModified
		x.worlds[i] = w
		// copies that are edited, the way an administrator does, before use
		for n := s.R.Intn(4); n > 0; n-- {
			w.graft([]int{0, 0, 2, 3, 4}[s.R.Intn(5)])
		}
	})
}

// segment runs the next operations of world i.
func (x *indepRun) segment(i int) bool {
	w := x.worlds[i]
	x.done[i]++
	return w.c.guard(func() { w.steps(x.plan.segLen) })
}

func (x *indepRun) finishWorld(i int) bool {
	w := x.worlds[i]
	return w.c.guard(func() { w.finish() })
}

// alone runs the operations of world i without the others.
func (x *indepRun) alone(i int) bool {
	base := i
	if x.plan.fork {
		base = 0
	}
	if !x.open(base) {
		return false
	}
	if base != i || x.plan.fork {
		for x.done[0] < x.plan.forkAt {
			if !x.segment(0) {
				return false
			}
		}
		if base != i {
			if !x.fork(i) {
				return false
			}
		}
	}
	for x.done[i] < x.plan.segs {
		if !x.segment(i) {
			return false
		}
	}
	return x.finishWorld(i)
}

func newIndepRun(c *Ctx, p *indepPlan) *indepRun {
	return &indepRun{c: c, plan: p, ctx: make([]*Ctx, p.worlds), worlds: make([]*World, p.worlds), done: make([]int, p.worlds), dead: make([]bool, p.worlds)}
}

func indepChild(args []string) {
	seed, _ := strconv.ParseInt(args[0], 10, 64)
	kase, _ := strconv.Atoi(args[1])
	i, _ := strconv.Atoi(args[2])
	c := &Ctx{Prop: props["C27"], Tier: "quick", Seed: seed, Case: kase, Dir: args[3], Base: args[3], Data: args[4], distinct: map[uint64]struct{}{}}
	c.res = &Result{Events: map[string]int64{}, Known: map[string]string{}, Foreign: map[string]int64{}, ForeignMsg: map[string]string{}, Blobs: map[string]string{}}
	loadPGP(c)
	c.R = caseRand(seed, "C27", kase)
	x := newIndepRun(c, newIndepPlan(c.R, kase))
	if !x.alone(i) {
		for _, s := range x.ctx {
			if s != nil && s.failed() != "" {
				fmt.Printf("ALONE %s: %s\n", strings.Join(s.failedCats(), "+"), s.failed())
			}
		}
		os.Exit(0)
	}
	fmt.Println("CLEAN")
	os.Exit(0)
}

// judge decides whether a discrepancy of world i is due to the other databases.
func (x *indepRun) judge(i int, s *Ctx, what string) {
	c := x.c
	for k := 0; k < 3; k++ {
		d := filepath.Join(c.Dir, fmt.Sprint("alone", k))
		os.MkdirAll(d, 0700)
		self, _ := os.Executable()
		cmd := exec.Command(self, "child", "indep", fmt.Sprint(c.Seed), fmt.Sprint(c.Case), fmt.Sprint(i), d, c.Data)
		cmd.Dir = d
		out, err := cmd.CombinedOutput()
		os.RemoveAll(d)
		if err != nil || strings.Contains(string(out), "ALONE") {
			// Not a matter of several databases.
			c.Event("discrepancies that a database alone shows, too")
			c.Log("alone: %s", head(string(out), 500))
			c.Violate(s.failedCats(), "%s: %s", what, s.failed())
		}
		if !strings.Contains(string(out), "CLEAN") {
			c.Harness("indep child: %s", out)
		}
	}
	for _, l := range s.trace {
		c.trace = append(c.trace, fmt.Sprintf("[db%d] %s", i, l))
	}
	c.Violate([]string{"C27"}, "database %d of %d (%s), used together with the others: %s; the same operations on it alone in a process show no discrepancy", i, x.plan.worlds, what, s.failed())
}

func (x *indepRun) kind() string {
	k := "fresh"
	if x.plan.fork {
		k = "copied"
	}
	if x.plan.parallel {
		return k + ", at the same time"
	}
	return k + ", in turn"
}

// probe tries what belongs to world j in world i.
func (x *indepRun) probe(i, j int) bool {
	c, r := x.c, x.c.R
	w, v := x.worlds[i], x.worlds[j]
	var ident string
	var key string
	u := v.pickUserR(r)
	if u == nil {
		return true
	}
	ident = u.username
	if r.Intn(3) == 0 {
		ident = u.email
	}
	how := []string{"current password", "former password", "API key", "deleted API key", "assertion", "delete by id", "list"}[r.Intn(7)]
	ok := w.c.guard(func() {
		switch how {
		case "current password":
			w.expectAuth(ident, u.pw)
		case "former password":
			if len(u.former) > 0 {
				w.expectAuth(ident, u.former[r.Intn(len(u.former))])
			}
		case "API key":
			for _, k := range u.api {
				key = k.plain
				w.expectLookup(key)
			}
		case "deleted API key":
			if n := len(v.deleted); n > 0 {
				w.expectLookup(v.deleted[r.Intn(n)])
			}
		case "assertion":
			for _, t := range u.mfa {
				if t.typ == "u2f" {
					w.tryAssertion(ident, t.fido)
				}
			}
		case "delete by id":
			x.deleteForeign(w, u)
		case "list":
			w.unchanged("operations on another database", nil)
		}
	})
	c.Event("probe: " + how)
	c.Eval(fmt.Sprintf("probe/%s/%v/%v/%v", how, x.plan.fork, w.byName(u.username) != nil, ok))
	return ok
}

func (w *World) pickUserR(r *rand.Rand) *mUser {
	if len(w.users) == 0 {
		return nil
	}
	return w.users[r.Intn(len(w.users))]
}

// tryAssertion signs in with a genuine assertion of a device.
func (w *World) tryAssertion(ident string, f *fido) {
	c := w.c
	u, known := w.signInUser(ident)
	if !known || u == nil {
		return
	}
	var enabled, disabled bool
	for _, t := range u.mfa {
		if t.typ == "u2f" && t.fido.id == f.id {
			if t.disabled {
				disabled = true
			} else {
				enabled = true
			}
		}
	}
	if enabled && disabled {
		return
	}
	ch := genChallenge(c.R)
	q := requests.NewRequest()
	q.User.Username = ident
	q.WebAuthn.Challenge = ch
	q.WebAuthn.Request = f.assert(ch, 1, f.counter+1, nil).encode()
	s := &step{op: "AuthenticateUser", kinds: kindsOf["AuthenticateUser"], cats: []string{"C14", "C12"}}
	if !enabled {
		s.expect, s.reason = expFail, "device of another database"
	}
	s.q = q
	s.call = func() error { return w.db.AuthenticateUser(q) }
	w.runRead(s)
}

// deleteForeign deletes by the identifiers of the other database's user.
func (x *indepRun) deleteForeign(w *World, u *mUser) {
	mine := w.byName(u.username)
	if mine == nil || w.ident(mine.username, mine.email) != mine {
		return
	}
	q := requests.NewRequest()
	q.User.Username, q.User.Email = mine.username, mine.email
	if len(u.api) > 0 {
		w.deleteAPIKey(q, mine, u.api[0].id)
	}
	if len(u.mfa) > 0 {
		w.deleteMfa(q, mine, u.mfa[0].id)
	}
}

func c27Case(c *Ctx) {
	loadPGP(c)
	p := newIndepPlan(c.R, c.Case)
	x := newIndepRun(c, p)
	what := x.kind()
	c.Log("%d databases, %s", p.worlds, what)
	defer func() {
		for _, s := range x.ctx {
			if s != nil {
				c.adopt(s)
			}
		}
	}()
	check := func(i int, ok bool) {
		if !ok {
			s := x.ctx[i]
			if s.failed() == "" && x.ctx[0] != nil {
				i, s = 0, x.ctx[0]
			}
			x.judge(i, s, what)
		}
	}
	check(0, x.open(0))
	if p.fork {
		for x.done[0] < p.forkAt {
			check(0, x.segment(0))
		}
	}
	for i := 1; i < p.worlds; i++ {
		if p.fork {
			check(i, x.fork(i))
		} else {
			check(i, x.open(i))
		}
	}
	c.EventN("databases", int64(p.worlds))
	if p.parallel {
		var wg sync.WaitGroup
		oks := make([]bool, p.worlds)
		for i := range x.worlds {
			i := i
			wg.Add(1)
			go func() {
				defer wg.Done()
				for x.done[i] < p.segs {
					if !x.segment(i) {
						return
					}
				}
				oks[i] = true
			}()
		}
		wg.Wait()
		for i, ok := range oks {
			check(i, ok)
		}
	} else {
		for {
			var left []int
			for i := range x.worlds {
				if x.done[i] < p.segs {
					left = append(left, i)
				}
			}
			if len(left) == 0 {
				break
			}
			i := left[c.R.Intn(len(left))]
			check(i, x.segment(i))
			c.Event("turns")
			for j := range x.worlds {
				if j == i {
					continue
				}
				w := x.worlds[j]
				check(j, w.c.guard(func() { w.unchanged("operations on another database", nil) }))
				if c.R.Intn(2) == 0 {
					check(j, x.probe(j, i))
				}
				if c.R.Intn(3) == 0 {
					check(i, x.probe(i, j))
				}
			}
		}
	}
	for i := range x.worlds {
		for j := range x.worlds {
			if i != j {
				for k := 0; k < 4; k++ {
					check(i, x.probe(i, j))
				}
			}
		}
	}
	for i := range x.worlds {
		check(i, x.finishWorld(i))
	}
	if c.Case < 3 {
		for i, s := range x.ctx {
			c.Sample("database %d of case %d (%s): %s", i, c.Case, what, strings.Join(s.trace, " | "))
		}
	}
}
