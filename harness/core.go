package main

import (
	"crypto/sha256"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"

	identity "github.com/greenpau/go-identity"
)

// Prop is one property's monitor: a deterministic list of cases (by seed and
// tier) each of which drives the library and lets oracles watch it.
type Prop struct {
	ID    string
	Level string
	Rule  string
	// Cases gives the number of cases for a tier.
	Cases func(thorough bool) int
	// Run runs one case.
	Run func(c *Ctx)
	// Race: worker must be the race-instrumented binary.
	Race bool
	// Procs is the number of worker processes (default 8).
	Procs int
	// Parent, if set, runs in the parent before/after the shards (nil: none).
	Parent func(p *ParentCtx)
	// Known is called when a known finding has to be reproduced.
	Assumptions []string
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

// Violation is a discrepancy between an observation and an oracle.
type Violation struct {
	Prop  string   `json:"prop"`
	Seed  int64    `json:"seed"`
	Tier  string   `json:"tier"`
	Case  int      `json:"case"`
	Cats  []string `json:"cats"`
	Msg   string   `json:"msg"`
	Trace []string `json:"trace"`
}

// Result is what a worker reports.
type Result struct {
	Evals      int64             `json:"evals"`
	Events     map[string]int64  `json:"events"`
	Distinct   []uint64          `json:"distinct"`
	Samples    []string          `json:"samples"`
	Violations []Violation       `json:"violations"`
	Known      map[string]string `json:"known"`
	Foreign    map[string]int64  `json:"foreign"`
	ForeignMsg map[string]string `json:"foreign_msg"`
	CasesRun   int               `json:"cases_run"`
	Blobs      map[string]string `json:"blobs"`
}

// Ctx is the context of the running case.
type Ctx struct {
	Prop     *Prop
	Tier     string
	Thorough bool
	Seed     int64
	Case     int
	R        *rand.Rand
	Dir      string // scratch dir of this case
	Base     string // scratch dir of the worker
	Data     string // harness data dir
	res      *Result
	distinct map[uint64]struct{}
	trace    []string
	caseViol int
	progress *os.File
	opCount  uint64
	// Also lists properties every discrepancy concerns from now on in this case.
	Also []string
}

type caseAbort struct{}

// Event counts an observed event.
func (c *Ctx) Event(name string) { c.res.Events[name]++ }

// EventN counts n observed events.
func (c *Ctx) EventN(name string, n int64) { c.res.Events[name] += n }

// Eval counts one oracle evaluation; key identifies the situation for the
// distinct count ("" = trivial).
func (c *Ctx) Eval(key string) {
	c.res.Evals++
	if key != "" && len(c.distinct) < 400000 {
		c.distinct[hash64(key)] = struct{}{}
	}
}

// Sample keeps a few written-out cases for the evidence.
func (c *Ctx) Sample(format string, a ...interface{}) {
	if len(c.res.Samples) < 3 {
		s := fmt.Sprintf(format, a...)
		if len(s) > 1500 {
			s = s[:1500] + "..."
		}
		c.res.Samples = append(c.res.Samples, s)
	}
}

// Log appends to the operation trace of the case.
func (c *Ctx) Log(format string, a ...interface{}) {
	s := fmt.Sprintf(format, a...)
	if len(s) > 2000 {
		s = s[:2000] + "..."
	}
	c.trace = append(c.trace, s)
	if len(c.trace) > 400 {
		c.trace = c.trace[len(c.trace)-300:]
	}
	c.mark(s)
}

// mark records progress for the parent (current case and operation).
func (c *Ctx) mark(s string) {
	c.opCount++
	if c.progress == nil {
		return
	}
	if len(s) > 600 {
		s = s[:600]
	}
	b := []byte(fmt.Sprintf("%d %d %s", c.opCount, c.Case, strings.ReplaceAll(s, "\n", "\\n")))
	buf := make([]byte, 1024)
	for i := range buf {
		buf[i] = ' '
	}
	copy(buf, b)
	c.progress.WriteAt(buf, 0)
}

// Violate reports a discrepancy that concerns the given properties and aborts
// the case. Only discrepancies concerning the running property are violations;
// the others are counted, as the model can no longer follow the history.
func (c *Ctx) Violate(cats []string, format string, a ...interface{}) {
	c.Report(cats, format, a...)
	panic(caseAbort{})
}

// Report is Violate without aborting the case.
func (c *Ctx) Report(cats []string, format string, a ...interface{}) {
	msg := fmt.Sprintf(format, a...)
	mine := false
	cats = append(append([]string(nil), cats...), c.Also...)
	for _, k := range cats {
		if k == c.Prop.ID || k == "*" {
			mine = true
		}
	}
	if mine {
		if len(c.res.Violations) < 20 {
			tr := append([]string(nil), c.trace...)
			if len(tr) > 120 {
				tr = tr[len(tr)-120:]
			}
			c.res.Violations = append(c.res.Violations, Violation{
				Prop: c.Prop.ID, Seed: c.Seed, Tier: c.Tier, Case: c.Case, Cats: cats, Msg: msg, Trace: tr,
			})
		}
		c.caseViol++
		return
	}
	k := strings.Join(cats, "+")
	c.res.Foreign[k]++
	if _, ok := c.res.ForeignMsg[k]; !ok {
		c.res.ForeignMsg[k] = fmt.Sprintf("case %d: %s", c.Case, msg)
	}
}

// KnownFinding records that a listed finding was reproduced.
func (c *Ctx) KnownFinding(id, what string) {
	if _, ok := c.res.Known[id]; !ok {
		c.res.Known[id] = what
	}
	c.Event("known_finding_reproduced:" + id)
}

// Harness reports a defect of the harness itself (inconclusive).
func (c *Ctx) Harness(format string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "HARNESS-ERROR: case %d: %s\n", c.Case, fmt.Sprintf(format, a...))
	os.Exit(3)
}

// Call runs a library call; a panic in it is a violation.
func (c *Ctx) Call(name string, f func() error) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(caseAbort); ok {
				panic(r)
			}
			st := string(debug.Stack())
			c.Violate([]string{"*", "C16"}, "%s panicked: %v\n%s", name, r, trimStack(st))
		}
	}()
	return f()
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	var out []string
	for _, l := range lines {
		if strings.Contains(l, "go-identity") || strings.Contains(l, "/repo/") || strings.Contains(l, "x/crypto") || strings.Contains(l, "satori") {
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) > 16 {
			break
		}
	}
	return strings.Join(out, "\n")
}

func hash64(s string) uint64 {
	h := sha256.Sum256([]byte(s))
	return binary.BigEndian.Uint64(h[:8])
}

func caseRand(seed int64, prop string, n int) *rand.Rand {
	h := sha256.Sum256([]byte(fmt.Sprintf("%d/%s/%d", seed, prop, n)))
	return rand.New(rand.NewSource(int64(binary.BigEndian.Uint64(h[:8]))))
}

// runWorker runs the cases of one shard.
// cases is the number of cases of a tier; VERIF_SCALE reduces it for trial
// runs of the machinery (no registered command sets it).
func (p *Prop) cases(thorough bool) int {
	n := p.Cases(thorough)
	if f, err := strconv.ParseFloat(os.Getenv("VERIF_SCALE"), 64); err == nil && f > 0 && n > 0 {
		n = maxi(1, int(float64(n)*f))
	}
	return n
}

func runWorker(p *Prop, tier string, seed int64, shard, shards int, base, out, data string, only int) {
	res := &Result{Events: map[string]int64{}, Known: map[string]string{}, Foreign: map[string]int64{}, ForeignMsg: map[string]string{}, Blobs: map[string]string{}}
	c := &Ctx{Prop: p, Tier: tier, Thorough: tier == "thorough", Seed: seed, Base: base, Data: data, res: res, distinct: map[uint64]struct{}{}}
	c.progress, _ = os.OpenFile(out+".progress", os.O_CREATE|os.O_RDWR, 0600)
	n := p.cases(c.Thorough)
	for i := 0; i < n; i++ {
		if only >= 0 {
			if i != only {
				continue
			}
		} else if i%shards != shard {
			continue
		}
		c.Case = i
		c.R = caseRand(seed, p.ID, i)
		c.trace = c.trace[:0]
		c.caseViol = 0
		c.Dir = filepath.Join(base, fmt.Sprintf("c%d", i))
		if err := os.MkdirAll(c.Dir, 0700); err != nil {
			c.Harness("mkdir: %v", err)
		}
		c.mark("start")
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(caseAbort); ok {
						return
					}
					if _, ok := r.(runtime.Error); ok {
						// What the code under test handed back could not even be
						// read: on the unchanged tree no case does this.
						c.Report([]string{"*", "C16"}, "the results of the case could not be evaluated: panic %v\n%s", r, head(string(debug.Stack()), 2500))
						return
					}
					fmt.Fprintf(os.Stderr, "HARNESS-ERROR: case %d: panic %v\n%s\n", i, r, debug.Stack())
					os.Exit(3)
				}
			}()
			p.Run(c)
		}()
		os.RemoveAll(c.Dir)
		res.CasesRun++
		if len(res.Violations) >= 5 {
			break
		}
	}
	for h := range c.distinct {
		res.Distinct = append(res.Distinct, h)
	}
	sort.Slice(res.Distinct, func(i, j int) bool { return res.Distinct[i] < res.Distinct[j] })
	b, err := json.Marshal(res)
	if err != nil {
		c.Harness("marshal result: %v", err)
	}
	if err := os.WriteFile(out, b, 0600); err != nil {
		c.Harness("write result: %v", err)
	}
}

// openDB is NewDatabase, where neither a database nor an error counts as an
// error.
func openDB(path string) (*identity.Database, error) {
	db, err := identity.NewDatabase(path)
	if db == nil && err == nil {
		return nil, fmt.Errorf("NewDatabase returned neither a database nor an error")
	}
	return db, err
}
