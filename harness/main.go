// Command verifharness runs the runtime monitors for go-identity.
//
//	verifharness run -prop C01 -tier quick -seed 1 -verif /verif -race BIN
//	verifharness worker ...    (internal)
//	verifharness replay FILE   (re-runs the recorded case)
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
)

// ParentCtx is handed to a property's parent-side part.
type ParentCtx struct {
	Prop     *Prop
	Tier     string
	Thorough bool
	Seed     int64
	Base     string
	Verif    string
	Self     string
	RaceBin  string
	Res      *Result
	Blobs    []map[string]string
	distinct map[uint64]struct{}
	incon    []string
}

func (p *ParentCtx) Inconclusive(format string, a ...interface{}) {
	p.incon = append(p.incon, fmt.Sprintf(format, a...))
}
func (p *ParentCtx) Event(n string) { p.Res.Events[n]++ }
func (p *ParentCtx) Eval(key string) {
	p.Res.Evals++
	if key != "" {
		p.distinct[hash64(key)] = struct{}{}
	}
}
func (p *ParentCtx) Violate(cs int, trace []string, format string, a ...interface{}) {
	p.Res.Violations = append(p.Res.Violations, Violation{Prop: p.Prop.ID, Seed: p.Seed, Tier: p.Tier, Case: cs, Cats: []string{p.Prop.ID}, Msg: fmt.Sprintf(format, a...), Trace: trace})
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: verifharness run|worker|replay|child")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "run":
		os.Exit(cmdRun(os.Args[2:]))
	case "worker":
		cmdWorker(os.Args[2:])
	case "child":
		cmdChild(os.Args[2:])
	case "replay":
		os.Exit(cmdReplay(os.Args[2:]))
	case "list":
		var ids []string
		for id := range props {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, " "))
	default:
		fmt.Fprintln(os.Stderr, "unknown command", os.Args[1])
		os.Exit(2)
	}
}

func cmdWorker(args []string) {
	fs := flag.NewFlagSet("worker", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	seed := fs.Int64("seed", 1, "")
	shard := fs.Int("shard", 0, "")
	shards := fs.Int("shards", 1, "")
	base := fs.String("base", "", "")
	out := fs.String("out", "", "")
	data := fs.String("data", "", "")
	only := fs.Int("only", -1, "")
	fs.Parse(args)
	p := props[*prop]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		os.Exit(3)
	}
	runWorker(p, *tier, *seed, *shard, *shards, *base, *out, *data, *only)
	os.Exit(0)
}

// childCmds are special child modes (crash children, generators, ...).
var childCmds = map[string]func(args []string){}

func cmdChild(args []string) {
	f := childCmds[args[0]]
	if f == nil {
		fmt.Fprintln(os.Stderr, "unknown child", args[0])
		os.Exit(3)
	}
	f(args[1:])
}

func cmdReplay(args []string) int {
	fs := flag.NewFlagSet("replay", flag.ExitOnError)
	verif := fs.String("verif", "/verif", "")
	race := fs.String("race", "", "")
	fs.Parse(args)
	b, err := os.ReadFile(fs.Arg(0))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var v Violation
	if err := json.Unmarshal(b, &v); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Println("recorded:", v.Msg)
	return doRun(v.Prop, v.Tier, v.Seed, *verif, *race, v.Case, true)
}

func cmdRun(args []string) int {
	fs := flag.NewFlagSet("run", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	seed := fs.Int64("seed", 1, "")
	verif := fs.String("verif", "/verif", "")
	race := fs.String("race", "", "")
	only := fs.Int("only", -1, "")
	verbose := fs.Bool("v", false, "")
	fs.Parse(args)
	return doRun(*prop, *tier, *seed, *verif, *race, *only, *verbose)
}

func scratchBase() string {
	for _, d := range []string{"/dev/shm", os.Getenv("TMPDIR"), "/tmp"} {
		if d == "" {
			continue
		}
		p, err := os.MkdirTemp(d, "vh")
		if err == nil {
			return p
		}
	}
	fmt.Fprintln(os.Stderr, "no scratch directory")
	os.Exit(2)
	return ""
}

func doRun(prop, tier string, seed int64, verif, race string, only int, verbose bool) int {
	start := time.Now()
	p := props[prop]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", prop)
		return 2
	}
	base := scratchBase()
	defer os.RemoveAll(base)
	self, err := os.Executable()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	pc := &ParentCtx{Prop: p, Tier: tier, Thorough: tier == "thorough", Seed: seed, Base: base, Verif: verif, Self: self, RaceBin: race, distinct: map[uint64]struct{}{},
		Res: &Result{Events: map[string]int64{}, Known: map[string]string{}, Foreign: map[string]int64{}, ForeignMsg: map[string]string{}, Blobs: map[string]string{}}}

	procs := p.Procs
	if procs == 0 {
		procs = 8
	}
	if k, err := strconv.Atoi(os.Getenv("VERIF_PROCS")); err == nil && k > 0 {
		procs = k
	}
	n := p.cases(pc.Thorough)
	if n < procs {
		procs = n
	}
	if only >= 0 {
		procs = 1
	}
	bin := self
	if p.Race {
		bin = race
		if bin == "" {
			fmt.Fprintln(os.Stderr, "race binary required")
			return 2
		}
	}
	if procs > 0 {
		runShards(pc, bin, procs, only, n)
	}
	if p.Parent != nil && only < 0 {
		p.Parent(pc)
	}
	return finish(pc, start, verbose)
}

func runShards(pc *ParentCtx, bin string, procs, only, n int) {
	type wk struct {
		cmd    *exec.Cmd
		out    string
		errf   string
		done   chan error
		lastOp string
		cpu    time.Duration
		since  time.Time
		raced  string
	}
	var ws []*wk
	for i := 0; i < procs; i++ {
		d := filepath.Join(pc.Base, fmt.Sprintf("w%d", i))
		os.MkdirAll(d, 0700)
		w := &wk{out: filepath.Join(pc.Base, fmt.Sprintf("out%d.json", i)), errf: filepath.Join(pc.Base, fmt.Sprintf("err%d.txt", i)), done: make(chan error, 1)}
		args := []string{"worker", "-prop", pc.Prop.ID, "-tier", pc.Tier, "-seed", fmt.Sprint(pc.Seed), "-shard", fmt.Sprint(i), "-shards", fmt.Sprint(procs), "-base", d, "-out", w.out, "-data", filepath.Join(pc.Verif, "harness", "data")}
		if only >= 0 {
			args = append(args, "-only", fmt.Sprint(only))
		}
		w.cmd = exec.Command(bin, args...)
		w.cmd.Dir = d
		ef, _ := os.Create(w.errf)
		w.cmd.Stderr = ef
		w.cmd.Stdout = ef
		w.raced = filepath.Join(pc.Base, fmt.Sprintf("race%d", i))
		env := append(os.Environ(), "HOME="+d, "TMPDIR="+d, "GOMAXPROCS=4", "GOTRACEBACK=all")
		if pc.Prop.Race {
			env = append(env, "GORACE=halt_on_error=0 log_path="+w.raced+" history_size=3")
		}
		w.cmd.Env = env
		w.cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
		if err := w.cmd.Start(); err != nil {
			pc.Inconclusive("cannot start worker: %v", err)
			continue
		}
		w.since = time.Now()
		go func(w *wk) { w.done <- w.cmd.Wait() }(w)
		ws = append(ws, w)
	}
	for _, w := range ws {
		running := true
		var werr error
		killed := ""
		for running {
			select {
			case werr = <-w.done:
				running = false
			case <-time.After(500 * time.Millisecond):
				// logical-progress watchdog on all workers
				for _, x := range ws {
					b, _ := os.ReadFile(x.out + ".progress")
					s := strings.TrimSpace(string(b))
					cpu := procCPU(x.cmd.Process.Pid)
					if s != x.lastOp {
						x.lastOp, x.cpu, x.since = s, cpu, time.Now()
						continue
					}
					if x == w {
						if cpu-x.cpu > 120*time.Second {
							killed = "cpu"
							syscall.Kill(-x.cmd.Process.Pid, syscall.SIGQUIT)
							time.Sleep(2 * time.Second)
							syscall.Kill(-x.cmd.Process.Pid, syscall.SIGKILL)
						} else if time.Since(x.since) > 600*time.Second {
							killed = "wall"
							syscall.Kill(-x.cmd.Process.Pid, syscall.SIGQUIT)
							time.Sleep(2 * time.Second)
							syscall.Kill(-x.cmd.Process.Pid, syscall.SIGKILL)
						}
					}
				}
			}
		}
		stderr, _ := os.ReadFile(w.errf)
		prog, _ := os.ReadFile(w.out + ".progress")
		progress := strings.TrimSpace(string(prog))
		cs := -1
		if f := strings.Fields(progress); len(f) > 1 {
			cs, _ = strconv.Atoi(f[1])
		}
		if b, err := os.ReadFile(w.out); err == nil && werr == nil {
			var r Result
			if err := json.Unmarshal(b, &r); err != nil {
				pc.Inconclusive("worker result unreadable: %v", err)
			} else {
				merge(pc, &r)
			}
		} else {
			se := string(stderr)
			lib := strings.Contains(se, "github.com/greenpau/go-identity")
			switch {
			case killed == "cpu" && lib:
				pc.Violate(cs, []string{progress, tail(se, 6000)}, "a call did not return after 120 CPU-seconds: %s", progress)
			case killed != "":
				pc.Inconclusive("watchdog (%s) at %q\n%s", killed, progress, tail(se, 3000))
			case strings.Contains(se, "HARNESS-ERROR"):
				pc.Inconclusive("harness error at %q: %s", progress, tail(se, 6000))
			case lib && (strings.Contains(se, "all goroutines are asleep") || strings.Contains(se, "fatal error: concurrent map") || strings.Contains(se, "fatal error: sync") || strings.Contains(se, "fatal error: all goroutines")):
				pc.Violate(cs, []string{progress, head(se, 6000)}, "the library wedged or crashed the process at %q: %s", progress, firstLine(se, "fatal error"))
			case lib && strings.Contains(se, "panic:"):
				pc.Violate(cs, []string{progress, head(se, 6000)}, "the library crashed the process at %q: %s", progress, firstLine(se, "panic:"))
			case lib && (strings.Contains(se, "stack overflow") || strings.Contains(se, "fatal error")):
				pc.Violate(cs, []string{progress, head(se, 6000)}, "the library crashed the process at %q: %s", progress, firstLine(se, "fatal error"))
			default:
				pc.Inconclusive("worker failed (%v) at %q: %s", werr, progress, tail(se, 6000))
			}
		}
		if len(stderr) > 0 && os.Getenv("VERIF_DEBUG") != "" {
			fmt.Fprintf(os.Stderr, "%s", stderr)
		}
	}
	if pc.Prop.Race {
		collectRaces(pc)
	}
}

func head(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

func firstLine(s, sub string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, sub) {
			return l
		}
	}
	return ""
}

func procCPU(pid int) time.Duration {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return 0
	}
	s := string(b)
	i := strings.LastIndex(s, ")")
	f := strings.Fields(s[i+1:])
	if len(f) < 13 {
		return 0
	}
	u, _ := strconv.ParseInt(f[11], 10, 64)
	v, _ := strconv.ParseInt(f[12], 10, 64)
	return time.Duration(u+v) * 10 * time.Millisecond
}

func merge(pc *ParentCtx, r *Result) {
	pc.Res.Evals += r.Evals
	pc.Res.CasesRun += r.CasesRun
	for k, v := range r.Events {
		pc.Res.Events[k] += v
	}
	for _, h := range r.Distinct {
		pc.distinct[h] = struct{}{}
	}
	for _, s := range r.Samples {
		if len(pc.Res.Samples) < 6 {
			pc.Res.Samples = append(pc.Res.Samples, s)
		}
	}
	pc.Res.Violations = append(pc.Res.Violations, r.Violations...)
	for k, v := range r.Known {
		pc.Res.Known[k] = v
	}
	for k, v := range r.Foreign {
		pc.Res.Foreign[k] += v
	}
	for k, v := range r.ForeignMsg {
		pc.Res.ForeignMsg[k] = v
	}
	pc.Blobs = append(pc.Blobs, r.Blobs)
}

type knownFinding struct {
	ID       string `json:"id"`
	Property string `json:"property"`
	What     string `json:"what"`
	Status   string `json:"status"`
}

func loadKnown(verif string) map[string]knownFinding {
	m := map[string]knownFinding{}
	b, err := os.ReadFile(filepath.Join(verif, "known_findings.json"))
	if err != nil {
		return m
	}
	var doc struct {
		Findings []knownFinding `json:"findings"`
	}
	if err := json.Unmarshal(b, &doc); err != nil {
		fmt.Fprintln(os.Stderr, "known_findings.json:", err)
		os.Exit(2)
	}
	for _, f := range doc.Findings {
		m[f.ID] = f
	}
	return m
}

func finish(pc *ParentCtx, start time.Time, verbose bool) int {
	known := loadKnown(pc.Verif)
	// A reproduced finding counts as known only if the committed file lists it
	// for this property.
	var kids []string
	for id := range pc.Res.Known {
		kids = append(kids, id)
	}
	sort.Strings(kids)
	for _, id := range kids {
		f, ok := known[id]
		if ok && f.Status == "open" && f.Property != pc.Prop.ID {
			continue // reported by the check of its own property
		}
		if ok && f.Status == "open" && f.Property == pc.Prop.ID {
			fmt.Printf("KNOWN-FINDING: property=%s %s: %s [%s]\n", pc.Prop.ID, id, f.What, oneLine(pc.Res.Known[id]))
		} else {
			pc.Violate(-1, nil, "finding %s reproduced, which known_findings.json does not list as open for %s: %s", id, pc.Prop.ID, pc.Res.Known[id])
		}
	}
	viol := pc.Res.Violations
	events := pc.Res.Events
	rule := pc.Prop.Rule
	samples := pc.Res.Samples
	if len(samples) == 0 {
		samples = []string{"(no sample recorded)"}
	}
	ev := map[string]interface{}{
		"property": pc.Prop.ID,
		"tier":     pc.Tier,
		"seed":     pc.Seed,
		"level":    pc.Prop.Level,
		"coverage": map[string]interface{}{
			"evaluations":               pc.Res.Evals,
			"distinct_nontrivial":       len(pc.distinct),
			"rule":                      rule,
			"samples":                   samples,
			"cases":                     pc.Res.CasesRun,
			"events":                    events,
			"foreign_discrepancies":     pc.Res.Foreign,
			"known_findings_reproduced": kids,
		},
		"assumptions": append([]string{"harness and oracles are correct; only executions actually run are judged", "bcrypt is the repository's pinned x/crypto version with its round count divided by 64 in a scratch copy, so histories stay cheap"}, pc.Prop.Assumptions...),
		"wall_s":      time.Since(start).Seconds(),
		"violations":  len(viol),
	}
	os.MkdirAll(filepath.Join(pc.Verif, "evidence"), 0755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(pc.Verif, "evidence", pc.Prop.ID+".json"), append(b, '\n'), 0644); err != nil {
		pc.Inconclusive("cannot write evidence: %v", err)
	}
	if len(pc.Res.Foreign) > 0 {
		for k, v := range pc.Res.Foreign {
			fmt.Printf("note: %d histories stopped early by a discrepancy of %s (%s)\n", v, k, oneLine(pc.Res.ForeignMsg[k]))
		}
	}
	if len(viol) > 0 {
		os.MkdirAll(filepath.Join(pc.Verif, "replays"), 0755)
		seen := map[string]bool{}
		for i, v := range viol {
			key := head(v.Msg, 60)
			if seen[key] && !verbose {
				continue
			}
			seen[key] = true
			f := filepath.Join(pc.Verif, "replays", fmt.Sprintf("%s-%s-s%d-c%d-%d.json", v.Prop, pc.Tier, v.Seed, v.Case, i))
			b, _ := json.MarshalIndent(v, "", " ")
			os.WriteFile(f, append(b, '\n'), 0644)
			fmt.Printf("VIOLATION property=%s replay=%s\n", v.Prop, f)
			fmt.Printf("  case %d: %s\n", v.Case, head(v.Msg, 3000))
			if verbose {
				for _, t := range v.Trace {
					fmt.Printf("    | %s\n", head(t, 400))
				}
			}
		}
		return 1
	}
	if len(pc.incon) > 0 {
		for _, s := range pc.incon {
			fmt.Printf("INCONCLUSIVE: %s\n", s)
		}
		return 2
	}
	if pc.Res.Evals == 0 {
		fmt.Println("INCONCLUSIVE: nothing was observed")
		return 2
	}
	fmt.Printf("held: property=%s cases=%d evaluations=%d distinct=%d wall=%.1fs\n", pc.Prop.ID, pc.Res.CasesRun, pc.Res.Evals, len(pc.distinct), time.Since(start).Seconds())
	if verbose {
		var ks []string
		for k := range events {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			fmt.Printf("  %-50s %d\n", k, events[k])
		}
	}
	return 0
}

func oneLine(s string) string {
	return head(strings.ReplaceAll(s, "\n", " "), 400)
}
