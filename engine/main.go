package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

var (
	fID      = flag.String("id", "", "property")
	fPkg     = flag.String("pkg", "./hd", "harness package")
	fTier    = flag.String("tier", "", "quick or thorough")
	fBudget  = flag.Int("budget", 0, "exploration seconds")
	fOnly    = flag.String("only", "", "run only this harness")
	fV       = flag.Bool("v", false, "verbose")
	fWorkers = flag.Int("j", 0, "workers")
	fRoot    = flag.String("root", "/verif", "verification directory")
	fProf    = flag.String("cpuprofile", "", "")
	fSolver  = flag.String("solver", "z3", "")
	fNoRepl  = flag.Bool("noreplay", false, "")
	fFast    = flag.Int("fast", 0, "stop after this many candidates (development aid)")
	fPath    = flag.String("path", "", "run a single decision prefix")
)

func main() {
	flag.Parse()
	os.Exit(realMain())
}

func fail(f string, a ...any) int {
	fmt.Printf("ERROR "+f+"\n", a...)
	return 2
}

type replayer struct {
	bin   string
	pkg   string
	err   error
	out   string
	ready chan struct{}
	dir   string
	inst  string // instrumented binary for schedule-dependent candidates
	once  sync.Once
	ierr  error
}

func goEnv() []string {
	return append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local", "GOWORK=off")
}

func (r *replayer) build(hdir string) {
	defer close(r.ready)
	r.bin = filepath.Join(r.dir, "replay.test")
	c := exec.Command("go", "test", "-c", "-vet=off", "-o", r.bin, r.pkg)
	c.Dir = hdir
	c.Env = goEnv()
	b, err := c.CombinedOutput()
	r.out, r.err = string(b), err
}

// raceBin builds the replay program with the race detector.
func (r *replayer) raceBin(hdir, pkg string) (string, string) {
	b := filepath.Join(r.dir, "replay.race.test")
	if _, err := os.Stat(b); err == nil {
		return b, ""
	}
	c := exec.Command("go", "test", "-race", "-c", "-vet=off", "-o", b, pkg)
	c.Dir = hdir
	c.Env = append(goEnv(), "CGO_ENABLED=1")
	if out, err := c.CombinedOutput(); err != nil {
		return "", "building with the race detector: " + string(out)
	}
	return b, ""
}

type runResult struct {
	status string // ok, fail, assume, panic, hang, error
	detail string
	reach  string
}

// run executes one native replay.
func (r *replayer) run(bin string, file string, timeout time.Duration, env ...string) runResult {
	c := exec.Command(bin, "-test.run=^TestReplay$", "-test.timeout=0")
	c.Env = append(append(os.Environ(), "VERIF_VALUES="+file, "GOTRACEBACK=single", "GOMEMLIMIT=3GiB"), env...)
	var out bytes.Buffer
	c.Stdout, c.Stderr = &out, &out
	if err := c.Start(); err != nil {
		return runResult{status: "error", detail: err.Error()}
	}
	done := make(chan error, 1)
	go func() { done <- c.Wait() }()
	var err error
	select {
	case err = <-done:
	case <-time.After(timeout):
		c.Process.Kill()
		<-done
		return runResult{status: "hang", detail: "no progress within " + timeout.String()}
	}
	s := out.String()
	code := 0
	if err != nil {
		code = -1
		if ee, ok := err.(*exec.ExitError); ok {
			code = ee.ExitCode()
		}
	}
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(s, "WARNING: DATA RACE") {
			break
		}
		switch {
		case strings.HasPrefix(l, "ND-FAIL "):
			return runResult{status: "fail", detail: strings.TrimPrefix(l, "ND-FAIL ")}
		case strings.HasPrefix(l, "ND-OK"):
			if code == 0 {
				return runResult{status: "ok", reach: strings.TrimSpace(strings.TrimPrefix(l, "ND-OK"))}
			}
		case strings.HasPrefix(l, "ND-ASSUME"):
			return runResult{status: "assume"}
		}
	}
	if i := strings.Index(s, "WARNING: DATA RACE"); i >= 0 {
		r := s[i:]
		if j := strings.Index(r[18:], "====="); j >= 0 {
			r = r[:18+j]
		}
		for _, w := range []string{"runtime.map", "internal/runtime/maps.", "fatal error: concurrent map"} {
			if strings.Contains(r, w) {
				return runResult{status: "race", detail: firstLines(r, 30)}
			}
		}
	}
	if strings.Contains(s, "deadlock") {
		return runResult{status: "hang", detail: firstLines(s, 12)}
	}
	if strings.Contains(s, "panic:") || strings.Contains(s, "fatal error:") {
		return runResult{status: "panic", detail: firstLines(s, 12)}
	}
	return runResult{status: "error", detail: firstLines(s, 12)}
}

func firstLines(s string, n int) string {
	l := strings.Split(strings.TrimSpace(s), "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

type replayFile struct {
	Property string    `json:"property"`
	Harness  string    `json:"harness"`
	Kind     string    `json:"kind"`
	Assert   string    `json:"assert"`
	Message  string    `json:"message"`
	Thorough bool      `json:"thorough"`
	Values   []NdValue `json:"values"`
	Trace    []string  `json:"trace,omitempty"`
	Native   string    `json:"native,omitempty"`
	Command  string    `json:"command,omitempty"`
}

func writeJSON(path string, v any) {
	b, _ := json.MarshalIndent(v, "", " ")
	os.MkdirAll(filepath.Dir(path), 0o755)
	os.WriteFile(path, append(b, '\n'), 0o644)
}

func realMain() int {
	t0 := time.Now()
	if *fTier == "" {
		*fTier = os.Getenv("VERIF_TIER")
	}
	if *fTier == "" {
		*fTier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	thorough := *fTier == "thorough"
	if *fProf != "" {
		f, _ := os.Create(*fProf)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	if *fBudget == 0 {
		*fBudget = 240
		if thorough {
			*fBudget = 700
		}
	}
	hdir := filepath.Join(*fRoot, "harness")
	tmp, err := os.MkdirTemp("", "verif-"+*fID+"-")
	if err != nil {
		return fail("%v", err)
	}
	defer os.RemoveAll(tmp)
	reps := map[string]*replayer{}
	pkgs := strings.Split(*fPkg, ",")
	for i, p := range pkgs {
		r := &replayer{dir: filepath.Join(tmp, itoa(i)), pkg: p, ready: make(chan struct{})}
		os.Mkdir(r.dir, 0o755)
		reps[filepath.Base(p)] = r
		go r.build(hdir)
	}
	built := func() (r error) {
		for _, p := range reps {
			<-p.ready
			if p.err != nil {
				r = fmt.Errorf("building the replay program: %v\n%s", p.err, p.out)
			}
		}
		return
	}
	L, err := load(hdir, pkgs)
	if err != nil {
		built()
		return fail("cannot load the code: %v", err)
	}
	tLoad := time.Since(t0)
	workers := *fWorkers
	if workers == 0 {
		workers = runtime.NumCPU()
	}
	e := newExplorer(L, workers, *fSolver, 20000)
	e.verbose = *fV
	docs := docsOf(L)
	bounds := map[string]string{}
	weight := func(f *ssa.Function) float64 {
		for _, l := range strings.Split(docs[f.Name()], "\n") {
			if strings.HasPrefix(l, "Weight: ") {
				w, err := strconv.ParseFloat(strings.TrimPrefix(l, "Weight: "), 64)
				if err == nil {
					return w
				}
			}
		}
		return 1
	}
	for _, p := range []string{*fID + "_", "KF_" + *fID + "_"} {
		for _, f := range L.harnesses(p) {
			if *fOnly != "" && f.Name() != *fOnly {
				continue
			}
			if !thorough && strings.Contains(docs[f.Name()], "Tier: thorough") {
				continue
			}
			e.add(f, thorough, weight(f)).rep = reps[filepath.Base(f.Pkg.Pkg.Path())]
			bounds[f.Name()] = strings.TrimSpace(docs[f.Name()])
		}
	}
	if len(e.hs) == 0 {
		built()
		return fail("no harness for %s", *fID)
	}
	e.deadline = time.Now().Add(time.Duration(*fBudget) * time.Second)
	if *fPath != "" {
		var p []int32
		for _, x := range strings.Split(*fPath, ",") {
			n, _ := strconv.Atoi(x)
			p = append(p, int32(n))
		}
		e.hs[0].queue = []Item{{p, nil}}
	}
	tick := make(chan struct{})
	go func() {
		for {
			select {
			case <-tick:
				return
			case <-time.After(5 * time.Second):
				e.cond.Broadcast()
				if e.verbose {
					e.mu.Lock()
					for _, h := range e.hs {
						fmt.Printf("  .. %s paths=%d queue=%d active=%d ends=%v spent=%.0fs\n", h.name, h.paths, len(h.queue), h.active, h.ends, h.spent.Seconds())
					}
					e.mu.Unlock()
				}
			}
		}
	}()
	e.run()
	close(tick)
	tExplore := time.Since(t0) - tLoad
	if err := built(); e.fatal != "" {
		return fail("%s", e.fatal)
	} else if err != nil {
		return fail("%v", err)
	}

	// ---- replay ----
	edir := filepath.Join(*fRoot, "evidence")
	rdir := filepath.Join(edir, "replays")
	os.MkdirAll(rdir, 0o755)
	type confirmed struct {
		h    *HState
		v    *Violation
		res  runResult
		path string
	}
	var conf []confirmed
	var unrepro []string
	for _, h := range e.hs {
		var ids []string
		for id := range h.viol {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			ok := false
			for n, v := range h.viol[id] {
				if *fNoRepl {
					break
				}
				path := filepath.Join(rdir, fmt.Sprintf("%s-%s-%s-%d.json", *fID, h.name, sanitize(id), n))
				rf := &replayFile{Property: *fID, Harness: h.name, Kind: v.Kind, Assert: v.ID, Message: v.Msg, Thorough: thorough, Values: v.Values, Trace: v.Trace,
					Command: fmt.Sprintf("cd %s && bash replay.sh %s <this file>", *fRoot, h.rep.pkg)}
				writeJSON(path, rf)
				res, good := h.rep.confirm(hdir, h.rep.pkg, path, v, seed)
				if good {
					rf.Native = res.status + ": " + res.detail
					writeJSON(path, rf)
					conf = append(conf, confirmed{h, v, res, path})
					ok = true
					break
				}
				if e.verbose {
					fmt.Println("not reproduced:", h.name, v.ID, res.status, res.detail)
				}
				os.Remove(path)
			}
			if !ok {
				unrepro = append(unrepro, h.name+": "+id+": "+h.viol[id][0].Msg)
			}
		}
	}
	// ---- validation of passing paths ----
	validated, disagree := 0, []string{}
	type wit struct {
		s   Sample
		res runResult
	}
	if !*fNoRepl {
		var all []Sample
		repOf := map[string]*replayer{}
		perH := 24
		if thorough {
			perH = 80
		}
		for _, h := range e.hs {
			if strings.HasPrefix(h.name, "KF_") {
				continue
			}
			repOf[h.name] = h.rep
			n := len(h.samples)
			k := perH
			if k > n {
				k = n
			}
			for i := 0; i < k; i++ {
				all = append(all, h.samples[i*n/k])
			}
		}
		var wg sync.WaitGroup
		var mu sync.Mutex
		sem := make(chan bool, workers)
		for i := range all {
			wg.Add(1)
			sem <- true
			go func(i int) {
				defer func() { <-sem; wg.Done() }()
				s := all[i]
				path := filepath.Join(tmp, fmt.Sprintf("w%d.json", i))
				writeJSON(path, &replayFile{Property: *fID, Harness: s.Harness, Thorough: thorough, Values: s.Values})
				rep := repOf[s.Harness]
				res := rep.run(rep.bin, path, 20*time.Second)
				mu.Lock()
				defer mu.Unlock()
				if res.status == "ok" && (s.Sched || res.reach == strings.Join(s.Reached, ",")) {
					validated++
					return
				}
				if s.Sched && res.status == "assume" {
					return
				}
				if res.status == "fail" || res.status == "panic" {
					// a failure of the real code on inputs of an explored path
					again := rep.run(rep.bin, path, 20*time.Second)
					if again.status == res.status {
						rp := filepath.Join(rdir, fmt.Sprintf("%s-%s-witness-%d.json", *fID, s.Harness, i))
						v := &Violation{ID: res.detail, Msg: "native run of an explored path fails", Kind: "witness", Values: s.Values}
						writeJSON(rp, &replayFile{Property: *fID, Harness: s.Harness, Kind: "witness", Assert: res.detail, Thorough: thorough, Values: s.Values, Native: res.status + ": " + res.detail})
						for _, h := range e.hs {
							if h.name == s.Harness {
								conf = append(conf, confirmed{h, v, res, rp})
							}
						}
						return
					}
				}
				if e.verbose {
					fmt.Println("disagreement on", s.Values)
				}
				disagree = append(disagree, fmt.Sprintf("%s: native %s %s %s, symbolic reached %v", s.Harness, res.status, res.detail, res.reach, s.Reached))
			}(i)
		}
		wg.Wait()
	}

	// ---- verdict ----
	exit := 0
	nviol := 0
	findings := loadFindings(filepath.Join(*fRoot, "known-findings.txt"), *fID)
	var kfSeen []string
	printed := 0
	for _, c := range conf {
		if strings.HasPrefix(c.h.name, "KF_") {
			if txt, ok := findings[c.h.name]; ok {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", *fID, txt)
				kfSeen = append(kfSeen, c.h.name)
				continue
			}
		}
		nviol++
		exit = 1
		if printed < 5 {
			fmt.Printf("VIOLATION property=%s replay=%s\n", *fID, c.path)
			fmt.Printf("  %s: %s %s\n  native: %s %s\n", c.h.name, c.v.Kind, c.v.Msg, c.res.status, strings.ReplaceAll(c.res.detail, "\n", "\n    "))
			printed++
		}
	}
	// ---- evidence ----
	var vac []string
	var hev []map[string]any
	paths, states, trans, asserts := int64(0), int64(0), int64(0), int64(0)
	covered := map[string]int{}
	var samples []any
	var reduced []string
	for _, h := range e.hs {
		paths += h.paths
		states += h.nodes
		trans += h.steps
		asserts += h.asserts
		for f := range h.covered {
			covered[f.name] = f.instrs
		}
		if !strings.HasPrefix(h.name, "KF_") {
			for _, l := range h.labels {
				if h.reached[l] == 0 {
					vac = append(vac, h.name+":"+l)
				}
			}
		}
		if h.stopped != "" {
			reduced = append(reduced, fmt.Sprintf("%s: stopped by %s after %d paths with %d alternatives left", h.name, h.stopped, h.paths, len(h.queue)))
		}
		for s, n := range h.incompl {
			reduced = append(reduced, fmt.Sprintf("%s: %d paths cut short: %s", h.name, n, s))
		}
		hev = append(hev, map[string]any{"harness": h.name, "bounds": bounds[h.name], "paths": h.paths, "decisions": h.nodes, "instructions": h.steps,
			"assertions": h.asserts, "path_ends": h.ends, "witnesses": h.reached, "complete": h.stopped == "" && len(h.incompl) == 0, "longest_path_decisions": h.maxLen, "cpu_s": round(h.spent.Seconds())})
		if len(h.samples) > 0 && len(samples) < 8 {
			s := h.samples[len(h.samples)/2]
			samples = append(samples, map[string]any{"harness": s.Harness, "inputs": compact(s.Values), "reached": s.Reached})
		}
	}
	if len(samples) == 0 {
		samples = append(samples, "no path completed")
	}
	sort.Strings(reduced)
	var fns []string
	for f := range covered {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	cov := map[string]any{
		"states": states, "transitions": trans, "traces_validated_against_impl": validated, "samples": samples,
		"paths": paths, "assertions_discharged": asserts, "queries": e.queries, "queries_sat": e.sat, "queries_unsat": e.uns, "queries_unknown": e.unk,
		"solver_s": round(e.stime.Seconds()), "solver": *fSolver, "functions_encoded": fns, "harnesses": hev,
		"reduced_bounds": reduced, "unreproduced_candidates": unrepro, "disagreements": disagree, "known_findings": kfSeen,
		"load_s": round(tLoad.Seconds()), "explore_s": round(tExplore.Seconds()),
		"explanation": "states = decision points explored (symbolic branches, nondeterministic choices, scheduling points); transitions = SSA instructions of the real code and harness executed symbolically; traces_validated = completed symbolic paths whose solver model was replayed natively against the real code with the same outcome",
	}
	writeJSON(filepath.Join(edir, *fID+".json"), map[string]any{
		"property": *fID, "tier": *fTier, "seed": seed, "level": "model_checking", "coverage": cov,
		"assumptions": assumptions(*fPkg), "wall_s": round(time.Since(t0).Seconds()), "violations": nviol,
	})
	fmt.Printf("%s %s: %d paths, %d decisions, %d assertions, %d queries (%d unknown, %.1fs), %d witnesses replayed, load %.1fs explore %.1fs total %.1fs\n", *fID, *fTier,
		paths, states, asserts, e.queries, e.unk, e.stime.Seconds(), validated, tLoad.Seconds(), tExplore.Seconds(), time.Since(t0).Seconds())
	for _, h := range e.hs {
		st := "complete"
		if h.stopped != "" || len(h.incompl) > 0 {
			st = "reduced"
		}
		fmt.Printf("  %-40s %-8s paths=%d ends=%v candidates=%d cpu=%.1fs\n", h.name, st, h.paths, h.ends, h.nviol, h.spent.Seconds())
	}
	for _, r := range reduced {
		fmt.Println("  reduced:", r)
	}
	for _, u := range unrepro {
		fmt.Println("  candidate not reproduced natively:", u)
	}
	for _, u := range disagree {
		fmt.Println("  witness disagreement:", u)
	}
	if exit == 0 && *fOnly == "" {
		done := int64(0)
		for _, h := range e.hs {
			done += h.ends["done"]
		}
		if done == 0 {
			return fail("no path of any harness completed")
		}
		for _, v := range vac {
			h := v[:strings.Index(v, ":")]
			for _, x := range e.hs {
				if x.name == h && x.stopped == "" && len(x.incompl) == 0 {
					fmt.Println("  vacuous: label never reached:", v)
					exit = 2
				}
			}
		}
	}
	return exit
}

func round(f float64) float64 { return float64(int64(f*100)) / 100 }

func compact(vs []NdValue) []string {
	var r []string
	for _, v := range vs {
		x := v.V
		s := fmt.Sprint(x)
		if len(s) > 120 {
			s = s[:120] + "…"
		}
		r = append(r, v.Label+"="+s)
		if len(r) >= 60 {
			r = append(r, "…")
			break
		}
	}
	return r
}

func sanitize(s string) string {
	return strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '-' {
			return r
		}
		return '_'
	}, s)
}

// confirm replays a candidate until it fails natively.
func (r *replayer) confirm(hdir, pkg, path string, v *Violation, seed int) (runResult, bool) {
	match := func(res runResult) bool {
		switch res.status {
		case "fail", "panic":
			return true
		case "hang":
			return v.Kind == "hang" || v.Kind == "deadlock"
		case "race":
			return v.Kind == "race"
		}
		return false
	}
	tmo := 20 * time.Second
	if v.Kind == "race" {
		b, err := r.raceBin(hdir, pkg)
		if err != "" {
			return runResult{status: "error", detail: err}, false
		}
		var res runResult
		for i := 0; i < 12; i++ {
			res = r.run(b, path, tmo, "GOMAXPROCS="+itoa(1+i%4), "GORACE=halt_on_error=0")
			if match(res) {
				return res, true
			}
		}
		return res, false
	}
	res := r.run(r.bin, path, tmo)
	if match(res) {
		return res, true
	}
	// outcomes that depend on map order or scheduling: several attempts
	var mu sync.Mutex
	var hit *runResult
	try := func(bin string, n int, lim time.Duration, env func(i int) []string) {
		var wg sync.WaitGroup
		sem := make(chan bool, runtime.NumCPU())
		end := time.Now().Add(lim)
		for i := 0; i < n && time.Now().Before(end); i++ {
			mu.Lock()
			stop := hit != nil
			mu.Unlock()
			if stop {
				break
			}
			sem <- true
			wg.Add(1)
			go func(i int) {
				defer func() { <-sem; wg.Done() }()
				x := r.run(bin, path, tmo, env(i)...)
				if match(x) {
					mu.Lock()
					hit = &x
					mu.Unlock()
				}
			}(i)
		}
		wg.Wait()
	}
	try(r.bin, 200, 25*time.Second, func(i int) []string { return []string{"GOMAXPROCS=" + itoa(1+i%4)} })
	if hit != nil {
		return *hit, true
	}
	if b := r.instrumented(hdir, pkg); b != "" {
		try(b, 600, 45*time.Second, func(i int) []string {
			return []string{"VERIF_SCHED=" + itoa(seed*100000+i+1), "GOMAXPROCS=" + itoa(1+i%4)}
		})
		if hit != nil {
			return *hit, true
		}
	}
	return res, false
}

// docsOf returns the doc comments of the harness functions.
func docsOf(L *Loaded) map[string]string {
	r := map[string]string{}
	for _, p := range L.Pkgs {
		for _, m := range p.Members {
			if f, ok := m.(*ssa.Function); ok {
				if d, ok := f.Syntax().(*ast.FuncDecl); ok && d.Doc != nil {
					r[f.Name()] = d.Doc.Text()
				}
			}
		}
	}
	return r
}

// loadFindings reads the committed list of known findings: lines
// "finding: property=<id> harness=<probe> <what fails>".
func loadFindings(path, id string) map[string]string {
	r := map[string]string{}
	b, err := os.ReadFile(path)
	if err != nil {
		return r
	}
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.SplitN(l, " ", 4)
		if len(f) == 4 && f[0] == "finding:" && f[1] == "property="+id && strings.HasPrefix(f[2], "harness=") {
			r[strings.TrimPrefix(f[2], "harness=")] = f[3]
		}
	}
	return r
}

func assumptions(pkg string) []string {
	a := []string{
		"hamba/avro, regexp, fmt, strconv, sync, time and math/rand are executed as models written in the engine (compared with the real libraries by the witnesses replayed natively and by selftest.sh); logging and metrics have empty bodies",
		"goroutines are scheduled at synchronisation operations (channels, locks, wait groups, atomics); interleavings explored are those stated in the bounds of each harness; data races within one stretch between such operations are outside the claim",
		"everything outside the stated bounds of each harness",
	}
	if strings.Contains(pkg, "ht") {
		a = append(a, "the broker client (sarama), the websocket library and the RPC library are replaced by in-memory nondeterministic models (/verif/models) with their documented contracts")
	}
	return a
}
