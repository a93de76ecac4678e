package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"time"
)

type job struct {
	Dir     string   `json:"dir"`
	Harness string   `json:"harness"`
	Tape    []uint64 `json:"tape"`
}

type jobRes struct {
	Outcome string   `json:"outcome"`
	Msg     string   `json:"msg"`
	Failed  []string `json:"failed"`
	Obs     []string `json:"obs"`
	Reached []string `json:"reached"`
}

const nativeMain = `package main

import (
	"bufio"
	"encoding/json"
	"os"
	"time"
%s)

type job struct {
	Dir     string   ` + "`json:\"dir\"`" + `
	Harness string   ` + "`json:\"harness\"`" + `
	Tape    []uint64 ` + "`json:\"tape\"`" + `
}
type jobRes struct {
	Outcome string   ` + "`json:\"outcome\"`" + `
	Msg     string   ` + "`json:\"msg\"`" + `
	Failed  []string ` + "`json:\"failed\"`" + `
	Obs     []string ` + "`json:\"obs\"`" + `
	Reached []string ` + "`json:\"reached\"`" + `
}

func main() {
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := json.NewEncoder(os.Stdout)
	dec := json.NewDecoder(in)
	for {
		var j job
		if dec.Decode(&j) != nil {
			return
		}
		ch := make(chan jobRes, 1)
		go func() {
			var r jobRes
			switch j.Dir {
%s			}
			ch <- r
		}()
		select {
		case r := <-ch:
			out.Encode(r)
		case <-time.After(20 * time.Second):
			out.Encode(jobRes{Outcome: "timeout"})
			os.Exit(0)
		}
	}
}
`

// native builds the harnesses against the real code and runs the jobs.
func native(repo string, ov map[string][]byte, hs map[string][]harnessFile, module string, jobs []job) ([]jobRes, error) {
	tmp, err := os.MkdirTemp("", "vp-native-")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(tmp)
	repl := map[string]string{}
	n := 0
	put := func(path string, data []byte) error {
		n++
		f := filepath.Join(tmp, fmt.Sprintf("f%d.go", n))
		repl[path] = f
		return os.WriteFile(f, data, 0o644)
	}
	for p, d := range ov {
		if err := put(p, d); err != nil {
			return nil, err
		}
	}
	var imps, cases strings.Builder
	var dirs []string
	for d := range hs {
		dirs = append(dirs, d)
	}
	sort.Strings(dirs)
	for i, d := range dirs {
		path := module
		if d != "." {
			path += "/" + d
		}
		fmt.Fprintf(&imps, "\tp%d %q\n", i, path)
		fmt.Fprintf(&cases, "\t\t\tcase %q:\n\t\t\t\tr.Outcome, r.Msg, r.Failed, r.Obs, r.Reached = p%d.VPRun(j.Harness, j.Tape)\n", d, i)
	}
	if err := put(filepath.Join(repo, "zz_vpmain", "main.go"), []byte(fmt.Sprintf(nativeMain, imps.String(), cases.String()))); err != nil {
		return nil, err
	}
	oj, _ := json.Marshal(map[string]any{"Replace": repl})
	ovf := filepath.Join(tmp, "overlay.json")
	if err := os.WriteFile(ovf, oj, 0o644); err != nil {
		return nil, err
	}
	bin := filepath.Join(tmp, "native")
	cmd := exec.Command("go", "build", "-overlay", ovf, "-o", bin, "./zz_vpmain")
	cmd.Dir = repo
	cmd.Env = goEnv()
	if out, err := cmd.CombinedOutput(); err != nil {
		return nil, fmt.Errorf("native build: %v\n%s", err, out)
	}
	var res []jobRes
	for len(res) < len(jobs) {
		var in bytes.Buffer
		enc := json.NewEncoder(&in)
		for _, j := range jobs[len(res):] {
			enc.Encode(j)
		}
		c := exec.Command(bin)
		c.Dir = tmp
		c.Env = append(os.Environ(), "TZ=UTC")
		c.Stdin = &in
		var stderr bytes.Buffer
		c.Stderr = &stderr
		o, err := c.StdoutPipe()
		if err != nil {
			return nil, err
		}
		if err := c.Start(); err != nil {
			return nil, err
		}
		dec := json.NewDecoder(bufio.NewReader(o))
		got := 0
		for {
			var r jobRes
			if dec.Decode(&r) != nil {
				break
			}
			res = append(res, r)
			got++
		}
		c.Wait()
		if len(res) < len(jobs) && got == 0 {
			// the process died on this job (fatal error such as stack overflow)
			res = append(res, jobRes{Outcome: "panic", Msg: "process died: " + firstLine(stderr.String())})
		} else if len(res) < len(jobs) {
			if res[len(res)-1].Outcome != "timeout" {
				res = append(res, jobRes{Outcome: "panic", Msg: "process died: " + firstLine(stderr.String())})
			}
		}
	}
	return res, nil
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

type knownEntry struct{ prop, harness, msg string }

// readKnown parses lines "known: property=<id> harness=<name> msg=<text>".
func readKnown(path string) ([]knownEntry, error) {
	b, err := os.ReadFile(path)
	if os.IsNotExist(err) {
		return nil, nil
	}
	if err != nil {
		return nil, err
	}
	var out []knownEntry
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		var k knownEntry
		rest := strings.TrimPrefix(l, "known: ")
		i := strings.Index(rest, " msg=")
		if i < 0 {
			continue
		}
		k.msg = rest[i+5:]
		for _, f := range strings.Fields(rest[:i]) {
			if v, ok := strings.CutPrefix(f, "property="); ok {
				k.prop = v
			}
			if v, ok := strings.CutPrefix(f, "harness="); ok {
				k.harness = v
			}
		}
		out = append(out, k)
	}
	return out, nil
}

func main() {
	if len(os.Args) > 1 && os.Args[1] == "replay" {
		os.Exit(replayMain(os.Args[2:]))
	}
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", "quick", "quick or thorough")
	repo := flag.String("repo", "/repo", "repository")
	root := flag.String("root", "/verif", "verification directory")
	only := flag.String("only", "", "run only harnesses containing this text")
	budget := flag.Int("budget", 0, "time budget in seconds for exploration")
	workers := flag.Int("workers", 0, "workers")
	verbose := flag.Bool("v", false, "verbose")
	flag.Parse()
	os.Exit(checkMain(*prop, *tier, *repo, *root, *only, *budget, *workers, *verbose))
}

func checkMain(prop, tier, repo, root, only string, budget, workers int, verbose bool) int {
	t0 := time.Now()
	seed := int64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if v, err := strconv.ParseInt(s, 10, 64); err == nil {
			seed = v
		}
	}
	if budget == 0 {
		budget = 200
		if tier == "thorough" {
			budget = 780
		}
	}
	hroot := filepath.Join(root, "harness")
	hs, err := harnessFiles(hroot, prop)
	if err != nil || len(hs) == 0 {
		fmt.Println("ERROR: no harness for", prop, err)
		return 2
	}
	ov, err := overlayFiles(repo, hroot, hs)
	if err != nil {
		fmt.Println("ERROR:", err)
		return 2
	}
	var dirs []string
	for d := range hs {
		dirs = append(dirs, d)
	}
	sort.Strings(dirs)
	eng, err := loadEngine(repo, ov, dirs)
	if err != nil {
		fmt.Println("ERROR:", err)
		return 2
	}
	known, err := readKnown(filepath.Join(root, "known_findings.txt"))
	if err != nil {
		fmt.Println("ERROR:", err)
		return 2
	}
	eng.known = func(h, msg string) bool {
		for _, k := range known {
			if k.prop == prop && k.harness == h && k.msg == msg {
				return true
			}
		}
		return false
	}
	eng.tier, eng.seed = tier, seed
	eng.workers = workers
	if eng.workers == 0 {
		eng.workers = runtime.NumCPU()
	}
	eng.maxSteps = 3_000_000
	eng.solverBin = "z3"
	if b := os.Getenv("VERIF_Z3"); b != "" {
		eng.solverBin = b
	}
	eng.solverTimeout = 10000
	eng.nSample = 24
	if tier == "thorough" {
		eng.nSample = 100
		eng.solverTimeout = 60000
	}
	eng.loadWall = time.Since(t0).Seconds()
	stats := &solverStats{}
	deadline := t0.Add(time.Duration(budget) * time.Second)
	type hrun struct {
		dir string
		res *HarnessResult
	}
	var runs []hrun
	type hp struct{ dir, name string }
	var todo []hp
	for _, d := range dirs {
		for _, h := range hs[d] {
			for _, f := range h.funcs {
				if only == "" || strings.Contains(f, only) {
					todo = append(todo, hp{d, f})
				}
			}
		}
	}
	for i, h := range todo {
		path := eng.module
		if h.dir != "." {
			path += "/" + h.dir
		}
		pkg := eng.pkgs[path]
		if pkg == nil {
			fmt.Println("ERROR: package not loaded:", path)
			return 2
		}
		eng.buildPkg(pkg)
		fn := pkg.Func(h.name)
		if fn == nil {
			fmt.Println("ERROR: harness not found:", h.name)
			return 2
		}
		left := time.Until(deadline)
		share := left / time.Duration(len(todo)-i)
		if share < 3*time.Second {
			share = 3 * time.Second
		}
		// a harness may use up to three shares so that cheap neighbours lend their time
		if m := 3 * share; m < left {
			share = m
		} else {
			share = left
		}
		res := eng.explore(fn, stats, share)
		res.WantReach = eng.wantReach(pkg, fn)
		runs = append(runs, hrun{h.dir, res})
		if verbose {
			if forkProf {
				dumpForks()
			}
			fmt.Printf("%-45s paths=%d done=%d infeasible=%d forks=%d instrs=%d asserts=%d(simpl %d, solver %d) fails=%d unsup=%d inconcl=%d budget=%v %.1fs\n", res.Name, res.Paths, res.Completed,
				res.Infeasible, res.Forks, res.Instrs, res.Asserts, res.Discharged, res.AssertQ, len(res.Failures), len(res.Unsupported), len(res.Inconcl), res.BudgetHit, res.Wall.Seconds())
			for k, n := range res.Unsupported {
				fmt.Printf("    unsupported x%d: %s\n", n, k)
			}
			for k, n := range res.Inconcl {
				fmt.Printf("    inconclusive x%d: %s\n", n, k)
			}
			for _, m := range res.Internal {
				fmt.Printf("    internal: %s\n", m)
				break
			}
		}
	}
	// replay counterexamples and sampled paths natively
	var jobs []job
	type ref struct {
		run  int
		fail *Failure
		smp  *Sample
	}
	var refs []ref
	for i := range runs {
		r := runs[i].res
		var keys []string
		for k := range r.Failures {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			for _, t := range r.Failures[k].Tapes {
				jobs = append(jobs, job{runs[i].dir, r.Name, t})
				refs = append(refs, ref{i, r.Failures[k], nil})
			}
		}
		for s := range r.Samples {
			jobs = append(jobs, job{runs[i].dir, r.Name, r.Samples[s].Tape})
			refs = append(refs, ref{i, nil, &r.Samples[s]})
		}
	}
	var warnings []string
	results, err := native(repo, ov, hs, eng.module, jobs)
	if err != nil {
		fmt.Println("ERROR:", err)
		return 2
	}
	validated, mismatched := 0, 0
	confirmed := map[*Failure][]uint64{}
	notRepro := map[*Failure]jobRes{}
	for k, rf := range refs {
		nr := results[k]
		if rf.smp != nil {
			ok := nr.Outcome == "done" && len(nr.Obs) == len(rf.smp.Digest)
			if ok {
				for i := range nr.Obs {
					if nr.Obs[i] != rf.smp.Digest[i] {
						ok = false
					}
				}
			}
			if len(nr.Failed) > 0 {
				// the real code fails where the encoding passed
				allKnown := true
				for _, m := range nr.Failed {
					if !eng.known(rf.smp.Harness, m) {
						allKnown = false
					}
				}
				if !allKnown {
					ok = false
				}
			}
			if ok {
				validated++
			} else {
				mismatched++
				if verbose || mismatched <= 3 {
					warnings = append(warnings, fmt.Sprintf("path of %s does not replay identically: native %s %q failed=%q obs=%v, encoding obs=%v tape=%v", rf.smp.Harness, nr.Outcome, nr.Msg, nr.Failed, nr.Obs, rf.smp.Digest, rf.smp.Tape))
				}
			}
			continue
		}
		f := rf.fail
		rep := false
		if f.Kind == "assert" {
			for _, m := range nr.Failed {
				if m == f.Msg {
					rep = true
				}
			}
		} else {
			rep = nr.Outcome == "panic" || nr.Outcome == "timeout"
		}
		if rep {
			if _, ok := confirmed[f]; !ok {
				confirmed[f] = jobs[k].Tape
			}
		} else {
			notRepro[f] = nr
		}
	}
	violations := 0
	knownHit := []string{}
	repdir := filepath.Join(root, "replays")
	var vlist []string
	for i := range runs {
		r := runs[i].res
		var keys []string
		for k := range r.Failures {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			f := r.Failures[k]
			tape, ok := confirmed[f]
			if !ok {
				nr := notRepro[f]
				warnings = append(warnings, fmt.Sprintf("counterexample of %s (%s) does not reproduce natively (%s %q): not reported", r.Name, k, nr.Outcome, nr.Msg))
				continue
			}
			full := f.Msg
			if f.Kind == "panic" {
				full = "panic: " + f.Msg
			}
			if eng.known(r.Name, full) {
				knownHit = append(knownHit, fmt.Sprintf("KNOWN-FINDING: property=%s %s: %s", prop, r.Name, full))
				continue
			}
			violations++
			os.MkdirAll(repdir, 0o755)
			path := filepath.Join(repdir, fmt.Sprintf("%s-%s-%d.json", prop, r.Name, violations))
			rj, _ := json.MarshalIndent(map[string]any{"property": prop, "dir": runs[i].dir, "harness": r.Name, "kind": f.Kind, "message": f.Msg, "tape": tape,
				"replay": "cd " + root + " && ./check.sh replay " + path}, "", " ")
			os.WriteFile(path, rj, 0o644)
			vlist = append(vlist, fmt.Sprintf("VIOLATION property=%s replay=%s", prop, path))
			fmt.Printf("counterexample: %s: %s (%d path(s)), tape=%v\n", r.Name, full, f.Count, tape)
		}
	}
	// evidence
	var states, trans, completed, asserts, simp, aq, audited, auditBad int64
	complete := true
	var limits []string
	bounds := map[string]string{}
	funcs := map[string]int{}
	perH := []map[string]any{}
	samples := []any{}
	for _, r := range runs {
		h := r.res
		states += h.Paths + h.Forks
		trans += h.Instrs
		completed += h.Completed
		asserts += h.Asserts
		simp += h.Discharged
		aq += h.AssertQ
		audited += h.Audited
		auditBad += h.AuditBad
		for k, v := range h.Bounds {
			bounds[h.Name+"."+k] = v
		}
		for k, v := range h.Funcs {
			funcs[k] += v
		}
		if h.BudgetHit {
			complete = false
			limits = append(limits, h.Name+": time budget reached, remaining paths not explored")
		}
		if h.StepLimit > 0 {
			complete = false
			limits = append(limits, fmt.Sprintf("%s: %d path(s) exceed the step bound (unwinding not complete)", h.Name, h.StepLimit))
		}
		for k, n := range h.Unsupported {
			complete = false
			limits = append(limits, fmt.Sprintf("%s: %d path(s) not encoded: %s", h.Name, n, k))
		}
		for k, n := range h.Inconcl {
			complete = false
			limits = append(limits, fmt.Sprintf("%s: %d solver answer(s) inconclusive: %s", h.Name, n, k))
		}
		if len(h.Internal) > 0 {
			complete = false
			limits = append(limits, fmt.Sprintf("%s: %d path(s) lost to an engine error: %s", h.Name, len(h.Internal), firstLine(h.Internal[0])))
		}
		for l := range h.WantReach {
			if h.Reached[l] == 0 {
				warnings = append(warnings, fmt.Sprintf("%s: witness %q not reached", h.Name, l))
			}
		}
		perH = append(perH, map[string]any{"harness": h.Name, "paths": h.Paths, "completed": h.Completed, "excluded_by_assumptions": h.Infeasible, "assertions": h.Asserts,
			"wall_s": round2(h.Wall.Seconds()), "witnesses_reached": h.Reached, "complete_within_bounds": !h.BudgetHit && h.StepLimit == 0 && len(h.Unsupported) == 0 && len(h.Inconcl) == 0 && len(h.Internal) == 0})
		for i, s := range h.Samples {
			if i >= 2 {
				break
			}
			samples = append(samples, map[string]any{"harness": h.Name, "model": s.Tape, "observed": s.Digest})
		}
	}
	repoFuncs := []string{}
	other := 0
	for f := range funcs {
		if strings.Contains(f, eng.module) && !strings.Contains(f, ".VP_") && !strings.Contains(f, ".vp") {
			repoFuncs = append(repoFuncs, strings.ReplaceAll(f, eng.module+"/", ""))
		} else {
			other++
		}
	}
	sort.Strings(repoFuncs)
	sort.Strings(limits)
	if limits == nil {
		limits = []string{}
	}
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
		"coverage": map[string]any{
			"states": states, "transitions": trans, "traces_validated_against_impl": validated, "samples": samples,
			"states_meaning":      "path conditions distinguished by the symbolic execution (explored paths plus forks)",
			"transitions_meaning": "SSA instructions executed symbolically",
			"paths_completed":     completed, "assertion_instances": asserts, "assertions_valid_by_term_simplification": simp, "assertion_queries_to_solver": aq,
			"rewriting_verdicts_confirmed_by_solver": audited, "rewriting_verdicts_refuted_by_solver": auditBad,
			"solver": map[string]any{"binary": eng.solverBin, "queries": stats.queries.Load(), "sat": stats.sat.Load(), "unsat": stats.unsat.Load(), "unknown": stats.unknown.Load(),
				"errors": stats.errors.Load(), "cache_hits": stats.cached.Load(), "seconds": round2(float64(stats.nanos.Load()) / 1e9)},
			"functions_encoded": repoFuncs, "library_and_harness_functions_encoded": other,
			"bounds": bounds, "harnesses": perH, "exhaustive": complete, "outside_the_claim": limits,
			"counterexamples_confirmed_natively": len(confirmed), "counterexamples_not_reproduced": len(notRepro) - countBoth(confirmed, notRepro), "replay_mismatches": mismatched,
			"known_findings_hit": len(knownHit), "warnings": nonNil(warnings),
		},
		"assumptions": append(append([]string(nil), assumptions...), eng.stubbed()...),
		"wall_s":      round2(time.Since(t0).Seconds()),
		"violations":  violations,
	}
	evb, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(root, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(root, "evidence", prop+".json"), evb, 0o644); err != nil {
		fmt.Println("ERROR:", err)
		return 2
	}
	for _, wn := range warnings {
		if len(wn) > 900 {
			wn = wn[:900] + "..."
		}
		fmt.Println("WARNING:", wn)
	}
	for _, l := range limits {
		fmt.Println("REDUCED:", l)
	}
	for _, k := range knownHit {
		fmt.Println(k)
	}
	fmt.Printf("%s %s: %d paths completed, %d assertion instances, %d solver queries (%.1fs), %d traces validated, complete=%v, %.1fs (load %.1fs)\n", prop, tier, completed, asserts,
		stats.queries.Load(), float64(stats.nanos.Load())/1e9, validated, complete, time.Since(t0).Seconds(), eng.loadWall)
	if violations > 0 {
		for _, v := range vlist {
			fmt.Println(v)
		}
		return 1
	}
	if auditBad > 0 {
		fmt.Println("ERROR: the solver refutes", auditBad, "verdicts of the term rewriting")
		return 2
	}
	if completed == 0 {
		fmt.Println("ERROR: no path was explored to its end")
		return 2
	}
	return 0
}

var assumptions = []string{
	"The encoding is the go/ssa form of the sources under /repo and of the Go standard library, interpreted with 64-bit int and gc layouts.",
	"Library stubs: fmt (common verbs), regexp (backtracking matcher over symbolic bytes), strings/bytes search and case mapping, strconv integer formatting (fresh digit variables constrained to the value), strconv float parsing/formatting restricted to integer-valued floats, sync as no-ops, sort.Slice as insertion sort up to 12 elements.",
	"Single goroutine; no I/O.",
}

// stubbed says which functions the harness models.
func (e *Engine) stubbed() []string {
	if len(e.stubs) == 0 {
		return nil
	}
	var names []string
	for n := range e.stubs {
		names = append(names, n)
	}
	sort.Strings(names)
	return []string{"Modelled by the harness in the symbolic runs, and run for real when a trace is replayed: " + strings.Join(names, ", ") + "."}
}

func countBoth(a map[*Failure][]uint64, b map[*Failure]jobRes) int {
	n := 0
	for f := range b {
		if _, ok := a[f]; ok {
			n++
		}
	}
	return n
}

func nonNil(s []string) []string {
	if s == nil {
		return []string{}
	}
	return s
}

func round2(f float64) float64 { return float64(int(f*100)) / 100 }

// replayMain runs a recorded counterexample against the real code.
func replayMain(args []string) int {
	if len(args) < 1 {
		fmt.Println("usage: replay FILE")
		return 2
	}
	b, err := os.ReadFile(args[0])
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var r struct {
		Property, Dir, Harness, Kind, Message string
		Tape                                  []uint64
	}
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Println(err)
		return 2
	}
	repo := "/repo"
	root := "/verif"
	if len(args) > 1 {
		repo = args[1]
	}
	hroot := filepath.Join(root, "harness")
	hs, err := harnessFiles(hroot, r.Property)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	ov, err := overlayFiles(repo, hroot, hs)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	mod, err := exec.Command("sh", "-c", "head -1 "+repo+"/go.mod | cut -d' ' -f2").Output()
	if err != nil {
		fmt.Println(err)
		return 2
	}
	res, err := native(repo, ov, hs, strings.TrimSpace(string(mod)), []job{{r.Dir, r.Harness, r.Tape}})
	if err != nil {
		fmt.Println(err)
		return 2
	}
	fmt.Printf("harness %s on tape %v: outcome=%s %s failed=%q observed=%v\n", r.Harness, r.Tape, res[0].Outcome, res[0].Msg, res[0].Failed, res[0].Obs)
	if len(res[0].Failed) > 0 || res[0].Outcome == "panic" {
		return 1
	}
	return 0
}
