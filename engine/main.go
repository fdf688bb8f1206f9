package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

var debugCrash = false

func loadProgram(repo, verif string) (*Program, []string, error) {
	ov, err := overlayFiles(repo, verif)
	if err != nil {
		return nil, nil, err
	}
	overlay := map[string][]byte{}
	for k, v := range ov {
		b, err := os.ReadFile(v)
		if err != nil {
			return nil, nil, err
		}
		overlay[k] = b
	}
	cfg := &packages.Config{
		Mode:    packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:     repo,
		Overlay: overlay,
		Fset:    token.NewFileSet(),
		Env:     goEnv(),
	}
	ps, err := packages.Load(cfg, "./zz_verif/h")
	if err != nil {
		return nil, nil, err
	}
	bad := ""
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			bad += e.Error() + "\n"
		}
	})
	if bad != "" {
		return nil, nil, fmt.Errorf("load: %s", bad)
	}
	prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	prog.Build()
	P := &Program{prog: prog, infos: map[*ssa.Function]*FnInfo{}, pkgs: map[string]*ssa.Package{}, mod: "github.com/sahandsafizadeh/qeep", sizes: types.SizesFor("gc", "amd64")}
	var hs []string
	for _, p := range prog.AllPackages() {
		P.pkgs[p.Pkg.Path()] = p
	}
	if e := P.pkgs["errors"]; e != nil {
		P.errT = types.NewPointer(e.Type("errorString").Type())
	} else {
		return nil, nil, fmt.Errorf("package errors not loaded")
	}
	hp := P.pkgs[P.mod+"/zz_verif/h"]
	for n, m := range hp.Members {
		if f, ok := m.(*ssa.Function); ok && len(n) > 4 && n[0] == 'C' && n[3] == '_' && f.Signature.Params().Len() == 0 {
			hs = append(hs, n)
		}
	}
	sort.Strings(hs)
	return P, hs, nil
}

var initOnce sync.Once
var initPk []*ssa.Package

// initOrder: packages of the module (init functions call their imports').
func (P *Program) initOrder() []*ssa.Package {
	initOnce.Do(func() {
		initPk = []*ssa.Package{P.pkgs[P.mod+"/zz_verif/h"]}
	})
	return initPk
}

type knownFinding struct {
	Property string `json:"property"`
	Harness  string `json:"harness"`
	Label    string `json:"label"`
	What     string `json:"what"`
}

func loadKnown(verif string) []knownFinding {
	var out []knownFinding
	b, err := os.ReadFile(filepath.Join(verif, "known_findings.txt"))
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "finding:") {
			continue
		}
		k := knownFinding{}
		rest := strings.TrimSpace(strings.TrimPrefix(l, "finding:"))
		for {
			f := strings.SplitN(rest, " ", 2)
			kv := strings.SplitN(f[0], "=", 2)
			if len(kv) != 2 {
				break
			}
			switch kv[0] {
			case "property":
				k.Property = kv[1]
			case "harness":
				k.Harness = kv[1]
			case "label":
				k.Label = kv[1]
			}
			rest = ""
			if len(f) > 1 {
				rest = f[1]
			}
		}
		k.What = rest
		out = append(out, k)
	}
	return out
}

func main() {
	prop := flag.String("property", "", "property id")
	tier := flag.String("tier", "", "quick or thorough")
	repo := flag.String("repo", "/repo", "")
	verif := flag.String("verif", "/verif", "")
	only := flag.String("only", "", "run one harness")
	verbose := flag.Bool("v", false, "")
	replay := flag.String("replay", "", "replay a case file natively")
	budget := flag.Float64("budget", 0, "seconds for the whole check")
	crash := flag.Bool("crash", false, "do not contain executor crashes")
	z3 := flag.String("z3", "z3-new", "")
	all := flag.Bool("all", false, "go on after a violation")
	noev := flag.Bool("noevidence", false, "")
	flag.Parse()
	debugCrash = *crash
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier == "" {
		*tier = "quick"
	}
	seed := int64(1)
	if s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		seed = s
	}
	t0 := time.Now()
	P, hs, err := loadProgram(*repo, *verif)
	if err != nil {
		// a tree that does not build has no verdict
		fmt.Fprintln(os.Stderr, "cannot load:", err)
		os.Exit(2)
	}
	scratch, err := os.MkdirTemp("", "qv")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	defer os.RemoveAll(scratch)
	nat := &Native{repo: *repo, verif: *verif, scratch: scratch, harnesses: hs, thorough: *tier == "thorough", sem: make(chan struct{}, runtime.NumCPU())}
	if *replay != "" {
		b, err := os.ReadFile(*replay)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		var c Case
		json.Unmarshal(b, &c)
		nat.race = strings.HasPrefix(c.Harness, "C20")
		nat.thorough = c.Thor
		r := nat.Run(&c, 60*time.Second)
		if nat.err != nil {
			fmt.Fprintln(os.Stderr, nat.err)
			os.Exit(2)
		}
		for _, f := range r.Fails {
			fmt.Printf("FAIL %s %s\n", f.Label, f.Detail)
		}
		fmt.Printf("observations=%d fails=%d\n", len(r.Obs), len(r.Fails))
		os.RemoveAll(scratch)
		if len(r.Fails) > 0 {
			os.Exit(1)
		}
		return
	}
	thorough := *tier == "thorough"
	cfg := &Config{thorough: thorough, maxSteps: 40_000_000, maxAlloc: 2_000_000, branchTO: 3 * time.Second, proveTO: 10 * time.Second, z3: *z3, seed: seed, workers: runtime.NumCPU(), validate: 60, rawFrac: 0.25, rawBudget: 4 * time.Second}
	total := 240.0
	if thorough {
		total = 720
		cfg.validate = 400
		cfg.rawFrac, cfg.rawBudget = 1, 100*time.Second
		cfg.proveTO = 30 * time.Second
		cfg.maxSteps = 60_000_000
	}
	if *budget > 0 {
		total = *budget
	}
	nat.race = *prop == "C20"
	known := loadKnown(*verif)
	var mine []string
	for _, h := range hs {
		if strings.HasPrefix(h, *prop+"_") && (*only == "" || strings.Contains(h, *only)) {
			if strings.HasPrefix(h, *prop+"_T_") && !thorough {
				continue
			}
			mine = append(mine, h)
		}
	}
	if len(mine) == 0 {
		fmt.Fprintln(os.Stderr, "no harness for", *prop)
		os.RemoveAll(scratch)
		os.Exit(2)
	}
	end := t0.Add(time.Duration(total * float64(time.Second)))
	guardStart()
	// compile the replay binary in the background
	go nat.once.Do(nat.build)
	var runs []*HRun
	workers := make([]*Worker, cfg.workers)
	for i := range workers {
		workers[i] = &Worker{P: P, cfg: cfg, s: NewSolver(cfg.z3, "-in", "-smt2"), fnHits: map[int]int{}}
	}
	violated := false
	for i, h := range mine {
		fn := P.pkgs[P.mod+"/zz_verif/h"].Func(h)
		left := time.Until(end)
		share := time.Duration(float64(left) / float64(len(mine)-i) * 2.5)
		if share > left {
			share = left
		}
		hr := &HRun{prop: *prop, name: h, fn: fn, covers: map[string]int{}, labels: map[string]int{}, known: map[string]*Violation{}, attempts: map[string]int{}, fnHits: map[int]int{}, nrep: nat, t0: time.Now()}
		hr.init()
		hr.deadline = time.Now().Add(share)
		hr.globalStop = func() bool { return time.Now().After(end) }
		hr.knownLab = func(l string) bool {
			for _, k := range known {
				if k.Property == *prop && (k.Harness == h || k.Harness == "*") && k.Label == l {
					return true
				}
			}
			return false
		}
		runHarness(hr, workers)
		runs = append(runs, hr)
		if *verbose {
			printRun(hr)
		}
		if len(hr.viol) > 0 {
			violated = true
			if !*all {
				break
			}
		}
	}
	if !violated {
		var again []*HRun
		for _, r := range runs {
			if r.sharedState && len(r.pool) > 1 {
				again = append(again, r)
			}
		}
		for i, r := range again {
			share := time.Duration(float64(time.Until(end)) / float64(len(again)-i) * 1.5)
			if len(again)-i == 1 || share > time.Until(end) {
				share = time.Until(end)
			}
			if share < time.Second {
				break
			}
			hr := second(r, cfg, workers, share)
			if hr == nil {
				continue
			}
			runs = append(runs, hr)
			if *verbose {
				printRun(hr)
			}
			if len(hr.viol) > 0 {
				violated = true
				break
			}
		}
	}
	if nat.err != nil {
		fmt.Fprintln(os.Stderr, nat.err)
	}
	code := 0
	for _, r := range runs {
		for _, v := range r.viol {
			dir := filepath.Join(*verif, "replays")
			os.MkdirAll(dir, 0o755)
			p := filepath.Join(dir, fmt.Sprintf("%s_%s.json", *prop, r.name))
			v.Case.Label, v.Case.Detail = v.Label, v.Detail
			jsonFloats(v.Case.Nums)
			js, _ := json.MarshalIndent(v.Case, "", " ")
			os.WriteFile(p, append(js, '\n'), 0o644)
			fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, p)
			fmt.Printf("  harness %s: %s: %s\n", r.name, v.Label, v.Detail)
			code = 1
			break
		}
	}
	if !violated {
		seen := map[string]bool{}
		for _, r := range runs {
			for l, v := range r.known {
				for _, k := range known {
					if k.Property == *prop && (k.Harness == r.name || k.Harness == "*") && k.Label == l && !seen[k.What] {
						seen[k.What] = true
						fmt.Printf("KNOWN-FINDING: property=%s %s [%s/%s: %s]\n", *prop, k.What, r.name, l, v.Detail)
					}
				}
			}
		}
	}
	writeEvidence(P, *verif, *prop, *tier, seed, cfg, runs, workers, nat, time.Since(t0), code, *noev)
	for _, w := range workers {
		w.s.kill()
	}
	nat.close()
	os.RemoveAll(scratch)
	os.Exit(code)
}

func runHarness(hr *HRun, workers []*Worker) {
	guard.deadline.Store(hr.deadline.Add(20 * time.Second).UnixNano())
	guard.abort.CompareAndSwap(2, 0)
	var wg sync.WaitGroup
	for _, w := range workers {
		wg.Add(1)
		go func(w *Worker) {
			defer wg.Done()
			w.loop(hr)
		}(w)
	}
	wg.Wait()
	hr.dur = time.Since(hr.t0)
}

func printRun(r *HRun) {
	if r.warm != nil {
		fmt.Print("[after other calls] ")
	}
	fmt.Printf("%-34s %6.1fs paths=%d assumed=%d infeas=%d hung=%d unm=%d obl=%d struct=%d solver=%d inconcl=%d raw=%d/%d/%d val=%d/%d/%d steps=%d trunc=%q viol=%d known=%d\n", r.name, r.dur.Seconds(), r.st.paths, r.st.assumed, r.st.infeasible, r.st.hung, r.st.unmodelled, r.st.obligations, r.st.structural, r.st.solverDischarged, r.st.inconclusive, r.st.rawChecks, r.st.rawUnknown, r.st.rawDisagree, r.st.validated, r.st.validMismatch, r.st.validSkipped, r.st.steps, r.truncated, len(r.viol), len(r.known))
	for k, v := range r.st.notes {
		fmt.Printf("    note x%d: %s\n", v, k)
	}
	for k, v := range r.covers {
		_ = v
		_ = k
	}
}

func toolVersion(name string, args ...string) string {
	out, err := exec.Command(name, args...).Output()
	if err != nil {
		return name + " (unavailable)"
	}
	return strings.TrimSpace(strings.Split(string(out), "\n")[0])
}

func writeEvidence(P *Program, verif, prop, tier string, seed int64, cfg *Config, runs []*HRun, ws []*Worker, nat *Native, wall time.Duration, code int, no bool) {
	var tot Stats
	fn := map[string]int{}
	var samples []any
	var hs []any
	vac := []string{}
	trunc := []string{}
	for _, r := range runs {
		tot.add(&r.st)
		for id, c := range r.fnHits {
			fi := P.list[id]
			if fi.inMod {
				fn[fi.name] += c
			}
		}
		if len(samples) < 8 {
			for _, s := range r.samples {
				samples = append(samples, r.name+": "+s)
				if len(samples) >= 8 {
					break
				}
			}
		}
		name := r.name
		if r.warm != nil {
			name += " (after other calls)"
		}
		hs = append(hs, map[string]any{"harness": name, "paths": r.st.paths, "obligations": r.st.obligations, "decided_by_normal_form": r.st.structural, "decided_by_solver": r.st.solverDischarged, "inconclusive": r.st.inconclusive, "truncated": r.truncated, "seconds": round2(r.dur.Seconds()), "covers": r.covers, "assertion_labels": r.labels})
		if r.st.paths == 0 && len(r.viol) == 0 {
			vac = append(vac, name)
		}
		if r.truncated != "" {
			trunc = append(trunc, name+": "+r.truncated)
		}
	}
	var sol Solver
	var sd float64
	for _, w := range ws {
		sol.nq += w.s.nq
		sol.nsat += w.s.nsat
		sol.nunsat += w.s.nunsat
		sol.nunk += w.s.nunk
		sol.nerr += w.s.nerr
		if w.s.lastErr != "" {
			sol.lastErr = w.s.lastErr
		}
		sd += w.s.dur.Seconds()
	}
	var fns []string
	for k := range fn {
		fns = append(fns, k)
	}
	sort.Strings(fns)
	nv := 0
	if code == 1 {
		nv = 1
	}
	cov := map[string]any{
		"states":                        tot.paths,
		"transitions":                   tot.steps,
		"traces_validated_against_impl": tot.validated,
		"samples":                       samples,
		"explanation":                   "states = feasible symbolic paths of the real code executed to their end; transitions = SSA instructions executed on them; each path carries symbolic inputs, so one path stands for all values satisfying its path condition",
		"functions_encoded":             fns,
		"harnesses":                     hs,
		"obligations":                   tot.obligations,
		"discharged":                    tot.structural + tot.solverDischarged,
		"discharged_by_normal_form":     tot.structural,
		"discharged_by_solver_query":    tot.solverDischarged,
		"inconclusive":                  tot.inconclusive,
		"solver_queries":                sol.nq, "solver_sat": sol.nsat, "solver_unsat": sol.nunsat, "solver_unknown": sol.nunk, "solver_errors": sol.nerr,
		"solver_seconds": round2(sd), "solver": toolVersion(cfg.z3, "--version"),
		"max_query_s":                       round2(tot.maxQuery.Seconds()),
		"branch_decisions":                  tot.decisions,
		"unknown_branches_kept_feasible":    tot.unknownBranch,
		"raw_form_crosschecks":              tot.rawChecks,
		"raw_form_unknown":                  tot.rawUnknown,
		"raw_form_disagreements":            tot.rawDisagree,
		"validation_mismatches":             tot.validMismatch,
		"validation_skipped":                tot.validSkipped,
		"paths_cut_by_assumptions":          tot.assumed,
		"paths_outside_encoded_fragment":    tot.unmodelled,
		"paths_over_step_limit":             tot.hung,
		"goroutines_run_under_one_schedule": tot.eagerGo,
		"native_replays":                    nat.runs,
		"notes":                             tot.notes,
		"truncated":                         trunc,
		"vacuous_harnesses":                 vac,
		"bounds":                            map[string]any{"max_instructions_per_path": cfg.maxSteps, "max_cells_per_path": cfg.maxAlloc, "branch_query_timeout_s": cfg.branchTO.Seconds(), "final_query_timeout_s": cfg.proveTO.Seconds(), "shapes_and_values": "see the harness sources /verif/harness/h and DESIGN.md"},
	}
	if sol.lastErr != "" {
		cov["last_solver_error"] = sol.lastErr
	}
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
		"coverage": cov,
		"assumptions": []string{
			"float64 is modelled as the reals plus NaN and the infinities; rounding, subnormals and overflow other than by exp, sinh, cosh and division are outside the claim",
			"equalities hold exactly or within 1e-9 relative in the real model; replays use 1e-6 and, where the solver still has a model, 5e-10",
			"integers are mathematical with an explicit 64-bit wrap; sizes are concretised by enumerating the solver's feasible values",
			"goroutines started by the code under test run under one schedule; C20 decides races by footprints and lock sets",
			"go/ssa, the executor in /verif/engine and the solver are trusted; sampled paths are replayed natively to validate them",
		},
		"wall_s": round2(wall.Seconds()), "violations": nv,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if !no {
		os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
		os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), append(b, '\n'), 0o644)
	}
	fmt.Printf("%s %s: %d paths, %d obligations (%d by normal form, %d by solver, %d inconclusive), %d queries %.1fs solver, %d traces validated (%d mismatches), %d functions, %.1fs\n", prop, tier, tot.paths, tot.obligations, tot.structural, tot.solverDischarged, tot.inconclusive, sol.nq, sd, tot.validated, tot.validMismatch, len(fns), wall.Seconds())
	if len(vac) > 0 {
		fmt.Println("vacuous:", vac)
	}
	if len(trunc) > 0 {
		fmt.Println("truncated:", trunc)
	}
}

func round2(f float64) float64 { return float64(int(f*100+0.5)) / 100 }
