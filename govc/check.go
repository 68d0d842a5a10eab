package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

// PropConf configures the check of one property (props.json).
type PropConf struct {
	ID        string   `json:"id"`
	Harness   string   `json:"harness"` // directory below /verif/harness
	Dir       string   `json:"dir"`     // virtual package directory in the repository
	QuickN    int      `json:"quick_n"`
	QuickSecs int      `json:"quick_secs"`
	DeepSecs  int      `json:"deep_secs"`
	Partial   bool     `json:"partial"`   // part of the property rests on the bounded check
	Bounded   []string `json:"bounded"`   // functions only covered by the bounded check
	Lemmas    []string `json:"lemmas"`    // external lemma checks (commands)
	Trusted   []string `json:"trusted"`   // additional trusted items
	Level     string   `json:"level"`     // level (default proof)
	Bound     string   `json:"bound"`     // stated bound of the bounded part
	Note      string   `json:"note"`      // level note
	Technique string   `json:"technique"` //
}

type evidence struct {
	Property    string                 `json:"property"`
	Tier        string                 `json:"tier"`
	Seed        int64                  `json:"seed"`
	Level       string                 `json:"level"`
	Coverage    map[string]interface{} `json:"coverage"`
	Assumptions []string               `json:"assumptions"`
	WallS       float64                `json:"wall_s"`
	Violations  int                    `json:"violations"`
}

type failedObl struct {
	Function string `json:"function"`
	Name     string `json:"obligation"`
	Where    string `json:"where,omitempty"`
	Result   string `json:"verifier_output"`
	Goal     string `json:"goal,omitempty"`
	By       string `json:"solvers,omitempty"`
}

func cut(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func runCheck(repo, verif, id, tier string, seed int64) int {
	t0 := time.Now()
	b, err := os.ReadFile(filepath.Join(verif, "props.json"))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	var confs []PropConf
	if err := json.Unmarshal(b, &confs); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	var pc *PropConf
	for i := range confs {
		if confs[i].ID == id {
			pc = &confs[i]
		}
	}
	if pc == nil {
		fmt.Fprintln(os.Stderr, "unknown property", id)
		return 3
	}
	if pc.Level == "" {
		pc.Level = "proof"
	}
	// the concrete search runs while the proof is redone
	secs, n := pc.QuickSecs, pc.QuickN
	if secs == 0 {
		secs = 12
	}
	if n == 0 {
		n = 1 << 30
	}
	if tier == "thorough" {
		secs, n = pc.DeepSecs, 1<<30
		if secs == 0 {
			secs = 240
		}
	}
	type hres struct {
		rep   map[string]interface{}
		cases int
		note  string
		more  *searchInfo
	}
	hc := make(chan hres, 1)
	exe, herr := buildHarness(repo, verif, pc)
	if exe != "" {
		defer os.RemoveAll(filepath.Dir(exe))
	}
	go func() {
		if herr != nil {
			hc <- hres{note: "bounded check not available: " + cut(herr.Error(), 600)}
			return
		}
		more := &searchInfo{}
		r, c, note := runHarness(repo, exe, pc.ID, seed, n, secs, more)
		hc <- hres{r, c, note, more}
	}()
	pr := proveProp(repo, verif, id, tier)
	h := <-hc
	if h.rep == nil && len(pr.failed) > 0 && herr == nil {
		// the proof failed: search longer, from other seeds
		for k := int64(1); k <= 3 && h.rep == nil; k++ {
			r, c, note := runHarness(repo, exe, pc.ID, seed+k*7919, 1<<30, 25, &searchInfo{})
			h.rep, h.note = r, note
			h.cases += c
		}
	}
	ev := evidence{Property: id, Tier: tier, Seed: seed, Level: pc.Level, Coverage: map[string]interface{}{}}
	cov := ev.Coverage
	cov["obligations"] = pr.total
	cov["discharged"] = pr.done
	cov["checker_cmd"] = "./check " + id + " (govc: verification conditions generated from go/ssa of /repo, discharged by z3-new, z3, cvc5)"
	trusted := []string{
		"govc (condition generator of this repository, /verif/govc): symbolic execution of go/ssa with loop invariants",
		"golang.org/x/tools/go/ssa v0.52.0 and go/types as the semantics of the source",
		"z3 5.3.2 (z3-new); z3 4.8.12 and cvc5 1.1.2 where the first gives no answer",
		"contract files in /verif/contracts (the statements proved)",
	}
	trusted = append(trusted, pc.Trusted...)
	cov["trusted_base"] = trusted
	cov["functions_under_contract"] = pr.funcs
	cov["discharged_by"] = pr.by
	cov["solver_seconds"] = float64(int(pr.secs*100)) / 100
	cov["inlined_functions"] = pr.inlined
	if len(pr.skipped) > 0 {
		cov["contracts_not_used"] = pr.skipped
	}
	if len(pr.failed) > 0 {
		cov["failed_obligations"] = pr.failed
	}
	cov["loops_with_termination_proof"] = fmt.Sprintf("%d of %d", pr.term, pr.loops)
	bounded := map[string]interface{}{"label": "bounded (never counted as proved)", "cases": h.cases, "seconds": secs}
	if pc.Bound != "" {
		bounded["bound"] = pc.Bound
	}
	if len(pc.Bounded) > 0 {
		bounded["stands_in_for"] = pc.Bounded
	}
	if h.note != "" {
		bounded["note"] = h.note
	}
	cov["bounded_check"] = bounded
	if pc.Level == "exploration" {
		cov["evaluations"] = h.cases
		if h.more == nil {
			h.more = &searchInfo{}
		}
		cov["distinct_nontrivial"] = h.more.distinct
		cov["rule"] = pc.Bound + "; distinct by the input written out"
		cov["samples"] = h.more.samples
	}
	if pc.Level == "other" {
		cov["explanation"] = fmt.Sprintf("%d of %d obligations of %d functions under contract discharged (%s); the rest of the property is covered by the bounded check only: %d cases run without a violation, %s", pr.done, pr.total, len(pr.funcs), pc.Note, h.cases, pc.Bound)
	}
	cov["machine_arithmetic"] = "exact: fixed-width wrap-around on every integer operation"
	ev.Assumptions = append(pr.assumed, axiomNote()...)
	code := 0
	if h.rep != nil || len(pr.failed) > 0 {
		code = 1
		ev.Violations = 1
		dir := filepath.Join(verif, "evidence", "replay")
		_ = os.MkdirAll(dir, 0o755)
		path := filepath.Join(dir, id+".json")
		rep := map[string]interface{}{"property": id, "failed_obligations": pr.failed}
		tail := ""
		if h.rep != nil {
			rep["failing_input"] = h.rep
			rep["replay"] = fmt.Sprintf("./check %s --case %v --seed %v", id, h.rep["case"], h.rep["seed"])
			fmt.Printf("%s: %v\n  input: %v\n", id, h.rep["detail"], cut(fmt.Sprint(h.rep["input"]), 2000))
		} else {
			tail = " no-failing-input-found"
		}
		for _, f := range pr.failed {
			fmt.Printf("  obligation not discharged: %s in %s %s (%s)\n", f.Name, f.Function, f.Where, cut(f.Result, 300))
		}
		j, _ := json.MarshalIndent(rep, "", " ")
		_ = os.WriteFile(path, j, 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s%s\n", id, path, tail)
	}
	ev.WallS = float64(int(time.Since(t0).Seconds()*10)) / 10
	_ = os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	j, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(verif, "evidence", id+".json"), j, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	if code == 0 {
		fmt.Printf("%s holds: %d obligations discharged in %d functions, %d cases run, %.1fs\n", id, pr.done, len(pr.funcs), h.cases, ev.WallS)
		if h.note != "" {
			fmt.Println("  " + h.note)
		}
	}
	return code
}

func axiomNote() []string {
	var out []string
	for _, a := range axiomTexts {
		out = append(out, "definition: "+a)
	}
	return out
}

// proofs -------------------------------------------------------------------------------

type propResult struct {
	total, done int
	failed      []failedObl
	funcs       []map[string]interface{}
	by          map[string]int
	secs        float64
	assumed     []string
	inlined     []string
	skipped     []string
	loops, term int
}

func baseName(n string) string {
	if i := strings.LastIndex(n, "."); i >= 0 {
		return n[i+1:]
	}
	return n
}

func proveProp(repo, verif, id, tier string) *propResult {
	pr := &propResult{by: map[string]int{}}
	p, err := loadProgram(repo, []string{"./..."})
	if err != nil {
		pr.failed = append(pr.failed, failedObl{Function: "-", Name: "load", Result: err.Error()})
		return pr
	}
	cs, err := loadContracts(p, filepath.Join(verif, "contracts"))
	if err != nil {
		pr.failed = append(pr.failed, failedObl{Function: "-", Name: "contracts", Result: err.Error()})
		return pr
	}
	force := map[string]bool{}
	results := map[string]*FuncResult{}
	used := map[string]map[string]bool{} // the contracts assumed by a result
	internal := func(c *Contract) bool {
		return !token.IsExported(baseName(c.Name)) || c.Aux || !contains(c.Props, id)
	}
	limit := 240 * time.Second
	start := time.Now()
	verify1 := func(c *Contract) *FuncResult {
		l := limit
		if left := 480*time.Second - time.Since(start); left < l {
			l = left
		}
		r := verify(p, cs, c, force, l)
		results[c.Name] = r
		u := map[string]bool{}
		for _, n := range r.Called {
			u[n] = true
		}
		used[c.Name] = u
		if debug {
			fmt.Fprintf(os.Stderr, "%s ok=%v obls=%d %.1fs %s\n", shortName(c.Name), r.ok(), len(r.Obls), r.Secs, r.Err)
		}
		return r
	}
	var entries []*Contract
	for _, c := range cs.list {
		if !contains(c.Props, id) {
			continue
		}
		if c.Inline || c.Trusted {
			continue
		}
		if c.fn == nil {
			if internal(c) {
				pr.skipped = append(pr.skipped, shortName(c.Name)+" (no such function: its callers are verified without this contract)")
			} else {
				pr.failed = append(pr.failed, failedObl{Function: shortName(c.Name), Name: "function under contract", Result: "the function no longer exists"})
			}
			continue
		}
		entries = append(entries, c)
	}
	for round := 0; round < 4; round++ {
		work := append([]*Contract{}, entries...)
		for i := 0; i < len(work); i++ {
			c := work[i]
			if force[c.Name] {
				continue
			}
			r := results[c.Name]
			if r == nil {
				r = verify1(c)
			}
			for n := range used[c.Name] {
				if d := cs.byFn[n]; d != nil && !force[n] && !d.Trusted {
					seen := false
					for _, w := range work {
						if w == d {
							seen = true
						}
					}
					if !seen {
						work = append(work, d)
					}
				}
			}
		}
		// failing internal functions: verify their callers on their bodies
		again := false
		for _, c := range work {
			if r := results[c.Name]; r != nil && !force[c.Name] && !r.ok() && internal(c) {
				force[c.Name] = true
				again = true
			}
		}
		if !again {
			break
		}
		for _, c := range work {
			if force[c.Name] {
				continue
			}
			drop := !results[c.Name].ok()
			for n := range used[c.Name] {
				if force[n] {
					drop = true
				}
			}
			if drop {
				delete(results, c.Name)
			}
		}
	}
	// collect
	asm, inl := map[string]bool{}, map[string]bool{}
	need := map[string]bool{}
	var mark func(n string)
	mark = func(n string) {
		if need[n] || force[n] || results[n] == nil {
			return
		}
		need[n] = true
		for m := range used[n] {
			mark(m)
		}
	}
	for _, c := range entries {
		mark(c.Name)
	}
	var names []string
	for n := range results {
		if need[n] {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	for _, n := range names {
		r := results[n]
		for _, i := range r.Inlined {
			inl[i] = true
		}
	}
	for _, n := range names {
		r := results[n]
		done := 0
		by := map[string]int{}
		for _, o := range r.Obls {
			pr.secs += o.Secs
			if o.Result == "unsat" {
				done++
				by[o.By]++
				pr.by[o.By]++
			} else {
				pr.failed = append(pr.failed, failedObl{shortName(n), o.Name, o.Where, o.Result + " from every solver", cut(fmt.Sprint(o.Goal), 1500), "z3-new, z3, cvc5"})
			}
		}
		if r.Err != "" {
			pr.failed = append(pr.failed, failedObl{Function: shortName(n), Name: "verification of the function", Result: r.Err})
		} else if len(r.Obls) == 0 {
			pr.failed = append(pr.failed, failedObl{Function: shortName(n), Name: "verification of the function", Result: "no obligation was generated"})
		}
		pr.total += len(r.Obls)
		pr.done += done
		pr.loops += r.Loops
		pr.term += r.Term
		pr.funcs = append(pr.funcs, map[string]interface{}{"function": n, "obligations": len(r.Obls), "discharged": done, "paths": r.Paths, "loops": r.Loops, "terminating_loops": r.Term, "seconds": float64(int(r.Secs*100)) / 100})
		for _, a := range r.Assumed {
			asm[a] = true
		}
	}
	for _, c := range entries {
		if force[c.Name] {
			if inl[fnName(c.fn)] {
				pr.skipped = append(pr.skipped, shortName(c.Name)+" (does not hold any more: its callers are verified on its body)")
			} else {
				r := results[c.Name]
				f := failedObl{Function: shortName(c.Name), Name: "contract", Result: "not established, and no verified caller covers the function"}
				if r != nil {
					if r.Err != "" {
						f.Result += ": " + r.Err
					}
					for _, o := range r.Obls {
						if o.Result != "unsat" {
							f.Name, f.Where, f.Goal = o.Name, o.Where, cut(fmt.Sprint(o.Goal), 1500)
							break
						}
					}
				}
				pr.failed = append(pr.failed, f)
			}
		}
	}
	if len(names) == 0 && len(pr.failed) == 0 && len(entries) > 0 {
		pr.failed = append(pr.failed, failedObl{Function: "-", Name: "no function under contract", Result: "nothing was verified"})
	}
	for a := range asm {
		pr.assumed = append(pr.assumed, a)
	}
	sort.Strings(pr.assumed)
	for i := range inl {
		pr.inlined = append(pr.inlined, i)
	}
	sort.Strings(pr.inlined)
	return pr
}

// concrete search ----------------------------------------------------------------------

// buildHarness compiles the search as a package of the module, through an
// overlay: nothing is written in the repository.
func buildHarness(repo, verif string, pc *PropConf) (string, error) {
	if pc.Harness == "" {
		return "", fmt.Errorf("none")
	}
	tmp, err := os.MkdirTemp("", "verif-"+pc.ID+"-")
	if err != nil {
		return "", err
	}
	dir := pc.Dir
	if dir == "" {
		dir = "."
	}
	virt := filepath.Join(repo, dir, "zzverif_"+strings.ToLower(pc.Harness))
	ov := map[string]string{filepath.Join(virt, "common.go"): filepath.Join(verif, "harness", "common", "common.go")}
	fs, _ := filepath.Glob(filepath.Join(verif, "harness", pc.Harness, "*.go"))
	for _, f := range fs {
		ov[filepath.Join(virt, filepath.Base(f))] = f
	}
	j, _ := json.Marshal(map[string]interface{}{"Replace": ov})
	of := filepath.Join(tmp, "overlay.json")
	if err := os.WriteFile(of, j, 0o644); err != nil {
		return "", err
	}
	exe := filepath.Join(tmp, "harness")
	rel, _ := filepath.Rel(repo, virt)
	ctx, cancel := context.WithTimeout(context.Background(), 5*time.Minute)
	defer cancel()
	cmd := exec.CommandContext(ctx, "go", "build", "-overlay", of, "-o", exe, "./"+rel)
	cmd.Dir = repo
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod")
	out, err := cmd.CombinedOutput()
	if err != nil {
		return exe, fmt.Errorf("%v: %s", err, out)
	}
	return exe, nil
}

// searchInfo is what a search says of the cases it ran.
type searchInfo struct {
	distinct int
	samples  []string
}

func runHarness(repo, exe, id string, seed int64, n, secs int, more *searchInfo) (map[string]interface{}, int, string) {
	run := func(extra ...string) (string, string, error) {
		ctx, cancel := context.WithTimeout(context.Background(), time.Duration(secs+90)*time.Second)
		defer cancel()
		args := append([]string{"-prop", id, "-seed", strconv.FormatInt(seed, 10), "-n", strconv.Itoa(n), "-time", fmt.Sprintf("%ds", secs)}, extra...)
		cmd := exec.CommandContext(ctx, exe, args...)
		cmd.Dir = filepath.Dir(exe)
		cmd.Env = append(os.Environ(), "VERIF_REPO="+repo)
		var so, se bytes.Buffer
		cmd.Stdout, cmd.Stderr = &so, &se
		err := cmd.Run()
		return so.String(), se.String(), err
	}
	out, errs, err := run()
	for _, l := range strings.Split(out, "\n") {
		if strings.HasPrefix(l, "FAIL ") {
			var m map[string]interface{}
			if json.Unmarshal([]byte(l[5:]), &m) == nil {
				return m, int(m["case"].(float64)) + 1, ""
			}
		}
		if strings.HasPrefix(l, "SAMPLE ") {
			var x string
			if json.Unmarshal([]byte(l[7:]), &x) == nil {
				more.samples = append(more.samples, cut(x, 400))
			}
		}
		if strings.HasPrefix(l, "OK cases=") {
			var c int
			_, _ = fmt.Sscanf(l, "OK cases=%d distinct=%d", &c, &more.distinct)
			return nil, c, ""
		}
	}
	// a crash that cannot be recovered from: find the case
	_, errs2, _ := run("-trace")
	last := -1
	for _, l := range strings.Split(errs2, "\n") {
		if strings.HasPrefix(l, "case ") {
			if c, e := strconv.Atoi(strings.TrimPrefix(l, "case ")); e == nil {
				last = c
			}
		}
	}
	if last >= 0 {
		return map[string]interface{}{"property": id, "seed": seed, "case": float64(last), "input": fmt.Sprintf("case %d of seed %d", last, seed),
			"detail": "the process crashed: " + cut(firstLines(errs, 6), 800)}, last + 1, ""
	}
	return nil, 0, fmt.Sprintf("bounded check ended without result: %v %s", err, cut(errs, 300))
}

func firstLines(s string, n int) string {
	ls := strings.Split(s, "\n")
	var out []string
	for _, l := range ls {
		if strings.HasPrefix(l, "case ") || l == "" {
			continue
		}
		out = append(out, l)
		if len(out) == n {
			break
		}
	}
	return strings.Join(out, " | ")
}

// replay runs one case of the concrete search again.
func replay(repo, verif, id string, seed int64, one int) int {
	b, err := os.ReadFile(filepath.Join(verif, "props.json"))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	var confs []PropConf
	if err := json.Unmarshal(b, &confs); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	for i := range confs {
		if confs[i].ID != id {
			continue
		}
		exe, err := buildHarness(repo, verif, &confs[i])
		if exe != "" {
			defer os.RemoveAll(filepath.Dir(exe))
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 3
		}
		cmd := exec.Command(exe, "-prop", id, "-seed", strconv.FormatInt(seed, 10), "-case", strconv.Itoa(one))
		cmd.Stdout, cmd.Stderr = os.Stdout, os.Stderr
		if cmd.Run() != nil {
			return 1
		}
		return 0
	}
	return 3
}
