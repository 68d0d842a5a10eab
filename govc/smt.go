package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"time"
)

// FuncDecl describes an uninterpreted function symbol; axioms are closed terms
// that are included in a query whenever the symbol occurs in it.
type FuncDecl struct {
	Name string
	Args []string
	Ret  string
}

var funcDecls = map[string]*FuncDecl{}

func declFunc(name string, ret string, args ...string) {
	if o, ok := funcDecls[name]; ok {
		if strings.Join(o.Args, ",") != strings.Join(args, ",") || o.Ret != ret {
			panic("redeclared " + name)
		}
		return
	}
	funcDecls[name] = &FuncDecl{name, args, ret}
}

// ufAxioms are attached to function symbols.
var ufAxioms = map[string][]*Term{}

type Query struct {
	Assume []*Term
	Goal   *Term
}

// userSorts are the uninterpreted sorts declared by contract files.
var userSorts []string

// script renders the query; the goal is negated.
func script(assume []*Term, goals []*Term) (string, []string) {
	goals = stripAll(goals)
	var all []*Term
	all = append(all, assume...)
	all = append(all, goals...)
	seen := map[*Term]bool{}
	consts := map[string]string{}
	funcs := map[string]bool{}
	sorts := map[string]bool{}
	refc := map[*Term]int{}
	var order []*Term
	strs := map[string]bool{}
	var queue []*Term
	noteSort := func(s string) {
		for _, w := range strings.FieldsFunc(s, func(r rune) bool { return r == '(' || r == ')' || r == ' ' }) {
			sorts[w] = true
		}
	}
	var visit func(t *Term)
	visit = func(t *Term) {
		refc[t]++
		if seen[t] {
			return
		}
		seen[t] = true
		for _, a := range t.Args {
			visit(a)
		}
		for _, p := range t.Pats {
			for _, x := range p {
				visit(x)
			}
		}
		for _, v := range t.Vars {
			noteSort(v.Sort)
		}
		noteSort(t.Sort)
		switch t.Op {
		case "const":
			consts[t.Name] = t.Sort
		case "strlit":
			strs[t.Name] = true
		case "app":
			if !funcs[t.Name] {
				funcs[t.Name] = true
				queue = append(queue, ufAxioms[t.Name]...)
				if !opaque[t.Name] {
					queue = append(queue, unfoldAx[t.Name]...)
				}
				if revealed[strings.TrimPrefix(t.Name, "spec:")] {
					queue = append(queue, hiddenAx[t.Name]...)
				}
			}
		}
		order = append(order, t)
	}
	for _, t := range all {
		visit(t)
	}
	var axioms []*Term
	axSeen := map[*Term]bool{}
	for len(queue) > 0 {
		a := queue[0]
		queue = queue[1:]
		if axSeen[a] {
			continue
		}
		axSeen[a] = true
		axioms = append(axioms, a)
		visit(a)
	}
	var sb strings.Builder
	sb.WriteString("(set-option :smt.mbqi false)\n(set-option :auto_config false)\n(set-option :smt.case_split 3)\n")
	for f := range funcs {
		d := funcDecls[f]
		if d == nil {
			panic("undeclared function " + f)
		}
		noteSort(d.Ret)
		for _, a := range d.Args {
			noteSort(a)
		}
	}
	// datatypes closure
	need := map[string]bool{}
	var nd func(n string)
	nd = func(n string) {
		d := datatypes[n]
		if d == nil || need[n] {
			return
		}
		need[n] = true
		for _, s := range d.Sorts {
			for _, w := range strings.FieldsFunc(s, func(r rune) bool { return r == '(' || r == ')' || r == ' ' }) {
				sorts[w] = true
				nd(w)
			}
		}
	}
	for s := range sorts {
		nd(s)
	}
	if sorts[SStr] {
		sb.WriteString("(declare-sort Str 0)\n")
	}
	if sorts[SBox] {
		sb.WriteString("(declare-sort Box 0)\n")
	}
	for _, u := range userSorts {
		if sorts[u] {
			fmt.Fprintf(&sb, "(declare-sort %s 0)\n", u)
		}
	}
	if sorts["Key"] {
		sb.WriteString("(declare-sort Key 0)\n")
	}
	if sorts["Any"] {
		sb.WriteString("(declare-sort Any 0)\n")
	}
	for _, n := range datatypeOrder {
		if !need[n] {
			continue
		}
		d := datatypes[n]
		fmt.Fprintf(&sb, "(declare-datatypes ((%s 0)) (((%s", sym(n), sym("mk"+n))
		for i, f := range d.Fields {
			fmt.Fprintf(&sb, " (%s %s)", sym(f), d.Sorts[i])
		}
		sb.WriteString("))))\n")
	}
	var sl []string
	for s := range strs {
		sl = append(sl, s)
	}
	sort.Strings(sl)
	for _, s := range sl {
		fmt.Fprintf(&sb, "(declare-const %s Str)\n", sym(s))
	}
	if len(sl) > 1 {
		sb.WriteString("(assert (distinct")
		for _, s := range sl {
			sb.WriteString(" " + sym(s))
		}
		sb.WriteString("))\n")
	}
	var cn []string
	for c := range consts {
		cn = append(cn, c)
	}
	sort.Strings(cn)
	for _, c := range cn {
		fmt.Fprintf(&sb, "(declare-const %s %s)\n", sym(c), consts[c])
	}
	var fl []string
	for f := range funcs {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	for _, f := range fl {
		d := funcDecls[f]
		fmt.Fprintf(&sb, "(declare-fun %s (%s) %s)\n", sym(f), strings.Join(d.Args, " "), d.Ret)
	}
	p := &printer{map[*Term]string{}, &sb}
	for _, t := range order {
		if refc[t] > 1 && !t.hasB && len(t.Args) > 0 && t.size > 3 {
			fmt.Fprintf(&sb, "(define-fun d%d () %s ", t.id, t.Sort)
			p.raw(t)
			sb.WriteString(")\n")
			p.names[t] = fmt.Sprintf("d%d", t.id)
		}
	}
	for _, t := range axioms {
		sb.WriteString("(assert ")
		p.w(t)
		sb.WriteString(")\n")
	}
	for _, t := range assume {
		if t == True {
			continue
		}
		sb.WriteString("(assert ")
		p.w(t)
		sb.WriteString(")\n")
	}
	var gs []string
	for _, g := range goals {
		var gb strings.Builder
		pg := &printer{p.names, &gb}
		pg.w(g)
		gs = append(gs, gb.String())
	}
	return sb.String(), gs
}

type solverStat struct {
	sync.Mutex
	n       map[string]int
	secs    map[string]float64
	queries int
}

var stats = &solverStat{n: map[string]int{}, secs: map[string]float64{}}

var workers = make(chan struct{}, 8)

func runSolver(name string, args []string, in string, timeout time.Duration) string {
	t0 := time.Now()
	cmd := exec.Command(name, args...)
	cmd.Stdin = strings.NewReader(in)
	done := make(chan struct{})
	var out strings.Builder
	cmd.Stdout = &out
	if err := cmd.Start(); err != nil {
		return "error " + err.Error()
	}
	go func() { _ = cmd.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(timeout):
		_ = cmd.Process.Kill()
		<-done
	}
	stats.Lock()
	stats.secs[name] += time.Since(t0).Seconds()
	stats.queries++
	stats.Unlock()
	return out.String()
}

// proveGoals checks every goal against the same assumptions; one incremental
// z3 process. Returns "unsat" (proved), "sat", "unknown" per goal.
func proveGoals(assume []*Term, goals []*Term, rlimit int, timeout time.Duration) []string {
	res := make([]string, len(goals))
	if len(goals) == 0 {
		return res
	}
	s, gs := script(assume, goals)
	return proveScript(s, gs, rlimit, timeout)
}

func proveScript(s string, gs []string, rlimit int, timeout time.Duration) []string {
	res := make([]string, len(gs))
	var sb strings.Builder
	sb.WriteString(s)
	fmt.Fprintf(&sb, "(set-option :rlimit %d)\n", rlimit)
	for _, g := range gs {
		sb.WriteString("(push 1)\n(assert (not ")
		sb.WriteString(g)
		sb.WriteString("))\n(check-sat)\n(pop 1)\n")
	}
	workers <- struct{}{}
	out := runSolver("z3-new", []string{"-in", "-smt2"}, sb.String(), timeout)
	<-workers
	i := 0
	for _, l := range strings.Split(out, "\n") {
		l = strings.TrimSpace(l)
		switch l {
		case "sat", "unsat", "unknown":
			if i < len(res) {
				res[i] = l
				i++
			}
		default:
			if strings.HasPrefix(l, "(error") {
				if os.Getenv("GOVC_DEBUG") != "" {
					fmt.Fprintln(os.Stderr, "SMT:", l)
					_ = os.WriteFile("/tmp/w/bad.smt2", []byte(sb.String()), 0o644)
				}
				if !strings.Contains(l, "canceled") && !strings.Contains(l, "rlimit") {
					smtErrors = append(smtErrors, l)
				}
			}
		}
	}
	for ; i < len(res); i++ {
		res[i] = "unknown"
	}
	return res
}

var smtErrors []string

// proveOne tries several solver configurations.
func proveOne(assume []*Term, goal *Term, deep bool) (string, string) {
	s, gs := script(assume, []*Term{goal})
	q := s + "(assert (not " + gs[0] + "))\n(check-sat)\n"
	return runCfgs(q, deep)
}

func portfolio(q string) (string, string) { return runCfgs(q, true) }

func runCfgs(q string, deep bool) (string, string) {
	type cfg struct {
		name string
		args []string
		pre  string
		to   time.Duration
	}
	cfgs := []cfg{
		{"z3-new", []string{"-in", "-smt2"}, "(set-option :rlimit 20000000)\n", 20 * time.Second},
	}
	if deep {
		cfgs = append(cfgs,
			cfg{"z3", []string{"-in", "-smt2"}, "(set-option :rlimit 30000000)\n", 20 * time.Second},
			cfg{"z3-new", []string{"-in", "-smt2", "smt.random_seed=7"}, "(set-option :rlimit 60000000)\n", 40 * time.Second},
			cfg{"cvc5", []string{"--lang=smt2", "--tlimit=30000", "-q"}, "(set-logic ALL)\n", 35 * time.Second},
		)
	}
	last := "unknown"
	for _, c := range cfgs {
		text := c.pre + q
		if c.name == "cvc5" {
			text = c.pre + stripOptions(q)
		}
		workers <- struct{}{}
		out := runSolver(c.name, c.args, text, c.to)
		<-workers
		r := "unknown"
		for _, l := range strings.Split(out, "\n") {
			l = strings.TrimSpace(l)
			if l == "sat" || l == "unsat" || l == "unknown" {
				r = l
			}
			if strings.HasPrefix(l, "(error") && c.name == "z3-new" {
				if os.Getenv("GOVC_DEBUG") != "" {
					fmt.Fprintln(os.Stderr, "SMT:", l)
					_ = os.WriteFile("/tmp/w/bad.smt2", []byte(text), 0o644)
				}
			}
		}
		if r == "unsat" {
			stats.Lock()
			stats.n[c.name]++
			stats.Unlock()
			return r, c.name
		}
		last = r
		if r == "sat" && c.name == "z3-new" && !strings.Contains(q, "(forall") && !strings.Contains(q, "(exists") {
			return r, c.name
		}
	}
	return last, ""
}

func hasQuant(assume []*Term, g *Term) bool {
	seen := map[*Term]bool{}
	q := false
	f := func(t *Term) {
		if t.Op == "forall" || t.Op == "exists" {
			q = true
		}
	}
	for _, a := range assume {
		walk(a, seen, f)
	}
	walk(g, seen, f)
	return q
}

func stripOptions(q string) string {
	var sb strings.Builder
	for _, l := range strings.Split(q, "\n") {
		if strings.HasPrefix(l, "(set-option") {
			continue
		}
		sb.WriteString(l)
		sb.WriteByte('\n')
	}
	return sb.String()
}

// quick incremental prover --------------------------------------------------------

// quick answers cheap quantifier-free questions along one symbolic path.
type quick struct {
	cmd    *exec.Cmd
	in     io.WriteCloser
	out    *bufio.Reader
	stack  []*pcNode
	decl   map[string]bool
	nq     int
	secs   float64
	memo   map[string]bool
	broken bool
}

type pcNode struct {
	id     int
	parent *pcNode
	t      *Term
	depth  int
	kind   string // "" or candidate tag
}

func newQuick() *quick {
	q := &quick{decl: map[string]bool{}, memo: map[string]bool{}}
	q.start()
	return q
}

func (q *quick) start() {
	q.cmd = exec.Command("z3-new", "-in", "-smt2")
	in, err := q.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := q.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	q.in = in
	q.out = bufio.NewReaderSize(out, 1<<16)
	if err := q.cmd.Start(); err != nil {
		panic(err)
	}
	q.decl = map[string]bool{}
	q.stack = nil
	q.send("(set-option :global-declarations true)\n(set-option :smt.mbqi false)\n(set-option :auto_config false)\n(set-option :rlimit 400000)\n(declare-sort Str 0)\n(declare-sort Box 0)\n(declare-sort Key 0)\n(declare-sort Any 0)\n")
	for _, u := range userSorts {
		q.send("(declare-sort " + u + " 0)\n")
	}
}
func (q *quick) close() {
	if q != nil && q.cmd != nil {
		_ = q.in.Close()
		_ = q.cmd.Process.Kill()
		_ = q.cmd.Wait()
	}
}
func (q *quick) send(s string) { _, _ = io.WriteString(q.in, s) }

func (q *quick) declare(t *Term, sb *strings.Builder) {
	walk(t, map[*Term]bool{}, func(x *Term) {
		q.declSort(x.Sort, sb)
		switch x.Op {
		case "const", "strlit":
			if !q.decl["c:"+x.Name] {
				q.decl["c:"+x.Name] = true
				fmt.Fprintf(sb, "(declare-const %s %s)\n", sym(x.Name), x.Sort)
			}
		case "app":
			if !q.decl["f:"+x.Name] {
				q.decl["f:"+x.Name] = true
				d := funcDecls[x.Name]
				if d == nil {
					panic("undeclared " + x.Name)
				}
				for _, a := range d.Args {
					q.declSort(a, sb)
				}
				q.declSort(d.Ret, sb)
				fmt.Fprintf(sb, "(declare-fun %s (%s) %s)\n", sym(x.Name), strings.Join(d.Args, " "), d.Ret)
			}
		}
	})
}
func (q *quick) declSort(s string, sb *strings.Builder) {
	if q.decl["s:"+s] {
		return
	}
	q.decl["s:"+s] = true
	for _, w := range strings.FieldsFunc(s, func(r rune) bool { return r == '(' || r == ')' || r == ' ' }) {
		d := datatypes[w]
		if d == nil || q.decl["d:"+w] {
			continue
		}
		q.decl["d:"+w] = true
		for _, fs := range d.Sorts {
			q.declSort(fs, sb)
		}
		fmt.Fprintf(sb, "(declare-datatypes ((%s 0)) (((%s", sym(w), sym("mk"+w))
		for i, f := range d.Fields {
			fmt.Fprintf(sb, " (%s %s)", sym(f), d.Sorts[i])
		}
		sb.WriteString("))))\n")
	}
}

func (q *quick) sync(n *pcNode) {
	// path from root
	var path []*pcNode
	for x := n; x != nil; x = x.parent {
		path = append(path, x)
	}
	for i, j := 0, len(path)-1; i < j; i, j = i+1, j-1 {
		path[i], path[j] = path[j], path[i]
	}
	k := 0
	for k < len(path) && k < len(q.stack) && path[k] == q.stack[k] {
		k++
	}
	var sb strings.Builder
	if k < len(q.stack) {
		fmt.Fprintf(&sb, "(pop %d)\n", len(q.stack)-k)
		q.stack = q.stack[:k]
	}
	for ; k < len(path); k++ {
		sb.WriteString("(push 1)\n")
		t := path[k].t
		if qfree(t) {
			q.declare(t, &sb)
			sb.WriteString("(assert ")
			p := &printer{map[*Term]string{}, &sb}
			p.w(t)
			sb.WriteString(")\n")
		}
		q.stack = append(q.stack, path[k])
	}
	q.send(sb.String())
}

var qfreeMemo = map[*Term]bool{}

func qfree(t *Term) bool {
	if r, ok := qfreeMemo[t]; ok {
		return r
	}
	r := t.Op != "forall" && t.Op != "exists" && t.size < 3000
	if r {
		for _, a := range t.Args {
			if !qfree(a) {
				r = false
				break
			}
		}
	}
	qfreeMemo[t] = r
	return r
}

// check reports whether pc /\ not goal is unsat (proved).
func (q *quick) prove(n *pcNode, goal *Term) bool {
	if goal == True {
		return true
	}
	if !qfree(goal) {
		return false
	}
	if goal == False && n == nil {
		return false
	}
	nid := -1
	if n != nil {
		nid = n.id
	}
	key := fmt.Sprintf("%d/%d", nid, goal.id)
	if r, ok := q.memo[key]; ok {
		return r
	}
	t0 := time.Now()
	q.sync(n)
	var sb strings.Builder
	q.declare(goal, &sb)
	sb.WriteString("(push 1)\n(assert (not ")
	p := &printer{map[*Term]string{}, &sb}
	p.w(goal)
	sb.WriteString("))\n(check-sat)\n(pop 1)\n")
	q.send(sb.String())
	q.nq++
	r := false
	for {
		l, err := q.out.ReadString('\n')
		if err != nil {
			q.start()
			break
		}
		l = strings.TrimSpace(l)
		if l == "unsat" {
			r = true
			break
		}
		if l == "sat" || l == "unknown" {
			break
		}
		if strings.HasPrefix(l, "(error") {
			if os.Getenv("GOVC_DEBUG") != "" {
				fmt.Fprintln(os.Stderr, "QUICK:", l)
			}
		}
	}
	q.memo[key] = r
	q.secs += time.Since(t0).Seconds()
	return r
}

func cvc5Proves(q string, limit int) bool {
	workers <- struct{}{}
	out := runSolver("cvc5", []string{"--lang=smt2", fmt.Sprintf("--tlimit=%d", limit*1000), "-q"}, "(set-logic ALL)\n"+stripOptions(q), time.Duration(limit+2)*time.Second)
	<-workers
	return strings.HasPrefix(strings.TrimSpace(out), "unsat")
}
