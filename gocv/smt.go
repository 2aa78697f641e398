package main

import (
	"bufio"
	"context"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	"unicode/utf8"
)

// ---- theory preamble ----

// preamble is for a function, or a lemma of a scope
func (th *theory) preamble(lemmas int, name string, of *scope) string {
	var sb strings.Builder
	sb.WriteString("(set-option :auto_config false)\n(set-option :smt.mbqi false)\n(set-option :smt.qi.eager_threshold 60)\n(set-option :smt.arith.nl true)\n")
	th.preambleDecls(&sb)
	strs := th.preambleStrs()
	for _, t := range strs {
		fmt.Fprintf(&sb, "(declare-const str_%d Str)\n", t.ID)
	}
	for _, t := range strs {
		sb.WriteString(strFacts(t))
	}
	for _, a := range th.axioms {
		if !a.scope.usedFor(name, of) {
			continue
		}
		fmt.Fprintf(&sb, "; %s\n(assert ", a.name)
		a.t.write(&sb, map[int]string{})
		sb.WriteString(")\n")
	}
	for _, a := range th.caseAxioms() {
		sb.WriteString("(assert ")
		a.write(&sb, map[int]string{})
		sb.WriteString(")\n")
	}
	for i, l := range th.lemmas {
		if i < lemmas && l.use && (contains(l.users, name) || l.users == nil && l.scope.usedFor(name, of)) {
			fmt.Fprintf(&sb, "; lemma %s\n(assert ", l.name)
			l.quantified().write(&sb, map[int]string{})
			sb.WriteString(")\n")
		}
	}
	return sb.String()
}

// neededLemmas are the lemmas used for the functions, and for these lemmas
func (th *theory) neededLemmas(fns []string) []*lemma {
	need := map[*lemma]bool{}
	usedFor := func(l *lemma, name string, of *scope) bool {
		return l.use && (contains(l.users, name) || l.users == nil && l.scope.usedFor(name, of))
	}
	for _, l := range th.lemmas {
		need[l] = !l.use // it stands for itself
		for _, f := range fns {
			if usedFor(l, f, nil) {
				need[l] = true
			}
		}
	}
	for i := len(th.lemmas) - 1; i >= 0; i-- {
		l := th.lemmas[i]
		for _, m := range th.lemmas[i+1:] {
			if need[m] && usedFor(l, m.name, m.scope) {
				need[l] = true
			}
		}
	}
	var out []*lemma
	for _, l := range th.lemmas {
		if need[l] {
			out = append(out, l)
		}
	}
	return out
}

// caseAxioms are the definitions by cases, for the constructors of the classes
func (th *theory) caseAxioms() []*Term {
	var out []*Term
	var ks []string
	for k := range th.mkCtors {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		ci := th.mkCtors[k]
		var vs []*Term
		for _, f := range ci.fields {
			vs = append(vs, mkBV("K."+ci.name+"."+f.name, f.sort))
		}
		mk := App(k, vs...)
		for _, x := range unfold(mk) {
			if len(vs) == 0 {
				out = append(out, x)
			} else {
				out = append(out, mkQuant("forall", vs, x, [][]*Term{{mk}}))
			}
		}
		for _, f := range sortedKeys(th.cases) {
			c, ok := th.cases[f][k]
			if !ok {
				continue
			}
			ws := append([]*Term{}, vs...)
			args := []*Term{mk}
			for _, p := range c.params {
				w := mkBV("K."+f+"."+p.Name, p.Sort)
				ws = append(ws, w)
				args = append(args, w)
			}
			t := mkApp(f, th.funs[f].ret, args...)
			for _, x := range unfold(t) {
				if len(ws) == 0 {
					out = append(out, x)
				} else {
					out = append(out, mkQuant("forall", ws, x, [][]*Term{{t}}))
				}
			}
		}
	}
	return out
}

// preambleStrs returns the string constants in the axioms and lemmas
func (th *theory) preambleStrs() []*Term {
	preStrOnce.Do(func() {
		seen := map[int]bool{}
		var walk func(t *Term)
		walk = func(t *Term) {
			if seen[t.ID] {
				return
			}
			seen[t.ID] = true
			if t.Op == "#str" {
				preStr = append(preStr, t)
			}
			for _, a := range t.Args {
				walk(a)
			}
			for _, p := range t.Pats {
				for _, a := range p {
					walk(a)
				}
			}
		}
		for _, a := range th.axioms {
			walk(a.t)
		}
		for _, l := range th.lemmas {
			walk(l.body)
			for _, p := range l.pats {
				for _, a := range p {
					walk(a)
				}
			}
		}
		for _, cs := range th.cases {
			for _, c := range cs {
				walk(c.body)
			}
		}
		sort.Slice(preStr, func(i, j int) bool { return preStr[i].ID < preStr[j].ID })
	})
	return preStr
}

var preStrOnce sync.Once
var preStr []*Term

func (th *theory) preambleDecls(sb *strings.Builder) {
	dt := map[string]bool{}
	for _, d := range th.dtypes {
		dt[d] = true
	}
	for _, s := range th.sorts {
		if !dt[s] {
			fmt.Fprintf(sb, "(declare-sort %s 0)\n", s)
		}
	}
	if len(th.dtypes) > 0 {
		sb.WriteString("(declare-datatypes (")
		for _, d := range th.dtypes {
			fmt.Fprintf(sb, "(%s 0)", d)
		}
		sb.WriteString(") (\n")
		for _, d := range th.dtypes {
			sb.WriteString(" (")
			for _, c := range th.dtCtors[d] {
				fmt.Fprintf(sb, "(%s", c.name)
				for i, f := range c.fields {
					fmt.Fprintf(sb, " (%s %s)", f, c.sorts[i])
				}
				sb.WriteString(")")
			}
			sb.WriteString(")\n")
		}
		sb.WriteString("))\n")
	}
	sb.WriteString("(define-fun wrap64 ((x Int)) Int (ite (and (<= (- 9223372036854775808) x) (<= x 9223372036854775807)) x (- (mod (+ x 9223372036854775808) 18446744073709551616) 9223372036854775808)))\n")
	for _, n := range th.funOrder {
		f := th.funs[n]
		fmt.Fprintf(sb, "(declare-fun %s (%s) %s)\n", smtName(n), strings.Join(f.args, " "), f.ret)
	}
	sb.WriteString(seqAxioms())
}

// ---- queries ----

// instances returns the ground instances of the definitions of the spec
// functions in the terms, unfolded up to the given number of rounds
func instances(ts []*Term, rounds int) []*Term {
	var out []*Term
	done := map[int]bool{}
	seen := map[int]bool{}
	var work []*Term
	var collect func(t *Term)
	collect = func(t *Term) {
		if seen[t.ID] {
			return
		}
		seen[t.ID] = true
		for _, a := range t.Args {
			collect(a)
		}
		if len(t.Args) == 0 && len(th.recs) == 0 {
			return
		}
		if hasBV(t) {
			return
		}
		if _, ok := th.recs[t.Op]; ok {
			work = append(work, t)
		} else if _, ok := th.cases[t.Op]; ok && len(t.Args) > 0 {
			work = append(work, t)
		} else if _, ok := th.mkCtors[t.Op]; ok || t.Op == "nil_Expr" || t.Op == "nil_Sel" {
			work = append(work, t)
		}
		if a, ok := th.about[t.Op]; ok {
			m := map[int]*Term{}
			for i, p := range a.params {
				m[p.ID] = t.Args[i]
			}
			for _, x := range a.terms {
				collect(subst(x, m))
			}
		}
	}
	for _, t := range ts {
		collect(t)
	}
	for r := 0; r < rounds; r++ {
		w := work
		work = nil
		for _, t := range w {
			if done[t.ID] {
				continue
			}
			done[t.ID] = true
			for _, x := range unfold(t) {
				if x != tTrue {
					out = append(out, x)
					collect(x)
				}
			}
		}
		if len(work) == 0 {
			break
		}
	}
	return out
}

// unfold returns the instances of the definitions for the application t
func unfold(t *Term) []*Term {
	if d, ok := th.recs[t.Op]; ok {
		if d.opaque && !revealed[d.name] {
			return nil
		}
		m := map[int]*Term{}
		for i, p := range d.params {
			m[p.ID] = t.Args[i]
		}
		return []*Term{Eq(t, subst(d.body, m))}
	}
	if cs, ok := th.cases[t.Op]; ok {
		a := t.Args[0]
		// Look through ite
		if a.Op == "ite" {
			return []*Term{Eq(t, Ite(a.Args[0],
				mkApp(t.Op, t.Sort, append([]*Term{a.Args[1]}, t.Args[1:]...)...),
				mkApp(t.Op, t.Sort, append([]*Term{a.Args[2]}, t.Args[1:]...)...)))}
		}
		c, ok := cs[a.Op]
		if !ok {
			return nil
		}
		m := map[int]*Term{}
		ci := th.mkCtors[a.Op]
		for i, f := range ci.fields {
			if p, ok := c.fields[f.name]; ok {
				m[p.ID] = a.Args[i]
			}
		}
		for i, p := range c.params {
			m[p.ID] = t.Args[i+1]
		}
		return []*Term{Eq(t, subst(c.body, m))}
	}
	if ci, ok := th.mkCtors[t.Op]; ok {
		out := []*Term{Eq(mkApp("tag_"+t.Sort, "Int", t), mkInt(int64(ci.tag)))}
		for i, f := range ci.fields {
			out = append(out, Eq(mkApp(ci.getter(f.name), f.sort, t), t.Args[i]))
		}
		return out
	}
	if t.Op == "nil_"+t.Sort && (t.Sort == "Expr" || t.Sort == "Sel") {
		return []*Term{Eq(mkApp("tag_"+t.Sort, "Int", t), mkInt(0))}
	}
	return nil
}

// the opaque functions to unfold
var revealed = map[string]bool{}

var bvMemo sync.Map

func hasBV(t *Term) bool {
	if !t.open {
		return false
	}
	if v, ok := bvMemo.Load(t.ID); ok {
		return v.(bool)
	}
	fv := map[int]bool{}
	freeBV(t, map[int]bool{}, fv)
	r := len(fv) > 0
	bvMemo.Store(t.ID, r)
	return r
}

func freeBV(t *Term, bound map[int]bool, out map[int]bool) {
	if !t.open {
		return
	}
	if t.Op == "#bv" {
		if !bound[t.ID] {
			out[t.ID] = true
		}
		return
	}
	if len(t.Bound) > 0 {
		nb := map[int]bool{}
		for k := range bound {
			nb[k] = true
		}
		for _, b := range t.Bound {
			nb[b.ID] = true
		}
		bound = nb
	}
	for _, a := range t.Args {
		freeBV(a, bound, out)
	}
}

// script renders declarations, shared subterms and assertions
func script(sb *strings.Builder, ts []*Term) {
	refs := map[int]int{}
	var order []*Term
	var visit func(t *Term)
	visit = func(t *Term) {
		refs[t.ID]++
		if refs[t.ID] > 1 {
			return
		}
		for _, a := range t.Args {
			visit(a)
		}
		for _, p := range t.Pats {
			for _, a := range p {
				visit(a)
			}
		}
		order = append(order, t)
	}
	for _, t := range ts {
		visit(t)
	}
	named := map[int]string{}
	var strs, own []*Term
	pre := map[int]bool{}
	for _, t := range th.preambleStrs() {
		pre[t.ID] = true
	}
	for _, t := range order {
		switch {
		case t.Op == "#var":
			fmt.Fprintf(sb, "(declare-const %s %s)\n", smtName(t.Name), t.Sort)
		case t.Op == "#str":
			strs = append(strs, t)
			if pre[t.ID] {
				continue
			}
			fmt.Fprintf(sb, "(declare-const str_%d Str)\n", t.ID)
			own = append(own, t)
		}
	}
	for _, t := range th.preambleStrs() {
		if refs[t.ID] == 0 {
			strs = append(strs, t)
		}
	}
	if len(strs) > 1 {
		sb.WriteString("(assert (distinct")
		for _, s := range strs {
			fmt.Fprintf(sb, " str_%d", s.ID)
		}
		sb.WriteString("))\n")
	}
	for _, s := range own {
		sb.WriteString(strFacts(s))
	}
	for _, t := range order {
		if len(t.Args) == 0 || refs[t.ID] < 2 || hasBV(t) {
			continue
		}
		if t.Op == "forall" || t.Op == "exists" {
			continue
		}
		fmt.Fprintf(sb, "(define-fun n%d () %s ", t.ID, t.Sort)
		t.writeTop(sb, named)
		sb.WriteString(")\n")
		named[t.ID] = fmt.Sprintf("n%d", t.ID)
	}
	for _, t := range ts {
		sb.WriteString("(assert ")
		t.write(sb, named)
		sb.WriteString(")\n")
	}
}

// strFacts states the runes of a string constant
func strFacts(s *Term) string {
	var sb strings.Builder
	n := fmt.Sprintf("str_%d", s.ID)
	fmt.Fprintf(&sb, "(assert (= (slen %s) %d))\n", n, len(s.Name))
	rs := []rune(s.Name)
	if len(rs) <= 12 && th.funs["runes"] != nil {
		t := "qempty_Int"
		for _, r := range rs {
			t = fmt.Sprintf("(qsnoc_Int %s %d)", t, r)
		}
		fmt.Fprintf(&sb, "(assert (= (runes %s) %s))\n", n, t)
		if utf8.ValidString(s.Name) && th.funs["s_of_runes"] != nil {
			fmt.Fprintf(&sb, "(assert (= (s_of_runes %s) %s))\n", t, n)
		}
		if len(s.Name) == 1 && th.funs["str_byte"] != nil {
			fmt.Fprintf(&sb, "(assert (= (str_byte %s 0) %d))\n", n, s.Name[0])
		}
	}
	return sb.String()
}

// ---- solver processes ----

type solver struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
}

func startSolver(preamble string) (*solver, error) {
	cmd := exec.Command("z3-new", "-in", "-smt2")
	in, err := cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	cmd.Stderr = os.Stderr
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	s := &solver{cmd: cmd, in: in, out: bufio.NewReader(out)}
	io.WriteString(in, preamble)
	return s, nil
}

func (s *solver) close() {
	s.in.Close()
	s.cmd.Process.Kill()
	s.cmd.Wait()
}

// check returns sat, unsat, or unknown for the assertions
func (s *solver) check(ts []*Term, timeoutMs int) string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "(push)\n(set-option :timeout %d)\n", timeoutMs)
	script(&sb, ts)
	sb.WriteString("(check-sat)\n(pop)\n(echo \"done\")\n")
	if dbgDir != "" {
		n := atomic.AddInt64(&dbgN, 1)
		os.WriteFile(fmt.Sprintf("%s/q%d.smt2", dbgDir, n), []byte(sb.String()), 0o644)
	}
	if _, err := io.WriteString(s.in, sb.String()); err != nil {
		return "error: " + err.Error()
	}
	res := ""
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "error: " + err.Error()
		}
		l = strings.TrimSpace(l)
		if l == "done" {
			return res
		}
		switch l {
		case "sat", "unsat", "unknown":
			if res == "" {
				res = l
			}
		default:
			if strings.HasPrefix(l, "(error") {
				res = "error: " + l
			}
		}
	}
}

var dbgDir string
var dbgN int64

type solverPool struct {
	mu       sync.Mutex
	free     []*solver
	preamble string
}

func (p *solverPool) get() *solver {
	p.mu.Lock()
	if n := len(p.free); n > 0 {
		s := p.free[n-1]
		p.free = p.free[:n-1]
		p.mu.Unlock()
		return s
	}
	p.mu.Unlock()
	s, err := startSolver(p.preamble)
	if err != nil {
		panic(err)
	}
	return s
}
func (p *solverPool) put(s *solver) {
	p.mu.Lock()
	p.free = append(p.free, s)
	p.mu.Unlock()
}
func (p *solverPool) closeAll() {
	p.mu.Lock()
	defer p.mu.Unlock()
	for _, s := range p.free {
		s.close()
	}
	p.free = nil
}

// effort is 1, or 2 for another attempt after a failure
var effort = 1

var pool *solverPool
var solverTime int64 // nanoseconds
var solverCalls int64
var memoQ sync.Map

func keyOf(ts []*Term, x string) string {
	ids := make([]int, len(ts))
	for i, t := range ts {
		ids[i] = t.ID
	}
	sort.Ints(ids)
	return x + fmt.Sprint(ids)
}

// quick decides whether the assertions are unsatisfiable, with little effort
func quickUnsat(ts []*Term) bool {
	for _, t := range ts {
		if t == tFalse {
			return true
		}
	}
	k := keyOf(ts, "q")
	if r, ok := memoQ.Load(k); ok {
		return r.(bool)
	}
	t0 := time.Now()
	s := pool.get()
	all := append(append([]*Term{}, ts...), instances(ts, 1)...)
	r := s.check(all, 400*effort*effort)
	if strings.HasPrefix(r, "error") {
		s.close()
		fmt.Fprintln(os.Stderr, "solver:", r)
		dumpQuery("/tmp/gocv-error.smt2", all)
	} else {
		pool.put(s)
	}
	atomic.AddInt64(&solverTime, int64(time.Since(t0)))
	atomic.AddInt64(&solverCalls, 1)
	memoQ.Store(k, r == "unsat")
	return r == "unsat"
}

func dumpQuery(file string, ts []*Term) {
	var sb strings.Builder
	sb.WriteString(pool.preamble)
	script(&sb, ts)
	sb.WriteString("(check-sat)\n")
	os.WriteFile(file, []byte(sb.String()), 0o644)
}

// proveLight decides whether the assertions are unsatisfiable, with medium effort
func proveLight(ts []*Term) bool {
	k := keyOf(ts, "l")
	if r, ok := memoQ.Load(k); ok {
		return r.(bool)
	}
	t0 := time.Now()
	res := false
	for round := 0; round <= 2*effort-1 && !res; round++ {
		all := append(append([]*Term{}, ts...), instances(ts, round)...)
		s := pool.get()
		r := s.check(all, 1500)
		if strings.HasPrefix(r, "error") {
			s.close()
			fmt.Fprintln(os.Stderr, "solver:", r)
			dumpQuery("/tmp/gocv-error.smt2", all)
			break
		}
		pool.put(s)
		res = r == "unsat"
	}
	atomic.AddInt64(&solverTime, int64(time.Since(t0)))
	atomic.AddInt64(&solverCalls, 1)
	memoQ.Store(k, res)
	return res
}

type proofResult struct {
	ok     bool
	answer string
	solver string
	dur    time.Duration
	query  []*Term
}

var fullTimeout = 10000

// longer limits for the second attempt at a function
var timeScale = 1

// prove decides whether the assumptions imply the goal
func prove(pc []*Term, goal *Term) proofResult {
	if goal == tTrue {
		return proofResult{ok: true, answer: "unsat", solver: "simplifier"}
	}
	for _, t := range pc {
		if t == goal {
			return proofResult{ok: true, answer: "unsat", solver: "simplifier"}
		}
	}
	ts := append(append([]*Term{}, pc...), Not(goal))
	k := keyOf(ts, "p")
	if r, ok := memoQ.Load(k); ok {
		return r.(proofResult)
	}
	t0 := time.Now()
	var res proofResult
	for round := 0; round <= 4; round++ {
		all := append(append([]*Term{}, ts...), instances(ts, round)...)
		s := pool.get()
		to := 1500 * timeScale
		if round == 4 {
			to = fullTimeout * timeScale
		}
		r := s.check(all, to)
		if strings.HasPrefix(r, "error") {
			fmt.Fprintln(os.Stderr, "solver:", r)
			dumpQuery("/tmp/gocv-error.smt2", all)
			s.close()
		} else {
			pool.put(s)
		}
		res = proofResult{ok: r == "unsat", answer: r, solver: "z3", query: all}
		if r == "unsat" {
			res.query = nil
			break
		}
	}
	if !res.ok {
		for _, alt := range [][]string{{"z3", "z3", "-smt2", "-T:10"}, {"cvc5", "cvc5", "--tlimit=10000"}} {
			if quickFail {
				break
			}
			if runAlt(alt[1], alt[2:], res.query) == "unsat" {
				res.ok, res.answer, res.solver, res.query = true, "unsat", alt[0], nil
				break
			}
		}
	}
	res.dur = time.Since(t0)
	atomic.AddInt64(&solverTime, int64(res.dur))
	atomic.AddInt64(&solverCalls, 1)
	memoQ.Store(k, res)
	return res
}

var quickFail bool

func runAlt(bin string, args []string, ts []*Term) string {
	f, err := os.CreateTemp("", "gocv*.smt2")
	if err != nil {
		return "error"
	}
	defer os.Remove(f.Name())
	var sb strings.Builder
	pre := pool.preamble
	if bin == "cvc5" {
		i := strings.Index(pre, "(declare")
		pre = "(set-logic ALL)\n" + pre[i:]
	}
	sb.WriteString(pre)
	script(&sb, ts)
	sb.WriteString("(check-sat)\n")
	f.WriteString(sb.String())
	f.Close()
	ctx, cancel := context.WithTimeout(context.Background(), 12*time.Second)
	defer cancel()
	out, _ := exec.CommandContext(ctx, bin, append(args, f.Name())...).Output()
	s := strings.TrimSpace(string(out))
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	return s
}
