package main

import (
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"golang.org/x/tools/go/ssa"
)

var (
	repoDir  = flag.String("repo", "/repo", "directory of the package to verify")
	specDir  = flag.String("spec", "/verif/contracts", "directory of the contracts")
	fnFlag   = flag.String("fn", "", "verify the functions with these names, separated by commas")
	lemFlag  = flag.String("lemma", "", "prove the lemmas with these names, or all")
	propFlag = flag.String("prop", "", "verify the functions of a property")
	outFlag  = flag.String("out", "", "write the results to a JSON file")
	list     = flag.Bool("list", false, "list the functions to verify")
	worker   = flag.Bool("worker", false, "print the results as JSON")
	dbg      = flag.String("dbg", "", "directory for failed queries")
	dbgL     = flag.Bool("dbgloops", false, "print loop invariants")
	ssaFlag  = flag.String("ssa", "", "print the SSA form of a function")
	procs    = flag.Int("procs", 4, "functions verified at the same time")
	dropFlag = flag.String("drop", "", "auxiliary contracts which are not used, separated by commas")
	effortF  = flag.Int("effort", 1, "1, or 2 for more effort in finding invariants")
	kindsF   = flag.String("kinds", "", "kinds of obligations which matter most, separated by commas")
	limitF   = flag.Int("limit", 3000, "seconds after which no function of a property is verified any more")
	all      = flag.Bool("all", false, "check all obligations of a function after failures")
)

func main() {
	flag.Parse()
	debug.SetGCPercent(400)
	dbgDir = *dbg
	dbgLoops = *dbgL
	allObls = *all
	if *kindsF != "" {
		obsKinds = strings.Split(*kindsF, ",")
	}
	effort = *effortF
	timeScale = effort
	for _, n := range strings.Split(*dropFlag, ",") {
		if n != "" {
			dropped[n] = true
		}
	}
	if dbgDir != "" {
		os.MkdirAll(dbgDir, 0o755)
	}
	if *propFlag != "" {
		runProp()
		return
	}
	if err := setup(); err != nil {
		fmt.Fprintln(os.Stderr, "gocv:", err)
		os.Exit(2)
	}
	defer pool.closeAll()
	switch {
	case *ssaFlag != "":
		for _, fn := range pr.funcs {
			if fnName(fn) == *ssaFlag {
				fn.WriteTo(os.Stdout)
				for _, a := range fn.AnonFuncs {
					a.WriteTo(os.Stdout)
				}
			}
		}
	case *list:
		for _, t := range targets() {
			fmt.Println(t.name, t.contractName())
		}
	case *lemFlag != "":
		var rs []lemmaResult
		for _, l := range th.lemmas {
			if *lemFlag == "all" || contains(strings.Split(*lemFlag, ","), l.name) {
				r := proveLemma(l)
				rs = append(rs, r)
				if !*worker {
					fmt.Println(r)
				}
			}
		}
		if *worker {
			json.NewEncoder(os.Stdout).Encode(rs)
		}
	case *fnFlag != "":
		for _, n := range strings.Split(*fnFlag, ",") {
			r := verifyName(n)
			if *worker {
				o := toOutput(r)
				json.NewEncoder(os.Stdout).Encode(o)
				continue
			}
			printResult(r)
		}
	}
}

func contains(xs []string, x string) bool {
	for _, y := range xs {
		if x == y {
			return true
		}
	}
	return false
}

func setup() error {
	p, err := loadProgram(*repoDir)
	if err != nil {
		return err
	}
	pr = p
	func() {
		defer func() {
			if r := recover(); r != nil {
				if s, ok := r.(string); ok {
					err = fmt.Errorf("%s", s)
					return
				}
				panic(r)
			}
		}()
		loadSpecs(p, readSpecs(*specDir))
	}()
	if err != nil {
		return err
	}
	pool = &solverPool{preamble: th.preamble(len(th.lemmas), "", nil)}
	initErr = initGlobals()
	if !*worker {
		for _, n := range sp.notes {
			fmt.Fprintln(os.Stderr, "gocv:", n)
		}
	}
	if initErr != nil && !*worker {
		fmt.Fprintln(os.Stderr, "gocv:", initErr)
	}
	return nil
}

var initErr error

type target struct {
	name string
	task
	iter bool
}

func (t target) contractName() string {
	if t.iter {
		return "iterator." + t.fn.Name()
	}
	if t.c != nil {
		return t.c.name
	}
	return ""
}

// targets are the functions with contracts, and those which implement an
// interface with contracts
func targets() []target {
	var out []target
	for _, fn := range pr.funcs {
		if fn.Synthetic != "" || fn.Parent() != nil {
			continue
		}
		n := fnName(fn)
		if c, ok := sp.contracts[n]; ok && !dropped[n] {
			if c.aux && len(c.params) != len(fn.Params) {
				continue
			}
			if c.assumed == "" {
				out = append(out, target{n, task{fn, c}, false})
			}
			continue
		}
		r := fn.Signature.Recv()
		if r == nil {
			continue
		}
		if fn.Name() == "next" || fn.Name() == "item" {
			if isIterClass(fn) {
				out = append(out, target{n, task{fn, nil}, true})
				continue
			}
		}
		if ci, ok := pr.classOf(r.Type()); ok {
			if c, ok := sp.icontract[ci.iface+"."+fn.Name()]; ok {
				out = append(out, target{n, task{fn, c}, false})
			}
		}
	}
	if c, ok := sp.contracts["init"]; ok {
		// the values of the global variables
		out = append(out, target{"init", task{pr.pkg.Func("init"), c}, false})
	}
	sort.Slice(out, func(i, j int) bool { return out[i].name < out[j].name })
	return out
}

func isIterClass(fn *ssa.Function) bool {
	it := pr.ifaceType("iterator")
	return it != nil && implements(fn.Signature.Recv().Type(), it)
}

func verifyName(n string) *fnResult {
	old := pool
	if pre := th.preamble(len(th.lemmas), n, nil); pre != old.preamble {
		pool = &solverPool{preamble: pre}
		memoQ = sync.Map{}
		defer func() { pool.closeAll(); pool = old; memoQ = sync.Map{} }()
	}
	var names []string
	for _, t := range targets() {
		if t.name == n {
			if t.iter {
				return verifyIter(t.fn)
			}
			if t.c != nil && len(t.c.reveal) > 0 {
				for _, r := range t.c.reveal {
					revealed[r] = true
				}
				defer func() { revealed = map[string]bool{} }()
			}
			return verifyFn(t.task)
		}
		names = append(names, t.name)
	}
	for _, fn := range pr.funcs {
		if fnName(fn) == n && fn.Synthetic == "" {
			return verifyFn(task{fn, nil})
		}
	}
	return &fnResult{Name: n, Unsupported: "no such function"}
}

func printResult(r *fnResult) {
	ok, kinds := 0, map[string]int{}
	for _, o := range r.Obls {
		if o.OK {
			ok++
		}
		kinds[o.Kind]++
	}
	st := "ok"
	if ok < len(r.Obls) || r.Unsupported != "" {
		st = "FAILED"
	}
	fmt.Printf("%-45s %-6s %d/%d obligations %v, %d returns, %d ms", r.Name, st, ok, len(r.Obls), kinds, r.Returns, r.Ms)
	if r.Vacuous {
		fmt.Print(" VACUOUS")
	}
	fmt.Println()
	if r.Unsupported != "" {
		fmt.Println("   unsupported:", r.Unsupported)
	}
	for _, x := range r.Roles {
		fmt.Println("   role:", x)
	}
	for _, o := range r.Obls {
		if !o.OK && o.Solver != "skipped" {
			fmt.Printf("   %s: %s\n      path %s\n", o.Kind, o.What, o.Path)
		}
		if o.Ms > 2000 {
			fmt.Printf("   slow %s: %s %.0fms\n", o.Kind, o.What, o.Ms)
		}
	}
}

// ---- results as JSON ----

type oblOut struct {
	Fn, Kind, What, Path, Solver string
	OK                           bool
	Ms                           float64
}
type fnOut struct {
	Name, Contract, Unsupported         string
	Obls                                []oblOut
	Returns                             int
	Inlined, Contracts, External, Roles []string
	Calls                               [][2]string
	Vacuous                             bool
	Ms                                  int64
	SolverMs                            float64
	InitErr                             string
	Missing                             bool
	Effort                              int
}

func toOutput(r *fnResult) *fnOut {
	o := &fnOut{Name: r.Name, Contract: r.Contract, Unsupported: r.Unsupported, Returns: r.Returns, Inlined: r.Inlined, Contracts: r.Contracts,
		External: r.External, Roles: r.Roles, Calls: r.Calls, Vacuous: r.Vacuous, Ms: r.Ms, SolverMs: float64(atomic.LoadInt64(&solverTime)) / 1e6}
	if initErr != nil {
		o.InitErr = initErr.Error()
	}
	for _, x := range r.Obls {
		o.Obls = append(o.Obls, oblOut{x.Fn, x.Kind, x.What, x.Path, x.Solver, x.OK, x.Ms})
	}
	return o
}

type propOut struct {
	Property string
	Error    string
	Primary  []*fnOut
	Deps     []*fnOut
	Kinds    []string // the kinds of obligations which matter, if not all
	Soft     []string // the functions with auxiliary contracts
	Aux      []*fnOut // auxiliary contracts; those in Dropped are not used
	Dropped  []string
	Lemmas   []lemmaResult
	Axioms   []string
	Assumed  []string
	Notes    []string
	WallMs   int64
}

// runProp verifies the functions of a property, each in a process of its own
func runProp() {
	t0 := time.Now()
	out := &propOut{Property: *propFlag}
	write := func() {
		out.WallMs = time.Since(t0).Milliseconds()
		b, _ := json.MarshalIndent(out, "", " ")
		if *outFlag != "" {
			os.WriteFile(*outFlag, b, 0o644)
		} else {
			os.Stdout.Write(b)
		}
	}
	if err := setup(); err != nil {
		out.Error = err.Error()
		write()
		os.Exit(0)
	}
	pool.closeAll()
	g := sp.groups[*propFlag]
	if g == nil {
		fmt.Fprintln(os.Stderr, "gocv: no property", *propFlag)
		os.Exit(2)
	}
	out.Axioms = sp.axiomNames
	out.Kinds = g.kinds
	*kindsF = strings.Join(g.kinds, ",")
	out.Notes = sp.notes
	for _, n := range sortedKeys(sp.contracts) {
		if c := sp.contracts[n]; c.assumed != "" {
			out.Assumed = append(out.Assumed, n+": "+c.assumed)
		}
	}
	tg := targets()
	expand := func(pats []string) []string {
		var names []string
		seen := map[string]bool{}
		for _, p := range pats {
			found := false
			for _, t := range tg {
				if t.name == p || plainName(t.name) == p || t.contractName() == p || strings.HasSuffix(p, "*") && strings.HasPrefix(t.name, strings.TrimSuffix(p, "*")) {
					found = true
					if !seen[t.name] {
						seen[t.name] = true
						names = append(names, t.name)
					}
				}
			}
			if !found && !seen[p] {
				seen[p] = true
				names = append(names, p)
			}
		}
		return names
	}
	prim := expand(g.primary)
	deps := expand(g.deps)
	var jobs []func()
	runJobs := func() {
		sem := make(chan bool, *procs)
		var wg sync.WaitGroup
		for _, j := range jobs {
			wg.Add(1)
			sem <- true
			go func() { defer wg.Done(); j(); <-sem }()
		}
		wg.Wait()
		jobs = nil
	}
	exe, _ := os.Executable()
	var mu sync.Mutex
	auxResult := map[string]*fnOut{}
	runFn := func(n string, to *[]*fnOut, i int) {
		if o := auxResult[n]; o != nil {
			// verified against its own contract already
			(*to)[i] = o
			return
		}
		attempt := func(eff int) *fnOut {
			if timeLeft() < 5*time.Second {
				return &fnOut{Name: n, Unsupported: "not verified: out of time", Effort: eff}
			}
			return runWorker(exe, out.Dropped, n, eff)
		}
		o := attempt(1)
		if !o.ok() && !o.Missing {
			// the light inference of invariants may have missed something
			if o2 := attempt(2); o2.ok() || len(o2.failed()) > 0 || o.Unsupported != "" {
				o = o2
			}
		}
		mu.Lock()
		(*to)[i] = o
		mu.Unlock()
	}
	aux := auxOf(tg, append(append([]string{}, prim...), deps...))
	// The lemmas, which do not depend on the code but on its classes
	lemmasDone := make(chan bool)
	go func() {
		defer close(lemmasDone)
		needed := th.neededLemmas(append(append(append([]string{}, prim...), deps...), aux...))
		var wg sync.WaitGroup
		parts := make([][]lemmaResult, 3)
		for i := range parts {
			var ns []string
			for k, l := range needed {
				if k%len(parts) == i {
					ns = append(ns, l.name)
				}
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				ctx, cancel := context.WithTimeout(context.Background(), workerTime)
				defer cancel()
				b, err := exec.CommandContext(ctx, exe, "-repo", *repoDir, "-spec", *specDir, "-worker", "-lemma", strings.Join(ns, ",")).Output()
				var rs []lemmaResult
				if err == nil {
					err = json.Unmarshal(b, &rs)
				}
				if err != nil {
					rs = []lemmaResult{{Name: "lemmas: " + err.Error()}}
				}
				parts[i] = rs
			}()
		}
		wg.Wait()
		for _, p := range parts {
			out.Lemmas = append(out.Lemmas, p...)
		}
	}()
	// Auxiliary contracts: the functions which do not have them are inlined
	auxResult1 := map[string]*fnOut{}
	for len(aux) > 0 {
		out.Aux = make([]*fnOut, len(aux))
		for i, n := range aux {
			jobs = append(jobs, func() { runFn(n, &out.Aux, i) })
		}
		runJobs()
		var keep []string
		for _, o := range out.Aux {
			auxResult1[o.Name] = o
			if o.ok() {
				keep = append(keep, o.Name)
			} else {
				out.Dropped = append(out.Dropped, o.Name)
			}
		}
		if len(keep) == len(aux) {
			break
		}
		aux = keep
	}
	auxResult = auxResult1
	for _, c := range sp.contracts {
		if c.aux {
			out.Soft = append(out.Soft, c.name)
		}
	}
	sort.Strings(out.Soft)
	out.Primary = make([]*fnOut, len(prim))
	for i, n := range prim {
		jobs = append(jobs, func() { runFn(n, &out.Primary, i) })
	}
	var dn []string
	for _, n := range deps {
		if !contains(prim, n) {
			dn = append(dn, n)
		}
	}
	out.Deps = make([]*fnOut, len(dn))
	for i, n := range dn {
		jobs = append(jobs, func() { runFn(n, &out.Deps, i) })
	}
	runJobs()
	<-lemmasDone
	if contains(g.kinds, "decreases") {
		out.recursion()
	}
	write()
}

// recursion adds obligations that all contracts of recursive functions have a
// measure, so that each call has been shown to have less to do
func (out *propOut) recursion() {
	next := map[string][]string{}
	measured := map[string]bool{}
	all := append(append(append([]*fnOut{}, out.Primary...), out.Deps...), out.Aux...)
	for _, f := range all {
		for _, c := range f.Calls {
			next[c[0]] = append(next[c[0]], c[1])
		}
	}
	for _, c := range sp.contracts {
		measured[c.name] = len(c.measure) > 0
	}
	for _, c := range sp.icontract {
		measured[c.name] = len(c.measure) > 0
	}
	for _, c := range sp.roles {
		measured[c.name] = len(c.measure) > 0
	}
	for _, f := range all {
		for _, c := range f.Calls {
			// is the caller reached from the callee by contracts
			seen := map[string]bool{}
			var reach func(n string) bool
			reach = func(n string) bool {
				if n == c[0] {
					return true
				}
				if seen[n] {
					return false
				}
				seen[n] = true
				for _, m := range next[n] {
					if reach(m) {
						return true
					}
				}
				return false
			}
			if !reach(c[1]) {
				continue
			}
			ok := measured[c[0]] && measured[c[1]]
			f.Obls = append(f.Obls, oblOut{Fn: f.Name, Kind: "decreases", What: "the recursive call of " + c[1] + " by " + c[0] + " has a measure", Solver: "contracts", OK: ok})
		}
	}
}

// auxOf are the functions with auxiliary contracts which are reached from
// others: by calls which end at functions with other contracts
func auxOf(tg []target, roots []string) []string {
	byName := map[string]target{}
	byFn := map[*ssa.Function]target{}
	methods := map[string][]*ssa.Function{}
	for _, t := range tg {
		byName[t.name] = t
		byFn[t.fn] = t
	}
	for _, fn := range pr.funcs {
		if fn.Signature.Recv() != nil {
			methods[fn.Name()] = append(methods[fn.Name()], fn)
		}
	}
	found := map[string]bool{}
	seen := map[*ssa.Function]bool{}
	var body func(fn *ssa.Function)
	reach := func(fn *ssa.Function) {
		if fn.Pkg != pr.pkg && fn.Parent() == nil && fn.Synthetic == "" {
			return
		}
		if t, ok := byFn[fn]; ok {
			if t.c == nil || !t.c.aux {
				return
			}
			found[t.name] = true
		}
		body(fn)
	}
	body = func(fn *ssa.Function) {
		if seen[fn] {
			return
		}
		seen[fn] = true
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok && c.Common().IsInvoke() {
					for _, m := range methods[c.Common().Method.Name()] {
						reach(m)
					}
				}
				var ops []*ssa.Value
				for _, o := range in.Operands(ops) {
					if f, ok := (*o).(*ssa.Function); ok {
						reach(f)
					}
				}
			}
		}
	}
	for _, r := range roots {
		t, ok := byName[r]
		if !ok {
			continue
		}
		if t.c != nil && t.c.aux {
			found[t.name] = true
		}
		body(t.fn)
	}
	return sortedKeys(found)
}

// plainName is the name of a method without the pointer of its receiver
func plainName(n string) string {
	if strings.HasPrefix(n, "(*") {
		return strings.Replace(n[2:], ")", "", 1)
	}
	return n
}

// runWorker verifies a function in a process of its own
func runWorker(exe string, drop []string, n string, eff int) *fnOut {
	ctx, cancel := context.WithTimeout(context.Background(), min(workerTime, timeLeft()))
	defer cancel()
	cmd := exec.CommandContext(ctx, exe, "-repo", *repoDir, "-spec", *specDir, "-worker", "-kinds", *kindsF, "-effort", strconv.Itoa(eff), "-drop", strings.Join(drop, ","), "-fn", n)
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	cmd.Cancel = func() error { return syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) }
	b, err := cmd.Output()
	o := &fnOut{Name: n}
	if ctx.Err() != nil {
		o.Unsupported = "worker: out of time"
	} else if err != nil {
		o.Unsupported = "worker: " + err.Error()
		if ee, ok := err.(*exec.ExitError); ok {
			o.Unsupported += ": " + lastLines(string(ee.Stderr))
		}
	} else if err := json.Unmarshal(b, o); err != nil {
		o.Unsupported = "worker: " + err.Error()
	}
	o.Effort = eff
	o.Missing = o.Unsupported == "no such function"
	return o
}

const workerTime = 200 * time.Second

var startTime = time.Now()

func timeLeft() time.Duration {
	return time.Duration(*limitF)*time.Second - time.Since(startTime)
}

// failed are the obligations which were not proved
func (o *fnOut) failed() []oblOut {
	var out []oblOut
	for _, x := range o.Obls {
		if !x.OK && x.Solver != "skipped" {
			out = append(out, x)
		}
	}
	return out
}

// ok tells if everything has been proved
func (o *fnOut) ok() bool {
	for _, x := range o.Obls {
		if !x.OK {
			return false
		}
	}
	return o.Unsupported == ""
}

func lastLines(s string) string {
	if len(s) > 2000 {
		s = s[:2000]
	}
	return s
}

var _ = filepath.Join
