package main

import (
	"context"
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"strings"
	"sync"
	"time"

	"go/types"

	"golang.org/x/tools/go/ssa"
)

// FuncReport is the outcome of verifying one function against its contract.
type FuncReport struct {
	Name    string
	Obls    []*Obl
	Err     string // construct outside the verifier's reach, unknown name in a contract, ...
	Notes   []string
	Inlined []string
	Called  []string
	Trusted bool
	Why     string
	Bounded bool
}

// buildFunc generates the obligations of one contract.
func buildFunc(ct *Contract) (rep *FuncReport) {
	rep = &FuncReport{Name: ct.name}
	fn := prog.funcs[ct.name]
	ex := newExec(ct.name)
	defer func() {
		rep.Obls = ex.obls
		rep.Notes = sortedKeys(ex.notes)
		rep.Inlined = sortedKeys(ex.inlined)
		rep.Called = sortedKeys(ex.calledC)
		if r := recover(); r != nil {
			if u, ok := r.(unsupported); ok {
				rep.Err = u.msg
			} else {
				rep.Err = fmt.Sprintf("internal: %v", r)
				if os.Getenv("VC_DEBUG") == "2" {
					debug.PrintStack()
				}
			}
		}
	}()
	if fn == nil {
		panic(unsupp("function %s not found in the source", ct.name))
	}
	if ct.trusted {
		rep.Trusted, rep.Why = true, ct.why
		return
	}
	ex.contract = ct
	if len(ct.pure) > 0 {
		g, why := tTrue, ""
		if why = impure(fn, map[*ssa.Function]bool{}); why != "" {
			g = tFalse
			why = ": " + why
		}
		s0 := &State{cells: map[*Cell]Val{}, heap: map[string]*Term{}, pc: tTrue, node: ex.node0}
		ex.obligation(s0, g, "the results depend on nothing but the arguments"+why, "")
	}
	if ct.stable {
		g := tTrue
		_, why := stableReads(fn)
		if why != "" {
			g, why = tFalse, ": "+why
		}
		s0 := &State{cells: map[*Cell]Val{}, heap: map[string]*Term{}, pc: tTrue, node: ex.node0}
		ex.obligation(s0, g, "the result depends on nothing but the arguments and the memory read"+why, "")
	}
	ex.safety = !ct.nosafety
	st := &State{cells: map[*Cell]Val{}, heap: map[string]*Term{}, pc: tTrue, node: ex.node0}
	var args []Val
	var ts []*Term
	alloc := ex.initialAlloc()
	for _, p := range fn.Params {
		t := mkConst(ct.name+"#"+p.Name(), sortOf(p.Type()))
		for _, v := range typeValid(p.Type(), t, alloc) {
			ex.assume(st, v, "type validity of "+p.Name())
		}
		args = append(args, t)
		ts = append(ts, t)
	}
	ex.pre = st.clone()
	env := &SpecEnv{ex: ex, st: st, old: ex.pre, vars: map[string]SV{}, freshAlloc: alloc}
	bindParams(env, fn, ts)
	ex.letVals = map[string]SV{}
	for k, v := range env.vars {
		ex.letVals[k] = v
	}
	for _, r := range ct.requires {
		n := len(ex.assumps)
		ex.assume(st, env.boolExpr(r.e), "requires "+r.label())
		ex.dropAt(r.until, n)
	}
	for _, l := range ct.lets {
		v := env.eval(l.e)
		env.vars[l.name] = v
		ex.letVals[l.name] = v
	}
	ex.sanity(st, "precondition is satisfiable")
	if ct.declared {
		ex.frames = append(ex.frames, ct.frameClause(ex, env, ex.pre))
	}
	fr, rets := ex.runBody(fn, nil, ct.name, st, args, nil, func(f *Frame) {
		f.spec = ct
		ex.root = f
	})
	nl := len(ct.loops)
	for n := range ct.loops {
		if n > fr.callN {
			panic(unsupp("contract of %s describes loop %d but the function has %d loops", ct.name, n, fr.callN))
		}
	}
	_ = nl
	if len(rets) == 0 {
		panic(unsupp("%s never returns", ct.name))
	}
	for ri, r := range rets {
		e2 := &SpecEnv{ex: ex, st: r.st, old: ex.pre, vars: map[string]SV{}, freshAlloc: alloc, fr: fr}
		for k, v := range ex.letVals {
			e2.vars[k] = v
		}
		var res Val = Tuple(r.vals)
		if len(r.vals) == 1 {
			res = r.vals[0]
		}
		bindResults(e2, fn.Signature, res, ex)
		for i, a := range ct.asserts {
			g := e2.boolExpr(a.e)
			ex.obligation(r.st, g, fmt.Sprintf("assertion %d (%s)", i+1, a.label()), r.pos)
			ex.assume(r.st, g, "assert "+a.label())
		}
		for i, en := range ct.ensures {
			g := e2.boolExpr(en.e)
			ex.obligation(r.st, g, fmt.Sprintf("postcondition %d (%s)", i+1, en.label()), r.pos)
		}
		if ex.goUsed {
			ex.obligation(r.st, eq(ex.get(r.st, compOut), tZero), "all goroutines awaited at return", r.pos)
		}
		ex.sanity(r.st, fmt.Sprintf("exit %d is reachable", ri+1))
	}
	return
}

func (ex *Exec) sanity(st *State, name string) {
	ex.obls = append(ex.obls, &Obl{node: st.node, pc: st.pc, goal: tFalse, name: name, fn: ex.name, prefix: len(ex.assumps), ex: ex, sanity: true})
}

// buildLemma generates the obligations of a lemma.
func buildLemma(a *Axiom) (rep *FuncReport) {
	rep = &FuncReport{Name: "lemma " + a.name}
	ex := newExec("lemma." + a.name)
	defer func() {
		rep.Obls = ex.obls
		if r := recover(); r != nil {
			if u, ok := r.(unsupported); ok {
				rep.Err = u.msg
			} else {
				rep.Err = fmt.Sprintf("internal: %v", r)
			}
		}
	}()
	st := &State{cells: map[*Cell]Val{}, heap: map[string]*Term{}, pc: tTrue, node: ex.node0}
	env := &SpecEnv{ex: ex, st: st, old: st, vars: map[string]SV{}, freshAlloc: tZero}
	f := env.boolExpr(a.c.e)
	if a.ind == "" {
		ex.obligation(st, f, "lemma "+a.name, "")
		return
	}
	// induction on an integer variable v >= 0 of the outer quantifier
	if f.op != "forall" {
		panic(unsupp("induction lemma must be a forall"))
	}
	var v *Term
	for _, b := range f.bound {
		if strings.HasPrefix(b.name, a.ind+"?") {
			v = b
		}
	}
	if v == nil {
		panic(unsupp("induction variable %s not found", a.ind))
	}
	n := fresh("ind."+a.ind, SInt)
	var rest []*Term
	m0, m1, m2 := map[*Term]*Term{v: tZero}, map[*Term]*Term{v: n}, map[*Term]*Term{v: add(n, tOne)}
	for _, b := range f.bound {
		if b != v {
			rest = append(rest, b)
		}
	}
	sub := func(m map[*Term]*Term) *Term {
		var trs [][]*Term
		for _, g := range f.trigs {
			var ng []*Term
			for _, x := range g {
				ng = append(ng, subst(x, m))
			}
			trs = append(trs, ng)
		}
		return quant("forall", rest, trs, subst(f.args[0], m))
	}
	ex.obligation(st, sub(m0), "lemma "+a.name+" base case", "")
	ex.assume(st, le(tZero, n), "induction")
	ex.assume(st, sub(m1), "induction hypothesis")
	ex.obligation(st, sub(m2), "lemma "+a.name+" step case", "")
	// negative values: the lemma must not be claimed there
	neg := fresh("neg", SInt)
	ex.obligation(st, implies(lt(neg, tZero), sub(map[*Term]*Term{v: neg})), "lemma "+a.name+" negative case", "")
	return
}

var specAxioms []specAx

type specAx struct {
	a *Axiom
	f *Term
}

func buildSpecAxioms() error {
	var err error
	func() {
		defer func() {
			if r := recover(); r != nil {
				err = fmt.Errorf("%v", r)
			}
		}()
		for _, a := range axioms {
			ex := newExec("axiom")
			ex.pure = 1
			st := &State{cells: map[*Cell]Val{}, heap: map[string]*Term{}, pc: tTrue, node: ex.node0}
			env := &SpecEnv{ex: ex, st: st, old: st, vars: map[string]SV{}, freshAlloc: tZero}
			specAxioms = append(specAxioms, specAx{a, env.boolExpr(a.c.e)})
		}
	}()
	return err
}

// query assembles the SMT query of an obligation.
func (o *Obl) query(fwd bool) string {
	ex := o.ex
	anc := o.node.ancestors()
	var as []*Term
	var cm []string
	for i := 0; i < o.prefix; i++ {
		a := ex.assumps[i]
		if anc[a.node.id] && (fwd || !a.fwd) && (a.until == 0 || o.prefix < a.until) && a.f != tTrue {
			as = append(as, a.f)
			cm = append(cm, a.comment)
		}
	}
	as = append(as, o.pc)
	cm = append(cm, "path")
	as = append(as, not(o.goal))
	cm = append(cm, "negated goal: "+o.name)
	for _, h := range o.hints { // ground occurrences for the triggers, no information
		if h.op == "const" || h.op == "true" || h.op == "false" || h.op == "int" {
			continue
		}
		// under a free predicate: an equation with a free constant would be eliminated
		as = append(as, app("hint."+sanitize(h.sort.Name), SBool, h))
		cm = append(cm, "trigger term")
	}
	// axioms by symbol closure
	col := newCollector()
	for _, a := range as {
		col.visit(a)
	}
	bg := bgAxioms()
	bgDone := make([]bool, len(bg))
	spDone := make([]bool, len(specAxioms))
	var ax []*Term
	var axc []string
	for changed := true; changed; {
		changed = false
		for i, b := range bg {
			if bgDone[i] {
				continue
			}
			ok := true
			for _, n := range b.need {
				if !col.ufs[n] {
					ok = false
				}
			}
			if ok {
				bgDone[i] = true
				changed = true
				t := b.mk()
				ax = append(ax, t)
				axc = append(axc, b.name)
				col.visit(t)
			}
		}
		for i, s := range specAxioms {
			if spDone[i] || (ex.contract != nil && ex.contract.hide[s.a.name]) || ex.name == "lemma."+s.a.name || (strings.HasPrefix(ex.name, "lemma.") && axIndex("lemma."+s.a.name) >= axIndex(ex.name) && s.a.kind == "lemma") {
				continue
			}
			c2 := newCollector()
			c2.visit(s.f)
			ok := true
			for n := range c2.ufs {
				if strings.HasPrefix(n, "spec.") && !col.ufs[n] {
					ok = false
				}
			}
			if !ok {
				// enough: one trigger group's symbols occur
				for _, g := range s.f.trigs {
					c3 := newCollector()
					for _, t := range g {
						c3.visit(t)
					}
					all := true
					for n := range c3.ufs {
						if !col.ufs[n] {
							all = false
						}
					}
					if all {
						ok = true
					}
				}
			}
			if ok {
				spDone[i] = true
				changed = true
				ax = append(ax, s.f)
				axc = append(axc, s.a.kind+" "+s.a.name)
				col.visit(s.f)
			}
		}
	}
	return smtQuery(append(ax, as...), append(axc, cm...), nil)
}

func axIndex(n string) int {
	for i, a := range axioms {
		if "lemma."+a.name == n {
			return i
		}
	}
	return -1
}

// ---------- solving ----------

type solverCfg struct {
	name string
	args func(file string, secs int) []string
	head string
}

const z3Head = "(set-option :smt.auto_config false)\n(set-option :smt.mbqi false)\n"

func z3Args(bin string) func(f string, s int) []string {
	return func(f string, s int) []string { return []string{bin, fmt.Sprintf("-T:%d", s), f} }
}

var solvers = []solverCfg{
	{"z3 5.3.2", z3Args("z3-new"), z3Head + "(set-option :smt.solve_eqs false)\n"},
	{"z3 5.3.2 (phase 0)", z3Args("z3-new"), z3Head + "(set-option :smt.solve_eqs false)\n(set-option :smt.phase_selection 0)\n(set-option :smt.random_seed 7)\n"},
	{"cvc5 1.1.2", func(f string, s int) []string {
		return []string{"cvc5", fmt.Sprintf("--tlimit=%d", s*1000), "--enum-inst-interleave", f}
	}, "(set-logic ALL)\n"},
	{"z3 4.8.12", z3Args("z3"), z3Head},
	{"z3 5.3.2 (solve-eqs)", z3Args("z3-new"), "(set-option :smt.mbqi false)\n"},
}

var workDir string
var solverTimes = map[string]int64{}
var solverMu sync.Mutex
var cacheDir = os.Getenv("VC_CACHE")

func runSolver(ctx context.Context, c solverCfg, q, id string, secs int) (string, string, int64) {
	file := filepath.Join(workDir, fmt.Sprintf("%s.%s.smt2", id, sanitize(c.name)))
	if err := os.WriteFile(file, []byte(c.head+q+"(check-sat)\n"), 0644); err != nil {
		return "error", err.Error(), 0
	}
	args := c.args(file, secs)
	t0 := time.Now()
	cmd := exec.CommandContext(ctx, args[0], args[1:]...)
	out, _ := cmd.CombinedOutput()
	ms := time.Since(t0).Milliseconds()
	solverMu.Lock()
	solverTimes[c.name] += ms
	solverMu.Unlock()
	s := strings.TrimSpace(string(out))
	first := s
	if k := strings.IndexByte(s, '\n'); k >= 0 {
		first = s[:k]
	}
	if strings.Contains(s, "error") && first != "unsat" {
		first = "error"
	}
	if strings.Contains(first, "interrupted by timeout") {
		first = "timeout"
	}
	if first == "" {
		first = "timeout"
	}
	return first, s, ms
}

// tryOne runs one solver on one form of an obligation's query, unless it is proved already.
func (o *Obl) tryOne(q string, c solverCfg, secs int) {
	h := sha256.Sum256([]byte(q))
	id := hex.EncodeToString(h[:8])
	o.mu.Lock()
	if o.status == "proved" {
		o.mu.Unlock()
		return
	}
	if o.ctx == nil {
		o.ctx, o.cancel = context.WithCancel(context.Background())
	}
	o.queryID = id
	ctx := o.ctx
	o.mu.Unlock()
	if cacheDir != "" {
		if _, err := os.Stat(filepath.Join(cacheDir, id)); err == nil {
			o.mu.Lock()
			o.status, o.solver = "proved", "cache"
			o.cancel()
			o.mu.Unlock()
			return
		}
	}
	r, out, ms := runSolver(ctx, c, q, id, secs)
	o.mu.Lock()
	defer o.mu.Unlock()
	o.ms += ms
	if o.status == "proved" {
		return
	}
	o.output += c.name + ": " + out + "\n"
	o.status = "failed"
	if r == "unsat" {
		o.status, o.solver, o.queryID = "proved", c.name, id
		o.cancel()
		if cacheDir != "" && !o.sanity {
			os.WriteFile(filepath.Join(cacheDir, id), nil, 0644)
		}
	}
}

func (o *Obl) ok() bool {
	if o.sanity {
		return o.status != "proved"
	}
	return o.status == "proved"
}

// dischargeAll tries every obligation with the first solver, then the open ones with all solvers side by
// side on two forms of the query (with and without the assumptions marked forward), for longer in the
// second pass; early, asked in between, may say that the answer is already known. At most maxLong
// obligations get the second pass: more failures than that are reported as they are.
func dischargeAll(obls []*Obl, first int, pass1, pass2 []int, maxLong int, early func() bool) {
	type job struct {
		o    *Obl
		q    string
		c    solverCfg
		secs int
	}
	run := func(feed func(ch chan<- job)) {
		ch := make(chan job)
		var wg sync.WaitGroup
		for i := 0; i < 8; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for j := range ch {
					j.o.tryOne(j.q, j.c, j.secs)
				}
			}()
		}
		feed(ch)
		close(ch)
		wg.Wait()
	}
	open := func() (rest []*Obl) {
		for _, o := range obls {
			if !o.sanity && o.status != "proved" {
				rest = append(rest, o)
			}
		}
		return
	}
	portfolio := func(rest []*Obl, pass []int) {
		type form struct{ plain, fwd string }
		qs := map[*Obl]form{}
		for _, o := range rest {
			qs[o] = form{o.query(false), o.query(true)} // printing is not concurrency safe: one producer
		}
		run(func(ch chan<- job) {
			for i, n := range pass {
				if n == 0 {
					continue
				}
				for _, o := range rest {
					f := qs[o]
					ch <- job{o, f.plain, solvers[i], n}
					if f.fwd != f.plain {
						ch <- job{o, f.fwd, solvers[i], n}
					}
				}
			}
		})
	}
	run(func(ch chan<- job) {
		for _, o := range obls {
			n := first
			if o.sanity {
				n = 2
			}
			ch <- job{o, o.query(false), solvers[0], n}
		}
	})
	portfolio(open(), pass1)
	if rest := open(); len(rest) > 0 && early != nil && early() {
		return
	} else if len(rest) <= maxLong {
		portfolio(rest, pass2)
	}
}

var _ = types.Typ
