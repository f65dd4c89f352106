package main

import (
	"context"
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

func pow2m1(n int) *Term {
	x := new(big.Int).Lsh(big.NewInt(1), uint(n))
	return bigInt(x.Sub(x, big.NewInt(1)))
}
func pow2(n int) *Term { return bigInt(new(big.Int).Lsh(big.NewInt(1), uint(n))) }

// Val is *Term, *Addr, *Closure, Tuple, *IfaceVal, *RangeIter or *VarSlice
type Val interface{}

type AddrKind int

const (
	ACell  AddrKind = iota
	AHeap           // ref to struct T
	AElem           // slice backing element
	ABasic          // ref to non-struct T
	AGlobal
)

type Addr struct {
	kind AddrKind
	cell *Cell
	ref  *Term // AHeap, ABasic; array ref for AElem
	idx  *Term
	typ  types.Type // type of the root object (struct T, elem type, ...)
	glob string
	path []PathElem
}

type PathElem struct {
	field int   // >=0: struct field
	idx   *Term // array index when field<0
	typ   types.Type
}

func (a *Addr) extend(p PathElem) *Addr {
	b := *a
	b.path = append(append([]PathElem(nil), a.path...), p)
	return &b
}

type Cell struct {
	id    int
	key   string
	name  string
	typ   types.Type
	alloc *ssa.Alloc
	frame string
}

type Closure struct {
	fn       *ssa.Function
	bindings []Val
}

type Tuple []Val

type IfaceVal struct {
	typ types.Type
	val Val
}

type RangeIter struct {
	isMap   bool
	m       *Term // map ref
	mt      *types.Map
	dom0    *Term
	visCell *Cell // cell holding visited set
	cntCell *Cell
	str     *Term
}

type Node struct {
	id    int
	preds []*Node
	anc   map[int]bool
}

func (n *Node) ancestors() map[int]bool {
	if n.anc != nil {
		return n.anc
	}
	m := map[int]bool{n.id: true}
	for _, p := range n.preds {
		for k := range p.ancestors() {
			m[k] = true
		}
	}
	n.anc = m
	return m
}

type State struct {
	cells map[*Cell]Val
	heap  map[string]*Term
	pc    *Term
	node  *Node
}

func (s *State) clone() *State {
	c := &State{cells: make(map[*Cell]Val, len(s.cells)), heap: make(map[string]*Term, len(s.heap)), pc: s.pc, node: s.node}
	for k, v := range s.cells {
		c.cells[k] = v
	}
	for k, v := range s.heap {
		c.heap[k] = v
	}
	return c
}

// ---------- heap components ----------

type Comp struct {
	key  string
	sort *Sort
	kind string // F, A, MD, MV, P, G, S(special)
	typ  types.Type
	mt   *types.Map
	glob *ssa.Global
}

var comps = map[string]*Comp{}

func compField(t types.Type, field int) *Comp {
	st := under(t).(*types.Struct)
	k := "F:" + shortType(t) + "." + st.Field(field).Name()
	if c, ok := comps[k]; ok {
		return c
	}
	c := &Comp{key: k, kind: "F", typ: st.Field(field).Type(), sort: arraySort(SInt, sortOf(st.Field(field).Type()))}
	comps[k] = c
	return c
}

func elemKey(t types.Type) string {
	return shortType(types.Unalias(t))
}

func compElem(t types.Type) *Comp {
	k := "A:" + elemKey(t)
	if c, ok := comps[k]; ok {
		return c
	}
	c := &Comp{key: k, kind: "A", typ: t, sort: arraySort(SInt, arraySort(SInt, sortOf(t)))}
	comps[k] = c
	return c
}

func compPtr(t types.Type) *Comp {
	k := "P:" + elemKey(t)
	if c, ok := comps[k]; ok {
		return c
	}
	c := &Comp{key: k, kind: "P", typ: t, sort: arraySort(SInt, sortOf(t))}
	comps[k] = c
	return c
}

func mapKeyName(m *types.Map) string { return elemKey(m.Key()) + "," + elemKey(m.Elem()) }

func compMD(m *types.Map) *Comp {
	k := "MD:" + mapKeyName(m)
	if c, ok := comps[k]; ok {
		return c
	}
	c := &Comp{key: k, kind: "MD", mt: m, sort: arraySort(SInt, arraySort(sortOf(m.Key()), SBool))}
	comps[k] = c
	return c
}

func compMV(m *types.Map) *Comp {
	k := "MV:" + mapKeyName(m)
	if c, ok := comps[k]; ok {
		return c
	}
	c := &Comp{key: k, kind: "MV", mt: m, sort: arraySort(SInt, arraySort(sortOf(m.Key()), sortOf(m.Elem())))}
	comps[k] = c
	return c
}

func compGlobal(g *ssa.Global) *Comp {
	k := "G:" + g.Pkg.Pkg.Name() + "." + g.Name()
	if c, ok := comps[k]; ok {
		return c
	}
	t := g.Type().(*types.Pointer).Elem()
	c := &Comp{key: k, kind: "G", typ: t, sort: sortOf(t), glob: g}
	comps[k] = c
	return c
}

func compSpecial(name string, s *Sort) *Comp {
	k := "$" + name
	if c, ok := comps[k]; ok {
		return c
	}
	c := &Comp{key: k, kind: "S", sort: s}
	comps[k] = c
	return c
}

var compAlloc = compSpecial("alloc", SInt)
var compOut = compSpecial("out", SInt)        // goroutines started and not yet awaited
var compSig = compSpecial("signalled", SBool) // this goroutine has signalled completion

func (c *Comp) refIndexed() bool {
	return c.kind == "F" || c.kind == "A" || c.kind == "MD" || c.kind == "MV" || c.kind == "P"
}

// ---------- executor ----------

type Assump struct {
	node    *Node
	f       *Term
	comment string
	until   int  // when set: invisible to obligations generated after this many assumptions
	fwd     bool // used only in forward mode: carries terms over old heap versions to new ones
}

type Obl struct {
	node    *Node
	pc      *Term
	goal    *Term
	name    string
	pos     string
	fn      string
	prefix  int // number of assumptions visible
	ex      *Exec
	hints   []*Term
	sanity  bool // must NOT be provable (vacuity guard)
	status  string
	solver  string
	ms      int64
	output  string
	queryID string
	mu      sync.Mutex
	ctx     context.Context // ends when the obligation is proved
	cancel  context.CancelFunc
}

type FrameClause struct { // active modifies-frame
	old    *State
	alloc  *Term
	allows func(c *Comp, ref *Term) (*Term, bool)
	what   string
}

type Exec struct {
	untilLoop map[int][]int // assumptions to leave out from the given loop on
	name      string
	assumps   []Assump
	obls      []*Obl
	init      map[string]*Term
	dry       int
	writes    []*WriteSet
	frames    []*FrameClause
	loops     map[string]*LoopInfo
	loopNum   int
	nodeCtr   int
	cells     map[string]*Cell
	cellCtr   int
	pre       *State
	root      *Frame
	contract  *Contract
	node0     *Node
	safety    bool
	inGo      int
	goWrites  map[string]bool
	goCells   map[*Cell]bool
	goLoops   map[string]bool
	goUsed    bool
	loopStk   []string
	notes     map[string]bool
	inlined   map[string]bool
	calledC   map[string]bool
	depth     int
	pure      int
	oblNames  map[string]int
	letVals   map[string]SV
}

type WriteSet struct {
	cells map[*Cell]bool
	comps map[string]bool
}

func newWriteSet() *WriteSet { return &WriteSet{map[*Cell]bool{}, map[string]bool{}} }

func newExec(name string) *Exec {
	ex := &Exec{name: name, init: map[string]*Term{}, loops: map[string]*LoopInfo{}, cells: map[string]*Cell{},
		notes: map[string]bool{}, inlined: map[string]bool{}, calledC: map[string]bool{}, safety: true, goWrites: map[string]bool{},
		goCells: map[*Cell]bool{}, goLoops: map[string]bool{}, oblNames: map[string]int{}}
	ex.node0 = &Node{id: 0}
	return ex
}

func (ex *Exec) newNode(preds ...*Node) *Node {
	ex.nodeCtr++
	return &Node{id: ex.nodeCtr, preds: preds}
}

func (ex *Exec) cell(frame, key, name string, t types.Type) *Cell {
	k := frame + "/" + key
	if c, ok := ex.cells[k]; ok {
		return c
	}
	ex.cellCtr++
	c := &Cell{id: ex.cellCtr, key: k, name: name, typ: t, frame: frame}
	ex.cells[k] = c
	return c
}

func (ex *Exec) assumeAt(n *Node, pc, f *Term, comment string) {
	if ex.dry > 0 || ex.pure > 0 {
		return
	}
	f = implies(pc, f)
	if f == tTrue {
		return
	}
	ex.addAssump(n, f, comment, false)
}

func (ex *Exec) addAssump(n *Node, f *Term, comment string, fwd bool) {
	ex.assumps = append(ex.assumps, Assump{node: n, f: f, comment: comment, fwd: fwd})
}

func (ex *Exec) assume(st *State, f *Term, comment string) {
	for _, c := range conjuncts(f) {
		ex.assumeAt(st.node, st.pc, c, comment)
	}
}

func (ex *Exec) obligation(st *State, goal *Term, name, pos string) {
	if ex.dry > 0 || ex.pure > 0 {
		return
	}
	for _, g := range splitGoal(goal) {
		if g.f == tTrue {
			continue
		}
		pc := and(st.pc, g.hyp)
		n := name
		ex.oblNames[n]++
		if k := ex.oblNames[n]; k > 1 {
			n = fmt.Sprintf("%s#%d", n, k)
		}
		ex.obls = append(ex.obls, &Obl{node: st.node, pc: pc, goal: g.f, name: n, pos: pos, fn: ex.name, prefix: len(ex.assumps), ex: ex, hints: g.hints})
	}
}

type subgoal struct {
	hyp, f *Term
	hints  []*Term // trigger terms of the goal's quantifiers at the skolem constants
}

func splitGoal(g *Term) []subgoal {
	switch g.op {
	case "and":
		var out []subgoal
		for _, a := range g.args {
			out = append(out, splitGoal(a)...)
		}
		return out
	case "=>":
		var out []subgoal
		for _, s := range splitGoal(g.args[1]) {
			out = append(out, subgoal{and(g.args[0], s.hyp), s.f, s.hints})
		}
		return out
	case "forall":
		// skolemise the goal's universal quantifiers so that implications below split too
		m := map[*Term]*Term{}
		for _, b := range g.bound {
			m[b] = fresh("sk."+strings.Split(b.name, "?")[0], b.sort)
		}
		var hs []*Term
		for _, tr := range g.trigs {
			for _, t := range tr {
				hs = append(hs, subst(t, m))
			}
		}
		out := splitGoal(subst(g.args[0], m))
		for i := range out {
			out[i].hints = append(append([]*Term{}, hs...), out[i].hints...)
		}
		return out
	}
	return []subgoal{{tTrue, g, nil}}
}

func (ex *Exec) note(s string) { ex.notes[s] = true }

// get returns the current term of a component, creating the initial one lazily.
func (ex *Exec) get(st *State, c *Comp) *Term {
	if t, ok := st.heap[c.key]; ok {
		return t
	}
	return ex.initial(c)
}

func (ex *Exec) initial(c *Comp) *Term {
	if t, ok := ex.init[c.key]; ok {
		return t
	}
	t := mkConst(ex.name+"@"+c.key, c.sort)
	if c.kind == "G" && c.glob != nil && !globalWritten(c.glob) {
		if k := initialConst(c.glob); k != nil {
			t = constTerm(k)
		}
	}
	if c == compOut {
		t = tZero
	}
	if c == compSig {
		t = tFalse
	}
	ex.init[c.key] = t
	alloc := ex.initialAlloc()
	for _, f := range compValidity(c, t, alloc) {
		ex.addAssump(ex.node0, f, "type validity of "+c.key, false)
	}
	if c.kind == "MV" {
		ex.addAssump(ex.node0, canonMap(c.mt, ex.initial(compMD(c.mt)), t), "absent keys read as zero "+c.key, false)
	}
	return t
}

func (ex *Exec) initialAlloc() *Term {
	if t, ok := ex.init[compAlloc.key]; ok {
		return t
	}
	t := mkConst(ex.name+"@$alloc", SInt)
	ex.init[compAlloc.key] = t
	ex.addAssump(ex.node0, le(tZero, t), "alloc", false)
	return t
}

// compValidity: facts Go's runtime guarantees about every cell of a component.
func compValidity(c *Comp, t, alloc *Term) []*Term {
	r := boundVar("r", 0, SInt)
	var out []*Term
	switch c.kind {
	case "F", "P":
		v := sel(t, r)
		for _, f := range typeValid(c.typ, v, alloc) {
			out = append(out, f)
		}
		if len(out) > 0 {
			return []*Term{forall([]*Term{r}, [][]*Term{{v}}, and(out...))}
		}
	case "A":
		i := boundVar("i", 1, SInt)
		v := sel(sel(t, r), i)
		for _, f := range typeValid(c.typ, v, alloc) {
			out = append(out, f)
		}
		if len(out) > 0 {
			return []*Term{forall([]*Term{r, i}, [][]*Term{{v}}, and(out...))}
		}
	case "MV":
		// canonical content is added by initial()/havoc
		k := boundVar("k", 1, sortOf(c.mt.Key()))
		v := sel(sel(t, r), k)
		for _, f := range typeValid(c.mt.Elem(), v, alloc) {
			out = append(out, f)
		}
		if len(out) > 0 {
			return []*Term{forall([]*Term{r, k}, [][]*Term{{v}}, and(out...))}
		}
	case "MD":
		k := boundVar("k", 1, sortOf(c.mt.Key()))
		v := sel(sel(t, tZero), k)
		out := []*Term{forall([]*Term{k}, [][]*Term{{v}}, not(v))}
		vk := sel(sel(t, r), k)
		if kv := typeValid(c.mt.Key(), k, alloc); len(kv) > 0 {
			out = append(out, forall([]*Term{r, k}, [][]*Term{{vk}}, implies(vk, and(kv...))))
		}
		return out
	case "G":
		return typeValid(c.typ, t, alloc)
	}
	return out
}

// canonMap: absent keys hold the zero value (needed when reading m[k] without ok).
func canonMap(mt *types.Map, md, mv *Term) *Term {
	r := boundVar("r", 0, SInt)
	k := boundVar("k", 1, sortOf(mt.Key()))
	v := sel(sel(mv, r), k)
	return forall([]*Term{r, k}, [][]*Term{{v}}, implies(not(sel(sel(md, r), k)), eq(v, zeroTerm(mt.Elem()))))
}

func (ex *Exec) recordComp(c *Comp) {
	for _, w := range ex.writes {
		w.comps[c.key] = true
	}
}

func (ex *Exec) recordCell(c *Cell) {
	for _, w := range ex.writes {
		w.cells[c] = true
	}
}

// set replaces a component's value with a named constant.
func (ex *Exec) set(st *State, c *Comp, v *Term) {
	ex.recordComp(c)
	if ex.dry == 0 && ex.pure == 0 && c.sort.K != nil && v.op == "store" {
		n := fresh(c.key, c.sort)
		n.def = v
		ex.addAssump(st.node, eq0(n, v), "update "+c.key, false)
		ex.forward(st, c, n, v)
		v = n
	}
	st.heap[c.key] = v
}

// forward restates an update n = store(base, ref, row) so that matching proceeds from terms over the
// old heap to the new one. The formulas follow from the update; they only add triggers.
func (ex *Exec) forward(st *State, c *Comp, n, v *Term) {
	base, ref, row := v.args[0], v.args[1], v.args[2]
	r := boundVar("r", 0, c.sort.K)
	if t := sel(base, r); t.op == "select" {
		ex.addAssump(st.node, forall([]*Term{r}, [][]*Term{{t}}, or(eq(r, ref), eq0(mk("select", "", c.sort.V, n, r), t))), "forward", true)
	}
	if row.op == "store" && row.sort.K != nil {
		x, idx := row.args[0], row.args[1]
		i := boundVar("i", 0, row.sort.K)
		if t := sel(x, i); t.op == "select" {
			ex.addAssump(st.node, forall([]*Term{i}, [][]*Term{{t}}, or(eq(i, idx), eq0(mk("select", "", row.sort.V, mk("select", "", c.sort.V, n, ref), i), t))), "forward", true)
		}
	}
}

// eq0 is an equality that is not simplified through definitions
func eq0(a, b *Term) *Term { return mk("=", "", SBool, a, b) }

// checkWrite emits the frame obligations of a store.
func (ex *Exec) checkWrite(st *State, c *Comp, ref *Term, extra *Term, pos string) {
	if ex.dry > 0 || ex.pure > 0 {
		return
	}
	for _, f := range ex.frames {
		fr := lt(f.alloc, ref)
		if fr == tTrue {
			continue
		}
		al, _ := f.allows(c, ref)
		ex.obligation(st, or(fr, al, not(extra)), "modifies("+f.what+") "+c.key, pos)
	}
	if ex.inGo > 0 {
		ex.obligation(st, not(ex.get(st, compSig)), "goroutine writes "+c.key+" before signalling completion", pos)
	}
}

func (ex *Exec) mergeStates(ins []*State, what string) *State {
	if len(ins) == 1 {
		s := ins[0].clone()
		s.node = ex.newNode(ins[0].node)
		return s
	}
	var nodes []*Node
	var pcs []*Term
	for _, s := range ins {
		nodes = append(nodes, s.node)
		pcs = append(pcs, s.pc)
	}
	n := ex.newNode(nodes...)
	pc := or(pcs...)
	if pc.op == "or" || (pc.op == "and" && len(pc.args) > 6) {
		b := fresh("pc", SBool)
		ex.assumeAt(n, tTrue, eq0(b, pc), "path condition "+what)
		if ex.dry > 0 || ex.pure > 0 {
			b = pc
		}
		pc = b
	}
	out := &State{cells: map[*Cell]Val{}, heap: map[string]*Term{}, pc: pc, node: n}
	// cells
	seen := map[*Cell]bool{}
	var cs []*Cell
	for _, s := range ins {
		for c := range s.cells {
			if !seen[c] {
				seen[c] = true
				cs = append(cs, c)
			}
		}
	}
	sort.Slice(cs, func(i, j int) bool { return cs[i].id < cs[j].id })
	for _, c := range cs {
		var vals []Val
		var conds []*Term
		for i, s := range ins {
			if v, ok := s.cells[c]; ok {
				vals = append(vals, v)
				conds = append(conds, pcs[i])
			}
		}
		out.cells[c] = ex.mergeVals(out, vals, conds, c.name)
	}
	hk := map[string]bool{}
	for _, s := range ins {
		for k := range s.heap {
			hk[k] = true
		}
	}
	for _, k := range sortedKeys(hk) {
		c := comps[k]
		same := true
		var vs []*Term
		for _, s := range ins {
			vs = append(vs, ex.get(s, c))
		}
		for _, v := range vs {
			if v != vs[0] {
				same = false
			}
		}
		if same {
			out.heap[k] = vs[0]
			continue
		}
		if (c.sort.K != nil || c == compAlloc) && ex.pure == 0 {
			m := fresh(k+".m", c.sort)
			for i, v := range vs {
				ex.assumeAt(n, pcs[i], eq0(m, v), "merge "+k)
			}
			out.heap[k] = m
		} else {
			out.heap[k] = mergeTerms(vs, pcs)
		}
	}
	return out
}

// mergeNamed merges scalars; values that would become if-then-else terms are named, so that
// they can occur in quantifier patterns.
func (ex *Exec) mergeNamed(st *State, ts []*Term, conds []*Term, what string) *Term {
	if ts[0].sort == SBool || ex.pure > 0 {
		return mergeTerms(ts, conds)
	}
	same := true
	for _, t := range ts {
		if t != ts[0] {
			same = false
		}
	}
	if same {
		return ts[0]
	}
	if ts[0].sort.DT != nil {
		var args []*Term
		for i := range ts[0].sort.DT.Fields {
			var fs []*Term
			for _, t := range ts {
				fs = append(fs, dsel(t, i))
			}
			args = append(args, ex.mergeNamed(st, fs, conds, what))
		}
		return mkDT(ts[0].sort, args...)
	}
	m := fresh(what+".m", ts[0].sort)
	for i, v := range ts {
		ex.assumeAt(st.node, conds[i], eq0(m, v), "merge "+what)
	}
	return m
}

func mergeTerms(vs []*Term, conds []*Term) *Term {
	r := vs[len(vs)-1]
	for i := len(vs) - 2; i >= 0; i-- {
		r = ite(conds[i], vs[i], r)
	}
	return r
}

func (ex *Exec) mergeVals(st *State, vals []Val, conds []*Term, what string) Val {
	same := true
	for _, v := range vals {
		if !sameVal(v, vals[0]) {
			same = false
		}
	}
	if same {
		return vals[0]
	}
	var ts []*Term
	for _, v := range vals {
		t, ok := ex.tryTerm(v)
		if !ok {
			ts = nil
			break
		}
		ts = append(ts, t)
	}
	if ts != nil {
		if ts[0].sort.K != nil {
			m := fresh(what+".m", ts[0].sort)
			for i, v := range ts {
				ex.assumeAt(st.node, conds[i], eq0(m, v), "merge "+what)
			}
			if ex.pure > 0 {
				return mergeTerms(ts, conds)
			}
			return m
		}
		return ex.mergeNamed(st, ts, conds, what)
	}
	if a, ok := vals[0].(*Addr); ok {
		refs := []*Term{}
		idxs := []*Term{}
		for _, v := range vals {
			b, ok := v.(*Addr)
			if !ok || b.kind != a.kind || b.cell != a.cell || len(b.path) != len(a.path) || len(a.path) != 0 || a.kind == AGlobal || a.kind == ACell {
				return &Poison{"merge of different addresses for " + what}
			}
			refs = append(refs, b.ref)
			idxs = append(idxs, b.idx)
		}
		n := *a
		n.ref = mergeTerms(refs, conds)
		if a.idx != nil {
			n.idx = mergeTerms(idxs, conds)
		}
		return &n
	}
	return &Poison{"merge of incompatible values for " + what}
}

type Poison struct{ why string }

func sameVal(a, b Val) bool {
	if a == b {
		return true
	}
	switch x := a.(type) {
	case *Addr:
		y, ok := b.(*Addr)
		if !ok || x.kind != y.kind || x.cell != y.cell || x.ref != y.ref || x.idx != y.idx || x.glob != y.glob || len(x.path) != len(y.path) {
			return false
		}
		for i := range x.path {
			if x.path[i].field != y.path[i].field || x.path[i].idx != y.path[i].idx {
				return false
			}
		}
		return true
	case *Closure:
		y, ok := b.(*Closure)
		if !ok || x.fn != y.fn || len(x.bindings) != len(y.bindings) {
			return false
		}
		for i := range x.bindings {
			if !sameVal(x.bindings[i], y.bindings[i]) {
				return false
			}
		}
		return true
	case Tuple:
		y, ok := b.(Tuple)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !sameVal(x[i], y[i]) {
				return false
			}
		}
		return true
	case *IfaceVal:
		y, ok := b.(*IfaceVal)
		return ok && types.Identical(x.typ, y.typ) && sameVal(x.val, y.val)
	}
	return false
}

// tryTerm converts a value to an SMT term when it has one.
func (ex *Exec) tryTerm(v Val) (*Term, bool) {
	switch x := v.(type) {
	case *Term:
		return x, true
	case *Addr:
		if (x.kind == AHeap || x.kind == ABasic) && len(x.path) == 0 {
			return x.ref, true
		}
		if x.kind == AElem && len(x.path) == 0 {
			return nil, false
		}
	case *Closure:
		if x.fn != nil && len(x.bindings) == 0 {
			return mkConst("func."+fnName(x.fn), SInt), true
		}
	case *IfaceVal:
		if t, ok := ex.tryTerm(x.val); ok {
			return app("ifc.of."+sanitize(shortType(x.typ)), SIfc, t), true
		}
	}
	return nil, false
}

func (ex *Exec) term(v Val) *Term {
	t, ok := ex.tryTerm(v)
	if !ok {
		if p, isP := v.(*Poison); isP {
			panic(unsupp("%s", p.why))
		}
		panic(unsupp("value %T has no term representation", v))
	}
	return t
}
