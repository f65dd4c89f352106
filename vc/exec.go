package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Frame struct {
	fn       *ssa.Function
	ex       *Exec
	parent   *Frame
	path     string
	env      map[ssa.Value]Val
	bind     []Val // free variable bindings
	params   []Val
	in       map[*ssa.BasicBlock][]*edgeState
	rets     []retState
	named    map[string][]*Cell // local variables by name, in creation order
	allocOf  map[*Cell]*ssa.Alloc
	loopsOf  map[*ssa.BasicBlock]*Loop
	rpo      []*ssa.BasicBlock
	curInstr string
	callN    int
	spec     *Contract // contract/loop spec attached to this function (may be nil)
	curLoop  []*LoopCtx
}

type edgeState struct {
	from *ssa.BasicBlock
	st   *State
}

type retState struct {
	st   *State
	vals []Val
	pos  string
}

type Loop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

// LoopInfo caches what a loop modifies.
type LoopInfo struct {
	num    int
	owner  string
	cells  []*Cell
	comps  []string
	ready  bool
	indCel map[*Cell]int64
	indCmp map[string]int64
}

type LoopCtx struct {
	info  *LoopInfo
	key   string
	entry *State // state at loop entry
	head  *State // state at the start of an arbitrary iteration
	iter  *Cell  // ghost iteration counter
	spec  *LoopSpec
	rng   *RangeIter
	fr    *Frame
}

func (f *Frame) pos(p token.Pos) string {
	if !p.IsValid() {
		return fnName(f.fn)
	}
	q := prog.fset.Position(p)
	fn := q.Filename
	if i := strings.LastIndex(fn, "/"); i >= 0 {
		fn = fn[i+1:]
	}
	return fmt.Sprintf("%s:%d", fn, q.Line)
}

// ---------- loops ----------

func findLoops(fn *ssa.Function) map[*ssa.BasicBlock]*Loop {
	loops := map[*ssa.BasicBlock]*Loop{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := loops[s]
				if l == nil {
					l = &Loop{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					loops[s] = l
				}
				// natural loop
				var stack []*ssa.BasicBlock
				if !l.blocks[b] {
					l.blocks[b] = true
					stack = append(stack, b)
				}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					for _, p := range x.Preds {
						if !l.blocks[p] {
							l.blocks[p] = true
							stack = append(stack, p)
						}
					}
				}
			}
		}
	}
	return loops
}

// rpo orders blocks so that loop bodies come before loop exits and source order is kept.
func rpoOrder(fn *ssa.Function, loops map[*ssa.BasicBlock]*Loop) []*ssa.BasicBlock {
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	inner := func(b *ssa.BasicBlock) int { // loop nesting depth
		n := 0
		for _, l := range loops {
			if l.blocks[b] {
				n++
			}
		}
		return n
	}
	var visit func(b *ssa.BasicBlock)
	visit = func(b *ssa.BasicBlock) {
		if seen[b] {
			return
		}
		seen[b] = true
		ss := append([]*ssa.BasicBlock(nil), b.Succs...)
		// visit loop exits first so they come last in reverse post-order;
		// otherwise later source blocks first
		sort.SliceStable(ss, func(i, j int) bool {
			di, dj := inner(ss[i]), inner(ss[j])
			if di != dj {
				return di < dj
			}
			return ss[i].Index > ss[j].Index
		})
		for _, s := range ss {
			visit(s)
		}
		post = append(post, b)
	}
	visit(fn.Blocks[0])
	for i, j := 0, len(post)-1; i < j; i, j = i+1, j-1 {
		post[i], post[j] = post[j], post[i]
	}
	return post
}

// ---------- running a function body ----------

const maxInlineDepth = 24

// runBody executes fn and returns the merged exit state and results.
// When atRet is non-nil it is called at each return instead (root function).
func (ex *Exec) runBody(fn *ssa.Function, parent *Frame, path string, st *State, args []Val, bind []Val, onFrame func(*Frame)) (*Frame, []retState) {
	if len(fn.Blocks) == 0 {
		panic(unsupp("no body for %s", fnName(fn)))
	}
	f := &Frame{fn: fn, ex: ex, parent: parent, path: path, env: map[ssa.Value]Val{}, bind: bind, params: args,
		in: map[*ssa.BasicBlock][]*edgeState{}, named: map[string][]*Cell{}, allocOf: map[*Cell]*ssa.Alloc{}}
	if fn.Recover != nil {
		panic(unsupp("recover in %s", fnName(fn)))
	}
	for i, p := range fn.Params {
		f.env[p] = args[i]
	}
	for i, fv := range fn.FreeVars {
		f.env[fv] = bind[i]
	}
	f.loopsOf = findLoops(fn)
	f.rpo = rpoOrder(fn, f.loopsOf)
	f.spec = loopSpecFor(fn)
	if onFrame != nil {
		onFrame(f)
	}
	f.in[fn.Blocks[0]] = []*edgeState{{nil, st}}
	all := map[*ssa.BasicBlock]bool{}
	for _, b := range fn.Blocks {
		all[b] = true
	}
	f.region(all, nil)
	return f, f.rets
}

// region processes the blocks of a set in order; start (a loop header) is treated as a plain block.
func (f *Frame) region(set map[*ssa.BasicBlock]bool, start *ssa.BasicBlock) {
	done := map[*ssa.BasicBlock]bool{}
	for _, b := range f.rpo {
		if !set[b] || done[b] {
			continue
		}
		if l := f.loopsOf[b]; l != nil && b != start {
			if len(f.in[b]) > 0 {
				f.loop(l)
			}
			for x := range l.blocks {
				done[x] = true
			}
			continue
		}
		done[b] = true
		ins := f.in[b]
		if len(ins) == 0 {
			continue
		}
		f.block(b, ins)
	}
}

func (f *Frame) block(b *ssa.BasicBlock, ins []*edgeState) {
	f.in[b] = nil
	// phis are evaluated on the incoming edges
	var phis []*ssa.Phi
	for _, in := range b.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			phis = append(phis, p)
		} else {
			break
		}
	}
	var states []*State
	for _, e := range ins {
		states = append(states, e.st)
	}
	var phiVals []Val
	for _, p := range phis {
		var vs []Val
		var cs []*Term
		for _, e := range ins {
			for i, pr := range b.Preds {
				if pr == e.from {
					vs = append(vs, f.val(p.Edges[i]))
					cs = append(cs, e.st.pc)
					break
				}
			}
		}
		if len(vs) == 0 {
			panic(unsupp("phi without edges"))
		}
		phiVals = append(phiVals, f.ex.mergeVals(states[0], vs, cs, "phi"))
	}
	st := f.ex.mergeStates(states, fmt.Sprintf("%s block %d", fnName(f.fn), b.Index))
	for i, p := range phis {
		f.env[p] = phiVals[i]
	}
	f.instrs(b, st)
}

func (f *Frame) addEdge(from, to *ssa.BasicBlock, st *State) {
	if st.pc == tFalse && f.ex.dry == 0 {
		return
	}
	f.in[to] = append(f.in[to], &edgeState{from, st})
}

func (f *Frame) instrs(b *ssa.BasicBlock, st *State) {
	for ii, in := range b.Instrs {
		f.curInstr = fmt.Sprintf("%d.%d", b.Index, ii)
		switch x := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.Jump:
			f.addEdge(b, b.Succs[0], st)
			return
		case *ssa.If:
			c := f.ex.term(f.val(x.Cond))
			s1, s2 := st.clone(), st.clone()
			s1.pc = and(st.pc, c)
			s2.pc = and(st.pc, not(c))
			f.addEdge(b, b.Succs[0], s1)
			f.addEdge(b, b.Succs[1], s2)
			return
		case *ssa.Return:
			var vs []Val
			for _, r := range x.Results {
				vs = append(vs, f.val(r))
			}
			f.rets = append(f.rets, retState{st, vs, f.pos(x.Pos())})
			return
		case *ssa.Panic:
			if f.ex.safety {
				f.ex.obligation(st, tFalse, "unreachable panic", f.pos(x.Pos()))
			}
			return
		default:
			st = f.instr(in, st)
			if st == nil {
				return
			}
		}
	}
}

// ---------- loops ----------

func (f *Frame) loop(l *Loop) {
	ex := f.ex
	key := fmt.Sprintf("%s#%d", f.path, l.header.Index)
	ins := f.in[l.header]
	f.in[l.header] = nil
	var states []*State
	for _, e := range ins {
		states = append(states, e.st)
	}
	entry := ex.mergeStates(states, "loop entry")
	info := ex.loops[key]
	if info == nil {
		info = &LoopInfo{}
		ex.loops[key] = info
		info.owner, info.num = f.loopNumber()
	}
	ctx := &LoopCtx{info: info, key: key, entry: entry, fr: f}
	ctx.spec = f.loopSpec(info)
	iter := ex.cell(f.path, fmt.Sprintf("$i#%d", l.header.Index), "$i", types.Typ[types.Int])
	ctx.iter = iter
	entry.cells[iter] = tZero
	ex.loopStk = append(ex.loopStk, key)
	f.curLoop = append(f.curLoop, ctx)
	defer func() {
		ex.loopStk = ex.loopStk[:len(ex.loopStk)-1]
		f.curLoop = f.curLoop[:len(f.curLoop)-1]
	}()

	runBody := func(st *State) []*State { // returns the back-edge states
		f.in[l.header] = []*edgeState{{nil, st}}
		// header may contain phis only for short-circuit values, never loop-carried in naive form
		f.region(l.blocks, l.header)
		var back []*State
		for _, e := range f.in[l.header] {
			back = append(back, e.st)
		}
		f.in[l.header] = nil
		if ctx.spec != nil && len(ctx.spec.sets) > 0 && ex.contract != nil && f.spec == ex.contract {
			for _, b := range back {
				bs := b.clone()
				bs.cells[iter] = add(bs.cells[iter].(*Term), tOne)
				for _, x := range ctx.spec.sets {
					c := ghostComp(ex.contract, x.name)
					v := fresh(c.key, c.sort)
					if ex.dry == 0 {
						v = f.loopEnv(bs, ctx).eval(x.e).t
						if v.sort.Name != c.sort.Name {
							panic(unsupp("spec: set %s: value of sort %s", x.name, v.sort.Name))
						}
					}
					ex.set(b, c, v)
					bs.heap[c.key] = b.heap[c.key]
				}
			}
		}
		return back
	}
	saveOut := func() map[*ssa.BasicBlock][]*edgeState {
		m := map[*ssa.BasicBlock][]*edgeState{}
		for b, e := range f.in {
			m[b] = append([]*edgeState(nil), e...)
		}
		return m
	}
	if !info.ready {
		// dry run 1: what is written?
		ex.dry++
		ws := newWriteSet()
		ex.writes = append(ex.writes, ws)
		saved, nret := saveOut(), len(f.rets)
		back := runBody(entry.clone())
		_ = back
		f.in, f.rets = saved, f.rets[:nret]
		for c := range ws.cells {
			if _, ok := entry.cells[c]; ok && c != iter {
				info.cells = append(info.cells, c)
			}
		}
		sort.Slice(info.cells, func(i, j int) bool { return info.cells[i].id < info.cells[j].id })
		info.comps = sortedKeys(ws.comps)
		ex.writes = ex.writes[:len(ex.writes)-1]
		// dry run 2: induction variables, from a havoced state
		info.indCel, info.indCmp = map[*Cell]int64{}, map[string]int64{}
		h := ex.havocLoop(entry, info, ctx)
		ws2 := newWriteSet()
		ex.writes = append(ex.writes, ws2)
		saved, nret = saveOut(), len(f.rets)
		start := h.clone()
		back = runBody(h)
		f.in, f.rets = saved, f.rets[:nret]
		ex.writes = ex.writes[:len(ex.writes)-1]
		ex.dry--
		delta := func(a, b *Term) (int64, bool) {
			if a.sort != SInt || b.sort != SInt {
				return 0, false
			}
			d := sub(b, a)
			if isInt(d) && d.n.IsInt64() {
				return d.n.Int64(), true
			}
			return 0, false
		}
		var keep []*Cell
		for _, c := range info.cells {
			unchanged, ind, first := true, true, true
			var step int64
			s0 := start.cells[c]
			for _, b := range back {
				v := b.cells[c]
				if !sameVal(v, s0) {
					unchanged = false
				}
				t0, ok0 := s0.(*Term)
				t1, ok1 := v.(*Term)
				if ok0 && ok1 {
					d, ok := delta(t0, t1)
					if !ok || (!first && d != step) {
						ind = false
					}
					step = d
				} else {
					ind = false
				}
				first = false
			}
			if len(back) > 0 && unchanged {
				continue
			}
			if len(back) > 0 && ind && isSigned64(c.typ) {
				info.indCel[c] = step
			}
			keep = append(keep, c)
		}
		info.cells = keep
		for _, k := range info.comps {
			if comps[k].sort != SInt || k == compAlloc.key {
				continue
			}
			ind, first := true, true
			var step int64
			for _, b := range back {
				d, ok := delta(ex.get(start, comps[k]), ex.get(b, comps[k]))
				if !ok || (!first && d != step) {
					ind = false
				}
				step = d
				first = false
			}
			if len(back) > 0 && ind {
				info.indCmp[k] = step
			}
		}
		info.ready = true
	}
	// writes of this loop belong to enclosing write sets as well (dry body records them itself)

	pos := f.pos(loopPos(l))
	lname := fmt.Sprintf("%s loop %d", info.owner, info.num)
	// intermediate assertions, then invariants on entry
	if ctx.spec != nil {
		for i, a := range ctx.spec.asserts {
			ex.obligation(entry, f.specBool(a.e, entry, ctx), fmt.Sprintf("%s assertion %d (%s)", lname, i+1, a.label()), pos)
			ex.assume(entry, f.specBool(a.e, entry, ctx), lname+" assertion "+a.label())
		}
		for i, inv := range ctx.spec.invs {
			g := f.specBool(inv.e, entry, ctx)
			ex.obligation(entry, g, fmt.Sprintf("%s invariant %d (%s) on entry", lname, i+1, inv.label()), pos)
		}
	}
	if f.spec != nil && f.spec == ex.contract && ex.dry == 0 && ex.untilLoop[ctx.info.num] != nil {
		ex.addAssump(ex.node0, tTrue, "", false)
		for _, n := range ex.untilLoop[ctx.info.num] {
			ex.assumps[n].until = len(ex.assumps)
		}
		delete(ex.untilLoop, ctx.info.num)
	}
	var locals []int // assumptions that stay inside the loop
	head := ex.havocLoop(entry, info, ctx)
	// automatic facts
	it := head.cells[iter].(*Term)
	ex.assume(head, le(tZero, it), "iteration count")
	for _, c := range info.cells {
		if s, ok := info.indCel[c]; ok {
			ex.assume(head, eq0(head.cells[c].(*Term), add(entry.cells[c].(*Term), mul(intT(s), it))), "induction variable "+c.name)
		}
	}
	for _, k := range sortedKeys(info.indCmp) {
		ex.assume(head, eq0(head.heap[k], add(ex.get(entry, comps[k]), mul(intT(info.indCmp[k]), it))), "induction "+k)
	}
	f.boundFact(l, entry, head, info)
	if ctx.spec != nil {
		for _, inv := range ctx.spec.invs {
			n := len(ex.assumps)
			ex.assume(head, f.specBool(inv.e, head, ctx), lname+" invariant "+inv.label())
			if f.spec == ex.contract {
				ex.dropAt(inv.until, n)
			}
			if inv.local {
				for ; n < len(ex.assumps); n++ {
					locals = append(locals, n)
				}
			}
		}
	}
	// loop frame
	pushed := false
	if ctx.spec != nil && ctx.spec.mods != nil {
		fc := f.loopFrame(ctx)
		ex.assumeFrame(entry, head, info.comps, fc)
		ex.frames = append(ex.frames, fc)
		pushed = true
	}
	for _, fc := range ex.frames {
		if fc.what != "" && (!pushed || fc != ex.frames[len(ex.frames)-1]) {
			ex.assumeFrameOuter(head, info.comps, fc)
		}
	}
	ctx.head = head.clone()
	back := runBody(head)
	if pushed {
		ex.frames = ex.frames[:len(ex.frames)-1]
	}
	for _, b := range back {
		bs := b.clone()
		bs.cells[iter] = add(bs.cells[iter].(*Term), tOne)
		if ctx.spec != nil {
			for i, a := range ctx.spec.steps {
				g := f.specBool(a.e, bs, ctx)
				ex.obligation(bs, g, fmt.Sprintf("%s step %d (%s)", lname, i+1, a.label()), pos)
				n := len(ex.assumps)
				ex.assume(bs, g, lname+" step "+a.label())
				for ; n < len(ex.assumps); n++ {
					locals = append(locals, n)
				}
			}
			for i, inv := range ctx.spec.invs {
				g := f.specBool(inv.e, bs, ctx)
				ex.obligation(bs, g, fmt.Sprintf("%s invariant %d (%s) preserved", lname, i+1, inv.label()), pos)
			}
		}
	}
	ex.addAssump(ex.node0, tTrue, "", false) // separates later obligations from those of the loop
	for _, n := range locals {
		ex.assumps[n].until = len(ex.assumps)
	}
}

func isSigned64(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := under(t).(*types.Basic)
	return ok && (b.Kind() == types.Int || b.Kind() == types.Int64)
}

func loopPos(l *Loop) token.Pos {
	best := token.NoPos
	for b := range l.blocks {
		for _, in := range b.Instrs {
			if p := in.Pos(); p.IsValid() && (best == token.NoPos || p < best) {
				best = p
			}
		}
	}
	return best
}

// loopNumber gives the loop's owner (contract whose loop specs apply) and ordinal there.
func (f *Frame) loopNumber() (string, int) {
	for fr := f; fr != nil; fr = fr.parent {
		if fr.spec != nil || fr.parent == nil {
			fr.callN++
			return fnName(fr.fn), fr.callN
		}
	}
	return "?", 0
}

func (f *Frame) loopSpec(info *LoopInfo) *LoopSpec {
	for fr := f; fr != nil; fr = fr.parent {
		if fr.spec != nil {
			return fr.spec.loops[info.num]
		}
	}
	return nil
}

// boundFact recognises "for i < n" headers with unit steps: i never exceeds max(i0, n).
func (f *Frame) boundFact(l *Loop, entry, head *State, info *LoopInfo) {
	ex := f.ex
	h := l.header
	iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return
	}
	cmp, ok := iff.Cond.(*ssa.BinOp)
	if !ok || (cmp.Op != token.LSS && cmp.Op != token.LEQ && cmp.Op != token.GTR && cmp.Op != token.GEQ) {
		return
	}
	// body on the true branch
	if !l.blocks[h.Succs[0]] || l.blocks[h.Succs[1]] {
		return
	}
	// X must be a load of an induction cell, possibly +1 done in the header (range index)
	var c *Cell
	pre := int64(0)
	x := cmp.X
	if bo, ok := x.(*ssa.BinOp); ok && bo.Op == token.ADD && bo.Block() == h {
		if k, ok := bo.Y.(*ssa.Const); ok && k.Value != nil && constant.Sign(k.Value) > 0 {
			if v, ok := constant.Int64Val(k.Value); ok && v == 1 {
				pre = 1
				x = bo.X
			}
		}
	}
	ld, ok := x.(*ssa.UnOp)
	if !ok || ld.Op != token.MUL {
		return
	}
	a, ok := f.env[ld.X].(*Addr)
	if !ok || a.kind != ACell || len(a.path) > 0 {
		return
	}
	c = a.cell
	step, ok := info.indCel[c]
	if !ok {
		return
	}
	// bound: constant, value defined outside the loop, or load of an unmodified cell
	var n *Term
	switch y := cmp.Y.(type) {
	case *ssa.Const:
		n = constTerm(y)
	default:
		in, isIn := cmp.Y.(ssa.Instruction)
		if !isIn || !l.blocks[in.Block()] {
			t, ok := ex.tryTerm(f.val(cmp.Y))
			if !ok {
				return
			}
			n = t
		} else if u, ok := cmp.Y.(*ssa.UnOp); ok && u.Op == token.MUL {
			b, ok := f.env[u.X].(*Addr)
			if !ok || b.kind != ACell || len(b.path) > 0 || !sameVal(entry.cells[b.cell], head.cells[b.cell]) {
				return
			}
			t, ok := entry.cells[b.cell].(*Term)
			if !ok {
				return
			}
			n = t
		} else if call, ok := cmp.Y.(*ssa.Call); ok {
			// len(x) of an unmodified local slice
			bi, ok := call.Call.Value.(*ssa.Builtin)
			if !ok || bi.Name() != "len" {
				return
			}
			u, ok := call.Call.Args[0].(*ssa.UnOp)
			if !ok || u.Op != token.MUL {
				return
			}
			b, ok := f.env[u.X].(*Addr)
			if !ok || b.kind != ACell || len(b.path) > 0 || !sameVal(entry.cells[b.cell], head.cells[b.cell]) {
				return
			}
			t, ok := entry.cells[b.cell].(*Term)
			if !ok || t.sort != SSlc {
				return
			}
			n = dsel(t, 2)
		} else {
			return
		}
	}
	i0, ok := entry.cells[c].(*Term)
	if !ok || n.sort != SInt {
		return
	}
	i := head.cells[c].(*Term)
	mx := func(a, b *Term) *Term { return ite(le(a, b), b, a) }
	switch {
	case step == 1 && cmp.Op == token.LSS:
		ex.assume(head, le(i, mx(i0, sub(n, intT(pre)))), "loop bound of "+c.name)
	case step == 1 && cmp.Op == token.LEQ:
		ex.assume(head, le(i, mx(i0, add(sub(n, intT(pre)), tOne))), "loop bound of "+c.name)
	case step == -1 && pre == 0 && cmp.Op == token.GTR:
		ex.assume(head, le(ite(le(i0, n), i0, n), i), "loop bound of "+c.name)
	case step == -1 && pre == 0 && cmp.Op == token.GEQ:
		ex.assume(head, le(ite(le(i0, sub(n, tOne)), i0, sub(n, tOne)), i), "loop bound of "+c.name)
	}
}

func (ex *Exec) havocLoop(entry *State, info *LoopInfo, ctx *LoopCtx) *State {
	h := entry.clone()
	h.node = ex.newNode(entry.node)
	for _, c := range info.cells {
		v := h.cells[c]
		if t, ok := v.(*Term); ok {
			h.cells[c] = fresh(c.name, t.sort)
			_ = t
			continue
		}
		// non-term cell: only allowed if never read as a term afterwards
		if s, ok := trySort(c.typ); ok {
			h.cells[c] = fresh(c.name, s)
		} else {
			h.cells[c] = &Poison{"loop-modified variable " + c.name + " of type " + c.typ.String()}
		}
	}
	h.cells[ctx.iter] = fresh("$i", SInt)
	ex.recordCell(ctx.iter)
	ex.havocComps(entry, h, info.comps)
	for _, c := range info.cells {
		if t, ok := h.cells[c].(*Term); ok && c.typ != nil {
			for _, v := range typeValid(c.typ, t, ex.get(h, compAlloc)) {
				ex.assume(h, v, "type validity of "+c.name)
			}
		}
	}
	return h
}

func trySort(t types.Type) (s *Sort, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			s, ok = nil, false
		}
	}()
	return sortOf(t), true
}

// havocComps gives components fresh values in st with type validity.
func (ex *Exec) havocComps(old, st *State, keys []string) {
	hasAlloc := false
	for _, k := range keys {
		if k == compAlloc.key {
			hasAlloc = true
		}
	}
	if hasAlloc {
		na := fresh("$alloc", SInt)
		ex.assume(st, le(ex.get(old, compAlloc), na), "alloc grows")
		st.heap[compAlloc.key] = na
	}
	alloc := ex.get(st, compAlloc)
	maps := map[string]*types.Map{}
	for _, k := range keys {
		c := comps[k]
		if c == compAlloc {
			continue
		}
		n := fresh(k, c.sort)
		st.heap[k] = n
		for _, v := range compValidity(c, n, alloc) {
			ex.assume(st, v, "type validity of "+k)
		}
		if c.mt != nil {
			maps[mapKeyName(c.mt)] = c.mt
		}
	}
	for _, k := range sortedKeys(maps) {
		m := maps[k]
		ex.assume(st, canonMap(m, ex.get(st, compMD(m)), ex.get(st, compMV(m))), "absent keys read as zero "+k)
	}
}

// assumeFrame: relative to state 'old', locations not allowed by fc are unchanged in st.
func (ex *Exec) assumeFrame(old, st *State, keys []string, fc *FrameClause) {
	for _, k := range keys {
		c := comps[k]
		if !c.refIndexed() {
			continue
		}
		o, n := ex.get(old, c), ex.get(st, c)
		if o == n {
			continue
		}
		r := boundVar("r", 0, SInt)
		al, _ := fc.allows(c, r)
		body := implies(and(le(r, fc.alloc), not(al)), eq(sel(n, r), sel(o, r)))
		ex.assume(st, forall([]*Term{r}, [][]*Term{{sel(n, r)}}, body), "frame("+fc.what+") "+k)
		if ex.dry == 0 && ex.pure == 0 {
			if t := sel(o, r); t.op == "select" {
				ex.addAssump(st.node, forall([]*Term{r}, [][]*Term{{t}}, body), "forward frame "+k, true)
			}
		}
	}
}

// assumeFrameOuter: relative to the state the outer frame was opened in.
func (ex *Exec) assumeFrameOuter(st *State, keys []string, fc *FrameClause) {
	if fc.old == nil {
		return
	}
	ex.assumeFrame(fc.old, st, keys, fc)
}

func constTerm(c *ssa.Const) *Term {
	if c.Value == nil {
		return zeroTerm(c.Type())
	}
	switch {
	case isStringT(c.Type()):
		return strLit(constant.StringVal(c.Value))
	case isFloatT(c.Type()):
		s := sortOf(c.Type())
		v := constant.ToFloat(c.Value)
		if constant.Sign(v) == 0 {
			return zeroTerm(c.Type())
		}
		if iv := constant.ToInt(c.Value); iv.Kind() == constant.Int {
			n, _ := new(big.Int).SetString(iv.ExactString(), 10)
			return app("i2f."+s.Name, s, bigInt(n))
		}
		return mkConst("flt."+s.Name+"."+sanitize(v.ExactString()), s)
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return boolT(constant.BoolVal(c.Value))
	case constant.Int:
		n, _ := new(big.Int).SetString(c.Value.ExactString(), 10)
		return bigInt(n)
	case constant.Float:
		iv := constant.ToInt(c.Value)
		if iv.Kind() == constant.Int {
			n, _ := new(big.Int).SetString(iv.ExactString(), 10)
			return bigInt(n)
		}
	}
	panic(unsupp("constant %s", c.String()))
}

func (f *Frame) val(v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		if _, ok := under(x.Type()).(*types.Signature); ok {
			return tZero
		}
		if _, ok := under(x.Type()).(*types.Interface); ok && x.Value == nil {
			return zeroTerm(x.Type())
		}
		return constTerm(x)
	case *ssa.Function:
		return &Closure{fn: x}
	case *ssa.Global:
		return &Addr{kind: AGlobal, glob: compGlobal(x).key, typ: x.Type().(*types.Pointer).Elem()}
	case *ssa.Builtin:
		return x
	}
	if r, ok := f.env[v]; ok {
		return r
	}
	panic(unsupp("undefined value %s in %s", v.Name(), fnName(f.fn)))
}

func (f *Frame) term(v ssa.Value) *Term { return f.ex.term(f.val(v)) }

// ---------- memory ----------

// addrOf turns a pointer value into an address.
func (f *Frame) addrOf(st *State, v Val, ptrType types.Type, pos string) *Addr {
	switch x := v.(type) {
	case *Addr:
		return x
	case *Term:
		el := under(ptrType).(*types.Pointer).Elem()
		f.ex.check(st, neq(x, tZero), "nil dereference", pos)
		if _, ok := under(el).(*types.Struct); ok && !isTime(el) {
			return &Addr{kind: AHeap, ref: x, typ: el}
		}
		return &Addr{kind: ABasic, ref: x, typ: el}
	case *Poison:
		panic(unsupp("%s", x.why))
	}
	panic(unsupp("address of %T", v))
}

// check: with safety on, prove and then assume; otherwise only assume.
func (ex *Exec) check(st *State, cond *Term, what, pos string) {
	if cond == tTrue {
		return
	}
	if ex.safety && ex.pure == 0 {
		ex.obligation(st, cond, "no "+what, pos)
	}
	ex.assume(st, cond, "no "+what)
}

func applyPath(t *Term, typ types.Type, path []PathElem) *Term {
	for _, p := range path {
		if p.field >= 0 {
			t = dsel(t, p.field)
		} else {
			t = sel(t, p.idx)
		}
	}
	return t
}

func updatePath(t *Term, path []PathElem, v *Term) *Term {
	if len(path) == 0 {
		return v
	}
	p := path[0]
	if p.field >= 0 {
		return dupd(t, p.field, updatePath(dsel(t, p.field), path[1:], v))
	}
	return store(t, p.idx, updatePath(sel(t, p.idx), path[1:], v))
}

func (ex *Exec) readCheck(st *State, c *Comp) {
	if ex.dry > 0 || ex.pure > 0 || ex.inGo > 0 || len(ex.goWrites) == 0 || !ex.goWrites[c.key] {
		return
	}
	for _, l := range ex.loopStk {
		if ex.goLoops[l] {
			return
		}
	}
	ex.obligation(st, eq(ex.get(st, compOut), tZero), "all goroutines awaited before reading "+c.key, "")
}

func (ex *Exec) load(st *State, a *Addr) Val {
	switch a.kind {
	case ACell:
		v, ok := st.cells[a.cell]
		if !ok {
			panic(unsupp("read of dead variable %s", a.cell.name))
		}
		if len(a.path) == 0 {
			return v
		}
		return applyPath(ex.term(v), a.cell.typ, a.path)
	case AHeap:
		if len(a.path) == 0 {
			s := sortOf(a.typ)
			stt := under(a.typ).(*types.Struct)
			var args []*Term
			for i := 0; i < stt.NumFields(); i++ {
				c := compField(a.typ, i)
				ex.readCheck(st, c)
				args = append(args, sel(ex.get(st, c), a.ref))
			}
			return mkDT(s, args...)
		}
		c := compField(a.typ, a.path[0].field)
		ex.readCheck(st, c)
		return applyPath(sel(ex.get(st, c), a.ref), c.typ, a.path[1:])
	case AElem:
		c := compElem(a.typ)
		ex.readCheck(st, c)
		return applyPath(sel(sel(ex.get(st, c), a.ref), a.idx), a.typ, a.path)
	case ABasic:
		c := compPtr(a.typ)
		ex.readCheck(st, c)
		return applyPath(sel(ex.get(st, c), a.ref), a.typ, a.path)
	case AGlobal:
		return applyPath(ex.get(st, comps[a.glob]), a.typ, a.path)
	}
	panic("load")
}

func (ex *Exec) storeTo(st *State, a *Addr, v Val, pos string) {
	switch a.kind {
	case ACell:
		ex.recordCell(a.cell)
		if len(a.path) == 0 {
			if a.cell.frame == "" {
				panic("cell")
			}
			st.cells[a.cell] = v
			return
		}
		st.cells[a.cell] = updatePath(ex.term(st.cells[a.cell]), a.path, ex.term(v))
	case AHeap:
		t := ex.term(v)
		if len(a.path) == 0 {
			stt := under(a.typ).(*types.Struct)
			for i := 0; i < stt.NumFields(); i++ {
				c := compField(a.typ, i)
				ex.checkWrite(st, c, a.ref, tTrue, pos)
				ex.set(st, c, store(ex.get(st, c), a.ref, dsel(t, i)))
			}
			return
		}
		c := compField(a.typ, a.path[0].field)
		ex.checkWrite(st, c, a.ref, tTrue, pos)
		cur := ex.get(st, c)
		ex.set(st, c, store(cur, a.ref, updatePath(sel(cur, a.ref), a.path[1:], t)))
	case AElem:
		t := ex.term(v)
		c := compElem(a.typ)
		ex.checkWrite(st, c, a.ref, tTrue, pos)
		cur := ex.get(st, c)
		row := sel(cur, a.ref)
		ex.set(st, c, store(cur, a.ref, store(row, a.idx, updatePath(sel(row, a.idx), a.path, t))))
	case ABasic:
		t := ex.term(v)
		c := compPtr(a.typ)
		ex.checkWrite(st, c, a.ref, tTrue, pos)
		cur := ex.get(st, c)
		ex.set(st, c, store(cur, a.ref, updatePath(sel(cur, a.ref), a.path, t)))
	case AGlobal:
		c := comps[a.glob]
		ex.checkGlobalWrite(st, c, pos)
		ex.set(st, c, updatePath(ex.get(st, c), a.path, ex.term(v)))
	}
}

func (ex *Exec) checkGlobalWrite(st *State, c *Comp, pos string) {
	if ex.dry > 0 || ex.pure > 0 {
		return
	}
	for _, f := range ex.frames {
		al, _ := f.allows(c, tZero)
		ex.obligation(st, al, "modifies("+f.what+") "+c.key, pos)
	}
}

func (ex *Exec) newRef(st *State, what string) *Term {
	a := ex.get(st, compAlloc)
	ex.recordComp(compAlloc)
	r := add(a, tOne)
	st.heap[compAlloc.key] = r
	return r
}

// initObject zero-initialises a fresh object.
func (ex *Exec) initObject(st *State, ref *Term, t types.Type) {
	if s, ok := under(t).(*types.Struct); ok && !isTime(t) {
		for i := 0; i < s.NumFields(); i++ {
			if _, ok := trySort(s.Field(i).Type()); !ok {
				continue
			}
			c := compField(t, i)
			ex.set(st, c, store(ex.get(st, c), ref, zeroTerm(s.Field(i).Type())))
		}
		return
	}
	c := compPtr(t)
	ex.set(st, c, store(ex.get(st, c), ref, zeroTerm(t)))
}

// allocIsCell decides whether an Alloc can be kept as a local variable (its address never
// becomes a first-class value).
var allocCellCache = map[*ssa.Alloc]bool{}

func allocIsCell(a *ssa.Alloc) bool {
	if r, ok := allocCellCache[a]; ok {
		return r
	}
	allocCellCache[a] = true
	r := addrOnly(a, map[ssa.Value]bool{})
	allocCellCache[a] = r
	return r
}

func addrOnly(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	refs := v.Referrers()
	if refs == nil {
		return true
	}
	for _, r := range *refs {
		switch x := r.(type) {
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.Store:
			if x.Val == v {
				return false
			}
		case *ssa.FieldAddr:
			if !addrOnly(x, seen) {
				return false
			}
		case *ssa.IndexAddr:
			if !addrOnly(x, seen) {
				return false
			}
		case *ssa.MakeClosure:
			fn := x.Fn.(*ssa.Function)
			for i, b := range x.Bindings {
				if b == v && !addrOnly(fn.FreeVars[i], seen) {
					return false
				}
			}
		case *ssa.Slice:
			if x.X != v {
				return false
			}
		case *ssa.Call:
			// passing &local to a function that only dereferences it
			callee := x.Call.StaticCallee()
			if callee == nil || len(callee.Blocks) == 0 {
				return false
			}
			for i, a := range x.Call.Args {
				if a == v {
					if i >= len(callee.Params) || !paramAddrOnly(callee.Params[i], seen) {
						return false
					}
				}
			}
		default:
			return false
		}
	}
	return true
}

// in naive form a pointer parameter is spilled to a local: follow loads of that local
func paramAddrOnly(p *ssa.Parameter, seen map[ssa.Value]bool) bool {
	if seen[p] {
		return true
	}
	seen[p] = true
	refs := p.Referrers()
	if refs == nil {
		return true
	}
	for _, r := range *refs {
		s, ok := r.(*ssa.Store)
		if !ok {
			return false
		}
		al, ok := s.Addr.(*ssa.Alloc)
		if !ok || al.Heap {
			return false
		}
		for _, ar := range *al.Referrers() {
			switch y := ar.(type) {
			case *ssa.UnOp:
				if !addrOnly(y, seen) {
					return false
				}
			case *ssa.Store:
				if y.Val == al || y.Val != p {
					return false
				}
			case *ssa.DebugRef:
			default:
				return false
			}
		}
	}
	return true
}

// dropAt leaves the assumptions since n out of what is generated from the given loop on.
func (ex *Exec) dropAt(loop, n int) {
	if loop == 0 || ex.dry != 0 {
		return
	}
	if ex.untilLoop == nil {
		ex.untilLoop = map[int][]int{}
	}
	for ; n < len(ex.assumps); n++ {
		ex.untilLoop[loop] = append(ex.untilLoop[loop], n)
	}
}
