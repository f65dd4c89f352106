package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func calleeName(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return shortType(c.Value.Type()) + "." + c.Method.Name()
	}
	if fn := c.StaticCallee(); fn != nil {
		return fnName(fn)
	}
	return ""
}

func isIgnoredCall(n string) bool {
	switch n {
	case "sync.Mutex.Lock", "sync.Mutex.Unlock", "sync.RWMutex.Lock", "sync.RWMutex.Unlock", "sync.RWMutex.RLock", "sync.RWMutex.RUnlock":
		return true
	}
	return false
}

// packages whose functions neither read nor write program memory we track
var effectFree = map[string]bool{"fmt": true, "os": true, "math": true, "strconv": true, "strings": true, "unicode": true,
	"runtime": true, "errors": true, "utf8": true, "fnv": true, "hash": true, "url": true, "mail": true, "io": true, "log": true}

// call executes a call and returns its value and the state after it (nil: does not return).
func (f *Frame) call(st *State, c *ssa.CallCommon, instr ssa.Value, pos string) (Val, *State) {
	ex := f.ex
	var rt types.Type
	if c.IsInvoke() {
		rt = c.Method.Type().(*types.Signature).Results()
	} else {
		rt = c.Signature().Results()
	}
	results := rt.(*types.Tuple)
	if c.IsInvoke() {
		n := calleeName(c)
		recv := f.val(c.Value)
		if iv, ok := recv.(*IfaceVal); ok {
			// known dynamic type
			ms := prog.prog.MethodSets.MethodSet(iv.typ)
			if sel := ms.Lookup(c.Method.Pkg(), c.Method.Name()); sel != nil {
				if fn := prog.prog.MethodValue(sel); fn != nil {
					args := []Val{iv.val}
					for _, a := range c.Args {
						args = append(args, f.val(a))
					}
					return f.callFn(st, fn, args, nil, results, pos)
				}
			}
		}
		if strings.HasPrefix(n, "hash.") || strings.HasPrefix(n, "error.") || strings.HasPrefix(n, "reflect.") || strings.HasPrefix(n, "io.") {
			return ex.freshResults(st, results, n), st
		}
		panic(unsupp("interface call %s", n))
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return f.builtin(st, b, c, pos)
	}
	var args []Val
	for _, a := range c.Args {
		args = append(args, f.val(a))
	}
	if fn, ok := c.Value.(*ssa.Function); ok {
		return f.callFn(st, fn, args, nil, results, pos)
	}
	v := f.val(c.Value)
	if cl, ok := v.(*Closure); ok {
		return f.callFn(st, cl.fn, args, cl.bindings, results, pos)
	}
	panic(unsupp("call of unknown function value"))
}

func (ex *Exec) freshResults(st *State, r *types.Tuple, what string) Val {
	mkv := func(t types.Type) Val {
		v := fresh("res."+what, sortOf(t))
		for _, tv := range typeValid(t, v, ex.get(st, compAlloc)) {
			ex.assume(st, tv, "validity of result")
		}
		return v
	}
	switch r.Len() {
	case 0:
		return Tuple{}
	case 1:
		return mkv(r.At(0).Type())
	}
	var tp Tuple
	for i := 0; i < r.Len(); i++ {
		tp = append(tp, mkv(r.At(i).Type()))
	}
	return tp
}

func (f *Frame) callFn(st *State, fn *ssa.Function, args []Val, bind []Val, results *types.Tuple, pos string) (Val, *State) {
	ex := f.ex
	name := fnName(fn)
	if isIgnoredCall(name) {
		return Tuple{}, st
	}
	if v, ns, ok := f.intrinsic(st, fn, name, args, results, pos); ok {
		intrinsicsUsed[name] = true
		return v, ns
	}
	if ct := contractFor(name); ct != nil && ct.modular() && ex.pure == 0 && bind == nil {
		if !ct.ghostFree() {
			panic(unsupp("call of %s, whose contract has ghost variables", name))
		}
		ok := true
		var ts []*Term
		var back []func(*State)
		for i, a := range args {
			t, o := ex.tryTerm(a)
			if ad, isA := a.(*Addr); !o && isA && ad.kind == ACell && len(fn.Blocks) > 0 && i < len(fn.Params) && paramStays(fn.Params[i], map[*ssa.Parameter]bool{}) {
				// the address of a local: the callee works on a copy in the heap, copied back afterwards
				if _, isS := under(ad.typ).(*types.Struct); isS && len(ad.path) == 0 {
					h := &Addr{kind: AHeap, ref: ex.newRef(st, "copy"), typ: ad.typ}
					ex.storeTo(st, h, ex.load(st, ad), pos)
					back = append(back, func(ns *State) { ex.storeTo(ns, ad, ex.load(ns, h), pos) })
					t, o = h.ref, true
				}
			}
			if !o {
				ok = false
				break
			}
			ts = append(ts, t)
		}
		if ok {
			v, ns := f.callContract(st, fn, ct, ts, results, pos)
			for _, b := range back {
				b(ns)
			}
			return v, ns
		}
	}
	if len(fn.Blocks) == 0 {
		pk := ""
		if fn.Pkg != nil {
			pk = fn.Pkg.Pkg.Name()
		} else if fn.Object() != nil && fn.Object().Pkg() != nil {
			pk = fn.Object().Pkg().Name()
		}
		if effectFree[pk] {
			ex.note("external " + name + ": assumed to have no effect on the feed")
			return ex.pureResult(st, name, args, results), st
		}
		panic(unsupp("call of external function %s", name))
	}
	ex.depth++
	defer func() { ex.depth-- }()
	if ex.depth > maxInlineDepth {
		panic(unsupp("inlining too deep (recursion?) at %s", name))
	}
	for fr := f; fr != nil; fr = fr.parent {
		if fr.fn == fn {
			panic(unsupp("recursive call of %s without a contract", name))
		}
	}
	ex.inlined[name] = true
	path := fmt.Sprintf("%s>%s@%s", f.path, name, f.callSite(name))
	nf, rets := ex.runBody(fn, f, path, st, args, bind, nil)
	_ = nf
	if len(rets) == 0 {
		return Tuple{}, nil
	}
	var states []*State
	for _, r := range rets {
		states = append(states, r.st)
	}
	out := ex.mergeStates(states, "return from "+name)
	n := results.Len()
	var vals []Val
	for i := 0; i < n; i++ {
		var vs []Val
		var cs []*Term
		for _, r := range rets {
			vs = append(vs, r.vals[i])
			cs = append(cs, r.st.pc)
		}
		vals = append(vals, ex.mergeVals(out, vs, cs, name+".result"))
	}
	// drop the callee's cells
	for c := range out.cells {
		if c.frame == path {
			delete(out.cells, c)
		}
	}
	switch n {
	case 0:
		return Tuple{}, out
	case 1:
		return vals[0], out
	}
	return Tuple(vals), out
}

// callSite numbers the call sites of a function within a frame; re-executions of the same
// loop body reuse names, which is what cell identity needs.
func (f *Frame) callSite(name string) string {
	return f.curInstr
}

// pureResult models a deterministic effect-free external function.
func (ex *Exec) pureResult(st *State, name string, args []Val, results *types.Tuple) Val {
	if results.Len() == 1 && !strings.HasPrefix(name, "fmt.") && !strings.HasPrefix(name, "runtime.") && !strings.HasPrefix(name, "os.") {
		s, ok := trySort(results.At(0).Type())
		_, isPtr := under(results.At(0).Type()).(*types.Pointer)
		if ok && s != SSlc && s != SIfc && !isPtr {
			var ts []*Term
			for _, a := range args {
				t, o := ex.tryTerm(a)
				if !o || t.sort == SSlc {
					ts = nil
					ok = false
					break
				}
				ts = append(ts, t)
			}
			if ok && len(ts) > 0 {
				v := app("ext."+name, s, ts...)
				for _, tv := range typeValid(results.At(0).Type(), v, ex.get(st, compAlloc)) {
					ex.assume(st, tv, "validity of result")
				}
				return v
			}
		}
	}
	return ex.freshResults(st, results, name)
}

// ---------- builtins ----------

func (f *Frame) builtin(st *State, b *ssa.Builtin, c *ssa.CallCommon, pos string) (Val, *State) {
	ex := f.ex
	switch b.Name() {
	case "ssa:deferstack":
		return tZero, st
	case "ssa:wrapnilchk":
		return f.val(c.Args[0]), st
	case "len":
		switch u := under(c.Args[0].Type()).(type) {
		case *types.Slice:
			return dsel(f.term(c.Args[0]), 2), st
		case *types.Basic:
			n := strlen(f.term(c.Args[0]))
			ex.assume(st, le(tZero, n), "string length")
			return n, st
		case *types.Map:
			md := compMD(u)
			ex.readCheck(st, md)
			return ex.card(st, sel(ex.get(st, md), f.term(c.Args[0]))), st
		case *types.Array:
			return intT(u.Len()), st
		case *types.Pointer:
			return intT(under(u.Elem()).(*types.Array).Len()), st
		case *types.Chan:
			return ex.freshResults(st, types.NewTuple(types.NewVar(0, nil, "", types.Typ[types.Int])), "len"), st
		}
	case "cap":
		if _, ok := under(c.Args[0].Type()).(*types.Slice); ok {
			return dsel(f.term(c.Args[0]), 3), st
		}
	case "append":
		return f.appendBuiltin(st, c, pos), st
	case "copy":
		if _, ok := under(c.Args[1].Type()).(*types.Slice); ok {
			el := under(c.Args[0].Type()).(*types.Slice).Elem()
			comp := compElem(el)
			d, s := f.term(c.Args[0]), f.term(c.Args[1])
			n := ite(le(dsel(d, 2), dsel(s, 2)), dsel(d, 2), dsel(s, 2))
			cur := ex.get(st, comp)
			old := sel(cur, dsel(d, 0))
			src := sel(cur, dsel(s, 0))
			nc := fresh("copied", comp.sort.V)
			j := boundVar("j", 0, SInt)
			ex.assume(st, forall([]*Term{j}, [][]*Term{{sel(nc, j)}}, eq(sel(nc, j),
				ite(and(le(dsel(d, 1), j), lt(j, add(dsel(d, 1), n))), sel(src, add(sub(j, dsel(d, 1)), dsel(s, 1))), sel(old, j)))), "copy")
			ex.checkWrite(st, comp, dsel(d, 0), lt(tZero, n), pos)
			ex.set(st, comp, store(cur, dsel(d, 0), nc))
			return n, st
		}
	case "delete":
		u := under(c.Args[0].Type()).(*types.Map)
		m, k := f.term(c.Args[0]), f.term(c.Args[1])
		md, mv := compMD(u), compMV(u)
		d, w := ex.get(st, md), ex.get(st, mv)
		// deleting an absent key writes nothing
		pres := sel(sel(d, m), k)
		ex.checkWrite(st, md, m, pres, pos)
		ex.checkWrite(st, mv, m, pres, pos)
		ex.set(st, md, store(d, m, store(sel(d, m), k, tFalse)))
		ex.set(st, mv, store(w, m, store(sel(w, m), k, zeroTerm(u.Elem()))))
		return Tuple{}, st
	case "print", "println":
		return Tuple{}, st
	case "close":
		return Tuple{}, st
	case "min", "max":
		r := f.term(c.Args[0])
		if isIntegerT(c.Args[0].Type()) {
			for _, a := range c.Args[1:] {
				t := f.term(a)
				if b.Name() == "min" {
					r = ite(le(r, t), r, t)
				} else {
					r = ite(le(r, t), t, r)
				}
			}
			return r, st
		}
	case "clear":
		if u, ok := under(c.Args[0].Type()).(*types.Map); ok {
			m := f.term(c.Args[0])
			md, mv := compMD(u), compMV(u)
			ex.checkWrite(st, md, m, tTrue, pos)
			ex.checkWrite(st, mv, m, tTrue, pos)
			ex.set(st, md, store(ex.get(st, md), m, constArr(md.sort.V, tFalse)))
			ex.set(st, mv, store(ex.get(st, mv), m, constArr(mv.sort.V, zeroTerm(u.Elem()))))
			return Tuple{}, st
		}
	}
	panic(unsupp("builtin %s on %s", b.Name(), c.Args[0].Type()))
}

func (f *Frame) appendBuiltin(st *State, c *ssa.CallCommon, pos string) Val {
	ex := f.ex
	el := under(c.Args[0].Type()).(*types.Slice).Elem()
	comp := compElem(el)
	s := f.term(c.Args[0])
	// appended values
	var vals []*Term // known length
	var src *Term
	if b, ok := under(c.Args[1].Type()).(*types.Basic); ok && b.Info()&types.IsString != 0 {
		str := f.term(c.Args[1])
		r := ex.convert(st, str, c.Args[1].Type(), c.Args[0].Type())
		src = r
	} else {
		src = f.term(c.Args[1])
	}
	n := dsel(src, 2)
	cur := ex.get(st, comp)
	if isInt(n) && n.n.IsInt64() && n.n.Int64() <= 8 {
		for i := int64(0); i < n.n.Int64(); i++ {
			vals = append(vals, sel(sel(cur, dsel(src, 0)), add(dsel(src, 1), intT(i))))
		}
	}
	arr, off, ln, cp := dsel(s, 0), dsel(s, 1), dsel(s, 2), dsel(s, 3)
	fits := le(add(ln, n), cp)
	fr := ex.newRef(st, "append")
	narr := ite(fits, arr, fr)
	ncap := fresh("cap", SInt)
	ex.assume(st, and(le(add(ln, n), ncap), implies(fits, eq(ncap, cp))), "append capacity")
	ex.checkWrite(st, comp, narr, lt(tZero, n), pos)
	old := sel(cur, arr)
	var content *Term
	if vals != nil || n == tZero {
		content = old
		for i, v := range vals {
			content = store(content, add(add(off, ln), intT(int64(i))), v)
		}
	} else {
		content = fresh("appended", comp.sort.V)
		j := boundVar("j", 0, SInt)
		ex.assume(st, forall([]*Term{j}, [][]*Term{{sel(content, j)}},
			eq(sel(content, j), ite(and(le(add(off, ln), j), lt(j, add(add(off, ln), n))),
				sel(sel(cur, dsel(src, 0)), add(sub(j, add(off, ln)), dsel(src, 1))), sel(old, j)))), "append copies")
		if ex.dry == 0 && ex.pure == 0 { // the same facts, triggered on the sources
			end := add(off, ln)
			if t := sel(old, j); t.op == "select" {
				ex.addAssump(st.node, forall([]*Term{j}, [][]*Term{{t}}, or(and(le(end, j), lt(j, add(end, n))), eq0(mk("select", "", comp.sort.V.V, content, j), t))), "forward append", true)
			}
			if t := sel(sel(cur, dsel(src, 0)), j); t.op == "select" {
				ex.addAssump(st.node, forall([]*Term{j}, [][]*Term{{t}}, implies(and(le(dsel(src, 1), j), lt(j, add(dsel(src, 1), n))), eq0(mk("select", "", comp.sort.V.V, content, add(sub(j, dsel(src, 1)), end)), t))), "forward append", true)
			}
		}
	}
	if ex.dry == 0 && ex.pure == 0 {
		// name the new backing array and slice header
		na := fresh("arr", SInt)
		ex.assumeAt(st.node, tTrue, eq0(na, narr), "append backing")
		narr = na
	}
	ex.set(st, comp, store(cur, narr, content))
	return mkDT(SSlc, narr, off, add(ln, n), ncap)
}

// card is the number of elements of a set given as a Boolean array.
func (ex *Exec) card(st *State, dom *Term) *Term {
	n := cardName(dom.sort)
	c := app(n, SInt, dom)
	ex.assume(st, le(tZero, c), "cardinality")
	return c
}

func cardName(s *Sort) string { return "card." + sanitize(s.K.Name) }

// ---------- modular calls ----------

func (f *Frame) callContract(st *State, fn *ssa.Function, ct *Contract, args []*Term, results *types.Tuple, pos string) (Val, *State) {
	ex := f.ex
	ex.calledC[ct.name] = true
	sig := fn.Signature
	env := &SpecEnv{ex: ex, st: st, old: st, vars: map[string]SV{}, freshAlloc: ex.get(st, compAlloc)}
	bindParams(env, fn, args)
	for i, r := range ct.requires {
		ex.obligation(st, env.boolExpr(r.e), fmt.Sprintf("precondition %d (%s) of %s", i+1, r.label(), ct.name), pos)
	}
	for _, r := range ct.requires {
		ex.assume(st, env.boolExpr(r.e), "precondition of "+ct.name)
	}
	old := st.clone()
	out := st.clone()
	out.node = ex.newNode(st.node)
	ws := writesOf(fn, ct)
	for _, k := range ws {
		ex.recordComp(comps[k])
	}
	fc := ct.frameClause(ex, env, old)
	// the callee may only write what the caller may write
	if ex.dry == 0 && ex.pure == 0 {
		for _, k := range ws {
			c := comps[k]
			if c.kind == "G" {
				if _, any := fc.allows(c, tZero); any {
					ex.checkGlobalWrite(out, c, pos)
				}
				continue
			}
			if !c.refIndexed() {
				continue
			}
			r := fresh("wr", SInt)
			al, nontrivial := fc.allows(c, r)
			if !nontrivial {
				continue
			}
			tmp := out.clone()
			tmp.pc = and(out.pc, le(r, fc.alloc), al)
			ex.checkWrite(tmp, c, r, tTrue, pos)
		}
	}
	ex.havocComps(old, out, ws)
	ex.assumeFrame(old, out, ws, fc)
	env2 := &SpecEnv{ex: ex, st: out, old: old, vars: env.vars, freshAlloc: ex.get(old, compAlloc)}
	res := ex.freshResults(out, results, ct.name)
	bindResults(env2, sig, res, ex)
	for _, e := range ct.pureClauses(sig) {
		ex.assume(out, env2.boolExpr(e.e), "result of the pure function "+ct.name)
	}
	if fn := prog.funcs[ct.name]; ct.stable && fn != nil {
		ts := make([]*Term, len(fn.Params))
		for i := range ts {
			ts[i] = env.vars[fmt.Sprintf("$%d", i)].t
		}
		if t, ok := ex.tryTerm(res); ok {
			ex.assume(out, eq(t, stableTerm(ex, old, fn, ts, t.sort)), "result of the deterministic function "+ct.name)
		}
	}
	for _, e := range ct.ensures {
		ex.assume(out, env2.boolExpr(e.e), "postcondition of "+ct.name+": "+e.label())
	}
	return res, out
}

func bindParams(env *SpecEnv, fn *ssa.Function, args []*Term) {
	for i, p := range fn.Params {
		if i < len(args) {
			env.vars[p.Name()] = SV{args[i], p.Type()}
			env.vars[fmt.Sprintf("$%d", i)] = SV{args[i], p.Type()}
		}
	}
}

func bindResults(env *SpecEnv, sig *types.Signature, res Val, ex *Exec) {
	r := sig.Results()
	bindOne := func(i int, v Val) {
		t, ok := ex.tryTerm(v)
		if !ok {
			return
		}
		sv := SV{t, r.At(i).Type()}
		if r.Len() == 1 {
			env.vars["result"] = sv
		}
		env.vars[fmt.Sprintf("result%d", i)] = sv
	}
	switch r.Len() {
	case 0:
	case 1:
		bindOne(0, res)
	default:
		for i, v := range res.(Tuple) {
			bindOne(i, v)
		}
	}
}

var writesCache = map[string][]string{}
var writesBusy = map[string]bool{}

// writesOf computes which heap components a function may write (by a dry run of its body).
func writesOf(fn *ssa.Function, ct *Contract) []string {
	if w, ok := writesCache[ct.name]; ok {
		return w
	}
	if ct.trusted || len(fn.Blocks) == 0 {
		set := map[string]bool{compAlloc.key: true}
		for _, m := range ct.mods {
			for _, k := range m.comps {
				set[k] = true
			}
		}
		w := sortedKeys(set)
		writesCache[ct.name] = w
		return w
	}
	if writesBusy[ct.name] {
		return []string{} // recursion: the outer computation collects the rest
	}
	writesBusy[ct.name] = true
	defer delete(writesBusy, ct.name)
	ex := newExec("w." + ct.name)
	ex.dry = 1
	ws := newWriteSet()
	ex.writes = append(ex.writes, ws)
	st := &State{cells: map[*Cell]Val{}, heap: map[string]*Term{}, pc: tTrue, node: ex.node0}
	var args []Val
	for _, p := range fn.Params {
		args = append(args, fresh("p."+p.Name(), sortOf(p.Type())))
	}
	ex.runBody(fn, nil, "w:"+ct.name, st, args, nil, nil)
	set := map[string]bool{compAlloc.key: true}
	for k := range ws.comps {
		if k == compOut.key || k == compSig.key {
			continue
		}
		set[k] = true
	}
	w := sortedKeys(set)
	if ct.recursive {
		// a second pass would add nothing: the body's own writes are already in the set
	}
	writesCache[ct.name] = w
	return w
}

var _ = sort.Strings

// paramStays: the function uses the pointer only to reach the fields of what it points to, or hands
// it on to functions that do.
func paramStays(p *ssa.Parameter, busy map[*ssa.Parameter]bool) bool {
	if busy[p] {
		return true
	}
	busy[p] = true
	var stays func(v ssa.Value) bool
	stays = func(v ssa.Value) bool {
		if v.Referrers() == nil {
			return true
		}
		for _, in := range *v.Referrers() {
			switch x := in.(type) {
			case *ssa.DebugRef:
			case *ssa.FieldAddr:
				if !stays(x) {
					return false
				}
			case *ssa.IndexAddr:
				if !stays(x) {
					return false
				}
			case *ssa.UnOp:
				if x.Op != token.MUL {
					return false
				}
			case *ssa.Store:
				if x.Val == v {
					// the parameter's own cell, as unoptimised code has it
					al, ok := x.Addr.(*ssa.Alloc)
					if !ok {
						return false
					}
					for _, r := range *al.Referrers() {
						switch y := r.(type) {
						case *ssa.DebugRef:
						case *ssa.Store:
							if y.Addr != al || y.Val != v {
								return false
							}
						case *ssa.UnOp:
							if y.Op != token.MUL || !stays(y) {
								return false
							}
						default:
							return false
						}
					}
				}
			case *ssa.Call:
				c := x.Call.StaticCallee()
				if c == nil || len(c.Blocks) == 0 || x.Call.Value == v {
					return false
				}
				for i, a := range x.Call.Args {
					if a == v && (i >= len(c.Params) || !paramStays(c.Params[i], busy)) {
						return false
					}
				}
			default:
				return false
			}
		}
		return true
	}
	return stays(p)
}
