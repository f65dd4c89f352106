package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// A stable function is deterministic: its result depends on its arguments and on the memory it reads
// only. stableReads finds what it reads: whole heap components, and fields of the objects its pointer
// parameters refer to (par). Everything it calls must be such a function, too; of external functions
// those listed are known to be.
type reads struct {
	comps map[string]*Comp
	par   map[string]parRead
}

type parRead struct {
	param int
	comp  *Comp
}

var stableCache = map[string]*reads{}
var stableWhy = map[string]string{}

var deterministicExternals = map[string]bool{
	"hash/fnv.New32a": true, "hash/fnv.New64a": true,
	"(encoding/binary.littleEndian).PutUint64": true, "(encoding/binary.littleEndian).PutUint32": true,
	"(encoding/binary.bigEndian).PutUint64": true, "(encoding/binary.bigEndian).PutUint32": true,
	"math.Float32bits": true, "math.Float64bits": true,
}

func stableReads(fn *ssa.Function) (*reads, string) {
	n := fnName(fn)
	if r, ok := stableCache[n]; ok {
		return r, stableWhy[n]
	}
	r := &reads{map[string]*Comp{}, map[string]parRead{}}
	stableCache[n] = r
	why := r.walk(fn, fn, map[*ssa.Function]bool{})
	stableWhy[n] = why
	return r, why
}

// stableTerm is the result of a stable function as a function of what it reads.
func stableTerm(ex *Exec, st *State, fn *ssa.Function, args []*Term, res *Sort) *Term {
	r, _ := stableReads(fn)
	var ts []*Term
	for i, p := range fn.Params {
		if i == 0 && fn.Signature.Recv() != nil && unused(p) {
			continue
		}
		ts = append(ts, args[i])
	}
	var ks []string
	for k := range r.comps {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		ts = append(ts, ex.get(st, r.comps[k]))
	}
	ks = nil
	for k, p := range r.par {
		if r.comps[p.comp.key] == nil {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	for _, k := range ks {
		p := r.par[k]
		ts = append(ts, sel(ex.get(st, p.comp), args[p.param]))
	}
	return app("stable."+fnName(fn), res, ts...)
}

func unused(p *ssa.Parameter) bool {
	for _, u := range *p.Referrers() {
		switch x := u.(type) {
		case *ssa.DebugRef:
		case *ssa.Store: // spilled to a local: is that read?
			a, ok := x.Addr.(*ssa.Alloc)
			if !ok {
				return false
			}
			for _, v := range *a.Referrers() {
				switch v.(type) {
				case *ssa.DebugRef, *ssa.Store:
				case *ssa.UnOp:
					// receivers passed on to methods of the same type do no harm when empty structs
					if t, ok := under(a.Type().(*types.Pointer).Elem()).(*types.Struct); ok && t.NumFields() == 0 {
						continue
					}
					if pt, ok := under(a.Type().(*types.Pointer).Elem()).(*types.Pointer); ok {
						if t, ok := under(pt.Elem()).(*types.Struct); ok && t.NumFields() == 0 {
							continue
						}
					}
					return false
				default:
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}

// singleStore is the value stored in a local variable that is assigned once.
func singleStore(a *ssa.Alloc) ssa.Value {
	var v ssa.Value
	for _, u := range *a.Referrers() {
		switch x := u.(type) {
		case *ssa.Store:
			if x.Addr != a || v != nil {
				return nil
			}
			v = x.Val
		case *ssa.UnOp, *ssa.DebugRef, *ssa.FieldAddr, *ssa.IndexAddr:
		default:
			return nil
		}
	}
	return v
}

// origin follows loads of once-assigned locals.
func origin(v ssa.Value) ssa.Value {
	for i := 0; i < 20; i++ {
		u, ok := v.(*ssa.UnOp)
		if !ok || u.Op != token.MUL {
			return v
		}
		a, ok := u.X.(*ssa.Alloc)
		if !ok {
			return v
		}
		s := singleStore(a)
		if s == nil {
			return v
		}
		v = s
	}
	return v
}

// localMem: the value is a reference to memory this function allocated.
func localMem(v ssa.Value) bool {
	v = origin(v)
	switch x := v.(type) {
	case *ssa.Alloc, *ssa.MakeSlice, *ssa.Const:
		return true
	case *ssa.Convert:
		_, ok := under(x.Type()).(*types.Slice)
		return ok // []byte(string)
	case *ssa.Slice:
		return localMem(x.X)
	case *ssa.FieldAddr:
		return localMem(x.X)
	case *ssa.IndexAddr:
		return localMem(x.X)
	case *ssa.Call:
		c := x.Call.StaticCallee()
		return c != nil && deterministicExternals[c.String()]
	case *ssa.MakeInterface:
		return localMem(x.X)
	case *ssa.ChangeInterface:
		return localMem(x.X)
	}
	return false
}

// read records a load from an address.
func (r *reads) read(top, fn *ssa.Function, addr ssa.Value, t types.Type) string {
	if localMem(addr) {
		return ""
	}
	// walk up to the innermost object
	v := addr
	field := -1
	var ft types.Type
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			field, ft = x.Field, x.X.Type().(*types.Pointer).Elem()
			v = x.X
			continue
		case *ssa.IndexAddr:
			if p, ok := under(x.X.Type()).(*types.Pointer); ok {
				_ = p
				v = x.X
				field = -1
				continue
			}
			c := compElem(under(x.X.Type()).(*types.Slice).Elem())
			r.comps[c.key] = c
			return ""
		case *ssa.Global:
			if globalWritten(x) {
				return "it reads the variable " + x.Name()
			}
			return ""
		}
		break
	}
	add := func(c *Comp) {
		if p, ok := origin(v).(*ssa.Parameter); ok && fn == top {
			for i, q := range fn.Params {
				if q == p {
					r.par[fmt.Sprintf("%d %s", i, c.key)] = parRead{i, c}
					return
				}
			}
		}
		r.comps[c.key] = c
	}
	if field >= 0 {
		add(compField(ft, field))
		return ""
	}
	if st, ok := under(t).(*types.Struct); ok {
		for i := 0; i < st.NumFields(); i++ {
			add(compField(t, i))
		}
	}
	if _, ok := under(t).(*types.Array); ok {
		return "it reads an array through a pointer"
	}
	add(compPtr(t))
	return ""
}

func (r *reads) walk(top, fn *ssa.Function, busy map[*ssa.Function]bool) string {
	if busy[fn] {
		return ""
	}
	busy[fn] = true
	if len(fn.Blocks) == 0 {
		return "no body: " + fn.String()
	}
	ptr := func(v ssa.Value) string { // a pointer handed on: anything below it may be read as an element, too
		if p, ok := under(v.Type()).(*types.Pointer); ok && !localMem(v) {
			if _, ok := v.(*ssa.IndexAddr); ok {
				return r.read(top, fn, v, p.Elem())
			}
			if _, ok := v.(*ssa.FieldAddr); ok {
				return r.read(top, fn, v, p.Elem())
			}
		}
		return ""
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.UnOp:
				if x.Op == token.ARROW {
					return "it receives from a channel"
				}
				if x.Op == token.MUL {
					if why := r.read(top, fn, x.X, x.Type()); why != "" {
						return why
					}
				}
			case *ssa.Lookup:
				if m, ok := under(x.X.Type()).(*types.Map); ok {
					r.comps[compMD(m).key], r.comps[compMV(m).key] = compMD(m), compMV(m)
				}
			case *ssa.Convert:
				if b, ok := under(x.Type()).(*types.Basic); ok && b.Kind() == types.Uintptr && localMem(x.X) {
					return "it uses the address of a local variable"
				}
				if sl, ok := under(x.X.Type()).(*types.Slice); ok && !localMem(x.X) {
					r.comps[compElem(sl.Elem()).key] = compElem(sl.Elem())
				}
			case *ssa.Call:
				if bi, ok := x.Call.Value.(*ssa.Builtin); ok {
					switch bi.Name() {
					case "ssa:deferstack", "len", "cap", "min", "max", "append":
						continue
					}
					return "it calls " + bi.Name()
				}
				for _, a := range x.Call.Args {
					if why := ptr(a); why != "" {
						return why
					}
				}
				if x.Call.IsInvoke() {
					m := x.Call.Method.FullName()
					if !localMem(x.Call.Value) || (m != "(io.Writer).Write" && m != "(hash.Hash32).Sum32" && m != "(hash.Hash64).Sum64") {
						return "it calls " + m
					}
					for _, a := range x.Call.Args {
						if !localMem(a) {
							return "it passes memory to " + m
						}
					}
					continue
				}
				c := x.Call.StaticCallee()
				if c == nil {
					return "it makes a dynamic call"
				}
				if c.Pkg != nil && c.Pkg.Pkg.Path() == "math" || deterministicExternals[c.String()] {
					for _, a := range x.Call.Args {
						if _, ok := under(a.Type()).(*types.Basic); !ok && !localMem(a) && !emptyStruct(a.Type()) {
							return "it passes memory to " + c.Name()
						}
					}
					continue
				}
				if why := r.walk(top, c, busy); why != "" {
					return c.Name() + ": " + why
				}
			case *ssa.Alloc, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Field, *ssa.Index, *ssa.BinOp, *ssa.ChangeType, *ssa.If, *ssa.Jump, *ssa.Return, *ssa.Phi, *ssa.Extract, *ssa.DebugRef, *ssa.RunDefers, *ssa.Store, *ssa.MakeSlice, *ssa.Slice, *ssa.MakeInterface, *ssa.ChangeInterface:
			default:
				return fmt.Sprintf("instruction %T", in)
			}
		}
	}
	return ""
}

func emptyStruct(t types.Type) bool {
	s, ok := under(t).(*types.Struct)
	return ok && s.NumFields() == 0
}
