package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// pureClauses are the equations result = name(parameters) of a contract with a pure clause.
func (ct *Contract) pureClauses(sig *types.Signature) []*Clause {
	if len(ct.pure) == 0 || ct.pureEns != nil {
		return ct.pureEns
	}
	fn := prog.funcs[ct.name]
	var ps []string
	for _, p := range fn.Params {
		if sig.Recv() != nil && p == fn.Params[0] {
			continue // the receiver is not an argument: it is an empty struct or unused
		}
		ps = append(ps, p.Name())
	}
	for i, n := range ct.pure {
		r := "result"
		if len(ct.pure) > 1 {
			r = fmt.Sprintf("result%d", i)
		}
		text := fmt.Sprintf("%s == %s(%s)", r, n, strings.Join(ps, ", "))
		e, err := parseSpec(text)
		if err != nil {
			panic(unsupp("pure: %v", err))
		}
		ct.pureEns = append(ct.pureEns, &Clause{e, text, ct.file, ct.line, false, 0})
	}
	return ct.pureEns
}

var storedGlobals map[*ssa.Global]bool

// globalWritten: the global is stored to, or its address taken, outside package initialisation.
func globalWritten(g *ssa.Global) bool {
	if storedGlobals == nil {
		storedGlobals = map[*ssa.Global]bool{}
		var ops [12]*ssa.Value
		for _, fn := range prog.funcs {
			if fn.Name() == "init" && fn.Synthetic != "" {
				continue
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					for _, o := range in.Operands(ops[:0]) {
						g, ok := (*o).(*ssa.Global)
						if !ok {
							continue
						}
						if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL {
							continue
						}
						storedGlobals[g] = true
					}
				}
			}
		}
	}
	return storedGlobals[g]
}

// initialConst is the constant that package initialisation stores in the global, if it is one.
func initialConst(g *ssa.Global) *ssa.Const {
	fn := g.Pkg.Func("init")
	if fn == nil {
		return nil
	}
	var r *ssa.Const
	n := 0
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok && s.Addr == g {
				n++
				r, _ = s.Val.(*ssa.Const)
				if c, ok := s.Val.(*ssa.Convert); ok { // a conversion of another such global
					if u, ok := c.X.(*ssa.UnOp); ok && u.Op == token.MUL {
						if g2, ok := u.X.(*ssa.Global); ok && g2 != g && g2.Pkg == g.Pkg && !globalWritten(g2) {
							k := initialConst(g2)
							if b, ok := under(c.Type()).(*types.Basic); ok && k != nil && isFloatT(k.Type()) {
								if f, _ := constant.Float64Val(k.Value); b.Kind() == types.Float64 {
									r = ssa.NewConst(constant.MakeFloat64(f), c.Type())
								} else if f32, _ := constant.Float32Val(constant.MakeFloat64(f)); b.Kind() == types.Float32 {
									r = ssa.NewConst(constant.MakeFloat64(float64(f32)), c.Type())
								}
							}
						}
					}
				}
			}
		}
	}
	if n != 1 || r == nil || r.Value == nil {
		return nil
	}
	return r
}

// impure says why the results of a function may depend on something else than its arguments, or why
// it has an effect; empty if neither is possible.
func impure(fn *ssa.Function, busy map[*ssa.Function]bool) string {
	if busy[fn] {
		return ""
	}
	busy[fn] = true
	if len(fn.Blocks) == 0 {
		return "no body: " + fn.String()
	}
	for i, p := range fn.Params {
		if _, ok := under(p.Type()).(*types.Basic); ok {
			continue
		}
		if i == 0 && fn.Signature.Recv() != nil && (p.Referrers() == nil || len(*p.Referrers()) == 0) {
			continue
		}
		return "parameter " + p.Name() + " is not of a basic type"
	}
	local := func(v ssa.Value) bool {
		for {
			switch x := v.(type) {
			case *ssa.Alloc:
				return true
			case *ssa.FieldAddr:
				v = x.X
			case *ssa.IndexAddr:
				if _, ok := under(x.X.Type()).(*types.Pointer); !ok {
					return false
				}
				v = x.X
			default:
				return false
			}
		}
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				if !local(x.Addr) {
					return "it writes memory"
				}
				if _, ok := x.Val.(*ssa.Alloc); ok {
					return "it stores an address"
				}
			case *ssa.UnOp:
				if x.Op == token.ARROW {
					return "it receives from a channel"
				}
				if x.Op == token.MUL && !local(x.X) {
					if g, ok := x.X.(*ssa.Global); ok && !globalWritten(g) {
						continue
					}
					return "it reads memory that may change"
				}
			case *ssa.Call:
				c := x.Call.StaticCallee()
				if bi, ok := x.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "ssa:deferstack" || bi.Name() == "len" || bi.Name() == "min" || bi.Name() == "max") {
					continue
				}
				if c == nil {
					return "it makes a dynamic call"
				}
				if c.Pkg != nil && c.Pkg.Pkg.Path() == "math" {
					continue
				}
				if why := impure(c, busy); why != "" {
					return c.Name() + ": " + why
				}
			case *ssa.Alloc, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Field, *ssa.Index, *ssa.BinOp, *ssa.Convert, *ssa.ChangeType, *ssa.If, *ssa.Jump, *ssa.Return, *ssa.Phi, *ssa.Extract, *ssa.DebugRef, *ssa.RunDefers:
			default:
				return fmt.Sprintf("instruction %T", in)
			}
		}
	}
	return ""
}
