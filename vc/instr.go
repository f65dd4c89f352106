package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// wrapInt applies machine wrap-around where it is modelled: all unsigned types and
// signed types narrower than 64 bits. int and int64 are mathematical.
func wrapInt(t types.Type, v *Term) *Term {
	if !isIntegerT(t) {
		return v
	}
	bits := intBits(t)
	if b, ok := under(t).(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		return v
	}
	if isUnsigned(t) {
		return smtMod(v, pow2(bits))
	}
	if bits == 64 {
		return v
	}
	half := pow2(bits - 1)
	return sub(smtMod(add(v, half), pow2(bits)), half)
}

// rangeOf: is the conversion from type a to b value preserving for all values?
func widening(from, to types.Type) bool {
	fb, tb := intBits(from), intBits(to)
	fu, tu := isUnsigned(from), isUnsigned(to)
	if fu == tu {
		return tb >= fb
	}
	if fu && !tu {
		return tb > fb
	}
	return false
}

func (f *Frame) binop(st *State, x *ssa.BinOp) Val {
	ex := f.ex
	a, b := f.val(x.X), f.val(x.Y)
	pos := f.pos(x.Pos())
	if x.Op == token.EQL || x.Op == token.NEQ {
		r := ex.equal(a, b, x.X.Type(), x.Y.Type())
		if x.Op == token.NEQ {
			r = not(r)
		}
		return r
	}
	return f.ex.arith(st, x.Op, ex.term(a), ex.term(b), x.X.Type(), x.Type(), pos)
}

func (ex *Exec) equal(a, b Val, ta, tb types.Type) *Term {
	// nil comparisons of slices, funcs, closures, addresses
	isNil := func(v Val) bool {
		t, ok := v.(*Term)
		return ok && (t == tZero || t.op == "const" && t.name == "ifc.nil" || t == zeroOfSort(SSlc, nil))
	}
	switch x := a.(type) {
	case *Closure, *IfaceVal:
		if isNil(b) {
			return tFalse
		}
	case *Addr:
		if isNil(b) {
			if x.kind == AHeap || x.kind == ABasic {
				if len(x.path) == 0 {
					return eq(x.ref, tZero)
				}
			}
			return tFalse
		}
		if y, ok := b.(*Addr); ok && (x.kind == ACell || x.kind == AElem) {
			if x.kind == y.kind && x.kind == AElem && len(x.path) == 0 && len(y.path) == 0 {
				return and(eq(x.ref, y.ref), eq(x.idx, y.idx))
			}
			return boolT(sameVal(a, b))
		}
	}
	switch b.(type) {
	case *Closure, *IfaceVal, *Addr:
		if isNil(a) {
			return ex.equal(b, a, tb, ta)
		}
	}
	x, y := ex.term(a), ex.term(b)
	if x.sort == SSlc {
		// comparison with nil
		if isNil(b) {
			return eq(dsel(x, 0), tZero)
		}
		if isNil(a) {
			return eq(dsel(y, 0), tZero)
		}
	}
	if x.sort == SF64 || x.sort == SF32 {
		return app("feq."+x.sort.Name, SBool, x, y)
	}
	return goEq(x, y, ta)
}

// goEq is Go's == on values (floats inside structs compare with feq).
func goEq(x, y *Term, t types.Type) *Term {
	if x.sort == SF64 || x.sort == SF32 {
		return app("feq."+x.sort.Name, SBool, x, y)
	}
	if a, ok := under(t).(*types.Array); ok && a.Len() <= 16 {
		var cs []*Term
		for i := int64(0); i < a.Len(); i++ {
			cs = append(cs, goEq(sel(x, intT(i)), sel(y, intT(i)), a.Elem()))
		}
		return and(cs...)
	}
	if s, ok := under(t).(*types.Struct); ok && x.sort.DT != nil && hasFloat(t) {
		var cs []*Term
		for i := 0; i < s.NumFields(); i++ {
			cs = append(cs, goEq(dsel(x, i), dsel(y, i), s.Field(i).Type()))
		}
		return and(cs...)
	}
	return eq(x, y)
}

func hasFloat(t types.Type) bool {
	switch u := under(t).(type) {
	case *types.Basic:
		return u.Info()&types.IsFloat != 0
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasFloat(u.Field(i).Type()) {
				return true
			}
		}
	case *types.Array:
		return hasFloat(u.Elem())
	}
	return false
}

func (ex *Exec) arith(st *State, op token.Token, a, b *Term, ta, tr types.Type, pos string) *Term {
	if isStringT(ta) {
		switch op {
		case token.ADD:
			return strcat(a, b)
		case token.LSS:
			return app("strlt", SBool, a, b)
		case token.GTR:
			return app("strlt", SBool, b, a)
		case token.LEQ:
			return not(app("strlt", SBool, b, a))
		case token.GEQ:
			return not(app("strlt", SBool, a, b))
		}
	}
	if isFloatT(ta) {
		s := a.sort
		switch op {
		case token.ADD:
			return app("fadd."+s.Name, s, a, b)
		case token.SUB:
			return app("fsub."+s.Name, s, a, b)
		case token.MUL:
			return app("fmul."+s.Name, s, a, b)
		case token.QUO:
			return app("fdiv."+s.Name, s, a, b)
		case token.LSS:
			return app("flt."+s.Name, SBool, a, b)
		case token.GTR:
			return app("flt."+s.Name, SBool, b, a)
		case token.LEQ:
			return app("fle."+s.Name, SBool, a, b)
		case token.GEQ:
			return app("fle."+s.Name, SBool, b, a)
		}
	}
	if isIntegerT(ta) {
		switch op {
		case token.ADD:
			return wrapInt(tr, add(a, b))
		case token.SUB:
			return wrapInt(tr, sub(a, b))
		case token.MUL:
			return wrapInt(tr, mul(a, b))
		case token.QUO:
			ex.check(st, neq(b, tZero), "division by zero", pos)
			if isUnsigned(ta) && isInt(b) {
				return smtDiv(a, b)
			}
			return wrapInt(tr, goDiv(a, b))
		case token.REM:
			ex.check(st, neq(b, tZero), "division by zero", pos)
			if isUnsigned(ta) && isInt(b) {
				return smtMod(a, b)
			}
			return goMod(a, b)
		case token.LSS:
			return lt(a, b)
		case token.GTR:
			return lt(b, a)
		case token.LEQ:
			return le(a, b)
		case token.GEQ:
			return le(b, a)
		case token.SHL:
			return ex.shl(a, b, tr)
		case token.SHR:
			if isInt(b) && b.n.IsInt64() && b.n.Int64() < 64 {
				return smtDiv(a, pow2(int(b.n.Int64())))
			}
			return app("shr", SInt, a, b)
		case token.AND:
			return bitAnd(a, b, tr)
		case token.OR:
			return bitOr(a, b, tr)
		case token.XOR:
			return app("bxor", SInt, a, b)
		case token.AND_NOT:
			return bitAndNot(a, b, tr)
		}
	}
	if b, ok := under(ta).(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
		switch op {
		case token.LAND, token.AND:
			return and(a, b2(b, a))
		}
	}
	panic(unsupp("operator %s on %s", op, ta))
}

func b2(_ *types.Basic, a *Term) *Term { return a }

// ---------- bit operations ----------
// 1<<k stays symbolic as shl1(k,bits); x&(1<<k), x|(1<<k), x&^(1<<k) become bit tests and updates.

func (ex *Exec) shl(a, b *Term, t types.Type) *Term {
	if isInt(b) && b.n.IsInt64() && b.n.Int64() < 64 {
		return wrapInt(t, mul(a, pow2(int(b.n.Int64()))))
	}
	if a == tOne {
		return app(fmt.Sprintf("shl1.%d", intBits(t)), SInt, b)
	}
	return app("shl", SInt, a, b)
}

func isShl1(t *Term) (*Term, bool) {
	if t.op == "uf" && strings.HasPrefix(t.name, "shl1.") {
		return t.args[0], true
	}
	if isInt(t) && t.n.Sign() > 0 && t.n.BitLen() == int(t.n.TrailingZeroBits())+1 {
		return intT(int64(t.n.TrailingZeroBits())), true
	}
	return nil, false
}

func bitOf(x, k *Term) *Term {
	if isInt(x) && isInt(k) && k.n.IsInt64() {
		return boolT(x.n.Bit(int(k.n.Int64())) == 1)
	}
	return app("bit", SBool, x, k)
}

func bitAnd(a, b *Term, t types.Type) *Term {
	if isInt(a) && isInt(b) {
		return bigInt(newBig().And(a.n, b.n))
	}
	if k, ok := isShl1(b); ok {
		return app("band1", SInt, a, k) // 2^k if bit k of a else 0
	}
	if k, ok := isShl1(a); ok {
		return app("band1", SInt, b, k)
	}
	// x & ^(1<<k) with a constant k
	if isUnsigned(t) {
		for _, p := range [][2]*Term{{a, b}, {b, a}} {
			if isInt(p[1]) && p[1].n.Sign() >= 0 {
				c := newBig().Xor(p[1].n, pow2m1(intBits(t)).n)
				if c.Sign() > 0 && c.BitLen() == int(c.TrailingZeroBits())+1 {
					return app("bclr", SInt, p[0], intT(int64(c.TrailingZeroBits())))
				}
			}
		}
	}
	// x & (2^n - 1)
	for i := 0; i < 2; i++ {
		if isInt(b) && b.n.Sign() >= 0 {
			n := b.n.BitLen()
			if b.n.Cmp(pow2m1(n).n) == 0 {
				return smtMod(a, pow2(n))
			}
			// contiguous mask ((2^n-1) << s): (a div 2^s mod 2^n) * 2^s
			s := int(b.n.TrailingZeroBits())
			m := newBig().Rsh(b.n, uint(s))
			if m.Cmp(pow2m1(m.BitLen()).n) == 0 {
				return mul(pow2(s), smtMod(smtDiv(a, pow2(s)), pow2(m.BitLen())))
			}
		}
		a, b = b, a
	}
	if b.op == "uf" && strings.HasPrefix(b.name, "bcompl") {
		return bitAndNot(a, b.args[0], t)
	}
	if a.op == "uf" && strings.HasPrefix(a.name, "bcompl") {
		return bitAndNot(b, a.args[0], t)
	}
	return app("band", SInt, a, b)
}

func bitOr(a, b *Term, t types.Type) *Term {
	if isInt(a) && isInt(b) {
		return bigInt(newBig().Or(a.n, b.n))
	}
	if a == tZero {
		return b
	}
	if b == tZero {
		return a
	}
	if ma, mb := bitMask(a), bitMask(b); ma != nil && mb != nil && newBig().And(ma, mb).Sign() == 0 {
		return add(a, b)
	}
	if k, ok := isShl1(b); ok {
		return app("bset", SInt, a, k)
	}
	if k, ok := isShl1(a); ok {
		return app("bset", SInt, b, k)
	}
	return app("bor", SInt, a, b)
}

func bitAndNot(a, b *Term, t types.Type) *Term {
	if isInt(a) && isInt(b) {
		return bigInt(newBig().AndNot(a.n, b.n))
	}
	if k, ok := isShl1(b); ok {
		return app("bclr", SInt, a, k)
	}
	if isInt(b) && b.n.Sign() >= 0 {
		return sub(a, bitAnd(a, b, t))
	}
	return app("bandnot", SInt, a, b)
}

func bitNot(a *Term, t types.Type) *Term {
	bits := intBits(t)
	if isUnsigned(t) {
		if isInt(a) {
			return bigInt(newBig().Xor(a.n, pow2m1(bits).n))
		}
		if _, ok := isShl1(a); ok {
			return app(fmt.Sprintf("bcompl.%d", bits), SInt, a)
		}
		return sub(pow2m1(bits), a)
	}
	return sub(intT(-1), a)
}

func strcat(a, b *Term) *Term {
	if a.op == "strlit" && b.op == "strlit" {
		return strLit(a.name + b.name)
	}
	if a.op == "strlit" && a.name == "" {
		return b
	}
	if b.op == "strlit" && b.name == "" {
		return a
	}
	return app("strcat", SStr, a, b)
}

func strlen(a *Term) *Term {
	if a.op == "strlit" {
		return intT(int64(len(a.name)))
	}
	return app("strlen", SInt, a)
}

// ---------- conversions ----------

func (ex *Exec) convert(st *State, v *Term, from, to types.Type) *Term {
	fu, tu := under(from), under(to)
	fb, fok := fu.(*types.Basic)
	tb, tok := tu.(*types.Basic)
	if fok && tok {
		fi, ti := fb.Info(), tb.Info()
		switch {
		case fb.Kind() == types.UnsafePointer || tb.Kind() == types.UnsafePointer:
			return v
		case fi&types.IsInteger != 0 && ti&types.IsInteger != 0:
			if tb.Kind() == types.Uintptr || fb.Kind() == types.Uintptr {
				return v
			}
			if widening(from, to) {
				return v
			}
			return wrapInt(to, v)
		case fi&types.IsInteger != 0 && ti&types.IsFloat != 0:
			if v == tZero {
				return zeroTerm(to)
			}
			return app("i2f."+sortOf(to).Name, sortOf(to), v)
		case fi&types.IsFloat != 0 && ti&types.IsInteger != 0:
			r := app(fmt.Sprintf("f2i.%s.%s", v.sort.Name, tb.Name()), SInt, v)
			for _, x := range intRange(to, r) {
				ex.assume(st, x, "range of float conversion")
			}
			return r
		case fi&types.IsFloat != 0 && ti&types.IsFloat != 0:
			if sortOf(from) == sortOf(to) {
				return v
			}
			return app("fcvt."+sortOf(from).Name+"."+sortOf(to).Name, sortOf(to), v)
		case fi&types.IsString != 0 && ti&types.IsString != 0:
			return v
		case fi&types.IsInteger != 0 && ti&types.IsString != 0:
			return app("str.of.rune", SStr, v)
		}
	}
	if tok && tb.Kind() == types.UnsafePointer || fok && fb.Kind() == types.UnsafePointer {
		return v
	}
	if fok && fb.Info()&types.IsString != 0 {
		if sl, ok := tu.(*types.Slice); ok {
			// []byte(s) / []rune(s): fresh slice with content determined by s
			c := compElem(sl.Elem())
			r := ex.newRef(st, "bytes")
			content := app("strbytes."+sanitize(elemKey(sl.Elem())), c.sort.V, v)
			ex.set(st, c, store(ex.get(st, c), r, content))
			n := app("strlen."+sanitize(elemKey(sl.Elem())), SInt, v)
			ex.assume(st, le(tZero, n), "length")
			return mkDT(SSlc, r, tZero, n, n)
		}
	}
	if tok && tb.Info()&types.IsString != 0 {
		if sl, ok := fu.(*types.Slice); ok {
			c := compElem(sl.Elem())
			return app("str.of."+sanitize(elemKey(sl.Elem())), SStr, sel(ex.get(st, c), dsel(v, 0)), dsel(v, 1), dsel(v, 2))
		}
	}
	if sortOf(from) == sortOf(to) {
		return v
	}
	panic(unsupp("conversion %s to %s", from, to))
}

// ---------- instructions ----------

func (f *Frame) instr(in ssa.Instruction, st *State) *State {
	ex := f.ex
	switch x := in.(type) {
	case *ssa.Alloc:
		t := x.Type().(*types.Pointer).Elem()
		if _, isArr := under(t).(*types.Array); isArr || allocIsCell(x) {
			c := ex.cell(f.path, x.Name(), x.Comment, t)
			c.alloc = x
			s, ok := trySort(t)
			if ok {
				_ = s
				st.cells[c] = zeroTerm(t)
			} else {
				st.cells[c] = &Poison{"uninitialised " + x.Comment}
			}
			f.env[x] = &Addr{kind: ACell, cell: c, typ: t}
			if x.Comment != "" {
				f.nameCell(x.Comment, c)
				f.allocOf[c] = x
			}
			return st
		}
		r := ex.newRef(st, x.Comment)
		ex.initObject(st, r, t)
		if _, ok := under(t).(*types.Struct); ok && !isTime(t) {
			f.env[x] = &Addr{kind: AHeap, ref: r, typ: t}
		} else {
			f.env[x] = &Addr{kind: ABasic, ref: r, typ: t}
		}
		if x.Comment != "" && x.Comment != "new" && x.Comment != "complit" {
			// a named local whose address escapes: reachable in specs through a cell holding its address
			c := ex.cell(f.path, x.Name()+"&", x.Comment, x.Type())
			st.cells[c] = f.env[x]
			f.nameCell("&"+x.Comment, c)
			f.allocOf[c] = x
		}
		return st
	case *ssa.Store:
		a := f.addrOf(st, f.val(x.Addr), x.Addr.Type(), f.pos(x.Pos()))
		v := f.val(x.Val)
		ex.storeTo(st, a, v, f.pos(x.Pos()))
		return st
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			a := f.addrOf(st, f.val(x.X), x.X.Type(), f.pos(x.Pos()))
			v := ex.load(st, a)
			if p, ok := v.(*Poison); ok {
				_ = p
			}
			f.env[x] = v
		case token.NOT:
			f.env[x] = not(f.term(x.X))
		case token.SUB:
			v := f.term(x.X)
			if isFloatT(x.Type()) {
				f.env[x] = app("fneg."+v.sort.Name, v.sort, v)
			} else {
				f.env[x] = wrapInt(x.Type(), neg(v))
			}
		case token.XOR:
			f.env[x] = bitNot(f.term(x.X), x.Type())
		case token.ARROW:
			ex.set(st, compOut, sub(ex.get(st, compOut), tOne))
			el := under(x.X.Type()).(*types.Chan).Elem()
			v := fresh("recv", sortOf(el))
			if x.CommaOk {
				f.env[x] = Tuple{v, fresh("recvok", SBool)}
			} else {
				f.env[x] = v
			}
		default:
			panic(unsupp("unary %s", x.Op))
		}
		return st
	case *ssa.BinOp:
		f.env[x] = f.binop(st, x)
		return st
	case *ssa.FieldAddr:
		v := f.val(x.X)
		a := f.addrOf(st, v, x.X.Type(), f.pos(x.Pos()))
		stt := under(under(x.X.Type()).(*types.Pointer).Elem()).(*types.Struct)
		f.env[x] = a.extend(PathElem{field: x.Field, typ: stt.Field(x.Field).Type()})
		return st
	case *ssa.Field:
		f.env[x] = dsel(f.term(x.X), x.Field)
		return st
	case *ssa.IndexAddr:
		i := f.term(x.Index)
		pos := f.pos(x.Pos())
		switch u := under(x.X.Type()).(type) {
		case *types.Slice:
			s := f.term(x.X)
			ex.check(st, and(le(tZero, i), lt(i, dsel(s, 2))), "index out of range", pos)
			f.env[x] = &Addr{kind: AElem, ref: dsel(s, 0), idx: add(dsel(s, 1), i), typ: u.Elem()}
		case *types.Pointer:
			a := f.addrOf(st, f.val(x.X), x.X.Type(), pos)
			arr := under(u.Elem()).(*types.Array)
			ex.check(st, and(le(tZero, i), lt(i, intT(arr.Len()))), "index out of range", pos)
			f.env[x] = a.extend(PathElem{field: -1, idx: i, typ: arr.Elem()})
		default:
			panic(unsupp("IndexAddr on %s", x.X.Type()))
		}
		return st
	case *ssa.Index:
		i := f.term(x.Index)
		switch u := under(x.X.Type()).(type) {
		case *types.Array:
			ex.check(st, and(le(tZero, i), lt(i, intT(u.Len()))), "index out of range", f.pos(x.Pos()))
			f.env[x] = sel(f.term(x.X), i)
		case *types.Basic:
			s := f.term(x.X)
			ex.check(st, and(le(tZero, i), lt(i, strlen(s))), "index out of range", f.pos(x.Pos()))
			v := app("strat", SInt, s, i)
			ex.assume(st, and(le(tZero, v), le(v, intT(255))), "byte")
			f.env[x] = v
		default:
			panic(unsupp("Index on %s", x.X.Type()))
		}
		return st
	case *ssa.Lookup:
		switch u := under(x.X.Type()).(type) {
		case *types.Map:
			m, k := f.term(x.X), f.term(x.Index)
			ex.readCheck(st, compMD(u))
			v := sel(sel(ex.get(st, compMV(u)), m), k)
			if x.CommaOk {
				f.env[x] = Tuple{v, sel(sel(ex.get(st, compMD(u)), m), k)}
			} else {
				f.env[x] = v
			}
		default:
			s, i := f.term(x.X), f.term(x.Index)
			ex.check(st, and(le(tZero, i), lt(i, strlen(s))), "index out of range", f.pos(x.Pos()))
			v := app("strat", SInt, s, i)
			ex.assume(st, and(le(tZero, v), le(v, intT(255))), "byte")
			f.env[x] = v
		}
		return st
	case *ssa.MapUpdate:
		u := under(x.Map.Type()).(*types.Map)
		m, k, v := f.term(x.Map), f.term(x.Key), f.term(x.Value)
		pos := f.pos(x.Pos())
		ex.check(st, neq(m, tZero), "write to nil map", pos)
		md, mv := compMD(u), compMV(u)
		ex.checkWrite(st, md, m, tTrue, pos)
		ex.checkWrite(st, mv, m, tTrue, pos)
		d, w := ex.get(st, md), ex.get(st, mv)
		ex.set(st, md, store(d, m, store(sel(d, m), k, tTrue)))
		ex.set(st, mv, store(w, m, store(sel(w, m), k, v)))
		return st
	case *ssa.MakeMap:
		u := under(x.Type()).(*types.Map)
		r := ex.newRef(st, "map")
		md, mv := compMD(u), compMV(u)
		ex.set(st, md, store(ex.get(st, md), r, constArr(md.sort.V, tFalse)))
		ex.set(st, mv, store(ex.get(st, mv), r, constArr(mv.sort.V, zeroTerm(u.Elem()))))
		f.env[x] = r
		return st
	case *ssa.MakeSlice:
		u := under(x.Type()).(*types.Slice)
		n, cp := f.term(x.Len), f.term(x.Cap)
		ex.check(st, and(le(tZero, n), le(n, cp)), "makeslice length out of range", f.pos(x.Pos()))
		r := ex.newRef(st, "slice")
		c := compElem(u.Elem())
		ex.set(st, c, store(ex.get(st, c), r, constArr(c.sort.V, zeroTerm(u.Elem()))))
		f.env[x] = mkDT(SSlc, r, tZero, n, cp)
		return st
	case *ssa.MakeChan:
		ex.check(st, le(tZero, f.term(x.Size)), "makechan size out of range", f.pos(x.Pos()))
		f.env[x] = ex.newRef(st, "chan")
		return st
	case *ssa.Slice:
		f.env[x] = f.slice(st, x)
		return st
	case *ssa.Convert:
		f.env[x] = ex.convert(st, f.term(x.X), x.X.Type(), x.Type())
		return st
	case *ssa.ChangeType:
		v := f.val(x.X)
		if t, ok := v.(*Term); ok && sortOf(x.Type()) != t.sort {
			panic(unsupp("change type %s to %s", x.X.Type(), x.Type()))
		}
		f.env[x] = v
		return st
	case *ssa.ChangeInterface:
		f.env[x] = f.val(x.X)
		return st
	case *ssa.MakeInterface:
		f.env[x] = &IfaceVal{x.X.Type(), f.val(x.X)}
		return st
	case *ssa.MakeClosure:
		var bs []Val
		for _, b := range x.Bindings {
			bs = append(bs, f.val(b))
		}
		f.env[x] = &Closure{x.Fn.(*ssa.Function), bs}
		return st
	case *ssa.Extract:
		v := f.val(x.Tuple)
		tp, ok := v.(Tuple)
		if !ok {
			panic(unsupp("extract from %T", v))
		}
		f.env[x] = tp[x.Index]
		return st
	case *ssa.TypeAssert:
		if iv, ok := f.val(x.X).(*IfaceVal); ok && types.Identical(iv.typ, x.AssertedType) {
			if x.CommaOk {
				f.env[x] = Tuple{iv.val, tTrue}
			} else {
				f.env[x] = iv.val
			}
			return st
		}
		t := f.term(x.X)
		v := app("ifc.as."+sanitize(shortType(x.AssertedType)), sortOf(x.AssertedType), t)
		for _, tv := range typeValid(x.AssertedType, v, ex.get(st, compAlloc)) {
			ex.assume(st, tv, "type validity")
		}
		is := app("ifc.is."+sanitize(shortType(x.AssertedType)), SBool, t)
		if x.CommaOk {
			f.env[x] = Tuple{v, is}
		} else {
			ex.check(st, is, "failed type assertion", f.pos(x.Pos()))
			f.env[x] = v
		}
		return st
	case *ssa.Range:
		f.env[x] = f.rangeStart(st, x)
		return st
	case *ssa.Next:
		return f.next(st, x)
	case *ssa.Send:
		// completion signal of a worker
		if ex.inGo > 0 {
			ex.obligation(st, not(ex.get(st, compSig)), "worker signals completion once", f.pos(x.Pos()))
			ex.set(st, compSig, tTrue)
		} else {
			panic(unsupp("channel send outside a worker goroutine"))
		}
		return st
	case *ssa.Go:
		return f.goStmt(st, x)
	case *ssa.Defer:
		if n := calleeName(&x.Call); isIgnoredCall(n) {
			return st
		}
		panic(unsupp("defer"))
	case *ssa.RunDefers:
		return st
	case *ssa.Call:
		v, ns := f.call(st, &x.Call, x, f.pos(x.Pos()))
		f.env[x] = v
		return ns
	}
	panic(unsupp("instruction %T: %s", in, in))
}

func (f *Frame) slice(st *State, x *ssa.Slice) Val {
	ex := f.ex
	pos := f.pos(x.Pos())
	var lo, hi, mx *Term
	if x.Low != nil {
		lo = f.term(x.Low)
	}
	if x.High != nil {
		hi = f.term(x.High)
	}
	if x.Max != nil {
		mx = f.term(x.Max)
	}
	if lo == nil {
		lo = tZero
	}
	switch u := under(x.X.Type()).(type) {
	case *types.Basic: // string
		s := f.term(x.X)
		if hi == nil {
			hi = strlen(s)
		}
		ex.check(st, and(le(tZero, lo), le(lo, hi), le(hi, strlen(s))), "slice bounds out of range", pos)
		return app("substr", SStr, s, lo, hi)
	case *types.Slice:
		s := f.term(x.X)
		if hi == nil {
			hi = dsel(s, 2)
		}
		if mx == nil {
			mx = dsel(s, 3)
		}
		ex.check(st, and(le(tZero, lo), le(lo, hi), le(hi, mx), le(mx, dsel(s, 3))), "slice bounds out of range", pos)
		return mkDT(SSlc, dsel(s, 0), add(dsel(s, 1), lo), sub(hi, lo), sub(mx, lo))
	case *types.Pointer:
		arr := under(u.Elem()).(*types.Array)
		a, ok := f.val(x.X).(*Addr)
		if !ok {
			panic(unsupp("slice of array pointer"))
		}
		if hi == nil {
			hi = intT(arr.Len())
		}
		if mx == nil {
			mx = intT(arr.Len())
		}
		ex.check(st, and(le(tZero, lo), le(lo, hi), le(hi, mx), le(mx, intT(arr.Len()))), "slice bounds out of range", pos)
		if al, ok := x.X.(*ssa.Alloc); !ok || (al.Comment != "makeslice" && al.Comment != "varargs" && al.Comment != "slicelit") {
			panic(unsupp("slice of an array variable"))
		}
		// varargs or composite literal: the array becomes a fresh backing store
		if a.kind == ACell && len(a.path) == 0 {
			c := compElem(arr.Elem())
			r := ex.newRef(st, "arr")
			var content *Term
			if v, ok := ex.tryTerm(st.cells[a.cell]); ok {
				content = v
			} else {
				content = fresh("arr", c.sort.V)
			}
			ex.set(st, c, store(ex.get(st, c), r, content))
			return mkDT(SSlc, r, lo, sub(hi, lo), sub(mx, lo))
		}
	}
	panic(unsupp("slice of %s", x.X.Type()))
}

// ---------- ranges over maps and strings ----------

func (f *Frame) rangeStart(st *State, x *ssa.Range) Val {
	ex := f.ex
	switch u := under(x.X.Type()).(type) {
	case *types.Map:
		m := f.term(x.X)
		it := &RangeIter{isMap: true, m: m, mt: u}
		ex.readCheck(st, compMD(u))
		it.dom0 = sel(ex.get(st, compMD(u)), m)
		it.visCell = ex.cell(f.path, "$visited#"+x.Name(), "$visited", nil)
		st.cells[it.visCell] = constArr(arraySort(sortOf(u.Key()), SBool), tFalse)
		return it
	case *types.Basic:
		return &RangeIter{str: f.term(x.X), cntCell: nil}
	}
	panic(unsupp("range over %s", x.X.Type()))
}

func (f *Frame) next(st *State, x *ssa.Next) *State {
	ex := f.ex
	it, ok := f.val(x.Iter).(*RangeIter)
	if !ok {
		panic(unsupp("next"))
	}
	if !it.isMap {
		okc := fresh("ok", SBool)
		k := fresh("k", SInt)
		v := fresh("rune", SInt)
		ex.assume(st, implies(okc, and(le(tZero, k), lt(k, strlen(it.str)), le(tZero, v))), "string range")
		f.env[x] = Tuple{okc, k, v}
		return st
	}
	for i := len(f.curLoop) - 1; i >= 0; i-- {
		if f.curLoop[i].rng == nil {
			f.curLoop[i].rng = it
		}
		break
	}
	ks := sortOf(it.mt.Key())
	okc := fresh("ok", SBool)
	k := fresh("key", ks)
	dom := sel(ex.get(st, compMD(it.mt)), it.m)
	vis := st.cells[it.visCell].(*Term)
	ex.assume(st, implies(okc, and(sel(dom, k), not(sel(vis, k)))), "map range yields an unvisited key")
	if dom == it.dom0 { // key set unchanged by the loop: fewer rounds so far than keys
		for i := len(f.curLoop) - 1; i >= 0; i-- {
			if c := f.curLoop[i]; c.rng == it {
				if n, ok := st.cells[c.iter].(*Term); ok {
					ex.assume(st, implies(okc, lt(n, app(cardName(dom.sort), SInt, dom))), "map range: one round per key")
				}
			}
		}
	}
	for _, tv := range typeValid(it.mt.Key(), k, ex.get(st, compAlloc)) {
		ex.assume(st, tv, "key validity")
	}
	q := boundVar("k", 0, ks)
	trig := sel(it.dom0, q)
	var trigs [][]*Term
	if trig.op == "select" {
		trigs = append(trigs, []*Term{trig})
	}
	if t2 := sel(vis, q); t2.op == "select" {
		trigs = append(trigs, []*Term{t2})
	}
	if t3 := sel(dom, q); t3.op == "select" && t3 != trig {
		trigs = append(trigs, []*Term{t3})
	}
	ex.assume(st, implies(not(okc), forall([]*Term{q}, trigs, implies(and(sel(it.dom0, q), sel(dom, q)), sel(vis, q)))), "map range is complete")
	ex.recordCell(it.visCell)
	nv := fresh("$visited", vis.sort)
	ex.assume(st, implies(okc, eq0(nv, store(vis, k, tTrue))), "visited")
	ex.assume(st, implies(not(okc), eq0(nv, vis)), "visited")
	st.cells[it.visCell] = nv
	v := sel(sel(ex.get(st, compMV(it.mt)), it.m), k)
	f.env[x] = Tuple{okc, k, v}
	return st
}

// ---------- goroutines ----------

func (f *Frame) goStmt(st *State, x *ssa.Go) *State {
	ex := f.ex
	ex.goUsed = true
	pos := f.pos(x.Pos())
	ex.note("goroutines are run sequentially at their spawn point; workers are assumed race free (each is checked to signal exactly once, last, and to be awaited before its results are read)")
	ws := newWriteSet()
	ex.writes = append(ex.writes, ws)
	ex.inGo++
	oldSig := ex.get(st, compSig)
	st.heap[compSig.key] = tFalse
	_, ns := f.call(st, &x.Call, nil, pos)
	ex.inGo--
	ex.writes = ex.writes[:len(ex.writes)-1]
	if ns == nil {
		return nil
	}
	if ex.inGo == 0 {
		for c := range ws.comps {
			if comps[c].refIndexed() || comps[c].kind == "G" {
				ex.goWrites[c] = true
			}
		}
		for _, l := range ex.loopStk {
			ex.goLoops[l] = true
		}
	}
	ex.obligation(ns, ex.get(ns, compSig), "worker signals completion", pos)
	ns.heap[compSig.key] = oldSig
	ex.set(ns, compOut, add(ex.get(ns, compOut), tOne))
	return ns
}

func newBig() *bigI { return new(bigI) }

type bigI = big.Int

func (f *Frame) nameCell(n string, c *Cell) {
	for _, o := range f.named[n] {
		if o == c {
			return
		}
	}
	f.named[n] = append(f.named[n], c)
}
