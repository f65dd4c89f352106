package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Intrinsics: contracts on dependencies outside the repository (Go's standard library).
// Each one is an assumption, listed in the evidence through ex.note.

func (f *Frame) intrinsic(st *State, fn *ssa.Function, name string, args []Val, results *types.Tuple, pos string) (Val, *State, bool) {
	ex := f.ex
	t := func(i int) *Term { return ex.term(args[i]) }
	isLit := func(i int, n int64) bool {
		x, ok := args[i].(*Term)
		return ok && isInt(x) && x.n.IsInt64() && x.n.Int64() == n
	}
	switch name {
	case "time.Date":
		if !(isLit(3, 12) && isLit(4, 0) && isLit(5, 0) && isLit(6, 0)) {
			panic(unsupp("time.Date with a time of day other than noon"))
		}
		ex.note("contract of package time: proleptic Gregorian calendar, noon UTC instants are day numbers")
		return app("daynum", SInt, t(0), t(1), t(2)), st, true
	case "time.Time.Before":
		return lt(t(0), t(1)), st, true
	case "time.Time.After":
		return lt(t(1), t(0)), st, true
	case "time.Time.Equal":
		return eq(t(0), t(1)), st, true
	case "time.Time.Weekday":
		return smtMod(add(t(0), intT(4)), intT(7)), st, true
	case "time.Time.Day":
		return app("tday", SInt, t(0)), st, true
	case "time.Time.Month":
		return app("tmonth", SInt, t(0)), st, true
	case "time.Time.Year":
		return app("tyear", SInt, t(0)), st, true
	case "time.Time.AddDate":
		if !(isLit(1, 0) && isLit(2, 0)) {
			panic(unsupp("AddDate with years or months"))
		}
		return add(t(0), t(3)), st, true
	case "time.Time.Sub":
		return app("tsub", SInt, sub(t(0), t(1))), st, true
	case "time.Duration.Hours":
		d := t(0)
		if d.op == "uf" && d.name == "tsub" {
			return app("hoursOfDays", SF64, d.args[0]), st, true
		}
		return app("dur.hours", SF64, d), st, true
	case "url.URL.String":
		pt := fn.Signature.Recv().Type().(*types.Pointer)
		ex.note("(*url.URL).String is a function of the URL's fields")
		return app("ext.url.URL.String", SStr, ex.term(ex.loadQuiet(st, f.ptrAddr(t(0), pt)))), st, true
	case "strconv.Itoa":
		return app("ext.strconv.FormatInt", SStr, t(0), intT(10)), st, true
	case "runtime.GOMAXPROCS", "runtime.NumCPU":
		v := fresh("ncpu", SInt)
		ex.assume(st, and(le(tOne, v), le(v, intT(1<<20))), "number of CPUs")
		ex.note("runtime.GOMAXPROCS/NumCPU return a positive number")
		return v, st, true
	case "sort.Slice", "sort.SliceStable":
		iv, ok := args[0].(*IfaceVal)
		if !ok {
			panic(unsupp("sort.Slice of unknown slice"))
		}
		sl, ok := under(iv.typ).(*types.Slice)
		if !ok {
			panic(unsupp("sort.Slice of %s", iv.typ))
		}
		s := ex.term(iv.val)
		checkNoEffect(args[1], name)
		ex.permute(st, s, sl.Elem(), pos)
		ex.note("contract of sort.Slice: permutes the elements (order not used)")
		return Tuple{}, st, true
	case "sort.Find", "sort.Search":
		r := fresh("found", SInt)
		ex.assume(st, and(le(tZero, r), implies(le(tZero, t(0)), le(r, t(0))), implies(lt(t(0), tZero), eq(r, tZero))), name)
		checkNoEffect(args[1], name)
		ex.note("contract of " + name + ": a position from 0 to n (which one is not used)")
		if name == "sort.Search" {
			return r, st, true
		}
		return Tuple{r, fresh("isfound", SBool)}, st, true
	case "math.Abs":
		return app("fabs.F64", SF64, t(0)), st, true
	case "math.NaN":
		v := fresh("nan", SF64)
		ex.assume(st, app("fisnan", SBool, v), "math.NaN")
		return v, st, true
	case "math.IsNaN":
		return app("fisnan", SBool, t(0)), st, true
	case "hash/fnv.New32a", "fnv.New32a", "fnv.New64a", "fnv.New32", "fnv.New64":
		return ex.freshResults(st, results, name), st, true
	}
	if name == "binary.littleEndian.PutUint64" || name == "binary.littleEndian.PutUint32" {
		s := ex.term(args[1])
		c := compElem(types.Typ[types.Uint8])
		cur := ex.get(st, c)
		nr := fresh("put", c.sort.V)
		j := boundVar("j", 0, SInt)
		ex.assume(st, forall([]*Term{j}, [][]*Term{{sel(nr, j)}}, and(le(tZero, sel(nr, j)), le(sel(nr, j), intT(255)))), "bytes")
		ex.checkWrite(st, c, dsel(s, 0), tTrue, pos)
		ex.set(st, c, store(cur, dsel(s, 0), nr))
		return Tuple{}, st, true
	}
	return nil, nil, false
}

// checkNoEffect refuses a function passed to package sort unless it visibly writes nothing but its own locals.
func checkNoEffect(v Val, name string) {
	var fn *ssa.Function
	switch x := v.(type) {
	case *Closure:
		fn = x.fn
	case *ssa.Function:
		fn = x
	}
	if fn == nil || !noEffect(fn, 4) {
		panic(unsupp("%s with a function that may have an effect (%T)", name, v))
	}
}

func noEffect(fn *ssa.Function, depth int) bool {
	if fn == nil || len(fn.Blocks) == 0 || depth == 0 {
		return false
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				a := x.Addr
				for {
					if fa, ok := a.(*ssa.FieldAddr); ok {
						a = fa.X
						continue
					}
					if ia, ok := a.(*ssa.IndexAddr); ok {
						if _, arr := ia.X.Type().Underlying().(*types.Pointer); arr {
							a = ia.X
							continue
						}
					}
					break
				}
				if _, ok := a.(*ssa.Alloc); !ok {
					return false
				}
			case *ssa.MapUpdate, *ssa.Send, *ssa.Go, *ssa.Defer, *ssa.Select, *ssa.Panic:
				return false
			case *ssa.UnOp:
				if x.Op == token.ARROW {
					return false
				}
			case *ssa.Call:
				c := x.Call
				if bi, ok := c.Value.(*ssa.Builtin); ok {
					if bi.Name() == "ssa:deferstack" || bi.Name() == "ssa:wrapnilchk" || bi.Name() == "len" || bi.Name() == "cap" || bi.Name() == "min" || bi.Name() == "max" {
						continue
					}
					return false
				}
				g := c.StaticCallee()
				if g == nil {
					return false
				}
				if p := g.Package(); p != nil && (p.Pkg.Path() == "math" || p.Pkg.Path() == "strings") {
					continue
				}
				if !noEffect(g, depth-1) {
					return false
				}
			}
		}
	}
	return true
}

var permCtr int

// permute replaces the elements of s by a permutation of them.
func (ex *Exec) permute(st *State, s *Term, el types.Type, pos string) {
	c := compElem(el)
	cur := ex.get(st, c)
	old := sel(cur, dsel(s, 0))
	off, n := dsel(s, 1), dsel(s, 2)
	nr := fresh("sorted", c.sort.V)
	permCtr++
	p := fmt.Sprintf("perm.p%d", permCtr)
	q := fmt.Sprintf("perm.q%d", permCtr)
	j := boundVar("j", 0, SInt)
	in := and(le(off, j), lt(j, add(off, n)))
	pj, qj := app(p, SInt, j), app(q, SInt, j)
	rng := func(x *Term) *Term { return and(le(off, x), lt(x, add(off, n))) }
	ex.assume(st, forall([]*Term{j}, [][]*Term{{sel(nr, j)}}, ite(in, and(eq(sel(nr, j), sel(old, pj)), rng(pj), eq(app(q, SInt, pj), j)), eq(sel(nr, j), sel(old, j)))), "permutation")
	if old.op != "constarr" {
		ex.assume(st, forall([]*Term{j}, [][]*Term{{sel(old, j)}}, implies(in, and(eq(sel(nr, qj), sel(old, j)), rng(qj), eq(app(p, SInt, qj), j)))), "permutation")
	}
	ex.checkWrite(st, c, dsel(s, 0), lt(tOne, n), pos)
	ex.set(st, c, store(cur, dsel(s, 0), nr))
}

// ---------- background axioms ----------

type BgAxiom struct {
	name string
	need []string // included when all of these function symbols occur
	mk   func() *Term
}

const dayLo = -25567 // 1900-01-01
const dayHi = 67934  // 2155-12-31

func bgAxioms() []BgAxiom {
	x, y, z := boundVar("x", 0, SInt), boundVar("y", 1, SInt), boundVar("z", 2, SInt)
	k, j := boundVar("k", 1, SInt), boundVar("j", 2, SInt)
	a, b := boundVar("a", 0, SStr), boundVar("b", 1, SStr)
	tday := func(t *Term) *Term { return app("tday", SInt, t) }
	tmonth := func(t *Term) *Term { return app("tmonth", SInt, t) }
	tyear := func(t *Term) *Term { return app("tyear", SInt, t) }
	daynum := func(y, m, d *Term) *Term { return app("daynum", SInt, y, m, d) }
	mstart := func(y, m *Term) *Term { return app("mstart", SInt, y, m) }
	mdays := func(y, m *Term) *Term { return app("mdays", SInt, y, m) }
	var zd = daynum(intT(1900), tZero, tZero)
	rng := func(l int64, v *Term, h int64) *Term { return and(le(intT(l), v), le(v, intT(h))) }
	bit := func(x, k *Term) *Term { return app("bit", SBool, x, k) }
	var out []BgAxiom
	add1 := func(name string, need []string, t func() *Term) { out = append(out, BgAxiom{name, need, t}) }
	add1("time: a date is its month's start plus its day", []string{"daynum"}, func() *Term {
		d := daynum(x, y, z)
		return forall([]*Term{x, y, z}, [][]*Term{{d}}, and(
			eq0(d, add(mstart(x, y), z)),
			implies(and(rng(1, y, 12), le(tOne, z), le(z, mdays(x, y))), and(eq(tday(d), z), eq(tmonth(d), y), eq(tyear(d), x))),
			implies(rng(1, y, 12), rng(28, mdays(x, y), 31)),
			implies(and(rng(1900, x, 2155), rng(1, y, 12), le(tOne, z), le(z, mdays(x, y))), rng(dayLo, d, dayHi)),
			implies(and(rng(1901, x, 2155), rng(1, y, 12), le(tOne, z), le(z, mdays(x, y))), le(intT(dayLo+365), d)),
			implies(and(rng(1900, x, 2154), rng(1, y, 12), le(tOne, z), le(z, mdays(x, y))), le(d, intT(dayHi-365)))))
	})
	add1("time: month 0, day 0 of 1900 is 30 November 1899", []string{"daynum"}, func() *Term {
		n := intT(-25599)
		return and(eq0(zd, n), eq(tday(n), intT(30)), eq(tmonth(n), intT(11)), eq(tyear(n), intT(1899)),
			eq(mdays(intT(2155), intT(11)), intT(30)), eq0(daynum(intT(2155), intT(11), intT(30)), intT(67903)))
	})
	timeInv := func() func() *Term {
		return func() *Term {
			return forall([]*Term{x}, [][]*Term{{tday(x)}, {tmonth(x)}, {tyear(x)}}, and(
				rng(1, tmonth(x), 12), le(tOne, tday(x)), le(tday(x), mdays(tyear(x), tmonth(x))), rng(28, mdays(tyear(x), tmonth(x)), 31),
				eq(daynum(tyear(x), tmonth(x), tday(x)), x),
				implies(rng(dayLo, x, dayHi), rng(1900, tyear(x), 2155)),
				implies(rng(dayLo+365, x, dayHi), le(intT(1901), tyear(x))), implies(rng(dayLo, x, dayHi-365), le(tyear(x), intT(2154)))))
		}
	}
	for _, n := range []string{"tday", "tmonth", "tyear"} {
		add1("time: day, month and year determine the date", []string{n}, timeInv())
	}
	add1("float: hours of whole days divided by 24", []string{"hoursOfDays"}, func() *Term {
		h := app("fdiv.F64", SF64, app("hoursOfDays", SF64, x), app("i2f.F64", SF64, intT(24)))
		c := app("f2i.F64.int", SInt, h)
		return forall([]*Term{x}, [][]*Term{{c}}, eq(c, x))
	})
	add1("arithmetic: truncated division", []string{"godiv"}, func() *Term {
		q := app("godiv", SInt, x, y)
		return forall([]*Term{x, y}, [][]*Term{{q}}, implies(and(le(tZero, x), le(tOne, y)),
			and(le(tZero, q), le(mul(y, q), x), lt(x, add(mul(y, q), y)))))
	})
	add1("arithmetic: truncated remainder", []string{"gomod"}, func() *Term {
		r := app("gomod", SInt, x, y)
		return forall([]*Term{x, y}, [][]*Term{{r}}, implies(and(le(tZero, x), le(tOne, y)), and(le(tZero, r), lt(r, y))))
	})
	add1("bits: and with a single bit", []string{"band1"}, func() *Term {
		v := app("band1", SInt, x, k)
		return forall([]*Term{x, k}, [][]*Term{{v}}, and(le(tZero, v), iff(lt(tZero, v), bit(x, k))))
	})
	add1("bits: zero and small values", []string{"bit"}, func() *Term {
		v := bit(x, k)
		var ds []*Term
		for i := int64(0); i < 8; i++ {
			ds = append(ds, bit(x, intT(i)))
		}
		return forall([]*Term{x, k}, [][]*Term{{v}}, and(implies(eq(x, tZero), not(v)), implies(rng(1, x, 255), mk("or", "", SBool, ds...)),
			implies(and(rng(0, x, 255), le(intT(8), k)), not(v)), implies(v, le(tZero, k))))
	})
	add1("bits: set", []string{"bset", "bit"}, func() *Term {
		s := app("bset", SInt, x, k)
		return forall([]*Term{x, k, j}, [][]*Term{{bit(s, j)}}, implies(rng(0, k, 7), iff(bit(s, j), or(bit(x, j), eq(j, k)))))
	})
	add1("bits: set range", []string{"bset"}, func() *Term {
		s := app("bset", SInt, x, k)
		return forall([]*Term{x, k}, [][]*Term{{s}}, implies(and(rng(0, k, 7), rng(0, x, 255)), rng(1, s, 255)))
	})
	add1("bits: clear", []string{"bclr", "bit"}, func() *Term {
		s := app("bclr", SInt, x, k)
		return forall([]*Term{x, k, j}, [][]*Term{{bit(s, j)}}, implies(rng(0, k, 7), iff(bit(s, j), and(bit(x, j), neq(j, k)))))
	})
	add1("bits: clear range", []string{"bclr"}, func() *Term {
		s := app("bclr", SInt, x, k)
		return forall([]*Term{x, k}, [][]*Term{{s}}, implies(and(rng(0, k, 7), rng(0, x, 255)), rng(0, s, 255)))
	})
	add1("bits: or of separate bits is the sum", []string{"bor"}, func() *Term {
		s := app("bor", SInt, x, k)
		cs := []*Term{implies(and(le(tZero, x), le(tZero, k)), and(le(x, s), le(k, s), le(s, add(x, k))))}
		for _, n := range []int{1, 2, 4, 6} {
			p := pow2(n)
			for _, q := range [][2]*Term{{x, k}, {k, x}} {
				cs = append(cs, implies(and(le(tZero, q[0]), lt(q[0], p), le(tZero, q[1]), eq(smtMod(q[1], p), tZero)), eq(s, add(x, k))))
			}
		}
		return forall([]*Term{x, k}, [][]*Term{{s}}, and(cs...))
	})
	add1("bits: shifted one", []string{"shl1.8"}, func() *Term {
		s := app("shl1.8", SInt, x)
		return forall([]*Term{x}, [][]*Term{{s}}, rng(0, s, 255))
	})
	add1("bits: bits of a shifted one", []string{"shl1.8", "bit"}, func() *Term {
		s := app("shl1.8", SInt, x)
		return forall([]*Term{x, j}, [][]*Term{{bit(s, j)}}, implies(rng(0, x, 7), iff(bit(s, j), eq(j, x))))
	})
	for _, n := range sortedKeys(ufs) {
		if len(n) > 5 && n[:5] == "card." {
			n := n
			u := ufs[n]
			ds := u.args[0]
			add1("cardinality "+n, []string{n}, func() *Term {
				d := boundVar("d", 0, ds)
				e := boundVar("e", 1, ds.K)
				card := func(t *Term) *Term { return mk("uf", n, SInt, t) }
				st1 := mk("store", "", ds, d, e, tTrue)
				st0 := mk("store", "", ds, d, e, tFalse)
				w := app("wit."+n, ds.K, d)
				de := mk("select", "", SBool, d, e)
				return and(
					eq0(card(constArr(ds, tFalse)), tZero),
					forall([]*Term{d, e}, [][]*Term{{card(st1)}}, eq0(card(st1), ite(de, card(d), add(card(d), tOne)))),
					forall([]*Term{d, e}, [][]*Term{{card(st0)}}, eq0(card(st0), ite(de, sub(card(d), tOne), card(d)))),
					forall([]*Term{d}, [][]*Term{{card(d)}}, and(le(tZero, card(d)), implies(lt(tZero, card(d)), mk("select", "", SBool, d, w)))),
					forall([]*Term{d, e}, [][]*Term{{card(d), de}}, implies(de, lt(tZero, card(d)))))
			})
		}
	}
	add1("strings: concatenation is injective in its second argument", []string{"strcat"}, func() *Term {
		c := app("strcat", SStr, a, b)
		return forall([]*Term{a, b}, [][]*Term{{c}}, and(eq(app("strcat.tail", SStr, c, a), b), eq(app("strcat.head", SStr, c, b), a)))
	})
	add1("strconv: FormatInt is injective", []string{"ext.strconv.FormatInt"}, func() *Term {
		c := app("ext.strconv.FormatInt", SStr, x, y)
		return forall([]*Term{x, y}, [][]*Term{{c}}, implies(rng(2, y, 36), eq(app("parseInt", SInt, c, y), x)))
	})
	add1("strings: order", []string{"strlt"}, func() *Term {
		c := app("strlt", SBool, a, b)
		return forall([]*Term{a, b}, [][]*Term{{c}}, implies(c, not(app("strlt", SBool, b, a))))
	})
	add1("floats: order", []string{"flt.F64"}, func() *Term {
		fa, fb := boundVar("fa", 0, SF64), boundVar("fb", 1, SF64)
		c := app("flt.F64", SBool, fa, fb)
		return forall([]*Term{fa, fb}, [][]*Term{{c}}, implies(c, not(app("flt.F64", SBool, fb, fa))))
	})
	add1("floats: equality symmetric", []string{"feq.F64"}, func() *Term {
		fa, fb := boundVar("fa", 0, SF64), boundVar("fb", 1, SF64)
		c := app("feq.F64", SBool, fa, fb)
		return forall([]*Term{fa, fb}, [][]*Term{{c}}, implies(c, app("feq.F64", SBool, fb, fa)))
	})
	add1("floats: equality symmetric 32", []string{"feq.F32"}, func() *Term {
		fa, fb := boundVar("fa", 0, SF32), boundVar("fb", 1, SF32)
		c := app("feq.F32", SBool, fa, fb)
		return forall([]*Term{fa, fb}, [][]*Term{{c}}, implies(c, app("feq.F32", SBool, fb, fa)))
	})
	return out
}

// function symbols of the background theory that contracts may name
var bgSymbols = map[string]bool{"daynum": true, "mdays": true, "tday": true, "tmonth": true, "tyear": true}
