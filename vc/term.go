package main

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// ---------- sorts ----------

type Sort struct {
	Name string // SMT-LIB text
	K, V *Sort  // arrays
	DT   *Datatype
}

type Datatype struct {
	Name   string
	Fields []DTField
	sort   *Sort
}

type DTField struct {
	Name string
	S    *Sort
}

var sorts = map[string]*Sort{}
var datatypes []*Datatype // in creation order (dependencies first)
var uSorts []string

func mkSort(name string) *Sort {
	if s, ok := sorts[name]; ok {
		return s
	}
	s := &Sort{Name: name}
	sorts[name] = s
	return s
}

var SInt = mkSort("Int")
var SBool = mkSort("Bool")
var SStr = uSort("Str")
var SF64 = uSort("F64")
var SF32 = uSort("F32")
var SIfc = uSort("Ifc")

func uSort(n string) *Sort {
	if s, ok := sorts[n]; ok {
		return s
	}
	uSorts = append(uSorts, n)
	return mkSort(n)
}

func arraySort(k, v *Sort) *Sort {
	n := "(Array " + k.Name + " " + v.Name + ")"
	if s, ok := sorts[n]; ok {
		return s
	}
	s := &Sort{Name: n, K: k, V: v}
	sorts[n] = s
	return s
}

func mkDatatype(name string, fields []DTField) *Sort {
	if s, ok := sorts[name]; ok {
		return s
	}
	d := &Datatype{Name: name, Fields: fields}
	s := &Sort{Name: name, DT: d}
	d.sort = s
	sorts[name] = s
	datatypes = append(datatypes, d)
	return s
}

var SSlc = mkDatatype("Slc", []DTField{{"arr", SInt}, {"off", SInt}, {"len", SInt}, {"cap", SInt}})

// ---------- terms ----------

type Term struct {
	id   int
	op   string // "const","int","var"(bound), "app" ops
	name string // symbol for const/var/uf/sel/mk; value for int
	args []*Term
	sort *Sort
	n    *big.Int
	// quantifier
	bound []*Term
	trigs [][]*Term
	// definition of a const (for simplification only)
	def  *Term
	hasB bool // contains a bound variable
	mark int
}

var termTab = map[string]*Term{}
var termCount = 0
var allTerms []*Term

func termKey(op, name string, sort *Sort, args []*Term) string {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('|')
	sb.WriteString(name)
	sb.WriteByte('|')
	sb.WriteString(sort.Name)
	for _, a := range args {
		sb.WriteByte('|')
		sb.WriteString(strconv.Itoa(a.id))
	}
	return sb.String()
}

func mk(op, name string, sort *Sort, args ...*Term) *Term {
	k := termKey(op, name, sort, args)
	if t, ok := termTab[k]; ok {
		return t
	}
	termCount++
	t := &Term{id: termCount, op: op, name: name, sort: sort, args: append([]*Term(nil), args...)}
	if op == "var" {
		t.hasB = true
	}
	for _, a := range args {
		if a.hasB {
			t.hasB = true
		}
	}
	termTab[k] = t
	return t
}

var constSorts = map[string]*Sort{}
var freshCtr = map[string]int{}

func mkConst(name string, s *Sort) *Term {
	if o, ok := constSorts[name]; ok && o != s {
		panic("const " + name + " declared with two sorts " + o.Name + " " + s.Name)
	}
	constSorts[name] = s
	return mk("const", name, s)
}

func sanitize(s string) string {
	var sb strings.Builder
	for _, c := range s {
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '.' || c == '$' || c == '!' {
			sb.WriteRune(c)
		} else {
			sb.WriteByte('_')
		}
	}
	return sb.String()
}

func fresh(prefix string, s *Sort) *Term {
	p := sanitize(prefix)
	if strings.HasPrefix(p, ".") || strings.HasPrefix(p, "@") {
		p = "v" + p
	}
	freshCtr[p]++
	return mkConst(fmt.Sprintf("%s!%d", p, freshCtr[p]), s)
}

// boundVar names are canonical per nesting depth, so equal formulas are equal terms.
func boundVar(name string, depth int, s *Sort) *Term {
	return mk("var", fmt.Sprintf("%s?%d", sanitize(name), depth), s)
}

func bigInt(n *big.Int) *Term {
	t := mk("int", n.String(), SInt)
	t.n = new(big.Int).Set(n)
	return t
}
func intT(n int64) *Term { return bigInt(big.NewInt(n)) }

var tTrue = mk("true", "", SBool)
var tFalse = mk("false", "", SBool)

func boolT(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

var tZero = intT(0)
var tOne = intT(1)

func isInt(t *Term) bool { return t.op == "int" }

func not(a *Term) *Term {
	switch {
	case a == tTrue:
		return tFalse
	case a == tFalse:
		return tTrue
	case a.op == "not":
		return a.args[0]
	}
	return mk("not", "", SBool, a)
}

func and(as ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(a *Term) bool
	add = func(a *Term) bool {
		if a == tTrue {
			return true
		}
		if a == tFalse {
			return false
		}
		if a.op == "and" {
			for _, b := range a.args {
				if !add(b) {
					return false
				}
			}
			return true
		}
		if seen[a] {
			return true
		}
		if seen[not(a)] {
			return false
		}
		seen[a] = true
		out = append(out, a)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return tFalse
		}
	}
	if len(out) == 0 {
		return tTrue
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("and", "", SBool, out...)
}

func conjuncts(a *Term) []*Term {
	if a.op == "and" {
		return a.args
	}
	if a == tTrue {
		return nil
	}
	return []*Term{a}
}

func or(as ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(a *Term) bool
	add = func(a *Term) bool {
		if a == tFalse {
			return true
		}
		if a == tTrue {
			return false
		}
		if a.op == "or" {
			for _, b := range a.args {
				if !add(b) {
					return false
				}
			}
			return true
		}
		if seen[a] {
			return true
		}
		if seen[not(a)] {
			return false
		}
		seen[a] = true
		out = append(out, a)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return tTrue
		}
	}
	// and(x,c) or and(x,not c) -> x   (pairwise, repeated)
	changed := true
	for changed {
		changed = false
	search:
		for i := 0; i < len(out); i++ {
			for j := i + 1; j < len(out); j++ {
				if r := joinPC(out[i], out[j]); r != nil {
					out[i] = r
					out = append(out[:j], out[j+1:]...)
					changed = true
					break search
				}
			}
		}
	}
	if len(out) == 0 {
		return tFalse
	}
	if len(out) == 1 {
		return out[0]
	}
	for _, o := range out {
		if o == tTrue {
			return tTrue
		}
	}
	return mk("or", "", SBool, out...)
}

func joinPC(a, b *Term) *Term {
	ca, cb := conjuncts(a), conjuncts(b)
	if len(ca) != len(cb) {
		return nil
	}
	inB := map[*Term]bool{}
	for _, x := range cb {
		inB[x] = true
	}
	var diff *Term
	var common []*Term
	for _, x := range ca {
		if inB[x] {
			common = append(common, x)
			continue
		}
		if diff != nil {
			return nil
		}
		diff = x
	}
	if diff == nil {
		return nil
	}
	if !inB[not(diff)] {
		return nil
	}
	return and(common...)
}

func implies(a, b *Term) *Term {
	if a == tTrue {
		return b
	}
	if a == tFalse || b == tTrue || a == b {
		return tTrue
	}
	if b == tFalse {
		return not(a)
	}
	return mk("=>", "", SBool, a, b)
}

func iff(a, b *Term) *Term { return eq(a, b) }

func ite(c, a, b *Term) *Term {
	if c == tTrue {
		return a
	}
	if c == tFalse {
		return b
	}
	if a == b {
		return a
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("ite sorts %s %s", a.sort.Name, b.sort.Name))
	}
	if a.sort == SBool {
		if a == tTrue {
			return or(c, b)
		}
		if a == tFalse {
			return and(not(c), b)
		}
		if b == tTrue {
			return or(not(c), a)
		}
		if b == tFalse {
			return and(c, a)
		}
	}
	if c.op == "not" {
		return ite(c.args[0], b, a)
	}
	return mk("ite", "", a.sort, c, a, b)
}

func eq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("eq sorts %s %s: %s = %s", a.sort.Name, b.sort.Name, a, b))
	}
	if isInt(a) && isInt(b) {
		return boolT(a.n.Cmp(b.n) == 0)
	}
	if a.sort == SBool {
		if a == tTrue {
			return b
		}
		if b == tTrue {
			return a
		}
		if a == tFalse {
			return not(b)
		}
		if b == tFalse {
			return not(a)
		}
	}
	if a.sort == SStr && a.op == "strlit" && b.op == "strlit" {
		return boolT(a.name == b.name)
	}
	if a.sort == SInt {
		// x + c1 = x + c2
		ba, ca := splitConst(a)
		bb, cb := splitConst(b)
		if ba == bb && ba != nil {
			return boolT(ca.Cmp(cb) == 0)
		}
	}
	if a.op == "mk" && b.op == "mk" {
		var cs []*Term
		for i := range a.args {
			cs = append(cs, eq(a.args[i], b.args[i]))
		}
		return and(cs...)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk("=", "", SBool, a, b)
}
func neq(a, b *Term) *Term { return not(eq(a, b)) }

// splitConst writes t as base + c; base nil for a pure constant.
func splitConst(t *Term) (*Term, *big.Int) {
	if isInt(t) {
		return nil, t.n
	}
	if t.op == "+" && len(t.args) == 2 && isInt(t.args[1]) {
		return t.args[0], t.args[1].n
	}
	return t, big.NewInt(0)
}

func add(a, b *Term) *Term {
	if isInt(a) && isInt(b) {
		return bigInt(new(big.Int).Add(a.n, b.n))
	}
	ba, ca := splitConst(a)
	bb, cb := splitConst(b)
	c := new(big.Int).Add(ca, cb)
	var base *Term
	switch {
	case ba == nil:
		base = bb
	case bb == nil:
		base = ba
	default:
		if ba.id > bb.id {
			ba, bb = bb, ba
		}
		// x + (-1*x)
		if bb.op == "*" && isInt(bb.args[0]) && bb.args[0].n.Cmp(big.NewInt(-1)) == 0 && bb.args[1] == ba {
			return bigInt(c)
		}
		if ba.op == "*" && isInt(ba.args[0]) && ba.args[0].n.Cmp(big.NewInt(-1)) == 0 && ba.args[1] == bb {
			return bigInt(c)
		}
		// (y - x) + x   and  x + (y - x)
		if r := cancel(ba, bb); r != nil {
			return add(r, bigInt(c))
		}
		if r := cancel(bb, ba); r != nil {
			return add(r, bigInt(c))
		}
		base = mk("+", "", SInt, ba, bb)
	}
	if c.Sign() == 0 {
		return base
	}
	return mk("+", "", SInt, base, bigInt(c))
}

// cancel: if b is (u + v) with u = -a or v = -a, return the other part
func cancel(a, b *Term) *Term {
	if b.op != "+" || len(b.args) != 2 {
		return nil
	}
	na := neg(a)
	if b.args[0] == na {
		return b.args[1]
	}
	if b.args[1] == na {
		return b.args[0]
	}
	return nil
}

func neg(a *Term) *Term { return mul(intT(-1), a) }
func sub(a, b *Term) *Term {
	if a == b {
		return tZero
	}
	return add(a, neg(b))
}
func mul(a, b *Term) *Term {
	if isInt(a) && isInt(b) {
		return bigInt(new(big.Int).Mul(a.n, b.n))
	}
	if isInt(b) {
		a, b = b, a
	}
	if isInt(a) {
		if a.n.Sign() == 0 {
			return tZero
		}
		if a.n.Cmp(big.NewInt(1)) == 0 {
			return b
		}
		if b.op == "*" && isInt(b.args[0]) {
			return mul(bigInt(new(big.Int).Mul(a.n, b.args[0].n)), b.args[1])
		}
		if b.op == "+" {
			return add(mul(a, b.args[0]), mul(a, b.args[1]))
		}
		return mk("*", "", SInt, a, b)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk("*", "", SInt, a, b)
}

func le(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if isInt(a) && isInt(b) {
		return boolT(a.n.Cmp(b.n) <= 0)
	}
	ba, ca := splitConst(a)
	bb, cb := splitConst(b)
	if ba == bb && ba != nil {
		return boolT(ca.Cmp(cb) <= 0)
	}
	return mk("<=", "", SBool, a, b)
}
func lt(a, b *Term) *Term { return not(le(b, a)) }
func ge(a, b *Term) *Term { return le(b, a) }
func gt(a, b *Term) *Term { return lt(b, a) }

// floor div / mod (SMT semantics for positive divisor)
func smtDiv(a, b *Term) *Term {
	if isInt(a) && isInt(b) && b.n.Sign() > 0 {
		q, m := new(big.Int).DivMod(a.n, b.n, new(big.Int))
		_ = m
		return bigInt(q)
	}
	if isInt(b) && b.n.Cmp(big.NewInt(1)) == 0 {
		return a
	}
	if k, ok := log2(b); ok {
		if m := bitMask(a); m != nil {
			if m.BitLen() <= int(k) {
				return tZero
			}
			if a.op == "+" {
				return add(smtDiv(a.args[0], b), smtDiv(a.args[1], b))
			}
			if a.op == "*" && isInt(a.args[0]) {
				if j, ok := log2(a.args[0]); ok && j >= k {
					return mul(pow2(int(j-k)), a.args[1])
				}
			}
		}
	}
	return mk("div", "", SInt, a, b)
}

// log2 of a constant power of two
func log2(t *Term) (uint, bool) {
	if !isInt(t) || t.n.Sign() <= 0 || t.n.BitLen() != int(t.n.TrailingZeroBits())+1 {
		return 0, false
	}
	return t.n.TrailingZeroBits(), true
}

// bitMask is a set of bits that contains those of the (then non-negative) number, nil if unknown.
// Sums with a mask have terms that share no bit.
func bitMask(t *Term) *big.Int {
	switch t.op {
	case "int":
		if t.n.Sign() >= 0 {
			return t.n
		}
	case "mod":
		if k, ok := log2(t.args[1]); ok {
			m := new(big.Int).Sub(t.args[1].n, big.NewInt(1))
			_ = k
			if a := bitMask(t.args[0]); a != nil {
				m.And(m, a)
			}
			return m
		}
	case "div":
		if k, ok := log2(t.args[1]); ok {
			if a := bitMask(t.args[0]); a != nil {
				return new(big.Int).Rsh(a, k)
			}
		}
	case "*":
		if k, ok := log2(t.args[0]); ok {
			if a := bitMask(t.args[1]); a != nil {
				return new(big.Int).Lsh(a, k)
			}
		}
	case "+":
		if len(t.args) != 2 {
			return nil
		}
		a, b := bitMask(t.args[0]), bitMask(t.args[1])
		if a != nil && b != nil && new(big.Int).And(a, b).Sign() == 0 {
			return new(big.Int).Or(a, b)
		}
	}
	return nil
}

func smtMod(a, b *Term) *Term {
	if isInt(a) && isInt(b) && b.n.Sign() > 0 {
		return bigInt(new(big.Int).Mod(a.n, b.n))
	}
	if a.op == "mod" && a.args[1] == b {
		return a
	}
	if k, ok := log2(b); ok {
		if m := bitMask(a); m != nil {
			if m.BitLen() <= int(k) {
				return a
			}
			if int(m.TrailingZeroBits()) >= int(k) {
				return tZero
			}
			if a.op == "+" {
				return add(smtMod(a.args[0], b), smtMod(a.args[1], b))
			}
		}
	}
	return mk("mod", "", SInt, a, b)
}

// Go division truncates toward zero
func goDiv(a, b *Term) *Term {
	if isInt(a) && isInt(b) && b.n.Sign() != 0 {
		return bigInt(new(big.Int).Quo(a.n, b.n))
	}
	if isInt(b) && b.n.Sign() > 0 {
		return ite(le(tZero, a), smtDiv(a, b), neg(smtDiv(neg(a), b)))
	}
	return app("godiv", SInt, a, b)
}
func goMod(a, b *Term) *Term {
	if isInt(a) && isInt(b) && b.n.Sign() != 0 {
		return bigInt(new(big.Int).Rem(a.n, b.n))
	}
	if isInt(b) && b.n.Sign() > 0 {
		return ite(le(tZero, a), smtMod(a, b), neg(smtMod(neg(a), b)))
	}
	return app("gomod", SInt, a, b)
}

type ufDecl struct {
	name string
	args []*Sort
	ret  *Sort
}

var ufs = map[string]*ufDecl{}

func declUF(name string, ret *Sort, args ...*Sort) {
	if u, ok := ufs[name]; ok {
		if u.ret != ret || len(u.args) != len(args) {
			panic("uf " + name + " redeclared")
		}
		return
	}
	ufs[name] = &ufDecl{name, args, ret}
}

func app(name string, ret *Sort, args ...*Term) *Term {
	ss := make([]*Sort, len(args))
	for i, a := range args {
		ss[i] = a.sort
	}
	if u, ok := ufs[name]; ok {
		if u.ret != ret || len(u.args) != len(args) {
			panic("uf " + name + " used inconsistently")
		}
		for i := range ss {
			if u.args[i] != ss[i] {
				panic("uf " + name + " used inconsistently (arg sort " + ss[i].Name + " vs " + u.args[i].Name + ")")
			}
		}
	}
	declUF(name, ret, ss...)
	if len(args) == 0 {
		return mkConst(name, ret)
	}
	return mk("uf", name, ret, args...)
}

func deepDef(t *Term) *Term {
	for t.op == "const" && t.def != nil {
		t = t.def
	}
	return t
}

// distinctInts: syntactically provably different integers
func provDistinct(a, b *Term) bool {
	if a.op == "strlit" && b.op == "strlit" {
		return a != b
	}
	if a.sort != SInt {
		if a.op == "mk" && b.op == "mk" {
			for i := range a.args {
				if provDistinct(a.args[i], b.args[i]) {
					return true
				}
			}
		}
		return false
	}
	ba, ca := splitConst(a)
	bb, cb := splitConst(b)
	return ba == bb && ca.Cmp(cb) != 0
}

func sel(a, i *Term) *Term {
	if a.sort.K == nil {
		panic("select on " + a.sort.Name)
	}
	if a.sort.K != i.sort {
		panic(fmt.Sprintf("select index sort %s on %s", i.sort.Name, a.sort.Name))
	}
	cur := a
	for {
		d := cur
		if cur.op == "const" && cur.def != nil {
			d = cur.def
		}
		if d.op == "store" {
			if d.args[1] == i {
				return d.args[2]
			}
			if provDistinct(d.args[1], i) {
				cur = d.args[0]
				continue
			}
			break
		}
		if d.op == "constarr" {
			return d.args[0]
		}
		if d.op == "const" || d == cur {
			break
		}
		if d.op == "ite" {
			cur = d
		}
		break
	}
	if cur.op == "ite" {
		return ite(cur.args[0], sel(cur.args[1], i), sel(cur.args[2], i))
	}
	return mk("select", "", a.sort.V, cur, i)
}

func store(a, i, v *Term) *Term {
	if a.sort.K != i.sort || a.sort.V != v.sort {
		panic(fmt.Sprintf("store sorts %s [%s] := %s", a.sort.Name, i.sort.Name, v.sort.Name))
	}
	if a.op == "store" && a.args[1] == i {
		return store(a.args[0], i, v)
	}
	if v.op == "select" && v.args[0] == a && v.args[1] == i {
		return a
	}
	return mk("store", "", a.sort, a, i, v)
}

func constArr(s *Sort, v *Term) *Term { return mk("constarr", "", s, v) }

func mkDT(s *Sort, args ...*Term) *Term {
	if len(args) != len(s.DT.Fields) {
		panic("mkDT arity " + s.Name)
	}
	for i, f := range s.DT.Fields {
		if args[i].sort != f.S {
			panic(fmt.Sprintf("mkDT %s.%s: %s vs %s", s.Name, f.Name, args[i].sort.Name, f.S.Name))
		}
	}
	// eta: mk(sel_0 x, sel_1 x, ...) -> x
	if len(args) > 0 && args[0].op == "dsel" && args[0].args[0].sort == s {
		x := args[0].args[0]
		ok := true
		for i := range args {
			if !(args[i].op == "dsel" && args[i].args[0] == x && args[i].name == s.DT.Fields[i].Name) {
				ok = false
				break
			}
		}
		if ok {
			return x
		}
	}
	return mk("mk", s.Name, s, args...)
}

func dsel(t *Term, i int) *Term {
	d := t.sort.DT
	if t.op == "mk" {
		return t.args[i]
	}
	if t.op == "const" && t.def != nil && t.def.op == "mk" {
		return t.def.args[i]
	}
	if t.op == "ite" {
		return ite(t.args[0], dsel(t.args[1], i), dsel(t.args[2], i))
	}
	return mk("dsel", d.Fields[i].Name, d.Fields[i].S, t)
}

func dupd(t *Term, i int, v *Term) *Term {
	args := make([]*Term, len(t.sort.DT.Fields))
	for j := range args {
		if j == i {
			args[j] = v
		} else {
			args[j] = dsel(t, j)
		}
	}
	return mkDT(t.sort, args...)
}

func forall(bound []*Term, trigs [][]*Term, body *Term) *Term {
	return quant("forall", bound, trigs, body)
}
func exists(bound []*Term, trigs [][]*Term, body *Term) *Term {
	return quant("exists", bound, trigs, body)
}

func quant(q string, bound []*Term, trigs [][]*Term, body *Term) *Term {
	if body == tTrue || body == tFalse {
		return body
	}
	if len(bound) == 0 {
		return body
	}
	var kb strings.Builder
	kb.WriteString(q + "#" + strconv.Itoa(body.id))
	for _, b := range bound {
		kb.WriteString("," + strconv.Itoa(b.id))
	}
	for _, g := range trigs {
		kb.WriteString(";")
		for _, x := range g {
			kb.WriteString("," + strconv.Itoa(x.id))
		}
	}
	if t, ok := termTab[kb.String()]; ok {
		return t
	}
	termCount++
	t := &Term{id: termCount, op: q, sort: SBool, args: []*Term{body}, bound: bound, trigs: trigs}
	termTab[kb.String()] = t
	// hasB: any free bound variable other than ours
	fv := map[*Term]bool{}
	freeVars(body, fv, map[*Term]bool{})
	for _, b := range bound {
		delete(fv, b)
	}
	t.hasB = len(fv) > 0
	return t
}

func freeVars(t *Term, out map[*Term]bool, seen map[*Term]bool) {
	if !t.hasB || seen[t] {
		return
	}
	seen[t] = true
	if t.op == "var" {
		out[t] = true
		return
	}
	if t.op == "forall" || t.op == "exists" {
		in := map[*Term]bool{}
		freeVars(t.args[0], in, map[*Term]bool{})
		for _, b := range t.bound {
			delete(in, b)
		}
		for v := range in {
			out[v] = true
		}
		return
	}
	for _, a := range t.args {
		freeVars(a, out, seen)
	}
}

// substitute bound variables
func subst(t *Term, m map[*Term]*Term) *Term { return substMemo(t, m, map[*Term]*Term{}) }

func substMemo(t *Term, m map[*Term]*Term, memo map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if !t.hasB && t.op != "const" || len(t.args) == 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	var r *Term
	if t.op == "forall" || t.op == "exists" {
		var tr [][]*Term
		for _, g := range t.trigs {
			var ng []*Term
			for _, x := range g {
				ng = append(ng, substMemo(x, m, memo))
			}
			tr = append(tr, ng)
		}
		r = quant(t.op, t.bound, tr, substMemo(t.args[0], m, memo))
	} else {
		args := make([]*Term, len(t.args))
		for i, a := range t.args {
			args[i] = substMemo(a, m, memo)
		}
		r = rebuild(t, args)
	}
	memo[t] = r
	return r
}

func rebuild(t *Term, args []*Term) *Term {
	switch t.op {
	case "not":
		return not(args[0])
	case "and":
		return and(args...)
	case "or":
		return or(args...)
	case "=>":
		return implies(args[0], args[1])
	case "ite":
		return ite(args[0], args[1], args[2])
	case "=":
		return eq(args[0], args[1])
	case "+":
		return add(args[0], args[1])
	case "*":
		return mul(args[0], args[1])
	case "<=":
		return le(args[0], args[1])
	case "div":
		return smtDiv(args[0], args[1])
	case "mod":
		return smtMod(args[0], args[1])
	case "select":
		return sel(args[0], args[1])
	case "store":
		return store(args[0], args[1], args[2])
	case "mk":
		return mkDT(t.sort, args...)
	case "dsel":
		for i, f := range args[0].sort.DT.Fields {
			if f.Name == t.name {
				return dsel(args[0], i)
			}
		}
		panic("dsel")
	}
	return mk(t.op, t.name, t.sort, args...)
}

// ---------- printing ----------

var strLits []*Term

func strLit(s string) *Term {
	t := mk("strlit", s, SStr)
	return t
}

func (t *Term) String() string {
	var sb strings.Builder
	p := &printer{names: map[*Term]string{}}
	p.write(&sb, t)
	s := sb.String()
	if len(s) > 4000 {
		s = s[:4000] + "..."
	}
	return s
}

type printer struct {
	names map[*Term]string
}

func quoteSym(s string) string {
	simple := true
	for _, c := range s {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || strings.ContainsRune("_.$!?", c)) {
			simple = false
			break
		}
	}
	if simple && !(s[0] >= '0' && s[0] <= '9') {
		return s
	}
	return "|" + s + "|"
}

func selName(s *Sort, f string) string { return quoteSym(s.Name + "." + f) }

func (p *printer) write(sb *strings.Builder, t *Term) {
	if n, ok := p.names[t]; ok {
		sb.WriteString(n)
		return
	}
	p.writeTop(sb, t)
}

func (p *printer) writeTop(sb *strings.Builder, t *Term) {
	switch t.op {
	case "const", "var":
		sb.WriteString(quoteSym(t.name))
	case "int":
		if t.n.Sign() < 0 {
			sb.WriteString("(- " + new(big.Int).Neg(t.n).String() + ")")
		} else {
			sb.WriteString(t.n.String())
		}
	case "true", "false":
		sb.WriteString(t.op)
	case "strlit":
		sb.WriteString(strLitSym(t))
	case "constarr":
		sb.WriteString("((as const " + t.sort.Name + ") ")
		p.write(sb, t.args[0])
		sb.WriteString(")")
	case "mk":
		if len(t.args) == 0 {
			sb.WriteString(quoteSym("mk." + t.name))
			return
		}
		sb.WriteString("(" + quoteSym("mk."+t.name))
		for _, a := range t.args {
			sb.WriteByte(' ')
			p.write(sb, a)
		}
		sb.WriteByte(')')
	case "dsel":
		sb.WriteString("(" + selName(t.args[0].sort, t.name) + " ")
		p.write(sb, t.args[0])
		sb.WriteByte(')')
	case "forall", "exists":
		sb.WriteString("(" + t.op + " (")
		for _, b := range t.bound {
			sb.WriteString("(" + quoteSym(b.name) + " " + b.sort.Name + ")")
		}
		sb.WriteString(") ")
		if len(t.trigs) > 0 {
			sb.WriteString("(! ")
		}
		p.write(sb, t.args[0])
		for _, g := range t.trigs {
			sb.WriteString(" :pattern (")
			for i, x := range g {
				if i > 0 {
					sb.WriteByte(' ')
				}
				p.write(sb, x)
			}
			sb.WriteString(")")
		}
		if len(t.trigs) > 0 {
			sb.WriteString(")")
		}
		sb.WriteString(")")
	default:
		op := t.op
		if op == "uf" {
			op = quoteSym(t.name)
		}
		sb.WriteString("(" + op)
		for _, a := range t.args {
			sb.WriteByte(' ')
			p.write(sb, a)
		}
		sb.WriteByte(')')
	}
}

func strLitSym(t *Term) string { return fmt.Sprintf("str!%d", t.id) }

// query collects everything needed to print a set of formulas.
type collector struct {
	seen   map[*Term]int // reference count
	order  []*Term       // post-order
	consts map[*Term]bool
	ufs    map[string]bool
	lits   map[*Term]bool
	sorts  map[*Sort]bool
}

func newCollector() *collector {
	return &collector{map[*Term]int{}, nil, map[*Term]bool{}, map[string]bool{}, map[*Term]bool{}, map[*Sort]bool{}}
}

func (c *collector) addSort(s *Sort) {
	if c.sorts[s] {
		return
	}
	c.sorts[s] = true
	if s.K != nil {
		c.addSort(s.K)
		c.addSort(s.V)
	}
	if s.DT != nil {
		for _, f := range s.DT.Fields {
			c.addSort(f.S)
		}
	}
}

func (c *collector) visit(t *Term) {
	c.seen[t]++
	if c.seen[t] > 1 {
		return
	}
	c.addSort(t.sort)
	switch t.op {
	case "const":
		c.consts[t] = true
	case "uf":
		c.ufs[t.name] = true
	case "strlit":
		c.lits[t] = true
	}
	for _, b := range t.bound {
		c.addSort(b.sort)
	}
	for _, a := range t.args {
		c.visit(a)
	}
	for _, g := range t.trigs {
		for _, x := range g {
			c.visit(x)
		}
	}
	c.order = append(c.order, t)
}

func symbolsOf(ts ...*Term) *collector {
	c := newCollector()
	for _, t := range ts {
		c.visit(t)
	}
	return c
}

func isValue(t *Term) bool {
	switch t.op {
	case "int", "true", "false":
		return true
	case "mk", "constarr":
		for _, a := range t.args {
			if !isValue(a) {
				return false
			}
		}
		return true
	}
	return false
}

// smtQuery prints declarations, the given assertions and the negated goal.
func smtQuery(asserts []*Term, comments []string, extraUF []string) string {
	c := newCollector()
	for _, a := range asserts {
		c.visit(a)
	}
	var sb strings.Builder
	for _, u := range extraUF {
		c.ufs[u] = true
	}
	for n := range c.ufs {
		u := ufs[n]
		if u == nil {
			continue
		}
		c.addSort(u.ret)
		for _, a := range u.args {
			c.addSort(a)
		}
	}
	for _, u := range uSorts {
		if s := sorts[u]; c.sorts[s] {
			sb.WriteString("(declare-sort " + u + " 0)\n")
		}
	}
	for _, d := range datatypes {
		if !c.sorts[d.sort] {
			continue
		}
		if len(d.Fields) == 0 {
			// not a one-element datatype: z3 5.3.2 answers unsat on satisfiable queries with arrays of those
			fmt.Fprintf(&sb, "(declare-datatypes ((%s 0)) (((%s.c (%s.u Int)))))\n(define-fun %s () %s (%s.c 0))\n", d.Name, d.Name, d.Name, quoteSym("mk."+d.Name), d.Name, d.Name)
			continue
		}
		fmt.Fprintf(&sb, "(declare-datatypes ((%s 0)) (((%s", d.Name, quoteSym("mk."+d.Name))
		for _, f := range d.Fields {
			fmt.Fprintf(&sb, " (%s %s)", selName(d.sort, f.Name), f.S.Name)
		}
		sb.WriteString("))))\n")
	}
	var us []string
	for n := range c.ufs {
		us = append(us, n)
	}
	sort.Strings(us)
	for _, n := range us {
		u := ufs[n]
		if u == nil {
			continue
		}
		fmt.Fprintf(&sb, "(declare-fun %s (", quoteSym(n))
		for i, a := range u.args {
			if i > 0 {
				sb.WriteByte(' ')
			}
			sb.WriteString(a.Name)
		}
		fmt.Fprintf(&sb, ") %s)\n", u.ret.Name)
	}
	var cs []*Term
	for t := range c.consts {
		cs = append(cs, t)
	}
	sort.Slice(cs, func(i, j int) bool { return cs[i].id < cs[j].id })
	for _, t := range cs {
		fmt.Fprintf(&sb, "(declare-const %s %s)\n", quoteSym(t.name), t.sort.Name)
	}
	var ls []*Term
	for t := range c.lits {
		ls = append(ls, t)
	}
	sort.Slice(ls, func(i, j int) bool { return ls[i].id < ls[j].id })
	for _, t := range ls {
		fmt.Fprintf(&sb, "(declare-const %s Str) ; %q\n", strLitSym(t), t.name)
	}
	if len(ls) > 1 {
		sb.WriteString("(assert (distinct")
		for _, t := range ls {
			sb.WriteString(" " + strLitSym(t))
		}
		sb.WriteString("))\n")
	}
	if c.ufs["strlen"] {
		for _, t := range ls {
			fmt.Fprintf(&sb, "(assert (= (strlen %s) %d))\n", strLitSym(t), len(t.name))
		}
	}
	// shared ground subterms become define-funs
	p := &printer{names: map[*Term]string{}}
	for _, t := range c.order {
		if t.op == "constarr" && !t.hasB && !isValue(t.args[0]) { // cvc5 takes only values here
			n := fmt.Sprintf("ka!%d", t.id)
			fmt.Fprintf(&sb, "(declare-const %s %s)\n(assert (forall ((x %s)) (! (= (select %s x) ", n, t.sort.Name, t.sort.K.Name, n)
			p.write(&sb, t.args[0])
			fmt.Fprintf(&sb, ") :pattern ((select %s x)))))\n", n)
			p.names[t] = n
			continue
		}
		if c.seen[t] > 1 && !t.hasB && len(t.args) > 0 && t.op != "forall" && t.op != "exists" {
			var b strings.Builder
			p.writeTop(&b, t)
			s := b.String()
			if len(s) < 24 {
				continue
			}
			n := fmt.Sprintf("d!%d", t.id)
			fmt.Fprintf(&sb, "(define-fun %s () %s %s)\n", n, t.sort.Name, s)
			p.names[t] = n
		}
	}
	for i, a := range asserts {
		if i < len(comments) && comments[i] != "" {
			sb.WriteString("; " + strings.ReplaceAll(comments[i], "\n", " ") + "\n")
		}
		sb.WriteString("(assert ")
		p.write(&sb, a)
		sb.WriteString(")\n")
	}
	return sb.String()
}
