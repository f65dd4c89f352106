package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"strconv"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

// ---------- specification files ----------

type Clause struct {
	e    *SExpr
	src  string
	file string
	line int

	local bool // loop invariant not needed after the loop: left out of later queries
	until int  // loop invariant not needed once this later loop has been entered
}

func (c *Clause) label() string {
	s := strings.Join(strings.Fields(c.src), " ")
	if len(s) > 70 {
		s = s[:67] + "..."
	}
	return s
}

type ModSpec struct {
	comps []string
	mode  string // any, at, where
	exprs []*SExpr
	v     string
	vt    types.Type
	src   string
}

type LoopSpec struct {
	invs    []*Clause
	asserts []*Clause
	steps   []*Clause // asserted at the end of each iteration, before the invariants
	sets    []letDef  // assignments to ghost variables at the end of each iteration
	mods    []*ModSpec
}

type Contract struct {
	name      string
	requires  []*Clause
	ensures   []*Clause
	asserts   []*Clause
	lets      []letDef
	ghosts    map[string]SV // ghost variables: type and, as term, a constant of the sort
	mods      []*ModSpec
	loops     map[int]*LoopSpec
	trusted   bool
	why       string
	inline    bool
	nosafety  bool
	hide      map[string]bool
	recursive bool
	declared  bool
	pure      []string // names of the result functions; established by a purity check of the body
	pureEns   []*Clause
	stable    bool
	file      string
	line      int
}

type letDef struct {
	name string
	e    *SExpr
}

type Macro struct {
	name   string
	params []param
	body   *SExpr
	src    string
}

type param struct {
	name string
	typ  string
}

type Axiom struct {
	name string
	c    *Clause
	ind  string
	kind string // axiom or lemma
	uses []string
}

var contracts = map[string]*Contract{}
var macros = map[string]*Macro{}
var ufuns = map[string]*ufunDecl{}
var axioms []*Axiom
var properties = map[string][]string{}

type ufunDecl struct {
	name string
	args []types.Type
	ret  types.Type
	as   []*Sort
	rs   *Sort
}

func (c *Contract) modular() bool { return !c.inline && (c.declared) }

func contractFor(name string) *Contract {
	c := contracts[name]
	if c == nil || c.inline {
		return nil
	}
	return c
}

func loopSpecFor(fn *ssa.Function) *Contract {
	if c, ok := contracts[fnName(fn)]; ok {
		return c
	}
	return nil
}

var specKeywords = map[string]bool{"func": true, "requires": true, "ensures": true, "modifies": true, "loop": true, "invariant": true,
	"pred": true, "fun": true, "ufun": true, "axiom": true, "lemma": true, "trusted": true, "inline": true, "nosafety": true, "assert": true, "step": true, "define": true, "property": true, "type": true, "end": true, "hide": true, "assumes": true, "pure": true, "stable": true, "ghost": true, "set": true}

var specAssumes []string

func loadSpec(file string) error {
	b, err := os.ReadFile(file)
	if err != nil {
		return err
	}
	type item struct {
		kw, text string
		line     int
	}
	var items []item
	for i, ln := range strings.Split(string(b), "\n") {
		if k := strings.Index(ln, "//"); k >= 0 && !strings.Contains(ln[:k], "\"") {
			ln = ln[:k]
		}
		t := strings.TrimSpace(ln)
		if t == "" {
			continue
		}
		w := t
		if k := strings.IndexFunc(t, func(r rune) bool { return unicode.IsSpace(r) }); k >= 0 {
			w = t[:k]
		}
		if specKeywords[w] {
			items = append(items, item{w, strings.TrimSpace(t[len(w):]), i + 1})
		} else if len(items) > 0 {
			items[len(items)-1].text += " " + t
		} else {
			return fmt.Errorf("%s:%d: unexpected %q", file, i+1, t)
		}
	}
	var cur *Contract
	var curLoop *LoopSpec
	for _, it := range items {
		fail := func(err error) error { return fmt.Errorf("%s:%d: %s: %v", file, it.line, it.kw, err) }
		clause := func(s string) (*Clause, error) {
			e, err := parseSpec(s)
			if err != nil {
				return nil, fail(err)
			}
			return &Clause{e, s, file, it.line, false, 0}, nil
		}
		switch it.kw {
		case "assumes": // prose, reported in the evidence
			specAssumes = append(specAssumes, it.text)
		case "property":
			fs := strings.Fields(it.text)
			properties[fs[0]] = append(properties[fs[0]], fs[1:]...)
		case "func":
			name := strings.Fields(it.text)[0]
			cur = contracts[name]
			if cur == nil {
				cur = &Contract{name: name, loops: map[int]*LoopSpec{}, hide: map[string]bool{}, file: file, line: it.line}
				contracts[name] = cur
			}
			curLoop = nil
		case "trusted":
			cur.trusted = true
			cur.declared = true
			cur.why = it.text
		case "inline":
			cur.inline = true
		case "stable": // the result depends on the arguments and the memory read only; see stable()
			cur.stable = true
			cur.declared = true
		case "pure": // the results are these uninterpreted functions of the parameters
			cur.pure = strings.FieldsFunc(it.text, func(r rune) bool { return r == ',' || r == ' ' })
			cur.declared = true
		case "nosafety":
			cur.nosafety = true
		case "hide": // definitional axioms left out of this function's queries
			for _, n := range strings.FieldsFunc(it.text, func(r rune) bool { return r == ',' || r == ' ' }) {
				cur.hide[n] = true
			}
		case "requires", "ensures", "invariant", "assert", "step":
			text, local, until := it.text, false, 0
			if t := strings.TrimSpace(text); it.kw == "invariant" && strings.HasPrefix(t, "local ") {
				text, local = t[6:], true
			} else if (it.kw == "invariant" || it.kw == "requires") && strings.HasPrefix(t, "until ") { // until N ...
				fmt.Sscan(t[6:], &until)
				text = strings.TrimLeft(strings.TrimSpace(t[6:]), "0123456789")
			}
			c, err := clause(text)
			if err != nil {
				return err
			}
			c.local, c.until = local, until
			switch it.kw {
			case "requires":
				cur.requires = append(cur.requires, c)
				cur.declared = true
			case "ensures":
				cur.ensures = append(cur.ensures, c)
				cur.declared = true
			case "invariant":
				if curLoop == nil {
					return fail(fmt.Errorf("invariant outside loop"))
				}
				curLoop.invs = append(curLoop.invs, c)
			case "step":
				if curLoop == nil {
					return fail(fmt.Errorf("step outside loop"))
				}
				curLoop.steps = append(curLoop.steps, c)
			case "assert":
				if curLoop != nil {
					curLoop.asserts = append(curLoop.asserts, c)
				} else {
					cur.asserts = append(cur.asserts, c)
				}
			}
		case "define":
			k := strings.Index(it.text, ":=")
			if k < 0 {
				return fail(fmt.Errorf("let needs :="))
			}
			e, err := parseSpec(it.text[k+2:])
			if err != nil {
				return fail(err)
			}
			cur.lets = append(cur.lets, letDef{strings.TrimSpace(it.text[:k]), e})
		case "ghost": // ghost NAME: TYPE, a variable the code does not have, arbitrary on entry
			k := strings.Index(it.text, ":")
			if k < 0 || cur == nil {
				return fail(fmt.Errorf("ghost needs NAME: TYPE"))
			}
			t, srt, err := specType(strings.TrimSpace(it.text[k+1:]))
			if err != nil {
				return fail(err)
			}
			if cur.ghosts == nil {
				cur.ghosts = map[string]SV{}
			}
			n := strings.TrimSpace(it.text[:k])
			cur.ghosts[n] = SV{mkConst("ghost#"+n, srt), t}
		case "set": // set NAME := EXPR at the end of each iteration of the loop
			k := strings.Index(it.text, ":=")
			if k < 0 || curLoop == nil || cur.ghosts[strings.TrimSpace(it.text[:k])].t == nil {
				return fail(fmt.Errorf("set needs a loop and GHOST := EXPR"))
			}
			e, err := parseSpec(it.text[k+2:])
			if err != nil {
				return fail(err)
			}
			curLoop.sets = append(curLoop.sets, letDef{strings.TrimSpace(it.text[:k]), e})
		case "loop":
			n := 0
			fmt.Sscan(it.text, &n)
			if cur.loops[n] == nil {
				cur.loops[n] = &LoopSpec{}
			}
			curLoop = cur.loops[n]
		case "end":
			curLoop = nil
		case "modifies":
			m, err := parseMod(it.text)
			if err != nil {
				return fail(err)
			}
			if curLoop != nil {
				curLoop.mods = append(curLoop.mods, m...)
				if curLoop.mods == nil {
					curLoop.mods = []*ModSpec{}
				}
			} else {
				cur.mods = append(cur.mods, m...)
				cur.declared = true
			}
		case "pred", "fun":
			k := strings.Index(it.text, ":=")
			if k < 0 {
				return fail(fmt.Errorf("needs :="))
			}
			head := it.text[:k]
			o := strings.Index(head, "(")
			cl := strings.LastIndex(head, ")")
			if o < 0 {
				head = strings.TrimSpace(head) + "()"
				o, cl = len(head)-2, len(head)-1
			}
			m := &Macro{name: strings.TrimSpace(head[:o]), src: it.text}
			ps, err := parseParams(head[o+1 : cl])
			if err != nil {
				return fail(err)
			}
			m.params = ps
			m.body, err = parseSpec(it.text[k+2:])
			if err != nil {
				return fail(err)
			}
			macros[m.name] = m
		case "ufun":
			o := strings.Index(it.text, "(")
			cl := strings.LastIndex(it.text, ")")
			name := strings.TrimSpace(it.text[:o])
			u := &ufunDecl{name: name}
			for _, a := range splitTop(it.text[o+1 : cl]) {
				if strings.TrimSpace(a) == "" {
					continue
				}
				t, s, err := specType(strings.TrimSpace(a))
				if err != nil {
					return fail(err)
				}
				u.args = append(u.args, t)
				u.as = append(u.as, s)
			}
			r := strings.TrimSpace(strings.TrimPrefix(strings.TrimSpace(it.text[cl+1:]), ":"))
			t, s, err := specType(r)
			if err != nil {
				return fail(err)
			}
			u.ret, u.rs = t, s
			ufuns[name] = u
		case "axiom", "lemma":
			k := strings.Index(it.text, ":=")
			if k < 0 {
				return fail(fmt.Errorf("needs name := formula"))
			}
			hd := strings.Fields(it.text[:k])
			c, err := clause(it.text[k+2:])
			if err != nil {
				return err
			}
			a := &Axiom{name: hd[0], c: c, kind: it.kw}
			for i, h := range hd {
				if h == "induction" && i+1 < len(hd) {
					a.ind = hd[i+1]
				}
			}
			axioms = append(axioms, a)
		}
	}
	return nil
}

func parseParams(s string) ([]param, error) {
	var out []param
	for _, p := range splitTop(s) {
		p = strings.TrimSpace(p)
		if p == "" {
			continue
		}
		k := strings.IndexAny(p, ": ")
		if k < 0 {
			return nil, fmt.Errorf("parameter %q needs a type", p)
		}
		out = append(out, param{strings.TrimSpace(p[:k]), strings.TrimSpace(strings.TrimPrefix(strings.TrimSpace(p[k:]), ":"))})
	}
	return out, nil
}

func splitTop(s string) []string {
	var out []string
	d, start := 0, 0
	for i, c := range s {
		switch c {
		case '(', '[', '{':
			d++
		case ')', ']', '}':
			d--
		case ',':
			if d == 0 {
				out = append(out, s[start:i])
				start = i + 1
			}
		}
	}
	return append(out, s[start:])
}

type setType struct{ types.Type } // spec-level set of K

func specType(s string) (types.Type, *Sort, error) {
	s = strings.TrimSpace(s)
	if s == "set" || strings.HasPrefix(s, "set[") {
		t, err := resolveType(s[4 : len(s)-1])
		if err != nil {
			return nil, nil, err
		}
		return nil, arraySort(sortOf(t), SBool), nil
	}
	if strings.HasPrefix(s, "seq[") { // contents of a backing array
		t, err := resolveType(s[4 : len(s)-1])
		if err != nil {
			return nil, nil, err
		}
		return types.NewArray(t, 1<<40), arraySort(SInt, sortOf(t)), nil
	}
	if strings.HasPrefix(s, "fn[") { // total map K -> V
		in := s[3 : len(s)-1]
		parts := splitTop(in)
		k, err := resolveType(strings.TrimSpace(parts[0]))
		if err != nil {
			return nil, nil, err
		}
		v, err := resolveType(strings.TrimSpace(parts[1]))
		if err != nil {
			return nil, nil, err
		}
		return nil, arraySort(sortOf(k), sortOf(v)), nil
	}
	t, err := resolveType(s)
	if err != nil {
		return nil, nil, err
	}
	return t, sortOf(t), nil
}

func parseMod(s string) ([]*ModSpec, error) {
	m := &ModSpec{mode: "any", src: s}
	lst := s
	if strings.TrimSpace(s) == "nothing" || strings.TrimSpace(s) == "" {
		return []*ModSpec{}, nil
	}
	if k := strings.Index(s, " at "); k >= 0 {
		m.mode = "at"
		lst = s[:k]
		for _, e := range splitTop(s[k+4:]) {
			x, err := parseSpec(e)
			if err != nil {
				return nil, err
			}
			m.exprs = append(m.exprs, x)
		}
	} else if k := strings.Index(s, " where "); k >= 0 {
		m.mode = "where"
		lst = s[:k]
		rest := s[k+7:]
		c := strings.Index(rest, ":")
		if c < 0 {
			return nil, fmt.Errorf("modifies ... where v: type :: condition")
		}
		m.v = strings.TrimSpace(rest[:c])
		body := rest[c+1:]
		if d := strings.Index(body, "::"); d >= 0 && !strings.Contains(body[:d], "forall") && !strings.Contains(body[:d], "let") {
			t, err := resolveType(strings.TrimSpace(body[:d]))
			if err != nil {
				return nil, err
			}
			m.vt = t
			body = body[d+2:]
		}
		x, err := parseSpec(body)
		if err != nil {
			return nil, err
		}
		m.exprs = append(m.exprs, x)
	} else if strings.HasSuffix(strings.TrimSpace(s), " any") {
		lst = strings.TrimSuffix(strings.TrimSpace(s), " any")
	} else {
		return nil, fmt.Errorf("modifies needs at/where/any: %s", s)
	}
	for _, c := range splitTop(lst) {
		ks, err := compKeys(strings.TrimSpace(c))
		if err != nil {
			return nil, err
		}
		m.comps = append(m.comps, ks...)
	}
	return []*ModSpec{m}, nil
}

func compKeys(c string) ([]string, error) {
	switch {
	case strings.HasPrefix(c, "map["):
		t, err := resolveType(c)
		if err != nil {
			return nil, err
		}
		m := t.(*types.Map)
		return []string{compMD(m).key, compMV(m).key}, nil
	case strings.HasPrefix(c, "[]"):
		t, err := resolveType(c)
		if err != nil {
			return nil, err
		}
		return []string{compElem(t.(*types.Slice).Elem()).key}, nil
	case strings.HasPrefix(c, "*"):
		t, err := resolveType(c)
		if err != nil {
			return nil, err
		}
		return []string{compPtr(t.(*types.Pointer).Elem()).key}, nil
	}
	if strings.HasPrefix(c, "global ") {
		n := strings.TrimSpace(c[7:])
		i := strings.Index(n, ".")
		p := prog.prog.Package(prog.pkgs[n[:i]])
		g, ok := p.Members[n[i+1:]].(*ssa.Global)
		if !ok {
			return nil, fmt.Errorf("no global %s", n)
		}
		return []string{compGlobal(g).key}, nil
	}
	i := strings.LastIndex(c, ".")
	if i < 0 {
		return nil, fmt.Errorf("component %q", c)
	}
	t, err := resolveType(c[:i])
	if err != nil {
		return nil, err
	}
	st, ok := under(t).(*types.Struct)
	if !ok {
		return nil, fmt.Errorf("component %q: not a struct", c)
	}
	var out []string
	for k := 0; k < st.NumFields(); k++ {
		if c[i+1:] == "*" || st.Field(k).Name() == c[i+1:] {
			if _, ok := trySort(st.Field(k).Type()); ok {
				out = append(out, compField(t, k).key)
			}
		}
	}
	if len(out) == 0 {
		return nil, fmt.Errorf("component %q: no such field", c)
	}
	return out, nil
}

// frameClause builds the active frame from modifies clauses evaluated in old.
func frameOf(ex *Exec, mods []*ModSpec, env *SpecEnv, old *State, what string) *FrameClause {
	fc := &FrameClause{old: old, alloc: ex.get(old, compAlloc), what: what}
	byComp := map[string][]*ModSpec{}
	for _, m := range mods {
		for _, k := range m.comps {
			byComp[k] = append(byComp[k], m)
		}
	}
	cache := map[string][]*Term{}
	fc.allows = func(c *Comp, ref *Term) (*Term, bool) {
		ms := byComp[c.key]
		if len(ms) == 0 {
			return tFalse, false
		}
		var ds []*Term
		for mi, m := range ms {
			switch m.mode {
			case "any":
				return tTrue, true
			case "at":
				ck := fmt.Sprintf("%p/%d", m, mi)
				refs, ok := cache[ck]
				if !ok {
					for _, e := range m.exprs {
						e2 := *env
						e2.st, e2.old = old, env.old
						v := e2.eval(e)
						t := v.t
						if t.sort == SSlc {
							t = dsel(t, 0)
						}
						refs = append(refs, t)
					}
					cache[ck] = refs
				}
				for _, r := range refs {
					ds = append(ds, eq(ref, r))
				}
			case "where":
				e2 := *env
				e2.st, e2.old = old, env.old
				e2.vars = map[string]SV{}
				for k, v := range env.vars {
					e2.vars[k] = v
				}
				vt := m.vt
				if vt == nil {
					vt = types.Typ[types.Int]
				}
				e2.vars[m.v] = SV{ref, vt}
				e2.depth = env.depth + 1
				ds = append(ds, e2.boolExpr(m.exprs[0]))
			}
		}
		return or(ds...), true
	}
	return fc
}

func (c *Contract) frameClause(ex *Exec, env *SpecEnv, old *State) *FrameClause {
	return frameOf(ex, c.mods, env, old, c.name)
}

func (f *Frame) loopFrame(ctx *LoopCtx) *FrameClause {
	env := f.loopEnv(ctx.entry, ctx)
	return frameOf(f.ex, ctx.spec.mods, env, ctx.entry, fmt.Sprintf("%s loop %d", ctx.info.owner, ctx.info.num))
}

// ---------- specification expressions ----------

type SExpr struct {
	op    string // ident,int,str,true,false,nil,un,bin,field,index,call,quant,ite,let,slice
	name  string
	args  []*SExpr
	vars  []param
	trigs [][]*SExpr
}

type lexer struct {
	s   string
	pos int
	tok string
	kin string
}

func (l *lexer) next() error {
	for l.pos < len(l.s) && unicode.IsSpace(rune(l.s[l.pos])) {
		l.pos++
	}
	if l.pos >= len(l.s) {
		l.tok, l.kin = "", "eof"
		return nil
	}
	st := l.pos
	c := l.s[l.pos]
	isId := func(c byte) bool {
		return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_' || c == '$' || c == '#' || c >= '0' && c <= '9'
	}
	switch {
	case c >= '0' && c <= '9':
		for l.pos < len(l.s) && l.s[l.pos] >= '0' && l.s[l.pos] <= '9' {
			l.pos++
		}
		l.kin = "int"
	case isId(c):
		for l.pos < len(l.s) && isId(l.s[l.pos]) {
			l.pos++
		}
		l.kin = "id"
	case c == '"':
		l.pos++
		for l.pos < len(l.s) && l.s[l.pos] != '"' {
			l.pos++
		}
		l.pos++
		l.kin = "str"
	default:
		for _, o := range []string{"<==>", "==>", "::", ":=", "&&", "||", "==", "!=", "<=", ">="} {
			if strings.HasPrefix(l.s[l.pos:], o) {
				l.pos += len(o)
				l.kin, l.tok = "op", o
				return nil
			}
		}
		l.pos++
		l.kin = "op"
	}
	l.tok = l.s[st:l.pos]
	return nil
}

func parseSpec(s string) (e *SExpr, err error) {
	l := &lexer{s: s}
	defer func() {
		if r := recover(); r != nil {
			if er, ok := r.(error); ok {
				err = fmt.Errorf("%v in %q near %q", er, s, s[min(l.pos, len(s)):])
				return
			}
			panic(r)
		}
	}()
	l.next()
	e = l.expr(0)
	if l.kin != "eof" {
		return nil, fmt.Errorf("trailing %q in %q", l.s[l.pos-len(l.tok):], s)
	}
	return e, nil
}

var binPrec = map[string]int{"<==>": 1, "==>": 2, "||": 3, "&&": 4, "==": 5, "!=": 5, "<": 5, "<=": 5, ">": 5, ">=": 5, "in": 5, "+": 6, "-": 6, "*": 7, "/": 7, "%": 7}

func (l *lexer) expect(t string) {
	if l.tok != t {
		panic(fmt.Errorf("expected %q, found %q", t, l.tok))
	}
	l.next()
}

func (l *lexer) expr(prec int) *SExpr {
	left := l.unary()
	for {
		op := l.tok
		if l.kin != "op" && op != "in" {
			return left
		}
		p, ok := binPrec[op]
		if !ok || p < prec || (l.kin == "id" && op != "in") {
			return left
		}
		l.next()
		var right *SExpr
		if op == "==>" {
			right = l.expr(p)
		} else {
			right = l.expr(p + 1)
		}
		// chained comparisons a <= b < c
		if p == 5 && left.op == "bin" && binPrec[left.name] == 5 && left.name != "in" && op != "in" && !left.isParen() {
			left = &SExpr{op: "bin", name: "&&", args: []*SExpr{left, {op: "bin", name: op, args: []*SExpr{left.args[1], right}}}}
			continue
		}
		left = &SExpr{op: "bin", name: op, args: []*SExpr{left, right}}
	}
}

func (e *SExpr) isParen() bool { return false }

func (l *lexer) unary() *SExpr {
	if l.kin == "op" && (l.tok == "!" || l.tok == "-" || l.tok == "*") {
		op := l.tok
		l.next()
		return &SExpr{op: "un", name: op, args: []*SExpr{l.unary()}}
	}
	return l.postfix(l.primary())
}

func (l *lexer) rawType(stop ...string) string {
	// raw text up to one of the stop tokens at depth 0; starts at the current token
	st := l.pos - len(l.tok)
	d := 0
	i := st
	for i < len(l.s) {
		c := l.s[i]
		if d == 0 {
			for _, s := range stop {
				if strings.HasPrefix(l.s[i:], s) {
					t := strings.TrimSpace(l.s[st:i])
					l.pos = i
					l.next()
					return t
				}
			}
		}
		switch c {
		case '[', '(', '{':
			d++
		case ']', ')', '}':
			d--
		}
		i++
	}
	panic(fmt.Errorf("type not terminated"))
}

func (l *lexer) primary() *SExpr {
	switch l.kin {
	case "int":
		e := &SExpr{op: "int", name: l.tok}
		l.next()
		return e
	case "str":
		e := &SExpr{op: "str", name: l.tok[1 : len(l.tok)-1]}
		l.next()
		return e
	case "id":
		n := l.tok
		switch n {
		case "forall", "exists":
			l.next()
			e := &SExpr{op: "quant", name: n}
			for {
				v := l.tok
				l.next()
				l.expect2(":")
				t := l.rawType(",", "::")
				e.vars = append(e.vars, param{v, t})
				if l.tok == "," {
					l.next()
					continue
				}
				break
			}
			l.expect("::")
			for l.tok == "{" {
				l.next()
				var g []*SExpr
				for {
					g = append(g, l.expr(0))
					if l.tok == "," {
						l.next()
						continue
					}
					break
				}
				l.expect("}")
				e.trigs = append(e.trigs, g)
			}
			e.args = []*SExpr{l.expr(0)}
			return e
		case "if":
			l.next()
			c := l.expr(0)
			l.expect("then")
			a := l.expr(0)
			l.expect("else")
			b := l.expr(0)
			return &SExpr{op: "ite", args: []*SExpr{c, a, b}}
		case "let":
			l.next()
			v := l.tok
			l.next()
			l.expect(":=")
			x := l.expr(0)
			l.expect("::")
			return &SExpr{op: "let", name: v, args: []*SExpr{x, l.expr(0)}}
		case "true", "false", "nil":
			l.next()
			return &SExpr{op: n}
		}
		l.next()
		return &SExpr{op: "ident", name: n}
	case "op":
		if l.tok == "(" {
			l.next()
			e := l.expr(0)
			l.expect(")")
			return &SExpr{op: "paren", args: []*SExpr{e}}
		}
	}
	panic(fmt.Errorf("unexpected %q", l.tok))
}

func (l *lexer) expect2(t string) {
	if l.tok != t {
		panic(fmt.Errorf("expected %q, found %q", t, l.tok))
	}
	l.next()
}

func (l *lexer) postfix(e *SExpr) *SExpr {
	for l.kin == "op" {
		switch l.tok {
		case ".":
			l.next()
			n := l.tok
			l.next()
			e = &SExpr{op: "field", name: n, args: []*SExpr{e}}
		case "[":
			l.next()
			i := l.expr(0)
			if l.tok == ":=" { // functional update m[k := v]
				l.next()
				v := l.expr(0)
				l.expect("]")
				e = &SExpr{op: "upd", args: []*SExpr{e, i, v}}
				continue
			}
			l.expect("]")
			e = &SExpr{op: "index", args: []*SExpr{e, i}}
		case "(":
			l.next()
			var as []*SExpr
			for l.tok != ")" {
				as = append(as, l.expr(0))
				if l.tok == "," {
					l.next()
				} else if l.tok != ")" {
					panic(fmt.Errorf("expected , or ) found %q", l.tok))
				}
			}
			l.next()
			e = &SExpr{op: "call", args: append([]*SExpr{e}, as...)}
		default:
			return e
		}
	}
	return e
}

// ---------- evaluation ----------

type SV struct {
	t   *Term
	typ types.Type
}

type SpecEnv struct {
	ex         *Exec
	st, old    *State
	vars       map[string]SV
	fr         *Frame
	loop       *LoopCtx
	depth      int
	freshAlloc *Term
	parent     *SpecEnv
	macroDepth int
}

func (e *SpecEnv) with(name string, v SV) *SpecEnv {
	n := *e
	n.vars = make(map[string]SV, len(e.vars)+1)
	for k, x := range e.vars {
		n.vars[k] = x
	}
	n.vars[name] = v
	return &n
}

func (e *SpecEnv) boolExpr(x *SExpr) *Term {
	v := e.eval(x)
	if v.t.sort != SBool {
		panic(unsupp("spec: expected bool, found %s", v.t.sort.Name))
	}
	return v.t
}

var tInt types.Type = types.Typ[types.Int]
var tBool types.Type = types.Typ[types.Bool]
var tString types.Type = types.Typ[types.String]

func (e *SpecEnv) lookupLocal(name string) (SV, bool) {
	for fr := e.fr; fr != nil; fr = fr.parent {
		if v, ok := fr.lookupName(name, e.st, e.loop); ok {
			return v, true
		}
	}
	return SV{}, false
}

func allocOrdinal(a *ssa.Alloc) int {
	n := 1
	for _, b := range a.Parent().Blocks {
		for _, in := range b.Instrs {
			if o, ok := in.(*ssa.Alloc); ok && o.Comment == a.Comment && o.Pos() < a.Pos() {
				n++
			}
		}
	}
	return n
}

func (f *Frame) lookupName(name string, st *State, ctx *LoopCtx) (SV, bool) {
	nth := 0 // name#k: the k-th local of that name in source order
	if k := strings.Index(name, "#"); k > 0 {
		nth, _ = strconv.Atoi(name[k+1:])
		name = name[:k]
	}
	cs := f.named[name]
	var best, inner *Cell
	for _, c := range cs {
		if a := f.allocOf[c]; nth > 0 && (a == nil || allocOrdinal(a) != nth) {
			continue
		}
		if _, ok := st.cells[c]; !ok {
			continue
		}
		a := f.allocOf[c]
		if ctx != nil && ctx.fr == f && a != nil {
			var hb *ssa.BasicBlock
			for b, l := range f.loopsOf {
				if fmt.Sprintf("%s#%d", f.path, l.header.Index) == ctx.key {
					hb = b
				}
			}
			if hb != nil && !a.Block().Dominates(hb) {
				inner = c // a local of the loop's body, for steps
				continue
			}
		}
		best = c
	}
	if best == nil {
		best = inner
	}
	if best != nil {
		return f.cellSV(best, st)
	}
	for _, c := range f.named["&"+name] {
		if v, ok := st.cells[c]; ok {
			if t, ok := f.ex.tryTerm(v); ok {
				return SV{t, c.typ}, true
			}
		}
	}
	for i, fv := range f.fn.FreeVars {
		if fv.Name() == name {
			if a, ok := f.bind[i].(*Addr); ok {
				if a.kind == ACell {
					if _, ok := st.cells[a.cell]; ok {
						if v, ok := f.ex.tryTerm(f.ex.loadQuiet(st, a)); ok {
							return SV{v, a.typ}, true
						}
					}
				} else if t, ok := f.ex.tryTerm(a); ok {
					return SV{t, fv.Type()}, true
				}
			}
		}
	}
	return SV{}, false
}

func (ex *Exec) loadQuiet(st *State, a *Addr) Val {
	ex.pure++
	defer func() { ex.pure-- }()
	return ex.load(st, a)
}

func (f *Frame) cellSV(c *Cell, st *State) (SV, bool) {
	v := st.cells[c]
	t, ok := f.ex.tryTerm(v)
	if !ok {
		return SV{}, false
	}
	return SV{t, c.typ}, true
}

func (f *Frame) loopEnv(st *State, ctx *LoopCtx) *SpecEnv {
	ex := f.ex
	env := &SpecEnv{ex: ex, st: st, old: ex.pre, vars: map[string]SV{}, fr: f, loop: ctx}
	if ex.pre != nil {
		env.freshAlloc = ex.get(ex.pre, compAlloc)
	} else {
		env.freshAlloc = ex.initialAlloc()
	}
	if ex.contract != nil {
		for k, v := range ex.letVals {
			env.vars[k] = v
		}
	}
	return env
}

func (f *Frame) specBool(x *SExpr, st *State, ctx *LoopCtx) *Term {
	if f.ex.dry > 0 {
		return tTrue
	}
	return f.loopEnv(st, ctx).boolExpr(x)
}

func (e *SpecEnv) eval(x *SExpr) SV {
	ex := e.ex
	switch x.op {
	case "paren":
		return e.eval(x.args[0])
	case "int":
		n, _ := newBig().SetString(x.name, 10)
		return SV{bigInt(n), tInt}
	case "str":
		return SV{strLit(x.name), tString}
	case "true":
		return SV{tTrue, tBool}
	case "false":
		return SV{tFalse, tBool}
	case "nil":
		return SV{tZero, types.Typ[types.UntypedNil]}
	case "ident":
		return e.ident(x.name)
	case "un":
		switch x.name {
		case "!":
			return SV{not(e.boolExpr(x.args[0])), tBool}
		case "-":
			return SV{neg(e.eval(x.args[0]).t), tInt}
		case "*":
			v := e.eval(x.args[0])
			p, ok := under(v.typ).(*types.Pointer)
			if !ok {
				panic(unsupp("spec: * of non-pointer"))
			}
			a := (&Frame{ex: ex, fn: nil}).ptrAddr(v.t, p)
			return SV{ex.term(ex.loadQuiet(e.st, a)), p.Elem()}
		}
	case "bin":
		return e.bin(x)
	case "ite":
		c := e.boolExpr(x.args[0])
		a, b := e.eval(x.args[1]), e.eval(x.args[2])
		a, b = unifyNil(a, b)
		return SV{ite(c, a.t, b.t), a.typ}
	case "let":
		v := e.eval(x.args[0])
		return e.with(x.name, v).eval(x.args[1])
	case "quant":
		return e.quant(x)
	case "field":
		return e.field(x)
	case "index":
		return e.index(x)
	case "upd":
		m := e.eval(x.args[0])
		k := e.eval(x.args[1])
		v := e.eval(x.args[2])
		if m.t.sort.K == nil {
			panic(unsupp("spec: update of non-array"))
		}
		return SV{store(m.t, k.t, v.t), m.typ}
	case "call":
		return e.call(x)
	}
	panic(unsupp("spec: %s", x.op))
}

func (f *Frame) ptrAddr(t *Term, p *types.Pointer) *Addr {
	el := p.Elem()
	if _, ok := under(el).(*types.Struct); ok && !isTime(el) {
		return &Addr{kind: AHeap, ref: t, typ: el}
	}
	return &Addr{kind: ABasic, ref: t, typ: el}
}

// ghostFree tells whether what a caller sees of the contract is free of its ghost variables.
func (ct *Contract) ghostFree() bool {
	var mentions func(x *SExpr) bool
	mentions = func(x *SExpr) bool {
		if x == nil {
			return false
		}
		if x.op == "ident" {
			if _, ok := ct.ghosts[x.name]; ok {
				return true
			}
		}
		for _, a := range x.args {
			if mentions(a) {
				return true
			}
		}
		for _, tr := range x.trigs {
			for _, a := range tr {
				if mentions(a) {
					return true
				}
			}
		}
		return false
	}
	for _, cs := range [][]*Clause{ct.requires, ct.ensures} {
		for _, c := range cs {
			if mentions(c.e) {
				return false
			}
		}
	}
	for _, m := range ct.mods {
		for _, x := range m.exprs {
			if mentions(x) {
				return false
			}
		}
	}
	for _, l := range ct.lets {
		if mentions(l.e) {
			return false
		}
	}
	return true
}

func ghostComp(ct *Contract, name string) *Comp {
	return compSpecial("ghost:"+ct.name+"."+name, ct.ghosts[name].t.sort)
}

func (e *SpecEnv) ident(name string) SV {
	n := name
	if e.ex.contract != nil && e.macroDepth == 0 {
		if g, ok := e.ex.contract.ghosts[name]; ok {
			if _, bound := e.vars[name]; !bound {
				return SV{e.ex.get(e.st, ghostComp(e.ex.contract, name)), g.typ}
			}
		}
	}
	if v, ok := e.vars[n]; ok {
		// inside the body, a struct parameter whose address is taken means the local copy
		if e.fr != nil && v.typ != nil {
			if _, isStruct := under(v.typ).(*types.Struct); isStruct && !isTime(v.typ) {
				for fr := e.fr; fr != nil; fr = fr.parent {
					for _, c := range fr.named["&"+n] {
						if w, ok := e.st.cells[c]; ok {
							if t, ok := e.ex.tryTerm(w); ok {
								return SV{t, c.typ}
							}
						}
					}
					for _, c := range fr.named[n] {
						if e.loop == nil { // a postcondition means the value passed
							break
						}
						if a := fr.allocOf[c]; a != nil && allocOrdinal(a) == 1 && types.Identical(c.typ, v.typ) {
							if _, ok := e.st.cells[c].(*Term); ok {
								if w, ok := fr.cellSV(c, e.st); ok {
									return w
								}
							}
						}
					}
				}
			}
		}
		return v
	}
	if e.fr != nil {
		if v, ok := e.lookupLocal(n); ok {
			return v
		}
	}
	if n == "$i" && e.loop != nil {
		return SV{e.st.cells[e.loop.iter].(*Term), tInt}
	}
	if strings.HasPrefix(n, "$i") && e.loop != nil { // $iN: of the enclosing loop N
		if k, err := strconv.Atoi(n[2:]); err == nil {
			for fr := e.loop.fr; fr != nil; fr = fr.parent {
				for _, c := range fr.curLoop {
					if c.info.num == k {
						return SV{e.st.cells[c.iter].(*Term), tInt}
					}
				}
			}
			panic(unsupp("spec: %s: no enclosing loop %d", n, k))
		}
	}
	if n == "$alloc" {
		return SV{e.ex.get(e.st, compAlloc), tInt}
	}
	if n == "$out" {
		return SV{e.ex.get(e.st, compOut), tInt}
	}
	if m, ok := macros[n]; ok && len(m.params) == 0 {
		return e.expand(m, nil)
	}
	if u, ok := ufuns[n]; ok && len(u.args) == 0 {
		return SV{app("spec."+n, u.rs), u.ret}
	}
	for _, pn := range []string{"processors", "main"} {
		if p := prog.pkgs[pn]; p != nil {
			if o := p.Scope().Lookup(n); o != nil {
				return e.pkgObj(p, o)
			}
		}
	}
	w := ""
	if e.loop != nil && e.loop.info != nil {
		w = fmt.Sprintf(" in loop %d", e.loop.info.num)
	}
	panic(unsupp("spec: unknown name %q%s", n, w))
}

func (e *SpecEnv) pkgObj(p *types.Package, o types.Object) SV {
	switch c := o.(type) {
	case *types.Const:
		switch c.Val().Kind() {
		case constant.Int:
			n, _ := newBig().SetString(c.Val().ExactString(), 10)
			return SV{bigInt(n), c.Type()}
		case constant.String:
			return SV{strLit(constant.StringVal(c.Val())), c.Type()}
		case constant.Bool:
			return SV{boolT(constant.BoolVal(c.Val())), c.Type()}
		}
	case *types.Var:
		g, ok := prog.prog.Package(p).Members[o.Name()].(*ssa.Global)
		if ok {
			return SV{e.ex.get(e.st, compGlobal(g)), o.Type()}
		}
	}
	panic(unsupp("spec: object %s", o))
}

func unifyNil(a, b SV) (SV, SV) {
	isNil := func(v SV) bool { b, ok := v.typ.(*types.Basic); return ok && b.Kind() == types.UntypedNil }
	if isNil(a) && !isNil(b) {
		a = SV{zeroOfSort(b.t.sort, b.typ), b.typ}
	} else if isNil(b) && !isNil(a) {
		b = SV{zeroOfSort(a.t.sort, a.typ), a.typ}
	}
	return a, b
}

// unifyFloat turns an integer literal into a float next to a float.
func unifyFloat(a, b SV) (SV, SV) {
	lit := func(v SV, s *Sort, typ types.Type) SV {
		if v.t == tZero {
			return SV{zeroOfSort(s, typ), typ}
		}
		return SV{app("i2f."+s.Name, s, v.t), typ}
	}
	isF := func(s *Sort) bool { return s == SF64 || s == SF32 }
	if isF(a.t.sort) && isInt(b.t) {
		b = lit(b, a.t.sort, a.typ)
	} else if isF(b.t.sort) && isInt(a.t) {
		a = lit(a, b.t.sort, b.typ)
	}
	return a, b
}

func (e *SpecEnv) bin(x *SExpr) SV {
	switch x.name {
	case "&&":
		return SV{and(e.boolExpr(x.args[0]), e.boolExpr(x.args[1])), tBool}
	case "||":
		return SV{or(e.boolExpr(x.args[0]), e.boolExpr(x.args[1])), tBool}
	case "==>":
		return SV{implies(e.boolExpr(x.args[0]), e.boolExpr(x.args[1])), tBool}
	case "<==>":
		return SV{iff(e.boolExpr(x.args[0]), e.boolExpr(x.args[1])), tBool}
	case "in":
		k := e.eval(x.args[0])
		m := e.eval(x.args[1])
		if mt, ok := m.typ.(types.Type); ok && mt != nil {
			if mp, ok := under(mt).(*types.Map); ok {
				return SV{sel(sel(e.ex.get(e.st, compMD(mp)), m.t), k.t), tBool}
			}
		}
		if m.t.sort.K != nil && m.t.sort.V == SBool {
			return SV{sel(m.t, k.t), tBool}
		}
		panic(unsupp("spec: 'in' needs a map or set"))
	}
	a, b := e.eval(x.args[0]), e.eval(x.args[1])
	a, b = unifyNil(a, b)
	a, b = unifyFloat(a, b)
	if s := a.t.sort; (s == SF64 || s == SF32) && b.t.sort == s {
		switch x.name {
		case "+":
			return SV{app("fadd."+s.Name, s, a.t, b.t), a.typ}
		case "-":
			return SV{app("fsub."+s.Name, s, a.t, b.t), a.typ}
		case "*":
			return SV{app("fmul."+s.Name, s, a.t, b.t), a.typ}
		case "/":
			return SV{app("fdiv."+s.Name, s, a.t, b.t), a.typ}
		case "<":
			return SV{app("flt."+s.Name, SBool, a.t, b.t), tBool}
		case ">":
			return SV{app("flt."+s.Name, SBool, b.t, a.t), tBool}
		case "<=":
			return SV{app("fle."+s.Name, SBool, a.t, b.t), tBool}
		case ">=":
			return SV{app("fle."+s.Name, SBool, b.t, a.t), tBool}
		}
	}
	switch x.name {
	case "==", "!=":
		var r *Term
		if a.t.sort == SSlc && (b.t == zeroOfSort(SSlc, nil) || a.t == zeroOfSort(SSlc, nil)) {
			if b.t == zeroOfSort(SSlc, nil) {
				r = eq(dsel(a.t, 0), tZero)
			} else {
				r = eq(dsel(b.t, 0), tZero)
			}
		} else {
			if a.t.sort != b.t.sort {
				panic(unsupp("spec: == on %s and %s", a.t.sort.Name, b.t.sort.Name))
			}
			r = eq(a.t, b.t)
		}
		if x.name == "!=" {
			r = not(r)
		}
		return SV{r, tBool}
	case "+":
		if a.t.sort == SStr {
			return SV{strcat(a.t, b.t), tString}
		}
		return SV{add(a.t, b.t), tInt}
	case "-":
		return SV{sub(a.t, b.t), tInt}
	case "*":
		return SV{mul(a.t, b.t), tInt}
	case "/":
		return SV{smtDiv(a.t, b.t), tInt}
	case "%":
		return SV{smtMod(a.t, b.t), tInt}
	case "<":
		return SV{lt(a.t, b.t), tBool}
	case "<=":
		return SV{le(a.t, b.t), tBool}
	case ">":
		return SV{lt(b.t, a.t), tBool}
	case ">=":
		return SV{le(b.t, a.t), tBool}
	}
	panic(unsupp("spec: operator %s", x.name))
}

func (e *SpecEnv) quant(x *SExpr) SV {
	n := e
	var bound []*Term
	for _, v := range x.vars {
		t, s, err := specType(v.typ)
		if err != nil {
			panic(unsupp("spec: %v", err))
		}
		b := boundVar(v.name, n.depth+1, s)
		m := n.with(v.name, SV{b, t})
		m.depth = n.depth + 1
		n = m
		bound = append(bound, b)
	}
	body := n.boolExpr(x.args[0])
	var trigs [][]*Term
	for _, g := range x.trigs {
		var tg []*Term
		for _, t := range g {
			tg = append(tg, n.eval(t).t)
		}
		trigs = append(trigs, tg)
	}
	return SV{quant(x.name, bound, trigs, body), tBool}
}

func fieldIndex(st *types.Struct, n string) int {
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == n {
			return i
		}
	}
	return -1
}

func (e *SpecEnv) field(x *SExpr) SV {
	// package-qualified object
	if x.args[0].op == "ident" {
		if _, ok := e.vars[x.args[0].name]; !ok {
			isLocal := false
			if e.fr != nil {
				_, isLocal = e.lookupLocal(x.args[0].name)
			}
			if p := prog.pkgs[x.args[0].name]; p != nil && !isLocal {
				if o := p.Scope().Lookup(x.name); o != nil {
					return e.pkgObj(p, o)
				}
			}
		}
	}
	v := e.eval(x.args[0])
	return e.fieldOf(v, x.name)
}

func (e *SpecEnv) fieldOf(v SV, name string) SV {
	if v.typ == nil {
		panic(unsupp("spec: field %s of untyped value", name))
	}
	switch u := under(v.typ).(type) {
	case *types.Pointer:
		st, ok := under(u.Elem()).(*types.Struct)
		if !ok {
			panic(unsupp("spec: field %s of %s", name, v.typ))
		}
		i := fieldIndex(st, name)
		if i < 0 {
			panic(unsupp("spec: no field %s in %s", name, v.typ))
		}
		return SV{sel(e.ex.get(e.st, compField(u.Elem(), i)), v.t), st.Field(i).Type()}
	case *types.Struct:
		i := fieldIndex(u, name)
		if i < 0 {
			panic(unsupp("spec: no field %s in %s", name, v.typ))
		}
		return SV{dsel(v.t, i), u.Field(i).Type()}
	case *types.Slice:
		for i, n := range []string{"$arr", "$off", "$len", "$cap"} {
			if n == name {
				return SV{dsel(v.t, i), tInt}
			}
		}
	}
	panic(unsupp("spec: field %s of %s", name, v.typ))
}

func (e *SpecEnv) index(x *SExpr) SV {
	m := e.eval(x.args[0])
	i := e.eval(x.args[1])
	if m.typ != nil {
		switch u := under(m.typ).(type) {
		case *types.Slice:
			return SV{sel(sel(e.ex.get(e.st, compElem(u.Elem())), dsel(m.t, 0)), add(dsel(m.t, 1), i.t)), u.Elem()}
		case *types.Map:
			return SV{sel(sel(e.ex.get(e.st, compMV(u)), m.t), i.t), u.Elem()}
		case *types.Array:
			return SV{sel(m.t, i.t), u.Elem()}
		case *types.Basic:
			if m.t.sort == SStr {
				return SV{app("strat", SInt, m.t, i.t), tInt}
			}
		}
	}
	if m.t.sort.K != nil {
		return SV{sel(m.t, i.t), nil}
	}
	panic(unsupp("spec: index of %v", m.typ))
}

func (e *SpecEnv) expand(m *Macro, args []SV) SV {
	if e.macroDepth > 40 {
		panic(unsupp("spec: macro recursion in %s", m.name))
	}
	if len(args) != len(m.params) {
		panic(unsupp("spec: %s takes %d arguments", m.name, len(m.params)))
	}
	n := *e
	n.macroDepth = e.macroDepth + 1
	n.fr = nil
	n.vars = map[string]SV{}
	for i, p := range m.params {
		t, s, err := specType(p.typ)
		if err != nil {
			panic(unsupp("spec: %s: %v", m.name, err))
		}
		a := args[i]
		if b, ok := a.typ.(*types.Basic); ok && b.Kind() == types.UntypedNil {
			a.t = zeroOfSort(s, t)
		}
		if a.t.sort != s {
			panic(unsupp("spec: argument %s of %s has sort %s, want %s", p.name, m.name, a.t.sort.Name, s.Name))
		}
		n.vars[p.name] = SV{a.t, t}
	}
	return n.eval(m.body)
}

func (e *SpecEnv) call(x *SExpr) SV {
	fn := x.args[0]
	as := x.args[1:]
	if fn.op == "ident" {
		switch fn.name {
		case "old":
			n := *e
			n.st = e.old
			if n.st == nil {
				panic(unsupp("spec: old() without old state"))
			}
			if e.fr != nil {
				n.fr = nil
				n.vars = map[string]SV{}
				for k, v := range e.vars {
					n.vars[k] = v
				}
				root := e.fr
				for root.parent != nil {
					root = root.parent
				}
				for i, p := range root.fn.Params {
					if t, ok := e.ex.tryTerm(root.params[i]); ok {
						if _, has := n.vars[p.Name()]; !has {
							n.vars[p.Name()] = SV{t, p.Type()}
						}
					}
				}
			}
			return n.eval(as[0])
		case "pre": // loop entry
			if e.loop == nil {
				panic(unsupp("spec: pre() outside loop"))
			}
			n := *e
			n.st = e.loop.entry
			return n.eval(as[0])
		case "atold": // evaluate first argument's heap reads in the old state, keeping locals
			n := *e
			n.vars = map[string]SV{}
			for k, v := range e.vars {
				n.vars[k] = v
			}
			for _, a := range as[1:] {
				n.vars[a.name] = e.eval(a)
			}
			n.st = &State{cells: e.st.cells, heap: e.old.heap, pc: e.st.pc, node: e.st.node}
			return n.eval(as[0])
		case "atentry": // everything, locals included, at loop entry
			n := *e
			n.st = e.loop.entry
			return n.eval(as[0])
		case "athead": // everything, locals included, at the start of the loop's current iteration
			n := *e
			n.st = e.loop.head
			return n.eval(as[0])
		case "atpre":
			n := *e
			n.st = &State{cells: e.st.cells, heap: e.loop.entry.heap, pc: e.st.pc, node: e.st.node}
			return n.eval(as[0])
		case "len":
			v := e.eval(as[0])
			if v.t.sort == SSlc {
				return SV{dsel(v.t, 2), tInt}
			}
			if v.t.sort == SStr {
				return SV{strlen(v.t), tInt}
			}
			if v.typ != nil {
				if m, ok := under(v.typ).(*types.Map); ok {
					d := sel(e.ex.get(e.st, compMD(m)), v.t)
					return SV{app(cardName(d.sort), SInt, d), tInt}
				}
			}
			if v.t.sort.K != nil && v.t.sort.V == SBool {
				return SV{app(cardName(v.t.sort), SInt, v.t), tInt}
			}
		case "cap":
			return SV{dsel(e.eval(as[0]).t, 3), tInt}
		case "math": // a function of package math, e.g. math("Cos", x)
			var ts []*Term
			for _, a := range as[1:] {
				ts = append(ts, e.eval(a).t)
			}
			return SV{app("ext.math."+as[0].name, SF64, ts...), types.Typ[types.Float64]}
		case "itoa": // strconv.FormatInt
			return SV{app("ext.strconv.FormatInt", SStr, e.eval(as[0]).t, e.eval(as[1]).t), tString}
		case "feq": // Go's == on floats
			a, b := unifyFloat(e.eval(as[0]), e.eval(as[1]))
			return SV{app("feq."+a.t.sort.Name, SBool, a.t, b.t), tBool}
		case "isnan":
			return SV{app("fisnan", SBool, e.eval(as[0]).t), tBool}
		case "float64":
			v := e.eval(as[0])
			if v.t.sort == SF64 {
				return v
			}
			if v.t == tZero {
				return SV{zeroOfSort(SF64, nil), types.Typ[types.Float64]}
			}
			if v.t.sort == SInt {
				return SV{app("i2f.F64", SF64, v.t), types.Typ[types.Float64]}
			}
			return SV{app("fcvt."+v.t.sort.Name+".F64", SF64, v.t), types.Typ[types.Float64]}
		case "float32":
			v := e.eval(as[0])
			if v.t.sort != SF64 {
				panic(unsupp("spec: float32 of %s", v.t.sort.Name))
			}
			return SV{app("fcvt.F64.F32", SF32, v.t), types.Typ[types.Float32]}
		case "fresh": // allocated since function entry (or nil-capacity slice)
			v := e.eval(as[0])
			if v.t.sort == SSlc {
				return SV{or(lt(e.freshAlloc, dsel(v.t, 0)), eq(dsel(v.t, 3), tZero)), tBool}
			}
			return SV{lt(e.freshAlloc, v.t), tBool}
		case "freshloop":
			v := e.eval(as[0])
			al := e.ex.get(e.loop.entry, compAlloc)
			if v.t.sort == SSlc {
				return SV{or(lt(al, dsel(v.t, 0)), eq(dsel(v.t, 3), tZero)), tBool}
			}
			return SV{lt(al, v.t), tBool}
		case "allocated":
			v := e.eval(as[0])
			t := v.t
			if t.sort == SSlc {
				t = dsel(t, 0)
			}
			return SV{le(t, e.ex.get(e.st, compAlloc)), tBool}
		case "arr":
			return SV{dsel(e.eval(as[0]).t, 0), tInt}
		case "off":
			return SV{dsel(e.eval(as[0]).t, 1), tInt}
		case "row": // contents of a slice's backing array
			v := e.eval(as[0])
			sl := under(v.typ).(*types.Slice)
			return SV{sel(e.ex.get(e.st, compElem(sl.Elem())), dsel(v.t, 0)), types.NewArray(sl.Elem(), 1<<40)}
		case "dom": // key set of a map
			v := e.eval(as[0])
			m := under(v.typ).(*types.Map)
			return SV{sel(e.ex.get(e.st, compMD(m)), v.t), nil}
		case "mapval":
			v := e.eval(as[0])
			m := under(v.typ).(*types.Map)
			return SV{sel(e.ex.get(e.st, compMV(m)), v.t), nil}
		case "fieldmap": // the field of all objects of a type: fieldmap(pkg.Type.Field)
			x := as[0]
			if x.op == "field" && x.args[0].op == "field" && x.args[0].args[0].op == "ident" {
				if p := prog.pkgs[x.args[0].args[0].name]; p != nil {
					if o := p.Scope().Lookup(x.args[0].name); o != nil {
						if st, ok := under(o.Type()).(*types.Struct); ok && fieldIndex(st, x.name) >= 0 {
							return SV{e.ex.get(e.st, compField(o.Type(), fieldIndex(st, x.name))), nil}
						}
					}
				}
			}
			panic(unsupp("spec: fieldmap needs pkg.Type.Field"))
		case "stable": // result of a function with a stable clause in this state: stable("pkg.f", args), receiver first
			fn := prog.funcs[as[0].name]
			if fn == nil || contracts[as[0].name] == nil || !contracts[as[0].name].stable {
				panic(unsupp("spec: stable(%q)", as[0].name))
			}
			var ts []*Term
			if fn.Signature.Recv() != nil { // unused
				ts = append(ts, tZero)
			}
			for _, a := range as[1:] {
				ts = append(ts, e.eval(a).t)
			}
			rt := fn.Signature.Results().At(0).Type()
			return SV{stableTerm(e.ex, e.st, fn, ts, sortOf(rt)), rt}
		case "fconst": // an untyped constant expression, converted to float64
			v := constant.MakeFromLiteral(as[0].name, token.FLOAT, 0)
			if i := strings.Index(as[0].name, "/"); i >= 0 {
				v = constant.BinaryOp(constant.MakeFromLiteral(as[0].name[:i], token.FLOAT, 0), token.QUO, constant.MakeFromLiteral(as[0].name[i+1:], token.FLOAT, 0))
			}
			if v.Kind() == constant.Unknown {
				panic(unsupp("spec: fconst(%q)", as[0].name))
			}
			f, _ := constant.Float64Val(v) // as the compiler rounds it
			typ := types.Typ[types.Float64]
			if len(as) > 1 && as[1].name == "float32" {
				typ = types.Typ[types.Float32]
				f32, _ := constant.Float32Val(constant.MakeFloat64(f))
				f = float64(f32)
			}
			return SV{constTerm(ssa.NewConst(constant.MakeFloat64(f), typ)), typ}
		case "visited":
			k := e.eval(as[0])
			it := e.rangeIter()
			if it == nil {
				panic(unsupp("spec: visited() outside a map range"))
			}
			return SV{sel(e.st.cells[it.visCell].(*Term), k.t), tBool}
		case "domstart":
			k := e.eval(as[0])
			it := e.rangeIter()
			if it == nil {
				panic(unsupp("spec: domstart() outside a map range"))
			}
			return SV{sel(it.dom0, k.t), tBool}
		case "allfields": // struct equality of *a in current state and *b in old state
		case "bit":
			return SV{bitOf(e.eval(as[0]).t, e.eval(as[1]).t), tBool}
		case "zero":
			if as[0].op == "str" {
				t, s, err := specType(as[0].name)
				if err != nil {
					panic(unsupp("spec: %v", err))
				}
				return SV{zeroOfSort(s, t), t}
			}
		case "heap": // heap("pkg.Type.field") is the component itself
			ks, err := compKeys(as[0].name)
			if err != nil {
				panic(unsupp("spec: %v", err))
			}
			return SV{e.ex.get(e.st, comps[ks[0]]), nil}
		case "deref": // whole struct behind a pointer
			v := e.eval(as[0])
			p := under(v.typ).(*types.Pointer)
			return SV{e.ex.term(e.ex.loadQuiet(e.st, (&Frame{ex: e.ex}).ptrAddr(v.t, p))), p.Elem()}
		case "urlString": // (*url.URL).String
			v := e.eval(as[0])
			p := under(v.typ).(*types.Pointer)
			return SV{app("ext.url.URL.String", SStr, e.ex.term(e.ex.loadQuiet(e.st, (&Frame{ex: e.ex}).ptrAddr(v.t, p)))), types.Typ[types.String]}
		case "eqExcept": // eqExcept(p, "f1,f2"): *p unchanged from old except the listed fields
			v := e.eval(as[0])
			p := under(v.typ).(*types.Pointer)
			st := under(p.Elem()).(*types.Struct)
			ex := map[string]bool{}
			if len(as) > 1 {
				for _, n := range strings.Split(as[1].name, ",") {
					ex[strings.TrimSpace(n)] = true
				}
			}
			var cs []*Term
			for i := 0; i < st.NumFields(); i++ {
				if ex[st.Field(i).Name()] {
					continue
				}
				if _, ok := trySort(st.Field(i).Type()); !ok {
					continue
				}
				c := compField(p.Elem(), i)
				cs = append(cs, eq(sel(e.ex.get(e.st, c), v.t), sel(e.ex.get(e.old, c), v.t)))
			}
			return SV{and(cs...), tBool}
		case "sameExcept": // sameExcept(p, q, "f1,f2"): *p == *q in the current state except the listed fields
			v, w := e.eval(as[0]), e.eval(as[1])
			p := under(v.typ).(*types.Pointer)
			st := under(p.Elem()).(*types.Struct)
			ex := map[string]bool{}
			if len(as) > 2 {
				for _, n := range strings.Split(as[2].name, ",") {
					ex[strings.TrimSpace(n)] = true
				}
			}
			var cs []*Term
			for i := 0; i < st.NumFields(); i++ {
				if ex[st.Field(i).Name()] {
					continue
				}
				if _, ok := trySort(st.Field(i).Type()); !ok {
					continue
				}
				c := compField(p.Elem(), i)
				cs = append(cs, eq(sel(e.ex.get(e.st, c), v.t), sel(e.ex.get(e.st, c), w.t)))
			}
			return SV{and(cs...), tBool}
		}
		if m, ok := macros[fn.name]; ok {
			var vs []SV
			for _, a := range as {
				vs = append(vs, e.eval(a))
			}
			return e.expand(m, vs)
		}
		if u, ok := ufuns[fn.name]; ok {
			if len(as) != len(u.as) {
				panic(unsupp("spec: %s takes %d arguments", fn.name, len(u.as)))
			}
			var ts []*Term
			for i, a := range as {
				v := e.eval(a)
				if b, ok := v.typ.(*types.Basic); ok && b.Kind() == types.UntypedNil {
					v.t = zeroOfSort(u.as[i], u.args[i])
				}
				if v.t.sort != u.as[i] {
					panic(unsupp("spec: argument %d of %s has sort %s", i+1, fn.name, v.t.sort.Name))
				}
				ts = append(ts, v.t)
			}
			if strings.Contains(fn.name, "$") { // alias of an external function symbol
				return SV{app(strings.ReplaceAll(fn.name, "$", "."), u.rs, ts...), u.ret}
			}
			if bgSymbols[fn.name] {
				return SV{app(fn.name, u.rs, ts...), u.ret}
			}
			return SV{app("spec."+fn.name, u.rs, ts...), u.ret}
		}
		if f := prog.funcs["processors."+fn.name]; f != nil {
			return e.goCall(f, as, nil)
		}
	}
	if fn.op == "field" {
		// pkg.Func or value.Method
		if fn.args[0].op == "ident" {
			pn := fn.args[0].name
			_, isVar := e.vars[pn]
			if !isVar && e.fr != nil {
				_, isVar = e.lookupLocal(pn)
			}
			if !isVar && prog.pkgs[pn] != nil {
				if f := prog.funcs[pn+"."+fn.name]; f != nil {
					return e.goCall(f, as, nil)
				}
			}
		}
		recv := e.eval(fn.args[0])
		if recv.typ == nil {
			panic(unsupp("spec: method %s on untyped value", fn.name))
		}
		t := recv.typ
		for _, ty := range []types.Type{t, types.NewPointer(t)} {
			ms := prog.prog.MethodSets.MethodSet(ty)
			for i := 0; i < ms.Len(); i++ {
				if ms.At(i).Obj().Name() == fn.name {
					m := prog.prog.MethodValue(ms.At(i))
					if m.Synthetic != "" { // promoted or pointer wrapper
						if o, ok := ms.At(i).Obj().(*types.Func); ok {
							if r := prog.prog.FuncValue(o); r != nil {
								m = r
							}
						}
					}
					return e.goCall(m, as, &recv)
				}
			}
		}
		panic(unsupp("spec: no method %s on %s", fn.name, recv.typ))
	}
	panic(unsupp("spec: unknown function %s", fn.name))
}

func (e *SpecEnv) rangeIter() *RangeIter {
	if e.loop == nil {
		return nil
	}
	if e.loop.rng != nil {
		return e.loop.rng
	}
	// find the Range feeding this header's Next
	f := e.loop.fr
	for h, l := range f.loopsOf {
		if fmt.Sprintf("%s#%d", f.path, l.header.Index) == e.loop.key {
			for _, in := range h.Instrs {
				if n, ok := in.(*ssa.Next); ok {
					if it, ok := f.env[n.Iter].(*RangeIter); ok && it.isMap {
						e.loop.rng = it
						return it
					}
				}
			}
		}
	}
	return nil
}

// goCall evaluates a loop-free Go function of the code base inside a specification.
func (e *SpecEnv) goCall(fn *ssa.Function, as []*SExpr, recv *SV) SV {
	ex := e.ex
	var args []Val
	i := 0
	if recv != nil {
		r := *recv
		pt := fn.Params[0].Type()
		if _, isP := under(pt).(*types.Pointer); isP {
			if _, have := under(r.typ).(*types.Pointer); !have {
				// method with pointer receiver on a value: use a temporary cell
				c := ex.cell("spec", fmt.Sprintf("tmp%d", ex.cellCtr), "tmp", r.typ)
				e2 := *e
				e2.st = e.st.clone()
				e2.st.cells[c] = r.t
				e = &e2
				args = append(args, &Addr{kind: ACell, cell: c, typ: r.typ})
			} else {
				args = append(args, r.t)
			}
		} else if pp, have := under(r.typ).(*types.Pointer); have {
			args = append(args, ex.loadQuiet(e.st, (&Frame{ex: ex}).ptrAddr(r.t, pp)))
		} else {
			args = append(args, r.t)
		}
		i = 1
	}
	for k, a := range as {
		v := e.eval(a)
		if b, ok := v.typ.(*types.Basic); ok && b.Kind() == types.UntypedNil {
			v.t = zeroTerm(fn.Params[i+k].Type())
		}
		args = append(args, v.t)
	}
	ex.pure++
	defer func() { ex.pure-- }()
	fr := &Frame{fn: fn, ex: ex, path: "spec"}
	v, _ := fr.callFn(e.st.clone(), fn, args, nil, fn.Signature.Results(), "spec")
	t := ex.term(v)
	return SV{t, fn.Signature.Results().At(0).Type()}
}
