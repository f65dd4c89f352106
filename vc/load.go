package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Program struct {
	fset  *token.FileSet
	prog  *ssa.Program
	pkgs  map[string]*types.Package // by name and by path
	funcs map[string]*ssa.Function
	main  *packages.Package
}

var prog *Program

const gtfsparserPath = "github.com/patrickbr/gtfsparser"

func loadProgram(dir string) (*Program, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedExportFile | packages.NeedTypes | packages.NeedSyntax |
			packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir: dir,
		Env: os.Environ(),
	}
	initial, err := packages.Load(cfg, "./...", gtfsparserPath, gtfsparserPath+"/gtfs")
	if err != nil {
		return nil, err
	}
	var errs []string
	for _, p := range initial {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("load: %s", strings.Join(errs, "; "))
	}
	sp, _ := ssautil.Packages(initial, ssa.NaiveForm|ssa.InstantiateGenerics)
	sp.Build()
	P := &Program{prog: sp, fset: sp.Fset, pkgs: map[string]*types.Package{}, funcs: map[string]*ssa.Function{}}
	var visit func(p *types.Package)
	visit = func(p *types.Package) {
		if _, ok := P.pkgs[p.Path()]; ok {
			return
		}
		P.pkgs[p.Path()] = p
		if _, ok := P.pkgs[p.Name()]; !ok {
			P.pkgs[p.Name()] = p
		}
		for _, i := range p.Imports() {
			visit(i)
		}
	}
	for _, p := range initial {
		visit(p.Types)
	}
	for _, p := range initial {
		P.pkgs[p.Types.Name()] = p.Types
	}
	for fn := range ssautil.AllFunctions(sp) {
		if fn.Pkg == nil && (fn.Origin() == nil || fn.Origin().Pkg == nil) {
			continue
		}
		n := fnName(fn)
		if o, ok := P.funcs[n]; ok && o.Synthetic == "" {
			continue
		}
		P.funcs[n] = fn
	}
	// functions not reachable from AllFunctions' roots: all package members and methods
	for _, pk := range sp.AllPackages() {
		for _, m := range pk.Members {
			if f, ok := m.(*ssa.Function); ok {
				P.funcs[fnName(f)] = f
			}
			if t, ok := m.(*ssa.Type); ok {
				for _, ty := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
					ms := sp.MethodSets.MethodSet(ty)
					for i := 0; i < ms.Len(); i++ {
						f := sp.MethodValue(ms.At(i))
						if f != nil && f.Synthetic == "" {
							P.funcs[fnName(f)] = f
						}
					}
				}
			}
		}
	}
	return P, nil
}

// fnName gives names like processors.ServiceMinimizer.updateService, gtfs.Date.Day, processors.F$1
func fnName(f *ssa.Function) string {
	if f.Parent() != nil {
		i := 0
		for k, a := range f.Parent().AnonFuncs {
			if a == f {
				i = k + 1
			}
		}
		return fmt.Sprintf("%s$%d", fnName(f.Parent()), i)
	}
	pk := ""
	if f.Pkg != nil {
		pk = f.Pkg.Pkg.Name() + "."
	} else if f.Object() != nil && f.Object().Pkg() != nil {
		pk = f.Object().Pkg().Name() + "."
	}
	if as := f.TypeArgs(); len(as) > 0 && f.Origin() != nil {
		var ts []string
		for _, a := range as {
			ts = append(ts, types.TypeString(a, func(p *types.Package) string { return p.Name() }))
		}
		return fnName(f.Origin()) + "[" + strings.Join(ts, ",") + "]"
	}
	if r := f.Signature.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := t.(*types.Named); ok {
			return pk + n.Obj().Name() + "." + f.Name()
		}
	}
	return pk + f.Name()
}

// resolveType parses a Go type expression with package-name qualifiers.
func resolveType(s string) (types.Type, error) {
	e, err := parser.ParseExpr(s)
	if err != nil {
		return nil, fmt.Errorf("type %q: %v", s, err)
	}
	return typeOfExpr(e)
}

func typeOfExpr(e ast.Expr) (types.Type, error) {
	switch x := e.(type) {
	case *ast.ParenExpr:
		return typeOfExpr(x.X)
	case *ast.Ident:
		if o := types.Universe.Lookup(x.Name); o != nil {
			if tn, ok := o.(*types.TypeName); ok {
				return tn.Type(), nil
			}
		}
		for _, pn := range []string{"processors", "main"} {
			if p := prog.pkgs[pn]; p != nil {
				if o, ok := p.Scope().Lookup(x.Name).(*types.TypeName); ok {
					return o.Type(), nil
				}
			}
		}
	case *ast.SelectorExpr:
		id, ok := x.X.(*ast.Ident)
		if ok {
			if p := prog.pkgs[id.Name]; p != nil {
				if o, ok := p.Scope().Lookup(x.Sel.Name).(*types.TypeName); ok {
					return o.Type(), nil
				}
			}
		}
	case *ast.StarExpr:
		t, err := typeOfExpr(x.X)
		if err != nil {
			return nil, err
		}
		return types.NewPointer(t), nil
	case *ast.ArrayType:
		t, err := typeOfExpr(x.Elt)
		if err != nil {
			return nil, err
		}
		if x.Len == nil {
			return types.NewSlice(t), nil
		}
		if bl, ok := x.Len.(*ast.BasicLit); ok {
			n := int64(0)
			fmt.Sscan(bl.Value, &n)
			return types.NewArray(t, n), nil
		}
	case *ast.MapType:
		k, err := typeOfExpr(x.Key)
		if err != nil {
			return nil, err
		}
		v, err := typeOfExpr(x.Value)
		if err != nil {
			return nil, err
		}
		return types.NewMap(k, v), nil
	case *ast.ChanType:
		t, err := typeOfExpr(x.Value)
		if err != nil {
			return nil, err
		}
		return types.NewChan(types.SendRecv, t), nil
	case *ast.StructType:
		if x.Fields == nil || len(x.Fields.List) == 0 {
			return types.NewStruct(nil, nil), nil
		}
	}
	return nil, fmt.Errorf("cannot resolve type %s", types.ExprString(e))
}

// ---------- Go types to sorts ----------

func shortType(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func isTime(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "time" && n.Obj().Name() == "Time"
}

func under(t types.Type) types.Type { return types.Unalias(t).Underlying() }

var sortCache = map[string]*Sort{}

func sortOf(t types.Type) *Sort {
	t = types.Unalias(t)
	k := types.TypeString(t, nil)
	if s, ok := sortCache[k]; ok {
		return s
	}
	s := sortOf1(t)
	sortCache[k] = s
	return s
}

func sortOf1(t types.Type) *Sort {
	if isTime(t) {
		return SInt
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return SBool
		case u.Info()&types.IsInteger != 0:
			return SInt
		case u.Info()&types.IsString != 0:
			return SStr
		case u.Kind() == types.Float64 || u.Kind() == types.UntypedFloat:
			return SF64
		case u.Kind() == types.Float32:
			return SF32
		case u.Kind() == types.UnsafePointer:
			return SInt
		case u.Kind() == types.UntypedNil:
			return SInt
		}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return SInt
	case *types.Slice:
		return SSlc
	case *types.Interface:
		return SIfc
	case *types.Array:
		return arraySort(SInt, sortOf(u.Elem()))
	case *types.Struct:
		var fs []DTField
		for i := 0; i < u.NumFields(); i++ {
			n := u.Field(i).Name()
			if n == "_" {
				n = fmt.Sprintf("_%d", i)
			}
			fs = append(fs, DTField{n, sortOf(u.Field(i).Type())})
		}
		name := sanitize(shortType(t))
		if u.NumFields() == 0 {
			name = "Unit"
		}
		if o, ok := sorts["T."+name]; ok && u.NumFields() > 0 {
			_ = o
			// same short name from another package
			name = sanitize(types.TypeString(t, nil))
		}
		return mkDatatype("T."+name, fs)
	case *types.Tuple:
		var fs []DTField
		for i := 0; i < u.Len(); i++ {
			fs = append(fs, DTField{fmt.Sprintf("_%d", i), sortOf(u.At(i).Type())})
		}
		return mkDatatype("Tup."+sanitize(shortType(t)), fs)
	}
	panic(unsupp("sort of type " + t.String()))
}

func isUnsigned(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

func isIntegerT(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func isFloatT(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func isStringT(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func intBits(t types.Type) int {
	b := under(t).(*types.Basic)
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32:
		return 32
	}
	return 64
}

// zeroVal is the zero value as a term
func zeroTerm(t types.Type) *Term { return zeroOfSort(sortOf(t), t) }

func zeroOfSort(s *Sort, t types.Type) *Term {
	switch {
	case s == SInt:
		return tZero
	case s == SBool:
		return tFalse
	case s == SStr:
		return strLit("")
	case s == SF64:
		return app("f64.zero", SF64)
	case s == SF32:
		return app("f32.zero", SF32)
	case s == SIfc:
		return app("ifc.nil", SIfc)
	case s == SSlc:
		return mkDT(SSlc, tZero, tZero, tZero, tZero)
	case s.K != nil:
		a := under(t).(*types.Array)
		return constArr(s, zeroTerm(a.Elem()))
	case s.DT != nil:
		var args []*Term
		st := under(t).(*types.Struct)
		for i := range s.DT.Fields {
			args = append(args, zeroTerm(st.Field(i).Type()))
		}
		return mkDT(s, args...)
	}
	panic("zero of " + s.Name)
}

// typeValid gives facts every value of the type satisfies in Go's runtime.
func typeValid(t types.Type, v, alloc *Term) []*Term {
	if isTime(t) {
		return nil
	}
	switch u := under(t).(type) {
	case *types.Basic:
		if u.Info()&types.IsInteger != 0 {
			return intRange(t, v)
		}
	case *types.Pointer, *types.Map, *types.Chan:
		return []*Term{le(tZero, v), le(v, alloc)}
	case *types.Slice:
		arr, off, ln, cp := dsel(v, 0), dsel(v, 1), dsel(v, 2), dsel(v, 3)
		return []*Term{le(tZero, arr), le(arr, alloc), le(tZero, off), le(tZero, ln), le(ln, cp),
			implies(eq(arr, tZero), and(eq(cp, tZero), eq(off, tZero)))}
	case *types.Struct:
		var out []*Term
		for i := 0; i < u.NumFields(); i++ {
			out = append(out, typeValid(u.Field(i).Type(), dsel(v, i), alloc)...)
		}
		return out
	}
	return nil
}

func intRange(t types.Type, v *Term) []*Term {
	bits := intBits(t)
	if isUnsigned(t) {
		if bits < 64 {
			return []*Term{le(tZero, v), le(v, intT(int64(1)<<bits-1))}
		}
		return []*Term{le(tZero, v), le(v, pow2m1(64))}
	}
	if bits < 64 {
		return []*Term{le(intT(-(int64(1) << (bits - 1))), v), le(v, intT(int64(1)<<(bits-1)-1))}
	}
	return nil
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

type unsupported struct{ msg string }

func (u unsupported) Error() string { return u.msg }
func unsupp(f string, a ...any) unsupported {
	return unsupported{fmt.Sprintf(f, a...)}
}
