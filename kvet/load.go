package main

import (
	_ "embed"
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/kacheio/kache"
const specPath = modPath + "/zzspec"

func inModule(path string) bool {
	return path == modPath || strings.HasPrefix(path, modPath+"/")
}

// Program is the analysed program in SSA form.
type Program struct {
	repo   string
	prog   *ssa.Program
	pkgs   map[string]*ssa.Package
	pp     map[string]*packages.Package
	funcs  []*ssa.Function // functions of the module with a body
	ginit  map[*ssa.Package]*Eval
	gevals []*Eval
	gmut   map[*ssa.Global]bool // globals written outside init
	muts   map[*types.Var]bool  // fields written outside constructors
}

//go:embed spec/spec.go.txt
var specSrc []byte

func loadProgram(repo string) (*Program, error) {
	cfg := &packages.Config{
		Dir: repo,
		Env: append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local", "GOSUMDB=off", "CGO_ENABLED=0"),
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedTypes |
			packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedModule | packages.NeedExportFile,
	}
	cfg.ParseFile = parseNormal
	cfg.Overlay = map[string][]byte{repo + "/zzspec/spec.go": specSrc}
	pats := []string{"./...", "./zzspec"}
	ps, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	for _, p := range ps {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("%s: %v", p.PkgPath, e)
		}
	}
	prog, sp := ssautil.Packages(ps, ssa.InstantiateGenerics)
	prog.Build()
	P := &Program{repo: repo, prog: prog, pkgs: map[string]*ssa.Package{}, pp: map[string]*packages.Package{},
		ginit: map[*ssa.Package]*Eval{}, gmut: map[*ssa.Global]bool{}}
	for i, p := range sp {
		if p == nil {
			return nil, fmt.Errorf("no SSA for %s", ps[i].PkgPath)
		}
		P.pkgs[p.Pkg.Path()] = p
		P.pp[p.Pkg.Path()] = ps[i]
	}
	for fn := range ssautil.AllFunctions(prog) {
		if fn.Pkg == nil && fn.Origin() == nil && fn.Parent() == nil {
			continue
		}
		if len(fn.Blocks) > 0 && inModule(fnPkgPath(fn)) {
			P.funcs = append(P.funcs, fn)
		}
	}
	sort.Slice(P.funcs, func(i, j int) bool {
		a, b := P.funcs[i], P.funcs[j]
		if a.String() != b.String() {
			return a.String() < b.String()
		}
		return a.Pos() < b.Pos()
	})
	for _, fn := range P.funcs {
		isInit := fn.Synthetic == "package initializer" || strings.HasPrefix(fn.Name(), "init#")
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					switch in := in.(type) {
					case *ssa.UnOp: // load
						// Maps and slices reached through the global may be written, too.
						if !isInit && escapesToWrite(in) {
							P.gmut[g] = true
						}
					case *ssa.FieldAddr, *ssa.IndexAddr:
						if !isInit && addrWritten(in.(ssa.Value)) {
							P.gmut[g] = true
						}
					default:
						if !isInit {
							P.gmut[g] = true
						}
					}
				}
			}
		}
	}
	return P, nil
}

func addrWritten(v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.UnOp:
			if escapesToWrite(r) {
				return true
			}
		case *ssa.FieldAddr, *ssa.IndexAddr:
			if addrWritten(r.(ssa.Value)) {
				return true
			}
		case *ssa.DebugRef:
		default:
			return true
		}
	}
	return false
}

// escapesToWrite reports whether the loaded map or slice is modified directly.
func escapesToWrite(v ssa.Value) bool {
	switch v.Type().Underlying().(type) {
	case *types.Map, *types.Slice, *types.Pointer:
	default:
		return false
	}
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.MapUpdate:
			if r.Map == v {
				return true
			}
		case *ssa.IndexAddr:
			if addrWritten(r) {
				return true
			}
		case *ssa.FieldAddr:
			if addrWritten(r) {
				return true
			}
		case *ssa.Call:
			if b, ok := r.Call.Value.(*ssa.Builtin); ok && (b.Name() == "delete" || b.Name() == "copy" || b.Name() == "clear") {
				return true
			}
		}
	}
	return false
}

func fnPkgPath(fn *ssa.Function) string {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return f.Pkg.Pkg.Path()
		}
		if o := f.Origin(); o != nil && o.Pkg != nil {
			return o.Pkg.Pkg.Path()
		}
		if o := f.Object(); o != nil && o.Pkg() != nil {
			return o.Pkg().Path()
		}
	}
	return ""
}

// fnName is the qualified name of a function without type arguments.
func fnName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		return o.String()
	}
	if obj, ok := fn.Object().(*types.Func); ok {
		return obj.FullName()
	}
	return fn.String()
}

// Func finds a package-level function.
func (P *Program) Func(pkg, name string) *ssa.Function {
	p := P.pkgs[modPath+"/pkg/"+pkg]
	if strings.Contains(pkg, ":") {
		p = P.pkgs[modPath+"/"+strings.TrimPrefix(pkg, ":")]
	}
	if p == nil {
		panic(unresolved{"package " + pkg})
	}
	f := p.Func(name)
	if f == nil {
		panic(unresolved{"function " + pkg + "." + name})
	}
	return f
}

// Named finds a named type.
func (P *Program) Named(pkg, name string) *types.Named {
	p := P.pkgs[modPath+"/pkg/"+pkg]
	if p == nil {
		panic(unresolved{"package " + pkg})
	}
	m := p.Type(name)
	if m == nil {
		panic(unresolved{"type " + pkg + "." + name})
	}
	return m.Type().(*types.Named)
}

// Method finds the method of *T (or T).
func (P *Program) Method(pkg, typ, name string) *ssa.Function {
	n := P.Named(pkg, typ)
	for _, t := range []types.Type{types.NewPointer(n), n} {
		ms := P.prog.MethodSets.MethodSet(t)
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Name() == name {
				f := P.prog.MethodValue(ms.At(i))
				if f != nil {
					// Prefer the declared method over promotion wrappers.
					if d := P.prog.FuncValue(ms.At(i).Obj().(*types.Func)); d != nil && len(d.Blocks) > 0 && len(ms.At(i).Index()) == 1 {
						return d
					}
					return f
				}
			}
		}
	}
	panic(unresolved{"method " + pkg + "." + typ + "." + name})
}

// HasMethod is Method without failing.
func (P *Program) HasMethod(pkg, typ, name string) (f *ssa.Function) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(unresolved); !ok {
				panic(r)
			}
		}
	}()
	return P.Method(pkg, typ, name)
}

func (P *Program) Spec(name string) *ssa.Function {
	p := P.pkgs[specPath]
	if p == nil || p.Func(name) == nil {
		panic(unresolved{"specification " + name})
	}
	return p.Func(name)
}

type unresolved struct{ what string }

func (P *Program) pos(fn *ssa.Function, p interface{ IsValid() bool }) string { return "" }

// Type finds a named type, or nil.
func (P *Program) Type(pkg, name string) types.Type {
	p := P.pkgs[modPath+"/pkg/"+pkg]
	if p == nil {
		return nil
	}
	if t, ok := p.Members[name].(*ssa.Type); ok {
		return t.Type()
	}
	return nil
}
