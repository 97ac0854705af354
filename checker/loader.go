package main

import (
	_ "embed"
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

//go:embed models/models.go.txt
var modelsSrc []byte

// Program is the type-checked repository.
type Program struct {
	dir    string
	fset   *token.FileSet
	pkgs   []*packages.Package
	ssa    *ssa.Program
	spkgs  map[string]*ssa.Package
	funcs  []*ssa.Function // all functions with bodies of the repository, closures and instances included
	models map[string]*ssa.Function
	impls  map[string][]types.Type

	mutFields map[string]bool // "type.field" changed outside construction
	mutMaps   map[string]bool // "type.field" whose map may be changed through the field
	frozenT   map[types.Type]bool
	finalErr  map[*ssa.Global]bool
	newErr    map[*ssa.Global]bool // initialised with an error of its own
	mutGlobal map[*ssa.Global]bool
	constGlob map[*ssa.Global]*ssa.Const // variables that are only ever given a constant
}

func repoDir() string {
	if d := os.Getenv("VF_REPO"); d != "" {
		return d
	}
	return "/repo"
}

// loadModule loads one module of the repository with the versions its go.mod
// selects, without writing to its directory.
func loadModule(dir string, withModels bool, patterns ...string) (*Program, error) {
	tmp, err := os.MkdirTemp("", "vfmod")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(tmp)
	for _, n := range []string{"go.mod", "go.sum"} {
		b, err := os.ReadFile(filepath.Join(dir, n))
		if err != nil {
			return nil, err
		}
		if err := os.WriteFile(filepath.Join(tmp, n), b, 0o644); err != nil {
			return nil, err
		}
	}
	env := append(os.Environ(), "GOFLAGS=-mod=mod", "GOWORK=off", "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local", "CGO_ENABLED=0")
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedModule | packages.NeedExportFile,
		Dir:        dir,
		Env:        env,
		BuildFlags: []string{"-modfile=" + filepath.Join(tmp, "go.mod")},
		Tests:      false,
	}
	if withModels {
		cfg.Overlay = map[string][]byte{filepath.Join(dir, "vfmodels", "models.go"): modelsSrc}
		patterns = append(patterns, "./vfmodels")
	}
	pkgs, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	var errs []string
	for _, p := range pkgs {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
		if p.Types == nil || p.Syntax == nil {
			errs = append(errs, p.PkgPath+": not loaded from source")
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("%s", strings.Join(errs, "; "))
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	p := &Program{dir: dir, fset: prog.Fset, pkgs: pkgs, ssa: prog, spkgs: map[string]*ssa.Package{}, models: map[string]*ssa.Function{},
		impls: map[string][]types.Type{}, mutFields: map[string]bool{}, mutMaps: map[string]bool{}, finalErr: map[*ssa.Global]bool{}, newErr: map[*ssa.Global]bool{}, mutGlobal: map[*ssa.Global]bool{}, constGlob: map[*ssa.Global]*ssa.Const{}}
	for i, sp := range spkgs {
		if sp == nil {
			return nil, fmt.Errorf("%s: no SSA", pkgs[i].PkgPath)
		}
		p.spkgs[pkgs[i].PkgPath] = sp
	}
	prog.Build()
	p.collect()
	return p, nil
}

func (p *Program) collect() {
	for fn := range ssautil.AllFunctions(p.ssa) {
		if fn.Blocks != nil {
			p.funcs = append(p.funcs, fn)
		}
	}
	sort.Slice(p.funcs, func(i, j int) bool {
		a, b := p.funcs[i], p.funcs[j]
		if a.String() != b.String() {
			return a.String() < b.String()
		}
		return a.Pos() < b.Pos()
	})
	for path, sp := range p.spkgs {
		if strings.HasSuffix(path, "/vfmodels") {
			for n, m := range sp.Members {
				if f, ok := m.(*ssa.Function); ok && f.Blocks != nil {
					p.models[n] = f
				}
			}
		}
	}
	written := map[*ssa.Global]int{}
	for _, fn := range p.funcs {
		isInit := fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#")
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					if g, ok := x.Addr.(*ssa.Global); ok {
						written[g]++
						if isInit && makesError(x.Val) {
							p.newErr[g] = true
						}
						if c, ok := x.Val.(*ssa.Const); ok && c.Value != nil && g.Name() != "init$guard" {
							p.constGlob[g] = c
						}
						if !isInit {
							p.mutGlobal[g] = true
						}
					}
				case *ssa.Field:
					if _, ok := x.Type().Underlying().(*types.Map); ok && !onlyRead(x) {
						p.mutMaps[typeKey(x.X.Type())+"."+structOf(x.X.Type()).Field(x.Field).Name()] = true
					}
				case *ssa.FieldAddr:
					if _, ok := derefType(x.Type()).Underlying().(*types.Map); ok {
						for _, r := range *x.Referrers() {
							if l, ok := r.(*ssa.UnOp); ok && !onlyRead(l) {
								p.mutMaps[fieldKey(x)] = true
							}
						}
					}
					if g, ok := x.X.(*ssa.Global); ok && !isInit {
						_ = g
					}
					if !isFreshLocal(x.X, 0) {
						p.fieldWrites(x, fieldKey(x))
					}
				case *ssa.MapUpdate:
				}
			}
		}
	}
	for g := range p.constGlob {
		if written[g] != 1 || p.mutGlobal[g] {
			delete(p.constGlob, g)
		}
	}
	for _, sp := range p.spkgs {
		for _, m := range sp.Members {
			if g, ok := m.(*ssa.Global); ok {
				if isErrorType(derefType(g.Type())) && written[g] == 1 && !p.mutGlobal[g] && p.newErr[g] {
					p.finalErr[g] = true
				}
			}
		}
	}
}

// makesError: the value is an error made here that wraps no other.
func makesError(v ssa.Value) bool {
	if mi, ok := v.(*ssa.MakeInterface); ok {
		v = mi.X
		switch derefType(v.Type()).Underlying().(type) {
		case *types.Struct:
			return !holdsError(v.Type())
		case *types.Basic:
			return true
		}
		return false
	}
	c, ok := v.(*ssa.Call)
	if !ok {
		return false
	}
	f := c.Call.StaticCallee()
	if f == nil {
		return false
	}
	switch f.String() {
	case "errors.New":
		return true
	case "fmt.Errorf":
		k, ok := c.Call.Args[0].(*ssa.Const)
		return ok && k.Value != nil && k.Value.Kind() == constant.String && !strings.Contains(constant.StringVal(k.Value), "%w")
	}
	return false
}

// holdsError: a struct may hold another error.
func holdsError(t types.Type) bool {
	s := structOf(t)
	for i := 0; s != nil && i < s.NumFields(); i++ {
		if _, ok := s.Field(i).Type().Underlying().(*types.Interface); ok {
			return true
		}
	}
	return false
}

// onlyRead: the map is looked up and ranged over, nothing else.
func onlyRead(m ssa.Value) bool {
	for _, r := range *m.Referrers() {
		switch u := r.(type) {
		case *ssa.Lookup:
			if u.X != m {
				return false
			}
		case *ssa.Range, *ssa.DebugRef, *ssa.BinOp:
		case *ssa.Call:
			if b, ok := u.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" {
				return false
			}
		default:
			return false
		}
	}
	return true
}

func fieldKey(x *ssa.FieldAddr) string {
	t := derefType(x.X.Type())
	return typeKey(t) + "." + structOf(t).Field(x.Field).Name()
}

// fieldWrites records the parts of a field that are written on an object that
// is not under construction in the same function.
func (p *Program) fieldWrites(x *ssa.FieldAddr, path string) {
	for _, r := range *x.Referrers() {
		switch u := r.(type) {
		case *ssa.UnOp, *ssa.DebugRef, *ssa.IndexAddr:
		case *ssa.FieldAddr:
			p.fieldWrites(u, path+"."+structOf(derefType(u.X.Type())).Field(u.Field).Name())
		default:
			if isSyncType(derefType(x.Type())) {
				continue
			}
			p.mutFields[path] = true
		}
	}
}

func isFreshLocal(v ssa.Value, d int) bool {
	if d > 4 {
		return false
	}
	switch y := v.(type) {
	case *ssa.Alloc:
		return true
	case *ssa.FieldAddr:
		return isFreshLocal(y.X, d+1)
	case *ssa.Phi:
		for _, e := range y.Edges {
			if !isFreshLocal(e, d+1) {
				return false
			}
		}
		return true
	case *ssa.UnOp:
		// a local variable that only ever holds fresh objects
		if a, ok := y.X.(*ssa.Alloc); ok && y.Op == token.MUL {
			n := 0
			for _, r := range *a.Referrers() {
				switch s := r.(type) {
				case *ssa.Store:
					if s.Addr != a || !isFreshLocal(s.Val, d+1) {
						return false
					}
					n++
				case *ssa.UnOp, *ssa.DebugRef:
				case *ssa.MakeClosure:
				default:
					return false
				}
			}
			return n > 0
		}
	}
	return false
}

func isErrorType(t types.Type) bool {
	return t != nil && types.Identical(t, types.Universe.Lookup("error").Type())
}

func typeIs(t types.Type, name string) bool {
	return t != nil && typeKey(t) == name
}

func isContextType(t types.Type) bool { return typeIs(t, "context.Context") }

func isMutexType(t types.Type) bool {
	return typeIs(t, "sync.Mutex") || typeIs(t, "sync.RWMutex")
}

func isSyncType(t types.Type) bool {
	k := typeKey(t)
	return strings.HasPrefix(k, "sync.") || strings.HasPrefix(k, "sync/atomic.")
}

func hasMutexField(t types.Type) bool {
	st := structOf(t)
	if st == nil {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if isMutexType(derefType(st.Field(i).Type())) {
			return true
		}
	}
	return false
}

// ---- lookups by package and name ----

func (p *Program) pkg(suffix string) *ssa.Package {
	for path, sp := range p.spkgs {
		if path == suffix || strings.HasSuffix(path, "/"+suffix) {
			return sp
		}
	}
	return nil
}

const modPath = "github.com/c-kruse/vanflow"

func (p *Program) repoPkg(rel string) *ssa.Package {
	if rel == "" {
		return p.spkgs[modPath]
	}
	return p.spkgs[modPath+"/"+rel]
}

func (p *Program) typ(rel, name string) types.Type {
	sp := p.repoPkg(rel)
	if sp == nil {
		return nil
	}
	o := sp.Pkg.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	return o.Type()
}

func (p *Program) fn(rel, name string) *ssa.Function {
	sp := p.repoPkg(rel)
	if sp == nil {
		return nil
	}
	return sp.Func(name)
}

// method finds a method of T or *T.
func (p *Program) method(t types.Type, name string) *ssa.Function {
	if t == nil {
		return nil
	}
	for _, x := range []types.Type{t, types.NewPointer(t)} {
		ms := types.NewMethodSet(x)
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Name() == name {
				if f := p.ssa.MethodValue(ms.At(i)); f != nil {
					return f
				}
			}
		}
	}
	return nil
}

// implementers lists the repository's concrete types (as T or *T) that
// implement the interface.
func (p *Program) implementers(it types.Type) []types.Type {
	i, ok := it.Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	k := typeKey(it)
	if r, ok := p.impls[k]; ok {
		return r
	}
	var out []types.Type
	var paths []string
	for path := range p.spkgs {
		paths = append(paths, path)
	}
	sort.Strings(paths)
	for _, path := range paths {
		sc := p.spkgs[path].Pkg.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			t := tn.Type()
			if nt, ok := t.(*types.Named); ok && nt.TypeParams().Len() > 0 {
				continue
			}
			if _, ok := t.Underlying().(*types.Interface); ok {
				continue
			}
			if types.Implements(t, i) {
				out = append(out, t)
			} else if types.Implements(types.NewPointer(t), i) {
				out = append(out, types.NewPointer(t))
			}
		}
	}
	p.impls[k] = out
	return out
}

func (p *Program) pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "-"
	}
	q := p.fset.Position(pos)
	f := q.Filename
	if r, err := filepath.Rel(repoDir(), f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

func instrPos(in ssa.Instruction) token.Pos {
	if in == nil {
		return token.NoPos
	}
	if p := in.Pos(); p.IsValid() {
		return p
	}
	if v, ok := in.(ssa.Value); ok {
		if rs := v.Referrers(); rs != nil {
			for _, r := range *rs {
				if r.Pos().IsValid() {
					return r.Pos()
				}
			}
		}
	}
	// nearest instruction of the block
	if b := in.Block(); b != nil {
		var last token.Pos
		for _, x := range b.Instrs {
			if x.Pos().IsValid() {
				last = x.Pos()
			}
			if x == in && last.IsValid() {
				return last
			}
		}
		if last.IsValid() {
			return last
		}
	}
	if in.Parent() != nil {
		return in.Parent().Pos()
	}
	return token.NoPos
}

var _ = ast.Inspect
