package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/clipperhouse/uax29/v2"

// Program is /repo's current source, type-checked and lowered to SSA, with
// one in-memory file added to each package under contract so that the generic
// functions exist for every argument type that is checked.
type Program struct {
	Prog  *ssa.Program
	Pkgs  map[string]*ssa.Package // by path relative to the module
	Funcs map[*ssa.Function]bool

	mu      sync.Mutex
	globals map[*ssa.Global]*globalInfo

	tmu    sync.Mutex
	tables map[*ssa.Global][]uint64

	Dir   string
	stdMu sync.Mutex
	std   map[string]*Program // library packages executed from source
}

var instantiations = map[string]string{
	"graphemes": `package graphemes
type verifStr string
type verifBytes []byte
func verifInstantiate() {
	var a Iterator[verifStr]; a.Next(); a.First()
	var b Iterator[verifBytes]; b.Next(); b.First()
	var c Iterator[string]; c.Next(); c.First(); c.Value(); c.Start(); c.End(); c.Reset(); c.SetText("")
	var d Iterator[[]byte]; d.Next(); d.First(); d.Value(); d.Start(); d.End(); d.Reset(); d.SetText(nil)
}
`,
	"words": `package words
type verifStr string
type verifBytes []byte
func verifUse[T ~string | ~[]byte]() {
	var z T
	var a Iterator[T]; a.Next(); a.First(); a.Value(); a.Start(); a.End(); a.Reset(); a.SetText(z)
	a.Joiners(&Joiners[T]{}); a.Split(nil)
}
func verifInstantiate() { verifUse[string](); verifUse[[]byte](); verifUse[verifStr](); verifUse[verifBytes]() }
`,
	"phrases": `package phrases
func verifInstantiate() {
	var c Iterator[string]; c.Next(); c.First(); c.Value(); c.Start(); c.End(); c.Reset(); c.SetText("")
	var d Iterator[[]byte]; d.Next(); d.First(); d.Value(); d.Start(); d.End(); d.Reset(); d.SetText(nil)
}
`,
	"sentences": `package sentences
func verifInstantiate() {
	var c Iterator[string]; c.Next(); c.First(); c.Value(); c.Start(); c.End(); c.Reset(); c.SetText("")
	var d Iterator[[]byte]; d.Next(); d.First(); d.Value(); d.Start(); d.End(); d.Reset(); d.SetText(nil)
}
`,
	"internal/iterators": `package iterators
type verifStr string
type verifBytes []byte
func verifUse[T ~string | ~[]byte]() {
	var z T
	a := New[T](nil, z); a.Next(); a.First(); a.Value(); a.Start(); a.End(); a.Reset(); a.SetText(z); a.Split(nil)
}
func verifInstantiate() { verifUse[string](); verifUse[[]byte](); verifUse[verifStr](); verifUse[verifBytes]() }
`,
}

func LoadProgram(repo string, allSyntax bool) (*Program, error) {
	overlay := map[string][]byte{}
	for p, src := range instantiations {
		overlay[filepath.Join(repo, p, "zz_verif_instances.go")] = []byte(src)
	}
	mode := packages.LoadSyntax
	if allSyntax {
		mode = packages.LoadAllSyntax
	}
	cfg := &packages.Config{Mode: mode, Dir: repo, Overlay: overlay,
		Env: append(os.Environ(), "GOFLAGS=-mod=mod -buildvcs=false", "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local", "GOWORK=off")}
	pk, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	for _, p := range pk {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("load: %s", strings.Join(errs, "; "))
	}
	var prog *ssa.Program
	var sp []*ssa.Package
	if allSyntax {
		prog, sp = ssautil.AllPackages(pk, ssa.InstantiateGenerics)
	} else {
		prog, sp = ssautil.Packages(pk, ssa.InstantiateGenerics)
	}
	prog.Build()
	P := &Program{Dir: repo, Prog: prog, Pkgs: map[string]*ssa.Package{}}
	for _, s := range sp {
		if s == nil {
			continue
		}
		rel := strings.TrimPrefix(strings.TrimPrefix(s.Pkg.Path(), modPath), "/")
		P.Pkgs[rel] = s
	}
	P.Funcs = ssautil.AllFunctions(prog)
	return P, nil
}

// InstArg returns the single type argument of f, for generic instances.
func typeArgs(f *ssa.Function) []types.Type { return f.TypeArgs() }

// FindFunc finds the instance of package function name for type argument
// named targ ("" for non-generic).
func (P *Program) FindFunc(pkg, name, targ string) *ssa.Function {
	var out []*ssa.Function
	for f := range P.Funcs {
		if f.Blocks == nil || f.Name() == "" {
			continue
		}
		n := f.Name()
		if i := strings.IndexByte(n, '['); i >= 0 {
			n = n[:i]
		}
		if n != name || f.Signature.Recv() != nil || f.Parent() != nil {
			continue
		}
		if relPkg(f) != pkg {
			continue
		}
		if !matchTarg(f, targ) {
			continue
		}
		out = append(out, f)
	}
	if len(out) == 0 {
		return nil
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out[0]
}

// FindMethod finds method name on *typ (instance with type argument targ).
func (P *Program) FindMethod(pkg, typ, name, targ string) *ssa.Function {
	for f := range P.Funcs {
		if f.Blocks == nil || f.Name() != name || f.Signature.Recv() == nil || f.Parent() != nil {
			continue
		}
		if f.Synthetic != "" && !strings.HasPrefix(f.Synthetic, "instance") {
			continue
		}
		if relPkg(f) != pkg {
			continue
		}
		t := f.Signature.Recv().Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		nm, ok := t.(*types.Named)
		if !ok || nm.Obj().Name() != typ {
			continue
		}
		if !matchTarg(f, targ) {
			continue
		}
		return f
	}
	return nil
}

func relPkg(f *ssa.Function) string {
	var p *types.Package
	if f.Pkg != nil {
		p = f.Pkg.Pkg
	} else if f.Origin() != nil && f.Origin().Pkg != nil {
		p = f.Origin().Pkg.Pkg
	} else if f.Object() != nil {
		p = f.Object().Pkg()
	}
	if p == nil {
		return "?"
	}
	return strings.TrimPrefix(strings.TrimPrefix(p.Path(), modPath), "/")
}

func matchTarg(f *ssa.Function, targ string) bool {
	ta := f.TypeArgs()
	if targ == "" {
		return len(ta) == 0
	}
	if len(ta) != 1 {
		return false
	}
	if _, ok := ta[0].(*types.TypeParam); ok {
		return false
	}
	return targName(ta[0]) == targ
}

func targName(t types.Type) string {
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name()
	}
	return t.String()
}

// Bits resolves property names to the package's constants (_Name).
func (P *Program) Bits(pkg string, names []string) (map[string]uint64, int, error) {
	sp := P.Pkgs[pkg]
	if sp == nil {
		return nil, 0, fmt.Errorf("package %s not found", pkg)
	}
	out := map[string]uint64{}
	w := 0
	for _, n := range names {
		c, ok := sp.Pkg.Scope().Lookup("_" + n).(*types.Const)
		if !ok {
			return nil, 0, fmt.Errorf("constant %s._%s not found", pkg, n)
		}
		v, ok := constant.Uint64Val(constant.ToInt(c.Val()))
		if !ok {
			return nil, 0, fmt.Errorf("constant %s._%s is not an integer", pkg, n)
		}
		out[n] = v
		b, ok := c.Type().Underlying().(*types.Basic)
		if !ok {
			return nil, 0, fmt.Errorf("constant %s._%s has type %s", pkg, n, c.Type())
		}
		w = basicWidth(b)
	}
	return out, w, nil
}

func basicWidth(b *types.Basic) int {
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32:
		return 32
	case types.Int64, types.Uint64, types.Int, types.Uint, types.Uintptr:
		return 64
	}
	return 0
}
