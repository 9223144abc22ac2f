package main

// Frame (assigns) contracts over the whole module. For every function, a
// summary of what it may write, in terms of its parameters, is computed from
// its SSA and its callees' summaries (least fixed point); each exported
// function, and each function used as a value, then has the obligations
//
//	assigns nothing but the memory it allocated (and, for a method of an
//	Iterator or Scanner, that object's own fields)
//	calls nothing whose effects are not known, and does nothing whose
//	outcome is not a function of its arguments
//
// A function value that is called is taken to meet the first obligation;
// every function of the module that is used as a value is checked for it.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// region is memory a pointer may refer to.
type region struct {
	kind  byte // 'p' parameter or free variable, 'g' package variable, 'a' allocated here
	idx   int
	g     *ssa.Global
	a     ssa.Value
	depth int // 0: the object itself, 1: anything reachable from it
}

type rset map[region]bool

func (s rset) add(t rset) bool {
	ch := false
	for r := range t {
		if !s[r] {
			s[r] = true
			ch = true
		}
	}
	return ch
}

type wkey struct {
	r   region
	own bool // the object's own method (bufio.Scanner)
}

type effSummary struct {
	writes map[wkey]string // 'p' and 'g' regions, and where
	bad    map[string]bool
	rets   rset // 'p', 'g', and 'a' with a nil value for memory allocated in the call
}

func newSummary() *effSummary {
	return &effSummary{writes: map[wkey]string{}, bad: map[string]bool{}, rets: rset{}}
}

type effects struct {
	P   *Program
	sum map[*ssa.Function]*effSummary
}

func inModule(f *ssa.Function) bool {
	p := relPkg(f)
	if p == "?" {
		return f.Blocks != nil
	}
	var path string
	if f.Pkg != nil {
		path = f.Pkg.Pkg.Path()
	} else if f.Origin() != nil && f.Origin().Pkg != nil {
		path = f.Origin().Pkg.Pkg.Path()
	} else if f.Object() != nil && f.Object().Pkg() != nil {
		path = f.Object().Pkg().Path()
	}
	return path == modPath || strings.HasPrefix(path, modPath+"/")
}

func hasPtr(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsString != 0 || u.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasPtr(u.Field(i).Type()) {
				return true
			}
		}
		return false
	case *types.Array:
		return hasPtr(u.Elem())
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if hasPtr(u.At(i).Type()) {
				return true
			}
		}
		return false
	}
	return true
}

// effFn is the analysis of one function.
type effFn struct {
	e    *effects
	f    *ssa.Function
	vals map[ssa.Value]rset
	cont map[region]rset
	s    *effSummary
	ch   bool
}

func (a *effFn) of(v ssa.Value) rset {
	switch u := v.(type) {
	case *ssa.Const, *ssa.Function, *ssa.Builtin:
		return nil
	case *ssa.Global:
		return rset{{kind: 'g', g: u}: true}
	case *ssa.Parameter:
		for i, p := range a.f.Params {
			if p == u && hasPtr(u.Type()) {
				return rset{{kind: 'p', idx: i}: true}
			}
		}
		return nil
	case *ssa.FreeVar:
		for i, p := range a.f.FreeVars {
			if p == u && hasPtr(u.Type()) {
				return rset{{kind: 'p', idx: len(a.f.Params) + i}: true}
			}
		}
		return nil
	}
	if !hasPtr(v.Type()) {
		return nil
	}
	return a.vals[v]
}

func (a *effFn) set(v ssa.Value, s rset) {
	if len(s) == 0 || !hasPtr(v.Type()) {
		return
	}
	t := a.vals[v]
	if t == nil {
		t = rset{}
		a.vals[v] = t
	}
	if t.add(s) {
		a.ch = true
	}
}

func (a *effFn) store(r region, s rset) {
	if r.kind != 'a' || len(s) == 0 {
		return
	}
	t := a.cont[r]
	if t == nil {
		t = rset{}
		a.cont[r] = t
	}
	if t.add(s) {
		a.ch = true
	}
}

func (a *effFn) load(s rset) rset {
	out := rset{}
	for r := range s {
		if r.kind == 'a' {
			out.add(a.cont[r])
		} else {
			r.depth = 1
			out[r] = true
		}
	}
	return out
}

// reach is what can be reached from s, not counting s.
func (a *effFn) reach(s rset) rset {
	out := rset{}
	for {
		n := a.load(s)
		n.add(a.load(out))
		if !out.add(n) {
			return out
		}
	}
}

func union(ss ...rset) rset {
	out := rset{}
	for _, s := range ss {
		out.add(s)
	}
	return out
}

func (a *effFn) write(s rset, own bool, in ssa.Instruction, via string) {
	for r := range s {
		if r.kind == 'a' {
			continue
		}
		k := wkey{r, own}
		if _, ok := a.s.writes[k]; !ok {
			p := via
			if p == "" {
				p = posOf(in)
			}
			a.s.writes[k] = p
			a.ch = true
		}
	}
}

func (a *effFn) bad(in ssa.Instruction, f string, args ...any) {
	m := fmt.Sprintf(f, args...)
	if in != nil {
		m += " at " + posOf(in)
	}
	if !a.s.bad[m] {
		a.s.bad[m] = true
		a.ch = true
	}
}

func fresh(v ssa.Value) region { return region{kind: 'a', a: v} }

func (a *effFn) run() {
	for {
		a.ch = false
		for _, b := range a.f.Blocks {
			for _, in := range b.Instrs {
				a.instr(in)
			}
		}
		if !a.ch {
			return
		}
	}
}

func (a *effFn) instr(in ssa.Instruction) {
	switch u := in.(type) {
	case *ssa.Alloc:
		a.set(u, rset{fresh(u): true})
	case *ssa.MakeSlice:
		a.set(u, rset{fresh(u): true})
	case *ssa.MakeMap:
		a.set(u, rset{fresh(u): true})
	case *ssa.MakeChan:
		a.set(u, rset{fresh(u): true})
	case *ssa.MakeInterface:
		a.set(u, a.of(u.X))
	case *ssa.ChangeInterface:
		a.set(u, a.of(u.X))
	case *ssa.ChangeType:
		a.set(u, a.of(u.X))
	case *ssa.TypeAssert:
		a.set(u, a.of(u.X))
	case *ssa.Convert:
		if convCopies(u.X.Type(), u.Type()) {
			a.set(u, rset{fresh(u): true})
		} else {
			a.set(u, a.of(u.X))
		}
	case *ssa.MultiConvert:
		a.set(u, union(a.of(u.X), rset{fresh(u): true}))
	case *ssa.SliceToArrayPointer:
		a.set(u, a.of(u.X))
	case *ssa.FieldAddr:
		a.set(u, a.of(u.X))
	case *ssa.IndexAddr:
		a.set(u, a.of(u.X))
	case *ssa.Field:
		a.set(u, a.of(u.X))
	case *ssa.Index:
		a.set(u, a.of(u.X))
	case *ssa.Lookup:
		a.set(u, a.load(a.of(u.X)))
	case *ssa.Slice:
		a.set(u, a.of(u.X))
	case *ssa.Extract:
		a.set(u, a.of(u.Tuple))
	case *ssa.Phi:
		for _, e := range u.Edges {
			a.set(u, a.of(e))
		}
	case *ssa.UnOp:
		switch u.Op {
		case token.MUL:
			a.set(u, a.load(a.of(u.X)))
		case token.ARROW:
			a.bad(in, "channel receive")
			a.set(u, a.reach(a.of(u.X)))
		}
	case *ssa.BinOp:
		if u.Op == token.ADD && hasPtr(u.Type()) { // string concatenation
			a.set(u, rset{fresh(u): true})
		}
	case *ssa.Store:
		for r := range a.of(u.Addr) {
			a.store(r, a.of(u.Val))
		}
		a.write(a.of(u.Addr), false, in, "")
	case *ssa.MapUpdate:
		for r := range a.of(u.Map) {
			a.store(r, union(a.of(u.Key), a.of(u.Value)))
		}
		a.write(a.of(u.Map), false, in, "")
	case *ssa.Range:
		if _, ok := u.X.Type().Underlying().(*types.Map); ok {
			a.bad(in, "iteration over a map, in no fixed order,")
		}
		a.set(u, a.of(u.X))
	case *ssa.Next:
		a.set(u, a.load(a.of(u.Iter)))
	case *ssa.Send:
		a.bad(in, "channel send")
	case *ssa.Select:
		a.bad(in, "select")
	case *ssa.Go:
		a.bad(in, "goroutine started")
		a.call(in, &u.Call, nil)
	case *ssa.Defer:
		a.call(in, &u.Call, nil)
	case *ssa.Call:
		a.call(in, &u.Call, u)
	case *ssa.MakeClosure:
		var bs rset = rset{}
		f := u.Fn.(*ssa.Function)
		for _, b := range u.Bindings {
			bs.add(a.of(b))
		}
		a.set(u, rset{fresh(u): true})
		a.store(fresh(u), bs)
		// calling it counts here
		if s := a.e.sum[f]; s != nil {
			kept := a.e.onlyCalled(u, map[ssa.Value]bool{})
			for k, p := range s.writes {
				if k.r.kind == 'p' && k.r.idx >= len(f.Params) {
					t := a.of(u.Bindings[k.r.idx-len(f.Params)])
					if k.r.depth == 1 {
						t = a.reach(t)
					}
					a.write(t, k.own, in, p)
					if !kept {
						a.bad(in, "a function value that outlives the call changes the variables it captured (%s),", p)
					}
				}
			}
		}
	case *ssa.Return:
		for _, r := range u.Results {
			for g := range a.of(r) {
				if g.kind == 'a' {
					// memory allocated here, holding what it holds
					a.ret(region{kind: 'a'})
					for h := range a.reach(rset{g: true}) {
						if h.kind != 'a' {
							a.ret(h)
						}
					}
					continue
				}
				a.ret(g)
			}
		}
	}
}

func (a *effFn) ret(r region) {
	if !a.s.rets[r] {
		a.s.rets[r] = true
		a.ch = true
	}
}

func convCopies(from, to types.Type) bool {
	_, fs := from.Underlying().(*types.Slice)
	_, ts := to.Underlying().(*types.Slice)
	fb, _ := from.Underlying().(*types.Basic)
	tb, _ := to.Underlying().(*types.Basic)
	if fs && tb != nil && tb.Info()&types.IsString != 0 {
		return true
	}
	if ts && fb != nil && fb.Info()&types.IsString != 0 {
		return true
	}
	return fb != nil && tb != nil && tb.Info()&types.IsString != 0 && fb.Info()&types.IsInteger != 0
}

// onlyCalled: v is called and otherwise goes nowhere.
func (e *effects) onlyCalled(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	refs := v.Referrers()
	if refs == nil {
		return false
	}
	for _, r := range *refs {
		switch u := r.(type) {
		case *ssa.DebugRef:
		case *ssa.Phi, *ssa.ChangeType:
			if !e.onlyCalled(u.(ssa.Value), seen) {
				return false
			}
		case ssa.CallInstruction:
			if _, ok := u.(*ssa.Go); ok {
				return false
			}
			c := u.Common()
			for i, x := range c.Args {
				if x != v {
					continue
				}
				g := c.StaticCallee()
				if g == nil || g.Blocks == nil || i >= len(g.Params) || !e.onlyCalled(g.Params[i], seen) {
					return false
				}
			}
		case *ssa.Store:
			al, ok := u.Addr.(*ssa.Alloc)
			if u.Val != v || !ok {
				return false
			}
			for _, q := range *al.Referrers() {
				switch w := q.(type) {
				case *ssa.Store, *ssa.DebugRef:
				case *ssa.UnOp:
					if !e.onlyCalled(w, seen) {
						return false
					}
				default:
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}

func (a *effFn) call(in ssa.Instruction, c *ssa.CallCommon, res ssa.Value) {
	var args []rset
	for _, x := range c.Args {
		args = append(args, a.of(x))
	}
	all := rset{}
	for _, s := range args {
		all.add(s)
		all.add(a.reach(s))
	}
	give := func(s rset) {
		if res != nil {
			a.set(res, s)
		}
	}
	if c.IsInvoke() {
		all.add(a.of(c.Value))
		all.add(a.reach(a.of(c.Value)))
		give(all)
		if n := c.Method.Name(); !(n == "Error" || n == "String") {
			a.bad(in, "call of interface method %s", c.Method.FullName())
		}
		return
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			a.write(args[0], false, in, "")
			if res != nil {
				held := a.load(args[0])
				held.add(a.load(union(args[1:]...)))
				a.store(fresh(res), held)
				for r := range args[0] {
					a.store(r, held)
				}
				give(union(args[0], rset{fresh(res): true}))
			}
		case "copy":
			a.write(args[0], false, in, "")
			for r := range args[0] {
				a.store(r, a.load(args[1]))
			}
		case "clear", "delete":
			a.write(args[0], false, in, "")
		case "close":
			a.bad(in, "channel closed")
		case "print", "println":
			a.bad(in, "output")
		case "len", "cap", "panic", "recover", "min", "max", "real", "imag", "complex":
			give(all)
		default: // unsafe, wrapnilchk
			give(union(args...))
		}
		return
	}
	f := c.StaticCallee()
	if f == nil {
		all.add(a.of(c.Value))
		all.add(a.reach(a.of(c.Value)))
		give(all)
		if res != nil {
			give(rset{fresh(res): true})
			a.store(fresh(res), all)
		}
		return
	}
	if mc, ok := c.Value.(*ssa.MakeClosure); ok {
		for _, b := range mc.Bindings {
			args = append(args, a.of(b))
			all.add(a.of(b))
			all.add(a.reach(a.of(b)))
		}
	}
	if !inModule(f) {
		a.external(in, f, args, all, res)
		return
	}
	s := a.e.sum[f]
	if s == nil {
		if f.Blocks == nil {
			a.bad(in, "call of %s, which has no body,", f)
		}
		return
	}
	at := func(r region) rset {
		if r.kind == 'g' {
			return rset{r: true}
		}
		if r.idx >= len(args) {
			return nil
		}
		if r.depth == 1 {
			return a.reach(args[r.idx])
		}
		return args[r.idx]
	}
	for k, p := range s.writes {
		t := at(k.r)
		a.write(t, k.own, in, p)
		for r := range t {
			a.store(r, all)
		}
	}
	for m := range s.bad {
		a.bad(nil, "%s", m)
	}
	out := rset{}
	for r := range s.rets {
		if r.kind == 'a' {
			if res != nil {
				out[fresh(res)] = true
				held := rset{}
				for q := range s.rets {
					if q.kind != 'a' {
						held.add(at(q))
					}
				}
				a.store(fresh(res), held)
			}
			continue
		}
		out.add(at(r))
	}
	give(out)
}

// functions outside the module that read their arguments only
var purePkgs = map[string]bool{"unicode": true, "unicode/utf8": true, "unicode/utf16": true, "math": true, "math/bits": true,
	"strings": true, "bytes": true, "errors": true, "strconv": true}
var pureFuncs = map[string]bool{
	"slices.Contains": true, "slices.ContainsFunc": true, "slices.Index": true, "slices.IndexFunc": true, "slices.Equal": true,
	"slices.BinarySearch": true, "slices.BinarySearchFunc": true, "slices.Clone": true, "slices.Max": true, "slices.Min": true,
	"slices.IsSorted": true, "sort.Search": true, "sort.SearchInts": true, "fmt.Sprintf": true, "fmt.Sprint": true, "fmt.Errorf": true,
	"cmp.Compare": true, "cmp.Less": true,
}

func (a *effFn) external(in ssa.Instruction, f *ssa.Function, args []rset, all rset, res ssa.Value) {
	o := f
	if f.Origin() != nil {
		o = f.Origin()
	}
	path := "?"
	if o.Pkg != nil {
		path = o.Pkg.Pkg.Path()
	} else if o.Object() != nil && o.Object().Pkg() != nil {
		path = o.Object().Pkg().Path()
	}
	give := func(s rset) {
		if res != nil {
			a.set(res, s)
		}
	}
	made := func() {
		if res != nil {
			a.store(fresh(res), all)
			give(rset{fresh(res): true})
		}
	}
	if rc := o.Signature.Recv(); rc != nil {
		t := rc.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if t.String() == "bufio.Scanner" {
			a.write(args[0], true, in, "")
			if o.Name() == "Buffer" && len(args) > 1 {
				// Scan writes to it
				a.write(args[1], false, in, "the scanner writes to its buffer, "+posOf(in))
			}
			for r := range args[0] {
				a.store(r, all)
			}
			give(all)
			return
		}
		if n := o.Name(); n == "Error" || n == "String" {
			give(all)
			return
		}
		a.bad(in, "call of %s, whose effects are not known,", o)
		give(all)
		return
	}
	n := path + "." + o.Name()
	switch {
	case n == "bufio.NewScanner":
		made()
	case purePkgs[path] || pureFuncs[n]:
		give(all)
		made()
	case o.Name() == "init" && o.Synthetic == "package initializer":
	default:
		a.bad(in, "call of %s, whose effects are not known,", n)
		give(all)
	}
}

func (P *Program) effects() *effects {
	e := &effects{P: P, sum: map[*ssa.Function]*effSummary{}}
	var fns []*ssa.Function
	for f := range P.Funcs {
		if f.Blocks != nil && inModule(f) && !hasTypeParam(f) {
			fns = append(fns, f)
			e.sum[f] = newSummary()
		}
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
	for {
		changed := false
		for _, f := range fns {
			s := e.sum[f]
			n := len(s.writes) + len(s.bad) + len(s.rets)
			a := &effFn{e: e, f: f, vals: map[ssa.Value]rset{}, cont: map[region]rset{}, s: s}
			a.run()
			if len(s.writes)+len(s.bad)+len(s.rets) != n {
				changed = true
			}
		}
		if !changed {
			return e
		}
	}
}

func hasTypeParam(f *ssa.Function) bool {
	if f.TypeParams().Len() > 0 && len(f.TypeArgs()) == 0 {
		return true
	}
	for _, t := range f.TypeArgs() {
		if _, ok := t.(*types.TypeParam); ok {
			return true
		}
	}
	// a method of a generic type, not instantiated
	if r := f.Signature.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := t.(*types.Named); ok && n.TypeParams().Len() > 0 {
			for i := 0; i < n.TypeArgs().Len(); i++ {
				if _, ok := n.TypeArgs().At(i).(*types.TypeParam); ok {
					return true
				}
			}
			if n.TypeArgs().Len() == 0 {
				return true
			}
		}
	}
	if f.Parent() != nil {
		return hasTypeParam(f.Parent())
	}
	return false
}

var frameScope = map[string]bool{"graphemes": true, "words": true, "phrases": true, "sentences": true, "internal/iterators": true, "internal/iterators/filter": true}

// ownFields: the fields of the receiver are the method's to assign.
func ownFields(f *ssa.Function) bool {
	r := f.Signature.Recv()
	if r == nil {
		return false
	}
	p, ok := r.Type().(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := p.Elem().(*types.Named)
	return ok && (n.Obj().Name() == "Iterator" || n.Obj().Name() == "Scanner")
}

func (c *Ctx) unitFrame() []*FnResult {
	return c.unit("frame", func() []*FnResult {
		t0 := time.Now()
		e := c.P.effects()
		used := map[*ssa.Function]bool{}
		var fns []*ssa.Function
		for f := range e.sum {
			fns = append(fns, f)
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					var callee ssa.Value
					if ci, ok := in.(ssa.CallInstruction); ok && !ci.Common().IsInvoke() {
						callee = ci.Common().Value
					}
					for i, op := range in.Operands(nil) {
						g, ok := (*op).(*ssa.Function)
						if !ok || (i == 0 && callee == *op) {
							continue
						}
						if mc, ok := in.(*ssa.MakeClosure); ok && e.onlyCalled(mc, map[ssa.Value]bool{}) {
							continue // counted where it is made
						}
						used[g] = true
					}
				}
			}
		}
		sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
		var out []*FnResult
		for _, f := range fns {
			if !frameScope[relPkg(f)] || strings.HasPrefix(f.Name(), "verif") {
				continue
			}
			isInit := f.Name() == "init" || strings.HasPrefix(f.Name(), "init#")
			synth := f.Synthetic != "" && !strings.HasPrefix(f.Synthetic, "instance")
			root := used[f] || (!synth && f.Parent() == nil && token.IsExported(baseFuncName(f)))
			if !root && !isInit {
				continue
			}
			s := e.sum[f]
			var ws, bs []string
			for k, p := range s.writes {
				switch {
				case k.r.kind == 'g':
					if !isInit {
						ws = append(ws, "the package variable "+k.r.g.Name()+" ("+p+")")
					}
				case isInit:
				case k.r.kind == 'p' && k.r.idx == 0 && ownFields(f) && (k.own || k.r.depth == 0):
				case used[f] && k.r.idx >= len(f.Params):
					// a captured variable: counted where the closure is made
					if k.r.depth == 0 && !strings.Contains(f.Synthetic, "bound") {
						continue
					}
					fallthrough
				default:
					n := "captured memory"
					if k.r.idx < len(f.Params) {
						n = "memory of argument " + f.Params[k.r.idx].Name()
					}
					ws = append(ws, n+" ("+p+")")
				}
			}
			for m := range s.bad {
				bs = append(bs, m)
			}
			sort.Strings(ws)
			sort.Strings(bs)
			r := &FnResult{Fn: f.String(), Contract: "frame", Assumed: []string{
				"a function value that is called writes nothing of the caller's (checked for every function of the module that is used as a value)",
				"functions of unicode, unicode/utf8, strings, bytes, errors, strconv, math, bufio.NewScanner and the methods of bufio.Scanner write nothing but a Scanner's own fields"}}
			frame := "assigns nothing its caller can see"
			if ownFields(f) {
				frame = "assigns nothing its caller can see but its receiver's own fields"
			}
			if isInit {
				r.Obls = append(r.Obls, OblResult{Fn: r.Fn, Cat: "frame", Name: "initial values depend on nothing outside", OK: len(bs) == 0, By: "effects over go/ssa", Detail: strings.Join(bs, "; ")})
			} else {
				r.Obls = append(r.Obls,
					OblResult{Fn: r.Fn, Cat: "frame", Name: frame, OK: len(ws) == 0, By: "effects over go/ssa", Detail: strings.Join(ws, "; ")},
					OblResult{Fn: r.Fn, Cat: "frame", Name: "depends on its arguments alone", OK: len(bs) == 0, By: "effects over go/ssa", Detail: strings.Join(bs, "; ")})
			}
			out = append(out, r)
		}
		if len(out) > 0 {
			out[0].Time = time.Since(t0)
		}
		return out
	})
}

func baseFuncName(f *ssa.Function) string {
	n := f.Name()
	if i := strings.IndexByte(n, '['); i >= 0 {
		n = n[:i]
	}
	return n
}
