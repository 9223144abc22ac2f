package main

// Iterators: methods are verified against the abstract state (text, options,
// Start(), End()). The fields of the iterator are known only through its
// constructor and its accessors; a class invariant over the fields is
// inferred from templates and re-established by every method.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// objKind is one way to make an iterator.
type objKind struct {
	pkg, targ string
	theory    string
	mode      string // plain, joiners, split (custom function), new (generic iterator)
	ansi      bool   // ANSI options arbitrary rather than off
}

func (k objKind) String() string {
	s := k.pkg + ".Iterator[" + k.targ + "]"
	switch k.mode {
	case "joiners":
		s += " with joiners"
	case "split":
		s += " with a custom split function"
	}
	if k.ansi {
		s += " with any ANSI options"
	}
	return s
}

func (k objKind) unknown() bool { return k.mode == "split" || k.mode == "new" }

type machine struct {
	c        *Ctx
	k        objKind
	mu       sync.Mutex
	dropped  map[string]bool
	changing map[string]bool
	again    bool
}

// obj is an iterator in an arbitrary reachable state.
type objState struct {
	m      *machine
	x      *Exec
	obj    *Obj
	ptr    VPtr
	st     *State
	s, e   *Term // Start(), End()
	bools  map[string]*Term
	split  VFunc
	leaves []leafInfo
}

type leafInfo struct {
	path []int
	name string
	exp  bool
	v    Val
}

func fieldNames(t types.Type, path []int) (string, bool) {
	var ns []string
	exp := true
	for _, i := range path {
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			ns = append(ns, fmt.Sprint(i))
			if a, ok := t.Underlying().(*types.Array); ok {
				t = a.Elem()
			}
			continue
		}
		f := st.Field(i)
		ns = append(ns, f.Name())
		exp = exp && f.Exported()
		t = f.Type()
	}
	return strings.Join(ns, "."), exp
}

func (c *Ctx) method(k objKind, name string) *ssa.Function {
	f := c.P.FindMethod(k.pkg, "Iterator", name, k.targ)
	if f == nil {
		unsup("no method %s on %s.Iterator[%s]", name, k.pkg, k.targ)
	}
	return f
}

func (x *Exec) textData(isStr bool) VSlice {
	B := x.B
	d := VSlice{Base: textBase(x), Off: B.Int(0), Len: x.I.N, Nil: B.False}
	if !isStr {
		d.Nil = B.Var("dataNil", SBool)
		x.Ghost = append(x.Ghost, B.Imp(d.Nil, B.Eq(x.I.N, B.Int(0))))
	}
	return d
}

// unknownSplit is an arbitrary split function: what it reports for the rest
// of the text from an offset is arbitrary but fixed.
func (x *Exec) unknownSplit() VFunc { return VFunc{Unknown: "custom split", Nil: x.B.False} }

func (x *Exec) customResult(o *Term) (adv *Term, failed *Term) {
	return x.B.App("customAdvance", SInt, o), x.B.App("customError", SBool, o)
}

func (c *Ctx) setup(x *Exec, k objKind) (VPtr, *State) {
	B := x.B
	if x.I == nil {
		x.I = c.inst(x, k.theory)
		x.I.n = x.I.N
	}
	x.Ghost = append(x.Ghost, B.Le(B.Int(0), x.I.N), B.Le(x.I.N, B.Int(maxInt)))
	isStr := k.targ == "string" || strings.HasSuffix(k.targ, "Str")
	st := &State{env: newEnv(), mem: Mem{}}
	data := x.textData(isStr)
	x.unknown = func(x *Exec, st *State, f VFunc, args []Val) Val {
		s, ok := args[0].(VSlice)
		eof, ok2 := args[1].(VScalar)
		if f.Unknown != "custom split" || !ok || !ok2 {
			unsup("call of %s", f.Unknown)
		}
		if s.Base == nil || s.Base.Kind != "text" {
			unsup("the custom split function is given other data")
		}
		x.oblige(st, "drive", "the split function is given all the remaining text", B.And(B.Eq(B.Add(s.Off, s.Len), x.I.N), B.Le(B.Int(0), s.Off), B.Lt(B.Int(0), s.Len)))
		x.oblige(st, "drive", "the split function is told the text ends there", eof.T)
		a, e := x.customResult(s.Off)
		tok := VSlice{Base: textBase(x), Off: x.fresh("tokoff", SInt), Len: x.fresh("toklen", SInt), Nil: x.fresh("toknil", SBool), Copy: true}
		x.assume(st, x.inRange(a))
		return VTuple{[]Val{VScalar{a}, tok, VIface{Nil: B.Not(e)}}}
	}
	var v Val
	var out *State
	switch {
	case k.mode == "new":
		f := c.P.FindFunc(k.pkg, "New", k.targ)
		if f == nil {
			unsup("no constructor")
		}
		v, out = x.call(f, nil, []Val{x.unknownSplit(), data}, st)
	case k.targ == "string" || k.targ == "[]byte":
		n := "FromString"
		if !isStr {
			n = "FromBytes"
		}
		f := c.P.FindFunc(k.pkg, n, "")
		if f == nil {
			unsup("no constructor %s.%s", k.pkg, n)
		}
		v, out = x.call(f, nil, []Val{data}, st)
	default: // a zero value of the generic type, for named data types
		f := c.method(k, "SetText")
		t := f.Signature.Recv().Type().(*types.Pointer).Elem()
		o := &Obj{Name: "iterator", T: t}
		st.mem[o] = x.zero(t)
		p := VPtr{Obj: o, Nil: B.False}
		_, out = x.call(f, nil, []Val{p, data}, st)
		v = p
	}
	if out == nil {
		unsup("the constructor does not return")
	}
	p, ok := v.(VPtr)
	if !ok || p.Obj == nil || len(p.Path) != 0 {
		unsup("the constructor does not return a new iterator")
	}
	x.oblige(out, "safety", "the constructor returns an iterator", B.Not(p.Nil))
	switch k.mode {
	case "split":
		_, out = x.call(c.method(k, "Split"), nil, []Val{p, x.unknownSplit()}, out)
	case "joiners":
		j := c.joinersObj(x, c.method(k, "Joiners").Signature.Params().At(0).Type(), out)
		_, out = x.call(c.method(k, "Joiners"), nil, []Val{p, j}, out)
	}
	if out == nil {
		unsup("configuration does not return")
	}
	return p, out
}

// joinersObj is a caller's joiner set: nil, or with arbitrary Middle and
// Leading runes.
func (c *Ctx) joinersObj(x *Exec, t types.Type, st *State) VPtr {
	B := x.B
	c.setJoiners(x)
	pt, ok := t.Underlying().(*types.Pointer)
	if !ok {
		unsup("joiners are not given by pointer")
	}
	stt, ok := pt.Elem().Underlying().(*types.Struct)
	if !ok {
		unsup("joiners are not a struct")
	}
	o := &Obj{Name: "joiners", T: pt.Elem(), Caller: true}
	v := x.zero(pt.Elem())
	found := 0
	for i := 0; i < stt.NumFields(); i++ {
		switch n := stt.Field(i).Name(); n {
		case "Middle", "Leading":
			v = setPath(v, []int{i}, c.runeSlice(x, n))
			found++
		}
	}
	if found != 2 {
		unsup("joiners have no Middle and Leading")
	}
	nl := B.Var("joinersNil", SBool)
	x.Ghost = append(x.Ghost, B.Imp(nl, B.And(B.Eq(x.runeSet("Middle").len, B.Int(0)), B.Eq(x.runeSet("Leading").len, B.Int(0)))))
	// Leading runes that are line breaks are outside the contract
	I := x.I
	x.Ghost = append(x.Ghost, B.Imp(x.runeSet("Leading").contains(x, I.Rune(I.start)), B.Not(B.Is(I.P(I.start), B.BV(I.Mask("NEWL"), I.pw)))))
	m := Mem{}
	for k, w := range st.mem {
		m[k] = w
	}
	m[o] = v
	st.mem = m
	return VPtr{Obj: o, Nil: nl}
}

// abstract evaluates an accessor without side effects on the state.
func (os *objState) observe(st *State, name string) Val {
	x := os.x
	v, out := x.call(os.m.c.method(os.m.k, name), nil, []Val{os.ptr}, st)
	if out == nil {
		unsup("%s does not return", name)
	}
	if !eqVal(out.mem[os.obj], st.mem[os.obj]) {
		x.oblige(out, "state", name+" leaves the iterator as it was", x.B.False)
	}
	return v
}

func (os *objState) leavesOf(st *State) []leafInfo {
	var out []leafInfo
	leaves(st.mem[os.obj], nil, func(p []int, v Val) {
		n, exp := fieldNames(os.obj.T, p)
		out = append(out, leafInfo{append([]int(nil), p...), n, exp, v})
	})
	return out
}

// candidates of the class invariant in a state
func (os *objState) classCands(st *State) []cand {
	x, B := os.x, os.x.B
	N := x.I.N
	type iv struct {
		n string
		t *Term
	}
	var ints []iv
	for _, l := range os.leavesOf(st) {
		switch v := l.v.(type) {
		case VScalar:
			if v.T.S == SInt {
				ints = append(ints, iv{l.name, v.T})
			}
		case VSlice:
			if os.m.changing[l.name] {
				ints = append(ints, iv{l.name + ".off", v.Off}, iv{l.name + ".len", v.Len}, iv{l.name + ".end", B.Add(v.Off, v.Len)})
			}
		}
	}
	ints = append(ints, iv{"len(text)", N})
	var out []cand
	add := func(n string, t *Term) {
		if t != B.True && !os.m.dropped[n] {
			out = append(out, cand{n, t})
		}
	}
	for i, a := range ints {
		add("0 <= "+a.n, B.Le(B.Int(0), a.t))
		for j, b := range ints {
			if i != j {
				add(a.n+" <= "+b.n, B.Le(a.t, b.t))
			}
		}
	}
	return out
}

func (os *objState) mandatory(st *State) (s, e, inv *Term) {
	B := os.x.B
	s = os.observe(st, "Start").(VScalar).T
	e = os.observe(st, "End").(VScalar).T
	return s, e, B.And(B.Le(B.Int(0), s), B.Le(s, e), B.Le(e, os.x.I.N))
}

// initial is the state right after construction.
func (m *machine) initial(x *Exec) *objState {
	p, st := m.c.setup(x, m.k)
	os := &objState{m: m, x: x, obj: p.Obj, ptr: VPtr{Obj: p.Obj, Nil: x.B.False}, st: st}
	return os
}

// arbitrary is any state satisfying the class invariant.
func (m *machine) arbitrary(x *Exec) *objState {
	os := m.initial(x)
	B := x.B
	os.bools = map[string]*Term{}
	st := os.st
	for _, l := range os.leavesOf(st) {
		switch v := l.v.(type) {
		case VScalar:
			switch {
			case v.T.S == SInt || m.changing[l.name]:
				x.store(st, os.obj, l.path, VScalar{x.fresh("field:"+l.name, v.T.S)})
			case v.T.S == SBool && l.exp && m.k.ansi:
				t := B.Var("option:"+l.name, SBool)
				os.bools[l.name] = t
				x.store(st, os.obj, l.path, VScalar{t})
			}
		case VSlice:
			if m.changing[l.name] {
				v.Off, v.Len = x.fresh("field:"+l.name+".off", SInt), x.fresh("field:"+l.name+".len", SInt)
				if v.Nil != B.False {
					v.Nil = x.fresh("field:"+l.name+".nil", SBool)
				}
				x.store(st, os.obj, l.path, v)
			}
		case VFunc:
			os.split = v
		}
	}
	for _, c := range os.classCands(st) {
		x.assume(st, c.t)
	}
	var inv *Term
	os.s, os.e, inv = os.mandatory(st)
	x.assume(st, inv)
	x.AllowWr[os.obj] = true
	// exported flags
	os.leaves = os.leavesOf(st)
	return os
}

// establish records that st satisfies the class invariant.
func (os *objState) establish(st *State, what string) (s, e *Term) {
	x := os.x
	cs := os.classCands(st)
	for len(cs) > 0 {
		ts := make([]*Term, len(cs))
		for i, c := range cs {
			ts[i] = c.t
		}
		dead := x.refute([]*State{st}, [][]*Term{ts})
		if len(dead) == 0 {
			break
		}
		os.m.mu.Lock()
		var keep []cand
		for i, c := range cs {
			if dead[i] {
				os.m.dropped[c.label] = true
				os.m.again = true
			} else {
				keep = append(keep, c)
			}
		}
		os.m.mu.Unlock()
		cs = keep
	}
	s, e, inv := os.mandatory(st)
	x.oblige(st, "safety", "0 <= Start() <= End() <= len(text) after "+what, inv)
	return
}

// kept checks that everything but positions is as it was; a field that is
// not is made part of the arbitrary state.
func (os *objState) kept(st *State, what string) {
	now := os.leavesOf(st)
	for i, l := range os.leaves {
		v, w := l.v, now[i].v
		if eqVal(v, w) {
			continue
		}
		switch p := v.(type) {
		case VScalar:
			if p.T.S == SInt {
				continue
			}
			if l.exp {
				os.x.oblige(st, "state", what+" keeps the option "+l.name, os.x.B.Eq(p.T, w.(VScalar).T))
				continue
			}
			os.grow(l.name)
		case VSlice:
			q, ok := w.(VSlice)
			if !ok || q.Base != p.Base && q.Base != nil && p.Base != nil {
				unsup("%s changes field %s", what, l.name)
			}
			os.grow(l.name)
		default:
			unsup("%s changes field %s", what, l.name)
		}
	}
}

func (os *objState) grow(n string) {
	os.m.mu.Lock()
	if !os.m.changing[n] {
		os.m.changing[n] = true
		os.m.again = true
	}
	os.m.mu.Unlock()
}

// restart is a call of the split function at an offset other than the start.
type restart struct {
	pc  *PC
	off *Term
}

// splitContract is what a caller may assume of a verified split function.
func (c *Ctx) splitContract(x *Exec, theory string) func(x *Exec, st *State, args []Val) Val {
	return func(x *Exec, st *State, args []Val) Val {
		B, I := x.B, x.I
		s, ok := args[0].(VSlice)
		eof, ok2 := args[1].(VScalar)
		if !ok || !ok2 || s.Base == nil || s.Base.Kind != "text" {
			unsup("split function called on other data")
		}
		x.oblige(st, "drive", "the split function is given all the remaining text", B.And(B.Eq(B.Add(s.Off, s.Len), I.N), B.Le(B.Int(0), s.Off), B.Le(B.Int(0), s.Len)))
		x.oblige(st, "drive", "the split function is told the text ends there", eof.T)
		x.Assumed["contract of "+theory+" split function (discharged for its body)"] = true
		r := x.fresh("advance", SInt)
		end := B.Add(s.Off, r)
		some := B.Lt(B.Int(0), s.Len)
		x.assume(st, B.Ite(some, B.And(B.Lt(B.Int(0), r), B.Le(r, s.Len)), B.Eq(r, B.Int(0))))
		F := I
		if s.Off != I.start && !x.valid(st.pc, B.Eq(s.Off, I.start)) {
			// the same text seen from a later start: family marked '
			if x.dry == 0 && I.prime != nil {
				// the other calls must be on other paths, or for the same place
				if len(x.restarts) == 0 {
					unsup("split function called in a loop")
				}
				for _, u := range x.restarts {
					pc := st.pc
					for _, t := range u.pc.list() {
						pc = pc.push(B, t)
					}
					if !x.valid(pc, B.Eq(u.off, s.Off)) {
						unsup("split function called at more than one place")
					}
				}
			}
			if x.dry == 0 {
				x.restarts = append(x.restarts, restart{st.pc, s.Off})
			}
			t := B.Var("restart", SInt)
			x.assume(st, B.Eq(t, s.Off))
			if I.prime == nil {
				I.prime = I.with(t, "'")
				I.prime.prime = nil
			}
			F = I.prime
			x.Assumed["restart lemma of "+theory+" (discharged)"] = true
			t1 := I.Nx(t)
			x.assume(st, B.Imp(B.And(some, I.G(t1), B.Or(B.Eq(t1, I.N), I.Rel(t1)), B.Le(I.start, t)),
				B.Imp(B.Le(t1, end), B.And(I.G(end), B.Imp(I.AJ(t1), B.Eq(I.AJ(end), F.AJ(end))),
					B.Imp(B.Not(B.Eq(end, I.N)), B.Eq(I.Join(end), F.Join(end)))))))
			x.assume(st, B.Imp(some, B.Le(t1, end)))
		}
		x.assume(st, B.Imp(some, B.And(F.G(end), F.AJ(end), B.Or(B.Eq(end, I.N), B.Not(F.Join(end))))))
		tok := VSlice{Base: s.Base, Off: s.Off, Len: r, Nil: B.False, Copy: s.Copy}
		return VTuple{[]Val{VScalar{r}, tok, VIface{Nil: B.True}}}
	}
}

// run verifies every method of an iterator kind.
func (c *Ctx) runMachine(k objKind) []*FnResult {
	m := &machine{c: c, k: k, dropped: map[string]bool{}, changing: map[string]bool{}}
	var out []*FnResult
	for round := 0; round < 12; round++ {
		m.again = false
		ops := m.ops()
		out = make([]*FnResult, len(ops))
		var wg sync.WaitGroup
		for i, o := range ops {
			wg.Add(1)
			go func(i int, o op) {
				defer wg.Done()
				out[i] = c.verify(fmt.Sprintf("(%s).%s", k, o.name), "iterator "+k.mode+" over "+k.theory+".spec", o.body)
			}(i, o)
		}
		wg.Wait()
		if !m.again {
			break
		}
	}
	if m.again {
		out = append(out, &FnResult{Fn: k.String(), Contract: "class invariant", Obls: []OblResult{{Fn: k.String(), Cat: "reach", Name: "the class invariant does not stabilise"}}})
	}
	return out
}

type op struct {
	name string
	body func(x *Exec)
}

// splitLeaf finds the function the iterator calls and gives it its contract.
func (os *objState) useSplit() {
	x, k, c := os.x, os.m.k, os.m.c
	if k.mode == "new" {
		return
	}
	// the package's split functions, should a method call one by name
	for f := range c.P.Funcs {
		if relPkg(f) != k.pkg || f.Blocks == nil || f.Parent() != nil || f.Signature.Recv() != nil || hasTypeParam(f) || !splitShape(f.Signature) {
			continue
		}
		f := f
		x.contract[f] = func(x *Exec, st *State, args []Val) Val {
			if r := c.splitFn(k.theory, VFunc{Fn: f}); r.Err != "" || len(r.bad()) > 0 {
				return nil
			}
			return c.splitContract(x, k.theory)(x, st, args)
		}
	}
	if k.unknown() {
		return
	}
	for _, l := range os.leavesOf(os.st) {
		if f, ok := l.v.(VFunc); ok && f.Fn != nil {
			x.contract[f.Fn] = os.m.c.splitContract(x, k.theory)
		}
	}
}

func splitShape(s *types.Signature) bool {
	p, r := s.Params(), s.Results()
	if p.Len() != 2 || r.Len() != 3 {
		return false
	}
	t := p.At(0).Type()
	return (isStringT(t) || isBytesT(t)) && isBoolT(p.At(1).Type()) && types.Identical(t, r.At(1).Type())
}

func (m *machine) ops() []op {
	c, k := m.c, m.k
	B := func(x *Exec) *TB { return x.B }
	var ops []op
	add := func(n string, f func(x *Exec)) { ops = append(ops, op{n, f}) }
	add("new", func(x *Exec) {
		os := m.initial(x)
		x.panicsAreBad()
		s, e := os.establish(os.st, "construction")
		b := B(x)
		x.oblige(os.st, "state", "starts at the beginning", b.And(b.Eq(s, b.Int(0)), b.Eq(e, b.Int(0))))
		v, ok := os.observe(os.st, "Value").(VSlice)
		x.oblige(os.st, "state", "no current token at first", b.And(b.Bool(ok), b.Eq(v.Len, b.Int(0))))
		x.panicsAreBad()
		for _, l := range os.leavesOf(os.st) {
			if v, ok := l.v.(VScalar); ok && v.T.S == SBool && l.exp {
				x.oblige(os.st, "state", "option "+l.name+" is off by default", b.Not(v.T))
			}
		}
	})
	add("Value", func(x *Exec) {
		os := m.arbitrary(x)
		b := B(x)
		v := os.observe(os.st, "Value").(VSlice)
		x.panicsAreBad()
		isText := v.Base != nil && v.Base.Kind == "text" && !v.Copy
		x.oblige(os.st, "view", "Value is a view of the text from Start to End", b.Or(b.And(b.Eq(v.Len, b.Int(0)), b.Eq(os.s, os.e)), b.And(b.Bool(isText), b.Eq(v.Off, os.s), b.Eq(v.Len, b.Sub(os.e, os.s)))))
	})
	add("Reset", func(x *Exec) {
		os := m.arbitrary(x)
		b := B(x)
		_, out := x.call(c.method(k, "Reset"), nil, []Val{os.ptr}, os.st)
		x.panicsAreBad()
		if out == nil {
			unsup("Reset does not return")
		}
		os.kept(out, "Reset")
		s, e := os.establish(out, "Reset")
		x.oblige(out, "state", "Reset returns to the beginning with no current token", b.And(b.Eq(s, b.Int(0)), b.Eq(e, b.Int(0))))
	})
	add("SetText", func(x *Exec) {
		os := m.arbitrary(x)
		b := B(x)
		// the iterator now looks at some other text
		for _, l := range os.leavesOf(os.st) {
			if v, ok := l.v.(VSlice); ok && v.Base != nil && v.Base.Kind == "text" {
				v.Base = &Base{Kind: "text", Name: "old text"}
				v.Len = b.Var("oldN", SInt)
				x.store(os.st, os.obj, l.path, v)
			}
		}
		for _, l := range os.leavesOf(os.st) {
			if v, ok := l.v.(VScalar); ok && v.T.S == SInt {
				x.store(os.st, os.obj, l.path, VScalar{x.fresh("old:"+l.name, SInt)})
			}
		}
		os.leaves = os.leavesOf(os.st)
		isStr := isStringT(c.method(k, "SetText").Signature.Params().At(0).Type())
		data := x.textData(isStr)
		_, out := x.call(c.method(k, "SetText"), nil, []Val{os.ptr, data}, os.st)
		x.panicsAreBad()
		if out == nil {
			unsup("SetText does not return")
		}
		for i, l := range os.leavesOf(out) {
			w := os.leaves[i].v
			switch v := l.v.(type) {
			case VSlice:
				if v.Base == nil || v.Base.Kind != "text" {
					if !eqVal(v, w) {
						unsup("SetText changes field %s", l.name)
					}
					continue
				}
				x.oblige(out, "state", "SetText makes the iterator view the new text ("+l.name+")", b.And(b.Bool(v.Base == data.Base && !v.Copy), b.Eq(v.Off, data.Off), b.Eq(v.Len, data.Len)))
			case VScalar:
				if v.T.S != SInt && !m.changing[l.name] {
					x.oblige(out, "state", "SetText keeps options ("+l.name+")", b.Eq(v.T, w.(VScalar).T))
				}
			default:
				if !eqVal(l.v, w) {
					x.oblige(out, "state", "SetText keeps the configuration ("+l.name+")", b.False)
				}
			}
		}
		s, e := os.establish(out, "SetText")
		x.oblige(out, "state", "SetText returns to the beginning with no current token", b.And(b.Eq(s, b.Int(0)), b.Eq(e, b.Int(0))))
	})
	add("Next", func(x *Exec) {
		os := m.arbitrary(x)
		b := B(x)
		I := x.I
		I.start = os.e
		if !os.e.IsConst() && os.e.Op != "var" {
			t := b.Var("start", SInt)
			x.assume(os.st, b.Eq(t, os.e))
			I.start = t
		}
		c.prepare(x, k)
		os.useSplit()
		e0 := I.start
		x.single = k.mode == "new"
		v, out := x.call(c.method(k, "Next"), nil, []Val{os.ptr}, os.st)
		if out == nil {
			unsup("Next does not return")
		}
		ret := v.(VScalar).T
		os.kept(out, "Next")
		s1, e1 := os.establish(out, "Next")
		x.cover(out, "Next returning true", ret)
		x.cover(out, "Next returning false", b.Not(ret))
		x.oblige(out, "safety", "Next returns false exactly at the end", b.Eq(ret, b.Lt(e0, I.N)))
		x.oblige(out, "state", "Next at the end changes nothing", b.Imp(b.Not(ret), b.And(b.Eq(s1, os.s), b.Eq(e1, e0))))
		x.oblige(out, "safety", "tokens are contiguous", b.Imp(ret, b.Eq(s1, e0)))
		x.oblige(out, "safety", "tokens are not empty", b.Imp(ret, b.Lt(e0, e1)))
		c.tokenPost(x, k, out, ret, e0, e1, os.bools)
	})
	add("First", func(x *Exec) {
		os := m.arbitrary(x)
		b := B(x)
		I := x.I
		I.start = b.Int(0)
		c.prepare(x, k)
		os.useSplit()
		v, out := x.call(c.method(k, "First"), nil, []Val{os.ptr}, os.st)
		if out == nil {
			unsup("First does not return")
		}
		if !eqVal(out.mem[os.obj], os.st.mem[os.obj]) {
			for i, l := range os.leavesOf(out) {
				if w := os.leaves[i].v; !eqVal(l.v, w) {
					p, ok1 := l.v.(VScalar)
					q, ok2 := w.(VScalar)
					if ok1 && ok2 {
						x.oblige(out, "state", "First leaves "+l.name+" as it was", b.Eq(p.T, q.T))
					} else {
						x.oblige(out, "state", "First leaves "+l.name+" as it was", b.False)
					}
				}
			}
		}
		f := v.(VSlice)
		isText := f.Base != nil && f.Base.Kind == "text" && !f.Copy
		ne := b.Lt(b.Int(0), I.N)
		x.oblige(out, "state", "First of empty text is empty", b.Imp(b.Not(ne), b.Eq(f.Len, b.Int(0))))
		x.oblige(out, "view", "First is a view of the start of the text", b.Imp(ne, b.And(b.Bool(isText), b.Eq(f.Off, b.Int(0)), b.Lt(b.Int(0), f.Len), b.Le(f.Len, I.N))))
		c.tokenPost(x, k, out, ne, b.Int(0), f.Len, os.bools)
	})
	if k.mode == "new" {
		add("Split", func(x *Exec) {
			os := m.arbitrary(x)
			old := os.leavesOf(os.st)
			nf := VFunc{Unknown: "other split", Nil: x.B.False}
			_, out := x.call(c.method(k, "Split"), nil, []Val{os.ptr, nf}, os.st)
			x.panicsAreBad()
			if out == nil {
				unsup("Split does not return")
			}
			n := 0
			for i, l := range os.leavesOf(out) {
				if f, ok := l.v.(VFunc); ok {
					if f.Unknown == "other split" {
						n++
					}
					continue
				}
				if !eqVal(l.v, old[i].v) {
					x.oblige(out, "state", "Split leaves "+l.name+" as it was", x.B.False)
				}
			}
			x.oblige(out, "state", "Split sets the split function", x.B.Bool(n == 1))
		})
	}
	return ops
}

// prepare installs the contracts used inside iterator methods.
func (c *Ctx) prepare(x *Exec, k objKind) {
	c.addLemmas(x, k.theory)
	if k.ansi {
		c.useAnsi(x, k)
	}
}

// tokenPost: the token [s, e) is what the contract says when cond holds.
func (c *Ctx) tokenPost(x *Exec, k objKind, out *State, cond, s, e *Term, opts map[string]*Term) {
	b, I := x.B, x.I
	if k.unknown() {
		adv, bad := x.customResult(s)
		rest := b.Sub(I.N, s)
		one := b.False
		if k.mode == "new" && x.single {
			one = b.Eq(rest, b.Int(1))
		}
		x.oblige(out, "drive", "the token is what the split function reports", b.Imp(b.And(cond, b.Not(one)), b.Eq(b.Sub(e, s), adv)))
		x.oblige(out, "drive", "a single remaining byte is a token", b.Imp(b.And(cond, one), b.Eq(e, I.N)))
		x.oblige(out, "drive", "panics unless the split function behaves", b.Imp(b.And(cond, b.Not(one)), b.And(b.Not(bad), b.Lt(b.Int(0), adv), b.Le(adv, rest))))
		for _, p := range x.Panics {
			st := &State{pc: p.PC}
			x.oblige(st, "drive", p.Msg+" only when the split function misbehaves", b.And(b.Lt(s, I.N), b.Not(one), b.Or(bad, b.Le(adv, b.Int(0)), b.Lt(rest, adv))))
		}
		x.Panics = nil
		return
	}
	x.panicsAreBad()
	type variant struct {
		name string
		when *Term
	}
	vs := []variant{{"", cond}}
	if k.ansi {
		A := I.other["ansi"]
		var hits []*Term
		vs = nil
		off := cond
		for _, v := range []struct{ opt, look, cat string }{{"AnsiEscapeSequences", "A7", "ansi7"}, {"AnsiEscapeSequences8Bit", "A8", "ansi8"}} {
			on := opts[v.opt]
			if on == nil {
				unsup("no option %s", v.opt)
			}
			end := A.Look(v.look, s)
			hit := b.And(on, b.Not(b.Eq(end, b.Int(-1))))
			x.cover(out, "a token that is a sequence ("+v.opt+")", b.And(cond, hit))
			x.oblige(out, v.cat, "a complete sequence is one token ("+v.opt+")", b.Imp(b.And(cond, hit), b.Eq(e, end)))
			// never inside a character of valid text
			if v.look == "A7" {
				x.oblige(out, "grid", "a 7-bit sequence ends on a character of valid text", b.Imp(b.And(cond, hit), c.nextToASCII(x, I, e)))
			} else {
				cb := I.Byte(s)
				x.oblige(out, "ansi8", "8-bit sequences start at a byte 0x80-0x9F", b.Imp(b.And(cond, hit), b.And(b.BvCmp("bvule", b.BV(0x80, 8), cb), b.BvCmp("bvule", cb, b.BV(0x9F, 8)))))
			}
			hits = append(hits, hit)
			off = b.And(off, b.Not(on))
			vs = append(vs, variant{" with " + v.opt + " on", b.And(cond, on)})
		}
		for i := range vs {
			vs[i].when = b.And(vs[i].when, b.Not(b.Or(hits...)))
		}
		vs = append(vs, variant{"", off})
	}
	for _, v := range vs {
		x.cover(out, "a token"+v.name, v.when)
		x.oblige(out, "grid", "the token ends on a character"+v.name, b.Imp(v.when, I.G(e)))
		x.oblige(out, "fast", "no boundary inside the token"+v.name, b.Imp(v.when, I.AJ(e)))
		x.oblige(out, "fast", "boundary at the end of the token"+v.name, b.Imp(v.when, b.Or(b.Eq(e, I.N), b.Not(I.Join(e)))))
	}
}

var _ = sort.Strings
