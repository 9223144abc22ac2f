package main

// Symbolic execution of go/ssa functions. int and int64 are mathematical
// integers with an overflow obligation at every operation; the other integer
// types are bit-vectors. Path conditions are merged where control flow joins,
// so the result is one verification condition per obligation, for all paths.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// PC is a path condition: a list of conjuncts sharing its prefix.
type PC struct {
	parent *PC
	t      *Term
	n      int
}

func (p *PC) push(b *TB, t *Term) *PC {
	if t == b.True {
		return p
	}
	n := 1
	if p != nil {
		n = p.n + 1
	}
	return &PC{p, t, n}
}

func (p *PC) list() []*Term {
	var out []*Term
	for q := p; q != nil; q = q.parent {
		out = append(out, q.t)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

func pcLen(p *PC) int {
	if p == nil {
		return 0
	}
	return p.n
}

func (p *PC) isFalse(b *TB) bool {
	for q := p; q != nil; q = q.parent {
		if q.t == b.False {
			return true
		}
	}
	return false
}

func commonPC(a, b *PC) *PC {
	for pcLen(a) > pcLen(b) {
		a = a.parent
	}
	for pcLen(b) > pcLen(a) {
		b = b.parent
	}
	for a != b {
		a, b = a.parent, b.parent
	}
	return a
}

// restPC lists the conjuncts of p after ancestor a.
func restPC(p, a *PC) []*Term {
	var out []*Term
	for q := p; q != a; q = q.parent {
		out = append(out, q.t)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

// mergePC joins path conditions; it also returns, per input, the condition
// relative to the common part.
func (x *Exec) mergePC(ps []*PC) (*PC, []*Term) {
	b := x.B
	anc := ps[0]
	for _, p := range ps[1:] {
		anc = commonPC(anc, p)
	}
	var rests [][]*Term
	conds := make([]*Term, len(ps))
	for i, p := range ps {
		r := restPC(p, anc)
		conds[i] = b.And(r...)
		rests = append(rests, r)
	}
	// merge complementary branches
	for ch := true; ch; {
		ch = false
	outer:
		for i := 0; i < len(rests); i++ {
			for j := i + 1; j < len(rests); j++ {
				a, c := rests[i], rests[j]
				if len(a) == 0 {
					rests = [][]*Term{{}}
					break outer
				}
				if len(a) != len(c) || len(a) == 0 {
					continue
				}
				same := true
				for k := 0; k < len(a)-1; k++ {
					if a[k] != c[k] {
						same = false
						break
					}
				}
				if same && (a[len(a)-1] == c[len(c)-1] || b.Not(a[len(a)-1]) == c[len(c)-1]) {
					if a[len(a)-1] != c[len(c)-1] {
						rests[i] = a[:len(a)-1]
					}
					rests = append(rests[:j:j], rests[j+1:]...)
					ch = true
					break outer
				}
			}
		}
	}
	var ors []*Term
	for _, r := range rests {
		ors = append(ors, b.And(r...))
	}
	return anc.push(b, b.Or(ors...)), conds
}

type Env struct {
	parents []*Env
	conds   []*Term
	own     map[ssa.Value]Val
}

func newEnv(parents ...*Env) *Env { return &Env{parents: parents, own: map[ssa.Value]Val{}} }

type Mem map[*Obj]Val

type State struct {
	pc  *PC
	env *Env
	mem Mem
}

func (s *State) fork(pc *PC) *State {
	return &State{pc: pc, env: newEnv(s.env), mem: s.mem}
}

func (x *Exec) store(s *State, o *Obj, path []int, v Val) {
	m := make(Mem, len(s.mem)+1)
	for k, w := range s.mem {
		m[k] = w
	}
	cur, ok := m[o]
	if !ok {
		unsup("store to unknown object %s", o.Name)
	}
	m[o] = setPath(cur, path, v)
	s.mem = m
}

type Obl struct {
	Fn   string
	Cat  string
	Name string
	PC   *PC
	Cond *Term
}

type Exec struct {
	Covers        []Obl
	B             *TB
	P             *Program
	S             *Solver
	I             *Inst // text theory, when the function reads text
	bases         map[string]*Base
	Obls          []Obl
	Panics        []panicRec
	Frame         []string // writes to caller-visible memory other than allowed ones
	dry           int
	nfresh        map[string]int
	restarts      []restart
	wide, wideUse bool
	stack         []*ssa.Function
	invs          map[*Term][]*Term // invariant variable -> current candidates
	// contracts used at call sites
	contract  map[*ssa.Function]func(x *Exec, st *State, args []Val) Val
	unknown   func(x *Exec, st *State, f VFunc, args []Val) Val
	touch     []*Term // offsets at which text was consulted
	reads     []*Term // indices at which rune sets were consulted
	runeVals  []*Term
	Loops     []loopReport
	Assumed   map[string]bool
	curFn     string
	loopMemo  map[loopKey]*loopMemo
	AllowWr   map[*Obj]bool
	MaxK      int
	Ghost     []*Term // extra facts
	runeSets  map[string]*runeSet
	initMem   Mem
	lens      []*Term
	iterPath  string
	hints     map[string][]string // invariants to start from, by loop
	single    bool                // a single remaining byte is returned without asking
	loopCands []func(c, entry *Term, nm string, add func(string, *Term))
}

type panicRec struct {
	PC  *PC
	Msg string
}

func NewExec(P *Program, S *Solver) *Exec {
	return &Exec{B: NewTB(), P: P, S: S, bases: map[string]*Base{}, nfresh: map[string]int{},
		invs: map[*Term][]*Term{}, contract: map[*ssa.Function]func(*Exec, *State, []Val) Val{},
		Assumed: map[string]bool{}, loopMemo: map[loopKey]*loopMemo{}, AllowWr: map[*Obj]bool{}, MaxK: 4,
		runeSets: map[string]*runeSet{}, initMem: Mem{}}
}

func (x *Exec) fresh(name string, s Sort) *Term {
	x.nfresh[name]++
	return x.B.Var(fmt.Sprintf("%s#%d", name, x.nfresh[name]), s)
}

func (x *Exec) oblige(st *State, cat, name string, cond *Term) {
	if x.dry > 0 {
		return
	}
	x.Obls = append(x.Obls, Obl{x.curFn, cat, name, st.pc, cond})
}

// cover asks that cond can hold when st is reached: contracts whose premises
// contradict each other would otherwise hold of anything.
func (x *Exec) cover(st *State, name string, cond *Term) {
	if x.dry > 0 {
		return
	}
	for i, o := range x.Covers {
		if o.Name == name && o.Fn == x.curFn {
			x.Covers[i].Cond = x.B.Or(o.Cond, x.B.And(x.B.And(st.pc.list()...), cond))
			return
		}
	}
	x.Covers = append(x.Covers, Obl{x.curFn, "cover", name, nil, x.B.And(x.B.And(st.pc.list()...), cond)})
}

func (x *Exec) assume(st *State, t *Term) { st.pc = st.pc.push(x.B, t) }

// --- frames and regions ---

type edge struct {
	from, to *ssa.BasicBlock
	st       *State
}

type frame struct {
	fn    *ssa.Function
	li    *loopInfo
	rets  []retState
	bind  []Val
	inner map[*ssa.BasicBlock]bool
}

type retState struct {
	st *State
	v  Val
}

type Loop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	parent *Loop
}

type loopInfo struct {
	rpo   []*ssa.BasicBlock
	loops map[*ssa.BasicBlock]*Loop // by header
	in    map[*ssa.BasicBlock]*Loop // innermost loop containing block
}

func analyseLoops(f *ssa.Function) *loopInfo {
	li := &loopInfo{loops: map[*ssa.BasicBlock]*Loop{}, in: map[*ssa.BasicBlock]*Loop{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	onstack := map[*ssa.BasicBlock]bool{}
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		onstack[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			} else if onstack[s] && !s.Dominates(b) {
				unsup("irreducible control flow in %s", f)
			}
		}
		onstack[b] = false
		post = append(post, b)
	}
	dfs(f.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		li.rpo = append(li.rpo, post[i])
	}
	for _, b := range li.rpo {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := li.loops[s]
				if l == nil {
					l = &Loop{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					li.loops[s] = l
				}
				var back func(c *ssa.BasicBlock)
				back = func(c *ssa.BasicBlock) {
					if l.blocks[c] {
						return
					}
					l.blocks[c] = true
					for _, p := range c.Preds {
						if seen[p] {
							back(p)
						}
					}
				}
				back(b)
			}
		}
	}
	for _, b := range li.rpo {
		var best *Loop
		for _, l := range li.loops {
			if l.blocks[b] && (best == nil || len(l.blocks) < len(best.blocks)) {
				best = l
			}
		}
		li.in[b] = best
	}
	for _, l := range li.loops {
		var best *Loop
		for _, m := range li.loops {
			if m != l && m.blocks[l.header] && (best == nil || len(m.blocks) < len(best.blocks)) {
				best = m
			}
		}
		l.parent = best
	}
	return li
}

// call executes fn on args from state st, returning the merged result. The
// result state is nil when fn never returns.
func (x *Exec) call(fn *ssa.Function, bind, args []Val, st *State) (Val, *State) {
	if fn.Blocks == nil {
		unsup("call of %s, which has no body here", fn)
	}
	if len(x.stack) > 24 {
		unsup("call depth")
	}
	for _, f := range x.stack {
		if f == fn {
			unsup("recursive call of %s", fn)
		}
	}
	if fn.Recover != nil {
		unsup("%s uses defer/recover", fn)
	}
	x.stack = append(x.stack, fn)
	defer func() { x.stack = x.stack[:len(x.stack)-1] }()
	fr := &frame{fn: fn, li: analyseLoops(fn), bind: bind}
	s := st.fork(st.pc)
	s.env = newEnv() // callee scope
	for i, p := range fn.Params {
		s.env.own[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		s.env.own[p] = bind[i]
	}
	_, exits := x.region(fr, nil, fn.Blocks[0], []edge{{nil, fn.Blocks[0], s}})
	if len(exits) > 0 {
		panic("function region has exits")
	}
	if len(fr.rets) == 0 {
		return nil, nil
	}
	var sts []*State
	for _, r := range fr.rets {
		sts = append(sts, r.st)
	}
	m, conds := x.mergeStates(sts)
	v := fr.rets[len(fr.rets)-1].v
	for i := len(fr.rets) - 2; i >= 0; i-- {
		v = x.ite(conds[i], fr.rets[i].v, v)
	}
	m.env = newEnv(st.env)
	return v, m
}

func (x *Exec) mergeStates(sts []*State) (*State, []*Term) {
	if len(sts) == 1 {
		return sts[0].fork(sts[0].pc), []*Term{x.B.True}
	}
	var ps []*PC
	for _, s := range sts {
		ps = append(ps, s.pc)
	}
	pc, conds := x.mergePC(ps)
	env := &Env{own: map[ssa.Value]Val{}, conds: conds}
	for _, s := range sts {
		env.parents = append(env.parents, s.env)
	}
	mem := Mem{}
	for o, v := range sts[len(sts)-1].mem {
		mem[o] = v
	}
	for i := len(sts) - 2; i >= 0; i-- {
		for o, v := range sts[i].mem {
			if w, ok := mem[o]; ok {
				if !eqVal(v, w) {
					mem[o] = x.ite(conds[i], v, w)
				}
			} else {
				mem[o] = v
			}
		}
	}
	return &State{pc: pc, env: env, mem: mem}, conds
}

func (x *Exec) lookupEnv(e *Env, v ssa.Value) (Val, bool) {
	if r, ok := e.own[v]; ok {
		return r, true
	}
	switch len(e.parents) {
	case 0:
		return nil, false
	case 1:
		return x.lookupEnv(e.parents[0], v)
	}
	var out Val
	found := false
	for i := len(e.parents) - 1; i >= 0; i-- {
		if r, ok := x.lookupEnv(e.parents[i], v); ok {
			if !found {
				out, found = r, true
			} else if !eqVal(out, r) {
				out = x.ite(e.conds[i], r, out)
			}
		}
	}
	if found {
		e.own[v] = out
	}
	return out, found
}

// region executes the blocks of loop l (or of the whole function when l is
// nil) once, from entry; back edges to l's header and edges leaving l are
// returned.
func (x *Exec) region(fr *frame, l *Loop, entry *ssa.BasicBlock, in []edge) (backs, exits []edge) {
	pend := map[*ssa.BasicBlock][]edge{entry: in}
	first := true
	for _, b := range fr.li.rpo {
		if l != nil && !l.blocks[b] {
			continue
		}
		es := pend[b]
		if len(es) == 0 {
			continue
		}
		lb := fr.li.in[b]
		if lb != l {
			// inside an inner loop; only its header is an entry
			il := fr.li.loops[b]
			if il == nil || il.parent != l {
				continue
			}
		}
		delete(pend, b)
		var outs []edge
		if il := fr.li.loops[b]; il != nil && il != l {
			outs = x.runLoop(fr, il, es)
		} else if il != nil && il == l && first {
			// header of the loop being iterated: its state is prepared
			first = false
			outs = x.execBlock(fr, b, es[0].st, false)
		} else {
			st := x.enter(b, es)
			outs = x.execBlock(fr, b, st, false)
		}
		for _, e := range outs {
			if e.st.pc.isFalse(x.B) {
				continue
			}
			switch {
			case l != nil && e.to == l.header:
				backs = append(backs, e)
			case l != nil && !l.blocks[e.to]:
				exits = append(exits, e)
			default:
				pend[e.to] = append(pend[e.to], e)
			}
		}
	}
	return
}

// enter merges the incoming edges of b and evaluates its phis.
func (x *Exec) enter(b *ssa.BasicBlock, es []edge) *State {
	var sts []*State
	for _, e := range es {
		sts = append(sts, e.st)
	}
	m, conds := x.mergeStates(sts)
	for _, ins := range b.Instrs {
		phi, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		var v Val
		for i := len(es) - 1; i >= 0; i-- {
			pv := x.phiEdge(phi, b, es[i])
			if v == nil {
				v = pv
			} else {
				v = x.ite(conds[i], pv, v)
			}
		}
		m.env.own[phi] = v
	}
	return m
}

func (x *Exec) phiEdge(phi *ssa.Phi, b *ssa.BasicBlock, e edge) Val {
	for i, p := range b.Preds {
		if p == e.from {
			return x.val(e.st, phi.Edges[i])
		}
	}
	panic("phi edge not found")
}

// --- values ---

func (x *Exec) val(st *State, v ssa.Value) Val {
	switch c := v.(type) {
	case *ssa.Const:
		return x.constVal(c)
	case *ssa.Function:
		return VFunc{Fn: c, Nil: x.B.False}
	case *ssa.Global:
		return VPtr{Obj: x.globalObj(c), Nil: x.B.False}
	case *ssa.Builtin:
		return VFunc{Unknown: "builtin:" + c.Name(), Nil: x.B.False}
	}
	r, ok := x.lookupEnv(st.env, v)
	if !ok {
		panic(fmt.Sprintf("value %s not found in %s", v.Name(), v.Parent()))
	}
	return r
}

func (x *Exec) constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return x.zero(t)
	}
	if s, _, ok := scalarSort(t); ok {
		switch s.K {
		case 'B':
			return VScalar{x.B.Bool(constant.BoolVal(c.Value))}
		case 'I':
			i, ok := constant.Int64Val(constant.ToInt(c.Value))
			if !ok {
				unsup("constant %s", c)
			}
			return VScalar{x.B.Int(i)}
		default:
			cv := constant.ToInt(c.Value)
			if u, ok := constant.Uint64Val(cv); ok {
				return VScalar{x.B.BV(u, s.W)}
			}
			i, ok := constant.Int64Val(cv)
			if !ok {
				unsup("constant %s", c)
			}
			return VScalar{x.B.BV(uint64(i), s.W)}
		}
	}
	if isStringT(t) {
		return x.strConst(constant.StringVal(c.Value))
	}
	if u, ok := t.Underlying().(*types.Slice); ok {
		_ = u
		s := x.strConst(constant.StringVal(c.Value)).(VSlice)
		s.Copy = true
		return s
	}
	unsup("constant of type %s", t)
	return nil
}

func (x *Exec) term(st *State, v ssa.Value) *Term {
	r := x.val(st, v)
	s, ok := r.(VScalar)
	if !ok {
		unsup("%s is not a scalar (%T)", v, r)
	}
	return s.T
}

func posOf(ins ssa.Instruction) string {
	p := ins.Parent().Prog.Fset.Position(ins.Pos())
	if !p.IsValid() {
		return ""
	}
	f := p.Filename
	if i := strings.LastIndexByte(f, '/'); i >= 0 {
		f = f[i+1:]
	}
	return fmt.Sprintf("%s:%d", f, p.Line)
}

const maxInt = int64(9223372036854775807)
const minInt = -maxInt - 1

func (x *Exec) inRange(t *Term) *Term {
	return x.B.And(x.B.Le(x.B.Int(minInt), t), x.B.Le(t, x.B.Int(maxInt)))
}

// execBlock runs the instructions of b (phis done) and returns its out edges.
func (x *Exec) execBlock(fr *frame, b *ssa.BasicBlock, st *State, _ bool) []edge {
	B := x.B
	for _, ins := range b.Instrs {
		switch in := ins.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.Jump:
			return []edge{{b, b.Succs[0], st}}
		case *ssa.If:
			c := x.term(st, in.Cond)
			var out []edge
			if c != B.False {
				out = append(out, edge{b, b.Succs[0], st.fork(st.pc.push(B, c))})
			}
			if c != B.True {
				out = append(out, edge{b, b.Succs[1], st.fork(st.pc.push(B, B.Not(c)))})
			}
			if len(out) == 2 && b.Succs[0] == b.Succs[1] {
				// both edges to the same block: phis cannot tell them apart
				return []edge{{b, b.Succs[0], st}}
			}
			return out
		case *ssa.Return:
			var v Val
			switch len(in.Results) {
			case 0:
				v = VTuple{}
			case 1:
				v = x.val(st, in.Results[0])
			default:
				var t VTuple
				for _, r := range in.Results {
					t.V = append(t.V, x.val(st, r))
				}
				v = t
			}
			fr.rets = append(fr.rets, retState{st, v})
			return nil
		case *ssa.Panic:
			msg := "panic at " + posOf(in)
			if x.dry == 0 {
				x.Panics = append(x.Panics, panicRec{st.pc, msg})
			}
			return nil
		case *ssa.Store:
			x.execStore(st, in)
		case *ssa.RunDefers:
		case *ssa.Defer, *ssa.Go, *ssa.Send, *ssa.MapUpdate, *ssa.Select:
			unsup("%s in %s", ins, fr.fn)
		case *ssa.Call:
			v, s2 := x.execCall(st, in)
			if s2 == nil {
				return nil
			}
			st = s2
			st.env.own[in] = v
		case ssa.Value:
			st.env.own[in] = x.eval(st, in)
		default:
			unsup("instruction %s", ins)
		}
	}
	panic("block without terminator")
}

func (x *Exec) execStore(st *State, in *ssa.Store) {
	a := x.val(st, in.Addr)
	v := x.val(st, in.Val)
	switch p := a.(type) {
	case VPtr:
		if p.Obj == nil {
			x.oblige(st, "safety", "nil dereference "+posOf(in), x.B.False)
			return
		}
		x.oblige(st, "safety", "nil dereference "+posOf(in), x.B.Not(p.Nil))
		if p.Obj.Global != nil {
			x.frameViolation(st, "write to package variable "+p.Obj.Name+" at "+posOf(in))
			return
		}
		if p.Obj.Caller && !x.AllowWr[p.Obj] {
			x.frameViolation(st, "write to caller's "+p.Obj.Name+" at "+posOf(in))
		}
		x.store(st, p.Obj, p.Path, v)
	case VElemPtr:
		if p.Arr != nil {
			if p.Arr.Obj != nil && p.Arr.Obj.Global == nil && !p.Arr.Obj.Caller && p.Idx.IsConst() {
				x.store(st, p.Arr.Obj, append(append([]int(nil), p.Arr.Path...), int(p.Idx.V)), v)
				return
			}
			unsup("store to array element at %s", posOf(in))
		}
		if bs := p.S.Base; bs != nil && bs.Kind == "array" && !bs.Obj.Caller && bs.Obj.Global == nil && p.Idx.IsConst() {
			x.store(st, bs.Obj, append(append([]int(nil), bs.Path...), int(p.Idx.V)), v)
			return
		}
		x.frameViolation(st, "write to "+baseName(p.S.Base)+" at "+posOf(in))
	default:
		unsup("store through %T", a)
	}
}

func baseName(b *Base) string {
	if b == nil {
		return "nil data"
	}
	return b.Kind + " " + b.Name
}

func (x *Exec) frameViolation(st *State, msg string) {
	x.oblige(st, "frame", msg, x.B.False)
}

func (x *Exec) load(st *State, p VPtr, where string) Val {
	if p.Obj == nil {
		x.oblige(st, "safety", "nil dereference "+where, x.B.False)
		unsup("load through nil pointer")
	}
	x.oblige(st, "safety", "nil dereference "+where, x.B.Not(p.Nil))
	if p.Obj.Global != nil {
		return x.globalLoad(p.Obj.Global, p.Path)
	}
	v, ok := st.mem[p.Obj]
	if !ok {
		unsup("load of unknown object %s", p.Obj.Name)
	}
	return getPath(v, p.Path)
}

func (x *Exec) eval(st *State, in ssa.Value) Val {
	B := x.B
	switch i := in.(type) {
	case *ssa.Alloc:
		o := &Obj{Name: fmt.Sprintf("%s.%s", i.Parent().Name(), i.Comment), T: i.Type().(*types.Pointer).Elem()}
		m := make(Mem, len(st.mem)+1)
		for k, w := range st.mem {
			m[k] = w
		}
		m[o] = x.zero(o.T)
		st.mem = m
		return VPtr{Obj: o, Nil: B.False}
	case *ssa.BinOp:
		return x.binop(st, i)
	case *ssa.UnOp:
		switch i.Op {
		case token.MUL:
			switch p := x.val(st, i.X).(type) {
			case VPtr:
				return x.load(st, p, posOf(i))
			case VElemPtr:
				return x.loadElem(st, p)
			default:
				unsup("load through %T", p)
			}
		case token.NOT:
			return VScalar{B.Not(x.term(st, i.X))}
		case token.SUB:
			t := x.term(st, i.X)
			if t.S.K == 'I' {
				r := B.Sub(B.Int(0), t)
				x.oblige(st, "safety", "overflow "+posOf(i), x.inRange(r))
				return VScalar{r}
			}
			return VScalar{B.BvBin("bvsub", B.BV(0, t.S.W), t)}
		case token.XOR:
			t := x.term(st, i.X)
			if t.S.K == 'I' {
				return VScalar{B.Sub(B.Int(-1), t)}
			}
			return VScalar{B.BvNot(t)}
		}
		unsup("unary %s", i)
	case *ssa.ChangeType:
		return x.val(st, i.X)
	case *ssa.ChangeInterface:
		return x.val(st, i.X)
	case *ssa.Convert:
		return x.convert(st, i.X.Type(), i.Type(), x.val(st, i.X), posOf(i))
	case *ssa.MultiConvert:
		return x.convert(st, i.X.Type(), i.Type(), x.val(st, i.X), posOf(i))
	case *ssa.MakeInterface:
		return VIface{T: i.X.Type(), V: x.val(st, i.X), Nil: B.False}
	case *ssa.TypeAssert:
		f, ok := x.val(st, i.X).(VIface)
		if !ok || (f.T == nil && f.Nil != B.True) {
			unsup("type assertion on unknown interface")
		}
		if _, ok := i.AssertedType.Underlying().(*types.Interface); ok {
			unsup("assertion to interface")
		}
		match := f.T != nil && types.Identical(f.T, i.AssertedType)
		var v Val
		var okT *Term
		if match {
			v, okT = f.V, B.Not(f.Nil)
		} else {
			v, okT = x.zero(i.AssertedType), B.False
		}
		if i.CommaOk {
			return VTuple{[]Val{v, VScalar{okT}}}
		}
		x.oblige(st, "safety", "type assertion "+posOf(i), okT)
		return v
	case *ssa.Extract:
		t, ok := x.val(st, i.Tuple).(VTuple)
		if !ok {
			unsup("extract from %T", t)
		}
		return t.V[i.Index]
	case *ssa.Field:
		return getPath(x.val(st, i.X), []int{i.Field})
	case *ssa.FieldAddr:
		p, ok := x.val(st, i.X).(VPtr)
		if !ok {
			unsup("field of %T", x.val(st, i.X))
		}
		if p.Obj == nil {
			x.oblige(st, "safety", "nil dereference "+posOf(i), B.False)
			unsup("field of nil pointer")
		}
		x.oblige(st, "safety", "nil dereference "+posOf(i), B.Not(p.Nil))
		return VPtr{p.Obj, append(append([]int(nil), p.Path...), i.Field), B.False}
	case *ssa.IndexAddr:
		return x.indexAddr(st, i.X, i.Index, posOf(i))
	case *ssa.Index:
		return x.index(st, i.X, i.Index, posOf(i))
	case *ssa.Lookup:
		return x.index(st, i.X, i.Index, posOf(i))
	case *ssa.Slice:
		return x.slice(st, i)
	case *ssa.MakeClosure:
		f := VFunc{Fn: i.Fn.(*ssa.Function), Nil: B.False}
		for _, bnd := range i.Bindings {
			f.Bind = append(f.Bind, x.val(st, bnd))
		}
		return f
	case *ssa.Range: // over a string: the string and a position
		s, ok := x.val(st, i.X).(VSlice)
		if !ok {
			unsup("range over %s", i.X.Type())
		}
		o := &Obj{Name: fmt.Sprintf("%s.range", i.Parent().Name()), T: types.Typ[types.Int]}
		m := make(Mem, len(st.mem)+1)
		for k, w := range st.mem {
			m[k] = w
		}
		m[o] = VScalar{B.Int(0)}
		st.mem = m
		return VStruct{[]Val{s, VPtr{Obj: o, Nil: B.False}}}
	case *ssa.Next:
		it, ok := x.val(st, i.Iter).(VStruct)
		if !ok || !i.IsString {
			unsup("%s at %s", in, posOf(i))
		}
		s, p := it.F[0].(VSlice), it.F[1].(VPtr)
		pos := x.load(st, p, posOf(i)).(VScalar).T
		more := B.Lt(pos, s.Len)
		v, ok := x.external1(st, "unicode/utf8.DecodeRuneInString", []Val{VSlice{s.Base, B.Add(s.Off, pos), B.Sub(s.Len, pos), B.False, s.Copy}}, posOf(i))
		if !ok {
			unsup("range over %s", baseName(s.Base))
		}
		x.store(st, p.Obj, p.Path, VScalar{B.Add(pos, v.(VTuple).V[1].(VScalar).T)})
		return VTuple{[]Val{VScalar{more}, VScalar{pos}, v.(VTuple).V[0]}}
	case *ssa.MakeSlice:
		// new memory whose contents are not followed
		n := x.val(st, i.Len).(VScalar).T
		c := x.val(st, i.Cap).(VScalar).T
		if n.S.K != 'I' || c.S.K != 'I' {
			unsup("make at %s", posOf(i))
		}
		x.oblige(st, "safety", "make with a length within its capacity "+posOf(i), B.And(B.Le(B.Int(0), n), B.Le(n, c)))
		return VSlice{Base: &Base{Kind: "made", Name: posOf(i)}, Off: B.Int(0), Len: n, Nil: B.False}
	case *ssa.SliceToArrayPointer, *ssa.MakeMap, *ssa.MakeChan:
		unsup("%s at %s", in, posOf(in.(ssa.Instruction)))
	}
	unsup("%T: %s", in, in)
	return nil
}

func (x *Exec) asIndex(st *State, v ssa.Value) *Term {
	t := x.term(st, v)
	if t.S.K == 'V' {
		_, signed, _ := scalarSort(v.Type())
		return x.B.Bv2Int(t, signed)
	}
	return t
}

func (x *Exec) noteLen(t *Term) {
	for _, u := range x.lens {
		if u == t {
			return
		}
	}
	if t.Op == "var" || t.IsConst() || len(t.Args) == 2 && t.Op != "ite" {
		x.lens = append(x.lens, t)
	}
}

func (x *Exec) boundsOb(st *State, idx, n *Term, where string) {
	x.noteLen(n)
	x.oblige(st, "safety", "index in range "+where, x.B.And(x.B.Le(x.B.Int(0), idx), x.B.Lt(idx, n)))
}

func (x *Exec) indexAddr(st *State, xv, iv ssa.Value, where string) Val {
	idx := x.asIndex(st, iv)
	switch p := x.val(st, xv).(type) {
	case VSlice:
		x.boundsOb(st, idx, p.Len, where)
		return VElemPtr{S: &p, Idx: x.B.Add(p.Off, idx)}
	case VPtr:
		at, ok := xv.Type().Underlying().(*types.Pointer)
		if !ok {
			unsup("index of %s", xv.Type())
		}
		arr, ok := at.Elem().Underlying().(*types.Array)
		if !ok {
			unsup("index of %s", xv.Type())
		}
		x.boundsOb(st, idx, x.B.Int(arr.Len()), where)
		return VElemPtr{Arr: &p, Idx: idx}
	}
	unsup("index address of %T", x.val(st, xv))
	return nil
}

func (x *Exec) index(st *State, xv, iv ssa.Value, where string) Val {
	idx := x.asIndex(st, iv)
	switch p := x.val(st, xv).(type) {
	case VSlice:
		x.boundsOb(st, idx, p.Len, where)
		return x.loadElem(st, VElemPtr{S: &p, Idx: x.B.Add(p.Off, idx)})
	case VStruct:
		x.boundsOb(st, idx, x.B.Int(int64(len(p.F))), where)
		return x.selectList(p.F, idx)
	}
	unsup("index of %T", x.val(st, xv))
	return nil
}

// selectList is v[idx] for a list of scalars, with runs of equal values merged.
func (x *Exec) selectList(vs []Val, idx *Term) Val {
	if idx.IsConst() {
		if idx.V < 0 || idx.V >= int64(len(vs)) {
			unsup("constant index out of range")
		}
		return vs[idx.V]
	}
	if len(vs) == 0 || len(vs) > 4096 {
		unsup("symbolic index into %d elements", len(vs))
	}
	out := vs[len(vs)-1]
	for i := len(vs) - 2; i >= 0; i-- {
		if eqVal(vs[i], vs[i+1]) {
			continue
		}
		out = x.ite(x.B.Le(idx, x.B.Int(int64(i))), vs[i], out)
	}
	return out
}

func (x *Exec) loadElem(st *State, p VElemPtr) Val {
	if p.Arr != nil {
		o := p.Arr.Obj
		if o.Global != nil {
			v := x.globalLoad(o.Global, p.Arr.Path)
			s, ok := v.(VStruct)
			if !ok {
				unsup("element of global %s", o.Name)
			}
			return x.selectList(s.F, p.Idx)
		}
		s, ok := getPath(st.mem[o], p.Arr.Path).(VStruct)
		if !ok {
			unsup("element of array %s", o.Name)
		}
		return x.selectList(s.F, p.Idx)
	}
	bs := p.S.Base
	if bs == nil {
		return VScalar{x.fresh("noelem", SBV(8))}
	}
	switch bs.Kind {
	case "text":
		x.touched(p.Idx)
		if x.I != nil {
			return VScalar{x.I.Byte(p.Idx)}
		}
		return VScalar{x.B.App("B", SBV(8), p.Idx)}
	case "const":
		var vs []Val
		for k := 0; k < len(bs.Str); k++ {
			vs = append(vs, VScalar{x.B.BV(uint64(bs.Str[k]), 8)})
		}
		return x.selectList(vs, p.Idx)
	case "runes":
		x.reads = append(x.reads, p.Idx)
		return VScalar{x.runeSet(bs.Name).elem(x, p.Idx)}
	case "array":
		v := st.mem[bs.Obj]
		if bs.val != nil {
			v = bs.val
		}
		if bs.Obj.Global != nil {
			v = x.globalLoad(bs.Obj.Global, nil)
		}
		s, ok := getPath(v, bs.Path).(VStruct)
		if !ok {
			unsup("element of %s", bs.Name)
		}
		return x.selectList(s.F, p.Idx)
	}
	unsup("element of %s", baseName(bs))
	return nil
}

func (x *Exec) touched(o *Term) {
	for _, t := range x.touch {
		if t == o {
			return
		}
	}
	x.touch = append(x.touch, o)
}

func (x *Exec) slice(st *State, i *ssa.Slice) Val {
	B := x.B
	var s VSlice
	switch p := x.val(st, i.X).(type) {
	case VSlice:
		s = p
	case VPtr:
		arr, ok := i.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		if !ok {
			unsup("slice of %s", i.X.Type())
		}
		k := fmt.Sprintf("arr:%p:%v", p.Obj, p.Path)
		bs := x.bases[k]
		if bs == nil {
			bs = &Base{Kind: "array", Name: p.Obj.Name, Obj: p.Obj, Path: p.Path}
			x.bases[k] = bs
		}
		s = VSlice{Base: bs, Off: B.Int(0), Len: B.Int(arr.Len()), Nil: B.False}
	default:
		unsup("slice of %T", p)
	}
	lo := B.Int(0)
	if i.Low != nil {
		lo = x.asIndex(st, i.Low)
	}
	hi := s.Len
	if i.High != nil {
		hi = x.asIndex(st, i.High)
	}
	end := s.Len
	if i.Max != nil {
		end = x.asIndex(st, i.Max)
		x.oblige(st, "safety", "slice capacity "+posOf(i), B.Le(end, s.Len))
	}
	if s.Base != nil && s.Base.Kind == "made" {
		unsup("slice of a made slice at %s", posOf(i))
	}
	// For strings, and by contract for slices, the bound is the length: going
	// beyond len into the capacity would read bytes outside the data.
	x.oblige(st, "safety", "slice bounds "+posOf(i), B.And(B.Le(B.Int(0), lo), B.Le(lo, hi), B.Le(hi, end)))
	nl := s.Nil
	if isStringT(i.X.Type()) {
		nl = B.False
	}
	return VSlice{s.Base, B.Add(s.Off, lo), B.Sub(hi, lo), nl, s.Copy}
}

func isBytesT(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func (x *Exec) convert(st *State, from, to types.Type, v Val, where string) Val {
	B := x.B
	fs, fsg, ok1 := scalarSort(from)
	ts, _, ok2 := scalarSort(to)
	if ok1 && ok2 {
		t := v.(VScalar).T
		switch {
		case fs.K == 'I' && ts.K == 'I':
			return v
		case fs.K == 'I' && ts.K == 'V':
			return VScalar{B.Int2Bv(t, ts.W)}
		case fs.K == 'V' && ts.K == 'I':
			if fs.W == 64 && !fsg {
				u := B.Bv2Int(t, false)
				x.oblige(st, "safety", "overflow "+where, x.inRange(u))
				return VScalar{u}
			}
			return VScalar{B.Bv2Int(t, fsg)}
		case fs.K == 'V' && ts.K == 'V':
			return VScalar{B.Ext(t, ts.W, fsg)}
		}
		unsup("conversion %s to %s", from, to)
	}
	if (isStringT(from) || isBytesT(from)) && (isStringT(to) || isBytesT(to)) {
		s := v.(VSlice)
		if isStringT(from) != isStringT(to) {
			s.Copy = true
			s.Nil = B.False
		}
		return s
	}
	unsup("conversion %s to %s at %s", from, to, where)
	return nil
}

func (x *Exec) binop(st *State, i *ssa.BinOp) Val {
	B := x.B
	a, b := x.val(st, i.X), x.val(st, i.Y)
	switch i.Op {
	case token.EQL, token.NEQ:
		e := x.equal(st, a, b)
		if i.Op == token.NEQ {
			e = B.Not(e)
		}
		return VScalar{e}
	}
	p, ok1 := a.(VScalar)
	q, ok2 := b.(VScalar)
	if !ok1 || !ok2 {
		unsup("operation %s on %T", i.Op, a)
	}
	t, u := p.T, q.T
	where := posOf(i)
	if t.S.K == 'I' {
		if u.S.K == 'V' && (i.Op == token.SHL || i.Op == token.SHR) {
			_, sg, _ := scalarSort(i.Y.Type())
			u = B.Bv2Int(u, sg)
		}
		var r *Term
		switch i.Op {
		case token.ADD:
			r = B.Add(t, u)
		case token.SUB:
			r = B.Sub(t, u)
		case token.MUL:
			r = B.Mul(t, u)
		case token.LSS:
			return VScalar{B.Lt(t, u)}
		case token.LEQ:
			return VScalar{B.Le(t, u)}
		case token.GTR:
			return VScalar{B.Lt(u, t)}
		case token.GEQ:
			return VScalar{B.Le(u, t)}
		case token.QUO, token.REM:
			if !u.IsConst() || u.V <= 0 {
				unsup("division by a variable at %s", where)
			}
			neg := B.Lt(t, B.Int(0))
			m := B.Sub(B.Int(0), t)
			if i.Op == token.QUO {
				return VScalar{B.Ite(neg, B.Sub(B.Int(0), B.DivI(m, u)), B.DivI(t, u))}
			}
			return VScalar{B.Ite(neg, B.Sub(B.Int(0), B.ModI(m, u)), B.ModI(t, u))}
		case token.AND:
			if t.IsConst() {
				t, u = u, t
			}
			if u.IsConst() && u.V >= 0 && (u.V&(u.V+1)) == 0 {
				return VScalar{B.ModI(t, B.Int(u.V+1))}
			}
			return VScalar{B.Bv2Int(B.BvBin("bvand", B.Int2Bv(t, 64), B.Int2Bv(u, 64)), true)}
		case token.OR:
			return VScalar{B.Bv2Int(B.BvBin("bvor", B.Int2Bv(t, 64), B.Int2Bv(u, 64)), true)}
		case token.XOR:
			if u.IsConst() && u.V == 1 { // parity toggle
				ev := B.Eq(B.ModI(t, B.Int(2)), B.Int(0))
				return VScalar{B.Ite(ev, B.Add(t, B.Int(1)), B.Sub(t, B.Int(1)))}
			}
			return VScalar{B.Bv2Int(B.BvBin("bvxor", B.Int2Bv(t, 64), B.Int2Bv(u, 64)), true)}
		case token.SHL:
			if !u.IsConst() || u.V < 0 || u.V > 62 {
				unsup("shift at %s", where)
			}
			r = B.Mul(t, B.Int(1<<uint(u.V)))
		case token.SHR:
			if !u.IsConst() || u.V < 0 || u.V > 62 {
				unsup("shift at %s", where)
			}
			return VScalar{B.DivI(t, B.Int(1<<uint(u.V)))}
		default:
			unsup("operator %s on int", i.Op)
		}
		x.oblige(st, "safety", "no overflow "+where, x.inRange(r))
		return VScalar{r}
	}
	if t.S.K == 'B' {
		switch i.Op {
		case token.AND:
			return VScalar{B.And(t, u)}
		case token.OR:
			return VScalar{B.Or(t, u)}
		}
		unsup("operator %s on bool", i.Op)
	}
	_, sg, _ := scalarSort(i.X.Type())
	cmp := func(op string, p, q *Term) Val {
		if sg {
			op = strings.Replace(op, "bvu", "bvs", 1)
		}
		return VScalar{B.BvCmp(op, p, q)}
	}
	switch i.Op {
	case token.ADD:
		return VScalar{B.BvBin("bvadd", t, u)}
	case token.SUB:
		return VScalar{B.BvBin("bvsub", t, u)}
	case token.MUL:
		return VScalar{B.BvBin("bvmul", t, u)}
	case token.AND:
		return VScalar{B.BvBin("bvand", t, u)}
	case token.OR:
		return VScalar{B.BvBin("bvor", t, u)}
	case token.XOR:
		return VScalar{B.BvBin("bvxor", t, u)}
	case token.AND_NOT:
		return VScalar{B.BvBin("bvand", t, B.BvNot(u))}
	case token.LSS:
		return cmp("bvult", t, u)
	case token.LEQ:
		return cmp("bvule", t, u)
	case token.GTR:
		return cmp("bvult", u, t)
	case token.GEQ:
		return cmp("bvule", u, t)
	case token.SHL, token.SHR:
		if u.S.K == 'I' {
			if !u.IsConst() || u.V < 0 {
				unsup("shift at %s", where)
			}
			u = B.BV(uint64(u.V), t.S.W)
		} else {
			u2 := B.Ext(u, t.S.W, false)
			if u.S.W > t.S.W && !u.IsConst() {
				unsup("wide shift at %s", where)
			}
			if u.IsConst() && uint64(u.V) >= uint64(t.S.W) {
				u2 = B.BV(uint64(t.S.W), t.S.W)
			}
			u = u2
		}
		if i.Op == token.SHL {
			return VScalar{B.BvBin("bvshl", t, u)}
		}
		if sg {
			return VScalar{B.BvBin("bvashr", t, u)}
		}
		return VScalar{B.BvBin("bvlshr", t, u)}
	}
	unsup("operator %s", i.Op)
	return nil
}

func (x *Exec) equal(st *State, a, b Val) *Term {
	B := x.B
	switch p := a.(type) {
	case VScalar:
		return B.Eq(p.T, b.(VScalar).T)
	case VSlice:
		q := b.(VSlice)
		// nil comparison
		if q.Base == nil && q.Nil == B.True {
			return p.Nil
		}
		if p.Base == nil && p.Nil == B.True {
			return q.Nil
		}
		if q.Len.IsConst() && q.Len.V == 0 {
			return B.Eq(p.Len, q.Len)
		}
		if p.Len.IsConst() && p.Len.V == 0 {
			return B.Eq(p.Len, q.Len)
		}
		unsup("comparison of strings")
	case VPtr:
		if p.Nil == B.True {
			if _, ok := b.(VElemPtr); ok {
				return B.False
			}
		}
		q, ok := b.(VPtr)
		if !ok {
			break
		}
		if q.Nil == B.True {
			return p.Nil
		}
		if p.Nil == B.True {
			return q.Nil
		}
	case VElemPtr:
		if q, ok := b.(VPtr); ok && q.Nil == B.True {
			return B.False
		}
		if q, ok := b.(VElemPtr); ok && p.S != nil && q.S != nil && p.S.Base == q.S.Base && p.S.Base != nil && !p.S.Copy && !q.S.Copy {
			return B.Eq(p.Idx, q.Idx)
		}
	case VFunc:
		q := b.(VFunc)
		if q.Nil == B.True {
			return p.Nil
		}
		if p.Nil == B.True {
			return q.Nil
		}
	case VIface:
		q, ok := b.(VIface)
		if ok && q.Nil == B.True {
			return p.Nil
		}
		if ok && p.Nil == B.True {
			return q.Nil
		}
		if ok {
			// either answer, unless one of them is nil
			return B.Ite(B.And(p.Nil, q.Nil), B.True, B.And(B.Not(p.Nil), B.Not(q.Nil), x.fresh("sameIface", SBool)))
		}
	case VStruct:
		q := b.(VStruct)
		r := B.True
		for i := range p.F {
			r = B.And(r, x.equal(st, p.F[i], q.F[i]))
		}
		return r
	}
	unsup("comparison of %T", a)
	return nil
}

// --- calls ---

func (x *Exec) execCall(st *State, in *ssa.Call) (Val, *State) {
	c := in.Call
	if c.IsInvoke() {
		unsup("interface method call %s at %s", c.Method.Name(), posOf(in))
	}
	var args []Val
	for _, a := range c.Args {
		args = append(args, x.val(st, a))
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return x.builtin(st, in, b.Name(), args), st
	}
	f, ok := x.val(st, c.Value).(VFunc)
	if !ok {
		unsup("call of %T", x.val(st, c.Value))
	}
	return x.apply(st, f, args, posOf(in))
}

func (x *Exec) apply(st *State, f VFunc, args []Val, where string) (Val, *State) {
	B := x.B
	if f.Nil != B.False {
		x.oblige(st, "safety", "call of nil function "+where, B.Not(f.Nil))
	}
	if f.Fn == nil {
		if f.Unknown == "" {
			return nil, nil
		}
		if x.unknown == nil {
			unsup("call of unknown function %s at %s", f.Unknown, where)
		}
		return x.unknown(x, st, f, args), st
	}
	fn := f.Fn
	if c, ok := x.contract[fn]; ok {
		if v := c(x, st, args); v != nil { // nil: no contract after all
			return v, st
		}
	}
	if v, ok := x.external(st, fn, args, where); ok {
		return v, st
	}
	if b := x.P.stdBody(fn); b != nil {
		return x.call(b, nil, args, st)
	}
	if fn.Blocks == nil || fn.Pkg != nil && !strings.HasPrefix(fn.Pkg.Pkg.Path(), modPath) {
		unsup("call of %s at %s: no contract", fn, where)
	}
	return x.call(fn, f.Bind, args, st)
}

func (x *Exec) builtin(st *State, in *ssa.Call, name string, args []Val) Val {
	B := x.B
	switch name {
	case "len":
		switch p := args[0].(type) {
		case VSlice:
			x.noteLen(p.Len)
			return VScalar{p.Len}
		case VStruct:
			return VScalar{B.Int(int64(len(p.F)))}
		}
	case "cap":
		if p, ok := args[0].(VSlice); ok {
			c := x.fresh("cap", SInt)
			x.assume(st, B.Le(p.Len, c))
			return VScalar{c}
		}
	case "min", "max":
		r := args[0].(VScalar).T
		_, sg, _ := scalarSort(in.Type())
		for _, a := range args[1:] {
			t := a.(VScalar).T
			var le *Term
			if t.S.K == 'I' {
				le = B.Le(r, t)
			} else if sg {
				le = B.BvCmp("bvsle", r, t)
			} else {
				le = B.BvCmp("bvule", r, t)
			}
			if name == "max" {
				le = B.Not(le)
			}
			r = B.Ite(le, r, t)
		}
		return VScalar{r}
	case "append":
		p, ok := args[0].(VSlice)
		if ok && p.Base != nil && (p.Base.Kind == "text" || p.Base.Kind == "runes") {
			x.frameViolation(st, "append to "+baseName(p.Base)+" at "+posOf(in))
		}
		// a copy of the text
		if q, ok2 := args[1].(VSlice); ok && ok2 && p.Len.IsConst() && p.Len.V == 0 && p.Base == nil && q.Base != nil && q.Base.Kind == "text" {
			q.Copy = true
			q.Nil = B.Eq(q.Len, B.Int(0))
			return q
		}
		unsup("append at %s", posOf(in))
	case "copy":
		p, ok := args[0].(VSlice)
		if ok && p.Base != nil && (p.Base.Kind == "text" || p.Base.Kind == "runes") {
			x.frameViolation(st, "copy into "+baseName(p.Base)+" at "+posOf(in))
			return VScalar{x.fresh("copied", SInt)}
		}
		unsup("copy at %s", posOf(in))
	case "ssa:wrapnilchk":
		return args[0]
	}
	unsup("builtin %s at %s", name, posOf(in))
	return nil
}

// --- globals ---

func (x *Exec) globalObj(g *ssa.Global) *Obj {
	k := "global:" + g.String()
	if b, ok := x.bases[k]; ok {
		return b.Obj
	}
	o := &Obj{Name: g.String(), T: g.Type().(*types.Pointer).Elem(), Global: g}
	x.bases[k] = &Base{Kind: "global", Obj: o}
	return o
}

// globalLoad evaluates a package variable that is only assigned by package
// initialisation.
func (x *Exec) globalLoad(g *ssa.Global, path []int) Val {
	gi := x.P.globalInfo(g)
	if gi.Bad != "" {
		unsup("package variable %s: %s", g, gi.Bad)
	}
	x.Assumed["package variable "+g.String()+" keeps its initial value (no function in the module stores to it)"] = true
	v := x.globalInit(g, gi)
	return getPath(v, path)
}

type globalInfo struct {
	Bad    string
	Stores []*ssa.Store // in init, in order
}

func (P *Program) globalInfo(g *ssa.Global) *globalInfo {
	P.mu.Lock()
	defer P.mu.Unlock()
	if P.globals == nil {
		P.globals = map[*ssa.Global]*globalInfo{}
		var fns []*ssa.Function
		for f := range P.Funcs {
			if f.Blocks != nil {
				fns = append(fns, f)
			}
		}
		sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
		info := func(g *ssa.Global) *globalInfo {
			gi := P.globals[g]
			if gi == nil {
				gi = &globalInfo{}
				P.globals[g] = gi
			}
			return gi
		}
		for _, f := range fns {
			isInit := f.Name() == "init" && f.Synthetic == "package initializer"
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					for _, op := range ins.Operands(nil) {
						g, ok := (*op).(*ssa.Global)
						if !ok {
							continue
						}
						gi := info(g)
						P.useOfAddr(gi, g, ins, isInit, 0)
					}
				}
			}
		}
	}
	gi := P.globals[g]
	if gi == nil {
		gi = &globalInfo{}
		P.globals[g] = gi
	}
	return gi
}

func (P *Program) useOfAddr(gi *globalInfo, addr ssa.Value, ins ssa.Instruction, isInit bool, depth int) {
	switch u := ins.(type) {
	case *ssa.UnOp: // load
		switch u.Type().Underlying().(type) {
		case *types.Slice, *types.Pointer, *types.Map, *types.Chan:
			P.useOfShared(gi, u, 0)
		}
		return
	case *ssa.Store:
		if u.Addr == addr {
			if isInit {
				gi.Stores = append(gi.Stores, u)
			} else {
				gi.Bad = "stored to in " + u.Parent().String()
			}
			return
		}
	case *ssa.FieldAddr, *ssa.IndexAddr:
		if depth < 8 {
			v := u.(ssa.Value)
			for _, r := range *v.Referrers() {
				P.useOfAddr(gi, v, r, isInit, depth+1)
			}
			return
		}
	case *ssa.DebugRef:
		return
	}
	if gi.Bad == "" {
		gi.Bad = "its address is used in " + ins.Parent().String()
	}
}

// useOfShared rejects writes through a reference loaded from a global.
func (P *Program) useOfShared(gi *globalInfo, v ssa.Value, depth int) {
	for _, r := range *v.Referrers() {
		switch u := r.(type) {
		case *ssa.DebugRef, *ssa.BinOp, *ssa.UnOp:
			continue
		case *ssa.IndexAddr:
			ok := true
			for _, q := range *u.Referrers() {
				if _, ld := q.(*ssa.UnOp); !ld {
					ok = false
				}
			}
			if ok {
				continue
			}
		case *ssa.Slice, *ssa.Phi:
			if depth < 6 {
				P.useOfShared(gi, u.(ssa.Value), depth+1)
				continue
			}
		case *ssa.Call:
			if b, ok := u.Call.Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "cap") {
				continue
			}
		}
		if gi.Bad == "" {
			gi.Bad = "its contents are shared in " + r.Parent().String()
		}
	}
}

func (x *Exec) globalInit(g *ssa.Global, gi *globalInfo) Val {
	k := "ginit:" + g.String()
	if b, ok := x.bases[k]; ok {
		return b.val
	}
	if g.Pkg == nil || !strings.HasPrefix(g.Pkg.Pkg.Path(), modPath) {
		if t := g.Type().(*types.Pointer).Elem(); types.Identical(t, types.Universe.Lookup("error").Type()) {
			// some error, such as io.EOF
			b := &Base{Kind: "error", val: VIface{V: VOpaque{g.String()}, Nil: x.B.Var("nil:"+g.String(), SBool)}}
			x.bases[k] = b
			return b.val
		}
		unsup("package variable %s of another module", g)
	}
	v := x.zero(g.Type().(*types.Pointer).Elem())
	for _, s := range gi.Stores {
		var path []int
		a := s.Addr
		for a != ssa.Value(g) {
			switch p := a.(type) {
			case *ssa.FieldAddr:
				path = append([]int{p.Field}, path...)
				a = p.X
			case *ssa.IndexAddr:
				c, ok := p.Index.(*ssa.Const)
				if !ok {
					unsup("initialiser of %s", g)
				}
				path = append([]int{int(c.Int64())}, path...)
				a = p.X
			default:
				unsup("initialiser of %s", g)
			}
		}
		v = setPath(v, path, x.initVal(s.Val, 0))
	}
	x.bases[k] = &Base{Kind: "ginit", val: v}
	return v
}

func (x *Exec) initVal(v ssa.Value, d int) Val {
	if d > 8 {
		unsup("initialiser")
	}
	switch c := v.(type) {
	case *ssa.Const:
		return x.constVal(c)
	case *ssa.Function:
		return VFunc{Fn: c, Nil: x.B.False}
	case *ssa.ChangeType:
		return x.initVal(c.X, d+1)
	case *ssa.MakeClosure:
		f := VFunc{Fn: c.Fn.(*ssa.Function), Nil: x.B.False}
		for _, b := range c.Bindings {
			f.Bind = append(f.Bind, x.initVal(b, d+1))
		}
		return f
	case *ssa.UnOp:
		if c.Op == token.MUL {
			if g, ok := c.X.(*ssa.Global); ok {
				return x.globalLoad(g, nil)
			}
			if al, ok := c.X.(*ssa.Alloc); ok {
				return x.initAlloc(al, d+1)
			}
		}
	case *ssa.Slice:
		if al, ok := c.X.(*ssa.Alloc); ok && c.Low == nil && c.High == nil {
			st, ok := x.initAlloc(al, d+1).(VStruct)
			if ok {
				o := &Obj{Name: "initial " + al.Parent().Pkg.Pkg.Name() + " data", Caller: true}
				bs := &Base{Kind: "array", Name: o.Name, Obj: o, val: st}
				return VSlice{Base: bs, Off: x.B.Int(0), Len: x.B.Int(int64(len(st.F))), Nil: x.B.False}
			}
		}
	}
	unsup("initialiser %s", v)
	return nil
}

// initAlloc evaluates a composite literal built in init.
func (x *Exec) initAlloc(al *ssa.Alloc, d int) Val {
	v := x.zero(al.Type().(*types.Pointer).Elem())
	for _, r := range *al.Referrers() {
		switch u := r.(type) {
		case *ssa.Store:
			if u.Addr == al {
				v = x.initVal(u.Val, d+1)
				continue
			}
		case *ssa.IndexAddr:
			c, ok := u.Index.(*ssa.Const)
			if ok && len(*u.Referrers()) == 1 {
				if s, ok := (*u.Referrers())[0].(*ssa.Store); ok {
					v = setPath(v, []int{int(c.Int64())}, x.initVal(s.Val, d+1))
					continue
				}
			}
		case *ssa.FieldAddr:
			if len(*u.Referrers()) == 1 {
				if s, ok := (*u.Referrers())[0].(*ssa.Store); ok {
					v = setPath(v, []int{u.Field}, x.initVal(s.Val, d+1))
					continue
				}
			}
		case *ssa.UnOp, *ssa.Slice, *ssa.DebugRef:
			continue
		}
		unsup("initialiser %s", r)
	}
	return v
}
