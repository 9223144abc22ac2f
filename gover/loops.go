package main

// Loops: invariants are instances of the contract's templates over whatever
// variables the loop carries, kept only when they hold on entry and are
// preserved by every path from an arbitrary iteration (Houdini). Nothing about
// the names or the arrangement of the variables is assumed.

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type loopKey struct {
	h    *ssa.BasicBlock
	path string
}

type loopMemo struct {
	changing map[string]bool
	dropped  map[string]bool
	consts   map[string]*phaseInfo
}

// phaseInfo: the constants that flow into a carried value from inside its loop
type phaseInfo struct {
	ks   []*Term
	only bool // nothing else does
}

// constLeaves collects the constants t selects between; v itself may be kept.
func constLeaves(t, v *Term, p *phaseInfo) {
	switch {
	case t == v:
	case t.Op == "ite":
		constLeaves(t.Args[1], v, p)
		constLeaves(t.Args[2], v, p)
	case t.IsConst():
		for _, k := range p.ks {
			if k == t {
				return
			}
		}
		p.ks = append(p.ks, t)
	default:
		p.only = false
	}
}

type loopReport struct {
	Fn      string
	Key     string
	Where   string
	Inv     []string
	Unroll  int
	Measure string
}

type loc struct {
	id    string
	v     *Term // fresh variable at the header
	entry *Term
	get   func(st *State) *Term
	name  string
	phase *phaseInfo
}

type cand struct {
	label string
	t     *Term
}

var debugLoops = os.Getenv("GOVER_LOOPS") != ""

// slot: a carried value (phi or memory leaf)
type slot struct {
	id  string
	phi *ssa.Phi
	obj *Obj
	pth []int
	nm  string
}

func (x *Exec) slots(l *Loop, st *State) []slot {
	var out []slot
	for i, ins := range l.header.Instrs {
		phi, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		nm := phi.Comment
		if nm == "" {
			nm = phi.Name()
		}
		out = append(out, slot{id: fmt.Sprintf("phi%d", i), phi: phi, nm: nm})
	}
	var objs []*Obj
	for o := range st.mem {
		objs = append(objs, o)
	}
	sort.Slice(objs, func(i, j int) bool { return objs[i].Name < objs[j].Name })
	for _, o := range objs {
		leaves(st.mem[o], nil, func(p []int, v Val) {
			out = append(out, slot{id: fmt.Sprintf("mem:%s%v", o.Name, p), obj: o, pth: p, nm: fmt.Sprintf("%s%v", o.Name, p)})
		})
	}
	return out
}

func (sl slot) get(st *State) Val {
	if sl.phi != nil {
		return st.env.own[sl.phi]
	}
	return getPath(st.mem[sl.obj], sl.pth)
}

func (x *Exec) set(st *State, sl slot, v Val) {
	if sl.phi != nil {
		st.env.own[sl.phi] = v
		return
	}
	x.store(st, sl.obj, sl.pth, v)
}

// comps lists the term components of a carried value.
func comps(v Val) map[string]*Term {
	switch p := v.(type) {
	case VScalar:
		return map[string]*Term{"": p.T}
	case VSlice:
		return map[string]*Term{".off": p.Off, ".len": p.Len, ".nil": p.Nil}
	case VIface:
		return map[string]*Term{".nil": p.Nil}
	}
	return nil
}

func withComp(v Val, c string, t *Term) Val {
	switch p := v.(type) {
	case VScalar:
		return VScalar{t}
	case VSlice:
		switch c {
		case ".off":
			p.Off = t
		case ".len":
			p.Len = t
		case ".nil":
			p.Nil = t
		}
		return p
	case VIface:
		p.Nil = t
		return p
	}
	return v
}

var compNames = []string{"", ".off", ".len", ".nil"}

func (x *Exec) pathKey() string {
	var sb strings.Builder
	for _, f := range x.stack {
		sb.WriteString(f.Name())
		sb.WriteByte('/')
	}
	sb.WriteString(x.iterPath)
	return sb.String()
}

// runLoop executes loop l from its entry edges and returns the edges leaving it.
func (x *Exec) runLoop(fr *frame, l *Loop, es []edge) []edge {
	s0 := x.enter(l.header, es)
	key := loopKey{l.header, x.pathKey()}
	memo := x.loopMemo[key]
	if memo == nil {
		memo = &loopMemo{changing: map[string]bool{}, dropped: map[string]bool{}, consts: map[string]*phaseInfo{}}
		x.loopMemo[key] = memo
	}
	slots := x.slots(l, s0)
	where := fmt.Sprintf("%s loop at %s", l.header.Parent().Name(), loopPos(l))

	var h *State
	var locs []loc
	build := func() {
		h = s0.fork(s0.pc)
		for k, v := range s0.env.own {
			h.env.own[k] = v
		}
		locs = nil
		for _, sl := range slots {
			v := sl.get(s0)
			cs := comps(v)
			changed := false
			for _, c := range compNames {
				t, ok := cs[c]
				if !ok || !memo.changing[sl.id+c] {
					continue
				}
				f := x.fresh(sl.nm+c, t.S)
				sl, c := sl, c
				locs = append(locs, loc{id: sl.id + c, v: f, entry: t, name: sl.nm + c, phase: memo.consts[sl.id+c],
					get: func(st *State) *Term { return comps(sl.get(st))[c] }})
				v = withComp(v, c, f)
				changed = true
			}
			if changed {
				x.set(h, sl, v)
			}
		}
	}
	// which values change
	saveTouch, saveReads, saveRets := x.touch, x.reads, fr.rets
	var touched, reads []*Term
	nf := copyCounts(x.nfresh)
	for round := 0; ; round++ {
		if round > 40 {
			unsup("loop state does not stabilise in %s", where)
		}
		x.nfresh = copyCounts(nf)
		build()
		x.touch, x.reads, fr.rets = nil, nil, append([]retState(nil), saveRets...)
		x.dry++
		backs, exits := x.region(fr, l, l.header, []edge{{nil, l.header, snapshot(h)}})
		x.dry--
		touched, reads = x.touch, x.reads
		if len(backs) == 0 {
			if x.dry > 0 {
				x.touch = append(saveTouch, touched...)
				x.reads = append(saveReads, reads...)
				return exits
			}
			// never iterates: run it once for real
			x.touch, x.reads = saveTouch, saveReads
			x.nfresh, fr.rets = copyCounts(nf), append([]retState(nil), saveRets...)
			build()
			_, exits = x.region(fr, l, l.header, []edge{{nil, l.header, snapshot(h)}})
			return exits
		}
		bk := x.enter(l.header, backs)
		grown := false
		for _, sl := range slots {
			a, b := sl.get(h), sl.get(bk)
			if eqVal(a, b) {
				continue
			}
			ca, cb := comps(a), comps(b)
			if ca == nil || cb == nil || len(ca) != len(cb) {
				unsup("%s carries a %T", where, a)
			}
			if sa, ok := a.(VSlice); ok {
				sb := b.(VSlice)
				if sa.Base != sb.Base {
					unsup("%s changes which data %s views", where, sl.nm)
				}
			}
			for c, t := range cb {
				if ca[c] != t {
					ph := &phaseInfo{only: true}
					constLeaves(t, ca[c], ph)
					memo.consts[sl.id+c] = ph
				}
				if ca[c] != t && !memo.changing[sl.id+c] {
					memo.changing[sl.id+c] = true
					grown = true
				}
			}
		}
		if !grown {
			if x.dry > 0 {
				x.touch = append(saveTouch, touched...)
				x.reads = append(saveReads, reads...)
				return exits
			}
			break
		}
	}
	x.nfresh, fr.rets = copyCounts(nf), append([]retState(nil), saveRets...)
	build()
	out := x.proveLoop(fr, l, s0, h, locs, memo, where, touched, reads)
	x.touch = append(saveTouch, x.touch...)
	x.reads = append(saveReads, x.reads...)
	return out
}

func copyCounts(m map[string]int) map[string]int {
	r := make(map[string]int, len(m))
	for k, v := range m {
		r[k] = v
	}
	return r
}

func loopPos(l *Loop) string {
	for _, ins := range l.header.Instrs {
		if p := posOf(ins); p != "" {
			return p
		}
	}
	for b := range l.blocks {
		for _, ins := range b.Instrs {
			if p := posOf(ins); p != "" {
				return p
			}
		}
	}
	return "?"
}

// vars of a term
func (x *Exec) hasVar(t *Term, vs map[*Term]bool) (has, pure bool) {
	pure = true
	memo := map[*Term]bool{}
	var f func(t *Term)
	f = func(t *Term) {
		if memo[t] {
			return
		}
		memo[t] = true
		if vs[t] {
			has = true
		}
		if t.Op == "app" {
			pure = false
		}
		for _, a := range t.Args {
			f(a)
		}
	}
	f(t)
	return
}

// inBody reports whether t uses only header variables and values fixed
// before the loop.
func fixedBefore(t *Term, known map[*Term]bool) bool {
	memo := map[*Term]bool{}
	var f func(t *Term) bool
	f = func(t *Term) bool {
		if memo[t] {
			return true
		}
		memo[t] = true
		if t.Op == "var" && strings.Contains(t.Name, "#") && !known[t] {
			return false
		}
		for _, a := range t.Args {
			if !f(a) {
				return false
			}
		}
		return true
	}
	return f(t)
}

func collectVars(t *Term, out map[*Term]bool, seen map[*Term]bool) {
	if seen[t] {
		return
	}
	seen[t] = true
	if t.Op == "var" {
		out[t] = true
	}
	for _, a := range t.Args {
		collectVars(a, out, seen)
	}
}

func (x *Exec) proveLoop(fr *frame, l *Loop, s0, h *State, locs []loc, memo *loopMemo, where string, touched, reads []*Term) []edge {
	B := x.B
	fresh := map[*Term]bool{}
	toEntry := map[*Term]*Term{}
	for _, lc := range locs {
		fresh[lc.v] = true
		toEntry[lc.v] = lc.entry
	}
	known := map[*Term]bool{}
	seen := map[*Term]bool{}
	for _, t := range s0.pc.list() {
		collectVars(t, known, seen)
	}
	for _, lc := range locs {
		known[lc.v] = true
		collectVars(lc.entry, known, seen)
	}
	var cursors []*Term
	addCur := func(t *Term) {
		has, pure := x.hasVar(t, fresh)
		if !has || !pure || t.S != SInt || !fixedBefore(t, known) {
			return
		}
		for _, c := range cursors {
			if c == t {
				return
			}
		}
		cursors = append(cursors, t)
	}
	if x.I != nil {
		for _, t := range touched {
			addCur(t)
		}
	}
	cs := x.candidates(locs, cursors, toEntry, fresh, reads, known)
	ordinal := 0
	for h := range fr.li.loops {
		if h.Index < l.header.Index {
			ordinal++
		}
	}
	hintKey := fmt.Sprintf("%s#%d", x.pathKey(), ordinal)
	if hs, ok := x.hints[hintKey]; ok {
		hm := map[string]bool{}
		for _, h := range hs {
			hm[h] = true
		}
		var keep []cand
		for _, c := range cs {
			if hm[c.label] {
				keep = append(keep, c)
			}
		}
		cs = keep
	}
	// drop what an earlier, stronger context already refuted
	var cands []cand
	for _, c := range cs {
		if !memo.dropped[c.label] && c.t != B.True {
			cands = append(cands, c)
		}
	}
	drop := func(dead map[int]bool) {
		var keep []cand
		for i, c := range cands {
			if dead[i] {
				memo.dropped[c.label] = true
			} else {
				keep = append(keep, c)
			}
		}
		cands = keep
	}
	// Houdini: entry
	for len(cands) > 0 {
		ts := make([]*Term, len(cands))
		for i, c := range cands {
			ts[i] = B.Subst(c.t, toEntry)
		}
		dead := x.refute([]*State{s0}, [][]*Term{ts})
		if len(dead) == 0 {
			break
		}
		drop(dead)
	}
	inv := x.fresh("inv", SBool)
	at := func(st *State) map[*Term]*Term {
		m := map[*Term]*Term{}
		for _, lc := range locs {
			m[lc.v] = lc.get(st)
		}
		return m
	}
	basePC := h.pc
	nfr := copyCounts(x.nfresh)
	obl0, pan0, lp0 := len(x.Obls), len(x.Panics), len(x.Loops)
	rets0 := append([]retState(nil), fr.rets...)
	var cksAll []*State
	for pass := 0; ; pass++ {
		if pass > 30 {
			unsup("invariant search does not finish in %s", where)
		}
		x.nfresh = copyCounts(nfr)
		x.Obls, x.Panics, x.Loops = x.Obls[:obl0], x.Panics[:pan0], x.Loops[:lp0]
		fr.rets = append([]retState(nil), rets0...)
		x.touch, x.reads = nil, nil
		var ct []*Term
		for _, c := range cands {
			ct = append(ct, c.t)
		}
		x.invs[inv] = ct
		h.pc = basePC.push(B, inv)
		// the cursor that must advance by one character between checks
		var cur *Term
		for _, c := range cands {
			if strings.HasPrefix(c.label, "grid ") && cur == nil {
				cur = c.t.Args[0]
			}
		}
		hs := h
		prev := cur
		var exits []edge
		var cks []*State
		unroll := 0
		for j := 1; ; j++ {
			unroll = j
			save := x.iterPath
			x.iterPath = fmt.Sprintf("%s%d.", save, j)
			backs, ex := x.region(fr, l, l.header, []edge{{nil, l.header, snapshot(hs)}})
			x.iterPath = save
			exits = append(exits, ex...)
			if len(backs) == 0 {
				break
			}
			bk := x.enter(l.header, backs)
			if cur == nil || j >= x.MaxK {
				cks = append(cks, bk)
				break
			}
			cn := B.Subst(cur, at(bk))
			cond := B.Eq(cn, x.I.Nx(prev))
			rest := bk.fork(bk.pc.push(B, B.Not(cond)))
			copyOwn(rest, bk)
			if x.unsat(rest.pc) {
				cks = append(cks, bk)
				break
			}
			ck := bk.fork(bk.pc.push(B, cond))
			copyOwn(ck, bk)
			cks = append(cks, ck)
			hs, prev = rest, cn
		}
		// preservation
		changed := false
		for len(cands) > 0 && len(cks) > 0 {
			var tss [][]*Term
			for _, ck := range cks {
				m := at(ck)
				ts := make([]*Term, len(cands))
				for i, c := range cands {
					ts[i] = B.Subst(c.t, m)
				}
				tss = append(tss, ts)
			}
			dead := x.refute(cks, tss)
			if len(dead) == 0 {
				break
			}
			changed = true
			if w := os.Getenv("GOVER_WHY"); w != "" {
				for i := range dead {
					if strings.HasPrefix(cands[i].label, w) {
						for k, ck := range cks {
							x.why(fmt.Sprintf("%s checkpoint %d: %s", where, k, cands[i].label), ck.pc, tss[k][i])
						}
					}
				}
			}
			if debugLoops {
				for i := range dead {
					fmt.Fprintf(os.Stderr, "  %s drop %s\n", where, cands[i].label)
				}
			}
			drop(dead)
			ct = nil
			for _, c := range cands {
				ct = append(ct, c.t)
			}
			x.invs[inv] = ct
		}
		if changed {
			continue
		}
		cksAll = cks
		// termination
		meas := ""
		if len(cks) > 0 {
			meas = x.measure(locs, cursors, h, cks, at, known)
			if meas == "" {
				for _, ck := range cks {
					x.Obls = append(x.Obls, Obl{x.curFn, "safety", where + " terminates", ck.pc, B.False})
				}
			}
		} else {
			meas = "does not iterate"
		}
		var labels []string
		for _, c := range cands {
			labels = append(labels, c.label)
		}
		x.Loops = append(x.Loops, loopReport{Fn: l.header.Parent().String(), Key: hintKey, Where: where, Inv: labels, Unroll: unroll, Measure: meas})
		_ = cksAll
		return exits
	}
}

// snapshot is a copy of st that runs on its own: executing from it leaves st
// as it is.
func snapshot(st *State) *State {
	h := st.fork(st.pc)
	copyOwn(h, st)
	return h
}

func copyOwn(dst, src *State) {
	for k, v := range src.env.own {
		dst.env.own[k] = v
	}
}

// refute returns the candidates that some model falsifies in some state.
func (x *Exec) refute(sts []*State, tss [][]*Term) map[int]bool {
	B := x.B
	var ors []*Term
	var gets []*Term
	for k, st := range sts {
		pc := B.And(st.pc.list()...)
		ors = append(ors, B.And(pc, B.Not(B.And(tss[k]...))))
		gets = append(gets, pc)
		gets = append(gets, tss[k]...)
	}
	goal := B.Or(ors...)
	if goal == B.False {
		return nil
	}
	as := []*Term{goal}
	as = append(as, x.invDefs(as)...)
	as = append(as, x.closure(append(append([]*Term{}, as...), gets...))...)
	// constants are not asked for
	r := x.S.Query(B, as, gets, 0)
	if r.res == "unsat" {
		return nil
	}
	dead := map[int]bool{}
	if r.res == "sat" && r.vals != nil {
		i := 0
		for k := range sts {
			pcv := r.vals[i]
			i++
			for c := range tss[k] {
				if pcv == "true" && r.vals[i] == "false" {
					dead[c] = true
				}
				i++
			}
		}
		if len(dead) > 0 {
			return dead
		}
	}
	// undecided together: try one at a time
	type res struct {
		c  int
		ok bool
	}
	n := len(tss[0])
	ch := make(chan res, n)
	type q struct{ as []*Term }
	qs := make([][]*Term, n)
	for c := 0; c < n; c++ {
		var os []*Term
		for k, st := range sts {
			os = append(os, B.And(B.And(st.pc.list()...), B.Not(tss[k][c])))
		}
		a := []*Term{B.Or(os...)}
		a = append(a, x.invDefs(a)...)
		a = append(a, x.closure(a)...)
		qs[c] = a
	}
	for c := 0; c < n; c++ {
		go func(c int) {
			r := x.S.Query(B, qs[c], nil, 0)
			ch <- res{c, r.res == "unsat"}
		}(c)
	}
	for c := 0; c < n; c++ {
		r := <-ch
		if !r.ok {
			dead[r.c] = true
		}
	}
	return dead
}

// invDefs expands the invariant variables occurring in ts.
func (x *Exec) invDefs(ts []*Term) []*Term {
	vs := map[*Term]bool{}
	seen := map[*Term]bool{}
	var out []*Term
	work := ts
	done := map[*Term]bool{}
	for len(work) > 0 {
		for _, t := range work {
			collectVars(t, vs, seen)
		}
		work = nil
		var keys []*Term
		for v := range vs {
			if _, ok := x.invs[v]; ok && !done[v] {
				keys = append(keys, v)
			}
		}
		sort.Slice(keys, func(i, j int) bool { return keys[i].Name < keys[j].Name })
		for _, v := range keys {
			done[v] = true
			d := x.B.Imp(v, x.B.And(x.invs[v]...))
			out = append(out, d)
			work = append(work, d)
		}
	}
	return out
}

func (x *Exec) closure(ts []*Term) []*Term {
	var out []*Term
	out = append(out, x.Ghost...)
	all := append(append([]*Term{}, ts...), x.Ghost...)
	out = append(out, x.runeFacts(all)...)
	all = append(all, out...)
	if x.I != nil {
		out = append(out, x.I.Closure(all)...)
	}
	return out
}

func (x *Exec) unsat(pc *PC) bool {
	as := pc.list()
	for _, t := range as {
		if t == x.B.False {
			return true
		}
	}
	as = append(as, x.invDefs(as)...)
	as = append(as, x.closure(as)...)
	return x.S.Query(x.B, as, nil, 0).res == "unsat"
}

// valid: pc implies goal.
func (x *Exec) valid(pc *PC, goal *Term) bool {
	return x.unsat(pc.push(x.B, x.B.Not(goal)))
}

// candidates instantiates the invariant templates.
func (x *Exec) candidates(locs []loc, cursors []*Term, toEntry map[*Term]*Term, fresh map[*Term]bool, reads []*Term, known map[*Term]bool) []cand {
	B := x.B
	var out []cand
	add := func(label string, t *Term) { out = append(out, cand{label, t}) }
	entryOf := func(t *Term) *Term { return B.Subst(t, toEntry) }
	name := func(t *Term) string {
		s := B.Str(t)
		for _, lc := range locs {
			s = strings.ReplaceAll(s, lc.v.Name, lc.name)
		}
		return stripCounts(s)
	}
	zero := B.Int(0)
	// bounds: loop-constant lengths
	var bounds []*Term
	addB := func(t *Term) {
		if t.S != SInt || t.IsConst() {
			return
		}
		if has, _ := x.hasVar(t, fresh); has || !fixedBefore(t, known) {
			return
		}
		for _, b := range bounds {
			if b == t {
				return
			}
		}
		bounds = append(bounds, t)
	}
	if x.I != nil {
		addB(x.I.n)
		addB(x.I.N)
	}
	for _, t := range x.lens {
		addB(t)
	}
	for _, c := range cursors {
		nm := name(c)
		add("grid "+nm, x.I.G(c))
		add("within "+nm, B.And(B.Le(x.I.start, c), B.Le(c, x.I.N)))
		if x.I.n != x.I.N {
			add("inprefix "+nm, B.Le(c, x.I.n))
		}
		add("progress "+nm, B.Le(entryOf(c), c))
		if x.I.th.Join != nil {
			add("joined "+nm, x.I.AJ(c))
		}
		add("afterstart "+nm, B.Lt(x.I.start, c))
		for _, F := range x.I.families() {
			for _, lk := range F.th.Looks {
				add("same "+lk.Name+" "+nm, B.Eq(F.Look(lk.Name, c), F.Look(lk.Name, entryOf(c))))
			}
		}
		for _, extra := range x.loopCands {
			extra(c, entryOf(c), nm, add)
		}
	}
	var ints, props, bools, octets []loc
	for _, lc := range locs {
		if lc.v.S == SBV(8) {
			octets = append(octets, lc)
		}
		switch {
		case lc.v.S == SInt:
			ints = append(ints, lc)
		case lc.v.S == SBool:
			bools = append(bools, lc)
		case x.I != nil && lc.v.S == SBV(x.I.pw):
			props = append(props, lc)
		}
	}
	for i, lc := range ints {
		add("nonneg "+lc.name, B.Le(zero, lc.v))
		add("pos "+lc.name, B.Lt(zero, lc.v))
		add("up "+lc.name, B.Le(lc.entry, lc.v))
		add("down "+lc.name, B.Le(lc.v, lc.entry))
		add("atleast-1 "+lc.name, B.Le(B.Int(-1), lc.v))
		for _, b := range bounds {
			add("upto "+lc.name+" "+stripCounts(B.Str(b)), B.Le(lc.v, b))
			add("below "+lc.name+" "+stripCounts(B.Str(b)), B.Lt(lc.v, b))
		}
		for _, c := range cursors {
			if c != lc.v {
				add("behind "+lc.name+" "+name(c), B.Le(lc.v, c))
			}
		}
		for j, lm := range ints {
			if i < j {
				add("equal "+lc.name+" "+lm.name, B.Eq(lc.v, lm.v))
				// the sum or difference is kept
				add("sum "+lc.name+" "+lm.name, B.Eq(B.Add(lc.v, lm.v), B.Add(lc.entry, lm.entry)))
				add("diff "+lc.name+" "+lm.name, B.Eq(B.Sub(lc.v, lm.v), B.Sub(lc.entry, lm.entry)))
			}
		}
	}
	// a value that takes one of a few constants: a phase of the loop
	for _, lc := range locs {
		ph := lc.phase
		if ph == nil || len(ph.ks) == 0 || len(ph.ks) > 8 || lc.v.S == SInt && !ph.only {
			continue
		}
		one := []*Term{B.Eq(lc.v, lc.entry)}
		for _, k := range ph.ks {
			one = append(one, B.Eq(lc.v, k))
		}
		if ph.only {
			add("phases "+lc.name, B.Or(one...))
		}
		for _, c := range cursors {
			atE := B.Eq(c, entryOf(c))
			add("first phase "+lc.name+" "+name(c), B.Or(B.Not(atE), one[0]))
			for i, k := range ph.ks {
				add("later phase "+lc.name+" "+name(c)+" "+B.Str(k), B.Or(atE, one[i+1]))
			}
		}
		for _, b := range bools {
			if b.v == lc.v {
				continue
			}
			for i, k := range ph.ks {
				add("phase "+lc.name+" "+B.Str(k)+" when "+b.name, B.Eq(b.v, one[i+1]))
				add("phase "+lc.name+" "+B.Str(k)+" unless "+b.name, B.Eq(b.v, B.Not(one[i+1])))
			}
		}
	}
	for _, lc := range bools {
		add("kept "+lc.name, B.Eq(lc.v, lc.entry))
	}
	if x.I != nil {
		sel := func(s string) []loc {
			switch s {
			case "prop":
				return props
			case "int":
				return ints
			case "bool":
				return bools
			case "byte":
				return octets
			}
			return nil
		}
		for _, c := range cursors {
			for _, F := range x.I.families() {
				F := F
				for k, iv := range F.th.Invs {
					var rec func(i int, vars map[string]*Term, nm string)
					rec = func(i int, vars map[string]*Term, nm string) {
						if i == len(iv.Vars) {
							m := map[string]*Term{}
							for a, b := range vars {
								m[a] = b
							}
							if (x.I.prime == nil) && strings.Contains(iv.Src, "'") {
								return
							}
							add(fmt.Sprintf(F.pfx+"inv%d%s @%s: %s", k, nm, name(c), iv.E), F.ev(iv.E, ienv{o: c, vars: m, entry: entryOf(c)}))
							return
						}
						for _, lc := range sel(iv.Vars[i].Sort) {
							vars[iv.Vars[i].Name] = lc.v
							rec(i+1, vars, nm+" "+iv.Vars[i].Name+"="+lc.name)
						}
						delete(vars, iv.Vars[i].Name)
					}
					rec(0, map[string]*Term{}, "")
				}
			}
		}
	}
	if x.I != nil && x.I.th.Join != nil && len(cursors) > 0 {
		for _, lc := range locs {
			if lc.v.S == SBool || lc.v.S == SBV(x.I.pw) || lc.phase != nil && len(lc.phase.ks) > 0 {
				x.wideUse = true
			}
		}
		if x.wide {
			x.wideCandidates(append(phaseTests(B, locs, SBV(x.I.pw)), bools...), props, cursors, name, add)
		}
	}
	// rune sets
	seenR := map[*Term]bool{}
	for _, ix := range reads {
		if has, pure := x.hasVar(ix, fresh); !has || !pure || seenR[ix] || !fixedBefore(ix, known) {
			continue
		}
		seenR[ix] = true
		var ns []string
		for n := range x.runeSets {
			ns = append(ns, n)
		}
		sort.Strings(ns)
		for _, n := range ns {
			for _, r := range x.runeVals {
				rc := x.runeSets[n].rc(x, ix, r)
				add("notyet "+n+" "+name(ix)+" "+stripCounts(B.Str(r)), B.Not(rc))
				rs := x.runeSets[n].suffix(x, B.Add(ix, B.Int(1)), r)
				add("notbehind "+n+" "+name(ix)+" "+stripCounts(B.Str(r)), B.Not(rs))
				for _, b := range bools {
					add("behind "+n+" "+b.name+" "+name(ix)+" "+stripCounts(B.Str(r)), B.Eq(b.v, rs))
					add("found "+n+" "+b.name+" "+name(ix)+" "+stripCounts(B.Str(r)), B.Eq(b.v, rc))
				}
			}
		}
	}
	return out
}

// phaseTests: for each value that takes one of a few constants, whether it is
// each of them.
func phaseTests(B *TB, locs []loc, prop Sort) []loc {
	var out []loc
	for _, lc := range locs {
		ph := lc.phase
		if ph == nil || len(ph.ks) == 0 || len(ph.ks) > 5 || lc.v.S == SInt && !ph.only || lc.v.S == SBool || lc.v.S == prop {
			continue
		}
		one := []*Term{B.Eq(lc.v, lc.entry)}
		nm := []string{lc.name + " at entry"}
		for _, k := range ph.ks {
			if k != lc.entry {
				one = append(one, B.Eq(lc.v, k))
				nm = append(nm, lc.name+" "+B.Str(k))
			}
		}
		for i, t := range one {
			out = append(out, loc{v: t, name: nm[i]})
		}
	}
	return out
}

// wideCandidates relates local state to the theory's states in more ways than
// the templates do; it is tried when the templates were not enough.
func (x *Exec) wideCandidates(bools, props []loc, cursors []*Term, name func(*Term) string, add func(string, *Term)) {
	B := x.B
	if len(bools)*len(cursors) > 10 || len(props)*len(cursors) > 16 {
		return
	}
	for _, c := range cursors {
		for _, F := range x.I.families() {
			var masks []string
			for m := range F.th.Masks {
				masks = append(masks, m)
			}
			sort.Strings(masks)
			for _, s := range F.th.States {
				if s.Sort != "prop" {
					continue
				}
				for k, v := range []*Term{F.St(s.Name, c), F.Lag(s.Name, c)} {
					for _, m := range masks {
						is := B.Is(v, B.BV(F.Mask(m), F.pw))
						for _, b := range bools {
							add(fmt.Sprintf("wide %s%s = %s%d is %s @%s", F.pfx, b.name, s.Name, k, m, name(c)), B.Eq(b.v, is))
							add(fmt.Sprintf("wide %s%s = %s%d not %s @%s", F.pfx, b.name, s.Name, k, m, name(c)), B.Eq(b.v, B.Not(is)))
						}
					}
				}
			}
			for _, s := range F.th.States {
				for k, v := range []*Term{F.St(s.Name, c), F.Lag(s.Name, c)} {
					switch s.Sort {
					case "int":
						for lo := int64(0); lo <= 4; lo++ {
							for hi := lo; hi <= 4; hi++ {
								in := B.And(B.Le(B.Int(lo), v), B.Le(v, B.Int(hi)))
								for _, b := range bools {
									add(fmt.Sprintf("wide %s%s = %s%d in %d..%d @%s", F.pfx, b.name, s.Name, k, lo, hi, name(c)), B.Eq(b.v, in))
								}
							}
						}
					case "bool":
						for _, b := range bools {
							add(fmt.Sprintf("wide %s%s = %s%d @%s", F.pfx, b.name, s.Name, k, name(c)), B.Eq(b.v, v))
							add(fmt.Sprintf("wide %s%s = not %s%d @%s", F.pfx, b.name, s.Name, k, name(c)), B.Eq(b.v, B.Not(v)))
							add(fmt.Sprintf("wide %s%s if %s%d @%s", F.pfx, b.name, s.Name, k, name(c)), B.Imp(v, b.v))
							add(fmt.Sprintf("wide %snot %s if %s%d @%s", F.pfx, b.name, s.Name, k, name(c)), B.Imp(v, B.Not(b.v)))
						}
					case "prop":
						for _, b := range bools {
							for _, y := range props {
								add(fmt.Sprintf("wide %s%s = %s%d if %s @%s", F.pfx, y.name, s.Name, k, b.name, name(c)), B.Imp(b.v, B.Eq(y.v, v)))
								add(fmt.Sprintf("wide %s%s = %s%d unless %s @%s", F.pfx, y.name, s.Name, k, b.name, name(c)), B.Or(b.v, B.Eq(y.v, v)))
							}
						}
					}
				}
			}
			for _, g := range F.th.States {
				if g.Sort != "prop" || g.Name != "LP" && g.Name != "LE" {
					continue
				}
				for _, m := range masks {
					is := B.Is(F.St(g.Name, c), B.BV(F.Mask(m), F.pw))
					for _, b := range bools {
						add(fmt.Sprintf("wide %s%s if %s is %s @%s", F.pfx, b.name, g.Name, m, name(c)), B.Imp(is, b.v))
						add(fmt.Sprintf("wide %snot %s if %s is %s @%s", F.pfx, b.name, g.Name, m, name(c)), B.Imp(is, B.Not(b.v)))
					}
					for _, s := range F.th.States {
						if s.Sort == "bool" {
							v := F.St(s.Name, c)
							for _, b := range bools {
								add(fmt.Sprintf("wide %s%s = %s if %s is %s @%s", F.pfx, b.name, s.Name, g.Name, m, name(c)), B.Imp(is, B.Eq(b.v, v)))
								add(fmt.Sprintf("wide %s%s = %s unless %s is %s @%s", F.pfx, b.name, s.Name, g.Name, m, name(c)), B.Or(is, B.Eq(b.v, v)))
								add(fmt.Sprintf("wide %s%s = not %s if %s is %s @%s", F.pfx, b.name, s.Name, g.Name, m, name(c)), B.Imp(is, B.Eq(b.v, B.Not(v))))
								add(fmt.Sprintf("wide %s%s = not %s unless %s is %s @%s", F.pfx, b.name, s.Name, g.Name, m, name(c)), B.Or(is, B.Eq(b.v, B.Not(v))))
							}
						}
						if s.Sort != "prop" {
							continue
						}
						for _, y := range props {
							if len(F.th.Masks[m]) == 1 {
								break
							}
							eq := B.Eq(y.v, F.St(s.Name, c))
							add(fmt.Sprintf("wide %s%s = %s if %s is %s @%s", F.pfx, y.name, s.Name, g.Name, m, name(c)), B.Imp(is, eq))
							add(fmt.Sprintf("wide %s%s = %s unless %s is %s @%s", F.pfx, y.name, s.Name, g.Name, m, name(c)), B.Or(is, eq))
						}
					}
				}
			}
		}
	}
}

func stripCounts(s string) string {
	var sb strings.Builder
	for i := 0; i < len(s); i++ {
		if s[i] == '#' {
			for i+1 < len(s) && s[i+1] >= '0' && s[i+1] <= '9' {
				i++
			}
			continue
		}
		sb.WriteByte(s[i])
	}
	return sb.String()
}

// measure finds a bounded quantity that strictly moves between checks.
func (x *Exec) measure(locs []loc, cursors []*Term, h *State, cks []*State, at func(*State) map[*Term]*Term, known map[*Term]bool) string {
	B := x.B
	var ms []*Term
	ms = append(ms, cursors...)
	for _, lc := range locs {
		if lc.v.S == SInt {
			ms = append(ms, lc.v)
		}
	}
	var ups []*Term
	if x.I != nil {
		ups = append(ups, x.I.n, x.I.N)
	}
	for _, t := range x.lens {
		if fixedBefore(t, known) {
			ups = append(ups, t)
		}
	}
	all := func(f func(ck *State) *Term) bool {
		for _, ck := range cks {
			if !x.valid(ck.pc, f(ck)) {
				return false
			}
		}
		return true
	}
	for _, m := range ms {
		mv := func(ck *State) *Term { return B.Subst(m, at(ck)) }
		if all(func(ck *State) *Term { return B.Lt(m, mv(ck)) }) {
			for _, u := range ups {
				if all(func(ck *State) *Term { return B.Le(m, u) }) {
					return stripCounts(B.Str(m)) + " rises to " + B.Str(u)
				}
			}
			continue
		}
		if all(func(ck *State) *Term { return B.And(B.Lt(mv(ck), m), B.Le(B.Int(0), m)) }) {
			return stripCounts(B.Str(m)) + " falls to 0"
		}
	}
	return ""
}

var _ = types.Identical

// why prints a model of pc and not t (debugging).
func (x *Exec) why(label string, pc *PC, t *Term) {
	as := append(pc.list(), x.B.Not(t))
	as = append(as, x.invDefs(as)...)
	as = append(as, x.closure(as)...)
	var gets []*Term
	seen := map[*Term]bool{}
	var f func(t *Term)
	f = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		for _, a := range t.Args {
			f(a)
		}
		if t.Op == "var" || t.Op == "app" {
			gets = append(gets, t)
			for _, a := range t.Args {
				if a.Op != "var" && a.Op != "app" {
					gets = append(gets, a)
				}
			}
		}
	}
	for _, a := range as {
		f(a)
	}
	gets = append(gets, pc.list()...)
	r := x.S.Query(x.B, as, gets, 0)
	fmt.Fprintln(os.Stderr, "WHY", label, r.res)
	if r.res != "sat" {
		return
	}
	done := map[string]bool{}
	for i, g := range gets {
		v := r.vals[i]
		if g.S.K == 'V' && x.I != nil && strings.HasPrefix(v, "#x") {
			var u uint64
			fmt.Sscanf(v[2:], "%x", &u)
			var ns []string
			for n, b := range x.I.bits {
				if u&b != 0 {
					ns = append(ns, n)
				}
			}
			sort.Strings(ns)
			v += " " + strings.Join(ns, "|")
		}
		l := fmt.Sprintf("    %s = %s", trunc(x.B.Str(g), 160), v)
		if !done[l] {
			done[l] = true
			fmt.Fprintln(os.Stderr, l)
		}
	}
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}
