package main

// The property lookup (C14). Its input is a byte sequence of unknown length
// and content, of which it can only look at a few bytes: the function's SSA is
// executed with lazily decided bytes and length, following every alternative,
// so the leaves together cover every input. At each leaf the result is
// compared with contracts/tables through the same lazily decided input.
// Table contents come from the package initialiser's constants.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"

	"verif/gover/spec"
)

type lkKind uint8

const (
	lkInt   lkKind = iota
	lkByte         // byte i of the data, undecided within its interval
	lkLen          // length + v
	lkSlice        // data[v:w], w = -1 for open
	lkElem         // address of data[v]
	lkTab          // table
	lkCell         // address of table[v]
	lkTuple        // also a struct
	lkVar          // address of a local variable x.tu[0]
	lkFld          // address of field v of the local variable x.tu[0]
)

type lkVal struct {
	k    lkKind
	v, w int64
	x    *lkAgg
}

type lkAgg struct {
	tab []uint64
	nf  int64 // fields per element, for a table of structs
	tu  []lkVal
}

type lkFail struct{ cat, msg string }

// A compiled function: every operand is a slot of the frame (>= 0) or a
// constant (-1-i).
type lkFn struct {
	n      int
	blocks map[*ssa.BasicBlock]*lkBlock
	entry  *lkBlock
	free   [][]lkVal
}

type lkBlock struct {
	b     *ssa.BasicBlock
	preds []*lkBlock
	succs []*lkBlock
	phis  []lkIns
	ins   []lkIns
}

type lkIns struct {
	ins ssa.Instruction
	dst int
	ops []int32
	typ *lkType
}

// the integer type of an instruction's first operand and of its result
type lkType struct {
	isInt, us  bool // of the first operand
	w          int  // of the result: 0 for int and bool
	signed, ok bool
	isI        bool
}

type lkVM struct {
	P     *Program
	fns   map[*ssa.Function]*lkFn
	tabs  map[*ssa.Global]*lkAgg
	pool  []lkVal
	tu    lkAgg
	tuv   [4]lkVal
	blo   [8]int64
	bhi   [8]int64
	llo   int64
	lhi   int64
	ch    []lkChoice
	pos   int
	fuel  int
	depth int
	first int64
	std   bool // the functions of a standard library package
}

type lkChoice struct{ n, cur int64 }

func (m *lkVM) choose(n int64) int64 {
	if m.pos < len(m.ch) {
		c := m.ch[m.pos].cur
		m.pos++
		return c
	}
	m.ch = append(m.ch, lkChoice{n, 0})
	m.pos++
	return 0
}

// longer decides whether the length is greater than i.
func (m *lkVM) longer(i int64) bool {
	if m.llo > i {
		return true
	}
	if m.lhi <= i {
		return false
	}
	if m.choose(2) == 0 {
		m.lhi = i
		return false
	}
	m.llo = i + 1
	return true
}

// atMost decides whether byte i is at most c.
func (m *lkVM) atMost(i, c int64) bool {
	if m.bhi[i] <= c {
		return true
	}
	if m.blo[i] > c {
		return false
	}
	if m.choose(2) == 0 {
		m.bhi[i] = c
		return true
	}
	m.blo[i] = c + 1
	return false
}

func (m *lkVM) byteAt(i int64) int64 {
	if m.blo[i] == m.bhi[i] {
		return m.blo[i]
	}
	v := m.blo[i] + m.choose(m.bhi[i]-m.blo[i]+1)
	m.blo[i], m.bhi[i] = v, v
	return v
}

func (m *lkVM) index(i int64, where string) lkVal {
	if i < 0 || !m.longer(i) {
		panic(lkFail{"safety", "reads byte " + fmt.Sprint(i) + " past the end of the data " + where})
	}
	if i >= int64(len(m.blo)) {
		unsup("the lookup reads byte %d", i)
	}
	return lkVal{k: lkByte, v: i}
}

// int value of v
func (m *lkVM) num(v lkVal) int64 {
	switch v.k {
	case lkInt:
		return v.v
	case lkByte:
		return m.byteAt(v.v)
	case lkLen:
		if m.llo == m.lhi {
			return m.llo + v.v
		}
		unsup("the lookup computes with the length of the data")
	}
	unsup("lookup value of kind %d", v.k)
	return 0
}

func lkTypeOf(t types.Type) *lkType {
	s, signed, ok := scalarSort(t)
	r := &lkType{ok: ok, signed: signed, isI: s.K == 'I'}
	if ok && s.K == 'V' {
		r.w = s.W
	}
	return r
}

func (t *lkType) trunc(v int64) int64 {
	switch {
	case t.w == 8 && t.signed:
		return int64(int8(v))
	case t.w == 8:
		return int64(uint8(v))
	case t.w == 16 && t.signed:
		return int64(int16(v))
	case t.w == 16:
		return int64(uint16(v))
	case t.w == 32 && t.signed:
		return int64(int32(v))
	case t.w == 32:
		return int64(uint32(v))
	}
	return v
}

func b2i(b bool) int64 {
	if b {
		return 1
	}
	return 0
}

func (m *lkVM) fnOf(f *ssa.Function) *lkFn {
	if r := m.fns[f]; r != nil {
		return r
	}
	if f.Blocks == nil || (f.Pkg != nil && !m.std && !strings.HasPrefix(f.Pkg.Pkg.Path(), modPath)) {
		unsup("the lookup calls %s", f)
	}
	r := &lkFn{blocks: map[*ssa.BasicBlock]*lkBlock{}}
	slot := map[ssa.Value]int{}
	for _, p := range f.Params {
		slot[p] = r.n
		r.n++
	}
	for _, b := range f.Blocks {
		r.blocks[b] = &lkBlock{b: b}
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				slot[v] = r.n
				r.n++
			}
		}
	}
	r.entry = r.blocks[f.Blocks[0]]
	for _, b := range f.Blocks {
		lb := r.blocks[b]
		for _, p := range b.Preds {
			lb.preds = append(lb.preds, r.blocks[p])
		}
		for _, p := range b.Succs {
			lb.succs = append(lb.succs, r.blocks[p])
		}
		for _, i := range b.Instrs {
			if _, ok := i.(*ssa.DebugRef); ok {
				continue
			}
			li := lkIns{ins: i, dst: -1}
			if v, ok := i.(ssa.Value); ok {
				li.dst = slot[v]
				if _, isCall := i.(*ssa.Call); !isCall {
					li.typ = lkTypeOf(v.Type())
				}
			}
			if x, ok := i.(*ssa.BinOp); ok {
				t := lkTypeOf(x.X.Type())
				li.typ.isInt = t.ok
				li.typ.us = t.w > 0 && !t.signed
			}
			for _, op := range i.Operands(nil) {
				if *op == nil {
					li.ops = append(li.ops, 0)
				} else if n, ok := slot[*op]; ok {
					li.ops = append(li.ops, int32(n))
				} else {
					li.ops = append(li.ops, int32(-1-len(m.pool)))
					m.pool = append(m.pool, m.constant(*op))
				}
			}
			if _, ok := i.(*ssa.Phi); ok {
				lb.phis = append(lb.phis, li)
			} else {
				lb.ins = append(lb.ins, li)
			}
		}
	}
	m.fns[f] = r
	return r
}

// table reads the constant contents of a package-level array.
func (P *Program) table(g *ssa.Global) []uint64 {
	P.tmu.Lock()
	defer P.tmu.Unlock()
	if t, ok := P.tables[g]; ok {
		return t
	}
	t := P.readTable(g)
	if P.tables == nil {
		P.tables = map[*ssa.Global][]uint64{}
	}
	P.tables[g] = t
	return t
}

func (P *Program) readTable(g *ssa.Global) []uint64 {
	gi := P.globalInfo(g)
	if gi.Bad != "" {
		unsup("table %s: %s", g, gi.Bad)
	}
	at, ok := g.Type().(*types.Pointer).Elem().Underlying().(*types.Array)
	if !ok {
		unsup("%s is not an array", g)
	}
	nf := tableFields(at)
	if nf < 0 {
		unsup("%s is not an array of integers", g)
	}
	out := make([]uint64, at.Len()*max(nf, 1))
	for _, s := range gi.Stores {
		if s.Addr == ssa.Value(g) {
			// the whole array, built in a local first
			ld, ok := s.Val.(*ssa.UnOp)
			if !ok || ld.Op != token.MUL {
				unsup("initialiser of %s: %s", g, s)
			}
			al, ok := ld.X.(*ssa.Alloc)
			if !ok {
				unsup("initialiser of %s: %s", g, s)
			}
			for i := range out {
				out[i] = 0
			}
			for _, r := range *al.Referrers() {
				switch r := r.(type) {
				case *ssa.DebugRef:
				case *ssa.UnOp:
					if r != ld {
						unsup("initialiser of %s: %s", g, r)
					}
				case *ssa.IndexAddr:
					for _, u := range *r.Referrers() {
						if _, ok := u.(*ssa.DebugRef); ok {
							continue
						}
						if fa, ok := u.(*ssa.FieldAddr); ok && nf > 0 {
							for _, u := range *fa.Referrers() {
								st, ok := u.(*ssa.Store)
								if !ok || st.Addr != ssa.Value(fa) || st.Block() != ld.Block() {
									unsup("initialiser of %s: %s", g, u)
								}
								setConst(out, g, r, st, nf, int64(fa.Field))
							}
							continue
						}
						st, ok := u.(*ssa.Store)
						if !ok || st.Addr != ssa.Value(r) || st.Block() != ld.Block() {
							unsup("initialiser of %s: %s", g, u)
						}
						if nf > 0 {
							setStruct(out, g, r, st, nf)
							continue
						}
						setConst(out, g, r, st, 1, 0)
					}
				default:
					unsup("initialiser of %s: %s", g, r)
				}
			}
			continue
		}
		ia, ok := s.Addr.(*ssa.IndexAddr)
		if !ok || nf > 0 || ia.X != ssa.Value(g) {
			unsup("initialiser of %s: %s", g, s)
		}
		setConst(out, g, ia, s, 1, 0)
	}
	return out
}

// tableFields: 0 for an array of integers, n for an array of structs of n
// integers, -1 for anything else.
func tableFields(at *types.Array) int64 {
	isInt := func(t types.Type) bool {
		s, _, ok := scalarSort(t)
		return ok && s.K != 'B'
	}
	if isInt(at.Elem()) {
		return 0
	}
	st, ok := at.Elem().Underlying().(*types.Struct)
	if !ok || st.NumFields() == 0 {
		return -1
	}
	for i := 0; i < st.NumFields(); i++ {
		if !isInt(st.Field(i).Type()) {
			return -1
		}
	}
	return int64(st.NumFields())
}

func setConst(out []uint64, g *ssa.Global, ia *ssa.IndexAddr, s *ssa.Store, stride, field int64) {
	ic, ok1 := ia.Index.(*ssa.Const)
	vc, ok2 := s.Val.(*ssa.Const)
	if !ok1 || !ok2 {
		unsup("initialiser of %s: %s", g, s)
	}
	u, ok := constant.Uint64Val(constant.ToInt(vc.Value))
	if !ok {
		unsup("initialiser of %s: %s %v", g, s, vc.Value)
	}
	out[ic.Int64()*stride+field] = u
}

// setStruct: a whole element, built in a local first.
func setStruct(out []uint64, g *ssa.Global, ia *ssa.IndexAddr, s *ssa.Store, nf int64) {
	ld, ok := s.Val.(*ssa.UnOp)
	if !ok || ld.Op != token.MUL || ld.Block() != s.Block() {
		unsup("initialiser of %s: %s", g, s)
	}
	al, ok := ld.X.(*ssa.Alloc)
	if !ok {
		unsup("initialiser of %s: %s", g, s)
	}
	for _, r := range *al.Referrers() {
		switch r := r.(type) {
		case *ssa.DebugRef:
		case *ssa.UnOp:
			if r != ld {
				unsup("initialiser of %s: %s", g, r)
			}
		case *ssa.FieldAddr:
			for _, u := range *r.Referrers() {
				st, ok := u.(*ssa.Store)
				if !ok || st.Addr != ssa.Value(r) || st.Block() != ld.Block() {
					unsup("initialiser of %s: %s", g, u)
				}
				setConst(out, g, ia, st, nf, int64(r.Field))
			}
		default:
			unsup("initialiser of %s: %s", g, r)
		}
	}
}

func (m *lkVM) constant(v ssa.Value) (r lkVal) {
	switch c := v.(type) {
	case *ssa.Const:
		if c.Value == nil {
			if _, _, ok := scalarSort(c.Type()); !ok {
				unsup("constant %s", c)
			}
		} else if c.Value.Kind() == constant.Bool {
			r.v = b2i(constant.BoolVal(c.Value))
		} else if c.Value.Kind() == constant.String && constant.StringVal(c.Value) == "" {
			r = lkVal{k: lkSlice, x: &lkAgg{}}
		} else {
			i, ok := constant.Int64Val(constant.ToInt(c.Value))
			if !ok {
				u, ok := constant.Uint64Val(constant.ToInt(c.Value))
				if !ok {
					unsup("constant %s", c)
				}
				i = int64(u)
			}
			r.v = i
		}
		return r
	case *ssa.Global:
		if _, ok := m.tabs[c]; !ok {
			t := m.P.table(c)
			m.tabs[c] = &lkAgg{tab: t, nf: tableFields(c.Type().(*types.Pointer).Elem().Underlying().(*types.Array))}
		}
		return lkVal{k: lkTab, x: m.tabs[c]}
	case *ssa.Function, *ssa.Builtin:
		return lkVal{k: lkTuple} // a callee
	}
	unsup("the lookup uses %s", v)
	return
}

func (m *lkVM) get(fr []lkVal, op int32) *lkVal {
	if op >= 0 {
		return &fr[op]
	}
	return &m.pool[-1-op]
}

func (m *lkVM) call(fn *ssa.Function, args []lkVal) lkVal {
	f := m.fns[fn]
	if f == nil {
		f = m.fnOf(fn)
	}
	if m.depth > 10 {
		unsup("the lookup recurses")
	}
	m.depth++
	var fr []lkVal
	if n := len(f.free); n > 0 {
		fr = f.free[n-1]
		f.free = f.free[:n-1]
	} else {
		fr = make([]lkVal, f.n)
	}
	copy(fr, args)
	var prev *lkBlock
	b := f.entry
	for {
		if m.fuel -= len(b.ins) + 1; m.fuel < 0 {
			panic(lkFail{"safety", "does not terminate"})
		}
		if len(b.phis) > 0 {
			k := -1
			for i, p := range b.preds {
				if p == prev {
					k = i
					break
				}
			}
			var buf [16]lkVal
			phis := buf[:0]
			for i := range b.phis {
				phis = append(phis, *m.get(fr, b.phis[i].ops[k]))
			}
			for i := range b.phis {
				fr[b.phis[i].dst] = phis[i]
			}
		}
		var next *lkBlock
		for i := range b.ins {
			li := &b.ins[i]
			switch in := li.ins.(type) {
			case *ssa.Jump:
				next = b.succs[0]
			case *ssa.If:
				if m.num(*m.get(fr, li.ops[0])) != 0 {
					next = b.succs[0]
				} else {
					next = b.succs[1]
				}
			case *ssa.Return:
				m.depth--
				f.free = append(f.free, fr)
				if len(li.ops) == 1 {
					return *m.get(fr, li.ops[0])
				}
				if m.depth == 0 && len(li.ops) <= len(m.tuv) {
					// the result itself: no allocation
					m.tu.tu = m.tuv[:len(li.ops)]
					for i, o := range li.ops {
						m.tu.tu[i] = *m.get(fr, o)
					}
					return lkVal{k: lkTuple, x: &m.tu}
				}
				t := make([]lkVal, len(li.ops))
				for i, o := range li.ops {
					t[i] = *m.get(fr, o)
				}
				return lkVal{k: lkTuple, x: &lkAgg{tu: t}}
			case *ssa.Panic:
				panic(lkFail{"safety", "panics at " + posOf(in)})
			case *ssa.Store:
				a, v := *m.get(fr, li.ops[0]), *m.get(fr, li.ops[1])
				switch a.k {
				case lkVar:
					a.x.tu[0] = v
				case lkFld:
					s := append([]lkVal{}, a.x.tu[0].x.tu...)
					s[a.v] = v
					a.x.tu[0] = lkVal{k: lkTuple, x: &lkAgg{tu: s}}
				default:
					unsup("the lookup does %s", li.ins)
				}
			default:
				if li.dst < 0 {
					unsup("the lookup does %s", li.ins)
				}
				fr[li.dst] = m.step(fr, li)
			}
		}
		prev, b = b, next
		if b == nil {
			unsup("the lookup's control flow")
		}
	}
}

func (m *lkVM) step(fr []lkVal, li *lkIns) lkVal {
	op := func(i int) lkVal { return *m.get(fr, li.ops[i]) }
	switch in := li.ins.(type) {
	case *ssa.ChangeType:
		return op(0)
	case *ssa.Extract:
		return op(0).x.tu[in.Index]
	case *ssa.Convert:
		x := op(0)
		if x.k == lkSlice {
			unsup("the lookup copies the data")
		}
		if !li.typ.ok || !li.typ.isI && li.typ.w == 0 {
			unsup("conversion to %s", in.Type())
		}
		if x.k == lkByte || x.k == lkLen { // widening keeps the value
			if li.typ.isI || x.k == lkByte && (li.typ.w > 8 || !li.typ.signed) {
				return x
			}
		}
		return lkVal{v: li.typ.trunc(m.num(x))}
	case *ssa.UnOp:
		x := op(0)
		switch in.Op {
		case token.MUL:
			switch x.k {
			case lkElem:
				return m.index(x.v, posOf(in))
			case lkCell:
				if n := x.x.nf; n > 0 && x.w == 0 { // a whole element
					var t []lkVal
					for i := int64(0); i < n; i++ {
						t = append(t, lkVal{v: int64(x.x.tab[x.v+i])})
					}
					return lkVal{k: lkTuple, x: &lkAgg{tu: t}}
				}
				return lkVal{v: int64(x.x.tab[x.v])}
			case lkVar:
				return x.x.tu[0]
			case lkFld:
				return x.x.tu[0].x.tu[x.v]
			case lkTab:
				return x
			}
			unsup("load at %s", posOf(in))
		case token.NOT:
			return lkVal{v: 1 - m.num(x)}
		case token.SUB:
			return lkVal{v: li.typ.trunc(-m.num(x))}
		case token.XOR:
			return lkVal{v: li.typ.trunc(^m.num(x))}
		}
	case *ssa.BinOp:
		return m.binop(op(0), op(1), li, in)
	case *ssa.IndexAddr:
		x := op(0)
		if x.k == lkSlice {
			return lkVal{k: lkElem, v: m.sliceIndex(x, op(1))}
		}
		if x.k == lkTab {
			i, n := m.num(op(1)), max(x.x.nf, 1)
			if i < 0 || i >= int64(len(x.x.tab))/n {
				panic(lkFail{"safety", fmt.Sprintf("index %d outside a table of %d at %s", i, int64(len(x.x.tab))/n, posOf(in))})
			}
			return lkVal{k: lkCell, x: x.x, v: i * n}
		}
	case *ssa.Alloc:
		z := lkVal{}
		switch t := in.Type().(*types.Pointer).Elem().Underlying().(type) {
		case *types.Basic:
		case *types.Struct:
			f := make([]lkVal, t.NumFields())
			for i := range f {
				if _, _, ok := scalarSort(t.Field(i).Type()); !ok {
					unsup("variable at %s", posOf(in))
				}
			}
			z = lkVal{k: lkTuple, x: &lkAgg{tu: f}}
		default:
			unsup("variable at %s", posOf(in))
		}
		return lkVal{k: lkVar, x: &lkAgg{tu: []lkVal{z}}}
	case *ssa.FieldAddr:
		switch x := op(0); x.k {
		case lkVar:
			return lkVal{k: lkFld, x: x.x, v: int64(in.Field)}
		case lkCell:
			return lkVal{k: lkCell, x: x.x, v: x.v + int64(in.Field), w: 1}
		}
	case *ssa.Field:
		return op(0).x.tu[in.Field]
	case *ssa.Index:
		x := op(0)
		if x.k == lkSlice {
			return m.index(m.sliceIndex(x, op(1)), posOf(in))
		}
		if x.k == lkTab {
			i := m.num(op(1))
			if x.x.nf > 0 {
				unsup("element at %s", posOf(in))
			}
			if i < 0 || i >= int64(len(x.x.tab)) {
				panic(lkFail{"safety", fmt.Sprintf("index %d outside a table of %d at %s", i, len(x.x.tab), posOf(in))})
			}
			return lkVal{v: int64(x.x.tab[i])}
		}
	case *ssa.Lookup:
		x := op(0)
		if x.k == lkSlice {
			return m.index(m.sliceIndex(x, op(1)), posOf(in))
		}
	case *ssa.Slice:
		x := op(0)
		if x.k == lkTab && in.Low == nil && in.High == nil {
			return x
		}
		if x.k != lkSlice || in.Max != nil {
			unsup("slice at %s", posOf(in))
		}
		r := x
		if in.Low != nil {
			r.v = x.v + m.num(op(1))
		}
		if in.High != nil {
			h := op(2)
			if h.k == lkLen {
				if x.w >= 0 || h.v != -x.v {
					unsup("slice at %s", posOf(in))
				}
			} else {
				r.w = x.v + m.num(h)
			}
		}
		// bounds
		if r.v < x.v || r.w >= 0 && r.v > r.w || x.w >= 0 && (r.w > x.w || r.v > x.w) {
			panic(lkFail{"safety", "slice out of bounds at " + posOf(in)})
		}
		need := r.v
		if r.w > need {
			need = r.w
		}
		if x.w < 0 && need > 0 && !m.longer(need-1) {
			panic(lkFail{"safety", "slice past the end of the data at " + posOf(in)})
		}
		return r
	case *ssa.Call:
		if in.Call.IsInvoke() {
			unsup("interface call at %s", posOf(in))
		}
		var buf [8]lkVal
		args := buf[:0]
		for _, o := range li.ops[1:] {
			args = append(args, *m.get(fr, o))
		}
		if bi, ok := in.Call.Value.(*ssa.Builtin); ok {
			switch bi.Name() {
			case "len":
				switch x := args[0]; {
				case x.k == lkSlice && x.w >= 0:
					return lkVal{v: x.w - x.v}
				case x.k == lkSlice:
					return lkVal{k: lkLen, v: -x.v}
				case x.k == lkTab:
					return lkVal{v: int64(len(x.x.tab)) / max(x.x.nf, 1)}
				}
			case "min", "max":
				r := m.num(args[0])
				for _, a := range args[1:] {
					n := m.num(a)
					if (bi.Name() == "min") == (n < r) {
						r = n
					}
				}
				return lkVal{v: r}
			}
			unsup("%s at %s", bi.Name(), posOf(in))
		}
		fn := in.Call.StaticCallee()
		if fn == nil {
			unsup("call at %s", posOf(in))
		}
		return m.call(fn, args)
	}
	unsup("the lookup does %s", li.ins)
	return lkVal{}
}

// sliceIndex is the absolute offset of s[i].
func (m *lkVM) sliceIndex(s, i lkVal) int64 {
	if i.k == lkLen {
		unsup("the lookup indexes from the end of the data")
	}
	n := m.num(i)
	if n < 0 || s.w >= 0 && s.v+n >= s.w {
		panic(lkFail{"safety", "index out of range"})
	}
	return s.v + n
}

var lkSwap = map[token.Token]token.Token{token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ, token.EQL: token.EQL, token.NEQ: token.NEQ}

func (m *lkVM) binop(a, b lkVal, li *lkIns, in *ssa.BinOp) lkVal {
	op := in.Op
	if a.k == lkSlice && b.k == lkSlice && b.x != nil && (op == token.EQL || op == token.NEQ) { // with ""
		e := a.w == a.v
		if a.w < 0 {
			e = !m.longer(a.v)
		}
		return lkVal{v: b2i(e == (op == token.EQL))}
	}
	// comparisons keep bytes and the length undecided
	if a.k == lkInt && (b.k == lkByte || b.k == lkLen) {
		if s, ok := lkSwap[op]; ok {
			a, b, op = b, a, s
		}
	}
	if (a.k == lkByte || a.k == lkLen) && b.k == lkInt {
		le := func(c int64) bool { // a <= c
			if a.k == lkByte {
				return m.atMost(a.v, c)
			}
			return !m.longer(c - a.v)
		}
		switch op {
		case token.LEQ:
			return lkVal{v: b2i(le(b.v))}
		case token.LSS:
			return lkVal{v: b2i(le(b.v - 1))}
		case token.GTR:
			return lkVal{v: b2i(!le(b.v))}
		case token.GEQ:
			return lkVal{v: b2i(!le(b.v - 1))}
		case token.EQL:
			return lkVal{v: b2i(le(b.v) && !le(b.v-1))}
		case token.NEQ:
			return lkVal{v: b2i(!(le(b.v) && !le(b.v-1)))}
		case token.ADD:
			if a.k == lkLen {
				return lkVal{k: lkLen, v: a.v + b.v}
			}
		case token.SUB:
			if a.k == lkLen && b.v < 1<<40 {
				return lkVal{k: lkLen, v: a.v - b.v}
			}
		}
	}
	if !li.typ.isInt {
		unsup("operation at %s", posOf(in))
	}
	if op != in.Op { // swapped above, to no avail
		a, b = b, a
	}
	p, q := m.num(a), m.num(b)
	us := li.typ.us
	less := func(x, y int64) bool {
		if us {
			return uint64(x) < uint64(y)
		}
		return x < y
	}
	switch in.Op {
	case token.EQL:
		return lkVal{v: b2i(p == q)}
	case token.NEQ:
		return lkVal{v: b2i(p != q)}
	case token.LSS:
		return lkVal{v: b2i(less(p, q))}
	case token.LEQ:
		return lkVal{v: b2i(!less(q, p))}
	case token.GTR:
		return lkVal{v: b2i(less(q, p))}
	case token.GEQ:
		return lkVal{v: b2i(!less(p, q))}
	}
	var r int64
	switch in.Op {
	case token.ADD:
		r = p + q
	case token.SUB:
		r = p - q
	case token.MUL:
		r = p * q
	case token.AND:
		r = p & q
	case token.OR:
		r = p | q
	case token.XOR:
		r = p ^ q
	case token.AND_NOT:
		r = p &^ q
	case token.SHL, token.SHR:
		if q < 0 || q > 63 {
			unsup("shift at %s", posOf(in))
		}
		switch {
		case in.Op == token.SHL:
			r = p << uint(q)
		case us:
			r = int64(uint64(p) >> uint(q))
		default:
			r = p >> uint(q)
		}
	case token.QUO, token.REM:
		if q == 0 {
			panic(lkFail{"safety", "division by zero"})
		}
		switch {
		case us && in.Op == token.QUO:
			r = int64(uint64(p) / uint64(q))
		case us:
			r = int64(uint64(p) % uint64(q))
		case in.Op == token.QUO:
			r = p / q
		default:
			r = p % q
		}
	default:
		unsup("operator %s", in.Op)
	}
	return lkVal{v: li.typ.trunc(r)}
}

// lookupShape: (T) -> (property set, width)
func lookupShape(s *types.Signature) bool {
	if s.Params().Len() != 1 || s.Results().Len() != 2 || s.Recv() != nil {
		return false
	}
	if t := s.Params().At(0).Type(); !(isStringT(t) || isBytesT(t)) {
		return false
	}
	a, sg, ok1 := scalarSort(s.Results().At(0).Type())
	b, _, ok2 := scalarSort(s.Results().At(1).Type())
	return ok1 && ok2 && a.K == 'V' && !sg && b.K == 'I'
}

// lookups are the functions of a package with that shape, one per type
// argument.
func (c *Ctx) lookups(pkg string) []*ssa.Function {
	var out []*ssa.Function
	for f := range c.P.Funcs {
		if relPkg(f) != pkg || f.Blocks == nil || f.Parent() != nil || !lookupShape(f.Signature) {
			continue
		}
		if strings.HasPrefix(f.Name(), "verif") {
			continue
		}
		skip := false
		for _, t := range f.TypeArgs() {
			if _, ok := t.(*types.TypeParam); ok {
				skip = true
			}
		}
		if !skip {
			out = append(out, f)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

type lkOut struct {
	leaves  int64
	scalars int64
	fails   map[string][]string // by obligation
	err     string
}

var lkObls = []struct{ cat, name string }{
	{"safety", "reads nothing outside the data or the tables, does not panic, terminates"},
	{"safety", "the width is between 1 and the announced length, or 0"},
	{"width", "truncated encodings have width 0, others the width of the encoding"},
	{"table", "every scalar value has exactly its Unicode 17 properties"},
	{"prereq", "malformed encodings have no properties and the width up to the fault"},
}

// runLookup covers the inputs whose first byte is b0.
func (c *Ctx) runLookup(f *ssa.Function, b0 int, tab *spec.Table, conv func(uint32) uint64, out *lkOut) {
	m := &lkVM{P: c.P, fns: map[*ssa.Function]*lkFn{}, tabs: map[*ssa.Global]*lkAgg{}}
	defer func() {
		if r := recover(); r != nil {
			e, ok := r.(unsupported)
			if !ok {
				panic(r)
			}
			out.err = e.msg
		}
	}()
	fail := func(i int, msg string) {
		n := lkObls[i].name
		if len(out.fails[n]) < 5 {
			out.fails[n] = append(out.fails[n], msg)
		}
	}
	for {
		for i := range m.blo {
			m.blo[i], m.bhi[i] = 0, 255
		}
		m.blo[0], m.bhi[0] = int64(b0), int64(b0)
		m.llo, m.lhi, m.pos, m.fuel, m.depth = 1, maxInt, 0, 100000, 0
		c.lookupLeaf(m, f, tab, conv, fail, out)
		out.leaves++
		if out.leaves > 20_000_000 {
			unsup("the lookup has too many paths")
		}
		// next
		for len(m.ch) > 0 && m.ch[len(m.ch)-1].cur+1 >= m.ch[len(m.ch)-1].n {
			m.ch = m.ch[:len(m.ch)-1]
		}
		if len(m.ch) == 0 {
			return
		}
		m.ch[len(m.ch)-1].cur++
	}
}

func (m *lkVM) describe() string {
	var sb strings.Builder
	sb.WriteString("bytes")
	for i := range m.blo {
		if int64(i) >= m.lhi {
			break
		}
		if m.blo[i] == m.bhi[i] {
			fmt.Fprintf(&sb, " %02X", m.blo[i])
		} else if m.blo[i] != 0 || m.bhi[i] != 255 {
			fmt.Fprintf(&sb, " %02X..%02X", m.blo[i], m.bhi[i])
		} else {
			sb.WriteString(" ??")
		}
		if i > 3 {
			break
		}
	}
	if m.lhi != maxInt {
		fmt.Fprintf(&sb, " (length %d)", m.lhi)
	}
	return sb.String()
}

func (c *Ctx) lookupLeaf(m *lkVM, f *ssa.Function, tab *spec.Table, conv func(uint32) uint64, fail func(int, string), out *lkOut) {
	var v, w int64
	ok := func() (ok bool) {
		defer func() {
			if r := recover(); r != nil {
				e, is := r.(lkFail)
				if !is {
					panic(r)
				}
				fail(0, m.describe()+": "+e.msg)
				ok = false
			}
		}()
		r := m.call(f, []lkVal{{k: lkSlice, v: 0, w: -1}})
		v, w = m.num(r.x.tu[0]), m.num(r.x.tu[1])
		return true
	}()
	if !ok {
		return
	}
	b0 := m.byteAt(0)
	need := int64(spec.Need(byte(b0)))
	if w < 0 || w > need {
		fail(1, fmt.Sprintf("%s: width %d", m.describe(), w))
		return
	}
	if !m.longer(need - 1) { // truncated
		if w != 0 || v != 0 {
			fail(2, fmt.Sprintf("%s: width %d, properties %#x", m.describe(), w, v))
		}
		return
	}
	if w == 0 {
		fail(2, m.describe()+": width 0 for a complete encoding")
		fail(1, m.describe()+": width 0 for a complete encoding")
		return
	}
	if need == 1 && b0 >= 0x80 {
		if w != 1 || v != 0 {
			fail(4, fmt.Sprintf("%s: width %d, properties %#x", m.describe(), w, v))
		}
		return
	}
	for i := int64(1); i < need; i++ {
		if m.atMost(i, 0x7F) || !m.atMost(i, 0xBF) {
			if w != i || v != 0 {
				fail(4, fmt.Sprintf("%s: width %d, properties %#x", m.describe(), w, v))
			}
			return
		}
	}
	var r int64
	switch need {
	case 1:
		r = b0
	case 2:
		r = b0 & 0x1F
	case 3:
		r = b0 & 0x0F
	case 4:
		r = b0 & 0x07
	}
	for i := int64(1); i < need; i++ {
		r = r<<6 | m.byteAt(i)&0x3F
	}
	min := []int64{0, 0, 0x80, 0x800, 0x10000}[need]
	if r < min || r > 0x10FFFF || r >= 0xD800 && r <= 0xDFFF {
		if w != need || v != 0 {
			fail(4, fmt.Sprintf("%s: width %d, properties %#x", m.describe(), w, v))
		}
		return
	}
	out.scalars++
	if w != need {
		fail(2, fmt.Sprintf("%s (U+%04X): width %d", m.describe(), r, w))
	}
	if want := conv(tab.Vals[r]); uint64(v) != want {
		fail(3, fmt.Sprintf("U+%04X: properties %#x, want %#x", r, v, want))
	}
}

// unitLookup decides the lookup functions of a package.
func (c *Ctx) unitLookup(pkg string) []*FnResult {
	return c.unit("lookup "+pkg, func() []*FnResult {
		fs := c.lookups(pkg)
		if len(fs) == 0 {
			return []*FnResult{reachResult("lookup "+pkg, "no property lookup (T) -> (properties, width) in "+pkg)}
		}
		x := NewExec(c.P, c.S)
		I := c.inst(x, pkg)
		cache := map[uint32]uint64{}
		for _, v := range I.tab.Vals {
			if _, ok := cache[v]; !ok {
				cache[v] = I.pkgProp(v)
			}
		}
		cache[0] = 0
		conv := func(v uint32) uint64 { return cache[v] }
		var out []*FnResult
		for _, f := range fs {
			t0 := time.Now()
			res := make([]*lkOut, 256)
			var wg sync.WaitGroup
			for b := 255; b >= 0; b-- {
				wg.Add(1)
				res[b] = &lkOut{fails: map[string][]string{}}
				go func(b int) {
					defer wg.Done()
					c.S.sem <- struct{}{}
					defer func() { <-c.S.sem }()
					c.runLookup(f, b, I.tab, conv, res[b])
				}(b)
			}
			wg.Wait()
			r := &FnResult{Fn: f.String(), Contract: pkg + ".spec lookup"}
			fails := map[string][]string{}
			var leaves, scalars int64
			for _, o := range res {
				leaves += o.leaves
				scalars += o.scalars
				for k, l := range o.fails {
					if len(fails[k]) < 10 {
						fails[k] = append(fails[k], l...)
					}
				}
				if o.err != "" {
					r.Err = "outside the verified subset: " + o.err
				}
			}
			if r.Err != "" {
				r.Obls = append(r.Obls, OblResult{Fn: r.Fn, Cat: "reach", Name: r.Err})
			} else if n := len(fails); n == 0 && scalars != 0x110000-0x800 {
				fails[lkObls[3].name] = []string{fmt.Sprintf("only %d scalar values were reached", scalars)}
			}
			for _, o := range lkObls {
				if r.Err != "" && len(fails[o.name]) == 0 {
					continue
				}
				r.Obls = append(r.Obls, OblResult{Fn: r.Fn, Cat: o.cat, Name: o.name, OK: len(fails[o.name]) == 0, By: "finite domain", N: int(leaves), Detail: strings.Join(fails[o.name], "; ")})
			}
			r.Time = time.Since(t0)
			r.Leaves = leaves
			out = append(out, r)
		}
		return out
	})
}
