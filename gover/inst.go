package main

// Inst turns a theory (contract file) into SMT terms over one text.
//
//	N      length of the text            n      length of the visible prefix
//	start  offset where the token starts
//	W(o)   width of the character at o; 0 when the text ends inside it
//	P(o)   its properties                need(o) the length its lead byte announces
//	G(o)   o is reached from start by whole characters
//	AJ(o)  every character after the first in [start, o) joins
//
// Facts(o) are the defining equations at offset o. They hold in every text,
// so they may be asserted at any offset.

import (
	"fmt"
	"sort"
	"strconv"
	"strings"

	"verif/gover/spec"
)

type Inst struct {
	B     *TB
	th    *spec.Theory
	bits  map[string]uint64
	pw    int
	suf   string
	start *Term
	N, n  *Term
	V     []uint64
	ascii []uint64
	tab   *spec.Table
	joinM func(F *Inst, o *Term) *Term
	joinL func(F *Inst, o *Term) *Term
	prime *Inst // the family marked ' in contracts
	other map[string]*Inst
	utf8  bool
	pfx   string
	// lemmas proved on this run
	lemmas []spec.Lemma
	facts  bool // the theory's facts are proved
	// full: there is no token start context (rules over the whole text)
	noV bool
	// only the look-ahead functions, which step over bytes
	looksOnly bool
}

func NewInst(B *TB, th *spec.Theory, bits map[string]uint64, pw int, tab *spec.Table) *Inst {
	I := &Inst{B: B, th: th, utf8: th.UTF8, bits: bits, pw: pw, start: B.Int(0), N: B.Var("N", SInt), n: B.Var("n", SInt), tab: tab}
	if tab != nil {
		m := map[uint64]bool{0: true}
		last := uint32(0)
		for _, v := range tab.Vals {
			if v != last {
				m[I.pkgProp(v)] = true
				last = v
			}
		}
		for v := range m {
			I.V = append(I.V, v)
		}
		sort.Slice(I.V, func(i, j int) bool { return I.V[i] < I.V[j] })
		for c := 0; c < 128; c++ {
			I.ascii = append(I.ascii, I.pkgProp(tab.Vals[c]))
		}
	}
	return I
}

// pkgProp translates a property set from the contract's numbering to the
// package's constants.
func (I *Inst) pkgProp(v uint32) uint64 {
	var r uint64
	for i, n := range I.th.Bits {
		if v&(1<<uint(i)) != 0 {
			r |= I.bits[n]
		}
	}
	return r
}

func (I *Inst) with(start *Term, suf string) *Inst {
	J := *I
	J.start = start
	J.suf = suf
	return &J
}

func (I *Inst) sort(s string) Sort {
	switch s {
	case "prop":
		return SBV(I.pw)
	case "int":
		return SInt
	case "bool":
		return SBool
	}
	panic("sort " + s)
}

func (I *Inst) P(o *Term) *Term    { return I.B.App(I.pfx+"P", SBV(I.pw), o) }
func (I *Inst) W(o *Term) *Term    { return I.B.App("W", SInt, o) }
func (I *Inst) Need(o *Term) *Term { return I.B.App("need", SInt, o) }
func (I *Inst) Byte(o *Term) *Term { return I.B.App("B", SBV(8), o) }
func (I *Inst) Rune(o *Term) *Term { return I.B.App("RN", SBV(32), o) }
func (I *Inst) Nx(o *Term) *Term {
	return I.B.Ite(I.B.Eq(I.W(o), I.B.Int(0)), I.N, I.B.Add(o, I.W(o)))
}
func (I *Inst) G(o *Term) *Term  { return I.B.App("G"+I.suf, SBool, o) }
func (I *Inst) AJ(o *Term) *Term { return I.B.App(I.pfx+"AJ"+I.suf, SBool, o) }
func (I *Inst) PO(o *Term) *Term { return I.B.App("PO"+I.suf, SInt, o) }
func (I *Inst) St(name string, o *Term) *Term {
	return I.B.App(I.pfx+name+I.suf, I.sort(I.th.State(name).Sort), o)
}
func (I *Inst) Lag(name string, o *Term) *Term {
	return I.B.App(I.pfx+name+"@1"+I.suf, I.sort(I.th.State(name).Sort), o)
}
func (I *Inst) Look(name string, o *Term) *Term {
	return I.B.App(I.pfx+name, I.sort(I.th.Look(name).Sort), o)
}
func (I *Inst) Mask(ns ...string) uint64 {
	var m uint64
	for _, n := range ns {
		l, ok := I.th.Masks[n]
		if !ok {
			panic("unknown mask " + n)
		}
		for _, b := range l {
			m |= I.bits[b]
		}
	}
	return m
}

type ienv struct {
	o     *Term
	vars  map[string]*Term
	byt   bool  // stepping over bytes
	entry *Term // the cursor when the loop was entered
}

func (I *Inst) Join(o *Term) *Term { return I.ev(I.th.Join, ienv{o: o}) }
func (I *Inst) Und(o *Term) *Term  { return I.ev(I.th.Und, ienv{o: o}) }
func (I *Inst) Eff(o *Term) *Term {
	if I.th.Eff == nil || I.joinM == nil {
		return I.P(o)
	}
	return I.ev(I.th.Eff, ienv{o: o})
}
func (I *Inst) Rel(o *Term) *Term { return I.ev(I.th.Rel, ienv{o: o}) }

func (I *Inst) mask(xs []*spec.Sx) uint64 {
	var ns []string
	for _, y := range xs {
		ns = append(ns, y.A)
	}
	return I.Mask(ns...)
}

func (I *Inst) coerce(a, b *Term) (*Term, *Term) {
	if a.S == b.S {
		return a, b
	}
	if a.S.K == 'I' && a.IsConst() && b.S.K == 'V' {
		return I.B.BV(uint64(a.V), b.S.W), b
	}
	if b.S.K == 'I' && b.IsConst() && a.S.K == 'V' {
		return a, I.B.BV(uint64(b.V), a.S.W)
	}
	panic(fmt.Sprintf("contract: sorts %v and %v", a.S, b.S))
}

func (I *Inst) ev(x *spec.Sx, e ienv) *Term {
	B := I.B
	if !x.List {
		a := x.A
		if v, err := strconv.ParseInt(a, 0, 64); err == nil {
			return B.Int(v)
		}
		if t, ok := e.vars[a]; ok {
			return t
		}
		if strings.HasSuffix(a, "'") {
			return I.prime.ev(&spec.Sx{A: a[:len(a)-1], Line: x.Line}, e)
		}
		if i := strings.IndexByte(a, ':'); i > 0 { // family:name
			J := I.other[a[:i]]
			if J == nil {
				panic("contract: unknown family " + a)
			}
			return J.ev(&spec.Sx{A: a[i+1:], Line: x.Line}, e)
		}
		switch a {
		case "true":
			return B.True
		case "false":
			return B.False
		case "P":
			return I.P(e.o)
		case "E":
			return I.Eff(e.o)
		case "o":
			return e.o
		case "n":
			return I.n
		case "N":
			return I.N
		case "start":
			return I.start
		case "need":
			return I.Need(e.o)
		case "w":
			return I.W(e.o)
		case "rune":
			return I.Rune(e.o)
		case "first":
			return B.Eq(e.o, I.start)
		case "firstok":
			return I.ev(I.th.First, ienv{o: I.start})
		case "letter":
			return B.App("unicode.IsLetter", SBool, I.Rune(e.o))
		case "number":
			return B.App("unicode.IsNumber", SBool, I.Rune(e.o))
		case "JM":
			return I.joinM(I, e.o)
		case "JL":
			return I.joinL(I, e.o)
		case "grid":
			return I.G(e.o)
		case "aj":
			return I.AJ(e.o)
		case "prev":
			return I.PO(e.o)
		case "join":
			return I.Join(e.o)
		}
		if d, ok := I.th.Defs[a]; ok {
			return I.ev(d, e)
		}
		if I.th.State(a) != nil {
			return I.St(a, e.o)
		}
		if I.th.Look(a) != nil {
			return I.Look(a, e.o)
		}
		panic(fmt.Sprintf("contract %s line %d: unknown name %s", I.th.Name, x.Line, a))
	}
	sub := func(i int) *Term { return I.ev(x.L[i], e) }
	subs := func(from int) []*Term {
		var r []*Term
		for _, y := range x.L[from:] {
			r = append(r, I.ev(y, e))
		}
		return r
	}
	switch x.Head() {
	case "is":
		t := sub(1)
		return B.Is(t, B.BV(I.mask(x.L[2:]), t.S.W))
	case "bits":
		return B.BV(I.mask(x.L[1:]), I.pw)
	case "bor":
		return B.BvBin("bvor", sub(1), B.BV(I.mask(x.L[2:]), I.pw))
	case "bxor":
		return B.BvBin("bvxor", sub(1), sub(2))
	case "in":
		t, lo, hi := sub(1), sub(2), sub(3)
		if t.S.K == 'V' {
			lo, hi = B.BV(uint64(lo.V), t.S.W), B.BV(uint64(hi.V), t.S.W)
			return B.And(B.BvCmp("bvule", lo, t), B.BvCmp("bvule", t, hi))
		}
		return B.And(B.Le(lo, t), B.Le(t, hi))
	case "B":
		return I.Byte(B.Add(e.o, sub(1)))
	case "next":
		if l := I.th.Look(x.L[1].A); l != nil {
			if l.Bytes {
				return I.Look(l.Name, B.Add(e.o, B.Int(1)))
			}
			return I.Look(l.Name, I.Nx(e.o))
		}
		f := e
		f.o = I.Nx(e.o)
		return I.ev(x.L[1], f)
	case "skip":
		return I.Look(x.L[1].A, B.Add(e.o, sub(2)))
	case "lag":
		n := x.L[1].A
		if strings.HasSuffix(n, "'") {
			return I.prime.Lag(n[:len(n)-1], e.o)
		}
		return I.Lag(n, e.o)
	case "entry": // the value where the loop was entered
		f := e
		f.o = e.entry
		return I.ev(x.L[1], f)
	case "at":
		f := e
		f.o = sub(1)
		return I.ev(x.L[2], f)
	case "and":
		return B.And(subs(1)...)
	case "or":
		return B.Or(subs(1)...)
	case "not":
		return B.Not(sub(1))
	case "=>":
		return B.Imp(sub(1), sub(2))
	case "ite":
		a, b := I.coerce(sub(2), sub(3))
		return B.Ite(sub(1), a, b)
	case "cond":
		var r *Term
		for i := len(x.L) - 1; i >= 1; i-- {
			y := x.L[i]
			if y.Head() == "else" {
				r = I.ev(y.L[1], e)
				continue
			}
			a, b := I.coerce(I.ev(y.L[1], e), r)
			r = B.Ite(I.ev(y.L[0], e), a, b)
		}
		return r
	case "=":
		a, b := I.coerce(sub(1), sub(2))
		return B.Eq(a, b)
	case "<":
		return B.Lt(sub(1), sub(2))
	case "<=":
		return B.Le(sub(1), sub(2))
	case ">":
		return B.Lt(sub(2), sub(1))
	case ">=":
		return B.Le(sub(2), sub(1))
	case "+":
		return B.Add(sub(1), sub(2))
	case "-":
		return B.Sub(sub(1), sub(2))
	case "valid": // one of the property sets some character has
		t := sub(1)
		var vs []*Term
		for _, v := range I.V {
			vs = append(vs, B.Eq(t, B.BV(v, I.pw)))
		}
		return B.Or(vs...)
	case "even":
		return B.Eq(B.ModI(sub(1), B.Int(2)), B.Int(0))
	}
	panic(fmt.Sprintf("contract %s line %d: %s", I.th.Name, x.Line, x))
}

func (I *Inst) initTerm(s spec.State) *Term {
	t := I.ev(s.Init, ienv{o: I.start})
	if s.Sort == "prop" && t.S.K == 'I' {
		t = I.B.BV(uint64(t.V), I.pw)
	}
	return t
}

// StartFacts: the token starts at start.
func (I *Inst) StartFacts() []*Term {
	B := I.B
	if I.looksOnly {
		return []*Term{B.Le(B.Int(0), I.N), B.Le(I.N, B.Int(maxInt))}
	}
	out := []*Term{I.G(I.start), B.Le(B.Int(0), I.start), B.Le(I.start, I.N), B.Le(I.n, I.N), B.Le(I.N, B.Int(maxInt))}
	if I.th.Join != nil {
		out = append(out, I.AJ(I.start))
	}
	for _, s := range I.th.States {
		out = append(out, B.Eq(I.St(s.Name, I.start), I.initTerm(s)))
	}
	return out
}

// CharFacts: W, need, P at o.
func (I *Inst) CharFacts(o *Term, bytes bool) []*Term {
	B := I.B
	in := B.And(B.Le(B.Int(0), o), B.Lt(o, I.N))
	w, nd := I.W(o), I.Need(o)
	var out []*Term
	if I.utf8 {
		out = append(out, B.Imp(in, B.And(B.Le(B.Int(1), w), B.Le(w, B.Int(4)), B.Le(w, B.Sub(I.N, o)))))
		r := I.Rune(o)
		out = append(out, B.BvCmp("bvule", r, B.BV(0x10FFFF, 32)))
		// what is known of the predicates on ASCII, and of the replacement rune
		rng := func(lo, hi uint64) *Term {
			return B.And(B.BvCmp("bvule", B.BV(lo, 32), r), B.BvCmp("bvule", r, B.BV(hi, 32)))
		}
		low := B.BvCmp("bvult", r, B.BV(0x80, 32))
		out = append(out, B.Imp(low, B.And(
			B.Eq(B.App("unicode.IsLetter", SBool, r), B.Or(rng('A', 'Z'), rng('a', 'z'))),
			B.Eq(B.App("unicode.IsNumber", SBool, r), rng('0', '9')),
			B.Eq(B.App("unicode.IsDigit", SBool, r), rng('0', '9')))))
		bad := B.BV(0xFFFD, 32)
		out = append(out, B.Not(B.App("unicode.IsLetter", SBool, bad)), B.Not(B.App("unicode.IsNumber", SBool, bad)), B.Not(B.App("unicode.IsDigit", SBool, bad)))
		if bytes {
			b := I.Byte(o)
			ascii := B.BvCmp("bvult", b, B.BV(0x80, 8))
			out = append(out, B.Imp(in, B.Eq(ascii, low)), B.Imp(B.And(in, ascii), B.And(B.Eq(w, B.Int(1)), B.Eq(r, B.Ext(b, 32, false)))))
		}
		return out
	}
	z := B.BV(0, I.pw)
	out = append(out, B.Imp(in, B.And(B.Le(B.Int(1), nd), B.Le(nd, B.Int(4)),
		B.Ite(B.Lt(B.Sub(I.N, o), nd), B.And(B.Eq(w, B.Int(0)), B.Eq(I.P(o), z)),
			B.And(B.Le(B.Int(1), w), B.Le(w, nd))))))
	if I.V != nil && !I.noV {
		var vs []*Term
		for _, v := range I.V {
			vs = append(vs, B.Eq(I.P(o), B.BV(v, I.pw)))
		}
		out = append(out, B.Or(vs...))
	}
	if bytes && I.ascii != nil {
		b := I.Byte(o)
		k := func(v uint64) *Term { return B.BV(v, 8) }
		lt := func(v uint64) *Term { return B.BvCmp("bvult", b, k(v)) }
		out = append(out, B.Imp(in, B.Eq(nd, B.Ite(lt(0xC2), B.Int(1), B.Ite(lt(0xE0), B.Int(2), B.Ite(lt(0xF0), B.Int(3), B.Ite(lt(0xF8), B.Int(4), B.Int(1))))))))
		var p *Term = B.BV(I.ascii[127], I.pw)
		for c := 126; c >= 0; c-- {
			if I.ascii[c] != I.ascii[c+1] {
				p = B.Ite(B.BvCmp("bvule", b, k(uint64(c))), B.BV(I.ascii[c], I.pw), p)
			}
		}
		out = append(out, B.Imp(B.And(in, lt(0x80)), B.Eq(I.P(o), p)))
		out = append(out, B.Imp(B.And(in, B.Not(lt(0x80)), lt(0xC2)), B.Eq(I.P(o), z)))
	}
	return out
}

// EndFacts: look-ahead functions at and past the end of the text.
func (I *Inst) EndFacts(o *Term) []*Term {
	B := I.B
	var out []*Term
	for _, l := range I.th.Looks {
		t := I.Look(l.Name, o)
		e := I.ev(l.End, ienv{o: o})
		t, e = I.coerce(t, e)
		out = append(out, B.Imp(B.Le(I.N, o), B.Eq(t, e)))
	}
	return out
}

// Facts are the defining equations at o.
func (I *Inst) Facts(o *Term, bytes bool) []*Term {
	B := I.B
	if I.looksOnly {
		return I.byteFacts(o)
	}
	out := I.CharFacts(o, bytes)
	out = append(out, I.EndFacts(o)...)
	nx := I.Nx(o)
	in := B.And(B.Le(B.Int(0), o), B.Lt(o, I.N))
	// looks do not depend on the start
	for _, l := range I.th.Looks {
		if l.Bytes {
			t, s := I.coerce(I.Look(l.Name, o), I.ev(l.Step, ienv{o: o, byt: true}))
			out = append(out, B.Imp(in, B.Eq(t, s)))
			continue
		}
		t := I.Look(l.Name, o)
		s := I.ev(l.Step, ienv{o: o})
		tr := I.ev(l.Trunc, ienv{o: o})
		t, s = I.coerce(t, s)
		_, tr = I.coerce(t, tr)
		out = append(out, B.Imp(in, B.Eq(t, B.Ite(B.Eq(I.W(o), B.Int(0)), tr, s))))
		// the end values at the next character
		t2, e2 := I.coerce(I.Look(l.Name, nx), I.ev(l.End, ienv{o: nx}))
		out = append(out, B.Imp(B.And(in, B.Eq(nx, I.N)), B.Eq(t2, e2)))
	}
	out = append(out, I.StateFacts(o)...)
	return out
}

// byteFacts: look-ahead functions over bytes, at o; past the end the bytes
// count as 0.
func (I *Inst) byteFacts(o *Term) []*Term {
	B := I.B
	out := I.EndFacts(o)
	o1 := B.Add(o, B.Int(1))
	for _, p := range []*Term{o, o1} {
		out = append(out, B.Imp(B.Le(I.N, p), B.Eq(I.Byte(p), B.BV(0, 8))))
	}
	in := B.And(B.Le(B.Int(0), o), B.Lt(o, I.N))
	for _, l := range I.th.Looks {
		t, s := I.coerce(I.Look(l.Name, o), I.ev(l.Step, ienv{o: o, byt: true}))
		out = append(out, B.Imp(in, B.Eq(t, s)))
	}
	return out
}

// StateFacts are the start-dependent equations at o.
func (I *Inst) StateFacts(o *Term) []*Term {
	B := I.B
	nx := I.Nx(o)
	g := B.And(I.G(o), B.Le(I.start, o), B.Lt(o, I.N))
	var eqs []*Term
	eqs = append(eqs, I.G(nx), B.Eq(I.PO(nx), o))
	if I.th.Join != nil {
		eqs = append(eqs, B.Eq(I.AJ(nx), B.And(I.AJ(o), B.Or(B.Eq(o, I.start), B.And(B.Bool(!I.th.Strict), B.Eq(I.W(o), B.Int(0))), I.Join(o)))))
	}
	whole := B.Not(B.Eq(I.W(o), B.Int(0)))
	for _, s := range I.th.States {
		t, u := I.coerce(I.St(s.Name, nx), I.ev(s.Step, ienv{o: o}))
		eqs = append(eqs, B.Imp(whole, B.Eq(t, u)))
		eqs = append(eqs, B.Eq(I.Lag(s.Name, nx), I.St(s.Name, o)))
	}
	out := []*Term{B.Imp(g, B.And(eqs...))}
	// grid points are in [start, N]
	out = append(out, B.Imp(I.G(o), B.And(B.Le(I.start, o), B.Le(o, I.N))))
	return out
}

// BackFacts: a character position after the start follows another one.
func (I *Inst) BackFacts(o *Term) []*Term {
	B := I.B
	p := I.PO(o)
	out := []*Term{B.Imp(B.And(I.G(o), B.Lt(I.start, o)), B.And(I.G(p), B.Le(I.start, p), B.Lt(p, o), B.Eq(I.Nx(p), o)))}
	out = append(out, I.CharFacts(p, false)...)
	// the equations at p, written at o
	g := B.And(I.G(o), B.Lt(I.start, o), B.Not(B.Eq(I.W(p), B.Int(0))))
	var eqs []*Term
	for _, s := range I.th.States {
		t, u := I.coerce(I.St(s.Name, o), I.ev(s.Step, ienv{o: p}))
		eqs = append(eqs, B.Eq(t, u), B.Eq(I.Lag(s.Name, o), I.St(s.Name, p)))
	}
	out = append(out, B.Imp(g, B.And(eqs...)))
	if I.th.Join != nil {
		out = append(out, B.Imp(B.And(I.G(o), B.Lt(I.start, o)), B.Eq(I.AJ(o), B.And(I.AJ(p), B.Or(B.Eq(p, I.start), B.And(B.Bool(!I.th.Strict), B.Eq(I.W(p), B.Int(0))), I.Join(p))))))
	}
	return out
}

func (I *Inst) lemmaTerm(l spec.Lemma, o *Term) *Term {
	return I.B.Imp(I.B.And(I.G(o), I.B.Le(I.start, o), I.B.Le(o, I.N), I.ev(l.Hyp, ienv{o: o})), I.ev(l.Concl, ienv{o: o}))
}

// FactTerms: the theory's facts at o and at the character after o.
func (I *Inst) FactTerms(o *Term) []*Term {
	B := I.B
	g := B.And(I.G(o), B.Le(I.start, o), B.Lt(o, I.N))
	w := B.And(g, B.Not(B.Eq(I.W(o), B.Int(0))))
	nx := I.Nx(o)
	var out []*Term
	for _, f := range I.th.Facts {
		out = append(out, B.Imp(g, I.ev(f, ienv{o: o})))
		out = append(out, B.Imp(w, I.ev(f, ienv{o: nx})))
	}
	return out
}

// offsets in t at which theory functions are applied
func (I *Inst) offsetsIn(ts []*Term) (offs []*Term, bytes map[*Term]bool) {
	bytes = map[*Term]bool{}
	seen := map[*Term]bool{}
	got := map[*Term]bool{}
	names := map[string]bool{"P": true, "W": true, "need": true, "B": true, "RN": true, "G": true, "AJ": true, "PO": true}
	for _, s := range I.th.States {
		names[s.Name], names[s.Name+"@1"] = true, true
	}
	for _, l := range I.th.Looks {
		names[l.Name] = true
	}
	for _, F := range I.other {
		for _, l := range F.th.Looks {
			names[l.Name] = true
		}
	}
	var visit func(t *Term)
	visit = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		for _, a := range t.Args {
			visit(a)
		}
		if t.Op == "app" && len(t.Args) == 1 {
			n := strings.TrimRight(t.Name, "'")
			if i := strings.IndexByte(n, ':'); i >= 0 {
				n = n[i+1:]
			}
			if names[n] {
				if !got[t.Args[0]] {
					got[t.Args[0]] = true
					offs = append(offs, t.Args[0])
				}
				if n == "B" {
					bytes[t.Args[0]] = true
				}
			}
		}
	}
	for _, t := range ts {
		visit(t)
	}
	return
}

// Closure is every fact needed to decide the given assertions.
func (I *Inst) Closure(ts []*Term) []*Term {
	offs, bytes := I.offsetsIn(ts)
	has := map[*Term]bool{}
	for _, o := range offs {
		has[o] = true
	}
	var out []*Term
	// where the value before the last character is mentioned, that character's
	// own equations are needed too
	lagged := map[*Term]bool{}
	seenL := map[*Term]bool{}
	var findLag func(t *Term)
	findLag = func(t *Term) {
		if seenL[t] {
			return
		}
		seenL[t] = true
		if t.Op == "app" && len(t.Args) == 1 && strings.HasSuffix(strings.TrimRight(t.Name, "'"), "@1") {
			lagged[t.Args[0]] = true
		}
		for _, a := range t.Args {
			findLag(a)
		}
	}
	for _, t := range ts {
		findLag(t)
	}
	fams := []*Inst{I}
	if I.prime != nil {
		fams = append(fams, I.prime)
	}
	var onames []string
	for k := range I.other {
		onames = append(onames, k)
	}
	sort.Strings(onames)
	for _, k := range onames {
		fams = append(fams, I.other[k])
	}
	for i, F := range fams {
		out = append(out, F.StartFacts()...)
		for _, o := range offs {
			if i == 0 || F.pfx != I.pfx {
				out = append(out, F.Facts(o, bytes[o])...)
			} else {
				out = append(out, F.StateFacts(o)...)
			}
			if F.looksOnly {
				continue
			}
			if lagged[o] {
				out = append(out, F.BackFacts(o)...)
			}
			if F.facts {
				out = append(out, F.FactTerms(o)...)
			}
			for _, l := range F.lemmas {
				out = append(out, F.lemmaTerm(l, o))
				if nx := F.Nx(o); !has[nx] {
					out = append(out, F.lemmaTerm(l, nx))
				}
			}
		}
	}
	return out
}

// families whose contracts may be used in loop invariants
func (I *Inst) families() []*Inst {
	out := []*Inst{I}
	var ks []string
	for k := range I.other {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		out = append(out, I.other[k])
	}
	return out
}
