package main

// Lemmas about the theories alone (no code): proved on every run, before they
// are used.

import (
	"os"
	"sync"
	"time"

	"verif/gover/spec"
)

type lemmaResult struct {
	names []string
	ok    map[string]bool
	by    map[string]string
	time  time.Duration
}

func (r *lemmaResult) add(n string, s solved) bool {
	r.names = append(r.names, n)
	r.ok[n], r.by[n] = s.res == "unsat", s.by
	return r.ok[n]
}

func (r *lemmaResult) obls(theory string) []OblResult {
	var out []OblResult
	for _, n := range r.names {
		out = append(out, OblResult{Fn: theory + ".spec", Cat: "lemma", Name: "lemma " + n, OK: r.ok[n], By: r.by[n]})
	}
	return out
}

// symbolic start
func (c *Ctx) lemmaInst(theory string, joiners bool) (*Exec, *Inst) {
	y := NewExec(c.P, c.S)
	y.I = c.inst(y, theory)
	y.I.start = y.B.Var("start", SInt)
	if joiners {
		c.setJoiners(y)
	}
	return y, y.I
}

func (c *Ctx) ask(y *Exec, as []*Term) solved {
	as0 := as
	as = append(append([]*Term{}, as...), y.closure(as)...)
	r := c.S.Query(y.B, as, nil, 0)
	if r.res != "unsat" && os.Getenv("GOVER_WHY") == "lemma" {
		var pc *PC
		for _, a := range as0[:len(as0)-1] {
			pc = pc.push(y.B, a)
		}
		y.why("lemma", pc, y.B.Not(as0[len(as0)-1]))
	}
	return r
}

func (c *Ctx) lemmasOf(theory string) *lemmaResult {
	c.mu.Lock()
	o := c.once[theory]
	if o == nil {
		o = &sync.Once{}
		c.once[theory] = o
	}
	c.mu.Unlock()
	o.Do(func() {
		t0 := time.Now()
		r := &lemmaResult{ok: map[string]bool{}, by: map[string]string{}}
		th, _ := c.theory(theory)
		facts := false
		if len(th.Facts) > 0 {
			facts = c.proveFacts(theory, th, r)
		}
		var done []spec.Lemma
		for _, l := range th.Lemmas {
			y, I := c.lemmaInst(theory, true)
			I.facts = facts
			I.lemmas = append(I.lemmas, done...)
			if r.add(l.Name, c.proveLemma(y, I, l)) {
				done = append(done, l)
			}
		}
		if th.Rel != nil {
			c.proveRestart(theory, facts, done, r)
			c.proveFull(theory, facts, done, r)
		}
		r.time = time.Since(t0)
		c.mu.Lock()
		c.lem[theory] = r
		c.mu.Unlock()
	})
	return c.lem[theory]
}

// addLemmas makes the proved lemmas available in x; an unproved one is a
// failing obligation.
func (c *Ctx) addLemmas(x *Exec, theory string) {
	r := c.lemmasOf(theory)
	x.I.facts = false
	x.I.lemmas = nil
	for _, l := range x.I.th.Lemmas {
		if r.ok[l.Name] {
			x.I.lemmas = append(x.I.lemmas, l)
		}
	}
	for _, n := range r.names {
		if !r.ok[n] && n != "full" {
			x.Obls = append(x.Obls, Obl{theory + ".spec", "lemma", "lemma " + n, nil, x.B.False})
		}
	}
}

// proveFacts: forward induction over the characters.
func (c *Ctx) proveFacts(theory string, th *spec.Theory, r *lemmaResult) bool {
	y, I := c.lemmaInst(theory, true)
	B := y.B
	var base []*Term
	for _, f := range th.Facts {
		base = append(base, I.ev(f, ienv{o: I.start}))
	}
	b := c.ask(y, []*Term{B.Lt(I.start, I.N), B.Not(B.And(base...))})
	if b.res != "unsat" {
		return r.add("facts", b)
	}
	y, I = c.lemmaInst(theory, true)
	B = y.B
	o := B.Var("o", SInt)
	nx := I.Nx(o)
	as := []*Term{I.G(o), B.Le(I.start, o), B.Lt(o, I.N), B.Not(B.Eq(I.W(o), B.Int(0)))}
	var concl []*Term
	for _, f := range th.Facts {
		as = append(as, I.ev(f, ienv{o: o}))
		concl = append(concl, I.ev(f, ienv{o: nx}))
	}
	as = append(as, B.Not(B.And(concl...)))
	return r.add("facts", c.ask(y, as))
}

// proveLemma: by induction on the distance to the end of text.
func (c *Ctx) proveLemma(y *Exec, I *Inst, l spec.Lemma) solved {
	B := y.B
	o := B.Var("o", SInt)
	nx := I.Nx(o)
	as := []*Term{B.Le(I.start, o), B.Le(o, I.N), I.G(o)}
	as = append(as, B.Imp(B.Lt(o, I.N), I.lemmaTerm(l, nx))) // induction hypothesis
	as = append(as, I.Facts(o, false)...)
	as = append(as, I.Facts(nx, false)...)
	as = append(as, B.Not(I.lemmaTerm(l, o)))
	return c.ask(y, as)
}

// restartPair: the text seen from start, and from a later character t.
func (c *Ctx) restartPair(theory string, joiners, facts bool, done []spec.Lemma) (*Exec, *Inst, *Inst) {
	y, I := c.lemmaInst(theory, joiners)
	I.facts = facts
	I.lemmas = done
	I.prime = I.with(y.B.Var("restart", SInt), "'")
	I.prime.prime = nil
	return y, I, I.prime
}

// proveRestart: once rel holds at a character position after t, the text
// seen from start and from t joins alike from there on. In splitContract:
// G(t1), rel(t1), t1 = next(t), end on t's characters, t1 <= end =>
// G(end); AJ(t1) => AJ(end) = AJ'(end); end < N => Join(end) = Join'(end).
func (c *Ctx) proveRestart(theory string, facts bool, done []spec.Lemma, r *lemmaResult) {
	y, I, F := c.restartPair(theory, true, facts, done)
	B := y.B
	t := F.start
	o := B.Var("o", SInt)
	nx := I.Nx(o)
	as := []*Term{B.Le(I.start, t), B.Lt(t, o), B.Lt(o, I.N), I.G(o), F.G(o), I.Rel(o), B.Eq(I.AJ(o), F.AJ(o))}
	goal := B.And(I.G(nx), B.Eq(I.Join(o), F.Join(o)), B.Eq(I.AJ(nx), F.AJ(nx)),
		B.Imp(B.And(B.Not(B.Eq(I.W(o), B.Int(0))), B.Lt(nx, I.N)), I.Rel(nx)))
	s := c.ask(y, append(as, B.Not(goal)))
	r.add("restart", s)
}

// proveFull: seen from the start of the text, the rules put the same
// boundaries as seen from the last boundary.
func (c *Ctx) proveFull(theory string, facts bool, done []spec.Lemma, r *lemmaResult) {
	y, I, F := c.restartPair(theory, false, facts, done)
	B := y.B
	t := F.start
	nx := I.Nx(t)
	as := []*Term{B.Lt(I.start, t), B.Lt(t, I.N), I.G(t), B.Not(B.Eq(I.W(t), B.Int(0))), B.Not(I.Join(t)), B.Lt(nx, I.N)}
	r.add("full", c.ask(y, append(as, B.Not(I.Rel(nx)))))
}

// nestLemmas: seen from the start of the text, characters that the word
// rules join are joined by the phrase rules too (so a phrase boundary is a
// word boundary). The properties a character has in the two tables are
// related by the tables themselves.
func (c *Ctx) nestLemmas() *lemmaResult {
	r := &lemmaResult{ok: map[string]bool{}, by: map[string]string{}}
	t0 := time.Now()
	type env struct {
		y    *Exec
		B    *TB
		W, H *Inst
		o    *Term
		ncs  []string
	}
	var pairs [][2]uint64
	mk := func() env {
		y := NewExec(c.P, c.S)
		W := c.inst(y, "words")
		W.pfx = "w:"
		H := c.inst(y, "phrases")
		H.pfx = "ph:"
		W.other = map[string]*Inst{"ph": H}
		y.I = W
		if pairs == nil {
			seen := map[[2]uint64]bool{{0, 0}: true}
			pairs = append(pairs, [2]uint64{0, 0})
			var last [2]uint32
			for i := range W.tab.Vals {
				v := [2]uint32{W.tab.Vals[i], H.tab.Vals[i]}
				if v == last {
					continue
				}
				last = v
				p := [2]uint64{W.pkgProp(v[0]), H.pkgProp(v[1])}
				if !seen[p] {
					seen[p] = true
					pairs = append(pairs, p)
				}
			}
		}
		var ncs []string
		for _, b := range W.th.Bits {
			if contains(H.th.Bits, b) {
				ncs = append(ncs, b)
			}
		}
		return env{y, y.B, W, H, y.B.Var("o", SInt), ncs}
	}
	same := func(e env, a, b *Term) *Term {
		var cs []*Term
		for _, n := range e.ncs {
			cs = append(cs, e.B.Eq(e.B.Is(a, e.B.BV(e.W.bits[n], e.W.pw)), e.B.Is(b, e.B.BV(e.H.bits[n], e.H.pw))))
		}
		return e.B.And(cs...)
	}
	pair := func(e env, o *Term) *Term {
		var cs []*Term
		for _, p := range pairs {
			cs = append(cs, e.B.And(e.B.Eq(e.W.P(o), e.B.BV(p[0], e.W.pw)), e.B.Eq(e.H.P(o), e.B.BV(p[1], e.H.pw))))
		}
		return e.B.Or(cs...)
	}
	coupled := func(e env, o *Term) *Term {
		cs := []*Term{e.B.Eq(e.W.St("RO", o), e.H.St("RO", o))}
		for _, n := range []string{"LP", "LE", "LL"} {
			cs = append(cs, same(e, e.W.St(n, o), e.H.St(n, o)))
		}
		return e.B.And(cs...)
	}
	nxc := func(e env, o *Term) *Term { return same(e, e.W.Look("NX", o), e.H.Look("NX", o)) }

	e := mk()
	r.add("nest: the left contexts agree at the start", c.ask(e.y, []*Term{e.B.Not(coupled(e, e.W.start))}))
	e = mk()
	nx := e.W.Nx(e.o)
	r.add("nest: the left contexts agree at the next character", c.ask(e.y, []*Term{e.W.G(e.o), e.B.Le(e.W.start, e.o), e.B.Lt(e.o, e.W.N), e.B.Not(e.B.Eq(e.W.W(e.o), e.B.Int(0))), coupled(e, e.o), pair(e, e.o), e.B.Not(coupled(e, nx))}))
	e = mk()
	nx = e.W.Nx(e.o)
	r.add("nest: the right contexts agree", c.ask(e.y, []*Term{e.W.G(e.o), e.B.Le(e.W.start, e.o), e.B.Le(e.o, e.W.N), e.B.Imp(e.B.Lt(e.o, e.W.N), nxc(e, nx)), pair(e, e.o), e.B.Not(nxc(e, e.o))}))
	e = mk()
	nx = e.W.Nx(e.o)
	r.add("nest: what words join, phrases join", c.ask(e.y, []*Term{e.W.G(e.o), e.B.Lt(e.W.start, e.o), e.B.Lt(e.o, e.W.N), coupled(e, e.o), pair(e, e.o), nxc(e, nx), nxc(e, e.o), e.W.Join(e.o), e.B.Not(e.H.Join(e.o))}))
	r.time = time.Since(t0)
	return r
}
