package main

// Function contracts: pre- and postconditions stated over the theories.

import (
	"encoding/json"
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
	"verif/gover/spec"
)

type Ctx struct {
	P             *Program
	S             *Solver
	Dir           string // /verif
	Repo          string
	refuted       func() bool // a failing input of the property is known
	extraEvidence map[string]any
	th            map[string]*spec.Theory
	tab           map[string]*spec.Table
	mu            sync.Mutex
	lem           map[string]*lemmaResult
	once          map[string]*sync.Once
	subs          map[string]*FnResult
	ansi          map[string]*ansiRes
	// loop invariants found on an earlier run of the full search, used as
	// starting annotations: every one is proved again
	hints, newHints map[string]map[string][]string
	noHints         bool
	units           map[string]*unitRes
}

func (c *Ctx) loadHints() {
	b, err := os.ReadFile(filepath.Join(c.Dir, "contracts", "annotations.json"))
	if err == nil {
		json.Unmarshal(b, &c.hints)
	}
}

func (c *Ctx) saveHints() {
	for k, v := range c.newHints {
		if c.hints == nil {
			c.hints = map[string]map[string][]string{}
		}
		c.hints[k] = v
	}
	b, _ := json.MarshalIndent(c.hints, "", " ")
	os.WriteFile(filepath.Join(c.Dir, "contracts", "annotations.json"), append(b, '\n'), 0o644)
}

func (c *Ctx) theory(name string) (*spec.Theory, *spec.Table) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if t, ok := c.th[name]; ok {
		return t, c.tab[name]
	}
	t, err := spec.Load(filepath.Join(c.Dir, "contracts", name+".spec"))
	if err != nil {
		panic(err)
	}
	var tab *spec.Table
	if t.Package != "" && len(t.Bits) > 0 && t.Table != "" {
		b, err := os.ReadFile(filepath.Join(c.Dir, "contracts", "tables", t.Table+".txt"))
		if err != nil {
			panic(err)
		}
		tab, err = spec.LoadTable(string(b), t.Bits)
		if err != nil {
			panic(err)
		}
	}
	c.th[name], c.tab[name] = t, tab
	return t, tab
}

// inst makes a fresh instance of a theory in x.
func (c *Ctx) inst(x *Exec, name string) *Inst {
	th, tab := c.theory(name)
	bits, w := map[string]uint64{}, 8
	if len(th.Bits) > 0 {
		var err error
		bits, w, err = c.P.Bits(th.Package, th.Bits)
		if err != nil {
			unsup("%v", err)
		}
	}
	return NewInst(x.B, th, bits, w, tab)
}

// FnResult is the outcome of verifying one function against its contract.
type FnResult struct {
	Fn       string
	Contract string
	Err      string // outside the verifier's reach
	Obls     []OblResult
	Loops    []loopReport
	Assumed  []string
	Covers   []OblResult
	Time     time.Duration
	Skipped  bool
	Hinted   bool
	Unit     string
	Leaves   int64 // inputs classes decided by complete evaluation
}

type OblResult struct {
	Fn, Cat, Name string
	OK            bool
	By            string
	Model         string
	N             int
	Undecided     bool // the time budget ran out
	Detail        string
}

func (r *FnResult) bad(cats ...string) []OblResult {
	var out []OblResult
	for _, o := range r.Obls {
		if !o.OK && (len(cats) == 0 || contains(cats, o.Cat)) {
			out = append(out, o)
		}
	}
	return out
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// verify runs body (which sets up the precondition, executes the function and
// records the postcondition as obligations) and discharges everything.
func (c *Ctx) verify(name, contract string, body func(x *Exec)) *FnResult {
	t0 := time.Now()
	// the annotations kept with the contracts; when they do not fit the
	// current code the full invariant search runs
	if h := c.hints[name+" | "+contract]; h != nil && !c.noHints {
		r, _ := c.verifyWith(name, contract, h, false, body)
		if r.Err == "" && len(r.bad()) == 0 {
			r.Time = time.Since(t0)
			return r
		}
	}
	r, more := c.verifyWith(name, contract, nil, false, body)
	if more && r.Err == "" && len(r.bad()) > 0 && time.Since(t0) < wideLimit && (c.refuted == nil || !c.refuted()) {
		if q, _ := c.verifyWith(name, contract, nil, true, body); q.Err == "" && len(q.bad()) == 0 {
			r = q
		}
	}
	r.Time = time.Since(t0)
	return r
}

// wideLimit is how long a first attempt may have taken for a second one with
// more candidate invariants.
const wideLimit = 100 * time.Second

func (c *Ctx) verifyWith(name, contract string, hints map[string][]string, wide bool, body func(x *Exec)) (*FnResult, bool) {
	res := &FnResult{Fn: name, Contract: contract, Hinted: hints != nil}
	x := NewExec(c.P, c.S)
	x.curFn = name
	x.hints = hints
	x.wide = wide
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch e := r.(type) {
				case unsupported:
					res.Err = "outside the verified subset: " + e.msg
				default:
					buf := make([]byte, 4096)
					buf = buf[:runtime.Stack(buf, false)]
					res.Err = fmt.Sprintf("internal: %v", r)
					if os.Getenv("GOVER_DEBUG") != "" {
						res.Err += "\n" + string(buf)
					}
				}
			}
		}()
		body(x)
	}()
	if res.Err == "" {
		res.Obls = c.discharge(x)
	} else {
		res.Obls = append(res.Obls, OblResult{Fn: name, Cat: "reach", Name: res.Err})
	}
	res.Loops = x.Loops
	for a := range x.Assumed {
		res.Assumed = append(res.Assumed, a)
	}
	sort.Strings(res.Assumed)
	if hints == nil && res.Err == "" && len(res.bad()) == 0 {
		c.mu.Lock()
		h := map[string][]string{}
		for _, l := range res.Loops {
			h[l.Key] = l.Inv
		}
		if len(h) > 0 {
			c.newHints[name+" | "+contract] = h
		}
		c.mu.Unlock()
	}
	return res, x.wideUse
}

func (c *Ctx) discharge(x *Exec) []OblResult {
	B := x.B
	// group by category
	groups := map[string][]Obl{}
	var cats []string
	var out []OblResult
	for _, o := range x.Obls {
		if o.Cond == B.True {
			out = append(out, OblResult{Fn: o.Fn, Cat: o.Cat, Name: o.Name, OK: true, By: "simplifier"})
			continue
		}
		k := o.Cat
		if groups[k] == nil {
			cats = append(cats, k)
		}
		groups[k] = append(groups[k], o)
	}
	var mu sync.Mutex
	var wg sync.WaitGroup
	// terms must be built before going parallel
	type job struct {
		as []*Term
		os []Obl
	}
	run := func(os []Obl) []*Term {
		var ors []*Term
		for _, o := range os {
			ors = append(ors, B.And(B.And(o.PC.list()...), B.Not(o.Cond)))
		}
		as := []*Term{B.Or(ors...)}
		as = append(as, x.invDefs(as)...)
		as = append(as, x.closure(as)...)
		return as
	}
	var jobs []job
	for _, k := range cats {
		os := groups[k]
		sz := 12
		if k == "safety" {
			sz = 60
		}
		for i := 0; i < len(os); i += sz {
			j := i + sz
			if j > len(os) {
				j = len(os)
			}
			jobs = append(jobs, job{run(os[i:j]), os[i:j]})
		}
	}
	var failed []Obl
	for _, jb := range jobs {
		wg.Add(1)
		go func(jb job) {
			defer wg.Done()
			r := c.S.Query(B, jb.as, nil, 0)
			mu.Lock()
			defer mu.Unlock()
			if r.res == "unsat" {
				for _, o := range jb.os {
					out = append(out, OblResult{Fn: o.Fn, Cat: o.Cat, Name: o.Name, OK: true, By: r.by})
				}
			} else {
				failed = append(failed, jb.os...)
			}
		}(jb)
	}
	wg.Wait()
	if len(failed) > 0 {
		var js []job
		for _, o := range failed {
			js = append(js, job{run([]Obl{o}), []Obl{o}})
		}
		for _, jb := range js {
			wg.Add(1)
			go func(jb job) {
				defer wg.Done()
				r := c.S.Query(B, jb.as, nil, 0)
				o := jb.os[0]
				mu.Lock()
				out = append(out, OblResult{Fn: o.Fn, Cat: o.Cat, Name: o.Name, OK: r.res == "unsat", By: r.by, Model: r.res, Undecided: r.by == "budget"})
				mu.Unlock()
			}(jb)
		}
		wg.Wait()
	}
	if len(failed) == 0 {
		out = append(out, c.covers(x)...)
	}
	sort.SliceStable(out, func(i, j int) bool {
		if out[i].Cat != out[j].Cat {
			return out[i].Cat < out[j].Cat
		}
		return out[i].Name < out[j].Name
	})
	return out
}

// covers asks the solver for a state in which each premise holds. Finding none
// (unsat) means the contract says nothing there; no answer is not an objection.
func (c *Ctx) covers(x *Exec) []OblResult {
	B := x.B
	out := make([]OblResult, len(x.Covers))
	var wg sync.WaitGroup
	for i, o := range x.Covers {
		as := []*Term{o.Cond}
		as = append(as, x.invDefs(as)...)
		as = append(as, x.closure(as)...)
		wg.Add(1)
		go func(i int, o Obl) {
			defer wg.Done()
			r := c.S.Query(B, as, nil, 10*time.Second)
			out[i] = OblResult{Fn: o.Fn, Cat: "cover", Name: o.Name + " is possible", OK: r.res != "unsat", By: r.by, Model: r.res}
		}(i, o)
	}
	wg.Wait()
	return out
}

// lookupContract is the property lookup of a package.
func (c *Ctx) useLookup(x *Exec, pkg string) {
	for _, f := range c.lookups(pkg) {
		x.contract[f] = func(x *Exec, st *State, args []Val) Val {
			B := x.B
			s, ok := args[0].(VSlice)
			if !ok || (s.Base != nil && s.Base.Kind != "text") || x.I == nil {
				unsup("lookup of %s", baseName(s.Base))
			}
			x.Assumed["contract of the property lookup of "+pkg+" (discharged in the same run, category table/width)"] = true
			x.oblige(st, "safety", "lookup of non-empty data", B.Lt(B.Int(0), s.Len))
			x.touched(s.Off)
			if s.Base == nil {
				return VTuple{[]Val{VScalar{x.fresh("nolookup", SBV(x.I.pw))}, VScalar{x.fresh("nowidth", SInt)}}}
			}
			full := B.Le(x.I.Need(s.Off), s.Len)
			return VTuple{[]Val{VScalar{B.Ite(full, x.I.P(s.Off), B.BV(0, x.I.pw))}, VScalar{B.Ite(full, x.I.W(s.Off), B.Int(0))}}}
		}
	}
}

func textBase(x *Exec) *Base {
	if b, ok := x.bases["text"]; ok {
		return b
	}
	b := &Base{Kind: "text", Name: "data"}
	x.bases["text"] = b
	return b
}

// panicsAreBad turns collected panics into obligations.
func (x *Exec) panicsAreBad() {
	for _, p := range x.Panics {
		x.Obls = append(x.Obls, Obl{x.curFn, "safety", p.Msg + " is unreachable", p.PC, x.B.False})
	}
	x.Panics = nil
}

// verifySplit checks a split function against the contract of its theory:
//
//	requires 0 <= n <= N, atEOF => n == N   (the data is a prefix of a text)
//	ensures  n == 0 => (0, empty, nil)
//	ensures  r > 0 => r is the first boundary after 0 in the whole text,
//	                  the token is data[:r], and there is no error
//	ensures  r == 0 => !atEOF, no token, no error, and the boundary is not
//	                  settled by the prefix
func (c *Ctx) verifySplit(theory string, joiners bool, name string, mkf func(x *Exec) (VFunc, *State)) *FnResult {
	return c.verify(name, theory+".spec split", func(x *Exec) {
		B := x.B
		x.I = c.inst(x, theory)
		I := x.I
		if joiners {
			c.setJoiners(x)
		}
		c.addLemmas(x, theory)
		c.useLookup(x, I.th.Package)
		atEOF := B.Var("atEOF", SBool)
		n, N := I.n, I.N
		x.Ghost = append(x.Ghost, B.Le(B.Int(0), n), B.Le(n, N), B.Imp(atEOF, B.Eq(n, N)))
		f, st := mkf(x)
		if f.Fn == nil {
			unsup("the split function is not known")
		}
		ps := f.Fn.Signature.Params()
		if ps.Len() != 2 || !(isStringT(ps.At(0).Type()) || isBytesT(ps.At(0).Type())) {
			unsup("%s does not have the signature of a split function", f.Fn)
		}
		data := VSlice{Base: textBase(x), Off: B.Int(0), Len: n, Nil: B.Var("dataNil", SBool)}
		if isStringT(ps.At(0).Type()) {
			data.Nil = B.False
		} else {
			x.Ghost = append(x.Ghost, B.Imp(data.Nil, B.Eq(n, B.Int(0))))
		}
		c.useSubsequent(x, I.th.Package)
		v, out := x.call(f.Fn, f.Bind, []Val{data, VScalar{atEOF}}, st)
		x.panicsAreBad()
		if out == nil {
			x.Obls = append(x.Obls, Obl{x.curFn, "safety", "returns", nil, B.False})
			return
		}
		c.splitPost(x, out, v, data, atEOF)
	})
}

func (c *Ctx) splitPost(x *Exec, out *State, v Val, data VSlice, atEOF *Term) {
	B, I := x.B, x.I
	n, N := I.n, I.N
	tu := v.(VTuple)
	r := tu.V[0].(VScalar).T
	tok := tu.V[1].(VSlice)
	errv := tu.V[2].(VIface)
	rp := B.Lt(B.Int(0), r)
	ob := func(cat, name string, t *Term) { x.oblige(out, cat, name, t) }
	ob("safety", "error is nil", errv.Nil)
	ob("safety", "0 <= advance <= len(data)", B.And(B.Le(B.Int(0), r), B.Le(r, n)))
	ob("safety", "progress at end of input", B.Imp(B.And(atEOF, B.Lt(B.Int(0), n)), rp))
	ob("safety", "nothing for empty data", B.Imp(B.Eq(n, B.Int(0)), B.Eq(r, B.Int(0))))
	view := B.Bool((tok.Base == data.Base || tok.Base == nil) && !tok.Copy)
	if tok.Base == nil {
		view = B.Not(rp)
	}
	ob("view", "token is data[:advance]", B.Imp(rp, B.And(view, B.Eq(tok.Off, data.Off), B.Eq(tok.Len, r))))
	ob("safety", "no token without advance", B.Imp(B.Eq(r, B.Int(0)), B.Eq(tok.Len, B.Int(0))))
	ob("stream", "no token without advance (nil)", B.Imp(B.And(B.Eq(r, B.Int(0)), B.Not(atEOF)), B.Or(tok.Nil, B.Bool(tok.Base == nil), B.Bool(c.strTok(data)))))
	ob("grid", "advance ends on a character", B.Imp(rp, I.G(r)))
	for _, e := range []struct {
		n string
		t *Term
	}{{"at end of input", atEOF}, {"before end of input", B.Not(atEOF)}} {
		cat := "rules"
		if e.t != atEOF {
			cat = "stream"
		}
		ob(cat, "no boundary before the advance, "+e.n, B.Imp(B.And(rp, e.t), I.AJ(r)))
		ob(cat, "boundary at the advance, "+e.n, B.Imp(B.And(rp, e.t), B.Or(B.Eq(r, N), B.Not(I.Join(r)))))
	}
	x.cover(out, "a token shorter than the data, at the end of input", B.And(rp, atEOF, B.Lt(r, n)))
	x.cover(out, "a token of all the data, at the end of input", B.And(rp, atEOF, B.Eq(r, n)))
	if !atEOF.IsConst() {
		x.cover(out, "a token before the end of input", B.And(rp, B.Not(atEOF)))
		x.cover(out, "a request for more data", B.And(B.Not(rp), B.Not(atEOF), B.Lt(B.Int(0), n)))
	}
	// requests for more data
	var qs []*Term
	q0 := append([]*Term{I.start, n}, x.allTouched()...)
	for _, q := range q0 {
		qs = append(qs, B.And(I.G(q), I.AJ(q), B.Le(I.start, q), B.Le(q, n), B.Or(B.Eq(q, n), B.Lt(B.Sub(n, q), I.Need(q)), B.And(B.Not(B.Eq(q, I.start)), I.Und(q)))))
	}
	ob("stream", "asks for more only when the prefix does not settle the boundary", B.Imp(B.And(B.Eq(r, B.Int(0)), B.Not(atEOF)), B.Or(qs...)))
}

func (c *Ctx) strTok(d VSlice) bool { return d.Nil.IsConst() }

func (x *Exec) allTouched() []*Term {
	seen := map[*Term]bool{}
	var out []*Term
	for _, t := range x.touch {
		if !seen[t] {
			seen[t] = true
			out = append(out, t)
		}
	}
	return out
}

// setJoiners: rune sets Middle and Leading, both possibly nil or empty.
func (c *Ctx) setJoiners(x *Exec) {
	I := x.I
	if !I.th.Joiners {
		return
	}
	B := x.B
	m, l := x.runeSet("Middle"), x.runeSet("Leading")
	I.joinM = func(F *Inst, o *Term) *Term { return B.And(B.Not(B.Eq(o, F.start)), m.contains(x, I.Rune(o))) }
	I.joinL = func(F *Inst, o *Term) *Term { return B.And(B.Eq(o, F.start), l.contains(x, I.Rune(o))) }
}

func (c *Ctx) runeSlice(x *Exec, name string) VSlice {
	B := x.B
	s := x.runeSet(name)
	k := "runes:" + name
	if x.bases[k] == nil {
		x.bases[k] = &Base{Kind: "runes", Name: name}
	}
	nl := B.Var("nil:"+name, SBool)
	x.Ghost = append(x.Ghost, B.Imp(nl, B.Eq(s.len, B.Int(0))), B.Le(B.Int(0), s.len), B.Le(s.len, B.Int(maxInt)))
	return VSlice{Base: x.bases[k], Off: B.Int(0), Len: s.len, Nil: nl}
}

// useSubsequent discovers look-ahead helpers by shape, (property, T, bool) ->
// (int, bool), proves the look-ahead contract for each, and uses the contract
// at call sites when the proof succeeds (otherwise they are inlined).
func (c *Ctx) useSubsequent(x *Exec, pkg string) {
	if x.I.th.Look("NX") == nil {
		return
	}
	for f := range c.P.Funcs {
		if relPkg(f) != pkg || f.Blocks == nil || f.Parent() != nil || f.Signature.Recv() != nil {
			continue
		}
		if !subsequentShape(f.Signature) {
			continue
		}
		for _, p := range f.TypeArgs() {
			if _, ok := p.(*types.TypeParam); ok {
				f = nil
				break
			}
		}
		if f == nil {
			continue
		}
		r := c.subsequentResult(x.I.th.Name, f)
		if len(r.bad()) > 0 {
			continue // inlined instead
		}
		f := f
		x.contract[f] = func(x *Exec, st *State, args []Val) Val {
			B, I := x.B, x.I
			props := args[0].(VScalar).T
			s := args[1].(VSlice)
			eof := args[2].(VScalar).T
			if s.Base == nil || s.Base.Kind != "text" {
				unsup("look-ahead outside the text")
			}
			x.oblige(st, "safety", "look-ahead runs to the end of the data", B.And(B.Eq(B.Add(s.Off, s.Len), I.n), B.Le(B.Int(0), s.Len), I.G(s.Off), B.Imp(eof, B.Eq(I.n, I.N))))
			pd := I.Look("PD", s.Off)
			more := B.And(B.Not(eof), pd)
			no := I.Look("NO", s.Off)
			ok := B.And(B.Not(more), B.Not(B.Eq(no, B.Int(-1))), B.Is(I.Look("NX", s.Off), props))
			adv := B.Ite(ok, B.Sub(no, s.Off), B.Int(-1))
			x.touched(s.Off)
			return VTuple{[]Val{VScalar{adv}, VScalar{more}}}
		}
	}
}

func subsequentShape(s *types.Signature) bool {
	if s.Params().Len() != 3 || s.Results().Len() != 2 {
		return false
	}
	p, r := s.Params(), s.Results()
	ps, _, ok := scalarSort(p.At(0).Type())
	if !ok || ps.K != 'V' {
		return false
	}
	if t := p.At(1).Type(); !(isStringT(t) || isBytesT(t)) {
		return false
	}
	if !isBoolT(p.At(2).Type()) || !isBoolT(r.At(1).Type()) {
		return false
	}
	rs, _, ok := scalarSort(r.At(0).Type())
	return ok && rs.K == 'I'
}

func (c *Ctx) subsequentResult(theory string, f *ssa.Function) *FnResult {
	c.mu.Lock()
	k := theory + "/" + f.String()
	o := c.once[k]
	if o == nil {
		o = &sync.Once{}
		c.once[k] = o
	}
	c.mu.Unlock()
	o.Do(func() {
		r := c.verify(f.String(), theory+".spec look-ahead (NX, NO, PD)", func(x *Exec) {
			B := x.B
			x.I = c.inst(x, theory)
			I := x.I
			c.setJoiners(x)
			c.addLemmas(x, theory)
			c.useLookup(x, I.th.Package)
			o := B.Var("from", SInt)
			eof := B.Var("atEOF", SBool)
			props := B.Var("props", SBV(I.pw))
			x.Ghost = append(x.Ghost, B.Le(I.start, o), B.Le(o, I.n), B.Le(I.n, I.N), I.G(o), B.Imp(eof, B.Eq(I.n, I.N)))
			s := VSlice{Base: textBase(x), Off: o, Len: B.Sub(I.n, o), Nil: B.False}
			st := &State{env: newEnv(), mem: Mem{}}
			v, out := x.call(f, nil, []Val{VScalar{props}, s, VScalar{eof}}, st)
			x.panicsAreBad()
			tu := v.(VTuple)
			adv, more := tu.V[0].(VScalar).T, tu.V[1].(VScalar).T
			no := I.Look("NO", o)
			x.oblige(out, "look", "asks for more exactly when the next character may lie beyond the data", B.Eq(more, B.And(B.Not(eof), I.Look("PD", o))))
			found := B.And(B.Not(more), B.Not(B.Eq(no, B.Int(-1))), B.Is(I.Look("NX", o), props))
			x.cover(out, "a character that is found", found)
			x.cover(out, "a request for more data", more)
			x.cover(out, "a character that is not found", B.And(B.Not(more), B.Not(found), B.Lt(o, I.n)))
			x.oblige(out, "look", "finds exactly the next non-ignored character when it has the property", B.Eq(adv, B.Ite(found, B.Sub(no, o), B.Int(-1))))
		})
		c.mu.Lock()
		c.subs[k] = r
		c.mu.Unlock()
	})
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.subs[k]
}
