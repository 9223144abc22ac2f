package main

// Escape sequences. Recognisers are found by shape, (T) -> int, and proved
// against the byte-level look-ahead functions of ansi.spec; a recogniser that
// is proved is used through its contract, the others are inlined.

import (
	"go/types"
	"sort"
	"sync"

	"golang.org/x/tools/go/ssa"
)

func (c *Ctx) ansiInst(x *Exec, pfx string) *Inst {
	A := c.inst(x, "ansi")
	A.looksOnly = true
	A.pfx = pfx
	return A
}

func recogniserShape(s *types.Signature) bool {
	if s.Params().Len() != 1 || s.Results().Len() != 1 {
		return false
	}
	if t := s.Params().At(0).Type(); !(isStringT(t) || isBytesT(t)) {
		return false
	}
	r, _, ok := scalarSort(s.Results().At(0).Type())
	return ok && r.K == 'I'
}

// recognisers are the functions of package graphemes with that shape.
func (c *Ctx) recognisers(targ string) []*ssa.Function {
	var out []*ssa.Function
	for f := range c.P.Funcs {
		if relPkg(f) != "graphemes" || f.Blocks == nil || f.Parent() != nil || f.Signature.Recv() != nil || !recogniserShape(f.Signature) {
			continue
		}
		if len(f.TypeArgs()) > 0 && !matchTarg(f, targ) {
			continue
		}
		out = append(out, f)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

type ansiRes struct {
	look string // the function it computes, "" when neither
	r    *FnResult
}

func (c *Ctx) ansiResult(f *ssa.Function) *ansiRes {
	c.mu.Lock()
	if c.ansi == nil {
		c.ansi = map[string]*ansiRes{}
	}
	k := "ansi/" + f.String()
	o := c.once[k]
	if o == nil {
		o = &sync.Once{}
		c.once[k] = o
	}
	c.mu.Unlock()
	o.Do(func() {
		res := &ansiRes{}
		for _, look := range []string{"A7", "A8"} {
			r := c.verifyRecogniser(f, look)
			if len(r.bad()) == 0 {
				res.look, res.r = look, r
				break
			}
		}
		c.mu.Lock()
		c.ansi[k] = res
		c.mu.Unlock()
	})
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.ansi[k]
}

// verifyRecogniser checks: the result is the length of the sequence at the
// start of the data, 0 when there is none.
func (c *Ctx) verifyRecogniser(f *ssa.Function, look string) *FnResult {
	return c.verify(f.String(), "ansi.spec "+look, func(x *Exec) {
		B := x.B
		x.I = c.ansiInst(x, "")
		I := x.I
		o := B.Var("from", SInt)
		x.Ghost = append(x.Ghost, B.Le(B.Int(0), o), B.Le(o, I.N), B.Le(I.N, B.Int(maxInt)), B.Eq(I.n, I.N))
		d := VSlice{Base: textBase(x), Off: o, Len: B.Sub(I.N, o), Nil: B.False}
		v, out := x.call(f, nil, []Val{d}, &State{env: newEnv(), mem: Mem{}})
		x.panicsAreBad()
		if out == nil {
			unsup("%s does not return", f)
		}
		r := v.(VScalar).T
		x.oblige(out, "safety", "0 <= length <= len(data)", B.And(B.Le(B.Int(0), r), B.Le(r, d.Len)))
		e := I.Look(look, o)
		x.cover(out, "a sequence", B.Lt(B.Int(0), r))
		x.cover(out, "no sequence", B.And(B.Eq(r, B.Int(0)), B.Lt(B.Int(0), d.Len)))
		x.oblige(out, ansiCat(look), "the length is that of the sequence, 0 when there is none", B.Eq(r, B.Ite(B.Eq(e, B.Int(-1)), B.Int(0), B.Sub(e, o))))
		x.oblige(out, ansiCat(look), "a sequence is not empty", B.Or(B.Eq(e, B.Int(-1)), B.Lt(o, e)))
		if look == "A7" {
			x.oblige(out, "grid", "it ends next to an ASCII byte", B.Imp(B.Lt(B.Int(0), r), c.nextToASCII(x, I, B.Add(o, r))))
		}
	})
}

func ansiCat(look string) string {
	if look == "A7" {
		return "ansi7"
	}
	return "ansi8"
}

func (c *Ctx) nextToASCII(x *Exec, I *Inst, e *Term) *Term {
	B := x.B
	ascii := func(o *Term) *Term { return B.BvCmp("bvult", I.Byte(o), B.BV(0x80, 8)) }
	return B.Or(B.Eq(e, I.N), ascii(e), ascii(B.Sub(e, B.Int(1))))
}

// useAnsi gives recognisers their contracts in an iterator method.
func (c *Ctx) useAnsi(x *Exec, k objKind) {
	I := x.I
	A := c.ansiInst(x, "a:")
	if I.other == nil {
		I.other = map[string]*Inst{}
	}
	I.other["ansi"] = A
	for _, f := range c.recognisers(k.targ) {
		r := c.ansiResult(f)
		if r.look == "" {
			continue
		}
		look := r.look
		x.contract[f] = func(x *Exec, st *State, args []Val) Val {
			B := x.B
			s, ok := args[0].(VSlice)
			if !ok || s.Base == nil || s.Base.Kind != "text" {
				unsup("escape sequence in other data")
			}
			x.oblige(st, "safety", "the recogniser is given all the remaining text", B.And(B.Eq(B.Add(s.Off, s.Len), I.N), B.Le(B.Int(0), s.Off), B.Le(B.Int(0), s.Len)))
			x.Assumed["contract of "+f.String()+" (discharged for its body)"] = true
			x.touched(s.Off)
			e := A.Look(look, s.Off)
			n := B.Ite(B.Eq(e, B.Int(-1)), B.Int(0), B.Sub(e, s.Off))
			x.assume(st, B.And(B.Le(B.Int(0), n), B.Le(n, s.Len), B.Or(B.Eq(e, B.Int(-1)), B.Lt(s.Off, e))))
			if look == "A7" {
				x.assume(st, B.Imp(B.Lt(B.Int(0), n), c.nextToASCII(x, I, e)))
			}
			return VScalar{n}
		}
	}
}

// unitAnsi are the recognisers that are proved.
func (c *Ctx) unitAnsi(targ string) []*FnResult {
	return c.unit("ansi recognisers "+targ, func() []*FnResult {
		var out []*FnResult
		for _, f := range c.recognisers(targ) {
			if r := c.ansiResult(f); r.look != "" {
				out = append(out, r.r)
			}
		}
		return out
	})
}
