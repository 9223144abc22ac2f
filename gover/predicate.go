package main

// Predicates on byte slices: the Bleve token types and the alphanumeric
// filter. Contract, with first and join from the theory:
//
//	result == (len == 0 or (first holds at the start and every later
//	           character joins)), or its negation for a negated theory
//
// and the slice is not written.

import (
	"go/types"
)

func (c *Ctx) verifyPredicate(theory, name string, mkf func(x *Exec) VFunc) *FnResult {
	return c.verify(name, theory+".spec predicate", func(x *Exec) {
		B := x.B
		x.I = c.inst(x, theory)
		I := x.I
		I.n = I.N
		c.addLemmas(x, theory)
		I.facts = c.lemmasOf(theory).ok["facts"]
		if I.th.Package != "" {
			c.useLookup(x, I.th.Package)
		}
		x.Ghost = append(x.Ghost, B.Le(B.Int(0), I.N))
		f := mkf(x)
		if f.Fn == nil {
			unsup("the predicate is not known")
		}
		if !predicateShape(f.Fn.Signature) {
			unsup("%s is not a predicate on a byte slice", f.Fn)
		}
		data := x.textData(false)
		if I.th.Package != "" {
			c.useSubsequent(x, I.th.Package)
		}
		v, out := x.call(f.Fn, f.Bind, []Val{data}, &State{env: newEnv(), mem: Mem{}})
		x.panicsAreBad()
		if out == nil {
			x.Obls = append(x.Obls, Obl{x.curFn, "safety", "returns", nil, B.False})
			return
		}
		r := v.(VScalar).T
		ok := B.And(I.ev(I.th.First, ienv{o: I.start}), I.AJ(I.N))
		yes, no := "accepts only what the contract accepts", "accepts what the contract accepts"
		if I.th.Negated {
			yes, no = no, yes
			r = B.Not(r)
		}
		empty := B.Eq(I.N, B.Int(0))
		x.cover(out, "acceptance", B.And(B.Not(empty), r))
		x.cover(out, "rejection", B.And(B.Not(empty), B.Not(r)))
		x.oblige(out, "rules", "the empty slice", B.Imp(empty, r))
		x.oblige(out, "rules", yes, B.Imp(B.And(B.Not(empty), r), ok))
		x.oblige(out, "rules", no, B.Imp(B.And(B.Not(empty), ok), r))
	})
}

func predicateShape(s *types.Signature) bool {
	return s.Recv() == nil && s.Params().Len() == 1 && isBytesT(s.Params().At(0).Type()) && s.Results().Len() == 1 && isBoolT(s.Results().At(0).Type())
}

// unitPredicate verifies an exported function, or the initial value of an
// exported function variable, of a package.
func (c *Ctx) unitPredicate(theory, pkg, name string) []*FnResult {
	return c.unit("predicate "+pkg+"."+name, func() []*FnResult {
		return []*FnResult{c.verifyPredicate(theory, modPath+"/"+pkg+"."+name, func(x *Exec) VFunc {
			if f := c.P.FindFunc(pkg, name, ""); f != nil {
				return VFunc{Fn: f, Nil: x.B.False}
			}
			p := c.P.Pkgs[pkg]
			if p == nil || p.Var(name) == nil {
				unsup("no %s in %s", name, pkg)
			}
			f, ok := x.globalLoad(p.Var(name), nil).(VFunc)
			if !ok {
				unsup("the value of %s.%s is not known", pkg, name)
			}
			return f
		})}
	})
}
