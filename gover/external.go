package main

// Contracts of functions outside the module (trusted, listed in evidence).

import (
	"golang.org/x/tools/go/ssa"
)

func (x *Exec) external(st *State, fn *ssa.Function, args []Val, where string) (Val, bool) {
	name := fn.String()
	if fn.Origin() != nil {
		name = fn.Origin().String()
	}
	return x.external1(st, name, args, where)
}

func (x *Exec) external1(st *State, name string, args []Val, where string) (Val, bool) {
	B := x.B
	if v, ok := x.scannerExternal(st, name, args, where); ok {
		return v, true
	}
	decode := func(a Val) (Val, bool) {
		s, ok := a.(VSlice)
		if !ok || s.Base == nil || s.Base.Kind != "text" || x.I == nil {
			return nil, false
		}
		x.Assumed[assumedStd(name)] = true
		x.touched(s.Off)
		empty := B.Eq(s.Len, B.Int(0))
		if x.I.utf8 {
			// the view must reach the end of the text
			x.oblige(st, "safety", "decoded text reaches the end of the data "+where, B.Eq(B.Add(s.Off, s.Len), x.I.N))
			r := B.Ite(empty, B.BV(0xFFFD, 32), x.I.Rune(s.Off))
			return VTuple{[]Val{VScalar{r}, VScalar{B.Ite(empty, B.Int(0), x.I.W(s.Off))}}}, true
		}
		full := B.And(B.Not(empty), B.Le(x.I.Need(s.Off), s.Len))
		u := x.fresh("rune", SBV(32))
		w := x.fresh("runewidth", SInt)
		x.assume(st, B.And(B.Le(B.Int(0), w), B.Le(w, B.Int(4)), B.Le(w, s.Len), B.Imp(B.Not(empty), B.Le(B.Int(1), w)),
			B.Imp(B.And(full, B.Eq(x.I.W(s.Off), x.I.Need(s.Off)), x.I.noBad(s.Off)), B.Eq(w, x.I.W(s.Off)))))
		r := B.Ite(full, x.I.Rune(s.Off), u)
		x.noteRune(r)
		x.noteRune(x.I.Rune(s.Off))
		return VTuple{[]Val{VScalar{r}, VScalar{w}}}, true
	}
	switch name {
	case "unicode/utf8.DecodeRune", "unicode/utf8.DecodeRuneInString":
		return decode(args[0])
	case "unicode.IsLetter", "unicode.IsNumber", "unicode.IsDigit":
		r, ok := args[0].(VScalar)
		if ok {
			x.Assumed[assumedStd(name)] = true
			return VScalar{B.App(name, SBool, r.T)}, true
		}
	case "slices.Contains":
		s, ok := args[0].(VSlice)
		r, ok2 := args[1].(VScalar)
		if ok && ok2 && s.Base != nil && s.Base.Kind == "runes" && s.Off.IsConst() && s.Off.V == 0 {
			x.Assumed[assumedStd(name)] = true
			return VScalar{x.runeSet(s.Base.Name).rc(x, s.Len, r.T)}, true
		}
	}
	return nil, false
}

func (x *Exec) noteRune(r *Term) {
	for _, t := range x.runeVals {
		if t == r {
			return
		}
	}
	x.runeVals = append(x.runeVals, r)
}

func (I *Inst) noBad(o *Term) *Term { return I.B.App("validchar", SBool, o) }
