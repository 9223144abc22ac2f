package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Symbolic values.

type Val interface{}

type VScalar struct{ T *Term }

// Base is what a slice or string views. Indexes into it are absolute; for
// text they are the ghost text offsets.
type Base struct {
	Kind string // text, const, array, runes, unknown
	Name string
	Str  string // const
	Obj  *Obj   // array
	Path []int
	val  Val // contents, when fixed
}

type VSlice struct {
	Base     *Base
	Off, Len *Term
	Nil      *Term
	Copy     bool // contents were copied, so it is not a view of Base
}

type Obj struct {
	Name string
	T    types.Type
	// Caller is set for objects the caller can see (receivers, arguments).
	Caller bool
	Global *ssa.Global
}

type VPtr struct {
	Obj  *Obj
	Path []int
	Nil  *Term
}

type VElemPtr struct { // pointer to an element of a slice or array
	S   *VSlice
	Idx *Term // absolute
	Arr *VPtr
}

type VStruct struct{ F []Val }
type VTuple struct{ V []Val }

type VFunc struct {
	Fn      *ssa.Function
	Bind    []Val
	Unknown string // named arbitrary function
	Nil     *Term
}

type VIface struct {
	T   types.Type // dynamic type when known
	V   Val
	Nil *Term
}

type VOpaque struct{ Name string }

type unsupported struct{ msg string }

func unsup(f string, a ...any) { panic(unsupported{fmt.Sprintf(f, a...)}) }

// basic type classification
func isBoolT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
func isStringT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// intSort: int, int64 and untyped ints are mathematical integers with range
// obligations; every other integer type is a bit-vector of its width.
func scalarSort(t types.Type) (Sort, bool, bool) { // sort, signed, ok
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return Sort{}, false, false
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return SBool, false, true
	case types.Int, types.Int64, types.UntypedInt:
		return SInt, true, true
	case types.Int8:
		return SBV(8), true, true
	case types.Int16:
		return SBV(16), true, true
	case types.Int32, types.UntypedRune:
		return SBV(32), true, true
	case types.Uint8:
		return SBV(8), false, true
	case types.Uint16:
		return SBV(16), false, true
	case types.Uint32:
		return SBV(32), false, true
	case types.Uint64, types.Uint, types.Uintptr:
		return SBV(64), false, true
	}
	return Sort{}, false, false
}

func (x *Exec) zero(t types.Type) Val {
	if s, _, ok := scalarSort(t); ok {
		switch s.K {
		case 'B':
			return VScalar{x.B.False}
		case 'I':
			return VScalar{x.B.Int(0)}
		}
		return VScalar{x.B.BV(0, s.W)}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return x.strConst("")
		}
	case *types.Slice:
		return VSlice{Off: x.B.Int(0), Len: x.B.Int(0), Nil: x.B.True}
	case *types.Struct:
		var f []Val
		for i := 0; i < u.NumFields(); i++ {
			f = append(f, x.zero(u.Field(i).Type()))
		}
		return VStruct{f}
	case *types.Array:
		if u.Len() > 4096 {
			unsup("array of length %d", u.Len())
		}
		var f []Val
		for i := int64(0); i < u.Len(); i++ {
			f = append(f, x.zero(u.Elem()))
		}
		return VStruct{f}
	case *types.Pointer:
		return VPtr{Nil: x.B.True}
	case *types.Signature:
		return VFunc{Nil: x.B.True}
	case *types.Interface:
		return VIface{Nil: x.B.True}
	}
	unsup("zero value of %s", t)
	return nil
}

func (x *Exec) strConst(s string) Val {
	if s == "" {
		return VSlice{Off: x.B.Int(0), Len: x.B.Int(0), Nil: x.B.False}
	}
	return VSlice{Base: x.constBase(s), Off: x.B.Int(0), Len: x.B.Int(int64(len(s))), Nil: x.B.False}
}

func (x *Exec) constBase(s string) *Base {
	k := "const:" + s
	if b, ok := x.bases[k]; ok {
		return b
	}
	b := &Base{Kind: "const", Name: k, Str: s}
	x.bases[k] = b
	return b
}

// ite merges two values of the same type.
func (x *Exec) ite(c *Term, a, b Val) Val {
	if c == x.B.True {
		return a
	}
	if c == x.B.False {
		return b
	}
	switch p := a.(type) {
	case nil:
		return b
	case VScalar:
		q := b.(VScalar)
		return VScalar{x.B.Ite(c, p.T, q.T)}
	case VSlice:
		q, ok := b.(VSlice)
		if !ok {
			unsup("merge of slice with %T", b)
		}
		base := p.Base
		off := x.B.Ite(c, p.Off, q.Off)
		if p.Base != q.Base {
			switch {
			case p.Base == nil:
				base = q.Base
				off = q.Off
			case q.Base == nil:
				off = p.Off
			default:
				unsup("merge of views of different data (%s, %s)", p.Base.Name, q.Base.Name)
			}
		}
		return VSlice{base, off, x.B.Ite(c, p.Len, q.Len), x.B.Ite(c, p.Nil, q.Nil), p.Copy || q.Copy}
	case VStruct:
		q := b.(VStruct)
		if len(p.F) != len(q.F) {
			unsup("merge of different structs")
		}
		f := make([]Val, len(p.F))
		for i := range f {
			f[i] = x.ite(c, p.F[i], q.F[i])
		}
		return VStruct{f}
	case VTuple:
		q := b.(VTuple)
		f := make([]Val, len(p.V))
		for i := range f {
			f[i] = x.ite(c, p.V[i], q.V[i])
		}
		return VTuple{f}
	case VPtr:
		q, ok := b.(VPtr)
		if !ok {
			unsup("merge of pointer with %T", b)
		}
		if p.Obj == nil {
			return VPtr{q.Obj, q.Path, x.B.Ite(c, p.Nil, q.Nil)}
		}
		if q.Obj == nil {
			return VPtr{p.Obj, p.Path, x.B.Ite(c, p.Nil, q.Nil)}
		}
		if p.Obj != q.Obj || !eqPath(p.Path, q.Path) {
			unsup("merge of pointers to different objects")
		}
		return VPtr{p.Obj, p.Path, x.B.Ite(c, p.Nil, q.Nil)}
	case VElemPtr:
		q, ok := b.(VElemPtr)
		if ok && p.S != nil && q.S != nil && p.S.Base == q.S.Base {
			return VElemPtr{S: p.S, Idx: x.B.Ite(c, p.Idx, q.Idx)}
		}
		unsup("merge of element pointers")
	case VFunc:
		q, ok := b.(VFunc)
		if ok && sameFunc(p, q) {
			return p
		}
		unsup("merge of different function values")
	case VIface:
		q, ok := b.(VIface)
		if !ok {
			unsup("merge of interface")
		}
		r := VIface{Nil: x.B.Ite(c, p.Nil, q.Nil)}
		if p.T != nil && q.T != nil && types.Identical(p.T, q.T) {
			r.T = p.T
			r.V = x.ite(c, p.V, q.V)
		} else if p.Nil == x.B.True {
			r.T, r.V = q.T, q.V
		} else if q.Nil == x.B.True {
			r.T, r.V = p.T, p.V
		}
		return r
	case VOpaque:
		if q, ok := b.(VOpaque); ok && p == q {
			return p
		}
		return VOpaque{"merged"}
	}
	unsup("merge of %T", a)
	return nil
}

func sameFunc(p, q VFunc) bool {
	if p.Fn != q.Fn || p.Unknown != q.Unknown || len(p.Bind) != len(q.Bind) || p.Nil != q.Nil {
		return false
	}
	for i := range p.Bind {
		a, ok1 := p.Bind[i].(VPtr)
		b, ok2 := q.Bind[i].(VPtr)
		if !ok1 || !ok2 || a.Obj != b.Obj || !eqPath(a.Path, b.Path) {
			return false
		}
	}
	return true
}

func eqPath(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func getPath(v Val, path []int) Val {
	for _, i := range path {
		s, ok := v.(VStruct)
		if !ok || i >= len(s.F) {
			unsup("field access into %T", v)
		}
		v = s.F[i]
	}
	return v
}

func setPath(v Val, path []int, nv Val) Val {
	if len(path) == 0 {
		return nv
	}
	s, ok := v.(VStruct)
	if !ok {
		unsup("field store into %T", v)
	}
	f := append([]Val(nil), s.F...)
	f[path[0]] = setPath(f[path[0]], path[1:], nv)
	return VStruct{f}
}

// eqVal is syntactic equality of symbolic values.
func eqVal(a, b Val) bool {
	switch p := a.(type) {
	case nil:
		return b == nil
	case VScalar:
		q, ok := b.(VScalar)
		return ok && p.T == q.T
	case VSlice:
		q, ok := b.(VSlice)
		return ok && p == q
	case VStruct:
		q, ok := b.(VStruct)
		if !ok || len(p.F) != len(q.F) {
			return false
		}
		for i := range p.F {
			if !eqVal(p.F[i], q.F[i]) {
				return false
			}
		}
		return true
	case VPtr:
		q, ok := b.(VPtr)
		return ok && p.Obj == q.Obj && eqPath(p.Path, q.Path) && p.Nil == q.Nil
	case VFunc:
		q, ok := b.(VFunc)
		return ok && sameFunc(p, q)
	case VIface:
		q, ok := b.(VIface)
		return ok && p.Nil == q.Nil && ((p.T == nil && q.T == nil) || (p.T != nil && q.T != nil && types.Identical(p.T, q.T) && eqVal(p.V, q.V)))
	case VOpaque:
		q, ok := b.(VOpaque)
		return ok && p == q
	case VTuple:
		q, ok := b.(VTuple)
		if !ok || len(p.V) != len(q.V) {
			return false
		}
		for i := range p.V {
			if !eqVal(p.V[i], q.V[i]) {
				return false
			}
		}
		return true
	}
	return false
}

// leaves lists the (path, value) leaves of a stored value.
func leaves(v Val, path []int, f func(path []int, v Val)) {
	if s, ok := v.(VStruct); ok {
		for i, e := range s.F {
			leaves(e, append(append([]int(nil), path...), i), f)
		}
		return
	}
	f(path, v)
}
