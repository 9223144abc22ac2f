package main

// Reader-based scanners. bufio.Scanner is trusted (its documentation is its
// contract): it hands its split function a prefix of what the reader delivers
// and finally everything with atEOF true. What is verified is that the scanner
// reads the caller's reader, is not given a smaller token limit than its
// default, and has a split function installed that meets the split contract.

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

const (
	scFunc = iota // the installed split function
	scReader
	scFields
)

func (x *Exec) scannerExternal(st *State, name string, args []Val, where string) (Val, bool) {
	B := x.B
	set := func(p VPtr, f int, v Val) {
		m := Mem{}
		for k, w := range st.mem {
			m[k] = w
		}
		m[p.Obj] = setPath(m[p.Obj], append(append([]int(nil), p.Path...), f), v)
		st.mem = m
	}
	ptr := func() VPtr {
		p, ok := args[0].(VPtr)
		if !ok || p.Obj == nil {
			unsup("%s of an unknown scanner at %s", name, where)
		}
		x.oblige(st, "safety", "scanner is not nil "+where, B.Not(p.Nil))
		return p
	}
	switch name {
	case "bufio.NewScanner":
		o := &Obj{Name: "bufio.Scanner"}
		m := Mem{}
		for k, w := range st.mem {
			m[k] = w
		}
		m[o] = VStruct{[]Val{VFunc{Unknown: "bufio.ScanLines", Nil: B.False}, args[0]}}
		st.mem = m
		x.Assumed["contract of bufio.Scanner (standard library): tokens are what the installed split function returns on growing prefixes of the reader's data"] = true
		return VPtr{Obj: o, Nil: B.False}, true
	case "(*bufio.Scanner).Split":
		f, ok := args[1].(VFunc)
		if !ok {
			unsup("split function at %s", where)
		}
		set(ptr(), scFunc, f)
		return VTuple{}, true
	case "(*bufio.Scanner).Buffer":
		ptr()
		n, ok := args[2].(VScalar)
		if !ok {
			unsup("buffer at %s", where)
		}
		x.oblige(st, "stream", "the token limit is not below bufio.MaxScanTokenSize "+where, B.Le(B.Int(65536), n.T))
		return VTuple{}, true
	}
	return nil, false
}

// fromReader runs the package's reader constructor on an arbitrary reader.
func (c *Ctx) fromReader(x *Exec, pkg string, st *State) (VPtr, *ssa.Function, *State) {
	f := c.P.FindFunc(pkg, "FromReader", "")
	if f == nil || f.Signature.Params().Len() != 1 || f.Signature.Results().Len() != 1 {
		unsup("no reader constructor in %s", pkg)
	}
	if _, ok := f.Signature.Params().At(0).Type().Underlying().(*types.Interface); !ok {
		unsup("the reader constructor of %s takes no interface", pkg)
	}
	r := VIface{V: VOpaque{"reader"}, Nil: x.B.Var("readerNil", SBool)}
	v, out := x.call(f, nil, []Val{r}, st)
	x.panicsAreBad()
	if out == nil {
		unsup("the reader constructor does not return")
	}
	p, ok := v.(VPtr)
	if !ok || p.Obj == nil {
		unsup("the reader constructor does not return a pointer")
	}
	x.oblige(out, "safety", "the constructor returns a scanner", x.B.Not(p.Nil))
	return p, f, out
}

// installed finds the scanner's split function.
func (x *Exec) installed(st *State, p VPtr) (VFunc, VPtr) {
	var found []VPtr
	seen := map[*Obj]bool{}
	var walk func(o *Obj)
	walk = func(o *Obj) {
		if seen[o] {
			return
		}
		seen[o] = true
		if o.Name == "bufio.Scanner" {
			found = append(found, VPtr{Obj: o, Nil: x.B.False})
			return
		}
		leaves(st.mem[o], nil, func(path []int, v Val) {
			if q, ok := v.(VPtr); ok && q.Obj != nil {
				walk(q.Obj)
			}
		})
	}
	walk(p.Obj)
	if len(found) != 1 {
		unsup("the scanner holds %d bufio.Scanners", len(found))
	}
	v := st.mem[found[0].Obj].(VStruct)
	f := v.F[scFunc].(VFunc)
	if f.Fn == nil {
		unsup("the scanner's split function is %s", f.Unknown)
	}
	rd, ok := v.F[scReader].(VIface)
	same := false
	if ok {
		o, is := rd.V.(VOpaque)
		same = is && o.Name == "reader"
	}
	if !same {
		unsup("the scanner reads something other than the caller's reader")
	}
	return f, found[0]
}

// unitScanner: the package's reader constructor, and the split function it
// installs.
func (c *Ctx) unitScanner(pkg string) []*FnResult {
	return c.unit("scanner "+pkg, func() []*FnResult {
		var inst VFunc
		r := c.verify(modPath+"/"+pkg+".FromReader", "installs a split function on the caller's reader", func(x *Exec) {
			p, _, out := c.fromReader(x, pkg, &State{env: newEnv(), mem: Mem{}})
			inst, _ = x.installed(out, p)
			x.oblige(out, "stream", "a split function is installed", x.B.Not(inst.Nil))
		})
		out := []*FnResult{r}
		if r.Err != "" {
			return out
		}
		if len(inst.Bind) == 0 {
			return append(out, c.splitFn(pkg, inst))
		}
		return append(out, c.verifySplit(pkg, false, "split function installed by "+pkg+".FromReader", func(x *Exec) (VFunc, *State) {
			p, _, st := c.fromReader(x, pkg, &State{env: newEnv(), mem: Mem{}})
			f, _ := x.installed(st, p)
			return f, st
		}))
	})
}

// unitScannerJoin: the split function that the words scanner's Joiners
// installs, for arbitrary joiner sets.
func (c *Ctx) unitScannerJoin() []*FnResult {
	return c.unit("scanner words with joiners", func() []*FnResult {
		return []*FnResult{c.verifySplit("words", true, "split function installed by (*words.Scanner).Joiners", func(x *Exec) (VFunc, *State) {
			p, f, st := c.fromReader(x, "words", &State{env: newEnv(), mem: Mem{}})
			t, ok := f.Signature.Results().At(0).Type().(*types.Pointer)
			if !ok {
				unsup("the scanner is not a pointer")
			}
			nm, ok := t.Elem().(*types.Named)
			if !ok {
				unsup("the scanner has no methods")
			}
			m := c.P.FindMethod("words", nm.Obj().Name(), "Joiners", "")
			if m == nil || m.Signature.Params().Len() != 1 {
				unsup("the scanner has no Joiners method")
			}
			j := c.joinersObj(x, m.Signature.Params().At(0).Type(), st)
			_, out := x.call(m, nil, []Val{p, j}, st)
			if out == nil {
				unsup("Joiners does not return")
			}
			g, _ := x.installed(out, p)
			return g, out
		})}
	})
}
