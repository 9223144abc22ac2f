package main

// Units: groups of functions verified together. Every unit is verified at
// most once per run.

import (
	"fmt"
	"sort"
	"sync"
)

type unitRes struct {
	once sync.Once
	rs   []*FnResult
}

func (c *Ctx) unit(key string, f func() []*FnResult) []*FnResult {
	c.mu.Lock()
	if c.units == nil {
		c.units = map[string]*unitRes{}
	}
	u := c.units[key]
	if u == nil {
		u = &unitRes{}
		c.units[key] = u
	}
	c.mu.Unlock()
	u.once.Do(func() {
		defer func() {
			if r := recover(); r != nil {
				msg := fmt.Sprintf("internal: %v", r)
				if e, ok := r.(unsupported); ok {
					msg = "outside the verified subset: " + e.msg
				}
				u.rs = append(u.rs, reachResult(key, msg))
			}
		}()
		u.rs = f()
		for _, r := range u.rs {
			r.Unit = key
		}
	})
	return u.rs
}

func reachResult(key, msg string) *FnResult {
	return &FnResult{Fn: key, Unit: key, Err: msg, Obls: []OblResult{{Fn: key, Cat: "reach", Name: msg}}}
}

var packages4 = []string{"graphemes", "words", "phrases", "sentences"}

// splitLeafOf finds the function an iterator of this kind calls.
func (c *Ctx) splitLeafOf(k objKind) VFunc {
	x := NewExec(c.P, c.S)
	p, st := c.setup(x, k)
	return onlyFunc(k.String(), st.mem[p.Obj])
}

// unitSplit verifies the split function that iterators over this data type
// use.
func (c *Ctx) unitSplit(pkg, targ string) []*FnResult {
	return c.unit("split "+pkg+" "+targ, func() []*FnResult {
		f := c.splitLeafOf(objKind{pkg: pkg, targ: targ, theory: pkg, mode: "plain"})
		return []*FnResult{c.splitFn(pkg, f)}
	})
}

func (c *Ctx) splitFn(theory string, f VFunc) *FnResult {
	rs := c.unit("fn "+theory+" "+f.Fn.String(), func() []*FnResult {
		return []*FnResult{c.verifySplit(theory, false, f.Fn.String(), func(x *Exec) (VFunc, *State) {
			return VFunc{Fn: f.Fn, Nil: x.B.False}, &State{env: newEnv(), mem: Mem{}}
		})}
	})
	return rs[0]
}

// unitExported verifies the package's exported split function.
func (c *Ctx) unitExported(pkg string) []*FnResult {
	return c.unit("exported split "+pkg, func() []*FnResult {
		g := c.P.Pkgs[pkg].Var("SplitFunc")
		if g == nil {
			f := c.P.FindFunc(pkg, "SplitFunc", "")
			if f == nil {
				unsup("no exported split function in %s", pkg)
			}
			return []*FnResult{c.splitFn(pkg, VFunc{Fn: f})}
		}
		x := NewExec(c.P, c.S)
		f, ok := x.globalLoad(g, nil).(VFunc)
		if !ok || f.Fn == nil {
			unsup("the initial value of %s.SplitFunc is not known", pkg)
		}
		r := c.splitFn(pkg, f)
		// a shallow copy: the evidence names the exported variable
		q := *r
		return []*FnResult{&q}
	})
}

func (c *Ctx) unitObj(k objKind) []*FnResult {
	return c.unit("iterator "+k.String()+" "+k.theory+" "+k.mode, func() []*FnResult { return c.runMachine(k) })
}

func (c *Ctx) unitLemmas(theory string) []*FnResult {
	return c.unit("lemmas "+theory, func() []*FnResult {
		r := c.lemmasOf(theory)
		return []*FnResult{{Fn: theory + ".spec", Contract: "lemmas", Obls: r.obls(theory), Time: r.time}}
	})
}

func (c *Ctx) unitNest() []*FnResult {
	return c.unit("nest", func() []*FnResult {
		r := c.nestLemmas()
		return []*FnResult{{Fn: "words.spec + phrases.spec", Contract: "nesting lemmas", Obls: r.obls("words+phrases"), Time: r.time}}
	})
}

// look-ahead helpers and recognisers proved while verifying their callers,
// which use the contract
func (c *Ctx) subResults() []*FnResult {
	c.mu.Lock()
	defer c.mu.Unlock()
	var ks []string
	for k := range c.subs {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var out []*FnResult
	for _, k := range ks {
		if len(c.subs[k].bad()) == 0 && c.subs[k].Err == "" {
			out = append(out, c.subs[k])
		}
	}
	return out
}

var plainTargs = []string{"string", "[]byte"}
var allTargs = []string{"string", "[]byte", "verifStr", "verifBytes"}

func plainKind(pkg, targ string) objKind {
	return objKind{pkg: pkg, targ: targ, theory: pkg, mode: "plain"}
}

// unitJoinSplit verifies the split function that Joiners installs, for
// arbitrary joiner sets.
func (c *Ctx) unitJoinSplit(targ string) []*FnResult {
	return c.unit("split words with joiners "+targ, func() []*FnResult {
		k := joinKind(targ)
		return []*FnResult{c.verifySplit("words", true, "(words.Iterator["+targ+"]).Joiners' split function", func(x *Exec) (VFunc, *State) {
			p, st := c.setup(x, k)
			return onlyFunc(k.String(), st.mem[p.Obj]), st
		})}
	})
}

func onlyFunc(what string, v Val) VFunc {
	var out []VFunc
	leaves(v, nil, func(_ []int, v Val) {
		if f, ok := v.(VFunc); ok && f.Fn != nil {
			out = append(out, f)
		}
	})
	if len(out) != 1 {
		unsup("%s holds %d functions", what, len(out))
	}
	return out[0]
}
