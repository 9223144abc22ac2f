package main

// Contracts of standard library functions the tokenizers call, decided from
// the library's own source.

import (
	"fmt"
	"os"
	"strings"
	"sync"
	"time"
	"unicode"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

func assumedStd(name string) string { return "contract of " + name + " (standard library)" }

// loadStd loads one standard library package of the toolchain that builds the
// repository.
func loadStd(repo, path string) (*Program, error) {
	cfg := &packages.Config{Mode: packages.LoadSyntax, Dir: repo,
		Env: append(os.Environ(), "GOFLAGS=-mod=mod -buildvcs=false", "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local", "GOWORK=off")}
	pk, err := packages.Load(cfg, path)
	if err != nil {
		return nil, err
	}
	for _, p := range pk {
		for _, e := range p.Errors {
			return nil, e
		}
	}
	prog, sp := ssautil.Packages(pk, ssa.InstantiateGenerics)
	prog.Build()
	P := &Program{Prog: prog, Pkgs: map[string]*ssa.Package{}}
	for _, s := range sp {
		if s != nil {
			P.Pkgs[s.Pkg.Path()] = s
		}
	}
	P.Funcs = ssautil.AllFunctions(prog)
	return P, nil
}

// stdSource: the library packages whose functions are executed from their
// source, like the module's own; nil is every function.
var stdSource = map[string]map[string]bool{
	"unicode/utf8": nil,
	"bytes":        {"IndexFunc": true, "ContainsFunc": true, "indexFunc": true},
	"strings":      {"IndexFunc": true, "ContainsFunc": true, "indexFunc": true},
}

// stdBody is the source of such a function.
func (P *Program) stdBody(fn *ssa.Function) *ssa.Function {
	if fn.Pkg == nil || fn.Signature.Recv() != nil || fn.Parent() != nil {
		return nil
	}
	path := fn.Pkg.Pkg.Path()
	names, ok := stdSource[path]
	if !ok || names != nil && !names[fn.Name()] {
		return nil
	}
	P.stdMu.Lock()
	defer P.stdMu.Unlock()
	if P.std == nil {
		P.std = map[string]*Program{}
	}
	if _, ok := P.std[path]; !ok {
		P.std[path], _ = loadStd(P.Dir, path)
	}
	if P.std[path] == nil || P.std[path].Pkgs[path] == nil {
		return nil
	}
	return P.std[path].Pkgs[path].Func(fn.Name())
}

var decodeObls = []struct{ cat, name string }{
	{"std", "reads nothing outside its argument or its tables, does not panic, terminates"},
	{"std", "a well-formed encoding gives its scalar value and its length, whatever follows"},
	{"std", "anything else gives U+FFFD and width 1, or 0 when there is no byte"},
	{"std", "with a whole encoding announced by the first byte, the result depends on these bytes only"},
}

// unitDecode: utf8.DecodeRune and DecodeRuneInString, for every byte sequence.
func (c *Ctx) unitDecode() []*FnResult {
	return c.unit("standard library decoding", func() []*FnResult {
		P, err := loadStd(c.Repo, "unicode/utf8")
		if err != nil {
			return []*FnResult{reachResult("unicode/utf8", err.Error())}
		}
		var out []*FnResult
		for _, n := range []string{"DecodeRune", "DecodeRuneInString"} {
			f := P.Pkgs["unicode/utf8"].Func(n)
			t0 := time.Now()
			res := make([]*lkOut, 257)
			var wg sync.WaitGroup
			for b := 256; b >= 0; b-- {
				wg.Add(1)
				res[b] = &lkOut{fails: map[string][]string{}}
				go func(b int) {
					defer wg.Done()
					c.S.sem <- struct{}{}
					defer func() { <-c.S.sem }()
					runDecode(P, f, b, res[b])
				}(b)
			}
			wg.Wait()
			r := &FnResult{Fn: f.String(), Contract: "standard library decoding"}
			fails := map[string][]string{}
			var scalars int64
			for _, o := range res {
				r.Leaves += o.leaves
				scalars += o.scalars
				for k, l := range o.fails {
					fails[k] = append(fails[k], l...)
				}
				if o.err != "" {
					r.Err = "outside the verified subset: " + o.err
				}
			}
			if r.Err != "" {
				r.Obls = append(r.Obls, OblResult{Fn: r.Fn, Cat: "reach", Name: r.Err})
			} else {
				if scalars != 0x110000-0x800 {
					fails[decodeObls[1].name] = append(fails[decodeObls[1].name], fmt.Sprintf("%d scalar values reached", scalars))
				}
				for _, o := range decodeObls {
					r.Obls = append(r.Obls, OblResult{Fn: r.Fn, Cat: o.cat, Name: o.name, OK: len(fails[o.name]) == 0, By: "finite domain", N: int(r.Leaves), Detail: strings.Join(fails[o.name], "; ")})
				}
			}
			r.Time = time.Since(t0)
			out = append(out, r)
		}
		return out
	})
}

// runDecode covers the inputs whose first byte is b0; 256 stands for no input.
func runDecode(P *Program, f *ssa.Function, b0 int, out *lkOut) {
	m := &lkVM{P: P, fns: map[*ssa.Function]*lkFn{}, tabs: map[*ssa.Global]*lkAgg{}, std: true}
	defer func() {
		if r := recover(); r != nil {
			e, ok := r.(unsupported)
			if !ok {
				panic(r)
			}
			out.err = e.msg
		}
	}()
	fail := func(i int, msg string) {
		n := decodeObls[i].name
		if len(out.fails[n]) < 5 {
			out.fails[n] = append(out.fails[n], m.describe()+": "+msg)
		}
	}
	for {
		for i := range m.blo {
			m.blo[i], m.bhi[i] = 0, 255
		}
		m.llo, m.lhi, m.pos, m.fuel, m.depth = 0, 0, 0, 10000, 0
		if b0 < 256 {
			m.blo[0], m.bhi[0] = int64(b0), int64(b0)
			m.llo, m.lhi = 1, maxInt
		}
		m.decodeLeaf(f, b0, fail, out)
		out.leaves++
		for len(m.ch) > 0 && m.ch[len(m.ch)-1].cur+1 >= m.ch[len(m.ch)-1].n {
			m.ch = m.ch[:len(m.ch)-1]
		}
		if len(m.ch) == 0 {
			return
		}
		m.ch[len(m.ch)-1].cur++
	}
}

func (m *lkVM) decodeLeaf(f *ssa.Function, b0 int, fail func(int, string), out *lkOut) {
	var r, w int64
	ok := func() (ok bool) {
		defer func() {
			if r := recover(); r != nil {
				e, is := r.(lkFail)
				if !is {
					panic(r)
				}
				fail(0, e.msg)
				ok = false
			}
		}()
		v := m.call(f, []lkVal{{k: lkSlice, v: 0, w: -1}})
		r, w = m.num(v.x.tu[0]), m.num(v.x.tu[1])
		return true
	}()
	if !ok {
		return
	}
	bad := func() {
		if r != 0xFFFD || w != 1 {
			fail(2, fmt.Sprintf("%#x, width %d", r, w))
		}
	}
	if b0 == 256 {
		if r != 0xFFFD || w != 0 {
			fail(2, fmt.Sprintf("%#x, width %d", r, w))
		}
		return
	}
	// what RFC 3629 says the first byte announces
	b := int64(b0)
	need := int64(1)
	switch {
	case b >= 0xF0 && b <= 0xF7:
		need = 4
	case b >= 0xE0 && b < 0xF0:
		need = 3
	case b >= 0xC2 && b < 0xE0:
		need = 2
	}
	// the function looked at nothing behind the announced bytes
	for i := need; i < int64(len(m.blo)); i++ {
		if m.blo[i] != 0 || m.bhi[i] != 255 {
			fail(3, fmt.Sprintf("looks at byte %d", i))
		}
	}
	if m.llo > need || m.lhi != maxInt && m.lhi >= need {
		fail(3, "looks at the length")
	}
	if !m.longer(need-1) || need == 1 && b >= 0x80 || need == 4 && b > 0xF4 {
		bad()
		return
	}
	v := b & []int64{0, 0x7F, 0x1F, 0x0F, 0x07}[need]
	for i := int64(1); i < need; i++ {
		if m.atMost(i, 0x7F) || !m.atMost(i, 0xBF) {
			bad()
			return
		}
	}
	for i := int64(1); i < need; i++ {
		v = v<<6 | m.byteAt(i)&0x3F
	}
	if v < []int64{0, 0, 0x80, 0x800, 0x10000}[need] || v > 0x10FFFF || v >= 0xD800 && v <= 0xDFFF {
		bad()
		return
	}
	out.scalars++
	if r != v || w != need {
		fail(1, fmt.Sprintf("%#x, width %d", r, w))
	}
}

// unitClasses: the facts contracts use about the unicode package's predicates
// on ASCII and on U+FFFD, evaluated with this toolchain's own package.
func (c *Ctx) unitClasses() []*FnResult {
	return c.unit("standard library classes", func() []*FnResult {
		var out []*FnResult
		for _, p := range []struct {
			name   string
			f      func(rune) bool
			letter bool
		}{{"unicode.IsLetter", unicode.IsLetter, true}, {"unicode.IsNumber", unicode.IsNumber, false}, {"unicode.IsDigit", unicode.IsDigit, false}} {
			ok, d := true, ""
			for r := rune(0); r <= 0xFFFD; r++ {
				if r == 0x80 {
					r = 0xFFFD
				}
				want := '0' <= r && r <= '9'
				if p.letter {
					want = 'A' <= r && r <= 'Z' || 'a' <= r && r <= 'z'
				}
				if p.f(r) != want {
					ok, d = false, fmt.Sprintf("U+%04X", r)
				}
			}
			out = append(out, &FnResult{Fn: p.name, Contract: "standard library classes", Leaves: 129,
				Obls: []OblResult{{Fn: p.name, Cat: "std", Name: "values on ASCII and on U+FFFD", OK: ok, By: "finite domain", N: 129, Detail: d}}})
		}
		return out
	})
}

const decidedSuffix = "(decided from its source in this run)"

var stdDecode = []string{assumedStd("unicode/utf8.DecodeRune"), assumedStd("unicode/utf8.DecodeRuneInString")}
var stdClass = []string{assumedStd("unicode.IsLetter"), assumedStd("unicode.IsNumber"), assumedStd("unicode.IsDigit")}

// stdUnits runs the units behind the assumptions of the results.
func (c *Ctx) stdUnits(res [][]*FnResult) []*FnResult {
	var dec, cls bool
	for _, rs := range res {
		for _, r := range rs {
			for _, a := range r.Assumed {
				dec = dec || contains(stdDecode, a)
				cls = cls || contains(stdClass, a)
			}
		}
	}
	var out []*FnResult
	if dec {
		out = append(out, c.unitDecode()...)
	}
	if cls {
		out = append(out, c.unitClasses()...)
	}
	return out
}

// decidedStd rewrites an assumption whose contract this run has decided.
func (c *Ctx) decidedStd(a string) string {
	done := func(rs []*FnResult) bool {
		for _, r := range rs {
			if r.Err != "" || len(r.bad()) > 0 {
				return false
			}
		}
		return len(rs) > 0
	}
	switch {
	case contains(stdDecode, a) && done(c.unitDecode()):
		return a + " " + decidedSuffix
	case contains(stdClass, a) && done(c.unitClasses()):
		return a + ": a function of its argument (assumed), its values on ASCII and U+FFFD (evaluated in this run)"
	}
	return ""
}
