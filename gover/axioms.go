package main

// Validation of the axioms: the equations that inst.go adds to obligations
// (with the lemmas and facts proved from them) are evaluated on actual texts,
// with the theory's functions interpreted by the contracts' executable
// reading. Where the theory leaves a function open, arbitrary values are
// used. A developer's test of the framework, not part of a check.

import (
	"fmt"
	"hash/fnv"
	"math/rand"
	"strings"
	"unicode"
	"unicode/utf8"

	"verif/gover/spec"
)

type axModel struct {
	I      *Inst
	C      *spec.Compiled
	data   []byte
	n      int
	seed   uint64
	vars   map[string]int64
	fam    map[string]*axFam // by suffix
	looks  map[int]*spec.Text
	jm, jl func(rune) bool
	byt    map[string][]int64
	bad    string
}

type axFam struct {
	start int
	at    map[int]int // grid offset to character index
	text  *spec.Text
	st    [][]int64
	aj    []bool
}

func (m *axModel) junk(name string, o int64, s Sort) int64 {
	h := fnv.New64a()
	fmt.Fprint(h, m.seed, name, o)
	v := h.Sum64()
	switch s.K {
	case 'B':
		return int64(v & 1)
	case 'I':
		return int64(v%23) - 5
	}
	return int64(v & maskW(s.W))
}

func (m *axModel) fill(start int) *axFam {
	f := &axFam{start: start, at: map[int]int{}, text: &spec.Text{}}
	m.C.RedecodeFrom(f.text, m.data, start, m.n)
	for i, o := range f.text.Offs {
		if _, ok := f.at[o]; !ok {
			f.at[o] = i
		}
	}
	var join []bool
	f.st, join = m.C.Trace(f.text, m.jm, m.jl)
	aj := true
	for i := range f.text.Offs {
		f.aj = append(f.aj, aj)
		if i < len(join) {
			aj = aj && (i == 0 || join[i] || f.text.W[i] == 0 && !m.I.th.Strict)
		}
	}
	return f
}

func (m *axModel) prop(s string, v int64) int64 {
	if s == "prop" {
		return int64(m.I.pkgProp(uint32(v)))
	}
	return v
}

func (m *axModel) app(t *Term, a []int64) int64 {
	name, o := t.Name, a[0]
	N := int64(len(m.data))
	in := o >= 0 && o < N
	base := strings.TrimRight(name, "'")
	f := m.fam[name[len(base):]]
	switch name {
	case "W", "need", "P", "RN":
		if !in {
			if name == "P" {
				return int64(m.I.V[uint64(m.junk(name, o, SInt)+5)%uint64(len(m.I.V))])
			}
			if name == "RN" {
				return m.junk(name, o, SBV(32)) % 0x110000
			}
			return m.junk(name, o, t.S)
		}
		var v uint32
		var w int
		if m.I.utf8 {
			_, w = utf8.DecodeRune(m.data[o:])
		} else {
			v, w = m.C.Tab.Char(m.data[o:])
		}
		switch name {
		case "W":
			return int64(w)
		case "P":
			return int64(m.I.pkgProp(v))
		case "need":
			return int64(spec.Need(m.data[o]))
		}
		r, _ := utf8.DecodeRune(m.data[o:])
		return int64(r)
	case "B":
		if o >= N {
			return 0
		}
		if o < 0 {
			return m.junk(name, o, t.S)
		}
		return int64(m.data[o])
	case "unicode.IsLetter":
		return b2i(unicode.IsLetter(rune(o)))
	case "unicode.IsNumber":
		return b2i(unicode.IsNumber(rune(o)))
	case "unicode.IsDigit":
		return b2i(unicode.IsDigit(rune(o)))
	case "RC:Middle":
		return b2i(m.jm(rune(a[1])))
	case "RC:Leading":
		return b2i(m.jl(rune(a[1])))
	}
	if l := m.I.th.Look(name); l != nil {
		if o < 0 {
			return m.junk(name, o, t.S)
		}
		if m.I.looksOnly {
			if m.byt[name] == nil {
				m.byt[name] = m.C.ByteLook(name, m.data)
			}
			return m.byt[name][o]
		}
		x := m.looks[int(o)]
		if x == nil {
			x = &spec.Text{}
			m.C.RedecodeFrom(x, m.data, int(o), m.n)
			if o >= N { // ends at o, wherever that is
				x.Offs = []int{int(o)}
			}
			m.looks[int(o)] = x
		}
		return m.prop(l.Sort, m.C.LookAt(x, name))
	}
	if f == nil {
		m.bad = "no value for " + name
		return 0
	}
	i, on := f.at[int(o)]
	if o < 0 {
		on = false
	}
	switch base {
	case "G":
		return b2i(on)
	case "AJ":
		if on {
			return b2i(f.aj[i])
		}
		return m.junk(name, o, t.S)
	case "PO":
		if on && i > 0 {
			return int64(f.text.Offs[i-1])
		}
		return m.junk(name, o, t.S)
	}
	lag := strings.HasSuffix(base, "@1")
	base = strings.TrimSuffix(base, "@1")
	for q, s := range m.I.th.States {
		if s.Name != base {
			continue
		}
		switch {
		case lag && on && i > 0:
			return m.prop(s.Sort, f.st[i-1][q])
		case !lag && on && (i == 0 || f.text.W[i-1] != 0):
			return m.prop(s.Sort, f.st[i][q])
		}
		return m.junk(name, o, t.S)
	}
	m.bad = "no value for " + name
	return 0
}

func (m *axModel) eval(t *Term, memo map[*Term]int64) int64 {
	if v, ok := memo[t]; ok {
		return v
	}
	v := m.eval1(t, memo)
	memo[t] = v
	return v
}

func (m *axModel) eval1(t *Term, memo map[*Term]int64) int64 {
	switch t.Op {
	case "const":
		return t.V
	case "var":
		v, ok := m.vars[t.Name]
		if !ok {
			m.bad = "no value for variable " + t.Name
		}
		return v
	case "and":
		for _, a := range t.Args {
			if m.eval(a, memo) == 0 {
				return 0
			}
		}
		return 1
	case "or":
		for _, a := range t.Args {
			if m.eval(a, memo) != 0 {
				return 1
			}
		}
		return 0
	case "ite":
		if m.eval(t.Args[0], memo) != 0 {
			return m.eval(t.Args[1], memo)
		}
		return m.eval(t.Args[2], memo)
	}
	a := make([]int64, len(t.Args))
	for i, x := range t.Args {
		a[i] = m.eval(x, memo)
	}
	wd := func(v int64) int64 { return int64(uint64(v) & maskW(t.S.W)) }
	switch t.Op {
	case "app":
		return m.app(t, a)
	case "not":
		return 1 - a[0]
	case "=":
		return b2i(a[0] == a[1])
	case "+":
		var s int64
		for _, v := range a {
			s += v
		}
		return s
	case "-":
		if len(a) == 1 {
			return -a[0]
		}
		return a[0] - a[1]
	case "*":
		return a[0] * a[1]
	case "mod":
		return ((a[0] % a[1]) + a[1]) % a[1]
	case "<=":
		return b2i(a[0] <= a[1])
	case "bvand":
		return a[0] & a[1]
	case "bvor":
		return a[0] | a[1]
	case "bvxor":
		return a[0] ^ a[1]
	case "bvnot":
		return wd(^a[0])
	case "bvadd":
		return wd(a[0] + a[1])
	case "bvsub":
		return wd(a[0] - a[1])
	case "bvult":
		return b2i(uint64(a[0]) < uint64(a[1]))
	case "bvule":
		return b2i(uint64(a[0]) <= uint64(a[1]))
	}
	if strings.HasPrefix(t.Op, "(_ zero_extend") || strings.HasPrefix(t.Op, "(_ extract") {
		return wd(a[0])
	}
	m.bad = "cannot evaluate " + t.Op
	return 0
}

// validate evaluates every axiom at offsets around the text, in count texts.
func (c *Ctx) validate(theory string, count int, seed int64) {
	th, tab := c.theory(theory)
	C, err := spec.Compile(th, tab)
	if err != nil {
		fmt.Println(err)
		return
	}
	var chars [][]byte // one or more of every property set
	byVal := map[uint32][]rune{}
	if tab == nil {
		tab = &spec.Table{}
		for _, r := range "aZ09 \u00e9\u0660\u2160\u4e00\ufffd\U0001d400\U0010ffff" {
			chars = append(chars, []byte(string(r)))
		}
	}
	for r := rune(0); r < 0x110000; r++ {
		if v := tab.Vals[r]; len(byVal[v]) < 40 && utf8.ValidRune(r) {
			byVal[v] = append(byVal[v], r)
		}
	}
	for _, l := range byVal {
		for i := 0; i < 4; i++ {
			chars = append(chars, []byte(string(l[(i*17)%len(l)])))
		}
	}
	for _, s := range []string{"\x80", "\xc3", "\xe2\x80", "\xf0\x9f\x98", "\xff", "\xed\xa0\x80", "\xf8", "\xe2"} {
		chars = append(chars, []byte(s))
	}
	if theory == "ansi" {
		chars = nil
		for b := 0; b < 256; b++ {
			chars = append(chars, []byte{byte(b)})
		}
		for i := 0; i < 40; i++ {
			for _, s := range []string{"\x1b", "\x1b[", "\x1b]", "\x1bP", "\x1b\\", "\x07", "\x18", "\x9b", "\x9c", "\x9d", "0;", "m", " ", "/"} {
				chars = append(chars, []byte(s))
			}
		}
	}
	lem := c.lemmasOf(theory)
	y, I := c.lemmaInst(theory, true)
	B := y.B
	I.facts = lem.ok["facts"]
	for _, l := range th.Lemmas {
		if lem.ok[l.Name] {
			I.lemmas = append(I.lemmas, l)
		}
	}
	I.prime = I.with(B.Var("restart", SInt), "'")
	I.prime.prime = nil
	o := B.Var("o", SInt)
	type axiom struct {
		what string
		t    *Term
	}
	var axs []axiom
	add := func(what string, ts []*Term) {
		for i, t := range ts {
			axs = append(axs, axiom{fmt.Sprint(what, " ", i), t})
		}
	}
	I.looksOnly = theory == "ansi"
	if I.looksOnly {
		add("start", I.StartFacts())
		add("facts", I.Facts(o, true))
	}
	for _, F := range []*Inst{I, I.prime} {
		if I.looksOnly {
			break
		}
		add("start"+F.suf, F.StartFacts())
		add("facts"+F.suf, F.Facts(o, true))
		add("back"+F.suf, F.BackFacts(o))
		if F.facts {
			add("proved facts"+F.suf, F.FactTerms(o))
		}
		for _, l := range F.lemmas {
			add("lemma "+l.Name+F.suf, []*Term{F.lemmaTerm(l, o), F.lemmaTerm(l, F.Nx(o))})
		}
	}
	if lem.ok["restart"] {
		F := I.prime
		nx := I.Nx(o)
		as := B.And(B.Le(I.start, F.start), B.Lt(F.start, o), B.Lt(o, I.N), I.G(o), F.G(o), I.Rel(o), B.Eq(I.AJ(o), F.AJ(o)))
		add("restart", []*Term{B.Imp(as, B.And(I.G(nx), B.Eq(I.Join(o), F.Join(o)), B.Eq(I.AJ(nx), F.AJ(nx)),
			B.Imp(B.And(B.Not(B.Eq(I.W(o), B.Int(0))), B.Lt(nx, I.N)), I.Rel(nx))))})
	}
	rng := rand.New(rand.NewSource(seed))
	evals := 0
	for t := 0; t < count; t++ {
		m := &axModel{I: I, C: C, seed: rng.Uint64(), looks: map[int]*spec.Text{}, byt: map[string][]int64{}, fam: map[string]*axFam{}}
		few := make([][]byte, 1+rng.Intn(8))
		for i := range few {
			few[i] = chars[rng.Intn(len(chars))]
		}
		for k := rng.Intn(14); k > 0; k-- {
			m.data = append(m.data, few[rng.Intn(len(few))]...)
		}
		N := len(m.data)
		m.n = rng.Intn(N + 1)
		ms, ls := rng.Uint64(), rng.Uint64()
		m.jm = func(r rune) bool { return ms>>(uint(r)%64)&1 != 0 }
		m.jl = func(r rune) bool { return ls>>(uint(r)%64)&1 != 0 }
		s1 := 0
		if rng.Intn(2) == 0 {
			s1 = rng.Intn(N + 1)
		}
		s2 := s1
		if !I.looksOnly {
			m.fam[""] = m.fill(s1)
			g := m.fam[""].text.Offs
			s2 = g[rng.Intn(len(g))]
			m.fam["'"] = m.fill(s2)
		}
		m.vars = map[string]int64{"N": int64(N), "n": int64(m.n), "start": int64(s1), "restart": int64(s2), "len:Middle": 1, "len:Leading": 1}
		for v := -3; v <= N+1; v++ {
			m.vars["o"] = int64(v)
			memo := map[*Term]int64{}
			for _, a := range axs {
				if m.eval(a.t, memo) == 0 || m.bad != "" {
					fmt.Printf("FALSE %s %s: %q n=%d start=%d restart=%d o=%d %s\n", theory, a.what, m.data, m.n, s1, s2, v, m.bad)
					return
				}
				evals++
			}
		}
	}
	fmt.Printf("%s: %d axioms, %d texts, %d evaluations, all true\n", theory, len(axs), count, evals)
}
