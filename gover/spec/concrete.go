package spec

import (
	"fmt"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"
)

// Concrete evaluation of a theory on actual bytes: the executable reading of
// the contracts.

// Table gives the specified properties of code points.
type Table struct {
	Vals [0x110000]uint32 // property set, numbered by the theory's Bits order
}

// LoadTable reads "lo hi Name,Name" lines (hex code points).
func LoadTable(src string, bits []string) (*Table, error) {
	ix := map[string]uint{}
	for i, b := range bits {
		ix[b] = uint(i)
	}
	t := &Table{}
	for ln, l := range strings.Split(src, "\n") {
		l = strings.TrimSpace(l)
		if l == "" || l[0] == '#' {
			continue
		}
		f := strings.Fields(l)
		if len(f) != 3 {
			return nil, fmt.Errorf("table line %d", ln+1)
		}
		lo, e1 := strconv.ParseUint(f[0], 16, 32)
		hi, e2 := strconv.ParseUint(f[1], 16, 32)
		if e1 != nil || e2 != nil || hi > 0x10FFFF {
			return nil, fmt.Errorf("table line %d", ln+1)
		}
		var v uint32
		for _, n := range strings.Split(f[2], ",") {
			i, ok := ix[n]
			if !ok {
				return nil, fmt.Errorf("table line %d: unknown property %s", ln+1, n)
			}
			v |= 1 << i
		}
		for c := lo; c <= hi; c++ {
			t.Vals[c] |= v
		}
	}
	return t, nil
}

// Need is the encoded length a lead byte announces.
func Need(b byte) int {
	switch {
	case b < 0xC2:
		return 1
	case b < 0xE0:
		return 2
	case b < 0xF0:
		return 3
	case b < 0xF8:
		return 4
	}
	return 1
}

// Char is the specification of the property lookup: the properties and width
// of the character at the start of s; width 0 when s ends inside it.
func (t *Table) Char(s []byte) (v uint32, w int) {
	n := Need(s[0])
	if len(s) < n {
		return 0, 0
	}
	if n == 1 {
		if s[0] < 0x80 {
			return t.Vals[s[0]], 1
		}
		return 0, 1
	}
	for i := 1; i < n; i++ {
		if s[i] < 0x80 || s[i] >= 0xC0 {
			return 0, i
		}
	}
	r, sz := utf8.DecodeRune(s)
	if sz != n { // overlong, surrogate or above U+10FFFF
		return 0, n
	}
	return t.Vals[r], n
}

type ctx struct {
	c        *Compiled
	x        *Text
	i        int // current character index (or byte offset for byte functions)
	st       []int64
	n        int
	first    bool
	jm, jl   bool
	tmp      []int64
	nextLook []int64
}

type ev func(k *ctx) int64

// Text is a decoded text.
type Text struct {
	Data  []byte
	Offs  []int // character offsets; len = chars+1, last = len(Data)
	Props []uint32
	W     []int // width, 0 for the truncated last character
	Need  []int
	Runes []rune
	looks [][]int64 // per look, per char index
	n     int
}

type Compiled struct {
	Th     *Theory
	bit    map[string]uint32
	states []ev
	inits  []int64
	sIx    map[string]int
	lIx    map[string]int
	looks  []struct{ end, trunc, step ev }
	eff    ev
	join   ev
	und    ev
	firstE ev
	Tab    *Table
}

func Compile(th *Theory, tab *Table) (c *Compiled, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("%s: %v", th.Name, r)
		}
	}()
	c = &Compiled{Th: th, bit: map[string]uint32{}, sIx: map[string]int{}, lIx: map[string]int{}, Tab: tab}
	for i, b := range th.Bits {
		c.bit[b] = 1 << uint(i)
	}
	for i, s := range th.States {
		c.sIx[s.Name] = i
	}
	for i, l := range th.Looks {
		c.lIx[l.Name] = i
	}
	for _, s := range th.States {
		iv := c.comp(s.Init)(&ctx{})
		c.inits = append(c.inits, iv)
		c.states = append(c.states, c.comp(s.Step))
	}
	for _, l := range th.Looks {
		var q struct{ end, trunc, step ev }
		q.end = c.comp(l.End)
		if l.Trunc != nil {
			q.trunc = c.comp(l.Trunc)
		}
		q.step = c.comp(l.Step)
		c.looks = append(c.looks, q)
	}
	if th.Eff != nil {
		c.eff = c.comp(th.Eff)
	} else {
		c.eff = func(k *ctx) int64 { return int64(k.x.Props[k.i]) }
	}
	if th.Join != nil {
		c.join = c.comp(th.Join)
	}
	if th.First != nil {
		c.firstE = c.comp(th.First)
	}
	if th.Und != nil {
		c.und = c.comp(th.Und)
	}
	return c, nil
}

func (c *Compiled) Mask(names ...string) uint32 {
	var m uint32
	for _, n := range names {
		l, ok := c.Th.Masks[n]
		if !ok {
			die("unknown mask %s", n)
		}
		for _, b := range l {
			m |= c.bit[b]
		}
	}
	return m
}

func b2i(b bool) int64 {
	if b {
		return 1
	}
	return 0
}

func (c *Compiled) masksOf(xs []*Sx) uint32 {
	var ns []string
	for _, y := range xs {
		ns = append(ns, y.A)
	}
	return c.Mask(ns...)
}

func (c *Compiled) comp(x *Sx) ev {
	if !x.List {
		a := x.A
		if v, err := strconv.ParseInt(a, 0, 64); err == nil {
			return func(*ctx) int64 { return v }
		}
		switch a {
		case "true":
			return func(*ctx) int64 { return 1 }
		case "false":
			return func(*ctx) int64 { return 0 }
		case "P":
			return func(k *ctx) int64 { return int64(k.x.Props[k.i]) }
		case "E":
			return func(k *ctx) int64 { return c.eff(k) }
		case "o":
			return func(k *ctx) int64 {
				if k.x.Offs == nil {
					return int64(k.i)
				}
				return int64(k.x.Offs[k.i])
			}
		case "n":
			return func(k *ctx) int64 { return int64(k.n) }
		case "N":
			return func(k *ctx) int64 { return int64(len(k.x.Data)) }
		case "need":
			return func(k *ctx) int64 { return int64(k.x.Need[k.i]) }
		case "w":
			return func(k *ctx) int64 { return int64(k.x.W[k.i]) }
		case "rune":
			return func(k *ctx) int64 { return int64(k.x.Runes[k.i]) }
		case "letter":
			return func(k *ctx) int64 { return b2i(unicode.IsLetter(k.x.Runes[k.i])) }
		case "number":
			return func(k *ctx) int64 { return b2i(unicode.IsNumber(k.x.Runes[k.i])) }
		case "first":
			return func(k *ctx) int64 { return b2i(k.first) }
		case "JM":
			return func(k *ctx) int64 { return b2i(k.jm) }
		case "JL":
			return func(k *ctx) int64 { return b2i(k.jl) }
		}
		if d, ok := c.Th.Defs[a]; ok {
			return c.comp(d)
		}
		if i, ok := c.sIx[a]; ok {
			return func(k *ctx) int64 { return k.st[i] }
		}
		if i, ok := c.lIx[a]; ok {
			return func(k *ctx) int64 { return k.x.looks[i][k.i] }
		}
		die("line %d: unknown name %s", x.Line, a)
	}
	var as []ev
	sub := func(from int) {
		for _, y := range x.L[from:] {
			as = append(as, c.comp(y))
		}
	}
	switch h := x.Head(); h {
	case "is":
		e := c.comp(x.L[1])
		m := int64(c.masksOf(x.L[2:]))
		return func(k *ctx) int64 { return b2i(e(k)&m != 0) }
	case "bits":
		m := int64(c.masksOf(x.L[1:]))
		return func(*ctx) int64 { return m }
	case "bor":
		e := c.comp(x.L[1])
		m := int64(c.masksOf(x.L[2:]))
		return func(k *ctx) int64 { return e(k) | m }
	case "bxor":
		a, b := c.comp(x.L[1]), c.comp(x.L[2])
		return func(k *ctx) int64 { return a(k) ^ b(k) }
	case "in": // (in k lo hi): byte at o+k in range
		e := c.comp(x.L[1])
		lo, hi := c.comp(x.L[2]), c.comp(x.L[3])
		return func(k *ctx) int64 { v := e(k); return b2i(v >= lo(k) && v <= hi(k)) }
	case "B":
		e := c.comp(x.L[1])
		return func(k *ctx) int64 {
			o := k.i
			if k.x.Offs != nil {
				o = k.x.Offs[k.i]
			}
			o += int(e(k))
			if o < 0 || o >= len(k.x.Data) {
				return -1
			}
			return int64(k.x.Data[o])
		}
	case "next":
		i, ok := c.lIx[x.L[1].A]
		if !ok {
			die("line %d: next of %s", x.Line, x.L[1].A)
		}
		return func(k *ctx) int64 { return k.x.looks[i][k.i+1] }
	case "skip": // (skip G k): byte function G at o+k
		i, ok := c.lIx[x.L[1].A]
		if !ok {
			die("line %d: skip of %s", x.Line, x.L[1].A)
		}
		d := c.comp(x.L[2])
		return func(k *ctx) int64 { return k.x.looks[i][k.i+int(d(k))] }
	case "and":
		sub(1)
		return func(k *ctx) int64 {
			for _, a := range as {
				if a(k) == 0 {
					return 0
				}
			}
			return 1
		}
	case "or":
		sub(1)
		return func(k *ctx) int64 {
			for _, a := range as {
				if a(k) != 0 {
					return 1
				}
			}
			return 0
		}
	case "not":
		sub(1)
		return func(k *ctx) int64 { return b2i(as[0](k) == 0) }
	case "=>":
		sub(1)
		return func(k *ctx) int64 { return b2i(as[0](k) == 0 || as[1](k) != 0) }
	case "ite":
		sub(1)
		return func(k *ctx) int64 {
			if as[0](k) != 0 {
				return as[1](k)
			}
			return as[2](k)
		}
	case "cond":
		type cl struct{ g, e ev }
		var cs []cl
		for _, y := range x.L[1:] {
			if y.Head() == "else" {
				cs = append(cs, cl{nil, c.comp(y.L[1])})
			} else {
				cs = append(cs, cl{c.comp(y.L[0]), c.comp(y.L[1])})
			}
		}
		return func(k *ctx) int64 {
			for _, q := range cs {
				if q.g == nil || q.g(k) != 0 {
					return q.e(k)
				}
			}
			panic("cond without else")
		}
	case "=", "<", "<=", ">", ">=", "+", "-", "even":
		sub(1)
		switch h {
		case "=":
			return func(k *ctx) int64 { return b2i(as[0](k) == as[1](k)) }
		case "<":
			return func(k *ctx) int64 { return b2i(as[0](k) < as[1](k)) }
		case "<=":
			return func(k *ctx) int64 { return b2i(as[0](k) <= as[1](k)) }
		case ">":
			return func(k *ctx) int64 { return b2i(as[0](k) > as[1](k)) }
		case ">=":
			return func(k *ctx) int64 { return b2i(as[0](k) >= as[1](k)) }
		case "+":
			return func(k *ctx) int64 { return as[0](k) + as[1](k) }
		case "-":
			return func(k *ctx) int64 { return as[0](k) - as[1](k) }
		case "even":
			return func(k *ctx) int64 { return b2i(as[0](k)%2 == 0) }
		}
	}
	die("line %d: cannot evaluate %s", x.Line, x)
	return nil
}

// Decode splits data into characters and evaluates the look-ahead functions,
// for the visible prefix of length n.
func (c *Compiled) Decode(data []byte, n int) *Text {
	x := &Text{Data: data, n: n}
	c.Redecode(x, data, n)
	return x
}

func (c *Compiled) Redecode(x *Text, data []byte, n int) { c.RedecodeFrom(x, data, 0, n) }

// RedecodeFrom is Redecode with the first character at offset from.
func (c *Compiled) RedecodeFrom(x *Text, data []byte, from, n int) {
	x.Data, x.n = data, n
	x.Offs, x.Props, x.W, x.Need, x.Runes = x.Offs[:0], x.Props[:0], x.W[:0], x.Need[:0], x.Runes[:0]
	for o := from; o < len(data); {
		var v uint32
		var w int
		if c.Th.UTF8 {
			_, w = utf8.DecodeRune(data[o:])
		} else {
			v, w = c.Tab.Char(data[o:])
		}
		x.Offs = append(x.Offs, o)
		x.Props = append(x.Props, v)
		x.W = append(x.W, w)
		x.Need = append(x.Need, Need(data[o]))
		if c.Th.Joiners || c.Th.UTF8 {
			r, _ := utf8.DecodeRune(data[o:])
			x.Runes = append(x.Runes, r)
		} else {
			x.Runes = append(x.Runes, 0)
		}
		if w == 0 {
			break
		}
		o += w
	}
	m := len(x.Offs)
	x.Offs = append(x.Offs, len(data))
	if x.looks == nil {
		x.looks = make([][]int64, len(c.looks))
	}
	k := &ctx{c: c, x: x, n: n}
	for i := range c.looks {
		if cap(x.looks[i]) < m+1 {
			x.looks[i] = make([]int64, m+1, 2*m+2)
		}
		x.looks[i] = x.looks[i][:m+1]
		k.i = m
		x.looks[i][m] = c.looks[i].end(k)
	}
	for j := m - 1; j >= 0; j-- {
		k.i = j
		for i := range c.looks {
			if x.W[j] == 0 {
				x.looks[i][j] = c.looks[i].trunc(k)
			} else {
				x.looks[i][j] = c.looks[i].step(k)
			}
		}
	}
}

// Boundary returns the index of the first boundary after character index s
// (an index into Offs; the last index is the end of text), when tokenizing
// starts at s.
func (c *Compiled) Boundary(x *Text, s int, jm, jl func(rune) bool) int {
	k := &ctx{c: c, x: x, n: x.n}
	k.st = make([]int64, len(c.states))
	k.tmp = make([]int64, len(c.states))
	copy(k.st, c.inits)
	m := len(x.Offs) - 1
	if s >= m {
		return m
	}
	for i := s; ; {
		k.i = i
		k.first = i == s
		if x.W[i] == 0 && !c.Th.Strict {
			return m
		}
		if jm != nil {
			k.jm = !k.first && jm(x.Runes[i])
		}
		if jl != nil {
			k.jl = k.first && jl(x.Runes[i])
		}
		if i > s && c.join(k) == 0 {
			return i
		}
		for q, f := range c.states {
			k.tmp[q] = f(k)
		}
		k.st, k.tmp = k.tmp, k.st
		i++
		if i == m {
			return m
		}
	}
}

// Accepts decides a predicate theory: the text is empty, or its first
// character qualifies and every later one is attached.
func (c *Compiled) Accepts(x *Text) bool {
	if len(x.Data) == 0 {
		return true
	}
	k := &ctx{c: c, x: x, n: x.n, st: append([]int64(nil), c.inits...), first: true}
	return c.firstE(k) != 0 && c.Boundary(x, 0, nil, nil) == len(x.Offs)-1
}

// Full returns all boundary indices of the text by the rules applied to the
// whole text (context is not reset at boundaries).
func (c *Compiled) Full(x *Text) []int {
	k := &ctx{c: c, x: x, n: x.n}
	k.st = make([]int64, len(c.states))
	k.tmp = make([]int64, len(c.states))
	copy(k.st, c.inits)
	m := len(x.Offs) - 1
	var out []int
	for i := 0; i < m; i++ {
		k.i = i
		k.first = i == 0
		if i > 0 && x.W[i] != 0 && c.join(k) == 0 {
			out = append(out, i)
		}
		for q, f := range c.states {
			k.tmp[q] = f(k)
		}
		k.st, k.tmp = k.tmp, k.st
	}
	return append(out, m)
}

// Trace gives, for each character index, the left-context values when the
// token starts at the first character, and the rules' decision there.
func (c *Compiled) Trace(x *Text, jm, jl func(rune) bool) (states [][]int64, join []bool) {
	st := append([]int64(nil), c.inits...)
	for i := 0; i < len(x.Offs)-1; i++ {
		k := &ctx{c: c, x: x, n: x.n, i: i, first: i == 0, st: st}
		if jm != nil {
			k.jm = !k.first && jm(x.Runes[i])
			k.jl = k.first && jl(x.Runes[i])
		}
		states = append(states, append([]int64(nil), st...))
		join = append(join, c.join(k) != 0)
		nx := make([]int64, len(st))
		for q, f := range c.states {
			nx[q] = f(k)
		}
		st = nx
	}
	return append(states, st), join
}

// LookAt is the value of a look-ahead function at the first character.
func (c *Compiled) LookAt(x *Text, name string) int64 { return x.looks[c.lIx[name]][0] }

// Pending reports whether a request for more data is allowed for the prefix
// of length n, starting at character index s (see the und clause).
func (c *Compiled) Pending(x *Text, s int, jm, jl func(rune) bool) bool {
	k := &ctx{c: c, x: x, n: x.n}
	k.st = make([]int64, len(c.states))
	k.tmp = make([]int64, len(c.states))
	copy(k.st, c.inits)
	m := len(x.Offs) - 1
	for i := s; ; {
		if i >= m || x.Offs[i] >= x.n || x.Need[i] > x.n-x.Offs[i] {
			return true
		}
		k.i = i
		k.first = i == s
		if jm != nil {
			k.jm = !k.first && jm(x.Runes[i])
		}
		if jl != nil {
			k.jl = k.first && jl(x.Runes[i])
		}
		if i > s {
			if c.und(k) != 0 {
				return true
			}
			if c.join(k) == 0 {
				return false
			}
		}
		for q, f := range c.states {
			k.tmp[q] = f(k)
		}
		k.st, k.tmp = k.tmp, k.st
		i++
	}
}

// ByteLook evaluates byte function name at every offset of data.
func (c *Compiled) ByteLook(name string, data []byte) []int64 {
	x := &Text{Data: data}
	x.looks = make([][]int64, len(c.looks))
	for i := range x.looks {
		x.looks[i] = make([]int64, len(data)+4)
	}
	k := &ctx{c: c, x: x, n: len(data)}
	for i := range c.looks {
		for j := len(data); j < len(data)+4; j++ {
			k.i = j
			x.looks[i][j] = c.looks[i].end(k)
		}
	}
	for j := len(data) - 1; j >= 0; j-- {
		k.i = j
		for i := range c.looks {
			x.looks[i][j] = c.looks[i].step(k)
		}
	}
	return x.looks[c.lIx[name]]
}
