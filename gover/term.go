package main

// Terms: hash-consed, simplified on construction, printed as SMT-LIB 2.
// Sorts are Bool, Int (mathematical) and BitVec(w).

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

type Sort struct {
	K byte // 'B', 'I', 'V'
	W int
}

var (
	SBool = Sort{'B', 0}
	SInt  = Sort{'I', 0}
)

func SBV(w int) Sort { return Sort{'V', w} }

func (s Sort) String() string {
	switch s.K {
	case 'B':
		return "Bool"
	case 'I':
		return "Int"
	}
	return fmt.Sprintf("(_ BitVec %d)", s.W)
}

type Term struct {
	Op   string // "const", "var", "app", or an SMT operator
	Name string // var, app; parameters of extract etc.
	V    int64  // const (for BV: the unsigned value; for Bool: 0/1)
	Args []*Term
	S    Sort
	id   int
}

type TB struct {
	tab   map[string]*Term
	next  int
	digs  map[*Term]digest
	True  *Term
	False *Term
}

func NewTB() *TB {
	b := &TB{tab: map[string]*Term{}}
	b.True = b.mk("const", "", 1, SBool)
	b.False = b.mk("const", "", 0, SBool)
	return b
}

func (b *TB) mk(op, name string, v int64, s Sort, args ...*Term) *Term {
	var sb strings.Builder
	sb.Grow(32)
	sb.WriteString(op)
	sb.WriteByte('|')
	sb.WriteString(name)
	sb.WriteByte('|')
	sb.WriteString(strconv.FormatInt(v, 16))
	sb.WriteByte('|')
	sb.WriteByte(s.K)
	sb.WriteString(strconv.Itoa(s.W))
	for _, a := range args {
		sb.WriteByte(',')
		sb.WriteString(strconv.Itoa(a.id))
	}
	k := sb.String()
	if t, ok := b.tab[k]; ok {
		return t
	}
	b.next++
	t := &Term{Op: op, Name: name, V: v, Args: args, S: s, id: b.next}
	b.tab[k] = t
	return t
}

func (t *Term) IsConst() bool { return t.Op == "const" }

func (b *TB) Bool(v bool) *Term {
	if v {
		return b.True
	}
	return b.False
}
func (b *TB) Int(v int64) *Term { return b.mk("const", "", v, SInt) }
func maskW(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(w)) - 1
}
func (b *TB) BV(v uint64, w int) *Term { return b.mk("const", "", int64(v&maskW(w)), SBV(w)) }
func (b *TB) Var(name string, s Sort) *Term {
	return b.mk("var", name, 0, s)
}
func (b *TB) App(name string, s Sort, args ...*Term) *Term {
	return b.mk("app", name, 0, s, args...)
}

func (b *TB) Not(a *Term) *Term {
	if a == b.True {
		return b.False
	}
	if a == b.False {
		return b.True
	}
	if a.Op == "not" {
		return a.Args[0]
	}
	return b.mk("not", "", 0, SBool, a)
}

func (b *TB) nary(op string, unit, zero *Term, as []*Term) *Term {
	seen := map[*Term]bool{}
	var out []*Term
	var add func(a *Term) bool
	add = func(a *Term) bool {
		if a == unit || seen[a] {
			return true
		}
		if a == zero {
			return false
		}
		if a.Op == op && len(a.Args) <= 6 {
			for _, x := range a.Args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		if seen[b.Not(a)] {
			return false
		}
		seen[a] = true
		out = append(out, a)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return zero
		}
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	return b.mk(op, "", 0, SBool, out...)
}
func (b *TB) And(as ...*Term) *Term { return b.nary("and", b.True, b.False, as) }
func (b *TB) Or(as ...*Term) *Term  { return b.nary("or", b.False, b.True, as) }
func (b *TB) Imp(p, q *Term) *Term  { return b.Or(b.Not(p), q) }
func (b *TB) Ite(c, x, y *Term) *Term {
	if c == b.True || x == y {
		return x
	}
	if c == b.False {
		return y
	}
	if x.S != y.S {
		panic(fmt.Sprintf("ite sorts %v %v", x.S, y.S))
	}
	if x.S == SBool {
		if x == b.True && y == b.False {
			return c
		}
		if x == b.False && y == b.True {
			return b.Not(c)
		}
		if x == b.True {
			return b.Or(c, y)
		}
		if x == b.False {
			return b.And(b.Not(c), y)
		}
		if y == b.True {
			return b.Or(b.Not(c), x)
		}
		if y == b.False {
			return b.And(c, x)
		}
	}
	if c.Op == "not" {
		return b.Ite(c.Args[0], y, x)
	}
	if y.Op == "ite" && y.Args[0] == c {
		y = y.Args[2]
	}
	if x.Op == "ite" && x.Args[0] == c {
		x = x.Args[1]
	}
	if x == y {
		return x
	}
	return b.mk("ite", "", 0, x.S, c, x, y)
}
func (b *TB) Eq(x, y *Term) *Term {
	if x == y {
		return b.True
	}
	if x.S != y.S {
		panic(fmt.Sprintf("eq sorts %v %v: %s / %s", x.S, y.S, b.Str(x), b.Str(y)))
	}
	if x.IsConst() && y.IsConst() {
		return b.Bool(x.V == y.V)
	}
	if x.S == SBool {
		if x == b.True {
			return y
		}
		if y == b.True {
			return x
		}
		if x == b.False {
			return b.Not(y)
		}
		if y == b.False {
			return b.Not(x)
		}
	}
	// ite(c, k1, k2) = k
	if y.IsConst() && x.Op == "ite" && x.Args[1].IsConst() && x.Args[2].IsConst() {
		return b.Ite(x.Args[0], b.Eq(x.Args[1], y), b.Eq(x.Args[2], y))
	}
	if x.IsConst() && y.Op == "ite" && y.Args[1].IsConst() && y.Args[2].IsConst() {
		return b.Eq(y, x)
	}
	if x.id > y.id {
		x, y = y, x
	}
	return b.mk("=", "", 0, SBool, x, y)
}

// --- Int ---

func (b *TB) Add(x, y *Term) *Term {
	if x.IsConst() && y.IsConst() {
		return b.Int(x.V + y.V)
	}
	if x.IsConst() {
		x, y = y, x
	}
	if y.IsConst() {
		if y.V == 0 {
			return x
		}
		if x.Op == "+" && x.Args[1].IsConst() {
			return b.Add(x.Args[0], b.Int(x.Args[1].V+y.V))
		}
		return b.mk("+", "", 0, SInt, x, y)
	}
	if x.Op == "+" && x.Args[1].IsConst() {
		return b.Add(b.Add(x.Args[0], y), x.Args[1])
	}
	if y.Op == "+" && y.Args[1].IsConst() {
		return b.Add(b.Add(x, y.Args[0]), y.Args[1])
	}
	// x + (z - x) = z
	if y.Op == "-" && y.Args[1] == x {
		return y.Args[0]
	}
	if x.Op == "-" && x.Args[1] == y {
		return x.Args[0]
	}
	return b.mk("+", "", 0, SInt, x, y)
}
func (b *TB) Sub(x, y *Term) *Term {
	if x == y {
		return b.Int(0)
	}
	if y.IsConst() {
		return b.Add(x, b.Int(-y.V))
	}
	if x.Op == "+" {
		if x.Args[0] == y {
			return x.Args[1]
		}
		if x.Args[1] == y {
			return x.Args[0]
		}
		if x.Args[1].IsConst() {
			return b.Add(b.Sub(x.Args[0], y), x.Args[1])
		}
	}
	if y.Op == "+" && y.Args[1].IsConst() {
		return b.Add(b.Sub(x, y.Args[0]), b.Int(-y.Args[1].V))
	}
	if y.Op == "+" && y.Args[0] == x {
		return b.Sub(b.Int(0), y.Args[1])
	}
	return b.mk("-", "", 0, SInt, x, y)
}
func (b *TB) Mul(x, y *Term) *Term {
	if x.IsConst() && y.IsConst() {
		return b.Int(x.V * y.V)
	}
	if x.IsConst() && x.V == 1 {
		return y
	}
	if y.IsConst() && y.V == 1 {
		return x
	}
	return b.mk("*", "", 0, SInt, x, y)
}
func (b *TB) ModI(x, y *Term) *Term {
	if x.IsConst() && y.IsConst() && y.V > 0 && x.V >= 0 {
		return b.Int(x.V % y.V)
	}
	return b.mk("mod", "", 0, SInt, x, y)
}
func (b *TB) DivI(x, y *Term) *Term {
	if x.IsConst() && y.IsConst() && y.V > 0 && x.V >= 0 {
		return b.Int(x.V / y.V)
	}
	return b.mk("div", "", 0, SInt, x, y)
}
func (b *TB) Le(x, y *Term) *Term {
	if x == y {
		return b.True
	}
	if x.IsConst() && y.IsConst() {
		return b.Bool(x.V <= y.V)
	}
	if x.Op == "+" && x.Args[0] == y && x.Args[1].IsConst() {
		return b.Bool(x.Args[1].V <= 0)
	}
	if y.Op == "+" && y.Args[0] == x && y.Args[1].IsConst() {
		return b.Bool(y.Args[1].V >= 0)
	}
	return b.mk("<=", "", 0, SBool, x, y)
}
func (b *TB) Lt(x, y *Term) *Term { return b.Not(b.Le(y, x)) }

// --- BV ---

func (b *TB) BvBin(op string, x, y *Term) *Term {
	w := x.S.W
	if x.S != y.S {
		panic("bv sorts " + op + " " + x.S.String() + " " + y.S.String())
	}
	if x.IsConst() && y.IsConst() {
		xv, yv := uint64(x.V), uint64(y.V)
		switch op {
		case "bvand":
			return b.BV(xv&yv, w)
		case "bvor":
			return b.BV(xv|yv, w)
		case "bvxor":
			return b.BV(xv^yv, w)
		case "bvadd":
			return b.BV(xv+yv, w)
		case "bvsub":
			return b.BV(xv-yv, w)
		case "bvmul":
			return b.BV(xv*yv, w)
		case "bvshl":
			if yv >= uint64(w) {
				return b.BV(0, w)
			}
			return b.BV(xv<<yv, w)
		case "bvlshr":
			if yv >= uint64(w) {
				return b.BV(0, w)
			}
			return b.BV(xv>>yv, w)
		}
	}
	zero := b.BV(0, w)
	ones := b.BV(^uint64(0), w)
	switch op {
	case "bvand":
		if x == zero || y == zero {
			return zero
		}
		if x == ones {
			return y
		}
		if y == ones || x == y {
			return x
		}
	case "bvor":
		if x == zero || x == y {
			return y
		}
		if y == zero {
			return x
		}
	case "bvadd", "bvxor":
		if x == zero {
			return y
		}
		if y == zero {
			return x
		}
	case "bvsub", "bvshl", "bvlshr":
		if y == zero {
			return x
		}
	}
	if (op == "bvand" || op == "bvor" || op == "bvadd" || op == "bvxor") && x.id > y.id {
		x, y = y, x
	}
	return b.mk(op, "", 0, SBV(w), x, y)
}
func (b *TB) BvNot(x *Term) *Term {
	if x.IsConst() {
		return b.BV(^uint64(x.V), x.S.W)
	}
	return b.mk("bvnot", "", 0, x.S, x)
}
func sext(v int64, w int) int64 {
	if w >= 64 {
		return v
	}
	sh := uint(64 - w)
	return (v << sh) >> sh
}
func (b *TB) BvCmp(op string, x, y *Term) *Term { // bvult bvule bvslt bvsle
	if x.IsConst() && y.IsConst() {
		xu, yu := uint64(x.V), uint64(y.V)
		xs, ys := sext(x.V, x.S.W), sext(y.V, y.S.W)
		switch op {
		case "bvult":
			return b.Bool(xu < yu)
		case "bvule":
			return b.Bool(xu <= yu)
		case "bvslt":
			return b.Bool(xs < ys)
		case "bvsle":
			return b.Bool(xs <= ys)
		}
	}
	return b.mk(op, "", 0, SBool, x, y)
}
func (b *TB) Ext(x *Term, w int, signed bool) *Term { // widen or truncate
	if x.S.W == w {
		return x
	}
	if x.IsConst() {
		if w < x.S.W || !signed {
			return b.BV(uint64(x.V), w)
		}
		return b.BV(uint64(sext(x.V, x.S.W)), w)
	}
	if w < x.S.W {
		return b.mk(fmt.Sprintf("(_ extract %d 0)", w-1), "", 0, SBV(w), x)
	}
	if signed {
		return b.mk(fmt.Sprintf("(_ sign_extend %d)", w-x.S.W), "", 0, SBV(w), x)
	}
	return b.mk(fmt.Sprintf("(_ zero_extend %d)", w-x.S.W), "", 0, SBV(w), x)
}
func (b *TB) Bv2Int(x *Term, signed bool) *Term {
	if x.IsConst() {
		if signed {
			return b.Int(sext(x.V, x.S.W))
		}
		return b.Int(x.V)
	}
	u := b.mk("bv2nat", "", 0, SInt, x)
	if !signed {
		return u
	}
	w := x.S.W
	neg := b.BvCmp("bvslt", x, b.BV(0, w))
	return b.Ite(neg, b.Sub(u, b.Int(int64(uint64(1)<<uint(w)))), u)
}
func (b *TB) Int2Bv(x *Term, w int) *Term {
	if x.IsConst() {
		return b.BV(uint64(x.V), w)
	}
	return b.mk(fmt.Sprintf("(_ int2bv %d)", w), "", 0, SBV(w), x)
}

// Is(x, m): x & m != 0
func (b *TB) Is(x *Term, m *Term) *Term {
	if x.Op == "ite" && (x.Args[1].IsConst() || x.Args[2].IsConst()) && m.IsConst() {
		return b.Ite(x.Args[0], b.Is(x.Args[1], m), b.Is(x.Args[2], m))
	}
	return b.Not(b.Eq(b.BvBin("bvand", x, m), b.BV(0, x.S.W)))
}

// --- substitution ---

func (b *TB) Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var f func(t *Term) *Term
	f = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.Args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		args := make([]*Term, len(t.Args))
		ch := false
		for i, a := range t.Args {
			args[i] = f(a)
			ch = ch || args[i] != a
		}
		r := t
		if ch {
			r = b.rebuild(t, args)
		}
		memo[t] = r
		return r
	}
	return f(t)
}

func (b *TB) rebuild(t *Term, a []*Term) *Term {
	switch t.Op {
	case "not":
		return b.Not(a[0])
	case "and":
		return b.And(a...)
	case "or":
		return b.Or(a...)
	case "ite":
		return b.Ite(a[0], a[1], a[2])
	case "=":
		return b.Eq(a[0], a[1])
	case "+":
		return b.Add(a[0], a[1])
	case "-":
		return b.Sub(a[0], a[1])
	case "*":
		return b.Mul(a[0], a[1])
	case "<=":
		return b.Le(a[0], a[1])
	case "bvand", "bvor", "bvxor", "bvadd", "bvsub", "bvmul", "bvshl", "bvlshr":
		return b.BvBin(t.Op, a[0], a[1])
	case "bvult", "bvule", "bvslt", "bvsle":
		return b.BvCmp(t.Op, a[0], a[1])
	}
	return b.mk(t.Op, t.Name, t.V, t.S, a...)
}

// --- printing ---

func smtName(s string) string {
	return "|" + strings.ReplaceAll(s, "|", "!") + "|"
}

func constStr(t *Term) string {
	switch t.S.K {
	case 'B':
		if t.V != 0 {
			return "true"
		}
		return "false"
	case 'I':
		if t.V < 0 {
			if t.V == -9223372036854775808 {
				return "(- 9223372036854775808)"
			}
			return fmt.Sprintf("(- %d)", -t.V)
		}
		return strconv.FormatInt(t.V, 10)
	}
	return fmt.Sprintf("(_ bv%d %d)", uint64(t.V), t.S.W)
}

// Str renders a term for people and for candidate labels: in full when it is
// small, else its outermost operator and a hash of its structure (counters of
// fresh names left out, so labels are the same in every run).
func (b *TB) Str(t *Term) string {
	if t.IsConst() {
		return constStr(t)
	}
	if t.Op == "var" {
		return t.Name
	}
	nm := t.Op
	if t.Op == "app" {
		nm = t.Name
	}
	d := b.digest(t)
	if d.size > 60 {
		return fmt.Sprintf("(%s~%08x)", nm, uint32(d.hash^d.hash>>32))
	}
	var sb strings.Builder
	sb.WriteByte('(')
	sb.WriteString(nm)
	for _, a := range t.Args {
		sb.WriteByte(' ')
		sb.WriteString(b.Str(a))
	}
	sb.WriteByte(')')
	return sb.String()
}

type digest struct {
	size int
	hash uint64
}

func (b *TB) digest(t *Term) digest {
	if d, ok := b.digs[t]; ok {
		return d
	}
	d := digest{1, 14695981039346656037}
	mix := func(s string) {
		for i := 0; i < len(s); i++ {
			d.hash = (d.hash ^ uint64(s[i])) * 1099511628211
		}
		d.hash = (d.hash ^ 0xff) * 1099511628211
	}
	mix(t.Op)
	mix(stripCounts(t.Name))
	mix(strconv.FormatInt(t.V, 16))
	for _, a := range t.Args {
		e := b.digest(a)
		if d.size += e.size; d.size > 1<<20 {
			d.size = 1 << 20
		}
		d.hash = (d.hash ^ e.hash) * 1099511628211
	}
	if b.digs == nil {
		b.digs = map[*Term]digest{}
	}
	b.digs[t] = d
	return d
}

// Script renders declarations, shared-node definitions and assertions.
// Names of shared nodes depend only on the order of occurrence, so equal
// problems give equal text (used for the per-run query cache).
func (b *TB) Script(asserts []*Term, gets []*Term) (string, []string) {
	refs := map[*Term]int{}
	var order []*Term
	var visit func(t *Term)
	visit = func(t *Term) {
		refs[t]++
		if refs[t] > 1 {
			return
		}
		for _, a := range t.Args {
			visit(a)
		}
		order = append(order, t)
	}
	for _, a := range asserts {
		visit(a)
	}
	for _, a := range gets {
		visit(a)
		refs[a] += 2
	}
	var sb strings.Builder
	type decl struct{ n, s string }
	var decls []decl
	seenF := map[string]bool{}
	names := map[*Term]string{}
	ref := func(t *Term) string {
		if n, ok := names[t]; ok {
			return n
		}
		panic("unnamed")
	}
	var body strings.Builder
	cnt := 0
	for _, t := range order {
		var s string
		switch {
		case t.IsConst():
			names[t] = constStr(t)
			continue
		case t.Op == "var":
			if !seenF[t.Name] {
				seenF[t.Name] = true
				decls = append(decls, decl{smtName(t.Name), "() " + t.S.String()})
			}
			names[t] = smtName(t.Name)
			continue
		case t.Op == "app":
			if !seenF[t.Name] {
				seenF[t.Name] = true
				var as []string
				for _, a := range t.Args {
					as = append(as, a.S.String())
				}
				decls = append(decls, decl{smtName(t.Name), "(" + strings.Join(as, " ") + ") " + t.S.String()})
			}
			s = "(" + smtName(t.Name)
		default:
			s = "(" + t.Op
		}
		for _, a := range t.Args {
			s += " " + ref(a)
		}
		s += ")"
		if refs[t] > 1 || len(s) > 4000 {
			cnt++
			n := fmt.Sprintf("t%d", cnt)
			fmt.Fprintf(&body, "(define-fun %s () %s %s)\n", n, t.S.String(), s)
			names[t] = n
		} else {
			names[t] = s
		}
	}
	sort.Slice(decls, func(i, j int) bool { return decls[i].n < decls[j].n })
	for _, d := range decls {
		fmt.Fprintf(&sb, "(declare-fun %s %s)\n", d.n, d.s)
	}
	sb.WriteString(body.String())
	for _, a := range asserts {
		fmt.Fprintf(&sb, "(assert %s)\n", ref(a))
	}
	var gn []string
	for _, g := range gets {
		gn = append(gn, ref(g))
	}
	return sb.String(), gn
}
