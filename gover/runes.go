package main

// Rune sets ([]rune arguments): rc(i, r) holds when one of the first i
// elements equals r.

import (
	"sort"
	"strings"
)

type runeSet struct {
	name string
	len  *Term
}

func (x *Exec) runeSet(name string) *runeSet {
	s := x.runeSets[name]
	if s == nil {
		s = &runeSet{name: name, len: x.B.Var("len:"+name, SInt)}
		x.runeSets[name] = s
	}
	return s
}

func (s *runeSet) elem(x *Exec, i *Term) *Term { return x.B.App("R:"+s.name, SBV(32), i) }
func (s *runeSet) rc(x *Exec, i, r *Term) *Term {
	if i.IsConst() && i.V == 0 {
		return x.B.False
	}
	return x.B.App("RC:"+s.name, SBool, i, r)
}

// suffix: one of the elements from i on equals r
func (s *runeSet) suffix(x *Exec, i, r *Term) *Term {
	return x.B.App("RS:"+s.name, SBool, i, r)
}
func (s *runeSet) contains(x *Exec, r *Term) *Term { return s.rc(x, s.len, r) }

func (x *Exec) runeFacts(ts []*Term) []*Term {
	B := x.B
	if len(x.runeSets) == 0 {
		return nil
	}
	idx := map[string]map[*Term]bool{}
	rs := map[*Term]bool{}
	names := map[string]bool{}
	suf := map[string]bool{}
	seen := map[*Term]bool{}
	var visit func(t *Term)
	visit = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		for _, a := range t.Args {
			visit(a)
		}
		if t.Op != "app" {
			return
		}
		if n, ok := strings.CutPrefix(t.Name, "R:"); ok {
			names[n] = true
			if idx[n] == nil {
				idx[n] = map[*Term]bool{}
			}
			idx[n][t.Args[0]] = true
		}
		if n, ok := strings.CutPrefix(t.Name, "RC:"); ok {
			names[n] = true
			rs[t.Args[1]] = true
		}
		if n, ok := strings.CutPrefix(t.Name, "RS:"); ok {
			names[n] = true
			rs[t.Args[1]] = true
			suf[n] = true
		}
	}
	for _, t := range ts {
		visit(t)
	}
	byID := func(m map[*Term]bool) []*Term {
		var l []*Term
		for t := range m {
			l = append(l, t)
		}
		sort.Slice(l, func(i, j int) bool { return l[i].id < l[j].id })
		return l
	}
	var ns []string
	for n := range names {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	var out []*Term
	for _, n := range ns {
		s := x.runeSet(n)
		out = append(out, B.Le(B.Int(0), s.len), B.Le(s.len, B.Int(maxInt)))
		for _, r := range byID(rs) {
			for _, i := range byID(idx[n]) {
				nx := B.Add(i, B.Int(1))
				out = append(out, B.Imp(B.Le(B.Int(0), i), B.Eq(B.App("RC:"+n, SBool, nx, r), B.Or(B.App("RC:"+n, SBool, i, r), B.Eq(s.elem(x, i), r)))))
			}
			out = append(out, B.Not(B.App("RC:"+n, SBool, B.Int(0), r)))
			if suf[n] {
				out = append(out, B.Not(s.suffix(x, s.len, r)), B.Eq(s.suffix(x, B.Int(0), r), s.contains(x, r)))
				for _, i := range byID(idx[n]) {
					in := B.And(B.Le(B.Int(0), i), B.Lt(i, s.len))
					out = append(out, B.Imp(in, B.Eq(s.suffix(x, i, r), B.Or(B.Eq(s.elem(x, i), r), s.suffix(x, B.Add(i, B.Int(1)), r)))))
				}
			}
			// more elements cannot contain less
			for _, i := range byID(idx[n]) {
				nx := B.Add(i, B.Int(1))
				out = append(out, B.Imp(B.And(B.Le(nx, s.len), B.App("RC:"+n, SBool, nx, r)), B.App("RC:"+n, SBool, s.len, r)))
			}
		}
	}
	return out
}
