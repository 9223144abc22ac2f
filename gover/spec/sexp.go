package spec

import (
	"fmt"
	"strings"
)

type Sx struct {
	A    string
	L    []*Sx
	List bool
	Line int
}

func (x *Sx) String() string {
	if !x.List {
		return x.A
	}
	var p []string
	for _, y := range x.L {
		p = append(p, y.String())
	}
	return "(" + strings.Join(p, " ") + ")"
}

func (x *Sx) Head() string {
	if x.List && len(x.L) > 0 && !x.L[0].List {
		return x.L[0].A
	}
	return ""
}

func ParseSx(s string) []*Sx {
	var stack [][]*Sx
	cur := []*Sx{}
	line := 1
	i := 0
	for i < len(s) {
		c := s[i]
		switch {
		case c == '\n':
			line++
			i++
		case c == ' ' || c == '\t' || c == '\r':
			i++
		case c == ';':
			for i < len(s) && s[i] != '\n' {
				i++
			}
		case c == '(':
			stack = append(stack, cur)
			cur = []*Sx{}
			i++
		case c == ')':
			if len(stack) == 0 {
				panic(fmt.Sprintf("line %d: unbalanced )", line))
			}
			n := &Sx{List: true, L: cur, Line: line}
			cur = append(stack[len(stack)-1], n)
			stack = stack[:len(stack)-1]
			i++
		case c == '|':
			j := i + 1
			for j < len(s) && s[j] != '|' {
				j++
			}
			cur = append(cur, &Sx{A: s[i : j+1], Line: line})
			i = j + 1
		default:
			j := i
			for j < len(s) && !strings.ContainsRune(" \t\r\n();|", rune(s[j])) {
				j++
			}
			cur = append(cur, &Sx{A: s[i:j], Line: line})
			i = j
		}
	}
	if len(stack) != 0 {
		panic("unbalanced (")
	}
	return cur
}
