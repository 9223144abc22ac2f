// Package spec reads the contract files in /verif/contracts. The same text is
// used twice: gover turns it into SMT terms, and the replay harness compiles
// it to closures, to decide concrete inputs.
package spec

import (
	"fmt"
	"os"
)

// A State is a forward (left-context) ghost function: F(0)=Init and
// F(next(o)) = Step, evaluated at o.
type State struct {
	Name, Sort string
	Init, Step *Sx
}

// A Look is a backward (right-context) ghost function over character offsets:
// F(o)=End at and past the end of text, F(o)=Trunc where the text ends inside
// the character at o, and F(o)=Step otherwise, in which (next G) is G at the
// following character.
type Look struct {
	Name, Sort       string
	End, Trunc, Step *Sx
	Bytes            bool // steps over bytes, not characters
}

type Inv struct {
	Vars []VarDecl
	E    *Sx
	Src  string
}

type VarDecl struct{ Name, Sort string }

// A Lemma states Hyp => Concl for every character offset o. It is proved by
// induction on the distance to the end of text.
type Lemma struct {
	Name       string
	Hyp, Concl *Sx
}

type Theory struct {
	Name    string
	Package string
	Masks   map[string][]string
	Bits    []string
	Defs    map[string]*Sx
	Eff     *Sx
	States  []State
	Looks   []Look
	Join    *Sx
	Und     *Sx
	Rel     *Sx
	Lemmas  []Lemma
	Invs    []Inv
	Facts   []*Sx // hold at every character, whatever the text (proved by forward induction)
	Hot     *Sx
	Joiners bool
	Negated bool   // the predicate is true when the slice is not accepted
	UTF8    bool   // characters are what utf8.DecodeRune decodes
	Strict  bool   // a truncated last character does not join by itself
	First   *Sx    // condition on the first character (predicates)
	Table   string // property table (contracts/tables)
	Src     string
}

func die(f string, a ...any) { panic("contract file: " + fmt.Sprintf(f, a...)) }

func Load(path string) (*Theory, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	return Parse(string(b))
}

func Parse(src string) (th *Theory, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("%v", r)
		}
	}()
	th = &Theory{Masks: map[string][]string{}, Defs: map[string]*Sx{}, Src: src}
	for _, x := range ParseSx(src) {
		switch x.Head() {
		case "theory":
			th.Name = x.L[1].A
		case "package":
			th.Package = x.L[1].A
		case "table":
			th.Table = x.L[1].A
		case "strict":
			th.Strict = true
		case "first":
			th.First = x.L[1]
		case "negated":
			th.Negated = true
		case "utf8":
			th.UTF8 = true
		case "joiners":
			th.Joiners = true
		case "bits":
			for _, y := range x.L[1:] {
				th.Bits = append(th.Bits, y.A)
				th.Masks[y.A] = []string{y.A}
			}
		case "mask":
			var l []string
			for _, y := range x.L[2:] {
				m, ok := th.Masks[y.A]
				if !ok {
					die("unknown bit %s", y.A)
				}
				l = append(l, m...)
			}
			th.Masks[x.L[1].A] = l
		case "def":
			th.Defs[x.L[1].A] = x.L[2]
		case "eff":
			th.Eff = x.L[1]
		case "state":
			th.States = append(th.States, State{x.L[1].A, x.L[2].A, x.L[3], x.L[4]})
		case "look":
			th.Looks = append(th.Looks, Look{x.L[1].A, x.L[2].A, x.L[3], x.L[4], x.L[5], false})
		case "blook":
			th.Looks = append(th.Looks, Look{x.L[1].A, x.L[2].A, x.L[3], nil, x.L[4], true})
		case "join":
			th.Join = x.L[1]
		case "und":
			th.Und = x.L[1]
		case "rel":
			th.Rel = x.L[1]
		case "hot":
			th.Hot = x.L[1]
		case "lemma":
			th.Lemmas = append(th.Lemmas, Lemma{x.L[1].A, x.L[2], x.L[3]})
		case "fact":
			th.Facts = append(th.Facts, x.L[1])
		case "inv":
			var vs []VarDecl
			for _, v := range x.L[1].L {
				vs = append(vs, VarDecl{v.L[0].A, v.L[1].A})
			}
			th.Invs = append(th.Invs, Inv{vs, x.L[2], x.String()})
		default:
			die("line %d: unknown form %s", x.Line, x.Head())
		}
	}
	return th, nil
}

func (th *Theory) State(n string) *State {
	for i := range th.States {
		if th.States[i].Name == n {
			return &th.States[i]
		}
	}
	return nil
}
func (th *Theory) Look(n string) *Look {
	for i := range th.Looks {
		if th.Looks[i].Name == n {
			return &th.Looks[i]
		}
	}
	return nil
}
