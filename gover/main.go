package main

import (
	"fmt"
	"os"
	"strconv"
	"sync"
	"time"

	"verif/gover/spec"
)

func NewCtx(repo, dir string) (*Ctx, error) {
	P, err := LoadProgram(repo, false)
	if err != nil {
		return nil, err
	}
	c := &Ctx{P: P, S: NewSolver(8), Dir: dir, Repo: repo, extraEvidence: map[string]any{}, th: map[string]*spec.Theory{}, tab: map[string]*spec.Table{}, lem: map[string]*lemmaResult{}, once: map[string]*sync.Once{}, subs: map[string]*FnResult{}, newHints: map[string]map[string][]string{}}
	c.loadHints()
	return c, nil
}

func main() {
	if len(os.Args) > 2 && (os.Args[1] == "check" || os.Args[1] == "--replay") {
		repo := os.Getenv("VERIF_REPO")
		if repo == "" {
			repo = "/repo"
		}
		dir := os.Getenv("VERIF_DIR")
		if dir == "" {
			dir = "/verif"
		}
		if os.Args[1] == "check" {
			os.Exit(Check(repo, dir, os.Args[2]))
		}
		os.Exit(Replay(repo, dir, os.Args[2]))
	}
	repo := os.Getenv("VERIF_REPO")
	if repo == "" {
		repo = "/repo"
	}
	if len(os.Args) > 2 && os.Args[1] == "build-harness" {
		os.Exit(buildHarness(repo, os.Args[2]))
	}
	dir := os.Getenv("VERIF_DIR")
	if dir == "" {
		dir = "/verif"
	}
	c, err := NewCtx(repo, dir)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	t0 := time.Now()
	switch os.Args[1] {
	case "split":
		pkg, targ := os.Args[2], os.Args[3]
		fn := c.P.FindFunc(pkg, "splitFunc", targ)
		r := c.verifySplit(pkg, false, fn.String(), func(x *Exec) (VFunc, *State) {
			return VFunc{Fn: fn, Nil: x.B.False}, &State{env: newEnv(), mem: Mem{}}
		})
		printResult(r)
		for _, s := range c.subs {
			printResult(s)
		}
		fmt.Printf("%+v\n", c.lem[pkg])
	case "joinsplit":
		for _, r := range c.unitJoinSplit(os.Args[2]) {
			printResult(r)
		}
	case "lemmas":
		for _, o := range c.lemmasOf(os.Args[2]).obls(os.Args[2]) {
			fmt.Println(o)
		}
	case "nest":
		for _, o := range c.nestLemmas().obls("words+phrases") {
			fmt.Println(o)
		}
	case "all": // every unit once
		var js []job
		for i := 1; i <= 20; i++ {
			l, _ := c.plan(fmt.Sprintf("C%02d", i))
			js = append(js, l...)
		}
		o := c.evaluate("", js)
		for _, l := range [][]OblResult{o.reach, o.ownFail, o.preFail} {
			for _, b := range l {
				fmt.Println("FAILED", b.Fn, "|", b.Cat, "|", b.Name, "|", b.Detail)
			}
		}
		nc, ns := 0, 0
		for _, r := range o.rs {
			for _, b := range r.Obls {
				if b.Cat == "cover" {
					nc++
					if b.Model == "sat" {
						ns++
					} else {
						fmt.Println("COVER", b.Fn, "|", b.Name, "|", b.Model, b.By)
					}
				}
			}
		}
		fmt.Println("covers", nc, "reachable", ns)
		fmt.Println("obligations", o.total, "discharged", o.ok)
	case "quick": // one package's units over strings
		for _, j := range c.quickJobs(os.Args[2]) {
			for _, r := range j.run() {
				for _, o := range r.Obls {
					if !o.OK && o.Cat != "cover" {
						fmt.Println("FAILED", o.Fn, "|", o.Cat, "|", o.Name, "|", o.Detail)
						os.Exit(3)
					}
				}
				fmt.Println(r.Fn, len(r.Obls))
			}
		}
	case "frame":
		for _, r := range c.unitFrame() {
			for _, o := range r.Obls {
				fmt.Println(o.OK, r.Fn, "|", o.Name, "|", o.Detail)
			}
		}
	case "predicate":
		for _, r := range c.unitPredicate(os.Args[2], os.Args[3], os.Args[4]) {
			printResult(r)
		}
	case "scanner":
		for _, p := range packages4 {
			for _, r := range c.unitScanner(p) {
				printResult(r)
			}
		}
		for _, r := range c.unitScannerJoin() {
			printResult(r)
		}
	case "lookup":
		for _, r := range c.unitLookup(os.Args[2]) {
			printResult(r)
			for _, o := range r.Obls {
				fmt.Println("   ", o.Cat, o.Name, o.OK, o.N, o.Detail)
			}
		}
	case "axioms":
		n, _ := strconv.Atoi(os.Args[3])
		c.validate(os.Args[2], n, 1)
	case "std":
		for _, r := range append(c.unitDecode(), c.unitClasses()...) {
			printResult(r)
			for _, o := range r.Obls {
				fmt.Println("   ", o.Cat, o.Name, o.OK, o.N, o.Detail)
			}
		}
	case "ansi":
		for _, f := range c.recognisers(os.Args[2]) {
			r := c.ansiResult(f)
			fmt.Println(f, "look", r.look)
			if r.r != nil {
				printResult(r.r)
			} else if len(os.Args) > 3 && f.Name() == os.Args[3] {
				printResult(c.verifyRecogniser(f, os.Args[4]))
			}
		}
	case "obj":
		k := objKind{pkg: os.Args[2], targ: os.Args[3], theory: os.Args[4], mode: os.Args[5], ansi: len(os.Args) > 6}
		for _, r := range c.runMachine(k) {
			printResult(r)
		}
	}
	if os.Getenv("GOVER_SAVE") != "" {
		c.saveHints()
	}
	fmt.Printf("%v %+v\n", time.Since(t0), c.S.Stats)
}

func printResult(r *FnResult) {
	ok := 0
	for _, o := range r.Obls {
		if o.OK {
			ok++
		} else {
			fmt.Println("FAILED", o.Fn, o.Cat, o.Name, o.Model)
		}
	}
	fmt.Println(r.Fn, r.Contract, ok, "of", len(r.Obls), r.Err, r.Time)
	for _, l := range r.Loops {
		fmt.Println("  loop", l.Where, "unroll", l.Unroll, "measure", l.Measure)
		for _, i := range l.Inv {
			fmt.Println("     ", i)
		}
	}
}
