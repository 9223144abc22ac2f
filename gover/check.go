package main

// The check of one property: verify the functions it depends on, decide from
// the obligations, replay or search for a failing input, write the evidence.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/constant"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// job is a unit a property depends on; own lists the categories of its
// obligations that say the property itself, the others are prerequisites.
type job struct {
	run func() []*FnResult
	own []string
}

func (c *Ctx) splitJobs(own ...string) []job {
	var out []job
	for _, p := range packages4 {
		p := p
		for _, t := range plainTargs {
			t := t
			out = append(out, job{func() []*FnResult { return c.unitSplit(p, t) }, own})
		}
		out = append(out, job{func() []*FnResult { return c.unitExported(p) }, own})
	}
	return out
}

func (c *Ctx) splitJobsOf(p string, own ...string) []job {
	var out []job
	for _, t := range plainTargs {
		t := t
		out = append(out, job{func() []*FnResult { return c.unitSplit(p, t) }, own})
	}
	out = append(out, job{func() []*FnResult { return c.unitExported(p) }, own})
	out = append(out, job{func() []*FnResult { return c.unitLemmas(p) }, nil})
	return out
}

func (c *Ctx) objJob(k objKind, own ...string) job {
	return job{func() []*FnResult { return c.unitObj(k) }, own}
}

func (c *Ctx) plainJobs(own ...string) []job {
	var out []job
	for _, p := range packages4 {
		for _, t := range plainTargs {
			out = append(out, c.objJob(plainKind(p, t), own...))
		}
	}
	return out
}

func (c *Ctx) lookupJob(p string, own ...string) job {
	return job{func() []*FnResult { return c.unitLookup(p) }, own}
}

func ansiKind(t string) objKind {
	k := plainKind("graphemes", t)
	k.ansi = true
	return k
}
func joinKind(t string) objKind {
	return objKind{pkg: "words", targ: t, theory: "words", mode: "joiners"}
}
func customKind(t string) objKind {
	return objKind{pkg: "words", targ: t, theory: "words", mode: "split"}
}
func genericKind(t string) objKind {
	return objKind{pkg: "internal/iterators", targ: t, theory: "words", mode: "new"}
}

// plainAnsi: what the options must not change.
func (c *Ctx) plainAnsi() []job {
	js := c.splitJobsOf("graphemes")
	for _, t := range plainTargs {
		js = append(js, c.objJob(plainKind("graphemes", t)))
	}
	return js
}

func (c *Ctx) plan(prop string) ([]job, bool) {
	var js []job
	add := func(l ...job) { js = append(js, l...) }
	each := func(f func(t string) objKind, own ...string) {
		for _, t := range allTargs {
			add(c.objJob(f(t), own...))
		}
	}
	joinSplits := func(own ...string) {
		for _, t := range allTargs {
			t := t
			add(job{func() []*FnResult { return c.unitJoinSplit(t) }, own})
		}
	}
	ansi := func(own ...string) {
		for _, t := range plainTargs {
			t := t
			add(job{func() []*FnResult { return c.unitAnsi(t) }, own})
			add(c.objJob(ansiKind(t), own...))
		}
	}
	lookups := func(own ...string) {
		for _, p := range packages4 {
			add(c.lookupJob(p, own...))
		}
	}
	switch prop {
	case "C01":
		lookups("safety")
		joinSplits("safety", "view")
		add(c.splitJobs("safety", "view")...)
		add(c.plainJobs("safety", "view")...)
		ansi("safety", "view")
		each(joinKind, "safety", "view")
	case "C02":
		lookups("safety", "width")
		joinSplits("grid")
		add(c.splitJobs("grid")...)
		add(c.plainJobs("grid")...)
		ansi("grid")
		each(joinKind, "grid")
	case "C03", "C04", "C05", "C06":
		p := map[string]string{"C03": "graphemes", "C04": "words", "C05": "sentences", "C06": "phrases"}[prop]
		add(c.lookupJob(p))
		add(c.splitJobsOf(p, "rules")...)
		for _, t := range plainTargs {
			add(c.objJob(plainKind(p, t), "fast", "drive"))
		}
	case "C07":
		lookups("width")
		add(c.splitJobs("stream")...)
		joinSplits("stream")
		for _, p := range packages4 {
			p := p
			add(job{func() []*FnResult { return c.unitScanner(p) }, []string{"stream"}})
		}
		add(job{c.unitScannerJoin, []string{"stream"}})
	case "C08":
		lookups()
		add(c.splitJobs()...)
		add(c.plainJobs("fast", "drive")...)
	case "C09":
		lookups("parity")
		add(c.splitJobs("parity")...)
		add(c.plainJobs("parity")...)
		joinSplits("parity")
		each(joinKind, "parity")
		ansi("parity")
		each(customKind, "parity")
		each(genericKind, "parity")
	case "C10":
		add(c.lookupJob("graphemes"))
		ansi("ansi7")
		add(c.plainAnsi()...)
	case "C11":
		add(c.lookupJob("graphemes"))
		ansi("ansi8")
		add(c.plainAnsi()...)
	case "C12":
		add(c.lookupJob("words"))
		joinSplits("rules", "stream")
		add(job{c.unitScannerJoin, []string{"rules", "stream"}})
		each(joinKind, "fast", "drive", "state")
	case "C13":
		add(c.plainJobs("state")...)
		ansi("state")
		each(joinKind, "state")
	case "C14":
		lookups("safety", "width", "table")
	case "C15":
		add(job{func() []*FnResult { return c.unitPredicate("filter", "internal/iterators/filter", "AlphaNumeric") }, []string{"rules", "safety", "frame"}})
		add(job{func() []*FnResult { return c.unitLemmas("filter") }, nil})
	case "C16":
		add(c.lookupJob("words"))
		for _, p := range [][2]string{{"blevenumeric", "BleveNumeric"}, {"bleveideo", "BleveIdeographic"}} {
			p := p
			add(job{func() []*FnResult { return c.unitPredicate(p[0], "words", p[1]) }, []string{"rules", "safety"}})
			add(job{func() []*FnResult { return c.unitLemmas(p[0]) }, nil})
		}
	case "C17":
		each(genericKind, "*")
	case "C18":
		add(job{c.unitNest, []string{"lemma"}})
		add(c.lookupJob("words"), c.lookupJob("phrases"))
		add(c.splitJobsOf("words")...)
		add(c.splitJobsOf("phrases")...)
		for _, p := range []string{"words", "phrases"} {
			for _, t := range plainTargs {
				add(c.objJob(plainKind(p, t)))
			}
		}
	case "C19":
		add(job{c.unitFrame, []string{"frame"}})
		add(c.splitJobs("frame", "view")...)
		add(c.plainJobs("frame", "view")...)
		ansi("frame", "view")
		joinSplits("frame", "view")
		each(joinKind, "frame", "view")
		add(job{func() []*FnResult { return c.unitPredicate("filter", "internal/iterators/filter", "AlphaNumeric") }, []string{"frame"}})
		for _, p := range [][2]string{{"blevenumeric", "BleveNumeric"}, {"bleveideo", "BleveIdeographic"}} {
			p := p
			add(job{func() []*FnResult { return c.unitPredicate(p[0], "words", p[1]) }, []string{"frame"}})
		}
	case "C20":
		each(customKind, "*")
	default:
		return nil, false
	}
	return js, true
}

// quickJobs are one package's units over strings (for developer tools).
func (c *Ctx) quickJobs(pkg string) []job {
	var js []job
	one := func(f func() []*FnResult) { js = append(js, job{f, nil}) }
	pred := func(th, p, n string) { one(func() []*FnResult { return c.unitPredicate(th, p, n) }) }
	switch pkg {
	case "filter":
		pred("filter", "internal/iterators/filter", "AlphaNumeric")
	case "iterators":
		js = append(js, c.objJob(genericKind("string")))
	case "trie":
		for _, p := range packages4 {
			js = append(js, c.lookupJob(p))
		}
	case "bleve":
		pred("blevenumeric", "words", "BleveNumeric")
		pred("bleveideo", "words", "BleveIdeographic")
	default:
		one(func() []*FnResult { return c.unitSplit(pkg, "string") })
		js = append(js, c.objJob(plainKind(pkg, "string")))
		one(func() []*FnResult { return c.unitScanner(pkg) })
		if pkg == "graphemes" {
			one(func() []*FnResult { return c.unitAnsi("string") })
			js = append(js, c.objJob(ansiKind("string")))
		}
		if pkg == "words" {
			one(func() []*FnResult { return c.unitJoinSplit("string") })
			one(c.unitScannerJoin)
			js = append(js, c.objJob(joinKind("string")), c.objJob(customKind("string")))
			pred("blevenumeric", "words", "BleveNumeric")
			pred("bleveideo", "words", "BleveIdeographic")
		}
	}
	one(c.unitFrame)
	return js
}

type searchResult struct {
	Evaluations int64            `json:"evaluations"`
	Samples     []any            `json:"samples"`
	Kinds       map[string]int64 `json:"kinds"`
	Found       bool             `json:"found"`
	Case        map[string]any   `json:"case"`
	Err         string           `json:"-"`
}

// harness builds the replay program against /repo's current source.
func (c *Ctx) harness(dir string) (string, error) {
	ov := map[string]string{}
	for _, m := range [][2]string{{"harness", "internal/verifreplay"}, {"gover/spec", "internal/verifreplay/spec"}} {
		fs, err := filepath.Glob(filepath.Join(c.Dir, m[0], "*.go"))
		if err != nil {
			return "", err
		}
		for _, f := range fs {
			ov[filepath.Join(c.Repo, m[1], filepath.Base(f))] = f
		}
	}
	for p, f := range c.extraOverlay(dir) {
		ov[p] = f
	}
	b, _ := json.Marshal(map[string]any{"Replace": ov})
	of := filepath.Join(dir, "overlay.json")
	os.WriteFile(of, b, 0o644)
	bin := filepath.Join(dir, "verifreplay")
	cmd := exec.Command("go", "build", "-overlay", of, "-buildvcs=false", "-o", bin, "./internal/verifreplay")
	cmd.Dir = c.Repo
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local", "GOWORK=off")
	out, err := cmd.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("replay program: %v\n%s", err, out)
	}
	return bin, nil
}

func (c *Ctx) search(bin, prop string, secs float64, seed int64) searchResult {
	var r searchResult
	cmd := exec.Command(bin, "-prop", prop, "-contracts", filepath.Join(c.Dir, "contracts"),
		"-seconds", fmt.Sprint(secs), "-seed", fmt.Sprint(seed), "-consts", c.consts())
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	t := time.AfterFunc(time.Duration(secs*float64(time.Second))+120*time.Second, func() { cmd.Process.Kill() })
	err := cmd.Run()
	t.Stop()
	lines := strings.Split(strings.TrimSpace(out.String()), "\n")
	if e := json.Unmarshal([]byte(lines[len(lines)-1]), &r); e != nil {
		r.Err = fmt.Sprintf("the replay program failed: %v\n%s\n%s", err, out.String(), errb.String())
		if len(r.Err) > 8000 {
			r.Err = r.Err[:8000]
		}
	}
	return r
}

// consts lists the constants the module's functions mention, as sizes and
// characters worth trying.
func (c *Ctx) consts() string {
	seen := map[int64]bool{}
	for f := range c.P.Funcs {
		p := relPkg(f)
		if f.Name() == "init" || strings.Contains(p, "gen") || strings.HasPrefix(f.Name(), "verif") {
			continue
		}
		if f.Pkg != nil && !strings.HasPrefix(f.Pkg.Pkg.Path(), modPath) {
			continue
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				for _, op := range ins.Operands(nil) {
					k, ok := (*op).(*ssa.Const)
					if !ok || k.Value == nil {
						continue
					}
					if k.Value.Kind() == constant.Int {
						if v, ok := constant.Int64Val(k.Value); ok && v >= 4 && v <= 1<<20 {
							seen[v] = true
						}
					}
				}
			}
		}
	}
	// the properties are known to the search already
	for _, p := range packages4 {
		th, _ := c.theory(p)
		if bits, _, err := c.P.Bits(p, th.Bits); err == nil {
			for _, v := range bits {
				delete(seen, int64(v))
			}
		}
	}
	var l []int64
	for v := range seen {
		l = append(l, v)
	}
	sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
	if len(l) > 200 {
		l = l[:200]
	}
	var s []string
	for _, v := range l {
		s = append(s, strconv.FormatInt(v, 10))
	}
	return strings.Join(s, ",")
}

func isOwn(own []string, cat string) bool {
	if cat == "reach" || cat == "cover" {
		return false
	}
	return contains(own, cat) || (contains(own, "*") && cat != "lemma")
}

type propOutcome struct {
	rs        []*FnResult
	ownFail   []OblResult
	preFail   []OblResult
	reach     []OblResult
	nOwn, nOK int
	total, ok int
}

func (c *Ctx) evaluate(prop string, js []job) *propOutcome {
	res := make([][]*FnResult, len(js))
	var wg sync.WaitGroup
	for i, j := range js {
		wg.Add(1)
		go func(i int, j job) {
			defer wg.Done()
			res[i] = j.run()
		}(i, j)
	}
	wg.Wait()
	js = append(js, job{}, job{})
	res = append(res, c.subResults())
	res = append(res, c.stdUnits(res))
	o := &propOutcome{}
	seenFn := map[*FnResult]bool{}
	seen := map[string]bool{}
	parity := false
	for i, j := range js {
		parity = parity || contains(j.own, "parity")
		for _, r := range res[i] {
			if !seenFn[r] {
				seenFn[r] = true
				o.rs = append(o.rs, r)
			}
			for _, ob := range r.Obls {
				k := r.Fn + "|" + r.Contract + "|" + ob.Fn + "|" + ob.Cat + "|" + ob.Name
				if ob.OK && seen[k] {
					continue
				}
				seen[k] = true
				if ob.Cat == "cover" {
					if !ob.OK {
						o.reach = append(o.reach, ob)
					}
					continue
				}
				own := isOwn(j.own, ob.Cat)
				o.total++
				if own {
					o.nOwn++
				}
				switch {
				case ob.OK:
					o.ok++
					if own {
						o.nOK++
					}
				case ob.Cat == "reach" || ob.Undecided:
					o.reach = append(o.reach, ob)
				case own:
					o.ownFail = append(o.ownFail, ob)
				default:
					o.preFail = append(o.preFail, ob)
				}
			}
		}
	}
	if parity {
		c.parity(o)
	}
	switch prop {
	case "C10":
		c.optionOff(o, " with AnsiEscapeSequences on")
	case "C11":
		c.optionOff(o, " with AnsiEscapeSequences8Bit on")
	}
	return o
}

// optionOff: what holds with the option off must hold with it on, where there
// is no escape sequence.
func (c *Ctx) optionOff(o *propOutcome, suffix string) {
	off := map[string]bool{}
	for _, r := range o.rs {
		for _, ob := range r.bad() {
			if ob.Cat == "fast" && !strings.Contains(ob.Name, " with Ansi") {
				off[ob.Name] = true
			}
		}
	}
	for _, r := range o.rs {
		for _, ob := range r.Obls {
			if ob.Cat != "fast" || !strings.HasSuffix(ob.Name, suffix) {
				continue
			}
			o.nOwn++
			switch {
			case ob.OK:
				o.nOK++
			case ob.Undecided || off[strings.TrimSuffix(ob.Name, suffix)]:
			default:
				o.ownFail = append(o.ownFail, ob)
			}
		}
	}
}

// parity: an obligation that holds for one argument type and fails for
// another breaks the correspondence.
func (c *Ctx) parity(o *propOutcome) {
	norm := func(s string) string {
		for _, t := range []string{"string", "[]byte", "verifStr", "verifBytes", "internal/iterators.", "words."} {
			s = strings.ReplaceAll(s, t, "T")
		}
		return s
	}
	okFor, badFor := map[string]map[string]bool{}, map[string][]OblResult{}
	for _, r := range o.rs {
		for _, ob := range r.Obls {
			k := norm(r.Fn) + "|" + ob.Cat + "|" + ob.Name
			if ob.OK {
				if okFor[k] == nil {
					okFor[k] = map[string]bool{}
				}
				okFor[k][r.Fn] = true
			} else if ob.Cat != "reach" && !ob.Undecided {
				badFor[k] = append(badFor[k], ob)
			}
		}
	}
	fns := map[string]map[string]bool{}
	for _, r := range o.rs {
		for _, ob := range r.Obls {
			k := norm(r.Fn) + "|" + ob.Cat + "|" + ob.Name
			if fns[k] == nil {
				fns[k] = map[string]bool{}
			}
			fns[k][r.Fn] = true
		}
	}
	for k, m := range fns {
		if len(m) > 1 {
			o.nOwn++
			if len(badFor[k]) == 0 {
				o.nOK++
			}
		}
	}
	for k, l := range badFor {
		for _, ob := range l {
			if len(okFor[k]) > 0 {
				o.ownFail = append(o.ownFail, ob)
			}
		}
	}
	sort.Slice(o.ownFail, func(i, j int) bool { return o.ownFail[i].Fn+o.ownFail[i].Name < o.ownFail[j].Fn+o.ownFail[j].Name })
}

func obStrings(l []OblResult) []string {
	var out []string
	seen := map[string]bool{}
	for _, o := range l {
		s := fmt.Sprintf("%s: [%s] %s (solver: %s %s)", o.Fn, o.Cat, o.Name, o.By, o.Model)
		if !seen[s] {
			seen[s] = true
			out = append(out, s)
		}
	}
	if out == nil {
		out = []string{}
	}
	return out
}

// Check decides one property; the return value is the exit status.
func Check(repo, dir, prop string) int {
	t0 := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		seed = 1
	}
	tmp, err := os.MkdirTemp("", "verif-"+prop+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(tmp)
	c, err := NewCtx(repo, dir)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	c.S.CrossCheck = tier == "thorough"
	budget := 420 * time.Second
	if tier == "thorough" {
		budget = 3600 * time.Second
	}
	c.S.Deadline = t0.Add(budget)
	var bin string
	var berr error
	bdone := make(chan bool)
	go func() { bin, berr = c.harness(tmp); close(bdone) }()
	// a proof that failed is tried again with more candidate invariants only
	// when no failing input comes up first
	var early searchResult
	var once sync.Once
	c.refuted = func() bool {
		once.Do(func() {
			if <-bdone; berr == nil {
				early = c.search(bin, prop, 30, seed)
			}
		})
		return early.Found
	}
	js, ok := c.plan(prop)
	if !ok {
		fmt.Fprintln(os.Stderr, "no check for", prop)
		return 2
	}
	o := c.evaluate(prop, js)
	<-bdone
	if berr != nil {
		fmt.Fprintln(os.Stderr, berr)
		return 2
	}
	tv := time.Since(t0)
	secs := 3.0
	switch {
	case len(o.ownFail) > 0:
		secs = 60
	case len(o.preFail) > 0 || len(o.reach) > 0:
		secs = 45
	}
	if tier == "thorough" {
		secs = 4*secs + 60
	}
	s := early
	if !s.Found {
		s = c.search(bin, prop, secs, seed)
	}
	if s.Err != "" {
		fmt.Fprintln(os.Stderr, s.Err)
		return 2
	}
	if os.Getenv("GOVER_SAVE") != "" {
		c.saveHints()
	}
	status := 0
	rdir := filepath.Join(dir, "evidence", "replay")
	os.MkdirAll(rdir, 0o755)
	rfile := filepath.Join(rdir, prop+".json")
	os.Remove(rfile)
	if len(o.ownFail) > 0 || s.Found {
		status = 1
		rep := map[string]any{"property": prop, "failed_obligations": obStrings(o.ownFail), "failed_prerequisites": obStrings(o.preFail), "outside_reach": obStrings(o.reach),
			"search": map[string]any{"seconds": secs, "seed": seed, "evaluations": s.Evaluations}}
		var out []string
		for _, r := range o.rs {
			if r.Err != "" {
				out = append(out, r.Fn+": "+r.Err)
			}
			for _, b := range r.bad() {
				if b.Detail != "" {
					out = append(out, b.Fn+": "+b.Name+": "+b.Detail)
				}
			}
		}
		rep["verifier_output"] = out
		suffix := " no-failing-input-found"
		if s.Found {
			rep["case"] = s.Case
			rep["replay"] = "./check --replay " + rfile
			suffix = ""
		}
		b, _ := json.MarshalIndent(rep, "", " ")
		os.WriteFile(rfile, append(b, '\n'), 0o644)
		for _, f := range obStrings(o.ownFail) {
			fmt.Println("failed obligation:", f)
		}
		if s.Found {
			fmt.Printf("failing input: %v: %v\n", s.Case["text"], s.Case["failure"])
		}
		fmt.Printf("VIOLATION property=%s replay=%s%s\n", prop, rfile, suffix)
	}
	for _, f := range obStrings(append(append([]OblResult{}, o.preFail...), o.reach...)) {
		fmt.Println("not proved (bounded check instead):", f)
	}
	c.evidence(prop, tier, seed, o, s, secs, tv, time.Since(t0), status)
	fmt.Printf("%s: %d of %d obligations discharged (%d of %d state the property), %d functions, %d inputs replayed, %.1fs\n", prop, o.ok, o.total, o.nOK, o.nOwn, len(o.rs), s.Evaluations, time.Since(t0).Seconds())
	return status
}

func (c *Ctx) evidence(prop, tier string, seed int64, o *propOutcome, s searchResult, secs float64, tv, wall time.Duration, status int) {
	type fnEv struct {
		Function    string   `json:"function"`
		Contract    string   `json:"contract"`
		Obligations int      `json:"obligations"`
		Discharged  int      `json:"discharged"`
		Loops       []string `json:"loop_invariants,omitempty"`
		Outside     string   `json:"outside_reach,omitempty"`
	}
	var fns []fnEv
	assumed := map[string]bool{}
	covers, coverSat := 0, 0
	for _, r := range o.rs {
		f := fnEv{Function: r.Fn, Contract: r.Contract, Outside: r.Err}
		for _, b := range r.Obls {
			if b.Cat != "cover" {
				f.Obligations++
			}
			if b.OK && b.Cat != "cover" {
				f.Discharged++
			}
			if b.Cat == "cover" {
				covers++
				if b.Model == "sat" {
					coverSat++
				}
			}
		}
		for _, l := range r.Loops {
			f.Loops = append(f.Loops, fmt.Sprintf("%s: %d invariants, unrolled %d, measure %s", l.Where, len(l.Inv), l.Unroll, l.Measure))
		}
		for _, a := range r.Assumed {
			if q := c.decidedStd(a); q != "" {
				a = q
			}
			assumed[a] = true
		}
		fns = append(fns, f)
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].Function < fns[j].Function })
	var as []string
	for a := range assumed {
		as = append(as, a)
	}
	sort.Strings(as)
	trusted := []string{
		"gover (this framework): loading, symbolic execution of go/ssa, verification-condition generation, the theory instantiation in gover/inst.go",
		"golang.org/x/tools/go/ssa as the semantics of the source; the Go compiler agrees with it",
		"z3 5.3.2, z3 4.8.12, cvc5 1.1.2 (an obligation counts as discharged when one of them answers unsat)",
		"contracts/*.spec as the statement of the property; contracts/tables/*.txt as Unicode 17 data",
	}
	var open []string
	for _, a := range as {
		if !strings.HasSuffix(a, decidedSuffix) {
			open = append(open, a)
		}
	}
	trusted = append(trusted, open...)
	assumptions := append([]string{
		"int is 64 bits wide; every int operation carries an overflow obligation, other integer types are bit-vectors of their width",
		"a slice or string never changes while it is tokenized (no concurrent writer)",
	}, as...)
	bounded := []string{}
	for _, b := range append(append([]OblResult{}, o.preFail...), o.reach...) {
		bounded = append(bounded, fmt.Sprintf("%s: %s: bounded check only (%d inputs, see search)", b.Fn, b.Name, s.Evaluations))
	}
	cov := map[string]any{
		"obligations": o.total, "discharged": o.ok,
		"obligations_stating_the_property": o.nOwn, "of_those_discharged": o.nOK,
		"checker_cmd":              "./check " + prop,
		"trusted_base":             trusted,
		"functions_under_contract": fns,
		"backends":                 c.S.Stats.ByBack,
		"solver_queries":           c.S.Stats.Queries,
		"solver_seconds":           c.S.Stats.Time.Seconds(),
		"slowest_query_seconds":    c.S.Stats.Slowest.Seconds(),
		"verification_seconds":     tv.Seconds(),
		"reachability_checks":      covers,
		"reachable":                coverSat,
		"bounded_only":             bounded,
		"failed":                   obStrings(o.ownFail),
		"search": map[string]any{"purpose": "conformance of the contracts' executable reading with the real code, and replay of violations; not counted as proof",
			"seconds": secs, "evaluations": s.Evaluations, "kinds": s.Kinds, "samples": s.Samples},
	}
	if c.S.CrossCheck {
		cov["cross_check"] = map[string]any{"second_solver": beCvc5.name, "agreed": c.S.CrossAgree, "no_answer": c.S.CrossUnknown, "disagreed": c.S.CrossDisagree}
	}
	for k, v := range c.extraEvidence {
		cov[k] = v
	}
	v := 0
	if status == 1 {
		v = len(o.ownFail)
		if v == 0 {
			v = 1
		}
	}
	ev := map[string]any{"property": prop, "tier": tier, "seed": seed, "level": "proof", "coverage": cov, "assumptions": assumptions, "wall_s": wall.Seconds(), "violations": v}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(c.Dir, "evidence"), 0o755)
	os.WriteFile(filepath.Join(c.Dir, "evidence", prop+".json"), append(b, '\n'), 0o644)
}

// buildHarness compiles the replay program, so that a mistake in it shows up
// when the framework is built.
func buildHarness(repo, dir string) int {
	tmp, err := os.MkdirTemp("", "verif-build-")
	if err != nil {
		return 2
	}
	defer os.RemoveAll(tmp)
	c, err := NewCtx(repo, dir)
	if err == nil {
		_, err = c.harness(tmp)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	return 0
}

func Replay(repo, dir, file string) int {
	tmp, err := os.MkdirTemp("", "verif-replay-")
	if err != nil {
		return 2
	}
	defer os.RemoveAll(tmp)
	c, err := NewCtx(repo, dir)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	bin, err := c.harness(tmp)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	cmd := exec.Command(bin, "-case", file, "-contracts", filepath.Join(dir, "contracts"))
	cmd.Stdout, cmd.Stderr = os.Stdout, os.Stderr
	if err := cmd.Run(); err != nil {
		return 1
	}
	return 0
}

// extraOverlay generates the files that export what the replay program needs:
// each package's property lookup and the values of its properties.
func (c *Ctx) extraOverlay(dir string) map[string]string {
	out := map[string]string{}
	for _, p := range packages4 {
		src := "package " + p + "\n\n"
		body := [2]string{"return 0, 0", "return 0, 0"}
		bits := "nil"
		if th, _ := c.theory(p); c.P.Pkgs[p] != nil {
			if m, _, err := c.P.Bits(p, th.Bits); err == nil {
				if f := c.lookups(p); len(f) > 0 {
					name := f[0].Name()
					if o := f[0].Origin(); o != nil {
						name = o.Name()
					}
					args := [2]string{"data", "data"}
					if f[0].Origin() == nil {
						if isStringT(f[0].Signature.Params().At(0).Type()) {
							args[0] = "string(data)"
						} else {
							args[1] = "[]byte(data)"
						}
					}
					for i := range args {
						body[i] = "v, n := " + name + "(" + args[i] + "); return uint64(v), int(n)"
					}
					bits = "[]uint64{"
					for _, b := range th.Bits {
						bits += fmt.Sprintf("%#x, ", m[b])
					}
					bits += "}"
				}
			}
		}
		src += "func VerifLookupBytes(data []byte) (uint64, int) { " + body[0] + " }\n"
		src += "func VerifLookupString(data string) (uint64, int) { " + body[1] + " }\n"
		src += "var VerifBits []uint64 = " + bits + "\n"
		f := filepath.Join(dir, "lookup_"+p+".go")
		os.WriteFile(f, []byte(src), 0o644)
		out[filepath.Join(c.Repo, p, "zz_verif_lookup.go")] = f
	}
	return out
}
