//go:build go1.23

// Command verifreplay runs the real code of /repo on concrete inputs and
// decides them with the contracts. It is compiled into /repo's module through
// an overlay, so that it reaches the internal packages; nothing is written
// there.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	"unicode/utf8"

	"github.com/clipperhouse/uax29/v2/internal/verifreplay/spec"
)

// Case is one concrete input.
type Case struct {
	Prop    string `json:"property"`
	Theory  string `json:"theory,omitempty"`
	Data    []byte `json:"data"`
	Text    string `json:"text"` // Data, quoted
	Middle  []rune `json:"middle,omitempty"`
	Leading []rune `json:"leading,omitempty"`
	Seed    int64  `json:"seed"` // further choices: chunking, call history, custom split function
	Failure string `json:"failure,omitempty"`
}

type env struct {
	th  map[string]*spec.Compiled
	all []*class // joint classes of the four tables
}

var theories = []string{"graphemes", "words", "phrases", "sentences"}

func loadEnv(dir string) *env {
	e := &env{th: map[string]*spec.Compiled{}}
	for _, n := range []string{"graphemes", "words", "phrases", "sentences", "ansi", "blevenumeric", "bleveideo"} {
		t, err := spec.Load(filepath.Join(dir, n+".spec"))
		if err != nil {
			fatal(err)
		}
		var tab *spec.Table
		if t.Table != "" {
			b, err := os.ReadFile(filepath.Join(dir, "tables", t.Table+".txt"))
			if err != nil {
				fatal(err)
			}
			if tab, err = spec.LoadTable(string(b), t.Bits); err != nil {
				fatal(err)
			}
		}
		c, err := spec.Compile(t, tab)
		if err != nil {
			fatal(err)
		}
		e.th[n] = c
	}
	return e
}

func fatal(v any) {
	fmt.Fprintln(os.Stderr, v)
	os.Exit(2)
}

// class is a set of code points with the same properties.
type class struct {
	cps  []rune
	reps []rune // one per encoded length, ASCII first
}

func (e *env) classes(names []string) []*class {
	m := map[[4]uint32]*class{}
	var out []*class
	for r := rune(0); r <= utf8.MaxRune; r++ {
		if r >= 0xD800 && r <= 0xDFFF {
			continue
		}
		var k [4]uint32
		for i, n := range names {
			k[i] = e.th[n].Tab.Vals[r]
		}
		c := m[k]
		if c == nil {
			c = &class{}
			m[k] = c
			out = append(out, c)
		}
		c.cps = append(c.cps, r)
	}
	for _, c := range out {
		seen := [5]bool{}
		for _, r := range c.cps {
			if n := utf8.RuneLen(r); !seen[n] && r != 0 {
				seen[n] = true
				c.reps = append(c.reps, r)
			}
		}
		if len(c.reps) == 0 {
			c.reps = c.cps[:1]
		}
	}
	return out
}

type propDef struct {
	theories []string // theories whose characters matter most
	valid    bool     // valid UTF-8 only
	joiners  bool
	maxRun   int
	try      func(e *env, c *Case) string
	ansi     bool
	special  func(s *searcher) // extra directed cases
}

var props = map[string]*propDef{}

func (e *env) try(c *Case) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			st := string(debug.Stack())
			if i := strings.Index(st, "panic("); i > 0 {
				st = st[i:]
			}
			if len(st) > 1200 {
				st = st[:1200]
			}
			msg = fmt.Sprintf("panic: %v\n%s", r, st)
		}
	}()
	return props[c.Prop].try(e, c)
}

type searcher struct {
	e       *env
	prop    string
	p       *propDef
	theory  string
	cls     []*class
	consts  []int64
	deadl   time.Time
	stop    atomic.Bool
	evals   atomic.Int64
	mu      sync.Mutex
	found   *Case
	samples []string
	kinds   map[string]int64
	cur     []atomic.Pointer[Case]
	since   []atomic.Int64
	workers int
	seed    int64
}

func (s *searcher) done() bool {
	if s.stop.Load() {
		return true
	}
	if time.Now().After(s.deadl) {
		return true
	}
	return false
}

func (s *searcher) run(w int, kind string, c *Case) {
	s.cur[w].Store(c)
	s.since[w].Store(time.Now().UnixNano())
	msg := s.e.try(c)
	s.since[w].Store(0)
	n := s.evals.Add(1)
	if n&(n-1) == 0 && len(c.Data) < 200 {
		s.mu.Lock()
		if len(s.samples) < 12 {
			s.samples = append(s.samples, fmt.Sprintf("%s %q", kind, c.Data))
		}
		s.mu.Unlock()
	}
	if msg != "" {
		s.report(c, msg)
	}
}

func (s *searcher) report(c *Case, msg string) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.found == nil {
		d := *c
		d.Failure = msg
		s.found = &d
	}
	s.stop.Store(true)
}

func (s *searcher) watchdog(fin chan struct{}) {
	for {
		select {
		case <-fin:
			return
		case <-time.After(200 * time.Millisecond):
		}
		for w := range s.since {
			t := s.since[w].Load()
			if t == 0 {
				continue
			}
			c := s.cur[w].Load()
			lim := 15*time.Second + time.Duration(len(c.Data))*time.Millisecond
			if time.Since(time.Unix(0, t)) > lim {
				d := *c
				d.Failure = fmt.Sprintf("does not terminate (no result in %v)", lim)
				s.mu.Lock()
				s.found = &d
				s.mu.Unlock()
				s.output()
				os.Exit(1)
			}
		}
	}
}

// parallel runs f over 0..n-1 on all workers until done.
func (s *searcher) parallel(n int64, f func(w int, i int64)) {
	var next atomic.Int64
	var wg sync.WaitGroup
	for w := 0; w < s.workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for k := 0; ; k++ {
				if k&63 == 0 && s.done() || s.stop.Load() {
					return
				}
				i := next.Add(1) - 1
				if n >= 0 && i >= n {
					return
				}
				f(w, i)
			}
		}(w)
	}
	wg.Wait()
}

var badUnits = []string{"\x80", "\xbf", "\x85", "\x9b", "\xff", "\xc2", "\xc0\x80", "\xe0", "\xe0\xa0", "\xe2\x80", "\xed\xa0\x80", "\xf0", "\xf0\x9f", "\xf0\x9f\x98", "\xf0\x80\x80\x80", "\xf4\x90\x80\x80", "\xf7\xbf\xbf\xbf", "\xf8", "\xfe", "\xc2A", "\xe2A\x80", "\xe2\x80A", "\xf0\x9fA\x80"}
var ansiUnits = []string{"\x1b", "\x1b[", "\x1b]", "\x1bP", "\x1bX", "\x1b^", "\x1b_", "\x1b\\", "\x07", "\x18", "\x1a", "0", "?", ";", " ", "/", "@", "m", "~", "\x7f", "\x9b", "\x9d", "\x90", "\x98", "\x9e", "\x9f", "\x9c", "\x80", "\x85", "a", "\r", "\n", "\u0301", "é", "\u0085", "\u009b", "[", "]", "\\", "P", "O"}

// alphabet of units for exhaustive short inputs
func (s *searcher) alphabet() []string {
	var out []string
	seen := map[string]bool{}
	add := func(u string) {
		if !seen[u] {
			seen[u] = true
			out = append(out, u)
		}
	}
	rng := rand.New(rand.NewSource(s.seed))
	for _, c := range s.cls {
		add(string(c.reps[0]))
		if len(c.reps) > 1 {
			add(string(c.reps[1+rng.Intn(len(c.reps)-1)]))
		}
	}
	if s.p.ansi {
		for _, u := range ansiUnits {
			add(u)
		}
	}
	if !s.p.valid {
		for _, u := range badUnits {
			add(u)
		}
	}
	return out
}

var joinerPool = []rune{'@', '-', '/', '#', '.', ' ', 'a', '0', '\'', ',', ':', '_', 'é', 0x1F600, utf8.RuneError, 0x200D, 0x0301, 0x1F1E6, 'カ', 'א', '"', -1, 0xD800, 0x110000}

func (s *searcher) joiners(rng *rand.Rand, c *Case) {
	if !s.p.joiners {
		return
	}
	pick := func() []rune {
		n := rng.Intn(4)
		if rng.Intn(6) == 0 { // a large set
			n = s.runLen(rng) % 300
		}
		var l []rune
		for i := 0; i < n; i++ {
			var r rune
			switch rng.Intn(3) {
			case 0:
				r = joinerPool[rng.Intn(len(joinerPool))]
			case 1:
				k := s.cls[rng.Intn(len(s.cls))]
				r = k.cps[rng.Intn(len(k.cps))]
			default: // a rune of the text
				rs := []rune(string(c.Data))
				if len(rs) == 0 {
					continue
				}
				r = rs[rng.Intn(len(rs))]
			}
			l = append(l, r)
		}
		return l
	}
	c.Middle = pick()
	newl := s.e.th["words"].Mask("NEWL")
	for _, r := range pick() {
		if r >= 0 && r <= utf8.MaxRune && s.e.th["words"].Tab.Vals[r]&newl != 0 {
			continue
		}
		c.Leading = append(c.Leading, r)
	}
}

var lens = []int{1, 1, 1, 2, 2, 2, 3, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257}
var bigLens = []int{300, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097}

func (s *searcher) runLen(rng *rand.Rand) int {
	if len(s.consts) > 0 && rng.Intn(4) == 0 {
		k := s.consts[rng.Intn(len(s.consts))] + int64(rng.Intn(3)) - 1
		if k > 0 && k < 5000 {
			return int(k)
		}
	}
	if rng.Intn(40) == 0 {
		return bigLens[rng.Intn(len(bigLens))]
	}
	return lens[rng.Intn(len(lens))]
}

func (s *searcher) unit(rng *rand.Rand) string {
	switch k := rng.Intn(20); {
	case k == 0 && !s.p.valid:
		return badUnits[rng.Intn(len(badUnits))]
	case k < 6 && s.p.ansi:
		return ansiUnits[rng.Intn(len(ansiUnits))]
	case k == 7 && !s.p.valid:
		return string([]byte{byte(rng.Intn(256))})
	case k == 8 && len(s.consts) > 0:
		r := rune(s.consts[rng.Intn(len(s.consts))])
		if r >= 0 && r <= utf8.MaxRune && utf8.ValidRune(r) {
			return string(r)
		}
	case k == 9:
		return string(rune(rng.Intn(128)))
	}
	c := s.cls[rng.Intn(len(s.cls))]
	if rng.Intn(2) == 0 {
		return string(c.reps[rng.Intn(len(c.reps))])
	}
	return string(c.cps[rng.Intn(len(c.cps))])
}

var ansiIntro = []string{"\x1b", "\x1b[", "\x1b]", "\x1bP", "\x1bX", "\x1b^", "\x1b_", "\x90", "\x98", "\x9b", "\x9d", "\x9e", "\x9f"}
var ansiEnd = []string{"\x1b\\", "\x1b", "\x07", "\x18", "\x1a", "\x9c", "\\", "", "m"}

// escape is close to an escape sequence: an introducer, a few bytes from the
// ranges the grammar distinguishes, an end.
func (s *searcher) escape(rng *rand.Rand) []byte {
	b := []byte(ansiIntro[rng.Intn(len(ansiIntro))])
	n := rng.Intn(5)
	if rng.Intn(20) == 0 {
		n = s.runLen(rng)
	}
	kind := rng.Intn(6)
	for i := 0; i < n; i++ {
		if rng.Intn(3) == 0 {
			kind = rng.Intn(6)
		}
		switch kind {
		case 0, 1:
			b = append(b, byte(0x20+rng.Intn(16)))
		case 2:
			b = append(b, byte(0x30+rng.Intn(16)))
		case 3:
			b = append(b, byte(0x40+rng.Intn(64)))
		case 4:
			b = append(b, byte(rng.Intn(256)))
		case 5:
			b = append(b, s.unit(rng)...)
		}
	}
	if rng.Intn(2) == 0 {
		return append(b, byte(0x30+rng.Intn(0x50)))
	}
	return append(b, ansiEnd[rng.Intn(len(ansiEnd))]...)
}

// random text: segments of units, some repeated many times
func (s *searcher) text(rng *rand.Rand) []byte {
	var b []byte
	if s.p.ansi && rng.Intn(3) == 0 {
		if rng.Intn(4) == 0 {
			b = append(b, s.unit(rng)...)
		}
		b = append(b, s.escape(rng)...)
		if rng.Intn(2) == 0 {
			b = append(b, s.unit(rng)...)
		}
		return b
	}
	segs := 1 + rng.Intn(8)
	// a text usually draws on few kinds of characters, so that they interact
	var pool []string
	for i := 0; i < 1+rng.Intn(6); i++ {
		pool = append(pool, s.unit(rng))
	}
	for i := 0; i < segs; i++ {
		u := ""
		for k := 0; k < 1+rng.Intn(3); k++ {
			if rng.Intn(3) == 0 {
				u += s.unit(rng)
			} else {
				u += pool[rng.Intn(len(pool))]
			}
		}
		n := 1
		if rng.Intn(5) == 0 {
			n = s.runLen(rng)
		}
		if n*len(u) > 9000 {
			n = 1 + 9000/len(u)
		}
		for k := 0; k < n; k++ {
			b = append(b, u...)
		}
		if len(b) > 12000 {
			break
		}
	}
	if !s.p.valid && rng.Intn(3) == 0 && len(b) > 0 {
		b = b[:rng.Intn(len(b)+1)]
	}
	return b
}

func (s *searcher) search() {
	for i := range s.cur {
		_ = i
	}
	fin := make(chan struct{})
	go s.watchdog(fin)
	defer close(fin)
	mk := func(rng *rand.Rand, d []byte, seed int64) *Case {
		c := &Case{Prop: s.prop, Theory: s.theory, Data: d, Seed: seed}
		s.joiners(rng, c)
		return c
	}
	// 1. empty and directed
	s.run(0, "empty", mk(rand.New(rand.NewSource(1)), nil, 1))
	if s.p.special != nil && !s.done() {
		s.p.special(s)
	}
	al := s.alphabet()
	n := int64(len(al))
	// 2. every string of up to 3 units
	tot := int64(1)
	for l := 1; l <= 3; l++ {
		tot *= n
		L := l
		end := s.deadl
		s.deadl = addFrac(timeUntil(end), 2)
		s.parallel(tot, func(w int, i int64) {
			var d []byte
			k := i
			for j := 0; j < L; j++ {
				d = append(d, al[k%n]...)
				k /= n
			}
			s.run(w, "exhaustive", mk(rand.New(rand.NewSource(s.seed+i)), d, i))
		})
		s.mu.Lock()
		if !s.done() {
			s.kinds[fmt.Sprintf("all strings of %d units over %d", L, n)] = tot
		}
		s.mu.Unlock()
		s.deadl = end
	}
	// 3. random texts until the time is used up
	before := s.evals.Load()
	s.parallel(-1, func(w int, i int64) {
		seed := s.seed*1_000_003 + i
		rng := rand.New(rand.NewSource(seed))
		s.run(w, "random", mk(rng, s.text(rng), seed))
	})
	s.mu.Lock()
	s.kinds["random texts"] = s.evals.Load() - before
	s.mu.Unlock()
}

// minimise removes pieces of the input while the case still fails.
func (s *searcher) minimise() {
	c := s.found
	if c == nil || strings.HasPrefix(c.Failure, "does not terminate") {
		return
	}
	end := time.Now().Add(20 * time.Second)
	fails := func(d Case) (string, bool) {
		ch := make(chan string, 1)
		go func() { ch <- s.e.try(&d) }()
		select {
		case m := <-ch:
			return m, m != ""
		case <-time.After(3 * time.Second):
			return "", false
		}
	}
	split := func(b []byte) [][]byte {
		var out [][]byte
		for len(b) > 0 {
			_, w := utf8.DecodeRune(b)
			out = append(out, b[:w])
			b = b[w:]
		}
		return out
	}
	for size := len(split(c.Data)) / 2; size >= 1; {
		us := split(c.Data)
		shrunk := false
		for i := 0; i+size <= len(us) && time.Now().Before(end); {
			var d []byte
			for j, u := range us {
				if j < i || j >= i+size {
					d = append(d, u...)
				}
			}
			t := *c
			t.Data = d
			if m, bad := fails(t); bad {
				t.Failure = m
				*c = t
				us = split(d)
				shrunk = true
			} else {
				i++
			}
		}
		if !shrunk || size == 1 && !shrunk {
			size /= 2
		}
		if time.Now().After(end) {
			break
		}
	}
	for _, f := range []*[]rune{&c.Middle, &c.Leading} {
		for i := 0; i < len(*f); {
			old := *f
			*f = append(append([]rune{}, old[:i]...), old[i+1:]...)
			if m, bad := fails(*c); bad {
				c.Failure = m
			} else {
				*f = old
				i++
			}
		}
	}
}

func (s *searcher) output() {
	s.mu.Lock()
	defer s.mu.Unlock()
	o := map[string]any{"property": s.prop, "evaluations": s.evals.Load(), "samples": s.samples, "kinds": s.kinds, "found": s.found != nil}
	if s.found != nil {
		s.found.Text = strconv.QuoteToASCII(string(s.found.Data))
		o["case"] = s.found
	}
	b, _ := json.Marshal(o)
	fmt.Println(string(b))
}

func main() {
	prop := flag.String("prop", "", "")
	theory := flag.String("theory", "", "")
	dir := flag.String("contracts", "/verif/contracts", "")
	secs := flag.Float64("seconds", 5, "")
	seed := flag.Int64("seed", 1, "")
	consts := flag.String("consts", "", "")
	cas := flag.String("case", "", "replay one case file")
	flag.Parse()
	e := loadEnv(*dir)
	if *cas != "" {
		b, err := os.ReadFile(*cas)
		if err != nil {
			fatal(err)
		}
		var q struct{ Case *Case }
		var c Case
		if json.Unmarshal(b, &q) == nil && q.Case != nil {
			c = *q.Case
		} else if err := json.Unmarshal(b, &c); err != nil {
			fatal(err)
		}
		ch := make(chan string, 1)
		go func() { ch <- e.try(&c) }()
		select {
		case m := <-ch:
			if m != "" {
				fmt.Println(m)
				os.Exit(1)
			}
			fmt.Println("holds")
		case <-time.After(60 * time.Second):
			fmt.Println("does not terminate")
			os.Exit(1)
		}
		return
	}
	p := props[*prop]
	if p == nil {
		fatal("no such property " + *prop)
	}
	ths := p.theories
	if *theory != "" {
		ths = []string{*theory}
	}
	s := &searcher{e: e, prop: *prop, p: p, kinds: map[string]int64{}, seed: *seed, workers: runtime.NumCPU()}
	if len(ths) == 1 {
		s.theory = ths[0]
	}
	s.cls = e.classes(ths)
	s.cur = make([]atomic.Pointer[Case], s.workers)
	s.since = make([]atomic.Int64, s.workers)
	for _, f := range strings.Split(*consts, ",") {
		if v, err := strconv.ParseInt(f, 10, 64); err == nil {
			s.consts = append(s.consts, v)
		}
	}
	s.deadl = time.Now().Add(time.Duration(*secs * float64(time.Second)))
	s.search()
	s.minimise()
	s.output()
	if s.found != nil {
		os.Exit(1)
	}
}
