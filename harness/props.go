//go:build go1.23

package main

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"slices"
	"sync"
	"unicode"
	"unicode/utf8"
	"unsafe"

	"github.com/clipperhouse/uax29/v2/graphemes"
	"github.com/clipperhouse/uax29/v2/internal/iterators"
	"github.com/clipperhouse/uax29/v2/internal/iterators/filter"
	"github.com/clipperhouse/uax29/v2/internal/verifreplay/spec"
	"github.com/clipperhouse/uax29/v2/phrases"
	"github.com/clipperhouse/uax29/v2/sentences"
	"github.com/clipperhouse/uax29/v2/words"
)

type Str string
type Byt []byte

// iter is what every iterator offers.
type iter[T ~string | ~[]byte] interface {
	Next() bool
	First() T
	Value() T
	Start() int
	End() int
	Reset()
	SetText(T)
}

var splitFuncs = map[string]bufio.SplitFunc{"graphemes": graphemes.SplitFunc, "words": words.SplitFunc, "phrases": phrases.SplitFunc, "sentences": sentences.SplitFunc}

func scannerOf(th string, r io.Reader) *bufio.Scanner {
	switch th {
	case "graphemes":
		return graphemes.FromReader(r).Scanner
	case "words":
		return words.FromReader(r).Scanner
	case "phrases":
		return phrases.FromReader(r).Scanner
	}
	return sentences.FromReader(r).Scanner
}

func iterBytes(th string, b []byte) iter[[]byte] {
	switch th {
	case "graphemes":
		return graphemes.FromBytes(b)
	case "words":
		return words.FromBytes(b)
	case "phrases":
		return phrases.FromBytes(b)
	}
	return sentences.FromBytes(b)
}

func iterString(th string, s string) iter[string] {
	switch th {
	case "graphemes":
		return graphemes.FromString(s)
	case "words":
		return words.FromString(s)
	case "phrases":
		return phrases.FromString(s)
	}
	return sentences.FromString(s)
}

func graphemesAnsi(b []byte, o int) iter[[]byte] {
	g := graphemes.FromBytes(b)
	g.AnsiEscapeSequences, g.AnsiEscapeSequences8Bit = o&1 != 0, o&2 != 0
	return g
}
func graphemesAnsiString(b string, o int) iter[string] {
	g := graphemes.FromString(b)
	g.AnsiEscapeSequences, g.AnsiEscapeSequences8Bit = o&1 != 0, o&2 != 0
	return g
}

func joined[T ~string | ~[]byte](c *Case, d T) iter[T] {
	it := &words.Iterator[T]{}
	it.SetText(d)
	it.Joiners(&words.Joiners[T]{Middle: c.Middle, Leading: c.Leading})
	return it
}

func joinedFrom(c *Case, d []byte) iter[[]byte] {
	it := words.FromBytes(d)
	it.Joiners(&words.Joiners[[]byte]{Middle: c.Middle, Leading: c.Leading})
	return it
}
func joinedFromString(c *Case, d string) iter[string] {
	it := words.FromString(d)
	it.Joiners(&words.Joiners[string]{Middle: c.Middle, Leading: c.Leading})
	return it
}

// named is one way to tokenize.
type variant struct {
	name string
	ends func(c *Case) ([]int, string)
}

// run drives an iterator, checking losslessness on the way.
func run[T ~string | ~[]byte](it iter[T], d T) ([]int, string) {
	var ends []int
	pos := 0
	if v := it.Value(); len(v) != 0 || it.Start() != 0 || it.End() != 0 {
		return nil, fmt.Sprintf("new iterator is at [%d,%d)", it.Start(), it.End())
	}
	for it.Next() {
		s, e := it.Start(), it.End()
		if s != pos || e <= s || e > len(d) {
			return ends, fmt.Sprintf("token [%d,%d) after position %d of %d", s, e, pos, len(d))
		}
		if v := it.Value(); string(v) != string(d[s:e]) {
			return ends, fmt.Sprintf("token %q is not the input between %d and %d", string(v), s, e)
		}
		ends = append(ends, e)
		pos = e
	}
	if pos != len(d) {
		return ends, fmt.Sprintf("tokens end at %d of %d", pos, len(d))
	}
	return ends, ""
}

func repeat(f bufio.SplitFunc, d []byte) ([]int, string) {
	var ends []int
	pos := 0
	for pos < len(d) {
		a, t, err := f(d[pos:], true)
		if err != nil {
			return ends, fmt.Sprintf("error %v at %d", err, pos)
		}
		if a <= 0 || pos+a > len(d) {
			return ends, fmt.Sprintf("advance %d at %d of %d", a, pos, len(d))
		}
		if string(t) != string(d[pos:pos+a]) {
			return ends, fmt.Sprintf("token %q is not the input between %d and %d", t, pos, pos+a)
		}
		pos += a
		ends = append(ends, pos)
	}
	if a, t, err := f(nil, true); a != 0 || len(t) != 0 || err != nil {
		return ends, fmt.Sprintf("split of no data gives %d %q %v", a, t, err)
	}
	if a, t, err := f(d[len(d):], true); a != 0 || len(t) != 0 || err != nil {
		return ends, fmt.Sprintf("split of no data gives %d %q %v", a, t, err)
	}
	return ends, ""
}

func variantsOf(th string) []variant {
	vs := []variant{
		{th + ".FromString", func(c *Case) ([]int, string) { s := string(c.Data); return run(iterString(th, s), s) }},
		{th + ".FromBytes", func(c *Case) ([]int, string) { return run(iterBytes(th, c.Data), c.Data) }},
		{th + ".SplitFunc", func(c *Case) ([]int, string) { return repeat(splitFuncs[th], c.Data) }},
	}
	return vs
}

func joinerVariants() []variant {
	return []variant{
		{"words with joiners (string)", func(c *Case) ([]int, string) { s := string(c.Data); return run(joinedFromString(c, s), s) }},
		{"words with joiners ([]byte)", func(c *Case) ([]int, string) { return run(joinedFrom(c, c.Data), c.Data) }},
		{"words with joiners (named string)", func(c *Case) ([]int, string) { s := Str(c.Data); return run(joined(c, s), s) }},
		{"words with joiners (named []byte)", func(c *Case) ([]int, string) { b := Byt(c.Data); return run(joined(c, b), b) }},
	}
}

func ansiVariants(o int) []variant {
	return []variant{
		{fmt.Sprintf("graphemes.FromString ANSI options %d", o), func(c *Case) ([]int, string) {
			s := string(c.Data)
			return run(graphemesAnsiString(s, o), s)
		}},
		{fmt.Sprintf("graphemes.FromBytes ANSI options %d", o), func(c *Case) ([]int, string) { return run(graphemesAnsi(c.Data, o), c.Data) }},
	}
}

func allVariants(c *Case) []variant {
	var vs []variant
	for _, th := range theories {
		if c.Theory == "" || c.Theory == th {
			vs = append(vs, variantsOf(th)...)
		}
	}
	if c.Theory == "" || c.Theory == "words" {
		vs = append(vs, joinerVariants()...)
	}
	if c.Theory == "" || c.Theory == "graphemes" {
		for o := 1; o < 4; o++ {
			vs = append(vs, ansiVariants(o)...)
		}
	}
	return vs
}

func at(e []int, i int) int {
	if i < len(e) {
		return e[i]
	}
	return -1
}

func diff(d []byte, got, want []int) string {
	for i := 0; i < len(got) || i < len(want); i++ {
		if at(got, i) != at(want, i) {
			s := 0
			if i > 0 {
				s = got[i-1]
			}
			f := func(e int) string {
				if e < 0 {
					return "no token"
				}
				return fmt.Sprintf("token [%d,%d) %s", s, e, clip(d[s:e]))
			}
			return fmt.Sprintf("%s where %s is expected", f(at(got, i)), f(at(want, i)))
		}
	}
	return ""
}

func clip(b []byte) string {
	if len(b) > 60 {
		return fmt.Sprintf("%q...", b[:60])
	}
	return fmt.Sprintf("%q", b)
}

func (e *env) full(th string, d []byte) []int {
	t := e.th[th]
	x := t.Decode(d, len(d))
	var out []int
	for _, i := range t.Full(x) {
		if i < len(x.Offs) && (len(out) == 0 || x.Offs[i] > out[len(out)-1]) && x.Offs[i] > 0 {
			out = append(out, x.Offs[i])
		}
	}
	return out
}

// restart gives the boundaries token by token.
func (e *env) restart(th string, d []byte, m, l []rune) []int {
	t := e.th[th]
	var out []int
	x := t.Decode(d, len(d))
	var jm, jl func(rune) bool
	if m != nil || l != nil {
		jm = func(r rune) bool { return slices.Contains(m, r) }
		jl = func(r rune) bool { return slices.Contains(l, r) }
	}
	for i := 0; i < len(x.Offs)-1; {
		i = t.Boundary(x, i, jm, jl)
		out = append(out, x.Offs[i])
	}
	return out
}

func ruleProp(th string) func(e *env, c *Case) string {
	return func(e *env, c *Case) string {
		if !utf8.Valid(c.Data) {
			return ""
		}
		want := e.full(th, c.Data)
		for _, v := range variantsOf(th) {
			got, msg := v.ends(c)
			if msg == "" {
				msg = diff(c.Data, got, want)
			}
			if msg != "" {
				return v.name + ": " + msg
			}
		}
		return ""
	}
}

// ignoredRuns: long runs of ignorable characters, for anything remembered.
func ignoredRuns(s *searcher) {
	us := []string{"\u0301", "\u2060", "\u200d", " ", ")"}
	ctx := [][2]string{{"a:", "b"}, {"a", "b"}, {"1,", "2"}, {"\u05d0\"", "\u05d0"}, {"A. ", "b"}, {"A.", " b"}, {"\u0915\u094d", "\u0915"}, {"\U0001F600", "\U0001F600"}, {"\U0001F1E6", "\U0001F1E7"}}
	s.parallel(int64(len(us)*len(ctx)*8), func(w int, i int64) {
		k := int(i)
		c := ctx[k%len(ctx)]
		k /= len(ctx)
		n := []int{3, 17, 31, 33, 65, 127, 257, 1030}[k%8]
		u := us[k/8]
		s.run(w, "long run", &Case{Prop: s.prop, Theory: s.theory, Data: []byte(c[0] + string(bytes.Repeat([]byte(u), n)) + c[1]), Middle: []rune{'-'}, Seed: s.seed + i})
	})
}

// longTokens: tokens near the scanners' default limit.
func longTokens(s *searcher) {
	us := []string{"a", "a ", "\u0301", "\u2060", "x.", "1,"}
	s.parallel(int64(2*len(us)), func(w int, i int64) {
		u := us[int(i)/2]
		d := append([]byte("a"), bytes.Repeat([]byte(u), 58000/len(u))...)
		s.run(w, "long token", &Case{Prop: s.prop, Theory: s.theory, Data: append(d, ". Bc d"...), Seed: s.seed + i})
	})
}

// everyCodePoint places every code point between class representatives.
func everyCodePoint(s *searcher) {
	th := s.theory
	if th == "" {
		return
	}
	var ctx []string
	for _, c := range s.cls {
		ctx = append(ctx, string(c.reps[0]))
	}
	rng := rand.New(rand.NewSource(s.seed))
	var pre, post []string
	pre, post = append(pre, ""), append(post, "")
	for len(pre) < 3 {
		pre = append(pre, ctx[rng.Intn(len(ctx))])
		post = append(post, ctx[rng.Intn(len(ctx))])
	}
	// contexts that tell the classes apart
	sep := map[string][][2]string{
		"graphemes": {{"a", "b"}, {"\u200c", "\u1100"}, {"\U0001F600\u200d", "\u0915"}, {"\u0915\u094d", "\u11a8"}, {"\U0001F1E6", "\U0001F1E7"}},
		"words":     {{"a", "b"}, {"1", "2"}, {"\u30a2", "\u30a2"}, {"_", "_"}, {"\u05d0", "\u05d0"}, {"\u200d", ""}, {" ", " "}, {"\U0001F1E6", "\U0001F1E7"}},
		"phrases":   {{"a", "b"}, {"1", "2"}, {"\u30a2", "\u30a2"}, {"_", "_"}, {"\u05d0", "\u05d0"}, {"\u200d", ""}, {" ", " "}, {"\U0001F1E6", "\U0001F1E7"}},
		"sentences": {{"a.", "a"}, {"a. ", " a"}, {"!", "A"}, {"A.", "A"}, {"a. b", "."}, {"1.", "1"}, {"!", " ."}, {"a. ", "b"}},
	}[th]
	for i := range pre {
		sep = append(sep, [2]string{pre[i], post[i]})
	}
	s.parallel(0x110000, func(w int, i int64) {
		if i >= 0xD800 && i <= 0xDFFF {
			return
		}
		for _, p := range sep {
			s.run(w, "every code point", &Case{Prop: s.prop, Theory: th, Data: []byte(p[0] + string(rune(i)) + p[1])})
		}
	})
	if !s.done() {
		s.mu.Lock()
		s.kinds[fmt.Sprintf("every scalar value in %d contexts", len(sep))] = int64(0x110000-0x800) * int64(len(sep))
		s.mu.Unlock()
	}
}

// longRuns repeats each class many times, with and without company.
func longRuns(s *searcher) {
	var us []string
	for _, c := range s.cls {
		us = append(us, string(c.reps[0]))
	}
	var ns []int
	for _, k := range s.consts {
		for d := int64(-1); d <= 1; d++ {
			if n := k + d; n > 2 && n < 70000 {
				ns = append(ns, int(n))
			}
		}
	}
	ns = append(ns, 3, 4, 5, 16, 17, 32, 33, 64, 65, 128, 129, 256, 257, 1024, 1025)
	heads := us
	s.parallel(int64(len(ns)*len(us)), func(w int, i int64) {
		n, u := ns[int(i)/len(us)], us[int(i)%len(us)]
		var mid []byte
		for k := 0; k < n; k++ {
			mid = append(mid, u...)
		}
		rng := rand.New(rand.NewSource(s.seed + i))
		s.run(w, "long run", &Case{Prop: s.prop, Theory: s.theory, Data: mid, Seed: i})
		for k := 0; k < 6 && !s.done(); k++ {
			h := heads[rng.Intn(len(heads))]
			if rng.Intn(2) == 0 {
				h = heads[rng.Intn(len(heads))] + h
			}
			t := heads[rng.Intn(len(heads))]
			c := &Case{Prop: s.prop, Theory: s.theory, Data: []byte(h + string(mid) + t), Seed: i}
			s.joiners(rng, c)
			s.run(w, "long run", c)
		}
	})
}

func both(fs ...func(s *searcher)) func(s *searcher) {
	return func(s *searcher) {
		end := s.deadl
		for i, f := range fs {
			left := timeUntil(end)
			s.deadl = addFrac(left, 2*(len(fs)-i))
			f(s)
			s.deadl = end
			if s.stop.Load() {
				return
			}
		}
	}
}

// chunked delivers data in pieces chosen by a seed.
type chunked struct {
	d    []byte
	rng  *rand.Rand
	one  bool
	sent int
	fin  error
}

func (r *chunked) Read(p []byte) (int, error) {
	if r.sent >= len(r.d) {
		return 0, r.fin
	}
	n := 1
	if !r.one {
		n = 1 + r.rng.Intn(7)
		if r.rng.Intn(8) == 0 {
			n = 1 + r.rng.Intn(4096)
		}
	}
	n = min(n, len(p), len(r.d)-r.sent)
	copy(p, r.d[r.sent:r.sent+n])
	r.sent += n
	if r.sent == len(r.d) && !r.one && r.rng.Intn(2) == 0 {
		return n, r.fin
	}
	return n, nil
}

// stream checks that a scanner over chunks yields want, and asks for more
// only while the boundary is not settled.
func (e *env) stream(c *Case, th string, mk func(r io.Reader) *bufio.Scanner, want []int, pending func(s, n int) bool, one bool) string {
	r := &chunked{d: c.Data, rng: rand.New(rand.NewSource(c.Seed)), one: one, fin: io.EOF}
	sc := mk(r)
	if len(c.Data) > 60000 { // within the default limit otherwise
		sc.Buffer(nil, len(c.Data)+4096)
	}
	var got []int
	pos := 0
	asked := pos
	for sc.Scan() {
		tok := sc.Bytes()
		if pos+len(tok) > len(c.Data) || string(tok) != string(c.Data[pos:pos+len(tok)]) {
			return fmt.Sprintf("token %q at %d is not the input", tok, pos)
		}
		if one && pending != nil {
			for n := max(asked, pos+1); n < r.sent; n++ {
				if !pending(pos, n) {
					return fmt.Sprintf("asks for more than the %d bytes %s, which settle the boundary", n-pos, clip(c.Data[pos:n]))
				}
			}
			asked = r.sent
		}
		pos += len(tok)
		got = append(got, pos)
		if len(got) > len(c.Data) {
			break
		}
	}
	if err := sc.Err(); err != nil {
		return fmt.Sprintf("scanner error %v", err)
	}
	return diff(c.Data, got, want)
}

func (e *env) pendingFn(th string, c *Case, joiners bool) func(s, n int) bool {
	t := e.th[th]
	jm, jl := func(r rune) bool { return slices.Contains(c.Middle, r) }, func(r rune) bool { return slices.Contains(c.Leading, r) }
	if !joiners {
		jm, jl = nil, nil
	}
	return func(s, n int) bool {
		d := c.Data[s:]
		x := t.Decode(d, n-s)
		return t.Pending(x, 0, jm, jl)
	}
}

func tryStream(e *env, c *Case) string {
	ths := theories
	if c.Theory != "" {
		ths = []string{c.Theory}
	}
	d := c.Data
	rng := rand.New(rand.NewSource(c.Seed + 7))
	for _, th := range ths {
		f := splitFuncs[th]
		if len(d) == 0 {
			if a, t, err := f(d, false); a != 0 || t != nil || err != nil {
				return fmt.Sprintf("%s: no data, not at the end: %d %q %v", th, a, t, err)
			}
			continue
		}
		wa, _, err := f(d, true)
		if err != nil || wa <= 0 {
			return fmt.Sprintf("%s: whole input: %d %v", th, wa, err)
		}
		t := e.th[th]
		check := func(n int) string {
			a, tok, err := f(d[:n:n], false)
			if err != nil {
				return fmt.Sprintf("%s: error %v for the prefix of %d bytes", th, err, n)
			}
			if a == 0 {
				if tok != nil {
					return fmt.Sprintf("%s: token %q without advance for the prefix of %d bytes", th, tok, n)
				}
				if n > 0 && !t.Pending(t.Decode(d, n), 0, nil, nil) {
					return fmt.Sprintf("%s: asks for more than the first %d bytes %s, which settle the boundary", th, n, clip(d[:n]))
				}
				return ""
			}
			if a != wa || !bytes.Equal(tok, d[:wa]) {
				return fmt.Sprintf("%s: the prefix of %d bytes gives advance %d (%q), the whole input %d", th, n, a, tok, wa)
			}
			return ""
		}
		if len(d) <= 24 {
			for n := 0; n <= len(d); n++ {
				if m := check(n); m != "" {
					return m
				}
			}
		} else {
			for k := 0; k < 8; k++ {
				n := rng.Intn(len(d) + 1)
				switch k {
				case 0:
					n = min(wa, len(d))
				case 1:
					n = min(wa+1, len(d))
				case 2:
					n = max(0, len(d)-1)
				case 3:
					n = len(d)
				}
				if m := check(n); m != "" {
					return m
				}
			}
		}
		if len(d) < 3000 && rng.Intn(4) == 0 || len(d) < 16 || len(d) > 30000 && len(d) <= 60000 {
			want, msg := run(iterBytes(th, d), d)
			if msg != "" {
				return th + ": " + msg
			}
			one := len(d) < 200 && rng.Intn(2) == 0
			if m := e.stream(c, th, func(r io.Reader) *bufio.Scanner { return scannerOf(th, r) }, want, e.pendingFn(th, c, false), one); m != "" {
				return th + " scanner: " + m
			}
		}
		if th == "words" && (len(d) < 3000 && rng.Intn(4) == 0 || len(d) < 16) {
			want, msg := run(joinedFrom(c, d), d)
			if msg != "" {
				return "joiners: " + msg
			}
			one := len(d) < 200
			if m := e.stream(c, th, joinScanner(c), want, e.pendingFn(th, c, true), one); m != "" {
				return "words scanner with joiners: " + m
			}
		}
	}
	return ""
}

func joinScanner(c *Case) func(r io.Reader) *bufio.Scanner {
	return func(r io.Reader) *bufio.Scanner {
		sc := words.FromReader(r)
		sc.Joiners(&words.Joiners[[]byte]{Middle: c.Middle, Leading: c.Leading})
		return sc.Scanner
	}
}

func tryJoiners(e *env, c *Case) string {
	want := e.restart("words", c.Data, append([]rune{}, c.Middle...), append([]rune{}, c.Leading...))
	for _, v := range joinerVariants() {
		got, msg := v.ends(c)
		if msg == "" {
			msg = diff(c.Data, got, want)
		}
		if msg != "" {
			return fmt.Sprintf("%s, middle %q leading %q: %s", v.name, c.Middle, c.Leading, msg)
		}
	}
	if len(c.Data) < 3000 {
		for _, one := range []bool{false, true} {
			if one && len(c.Data) > 40 {
				continue
			}
			if m := e.stream(c, "words", joinScanner(c), want, nil, one); m != "" {
				return fmt.Sprintf("scanner, middle %q leading %q: %s", c.Middle, c.Leading, m)
			}
		}
	}
	// no joiners at all
	for _, j := range []*words.Joiners[[]byte]{{}, {Middle: []rune{}, Leading: []rune{}}} {
		it := words.FromBytes(c.Data)
		it.Joiners(j)
		got, msg := run[[]byte](it, c.Data)
		if msg == "" {
			msg = diff(c.Data, got, e.restart("words", c.Data, nil, nil))
		}
		if msg != "" {
			return "empty joiners: " + msg
		}
	}
	// nil sets never panic as long as the set itself is given
	if f := joinedFrom(c, c.Data).First(); len(c.Data) > 0 && len(f) != want[0] {
		return fmt.Sprintf("First is %q, the first token %q", f, c.Data[:want[0]])
	}
	return ""
}

func tryFast(e *env, c *Case) string {
	ths := theories
	if c.Theory != "" {
		ths = []string{c.Theory}
	}
	for _, th := range ths {
		want, msg := repeat(splitFuncs[th], c.Data)
		if msg != "" {
			return ""
		}
		for _, v := range variantsOf(th)[:2] {
			got, msg := v.ends(c)
			if msg == "" {
				msg = diff(c.Data, got, want)
			}
			if msg != "" {
				return v.name + " against SplitFunc: " + msg
			}
		}
		if len(want) > 0 {
			if f := iterBytes(th, c.Data).First(); len(f) != want[0] {
				return fmt.Sprintf("%s: First is %q, SplitFunc gives %q", th, f, c.Data[:want[0]])
			}
		}
	}
	return ""
}

func tryTypes(e *env, c *Case) string {
	same := func(vs []variant) string {
		var w []int
		for i, v := range vs {
			got, _ := v.ends(c)
			if i == 0 {
				w = got
				continue
			}
			if m := diff(c.Data, got, w); m != "" {
				return v.name + " against " + vs[0].name + ": " + m
			}
		}
		return ""
	}
	for _, th := range theories {
		if m := same(variantsOf(th)[:2]); m != "" {
			return m
		}
	}
	if m := same(joinerVariants()); m != "" {
		return m
	}
	for o := 1; o < 4; o++ {
		if m := same(ansiVariants(o)); m != "" {
			return m
		}
	}
	// First
	for _, th := range theories {
		if a, b := iterString(th, string(c.Data)).First(), iterBytes(th, c.Data).First(); a != string(b) {
			return fmt.Sprintf("%s: First is %q for a string and %q for bytes", th, a, b)
		}
	}
	s, b := Str(c.Data), Byt(c.Data)
	if x, y := joined(c, s).First(), joined(c, b).First(); string(x) != string(y) {
		return fmt.Sprintf("First with joiners is %q for a named string and %q for named bytes", x, y)
	}
	// custom split functions see the same data
	fs := func(d Str, eof bool) (int, Str, error) { a, _, err := splitRes(c.Seed, len(d)); return a, "", err }
	fb := func(d Byt, eof bool) (int, Byt, error) { a, _, err := splitRes(c.Seed, len(d)); return a, nil, err }
	g1, p1 := drive[Str](iterators.New(fs, s), len(s))
	g2, p2 := drive[Byt](iterators.New(fb, b), len(b))
	if m := diff(c.Data, g1, g2); m != "" || p1 != p2 {
		return "generic iterator, named string against named bytes: " + m
	}
	return ""
}

// splitRes is an arbitrary split function: its result depends on how much
// text is left.
func splitRes(seed int64, left int) (int, bool, error) {
	h := uint64(seed)*0x9E3779B97F4A7C15 ^ uint64(left)*0xD6E8FEB86659FD93
	h ^= h >> 29
	h *= 0xBF58476D1CE4E5B9
	h ^= h >> 32
	bad := uint64(20)
	if seed%3 == 0 {
		bad = 1 << 40
	}
	switch h % bad {
	case 0:
		return 0, false, nil
	case 1:
		return -1 - int(h>>40)%3, false, nil
	case 2:
		return left + 1 + int(h>>40)%3, false, nil
	case 3:
		return 1, false, []error{errors.New("custom error"), bufio.ErrFinalToken, io.EOF, bufio.ErrTooLong, io.ErrUnexpectedEOF, io.ErrNoProgress}[int(h>>40)%6]
	case 4:
		return int(^uint(0) >> 1), false, nil
	case 5:
		return left, true, nil
	case 6:
		return -int(^uint(0)>>1) - 1, false, nil
	}
	if left == 0 {
		return 0, true, nil
	}
	k := left
	if h>>33&1 == 0 {
		k = min(left, 4)
	}
	return 1 + int(h>>34)%k, true, nil
}

func drive[T ~string | ~[]byte](it iter[T], n int) (ends []int, panicked bool) {
	defer func() {
		if r := recover(); r != nil {
			panicked = true
		}
	}()
	pos := 0
	for k := 0; k <= n && it.Next(); k++ {
		if it.Start() != pos || it.End() <= pos || it.End() > n {
			ends = append(ends, -2)
			return
		}
		_ = it.Value()
		pos = it.End()
		ends = append(ends, pos)
	}
	return
}

func tryAnsi(opt int) func(e *env, c *Case) string {
	return func(e *env, c *Case) string {
		a7, a8 := e.th["ansi"].ByteLook("A7", c.Data), e.th["ansi"].ByteLook("A8", c.Data)
		for o := 0; o < 4; o++ {
			if o&opt == 0 && o != 0 {
				continue
			}
			// the other option is checked only where it is off, or by its own property
			var want []int
			for p := 0; p < len(c.Data); {
				switch {
				case o&1 != 0 && a7[p] >= 0:
					p = int(a7[p])
				case o&2 != 0 && a8[p] >= 0:
					p = int(a8[p])
				default:
					a, _, _ := graphemes.SplitFunc(c.Data[p:], true)
					if a <= 0 {
						return ""
					}
					p += a
				}
				want = append(want, p)
			}
			for _, v := range ansiVariants(o) {
				got, msg := v.ends(c)
				if msg == "" {
					msg = diff(c.Data, got, want)
				}
				if msg != "" {
					return v.name + ": " + msg
				}
			}
			if len(want) > 0 {
				if f := graphemesAnsi(c.Data, o).First(); len(f) != want[0] {
					return fmt.Sprintf("First with ANSI options %d is %q, expected %q", o, f, c.Data[:want[0]])
				}
			}
		}
		if opt == 2 && utf8.Valid(c.Data) {
			for _, o := range []int{0, 1} {
				a, _ := run(graphemesAnsi(c.Data, o), c.Data)
				b, _ := run(graphemesAnsi(c.Data, o|2), c.Data)
				if m := diff(c.Data, b, a); m != "" {
					return "the 8-bit option changes the tokens of valid text: " + m
				}
			}
		}
		return ""
	}
}

// history runs a random sequence of calls against the model: the tokens of
// fresh iterators over the same text.
func history[T ~string | ~[]byte](name string, c *Case, mk func(T) iter[T], cut func(i, j int) T) string {
	rng := rand.New(rand.NewSource(c.Seed))
	n := len(c.Data)
	fresh := func(d T) ([]int, string) { return run(mk(d), d) }
	d := cut(0, n)
	ends, msg := fresh(d)
	if msg != "" {
		return name + ": " + msg
	}
	it := mk(d)
	k, s, e := 0, 0, 0 // tokens read, current token
	log := ""
	for step := 0; step < 30; step++ {
		switch op := rng.Intn(10); {
		case op < 5:
			log += "Next "
			ok := it.Next()
			if ok != (e < len(d)) {
				return fmt.Sprintf("%s: %s: Next returns %v at %d of %d", name, log, ok, e, len(d))
			}
			if ok {
				s, e = e, ends[k]
				k++
			}
		case op == 5:
			log += "First "
			f := it.First()
			w := 0
			if len(ends) > 0 {
				w = ends[0]
			}
			if string(f) != string(d[:w]) {
				return fmt.Sprintf("%s: %s: First is %q, the first token %q", name, log, string(f), string(d[:w]))
			}
		case op == 6 && rng.Intn(2) == 0:
			log += "Reset "
			it.Reset()
			k, s, e = 0, 0, 0
		case op == 7 && rng.Intn(2) == 0:
			i := rng.Intn(n + 1)
			j := i + rng.Intn(n-i+1)
			log += fmt.Sprintf("SetText(%d:%d) ", i, j)
			d = cut(i, j)
			it.SetText(d)
			k, s, e = 0, 0, 0
			if ends, msg = fresh(d); msg != "" {
				return name + ": " + msg
			}
		case op == 8: // to the end
			if rng.Intn(3) == 0 {
				log += "Next... "
				for e < len(d) {
					if !it.Next() {
						return fmt.Sprintf("%s: %s: Next stops at %d of %d", name, log, e, len(d))
					}
					s, e = e, ends[k]
					k++
				}
			}
		default:
			log += "Value "
		}
		if it.Start() != s || it.End() != e || string(it.Value()) != string(d[s:e]) {
			return fmt.Sprintf("%s: %s: at [%d,%d) %q, expected [%d,%d) %q", name, log, it.Start(), it.End(), string(it.Value()), s, e, string(d[s:e]))
		}
	}
	return ""
}

func tryState(e *env, c *Case) string {
	if len(c.Data) > 2000 {
		c.Data = c.Data[:2000]
	}
	cs := func(i, j int) string { return string(c.Data[i:j]) }
	cb := func(i, j int) []byte { return c.Data[i:j:j] }
	for _, th := range theories {
		if c.Theory != "" && c.Theory != th {
			continue
		}
		if m := history(th+" string", c, func(d string) iter[string] { return iterString(th, d) }, cs); m != "" {
			return m
		}
		if m := history(th+" []byte", c, func(d []byte) iter[[]byte] { return iterBytes(th, d) }, cb); m != "" {
			return m
		}
	}
	if c.Theory == "" || c.Theory == "words" {
		if m := history("words with joiners", c, func(d string) iter[string] { return joinedFromString(c, d) }, cs); m != "" {
			return m
		}
		if m := history("words with joiners (named)", c, func(d Byt) iter[Byt] { return joined(c, d) }, func(i, j int) Byt { return Byt(c.Data[i:j:j]) }); m != "" {
			return m
		}
	}
	if c.Theory == "" || c.Theory == "graphemes" {
		for o := 1; o < 4; o++ {
			if m := history(fmt.Sprintf("graphemes ANSI %d", o), c, func(d string) iter[string] { return graphemesAnsiString(d, o) }, cs); m != "" {
				return m
			}
			if m := history(fmt.Sprintf("graphemes ANSI %d", o), c, func(d []byte) iter[[]byte] { return graphemesAnsi(d, o) }, cb); m != "" {
				return m
			}
		}
	}
	return ""
}

func tryFilter(e *env, c *Case) string {
	want := false
	for _, r := range string(c.Data) {
		want = want || unicode.IsLetter(r) || unicode.IsNumber(r)
	}
	d := bytes.Clone(c.Data)
	got := filter.AlphaNumeric(d)
	if got != want {
		return fmt.Sprintf("AlphaNumeric is %v", got)
	}
	if !bytes.Equal(d, c.Data) {
		return "AlphaNumeric changes its argument"
	}
	return ""
}

func tryBleve(e *env, c *Case) string {
	d := bytes.Clone(c.Data)
	for _, p := range []struct {
		n string
		f func([]byte) bool
		t *spec.Compiled
	}{{"BleveNumeric", words.BleveNumeric, e.th["blevenumeric"]}, {"BleveIdeographic", words.BleveIdeographic, e.th["bleveideo"]}} {
		want := p.t.Accepts(p.t.Decode(c.Data, len(c.Data)))
		if got := p.f(d); got != want {
			return fmt.Sprintf("%s is %v", p.n, got)
		}
	}
	return ""
}

// model of an iterator driven by an arbitrary split function
func custom[T ~string | ~[]byte](name string, c *Case, it iter[T], d T, single bool) string {
	var want []int
	wp := false
	for p := 0; p < len(d); {
		if single && len(d)-p == 1 {
			p++
			want = append(want, p)
			continue
		}
		a, _, err := splitRes(c.Seed, len(d)-p)
		if err != nil || a <= 0 || a > len(d)-p {
			wp = true
			break
		}
		p += a
		want = append(want, p)
	}
	got, gp := drive(it, len(d))
	if m := diff(c.Data, got, want); m != "" {
		return fmt.Sprintf("%s: %s", name, m)
	}
	if gp != wp {
		return fmt.Sprintf("%s: panics %v, the split function misbehaves %v (after %d tokens)", name, gp, wp, len(want))
	}
	return ""
}

func firstOf[T ~string | ~[]byte](it iter[T]) (f T, panicked bool) {
	defer func() {
		if r := recover(); r != nil {
			panicked = true
		}
	}()
	return it.First(), false
}

func customFirst[T ~string | ~[]byte](name string, c *Case, it iter[T], d T, _ bool) string {
	if len(d) == 0 {
		if f, p := firstOf(it); p || len(f) != 0 {
			return name + ": First of empty text"
		}
		return ""
	}
	a, _, err := splitRes(c.Seed, len(d))
	bad := err != nil || a <= 0 || a > len(d)
	f, p := firstOf(it)
	if p != bad {
		return fmt.Sprintf("%s: First panics %v, the split function misbehaves %v", name, p, bad)
	}
	if !p && string(f) != string(d[:a]) {
		return fmt.Sprintf("%s: First is %q, the split function gives %q", name, string(f), string(d[:a]))
	}
	return ""
}

func splitT[T ~string | ~[]byte](c *Case, whole T) (f func(T, bool) (int, T, error), ok *string) {
	ok = new(string)
	return func(d T, eof bool) (int, T, error) {
		if !eof {
			*ok = "the split function is not told that the text ends"
		}
		if len(d) > len(whole) || string(d) != string(whole[len(whole)-len(d):]) {
			*ok = "the split function is given something else than the remaining text"
		}
		a, tok, err := splitRes(c.Seed, len(d))
		var t T
		if tok && a <= len(d) {
			t = d[:a]
		}
		return a, t, err
	}, ok
}

func tryGeneric1[T ~string | ~[]byte](c *Case, d T) string {
	f, ok := splitT(c, d)
	n := fmt.Sprintf("generic iterator over %T", d)
	if m := custom[T](n, c, iterators.New(f, d), d, true); m != "" {
		return m
	}
	if m := customFirst[T](n, c, iterators.New(f, d), d, false); m != "" && len(d) != 1 {
		return m
	}
	// Split and SetText on a used iterator
	it := iterators.New(func(d T, eof bool) (int, T, error) { return 1, d[:1], nil }, d)
	for i := 0; i < int(c.Seed&3); i++ {
		it.Next()
	}
	at := it.End()
	it.Split(f)
	if it.End() != at {
		return n + ": Split moves the iterator"
	}
	it.SetText(d)
	if m := custom[T](n+" after Split and SetText", c, it, d, true); m != "" {
		return m
	}
	it.Reset()
	if m := custom[T](n+" after Reset", c, it, d, true); m != "" {
		return m
	}
	if *ok != "" {
		return n + ": " + *ok
	}
	hi := &Case{Prop: c.Prop, Data: c.Data, Seed: c.Seed*3 - c.Seed*3%3}
	g, _ := splitT(hi, d)
	return history[T](n, hi, func(x T) iter[T] { return iterators.New(g, x) }, func(i, j int) T { return d[i:j] })
}

func tryGeneric(e *env, c *Case) string {
	if len(c.Data) > 3000 {
		c.Data = c.Data[:3000]
	}
	for _, m := range []string{tryGeneric1(c, string(c.Data)), tryGeneric1(c, c.Data), tryGeneric1(c, Str(c.Data)), tryGeneric1(c, Byt(c.Data))} {
		if m != "" {
			return m
		}
	}
	return ""
}

func tryCustom1[T ~string | ~[]byte](c *Case, mk func(d T) *words.Iterator[T], d T) string {
	f, ok := splitT(c, d)
	n := fmt.Sprintf("words iterator over %T with custom split", d)
	it := mk(d)
	it.Split(f)
	if m := custom[T](n, c, it, d, false); m != "" {
		return m
	}
	it.Reset()
	if m := customFirst[T](n, c, it, d, false); m != "" {
		return m
	}
	// installed in the middle of the text
	it = mk(d)
	it.Split(func(d T, eof bool) (int, T, error) { return 1, d[:1], nil })
	for i := 0; i < int(c.Seed&3); i++ {
		it.Next()
	}
	at := it.End()
	it.Split(f)
	if it.End() != at {
		return n + ": Split moves the iterator"
	}
	if at < len(d) {
		rest := c.Data[at:]
		a, _, err := splitRes(c.Seed, len(rest))
		bad := err != nil || a <= 0 || a > len(rest)
		p := func() (p bool) {
			defer func() { p = recover() != nil }()
			it.Next()
			return
		}()
		if p != bad {
			return fmt.Sprintf("%s at %d: panics %v, the split function misbehaves %v", n, at, p, bad)
		}
		if !bad && (it.Start() != at || it.End() != at+a) {
			return fmt.Sprintf("%s at %d: token [%d,%d), the split function reports %d", n, at, it.Start(), it.End(), a)
		}
	}
	it.SetText(d)
	if m := custom[T](n+" after SetText", c, it, d, false); m != "" {
		return m
	}
	if *ok != "" {
		return n + ": " + *ok
	}
	return ""
}

func tryCustom(e *env, c *Case) string {
	if len(c.Data) > 3000 {
		c.Data = c.Data[:3000]
	}
	for _, m := range []string{
		tryCustom1(c, words.FromString, string(c.Data)), tryCustom1(c, words.FromBytes, c.Data),
		tryCustom1(c, func(d Str) *words.Iterator[Str] { it := &words.Iterator[Str]{}; it.SetText(d); return it }, Str(c.Data)),
		tryCustom1(c, func(d Byt) *words.Iterator[Byt] { it := &words.Iterator[Byt]{}; it.SetText(d); return it }, Byt(c.Data))} {
		if m != "" {
			return m
		}
	}
	return ""
}

func tryNest(e *env, c *Case) string {
	if !utf8.Valid(c.Data) {
		return ""
	}
	w, _ := run[[]byte](words.FromBytes(c.Data), c.Data)
	p, _ := run[[]byte](phrases.FromBytes(c.Data), c.Data)
	i := 0
	for _, b := range p {
		for i < len(w) && w[i] < b {
			i++
		}
		if i >= len(w) || w[i] != b {
			return fmt.Sprintf("phrase boundary at %d is not a word boundary", b)
		}
	}
	return ""
}

func tryRunes(e *env, c *Case) string {
	if !utf8.Valid(c.Data) {
		return ""
	}
	for _, v := range allVariants(c) {
		got, _ := v.ends(c)
		for _, b := range got {
			if b >= 0 && b < len(c.Data) && !utf8.RuneStart(c.Data[b]) {
				return fmt.Sprintf("%s: boundary at %d is inside a character", v.name, b)
			}
		}
	}
	return ""
}

func tryLossless(e *env, c *Case) string {
	for _, v := range allVariants(c) {
		if _, msg := v.ends(c); msg != "" {
			return v.name + ": " + msg
		}
	}
	return ""
}

func inside(d, v []byte, s, e int) bool {
	if len(v) == 0 {
		return true
	}
	return uintptr(unsafe.Pointer(unsafe.SliceData(v)))-uintptr(unsafe.Pointer(unsafe.SliceData(d))) == uintptr(s) && len(v) == e-s
}

func tryFrame(e *env, c *Case) string {
	orig := bytes.Clone(c.Data)
	m0, l0 := slices.Clone(c.Middle), slices.Clone(c.Leading)
	// room after the data, which nobody may write to
	buf := append(bytes.Clone(c.Data), "guard!!!"...)
	d := buf[:len(c.Data)]
	its := map[string]iter[[]byte]{"joiners": joinedFrom(c, d), "ANSI": graphemesAnsi(d, 3), "generic": iterators.New(func(x []byte, eof bool) (int, []byte, error) { return words.SplitFunc(x, eof) }, d)}
	for _, th := range theories {
		its[th] = iterBytes(th, d)
	}
	for n, it := range its {
		if f := it.First(); !inside(d, f, 0, len(f)) {
			return n + ": First is a copy"
		}
		for it.Next() {
			if !inside(d, it.Value(), it.Start(), it.End()) {
				return n + ": Value is not a view of the data"
			}
		}
		it.SetText(d)
		it.Reset()
	}
	for _, th := range theories {
		for p := 0; p < len(d); {
			a, tok, err := splitFuncs[th](d[p:], true)
			if a <= 0 || err != nil {
				break
			}
			if !inside(d, tok, p, p+a) {
				return th + ": SplitFunc returns a copy"
			}
			splitFuncs[th](d[p:p+a/2], false)
			p += a
		}
	}
	words.BleveNumeric(d)
	words.BleveIdeographic(d)
	filter.AlphaNumeric(d)
	if !bytes.Equal(d, orig) || string(buf[len(d):]) != "guard!!!" {
		return "the caller's data is modified"
	}
	if !slices.Equal(m0, c.Middle) || !slices.Equal(l0, c.Leading) {
		return "the caller's joiners are modified"
	}
	// the same calls again, and concurrently, give the same results
	type res struct{ ends [][]int }
	of := func(text []byte) (r res) {
		cc := *c
		cc.Theory = ""
		cc.Data = text
		for _, v := range allVariants(&cc) {
			x, _ := v.ends(&cc)
			r.ends = append(r.ends, x)
		}
		return
	}
	all := func() res { return of(c.Data) }
	// texts of the same length, before and after
	var other [][]byte
	if rs := []rune(string(d)); len(d) > 1 && len(d) < 4000 {
		slices.Reverse(rs)
		other = append(other, []byte(string(rs)))
		if a, z := min(4, len(d)/3), min(6, len(d)/3); len(d) > 12 {
			o := bytes.Clone(d)
			for i := a; i < len(o)-z; i++ {
				o[i] = " !"[i&1]
			}
			other = append(other, o)
		}
	}
	var before []res
	for _, o := range other {
		before = append(before, of(o))
	}
	first := all()
	// scanners used in turn
	if len(other) > 0 {
		for _, th := range theories {
			texts := [][]byte{d, other[0]}
			var alone, turn [2][]string
			for i, t := range texts {
				for sc := scannerOf(th, bytes.NewReader(t)); sc.Scan(); {
					alone[i] = append(alone[i], sc.Text())
				}
			}
			a, b := scannerOf(th, bytes.NewReader(texts[0])), scannerOf(th, bytes.NewReader(texts[1]))
			for x, y := true, true; x || y; {
				if x = x && a.Scan(); x {
					turn[0] = append(turn[0], a.Text())
				}
				if y = y && b.Scan(); y {
					turn[1] = append(turn[1], b.Text())
				}
			}
			for i := range texts {
				if !slices.Equal(alone[i], turn[i]) {
					return th + ": two scanners used in turn influence each other"
				}
			}
		}
	}
	for i, o := range other {
		for k, x := range of(o).ends {
			if !slices.Equal(before[i].ends[k], x) {
				return fmt.Sprintf("the tokens of %q depend on what was tokenized before", o)
			}
		}
	}
	var wg sync.WaitGroup
	var out [3]res
	for i := range out {
		wg.Add(1)
		go func() { defer wg.Done(); out[i] = all() }()
	}
	wg.Wait()
	for i := range out {
		for k := range first.ends {
			if !slices.Equal(first.ends[k], out[i].ends[k]) {
				return "independent iterators influence each other"
			}
		}
	}
	return ""
}

func init() {
	for _, p := range []struct {
		id, th string
	}{{"C03", "graphemes"}, {"C04", "words"}, {"C05", "sentences"}, {"C06", "phrases"}} {
		props[p.id] = &propDef{theories: []string{p.th}, valid: true, try: ruleProp(p.th), special: both(longRuns, everyCodePoint)}
	}
	props["C01"] = &propDef{theories: theories, joiners: true, ansi: true, try: tryLossless, special: both(longRuns)}
	props["C02"] = &propDef{theories: theories, joiners: true, ansi: true, valid: true, try: tryRunes, special: both(longRuns)}
	props["C07"] = &propDef{theories: theories, joiners: true, try: tryStream, special: both(longTokens, longRuns)}
	props["C08"] = &propDef{theories: theories, try: tryFast, special: both(longRuns)}
	props["C09"] = &propDef{theories: theories, joiners: true, ansi: true, try: tryTypes, special: both(longRuns)}
	props["C10"] = &propDef{theories: []string{"graphemes"}, ansi: true, try: tryAnsi(1)}
	props["C11"] = &propDef{theories: []string{"graphemes"}, ansi: true, try: tryAnsi(2)}
	props["C12"] = &propDef{theories: []string{"words"}, joiners: true, try: tryJoiners, special: both(longRuns)}
	props["C13"] = &propDef{theories: theories, joiners: true, ansi: true, try: tryState}
	props["C14"] = &propDef{theories: theories, try: tryLookup, special: both(everyEncoding)}
	props["C15"] = &propDef{theories: theories, try: tryFilter, special: both(longRuns)}
	props["C16"] = &propDef{theories: []string{"words"}, try: tryBleve, special: both(longRuns)}
	props["C17"] = &propDef{theories: theories, try: tryGeneric}
	props["C18"] = &propDef{theories: []string{"words", "phrases"}, valid: true, try: tryNest, special: both(longRuns)}
	props["C19"] = &propDef{theories: theories, joiners: true, ansi: true, try: tryFrame, special: ignoredRuns}
	props["C20"] = &propDef{theories: theories, try: tryCustom}
}
