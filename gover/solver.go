package main

import (
	"bytes"
	"context"
	"crypto/sha256"
	"fmt"
	"os"
	"os/exec"
	"strings"
	"sync"
	"time"

	"verif/gover/spec"
)

// Solver pool: every query is a complete SMT-LIB script given to a fresh
// solver process. Answers are cached in memory for this run only, keyed by
// the script text.

type backend struct {
	name string
	cmd  []string
}

var (
	beZ3new = backend{"z3-5.3.2", []string{"z3-new", "-in"}}
	beZ3old = backend{"z3-4.8.12", []string{"z3", "-in"}}
	beCvc5  = backend{"cvc5-1.1.2", []string{"cvc5", "--lang=smt2", "--produce-models"}}
)

type solverStats struct {
	Queries  int
	CacheHit int
	Time     time.Duration
	ByBack   map[string]int
	Slowest  time.Duration
}

type Solver struct {
	mu      sync.Mutex
	cache   map[[32]byte]solved
	sem     chan struct{}
	Stats   solverStats
	Timeout time.Duration
	// CrossCheck: discharge queries must also be unsat for a second solver.
	CrossCheck    bool
	CrossAgree    int
	CrossUnknown  int
	CrossDisagree []string
	Deadline      time.Time
}

type solved struct {
	res  string // sat, unsat, unknown
	vals []string
	by   string
}

func NewSolver(par int) *Solver {
	return &Solver{cache: map[[32]byte]solved{}, sem: make(chan struct{}, par), Timeout: 30 * time.Second,
		Stats: solverStats{ByBack: map[string]int{}}}
}

func runBackend(be backend, script string, to time.Duration) (string, string) {
	ctx, cancel := context.WithTimeout(context.Background(), to+2*time.Second)
	defer cancel()
	args := append([]string{}, be.cmd[1:]...)
	if strings.HasPrefix(be.name, "z3") {
		args = append(args, fmt.Sprintf("-T:%d", int(to.Seconds())+1))
	} else {
		args = append(args, fmt.Sprintf("--tlimit=%d", to.Milliseconds()))
	}
	c := exec.CommandContext(ctx, be.cmd[0], args...)
	c.Stdin = strings.NewReader(script)
	var out, errb bytes.Buffer
	c.Stdout = &out
	c.Stderr = &errb
	c.Run()
	s := out.String()
	first := strings.TrimSpace(s)
	rest := ""
	if i := strings.IndexByte(first, '\n'); i >= 0 {
		first, rest = strings.TrimSpace(first[:i]), first[i+1:]
	}
	switch first {
	case "sat", "unsat":
		return first, rest
	}
	if strings.Contains(s, "error") || strings.Contains(errb.String(), "rror") {
		if os.Getenv("GOVER_DEBUG") != "" {
			os.WriteFile("/tmp/gover_err.smt2", []byte(script), 0o644)
			fmt.Fprintln(os.Stderr, "solver error:", be.name, s, errb.String())
		}
		return "error", s + errb.String()
	}
	return "unknown", rest
}

// Query checks satisfiability of the conjunction of asserts. gets are
// evaluated in the model when sat.
func (s *Solver) Query(b *TB, asserts []*Term, gets []*Term, to time.Duration) solved {
	for _, a := range asserts {
		if a == b.False {
			return solved{res: "unsat", by: "simplifier"}
		}
	}
	if to == 0 {
		to = s.Timeout
	}
	body, gn := b.Script(asserts, gets)
	var sb strings.Builder
	if len(gets) > 0 {
		sb.WriteString("(set-option :produce-models true)\n")
	}
	sb.WriteString("(set-logic ALL)\n")
	sb.WriteString(body)
	sb.WriteString("(check-sat)\n")
	if len(gets) > 0 {
		sb.WriteString("(get-value (")
		for _, g := range gn {
			sb.WriteString(g)
			sb.WriteByte(' ')
		}
		sb.WriteString("))\n")
	}
	script := sb.String()
	key := sha256.Sum256([]byte(script))
	s.mu.Lock()
	if r, ok := s.cache[key]; ok {
		s.Stats.CacheHit++
		s.mu.Unlock()
		return r
	}
	s.mu.Unlock()
	s.sem <- struct{}{}
	if !s.Deadline.IsZero() && time.Now().After(s.Deadline) {
		<-s.sem
		return solved{res: "unknown", by: "budget"}
	}
	t0 := time.Now()
	var r solved
	backs := []backend{beZ3new, beZ3old}
	if len(gets) == 0 {
		backs = []backend{beZ3new, beZ3old, beCvc5}
	}
	for _, be := range backs {
		res, rest := runBackend(be, script, to)
		if res == "sat" || res == "unsat" {
			r = solved{res: res, by: be.name}
			if res == "sat" && len(gets) > 0 {
				r.vals = parseValues(rest, len(gets))
			}
			break
		}
		r = solved{res: "unknown", by: be.name}
	}
	dt := time.Since(t0)
	if d := os.Getenv("GOVER_SLOW"); d != "" && dt > 5*time.Second {
		os.WriteFile(fmt.Sprintf("%s/slow_%x.smt2", d, key[:4]), []byte(script), 0o644)
	}
	if s.CrossCheck && r.res == "unsat" && len(gets) == 0 {
		res, _ := runBackend(beCvc5, script, 4*to)
		s.mu.Lock()
		switch res {
		case "unsat":
			s.CrossAgree++
		case "sat":
			s.CrossDisagree = append(s.CrossDisagree, fmt.Sprintf("%x", key[:6]))
			r.res = "unknown"
		default:
			s.CrossUnknown++
		}
		s.mu.Unlock()
	}
	<-s.sem
	s.mu.Lock()
	s.cache[key] = r
	s.Stats.Queries++
	s.Stats.Time += dt
	if dt > s.Stats.Slowest {
		s.Stats.Slowest = dt
	}
	s.Stats.ByBack[r.by]++
	s.mu.Unlock()
	return r
}

// parseValues reads ((expr val) (expr val) ...) positionally.
func parseValues(s string, n int) []string {
	toks := spec.ParseSx(s)
	if len(toks) == 0 {
		return nil
	}
	var out []string
	for _, p := range toks[0].L {
		if len(p.L) == 2 {
			out = append(out, p.L[1].String())
		}
	}
	if len(out) != n {
		return nil
	}
	return out
}
