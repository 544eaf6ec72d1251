package main

import (
	"bytes"
	"context"
	"crypto/sha256"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// query is one satisfiability question: facts and the negated goal.
type query struct {
	text string
	name string
}

type result struct {
	status string // unsat, sat, unknown, timeout
	solver string
	secs   float64
	out    string
}

// Solver runs queries on a portfolio of SMT solvers.
type Solver struct {
	HoudiniTimeout time.Duration
	Timeout        time.Duration
	dir            string
	sem            chan struct{}
	mu             sync.Mutex
	cache          map[string]result
	Calls          map[string]int
	Secs           map[string]float64
	seed           int
	nfile          int64
}

func NewSolver(dir string, seed int) *Solver {
	return &Solver{
		HoudiniTimeout: 3 * time.Second,
		Timeout:        20 * time.Second,
		dir:            dir,
		sem:            make(chan struct{}, runtime.NumCPU()),
		cache:          map[string]result{},
		Calls:          map[string]int{},
		Secs:           map[string]float64{},
		seed:           seed,
	}
}

// RunAll solves queries concurrently.
func (s *Solver) RunAll(qs []*query, to time.Duration) []result {
	return s.RunEach(qs, func(int) time.Duration { return to })
}

// RunEach solves queries concurrently, each with its own limit.
func (s *Solver) RunEach(qs []*query, to func(i int) time.Duration) []result {
	out := make([]result, len(qs))
	var wg sync.WaitGroup
	for i, q := range qs {
		wg.Add(1)
		go func(i int, q *query) {
			defer wg.Done()
			out[i] = s.Run(q, to(i))
		}(i, q)
	}
	wg.Wait()
	return out
}

func (s *Solver) Run(q *query, to time.Duration) result {
	key := fmt.Sprintf("%x/%d", sha256.Sum256([]byte(q.text)), to/time.Second)
	s.mu.Lock()
	if r, ok := s.cache[key]; ok {
		s.mu.Unlock()
		return r
	}
	s.mu.Unlock()
	r := s.run(q, to)
	s.mu.Lock()
	s.cache[key] = r
	s.mu.Unlock()
	return r
}

type solverCmd struct {
	name string
	args func(file string) []string
}

var portfolio = []solverCmd{
	{"z3-new", func(f string) []string { return []string{"z3-new", f} }},
	{"z3", func(f string) []string { return []string{"z3", f} }},
	{"cvc5", func(f string) []string {
		return []string{"cvc5", "--lang=smt2", "--strings-exp", f}
	}},
}

func (s *Solver) run(q *query, to time.Duration) result {
	file := filepath.Join(s.dir, fmt.Sprintf("q%d.smt2", atomic.AddInt64(&s.nfile, 1)))
	os.WriteFile(file, []byte(q.text), 0o644)
	if os.Getenv("GOV_KEEP") == "" {
		defer os.Remove(file)
	}
	// A first quick try with one solver, then the whole portfolio.
	r := s.one(portfolio[0], file, 1)
	if r.status == "unsat" || r.status == "sat" {
		return r
	}
	if to <= time.Second {
		return r
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	ch := make(chan result, len(portfolio))
	for _, p := range portfolio {
		p := p
		go func() { ch <- s.oneCtx(ctx, p, file, int(to/time.Second)) }()
	}
	best := result{status: "unknown"}
	for range portfolio {
		r := <-ch
		if r.status == "unsat" {
			return r
		}
		if r.status == "sat" && best.status != "sat" {
			best = r
			// A model from one solver settles it.
			return best
		}
		if best.out == "" {
			best.out = r.out
		}
	}
	return best
}

func (s *Solver) one(p solverCmd, file string, secs int) result {
	return s.oneCtx(context.Background(), p, file, secs)
}

// oneCtx runs a solver for so many seconds of processor time: what a query gets
// does not depend on what else is running.
func (s *Solver) oneCtx(ctx context.Context, p solverCmd, file string, secs int) result {
	select {
	case s.sem <- struct{}{}:
	case <-ctx.Done():
		return result{status: "unknown"}
	}
	defer func() { <-s.sem }()
	cctx, cancel := context.WithTimeout(ctx, time.Duration(4*secs+2)*time.Second)
	defer cancel()
	args := append([]string{"-c", `ulimit -t "$0"; exec "$@"`, fmt.Sprint(secs)}, p.args(file)...)
	cmd := exec.CommandContext(cctx, "/bin/sh", args...)
	var ob bytes.Buffer
	cmd.Stdout = &ob
	cmd.Stderr = &ob
	t0 := time.Now()
	cmd.Run()
	dt := time.Since(t0).Seconds()
	o := ob.String()
	r := result{solver: p.name, secs: dt, out: trunc(o, 2000), status: "unknown"}
	first := strings.TrimSpace(o)
	if i := strings.IndexByte(first, '\n'); i >= 0 {
		first = first[:i]
	}
	switch first {
	case "unsat", "sat":
		r.status = first
	}
	if strings.Contains(o, "error") && r.status != "unsat" && r.status != "sat" && os.Getenv("GOV_DEBUG") != "" {
		fmt.Fprintf(os.Stderr, "%s on %s: %s\n", p.name, file, trunc(o, 300))
	}
	s.mu.Lock()
	s.Calls[p.name]++
	s.Secs[p.name] += dt
	s.mu.Unlock()
	return r
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// ---- query construction ----

// mkQuery builds the SMT-LIB text for facts /\ not goal, adding the axioms
// that the terms involved need.
func (ex *Exec) mkQuery(facts []*Term, lits map[*Term]bool, tags map[*Term]int64, goal *Term) *query {
	ab := &axBuilder{ex: ex, c: ex.c, seen: map[*Term]bool{}, depth: map[*Term]int{}, done: map[string]bool{}, lits: lits, tags: tags}
	ab.init()
	for _, f := range facts {
		ab.define(f)
	}
	for _, f := range facts {
		ab.add(f, 0)
	}
	ab.add(ab.skolem(ex.c.Not(goal)), 0)
	ab.saturate()
	return &query{text: ab.print()}
}

func (ab *axBuilder) print() string {
	c := ab.c
	var b strings.Builder
	b.WriteString("(set-logic ALL)\n")
	// Collect used symbols.
	funs := map[string]bool{}
	sorts := map[Sort]bool{}
	uses := map[*Term]int{}
	var order []*Term
	var walk func(t *Term)
	var noteSort func(s Sort)
	noteSort = func(s Sort) {
		if sorts[s] {
			return
		}
		sorts[s] = true
		if s.IsSeq() {
			noteSort(s.Elem())
		}
		if d := c.bySort[s]; d != nil {
			for _, f := range d.fields {
				noteSort(f)
			}
		}
		if strings.HasPrefix(string(s), "(Array ") {
			v := c.arrayVal(&Term{sort: s})
			noteSort(v)
			noteSort(Sort(string(s)[7 : len(s)-len(v)-2]))
		}
	}
	walk = func(t *Term) {
		uses[t]++
		if uses[t] > 1 {
			return
		}
		noteSort(t.sort)
		if t.kind == kApp {
			if _, ok := c.funs[t.op]; ok {
				funs[t.op] = true
			}
		}
		for _, a := range t.args {
			walk(a)
		}
		order = append(order, t)
	}
	for _, a := range ab.asserts {
		walk(a)
	}
	b.WriteString("(declare-sort Ref 0)\n(declare-sort Fn 0)\n")
	b.WriteString("(declare-datatypes ((Iface 0)) (((inil) (iptr (itag0 Int) (iref0 Ref)))))\n")
	b.WriteString("(define-fun itag ((x Iface)) Int (ite (= x inil) (- 1) (itag0 x)))\n")
	b.WriteString("(declare-fun null () Ref)\n(define-fun iref ((x Iface)) Ref (ite (= x inil) null (iref0 x)))\n")
	funs["null"] = false
	// Datatypes in order of dependency.
	emitted := map[Sort]bool{}
	var emit func(s Sort)
	emit = func(s Sort) {
		if s.IsSeq() {
			emit(s.Elem())
			return
		}
		d := c.bySort[s]
		if d == nil || emitted[s] {
			return
		}
		emitted[s] = true
		for _, f := range d.fields {
			emit(f)
		}
		fmt.Fprintf(&b, "(declare-datatypes ((%s 0)) (((mk_%s", s, s)
		for i, f := range d.fields {
			fmt.Fprintf(&b, " (%s_%d %s)", s, i, f)
		}
		b.WriteString("))))\n")
	}
	var ss []string
	for s := range sorts {
		ss = append(ss, string(s))
	}
	sort.Strings(ss)
	for _, s := range ss {
		emit(Sort(s))
	}
	var fs []string
	for f, ok := range funs {
		if ok {
			fs = append(fs, f)
		}
	}
	sort.Strings(fs)
	for _, f := range fs {
		d := c.funs[f]
		fmt.Fprintf(&b, "(declare-fun %s (", f)
		for i, a := range d.args {
			if i > 0 {
				b.WriteByte(' ')
			}
			b.WriteString(string(a))
		}
		fmt.Fprintf(&b, ") %s)\n", d.ret)
	}
	// Name shared subterms.
	names := map[*Term]string{}
	for _, t := range order {
		if uses[t] > 1 && len(t.args) > 0 && !t.hasB && t.kind == kApp {
			n := fmt.Sprintf("t!%d", len(names))
			fmt.Fprintf(&b, "(define-fun %s () %s ", n, t.sort)
			t.writeBody(&b, names)
			b.WriteString(")\n")
			names[t] = n
		}
	}
	for _, a := range ab.asserts {
		b.WriteString("(assert ")
		a.write(&b, names)
		b.WriteString(")\n")
	}
	b.WriteString("(check-sat)\n")
	return b.String()
}
