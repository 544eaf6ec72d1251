package logic

import (
	"fmt"
	"math/rand"
	"testing"

	"github.com/eaburns/toaq/ast"
)

// A functional reading of simplification: it makes new trees from an
// interpretation and never changes one.

type govSimp struct {
	preds map[*Binding]bool // variables used as predicates
	subst int
}

type govEnv map[*Binding]Argument

func (e govEnv) with(b *Binding, a Argument) govEnv {
	n := govEnv{b: a}
	for k, v := range e {
		n[k] = v
	}
	return n
}

// govUses reports whether n mentions the variable of b.
func govUses(n Node, b *Binding) bool {
	for _, m := range preorder(n) {
		if v, ok := m.(*Variable); ok && v.Def == b {
			return true
		}
	}
	return false
}

// about gives every predication of a restriction of b that has no arguments
// and does not mention b the argument b.
func about(s Statement, b *Binding) Statement {
	switch s := s.(type) {
	case *Connection:
		c := *s
		c.Left, c.Right = about(s.Left, b), about(s.Right, b)
		return &c
	case *Predication:
		if len(s.Arguments) == 0 && !govUses(s, b) {
			p := *s
			p.Arguments = []Argument{&Variable{N: b.N, Def: b}}
			return &p
		}
	}
	return s
}

func (o *govSimp) stmt(s Statement, e govEnv) Statement {
	switch s := s.(type) {
	case *Binding:
		b := *s
		if s.Restriction != nil {
			b.Restriction = o.stmt(about(s.Restriction, s), e)
		}
		if a := o.definition(s, b.Restriction); a != nil {
			o.subst++
			return o.stmt(s.Scope, e.with(s, a))
		}
		b.Scope = o.stmt(s.Scope, e)
		// Variables refer to the new binding.
		return govRebind(&b, s)
	case *Connection:
		c := *s
		c.Left, c.Right = o.stmt(s.Left, e), o.stmt(s.Right, e)
		return &c
	case *Predication:
		args := make([]Argument, len(s.Arguments))
		for i, a := range s.Arguments {
			if a != nil {
				args[i] = o.arg(a, e)
			}
		}
		return o.apply(s, s.Predicate, args, e)
	}
	panic("no such statement")
}

// apply is predicate p of predication s applied to simplified arguments.
func (o *govSimp) apply(s *Predication, p Predicate, args []Argument, e govEnv) Statement {
	switch p := p.(type) {
	case *Swap:
		args = append([]Argument{}, args...)
		for len(args) <= p.Pos {
			args = append(args, nil)
		}
		args[0], args[p.Pos] = args[p.Pos], args[0]
		return o.apply(s, p.Predicate, args, e)
	case *Abstraction:
		var bs []*Binding
		body := p.Statement
		for {
			b, ok := body.(*Binding)
			if !ok || b.Quantifier != Lambda || b.Restriction != nil {
				break
			}
			bs = append(bs, b)
			body = b.Scope
		}
		ok := len(bs) > 0 && len(args) >= len(bs)
		for i, a := range args {
			if (a != nil) != (i < len(bs)) {
				ok = false
			}
		}
		for _, b := range bs {
			if o.preds[b] {
				ok = false
			}
		}
		if ok {
			o.subst++
			for i, b := range bs {
				e = e.with(b, args[i])
			}
			return o.stmt(body, e)
		}
	}
	n := *s
	n.Predicate, n.Arguments = o.pred(p, e), args
	return &n
}

// definition is what a binding with a simplified restriction stands for, or nil.
func (o *govSimp) definition(b *Binding, r Statement) Argument {
	p, ok := r.(*Predication)
	if !ok || b.Quantifier != The && b.Quantifier != All || o.preds[b] || len(p.Arguments) != 2 {
		return nil
	}
	if eq, ok := p.Predicate.(*Pred); !ok || eq.Name != "=" {
		return nil
	}
	for i, a := range p.Arguments {
		v, ok := a.(*Variable)
		if !ok {
			continue
		}
		if v.Def != b {
			return nil
		}
		switch d := p.Arguments[1-i].(type) {
		case *Quote, *Plurality, *Abstraction:
			if govUses(d, b) {
				return nil
			}
			return d
		}
		return nil
	}
	return nil
}

func (o *govSimp) arg(a Argument, e govEnv) Argument {
	switch a := a.(type) {
	case *Variable:
		if a.Def != nil && e[a.Def] != nil {
			return e[a.Def]
		}
	case *Plurality:
		n := *a
		n.Arguments = nil
		for _, x := range a.Arguments {
			if x == nil {
				continue
			}
			x = o.arg(x, e)
			if p, ok := x.(*Plurality); ok {
				n.Arguments = append(n.Arguments, p.Arguments...)
			} else {
				n.Arguments = append(n.Arguments, x)
			}
		}
		return &n
	case *Abstraction:
		n := *a
		n.Statement = o.stmt(a.Statement, e)
		return &n
	}
	return a
}

func (o *govSimp) pred(p Predicate, e govEnv) Predicate {
	switch p := p.(type) {
	case *Abstraction:
		n := *p
		n.Statement = o.stmt(p.Statement, e)
		return &n
	case *Serial:
		n := *p
		n.Left, n.Right = o.pred(p.Left, e), o.pred(p.Right, e)
		return &n
	case *Swap:
		n := *p
		n.Predicate = o.pred(p.Predicate, e)
		return &n
	}
	return p
}

// govRebind is b; variables keep referring to the old binding, which the
// comparison pairs by govOrig.
func govRebind(b, old *Binding) *Binding {
	b.AST = &govOrig{Node: b.AST, b: old}
	return b
}

type govOrig struct {
	ast.Node
	b *Binding
}

// govCopy is a tree of its own with the same content.
func govCopy(n Node, m map[*Binding]*Binding, vs map[*Variable]*Variable) Node {
	args := func(as []Argument) []Argument {
		if as == nil {
			return nil
		}
		r := make([]Argument, len(as))
		for i, a := range as {
			if a != nil {
				r[i] = govCopy(a, m, vs).(Argument)
			}
		}
		return r
	}
	switch n := n.(type) {
	case *Binding:
		c := *n
		m[n] = &c
		if n.Restriction != nil {
			c.Restriction = govCopy(n.Restriction, m, vs).(Statement)
		}
		c.Scope = govCopy(n.Scope, m, vs).(Statement)
		return &c
	case *Connection:
		c := *n
		c.Left, c.Right = govCopy(n.Left, m, vs).(Statement), govCopy(n.Right, m, vs).(Statement)
		return &c
	case *Predication:
		c := *n
		c.Predicate, c.Arguments = govCopy(n.Predicate, m, vs).(Predicate), args(n.Arguments)
		return &c
	case *Variable:
		if c := vs[n]; c != nil && n.Def == nil {
			return c
		}
		c := *n
		if n.Def != nil {
			if m[n.Def] == nil {
				panic("a variable outside of its binding")
			}
			c.Def = m[n.Def]
		}
		vs[n] = &c
		return &c
	case *Plurality:
		c := *n
		c.Arguments = args(n.Arguments)
		return &c
	case *Quote:
		c := *n
		return &c
	case *Abstraction:
		c := *n
		c.Statement = govCopy(n.Statement, m, vs).(Statement)
		return &c
	case *Serial:
		c := *n
		c.Left, c.Right = govCopy(n.Left, m, vs).(Predicate), govCopy(n.Right, m, vs).(Predicate)
		return &c
	case *Swap:
		c := *n
		c.Predicate = govCopy(n.Predicate, m, vs).(Predicate)
		return &c
	case *Pred:
		c := *n
		return &c
	}
	panic(fmt.Sprintf("no such node: %T", n))
}

// govAlpha compares a simplified tree with the expected one.
type govAlpha struct {
	b    map[*Binding]*Binding // expected (original) to actual, innermost
	free map[int]*Variable     // unbound variables by original number
	asts bool                  // whether to compare AST fields
}

func (c *govAlpha) same(want, got Node) string {
	if fmt.Sprintf("%T", want) != fmt.Sprintf("%T", got) {
		return fmt.Sprintf("a %T, not a %T", got, want)
	}
	args := func(w, g []Argument) string {
		if len(w) != len(g) {
			return fmt.Sprintf("%d arguments, not %d", len(g), len(w))
		}
		for i := range w {
			if (w[i] == nil) != (g[i] == nil) {
				return fmt.Sprintf("argument %d", i)
			}
			if w[i] != nil {
				if msg := c.same(w[i], g[i]); msg != "" {
					return msg
				}
			}
		}
		return ""
	}
	two := func(a, b string) string {
		if a != "" {
			return a
		}
		return b
	}
	wast := want.ASTNode()
	if o, ok := wast.(*govOrig); ok {
		wast = o.Node
	}
	if c.asts && wast != got.ASTNode() {
		return fmt.Sprintf("the AST of a %T", got)
	}
	switch w := want.(type) {
	case *Binding:
		g := got.(*Binding)
		if w.Quantifier != g.Quantifier || w.Focus != g.Focus || (w.Restriction == nil) != (g.Restriction == nil) {
			return "a binding"
		}
		orig := w.AST.(*govOrig).b
		old := c.b[orig]
		defer func() { c.b[orig] = old }()
		c.b[orig] = g
		if w.Restriction != nil {
			if msg := c.same(w.Restriction, g.Restriction); msg != "" {
				return msg
			}
		}
		return c.same(w.Scope, g.Scope)
	case *Connection:
		g := got.(*Connection)
		if w.Connector != g.Connector {
			return "a connector"
		}
		return two(c.same(w.Left, g.Left), c.same(w.Right, g.Right))
	case *Predication:
		g := got.(*Predication)
		return two(c.same(w.Predicate, g.Predicate), args(w.Arguments, g.Arguments))
	case *Variable:
		g := got.(*Variable)
		if w.Focus != g.Focus {
			return "the focus of a variable"
		}
		if w.Def == nil {
			if g.Def != nil {
				return "an unbound variable is bound"
			}
			if v := c.free[w.N]; v != nil && v.N != g.N {
				return "an unbound variable with two numbers"
			}
			c.free[w.N] = g
			return ""
		}
		if c.b[w.Def] == nil || c.b[w.Def] != g.Def {
			return "a variable refers to another binding"
		}
		return ""
	case *Plurality:
		return args(w.Arguments, got.(*Plurality).Arguments)
	case *Quote:
		g := got.(*Quote)
		if w.Text != g.Text || w.FullText != g.FullText {
			return "a quote"
		}
	case *Abstraction:
		return c.same(w.Statement, got.(*Abstraction).Statement)
	case *Serial:
		g := got.(*Serial)
		return two(c.same(w.Left, g.Left), c.same(w.Right, g.Right))
	case *Swap:
		g := got.(*Swap)
		if w.Pos != g.Pos {
			return "a swap"
		}
		return c.same(w.Predicate, g.Predicate)
	case *Pred:
		if w.Name != got.(*Pred).Name {
			return "a predicate"
		}
	}
	return ""
}

// govNumbers checks that bindings and unbound variables are numbered in the
// order they are met and bound variables have the number of their binding.
func govNumbers(n Node) string {
	next := 0
	seen := map[Node]bool{}
	for _, m := range preorder(n) {
		if seen[m] {
			continue
		}
		seen[m] = true
		switch m := m.(type) {
		case *Binding:
			if m.N != next {
				return fmt.Sprintf("binding %d has number %d", next, m.N)
			}
			next++
		case *Variable:
			if m.Def != nil {
				if m.N != m.Def.N {
					return fmt.Sprintf("a variable of binding %d has number %d", m.Def.N, m.N)
				}
				continue
			}
			if m.N != next {
				return fmt.Sprintf("unbound variable %d has number %d", next, m.N)
			}
			next++
		}
	}
	return ""
}

// govSimplified compares simplify(raw) with the functional reading.
func govSimplified(raw Statement, got func() Statement, asts bool, subst *int) string {
	shown := String(raw)
	var src Statement
	if msg := govTry(func() { src = govCopy(raw, map[*Binding]*Binding{}, map[*Variable]*Variable{}).(Statement) }); msg != "" {
		return "" // not a well-formed interpretation: another property
	}
	o := &govSimp{preds: map[*Binding]bool{}}
	for _, m := range preorder(src) {
		ps := []Predicate{}
		switch m := m.(type) {
		case *Predication:
			ps = append(ps, m.Predicate)
		case *Serial:
			ps = append(ps, m.Left, m.Right)
		case *Swap:
			ps = append(ps, m.Predicate)
		}
		for _, p := range ps {
			if v, ok := p.(*Variable); ok && v.Def != nil {
				o.preds[v.Def] = true
			}
		}
	}
	want := o.stmt(src, nil)
	*subst += o.subst
	var st Statement
	if msg := govTry(func() { st = got() }); msg != "" {
		return fmt.Sprintf("simplifying %s: %s", shown, msg)
	}
	if msg := (&govAlpha{map[*Binding]*Binding{}, map[int]*Variable{}, asts}).same(want, st); msg != "" {
		return fmt.Sprintf("simplifying %s gives %s, not %s: %s", shown, String(st), String(want), msg)
	}
	if msg := govNumbers(st); msg != "" {
		return fmt.Sprintf("simplifying %s gives %s: %s", shown, String(st), msg)
	}
	return ""
}

// govW makes well-scoped trees with much to simplify.
type govW struct {
	r  *rand.Rand
	bs []*Binding // in scope
	n  int
}

func (g *govW) bind(q Quantifier) *Binding {
	b := &Binding{Quantifier: q, N: g.n, Focus: g.r.Intn(6) == 0, AST: &ast.Word{T: "b"}}
	g.n += 1 + g.r.Intn(2)
	return b
}

func (g *govW) scope(b *Binding, f func()) {
	g.bs = append(g.bs, b)
	f()
	g.bs = g.bs[:len(g.bs)-1]
}

func (g *govW) statement(d int) Statement {
	if d <= 0 {
		return g.predication(d)
	}
	switch g.r.Intn(6) {
	case 0, 1, 2:
		b := g.bind([]Quantifier{The, The, All, Each, Some, None, Hi, Lambda}[g.r.Intn(8)])
		switch g.r.Intn(6) {
		case 0:
		case 1, 2:
			// an equation
			l, r := Argument(&Variable{N: b.N, Def: b}), g.argument(d-1)
			if g.r.Intn(4) == 0 {
				l = g.argument(0)
			}
			if g.r.Intn(2) == 0 {
				l, r = r, l
			}
			b.Restriction = &Predication{Predicate: &Pred{Name: []string{"=", "=", "=", "=", "≺"}[g.r.Intn(5)]}, Arguments: []Argument{l, r}}
			if g.r.Intn(12) == 0 {
				b.Restriction = &Connection{Connector: And, Left: b.Restriction, Right: g.restriction(b, 0)}
			}
		case 3:
			// a predicate of one equation
			x := g.bind(Lambda)
			x.Scope = &Predication{Predicate: &Pred{Name: "="}, Arguments: []Argument{&Variable{N: x.N, Def: x}, g.argument(d - 1)}}
			b.Restriction = &Predication{Predicate: &Abstraction{Statement: x}}
		default:
			b.Restriction = g.restriction(b, d-1)
		}
		g.scope(b, func() { b.Scope = g.statement(d - 1) })
		return b
	case 3:
		return &Connection{Connector: []Connector{And, Or, Ri}[g.r.Intn(3)], Left: g.statement(d - 1), Right: g.statement(d - 1), AST: &ast.Word{T: "c"}}
	}
	return g.predication(d)
}

func (g *govW) restriction(b *Binding, d int) Statement {
	var s Statement
	g.scope(b, func() {
		switch g.r.Intn(5) {
		case 0:
			s = &Connection{Connector: And, Left: &Predication{Predicate: g.predicate(0)}, Right: g.statement(d - 1)}
		case 1:
			s = g.statement(d)
		case 2:
			s = g.predication(d)
		default:
			// an implicit argument
			s = &Predication{Predicate: g.predicate(d)}
		}
	})
	return s
}

func (g *govW) predication(d int) Statement {
	p := &Predication{Predicate: g.predicate(d - 1), AST: &ast.Word{T: "p"}}
	n := g.r.Intn(4)
	if a, ok := p.Predicate.(*Abstraction); ok && g.r.Intn(3) > 0 {
		n = 0
		for b, ok := a.Statement.(*Binding); ok && b.Quantifier == Lambda && b.Restriction == nil; b, ok = b.Scope.(*Binding) {
			n++
		}
	}
	for ; n > 0; n-- {
		p.Arguments = append(p.Arguments, g.argument(d-1))
	}
	if g.r.Intn(8) == 0 && len(p.Arguments) > 0 {
		p.Arguments[g.r.Intn(len(p.Arguments))] = nil
	}
	return p
}

func (g *govW) variable() *Variable {
	v := &Variable{AST: &ast.Word{T: "v"}, Focus: g.r.Intn(6) == 0}
	if len(g.bs) > 0 && g.r.Intn(6) > 0 {
		v.Def = g.bs[g.r.Intn(len(g.bs))]
		if g.r.Intn(2) == 0 {
			v.Def = g.bs[len(g.bs)-1]
		}
		v.N = v.Def.N
	} else {
		v.N = g.n
		g.n++
	}
	return v
}

func (g *govW) argument(d int) Argument {
	k := g.r.Intn(9)
	if d <= 0 && k > 6 {
		k = 0
	}
	switch k {
	case 4:
		return &Quote{Text: "kuq", FullText: g.r.Intn(2) == 0}
	case 5, 7:
		p := &Plurality{AST: &ast.Word{T: "q"}}
		for n := g.r.Intn(4); n > 0; n-- {
			if g.r.Intn(8) == 0 {
				p.Arguments = append(p.Arguments, nil)
			} else {
				p.Arguments = append(p.Arguments, g.argument(d-1))
			}
		}
		return p
	case 8:
		return &Abstraction{Statement: g.statement(d - 1), AST: &ast.Word{T: "s"}}
	}
	return g.variable()
}

func (g *govW) predicate(d int) Predicate {
	k := g.r.Intn(10)
	if d <= 0 && k > 4 {
		k = 0
	}
	switch k {
	case 4:
		return g.variable()
	case 5:
		return &Serial{Left: g.predicate(d - g.r.Intn(2)), Right: g.predicate(d - g.r.Intn(2))}
	case 6:
		return &Swap{Predicate: g.predicate(d - g.r.Intn(2)), Pos: 1 + g.r.Intn(3)}
	case 7, 8, 9:
		a := &Abstraction{AST: &ast.Word{T: "l"}}
		var fill func(n int) Statement
		fill = func(n int) Statement {
			if n == 0 {
				return g.statement(d - 1)
			}
			b := g.bind(Lambda)
			g.scope(b, func() { b.Scope = fill(n - 1) })
			return b
		}
		a.Statement = fill(g.r.Intn(4))
		return a
	}
	return &Pred{Name: []string{"mai", "poq", "shi", "=", "≺"}[g.r.Intn(5)], AST: &ast.Word{T: "m"}}
}

var govSubst [2]int

func govSimplifyOnce(r *rand.Rand, size int) string {
	if r.Intn(4) > 0 {
		st := (&govW{r: r}).statement(size)
		return govSimplified(st, func() Statement { return simplify(st) }, true, &govSubst[0])
	}
	for {
		src := ""
		if r.Intn(2) == 0 {
			src = govQuantSrc(r, size)
		} else {
			src = ast.NewGovGen(ast.GovChoices(r, 40+60*size)).GovTextSource(size)
		}
		text, err := ast.NewParser(src).Text()
		if err != nil {
			continue
		}
		var raw Statement
		if msg := govTry(func() { raw = newInterp().text(text) }); msg != "" || raw == nil {
			continue
		}
		asts := r.Intn(2) == 0
		got := func() Statement { return simplify(raw) }
		if !asts {
			// Another interpretation may have other AST nodes.
			got = func() Statement { return Interpret(text) }
		}
		if msg := govSimplified(raw, got, asts, &govSubst[1]); msg != "" {
			return fmt.Sprintf("%q: %s", src, msg)
		}
		return ""
	}
}

func TestWitnessC14(t *testing.T) { govSearch(t, govSimplifyOnce) }

func TestBoundedSimplify(t *testing.T) {
	govBounded(t, govSimplifyOnce)
	fmt.Printf("STAT substitutions in generated trees %d, in interpretations of texts %d\n", govSubst[0], govSubst[1])
}
