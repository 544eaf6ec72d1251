package logic

import (
	"fmt"
	"math/rand"
	"reflect"
	"strings"
	"testing"

	"github.com/eaburns/toaq/ast"
)

// govScope checks which binding each variable of an interpretation refers to.
type govScope struct {
	msg   string
	up    []*Binding
	seen  map[Node]bool
	owner map[int]*Binding
	at    map[ast.Node]int
	// hoaOf is the node whose binding hoa refers to within a node.
	hoaOf map[ast.Node]ast.Node
}

// order numbers the nodes of a text in the order of their interpretation:
// predicates come after the terms of their phrase. hoa is what hoa refers to.
func (g *govScope) order(n, hoa ast.Node) {
	if n == nil || reflect.ValueOf(n).Kind() == reflect.Ptr && reflect.ValueOf(n).IsNil() {
		return
	}
	if _, ok := n.(ast.Terms); !ok {
		g.at[n] = len(g.at) + 1
		g.hoaOf[n] = hoa
	}
	switch n := n.(type) {
	case *ast.Predication:
		g.order(n.Terms, hoa)
		g.order(n.Predicate, hoa)
		return
	case *ast.PredicationPreposition:
		g.order(n.Argument, hoa)
		g.order(n.Predicate, hoa)
		return
	case *ast.PredicateArgument:
		g.order(n.Predicate, hoa)
		g.order(n.Relative, n)
		return
	case *ast.LUPredicate:
		if isWord(n.LU.T, "lu") {
			hoa = n
		}
	}
	ast.Visit(n, &govOrder{g: g, hoa: hoa})
}

type govOrder struct {
	g   *govScope
	hoa ast.Node
	in  bool
}

func (o *govOrder) Visit(n ast.Node) ast.Visitor {
	if !o.in {
		return &govOrder{o.g, o.hoa, true}
	}
	if n != nil {
		o.g.order(n, o.hoa)
	}
	return nil
}

func (g *govScope) start(n ast.Node) int {
	return g.at[n]
}

func (g *govScope) fail(f string, as ...interface{}) {
	if g.msg == "" {
		g.msg = fmt.Sprintf(f, as...)
	}
}

// govVarOf is the variable an argument or predicate names, if any.
func govVarOf(n ast.Node) (name string, quantified, ok bool) {
	switch n := n.(type) {
	case *ast.PredicateArgument:
		if w, isW := n.Predicate.(*ast.WordPredicate); isW && isVar(w.T) {
			return varOf(w), n.Quantifier != nil, true
		}
	case *ast.WordPredicate:
		if isVar(n.T) {
			return varOf(n), false, true
		}
	}
	return "", false, false
}

func (g *govScope) variable(v *Variable) {
	if v.Def != nil {
		in := false
		for _, b := range g.up {
			in = in || b == v.Def
		}
		if !in {
			g.fail("variable %d is used outside of its binding", v.N)
		}
		if v.N != v.Def.N {
			g.fail("variable %d refers to the binding of %d", v.N, v.Def.N)
		}
	} else {
		if b := g.owner[v.N]; b != nil {
			g.fail("unbound variable %d has the number of a binding", v.N)
		}
	}
	if govHoaNode(v.AST) && (v.Def == nil || v.Def.AST != v.AST) {
		g.hoa(v)
	}
	name, quant, ok := govVarOf(v.AST)
	if !ok {
		return
	}
	if quant {
		if v.Def == nil || v.Def.AST != v.AST {
			g.fail("quantified variable %s does not refer to its own binding", name)
		}
		return
	}
	if v.Def != nil && v.Def.AST == v.AST {
		// Some of a variable with a relative clause.
		return
	}
	var want *Binding
	for _, b := range g.up {
		if n, q, ok := govVarOf(b.AST); ok && q && n == name && g.start(b.AST) < g.start(v.AST) {
			want = b
		}
	}
	switch {
	case want == nil && v.Def != nil:
		g.fail("%s refers to a binding of another scope", name)
	case want != nil && v.Def == nil:
		if g.passed(name, g.start(want.AST), v) {
			return
		}
		g.fail("%s is unbound in the scope of a binding of %s", name, name)
	case want != v.Def:
		g.fail("%s does not refer to the innermost binding of %s", name, name)
	}
}

// passed: v is in a hi-phrase that may have been lifted out of a nearer
// binding of its name, which leaves v unbound.
func (g *govScope) passed(name string, start int, v *Variable) bool {
	hi := false
	for _, b := range g.up {
		_, _, isVar := govVarOf(b.AST)
		hi = hi || b.Quantifier == Hi && !isVar
	}
	if !hi {
		return false
	}
	for n, at := range g.at {
		if s, q, ok := govVarOf(n); ok && q && s == name && start < at && at < g.start(v.AST) {
			return true
		}
	}
	return false
}

func govHoaNode(n ast.Node) bool {
	switch n := n.(type) {
	case *ast.PredicateArgument:
		return isHoa(n.Predicate)
	case *ast.WordPredicate:
		return isHoa(n)
	}
	return false
}

// hoa: v refers to the innermost phrase that hoa stands for.
func (g *govScope) hoa(v *Variable) {
	want, known := g.hoaOf[v.AST]
	if !known {
		return
	}
	var b *Binding
	for _, u := range g.up {
		if want != nil && u.AST == want {
			b = u
		}
	}
	if v.Def != b {
		g.fail("hoa does not refer to the phrase it is in")
	}
}

func (g *govScope) walk(n Node) {
	if n == nil || govNilPtr(n) {
		return
	}
	if b, ok := n.(*Binding); ok {
		g.up = append(g.up, b)
		defer func() { g.up = g.up[:len(g.up)-1] }()
		if o := g.owner[b.N]; o != b {
			g.fail("two bindings have the number %d", b.N)
		}
	}
	if v, ok := n.(*Variable); ok {
		g.variable(v)
	}
	for _, k := range kids(n) {
		g.walk(k)
	}
}

func govScopes(text *ast.Text, st Statement) string {
	g := &govScope{owner: map[int]*Binding{}, at: map[ast.Node]int{}, hoaOf: map[ast.Node]ast.Node{}}
	g.order(text, nil)
	for _, n := range preorder(st) {
		if b, ok := n.(*Binding); ok && g.owner[b.N] == nil {
			g.owner[b.N] = b
		}
	}
	g.walk(st)
	return g.msg
}

// govQuantSrc is a sentence of quantified arguments with relative clauses.
func govQuantSrc(r *rand.Rand, size int) string {
	pick := func(ws ...string) string { return ws[r.Intn(len(ws))] }
	left := 2 + 2*size
	var args func(max int) string
	pred := func() string { return pick("mai", "nuo", "ji", "do", "hoa", "poq") }
	arg := func() string {
		left--
		q := pick("", "", "hi ", "hi ", "sa ", "tu ", "ke ", "sia ")
		switch w := r.Intn(8); {
		case w < 2:
			s := " " + q + pick("do", "da") + "/"
			if left > 0 && r.Intn(4) == 0 {
				s += " " + pred() + "V" + args(2) + " na"
			}
			return s
		case w == 2:
			return " " + pick("", "", "sa ") + "hoa/"
		case w < 6:
			s := " " + q + pick("poq/", "mai/", "ji/", "fa/", "fa/hoa-", "po/ hoa/", "po/ do/", "poq/", "mai/", "ji/")
			if left > 0 && r.Intn(3) > 0 {
				s += " " + pred() + "V" + args(2) + " na"
			}
			return s
		case w == 6:
			return " " + pred() + "^" + args(2) + " na"
		default:
			return " " + pick("", "sa ") + "do/"
		}
	}
	args = func(max int) string {
		s := ""
		for i := r.Intn(max + 1); i > 0 && left > 0; i-- {
			switch r.Intn(8) {
			case 0:
				s += " to ru" + arg() + " to" + arg()
			case 1:
				s += " " + pred() + "\\" + arg()
			default:
				s += arg()
			}
		}
		return s
	}
	src := ""
	for i := 1 + r.Intn(2); i > 0; i-- {
		if r.Intn(3) == 0 {
			src += arg() + args(2) + " bi"
		}
		src += " " + pred() + "?" + args(3)
		if r.Intn(3) == 0 {
			src += " na ru " + pred() + "?" + args(2)
		}
		src += " na ka"
	}
	return strings.TrimSpace(src)
}

func govScopeText(r *rand.Rand, size int) string {
	for {
		if r.Intn(2) == 0 {
			if msg, ok := govScopeSrc(govQuantSrc(r, size)); ok {
				return msg
			}
		}
		src := ast.NewGovGen(ast.GovChoices(r, 40+60*size)).GovTextSource(size)
		// Few names: more variables.
		for _, w := range []string{"gi", "nuo", "chuq", "fa", "ho"} {
			if r.Intn(2) == 0 {
				src = strings.ReplaceAll(src, " "+w+"/", " do/")
			}
			if r.Intn(4) == 0 {
				src = strings.ReplaceAll(src, " "+w+"?", " do?")
			}
		}
		for _, w := range []string{"mai", "ruai", "de"} {
			if r.Intn(3) == 0 {
				src = strings.ReplaceAll(src, " "+w+"/", " hoa/")
			}
			if r.Intn(4) == 0 {
				src = strings.ReplaceAll(src, " "+w+"?", " hoa?")
			}
		}
		if msg, ok := govScopeSrc(src); ok {
			return msg
		}
	}
}

func govScopeSrc(src string) (string, bool) {
	var st Statement
	var text *ast.Text
	if msg := govTry(func() {
		var err error
		text, err = ast.NewParser(src).Text()
		if err == nil {
			st = newInterp().text(text)
		}
	}); msg != "" || st == nil {
		return "", false
	}
	if msg := govScopes(text, st); msg != "" {
		return fmt.Sprintf("interpreting %q as %s: %s", src, String(st), msg), true
	}
	return "", true
}

func TestWitnessC12(t *testing.T) { govSearch(t, govScopeText) }

func TestBoundedScope(t *testing.T) { govBounded(t, govScopeText) }
