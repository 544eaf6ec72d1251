package logic

import (
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"strconv"
	"testing"

	"github.com/eaburns/toaq/ast"
)

// Random logic trees: any nesting, absent parts included.

type govG struct {
	r    *rand.Rand
	bs   []*Binding
	n    int
	asts bool
}

func (g *govG) ast() ast.Node {
	if !g.asts || g.r.Intn(4) == 0 {
		return nil
	}
	return &ast.Word{T: "w" + strconv.Itoa(g.r.Intn(9))}
}

func (g *govG) Statement(d int) Statement {
	if d <= 0 {
		return g.Predication(d)
	}
	switch g.r.Intn(4) {
	case 0, 1:
		b := &Binding{Quantifier: []Quantifier{The, Lambda, Each, Some, None, Hi, All}[g.r.Intn(7)], N: g.n, AST: g.ast()}
		g.n++
		g.bs = append(g.bs, b)
		if g.r.Intn(4) > 0 {
			b.Restriction = g.Statement(d - 1)
		}
		b.Scope = g.Statement(d - 1)
		return b
	case 2:
		return &Connection{Connector: []Connector{And, Or, Ri}[g.r.Intn(3)], Left: g.Statement(d - 1), Right: g.Statement(d - 1), AST: g.ast()}
	default:
		return g.Predication(d)
	}
}

func (g *govG) Predication(d int) *Predication {
	p := &Predication{Predicate: g.Predicate(d - 1), AST: g.ast()}
	for n := g.r.Intn(4); n > 0; n-- {
		p.Arguments = append(p.Arguments, g.optArgument(d-1))
	}
	return p
}

func (g *govG) optArgument(d int) Argument {
	if g.r.Intn(8) == 0 {
		return nil
	}
	return g.Argument(d)
}

func (g *govG) variable() *Variable {
	v := &Variable{N: g.n, AST: g.ast(), Focus: g.r.Intn(5) == 0}
	if len(g.bs) > 0 && g.r.Intn(4) > 0 {
		v.Def = g.bs[g.r.Intn(len(g.bs))]
		v.N = v.Def.N
	} else {
		g.n++
	}
	return v
}

func (g *govG) Argument(d int) Argument {
	k := g.r.Intn(6)
	if d <= 0 && k > 3 {
		k = 0
	}
	switch k {
	default:
		return g.variable()
	case 3:
		return &Quote{Text: "kuq", FullText: g.r.Intn(2) == 0, AST: g.ast()}
	case 4:
		p := &Plurality{AST: g.ast()}
		for n := g.r.Intn(4); n > 0; n-- {
			p.Arguments = append(p.Arguments, g.optArgument(d-1))
		}
		return p
	case 5:
		return &Abstraction{Statement: g.Statement(d - 1), AST: g.ast()}
	}
}

func (g *govG) Predicate(d int) Predicate {
	k := g.r.Intn(8)
	if d <= 0 && k > 4 {
		k = 0
	}
	switch k {
	default:
		return &Pred{Name: []string{"mai", "poq", "shi", "=", "≺", "jibo"}[g.r.Intn(6)], AST: g.ast()}
	case 4:
		return g.variable()
	case 5:
		return &Serial{Left: g.Predicate(d - 1), Right: g.Predicate(d - 1), AST: g.ast()}
	case 6:
		return &Swap{Predicate: g.Predicate(d - 1), Pos: 1 + g.r.Intn(3), AST: g.ast()}
	case 7:
		return &Abstraction{Statement: g.Statement(d - 1), AST: g.ast()}
	}
}

func (g *govG) Node(d int) Node {
	switch g.r.Intn(3) {
	case 0:
		return g.Statement(d)
	case 1:
		return g.Argument(d)
	default:
		return g.Predicate(d)
	}
}

// govBounded runs a test on generated cases: GOV_CASES of them.
func govBounded(t *testing.T, one func(r *rand.Rand, size int) string) {
	cases, _ := strconv.Atoi(os.Getenv("GOV_CASES"))
	if cases == 0 {
		cases = 2000
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	r := rand.New(rand.NewSource(int64(seed) + 11))
	for n := 1; n <= cases; n++ {
		if msg := one(r, 1+n%6); msg != "" {
			fmt.Printf("WITNESS %s\nTRIED %d\n", msg, n)
			t.FailNow()
		}
	}
	fmt.Printf("TRIED %d\n", cases)
}

func TestWitnessC17(t *testing.T) {
	govSearch(t, func(r *rand.Rand, size int) string {
		n := (&govG{r: r}).Node(size)
		var got []Node
		if msg := govTry(func() { n.Visit(func(m Node) { got = append(got, m) }) }); msg != "" {
			return fmt.Sprintf("visiting %s: %s", String(n), msg)
		}
		want := preorder(n)
		if len(got) != len(want) {
			return fmt.Sprintf("visiting %s calls the function %d times, not %d", String(n), len(got), len(want))
		}
		for i := range got {
			if got[i] != want[i] {
				return fmt.Sprintf("visiting %s: call %d is on %T", String(n), i, got[i])
			}
		}
		return ""
	})
}

func TestBoundedNillOut(t *testing.T) {
	govBounded(t, func(r *rand.Rand, size int) string {
		seed := r.Int63()
		mk := func(asts bool) Node {
			// The same tree, with and without AST fields.
			g := &govG{r: rand.New(rand.NewSource(seed)), asts: true}
			n := g.Node(size)
			if !asts {
				for _, m := range preorder(n) {
					reflect.ValueOf(m).Elem().FieldByName("AST").Set(reflect.Zero(reflect.TypeOf((*ast.Node)(nil)).Elem()))
				}
			}
			return n
		}
		a, b := mk(true), mk(false)
		if msg := govTry(func() { NillOutAST(a) }); msg != "" {
			return fmt.Sprintf("NillOutAST of %s: %s", String(b), msg)
		}
		for _, m := range preorder(a) {
			if m.ASTNode() != nil {
				return fmt.Sprintf("NillOutAST of %s leaves the AST field of a %T", String(b), m)
			}
		}
		pa, pb := preorder(a), preorder(b)
		if len(pa) != len(pb) {
			return fmt.Sprintf("NillOutAST changes the shape of %s", String(b))
		}
		for i := range pa {
			if reflect.TypeOf(pa[i]) != reflect.TypeOf(pb[i]) || String(pa[i]) != String(pb[i]) {
				return fmt.Sprintf("NillOutAST changes %s to %s", String(pb[i]), String(pa[i]))
			}
		}
		return ""
	})
}

// govText is a generated text and its interpretation, or nil if it does not
// parse or is not interpreted.
func govInterp(r *rand.Rand, size int) (string, Statement) {
	for {
		src := ast.NewGovGen(ast.GovChoices(r, 40+60*size)).GovTextSource(size)
		var st Statement
		if msg := govTry(func() {
			text, err := ast.NewParser(src).Text()
			if err == nil {
				st = Interpret(text)
			}
		}); msg == "" && st != nil {
			return src, st
		}
	}
}

// govPlace is a placeholder for the name of variable n.
func govPlace(n int) string { return string([]rune{rune(0xE000 + n)}) }

// govNames reads the names of variables off a printed expression.
func govNames(n Node, s string, pretty bool) (map[int]string, string) {
	places := make([]string, 3000)
	for i := range places {
		places[i] = govPlace(i)
	}
	names := map[int]string{}
	tmpl := render(n, places, pretty)
	rest := []rune(s)
	for _, c := range tmpl {
		if len(rest) == 0 {
			return nil, "it ends too early"
		}
		if c < 0xE000 || c >= 0xE000+3000 {
			if rest[0] != c {
				return nil, fmt.Sprintf("%q is not shown at %q", string([]rune{c}), string(rest))
			}
			rest = rest[1:]
			continue
		}
		i := 1
		for i < len(rest) && rest[i] >= '0' && rest[i] <= '9' {
			i++
		}
		name, k := string(rest[:i]), int(c-0xE000)
		if old, ok := names[k]; ok && old != name {
			return nil, fmt.Sprintf("variable %d is both %s and %s", k, old, name)
		}
		names[k] = name
		rest = rest[i:]
	}
	if t := string(rest); t != "" && t != "." {
		return nil, fmt.Sprintf("%q follows", t)
	}
	return names, ""
}

func govPrintErr(n Node, src string) string {
	for _, pretty := range []bool{false, true} {
		s := ""
		if msg := govTry(func() {
			if pretty {
				s = PrettyString(n)
			} else {
				s = String(n)
			}
		}); msg != "" {
			return fmt.Sprintf("printing %s: %s", src, msg)
		}
		names, msg := govNames(n, s, pretty)
		if msg != "" {
			return fmt.Sprintf("%s printed as %s: %s", src, s, msg)
		}
		seen := map[string]int{}
		for k, nm := range names {
			if j, ok := seen[nm]; ok {
				return fmt.Sprintf("%s printed as %s: variables %d and %d are both %s", src, s, j, k, nm)
			}
			seen[nm] = k
			c := []rune(nm)[0]
			if pretty && 'A' <= c && c <= 'Z' {
				return fmt.Sprintf("%s printed as %s: %s is not italic", src, s, nm)
			}
			if pretty {
				if c-0x1D434+'A' < 'A' || c-0x1D434 > 25 {
					return fmt.Sprintf("%s printed as %s: bad name %s", src, s, nm)
				}
			} else if c < 'A' || c > 'Z' {
				return fmt.Sprintf("%s printed as %s: bad name %s", src, s, nm)
			}
		}
	}
	return ""
}

func TestBoundedNames(t *testing.T) {
	govBounded(t, func(r *rand.Rand, size int) string {
		if r.Intn(2) == 0 {
			src, st := govInterp(r, size)
			return govPrintErr(st, fmt.Sprintf("%q", src))
		}
		n := (&govG{r: r}).Node(size)
		return govPrintErr(n, "a tree like "+render(n, nil, false))
	})
}

// govFails fails exactly one write.
type govFails struct{ at, n int }

func (w *govFails) Write(b []byte) (int, error) {
	w.n++
	if w.n-1 == w.at {
		return 0, fmt.Errorf("write %d fails", w.at)
	}
	return len(b), nil
}

func TestWitnessC13(t *testing.T) {
	govSearch(t, func(r *rand.Rand, size int) string {
		n := (&govG{r: r}).Node(size)
		w := &govFails{at: r.Intn(12)}
		if err := n.print(&printer{w: w}); (err != nil) != (w.n > w.at) {
			return fmt.Sprintf("printing a tree like %s to a writer whose write %d fails returns the error %v after %d writes", render(n, nil, false), w.at, err, w.n)
		}
		return govPrintErr(n, "a tree like "+render(n, nil, false))
	})
}
