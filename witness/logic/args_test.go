package logic

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"testing"

	"github.com/eaburns/toaq/ast"
	"github.com/eaburns/toaq/tone"
)

func TestWitnessC10(t *testing.T) {
	govSearch(t, func(r *rand.Rand, size int) string {
		// Linked places are distinct unless the list says otherwise.
		var args arguments
		show := ""
		used := map[int]bool{}
		for i := r.Intn(size + 2); i > 0; i-- {
			v := &Variable{N: len(args)}
			p := r.Intn(5)
			if r.Intn(2) == 0 || used[p] && r.Intn(4) > 0 {
				p = 0
			}
			used[p] = true
			n := len(args)
			if p == 0 && r.Intn(2) == 0 {
				args = args.add(v)
			} else {
				args = args.addAt(v, p)
			}
			show += fmt.Sprintf(" X%d@%d", n, p)
			if len(args) != n+1 || args[n].Argument != Argument(v) || args[n].pos != p {
				return "adding an argument after" + show
			}
		}
		want := ordered(args)
		var got []Argument
		if msg := govTry(func() { got = orderArguments(args) }); msg != "" {
			return "ordering" + show + ": " + msg
		}
		if len(got) != len(want) {
			return fmt.Sprintf("ordering%s makes %d slots, not %d", show, len(got), len(want))
		}
		for i := range got {
			if got[i] != want[i] {
				return fmt.Sprintf("ordering%s puts %s in place %d, not %s", show, govVarName(got[i]), i+1, govVarName(want[i]))
			}
		}
		if r.Intn(4) == 0 {
			return govPlaces(r, size)
		}
		return ""
	})
}

func govVarName(a Argument) string {
	if v, ok := a.(*Variable); ok {
		return fmt.Sprintf("X%d", v.N)
	}
	return "nothing"
}

// govArgName is the content word of the argument written in the text.
func govArgName(a Argument) string {
	if a == nil {
		return "·"
	}
	name := "?"
	ast.Visit(a.ASTNode(), ast.FuncVisitor(func(n ast.Node) {
		if w, ok := n.(*ast.Word); ok && name == "?" {
			s := strings.ReplaceAll(tone.WithTone(w.T, tone.None), "ı", "i")
			for _, c := range govContent {
				if s == c {
					name = s
				}
			}
		}
	}))
	return name
}

var govContent = []string{"ji", "suq", "mai", "poq", "shi", "nai", "kai", "rai", "gi", "hui", "buq", "de"}

// govPlaces builds a sentence of known arguments and reads them back.
func govPlaces(r *rand.Rand, size int) string {
	words := append([]string{}, govContent...)
	r.Shuffle(len(words), func(i, j int) { words[i], words[j] = words[j], words[i] })
	word := func() string {
		w := words[0]
		words = words[1:]
		return w
	}
	type alt struct {
		names []string // alternatives
		pos   int
	}
	noun := func() (src, name string) {
		w := word()
		q := []string{"", "", "sa ", "tu ", "ke "}[r.Intn(5)]
		src = q + w + "/"
		return src, w
	}
	links := []string{"", "fi", "go", "cu", "ta"}
	free := []int{1, 2, 3, 4}
	r.Shuffle(4, func(i, j int) { free[i], free[j] = free[j], free[i] })
	term := func() (string, alt) {
		var a alt
		src, name := noun()
		a.names = []string{name}
		switch k := r.Intn(6); {
		case k == 0 && len(words) > 6:
			s2, n2 := noun()
			src += " " + []string{"ru", "ra", "ri"}[r.Intn(3)] + " " + s2
			a.names = append(a.names, n2)
		case k == 1 && len(words) > 6:
			s2, _ := noun()
			src += " roi " + s2
		case k == 2 && len(words) > 7:
			s2, n2 := noun()
			s3, n3 := noun()
			src += " " + []string{"ru", "ra", "ri"}[r.Intn(3)] + " " + s2 + " " + []string{"ru", "ra", "ri"}[r.Intn(3)] + " " + s3
			a.names = append(a.names, n2, n3)
		}
		if r.Intn(2) == 0 {
			a.pos = free[0]
			free = free[1:]
			src = links[a.pos] + " " + src
		}
		return src, a
	}
	var src []string
	var terms []alt
	front, times := 0, 1
	switch r.Intn(4) {
	case 0:
		front = 1 + r.Intn(2)
		for i := 0; i < front; i++ {
			s, a := term()
			src = append(src, s)
			terms = append(terms, a)
		}
		src = append(src, "pa")
	case 1:
		// Arguments of a prenex are not those of its statement.
		s, a := term()
		src = append(src, s, "bi")
		times = len(a.names)
	}
	preds := []string{"kuq"}
	src = append(src, "kuq?")
	if r.Intn(3) == 0 {
		preds = append(preds, "dua")
		src = append(src, []string{"ru", "ra", "ri"}[r.Intn(3)], "dua?")
	}
	for i := r.Intn(3); i > 0; i-- {
		s, a := term()
		src = append(src, s)
		terms = append(terms, a)
	}
	text := strings.Join(src, " ")
	// What is expected: each choice of predicate and alternatives, once.
	choices := [][]string{}
	for _, p := range preds {
		choices = append(choices, []string{p})
	}
	n := len(terms)
	for _, a := range terms {
		if a.pos > n {
			n = a.pos
		}
		var next [][]string
		for _, c := range choices {
			for _, w := range a.names {
				next = append(next, append(append([]string{}, c...), w))
			}
		}
		choices = next
	}
	var want []string
	for _, c := range choices {
		slots := make([]string, n)
		for i, a := range terms {
			if a.pos > 0 {
				slots[a.pos-1] = c[i+1]
			}
		}
		j := 0
		for i, a := range terms {
			if a.pos == 0 {
				for slots[j] != "" {
					j++
				}
				slots[j] = c[i+1]
			}
		}
		for i := range slots {
			if slots[i] == "" {
				slots[i] = "·"
			}
		}
		for i := 0; i < times; i++ {
			want = append(want, c[0]+"("+strings.Join(slots, ", ")+")")
		}
	}
	tree, err := ast.NewParser(text).Text()
	if err != nil {
		return fmt.Sprintf("%q does not parse: %v", text, err)
	}
	var st Statement
	if msg := govTry(func() { st = newInterp().text(tree) }); msg != "" {
		return fmt.Sprintf("interpreting %q: %s", text, msg)
	}
	var got []string
	for _, m := range preorder(st) {
		p, ok := m.(*Predication)
		if !ok {
			continue
		}
		pr, ok := p.Predicate.(*Pred)
		if !ok || pr.Name != "kuq" && pr.Name != "dua" {
			continue
		}
		var as []string
		for _, a := range p.Arguments {
			as = append(as, govArgName(a))
		}
		got = append(got, pr.Name+"("+strings.Join(as, ", ")+")")
	}
	sort.Strings(got)
	sort.Strings(want)
	if strings.Join(got, "; ") != strings.Join(want, "; ") {
		return fmt.Sprintf("%q is interpreted as %s, not %s", text, strings.Join(got, "; "), strings.Join(want, "; "))
	}
	return ""
}

func TestBoundedPlaces(t *testing.T) {
	govBounded(t, govPlaces)
}
