package ast

import (
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"strconv"
	"testing"
	"time"
)

// The witness search: random inputs, the real functions, and the
// specification functions of the contracts as the oracle. A failure is
// reported on a line starting with WITNESS.

func govBudget() time.Duration {
	s, err := strconv.Atoi(os.Getenv("GOV_BUDGET"))
	if err != nil || s <= 0 {
		s = 15
	}
	return time.Duration(s) * time.Second
}

func govRand() *rand.Rand {
	s, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	return rand.New(rand.NewSource(int64(s) + 1))
}

var govTried int

// govSearch runs one case after another until one is refuted. A case returns
// what went wrong, or nothing.
func govSearch(t *testing.T, one func(r *rand.Rand, size int) string) {
	r := govRand()
	end := time.Now().Add(govBudget())
	for i := 0; time.Now().Before(end); i++ {
		size := 1 + i%6
		msg := func() (msg string) {
			return one(r, size)
		}()
		govTried++
		if msg != "" {
			fmt.Printf("WITNESS %s\n", msg)
			fmt.Printf("TRIED %d\n", govTried)
			t.FailNow()
		}
	}
	fmt.Printf("TRIED %d\n", govTried)
}

// govTry runs f and turns a panic into text.
func govTry(f func()) (msg string) {
	defer func() {
		if e := recover(); e != nil {
			msg = fmt.Sprintf("panic: %v", e)
		}
	}()
	f()
	return ""
}

func govTree(r *rand.Rand, size int) (Node, []byte) {
	ch := GovChoices(r, 4+size*20)
	g := NewGovGen(ch)
	n := g.Node(r.Intn(size + 1))
	return n, ch
}

func TestWitnessC04(t *testing.T) {
	govSearch(t, func(r *rand.Rand, size int) string {
		n, _ := govTree(r, size)
		if !wf(n) || !nonEmpty(n) {
			return ""
		}
		ws := pws(n)
		s, e := ws[0].S, ws[len(ws)-1].E
		var gs, ge int
		if m := govTry(func() { gs = n.Start() }); m != "" || gs != s {
			return fmt.Sprintf("Start() = %d %s, want %d, of %s", gs, m, s, GovShow(n))
		}
		if m := govTry(func() { ge = n.End() }); m != "" || ge != e {
			return fmt.Sprintf("End() = %d %s, want %d, of %s", ge, m, e, GovShow(n))
		}
		return ""
	})
}

func TestWitnessC06(t *testing.T) {
	check := func(a, b Node) string {
		if a != nil && !wf(a) || b != nil && !wf(b) {
			return ""
		}
		want := eqN(a, b)
		var got bool
		if m := govTry(func() { got = Equal(a, b) }); m != "" || got != want {
			return fmt.Sprintf("Equal(a, b) = %v %s, want %v, a = %s, b = %s", got, m, want, GovShow(a), GovShow(b))
		}
		return ""
	}
	govSearch(t, func(r *rand.Rand, size int) string {
		ch := GovChoices(r, 4+size*20)
		d := r.Intn(size + 1)
		g := NewGovGen(ch)
		a := g.Node(d)
		used := g.pos
		if used > len(ch) {
			used = len(ch)
		}
		ch2 := append([]byte{}, ch...)
		for k := r.Intn(3); k > 0; k-- {
			ch2[r.Intn(used)] = byte(r.Intn(256))
		}
		b := NewGovGen(ch2).Node(d)
		if m := check(a, b); m != "" {
			return m
		}
		if r.Intn(50) == 0 {
			if m := check(a, nil); m != "" {
				return m
			}
			return check(nil, a)
		}
		return ""
	})
}

func TestWitnessC07(t *testing.T) {
	govSearch(t, func(r *rand.Rand, size int) string {
		n, _ := govTree(r, size)
		if !showable(n) {
			return ""
		}
		want := rend(n, 0)
		var got string
		if m := govTry(func() { got = BracesString(n) }); m != "" || got != want {
			return fmt.Sprintf("BracesString = %q %s, want %q, of %s", got, m, want, GovShow(n))
		}
		return ""
	})
}

type govRec struct {
	id   int
	log  *[]string
	next *int
	r    []byte
}

func (v *govRec) name() string { return fmt.Sprintf("v%d", v.id) }

func govDecide(r []byte, k int) int { return int(r[k%len(r)]) % 8 }

func (v *govRec) Visit(n Node) Visitor {
	*v.log = append(*v.log, v.name()+":"+govID(n))
	if n == nil {
		return nil
	}
	k := len(*v.log)
	switch govDecide(v.r, k) {
	case 0:
		return nil
	case 1, 2:
		return &govRec{id: k, log: v.log, r: v.r}
	}
	return v
}

func govID(n Node) string {
	if n == nil {
		return "nil"
	}
	v := reflect.ValueOf(n)
	if v.Kind() == reflect.Slice {
		return fmt.Sprintf("%T/%d/%v", n, v.Len(), v.Pointer())
	}
	return fmt.Sprintf("%T/%v", n, v.Pointer())
}

// govVisit is what visiting should do, from the table of children.
func govVisit(n Node, v *govRec) {
	if n == nil || govNilPtr(n) {
		return
	}
	w := v.Visit(n)
	if w == nil {
		return
	}
	x, _ := w.(*govRec)
	for _, k := range kids(n) {
		govVisit(k, x)
	}
	x.Visit(nil)
}

func TestWitnessC05(t *testing.T) {
	govSearch(t, func(r *rand.Rand, size int) string {
		n, _ := govTree(r, size)
		if !visitable(n) {
			return ""
		}
		dec := GovChoices(r, 40)
		if r.Intn(2) == 0 {
			dec = []byte{3}
		}
		var want, got []string
		govVisit(n, &govRec{log: &want, r: dec})
		m := govTry(func() { Visit(n, &govRec{log: &got, r: dec}) })
		if m != "" || !govEq(got, want) {
			i := 0
			for i < len(got) && i < len(want) && got[i] == want[i] {
				i++
			}
			return fmt.Sprintf("Visit made %d calls %s, want %d; they differ from call %d on (decisions %v), of %s", len(got), m, len(want), i, dec, GovShow(n))
		}
		return ""
	})
}

func govLeavesText(ls []govLeaf) string {
	s := ""
	for _, l := range ls {
		s += fmt.Sprintf("%q[%d:%d] ", l.T, l.S, l.E)
	}
	return s
}

// govModMethods are the ways of attaching a modifier to a node.
func govModMethods(n Node) map[string]func(*Mod) Node {
	fs := map[string]func(*Mod) Node{}
	fs["modNode"] = func(m *Mod) Node { return n.modNode(m) }
	if x, ok := n.(Sentence); ok && isSentence(n) {
		fs["modSentence"] = func(m *Mod) Node { return x.modSentence(m) }
	}
	if x, ok := n.(Fragment); ok && isFragment(n) {
		fs["modFragment"] = func(m *Mod) Node { return x.modFragment(m) }
	}
	if x, ok := n.(Statement); ok && isStatement(n) {
		fs["modStatement"] = func(m *Mod) Node { return x.modStatement(m) }
	}
	if x, ok := n.(Predicate); ok && pred(n) {
		fs["modPredicate"] = func(m *Mod) Node { return x.modPredicate(m) }
	}
	if x, ok := n.(Phrase); ok && isPhrase(n) {
		fs["modPhrase"] = func(m *Mod) Node { return x.modPhrase(m) }
	}
	if x, ok := n.(Term); ok && isTerm(n) {
		fs["modTerm"] = func(m *Mod) Node { return x.modTerm(m) }
	}
	if x, ok := n.(Argument); ok && isArgument(n) {
		fs["modArgument"] = func(m *Mod) Node { return x.modArgument(m) }
	}
	if x, ok := n.(Relative); ok && isRelative(n) {
		fs["modRelative"] = func(m *Mod) Node { return x.modRelative(m) }
	}
	if x, ok := n.(Adverb); ok && isAdverb(n) {
		fs["modAdverb"] = func(m *Mod) Node { return x.modAdverb(m) }
	}
	if x, ok := n.(Preposition); ok && isPreposition(n) {
		fs["modPreposition"] = func(m *Mod) Node { return x.modPreposition(m) }
	}
	if x, ok := n.(Content); ok && isContent(n) {
		fs["modContent"] = func(m *Mod) Node { return x.modContent(m) }
	}
	if x, ok := n.(Mod); ok && isMod(n) {
		fs["mod"] = func(m *Mod) Node { return x.mod(m) }
	}
	return fs
}

func govModCase(r *rand.Rand, size int) string {
	n, _ := govTree(r, size)
	if !wf(n) || !nonEmpty(n) {
		return ""
	}
	var m *Mod
	if r.Intn(8) > 0 {
		mm := NewGovGen(GovChoices(r, 30)).Mod(r.Intn(2))
		m = &mm
	}
	before := GovShow(n)
	for name, f := range govModMethods(n) {
		var x Node
		msg := govTry(func() { x = f(m) })
		if msg == "" && (x == nil || !wf(x) || !govEq(lvs(x), append(lvs(n), lvm(m)...)) || !govEq(shp(x), shp(n))) {
			msg = "result " + GovShow(x)
		}
		if msg == "" && before != GovShow(n) {
			msg = "changed its receiver"
		}
		if msg != "" {
			mm := "nil"
			if m != nil {
				mm = GovShow(*m)
			}
			return fmt.Sprintf("%s(%s): %s, of %s", name, mm, msg, before)
		}
	}
	return ""
}

// govCount runs a fixed number of cases.
func govCount(t *testing.T, one func(r *rand.Rand, size int) string) {
	n, err := strconv.Atoi(os.Getenv("GOV_CASES"))
	if err != nil || n <= 0 {
		n = 1000
	}
	r := govRand()
	for i := 0; i < n; i++ {
		govTried++
		if msg := one(r, 1+i%6); msg != "" {
			fmt.Printf("WITNESS %s\n", msg)
			fmt.Printf("TRIED %d\n", govTried)
			t.FailNow()
		}
	}
	fmt.Printf("TRIED %d\n", govTried)
}
