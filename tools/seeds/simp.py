SL = '''package logic

import "testing"

func seedPred(name string, args ...Argument) *Predication {
	return &Predication{Predicate: &Pred{Name: name}, Arguments: args}
}

func seedVar(b *Binding) *Variable { return &Variable{N: b.N, Def: b} }

var _, _ = seedPred, seedVar

'''
seed("simp-hoa-connected", "C14",
  [("logic/simplify.go", '''	return merge(n.Left.addHoa(b), n.Right.addHoa(b))''', '''	used := n.Left.addHoa(b)
	for _, u := range used {
		if b != nil && u == b.N {
			b = nil
		}
	}
	return merge(used, n.Right.addHoa(b))''')],
  {"logic": SL + '''func TestSeedDemo(t *testing.T) {
	b := &Binding{Quantifier: Some, N: 7}
	l, r := seedPred("kato", seedVar(b)), seedPred("gi")
	b.Restriction = &Connection{Connector: And, Left: l, Right: r}
	b.Scope = seedPred("mai", seedVar(b))
	simplify(b)
	if len(l.Arguments) != 1 || len(r.Arguments) != 1 {
		t.Fatal(len(l.Arguments), len(r.Arguments))
	}
}
'''}, "a restriction of two connected predications of which only the first mentions the variable", "only the first half of a connected restriction is about the restricted variable")
seed("simp-hoa-swapped", "C14",
  [("logic/simplify.go", '''func (n *Swap) addHoa(b *Binding) []int { return n.Predicate.addHoa(nil) }''', '''func (n *Swap) addHoa(b *Binding) []int { return nil }''')],
  {"logic": SL + '''func TestSeedDemo(t *testing.T) {
	inner := &Binding{Quantifier: Some, N: 3}
	res := seedPred("kato")
	inner.Restriction = res
	inner.Scope = seedPred("mai", seedVar(inner))
	x, y := &Variable{N: 8}, &Variable{N: 9}
	simplify(&Predication{Predicate: &Swap{Predicate: &Abstraction{Statement: inner}, Pos: 1}, Arguments: []Argument{x, y}})
	if len(res.Arguments) != 1 {
		t.Fatal(len(res.Arguments))
	}
}
'''}, "a restricted variable within an abstraction that is a predicate with swapped places", "its restriction is not about the variable")
seed("simp-lambda-fewer", "C14",
  [("logic/simplify.go", '''nlambda == 0 || nargs != nlambda''', '''nlambda == 0 || nargs < nlambda''')],
  {"logic": SL + '''func TestSeedDemo(t *testing.T) {
	b := &Binding{Quantifier: Lambda, N: 3}
	b.Scope = seedPred("mai", seedVar(b))
	x, y := &Variable{N: 8}, &Variable{N: 9}
	st := simplify(&Predication{Predicate: &Abstraction{Statement: b}, Arguments: []Argument{x, y}})
	p, ok := st.(*Predication)
	if !ok || len(p.Arguments) != 2 {
		t.Fatal(String(st))
	}
}
'''}, "a predicate of one λ given two arguments", "the second argument is lost")
seed("simp-merge-neighbours", "C14",
  [("logic/simplify.go", '''		if x > l[j] {''', '''		if x != l[j]+1 {''')],
  {"logic": SL + '''func TestSeedDemo(t *testing.T) {
	b := &Binding{Quantifier: Some, N: 6}
	q := &Predication{Predicate: &Abstraction{Statement: seedPred("dua", &Variable{N: 5}, seedVar(b), &Variable{N: 8})}}
	b.Restriction = q
	b.Scope = seedPred("mai", seedVar(b))
	simplify(b)
	if len(q.Arguments) != 0 {
		t.Fatal("the restriction mentions the variable already", String(b))
	}
}
'''}, "variables with successive numbers in one restriction", "a variable that is used counts as not used")
seed("simp-flat-early", "C14",
  [("logic/simplify.go", '''		a = a.simplifyArgument(s)
		if plural, ok := a.(*Plurality); ok {''', '''		plural, ok := a.(*Plurality)
		a = a.simplifyArgument(s)
		if ok {''')],
  {"logic": SL + '''func TestSeedDemo(t *testing.T) {
	b := &Binding{Quantifier: The, N: 3}
	b.Restriction = seedPred(Equal, seedVar(b), &Plurality{Arguments: []Argument{&Variable{N: 5}, &Variable{N: 6}}})
	p := &Plurality{Arguments: []Argument{seedVar(b), &Variable{N: 7}}}
	b.Scope = seedPred("mai", p)
	simplify(b)
	if len(p.Arguments) != 3 {
		t.Fatal(len(p.Arguments))
	}
}
'''}, "a plurality that has a variable defined as a plurality", "the inner plurality stays nested in the outer")
seed("simp-swap-last", "C14",
  [("logic/simplify.go", '''	args[0], args[swap.Pos] = args[swap.Pos], args[0]''', '''	i := len(args) - 1
	args[0], args[i] = args[i], args[0]''')],
  {"logic": SL + '''func TestSeedDemo(t *testing.T) {
	x, y, z := &Variable{N: 1}, &Variable{N: 2}, &Variable{N: 3}
	st := simplify(&Predication{Predicate: &Swap{Predicate: &Pred{Name: "do"}, Pos: 1}, Arguments: []Argument{x, y, z}})
	p := st.(*Predication)
	if p.Arguments[0] != Argument(y) || p.Arguments[1] != Argument(x) || p.Arguments[2] != Argument(z) {
		t.Fatal(String(st))
	}
}
'''}, "a predicate of three places with the second swapped", "the last place is swapped instead")
seed("simp-unbound-number", "C14",
  [("logic/simplify.go", '''				n.N = i
				i++
			}''', '''				n.N = i
			}''')],
  {"logic": SL + '''func TestSeedDemo(t *testing.T) {
	b := &Binding{Quantifier: Some, N: 3}
	u := &Variable{N: 9}
	b.Restriction = seedPred("kato", seedVar(b))
	b.Scope = seedPred("mai", seedVar(b), u)
	p := &Connection{Connector: And, Left: seedPred("jai", u), Right: b}
	simplify(p)
	if u.N == b.N {
		t.Fatal("two variables have one number")
	}
}
'''}, "an unbound variable before a binding", "two variables get one number")
