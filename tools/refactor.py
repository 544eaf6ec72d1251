"""Behaviour-preserving edits on which every check has to stay quiet.

python3 tools/refactor.py [NAME...]: applies each edit to a scratch copy of
/repo, builds it and runs its tests, then runs gov over all properties.
"""
import os, subprocess, sys, shutil
R = []
def ref(name, *edits):
    R.append((name, edits))

ref("tone-strip-switch", ("tone/tone.go", """		if !strings.ContainsRune(toneNameRunes, r) {
			s.WriteRune(r)
		}
""", """		switch r {
		case '-', '/', 'V', '?', '^', '\\\\', '~':
			continue
		}
		s.WriteRune(r)
"""))
ref("tone-ascii-helper", ("tone/tone.go", """			if (!strings.ContainsRune(vowels, r) || tone[r] != None) && r != 'q' && r != 'Q' {
				s.WriteRune(t)
				t = None
			}
""", """			if endsSyllable(r) {
				s.WriteRune(t)
				t = None
			}
"""), ("tone/tone.go", """// Strip returns""", """func endsSyllable(r rune) bool {
	if r == 'q' || r == 'Q' {
		return false
	}
	return tone[r] != None || !strings.ContainsRune(vowels, r)
}

// Strip returns"""))
ref("tone-withtone-loop", ("tone/tone.go", """	i := strings.IndexAny(str, vowels)
	if i < 0 {
		return str
	}
	r, w := utf8.DecodeRuneInString(str[i:])
	var R string
	if a, ok := ascii[r]; ok {
		R = string([]rune{a})
	} else {
		R = string([]rune{r})
	}
""", """	i := strings.IndexAny(str, vowels)
	if i == -1 {
		return str
	}
	r, w := utf8.DecodeRuneInString(str[i:])
	base := r
	if a := ascii[r]; a != 0 {
		base = a
	}
	R := string([]rune{base})
"""))
ref("tone-ascii-else", ("tone/tone.go", """		if t == None {
			if t = tone[r]; t != None {
				s.WriteRune(ascii[r])
				continue
			}
		}
		s.WriteRune(r)
""", """		if nt := tone[r]; t == None && nt != None {
			t = nt
			s.WriteRune(ascii[r])
		} else {
			s.WriteRune(r)
		}
"""))
ref("ast-equal-helper", ("ast/equal.go", """		if !ok || len(*a) != len(*b) {
			return false
		}
		for i := range *a {
			if !Equal((*a)[i], (*b)[i]) {
				return false
			}
		}
		return true
""", """		if !ok {
			return false
		}
		as, bs := *a, *b
		if len(as) != len(bs) {
			return false
		}
		same := true
		for i := 0; same && i < len(as); i++ {
			same = Equal(as[i], bs[i])
		}
		return same
"""))
ref("ast-equal-termshelper", ("ast/equal.go", """		b, ok := b.(Terms)
		if !ok || len(a) != len(b) {
			return false
		}
		for i := range a {
			if !Equal(a[i], b[i]) {
				return false
			}
		}
		return true
""", """		b, ok := b.(Terms)
		return ok && termsEqual(a, b)
"""), ("ast/equal.go", "func copEqual", """func termsEqual(a, b Terms) bool {
	if len(a) != len(b) {
		return false
	}
	for i, t := range a {
		if !Equal(t, b[i]) {
			return false
		}
	}
	return true
}

func copEqual"""))
ref("ast-equal-word", ("ast/equal.go", """	if a == nil {
		return b == nil
	}
	return b != nil && a.T == b.T && Equal(a.M, b.M)
""", """	switch {
	case a == nil && b == nil:
		return true
	case a == nil || b == nil:
		return false
	}
	if !Equal(a.M, b.M) {
		return false
	}
	return a.T == b.T
"""))
ref("ast-visit-helper", ("ast/visit.go", """	case *CoPSentence:
		Visit((*CoP)(n), v)

	case *Prenex:
		Visit(n.Terms, v)
		Visit(&n.BI, v)
""", """	case *CoPSentence:
		visitCoP((*CoP)(n), v)

	case *Prenex:
		Visit(n.Terms, v)
		bi := &n.BI
		Visit(bi, v)
"""), ("ast/visit.go", "// Visit traverses", """func visitCoP(c *CoP, v Visitor) { Visit(c, v) }

// Visit traverses"""))
ref("ast-visit-list", ("ast/visit.go", """		for _, k := range *n {
			Visit(k, v)
		}
""", """		for i := 0; i < len(*n); i++ {
			Visit((*n)[i], v)
		}
"""))
ref("ast-braces-helper", ("ast/braces.go", """		kids := make([]interface{}, len(*n))
		for i, k := range *n {
			kids[i] = k
		}
		return braceKids(w, cur, kids...)
""", """		var kids []interface{}
		for _, k := range *n {
			kids = append(kids, k)
		}
		return braceKids(w, cur, kids...)
"""))
ref("ast-braces-nest", ("ast/braces.go", """	next := cur
	if len(nodes) > 1 {
		if _, err := io.WriteString(w, openBraces[cur:cur+1]); err != nil {
			return err
		}
		next = (cur + 1) % len(openBraces)
	}
	for i, n := range nodes {
		if s, ok := n.(string); ok {
			if _, err := io.WriteString(w, s); err != nil {
				return err
			}
		} else {
			if err := braces(w, next, n.(Node)); err != nil {
				return err
			}
		}
		if i < len(nodes)-1 {
			if _, err := io.WriteString(w, " "); err != nil {
				return err
			}
		}
	}
	if len(nodes) > 1 {
""", """	nested := len(nodes) >= 2
	next := cur
	if nested {
		if _, err := io.WriteString(w, openBraces[cur:cur+1]); err != nil {
			return err
		}
		next++
		if next == len(openBraces) {
			next = 0
		}
	}
	for i, n := range nodes {
		if i > 0 {
			if _, err := io.WriteString(w, " "); err != nil {
				return err
			}
		}
		switch n := n.(type) {
		case string:
			if _, err := io.WriteString(w, n); err != nil {
				return err
			}
		default:
			if err := braces(w, next, n.(Node)); err != nil {
				return err
			}
		}
	}
	if nested {
"""))
ref("logic-visit-inline", ("logic/visit.go", """	f(n)
	visit(f, n.Left, n.Right)
}

func (n *Predication) Visit(f func(Node)) {
	f(n)
	visit(f, n.Predicate)
	for _, a := range n.Arguments {
		visit(f, a)
	}
}
""", """	f(n)
	if n.Left != nil {
		n.Left.Visit(f)
	}
	if n.Right != nil {
		n.Right.Visit(f)
	}
}

func (n *Predication) Visit(f func(Node)) {
	f(n)
	visit(f, n.Predicate)
	visitArguments(f, n.Arguments)
}

func visitArguments(f func(Node), args []Argument) {
	for i := range args {
		if args[i] == nil {
			continue
		}
		args[i].Visit(f)
	}
}
"""))
ref("logic-print-builder", ("logic/string.go", """	if n.Restriction == nil {
		return pr.write(n.Quantifier, variable(n.N), " ", n.Scope)
	}
	return pr.write("[", n.Quantifier, variable(n.N), " : ", n.Restriction, "] ", n.Scope)
""", """	v := variable(n.N)
	if n.Restriction != nil {
		if err := pr.write("[", n.Quantifier, v, " : "); err != nil {
			return err
		}
		return pr.write(n.Restriction, "] ", n.Scope)
	}
	return pr.write(n.Quantifier, v, " ", n.Scope)
"""))
ref("logic-print-args", ("logic/string.go", """	for i, arg := range args {
		comma := ", "
		if i == len(args)-1 {
			comma = ""
		}
		var err error
		if arg == nil {
			err = pr.write("·", comma)
		} else {
			err = pr.write(arg, comma)
		}
		if err != nil {
			return err
		}
	}
	return nil
""", """	for i, arg := range args {
		if i > 0 {
			if err := pr.write(", "); err != nil {
				return err
			}
		}
		if arg == nil {
			if err := pr.write("·"); err != nil {
				return err
			}
			continue
		}
		if err := pr.write(arg); err != nil {
			return err
		}
	}
	return nil
"""))
ref("logic-print-parens", ("logic/string.go", """	switch arg := arg.(type) {
	case *Predication:
		return "", ""
	case *Connection:
		if arg.Connector == n.Connector {
			return "", ""
		}
	}
	return "(", ")"
""", """	if _, ok := arg.(*Predication); ok {
		return "", ""
	}
	if c, ok := arg.(*Connection); ok && c.Connector == n.Connector {
		return "", ""
	}
	return "(", ")"
"""))
ref("logic-hastext-runes", ("logic/interp.go", """		if ra == 'ı' {
			ra = 'i'
		}
		if rb == 'ı' {
			rb = 'i'
		}
		if unicode.ToLower(ra) != unicode.ToLower(rb) {
			return false
		}
""", """		if plain(ra) != plain(rb) {
			return false
		}
"""), ("logic/interp.go", "// oLetters contains", """func plain(r rune) rune {
	if r == 'ı' {
		return 'i'
	}
	return unicode.ToLower(r)
}

// oLetters contains"""))
ref("logic-connector-ifs", ("logic/interp.go", """	switch {
	case hasText(w, "fi"):
		return 1
	case hasText(w, "go"):
		return 2
	case hasText(w, "cu"):
		return 3
	case hasText(w, "ta"):
		return 4
	}
	panic("impossible: " + w.T)
""", """	for i, text := range []string{"fi", "go", "cu", "ta"} {
		if hasText(w, text) {
			return i + 1
		}
	}
	panic("impossible: " + w.T)
"""))
ref("logic-order-rewrite", ("logic/interp.go", """	var i int
	for _, a := range args {
		if a.pos > 0 {
			continue
		}
		for largs[i] != nil {
			i++
		}
		largs[i] = a.Argument
	}
	return largs
""", """	next := 0
	for _, a := range args {
		if a.pos == 0 {
			for largs[next] != nil {
				next++
			}
			largs[next] = a.Argument
			next++
		}
	}
	return largs
"""))
ref("logic-order-helper", ("logic/interp.go", """	nargs := len(args)
	for _, a := range args {
		if a.pos > nargs {
			nargs = a.pos
		}
	}
	largs := make([]Argument, nargs)
""", """	largs := make([]Argument, numSlots(args))
"""), ("logic/interp.go", "func orderArguments", """func numSlots(args arguments) int {
	n := len(args)
	for _, a := range args {
		if a.pos > n {
			n = a.pos
		}
	}
	return n
}

func orderArguments"""))
ref("logic-splitvar-index", ("logic/interp.go", """	i := -1
	for j, o := range oLetters {
		if o == r {
			i = j
			break
		}
	}
	if i < 0 {
		return tone.None, "", false
	}
	w++ // 'd'
""", """	i := indexRune(oLetters, r)
	if i == -1 {
		return tone.None, "", false
	}
	w++ // 'd'
"""), ("logic/interp.go", "// splitVar splits", """func indexRune(rs []rune, r rune) int {
	for i, o := range rs {
		if o == r {
			return i
		}
	}
	return -1
}

// splitVar splits"""))

ref("interp-connect-helper", ("logic/interp.go", """		return &Connection{
			Connector: connector(n.RU),
			Left:      interp.statement(args, n.Left.(ast.Statement)),
			Right:     interp.statement(args, n.Right.(ast.Statement)),
			AST:       n,
		}
""", """		left := interp.statement(args, n.Left.(ast.Statement))
		right := interp.statement(args, n.Right.(ast.Statement))
		return connect(n.RU, left, right, n)
"""), ("logic/interp.go", """		return &Connection{
			Connector: connector(n.RU),
			Left:      interp.adverb(n.Left.(ast.Adverb), arg),
			Right:     interp.adverb(n.Right.(ast.Adverb), arg),
			AST:       n,
		}
""", """		return connect(n.RU, interp.adverb(n.Left.(ast.Adverb), arg), interp.adverb(n.Right.(ast.Adverb), arg), n)
"""), ("logic/interp.go", "func bindScope(", """func connect(ru ast.Word, l, r Statement, n ast.Node) Statement {
	return &Connection{Connector: connector(ru), Left: l, Right: r, AST: n}
}

func bindScope("""))
ref("interp-defer-explicit", ("logic/interp.go", """func (interp *interpreter) adverb(n ast.Adverb, arg Argument) Statement {
	defer func(s []varScope) { interp.varScope = s }(interp.varScope)

""", """func (interp *interpreter) adverb(n ast.Adverb, arg Argument) Statement {
	saved := interp.varScope
	defer func() { interp.varScope = saved }()

"""), ("logic/interp.go", """func (interp *interpreter) preposition(n ast.Preposition, arg0 interface{}) Statement {
	defer func(s []varScope) { interp.varScope = s }(interp.varScope)
""", """func (interp *interpreter) preposition(n ast.Preposition, arg0 interface{}) Statement {
	defer interp.restoreVars(interp.varScope)
"""), ("logic/interp.go", "// pushVar pushes", """func (interp *interpreter) restoreVars(s []varScope) { interp.varScope = s }

// pushVar pushes"""))
ref("interp-discourse-loop", ("logic/interp.go", """	for i := len(interp.theScope) - 1; i >= 0; i-- {
		st = bindScope(interp.theScope[i], st)
	}
	return st
}

func (interp *interpreter) sentence""", """	for i := range interp.theScope {
		st = bindScope(interp.theScope[len(interp.theScope)-1-i], st)
	}
	return st
}

func (interp *interpreter) sentence"""))
ref("interp-discourse-helper", ("logic/interp.go", """			if st == nil {
				st = interp.sentence(k)
			} else {
				st = &Connection{
					Connector: And,
					Left:      st,
					Right:     interp.sentence(k),
					AST:       n,
				}
			}
""", """			st = andSentence(st, interp.sentence(k), n)
"""), ("logic/interp.go", "func (interp *interpreter) sentence(", """func andSentence(st, next Statement, n *ast.Discourse) Statement {
	if st == nil {
		return next
	}
	return &Connection{Connector: And, Left: st, Right: next, AST: n}
}

func (interp *interpreter) sentence("""))
ref("interp-lookup-range", ("logic/interp.go", """	for i := len(interp.varScope) - 1; i >= 0; i-- {
		b := interp.varScope[i]
		if b.v == s {
			return b.def.N, b.def
		}
	}
	return interp.newVar(), nil
""", """	i := len(interp.varScope)
	for i > 0 {
		i--
		if b := interp.varScope[i]; b.v == s {
			return b.def.N, b.def
		}
	}
	x := interp.newVar()
	return x, nil
"""))
ref("interp-argument-helper", ("logic/interp.go", """		var b *Binding
		var a Argument
		switch arg := t.Argument.(type) {
		case *ast.CoPArgument:
			if hasText(arg.RU, "roi") {
				b, a = interp.roi(arg)
				break
			}
""", """		var b *Binding
		var a Argument
		switch arg := t.Argument.(type) {
		case *ast.CoPArgument:
			if isPlural(arg) {
				b, a = interp.roi(arg)
				break
			}
"""), ("logic/interp.go", """	case *ast.PredicateArgument:
		b, a = interp.predicateArgument(arg1)
		break
	case *ast.CoPArgument:
		if hasText(arg1.RU, "roi") {
			b, a = interp.roi(arg1)
			break
		}
""", """	case *ast.PredicateArgument:
		b, a = interp.predicateArgument(arg1)
	case *ast.CoPArgument:
		if isPlural(arg1) {
			b, a = interp.roi(arg1)
			break
		}
"""), ("logic/interp.go", "func bindScope(", """func isPlural(n *ast.CoPArgument) bool { return hasText(n.RU, "roi") }

func bindScope("""))
ref("interp-withterm0", ("logic/interp.go", """	ts = append(ast.Terms{}, ts...)
	ts[0] = t
	return ts
""", """	out := make(ast.Terms, len(ts))
	copy(out, ts)
	out[0] = t
	return out
"""))
ref("interp-withterm0-prepend", ("logic/interp.go", """	ts = append(ast.Terms{}, ts...)
	ts[0] = t
	return ts
""", """	return ts[1:].Prepend(t)
"""))
ref("interp-bind-loop", ("logic/interp.go", """	if bind.Scope == nil {
		bind.Scope = stmt
	} else {
		bind.Scope = bindScope(bind.Scope.(*Binding), stmt)
	}
	return bind
""", """	if bind.Scope != nil {
		stmt = bindScope(bind.Scope.(*Binding), stmt)
	}
	bind.Scope = stmt
	return bind
"""))
ref("interp-restriction-helper", ("logic/interp.go", """	b.Restriction = interp.makePredication(n.Predicate, a)
	if n.Relative != nil {
		b.Restriction = &Connection{
			Connector: And,
			Left:      b.Restriction,
			Right:     interp.relativeClause(b, n.Relative),
			AST:       n,
		}
	}
""", """	restriction := interp.makePredication(n.Predicate, a)
	if n.Relative != nil {
		rel := interp.relativeClause(b, n.Relative)
		restriction = &Connection{Connector: And, Left: restriction, Right: rel, AST: n}
	}
	b.Restriction = restriction
"""))
ref("interp-variable-helper", ("logic/interp.go", """	x := interp.newVar()
	b := &Binding{N: x, Quantifier: The, AST: n}
	a := &Variable{N: x, Def: b, AST: n}
	b.Restriction = interp.roiLeft(a, n.Left.(ast.Argument), n.Right.(ast.Argument))
	return b, a
""", """	b, a := interp.bound(The, n)
	b.Restriction = interp.roiLeft(a, n.Left.(ast.Argument), n.Right.(ast.Argument))
	return b, a
"""), ("logic/interp.go", """		x := interp.newVar()
		b := &Binding{N: x, Quantifier: The, AST: t}
		a := &Variable{N: x, Def: b, AST: t}
		b.Restriction""", """		b, a := interp.bound(The, t)
		b.Restriction"""), ("logic/interp.go", "func bindScope(", """// bound returns a new binding and an argument that it binds.
func (interp *interpreter) bound(q Quantifier, n ast.Node) (*Binding, *Variable) {
	x := interp.newVar()
	b := &Binding{N: x, Quantifier: q, AST: n}
	return b, &Variable{N: x, Def: b, AST: n}
}

func bindScope("""))
ref("interp-serial-merge", ("logic/interp.go", """	l := interp.predicate(n.Left.(ast.Predicate))
	r := interp.predicate(n.Right.(ast.Predicate))
	return interp.serialPredicateLeft(n, l, r)
""", """	left, right := n.Left.(ast.Predicate), n.Right.(ast.Predicate)
	l := interp.predicate(left)
	return interp.serialPredicateLeft(n, l, interp.predicate(right))
"""))
ref("interp-statement-if", ("logic/interp.go", """		if n.Terms == nil {
			return interp.predication(n.Predicate, args)
		}

""", """		if n.Terms != nil {
			return interp.prenexPredication(args, n)
		}
		return interp.predication(n.Predicate, args)
	case *ast.CoPStatement:
		return &Connection{
			Connector: connector(n.RU),
			Left:      interp.statement(args, n.Left.(ast.Statement)),
			Right:     interp.statement(args, n.Right.(ast.Statement)),
			AST:       n,
		}
	default:
		panic(fmt.Sprintf("unknown statement type %T", n))
	}
}

func (interp *interpreter) prenexPredication(args arguments, n *ast.Predication) Statement {
"""), ("logic/interp.go", """			Statement: &ast.Predication{Predicate: n.Predicate, NA: n.NA},
		})
	case *ast.CoPStatement:
		return &Connection{
			Connector: connector(n.RU),
			Left:      interp.statement(args, n.Left.(ast.Statement)),
			Right:     interp.statement(args, n.Right.(ast.Statement)),
			AST:       n,
		}
	default:
		panic(fmt.Sprintf("unknown statement type %T", n))
	}
}
""", """			Statement: &ast.Predication{Predicate: n.Predicate, NA: n.NA},
		})
}
"""))

ref("scope-lookup-while", ("logic/interp.go", """	for i := len(interp.varScope) - 1; i >= 0; i-- {
		b := interp.varScope[i]
		if b.v == s {
			return b.def.N, b.def
		}
	}
""", """	i := len(interp.varScope)
	for i > 0 {
		i--
		if scope := interp.varScope[i]; s == scope.v {
			def := scope.def
			return def.N, def
		}
	}
"""))
ref("scope-top-hoa", ("logic/interp.go", """			def := interp.hoaScope[len(interp.hoaScope)-1]
			return &Variable""", """			def := interp.topHoa()
			return &Variable"""), ("logic/interp.go", """	def := interp.hoaScope[len(interp.hoaScope)-1]
	x := def.N
""", """	def := interp.topHoa()
	x := def.N
"""), ("logic/interp.go", """func (interp *interpreter) popHoa() {
""", """// topHoa returns what hoa stands for.
func (interp *interpreter) topHoa() *Binding {
	top := len(interp.hoaScope) - 1
	return interp.hoaScope[top]
}

func (interp *interpreter) popHoa() {
"""))
ref("scope-save-restore", ("logic/interp.go", """func (interp *interpreter) statement(args arguments, n ast.Statement) Statement {
	defer func(s []varScope) { interp.varScope = s }(interp.varScope)

""", """func (interp *interpreter) statement(args arguments, n ast.Statement) Statement {
	saved := interp.varScope
	st := interp.scopedStatement(args, n)
	interp.varScope = saved
	return st
}

func (interp *interpreter) scopedStatement(args arguments, n ast.Statement) Statement {
"""))
ref("scope-push-inline", ("logic/interp.go", """		x := interp.pushVar(s, b)
		b.N = x
""", """		x := interp.newVar()
		b.N = x
		interp.varScope = append(interp.varScope, varScope{v: s, def: b})
"""))
ref("scope-hoa-defer", ("logic/interp.go", """	if b != nil {
		interp.pushHoa(b)
		defer interp.popHoa()
	}

	switch n := n.(type) {
	case *ast.PredicationRelative:""", """	if b != nil {
		hoas := interp.hoaScope
		defer func() { interp.hoaScope = hoas }()
		interp.hoaScope = append(hoas, b)
	}

	switch n := n.(type) {
	case *ast.PredicationRelative:"""))
ref("scope-clear-helper", ("logic/interp.go", """			if n.Def != nil && !bound[n.Def] {
				n.Def = nil
				n.N = interp.n
				interp.n++
			}
""", """			if n.Def == nil || bound[n.Def] {
				return
			}
			n.N, n.Def = interp.newVar(), nil
"""))
ref("scope-free-if", ("logic/interp.go", """		switch n := n.(type) {
		case *Binding:
			binds[n] = true
		case *Variable:
			if n.Def != nil && !binds[n.Def] {
				free = true
			}
		}
	})
	return free
""", """		if b, ok := n.(*Binding); ok {
			binds[b] = true
			return
		}
		if v, ok := n.(*Variable); ok {
			free = free || v.Def != nil && !binds[v.Def]
		}
	})
	return free
"""))
ref("scope-lifted-switch", ("logic/interp.go", """	if b.Quantifier == The {
		if interp.hasFreeVars(b) {
			b.Quantifier = All
			return b, a
		}
		interp.liftedScope[n] = b
		interp.theScope = append(interp.theScope, b)
		return nil, a
	}

	if b.Quantifier == Hi {""", """	switch {
	case b.Quantifier == The && interp.hasFreeVars(b):
		b.Quantifier = All
		return b, a
	case b.Quantifier == The:
		interp.theScope = append(interp.theScope, b)
		interp.liftedScope[n] = b
		return nil, a
	case b.Quantifier == Hi:"""))

ref("parser-offset-index", ("ast/parser.go", """	max := -1
	for _, k := range fail.Kids {
		if o := byteOffset(k); o > max {
			max = o
		}
	}
	return max

""", """	deepest := -1
	for i := 0; i < len(fail.Kids); i++ {
		o := byteOffset(fail.Kids[i])
		if deepest < o {
			deepest = o
		}
	}
	return deepest
"""))
ref("parser-offset-max", ("ast/parser.go", """		if o := byteOffset(k); o > max {
			max = o
		}
""", """		max = _max(max, byteOffset(k))
"""))
ref("parser-reset-helper", ("ast/parser.go", """	p._Parser.act = make(map[_key]interface{})
	return txt, nil
}
""", """	p.forget()
	return txt, nil
}

// forget forgets the nodes made so far.
func (p *Parser) forget() {
	p.act = make(map[_key]interface{})
	p.node = make(map[_key]*peg.Node)
}
"""))
ref("parser-parse-early", ("ast/parser.go", """	pos, perr := rule(p._Parser, start)
	if pos >= 0 {
		return nil
	}
	// The error position is relative to start.
	perr += start
	// Forget what previous calls found about other errors.
	p._Parser.lastFail = perr
	p._Parser.fail = make(map[_key]*peg.Fail)
	_, failTree := fail(p._Parser, start, perr)
	err := peg.SimpleError(p._Parser.text, failTree)
	err.FilePath = p.FilePath
	return &parseError{fail: failTree, err: err}
""", """	if n, delta := rule(p._Parser, start); n < 0 {
		return p.fails(fail, start, start+delta)
	}
	return nil
}

func (p *Parser) fails(fail func(*_Parser, int, int) (int, *peg.Fail), start, errPos int) Error {
	p.fail = make(map[_key]*peg.Fail)
	p.lastFail = errPos
	_, tree := fail(p._Parser, start, errPos)
	e := &parseError{fail: tree}
	e.err = peg.SimpleError(p.text, tree)
	e.err.FilePath = p.FilePath
	return e
"""))
ref("parser-word-named", ("ast/parser.go", """	pos, t := _wordAction(p._Parser, offs)
""", """	end, t := _wordAction(p._Parser, offs)
	w, n := *t, end-offs
"""), ("ast/parser.go", """	return *t, pos - offs, nil
""", """	return w, n, nil
"""))
ref("parser-new", ("ast/parser.go", """	return &Parser{_Parser: _NewParser(text)}
""", """	p := new(Parser)
	p._Parser = _NewParser(text)
	return p
"""))

ref("scope-lookup-forward", ("logic/interp.go", """	for i := len(interp.varScope) - 1; i >= 0; i-- {
		b := interp.varScope[i]
		if b.v == s {
			return b.def.N, b.def
		}
	}
	return interp.newVar(), nil
""", """	var def *Binding
	for _, b := range interp.varScope {
		if b.v == s {
			def = b.def
		}
	}
	if def == nil {
		return interp.newVar(), nil
	}
	return def.N, def
"""))

# ---- dict (PKGS=tone,dict) ----
LOOP = """	for _, e := range entries {
		e.Word = strings.ToLower(tone.Strip(e.Word))
		ws[e.Word] = e
	}
"""
ref("dict-index", ("dict/dict.go", LOOP, """	for i := range entries {
		e := entries[i]
		key := strings.ToLower(tone.Strip(e.Word))
		e.Word = key
		ws[key] = e
	}
"""))
ref("dict-inplace", ("dict/dict.go", LOOP, """	for i := 0; i < len(entries); i++ {
		w := normalize(entries[i])
		ws[w.Word] = w
	}
"""), ("dict/dict.go", "// Load loads", """// normalize returns the word with its head in the form of the keys.
func normalize(w Word) Word {
	w.Word = strings.ToLower(tone.Strip(w.Word))
	return w
}

// Load loads"""))
ref("dict-index-words", ("dict/dict.go", """	ws := make(map[string]Word)
""" + LOOP + """	return ws, nil
""", """	return index(entries), nil
"""), ("dict/dict.go", "// Load loads", """func index(entries []Word) map[string]Word {
	ws := make(map[string]Word, len(entries))
""" + LOOP + """	return ws
}

// Load loads"""))
ref("dict-switch", ("dict/dict.go", """	if !response.Success {
		if response.Error == nil {
			return nil, errors.New("Toadua returned an error without a message")
		}
		return nil, fmt.Errorf("Toadua returned error: %s", *response.Error)
	}
	if response.Entries == nil {
		return nil, errors.New("Toadua returned no data")
	}
""", """	switch {
	case !response.Success && response.Error != nil:
		return nil, fmt.Errorf("Toadua returned error: %s", *response.Error)
	case !response.Success:
		return nil, errors.New("Toadua returned an error without a message")
	case response.Entries == nil:
		return nil, errors.New("Toadua returned no data")
	}
"""))
ref("dict-named-type", ("dict/dict.go", """	var response struct {
		Success bool    `json:"success"`
		Entries *[]Word `json:"data"`
		Error   *string `json:"error"`
	}
	if err := json.NewDecoder(resp.Body).Decode(&response); err != nil {
		return nil, err
	}
""", """	var response reply
	dec := json.NewDecoder(resp.Body)
	if err := dec.Decode(&response); err != nil {
		return nil, err
	}
"""), ("dict/dict.go", "// Load loads", """// A reply is what Toadua answers.
type reply struct {
	Error   *string `json:"error"`
	Entries *[]Word `json:"data"`
	Success bool    `json:"success"`
}

// Load loads"""))
ref("dict-decode-helper", ("dict/dict.go", """	var response struct {
		Success bool    `json:"success"`
		Entries *[]Word `json:"data"`
		Error   *string `json:"error"`
	}
	if err := json.NewDecoder(resp.Body).Decode(&response); err != nil {
		return nil, err
	}
""", """	response, err := decode(resp.Body)
	if err != nil {
		return nil, err
	}
"""), ("dict/dict.go", "// Load loads", """type reply struct {
	Success bool    `json:"success"`
	Entries *[]Word `json:"data"`
	Error   *string `json:"error"`
}

func decode(body io.Reader) (*reply, error) {
	r := new(reply)
	err := json.NewDecoder(body).Decode(r)
	return r, err
}

// Load loads"""), ("dict/dict.go", "\t\"fmt\"\n", "\t\"fmt\"\n\t\"io\"\n"))
ref("dict-slice-entries", ("dict/dict.go", """		Entries *[]Word `json:"data"`
""", """		Entries []Word  `json:"data"`
"""), ("dict/dict.go", "entries := *response.Entries", "entries := response.Entries"))
ref("dict-value-error", ("dict/dict.go", """		return nil, fmt.Errorf("Toadua returned error: %s", *response.Error)
""", """		msg := *response.Error
		return nil, errors.New(fmt.Sprintf("Toadua returned error: %s", msg))
"""))
ref("dict-close-func", ("dict/dict.go", """	defer resp.Body.Close()
""", """	body := resp.Body
	defer func() { body.Close() }()
"""), ("dict/dict.go", "NewDecoder(resp.Body)", "NewDecoder(body)"))

SI = "logic/simplify.go"
ref("simp-hoa-contains", (SI, """	for _, u := range used {
		if u == b.N {
			return used
		}
	}
	n.Arguments = []""", """	if containsInt(used, b.N) {
		return used
	}
	n.Arguments = []"""), (SI, """func (n *Variable) addHoa""", """func containsInt(l []int, x int) bool {
	for _, y := range l {
		if x == y {
			return true
		}
	}
	return false
}

func (n *Variable) addHoa"""))
ref("simp-hoa-args-helper", (SI, """	used := n.Predicate.addHoa(nil)
	for _, arg := range n.Arguments {
		if arg != nil {
			used = merge(used, arg.addHoa(nil))
		}
	}
	if b""", """	used := addHoaArgs(n.Predicate.addHoa(nil), n.Arguments)
	if b"""), (SI, """	var used []int
	for _, arg := range n.Arguments {
		if arg != nil {
			used = merge(used, arg.addHoa(nil))
		}
	}
	return used
}
""", """	return addHoaArgs(nil, n.Arguments)
}

func addHoaArgs(used []int, args []Argument) []int {
	for _, arg := range args {
		if arg == nil {
			continue
		}
		used = merge(used, arg.addHoa(nil))
	}
	return used
}
"""))
ref("simp-hoa-locals", (SI, """	return merge(n.Left.addHoa(b), n.Right.addHoa(b))""", """	left := n.Left.addHoa(b)
	right := n.Right.addHoa(b)
	return merge(left, right)"""))
ref("simp-merge-index", (SI, """	for _, x := range l[1:] {
		if x > l[j] {
			j++
			l[j] = x
		}
	}
""", """	for i := 1; i < len(l); i++ {
		if l[i] <= l[j] {
			continue
		}
		j++
		l[j] = l[i]
	}
"""))
ref("simp-args-index", (SI, """	for i, a := range n.Arguments {
		if a != nil {
			n.Arguments[i] = a.simplifyArgument(s)
		}
	}

	switch""", """	for i := range n.Arguments {
		if n.Arguments[i] == nil {
			continue
		}
		n.Arguments[i] = n.Arguments[i].simplifyArgument(s)
	}

	switch"""))
ref("simp-pred-ifs", (SI, """	switch pred := n.Predicate.(type) {
	case *Swap:
		return swap(s, n, pred)
	case *Abstraction:
		if sub := lambdaSub(s, n, pred); sub != nil {
			return sub
		}
		break
	}
""", """	if sw, ok := n.Predicate.(*Swap); ok {
		return swap(s, n, sw)
	}
	if abs, ok := n.Predicate.(*Abstraction); ok {
		if st := lambdaSub(s, n, abs); st != nil {
			return st
		}
	}
"""))
ref("simp-swap-temp", (SI, """	args[0], args[swap.Pos] = args[swap.Pos], args[0]
""", """	first := args[0]
	args[0] = args[swap.Pos]
	args[swap.Pos] = first
"""))
ref("simp-swap-pos", (SI, """	args := n.Arguments
	if swap.Pos >= len(n.Arguments) {
		args = make([]Argument, swap.Pos+1)
		copy(args, n.Arguments)
	}
	args[0], args[swap.Pos] = args[swap.Pos], args[0]
	n.Arguments = args
""", """	pos := swap.Pos
	for len(n.Arguments) <= pos {
		n.Arguments = append(n.Arguments, nil)
	}
	n.Arguments[0], n.Arguments[pos] = n.Arguments[pos], n.Arguments[0]
"""))
ref("simp-lambda-count", (SI, """	var nargs int
	for _, a := range n.Arguments {
		if a != nil {
			nargs++
		}
	}
""", """	nargs := countArgs(n.Arguments)
"""), (SI, """func lambdaSub""", """func countArgs(args []Argument) int {
	n := 0
	for _, a := range args {
		if a != nil {
			n++
		}
	}
	return n
}

func lambdaSub"""))
ref("simp-lambda-range", (SI, """	var i int
	st := pred.Statement
	for i = 0; i < nlambda; i++ {
		b := st.(*Binding)
		s.sub[b.N] = n.Arguments[i]
		st = b.Scope
	}
""", """	st := pred.Statement
	for _, arg := range n.Arguments[:nlambda] {
		b := st.(*Binding)
		s.sub[b.N] = arg
		st = b.Scope
	}
"""))
ref("simp-lambda-split", (SI, """	if nlambda == 0 || nargs != nlambda {
		return nil
	}
""", """	if nlambda == 0 {
		return nil
	}
	if nlambda != nargs {
		return nil
	}
"""))
ref("simp-sub-guard", (SI, """	pred, ok := n.Restriction.(*Predication)
	if !ok ||
		(n.Quantifier != The && n.Quantifier != All) ||
		len(pred.Arguments) != 2 ||
		pred.Arguments[0] == nil ||
		pred.Arguments[1] == nil {
		return false
	}
""", """	if n.Quantifier != The && n.Quantifier != All {
		return false
	}
	pred, ok := n.Restriction.(*Predication)
	if !ok {
		return false
	}
	if len(pred.Arguments) != 2 || pred.Arguments[0] == nil || pred.Arguments[1] == nil {
		return false
	}
"""))
ref("simp-sub-right", (SI, """	l, ok := left.(*Variable)
	if !ok {
		if r, ok := right.(*Variable); ok {
			l, left, right = r, right, left
		} else {
			return false
		}
	}
""", """	l, ok := left.(*Variable)
	if !ok {
		l, ok = right.(*Variable)
		if !ok {
			return false
		}
		right = left
	}
"""))
ref("simp-sub-oneif", (SI, """	switch right.(type) {
	case *Quote, *Plurality, *Abstraction:
		s.sub[l.N] = right
	default:
		return false
	}
	return true
""", """	switch right.(type) {
	case *Quote, *Plurality, *Abstraction:
		s.sub[l.N] = right
		return true
	}
	return false
"""))
ref("simp-plural-switch", (SI, """		a = a.simplifyArgument(s)
		if plural, ok := a.(*Plurality); ok {
			args = append(args, plural.Arguments...)
		} else {
			args = append(args, a)
		}
""", """		switch arg := a.simplifyArgument(s).(type) {
		case *Plurality:
			args = append(args, arg.Arguments...)
		default:
			args = append(args, arg)
		}
"""))
ref("simp-plural-prealloc", (SI, """	var args []Argument
	for _, a := range n.Arguments {
		if a == nil {
			continue
		}
		a =""", """	args := make([]Argument, 0, len(n.Arguments))
	for _, a := range n.Arguments {
		if a == nil {
			continue
		}
		a ="""))
ref("simp-seq-next", (SI, """			if n.Def != nil {
				n.N = n.Def.N
			} else {
				n.N = i
				i++
			}
""", """			if n.Def == nil {
				n.N = i
				i++
				return
			}
			n.N = n.Def.N
"""))
ref("simp-state-lit", (SI, """	s := &state{
		sub:      make(map[int]Argument),
		predVars: make(map[int]bool),
	}
""", """	s := new(state)
	s.sub = map[int]Argument{}
	s.predVars = map[int]bool{}
"""))
ref("simp-variable-lookup", (SI, """	if a, ok := s.sub[n.N]; ok {
		return a
	}
	return n
}
""", """	a, ok := s.sub[n.N]
	if !ok {
		return n
	}
	return a
}
"""))
ref("simp-binding-sub-else", (SI, """	if sub(s, n) {
		return n.Scope.simplifyStatement(s)
	}
	n.Scope = n.Scope.simplifyStatement(s)
	return n
""", """	substituted := sub(s, n)
	scope := n.Scope.simplifyStatement(s)
	if substituted {
		return scope
	}
	n.Scope = scope
	return n
"""))
ref("simp-state-flag", (SI, """	s := &state{
		sub:      make(map[int]Argument),
		predVars: make(map[int]bool),
	}
	usePred := func(p Predicate) {
		if v, ok := p.(*Variable); ok {
			s.predVars[v.N] = true
		}
	}
""", """	predVars := make(map[int]bool)
	s := &state{sub: make(map[int]Argument), predVars: predVars}
	usePred := func(p Predicate) {
		if v, ok := p.(*Variable); ok {
			predVars[v.N] = true
		}
	}
"""))
ref("simp-top-locals", (SI, """	n.addHoa(nil)
	n = n.simplifyStatement(newState(n))
	sequenceVarNums(n)
	return n
""", """	n.addHoa(nil)
	s := newState(n)
	st := n.simplifyStatement(s)
	sequenceVarNums(st)
	return st
"""))

LIN = "logic/interp.go"
ref("about-content-helper", (LIN, """		x := interp.newVar()
		b := &Binding{N: x, Quantifier: The, AST: t}
		a := &Variable{N: x, Def: b, AST: t}
		b.Restriction = &Predication{
			Predicate: interp.makeContentPred(n, sub),
			Arguments: []Argument{a},
			AST:       t,
		}
		interp.theScope = append(interp.theScope, b)
		return interp.preposition(t, a)
""", """		b, a := interp.contentVar(t, n, sub)
		b.Quantifier = The
		interp.theScope = append(interp.theScope, b)
		return interp.preposition(t, a)
"""), (LIN, """		x := interp.newVar()
		b := &Binding{N: x, AST: t}
		a := &Variable{N: x, Def: b, AST: t}
		b.Restriction = &Predication{
			Predicate: interp.makeContentPred(n, sub),
			Arguments: []Argument{a},
			AST:       t,
		}
		if interp""", """		b, a := interp.contentVar(t, n, sub)
		if interp"""), (LIN, """type statementTail struct {""", """func (interp *interpreter) contentVar(t ast.Node, n *ast.PrenexStatement, sub Statement) (*Binding, *Variable) {
	x := interp.newVar()
	b := &Binding{N: x, AST: t}
	a := &Variable{N: x, Def: b, AST: t}
	b.Restriction = &Predication{
		Predicate: interp.makeContentPred(n, sub),
		Arguments: []Argument{a},
		AST:       t,
	}
	return b, a
}

type statementTail struct {"""))
ref("about-preposition-helper", (LIN, """		sub := interp.prenexStatement(args, n, terms[1:])
		if interp.hasFreeVars(sub) {
			return interp.preposition(t, &statementTail{args, n, terms[1:]})
		}
		x := interp.newVar()
		b := &Binding{N: x, Quantifier: The, AST: t}
		a := &Variable{N: x, Def: b, AST: t}
		b.Restriction = &Predication{
			Predicate: interp.makeContentPred(n, sub),
			Arguments: []Argument{a},
			AST:       t,
		}
		interp.theScope = append(interp.theScope, b)
		return interp.preposition(t, a)
""", """		return interp.prenexPreposition(args, n, t, terms[1:])
"""), (LIN, """type statementTail struct {""", """func (interp *interpreter) prenexPreposition(args arguments, n *ast.PrenexStatement, t ast.Preposition, rest ast.Terms) Statement {
	sub := interp.prenexStatement(args, n, rest)
	if interp.hasFreeVars(sub) {
		tail := &statementTail{args: args, prenex: n, terms: rest}
		return interp.preposition(t, tail)
	}
	x := interp.newVar()
	b := &Binding{N: x, Quantifier: The, AST: t}
	a := &Variable{N: x, Def: b, AST: t}
	content := interp.makeContentPred(n, sub)
	b.Restriction = &Predication{Predicate: content, Arguments: []Argument{a}, AST: t}
	interp.theScope = append(interp.theScope, b)
	return interp.preposition(t, a)
}

type statementTail struct {"""))
ref("about-tail-first", (LIN, """		sub := interp.prenexStatement(args, n, terms[1:])
		if interp.hasFreeVars(sub) {
			return interp.preposition(t, &statementTail{args, n, terms[1:]})
		}
""", """		rest := terms[1:]
		sub := interp.prenexStatement(args, n, rest)
		var arg0 interface{}
		if interp.hasFreeVars(sub) {
			arg0 = &statementTail{args, n, rest}
			return interp.preposition(t, arg0)
		}
"""))
ref("about-content-inline", (LIN, """	equal := &Pred{Name: Equal, AST: n}
	content := &Abstraction{Statement: st, AST: n}
	return interp.makeLambda(n, equal, content)
""", """	return interp.makeLambda(n, &Pred{Name: Equal, AST: n}, &Abstraction{Statement: st, AST: n})
"""))
ref("about-lambda-split", (LIN, """	lambda := &Binding{
		N:          x,
		Quantifier: Lambda,
		Scope: &Predication{
			Predicate: pred,
			Arguments: []Argument{arg0, arg1},
		},
		AST: n,
	}
	arg0.Def = lambda
	return""", """	scope := &Predication{Predicate: pred, Arguments: []Argument{arg0, arg1}}
	lambda := &Binding{N: x, Quantifier: Lambda, Scope: scope, AST: n}
	arg0.Def = lambda
	return"""))
ref("about-predication-args", (LIN, """	var as arguments
	for _, a := range args {
		as = as.add(a)
	}
	return interp.predication(pred, as)
""", """	as := make(arguments, 0, len(args))
	for i := range args {
		as = as.add(args[i])
	}
	return interp.predication(pred, as)
"""))
ref("about-prep-locals", (LIN, """		args, prenex, terms := arg0.args, arg0.prenex, arg0.terms
		sub := interp.prenexStatement(args, prenex, terms)
""", """		prenex := arg0.prenex
		sub := interp.prenexStatement(arg0.args, prenex, arg0.terms)
"""))
ref("about-adverb-switch", (LIN, """		if interp.hasFreeVars(sub) {
			b.Quantifier = All
			return bindScope(b, interp.adverb(t, a))
		}
		b.Quantifier = The
		interp.theScope = append(interp.theScope, b)
		return interp.adverb(t, a)
""", """		if !interp.hasFreeVars(sub) {
			b.Quantifier = The
			interp.theScope = append(interp.theScope, b)
			return interp.adverb(t, a)
		}
		b.Quantifier = All
		st := interp.adverb(t, a)
		return bindScope(b, st)
"""))

ref("scope-free-early", (LIN, """			if n.Def != nil && !binds[n.Def] {
				free = true
			}
		}
	})
	return free
""", """			if free || n.Def == nil {
				return
			}
			_, bound := binds[n.Def]
			free = !bound
		}
	})
	return free
"""))
ref("scope-free-struct", (LIN, """	free := false
	binds := make(map[*Binding]bool)
	for _, b := range interp.theScope {
		binds[b] = true
	}
""", """	binds := make(map[*Binding]bool, len(interp.theScope))
	for i := 0; i < len(interp.theScope); i++ {
		binds[interp.theScope[i]] = true
	}
	var free bool
"""))
ref("scope-free-helper", (LIN, """	free := false
	binds := make(map[*Binding]bool)
	for _, b := range interp.theScope {
		binds[b] = true
	}
""", """	free := false
	binds := topBinds(interp.theScope)
"""), (LIN, "// hasFreeVars returns", """func topBinds(bs []*Binding) map[*Binding]bool {
	binds := make(map[*Binding]bool)
	for _, b := range bs {
		binds[b] = true
	}
	return binds
}

// hasFreeVars returns"""))

def main():
    want = sys.argv[1:]
    for name, edits in R:
        if want and not any(w in name for w in want):
            continue
        d = os.environ.get("RF", "/tmp/rf")
        os.environ.get("KEEP") or shutil.rmtree(d, ignore_errors=True)
        subprocess.run(["cp", "-a", "/repo", d], check=True)
        for f, a, b in edits:
            p = os.path.join(d, f)
            s = open(p).read()
            if a not in s:
                print(name, "EDIT DOES NOT APPLY", f, repr(a[:60])); break
            open(p, "w").write(s.replace(a, b, 1))
        else:
            pk = edits[0][0].split("/")[0]
            o = subprocess.run("go vet ./%s; go test ./%s 2>&1 | tail -3" % (pk, pk), shell=True, cwd=d, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if "FAIL" in o.stdout or "vet:" in o.stdout:
                print(name, "BUILD", o.stdout)
                continue
            o = subprocess.run(["bash", "/tmp/run.sh", "-repo", d, "-contracts", "/verif/contracts", "-pkgs", os.environ.get("PKGS", "tone,ast,logic")] + (["-prop", os.environ["PROP"]] if "PROP" in os.environ else []), text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            fs = [l[:170] for l in o.stdout.split("\n") if l.startswith(("FAIL", "LOAD", "obligations"))]
            print(name, *fs, sep="\n    ", flush=True)
        os.environ.get("KEEP") or shutil.rmtree(d, ignore_errors=True)
main()
