package main

import (
	"fmt"
	"sort"
	"strings"
	"unicode"
)

// axBuilder collects the assertions of one query: the facts, the negated
// goal, and ground instances of the axioms their terms call for. Every axiom
// added is valid in all models, so "unsat" carries over to the original
// question; quantifiers are replaced by ground instances (facts) and Skolem
// constants (goals).
type axBuilder struct {
	ex      *Exec
	c       *Ctx
	asserts []*Term
	inAss   map[*Term]bool
	seen    map[*Term]bool
	depth   map[*Term]int
	done    map[string]bool
	lits    map[*Term]bool
	tags    map[*Term]int64
	queue   []*Term
	qdepth  []int
	quant   map[*Term]*Term // forall term -> placeholder
	quants  []*Term
	aliases [][3]*Term // (= x (seq.extract ..)), x, the extract
	idx     []*Term    // ground integer index terms
	idxSeen map[*Term]bool
	nths    map[*Term][]*Term // base sequence -> indices
	folds   map[string][]foldUse
	bodies  map[*Term]*Term // definitions of sequence-valued specifications
	boffs   map[*Term][]*Term
	news    map[*Term]bool
	ints    map[int64]bool
	runeFns map[string]bool
	steps   int

	memDefs, normMemo map[*Term]*Term
}

type foldUse struct {
	app  *Term
	base *Term
	o, n *Term
	gen  int // generation: derived uses are not split further
	dep  int
}

// skolem is the identity: quantifiers are replaced when asserted.
func (ab *axBuilder) skolem(t *Term) *Term { return t }

func (ab *axBuilder) init() {
	if ab.inAss == nil {
		ab.inAss = map[*Term]bool{}
		ab.quant = map[*Term]*Term{}
		ab.idxSeen = map[*Term]bool{}
		ab.nths = map[*Term][]*Term{}
		ab.folds = map[string][]foldUse{}
		ab.boffs = map[*Term][]*Term{}
		ab.news = map[*Term]bool{}
		ab.ints = map[int64]bool{}
		ab.bodies = map[*Term]*Term{}
		ab.runeFns = map[string]bool{}
		ab.memDefs, ab.normMemo = map[*Term]*Term{}, map[*Term]*Term{}
	}
}

func (ab *axBuilder) add(t *Term, depth int) {
	ab.init()
	if t.isTrue() {
		return
	}
	if t.op == "and" && t.kind == kApp {
		for _, a := range t.args {
			ab.add(a, depth)
		}
		return
	}
	t = ab.norm(t)
	if t.isTrue() {
		return
	}
	if t.op == "and" && t.kind == kApp {
		for _, a := range t.args {
			ab.add(a, depth)
		}
		return
	}
	t = ab.dropQuant(t)
	if t == nil || ab.inAss[t] || t.isTrue() {
		return
	}
	ab.inAss[t] = true
	ab.asserts = append(ab.asserts, t)
	ab.walk(t, depth)
}

// define records equations that give the contents of newly made memory, so
// that reads of it are rewritten to what was stored.
func (ab *axBuilder) define(t *Term) {
	if t.op == "and" && t.kind == kApp {
		for _, a := range t.args {
			ab.define(a)
		}
		return
	}
	if t.op != "=" || len(t.args) != 2 {
		return
	}
	for i := range t.args {
		l, r := t.args[i], t.args[1-i]
		if strings.HasPrefix(l.op, "St") && len(l.args) == 1 && len(l.args[0].args) == 0 && strings.Contains(l.args[0].op, "!") &&
			r.op == "seq.++" && ab.memDefs[l] == nil && !ab.occurs(l, r) {
			// The contents of a list.
			ab.memDefs[l] = r
			return
		}
		if strings.HasPrefix(l.op, "vld_") && strings.HasPrefix(r.op, "new!") && ab.memDefs[l] == nil {
			// A volatile field at one version of memory.
			ab.memDefs[l] = r
			return
		}
		if !strings.HasPrefix(l.op, "ld_") && l.op != "seq.nth" {
			continue
		}
		o := l.args[0]
		for strings.HasPrefix(o.op, "sub_") {
			o = o.args[0]
		}
		made := r.op == "iptr" && strings.HasPrefix(r.args[1].op, "new!")
		if (!strings.HasPrefix(o.op, "new!") || l.op == "seq.nth") && !made || ab.memDefs[l] != nil {
			continue
		}
		if ab.occurs(l, r) {
			continue
		}
		ab.memDefs[l] = r
		return
	}
}

// occurs: would rewriting l to r loop?
func (ab *axBuilder) occurs(l, r *Term) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if t == l {
			return true
		}
		if seen[t] {
			return false
		}
		seen[t] = true
		for _, a := range t.args {
			if rec(a) {
				return true
			}
		}
		if d := ab.memDefs[t]; d != nil {
			return rec(d)
		}
		return false
	}
	return rec(r)
}

// norm rewrites reads of newly made memory.
func (ab *axBuilder) norm(t *Term) *Term {
	if len(ab.memDefs) == 0 {
		return t
	}
	if r, ok := ab.normMemo[t]; ok {
		return r
	}
	r := t
	if len(t.args) > 0 {
		args := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			args[i] = ab.norm(a)
			if args[i] != a {
				ch = true
			}
		}
		if ch {
			r = ab.c.Rebuild(t, args)
		}
	}
	if d := ab.memDefs[r]; d != nil {
		r = ab.norm(d)
	} else if r != t {
		r = ab.norm(r)
	}
	ab.normMemo[t] = r
	return r
}

// dropQuant replaces quantified subformulas by placeholders.
func (ab *axBuilder) dropQuant(t *Term) *Term {
	has := map[*Term]bool{}
	var look func(t *Term) bool
	memo := map[*Term]int{}
	look = func(t *Term) bool {
		if m, ok := memo[t]; ok {
			return m == 1
		}
		r := false
		if t.kind == kForall {
			r = true
			has[t] = true
		} else {
			for _, a := range t.args {
				if look(a) {
					r = true
				}
			}
		}
		if r {
			memo[t] = 1
		} else {
			memo[t] = 0
		}
		return r
	}
	if !look(t) {
		return t
	}
	m := map[*Term]*Term{}
	for q := range has {
		p, ok := ab.quant[q]
		if !ok {
			p = ab.c.Fresh("quant", SBool)
			ab.quant[q] = p
			ab.quants = append(ab.quants, q)
			// not p => not body(sk)
			sub := map[*Term]*Term{}
			for _, b := range q.bvs {
				sk := ab.c.Fresh("sk", b.sort)
				sub[b] = sk
				if b.sort == SInt {
					ab.noteIdx(sk)
				}
			}
			ab.add(ab.c.Or(p, ab.c.Not(ab.c.Subst(q.args[0], sub))), 0)
		}
		m[q] = p
	}
	return ab.c.Subst(t, m)
}

func (ab *axBuilder) noteIdx(t *Term) {
	if t.hasB || ab.idxSeen[t] {
		return
	}
	ab.idxSeen[t] = true
	ab.idx = append(ab.idx, t)
}

func (ab *axBuilder) walk(t *Term, depth int) {
	if ab.seen[t] || t.hasB {
		return
	}
	ab.seen[t] = true
	for _, a := range t.args {
		ab.walk(a, depth)
	}
	if t.kind == kInt {
		ab.ints[t.ival] = true
	}
	if t.kind != kApp {
		return
	}
	ab.depth[t] = depth
	ab.queue = append(ab.queue, t)
}

const maxAxioms = 6000

func (ab *axBuilder) saturate() {
	ab.init()
	for round := 0; round < 12; round++ {
		for len(ab.queue) > 0 && ab.steps < maxAxioms {
			t := ab.queue[0]
			ab.queue = ab.queue[1:]
			ab.steps++
			ab.local(t)
		}
		n := len(ab.asserts)
		ab.foldAxioms()
		ab.boffAxioms()
		ab.aliasAxioms()
		if round < 3 {
			ab.instantiateQuants()
		}
		if len(ab.asserts) == n && len(ab.queue) == 0 || ab.steps >= maxAxioms {
			break
		}
	}
	ab.global()
}

func (ab *axBuilder) global() {
	c := ab.c
	var ns []*Term
	for t := range ab.news {
		ns = append(ns, t)
	}
	sort.Slice(ns, func(i, j int) bool { return ns[i].id < ns[j].id })
	if len(ns) > 0 {
		ab.asserts = append(ab.asserts, c.mk(kApp, "distinct", SBool, 0, append(ns, c.Null)...))
	}
	if len(ab.runeFns) > 0 {
		for k := range ab.ints {
			if k < 65 || k > 0x10FFFF {
				continue
			}
			r := rune(k)
			for fn := range ab.runeFns {
				switch fn {
				case "rlower":
					ab.asserts = append(ab.asserts, c.mk(kApp, "=", SBool, 0, c.App("rlower", SInt, c.Int(k)), c.Int(int64(unicode.ToLower(r)))))
				case "rupper":
					ab.asserts = append(ab.asserts, c.mk(kApp, "=", SBool, 0, c.App("rupper", SInt, c.Int(k)), c.Int(int64(unicode.ToUpper(r)))))
				case "isletter":
					p := c.App("isletter", SBool, c.Int(k))
					if !unicode.IsLetter(r) {
						p = c.Not(p)
					}
					ab.asserts = append(ab.asserts, p)
				}
			}
		}
	}
}

// local adds the axioms triggered by a single term.
func (ab *axBuilder) local(t *Term) {
	c, ex := ab.c, ab.ex
	d := ab.depth[t]
	if n := c.lens[t]; n != nil {
		ab.add(c.mk(kApp, "=", SBool, 0, c.mk(kApp, "seq.len", SInt, 0, t), n), d)
	}
	switch {
	case t.op == "=" && t.args[0].sort.IsSeq():
		for i := 0; i < 2; i++ {
			x, e := t.args[i], t.args[1-i]
			if len(x.args) == 0 && x.op != "seq.empty" && e.op == "seq.extract" {
				ab.aliases = append(ab.aliases, [3]*Term{t, x, e})
			}
		}
	case t.op == "seq.nth":
		ab.nths[t.args[0]] = append(ab.nths[t.args[0]], t.args[1])
		ab.noteIdx(t.args[1])
		if strings.HasPrefix(t.args[0].op, "zeros_") {
			z := ex.zeroSort(t.sort)
			ab.add(c.Implies(c.And(c.Le(c.Int(0), t.args[1]), c.Lt(t.args[1], t.args[0].args[0])), c.Eq(t, z)), d+1)
		}
		if s := t.args[0]; s.op == "seq.++" {
			// Which part holds the element.
			off := c.Int(0)
			for _, p := range s.args {
				l := c.Len(p)
				in := c.And(c.Le(off, t.args[1]), c.Lt(t.args[1], c.Add(off, l)))
				ab.add(c.Implies(in, c.Eq(t, c.Nth(p, c.Sub(t.args[1], off)))), d+1)
				off = c.Add(off, l)
			}
		}
	case strings.HasPrefix(t.op, "zeros_"):
		ab.add(c.Implies(c.Le(c.Int(0), t.args[0]), c.mk(kApp, "=", SBool, 0, c.mk(kApp, "seq.len", SInt, 0, t), t.args[0])), d)
	case strings.HasPrefix(t.op, "sub_"):
		ab.asserts = append(ab.asserts, c.mk(kApp, "not", SBool, 0, c.mk(kApp, "=", SBool, 0, t, c.Null)))
		ab.add(c.Eq(c.App("inv_"+t.op, SRef, t), t.args[0]), d)
	case strings.HasPrefix(t.op, "new!"):
		ab.news[t] = true
	case strings.HasPrefix(t.op, "box_"):
		ab.add(c.mk(kApp, "=", SBool, 0, c.App("un"+t.op, t.args[0].sort, t), t.args[0]), d)
	case t.op == "rlen":
		r := t.args[0]
		ab.add(c.And(c.Le(c.Int(1), t), c.Le(t, c.Int(4))), d)
		ab.add(c.Eq(c.Eq(t, c.Int(1)), c.And(c.Le(c.Int(0), r), c.Lt(r, c.Int(128)))), d)
		ab.add(c.Eq(c.Le(t, c.Int(2)), c.And(c.Le(c.Int(0), r), c.Lt(r, c.Int(2048)))), d)
		if r.op == "seq.nth" && r.args[1].isInt() && r.args[1].ival >= 0 && r.args[1].ival < 4 {
			// Byte offsets up to the end of this code point.
			for k := int64(0); k <= r.args[1].ival+1; k++ {
				ab.boffs[r.args[0]] = append(ab.boffs[r.args[0]], c.Int(k))
			}
		}
	case t.op == "boff":
		ab.boffs[t.args[0]] = append(ab.boffs[t.args[0]], t.args[1])
	case t.op == "first_nil":
		// Index of the first nil interface in a sequence, or its length.
		x := t.args[0]
		ab.add(c.And(c.Le(c.Int(0), t), c.Le(t, c.Len(x))), d)
		ab.add(c.Implies(c.Lt(t, c.Len(x)), c.IsNilIface(c.Nth(x, t))), d+1)
		ex.nbound++
		bv := c.Bound(ex.nbound, SInt)
		ab.add(c.Forall([]*Term{bv}, c.Implies(c.And(c.Le(c.Int(0), bv), c.Lt(bv, t)), c.Not(c.IsNilIface(c.Nth(x, bv))))), d+1)
		ab.noteIdx(t)
	case t.op == "rlower":
		ab.runeFns[t.op] = true
		r := t.args[0]
		ascii := c.And(c.Le(c.Int(0), r), c.Lt(r, c.Int(128)))
		up := c.And(c.Le(c.Int('A'), r), c.Le(r, c.Int('Z')))
		ab.add(c.Implies(ascii, c.Eq(t, c.Ite(up, c.Add(r, c.Int(32)), r))), d)
	case t.op == "rupper":
		ab.runeFns[t.op] = true
		r := t.args[0]
		ascii := c.And(c.Le(c.Int(0), r), c.Lt(r, c.Int(128)))
		lo := c.And(c.Le(c.Int('a'), r), c.Le(r, c.Int('z')))
		ab.add(c.Implies(ascii, c.Eq(t, c.Ite(lo, c.Sub(r, c.Int(32)), r))), d)
	case t.op == "isletter":
		ab.runeFns[t.op] = true
		r := t.args[0]
		ascii := c.And(c.Le(c.Int(0), r), c.Lt(r, c.Int(128)))
		al := c.Or(c.And(c.Le(c.Int('A'), r), c.Le(r, c.Int('Z'))), c.And(c.Le(c.Int('a'), r), c.Le(r, c.Int('z'))))
		ab.add(c.Implies(ascii, c.Eq(t, al)), d)
	}
	si := ex.specOps[t.op]
	if si == nil {
		return
	}
	if si.fold == "" && d == 0 {
		for _, a := range t.args {
			if a.sort == SInt {
				ab.noteIdx(a)
			}
		}
	}
	if si.fold != "" {
		i := 0
		if si.fold == "foldl" {
			i = 1
		}
		s := t.args[i]
		if s.op == "sorted" && si.fold == "foldand" {
			// The same elements in another order.
			ts := append([]*Term{}, t.args...)
			ts[i] = s.args[0]
			st := newState()
			ex.spec++
			same := ex.foldApp(si, ts, st)
			ex.spec--
			ab.add(c.Eq(t, same), d)
			for _, f := range st.facts {
				ab.add(f, d+1)
			}
		}
		u := foldUse{app: t, base: s, o: c.Int(0), n: c.Len(s), dep: d}
		if s.op == "seq.extract" {
			u.base, u.o, u.n = s.args[0], s.args[1], s.args[2]
		}
		var k strings.Builder
		fmt.Fprintf(&k, "%s/%d", t.op, u.base.id)
		for j, a := range t.args {
			if j != i {
				fmt.Fprintf(&k, "/%d", a.id)
			}
		}
		ab.folds[k.String()] = append(ab.folds[k.String()], u)
		return
	}
	lim := si.depth
	if d < lim {
		key := "unfold/" + fmt.Sprint(t.id)
		if !ab.done[key] {
			def, extra := ex.unfold(t, ab.lits, ab.tags)
			if def != nil {
				ab.done[key] = true
				if t.sort.IsSeq() && def.op == "=" {
					for i := range def.args {
						if def.args[i] == t {
							ab.bodies[t] = def.args[1-i]
						}
					}
				}
				for _, e := range extra {
					ab.define(e)
				}
				ab.add(def, d+1)
				for _, e := range extra {
					ab.add(e, d+1)
				}
			}
		}
	}
	for _, lm := range ex.lemmas[t.op] {
		key := fmt.Sprintf("lemma/%s/%d", lm.Key, t.id)
		if ab.done[key] {
			continue
		}
		ab.done[key] = true
		if f, extra := ex.lemmaInstance(lm, t, ab.lits, ab.tags); f != nil {
			ab.add(f, d+1)
			for _, e := range extra {
				ab.add(e, d+1)
			}
		}
	}
}

// foldAxioms relates fold applications over parts of the same sequence.
func (ab *axBuilder) foldAxioms() {
	c, ex := ab.c, ab.ex
	var keys []string
	for k := range ab.folds {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		us := ab.folds[k]
		for _, u := range us {
			ab.foldOne(u)
		}
		if len(us) > 14 {
			us = us[:14]
		}
		for i, a := range us {
			for j, b := range us {
				if i == j {
					continue
				}
				// Same start, a shorter than b.
				if a.o == b.o {
					key := fmt.Sprintf("split/%d/%d", a.app.id, b.app.id)
					if ab.done[key] {
						continue
					}
					diff := c.Sub(b.n, a.n)
					if diff.isInt() && diff.ival < 0 {
						continue
					}
					if !(diff.isInt() && diff.ival == 1) && (a.dep > 2 || b.dep > 2) {
						continue
					}
					ab.done[key] = true
					ex.foldSplit(ab, b, a.n)
				} else if c.Add(a.o, a.n) == c.Add(b.o, b.n) && a.dep <= 2 && b.dep <= 2 {
					// Same end, a starts after b.
					key := fmt.Sprintf("split/%d/%d", a.app.id, b.app.id)
					if ab.done[key] {
						continue
					}
					diff := c.Sub(a.o, b.o)
					if diff.isInt() && diff.ival < 0 {
						continue
					}
					ab.done[key] = true
					ex.foldSplit(ab, b, diff)
				}
			}
		}
	}
}

// foldOne adds the empty and first-element axioms.
func (ab *axBuilder) foldOne(u foldUse) {
	c, ex := ab.c, ab.ex
	key := fmt.Sprintf("fold1/%d", u.app.id)
	si := ex.specOps[u.app.op]
	if si.fold == "foldand" {
		for _, i := range append([]*Term{}, ab.nths[u.base]...) {
			ab.foldAndElem(u, i)
		}
	}
	if body := ab.bodies[u.base]; body != nil && u.o == c.Int(0) && u.n == c.Len(u.base) {
		// The sequence is a specification's result: fold over its definition.
		ab.foldBody(u, body)
	}
	if ab.done[key] {
		return
	}
	ab.done[key] = true
	var empty *Term
	switch si.fold {
	case "fold":
		empty = c.Empty(u.app.sort)
	case "foldand":
		empty = c.True
	case "foldl":
		empty = u.app.args[0]
	}
	ab.add(c.Implies(c.Le(u.n, c.Int(0)), c.Eq(u.app, empty)), u.dep)
	if ex.rootC != nil && ex.rootC.Lemma && u.dep < 3 {
		ex.foldSplit(ab, u, c.Int(1))
	}
	if strings.HasPrefix(u.base.op, "zeros_") && si.fold != "foldl" {
		// Every element is the zero value.
		ts := append([]*Term{}, u.app.args...)
		ts[0] = c.Unit(ex.zeroSort(u.base.sort.Elem()))
		st := newState()
		ex.spec++
		e := ex.foldApp(si, ts, st)
		ex.spec--
		in := c.And(c.Le(c.Int(0), u.o), c.Le(c.Int(0), u.n), c.Le(c.Add(u.o, u.n), c.Len(u.base)))
		if si.fold == "foldand" {
			ab.add(c.Implies(c.And(in, e), u.app), u.dep)
		} else if e == c.Empty(e.sort) {
			ab.add(c.Implies(in, c.Eq(u.app, e)), u.dep)
		} else {
			ab.add(c.Implies(c.And(in, c.Eq(c.Len(e), c.Int(1))), c.Eq(c.Len(u.app), u.n)), u.dep)
		}
	}
	if u.dep < 4 {
		// First element, if the code looks at it.
		for _, i := range ab.nths[u.base] {
			if i == u.o {
				ex.foldSplit(ab, u, c.Int(1))
				break
			}
		}
		for _, i := range ab.nths[u.base] {
			if c.Add(i, c.Int(1)) == c.Add(u.o, u.n) {
				ex.foldSplit(ab, u, c.Sub(u.n, c.Int(1)))
				break
			}
		}
	}
}

func (ab *axBuilder) foldBody(u foldUse, body *Term) {
	key := fmt.Sprintf("foldbody/%d", u.app.id)
	if ab.done[key] || u.dep > 4 {
		return
	}
	ab.done[key] = true
	ex := ab.ex
	si := ex.specOps[u.app.op]
	st := newState()
	for k, v := range ab.lits {
		st.lits[k] = v
	}
	for k, v := range ab.tags {
		st.tags[k] = v
	}
	ts := append([]*Term{}, u.app.args...)
	i := 0
	if si.fold == "foldl" {
		i = 1
	}
	ts[i] = body
	r, ok := ex.tryFold(si, ts, st)
	if !ok || r == u.app {
		return
	}
	for _, f := range st.facts {
		ab.define(f)
	}
	ab.add(ab.c.Eq(u.app, r), u.dep+1)
	for _, f := range st.facts {
		ab.add(f, u.dep+1)
	}
}

// tryFold is foldApp, unless the specification is outside the subset.
func (ex *Exec) tryFold(si *specInfo, ts []*Term, st *State) (r *Term, ok bool) {
	defer func() {
		if e := recover(); e != nil {
			if _, is := e.(unsupportedErr); !is {
				panic(e)
			}
			r, ok = nil, false
		}
	}()
	ex.spec++
	defer func() { ex.spec-- }()
	return ex.foldApp(si, ts, st), true
}

// foldAndElem: a true conjunction holds of each element.
func (ab *axBuilder) foldAndElem(u foldUse, i *Term) {
	key := fmt.Sprintf("foldelem/%d/%d", u.app.id, i.id)
	if ab.done[key] || u.dep > 3 {
		return
	}
	ab.done[key] = true
	c, ex := ab.c, ab.ex
	si := ex.specOps[u.app.op]
	st := newState()
	for k, v := range ab.lits {
		st.lits[k] = v
	}
	for k, v := range ab.tags {
		st.tags[k] = v
	}
	ts := append([]*Term{}, u.app.args...)
	ts[0] = c.Unit(c.Nth(u.base, i))
	ex.spec++
	e := ex.foldApp(si, ts, st)
	ex.spec--
	in := c.And(c.Le(u.o, i), c.Lt(i, c.Add(u.o, u.n)), c.Le(c.Int(0), i), c.Lt(i, c.Len(u.base)))
	ab.add(c.Implies(c.And(u.app, in), e), u.dep+1)
	for _, f := range st.facts {
		ab.add(f, u.dep+1)
	}
}

// foldSplit asserts F(S[o:o+n]) = F(S[o:o+m] ++ S[o+m:o+n]) when 0<=m<=n.
func (ex *Exec) foldSplit(ab *axBuilder, u foldUse, m *Term) {
	c := ab.c
	si := ex.specOps[u.app.op]
	i := 0
	if si.fold == "foldl" {
		i = 1
	}
	part := func(o, n *Term) *Term {
		if n.isInt() && n.ival == 1 {
			return c.Unit(c.Nth(u.base, o))
		}
		return c.Extract(u.base, o, n)
	}
	rest := c.Sub(u.n, m)
	ts := append([]*Term{}, u.app.args...)
	st := newState()
	for k, v := range ab.lits {
		st.lits[k] = v
	}
	for k, v := range ab.tags {
		st.tags[k] = v
	}
	var rhs *Term
	ok := func() (ok bool) {
		defer func() {
			if r := recover(); r != nil {
				if _, is := r.(unsupportedErr); !is {
					panic(r)
				}
			}
		}()
		ex.spec++
		defer func() { ex.spec-- }()
		// Part by part: a concatenation of the parts would merge them again.
		ts[i] = part(u.o, m)
		a := ex.foldApp(si, ts, st)
		ts = append([]*Term{}, ts...)
		ts[i] = part(c.Add(u.o, m), rest)
		if si.fold == "foldl" {
			ts[0] = a
		}
		b := ex.foldApp(si, ts, st)
		switch si.fold {
		case "fold":
			rhs = c.Concat(u.app.sort, a, b)
		case "foldand":
			rhs = c.And(a, b)
		case "foldl":
			rhs = b
		}
		return true
	}()
	if !ok {
		return
	}
	for _, f := range st.facts {
		ab.define(f)
	}
	g := c.And(c.Le(c.Int(0), m), c.Le(m, u.n), c.Le(c.Int(0), u.o), c.Le(c.Add(u.o, u.n), c.Len(u.base)))
	ab.add(c.Implies(g, c.Eq(u.app, rhs)), u.dep+1)
	for _, f := range st.facts {
		ab.add(f, u.dep+1)
	}
}

// aliasAxioms relates elements of a sequence equal to a part of another to the
// elements of that other.
func (ab *axBuilder) aliasAxioms() {
	c := ab.c
	for _, al := range ab.aliases {
		for _, i := range ab.nths[al[1]] {
			key := fmt.Sprintf("alias/%d/%d", al[0].id, i.id)
			if ab.done[key] {
				continue
			}
			ab.done[key] = true
			in := c.And(al[0], c.Le(c.Int(0), i), c.Lt(i, c.Len(al[1])))
			ab.add(c.Implies(in, c.Eq(c.Nth(al[1], i), c.Nth(al[2], i))), 1)
		}
	}
}

func (ab *axBuilder) boffAxioms() {
	c := ab.c
	var bases []*Term
	for s := range ab.boffs {
		bases = append(bases, s)
	}
	sort.Slice(bases, func(i, j int) bool { return bases[i].id < bases[j].id })
	raw := func(s, k *Term) *Term { return c.App("boff", SInt, s, k) }
	for _, s := range bases {
		ks := append([]*Term{}, ab.boffs[s]...)
		for _, k := range ks {
			key := fmt.Sprintf("boff/%d/%d", s.id, k.id)
			if ab.done[key] {
				continue
			}
			ab.done[key] = true
			n := c.mk(kApp, "seq.len", SInt, 0, s)
			b := raw(s, k)
			ab.add(c.Implies(c.Eq(k, c.Int(0)), c.mk(kApp, "=", SBool, 0, b, c.Int(0))), 1)
			ab.add(c.Implies(c.Le(c.Int(0), k), c.And(c.Le(k, b))), 1)
			if strings.HasPrefix(s.op, "hv") || true {
				end := raw(s, n)
				ab.add(c.Implies(c.And(c.Le(c.Int(0), k), c.Le(k, n)), c.And(c.Le(b, end), c.Eq(c.Eq(b, end), c.Eq(k, n)))), 1)
			}
		}
		for _, a := range ks {
			for _, b := range ks {
				if c.Sub(b, a) == c.Int(1) {
					key := fmt.Sprintf("boffstep/%d/%d", s.id, a.id)
					if ab.done[key] {
						continue
					}
					ab.done[key] = true
					ab.add(c.Implies(c.And(c.Le(c.Int(0), a), c.Lt(a, c.Len(s))),
						c.Eq(raw(s, b), c.Add(raw(s, a), c.Rlen(c.Nth(s, a))))), 1)
				}
				if a.id < b.id {
					key := fmt.Sprintf("boffmono/%d/%d/%d", s.id, a.id, b.id)
					if ab.done[key] {
						continue
					}
					ab.done[key] = true
					in := c.And(c.Le(c.Int(0), a), c.Le(c.Int(0), b), c.Le(a, c.Len(s)), c.Le(b, c.Len(s)))
					ab.add(c.Implies(in, c.And(c.Eq(c.Lt(a, b), c.Lt(raw(s, a), raw(s, b))), c.Eq(c.Lt(b, a), c.Lt(raw(s, b), raw(s, a))))), 1)
				}
			}
		}
	}
}

func (ab *axBuilder) instantiateQuants() {
	qs := append([]*Term{}, ab.quants...)
	idx := append([]*Term{}, ab.idx...)
	if len(idx) > 24 {
		idx = idx[:24]
	}
	for _, q := range qs {
		p := ab.quant[q]
		if len(q.bvs) != 1 || q.bvs[0].sort != SInt {
			continue
		}
		for _, i := range idx {
			key := fmt.Sprintf("inst/%d/%d", q.id, i.id)
			if ab.done[key] {
				continue
			}
			ab.done[key] = true
			ab.add(ab.c.Implies(p, ab.c.Subst(q.args[0], map[*Term]*Term{q.bvs[0]: i})), 1)
		}
	}
}

// lemmaInstance instantiates a proved lemma on the arguments of a trigger term.
func (ex *Exec) lemmaInstance(lm *Contract, t *Term, lits map[*Term]bool, tags map[*Term]int64) (f *Term, extra []*Term) {
	si := ex.specOps[t.op]
	if len(lm.Names) != len(t.args) {
		return nil, nil
	}
	if ex.inductArg != nil && ex.rootC == lm {
		// Proving this lemma by structural induction: only instances on
		// strict parts of the induction argument may be used.
		if !strictPart(t.args[0], ex.inductArg) {
			return nil, nil
		}
	}
	st := newState()
	for k, v := range lits {
		st.lits[k] = v
	}
	for k, v := range tags {
		st.tags[k] = v
	}
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsupportedErr); ok {
				ex.unfoldErr[lm.Key+": "+u.msg] = true
				f = nil
				return
			}
			panic(r)
		}
	}()
	var args []Value
	for i, p := range si.fn.Params {
		args = append(args, ex.wrapSpec(t.args[i], p.Type()))
	}
	var req, ens []*Term
	for _, cl := range lm.Requires {
		req = append(req, ex.evalClause(cl, args, st))
	}
	for _, cl := range lm.Ensures {
		ens = append(ens, ex.evalClause(cl, args, st))
	}
	return ex.c.Implies(ex.c.And(req...), ex.c.And(ens...)), st.facts
}

// strictPart reports whether t is read out of, or lies inside, the memory
// reachable from root: then it denotes a strictly smaller part of a finite,
// acyclic tree.
func strictPart(t, root *Term) bool {
	if strings.HasPrefix(root.op, "box_") {
		root = root.args[0]
	}
	steps := 0
	for {
		if t == root {
			return steps > 0
		}
		switch {
		case strings.HasPrefix(t.op, "ld_"), strings.HasPrefix(t.op, "sub_"), t.op == "seq.nth":
			steps++
			t = t.args[0]
		case t.op == "seq.extract", t.op == "iref", strings.HasPrefix(t.op, "St") && len(t.args) > 0, strings.HasPrefix(t.op, "box_"), strings.HasPrefix(t.op, "unbox_"):
			t = t.args[0]
		case t.op == "iptr":
			t = t.args[1]
		default:
			return false
		}
	}
}
