package main

import (
	"go/token"
	"go/types"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// Strings are sequences of code points. Byte offsets are expressed with
// boff(s,k), the byte offset of the k-th code point, and rlen(r), the number of
// bytes of a code point. (Assumption: strings hold valid UTF-8.)

func (c *Ctx) Rlen(r *Term) *Term {
	if r.isInt() {
		return c.Int(int64(utf8.RuneLen(rune(r.ival))))
	}
	if r.op == "ite" {
		a, b := c.Rlen(r.args[1]), c.Rlen(r.args[2])
		if a == b {
			return a
		}
	}
	return c.App("rlen", SInt, r)
}

// Blen is the byte length of a string.
func (c *Ctx) Blen(s *Term) *Term {
	sum := c.Int(0)
	for _, p := range seqParts(s) {
		switch p.op {
		case "seq.unit":
			sum = c.Add(sum, c.Rlen(p.args[0]))
		case "seq.extract":
			sum = c.Add(sum, c.Sub(c.Boff(p.args[0], c.Add(p.args[1], p.args[2])), c.Boff(p.args[0], p.args[1])))
		default:
			sum = c.Add(sum, c.App("boff", SInt, p, c.Len(p)))
		}
	}
	return sum
}

func asciiLit(s *Term) bool {
	for _, p := range seqParts(s) {
		if p.op != "seq.unit" || !p.args[0].isInt() || p.args[0].ival >= 128 {
			return false
		}
	}
	return true
}

// Boff is the byte offset of code point k of s.
func (c *Ctx) Boff(s, k *Term) *Term {
	if k.isInt() && k.ival == 0 {
		return c.Int(0)
	}
	if asciiLit(s) {
		return k
	}
	if k == c.Len(s) {
		return c.Blen(s)
	}
	if s.op == "seq.extract" {
		return c.Sub(c.Boff(s.args[0], c.Add(s.args[1], k)), c.Boff(s.args[0], s.args[1]))
	}
	if s.op == "seq.++" {
		// Skip whole leading parts.
		sum, rem := c.Int(0), k
		for i, p := range s.args {
			d := c.Sub(rem, c.Len(p))
			if c.Le(c.Int(0), d).isTrue() {
				sum = c.Add(sum, c.Blen(p))
				rem = d
				continue
			}
			if i > 0 {
				return c.Add(sum, c.Boff(c.Concat(s.sort, s.args[i:]...), rem))
			}
			break
		}
	}
	return c.App("boff", SInt, s, k)
}

func (ex *Exec) byteLen(st *State, s *Term) *Term { return ex.c.Blen(s) }

// runeIdx maps a byte offset to the index of a code point boundary.
func (ex *Exec) runeIdx(st *State, s, b *Term, pos token.Pos) *Term {
	c := ex.c
	if asciiLit(s) {
		return b
	}
	if b == c.Blen(s) {
		return c.Len(s)
	}
	base, off := s, c.Int(0)
	if s.op == "seq.extract" {
		base, off = s.args[0], s.args[1]
	}
	rem := c.Add(b, c.Boff(base, off))
	k := c.Int(0)
	// Start from a boff(base, k) summand.
	l := c.toLin(rem)
	for t, co := range l.co {
		if co == 1 && t.op == "boff" && t.args[0] == base {
			k = t.args[1]
			rem = c.Sub(rem, t)
			break
		}
	}
	for n := 0; n < 12; n++ {
		if rem.isInt() && rem.ival == 0 {
			return c.Sub(k, off)
		}
		r := c.Nth(base, k)
		rl := c.Rlen(r)
		l := c.toLin(rem)
		if !rl.isInt() && l.co[rl] > 0 {
			rem = c.Sub(rem, rl)
			k = c.Add(k, c.Int(1))
			continue
		}
		if rl.isInt() && rem.isInt() && rem.ival >= rl.ival {
			rem = c.Sub(rem, rl)
			k = c.Add(k, c.Int(1))
			continue
		}
		if rem.isInt() && rem.ival > 0 || l.k > 0 {
			// One ASCII code point.
			ex.oblige(st, "nopanic", "byte-offset-is-rune-boundary", nil,
				c.And(c.Lt(k, c.Len(base)), c.Lt(r, c.Int(128)), c.Le(c.Int(0), r)), pos)
			rem = c.Sub(rem, c.Int(1))
			k = c.Add(k, c.Int(1))
			continue
		}
		break
	}
	ex.unsupp("byte offset %s of string is not a known rune boundary", b)
	return nil
}

func (ex *Exec) strSlice(st *State, s, lo, hi *Term, pos token.Pos) Value {
	c := ex.c
	s = ex.narrow(st, s)
	kl, kh := c.Int(0), c.Len(s)
	if lo != nil {
		kl = ex.runeIdx(st, s, lo, pos)
	}
	if hi != nil {
		kh = ex.runeIdx(st, s, hi, pos)
	}
	ex.oblige(st, "nopanic", "string-slice-in-range", nil, c.And(c.Le(c.Int(0), kl), c.Le(kl, kh), c.Le(kh, c.Len(s))), pos)
	return c.Extract(s, kl, c.Sub(kh, kl))
}

// byteAt is s[i] for a byte index i.
func (ex *Exec) byteAt(st *State, s, i *Term, pos token.Pos) Value {
	c := ex.c
	ex.oblige(st, "nopanic", "string-index-in-range", nil, c.And(c.Le(c.Int(0), i), c.Lt(i, c.Blen(s))), pos)
	if asciiLit(s) {
		return c.Nth(s, i)
	}
	k := ex.runeIdx(st, s, i, pos)
	r := c.Nth(s, k)
	b := c.App("byte0", SInt, r)
	ex.factOnce(st, c.Ite(c.Lt(r, c.Int(128)), c.Eq(b, r), c.Le(c.Int(128), b)))
	return b
}

// decodeRune models utf8.DecodeRuneInString.
func (ex *Exec) decodeRune(st *State, s *Term, k contFn) {
	c := ex.c
	s = ex.narrow(st, s)
	empty := ex.simp(st, c.Eq(c.Len(s), c.Int(0)))
	if c.Lt(c.Int(0), c.Len(s)).isTrue() {
		empty = c.False
	}
	yes := func(st *State) { k(st, []Value{c.Int(0xFFFD), c.Int(0)}) }
	no := func(st *State) {
		r := c.Nth(s, c.Int(0))
		k(st, []Value{r, c.Rlen(r)})
	}
	if empty.isTrue() {
		yes(st)
		return
	}
	if empty.isFalse() {
		no(st)
		return
	}
	ex.fork(st, empty, yes, no)
}

// fork runs both branches of a condition.
func (ex *Exec) fork(st *State, cond *Term, yes, no func(*State)) {
	cond = ex.simp(st, cond)
	if cond.isTrue() {
		yes(st)
		return
	}
	if cond.isFalse() {
		no(st)
		return
	}
	ex.npath++
	s1 := st.clone()
	s1.conds = append(s1.conds, cond)
	ex.assume(s1, cond)
	yes(s1)
	nc := ex.c.Not(cond)
	s2 := st.clone()
	s2.conds = append(s2.conds, nc)
	ex.assume(s2, nc)
	no(s2)
}

// convert implements ssa.Convert.
func (ex *Exec) convert(fr *frame, st *State, in *ssa.Convert) Value {
	c := ex.c
	x := ex.get(fr, st, in.X)
	from, to := in.X.Type().Underlying(), in.Type().Underlying()
	if bf, ok := from.(*types.Basic); ok {
		if bt, ok := to.(*types.Basic); ok {
			switch {
			case bf.Info()&types.IsInteger != 0 && bt.Info()&types.IsInteger != 0:
				return x // mathematical integers
			case bf.Info()&types.IsString != 0 && bt.Info()&types.IsString != 0:
				return x
			case bf.Info()&types.IsInteger != 0 && bt.Info()&types.IsString != 0:
				return c.Unit(ex.toTerm(st, x, in.X.Type()))
			}
		}
		if sl, ok := to.(*types.Slice); ok && bf.Info()&types.IsString != 0 {
			if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Int32 {
				seq := ex.toTerm(st, x, in.X.Type())
				o := ex.newObj(st, &Obj{kind: oArray, typ: sl.Elem(), seq: seq, fresh: true})
				return &LSlice{obj: o.id, off: c.Int(0), len: c.Len(seq), elem: sl.Elem()}
			}
			if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
				return ex.bytesOf(st, ex.toTerm(st, x, in.X.Type()))
			}
		}
	}
	if sl, ok := from.(*types.Slice); ok {
		if bt, ok := to.(*types.Basic); ok && bt.Info()&types.IsString != 0 {
			if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Int32 {
				return ex.sliceSeq(st, x)
			}
			return ex.c.App("string_of_bytes", SStr, ex.sliceSeq(st, x))
		}
	}
	ex.unsupp("conversion %s to %s", in.X.Type(), in.Type())
	return nil
}

func (ex *Exec) bytesOf(st *State, s *Term) Value {
	t := ex.c.App("bytes_of_string", SStr, s)
	return ex.c.MkSlice(ex.c.False, t)
}

func (ex *Exec) mkRange(fr *frame, st *State, in *ssa.Range) Value {
	if isString(in.X.Type()) {
		s := ex.term(fr, st, in.X)
		o := ex.newObj(st, &Obj{kind: oIter, pos: ex.c.Int(0), str: s})
		return &IterVal{obj: o.id, str: s}
	}
	v := ex.get(fr, st, in.X)
	o := ex.newObj(st, &Obj{kind: oIter, pos: ex.c.Int(0)})
	return &IterVal{obj: o.id, mapv: v}
}

func (ex *Exec) next(fr *frame, st *State, in *ssa.Next) Value {
	c := ex.c
	it := ex.get(fr, st, in.Iter).(*IterVal)
	o := *st.objs[it.obj]
	if it.str == nil {
		return ex.nextMap(fr, st, in, it)
	}
	p := o.pos
	ok := ex.simp(st, c.Lt(p, c.Len(it.str)))
	o.pos = c.Add(p, c.Int(1))
	st.objs[it.obj] = &o
	return Tuple{ok, c.Boff(it.str, p), c.Nth(it.str, p)}
}

// containsRune is strings.ContainsRune.
func (ex *Exec) containsRune(s, r *Term) *Term {
	c := ex.c
	var alts []*Term
	for _, p := range seqParts(s) {
		switch p.op {
		case "seq.unit":
			alts = append(alts, c.Eq(p.args[0], r))
		default:
			alts = append(alts, c.App("contains_rune", SBool, p, r))
		}
	}
	return c.Or(alts...)
}

func litString(t *Term) (string, bool) {
	var b strings.Builder
	for _, p := range seqParts(t) {
		if p.op != "seq.unit" || !p.args[0].isInt() {
			return "", false
		}
		b.WriteRune(rune(p.args[0].ival))
	}
	return b.String(), true
}

// indexAny is strings.IndexAny: forks on whether a member occurs.
func (ex *Exec) indexAny(st *State, s, chars *Term, k contFn) {
	c := ex.c
	ex.nbound++
	bv := c.Bound(ex.nbound, SInt)
	// k0 is a function of s and chars, so that specifications agree with code.
	k0 := c.App("first_any", SInt, s, chars)
	has := c.App("has_any", SBool, s, chars)
	ex.factOnce(st, c.Implies(has, c.And(c.Le(c.Int(0), k0), c.Lt(k0, c.Len(s)), ex.containsRune(chars, c.Nth(s, k0)))))
	ex.factOnce(st, c.Implies(has, c.Forall([]*Term{bv}, c.Implies(c.And(c.Le(c.Int(0), bv), c.Lt(bv, k0)), c.Not(ex.containsRune(chars, c.Nth(s, bv)))))))
	ex.factOnce(st, c.Or(has, c.Forall([]*Term{bv}, c.Implies(c.And(c.Le(c.Int(0), bv), c.Lt(bv, c.Len(s))), c.Not(ex.containsRune(chars, c.Nth(s, bv)))))))
	ex.fork(st, has, func(st *State) { k(st, []Value{c.Boff(s, k0)}) }, func(st *State) { k(st, []Value{c.Int(-1)}) })
}
