package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

// Sort is an SMT sort, named by its SMT-LIB text.
type Sort string

const (
	SBool  Sort = "Bool"
	SInt   Sort = "Int"
	SRef   Sort = "Ref"
	SIface Sort = "Iface"
	SStr   Sort = "(Seq Int)"
	SFn    Sort = "Fn"
)

func SeqOf(s Sort) Sort { return Sort("(Seq " + string(s) + ")") }
func (s Sort) IsSeq() bool {
	return strings.HasPrefix(string(s), "(Seq ")
}
func (s Sort) Elem() Sort { return Sort(string(s)[5 : len(s)-1]) }

// Term is a hash-consed SMT term.
type Term struct {
	id   int
	op   string // SMT operator, constant symbol, or literal
	args []*Term
	sort Sort
	// kind distinguishes special leaves.
	kind termKind
	ival int64
	bvs  []*Term // bound variables of a quantifier
	hasB bool    // contains a bound variable
}

type termKind int

const (
	kApp termKind = iota
	kInt          // integer literal
	kTrue
	kFalse
	kBound // bound variable
	kForall
)

type funDecl struct {
	name string
	args []Sort
	ret  Sort
}

// structSort describes a datatype for a Go struct.
type structSort struct {
	name   Sort
	fields []Sort
	key    string
}

// Ctx is the term manager.
type Ctx struct {
	table    map[string]*Term
	nextID   int
	funs     map[string]*funDecl
	structs  map[string]*structSort // by key
	bySort   map[Sort]*structSort
	slices   map[Sort]Sort // elem sort -> slice sort
	sliceEl  map[Sort]Sort
	order    []Sort // datatype declaration order
	True     *Term
	False    *Term
	Null     *Term
	Inil     *Term
	fresh    int
	uninterp map[Sort]bool
	lens     map[*Term]*Term // lengths of fresh sequences, when fixed
	// foldHook lets the spec layer simplify fold applications.
	foldHook func(c *Ctx, op string, ret Sort, args []*Term) *Term
}

func NewCtx() *Ctx {
	c := &Ctx{
		table:    map[string]*Term{},
		funs:     map[string]*funDecl{},
		structs:  map[string]*structSort{},
		bySort:   map[Sort]*structSort{},
		slices:   map[Sort]Sort{},
		sliceEl:  map[Sort]Sort{},
		uninterp: map[Sort]bool{},
		lens:     map[*Term]*Term{},
	}
	c.True = c.mk(kTrue, "true", SBool, 0)
	c.False = c.mk(kFalse, "false", SBool, 0)
	c.Null = c.App("null", SRef)
	c.Inil = c.mk(kApp, "inil", SIface, 0)
	return c
}

func (c *Ctx) mk(kind termKind, op string, sort Sort, iv int64, args ...*Term) *Term {
	var b strings.Builder
	b.WriteString(strconv.Itoa(int(kind)))
	b.WriteByte('|')
	b.WriteString(op)
	b.WriteByte('|')
	b.WriteString(string(sort))
	if kind == kInt || kind == kBound {
		b.WriteByte('#')
		b.WriteString(strconv.FormatInt(iv, 10))
	}
	hasB := kind == kBound
	for _, a := range args {
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(a.id))
		if a.hasB {
			hasB = true
		}
	}
	k := b.String()
	if t, ok := c.table[k]; ok {
		return t
	}
	t := &Term{id: c.nextID, op: op, args: args, sort: sort, kind: kind, ival: iv, hasB: hasB}
	c.nextID++
	c.table[k] = t
	return t
}

// App makes an application of a declared uninterpreted function (or constant).
func (c *Ctx) App(name string, ret Sort, args ...*Term) *Term {
	if _, ok := c.funs[name]; !ok {
		d := &funDecl{name: name, ret: ret}
		for _, a := range args {
			d.args = append(d.args, a.sort)
		}
		c.funs[name] = d
	} else {
		d := c.funs[name]
		if len(d.args) != len(args) || d.ret != ret {
			panic(fmt.Sprintf("redeclared %s: %v %s vs %d %s", name, d.args, d.ret, len(args), ret))
		}
		for i, a := range args {
			if a.sort != d.args[i] {
				panic(fmt.Sprintf("%s arg %d: sort %s want %s", name, i, a.sort, d.args[i]))
			}
		}
	}
	return c.mk(kApp, name, ret, 0, args...)
}

// Fresh makes a fresh constant.
func (c *Ctx) Fresh(prefix string, s Sort) *Term {
	c.fresh++
	return c.App(fmt.Sprintf("%s!%d", sanitize(prefix), c.fresh), s)
}

func sanitize(s string) string {
	var b strings.Builder
	for _, r := range s {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' || r == '.' || r == '!' {
			b.WriteRune(r)
		} else {
			b.WriteByte('_')
		}
	}
	if b.Len() == 0 {
		return "x"
	}
	return b.String()
}

func (c *Ctx) Bound(n int, s Sort) *Term { return c.mk(kBound, fmt.Sprintf("bv%d", n), s, int64(n)) }

func (c *Ctx) Int(i int64) *Term { return c.mk(kInt, "", SInt, i) }
func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.True
	}
	return c.False
}

func (t *Term) isInt() bool   { return t.kind == kInt }
func (t *Term) isTrue() bool  { return t.kind == kTrue }
func (t *Term) isFalse() bool { return t.kind == kFalse }
func (t *Term) isLit() bool {
	return t.kind == kInt || t.kind == kTrue || t.kind == kFalse
}

func (c *Ctx) Not(a *Term) *Term {
	switch {
	case a.isTrue():
		return c.False
	case a.isFalse():
		return c.True
	case a.op == "not":
		return a.args[0]
	}
	return c.mk(kApp, "not", SBool, 0, a)
}

func (c *Ctx) And(xs ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(x *Term) bool
	add = func(x *Term) bool {
		if x.isFalse() {
			return false
		}
		if x.isTrue() || seen[x] {
			return true
		}
		if x.op == "and" && x.kind == kApp {
			for _, y := range x.args {
				if !add(y) {
					return false
				}
			}
			return true
		}
		if seen[c.Not(x)] {
			return false
		}
		seen[x] = true
		out = append(out, x)
		return true
	}
	for _, x := range xs {
		if !add(x) {
			return c.False
		}
	}
	switch len(out) {
	case 0:
		return c.True
	case 1:
		return out[0]
	}
	return c.mk(kApp, "and", SBool, 0, out...)
}

func (c *Ctx) Or(xs ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, x := range xs {
		if x.isTrue() {
			return c.True
		}
		if x.isFalse() || seen[x] {
			continue
		}
		if x.op == "or" && x.kind == kApp {
			for _, y := range x.args {
				if !seen[y] {
					seen[y] = true
					out = append(out, y)
				}
			}
			continue
		}
		if seen[c.Not(x)] {
			return c.True
		}
		seen[x] = true
		out = append(out, x)
	}
	switch len(out) {
	case 0:
		return c.False
	case 1:
		return out[0]
	}
	return c.mk(kApp, "or", SBool, 0, out...)
}

func (c *Ctx) Implies(a, b *Term) *Term {
	if a.isTrue() {
		return b
	}
	if a.isFalse() || b.isTrue() {
		return c.True
	}
	if b.isFalse() {
		return c.Not(a)
	}
	return c.mk(kApp, "=>", SBool, 0, a, b)
}

func (c *Ctx) Ite(p, a, b *Term) *Term {
	if p.isTrue() || a == b {
		return a
	}
	if p.isFalse() {
		return b
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("ite sorts %s %s: %s / %s", a.sort, b.sort, a, b))
	}
	if a.sort == SBool {
		if a.isTrue() {
			return c.Or(p, b)
		}
		if a.isFalse() {
			return c.And(c.Not(p), b)
		}
		if b.isTrue() {
			return c.Or(c.Not(p), a)
		}
		if b.isFalse() {
			return c.And(p, a)
		}
	}
	if p.op == "not" {
		return c.Ite(p.args[0], b, a)
	}
	return c.mk(kApp, "ite", a.sort, 0, p, a, b)
}

// isCtor returns whether the term is headed by a datatype constructor.
func (c *Ctx) isCtor(t *Term) bool {
	if t.kind != kApp {
		return false
	}
	return t.op == "inil" || t.op == "iptr" || strings.HasPrefix(t.op, "mk_")
}

func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.True
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("eq sorts %s %s: %s = %s", a.sort, b.sort, a, b))
	}
	if a.isLit() && b.isLit() {
		return c.False
	}
	if a.sort == SBool {
		if a.isTrue() {
			return b
		}
		if b.isTrue() {
			return a
		}
		if a.isFalse() {
			return c.Not(b)
		}
		if b.isFalse() {
			return c.Not(a)
		}
	}
	if c.isCtor(a) && c.isCtor(b) {
		if a.op != b.op {
			return c.False
		}
		var cs []*Term
		for i := range a.args {
			cs = append(cs, c.Eq(a.args[i], b.args[i]))
		}
		return c.And(cs...)
	}
	if a.sort == SIface {
		if a.op == "inil" {
			a, b = b, a
		}
		if b.op == "inil" && a.op == "ite" {
			return c.Ite(a.args[0], c.Eq(a.args[1], b), c.Eq(a.args[2], b))
		}
	}
	if a.op == "ite" && (b.isLit() || c.isCtor(b)) && len(a.args) == 3 {
		x, y := c.Eq(a.args[1], b), c.Eq(a.args[2], b)
		if x.isLit() || y.isLit() {
			return c.Ite(a.args[0], x, y)
		}
	}
	if b.op == "ite" && (a.isLit() || c.isCtor(a)) && len(b.args) == 3 {
		x, y := c.Eq(b.args[1], a), c.Eq(b.args[2], a)
		if x.isLit() || y.isLit() {
			return c.Ite(b.args[0], x, y)
		}
	}
	if a.sort.IsSeq() {
		if r := c.seqEqSimp(a, b); r != nil {
			return r
		}
	}
	if a.sort == SInt {
		d := c.Sub(a, b)
		if d.isInt() {
			return c.Bool(d.ival == 0)
		}
	}
	if a.sort == SRef {
		// Distinct allocations, null, and interior pointers with distinct field paths.
		if r := c.refDistinct(a, b); r {
			return c.False
		}
		if a.op == b.op && strings.HasPrefix(a.op, "sub_") {
			return c.Eq(a.args[0], b.args[0])
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(kApp, "=", SBool, 0, a, b)
}

func (c *Ctx) refDistinct(a, b *Term) bool {
	an, bn := a.op == "null", b.op == "null"
	aAl, bAl := strings.HasPrefix(a.op, "new!"), strings.HasPrefix(b.op, "new!")
	aSub, bSub := strings.HasPrefix(a.op, "sub_"), strings.HasPrefix(b.op, "sub_")
	aBox, bBox := strings.HasPrefix(a.op, "box_"), strings.HasPrefix(b.op, "box_")
	if an && (bAl || bSub || bBox) || bn && (aAl || aSub || aBox) {
		return true
	}
	if aAl && bAl {
		return true // a != b already
	}
	_ = bSub
	return false
}

// ---- integer arithmetic, in linear normal form ----

type lin struct {
	k  int64
	co map[*Term]int64
}

func (c *Ctx) toLin(t *Term) lin {
	l := lin{co: map[*Term]int64{}}
	c.addLin(&l, t, 1)
	return l
}

func (c *Ctx) addLin(l *lin, t *Term, m int64) {
	switch {
	case t.isInt():
		l.k += m * t.ival
	case t.kind == kApp && t.op == "+":
		for _, a := range t.args {
			c.addLin(l, a, m)
		}
	case t.kind == kApp && t.op == "*" && t.args[0].isInt():
		c.addLin(l, t.args[1], m*t.args[0].ival)
	default:
		l.co[t] += m
		if l.co[t] == 0 {
			delete(l.co, t)
		}
	}
}

func (c *Ctx) fromLin(l lin) *Term {
	var ts []*Term
	for t := range l.co {
		ts = append(ts, t)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	var out []*Term
	for _, t := range ts {
		if k := l.co[t]; k == 1 {
			out = append(out, t)
		} else {
			out = append(out, c.mk(kApp, "*", SInt, 0, c.Int(k), t))
		}
	}
	if l.k != 0 || len(out) == 0 {
		out = append(out, c.Int(l.k))
	}
	if len(out) == 1 {
		return out[0]
	}
	return c.mk(kApp, "+", SInt, 0, out...)
}

func (c *Ctx) Add(a, b *Term) *Term {
	l := c.toLin(a)
	c.addLin(&l, b, 1)
	return c.fromLin(l)
}
func (c *Ctx) Sub(a, b *Term) *Term {
	l := c.toLin(a)
	c.addLin(&l, b, -1)
	return c.fromLin(l)
}
func (c *Ctx) Mul(a, b *Term) *Term {
	if b.isInt() {
		a, b = b, a
	}
	if a.isInt() {
		l := lin{co: map[*Term]int64{}}
		c.addLin(&l, b, a.ival)
		return c.fromLin(l)
	}
	return c.mk(kApp, "*", SInt, 0, a, b)
}
func (c *Ctx) Le(a, b *Term) *Term {
	d := c.Sub(a, b)
	if d.isInt() {
		return c.Bool(d.ival <= 0)
	}
	// 0 <= len(..)+k
	l := c.toLin(d)
	allneg := true
	for t, k := range l.co {
		if !(k < 0 && t.op == "seq.len") {
			allneg = false
		}
	}
	if allneg && l.k <= 0 {
		return c.True
	}
	allpos := true
	for t, k := range l.co {
		if !(k > 0 && t.op == "seq.len") {
			allpos = false
		}
	}
	if allpos && l.k > 0 {
		return c.False
	}
	return c.mk(kApp, "<=", SBool, 0, a, b)
}
func (c *Ctx) Lt(a, b *Term) *Term { return c.Le(c.Add(a, c.Int(1)), b) }

func (c *Ctx) Mod(a, b *Term) *Term {
	if a.isInt() && b.isInt() && b.ival > 0 && a.ival >= 0 {
		return c.Int(a.ival % b.ival)
	}
	return c.mk(kApp, "mod", SInt, 0, a, b)
}
func (c *Ctx) Div(a, b *Term) *Term {
	if a.isInt() && b.isInt() && b.ival > 0 && a.ival >= 0 {
		return c.Int(a.ival / b.ival)
	}
	return c.mk(kApp, "div", SInt, 0, a, b)
}

// ---- sequences ----

func (c *Ctx) Empty(s Sort) *Term { return c.mk(kApp, "seq.empty", s, 0) }
func (c *Ctx) Unit(t *Term) *Term { return c.mk(kApp, "seq.unit", SeqOf(t.sort), 0, t) }

func (c *Ctx) StrLit(s string) *Term {
	var us []*Term
	for _, r := range s {
		us = append(us, c.Unit(c.Int(int64(r))))
	}
	return c.Concat(SStr, us...)
}

func (c *Ctx) Concat(s Sort, xs ...*Term) *Term {
	var out []*Term
	for _, x := range xs {
		if x.sort != s {
			panic(fmt.Sprintf("concat sort %s want %s", x.sort, s))
		}
		switch x.op {
		case "seq.empty":
		case "seq.++":
			for _, y := range x.args {
				out = c.pushSeq(out, y)
			}
		default:
			out = c.pushSeq(out, x)
		}
	}
	switch len(out) {
	case 0:
		return c.Empty(s)
	case 1:
		return out[0]
	}
	return c.mk(kApp, "seq.++", s, 0, out...)
}

// pushSeq appends y, merging adjacent extracts of the same sequence.
func (c *Ctx) pushSeq(out []*Term, y *Term) []*Term {
	if n := len(out); n > 0 {
		p := out[n-1]
		if p.op == "seq.extract" && y.op == "seq.extract" && p.args[0] == y.args[0] &&
			c.Add(p.args[1], p.args[2]) == y.args[1] {
			m := c.extractRaw(p.args[0], p.args[1], c.Add(p.args[2], y.args[2]))
			return append(out[:n-1:n-1], m)
		}
		if p.op == "seq.extract" && y.op == "seq.unit" && y.args[0].op == "seq.nth" &&
			y.args[0].args[0] == p.args[0] && c.Add(p.args[1], p.args[2]) == y.args[0].args[1] {
			// keep separate: merging requires range knowledge.
			_ = p
		}
	}
	return append(out, y)
}

// seqParts returns the concatenation components.
func seqParts(t *Term) []*Term {
	switch t.op {
	case "seq.++":
		return t.args
	case "seq.empty":
		return nil
	}
	return []*Term{t}
}

func (c *Ctx) Len(t *Term) *Term {
	switch t.op {
	case "seq.empty":
		return c.Int(0)
	case "seq.unit":
		return c.Int(1)
	case "seq.++":
		s := c.Int(0)
		for _, a := range t.args {
			s = c.Add(s, c.Len(a))
		}
		return s
	case "seq.extract":
		// extracts are only built with in-range arguments (checked by obligations)
		return t.args[2]
	case "ite":
		a, b := c.Len(t.args[1]), c.Len(t.args[2])
		if a == b {
			return a
		}
		return c.Ite(t.args[0], a, b)
	}
	if strings.HasPrefix(t.op, "zeros_") {
		return t.args[0]
	}
	if n := c.lens[t]; n != nil {
		return n
	}
	return c.mk(kApp, "seq.len", SInt, 0, t)
}

func (c *Ctx) Nth(t, i *Term) *Term {
	switch t.op {
	case "seq.unit":
		if i.isInt() && i.ival == 0 {
			return t.args[0]
		}
	case "seq.++":
		rem := i
		for k, a := range t.args {
			d := c.Sub(rem, c.Len(a))
			if a.op == "seq.unit" && rem.isInt() && rem.ival == 0 {
				return a.args[0]
			}
			if c.Le(c.Int(0), d).isTrue() {
				rem = d
				continue
			}
			if c.Le(c.Add(d, c.Int(1)), c.Int(0)).isTrue() {
				if k == 0 && a == t {
					break
				}
				return c.Nth(a, rem)
			}
			break
		}
	case "seq.extract":
		return c.Nth(t.args[0], c.Add(t.args[1], i))
	case "ite":
		return c.Ite(t.args[0], c.Nth(t.args[1], i), c.Nth(t.args[2], i))
	}
	return c.mk(kApp, "seq.nth", t.sort.Elem(), 0, t, i)
}

// Extract is t[off : off+n]; callers must ensure 0<=off, 0<=n, off+n<=len(t).
func (c *Ctx) Extract(t, off, n *Term) *Term {
	if n.isInt() && n.ival == 0 {
		return c.Empty(t.sort)
	}
	if off.isInt() && off.ival == 0 && n == c.Len(t) {
		return t
	}
	if t.op == "seq.extract" {
		return c.Extract(t.args[0], c.Add(t.args[1], off), n)
	}
	if t.op == "ite" && len(t.args) == 3 {
		return c.Ite(t.args[0], c.Extract(t.args[1], off, n), c.Extract(t.args[2], off, n))
	}
	if t.op == "seq.++" {
		// Drop leading parts wholly before off.
		parts := t.args
		o := off
		for len(parts) > 0 {
			l := c.Len(parts[0])
			d := c.Sub(o, l)
			if c.Le(c.Int(0), d).isTrue() {
				o = d
				parts = parts[1:]
				continue
			}
			break
		}
		if o.isInt() && o.ival == 0 {
			// Take whole leading parts.
			var out []*Term
			rem := n
			for len(parts) > 0 {
				l := c.Len(parts[0])
				d := c.Sub(rem, l)
				if c.Le(c.Int(0), d).isTrue() {
					out = append(out, parts[0])
					rem = d
					parts = parts[1:]
					continue
				}
				break
			}
			if rem.isInt() && rem.ival == 0 {
				return c.Concat(t.sort, out...)
			}
			rest := c.Concat(t.sort, parts...)
			if len(out) > 0 {
				return c.Concat(t.sort, append(out, c.Extract(rest, c.Int(0), rem))...)
			}
			if len(parts) < len(t.args) {
				return c.Extract(rest, c.Int(0), rem)
			}
			if len(parts) > 0 && c.Le(rem, c.Len(parts[0])).isTrue() {
				return c.Extract(parts[0], c.Int(0), rem)
			}
		} else if len(parts) < len(t.args) {
			return c.Extract(c.Concat(t.sort, parts...), o, n)
		} else if len(parts) > 0 && c.Le(c.Add(o, n), c.Len(parts[0])).isTrue() {
			return c.Extract(parts[0], o, n)
		} else if len(parts) > 0 && parts[0].op == "seq.extract" || len(parts) > 0 {
			// Split across the first part when it surely overlaps: o <= len(first) <= o+n.
			l := c.Len(parts[0])
			if c.Le(o, l).isTrue() && c.Le(l, c.Add(o, n)).isTrue() && len(parts) > 1 {
				first := c.Extract(parts[0], o, c.Sub(l, o))
				restN := c.Sub(c.Add(o, n), l)
				rest := c.Extract(c.Concat(t.sort, parts[1:]...), c.Int(0), restN)
				return c.Concat(t.sort, first, rest)
			}
		}
	}
	return c.extractRaw(t, off, n)
}

func (c *Ctx) extractRaw(t, off, n *Term) *Term {
	if off.isInt() && off.ival == 0 && n == c.Len(t) {
		return t
	}
	return c.mk(kApp, "seq.extract", t.sort, 0, t, off, n)
}

// seqEqSimp strips common prefixes and suffixes, and decides literal mismatches.
func (c *Ctx) seqEqSimp(a, b *Term) *Term {
	pa, pb := seqParts(a), seqParts(b)
	n0, m0 := len(pa), len(pb)
	for len(pa) > 0 && len(pb) > 0 && pa[0] == pb[0] {
		pa, pb = pa[1:], pb[1:]
	}
	for len(pa) > 0 && len(pb) > 0 && pa[len(pa)-1] == pb[len(pb)-1] {
		pa, pb = pa[:len(pa)-1], pb[:len(pb)-1]
	}
	// Literal mismatch at either end.
	if len(pa) > 0 && len(pb) > 0 {
		if pa[0].op == "seq.unit" && pb[0].op == "seq.unit" && c.Eq(pa[0].args[0], pb[0].args[0]).isFalse() {
			return c.False
		}
		if x, y := pa[len(pa)-1], pb[len(pb)-1]; x.op == "seq.unit" && y.op == "seq.unit" && c.Eq(x.args[0], y.args[0]).isFalse() {
			return c.False
		}
	}
	if len(pa) == 0 && len(pb) == 0 {
		return c.True
	}
	if len(pa) == 0 || len(pb) == 0 {
		rest := pa
		if len(pa) == 0 {
			rest = pb
		}
		for _, r := range rest {
			if r.op == "seq.unit" {
				return c.False
			}
		}
	}
	if len(pa) == 1 && len(pb) == 1 && pa[0].op == "seq.unit" && pb[0].op == "seq.unit" {
		return c.Eq(pa[0].args[0], pb[0].args[0])
	}
	// all-units on both sides
	if len(pa) != n0 || len(pb) != m0 {
		x, y := c.Concat(a.sort, pa...), c.Concat(a.sort, pb...)
		if x.id > y.id {
			x, y = y, x
		}
		return c.mk(kApp, "=", SBool, 0, x, y)
	}
	return nil
}

// ---- datatypes ----

// StructSort returns the datatype sort for a struct key.
func (c *Ctx) StructSort(key string, fields []Sort) Sort {
	if s, ok := c.structs[key]; ok {
		return s.name
	}
	s := &structSort{name: Sort(fmt.Sprintf("St%d", len(c.structs))), fields: fields, key: key}
	c.structs[key] = s
	c.bySort[s.name] = s
	c.order = append(c.order, s.name)
	return s.name
}

func (c *Ctx) MkStruct(s Sort, fs ...*Term) *Term {
	d := c.bySort[s]
	if d == nil || len(d.fields) != len(fs) {
		panic("bad struct " + string(s))
	}
	for i, f := range fs {
		if f.sort != d.fields[i] {
			panic(fmt.Sprintf("struct %s field %d sort %s want %s", s, i, f.sort, d.fields[i]))
		}
	}
	return c.mk(kApp, "mk_"+string(s), s, 0, fs...)
}

func (c *Ctx) Sel(t *Term, i int) *Term {
	d := c.bySort[t.sort]
	if d == nil {
		panic("sel on " + string(t.sort))
	}
	if t.op == "mk_"+string(t.sort) {
		return t.args[i]
	}
	if t.op == "ite" {
		return c.Ite(t.args[0], c.Sel(t.args[1], i), c.Sel(t.args[2], i))
	}
	return c.mk(kApp, fmt.Sprintf("%s_%d", t.sort, i), d.fields[i], 0, t)
}

// SliceSort is a (isnil, seq) pair.
func (c *Ctx) SliceSort(elem Sort) Sort {
	if s, ok := c.slices[elem]; ok {
		return s
	}
	s := c.StructSort("slice:"+string(elem), []Sort{SBool, SeqOf(elem)})
	c.slices[elem] = s
	c.sliceEl[s] = elem
	return s
}

func (c *Ctx) MkSlice(isnil, seq *Term) *Term {
	return c.MkStruct(c.SliceSort(seq.sort.Elem()), isnil, seq)
}
func (c *Ctx) SeqOfSlice(t *Term) *Term { return c.Sel(t, 1) }
func (c *Ctx) IsNilSlice(t *Term) *Term { return c.Sel(t, 0) }

// Interfaces.
func (c *Ctx) Iptr(tag, ref *Term) *Term {
	if tag.op == "itag" && ref.op == "iref" && tag.args[0] == ref.args[0] {
		// only valid when not inil; callers know
	}
	return c.mk(kApp, "iptr", SIface, 0, tag, ref)
}
func (c *Ctx) Tag(t *Term) *Term { // only meaningful when not inil
	switch t.op {
	case "iptr":
		return t.args[0]
	case "inil":
		return c.Int(-1)
	case "ite":
		return c.Ite(t.args[0], c.Tag(t.args[1]), c.Tag(t.args[2]))
	}
	return c.mk(kApp, "itag", SInt, 0, t)
}
func (c *Ctx) IRef(t *Term) *Term {
	switch t.op {
	case "iptr":
		return t.args[1]
	case "inil":
		return c.Null
	case "ite":
		return c.Ite(t.args[0], c.IRef(t.args[1]), c.IRef(t.args[2]))
	}
	return c.mk(kApp, "iref", SRef, 0, t)
}
func (c *Ctx) IsNilIface(t *Term) *Term { return c.Eq(t, c.Inil) }

// HasTag is "t is non-nil with dynamic type tag".
func (c *Ctx) HasTag(t *Term, tag int64) *Term {
	switch t.op {
	case "iptr":
		return c.Eq(t.args[0], c.Int(tag))
	case "inil":
		return c.False
	case "ite":
		return c.Ite(t.args[0], c.HasTag(t.args[1], tag), c.HasTag(t.args[2], tag))
	}
	// itag(inil) is axiomatised as -1, so a tag test implies non-nil.
	return c.Eq(c.Tag(t), c.Int(tag))
}

func (c *Ctx) Forall(bvs []*Term, body *Term) *Term {
	if body.isTrue() {
		return body
	}
	if body.isFalse() {
		return body
	}
	var used []*Term
	for _, b := range bvs {
		if contains(body, b) {
			used = append(used, b)
		}
	}
	if len(used) == 0 {
		return body
	}
	var names []string
	for _, b := range used {
		names = append(names, fmt.Sprintf("(%s %s)", b.op, b.sort))
	}
	t := c.mk(kForall, "forall ("+strings.Join(names, " ")+")", SBool, 0, body)
	t.bvs = used
	t.hasB = freeBound(body, used)
	return t
}

// freeBound reports whether t mentions a bound variable not in bvs.
func freeBound(t *Term, bvs []*Term) bool {
	if !t.hasB {
		return false
	}
	if t.kind == kBound {
		for _, b := range bvs {
			if b == t {
				return false
			}
		}
		return true
	}
	if t.kind == kForall {
		bvs = append(append([]*Term{}, bvs...), t.bvs...)
	}
	for _, a := range t.args {
		if freeBound(a, bvs) {
			return true
		}
	}
	return false
}

func contains(t, x *Term) bool {
	if t == x {
		return true
	}
	if !t.hasB && x.kind == kBound {
		return false
	}
	for _, a := range t.args {
		if contains(a, x) {
			return true
		}
	}
	return false
}

// Subst rebuilds t with replacements, re-running simplification.
func (c *Ctx) Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		args := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			args[i] = rec(a)
			if args[i] != a {
				ch = true
			}
		}
		r := t
		if ch {
			r = c.Rebuild(t, args)
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

// Rebuild constructs the same operator over new args, with simplification.
func (c *Ctx) Rebuild(t *Term, args []*Term) *Term {
	switch t.op {
	case "not":
		return c.Not(args[0])
	case "and":
		return c.And(args...)
	case "or":
		return c.Or(args...)
	case "=>":
		return c.Implies(args[0], args[1])
	case "ite":
		return c.Ite(args[0], args[1], args[2])
	case "=":
		return c.Eq(args[0], args[1])
	case "+":
		s := c.Int(0)
		for _, a := range args {
			s = c.Add(s, a)
		}
		return s
	case "*":
		return c.Mul(args[0], args[1])
	case "<=":
		return c.Le(args[0], args[1])
	case "mod":
		return c.Mod(args[0], args[1])
	case "div":
		return c.Div(args[0], args[1])
	case "seq.++":
		return c.Concat(t.sort, args...)
	case "seq.len":
		return c.Len(args[0])
	case "seq.nth":
		return c.Nth(args[0], args[1])
	case "seq.extract":
		return c.Extract(args[0], args[1], args[2])
	case "select":
		return c.Select(args[0], args[1])
	case "store":
		return c.StoreArr(args[0], args[1], args[2])
	case "itag":
		return c.Tag(args[0])
	case "iref":
		return c.IRef(args[0])
	}
	if t.kind == kForall {
		return c.Forall(t.bvs, args[0])
	}
	if strings.HasPrefix(t.op, "St") {
		if i := strings.LastIndexByte(t.op, '_'); i > 0 {
			if d := c.bySort[Sort(t.op[:i])]; d != nil && len(args) == 1 {
				n, _ := strconv.Atoi(t.op[i+1:])
				return c.Sel(args[0], n)
			}
		}
	}
	if strings.HasPrefix(t.op, "unbox_") && args[0].op == "box_"+t.op[6:] {
		return args[0].args[0]
	}
	if c.foldHook != nil {
		if r := c.foldHook(c, t.op, t.sort, args); r != nil {
			return r
		}
	}
	return c.mk(t.kind, t.op, t.sort, t.ival, args...)
}

// ---- printing ----

func (t *Term) String() string {
	var b strings.Builder
	t.write(&b, nil)
	s := b.String()
	if len(s) > 4000 {
		s = s[:4000] + "..."
	}
	return s
}

func (t *Term) head(b *strings.Builder) {
	switch {
	case t.op == "seq.empty":
		fmt.Fprintf(b, "(as seq.empty %s)", t.sort)
	case t.kind == kInt:
		if t.ival < 0 {
			fmt.Fprintf(b, "(- %d)", -t.ival)
		} else {
			fmt.Fprintf(b, "%d", t.ival)
		}
	default:
		b.WriteString(t.op)
	}
}

// write prints the term; names maps shared subterms to let-bound names.
func (t *Term) write(b *strings.Builder, names map[*Term]string) {
	if names != nil {
		if n, ok := names[t]; ok {
			b.WriteString(n)
			return
		}
	}
	t.writeBody(b, names)
}

func (t *Term) writeBody(b *strings.Builder, names map[*Term]string) {
	if len(t.args) == 0 {
		t.head(b)
		return
	}
	b.WriteByte('(')
	t.head(b)
	for _, a := range t.args {
		b.WriteByte(' ')
		a.write(b, names)
	}
	b.WriteByte(')')
}
