package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Exec is the symbolic executor for one verification unit.
type Exec struct {
	byName      bool // placeholders stand for variables of their name
	named       bool // and some did
	w           *World
	c           *Ctx
	tt          *TypeTab
	obls        []*Obligation
	spec        int // >0 while evaluating specification code
	dry         int // >0 while exploring loops without recording obligations
	unit        string
	root        *ssa.Function
	rootC       *Contract
	guardUnit   bool
	depth       int
	nobj        int
	npath       int
	maxPath     int
	unsupported map[string]bool
	// definitional axioms for recursive spec functions
	defs       map[*Term]bool
	solver     *Solver
	invNotes   []string
	houdini    map[string]bool
	inlined    map[string]bool
	used       map[string]bool // contracts relied upon
	assumed    map[string]bool // modelled library functions relied upon
	curInvs    []*Clause
	curArgs    []Value
	curOld     []Value
	retCount   int
	loopDepth  int
	late       map[string]bool
	aborted    string
	specOps    map[string]*specInfo
	factSink   *[]*Term
	nbound     int
	unfoldErr  map[string]bool
	entryGhost map[string]*Term
	lemmas     map[string][]*Contract
	inductArg  *Term
}

// Obligation is a proof obligation.
type Obligation struct {
	Name  string
	Kind  string
	Unit  string
	Props []string
	facts []*Term
	lits  map[*Term]bool
	tags  map[*Term]int64
	goal  *Term
	Trail string
	Pos   string
	// result
	Status  string
	Solver  string
	Time    float64
	Output  string
	vacuity bool
	query   string
}

type frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]Value
	defers []func(st *State, k func(*State))
	loops  map[*ssa.BasicBlock]*activeLoop
	unroll map[*ssa.BasicBlock]int
	parent *frame
}

type activeLoop struct {
	dryStop bool
	li      *loopInfo
	onBack  func(st *State, fr *frame, from *ssa.BasicBlock)
}

func (f *frame) clone() *frame {
	n := &frame{fn: f.fn, parent: f.parent}
	n.env = make(map[ssa.Value]Value, len(f.env)+4)
	for k, v := range f.env {
		n.env[k] = v
	}
	n.defers = f.defers[:len(f.defers):len(f.defers)]
	n.loops = make(map[*ssa.BasicBlock]*activeLoop, len(f.loops))
	for k, v := range f.loops {
		n.loops[k] = v
	}
	n.unroll = make(map[*ssa.BasicBlock]int, len(f.unroll))
	for k, v := range f.unroll {
		n.unroll[k] = v
	}
	return n
}

type contFn func(st *State, results []Value)

type unsupportedErr struct{ msg string }

func (ex *Exec) unsupp(format string, args ...interface{}) {
	panic(unsupportedErr{fmt.Sprintf(format, args...)})
}

// ---- facts and literals ----

func (ex *Exec) assume(st *State, t *Term) {
	if t.isTrue() {
		return
	}
	if t.op == "and" && t.kind == kApp {
		for _, a := range t.args {
			ex.assume(st, a)
		}
		return
	}
	if st.lits[t] {
		return
	}
	st.facts = append(st.facts, t)
	ex.noteLit(st, t)
}

func (ex *Exec) noteLit(st *State, t *Term) {
	if t.kind == kForall {
		return
	}
	st.lits[t] = true
	st.lits[ex.c.Not(t)] = false
	if t.op == "=" {
		a, b := t.args[0], t.args[1]
		if a.isInt() {
			a, b = b, a
		}
		if b.isInt() && a.op == "itag" {
			st.tags[a.args[0]] = b.ival
			st.lits[ex.c.Eq(a.args[0], ex.c.Inil)] = false
			st.lits[ex.c.Not(ex.c.Eq(a.args[0], ex.c.Inil))] = true
		}
		if a.op == "iptr" {
			a, b = b, a
		}
		if b.op == "iptr" && a.op != "iptr" && b.args[0].isInt() {
			st.tags[a] = b.args[0].ival
		}
		if a.op == "inil" {
			a, b = b, a
		}
		if b.op == "inil" {
			st.tags[a] = -1
		}
	}
	if t.op == "not" && t.args[0].op == "or" {
		for _, a := range t.args[0].args {
			ex.noteLit(st, ex.c.Not(a))
		}
	}
}

// simp evaluates a boolean under the known literals.
func (ex *Exec) simp(st *State, t *Term) *Term {
	if t.isLit() {
		return t
	}
	if v, ok := st.lits[t]; ok {
		return ex.c.Bool(v)
	}
	switch t.op {
	case "not":
		return ex.c.Not(ex.simp(st, t.args[0]))
	case "and":
		var xs []*Term
		for _, a := range t.args {
			xs = append(xs, ex.simp(st, a))
		}
		return ex.c.And(xs...)
	case "or":
		var xs []*Term
		for _, a := range t.args {
			xs = append(xs, ex.simp(st, a))
		}
		return ex.c.Or(xs...)
	case "=":
		a, b := t.args[0], t.args[1]
		if a.isInt() {
			a, b = b, a
		}
		if b.isInt() && a.op == "itag" {
			if k, ok := st.tags[a.args[0]]; ok {
				return ex.c.Bool(k == b.ival)
			}
		}
		if a.op == "inil" {
			a, b = b, a
		}
		if b.op == "inil" {
			if k, ok := st.tags[a]; ok {
				return ex.c.Bool(k == -1)
			}
		}
	case "ite":
		p := ex.simp(st, t.args[0])
		if p.isLit() || t.sort == SBool {
			if t.sort == SBool {
				return ex.c.Ite(p, ex.simp(st, t.args[1]), ex.simp(st, t.args[2]))
			}
			return ex.c.Ite(p, t.args[1], t.args[2])
		}
	}
	return t
}

// narrow resolves ites whose condition is known.
func (ex *Exec) narrow(st *State, t *Term) *Term {
	for t.op == "ite" {
		p := ex.simp(st, t.args[0])
		if p.isTrue() {
			t = t.args[1]
		} else if p.isFalse() {
			t = t.args[2]
		} else {
			return t
		}
	}
	return t
}

func (ex *Exec) oblige(st *State, kind, label string, props []string, goal *Term, pos token.Pos) {
	if ex.spec > 0 {
		return
	}
	goal = ex.simp(st, goal)
	if kind == "nopanic" && ex.partial() {
		// The contract speaks of calls that return.
		ex.assume(st, goal)
		return
	}
	if goal.isTrue() {
		// Discharged by simplification: still counted.
		if ex.dry == 0 {
			ex.obls = append(ex.obls, &Obligation{Name: ex.unit + "/" + label, Kind: kind, Unit: ex.unit, Props: props, goal: goal, Status: "proved", Solver: "simplifier", Pos: ex.pos(pos)})
		}
		return
	}
	if ex.dry == 0 {
		ex.obls = append(ex.obls, &Obligation{
			Name: ex.unit + "/" + label, Kind: kind, Unit: ex.unit, Props: props,
			facts: st.facts[:len(st.facts):len(st.facts)], lits: copyLits(st.lits), tags: copyTags(st.tags), goal: goal,
			Trail: strings.Join(st.trail, " "), Pos: ex.pos(pos),
		})
	}
	ex.assume(st, goal)
}

func (ex *Exec) pos(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	q := ex.w.Fset.Position(p)
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(q.Filename, ex.w.Repo+"/"), q.Line)
}

// ---- objects ----

func (ex *Exec) newObj(st *State, o *Obj) *Obj {
	ex.nobj++
	o.id = ex.nobj
	st.objs[o.id] = o
	return o
}

func (ex *Exec) objRef(st *State, o *Obj) *Term {
	if o.ref == nil {
		n := *o
		ex.c.fresh++
		n.ref = ex.c.App(fmt.Sprintf("new!%d", ex.c.fresh), SRef)
		st.objs[o.id] = &n
		return n.ref
	}
	return o.ref
}

// publish turns a tracked object into frozen memory.
func (ex *Exec) publish(st *State, id int) *Term {
	o := st.objs[id]
	if o.param {
		return ex.objRef(st, o)
	}
	ref := ex.objRef(st, o)
	o = st.objs[id]
	if o.pub {
		return ref
	}
	n := *o
	n.pub = true
	n.reads = st.reads
	st.objs[id] = &n
	switch o.kind {
	case oCell:
		ex.publishAt(st, ref, o.typ, o.val)
	case oArray, oBuilder, oMap:
	}
	return ref
}

func (ex *Exec) publishAt(st *State, ref *Term, t types.Type, v Value) {
	if s, ok := t.Underlying().(*types.Struct); ok && !isOpaqueStruct(t) {
		for i := 0; i < s.NumFields(); i++ {
			if ex.tt.isVolatile(s, i) && ex.spec == 0 && st.ghost["vol"] != nil {
				ft := s.Field(i).Type()
				tv := ex.toTerm(st, ex.fieldOf(st, v, s, i), ft)
				ex.assume(st, ex.c.Eq(ex.ldVol(st, ex.fieldRef(ref, s, i), ft), tv))
			}
			if ex.tt.isLate(s, i) {
				continue
			}
			ex.publishAt(st, ex.fieldRef(ref, s, i), s.Field(i).Type(), ex.fieldOf(st, v, s, i))
		}
		return
	}
	tv := ex.toTerm(st, v, t)
	f := ex.c.Eq(ex.ldRaw(ref, t), tv)
	if ex.spec > 0 {
		// The reference is fresh, so its definition holds whatever path the
		// specification code took.
		ex.factOnce(st, f)
		return
	}
	ex.assume(st, f)
}

// ldVol reads a volatile field: its value at the present version of memory.
func (ex *Exec) ldVol(st *State, loc *Term, t types.Type) *Term {
	so := ex.tt.sortOf(t)
	r := ex.c.App("vld_"+sanitize(string(so)), so, st.ghost["vol"], loc)
	ex.typeInv(st, r, t)
	return r
}

// newVol makes a new version of volatile memory, of which nothing is known.
func (ex *Exec) newVol(st *State) {
	if st.ghost["vol"] != nil {
		st.ghost["vol"] = ex.c.Fresh("vol", SInt)
	}
}

// storeVol writes a volatile field of shared memory.
func (ex *Exec) storeVol(st *State, loc *Term, v Value, t types.Type) {
	tv := ex.toTerm(st, v, t)
	ex.newVol(st)
	if st.ghost["vol"] != nil {
		ex.assume(st, ex.c.Eq(ex.ldVol(st, loc, t), tv))
	}
}

// publishLate asserts the final values of late fields, at function exit.
func (ex *Exec) publishLate(st *State) {
	for changed := true; changed; {
		changed = false
		for id := range st.objs {
			o := st.objs[id]
			if !o.pub || o.kind != oCell || o.param {
				continue
			}
			s, ok := o.typ.Underlying().(*types.Struct)
			if !ok {
				continue
			}
			for i := 0; i < s.NumFields(); i++ {
				if !ex.tt.isLate(s, i) {
					continue
				}
				if st.ghost[fmt.Sprintf("lateDone!%d!%d", id, i)] != nil {
					continue
				}
				st.ghost[fmt.Sprintf("lateDone!%d!%d", id, i)] = ex.c.True
				if ex.tt.isVolatile(s, i) {
					continue
				}
				v := ex.fieldOf(st, o.val, s, i)
				if ex.tt.isOpen(s, i) {
					if tv, ok := v.(*Term); ok && (tv.op == "inil" || tv.op == "null") {
						// Never assigned here: still open.
						continue
					}
				}
				changed = true
				ex.publishAt(st, ex.fieldRef(o.ref, s, i), s.Field(i).Type(), v)
			}
		}
	}
	for i := 0; i < len(st.late); i++ {
		lf := st.late[i]
		last := true
		for _, l := range st.late[i+1:] {
			if l.loc == lf.loc {
				last = false
			}
		}
		if !last {
			continue
		}
		t := ex.toTermAny(st, lf.val)
		ex.assume(st, ex.c.Eq(ex.c.App("ld_"+sanitize(string(t.sort)), t.sort, lf.loc), t))
	}
	st.late = nil
}

func (ex *Exec) toTermAny(st *State, v Value) *Term {
	switch v := v.(type) {
	case *Term:
		return v
	case *LocalPtr:
		return ex.toTerm(st, v, nil)
	case *IfaceVal:
		return ex.toTerm(st, v, nil)
	case *LSlice:
		return ex.toTerm(st, v, nil)
	}
	ex.unsupp("late value %T", v)
	return nil
}

// ---- conversion to terms ----

func (ex *Exec) toTerm(st *State, v Value, t types.Type) *Term {
	switch v := v.(type) {
	case *Term:
		return v
	case *LocalPtr:
		if v.idx != nil {
			ex.unsupp("address of slice element escapes")
		}
		r := ex.publish(st, v.obj)
		ty := st.objs[v.obj].typ
		for _, i := range v.path {
			s := ty.Underlying().(*types.Struct)
			r = ex.fieldRef(r, s, i)
			ty = s.Field(i).Type()
		}
		return r
	case *LSlice:
		o := st.objs[v.obj]
		if !o.pub && ex.spec == 0 {
			n := *o
			n.pub = true
			st.objs[v.obj] = &n
		}
		return ex.c.MkSlice(ex.c.False, ex.c.Extract(o.seq, v.off, v.len))
	case *IfaceVal:
		return ex.ifaceTerm(st, v)
	case *StructVal:
		var fs []*Term
		for i, f := range v.fields {
			fs = append(fs, ex.toTerm(st, f, v.typ.Field(i).Type()))
		}
		return ex.c.MkStruct(ex.tt.sortOf(v.typ), fs...)
	case *Closure:
		return ex.c.Fresh("fn", SFn)
	case *GlobalPtr:
		if len(v.path) == 0 {
			return ex.c.App("glob_"+sanitize(v.g.RelString(nil)), SRef)
		}
	case *MapVal:
		return ex.objRef(st, st.objs[v.obj])
	}
	ex.unsupp("value %T has no term form", v)
	return nil
}

func (ex *Exec) ifaceTerm(st *State, v *IfaceVal) *Term {
	tag := ex.c.Int(ex.tt.tagOf(v.typ))
	if _, ok := v.typ.Underlying().(*types.Pointer); ok {
		return ex.c.Iptr(tag, ex.toTerm(st, v.val, v.typ))
	}
	tv := ex.toTerm(st, v.val, v.typ)
	return ex.c.Iptr(tag, ex.box(v.typ, tv))
}

func (ex *Exec) box(t types.Type, tv *Term) *Term {
	n := "box_" + sanitize(string(tv.sort))
	if strings.HasPrefix(tv.op, "unbox_") && "un"+n == tv.op {
		return tv.args[0]
	}
	return ex.c.App(n, SRef, tv)
}

func (ex *Exec) unbox(t types.Type, ref *Term) *Term {
	s := ex.tt.sortOf(t)
	n := "box_" + sanitize(string(s))
	if ref.op == n {
		return ref.args[0]
	}
	if ref.op == "ite" {
		return ex.c.Ite(ref.args[0], ex.unbox(t, ref.args[1]), ex.unbox(t, ref.args[2]))
	}
	return ex.c.App("un"+n, s, ref)
}

// ---- memory ----

func (ex *Exec) fieldRef(ref *Term, s *types.Struct, i int) *Term {
	return ex.c.App(fmt.Sprintf("sub_%s_%d", ex.tt.structID(s), i), SRef, ref)
}

func (ex *Exec) ldRaw(ref *Term, t types.Type) *Term {
	s := ex.tt.sortOf(t)
	if ref.op == "ite" {
		return ex.c.Ite(ref.args[0], ex.ldRaw(ref.args[1], t), ex.ldRaw(ref.args[2], t))
	}
	return ex.c.App("ld_"+sanitize(string(s)), s, ref)
}

// ld loads from frozen memory.
func (ex *Exec) ld(st *State, ref *Term, t types.Type) *Term {
	if s, ok := t.Underlying().(*types.Struct); ok && !isOpaqueStruct(t) {
		var fs []*Term
		for i := 0; i < s.NumFields(); i++ {
			fs = append(fs, ex.ldField(st, ref, s, i))
		}
		return ex.c.MkStruct(ex.tt.sortOf(t), fs...)
	}
	r := ex.ldRaw(ref, t)
	ex.typeInv(st, r, t)
	return r
}

func (ex *Exec) ldField(st *State, ref *Term, s *types.Struct, i int) *Term {
	if st.ghost["vol"] != nil && ex.tt.isVolatile(s, i) {
		return ex.ldVol(st, ex.fieldRef(ref, s, i), s.Field(i).Type())
	}
	if ex.spec == 0 && ex.tt.isLate(s, i) && !ex.tt.isSettling(s, i) {
		// Code reading a late field of an object it does not own sees
		// some intermediate value.
		return ex.freshTerm(st, "late", s.Field(i).Type())
	}
	return ex.ld(st, ex.fieldRef(ref, s, i), s.Field(i).Type())
}

// typeInv assumes facts that Go's type system guarantees.
func (ex *Exec) typeInv(st *State, r *Term, t types.Type) {
	if r.hasB {
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Interface:
		if r.op == "iptr" || r.op == "inil" || r.op == "ite" {
			return
		}
		if f := ex.implFact(r, u, t); f != nil {
			ex.factOnce(st, f)
		}
	case *types.Slice:
		if r.op == "ite" || strings.HasPrefix(r.op, "mk_") {
			return
		}
		ex.factOnce(st, ex.c.Implies(ex.c.IsNilSlice(r), ex.c.Eq(ex.c.SeqOfSlice(r), ex.c.Empty(ex.c.SeqOfSlice(r).sort))))
	case *types.Struct:
		if !isOpaqueStruct(t) && !strings.HasPrefix(r.op, "mk_") {
			for i := 0; i < u.NumFields(); i++ {
				ex.typeInv(st, ex.c.Sel(r, i), u.Field(i).Type())
			}
		}
	}
}

func (ex *Exec) factOnce(st *State, f *Term) {
	if f.isTrue() || st.lits[f] {
		return
	}
	if ex.factSink != nil {
		*ex.factSink = append(*ex.factSink, f)
	}
	st.facts = append(st.facts, f)
	st.lits[f] = true
}

func (ex *Exec) implFact(r *Term, u *types.Interface, t types.Type) *Term {
	tags := ex.tt.implTags(t)
	if tags == nil {
		return nil
	}
	alts := []*Term{ex.c.IsNilIface(r)}
	for _, k := range tags {
		alts = append(alts, ex.c.HasTag(r, k))
	}
	return ex.c.Or(alts...)
}

func (ex *Exec) freshTerm(st *State, name string, t types.Type) *Term {
	r := ex.c.Fresh(name, ex.tt.sortOf(t))
	ex.typeInv(st, r, t)
	if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 {
		ex.factOnce(st, ex.c.Le(ex.c.Int(0), r))
	}
	return r
}

func (ex *Exec) fieldOf(st *State, v Value, s *types.Struct, i int) Value {
	switch v := v.(type) {
	case *StructVal:
		return v.fields[i]
	case *Term:
		return ex.c.Sel(v, i)
	}
	ex.unsupp("field of %T", v)
	return nil
}

func (ex *Exec) setPath(st *State, v Value, t types.Type, path []int, nv Value) Value {
	if len(path) == 0 {
		return nv
	}
	s := t.Underlying().(*types.Struct)
	fs := make([]Value, s.NumFields())
	for i := range fs {
		fs[i] = ex.fieldOf(st, v, s, i)
	}
	fs[path[0]] = ex.setPath(st, fs[path[0]], s.Field(path[0]).Type(), path[1:], nv)
	return &StructVal{typ: s, fields: fs}
}

// load reads through a pointer value.
func (ex *Exec) load(st *State, p Value, t types.Type, pos token.Pos) Value {
	switch p := p.(type) {
	case *LocalPtr:
		o := st.objs[p.obj]
		if o == nil {
			ex.unsupp("load from unknown object")
		}
		if o.sealed && ex.spec == 0 {
			ex.unsupp("read of a value that a call may have changed")
		}
		switch o.kind {
		case oArray:
			if o.volat {
				return ex.freshTerm(st, "volatile", t)
			}
			var v Value = ex.c.Nth(o.seq, p.idx)
			ex.typeInv(st, v.(*Term), o.typ)
			ty := o.typ
			for _, i := range p.path {
				s := ty.Underlying().(*types.Struct)
				v = ex.fieldOf(st, v, s, i)
				ty = s.Field(i).Type()
			}
			return v
		case oCell:
			if s, ok := o.typ.Underlying().(*types.Struct); ok && o.pub && len(p.path) == 1 && ex.tt.isVolatile(s, p.path[0]) && st.ghost["vol"] != nil && o.ref != nil {
				return ex.ldVol(st, ex.fieldRef(o.ref, s, p.path[0]), t)
			}
			v := o.val
			ty := o.typ
			for _, i := range p.path {
				s := ty.Underlying().(*types.Struct)
				v = ex.fieldOf(st, v, s, i)
				ty = s.Field(i).Type()
			}
			if tv, ok := v.(*Term); ok {
				ex.typeInv(st, tv, ty)
			}
			return v
		}
		ex.unsupp("load from object kind %d", o.kind)
	case *Term:
		ex.oblige(st, "nopanic", "nil-deref", nil, ex.c.Not(ex.c.Eq(p, ex.c.Null)), pos)
		if f, ok := ex.fieldAddrInfo(p); ok && st.ghost["vol"] != nil && ex.tt.isVolatile(f.s, f.i) {
			return ex.ldVol(st, p, t)
		}
		if f, ok := ex.fieldAddrInfo(p); ok && ex.spec == 0 && ex.tt.isSettling(f.s, f.i) {
			return ex.ld(st, p, t)
		}
		if f, ok := ex.fieldAddrInfo(p); ok && ex.spec == 0 && ex.tt.isLate(f.s, f.i) {
			if ex.tt.isVolatile(f.s, f.i) {
				return ex.freshTerm(st, "volatile", t)
			}
			if v, ok := ex.lateLookup(st, p); ok {
				return v
			}
			v := ex.freshTerm(st, "late", t)
			if ex.tt.isOpen(f.s, f.i) {
				// Assigned once: either not yet, or the value it will keep.
				ex.assume(st, ex.c.Or(ex.c.Eq(v, ex.zeroTerm(t)), ex.c.Eq(v, ex.ldRaw(p, t))))
				if v.sort == SIface {
					ex.assume(st, ex.c.Or(ex.c.IsNilIface(v), ex.c.Not(ex.c.Eq(ex.c.IRef(v), ex.c.Null))))
				}
				st.once[p] = v
				delete(st.stale, p)
			}
			return v
		}
		return ex.ld(st, p, t)
	case *GlobalPtr:
		return ex.loadGlobal(st, p, t)
	}
	ex.unsupp("load through %T", p)
	return nil
}

type fieldAddr struct {
	s *types.Struct
	i int
}

func (ex *Exec) fieldAddrInfo(p *Term) (fieldAddr, bool) {
	if !strings.HasPrefix(p.op, "sub_") {
		return fieldAddr{}, false
	}
	f, ok := ex.tt.subInfo[p.op]
	if !ok {
		return fieldAddr{}, false
	}
	return f, true
}

func (ex *Exec) lateLookup(st *State, p *Term) (Value, bool) {
	for i := len(st.late) - 1; i >= 0; i-- {
		if st.late[i].loc == p {
			return st.late[i].val, true
		}
	}
	if st.lits[ex.openLit(p)] {
		f := ex.tt.subInfo[p.op]
		return ex.zero(f.s.Field(f.i).Type()), true
	}
	return nil, false
}

// openLit is a ghost literal: the late field at loc is still open (zero).
func (ex *Exec) openLit(loc *Term) *Term { return ex.c.App("open_late", SBool, loc) }

func (ex *Exec) store(st *State, p Value, v Value, t types.Type, pos token.Pos) {
	switch p := p.(type) {
	case *LocalPtr:
		o := st.objs[p.obj]
		n := *o
		if o.sealed {
			ex.unsupp("write to a value that a call may have changed")
		}
		if o.volat {
			return
		}
		if o.pub {
			// Write to memory that has already been shared.
			ok := false
			if o.kind == oCell && len(p.path) > 0 {
				if s, isS := o.typ.Underlying().(*types.Struct); isS && ex.tt.isLate(s, p.path[0]) {
					ok = true
				}
			}
			if !ok {
				ex.oblige(st, "frame", "write-after-share", nil, ex.c.False, pos)
			} else if s := o.typ.Underlying().(*types.Struct); ex.tt.isVolatile(s, p.path[0]) && o.ref != nil && len(p.path) == 1 {
				ex.storeVol(st, ex.fieldRef(o.ref, s, p.path[0]), v, t)
				o = st.objs[p.obj]
				n = *o
			} else if ex.tt.isSettling(s, p.path[0]) && o.reads != st.reads {
				ex.oblige(st, "frame", "set before it is read: "+s.Field(p.path[0]).Name(), nil, ex.c.False, pos)
			}
		}
		switch o.kind {
		case oArray:
			if len(p.path) > 0 {
				old := ex.c.Nth(o.seq, p.idx)
				v = ex.setPath(st, old, o.typ, p.path, v)
			}
			tv := ex.toTerm(st, v, o.typ)
			o = st.objs[p.obj]
			n = *o
			n.seq = ex.seqUpdate(st, o.seq, p.idx, tv)
		case oCell:
			n.val = ex.setPath(st, o.val, o.typ, p.path, v)
		default:
			ex.unsupp("store to object kind %d", o.kind)
		}
		st.objs[p.obj] = &n
	case *Term:
		if f, ok := ex.fieldAddrInfo(p); ok && ex.tt.isLate(f.s, f.i) {
			if ex.tt.isVolatile(f.s, f.i) {
				if ex.rootC != nil && len(ex.rootC.Mutates) == 0 && !ex.rootC.Flags["renumbers"] {
					ex.oblige(st, "frame", "write-to-foreign-memory", nil, ex.c.False, pos)
				}
				ex.storeVol(st, p, v, t)
				return
			}
			old, had := ex.lateLookup(st, p)
			if ex.tt.isOpen(f.s, f.i) {
				stale := false
				if !had {
					old, had = st.once[p]
					stale = st.stale[p]
				}
				g := ex.c.False
				if had && stale {
					// Calls made since may have assigned it, if it was not.
					ot, nt := ex.toTermAny(st, old), ex.toTerm(st, v, t)
					g = ex.c.And(ex.c.Not(ex.c.Eq(ot, ex.zeroTerm(t))), ex.c.Eq(ot, nt))
				} else if had {
					ot, nt := ex.toTermAny(st, old), ex.toTerm(st, v, t)
					g = ex.c.Or(ex.c.Eq(ot, ex.zeroTerm(t)), ex.c.Eq(ot, nt))
				}
				if nt := ex.toTerm(st, v, t); nt.sort == SIface {
					// And never a nil pointer.
					ok := ex.c.Or(ex.c.IsNilIface(nt), ex.c.Not(ex.c.Eq(ex.c.IRef(nt), ex.c.Null)))
					ex.oblige(st, "frame", "no nil pointer in "+f.s.Field(f.i).Name(), nil, ok, pos)
				}
				ex.oblige(st, "frame", "assigned-once "+f.s.Field(f.i).Name(), nil, g, pos)
				had = true
			}
			if had {
				st.late = append(st.late, lateFact{p, v})
				return
			}
		}
		ex.oblige(st, "frame", "write-to-foreign-memory", nil, ex.c.False, pos)
	default:
		ex.unsupp("store through %T", p)
	}
}

func (ex *Exec) seqUpdate(st *State, s, i, v *Term) *Term {
	n := ex.c.Len(s)
	if i.isInt() {
		// Literal update of a literal sequence.
		parts := seqParts(s)
		allUnit := int64(len(parts)) > i.ival
		for _, p := range parts {
			if p.op != "seq.unit" {
				allUnit = false
			}
		}
		if allUnit {
			np := append([]*Term{}, parts...)
			np[i.ival] = ex.c.Unit(v)
			return ex.c.Concat(s.sort, np...)
		}
	}
	pre := ex.c.Extract(s, ex.c.Int(0), i)
	post := ex.c.Extract(s, ex.c.Add(i, ex.c.Int(1)), ex.c.Sub(ex.c.Sub(n, i), ex.c.Int(1)))
	return ex.c.Concat(s.sort, pre, ex.c.Unit(v), post)
}

func (ex *Exec) zeroTerm(t types.Type) *Term {
	s := ex.tt.sortOf(t)
	return ex.zeroSort(s)
}

func (ex *Exec) zeroSort(s Sort) *Term {
	c := ex.c
	switch s {
	case SBool:
		return c.False
	case SInt:
		return c.Int(0)
	case SRef:
		return c.Null
	case SIface:
		return c.Inil
	case SFn:
		return c.App("nilfn", SFn)
	}
	if s.IsSeq() {
		return c.Empty(s)
	}
	if d := c.bySort[s]; d != nil {
		if _, ok := c.sliceEl[s]; ok {
			return c.MkStruct(s, c.True, c.Empty(d.fields[1]))
		}
		var fs []*Term
		for _, f := range d.fields {
			fs = append(fs, ex.zeroSort(f))
		}
		return c.MkStruct(s, fs...)
	}
	return c.App("zero_"+sanitize(string(s)), s)
}

func (ex *Exec) zero(t types.Type) Value {
	if s, ok := t.Underlying().(*types.Struct); ok && !isOpaqueStruct(t) {
		fs := make([]Value, s.NumFields())
		for i := range fs {
			fs[i] = ex.zero(s.Field(i).Type())
		}
		return &StructVal{typ: s, fields: fs}
	}
	return ex.zeroTerm(t)
}

func isOpaqueStruct(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok {
		if a, ok2 := t.(*types.Alias); ok2 {
			return isOpaqueStruct(types.Unalias(a))
		}
		return false
	}
	if n.Obj().Pkg() == nil {
		return false
	}
	switch n.Obj().Pkg().Path() + "." + n.Obj().Name() {
	case "strings.Builder", "reflect.Value", "bytes.Buffer", "net/http.Response", "net/http.Request":
		return true
	}
	return false
}

// ---- running functions ----

var debugExec = os.Getenv("GOV_DEBUG") != ""

// call runs fn on args and calls k for each feasible path's results.
func (ex *Exec) runFunc(fn *ssa.Function, args []Value, bind []Value, st *State, parent *frame, k contFn) {
	if len(fn.Blocks) == 0 {
		ex.unsupp("no body for %s", fn)
	}
	ex.depth++
	defer func() { ex.depth-- }()
	if ex.depth > 60 {
		ex.unsupp("inlining too deep at %s", fn)
	}
	fr := &frame{fn: fn, env: map[ssa.Value]Value{}, loops: map[*ssa.BasicBlock]*activeLoop{}, unroll: map[*ssa.BasicBlock]int{}, parent: parent}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	for i, fv := range fn.FreeVars {
		fr.env[fv] = bind[i]
	}
	ex.runBlock(fr, fn.Blocks[0], nil, st, k)
}

func (ex *Exec) get(fr *frame, st *State, v ssa.Value) Value {
	switch v := v.(type) {
	case *ssa.Const:
		return ex.constVal(st, v)
	case *ssa.Function:
		return &Closure{fn: v}
	case *ssa.Global:
		return &GlobalPtr{g: v}
	case *ssa.Builtin:
		return v
	}
	x, ok := fr.env[v]
	if !ok {
		ex.unsupp("no value for %s in %s", v.Name(), fr.fn)
	}
	return x
}

func (ex *Exec) constVal(st *State, v *ssa.Const) Value {
	if v.Value == nil {
		return ex.zero(v.Type())
	}
	switch v.Value.Kind() {
	case constant.Bool:
		return ex.c.Bool(constant.BoolVal(v.Value))
	case constant.String:
		return ex.c.StrLit(constant.StringVal(v.Value))
	case constant.Int:
		if b, ok := v.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			i, exact := constant.Int64Val(v.Value)
			if !exact {
				ex.unsupp("large constant")
			}
			return ex.c.Int(i)
		}
	}
	ex.unsupp("constant %s", v)
	return nil
}

func (ex *Exec) term(fr *frame, st *State, v ssa.Value) *Term {
	return ex.toTerm(st, ex.get(fr, st, v), v.Type())
}

func (ex *Exec) runBlock(fr *frame, b *ssa.BasicBlock, from *ssa.BasicBlock, st *State, k contFn) {
	// Dry runs of a loop body stop at its exits.
	for _, al := range fr.loops {
		if al.dryStop && from != nil && al.li.blocks[from] && !al.li.blocks[b] {
			return
		}
	}
	// Loop handling.
	if li := loopsOf(fr.fn)[b]; li != nil {
		if al, ok := fr.loops[b]; ok && from != nil && li.blocks[from] {
			al.onBack(st, fr, from)
			return
		}
		if !ex.tryUnroll(fr, b, from, li, st, k) {
			ex.runLoop(fr, b, from, li, st, k)
		}
		return
	}
	ex.phis(fr, b, from, st)
	ex.runInstrs(fr, b, phiCount(b), st, k)
}

func phiCount(b *ssa.BasicBlock) int {
	n := 0
	for _, in := range b.Instrs {
		if _, ok := in.(*ssa.Phi); !ok {
			break
		}
		n++
	}
	return n
}

func predIndex(b, from *ssa.BasicBlock) int {
	for i, p := range b.Preds {
		if p == from {
			return i
		}
	}
	return -1
}

func (ex *Exec) phis(fr *frame, b, from *ssa.BasicBlock, st *State) {
	if from == nil {
		return
	}
	i := predIndex(b, from)
	var vals []Value
	var ps []*ssa.Phi
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		ps = append(ps, p)
		vals = append(vals, ex.get(fr, st, p.Edges[i]))
	}
	for j, p := range ps {
		fr.env[p] = vals[j]
	}
}

// tryUnroll continues through a loop header when its condition is decided.
func (ex *Exec) tryUnroll(fr *frame, b, from *ssa.BasicBlock, li *loopInfo, st *State, k contFn) bool {
	term, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	if fr.unroll[b] > 80 {
		return false
	}
	// A loop that runs while a computed flag holds has no bound in sight.
	if p, ok := term.Cond.(*ssa.Phi); ok && p.Block() == b {
		for _, e := range p.Edges {
			if _, ok := e.(*ssa.Const); !ok {
				return false
			}
		}
	}
	// Probe the header.
	pf, ps := fr.clone(), st.clone()
	decided := false
	func() {
		ex.dry++
		defer func() { ex.dry-- }()
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(unsupportedErr); !ok {
					panic(r)
				}
			}
		}()
		ex.phis(pf, b, from, ps)
		simple := true
		for _, in := range b.Instrs[phiCount(b) : len(b.Instrs)-1] {
			if !ex.simpleInstr(pf, in, ps) {
				simple = false
				break
			}
		}
		if !simple {
			return
		}
		cond := ex.simp(ps, ex.term(pf, ps, term.Cond))
		decided = cond.isLit()
		if decided && li.blocks[from] == false {
			// Entering: only unroll if staying in the loop is decided by literals.
		}
	}()
	if !decided {
		return false
	}
	fr.unroll[b]++
	ex.phis(fr, b, from, st)
	ex.runInstrs(fr, b, phiCount(b), st, k)
	return true
}

func (ex *Exec) simpleInstr(fr *frame, in ssa.Instruction, st *State) bool {
	switch in := in.(type) {
	case *ssa.Call:
		if _, ok := in.Call.Value.(*ssa.Builtin); !ok {
			return false
		}
	case *ssa.Defer, *ssa.RunDefers, *ssa.Panic, *ssa.Return, *ssa.If, *ssa.Jump, *ssa.Next:
		_ = in
		if _, ok := in.(*ssa.Next); ok {
			break
		}
		return false
	}
	done := false
	ex.instr(fr, in, st, func(*frame, *State) { done = true })
	return done
}

func (ex *Exec) runInstrs(fr *frame, b *ssa.BasicBlock, i int, st *State, k contFn) {
	if ex.aborted != "" {
		return
	}
	for ; i < len(b.Instrs); i++ {
		in := b.Instrs[i]
		switch in := in.(type) {
		case *ssa.If:
			cond := ex.simp(st, ex.term(fr, st, in.Cond))
			if cond.isTrue() {
				ex.runBlock(fr, b.Succs[0], b, st, k)
				return
			}
			if cond.isFalse() {
				ex.runBlock(fr, b.Succs[1], b, st, k)
				return
			}
			ex.npath++
			if ex.maxPath > 0 && ex.npath > ex.maxPath {
				ex.aborted = "too many paths"
				ex.unsupp("too many paths (%d) in %s", ex.npath, ex.unit)
			}
			s1, f1 := st.clone(), fr.clone()
			s1.conds = append(s1.conds, cond)
			s1.trail = append(s1.trail, ex.pos(in.Cond.Pos())+"=T")
			ex.assume(s1, cond)
			ex.runBlock(f1, b.Succs[0], b, s1, k)
			nc := ex.c.Not(cond)
			st.conds = append(st.conds, nc)
			st.trail = append(st.trail, ex.pos(in.Cond.Pos())+"=F")
			ex.assume(st, nc)
			ex.runBlock(fr, b.Succs[1], b, st, k)
			return
		case *ssa.Jump:
			ex.runBlock(fr, b.Succs[0], b, st, k)
			return
		case *ssa.Return:
			var rs []Value
			for _, r := range in.Results {
				rs = append(rs, ex.get(fr, st, r))
			}
			k(st, rs)
			return
		case *ssa.Panic:
			ex.doPanic(fr, in, st)
			return
		case *ssa.RunDefers:
			ds := fr.defers
			fr.defers = nil
			ii := i
			var run func(j int, st *State)
			run = func(j int, st *State) {
				if j < 0 {
					ex.runInstrs(fr.clone(), b, ii+1, st, k)
					return
				}
				ds[j](st, func(st *State) { run(j-1, st) })
			}
			run(len(ds)-1, st)
			return
		case *ssa.Call:
			ii := i
			ex.doCall(fr, in.Common(), in, st, func(st *State, rs []Value) {
				f := fr
				if ex.mayFork(in.Common()) {
					f = fr.clone()
				}
				switch len(rs) {
				case 0:
				case 1:
					f.env[in] = rs[0]
				default:
					f.env[in] = Tuple(rs)
				}
				ex.runInstrs(f, b, ii+1, st, k)
			})
			return
		case *ssa.TypeAssert:
			ii := i
			ex.typeAssert(fr, in, st, func(f *frame, st *State) {
				ex.runInstrs(f, b, ii+1, st, k)
			})
			return
		default:
			cont := false
			ex.instr(fr, in, st, func(f *frame, s *State) { cont = true })
			if !cont {
				return
			}
		}
	}
}

func (ex *Exec) mayFork(c *ssa.CallCommon) bool {
	_, ok := c.Value.(*ssa.Builtin)
	return !ok
}

// partial: the unit's contract says nothing of calls that panic.
func (ex *Exec) partial() bool {
	return ex.rootC != nil && ex.rootC.Flags["partial"] || ex.guardUnit
}

func (ex *Exec) doPanic(fr *frame, in *ssa.Panic, st *State) {
	if ex.rootC != nil && (ex.rootC.Flags["maypanic"] || ex.partial()) && ex.spec == 0 {
		return
	}
	ex.oblige(st, "nopanic", "panic-unreachable", nil, ex.c.False, in.Pos())
}

// instr executes a non-control instruction.
func (ex *Exec) instr(fr *frame, in ssa.Instruction, st *State, k func(*frame, *State)) {
	c := ex.c
	switch in := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		t := in.Type().Underlying().(*types.Pointer).Elem()
		fr.env[in] = ex.alloc(st, t)
	case *ssa.BinOp:
		fr.env[in] = ex.binop(fr, st, in)
	case *ssa.UnOp:
		switch in.Op {
		case token.MUL:
			fr.env[in] = ex.load(st, ex.get(fr, st, in.X), in.Type(), in.Pos())
		case token.NOT:
			fr.env[in] = c.Not(ex.term(fr, st, in.X))
		case token.SUB:
			fr.env[in] = c.Sub(c.Int(0), ex.term(fr, st, in.X))
		default:
			ex.unsupp("unop %s", in.Op)
		}
	case *ssa.ChangeInterface:
		fr.env[in] = ex.get(fr, st, in.X)
	case *ssa.ChangeType:
		fr.env[in] = ex.changeType(st, ex.get(fr, st, in.X), in.Type())
	case *ssa.Convert:
		fr.env[in] = ex.convert(fr, st, in)
	case *ssa.MakeInterface:
		v := ex.get(fr, st, in.X)
		fr.env[in] = ex.makeIface(st, v, in.X.Type())
	case *ssa.Extract:
		fr.env[in] = ex.get(fr, st, in.Tuple).(Tuple)[in.Index]
	case *ssa.Field:
		s := in.X.Type().Underlying().(*types.Struct)
		v := ex.fieldOf(st, ex.get(fr, st, in.X), s, in.Field)
		if tv, ok := v.(*Term); ok {
			ex.typeInv(st, tv, s.Field(in.Field).Type())
		}
		fr.env[in] = v
	case *ssa.FieldAddr:
		fr.env[in] = ex.fieldAddr(fr, st, in)
	case *ssa.IndexAddr:
		fr.env[in] = ex.indexAddr(fr, st, in)
	case *ssa.Index:
		fr.env[in] = ex.index(fr, st, in)
	case *ssa.Lookup:
		fr.env[in] = ex.lookup(fr, st, in)
	case *ssa.MakeClosure:
		var bs []Value
		for _, b := range in.Bindings {
			bs = append(bs, ex.get(fr, st, b))
		}
		fr.env[in] = &Closure{fn: in.Fn.(*ssa.Function), bind: bs}
	case *ssa.MakeMap:
		fr.env[in] = ex.makeMap(st, in.Type())
	case *ssa.MapUpdate:
		ex.mapUpdate(fr, st, in)
	case *ssa.MakeSlice:
		n := ex.term(fr, st, in.Len)
		el := in.Type().Underlying().(*types.Slice).Elem()
		ex.oblige(st, "nopanic", "makeslice", nil, c.Le(c.Int(0), n), in.Pos())
		fr.env[in] = ex.makeSlice(st, el, n)
	case *ssa.Slice:
		fr.env[in] = ex.slice(fr, st, in)
	case *ssa.Store:
		ex.store(st, ex.get(fr, st, in.Addr), ex.get(fr, st, in.Val), in.Val.Type(), in.Pos())
	case *ssa.Range:
		fr.env[in] = ex.mkRange(fr, st, in)
	case *ssa.Next:
		fr.env[in] = ex.next(fr, st, in)
	case *ssa.Defer:
		com := in.Common()
		// Evaluate callee and args now.
		call := *com
		ff := &frame{fn: fr.fn, env: map[ssa.Value]Value{}, loops: fr.loops, unroll: fr.unroll, parent: fr.parent}
		ff.env[call.Value] = ex.evalAny(fr, st, call.Value)
		for _, a := range call.Args {
			ff.env[a] = ex.evalAny(fr, st, a)
		}
		fr.defers = append(fr.defers, func(st *State, k func(*State)) {
			ex.doCall(ff, &call, in, st, func(st *State, rs []Value) { k(st) })
		})
	default:
		ex.unsupp("instruction %T", in)
	}
	k(fr, st)
}

func (ex *Exec) evalAny(fr *frame, st *State, v ssa.Value) Value {
	return ex.get(fr, st, v)
}

func (ex *Exec) alloc(st *State, t types.Type) Value {
	if a, ok := t.Underlying().(*types.Array); ok {
		o := ex.newObj(st, &Obj{kind: oArray, typ: a.Elem(), fresh: true})
		var us []*Term
		z := ex.zeroTerm(a.Elem())
		for i := int64(0); i < a.Len(); i++ {
			us = append(us, ex.c.Unit(z))
		}
		o.seq = ex.c.Concat(SeqOf(z.sort), us...)
		return &LocalPtr{obj: o.id}
	}
	if isOpaqueStruct(t) && isNamed(t, "strings", "Builder") {
		o := ex.newObj(st, &Obj{kind: oBuilder, typ: t, seq: ex.c.Empty(SStr), fresh: true})
		return &LocalPtr{obj: o.id}
	}
	o := ex.newObj(st, &Obj{kind: oCell, typ: t, val: ex.zero(t), fresh: true})
	return &LocalPtr{obj: o.id}
}

func isNamed(t types.Type, pkg, name string) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == pkg && n.Obj().Name() == name
}

func (ex *Exec) makeSlice(st *State, el types.Type, n *Term) Value {
	z := ex.zeroTerm(el)
	var seq *Term
	if n.isInt() && n.ival <= 16 {
		var us []*Term
		for i := int64(0); i < n.ival; i++ {
			us = append(us, ex.c.Unit(z))
		}
		seq = ex.c.Concat(SeqOf(z.sort), us...)
	} else {
		seq = ex.c.App("zeros_"+sanitize(string(z.sort)), SeqOf(z.sort), n)
	}
	o := ex.newObj(st, &Obj{kind: oArray, typ: el, seq: seq, fresh: true})
	return &LSlice{obj: o.id, off: ex.c.Int(0), len: n, elem: el}
}

func (ex *Exec) makeIface(st *State, v Value, t types.Type) Value {
	if tv, ok := v.(*Term); ok {
		if _, isPtr := t.Underlying().(*types.Pointer); isPtr {
			return ex.c.Iptr(ex.c.Int(ex.tt.tagOf(t)), tv)
		}
		return &IfaceVal{typ: t, val: tv}
	}
	return &IfaceVal{typ: t, val: v}
}

func (ex *Exec) changeType(st *State, v Value, t types.Type) Value {
	if sv, ok := v.(*StructVal); ok {
		return &StructVal{typ: t.Underlying().(*types.Struct), fields: sv.fields}
	}
	if p, ok := v.(*LocalPtr); ok {
		if pt, ok := t.Underlying().(*types.Pointer); ok && len(p.path) == 0 && p.idx == nil {
			// Pointer conversion between identical underlying types.
			_ = pt
		}
		return p
	}
	return v
}

func (ex *Exec) fieldAddr(fr *frame, st *State, in *ssa.FieldAddr) Value {
	p := ex.get(fr, st, in.X)
	s := in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
	switch p := p.(type) {
	case *LocalPtr:
		return &LocalPtr{obj: p.obj, idx: p.idx, path: append(p.path[:len(p.path):len(p.path)], in.Field)}
	case *GlobalPtr:
		return &GlobalPtr{g: p.g, path: append(p.path[:len(p.path):len(p.path)], in.Field)}
	case *Term:
		ex.oblige(st, "nopanic", "nil-deref", nil, ex.c.Not(ex.c.Eq(p, ex.c.Null)), in.Pos())
		return ex.fieldRef(p, s, in.Field)
	}
	ex.unsupp("field address of %T", p)
	return nil
}

// sliceParts views a slice value as (isnil, seq).
func (ex *Exec) sliceSeq(st *State, v Value) *Term {
	switch v := v.(type) {
	case *Term:
		if v.sort.IsSeq() {
			return v
		}
		return ex.c.SeqOfSlice(v)
	case *LSlice:
		return ex.c.Extract(st.objs[v.obj].seq, v.off, v.len)
	}
	ex.unsupp("slice %T", v)
	return nil
}

func (ex *Exec) sliceLen(st *State, v Value) *Term {
	if l, ok := v.(*LSlice); ok {
		return l.len
	}
	return ex.c.Len(ex.sliceSeq(st, v))
}

func (ex *Exec) inRange(st *State, i, n *Term, pos token.Pos) {
	c := ex.c
	ex.oblige(st, "nopanic", "index-in-range", nil, c.And(c.Le(c.Int(0), i), c.Lt(i, n)), pos)
}

// volatElem: elements of slices of this type are overwritten in place, and
// nothing is said of them.
func (ex *Exec) volatElem(el types.Type) bool {
	s, ok := el.Underlying().(*types.Slice)
	if !ok || len(ex.tt.volF) == 0 {
		return false
	}
	p, ok := s.Elem().Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := p.Elem().(*types.Named)
	return ok && n.Obj().Name() == "Binding"
}

func (ex *Exec) indexAddr(fr *frame, st *State, in *ssa.IndexAddr) Value {
	x := ex.get(fr, st, in.X)
	i := ex.term(fr, st, in.Index)
	switch x := x.(type) {
	case *LocalPtr: // pointer to array
		o := st.objs[x.obj]
		ex.inRange(st, i, ex.c.Len(o.seq), in.Pos())
		return &LocalPtr{obj: x.obj, idx: i}
	case *LSlice:
		ex.inRange(st, i, x.len, in.Pos())
		return &LocalPtr{obj: x.obj, idx: ex.c.Add(x.off, i)}
	case *Term:
		seq := ex.c.SeqOfSlice(x)
		ex.inRange(st, i, ex.c.Len(seq), in.Pos())
		// Address of an element of frozen memory: model as a read-only view.
		el := in.X.Type().Underlying().(*types.Slice).Elem()
		o := ex.newObj(st, &Obj{kind: oArray, typ: el, seq: seq, pub: true, volat: ex.spec == 0 && ex.volatElem(el)})
		return &LocalPtr{obj: o.id, idx: i}
	}
	ex.unsupp("index address of %T", x)
	return nil
}

func (ex *Exec) index(fr *frame, st *State, in *ssa.Index) Value {
	x := ex.term(fr, st, in.X)
	i := ex.term(fr, st, in.Index)
	if x.sort == SStr && isString(in.X.Type()) {
		return ex.byteAt(st, x, i, in.Pos())
	}
	ex.unsupp("index of %s", in.X.Type())
	return nil
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (ex *Exec) slice(fr *frame, st *State, in *ssa.Slice) Value {
	c := ex.c
	x := ex.get(fr, st, in.X)
	var lo, hi *Term
	if in.Low != nil {
		lo = ex.term(fr, st, in.Low)
	}
	if in.High != nil {
		hi = ex.term(fr, st, in.High)
	}
	if in.Max != nil {
		// Appending copies where capacity is not what matters anyway; a limit
		// beyond the length is not supported.
		if _, ok := x.(*LocalPtr); ok {
			ex.unsupp("3-index slice of an array")
		}
		max, end := ex.term(fr, st, in.Max), hi
		if end == nil {
			end = ex.sliceLen(st, x)
		}
		ex.oblige(st, "nopanic", "slice-in-range", nil, c.And(c.Le(end, max), c.Le(max, ex.sliceLen(st, x))), in.Pos())
	}
	if isString(in.X.Type()) {
		return ex.strSlice(st, ex.toTerm(st, x, in.X.Type()), lo, hi, in.Pos())
	}
	if lo == nil {
		lo = c.Int(0)
	}
	if p, ok := x.(*LocalPtr); ok {
		o := st.objs[p.obj]
		n := c.Len(o.seq)
		if hi == nil {
			hi = n
		}
		ex.oblige(st, "nopanic", "slice-in-range", nil, c.And(c.Le(c.Int(0), lo), c.Le(lo, hi), c.Le(hi, n)), in.Pos())
		return &LSlice{obj: p.obj, off: lo, len: c.Sub(hi, lo), elem: o.typ}
	}
	n := ex.sliceLen(st, x)
	if hi == nil {
		hi = n
	}
	// Reslicing beyond len (within cap) is not supported: require hi <= len.
	ex.oblige(st, "nopanic", "slice-in-range", nil, c.And(c.Le(c.Int(0), lo), c.Le(lo, hi), c.Le(hi, n)), in.Pos())
	if l, ok := x.(*LSlice); ok {
		return &LSlice{obj: l.obj, off: c.Add(l.off, lo), len: c.Sub(hi, lo), elem: l.elem}
	}
	tv := x.(*Term)
	return c.MkSlice(c.IsNilSlice(tv), c.Extract(c.SeqOfSlice(tv), lo, c.Sub(hi, lo)))
}

func (ex *Exec) binop(fr *frame, st *State, in *ssa.BinOp) Value {
	c := ex.c
	xv, yv := ex.get(fr, st, in.X), ex.get(fr, st, in.Y)
	if in.Op == token.EQL || in.Op == token.NEQ {
		r := ex.equal(st, xv, yv, in.X.Type(), in.Y.Type())
		if in.Op == token.NEQ {
			r = c.Not(r)
		}
		return ex.simp(st, r)
	}
	x, y := ex.toTerm(st, xv, in.X.Type()), ex.toTerm(st, yv, in.Y.Type())
	if isString(in.X.Type()) {
		switch in.Op {
		case token.ADD:
			return c.Concat(SStr, x, y)
		}
		ex.unsupp("string op %s", in.Op)
	}
	switch in.Op {
	case token.ADD:
		return c.Add(x, y)
	case token.SUB:
		return c.Sub(x, y)
	case token.MUL:
		return c.Mul(x, y)
	case token.REM:
		ex.oblige(st, "nopanic", "rem-nonneg", nil, c.And(c.Le(c.Int(0), x), c.Lt(c.Int(0), y)), in.Pos())
		return c.Mod(x, y)
	case token.QUO:
		ex.oblige(st, "nopanic", "quo-nonneg", nil, c.And(c.Le(c.Int(0), x), c.Lt(c.Int(0), y)), in.Pos())
		return c.Div(x, y)
	case token.LSS:
		return c.Lt(x, y)
	case token.LEQ:
		return c.Le(x, y)
	case token.GTR:
		return c.Lt(y, x)
	case token.GEQ:
		return c.Le(y, x)
	}
	ex.unsupp("binop %s", in.Op)
	return nil
}

// equal is Go's == on two values.
func (ex *Exec) equal(st *State, x, y Value, tx, ty types.Type) *Term {
	c := ex.c
	if px, ok := x.(*LocalPtr); ok {
		if py, ok := y.(*LocalPtr); ok {
			if px.obj != py.obj {
				return c.False
			}
			if fmt.Sprint(px.path) == fmt.Sprint(py.path) {
				return c.True
			}
			return c.False
		}
		if ty, ok := y.(*Term); ok {
			if ty.op == "null" {
				return c.False
			}
			if o := st.objs[px.obj]; o != nil && o.fresh && !o.pub {
				// An unshared fresh object is distinct from every other reference.
				return c.False
			}
		}
	} else if _, ok := y.(*LocalPtr); ok {
		return ex.equal(st, y, x, ty, tx)
	}
	if ix, ok := x.(*IfaceVal); ok {
		if ty, ok := y.(*Term); ok && ty.op == "inil" {
			_ = ix
			return c.False
		}
	}
	if iy, ok := y.(*IfaceVal); ok {
		if tx, ok := x.(*Term); ok && tx.op == "inil" {
			_ = iy
			return c.False
		}
	}
	if _, ok := x.(*LSlice); ok {
		return c.False // compared with nil
	}
	if cx, ok := x.(*Closure); ok {
		_ = cx
		return c.False // compared with nil
	}
	if _, ok := tx.Underlying().(*types.Slice); ok {
		// slices compare only with nil
		if yt, ok := y.(*Term); ok && strings.HasPrefix(yt.op, "mk_") && yt.args[0].isTrue() {
			return c.IsNilSlice(x.(*Term))
		}
		return c.IsNilSlice(y.(*Term))
	}
	if _, ok := tx.Underlying().(*types.Interface); ok {
		if _, ok := ty.Underlying().(*types.Interface); !ok {
			y = ex.makeIface(st, y, ty)
		}
	} else if _, ok := ty.Underlying().(*types.Interface); ok {
		x = ex.makeIface(st, x, tx)
	}
	return c.Eq(ex.toTerm(st, x, tx), ex.toTerm(st, y, ty))
}

func (ex *Exec) typeAssert(fr *frame, in *ssa.TypeAssert, st *State, k func(*frame, *State)) {
	c := ex.c
	x := ex.get(fr, st, in.X)
	at := in.AssertedType
	_, toIface := at.Underlying().(*types.Interface)
	setRes := func(v Value, ok *Term) {
		if in.CommaOk {
			fr.env[in] = Tuple{v, ok}
		} else {
			fr.env[in] = v
		}
	}
	if iv, ok := x.(*IfaceVal); ok {
		match := false
		if toIface {
			match = types.Implements(iv.typ, at.Underlying().(*types.Interface))
		} else {
			match = types.Identical(iv.typ, at)
		}
		if match {
			if toIface {
				setRes(iv, c.True)
			} else {
				setRes(iv.val, c.True)
			}
		} else {
			ex.oblige(st, "nopanic", "type-assert", nil, c.Bool(in.CommaOk), in.Pos())
			if !in.CommaOk {
				return
			}
			setRes(ex.zero(at), c.False)
		}
		k(fr, st)
		return
	}
	t := ex.narrow(st, x.(*Term))
	var ok *Term
	if toIface {
		ok = ex.simp(st, ex.implements(st, t, at))
	} else {
		ok = ex.simp(st, c.HasTag(t, ex.tt.tagOf(at)))
	}
	val := func() Value {
		if toIface {
			return t
		}
		if _, isPtr := at.Underlying().(*types.Pointer); isPtr {
			return c.IRef(t)
		}
		r := ex.unbox(at, c.IRef(t))
		ex.typeInv(st, r, at)
		return r
	}
	if !in.CommaOk {
		ex.oblige(st, "nopanic", "type-assert", nil, ok, in.Pos())
		fr.env[in] = val()
		k(fr, st)
		return
	}
	switch {
	case ok.isTrue():
		setRes(val(), c.True)
	case ok.isFalse():
		setRes(ex.zero(at), c.False)
	default:
		// Fork on the dynamic type, so later code sees a definite type.
		ex.npath++
		s1, f1 := st.clone(), fr.clone()
		s1.conds = append(s1.conds, ok)
		ex.assume(s1, ok)
		s1.trail = append(s1.trail, ex.pos(in.Pos())+"="+types.TypeString(at, func(*types.Package) string { return "" }))
		{
			save := fr
			fr = f1
			st0 := st
			st = s1
			setRes(val(), c.True)
			fr, st = save, st0
		}
		k(f1, s1)
		nc := c.Not(ok)
		st.conds = append(st.conds, nc)
		ex.assume(st, nc)
		setRes(ex.zero(at), c.False)
		k(fr, st)
		return
	}
	k(fr, st)
}

func (ex *Exec) implements(st *State, t *Term, at types.Type) *Term {
	tags := ex.tt.implTags(at)
	if tags == nil {
		return ex.c.App("implements_"+sanitize(at.String()), SBool, t)
	}
	if t.op == "iptr" && t.args[0].isInt() {
		for _, k := range tags {
			if k == t.args[0].ival {
				return ex.c.True
			}
		}
		return ex.c.False
	}
	if k, ok := st.tags[t]; ok {
		for _, j := range tags {
			if j == k {
				return ex.c.True
			}
		}
		return ex.c.False
	}
	var alts []*Term
	for _, k := range tags {
		alts = append(alts, ex.c.HasTag(t, k))
	}
	return ex.c.Or(alts...)
}

func copyLits(m map[*Term]bool) map[*Term]bool {
	n := make(map[*Term]bool, len(m))
	for k, v := range m {
		n[k] = v
	}
	return n
}

func copyTags(m map[*Term]int64) map[*Term]int64 {
	n := make(map[*Term]int64, len(m))
	for k, v := range m {
		n[k] = v
	}
	return n
}
