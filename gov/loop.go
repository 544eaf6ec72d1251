package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type loopInfo struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

var (
	loopMu    sync.Mutex
	loopCache = map[*ssa.Function]map[*ssa.BasicBlock]*loopInfo{}
)

// loopsOf finds the natural loops of a function.
func loopsOf(fn *ssa.Function) map[*ssa.BasicBlock]*loopInfo {
	loopMu.Lock()
	defer loopMu.Unlock()
	if l, ok := loopCache[fn]; ok {
		return l
	}
	m := map[*ssa.BasicBlock]*loopInfo{}
	for _, b := range fn.Blocks {
		for _, h := range b.Succs {
			if !h.Dominates(b) {
				continue
			}
			li := m[h]
			if li == nil {
				li = &loopInfo{header: h, blocks: map[*ssa.BasicBlock]bool{h: true}}
				m[h] = li
			}
			stack := []*ssa.BasicBlock{b}
			for len(stack) > 0 {
				x := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				if li.blocks[x] {
					continue
				}
				li.blocks[x] = true
				stack = append(stack, x.Preds...)
			}
		}
	}
	loopCache[fn] = m
	return m
}

type backEdge struct {
	st *State
	fr *frame
}

type cand struct {
	name string
	eval func(st *State, fr *frame) *Term // evaluated at the header with phi values in fr
	user bool
}

// runLoop verifies a loop with inferred invariants, then continues past it.
func (ex *Exec) runLoop(fr *frame, h, from *ssa.BasicBlock, li *loopInfo, st *State, k contFn) {
	ex.loopDepth++
	defer func() { ex.loopDepth-- }()
	if ex.spec > 0 {
		ex.unsupp("unbounded loop in specification code %s", fr.fn)
	}
	// Entry values.
	ex.phis(fr, h, from, st)
	var phis []*ssa.Phi
	for _, in := range h.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
	}
	entry := map[*ssa.Phi]Value{}
	for _, p := range phis {
		entry[p] = fr.env[p]
	}
	entrySt := st.clone()
	entryFr := fr.clone()

	noK := func(*State, []Value) {}
	runBody := func(hs *State, hf *frame) []backEdge {
		var backs []backEdge
		hf.loops[h] = &activeLoop{dryStop: true, li: li, onBack: func(s *State, f *frame, from *ssa.BasicBlock) {
			f2 := f.clone()
			ex.phis(f2, h, from, s)
			backs = append(backs, backEdge{s, f2})
		}}
		ex.dry++
		ex.runInstrs(hf, h, phiCount(h), hs, noK)
		ex.dry--
		return backs
	}

	// Discover which objects and ghosts the loop changes.
	mod := map[int]bool{}
	ghosts := map[string]bool{}
	changedPhi := map[*ssa.Phi]bool{}
	for _, p := range phis {
		changedPhi[p] = true
	}
	lateMod := false
	// Phis and objects whose slices may be foreign after an iteration.
	lost := &lostSlices{phis: map[*ssa.Phi]bool{}, objs: map[int]bool{}}
	for iter := 0; iter < 8; iter++ {
		hs, hf := ex.havoc(entrySt, entryFr, phis, entry, mod, ghosts, lost)
		before := map[int]*Obj{}
		for id, o := range hs.objs {
			before[id] = o
		}
		bg := map[string]*Term{}
		for g, t := range hs.ghost {
			bg[g] = t
		}
		backs := runBody(hs.clone(), hf.clone())
		grew := false
		for _, b := range backs {
			for id, o := range before {
				n := b.st.objs[id]
				if n != nil && !sameObj(o, n) && !mod[id] {
					mod[id] = true
					grew = true
				}
				if n != nil && !lost.objs[id] && loses(b.st, o.val, n.val) {
					lost.objs[id] = true
					grew = true
				}
			}
			for _, p := range phis {
				if _, ok := entry[p].(*LSlice); ok && !lost.phis[p] && loses(b.st, entry[p], b.fr.env[p]) {
					lost.phis[p] = true
					grew = true
				}
			}
			for g, t := range b.st.ghost {
				if strings.HasPrefix(g, "lateDone") {
					continue
				}
				if bg[g] != t && !ghosts[g] {
					ghosts[g] = true
					grew = true
				}
			}
			if len(b.st.late) != len(entrySt.late) {
				lateMod = true
			}
		}
		if !grew {
			break
		}
	}

	// Candidate invariants.
	cands := ex.candidates(entrySt, entryFr, phis, entry, mod, len(mod) > 0 || len(ghosts) > 0 || lateMod)
	// Entry check.
	{
		var goals []*Term
		var sts []*State
		for _, cd := range cands {
			s := entrySt.clone()
			goals = append(goals, ex.evalCand(cd, s, entryFr))
			sts = append(sts, s)
		}
		oks := ex.proveAll(sts, goals, limits(cands))
		var keep []*cand
		for i, cd := range cands {
			if oks[i] {
				keep = append(keep, cd)
			} else if debugExec && cd.user {
				fmt.Printf("  inv dropped at entry: %s: %v\n", cd.name, goals[i])
			}
		}
		cands = keep
	}
	// Inductive fixpoint.
	for {
		hs, hf := ex.havoc(entrySt, entryFr, phis, entry, mod, ghosts, lost)
		for _, cd := range cands {
			if g := ex.evalCand(cd, hs, hf); g != nil {
				ex.assume(hs, g)
			}
		}
		backs := runBody(hs.clone(), hf.clone())
		bad := map[*cand]bool{}
		for _, b := range backs {
			var goals []*Term
			var cs []*cand
			var sts []*State
			for _, cd := range cands {
				if !bad[cd] {
					s := b.st.clone()
					cs = append(cs, cd)
					goals = append(goals, ex.evalCand(cd, s, b.fr))
					sts = append(sts, s)
				}
			}
			oks := ex.proveAll(sts, goals, limits(cs))
			for i, ok := range oks {
				if !ok {
					bad[cs[i]] = true
					if debugExec && cs[i].user {
						fmt.Printf("  inv not preserved: %s: %v\n   trail %v\n", cs[i].name, goals[i], b.st.trail)
					}
				}
			}
		}
		if len(bad) == 0 {
			if debugExec {
				fmt.Printf("  loop %s@%s: %d backs, invariants:\n", fr.fn.Name(), ex.pos(loopPos(h)), len(backs))
				for _, cd := range cands {
					fmt.Printf("    %s\n", cd.name)
				}
			}
			if ex.dry == 0 {
				for _, cd := range cands {
					if cd.user {
						ex.obls = append(ex.obls, &Obligation{Name: ex.unit + "/loop-invariant " + cd.name, Kind: "invariant", Unit: ex.unit, Status: "proved", Solver: "z3", Pos: ex.pos(loopPos(h))})
					}
				}
			}
			break
		}
		var keep []*cand
		for _, cd := range cands {
			if !bad[cd] {
				keep = append(keep, cd)
			}
		}
		cands = keep
	}
	// Final run.
	hs, hf := ex.havoc(entrySt, entryFr, phis, entry, mod, ghosts, lost)
	for _, cd := range cands {
		if g := ex.evalCand(cd, hs, hf); g != nil {
			ex.assume(hs, g)
		}
	}
	hs.trail = append(hs.trail, "loop@"+ex.pos(loopPos(h)))
	hf.loops[h] = &activeLoop{li: li, onBack: func(*State, *frame, *ssa.BasicBlock) {}}
	ex.runInstrs(hf, h, phiCount(h), hs, k)
}

func loopPos(h *ssa.BasicBlock) (p tokenPos) {
	for _, in := range h.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	for _, s := range h.Succs {
		for _, in := range s.Instrs {
			if in.Pos().IsValid() {
				return in.Pos()
			}
		}
	}
	return 0
}

func sameObj(a, b *Obj) bool {
	if a == b {
		return true
	}
	return a.kind == b.kind && sameValue(a.val, b.val) && a.seq == b.seq && a.pos == b.pos && a.mapGet == b.mapGet && a.mapHas == b.mapHas
}

func sameValue(a, b Value) bool {
	switch a := a.(type) {
	case nil:
		return b == nil
	case *Term:
		return a == b
	case *StructVal:
		bb, ok := b.(*StructVal)
		if !ok {
			return false
		}
		for i := range a.fields {
			if !sameValue(a.fields[i], bb.fields[i]) {
				return false
			}
		}
		return true
	case *LocalPtr:
		bb, ok := b.(*LocalPtr)
		return ok && a.obj == bb.obj && a.idx == bb.idx && fmt.Sprint(a.path) == fmt.Sprint(bb.path)
	case *LSlice:
		bb, ok := b.(*LSlice)
		return ok && a.obj == bb.obj && a.off == bb.off && a.len == bb.len
	case *IfaceVal:
		bb, ok := b.(*IfaceVal)
		return ok && types.Identical(a.typ, bb.typ) && sameValue(a.val, bb.val)
	case *Closure:
		bb, ok := b.(*Closure)
		return ok && a == bb
	case *MapVal:
		bb, ok := b.(*MapVal)
		return ok && a.obj == bb.obj
	}
	return false
}

func (ex *Exec) havoc(st *State, fr *frame, phis []*ssa.Phi, entry map[*ssa.Phi]Value, mod map[int]bool, ghosts map[string]bool, lost *lostSlices) (*State, *frame) {
	hs, hf := st.clone(), fr.clone()
	hs.once = map[*Term]Value{}
	for _, p := range phis {
		switch e := entry[p].(type) {
		case *LSlice:
			if lost.phis[p] {
				ex.toTerm(hs, e, p.Type())
				hf.env[p] = ex.freshTerm(hs, "phi_"+p.Comment, p.Type())
				break
			}
			hf.env[p] = ex.havocSlice(hs, e)
		case *LocalPtr, *Closure, *MapVal, *IterVal:
			hf.env[p] = e // must be unchanged; checked below
		default:
			hf.env[p] = ex.freshTerm(hs, "phi_"+p.Comment, p.Type())
		}
	}
	for id := range mod {
		o := hs.objs[id]
		if o == nil {
			continue
		}
		if lost.objs[id] && o.kind == oCell {
			ex.share(hs, o.val, o.typ)
			hs.objs[id] = ex.havocObj(hs, hs.objs[id], true)
			continue
		}
		hs.objs[id] = ex.havocObj(hs, o, false)
	}
	for g := range ghosts {
		if t := hs.ghost[g]; t != nil {
			hs.ghost[g] = ex.c.Fresh("gh", t.sort)
		}
	}
	return hs, hf
}

// lostSlices tells which slices do not stay the function's own in a loop.
type lostSlices struct {
	phis map[*ssa.Phi]bool
	objs map[int]bool
}

// loses: b, after an iteration, is not the function's own slice that a was.
func loses(st *State, a, b Value) bool {
	switch a := a.(type) {
	case *LSlice:
		bb, ok := b.(*LSlice)
		return !ok || st.objs[bb.obj] == nil || st.objs[bb.obj].pub
	case *StructVal:
		bb, ok := b.(*StructVal)
		if !ok {
			return true
		}
		for i := range a.fields {
			if loses(st, a.fields[i], bb.fields[i]) {
				return true
			}
		}
	}
	return false
}

// share publishes the slices in v.
func (ex *Exec) share(st *State, v Value, t types.Type) {
	switch v := v.(type) {
	case *LSlice:
		ex.toTerm(st, v, t)
	case *StructVal:
		for i := range v.fields {
			ex.share(st, v.fields[i], v.typ.Field(i).Type())
		}
	}
}

// havocSlice makes a slice of its own of any content.
func (ex *Exec) havocSlice(st *State, e *LSlice) *LSlice {
	o := ex.newObj(st, &Obj{kind: oArray, typ: e.elem, seq: ex.c.Fresh("hv", st.objs[e.obj].seq.sort), fresh: true})
	return &LSlice{obj: o.id, off: ex.c.Int(0), len: ex.c.Len(o.seq), elem: e.elem}
}

func (ex *Exec) havocObj(st *State, o *Obj, foreign bool) *Obj {
	n := *o
	switch o.kind {
	case oArray:
		n.seq = ex.c.Fresh("hv", o.seq.sort)
		// The length of an array is fixed.
		ex.c.lens[n.seq] = ex.c.Len(o.seq)
	case oBuilder:
		n.seq = ex.c.Fresh("out", SStr)
	case oCell:
		n.val = ex.havocVal(st, o.val, o.typ, foreign)
	case oIter:
		n.pos = ex.c.Fresh("pos", SInt)
	case oMap:
		if n.mapGet != nil {
			n.mapGet = ex.c.Fresh("map", o.mapGet.sort)
			n.mapHas = ex.c.Fresh("mapHas", o.mapHas.sort)
		}
	}
	return &n
}

// havocVal replaces a mutable value, keeping pointers to tracked objects.
func (ex *Exec) havocVal(st *State, v Value, t types.Type, foreign bool) Value {
	switch v := v.(type) {
	case *StructVal:
		fs := make([]Value, len(v.fields))
		for i := range fs {
			fs[i] = ex.havocVal(st, v.fields[i], v.typ.Field(i).Type(), foreign)
		}
		return &StructVal{typ: v.typ, fields: fs}
	case *LocalPtr, *MapVal, *Closure:
		return v
	case *LSlice:
		if !foreign && !st.objs[v.obj].pub {
			return ex.havocSlice(st, v)
		}
	case *IfaceVal:
		if _, ok := v.val.(*LocalPtr); ok {
			return v
		}
	}
	return ex.freshTerm(st, "hv", t)
}

func (ex *Exec) evalCand(cd *cand, st *State, fr *frame) (t *Term) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(unsupportedErr); ok {
				t = nil
				return
			}
			panic(r)
		}
	}()
	return cd.eval(st, fr)
}

// limits says which candidates are worth more time: those a contract states,
// unless there are many ways to read them.
func limits(cs []*cand) func(i int) bool {
	n := 0
	for _, cd := range cs {
		if cd.user {
			n++
		}
	}
	return func(i int) bool { return n <= 60 && cs[i].user }
}

func (ex *Exec) proveAll(sts []*State, goals []*Term, long func(i int) bool) []bool {
	oks := make([]bool, len(goals))
	var qs []*query
	var idx []int
	for i, g := range goals {
		if g == nil {
			continue
		}
		st := sts[i]
		g = ex.simp(st, g)
		if g.isTrue() {
			oks[i] = true
			continue
		}
		if g.isFalse() && len(goals) > 8 {
			// It cannot hold unless the path is infeasible.
			continue
		}
		qs = append(qs, ex.mkQuery(st.facts, st.lits, st.tags, g))
		idx = append(idx, i)
	}
	if debugExec {
		fmt.Printf("  %d queries\n", len(qs))
	}
	res := ex.solver.RunEach(qs, func(j int) time.Duration {
		if long(idx[j]) {
			return 3 * ex.solver.HoudiniTimeout
		}
		return ex.solver.HoudiniTimeout
	})
	for j, r := range res {
		oks[idx[j]] = r.status == "unsat"
	}
	return oks
}

type poolVal struct {
	name string
	get  func(st *State, fr *frame) Value
	ent  Value // value at loop entry (for e_ placeholders)
	typ  types.Type
	vary bool // changes while the loop runs
}

// called: the value is that of a variable with this name.
func (pv poolVal) called(name string) bool {
	i := strings.IndexByte(pv.name, '/')
	return i > 0 && pv.name[:i] == name
}

// candidates instantiates invariant templates.
func (ex *Exec) candidates(st *State, fr *frame, phis []*ssa.Phi, entry map[*ssa.Phi]Value, mod map[int]bool, changes bool) []*cand {
	var cands []*cand
	c := ex.c
	isPhi := map[ssa.Value]bool{}
	var pool []poolVal
	for _, p := range phis {
		p := p
		isPhi[p] = true
		pool = append(pool, poolVal{p.Comment + "/" + p.Name(), func(s *State, f *frame) Value { return f.env[p] }, entry[p], p.Type(), true})
		if isIntType(p.Type()) {
			pool = append(pool, poolVal{p.Comment + "/" + p.Name() + "+1", func(s *State, f *frame) Value { return c.Add(f.env[p].(*Term), c.Int(1)) }, nil, p.Type(), true})
		}
	}
	// Other values in scope.
	var others []ssa.Value
	for v := range fr.env {
		if !isPhi[v] {
			others = append(others, v)
		}
	}
	sort.Slice(others, func(i, j int) bool { return others[i].Name() < others[j].Name() })
	type same struct {
		t *Term
		k string
	}
	seenVal := map[same]bool{}
	for _, v := range others {
		v := v
		if v.Type() == nil {
			continue
		}
		if _, ok := v.Type().(*types.Tuple); ok {
			continue
		}
		vary := false
		reach := map[int]bool{}
		ex.reachable(st, fr.env[v], reach)
		for id := range reach {
			vary = vary || mod[id]
		}
		if t, ok := fr.env[v].(*Term); ok && !vary {
			// Several names of one value.
			k := same{t, types.TypeString(v.Type(), nil)}
			if seenVal[k] {
				continue
			}
			seenVal[k] = true
		}
		pool = append(pool, poolVal{v.Name(), func(s *State, f *frame) Value { return f.env[v] }, fr.env[v], v.Type(), vary})
	}
	// Iterator positions and builders among modified objects.
	var ids []int
	for id := range mod {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		id := id
		o := st.objs[id]
		switch o.kind {
		case oIter:
			pool = append(pool, poolVal{fmt.Sprintf("iter%d", id), func(s *State, f *frame) Value { return s.objs[id].pos }, o.pos, types.Typ[types.Int], true})
		case oCell:
			if _, ok := o.val.(*Term); ok {
				// A boxed scalar variable.
				pool = append(pool, poolVal{fmt.Sprintf("cell%d", id), func(s *State, f *frame) Value { return s.objs[id].val }, o.val, o.typ, true})
			}
		}
	}
	// Automatic bounds for integers.
	var lens []func(s *State, f *frame) *Term
	var lenNames []string
	for _, pv := range pool {
		pv := pv
		switch pv.typ.Underlying().(type) {
		case *types.Slice:
			lens = append(lens, func(s *State, f *frame) *Term { return ex.sliceLen(s, pv.get(s, f)) })
			lenNames = append(lenNames, "len("+pv.name+")")
		case *types.Basic:
			if isString(pv.typ) {
				lens = append(lens, func(s *State, f *frame) *Term { return c.Len(ex.toTerm(s, pv.get(s, f), pv.typ)) })
				lenNames = append(lenNames, "runes("+pv.name+")")
			}
		}
	}
	for _, id := range ids {
		id := id
		if o := st.objs[id]; o.kind == oIter && o.str != nil {
			lens = append(lens, func(s *State, f *frame) *Term { return c.Len(s.objs[id].str) })
			lenNames = append(lenNames, fmt.Sprintf("runes(iter%d)", id))
		}
	}
	for _, pv := range pool {
		pv := pv
		if !isIntType(pv.typ) {
			continue
		}
		var p *ssa.Phi
		for _, q := range phis {
			if pv.name == q.Comment+"/"+q.Name() {
				p = q
			}
		}
		if p == nil && !strings.HasPrefix(pv.name, "iter") && !strings.HasPrefix(pv.name, "cell") {
			continue
		}
		ent, ok := pv.ent.(*Term)
		if !ok {
			continue
		}
		cands = append(cands,
			&cand{name: pv.name + " >= entry", eval: func(s *State, f *frame) *Term { return c.Le(ent, pv.get(s, f).(*Term)) }},
			&cand{name: pv.name + " <= entry", eval: func(s *State, f *frame) *Term { return c.Le(pv.get(s, f).(*Term), ent) }})
		for i, l := range lens {
			l := l
			cands = append(cands,
				&cand{name: pv.name + " <= " + lenNames[i], eval: func(s *State, f *frame) *Term { return c.Le(pv.get(s, f).(*Term), l(s, f)) }},
				&cand{name: pv.name + " < " + lenNames[i], eval: func(s *State, f *frame) *Term { return c.Lt(pv.get(s, f).(*Term), l(s, f)) }})
		}
	}
	// Templates.
	entrySnap := st.clone()
	for _, cl := range ex.curInvs {
		cands = append(cands, ex.instantiate(cl, pool, entrySnap, changes)...)
	}
	return cands
}

func isIntType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// instantiate builds candidates from a template clause.
func (ex *Exec) instantiate(cl *Clause, pool []poolVal, entrySnap *State, changes bool) []*cand {
	fn := cl.fn
	np := len(fn.Params)
	base := len(ex.curArgs)
	// Clause params: root args (with old_ interleaved), then placeholders.
	var fixed []func(s *State, f *frame) Value
	for i := 0; i < base; i++ {
		v := ex.curArgs[i]
		fixed = append(fixed, func(*State, *frame) Value { return v })
	}
	type slot struct {
		p     *ssa.Parameter
		entOf int // index of slot whose entry value is wanted, or -1
	}
	var slots []slot
	idx := map[string]int{}
	for i := base; i < np; i++ {
		p := fn.Params[i]
		s := slot{p: p, entOf: -1}
		if strings.HasPrefix(p.Name(), "e_") {
			if j, ok := idx[p.Name()[2:]]; ok {
				s.entOf = j
			}
		}
		idx[p.Name()] = len(slots)
		slots = append(slots, s)
	}
	var out []*cand
	choice := make([]int, len(slots))
	var named []bool
	var rec func(i int)
	rec = func(i int) {
		if len(out) > 400 {
			return
		}
		if i == len(slots) {
			ct := ex.rootC
			vary := changes && (len(slots) == 0 || ct == nil || len(ct.Mutates) > 0 || ct.Flags["calls"] || ct.Flags["traces"])
			for j := range slots {
				vary = vary || pool[choice[j]].vary
			}
			if !vary {
				// Nothing the loop changes: no need for an invariant.
				return
			}
			ch := append([]int{}, choice...)
			var names []string
			for j, s := range slots {
				if s.entOf < 0 {
					names = append(names, s.p.Name()+"="+pool[ch[j]].name)
				}
			}
			out = append(out, &cand{
				user: true,
				name: cl.Label + "[" + strings.Join(names, ",") + "]",
				eval: func(s *State, f *frame) *Term {
					var args []Value
					for _, fx := range fixed {
						args = append(args, fx(s, f))
					}
					for j, sl := range slots {
						if sl.entOf >= 0 {
							args = append(args, ex.entrySnapshot(s, entrySnap, pool[ch[sl.entOf]].ent))
						} else {
							args = append(args, pool[ch[j]].get(s, f))
						}
					}
					return ex.evalClause(cl, args, s)
				},
			})
			return
		}
		if slots[i].entOf >= 0 {
			choice[i] = choice[slots[i].entOf]
			if pool[choice[i]].ent == nil {
				return
			}
			rec(i + 1)
			return
		}
		for j, pv := range pool {
			if types.Identical(pv.typ, slots[i].p.Type()) {
				if named[i] && !pv.called(slots[i].p.Name()) {
					continue
				}
				choice[i] = j
				rec(i + 1)
			}
		}
	}
	// A variable with the name of a placeholder is tried alone first.
	named = make([]bool, len(slots))
	if ex.byName {
		for i, s := range slots {
			for _, pv := range pool {
				if types.Identical(pv.typ, s.p.Type()) && pv.called(s.p.Name()) {
					named[i] = true
					ex.named = true
				}
			}
		}
	}
	rec(0)
	return out
}

// entrySnapshot gives a value as it was at loop entry.
func (ex *Exec) entrySnapshot(s *State, snap *State, v Value) Value {
	switch v := v.(type) {
	case *LocalPtr:
		o := *snap.objs[v.obj]
		o.param = false
		n := ex.newObj(s, &o)
		return &LocalPtr{obj: n.id, path: v.path, idx: v.idx}
	case *LSlice:
		o := *snap.objs[v.obj]
		n := ex.newObj(s, &o)
		return &LSlice{obj: n.id, off: v.off, len: v.len, elem: v.elem}
	case *IfaceVal:
		return &IfaceVal{v.typ, ex.entrySnapshot(s, snap, v.val)}
	}
	return v
}

type tokenPos = token.Pos
