package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Value is a symbolic value: *Term or one of the richer forms below.
type Value interface{}

type Tuple []Value

// LocalPtr points into an object whose content is tracked in the state.
type LocalPtr struct {
	obj  int
	idx  *Term // element index for array objects, else nil
	path []int // struct field path
}

// LSlice is a slice of a tracked array object.
type LSlice struct {
	obj      int
	off, len *Term
	elem     types.Type
}

type Closure struct {
	fn   *ssa.Function
	bind []Value
}

// IfaceVal is an interface holding a value that is not (yet) a Term.
type IfaceVal struct {
	typ types.Type
	val Value
}

// StructVal is a struct whose fields may be non-Terms.
type StructVal struct {
	typ    *types.Struct
	fields []Value
}

// MapVal is a tracked (local) map.
type MapVal struct{ obj int }

// RV models reflect.Value over an interface term.
type RV struct {
	iface Value // Term Iface or IfaceVal
	valid bool
}

// GlobalPtr is the address of a package-level variable.
type GlobalPtr struct {
	g    *ssa.Global
	path []int
}

// ConstMap is a guarded choice between constant map tables.
type ConstMap struct {
	alts []constAlt
	typ  *types.Map
}

type constAlt struct {
	cond *Term
	tab  *constData
}

// IterVal is a range iterator; its position lives in an object.
type IterVal struct {
	obj  int
	str  *Term // string being iterated
	mapv Value // or map
}

type objKind int

const (
	oCell    objKind = iota // any single value (struct or scalar)
	oArray                  // array/slice backing
	oBuilder                // strings.Builder or an abstract io.Writer
	oMap
	oIter
)

// Obj is the state of a tracked object. Objs are immutable; updates replace them.
type Obj struct {
	id      int
	kind    objKind
	typ     types.Type // cell type or element type
	val     Value      // oCell content
	seq     *Term      // oArray content, oBuilder content
	pos     *Term      // oIter
	str     *Term      // oIter over a string
	canFail *Term      // oBuilder: whether writes may fail
	mapGet  *Term      // oMap: (Array K V)
	mapHas  *Term
	keyT    types.Type
	ref     *Term // reference constant
	volat   bool  // elements may change at any time
	pub     bool  // published: field facts asserted, no more writes
	param   bool  // mutable parameter object
	fresh   bool
	sealed  bool // given to a call whose effect on it is not seen
	reads   int  // calls that may read settling fields, when published
}

func (p *LocalPtr) String() string { return fmt.Sprintf("&obj%d%v", p.obj, p.path) }

// State is the state of one symbolic path. It is copied on fork.
type State struct {
	reads int // calls that may read settling fields
	facts []*Term
	lits  map[*Term]bool
	tags  map[*Term]int64
	conds []*Term // branch conditions since the base of a spec evaluation
	objs  map[int]*Obj
	ghost map[string]*Term
	trail []string // human readable branch trail
	late  []lateFact
	stale map[*Term]bool
	once  map[*Term]Value // values seen in assigned-once fields since the last call
}

type lateFact struct {
	loc *Term
	val Value
}

func newState() *State {
	return &State{lits: map[*Term]bool{}, tags: map[*Term]int64{}, objs: map[int]*Obj{}, ghost: map[string]*Term{}, once: map[*Term]Value{}, stale: map[*Term]bool{}}
}

func (s *State) clone() *State {
	n := &State{
		reads: s.reads,
		facts: s.facts[:len(s.facts):len(s.facts)],
		conds: s.conds[:len(s.conds):len(s.conds)],
		trail: s.trail[:len(s.trail):len(s.trail)],
		late:  s.late[:len(s.late):len(s.late)],
		once:  map[*Term]Value{},
		stale: map[*Term]bool{},
		lits:  make(map[*Term]bool, len(s.lits)+4),
		tags:  make(map[*Term]int64, len(s.tags)+2),
		objs:  make(map[int]*Obj, len(s.objs)+2),
		ghost: make(map[string]*Term, len(s.ghost)),
	}
	for k, v := range s.lits {
		n.lits[k] = v
	}
	for k, v := range s.stale {
		n.stale[k] = v
	}
	for k, v := range s.once {
		n.once[k] = v
	}
	for k, v := range s.tags {
		n.tags[k] = v
	}
	for k, v := range s.objs {
		n.objs[k] = v
	}
	for k, v := range s.ghost {
		n.ghost[k] = v
	}
	return n
}
