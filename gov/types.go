package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// TypeTab maps Go types to sorts and dynamic-type tags.
type TypeTab struct {
	c       *Ctx
	w       *World
	tags    map[string]int64
	tagType map[int64]types.Type
	impl    map[string][]int64
	implOK  map[string]bool
	ids     map[string]string
	subInfo map[string]fieldAddr
	lateF   map[string]bool // "structID/field"
	openF   map[string]bool
	volF    map[string]bool
	setF    map[string]bool
	named   []*types.Named
	next    [8]int64
}

func NewTypeTab(c *Ctx, w *World) *TypeTab {
	tt := &TypeTab{c: c, w: w, tags: map[string]int64{}, tagType: map[int64]types.Type{}, impl: map[string][]int64{}, implOK: map[string]bool{},
		ids: map[string]string{}, subInfo: map[string]fieldAddr{}, lateF: map[string]bool{}, openF: map[string]bool{}, volF: map[string]bool{}, setF: map[string]bool{}}
	var names []string
	byName := map[string]*types.Named{}
	for _, p := range w.Pkgs {
		for _, m := range p.Members {
			if t, ok := m.(*ssa.Type); ok {
				if n, ok := t.Type().(*types.Named); ok {
					k := n.String()
					names = append(names, k)
					byName[k] = n
				}
			}
		}
	}
	sort.Strings(names)
	for _, k := range names {
		if w.neverBoxed(byName[k]) {
			continue
		}
		tt.named = append(tt.named, byName[k])
	}
	return tt
}

func (tt *TypeTab) sortOf(t types.Type) Sort {
	if isNamed(t, "strings", "Builder") {
		return SStr
	}
	if isOpaqueStruct(t) {
		return SRef
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return SBool
		case u.Info()&types.IsInteger != 0:
			return SInt
		case u.Info()&types.IsString != 0:
			return SStr
		case u.Kind() == types.UntypedNil:
			return SRef
		}
	case *types.Pointer, *types.Map, *types.Chan:
		return SRef
	case *types.Interface:
		return SIface
	case *types.Signature:
		return SFn
	case *types.Array:
		// Only as an opaque value.
		return SeqOf(tt.sortOf(u.Elem()))
	case *types.Slice:
		return tt.c.SliceSort(tt.sortOf(u.Elem()))
	case *types.Struct:
		key := "struct:" + tt.structKey(u)
		if s, ok := tt.c.structs[key]; ok {
			return s.name
		}
		var fs []Sort
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, tt.sortOf(u.Field(i).Type()))
		}
		return tt.c.StructSort(key, fs)
	}
	panic(unsupportedErr{"sort of " + t.String()})
}

func (tt *TypeTab) structKey(s *types.Struct) string {
	return types.TypeString(s, nil)
}

func (tt *TypeTab) structID(s *types.Struct) string {
	k := tt.structKey(s)
	id, ok := tt.ids[k]
	if !ok {
		id = fmt.Sprintf("S%d", len(tt.ids))
		tt.ids[k] = id
		for i := 0; i < s.NumFields(); i++ {
			tt.subInfo[fmt.Sprintf("sub_%s_%d", id, i)] = fieldAddr{s, i}
		}
	}
	return id
}

func (tt *TypeTab) isLate(s *types.Struct, i int) bool {
	if len(tt.lateF) == 0 {
		return false
	}
	return tt.lateF[fmt.Sprintf("%s/%d", tt.structID(s), i)]
}
func (tt *TypeTab) isOpen(s *types.Struct, i int) bool {
	return tt.openF[fmt.Sprintf("%s/%d", tt.structID(s), i)]
}

// isVolatile: the field may be written by anyone at any time, so nothing is
// known of it but in memory only the function itself can reach.
func (tt *TypeTab) isVolatile(s *types.Struct, i int) bool {
	return len(tt.volF) > 0 && tt.volF[fmt.Sprintf("%s/%d", tt.structID(s), i)]
}

// isSettling: the field is assigned before anyone can read it.
func (tt *TypeTab) isSettling(s *types.Struct, i int) bool {
	return len(tt.setF) > 0 && tt.setF[fmt.Sprintf("%s/%d", tt.structID(s), i)]
}

func (tt *TypeTab) setSettling(n *types.Named, fields []string) {
	s := n.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		for _, f := range fields {
			if s.Field(i).Name() == f {
				tt.lateF[fmt.Sprintf("%s/%d", tt.structID(s), i)] = true
				tt.setF[fmt.Sprintf("%s/%d", tt.structID(s), i)] = true
			}
		}
	}
}

func (tt *TypeTab) setVolatile(n *types.Named, fields []string) {
	s := n.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		for _, f := range fields {
			if s.Field(i).Name() == f {
				tt.lateF[fmt.Sprintf("%s/%d", tt.structID(s), i)] = true
				tt.volF[fmt.Sprintf("%s/%d", tt.structID(s), i)] = true
			}
		}
	}
}

// setLate declares late-initialised fields of a named struct type.
func (tt *TypeTab) setLate(n *types.Named, fields []string, open []string) {
	s := n.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		for _, f := range fields {
			if s.Field(i).Name() == f {
				tt.lateF[fmt.Sprintf("%s/%d", tt.structID(s), i)] = true
			}
		}
		for _, f := range open {
			if s.Field(i).Name() == f {
				tt.openF[fmt.Sprintf("%s/%d", tt.structID(s), i)] = true
			}
		}
	}
}

// tagOf numbers dynamic types: 1.. pointers, 1000.. slices, 2000.. strings,
// 3000.. integers, 4000.. structs, 5000.. functions, 6000.. others.
func (tt *TypeTab) tagOf(t types.Type) int64 {
	k := types.TypeString(types.Unalias(t), nil)
	if v, ok := tt.tags[k]; ok {
		return v
	}
	g := int64(6)
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		g = 0
	case *types.Slice:
		g = 1
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			g = 2
		} else {
			g = 3
		}
	case *types.Struct:
		g = 4
	case *types.Signature:
		g = 5
	}
	tt.next[g]++
	v := g*1000 + tt.next[g]
	tt.tags[k] = v
	tt.tagType[v] = t
	return v
}

func (tt *TypeTab) tagName(v int64) string {
	if t, ok := tt.tagType[v]; ok {
		return types.TypeString(t, func(*types.Package) string { return "" })
	}
	return fmt.Sprint(v)
}

// closed reports whether an interface can only be implemented in this module.
func (tt *TypeTab) closed(t types.Type) bool {
	u, ok := t.Underlying().(*types.Interface)
	if !ok {
		return false
	}
	for i := 0; i < u.NumMethods(); i++ {
		if !u.Method(i).Exported() {
			return true
		}
	}
	return false
}

// implTypes lists the module's types that implement the interface.
func (tt *TypeTab) implTypes(t types.Type) []types.Type {
	u := t.Underlying().(*types.Interface)
	var out []types.Type
	for _, n := range tt.named {
		if _, isI := n.Underlying().(*types.Interface); isI {
			continue
		}
		if strings.HasPrefix(n.Obj().Name(), "gov") {
			continue
		}
		// Pointer receivers only, unless the value type itself implements it.
		switch n.Underlying().(type) {
		case *types.Struct:
			if types.Implements(types.NewPointer(n), u) {
				out = append(out, types.NewPointer(n))
			}
		default:
			if types.Implements(n, u) {
				out = append(out, n)
			} else if types.Implements(types.NewPointer(n), u) {
				out = append(out, types.NewPointer(n))
			}
		}
	}
	return out
}

func (tt *TypeTab) implTags(t types.Type) []int64 {
	k := types.TypeString(t, nil)
	if r, ok := tt.impl[k]; ok {
		return r
	}
	var out []int64
	if tt.closed(t) {
		for _, it := range tt.implTypes(t) {
			out = append(out, tt.tagOf(it))
		}
	}
	tt.impl[k] = out
	return out
}
