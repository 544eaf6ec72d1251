package logic

// ---- argument places (C10) ----

// govFirstNil is the index of the first empty slot, or len(as).
func govFirstNil(as []Argument) int {
	for i, a := range as {
		if a == nil {
			return i
		}
	}
	return len(as)
}

// slotsFor is the number of slots arguments need.
//
//@ spec foldl=moreSlots
func slotsFor(n int, args []argument) int {
	for _, a := range args {
		n = moreSlots(n, a)
	}
	return n
}

//@ spec inline
func moreSlots(n int, a argument) int {
	if a.pos > n {
		return a.pos
	}
	return n
}

// placed is the slots once every linked argument is in the place it names.
//
//@ spec foldl=place
func placed(slots []Argument, args []argument) []Argument {
	for _, a := range args {
		slots = place(slots, a)
	}
	return slots
}

//@ spec inline
func place(slots []Argument, a argument) []Argument {
	if a.pos <= 0 {
		return slots
	}
	return govUpdate(slots, a.pos-1, a.Argument)
}

//@ spec inline
func govUpdate(s []Argument, i int, a Argument) []Argument {
	return append(append(append([]Argument{}, s[:i]...), a), s[i+1:]...)
}

// filled is the slots once every other argument, in order, is in the first
// empty slot.
//
//@ spec foldl=fill
func filled(slots []Argument, args []argument) []Argument {
	for _, a := range args {
		slots = fill(slots, a)
	}
	return slots
}

//@ spec inline
func fill(slots []Argument, a argument) []Argument {
	if a.pos > 0 || govFirstNil(slots) >= len(slots) {
		return slots
	}
	return govUpdate(slots, govFirstNil(slots), a.Argument)
}

//@ spec inline
func emptySlots(n int) []Argument { return make([]Argument, n) }

//@ spec inline
func ordered(args []argument) []Argument {
	return filled(placed(emptySlots(slotsFor(len(args), args)), args), args)
}

// free counts empty slots, open counts arguments without a place.

//@ spec inline
func freeOne(a Argument) []bool {
	if a == nil {
		return []bool{true}
	}
	return nil
}

//@ spec fold=freeOne
func free(as []Argument) []bool {
	var n []bool
	for _, a := range as {
		n = append(n, freeOne(a)...)
	}
	return n
}

//@ spec inline
func unplacedOne(a argument) []bool {
	if a.pos <= 0 {
		return []bool{true}
	}
	return nil
}

//@ spec fold=unplacedOne
func unplaced(as []argument) []bool {
	var n []bool
	for _, a := range as {
		n = append(n, unplacedOne(a)...)
	}
	return n
}

//@ spec inline
func linkedOne(a argument) []bool {
	if a.pos > 0 {
		return []bool{true}
	}
	return nil
}

//@ spec fold=linkedOne
func linked(as []argument) []bool {
	var n []bool
	for _, a := range as {
		n = append(n, linkedOne(a)...)
	}
	return n
}

//@ spec inline
func presentArg(a argument) bool { return a.Argument != nil && a.pos >= 0 }

//@ spec foldand=presentArg
func present(as []argument) bool {
	for _, a := range as {
		if !presentArg(a) {
			return false
		}
	}
	return true
}

//@ contract (args arguments) add(arg Argument) (r arguments)
//@ props C10
//@ flag inline
//@ ensures appended: govEq([]argument(r), append([]argument(args), argument{Argument: arg}))

//@ contract (args arguments) addAt(arg Argument, pos int) (r arguments)
//@ props C10
//@ flag inline
//@ ensures appended: govEq([]argument(r), append([]argument(args), argument{Argument: arg, pos: pos}))

//@ contract orderArguments(args arguments) (r []Argument)
//@ props C10
//@ requires present: present([]argument(args))
//@ ensures places: govEq(r, ordered([]argument(args)))
//@ invariant (k int, nargs int) slots: 0 <= k && k <= len(args) && nargs == slotsFor(len(args), []argument(args)[:k]) && nargs >= len(args) && govForall(0, k, func(j int) bool { return args[j].pos <= nargs })
//@ invariant (k int, largs []Argument, e_largs []Argument) placed: 0 <= k && k <= len(args) && govEq(largs, placed(e_largs, []argument(args)[:k])) && len(largs) == len(e_largs)
//@ invariant (k int, largs []Argument, e_largs []Argument) room: 0 <= k && k <= len(args) && len(largs) == len(e_largs) && len(free(largs)) + len(linked([]argument(args)[:k])) >= len(e_largs)
//@ invariant (k int, largs []Argument, e_largs []Argument) filled: 0 <= k && k <= len(args) && govEq(largs, filled(e_largs, []argument(args)[:k])) && len(largs) == len(e_largs)
//@ invariant (k int, largs []Argument) left: 0 <= k && k <= len(args) && len(free(largs)) >= len(unplaced([]argument(args)[k:]))
//@ invariant (i int, largs []Argument) skipped: 0 <= i && i <= len(largs) && len(free(largs[:i])) == 0
//@ invariant (k int) partition: 0 <= k && k <= len(args) && len(linked([]argument(args)[:k])) + len(unplaced([]argument(args)[:k])) == k
//@ invariant (i int, largs []Argument) passed: 0 <= i && i <= len(largs) && govForall(0, i, func(q int) bool { return largs[q] != nil })
