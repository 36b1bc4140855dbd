package main

// Symbolic values, memory and path state.

import (
	"go/types"
)

type V interface{}

type StructV struct {
	t types.Type
	f []V
}
type pelt struct {
	field int
	idx   *Term // element index if non-nil
}
type PtrV struct {
	cell int
	path []pelt
	nilT *Term // condition under which the pointer is nil
	t    types.Type
}

// TreeRef is a pointer to a syntax-tree struct, held by value at ref (or by the term alone if ref is nil).
type TreeRef struct {
	term *Term
	ref  *PtrV
	t    types.Type // pointer type
}
type SliceV struct {
	cell   int   // backing cell, 0 if none
	seq    *Term // contents if cell==0
	lo, hi *Term
	elem   types.Type
	nilT   *Term
	owned  bool
}
type ArrayV struct {
	elem   types.Type
	e      []V
	frozen bool
}
type SeqCell struct {
	seq      *Term
	elem     types.Type
	consumed bool
	frozen   bool
}
type FuncV struct {
	fn    interface{} // *ssa.Function or nil
	binds []V
}
type TupleV []V
type IfaceV struct {
	dyn types.Type
	v   V
}
type IterV struct{ cell int }
type IterCell struct {
	m   *Term
	idx *Term
}
type MapLit struct {
	keys []*Term
	vals []V
	kt   types.Type
	vt   types.Type
}
type MapCell struct { // mutable map object
	m *Term
	t types.Type
}
type MapRef struct{ cell int }
type ChanCell struct { // producer's end: what has been sent
	sent   *Term
	closed *Term
}
type OpaqueV struct { // external object handled only by its own extern calls
	what string
	f    map[string]V
}

type State struct {
	mem    map[int]V
	pc     []*Term
	lits   map[int]bool
	known  map[int]*Term
	later  []lateUnfold
	cases  []caseSplit
	trace  []string
	ncall  int
	br     []*Term // branch conditions of the tree being evaluated
	defers []*deferred
	shared map[int]bool // tree cells whose value has been taken: no longer to be changed
}

// caseSplit asks for a path for each value below n of key, where cond holds.
type caseSplit struct{ cond, key, n *Term }

type lateUnfold struct{ cond, key, term *Term }

func newState() *State {
	return &State{mem: map[int]V{}, lits: map[int]bool{}, known: map[int]*Term{}}
}

func (s *State) fork() *State {
	n := &State{mem: make(map[int]V, len(s.mem)), lits: make(map[int]bool, len(s.lits)), known: make(map[int]*Term, len(s.known))}
	for k, v := range s.mem {
		n.mem[k] = v
	}
	for k, v := range s.lits {
		n.lits[k] = v
	}
	for k, v := range s.known {
		n.known[k] = v
	}
	n.pc = append([]*Term{}, s.pc...)
	n.later = append([]lateUnfold{}, s.later...)
	n.cases = s.cases
	n.trace = append([]string{}, s.trace...)
	n.ncall = s.ncall
	n.br = append([]*Term{}, s.br...)
	n.defers = append([]*deferred{}, s.defers...)
	if len(s.shared) > 0 {
		n.shared = map[int]bool{}
		for k := range s.shared {
			n.shared[k] = true
		}
	}
	return n
}

func (s *State) assume(t *Term) {
	if t == tTrue {
		return
	}
	if t.op == "and" {
		for _, a := range t.args {
			s.assume(a)
		}
		return
	}
	if s.lits[t.id] {
		return
	}
	s.pc = append(s.pc, t)
	s.lits[t.id] = true
	if t.op == "=" {
		if isValue(t.args[0]) {
			s.known[t.args[1].id] = t.args[0]
		} else if isValue(t.args[1]) {
			s.known[t.args[0].id] = t.args[1]
		}
	}
	if len(t.op) > 3 && t.op[:3] == "is:" {
		s.known[t.args[0].id] = t // known constructor
	}
}

// simp simplifies a condition using the literal facts of the path.
func (s *State) simp(t *Term) *Term {
	switch t.op {
	case "true", "false":
		return t
	case "not":
		return mkNot(s.simp(t.args[0]))
	case "and":
		xs := make([]*Term, len(t.args))
		for i, a := range t.args {
			xs[i] = s.simp(a)
		}
		return mkAnd(xs...)
	case "or":
		xs := make([]*Term, len(t.args))
		for i, a := range t.args {
			xs[i] = s.simp(a)
		}
		return mkOr(xs...)
	}
	if s.lits[t.id] {
		return tTrue
	}
	if s.lits[mkNot(t).id] {
		return tFalse
	}
	if t.op == "=" {
		a, b := t.args[0], t.args[1]
		if isValue(a) {
			a, b = b, a
		}
		if isValue(b) {
			if k := s.known[a.id]; k != nil && isValue(k) {
				if k == b {
					return tTrue
				}
				if k.sort != SF64 {
					return tFalse
				}
			}
		}
	}
	if len(t.op) > 3 && t.op[:3] == "is:" {
		if k := s.known[t.args[0].id]; k != nil && len(k.op) > 3 && k.op[:3] == "is:" {
			return mkBoolC(k.op == t.op)
		}
	}
	return t
}

// konst replaces t by its known constant value on this path.
func (s *State) konst(t *Term) *Term {
	if k := s.known[t.id]; k != nil && isValue(k) {
		return k
	}
	return t
}
