package main

// Symbolic execution of go/ssa: memory, values, instructions.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var debug = os.Getenv("GOVER_DEBUG") != ""

type Obl struct {
	fn      string
	kind    string // safety, pre, post, inv-entry, inv-keep, frame, decreases, reach
	desc    string
	pos     string
	pc      []*Term
	goal    *Term
	cand    string // candidate id for loop invariants
	trivial bool
	path    []string
	res     *Result
	lits    []*Term
	noRace  bool
}

type Exec struct {
	retPcs    [][]*Term // the assumptions at returns
	w         *World
	root      *ssa.Function
	name      string
	obls      []*Obl
	dropped   map[string]bool // invariant candidates found not to hold
	seen      map[string]bool // all candidates seen
	specCell  map[int]bool    // variables of specification functions
	unowned   map[string]bool // loop variables not owned
	mode      int             // 0: bind by name; 1: all type-compatible bindings
	ncell     int
	paths     int
	fuel      *Term
	clauses   []*FuncV // loop clauses of the contract
	outerCl   []bool // the clauses for outermost loops only
	phase     string   // of the evaluation of a loop clause: entry, head or back
	curLC     *loopCtx
	curClause string
	stepFn    map[string]int
	cparams   map[string]V
	nframe    int
	depth     int
	entry     *State
	mainRet   bool
	decr      []*Term // entry measure
	quiet     int
	applying  int
	reveal    bool // expand opaque definitions
	steps     int
	maxStep   int
	frames    []*Frame
	axFn      *ssa.Function
	reached   map[string]bool

	trig     [][]*Term
	con      *conInst
	specRoot *ssa.Function
	curDecr  []*Term
	noTree   map[*ssa.Function]bool
	unfolded map[int]bool
	inlined  map[string]bool
	snap     map[int]bool
	loopsMet map[string]string
	curCand  string
	bufCell  map[int]bool
	usedCon  map[string]bool
	isDecr   map[string]bool
}

type Frame struct {
	id     int
	fn     *ssa.Function
	env    map[ssa.Value]V
	binds  []V
	spec   bool
	key    string // inline call path
	loops  map[*ssa.BasicBlock]*loopCtx
	parent *Frame
	guard  *Term
	ev     *pureEv
	depth  int
	site   ssa.Instruction
}

type loopCtx struct {
	key   string
	head  map[ssa.Value]V
	cands []*cand
	ms    *modSet
	loop  *natLoop
	heads map[string]V // values at the loop head
}

type restart struct{}

func newExec(w *World, fn *ssa.Function) *Exec {
	x := &Exec{w: w, root: fn, dropped: map[string]bool{}, seen: map[string]bool{}, unowned: map[string]bool{}, specCell: map[int]bool{}, fuel: fuelConst(), maxStep: 5000000, reached: map[string]bool{},
		noTree: map[*ssa.Function]bool{}, inlined: map[string]bool{}, snap: map[int]bool{}, loopsMet: map[string]string{}, bufCell: map[int]bool{}, usedCon: map[string]bool{}, isDecr: map[string]bool{}}
	if fn != nil {
		x.name = fnKey(fn)
	}
	return x
}

func (x *Exec) newCell() int { x.ncell++; return x.ncell }

func (x *Exec) pos(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	ps := x.w.prog.Fset.Position(p)
	f := strings.TrimPrefix(ps.Filename, x.w.repo+"/")
	return fmt.Sprintf("%s:%d", f, ps.Line)
}

// ---- fresh values

func (x *Exec) typeAssume(st *State, t *Term, typ types.Type) {
	if t.sort == SInt {
		if b, s, ok := intInfo(typ); ok {
			lo, hi := intRange(b, s)
			st.assume(mkLe(mkBig(lo), t))
			st.assume(mkLe(t, mkBig(hi)))
			if len(t.args) == 0 && !isInt(t) && t.bvs == nil {
				symRange[t.id] = [2]interface{}{b, s}
			}
		}
	}
}

// fresh returns an unconstrained value of type t. obj says whether containers are owned objects.
func (x *Exec) fresh(st *State, t types.Type, hint string, obj bool) V {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		srt := x.w.sortOf(t)
		s := mkFresh(hint, srt)
		n := mkFresh(hint+".nil", SBool)
		st.assume(mkImp(n, mkEq(seqLen(s), mkInt(0))))
		if obj {
			c := x.newCell()
			st.mem[c] = &SeqCell{seq: s, elem: u.Elem()}
			return &SliceV{cell: c, lo: mkInt(0), hi: seqLen(s), elem: u.Elem(), nilT: n, owned: true}
		}
		return &SliceV{seq: s, elem: u.Elem(), nilT: n}
	case *types.Struct:
		if isTypeNamed(t, "strings", "Builder") {
			return mkFresh(hint, SStr)
		}
		sv := &StructV{t: t}
		for i := 0; i < u.NumFields(); i++ {
			sv.f = append(sv.f, x.fresh(st, u.Field(i).Type(), hint+"."+u.Field(i).Name(), obj))
		}
		return sv
	case *types.Pointer:
		if isRegexpPtr(t) {
			return mkFresh(hint, "Regexp")
		}
		if x.w.isTreePtr(t) {
			return &TreeRef{term: mkFresh(hint, x.w.sortOf(t)), t: t}
		}
		if _, ok := u.Elem().Underlying().(*types.Struct); ok {
			if n, ok := types.Unalias(u.Elem()).(*types.Named); ok && !strings.HasPrefix(n.Obj().Pkg().Path(), modPath) {
				return &OpaqueV{what: typeKey(t)}
			}
			c := x.newCell()
			st.mem[c] = x.fresh(st, u.Elem(), hint, true)
			return &PtrV{cell: c, nilT: tFalse, t: t}
		}
		c := x.newCell()
		st.mem[c] = x.fresh(st, u.Elem(), hint, true)
		return &PtrV{cell: c, nilT: tFalse, t: t}
	case *types.Map:
		srt := x.w.sortOf(t)
		if obj && srt != mapSort(SStr, SI) {
			c := x.newCell()
			st.mem[c] = &MapCell{m: mkFresh(hint, srt), t: t}
			return &MapRef{c}
		}
		return mkFresh(hint, srt)
	case *types.Chan:
		c := mkFresh(hint, "Chan")
		return c
	case *types.Signature:
		return &FuncV{fn: "unknown " + hint}
	case *types.Tuple:
		var tv TupleV
		for i := 0; i < u.Len(); i++ {
			tv = append(tv, x.fresh(st, u.At(i).Type(), fmt.Sprintf("%s.%d", hint, i), obj))
		}
		return tv
	}
	r := mkFresh(hint, x.w.sortOf(t))
	x.typeAssume(st, r, t)
	return r
}

// lift views a term as a value of type t.
func (x *Exec) lift(t *Term, typ types.Type) V {
	switch u := typ.Underlying().(type) {
	case *types.Slice:
		return &SliceV{seq: t, elem: u.Elem(), nilT: tFalse}
	case *types.Pointer:
		if x.w.isTreePtr(typ) {
			return &TreeRef{term: t, t: typ}
		}
	}
	return t
}

func (x *Exec) zero(st *State, t types.Type) V {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return tFalse
		case u.Info()&types.IsInteger != 0:
			return mkInt(0)
		case u.Info()&types.IsString != 0:
			return mkStrC("")
		case u.Info()&types.IsFloat != 0:
			return mkF64(0)
		case u.Kind() == types.UntypedNil:
			return mkCtor("I_nil")
		}
	case *types.Interface:
		return mkCtor("I_nil")
	case *types.Slice:
		return &SliceV{seq: seqEmp(x.w.sortOf(t)), elem: u.Elem(), nilT: tTrue, owned: true}
	case *types.Struct:
		if isTypeNamed(t, "strings", "Builder") {
			return mkStrC("")
		}
		sv := &StructV{t: t}
		for i := 0; i < u.NumFields(); i++ {
			sv.f = append(sv.f, x.zero(st, u.Field(i).Type()))
		}
		return sv
	case *types.Pointer:
		if isRegexpPtr(t) {
			declFun("re.nil", "Regexp")
			return mkUF("re.nil")
		}
		return &PtrV{cell: 0, nilT: tTrue, t: t}
	case *types.Map:
		s := x.w.sortOf(t)
		return mkUF("memp_" + s)
	case *types.Signature:
		return &FuncV{}
	case *types.Array:
		av := &ArrayV{elem: u.Elem()}
		if u.Len() > 64 {
			fail("large array")
		}
		for i := int64(0); i < u.Len(); i++ {
			av.e = append(av.e, x.zero(st, u.Elem()))
		}
		return av
	case *types.Chan:
		declFun("chan.nil", "Chan")
		return mkUF("chan.nil")
	case *types.Tuple:
		return TupleV{}
	}
	fail("zero of %s", t)
	return nil
}

func (x *Exec) zeroTerm(st *State, t types.Type) *Term {
	if x.w.isTreePtr(t) {
		s := x.w.sortOf(t)
		declFun("nil_"+s, s)
		return mkUF("nil_" + s)
	}
	return x.reify(st, x.zero(st, t))
}

// ---- reification

func (x *Exec) content(st *State, s *SliceV) *Term {
	if s.cell == 0 {
		return s.seq
	}
	switch c := st.mem[s.cell].(type) {
	case *SeqCell:
		full := seqLen(c.seq)
		if isInt(s.lo) && s.lo.iv.Sign() == 0 && (s.hi == full || st.simp(mkEq(s.hi, full)) == tTrue) {
			return c.seq
		}
		return seqSub(c.seq, s.lo, s.hi)
	case *ArrayV:
		srt := seqSort(x.w.sortOf(c.elem))
		if !isInt(s.lo) || !isInt(s.hi) {
			t := seqEmp(srt)
			for _, e := range c.e {
				t = seqSnoc(t, x.reify(st, e))
			}
			return seqSub(t, s.lo, s.hi)
		}
		t := seqEmp(srt)
		for i := s.lo.iv.Int64(); i < s.hi.iv.Int64(); i++ {
			t = seqSnoc(t, x.reify(st, c.e[i]))
		}
		return t
	}
	fail("content of cell %T", st.mem[s.cell])
	return nil
}

func (x *Exec) reify(st *State, v V) *Term {
	switch v := v.(type) {
	case *Term:
		return v
	case *StructV:
		x.w.sortOf(v.t)
		args := make([]*Term, len(v.f))
		for i, f := range v.f {
			args[i] = x.reify(st, f)
		}
		return mkCtor("mk_"+typeKey(v.t), args...)
	case *SliceV:
		return x.content(st, v)
	case *TreeRef:
		if v.ref != nil {
			return x.reify(st, x.load(st, v.ref))
		}
		return v.term
	case *PtrV:
		if x.w.isTreePtr(v.t) {
			if v.cell == 0 {
				s := x.w.sortOf(v.t)
				declFun("nil_"+s, s)
				return mkUF("nil_" + s)
			}
			if st.shared == nil {
				st.shared = map[int]bool{}
			}
			st.shared[v.cell] = true
			return x.reify(st, x.load(st, v))
		}
	case *IfaceV:
		return x.wrap(st, v.v, v.dyn)
	case *MapRef:
		return st.mem[v.cell].(*MapCell).m
	case *CondV:
		return condTerm(st, v)
	case *ROPtr:
		return x.reify(st, v.v)
	}
	fail("cannot reify %T (%v)", v, v)
	return nil
}

// wrap builds an interface term.
func (x *Exec) wrap(st *State, v V, dyn types.Type) *Term {
	if d := x.w.dynOf(dyn); d != nil {
		return mkCtor(d.ctor, x.reify(st, v))
	}
	if types.Implements(dyn, errIface) {
		return mkCtor("I_err")
	}
	if _, ok := dyn.Underlying().(*types.Interface); ok {
		return x.reify(st, v)
	}
	if b, ok := dyn.Underlying().(*types.Basic); ok && (b.Info()&(types.IsInteger|types.IsString) != 0) {
		// another basic type: an opaque value determined by its contents
		t := x.reify(st, v)
		n := "other_" + typeKey(dyn)
		declFun(n, "Other", t.sort)
		return mkCtor("I_other", mkUF(n, t))
	}
	return mkCtor("I_other", mkFresh("other", "Other"))
}

// ---- memory

func (x *Exec) load(st *State, p *PtrV) V {
	v, ok := st.mem[p.cell]
	if !ok {
		fail("load from unknown cell %d", p.cell)
	}
	return x.getPath(st, v, p.path)
}

func (x *Exec) fieldOf(st *State, v V, i int, t types.Type) V {
	switch v := v.(type) {
	case *StructV:
		return v.f[i]
	case *Term:
		dt := datatypes[v.sort]
		if dt == nil || len(dt.ctors) != 1 {
			fail("field of %s", v.sort)
		}
		r := mkSel(dt.ctors[0].sels[i], v)
		stt := t.Underlying().(*types.Struct)
		return x.lift(r, stt.Field(i).Type())
	case *TreeRef:
		if v.ref != nil {
			return x.fieldOf(st, x.load(st, v.ref), i, t)
		}
		return x.fieldOf(st, v.term, i, t)
	}
	fail("field of %T", v)
	return nil
}

func (x *Exec) getPath(st *State, v V, path []pelt) V {
	for _, e := range path {
		if e.idx != nil {
			switch c := v.(type) {
			case *SeqCell:
				v = x.lift(seqAt(c.seq, e.idx), c.elem)
			case *ArrayV:
				if !isInt(e.idx) {
					sq := seqEmp(seqSort(x.w.sortOf(c.elem)))
					for _, e := range c.e {
						sq = seqSnoc(sq, x.reify(st, e))
					}
					v = x.lift(seqAt(sq, e.idx), c.elem)
					continue
				}
				i := e.idx.iv.Int64()
				if i < 0 || i >= int64(len(c.e)) {
					fail("array index out of range")
				}
				v = c.e[i]
			default:
				fail("index into %T", v)
			}
			continue
		}
		switch c := v.(type) {
		case *StructV:
			v = c.f[e.field]
		case *Term:
			dt := datatypes[c.sort]
			if dt == nil || len(dt.ctors) != 1 {
				fail("field of term %s", c.sort)
			}
			r := mkSel(dt.ctors[0].sels[e.field], c)
			if strings.HasPrefix(r.sort, "Seq_") {
				v = &SliceV{seq: r, elem: x.fieldElem(dt, e.field), nilT: tFalse}
			} else {
				v = r
			}
		case *TreeRef:
			v = x.getPath(st, x.reify(st, c), []pelt{e})
		default:
			fail("field of %T", v)
		}
	}
	return v
}

var dtGoType = map[Sort]*types.Struct{}

func (x *Exec) fieldElem(dt *Datatype, i int) types.Type {
	st := dtGoType[dt.name]
	if st == nil {
		for _, p := range x.w.prog.AllPackages() {
			for _, m := range p.Members {
				if tn, ok := m.(*ssa.Type); ok {
					if n, ok := types.Unalias(tn.Type()).(*types.Named); ok && "S_"+typeKey(n) == dt.name {
						st, _ = n.Underlying().(*types.Struct)
					}
				}
			}
		}
		dtGoType[dt.name] = st
	}
	if st == nil {
		fail("no Go type for %s", dt.name)
	}
	return st.Field(i).Type().Underlying().(*types.Slice).Elem()
}

func (x *Exec) setPath(st *State, v V, path []pelt, nv V) V {
	if len(path) == 0 {
		return nv
	}
	e := path[0]
	if e.idx != nil {
		switch c := v.(type) {
		case *SeqCell:
			if c.consumed || c.frozen {
				fail("frame: store to a slice that has been shared")
			}
			old := x.lift(seqAt(c.seq, e.idx), c.elem)
			n := x.setPath(st, old, path[1:], nv)
			return &SeqCell{seq: seqUpd(c.seq, e.idx, x.reify(st, n)), elem: c.elem}
		case *ArrayV:
			if !isInt(e.idx) {
				fail("symbolic index of a local array")
			}
			if c.frozen {
				fail("frame: store to an array that has been shared")
			}
			n := &ArrayV{elem: c.elem, e: append([]V{}, c.e...)}
			i := e.idx.iv.Int64()
			n.e[i] = x.setPath(st, c.e[i], path[1:], nv)
			return n
		}
		fail("store: index into %T", v)
	}
	switch c := v.(type) {
	case *StructV:
		n := &StructV{t: c.t, f: append([]V{}, c.f...)}
		n.f[e.field] = x.setPath(st, c.f[e.field], path[1:], nv)
		return n
	case *TreeRef:
		return &TreeRef{term: x.reify(st, x.setPath(st, x.reify(st, c), path, nv)), t: c.t}
	case *Term:
		dt := datatypes[c.sort]
		if dt == nil || len(dt.ctors) != 1 {
			fail("store: field of term %s", c.sort)
		}
		args := make([]*Term, len(dt.ctors[0].sels))
		for i, s := range dt.ctors[0].sels {
			args[i] = mkSel(s, c)
		}
		args[e.field] = x.reify(st, x.setPath(st, args[e.field], path[1:], nv))
		return mkCtor(dt.ctors[0].name, args...)
	}
	fail("store: field of %T", v)
	return nil
}

func (x *Exec) store(fr *Frame, st *State, p *PtrV, v V) {
	old, ok := st.mem[p.cell]
	if !ok {
		fail("store to unknown cell")
	}
	st.mem[p.cell] = x.setPath(st, old, p.path, v)
}

// freeze marks the backing of a slice as shared (it is now reachable from an immutable value).
func (x *Exec) freeze(st *State, v V) {
	switch v := v.(type) {
	case *SliceV:
		if v.cell == 0 {
			return
		}
		switch c := st.mem[v.cell].(type) {
		case *SeqCell:
			n := *c
			n.frozen = true
			st.mem[v.cell] = &n
		case *ArrayV:
			n := *c
			n.frozen = true
			st.mem[v.cell] = &n
		}
	}
}

func (x *Exec) consume(st *State, v *SliceV) {
	if v.cell == 0 {
		return
	}
	if c, ok := st.mem[v.cell].(*SeqCell); ok {
		n := *c
		n.consumed = true
		st.mem[v.cell] = &n
	}
	if c, ok := st.mem[v.cell].(*ArrayV); ok {
		n := *c
		n.frozen = true
		st.mem[v.cell] = &n
	}
}

func (x *Exec) isOwned(st *State, v *SliceV) bool {
	if !v.owned {
		return false
	}
	if v.cell == 0 {
		return true
	}
	switch c := st.mem[v.cell].(type) {
	case *SeqCell:
		return !c.consumed && !c.frozen
	case *ArrayV:
		return !c.frozen
	}
	return false
}

// ---- obligations

func (x *Exec) oblig(fr *Frame, st *State, kind, desc string, pos token.Pos, goal *Term) {
	if fr != nil && fr.spec && (kind == "safety" || kind == "frame") {
		return
	}
	g := goal
	if fr != nil && fr.guard != nil {
		g = mkImp(fr.guard, goal)
	}
	x.obligT(st, kind, desc, x.pos(pos), g, "")
}

func (x *Exec) obligT(st *State, kind, desc, pos string, g *Term, cand string) {
	if x.quiet > 0 {
		return
	}
	if cand == "" {
		cand = x.curCand
	}
	g = st.simp(g)
	o := &Obl{fn: x.name, kind: kind, desc: desc, pos: pos, goal: g, cand: cand, path: append([]string{}, st.trace...)}
	if g == tTrue {
		o.trivial = true
		o.path = nil
	} else {
		o.pc = append([]*Term{}, st.pc...)
	}
	x.obls = append(x.obls, o)
	st.assume(g)
}

// ---- operands

func (x *Exec) val(fr *Frame, st *State, v ssa.Value) V {
	switch v := v.(type) {
	case *ssa.Const:
		return x.constV(st, v)
	case *ssa.Function:
		return &FuncV{fn: v}
	case *ssa.Builtin:
		return v
	case *ssa.Global:
		return v
	case *ssa.FreeVar:
		for i, f := range fr.fn.FreeVars {
			if f == v {
				return fr.binds[i]
			}
		}
	}
	r, ok := fr.env[v]
	if !ok {
		fail("undefined value %s in %s", v.Name(), fr.fn)
	}
	return r
}

func (x *Exec) constV(st *State, c *ssa.Const) V {
	t := c.Type()
	if c.Value == nil {
		return x.zero(st, t)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return mkBoolC(constant.BoolVal(c.Value))
		case u.Info()&types.IsInteger != 0:
			return mkBig(bigOf(c.Value))
		case u.Info()&types.IsString != 0:
			return mkStrC(constant.StringVal(c.Value))
		case u.Info()&types.IsFloat != 0:
			f, _ := constant.Float64Val(constant.ToFloat(c.Value))
			return mkF64(f)
		}
	case *types.Interface:
		fail("interface constant")
	}
	fail("constant %s", c)
	return nil
}

func bigOf(v constant.Value) *big.Int {
	v = constant.ToInt(v)
	if i, ok := constant.Int64Val(v); ok {
		return big.NewInt(i)
	}
	b, _ := new(big.Int).SetString(v.ExactString(), 10)
	return b
}

func (x *Exec) term(fr *Frame, st *State, v ssa.Value) *Term {
	return x.reify(st, x.val(fr, st, v))
}

// ---- non-control instructions

func (x *Exec) eval(fr *Frame, st *State, in ssa.Instruction) V {
	switch in := in.(type) {
	case *ssa.BinOp:
		return x.binop(fr, st, in)
	case *ssa.UnOp:
		return x.unop(fr, st, in)
	case *ssa.ChangeType:
		return x.val(fr, st, in.X)
	case *ssa.ChangeInterface:
		return x.val(fr, st, in.X)
	case *ssa.Convert:
		return x.convert(fr, st, in)
	case *ssa.MakeInterface:
		v := x.val(fr, st, in.X)
		if p, ok := v.(*PtrV); ok && x.w.isTreePtr(in.X.Type()) && p.cell != 0 {
			return &IfaceV{dyn: in.X.Type(), v: v}
		}
		if x.w.dynOf(in.X.Type()) == nil {
			return x.wrapOpaque(st, v, in.X.Type())
		}
		x.freeze(st, v)
		return x.wrap(st, v, in.X.Type())
	case *ssa.TypeAssert:
		return x.typeAssert(fr, st, in)
	case *ssa.Field:
		return x.fieldOf(st, x.val(fr, st, in.X), in.Field, in.X.Type())
	case *ssa.FieldAddr:
		return x.fieldAddr(fr, st, in)
	case *ssa.IndexAddr:
		return x.indexAddr(fr, st, in)
	case *ssa.Index:
		v := x.val(fr, st, in.X)
		if a, ok := v.(*ArrayV); ok {
			i := x.term(fr, st, in.Index)
			if isInt(i) {
				return a.e[i.iv.Int64()]
			}
		}
		if t, ok := v.(*Term); ok && t.sort == SStr {
			i := x.term(fr, st, in.Index)
			x.oblig(fr, st, "safety", "string index in range", in.Pos(), mkAnd(mkLe(mkInt(0), i), mkLt(i, mkUF("slen", t))))
			return mkUF("sbyte", t, i)
		}
		fail("index %T", v)
	case *ssa.Lookup:
		return x.lookup(fr, st, in)
	case *ssa.Slice:
		return x.slice(fr, st, in)
	case *ssa.Alloc:
		c := x.newCell()
		if fr.spec && fr.ev != nil {
			x.specCell[c] = true
		}
		t := in.Type().Underlying().(*types.Pointer).Elem()
		st.mem[c] = x.zero(st, t)
		if isTypeNamed(t, "strings", "Builder") {
			x.bufCell[c] = true
		}
		return &PtrV{cell: c, nilT: tFalse, t: in.Type()}
	case *ssa.MakeSlice:
		n := x.term(fr, st, in.Len)
		x.oblig(fr, st, "safety", "make: length is not negative", in.Pos(), mkLe(mkInt(0), n))
		if cp := x.term(fr, st, in.Cap); cp != n {
			x.oblig(fr, st, "safety", "make: capacity is at least the length", in.Pos(), mkLe(n, cp))
		}
		et := in.Type().Underlying().(*types.Slice).Elem()
		srt := x.w.sortOf(in.Type())
		c := x.newCell()
		if isInt(n) && n.iv.Sign() == 0 {
			st.mem[c] = &SeqCell{seq: seqEmp(srt), elem: et}
			return &SliceV{cell: c, lo: mkInt(0), hi: mkInt(0), elem: et, nilT: tFalse, owned: true}
		}
		s := mkFresh("mk", srt)
		st.assume(mkEq(seqLen(s), n))
		i := mkBVar(SInt)
		st.assume(mkForall([]*Term{i}, [][]*Term{{seqAt(s, i)}}, mkImp(mkAnd(mkLe(mkInt(0), i), mkLt(i, n)), mkEq(seqAt(s, i), x.zeroTerm(st, et)))))
		st.mem[c] = &SeqCell{seq: s, elem: et}
		return &SliceV{cell: c, lo: mkInt(0), hi: seqLen(s), elem: et, nilT: tFalse, owned: true}
	case *ssa.MakeMap:
		s := x.w.sortOf(in.Type())
		c := x.newCell()
		st.mem[c] = &MapCell{m: mkUF("memp_" + s), t: in.Type()}
		return &MapRef{c}
	case *ssa.MakeChan:
		c := mkFresh("chan", "Chan")
		x.chMake(st, c)
		return c
	case *ssa.MakeClosure:
		var bs []V
		for _, b := range in.Bindings {
			bs = append(bs, x.val(fr, st, b))
		}
		return &FuncV{fn: in.Fn, binds: bs}
	case *ssa.Extract:
		tv, ok := x.val(fr, st, in.Tuple).(TupleV)
		if !ok {
			fail("extract from non-tuple")
		}
		return tv[in.Index]
	case *ssa.Range:
		m := x.val(fr, st, in.X)
		t := x.reify(st, m)
		if _, ok := mapSorts[t.sort]; !ok {
			fail("range over %s", t.sort)
		}
		c := x.newCell()
		st.mem[c] = &IterCell{m: t, idx: mkInt(0)}
		return &IterV{c}
	case *ssa.Next:
		it, ok := x.val(fr, st, in.Iter).(*IterV)
		if !ok {
			fail("next")
		}
		ic := st.mem[it.cell].(*IterCell)
		kv := mapSorts[ic.m.sort]
		keys := mkApp("mkeys_"+ic.m.sort, seqSort(kv.k), ic.m)
		okT := mkLt(ic.idx, mkUF("mlen_"+ic.m.sort, ic.m))
		st.assume(mkEq(seqLen(keys), mkUF("mlen_"+ic.m.sort, ic.m)))
		k := seqAt(keys, ic.idx)
		v := mkUF("mget_"+ic.m.sort, ic.m, k)
		st.mem[it.cell] = &IterCell{m: ic.m, idx: mkIte(okT, mkAdd(ic.idx, mkInt(1)), ic.idx)}
		return TupleV{okT, k, v}
	case *ssa.Store:
		x.storeInstr(fr, st, in)
		return nil
	case *ssa.MapUpdate:
		mr, ok := x.val(fr, st, in.Map).(*MapRef)
		if !ok {
			x.oblig(fr, st, "frame", "assignment to an element of a map that is not owned", in.Pos(), tFalse)
			return nil
		}
		mc := st.mem[mr.cell].(*MapCell)
		st.mem[mr.cell] = &MapCell{m: mkUF("mput_"+mc.m.sort, mc.m, x.term(fr, st, in.Key), x.term(fr, st, in.Value)), t: mc.t}
		return nil
	case *ssa.Send:
		c := x.term(fr, st, in.Chan)
		cc := x.chanCell(st, c)
		x.oblig(fr, st, "safety", "send on a channel that is not closed", in.Pos(), mkNot(cc.closed))
		v := x.val(fr, st, in.X)
		st.mem[chKey(c)] = &ChanCell{sent: seqSnoc(cc.sent, x.reify(st, v)), closed: cc.closed}
		return nil
	case *ssa.DebugRef:
		return nil
	}
	fail("instruction %T (%s)", in, in)
	return nil
}

func (x *Exec) wrapOpaque(st *State, v V, t types.Type) (r V) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(unsupported); ok {
				r = mkCtor("I_other", mkFresh("other", "Other"))
				return
			}
			panic(e)
		}
	}()
	return x.wrap(st, v, t)
}

func (x *Exec) storeInstr(fr *Frame, st *State, in *ssa.Store) {
	a := x.val(fr, st, in.Addr)
	v := x.val(fr, st, in.Val)
	switch a := a.(type) {
	case *PtrV:
		if a.nilT != tFalse {
			x.oblig(fr, st, "safety", "store through a non-nil pointer", in.Pos(), mkNot(a.nilT))
		}
		if len(a.path) > 0 && a.path[len(a.path)-1].idx != nil && a.cell != 0 {
			if c, ok := st.mem[a.cell].(*SeqCell); ok && len(a.path) == 1 && x.w.isTreePtr(c.elem) {
				fail("replacement of a tree pointer in a slice")
			}
		}
		if a.cell == -1 || a.cell == 0 {
			x.oblig(fr, st, "frame", "store to memory that is not owned", in.Pos(), tFalse)
			return
		}
		if st.shared[a.cell] {
			x.oblig(fr, st, "frame", "store to a tree node that has been shared", in.Pos(), tFalse)
			return
		}
		if c, ok := st.mem[a.cell].(*SeqCell); ok && (c.consumed || c.frozen) {
			x.oblig(fr, st, "frame", "store to a slice that has been shared", in.Pos(), tFalse)
			return
		}
		if c, ok := st.mem[a.cell].(*ArrayV); ok && c.frozen {
			x.oblig(fr, st, "frame", "store to an array that has been shared", in.Pos(), tFalse)
			return
		}
		x.store(fr, st, a, v)
	case *ssa.Global:
		x.oblig(fr, st, "frame", "store to package variable "+a.Name(), in.Pos(), tFalse)
	default:
		fail("store through %T", a)
	}
}

func (x *Exec) fieldAddr(fr *Frame, st *State, in *ssa.FieldAddr) V {
	p := x.val(fr, st, in.X)
	switch p := p.(type) {
	case *PtrV:
		if p.nilT != tFalse {
			x.oblig(fr, st, "safety", "field of a non-nil pointer", in.Pos(), mkNot(p.nilT))
		}
		if p.cell == 0 {
			// only reachable under a nil pointer
			return x.unknownPtr(st, in.Type())
		}
		np := append(append([]pelt{}, p.path...), pelt{field: in.Field})
		return &PtrV{cell: p.cell, path: np, nilT: tFalse, t: in.Type()}
	case *TreeRef:
		if p.ref != nil {
			np := append(append([]pelt{}, p.ref.path...), pelt{field: in.Field})
			return &PtrV{cell: p.ref.cell, path: np, nilT: tFalse, t: in.Type()}
		}
		// read-only view
		return &ROPtr{v: x.fieldOf(st, p.term, in.Field, in.X.Type().Underlying().(*types.Pointer).Elem())}
	case *ROPtr:
		return &ROPtr{v: x.fieldOf(st, p.v, in.Field, in.X.Type().Underlying().(*types.Pointer).Elem())}
	}
	fail("field address of %T", p)
	return nil
}

// ROPtr points into an immutable value.
type ROPtr struct{ v V }

func (x *Exec) unknownPtr(st *State, t types.Type) V {
	c := x.newCell()
	st.mem[c] = x.fresh(st, t.Underlying().(*types.Pointer).Elem(), "unreach", true)
	return &PtrV{cell: c, nilT: tFalse, t: t}
}

func (x *Exec) sliceLen(st *State, s *SliceV) *Term {
	if s.cell == 0 {
		return seqLen(s.seq)
	}
	return mkSub(s.hi, s.lo)
}

func (x *Exec) indexAddr(fr *Frame, st *State, in *ssa.IndexAddr) V {
	b := x.val(fr, st, in.X)
	i := x.term(fr, st, in.Index)
	switch b := b.(type) {
	case *SliceV:
		n := x.sliceLen(st, b)
		x.oblig(fr, st, "safety", "slice index in range", in.Pos(), mkAnd(mkLe(mkInt(0), i), mkLt(i, n)))
		if b.cell == 0 {
			return &ROPtr{v: x.lift(seqAt(b.seq, i), b.elem)}
		}
		j := mkAdd(b.lo, i)
		return &PtrV{cell: b.cell, path: []pelt{{idx: j}}, nilT: tFalse, t: in.Type()}
	case *PtrV:
		at, ok := in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		if !ok {
			break
		}
		x.oblig(fr, st, "safety", "array index in range", in.Pos(), mkAnd(mkLe(mkInt(0), i), mkLt(i, mkInt(at.Len()))))
		return &PtrV{cell: b.cell, path: append(append([]pelt{}, b.path...), pelt{idx: i}), nilT: tFalse, t: in.Type()}
	}
	fail("index address of %T", b)
	return nil
}

func (x *Exec) slice(fr *Frame, st *State, in *ssa.Slice) V {
	b := x.val(fr, st, in.X)
	get := func(v ssa.Value) *Term {
		if v == nil {
			return nil
		}
		return x.term(fr, st, v)
	}
	lo, hi := get(in.Low), get(in.High)
	if lo == nil {
		lo = mkInt(0)
	}
	switch b := b.(type) {
	case *Term:
		if b.sort == SStr {
			n := mkUF("slen", b)
			if hi == nil {
				hi = n
			}
			x.oblig(fr, st, "safety", "string slice bounds", in.Pos(), mkAnd(mkLe(mkInt(0), lo), mkLe(lo, hi), mkLe(hi, n)))
			if isInt(lo) && lo.iv.Sign() == 0 && hi == n {
				return b
			}
			return mkUF("ssub", b, lo, hi)
		}
	case *SliceV:
		n := x.sliceLen(st, b)
		if hi == nil {
			hi = n
		}
		// capacity is not tracked: slices may only shrink
		x.oblig(fr, st, "safety", "slice bounds in range", in.Pos(), mkAnd(mkLe(mkInt(0), lo), mkLe(lo, hi), mkLe(hi, n)))
		if b.cell == 0 {
			return &SliceV{seq: seqSub(b.seq, lo, hi), elem: b.elem, nilT: b.nilT, owned: false}
		}
		return &SliceV{cell: b.cell, lo: mkAdd(b.lo, lo), hi: mkAdd(b.lo, hi), elem: b.elem, nilT: b.nilT, owned: b.owned}
	case *PtrV:
		if a, ok := x.load(st, b).(*ArrayV); ok && len(b.path) == 0 {
			if hi == nil {
				hi = mkInt(int64(len(a.e)))
			}
			return &SliceV{cell: b.cell, lo: lo, hi: hi, elem: a.elem, nilT: tFalse, owned: true}
		}
	}
	fail("slice of %T", b)
	return nil
}

func (x *Exec) typeAssert(fr *Frame, st *State, in *ssa.TypeAssert) V {
	v := x.val(fr, st, in.X)
	var okT *Term
	var res V
	t := in.AssertedType
	if iv, ok := v.(*IfaceV); ok {
		if it, isI := t.Underlying().(*types.Interface); isI {
			okT = mkBoolC(types.Implements(iv.dyn, it))
			res = v
		} else if types.Identical(iv.dyn, t) {
			okT = tTrue
			res = iv.v
		} else {
			okT = tFalse
			res = x.zero(st, t)
		}
	} else {
		tm := x.reify(st, v)
		if it, isI := t.Underlying().(*types.Interface); isI {
			var cs []*Term
			for _, d := range x.w.implementers(it) {
				cs = append(cs, mkIs(d.ctor, tm))
			}
			if types.Implements(errorType{}.Type(), it) || types.Identical(it, errIface) {
				cs = append(cs, mkIs("I_err", tm))
			}
			if it.NumMethods() == 0 {
				okT = mkNot(mkIs("I_nil", tm))
			} else {
				okT = mkOr(cs...)
			}
			res = tm
		} else {
			d := x.w.dynOf(t)
			if d == nil {
				fail("type assertion to %s", t)
			}
			okT = mkIs(d.ctor, tm)
			res = x.lift(mkSel(d.ctor+".v", tm), t)
		}
	}
	okT = st.simp(okT)
	if in.CommaOk {
		if okT == tFalse {
			if _, isI := t.Underlying().(*types.Interface); isI {
				return TupleV{mkCtor("I_nil"), tFalse}
			}
			return TupleV{x.zeroSafe(st, t, res), tFalse}
		}
		// the value is the zero value if the assertion fails; exact for scalars, unspecified otherwise
		if rt, ok := res.(*Term); ok && okT != tTrue {
			if _, isI := t.Underlying().(*types.Interface); isI {
				return TupleV{mkIte(okT, rt, mkCtor("I_nil")), okT}
			}
			if z, ok := x.zeroSafe(st, t, nil).(*Term); ok && z != nil && z.sort == rt.sort && !strings.HasPrefix(rt.sort, "Map_") {
				return TupleV{&CondV{okT, rt, z}, okT}
			}
		}
		return TupleV{res, okT}
	}
	x.oblig(fr, st, "safety", "type assertion to "+types.TypeString(t, func(p *types.Package) string { return p.Name() }), in.Pos(), okT)
	return res
}

// CondV is a comma-ok result: a under c, else b. Decided lazily, when used.
type CondV struct {
	c    *Term
	a, b *Term
}

type errorType struct{}

func (errorType) Type() types.Type { return types.Universe.Lookup("error").Type() }

func (x *Exec) zeroSafe(st *State, t types.Type, dflt V) (r V) {
	defer func() {
		if e := recover(); e != nil {
			r = dflt
		}
	}()
	return x.zero(st, t)
}

func (x *Exec) lookup(fr *Frame, st *State, in *ssa.Lookup) V {
	mv := x.val(fr, st, in.X)
	if t, ok := mv.(*Term); ok && t.sort == SStr {
		i := x.term(fr, st, in.Index)
		x.oblig(fr, st, "safety", "string index in range", in.Pos(), mkAnd(mkLe(mkInt(0), i), mkLt(i, mkUF("slen", t))))
		return mkUF("sbyte", t, i)
	}
	k := x.term(fr, st, in.Index)
	vt := in.X.Type().Underlying().(*types.Map).Elem()
	if ml, ok := mv.(*MapLit); ok {
		// constant table: an ite chain (values must be terms)
		var acc V = x.zero(st, vt)
		has := tFalse
		for i := len(ml.keys) - 1; i >= 0; i-- {
			c := st.simp(mkEq(k, ml.keys[i]))
			acc = x.mergeV(st, c, ml.vals[i], acc)
			has = mkOr(c, has)
		}
		if in.CommaOk {
			return TupleV{acc, has}
		}
		return acc
	}
	m := x.reify(st, mv)
	has := mkUF("mhas_"+m.sort, m, k)
	got := mkUF("mget_"+m.sort, m, k)
	if k.sort == SI {
		// interface keys: equal values may still be distinct keys (pointers)
		b := mkFresh("found", SBool)
		st.assume(mkImp(b, has))
		has = b
	}
	if in.CommaOk {
		return TupleV{&CondV{has, got, x.zeroTerm(st, vt)}, has}
	}
	return mkIte(has, got, x.zeroTerm(st, vt))
}

func (x *Exec) convert(fr *Frame, st *State, in *ssa.Convert) V {
	v := x.val(fr, st, in.X)
	from, to := in.X.Type().Underlying(), in.Type().Underlying()
	fb, ok1 := from.(*types.Basic)
	tb, ok2 := to.(*types.Basic)
	if ok1 && ok2 {
		t := x.reify(st, v)
		fi, ti := fb.Info(), tb.Info()
		switch {
		case fi&types.IsInteger != 0 && ti&types.IsInteger != 0:
			b, s, _ := intInfo(in.Type())
			fbits, fs, _ := intInfo(in.X.Type())
			if (b > fbits && (s || !fs)) || (b == fbits && s == fs) {
				return t
			}
			return wrapTo(t, b, s)
		case fi&types.IsInteger != 0 && ti&types.IsFloat != 0:
			return mkUF("i2f", t)
		case fi&types.IsFloat != 0 && ti&types.IsInteger != 0:
			return mkUF("f2i", t)
		case fi&types.IsFloat != 0 && ti&types.IsFloat != 0:
			return t
		case fi&types.IsString != 0 && ti&types.IsString != 0:
			return t
		case fi&types.IsInteger != 0 && ti&types.IsString != 0:
			return mkUF("srune", t)
		}
	}
	fail("conversion %s -> %s", in.X.Type(), in.Type())
	return nil
}

func (x *Exec) unop(fr *Frame, st *State, in *ssa.UnOp) V {
	switch in.Op {
	case token.NOT:
		return st.simp(mkNot(x.term(fr, st, in.X)))
	case token.SUB:
		t := x.term(fr, st, in.X)
		if t.sort == SF64 {
			return mkUF("fp.neg", t)
		}
		return x.intRes(fr, mkNeg(t), in.Type())
	case token.XOR:
		t := x.term(fr, st, in.X)
		return x.intRes(fr, mkSub(mkInt(-1), t), in.Type())
	case token.ARROW:
		c := x.term(fr, st, in.X)
		return x.chRecv(fr, st, c, in)
	case token.MUL:
		p := x.val(fr, st, in.X)
		switch p := p.(type) {
		case *PtrV:
			if p.nilT != tFalse {
				x.oblig(fr, st, "safety", "load through a non-nil pointer", in.Pos(), mkNot(p.nilT))
			}
			if p.cell == 0 {
				return x.fresh(st, in.Type(), "unreach", true)
			}
			v := x.load(st, p)
			if x.w.isTreePtr(in.Type()) {
				if tr, ok := v.(*TreeRef); ok && len(p.path) == 1 && p.path[0].idx != nil {
					if c, ok := st.mem[p.cell].(*SeqCell); ok && !c.frozen && !c.consumed {
						return &TreeRef{term: tr.term, ref: p, t: in.Type()}
					}
				}
			}
			if t, ok := v.(*Term); ok && !fr.spec {
				x.typeAssume(st, t, in.Type())
			}
			return v
		case *TreeRef:
			return x.derefTree(st, p)
		case *ROPtr:
			if t, ok := p.v.(*Term); ok && !fr.spec {
				x.typeAssume(st, t, in.Type())
			}
			return p.v
		case *ssa.Global:
			return x.global(st, p)
		}
		fail("load through %T", p)
	}
	fail("unary %s", in.Op)
	return nil
}

func (x *Exec) derefTree(st *State, p *TreeRef) V {
	if p.ref != nil {
		return x.load(st, p.ref)
	}
	return p.term
}

// intRes wraps a result to its type; in specifications int is mathematical.
func (x *Exec) intRes(fr *Frame, t *Term, typ types.Type) *Term {
	b, s, ok := intInfo(typ)
	if !ok {
		fail("integer result of type %s", typ)
	}
	if fr.spec {
		if bt, ok := typ.Underlying().(*types.Basic); ok && bt.Kind() == types.Int {
			return t
		}
	}
	return wrapTo(t, b, s)
}

func powerOf2(v *big.Int) int {
	if v.Sign() <= 0 {
		return -1
	}
	n := v.BitLen() - 1
	if new(big.Int).Lsh(big.NewInt(1), uint(n)).Cmp(v) == 0 {
		return n
	}
	return -1
}

func (x *Exec) binop(fr *Frame, st *State, in *ssa.BinOp) V {
	av, bv := x.val(fr, st, in.X), x.val(fr, st, in.Y)
	switch in.Op {
	case token.EQL:
		return st.simp(x.equal(fr, st, av, bv, in.X.Type(), in.Y.Type()))
	case token.NEQ:
		return st.simp(mkNot(x.equal(fr, st, av, bv, in.X.Type(), in.Y.Type())))
	}
	a, b := x.reifyC(st, av), x.reifyC(st, bv)
	switch a.sort {
	case SStr:
		switch in.Op {
		case token.ADD:
			return mkUF("scat", a, b)
		case token.LSS:
			return st.simp(mkUF("slt", a, b))
		case token.GTR:
			return st.simp(mkUF("slt", b, a))
		case token.LEQ:
			return st.simp(mkNot(mkUF("slt", b, a)))
		case token.GEQ:
			return st.simp(mkNot(mkUF("slt", a, b)))
		}
	case SF64:
		switch in.Op {
		case token.ADD:
			return mkUF("fadd", a, b)
		case token.SUB:
			return mkUF("fsub", a, b)
		case token.MUL:
			return mkUF("fmul", a, b)
		case token.QUO:
			return mkUF("fdiv", a, b)
		case token.LSS:
			return st.simp(mkUF("fp.lt", a, b))
		case token.GTR:
			return st.simp(mkUF("fp.lt", b, a))
		case token.LEQ:
			return st.simp(mkUF("fp.leq", a, b))
		case token.GEQ:
			return st.simp(mkUF("fp.leq", b, a))
		}
	case SInt:
		switch in.Op {
		case token.ADD:
			return x.intRes(fr, mkAdd(a, b), in.Type())
		case token.SUB:
			return x.intRes(fr, mkSub(a, b), in.Type())
		case token.MUL:
			return x.intRes(fr, mkMul(a, b), in.Type())
		case token.QUO, token.REM:
			x.oblig(fr, st, "safety", "division by zero", in.Pos(), mkNot(mkEq(b, mkInt(0))))
			if isInt(a) && isInt(b) && b.iv.Sign() != 0 {
				if in.Op == token.QUO {
					return x.intRes(fr, mkBig(new(big.Int).Quo(a.iv, b.iv)), in.Type())
				}
				return x.intRes(fr, mkBig(new(big.Int).Rem(a.iv, b.iv)), in.Type())
			}
			if isInt(b) && b.iv.Sign() > 0 {
				op := "div"
				if in.Op == token.REM {
					op = "mod"
				}
				return x.intRes(fr, mkIte(st.simp(mkLt(a, mkInt(0))), mkNeg(mkApp(op, SInt, mkNeg(a), b)), mkApp(op, SInt, a, b)), in.Type())
			}
			if in.Op == token.QUO {
				return x.intRes(fr, mkUF("godiv", a, b), in.Type())
			}
			return x.intRes(fr, mkUF("gomod", a, b), in.Type())
		case token.LSS:
			return st.simp(mkLt(a, b))
		case token.GTR:
			return st.simp(mkLt(b, a))
		case token.LEQ:
			return st.simp(mkLe(a, b))
		case token.GEQ:
			return st.simp(mkLe(b, a))
		case token.AND:
			if isInt(a) && isInt(b) {
				return mkBig(new(big.Int).And(a.iv, b.iv))
			}
			if isInt(a) {
				a, b = b, a
			}
			if isInt(b) {
				if n := powerOf2(new(big.Int).Add(b.iv, big.NewInt(1))); n >= 0 {
					return mkApp("mod", SInt, a, mkBig(new(big.Int).Add(b.iv, big.NewInt(1))))
				}
			}
			return mkUF("goand", a, b)
		case token.OR:
			if isInt(a) && isInt(b) {
				return mkBig(new(big.Int).Or(a.iv, b.iv))
			}
			return mkUF("goor", a, b)
		case token.XOR:
			return mkUF("goxor", a, b)
		case token.SHL:
			if isInt(b) && b.iv.IsInt64() && b.iv.Int64() < 64 {
				return x.intRes(fr, mkMul(a, mkBig(new(big.Int).Lsh(big.NewInt(1), uint(b.iv.Int64())))), in.Type())
			}
			return x.intRes(fr, mkUF("goshl", a, b), in.Type())
		case token.SHR:
			if isInt(b) && b.iv.IsInt64() && b.iv.Int64() < 64 {
				return mkApp("div", SInt, a, mkBig(new(big.Int).Lsh(big.NewInt(1), uint(b.iv.Int64()))))
			}
			return mkUF("goshr", a, b)
		case token.AND_NOT:
			if isInt(a) && isInt(b) {
				return mkBig(new(big.Int).AndNot(a.iv, b.iv))
			}
		}
	}
	fail("operator %s on %s", in.Op, a.sort)
	return nil
}

func (x *Exec) reifyC(st *State, v V) *Term {
	if c, ok := v.(*CondV); ok {
		return condTerm(st, c)
	}
	return x.reify(st, v)
}

func condTerm(st *State, c *CondV) *Term {
	k := st.simp(c.c)
	return mkIte(k, c.a, c.b)
}

func (x *Exec) equal(fr *Frame, st *State, a, b V, ta, tb types.Type) *Term {
	if c, ok := a.(*CondV); ok {
		a = condTerm(st, c)
	}
	if c, ok := b.(*CondV); ok {
		b = condTerm(st, c)
	}
	// nil comparisons
	isNil := func(v V) bool {
		switch v := v.(type) {
		case *PtrV:
			return v.cell == 0 && v.nilT == tTrue
		case *FuncV:
			return v.fn == nil
		case *SliceV:
			return v.cell == 0 && v.nilT == tTrue
		case *Term:
			return v.op == "I_nil" || v.op == "re.nil" || v.op == "chan.nil"
		}
		return false
	}
	if isNil(a) {
		a, b = b, a
	}
	switch av := a.(type) {
	case *PtrV:
		if isNil(b) {
			return av.nilT
		}
		if bv, ok := b.(*PtrV); ok && len(av.path) == 0 && len(bv.path) == 0 && av.nilT == tFalse && bv.nilT == tFalse {
			return mkBoolC(av.cell == bv.cell)
		}
	case *TreeRef:
		if isNil(b) {
			return tFalse
		}
	case *FuncV:
		if isNil(b) {
			return mkBoolC(av.fn == nil)
		}
	case *SliceV:
		if isNil(b) {
			return av.nilT
		}
	case *IfaceV:
		if isNil(b) {
			return tFalse
		}
	case *OpaqueV:
		if isNil(b) {
			return tFalse
		}
	case *StructV:
		if bv, ok := b.(*StructV); ok {
			stt := av.t.Underlying().(*types.Struct)
			var cs []*Term
			for i := range av.f {
				cs = append(cs, x.equal(fr, st, av.f[i], bv.f[i], stt.Field(i).Type(), stt.Field(i).Type()))
			}
			return mkAnd(cs...)
		}
	}
	at, bt := x.reify(st, a), x.reify(st, b)
	// mixed interface/concrete comparison is done on the interface
	if at.sort == SI && bt.sort != SI {
		bt = x.wrap(st, b, tb)
	} else if bt.sort == SI && at.sort != SI {
		at = x.wrap(st, a, ta)
	}
	if at.sort == SF64 {
		return mkUF("fp.eq", at, bt)
	}
	if at.sort == SI {
		if at.op == "I_nil" || bt.op == "I_nil" {
			if bt.op != "I_nil" {
				at, bt = bt, at
			}
			return mkIs("I_nil", at)
		}
		declFun("goeqI", SBool, SI, SI)
		return mkUF("goeqI", at, bt)
	}
	return mkEq(at, bt)
}
