package main

// Calls: builtins, intrinsics of the specification language, spec functions, contracts, dynamic dispatch.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var intrinsics = map[string]bool{
	"requires": true, "ensures": true, "consumes": true, "fresh": true, "loop": true, "inv": true, "forall": true, "exists": true,
	"eq": true, "implies": true, "unfold": true, "assert": true, "decreases": true, "sent": true, "closed": true, "chTotal": true, "chPos": true, "made": true,
	"oldSent": true, "oldClosed": true, "oldPos": true, "oldMade": true,
	"rank": true, "snoc": true, "cat": true, "sub": true, "take": true, "upd": true, "trigger": true, "mapKeys": true, "unreachable": true,
	"ite": true, "hasKey": true, "keyIndex": true, "mayPanic": true, "asI": true, "bvproof": true, "goEq": true, "hint": true, "length": true,
	"split": true, "seqRank": true, "isNilSlice": true, "later": true, "atHead": true, "isBack": true, "atEntry": true, "outer": true, "cases": true, "unfoldOwn": true, "appb": true,
}

func origin(fn *ssa.Function) *ssa.Function {
	if o := fn.Origin(); o != nil {
		return o
	}
	return fn
}

func isIntrinsic(w *World, fn *ssa.Function) bool {
	o := origin(fn)
	return intrinsics[o.Name()] && o.Parent() == nil && o.Signature.Recv() == nil && isSpecFile(w, o)
}

func isExtern(w *World, fn *ssa.Function) bool {
	if fn.Pkg != nil {
		return !w.inMod[fn.Pkg]
	}
	if o := fn.Origin(); o != nil && o != fn {
		return isExtern(w, o)
	}
	if ob := fn.Object(); ob != nil && ob.Pkg() != nil {
		return !strings.HasPrefix(ob.Pkg().Path(), modPath)
	}
	return false
}

// conInst collects the clauses of a contract being evaluated.
type conInst struct {
	req, ens []conClause
	invs     []conClause
	decr     []*Term
	pre      *State
	hint     bool
	mayPanic bool
	bv       bool
	nbr      int
}
type conClause struct {
	t   *Term
	pos string
}

func branchCond(st *State, from int) *Term {
	return mkAnd(st.br[from:]...)
}

func (x *Exec) condOf(v V, st *State) V {
	if c, ok := v.(*CondV); ok {
		return condTerm(st, c)
	}
	return v
}

// callSync performs a call that yields a single state; ok=false if it must be executed path by path.
func (x *Exec) callSync(fr *Frame, st *State, in ssa.Instruction, c *ssa.CallCommon) (V, bool) {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return x.builtin(fr, st, in, b.Name(), c), true
	}
	var args []V
	if c.IsInvoke() {
		recv := x.condOf(x.val(fr, st, c.Value), st)
		for _, a := range c.Args {
			args = append(args, x.condOf(x.val(fr, st, a), st))
		}
		return x.invoke(fr, st, in, c, recv, args)
	}
	for _, a := range c.Args {
		args = append(args, x.condOf(x.val(fr, st, a), st))
	}
	fv := x.calleeV(fr, st, c)
	if fv == nil {
		return nil, false
	}
	return x.callFn(fr, st, in.Pos(), fv.fn.(*ssa.Function), fv.binds, args)
}

// calleeV returns the function value called, or nil if it is not a known single function.
func (x *Exec) calleeV(fr *Frame, st *State, c *ssa.CallCommon) *FuncV {
	if g := c.StaticCallee(); g != nil {
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			if fv, ok := x.val(fr, st, mc).(*FuncV); ok {
				return fv
			}
		}
		return &FuncV{fn: g}
	}
	v := x.val(fr, st, c.Value)
	fv, ok := v.(*FuncV)
	if !ok {
		fail("call of %T", v)
	}
	if _, ok := fv.fn.(*ssa.Function); !ok {
		if fv.fn == nil {
			x.oblig(fr, st, "safety", "call of a non-nil function", c.Pos(), tFalse)
		}
		fail("call of an unknown function value")
	}
	return fv
}

func (x *Exec) callFn(fr *Frame, st *State, pos token.Pos, g *ssa.Function, binds []V, args []V) (V, bool) {
	x.tick()
	if isIntrinsic(x.w, g) {
		return x.intrinsic(fr, st, pos, g, args), true
	}
	if g.Name() == "init" && g.Synthetic != "" {
		return TupleV{}, true
	}
	if x.w.isSpecFn(origin(g)) {
		return x.applySpec(fr, st, g, args), true
	}
	if x.w.isLemma(origin(g)) && x.con != nil && !x.con.hint {
		return TupleV{}, true
	}
	if isExtern(x.w, g) {
		return x.extern(fr, st, pos, g, args), true
	}
	if c := x.w.contractOf(g); c != nil {
		return x.applyContract(fr, st, pos, g, c, args), true
	}
	if g.Synthetic != "" && g.Blocks != nil && !x.w.canTree(g) {
		return nil, false
	}
	if x.w.canTree(g) && !x.noTree[g] {
		if v, ok := x.tryTree(fr, st, g, binds, args); ok {
			return v, true
		}
		x.noTree[g] = true
	}
	return nil, false
}

// tryTree evaluates g as a tree, undoing everything if that turns out not to be possible.
func (x *Exec) tryTree(fr *Frame, st *State, g *ssa.Function, binds, args []V) (v V, ok bool) {
	n := len(x.obls)
	s := st.fork()
	defer func() {
		if e := recover(); e != nil {
			if u, isU := e.(unsupported); isU {
				if debug {
					fmt.Println("tree:", g, u.msg)
				}
				x.obls = x.obls[:n]
				v, ok = nil, false
				return
			}
			panic(e)
		}
	}()
	v = x.pureFn(fr, s, g, binds, args)
	*st = *s
	return v, true
}

// ---- builtins

func (x *Exec) builtin(fr *Frame, st *State, in ssa.Instruction, name string, c *ssa.CallCommon) V {
	arg := func(i int) V { return x.condOf(x.val(fr, st, c.Args[i]), st) }
	switch name {
	case "len":
		v := arg(0)
		switch v := v.(type) {
		case *SliceV:
			n := x.sliceLen(st, v)
			x.lenBound(st, n)
			return n
		case *MapRef:
			m := st.mem[v.cell].(*MapCell)
			return mkUF("mlen_"+m.m.sort, m.m)
		case *MapLit:
			return mkInt(int64(len(v.keys)))
		case *Term:
			if v.sort == SStr {
				n := mkUF("slen", v)
				x.lenBound(st, n)
				return n
			}
			if _, ok := mapSorts[v.sort]; ok {
				n := mkUF("mlen_"+v.sort, v)
				x.lenBound(st, n)
				return n
			}
		}
		fail("len of %T", v)
	case "cap":
		if s, ok := arg(0).(*SliceV); ok {
			n := mkFresh("cap", SInt)
			st.assume(mkLe(x.sliceLen(st, s), n))
			return n
		}
	case "append":
		return x.appendV(fr, st, in, c)
	case "copy":
		d, ok1 := arg(0).(*SliceV)
		s, ok2 := arg(1).(*SliceV)
		if !ok1 || !ok2 || d.cell == 0 {
			if ok1 && ok2 {
				x.oblig(fr, st, "frame", "copy into a list that is not owned", in.Pos(), tFalse)
				return x.sliceLen(st, s)
			}
			fail("copy")
		}
		dc, ok := st.mem[d.cell].(*SeqCell)
		if !ok {
			fail("copy into an array")
		}
		if dc.consumed || dc.frozen || !d.owned {
			x.oblig(fr, st, "frame", "copy into a list that is not owned", in.Pos(), tFalse)
		}
		dl, sl := x.sliceLen(st, d), x.sliceLen(st, s)
		src := x.content(st, s)
		n := mkIte(st.simp(mkLt(dl, sl)), dl, sl)
		// contents: before + src[:n] + after
		full := seqLen(dc.seq)
		part := seqSub(src, mkInt(0), n)
		if n == sl {
			part = src
		}
		r := seqCat(seqCat(seqSub(dc.seq, mkInt(0), d.lo), part), seqSub(dc.seq, mkAdd(d.lo, n), full))
		r = x.maybeWhole(st, r, d, dc, src, dl, sl)
		st.mem[d.cell] = &SeqCell{seq: r, elem: dc.elem}
		return n
	case "close":
		ch := x.reify(st, arg(0))
		cc := x.chanCell(st, ch)
		x.oblig(fr, st, "safety", "close of a channel that is open", in.Pos(), mkNot(cc.closed))
		st.mem[chKey(ch)] = &ChanCell{sent: cc.sent, closed: tTrue}
		return TupleV{}
	case "ssa:wrapnilchk":
		return arg(0)
	case "print", "println":
		return TupleV{}
	case "delete":
		fail("delete")
	}
	fail("builtin %s", name)
	return nil
}

// maybeWhole: copying a list of equal length over a whole list gives that list.
func (x *Exec) maybeWhole(st *State, r *Term, d *SliceV, dc *SeqCell, src, dl, sl *Term) *Term {
	if isInt(d.lo) && d.lo.iv.Sign() == 0 && d.hi == seqLen(dc.seq) {
		// r = src + old[len(src):]; equal to src when the lengths agree
		f := mkFresh("copied", r.sort)
		st.assume(mkImp(mkEq(dl, sl), mkEq(f, src)))
		st.assume(mkImp(mkNot(mkEq(dl, sl)), mkEq(f, r)))
		st.assume(mkEq(seqLen(f), dl))
		return f
	}
	return r
}

var maxLen = mkInt(1 << 62)

// lenBound: lengths are bounded by the address space (a stated assumption).
func (x *Exec) lenBound(st *State, n *Term) {
	if isInt(n) {
		return
	}
	st.assume(mkLe(mkInt(0), n))
	st.assume(mkLt(n, maxLen))
}

func (x *Exec) appendV(fr *Frame, st *State, in ssa.Instruction, c *ssa.CallCommon) V {
	sv := x.condOf(x.val(fr, st, c.Args[0]), st)
	s, ok := sv.(*SliceV)
	if !ok {
		if t, isT := sv.(*Term); isT && strings.HasPrefix(t.sort, "Seq_") {
			s = &SliceV{seq: t, elem: c.Args[0].Type().Underlying().(*types.Slice).Elem(), nilT: tFalse}
		} else {
			fail("append to %T", sv)
		}
	}
	var add *Term
	av := x.condOf(x.val(fr, st, c.Args[1]), st)
	base := x.content(st, s)
	var res *Term
	switch a := av.(type) {
	case *SliceV:
		if arr, ok := st.mem[a.cell].(*ArrayV); ok && a.cell != 0 && isInt(a.lo) && isInt(a.hi) {
			res = base
			for i := a.lo.iv.Int64(); i < a.hi.iv.Int64(); i++ {
				x.freeze(st, arr.e[i])
				res = seqSnoc(res, x.reify(st, arr.e[i]))
			}
		} else {
			add = x.content(st, a)
			res = seqCat(base, add)
		}
	case *Term:
		if a.sort == SStr {
			fail("append of a string")
		}
		res = seqCat(base, a)
	default:
		fail("append %T", av)
	}
	if fr.spec {
		return &SliceV{seq: res, elem: s.elem, nilT: tFalse}
	}
	if !x.isOwned(st, s) {
		// writing into spare capacity of a list that others can see
		x.oblig(fr, st, "frame", "append to a list that is not owned", in.Pos(), mkEq(x.sliceLen(st, s), mkInt(0)))
	}
	if s.cell != 0 {
		clob := false
		if cc, ok := st.mem[s.cell].(*SeqCell); ok {
			clob = s.hi != seqLen(cc.seq)
			n := *cc
			n.consumed = true
			if clob {
				n.seq = mkFresh("clobbered", n.seq.sort)
			}
			st.mem[s.cell] = &n
		} else {
			x.consume(st, s)
		}
	}
	nc := x.newCell()
	st.mem[nc] = &SeqCell{seq: res, elem: s.elem}
	return &SliceV{cell: nc, lo: mkInt(0), hi: seqLen(res), elem: s.elem, nilT: mkAnd(s.nilT, mkEq(seqLen(res), mkInt(0))), owned: true}
}

// ---- intrinsics

func (x *Exec) closureBody(fr *Frame, st *State, f *FuncV, args []V) V {
	s := st.fork()
	n := len(x.obls)
	x.quiet++
	v := x.pureFn(fr, s, f.fn.(*ssa.Function), f.binds, args)
	x.quiet--
	x.obls = x.obls[:n]
	return x.settle(s, v)
}

func (x *Exec) quant(fr *Frame, st *State, f *FuncV, all bool) *Term {
	fn := f.fn.(*ssa.Function)
	var bvs []*Term
	var args []V
	for _, p := range fn.Params {
		b := mkBVar(x.w.sortOf(p.Type()))
		bvs = append(bvs, b)
		args = append(args, x.lift(b, p.Type()))
	}
	old := x.trig
	x.trig = nil
	v := x.closureBody(fr, st, f, args)
	pats := x.trig
	x.trig = old
	body := x.reify(st, v)
	if all {
		return mkForall(bvs, pats, body)
	}
	return mkExists(bvs, body)
}

func (x *Exec) intrinsic(fr *Frame, st *State, pos token.Pos, g *ssa.Function, args []V) V {
	name := origin(g).Name()
	t := func(i int) *Term { return x.reify(st, args[i]) }
	none := TupleV{}
	sq := func(v V) *Term { return x.reify(st, v) }
	seqV := func(s *Term, like V) V {
		if sl, ok := like.(*SliceV); ok {
			return &SliceV{seq: s, elem: sl.elem, nilT: tFalse}
		}
		return &SliceV{seq: s, elem: g.Signature.Results().At(0).Type().Underlying().(*types.Slice).Elem(), nilT: tFalse}
	}
	switch name {
	case "requires", "ensures", "inv":
		if x.con == nil {
			fail("%s outside a contract", name)
		}
		cl := conClause{mkImp(branchCond(st, x.con.nbr), t(0)), x.pos(pos)}
		switch name {
		case "requires":
			x.con.req = append(x.con.req, cl)
		case "ensures":
			x.con.ens = append(x.con.ens, cl)
		default:
			x.con.invs = append(x.con.invs, cl)
		}
		return none
	case "decreases":
		if x.con != nil {
			x.con.decr = append(x.con.decr, t(0))
		}
		return none
	case "mayPanic":
		x.con.mayPanic = true
		return none
	case "consumes", "fresh", "loop", "outer", "bvproof", "hint", "split":
		return none
	case "trigger":
		var ps []*Term
		if s, ok := args[0].(*SliceV); ok && s.cell != 0 {
			for _, e := range st.mem[s.cell].(*ArrayV).e {
				p := x.reify(st, e)
				for strings.HasPrefix(p.op, "I_") && len(p.args) == 1 {
					p = p.args[0]
				}
				ps = append(ps, p)
			}
		}
		x.trig = append(x.trig, ps)
		return tTrue
	case "forall":
		return x.quant(fr, st, args[0].(*FuncV), true)
	case "exists":
		return x.quant(fr, st, args[0].(*FuncV), false)
	case "implies":
		return mkImp(t(0), t(1))
	case "eq":
		a, b := t(0), t(1)
		if strings.HasPrefix(a.sort, "Seq_") {
			return mkUF("eqx_"+a.sort, a, b)
		}
		return mkEq(a, b)
	case "goEq":
		return x.equal(fr, st, args[0], args[1], g.Signature.Params().At(0).Type(), g.Signature.Params().At(1).Type())
	case "ite":
		return x.mergeV(st, t(0), x.settle(st, args[1]), x.settle(st, args[2]))
	case "asI":
		return t(0)
	case "appb":
		return mkUF("sappb", t(0), t(1))
	case "unfold":
		a := t(0)
		x.unfoldTerm(fr, st, a)
		return none
	case "unfoldOwn":
		// only for the function's own obligations
		if x.applying == 0 {
			x.unfoldTerm(fr, st, t(0))
		}
		return none
	case "assert":
		x.oblig(nil, st, "assert", "assertion", pos, t(0))
		return none
	case "later":
		// unfold the third argument once the first holds and the second has a known value on the path
		if x.con != nil && x.phase == "head" {
			st.later = append(st.later, lateUnfold{t(0), t(1), t(2)})
		}
		return none
	case "cases":
		// one path for each value of the key below the bound, if the condition holds
		if x.con != nil && x.phase == "head" {
			st.cases = append(st.cases, caseSplit{t(0), t(1), t(2)})
		}
		return none
	case "atHead":
		key := fmt.Sprintf("%s:%d", x.curClause, pos)
		switch x.phase {
		case "head":
			x.curLC.heads[key] = x.settle(st, args[0])
		case "back":
			if v, ok := x.curLC.heads[key]; ok {
				return v
			}
		}
		return args[0]
	case "atEntry":
		key := fmt.Sprintf("e%s:%d", x.curClause, pos)
		if x.curLC == nil {
			return args[0]
		}
		if x.phase == "entry" {
			x.curLC.heads[key] = x.settle(st, args[0])
		}
		if v, ok := x.curLC.heads[key]; ok {
			return v
		}
		return args[0]
	case "isBack":
		return mkBoolC(x.phase == "back")
	case "unreachable":
		x.oblig(nil, st, "assert", "unreachable", pos, tFalse)
		return bottom{}
	case "rank":
		return mkUF("rank", t(0))
	case "seqRank":
		return mkUF("srank", t(0))
	case "isNilSlice":
		if s, ok := args[0].(*SliceV); ok {
			return s.nilT
		}
		return tFalse
	case "length":
		return seqLen(sq(args[0]))
	case "snoc":
		return seqV(seqSnoc(sq(args[0]), t(1)), args[0])
	case "cat":
		return seqV(seqCat(sq(args[0]), sq(args[1])), args[0])
	case "sub":
		return seqV(seqSub(sq(args[0]), t(1), t(2)), args[0])
	case "take":
		return seqV(seqSub(sq(args[0]), mkInt(0), t(1)), args[0])
	case "upd":
		return seqV(seqUpd(sq(args[0]), t(1), t(2)), args[0])
	case "mapKeys":
		m := t(0)
		kv := mapSorts[m.sort]
		ks := mkApp("mkeys_"+m.sort, seqSort(kv.k), m)
		return &SliceV{seq: ks, elem: types.Typ[types.String], nilT: tFalse}
	case "keyIndex":
		m := t(0)
		return mkUF("midx_"+m.sort, m, t(1))
	case "hasKey":
		m := t(0)
		return mkUF("mhas_"+m.sort, m, t(1))
	case "sent", "oldSent":
		s := st
		if name == "oldSent" {
			s = x.con.pre
		}
		return &SliceV{seq: x.chanCell(s, t(0)).sent, elem: g.Signature.Results().At(0).Type().Underlying().(*types.Slice).Elem(), nilT: tFalse}
	case "closed", "oldClosed":
		s := st
		if name == "oldClosed" {
			s = x.con.pre
		}
		return x.chanCell(s, t(0)).closed
	case "chTotal":
		return &SliceV{seq: chTotal(t(0)), elem: g.Signature.Results().At(0).Type().Underlying().(*types.Slice).Elem(), nilT: tFalse}
	case "chPos", "oldPos":
		s := st
		if name == "oldPos" {
			s = x.con.pre
		}
		return mkApp("select", SInt, x.ghost(s, ghostPos), t(0))
	case "made", "oldMade":
		s := st
		if name == "oldMade" {
			s = x.con.pre
		}
		return mkApp("select", SBool, x.ghost(s, ghostMade), t(0))
	}
	fail("intrinsic %s", name)
	return nil
}

// ---- channels (ghost state)

const (
	ghostPos  = -10
	ghostMade = -11
	sChanInt  = "(Array Chan Int)"
	sChanBool = "(Array Chan Bool)"
)

func (x *Exec) ghost(st *State, k int) *Term {
	if v, ok := st.mem[k]; ok {
		return v.(*Term)
	}
	// shared initial value
	var t *Term
	if k == ghostPos {
		t = mkVar("chpos!0", sChanInt)
	} else {
		t = mkVar("chmade!0", sChanBool)
	}
	st.mem[k] = t
	return t
}

func chTotal(c *Term) *Term {
	s := seqSort(SI)
	declFun("chtotal", s, "Chan")
	return mkUF("chtotal", c)
}

func chKey(c *Term) int { return -1000 - c.id }

func (x *Exec) chanCell(st *State, c *Term) *ChanCell {
	if v, ok := st.mem[chKey(c)]; ok {
		return v.(*ChanCell)
	}
	// initial contents are a function of the channel, so every state agrees on them
	s := seqSort(SI)
	cc := &ChanCell{sent: mkVar(fmt.Sprintf("sent!%d", c.id), s), closed: mkVar(fmt.Sprintf("closed!%d", c.id), SBool)}
	st.mem[chKey(c)] = cc
	return cc
}

func (x *Exec) chMake(st *State, c *Term) {
	s := seqSort(SI)
	st.mem[chKey(c)] = &ChanCell{sent: seqEmp(s), closed: tFalse}
	made := x.ghost(st, ghostMade)
	st.assume(mkNot(mkApp("select", SBool, made, c)))
	st.mem[ghostMade] = mkApp("store", sChanBool, made, c, tTrue)
	pos := x.ghost(st, ghostPos)
	st.mem[ghostPos] = mkApp("store", sChanInt, pos, c, mkInt(0))
}

func (x *Exec) chRecv(fr *Frame, st *State, c *Term, in *ssa.UnOp) V {
	pos := x.ghost(st, ghostPos)
	x.oblig(fr, st, "safety", "receive from a channel made here, with its producer", in.Pos(), mkApp("select", SBool, x.ghost(st, ghostMade), c))
	p := mkApp("select", SInt, pos, c)
	st.assume(mkLe(mkInt(0), p))
	st.assume(mkLe(p, seqLen(chTotal(c))))
	more := mkLt(p, seqLen(chTotal(c)))
	st.mem[ghostPos] = mkApp("store", sChanInt, pos, c, mkIte(more, mkAdd(p, mkInt(1)), p))
	v := seqAt(chTotal(c), p)
	if in.CommaOk {
		return TupleV{&CondV{more, v, mkCtor("I_nil")}, more}
	}
	return mkIte(more, v, mkCtor("I_nil"))
}

// ---- spec functions

func fuelSort() Sort {
	declSort("Fuel")
	declFun("fz", "Fuel")
	declFun("fs", "Fuel", "Fuel")
	return "Fuel"
}

func fuelConst() *Term {
	fuelSort()
	return mkUF("fs", mkUF("fs", mkUF("fz")))
}

type specDef struct {
	fn     *ssa.Function
	sym    string
	fuel   bool
	opaque bool
	recur  bool
}

var specDefs = map[*ssa.Function]*specDef{}
var specBySym = map[string]*specDef{}

func (w *World) specDefOf(fn *ssa.Function) *specDef {
	if d, ok := specDefs[fn]; ok {
		return d
	}
	o := origin(fn)
	_, opq := w.dir(o, "opaque")
	_, def := w.dir(o, "def")
	rec := w.recursive[fn] || w.recursive[o]
	if !opq && !def && !rec {
		specDefs[fn] = nil
		return nil
	}
	d := &specDef{fn: fn, sym: o.Name(), opaque: opq, recur: rec, fuel: rec && !opq}
	if o.Pkg != nil {
		d.sym = o.Pkg.Pkg.Name() + "." + o.Name()
	}
	if fn != o {
		d.sym += fmt.Sprintf("$%d", len(specDefs))
	}
	specDefs[fn] = d
	specBySym[d.sym] = d
	var as []Sort
	if d.fuel {
		as = append(as, fuelSort())
	}
	for _, p := range fn.Params {
		as = append(as, w.sortOf(p.Type()))
	}
	res := fn.Signature.Results()
	if res.Len() != 1 {
		fail("spec function %s: must have one result", d.sym)
	}
	declFun(d.sym, w.sortOf(res.At(0).Type()), as...)
	if !d.opaque {
		w.defAxiom(d)
	}
	return d
}

// defAxiom states the definition of a spec function.
func (w *World) defAxiom(d *specDef) {
	x := newExec(w, nil)
	x.quiet = 1
	st := newState()
	var bvs []*Term
	var args []V
	var ts []*Term
	var fu *Term
	if d.fuel {
		fu = mkBVar("Fuel")
		bvs = append(bvs, fu)
		x.fuel = fu
		ts = append(ts, mkUF("fs", fu))
	}
	for _, p := range d.fn.Params {
		b := mkBVar(w.sortOf(p.Type()))
		bvs = append(bvs, b)
		ts = append(ts, b)
		args = append(args, x.lift(b, p.Type()))
	}
	app := mkUF(d.sym, ts...)
	// the axiom is registered before the body is evaluated, for recursion
	ax := &Axiom{name: "def " + d.sym, needs: []string{d.sym}}
	axioms = append(axioms, ax)
	body := x.reify(st, x.pureFn(nil, st, d.fn, nil, args))
	eq := mkEq(app, body)
	if d.fuel {
		ts0 := append([]*Term{fu}, ts[1:]...)
		eq = mkAnd(eq, mkEq(app, mkUF(d.sym, ts0...)))
	}
	if len(bvs) == 0 {
		ax.text = eq
	} else {
		ax.text = mkForall(bvs, [][]*Term{{app}}, eq)
	}
	axVersion++
}

var axVersion int

func (x *Exec) applySpec(fr *Frame, st *State, g *ssa.Function, args []V) V {
	d := x.w.specDefOf(g)
	if d == nil || d.opaque && !d.recur && x.reveal {
		return x.pureFn(fr, st, g, nil, args)
	}
	var ts []*Term
	if d.fuel {
		ts = append(ts, x.fuel)
	}
	for _, a := range args {
		ts = append(ts, x.reify(st, a))
	}
	x.specCall(fr, st, g, args)
	return x.lift(mkUF(d.sym, ts...), g.Signature.Results().At(0).Type())
}

// specCall checks that a recursive call within a spec function decreases its measure.
func (x *Exec) specCall(fr *Frame, st *State, g *ssa.Function, args []V) {
	if x.specRoot == nil || x.quiet > 0 {
		return
	}
	if !x.w.sameSCC(x.specRoot, g) {
		return
	}
	m := x.measure(g, args, st)
	x.obligT(st, "decreases", "recursive call of "+g.Name()+" decreases its measure", x.pos(g.Pos()), lexLess(m, x.decr), "")
}

func lexLess(a, b []*Term) *Term {
	if len(a) == 0 || len(b) == 0 {
		return tFalse
	}
	lt := mkAnd(mkLe(mkInt(0), b[0]), mkLt(a[0], b[0]), mkLe(mkInt(0), b[0]))
	if len(a) == 1 || len(b) == 1 {
		return lt
	}
	return mkOr(lt, mkAnd(mkEq(a[0], b[0]), lexLess(a[1:], b[1:])))
}

// measure evaluates the decreases clause of fn (at its start, or in its contract) on args.
func (x *Exec) measure(fn *ssa.Function, args []V, st *State) []*Term {
	y := newExec(x.w, nil)
	y.quiet = 1
	y.ncell = x.ncell + 100000
	y.con = &conInst{pre: st}
	s := st.fork()
	y.con.nbr = len(s.br)
	fr := y.newFrame(fn, nil, nil)
	fr.spec = true
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	for _, in := range fn.Blocks[0].Instrs {
		switch in := in.(type) {
		case *ssa.Call:
			g := in.Common().StaticCallee()
			v, ok := y.callSync(fr, s, in, in.Common())
			if !ok {
				return nil
			}
			fr.env[in] = v
			if g != nil && origin(g).Name() == "decreases" {
				continue
			}
		case *ssa.If, *ssa.Jump, *ssa.Return, *ssa.Panic:
			return y.con.decr
		default:
			v := y.eval(fr, s, in)
			if val, ok := in.(ssa.Value); ok {
				fr.env[val] = v
			}
		}
	}
	return y.con.decr
}

// unfoldTerm assumes the definition of the spec function application a.
func (x *Exec) unfoldTerm(fr *Frame, st *State, a *Term) {
	d := specBySym[a.op]
	if d == nil {
		if a.op == "ite" {
			x.unfoldTerm(fr, st, a.args[1])
			x.unfoldTerm(fr, st, a.args[2])
		}
		return
	}
	if x.unfolded == nil {
		x.unfolded = map[int]bool{}
	}
	ts := a.args
	fuel := x.fuel
	if d.fuel {
		x.fuel = ts[0]
		ts = ts[1:]
	}
	var args []V
	for i, p := range d.fn.Params {
		args = append(args, x.lift(ts[i], p.Type()))
	}
	n := len(x.obls)
	x.quiet++
	body := x.reify(st, x.pureFn(nil, st, d.fn, nil, args))
	x.quiet--
	x.obls = x.obls[:n]
	x.fuel = fuel
	st.assume(mkApp("=", SBool, a, body))
}

// ---- contracts

// snapshot copies a value so that it is independent of later changes.
func (x *Exec) snapshot(st, dst *State, v V) V {
	switch v := v.(type) {
	case *SliceV:
		if v.cell != 0 {
			return &SliceV{seq: x.content(st, v), elem: v.elem, nilT: v.nilT}
		}
	case *PtrV:
		if v.cell == 0 {
			return v
		}
		c := x.newCell()
		dst.mem[c] = x.snapshot(st, dst, x.load(st, v))
		return &PtrV{cell: c, nilT: v.nilT, t: v.t}
	case *StructV:
		n := &StructV{t: v.t}
		for _, f := range v.f {
			n.f = append(n.f, x.snapshot(st, dst, f))
		}
		return n
	case *MapRef:
		return st.mem[v.cell].(*MapCell).m
	case *TreeRef:
		return &TreeRef{term: x.reify(st, v), t: v.t}
	case *IfaceV:
		return x.reify(st, v)
	case TupleV:
		var tv TupleV
		for _, e := range v {
			tv = append(tv, x.snapshot(st, dst, e))
		}
		return tv
	}
	return v
}

func (x *Exec) isTwoState(t types.Type) bool {
	return x.w.isMutPtr(t)
}

// conArgs lays out the parameters of a contract: (old,new) for pointers to mutable objects, then the results.
func (x *Exec) conArgs(cfn, fn *ssa.Function, pre, post, res []V) []V {
	var r []V
	for i, p := range fn.Params {
		if x.isTwoState(p.Type()) {
			r = append(r, pre[i], post[i])
		} else {
			r = append(r, pre[i])
		}
	}
	r = append(r, res...)
	if len(r) != len(cfn.Params) {
		fail("contract %s: has %d parameters, needs %d", cfn.Name(), len(cfn.Params), len(r))
	}
	return r
}

// evalCon evaluates a contract body.
func (x *Exec) evalCon(st *State, cfn *ssa.Function, args []V, pre *State, hints bool) *conInst {
	old := x.con
	x.con = &conInst{pre: pre, hint: hints, nbr: len(st.br)}
	n := len(x.obls)
	sh := st.fork().shared // looking at a tree does not share it
	x.pureFn(nil, st, cfn, nil, args)
	st.shared = sh
	if !hints {
		x.obls = x.obls[:n]
	}
	c := x.con
	x.con = old
	return c
}

// conMarks finds the parameters marked consumes / fresh in a contract, and its loop clauses.
type conMark struct {
	consumes map[int]bool // contract parameter index
	fresh    map[int]bool
	loops    []ssa.Value
	calls    []*ssa.Call
	bv       bool
	split    []int
}

func (w *World) marks(cfn *ssa.Function) *conMark {
	if m, ok := w.conMarks[cfn]; ok {
		return m
	}
	m := &conMark{consumes: map[int]bool{}, fresh: map[int]bool{}}
	pidx := func(v ssa.Value) int {
		for {
			switch u := v.(type) {
			case *ssa.MakeInterface:
				v = u.X
				continue
			case *ssa.ChangeType:
				v = u.X
				continue
			case *ssa.UnOp:
				// a captured parameter is spilled to an alloc
				if a, ok := u.X.(*ssa.Alloc); ok {
					for _, r := range *a.Referrers() {
						if s, ok := r.(*ssa.Store); ok && s.Addr == a {
							v = s.Val
						}
					}
					if v != u {
						continue
					}
				}
			}
			break
		}
		for i, p := range cfn.Params {
			if p == v {
				return i
			}
		}
		return -1
	}
	for _, b := range cfn.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			g := c.Common().StaticCallee()
			if g == nil || !isIntrinsic(w, g) {
				continue
			}
			switch origin(g).Name() {
			case "consumes":
				m.consumes[pidx(c.Common().Args[0])] = true
			case "fresh":
				m.fresh[pidx(c.Common().Args[0])] = true
			case "loop", "outer":
				m.loops = append(m.loops, c.Common().Args[0])
			case "bvproof":
				m.bv = true
			case "split":
				m.split = append(m.split, pidx(c.Common().Args[0]))
			}
		}
	}
	w.conMarks[cfn] = m
	return m
}

// havocObj havocs what ms says may change in the object at p.
func (x *Exec) havocObj(st *State, v V, ms *modSet, seen map[int]bool, hint string) {
	switch v := v.(type) {
	case *PtrV:
		if v.cell == 0 || len(v.path) > 0 && false {
			return
		}
		cur := x.load(st, v)
		nv := x.havocVal(st, cur, ms, seen, hint, v.t.Underlying().(*types.Pointer).Elem())
		x.store(nil, st, v, nv)
	}
}

func (x *Exec) havocVal(st *State, v V, ms *modSet, seen map[int]bool, hint string, t types.Type) V {
	switch v := v.(type) {
	case *StructV:
		stt := v.t.Underlying().(*types.Struct)
		n := &StructV{t: v.t, f: append([]V{}, v.f...)}
		for i := range n.f {
			ft := stt.Field(i).Type()
			if ms.any || ms.fields[fieldKey(v.t, i)] {
				switch ft.Underlying().(type) {
				case *types.Pointer:
					if x.w.isMutPtr(ft) {
						if ms.any || ms.fields[fieldKey(v.t, i)] {
							fail("havoc of a pointer field %s", stt.Field(i).Name())
						}
					}
				case *types.Signature:
					fail("havoc of a function field")
				}
				n.f[i] = x.fresh(st, ft, hint+"."+stt.Field(i).Name(), true)
			} else {
				n.f[i] = x.havocVal(st, n.f[i], ms, seen, hint+"."+stt.Field(i).Name(), ft)
			}
		}
		return n
	case *PtrV:
		if v.cell != 0 && !seen[v.cell] {
			seen[v.cell] = true
			x.havocObj(st, v, ms, seen, hint)
		}
		return v
	case *SliceV:
		if v.cell != 0 && (ms.any || ms.elems[elemKey(v.elem)]) {
			if c, ok := st.mem[v.cell].(*SeqCell); ok {
				s := mkFresh(hint, c.seq.sort)
				st.assume(mkEq(seqLen(s), seqLen(c.seq)))
				st.mem[v.cell] = &SeqCell{seq: s, elem: c.elem, consumed: c.consumed, frozen: c.frozen}
				if v.hi == seqLen(c.seq) {
					nv := *v
					nv.hi = seqLen(s)
					return &nv
				}
			}
		}
		return v
	case *MapRef:
		mc := st.mem[v.cell].(*MapCell)
		if ms.any || ms.elems["map:"+elemKey(mc.t)] {
			st.mem[v.cell] = &MapCell{m: mkFresh(hint, mc.m.sort), t: mc.t}
		}
		return v
	case *Term:
		if v.sort == SStr && ms.bufs && t != nil && isTypeNamed(t, "strings", "Builder") {
			return mkFresh(hint, SStr)
		}
	}
	return v
}

func (x *Exec) applyContract(fr *Frame, st *State, pos token.Pos, g, cfn *ssa.Function, args []V) V {
	name := fnKey(g)
	noteUse(g)
	mk := x.w.marks(cfn)
	ms := x.w.modsOf(g, nil)
	preSt := st.fork()
	// argument values as they are before the call
	pre := make([]V, len(args))
	for i, a := range args {
		n0 := x.ncell
		pre[i] = x.snapshot(preSt, st, a)
		for c := n0 + 1; c <= x.ncell; c++ {
			x.snap[c] = true
		}
	}
	for k, v := range st.mem {
		if _, ok := preSt.mem[k]; !ok {
			preSt.mem[k] = v
		}
	}
	// preconditions
	dummy := x.freshResults(st.fork(), g, name)
	cs := st.fork()
	con := x.evalCon(cs, cfn, x.conArgs(cfn, g, pre, pre, dummy), preSt, false)
	for _, r := range con.req {
		x.obligC(fr, st, "pre", "precondition of "+name, pos, r.t)
	}
	if x.curDecr != nil && x.quiet == 0 && x.root != nil && x.w.sameSCC(x.root, g) {
		x.obligC(fr, st, "decreases", "recursive call of "+name+" decreases its measure", pos, lexLess(con.decr, x.curDecr))
	} else if x.root != nil && x.quiet == 0 && x.w.sameSCC(x.root, g) && !x.w.isPartial(g) {
		x.obligC(fr, st, "decreases", "recursive call of "+name+" without a measure", pos, tFalse)
	}
	// ownership of arguments
	ci := 0
	for i, p := range g.Params {
		if mk.consumes[ci] {
			if s, ok := args[i].(*SliceV); ok {
				if !x.isOwned(st, s) && !(fr != nil && fr.spec) {
					x.oblig(fr, st, "frame", name+" extends a list that is not owned", pos, mkEq(x.sliceLen(st, s), mkInt(0)))
				}
				x.consume(st, s)
			}
		} else if s, ok := args[i].(*SliceV); ok {
			_ = s
		}
		ci++
		if x.isTwoState(p.Type()) {
			ci++
		}
	}
	// effects
	seen := map[int]bool{}
	for i, a := range args {
		if x.isTwoState(g.Params[i].Type()) {
			if pv, ok := a.(*PtrV); ok && !seen[pv.cell] {
				seen[pv.cell] = true
				x.havocObj(st, pv, ms, seen, g.Params[i].Name())
			}
		}
		if ms.chans {
			if t, ok := a.(*Term); ok && t.sort == "Chan" {
				s := seqSort(SI)
				st.mem[chKey(t)] = &ChanCell{sent: mkFresh("sent", s), closed: mkFresh("closed", SBool)}
			}
		}
	}
	if ms.recvs {
		x.ghost(st, ghostPos)
		x.ghost(st, ghostMade)
		st.mem[ghostPos] = mkFresh("chpos", sChanInt)
		st.mem[ghostMade] = mkFresh("chmade", sChanBool)
	}
	// results
	res := x.freshResultsM(st, g, name, mk, len(cfn.Params)-g.Signature.Results().Len())
	x.applying++
	con = x.evalCon(st, cfn, x.conArgs(cfn, g, pre, args, res), preSt, true)
	x.applying--
	// substitute results that are given by an equation
	sub := map[int]*Term{}
	for i, r := range res {
		var rt *Term
		switch r := r.(type) {
		case *Term:
			rt = r
		case *SliceV:
			if r.cell != 0 {
				rt = st.mem[r.cell].(*SeqCell).seq
			} else {
				rt = r.seq
			}
		}
		if rt == nil || rt.op != "var" {
			continue
		}
		for _, e := range con.ens {
			if v := solvesFor(e.t, rt); v != nil {
				v = subst(v, sub)
				if occurs(v, rt) {
					continue
				}
				sub[rt.id] = v
				switch r := r.(type) {
				case *Term:
					res[i] = v
				case *SliceV:
					if r.cell != 0 {
						c := *(st.mem[r.cell].(*SeqCell))
						c.seq = v
						st.mem[r.cell] = &c
						res[i] = &SliceV{cell: r.cell, lo: r.lo, hi: seqLen(v), elem: r.elem, nilT: r.nilT, owned: r.owned}
					} else {
						res[i] = &SliceV{seq: v, elem: r.elem, nilT: r.nilT, owned: r.owned}
					}
				}
				break
			}
		}
	}
	for _, e := range con.ens {
		st.assume(subst(e.t, sub))
	}
	if len(sub) > 0 {
		for i, f := range st.pc {
			st.pc[i] = subst(f, sub)
		}
	}
	switch len(res) {
	case 0:
		return TupleV{}
	case 1:
		return res[0]
	}
	return TupleV(res)
}

func (x *Exec) obligC(fr *Frame, st *State, kind, desc string, pos token.Pos, g *Term) {
	x.obligT(st, kind, desc, x.pos(pos), g, "")
}

// solvesFor: if t is v = e (or eqx), returns e.
func solvesFor(t, v *Term) *Term {
	if t.op == "=" || strings.HasPrefix(t.op, "eqx_") {
		if t.args[0] == v {
			return t.args[1]
		}
		if t.args[1] == v {
			return t.args[0]
		}
	}
	if t == v && v.sort == SBool {
		return tTrue
	}
	if t.op == "and" {
		for _, a := range t.args {
			if r := solvesFor(a, v); r != nil {
				return r
			}
		}
	}
	return nil
}

func occurs(t, v *Term) bool {
	f := false
	symbols(t, map[int]bool{}, func(u *Term) {
		if u == v {
			f = true
		}
	})
	return f
}

func (x *Exec) freshResults(st *State, g *ssa.Function, name string) []V {
	var r []V
	res := g.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		r = append(r, x.fresh(st, res.At(i).Type(), name+".r", false))
	}
	return r
}

func (x *Exec) freshResultsM(st *State, g *ssa.Function, name string, mk *conMark, base int) []V {
	var r []V
	res := g.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		v := x.fresh(st, res.At(i).Type(), name+".r", mk.fresh[base+i])
		if tr, ok := v.(*TreeRef); ok && mk.fresh[base+i] {
			// a node of our own
			et := tr.t.Underlying().(*types.Pointer).Elem()
			sv := &StructV{t: et}
			for j := 0; j < et.Underlying().(*types.Struct).NumFields(); j++ {
				sv.f = append(sv.f, x.fieldOf(st, tr.term, j, et))
			}
			c := x.newCell()
			st.mem[c] = sv
			v = &PtrV{cell: c, nilT: tFalse, t: tr.t}
		}
		r = append(r, v)
	}
	return r
}

func (w *World) isPartial(g *ssa.Function) bool {
	_, ok := w.dir(g, "partial")
	if !ok {
		if c := w.contractOf(g); c != nil {
			_, ok = w.dir(c, "partial")
		}
	}
	return ok
}

// ---- method calls on interfaces

func (x *Exec) invoke(fr *Frame, st *State, in ssa.Instruction, c *ssa.CallCommon, recv V, args []V) (V, bool) {
	m := c.Method
	it, _ := c.Value.Type().Underlying().(*types.Interface)
	if iv, ok := recv.(*IfaceV); ok {
		f := x.w.methodOf(iv.dyn, m)
		if f == nil {
			fail("no method %s", m.Name())
		}
		return x.callFn(fr, st, in.Pos(), f, nil, append([]V{iv.v}, args...))
	}
	t := x.reify(st, recv)
	if m.Name() == "Error" && m.Pkg() == nil {
		declFun("errText", SStr, SI)
		return mkUF("errText", t), true
	}
	if t.sort != SI {
		fail("invoke %s on %s", m.Name(), t.sort)
	}
	if m.Name() == "String" {
		declFun("valString", SStr, SI)
		x.oblig(fr, st, "safety", "method call on a non-nil value", in.Pos(), mkNot(mkIs("I_nil", t)))
		return mkUF("valString", t), true
	}
	ds := x.w.implementers(it)
	var poss []*dynType
	var cond []*Term
	for _, d := range ds {
		k := st.simp(mkIs(d.ctor, t))
		if k == tFalse {
			continue
		}
		if x.w.methodOf(d.t, m) == nil {
			continue
		}
		poss = append(poss, d)
		cond = append(cond, k)
	}
	x.oblig(fr, st, "safety", "method call on a value of an expected type", in.Pos(), mkOr(cond...))
	if len(poss) == 0 {
		return bottom{}, true
	}
	var rec func(i int, s *State) V
	rec = func(i int, s *State) V {
		d := poss[i]
		f := x.w.methodOf(d.t, m)
		run := func(s *State) V {
			v, ok := x.callFn(fr, s, in.Pos(), f, nil, append([]V{x.lift(mkSel(d.ctor+".v", t), d.t)}, args...))
			if !ok {
				fail("method %s is not pure", f)
			}
			return v
		}
		if i == len(poss)-1 {
			return run(s)
		}
		k := s.simp(cond[i])
		if k == tTrue {
			return run(s)
		}
		if k == tFalse {
			return rec(i+1, s)
		}
		return x.pureIf(fr, s, k, run, func(s *State) V { return rec(i+1, s) })
	}
	return rec(0, st), true
}

func (w *World) methodOf(t types.Type, m *types.Func) *ssa.Function {
	sel := w.prog.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	return w.prog.MethodValue(sel)
}

// sameSCC says whether a and b are mutually recursive (or the same).
func (w *World) sameSCC(a, b *ssa.Function) bool {
	a, b = origin(a), origin(b)
	if a == b {
		return w.recursive[a]
	}
	return w.reaches(a, b) && w.reaches(b, a)
}

func (w *World) reaches(a, b *ssa.Function) bool {
	if w.reach == nil {
		w.reach = map[*ssa.Function]map[*ssa.Function]bool{}
	}
	if r, ok := w.reach[a]; ok {
		return r[b]
	}
	seen := map[*ssa.Function]bool{}
	stack := append([]*ssa.Function{}, w.succs[a]...)
	for len(stack) > 0 {
		g := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		if seen[g] {
			continue
		}
		seen[g] = true
		stack = append(stack, w.succs[g]...)
	}
	w.reach[a] = seen
	return seen[b]
}

func sortStrings(s []string) []string { sort.Strings(s); return s }
