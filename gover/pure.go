package main

// Tree evaluation: an acyclic function without visible effects is evaluated to a single value,
// branches becoming conditional terms.

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type bottom struct{} // the branch does not return

// pureEv marks a frame evaluated as a tree.
type pureEv struct{}

func (x *Exec) newFrame(fn *ssa.Function, binds []V, parent *Frame) *Frame {
	x.nframe++
	fr := &Frame{id: x.nframe, fn: fn, env: map[ssa.Value]V{}, binds: binds, loops: map[*ssa.BasicBlock]*loopCtx{}, parent: parent}
	fr.spec = isSpecFile(x.w, specRoot(fn))
	if parent != nil {
		fr.spec = fr.spec || parent.spec
		fr.depth = parent.depth + 1
	}
	return fr
}

// specRoot is the outermost function enclosing a closure.
func specRoot(fn *ssa.Function) *ssa.Function {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	return fn
}

// pureFn evaluates fn on args in st.
func (x *Exec) pureFn(parent *Frame, st *State, fn *ssa.Function, binds []V, args []V) V {
	if fn.Blocks == nil {
		fail("no body for %s", fn)
	}
	if debug {
		if x.stepFn == nil {
			x.stepFn = map[string]int{}
		}
		x.stepFn[fn.Name()]++
	}
	fr := x.newFrame(fn, binds, parent)
	if fr.depth > 60 {
		fail("inlining too deep at %s", fn)
	}
	fr.ev = &pureEv{}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	v := x.pureBlock(fr, st, fn.Blocks[0], nil)
	return v
}

func (x *Exec) setPhis(fr *Frame, st *State, b, prev *ssa.BasicBlock) {
	if prev == nil {
		return
	}
	idx := -1
	for i, p := range b.Preds {
		if p == prev {
			idx = i
		}
	}
	var vs []V
	var ps []*ssa.Phi
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		ps = append(ps, p)
		vs = append(vs, x.val(fr, st, p.Edges[idx]))
	}
	for i, p := range ps {
		fr.env[p] = vs[i]
	}
}

func (x *Exec) pureBlock(fr *Frame, st *State, b, prev *ssa.BasicBlock) V {
	x.tick()
	x.setPhis(fr, st, b, prev)
	for _, in := range b.Instrs {
		switch in := in.(type) {
		case *ssa.Phi:
		case *ssa.If:
			c := st.simp(x.term(fr, st, in.Cond))
			if c == tTrue {
				return x.pureBlock(fr, st, b.Succs[0], b)
			}
			if c == tFalse {
				return x.pureBlock(fr, st, b.Succs[1], b)
			}
			return x.pureIf(fr, st, c,
				func(s *State) V { return x.pureBlock(fr, s, b.Succs[0], b) },
				func(s *State) V { return x.pureBlock(fr, s, b.Succs[1], b) })
		case *ssa.Jump:
			return x.pureBlock(fr, st, b.Succs[0], b)
		case *ssa.Return:
			return x.retVal(fr, st, in)
		case *ssa.Panic:
			if !fr.spec {
				x.oblig(fr, st, "safety", "panic is unreachable", in.Pos(), tFalse)
			}
			return bottom{}
		case *ssa.Call:
			v, ok := x.callSync(fr, st, in, in.Common())
			if !ok {
				fail("call %s is not pure", in)
			}
			if _, bot := v.(bottom); bot {
				return v
			}
			fr.env[in] = v
		case *ssa.RunDefers:
		default:
			v := x.eval(fr, st, in)
			if val, ok := in.(ssa.Value); ok {
				fr.env[val] = v
			}
		}
	}
	fail("block without terminator in %s", fr.fn)
	return nil
}

func (x *Exec) retVal(fr *Frame, st *State, in *ssa.Return) V {
	switch len(in.Results) {
	case 0:
		return TupleV{}
	case 1:
		v := x.val(fr, st, in.Results[0])
		if c, ok := v.(*CondV); ok {
			return condTerm(st, c)
		}
		return v
	}
	var tv TupleV
	for _, r := range in.Results {
		v := x.val(fr, st, r)
		if c, ok := v.(*CondV); ok {
			v = condTerm(st, c)
		}
		tv = append(tv, v)
	}
	return tv
}

// pureIf evaluates both branches and merges their values and what was learnt in each.
func (x *Exec) pureIf(fr *Frame, st *State, c *Term, f, g func(*State) V) V {
	n := len(st.pc)
	s1 := st.fork()
	s1.assume(c)
	s1.br = append(s1.br, c)
	v1 := f(s1)
	s2 := st.fork()
	s2.assume(mkNot(c))
	s2.br = append(s2.br, mkNot(c))
	v2 := g(s2)
	for _, t := range s1.pc[n:] {
		st.assume(mkImp(c, t))
	}
	nc := mkNot(c)
	for _, t := range s2.pc[n:] {
		st.assume(mkImp(nc, t))
	}
	if _, ok := v1.(bottom); ok {
		if _, ok := v2.(bottom); ok {
			return v1
		}
		st.assume(nc)
		return x.settle(s2, v2)
	}
	if _, ok := v2.(bottom); ok {
		st.assume(c)
		return x.settle(s1, v1)
	}
	return x.merge2(s1, s2, c, v1, v2)
}

// settle makes v independent of memory cells that exist only in st.
func (x *Exec) settle(st *State, v V) V {
	switch v := v.(type) {
	case *SliceV:
		if v.cell != 0 {
			return &SliceV{seq: x.content(st, v), elem: v.elem, nilT: v.nilT}
		}
	case *IfaceV:
		return x.reify(st, v)
	case *TreeRef:
		if v.ref != nil {
			return &TreeRef{term: x.reify(st, v), t: v.t}
		}
	case *PtrV:
		if x.w.isTreePtr(v.t) && v.cell != 0 {
			return &TreeRef{term: x.reify(st, v), t: v.t}
		}
	case *StructV:
		n := &StructV{t: v.t}
		for _, f := range v.f {
			n.f = append(n.f, x.settle(st, f))
		}
		return n
	case TupleV:
		var tv TupleV
		for _, e := range v {
			tv = append(tv, x.settle(st, e))
		}
		return tv
	case *CondV:
		return condTerm(st, v)
	}
	return v
}

func (x *Exec) merge2(s1, s2 *State, c *Term, a, b V) V {
	return x.mergeV(s1, c, x.settle(s1, a), x.settle(s2, b))
}

func (x *Exec) mergeV(st *State, c *Term, a, b V) V {
	if c == tTrue {
		return a
	}
	if c == tFalse {
		return b
	}
	if _, isT := a.(TupleV); !isT {
		if _, isT := b.(TupleV); !isT && a == b {
			return a
		}
	}
	switch av := a.(type) {
	case TupleV:
		bv, ok := b.(TupleV)
		if !ok || len(av) != len(bv) {
			fail("merge of tuples")
		}
		tv := TupleV{}
		for i := range av {
			tv = append(tv, x.mergeV(st, c, av[i], bv[i]))
		}
		return tv
	case *Term:
		bt := x.reify(st, b)
		at := av
		if at.sort != bt.sort {
			fail("merge of %s and %s", at.sort, bt.sort)
		}
		return mkIte(c, at, bt)
	case *StructV:
		if bv, ok := b.(*StructV); ok {
			n := &StructV{t: av.t}
			for i := range av.f {
				n.f = append(n.f, x.mergeV(st, c, av.f[i], bv.f[i]))
			}
			return n
		}
		return mkIte(c, x.reify(st, a), x.reify(st, b))
	case *SliceV:
		bv, ok := b.(*SliceV)
		if ok {
			return &SliceV{seq: mkIte(c, x.content(st, av), x.content(st, bv)), elem: av.elem, nilT: mkIte(c, av.nilT, bv.nilT)}
		}
		if bt, ok := b.(*Term); ok {
			return &SliceV{seq: mkIte(c, x.content(st, av), bt), elem: av.elem, nilT: tFalse}
		}
	case *TreeRef, *PtrV:
		if x.isTreeV(a) && x.isTreeV(b) {
			t := types.Type(nil)
			if tr, ok := a.(*TreeRef); ok {
				t = tr.t
			} else {
				t = a.(*PtrV).t
			}
			return &TreeRef{term: mkIte(c, x.reify(st, a), x.reify(st, b)), t: t}
		}
		if ap, ok := a.(*PtrV); ok {
			if bp, ok := b.(*PtrV); ok {
				if ap.cell == bp.cell && len(ap.path) == len(bp.path) {
					return &PtrV{cell: ap.cell, path: ap.path, nilT: mkIte(c, ap.nilT, bp.nilT), t: ap.t}
				}
				if ap.cell == 0 {
					return &PtrV{cell: bp.cell, path: bp.path, nilT: mkIte(c, tTrue, bp.nilT), t: ap.t}
				}
				if bp.cell == 0 {
					return &PtrV{cell: ap.cell, path: ap.path, nilT: mkIte(c, ap.nilT, tTrue), t: ap.t}
				}
			}
		}
	case *FuncV:
		if bv, ok := b.(*FuncV); ok && av.fn == bv.fn && len(av.binds) == 0 && len(bv.binds) == 0 {
			return a
		}
	case *OpaqueV:
		return a
	}
	fail("cannot merge %T and %T", a, b)
	return nil
}

func (x *Exec) isTreeV(v V) bool {
	switch v := v.(type) {
	case *TreeRef:
		return true
	case *PtrV:
		return x.w.isTreePtr(v.t)
	}
	return false
}

func (x *Exec) tick() {
	x.steps++
	if x.steps > x.maxStep {
		if debug {
			for k, n := range x.stepFn {
				if n > 300 {
					fmt.Println("steps", k, n)
				}
			}
		}
		fail("too many steps")
	}
}

// canTree says whether a repository function may be evaluated as a tree.
func (w *World) canTree(fn *ssa.Function) bool {
	if r, ok := w.treeOK[fn]; ok {
		return r
	}
	w.treeOK[fn] = false // for recursion
	r := w.canTree1(fn)
	w.treeOK[fn] = r
	return r
}

func (w *World) canTree1(fn *ssa.Function) bool {
	if fn.Blocks == nil {
		return false
	}
	if len(loopsOf(fn).heads) > 0 {
		return false
	}
	if !isSpecFile(w, specRoot(fn)) {
		res := fn.Signature.Results()
		for i := 0; i < res.Len(); i++ {
			switch t := res.At(i).Type().Underlying().(type) {
			case *types.Basic, *types.Interface:
			case *types.Struct:
				if _, e := w.sortOf1(res.At(i).Type()); e != "" {
					return false
				}
			case *types.Pointer:
				if !isRegexpPtr(res.At(i).Type()) {
					return false
				}
			default:
				_ = t
				return false
			}
		}
	}
	nbr := 0
	for _, b := range fn.Blocks {
		if len(b.Succs) == 2 {
			nbr++
		}
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Defer, *ssa.Go, *ssa.Send, *ssa.Select, *ssa.MapUpdate, *ssa.MakeChan, *ssa.Range, *ssa.Next, *ssa.MakeMap:
				return false
			case *ssa.UnOp:
				if in.Op.String() == "<-" {
					return false
				}
			case *ssa.Store:
				if !localAddr(in.Addr) {
					return false
				}
			case *ssa.Call:
				c := in.Common()
				if bi, ok := c.Value.(*ssa.Builtin); ok {
					switch bi.Name() {
					case "len", "cap", "ssa:wrapnilchk":
					case "append":
						if !isSpecFile(w, specRoot(fn)) {
							return false
						}
					default:
						return false
					}
					continue
				}
				g := c.StaticCallee()
				if g == nil {
					if c.IsInvoke() {
						continue
					}
					if isSpecFile(w, specRoot(fn)) {
						continue
					}
					continue // a function value: checked when called
				}
				if isIntrinsic(w, g) || w.isSpecFn(g) || isExtern(w, g) {
					continue
				}
				if w.contractOf(g) != nil {
					m := w.modsOf(g, nil)
					if m.any || m.chans || m.bufs || len(m.fields) > 0 || len(m.elems) > 0 {
						return false
					}
					continue
				}
				if !w.canTree(g) {
					return false
				}
			}
		}
	}
	return nbr <= 40
}

func localAddr(v ssa.Value) bool {
	switch v := v.(type) {
	case *ssa.Alloc:
		return true
	case *ssa.FieldAddr:
		return localAddr(v.X)
	case *ssa.IndexAddr:
		return localAddr(v.X)
	}
	return false
}

// ---- natural loops

type loopInfo struct {
	heads map[*ssa.BasicBlock]*natLoop
}
type natLoop struct {
	head   *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

var loopCache = map[*ssa.Function]*loopInfo{}

func loopsOf(fn *ssa.Function) *loopInfo {
	if l, ok := loopCache[fn]; ok {
		return l
	}
	li := &loopInfo{heads: map[*ssa.BasicBlock]*natLoop{}}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := li.heads[s]
				if l == nil {
					l = &natLoop{head: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					li.heads[s] = l
				}
				// blocks reaching b without passing s
				var add func(*ssa.BasicBlock)
				add = func(c *ssa.BasicBlock) {
					if l.blocks[c] {
						return
					}
					l.blocks[c] = true
					for _, p := range c.Preds {
						add(p)
					}
				}
				add(b)
			}
		}
	}
	loopCache[fn] = li
	return li
}
