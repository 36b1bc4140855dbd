package main

// Path-by-path execution: control flow, loops cut by invariants, calls executed inline.

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type kont func(st *State, v V)

type deferred struct {
	frame int
	fn    *FuncV
	args  []V
	in    *ssa.Defer
}

func (x *Exec) runFn(parent *Frame, st *State, fn *ssa.Function, binds, args []V, site ssa.Instruction, k kont) {
	if fn.Blocks == nil {
		fail("no body for %s", fn)
	}
	fr := x.newFrame(fn, binds, parent)
	if fr.depth > 30 {
		fail("inlining too deep at %s", fn)
	}
	fr.site = site
	fr.key = fn.Name()
	if parent != nil {
		fr.key = parent.key + "/" + x.siteKey(parent, site) + fn.Name()
	}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	x.enter(fr, st, fn.Blocks[0], nil, k)
}

func (x *Exec) siteKey(fr *Frame, in ssa.Instruction) string {
	if in == nil || in.Block() == nil {
		return ""
	}
	for i, j := range in.Block().Instrs {
		if j == in {
			return fmt.Sprintf("%d.%d:", in.Block().Index, i)
		}
	}
	return ""
}

func (x *Exec) enter(fr *Frame, st *State, b, prev *ssa.BasicBlock, k kont) {
	x.tick()
	if l := loopsOf(fr.fn).heads[b]; l != nil {
		if prev != nil && l.blocks[prev] {
			x.backEdge(fr, st, l, prev)
			return
		}
		x.loopEntry(fr, st, l, prev)
		if len(st.cases) > 0 {
			x.splitPaths(fr, st, func(s *State) { x.exec(fr, s, b, 0, k) })
			return
		}
	} else {
		x.setPhis(fr, st, b, prev)
	}
	x.exec(fr, st, b, 0, k)
}

func (x *Exec) exec(fr *Frame, st *State, b *ssa.BasicBlock, i int, k kont) {
	for ; i < len(b.Instrs); i++ {
		in := b.Instrs[i]
		switch in := in.(type) {
		case *ssa.Phi:
		case *ssa.If:
			c := st.simp(x.term(fr, st, in.Cond))
			if c == tTrue {
				x.enter(fr, st, b.Succs[0], b, k)
				return
			}
			if c == tFalse {
				x.enter(fr, st, b.Succs[1], b, k)
				return
			}
			pos := x.pos(in.Cond.Pos())
			if os.Getenv("GOVER_IF") != "" {
				str := c.String()
				fmt.Println("IF", pos, str[:min(len(str), 600)])
			}
			s2 := st.fork()
			saved := x.saveEnv(fr)
			st.assume(c)
			st.trace = append(st.trace, pos+" true")
			x.runLater(st, false)
			if !x.infeasible(st) {
				x.enter(fr, st, b.Succs[0], b, k)
			}
			x.restoreEnv(fr, saved)
			s2.assume(mkNot(c))
			s2.trace = append(s2.trace, pos+" false")
			if !x.infeasible(s2) {
				x.enter(fr, s2, b.Succs[1], b, k)
			}
			return
		case *ssa.Jump:
			x.enter(fr, st, b.Succs[0], b, k)
			return
		case *ssa.Return:
			x.paths++
			if x.paths > 20000 {
				fail("too many paths")
			}
			k(st, x.retVal(fr, st, in))
			return
		case *ssa.Panic:
			x.oblig(fr, st, "safety", "panic is unreachable", in.Pos(), tFalse)
			return
		case *ssa.Defer:
			c := in.Common()
			var args []V
			var fv *FuncV
			if bi, ok := c.Value.(*ssa.Builtin); ok {
				fv = &FuncV{fn: bi.Name()}
				for _, a := range c.Args {
					args = append(args, x.val(fr, st, a))
				}
			} else {
				if c.IsInvoke() {
					fail("deferred method call on an interface")
				}
				fv = x.calleeV(fr, st, c)
				for _, a := range c.Args {
					args = append(args, x.condOf(x.val(fr, st, a), st))
				}
			}
			st.defers = append(st.defers, &deferred{fr.id, fv, args, in})
		case *ssa.RunDefers:
			x.runDefers(fr, st, in, func(s *State) { x.exec(fr, s, b, i+1, k) })
			return
		case *ssa.Go:
			x.goStmt(fr, st, in)
		case *ssa.Call:
			v, ok := x.callSync(fr, st, in, in.Common())
			if ok {
				if _, bot := v.(bottom); bot {
					return
				}
				fr.env[in] = v
				continue
			}
			// path by path
			var args []V
			for _, a := range in.Common().Args {
				args = append(args, x.condOf(x.val(fr, st, a), st))
			}
			fv := x.calleeV(fr, st, in.Common())
			g := fv.fn.(*ssa.Function)
			if x.w.recursive[g] {
				fail("recursive function %s has no contract", g)
			}
			x.inlined[fnKey(g)] = true
			x.runFn(fr, st, g, fv.binds, args, in, func(s *State, v V) {
				fr.env[in] = v
				x.exec(fr, s, b, i+1, k)
			})
			return
		case *ssa.Lookup:
			// a table of functions: one path per key
			if ml, ok := x.val(fr, st, in.X).(*MapLit); ok && x.hasFunc(ml) {
				key := x.term(fr, st, in.Index)
				vt := in.X.Type().Underlying().(*types.Map).Elem()
				saved := x.saveEnv(fr)
				for j, kt := range ml.keys {
					s := st.fork()
					s.assume(mkEq(key, kt))
					s.trace = append(s.trace, fmt.Sprintf("key %s", kt))
					x.restoreEnv(fr, saved)
					if in.CommaOk {
						fr.env[in] = TupleV{ml.vals[j], tTrue}
					} else {
						fr.env[in] = ml.vals[j]
					}
					x.exec(fr, s, b, i+1, k)
				}
				x.restoreEnv(fr, saved)
				for _, kt := range ml.keys {
					st.assume(mkNot(mkEq(key, kt)))
				}
				if in.CommaOk {
					fr.env[in] = TupleV{x.zero(st, vt), tFalse}
				} else {
					fr.env[in] = x.zero(st, vt)
				}
				x.exec(fr, st, b, i+1, k)
				return
			}
			fr.env[in] = x.eval(fr, st, in)
		default:
			v := x.eval(fr, st, in)
			if val, ok := in.(ssa.Value); ok {
				fr.env[val] = v
			}
		}
	}
}

// splitPaths carries on in each of the cases asked for at a loop head.
func (x *Exec) splitPaths(fr *Frame, st *State, k func(*State)) {
	c := st.cases[0]
	st.cases = nil
	n := c.n.iv.Int64()
	saved := x.saveEnv(fr)
	if os.Getenv("GOVER_IF") != "" {
		fmt.Println("KEY", c.key, "COND", c.cond)
	}
	run := func(s *State, what string, ts ...*Term) {
		for _, t := range ts {
			s.assume(t)
		}
		s.trace = append(s.trace, what)
		x.runLater(s, false)
		if !x.infeasible(s) {
			k(s)
		}
		x.restoreEnv(fr, saved)
	}
	run(st.fork(), "case: not "+c.cond.String(), mkNot(c.cond))
	for i := int64(0); i < n; i++ {
		if onlyCase != nil && !onlyCase[i] {
			continue
		}
		run(st.fork(), fmt.Sprintf("case %d", i), c.cond, mkEq(c.key, mkInt(i)))
	}
	if onlyCase == nil || onlyCase[-1] {
		run(st.fork(), "case: others", c.cond, mkNot(mkAnd(mkLe(mkInt(0), c.key), mkLt(c.key, mkInt(n)))))
	}
}

// onlyCase restricts a case split; -1 stands for the values outside its range. Nil is no restriction.
var onlyCase map[int64]bool

func (x *Exec) saveEnv(fr *Frame) []map[ssa.Value]V {
	var r []map[ssa.Value]V
	for f := fr; f != nil; f = f.parent {
		m := make(map[ssa.Value]V, len(f.env))
		for k, v := range f.env {
			m[k] = v
		}
		r = append(r, m)
	}
	return r
}

func (x *Exec) restoreEnv(fr *Frame, s []map[ssa.Value]V) {
	i := 0
	for f := fr; f != nil; f = f.parent {
		m := make(map[ssa.Value]V, len(s[i]))
		for k, v := range s[i] {
			m[k] = v
		}
		f.env = m
		i++
	}
}

func (x *Exec) hasFunc(ml *MapLit) bool {
	for _, v := range ml.vals {
		switch v := v.(type) {
		case *FuncV:
			return true
		case *StructV:
			for _, f := range v.f {
				if _, ok := f.(*FuncV); ok {
					return true
				}
			}
		}
	}
	return false
}

// infeasible is a cheap check for contradictory paths.
func (x *Exec) infeasible(st *State) bool {
	for _, t := range st.pc {
		if t == tFalse {
			return true
		}
	}
	return false
}

func (x *Exec) runDefers(fr *Frame, st *State, in ssa.Instruction, k func(*State)) {
	if len(st.defers) == 0 || st.defers[len(st.defers)-1].frame != fr.id {
		k(st)
		return
	}
	d := st.defers[len(st.defers)-1]
	st.defers = st.defers[: len(st.defers)-1 : len(st.defers)-1]
	if name, ok := d.fn.fn.(string); ok {
		if name != "close" {
			fail("defer of %s", name)
		}
		ch := x.reify(st, d.args[0])
		cc := x.chanCell(st, ch)
		x.oblig(fr, st, "safety", "close of a channel that is open", d.in.Pos(), mkNot(cc.closed))
		st.mem[chKey(ch)] = &ChanCell{sent: cc.sent, closed: tTrue}
		x.runDefers(fr, st, in, k)
		return
	}
	g := d.fn.fn.(*ssa.Function)
	if _, ok := x.callFn(fr, st, d.in.Pos(), g, d.fn.binds, d.args); ok {
		x.runDefers(fr, st, in, k)
		return
	}
	x.inlined[fnKey(g)] = true
	x.runFn(fr, st, g, d.fn.binds, d.args, in, func(s *State, v V) { x.runDefers(fr, s, in, k) })
}

// goStmt starts a producer: it is known by its contract, and may only send on its channel.
func (x *Exec) goStmt(fr *Frame, st *State, in *ssa.Go) {
	c := in.Common()
	fv := x.calleeV(fr, st, c)
	g := fv.fn.(*ssa.Function)
	var args []V
	for _, a := range c.Args {
		v := x.condOf(x.val(fr, st, a), st)
		x.freeze(st, v)
		args = append(args, v)
	}
	cfn := x.w.contractOf(g)
	if cfn == nil {
		x.oblig(fr, st, "frame", "goroutine "+g.Name()+" has a contract", in.Pos(), tFalse)
		return
	}
	noteUse(g)
	ms := x.w.modsOf(g, nil)
	nElems := len(ms.elems)
	if ms.elems["iter"] {
		nElems-- // its own iterations
	}
	if ms.any || len(ms.fields) > 0 || nElems > 0 || ms.recvs {
		x.oblig(fr, st, "frame", "goroutine "+g.Name()+" writes no shared memory", in.Pos(), tFalse)
	}
	s2 := st.fork()
	x.applyContract(fr, s2, in.Pos(), g, cfn, args)
	for _, t := range s2.pc {
		st.assume(t)
	}
	for _, a := range args {
		if t, ok := a.(*Term); ok && t.sort == "Chan" {
			cc := x.chanCell(s2, t)
			x.oblig(fr, st, "safety", "goroutine "+g.Name()+" closes its channel", in.Pos(), cc.closed)
			st.assume(mkEq(chTotal(t), cc.sent))
			delete(st.mem, chKey(t))
		}
	}
}

// ---- loops

type cand struct {
	id    string
	eval  func(st *State, vals map[ssa.Value]V, hints bool) *Term
	decr  func(st *State, vals map[ssa.Value]V) []*Term
	m0    []*Term
	desc  string
	clInv bool
}

func (x *Exec) phiVals(fr *Frame, st *State, b, prev *ssa.BasicBlock) map[ssa.Value]V {
	m := map[ssa.Value]V{}
	idx := -1
	for i, p := range b.Preds {
		if p == prev {
			idx = i
		}
	}
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		m[p] = x.condOf(x.val(fr, st, p.Edges[idx]), st)
	}
	return m
}

func (x *Exec) loopMods(fr *Frame, st *State, l *natLoop) *modSet {
	m := newModSet()
	for b := range l.blocks {
		for _, in := range b.Instrs {
			x.w.instrMods(m, in, nil)
			if c, ok := in.(ssa.CallInstruction); ok {
				cc := c.Common()
				if _, isB := cc.Value.(*ssa.Builtin); !isB && !cc.IsInvoke() && cc.StaticCallee() == nil {
					func() {
						defer func() {
							if e := recover(); e != nil {
								m.any = true
							}
						}()
						if fv, ok := x.val(fr, st, cc.Value).(*FuncV); ok {
							if g, ok := fv.fn.(*ssa.Function); ok {
								m.add(x.w.modsOf(g, nil))
								x.freeVarMods(m, fv, g)
								return
							}
						}
						m.any = true
					}()
				}
			}
		}
	}
	return m
}

// freeVarMods: a closure that assigns captured variables modifies their cells.
func (x *Exec) freeVarMods(m *modSet, fv *FuncV, g *ssa.Function) {}

func (x *Exec) cellRefs(st *State) map[int]int {
	n := map[int]int{}
	var count func(v V)
	count = func(v V) {
		switch v := v.(type) {
		case *SliceV:
			if v.cell != 0 {
				n[v.cell]++
			}
		case *StructV:
			for _, f := range v.f {
				count(f)
			}
		}
	}
	for c, v := range st.mem {
		if !x.snap[c] && !x.specCell[c] {
			count(v)
		}
	}
	return n
}

func (x *Exec) loopEntry(fr *Frame, st *State, l *natLoop, prev *ssa.BasicBlock) {
	b := l.head
	key := fmt.Sprintf("%s#%d", fr.key, b.Index)
	lc := &loopCtx{key: key, head: map[ssa.Value]V{}, loop: l, heads: map[string]V{}}
	fr.loops[b] = lc
	entry := x.phiVals(fr, st, b, prev)
	ms := x.loopMods(fr, st, l)
	if ms.any {
		fail("loop modifies unknown memory")
	}
	lc.ms = ms
	for v, e := range entry {
		fr.env[v] = e
	}
	// candidates
	cs := x.candidates(fr, st, l, entry)
	for _, c := range cs {
		x.seen[c.id] = true
		if c.decr != nil {
			x.isDecr[c.id] = true
		}
	}
	lc.cands = cs
	pos := x.pos(firstPos(b))
	for _, c := range cs {
		if x.dropped[c.id] || c.eval == nil {
			continue
		}
		s := st.fork()
		x.curCand = c.id
		x.phase, x.curLC = "entry", lc
		t := c.eval(s, entry, true)
		x.phase = ""
		x.curCand = ""
		if t == nil {
			x.dropped[c.id] = true
			continue
		}
		x.obligT(s, "inv-entry", "loop invariant holds on entry: "+c.desc, pos, t, c.id)
	}
	// havoc
	refs := x.cellRefs(st)
	for v, e := range entry {
		p := v.(*ssa.Phi)
		k := key + ":" + p.Name()
		if s, ok := e.(*SliceV); ok && x.isOwned(st, s) && !x.unowned[k] && refs[s.cell] == 0 {
			nv := x.fresh(st, p.Type(), p.Comment, true).(*SliceV)
			lc.head[p] = nv
			continue
		}
		if _, ok := e.(*SliceV); ok {
			x.setUnowned(k, st)
			lc.head[p] = x.fresh(st, p.Type(), p.Comment, false)
			continue
		}
		if pv, ok := e.(*PtrV); ok && !x.w.isTreePtr(p.Type()) {
			// a pointer that the loop does not change
			same := true
			for i, pr := range b.Preds {
				if l.blocks[pr] && p.Edges[i] != ssa.Value(p) {
					same = false
				}
			}
			if !same {
				fail("loop changes a pointer variable")
			}
			lc.head[p] = pv
			continue
		}
		if _, ok := e.(*FuncV); ok {
			fail("loop changes a function variable")
		}
		lc.head[p] = x.fresh(st, p.Type(), p.Comment, false)
	}
	x.havocMem(fr, st, l, ms, key)
	for v, h := range lc.head {
		fr.env[v] = h
	}
	for _, c := range cs {
		if x.dropped[c.id] {
			continue
		}
		if c.eval != nil {
			x.phase, x.curLC = "head", lc
			t := c.eval(st, lc.head, false)
			x.phase = ""
			if t != nil {
				st.assume(t)
			}
		} else {
			c.m0 = c.decr(st, lc.head)
		}
	}
	st.trace = append(st.trace, "loop "+pos)
}

func firstPos(b *ssa.BasicBlock) (p tokenPos) {
	for _, in := range b.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
		if i, ok := in.(*ssa.If); ok && i.Cond.Pos().IsValid() {
			return i.Cond.Pos()
		}
	}
	return 0
}

func (x *Exec) havocMem(fr *Frame, st *State, l *natLoop, ms *modSet, key string) {
	var cells []int
	for c := range st.mem {
		cells = append(cells, c)
	}
	sortInts(cells)
	refs := x.cellRefs(st)
	varCell := map[int]types.Type{}
	for f := fr; f != nil; f = f.parent {
		for v, e := range f.env {
			if a, ok := v.(*ssa.Alloc); ok && (ms.vars[a]) {
				if p, ok := e.(*PtrV); ok {
					varCell[p.cell] = a.Type().Underlying().(*types.Pointer).Elem()
				}
			}
		}
	}
	for _, c := range cells {
		if x.snap[c] {
			continue
		}
		switch v := st.mem[c].(type) {
		case *StructV:
			if varCell[c] != nil {
				st.mem[c] = x.fresh(st, varCell[c], "var", true)
				continue
			}
			st.mem[c] = x.havocFields(st, v, ms, key, refs)
		case *SeqCell:
			if ms.elems[elemKey(v.elem)] && !v.consumed && !v.frozen {
				s := mkFresh("elems", v.seq.sort)
				st.assume(mkEq(seqLen(s), seqLen(v.seq)))
				st.mem[c] = &SeqCell{seq: s, elem: v.elem}
			}
		case *ArrayV:
			if ms.elems[elemKey(v.elem)] && !v.frozen || varCell[c] != nil {
				n := &ArrayV{elem: v.elem}
				for range v.e {
					n.e = append(n.e, x.fresh(st, v.elem, "elem", true))
				}
				st.mem[c] = n
			}
		case *MapCell:
			if ms.elems["map:"+elemKey(v.t)] {
				st.mem[c] = &MapCell{m: mkFresh("map", v.m.sort), t: v.t}
			}
		case *ChanCell:
			if ms.chans {
				st.mem[c] = &ChanCell{sent: mkFresh("sent", v.sent.sort), closed: mkFresh("closed", SBool)}
			}
		default:
			if t := varCell[c]; t != nil {
				st.mem[c] = x.fresh(st, t, "var", true)
			} else if tm, ok := v.(*Term); ok && tm.sort == SStr && ms.bufs && c > 0 && x.bufCell[c] {
				st.mem[c] = mkFresh("buf", SStr)
			}
		}
	}
	if ms.recvs {
		for _, g := range []int{ghostPos, ghostMade} {
			t := x.ghost(st, g)
			st.mem[g] = mkFresh("ghost", t.sort)
		}
	}
	// map iterators advanced by this loop
	for b := range l.blocks {
		for _, in := range b.Instrs {
			if nx, ok := in.(*ssa.Next); ok {
				if v, ok := fr.env[nx.Iter]; ok {
					it := v.(*IterV)
					ic := st.mem[it.cell].(*IterCell)
					i := mkFresh("iter", SInt)
					st.assume(mkLe(mkInt(0), i))
					st.assume(mkLe(i, mkUF("mlen_"+ic.m.sort, ic.m)))
					st.mem[it.cell] = &IterCell{m: ic.m, idx: i}
				}
			}
		}
	}
}

func (x *Exec) havocFields(st *State, v *StructV, ms *modSet, key string, refs map[int]int) V {
	stt, ok := v.t.Underlying().(*types.Struct)
	if !ok {
		return v
	}
	n := &StructV{t: v.t, f: append([]V{}, v.f...)}
	ch := false
	for i := range n.f {
		ft := stt.Field(i).Type()
		if ms.fields[fieldKey(v.t, i)] {
			ch = true
			k := key + ":" + fieldKey(v.t, i)
			if s, ok := n.f[i].(*SliceV); ok {
				if !x.isOwned(st, s) || refs[s.cell] > 1 {
					x.setUnowned(k, st)
				}
				n.f[i] = x.fresh(st, ft, stt.Field(i).Name(), !x.unowned[k])
				continue
			}
			if x.w.isMutPtr(ft) {
				fail("loop changes a pointer field")
			}
			n.f[i] = x.fresh(st, ft, stt.Field(i).Name(), true)
			continue
		}
		if sv, ok := n.f[i].(*StructV); ok {
			n.f[i] = x.havocFields(st, sv, ms, key, refs)
			ch = true
		}
		if s, ok := n.f[i].(*SliceV); ok && s.cell != 0 && ms.elems[elemKey(s.elem)] {
			_ = s // contents are havocked with the cell
		}
	}
	if !ch {
		return v
	}
	return n
}

func (x *Exec) backEdge(fr *Frame, st *State, l *natLoop, prev *ssa.BasicBlock) {
	lc := fr.loops[l.head]
	vals := x.phiVals(fr, st, l.head, prev)
	refs := x.cellRefs(st)
	seen := map[int]string{}
	for v, e := range vals {
		p := v.(*ssa.Phi)
		k := lc.key + ":" + p.Name()
		if s, ok := e.(*SliceV); ok && !x.unowned[k] {
			if !x.isOwned(st, s) || refs[s.cell] > 0 || s.cell != 0 && seen[s.cell] != "" {
				x.setUnowned(k, st)
				panic(restart{})
			}
			if s.cell != 0 {
				seen[s.cell] = k
			}
		}
	}
	// fields assumed owned
	for c, v := range st.mem {
		if x.snap[c] || x.specCell[c] {
			continue
		}
		if sv, ok := v.(*StructV); ok {
			x.checkOwned(st, sv, lc, refs)
		}
	}
	pos := x.pos(firstPos(l.head))
	x.runLater(st, true)
	for _, c := range lc.cands {
		if x.dropped[c.id] {
			continue
		}
		s := st.fork()
		x.curCand = c.id
		if c.eval != nil {
			x.phase, x.curLC = "back", lc
			t := c.eval(s, vals, true)
			x.phase = ""
			x.curCand = ""
			if t == nil {
				x.dropped[c.id] = true
				continue
			}
			x.obligT(s, "inv-keep", "loop invariant is maintained: "+c.desc, pos, t, c.id)
		} else {
			m1 := c.decr(s, vals)
			x.curCand = ""
			x.obligT(s, "decreases", "loop measure decreases: "+c.desc, pos, lexLess(m1, c.m0), c.id)
		}
	}
	x.loopsMet[lc.key] = pos
	x.paths++
	if x.paths > 20000 {
		fail("too many paths")
	}
}

func (x *Exec) setUnowned(k string, st *State) {
	x.unowned[k] = true
	if debug {
		fmt.Println("unowned", k, st.trace)
	}
}

func (x *Exec) checkOwned(st *State, v *StructV, lc *loopCtx, refs map[int]int) {
	for i, f := range v.f {
		if !lc.ms.fields[fieldKey(v.t, i)] {
			continue
		}
		k := lc.key + ":" + fieldKey(v.t, i)
		if s, ok := f.(*SliceV); ok && !x.unowned[k] {
			if !x.isOwned(st, s) || refs[s.cell] > 1 {
				if debug {
					fmt.Printf("not owned %v refs %d cell %d %#v\n", !x.isOwned(st, s), refs[s.cell], s.cell, st.mem[s.cell])
					for c, v := range st.mem {
						if fmt.Sprintf("%#v", v) != "" && x.refersTo(v, s.cell) {
							fmt.Printf("  by %d %#v\n", c, v)
						}
					}
				}
				x.setUnowned(k, st)
				panic(restart{})
			}
		}
	}
}

// binding of a clause variable
type bindEl struct {
	desc string
	ord  int
	get  func(st *State, vals map[ssa.Value]V) V
}

// candidates lists the candidate invariants of a loop.
func (x *Exec) candidates(fr *Frame, st *State, l *natLoop, entry map[ssa.Value]V) []*cand {
	var out []*cand
	b := l.head
	key := fmt.Sprintf("%s#%d", fr.key, b.Index)
	// bounds of integer variables
	var bound, idx ssa.Value
	var cmp *ssa.BinOp
	for _, in := range b.Instrs {
		if i, ok := in.(*ssa.If); ok {
			if bo, ok := i.Cond.(*ssa.BinOp); ok {
				cmp = bo
			}
		}
	}
	outside := func(v ssa.Value) bool {
		switch v := v.(type) {
		case *ssa.Const, *ssa.Parameter, *ssa.FreeVar:
			return true
		case ssa.Instruction:
			return !l.blocks[v.Block()]
		}
		return false
	}
	if cmp != nil {
		if outside(cmp.Y) {
			bound, idx = cmp.Y, cmp.X
		} else if outside(cmp.X) {
			bound, idx = cmp.X, cmp.Y
		}
	}
	add := func(c *cand) {
		c.id = key + "|" + c.id
		out = append(out, c)
	}
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		p1 := p
		if _, _, isI := intInfo(p.Type()); isI {
			e0 := x.reify(st, entry[p])
			name := p.Comment
			add(&cand{id: p.Name() + ">=entry", desc: name + " is at least its initial value", eval: func(s *State, vs map[ssa.Value]V, h bool) *Term { return mkLe(e0, x.reify(s, vs[p1])) }})
			add(&cand{id: p.Name() + "<=entry", desc: name + " is at most its initial value", eval: func(s *State, vs map[ssa.Value]V, h bool) *Term { return mkLe(x.reify(s, vs[p1]), e0) }})
			if bound != nil {
				if _, _, bi := intInfo(bound.Type()); bi {
					n := x.term(fr, st, bound)
					n = x.condTermOf(n)
					add(&cand{id: p.Name() + "<bound", desc: name + " is below the bound", eval: func(s *State, vs map[ssa.Value]V, h bool) *Term { return mkLt(x.reify(s, vs[p1]), n) }})
					add(&cand{id: p.Name() + "<=bound", desc: name + " is at most the bound", eval: func(s *State, vs map[ssa.Value]V, h bool) *Term { return mkLe(x.reify(s, vs[p1]), n) }})
					add(&cand{id: p.Name() + ">=bound", desc: name + " is at least the bound", eval: func(s *State, vs map[ssa.Value]V, h bool) *Term { return mkLe(n, x.reify(s, vs[p1])) }})
					if idx != nil {
						add(&cand{id: p.Name() + " up", desc: name + " approaches the bound", decr: func(s *State, vs map[ssa.Value]V) []*Term { return []*Term{mkSub(n, x.reify(s, vs[p1]))} }})
						add(&cand{id: p.Name() + " down", desc: name + " approaches the bound from above", decr: func(s *State, vs map[ssa.Value]V) []*Term { return []*Term{mkSub(x.reify(s, vs[p1]), n)} }})
					}
				}
			}
		}
	}
	for bb := range l.blocks {
		for _, in := range bb.Instrs {
			if nx, ok := in.(*ssa.Next); ok {
				if v, ok := fr.env[nx.Iter]; ok {
					it := v.(*IterV)
					add(&cand{id: "iter", desc: "map iteration", decr: func(s *State, vs map[ssa.Value]V) []*Term {
						ic := s.mem[it.cell].(*IterCell)
						return []*Term{mkSub(mkUF("mlen_"+ic.m.sort, ic.m), ic.idx)}
					}})
				}
			}
		}
	}
	// clauses of the contract
	for ci, cl := range x.clauses {
		ci, cl := ci, cl
		fn := cl.fn.(*ssa.Function)
		if x.outerCl[ci] && x.nested(fr, l) {
			continue
		}
		combos := x.bindings(fr, st, l, entry, fn)
		for _, combo := range combos {
			combo := combo
			var ds []string
			for _, e := range combo {
				ds = append(ds, e.desc)
			}
			bname := strings.Join(ds, ",")
			run := func(s *State, vs map[ssa.Value]V, hints bool) *conInst {
				x.curClause = fmt.Sprintf("%d(%s)", ci, bname)
				var args []V
				for _, e := range combo {
					args = append(args, e.get(s, vs))
				}
				return x.evalClause(s, cl, args, hints)
			}
			var probe *conInst
			func() {
				defer func() {
					if e := recover(); e != nil {
						if u, ok := e.(unsupported); ok {
							if debug {
								fmt.Println("clause:", u.msg)
							}
							return
						}
						panic(e)
					}
				}()
				n := len(x.obls)
				probe = run(st.fork(), entry, false)
				x.obls = x.obls[:n]
			}()
			if probe == nil {
				continue
			}
			for ii := range probe.invs {
				ii := ii
				add(&cand{id: fmt.Sprintf("c%d.%d(%s)", ci, ii, bname), clInv: true, desc: fmt.Sprintf("%s (%s)", probe.invs[ii].pos, bname),
					eval: func(s *State, vs map[ssa.Value]V, h bool) (r *Term) {
						c := run(s, vs, h)
						if ii >= len(c.invs) {
							return nil
						}
						return c.invs[ii].t
					}})
			}
			if len(probe.decr) > 0 {
				add(&cand{id: fmt.Sprintf("c%d.decr(%s)", ci, bname), desc: "measure (" + bname + ")",
					decr: func(s *State, vs map[ssa.Value]V) []*Term { return run(s.fork(), vs, false).decr }})
			}
		}
	}
	return out
}

func (x *Exec) condTermOf(t *Term) *Term { return t }

func (x *Exec) evalClause(st *State, cl *FuncV, args []V, hints bool) *conInst {
	old := x.con
	x.con = &conInst{pre: x.entry, hint: hints, nbr: len(st.br)}
	n := len(x.obls)
	x.pureFn(nil, st, cl.fn.(*ssa.Function), cl.binds, args)
	if !hints {
		x.obls = x.obls[:n]
	}
	c := x.con
	x.con = old
	return c
}

// nested says whether loop l of frame fr is within another loop.
func (x *Exec) nested(fr *Frame, l *natLoop) bool {
	for f := fr; f != nil; f = f.parent {
		for hb, lc := range f.loops {
			if f == fr && hb == l.head {
				continue
			}
			if f == fr && lc.live(l.head) || f != fr && fr.under(f) != nil && lc.live(fr.under(f)) {
				return true
			}
		}
	}
	return false
}

// runLater unfolds what was put off until its key is known, or everything.
func (x *Exec) runLater(st *State, all bool) {
	if len(st.later) == 0 {
		return
	}
	var rest, now []lateUnfold
	for _, l := range st.later {
		if st.simp(l.cond) == tTrue && (all || isValue(st.konst(l.key))) {
			now = append(now, l)
		} else {
			rest = append(rest, l)
		}
	}
	st.later = rest
	for _, l := range now {
		x.unfoldTerm(nil, st, l.term)
	}
}

// bindings resolves the variables of a loop clause at a loop header.
func (x *Exec) bindings(fr *Frame, st *State, l *natLoop, entry map[ssa.Value]V, fn *ssa.Function) [][]bindEl {
	var perVar [][]bindEl
	for _, p := range fn.Params {
		perVar = append(perVar, x.bindVar(fr, st, l, entry, p.Name(), p.Type()))
	}
	combos := [][]bindEl{{}}
	for _, opts := range perVar {
		var next [][]bindEl
		for _, c := range combos {
			for _, o := range opts {
				dup := false
				for _, e := range c {
					if e.desc == o.desc {
						dup = true
					}
				}
				if dup {
					continue
				}
				next = append(next, append(append([]bindEl{}, c...), o))
			}
		}
		combos = next
		if len(combos) > 200 {
			combos = combos[:200]
		}
	}
	return combos
}

func (x *Exec) bindVar(fr *Frame, st *State, l *natLoop, entry map[ssa.Value]V, name string, t types.Type) []bindEl {
	var named, typed []bindEl
	seenV := map[interface{}]bool{}
	compat := func(u types.Type) bool {
		if types.Identical(u, t) {
			return true
		}
		_, _, a := intInfo(u)
		_, _, b := intInfo(t)
		if a && b {
			return true
		}
		return types.Identical(u.Underlying(), t.Underlying())
	}
	put := func(isNamed bool, e bindEl, v interface{}) {
		if seenV[v] {
			return
		}
		seenV[v] = true
		if isNamed {
			named = append(named, e)
		} else {
			typed = append(typed, e)
		}
	}
	// loop variables
	for _, in := range l.head.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if !compat(p.Type()) {
			continue
		}
		p1 := p
		if p.Comment == "rangeindex" {
			put(false, bindEl{"#" + p.Name() + "+1", 0, func(s *State, vs map[ssa.Value]V) V { return mkAdd(x.reify(s, vs[p1]), mkInt(1)) }}, p)
			continue
		}
		put(p.Comment == name, bindEl{p.Comment + ":" + p.Name(), 0, func(s *State, vs map[ssa.Value]V) V { return vs[p1] }}, p)
	}
	nphi := len(typed)
	// map iterators
	if _, _, isI := intInfo(t); isI {
		for bb := range l.blocks {
			for _, in := range bb.Instrs {
				if nx, ok := in.(*ssa.Next); ok {
					if v, ok := fr.env[nx.Iter]; ok {
						it := v.(*IterV)
						put(false, bindEl{"#iter", 0, func(s *State, vs map[ssa.Value]V) V { return s.mem[it.cell].(*IterCell).idx }}, it)
					}
				}
			}
		}
		// positions of the enclosing loops: that of the element under consideration
		lvl := 0
		for f := fr; f != nil; f = f.parent {
			f1 := f
			for _, hb := range sortedHeads(f.loops) {
				lc := f.loops[hb]
				if f == fr && hb == l.head {
					continue
				}
				if f == fr && !lc.live(l.head) || f != fr && fr.under(f) != nil && !lc.live(fr.under(f)) {
					continue
				}
				for _, in := range hb.Instrs {
					if p, ok := in.(*ssa.Phi); ok && p.Comment == "rangeindex" {
						if _, ok := f1.env[p]; !ok {
							continue
						}
						p1 := p
						put(false, bindEl{fmt.Sprintf("%d.#%s", lvl, p.Name()), instrOrder(p), func(s *State, vs map[ssa.Value]V) V { return mkAdd(x.reify(s, f1.env[p1]), mkInt(1)) }}, p)
					}
				}
				for bb := range lc.loop.blocks {
					for _, in := range bb.Instrs {
						if nx, ok := in.(*ssa.Next); ok {
							if v, ok := f1.env[nx.Iter]; ok {
								it := v.(*IterV)
								put(false, bindEl{fmt.Sprintf("%d.#iter", lvl), instrOrder(nx), func(s *State, vs map[ssa.Value]V) V { return mkSub(s.mem[it.cell].(*IterCell).idx, mkInt(1)) }}, it)
							}
						}
					}
				}
			}
			lvl++
		}
		nphi = len(typed)
	}
	// variables of this and enclosing frames
	blk := l.head
	lvl := 0
	for f := fr; f != nil; f = f.parent {
		f1 := f
		if f.fn != nil && f.fn.Blocks != nil {
			names := x.w.varNames(f.fn)
			for v, ns := range names {
				env, ok := f.env[v]
				if !ok {
					if fvr, isF := v.(*ssa.FreeVar); isF {
						env = x.val(f, st, fvr)
					} else {
						continue
					}
				}
				if _, isPhi := v.(*ssa.Phi); isPhi && f == fr {
					if v.(*ssa.Phi).Block() == l.head {
						continue
					}
				}
				if in, ok := v.(ssa.Instruction); ok && blk != nil {
					if f == fr && l.blocks[in.Block()] {
						continue
					}
					if !(in.Block() == blk || in.Block().Dominates(blk)) {
						continue
					}
				}
				hit := false
				for _, n := range ns {
					if n == name {
						hit = true
					}
				}
				vt := v.Type()
				v1 := v
				if p, isP := env.(*PtrV); isP && !compat(vt) && !x.w.isTreePtr(vt) {
					// an addressable variable: its current content
					if pt, ok := vt.Underlying().(*types.Pointer); ok && compat(pt.Elem()) && p.cell != 0 {
						if _, ok := v.(*ssa.Alloc); ok || isFree(v) {
							put(hit, bindEl{fmt.Sprintf("%d.*%s", lvl, v.Name()), instrOrder(v), func(s *State, vs map[ssa.Value]V) V { return x.load(s, p) }}, v)
						}
					}
					continue
				}
				if !compat(vt) {
					continue
				}
				put(hit, bindEl{fmt.Sprintf("%d.%s", lvl, v.Name()), instrOrder(v), func(s *State, vs map[ssa.Value]V) V {
					if e, ok := f1.env[v1]; ok {
						return x.condOf(e, s)
					}
					return x.val(f1, s, v1)
				}}, v)
			}
		}
		if f.site != nil {
			blk = f.site.Block()
		} else {
			blk = nil
		}
		lvl++
	}
	sortNamed(named)
	if x.mode == 0 {
		if len(named) > 0 {
			// the innermost variable of that name
			return named[:1]
		}
		if nphi > 0 {
			return typed[:nphi]
		}
		sortBinds(typed)
		if len(typed) > 6 {
			typed = typed[:6]
		}
		return typed
	}
	head := append([]bindEl{}, typed[:nphi]...)
	rest := append([]bindEl{}, typed[nphi:]...)
	sortBinds(rest)
	r := append(append(named, head...), rest...)
	if len(r) > 8 {
		r = r[:8]
	}
	return r
}

func sortedHeads(m map[*ssa.BasicBlock]*loopCtx) []*ssa.BasicBlock {
	var r []*ssa.BasicBlock
	for b := range m {
		r = append(r, b)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].Index < r[j].Index })
	return r
}

// live reports whether block b is inside the loop.
func (lc *loopCtx) live(b *ssa.BasicBlock) bool { return lc.loop != nil && lc.loop.blocks[b] }

// under is the block of frame f that fr was called from, if known.
func (fr *Frame) under(f *Frame) *ssa.BasicBlock {
	for g := fr; g != nil; g = g.parent {
		if g.parent == f {
			if g.site == nil {
				return nil
			}
			return g.site.Block()
		}
	}
	return nil
}

// instrOrder orders the values of a function roughly by when they are computed.
func instrOrder(v ssa.Value) int {
	in, ok := v.(ssa.Instruction)
	if !ok || in.Block() == nil {
		return 0
	}
	for i, o := range in.Block().Instrs {
		if o == in {
			return 1 + in.Block().Index*10000 + i
		}
	}
	return 0
}

// sortNamed puts loop variables first, then the variables of inner frames before those of outer ones,
// and the latest value of each first.
func sortNamed(b []bindEl) {
	lvl := func(e bindEl) int {
		if e.desc[0] < '0' || e.desc[0] > '9' {
			return -1
		}
		n := 0
		fmt.Sscanf(e.desc, "%d.", &n)
		return n
	}
	sort.SliceStable(b, func(i, j int) bool {
		li, lj := lvl(b[i]), lvl(b[j])
		if li != lj {
			return li < lj
		}
		if b[i].ord != b[j].ord {
			return b[i].ord > b[j].ord
		}
		return b[i].desc < b[j].desc
	})
}

func isFree(v ssa.Value) bool { _, ok := v.(*ssa.FreeVar); return ok }

// varNames maps the SSA values of fn to the source variables they hold.
func (w *World) varNames(fn *ssa.Function) map[ssa.Value][]string {
	if m, ok := w.names[fn]; ok {
		return m
	}
	m := map[ssa.Value][]string{}
	add := func(v ssa.Value, n string) {
		for _, o := range m[v] {
			if o == n {
				return
			}
		}
		m[v] = append(m[v], n)
	}
	for _, p := range fn.Params {
		add(p, p.Name())
	}
	for _, p := range fn.FreeVars {
		add(p, p.Name())
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.DebugRef:
				if o := in.Object(); o != nil {
					if _, ok := o.(*types.Var); ok {
						if _, isC := in.X.(*ssa.Const); !isC {
							add(in.X, o.Name())
						}
					}
				}
			case *ssa.Phi:
				if in.Comment != "" {
					add(in, in.Comment)
				}
			case *ssa.Alloc:
				if in.Comment != "" {
					add(in, in.Comment)
				}
			}
		}
	}
	w.names[fn] = m
	return m
}


func (x *Exec) refersTo(v V, c int) bool {
	switch v := v.(type) {
	case *SliceV:
		return v.cell == c
	case *StructV:
		for _, f := range v.f {
			if x.refersTo(f, c) {
				return true
			}
		}
	}
	return false
}
