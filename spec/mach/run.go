package mach

import (

	"github.com/forsyth/jsonpath/paths"
)

// ---- the machine

// spSt is the state of a machine.
type spSt struct {
	mode  int
	pc    int
	stack []JSON
	out   []JSON
	dot   JSON
	live  bool   // in a loop
	rest  []JSON // the values the loop has still to consider
}

// spConst is the JSON value of a constant; ok is false for what cannot be a constant.
func spConst(v paths.Val) spVal {
	switch v := v.(type) {
	case paths.IntVal:
		return spOK(int64(v))
	case paths.StringVal:
		return spOK(string(v))
	case floatVal:
		return spOK(float64(v))
	case regexpVal:
		return spOK(v.Regexp)
	case paths.NameVal:
		return spOK(v)
	case *paths.Slice:
		return spOK(v)
	}
	return spVal{nil, spStuck}
}

func spStop(s spSt, mode int) spSt {
	s.mode = mode
	return s
}

func spPush(s spSt, r spVal) spSt {
	if r.mode != spGo {
		return spStop(s, r.mode)
	}
	s.stack = snoc(s.stack, r.v)
	return s
}

func spDrop(s spSt, n int) spSt {
	s.stack = take(s.stack, len(s.stack)-n)
	return s
}

// spLoop enters a loop over vals, with its end at pc.
func spLoop(s spSt, vals []JSON, pc int, n int) spSt {
	if s.live {
		return spStop(s, spStuck)
	}
	s.out = []JSON{}
	if len(vals) == 0 {
		return spJump(s, pc, n)
	}
	s.live = true
	s.dot = vals[0]
	s.rest = sub(vals, 1, len(vals))
	return s
}

func spJump(s spSt, pc int, n int) spSt {
	if pc <= 0 || pc > n {
		return spStop(s, spStuck)
	}
	s.pc = pc
	return s
}

// spStep carries out the order at s.pc.
//
//gover:opaque
func spStep(ord []order, vals []paths.Val, root JSON, s spSt) spSt {
	o := ord[s.pc]
	op := spOp(o)
	n := len(s.stack)
	s.pc = s.pc + 1
	switch op {
	// leaves
	case paths.OpInt:
		if spIsSmall(o) {
			return spPush(s, spOK(spOperand(o)))
		}
		return spPushConst(s, vals, o)
	case paths.OpReal, paths.OpRE, paths.OpBounds, paths.OpString:
		return spPushConst(s, vals, o)
	case paths.OpID:
		return spPushVal(s, vals, o)
	case paths.OpBool:
		if spIsSmall(o) {
			return spPush(s, spOK(spOperand(o) != 0))
		}
		return spStop(s, spStuck)
	case paths.OpNull:
		return spPush(s, spOK(nil))
	case paths.OpRoot:
		return spPush(s, spOK(root))
	case paths.OpCurrent:
		return spPush(s, spOK(s.dot))

	// steps applied to every value of the output
	case paths.OpWild:
		s.out = spAllChildren(s.out, 0)
		return s
	case paths.OpMember, paths.OpSelect:
		if n < 1 {
			return spStop(s, spStuck)
		}
		key := s.stack[n-1]
		s = spDrop(s, 1)
		if spFails(key) {
			s.out = []JSON{}
			return s
		}
		s.out = spSelectAll(s.out, key, op == paths.OpSelect, 0)
		return s
	case paths.OpUnion:
		k := spOperand(o)
		if k < 0 || k > int64(n) {
			return spStop(s, spStuck)
		}
		keys := sub(s.stack, n-int(k), n)
		s = spDrop(s, int(k))
		s.out = spUnionAll(s.out, keys, 0)
		return s

	// steps applied to the current value of a loop
	case paths.OpFilter, paths.OpNestFilter:
		if n < 1 {
			return spStop(s, spStuck)
		}
		v := s.stack[n-1]
		s = spDrop(s, 1)
		if spTruthy(v) {
			s.out = snoc(s.out, s.dot)
		}
		return s
	case paths.OpNestWild:
		s.out = cat(s.out, spChildren(s.dot))
		return s
	case paths.OpNestMember, paths.OpNestSelect:
		if n < 1 {
			return spStop(s, spStuck)
		}
		key := s.stack[n-1]
		s = spDrop(s, 1)
		s.out = cat(s.out, spKeySelect(s.dot, key, op == paths.OpNestSelect))
		return s
	case paths.OpNestUnion:
		k := spOperand(o)
		if k < 0 || k > int64(n) {
			return spStop(s, spStuck)
		}
		keys := sub(s.stack, n-int(k), n)
		s = spDrop(s, int(k))
		s.out = cat(s.out, spUnion(s.dot, keys, 0))
		return s

	// loops
	case paths.OpFor, paths.OpNest:
		if !spIsSmall(o) {
			return spStop(s, spStuck)
		}
		if op == paths.OpFor {
			return spLoop(s, spAllChildren(s.out, 0), int(spOperand(o)), len(ord))
		}
		return spLoop(s, spWalkAll(s.out, 0), int(spOperand(o)), len(ord))
	case paths.OpRep:
		if !s.live {
			return spStop(s, spStuck)
		}
		if len(s.rest) == 0 {
			s.live = false
			s.dot = nil
			return s
		}
		if !spIsSmall(o) {
			return spStop(s, spStuck)
		}
		s.dot = s.rest[0]
		s.rest = sub(s.rest, 1, len(s.rest))
		return spJump(s, int(spOperand(o)), len(ord))
	}

	// expression operators
	k := spOpArity(op)
	if k == -1 {
		k = int(spOperand(o))
	}
	if k < 0 || k > n {
		return spStop(s, spStuck)
	}
	r := spVal{nil, spStuck}
	switch spOpArity(op) {
	case 1:
		r = spApply1(op, s.stack[n-1])
	case 2:
		r = spApply2(op, s.stack[n-2], s.stack[n-1])
	case -1:
		r = spApplyN(op, sub(s.stack, n-k, n))
	}
	return spPush(spDrop(s, k), r)
}

func spPushConst(s spSt, vals []paths.Val, o order) spSt {
	if spIsSmall(o) || spIdx(o) >= int64(len(vals)) {
		return spStop(s, spStuck)
	}
	return spPush(s, spConst(vals[spIdx(o)]))
}

func spPushVal(s spSt, vals []paths.Val, o order) spSt {
	if spIsSmall(o) || spIdx(o) >= int64(len(vals)) {
		return spStop(s, spStuck)
	}
	return spPush(s, spOK(vals[spIdx(o)]))
}

// spRun runs the machine from state s until it stops.
//
//gover:opaque
//gover:partial
func spRun(ord []order, vals []paths.Val, root JSON, s spSt) spSt {
	if s.mode != spGo || s.pc < 0 || s.pc >= len(ord) {
		return s
	}
	return spRun(ord, vals, root, spStep(ord, vals, root, s))
}

// spStart is the initial state.
func spStart(root JSON) spSt {
	return spSt{mode: spGo, pc: 0, stack: []JSON{}, out: []JSON{root}, dot: nil, live: false, rest: []JSON{}}
}

// spView is the abstract state of a machine.
func spView(vm *machine) spSt {
	s := spSt{mode: spGo, pc: vm.pc, stack: take(vm.stack, vm.sp), out: vm.out, dot: vm.dot, live: false, rest: []JSON{}}
	if len(vm.values) > 0 {
		c := vm.values[0]
		s.live = true
		s.rest = sub(chTotal(c), chPos(c), len(chTotal(c)))
	}
	return s
}

func spDrained(c <-chan JSON) bool { return chPos(c) == len(chTotal(c)) }

//gover:partial
func contract_Program_Run(p, p1 *Program, root JSON, r []JSON, err error) {
	requires(spRun(p.orders, p.vals, root, spStart(root)).mode != spStuck)
	fresh(r)
	ensures(eq(p1.orders, p.orders) && eq(p1.vals, p.vals))
	ensures((err == nil) == (spRun(p.orders, p.vals, root, spStart(root)).mode == spGo))
	ensures(implies(err == nil, !isNilSlice(r) && eq(r, spRun(p.orders, p.vals, root, spStart(root)).out)))
	ensures(implies(err != nil, isNilSlice(r)))
	ensures(forall(func(c <-chan JSON) bool { return implies(made(c) && !oldMade(c), spDrained(c)) }))
	outer(func(vm *machine) {
		inv(0 <= vm.pc)
		inv(spStacked(vm))
		inv(spLooping(vm))
		inv(forall(func(c <-chan JSON) bool {
			return implies(made(c) && !oldMade(c), spDrained(c) || len(vm.values) == 1 && eq(c, vm.values[0]))
		}))
	})
	outer(func(vm *machine) {
		v := spView(vm)
		h := atHead(v)
		n := spStep(p.orders, p.vals, root, h)
		unfold(spRun(p.orders, p.vals, root, h))
		cases(h.pc < len(p.orders), int(spOp(p.orders[h.pc])), 54)
		later(h.pc < len(p.orders), int(spOp(p.orders[h.pc])), n)
		later(h.pc < len(p.orders), int(spOp(p.orders[h.pc])), spRun(p.orders, p.vals, root, n))
		if isBack() {
			assert(n.mode == spGo)
			assert(eq(v.stack, n.stack))
			assert(eq(v.out, n.out))
			assert(eq(v.rest, n.rest))
			assert(eq(v, n))
		}
		inv(eq(spRun(p.orders, p.vals, root, v), spRun(p.orders, p.vals, root, spStart(root))))
	})
	// selections from each of the values
	loop(func(vm *machine, vals []JSON, i int) {
		inv(eq(cat(vals, spAllChildren(vm.out, i)), spAllChildren(vm.out, 0)))
	})
	loop(func(vm *machine, vals []JSON, i int, sel JSON, negIndex bool) {
		inv(eq(cat(vals, spSelectAll(vm.out, sel, negIndex, i)), spSelectAll(vm.out, sel, negIndex, 0)))
	})
	loop(func(vm *machine, vals []JSON, i int, sels []JSON) {
		inv(eq(cat(vals, spUnionAll(vm.out, sels, i)), spUnionAll(vm.out, sels, 0)))
	})
	// unions
	loop(func(acc []JSON, i int, val JSON, sels []JSON) {
		inv(eq(cat(acc, spUnion(val, sels, i)), atEntry(cat(acc, spUnion(val, sels, 0)))))
	})
	loop(func(vm *machine, i int, sels []JSON) {
		inv(eq(cat(vm.out, spUnion(vm.dot, sels, i)), atEntry(cat(vm.out, spUnion(vm.dot, sels, 0)))))
	})
}

func spOpen(c <-chan JSON) bool {
	return made(c) && 0 <= chPos(c) && chPos(c) <= len(chTotal(c))
}

// spStacked says that the stack holds what its pointer says.
func spStacked(vm *machine) bool { return 0 <= vm.sp && vm.sp <= len(vm.stack) }

// spLooping says that there is at most one loop, over an open channel.
func spLooping(vm *machine) bool {
	return len(vm.values) == 0 || len(vm.values) == 1 && spOpen(vm.values[0])
}

func contract_machine_push(m, m1 *machine, val JSON) {
	requires(spStacked(m))
	ensures(eq(m1.out, m.out))
	ensures(m1.sp == m.sp+1)
	ensures(spStacked(m1))
	ensures(eq(take(m1.stack, m1.sp), snoc(take(m.stack, m.sp), val)))
}

func contract_machine_pop(m, m1 *machine, r JSON) {
	requires(spStacked(m))
	requires(m.sp > 0)
	ensures(eq(m1.out, m.out))
	ensures(m1.sp == m.sp-1)
	ensures(spStacked(m1))
	ensures(eq(r, m.stack[m.sp-1]))
	ensures(eq(take(m.stack, m.sp), snoc(take(m1.stack, m1.sp), r)))
	ensures(eq(take(m1.stack, m1.sp), take(m.stack, m.sp-1)))
}

func contract_machine_popN(m, m1 *machine, n int64, r []JSON) {
	requires(spStacked(m))
	requires(0 <= n)
	requires(n <= int64(m.sp))
	fresh(r)
	ensures(eq(m1.out, m.out))
	ensures(m1.sp == m.sp-int(n))
	ensures(spStacked(m1))
	ensures(!isNilSlice(r) && eq(r, sub(m.stack, m.sp-int(n), m.sp)))
	ensures(eq(take(m1.stack, m1.sp), take(m.stack, m.sp-int(n))))
	loop(func(i int) {
		inv(m1.sp <= i)
		inv(eq(m1.out, m.out))
		inv(len(m1.stack) == len(m.stack))
		inv(eq(take(m1.stack, m1.sp), take(m.stack, m1.sp)))
	})
	loop(func(a []JSON) {
		inv(eq(a, atEntry(a)))
	})
}

// a loop discards what it has not considered
func contract_machine_drain(m, m1 *machine) {
	requires(spLooping(m))
	ensures(forall(func(c <-chan JSON) bool { return made(c) == oldMade(c) }))
	ensures(forall(func(c <-chan JSON) bool {
		return ite(len(m.values) == 1 && eq(c, m.values[0]), spDrained(c), chPos(c) == oldPos(c))
	}))
	loop(func(i int) {
		inv(forall(func(c <-chan JSON) bool { return made(c) == oldMade(c) }))
		inv(forall(func(c <-chan JSON) bool {
			return implies(!(len(m.values) == 1 && eq(c, m.values[0])), chPos(c) == oldPos(c))
		}))
		inv(spLooping(m))
		inv(implies(len(m.values) == 1 && i == 1, spDrained(m.values[0])))
	})
	loop(func(c <-chan JSON) {
		decreases(len(chTotal(c)) - chPos(c))
	})
}
