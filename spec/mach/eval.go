package mach

import (
	"github.com/forsyth/jsonpath/paths"
)

// ---- what a parsed path means, step by step

// spExpr is the value of expression e, with $ bound to root and @ to dot.
func spExpr(e paths.Expr, root, dot JSON) spVal {
	decreases(rank(e))
	decreases(0)
	switch e := e.(type) {
	case *paths.IntLeaf:
		return spOK(e.Val)
	case *paths.FloatLeaf:
		return spOK(e.Val)
	case *paths.StringLeaf:
		return spOK(e.Val)
	case *paths.BoolLeaf:
		return spOK(e.Val)
	case *paths.NullLeaf:
		return spOK(nil)
	case *paths.RegexpLeaf:
		return spOK(e.Prog)
	case *paths.NameLeaf:
		switch e.Op {
		case paths.OpRoot:
			return spOK(root)
		case paths.OpCurrent:
			return spOK(dot)
		}
		return spOK(paths.NameVal(e.Name))
	case *paths.Inner:
		l := spExprs(e.Kids, 0, root, dot, []JSON{})
		if l.mode != spGo {
			return spVal{nil, l.mode}
		}
		return spApply(e.Op, l.l)
	}
	return spVal{nil, spStuck}
}

type spVals struct {
	l    []JSON
	mode int
}

// spExprs adds the values of the expressions from the i'th, in order, to acc.
func spExprs(es []paths.Expr, i int, root, dot JSON, acc []JSON) spVals {
	decreases(rank(es))
	decreases(len(es) - i)
	if i < 0 || i >= len(es) {
		return spVals{acc, spGo}
	}
	v := spExpr(es[i], root, dot)
	if v.mode != spGo {
		return spVals{nil, v.mode}
	}
	return spExprs(es, i+1, root, dot, snoc(acc, v.v))
}

// spArg is the value of an operand of a step.
func spArg(a paths.Val, root, dot JSON) spVal {
	switch a := a.(type) {
	case paths.IntVal:
		return spOK(int64(a))
	case paths.StringVal:
		return spOK(string(a))
	case paths.NameVal:
		return spOK(a)
	case *paths.Slice:
		return spOK(a)
	case paths.Expr:
		return spExpr(a, root, dot)
	}
	return spVal{nil, spStuck}
}

func spArgs(as []paths.Val, i int, root, dot JSON, acc []JSON) spVals {
	decreases(len(as) - i)
	if i < 0 || i >= len(as) {
		return spVals{acc, spGo}
	}
	v := spArg(as[i], root, dot)
	if v.mode != spGo {
		return spVals{nil, v.mode}
	}
	return spArgs(as, i+1, root, dot, snoc(acc, v.v))
}

// spStepOut is what a step makes of the values selected so far.
func spStepOut(s *paths.Step, root JSON, out []JSON) spVals {
	switch s.Op {
	case paths.OpFilter:
		return spEach(s, root, spAllChildren(out, 0), 0, []JSON{})
	case paths.OpNestMember, paths.OpNestSelect, paths.OpNestUnion, paths.OpNestWild, paths.OpNestFilter:
		return spEach(s, root, spWalkAll(out, 0), 0, []JSON{})
	}
	l := spArgs(s.Args, 0, root, nil, []JSON{})
	if l.mode != spGo {
		return l
	}
	switch s.Op {
	case paths.OpWild:
		return spVals{spAllChildren(out, 0), spGo}
	case paths.OpUnion:
		return spVals{spUnionAll(out, l.l, 0), spGo}
	case paths.OpMember, paths.OpSelect:
		if len(l.l) == 1 {
			if spFails(l.l[0]) {
				return spVals{[]JSON{}, spGo}
			}
			return spVals{spSelectAll(out, l.l[0], s.Op == paths.OpSelect, 0), spGo}
		}
	}
	return spVals{nil, spStuck}
}

// spEach adds to acc what the step makes of each of the values from the i'th.
func spEach(s *paths.Step, root JSON, vals []JSON, i int, acc []JSON) spVals {
	decreases(len(vals) - i)
	if i < 0 || i >= len(vals) {
		return spVals{acc, spGo}
	}
	l := spArgs(s.Args, 0, root, vals[i], []JSON{})
	if l.mode != spGo {
		return l
	}
	return spEach(s, root, vals, i+1, cat(acc, spOne(s.Op, vals[i], l.l)))
}

// spOne is what a step with operands args makes of value v.
func spOne(op paths.Op, v JSON, args []JSON) []JSON {
	switch op {
	case paths.OpNestWild:
		return spChildren(v)
	case paths.OpNestUnion:
		return spUnion(v, args, 0)
	}
	if len(args) != 1 {
		return []JSON{}
	}
	switch op {
	case paths.OpFilter, paths.OpNestFilter:
		if spTruthy(args[0]) {
			return []JSON{v}
		}
		return []JSON{}
	case paths.OpNestMember, paths.OpNestSelect:
		return spKeySelect(v, args[0], op == paths.OpNestSelect)
	}
	return []JSON{}
}

// spPath applies the steps of a path from the i'th to the values selected so far.
func spPath(p []*paths.Step, i int, root JSON, out []JSON) spVals {
	decreases(len(p) - i)
	if i < 0 || i >= len(p) {
		return spVals{out, spGo}
	}
	l := spStepOut(p[i], root, out)
	if l.mode != spGo {
		return l
	}
	return spPath(p, i+1, root, l.l)
}

// ---- selections from several values

// spUnion lists what the keys select from v, from the i'th key.
func spUnion(v JSON, keys []JSON, i int) []JSON {
	decreases(len(keys) - i)
	if i < 0 || i >= len(keys) {
		return []JSON{}
	}
	if spFails(keys[i]) {
		return spUnion(v, keys, i+1)
	}
	return cat(spSelect(v, keys[i], true), spUnion(v, keys, i+1))
}

// spUnionAll lists what the keys select from the values of vals from the i'th.
func spUnionAll(vals []JSON, keys []JSON, i int) []JSON {
	decreases(len(vals) - i)
	if i < 0 || i >= len(vals) {
		return []JSON{}
	}
	return cat(spUnion(vals[i], keys, 0), spUnionAll(vals, keys, i+1))
}

// spSelectAll lists what key selects from the values of vals from the i'th.
func spSelectAll(vals []JSON, key JSON, neg bool, i int) []JSON {
	decreases(len(vals) - i)
	if i < 0 || i >= len(vals) {
		return []JSON{}
	}
	return cat(spSelect(vals[i], key, neg), spSelectAll(vals, key, neg, i+1))
}

// spKeySelect lists what key selects from v: nothing, if there is no key.
func spKeySelect(v, key JSON, neg bool) []JSON {
	if spFails(key) {
		return []JSON{}
	}
	return spSelect(v, key, neg)
}

