package mach

import (
	"math"
	"regexp"
	"unicode/utf8"

	"github.com/forsyth/jsonpath/paths"
)

// ---- C11: operators

// what became of a computation
const (
	spGo    = iota // it has a value
	spErr          // it stopped with an error
	spStuck        // it cannot be carried out: no compiled path does this
)

type spVal struct {
	v    JSON
	mode int
}

func spOK(v JSON) spVal { return spVal{v, spGo} }

func spFails(v JSON) bool { _, ok := v.(error); return ok }

func spIsString(v JSON) bool { _, ok := v.(string); return ok }

func spIsSimple(v JSON) bool {
	k := spKind(v)
	return k == kNum || k == kBool || k == kStr
}

// spIntOp is 64-bit arithmetic, spFloatOp floating point.
func spIntOp(op paths.Op, a, b int64) JSON {
	switch op {
	case paths.OpAdd:
		return a + b
	case paths.OpSub:
		return a - b
	case paths.OpMul:
		return a * b
	}
	if b == 0 {
		return ErrFailure
	}
	if op == paths.OpDiv {
		return a / b
	}
	return a % b
}

func spFloatOp(op paths.Op, a, b float64) JSON {
	switch op {
	case paths.OpAdd:
		return a + b
	case paths.OpSub:
		return a - b
	case paths.OpMul:
		return a * b
	}
	if b == 0 {
		return ErrFailure
	}
	if op == paths.OpDiv {
		return a / b
	}
	return math.Mod(a, b)
}

// spArith is a op b for + - * / %.
func spArith(op paths.Op, a, b JSON) JSON {
	if !spIsArith(a) || !spIsArith(b) {
		return ErrFailure
	}
	if spIsFloat(a) || spIsFloat(b) {
		return spFloatOp(op, spToFloat(a), spToFloat(b))
	}
	return spIntOp(op, spToInt(a), spToInt(b))
}

func spLess(a, b JSON) bool {
	if spIsString(a) {
		return a.(string) < b.(string)
	}
	if spIsFloat(a) || spIsFloat(b) {
		return spToFloat(a) < spToFloat(b)
	}
	return spToInt(a) < spToInt(b)
}

func spLessEq(a, b JSON) bool {
	if spIsString(a) {
		return a.(string) <= b.(string)
	}
	if spIsFloat(a) || spIsFloat(b) {
		return spToFloat(a) <= spToFloat(b)
	}
	return spToInt(a) <= spToInt(b)
}

// spCompare is a op b for < <= > >=.
func spCompare(op paths.Op, a, b JSON) JSON {
	if spFails(a) || spFails(b) {
		return ErrFailure
	}
	if !spIsSimple(a) || !spIsSimple(b) || spIsString(a) != spIsString(b) {
		return false
	}
	switch op {
	case paths.OpLT:
		return spLess(a, b)
	case paths.OpGT:
		return spLess(b, a)
	case paths.OpLE:
		return spLessEq(a, b)
	}
	return spLessEq(b, a)
}

// spMember is the value of a.name in an expression.
func spMember(a JSON, name string) JSON {
	if name == "length" {
		switch a := a.(type) {
		case []JSON:
			return int64(len(a))
		case map[string]JSON:
			return int64(len(a))
		case string:
			return int64(utf8.RuneCountInString(a))
		}
		return ErrFailure
	}
	if m, ok := a.(map[string]JSON); ok {
		if v, ok := m[name]; ok {
			return v
		}
	}
	return ErrFailure
}

// spElement is the value of a[i] in an expression.
func spElement(a, i JSON) JSON {
	switch a := a.(type) {
	case []JSON:
		n := 0
		switch i := i.(type) {
		case int, int64, float64:
			n = spIndex(len(a), spToInt(i), true)
		case string:
			if !spIsIntText(i) {
				return ErrFailure
			}
			n = spIndex(len(a), spIntText(i), true)
		default:
			return ErrFailure
		}
		if n >= 0 {
			return a[n]
		}
	case map[string]JSON:
		if v, ok := a[spMemberName(i)]; ok {
			return v
		}
	}
	return ErrFailure
}

func spNeg(a JSON) JSON {
	if f, ok := a.(float64); ok {
		return -f
	}
	return -spToInt(a)
}

// spMatch is a =~ b.
func spMatch(a, b JSON) spVal {
	s, ok := a.(string)
	if !ok {
		return spVal{nil, spErr}
	}
	switch b := b.(type) {
	case *regexp.Regexp:
		return spOK(b.MatchString(s))
	case string:
		re, err := regexp.Compile(b)
		if err != nil {
			return spVal{nil, spErr}
		}
		return spOK(re.MatchString(s))
	}
	return spVal{nil, spErr}
}

// spApply1 is op a.
func spApply1(op paths.Op, a JSON) spVal {
	if op == paths.OpNot {
		return spOK(!spTruthy(a))
	}
	if spFails(a) {
		return spOK(ErrFailure)
	}
	return spOK(spNeg(a))
}

// spApply2 is a op b.
func spApply2(op paths.Op, a, b JSON) spVal {
	switch op {
	case paths.OpEQ:
		return spOK(spEq(a, b))
	case paths.OpNE:
		return spOK(!spEq(a, b))
	case paths.OpLT, paths.OpLE, paths.OpGT, paths.OpGE:
		return spOK(spCompare(op, a, b))
	case paths.OpOr:
		if spTruthy(a) {
			return spOK(a)
		}
		return spOK(b)
	case paths.OpAnd:
		if spTruthy(a) {
			return spOK(b)
		}
		return spOK(a)
	}
	if spFails(a) || spFails(b) {
		if op == paths.OpDot || op == paths.OpIndex || spIsArithOp(op) || op == paths.OpMatch || op == paths.OpIn || op == paths.OpNin {
			return spOK(ErrFailure)
		}
	}
	switch op {
	case paths.OpDot:
		if n, ok := b.(paths.NameVal); ok {
			return spOK(spMember(a, string(n)))
		}
		return spVal{nil, spStuck}
	case paths.OpIndex:
		return spOK(spElement(a, b))
	case paths.OpAdd, paths.OpSub, paths.OpMul, paths.OpDiv, paths.OpMod:
		return spOK(spArith(op, a, b))
	case paths.OpMatch:
		return spMatch(a, b)
	case paths.OpIn, paths.OpNin:
		if l, ok := b.([]JSON); ok {
			return spOK(spOccurs(l, a, 0) == (op == paths.OpIn))
		}
		return spVal{nil, spErr}
	}
	return spVal{nil, spStuck}
}

func spIsArithOp(op paths.Op) bool {
	switch op {
	case paths.OpAdd, paths.OpSub, paths.OpMul, paths.OpDiv, paths.OpMod:
		return true
	}
	return false
}

// spApplyN is the result of an operator with any number of operands.
func spApplyN(op paths.Op, a []JSON) spVal {
	if op == paths.OpArray {
		return spOK(a)
	}
	if len(a) == 0 {
		return spVal{nil, spStuck}
	}
	id, ok := a[0].(paths.NameVal)
	if !ok {
		return spVal{nil, spStuck}
	}
	if !spCallOK(string(id), len(a)-1) {
		return spVal{nil, spErr}
	}
	return spOK(spCall(string(id), sub(a, 1, len(a))))
}

// spOpArity is the number of operands of an expression operator: -1 if it varies, -2 if it is no such operator.
func spOpArity(op paths.Op) int {
	switch op {
	case paths.OpNeg, paths.OpNot:
		return 1
	case paths.OpDot, paths.OpIndex, paths.OpOr, paths.OpAnd, paths.OpAdd, paths.OpSub, paths.OpMul, paths.OpDiv, paths.OpMod,
		paths.OpEQ, paths.OpNE, paths.OpLT, paths.OpLE, paths.OpGE, paths.OpGT, paths.OpMatch, paths.OpIn, paths.OpNin:
		return 2
	case paths.OpArray, paths.OpCall:
		return -1
	}
	return -2
}

// spApply applies an expression operator to its operands.
func spApply(op paths.Op, a []JSON) spVal {
	switch spOpArity(op) {
	case 1:
		if len(a) == 1 {
			return spApply1(op, a[0])
		}
	case 2:
		if len(a) == 2 {
			return spApply2(op, a[0], a[1])
		}
	case -1:
		return spApplyN(op, a)
	}
	return spVal{nil, spStuck}
}
