package mach

import "strconv"

// ---- C12: equality

// spKind classifies values for the conversion table.
const (
	kFail = iota // a failure
	kNull
	kNum
	kStr
	kBool
	kArr
	kObj
)

func spKind(v JSON) int {
	switch v.(type) {
	case error:
		return kFail
	case nil:
		return kNull
	case int, int64, float64:
		return kNum
	case string:
		return kStr
	case bool:
		return kBool
	case []JSON:
		return kArr
	}
	return kObj
}

func spIsFloat(v JSON) bool { _, ok := v.(float64); return ok }

// spNumEq: two numbers (or booleans as numbers) are equal.
func spNumEq(a, b JSON) bool {
	if spIsFloat(a) || spIsFloat(b) {
		return spToFloat(a) == spToFloat(b)
	}
	return spToInt(a) == spToInt(b)
}

// spIsNumText: s can be read as a number.
func spIsNumText(s string) bool {
	_, err := strconv.ParseFloat(s, 64)
	return s == "" || err == nil
}

// spNumStrEq: number n equals the number written in s.
func spNumStrEq(n JSON, s string) bool {
	if !spIsFloat(n) {
		if s == "" {
			return spToInt(n) == 0
		}
		if spIsIntText(s) {
			return spToInt(n) == spIntText(s)
		}
	}
	return spIsNumText(s) && spToFloat(n) == spToFloat(s)
}

// spBoolStrEq: boolean v as a number equals the number written in s.
func spBoolStrEq(v bool, s string) bool {
	return spIsNumText(s) && spToFloat(v) == spToFloat(s)
}

// spArrStrEq: an array equals a string when empty or single-element, by the element's text.
func spArrStrEq(a []JSON, s string) bool {
	if len(a) == 0 {
		return s == ""
	}
	return len(a) == 1 && spToString(a[0]) == s
}

// spArrNumEq: an array equals a number when empty or single-element, by the same rule.
func spArrNumEq(a []JSON, n JSON) bool {
	decreases(rank(a) + rank(n))
	decreases(0)
	if len(a) == 0 {
		return spNumEq(n, 0.0)
	}
	if len(a) != 1 {
		return false
	}
	if a[0] == nil {
		return spNumEq(n, 0.0)
	}
	return spEq(a[0], n)
}

// spEq is the equality of the expression language.
//
//gover:opaque
func spEq(a, b JSON) bool {
	decreases(rank(a) + rank(b))
	decreases(1)
	ka, kb := spKind(a), spKind(b)
	switch {
	case ka == kFail || ka == kNull || kb == kFail || kb == kNull:
		return (ka == kFail || ka == kNull) && (kb == kFail || kb == kNull)
	case ka == kNum && kb == kNum, ka == kNum && kb == kBool, ka == kBool && kb == kNum:
		return spNumEq(a, b)
	case ka == kStr && kb == kStr:
		return a.(string) == b.(string)
	case ka == kBool && kb == kBool:
		return a.(bool) == b.(bool)
	case ka == kNum && kb == kStr:
		return spNumStrEq(a, b.(string))
	case ka == kStr && kb == kNum:
		return spNumStrEq(b, a.(string))
	case ka == kBool && kb == kStr:
		return spBoolStrEq(a.(bool), b.(string))
	case ka == kStr && kb == kBool:
		return spBoolStrEq(b.(bool), a.(string))
	case ka == kArr && kb == kArr:
		x, y := a.([]JSON), b.([]JSON)
		return len(x) == len(y) && spEqFrom(x, y, 0)
	case ka == kArr && kb == kStr:
		return spArrStrEq(a.([]JSON), b.(string))
	case ka == kStr && kb == kArr:
		return spArrStrEq(b.([]JSON), a.(string))
	case ka == kArr && kb == kNum:
		return spArrNumEq(a.([]JSON), b)
	case ka == kNum && kb == kArr:
		return spArrNumEq(b.([]JSON), a)
	case ka == kArr && kb == kBool:
		return spArrNumEq(a.([]JSON), spToInt(b))
	case ka == kBool && kb == kArr:
		return spArrNumEq(b.([]JSON), spToInt(a))
	}
	x, ok1 := a.(map[string]JSON)
	y, ok2 := b.(map[string]JSON)
	if !ok1 || !ok2 || len(x) != len(y) {
		return false
	}
	return spEqMembers(x, y, 0)
}

// spEqFrom: the elements of x and y from position i are equal.
func spEqFrom(x, y []JSON, i int) bool {
	decreases(rank(x) + rank(y))
	decreases(0)
	decreases(len(x) - i)
	if i < 0 || i >= len(x) || i >= len(y) {
		return true
	}
	return spEq(x[i], y[i]) && spEqFrom(x, y, i+1)
}

// spEqMembers: y has each member of x from the i'th in turn, with an equal value.
func spEqMembers(x, y map[string]JSON, i int) bool {
	decreases(rank(x) + rank(y))
	decreases(0)
	decreases(len(x) - i)
	if i < 0 || i >= len(x) {
		return true
	}
	k := mapKeys(x)[i]
	return hasKey(y, k) && spEq(x[k], y[k]) && spEqMembers(x, y, i+1)
}

func contract_eqNum(a, b JSON, r bool) {
	requires(spKind(a) == kNum || spKind(a) == kBool || spKind(a) == kStr && spNumber(a.(string), b))
	requires(spKind(b) == kNum || spKind(b) == kBool || spKind(b) == kStr && spNumber(b.(string), a))
	requires(spKind(a) != kStr || spKind(b) == kNum)
	requires(spKind(b) != kStr || spKind(a) == kNum)
	ensures(r == spEqPrim(a, b))
}

// spNumber: s is a number that can be compared with n.
func spNumber(s string, n JSON) bool {
	return spIsNumText(s) || !spIsFloat(n) && spIsIntText(s)
}

// spEqPrim: spEq of numbers, booleans and strings that denote numbers.
func spEqPrim(a, b JSON) bool {
	if s, ok := a.(string); ok {
		return spNumStrEq(b, s)
	}
	if s, ok := b.(string); ok {
		return spNumStrEq(a, s)
	}
	return spNumEq(a, b)
}

func contract_eqArrayS(a []JSON, b string, r bool) {
	ensures(r == spArrStrEq(a, b))
}

func contract_eqArrayN(a []JSON, b JSON, r bool) {
	requires(spKind(b) == kNum)
	decreases(rank(a) + rank(b))
	decreases(0)
	ensures(r == spArrNumEq(a, b))
}

func contract_eqVal(a, b JSON, r bool) {
	split(a)
	split(b)
	unfoldOwn(spEq(a, b))
	decreases(rank(a) + rank(b))
	decreases(1)
	ensures(r == spEq(a, b))
	loop(func(i int, a, b []JSON) {
		inv(0 <= i && i <= len(a) && len(a) == len(b))
		inv(spEqFrom(a, b, i) == spEqFrom(a, b, 0))
	})
	loop(func(i int, a, b map[string]JSON) {
		inv(0 <= i && i <= len(a))
		inv(spEqMembers(a, b, i) == spEqMembers(a, b, 0))
	})
}

func contract_searchJSON(vals []JSON, v JSON, f bool, r bool) {
	ensures(r == (spOccurs(vals, v, 0) == f))
	loop(func(i int, vals []JSON) {
		inv(0 <= i && i <= len(vals))
		inv(spOccurs(vals, v, i) == spOccurs(vals, v, 0))
	})
}

// spOccurs: one of the elements of vals from position i equals v.
func spOccurs(vals []JSON, v JSON, i int) bool {
	decreases(len(vals) - i)
	if i < 0 || i >= len(vals) {
		return false
	}
	return spEq(vals[i], v) || spOccurs(vals, v, i+1)
}
