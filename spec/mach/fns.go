package mach

import (
	"math"
	"regexp"
	"strconv"
	"strings"
	"unicode/utf8"
)

// ---- C13: built-in functions

func spIsArith(v JSON) bool {
	k := spKind(v)
	return k == kNum || k == kBool
}

const (
	opSum = iota
	opProd
	opMax
	opMin
)

func spAcc(op, i int, acc, el float64) float64 {
	switch op {
	case opSum:
		return acc + el
	case opProd:
		if i == 0 {
			return el
		}
		return acc * el
	case opMax:
		if i == 0 || el > acc {
			return el
		}
		return acc
	}
	if i == 0 || el < acc {
		return el
	}
	return acc
}

// spFold folds op over the elements of a from position i.
func spFold(op int, a []JSON, i int, acc float64) JSON {
	decreases(len(a) - i)
	if i < 0 || i >= len(a) {
		return acc
	}
	if !spIsArith(a[i]) {
		return ErrType
	}
	return spFold(op, a, i+1, spAcc(op, i, acc, spToFloat(a[i])))
}

func spAccS(op, i int, acc, el string) string {
	if i == 0 || op == opMax && el > acc || op == opMin && el < acc {
		return el
	}
	return acc
}

// spFoldS is the greatest or least of strings from position i.
func spFoldS(op int, a []JSON, i int, acc string) JSON {
	decreases(len(a) - i)
	if i < 0 || i >= len(a) {
		return acc
	}
	s, ok := a[i].(string)
	if !ok {
		return ErrType
	}
	return spFoldS(op, a, i+1, spAccS(op, i, acc, s))
}

func spMinMax(op int, a []JSON) JSON {
	if len(a) == 0 {
		return nil
	}
	switch spKind(a[0]) {
	case kNum:
		return spFold(op, a, 0, 0)
	case kStr:
		return spFoldS(op, a, 0, "")
	}
	return ErrType
}

func spMinMaxArgs(op int, args []JSON) JSON {
	if len(args) == 0 {
		return nil
	}
	if len(args) > 1 {
		return spMinMax(op, args)
	}
	if a, ok := args[0].([]JSON); ok {
		return spMinMax(op, a)
	}
	return ErrType
}

// spBoxes lists the strings of s from position i as values.
func spBoxes(s []string, i int) []JSON {
	decreases(len(s) - i)
	if i < 0 || i >= len(s) {
		return []JSON{}
	}
	return cat([]JSON{s[i]}, spBoxes(s, i+1))
}

// spArity is the number of arguments of a function, -1 if any number will do, -2 if there is no such function.
func spArity(id string) int {
	switch id {
	case "abs", "avg", "ceil", "floor", "keys", "length", "prod", "sum", "to_number":
		return 1
	case "contains", "ends_with", "starts_with", "tokenize":
		return 2
	case "max", "min":
		return -1
	}
	return -2
}

// spCallOK: there is a function id, of that many arguments.
func spCallOK(id string, n int) bool {
	k := spArity(id)
	return k == -1 || k >= 0 && k == n
}

func spAbs(v JSON) JSON {
	switch n := v.(type) {
	case int:
		if n < 0 {
			return -int64(n)
		}
		return int64(n)
	case int64:
		if n == -1<<63 {
			return ErrOverflow
		}
		if n < 0 {
			return -n
		}
		return n
	case float64:
		if n < 0 {
			return -n
		}
		return n
	}
	return ErrType
}

func spSum(v JSON) JSON {
	if a, ok := v.([]JSON); ok {
		return spFold(opSum, a, 0, 0)
	}
	return ErrType
}

func spAvg(v JSON) JSON {
	if a, ok := v.([]JSON); ok {
		if s, ok := spFold(opSum, a, 0, 0).(float64); ok {
			return s / float64(len(a))
		}
	}
	return ErrType
}

func spProduct(v JSON) JSON {
	if a, ok := v.([]JSON); ok {
		if len(a) == 0 {
			return nil
		}
		return spFold(opProd, a, 0, 0)
	}
	return ErrType
}

func spRound(up bool, v JSON) JSON {
	switch f := v.(type) {
	case int, int64:
		return v
	case float64:
		if up {
			return math.Ceil(f)
		}
		return math.Floor(f)
	}
	return ErrType
}

func spContains(v, w JSON) JSON {
	switch a := v.(type) {
	case string:
		if b, ok := w.(string); ok {
			return strings.Contains(a, b)
		}
	case []JSON:
		return spOccurs(a, w, 0)
	}
	return ErrType
}

func spAffix(end bool, v, w JSON) JSON {
	a, ok1 := v.(string)
	b, ok2 := w.(string)
	if !ok1 || !ok2 {
		return ErrType
	}
	if end {
		return strings.HasSuffix(a, b)
	}
	return strings.HasPrefix(a, b)
}

func spKeys(v JSON) JSON {
	if m, ok := v.(map[string]JSON); ok {
		return spBoxes(mapKeys(m), 0)
	}
	return ErrType
}

func spLength(v JSON) JSON {
	switch a := v.(type) {
	case string:
		return int64(utf8.RuneCountInString(a))
	case []JSON:
		return int64(len(a))
	case map[string]JSON:
		return int64(len(a))
	}
	return nil
}

func spToNumber(v JSON) JSON {
	switch a := v.(type) {
	case int, int64, float64:
		return v
	case string:
		f, err := strconv.ParseFloat(a, 64)
		if err == nil {
			return f
		}
	}
	return ErrType
}

func spTokenize(v, w JSON) JSON {
	s, ok1 := v.(string)
	r, ok2 := w.(string)
	if !ok1 || !ok2 {
		return ErrType
	}
	re, err := regexp.Compile(r)
	if err != nil {
		return ErrType
	}
	return spBoxes(re.Split(s, -1), 0)
}

// spCall is the result of function id.
func spCall(id string, args []JSON) JSON {
	if !spCallOK(id, len(args)) {
		return ErrType
	}
	switch id {
	case "max":
		return spMinMaxArgs(opMax, args)
	case "min":
		return spMinMaxArgs(opMin, args)
	case "abs":
		return spAbs(args[0])
	case "avg":
		return spAvg(args[0])
	case "ceil":
		return spRound(true, args[0])
	case "floor":
		return spRound(false, args[0])
	case "keys":
		return spKeys(args[0])
	case "length":
		return spLength(args[0])
	case "prod":
		return spProduct(args[0])
	case "sum":
		return spSum(args[0])
	case "to_number":
		return spToNumber(args[0])
	case "contains":
		return spContains(args[0], args[1])
	case "ends_with":
		return spAffix(true, args[0], args[1])
	case "starts_with":
		return spAffix(false, args[0], args[1])
	}
	return spTokenize(args[0], args[1])
}

func contract_call(id string, args []JSON, r JSON, err error) {
	ensures((err == nil) == spCallOK(id, len(args)))
	ensures(implies(err == nil, eq(r, spCall(id, args))))
	ensures(implies(err != nil, r == nil))
	loop(func(i int, acc float64, a []JSON) {
		inv(0 <= i && i <= len(a))
		inv(eq(spFold(opSum, a, i, acc), spFold(opSum, a, 0, 0)))
		inv(eq(spFold(opProd, a, i, acc), spFold(opProd, a, 0, 0)))
		inv(eq(spFold(opMax, a, i, acc), spFold(opMax, a, 0, 0)))
		inv(eq(spFold(opMin, a, i, acc), spFold(opMin, a, 0, 0)))
	})
	loop(func(i int, acc string, a []JSON) {
		inv(eq(spFoldS(opMax, a, i, acc), spFoldS(opMax, a, 0, "")))
		inv(eq(spFoldS(opMin, a, i, acc), spFoldS(opMin, a, 0, "")))
	})
	loop(func(i int, a []JSON) {
		inv(0 <= i && i <= len(a))
		inv(spOccurs(a, args[1], i) == spOccurs(a, args[1], 0))
	})
	loop(func(i int, m []string, res []JSON) {
		inv(0 <= i && i <= len(m))
		inv(eq(cat(res, spBoxes(m, i)), spBoxes(m, 0)))
	})
	loop(func(i int, m map[string]JSON, res []JSON) {
		inv(0 <= i && i <= len(m))
		inv(eq(cat(res, spBoxes(mapKeys(m), i)), spBoxes(mapKeys(m), 0)))
	})
}
