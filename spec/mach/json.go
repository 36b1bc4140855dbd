package mach

import (
	"encoding/json"
	"fmt"
	"math"
	"strconv"

	"github.com/forsyth/jsonpath/paths"
)

// spToInt is the integer denoted by a value where an integer is wanted.
func spToInt(v JSON) int64 {
	switch v := v.(type) {
	case bool:
		if v {
			return 1
		}
		return 0
	case int:
		return int64(v)
	case int64:
		return v
	case float64:
		return int64(v)
	case string:
		if v != "" && spIsIntText(v) {
			return spIntText(v)
		}
		return 0
	case json.Number:
		if n, err := v.Int64(); err == nil {
			return n
		}
	case paths.IntVal:
		return int64(v)
	}
	return 0
}

func spIsIntText(s string) bool {
	_, err := strconv.ParseInt(s, 10, 64)
	return err == nil
}

func spIntText(s string) int64 {
	n, _ := strconv.ParseInt(s, 10, 64)
	return n
}

// spToFloat is the number denoted by a value where a floating-point number is wanted.
func spToFloat(v JSON) float64 {
	switch v := v.(type) {
	case bool:
		if v {
			return 1
		}
		return 0
	case int:
		return float64(v)
	case int64:
		return float64(v)
	case float64:
		return v
	case string:
		if v == "" {
			return 0
		}
		f, err := strconv.ParseFloat(v, 64)
		if err != nil {
			return math.NaN()
		}
		return f
	case json.Number:
		if f, err := v.Float64(); err == nil {
			return f
		}
	}
	return math.NaN()
}

// spToString is the string a primitive value converts to.
func spToString(v JSON) string {
	switch v := v.(type) {
	case error:
		return "undefined"
	case nil:
		return "null"
	case string:
		return v
	case bool:
		return fmt.Sprint(v)
	case int:
		return fmt.Sprint(v)
	case int64:
		return fmt.Sprint(v)
	case float64:
		return fmt.Sprint(v)
	case json.Number:
		return string(v)
	}
	return "[object Object]"
}

// spTruthy: not null, false, 0, NaN, "" or a failure.
func spTruthy(v JSON) bool {
	switch v := v.(type) {
	case nil, error:
		return false
	case bool:
		return v
	case int:
		return v != 0
	case int64:
		return v != 0
	case float64:
		return v == v && v != 0
	case string:
		return v != ""
	case json.Number:
		if n, err := v.Int64(); err == nil {
			return n != 0
		}
		if f, err := v.Float64(); err == nil {
			return f != 0
		}
		return v != ""
	}
	return true
}

func contract_cvi(v JSON, r int64) {
	ensures(r == spToInt(v))
}

func contract_cvf(v JSON, r float64) {
	ensures(eq(r, spToFloat(v)))
}

func contract_cvs(v JSON, r string) {
	ensures(r == spToString(v))
}

func contract_cvb(v JSON, r bool) {
	ensures(r == spTruthy(v))
}

