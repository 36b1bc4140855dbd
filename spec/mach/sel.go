package mach

import (
	"fmt"

	"github.com/forsyth/jsonpath/paths"
)

// ---- C05: selection by key

// spMemberName is the object member that a key names.
func spMemberName(key JSON) string {
	switch key := key.(type) {
	case string:
		return key
	case paths.NameVal:
		return string(key)
	case float64:
		return fmt.Sprint(int64(key))
	}
	return fmt.Sprint(key)
}

// spIndex is the position in an array of n elements denoted by subscript i, or -1 if there is none.
func spIndex(n int, i int64, neg bool) int {
	if 0 <= i && i < int64(n) {
		return int(i)
	}
	if neg && i < 0 && -int64(n) <= i {
		return int(i) + n
	}
	return -1
}

// spSelect lists the values that key selects from src.
//
//gover:opaque
func spSelect(src, key JSON, neg bool) []JSON {
	if s, ok := key.(*paths.Slice); ok {
		if a, ok := src.([]JSON); ok {
			return spSlice(a, s)
		}
		return []JSON{}
	}
	switch src := src.(type) {
	case []JSON:
		if isSpInt(key) {
			if i := spIndex(len(src), spToInt(key), neg); i >= 0 {
				return []JSON{src[i]}
			}
		}
	case map[string]JSON:
		if v, ok := src[spMemberName(key)]; ok {
			return []JSON{v}
		}
	}
	return []JSON{}
}

func isSpInt(v JSON) bool { return spIsInt(v) }

func spIsInt(v JSON) bool {
	switch v.(type) {
	case int, int64:
		return true
	}
	return false
}

// ---- C06: slices, as in Python

// spBound is the value of a slice bound; a bound that is not an integer literal counts as 0.
func spBound(v paths.Val) int64 {
	return spToInt(v)
}

// spClamp places bound v (negative: from the end) of an array of n elements in the range lo to hi.
func spClamp(v, n, lo, hi int64) int64 {
	if v < 0 {
		if v < lo-n {
			return lo
		}
		v = v + n
	}
	if v < lo {
		return lo
	}
	if v > hi {
		return hi
	}
	return v
}

// spUp lists a[i], a[i+d], ... below end, for d > 0.
func spUp(a []JSON, i, end, d int64) []JSON {
	decreases(int(end - i))
	if i >= end || d <= 0 || i < 0 || end > int64(len(a)) {
		return []JSON{}
	}
	if d >= end-i {
		return []JSON{a[i]}
	}
	return cat([]JSON{a[i]}, spUp(a, i+d, end, d))
}

// spDown lists a[i], a[i+d], ... above end, for d < 0.
func spDown(a []JSON, i, end, d int64) []JSON {
	decreases(int(i - end))
	if i <= end || d >= 0 || end < -1 || i >= int64(len(a)) {
		return []JSON{}
	}
	if d <= end-i {
		return []JSON{a[i]}
	}
	return cat([]JSON{a[i]}, spDown(a, i+d, end, d))
}

// spSlice is a[start:end:stride] as Python defines it.
func spSlice(a []JSON, s *paths.Slice) []JSON {
	n := int64(len(a))
	d := int64(1)
	if s.Stride != nil {
		d = spBound(s.Stride)
	}
	if d > 0 {
		start, end := int64(0), n
		if s.Start != nil {
			start = spClamp(spBound(s.Start), n, 0, n)
		}
		if s.End != nil {
			end = spClamp(spBound(s.End), n, 0, n)
		}
		return spUp(a, start, end, d)
	}
	if d < 0 {
		start, end := n-1, int64(-1)
		if s.Start != nil {
			start = spClamp(spBound(s.Start), n, -1, n-1)
		}
		if s.End != nil {
			end = spClamp(spBound(s.End), n, -1, n-1)
		}
		return spDown(a, start, end, d)
	}
	return []JSON{}
}

//gover:reveal
func contract_valsByKey(vals0 []JSON, src0 JSON, key JSON, neg bool, r []JSON) {
	consumes(vals0)
	fresh(r)
	ensures(eq(r, cat(vals0, spSelect(src0, key, neg))))
	loop(func(i, end, stride int64, vals []JSON, src []JSON) {
		inv(0 <= i && end <= int64(len(src)) && stride > 0 && stride <= int64(len(src))+1)
		inv(eq(cat(vals, spUp(src, i, end, stride)), cat(vals0, spSelect(src0, key, neg))))
	})
	loop(func(i, end, stride int64, vals []JSON, src []JSON) {
		inv(-1 <= end && i < int64(len(src)) && stride < 0)
		inv(eq(cat(vals, spDown(src, i, end, stride)), cat(vals0, spSelect(src0, key, neg))))
	})
}
