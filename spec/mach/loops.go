package mach

// ---- C07, C09, C10: the values considered by wildcards, filters and recursive steps

// spMembers lists the member values of m from the i'th (in the order of its enumeration).
func spMembers(m map[string]JSON, i int) []JSON {
	decreases(len(m) - i)
	if i < 0 || i >= len(m) {
		return []JSON{}
	}
	return cat([]JSON{m[mapKeys(m)[i]]}, spMembers(m, i+1))
}

// spChildren lists the elements of an array or the member values of an object.
func spChildren(v JSON) []JSON {
	switch v := v.(type) {
	case []JSON:
		return v
	case map[string]JSON:
		return spMembers(v, 0)
	}
	return []JSON{}
}

func contract_valsWild(vals0 []JSON, src0 JSON, r []JSON) {
	consumes(vals0)
	fresh(r)
	ensures(eq(r, cat(vals0, spChildren(src0))))
	loop(func(i int, vals []JSON, src []JSON) {
		inv(0 <= i && i <= len(src))
		inv(eq(cat(vals, sub(src, i, len(src))), cat(vals0, spChildren(src0))))
	})
	loop(func(i int, vals []JSON, src map[string]JSON) {
		inv(0 <= i && i <= len(src))
		inv(eq(cat(vals, spMembers(src, i)), cat(vals0, spChildren(src0))))
	})
}

// spAllChildren lists the children of the values of vals from position i.
func spAllChildren(vals []JSON, i int) []JSON {
	decreases(len(vals) - i)
	if i < 0 || i >= len(vals) {
		return []JSON{}
	}
	return cat(spChildren(vals[i]), spAllChildren(vals, i+1))
}

// stepping sends every child of every value, in order, and closes the channel.
func contract_stepping(values chan<- JSON, vals []JSON) {
	requires(!oldClosed(values))
	ensures(closed(values))
	ensures(eq(sent(values), cat(oldSent(values), spAllChildren(vals, 0))))
	loop(func(i int) {
		inv(0 <= i && i <= len(vals))
		inv(!closed(values))
		inv(eq(cat(sent(values), spAllChildren(vals, i)), cat(oldSent(values), spAllChildren(vals, 0))))
	})
	loop(func(i int, j int, src []JSON) {
		inv(0 <= j && j <= len(src))
		inv(!closed(values))
		inv(0 <= i && i < len(vals))
		inv(eq(cat(cat(sent(values), sub(src, j, len(src))), spAllChildren(vals, i+1)), cat(oldSent(values), spAllChildren(vals, 0))))
	})
	loop(func(i int, j int, src map[string]JSON) {
		inv(0 <= j && j <= len(src))
		inv(!closed(values))
		inv(0 <= i && i < len(vals))
		inv(eq(cat(cat(sent(values), spMembers(src, j)), spAllChildren(vals, i+1)), cat(oldSent(values), spAllChildren(vals, 0))))
	})
}

func spIsStructure(v JSON) bool {
	switch v.(type) {
	case []JSON, map[string]JSON:
		return true
	}
	return false
}

// spWalk lists v, then every container below it, parents first.
func spWalk(v JSON) []JSON {
	decreases(2*rank(v) + 1)
	decreases(0)
	switch v := v.(type) {
	case []JSON:
		return cat([]JSON{v}, spWalkArray(v, 0))
	case map[string]JSON:
		return cat([]JSON{v}, spWalkObject(v, 0))
	}
	return []JSON{}
}

func spWalkArray(a []JSON, i int) []JSON {
	decreases(2 * rank(a))
	decreases(len(a) - i)
	if i < 0 || i >= len(a) {
		return []JSON{}
	}
	return cat(spWalk(a[i]), spWalkArray(a, i+1))
}

func spWalkObject(m map[string]JSON, i int) []JSON {
	decreases(2 * rank(m))
	decreases(len(m) - i)
	if i < 0 || i >= len(m) {
		return []JSON{}
	}
	return cat(spWalk(m[mapKeys(m)[i]]), spWalkObject(m, i+1))
}

func contract_walkdown(values chan<- JSON, val JSON) {
	requires(!oldClosed(values))
	requires(spIsStructure(val))
	decreases(rank(val))
	ensures(!closed(values))
	ensures(eq(sent(values), cat(oldSent(values), spWalk(val))))
	loop(func(i int, src []JSON) {
		inv(0 <= i && i <= len(src))
		inv(!closed(values))
		inv(eq(cat(sent(values), spWalkArray(src, i)), cat(oldSent(values), spWalk(val))))
	})
	loop(func(i int, src map[string]JSON) {
		inv(0 <= i && i <= len(src))
		inv(!closed(values))
		inv(eq(cat(sent(values), spWalkObject(src, i)), cat(oldSent(values), spWalk(val))))
	})
}

// spWalkAll lists the containers visited by a recursive step from the values of vals.
func spWalkAll(vals []JSON, i int) []JSON {
	decreases(len(vals) - i)
	if i < 0 || i >= len(vals) {
		return []JSON{}
	}
	return cat(spWalk(vals[i]), spWalkAll(vals, i+1))
}

func contract_walker(values chan<- JSON, vals []JSON) {
	requires(!oldClosed(values))
	ensures(closed(values))
	ensures(eq(sent(values), cat(oldSent(values), spWalkAll(vals, 0))))
	loop(func(i int) {
		inv(0 <= i && i <= len(vals))
		inv(!closed(values))
		inv(eq(cat(sent(values), spWalkAll(vals, i)), cat(oldSent(values), spWalkAll(vals, 0))))
	})
}
