package mach

// Symmetry of equality.

func lemmaEqSym(a, b JSON) {
	if x, ok := a.([]JSON); ok {
		if y, ok := b.([]JSON); ok && len(x) == len(y) {
			lemmaEqFromSym(x, y, 0)
		}
	}
	if x, ok := a.(map[string]JSON); ok {
		if y, ok := b.(map[string]JSON); ok && len(x) == len(y) {
			if spEqMembers(x, y, 0) {
				lemmaMembersSym(x, y, 0)
			}
			if spEqMembers(y, x, 0) {
				lemmaMembersSym(y, x, 0)
			}
		}
	}
}

func contract_lemmaEqSym(a, b JSON) {
	decreases(rank(a) + rank(b))
	decreases(1)
	split(a)
	split(b)
	unfoldOwn(spEq(a, b))
	unfoldOwn(spEq(b, a))
	ensures(spEq(a, b) == spEq(b, a))
}

func lemmaEqFromSym(x, y []JSON, i int) {
	if i < len(x) {
		lemmaEqSym(x[i], y[i])
		lemmaEqFromSym(x, y, i+1)
	}
}

func contract_lemmaEqFromSym(x, y []JSON, i int) {
	requires(0 <= i && len(x) == len(y))
	decreases(rank(x) + rank(y))
	decreases(0)
	decreases(len(x) - i)
	ensures(spEqFrom(x, y, i) == spEqFrom(y, x, i))
}

func lemmaMembersSym(x, y map[string]JSON, i int) {
	if i < len(y) {
		k := mapKeys(y)[i]
		lemmaKeysCover(x, y, k)
		lemmaMember(x, y, k, 0)
		lemmaEqSym(x[k], y[k])
		lemmaMembersSym(x, y, i+1)
	}
}

func contract_lemmaMembersSym(x, y map[string]JSON, i int) {
	requires(0 <= i && len(x) == len(y))
	requires(spEqMembers(x, y, 0))
	decreases(rank(x) + rank(y))
	decreases(0)
	decreases(len(y) - i)
	ensures(spEqMembers(y, x, i))
}

// lemmaMember extracts the comparison of one member.
func lemmaMember(x, y map[string]JSON, k string, i int) {
	if i < keyIndex(x, k) {
		lemmaMember(x, y, k, i+1)
	}
}

func contract_lemmaMember(x, y map[string]JSON, k string, i int) {
	requires(hasKey(x, k) && 0 <= i && i <= keyIndex(x, k))
	requires(spEqMembers(x, y, i))
	decreases(len(x) - i)
	ensures(hasKey(y, k) && spEq(x[k], y[k]))
}

// spHasAll: y has each key of x from the i'th in turn.
func spHasAll(x, y map[string]JSON, i int) bool {
	decreases(len(x) - i)
	if i < 0 || i >= len(x) {
		return true
	}
	return hasKey(y, mapKeys(x)[i]) && spHasAll(x, y, i+1)
}

func lemmaHasAll(x, y map[string]JSON, i int) {
	if i < len(x) {
		lemmaHasAll(x, y, i+1)
	}
}

func contract_lemmaHasAll(x, y map[string]JSON, i int) {
	requires(0 <= i && spEqMembers(x, y, i))
	decreases(len(x) - i)
	ensures(spHasAll(x, y, i))
}

// lemmaKeysCover: if y has every key of x, and no more keys than x, it has no others.
func lemmaKeysCover(x, y map[string]JSON, k string) {
	lemmaHasAll(x, y, 0)
	lemmaPigeonhole(x, y, k)
}

func contract_lemmaKeysCover(x, y map[string]JSON, k string) {
	requires(len(x) == len(y) && spEqMembers(x, y, 0) && hasKey(y, k))
	ensures(hasKey(x, k))
}

// lemmaPigeonhole: a finite set contained in one of the same size is equal to it. Assumed.
//
//gover:trusted
func lemmaPigeonhole(x, y map[string]JSON, k string) {}

func contract_lemmaPigeonhole(x, y map[string]JSON, k string) {
	requires(len(x) == len(y) && hasKey(y, k) && spHasAll(x, y, 0))
	ensures(hasKey(x, k))
}
