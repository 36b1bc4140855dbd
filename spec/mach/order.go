package mach

import "github.com/forsyth/jsonpath/paths"

// ---- C14: the encoding of orders

const (
	spOps  = 256           // operations
	spFlag = 256           // an operand rather than an index follows
	spUnit = 512           // of the operand
	spHalf = 4194304       // operands are below this, and at least its negation
	spFull = 2 * 4194304
)

//gover:opaque
func spOp(o order) paths.Op { return paths.Op(int64(o) % spOps) }

//gover:opaque
func spIsSmall(o order) bool { return int64(o)/spFlag%2 == 1 }

//gover:opaque
func spIdx(o order) int64 { return int64(o) / spUnit }

// spOperand is the signed operand of an order.
//
//gover:opaque
func spOperand(o order) int64 {
	n := int64(o) / spUnit
	if n >= spHalf {
		return n - spFull
	}
	return n
}

func spFits(n int64) bool { return -spHalf <= n && n < spHalf }

//gover:reveal
func contract_mkSmall(op paths.Op, val int, o order) {
	requires(0 <= op && op < spOps)
	ensures(spOp(o) == op)
	ensures(spIsSmall(o))
	ensures(implies(spFits(int64(val)), spOperand(o) == int64(val)))
}

//gover:reveal
func contract_mkOrder(op paths.Op, index uint32, o order) {
	requires(0 <= op && op < spOps)
	ensures(spOp(o) == op)
	ensures(!spIsSmall(o))
	ensures(implies(index < spHalf, spIdx(o) == int64(index)))
}

func contract_isSmallInt(i int64, r bool) {
	ensures(r == spFits(i))
}

//gover:reveal
func contract_order_op(o order, r paths.Op) {
	ensures(r == spOp(o))
}

//gover:reveal
func contract_order_isSmallInt(o order, r bool) {
	ensures(r == spIsSmall(o))
}

//gover:reveal
func contract_order_index(o order, r uint32) {
	requires(!spIsSmall(o))
	ensures(int64(r) == spIdx(o))
}

//gover:reveal
func contract_order_smallInt(o order, r int64) {
	ensures(r == spOperand(o))
}

//gover:reveal
func contract_order_pc(o order, r int) {
	requires(spIsSmall(o))
	ensures(int64(r) == spOperand(o))
}
