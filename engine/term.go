package main

// Symbolic scalars: hash-consed bit-vector (width 1..64) and Boolean (width 0)
// terms with constant folding and a few algebraic simplifications.

import (
	"fmt"
	"math/bits"
	"strings"
)

type Op uint8

const (
	OConst Op = iota
	OVar
	OAdd
	OSub
	OMul
	OUDiv
	OSDiv
	OURem
	OSRem
	OAnd
	OOr
	OXor
	OShl
	OLshr
	OAshr
	ONot
	ONeg
	OEq
	OUlt
	OUle
	OSlt
	OSle
	OIte
	OExtract // n = lo, w = width
	OZext
	OSext
	OBAnd
	OBOr
	OBNot
)

var opNames = map[Op]string{OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUDiv: "bvudiv", OSDiv: "bvsdiv",
	OURem: "bvurem", OSRem: "bvsrem", OAnd: "bvand", OOr: "bvor", OXor: "bvxor", OShl: "bvshl", OLshr: "bvlshr",
	OAshr: "bvashr", ONot: "bvnot", ONeg: "bvneg", OEq: "=", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt",
	OSle: "bvsle", OIte: "ite", OBAnd: "and", OBOr: "or", OBNot: "not"}

type Term struct {
	op      Op
	w       uint8 // 0 = Bool
	id      uint32
	n       uint64
	a, b, c *Term
}

type termKey struct {
	op      Op
	w       uint8
	n       uint64
	a, b, c *Term
}

// Terms holds the terms of one path.
type Terms struct {
	tab   map[termKey]*Term
	next  uint32
	vars  []*Term
	True  *Term
	False *Term
	rng   map[*Term][2]uint64 // variables known to lie in a range (asserted in the path condition)
}

func (t *Terms) rawUle(a, b *Term) *Term { return t.mk(OUle, 0, 0, a, b, nil) }
func (t *Terms) rawEq(a, b *Term) *Term {
	if a.isC() {
		a, b = b, a
	}
	return t.mk(OEq, 0, 0, a, b, nil)
}

func NewTerms() *Terms {
	t := &Terms{tab: map[termKey]*Term{}, rng: map[*Term][2]uint64{}}
	t.True = t.Const(1, 0)
	t.False = t.Const(0, 0)
	return t
}

func mask(w uint8) uint64 {
	if w == 0 {
		return 1
	}
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sx(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := 64 - uint(w)
	return int64(v<<sh) >> sh
}

func (t *Terms) mk(op Op, w uint8, n uint64, a, b, c *Term) *Term {
	k := termKey{op, w, n, a, b, c}
	if x, ok := t.tab[k]; ok {
		return x
	}
	x := &Term{op: op, w: w, id: t.next, n: n, a: a, b: b, c: c}
	t.next++
	t.tab[k] = x
	return x
}

func (t *Terms) Const(v uint64, w uint8) *Term { return t.mk(OConst, w, v&mask(w), nil, nil, nil) }
func (t *Terms) Bool(b bool) *Term {
	if b {
		return t.True
	}
	return t.False
}
func (t *Terms) Var(w uint8) *Term {
	v := t.mk(OVar, w, uint64(len(t.vars)), nil, nil, nil)
	t.vars = append(t.vars, v)
	return v
}

func evalOp(op Op, w, aw uint8, n, a, b, c uint64) uint64 {
	m := mask(w)
	switch op {
	case OAdd:
		return (a + b) & m
	case OSub:
		return (a - b) & m
	case OMul:
		return (a * b) & m
	case OUDiv:
		if b == 0 {
			return m
		}
		return a / b
	case OURem:
		if b == 0 {
			return a
		}
		return a % b
	case OSDiv:
		x, y := sx(a, w), sx(b, w)
		if y == 0 {
			if x < 0 {
				return 1
			}
			return m
		}
		if y == -1 {
			return uint64(-x) & m
		}
		return uint64(x/y) & m
	case OSRem:
		x, y := sx(a, w), sx(b, w)
		if y == 0 {
			return a
		}
		if y == -1 {
			return 0
		}
		return uint64(x%y) & m
	case OAnd:
		return a & b
	case OOr:
		return a | b
	case OXor:
		return a ^ b
	case OShl:
		if b >= uint64(w) {
			return 0
		}
		return (a << b) & m
	case OLshr:
		if b >= uint64(w) {
			return 0
		}
		return a >> b
	case OAshr:
		s := sx(a, w)
		if b >= uint64(w) {
			b = uint64(w) - 1
		}
		return uint64(s>>b) & m
	case ONot:
		return ^a & m
	case ONeg:
		return (-a) & m
	case OEq:
		return b2u(a == b)
	case OUlt:
		return b2u(a < b)
	case OUle:
		return b2u(a <= b)
	case OSlt:
		return b2u(sx(a, aw) < sx(b, aw))
	case OSle:
		return b2u(sx(a, aw) <= sx(b, aw))
	case OIte:
		if a == 1 {
			return b
		}
		return c
	case OExtract:
		return (a >> n) & m
	case OZext:
		return a
	case OSext:
		return uint64(sx(a, aw)) & m
	case OBAnd:
		return a & b
	case OBOr:
		return a | b
	case OBNot:
		return a ^ 1
	}
	panic("evalOp")
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (x *Term) isC() bool { return x.op == OConst }

func (t *Terms) Bin(op Op, a, b *Term) *Term {
	w := a.w
	switch op {
	case OEq, OUlt, OUle, OSlt, OSle:
		w = 0
	}
	if a.isC() && b.isC() {
		return t.Const(evalOp(op, w, a.w, 0, a.n, b.n, 0), w)
	}
	if len(t.rng) > 0 && (op == OEq || op == OUlt || op == OUle) {
		if r, ok := t.rng[a]; ok && b.isC() {
			switch {
			case op == OEq && (b.n < r[0] || b.n > r[1]), op == OUlt && r[0] >= b.n, op == OUle && r[0] > b.n:
				return t.False
			case op == OUlt && r[1] < b.n, op == OUle && r[1] <= b.n:
				return t.True
			}
		}
		if r, ok := t.rng[b]; ok && a.isC() {
			switch {
			case op == OEq && (a.n < r[0] || a.n > r[1]), op == OUlt && r[1] <= a.n, op == OUle && r[1] < a.n:
				return t.False
			case op == OUlt && r[0] > a.n, op == OUle && r[0] >= a.n:
				return t.True
			}
		}
	}
	switch op {
	case OEq:
		if a == b {
			return t.True
		}
		if a.w == 0 {
			if a.isC() {
				a, b = b, a
			}
			if b.isC() {
				if b.n == 1 {
					return a
				}
				return t.Not(a)
			}
		}
		if a.isC() {
			a, b = b, a
		}
		if b.isC() {
			switch a.op {
			case OZext:
				if b.n&^mask(a.a.w) != 0 {
					return t.False
				}
				return t.Bin(OEq, a.a, t.Const(b.n, a.a.w))
			case OIte:
				if a.b.isC() && a.c.isC() {
					p, q := a.b.n == b.n, a.c.n == b.n
					switch {
					case p && q:
						return t.True
					case p:
						return a.a
					case q:
						return t.Not(a.a)
					default:
						return t.False
					}
				}
			case OXor:
				if a.b.isC() {
					return t.Bin(OEq, a.a, t.Const(b.n^a.b.n, a.w))
				}
			case OAdd:
				if a.b.isC() {
					return t.Bin(OEq, a.a, t.Const(b.n-a.b.n, a.w))
				}
			}
		} else if a.id > b.id {
			a, b = b, a
		}
	case OUlt:
		if a == b || (b.isC() && b.n == 0) {
			return t.False
		}
		if b.isC() && a.op == OZext && b.n > mask(a.a.w) {
			return t.True
		}
		if b.isC() && a.op == OZext {
			return t.Bin(OUlt, a.a, t.Const(b.n, a.a.w))
		}
		if b.isC() && b.n == 1 {
			return t.Bin(OEq, a, t.Const(0, a.w))
		}
	case OUle:
		if a == b || (a.isC() && a.n == 0) || (b.isC() && b.n == mask(a.w)) {
			return t.True
		}
		if b.isC() && a.op == OZext {
			if b.n >= mask(a.a.w) {
				return t.True
			}
			return t.Bin(OUle, a.a, t.Const(b.n, a.a.w))
		}
	case OSlt:
		if a == b {
			return t.False
		}
		if a.op == OZext && b.isC() {
			if sx(b.n, b.w) <= 0 {
				return t.False
			}
			return t.Bin(OUlt, a, b)
		}
		if b.op == OZext && a.isC() {
			if sx(a.n, a.w) < 0 {
				return t.True
			}
			return t.Bin(OUlt, a, b)
		}
	case OSle:
		if a == b {
			return t.True
		}
		if a.op == OZext && b.isC() {
			if sx(b.n, b.w) < 0 {
				return t.False
			}
			return t.Bin(OUle, a, b)
		}
		if b.op == OZext && a.isC() {
			if sx(a.n, a.w) <= 0 {
				return t.True
			}
			return t.Bin(OUle, a, b)
		}
	case OAdd:
		if a.isC() {
			a, b = b, a
		}
		if b.isC() {
			if b.n == 0 {
				return a
			}
			if a.op == OAdd && a.b.isC() {
				return t.Bin(OAdd, a.a, t.Const(a.b.n+b.n, w))
			}
		}
	case OSub:
		if a == b {
			return t.Const(0, w)
		}
		if b.isC() {
			return t.Bin(OAdd, a, t.Const(-b.n, w))
		}
	case OMul:
		if a.isC() {
			a, b = b, a
		}
		if b.isC() {
			switch {
			case b.n == 0:
				return b
			case b.n == 1:
				return a
			case b.n&(b.n-1) == 0:
				return t.Bin(OShl, a, t.Const(uint64(bits.TrailingZeros64(b.n)), w))
			}
		}
	case OUDiv:
		if b.isC() && b.n == 1 {
			return a
		}
		if b.isC() && b.n != 0 && b.n&(b.n-1) == 0 {
			return t.Bin(OLshr, a, t.Const(uint64(bits.TrailingZeros64(b.n)), w))
		}
	case OURem:
		if b.isC() && b.n != 0 && b.n&(b.n-1) == 0 {
			return t.Bin(OAnd, a, t.Const(b.n-1, w))
		}
	case OAnd:
		if a.isC() {
			a, b = b, a
		}
		if a == b {
			return a
		}
		if b.isC() {
			if b.n == 0 {
				return b
			}
			if b.n == mask(w) {
				return a
			}
			if a.op == OZext && b.n&mask(a.a.w) == mask(a.a.w) {
				return a
			}
			if a.op == OAnd && a.b.isC() {
				return t.Bin(OAnd, a.a, t.Const(a.b.n&b.n, w))
			}
			// low mask of 2^k-1: zext(extract)
			if b.n&(b.n+1) == 0 {
				k := uint8(bits.Len64(b.n))
				return t.Zext(t.Extract(a, 0, k), w)
			}
		}
	case OOr:
		if a.isC() {
			a, b = b, a
		}
		if a == b {
			return a
		}
		if b.isC() {
			if b.n == 0 {
				return a
			}
			if b.n == mask(w) {
				return b
			}
		}
	case OXor:
		if a.isC() {
			a, b = b, a
		}
		if a == b {
			return t.Const(0, w)
		}
		if b.isC() && b.n == 0 {
			return a
		}
	case OShl, OLshr, OAshr:
		if b.isC() {
			if b.n == 0 {
				return a
			}
			if b.n >= uint64(w) && op != OAshr {
				return t.Const(0, w)
			}
			if op == OLshr && b.n < uint64(w) {
				return t.Zext(t.Extract(a, uint8(b.n), w-uint8(b.n)), w)
			}
			if op == OShl && a.op == OShl && a.b.isC() {
				s := a.b.n + b.n
				if s >= uint64(w) {
					return t.Const(0, w)
				}
				return t.Bin(OShl, a.a, t.Const(s, w))
			}
		}
		if a.isC() && a.n == 0 {
			return a
		}
	}
	return t.mk(op, w, 0, a, b, nil)
}

func (t *Terms) Not(a *Term) *Term { // Boolean
	if a.isC() {
		return t.Const(a.n^1, 0)
	}
	if a.op == OBNot {
		return a.a
	}
	return t.mk(OBNot, 0, 0, a, nil, nil)
}

func (t *Terms) And(a, b *Term) *Term {
	if a.isC() {
		if a.n == 0 {
			return a
		}
		return b
	}
	if b.isC() {
		if b.n == 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if (a.op == OBNot && a.a == b) || (b.op == OBNot && b.a == a) {
		return t.False
	}
	return t.mk(OBAnd, 0, 0, a, b, nil)
}

func (t *Terms) Or(a, b *Term) *Term {
	if a.isC() {
		if a.n == 1 {
			return a
		}
		return b
	}
	if b.isC() {
		if b.n == 1 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if (a.op == OBNot && a.a == b) || (b.op == OBNot && b.a == a) {
		return t.True
	}
	return t.mk(OBOr, 0, 0, a, b, nil)
}

func (t *Terms) BvNot(a *Term) *Term {
	if a.isC() {
		return t.Const(^a.n, a.w)
	}
	if a.op == ONot {
		return a.a
	}
	return t.mk(ONot, a.w, 0, a, nil, nil)
}

func (t *Terms) Neg(a *Term) *Term {
	if a.isC() {
		return t.Const(-a.n, a.w)
	}
	return t.mk(ONeg, a.w, 0, a, nil, nil)
}

func (t *Terms) Ite(c, a, b *Term) *Term {
	if c.isC() {
		if c.n == 1 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.w == 0 {
		return t.Or(t.And(c, a), t.And(t.Not(c), b))
	}
	return t.mk(OIte, a.w, 0, c, a, b)
}

func (t *Terms) Extract(a *Term, lo, w uint8) *Term {
	if lo == 0 && w == a.w {
		return a
	}
	if a.isC() {
		return t.Const(a.n>>lo, w)
	}
	switch a.op {
	case OExtract:
		return t.Extract(a.a, uint8(a.n)+lo, w)
	case OZext, OSext:
		if lo+w <= a.a.w {
			return t.Extract(a.a, lo, w)
		}
		if a.op == OZext && lo >= a.a.w {
			return t.Const(0, w)
		}
		if a.op == OZext && lo < a.a.w {
			return t.Zext(t.Extract(a.a, lo, a.a.w-lo), w)
		}
	case OShl:
		if a.b.isC() {
			s := uint8(a.b.n)
			if lo >= s {
				return t.Extract(a.a, lo-s, w)
			}
			if lo+w <= s {
				return t.Const(0, w)
			}
		}
	case OOr, OAnd, OXor:
		x, y := t.Extract(a.a, lo, w), t.Extract(a.b, lo, w)
		return t.Bin(a.op, x, y)
	case OIte:
		if a.b.isC() || a.c.isC() {
			return t.Ite(a.a, t.Extract(a.b, lo, w), t.Extract(a.c, lo, w))
		}
	}
	return t.mk(OExtract, w, uint64(lo), a, nil, nil)
}

func (t *Terms) Zext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isC() {
		return t.Const(a.n, w)
	}
	if a.op == OZext {
		a = a.a
	}
	return t.mk(OZext, w, 0, a, nil, nil)
}

func (t *Terms) Sext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isC() {
		return t.Const(uint64(sx(a.n, a.w)), w)
	}
	if a.op == OZext {
		return t.Zext(a.a, w)
	}
	return t.mk(OSext, w, 0, a, nil, nil)
}

// Model maps variable index to value; missing variables are zero.
type Model map[uint64]uint64

func (m Model) Eval(x *Term, memo map[*Term]uint64) uint64 {
	switch x.op {
	case OConst:
		return x.n
	case OVar:
		return m[x.n] & mask(x.w)
	}
	if v, ok := memo[x]; ok {
		return v
	}
	var a, b, c uint64
	var aw uint8
	a = m.Eval(x.a, memo)
	aw = x.a.w
	if x.op == OIte {
		if a == 1 {
			b = m.Eval(x.b, memo)
		} else {
			c = m.Eval(x.c, memo)
		}
	} else if x.b != nil {
		b = m.Eval(x.b, memo)
	}
	v := evalOp(x.op, x.w, aw, x.n, a, b, c)
	memo[x] = v
	return v
}

func sortName(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func constStr(x *Term) string {
	if x.w == 0 {
		if x.n == 1 {
			return "true"
		}
		return "false"
	}
	return fmt.Sprintf("(_ bv%d %d)", x.n, x.w)
}

func refName(x *Term) string {
	switch x.op {
	case OConst:
		return constStr(x)
	case OVar:
		return fmt.Sprintf("v%d", x.n)
	}
	return fmt.Sprintf("t%d", x.id)
}

func bodyStr(x *Term) string {
	switch x.op {
	case OExtract:
		return fmt.Sprintf("((_ extract %d %d) %s)", int(x.n)+int(x.w)-1, x.n, refName(x.a))
	case OZext:
		return fmt.Sprintf("((_ zero_extend %d) %s)", x.w-x.a.w, refName(x.a))
	case OSext:
		return fmt.Sprintf("((_ sign_extend %d) %s)", x.w-x.a.w, refName(x.a))
	}
	var sb strings.Builder
	sb.WriteString("(" + opNames[x.op])
	for _, y := range []*Term{x.a, x.b, x.c} {
		if y != nil {
			sb.WriteString(" " + refName(y))
		}
	}
	sb.WriteString(")")
	return sb.String()
}
