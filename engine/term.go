package main

// Hash-consed SMT terms over booleans, bit-vectors and IEEE floats, with a
// rewriting simplifier. Terms live for one execution path.

import (
	"fmt"
	"math"
	"math/big"
	"math/bits"
	"strconv"
	"strings"
)

type SortKind uint8

const (
	SBool SortKind = iota
	SBV
	SFP
)

type Sort struct {
	K SortKind
	W uint8 // width in bits for BV and FP
}

var (
	BoolSort = Sort{SBool, 0}
	BV8      = Sort{SBV, 8}
	BV16     = Sort{SBV, 16}
	BV32     = Sort{SBV, 32}
	BV64     = Sort{SBV, 64}
	FP64     = Sort{SFP, 64}
	FP32     = Sort{SFP, 32}
)

func (s Sort) String() string {
	switch s.K {
	case SBool:
		return "Bool"
	case SBV:
		return "(_ BitVec " + strconv.Itoa(int(s.W)) + ")"
	}
	if s.W == 64 {
		return "(_ FloatingPoint 11 53)"
	}
	return "(_ FloatingPoint 8 24)"
}

type Op uint8

const (
	OpConst Op = iota
	OpVar
	OpNot
	OpAnd
	OpOr
	OpIte
	OpEq
	OpAdd
	OpSub
	OpMul
	OpUDiv
	OpURem
	OpSDiv
	OpSRem
	OpBAnd
	OpBOr
	OpBXor
	OpBNot
	OpNeg
	OpShl
	OpLShr
	OpAShr
	OpUlt
	OpUle
	OpSlt
	OpSle
	OpConcat
	OpExtract // val = hi<<8|lo
	OpZext
	OpSext
	OpFAdd
	OpFSub
	OpFMul
	OpFDiv
	OpFNeg
	OpFAbs
	OpFSqrt
	OpFRound // val = rounding mode: 0 RNE 1 RNA 2 RTP 3 RTN 4 RTZ (round to integral)
	OpFLt
	OpFLe
	OpFEq
	OpFIsNaN
	OpFToFP   // fp -> fp
	OpSToFP   // signed bv -> fp
	OpUToFP   // unsigned bv -> fp
	OpFToS    // fp -> signed bv (RTZ, in range)
	OpFToU    // fp -> unsigned bv
	OpBitsToF // ieee bits -> fp
	OpFToBits // fp -> ieee bits
	OpUF      // uninterpreted function, name
)

var smtOp = map[Op]string{
	OpNot: "not", OpAnd: "and", OpOr: "or", OpIte: "ite", OpEq: "=",
	OpAdd: "bvadd", OpSub: "bvsub", OpMul: "bvmul", OpUDiv: "bvudiv", OpURem: "bvurem", OpSDiv: "bvsdiv", OpSRem: "bvsrem",
	OpBAnd: "bvand", OpBOr: "bvor", OpBXor: "bvxor", OpBNot: "bvnot", OpNeg: "bvneg", OpShl: "bvshl", OpLShr: "bvlshr", OpAShr: "bvashr",
	OpUlt: "bvult", OpUle: "bvule", OpSlt: "bvslt", OpSle: "bvsle", OpConcat: "concat",
	OpFAdd: "fp.add RNE", OpFSub: "fp.sub RNE", OpFMul: "fp.mul RNE", OpFDiv: "fp.div RNE", OpFNeg: "fp.neg", OpFAbs: "fp.abs", OpFSqrt: "fp.sqrt RNE",
	OpFLt: "fp.lt", OpFLe: "fp.leq", OpFEq: "fp.eq", OpFIsNaN: "fp.isNaN",
	OpFToBits: "fp.to_ieee_bv",
}

type Term struct {
	op    Op
	s     Sort
	args  []*Term
	val   uint64
	name  string
	id    int32
	nv    uint8 // 0 constants only, 1 exactly one variable, 2 many (or UF)
	v     *Term // that variable
	shown int32 // solver scope in which it is already defined
}

type tkey struct {
	op         Op
	s          Sort
	a0, a1, a2 int32
	val        uint64
	name       string
}

type Pool struct {
	tab  map[tkey]*Term
	next int32
	vars []*Term
	ufs  map[string]string // uf declarations
	T, F *Term
}

func NewPool() *Pool {
	p := &Pool{tab: map[tkey]*Term{}, ufs: map[string]string{}}
	p.T = p.mk(OpConst, BoolSort, 1, "")
	p.F = p.mk(OpConst, BoolSort, 0, "")
	return p
}

func (p *Pool) mk(op Op, s Sort, val uint64, name string, args ...*Term) *Term {
	k := tkey{op: op, s: s, val: val, name: name, a0: -1, a1: -1, a2: -1}
	switch len(args) {
	case 0:
	case 1:
		k.a0 = args[0].id
	case 2:
		k.a0, k.a1 = args[0].id, args[1].id
	case 3:
		k.a0, k.a1, k.a2 = args[0].id, args[1].id, args[2].id
	default:
		var b strings.Builder
		b.WriteString(name)
		for _, a := range args {
			fmt.Fprintf(&b, ",%d", a.id)
		}
		k.name = b.String()
	}
	if t, ok := p.tab[k]; ok {
		return t
	}
	t := &Term{op: op, s: s, val: val, name: name, id: p.next}
	if len(args) > 0 {
		t.args = append([]*Term(nil), args...)
	}
	p.next++
	switch op {
	case OpConst:
	case OpVar:
		t.nv, t.v = 1, t
	default:
		for _, a := range args {
			switch {
			case a.nv == 0:
			case a.nv == 2:
				t.nv, t.v = 2, nil
			case t.nv == 0:
				t.nv, t.v = 1, a.v
			case t.nv == 1 && t.v != a.v:
				t.nv, t.v = 2, nil
			}
		}
		if op == OpUF {
			t.nv, t.v = 2, nil
		}
	}
	p.tab[k] = t
	return t
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (1 << w) - 1
}

func sx(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := 64 - w
	return int64(v<<sh) >> sh
}

func (p *Pool) Bool(b bool) *Term {
	if b {
		return p.T
	}
	return p.F
}
func (p *Pool) BV(w uint8, v uint64) *Term { return p.mk(OpConst, Sort{SBV, w}, v&mask(w), "") }
func (p *Pool) FP(w uint8, f float64) *Term {
	if f != f {
		f = math.NaN()
	}
	if w == 32 {
		f = float64(float32(f))
	}
	return p.mk(OpConst, Sort{SFP, w}, math.Float64bits(f), "")
}
func (t *Term) f() float64    { return math.Float64frombits(t.val) }
func (t *Term) isC() bool     { return t.op == OpConst }
func (t *Term) isTrue() bool  { return t.op == OpConst && t.s.K == SBool && t.val == 1 }
func (t *Term) isFalse() bool { return t.op == OpConst && t.s.K == SBool && t.val == 0 }

func (p *Pool) Var(name string, s Sort) *Term {
	n := len(p.tab)
	t := p.mk(OpVar, s, 0, name)
	if len(p.tab) != n {
		p.vars = append(p.vars, t)
	}
	return t
}

func (p *Pool) UF(name string, s Sort, args ...*Term) *Term {
	if _, ok := p.ufs[name]; !ok {
		var b strings.Builder
		fmt.Fprintf(&b, "(declare-fun %s (", name)
		for i, a := range args {
			if i > 0 {
				b.WriteByte(' ')
			}
			b.WriteString(a.s.String())
		}
		fmt.Fprintf(&b, ") %s)", s)
		p.ufs[name] = b.String()
	}
	return p.mk(OpUF, s, 0, name, args...)
}

func (p *Pool) Not(a *Term) *Term {
	switch {
	case a.isC():
		return p.Bool(a.val == 0)
	case a.op == OpNot:
		return a.args[0]
	}
	return p.mk(OpNot, BoolSort, 0, "", a)
}

func (p *Pool) And(a, b *Term) *Term {
	switch {
	case a.isFalse() || b.isFalse():
		return p.F
	case a.isTrue():
		return b
	case b.isTrue():
		return a
	case a == b:
		return a
	case p.Not(a) == b:
		return p.F
	}
	if a.id > b.id {
		a, b = b, a
	}
	return p.mk(OpAnd, BoolSort, 0, "", a, b)
}

func (p *Pool) Or(a, b *Term) *Term {
	switch {
	case a.isTrue() || b.isTrue():
		return p.T
	case a.isFalse():
		return b
	case b.isFalse():
		return a
	case a == b:
		return a
	case p.Not(a) == b:
		return p.T
	}
	if a.id > b.id {
		a, b = b, a
	}
	return p.mk(OpOr, BoolSort, 0, "", a, b)
}

func (p *Pool) Ite(c, a, b *Term) *Term {
	switch {
	case c.isTrue():
		return a
	case c.isFalse():
		return b
	case a == b:
		return a
	}
	if c.op == OpNot {
		return p.Ite(c.args[0], b, a)
	}
	if a.s.K == SBool {
		switch {
		case a.isTrue():
			return p.Or(c, b)
		case a.isFalse():
			return p.And(p.Not(c), b)
		case b.isTrue():
			return p.Or(p.Not(c), a)
		case b.isFalse():
			return p.And(c, a)
		}
	}
	return p.mk(OpIte, a.s, 0, "", c, a, b)
}

// Eq is identity (SMT =). For floats use FEq for Go ==.
func (p *Pool) Eq(a, b *Term) *Term {
	if a == b {
		return p.T
	}
	if a.isC() && b.isC() {
		return p.Bool(a.val == b.val)
	}
	if a.isC() {
		a, b = b, a
	}
	if a.s.K == SBool {
		if b.isTrue() {
			return a
		}
		if b.isFalse() {
			return p.Not(a)
		}
	}
	if b.isC() && a.s.K == SBV {
		switch a.op {
		case OpZext:
			in := a.args[0]
			if b.val&^mask(in.s.W) != 0 {
				return p.F
			}
			return p.Eq(in, p.BV(in.s.W, b.val))
		case OpSext:
			in := a.args[0]
			if uint64(sx(b.val, in.s.W))&mask(a.s.W) != b.val {
				return p.F
			}
			return p.Eq(in, p.BV(in.s.W, b.val))
		case OpAdd:
			if a.args[1].isC() {
				return p.Eq(a.args[0], p.BV(a.s.W, b.val-a.args[1].val))
			}
		case OpBXor:
			if a.args[1].isC() {
				return p.Eq(a.args[0], p.BV(a.s.W, b.val^a.args[1].val))
			}
		case OpNeg:
			return p.Eq(a.args[0], p.BV(a.s.W, -b.val))
		case OpConcat:
			w := a.args[1].s.W
			return p.And(p.Eq(a.args[0], p.BV(a.args[0].s.W, b.val>>w)), p.Eq(a.args[1], p.BV(w, b.val)))
		}
	}
	if b.isC() && a.op == OpIte {
		x, y := a.args[1], a.args[2]
		if x.isC() || y.isC() {
			return p.Ite(a.args[0], p.Eq(x, b), p.Eq(y, b))
		}
	}
	if a.op == b.op && (a.op == OpZext || a.op == OpSext) && a.args[0].s == b.args[0].s {
		return p.Eq(a.args[0], b.args[0])
	}
	if a.id > b.id && !b.isC() {
		a, b = b, a
	}
	return p.mk(OpEq, BoolSort, 0, "", a, b)
}

func (p *Pool) bin(op Op, a, b *Term) *Term { return p.mk(op, a.s, 0, "", a, b) }

func (p *Pool) comm(a, b *Term) (*Term, *Term) {
	if a.isC() || (!b.isC() && a.id > b.id) {
		return b, a
	}
	return a, b
}

func (p *Pool) Add(a, b *Term) *Term {
	w := a.s.W
	if a.isC() && b.isC() {
		return p.BV(w, a.val+b.val)
	}
	a, b = p.comm(a, b)
	if b.isC() {
		if b.val == 0 {
			return a
		}
		if a.op == OpAdd && a.args[1].isC() {
			return p.Add(a.args[0], p.BV(w, a.args[1].val+b.val))
		}
	}
	return p.bin(OpAdd, a, b)
}
func (p *Pool) Sub(a, b *Term) *Term {
	if a == b {
		return p.BV(a.s.W, 0)
	}
	if b.isC() {
		return p.Add(a, p.BV(a.s.W, -b.val))
	}
	if a.isC() && a.val == 0 {
		return p.Neg(b)
	}
	if b.op == OpMul && b.args[1].isC() && b.args[0].op == OpUDiv && p.Div(OpUDiv, a, b.args[1]) == b.args[0] { // x - (x/c)*c
		return p.Div(OpURem, a, b.args[1])
	}
	return p.bin(OpSub, a, b)
}
func (p *Pool) Neg(a *Term) *Term {
	if a.isC() {
		return p.BV(a.s.W, -a.val)
	}
	if a.op == OpNeg {
		return a.args[0]
	}
	return p.mk(OpNeg, a.s, 0, "", a)
}
func (p *Pool) Mul(a, b *Term) *Term {
	if a.isC() && b.isC() {
		return p.BV(a.s.W, a.val*b.val)
	}
	a, b = p.comm(a, b)
	if b.isC() {
		if b.val == 0 {
			return b
		}
		if b.val == 1 {
			return a
		}
		if bits.OnesCount64(b.val) == 1 {
			return p.Shl(a, p.BV(a.s.W, uint64(bits.TrailingZeros64(b.val))))
		}
	}
	return p.bin(OpMul, a, b)
}
func (p *Pool) Div(op Op, a, b *Term) *Term {
	w := a.s.W
	if a.isC() && b.isC() && b.val != 0 {
		switch op {
		case OpUDiv:
			return p.BV(w, a.val/b.val)
		case OpURem:
			return p.BV(w, a.val%b.val)
		case OpSDiv:
			if sx(b.val, w) == -1 {
				return p.BV(w, -a.val)
			}
			return p.BV(w, uint64(sx(a.val, w)/sx(b.val, w)))
		case OpSRem:
			if sx(b.val, w) == -1 {
				return p.BV(w, 0)
			}
			return p.BV(w, uint64(sx(a.val, w)%sx(b.val, w)))
		}
	}
	if b.isC() && b.val == 1 {
		if op == OpUDiv || op == OpSDiv {
			return a
		}
		return p.BV(w, 0)
	}
	if b.isC() && b.val != 0 && bits.OnesCount64(b.val) == 1 {
		if op == OpUDiv {
			return p.LShr(a, p.BV(w, uint64(bits.TrailingZeros64(b.val))))
		}
		if op == OpURem {
			return p.BAnd(a, p.BV(w, b.val-1))
		}
	}
	if b.isC() && b.val != 0 {
		if op == OpURem && umax(a) < b.val {
			return a
		}
		if op == OpUDiv && umax(a) < b.val {
			return p.BV(w, 0)
		}
		if op == OpUDiv && a.op == OpUDiv && a.args[1].isC() && a.args[1].val != 0 { // (x/c)/d = x/(c*d)
			hi, lo := bits.Mul64(a.args[1].val, b.val)
			if hi != 0 || lo > mask(w) {
				return p.BV(w, 0)
			}
			return p.Div(OpUDiv, a.args[0], p.BV(w, lo))
		}
	}
	return p.bin(op, a, b)
}
func (p *Pool) BAnd(a, b *Term) *Term {
	if a.isC() && b.isC() {
		return p.BV(a.s.W, a.val&b.val)
	}
	a, b = p.comm(a, b)
	if a == b {
		return a
	}
	if b.isC() {
		if b.val == 0 {
			return b
		}
		if b.val == mask(a.s.W) {
			return a
		}
		if a.op == OpZext && b.val&mask(a.args[0].s.W) == mask(a.args[0].s.W) {
			return a
		}
	}
	return p.bin(OpBAnd, a, b)
}
func (p *Pool) BOr(a, b *Term) *Term {
	if a.isC() && b.isC() {
		return p.BV(a.s.W, a.val|b.val)
	}
	a, b = p.comm(a, b)
	if a == b || (b.isC() && b.val == 0) {
		return a
	}
	if b.isC() && b.val == mask(a.s.W) {
		return b
	}
	return p.bin(OpBOr, a, b)
}
func (p *Pool) BXor(a, b *Term) *Term {
	if a.isC() && b.isC() {
		return p.BV(a.s.W, a.val^b.val)
	}
	a, b = p.comm(a, b)
	if a == b {
		return p.BV(a.s.W, 0)
	}
	if b.isC() && b.val == 0 {
		return a
	}
	return p.bin(OpBXor, a, b)
}
func (p *Pool) BNot(a *Term) *Term {
	if a.isC() {
		return p.BV(a.s.W, ^a.val)
	}
	if a.op == OpBNot {
		return a.args[0]
	}
	return p.mk(OpBNot, a.s, 0, "", a)
}
func (p *Pool) Shl(a, b *Term) *Term {
	w := a.s.W
	if b.isC() {
		if b.val == 0 {
			return a
		}
		if b.val >= uint64(w) {
			return p.BV(w, 0)
		}
		if a.isC() {
			return p.BV(w, a.val<<b.val)
		}
	}
	return p.bin(OpShl, a, b)
}
func (p *Pool) LShr(a, b *Term) *Term {
	w := a.s.W
	if b.isC() {
		if b.val == 0 {
			return a
		}
		if b.val >= uint64(w) {
			return p.BV(w, 0)
		}
		if a.isC() {
			return p.BV(w, a.val>>b.val)
		}
		if a.op == OpZext && b.val >= uint64(a.args[0].s.W) {
			return p.BV(w, 0)
		}
	}
	return p.bin(OpLShr, a, b)
}
func (p *Pool) AShr(a, b *Term) *Term {
	w := a.s.W
	if b.isC() {
		if b.val == 0 {
			return a
		}
		sh := b.val
		if sh >= uint64(w) {
			sh = uint64(w) - 1
		}
		if a.isC() {
			return p.BV(w, uint64(sx(a.val, w)>>sh))
		}
	}
	return p.bin(OpAShr, a, b)
}

// umax is an upper bound of the unsigned value of t.
func umax(t *Term) uint64 { return umaxAt(t, 12) }

func umaxAt(t *Term, depth int) uint64 {
	all := mask(t.s.W)
	if depth == 0 {
		return all
	}
	depth--
	switch t.op {
	case OpConst:
		return t.val
	case OpZext:
		return umaxAt(t.args[0], depth)
	case OpIte:
		return max(umaxAt(t.args[1], depth), umaxAt(t.args[2], depth))
	case OpBAnd:
		return min(umaxAt(t.args[0], depth), umaxAt(t.args[1], depth))
	case OpURem:
		if c := t.args[1]; c.isC() && c.val != 0 {
			return min(c.val-1, umaxAt(t.args[0], depth))
		}
	case OpUDiv:
		if c := t.args[1]; c.isC() && c.val != 0 {
			return umaxAt(t.args[0], depth) / c.val
		}
	case OpLShr:
		if c := t.args[1]; c.isC() && c.val < 64 {
			return umaxAt(t.args[0], depth) >> c.val
		}
	case OpMul:
		if hi, lo := bits.Mul64(umaxAt(t.args[0], depth), umaxAt(t.args[1], depth)); hi == 0 && lo <= all {
			return lo
		}
	case OpShl:
		if c := t.args[1]; c.isC() && c.val < 64 {
			if hi, lo := bits.Mul64(umaxAt(t.args[0], depth), 1<<c.val); hi == 0 && lo <= all {
				return lo
			}
		}
	case OpAdd:
		if lo, hi := bits.Add64(umaxAt(t.args[0], depth), umaxAt(t.args[1], depth), 0); hi == 0 && lo <= all {
			return lo
		}
	}
	return all
}

func (p *Pool) Ult(a, b *Term) *Term {
	if a == b {
		return p.F
	}
	if a.isC() && b.isC() {
		return p.Bool(a.val < b.val)
	}
	if b.isC() && b.val == 0 {
		return p.F
	}
	if a.op == OpZext && b.isC() {
		in := a.args[0]
		if b.val > mask(in.s.W) {
			return p.T
		}
		return p.Ult(in, p.BV(in.s.W, b.val))
	}
	if b.op == OpZext && a.isC() {
		in := b.args[0]
		if a.val >= mask(in.s.W) {
			return p.F
		}
		return p.Ult(p.BV(in.s.W, a.val), in)
	}
	if a.op == OpZext && b.op == OpZext && a.args[0].s == b.args[0].s {
		return p.Ult(a.args[0], b.args[0])
	}
	if b.isC() && umax(a) < b.val {
		return p.T
	}
	if a.isC() && umax(b) <= a.val {
		return p.F
	}
	if b.isC() && a.op == OpUDiv && a.args[1].isC() && a.args[1].val != 0 { // x/c < k: x < c*k
		hi, lo := bits.Mul64(a.args[1].val, b.val)
		if hi != 0 || lo > mask(a.s.W) {
			return p.T
		}
		return p.Ult(a.args[0], p.BV(a.s.W, lo))
	}
	if a.isC() && b.op == OpUDiv && b.args[1].isC() && b.args[1].val != 0 { // k < x/c: x >= c*(k+1)
		hi, lo := bits.Mul64(b.args[1].val, a.val+1)
		if a.val == mask(b.s.W) || hi != 0 || lo > mask(b.s.W) {
			return p.F
		}
		return p.Not(p.Ult(b.args[0], p.BV(b.s.W, lo)))
	}
	return p.mk(OpUlt, BoolSort, 0, "", a, b)
}
func (p *Pool) Ule(a, b *Term) *Term { return p.Not(p.Ult(b, a)) }
func (p *Pool) Slt(a, b *Term) *Term {
	if a == b {
		return p.F
	}
	w := a.s.W
	if a.isC() && b.isC() {
		return p.Bool(sx(a.val, w) < sx(b.val, w))
	}
	if top := mask(w) >> 1; umax(a) <= top && umax(b) <= top { // neither is negative
		return p.Ult(a, b)
	}
	if a.op == OpZext && b.isC() { // a >= 0
		if sx(b.val, w) <= 0 {
			return p.F
		}
		return p.Ult(a, b)
	}
	if b.op == OpZext && a.isC() {
		if sx(a.val, w) < 0 {
			return p.T
		}
		return p.Ult(a, b)
	}
	if a.op == OpZext && b.op == OpZext && a.args[0].s == b.args[0].s {
		return p.Ult(a.args[0], b.args[0])
	}
	return p.mk(OpSlt, BoolSort, 0, "", a, b)
}
func (p *Pool) Sle(a, b *Term) *Term { return p.Not(p.Slt(b, a)) }

func (p *Pool) Extract(hi, lo uint8, a *Term) *Term {
	w := hi - lo + 1
	if w == a.s.W {
		return a
	}
	if a.isC() {
		return p.BV(w, a.val>>lo)
	}
	switch a.op {
	case OpExtract:
		l0 := uint8(a.val)
		return p.Extract(hi+l0, lo+l0, a.args[0])
	case OpZext:
		in := a.args[0]
		if lo >= in.s.W {
			return p.BV(w, 0)
		}
		if hi < in.s.W {
			return p.Extract(hi, lo, in)
		}
		if lo == 0 {
			return p.Zext(w, in)
		}
	case OpSext:
		in := a.args[0]
		if hi < in.s.W {
			return p.Extract(hi, lo, in)
		}
		if lo == 0 {
			return p.Sext(w, in)
		}
	case OpConcat:
		lw := a.args[1].s.W
		if hi < lw {
			return p.Extract(hi, lo, a.args[1])
		}
		if lo >= lw {
			return p.Extract(hi-lw, lo-lw, a.args[0])
		}
	case OpIte:
		if a.args[1].isC() && a.args[2].isC() {
			return p.Ite(a.args[0], p.Extract(hi, lo, a.args[1]), p.Extract(hi, lo, a.args[2]))
		}
	case OpAdd, OpSub, OpMul, OpBAnd, OpBOr, OpBXor:
		if lo == 0 {
			x, y := p.Extract(hi, 0, a.args[0]), p.Extract(hi, 0, a.args[1])
			switch a.op {
			case OpAdd:
				return p.Add(x, y)
			case OpSub:
				return p.Sub(x, y)
			case OpMul:
				return p.Mul(x, y)
			case OpBAnd:
				return p.BAnd(x, y)
			case OpBOr:
				return p.BOr(x, y)
			case OpBXor:
				return p.BXor(x, y)
			}
		}
	}
	return p.mk(OpExtract, Sort{SBV, w}, uint64(hi)<<8|uint64(lo), "", a)
}
func (p *Pool) Zext(w uint8, a *Term) *Term {
	if w == a.s.W {
		return a
	}
	if a.isC() {
		return p.BV(w, a.val)
	}
	if a.op == OpZext {
		return p.Zext(w, a.args[0])
	}
	if a.op == OpIte && a.args[1].isC() && a.args[2].isC() {
		return p.Ite(a.args[0], p.Zext(w, a.args[1]), p.Zext(w, a.args[2]))
	}
	return p.mk(OpZext, Sort{SBV, w}, uint64(w-a.s.W), "", a)
}
func (p *Pool) Sext(w uint8, a *Term) *Term {
	if w == a.s.W {
		return a
	}
	if a.isC() {
		return p.BV(w, uint64(sx(a.val, a.s.W)))
	}
	if a.op == OpSext {
		return p.Sext(w, a.args[0])
	}
	if a.op == OpZext {
		return p.Zext(w, a.args[0])
	}
	return p.mk(OpSext, Sort{SBV, w}, uint64(w-a.s.W), "", a)
}
func (p *Pool) Concat(hi, lo *Term) *Term {
	w := hi.s.W + lo.s.W
	if hi.isC() && lo.isC() {
		return p.BV(w, hi.val<<lo.s.W|lo.val)
	}
	if hi.op == OpExtract && lo.op == OpExtract && hi.args[0] == lo.args[0] && uint8(hi.val) == uint8(lo.val>>8)+1 {
		return p.Extract(uint8(hi.val>>8), uint8(lo.val), hi.args[0])
	}
	if hi.isC() && hi.val == 0 {
		return p.Zext(w, lo)
	}
	return p.mk(OpConcat, Sort{SBV, w}, 0, "", hi, lo)
}

func (p *Pool) fc(w uint8, f float64) *Term { return p.FP(w, f) }

func (p *Pool) FBin(op Op, a, b *Term) *Term {
	if a.isC() && b.isC() {
		x, y := a.f(), b.f()
		if a.s.W == 32 {
			x32, y32 := float32(x), float32(y)
			switch op {
			case OpFAdd:
				return p.FP(32, float64(x32+y32))
			case OpFSub:
				return p.FP(32, float64(x32-y32))
			case OpFMul:
				return p.FP(32, float64(x32*y32))
			case OpFDiv:
				return p.FP(32, float64(x32/y32))
			}
		}
		switch op {
		case OpFAdd:
			return p.FP(64, x+y)
		case OpFSub:
			return p.FP(64, x-y)
		case OpFMul:
			return p.FP(64, x*y)
		case OpFDiv:
			return p.FP(64, x/y)
		}
	}
	if op == OpFAdd || op == OpFMul {
		a, b = p.comm(a, b)
	}
	return p.bin(op, a, b)
}
func (p *Pool) FCmp(op Op, a, b *Term) *Term {
	if a.isC() && b.isC() {
		x, y := a.f(), b.f()
		switch op {
		case OpFLt:
			return p.Bool(x < y)
		case OpFLe:
			return p.Bool(x <= y)
		case OpFEq:
			return p.Bool(x == y)
		}
	}
	if op == OpFEq {
		a, b = p.comm(a, b)
	}
	return p.mk(op, BoolSort, 0, "", a, b)
}
func (p *Pool) FNeg(a *Term) *Term {
	if a.isC() {
		return p.FP(a.s.W, -a.f())
	}
	if a.op == OpFNeg {
		return a.args[0]
	}
	return p.mk(OpFNeg, a.s, 0, "", a)
}
func (p *Pool) FUn(op Op, a *Term, val uint64) *Term {
	if a.isC() {
		x := a.f()
		switch op {
		case OpFAbs:
			return p.FP(a.s.W, math.Abs(x))
		case OpFSqrt:
			return p.FP(a.s.W, math.Sqrt(x))
		case OpFIsNaN:
			return p.Bool(x != x)
		case OpFRound:
			switch val {
			case 0:
				return p.FP(a.s.W, math.RoundToEven(x))
			case 1:
				return p.FP(a.s.W, math.Round(x))
			case 2:
				return p.FP(a.s.W, math.Ceil(x))
			case 3:
				return p.FP(a.s.W, math.Floor(x))
			case 4:
				return p.FP(a.s.W, math.Trunc(x))
			}
		}
	}
	s := a.s
	if op == OpFIsNaN {
		s = BoolSort
	}
	return p.mk(op, s, val, "", a)
}
func (p *Pool) FToFP(w uint8, a *Term) *Term {
	if a.s.W == w {
		return a
	}
	if a.isC() {
		return p.FP(w, a.f())
	}
	return p.mk(OpFToFP, Sort{SFP, w}, 0, "", a)
}
func (p *Pool) IToFP(w uint8, a *Term, signed bool) *Term {
	if a.isC() {
		if w == 32 {
			if signed {
				return p.FP(32, float64(float32(sx(a.val, a.s.W))))
			}
			return p.FP(32, float64(float32(a.val)))
		}
		if signed {
			return p.FP(64, float64(sx(a.val, a.s.W)))
		}
		return p.FP(64, float64(a.val))
	}
	op := OpUToFP
	if signed {
		op = OpSToFP
	}
	return p.mk(op, Sort{SFP, w}, 0, "", a)
}

// FToI models the amd64 conversion of a float to a w-bit signed integer (via int64).
func (p *Pool) FToI(w uint8, a *Term, signed bool) *Term {
	if a.isC() {
		f := a.f()
		if signed || f < 9.2e18 {
			return p.BV(w, uint64(int64(f)))
		}
		return p.BV(w, uint64(f))
	}
	d := p.FToFP(64, a)
	inr := p.And(p.FCmp(OpFLe, p.FP(64, -9223372036854775808), d), p.FCmp(OpFLt, d, p.FP(64, 9223372036854775808)))
	r := p.Ite(inr, p.mk(OpFToS, BV64, 0, "", d), p.BV(64, 1<<63))
	if !signed && w == 64 {
		inu := p.And(p.FCmp(OpFLe, p.FP(64, 9223372036854775808), d), p.FCmp(OpFLt, d, p.FP(64, 18446744073709551616)))
		r = p.Ite(inu, p.mk(OpFToU, BV64, 0, "", d), r)
	}
	if w < 64 {
		return p.Extract(w-1, 0, r)
	}
	return r
}
func (p *Pool) BitsToF(a *Term) *Term {
	if a.isC() {
		if a.s.W == 32 {
			return p.FP(32, float64(math.Float32frombits(uint32(a.val))))
		}
		return p.FP(64, math.Float64frombits(a.val))
	}
	if a.op == OpFToBits {
		return a.args[0]
	}
	return p.mk(OpBitsToF, Sort{SFP, a.s.W}, 0, "", a)
}
func (p *Pool) FToBits(a *Term) *Term {
	if a.isC() {
		if a.s.W == 32 {
			return p.BV(32, uint64(math.Float32bits(float32(a.f()))))
		}
		return p.BV(64, a.val)
	}
	if a.op == OpBitsToF {
		return a.args[0]
	}
	return p.mk(OpFToBits, Sort{SBV, a.s.W}, 0, "", a)
}

// ---- SMT-LIB printing ----

func bvLit(w uint8, v uint64) string {
	if w%4 == 0 {
		return fmt.Sprintf("#x%0*x", int(w/4), v)
	}
	return fmt.Sprintf("(_ bv%d %d)", v, w)
}

func fpLit(w uint8, f float64) string {
	eb, sb := 11, 53
	if w == 32 {
		eb, sb = 8, 24
	}
	switch {
	case f != f:
		return fmt.Sprintf("(_ NaN %d %d)", eb, sb)
	case math.IsInf(f, 1):
		return fmt.Sprintf("(_ +oo %d %d)", eb, sb)
	case math.IsInf(f, -1):
		return fmt.Sprintf("(_ -oo %d %d)", eb, sb)
	}
	if w == 64 {
		b := math.Float64bits(f)
		return fmt.Sprintf("(fp #b%d #b%011b #b%052b)", b>>63, b>>52&0x7ff, b&(1<<52-1))
	}
	b := math.Float32bits(float32(f))
	return fmt.Sprintf("(fp #b%d #b%08b #b%023b)", b>>31, b>>23&0xff, b&(1<<23-1))
}

func (t *Term) ref() string {
	switch t.op {
	case OpConst:
		switch t.s.K {
		case SBool:
			if t.val == 1 {
				return "true"
			}
			return "false"
		case SBV:
			return bvLit(t.s.W, t.val)
		}
		return fpLit(t.s.W, t.f())
	case OpVar:
		return "|" + t.name + "|"
	}
	return "t" + strconv.Itoa(int(t.id))
}

var rms = []string{"RNE", "RNA", "RTP", "RTN", "RTZ"}

func (t *Term) body(b *strings.Builder) {
	b.WriteByte('(')
	switch t.op {
	case OpExtract:
		fmt.Fprintf(b, "(_ extract %d %d)", t.val>>8, t.val&255)
	case OpZext:
		fmt.Fprintf(b, "(_ zero_extend %d)", t.val)
	case OpSext:
		fmt.Fprintf(b, "(_ sign_extend %d)", t.val)
	case OpFRound:
		b.WriteString("fp.roundToIntegral " + rms[t.val])
	case OpFToFP, OpSToFP:
		b.WriteString(toFP(t.s.W, "to_fp") + " RNE")
	case OpUToFP:
		b.WriteString(toFP(t.s.W, "to_fp_unsigned") + " RNE")
	case OpBitsToF:
		b.WriteString(toFP(t.s.W, "to_fp"))
	case OpFToS:
		fmt.Fprintf(b, "(_ fp.to_sbv %d) RTZ", t.s.W)
	case OpFToU:
		fmt.Fprintf(b, "(_ fp.to_ubv %d) RTZ", t.s.W)
	case OpUF:
		b.WriteString(t.name)
	default:
		b.WriteString(smtOp[t.op])
	}
	for _, a := range t.args {
		b.WriteByte(' ')
		b.WriteString(a.ref())
	}
	b.WriteByte(')')
}

func toFP(w uint8, n string) string {
	if w == 64 {
		return "(_ " + n + " 11 53)"
	}
	return "(_ " + n + " 8 24)"
}

// ---- evaluation under a model ----

type Model map[*Term]uint64 // variable -> bits (floats as float64 bits)

// eval evaluates t; ok=false when it contains an uninterpreted function.
func (p *Pool) eval(t *Term, m Model, memo map[*Term]*Term) (*Term, bool) {
	if t.isC() {
		return t, true
	}
	if r, ok := memo[t]; ok {
		return r, r != nil
	}
	if t.op == OpVar {
		v := m[t]
		var r *Term
		switch t.s.K {
		case SBool:
			r = p.Bool(v != 0)
		case SBV:
			r = p.BV(t.s.W, v)
		default:
			r = p.FP(t.s.W, math.Float64frombits(v))
		}
		memo[t] = r
		return r, true
	}
	if t.op == OpUF {
		memo[t] = nil
		return nil, false
	}
	var as [3]*Term
	for i, a := range t.args {
		r, ok := p.eval(a, m, memo)
		if !ok {
			memo[t] = nil
			return nil, false
		}
		as[i] = r
	}
	r := p.rebuild(t, as[:len(t.args)])
	if !r.isC() {
		memo[t] = nil
		return nil, false
	}
	memo[t] = r
	return r, true
}

func (p *Pool) rebuild(t *Term, a []*Term) *Term {
	switch t.op {
	case OpNot:
		return p.Not(a[0])
	case OpAnd:
		return p.And(a[0], a[1])
	case OpOr:
		return p.Or(a[0], a[1])
	case OpIte:
		return p.Ite(a[0], a[1], a[2])
	case OpEq:
		return p.Eq(a[0], a[1])
	case OpAdd:
		return p.Add(a[0], a[1])
	case OpSub:
		return p.Sub(a[0], a[1])
	case OpMul:
		return p.Mul(a[0], a[1])
	case OpUDiv, OpURem, OpSDiv, OpSRem:
		return p.Div(t.op, a[0], a[1])
	case OpBAnd:
		return p.BAnd(a[0], a[1])
	case OpBOr:
		return p.BOr(a[0], a[1])
	case OpBXor:
		return p.BXor(a[0], a[1])
	case OpBNot:
		return p.BNot(a[0])
	case OpNeg:
		return p.Neg(a[0])
	case OpShl:
		return p.Shl(a[0], a[1])
	case OpLShr:
		return p.LShr(a[0], a[1])
	case OpAShr:
		return p.AShr(a[0], a[1])
	case OpUlt:
		return p.Ult(a[0], a[1])
	case OpSlt:
		return p.Slt(a[0], a[1])
	case OpConcat:
		return p.Concat(a[0], a[1])
	case OpExtract:
		return p.Extract(uint8(t.val>>8), uint8(t.val), a[0])
	case OpZext:
		return p.Zext(t.s.W, a[0])
	case OpSext:
		return p.Sext(t.s.W, a[0])
	case OpFAdd, OpFSub, OpFMul, OpFDiv:
		return p.FBin(t.op, a[0], a[1])
	case OpFNeg:
		return p.FNeg(a[0])
	case OpFAbs, OpFSqrt, OpFRound, OpFIsNaN:
		return p.FUn(t.op, a[0], t.val)
	case OpFLt, OpFLe, OpFEq:
		return p.FCmp(t.op, a[0], a[1])
	case OpFToFP:
		return p.FToFP(t.s.W, a[0])
	case OpSToFP:
		return p.IToFP(t.s.W, a[0], true)
	case OpUToFP:
		return p.IToFP(t.s.W, a[0], false)
	case OpFToS:
		return p.BV(t.s.W, uint64(int64(a[0].f())))
	case OpFToU:
		return p.BV(t.s.W, uint64(a[0].f()))
	case OpBitsToF:
		return p.BitsToF(a[0])
	case OpFToBits:
		return p.FToBits(a[0])
	}
	panic("rebuild")
}

// parseLit parses an SMT-LIB value into bits.
func parseLit(s Sort, v string) (uint64, bool) {
	v = strings.TrimSpace(v)
	switch s.K {
	case SBool:
		return map[string]uint64{"true": 1, "false": 0}[v], v == "true" || v == "false"
	case SBV:
		return parseBV(v)
	}
	eb, sb := 11, 53
	if s.W == 32 {
		eb, sb = 8, 24
	}
	switch {
	case strings.Contains(v, "NaN"):
		return math.Float64bits(math.NaN()), true
	case strings.Contains(v, "+oo"):
		return math.Float64bits(math.Inf(1)), true
	case strings.Contains(v, "-oo"):
		return math.Float64bits(math.Inf(-1)), true
	case strings.Contains(v, "+zero"):
		return 0, true
	case strings.Contains(v, "-zero"):
		return 1 << 63, true
	}
	v = strings.TrimSuffix(strings.TrimPrefix(v, "("), ")")
	f := strings.Fields(v)
	if len(f) != 4 || f[0] != "fp" {
		return 0, false
	}
	sg, ok1 := parseBV(f[1])
	ex, ok2 := parseBV(f[2])
	mt, ok3 := parseBV(f[3])
	if !ok1 || !ok2 || !ok3 {
		return 0, false
	}
	if sb == 53 {
		return sg<<63 | ex<<52 | mt, true
	}
	_ = eb
	return math.Float64bits(float64(math.Float32frombits(uint32(sg<<31 | ex<<23 | mt)))), true
}

func parseBV(v string) (uint64, bool) {
	switch {
	case strings.HasPrefix(v, "#x"):
		u, err := strconv.ParseUint(v[2:], 16, 64)
		return u, err == nil
	case strings.HasPrefix(v, "#b"):
		u, err := strconv.ParseUint(v[2:], 2, 64)
		return u, err == nil
	case strings.HasPrefix(v, "(_ bv"):
		f := strings.Fields(v[5:])
		n, ok := new(big.Int).SetString(f[0], 10)
		if !ok {
			return 0, false
		}
		return n.Uint64(), true
	}
	return 0, false
}
