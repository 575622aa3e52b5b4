package main

import (
	"fmt"
	"math/bits"
	"sort"
	"sync"
	"sync/atomic"
)

// Symbolic terms: hash-consed bit-vector / boolean expressions (w==0 means Bool).

type Op uint8

const (
	OConst Op = iota
	OVar
	OAdd
	OSub
	OMul
	OUDiv
	OSDiv
	OURem
	OSRem
	OAnd
	OOr
	OXor
	ONot
	ONeg
	OShl
	OLShr
	OAShr
	OConcat
	OExtract // val = hi<<8|lo
	OZExt
	OSExt
	OEq
	OUlt
	OUle
	OSlt
	OSle
	OBAnd
	OBOr
	OBNot
	OIte
	OTable // val = table id, args[0] index
	OAff   // val = affine form id
)

var opSMT = map[Op]string{OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUDiv: "bvudiv", OSDiv: "bvsdiv", OURem: "bvurem", OSRem: "bvsrem",
	OAnd: "bvand", OOr: "bvor", OXor: "bvxor", ONot: "bvnot", ONeg: "bvneg", OShl: "bvshl", OLShr: "bvlshr", OAShr: "bvashr", OConcat: "concat",
	OEq: "=", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle", OBAnd: "and", OBOr: "or", OBNot: "not", OIte: "ite"}

type Term struct {
	id   uint32
	op   Op
	w    uint8
	val  uint64
	a    [3]*Term
	n    uint8
	vars []int32
	k0   uint64 // bits known 0
	k1   uint64 // bits known 1
	aff  atomic.Pointer[aff]
}

type termKey struct {
	op      Op
	w       uint8
	val     uint64
	a, b, c uint32
}

const nShard = 64

type termShard struct {
	sync.Mutex
	m map[termKey]*Term
}

var termShards [nShard]*termShard
var termCount uint32
var varNames []string
var varWidths []uint8
var varMu sync.Mutex
var smallConst [65][258]*Term
var tTrue, tFalse *Term

func init() {
	for i := range termShards {
		termShards[i] = &termShard{m: map[termKey]*Term{}}
	}
	for _, w := range []uint8{0, 1, 8, 16, 32, 64} {
		for v := 0; v < 258; v++ {
			if uint64(v)&maskW(w) == uint64(v) {
				smallConst[w][v] = mk(OConst, w, uint64(v))
			}
		}
	}
	tTrue, tFalse = smallConst[0][1], smallConst[0][0]
}

func maskW(w uint8) uint64 {
	if w == 0 {
		return 1
	}
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func mergeVars(a, b []int32) []int32 {
	if len(a) == 0 {
		return b
	}
	if len(b) == 0 {
		return a
	}
	if &a[0] == &b[0] && len(a) == len(b) {
		return a
	}
	// subset check
	i, j := 0, 0
	extra := false
	for i < len(a) && j < len(b) {
		if a[i] == b[j] {
			i++
			j++
		} else if a[i] < b[j] {
			i++
		} else {
			extra = true
			break
		}
	}
	if !extra && j == len(b) {
		return a
	}
	res := make([]int32, 0, len(a)+len(b))
	i, j = 0, 0
	for i < len(a) || j < len(b) {
		if j >= len(b) || (i < len(a) && a[i] < b[j]) {
			res = append(res, a[i])
			i++
		} else if i >= len(a) || b[j] < a[i] {
			res = append(res, b[j])
			j++
		} else {
			res = append(res, a[i])
			i++
			j++
		}
	}
	if len(res) == len(b) {
		return b
	}
	return res
}

func mk(op Op, w uint8, val uint64, args ...*Term) *Term {
	k := termKey{op: op, w: w, val: val}
	var a [3]*Term
	for i, x := range args {
		a[i] = x
		switch i {
		case 0:
			k.a = x.id
		case 1:
			k.b = x.id
		case 2:
			k.c = x.id
		}
	}
	h := uint64(op)*0x9E3779B97F4A7C15 ^ val*0xBF58476D1CE4E5B9 ^ uint64(k.a)*0x94D049BB133111EB ^ uint64(k.b)*0xD6E8FEB86659FD93 ^ uint64(k.c)*0xA0761D6478BD642F ^ uint64(w)<<7
	h ^= h >> 29
	s := termShards[h%nShard]
	s.Lock()
	if t, ok := s.m[k]; ok {
		s.Unlock()
		return t
	}
	t := &Term{op: op, w: w, val: val, a: a, n: uint8(len(args))}
	for _, x := range args {
		t.vars = mergeVars(t.vars, x.vars)
	}
	if op == OVar {
		t.vars = []int32{int32(val)}
	}
	if op == OAff {
		v, _ := affByID.Load(int(val))
		t.vars = v.(*aff).vars()
		t.aff.Store(v.(*aff))
	}
	t.id = atomic.AddUint32(&termCount, 1)
	knownBits(t)
	s.m[k] = t
	s.Unlock()
	return t
}

func (t *Term) isConst() bool { return t.op == OConst }
func (t *Term) isTrue() bool  { return t == tTrue }
func (t *Term) isFalse() bool { return t == tFalse }

func mkConst(w uint8, v uint64) *Term {
	v &= maskW(w)
	if v < 258 {
		if t := smallConst[w][v]; t != nil {
			return t
		}
	}
	return mk(OConst, w, v)
}

func mkBool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

func newVar(name string, w uint8) *Term {
	varMu.Lock()
	id := len(varNames)
	varNames = append(varNames, name)
	varWidths = append(varWidths, w)
	varMu.Unlock()
	return mk(OVar, w, uint64(id))
}

func varWidth(id int32) uint8 {
	varMu.Lock()
	defer varMu.Unlock()
	return varWidths[id]
}

func varTerm(id int32) *Term { return mk(OVar, varWidth(id), uint64(id)) }

// variables are canonical per (seq,width): path-independent sharing
var seqVarMu sync.Mutex
var seqVars = map[[2]int]*Term{}

func seqVar(seq int, w uint8) *Term {
	seqVarMu.Lock()
	defer seqVarMu.Unlock()
	k := [2]int{seq, int(w)}
	if t, ok := seqVars[k]; ok {
		return t
	}
	t := newVar(fmt.Sprintf("v%d_%d", seq, w), w)
	seqVars[k] = t
	return t
}

func knownBits(t *Term) {
	m := maskW(t.w)
	switch t.op {
	case OConst:
		t.k1 = t.val
		t.k0 = ^t.val & m
	case OAnd:
		t.k0 = t.a[0].k0 | t.a[1].k0
		t.k1 = t.a[0].k1 & t.a[1].k1
	case OOr:
		t.k0 = t.a[0].k0 & t.a[1].k0
		t.k1 = t.a[0].k1 | t.a[1].k1
	case OXor:
		t.k0 = (t.a[0].k0 & t.a[1].k0) | (t.a[0].k1 & t.a[1].k1)
		t.k1 = (t.a[0].k0 & t.a[1].k1) | (t.a[0].k1 & t.a[1].k0)
	case ONot:
		t.k0, t.k1 = t.a[0].k1, t.a[0].k0
	case OShl:
		if t.a[1].isConst() {
			s := t.a[1].val
			if s >= uint64(t.w) {
				t.k0 = m
			} else {
				t.k0 = ((t.a[0].k0 << s) | (uint64(1)<<s - 1)) & m
				t.k1 = (t.a[0].k1 << s) & m
			}
		}
	case OLShr:
		if t.a[1].isConst() {
			s := t.a[1].val
			if s >= uint64(t.w) {
				t.k0 = m
			} else {
				t.k0 = (t.a[0].k0 >> s) | (m &^ (m >> s))
				t.k1 = t.a[0].k1 >> s
			}
		}
	case OAShr:
		if t.a[1].isConst() {
			s := t.a[1].val
			if s >= uint64(t.w) {
				s = uint64(t.w) - 1
			}
			sb := uint64(1) << (t.w - 1)
			t.k0 = t.a[0].k0 >> s
			t.k1 = t.a[0].k1 >> s
			hi := m &^ (m >> s)
			if t.a[0].k0&sb != 0 {
				t.k0 |= hi
			} else if t.a[0].k1&sb != 0 {
				t.k1 |= hi
			}
		}
	case OConcat:
		lw := t.a[1].w
		t.k0 = t.a[0].k0<<lw | t.a[1].k0
		t.k1 = t.a[0].k1<<lw | t.a[1].k1
	case OExtract:
		lo := t.val & 0xff
		t.k0 = (t.a[0].k0 >> lo) & m
		t.k1 = (t.a[0].k1 >> lo) & m
	case OZExt:
		t.k0 = t.a[0].k0 | (m &^ maskW(t.a[0].w))
		t.k1 = t.a[0].k1
	case OSExt:
		hi := m &^ maskW(t.a[0].w)
		sb := uint64(1) << (t.a[0].w - 1)
		t.k0, t.k1 = t.a[0].k0, t.a[0].k1
		if t.a[0].k0&sb != 0 {
			t.k0 |= hi
		} else if t.a[0].k1&sb != 0 {
			t.k1 |= hi
		}
	case OIte:
		t.k0 = t.a[1].k0 & t.a[2].k0
		t.k1 = t.a[1].k1 & t.a[2].k1
	case OAdd:
		// low bits known
		k := (t.a[0].k0 | t.a[0].k1) & (t.a[1].k0 | t.a[1].k1)
		n := bits.TrailingZeros64(^k)
		if n > 0 {
			lm := ^uint64(0)
			if n < 64 {
				lm = uint64(1)<<n - 1
			}
			lm &= m
			s := (t.a[0].k1 + t.a[1].k1) & lm
			t.k1 = s
			t.k0 = ^s & lm
		}
		// leading zeros when no carry possible
		ma, mb := m&^t.a[0].k0, m&^t.a[1].k0
		sum, carry := bits.Add64(ma, mb, 0)
		if carry == 0 && sum <= m {
			lz := bits.LeadingZeros64(sum)
			if lz > 0 {
				hm := ^uint64(0) << (64 - lz)
				t.k0 |= hm & m
			}
		}
	case OTable:
		tb := tables[t.val]
		t.k0, t.k1 = tb.k0, tb.k1
	case OAff:
		a := t.aff.Load()
		dep := uint64(0)
		for _, v := range a.vs {
			for _, c := range v.cols {
				dep |= c
			}
		}
		t.k1 = a.c &^ dep
		t.k0 = ^a.c &^ dep
	}
	t.k0 &= m
	t.k1 &= m
}

// ---- constant tables ----
type table struct {
	vals   []uint64
	w      uint8
	k0, k1 uint64
}

var tables []*table
var tableIdx = map[string]int{}
var tableMu sync.Mutex

func mkTable(vals []uint64, w uint8, idx *Term) *Term {
	if idx.isConst() && idx.val < uint64(len(vals)) {
		return mkConst(w, vals[idx.val])
	}
	allSame := true
	for _, v := range vals {
		if v != vals[0] {
			allSame = false
			break
		}
	}
	if allSame {
		return mkConst(w, vals[0])
	}
	// GF(2)-linear tables over a power-of-two index space become XOR combinations of basis entries.
	if n := len(vals); n&(n-1) == 0 && n >= 4 && bits.Len(uint(n))-1 <= int(idx.w) {
		k := bits.Len(uint(n)) - 1
		lin := true
		for i := 0; i < n && lin; i++ {
			x := vals[0]
			for b := 0; b < k; b++ {
				if i>>b&1 == 1 {
					x ^= vals[1<<b] ^ vals[0]
				}
			}
			if x != vals[i] {
				lin = false
			}
		}
		if lin {
			r := mkConst(w, vals[0])
			for b := 0; b < k; b++ {
				bit := tExtract(idx, uint8(b), uint8(b))
				r = tXor(r, tAnd(tSExt(bit, w), mkConst(w, vals[1<<b]^vals[0])))
			}
			return r
		}
	}
	key := fmt.Sprint(w, vals)
	tableMu.Lock()
	id, ok := tableIdx[key]
	if !ok {
		tb := &table{vals: append([]uint64(nil), vals...), w: w, k0: maskW(w), k1: maskW(w)}
		for _, v := range vals {
			tb.k1 &= v
			tb.k0 &= ^v
		}
		id = len(tables)
		nt := append(append([]*table(nil), tables...), tb)
		tables = nt
		tableIdx[key] = id
	}
	tableMu.Unlock()
	return mk(OTable, w, uint64(id), idx)
}

// ---- constructors ----

func tNot(x *Term) *Term { // bitwise
	if x.isConst() {
		return mkConst(x.w, ^x.val)
	}
	if x.op == ONot {
		return x.a[0]
	}
	if t := reAff(ONot, x.w, 0, x); t != nil {
		return t
	}
	return mk(ONot, x.w, 0, x)
}

func tNeg(x *Term) *Term { return tSub(mkConst(x.w, 0), x) }

func order(x, y *Term) (*Term, *Term) {
	if x.isConst() || (!y.isConst() && x.id > y.id) {
		return y, x
	}
	return x, y
}

func (t *Term) full(m uint64) (uint64, bool) {
	if t.k0|t.k1 == m {
		return t.k1, true
	}
	return 0, false
}

// fold replaces fully known terms by constants
func fold(t *Term) *Term {
	if t.op == OConst || t.w == 0 {
		return t
	}
	if t.k0|t.k1 == maskW(t.w) {
		return mkConst(t.w, t.k1)
	}
	return t
}

func tAdd(x, y *Term) *Term {
	x, y = order(x, y)
	if x.isConst() && y.isConst() {
		return mkConst(x.w, x.val+y.val)
	}
	if y.isConst() {
		if y.val == 0 {
			return x
		}
		if x.op == OAdd && x.a[1].isConst() {
			return tAdd(x.a[0], mkConst(x.w, x.a[1].val+y.val))
		}
	}
	m := maskW(x.w)
	if (m&^x.k0)&(m&^y.k0) == 0 { // disjoint
		return tOr(x, y)
	}
	if x.op == OAdd && x.a[1].isConst() {
		return tAdd(tAdd(x.a[0], y), x.a[1])
	}
	if y.op == OAdd && y.a[1].isConst() {
		return tAdd(tAdd(x, y.a[0]), y.a[1])
	}
	return fold(mk(OAdd, x.w, 0, x, y))
}

func tSub(x, y *Term) *Term {
	if x == y {
		return mkConst(x.w, 0)
	}
	if y.isConst() {
		return tAdd(x, mkConst(x.w, -y.val))
	}
	if x.isConst() && x.val == 0 && y.w > 1 && (maskW(y.w)&^y.k0) == 1 { // -(single bit) is a mask
		return tSExt(tExtract(y, 0, 0), y.w)
	}
	if y.op == OAdd && y.a[1].isConst() {
		return tAdd(tSub(x, y.a[0]), mkConst(x.w, -y.a[1].val))
	}
	return fold(mk(OSub, x.w, 0, x, y))
}

func tMul(x, y *Term) *Term {
	x, y = order(x, y)
	if x.isConst() && y.isConst() {
		return mkConst(x.w, x.val*y.val)
	}
	if y.isConst() {
		if y.val == 0 {
			return y
		}
		if y.val == 1 {
			return x
		}
		if y.val&(y.val-1) == 0 {
			return tShl(x, mkConst(x.w, uint64(bits.TrailingZeros64(y.val))))
		}
	}
	return mk(OMul, x.w, 0, x, y)
}

func sext64(v uint64, w uint8) int64 {
	if w >= 64 || w == 0 {
		return int64(v)
	}
	return int64(v<<(64-w)) >> (64 - w)
}

func tDiv(op Op, x, y *Term) *Term {
	if x.isConst() && y.isConst() && y.val != 0 {
		return mkConst(x.w, evalOp(op, x.w, 0, x.val, y.val, 0, x.w, y.w))
	}
	if y.isConst() && y.val != 0 && y.val&(y.val-1) == 0 {
		k := uint64(bits.TrailingZeros64(y.val))
		pos := x.k0>>(x.w-1)&1 == 1
		ypos := y.val>>(y.w-1)&1 == 0
		if op == OUDiv || (op == OSDiv && pos && ypos) {
			return tLShr(x, mkConst(x.w, k))
		}
		if op == OURem || (op == OSRem && pos && ypos) {
			return tAnd(x, mkConst(x.w, y.val-1))
		}
	}
	return mk(op, x.w, 0, x, y)
}

func tAnd(x, y *Term) *Term {
	x, y = order(x, y)
	if x.isConst() && y.isConst() {
		return mkConst(x.w, x.val&y.val)
	}
	if x == y {
		return x
	}
	m := maskW(x.w)
	if (m&^x.k0)&(m&^y.k0) == 0 {
		return mkConst(x.w, 0)
	}
	if y.isConst() {
		if y.val == 0 {
			return y
		}
		// bits of x possibly one are covered by y
		if (m&^x.k0)&^y.val == 0 {
			return x
		}
		if x.op == OAnd && x.a[1].isConst() {
			return tAnd(x.a[0], mkConst(x.w, x.a[1].val&y.val))
		}
		// low mask -> zext(extract)
		eff := y.val &^ x.k0
		if eff == 0 {
			return mkConst(x.w, 0)
		}
		if y.val&(y.val+1) == 0 {
			k := uint8(bits.Len64(y.val))
			return tZExt(tExtract(x, k-1, 0), x.w)
		}
		if x.op == OOr || x.op == OXor {
			l, r := x.a[0], x.a[1]
			if (m&^l.k0)&y.val == 0 {
				return tAnd(r, y)
			}
			if (m&^r.k0)&y.val == 0 {
				return tAnd(l, y)
			}
		}
	}
	if t := reAff(OAnd, x.w, 0, x, y); t != nil {
		return t
	}
	return fold(mk(OAnd, x.w, 0, x, y))
}

func tOr(x, y *Term) *Term {
	x, y = order(x, y)
	if x.isConst() && y.isConst() {
		return mkConst(x.w, x.val|y.val)
	}
	if x == y {
		return x
	}
	m := maskW(x.w)
	if y.isConst() {
		if y.val == 0 {
			return x
		}
		if y.val == m {
			return y
		}
		if x.op == OOr && x.a[1].isConst() {
			return tOr(x.a[0], mkConst(x.w, x.a[1].val|y.val))
		}
	}
	// concat recognition: x occupies high bits, y low bits (disjoint contiguous)
	if x.w > 1 {
		if t := concatOr(x, y); t != nil {
			return t
		}
		if t := concatOr(y, x); t != nil {
			return t
		}
	}
	if t := reAff(OOr, x.w, 0, x, y); t != nil {
		return t
	}
	return fold(mk(OOr, x.w, 0, x, y))
}

// hi has zero low k bits, lo has zero high bits above k: produce concat
func concatOr(hi, lo *Term) *Term {
	m := maskW(hi.w)
	tz := bits.TrailingZeros64(^hi.k0)
	if tz == 0 || tz >= int(hi.w) {
		return nil
	}
	if (m&^lo.k0)>>uint(tz) != 0 {
		return nil
	}
	h := tExtract(hi, hi.w-1, uint8(tz))
	l := tExtract(lo, uint8(tz)-1, 0)
	return tConcat(h, l)
}

func tXor(x, y *Term) *Term {
	x, y = order(x, y)
	if x.isConst() && y.isConst() {
		return mkConst(x.w, x.val^y.val)
	}
	if x == y {
		return mkConst(x.w, 0)
	}
	if y.isConst() {
		if y.val == 0 {
			return x
		}
		if y.val == maskW(x.w) {
			return tNot(x)
		}
		if x.op == OXor && x.a[1].isConst() {
			return tXor(x.a[0], mkConst(x.w, x.a[1].val^y.val))
		}
	}
	if x.op == OXor {
		if x.a[0] == y {
			return x.a[1]
		}
		if x.a[1] == y {
			return x.a[0]
		}
	}
	if y.op == OXor {
		if y.a[0] == x {
			return y.a[1]
		}
		if y.a[1] == x {
			return y.a[0]
		}
	}
	m := maskW(x.w)
	if x.op == OAff || y.op == OAff || ((m&^x.k0)&(m&^y.k0) != 0 && !y.isConst()) {
		if a, b := affOf(x), affOf(y); a != nil && b != nil {
			return affXor(a, b).term()
		}
	}
	if (m&^x.k0)&(m&^y.k0) == 0 {
		return tOr(x, y)
	}
	if x.op == OXor && x.a[1].isConst() && !y.isConst() {
		return tXor(tXor(x.a[0], y), x.a[1])
	}
	if y.op == OXor && y.a[1].isConst() {
		return tXor(tXor(x, y.a[0]), y.a[1])
	}
	return fold(mk(OXor, x.w, 0, x, y))
}

func tShl(x, y *Term) *Term {
	if y.isConst() {
		s := y.val
		if s == 0 {
			return x
		}
		if s >= uint64(x.w) {
			return mkConst(x.w, 0)
		}
		if x.isConst() {
			return mkConst(x.w, x.val<<s)
		}
		return tConcat(tExtract(x, x.w-1-uint8(s), 0), mkConst(uint8(s), 0))
	}
	return mk(OShl, x.w, 0, x, y)
}

func tLShr(x, y *Term) *Term {
	if y.isConst() {
		s := y.val
		if s == 0 {
			return x
		}
		if s >= uint64(x.w) {
			return mkConst(x.w, 0)
		}
		if x.isConst() {
			return mkConst(x.w, x.val>>s)
		}
		return tZExt(tExtract(x, x.w-1, uint8(s)), x.w)
	}
	return mk(OLShr, x.w, 0, x, y)
}

func tAShr(x, y *Term) *Term {
	if y.isConst() {
		s := y.val
		if s == 0 {
			return x
		}
		if s >= uint64(x.w) {
			s = uint64(x.w) - 1
		}
		if x.isConst() {
			return mkConst(x.w, uint64(sext64(x.val, x.w)>>s))
		}
		return tSExt(tExtract(x, x.w-1, uint8(s)), x.w)
	}
	return mk(OAShr, x.w, 0, x, y)
}

func tConcat(h, l *Term) *Term {
	w := h.w + l.w
	if h.isConst() && l.isConst() {
		return mkConst(w, h.val<<l.w|l.val)
	}
	if h.isConst() && h.val == 0 {
		return tZExt(l, w)
	}
	// adjacent extracts of same term
	if h.op == OExtract && l.op == OExtract && h.a[0] == l.a[0] && h.val&0xff == (l.val>>8)+1 {
		return tExtract(h.a[0], uint8(h.val>>8), uint8(l.val&0xff))
	}
	if l.op == OConcat && h.op == OExtract && l.a[0].op == OExtract && h.a[0] == l.a[0].a[0] && h.val&0xff == (l.a[0].val>>8)+1 {
		return tConcat(tExtract(h.a[0], uint8(h.val>>8), uint8(l.a[0].val&0xff)), l.a[1])
	}
	if h.op == OZExt {
		return tZExt(tConcat(h.a[0], l), w)
	}
	if h.op == OConcat { // right-assoc normal form
		return tConcat(h.a[0], tConcat(h.a[1], l))
	}
	if h.op == OSExt && l.op == OExtract && h.a[0].op == OExtract && h.a[0].a[0] == l.a[0] && h.a[0].val&0xff == (l.val>>8)+1 {
		return tSExt(tConcat(h.a[0], l), w)
	}
	if h.op == OSExt && h.a[0].w == 1 && l.op == OExtract && h.a[0].op == OExtract && h.a[0].a[0] == l.a[0] && h.a[0].val == l.val>>8<<8|l.val>>8 {
		return tSExt(l, w)
	}
	if h.isConst() && l.op == OConcat && l.a[0].isConst() {
		return tConcat(tConcat(h, l.a[0]), l.a[1])
	}
	if t := reAff(OConcat, w, 0, h, l); t != nil {
		return t
	}
	return mk(OConcat, w, 0, h, l)
}

func tExtract(x *Term, hi, lo uint8) *Term {
	w := hi - lo + 1
	if w == x.w {
		return x
	}
	m := maskW(w)
	if (x.k0|x.k1)>>lo&m == m {
		return mkConst(w, x.k1>>lo)
	}
	switch x.op {
	case OExtract:
		b := uint8(x.val & 0xff)
		return tExtract(x.a[0], hi+b, lo+b)
	case OConcat:
		lw := x.a[1].w
		if hi < lw {
			return tExtract(x.a[1], hi, lo)
		}
		if lo >= lw {
			return tExtract(x.a[0], hi-lw, lo-lw)
		}
		return tConcat(tExtract(x.a[0], hi-lw, 0), tExtract(x.a[1], lw-1, lo))
	case OZExt:
		iw := x.a[0].w
		if hi < iw {
			return tExtract(x.a[0], hi, lo)
		}
		if lo >= iw {
			return mkConst(w, 0)
		}
		return tZExt(tExtract(x.a[0], iw-1, lo), w)
	case OSExt:
		iw := x.a[0].w
		if hi < iw {
			return tExtract(x.a[0], hi, lo)
		}
		if lo >= iw {
			return tSExt(tExtract(x.a[0], iw-1, iw-1), w)
		}
		return tSExt(tExtract(x.a[0], iw-1, lo), w)
	case OAnd:
		return tAnd(tExtract(x.a[0], hi, lo), tExtract(x.a[1], hi, lo))
	case OOr:
		return tOr(tExtract(x.a[0], hi, lo), tExtract(x.a[1], hi, lo))
	case OXor:
		return tXor(tExtract(x.a[0], hi, lo), tExtract(x.a[1], hi, lo))
	case ONot:
		return tNot(tExtract(x.a[0], hi, lo))
	case OAdd:
		if lo == 0 {
			return tAdd(tExtract(x.a[0], hi, 0), tExtract(x.a[1], hi, 0))
		}
	case OIte:
		if x.a[1].isConst() || x.a[2].isConst() {
			return tIte(x.a[0], tExtract(x.a[1], hi, lo), tExtract(x.a[2], hi, lo))
		}
	}
	if t := reAff(OExtract, w, uint64(hi)<<8|uint64(lo), x); t != nil {
		return t
	}
	return mk(OExtract, w, uint64(hi)<<8|uint64(lo), x)
}

func tZExt(x *Term, w uint8) *Term {
	if x.w == w {
		return x
	}
	if x.isConst() {
		return mkConst(w, x.val)
	}
	if x.op == OZExt {
		return tZExt(x.a[0], w)
	}
	return mk(OZExt, w, 0, x)
}

func tSExt(x *Term, w uint8) *Term {
	if x.w == w {
		return x
	}
	if x.isConst() {
		return mkConst(w, uint64(sext64(x.val, x.w)))
	}
	if x.k0>>(x.w-1)&1 == 1 {
		return tZExt(x, w)
	}
	if x.op == OSExt {
		return tSExt(x.a[0], w)
	}
	if t := reAff(OSExt, w, 0, x); t != nil {
		return t
	}
	return mk(OSExt, w, 0, x)
}

func tEq(x, y *Term) *Term {
	if x == y {
		return tTrue
	}
	x, y = order(x, y)
	if x.isConst() && y.isConst() {
		return mkBool(x.val == y.val)
	}
	if x.w == 0 {
		if y.isConst() {
			if y.val == 1 {
				return x
			}
			return tBNot(x)
		}
		return mk(OEq, 0, 0, x, y)
	}
	if x.k0&y.k1 != 0 || x.k1&y.k0 != 0 {
		return tFalse
	}
	if x.op == OAff || y.op == OAff {
		if t := affEq(x, y); t != nil {
			return t
		}
	}
	if y.isConst() {
		switch x.op {
		case OZExt:
			return tEq(x.a[0], mkConst(x.a[0].w, y.val))
		case OSExt:
			iw := x.a[0].w
			if uint64(sext64(y.val&maskW(iw), iw))&maskW(x.w) != y.val {
				return tFalse
			}
			return tEq(x.a[0], mkConst(iw, y.val))
		case OConcat:
			lw := x.a[1].w
			return tBAnd(tEq(x.a[0], mkConst(x.a[0].w, y.val>>lw)), tEq(x.a[1], mkConst(lw, y.val)))
		case OXor:
			if x.a[1].isConst() {
				return tEq(x.a[0], mkConst(x.w, x.a[1].val^y.val))
			}
		case OAdd:
			if x.a[1].isConst() {
				return tEq(x.a[0], mkConst(x.w, y.val-x.a[1].val))
			}
		case ONot:
			return tEq(x.a[0], mkConst(x.w, ^y.val))
		case OIte:
			a, b := x.a[1], x.a[2]
			if a.isConst() || b.isConst() {
				return tIte(x.a[0], tEq(a, y), tEq(b, y))
			}
		}
		if x.w == 1 && y.val == 0 {
			return tBNot(tEq(x, mkConst(1, 1)))
		}
	} else {
		if x.op == OZExt && y.op == OZExt && x.a[0].w == y.a[0].w {
			return tEq(x.a[0], y.a[0])
		}
		if x.op == OSExt && y.op == OSExt && x.a[0].w == y.a[0].w {
			return tEq(x.a[0], y.a[0])
		}
		if x.op == OConcat && y.op == OConcat && x.a[1].w == y.a[1].w {
			return tBAnd(tEq(x.a[0], y.a[0]), tEq(x.a[1], y.a[1]))
		}
	}
	return mk(OEq, 0, 0, x, y)
}

func tUlt(x, y *Term) *Term {
	if x == y {
		return tFalse
	}
	m := maskW(x.w)
	// max(x) < min(y) ; min(x) >= max(y)
	maxX, minX := m&^x.k0, x.k1
	maxY, minY := m&^y.k0, y.k1
	if maxX < minY {
		return tTrue
	}
	if minX >= maxY {
		return tFalse
	}
	if x.op == OZExt && y.isConst() {
		iw := x.a[0].w
		if y.val > maskW(iw) {
			return tTrue
		}
		return tUlt(x.a[0], mkConst(iw, y.val))
	}
	if y.op == OZExt && x.isConst() {
		iw := y.a[0].w
		if x.val > maskW(iw) {
			return tFalse
		}
		return tUlt(mkConst(iw, x.val), y.a[0])
	}
	if x.op == OZExt && y.op == OZExt && x.a[0].w == y.a[0].w {
		return tUlt(x.a[0], y.a[0])
	}
	if y.isConst() && y.val == 1 {
		return tEq(x, mkConst(x.w, 0))
	}
	if x.isConst() && x.val == 0 {
		return tBNot(tEq(y, x))
	}
	return mk(OUlt, 0, 0, x, y)
}

func tUle(x, y *Term) *Term { return tBNot(tUlt(y, x)) }

func tSlt(x, y *Term) *Term {
	if x == y {
		return tFalse
	}
	if x.isConst() && y.isConst() {
		return mkBool(sext64(x.val, x.w) < sext64(y.val, y.w))
	}
	sb := uint64(1) << (x.w - 1)
	xp, yp := x.k0&sb != 0, y.k0&sb != 0
	xn, yn := x.k1&sb != 0, y.k1&sb != 0
	if (xp && yp) || (xn && yn) {
		return tUlt(x, y)
	}
	if xn && yp {
		return tTrue
	}
	if xp && yn {
		return tFalse
	}
	if x.op == OSExt && y.isConst() {
		iw := x.a[0].w
		v := sext64(y.val, y.w)
		lo, hi := -(int64(1) << (iw - 1)), int64(1)<<(iw-1)-1
		if v > hi {
			return tTrue
		}
		if v <= lo {
			return tFalse
		}
		return tSlt(x.a[0], mkConst(iw, uint64(v)))
	}
	if y.op == OSExt && x.isConst() {
		iw := y.a[0].w
		v := sext64(x.val, x.w)
		lo, hi := -(int64(1) << (iw - 1)), int64(1)<<(iw-1)-1
		if v >= hi {
			return tFalse
		}
		if v < lo {
			return tTrue
		}
		return tSlt(mkConst(iw, uint64(v)), y.a[0])
	}
	return mk(OSlt, 0, 0, x, y)
}

func tSle(x, y *Term) *Term { return tBNot(tSlt(y, x)) }

func tBNot(x *Term) *Term {
	if x.isConst() {
		return mkBool(x.val == 0)
	}
	if x.op == OBNot {
		return x.a[0]
	}
	return mk(OBNot, 0, 0, x)
}

func tBAnd(x, y *Term) *Term {
	if x.isFalse() || y.isFalse() {
		return tFalse
	}
	if x.isTrue() {
		return y
	}
	if y.isTrue() || x == y {
		return x
	}
	if (x.op == OBNot && x.a[0] == y) || (y.op == OBNot && y.a[0] == x) {
		return tFalse
	}
	x, y = order(x, y)
	return mk(OBAnd, 0, 0, x, y)
}

func tBOr(x, y *Term) *Term {
	if x.isTrue() || y.isTrue() {
		return tTrue
	}
	if x.isFalse() {
		return y
	}
	if y.isFalse() || x == y {
		return x
	}
	if (x.op == OBNot && x.a[0] == y) || (y.op == OBNot && y.a[0] == x) {
		return tTrue
	}
	x, y = order(x, y)
	return mk(OBOr, 0, 0, x, y)
}

func tIte(c, x, y *Term) *Term {
	if c.isTrue() || x == y {
		return x
	}
	if c.isFalse() {
		return y
	}
	if c.op == OBNot {
		return tIte(c.a[0], y, x)
	}
	if x.w == 0 {
		if x.isTrue() {
			return tBOr(c, y)
		}
		if x.isFalse() {
			return tBAnd(tBNot(c), y)
		}
		if y.isTrue() {
			return tBOr(tBNot(c), x)
		}
		if y.isFalse() {
			return tBAnd(c, x)
		}
	}
	return fold(mk(OIte, x.w, 0, c, x, y))
}

// ---- evaluation ----

func evalOp(op Op, w uint8, val uint64, a, b, c uint64, aw, bw uint8) uint64 {
	m := maskW(w)
	switch op {
	case OAdd:
		return (a + b) & m
	case OSub:
		return (a - b) & m
	case OMul:
		return (a * b) & m
	case OUDiv:
		if b == 0 {
			return m
		}
		return a / b
	case OURem:
		if b == 0 {
			return a
		}
		return a % b
	case OSDiv:
		x, y := sext64(a, w), sext64(b, w)
		if y == 0 {
			if x >= 0 {
				return m
			}
			return 1
		}
		if y == -1 {
			return uint64(-x) & m
		}
		return uint64(x/y) & m
	case OSRem:
		x, y := sext64(a, w), sext64(b, w)
		if y == 0 {
			return a
		}
		if y == -1 {
			return 0
		}
		return uint64(x%y) & m
	case OAnd, OBAnd:
		return a & b
	case OOr, OBOr:
		return a | b
	case OXor:
		return a ^ b
	case ONot:
		return ^a & m
	case ONeg:
		return -a & m
	case OBNot:
		return a ^ 1
	case OShl:
		if b >= uint64(w) {
			return 0
		}
		return a << b & m
	case OLShr:
		if b >= uint64(w) {
			return 0
		}
		return a >> b
	case OAShr:
		if b >= uint64(w) {
			b = uint64(w) - 1
		}
		return uint64(sext64(a, w)>>b) & m
	case OConcat:
		return a<<bw | b
	case OExtract:
		return a >> (val & 0xff) & m
	case OZExt:
		return a
	case OSExt:
		return uint64(sext64(a, aw)) & m
	case OEq:
		if a == b {
			return 1
		}
		return 0
	case OUlt:
		if a < b {
			return 1
		}
		return 0
	case OUle:
		if a <= b {
			return 1
		}
		return 0
	case OSlt:
		if sext64(a, aw) < sext64(b, bw) {
			return 1
		}
		return 0
	case OSle:
		if sext64(a, aw) <= sext64(b, bw) {
			return 1
		}
		return 0
	case OIte:
		if a == 1 {
			return b
		}
		return c
	case OTable:
		tb := tables[val]
		if a < uint64(len(tb.vals)) {
			return tb.vals[a]
		}
		return 0
	}
	panic("evalOp")
}

type Model struct {
	vals map[int32]uint64
	memo map[*Term]uint64
}

func newModel() *Model { return &Model{vals: map[int32]uint64{}, memo: map[*Term]uint64{}} }

func (m *Model) clone() *Model {
	n := newModel()
	for k, v := range m.vals {
		n.vals[k] = v
	}
	return n
}

func (m *Model) eval(t *Term) uint64 {
	switch t.op {
	case OConst:
		return t.val
	case OVar:
		return m.vals[int32(t.val)]
	case OAff:
		return t.aff.Load().eval(func(v int32) uint64 { return m.vals[v] })
	}
	if v, ok := m.memo[t]; ok {
		return v
	}
	var a, b, c uint64
	var aw, bw uint8
	a = m.eval(t.a[0])
	aw = t.a[0].w
	if t.op == OIte {
		var r uint64
		if a == 1 {
			r = m.eval(t.a[1])
		} else {
			r = m.eval(t.a[2])
		}
		m.memo[t] = r
		return r
	}
	if t.n > 1 {
		b = m.eval(t.a[1])
		bw = t.a[1].w
	}
	if t.n > 2 {
		c = m.eval(t.a[2])
	}
	r := evalOp(t.op, t.w, t.val, a, b, c, aw, bw)
	m.memo[t] = r
	return r
}

func sortedIDs(ts []*Term) []uint32 {
	r := make([]uint32, len(ts))
	for i, t := range ts {
		r[i] = t.id
	}
	sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
	return r
}

func (t *Term) String() string {
	switch t.op {
	case OConst:
		if t.w == 0 {
			return fmt.Sprint(t.val == 1)
		}
		return fmt.Sprintf("%d:%d", t.val, t.w)
	case OVar:
		return varNames[t.val]
	case OAff:
		return "aff(" + t.aff.Load().key() + ")"
	}
	s := fmt.Sprintf("(%s", opName(t.op))
	if t.op == OExtract {
		s += fmt.Sprintf("[%d:%d]", t.val>>8, t.val&0xff)
	}
	for i := 0; i < int(t.n); i++ {
		s += " " + t.a[i].String()
		if len(s) > 400 {
			return s + "...)"
		}
	}
	return s + ")"
}

func opName(o Op) string {
	if s, ok := opSMT[o]; ok {
		return s
	}
	return [...]string{OExtract: "extract", OZExt: "zext", OSExt: "sext", OTable: "table"}[o]
}
