package main

import (
	"fmt"
	"math/bits"
	"sort"
	"strings"
	"sync"
)

// Canonical GF(2)-affine terms. An XOR of input bits has many syntactic forms
// (table driven and bitwise CRCs, for instance); here every output bit is the set of
// input bits it depends on, so equal functions are the same term and equalities are
// row reduced before a solver sees them.

type affVar struct {
	v    *Term    // an OVar
	cols []uint64 // output bits flipped by each bit of v
}

type aff struct {
	w  uint8
	c  uint64
	vs []affVar // sorted by variable
}

var notAffine = &aff{}
var affIDs = map[string]int{}
var affByID sync.Map // int -> *aff
var affMu sync.Mutex

func (a *aff) key() string {
	var b strings.Builder
	fmt.Fprintf(&b, "%d:%x", a.w, a.c)
	for _, v := range a.vs {
		fmt.Fprintf(&b, "|%d", v.v.val)
		for _, c := range v.cols {
			fmt.Fprintf(&b, ",%x", c)
		}
	}
	return b.String()
}

// affOf returns the affine form of t, or nil.
func affOf(t *Term) *aff {
	if t.w == 0 {
		return nil
	}
	if p := t.aff.Load(); p != nil {
		if p == notAffine {
			return nil
		}
		return p
	}
	a := affCompute(t)
	if a == nil {
		t.aff.Store(notAffine)
	} else {
		t.aff.Store(a)
	}
	return a
}

func affCompute(t *Term) *aff {
	m := maskW(t.w)
	switch t.op {
	case OConst:
		return &aff{w: t.w, c: t.val}
	case OVar:
		cols := make([]uint64, t.w)
		for i := range cols {
			cols[i] = 1 << uint(i)
		}
		return &aff{w: t.w, vs: []affVar{{t, cols}}}
	case OXor:
		a, b := affOf(t.a[0]), affOf(t.a[1])
		if a == nil || b == nil {
			return nil
		}
		return affXor(a, b)
	case OOr:
		if (m&^t.a[0].k0)&(m&^t.a[1].k0) != 0 {
			return nil
		}
		a, b := affOf(t.a[0]), affOf(t.a[1])
		if a == nil || b == nil {
			return nil
		}
		return affXor(a, b)
	case ONot:
		if a := affOf(t.a[0]); a != nil {
			return &aff{t.w, ^a.c & m, a.vs}
		}
		return nil
	case OAnd:
		if !t.a[1].isConst() {
			return nil
		}
		return affMap(t.a[0], t.w, func(x uint64) uint64 { return x & t.a[1].val })
	case OExtract:
		return affMap(t.a[0], t.w, func(x uint64) uint64 { return x >> (t.val & 0xff) & m })
	case OZExt:
		return affMap(t.a[0], t.w, func(x uint64) uint64 { return x })
	case OSExt:
		return affMap(t.a[0], t.w, func(x uint64) uint64 { return uint64(sext64(x, t.a[0].w)) & m })
	case OConcat:
		lw := t.a[1].w
		a := affMap(t.a[0], t.w, func(x uint64) uint64 { return x << lw })
		b := affMap(t.a[1], t.w, func(x uint64) uint64 { return x })
		if a == nil || b == nil {
			return nil
		}
		return affXor(a, b)
	}
	return nil
}

// affMap applies a linear map to every column.
func affMap(t *Term, w uint8, f func(uint64) uint64) *aff {
	a := affOf(t)
	if a == nil {
		return nil
	}
	r := &aff{w: w, c: f(a.c)}
	for _, v := range a.vs {
		cols := make([]uint64, len(v.cols))
		any := false
		for i, c := range v.cols {
			cols[i] = f(c)
			any = any || cols[i] != 0
		}
		if any {
			r.vs = append(r.vs, affVar{v.v, cols})
		}
	}
	return r
}

func affXor(a, b *aff) *aff {
	r := &aff{w: a.w, c: a.c ^ b.c}
	i, j := 0, 0
	for i < len(a.vs) || j < len(b.vs) {
		if j >= len(b.vs) || (i < len(a.vs) && a.vs[i].v.val < b.vs[j].v.val) {
			r.vs = append(r.vs, a.vs[i])
			i++
			continue
		}
		if i >= len(a.vs) || b.vs[j].v.val < a.vs[i].v.val {
			r.vs = append(r.vs, b.vs[j])
			j++
			continue
		}
		cols := make([]uint64, len(a.vs[i].cols))
		any := false
		for k := range cols {
			cols[k] = a.vs[i].cols[k] ^ b.vs[j].cols[k]
			any = any || cols[k] != 0
		}
		if any {
			r.vs = append(r.vs, affVar{a.vs[i].v, cols})
		}
		i++
		j++
	}
	return r
}

// term is the canonical term of an affine form.
func (a *aff) term() *Term {
	if len(a.vs) == 0 {
		return mkConst(a.w, a.c)
	}
	if len(a.vs) == 1 && a.vs[0].v.w == a.w {
		id := true
		for i, c := range a.vs[0].cols {
			id = id && c == 1<<uint(i)
		}
		if id {
			return tXor(a.vs[0].v, mkConst(a.w, a.c))
		}
	}
	k := a.key()
	affMu.Lock()
	id, ok := affIDs[k]
	if !ok {
		id = len(affIDs) + 1
		affIDs[k] = id
		affByID.Store(id, a)
	}
	affMu.Unlock()
	return mk(OAff, a.w, uint64(id))
}

func (a *aff) vars() []int32 {
	var r []int32
	for _, v := range a.vs {
		r = append(r, int32(v.v.val))
	}
	return r
}

func affGet(t *Term) *aff { return t.aff.Load() }

// reAff builds op(args) as a canonical affine term if an argument already is one.
func reAff(op Op, w uint8, val uint64, args ...*Term) *Term {
	any := false
	for _, x := range args {
		any = any || x.op == OAff
	}
	if !any {
		return nil
	}
	t := &Term{op: op, w: w, val: val, n: uint8(len(args))}
	for i, x := range args {
		t.a[i] = x
	}
	if a := affCompute(t); a != nil {
		return a.term()
	}
	return nil
}

// affEq decides or canonicalises x == y for affine terms.
func affEq(x, y *Term) *Term {
	a, b := affOf(x), affOf(y)
	if a == nil || b == nil {
		return nil
	}
	d := affXor(a, b)
	if len(d.vs) == 0 {
		return mkBool(d.c == 0)
	}
	// rows: one equation per output bit over the concatenated variable bits
	var pos []struct {
		v *Term
		b int
	}
	for _, v := range d.vs {
		for i := range v.cols {
			pos = append(pos, struct {
				v *Term
				b int
			}{v.v, i})
		}
	}
	words := (len(pos) + 64) / 64
	rows := make([][]uint64, d.w)
	for o := range rows {
		rows[o] = make([]uint64, words)
	}
	n := 0
	for _, v := range d.vs {
		for _, c := range v.cols {
			for c != 0 {
				o := bits.TrailingZeros64(c)
				c &= c - 1
				rows[o][n/64] |= 1 << uint(n%64)
			}
			n++
		}
	}
	rhs := func(o int) uint64 { return rows[o][n/64] >> uint(n%64) & 1 }
	for o := range rows {
		if d.c>>uint(o)&1 == 1 {
			rows[o][n/64] |= 1 << uint(n%64)
		}
	}
	rank := 0
	for p := 0; p < n && rank < len(rows); p++ {
		k := -1
		for o := rank; o < len(rows); o++ {
			if rows[o][p/64]>>uint(p%64)&1 == 1 {
				k = o
				break
			}
		}
		if k < 0 {
			continue
		}
		rows[rank], rows[k] = rows[k], rows[rank]
		for o := range rows {
			if o != rank && rows[o][p/64]>>uint(p%64)&1 == 1 {
				for i := range rows[o] {
					rows[o][i] ^= rows[rank][i]
				}
			}
		}
		rank++
	}
	for o := rank; o < len(rows); o++ {
		if rhs(o) == 1 {
			return tFalse
		}
	}
	// when every equation fixes a single bit they become plain bit equalities
	fixed := map[*Term][2]uint64{}
	single := true
	for o := 0; o < rank; o++ {
		cnt, last := 0, 0
		for p := 0; p < n; p++ {
			if rows[o][p/64]>>uint(p%64)&1 == 1 {
				cnt++
				last = p
			}
		}
		if cnt != 1 {
			single = false
			break
		}
		f := fixed[pos[last].v]
		f[0] |= 1 << uint(pos[last].b)
		f[1] |= rhs(o) << uint(pos[last].b)
		fixed[pos[last].v] = f
	}
	if single {
		var fv []*Term
		for v := range fixed {
			fv = append(fv, v)
		}
		sort.Slice(fv, func(i, j int) bool { return fv[i].val < fv[j].val })
		res := tTrue
		for _, v := range fv {
			f := fixed[v]
			res = tBAnd(res, tEq(tAnd(v, mkConst(v.w, f[0])), mkConst(v.w, f[1])))
		}
		return res
	}
	// otherwise compare one canonical term with a constant
	if x.isConst() {
		x, y = y, x
	}
	if y.isConst() {
		return mk(OEq, 0, 0, x, y)
	}
	c := d.c
	d = &aff{w: d.w, vs: d.vs}
	return mk(OEq, 0, 0, d.term(), mkConst(d.w, c))
}

func (a *aff) eval(val func(int32) uint64) uint64 {
	r := a.c
	for _, v := range a.vs {
		x := val(int32(v.v.val))
		for i, c := range v.cols {
			if x>>uint(i)&1 == 1 {
				r ^= c
			}
		}
	}
	return r
}

func (a *aff) smt() string {
	var b strings.Builder
	if a.w > 1 {
		b.WriteString("(concat")
	}
	for o := int(a.w) - 1; o >= 0; o-- {
		if a.w > 1 {
			b.WriteByte(' ')
		}
		var xs []string
		for _, v := range a.vs {
			for i, c := range v.cols {
				if c>>uint(o)&1 == 1 {
					xs = append(xs, fmt.Sprintf("((_ extract %d %d) v%d)", i, i, v.v.val))
				}
			}
		}
		if a.c>>uint(o)&1 == 1 || len(xs) == 0 {
			xs = append(xs, fmt.Sprintf("#b%d", a.c>>uint(o)&1))
		}
		if len(xs) == 1 {
			b.WriteString(xs[0])
		} else {
			b.WriteString(strings.Repeat("(bvxor ", len(xs)-1))
			b.WriteString(xs[0])
			for _, x := range xs[1:] {
				b.WriteByte(' ')
				b.WriteString(x)
				b.WriteByte(')')
			}
		}
	}
	if a.w > 1 {
		b.WriteByte(')')
	}
	return b.String()
}

// ---- queries over affine terms

var affsCache sync.Map // *Term -> []*Term

// affsOf lists the affine terms t is built from.
func affsOf(t *Term) []*Term {
	if t.op == OAff {
		return []*Term{t}
	}
	if t.n == 0 {
		return nil
	}
	if v, ok := affsCache.Load(t); ok {
		return v.([]*Term)
	}
	var r []*Term
	seen := map[*Term]bool{}
	for i := 0; i < int(t.n); i++ {
		for _, a := range affsOf(t.a[i]) {
			if !seen[a] {
				seen[a] = true
				r = append(r, a)
			}
		}
	}
	affsCache.Store(t, r)
	return r
}

// affComplete looks for a model: the affine terms take the values they have in the
// abstract model (where they are unrelated to their variables), the variables
// start from it, and a linear solve makes both agree. Every candidate is checked.
func affComplete(cs, affs []*Term, vals map[int32]uint64, avals map[*Term]uint64, rng func() uint64) map[int32]uint64 {
	var vars []int32
	for _, c := range cs {
		vars = mergeVars(vars, c.vars)
	}
	at := map[int32]int{}
	n := 0
	width := map[int32]int{}
	for _, v := range vars {
		w := int(varWidth(v))
		if w == 0 {
			w = 1
		}
		at[v], width[v] = n, w
		n += w
	}
	words := (n + 64) / 64
	var rows [][]uint64
	addRow := func(set func(func(p int)), rhs uint64) {
		r := make([]uint64, words)
		set(func(p int) { r[p/64] ^= 1 << uint(p%64) })
		if rhs == 1 {
			r[n/64] |= 1 << uint(n%64)
		}
		rows = append(rows, r)
	}
	pinned := map[int32]bool{}
	for _, c := range cs {
		if c.op == OEq && c.a[1].isConst() && c.a[0].op == OVar {
			pinned[int32(c.a[0].val)] = true
			for i := 0; i < int(c.a[0].w); i++ {
				addRow(func(f func(int)) { f(at[int32(c.a[0].val)] + i) }, c.a[1].val>>uint(i)&1)
			}
		}
	}
	for _, t := range affs {
		a := t.aff.Load()
		d := a.c ^ avals[t]
		for o := 0; o < int(a.w); o++ {
			addRow(func(f func(int)) {
				for _, v := range a.vs {
					for i, c := range v.cols {
						if c>>uint(o)&1 == 1 {
							f(at[int32(v.v.val)] + i)
						}
					}
				}
			}, d>>uint(o)&1)
		}
	}
	// eliminate; pivots are chosen in a random column order
	try := func(order []int, start func(v int32) uint64) map[int32]uint64 {
		rs := make([][]uint64, len(rows))
		for i := range rows {
			rs[i] = append([]uint64(nil), rows[i]...)
		}
		var piv []int
		rank := 0
		for _, p := range order {
			k := -1
			for o := rank; o < len(rs); o++ {
				if rs[o][p/64]>>uint(p%64)&1 == 1 {
					k = o
					break
				}
			}
			if k < 0 {
				continue
			}
			rs[rank], rs[k] = rs[k], rs[rank]
			for o := range rs {
				if o != rank && rs[o][p/64]>>uint(p%64)&1 == 1 {
					for i := range rs[o] {
						rs[o][i] ^= rs[rank][i]
					}
				}
			}
			piv = append(piv, p)
			rank++
		}
		for o := rank; o < len(rs); o++ {
			if rs[o][n/64]>>uint(n%64)&1 == 1 {
				return nil
			}
		}
		x := make([]uint64, words)
		for _, v := range vars {
			s := start(v)
			for i := 0; i < width[v]; i++ {
				if s>>uint(i)&1 == 1 {
					x[(at[v]+i)/64] |= 1 << uint((at[v]+i)%64)
				}
			}
		}
		for _, p := range piv {
			x[p/64] &^= 1 << uint(p%64)
		}
		res := append([]uint64(nil), x...)
		for o, p := range piv {
			par := rs[o][n/64] >> uint(n%64) & 1
			for i := range x {
				wd := rs[o][i] & x[i]
				if i == n/64 {
					wd &= 1<<uint(n%64) - 1
				}
				par ^= uint64(bits.OnesCount64(wd)) & 1
			}
			if par == 1 {
				res[p/64] |= 1 << uint(p%64)
			}
		}
		m := newModel()
		for _, v := range vars {
			u := uint64(0)
			for i := 0; i < width[v]; i++ {
				u |= res[(at[v]+i)/64] >> uint((at[v]+i)%64) & 1 << uint(i)
			}
			m.vals[v] = u
		}
		for _, c := range cs {
			if m.eval(c) != 1 {
				return nil
			}
		}
		return m.vals
	}
	order := make([]int, n)
	for i := range order {
		order[i] = i
	}
	for k := 0; k < 60; k++ {
		if k > 0 {
			for i := n - 1; i > 0; i-- {
				j := int(rng() % uint64(i+1))
				order[i], order[j] = order[j], order[i]
			}
		}
		if m := try(order, func(v int32) uint64 {
			if k < 10 || pinned[v] || rng()&3 != 0 {
				return vals[v]
			}
			return rng()
		}); m != nil {
			return m
		}
	}
	return nil
}

// affRelations returns constraints between affine terms alone, which hold for every
// value of the variables: the exact projection of their joint definition.
func affRelations(affs []*Term) []*Term {
	if len(affs) < 2 {
		return nil
	}
	at := map[int32]int{}
	n := 0
	bitsOut := 0
	for _, t := range affs {
		a := t.aff.Load()
		bitsOut += int(a.w)
		for _, v := range a.vs {
			if _, ok := at[int32(v.v.val)]; !ok {
				at[int32(v.v.val)] = n
				n += len(v.cols)
			}
		}
	}
	if bitsOut > 2000 {
		return nil
	}
	total := n + bitsOut + 1
	words := (total + 63) / 64
	var rows [][]uint64
	type ob struct {
		t *Term
		b int
	}
	var outs []ob
	for _, t := range affs {
		a := t.aff.Load()
		for o := 0; o < int(a.w); o++ {
			r := make([]uint64, words)
			flip := func(p int) { r[p/64] ^= 1 << uint(p%64) }
			for _, v := range a.vs {
				for i, c := range v.cols {
					if c>>uint(o)&1 == 1 {
						flip(at[int32(v.v.val)] + i)
					}
				}
			}
			flip(n + len(outs))
			if a.c>>uint(o)&1 == 1 {
				flip(total - 1)
			}
			outs = append(outs, ob{t, o})
			rows = append(rows, r)
		}
	}
	rank := 0
	for p := 0; p < n+bitsOut && rank < len(rows); p++ {
		k := -1
		for o := rank; o < len(rows); o++ {
			if rows[o][p/64]>>uint(p%64)&1 == 1 {
				k = o
				break
			}
		}
		if k < 0 {
			continue
		}
		rows[rank], rows[k] = rows[k], rows[rank]
		lo := 0
		if p < n {
			lo = rank // the part that is kept is reduced fully
		}
		for o := lo; o < len(rows); o++ {
			if o != rank && rows[o][p/64]>>uint(p%64)&1 == 1 {
				for i := range rows[o] {
					rows[o][i] ^= rows[rank][i]
				}
			}
		}
		rank++
	}
	var res []*Term
	for _, r := range rows {
		zero := true
		for p := 0; p < n && zero; p++ {
			zero = r[p/64]>>uint(p%64)&1 == 0
		}
		if !zero {
			continue
		}
		x := mkConst(1, r[(total-1)/64]>>uint((total-1)%64)&1)
		var e *Term
		for q := 0; q < bitsOut; q++ {
			p := n + q
			if r[p/64]>>uint(p%64)&1 == 0 {
				continue
			}
			b := outs[q].t
			if b.w > 1 {
				b = mk(OExtract, 1, uint64(outs[q].b)<<8|uint64(outs[q].b), b)
			}
			if e == nil {
				e = b
			} else {
				e = mk(OXor, 1, 0, e, b)
			}
		}
		if e != nil {
			res = append(res, mk(OEq, 0, 0, e, x))
		}
	}
	return res
}
