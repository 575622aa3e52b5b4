package main

import (
	"fmt"
	"math/rand"
)

// runSelftest builds random terms twice: through the simplifying constructors and as plain evaluation, and compares them on random models.
func runSelftest(n int) int {
	rng := rand.New(rand.NewSource(seed()))
	bad := 0
	var vars []*Term
	for i := 0; i < 4; i++ {
		vars = append(vars, newVar(fmt.Sprintf("s%d", i), []uint8{8, 8, 16, 64}[i]))
	}
	sv := newSolver()
	defer sv.close()
	solverChecks := 0
	type pr struct {
		t *Term
		f func(m *Model) uint64
	}
	consts := []uint64{0, 1, 2, 3, 7, 8, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0xff800000, 1 << 63, ^uint64(0)}
	for it := 0; it < n; it++ {
		pool := []pr{}
		for _, v := range vars {
			v := v
			pool = append(pool, pr{v, func(m *Model) uint64 { return m.vals[int32(v.val)] }})
		}
		pick := func(w uint8) pr {
			if rng.Intn(4) == 0 {
				c := consts[rng.Intn(len(consts))] & maskW(w)
				return pr{mkConst(w, c), func(*Model) uint64 { return c }}
			}
			for k := 0; k < 20; k++ {
				p := pool[len(pool)-1-rng.Intn(min(len(pool), 8))]
				if p.t.w == w {
					return p
				}
			}
			p := pool[rng.Intn(len(pool))]
			if p.t.w == 0 {
				c := consts[rng.Intn(len(consts))] & maskW(w)
				return pr{mkConst(w, c), func(*Model) uint64 { return c }}
			}
			f := p.f
			pw := p.t.w
			if pw > w {
				return pr{tExtract(p.t, w-1, 0), func(m *Model) uint64 { return f(m) & maskW(w) }}
			}
			if w == 0 {
				return p
			}
			if rng.Intn(2) == 0 {
				return pr{tZExt(p.t, w), f}
			}
			return pr{tSExt(p.t, w), func(m *Model) uint64 { return uint64(sext64(f(m), pw)) & maskW(w) }}
		}
		var res []pr
		for s := 0; s < 12; s++ {
			w := []uint8{8, 16, 32, 64}[rng.Intn(4)]
			a, b := pick(w), pick(w)
			if a.t.w != w || b.t.w != w {
				continue
			}
			var q pr
			bin := func(op Op, f func(x, y *Term) *Term, ow uint8) {
				q = pr{f(a.t, b.t), func(m *Model) uint64 { return evalOp(op, ow, 0, a.f(m), b.f(m), 0, w, w) }}
			}
			kind := rng.Intn(20)
			if it%2 == 1 { // mostly GF(2)-affine operations
				kind = []int{5, 5, 5, 5, 14, 15, 15, 17, 18, 9}[rng.Intn(10)]
			}
			switch kind {
			case 0:
				bin(OAdd, tAdd, w)
			case 1:
				bin(OSub, tSub, w)
			case 2:
				bin(OMul, tMul, w)
			case 3:
				bin(OAnd, tAnd, w)
			case 4:
				bin(OOr, tOr, w)
			case 5:
				bin(OXor, tXor, w)
			case 6:
				bin(OShl, tShl, w)
			case 7:
				bin(OLShr, tLShr, w)
			case 8:
				bin(OAShr, tAShr, w)
			case 9:
				bin(OEq, tEq, 0)
			case 10:
				bin(OUlt, tUlt, 0)
			case 11:
				bin(OSlt, tSlt, 0)
			case 12:
				bin(OUle, tUle, 0)
			case 13:
				bin(OSle, tSle, 0)
			case 14:
				q = pr{tNot(a.t), func(m *Model) uint64 { return ^a.f(m) & maskW(w) }}
			case 15:
				c := mkConst(w, uint64(rng.Intn(int(w))))
				if rng.Intn(2) == 0 {
					q = pr{tShl(a.t, c), func(m *Model) uint64 { return a.f(m) << c.val & maskW(w) }}
				} else if rng.Intn(2) == 0 {
					q = pr{tLShr(a.t, c), func(m *Model) uint64 { return a.f(m) >> c.val }}
				} else {
					q = pr{tAShr(a.t, c), func(m *Model) uint64 { return uint64(sext64(a.f(m), w)>>c.val) & maskW(w) }}
				}
			case 16:
				c := pick(w)
				d := pick(w)
				cond := tUlt(c.t, d.t)
				q = pr{tIte(cond, a.t, b.t), func(m *Model) uint64 {
					if c.f(m) < d.f(m) {
						return a.f(m)
					}
					return b.f(m)
				}}
			case 17:
				if w < 64 {
					q = pr{tConcat(a.t, b.t), func(m *Model) uint64 { return a.f(m)<<w | b.f(m) }}
				} else {
					continue
				}
			case 18:
				hi := uint8(rng.Intn(int(w)))
				lo := uint8(rng.Intn(int(hi) + 1))
				q = pr{tExtract(a.t, hi, lo), func(m *Model) uint64 { return a.f(m) >> lo & maskW(hi-lo+1) }}
			case 19:
				ops := []Op{OUDiv, OURem, OSDiv, OSRem}
				op := ops[rng.Intn(4)]
				k := consts[1+rng.Intn(6)]
				q = pr{tDiv(op, a.t, mkConst(w, k)), func(m *Model) uint64 { return evalOp(op, w, 0, a.f(m), k&maskW(w), 0, w, w) }}
			}
			if q.t == nil {
				continue
			}
			res = append(res, q)
			if q.t.w == 8 || q.t.w == 16 || q.t.w == 32 || q.t.w == 64 {
				pool = append(pool, q)
			}
		}
		for k := 0; k < 6; k++ {
			m := newModel()
			for _, v := range vars {
				c := rng.Uint64()
				if rng.Intn(2) == 0 {
					c = consts[rng.Intn(len(consts))]
				}
				m.vals[int32(v.val)] = c & maskW(v.w)
			}
			for _, q := range res {
				e := q.f(m)
				if g := m.eval(q.t); g != e {
					fmt.Printf("simplifier mismatch: %s = %d, want %d\n", q.t, g, e)
					bad++
				}
				if v := e; q.t.w > 0 && (v&q.t.k0 != 0 || ^v&q.t.k1 != 0) {
					fmt.Printf("known-bits mismatch: %s\n", q.t)
					bad++
				}
			}
			// the solver must agree on a concrete point
			if k == 0 && it%20 == 0 && len(res) > 0 {
				q := res[len(res)-1]
				var cs []*Term
				for _, v := range vars {
					cs = append(cs, mk(OEq, 0, 0, v, mkConst(v.w, m.vals[int32(v.val)])))
				}
				if q.t.w == 0 {
					cs = append(cs, tEq(q.t, mkBool(q.f(m) == 1)))
				} else {
					cs = append(cs, mk(OEq, 0, 0, q.t, mkConst(q.t.w, q.f(m))))
				}
				r, _ := sv.check(cs)
				solverChecks++
				if r != Sat {
					fmt.Printf("solver disagrees (%v): %s\n", r, q.t)
					bad++
				}
			}
		}
		if bad > 10 {
			break
		}
	}
	fmt.Printf("selftest: %d rounds, %d solver checks, %d mismatches\n", n, solverChecks, bad)
	if bad > 0 {
		return 1
	}
	return 0
}
