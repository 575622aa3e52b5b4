package main

import (
	"fmt"
	"go/types"
	"math/bits"
	"strings"
)

// Strings with decimal numbers of symbolic value: Str.parts holds literal pieces
// and numbers in order. They are compared part by part where that is exact, and
// expanded to bytes (forking on sign and number of digits) where a string is inspected.

type strPart struct {
	s      *Str // literal piece
	n      *Term
	signed bool
}

func partsOf(s *Str) []strPart {
	if s.parts != nil {
		return s.parts
	}
	return []strPart{{s: s}}
}

func mkParts(ps []strPart) *Str {
	var out []strPart
	dec := false
	for _, p := range ps {
		if p.n != nil && p.n.isConst() {
			v := fmt.Sprint(p.n.val)
			if p.signed {
				v = fmt.Sprint(sext64(p.n.val, p.n.w))
			}
			p = strPart{s: cstr(v)}
		}
		if p.n != nil {
			dec = true
			out = append(out, p)
			continue
		}
		if p.s.length() == 0 {
			continue
		}
		if len(out) > 0 && out[len(out)-1].n == nil {
			out[len(out)-1].s = catPlain(out[len(out)-1].s, p.s)
			continue
		}
		out = append(out, p)
	}
	if dec {
		return &Str{parts: out}
	}
	if len(out) == 0 {
		return cstr("")
	}
	return out[0].s
}

func catPlain(a, b *Str) *Str {
	if a.sym == nil && b.sym == nil {
		return &Str{s: a.s + b.s}
	}
	return mkStr(append(append([]*Term(nil), a.terms()...), b.terms()...))
}

// concat joins two strings.
func concat(a, b *Str) *Str {
	if s, ok := a.concrete(); ok && s == "" {
		return b
	}
	if s, ok := b.concrete(); ok && s == "" {
		return a
	}
	if a.fm != nil || b.fm != nil {
		return &Str{fm: &fmtStr{format: "%s%s", args: []Value{a, b}}}
	}
	if a.parts != nil || b.parts != nil {
		return mkParts(append(append([]strPart(nil), partsOf(a)...), partsOf(b)...))
	}
	return catPlain(a, b)
}

// plain expands the numbers of a string.
func (x *X) plain(s *Str) *Str {
	if s.parts == nil {
		return s
	}
	var ts []*Term
	for _, p := range s.parts {
		if p.n == nil {
			ts = append(ts, p.s.terms()...)
			continue
		}
		ts = append(ts, x.digits(p.n, p.signed)...)
	}
	return mkStr(ts)
}

func (x *X) digits(t *Term, signed bool) []*Term {
	var out []*Term
	u := t
	if signed && x.decide(tSlt(t, mkConst(t.w, 0))) {
		out = append(out, mkConst(8, '-'))
		u = tNeg(t)
	}
	n := 1
	lim := uint64(10)
	for n < 20 && (u.w == 64 || lim < 1<<u.w) {
		if x.decide(tUlt(u, mkConst(u.w, lim))) {
			break
		}
		n++
		if n == 20 {
			break
		}
		lim *= 10
	}
	// the value is below 10^n: narrow it before dividing
	if n < 19 {
		p := uint64(1)
		for i := 0; i < n; i++ {
			p *= 10
		}
		w := uint8(bits.Len64(p - 1))
		if w < 8 {
			w = 8
		}
		if w < u.w {
			u = tExtract(u, w-1, 0)
		}
	}
	div := uint64(1)
	for i := 1; i < n; i++ {
		div *= 10
	}
	for i := 0; i < n; i++ {
		q := tDiv(OUDiv, u, mkConst(u.w, div))
		if i > 0 {
			q = tDiv(OURem, q, mkConst(u.w, 10))
		}
		out = append(out, tAdd(tExtract(q, 7, 0), mkConst(8, '0')))
		div /= 10
	}
	return out
}

type piece struct {
	b *Term
	p strPart
}

func pieces(s *Str) []piece {
	var r []piece
	for _, p := range partsOf(s) {
		if p.n != nil {
			r = append(r, piece{p: p})
			continue
		}
		for _, t := range p.s.terms() {
			r = append(r, piece{b: t})
		}
	}
	return r
}

func isDigit(c uint64) bool { return c >= '0' && c <= '9' }

// delim: nothing that continues a number follows at position i
func delim(a []piece, i int) bool {
	if i >= len(a) {
		return true
	}
	return a[i].b != nil && a[i].b.isConst() && !isDigit(a[i].b.val)
}

// eqParts compares strings with numbers; ok is false when the numbers have to be expanded.
func eqParts(a, b *Str) (r *Term, ok bool) {
	p, q := pieces(a), pieces(b)
	i, j := 0, 0
	r = tTrue
	for i < len(p) && j < len(q) {
		if p[i].b != nil && q[j].b != nil {
			r = tBAnd(r, tEq(p[i].b, q[j].b))
			if r.isFalse() {
				return r, true
			}
			i++
			j++
			continue
		}
		if p[i].b == nil && q[j].b == nil {
			m, n := p[i].p, q[j].p
			if !delim(p, i+1) || !delim(q, j+1) || m.signed != n.signed {
				return nil, false
			}
			e := func(s strPart) *Term {
				if s.n.w == 64 {
					return s.n
				}
				if s.signed {
					return tSExt(s.n, 64)
				}
				return tZExt(s.n, 64)
			}
			r = tBAnd(r, tEq(e(m), e(n)))
			if r.isFalse() {
				return r, true
			}
			i++
			j++
			continue
		}
		// a number against a literal
		num, lit, k := p[i].p, q, j
		nd := delim(p, i+1)
		if p[i].b != nil {
			num, lit, k = q[j].p, p, i
			nd = delim(q, j+1)
		}
		if !nd {
			return nil, false
		}
		txt := ""
		e := k
		for e < len(lit) {
			if lit[e].b == nil || !lit[e].b.isConst() {
				return nil, false
			}
			c := lit[e].b.val
			if !isDigit(c) && !(e == k && c == '-') {
				break
			}
			txt += string(rune(c))
			e++
		}
		var c *Term
		if num.signed {
			var v int64
			if _, err := fmt.Sscanf(txt, "%d", &v); err != nil || fmt.Sprint(v) != txt {
				return tFalse, true
			}
			c = mkConst(num.n.w, uint64(v))
			if sext64(c.val, c.w) != v {
				return tFalse, true
			}
		} else {
			var v uint64
			if _, err := fmt.Sscanf(txt, "%d", &v); err != nil || fmt.Sprint(v) != txt {
				return tFalse, true
			}
			c = mkConst(num.n.w, v)
			if c.val != v {
				return tFalse, true
			}
		}
		r = tBAnd(r, tEq(num.n, c))
		if r.isFalse() {
			return r, true
		}
		if p[i].b == nil {
			i++
			j = e
		} else {
			j++
			i = e
		}
	}
	if i < len(p) || j < len(q) {
		return tFalse, true
	}
	return r, true
}

// fmtArg formats one operand with a verb (spec is the whole directive).
func (x *X) fmtArg(spec string, verb byte, v Value) (*Str, bool) {
	if n, ok := x.native(v); ok {
		return cstr(fmt.Errorf(spec, n).Error()), true
	}
	i, ok := v.(Iface)
	if !ok || i.t == nil {
		return nil, false
	}
	plainSpec := len(spec) == 2
	if i.t == x.run.prog.fmtErrP || types.Identical(i.t, x.run.prog.fmtErrP) || i.t.String() == "*errors.errorString" {
		p := i.v.(Ptr)
		if p.obj == 0 || !plainSpec || verb != 's' && verb != 'v' && verb != 'w' {
			return nil, false
		}
		return x.st.obj(p.obj).get(0).(*Str), true
	}
	switch b := i.t.Underlying().(type) {
	case *types.Basic:
		if s, ok := i.v.(*Str); ok {
			if plainSpec && (verb == 's' || verb == 'v') {
				return s, true
			}
			return nil, false
		}
		t, ok := i.v.(*Term)
		if !ok {
			return nil, false
		}
		if t.isConst() { // a named type with methods: the stubs have replaced text verbs already
			if verb != 'd' && verb != 'x' && verb != 'X' && verb != 'v' && verb != 't' {
				return nil, false
			}
			n, ok := x.native(Iface{i.t.Underlying(), t})
			if !ok {
				return nil, false
			}
			return cstr(fmt.Sprintf(spec, n)), true
		}
		switch {
		case b.Info()&types.IsBoolean != 0:
			if verb != 'v' && verb != 't' {
				return nil, false
			}
			return cstr(fmt.Sprintf(spec, x.decide(t))), true
		case b.Info()&types.IsFloat != 0:
			return nil, false
		case b.Info()&types.IsInteger != 0:
			if plainSpec && (verb == 'd' || verb == 'v') {
				return mkParts([]strPart{{n: t, signed: b.Info()&types.IsUnsigned == 0}}), true
			}
			if (verb == 'x' || verb == 'X') && t.w == 8 && b.Info()&types.IsUnsigned != 0 {
				base := uint64('a' - 10)
				if verb == 'X' {
					base = 'A' - 10
				}
				nib := func(n *Term) *Term {
					return tIte(tUlt(n, mkConst(8, 10)), tAdd(n, mkConst(8, '0')), tAdd(n, mkConst(8, base)))
				}
				hi, lo := nib(tZExt(tExtract(t, 7, 4), 8)), nib(tZExt(tExtract(t, 3, 0), 8))
				if spec[1:len(spec)-1] == "02" {
					return mkStr([]*Term{hi, lo}), true
				}
				if plainSpec {
					if x.decide(tUlt(t, mkConst(8, 16))) {
						return mkStr([]*Term{lo}), true
					}
					return mkStr([]*Term{hi, lo}), true
				}
			}
		}
		return nil, false
	case *types.Slice, *types.Array:
		var et types.Type
		var els []Value
		if sl, ok := b.(*types.Slice); ok {
			et = sl.Elem()
			if layoutOf(et).n != 1 {
				return nil, false
			}
			els = x.sliceElems(i.v.(Slice), 1)
		} else {
			et = b.(*types.Array).Elem()
			if layoutOf(et).n != 1 {
				return nil, false
			}
			els = flat(i.v)
		}
		bb, ok := et.Underlying().(*types.Basic)
		if !ok || !plainSpec {
			return nil, false
		}
		if bytesT := bb.Kind() == types.Uint8; bytesT && verb != 'v' && verb != 'd' {
			switch verb {
			case 's':
				ts := make([]*Term, len(els))
				for k := range els {
					ts[k] = els[k].(*Term)
				}
				return mkStr(ts), true
			case 'x':
				r := cstr("")
				for _, e := range els {
					s, ok := x.fmtArg("%02x", 'x', Iface{types.Typ[types.Uint8], e})
					if !ok {
						return nil, false
					}
					r = concat(r, s)
				}
				return r, true
			}
			return nil, false
		}
		if n, ok := et.(*types.Named); ok && n.NumMethods() > 0 {
			return nil, false
		}
		r := cstr("[")
		for k, e := range els {
			if k > 0 {
				r = concat(r, cstr(" "))
			}
			s, ok := x.fmtArg(spec, verb, Iface{et, e})
			if !ok {
				return nil, false
			}
			r = concat(r, s)
		}
		return concat(r, cstr("]")), true
	}
	return nil, false
}

type directive struct {
	lit  string // text before the directive
	spec string // "" at the end
	verb byte
}

// directives splits a format without explicit argument indexes and stars.
func directives(f string) ([]directive, bool) {
	var r []directive
	lit := ""
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			lit += f[i : i+1]
			continue
		}
		j := i + 1
		for j < len(f) && strings.IndexByte("+-# 0123456789.", f[j]) >= 0 {
			j++
		}
		if j >= len(f) {
			return nil, false
		}
		if f[j] == '%' {
			lit += "%"
			i = j
			continue
		}
		if !(f[j] >= 'a' && f[j] <= 'z' || f[j] >= 'A' && f[j] <= 'Z') {
			return nil, false
		}
		r = append(r, directive{lit, f[i : j+1], f[j]})
		lit = ""
		i = j
	}
	return append(r, directive{lit: lit}), true
}

func (x *X) sprintf(f *Str, args Slice) *Str {
	els := x.sliceElems(args, 1)
	f = x.plain(f)
	fs, ok := f.concrete()
	if !ok {
		if f.fm != nil && len(els) == 0 {
			return f
		}
		if f.fm == nil && len(els) == 0 { // text without directives stays as it is
			plain := true
			for _, t := range f.terms() {
				if x.decide(tEq(t, mkConst(8, '%'))) {
					plain = false
					break
				}
			}
			if plain {
				return f
			}
		}
		return &Str{fm: &fmtStr{"<symbolic format>", append([]Value{f}, els...)}}
	}
	var nat []interface{}
	for _, e := range els {
		n, ok := x.native(e)
		if !ok {
			break
		}
		nat = append(nat, n)
	}
	if len(nat) == len(els) {
		return cstr(fmt.Errorf(fs, nat...).Error()) // as Sprintf, and knows %w
	}
	ds, ok := directives(fs)
	if ok && len(ds) == len(els)+1 {
		r := cstr("")
		for i, d := range ds {
			r = concat(r, cstr(d.lit))
			if d.spec == "" {
				return r
			}
			s, ok := x.fmtArg(d.spec, d.verb, els[i])
			if !ok {
				break
			}
			r = concat(r, s)
		}
	}
	return &Str{fm: &fmtStr{fs, els}}
}

type fmtError string

func (e fmtError) Error() string { return string(e) }

func (x *X) sprint(kind string, args Slice) *Str {
	els := x.sliceElems(args, 1)
	r := cstr("")
	isStr := func(v Value) bool {
		i, ok := v.(Iface)
		return ok && i.t != nil && isString(i.t) && i.t.String() != vpPath+".text"
	}
	for k, e := range els {
		if k > 0 && (kind == "%!sprintln" || !isStr(e) && !isStr(els[k-1])) {
			r = concat(r, cstr(" "))
		}
		s, ok := x.fmtArg("%v", 'v', e)
		if !ok {
			return &Str{fm: &fmtStr{kind, els}}
		}
		r = concat(r, s)
	}
	if kind == "%!sprintln" {
		r = concat(r, cstr("\n"))
	}
	return r
}
