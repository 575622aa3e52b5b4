package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type goPanic struct{ val Iface }

type blockSig struct {
	ready func(*State) bool
	why   string
}

// X is the execution context of one worker.
type X struct {
	st     *State
	sv     *Solver
	run    *Run
	in     *cinstr
	funcs  map[*ssa.Function]int
	instrs int64
}

func (x *X) rtPanic(msg string) {
	panic(goPanic{x.run.prog.runtimeErr(msg)})
}

func constValue(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return zeroValue(t)
	}
	if tp, ok := t.(*types.TypeParam); ok {
		panic(unsupported("type param const " + tp.String()))
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		panic(unsupported("const of type " + t.String()))
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return mkBool(constant.BoolVal(c.Value))
	case b.Info()&types.IsString != 0:
		if c.Value.Kind() == constant.String {
			return &Str{s: constant.StringVal(c.Value)}
		}
		return &Str{s: string(rune(c.Int64()))}
	case b.Info()&types.IsFloat != 0:
		f := c.Float64()
		if basicWidth(b) == 32 {
			return mkConst(32, uint64(math.Float32bits(float32(f))))
		}
		return mkConst(64, math.Float64bits(f))
	case b.Info()&types.IsInteger != 0:
		w := basicWidth(b)
		if b.Info()&types.IsUnsigned != 0 {
			return mkConst(w, c.Uint64())
		}
		return mkConst(w, uint64(c.Int64()))
	}
	panic(unsupported("const " + c.String()))
}

// ---- decisions ----

func (x *X) feasible(c *Term) (SatResult, map[int32]uint64) {
	cs := sliceConstraints(x.st.pc, c.vars)
	return x.sv.check(append(cs, c))
}

func (x *X) decide(c *Term) bool {
	if c.isConst() {
		return c.val == 1
	}
	st := x.st
	if v, ok := st.lookup(c); ok {
		return v
	}
	b := st.model.eval(c) == 1
	if st.allPinned(c.vars) {
		return b
	}
	other := c
	if b {
		other = tBNot(c)
	}
	r, vals := x.feasible(other)
	switch r {
	case Unsat:
		st.known[c] = b
		return b
	case Unknown:
		x.run.incomplete("solver unknown on a branch")
		st.addPC(tBNot(other))
		return b
	}
	n := st.clone()
	m := st.model.clone()
	for k, v := range vals {
		m.vals[k] = v
	}
	n.model = m
	n.addPC(other)
	n.depth++
	st.depth++
	x.run.push(n)
	st.addPC(tBNot(other))
	return b
}

// concretize forks over all feasible values of t.
func (x *X) concretize(t *Term) uint64 {
	if t.isConst() {
		return t.val
	}
	v := x.st.model.eval(t)
	c := tEq(t, mkConst(t.w, v))
	if !x.decide(c) {
		panic("concretize")
	}
	return v
}

func (x *X) assume(c *Term) {
	if c.isTrue() {
		return
	}
	st := x.st
	if v, ok := st.lookup(c); ok {
		if v {
			return
		}
		panic(pathEnd{kind: "assume"})
	}
	if st.model.eval(c) == 1 {
		st.addPC(c)
		return
	}
	r, vals := x.feasible(c)
	switch r {
	case Unsat:
		panic(pathEnd{kind: "assume"})
	case Unknown:
		x.run.incomplete("solver unknown on an assumption")
		panic(pathEnd{kind: "assume"})
	}
	m := st.model.clone()
	for k, v := range vals {
		m.vals[k] = v
	}
	st.model = m
	st.addPC(c)
}

// assert reports a violation when ¬c is satisfiable, then continues under c.
func (x *X) assert(c *Term, label string) {
	st := x.st
	if c.isTrue() {
		x.run.discharged(label, false)
		return
	}
	if v, ok := st.lookup(c); ok && v {
		x.run.discharged(label, false)
		return
	}
	r, vals := x.feasible(tBNot(c))
	switch r {
	case Unsat:
		x.run.discharged(label, true)
		st.known[c] = true
		return
	case Unknown:
		x.run.incomplete("solver unknown on assertion " + label)
		x.assume(c)
		return
	}
	m := st.model.clone()
	for k, v := range vals {
		m.vals[k] = v
	}
	x.run.violation(x, "assert", label, "assertion can fail", m)
	x.assume(c)
}

func (x *X) newInput(name string, w uint8) *Term {
	st := x.st
	t := seqVar(st.nvars, w)
	st.nvars++
	st.inputs = append(st.inputs[:len(st.inputs):len(st.inputs)], inputRec{name, t})
	return t
}

func (x *X) schedChoose(n int, what string) int {
	st := x.st
	if n <= 1 || (st.delays == 0 && what != "maporder") {
		return 0
	}
	v := x.schedRaw(n, what)
	if v != 0 && st.delays > 0 && what != "maporder" {
		st.delays--
	}
	return v
}

func (x *X) schedRaw(n int, what string) int {
	st := x.st
	t := seqVar(1000000+st.nsched, 8)
	c := tUlt(t, mkConst(8, uint64(n)))
	if v, ok := st.lookup(c); !ok || !v {
		x.assume(c)
	}
	v := x.concretize(t)
	st.nsched++
	if len(st.schedlog) < 500 {
		st.schedlog = append(st.schedlog[:len(st.schedlog):len(st.schedlog)], fmt.Sprintf("%s=%d/%d", what, v, n))
	}
	return int(v)
}

// ---- operand access ----

func (x *X) val(f *Frame, o *operand) Value {
	if o.reg >= 0 {
		return f.regs[o.reg]
	}
	if o.glob != nil {
		return Ptr{x.run.prog.globalObj(o.glob), 0}
	}
	return o.val
}

func (x *X) term(v Value) *Term {
	t, ok := v.(*Term)
	if !ok {
		panic(unsupported(fmt.Sprintf("expected scalar, got %T", v)))
	}
	return t
}

// ---- memory ----

func (x *X) load(p Value, t types.Type) Value {
	st := x.st
	switch q := p.(type) {
	case Ptr:
		if q.obj == 0 {
			x.rtPanic("invalid memory address or nil pointer dereference")
		}
		o := st.obj(q.obj)
		if o.poison != "" {
			if v := x.globalErr(); v != nil {
				return v
			}
			if x.run.name == "init" {
				return zeroValue(t)
			}
			panic(unsupported("read of uninitialised global " + o.poison))
		}
		l := layoutOf(t)
		if !l.agg {
			if q.off >= o.size() {
				panic(unsupported("load outside object"))
			}
			return o.get(q.off)
		}
		if q.off+l.n > o.size() {
			panic(unsupported("aggregate load outside object"))
		}
		r := make(Agg, l.n)
		for i := range r {
			r[i] = o.get(q.off + i)
		}
		return r
	case SymPtr:
		return x.symLoad(q)
	}
	panic(unsupported(fmt.Sprintf("load through %T", p)))
}

func (x *X) symLoad(q SymPtr) Value {
	o := x.st.obj(q.obj)
	tc := o.tab.Load()
	if tc == nil || tc.off != q.off || tc.n != q.n {
		tc = &tabCache{off: q.off, n: q.n, ok: true}
		for i := 0; i < q.n; i++ {
			t, ok := o.get(q.off + i).(*Term)
			if !ok || !t.isConst() {
				tc.ok = false
				break
			}
			tc.w = t.w
			tc.vals = append(tc.vals, t.val)
		}
		if tc.w == 0 {
			tc.ok = false
		}
		o.tab.Store(tc)
	}
	if tc.ok {
		return mkTable(tc.vals, tc.w, q.idx)
	}
	// ITE chain
	if q.n > 64 {
		i := x.concretize(q.idx)
		return o.get(q.off + int(i))
	}
	var r *Term
	for i := q.n - 1; i >= 0; i-- {
		t := x.term(o.get(q.off + i))
		if r == nil {
			r = t
		} else {
			r = tIte(tEq(q.idx, mkConst(q.idx.w, uint64(i))), t, r)
		}
	}
	return r
}

func (x *X) store(p Value, v Value) {
	st := x.st
	switch q := p.(type) {
	case SymPtr:
		i := x.concretize(q.idx)
		x.store(Ptr{q.obj, q.off + int(i)}, v)
		return
	case Ptr:
		if q.obj == 0 {
			x.rtPanic("invalid memory address or nil pointer dereference")
		}
		if a, ok := v.(Agg); ok {
			if len(a) == 0 {
				return
			}
			o := st.wobj(q.obj)
			if q.off+len(a) > o.size() {
				panic(unsupported("aggregate store outside object"))
			}
			for i, e := range a {
				o.set(q.off+i, e)
			}
			return
		}
		o := st.wobj(q.obj)
		if o.poison != "" {
			if x.run.name == "init" {
				return
			}
			panic(unsupported("write of uninitialised global " + o.poison))
		}
		if q.off >= o.size() {
			panic(unsupported("store outside object"))
		}
		o.set(q.off, v)
		return
	}
	panic(unsupported(fmt.Sprintf("store through %T", p)))
}

func (x *X) sliceElems(s Slice, esize int) []Value {
	if s.len == 0 {
		return nil
	}
	o := x.st.obj(s.obj)
	n := s.len * esize
	r := make([]Value, n)
	for i := range r {
		r[i] = o.get(s.off + i)
	}
	return r
}

func (x *X) byteTerms(s Slice) []*Term {
	r := make([]*Term, s.len)
	if s.len == 0 {
		return r
	}
	o := x.st.obj(s.obj)
	for i := range r {
		r[i] = o.get(s.off + i).(*Term)
	}
	return r
}

func (x *X) newBytes(ts []*Term) Slice {
	o := &Object{kind: oBytes, b: make([]byte, len(ts))}
	for i, t := range ts {
		o.set(i, t)
	}
	return Slice{x.st.newObj(o), 0, len(ts), len(ts)}
}

// ---- equality ----

func (x *X) eqStr(a, b *Str) *Term {
	if a.fm != nil || b.fm != nil {
		if a == b {
			return tTrue
		}
		if a.fm != nil && b.fm != nil && a.fm.format == b.fm.format && len(a.fm.args) == len(b.fm.args) {
			// equal when all args are equal; only used for tests of identical format
			r := tTrue
			for i := range a.fm.args {
				r = tBAnd(r, x.eq(a.fm.args[i], b.fm.args[i]))
			}
			if r.isTrue() {
				return tTrue
			}
		}
		panic(unsupported("comparing formatted strings"))
	}
	if a.parts != nil || b.parts != nil {
		if a == b {
			return tTrue
		}
		if r, ok := eqParts(a, b); ok {
			return r
		}
		a, b = x.plain(a), x.plain(b)
	}
	n := a.length()
	if n != b.length() {
		return tFalse
	}
	if a.sym == nil && b.sym == nil {
		return mkBool(a.s == b.s)
	}
	r := tTrue
	for i := 0; i < n; i++ {
		r = tBAnd(r, tEq(a.at(i), b.at(i)))
		if r.isFalse() {
			return r
		}
	}
	return r
}

func (x *X) eq(a, b Value) *Term {
	switch p := a.(type) {
	case *Term:
		return tEq(p, b.(*Term))
	case *Str:
		return x.eqStr(p, b.(*Str))
	case Iface:
		q, ok := b.(Iface)
		if !ok {
			panic(unsupported("iface compare"))
		}
		if p.t == nil || q.t == nil {
			return mkBool(p.t == nil && q.t == nil)
		}
		if !types.Identical(p.t, q.t) {
			return tFalse
		}
		if !types.Comparable(p.t) {
			x.rtPanic("comparing uncomparable type " + p.t.String())
		}
		if isFloat(p.t) {
			return fpEq(p.v.(*Term), q.v.(*Term))
		}
		return x.eq(p.v, q.v)
	case Agg:
		q := b.(Agg)
		r := tTrue
		for i := range p {
			r = tBAnd(r, x.eq(p[i], q[i]))
		}
		return r
	case Slice:
		q := b.(Slice)
		if q.obj == 0 {
			return mkBool(p.obj == 0)
		}
		return mkBool(p.obj == 0 && q.obj == 0)
	case *Closure:
		q, _ := b.(*Closure)
		return mkBool(p == nil && q == nil)
	case Ptr:
		if q, ok := b.(Ptr); ok {
			return mkBool(p == q)
		}
		return tFalse
	}
	return mkBool(a == b)
}

// float comparison on IEEE bit patterns
func fpParts(w uint8) (sign uint64, inf uint64) {
	if w == 32 {
		return 1 << 31, 0x7f800000
	}
	return 1 << 63, 0x7ff0000000000000
}
func fpNaN(a *Term) *Term {
	s, inf := fpParts(a.w)
	return tUlt(mkConst(a.w, inf), tAnd(a, mkConst(a.w, ^s)))
}
func fpZero(a *Term) *Term {
	s, _ := fpParts(a.w)
	return tEq(tAnd(a, mkConst(a.w, ^s)), mkConst(a.w, 0))
}
func fpEq(a, b *Term) *Term {
	return tBAnd(tBNot(fpNaN(a)), tBAnd(tBNot(fpNaN(b)), tBOr(tEq(a, b), tBAnd(fpZero(a), fpZero(b)))))
}
func fpKey(a *Term) *Term { // monotone key as signed integer of the same width
	s, _ := fpParts(a.w)
	mag := tAnd(a, mkConst(a.w, ^s))
	neg := tEq(tExtract(a, a.w-1, a.w-1), mkConst(1, 1))
	return tIte(neg, tSub(mkConst(a.w, 0), mag), mag)
}
func fpLt(a, b *Term) *Term {
	return tBAnd(tBNot(fpNaN(a)), tBAnd(tBNot(fpNaN(b)), tSlt(fpKey(a), fpKey(b))))
}
func fpLe(a, b *Term) *Term { return tBOr(fpLt(a, b), fpEq(a, b)) }

func fval(t *Term) float64 {
	if t.w == 32 {
		return float64(math.Float32frombits(uint32(t.val)))
	}
	return math.Float64frombits(t.val)
}
func fmk(w uint8, f float64) *Term {
	if w == 32 {
		return mkConst(32, uint64(math.Float32bits(float32(f))))
	}
	return mkConst(64, math.Float64bits(f))
}

// ---- main loop ----

func (x *X) runState(st *State) (end pathEnd) {
	x.st = st
	if st.needSched {
		if e, again := x.guard(x.schedule); !again {
			return e
		}
	}
	for {
		e, again := x.slice()
		if !again {
			return e
		}
	}
}

// slice runs until a control event (Go panic used for signalling) happens.
func (x *X) slice() (end pathEnd, again bool) {
	defer func() {
		if r := recover(); r != nil {
			switch p := r.(type) {
			case pathEnd:
				end, again = p, false
			case goPanic:
				end, again = x.guard(func() { x.startPanic(p.val) })
			case switchSig:
				end, again = pathEnd{}, true
			case blockSig:
				end, again = x.guard(func() {
					g := x.st.gs[x.st.cur]
					g.ready = p.ready
					g.why = p.why
					x.schedule()
				})
			default:
				panic(r)
			}
		}
	}()
	st := x.st
	n := 0
	for {
		g := st.gs[st.cur]
		f := g.frames[len(g.frames)-1]
		in := &f.fi.blocks[f.blk][f.ip]
		x.in = in
		st.steps++
		x.instrs++
		n++
		if n&1023 == 0 {
			if x.run.expired() {
				return pathEnd{kind: "limit", msg: "deadline"}, false
			}
			if x.run.paused() {
				st.steps--
				return pathEnd{kind: "pause"}, false
			}
		}
		if st.steps > st.maxStep {
			panic(pathEnd{kind: "hang", msg: fmt.Sprintf("no termination within %d steps, in %s", st.maxStep, x.stack())})
		}
		x.exec(g, f, in)
	}
}

func (x *X) guard(fn func()) (end pathEnd, again bool) {
	again = true
	defer func() {
		if r := recover(); r != nil {
			switch p := r.(type) {
			case pathEnd:
				end, again = p, false
			default:
				panic(r)
			}
		}
	}()
	fn()
	return
}

func (x *X) stack() string {
	var s []string
	st := x.st
	if st.cur < len(st.gs) {
		g := st.gs[st.cur]
		for i := len(g.frames) - 1; i >= 0 && len(s) < 8; i-- {
			f := g.frames[i]
			pos := ""
			if f.ip < len(f.fi.blocks[f.blk]) {
				in := f.fi.blocks[f.blk][f.ip].in
				if in.Pos().IsValid() {
					p := x.run.prog.fset.Position(in.Pos())
					pos = fmt.Sprintf(" %s:%d", shortPath(p.Filename), p.Line)
				}
			}
			s = append(s, f.fi.fn.Name()+pos)
		}
	}
	return strings.Join(s, " < ")
}

func shortPath(p string) string {
	parts := strings.Split(p, "/")
	if len(parts) > 2 {
		parts = parts[len(parts)-2:]
	}
	return strings.Join(parts, "/")
}

func (x *X) startPanic(v Iface) {
	st := x.st
	g := st.gs[st.cur]
	g.panics = append(g.panics, panicInfo{val: v, trace: x.stack()})
	x.unwind(g)
}

func (x *X) unwind(g *Goroutine) {
	for {
		f := g.top()
		if len(f.defers) > 0 {
			d := f.defers[len(f.defers)-1]
			f.defers = f.defers[:len(f.defers)-1]
			nf := x.pushCall(g, d.fn, d.args, d.call)
			if nf == nil {
				continue // intrinsic, already executed
			}
			nf.isDefer, nf.panicCall = true, true
			return
		}
		g.frames = g.frames[:len(g.frames)-1]
		if f.isDefer && f.panicCall && len(g.panics) >= 2 {
			g.panics = append(g.panics[:len(g.panics)-2], g.panics[len(g.panics)-1])
		}
		if len(g.frames) == 0 {
			p := g.panics[len(g.panics)-1]
			panic(pathEnd{kind: "panic", msg: "uncaught panic: " + describe(x.st.model, p.val) + " at " + p.trace})
		}
	}
}

// pushCall enters fn; returns nil when it was an intrinsic executed in place (result discarded).
func (x *X) pushCall(g *Goroutine, fnv Value, args []Value, call *ssa.CallCommon) *Frame {
	c, _ := fnv.(*Closure)
	if c == nil {
		x.rtPanic("invalid memory address or nil pointer dereference (nil func call)")
	}
	if c.bltn != "" {
		x.builtin(c.bltn, args, call)
		return nil
	}
	fn := x.run.prog.resolve(c.fn)
	if h := x.run.prog.intrinsic(fn); h != nil {
		x.syncCall(h, fn, append(append([]Value(nil), args...), c.b...), false)
		return nil
	}
	return x.enter(g, fn, args, c.b)
}

func (x *X) enter(g *Goroutine, fn *ssa.Function, args []Value, bind []Value) *Frame {
	if len(fn.Blocks) == 0 {
		panic(unsupported("no body: " + fn.String()))
	}
	fi := infoOf(fn)
	if len(g.frames) > 3000 {
		panic(pathEnd{kind: "hang", msg: "stack overflow in " + x.stack()})
	}
	nf := &Frame{fi: fi, regs: make([]Value, fi.nregs)}
	copy(nf.regs, args)
	copy(nf.regs[len(fn.Params):], bind)
	if x.st.race {
		nf.rec, nf.h, nf.quiet = frameFlags(g, fn)
		if len(args) > 0 && classOf(fn).stub {
			if p, ok := args[0].(Ptr); ok && p.obj != 0 {
				nf.relObj, nf.relOff = p.obj, p.off
				x.acquire(p.obj, p.off)
			}
		}
	}
	g.frames = append(g.frames, nf)
	if fi.inRepo {
		x.funcs[fn]++
	}
	return nf
}

func (x *X) doReturn(g *Goroutine, f *Frame, res Value) {
	if f.relObj != 0 {
		x.release(f.relObj, f.relOff)
	}
	g.frames = g.frames[:len(g.frames)-1]
	if len(g.frames) == 0 {
		g.done = true
		if g.id == 0 {
			panic(pathEnd{kind: "done"})
		}
		x.schedule()
		return
	}
	t := g.top()
	if f.isDefer {
		if f.panicCall {
			p := &g.panics[len(g.panics)-1]
			if !p.recovered {
				x.unwind(g)
				return
			}
			g.panics = g.panics[:len(g.panics)-1]
			t.recovered = true
		}
		if t.recovered {
			x.finishRecovered(g, t)
		}
		// otherwise RunDefers is re-executed
		return
	}
	ci := &t.fi.blocks[t.blk][t.ip]
	if ci.dst >= 0 {
		t.regs[ci.dst] = res
	}
	t.ip++
}

func (x *X) finishRecovered(g *Goroutine, t *Frame) {
	for len(t.defers) > 0 {
		d := t.defers[len(t.defers)-1]
		t.defers = t.defers[:len(t.defers)-1]
		nf := x.pushCall(g, d.fn, d.args, d.call)
		if nf != nil {
			nf.isDefer = true
			return
		}
	}
	t.recovered = false
	if r := t.fi.fn.Recover; r != nil {
		t.prev = t.blk
		t.blk, t.ip = r.Index, 0
		return
	}
	var res Value
	sig := t.fi.fn.Signature.Results()
	if sig.Len() == 1 {
		res = zeroValue(sig.At(0).Type())
	} else {
		res = zeroValue(sig)
	}
	x.doReturn(g, t, res)
}

func (x *X) jump(f *Frame, to int, nth int) {
	f.prev = f.blk
	f.blk, f.ip = to, 0
	// phis evaluated together
	cs := f.fi.blocks[to]
	if len(cs) == 0 {
		return
	}
	if _, ok := cs[0].in.(*ssa.Phi); !ok {
		return
	}
	preds := f.fi.fn.Blocks[to].Preds
	k := -1
	for i, p := range preds {
		if p.Index == f.prev {
			k = i
			if nth == 0 {
				break
			}
			nth--
		}
	}
	var tmp []Value
	n := 0
	for n < len(cs) {
		if _, ok := cs[n].in.(*ssa.Phi); !ok {
			break
		}
		tmp = append(tmp, x.val(f, &cs[n].ops[k]))
		n++
	}
	for i := 0; i < n; i++ {
		f.regs[cs[i].dst] = tmp[i]
	}
	f.ip = n
}

func (x *X) exec(g *Goroutine, f *Frame, c *cinstr) {
	switch in := c.in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		f.regs[c.dst] = x.st.allocType(in.Type().Underlying().(*types.Pointer).Elem())
	case *ssa.UnOp:
		f.regs[c.dst] = x.unop(g, f, c, in)
	case *ssa.BinOp:
		f.regs[c.dst] = x.binop(in.Op, x.val(f, &c.ops[0]), x.val(f, &c.ops[1]), in.X.Type(), in.Y.Type())
	case *ssa.Store:
		p, v := x.val(f, &c.ops[0]), x.val(f, &c.ops[1])
		x.store(p, v)
		x.recPtr(p, v, true)
	case *ssa.FieldAddr:
		p := x.val(f, &c.ops[0])
		q, ok := p.(Ptr)
		if !ok {
			panic(unsupported("FieldAddr of symbolic pointer"))
		}
		if q.obj == 0 {
			x.rtPanic("invalid memory address or nil pointer dereference")
		}
		l := layoutOf(in.X.Type().Underlying().(*types.Pointer).Elem())
		f.regs[c.dst] = Ptr{q.obj, q.off + l.offs[in.Field]}
	case *ssa.Field:
		a := x.val(f, &c.ops[0]).(Agg)
		l := layoutOf(in.X.Type())
		fl := layoutOf(in.Type())
		o := l.offs[in.Field]
		if fl.agg {
			f.regs[c.dst] = a[o : o+fl.n : o+fl.n]
		} else {
			f.regs[c.dst] = a[o]
		}
	case *ssa.IndexAddr:
		f.regs[c.dst] = x.indexAddr(f, c, in)
	case *ssa.Index:
		f.regs[c.dst] = x.index(f, c, in)
	case *ssa.Lookup:
		f.regs[c.dst] = x.lookup(f, c, in)
	case *ssa.MapUpdate:
		x.mapUpdate(x.val(f, &c.ops[0]), x.val(f, &c.ops[1]), x.val(f, &c.ops[2]))
		x.recMap(x.val(f, &c.ops[0]), true)
	case *ssa.Extract:
		f.regs[c.dst] = x.val(f, &c.ops[0]).(Tuple)[in.Index]
	case *ssa.Phi:
		panic("phi")
	case *ssa.If:
		b := x.decide(x.val(f, &c.ops[0]).(*Term))
		s := in.Block().Succs
		if b {
			x.jump(f, s[0].Index, 0)
		} else if s[0] == s[1] {
			x.jump(f, s[1].Index, 1)
		} else {
			x.jump(f, s[1].Index, 0)
		}
		return
	case *ssa.Jump:
		x.jump(f, in.Block().Succs[0].Index, 0)
		return
	case *ssa.Return:
		var res Value
		if len(c.ops) == 1 {
			res = x.val(f, &c.ops[0])
		} else if len(c.ops) > 1 {
			t := make(Tuple, len(c.ops))
			for i := range c.ops {
				t[i] = x.val(f, &c.ops[i])
			}
			res = t
		}
		x.doReturn(g, f, res)
		return
	case *ssa.Call:
		x.call(g, f, c, &in.Call)
		return
	case *ssa.Defer:
		fn, args := x.callee(f, c, &in.Call)
		f.defers = append(f.defers, deferred{fn: fn, args: args, call: &in.Call})
	case *ssa.RunDefers:
		if len(f.defers) > 0 {
			d := f.defers[len(f.defers)-1]
			f.defers = f.defers[:len(f.defers)-1]
			nf := x.pushCall(g, d.fn, d.args, d.call)
			if nf != nil {
				nf.isDefer = true
			}
			return
		}
	case *ssa.Go:
		fn, args := x.callee(f, c, &in.Call)
		cl := fn.(*Closure)
		if cl == nil {
			x.rtPanic("go of nil func value")
		}
		first := x.st.preempts > 0 && f.fi.inRepo && x.schedRaw(2, "go") == 1
		ng := &Goroutine{id: len(x.st.gs)}
		f.ip++
		x.st.gs = append(x.st.gs, ng)
		if x.st.race {
			ng.vc = g.vc
			g.tick()
			ng.tick()
		}
		x.enter(ng, x.run.prog.resolve(cl.fn), args, cl.b)
		if first {
			x.st.preempts--
			x.st.cur = ng.id
		}
		return
	case *ssa.Panic:
		v := x.val(f, &c.ops[0]).(Iface)
		panic(goPanic{v})
	case *ssa.MakeInterface:
		f.regs[c.dst] = Iface{in.X.Type(), x.val(f, &c.ops[0])}
	case *ssa.ChangeInterface:
		f.regs[c.dst] = x.val(f, &c.ops[0])
	case *ssa.ChangeType:
		f.regs[c.dst] = x.val(f, &c.ops[0])
	case *ssa.Convert:
		f.regs[c.dst] = x.convert(x.val(f, &c.ops[0]), in.X.Type(), in.Type())
	case *ssa.MultiConvert:
		f.regs[c.dst] = x.convert(x.val(f, &c.ops[0]), in.X.Type(), in.Type())
	case *ssa.TypeAssert:
		f.regs[c.dst] = x.typeAssert(x.val(f, &c.ops[0]).(Iface), in)
	case *ssa.MakeClosure:
		b := make([]Value, len(c.ops)-1)
		for i := range b {
			b[i] = x.val(f, &c.ops[i+1])
		}
		f.regs[c.dst] = &Closure{fn: in.Fn.(*ssa.Function), b: b}
	case *ssa.MakeSlice:
		f.regs[c.dst] = x.makeSlice(in.Type(), x.val(f, &c.ops[0]).(*Term), x.val(f, &c.ops[1]).(*Term))
	case *ssa.MakeMap:
		f.regs[c.dst] = MapRef{x.st.newObj(&Object{kind: oMap})}
	case *ssa.MakeChan:
		n := int(int64(x.concretize(x.val(f, &c.ops[0]).(*Term))))
		f.regs[c.dst] = ChanRef{x.st.newObj(&Object{kind: oChan, cap: n})}
	case *ssa.Slice:
		f.regs[c.dst] = x.sliceOp(f, c, in)
	case *ssa.SliceToArrayPointer:
		s := x.val(f, &c.ops[0]).(Slice)
		n := int(in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		if s.len < n {
			x.rtPanic("cannot convert slice to array pointer")
		}
		f.regs[c.dst] = Ptr{s.obj, s.off}
	case *ssa.Range:
		f.regs[c.dst] = x.rangeStart(x.val(f, &c.ops[0]))
	case *ssa.Next:
		f.regs[c.dst] = x.rangeNext(x.val(f, &c.ops[0]).(IterRef), in)
	case *ssa.Send:
		x.send(g, x.val(f, &c.ops[0]).(ChanRef), x.val(f, &c.ops[1]))
	case *ssa.Select:
		f.regs[c.dst] = x.selectOp(f, c, in)
	default:
		panic(unsupported(fmt.Sprintf("instruction %T", in)))
	}
	f.ip++
}

func (x *X) callee(f *Frame, c *cinstr, call *ssa.CallCommon) (Value, []Value) {
	n := len(call.Args)
	args := make([]Value, n, n+1)
	for i := 0; i < n; i++ {
		args[i] = x.val(f, &c.ops[i+1])
	}
	if call.IsInvoke() {
		recv, ok := x.val(f, &c.ops[0]).(Iface)
		if !ok || recv.t == nil {
			x.rtPanic("invalid memory address or nil pointer dereference (nil interface call)")
		}
		fn := x.run.prog.method(recv.t, call.Method)
		return &Closure{fn: fn}, append([]Value{recv.v}, args...)
	}
	v := x.val(f, &c.ops[0])
	cl, _ := v.(*Closure)
	return cl, args
}

func (x *X) call(g *Goroutine, f *Frame, c *cinstr, call *ssa.CallCommon) {
	fnv, args := x.callee(f, c, call)
	cl, _ := fnv.(*Closure)
	if cl == nil {
		x.rtPanic("invalid memory address or nil pointer dereference (nil func call)")
	}
	if cl.bltn != "" {
		r := x.builtin(cl.bltn, args, call)
		f.regs[c.dst] = r
		f.ip++
		return
	}
	fn := x.run.prog.resolve(cl.fn)
	if h := x.run.prog.intrinsic(fn); h != nil {
		r := x.syncCall(h, fn, append(args, cl.b...), true)
		if _, replaced := r.(tailCall); replaced {
			return
		}
		if c.dst >= 0 {
			f.regs[c.dst] = r
		}
		f.ip++
		return
	}
	x.enter(g, fn, args, cl.b)
}

type tailCall struct{}

// ---- operators ----

func (x *X) unop(g *Goroutine, f *Frame, c *cinstr, in *ssa.UnOp) Value {
	v := x.val(f, &c.ops[0])
	switch in.Op {
	case token.MUL:
		r := x.load(v, in.Type())
		x.recPtr(v, r, false)
		return r
	case token.NOT:
		return tBNot(v.(*Term))
	case token.SUB:
		t := v.(*Term)
		if isFloat(in.Type()) {
			s, _ := fpParts(t.w)
			return tXor(t, mkConst(t.w, s))
		}
		return tNeg(t)
	case token.XOR:
		return tNot(v.(*Term))
	case token.ARROW:
		r, ok := x.recv(g, v.(ChanRef), in.X.Type().Underlying().(*types.Chan).Elem())
		if in.CommaOk {
			return Tuple{r, mkBool(ok)}
		}
		return r
	}
	panic(unsupported("unop " + in.Op.String()))
}

func (x *X) binop(op token.Token, a, b Value, ta, tb types.Type) Value {
	switch op {
	case token.EQL, token.NEQ:
		var r *Term
		switch {
		case isFloat(ta):
			r = fpEq(a.(*Term), b.(*Term))
		default:
			_, ia := ta.Underlying().(*types.Interface)
			_, ib := tb.Underlying().(*types.Interface)
			if ia && !ib {
				b = Iface{tb, b}
			} else if ib && !ia {
				a = Iface{ta, a}
			}
			r = x.eq(a, b)
		}
		if op == token.NEQ {
			return tBNot(r)
		}
		return r
	}
	if isString(ta) {
		return x.strBin(op, a.(*Str), b.(*Str))
	}
	p, q := x.term(a), x.term(b)
	if isFloat(ta) {
		switch op {
		case token.LSS:
			return fpLt(p, q)
		case token.GTR:
			return fpLt(q, p)
		case token.LEQ:
			return fpLe(p, q)
		case token.GEQ:
			return fpLe(q, p)
		}
		if !p.isConst() || !q.isConst() {
			panic(unsupported("symbolic float arithmetic"))
		}
		u, v := fval(p), fval(q)
		if p.w == 32 {
			u32, v32 := float32(u), float32(v)
			switch op {
			case token.ADD:
				return fmk(32, float64(u32+v32))
			case token.SUB:
				return fmk(32, float64(u32-v32))
			case token.MUL:
				return fmk(32, float64(u32*v32))
			case token.QUO:
				return fmk(32, float64(u32/v32))
			}
		}
		switch op {
		case token.ADD:
			return fmk(64, u+v)
		case token.SUB:
			return fmk(64, u-v)
		case token.MUL:
			return fmk(64, u*v)
		case token.QUO:
			return fmk(64, u/v)
		}
	}
	signed := isSigned(ta)
	if p.w == 0 {
		switch op {
		case token.AND, token.LAND:
			return tBAnd(p, q)
		case token.OR, token.LOR:
			return tBOr(p, q)
		}
	}
	switch op {
	case token.ADD:
		return tAdd(p, q)
	case token.SUB:
		return tSub(p, q)
	case token.MUL:
		return tMul(p, q)
	case token.QUO, token.REM:
		if x.decide(tEq(q, mkConst(q.w, 0))) {
			x.rtPanic("integer divide by zero")
		}
		if op == token.QUO {
			if signed {
				return tDiv(OSDiv, p, q)
			}
			return tDiv(OUDiv, p, q)
		}
		if signed {
			return tDiv(OSRem, p, q)
		}
		return tDiv(OURem, p, q)
	case token.AND:
		return tAnd(p, q)
	case token.OR:
		return tOr(p, q)
	case token.XOR:
		return tXor(p, q)
	case token.AND_NOT:
		return tAnd(p, tNot(q))
	case token.SHL, token.SHR:
		if isSigned(tb) {
			if x.decide(tSlt(q, mkConst(q.w, 0))) {
				x.rtPanic("negative shift amount")
			}
		}
		// normalise the shift count to p.w, saturating
		if q.w > p.w {
			big := tBNot(tUlt(q, mkConst(q.w, uint64(p.w))))
			q = tIte(big, mkConst(p.w, uint64(p.w)), tExtract(q, p.w-1, 0))
		} else {
			q = tZExt(q, p.w)
		}
		if op == token.SHL {
			return tShl(p, q)
		}
		if signed {
			return tAShr(p, q)
		}
		return tLShr(p, q)
	case token.LSS:
		if signed {
			return tSlt(p, q)
		}
		return tUlt(p, q)
	case token.LEQ:
		if signed {
			return tSle(p, q)
		}
		return tUle(p, q)
	case token.GTR:
		if signed {
			return tSlt(q, p)
		}
		return tUlt(q, p)
	case token.GEQ:
		if signed {
			return tSle(q, p)
		}
		return tUle(q, p)
	}
	panic(unsupported("binop " + op.String()))
}

func (x *X) strBin(op token.Token, a, b *Str) Value {
	if op == token.ADD {
		return x.st.countStr(concat(a, b))
	}
	a, b = x.plain(a), x.plain(b)
	as, ok1 := a.concrete()
	bs, ok2 := b.concrete()
	if ok1 && ok2 {
		switch op {
		case token.LSS:
			return mkBool(as < bs)
		case token.LEQ:
			return mkBool(as <= bs)
		case token.GTR:
			return mkBool(as > bs)
		case token.GEQ:
			return mkBool(as >= bs)
		}
	}
	lt := func(p, q *Str) *Term {
		n := p.length()
		if q.length() < n {
			n = q.length()
		}
		r := mkBool(p.length() < q.length())
		for i := n - 1; i >= 0; i-- {
			r = tBOr(tUlt(p.at(i), q.at(i)), tBAnd(tEq(p.at(i), q.at(i)), r))
		}
		return r
	}
	switch op {
	case token.LSS:
		return lt(a, b)
	case token.GTR:
		return lt(b, a)
	case token.LEQ:
		return tBNot(lt(b, a))
	case token.GEQ:
		return tBNot(lt(a, b))
	}
	panic(unsupported("string op " + op.String()))
}

func (x *X) convert(v Value, from, to types.Type) Value {
	fu, tu := from.Underlying(), to.Underlying()
	if tb, ok := tu.(*types.Basic); ok {
		if tb.Info()&types.IsString != 0 {
			switch s := v.(type) {
			case *Str:
				return s
			case Slice:
				if eb, ok := fu.(*types.Slice); ok && !isByteType(eb.Elem()) {
					var sb strings.Builder
					for _, e := range x.sliceElems(s, 1) {
						t := e.(*Term)
						sb.WriteRune(rune(int32(x.concretize(t))))
					}
					return &Str{s: sb.String()}
				}
				return mkStr(x.byteTerms(s))
			case *Term:
				return &Str{s: string(rune(sext64(x.concretize(s), s.w)))}
			}
		}
		if tb.Kind() == types.UnsafePointer {
			return v
		}
		if t, ok := v.(*Term); ok {
			w := basicWidth(tb)
			ff, tf := isFloat(from), isFloat(to)
			switch {
			case ff && tf:
				if t.w == w {
					return t
				}
				if !t.isConst() {
					panic(unsupported("symbolic float width conversion"))
				}
				return fmk(w, fval(t))
			case ff:
				if !t.isConst() {
					panic(unsupported("symbolic float to int"))
				}
				if isSigned(to) {
					return mkConst(w, uint64(int64(fval(t))))
				}
				return mkConst(w, uint64(fval(t)))
			case tf:
				if !t.isConst() {
					panic(unsupported("symbolic int to float"))
				}
				if isSigned(from) {
					return fmk(w, float64(sext64(t.val, t.w)))
				}
				return fmk(w, float64(t.val))
			}
			return intConv(t, w, isSigned(from))
		}
		if p, ok := v.(Ptr); ok { // uintptr(unsafe.Pointer)
			return mkConst(64, uint64(p.obj)<<32|uint64(p.off))
		}
	}
	if ts, ok := tu.(*types.Slice); ok {
		if s, ok := v.(*Str); ok {
			s = x.plain(s)
			if isByteType(ts.Elem()) {
				return x.newBytes(s.terms())
			}
			str, ok := s.concrete()
			if !ok {
				panic(unsupported("[]rune of symbolic string"))
			}
			rs := []rune(str)
			o := &Object{kind: oCells}
			for _, r := range rs {
				o.cells = append(o.cells, mkConst(32, uint64(r)))
			}
			return Slice{x.st.newObj(o), 0, len(rs), len(rs)}
		}
		return v
	}
	if _, ok := tu.(*types.Pointer); ok {
		if p, ok := v.(Ptr); ok {
			return p
		}
		if t, ok := v.(*Term); ok && t.isConst() {
			return Ptr{int(t.val >> 32), int(t.val & 0xffffffff)}
		}
	}
	panic(unsupported(fmt.Sprintf("convert %s -> %s", from, to)))
}

func intConv(t *Term, w uint8, signed bool) *Term {
	if t.w == w {
		return t
	}
	if t.w > w {
		return tExtract(t, w-1, 0)
	}
	if signed {
		return tSExt(t, w)
	}
	return tZExt(t, w)
}

// idxTerm widens an index to a 64-bit signed value
func idxTerm(t *Term, ty types.Type) *Term { return intConv(t, 64, isSigned(ty)) }

func (x *X) boundsIdx(i *Term, n int) {
	if !x.decide(tUlt(i, mkConst(64, uint64(n)))) {
		x.rtPanic(fmt.Sprintf("index out of range [%s] with length %d", describe(x.st.model, i), n))
	}
}

func (x *X) indexAddr(f *Frame, c *cinstr, in *ssa.IndexAddr) Value {
	b := x.val(f, &c.ops[0])
	i := idxTerm(x.val(f, &c.ops[1]).(*Term), in.Index.Type())
	var obj, off, n int
	var et types.Type
	switch u := in.X.Type().Underlying().(type) {
	case *types.Slice:
		s := b.(Slice)
		obj, off, n, et = s.obj, s.off, s.len, u.Elem()
	case *types.Pointer:
		p := b.(Ptr)
		if p.obj == 0 {
			x.rtPanic("invalid memory address or nil pointer dereference")
		}
		a := u.Elem().Underlying().(*types.Array)
		obj, off, n, et = p.obj, p.off, int(a.Len()), a.Elem()
	default:
		panic(unsupported("IndexAddr"))
	}
	x.boundsIdx(i, n)
	l := layoutOf(et)
	if i.isConst() {
		return Ptr{obj, off + int(i.val)*l.n}
	}
	if _, isB := et.Underlying().(*types.Basic); isB && !isString(et) && !l.agg {
		return SymPtr{obj, off, n, i}
	}
	k := int(x.concretize(i))
	return Ptr{obj, off + k*l.n}
}

func (x *X) index(f *Frame, c *cinstr, in *ssa.Index) Value {
	b := x.val(f, &c.ops[0])
	i := idxTerm(x.val(f, &c.ops[1]).(*Term), in.Index.Type())
	if s, ok := b.(*Str); ok {
		s = x.plain(s)
		x.boundsIdx(i, s.length())
		if i.isConst() {
			return s.at(int(i.val))
		}
		return s.at(int(x.concretize(i)))
	}
	a := b.(Agg)
	l := layoutOf(in.X.Type())
	x.boundsIdx(i, l.alen)
	k := int(x.concretize(i))
	el := layoutOf(in.Type())
	if el.agg {
		return a[k*el.n : (k+1)*el.n : (k+1)*el.n]
	}
	return a[k]
}

// ---- maps ----

func (x *X) mapFind(m MapRef, key Value) int {
	if m.obj == 0 {
		return -1
	}
	o := x.st.obj(m.obj)
	if ifc, ok := key.(Iface); ok && ifc.t != nil && !types.Comparable(ifc.t) {
		x.rtPanic("hash of unhashable type " + ifc.t.String())
	}
	for i := range o.entries {
		if x.decide(x.eq(o.entries[i].key, key)) {
			return i
		}
	}
	return -1
}

func (x *X) lookup(f *Frame, c *cinstr, in *ssa.Lookup) Value {
	b := x.val(f, &c.ops[0])
	if s, ok := b.(*Str); ok {
		s = x.plain(s)
		i := idxTerm(x.val(f, &c.ops[1]).(*Term), in.Index.Type())
		x.boundsIdx(i, s.length())
		if i.isConst() {
			return s.at(int(i.val))
		}
		return s.at(int(x.concretize(i)))
	}
	m := b.(MapRef)
	k := x.mapFind(m, x.val(f, &c.ops[1]))
	x.recMap(m, false)
	mt := in.X.Type().Underlying().(*types.Map)
	var v Value
	if k >= 0 {
		v = x.st.obj(m.obj).entries[k].val
	} else {
		v = zeroValue(mt.Elem())
	}
	if in.CommaOk {
		return Tuple{v, mkBool(k >= 0)}
	}
	return v
}

func (x *X) mapUpdate(mv, key, v Value) {
	m := mv.(MapRef)
	if m.obj == 0 {
		x.rtPanic("assignment to entry in nil map")
	}
	k := x.mapFind(m, key)
	o := x.st.wobj(m.obj)
	if k >= 0 {
		o.entries[k].val = v
		return
	}
	o.entries = append(o.entries, mapEntry{o.nextID, key, v})
	o.nextID++
}

func (x *X) rangeStart(v Value) Value {
	switch r := v.(type) {
	case *Str:
		return IterRef{x.st.newObj(&Object{kind: oIter, str: x.plain(r)})}
	case MapRef:
		return IterRef{x.st.newObj(&Object{kind: oIter, mapObj: r.obj})}
	}
	panic(unsupported("range"))
}

func (x *X) rangeNext(it IterRef, in *ssa.Next) Value {
	o := x.st.obj(it.obj)
	if o.str == nil {
		x.recMap(MapRef{o.mapObj}, false)
	}
	if o.str != nil {
		s := o.str
		if o.pos >= s.length() {
			return Tuple{tFalse, mkConst(64, 0), mkConst(32, 0)}
		}
		pos := o.pos
		var r rune
		n := 1
		if str, ok := s.concrete(); ok {
			r, n = utf8.DecodeRuneInString(str[pos:])
		} else {
			t := s.at(pos)
			if x.decide(tUlt(t, mkConst(8, 0x80))) {
				x.st.wobj(it.obj).pos += 1
				return Tuple{tTrue, mkConst(64, uint64(pos)), tZExt(t, 32)}
			}
			panic(unsupported("range over symbolic non-ASCII string"))
		}
		x.st.wobj(it.obj).pos += n
		return Tuple{tTrue, mkConst(64, uint64(pos)), mkConst(32, uint64(r))}
	}
	tt := in.Type().(*types.Tuple)
	kz, vz := Value(nil), Value(nil)
	if tt.At(1).Type() != types.Typ[types.Invalid] {
		kz = zeroValue(tt.At(1).Type())
	}
	if tt.At(2).Type() != types.Typ[types.Invalid] {
		vz = zeroValue(tt.At(2).Type())
	}
	if o.mapObj == 0 {
		return Tuple{tFalse, kz, vz}
	}
	m := x.st.obj(o.mapObj)
	var cand []int
	for i := range m.entries {
		seen := false
		for _, id := range o.visited {
			if id == m.entries[i].id {
				seen = true
			}
		}
		if !seen {
			cand = append(cand, i)
		}
	}
	if len(cand) == 0 {
		return Tuple{tFalse, kz, vz}
	}
	k := 0
	if x.st.mapAny {
		k = x.schedChoose(len(cand), "maporder")
	}
	e := m.entries[cand[k]]
	w := x.st.wobj(it.obj)
	w.visited = append(w.visited, e.id)
	return Tuple{tTrue, e.key, e.val}
}

// ---- slices ----

func (x *X) makeSlice(t types.Type, ln, cp *Term) Value {
	et := t.Underlying().(*types.Slice).Elem()
	l, c := intConv(ln, 64, true), intConv(cp, 64, true)
	es := 1
	if !isByteType(et) {
		es = 8 * layoutOf(et).n
	}
	if es == 0 {
		es = 1
	}
	if x.decide(tSlt(l, mkConst(64, 0))) {
		x.rtPanic("makeslice: len out of range")
	}
	if x.decide(tSlt(mkConst(64, uint64(1)<<47/uint64(es)), c)) {
		x.rtPanic("makeslice: len out of range")
	}
	lim := x.st.alloc
	if lim == 0 {
		lim = 1 << 26
	}
	if x.decide(tSlt(mkConst(64, uint64(lim)/uint64(es)), c)) {
		if x.st.alloc > 0 {
			// prefer a witness large enough to be measured natively
			big := tSlt(mkConst(64, uint64(4<<20)/uint64(es)), c)
			if !big.isConst() {
				if r, _ := x.feasible(big); r == Sat {
					x.assume(big)
				}
			}
			panic(pathEnd{kind: "alloc", msg: fmt.Sprintf("allocation of more than %d bytes (len=%s) in %s", lim, describe(x.st.model, c), x.stack())})
		}
		panic(unsupported("very large make"))
	}
	n := int(x.concretize(l))
	k := n
	if cp != ln {
		k = int(x.concretize(c))
		if k < n {
			x.rtPanic("makeslice: cap out of range")
		}
	}
	return Slice{x.st.allocArray(et, k), 0, n, k}
}

func (x *X) sliceOp(f *Frame, c *cinstr, in *ssa.Slice) Value {
	b := x.val(f, &c.ops[0])
	get := func(o *operand, v ssa.Value, def int) *Term {
		if o.none {
			return mkConst(64, uint64(def))
		}
		return idxTerm(x.val(f, o).(*Term), v.Type())
	}
	bound := func(lo, hi, max *Term, cap int) (int, int, int) {
		if !x.decide(tBAnd(tBAnd(tUle(lo, hi), tUle(hi, max)), tUle(max, mkConst(64, uint64(cap))))) {
			x.rtPanic(fmt.Sprintf("slice bounds out of range [%s:%s] with capacity %d", describe(x.st.model, lo), describe(x.st.model, hi), cap))
		}
		return int(x.concretize(lo)), int(x.concretize(hi)), int(x.concretize(max))
	}
	if s, ok := b.(*Str); ok {
		s = x.plain(s)
		n := s.length()
		lo, hi, _ := bound(get(&c.ops[1], in.Low, 0), get(&c.ops[2], in.High, n), mkConst(64, uint64(n)), n)
		return s.slice(lo, hi)
	}
	var obj, off, ln, cp, es int
	switch u := in.X.Type().Underlying().(type) {
	case *types.Slice:
		s := b.(Slice)
		obj, off, ln, cp = s.obj, s.off, s.len, s.cap
		es = layoutOf(u.Elem()).n
	case *types.Pointer:
		p := b.(Ptr)
		if p.obj == 0 {
			x.rtPanic("invalid memory address or nil pointer dereference")
		}
		a := u.Elem().Underlying().(*types.Array)
		obj, off, ln, cp = p.obj, p.off, int(a.Len()), int(a.Len())
		es = layoutOf(a.Elem()).n
	default:
		panic(unsupported("slice of " + in.X.Type().String()))
	}
	lo, hi, mx := bound(get(&c.ops[1], in.Low, 0), get(&c.ops[2], in.High, ln), get(&c.ops[3], in.Max, cp), cp)
	return Slice{obj, off + lo*es, hi - lo, mx - lo}
}

// growCap mirrors runtime.growslice (nextslicecap + size-class rounding)
func growCap(oldCap, newLen, esize int) int {
	newcap := oldCap
	double := newcap + newcap
	if newLen > double {
		newcap = newLen
	} else if oldCap < 256 {
		newcap = double
	} else {
		for {
			newcap += (newcap + 3*256) >> 2
			if uint(newcap) >= uint(newLen) {
				break
			}
		}
	}
	if esize == 0 {
		return newLen
	}
	mem := newcap * esize
	mem = roundupsize(mem)
	return mem / esize
}

var sizeClasses = []int{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func roundupsize(n int) int {
	if n <= 32768 {
		for _, c := range sizeClasses {
			if n <= c {
				return c
			}
		}
	}
	return (n + 8191) / 8192 * 8192
}

func memSize(t types.Type) int { return int(stdSizes.Sizeof(t)) }

var stdSizes = types.SizesFor("gc", "amd64")

func (x *X) appendSlice(s Slice, elems []Value, et types.Type) Value {
	es := layoutOf(et).n
	n := 0
	if es > 0 {
		n = len(elems) / es
	}
	if n == 0 {
		return s
	}
	st := x.st
	if s.len+n <= s.cap && s.obj != 0 {
		o := st.wobj(s.obj)
		for i, e := range elems {
			o.set(s.off+s.len*es+i, e)
		}
		return Slice{s.obj, s.off, s.len + n, s.cap}
	}
	nc := growCap(s.cap, s.len+n, memSize(et))
	if nc < s.len+n {
		nc = s.len + n
	}
	old := x.sliceElems(s, es)
	id := st.allocArray(et, nc)
	o := st.obj(id)
	for i, e := range old {
		o.set(i, e)
	}
	for i, e := range elems {
		o.set(len(old)+i, e)
	}
	return Slice{id, 0, s.len + n, nc}
}

func (x *X) builtin(name string, args []Value, call *ssa.CallCommon) Value {
	switch name {
	case "len":
		switch v := args[0].(type) {
		case Slice:
			return mkConst(64, uint64(v.len))
		case *Str:
			return mkConst(64, uint64(x.plain(v).length()))
		case MapRef:
			x.recMap(v, false)
			if v.obj == 0 {
				return mkConst(64, 0)
			}
			return mkConst(64, uint64(len(x.st.obj(v.obj).entries)))
		case ChanRef:
			if v.obj == 0 {
				return mkConst(64, 0)
			}
			return mkConst(64, uint64(len(x.st.obj(v.obj).buf)))
		case Agg:
			return mkConst(64, uint64(layoutOf(call.Args[0].Type()).alen))
		case Ptr:
			return mkConst(64, uint64(layoutOf(call.Args[0].Type().Underlying().(*types.Pointer).Elem()).alen))
		}
	case "cap":
		switch v := args[0].(type) {
		case Slice:
			return mkConst(64, uint64(v.cap))
		case ChanRef:
			if v.obj == 0 {
				return mkConst(64, 0)
			}
			return mkConst(64, uint64(x.st.obj(v.obj).cap))
		}
	case "append":
		s := args[0].(Slice)
		et := call.Args[0].Type().Underlying().(*types.Slice).Elem()
		switch b := args[1].(type) {
		case *Str:
			ts := x.plain(b).terms()
			vs := make([]Value, len(ts))
			for i := range ts {
				vs[i] = ts[i]
			}
			return x.appendSlice(s, vs, et)
		case Slice:
			return x.appendSlice(s, x.sliceElems(b, layoutOf(et).n), et)
		}
	case "copy":
		d := args[0].(Slice)
		var src []Value
		es := layoutOf(call.Args[0].Type().Underlying().(*types.Slice).Elem()).n
		switch b := args[1].(type) {
		case *Str:
			for _, t := range x.plain(b).terms() {
				src = append(src, t)
			}
		case Slice:
			if b.len > d.len {
				b.len = d.len
			}
			src = x.sliceElems(b, es)
		}
		if len(src) > d.len*es {
			src = src[:d.len*es]
		}
		if len(src) == 0 {
			return mkConst(64, 0)
		}
		o := x.st.wobj(d.obj)
		for i, e := range src {
			o.set(d.off+i, e)
		}
		return mkConst(64, uint64(len(src)/es))
	case "delete":
		m := args[0].(MapRef)
		k := x.mapFind(m, args[1])
		if k >= 0 {
			o := x.st.wobj(m.obj)
			o.entries = append(append([]mapEntry(nil), o.entries[:k]...), o.entries[k+1:]...)
		}
		x.recMap(m, true)
		return nil
	case "panic":
		panic(goPanic{args[0].(Iface)})
	case "print", "println":
		x.st.stdoutEvent("builtin print")
		return nil
	case "recover":
		g := x.st.gs[x.st.cur]
		f := g.top()
		if f.isDefer && f.panicCall && len(g.panics) > 0 && !g.panics[len(g.panics)-1].recovered {
			p := &g.panics[len(g.panics)-1]
			p.recovered = true
			return p.val
		}
		return Iface{}
	case "close":
		c := args[0].(ChanRef)
		if c.obj == 0 {
			x.rtPanic("close of nil channel")
		}
		if x.st.obj(c.obj).closed {
			x.rtPanic("close of closed channel")
		}
		x.st.wobj(c.obj).closed = true
		x.release(c.obj, 0)
		return nil
	case "min", "max":
		r := x.term(args[0])
		for _, a := range args[1:] {
			t := x.term(a)
			var c *Term
			if isSigned(call.Args[0].Type()) {
				c = tSlt(t, r)
			} else {
				c = tUlt(t, r)
			}
			if name == "max" {
				c = tBNot(tBOr(c, tEq(t, r)))
			}
			r = tIte(c, t, r)
		}
		return r
	case "clear":
		switch v := args[0].(type) {
		case MapRef:
			x.recMap(v, true)
			if v.obj != 0 {
				x.st.wobj(v.obj).entries = nil
			}
			return nil
		case Slice:
			l := layoutOf(call.Args[0].Type().Underlying().(*types.Slice).Elem())
			if v.len > 0 {
				o := x.st.wobj(v.obj)
				for i := 0; i < v.len*l.n; i++ {
					o.set(v.off+i, l.zero[i%l.n])
				}
			}
			return nil
		}
	case "ssa:wrapnilchk":
		if p, ok := args[0].(Ptr); ok && p.obj == 0 {
			x.rtPanic("value method called using nil pointer")
		}
		return args[0]
	case "ssa:deferstack":
		return Ptr{}
	case "SliceData":
		s := args[0].(Slice)
		return Ptr{s.obj, s.off}
	case "StringData":
		s := x.plain(args[0].(*Str))
		b := x.newBytes(s.terms())
		return Ptr{b.obj, 0}
	case "String":
		p := args[0].(Ptr)
		n := int(x.concretize(x.term(args[1])))
		return mkStr(x.byteTerms(Slice{p.obj, p.off, n, n}))
	case "Slice":
		p := args[0].(Ptr)
		n := int(x.concretize(x.term(args[1])))
		return Slice{p.obj, p.off, n, n}
	}
	panic(unsupported("builtin " + name))
}

func (st *State) stdoutEvent(s string) {
	st.stdout = append(st.stdout[:len(st.stdout):len(st.stdout)], cstr(s))
}

func (x *X) typeAssert(v Iface, in *ssa.TypeAssert) Value {
	ok := false
	var r Value
	if v.t != nil {
		if it, isI := in.AssertedType.Underlying().(*types.Interface); isI {
			ok = types.Implements(v.t, it)
			if ok {
				r = v
			}
		} else {
			ok = types.Identical(v.t, in.AssertedType)
			if ok {
				r = v.v
			}
		}
	}
	if !ok {
		if !in.CommaOk {
			got := "nil"
			if v.t != nil {
				got = v.t.String()
			}
			x.rtPanic("interface conversion: interface is " + got + ", not " + in.AssertedType.String())
		}
		r = zeroValue(in.AssertedType)
	}
	if in.CommaOk {
		return Tuple{r, mkBool(ok)}
	}
	return r
}

// ---- channels and scheduling ----

func (x *X) send(g *Goroutine, c ChanRef, v Value) {
	st := x.st
	if c.obj == 0 {
		panic(blockSig{ready: func(*State) bool { return false }, why: "send on nil channel"})
	}
	o := st.obj(c.obj)
	if o.closed {
		x.rtPanic("send on closed channel")
	}
	if len(o.buf) < o.cap || len(sendersOn(st, c.obj)) == 0 && o.cap == 0 {
		x.preemptAt()
		x.acqRel(c.obj)
	}
	if len(o.buf) < o.cap {
		w := st.wobj(c.obj)
		w.buf = append(w.buf, v)
		return
	}
	if o.cap == 0 {
		id := c.obj
		g.sendCh, g.sendV = id, v
		// a waiting receiver takes the value and advances this goroutine
		panic(blockSig{ready: func(s *State) bool { return s.obj(id).closed }, why: "chan send"})
	}
	id := c.obj
	panic(blockSig{ready: func(s *State) bool { o := s.obj(id); return o.closed || len(o.buf) < o.cap }, why: "chan send"})
}

func sendersOn(st *State, id int) []int {
	var r []int
	for i, h := range st.gs {
		if !h.done && h.ready != nil && h.sendCh == id {
			r = append(r, i)
		}
	}
	return r
}

func chanReadable(s *State, id int) bool {
	o := s.obj(id)
	return o.closed || len(o.buf) > 0 || len(sendersOn(s, id)) > 0
}

func (x *X) recv(g *Goroutine, c ChanRef, et types.Type) (Value, bool) {
	st := x.st
	if c.obj == 0 {
		panic(blockSig{ready: func(*State) bool { return false }, why: "receive on nil channel"})
	}
	o := st.obj(c.obj)
	if chanReadable(st, c.obj) {
		if g != nil { // not within a select
			x.preemptAt()
		}
		x.acqRel(c.obj)
	}
	if len(o.buf) > 0 {
		v := o.buf[0]
		w := st.wobj(c.obj)
		w.buf = append([]Value(nil), w.buf[1:]...)
		return v, true
	}
	if s := sendersOn(st, c.obj); len(s) > 0 {
		h := st.gs[s[0]]
		v := h.sendV
		h.ready, h.sendCh, h.sendV = nil, 0, nil
		if st.race {
			g := st.gs[st.cur]
			g.vc, h.vc = joinVC(g.vc, h.vc), joinVC(h.vc, g.vc)
			g.tick()
			h.tick()
		}
		h.top().ip++
		return v, true
	}
	if o.closed {
		return zeroValue(et), false
	}
	id := c.obj
	panic(blockSig{ready: func(s *State) bool { return chanReadable(s, id) }, why: "chan receive"})
}

func (x *X) selectOp(f *Frame, c *cinstr, in *ssa.Select) Value {
	st := x.st
	var readyIdx []int
	type cs struct {
		id   int
		send bool
	}
	var conds []cs
	oi := 0
	vals := make([]Value, len(in.States))
	for i, s := range in.States {
		ch := x.val(f, &c.ops[oi]).(ChanRef)
		oi++
		if s.Dir == types.SendOnly {
			vals[i] = x.val(f, &c.ops[oi])
		}
		oi++ // ssa lists Chan, Send for every state
		conds = append(conds, cs{ch.obj, s.Dir == types.SendOnly})
		if ch.obj == 0 {
			continue
		}
		if s.Dir == types.SendOnly {
			o := st.obj(ch.obj)
			if o.closed || len(o.buf) < o.cap {
				readyIdx = append(readyIdx, i)
			}
		} else if chanReadable(st, ch.obj) {
			readyIdx = append(readyIdx, i)
		}
	}
	tt := in.Type().(*types.Tuple)
	res := make(Tuple, tt.Len())
	for i := 2; i < tt.Len(); i++ {
		res[i] = zeroValue(tt.At(i).Type())
	}
	res[1] = tFalse
	if len(readyIdx) == 0 {
		if !in.Blocking {
			res[0] = mkConst(64, ^uint64(0))
			return res
		}
		panic(blockSig{ready: func(s *State) bool {
			for _, c := range conds {
				if c.id == 0 {
					continue
				}
				if c.send {
					o := s.obj(c.id)
					if o.closed || len(o.buf) < o.cap {
						return true
					}
				} else if chanReadable(s, c.id) {
					return true
				}
			}
			return false
		}, why: "select"})
	}
	k := readyIdx[x.schedChoose(len(readyIdx), "select")]
	res[0] = mkConst(64, uint64(k))
	if conds[k].send {
		o := st.wobj(conds[k].id)
		if o.closed {
			x.rtPanic("send on closed channel")
		}
		x.acqRel(conds[k].id)
		o.buf = append(o.buf, vals[k])
		return res
	}
	v, ok := x.recv(nil, ChanRef{conds[k].id}, in.States[k].Chan.Type().Underlying().(*types.Chan).Elem())
	res[1] = mkBool(ok)
	ri := 2
	for i := 0; i < k; i++ {
		if in.States[i].Dir == types.RecvOnly {
			ri++
		}
	}
	res[ri] = v
	return res
}

// schedule picks the next goroutine (or lets a pending timer fire).
func (x *X) schedule() {
	st := x.st
	st.needSched = true
	for {
		var en []int
		// round robin after the current goroutine: the default schedule is fair
		for j := range st.gs {
			i := (st.cur + 1 + j) % len(st.gs)
			g := st.gs[i]
			if g.done {
				continue
			}
			if g.ready == nil || g.ready(st) {
				en = append(en, i)
			}
		}
		var tm []int
		best := int64(-1)
		for _, t := range st.timers {
			if !t.stopped && !t.fired && (best < 0 || t.due < best) {
				best = t.due
			}
		}
		for i, t := range st.timers {
			if !t.stopped && !t.fired && t.due == best {
				tm = append(tm, i)
			}
		}
		if len(en) == 0 && len(tm) == 0 {
			var why []string
			for _, g := range st.gs {
				if !g.done {
					why = append(why, fmt.Sprintf("g%d:%s", g.id, g.why))
				}
			}
			panic(pathEnd{kind: "deadlock", msg: "all goroutines blocked: " + strings.Join(why, ", ")})
		}
		// virtual time only advances when no goroutine can run, unless timers may race
		n := len(en)
		// or are due at this very moment
		if n == 0 || x.st.hooks["timerrace"] != nil || st.preempts > 0 && best <= st.now {
			n += len(tm)
		}
		k := x.schedChoose(n, "sched")
		if k < len(en) {
			g := st.gs[en[k]]
			g.ready = nil
			g.sendCh, g.sendV = 0, nil
			st.cur = en[k]
			st.needSched = false
			return
		}
		x.fireTimer(tm[k-len(en)])
	}
}

func (x *X) fireTimer(i int) {
	st := x.st
	t := &st.timers[i]
	if t.due > st.now {
		st.now = t.due
	}
	if t.period > 0 {
		t.due += t.period
	} else {
		t.fired = true
	}
	if t.fn != nil {
		ng := &Goroutine{id: len(st.gs), vc: t.vc}
		st.gs = append(st.gs, ng)
		if st.race {
			ng.tick()
		}
		x.enter(ng, x.run.prog.resolve(t.fn.fn), nil, t.fn.b)
		return
	}
	o := st.wobj(t.ch)
	if len(o.buf) < o.cap {
		o.buf = append(o.buf[:len(o.buf):len(o.buf)], x.timeNow())
	}
}

const tokenLSS = token.LSS

// globalErr models the error variables of packages that are not interpreted: one
// distinct value per variable.
func (x *X) globalErr() Value {
	u, ok := x.in.in.(*ssa.UnOp)
	if !ok {
		return nil
	}
	g, ok := u.X.(*ssa.Global)
	if !ok || !types.Identical(u.Type(), types.Universe.Lookup("error").Type()) {
		return nil
	}
	id, ok := x.run.prog.errObjs[g.String()]
	if !ok {
		return nil
	}
	return Iface{x.run.prog.fmtErrP, Ptr{id, 0}}
}
