package main

import (
	"fmt"
	"go/types"
	"math"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type intrinsicFn func(x *X, fn *ssa.Function, a []Value) Value

// functions of the standard library replaced by Go code in the vp package
var stubNames = map[string]string{
	"encoding/binary.Read":       "stubBinaryRead",
	"strings.Index":              "stubStringsIndex",
	"internal/stringslite.Index": "stubStringsIndex",
	"bytes.Index":                "stubBytesIndex",
	"sort.Slice":                 "stubSortSlice",
	"sort.SliceStable":           "stubSortSlice",
	"net.Dial":                   "stubDial",
	"fmt.Sprintf":                "stubSprintf",
	"fmt.Sprint":                 "stubSprint",
	"fmt.Sprintln":               "stubSprintln",
	"fmt.Errorf":                 "stubErrorf",
	"fmt.Printf":                 "stubPrintf",
	"fmt.Print":                  "stubPrint",
	"fmt.Println":                "stubPrintln",
	"fmt.Fprintf":                "stubFprintf",
	"fmt.Fprint":                 "stubFprint",
	"fmt.Fprintln":               "stubFprintln",
	"fmt.Appendf":                "stubAppendf",
	"(*os.File).Write":           "stubFileWrite",
	"(*os.File).WriteString":     "stubFileWriteString",
	"errors.Is":                  "stubErrorsIs",
	"errors.As":                  "stubErrorsAs",
	"(*sync.Pool).Get":           "stubPoolGet",
	"(*sync.Pool).Put":           "stubPoolPut",
	"(*sync.Cond).Wait":          "stubCondWait",
	"(*sync.Cond).Signal":        "stubCondSignal",
	"(*sync.Cond).Broadcast":     "stubCondBroadcast",
	"(*sync.Map).Load":           "stubMapLoad",
	"(*sync.Map).Store":          "stubMapStore",
	"(*sync.Map).Delete":         "stubMapDelete",
	"(*sync.Map).LoadOrStore":    "stubMapLoadOrStore",
	"(*sync.Map).LoadAndDelete":  "stubMapLoadAndDelete",
	"(*sync.Map).Range":          "stubMapRange",
	"net.DialTimeout":            "stubDialTimeout",
	"(*sync.Once).Do":            "stubOnceDo",
	"(*net.Dialer).Dial":         "stubDialerDial",
	"(*net.Dialer).DialContext":  "stubDialerDialContext",
}

func u64(v uint64) *Term { return mkConst(64, v) }

func (x *X) goStr(v Value) string {
	s, ok := v.(*Str).concrete()
	if !ok {
		panic(unsupported("symbolic string where a constant is needed"))
	}
	return s
}

func (x *X) goInt(v Value) int {
	t := v.(*Term)
	return int(sext64(x.concretize(t), t.w))
}

var intrinsics map[string]intrinsicFn

func vpf(n string) string { return vpPath + "." + n }

func nop(v Value) intrinsicFn {
	return func(*X, *ssa.Function, []Value) Value { return v }
}

func initIntrinsics() {
	intrinsics = map[string]intrinsicFn{}
	in := intrinsics
	input := func(w uint8) intrinsicFn {
		return func(x *X, fn *ssa.Function, a []Value) Value { return x.newInput(x.goStr(a[0]), w) }
	}
	for _, p := range []struct {
		n string
		w uint8
	}{{"U8", 8}, {"U16", 16}, {"U32", 32}, {"U64", 64}, {"I8", 8}, {"I16", 16}, {"I32", 32}, {"I64", 64}, {"Int", 64}, {"F64", 64}} {
		in[vpf(p.n)] = input(p.w)
	}
	in[vpf("Bool")] = func(x *X, fn *ssa.Function, a []Value) Value {
		t := x.newInput(x.goStr(a[0]), 8)
		return tEq(tExtract(t, 0, 0), mkConst(1, 1))
	}
	in[vpf("Bytes")] = func(x *X, fn *ssa.Function, a []Value) Value {
		n := x.goInt(a[1])
		ts := make([]*Term, n)
		for i := range ts {
			ts[i] = x.newInput(x.goStr(a[0]), 8)
		}
		return x.newBytes(ts)
	}
	in[vpf("Str")] = func(x *X, fn *ssa.Function, a []Value) Value {
		n := x.goInt(a[1])
		ts := make([]*Term, n)
		for i := range ts {
			ts[i] = x.newInput(x.goStr(a[0]), 8)
		}
		return mkStr(ts)
	}
	in[vpf("Choose")] = func(x *X, fn *ssa.Function, a []Value) Value {
		n := x.goInt(a[1])
		st := x.st
		t := seqVar(st.nvars, 32)
		c := tUlt(t, mkConst(32, uint64(n)))
		if v, ok := st.lookup(c); !ok || !v {
			x.assume(c)
		}
		v := x.concretize(t)
		x.newInput(x.goStr(a[0]), 32)
		return u64(v)
	}
	// SymChoose: an index below n that stays symbolic
	in[vpf("Below")] = func(x *X, fn *ssa.Function, a []Value) Value {
		n := x.goInt(a[1])
		t := x.newInput(x.goStr(a[0]), 32)
		x.assume(tUlt(t, mkConst(32, uint64(n))))
		return tZExt(t, 64)
	}
	in[vpf("Split")] = func(x *X, fn *ssa.Function, a []Value) Value {
		t := a[0].(*Term)
		return mkConst(t.w, x.concretize(t))
	}
	in[vpf("Assume")] = func(x *X, fn *ssa.Function, a []Value) Value { x.assume(a[0].(*Term)); return nil }
	in[vpf("Assert")] = func(x *X, fn *ssa.Function, a []Value) Value {
		x.assert(a[0].(*Term), x.goStr(a[1]))
		return nil
	}
	in[vpf("Fail")] = func(x *X, fn *ssa.Function, a []Value) Value {
		x.assert(tFalse, x.goStr(a[0]))
		return nil
	}
	in[vpf("Stop")] = func(x *X, fn *ssa.Function, a []Value) Value { panic(pathEnd{kind: "done"}) }
	in[vpf("Reach")] = func(x *X, fn *ssa.Function, a []Value) Value {
		st := x.st
		st.reach = append(st.reach[:len(st.reach):len(st.reach)], x.goStr(a[0]))
		return nil
	}
	in[vpf("And")] = func(x *X, fn *ssa.Function, a []Value) Value { return tBAnd(a[0].(*Term), a[1].(*Term)) }
	in[vpf("Or")] = func(x *X, fn *ssa.Function, a []Value) Value { return tBOr(a[0].(*Term), a[1].(*Term)) }
	in[vpf("Implies")] = func(x *X, fn *ssa.Function, a []Value) Value {
		return tBOr(tBNot(a[0].(*Term)), a[1].(*Term))
	}
	ite := func(x *X, fn *ssa.Function, a []Value) Value { return tIte(a[0].(*Term), a[1].(*Term), a[2].(*Term)) }
	in[vpf("IteInt")] = ite
	in[vpf("IteU8")] = ite
	in[vpf("IteI8")] = ite
	in[vpf("IteU64")] = ite
	in[vpf("EqBytes")] = func(x *X, fn *ssa.Function, a []Value) Value {
		return x.eqStr(mkStr(x.byteTerms(a[0].(Slice))), mkStr(x.byteTerms(a[1].(Slice))))
	}
	in[vpf("EqStr")] = func(x *X, fn *ssa.Function, a []Value) Value { return x.eqStr(a[0].(*Str), a[1].(*Str)) }
	obs := func(x *X, l string, v []Value) {
		st := x.st
		st.obs = append(st.obs[:len(st.obs):len(st.obs)], obsRec{l, v})
	}
	in[vpf("Obs")] = func(x *X, fn *ssa.Function, a []Value) Value {
		obs(x, x.goStr(a[0]), []Value{a[1]})
		return nil
	}
	in[vpf("ObsBytes")] = func(x *X, fn *ssa.Function, a []Value) Value {
		var vs []Value
		for _, t := range x.byteTerms(a[1].(Slice)) {
			vs = append(vs, t)
		}
		obs(x, x.goStr(a[0]), vs)
		return nil
	}
	in[vpf("AllocTotal")] = func(x *X, fn *ssa.Function, a []Value) Value {
		x.st.allocSum, x.st.allocMax = 0, int64(x.goInt(a[0]))
		return nil
	}
	in[vpf("AllocLimit")] = func(x *X, fn *ssa.Function, a []Value) Value { x.st.alloc = int64(x.goInt(a[0])); return nil }
	in[vpf("MaxSteps")] = func(x *X, fn *ssa.Function, a []Value) Value {
		x.st.maxStep = x.st.steps + int64(x.goInt(a[0]))
		return nil
	}
	in[vpf("MapAnyOrder")] = func(x *X, fn *ssa.Function, a []Value) Value { x.st.mapAny = a[0].(*Term).isTrue(); return nil }
	in[vpf("Thorough")] = func(x *X, fn *ssa.Function, a []Value) Value {
		v := uint64(0)
		if x.run.thorough {
			v = 1
		}
		st := x.st
		st.inputs = append(st.inputs[:len(st.inputs):len(st.inputs)], inputRec{"thorough", mkConst(8, v)})
		return mkBool(x.run.thorough)
	}
	in[vpf("Native")] = nop(tFalse)
	in[vpf("printed")] = func(x *X, fn *ssa.Function, a []Value) Value { return u64(uint64(len(x.st.stdout))) }
	in[vpf("printedText")] = func(x *X, fn *ssa.Function, a []Value) Value {
		var ts []*Term
		for _, s := range x.st.stdout[x.goInt(a[0]):] {
			if s.fm != nil {
				return s
			}
			ts = append(ts, x.plain(s).terms()...)
		}
		return mkStr(ts)
	}
	in[vpf("IsConcrete")] = func(x *X, fn *ssa.Function, a []Value) Value {
		t, ok := a[0].(*Term)
		return mkBool(ok && t.isConst())
	}
	in[vpf("Yield")] = func(x *X, fn *ssa.Function, a []Value) Value {
		x.yieldNow()
		return nil
	}
	in["runtime.Gosched"] = in[vpf("Yield")]
	// block until every other goroutine is blocked
	in[vpf("Quiesce")] = func(x *X, fn *ssa.Function, a []Value) Value {
		st := x.st
		me := st.cur
		idle := func(s *State) bool {
			for i, g := range s.gs {
				if i == me || g.done {
					continue
				}
				if g.ready == nil || g.ready(s) {
					return false
				}
			}
			return true
		}
		if !idle(st) {
			panic(blockSig{ready: idle, why: "quiesce"})
		}
		return nil
	}
	in[vpf("WaitFor")] = func(x *X, fn *ssa.Function, a []Value) Value { // blocks until *p != 0
		p := a[0].(Ptr)
		rd := func(s *State) bool {
			t, ok := s.obj(p.obj).get(p.off).(*Term)
			return ok && !(t.isConst() && t.val == 0)
		}
		if !rd(x.st) {
			panic(blockSig{ready: rd, why: "waitfor"})
		}
		return nil
	}
	in[vpf("Delays")] = func(x *X, fn *ssa.Function, a []Value) Value {
		x.st.delays = x.goInt(a[0])
		return nil
	}
	in[vpf("onceWait")] = func(x *X, fn *ssa.Function, a []Value) Value {
		p := a[0].(Ptr)
		rd := func(s *State) bool { t := s.obj(p.obj).get(p.off).(*Term); return t.val != 1 }
		if !rd(x.st) {
			panic(blockSig{ready: rd, why: "once"})
		}
		return nil
	}
	in[vpf("Races")] = func(x *X, fn *ssa.Function, a []Value) Value {
		x.st.raceInit()
		for _, f := range x.st.gs[x.st.cur].frames {
			f.h, f.quiet = true, true
		}
		return nil
	}
	in[vpf("Preempt")] = func(x *X, fn *ssa.Function, a []Value) Value {
		x.st.preempts = x.goInt(a[0])
		return nil
	}
	in[vpf("TimerRace")] = func(x *X, fn *ssa.Function, a []Value) Value {
		if x.st.hooks == nil {
			x.st.hooks = map[string]Value{}
		}
		x.st.hooks["timerrace"] = tTrue
		return nil
	}
	in[vpf("Now")] = func(x *X, fn *ssa.Function, a []Value) Value { return u64(uint64(x.st.now)) }
	in[vpf("Goroutines")] = func(x *X, fn *ssa.Function, a []Value) Value {
		n := 0
		for _, g := range x.st.gs {
			if !g.done {
				n++
			}
		}
		return u64(uint64(n))
	}
	in[vpf("rawSize")] = func(x *X, fn *ssa.Function, a []Value) Value {
		v := a[0].(Iface)
		return u64(uint64(x.rawSize(v)))
	}
	in[vpf("rawFill")] = func(x *X, fn *ssa.Function, a []Value) Value {
		x.rawFill(a[0].(Iface), a[1].(Slice), a[2].(*Term).isTrue())
		return nil
	}
	in[vpf("isLittle")] = func(x *X, fn *ssa.Function, a []Value) Value {
		v := a[0].(Iface)
		return mkBool(v.t != nil && strings.Contains(v.t.String(), "ittle"))
	}
	in[vpf("swapElems")] = func(x *X, fn *ssa.Function, a []Value) Value {
		v := a[0].(Iface)
		s := v.v.(Slice)
		es := layoutOf(v.t.Underlying().(*types.Slice).Elem()).n
		i, j := x.goInt(a[1]), x.goInt(a[2])
		o := x.st.wobj(s.obj)
		for k := 0; k < es; k++ {
			p, q := o.get(s.off+i*es+k), o.get(s.off+j*es+k)
			o.set(s.off+i*es+k, q)
			o.set(s.off+j*es+k, p)
		}
		return nil
	}
	in[vpf("lenOf")] = func(x *X, fn *ssa.Function, a []Value) Value {
		return u64(uint64(a[0].(Iface).v.(Slice).len))
	}

	// ---- std ----
	in["internal/reflectlite.TypeOf"] = func(x *X, fn *ssa.Function, a []Value) Value {
		return Iface{x.run.prog.pkgs[vpPath].Type("FakeType").Type(), Agg{}}
	}
	in["("+vpPath+".FakeType).Elem"] = func(x *X, fn *ssa.Function, a []Value) Value { return Iface{} }
	in["runtime.Caller"] = func(x *X, fn *ssa.Function, a []Value) Value {
		g := x.st.gs[x.st.cur]
		i := len(g.frames) - 1 - x.goInt(a[0])
		if i < 0 {
			return Tuple{mkConst(64, 0), cstr(""), mkConst(64, 0), tFalse}
		}
		file, line := "file.go", 1
		f := g.frames[i]
		if f.ip < len(f.fi.blocks[f.blk]) {
			if in := f.fi.blocks[f.blk][f.ip].in; in.Pos().IsValid() {
				p := x.run.prog.fset.Position(in.Pos())
				file, line = p.Filename, p.Line
			}
		}
		return Tuple{mkConst(64, 0), cstr(file), mkConst(64, uint64(line)), tTrue}
	}
	in["runtime.Callers"] = nop(mkConst(64, 0))
	in["runtime.GC"] = nop(nil)
	in["runtime.NumGoroutine"] = in[vpf("Goroutines")]
	in["runtime.KeepAlive"] = nop(nil)
	in[vpf("rawSprintf")] = func(x *X, fn *ssa.Function, a []Value) Value { return x.st.countStr(x.sprintf(a[0].(*Str), a[1].(Slice))) }
	in[vpf("rawSprint")] = func(x *X, fn *ssa.Function, a []Value) Value { return x.sprint("%!sprint", a[0].(Slice)) }
	in[vpf("rawSprintln")] = func(x *X, fn *ssa.Function, a []Value) Value { return x.sprint("%!sprintln", a[0].(Slice)) }
	in[vpf("rawPrint")] = func(x *X, fn *ssa.Function, a []Value) Value {
		st := x.st
		st.stdout = append(st.stdout[:len(st.stdout):len(st.stdout)], a[0].(*Str))
		return nil
	}
	in[vpf("rawVerb")] = func(x *X, fn *ssa.Function, a []Value) Value { // the verb of operand i, 0 when unknown
		f, ok := a[0].(*Str).concrete()
		i := x.goInt(a[1])
		if !ok {
			return mkConst(8, 0)
		}
		ds, ok := directives(f)
		if !ok || i >= len(ds)-1 {
			return mkConst(8, 0)
		}
		return mkConst(8, uint64(ds[i].verb))
	}
	in[vpf("rawNilPtr")] = func(x *X, fn *ssa.Function, a []Value) Value {
		i := a[0].(Iface)
		p, ok := i.v.(Ptr)
		return mkBool(i.t == nil || ok && p.obj == 0)
	}
	in[vpf("rawIsFile")] = func(x *X, fn *ssa.Function, a []Value) Value {
		i := a[0].(Iface)
		return mkBool(i.t != nil && i.t.String() == "*os.File")
	}
	in[vpf("rawIsNative")] = func(x *X, fn *ssa.Function, a []Value) Value {
		i := a[0].(Iface)
		return mkBool(i.t != nil && (types.Identical(i.t, x.run.prog.fmtErrP) || i.t.String() == "*errors.errorString"))
	}
	in[vpf("rawAssign")] = func(x *X, fn *ssa.Function, a []Value) Value { // errors.As: *target = err when the types fit
		e, t := a[0].(Iface), a[1].(Iface)
		if e.t == nil || t.t == nil {
			return tFalse
		}
		pt, ok := t.t.Underlying().(*types.Pointer)
		if !ok || t.v.(Ptr).obj == 0 {
			x.rtPanic("errors: target must be a non-nil pointer")
		}
		if it, ok := pt.Elem().Underlying().(*types.Interface); ok {
			if !types.Implements(e.t, it) {
				return tFalse
			}
			x.store(t.v, e)
			return tTrue
		}
		if !types.Identical(e.t, pt.Elem()) {
			return tFalse
		}
		x.store(t.v, e.v)
		return tTrue
	}
	in["math.Float64bits"] = func(x *X, fn *ssa.Function, a []Value) Value { return a[0] }
	in["math.Float64frombits"] = in["math.Float64bits"]
	in["math.Float32bits"] = in["math.Float64bits"]
	in["math.Float32frombits"] = in["math.Float64bits"]
	in["math.IsNaN"] = func(x *X, fn *ssa.Function, a []Value) Value { return fpNaN(a[0].(*Term)) }
	in["math.Inf"] = func(x *X, fn *ssa.Function, a []Value) Value {
		t := a[0].(*Term)
		return tIte(tSlt(t, mkConst(64, 0)), mkConst(64, math.Float64bits(math.Inf(-1))), mkConst(64, math.Float64bits(math.Inf(1))))
	}
	cf := func(f func(float64) float64) intrinsicFn {
		return func(x *X, fn *ssa.Function, a []Value) Value {
			t := a[0].(*Term)
			if !t.isConst() {
				panic(unsupported("symbolic math function"))
			}
			return fmk(64, f(fval(t)))
		}
	}
	in["math.Floor"], in["math.Ceil"], in["math.Trunc"], in["math.Sqrt"] = cf(math.Floor), cf(math.Ceil), cf(math.Trunc), cf(math.Sqrt)
	in["math.Abs"] = func(x *X, fn *ssa.Function, a []Value) Value {
		return tAnd(a[0].(*Term), mkConst(64, ^(uint64(1)<<63)))
	}
	in["math.Pow"] = func(x *X, fn *ssa.Function, a []Value) Value {
		p, q := a[0].(*Term), a[1].(*Term)
		if !p.isConst() || !q.isConst() {
			panic(unsupported("symbolic math.Pow"))
		}
		return fmk(64, math.Pow(fval(p), fval(q)))
	}
	in["math.Ldexp"] = func(x *X, fn *ssa.Function, a []Value) Value {
		p, q := a[0].(*Term), a[1].(*Term)
		if !p.isConst() || !q.isConst() {
			panic(unsupported("symbolic math.Ldexp"))
		}
		return fmk(64, math.Ldexp(fval(p), int(int64(q.val))))
	}
	clz := func(w uint8) intrinsicFn {
		return func(x *X, fn *ssa.Function, a []Value) Value {
			t := a[0].(*Term)
			r := mkConst(64, 0)
			for i := uint8(0); i < t.w; i++ {
				r = tIte(tEq(tExtract(t, i, i), mkConst(1, 1)), mkConst(64, uint64(i)+1), r)
			}
			// shift amounts derived from it are far cheaper when constant
			return mkConst(64, x.concretize(r))
		}
	}
	in["math/bits.Len64"], in["math/bits.Len32"], in["math/bits.Len16"], in["math/bits.Len8"], in["math/bits.Len"] = clz(64), clz(32), clz(16), clz(8), clz(64)
	ctz := func(x *X, fn *ssa.Function, a []Value) Value {
		t := a[0].(*Term)
		r := mkConst(64, uint64(t.w))
		for i := int(t.w) - 1; i >= 0; i-- {
			r = tIte(tEq(tExtract(t, uint8(i), uint8(i)), mkConst(1, 1)), mkConst(64, uint64(i)), r)
		}
		return r
	}
	in["math/bits.TrailingZeros64"], in["math/bits.TrailingZeros32"], in["math/bits.TrailingZeros"] = ctz, ctz, ctz

	in["internal/bytealg.IndexByte"] = func(x *X, fn *ssa.Function, a []Value) Value {
		return x.indexByte(x.byteTerms(a[0].(Slice)), a[1].(*Term))
	}
	in["internal/bytealg.IndexByteString"] = func(x *X, fn *ssa.Function, a []Value) Value {
		return x.indexByte(x.plain(a[0].(*Str)).terms(), a[1].(*Term))
	}
	in["strings.IndexByte"] = in["internal/bytealg.IndexByteString"]
	in["bytes.IndexByte"] = in["internal/bytealg.IndexByte"]
	in["bytes.Equal"] = in[vpf("EqBytes")]
	in["internal/bytealg.Equal"] = in[vpf("EqBytes")]
	in["bytes.Compare"] = func(x *X, fn *ssa.Function, a []Value) Value {
		p, q := mkStr(x.byteTerms(a[0].(Slice))), mkStr(x.byteTerms(a[1].(Slice)))
		lt := x.strBin(tokenLSS, p, q).(*Term)
		return tIte(x.eqStr(p, q), mkConst(64, 0), tIte(lt, mkConst(64, ^uint64(0)), mkConst(64, 1)))
	}
	in["internal/bytealg.MakeNoZero"] = func(x *X, fn *ssa.Function, a []Value) Value {
		n := x.goInt(a[0])
		return Slice{x.st.allocArray(types.Typ[types.Uint8], n), 0, n, roundupsize(n)}
	}
	in["internal/abi.NoEscape"] = func(x *X, fn *ssa.Function, a []Value) Value { return a[0] }
	in["(*strings.Builder).copyCheck"] = nop(nil)
	dec := func(t *Term, signed bool) Value { return mkParts([]strPart{{n: t, signed: signed}}) }
	in["strconv.Itoa"] = func(x *X, fn *ssa.Function, a []Value) Value { return dec(a[0].(*Term), true) }
	in["strconv.FormatInt"] = func(x *X, fn *ssa.Function, a []Value) Value {
		t, b := a[0].(*Term), x.goInt(a[1])
		if t.isConst() {
			return cstr(strconv.FormatInt(int64(t.val), b))
		}
		if b != 10 {
			panic(unsupported("strconv.FormatInt of a symbolic value in base other than 10"))
		}
		return dec(t, true)
	}
	in["strconv.FormatUint"] = func(x *X, fn *ssa.Function, a []Value) Value {
		t, b := a[0].(*Term), x.goInt(a[1])
		if t.isConst() {
			return cstr(strconv.FormatUint(t.val, b))
		}
		if b != 10 {
			panic(unsupported("strconv.FormatUint of a symbolic value in base other than 10"))
		}
		return dec(t, false)
	}
	in["strconv.ParseFloat"] = func(x *X, fn *ssa.Function, a []Value) Value {
		v, err := strconv.ParseFloat(x.goStr(x.plain(a[0].(*Str))), x.goInt(a[1]))
		e := Value(Iface{})
		if err != nil {
			e = x.newErr(cstr(err.Error()))
		}
		return Tuple{fmk(64, v), e}
	}
	in["strings.Join"] = func(x *X, fn *ssa.Function, a []Value) Value {
		r := cstr("")
		for i, e := range x.sliceElems(a[0].(Slice), 1) {
			if i > 0 {
				r = concat(r, a[1].(*Str))
			}
			r = concat(r, e.(*Str))
		}
		return r
	}
	// strings.Builder: the text is kept in the first cell
	sbGet := func(x *X, v Value) (Ptr, *Str) {
		p := v.(Ptr)
		if p.obj == 0 {
			x.rtPanic("invalid memory address or nil pointer dereference")
		}
		if s, ok := x.st.obj(p.obj).get(p.off).(*Str); ok {
			return p, s
		}
		return p, cstr("")
	}
	sbAdd := func(x *X, v Value, t *Str) int {
		p, s := sbGet(x, v)
		r := concat(s, t)
		x.st.wobj(p.obj).set(p.off, r)
		return 0
	}
	sb := func(n string, f func(x *X, a []Value) Value) {
		in["(*strings.Builder)."+n] = func(x *X, fn *ssa.Function, a []Value) Value { return f(x, a) }
	}
	sb("WriteString", func(x *X, a []Value) Value {
		t := a[1].(*Str)
		sbAdd(x, a[0], t)
		return Tuple{mkConst(64, uint64(x.softLen(t))), Iface{}}
	})
	sb("Write", func(x *X, a []Value) Value {
		ts := x.byteTerms(a[1].(Slice))
		sbAdd(x, a[0], mkStr(ts))
		return Tuple{mkConst(64, uint64(len(ts))), Iface{}}
	})
	sb("WriteByte", func(x *X, a []Value) Value {
		sbAdd(x, a[0], mkStr([]*Term{a[1].(*Term)}))
		return Iface{}
	})
	sb("WriteRune", func(x *X, a []Value) Value {
		r := string(rune(x.goInt(a[1])))
		sbAdd(x, a[0], cstr(r))
		return Tuple{mkConst(64, uint64(len(r))), Iface{}}
	})
	sb("String", func(x *X, a []Value) Value { _, s := sbGet(x, a[0]); return s })
	sb("Len", func(x *X, a []Value) Value { _, s := sbGet(x, a[0]); return mkConst(64, uint64(x.plain(s).length())) })
	sb("Cap", func(x *X, a []Value) Value { _, s := sbGet(x, a[0]); return mkConst(64, uint64(x.plain(s).length())) })
	sb("Grow", func(x *X, a []Value) Value { return nil })
	sb("Reset", func(x *X, a []Value) Value {
		p, _ := sbGet(x, a[0])
		x.st.wobj(p.obj).set(p.off, cstr(""))
		return nil
	})
	// text functions on constants
	conv := func(n string, f func(string) string) {
		in["strings."+n] = func(x *X, fn *ssa.Function, a []Value) Value { return cstr(f(x.goStr(a[0]))) }
	}
	conv("ToUpper", strings.ToUpper)
	conv("ToLower", strings.ToLower)
	conv("Title", strings.Title)
	count := func(x *X, ts []*Term, c *Term) Value {
		n := mkConst(64, 0)
		for _, t := range ts {
			n = tAdd(n, tIte(tEq(t, c), mkConst(64, 1), mkConst(64, 0)))
		}
		return n
	}
	in["internal/bytealg.CountString"] = func(x *X, fn *ssa.Function, a []Value) Value {
		return count(x, x.plain(a[0].(*Str)).terms(), a[1].(*Term))
	}
	in["internal/bytealg.Count"] = func(x *X, fn *ssa.Function, a []Value) Value {
		return count(x, x.byteTerms(a[0].(Slice)), a[1].(*Term))
	}
	lastIdx := func(x *X, ts []*Term, c *Term) Value {
		for i := len(ts) - 1; i >= 0; i-- {
			if x.decide(tEq(ts[i], c)) {
				return mkConst(64, uint64(i))
			}
		}
		return mkConst(64, ^uint64(0))
	}
	in["internal/bytealg.LastIndexByteString"] = func(x *X, fn *ssa.Function, a []Value) Value {
		return lastIdx(x, x.plain(a[0].(*Str)).terms(), a[1].(*Term))
	}
	in["internal/bytealg.LastIndexByte"] = func(x *X, fn *ssa.Function, a []Value) Value {
		return lastIdx(x, x.byteTerms(a[0].(Slice)), a[1].(*Term))
	}
	in["internal/bytealg.CompareString"] = func(x *X, fn *ssa.Function, a []Value) Value {
		p, q := x.plain(a[0].(*Str)), x.plain(a[1].(*Str))
		lt := x.strBin(tokenLSS, p, q).(*Term)
		return tIte(x.eqStr(p, q), mkConst(64, 0), tIte(lt, mkConst(64, ^uint64(0)), mkConst(64, 1)))
	}
	in["maps.clone"] = func(x *X, fn *ssa.Function, a []Value) Value {
		i := a[0].(Iface)
		m := i.v.(MapRef)
		if m.obj == 0 {
			return i
		}
		o := x.st.obj(m.obj).clone(0)
		o.owner = 0
		return Iface{i.t, MapRef{x.st.newObj(o)}}
	}

	// ---- sync ----
	cell := func(x *X, v Value) *Term { p := v.(Ptr); return x.st.obj(p.obj).get(p.off).(*Term) }
	setc := func(x *X, v Value, n uint64) {
		p := v.(Ptr)
		t := cell(x, v)
		x.st.wobj(p.obj).set(p.off, mkConst(t.w, n))
	}
	lock := func(x *X, fn *ssa.Function, a []Value) Value {
		p, ok := a[0].(Ptr)
		if !ok || p.obj == 0 {
			x.rtPanic("invalid memory address or nil pointer dereference")
		}
		if cell(x, p).val != 0 {
			panic(blockSig{ready: func(s *State) bool { return s.obj(p.obj).get(p.off).(*Term).val == 0 }, why: "mutex"})
		}
		setc(x, p, 1)
		return nil
	}
	unlock := func(x *X, fn *ssa.Function, a []Value) Value {
		if cell(x, a[0]).val == 0 {
			panic(pathEnd{kind: "panic", msg: "fatal error: sync: unlock of unlocked mutex at " + x.stack()})
		}
		setc(x, a[0], 0)
		return nil
	}
	in["(*sync.Mutex).Lock"], in["(*sync.Mutex).Unlock"] = lock, unlock
	in["(*sync.Mutex).TryLock"] = func(x *X, fn *ssa.Function, a []Value) Value {
		if cell(x, a[0]).val != 0 {
			return tFalse
		}
		setc(x, a[0], 1)
		return tTrue
	}
	// RWMutex: first scalar cell: 0 free, 1 writer, 2+n readers
	in["(*sync.RWMutex).Lock"], in["(*sync.RWMutex).Unlock"] = lock, unlock
	in["(*sync.RWMutex).RLock"] = func(x *X, fn *ssa.Function, a []Value) Value {
		p := a[0].(Ptr)
		v := cell(x, p).val
		if v == 1 {
			panic(blockSig{ready: func(s *State) bool { return s.obj(p.obj).get(p.off).(*Term).val != 1 }, why: "rwmutex"})
		}
		if v == 0 {
			v = 2
		}
		setc(x, p, v+1)
		return nil
	}
	in["(*sync.RWMutex).RUnlock"] = func(x *X, fn *ssa.Function, a []Value) Value {
		v := cell(x, a[0]).val
		if v < 3 {
			panic(pathEnd{kind: "panic", msg: "fatal error: sync: RUnlock of unlocked RWMutex at " + x.stack()})
		}
		v--
		if v == 2 {
			v = 0
		}
		setc(x, a[0], v)
		return nil
	}
	in["(*sync.WaitGroup).Add"] = func(x *X, fn *ssa.Function, a []Value) Value {
		p := x.wgCell(a[0].(Ptr), fn)
		o := x.st.obj(p.obj).get(p.off).(*Term)
		n := sext64(o.val, o.w) + int64(x.goInt(a[1]))
		if n < 0 {
			x.rtPanic("sync: negative WaitGroup counter")
		}
		x.st.wobj(p.obj).set(p.off, mkConst(o.w, uint64(n)))
		return nil
	}
	in["(*sync.WaitGroup).Done"] = func(x *X, fn *ssa.Function, a []Value) Value {
		return in["(*sync.WaitGroup).Add"](x, fn, []Value{a[0], mkConst(64, ^uint64(0))})
	}
	in["(*sync.WaitGroup).Wait"] = func(x *X, fn *ssa.Function, a []Value) Value {
		p := x.wgCell(a[0].(Ptr), fn)
		rd := func(s *State) bool { return s.obj(p.obj).get(p.off).(*Term).val == 0 }
		if !rd(x.st) {
			panic(blockSig{ready: rd, why: "waitgroup"})
		}
		return nil
	}
	for _, t := range []struct {
		n string
		w uint8
	}{{"Int32", 32}, {"Int64", 64}, {"Uint32", 32}, {"Uint64", 64}} {
		t := t
		ld := func(x *X, fn *ssa.Function, a []Value) Value { return x.load(x.lastCell(a[0]), basicOf(t.w)) }
		sto := func(x *X, fn *ssa.Function, a []Value) Value { x.store(x.lastCell(a[0]), a[1]); return nil }
		add := func(x *X, fn *ssa.Function, a []Value) Value {
			p := x.lastCell(a[0])
			v := tAdd(x.load(p, basicOf(t.w)).(*Term), a[1].(*Term))
			x.store(p, v)
			return v
		}
		cas := func(x *X, fn *ssa.Function, a []Value) Value {
			p := x.lastCell(a[0])
			if x.decide(tEq(x.load(p, basicOf(t.w)).(*Term), a[1].(*Term))) {
				x.store(p, a[2])
				return tTrue
			}
			return tFalse
		}
		swp := func(x *X, fn *ssa.Function, a []Value) Value {
			p := x.lastCell(a[0])
			v := x.load(p, basicOf(t.w))
			x.store(p, a[1])
			return v
		}
		in["sync/atomic.Load"+t.n], in["sync/atomic.Store"+t.n], in["sync/atomic.Add"+t.n], in["sync/atomic.CompareAndSwap"+t.n], in["sync/atomic.Swap"+t.n] = ld, sto, add, cas, swp
		m := "(*sync/atomic." + t.n + ")."
		in[m+"Load"], in[m+"Store"], in[m+"Add"], in[m+"CompareAndSwap"], in[m+"Swap"] = ld, sto, add, cas, swp
	}
	ptrCell := func(x *X, v Value) Ptr {
		p := v.(Ptr)
		if p.obj == 0 {
			x.rtPanic("invalid memory address or nil pointer dereference")
		}
		return p
	}
	asPtr := func(v Value) Value {
		if p, ok := v.(Ptr); ok {
			return p
		}
		return Ptr{}
	}
	in["sync/atomic.LoadPointer"] = func(x *X, fn *ssa.Function, a []Value) Value {
		p := ptrCell(x, a[0])
		return asPtr(x.st.obj(p.obj).get(p.off))
	}
	in["sync/atomic.StorePointer"] = func(x *X, fn *ssa.Function, a []Value) Value {
		p := ptrCell(x, a[0])
		x.st.wobj(p.obj).set(p.off, a[1])
		return nil
	}
	in["sync/atomic.SwapPointer"] = func(x *X, fn *ssa.Function, a []Value) Value {
		p := ptrCell(x, a[0])
		o := asPtr(x.st.obj(p.obj).get(p.off))
		x.st.wobj(p.obj).set(p.off, a[1])
		return o
	}
	in["sync/atomic.CompareAndSwapPointer"] = func(x *X, fn *ssa.Function, a []Value) Value {
		p := ptrCell(x, a[0])
		if asPtr(x.st.obj(p.obj).get(p.off)) != a[1] {
			return tFalse
		}
		x.st.wobj(p.obj).set(p.off, a[2])
		return tTrue
	}
	in["(*sync/atomic.Value).Load"] = func(x *X, fn *ssa.Function, a []Value) Value {
		p := ptrCell(x, a[0])
		if i, ok := x.st.obj(p.obj).get(p.off).(Iface); ok {
			return i
		}
		return Iface{}
	}
	in["(*sync/atomic.Value).Store"] = func(x *X, fn *ssa.Function, a []Value) Value {
		p := ptrCell(x, a[0])
		if a[1].(Iface).t == nil {
			x.goPanicStr("sync/atomic: store of nil value into Value")
		}
		x.st.wobj(p.obj).set(p.off, a[1])
		return nil
	}
	in["(*sync/atomic.Bool).Swap"] = func(x *X, fn *ssa.Function, a []Value) Value {
		o := in["(*sync/atomic.Bool).Load"](x, fn, a)
		in["(*sync/atomic.Bool).Store"](x, fn, a)
		return o
	}
	in["(*sync/atomic.Bool).Load"] = func(x *X, fn *ssa.Function, a []Value) Value {
		return tBNot(tEq(x.load(x.lastCell(a[0]), basicOf(32)).(*Term), mkConst(32, 0)))
	}
	in["(*sync/atomic.Bool).Store"] = func(x *X, fn *ssa.Function, a []Value) Value {
		x.store(x.lastCell(a[0]), tIte(a[1].(*Term), mkConst(32, 1), mkConst(32, 0)))
		return nil
	}
	in["(*sync/atomic.Bool).CompareAndSwap"] = func(x *X, fn *ssa.Function, a []Value) Value {
		p := x.lastCell(a[0])
		cur := tBNot(tEq(x.load(p, basicOf(32)).(*Term), mkConst(32, 0)))
		if x.decide(tEq(cur, a[1].(*Term))) {
			x.store(p, tIte(a[2].(*Term), mkConst(32, 1), mkConst(32, 0)))
			return tTrue
		}
		return tFalse
	}

	// ---- time ----
	in["time.Now"] = func(x *X, fn *ssa.Function, a []Value) Value { return x.timeNow() }
	tfld := func(v Value) *Term { return v.(Agg)[1].(*Term) }
	in["(time.Time).UnixNano"] = func(x *X, fn *ssa.Function, a []Value) Value { return tfld(a[0]) }
	unix := func(d uint64) intrinsicFn {
		return func(x *X, fn *ssa.Function, a []Value) Value { return tDiv(OSDiv, tfld(a[0]), u64(d)) }
	}
	in["(time.Time).Unix"], in["(time.Time).UnixMilli"], in["(time.Time).UnixMicro"] = unix(1e9), unix(1e6), unix(1e3)
	in["(time.Time).Equal"] = func(x *X, fn *ssa.Function, a []Value) Value { return tEq(tfld(a[0]), tfld(a[1])) }
	in["(time.Time).Compare"] = func(x *X, fn *ssa.Function, a []Value) Value {
		return tIte(tEq(tfld(a[0]), tfld(a[1])), u64(0), tIte(tSlt(tfld(a[0]), tfld(a[1])), u64(^uint64(0)), u64(1)))
	}
	in["time.Until"] = func(x *X, fn *ssa.Function, a []Value) Value { return tSub(tfld(a[0]), tfld(x.timeNow())) }
	in["(time.Time).Add"] = func(x *X, fn *ssa.Function, a []Value) Value {
		z := append(Agg(nil), a[0].(Agg)...)
		z[1] = tAdd(z[1].(*Term), a[1].(*Term))
		return z
	}
	in["(time.Time).Sub"] = func(x *X, fn *ssa.Function, a []Value) Value {
		return tSub(a[0].(Agg)[1].(*Term), a[1].(Agg)[1].(*Term))
	}
	in["(time.Time).IsZero"] = func(x *X, fn *ssa.Function, a []Value) Value {
		return tEq(a[0].(Agg)[1].(*Term), u64(0))
	}
	in["(time.Time).Before"] = func(x *X, fn *ssa.Function, a []Value) Value {
		return tSlt(a[0].(Agg)[1].(*Term), a[1].(Agg)[1].(*Term))
	}
	in["(time.Time).After"] = func(x *X, fn *ssa.Function, a []Value) Value {
		return tSlt(a[1].(Agg)[1].(*Term), a[0].(Agg)[1].(*Term))
	}
	in["time.Since"] = func(x *X, fn *ssa.Function, a []Value) Value {
		return tSub(tfld(x.timeNow()), tfld(a[0]))
	}
	in["time.Sleep"] = func(x *X, fn *ssa.Function, a []Value) Value {
		// modelled as a timer wait
		st := x.st
		g := st.gs[st.cur]
		if g.why == "sleep!" {
			g.why = ""
			if g.top().h {
				x.joinAll()
			}
			return nil
		}
		d := int64(x.goInt(a[0]))
		ch := st.newObj(&Object{kind: oChan, cap: 1})
		st.timers = append(st.timers, timerRec{ch: ch, due: st.now + d})
		panic(blockSig{ready: func(s *State) bool { return len(s.obj(ch).buf) > 0 }, why: "sleep!"})
	}
	newTimer := func(x *X, d int64, cl *Closure) Value {
		st := x.st
		p := st.allocType(x.run.prog.timerP.(*types.Pointer).Elem())
		ch := st.newObj(&Object{kind: oChan, cap: 1})
		l := layoutOf(x.run.prog.timerP.(*types.Pointer).Elem())
		_ = l
		if cl == nil {
			st.wobj(p.obj).set(p.off, ChanRef{ch})
		}
		// remember the timer through the channel id stored beside it
		st.timers = append(st.timers[:len(st.timers):len(st.timers)], timerRec{ch: ch, due: st.now + d, fn: cl, vc: x.relTimer(ch)})
		if st.hooks == nil {
			st.hooks = map[string]Value{}
		}
		st.hooks[fmt.Sprint("timer", p.obj)] = u64(uint64(len(st.timers) - 1))
		return p
	}
	in["time.NewTimer"] = func(x *X, fn *ssa.Function, a []Value) Value { return newTimer(x, int64(x.goInt(a[0])), nil) }
	in["time.AfterFunc"] = func(x *X, fn *ssa.Function, a []Value) Value {
		return newTimer(x, int64(x.goInt(a[0])), a[1].(*Closure))
	}
	in["time.After"] = func(x *X, fn *ssa.Function, a []Value) Value {
		p := newTimer(x, int64(x.goInt(a[0])), nil).(Ptr)
		return x.st.obj(p.obj).get(p.off)
	}
	in["(*time.Timer).Stop"] = func(x *X, fn *ssa.Function, a []Value) Value {
		p := a[0].(Ptr)
		if p.obj == 0 {
			x.rtPanic("invalid memory address or nil pointer dereference")
		}
		k, ok := x.st.hooks[fmt.Sprint("timer", p.obj)]
		if !ok {
			x.rtPanic("time: Stop called on uninitialized Timer")
		}
		t := &x.st.timers[int(k.(*Term).val)]
		was := !t.fired && !t.stopped
		t.stopped = true
		if t.fn == nil { // Go >= 1.23: no stale values after Stop
			x.st.wobj(t.ch).buf = nil
		}
		return mkBool(was)
	}
	newTicker := func(x *X, a Value) Value {
		d := int64(x.goInt(a))
		if d <= 0 {
			x.goPanicStr("non-positive interval for NewTicker")
		}
		st := x.st
		p := st.allocType(x.run.prog.pkgs["time"].Type("Ticker").Type())
		ch := st.newObj(&Object{kind: oChan, cap: 1})
		st.wobj(p.obj).set(p.off, ChanRef{ch})
		st.timers = append(st.timers[:len(st.timers):len(st.timers)], timerRec{ch: ch, due: st.now + d, period: d})
		if st.hooks == nil {
			st.hooks = map[string]Value{}
		}
		st.hooks[fmt.Sprint("timer", p.obj)] = u64(uint64(len(st.timers) - 1))
		return p
	}
	in["time.NewTicker"] = func(x *X, fn *ssa.Function, a []Value) Value { return newTicker(x, a[0]) }
	in["time.Tick"] = func(x *X, fn *ssa.Function, a []Value) Value {
		p := newTicker(x, a[0]).(Ptr)
		return x.st.obj(p.obj).get(p.off)
	}
	tickerRec := func(x *X, v Value) *timerRec {
		p := v.(Ptr)
		k, ok := x.st.hooks[fmt.Sprint("timer", p.obj)]
		if p.obj == 0 || !ok {
			x.rtPanic("invalid memory address or nil pointer dereference")
		}
		return &x.st.timers[int(k.(*Term).val)]
	}
	in["(*time.Ticker).Stop"] = func(x *X, fn *ssa.Function, a []Value) Value {
		t := tickerRec(x, a[0])
		t.stopped = true
		x.st.wobj(t.ch).buf = nil
		return nil
	}
	in["(*time.Ticker).Reset"] = func(x *X, fn *ssa.Function, a []Value) Value {
		t := tickerRec(x, a[0])
		d := int64(x.goInt(a[1]))
		if d <= 0 {
			x.goPanicStr("non-positive interval for Ticker.Reset")
		}
		t.stopped, t.period, t.due = false, d, x.st.now+d
		x.st.wobj(t.ch).buf = nil
		return nil
	}
	in["(*time.Timer).Reset"] = func(x *X, fn *ssa.Function, a []Value) Value {
		p := a[0].(Ptr)
		k := x.st.hooks[fmt.Sprint("timer", p.obj)]
		t := &x.st.timers[int(k.(*Term).val)]
		was := !t.fired && !t.stopped
		t.stopped, t.fired = false, false
		t.due = x.st.now + int64(x.goInt(a[1]))
		if t.fn == nil {
			x.st.wobj(t.ch).buf = nil
		}
		return mkBool(was)
	}
}

func basicOf(w uint8) types.Type {
	if w == 32 {
		return types.Typ[types.Uint32]
	}
	return types.Typ[types.Uint64]
}

// lastCell: atomic value structs keep their number in the last cell; raw pointers are one cell
func (x *X) lastCell(v Value) Value {
	p := v.(Ptr)
	if p.obj == 0 {
		x.rtPanic("invalid memory address or nil pointer dereference")
	}
	if _, ok := x.st.obj(p.obj).get(p.off).(*Term); ok {
		return p
	}
	panic(unsupported("atomic cell"))
}

func (x *X) wgCell(p Ptr, fn *ssa.Function) Ptr {
	o := x.st.obj(p.obj)
	for i := p.off; i < o.size(); i++ {
		if t, ok := o.get(i).(*Term); ok && t.w >= 32 {
			return Ptr{p.obj, i}
		}
	}
	panic(unsupported("waitgroup layout"))
}

func (x *X) yieldNow() {
	st := x.st
	g := st.gs[st.cur]
	if g.why == "yield!" {
		g.why = ""
		return
	}
	// allow any enabled goroutine (including this one) to continue
	panic(blockSig{ready: func(*State) bool { return true }, why: "yield!"})
}

func (x *X) indexByte(ts []*Term, c *Term) Value {
	for i, t := range ts {
		if x.decide(tEq(t, c)) {
			return mkConst(64, uint64(i))
		}
	}
	return mkConst(64, ^uint64(0))
}

func (x *X) newErr(s *Str) Value {
	id := x.st.newObj(&Object{kind: oCells, cells: []Value{s}})
	return Iface{x.run.prog.fmtErrP, Ptr{id, 0}}
}

// native converts a value to a Go value for formatting, if it is concrete and plain.
func (x *X) native(v Value) (interface{}, bool) {
	i, ok := v.(Iface)
	if !ok {
		return nil, false
	}
	if i.t == nil {
		return nil, true
	}
	if i.t == x.run.prog.fmtErrP || types.Identical(i.t, x.run.prog.fmtErrP) || i.t.String() == "*errors.errorString" {
		p := i.v.(Ptr)
		if p.obj == 0 {
			return nil, false
		}
		s, ok := x.st.obj(p.obj).get(0).(*Str).concrete()
		return fmtError(s), ok
	}
	if n, ok := i.t.(*types.Named); ok && n.NumMethods() > 0 {
		return nil, false
	}
	switch b := i.t.Underlying().(type) {
	case *types.Basic:
		if s, ok := i.v.(*Str); ok {
			return s.concrete()
		}
		t, ok := i.v.(*Term)
		if !ok || !t.isConst() {
			return nil, false
		}
		switch {
		case b.Info()&types.IsBoolean != 0:
			return t.val == 1, true
		case b.Info()&types.IsFloat != 0:
			if t.w == 32 {
				return float32(fval(t)), true
			}
			return fval(t), true
		case b.Info()&types.IsUnsigned != 0:
			if t.w == 8 {
				return uint8(t.val), true
			}
			return t.val, true
		default:
			return sext64(t.val, t.w), true
		}
	}
	return nil, false
}

func (x *X) rawScalars(t types.Type) []int { // byte sizes of flattened scalars
	switch u := t.Underlying().(type) {
	case *types.Basic:
		w := basicWidth(u)
		if w == 0 {
			return []int{1}
		}
		return []int{int(w / 8)}
	case *types.Struct:
		var r []int
		for i := 0; i < u.NumFields(); i++ {
			r = append(r, x.rawScalars(u.Field(i).Type())...)
		}
		return r
	case *types.Array:
		var r []int
		for i := int64(0); i < u.Len(); i++ {
			r = append(r, x.rawScalars(u.Elem())...)
		}
		return r
	}
	panic(unsupported("binary.Read into " + t.String()))
}

func (x *X) rawSize(v Iface) int {
	n := 0
	switch u := v.t.Underlying().(type) {
	case *types.Pointer:
		for _, k := range x.rawScalars(u.Elem()) {
			n += k
		}
		return n
	case *types.Slice:
		for _, k := range x.rawScalars(u.Elem()) {
			n += k
		}
		return n * v.v.(Slice).len
	}
	panic(unsupported("binary.Read target"))
}

func (x *X) rawFill(v Iface, bs Slice, little bool) {
	ts := x.byteTerms(bs)
	var p Ptr
	var sizes []int
	switch u := v.t.Underlying().(type) {
	case *types.Pointer:
		p = v.v.(Ptr)
		sizes = x.rawScalars(u.Elem())
	case *types.Slice:
		s := v.v.(Slice)
		p = Ptr{s.obj, s.off}
		one := x.rawScalars(u.Elem())
		for i := 0; i < s.len; i++ {
			sizes = append(sizes, one...)
		}
	}
	if p.obj == 0 {
		return
	}
	o := x.st.wobj(p.obj)
	pos := 0
	for i, n := range sizes {
		var t *Term
		for k := 0; k < n; k++ {
			j := pos + k
			if little {
				j = pos + n - 1 - k
			}
			if t == nil {
				t = ts[j]
			} else {
				t = tConcat(t, ts[j])
			}
		}
		pos += n
		if old, ok := o.get(p.off + i).(*Term); ok && old.w == 0 {
			t = tBNot(tEq(t, mkConst(t.w, 0)))
		}
		o.set(p.off+i, t)
	}
}

// the virtual clock of testing/synctest starts at 2000-01-01
const epoch = 946684800 * 1000000000

func (x *X) timeNow() Value {
	z := append(Agg(nil), layoutOf(x.run.prog.timeType).zero...)
	z[1] = u64(uint64(x.st.now + epoch)) // the ext field carries the virtual nanoseconds
	return z
}

func (x *X) goPanicStr(msg string) {
	panic(goPanic{val: Iface{types.Typ[types.String], cstr(msg)}})
}

// softLen is the length of a string where nobody is likely to look at it.
func (x *X) softLen(s *Str) int {
	if s.fm != nil || s.parts != nil {
		return 1
	}
	return s.length()
}
