package main

import (
	"fmt"
	"go/types"
	"sync"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

var ownerSeq uint64

func newOwner() uint64 { return atomic.AddUint64(&ownerSeq, 1) }

// ---- precompiled functions ----

type operand struct {
	reg  int // >=0 register
	val  Value
	glob *ssa.Global
	none bool
}

type cinstr struct {
	in  ssa.Instruction
	dst int
	ops []operand
}

type fnInfo struct {
	fn     *ssa.Function
	nregs  int
	idx    map[ssa.Value]int
	blocks [][]cinstr
	inRepo bool
	name   string
}

var fnInfos sync.Map

func infoOf(fn *ssa.Function) *fnInfo {
	if v, ok := fnInfos.Load(fn); ok {
		return v.(*fnInfo)
	}
	fi := &fnInfo{fn: fn, idx: map[ssa.Value]int{}, name: fn.String()}
	if fn.Pkg != nil {
		fi.inRepo = isRepoPkg(fn.Pkg.Pkg.Path())
	} else if fn.Object() != nil && fn.Object().Pkg() != nil {
		fi.inRepo = isRepoPkg(fn.Object().Pkg().Path())
	}
	add := func(v ssa.Value) int {
		i := len(fi.idx)
		fi.idx[v] = i
		return i
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	fi.nregs = len(fi.idx)
	for _, b := range fn.Blocks {
		var cs []cinstr
		for _, in := range b.Instrs {
			c := cinstr{in: in, dst: -1}
			if v, ok := in.(ssa.Value); ok {
				c.dst = fi.idx[v]
			}
			var rands []*ssa.Value
			rands = in.Operands(rands)
			for _, r := range rands {
				o := operand{reg: -1}
				switch v := (*r).(type) {
				case nil:
					o.none = true
				case *ssa.Const:
					o.val = constValue(v)
				case *ssa.Global:
					o.glob = v
				case *ssa.Function:
					o.val = &Closure{fn: v}
				case *ssa.Builtin:
					o.val = &Closure{bltn: v.Name()}
				default:
					i, ok := fi.idx[v]
					if !ok {
						panic(fmt.Sprintf("no index for %s in %s", v.Name(), fn))
					}
					o.reg = i
				}
				c.ops = append(c.ops, o)
			}
			cs = append(cs, c)
		}
		fi.blocks = append(fi.blocks, cs)
	}
	act, _ := fnInfos.LoadOrStore(fn, fi)
	return act.(*fnInfo)
}

// ---- goroutines, frames ----

type deferred struct {
	fn   Value // *Closure
	recv Value // for invoke mode handled by resolving fn
	args []Value
	call *ssa.CallCommon
}

type Frame struct {
	fi        *fnInfo
	regs      []Value
	blk, ip   int
	prev      int
	defers    []deferred
	isDefer   bool
	panicCall bool
	recovered bool
	// race detection
	rec, h, quiet  bool
	relObj, relOff int
}

type panicInfo struct {
	val       Iface
	recovered bool
	trace     string
}

type Goroutine struct {
	id     int
	frames []*Frame
	panics []panicInfo
	ready  func(*State) bool // nil = runnable
	sendCh int
	sendV  Value
	done   bool
	why    string

	vc      vclock
	resumed bool // the preempted operation runs now
}

func (f *Frame) clone() *Frame {
	n := *f
	n.regs = append([]Value(nil), f.regs...)
	n.defers = append([]deferred(nil), f.defers...)
	return &n
}

func (g *Goroutine) clone() *Goroutine {
	n := *g
	n.frames = make([]*Frame, len(g.frames))
	for i, f := range g.frames {
		n.frames[i] = f.clone()
	}
	n.panics = append([]panicInfo(nil), g.panics...)
	return &n
}

func (g *Goroutine) top() *Frame { return g.frames[len(g.frames)-1] }

type inputRec struct {
	name string
	t    *Term
}

type obsRec struct {
	label string
	vals  []Value
}

type timerRec struct {
	period  int64
	ch      int // channel object
	due     int64
	stopped bool
	fired   bool
	fn      *Closure // AfterFunc
	vc      vclock
}

type State struct {
	id        uint64
	heap      []*Object
	gs        []*Goroutine
	cur       int
	pc        []*Term
	known     map[*Term]bool
	pinned    map[int32]bool
	model     *Model
	inputs    []inputRec
	nvars     int
	nsched    int
	obs       []obsRec
	reach     []string
	steps     int64
	forks     int
	depth     int
	stdout    []*Str
	alloc     int64 // alloc limit in bytes, 0 = default
	allocMax  int64 // limit of the sum of array allocations, 0 = none
	allocSum  int64
	maxStep   int64
	mapAny    bool
	delays    int // remaining scheduling deviations, -1 unlimited
	preempt   bool
	timers    []timerRec
	now       int64
	hooks     map[string]Value
	schedlog  []string
	events    []string
	needSched bool
	race      bool
	syncs     map[uint64]vclock
	preempts  int
}

func (st *State) clone() *State {
	n := *st
	n.id = newOwner()
	st.id = newOwner() // both sides lose exclusive ownership
	n.heap = append([]*Object(nil), st.heap...)
	n.gs = make([]*Goroutine, len(st.gs))
	for i, g := range st.gs {
		n.gs[i] = g.clone()
	}
	n.pc = st.pc[:len(st.pc):len(st.pc)]
	n.known = make(map[*Term]bool, len(st.known)+4)
	for k, v := range st.known {
		n.known[k] = v
	}
	n.pinned = make(map[int32]bool, len(st.pinned))
	for k, v := range st.pinned {
		n.pinned[k] = v
	}
	n.inputs = st.inputs[:len(st.inputs):len(st.inputs)]
	n.obs = st.obs[:len(st.obs):len(st.obs)]
	n.reach = st.reach[:len(st.reach):len(st.reach)]
	n.stdout = st.stdout[:len(st.stdout):len(st.stdout)]
	n.schedlog = st.schedlog[:len(st.schedlog):len(st.schedlog)]
	n.events = st.events[:len(st.events):len(st.events)]
	n.timers = append([]timerRec(nil), st.timers...)
	if st.race {
		n.syncs = make(map[uint64]vclock, len(st.syncs))
		for k, v := range st.syncs {
			n.syncs[k] = v
		}
	}
	if st.hooks != nil {
		n.hooks = map[string]Value{}
		for k, v := range st.hooks {
			n.hooks[k] = v
		}
	}
	return &n
}

func (st *State) obj(id int) *Object { return st.heap[id] }

func (st *State) wobj(id int) *Object {
	o := st.heap[id]
	if o.owner != st.id {
		o = o.clone(st.id)
		st.heap[id] = o
	}
	return o
}

func (st *State) newObj(o *Object) int {
	o.owner = st.id
	st.heap = append(st.heap, o)
	return len(st.heap) - 1
}

func (st *State) allocType(t types.Type) Ptr {
	if a, ok := t.Underlying().(*types.Array); ok && isByteType(a.Elem()) {
		return Ptr{st.newObj(&Object{kind: oBytes, b: make([]byte, a.Len())}), 0}
	}
	l := layoutOf(t)
	if l.n > 1<<17 {
		panic(unsupported("huge allocation " + t.String()))
	}
	return Ptr{st.newObj(&Object{kind: oCells, cells: append(make([]Value, 0, l.n), l.zero...)}), 0}
}

func (st *State) countAlloc(n int64) {
	if st.allocMax > 0 {
		st.allocSum += n
		if st.allocSum > st.allocMax {
			panic(pathEnd{kind: "allocsum", msg: fmt.Sprintf("more than %d bytes allocated in all", st.allocMax)})
		}
	}
}

// countStr counts a string made (at least) by concatenation or formatting.
func (st *State) countStr(s *Str) *Str {
	if st.allocMax > 0 {
		st.countAlloc(strSize(s))
	}
	return s
}

// strSize is a lower bound of the length of s.
func strSize(s *Str) int64 {
	var n int64
	switch {
	case s.fm != nil:
		for _, a := range s.fm.args {
			if i, ok := a.(Iface); ok {
				a = i.v
			}
			if t, ok := a.(*Str); ok {
				n += strSize(t)
			}
		}
	case s.parts != nil:
		for _, p := range s.parts {
			if p.s != nil {
				n += strSize(p.s)
			} else {
				n++
			}
		}
	default:
		n = int64(s.length())
	}
	return n
}

func (st *State) allocArray(elem types.Type, n int) int {
	st.countAlloc(int64(n) * int64(memSize(elem)))
	if isByteType(elem) {
		return st.newObj(&Object{kind: oBytes, b: make([]byte, n)})
	}
	l := layoutOf(elem)
	cells := make([]Value, 0, l.n*n)
	for i := 0; i < n; i++ {
		cells = append(cells, l.zero...)
	}
	return st.newObj(&Object{kind: oCells, cells: cells})
}

func (st *State) addPC(c *Term) {
	if c.isTrue() {
		return
	}
	if c.op == OBAnd {
		st.addPC(c.a[0])
		st.addPC(c.a[1])
		st.known[c] = true
		return
	}
	if c.op == OBNot && c.a[0].op == OBOr {
		st.addPC(tBNot(c.a[0].a[0]))
		st.addPC(tBNot(c.a[0].a[1]))
		st.note(c)
		return
	}
	if v, ok := st.known[c]; ok && v {
		return
	}
	st.pc = append(st.pc, c)
	st.note(c)
}

func (st *State) note(c *Term) {
	st.known[c] = true
	if c.op == OBNot {
		st.known[c.a[0]] = false
	}
	if c.op == OEq && c.a[1].isConst() && c.a[0].op == OVar {
		st.pinned[int32(c.a[0].val)] = true
	}
	if c.op == OVar || (c.op == OBNot && c.a[0].op == OVar) {
		st.pinned[c.vars[0]] = true
	}
}

func (st *State) allPinned(vs []int32) bool {
	for _, v := range vs {
		if !st.pinned[v] {
			return false
		}
	}
	return true
}

func (st *State) lookup(c *Term) (bool, bool) {
	if v, ok := st.known[c]; ok {
		return v, true
	}
	if c.op == OBNot {
		if v, ok := st.known[c.a[0]]; ok {
			return !v, true
		}
	}
	return false, false
}
