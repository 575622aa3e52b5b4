package main

import (
	"fmt"
	"os"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Preemptions and data races. A harness may allow a number of preemptions: at
// every synchronisation operation of the code under test another goroutine may
// be chosen to run first. Independently, accesses of the code under test to
// shared memory are checked against the happens-before order (vector clocks);
// between two synchronisation operations nothing else can then be observed, so
// switching there is enough.

type switchSig struct{}

// ---- what frames count

const harnessPath = "verif/harness"

// safeAPI: exported operations that may be used from any goroutine. Other calls
// made by a harness are not checked for races: their users synchronise.
var safeAPI = map[string]bool{
	"(*" + repoMod + "/socket.S101Client).Connect":             true,
	"(*" + repoMod + "/socket.S101Client).Disconnect":          true,
	"(*" + repoMod + "/socket.S101Client).IsConnected":         true,
	"(*" + repoMod + "/socket.S101Client).GetDirectory":        true,
	"(*" + repoMod + "/socket.S101Client).GetTree":             true,
	"(*" + repoMod + "/embertree.Element).AddListener":         true,
	"(*" + repoMod + "/embertree.Element).RemoveListener":      true,
	"(*" + repoMod + "/embertree.Element).HasListner":          true,
	"(*" + repoMod + "/embertree.RootElement).AddListener":     true,
	"(*" + repoMod + "/embertree.RootElement).RemoveListener":  true,
	"(*" + repoMod + "/embertree.RootElement).HasListner":      true,
	"(*" + repoMod + "/embertree.RootElement).GetDirectoryMsg": true,
}

type fnClass struct {
	harness bool // the harness itself
	stub    bool // stands in for a library function
	conn    bool // method of the simulated connection
	safe    bool
	wrap    bool
	sync    syncKind
}

type syncKind uint8

const (
	syNone syncKind = iota
	syLock
	syTry
	syUnlock
	syAtomic
	syDone
	syWait
)

var fnClasses sync.Map

func classOf(fn *ssa.Function) *fnClass {
	if v, ok := fnClasses.Load(fn); ok {
		return v.(*fnClass)
	}
	c := &fnClass{}
	name := fn.String()
	top := fn
	for top.Parent() != nil {
		top = top.Parent()
	}
	pkg := ""
	if top.Pkg != nil {
		pkg = top.Pkg.Pkg.Path()
	} else if top.Object() != nil && top.Object().Pkg() != nil {
		pkg = top.Object().Pkg().Path()
	}
	if strings.HasPrefix(pkg, harnessPath) {
		if strings.HasPrefix(top.Name(), "stub") {
			c.stub = true
		} else {
			c.harness = true
			c.conn = strings.Contains(top.String(), "simConn)")
		}
	}
	c.safe = safeAPI[name]
	c.wrap = fn.Synthetic != "" && fn.Name() != "init"
	switch {
	case strings.HasPrefix(name, "(*sync/atomic.") || strings.HasPrefix(name, "sync/atomic."):
		c.sync = syAtomic
	case name == "(*sync.Mutex).Lock" || name == "(*sync.RWMutex).Lock" || name == "(*sync.RWMutex).RLock":
		c.sync = syLock
	case name == "(*sync.Mutex).TryLock":
		c.sync = syTry
	case name == "(*sync.Mutex).Unlock" || name == "(*sync.RWMutex).Unlock" || name == "(*sync.RWMutex).RUnlock":
		c.sync = syUnlock
	case name == "(*sync.WaitGroup).Add" || name == "(*sync.WaitGroup).Done":
		c.sync = syDone
	case name == "(*sync.WaitGroup).Wait":
		c.sync = syWait
	}
	v, _ := fnClasses.LoadOrStore(fn, c)
	return v.(*fnClass)
}

// frameFlags: rec tells whether accesses of a frame are checked; h whether it
// belongs to the harness.
func frameFlags(g *Goroutine, fn *ssa.Function) (rec, h, quiet bool) {
	c := classOf(fn)
	var p *Frame
	if len(g.frames) > 0 {
		p = g.frames[len(g.frames)-1]
	}
	switch {
	case c.harness:
		return false, true, true
	case c.stub:
		if p == nil {
			return true, false, true
		}
		return p.rec, p.h, true
	case p == nil:
		return true, false, false
	case p.h && c.wrap:
		return false, true, true
	case p.h:
		return c.safe, false, !c.safe
	}
	return p.rec, false, !p.rec
}

// ---- vector clocks

type vclock []uint32

func (v vclock) at(i int) uint32 {
	if i < len(v) {
		return v[i]
	}
	return 0
}

func joinVC(a, b vclock) vclock {
	grow := false
	for i := range b {
		if b[i] > a.at(i) {
			grow = true
			break
		}
	}
	if !grow {
		return a
	}
	n := len(a)
	if len(b) > n {
		n = len(b)
	}
	r := make(vclock, n)
	copy(r, a)
	for i, c := range b {
		if c > r[i] {
			r[i] = c
		}
	}
	return r
}

func (g *Goroutine) tick() {
	n := len(g.vc)
	if g.id >= n {
		n = g.id + 1
	}
	r := make(vclock, n)
	copy(r, g.vc)
	r[g.id]++
	g.vc = r
}

func (st *State) raceInit() {
	st.race = true
	st.syncs = map[uint64]vclock{}
	for _, g := range st.gs {
		g.vc = nil
		g.tick()
	}
}

func (x *X) acquire(id, off int) {
	st := x.st
	if st.race {
		g := st.gs[st.cur]
		g.vc = joinVC(g.vc, st.syncs[uint64(id)<<24|uint64(off)])
	}
}

func (x *X) release(id, off int) {
	st := x.st
	if st.race {
		g := st.gs[st.cur]
		k := uint64(id)<<24 | uint64(off)
		st.syncs[k] = joinVC(st.syncs[k], g.vc)
		g.tick()
	}
}

func (x *X) acqRel(id int) { x.acquire(id, 0); x.release(id, 0) }

// joinAll : the harness let time pass; what happened is known to it.
func (x *X) joinAll() {
	st := x.st
	if !st.race {
		return
	}
	me := st.gs[st.cur]
	for _, g := range st.gs {
		if g != me {
			me.vc = joinVC(me.vc, g.vc)
			g.tick()
		}
	}
}

// ---- shadow memory

type shCell struct {
	w     int // last writer, -1 none
	wclk  uint32
	wsite string
	reads []shRead
}

type shRead struct {
	g    int
	clk  uint32
	site string
}

const maxShadow = 4096

func (x *X) recAccess(obj, off, n int, write bool) {
	st := x.st
	if obj == 0 || len(st.gs) < 2 {
		return
	}
	g := st.gs[st.cur]
	f := g.top()
	if f.quiet {
		return
	}
	o := st.obj(obj)
	if o.kind != oMap && (o.kind == oBytes || o.size() > maxShadow) {
		return
	}
	clk := g.vc.at(g.id)
	for i := off; i < off+n; i++ {
		c := o.sh[i]
		if c != nil {
			if c.w >= 0 && c.w != g.id && c.wclk > g.vc.at(c.w) {
				x.raceFound(f, write, true, c.wsite)
			}
			if write {
				for _, r := range c.reads {
					if r.g != g.id && r.clk > g.vc.at(r.g) {
						x.raceFound(f, true, false, r.site)
					}
				}
			}
			if c.w == g.id && c.wclk == clk && (!write || len(c.reads) == 0) {
				continue
			}
			if !write {
				seen := false
				for _, r := range c.reads {
					seen = seen || r.g == g.id && r.clk == clk
				}
				if seen {
					continue
				}
			}
		}
		nc := &shCell{w: -1}
		site := f.fi.fn.Name()
		if write {
			nc.w, nc.wclk, nc.wsite = g.id, clk, x.siteOf(g, site)
		} else {
			if c != nil {
				*nc = *c
				nc.reads = nil
				for _, r := range c.reads {
					if r.g != g.id && r.clk > g.vc.at(r.g) {
						nc.reads = append(nc.reads, r)
					}
				}
			}
			nc.reads = append(nc.reads, shRead{g.id, clk, x.siteOf(g, site)})
		}
		o = st.wobj(obj)
		if o.sh == nil {
			o.sh = map[int]*shCell{}
		}
		o.sh[i] = nc
	}
}

// siteOf names the innermost function of the repository.
func (x *X) siteOf(g *Goroutine, def string) string {
	for i := len(g.frames) - 1; i >= 0; i-- {
		if g.frames[i].fi.inRepo {
			return g.frames[i].fi.fn.RelString(nil)
		}
	}
	return def
}

func (x *X) raceFound(f *Frame, write, otherWrite bool, other string) {
	g := x.st.gs[x.st.cur]
	me := x.siteOf(g, f.fi.fn.Name())
	a, b := me, other
	if b < a {
		a, b = b, a
	}
	kind := map[bool]string{true: "write", false: "read"}
	if os.Getenv("VPDEBUG") != "" {
		fmt.Fprintf(os.Stderr, "race %s %s / %s %s: %s\n", kind[write], me, kind[otherWrite], other, x.stack())
	}
	x.run.violation(x, "race", "race@"+raceName(shortFn(a))+"|"+raceName(shortFn(b)), fmt.Sprintf("unsynchronised %s by %s and %s by %s", kind[write], me, kind[otherWrite], other), x.st.model)
}

// shortFn drops the import path of a function name.
func shortFn(s string) string {
	if i := strings.LastIndex(s, "/"); i >= 0 {
		p := ""
		if strings.HasPrefix(s, "(*") {
			p = "(*"
		} else if strings.HasPrefix(s, "(") {
			p = "("
		}
		return p + s[i+1:]
	}
	return s
}

// recLoad and recStore check an access through a pointer value.
func (x *X) recPtr(p Value, v Value, write bool) {
	if !x.st.race {
		return
	}
	n := 1
	if a, ok := v.(Agg); ok {
		n = len(a)
	}
	if q, ok := p.(Ptr); ok {
		x.recAccess(q.obj, q.off, n, write)
	}
}

func (x *X) recMap(m Value, write bool) {
	if !x.st.race {
		return
	}
	if r, ok := m.(MapRef); ok {
		x.recAccess(r.obj, 0, 1, write)
	}
}

// ---- preemption

// preemptAt is called before a synchronisation operation.
func (x *X) preemptAt() {
	st := x.st
	if st.preempts == 0 {
		return
	}
	g := st.gs[st.cur]
	if g.resumed {
		g.resumed = false
		return
	}
	f := g.top()
	if !f.fi.inRepo && !classOf(f.fi.fn).conn {
		return
	}
	k := x.preemptChoose()
	if k < 0 {
		return
	}
	g.resumed = true
	panic(switchSig{})
}

// preemptChoose picks another goroutine to run now, or -1.
func (x *X) preemptChoose() int {
	st := x.st
	var en []int
	for i, h := range st.gs {
		if i != st.cur && !h.done && (h.ready == nil || h.ready(st)) {
			en = append(en, i)
		}
	}
	var tm []int
	best := int64(-1)
	for _, t := range st.timers {
		if !t.stopped && !t.fired && (best < 0 || t.due < best) {
			best = t.due
		}
	}
	if best >= 0 && (best <= st.now || st.hooks["timerrace"] != nil) {
		for i, t := range st.timers {
			if !t.stopped && !t.fired && t.due == best {
				tm = append(tm, i)
			}
		}
	}
	n := len(en) + len(tm)
	if n == 0 {
		return -1
	}
	v := x.schedRaw(n+1, "preempt")
	if v == 0 {
		return -1
	}
	st.preempts--
	if v <= len(en) {
		h := st.gs[en[v-1]]
		h.ready, h.sendCh, h.sendV = nil, 0, nil
		st.cur = en[v-1]
		return st.cur
	}
	x.fireTimer(tm[v-1-len(en)])
	was := map[int]bool{st.cur: true}
	for _, i := range en {
		was[i] = true
	}
	for i, h := range st.gs { // what the timer woke up runs
		if !was[i] && !h.done && (h.ready == nil || h.ready(st)) {
			h.ready, h.sendCh, h.sendV = nil, 0, nil
			st.cur = i
			return i
		}
	}
	return -1
}

// syncCall runs a built-in function, with its place in the happens-before order.
func (x *X) syncCall(h intrinsicFn, fn *ssa.Function, args []Value, direct bool) Value {
	st := x.st
	if !st.race && st.preempts == 0 {
		return h(x, fn, args)
	}
	k := classOf(fn).sync
	if k == syNone {
		return h(x, fn, args)
	}
	p, _ := args[0].(Ptr)
	if p.obj == 0 {
		return h(x, fn, args)
	}
	if direct && (k == syTry || k == syAtomic || k == syLock && x.lockFree(fn, p)) {
		x.preemptAt()
	}
	if k == syUnlock || k == syDone {
		x.release(p.obj, p.off)
	}
	r := h(x, fn, args)
	switch k {
	case syLock, syTry, syWait:
		x.acquire(p.obj, p.off)
	case syAtomic:
		x.acquire(p.obj, p.off)
		x.release(p.obj, p.off)
	}
	return r
}

func (x *X) lockFree(fn *ssa.Function, p Ptr) bool {
	t, ok := x.st.obj(p.obj).get(p.off).(*Term)
	if !ok {
		return false
	}
	return t.val == 0 || t.val != 1 && fn.Name() == "RLock"
}

// relTimer : what fires happens after the timer was set.
func (x *X) relTimer(ch int) vclock {
	st := x.st
	if !st.race {
		return nil
	}
	v := st.gs[st.cur].vc
	x.release(ch, 0)
	return v
}
