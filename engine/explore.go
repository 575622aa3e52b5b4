package main

import (
	"fmt"
	"go/token"
	"math/rand"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Violation struct {
	Harness string   `json:"harness"`
	Kind    string   `json:"kind"`
	Label   string   `json:"label"`
	Msg     string   `json:"msg"`
	Stack   string   `json:"stack"`
	Inputs  []uint64 `json:"inputs"`
	Names   []string `json:"names"`
	Sched   []string `json:"sched,omitempty"`
	// native replay
	Reproduced bool   `json:"reproduced"`
	Native     string `json:"native,omitempty"`
}

type PathSample struct {
	Harness string
	Inputs  []uint64
	Names   []string
	Obs     []string
	NAssert int
}

type Run struct {
	prog     *Prog
	name     string
	thorough bool
	mu       sync.Mutex
	cond     *sync.Cond
	queue    []*State
	active   int
	deadline time.Time
	pause    time.Time // end of the current time slice
	stopped  int32
	started  bool
	hitLimit bool

	paths, assumed, unsup, forks, limited int64
	steps                                 int64
	asserts, assertQueries                int64
	maxPathSteps                          int64
	incompl                               map[string]int
	unsupMsgs                             map[string]int
	viol                                  []*Violation
	violLabels                            map[string]int
	reach                                 map[string]int
	samples                               []*PathSample
	seen                                  int
	rng                                   *rand.Rand
	labels                                map[string]int64
	funcs                                 map[*ssa.Function]int
	maxPaths                              int64
	known                                 map[string]bool
	maxSamples                            int
}

func newRun(p *Prog, name string, seed int64) *Run {
	r := &Run{prog: p, name: name, incompl: map[string]int{}, unsupMsgs: map[string]int{}, violLabels: map[string]int{}, reach: map[string]int{}, labels: map[string]int64{}, funcs: map[*ssa.Function]int{}, rng: rand.New(rand.NewSource(seed)), deadline: time.Now().Add(time.Hour), maxSamples: 40}
	r.cond = sync.NewCond(&r.mu)
	return r
}

func (r *Run) expired() bool {
	if atomic.LoadInt32(&r.stopped) == 1 {
		return true
	}
	if time.Now().After(r.deadline) {
		atomic.StoreInt32(&r.stopped, 1)
		return true
	}
	return false
}

// paused tells that the time slice is over while the exploration may go on later.
func (r *Run) paused() bool {
	return !r.pause.IsZero() && time.Now().After(r.pause) && !r.expired()
}

func (r *Run) push(s *State) {
	r.mu.Lock()
	r.queue = append(r.queue, s)
	r.forks++
	r.mu.Unlock()
	r.cond.Signal()
}

func (r *Run) incomplete(why string) {
	r.mu.Lock()
	r.incompl[why]++
	r.mu.Unlock()
}

func (r *Run) discharged(label string, q bool) {
	r.mu.Lock()
	r.asserts++
	if q {
		r.assertQueries++
	}
	r.labels[label]++
	r.mu.Unlock()
}

func (r *Run) violation(x *X, kind, label, msg string, m *Model) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.violLabels[label]++
	if r.violLabels[label] > 4 {
		return
	}
	v := &Violation{Harness: r.name, Kind: kind, Label: label, Msg: msg, Stack: x.stack()}
	for _, in := range x.st.inputs {
		v.Inputs = append(v.Inputs, m.eval(in.t))
		v.Names = append(v.Names, in.name)
	}
	v.Sched = x.st.schedlog
	r.viol = append(r.viol, v)
	if !r.known[label] && kind != "race" {
		// look a little further for other labels, then stop
		d := time.Now().Add(5 * time.Second)
		if d.Before(r.deadline) {
			r.deadline = d
		}
	}
}

func (r *Run) worker(wg *sync.WaitGroup) {
	defer wg.Done()
	x := &X{run: r, sv: getSolver(), funcs: map[*ssa.Function]int{}}
	defer func() {
		putSolver(x.sv)
		r.mu.Lock()
		for f, n := range x.funcs {
			r.funcs[f] += n
		}
		r.steps += x.instrs
		r.mu.Unlock()
	}()
	for {
		r.mu.Lock()
		for len(r.queue) == 0 && r.active > 0 {
			r.cond.Wait()
		}
		if len(r.queue) == 0 {
			r.mu.Unlock()
			r.cond.Broadcast()
			return
		}
		if r.paused() {
			r.mu.Unlock()
			r.cond.Broadcast()
			return
		}
		st := r.queue[len(r.queue)-1]
		r.queue[len(r.queue)-1] = nil
		r.queue = r.queue[:len(r.queue)-1]
		r.active++
		r.mu.Unlock()
		if r.expired() || (r.maxPaths > 0 && r.paths >= r.maxPaths) {
			r.mu.Lock()
			r.limited++
			r.hitLimit = true
		} else {
			end := x.safeRun(st)
			r.finish(x, st, end)
			r.mu.Lock()
		}
		r.active--
		done := r.active == 0 && len(r.queue) == 0
		r.mu.Unlock()
		if done {
			r.cond.Broadcast()
		}
	}
}

func (x *X) safeRun(st *State) (end pathEnd) {
	defer func() {
		if e := recover(); e != nil {
			end = pathEnd{kind: "unsupported", msg: fmt.Sprintf("engine error: %v in %s", e, x.stack())}
			if debugEngine {
				fmt.Println(end.msg, string(debug.Stack()))
			}
		}
	}()
	return x.runState(st)
}

func (r *Run) finish(x *X, st *State, end pathEnd) {
	switch end.kind {
	case "done":
		r.mu.Lock()
		r.paths++
		for _, l := range st.reach {
			r.reach[l]++
		}
		if st.steps > r.maxPathSteps {
			r.maxPathSteps = st.steps
		}
		r.seen++
		k := -1
		if len(r.samples) < r.maxSamples {
			k = len(r.samples)
			r.samples = append(r.samples, nil)
		} else if j := r.rng.Intn(r.seen); j < r.maxSamples {
			k = j
		}
		r.mu.Unlock()
		if k >= 0 {
			s := &PathSample{Harness: r.name}
			for _, in := range st.inputs {
				s.Inputs = append(s.Inputs, st.model.eval(in.t))
				s.Names = append(s.Names, in.name)
			}
			for _, o := range st.obs {
				var p []string
				for _, v := range o.vals {
					p = append(p, fmt.Sprint(st.model.eval(v.(*Term))))
				}
				s.Obs = append(s.Obs, o.label+"="+strings.Join(p, ","))
			}
			r.mu.Lock()
			r.samples[k] = s
			r.mu.Unlock()
		}
	case "pause":
		r.mu.Lock()
		r.queue = append(r.queue, st)
		r.mu.Unlock()
	case "assume":
		r.mu.Lock()
		r.assumed++
		r.mu.Unlock()
	case "limit":
		r.mu.Lock()
		r.limited++
		r.hitLimit = true
		r.mu.Unlock()
	case "unsupported":
		r.mu.Lock()
		r.unsup++
		msg := end.msg + " at " + x.stack()
		if len(msg) > 400 {
			msg = msg[:400]
		}
		r.unsupMsgs[msg]++
		r.mu.Unlock()
	case "panic", "hang", "alloc", "allocsum", "deadlock":
		label := end.kind + "@" + r.site(x, strings.HasPrefix(end.kind, "alloc"))
		r.violation(x, end.kind, label, end.msg, st.model)
	default:
		panic(end.kind)
	}
}

// site names the innermost function of the repository involved; with api set,
// the innermost exported one, so that the name survives extracted helpers.
func (r *Run) site(x *X, api bool) string {
	st := x.st
	if st.cur < len(st.gs) {
		g := st.gs[st.cur]
		for i := len(g.frames) - 1; i >= 0; i-- {
			if g.frames[i].fi.inRepo && (!api || token.IsExported(g.frames[i].fi.fn.Name())) {
				return g.frames[i].fi.fn.Name()
			}
		}
		if len(g.panics) > 0 {
			t := g.panics[len(g.panics)-1].trace
			for _, f := range strings.Split(t, " < ") {
				w := strings.Fields(f)
				if len(w) > 0 {
					return w[0]
				}
			}
		}
	}
	return "?"
}

var solverPool []*Solver
var solverPoolMu sync.Mutex

func getSolver() *Solver {
	solverPoolMu.Lock()
	defer solverPoolMu.Unlock()
	if n := len(solverPool); n > 0 {
		s := solverPool[n-1]
		solverPool = solverPool[:n-1]
		return s
	}
	return newSolver()
}
func putSolver(s *Solver) {
	solverPoolMu.Lock()
	solverPool = append(solverPool, s)
	solverPoolMu.Unlock()
}
func closeSolvers() {
	for _, s := range solverPool {
		s.close()
	}
	solverPool = nil
}

// explore runs one harness exhaustively within its limits, or until its time
// slice is over; called again it goes on. It returns true when it is done.
func (r *Run) explore(fn *ssa.Function, workers int, slice time.Duration) bool {
	r.pause = time.Now().Add(slice)
	if !r.started {
		r.started = true
		st := r.prog.base.clone()
		st.gs = []*Goroutine{{id: 0}}
		st.maxStep = 3000000
		st.delays = -1
		x := &X{run: r, st: st, funcs: map[*ssa.Function]int{}}
		x.enter(st.gs[0], fn, nil, nil)
		r.queue = append(r.queue, st)
	}
	var wg sync.WaitGroup
	for i := 0; i < workers; i++ {
		wg.Add(1)
		go r.worker(&wg)
	}
	wg.Wait()
	if len(r.queue) > 0 {
		return false
	}
	sort.Slice(r.viol, func(i, j int) bool { return r.viol[i].Label < r.viol[j].Label })
	return true
}

// giveUp drops what is left to explore.
func (r *Run) giveUp() {
	if len(r.queue) > 0 {
		r.limited += int64(len(r.queue))
		r.hitLimit = true
		r.queue = nil
	}
	sort.Slice(r.viol, func(i, j int) bool { return r.viol[i].Label < r.viol[j].Label })
}

// failed tells that a violation that is no known finding was found.
func (r *Run) failed() bool {
	for _, v := range r.viol {
		if !r.known[v.Label] && v.Kind != "race" {
			return true
		}
	}
	return false
}
