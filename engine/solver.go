package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// One z3 process per worker, driven over SMT-LIB2 text.

type Solver struct {
	cmd     *exec.Cmd
	in      *bufio.Writer
	inRaw   io.WriteCloser
	out     *bufio.Reader
	defined map[uint32]bool // term ids / var ids already declared
	tabs    map[uint64]bool
	nDefs   int
	path    string
	dead    bool
	timer   *time.Timer
}

type SatResult int

const (
	Unsat SatResult = iota
	Sat
	Unknown
)

type solverStats struct {
	queries, cacheHits, sat, unsat, unknown int64
	nanos                                   int64
}

var sstats solverStats
var solverPath = "z3"
var solverTimeoutMs = 30000
var dumpFile *os.File

func newSolver() *Solver {
	s := &Solver{path: solverPath}
	s.start()
	return s
}

func (s *Solver) start() {
	args := []string{"-in", "-smt2"}
	if strings.Contains(s.path, "cvc5") {
		args = []string{"--incremental", "--produce-models", "--lang=smt2", "-q", "--force-logic=QF_BV"}
	}
	cmd := exec.Command(s.path, args...)
	in, err := cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	cmd.Stderr = os.Stderr
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	s.cmd, s.inRaw, s.in, s.out = cmd, in, bufio.NewWriterSize(in, 1<<16), bufio.NewReaderSize(out, 1<<16)
	s.defined = map[uint32]bool{}
	s.tabs = map[uint64]bool{}
	s.nDefs = 0
	s.dead = false
	if !strings.Contains(s.path, "cvc5") {
		fmt.Fprintf(s.in, "(set-option :print-success false)\n(set-option :timeout %d)\n(set-option :model.completion true)\n", solverTimeoutMs)
	} else {
		fmt.Fprintf(s.in, "(set-logic QF_BV)\n")
	}
}

func (s *Solver) close() {
	if s.cmd != nil {
		s.inRaw.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) restart() {
	s.close()
	s.start()
}

func smtConst(w uint8, v uint64) string {
	if w == 0 {
		if v == 1 {
			return "true"
		}
		return "false"
	}
	if w%4 == 0 {
		return fmt.Sprintf("#x%0*x", int(w/4), v)
	}
	return fmt.Sprintf("#b%0*b", int(w), v)
}

func smtSort(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return "(_ BitVec " + strconv.Itoa(int(w)) + ")"
}

func smtRef(t *Term) string {
	if t.op == OConst {
		return smtConst(t.w, t.val)
	}
	if t.op == OVar {
		return "v" + strconv.Itoa(int(t.val))
	}
	return "t" + strconv.Itoa(int(t.id))
}

func (s *Solver) define(t *Term) {
	if t.op == OConst || s.defined[t.id] {
		return
	}
	// iterative post-order
	type fr struct {
		t *Term
		i int
	}
	stack := []fr{{t, 0}}
	for len(stack) > 0 {
		f := &stack[len(stack)-1]
		if s.defined[f.t.id] || f.t.op == OConst {
			stack = stack[:len(stack)-1]
			continue
		}
		if f.i < int(f.t.n) {
			c := f.t.a[f.i]
			f.i++
			if c.op != OConst && !s.defined[c.id] {
				stack = append(stack, fr{c, 0})
			}
			continue
		}
		x := f.t
		stack = stack[:len(stack)-1]
		s.defined[x.id] = true
		s.nDefs++
		switch x.op {
		case OVar:
			fmt.Fprintf(s.in, "(declare-const v%d %s)\n", x.val, smtSort(x.w))
			continue
		case OAff:
			fmt.Fprintf(s.in, "(declare-const t%d %s)\n", x.id, smtSort(x.w)) // opaque; see checkAff
			continue
		case OTable:
			if !s.tabs[x.val] {
				s.tabs[x.val] = true
				tb := tables[x.val]
				iw := x.a[0].w
				fmt.Fprintf(s.in, "(define-fun tab%d_%d ((i %s)) %s %s)\n", x.val, iw, smtSort(iw), smtSort(tb.w), tableMux(tb, 0, len(tb.vals), iw))
				s.tabs[x.val] = true
			}
			fmt.Fprintf(s.in, "(define-fun t%d () %s (tab%d_%d %s))\n", x.id, smtSort(x.w), x.val, x.a[0].w, smtRef(x.a[0]))
			continue
		}
		s.in.WriteString("(define-fun t")
		s.in.WriteString(strconv.Itoa(int(x.id)))
		s.in.WriteString(" () ")
		s.in.WriteString(smtSort(x.w))
		switch x.op {
		case OExtract:
			fmt.Fprintf(s.in, " ((_ extract %d %d) %s))\n", x.val>>8, x.val&0xff, smtRef(x.a[0]))
		case OZExt:
			fmt.Fprintf(s.in, " ((_ zero_extend %d) %s))\n", x.w-x.a[0].w, smtRef(x.a[0]))
		case OSExt:
			fmt.Fprintf(s.in, " ((_ sign_extend %d) %s))\n", x.w-x.a[0].w, smtRef(x.a[0]))
		default:
			s.in.WriteString(" (")
			s.in.WriteString(opSMT[x.op])
			for i := 0; i < int(x.n); i++ {
				s.in.WriteByte(' ')
				s.in.WriteString(smtRef(x.a[i]))
			}
			s.in.WriteString("))\n")
		}
	}
}

func tableMux(tb *table, lo, hi int, iw uint8) string {
	same := true
	for i := lo; i < hi; i++ {
		if tb.vals[i] != tb.vals[lo] {
			same = false
			break
		}
	}
	if same {
		return smtConst(tb.w, tb.vals[lo])
	}
	mid := (lo + hi) / 2
	return fmt.Sprintf("(ite (bvult i %s) %s %s)", smtConst(iw, uint64(mid)), tableMux(tb, lo, mid, iw), tableMux(tb, mid, hi, iw))
}

// dumpQuery writes one query as a standalone script.
func dumpQuery(path string, cs []*Term) {
	var b strings.Builder
	d := &Solver{in: bufio.NewWriter(&b), defined: map[uint32]bool{}, tabs: map[uint64]bool{}}
	d.in.WriteString("(set-logic QF_BV)\n")
	for _, c := range cs {
		d.define(c)
	}
	for _, c := range cs {
		d.assertAffs(affsOf(c))
		fmt.Fprintf(d.in, "(assert %s)\n", smtRef(c))
	}
	d.in.WriteString("(check-sat)\n")
	d.in.Flush()
	os.WriteFile(path, []byte(b.String()), 0644)
}

type qres struct {
	r    SatResult
	vals map[int32]uint64
}

var qcache = map[string]qres{}
var qcacheMu sync.Mutex

func cacheKey(cs []*Term) string {
	ids := sortedIDs(cs)
	var b strings.Builder
	for _, i := range ids {
		b.WriteString(strconv.FormatUint(uint64(i), 36))
		b.WriteByte(',')
	}
	return b.String()
}

// check decides satisfiability of the conjunction.
func (s *Solver) check(cs []*Term) (SatResult, map[int32]uint64) {
	key := cacheKey(cs)
	qcacheMu.Lock()
	if r, ok := qcache[key]; ok {
		qcacheMu.Unlock()
		atomic.AddInt64(&sstats.cacheHits, 1)
		return r.r, r.vals
	}
	qcacheMu.Unlock()
	t0 := time.Now()
	r, vals := s.checkRaw(cs)
	atomic.AddInt64(&sstats.nanos, int64(time.Since(t0)))
	atomic.AddInt64(&sstats.queries, 1)
	if d := os.Getenv("VPSLOW"); d != "" && time.Since(t0) > 2*time.Second {
		dumpQuery(fmt.Sprintf("%s/q%d.smt2", d, atomic.LoadInt64(&sstats.queries)), cs)
	}
	switch r {
	case Sat:
		atomic.AddInt64(&sstats.sat, 1)
	case Unsat:
		atomic.AddInt64(&sstats.unsat, 1)
	default:
		atomic.AddInt64(&sstats.unknown, 1)
		return r, vals
	}
	qcacheMu.Lock()
	qcache[key] = qres{r, vals}
	qcacheMu.Unlock()
	return r, vals
}

// assertAffs relates affine terms to their variables.
func (s *Solver) assertAffs(ts []*Term) {
	for _, t := range ts {
		a := t.aff.Load()
		for _, v := range a.vs {
			s.define(v.v)
		}
		fmt.Fprintf(s.in, "(assert (= t%d %s))\n", t.id, a.smt())
	}
}

// checkRaw decides a query. Affine terms are first left opaque: if that is already
// unsatisfiable, or its model can be completed by linear algebra, the parity
// constraints never reach the solver.
func (s *Solver) checkRaw(cs []*Term) (SatResult, map[int32]uint64) {
	var affs []*Term
	seen := map[*Term]bool{}
	for _, c := range cs {
		for _, t := range affsOf(c) {
			if !seen[t] {
				seen[t] = true
				affs = append(affs, t)
			}
		}
	}
	if len(affs) == 0 {
		r, vals, _ := s.ask(cs, nil, nil)
		return r, vals
	}
	r, vals, avals := s.ask(append(affRelations(affs), cs...), nil, affs)
	if r != Sat {
		return r, nil
	}
	x := uint64(88172645463325252)
	if m := affComplete(cs, affs, vals, avals, func() uint64 {
		x ^= x << 13
		x ^= x >> 7
		x ^= x << 17
		return x >> 11
	}); m != nil {
		return Sat, m
	}
	r, vals, _ = s.ask(cs, affs, nil)
	return r, vals
}

// ask queries the solver; affine terms in defs are related to their variables, the values of those in want are returned.
func (s *Solver) ask(cs, defs, want []*Term) (SatResult, map[int32]uint64, map[*Term]uint64) {
	if s.dead || s.nDefs > 60000 {
		s.restart()
	}
	var vars []int32
	for _, c := range cs {
		if c.isFalse() {
			return Unsat, nil, nil
		}
		vars = mergeVars(vars, c.vars)
		s.define(c)
	}
	for _, t := range defs {
		for _, v := range t.aff.Load().vs {
			s.define(v.v)
		}
	}
	for _, v := range vars { // a variable may occur in affine terms only
		s.define(varTerm(v))
	}
	s.in.WriteString("(push 1)\n")
	s.assertAffs(defs)
	for _, c := range cs {
		s.in.WriteString("(assert ")
		s.in.WriteString(smtRef(c))
		s.in.WriteString(")\n")
	}
	s.in.WriteString("(check-sat)\n")
	if err := s.in.Flush(); err != nil {
		s.dead = true
		return Unknown, nil, nil
	}
	killed := int32(0)
	tm := time.AfterFunc(time.Duration(solverTimeoutMs)*time.Millisecond*3/2+2*time.Second, func() {
		atomic.StoreInt32(&killed, 1)
		s.cmd.Process.Kill()
	})
	line, err := s.readLine()
	tm.Stop()
	if err != nil {
		s.dead = true
		return Unknown, nil, nil
	}
	switch line {
	case "unsat":
		s.in.WriteString("(pop 1)\n")
		return Unsat, nil, nil
	case "sat":
	default:
		if strings.HasPrefix(line, "(error") {
			fmt.Fprintln(os.Stderr, "solver:", line)
			s.dead = true
			return Unknown, nil, nil
		}
		s.in.WriteString("(pop 1)\n")
		return Unknown, nil, nil
	}
	vals := map[int32]uint64{}
	if len(vars)+len(want) > 0 {
		s.in.WriteString("(get-value (")
		for _, v := range vars {
			s.in.WriteString("v")
			s.in.WriteString(strconv.Itoa(int(v)))
			s.in.WriteByte(' ')
		}
		for _, t := range want {
			fmt.Fprintf(s.in, "t%d ", t.id)
		}
		s.in.WriteString("))\n")
		s.in.WriteString("(pop 1)\n")
		if err := s.in.Flush(); err != nil {
			s.dead = true
			return Unknown, nil, nil
		}
		txt, err := s.readSexp()
		if err != nil || strings.Contains(txt, "error") {
			fmt.Fprintln(os.Stderr, "solver get-value:", txt, err)
			s.dead = true
			return Unknown, nil, nil
		}
		parseValues(txt, vals)
		if len(vals) != len(vars)+len(want) {
			s.dead = true
			return Unknown, nil, nil
		}
		avals := map[*Term]uint64{}
		for _, t := range want {
			avals[t] = vals[-int32(t.id)-1]
			delete(vals, -int32(t.id)-1)
		}
		return Sat, vals, avals
	} else {
		s.in.WriteString("(pop 1)\n")
	}
	return Sat, vals, nil
}

func (s *Solver) readLine() (string, error) {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "", err
		}
		l = strings.TrimSpace(l)
		if l != "" {
			return l, nil
		}
	}
}

func (s *Solver) readSexp() (string, error) {
	var b strings.Builder
	depth := 0
	started := false
	for {
		c, err := s.out.ReadByte()
		if err != nil {
			return b.String(), err
		}
		if c == '(' {
			depth++
			started = true
		}
		if started {
			b.WriteByte(c)
		}
		if c == ')' {
			depth--
			if depth == 0 && started {
				return b.String(), nil
			}
		}
	}
}

func parseValues(txt string, vals map[int32]uint64) {
	f := strings.FieldsFunc(txt, func(r rune) bool { return r == '(' || r == ')' || r == ' ' || r == '\n' || r == '\t' })
	for i := 0; i+1 < len(f); i++ {
		if f[i][0] == 'v' || (f[i][0] == 't' && f[i] != "true") {
			id, err := strconv.Atoi(f[i][1:])
			if err != nil {
				continue
			}
			if f[i][0] == 't' { // values of affine terms are kept under negative keys
				id = -id - 1
			}
			v := f[i+1]
			switch {
			case v == "true":
				vals[int32(id)] = 1
			case v == "false":
				vals[int32(id)] = 0
			case strings.HasPrefix(v, "#x"):
				u, _ := strconv.ParseUint(v[2:], 16, 64)
				vals[int32(id)] = u
			case strings.HasPrefix(v, "#b"):
				u, _ := strconv.ParseUint(v[2:], 2, 64)
				vals[int32(id)] = u
			default:
				continue
			}
			i++
		}
	}
}

// slice returns the subset of pc transitively sharing variables with c.
func sliceConstraints(pc []*Term, vars []int32) []*Term {
	if len(pc) == 0 {
		return nil
	}
	used := make([]bool, len(pc))
	vs := map[int32]bool{}
	for _, v := range vars {
		vs[v] = true
	}
	var res []*Term
	for changed := true; changed; {
		changed = false
		for i, p := range pc {
			if used[i] {
				continue
			}
			hit := false
			for _, v := range p.vars {
				if vs[v] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				res = append(res, p)
				for _, v := range p.vars {
					if !vs[v] {
						vs[v] = true
						changed = true
					}
				}
			}
		}
	}
	return res
}

func sortVars(v []int32) { sort.Slice(v, func(i, j int) bool { return v[i] < v[j] }) }
