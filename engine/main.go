package main

import (
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

var debugEngine = os.Getenv("VPDEBUG") != ""

type known struct {
	Property string `json:"property"`
	Harness  string `json:"harness"`
	Label    string `json:"label"`
	What     string `json:"what"`
}

type nativeResult struct {
	Idx     int      `json:"idx"`
	Outcome string   `json:"outcome"` // ok, fail, panic, hang, alloc, crash
	Label   string   `json:"label"`
	Msg     string   `json:"msg"`
	Obs     []string `json:"obs"`
}

type nativeCase struct {
	Harness string   `json:"harness"`
	Inputs  []uint64 `json:"inputs"`
}

var verifDir string

func main() {
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", os.Getenv("VERIF_TIER"), "quick or thorough")
	only := flag.String("only", "", "run a single harness")
	dir := flag.String("dir", "/verif", "verif dir")
	workers := flag.Int("j", 8, "workers")
	budget := flag.Float64("budget", 0, "seconds for the whole check")
	solver := flag.String("solver", "", "solver binary (default z3-new, else z3)")
	replayFile := flag.String("replay", "", "replay a violation file against the real code")
	selftest := flag.Int("selftest", 0, "random differential test of the term simplifier")
	noNative := flag.Bool("nonative", false, "")
	flag.Parse()
	initIntrinsics()
	verifDir = *dir
	solverPath = *solver
	if solverPath == "" {
		solverPath = "z3"
		if _, err := exec.LookPath("z3-new"); err == nil {
			solverPath = "z3-new"
		}
	}
	if *tier == "" {
		*tier = "quick"
	}
	if *selftest > 0 {
		os.Exit(runSelftest(*selftest))
	}
	if *replayFile != "" {
		os.Exit(replayCmd(*replayFile))
	}
	os.Exit(checkProp(*prop, *tier, *only, *workers, *budget, *noNative))
}

func seed() int64 {
	var s int64 = 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &s)
	return s
}

func checkProp(prop, tier, only string, workers int, budget float64, noNative bool) int {
	t0 := time.Now()
	if budget == 0 {
		budget = 420
		if tier == "thorough" {
			budget = 780
		}
	}
	hdir := filepath.Join(verifDir, "harness")
	// native replay binary, built from the current tree, in the background
	tmp, err := os.MkdirTemp("", "vpcheck")
	if err != nil {
		fmt.Println("error:", err)
		return 2
	}
	if os.Getenv("VPKEEP") == "" {
		defer os.RemoveAll(tmp)
	}
	bin := filepath.Join(tmp, "replay")
	buildDone := make(chan error, 1)
	go func() {
		buildDone <- buildReplay(tmp, bin, false)
	}()
	p, err := loadProg(hdir, []string{"./props"})
	if err != nil {
		fmt.Println("error: cannot load the code under test:", err)
		return 2
	}
	pp := p.pkgs["verif/harness/props"]
	if err := p.runInit([]string{"verif/harness/props"}); err != nil {
		fmt.Println("error:", err)
		return 2
	}
	loadT := time.Since(t0)
	var names []string
	for n, m := range pp.Members {
		f, ok := m.(*ssa.Function)
		if !ok || f.Signature.Params().Len() != 0 {
			continue
		}
		if only != "" {
			if n == only {
				names = append(names, n)
			}
			continue
		}
		if strings.HasPrefix(n, prop+"_") {
			names = append(names, n)
		}
	}
	if len(names) == 0 {
		fmt.Println("error: no harness for", prop)
		return 2
	}
	sort.Strings(names)
	kf := loadKnown()
	var runs []*Run
	harnessDur := map[string]float64{}
	end := t0.Add(time.Duration(budget * float64(time.Second)))
	for _, n := range names {
		r := newRun(p, n, seed())
		r.thorough = tier == "thorough"
		r.known = map[string]bool{}
		for _, k := range kf {
			if k.Property == prop && (k.Harness == n || k.Harness == "*") {
				r.known[k.Label] = true
			}
		}
		r.deadline = end
		runs = append(runs, r)
	}
	// time slices: every harness gets a short one first, then longer ones
	slice := 15 * time.Second
	for left := append([]*Run{}, runs...); len(left) > 0; {
		var again []*Run
		failed := false
		for _, r := range left {
			failed = failed || r.failed()
		}
		for _, r := range left {
			h0 := time.Now()
			sl := slice
			if failed && sl > 5*time.Second {
				sl = 5 * time.Second
			}
			done := r.explore(pp.Func(r.name), workers, sl)
			harnessDur[r.name] += time.Since(h0).Seconds()
			failed = failed || r.failed()
			if !done {
				again = append(again, r)
			} else if debugEngine || only != "" {
				report(r, harnessDur[r.name])
			}
		}
		if failed {
			for _, r := range again {
				r.giveUp()
			}
			break
		}
		left = again
		slice *= 2
		if m := time.Until(end) / time.Duration(len(left)+1); len(left) > 1 && slice > m {
			slice = m
		}
		if slice < 2*time.Second {
			slice = 2 * time.Second
		}
	}
	closeSolvers()
	symT := time.Since(t0)
	bErr := <-buildDone
	if bErr != nil {
		fmt.Println("error: cannot build the native replay:", bErr)
		return 2
	}
	// replay counterexamples against the real code
	exit := 0
	nviol, nknown, nunrepro := 0, 0, 0
	rdir := filepath.Join(verifDir, "evidence", "replays")
	os.MkdirAll(rdir, 0o755)
	printed := map[string]bool{}
	var violList []*Violation
	for _, r := range runs {
		byLabel := map[string][]*Violation{}
		var order []string
		for _, v := range r.viol {
			if byLabel[v.Label] == nil {
				order = append(order, v.Label)
			}
			byLabel[v.Label] = append(byLabel[v.Label], v)
		}
		for _, l := range order {
			repro := false
			for _, v := range byLabel[l] {
				ok, res := confirm(bin, v)
				v.Reproduced, v.Native = ok, res.Outcome+" "+res.Label+" "+trunc(res.Msg, 400)
				if !ok {
					continue
				}
				repro = true
				violList = append(violList, v)
				if r.known[l] {
					nknown++
					if !printed["k"+knownText(kf, prop, r.name, l)] {
						printed["k"+knownText(kf, prop, r.name, l)] = true
						fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, knownText(kf, prop, r.name, l))
					}
					break
				}
				nviol++
				f := filepath.Join(rdir, fmt.Sprintf("%s-%s-%d.json", prop, r.name, nviol))
				b, _ := json.MarshalIndent(v, "", " ")
				os.WriteFile(f, b, 0o644)
				fmt.Printf("  %s: %s [%s] %s\n    native: %s\n    inputs: %s\n", r.name, v.Kind, v.Label, v.Msg, v.Native, showInputs(v.Names, v.Inputs))
				fmt.Printf("VIOLATION property=%s replay=%s\n", prop, f)
				exit = 1
				break
			}
			if !repro && !r.known[l] {
				nunrepro++
				v := byLabel[l][0]
				r.incompl["counterexample not reproduced natively: "+l]++
				fmt.Printf("note: %s: solver counterexample for [%s] did not reproduce natively (%s); inputs %s; %s\n", r.name, l, v.Native, showInputs(v.Names, v.Inputs), v.Stack)
			}
		}
	}
	// validate sampled paths natively
	var cases []nativeCase
	var samples []*PathSample
	for _, r := range runs {
		for _, s := range r.samples {
			if s != nil {
				cases = append(cases, nativeCase{s.Harness, s.Inputs})
				samples = append(samples, s)
			}
		}
	}
	validated, mism := 0, 0
	if !noNative {
		res := runNative(bin, cases)
		for i, rs := range res {
			s := samples[i]
			if rs.Outcome == "ok" && obsMatch(s.Obs, rs.Obs) {
				validated++
				continue
			}
			if rs.Outcome == "skip" {
				continue
			}
			if rs.Outcome == "ok" {
				mism++
				fmt.Printf("note: %s: native observation differs from the symbolic path: inputs %s\n  sym %v\n  nat %v\n", s.Harness, showInputs(s.Names, s.Inputs), s.Obs, rs.Obs)
				continue
			}
			// the real code fails on a concrete input inside the bounds
			v := &Violation{Harness: s.Harness, Kind: rs.Outcome, Label: rs.Label, Msg: rs.Msg, Inputs: s.Inputs, Names: s.Names}
			ok, r2 := confirm(bin, v)
			if !ok {
				mism++
				fmt.Printf("note: %s: a native run of a sampled path failed once (%s %s %s), inputs %s\n", s.Harness, rs.Outcome, rs.Label, trunc(rs.Msg, 300), showInputs(s.Names, s.Inputs))
				continue
			}
			var rr *Run
			for _, r := range runs {
				if r.name == s.Harness {
					rr = r
				}
			}
			if rr.known[r2.Label] {
				continue
			}
			mism++
			v.Reproduced, v.Native = true, r2.Outcome+" "+r2.Label+" "+trunc(r2.Msg, 300)
			key := s.Harness + r2.Label
			if printed[key] || exit == 1 {
				continue
			}
			printed[key] = true
			nviol++
			violList = append(violList, v)
			f := filepath.Join(rdir, fmt.Sprintf("%s-%s-%d.json", prop, s.Harness, nviol))
			b, _ := json.MarshalIndent(v, "", " ")
			os.WriteFile(f, b, 0o644)
			fmt.Printf("  %s: native run of a solver-generated path fails: %s\n    inputs: %s\n", s.Harness, v.Native, showInputs(v.Names, v.Inputs))
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, f)
			exit = 1
		}
	}
	if only == "" {
		writeEvidence(prop, tier, runs, harnessDur, t0, loadT, symT, validated, mism, nviol, nknown, violList, samples)
	}
	tot := int64(0)
	for _, r := range runs {
		tot += r.paths
	}
	status := "held on everything explored"
	if exit == 1 {
		status = "VIOLATED"
	}
	fmt.Printf("%s %s: %s; %d harnesses, %d paths, %d native validations (%d mismatches), %d queries, %.1fs solver, %.1fs wall\n", prop, tier, status, len(runs), tot, validated, mism, sstats.queries, float64(sstats.nanos)/1e9, time.Since(t0).Seconds())
	for _, r := range runs {
		if r.hitLimit || r.unsup > 0 || len(r.incompl) > 0 {
			fmt.Printf("  reduced bound: %s limit=%v paths-not-encodable=%d %v %v\n", r.name, r.hitLimit, r.unsup, r.incompl, topMsgs(r.unsupMsgs, 3))
		}
		if r.paths == 0 && len(r.viol) == 0 {
			fmt.Printf("  vacuous: %s completed no path\n", r.name)
		}
	}
	return exit
}

func topMsgs(m map[string]int, n int) []string {
	var r []string
	for k, v := range m {
		r = append(r, fmt.Sprintf("%dx %s", v, k))
	}
	sort.Strings(r)
	if len(r) > n {
		r = r[:n]
	}
	return r
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func report(r *Run, dur float64) {
	fmt.Printf("[%s] %.1fs paths=%d assumed=%d forks=%d unsup=%d limited=%d steps=%d maxpath=%d asserts=%d (solver %d) reach=%v viol=%v incompl=%v\n", r.name, dur, r.paths, r.assumed, r.forks, r.unsup, r.limited, r.steps, r.maxPathSteps, r.asserts, r.assertQueries, r.reach, r.violLabels, r.incompl)
	for _, m := range topMsgs(r.unsupMsgs, 5) {
		fmt.Println("   unsupported:", m)
	}
	for _, v := range r.viol {
		fmt.Printf("   cex %s [%s] %s\n      %s\n      at %s\n", v.Kind, v.Label, trunc(v.Msg, 300), trunc(showInputs(v.Names, v.Inputs), 600), v.Stack)
	}
}

func showInputs(names []string, in []uint64) string {
	var b strings.Builder
	last := ""
	for i, v := range in {
		if names[i] != last {
			if i > 0 {
				b.WriteString(" ")
			}
			b.WriteString(names[i] + "=")
			last = names[i]
		} else {
			b.WriteString(",")
		}
		if v < 256 {
			fmt.Fprintf(&b, "%d", v)
		} else {
			fmt.Fprintf(&b, "0x%x", v)
		}
		if b.Len() > 2000 {
			b.WriteString("...")
			break
		}
	}
	return b.String()
}

func obsMatch(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func loadKnown() []known {
	var k []known
	b, err := os.ReadFile(filepath.Join(verifDir, "known_findings.json"))
	if err == nil {
		var f struct {
			Findings []known `json:"findings"`
		}
		if json.Unmarshal(b, &f) == nil {
			k = f.Findings
		}
	}
	return k
}

func knownText(kf []known, prop, h, l string) string {
	for _, k := range kf {
		if k.Property == prop && (k.Harness == h || k.Harness == "*") && k.Label == l {
			return k.What
		}
	}
	return l
}

// variant builds another form of the replay binary beside bin, once.
func variant(bin, name string, perturb bool, flags ...string) string {
	out := bin + "-" + name
	if _, err := os.Stat(out); err == nil {
		return out
	}
	if err := buildReplay(filepath.Dir(bin), out, perturb, flags...); err != nil {
		fmt.Printf("note: cannot build the %s replay: %s\n", name, trunc(err.Error(), 600))
		return ""
	}
	return out
}

// confirm replays a counterexample; map order and goroutine schedules are retried.
func confirm(bin string, v *Violation) (bool, nativeResult) {
	var last nativeResult
	cs := []nativeCase{{v.Harness, v.Inputs}}
	if v.Kind == "race" {
		return confirmRace(bin, v)
	}
	tries := 1
	if len(v.Sched) > 0 {
		tries = 30
	}
	for i := 0; i < tries; i++ {
		last = runNative(bin, cs)[0]
		if last.Outcome != "ok" && last.Outcome != "skip" {
			return true, last
		}
	}
	if tries == 1 {
		return false, last
	}
	p := variant(bin, "perturbed", true)
	if p == "" {
		return false, last
	}
	for i := 0; i < 80; i++ {
		os.Setenv("VPPERTURB", fmt.Sprintf("%d,%g", i+1, []float64{0.02, 0.1, 0.3, 0.005}[i%4]))
		all := runNativeSeq(p, repeat(cs[0], 8))
		os.Unsetenv("VPPERTURB")
		for _, last = range all {
			switch {
			case last.Outcome == "ok" || last.Outcome == "skip":
			case last.Label == v.Label, v.Kind != "assert" && last.Outcome != "fail":
				last.Msg += " (goroutines held up at random)"
				return true, last
			}
		}
	}
	return false, last
}

func repeat(c nativeCase, n int) (cs []nativeCase) {
	for i := 0; i < n; i++ {
		cs = append(cs, c)
	}
	return
}

// confirmRace looks for the two functions in the reports of Go's race detector.
func confirmRace(bin string, v *Violation) (bool, nativeResult) {
	last := nativeResult{Outcome: "ok"}
	p := variant(bin, "race", true, "-race")
	at := strings.Split(strings.TrimPrefix(v.Label, "race@"), "|")
	if p == "" || len(at) != 2 {
		return false, last
	}
	for i := 0; i < 24; i++ {
		if i >= 4 {
			os.Setenv("VPPERTURB", fmt.Sprintf("%d,%g", i+1, []float64{0.02, 0.1, 0.3, 0.005}[i%4]))
		}
		b, _ := json.Marshal(repeat(nativeCase{v.Harness, v.Inputs}, 16))
		ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
		cmd := exec.CommandContext(ctx, p)
		cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 exitcode=0 history_size=5")
		cmd.Stdin = bytes.NewReader(b)
		var se bytes.Buffer
		cmd.Stderr = &se
		cmd.Run()
		cancel()
		os.Unsetenv("VPPERTURB")
		for _, rep := range strings.Split(se.String(), "WARNING: DATA RACE")[1:] {
			parts := strings.Split(rep, "\n\n")
			if len(parts) < 2 {
				continue
			}
			a, b := raceSite(parts[0]), raceSite(parts[1])
			same := func(x, y string) bool { return x == y || x == "?" }
			if a != b && (same(a, at[0]) && same(b, at[1]) || same(a, at[1]) && same(b, at[0])) || a == b && a == at[0] && a == at[1] {
				return true, nativeResult{Outcome: "race", Label: v.Label, Msg: "reported by Go's race detector"}
			}
		}
	}
	return false, last
}

// raceSite names the innermost function of the repository in one half of a
// report, "?" if the report misses it: mapaccess1 hides its caller.
func raceSite(s string) string {
	inMap := false
	for _, l := range strings.Split(s, "\n") {
		l = strings.TrimSpace(l)
		inMap = inMap || strings.HasPrefix(l, "runtime.mapaccess1")
		if inMap && (strings.HasPrefix(l, "verif/harness/") || strings.HasPrefix(l, repoMod+"/")) {
			return "?"
		}
		if strings.HasPrefix(l, "verif/harness/props") {
			return ""
		}
		if strings.HasPrefix(l, repoMod+"/") {
			l = strings.TrimSuffix(l, "()")
			return raceName(shortFn(l))
		}
	}
	return ""
}

// raceName removes what the two sides write differently: receivers and closures.
func raceName(s string) string {
	s = strings.NewReplacer("(", "", ")", "", "*", "").Replace(s)
	if i := strings.Index(s, "$"); i >= 0 {
		s = s[:i]
	}
	if i := strings.Index(s, ".func"); i >= 0 {
		s = s[:i]
	}
	return s
}

// runNative runs the cases in parallel processes of the replay binary.
func runNative(bin string, cases []nativeCase) []nativeResult {
	n := 4
	if len(cases) < 16 {
		return runNativeSeq(bin, cases)
	}
	out := make([]nativeResult, len(cases))
	var wg sync.WaitGroup
	for k := 0; k < n; k++ {
		lo, hi := k*len(cases)/n, (k+1)*len(cases)/n
		wg.Add(1)
		go func() {
			defer wg.Done()
			copy(out[lo:hi], runNativeSeq(bin, cases[lo:hi]))
		}()
	}
	wg.Wait()
	return out
}

func runNativeSeq(bin string, cases []nativeCase) []nativeResult {
	out := make([]nativeResult, len(cases))
	start := 0
	for start < len(cases) {
		b, _ := json.Marshal(cases[start:])
		ctx, cancel := context.WithTimeout(context.Background(), 120*time.Second)
		cmd := exec.CommandContext(ctx, bin)
		cmd.Stdin = bytes.NewReader(b)
		var so, se bytes.Buffer
		cmd.Stdout, cmd.Stderr = &so, &se
		err := cmd.Run()
		cancel()
		done, begun := 0, 0
		for _, l := range strings.Split(so.String(), "\n") {
			if strings.HasPrefix(l, "BEGIN ") {
				if k, e := strconv.Atoi(strings.TrimSpace(l[6:])); e == nil {
					begun = k + 1
				}
				continue
			}
			if !strings.HasPrefix(l, "RESULT ") {
				continue
			}
			var r nativeResult
			if json.Unmarshal([]byte(l[7:]), &r) == nil {
				out[start+r.Idx] = r
				done = r.Idx + 1
			}
		}
		if done == begun && done > 0 { // what happens after a result is clean up
			start += done
			continue
		}
		start += done
		if start < len(cases) {
			msg := se.String()
			if err != nil && msg == "" {
				msg = err.Error()
			}
			out[start] = nativeResult{Outcome: "crash", Label: "crash", Msg: trunc(msg, 1500)}
			start++
		}
	}
	return out
}

func buildReplay(tmp, bin string, perturb bool, flags ...string) error {
	var err error
	for _, locks := range []bool{true, false} {
		if perturb && !locks {
			break
		}
		args := append([]string{"build", "-o", bin}, flags...)
		dir, e := os.MkdirTemp(tmp, "ov")
		if e != nil {
			return e
		}
		if ov := overlay(dir, locks, perturb); ov != "" {
			args = append(args, "-overlay", ov)
		}
		cmd := exec.Command("go", append(args, "./replay")...)
		cmd.Dir = filepath.Join(verifDir, "harness")
		out, e := cmd.CombinedOutput()
		if e == nil {
			return nil
		}
		if err == nil {
			err = fmt.Errorf("%v: %s", e, out)
		}
	}
	return err
}

// overlay redirects the dial functions of package net, in the packages under
// test, to the simulated network, and with locks the locks of package sync to
// those of vsync, whose waiting lets virtual time go on; with perturb, locks and
// function entries also hold goroutines up at random.
func overlay(tmp string, locks, perturb bool) string {
	repl := map[string]string{}
	filepath.Walk("/repo", func(path string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(path, ".go") || strings.HasSuffix(path, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(path)
		if err != nil {
			return nil
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, path, src, 0)
		if err != nil {
			return nil
		}
		imported := func(p string) string {
			for _, im := range f.Imports {
				if im.Path.Value == strconv.Quote(p) {
					if im.Name != nil {
						return im.Name.Name
					}
					return p
				}
			}
			return ""
		}
		type edit struct {
			at, del int
			ins     string
		}
		var edits []edit
		tail, imports := "", ""
		redirect := func(name, use string, names map[string]bool, pre string) bool {
			n := 0
			if name == "" || name == "_" || name == "." {
				return false
			}
			ast.Inspect(f, func(x ast.Node) bool {
				if s, ok := x.(*ast.SelectorExpr); ok {
					if id, ok := s.X.(*ast.Ident); ok && id.Name == name && names[s.Sel.Name] {
						edits = append(edits, edit{fset.Position(id.Pos()).Offset, len(name) + 1, pre})
						n++
					}
				}
				return true
			})
			if n > 0 {
				tail += "\nvar _ " + name + "." + use + "\n"
			}
			return n > 0
		}
		if redirect(imported("net"), "Conn", map[string]bool{"Dial": true, "DialTimeout": true, "Dialer": true}, "vpnet.Net") {
			imports += "; import vpnet \"verif/harness/vp\""
		}
		if locks {
			used := redirect(imported("sync"), "Locker", map[string]bool{"Mutex": true, "RWMutex": true, "Once": true}, "vpsync.")
			if perturb && imported("sync") != "" {
				ast.Inspect(f, func(x ast.Node) bool {
					var b *ast.BlockStmt
					switch d := x.(type) {
					case *ast.FuncDecl:
						b = d.Body
					case *ast.FuncLit:
						b = d.Body
					}
					if b != nil {
						used = true
						edits = append(edits, edit{fset.Position(b.Lbrace).Offset + 1, 0, "vpsync.Perturb();"})
					}
					return true
				})
			}
			if used {
				imports += "; import vpsync \"verif/harness/vsync\""
			}
		}
		if len(edits) == 0 {
			return nil
		}
		edits = append(edits, edit{fset.Position(f.Name.End()).Offset, 0, imports})
		sort.Slice(edits, func(i, j int) bool { return edits[i].at > edits[j].at })
		text := string(src)
		for _, e := range edits {
			text = text[:e.at] + e.ins + text[e.at+e.del:]
		}
		text += tail
		out := filepath.Join(tmp, fmt.Sprintf("ov%d.go", len(repl)))
		if os.WriteFile(out, []byte(text), 0o644) == nil {
			repl[path] = out
		}
		return nil
	})
	if len(repl) == 0 {
		return ""
	}
	b, _ := json.Marshal(map[string]interface{}{"Replace": repl})
	ov := filepath.Join(tmp, "overlay.json")
	if os.WriteFile(ov, b, 0o644) != nil {
		return ""
	}
	return ov
}

func replayCmd(f string) int {
	b, err := os.ReadFile(f)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var v Violation
	if err := json.Unmarshal(b, &v); err != nil {
		fmt.Println(err)
		return 2
	}
	tmp, _ := os.MkdirTemp("", "vpreplay")
	if os.Getenv("VPKEEP") == "" {
		defer os.RemoveAll(tmp)
	}
	bin := filepath.Join(tmp, "replay")
	if err := buildReplay(tmp, bin, false); err != nil {
		fmt.Println(err)
		return 2
	}
	ok, res := confirm(bin, &v)
	fmt.Printf("%s: %s\ninputs: %s\nnative: %s %s %s\n", v.Harness, v.Label, showInputs(v.Names, v.Inputs), res.Outcome, res.Label, res.Msg)
	if ok {
		return 1
	}
	return 0
}

func writeEvidence(prop, tier string, runs []*Run, dur map[string]float64, t0 time.Time, loadT, symT time.Duration, validated, mism, nviol, nknown int, viol []*Violation, samples []*PathSample) {
	cov := map[string]interface{}{}
	var states, trans, steps, asserts, aq, assumed, unsup int64
	funcs := map[string]int{}
	var hs []map[string]interface{}
	exhaustive := true
	for _, r := range runs {
		states += r.paths
		trans += r.forks
		steps += r.steps
		asserts += r.asserts
		aq += r.assertQueries
		assumed += r.assumed
		unsup += r.unsup
		for f, n := range r.funcs {
			funcs[strings.ReplaceAll(f.String(), repoMod+"/", "")] += n
		}
		complete := !r.hitLimit && r.unsup == 0 && len(r.incompl) == 0
		if !complete {
			exhaustive = false
		}
		doc := r.prog.harnessDoc("verif/harness/props", r.name)
		hs = append(hs, map[string]interface{}{"harness": r.name, "bounds": doc, "paths": r.paths, "paths_cut_by_assumption": r.assumed, "forks": r.forks, "ssa_instructions": r.steps, "longest_path_steps": r.maxPathSteps,
			"assertions_discharged": r.asserts, "assertions_needing_solver": r.assertQueries, "assertion_labels": r.labels, "reach": r.reach, "complete_within_bounds": complete, "hit_time_limit": r.hitLimit, "paths_not_encodable": r.unsup, "not_encodable": topMsgs(r.unsupMsgs, 10), "incomplete": r.incompl, "violations": r.violLabels, "wall_s": dur[r.name]})
	}
	var fl []string
	for f := range funcs {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	var smp []interface{}
	seenH := map[string]int{}
	for _, s := range samples {
		if seenH[s.Harness] >= 2 || len(smp) >= 30 {
			continue
		}
		seenH[s.Harness]++
		smp = append(smp, map[string]interface{}{"harness": s.Harness, "solver_inputs": trunc(showInputs(s.Names, s.Inputs), 600), "observed": trunc(strings.Join(s.Obs, " "), 600)})
	}
	if len(smp) == 0 {
		for _, v := range viol {
			smp = append(smp, map[string]interface{}{"harness": v.Harness, "solver_inputs": trunc(showInputs(v.Names, v.Inputs), 600), "violation": v.Label})
		}
	}
	if len(smp) == 0 {
		smp = append(smp, "none")
	}
	cov["states"] = states
	cov["transitions"] = trans
	cov["traces_validated_against_impl"] = validated
	cov["samples"] = smp
	cov["states_meaning"] = "complete symbolic paths explored (each stands for all inputs satisfying its path condition)"
	cov["transitions_meaning"] = "feasible branch forks decided by the solver"
	cov["ssa_instructions_executed"] = steps
	cov["assertions_discharged"] = asserts
	cov["assertions_needing_solver"] = aq
	cov["paths_cut_by_assumption"] = assumed
	cov["paths_not_encodable"] = unsup
	cov["functions_encoded"] = fl
	cov["functions_encoded_count"] = len(fl)
	cov["solver"] = map[string]interface{}{"binary": solverPath, "queries": sstats.queries, "sat": sstats.sat, "unsat": sstats.unsat, "unknown": sstats.unknown, "cache_hits": sstats.cacheHits, "solver_time_s": float64(sstats.nanos) / 1e9}
	cov["harnesses"] = hs
	cov["exhaustive"] = exhaustive
	cov["native_mismatches"] = mism
	cov["known_findings"] = nknown
	cov["load_s"] = loadT.Seconds()
	cov["symbolic_s"] = (symT - loadT).Seconds()
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed(), "level": "model_checking", "coverage": cov,
		"assumptions": []string{
			"bounds are those of each harness (coverage.harnesses[].bounds); nothing is claimed outside them",
			"the SSA interpreter of /verif/engine is faithful to Go semantics on the encoded functions (sampled paths are replayed natively and compared every run)",
			"fmt, runtime.Caller, time, net, sync and math.Float64bits are modelled (engine/intrinsics.go, harness/vp/stubs.go)",
			"goroutines switch only at blocking operations and explicit yields",
			"the SMT solver's unsat answers are trusted",
		},
		"wall_s": time.Since(t0).Seconds(), "violations": nviol,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0o755)
	os.WriteFile(filepath.Join(verifDir, "evidence", prop+".json"), append(b, '\n'), 0o644)
}
