// Package vp is the harness vocabulary. The functions below are intercepted by
// the symbolic engine (/verif/engine); compiled natively they replay recorded
// solver inputs against the real code.
package vp

import (
	"fmt"
	"math"
	"os"
	"runtime"
	"time"
)

type failure struct{ label string }
type skipped struct{}
type stopped struct{}

var (
	inputs     []uint64
	pos        int
	obsLog     []string
	allocLimit uint64
	allocBase  uint64
	thorough   bool
)

// Start begins a native replay.
func Start(in []uint64) {
	inputs, pos, obsLog, allocLimit = in, 0, nil, 0
}

func next() uint64 {
	if pos < len(inputs) {
		v := inputs[pos]
		pos++
		return v
	}
	pos++
	return 0
}

// Result runs f and classifies the outcome.
func Result(f func()) (outcome, label, msg string, obs []string) {
	outcome = "ok"
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch x := r.(type) {
				case failure:
					outcome, label, msg = "fail", x.label, "assertion failed: "+x.label
				case skipped:
					outcome = "skip"
				case stopped:
				default:
					outcome, label, msg = "panic", "panic", fmt.Sprint(r)
					buf := make([]byte, 4096)
					n := runtime.Stack(buf, false)
					msg += "\n" + string(buf[:n])
				}
			}
		}()
		f()
	}()
	if allocLimit > 0 && outcome == "ok" {
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		if d := m.TotalAlloc - allocBase; d > allocLimit {
			outcome, label, msg = "alloc", "alloc", fmt.Sprintf("allocated %d bytes, limit %d", d, allocLimit)
		}
	}
	return outcome, label, msg, obsLog
}

func U8(name string) uint8    { return uint8(next()) }
func U16(name string) uint16  { return uint16(next()) }
func U32(name string) uint32  { return uint32(next()) }
func U64(name string) uint64  { return next() }
func I8(name string) int8     { return int8(next()) }
func I16(name string) int16   { return int16(next()) }
func I32(name string) int32   { return int32(next()) }
func I64(name string) int64   { return int64(next()) }
func Int(name string) int     { return int(next()) }
func F64(name string) float64 { return math.Float64frombits(next()) }
func Bool(name string) bool   { return next()&1 == 1 }
func Bytes(name string, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(next())
	}
	return b
}
func Str(name string, n int) string { return string(Bytes(name, n)) }

// Choose returns a value below n; the engine explores every one.
func Choose(name string, n int) int { return int(next()) }

// Below returns a value below n that stays symbolic.
func Below(name string, n int) int { return int(next()) }

// Split forks over every feasible value of v.
func Split(v int) int { return v }

func Assume(c bool) {
	if !c {
		panic(skipped{})
	}
}
func Assert(c bool, label string) {
	if !c {
		panic(failure{label})
	}
}
func Fail(label string)      { panic(failure{label}) }
func Stop()                  { panic(stopped{}) }
func Reach(label string)     {}
func And(a, b bool) bool     { return a && b }
func Or(a, b bool) bool      { return a || b }
func Implies(a, b bool) bool { return !a || b }
func IteInt(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}
func IteU8(c bool, a, b uint8) uint8 {
	if c {
		return a
	}
	return b
}
func IteI8(c bool, a, b int8) int8 {
	if c {
		return a
	}
	return b
}
func IteU64(c bool, a, b uint64) uint64 {
	if c {
		return a
	}
	return b
}
func EqBytes(a, b []byte) bool { return string(a) == string(b) }
func EqStr(a, b string) bool   { return a == b }
func Obs(label string, v int)  { obsLog = append(obsLog, fmt.Sprintf("%s=%d", label, uint64(v))) }
func ObsBytes(label string, b []byte) {
	s := ""
	for i, c := range b {
		if i > 0 {
			s += ","
		}
		s += fmt.Sprint(c)
	}
	obsLog = append(obsLog, label+"="+s)
}

// ObsBool records a boolean.
func ObsBool(label string, b bool) { Obs(label, IteInt(b, 1, 0)) }

// AllocLimit makes any single allocation above n bytes a violation. Natively the
// sum of all allocations is measured, with 2 MB of slack for everything else.
func AllocLimit(n int) {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	allocBase, allocLimit = m.TotalAlloc, uint64(n)+2<<20
}

// AllocTotal bounds the sum of all array allocations of the rest of the path.
// Natively all allocations are measured, with 2 MB of slack.
func AllocTotal(n int) { AllocLimit(n) }

// MaxSteps bounds the remaining SSA steps of the path; exceeding it is non-termination.
func MaxSteps(n int) {}

func MapAnyOrder(b bool) {}
func Thorough() bool     { return next()&1 == 1 }
func Native() bool       { return true }
func Yield()             { runtime.Gosched() }
func Quiesce()           { time.Sleep(30 * time.Millisecond) }

// WaitFor blocks until *p is not 0 (engine only).
func WaitFor(p *int) {}
func TimerRace() {}

// Races reports unsynchronised accesses to shared memory by the code under test from here on.
func Races() {}

// Preempt allows n switches to another goroutine at synchronisation operations of the code under test.
func Preempt(n int) {}

// Delays bounds the deviations from the round-robin schedule on a path.
func Delays(n int) {}

func IsConcrete(n int) bool { return true }

func printed() int                { return 0 }
func printedText(from int) string { return "" }

// Capture runs f and returns how often it printed to standard output, and what.
// Natively the count is 0 or 1.
func Capture(f func()) (int, string) {
	if !Native() {
		n := printed()
		f()
		if printed() == n {
			return 0, ""
		}
		return printed() - n, printedText(n)
	}
	old := os.Stdout
	tmp, err := os.CreateTemp("", "vpcapture")
	if err != nil {
		panic(err)
	}
	os.Remove(tmp.Name())
	os.Stdout = tmp
	defer func() { os.Stdout = old; tmp.Close() }()
	f()
	st, _ := tmp.Stat()
	b := make([]byte, st.Size())
	tmp.ReadAt(b, 0)
	if len(b) == 0 {
		return 0, ""
	}
	return 1, string(b)
}

// Catch reports whether f panics.
func Catch(f func()) (panicked bool) {
	defer func() {
		if r := recover(); r != nil {
			reraise(r)
			panicked = true
		}
	}()
	f()
	return false
}

func reraise(r interface{}) {
	switch r.(type) {
	case failure, skipped, stopped:
		panic(r)
	}
}
