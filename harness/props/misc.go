package props

import (
	goerrors "errors"
	"fmt"
	"strings"

	"github.com/dufourgilles/emberlib/asn1"
	"github.com/dufourgilles/emberlib/errors"
	"github.com/dufourgilles/emberlib/logger"
	"verif/harness/vp"
)

// ---------------------------------------------------------------- C33

func logWith(l logger.Logger, m int) {
	switch m {
	case 0:
		l.Error(errors.New("boom"))
	case 1:
		l.Warn("w%d-%s", 5, "x")
	case 2:
		l.Info("i%d-%s", 6, "y")
	case 3:
		l.Debug("d%d-%s", 7, "z")
	case 4:
		l.Debugln("q", 8)
	}
}

// C33_console : every level byte, set at creation or later, every method: prints exactly when the level admits it, the text given.
func C33_console() {
	lvl := logger.LogLevel(vp.U8("level"))
	var l logger.Logger
	if vp.Choose("how", 2) == 0 {
		l = logger.NewConsoleLogger(lvl)
	} else {
		l = logger.NewConsoleLogger(logger.LogLevel(vp.U8("other")))
		l.SetLogLevel(lvl)
	}
	vp.Assert(l.GetLogLevel() == lvl, "level kept")
	m := vp.Choose("method", 5)
	min := []logger.LogLevel{logger.ErrorLevel, logger.WarnLevel, logger.InfoLevel, logger.DebugLevel, logger.DebugLevel}[m]
	n, text := vp.Capture(func() { logWith(l, m) })
	vp.Assert((n > 0) == (lvl >= min), "message printed exactly when its level is enabled")
	if n > 0 && m > 0 {
		vp.Assert(text == []string{"", "w5-x", "i6-y", "d7-z", "q 8\n"}[m], "text printed")
	}
	vp.Assert(l.GetLogLevel() == lvl, "level unchanged by logging")
}

// C33_order : Error < Warn < Info < Debug, so a more verbose level prints everything a less verbose one does.
func C33_order() {
	vp.Assert(logger.ErrorLevel < logger.WarnLevel && logger.WarnLevel < logger.InfoLevel && logger.InfoLevel < logger.DebugLevel, "levels ordered by verbosity")
	a, b := vp.U8("a"), vp.U8("b")
	vp.Assume(a <= b)
	m := vp.Choose("method", 5)
	na, _ := vp.Capture(func() { logWith(logger.NewConsoleLogger(logger.LogLevel(a)), m) })
	nb, _ := vp.Capture(func() { logWith(logger.NewConsoleLogger(logger.LogLevel(b)), m) })
	vp.Assert(na == 0 || nb > 0, "verbosity is monotonic")
}

// C33_null : the null logger never prints, at any level, and keeps its level.
func C33_null() {
	l := logger.NewNullLogger()
	lvl := logger.LogLevel(vp.U8("level"))
	l.SetLogLevel(lvl)
	vp.Assert(l.GetLogLevel() == lvl, "null logger level kept")
	m := vp.Choose("method", 5)
	n, _ := vp.Capture(func() { logWith(l, m) })
	vp.Assert(n == 0, "null logger printed")
}

// C33_series : sequences of 4 (5 thorough) operations on two loggers (console with any level, console or null): set a level out of six or log by three methods: what is printed follows the level of that logger.
func C33_series() {
	k := 4
	if vp.Thorough() {
		k = 5
	}
	levels := []logger.LogLevel{0, logger.ErrorLevel, logger.WarnLevel, logger.InfoLevel, logger.DebugLevel, 255}
	a := logger.LogLevel(vp.U8("level"))
	null := vp.Choose("null", 2) == 1
	ls := []logger.Logger{logger.NewConsoleLogger(a), logger.NewConsoleLogger(logger.InfoLevel)}
	lv := []logger.LogLevel{a, logger.InfoLevel}
	if null {
		ls[1] = logger.NewNullLogger()
	}
	for i := 0; i < k; i++ {
		w := vp.Choose("which", 2)
		op := vp.Choose("op", 4)
		switch op {
		case 0:
			lv[w] = levels[vp.Choose("new", len(levels))]
			ls[w].SetLogLevel(lv[w])
			vp.Assert(ls[w].GetLogLevel() == lv[w], "level kept")
		default:
			m := []int{0, 2, 3}[op-1]
			n, _ := vp.Capture(func() { logWith(ls[w], m) })
			min := []logger.LogLevel{logger.ErrorLevel, logger.WarnLevel, logger.InfoLevel, logger.DebugLevel, logger.DebugLevel}[m]
			vp.Assert((n > 0) == vp.And(lv[w] >= min, !(w == 1 && null)), "printed exactly when the level of this logger admits it")
		}
	}
}

// C33_args : messages without arguments, with several, with percent signs in them: printed like fmt does, nothing added to the arguments.
func C33_args() {
	l := logger.NewConsoleLogger(logger.DebugLevel)
	m := vp.Choose("method", 3)
	log := []func(string, ...interface{}){l.Warn, l.Info, l.Debug}[m]
	cases := []struct {
		f    string
		a    []interface{}
		want string
	}{{"", nil, ""}, {"plain", nil, "plain"}, {"line\n", nil, "line\n"}, {"%d%%", []interface{}{50}, "50%"}, {"%s %v %x", []interface{}{"50%d", true, 255}, "50%d true ff"}, {"%s|%s|%s|%s|%s", []interface{}{"a", "b", "c", "d", "e"}, "a|b|c|d|e"}}
	c := cases[vp.Choose("case", len(cases))]
	_, text := vp.Capture(func() { log(c.f, c.a...) })
	vp.Assert(text == c.want, "text printed")
	_, text = vp.Capture(func() { l.Debugln("x", 1, true) })
	vp.Assert(text == "x 1 true\n", "line printed")
	_, text = vp.Capture(func() { l.Debugln() })
	vp.Assert(text == "\n", "empty line printed")
}

// ---------------------------------------------------------------- C35

// C35_lifo : any sequence of 8 push/pop operations (10 in the thorough tier) with any values, against a reference list.
func C35_lifo() {
	k := 8
	if vp.Thorough() {
		k = 11
	}
	s := asn1.NewStack()
	t := asn1.NewStack() // an unrelated stack is not affected
	t.Push("other")
	var ref []int
	for i := 0; i < k; i++ {
		if vp.Choose("op", 2) == 0 {
			v := vp.Int("v")
			s.Push(v)
			ref = append(ref, v)
			continue
		}
		g := s.Pop()
		if len(ref) == 0 {
			vp.Assert(g == nil, "pop of an empty stack")
			continue
		}
		x, isInt := g.(int)
		vp.Assert(isInt && x == ref[len(ref)-1], "pop returns the last value pushed")
		ref = ref[:len(ref)-1]
	}
	for len(ref) > 0 {
		x, isInt := s.Pop().(int)
		vp.Assert(isInt && x == ref[len(ref)-1], "remaining values in order")
		ref = ref[:len(ref)-1]
	}
	vp.Assert(s.Pop() == nil, "empty at the end")
	vp.Assert(t.Pop() == "other" && t.Pop() == nil, "stacks are independent")
}

// ---------------------------------------------------------------- C36

type causeErr struct {
	msg   string
	cause error
}

func (e *causeErr) Error() string { return e.msg }
func (e *causeErr) Unwrap() error { return e.cause }

var errTexts = []string{"plain 42 x", "wrapped", "", "outer", "outer: inner", "no verbs, 100% kept", ""}

func mkErr(k int) errors.Error {
	switch k {
	case 0:
		return errors.New("plain %d %s", 42, "x")
	case 1:
		return errors.NewError(goerrors.New("wrapped"))
	case 3:
		return errors.NewError(&causeErr{"outer", goerrors.New("inner")})
	case 4:
		return errors.New("%s: %w", "outer", goerrors.New("inner"))
	case 5:
		return errors.New("no verbs, 100%% kept")
	case 6:
		return errors.New("")
	}
	return nil
}

func up1(e errors.Error) errors.Error { return errors.Update(e) }
func up2(e errors.Error) errors.Error { return errors.Update(e) }

// C36_values : errors created from a message, from a Go error (also one that wraps another) or nil, propagated 0..4 times through two call sites.
func C36_values() {
	k := vp.Choose("kind", 7)
	e := mkErr(k)
	vp.Assert((e == nil) == (k == 2), "nil exactly for nil")
	n := vp.Choose("n", 5)
	var trace []string
	if e != nil {
		trace = append(trace, e.Stack...)
		vp.Assert(len(trace) == 1, "one position when created")
	}
	for i := 0; i < n; i++ {
		which := vp.Choose("site", 2)
		f := e
		if which == 0 {
			e = up1(f)
		} else {
			e = up2(f)
		}
		if k == 2 {
			vp.Assert(e == nil, "propagating success stays success")
			continue
		}
		vp.Assert(e != nil, "propagating keeps the error")
		vp.Assert(len(e.Stack) == i+2, "one position per propagation")
		for j, s := range trace {
			vp.Assert(e.Stack[j] == s, "earlier positions kept in order")
		}
		trace = append([]string(nil), e.Stack...)
	}
	if k == 2 {
		return
	}
	vp.Assert(e.Message != nil && e.Message.Error() == errTexts[k], "message kept")
	for _, s := range e.Stack {
		vp.Assert(strings.Contains(s, "misc.go:"), "positions name the caller")
	}
	if n == 2 {
		a, b := up1(mkErr(0)), up2(mkErr(0))
		vp.Assert(a.Stack[0] == b.Stack[0] && a.Stack[1] != b.Stack[1], "positions tell call sites apart")
	}
}

// C36_independent : two errors never share their trace or message.
func C36_independent() {
	a, b := mkErr(vp.Choose("a", 2)), mkErr(vp.Choose("b", 2))
	n := vp.Choose("n", 5)
	for i := 0; i < n; i++ {
		a = up1(a)
	}
	vp.Assert(len(b.Stack) == 1 && len(a.Stack) == n+1, "independent traces")
}

// C36_api : failing operations of the public API return an error with a message and a position, and successful ones return nil (any byte of input).
func C36_api() {
	t := vp.U8("t")
	r := asn1.NewASNReader([]byte{t, 1, 5})
	_, err := r.ReadInt()
	vp.Assert((err == nil) == (t == tagInt), "error exactly on failure")
	if err != nil {
		vp.Assert(err.Message != nil && len(err.Stack) > 0, "error carries a message and a position")
	}
	_ = fmt.Sprint
}
