package vp

import (
	"context"
	"encoding/binary"
	"io"
	"net"
	"os"
	"sync"
	"time"
)

// RuntimeError is what a run-time panic carries under the engine.
type RuntimeError struct{ Msg string }

func (e RuntimeError) Error() string { return e.Msg }
func (e RuntimeError) RuntimeError() {}

// FmtError is the error built by fmt.Errorf under the engine.
type FmtError struct{ S string }

func (e *FmtError) Error() string { return e.S }

// engine intrinsics
func rawSize(v interface{}) int                    { return 0 }
func rawFill(v interface{}, b []byte, little bool) {}
func isLittle(o binary.ByteOrder) bool             { return true }
func swapElems(x interface{}, i, j int)            {}
func lenOf(x interface{}) int                      { return 0 }

func stubBinaryRead(r io.Reader, order binary.ByteOrder, data interface{}) error {
	n := rawSize(data)
	bs := make([]byte, n)
	if _, err := io.ReadFull(r, bs); err != nil {
		return err
	}
	rawFill(data, bs, isLittle(order))
	return nil
}

func stubSortSlice(x interface{}, less func(i, j int) bool) {
	n := lenOf(x)
	for i := 1; i < n; i++ {
		for j := i; j > 0 && less(j, j-1); j-- {
			swapElems(x, j, j-1)
		}
	}
}

// same layout as sync.Once is not needed: the first scalar cell is the flag
func stubOnceDo(o *onceCell, f func()) {
	onceWait(&o.done)
	if o.done == 0 {
		o.done = 1
		defer func() { o.done = 2 }()
		f()
	}
}

// onceWait blocks while *p is 1.
func onceWait(p *uint32) {}

type onceCell struct{ done uint32 }

func stubDial(network, address string) (net.Conn, error) { return NetDial(network, address) }
func stubDialTimeout(network, address string, d time.Duration) (net.Conn, error) {
	return NetDial(network, address)
}
func stubDialerDial(d *net.Dialer, network, address string) (net.Conn, error) {
	return NetDial(network, address)
}
func stubDialerDialContext(d *net.Dialer, ctx context.Context, network, address string) (net.Conn, error) {
	return NetDial(network, address)
}

// FakeType stands in for reflect types in package initialisers.
type FakeType struct{}

func (FakeType) Elem() FakeType { return FakeType{} }

func stubStringsIndex(s, sep string) int {
	for i := 0; i+len(sep) <= len(s); i++ {
		if EqStr(s[i:i+len(sep)], sep) {
			return i
		}
	}
	return -1
}

func stubBytesIndex(s, sep []byte) int {
	for i := 0; i+len(sep) <= len(s); i++ {
		if EqBytes(s[i:i+len(sep)], sep) {
			return i
		}
	}
	return -1
}

// ---- formatting: operands with text methods are replaced by their text ----

func rawSprintf(f string, a []interface{}) string  { return "" }
func rawSprint(a []interface{}) string             { return "" }
func rawSprintln(a []interface{}) string           { return "" }
func rawPrint(s string)                            {}
func rawVerb(f string, i int) byte                 { return 0 }
func rawNilPtr(v interface{}) bool                 { return false }
func rawIsFile(v interface{}) bool                 { return false }
func rawIsNative(v interface{}) bool               { return false }
func rawAssign(err error, target interface{}) bool { return false }

func textOf(v interface{}) (string, bool) {
	if rawNilPtr(v) || rawIsNative(v) {
		return "", false
	}
	switch e := v.(type) {
	case error:
		return e.Error(), true
	case interface{ String() string }:
		return e.String(), true
	}
	return "", false
}

func texts(f string, a []interface{}, all bool) []interface{} {
	r := a
	for i, v := range a {
		if !all {
			switch rawVerb(f, i) {
			case 's', 'v', 'q', 'w':
			default:
				continue
			}
		}
		if t, ok := textOf(v); ok {
			if &r[0] == &a[0] {
				r = append([]interface{}(nil), a...)
			}
			if all {
				r[i] = text(t)
			} else {
				r[i] = t
			}
		}
	}
	return r
}

// text is an operand that Sprint must not take for a string.
type text string

func stubSprintf(f string, a ...interface{}) string { return rawSprintf(f, texts(f, a, false)) }
func stubSprint(a ...interface{}) string            { return rawSprint(texts("", a, true)) }
func stubSprintln(a ...interface{}) string          { return rawSprintln(texts("", a, true)) }

// WrapErr is what fmt.Errorf with %w builds under the engine.
type WrapErr struct {
	S   string
	Err error
}

func (e *WrapErr) Error() string { return e.S }
func (e *WrapErr) Unwrap() error { return e.Err }

func stubErrorf(f string, a ...interface{}) error {
	s := rawSprintf(f, texts(f, a, false))
	for i, v := range a {
		if rawVerb(f, i) == 'w' {
			if e, ok := v.(error); ok {
				return &WrapErr{s, e}
			}
		}
	}
	return &FmtError{s}
}

func stubPrintf(f string, a ...interface{}) (int, error) {
	rawPrint(rawSprintf(f, texts(f, a, false)))
	return 0, nil
}
func stubPrint(a ...interface{}) (int, error) {
	rawPrint(rawSprint(texts("", a, true)))
	return 0, nil
}
func stubPrintln(a ...interface{}) (int, error) {
	rawPrint(rawSprintln(texts("", a, true)))
	return 0, nil
}
func fprint(w io.Writer, s string) (int, error) {
	if rawIsFile(w) {
		rawPrint(s)
		return 0, nil
	}
	if sw, ok := w.(io.StringWriter); ok {
		return sw.WriteString(s)
	}
	return w.Write([]byte(s))
}
func stubFprintf(w io.Writer, f string, a ...interface{}) (int, error) {
	return fprint(w, rawSprintf(f, texts(f, a, false)))
}
func stubFprint(w io.Writer, a ...interface{}) (int, error) {
	return fprint(w, rawSprint(texts("", a, true)))
}
func stubFprintln(w io.Writer, a ...interface{}) (int, error) {
	return fprint(w, rawSprintln(texts("", a, true)))
}
func stubAppendf(b []byte, f string, a ...interface{}) []byte {
	return append(b, rawSprintf(f, texts(f, a, false))...)
}
func stubFileWrite(w *os.File, b []byte) (int, error) {
	rawPrint(string(b))
	return len(b), nil
}
func stubFileWriteString(w *os.File, s string) (int, error) {
	rawPrint(s)
	return len(s), nil
}

// ---- errors ----

func stubErrorsIs(err, target error) bool {
	if err == nil || target == nil {
		return err == target
	}
	for {
		if err == target {
			return true
		}
		if x, ok := err.(interface{ Is(error) bool }); ok && x.Is(target) {
			return true
		}
		switch x := err.(type) {
		case interface{ Unwrap() error }:
			err = x.Unwrap()
			if err == nil {
				return false
			}
		case interface{ Unwrap() []error }:
			for _, e := range x.Unwrap() {
				if stubErrorsIs(e, target) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
}

func stubErrorsAs(err error, target interface{}) bool {
	for err != nil {
		if rawAssign(err, target) {
			return true
		}
		if x, ok := err.(interface{ As(interface{}) bool }); ok && x.As(target) {
			return true
		}
		switch x := err.(type) {
		case interface{ Unwrap() error }:
			err = x.Unwrap()
		case interface{ Unwrap() []error }:
			for _, e := range x.Unwrap() {
				if stubErrorsAs(e, target) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
	return false
}

// ---- sync ----

var (
	conds = map[*sync.Cond][]*int{}
	smaps = map[*sync.Map]map[interface{}]interface{}{}
)

func stubPoolGet(p *sync.Pool) interface{} {
	if p.New != nil {
		return p.New()
	}
	return nil
}
func stubPoolPut(p *sync.Pool, v interface{}) {}

func stubCondWait(c *sync.Cond) {
	cell := new(int)
	conds[c] = append(conds[c], cell)
	c.L.Unlock()
	WaitFor(cell)
	c.L.Lock()
}
func stubCondSignal(c *sync.Cond) {
	if l := conds[c]; len(l) > 0 {
		*l[0] = 1
		conds[c] = l[1:]
	}
}
func stubCondBroadcast(c *sync.Cond) {
	for _, cell := range conds[c] {
		*cell = 1
	}
	delete(conds, c)
}

func stubMapLoad(m *sync.Map, k interface{}) (interface{}, bool) {
	v, ok := smaps[m][k]
	return v, ok
}
func stubMapStore(m *sync.Map, k, v interface{}) {
	if smaps[m] == nil {
		smaps[m] = map[interface{}]interface{}{}
	}
	smaps[m][k] = v
}
func stubMapDelete(m *sync.Map, k interface{}) { delete(smaps[m], k) }
func stubMapLoadOrStore(m *sync.Map, k, v interface{}) (interface{}, bool) {
	if o, ok := smaps[m][k]; ok {
		return o, true
	}
	stubMapStore(m, k, v)
	return v, false
}
func stubMapLoadAndDelete(m *sync.Map, k interface{}) (interface{}, bool) {
	v, ok := smaps[m][k]
	delete(smaps[m], k)
	return v, ok
}
func stubMapRange(m *sync.Map, f func(k, v interface{}) bool) {
	for k, v := range smaps[m] {
		if !f(k, v) {
			return
		}
	}
}
