package main

import (
	"fmt"
	"go/types"
	"strings"
	"sync"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

// Values held in registers and heap cells. All values are immutable.
type Value interface{}

type Ptr struct{ obj, off int } // obj 0 = nil

type SymPtr struct { // pointer to element idx of a scalar array
	obj, off, n int
	idx         *Term
}

type Slice struct{ obj, off, len, cap int }

type Str struct {
	s     string
	sym   []*Term   // when non-nil, the bytes (width 8)
	fm    *fmtStr   // opaque formatted string
	parts []strPart // text with numbers of symbolic value (strparts.go)
}

type fmtStr struct {
	format string
	args   []Value
}

type Iface struct {
	t types.Type // nil = nil interface
	v Value
}

type Agg []Value // flattened struct / array value
type Tuple []Value

type Closure struct {
	fn   *ssa.Function
	b    []Value
	bltn string
}

type MapRef struct{ obj int }
type ChanRef struct{ obj int }
type IterRef struct{ obj int }

type objKind uint8

const (
	oCells objKind = iota
	oBytes
	oMap
	oChan
	oIter
)

type mapEntry struct {
	id  int
	key Value
	val Value
}

type Object struct {
	owner   uint64
	kind    objKind
	cells   []Value
	b       []byte
	sym     map[int]*Term
	signed  bool
	entries []mapEntry // oMap
	nextID  int
	buf     []Value // oChan
	cap     int
	closed  bool
	mapObj  int // oIter
	str     *Str
	pos     int
	visited []int
	poison  string // reading is unsupported (uninitialised global of a non-modelled package)
	shared  bool   // pkg under concurrency instrumentation
	tab     atomic.Pointer[tabCache]
	sh      map[int]*shCell // race detection
}

type tabCache struct {
	off, n int
	vals   []uint64
	ok     bool
	w      uint8
}

func (o *Object) clone(owner uint64) *Object {
	n := &Object{owner: owner, kind: o.kind, signed: o.signed, nextID: o.nextID, cap: o.cap, closed: o.closed, mapObj: o.mapObj, str: o.str, pos: o.pos, poison: o.poison, shared: o.shared}
	if o.cells != nil {
		n.cells = append([]Value(nil), o.cells...)
	}
	if o.b != nil {
		n.b = append([]byte(nil), o.b...)
	}
	if len(o.sym) > 0 {
		n.sym = make(map[int]*Term, len(o.sym))
		for k, v := range o.sym {
			n.sym[k] = v
		}
	}
	n.entries = append([]mapEntry(nil), o.entries...)
	if o.sh != nil {
		n.sh = make(map[int]*shCell, len(o.sh))
		for k, v := range o.sh {
			n.sh[k] = v
		}
	}
	n.buf = append([]Value(nil), o.buf...)
	n.visited = append([]int(nil), o.visited...)
	return n
}

func (o *Object) size() int {
	if o.kind == oBytes {
		return len(o.b)
	}
	return len(o.cells)
}

func (o *Object) get(i int) Value {
	if o.kind == oBytes {
		if t, ok := o.sym[i]; ok {
			return t
		}
		return mkConst(8, uint64(o.b[i]))
	}
	return o.cells[i]
}

func (o *Object) set(i int, v Value) {
	if o.tab.Load() != nil {
		o.tab.Store(nil)
	}
	if o.kind == oBytes {
		t := v.(*Term)
		if t.isConst() {
			o.b[i] = byte(t.val)
			if o.sym != nil {
				delete(o.sym, i)
			}
			return
		}
		if o.sym == nil {
			o.sym = map[int]*Term{}
		}
		o.sym[i] = t
		return
	}
	o.cells[i] = v
}

// ---- type layout ----

type layout struct {
	n     int
	agg   bool
	offs  []int      // field offsets for structs
	elem  types.Type // arrays
	esize int
	zero  []Value
	alen  int
}

var layoutCache sync.Map

func layoutOf(t types.Type) *layout {
	if l, ok := layoutCache.Load(t); ok {
		return l.(*layout)
	}
	l := &layout{}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		l.agg = true
		for i := 0; i < u.NumFields(); i++ {
			f := layoutOf(u.Field(i).Type())
			l.offs = append(l.offs, l.n)
			l.n += f.n
			l.zero = append(l.zero, f.zero...)
		}
	case *types.Array:
		l.agg = true
		e := layoutOf(u.Elem())
		l.elem = u.Elem()
		l.esize = e.n
		l.alen = int(u.Len())
		l.n = e.n * int(u.Len())
		if l.n <= 1<<17 {
			for i := 0; i < int(u.Len()); i++ {
				l.zero = append(l.zero, e.zero...)
			}
		}
	case *types.Tuple:
		panic(unsupported("layout of tuple"))
	default:
		l.n = 1
		l.zero = []Value{zeroScalar(t)}
	}
	layoutCache.Store(t, l)
	return l
}

func zeroScalar(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return &Str{}
		}
		if u.Kind() == types.UnsafePointer {
			return Ptr{}
		}
		if u.Kind() == types.UntypedNil {
			return Ptr{}
		}
		return mkConst(basicWidth(u), 0)
	case *types.Pointer:
		return Ptr{}
	case *types.Slice:
		return Slice{}
	case *types.Interface:
		return Iface{}
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Map:
		return MapRef{}
	case *types.Chan:
		return ChanRef{}
	}
	panic(unsupported("zero of " + t.String()))
}

func zeroValue(t types.Type) Value {
	if tt, ok := t.(*types.Tuple); ok {
		r := make(Tuple, tt.Len())
		for i := range r {
			r[i] = zeroValue(tt.At(i).Type())
		}
		return r
	}
	l := layoutOf(t)
	if l.agg {
		return Agg(l.zero)
	}
	return l.zero[0]
}

func basicWidth(b *types.Basic) uint8 {
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32, types.Float32, types.UntypedRune:
		return 32
	case types.Int, types.Uint, types.Int64, types.Uint64, types.Uintptr, types.Float64, types.UntypedInt, types.UntypedFloat:
		return 64
	}
	panic(unsupported("basic type " + b.String()))
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isSigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned == 0
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isByteType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Uint8 || b.Kind() == types.Int8)
}

func flat(v Value) []Value {
	if a, ok := v.(Agg); ok {
		return a
	}
	return []Value{v}
}

func cstr(s string) *Str { return &Str{s: s} }

func (s *Str) length() int {
	if s.parts != nil {
		panic(unsupported("inspecting a string with symbolic numbers"))
	}
	if s.fm != nil {
		panic(unsupported("inspecting a formatted string with symbolic parts: " + s.fm.format))
	}
	if s.sym != nil {
		return len(s.sym)
	}
	return len(s.s)
}
func (s *Str) at(i int) *Term {
	if s.sym != nil {
		return s.sym[i]
	}
	return mkConst(8, uint64(s.s[i]))
}
func (s *Str) concrete() (string, bool) {
	if s.fm != nil || s.parts != nil {
		return "", false
	}
	if s.sym == nil {
		return s.s, true
	}
	return "", false
}
func mkStr(ts []*Term) *Str {
	conc := true
	for _, t := range ts {
		if !t.isConst() {
			conc = false
			break
		}
	}
	if conc {
		b := make([]byte, len(ts))
		for i, t := range ts {
			b[i] = byte(t.val)
		}
		return &Str{s: string(b)}
	}
	return &Str{sym: ts}
}
func (s *Str) slice(i, j int) *Str {
	if s.sym != nil {
		return mkStr(s.sym[i:j:j])
	}
	return &Str{s: s.s[i:j]}
}
func (s *Str) terms() []*Term {
	n := s.length()
	if s.sym != nil {
		return s.sym
	}
	r := make([]*Term, n)
	for i := range r {
		r[i] = s.at(i)
	}
	return r
}

type pathEnd struct {
	kind  string // done, assume, unsupported, violation, limit
	msg   string
	label string
}

func unsupported(msg string) pathEnd { return pathEnd{kind: "unsupported", msg: msg} }

func describe(m *Model, v Value) string {
	switch x := v.(type) {
	case *Term:
		return fmt.Sprint(m.eval(x))
	case *Str:
		if x.fm != nil {
			return x.fm.format
		}
		if x.parts != nil {
			r := ""
			for _, p := range x.parts {
				if p.n == nil {
					r += describe(m, p.s)
				} else {
					r += describe(m, p.n)
				}
			}
			return r
		}
		if x.sym == nil {
			return fmt.Sprintf("%q", x.s)
		}
		b := make([]byte, len(x.sym))
		for i, t := range x.sym {
			b[i] = byte(m.eval(t))
		}
		return fmt.Sprintf("%q", b)
	case Iface:
		if x.t == nil {
			return "nil"
		}
		return x.t.String() + "(" + describe(m, x.v) + ")"
	case Agg:
		var p []string
		for _, e := range x {
			p = append(p, describe(m, e))
		}
		return "{" + strings.Join(p, " ") + "}"
	}
	return fmt.Sprintf("%T", v)
}
