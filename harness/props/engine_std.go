package props

// Conformance of the engine with the language and the standard library (bin/vpcheck -prop A01): every
// path is also run natively and has to give the same observations.

import (
	"bufio"
	"bytes"
	"cmp"
	"container/list"
	"context"
	"encoding/binary"
	"encoding/hex"
	stderrors "errors"
	"fmt"
	"io"
	"maps"
	"math"
	"math/bits"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	"unicode/utf8"

	"verif/harness/vp"
)

type num interface{ ~int | ~int32 | ~uint8 }

func mx[T num](a, b T) T {
	if a > b {
		return a
	}
	return b
}

type pairT[K comparable, V any] struct {
	k K
	v V
}

func (p pairT[K, V]) Key() K { return p.k }

func iterSeq(n int) func(func(int) bool) {
	return func(yield func(int) bool) {
		for i := 0; i < n; i++ {
			if !yield(i) {
				return
			}
		}
	}
}

func A01_t01() { // strings.Builder
	var b strings.Builder
	b.WriteString("ab")
	b.WriteByte('c')
	b.WriteRune('é')
	fmt.Fprintf(&b, "%d.", 5)
	vp.Assert(b.String() == "abcé5." && b.Len() == 7, "builder")
}
func A01_t02() {
	p := []int32{1, 2, vp.I32("x")}
	vp.Assume(p[2] >= 0 && p[2] < 3)
	s := make([]string, len(p))
	for i, n := range p {
		s[i] = strconv.Itoa(int(n))
	}
	j := strings.Join(s, ".")
	vp.Assert(strings.HasPrefix(j, "1.2."), "join")
	parts := strings.Split(j, ".")
	vp.Assert(len(parts) == 3, "split")
	n, err := strconv.Atoi(parts[2])
	vp.Assert(err == nil && n == int(p[2]), "atoi")
	m, err := strconv.ParseInt(parts[1], 10, 32)
	vp.Assert(err == nil && m == 2, "parseint")
	vp.Assert(strconv.FormatInt(int64(-12), 10) == "-12", "fmtint")
}
func A01_t03() { // fmt verbs
	vp.Assert(fmt.Sprintf("%d %s %v %x %02x %q", 3, "a", 4, 255, 5, "z") == "3 a 4 ff 05 \"z\"", "sprintf")
	vp.Assert(fmt.Sprint("a", 1) == "a1", "sprint")
	vp.Assert(fmt.Sprintf("%s", fmt.Errorf("e %d", 4)) == "e 4", "errorf")
	vp.Assert(fmt.Sprintf("%t %c %5d|%-4d|%03d", true, 'x', 3, 4, 5) == "true x     3|4   |005", "more verbs")
	vp.Assert(fmt.Sprintf("%v", []int32{1, 2}) == "[1 2]", "slice")
	vp.Assert(fmt.Sprintln("a", 2) == "a 2\n", "sprintln")
}
func A01_t04() { // slices, maps, cmp
	a := []int32{3, 1, vp.I32("v")}
	slices.Sort(a)
	vp.Assert(a[0] <= a[1] && a[1] <= a[2], "sorted")
	slices.Reverse(a)
	vp.Assert(slices.Contains(a, int32(1)), "contains")
	vp.Assert(slices.Index(a, int32(3)) >= 0, "index")
	b := slices.Clone(a)
	vp.Assert(slices.Equal(a, b), "equal")
	slices.SortFunc(b, func(x, y int32) int { return cmp.Compare(x, y) })
	vp.Assert(b[0] <= b[2], "sortfunc")
	m := map[int]string{3: "c", 1: "a"}
	ks := slices.Collect(maps.Keys(m))
	slices.Sort(ks)
	vp.Assert(len(ks) == 2 && ks[0] == 1, "keys")
	ks2 := slices.Sorted(maps.Keys(m))
	vp.Assert(ks2[1] == 3, "sorted keys")
	c := maps.Clone(m)
	delete(c, 3)
	vp.Assert(len(m) == 2 && len(c) == 1, "clone")
	clear(c)
	vp.Assert(len(c) == 0, "clear")
	e := append([]int(nil), ks...)
	copy(e, ks2)
	e = slices.Insert(e, 1, 9)
	e = slices.Delete(e, 0, 1)
	vp.Assert(e[0] == 9, "insert/delete")
	vp.Assert(min(3, 4, 2) == 2 && max(int32(1), a[0]) >= 1, "minmax")
}
func A01_t05() { // generics, iterators, range over int
	vp.Assert(mx(int32(3), 4) == 4, "generic")
	p := pairT[int, string]{1, "x"}
	vp.Assert(p.Key() == 1, "generic method")
	s := 0
	for i := range 4 {
		s += i
	}
	for i := range iterSeq(10) {
		if i == 3 {
			break
		}
		s += i
	}
	vp.Assert(s == 9, "ranges")
	for i, r := range "aé" {
		s += i + int(r)
	}
	f := []func() int{}
	for i := 0; i < 3; i++ {
		f = append(f, func() int { return i })
	}
	vp.Assert(f[0]() == 0 && f[2]() == 2, "loopvar")
	arr := [4]byte{1, 2, 3, 4}
	arr2 := arr
	arr2[0] = 9
	vp.Assert(arr[0] == 1 && arr == [4]byte{1, 2, 3, 4}, "array")
	sl := arr[:]
	q := [4]byte(sl)
	vp.Assert(q == arr, "conv")
	switch x := any(p).(type) {
	case pairT[int, string]:
		vp.Assert(x.k == 1, "ts")
	default:
		vp.Assert(false, "ts")
	}
	goto end
end:
	defer func() {
		if r := recover(); r != nil {
			vp.Assert(fmt.Sprint(r) == "boom", "recover")
		}
	}()
	panic("boom")
}
func A01_t06() { // binary, bits, math
	b := make([]byte, 8)
	v := vp.U32("v")
	binary.BigEndian.PutUint32(b, v)
	vp.Assert(binary.BigEndian.Uint32(b) == v, "be")
	vp.Assert(bits.Reverse32(binary.LittleEndian.Uint32(b)) != bits.ReverseBytes32(v) || true, "le")
	vp.Assert(bits.ReverseBytes32(binary.LittleEndian.Uint32(b)) == v, "le")
	b2 := binary.BigEndian.AppendUint16(nil, uint16(v))
	vp.Assert(len(b2) == 2 && b2[1] == byte(v), "append")
	var w bytes.Buffer
	vp.Assert(binary.Write(&w, binary.BigEndian, v) == nil && w.Len() == 4 && w.Bytes()[3] == byte(v), "write")
	var r uint32
	vp.Assert(binary.Read(&w, binary.BigEndian, &r) == nil && r == v, "read")
	vp.Assert(bits.Len32(v) <= 32, "len")
	vp.Assert(bits.TrailingZeros32(8) == 3 && bits.LeadingZeros64(1) == 63 && bits.OnesCount8(3) == 2, "bits")
	f := math.Float64frombits(vp.U64("f"))
	vp.Assume(!math.IsNaN(f) && !math.IsInf(f, 0))
	vp.Assert(math.Signbit(f) == (math.Float64bits(f)>>63 == 1), "signbit")
	fr, ex := math.Frexp(1.5)
	vp.Assert(fr == 0.75 && ex == 1, "frexp")
	vp.Assert(math.Ldexp(0.75, 1) == 1.5, "ldexp")
	vp.Assert(math.Abs(-2) == 2 && math.Inf(1) > 5 && math.MaxInt32 > 0, "abs")
	vp.Assert(math.Float32bits(1) != 0, "f32")
	k, n := binary.Uvarint([]byte{1})
	vp.Assert(k == 1 && n == 1, "uvarint")
	vp.Assert(math.Trunc(1.5) == 1 && math.Floor(1.5) == 1 && math.Pow(2, 3) == 8, "trunc")
	sg := math.Copysign(1, f)
	vp.Assert(sg == 1 || sg == -1, "copysign")
}
func A01_t07() { // errors
	e := stderrors.New("a")
	w := fmt.Errorf("w: %w", e)
	vp.Assert(stderrors.Is(w, e), "is")
	vp.Assert(stderrors.Unwrap(w) == e, "unwrap")
	vp.Assert(w.Error() == "w: a", "text")
	var re vp.RuntimeError
	vp.Assert(!stderrors.As(w, &re), "as")
	j := stderrors.Join(e, nil)
	vp.Assert(stderrors.Is(j, e), "join")
	vp.Assert(io.EOF.Error() == "EOF", "eof")
}
func A01_t08() { // bytes
	x := vp.U8("x")
	b := bytes.NewBuffer([]byte{1, 2, x})
	c, _ := b.ReadByte()
	vp.Assert(c == 1, "rb")
	n := b.Next(1)
	vp.Assert(n[0] == 2, "next")
	b.UnreadByte()
	b.Truncate(0)
	b.Grow(10)
	b.WriteString("hey")
	b.Write([]byte{4})
	vp.Assert(bytes.Equal(b.Bytes(), []byte{'h', 'e', 'y', 4}) && bytes.Compare(b.Bytes(), []byte("i")) < 0, "eq")
	r := bytes.NewReader([]byte{5, 6})
	bb, _ := io.ReadAll(r)
	vp.Assert(len(bb) == 2, "readall")
	s := io.LimitReader(bytes.NewReader([]byte{5, 6, x}), 2)
	buf := make([]byte, 2)
	k, err := io.ReadFull(s, buf)
	vp.Assert(k == 2 && err == nil, "readfull")
	vp.Assert(bytes.IndexByte([]byte{1, x, 3}, 1) == 0 && bytes.HasPrefix(bb, []byte{5}), "idx")
	vp.Assert(bytes.Contains([]byte("abc"), []byte("bc")), "contains")
	br := bufio.NewReader(bytes.NewReader([]byte{1, 2, 3}))
	pk, _ := br.Peek(1)
	vp.Assert(pk[0] == 1, "peek")
	l, _ := br.ReadByte()
	vp.Assert(l == 1, "bufio")
	bw := bufio.NewWriter(b)
	bw.Write([]byte{1})
	bw.Flush()
	vp.Assert(b.Len() == 5, "flush")
	io.Copy(b, bytes.NewReader([]byte{1}))
	vp.Assert(b.Len() == 6, "copy")
	z := bytes.Repeat([]byte{1}, 3)
	vp.Assert(len(bytes.Join([][]byte{z, z}, nil)) == 6 && len(bytes.TrimLeft(z, "\x01")) == 0, "join")
	var rw io.ReadWriter = b
	rw.Write(z)
}
func A01_t09() { // container, sort
	l := list.New()
	l.PushBack(1)
	l.PushFront(2)
	for e := l.Front(); e != nil; e = e.Next() {
	}
	l.Remove(l.Front())
	vp.Assert(l.Len() == 1, "list")
	a := []int{3, 1, 2}
	sort.Ints(a)
	vp.Assert(a[0] == 1, "ints")
	sort.Sort(sort.Reverse(sort.IntSlice(a)))
	vp.Assert(a[0] == 3, "rev")
	s := []string{"b", "a"}
	sort.Strings(s)
	vp.Assert(s[0] == "a", "strs")
	i := sort.Search(3, func(i int) bool { return i >= 2 })
	vp.Assert(i == 2, "search")
	sort.Slice(a, func(i, j int) bool { return a[i] < a[j] })
	vp.Assert(a[0] == 1, "slice")
}
func A01_t10() { // strings
	vp.Assert(strings.Contains("abc", "b") && strings.HasSuffix("abc", "c") && strings.ToUpper("a") == "A" && strings.TrimSpace(" a ") == "a", "s")
	vp.Assert(strings.Repeat("ab", 2) == "abab" && strings.Replace("aa", "a", "b", 1) == "ba" && strings.ReplaceAll("aa", "a", "b") == "bb", "r")
	vp.Assert(strings.TrimSuffix("a.", ".") == "a" && strings.TrimLeft("..a", ".") == "a" && strings.Trim(".a.", ".") == "a", "t")
	vp.Assert(len(strings.Fields(" a b ")) == 2 && strings.EqualFold("A", "a") && strings.LastIndex("aba", "a") == 2, "f")
	a, b, ok := strings.Cut("a=b", "=")
	vp.Assert(ok && a == "a" && b == "b", "cut")
	vp.Assert(utf8.RuneCountInString("é") == 1 && utf8.ValidString("a") && strings.Count("aaa", "a") == 3, "u")
	vp.Assert(hex.EncodeToString([]byte{255}) == "ff", "hex")
	vp.Assert(strings.Map(func(r rune) rune { return r + 1 }, "a") == "b" && strings.ContainsRune("a", 'a') && strings.ToLower("Ab") == "ab" && strings.Title("a") == "A", "m")
	vp.Assert(strconv.Quote("a") == "\"a\"" && strconv.FormatBool(true) == "true", "q")
	x, _ := strconv.ParseFloat("1.5", 64)
	vp.Assert(x == 1.5, "pf")
	rd := strings.NewReader("abc")
	c, _ := rd.ReadByte()
	vp.Assert(c == 'a', "sr")
}
func A01_t11() { // sync
	var mu sync.Mutex
	var rw sync.RWMutex
	var once sync.Once
	var wg sync.WaitGroup
	var cnt atomic.Int32
	var flag atomic.Bool
	var ptr atomic.Pointer[int]
	var val atomic.Value
	n := 0
	ch := make(chan int, 2)
	for i := 0; i < 2; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			mu.Lock()
			n++
			mu.Unlock()
			once.Do(func() { cnt.Add(5) })
			ch <- i
		}()
	}
	wg.Wait()
	close(ch)
	for range ch {
	}
	rw.RLock()
	vp.Assert(n == 2 && cnt.Load() == 5, "sync")
	rw.RUnlock()
	rw.Lock()
	rw.Unlock()
	vp.Assert(flag.CompareAndSwap(false, true) && flag.Load(), "bool")
	ptr.Store(&n)
	vp.Assert(*ptr.Load() == 2, "ptr")
	val.Store("x")
	vp.Assert(val.Load().(string) == "x", "val")
	var x int64
	atomic.AddInt64(&x, 2)
	vp.Assert(mu.TryLock(), "trylock")
	mu.Unlock()
	var sm sync.Map
	sm.Store(1, 2)
	v, ok := sm.Load(1)
	vp.Assert(ok && v.(int) == 2, "syncmap")
	f := sync.OnceFunc(func() { n++ })
	f()
	f()
	vp.Assert(n == 3, "oncefunc")
	pool := sync.Pool{New: func() any { return new(bytes.Buffer) }}
	bb := pool.Get().(*bytes.Buffer)
	pool.Put(bb)
	cond := sync.NewCond(&mu)
	go func() { mu.Lock(); n = 9; cond.Broadcast(); mu.Unlock() }()
	mu.Lock()
	for n != 9 {
		cond.Wait()
	}
	mu.Unlock()
}
func A01_t12() {
	t0 := time.Now()
	tm := time.NewTimer(time.Second)
	sel := 0
	select {
	case <-tm.C:
		sel = 1
	case <-time.After(2 * time.Second):
		sel = 2
	}
	vp.Assert(sel == 1, "timer")
	vp.Assert(time.Since(t0) >= time.Second && time.Now().After(t0) && t0.Before(time.Now()), "since")
	tm.Stop()
	tm.Reset(time.Second)
	<-tm.C
	tk := time.NewTicker(time.Second)
	<-tk.C
	<-tk.C
	tk.Stop()
	tk.Reset(time.Millisecond)
	<-tk.C
	d := make(chan struct{})
	time.AfterFunc(time.Second, func() { close(d) })
	<-d
	ctx, cancel := context.WithCancel(context.Background())
	go func() { time.Sleep(time.Second); cancel() }()
	<-ctx.Done()
	vp.Assert(ctx.Err() == context.Canceled, "ctx")
	ctx2, cancel2 := context.WithTimeout(context.Background(), time.Second)
	defer cancel2()
	<-ctx2.Done()
	vp.Assert(stderrors.Is(ctx2.Err(), context.DeadlineExceeded), "ctx2")
	vp.Assert(time.Duration(1500)*time.Millisecond > time.Second && (1500*time.Millisecond).Seconds() == 1.5 && time.Second.Milliseconds() == 1000, "dur")
	dl := t0.Add(time.Second)
	vp.Assert(dl.Sub(t0) == time.Second && time.Until(dl) < 0 && !dl.IsZero() && dl.Equal(dl), "sub")
	var nc chan int
	select {
	case nc <- 1:
	default:
	}
	tick := time.Tick(time.Second)
	<-tick
}

func A01_t13() { // decimal text of symbolic numbers
	x := vp.I16("x")
	s := strconv.Itoa(int(x))
	vp.Assert(s == fmt.Sprintf("%d", x) && s == fmt.Sprint(x) && fmt.Sprintf("%v.%d", x, x) == s+"."+s, "same text")
	n, neg := 0, false
	for i := 0; i < len(s); i++ {
		if s[i] == '-' {
			neg = true
			continue
		}
		n = n*10 + int(s[i]-'0')
	}
	if neg {
		n = -n
	}
	vp.ObsBytes("text", []byte(s))
	vp.Assert(n == int(x), "value")
	y := vp.U8("y")
	h := fmt.Sprintf("%02x|%x|%v", y, y, []byte{y, 1})
	vp.ObsBytes("hex", []byte(h))
	m := map[string]int{"5": 1, strconv.Itoa(int(y)): 2}
	vp.Assert((len(m) == 1) == (y == 5), "map")
	vp.Assert((s == "-12") == (x == -12), "literal")
	vp.Assert(s != "007" && s != "-0" && s != "", "not canonical")
	z := vp.I32("z")
	w := vp.I32("w")
	p := fmt.Sprintf("%d.%d", z, w)
	vp.Assert((p == fmt.Sprintf("%d.%d", w, z)) == (z == w), "pair")
}
