package props

import (
	"fmt"
	"time"

	"github.com/dufourgilles/emberlib/asn1"
	"github.com/dufourgilles/emberlib/embertree"
	"github.com/dufourgilles/emberlib/errors"
	"github.com/dufourgilles/emberlib/socket"
	"verif/harness/vp"
)

// ---- a client connected to a simulated provider, in virtual time

// listen records the notifications it gets.
type listen struct {
	n, timeouts int
	from        interface{}
	err         errors.Error
	at          time.Time
	act         func()
}

func (l *listen) Receive(x interface{}, err errors.Error) {
	l.n++
	l.from, l.err, l.at = x, err, time.Now()
	if x == nil {
		l.timeouts++
	}
	if l.act != nil {
		l.act()
	}
}

func dial(c *socket.S101Client) {
	err := c.Connect("sim.test", 9000)
	vp.Assume(vp.Dialled())
	ok(err, "connect")
	vp.Assert(c.IsConnected(), "connected after Connect")
}

func newClient() (*socket.S101Client, *vp.Peer) {
	d := 2
	if vp.Thorough() {
		d = 4
	}
	vp.Delays(d)
	vp.Races()
	p := vp.NewPeer()
	return socket.NewS101Client(), p
}

// unframe splits a byte stream written by the client into frame contents.
func unframe(b []byte) [][]byte {
	var out [][]byte
	var cur []byte
	in, esc := false, false
	for _, x := range b {
		switch {
		case x == 0xfe:
			vp.Assert(!in, "frame within a frame")
			in, esc, cur = true, false, nil
		case x == 0xff:
			vp.Assert(in && !esc && len(cur) >= 6, "frame end")
			k := len(cur) - 2
			vp.Assert(uint16(cur[k])|uint16(cur[k+1])<<8 == crcRef(cur[:k]), "CRC of a sent frame")
			out = append(out, cur[:k])
			in = false
		case !in:
			vp.Fail("byte outside a frame")
		case esc:
			cur, esc = append(cur, x^0x20), false
		case x == 0xfd:
			esc = true
		default:
			vp.Assert(x < 0xf8, "unescaped reserved byte sent")
			cur = append(cur, x)
		}
	}
	vp.Assert(!in, "unfinished frame sent")
	return out
}

// sent returns the Ember messages and the keep-alive responses the client wrote.
func sent(p *vp.Peer) (msgs [][]byte, kals int) { return sentSince(p, 0) }

// sentSince ignores the first writes.
func sentSince(p *vp.Peer, from int) (msgs [][]byte, kals int) {
	return sentIn(p.Writes()[from:])
}

func sentIn(ws [][]byte) (msgs [][]byte, kals int) {
	var b []byte
	for _, w := range ws {
		b = append(b, w...)
	}
	var cur []byte
	for _, f := range unframe(b) {
		vp.Assert(f[0] == 0 && f[1] == 0x0e && f[3] == 1, "frame header sent")
		if f[2] == 2 {
			vp.Assert(len(f) == 4, "keep-alive response")
			kals++
			continue
		}
		vp.Assert(f[2] == 0 && len(f) >= 9, "command sent")
		vp.Assert(f[5] == 1 && f[6] == 2, "DTD sent")
		if f[4]&0x80 != 0 {
			cur = nil
		}
		cur = append(cur, f[9:]...)
		if f[4]&0x40 != 0 {
			msgs = append(msgs, cur)
		}
	}
	return
}

func packet(msg []byte) []byte { return s101(ember(0xc0, msg...)...) }

// qreq is the directory request of an element addressed by its path.
func qreq(kind int, path oid) []byte {
	return rootMsg(1, elemMsg(1, qualTag[kind], berOID(path), nil, emptyTail(1, kind, cmdMsg(1))...))
}

func rootReq() []byte { return rootMsg(1, cmdMsg(1)) }

func wantSent(p *vp.Peer, want ...[]byte) {
	msgs, _ := sent(p)
	vp.Assert(len(msgs) == len(want), "number of messages sent")
	for i := range want {
		sameBER(msgs[i], want[i], "message sent")
	}
}

// ck is an element with fixed contents: symbolic ones multiply the paths by
// the escapes of their checksums.
func ck(kind int, num int32, kids ...*em) *em {
	return &em{kind: kind, num: num, has: true, id: string(rune('a' + num)), val: int64(num), kids: kids}
}

// node is a stand-alone element the user holds.
func node(n int32) *embertree.Element { return embertree.NewNode(int(n)) }

// ---------------------------------------------------------------- C27

// C27_client : 1..3 keep-alive requests in pieces cut anywhere, with 0..2 requests queued: each is answered once with the response frame; responses
// of the peer are not answered.
func C27_client() {
	c, p := newClient()
	q := vp.Choose("queued", 3)
	for i := 0; i < q; i++ {
		ok(c.GetDirectory(node(int32(i+1)), nil), "queue")
	}
	dial(c)
	if vp.Choose("later", 2) == 1 {
		vp.Sleep(130)
	}
	k := 1 + vp.Choose("requests", 3)
	resp := vp.Choose("responses", 2)
	var b []byte
	for i := 0; i < k; i++ {
		b = append(b, s101(kal(1)...)...)
		if i < resp {
			b = append(b, s101(kal(2)...)...)
		}
	}
	cut := vp.Choose("cut", 9)
	p.Send(b[:cut])
	if vp.Choose("gap", 2) == 1 {
		vp.Sleep(250)
	}
	p.Send(b[cut:])
	vp.Sleep(1)
	_, kals := sent(p)
	vp.Assert(kals == k, "every request answered at once")
	vp.Sleep(400)
	msgs, kals := sent(p)
	vp.Assert(kals == k, "every request answered once")
	vp.Assert(len(msgs) == q, "queued messages sent as well")
	vp.Assert(c.IsConnected(), "still connected")
}

// C27_backlog : a keep-alive request is answered at once although 20 messages are queued.
func C27_backlog() {
	c, p := newClient()
	for i := 0; i < 20; i++ {
		ok(c.GetDirectory(node(int32(i+1)), nil), "queue")
	}
	dial(c)
	vp.Sleep(10)
	p.Send(s101(kal(1)...))
	vp.Sleep(1)
	msgs, kals := sent(p)
	vp.Assert(kals == 1, "answered before the queue is empty")
	vp.Assert(len(msgs) < 20, "messages still queued")
	vp.Sleep(3000)
	msgs, kals = sent(p)
	vp.Assert(kals == 1 && len(msgs) == 20, "everything sent")
}

// ---------------------------------------------------------------- C29

// C29_order : 0..6 requests to elements of any type, made before and after connecting in any split: all sent, once, in order.
func C29_order() {
	c, p := newClient()
	n := vp.Choose("n", 7)
	before := vp.Choose("before", n+1)
	kind := vp.Choose("kind", 4)
	pause := []int{0, 60, 150}[vp.Choose("pause", 3)]
	var want [][]byte
	add := func(i int) {
		k := (kind + i) % 4
		ok(c.GetDirectory(ck(k, int32(i)).build(), nil), "request accepted")
		want = append(want, qreq(k, oid{int32(i)}))
	}
	for i := 0; i < before; i++ {
		add(i)
	}
	dial(c)
	for i := before; i < n; i++ {
		vp.Sleep(pause)
		add(i)
	}
	vp.Sleep(100 * (n + 2))
	wantSent(p, want...)
	vp.Sleep(300)
	wantSent(p, want...)
}

// C29_any : two requests, the first or second at depth 1 or 2, of any element type, with any number 0..127: both sent in order.
func C29_any() {
	c, p := newClient()
	dial(c)
	var want [][]byte
	pick := vp.Choose("pick", 2)
	for i := 0; i < 2; i++ {
		if i != pick {
			ok(c.GetDirectory(node(9), nil), "request accepted")
			want = append(want, qreq(mNode, oid{9}))
			continue
		}
		kind := vp.Choose("kind", 4)
		n := int32(vp.U8("n") & 0x7f)
		e := ck(kind, n).bare().build()
		path := oid{n}
		if vp.Choose("deep", 2) == 1 {
			ok(node(3).AddChild(e), "child")
			path = oid{3, n}
		}
		ok(c.GetDirectory(e, nil), "request accepted")
		want = append(want, qreq(kind, path))
	}
	vp.Sleep(400)
	wantSent(p, want...)
}

// C29_limit : requests on an unconnected client up to and beyond the queue size: exactly those beyond 256 are refused; the accepted ones are
// sent in order, after which requests are accepted again.
func C29_limit() {
	c, p := newClient()
	vp.MaxSteps(20000000)
	over := vp.Choose("over", 3)
	l := &listen{}
	var want [][]byte
	if vp.Choose("timeout", 2) == 1 {
		c.SetTimeout(100000)
	}
	for i := 0; i < 256+over; i++ {
		x := int32(i % 128)
		err := c.GetDirectory(node(x), l)
		vp.Assert((err == nil) == (i < 256), "queue limit")
		if err == nil {
			want = append(want, qreq(mNode, oid{x}))
		}
	}
	dial(c)
	vp.Sleep(12000)
	ok(c.GetDirectory(node(5), nil), "accepted again")
	vp.Sleep(300)
	want = append(want, qreq(mNode, oid{5}))
	wantSent(p, want...)
	vp.Assert(l.n == 0, "no answer, no time out")
}

// C29_concurrent : two goroutines each making 1..3 requests while connected, any interleaving: all sent once, in the order of each goroutine.
func C29_concurrent() {
	c, p := newClient()
	dial(c)
	na, nb := 1+vp.Choose("na", 3), 1+vp.Choose("nb", 3)
	done := make(chan bool, 2)
	run := func(base, n int) {
		for i := 0; i < n; i++ {
			if c.GetDirectory(node(int32(base+i)), nil) != nil {
				done <- false
				return
			}
			vp.Yield()
		}
		done <- true
	}
	go run(10, na)
	go run(20, nb)
	a := <-done
	b := <-done
	vp.Assert(a && b, "requests accepted")
	vp.Sleep(800)
	msgs, _ := sent(p)
	vp.Assert(len(msgs) == na+nb, "number of messages sent")
	next := [2]int{}
	for _, m := range msgs {
		k := 0
		if next[0] < na && vp.EqBytes(m, msgOf(10+next[0])) {
			next[0]++
			k++
		} else if next[1] < nb && vp.EqBytes(m, msgOf(20+next[1])) {
			next[1]++
			k++
		}
		vp.Assert(k == 1, "message out of order")
	}
}

// msgOf is the message the library builds for the directory request of a node.
func msgOf(n int) []byte {
	w := asn1.ASNWriter{}
	ok(node(int32(n)).GetQualifiedDirectoryMsg(nil).Encode(&w), "encode")
	b := make([]byte, w.Len())
	w.Read(b)
	return b
}

// ---------------------------------------------------------------- C30

func answer(path oid, kind int) []byte {
	return packet(rootMsg(0, ck(kind, path[len(path)-1]).qmsg(0, path)))
}

// rooted returns a client that already received a root node 1 and holds it.
func rooted() (*socket.S101Client, *vp.Peer, *embertree.RootElement) {
	c, p := newClient()
	dial(c)
	l := &listen{}
	ok(c.GetDirectory(nil, l), "root request")
	vp.Sleep(20)
	p.Send(packet(rootMsg(0, ck(mNode, 1, ck(mParam, 1)).msg(0), ck(mNode, 2).msg(0))))
	vp.Sleep(120)
	tree, is := l.from.(*embertree.RootElement)
	vp.Assert(l.n == 1 && is, "root received")
	tree.RemoveListener(l)
	return c, p, tree
}

// C30_once : one request (root, root element, child, or an element of the user) with a time out of 50, 100, 101, 250 or 400 ms and an answer after 0, 49, 75, 120, 260 or 600 ms or
// never: answered in time there is no time out, else exactly one, at the right moment; the answer is reported in any case.
func C30_once() {
	c, p, tree := rooted()
	to := []int{50, 100, 101, 250, 400}[vp.Choose("timeout", 5)]
	after := []int{0, 49, 75, 120, 260, 600, -1}[vp.Choose("answer", 7)]
	vp.Assume(after < 0 || after+1 < to || after > to+1)
	c.SetTimeout(to)
	if vp.Choose("negative", 2) == 1 {
		c.SetTimeout(-5)
	}
	l := &listen{}
	start := time.Now()
	var reply []byte
	switch vp.Choose("target", 3) {
	case 0:
		ok(c.GetDirectory(nil, l), "request")
		reply = packet(rootMsg(0, ck(mNode, 1).msg(0)))
	case 1:
		ok(c.GetDirectory(tree.GetElementByNumber(1), l), "request")
		reply = answer(oid{1}, mNode)
	case 2:
		_, e := tree.GetElementByPath(oid{1, 1})
		ok(c.GetDirectory(e, l), "request")
		reply = answer(oid{1, 1}, mParam)
	}
	if after >= 0 {
		vp.Sleep(after)
		p.Send(reply)
		vp.Sleep(1)
	}
	vp.Sleep(1000)
	switch {
	case after < 0:
		vp.Assert(l.n == 1 && l.timeouts == 1 && l.err != nil, "one time out")
		d := int(l.at.Sub(start) / time.Millisecond)
		vp.Assert(d >= to && d <= to+150, "moment of the time out")
	case after < to:
		vp.Assert(l.n == 1 && l.timeouts == 0 && l.from != nil && l.err == nil, "answer reported, no time out")
	default:
		vp.Assert(l.timeouts == 1, "one time out before the late answer")
		vp.Assert(l.n == 2 && l.from != nil && l.err == nil, "late answer reported")
	}
	vp.Assert(c.IsConnected(), "still connected")
}

// C30_two : two requests with a time out of 200 ms made 0, 80 or 150 ms apart, to the same or different elements, either, both or none answered at one of several moments: the time out
// of each fires exactly when its element was not updated in time.
func C30_two() {
	c, p, tree := rooted()
	c.SetTimeout(200)
	e1, e2 := tree.GetElementByNumber(1), tree.GetElementByNumber(2)
	same := vp.Choose("same", 2) == 1
	if same {
		e2 = e1
	}
	gap := []int{0, 80, 150}[vp.Choose("gap", 3)]
	first := vp.Choose("first", 2) == 1 // answer of e1 before the second request
	late := vp.Choose("second", 3)      // answers afterwards: none, e1, e2
	la, lb := &listen{}, &listen{}
	ok(c.GetDirectory(e1, la), "request")
	vp.Sleep(10)
	if first {
		p.Send(answer(oid{1}, mNode))
		vp.Sleep(1)
	}
	vp.Sleep(gap)
	ok(c.GetDirectory(e2, lb), "request")
	vp.Sleep(20)
	switch late {
	case 1:
		p.Send(answer(oid{1}, mNode))
	case 2:
		p.Send(answer(oid{int32(e2.Number)}, mNode))
	}
	vp.Sleep(1000)
	a1 := first || late == 1 || (late == 2 && same)
	a2 := late == 2 || (late == 1 && same)
	vp.Assert(la.timeouts == vp.IteInt(a1, 0, 1), "time out of the first request")
	vp.Assert(lb.timeouts == vp.IteInt(a2, 0, 1), "time out of the second request")
}

// C30_none : without a time out (never set, 0 or negative) nothing fires within an hour; a request refused by a full queue does not fire either; a
// request without a callback times out silently.
func C30_none() {
	c, p, tree := rooted()
	l := &listen{}
	switch vp.Choose("case", 5) {
	case 0:
	case 1:
		c.SetTimeout(0)
	case 2:
		c.SetTimeout(-1)
	case 3:
		c.SetTimeout(40)
		c.SetTimeout(0)
	case 4:
		c.SetTimeout(50)
		ok(c.GetDirectory(tree.GetElementByNumber(1), nil), "request")
		vp.Sleep(700)
		p.Send(answer(oid{1}, mNode))
		vp.Sleep(200)
		vp.Assert(c.IsConnected(), "connected")
		return
	}
	ok(c.GetDirectory(tree.GetElementByNumber(1), l), "request")
	vp.Sleep(30000)
	vp.Assert(l.n == 0, "nothing without an answer")
	p.Send(answer(oid{1}, mNode))
	vp.Sleep(200)
	vp.Assert(l.n == 1 && l.timeouts == 0, "answer")
}

// ---------------------------------------------------------------- C31

// provider answers directory requests for a tree of models.
type provider struct {
	p     *vp.Peer
	roots []*em
	asked [][]byte // requests seen
	plain bool     // answer along the path instead of qualified
	mute  oid      // path never answered
	f     forms
	all   []known
	seen  int // writes seen
}

// known is the request expected for an element.
type known struct {
	path oid
	el   *em
	msg  []byte
}

func (s *provider) find(msg []byte) (oid, *em) {
	if s.all == nil {
		s.all = append(s.all, known{oid{}, nil, s.request(nil)})
		var walk func(p oid, ms []*em)
		walk = func(p oid, ms []*em) {
			for _, m := range ms {
				q := append(append(oid{}, p...), m.num)
				s.all = append(s.all, known{q, m, s.request(append([]int32{int32(m.kind)}, q...))})
				walk(q, m.kids)
			}
		}
		walk(oid{}, s.roots)
	}
	for _, k := range s.all {
		if vp.EqBytes(msg, k.msg) {
			return k.path, k.el
		}
	}
	vp.Fail("request for an element that is not in the tree")
	return nil, nil
}

// request is the message the library sends for a path (preceded by the kind of the element).
func (s *provider) request(kp []int32) []byte {
	w := asn1.ASNWriter{}
	if kp == nil {
		r, err := embertree.NewTree().GetDirectoryMsg(nil)
		ok(err, "request")
		ok(r.Encode(&w), "encode")
	} else {
		var e *embertree.Element
		for i, n := range kp[1:] {
			k := mNode
			if i == len(kp)-2 {
				k = int(kp[0])
			}
			c := mk(k, n).bare().build()
			if e != nil {
				ok(e.AddChild(c), "child")
			}
			e = c
		}
		ok(e.GetQualifiedDirectoryMsg(nil).Encode(&w), "encode")
	}
	b := make([]byte, w.Len())
	w.Read(b)
	return b
}

func shallow(m *em) *em { n := *m; n.kids = nil; return &n }

func (s *provider) reply(path oid, m *em) [][]byte {
	if m == nil {
		var els [][]byte
		for _, r := range s.roots {
			els = append(els, shallow(r).msg(s.f))
		}
		return [][]byte{packet(rootMsg(s.f, els...))}
	}
	a := shallow(m)
	for _, k := range m.kids {
		a.kids = append(a.kids, shallow(k))
	}
	if s.plain {
		t := &em{kids: s.roots}
		var chain []*em
		for _, n := range path[:len(path)-1] {
			t = t.child(n)
			chain = append(chain, t)
		}
		for i := len(chain) - 1; i >= 0; i-- {
			b := shallow(chain[i]).bare()
			b.kids = []*em{a}
			a = b
		}
		return [][]byte{packet(rootMsg(s.f, a.msg(s.f)))}
	}
	return [][]byte{packet(rootMsg(s.f, a.qmsg(s.f, path)))}
}

// serve answers what arrived since the last call; it returns the number of new requests.
func (s *provider) serve() int {
	ws := s.p.Writes()[s.seen:]
	s.seen += len(ws)
	msgs, _ := sentIn(ws)
	n := 0
	for _, m := range msgs {
		s.asked = append(s.asked, m)
		n++
		path, el := s.find(m)
		if s.mute != nil && eqOID(path, s.mute) {
			continue
		}
		for _, r := range s.reply(path, el) {
			s.p.Send(r)
		}
	}
	return n
}

func shape(i int) []*em {
	switch i {
	case 0:
		return nil
	case 1:
		return []*em{ck(mNode, 1)}
	case 2:
		return []*em{ck(mNode, 1, ck(mParam, 1), ck(mNode, 2))}
	case 3:
		return []*em{ck(mNode, 1, ck(mNode, 1, ck(mNode, 1, ck(mParam, 9))))}
	case 4:
		return []*em{ck(mParam, 3), ck(mFunc, 4)}
	case 5:
		return []*em{ck(mNode, 1, ck(mNode, 1), ck(mNode, 2)), ck(mNode, 2, ck(mMatrix, 7))}
	}
	return nil
}

func size(ms []*em) int {
	n := 0
	for _, m := range ms {
		n += 1 + size(m.kids)
	}
	return n
}

func anyProvider(p *vp.Peer, shapes int) *provider {
	return &provider{p: p, roots: shape(vp.Choose("shape", shapes)), plain: vp.Choose("plain", 2) == 1, f: forms(vp.Choose("form", 2))}
}

// C31_tree : six tree shapes of up to 5 elements with arbitrary contents, replies qualified or along the path, both forms, with and without time outs: every element is
// requested exactly once, the listener is called exactly once, after the last reply, with the complete tree.
func C31_tree() {
	c, p := newClient()
	dial(c)
	s := anyProvider(p, 6)
	if vp.Choose("timeout", 2) == 1 {
		c.SetTimeout(500)
	}
	l := &listen{}
	ok(c.GetTree(l), "GetTree")
	total := size(s.roots) + 1
	for i := 0; i < 4*total+6; i++ {
		vp.Sleep(60)
		if len(s.asked) < total {
			vp.Assert(l.n == 0, "completion before the last reply")
		}
		s.serve()
	}
	vp.Assert(len(s.asked) == total, "every element requested once")
	vp.Assert(l.n == 1 && l.err == nil, "listener called exactly once, without error")
	tree, is := l.from.(*embertree.RootElement)
	vp.Assert(is, "listener gets the tree")
	checkRoot(tree, s.roots, "tree received")
	vp.Sleep(1500)
	vp.Assert(l.n == 1, "listener called exactly once")
}

// C31_mute : one element of the tree (or the root) is never answered, time out 300 ms: the listener is called exactly once, with an error, within the time out of the
// last request.
func C31_mute() {
	c, p := newClient()
	dial(c)
	s := anyProvider(p, 6)
	switch vp.Choose("mute", 4) {
	case 0:
		s.mute = oid{}
	case 1:
		s.mute = oid{1}
	case 2:
		s.mute = oid{1, 2}
	case 3:
		s.mute = oid{1, 1}
	}
	t := &model{roots: s.roots}
	vp.Assume(len(s.mute) == 0 || t.at(s.mute) != nil)
	c.SetTimeout(300)
	l := &listen{}
	ok(c.GetTree(l), "GetTree")
	for i := 0; i < 40; i++ {
		vp.Sleep(60)
		s.serve()
	}
	vp.Assert(l.n == 1, "listener called exactly once")
	vp.Assert(l.err != nil, "time out reported")
	vp.Sleep(1500)
	vp.Assert(l.n == 1, "listener called exactly once")
}

// C31_updates : unsolicited updates of any element arrive between the replies: the listener is still called exactly once, never before every request was answered.
func C31_updates() {
	c, p := newClient()
	dial(c)
	s := anyProvider(p, 4)
	extra := vp.Choose("extra", 4)
	when := vp.Choose("when", 4)
	l := &listen{}
	ok(c.GetTree(l), "GetTree")
	total := size(s.roots) + 1
	for i := 0; i < 4*total+6; i++ {
		vp.Sleep(60)
		s.serve()
		if i == when && extra > 0 && len(s.roots) > 0 && s.roots[0].kind == mNode {
			m := ck(mNode, 1)
			s.roots[0].id, s.roots[0].val = m.id, m.val
			for j := 0; j < extra; j++ {
				p.Send(packet(rootMsg(0, m.msg(0))))
			}
		}
	}
	vp.Assert(len(s.asked) == total, "every element requested once")
	vp.Assert(l.n == 1 && l.err == nil, "listener called exactly once, without error")
}

// C31_twice : GetTree a second time with another listener: each is called exactly once per call.
func C31_twice() {
	c, p := newClient()
	dial(c)
	s := anyProvider(p, 3)
	la, lb := &listen{}, &listen{}
	ok(c.GetTree(la), "GetTree")
	for i := 0; i < 12; i++ {
		vp.Sleep(60)
		s.serve()
	}
	vp.Assert(la.n == 1 && lb.n == 0, "first call")
	ok(c.GetTree(lb), "GetTree")
	for i := 0; i < 12; i++ {
		vp.Sleep(60)
		s.serve()
	}
	vp.Assert(la.n == 1 && lb.n == 1 && lb.err == nil, "second call")
	tree, is := lb.from.(*embertree.RootElement)
	vp.Assert(is && la.from == lb.from, "the same tree")
	checkRoot(tree, s.roots, "tree received")
}

// ---------------------------------------------------------------- C32

// C32_states : any sequence of 4 (5 thorough) operations out of Connect (to one address or to different ones), Disconnect, remote close, remote reset, pause and an unreachable network: IsConnected and the results of
// Connect and Disconnect follow the connection; no connection is left open.
func C32_states() {
	c, p := newClient()
	n := 4
	if vp.Thorough() {
		n = 5
	}
	up, stale := false, false // stale: ended remotely, not noticed for certain
	dials := 0
	vary := vp.Choose("vary", 3)
	where := func(i int) (string, uint16) {
		switch vary {
		case 1:
			return "sim.test", uint16(9000 + i)
		case 2:
			return []string{"sim.test", "sim.example", "10.0.0.1"}[i%3], 9000
		}
		return "sim.test", 9000
	}
	for i := 0; i < n; i++ {
		switch vp.Choose("op", 6) {
		case 0:
			host, port := where(i)
			err := c.Connect(host, port)
			vp.Assume(vp.Dialled())
			if up {
				vp.Assert(err != nil, "connected twice")
			} else {
				ok(err, "connect")
				dials++
				vp.Assert(vp.EqStr(p.Address(), fmt.Sprintf("%s:%d", host, port)), "where it connects")
			}
			up = true
		case 1:
			err := c.Disconnect()
			vp.Assert((err == nil) == up, "result of Disconnect")
			up = false
		case 2, 3:
			if up {
				p.Close(vp.Choose("reset", 2) == 1)
				vp.Sleep(250)
				up = false
			}
		case 4:
			vp.Sleep(70)
		case 5:
			p.SetRefuse(true)
			if !up {
				vp.Assert(c.Connect("sim.test", 9000) != nil, "connect to an unreachable peer")
			}
			p.SetRefuse(false)
		}
		_ = stale
		vp.Assert(c.IsConnected() == up, "IsConnected")
		vp.Assert(p.Dials() == dials, "connections made")
	}
	vp.Sleep(300)
	want := 0
	if up {
		want = 1
	}
	vp.Assert(p.Open() == want, "connections left open")
	vp.Assert(c.IsConnected() == up, "IsConnected")
}

// C32_again : after any of three kinds of disconnection, in the middle of a frame or not, with requests pending or not, a new connection works: requests are sent on it and
// its messages, and only they, are received.
func C32_again() {
	c, p, tree := rooted()
	part := answer(oid{1}, mNode)
	cut := vp.Choose("cut", len(part))
	p.Send(part[:cut])
	vp.Sleep(5)
	if vp.Choose("pending", 2) == 1 {
		ok(c.GetDirectory(tree.GetElementByNumber(2), nil), "request")
	}
	switch vp.Choose("how", 3) {
	case 0:
		ok(c.Disconnect(), "disconnect")
	case 1:
		p.Close(false)
	case 2:
		p.Close(true)
	}
	vp.Sleep(300)
	vp.Assert(!c.IsConnected() && p.Open() == 0, "disconnected")
	dial(c)
	l := &listen{}
	e := tree.GetElementByNumber(1)
	ok(c.GetDirectory(e, l), "request")
	vp.Sleep(300)
	msgs, _ := sent(p)
	conns := p.WriteConns()
	vp.Assert(len(msgs) >= 2 && conns[len(conns)-1] == 1, "request sent on the new connection")
	sameBER(msgs[len(msgs)-1], qreq(mNode, oid{1}), "request")
	vp.Assert(l.n == 0, "nothing received yet")
	m := ck(mNode, 1)
	p.Send(packet(rootMsg(0, m.qmsg(0, oid{1}))))
	vp.Sleep(200)
	vp.Assert(l.n == 1 && l.err == nil, "answer received")
	m.kids = []*em{ck(mParam, 1)}
	m.check(e, nil, nil, "element")
}

// C32_pending : data received before the peer closes is processed; in one piece or two.
func C32_pending() {
	c, p, tree := rooted()
	l := &listen{}
	tree.GetElementByNumber(1).AddListener(l)
	b := append(answer(oid{1}, mNode), answer(oid{1}, mNode)...)
	cut := vp.Choose("cut", len(b))
	p.Send(b[:cut])
	p.Send(b[cut:])
	p.Close(vp.Choose("reset", 2) == 1)
	vp.Sleep(300)
	vp.Assert(l.n == 2, "messages before the end of the connection")
	vp.Assert(!c.IsConnected() && p.Open() == 0, "disconnected")
}

// C32_malformed : a frame holding 0..3 arbitrary bytes (0..4 thorough) instead of a message does not end the connection; later messages are received.
func C32_malformed() {
	c, p, tree := rooted()
	l := &listen{}
	tree.GetElementByNumber(1).AddListener(l)
	n := 4
	if vp.Thorough() {
		n = 5
	}
	p.Send(packet(vp.Bytes("b", vp.Choose("n", n))))
	vp.Sleep(150)
	vp.Assert(l.n == 0 && c.IsConnected(), "malformed message")
	p.Send(answer(oid{1}, mNode))
	vp.Sleep(150)
	vp.Assert(l.n == 1 && l.err == nil && c.IsConnected(), "later message")
}

// C32_failing : writes fail for a while (the requests are lost): the client goes on receiving and later requests are sent.
func C32_failing() {
	c, p, tree := rooted()
	l := &listen{}
	e := tree.GetElementByNumber(1)
	e.AddListener(l)
	p.SetFailTx(true)
	for i := vp.Choose("lost", 3); i > 0; i-- {
		c.GetDirectory(e, nil)
	}
	vp.Sleep(250)
	p.Send(answer(oid{1}, mNode))
	vp.Sleep(120)
	if c.IsConnected() {
		vp.Assert(l.n == 1, "still receiving")
	}
	p.SetFailTx(false)
	if !c.IsConnected() {
		dial(c)
	}
	before, _ := sent(p)
	ok(c.GetDirectory(e, nil), "request")
	vp.Sleep(250)
	msgs, _ := sent(p)
	vp.Assert(len(msgs) == len(before)+1, "later request sent")
}
