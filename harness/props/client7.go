package props

import (
	"github.com/dufourgilles/emberlib/asn1"
	"github.com/dufourgilles/emberlib/embertree"
	"github.com/dufourgilles/emberlib/socket"
	"verif/harness/vp"
)

// ---------------------------------------------------------------- C38

// C38_clients : two connected clients with different settings request and receive at the same time, their answers cut and arriving in turns; one of them is closed by either side: each sends its own
// requests, has its own tree and notifications, and the other goes on.
func C38_clients() {
	c1, p, t1 := rooted()
	vp.Delays(1)
	c2 := socket.NewS101Client()
	dial(c2)
	l := &listen{}
	ok(c2.GetDirectory(nil, l), "root request")
	vp.Sleep(120)
	p.SendTo(1, packet(rootMsg(1, ck(mFunc, 1).msg(1), ck(mNode, 5).msg(1))))
	vp.Sleep(20)
	t2, is := l.from.(*embertree.RootElement)
	vp.Assert(l.n == 1 && is && t1 != t2, "root received by the other client")
	t2.RemoveListener(l)
	from := len(p.Writes())
	c1.SetTimeout(1000)
	silent := vp.Choose("silent", 2) == 1
	c2.SetTimeout(300)
	l1, l2 := &listen{}, &listen{}
	ok(c1.GetDirectory(t1.GetElementByNumber(1), l1), "request 1")
	ok(c2.GetDirectory(t2.GetElementByNumber(5), l2), "request 2")
	vp.Sleep(130)
	for i, want := range []oid{{1}, {5}} {
		var ws [][]byte
		for j, n := range p.WriteConns() {
			if j >= from && n == i {
				ws = append(ws, p.Writes()[j])
			}
		}
		msgs, _ := sentIn(ws)
		vp.Assert(len(msgs) == 1, "one request on each connection")
		sameBER(msgs[0], rootMsg(1, mk(mNode, want[0]).cmdTo(want)), "request on its connection")
	}
	a1 := packet(rootMsg(0, ck(mNode, 1, ck(mParam, 1), ck(mNode, 2)).qmsg(0, oid{1})))
	a2 := packet(rootMsg(0, ck(mNode, 5, ck(mParam, 3)).qmsg(0, oid{5})))
	k1, k2 := 1+vp.Choose("k1", len(a1)-1), len(a2)/2
	p.SendTo(0, a1[:k1])
	if !silent {
		p.SendTo(1, a2[:k2])
	}
	vp.Sleep(10 * vp.Choose("gap", 2))
	p.SendTo(0, a1[k1:])
	if !silent {
		p.SendTo(1, a2[k2:])
	}
	vp.Sleep(50)
	vp.Assert(l1.n == 1 && l1.timeouts == 0, "answer of the first client")
	roots1 := []*em{ck(mNode, 1, ck(mParam, 1), ck(mNode, 2)), ck(mNode, 2)}
	roots2 := []*em{ck(mFunc, 1), ck(mNode, 5)}
	if !silent {
		vp.Assert(l2.n == 1 && l2.timeouts == 0, "answer of the second client")
		roots2[1].kids = append(roots2[1].kids, ck(mParam, 3))
	}
	checkRoot(t1, roots1, "first tree")
	checkRoot(t2, roots2, "second tree")
	vp.Sleep(250)
	if silent {
		vp.Assert(l2.n == 1 && l2.timeouts == 1, "time-out of the second client")
	}
	vp.Assert(l1.n == 1, "first client told again")
	if vp.Choose("peer", 2) == 1 {
		p.Close(false)
		vp.Sleep(20)
	} else {
		ok(c2.Disconnect(), "disconnect")
	}
	vp.Sleep(20)
	vp.Assert(c1.IsConnected() && !c2.IsConnected() && p.Open() == 1, "only one is closed")
	p.SendTo(0, answer(oid{1}, mNode))
	vp.Sleep(20)
	vp.Assert(l1.n == 2, "update of the first client")
}

// cmdTo is the request for the directory of the element at path, as a member of a root.
func (m *em) cmdTo(path oid) []byte {
	f := forms(1)
	return f.c(qualTag[m.kind], f.c(ctx(0), berOID(path)), f.c(ctx(2), f.c(app(4), f.c(ctx(0), cmdMsg(f)))))
}

// C38_held : what a listener was given, a buffer, path or string, stays when later messages of the same or another size and keep-alives arrive through the same connection.
func C38_held() {
	c, p, tree := rooted()
	vp.Delays(1)
	e := tree.GetElementByNumber(1).Children[1]
	f := forms(vp.Choose("form", 2))
	val := []val{{k: kBuf, buf: []byte{1, 2, 3}}, {k: kOID, o: asn1.RelativeOID{4, 500}}, {k: kStr, s: "held"}}
	kind := vp.Choose("kind", 3)
	msg := func(v []byte) []byte {
		return packet(rootMsg(f, f.c(app(9), f.c(ctx(0), berOID(oid{1, 1})), f.c(ctx(1), setOf(f, fld{0, berStr("id")}, fld{2, v})))))
	}
	var held *embertree.ContentParameter
	l := &listen{}
	l.act = func() {
		if l.n == 1 {
			held = e.GetContent().(*pc).GetValueObject()
		}
	}
	e.AddListener(l)
	p.Send(msg(val[kind].ber()))
	vp.Sleep(20)
	vp.Assert(l.n == 1 && held != nil, "message received")
	s, _ := held.GetString()
	b, _ := held.GetBuffer()
	o, _ := held.GetRelativeOID()
	for i := 0; i < 2; i++ {
		switch vp.Choose("next", 4) {
		case 0:
			p.Send(msg(tlv(val[kind].ber()[0], []byte{9, 8, 7, 6}[:len(val[kind].ber())-2])))
		case 1:
			p.Send(msg(berStr("a longer value than the one before")))
		case 2:
			p.Send(s101(kal(1)...))
		case 3:
			p.Send([]byte{1, 2, 3, 0xfe, 0xff, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5})
		}
		vp.Sleep(20)
	}
	switch kind {
	case 0:
		vp.Assert(vp.EqBytes(b, val[0].buf), "buffer held")
	case 1:
		vp.Assert(eqOID(o, val[1].o), "path held")
	case 2:
		vp.Assert(s == val[2].s, "string held")
	}
	vp.Assert(c.IsConnected(), "connected")
}

// ---------------------------------------------------------------- C31

// C31_lost : the tree is fetched from before or after connecting with a time-out of 500 ms, and the connection ends (Disconnect, close or reset) at one of six moments, or never, and
// is made anew or not: the listener is called exactly once, without error and with the complete tree exactly when every request reached a peer that answers.
func C31_lost() {
	c, p := newClient()
	vp.Delays(1)
	roots := []*em{ck(mNode, 1, ck(mParam, 1), ck(mNode, 2)), ck(mFunc, 2)}
	s := &provider{p: p, roots: roots, plain: vp.Choose("plain", 2) == 1, f: 1}
	c.SetTimeout(500)
	l := &listen{}
	if vp.Choose("early", 2) == 1 {
		ok(c.GetTree(l), "GetTree")
		vp.Sleep(50)
		dial(c)
	} else {
		dial(c)
		ok(c.GetTree(l), "GetTree")
	}
	when, how, again := vp.Choose("when", 7), 0, true
	if when < 6 {
		how, again = vp.Choose("how", 3), vp.Choose("again", 2) == 1
	}
	lost, cut := false, false
	for i := 0; i < 40; i++ {
		vp.Sleep(60)
		if c.IsConnected() {
			s.serve()
		}
		if i != when {
			continue
		}
		vp.Sleep(30)
		cut = l.n == 0
		if how == 0 {
			ok(c.Disconnect(), "disconnect")
		} else {
			p.Close(how == 2)
		}
		vp.Sleep(130)
		vp.Assert(!c.IsConnected(), "disconnected")
		msgs, _ := sentIn(p.Writes()[s.seen:])
		lost = len(msgs) > 0
		s.seen = len(p.Writes())
		if again {
			dial(c)
		}
	}
	vp.Assert(l.n == 1, "listener called exactly once")
	complete := !cut || again && !lost
	vp.Assert((l.err == nil) == complete, "without error exactly when everything was answered")
	if complete {
		tree, is := l.from.(*embertree.RootElement)
		vp.Assert(is, "listener gets the tree")
		checkRoot(tree, roots, "tree received")
	}
	vp.Sleep(1500)
	vp.Assert(l.n == 1, "listener called exactly once")
}

// C31_late : one element of the tree is answered only after the time-out, once or twice, and the tree is then fetched again or not: the listener is called exactly once, with an error; a later one with the
// complete tree.
func C31_late() {
	c, p := newClient()
	vp.Delays(1)
	dial(c)
	roots := []*em{ck(mNode, 1, ck(mParam, 1), ck(mNode, 2)), ck(mFunc, 2)}
	s := &provider{p: p, roots: roots, plain: vp.Choose("plain", 2) == 1, f: 1}
	s.mute = []oid{{1}, {1, 2}, {2}, {}}[vp.Choose("mute", 4)]
	c.SetTimeout(300)
	l := &listen{}
	ok(c.GetTree(l), "GetTree")
	for i := 0; i < 20; i++ {
		vp.Sleep(60)
		s.serve()
	}
	vp.Assert(l.n == 1 && l.err != nil, "time-out reported")
	s.mute, s.seen = nil, len(p.Writes())
	late := vp.Choose("late", 3)
	for i := 0; i < late; i++ {
		p.Send(s.reply(nil, nil)[0])
		p.Send(s.reply(oid{1}, roots[0])[0])
		p.Send(s.reply(oid{1, 2}, roots[0].kids[1])[0])
		p.Send(s.reply(oid{2}, roots[1])[0])
		vp.Sleep(60)
	}
	l2 := &listen{}
	ok(c.GetTree(l2), "GetTree")
	from := len(s.asked)
	for i := 0; i < 30; i++ {
		vp.Sleep(60)
		s.serve()
	}
	vp.Assert(l.n == 1, "listener called exactly once")
	vp.Assert(l2.n == 1 && l2.err == nil, "later listener called exactly once, without error")
	vp.Assert(len(s.asked)-from == 5, "every element requested once again")
	tree, is := l2.from.(*embertree.RootElement)
	vp.Assert(is, "listener gets the tree")
	checkRoot(tree, roots, "tree received")
}

// ---------------------------------------------------------------- C32

// C32_big : messages of 3000 up to 70000 bytes, in packets of 1000 bytes or of any size, arriving at once (filling the buffer of 65536 bytes or not) or in pieces, with keep-alives in between, are received whole through the client; so is the
// next one on the same and on a new connection.
func C32_big() {
	c, p, tree := rooted()
	vp.Delays(0)
	vp.MaxSteps(400000000)
	e := tree.GetElementByNumber(1)
	l := &listen{}
	e.AddListener(l)
	n := pick("n", 3000, 20000, 70000)
	b := filler(1, n)
	for i := range b {
		b[i] &= 0x7f
	}
	set := func(s string) []byte { return setOf(0, fld{0, berStr(s)}, fld{1, berStr("d")}) }
	big := rootMsg(0, elemMsg(0, qualTag[mNode], berOID(oid{1}), set(string(b))))
	bs := packet(big)
	if vp.Choose("packets", 2) == 1 {
		fs := splitMsg(big, 1000)
		bs = join(append([][]byte{fs[0], s101(kal(2)...)}, fs[1:]...)...)
	}
	gap := vp.Choose("gap", 3)
	chunk := pick("chunk", 30000, len(bs))
	for i := 0; i < len(bs); i += chunk {
		k := i + chunk
		if k > len(bs) {
			k = len(bs)
		}
		p.Send(bs[i:k])
		vp.Sleep([]int{0, 5, 130}[gap])
	}
	vp.Sleep(20)
	id := func() string {
		s, err := e.GetContent().(*embertree.NodeContents).GetIdentifier()
		ok(err, "identifier")
		return s
	}
	vp.Assert(l.n == 1 && l.err == nil && eqLit(id(), string(b)), "large message received")
	small := vp.Str("small", 1)
	if vp.Choose("anew", 2) == 1 {
		p.Close(false)
		vp.Sleep(130)
		vp.Assert(!c.IsConnected(), "disconnected")
		dial(c)
	}
	p.Send(packet(rootMsg(0, elemMsg(0, qualTag[mNode], berOID(oid{1}), set(small)))))
	vp.Sleep(20)
	vp.Assert(l.n == 2 && l.err == nil && eqLit(id(), small), "next message received")
}

// ---------------------------------------------------------------- C29

// C29_kept : 1, 4, 10 or 30 requests are made; the connection ends (Disconnect, close or reset) at one of five moments and is made anew, once or twice, with more requests made before or after: all are sent once, in order.
func C29_kept() {
	c, p := newClient()
	vp.Delays(0)
	vp.MaxSteps(100000000)
	dial(c)
	n := pick("n", 1, 4, 10, 30)
	var want [][]byte
	add := func(k int) {
		for i := 0; i < k; i++ {
			j := len(want)
			ok(c.GetDirectory(ck(j%4, int32(j)).bare().build(), nil), "request accepted")
			want = append(want, qreq(j%4, oid{int32(j)}))
		}
	}
	add(n)
	how, more := vp.Choose("how", 3), pick("more", 0, 1, 5)
	for i := 1 + vp.Choose("twice", 2); i > 0; i-- {
		vp.Sleep(pick("when", 10, 130, 350, 1030, 2230))
		if how == 0 {
			ok(c.Disconnect(), "disconnect")
		} else {
			p.Close(how == 2)
		}
		vp.Sleep(150)
		vp.Assert(!c.IsConnected(), "disconnected")
		before := vp.Choose("before", 2) == 1
		if before {
			add(more)
		}
		vp.Sleep(500)
		dial(c)
		if !before {
			add(more)
		}
	}
	vp.Sleep(6000)
	wantSent(p, want...)
}

// C31_nil : the tree is fetched without a listener, before or after connecting, with or without a time-out, with an element never answered or not: every element is requested once, and
// a later fetch calls its listener exactly once with the complete tree.
func C31_nil() {
	c, p := newClient()
	vp.Delays(1)
	roots := []*em{ck(mNode, 1, ck(mParam, 1), ck(mNode, 2)), ck(mFunc, 2)}
	s := &provider{p: p, roots: roots, plain: vp.Choose("plain", 2) == 1, f: 1}
	s.mute = []oid{nil, {1, 2}, {2}}[vp.Choose("mute", 3)]
	c.SetTimeout(pick("timeout", 0, 300))
	early := vp.Choose("early", 2) == 1
	if !early {
		dial(c)
	}
	ok(c.GetTree(nil), "GetTree")
	if early {
		vp.Sleep(50)
		dial(c)
	}
	for i := 0; i < 15; i++ {
		vp.Sleep(60)
		s.serve()
	}
	vp.Assert(len(s.asked) == 5, "every element requested once")
	s.mute = nil
	l := &listen{}
	ok(c.GetTree(l), "GetTree")
	for i := 0; i < 20; i++ {
		vp.Sleep(60)
		s.serve()
	}
	vp.Assert(l.n == 1 && l.err == nil, "listener called exactly once, without error")
	vp.Assert(len(s.asked) == 10, "every element requested once again")
	tree, is := l.from.(*embertree.RootElement)
	vp.Assert(is, "listener gets the tree")
	checkRoot(tree, roots, "tree received")
}
