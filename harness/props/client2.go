package props

import (
	"time"

	"github.com/dufourgilles/emberlib/embertree"
	"verif/harness/vp"
)

// ---- longer histories of the client

// C27_clientbetween : the client gets keep-alive requests (or responses) between the packets of an answer of 2..4 packets, at once or with pauses: every request is answered
// once and the answer is received.
func C27_clientbetween() {
	c, p, tree := rooted()
	l := &listen{}
	e := tree.GetElementByNumber(1)
	e.AddListener(l)
	resp := vp.Choose("responses", 2) == 1
	msg := rootMsg(0, ck(mNode, 1).qmsg(0, oid{1}))
	fs := splitMsg(msg, (len(msg)+1)/(2+vp.Choose("packets", 3)))
	pause := vp.Choose("pause", 2) == 1
	k := 0
	for i, f := range fs {
		p.Send(f)
		if pause {
			vp.Sleep(110)
		}
		if i < len(fs)-1 {
			if resp {
				p.Send(s101(kal(2)...))
			} else {
				p.Send(s101(kal(1)...))
				k++
			}
		}
	}
	vp.Sleep(300)
	_, kals := sent(p)
	vp.Assert(kals == k, "every request answered once")
	vp.Assert(l.n == 1 && l.err == nil, "answer received")
	vp.Assert(c.IsConnected(), "still connected")
}

// C27_forty : 40 keep-alive requests over time, alone or mixed with requests of the client: each is answered at once.
func C27_forty() {
	c, p := newClient()
	vp.Delays(0)
	dial(c)
	mixed := vp.Choose("mixed", 2) == 1
	gap := pick("gap", 7, 130)
	q := 0
	for i := 1; i <= 40; i++ {
		if mixed && i%3 == 0 {
			ok(c.GetDirectory(node(int32(i)), nil), "request")
			q++
		}
		p.Send(s101(kal(1)...))
		vp.Sleep(1)
		_, kals := sent(p)
		vp.Assert(kals == i, "answered at once")
		vp.Sleep(gap)
	}
	vp.Sleep(2000)
	msgs, kals := sent(p)
	vp.Assert(len(msgs) == q && kals == 40, "everything sent once")
}

// ---------------------------------------------------------------- C29

// C29_burst : 30 requests in bursts of 1, 2, 5, 11 or 30 with pauses of 40, 130 or 1200 ms between, to elements of all types and depths 1..4: all sent once, in order.
func C29_burst() {
	c, p := newClient()
	vp.Delays(0)
	burst, gap := pick("burst", 1, 2, 5, 11, 30), pick("gap", 40, 130, 1200)
	early := vp.Choose("early", 2) == 1
	if !early {
		dial(c)
	}
	var want [][]byte
	for i := 0; i < 30; i++ {
		kind := i % 4
		path := oid{int32(i)}
		e := ck(kind, int32(i)).bare().build()
		if d := (i / 4) % 4; d > 0 {
			root := node(1)
			top := root
			path = oid{1}
			for ; d > 1; d-- {
				ch := node(int32(d))
				ok(top.AddChild(ch), "child")
				top = ch
				path = append(path, int32(d))
			}
			ok(top.AddChild(e), "child")
			path = append(path, int32(i))
		}
		ok(c.GetDirectory(e, nil), "request accepted")
		want = append(want, qreq(kind, path))
		if (i+1)%burst == 0 {
			vp.Sleep(gap)
		}
		if early && i == 14 {
			dial(c)
		}
	}
	vp.Sleep(4000)
	wantSent(p, want...)
}

// C29_large : requests whose messages need several packets (paths of 90 or 300 arcs) between small ones: sent whole and in order.
func C29_large() {
	c, p := newClient()
	vp.Delays(1)
	dial(c)
	n := pick("arcs", 90, 300)
	path := oid{5}
	top := node(5)
	e := top
	for i := 1; i < n; i++ {
		x := int32(i * 7919 % 100000)
		ch := node(x)
		ok(e.AddChild(ch), "child")
		e = ch
		path = append(path, x)
	}
	var want [][]byte
	for i := 0; i < 5; i++ {
		if i%2 == 1 {
			ok(c.GetDirectory(e, nil), "request")
			want = append(want, qreq(mNode, path))
		} else {
			ok(c.GetDirectory(node(int32(i)), nil), "request")
			want = append(want, qreq(mNode, oid{int32(i)}))
		}
	}
	vp.Sleep(1500)
	wantSent(p, want...)
}

// ---------------------------------------------------------------- C30

// C30_many : 6 requests to 6 elements with a time out of 300 ms, made 0, 30 or 120 ms apart; the answers of any set of three kinds of elements arrive 50 ms after the last request or never: time outs of exactly the
// others that were not answered in time, each once.
func C30_many() {
	c, p, tree := rooted()
	vp.Delays(0)
	var ms [][]byte
	for i := int32(1); i <= 6; i++ {
		ms = append(ms, ck(mNode, i).msg(0))
	}
	p.Send(packet(rootMsg(0, ms...)))
	vp.Sleep(150)
	const to = 300
	c.SetTimeout(to)
	gap := pick("gap", 0, 30, 120)
	got := [3]bool{vp.Choose("a", 2) == 1, vp.Choose("b", 2) == 1, vp.Choose("c", 2) == 1}
	var ls [6]*listen
	var at [6]time.Time
	for i := range ls {
		ls[i] = &listen{}
		at[i] = time.Now()
		ok(c.GetDirectory(tree.GetElementByNumber(i+1), ls[i]), "request")
		vp.Sleep(gap)
	}
	vp.Sleep(50)
	now := time.Now()
	for i := range ls {
		if got[i%3] {
			p.Send(answer(oid{int32(i + 1)}, mNode))
		}
	}
	vp.Sleep(2000)
	for i, l := range ls {
		age := int(now.Sub(at[i]) / time.Millisecond)
		switch {
		case !got[i%3]:
			vp.Assert(l.timeouts == 1 && l.n == 1, "one time out")
			d := int(l.at.Sub(at[i]) / time.Millisecond)
			vp.Assert(d >= to && d <= to+150, "moment of the time out")
		case age+2 < to:
			vp.Assert(l.timeouts == 0 && l.n == 1, "answered in time")
		case age > to+151:
			vp.Assert(l.timeouts == 1 && l.n == 2, "answered too late")
		default: // around the limit
			vp.Assert(l.timeouts <= 1, "at most one time out")
		}
	}
}

// C30_again : the same element requested 8 times with a time out of 200 ms, answered or not as one of 5 patterns tells: each request times out exactly when it was not answered.
func C30_again() {
	c, p, tree := rooted()
	vp.Delays(0)
	c.SetTimeout(200)
	pat := []string{"aaaaaaaa", "--------", "a-a-a-a-", "-a-a-a-a", "aa--aa--"}[vp.Choose("pattern", 5)]
	after := pick("after", 5, 90, 180)
	e := tree.GetElementByNumber(1)
	for _, x := range pat {
		l := &listen{}
		ok(c.GetDirectory(e, l), "request")
		vp.Sleep(after)
		if x == 'a' {
			p.Send(answer(oid{1}, mNode))
		}
		vp.Sleep(700)
		if x == 'a' {
			vp.Assert(l.n == 1 && l.timeouts == 0, "answer, no time out")
		} else {
			vp.Assert(l.n == 1 && l.timeouts == 1, "time out")
		}
		e.RemoveListener(l)
	}
	vp.Assert(c.IsConnected(), "connected")
}

// ---------------------------------------------------------------- C31

func bigShape(i int) []*em {
	var t []*em
	switch i {
	case 0: // wide
		for j := int32(1); j <= 12; j++ {
			t = append(t, ck(int(j)%4, j))
		}
	case 1: // deep
		e := ck(mParam, 1)
		for j := int32(1); j <= 8; j++ {
			e = ck(mNode, j, e)
		}
		t = []*em{e}
	case 2: // both
		for j := int32(1); j <= 3; j++ {
			n := ck(mNode, j)
			for k := int32(1); k <= 4; k++ {
				n.kids = append(n.kids, ck(int(j+k)%4, k))
			}
			t = append(t, n)
		}
	case 3: // uneven
		t = []*em{ck(mNode, 1), ck(mNode, 2, ck(mNode, 1, ck(mNode, 1, ck(mMatrix, 1)), ck(mFunc, 2))), ck(mParam, 3), ck(mNode, 4, ck(mNode, 9))}
	case 4: // wide below
		n := ck(mNode, 1)
		for j := int32(1); j <= 10; j++ {
			n.kids = append(n.kids, ck(mNode, j, ck(mParam, 1)))
		}
		t = []*em{n}
	}
	return t
}

// C31_large : five trees of 10..21 elements, up to 9 levels deep or 12 elements wide; replies qualified or along the path, 20 or 60 ms between rounds, with or without a time out: every element is
// requested exactly once, the listener is called exactly once, after the last reply, with the complete tree.
func C31_large() {
	c, p := newClient()
	vp.Delays(0)
	vp.MaxSteps(40000000)
	dial(c)
	s := &provider{p: p, roots: bigShape(vp.Choose("shape", 5)), plain: vp.Choose("plain", 2) == 1, f: 0}
	if vp.Choose("timeout", 2) == 1 {
		c.SetTimeout(20000)
	}
	gap := pick("gap", 20, 60)
	l := &listen{}
	ok(c.GetTree(l), "GetTree")
	total := size(s.roots) + 1
	for i := 0; i < 12*total && l.n == 0; i++ {
		vp.Sleep(gap)
		if len(s.asked) < total {
			vp.Assert(l.n == 0, "completion before the last reply")
		}
		s.serve()
	}
	vp.Sleep(1000)
	s.serve()
	vp.Assert(len(s.asked) == total, "every element requested once")
	vp.Assert(l.n == 1 && l.err == nil, "listener called exactly once, without error")
	tree, is := l.from.(*embertree.RootElement)
	vp.Assert(is, "listener gets the tree")
	checkRoot(tree, s.roots, "tree received")
	vp.Sleep(1500)
	vp.Assert(l.n == 1, "listener called exactly once")
}

// ---------------------------------------------------------------- C32

// C32_many : six connections one after the other, ended by Disconnect, close or reset in turn, idle or in the middle of a frame or of a message of two packets: each receives and sends its own messages.
func C32_many() {
	c, p, tree := rooted()
	vp.Delays(0)
	how, part := vp.Choose("how", 3), vp.Choose("part", 3)
	e := tree.GetElementByNumber(1)
	msg := rootMsg(0, ck(mNode, 1).qmsg(0, oid{1}))
	for i := 0; i < 6; i++ {
		l := &listen{}
		ok(c.GetDirectory(e, l), "request")
		vp.Sleep(150)
		msgs, _ := sent(p)
		conns := p.WriteConns()
		vp.Assert(len(msgs) == 2+i && conns[len(conns)-1] == i, "request sent on this connection")
		p.Send(answer(oid{1}, mNode))
		vp.Sleep(120)
		vp.Assert(l.n == 1 && l.err == nil, "answer received")
		e.RemoveListener(l)
		switch part {
		case 1:
			b := answer(oid{1}, mNode)
			p.Send(b[:5+i])
		case 2:
			p.Send(splitMsg(msg, (len(msg)+1)/2)[0])
		}
		vp.Sleep(110)
		switch (how + i) % 3 {
		case 0:
			ok(c.Disconnect(), "disconnect")
		case 1:
			p.Close(false)
		case 2:
			p.Close(true)
		}
		vp.Sleep(300)
		vp.Assert(!c.IsConnected() && p.Open() == 0, "disconnected")
		dial(c)
		vp.Assert(p.Open() == 1 && p.Dials() == i+2, "one connection")
	}
}
