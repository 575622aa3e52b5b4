package props

import (
	"github.com/dufourgilles/emberlib/embertree"
	"verif/harness/vp"
)

// ---------------------------------------------------------------- C37

// connState is what the client should report: whether it is connected, and the outcome of an operation.
func connOp(up bool, op int) (now, good bool) {
	switch op {
	case 0: // Connect
		return true, !up
	case 1: // Disconnect
		return false, up
	}
	return up, up // IsConnected
}

// C37_connect : two goroutines each connect, disconnect or ask at the same time, connected or not before, dialling takes time or not: the outcome is that of one after the other, no connection is
// left open behind, and the client works afterwards.
func C37_connect() {
	c, p := newClient()
	vp.Delays(1)
	up := vp.Choose("up", 2) == 1
	if up {
		dial(c)
	}
	p.SetDialMs(10 * vp.Choose("slow", 2))
	opA, opB := vp.Choose("a", 3), vp.Choose("b", 3)
	res := make(chan [2]bool, 2)
	run := func(g, op int) {
		var good bool
		switch op {
		case 0:
			good = c.Connect("sim.test", 9000) == nil
		case 1:
			good = c.Disconnect() == nil
		case 2:
			good = c.IsConnected()
		}
		res <- [2]bool{g == 1, good}
	}
	if vp.Thorough() {
		vp.Preempt(2)
	} else {
		vp.Preempt(1)
	}
	go run(0, opA)
	go run(1, opB)
	var got [2]bool
	for i := 0; i < 2; i++ {
		r := <-res
		if r[0] {
			got[1] = r[1]
		} else {
			got[0] = r[1]
		}
	}
	vp.Preempt(0)
	vp.Assume(vp.Dialled() || (opA != 0 && opB != 0))
	now := c.IsConnected()
	s1, a1 := connOp(up, opA)
	s1, b1 := connOp(s1, opB)
	s2, b2 := connOp(up, opB)
	s2, a2 := connOp(s2, opA)
	vp.Assert((got[0] == a1 && got[1] == b1 && now == s1) || (got[0] == a2 && got[1] == b2 && now == s2), "outcome of one operation after the other")
	vp.Sleep(300)
	open := 0
	if now {
		open = 1
	}
	vp.Assert(c.IsConnected() == now && p.Open() == open, "connections left open")
	p.SetDialMs(0)
	if !now {
		dial(c)
	}
	l := &listen{}
	ok(c.GetDirectory(nil, l), "root request")
	vp.Sleep(250)
	wantSent(p, rootReq())
	p.Send(packet(rootMsg(0, ck(mNode, 1).msg(0))))
	vp.Sleep(120)
	vp.Assert(l.n == 1 && l.err == nil, "answer")
}

// C37_requests : two goroutines make a request each for the same or different elements, with a time-out, while an update arrives or not: both are sent once, both listeners get the answer, and no
// time-out is reported.
func C37_requests() {
	c, p, tree := rooted()
	vp.Delays(1)
	c.SetTimeout(600)
	pick := func(i int) *embertree.Element {
		if i == 0 {
			return nil
		}
		return tree.GetElementByNumber(i)
	}
	ia, ib := vp.Choose("a", 3), vp.Choose("b", 3)
	ea, eb := pick(ia), pick(ib)
	upd := vp.Choose("update", 2) == 1
	la, lb := &listen{}, &listen{}
	done := make(chan bool, 2)
	run := func(e *embertree.Element, l *listen) { done <- c.GetDirectory(e, l) == nil }
	vp.Preempt(1)
	if upd {
		p.Send(answer(oid{1}, mNode))
	}
	go run(ea, la)
	go run(eb, lb)
	a, b := <-done, <-done
	vp.Assert(a && b, "requests accepted")
	vp.Sleep(250)
	vp.Preempt(0)
	msgs, _ := sentSince(p, 1)
	vp.Assert(len(msgs) == 2, "both requests sent once")
	na, nb := la.n, lb.n
	vp.Assert(na <= 1 && nb <= 1 && (upd || na+nb == 0), "notified by the update only")
	for i := 0; i < 3; i++ {
		if i == 0 {
			p.Send(packet(rootMsg(0, ck(mNode, 1).msg(0))))
		} else if i == ia || i == ib {
			p.Send(answer(oid{int32(i)}, mNode))
		}
	}
	vp.Sleep(1000)
	vp.Assert(la.timeouts == 0 && lb.timeouts == 0, "time-out of an answered request")
	vp.Assert(la.n > na && lb.n > nb && la.err == nil && lb.err == nil, "answered")
}

// C37_listeners : a goroutine adds and removes listeners of an element and of the tree while two updates arrive: a listener that was there all the time gets each update once, one removed before
// none, the others at most one each.
func C37_listeners() {
	c, p, tree := rooted()
	vp.Delays(1)
	e := tree.GetElementByNumber(1)
	var n embertree.ListeningNode = e
	msg := answer(oid{1}, mNode)
	if vp.Choose("root", 2) == 1 {
		n = tree
		msg = packet(rootMsg(0, ck(mNode, 1).msg(0)))
	}
	stay, gone, come, leave := &listen{}, &listen{}, &listen{}, &listen{}
	n.AddListener(stay)
	n.AddListener(gone)
	n.RemoveListener(gone)
	n.AddListener(leave)
	done := make(chan bool, 1)
	vp.Preempt(1)
	p.Send(msg)
	go func() {
		n.AddListener(come)
		known := n != embertree.ListeningNode(tree) || tree.HasListner(stay) && tree.HasListner(come) && !tree.HasListner(gone)
		n.RemoveListener(leave)
		done <- known
	}()
	if vp.Choose("gap", 2) == 1 {
		vp.Sleep(5)
	}
	p.Send(msg)
	vp.Assert(n != embertree.ListeningNode(tree) || tree.HasListner(stay), "listener known")
	vp.Assert(<-done, "listeners known")
	vp.Sleep(250)
	vp.Preempt(0)
	vp.Assert(stay.n == 2 && gone.n == 0 && come.n <= 2 && leave.n <= 2, "notifications")
	k := come.n
	p.Send(msg)
	vp.Sleep(250)
	vp.Assert(stay.n == 3 && gone.n == 0 && come.n == k+1 && leave.n <= 2, "notifications after")
	vp.Assert(c.IsConnected(), "still connected")
}

// C37_trees : the whole tree is fetched by two goroutines at the same time: both listeners are called exactly once, with the complete tree.
func C37_trees() {
	c, p := newClient()
	vp.Delays(1)
	dial(c)
	if vp.Choose("timeout", 2) == 1 {
		c.SetTimeout(2000)
	}
	s := anyProvider(p, 3)
	la, lb := &listen{}, &listen{}
	done := make(chan bool, 2)
	run := func(l *listen) { done <- c.GetTree(l) == nil }
	vp.Preempt(1)
	go run(la)
	go run(lb)
	a, b := <-done, <-done
	vp.Preempt(0)
	vp.Assert(a && b, "requests accepted")
	for i := 0; i < 16; i++ {
		vp.Sleep(60)
		s.serve()
	}
	vp.Assert(la.n == 1 && lb.n == 1 && la.err == nil && lb.err == nil, "both called once")
	tree, is := la.from.(*embertree.RootElement)
	vp.Assert(is && lb.from == la.from, "the same tree")
	checkRoot(tree, s.roots, "tree received")
	vp.Sleep(2500)
	vp.Assert(la.n == 1 && lb.n == 1, "called again")
}

// C37_slow : a listener takes its time; meanwhile the client is disconnected and connected anew, or not, and messages arrive: they are processed one after the other, every listener gets each
// message, and requests are sent.
func C37_slow() {
	c, p, tree := rooted()
	vp.Delays(1)
	e := tree.GetElementByNumber(1)
	in, twice := false, false
	l := &listen{}
	l.act = func() {
		twice = twice || in
		in = true
		vp.Sleep(50)
		in = false
	}
	e.AddListener(l)
	p.Send(answer(oid{1}, mNode))
	vp.Sleep(20)
	again := vp.Choose("again", 2) == 1
	if again {
		ok(c.Disconnect(), "disconnect")
		dial(c)
	}
	from := len(p.Writes())
	ok(c.GetDirectory(e, nil), "request")
	p.Send(answer(oid{1}, mNode))
	if vp.Choose("kal", 2) == 1 {
		p.Send(s101(kal(1)...))
	}
	vp.Sleep(400)
	vp.Assert(!twice, "two messages processed at the same time")
	vp.Assert(l.n == 2, "both messages received")
	msgs, _ := sentSince(p, from)
	vp.Assert(len(msgs) == 1 && c.IsConnected() && p.Open() == 1, "request sent")
}

// C37_within : a listener called for an answer or for a time-out makes a request, fetches the tree, adds or removes listeners, or asks whether the client is connected: nothing is blocked, the request is
// sent and answered.
func C37_within() {
	c, p, tree := rooted()
	vp.Delays(1)
	e := tree.GetElementByNumber(1)
	timeout := vp.Choose("timeout", 2) == 1
	late := timeout && vp.Choose("late", 2) == 1
	if timeout {
		c.SetTimeout(400)
	}
	la, lb := &listen{}, &listen{}
	op := vp.Choose("op", 6)
	if !late && (op == 1 || op == 2 || op == 4) {
		vp.Stop() // a listener of the tree is called for any message, also for this one
	}
	la.act = func() {
		if la.n > 1 {
			return
		}
		switch op {
		case 0:
			ok(c.GetDirectory(e, lb), "request")
		case 1:
			ok(c.GetDirectory(nil, lb), "root request")
		case 2:
			ok(c.GetTree(lb), "GetTree")
		case 3:
			e.RemoveListener(la)
			e.AddListener(lb)
		case 4:
			tree.AddListener(lb)
			vp.Assert(c.IsConnected(), "connected")
		case 5:
			for i := 0; i < 3; i++ {
				ok(c.GetDirectory(e, nil), "request")
			}
			ok(c.GetDirectory(e, lb), "request")
		}
	}
	ok(c.GetDirectory(e, la), "request")
	if late {
		vp.Sleep(430)
		vp.Assert(la.n == 1 && la.timeouts == 1, "time-out")
	} else {
		vp.Sleep(130)
		p.Send(answer(oid{1}, mNode))
		vp.Sleep(130)
		vp.Assert(la.n == 1 && la.timeouts == 0, "answer")
	}
	vp.Assert(lb.n == 0, "answer before it arrived")
	vp.Sleep(210)
	msgs, _ := sentSince(p, 1)
	want := []int{2, 2, 2, 1, 1, 5}[op]
	vp.Assert(len(msgs) == want, "requests sent")
	root := packet(rootMsg(0, ck(mNode, 1).msg(0)))
	switch op {
	case 0, 3, 5:
		p.Send(answer(oid{1}, mNode))
	case 1, 4:
		p.Send(root)
	case 2:
		s := &provider{p: p, roots: []*em{ck(mNode, 1, ck(mParam, 1)), ck(mNode, 2)}, seen: 3}
		p.Send(packet(rootMsg(0, ck(mNode, 1).msg(0), ck(mNode, 2).msg(0))))
		for i := 0; i < 6; i++ {
			vp.Sleep(60)
			s.serve()
		}
	}
	vp.Sleep(120)
	vp.Assert(lb.n == 1 && lb.timeouts == 0 && lb.err == nil, "answered")
	vp.Sleep(900)
	vp.Assert(lb.n == 1, "answered again")
}
