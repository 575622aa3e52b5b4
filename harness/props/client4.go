package props

import (
	"verif/harness/vp"
)

// ---------------------------------------------------------------- C32

// C32_leftover : the old connection ends (Disconnect, close or reset) after any part of a message of one or three packets; the rest of it arrives on the new connection: nothing is received from it, and
// the next message is received.
func C32_leftover() {
	c, p, tree := rooted()
	e := tree.GetElementByNumber(1)
	msg := rootMsg(0, ck(mNode, 1).qmsg(0, oid{1}))
	var cut int
	var b []byte
	if vp.Choose("packets", 2) == 0 {
		b = packet(msg)
		cut = 2 + vp.Choose("cut", len(b)-2)
	} else {
		var at []int
		for _, x := range splitMsg(msg, (len(msg)+2)/3) {
			b = append(b, x...)
			at = append(at, len(b))
		}
		cut = at[vp.Choose("cut", len(at)-1)] + []int{0, 2, 9}[vp.Choose("more", 3)]
	}
	p.Send(b[:cut])
	vp.Sleep(110)
	switch vp.Choose("how", 3) {
	case 0:
		ok(c.Disconnect(), "disconnect")
	case 1:
		p.Close(false)
	case 2:
		p.Close(true)
	}
	vp.Sleep(300)
	vp.Assert(!c.IsConnected() && p.Open() == 0, "disconnected")
	dial(c)
	l := &listen{}
	e.AddListener(l)
	p.Send(b[cut:])
	vp.Sleep(120)
	vp.Assert(l.n == 0, "a message of two connections")
	p.Send(answer(oid{1}, mNode))
	vp.Sleep(120)
	vp.Assert(l.n == 1 && l.err == nil && c.IsConnected(), "message of the new connection")
}

// C32_within : a listener called for a message disconnects and connects anew; behind the message in the same buffer is a message, a keep-alive request, or the begin of a frame or of a longer
// message: the new connection starts afresh, gets no answer that belongs to the old one, and sends and receives.
func C32_within() {
	c, p, tree := rooted()
	e := tree.GetElementByNumber(1)
	msg := rootMsg(0, ck(mNode, 1).qmsg(0, oid{1}))
	again := 1
	l := &listen{}
	l.act = func() {
		if again > 0 {
			again--
			ok(c.Disconnect(), "disconnect")
			dial(c)
		}
	}
	e.AddListener(l)
	b := answer(oid{1}, mNode)
	part := splitMsg(msg, (len(msg)+1)/2)
	rest := vp.Choose("rest", 5)
	switch rest {
	case 1:
		b = append(b, answer(oid{2}, mNode)...)
	case 2:
		b = append(b, s101(kal(1)...)...)
	case 3:
		b = append(b, answer(oid{1}, mNode)[:7]...)
	case 4:
		b = append(b, part[0]...)
	}
	p.Send(b)
	vp.Sleep([]int{1, 120}[vp.Choose("wait", 2)])
	vp.Assert(l.n == 1 && c.IsConnected() && p.Dials() == 2 && p.Open() == 1, "connected anew")
	_, kals := sentSince(p, 1)
	vp.Assert(kals == 0, "answer to a request of the old connection")
	if rest == 4 {
		p.Send(part[1])
		vp.Sleep(120)
		vp.Assert(l.n == 1, "a message of two connections")
	}
	lb := &listen{}
	ok(c.GetDirectory(e, lb), "request")
	p.Send(s101(kal(1)...))
	vp.Sleep(250)
	msgs, kals := sentSince(p, 1)
	conns := p.WriteConns()
	vp.Assert(len(msgs) == 1 && kals == 1 && conns[len(conns)-1] == 1 && conns[1] == 1, "sent on the new connection")
	p.Send(answer(oid{1}, mNode))
	vp.Sleep(120)
	vp.Assert(l.n == 2 && lb.n == 1 && lb.err == nil && c.IsConnected(), "message of the new connection")
}

// ---------------------------------------------------------------- C29

// C29_full : 253..256 requests wait; two goroutines make one or two more each at the same time, any interleaving with one preemption at any synchronisation operation: as many as fit are accepted,
// the others refused, and the accepted ones are sent, each once, in order.
func C29_full() {
	c, p := newClient()
	vp.Delays(0)
	vp.MaxSteps(20000000)
	wait := 253 + vp.Choose("waiting", 4)
	na, nb := 1+vp.Choose("na", 2), 1+vp.Choose("nb", 2)
	for i := 0; i < wait; i++ {
		ok(c.GetDirectory(node(5), nil), "request")
	}
	vp.Preempt(1)
	acc := [2][]int{}
	done := make(chan bool, 2)
	run := func(g, base, n int) {
		for i := 0; i < n; i++ {
			if c.GetDirectory(node(int32(base+i)), nil) == nil {
				acc[g] = append(acc[g], base+i)
			}
		}
		done <- true
	}
	go run(0, 10, na)
	go run(1, 20, nb)
	<-done
	<-done
	vp.Preempt(0)
	room := 256 - wait
	if na+nb < room {
		room = na + nb
	}
	vp.Assert(len(acc[0])+len(acc[1]) == room, "accepted exactly what fits")
	dial(c)
	vp.Sleep(10000)
	msgs, _ := sent(p)
	vp.Assert(len(msgs) == wait+room, "accepted requests sent once")
	merged(msgs[wait:], acc[0], acc[1])
}

// merged : the messages are the requests of the two lists, each list in its order.
func merged(msgs [][]byte, a, b []int) {
	vp.Assert(len(msgs) == len(a)+len(b), "number of messages sent")
	for _, m := range msgs {
		if len(a) > 0 && vp.EqBytes(m, msgOf(a[0])) {
			a = a[1:]
		} else if len(b) > 0 && vp.EqBytes(m, msgOf(b[0])) {
			b = b[1:]
		} else {
			vp.Fail("message out of order")
		}
	}
}

// C29_preempt : two goroutines making 1..3 requests each while the client sends, one preemption (two thorough) at any synchronisation operation: all are accepted and sent once, in the order of each goroutine.
func C29_preempt() {
	c, p := newClient()
	vp.Delays(0)
	dial(c)
	n := 1
	if vp.Thorough() {
		n = 2
	}
	na, nb := 1+vp.Choose("na", 3), 1+vp.Choose("nb", 3)
	to := vp.Choose("timeout", 2)
	if to == 1 {
		c.SetTimeout(5000)
	}
	a, b := []int{10, 11, 12}[:na], []int{20, 21, 22}[:nb]
	done := make(chan int, 2)
	run := func(l []int) {
		good := 0
		for _, k := range l {
			if c.GetDirectory(node(int32(k)), nil) == nil {
				good++
			}
		}
		done <- good
	}
	vp.Preempt(n)
	go run(a)
	go run(b)
	good := <-done
	good += <-done
	vp.Sleep(450)
	vp.Preempt(0)
	vp.Sleep(450)
	vp.Assert(good == na+nb, "requests accepted")
	msgs, _ := sent(p)
	merged(msgs, a, b)
}
