package props

import (
	"time"

	"github.com/dufourgilles/emberlib/embertree"
	"verif/harness/vp"
)

// ---------------------------------------------------------------- C30

// C30_lengths : without an answer, time-outs of 1 ms up to 24 days, connected or never connected, for the root, an element or an element of no tree: exactly one time-out, not before its time and no
// more than 150 ms after it.
func C30_lengths() {
	var c, p = newClient()
	vp.Delays(1)
	to := []int{1, 2, 999, 60000, 86400000, 2147483647}[vp.Choose("timeout", 6)]
	var e *embertree.Element
	if vp.Choose("connected", 2) == 1 {
		dial(c)
		vp.Sleep(5)
		vp.MaxSteps(400000000)
		vp.Assume(to <= 60000) // the client wakes ten times a second
		p.SetRefuse(false)
	}
	if vp.Choose("element", 2) == 1 {
		e = node(3)
	}
	c.SetTimeout(to)
	l := &listen{}
	start := time.Now()
	ok(c.GetDirectory(e, l), "request")
	c.SetTimeout(0)
	time.Sleep(time.Duration(to)*time.Millisecond - time.Microsecond)
	vp.Assert(l.n == 0, "time-out before its time")
	vp.Sleep(151)
	vp.Assert(l.n == 1 && l.timeouts == 1 && l.err != nil, "one time-out")
	d := int(l.at.Sub(start) / time.Millisecond)
	vp.Assert(d >= to && d <= to+150, "moment of the time-out")
	vp.Sleep(3000)
	vp.Assert(l.n == 1, "one time-out")
}

// C30_settings : three requests for different elements, each with its own setting of the time-out (none, 100, 250 or 700 ms, a negative one that is ignored), two of them answered or not: each reports as
// the setting at the time of its request demands.
func C30_settings() {
	c, p, tree := rooted()
	vp.Delays(0)
	p.Send(packet(rootMsg(0, ck(mNode, 3).msg(0))))
	vp.Sleep(120)
	now := 0
	var ls [3]*listen
	var to [3]int
	start := time.Now()
	for i := range ls {
		switch vp.Choose("set", 5) {
		case 0:
			c.SetTimeout(0)
			now = 0
		case 1:
			c.SetTimeout(100)
			now = 100
		case 2:
			c.SetTimeout(250)
			now = 250
		case 3:
			c.SetTimeout(700)
			now = 700
		case 4:
			c.SetTimeout(-1)
		}
		to[i] = now
		ls[i] = &listen{}
		ok(c.GetDirectory(tree.GetElementByNumber(i+1), ls[i]), "request")
	}
	vp.Sleep(180)
	answered := [3]bool{vp.Choose("first", 2) == 1, vp.Choose("second", 2) == 1, false}
	for i := range ls {
		if answered[i] {
			p.Send(answer(oid{int32(i + 1)}, mNode))
		}
	}
	vp.Sleep(1500)
	for i, l := range ls {
		late := to[i] > 0 && (!answered[i] || to[i] < 180)
		want := 0
		if late {
			want++
			vp.Assert(answered[i] || int(l.at.Sub(start)/time.Millisecond) >= to[i], "time-out before its time")
		}
		vp.Assert(l.timeouts == want, "time-outs as set at the time of the request")
		if answered[i] {
			want++
		}
		vp.Assert(l.n == want, "answers")
	}
}

// C30_tie : the answer arrives just when the time is over, 0..2 ms around it, any schedule with one preemption: the answer is delivered once and at most one time-out is reported.
func C30_tie() {
	c, p, tree := rooted()
	vp.Delays(1)
	e := tree.GetElementByNumber(1)
	c.SetTimeout(200)
	la := &listen{}
	ok(c.GetDirectory(e, la), "request")
	n := 1
	if vp.Thorough() {
		n = 2
	}
	vp.Sleep(150)
	vp.Preempt(n)
	vp.Sleep(48 + vp.Choose("at", 5))
	p.Send(answer(oid{1}, mNode))
	vp.Sleep(300)
	vp.Preempt(0)
	vp.Assert(la.timeouts <= 1 && la.n == 1+la.timeouts, "one answer, at most one time-out")
	p.Send(answer(oid{1}, mNode))
	vp.Sleep(500)
	vp.Assert(la.timeouts <= 1 && la.n == 2+la.timeouts && c.IsConnected(), "notified of a later update")
}

// ---------------------------------------------------------------- C31

// C31_wide : a tree of 250..300 elements below the root or below one node, more than the queue of requests takes at once: the listener is called exactly once, after the last reply; with the complete tree
// and without error when all requests fit in the queue, with an error otherwise.
func C31_wide() {
	c, p := newClient()
	vp.Delays(0)
	vp.MaxSteps(400000000)
	dial(c)
	n := []int{255, 256, 257, 300}[vp.Choose("n", 4)]
	below := vp.Choose("below", 2) == 1
	var kids []*em
	for i := 0; i < n; i++ {
		kids = append(kids, &em{kind: mNode, num: int32(i + 1)})
	}
	roots := kids
	if below {
		roots = []*em{{kind: mNode, num: 1, kids: kids}}
	}
	if vp.Choose("timeout", 2) == 1 {
		c.SetTimeout(60000)
	}
	l := &listen{}
	ok(c.GetTree(l), "GetTree")
	vp.Sleep(150)
	reply := func(path oid, ms []*em) {
		var b [][]byte
		for _, m := range ms {
			if path == nil {
				b = append(b, m.msg(0))
			} else {
				b = append(b, m.qmsg(0, append(append(oid{}, path...), m.num)))
			}
		}
		p.Send(packet(rootMsg(0, b...)))
	}
	bare := func(ms []*em) (r []*em) {
		for _, m := range ms {
			r = append(r, &em{kind: m.kind, num: m.num})
		}
		return
	}
	reply(nil, bare(roots))
	vp.Sleep(150)
	if below {
		reply(oid{1}, bare(kids))
		vp.Sleep(150)
	}
	first := 1
	if below {
		first = 2
	}
	vp.Sleep(9500)
	msgs, _ := sent(p)
	asked := n
	if n > 256 {
		asked = 256
	}
	vp.Assert(len(msgs) == first+asked, "every element that fits requested once")
	for i := 0; i < n; i++ {
		vp.Assert(l.n == 0 || n > 256, "completion before the last reply")
		path := oid{int32(i + 1)}
		if below {
			path = oid{1, int32(i + 1)}
		}
		p.Send(answer(path, mNode))
		if i%16 == 15 || i == n-1 {
			vp.Sleep(110)
		}
	}
	vp.Sleep(200)
	vp.Assert(l.n == 1, "listener called exactly once")
	vp.Assert((l.err != nil) == (n > 256), "error exactly when some requests did not fit")
	vp.Sleep(70000)
	vp.Assert(l.n == 1, "listener called exactly once")
}
