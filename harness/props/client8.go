package props

import (
	"verif/harness/vp"
)

// Long lives of a client.

// ---------------------------------------------------------------- C27, C29

// C27_run : 300 keep-alive requests, in one piece, in pieces of 7 or 1000 bytes or each for itself: 300 answers, and none more.
func C27_run() {
	vp.MaxSteps(400000000)
	c, p := newClient()
	vp.Delays(0)
	dial(c)
	var b []byte
	f := s101(kal(1)...)
	for i := 0; i < 300; i++ {
		b = append(b, f...)
	}
	n := pick("piece", 700, 1000, len(f)*100, len(b))
	for i := 0; i < len(b); i += n {
		e := i + n
		if e > len(b) {
			e = len(b)
		}
		p.Send(b[i:e])
		vp.Sleep(5)
	}
	vp.Sleep(500)
	msgs, kals := sent(p)
	vp.Assert(len(msgs) == 0 && kals == 300, "every request answered once")
}

// C29_run : 600 requests in the life of a client, made in bursts of 100 or 200 with what is left of a burst sent before the next, or partly: all are sent once and in order.
func C29_run() {
	vp.MaxSteps(400000000)
	c, p := newClient()
	vp.Delays(0)
	dial(c)
	burst := pick("burst", 100, 200)
	share := pick("share", 2, 3)
	pause := burst / 3 * 50 * share
	var want [][]byte
	for i := 0; i < 600; i++ {
		err := c.GetDirectory(node(int32(i%120)), nil)
		if err == nil {
			want = append(want, qreq(mNode, oid{int32(i % 120)}))
		}
		if i%burst == burst-1 {
			vp.Sleep(pause)
		}
	}
	vp.Assert(len(want) == 600 || len(want) > 300 && burst == 200 && share == 2, "requests accepted")
	vp.Sleep(30000)
	wantSent(p, want...)
}
