package props

import (
	goerrors "errors"

	"github.com/dufourgilles/emberlib/embertree"
	"github.com/dufourgilles/emberlib/errors"
	"verif/harness/vp"
)

// More than 256 of something, and things in two roles.

// ---------------------------------------------------------------- C19

// C19_sources : a matrix with two connections of 0..2 sources receives one to three connections of 0..2 sources for any targets: every target has the sources, operation and disposition received last.
func C19_sources() {
	tree := embertree.NewTree()
	m, err := embertree.NewMatrix(5, embertree.OneToN, embertree.Linear)
	ok(err, "matrix")
	fixed := func(target int32, n int, op int) connModel {
		return connModel{target: target, op: op, sources: oid{1, 2}[:n]}
	}
	cs := []connModel{fixed(1, vp.Choose("n0", 3), 0), fixed(2, 1, 1)}
	ok(m.SetConnections([]*embertree.Connection{cs[0].build(), cs[1].build()}), "connections")
	tree.AddElement(m)
	f := forms(vp.Choose("form", 2))
	var cb [][]byte
	n := 1 + vp.Choose("connections", 3)
	for j := 0; j < n; j++ {
		c := connModel{target: int32(1 + vp.Choose("target", 3)), op: (j + 1) % 3, dis: j, sources: oid{3, int32(vp.U8("s") & 0x7f)}[:vp.Choose("n", 3)]}
		cb = append(cb, c.msg(f))
		found := false
		for k := range cs {
			if cs[k].target == c.target {
				cs[k], found = c, true
			}
		}
		if !found {
			cs = append(cs, c)
		}
	}
	decodeInto(tree, rootMsg(f, elemMsg(f, app(13), berInt(5), nil, wrap0(f, 5, cb...))), "matrix update")
	gc, _ := m.GetConnections()
	vp.Assert(len(gc) == len(cs), "one connection per target")
	for _, c := range cs {
		found := false
		for _, x := range gc {
			if x.Target == c.target {
				vp.Assert(!found, "one connection per target")
				found = true
				c.check(x, "connection received last")
			}
		}
		vp.Assert(found, "connection kept")
	}
}

// ---------------------------------------------------------------- C21

// C21_both : one listener is that of the tree and of all of its elements: two successive messages of 20 kinds, it is called as often as all of them notify.
func C21_both() {
	tree := embertree.NewTree()
	t := baseTree(tree)
	p := &probe{}
	var all func(m *em)
	all = func(m *em) {
		m.ptr.AddListener(p)
		for _, k := range m.kids {
			all(k)
		}
	}
	all(t.roots[0])
	tree.AddListener(p)
	own := map[*em]bool{}
	var mark func(m *em)
	mark = func(m *em) {
		own[m] = true
		for _, k := range m.kids {
			mark(k)
		}
	}
	mark(t.roots[0])
	for i := 0; i < 2; i++ {
		us := update(vp.Choose("update", updates))
		decodeInto(tree, message(0, us), "message")
		t.receive(us)
		want := t.rootHits
		for m, n := range t.hits {
			if own[m] {
				want += n
			}
		}
		vp.Assert(p.n == want, "called in every role")
	}
}

// ---------------------------------------------------------------- C23, C26

// C23_many : messages of more than 256 packets, with few or many escapes, and an arbitrary byte near the end.
func C23_many() {
	vp.MaxSteps(400000000)
	kind, n := 0, 270000
	if vp.Choose("escapes", 2) == 1 {
		kind, n = 2, 190000
	}
	data := filler(kind, n)
	data[n-700] = vp.U8("b")
	fs := frames(data)
	vp.Assert(len(fs) > 256, "split in packets")
	var s sink
	d := s.decoder()
	for _, f := range fs {
		vp.Assert(len(f) <= 2*1024+40, "bounded size")
		feed(d, f)
	}
	s.want(data)
	vp.Assert(s.errs == 0, "no error")
}

// C26_count : messages of 250..260, 520 or 1000 packets of one byte, one of them arbitrary, with or without keep-alives: delivered once and whole, and the one behind it too.
func C26_count() {
	vp.MaxSteps(400000000)
	n := pick("n", 254, 255, 256, 257, 520, 1000)
	m := filler(1, n)
	m[n-2] = vp.U8("b")
	fs := splitMsg(m, 1)
	kals := vp.Choose("keepalives", 2)
	var s sink
	d := s.decoder()
	for _, f := range fs {
		feed(d, f)
		if kals == 1 {
			feed(d, s101(kal(1)...))
		}
	}
	s.want(m)
	feed(d, join(fs[:3]...))
	feed(d, join(splitMsg(m[:9], 4)...))
	s.want(m, m[:9])
	vp.Assert(s.errs == 0 && s.req == kals*n, "nothing else")
}

// ---------------------------------------------------------------- C36

// C36_percent : the text of an error is kept whatever it is: percent signs and any two bytes in it, made from a Go error, from arguments, or from the text of another error of the library, propagated or not.
func C36_percent() {
	text := []string{"at 50% of it", "100%", "%d", "%s and %!v(MISSING)", "%%", ""}[vp.Choose("text", 6)] + string(vp.Bytes("x", vp.Choose("n", 3)))
	var e errors.Error
	switch vp.Choose("from", 3) {
	case 0:
		e = errors.NewError(goerrors.New(text))
	case 1:
		e = errors.New("%s", text)
	case 2:
		e = errors.NewError(errors.NewError(goerrors.New(text)).Message)
	}
	for i := vp.Choose("propagated", 3); i > 0; i-- {
		e = errors.Update(e)
	}
	vp.Assert(e.Message.Error() == text, "text kept")
}

// ---------------------------------------------------------------- C34

// C34_memory : the text of a tree is made with an amount of memory that is in proportion to it, wide or deep.
func C34_memory() {
	vp.MaxSteps(400000000)
	n := pick("n", 10, 100, 1000)
	tree := embertree.NewTree()
	x := vp.U8("x")
	if vp.Choose("deep", 2) == 1 {
		top := embertree.NewNode(1)
		tree.AddElement(top)
		for i := 0; i < n/50; i++ {
			e := embertree.NewNode(int(x & 0x7f))
			ok(top.AddChild(e), "child")
			top = e
		}
	} else {
		top := embertree.NewNode(1)
		tree.AddElement(top)
		for i := 0; i < n; i++ {
			ok(top.AddChild(embertree.NewParameter(i)), "child")
			tree.AddElement(embertree.NewNode(i + 2))
		}
	}
	s := tree.ToString()
	vp.AllocTotal(40*len(s) + 1<<16)
	vp.Assert(len(tree.ToString()) == len(s), "same text")
}
