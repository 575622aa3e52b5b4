package props

import (
	"github.com/dufourgilles/emberlib/asn1"
	"github.com/dufourgilles/emberlib/embertree"
	"github.com/dufourgilles/emberlib/errors"
	"verif/harness/vp"
)

// ---------------------------------------------------------------- C18

// C18_matrix : every int8 as matrix type and mode, through every setter and constructor.
func C18_matrix() {
	t, m := vp.I8("type"), vp.I8("mode")
	okT, okM := vp.And(t >= 0, t <= 2), vp.And(m >= 0, m <= 1)
	vp.Assert((embertree.ValidateMatrixType(embertree.MatrixType(t)) == nil) == okT, "validate type")
	vp.Assert((embertree.ValidateMatrixMode(embertree.MatrixMode(m)) == nil) == okM, "validate mode")
	c, err := embertree.NewMatrixContent(embertree.OneToOne, embertree.NonLinear)
	ok(err, "new contents")
	vp.Assert((c.SetType(embertree.MatrixType(t)) == nil) == okT, "set type")
	vp.Assert((c.SetMode(embertree.MatrixMode(m)) == nil) == okM, "set mode")
	gt, err := c.GetType()
	vp.Assert(err == nil && int8(gt) == vp.IteI8(okT, t, 1), "type after set")
	gm, err := c.GetMode()
	vp.Assert(err == nil && int8(gm) == vp.IteI8(okM, m, 1), "mode after set")
	both := vp.And(okT, okM)
	c, err = embertree.NewMatrixContent(embertree.MatrixType(t), embertree.MatrixMode(m))
	vp.Assert((err == nil) == both && (c != nil) == both, "new contents validates")
	e, err := embertree.NewMatrix(3, embertree.MatrixType(t), embertree.MatrixMode(m))
	vp.Assert((err == nil) == both && (e != nil) == both, "new matrix validates")
	q := embertree.NewQualifiedMatrix(asn1.RelativeOID{1, 2}, embertree.MatrixType(t), embertree.MatrixMode(m))
	vp.Assert((q != nil) == both, "new qualified matrix validates")
	if both {
		for _, x := range []embertree.EmberContents{c, e.GetContent(), q.CreateContent().(embertree.EmberContents)} {
			gt, _ := x.(*mc).GetType()
			gm, _ := x.(*mc).GetMode()
			vp.Assert(vp.And(int8(gt) == t, int8(gm) == m), "constructor keeps type and mode")
		}
	}
}

// C18_connection : every int as operation and disposition: accepted exactly inside the enumeration, a refused one changes nothing.
func C18_connection() {
	o, d := vp.Int("op"), vp.Int("dis")
	var c embertree.Connection
	ok(c.SetOperation(1), "connect")
	ok(c.SetDisposition(1), "modified")
	okO, okD := vp.And(o >= 0, o <= 2), vp.And(d >= 0, d <= 3)
	vp.Assert((c.SetOperation(o) == nil) == okO, "operation range")
	vp.Assert((c.SetDisposition(d) == nil) == okD, "disposition range")
	vp.Assert(int(c.GetOperation()) == vp.IteInt(okO, o, 1), "operation value")
	vp.Assert(int(c.GetDisposition()) == vp.IteInt(okD, d, 1), "disposition value")
	vp.Assert(int(embertree.Absolute) == 0 && int(embertree.Connect) == 1 && int(embertree.Disconnect) == 2, "operation constants")
	vp.Assert(int(embertree.Tally) == 0 && int(embertree.Modified) == 1 && int(embertree.Pending) == 2 && int(embertree.Locked) == 3, "disposition constants")
}

// C18_flags : command flags hold any int32 and travel unchanged; a directory command asks for all fields, others for the default; the flag
// constants have the protocol's values.
func C18_flags() {
	v := vp.I32("v")
	n := vp.Choose("n", 34)
	c := embertree.NewCommand(n).GetContent().(*embertree.CommandContents)
	want := 0
	if n == embertree.COMMAND_GETDIRECTORY {
		want = -1
	}
	vp.Assert(int(c.GetFieldFlags()) == want, "default flags")
	c.SetFieldFlags(embertree.FieldFlags(v))
	vp.Assert(int32(c.GetFieldFlags()) == v, "flags value")
	sameBER(enc(c, "flags"), berInt(int64(v)), "flags encoding")
	d := embertree.NewCommandContents().(*embertree.CommandContents)
	vp.Assert(d.GetFieldFlags() == embertree.DefaultFieldFlags, "default flags of new contents")
	ok(d.Decode(asn1.NewASNReader(berInt(int64(v)))), "decode flags")
	vp.Assert(int32(d.GetFieldFlags()) == v, "decoded flags")
	consts := []embertree.FieldFlags{embertree.SparseFieldFlags, embertree.ALLFieldFlags, embertree.DefaultFieldFlags, embertree.IdentifierFieldFlags,
		embertree.DescriptionFieldFlags, embertree.TreeFieldFlags, embertree.ValueFieldFlags, embertree.ConnectionsFieldFlags}
	for i, x := range consts {
		vp.Assert(int(x) == i-2, "flag constants")
	}
	vp.Assert(embertree.COMMAND_SUBSCRIBE == 30 && embertree.COMMAND_UNSUBSCRIBE == 31 && embertree.COMMAND_GETDIRECTORY == 32 && embertree.COMMAND_INVOKE == 33, "command numbers")
}

// C18_command : commands of every number 0..33 as elements, any flags.
func C18_command() {
	n := vp.Choose("n", 34)
	v := vp.I32("v")
	e := embertree.NewCommand(n)
	e.GetContent().(*embertree.CommandContents).SetFieldFlags(embertree.FieldFlags(v))
	f := forms(vp.Choose("form", 2))
	want := elemMsg(f, app(2), berInt(int64(n)), berInt(int64(v)))
	sameBER(enc(e, "command"), want, "command encoding")
	d, err := embertree.DecodeElement(asn1.NewASNReader(want))
	ok(err, "decode command")
	vp.Assert(d.Number == n && d.GetTag() == app(2), "command identity")
	vp.Assert(int32(d.GetContent().(*embertree.CommandContents).GetFieldFlags()) == v, "decoded command flags")
}

// ---------------------------------------------------------------- C19

// one element of a message: qualified when path is set.
type upd struct {
	path asn1.RelativeOID
	m    *em
}

func (u upd) bytes(f forms) []byte {
	if u.path != nil {
		return u.m.qmsg(f, u.path)
	}
	return u.m.msg(f)
}

// model is the reference of a tree receiving messages; hits counts the
// notifications every element is expected to give, rootHits those of the tree.
type model struct {
	roots    []*em
	hits     map[*em]int
	rootHits int
}

func merge(cur, nw *em, hits map[*em]int) bool {
	if cur.kind != nw.kind || cur.num != nw.num {
		return false
	}
	if nw.has {
		cur.has, cur.id, cur.val = true, nw.id, nw.val
	}
	for _, k := range nw.kids {
		if c := cur.child(k.num); c != nil {
			merge(c, k, hits)
		} else {
			cur.kids = append(cur.kids, k.clone())
		}
	}
	hits[cur]++
	return true
}

func (t *model) at(path []int32) *em {
	var e *em
	for i, n := range path {
		if i == 0 {
			e = (&em{kids: t.roots}).child(n)
		} else {
			e = e.child(n)
		}
		if e == nil {
			return nil
		}
	}
	return e
}

func (t *model) receive(us []upd) {
	added := map[*em]bool{}
	for _, u := range us {
		if len(u.path) > 1 {
			if cur := t.at(u.path); cur != nil {
				merge(cur, u.m, t.hits)
			} else if p := t.at(u.path[:len(u.path)-1]); p != nil {
				p.kids = append(p.kids, u.m.clone())
				added[p] = true
			}
			continue
		}
		if cur := t.at([]int32{u.m.num}); cur != nil {
			merge(cur, u.m, t.hits)
		} else {
			t.roots = append(t.roots, u.m.clone())
		}
	}
	t.rootHits++
	for p := range added {
		t.hits[p]++
	}
}

func message(f forms, us []upd) []byte {
	var els [][]byte
	for _, u := range us {
		els = append(els, u.bytes(f))
	}
	return rootMsg(f, els...)
}

type oid = asn1.RelativeOID

const updates = 20

// update returns message i for the tree 1 node {2 param, 3 node {4 function}}.
func update(i int) []upd {
	switch i {
	case 0: // new contents of a root element
		return []upd{{nil, mk(mNode, 1)}}
	case 1: // new contents of a child, addressed through its bare parent
		return []upd{{nil, mk(mNode, 1, mk(mParam, 2)).bare()}}
	case 2: // third level, with a new child below
		return []upd{{nil, mk(mNode, 1, mk(mNode, 3, mk(mFunc, 4, mk(mParam, 5))).bare()).bare()}}
	case 3: // new root element with a child
		return []upd{{nil, mk(mNode, 7, mk(mParam, 1))}}
	case 4: // qualified
		return []upd{{oid{1, 2}, mk(mParam, 2)}}
	case 5: // qualified parent with an old and a new child
		return []upd{{oid{1, 3}, mk(mNode, 3, mk(mFunc, 4), mk(mParam, 6)).bare()}}
	case 6: // qualified new element
		return []upd{{oid{1, 3, 9}, mk(mParam, 9)}}
	case 7: // contents and two children
		return []upd{{nil, mk(mNode, 1, mk(mParam, 2), mk(mParam, 8))}}
	case 8: // another type
		return []upd{{nil, mk(mParam, 1)}}
	case 9:
		return []upd{{oid{1, 2}, mk(mNode, 2)}}
	case 10: // unconnected
		return []upd{{oid{5, 6}, mk(mParam, 6)}}
	case 11: // path of one arc
		return []upd{{oid{1}, mk(mNode, 1)}}
	case 12: // two elements in one message
		return []upd{{oid{1, 2}, mk(mParam, 2)}, {nil, mk(mNode, 1, mk(mNode, 3)).bare()}}
	case 13: // the same new element twice
		return []upd{{oid{1, 3, 9}, mk(mParam, 9)}, {oid{1, 3, 9}, mk(mParam, 9)}}
	case 14: // two new elements below the same parent
		return []upd{{oid{1, 3, 10}, mk(mParam, 10)}, {oid{1, 3, 11}, mk(mNode, 11)}}
	case 15: // an element without contents keeps the old ones
		return []upd{{oid{1, 2}, mk(mParam, 2).bare()}, {nil, mk(mNode, 1).bare()}}
	case 16: // new qualified element and one below it
		return []upd{{oid{1, 12}, mk(mNode, 12)}, {oid{1, 12, 1}, mk(mParam, 1)}}
	case 17: // nothing
		return nil
	case 18: // new elements below two different parents, and an update
		return []upd{{oid{1, 3, 13}, mk(mParam, 13)}, {oid{1, 14}, mk(mParam, 14)}, {oid{1, 3, 4}, mk(mFunc, 4)}}
	case 19: // a parameter without contents gets a child, another element is refused in the same message
		return []upd{{oid{1, 2}, mk(mFunc, 2)}, {oid{1, 2, 0}, mk(mParam, 0)}, {oid{9, 1}, mk(mParam, 1)}, {nil, mk(mNode, 1, mk(mNode, 3, mk(mNode, 0)).bare()).bare()}}
	}
	return nil
}

func baseTree(tree *embertree.RootElement) *model {
	m := mk(mNode, 1, mk(mParam, 2), mk(mNode, 3, mk(mFunc, 4)))
	if vp.Choose("bare", 2) == 1 {
		m.bare()
		m.kids[1].kids[0].bare()
	}
	t := &model{roots: []*em{m}, hits: map[*em]int{}}
	if vp.Choose("source", 2) == 0 {
		tree.AddElement(m.build())
	} else {
		decodeInto(tree, rootMsg(0, m.msg(0)), "base tree")
	}
	m.pin(tree.GetElementByNumber(1))
	return t
}

func (t *model) pin(tree *embertree.RootElement) {
	for _, r := range t.roots {
		r.pin(tree.GetElementByNumber(int(r.num)))
	}
}

// C19_merge : two successive messages out of 20 kinds (three out of them in the thorough tier), symbolic contents, both forms, any map order: after
// each the tree equals the reference merge and holds the same element objects as before.
func C19_merge() {
	vp.MapAnyOrder(true)
	tree := embertree.NewTree()
	t := baseTree(tree)
	n := 2
	if vp.Thorough() {
		n = 3
	}
	f := forms(vp.Choose("form", 2))
	for i := 0; i < n; i++ {
		us := update(vp.Choose("update", updates))
		decodeInto(tree, message(f, us), "message")
		t.receive(us)
		checkRoot(tree, t.roots, "updated tree")
		t.pin(tree)
	}
}

// C19_numbers : one update of a child with any number 0..127 below the root, plain or qualified: merged when present, added otherwise.
func C19_numbers() {
	vp.MapAnyOrder(true)
	tree := embertree.NewTree()
	t := baseTree(tree)
	k := mk(mParam, int32(vp.U8("n")&0x7f))
	us := []upd{{nil, mk(mNode, 1, k).bare()}}
	if vp.Choose("qualified", 2) == 1 {
		us = []upd{{oid{1, k.num}, k}}
	}
	decodeInto(tree, message(0, us), "message")
	t.receive(us)
	checkRoot(tree, t.roots, "updated tree")
}

// C19_element : Update between elements of every pair of types, plain or qualified, any numbers 0..127: refused exactly when number or type
// differ, and then nothing changes.
func C19_element() {
	ka, kb := vp.Choose("ka", 4), vp.Choose("kb", 4)
	na, nb := int32(vp.U8("na")&0x7f), int32(vp.U8("nb")&0x7f)
	a, b := mk(ka, na, mk(mParam, 1)), mk(kb, nb, mk(mParam, 2))
	ea, eb := a.build(), b.build()
	if vp.Choose("qualified", 2) == 1 {
		var err errors.Error
		eb, err = embertree.DecodeElement(asn1.NewASNReader(b.qmsg(0, oid{3, nb})))
		ok(err, "decode")
	}
	a.pin(ea)
	err := ea.Update(eb)
	hits := map[*em]int{}
	same := merge(a, b, hits)
	vp.Assert((err == nil) == same, "update refused exactly for another element")
	a.check(ea, nil, nil, "updated element")
}

// C19_matrix : a matrix receives one or two updates carrying 0..1 targets, sources and 0..2 connections with any targets 0..127: signal lists
// are replaced when present, connections are replaced by target and kept otherwise.
func C19_matrix() {
	tree := embertree.NewTree()
	m, err := embertree.NewMatrix(5, embertree.OneToN, embertree.Linear)
	ok(err, "matrix")
	c0, c1 := anyConn(1, true), anyConn(1, true)
	vp.Assume(c0.target != c1.target)
	cs := []connModel{c0, c1}
	ok(m.SetConnections([]*embertree.Connection{c0.build(), c1.build()}), "connections")
	ts, ss := []int32{1, 2}, []int32{3}
	ok(m.SetTargets([]embertree.Signal{embertree.NewTarget(1), embertree.NewTarget(2)}), "targets")
	ok(m.SetSources([]embertree.Signal{embertree.NewSource(3)}), "sources")
	tree.AddElement(m)
	f := forms(vp.Choose("form", 2))
	rounds := 1 + vp.Choose("second", 2)
	for i := 0; i < rounds; i++ {
		var ps [][]byte
		if vp.Choose("target", 2) == 1 {
			ts = []int32{int32(vp.U8("t") & 0x7f)}
			ps = append(ps, wrap0(f, 3, sigMsg(f, app(14), ts[0])))
		}
		if vp.Choose("source", 2) == 1 {
			ss = []int32{int32(vp.U8("s") & 0x7f)}
			ps = append(ps, wrap0(f, 4, sigMsg(f, app(15), ss[0])))
		}
		n := vp.Choose("connections", 3-i)
		var cb [][]byte
		for j := 0; j < n; j++ {
			c := anyConn(1, true)
			cb = append(cb, c.msg(f))
			found := false
			for k := range cs {
				if cs[k].target == c.target {
					cs[k], found = c, true
					break
				}
			}
			if !found {
				cs = append(cs, c)
			}
		}
		if n > 0 {
			ps = append(ps, wrap0(f, 5, cb...))
		}
		decodeInto(tree, rootMsg(f, elemMsg(f, app(13), berInt(5), nil, ps...)), "matrix update")
		vp.Assert(tree.GetElementByNumber(5) == m, "matrix kept in place")
		gt, _ := m.GetTargets()
		gs, _ := m.GetSources()
		gc, _ := m.GetConnections()
		vp.Assert(len(gt) == len(ts) && len(gs) == len(ss) && len(gc) == len(cs), "signal counts")
		for j, x := range gt {
			vp.Assert(x.(*embertree.Target).Number == ts[j], "target")
		}
		for j, x := range gs {
			vp.Assert(x.(*embertree.Source).Number == ss[j], "source")
		}
		for _, c := range cs {
			found := false
			for _, x := range gc {
				if x.Target == c.target {
					vp.Assert(!found, "one connection per target")
					found = true
					c.check(x, "merged connection")
				}
			}
			vp.Assert(found, "connection kept")
		}
		vp.Assert(m.GetContent() != nil, "contents kept")
	}
}

// ---------------------------------------------------------------- C20

func lookupTree() (*embertree.RootElement, *model) {
	tree := embertree.NewTree()
	a := mk(mNode, 1, mk(mParam, 2), mk(mNode, 3, mk(mFunc, 4), mk(mNode, 1, mk(mParam, 7))))
	b := mk(mNode, 2, mk(mParam, 2))
	tree.AddElement(a.build())
	tree.AddElement(b.build())
	t := &model{roots: []*em{a, b}, hits: map[*em]int{}}
	t.pin(tree)
	return tree, t
}

// C20_lookup : paths of 0..5 arbitrary arcs (any int32) in a tree of eight elements: the element and its parent are found exactly when they exist.
func C20_lookup() {
	tree, t := lookupTree()
	n := vp.Choose("n", 6)
	path := make(oid, n)
	for i := range path {
		path[i] = vp.I32("arc")
	}
	p, e := tree.GetElementByPath(path)
	var me, mp *em
	if n > 0 {
		me = t.at(path)
	}
	if n > 1 {
		mp = t.at(path[:n-1])
	}
	if me == nil {
		vp.Assert(e == nil, "element that does not exist")
	} else {
		vp.Assert(e == me.ptr, "element at its path")
		vp.Assert(eqOID(e.GetPath(), path), "path of the element found")
	}
	if mp == nil {
		vp.Assert(p == nil, "parent that does not exist")
	} else {
		vp.Assert(p == mp.ptr, "parent at its path")
	}
	if n == 1 {
		vp.Assert(tree.GetElementByNumber(int(path[0])) == e, "lookup by number")
	}
}

// C20_deep : a chain of up to six elements with a sibling at every level, any numbers 0..127, and any path of 1..7 arcs 0..127.
func C20_deep() {
	d := 1 + vp.Choose("depth", 6)
	nums := smallOID("n", d)
	sib := smallOID("sib", d)
	tree := embertree.NewTree()
	var chain, sibs []*embertree.Element
	for i := range nums {
		vp.Assume(sib[i] != nums[i])
		e, f := embertree.NewNode(int(nums[i])), embertree.NewNode(int(sib[i]))
		if i == 0 {
			tree.AddElement(e)
			tree.AddElement(f)
		} else {
			ok(chain[i-1].AddChild(e), "add")
			ok(chain[i-1].AddChild(f), "add sibling")
		}
		chain, sibs = append(chain, e), append(sibs, f)
	}
	n := 1 + vp.Choose("n", 7)
	path := smallOID("arc", n)
	var want, parent *embertree.Element
	for i, a := range path {
		if i > 0 {
			parent = want
			if parent == nil || (i > 0 && parent == sibs[i-1]) {
				want = nil
				continue
			}
		}
		want = nil
		if i < d && a == nums[i] {
			want = chain[i]
		} else if i < d && a == sib[i] {
			want = sibs[i]
		}
	}
	p, e := tree.GetElementByPath(path)
	vp.Assert(e == want, "element at its path, and only there")
	vp.Assert(p == parent, "parent at its path, and only there")
}

// C20_place : a qualified element with any path of 1..5 arcs 0..127, of a node or parameter: placed at its path, updated there, or refused when
// its parent does not exist; nothing else moves.
func C20_place() {
	vp.MapAnyOrder(true)
	tree, t := lookupTree()
	path := smallOID("path", 1+vp.Choose("n", 5))
	us := []upd{{path, mk(vp.Choose("kind", 2), path[len(path)-1])}}
	decodeInto(tree, message(forms(vp.Choose("form", 2)), us), "message")
	t.receive(us)
	checkRoot(tree, t.roots, "placed")
	_, e := tree.GetElementByPath(path)
	if me := t.at(path); me != nil {
		vp.Assert(e != nil && eqOID(e.GetPath(), path), "found at its path")
		vp.Assert(len(path) == 1 || e.Number == int(path[len(path)-1]), "number")
	} else {
		vp.Assert(e == nil, "not placed")
	}
}

// C20_paths : paths follow the ancestors however the tree is assembled (any order of three attachments, any int32 numbers), and the
// slice handed out for one element is not disturbed by its siblings.
func C20_paths() {
	ns := []int32{vp.I32("a"), vp.I32("b"), vp.I32("c"), vp.I32("d")}
	vp.Assume(ns[2] != ns[3])
	var es []*embertree.Element
	for _, n := range ns {
		es = append(es, embertree.NewNode(int(n)))
	}
	// edges a-b, b-c, b-d
	from, to := []int{0, 1, 1}, []int{1, 2, 3}
	k := vp.Choose("order", 3)
	dir := vp.Choose("dir", 2)
	for i := 0; i < 3; i++ {
		j := (k + i) % 3
		if dir == 1 {
			j = (k + 3 - i) % 3
		}
		vp.Assert(len(es[to[j]].GetPath()) > 0, "path of a detached element")
		ok(es[from[j]].AddChild(es[to[j]]), "attach")
	}
	pc := es[2].GetPath()
	pd := es[3].GetPath()
	vp.Assert(eqOID(pd, oid{ns[0], ns[1], ns[3]}), "path of d")
	vp.Assert(eqOID(pc, oid{ns[0], ns[1], ns[2]}), "path of c")
	vp.Assert(eqOID(es[2].GetPath(), pc), "path is stable")
	vp.Assert(eqOID(es[1].GetPath(), oid{ns[0], ns[1]}) && eqOID(es[0].GetPath(), oid{ns[0]}), "ancestor paths")
	p, err := es[2].GetParent()
	vp.Assert(err == nil && p == es[1] && es[1].Children[int(ns[2])] == es[2], "links")
}

// ---------------------------------------------------------------- C21

type probe struct {
	n    int
	from interface{}
	err  errors.Error
	act  func()
}

func (p *probe) Receive(x interface{}, err errors.Error) {
	p.n++
	p.from, p.err = x, err
	if p.act != nil {
		p.act()
	}
}

// C21_counts : two successive messages of 20 kinds, any map order: every element gives exactly the expected notifications to each of its two
// listeners, with itself as the value; the tree notifies its listeners once per message.
func C21_counts() {
	vp.MapAnyOrder(vp.Thorough())
	tree := embertree.NewTree()
	t := baseTree(tree)
	type watch struct {
		m    *em
		e    *embertree.Element
		a, b *probe
	}
	var ws []*watch
	var all func(m *em)
	all = func(m *em) {
		w := &watch{m, m.ptr, &probe{}, &probe{}}
		w.e.AddListener(w.a)
		w.e.AddListener(w.b)
		w.e.AddListener(w.b) // registered twice, notified once
		ws = append(ws, w)
		for _, k := range m.kids {
			all(k)
		}
	}
	all(t.roots[0])
	ra, rb := &probe{}, &probe{}
	tree.AddListener(ra)
	tree.AddListener(rb)
	vp.Assert(tree.HasListner(ra) && !tree.HasListner(&probe{}), "registered listener")
	for i := 0; i < 2; i++ {
		us := update(vp.Choose("update", updates))
		decodeInto(tree, message(0, us), "message")
		t.receive(us)
		vp.Assert(ra.n == t.rootHits && rb.n == t.rootHits, "tree listeners once per message")
		vp.Assert(ra.from == interface{}(tree) && ra.err == nil, "tree listener value")
		for _, w := range ws {
			vp.Assert(w.a.n == t.hits[w.m], "element notifications")
			vp.Assert(w.b.n == t.hits[w.m], "notifications of the second listener")
			if w.a.n > 0 {
				vp.Assert(w.a.from == interface{}(w.e) && w.a.err == nil, "element listener value")
			}
		}
	}
}

// C21_removed : a removed listener is never notified again, whenever it is removed, by itself, by another listener of the element, or before; the
// others still are; a listener may add another one.
func C21_removed() {
	vp.MapAnyOrder(true)
	tree := embertree.NewTree()
	t := baseTree(tree)
	root := vp.Choose("root", 2) == 1
	e := t.roots[0].ptr
	add := func(p *probe) {
		if root {
			tree.AddListener(p)
		} else {
			e.AddListener(p)
		}
	}
	remove := func(p *probe) {
		if root {
			tree.RemoveListener(p)
		} else {
			e.RemoveListener(p)
		}
	}
	a, b, c := &probe{}, &probe{}, &probe{}
	add(a)
	add(b)
	how := vp.Choose("how", 5)
	switch how {
	case 0: // before
		remove(a)
	case 1: // by itself
		a.act = func() { remove(a) }
	case 2: // by the other
		b.act = func() { remove(a) }
	case 3: // never registered
		remove(c)
	case 4: // adds another
		a.act = func() { add(c) }
	}
	send := func() {
		us := update(0)
		decodeInto(tree, message(0, us), "message")
	}
	send()
	n := a.n
	switch how {
	case 0:
		vp.Assert(n == 0, "removed before")
	case 2:
		vp.Assert(n <= 1, "notified at most once")
	default:
		vp.Assert(n == 1, "notified once")
	}
	vp.Assert(b.n == 1, "other listener")
	send()
	if how < 3 {
		vp.Assert(a.n == n, "removed listener notified")
	} else {
		vp.Assert(a.n == 2, "still registered")
	}
	vp.Assert(b.n == 2, "other listener still notified")
	if how == 4 {
		vp.Assert(c.n >= 1, "added listener notified")
	} else {
		vp.Assert(c.n == 0, "stranger notified")
	}
}

// C21_error : an update refused for one child is reported with its error to the listeners of the element above, not to the child's.
func C21_error() {
	tree := embertree.NewTree()
	t := baseTree(tree)
	e, k := t.roots[0].ptr, t.roots[0].kids[0].ptr
	a, b := &probe{}, &probe{}
	e.AddListener(a)
	k.AddListener(b)
	nw := mk(mNode, 1, mk(mFunc, 2)).build()
	err := e.Update(nw)
	vp.Assert(err != nil && a.n == 1 && a.err != nil && a.from == interface{}(e), "refused child reported above")
	vp.Assert(b.n == 0, "refused child not notified")
	ok(e.Update(mk(mNode, 1, mk(mParam, 2)).build()), "update")
	vp.Assert(a.n == 2 && a.err == nil && b.n == 1 && b.err == nil, "later updates are reported without error")
	ok(e.SetContents(embertree.NewNodeContents()), "set contents")
	vp.Assert(a.n == 3, "setting contents notifies")
}

// ---------------------------------------------------------------- C22

func cmdMsg(f forms) []byte { return elemMsg(f, app(2), berInt(32), berInt(-1)) }

// C22_request : elements of every type at depth 1..4, any int32 numbers (small ones below depth two), built or decoded, children and contents
// present: the request carries only the path and the directory command; the tree is unchanged and the listener registered.
func C22_request() {
	d := 1 + vp.Choose("depth", 4)
	kind := vp.Choose("kind", 4)
	nums := make(oid, d)
	for i := range nums {
		if d <= 2 {
			nums[i] = vp.I32("n")
			vp.Assume(nums[i] >= 0)
		} else {
			nums[i] = int32(vp.U8("n") & 0x7f)
		}
	}
	m := mk(kind, nums[d-1], mk(mParam, 1))
	for i := d - 2; i >= 0; i-- {
		m = mk(mNode, nums[i], m)
	}
	tree := embertree.NewTree()
	if vp.Choose("built", 2) == 1 {
		tree.AddElement(m.build())
	} else {
		decodeInto(tree, rootMsg(0, m.msg(0)), "tree")
	}
	_, e := tree.GetElementByPath(nums)
	p := &probe{}
	var req *embertree.RootElement
	var err errors.Error
	want := cmdMsg(1)
	if vp.Choose("qualified", 2) == 1 {
		want = elemMsg(1, qualTag[kind], berOID(nums), nil, emptyTail(1, kind, want)...)
		req = e.GetQualifiedDirectoryMsg(p)
	} else {
		k := kind
		for i := d - 1; i >= 0; i-- {
			want = elemMsg(1, plainTag[k], berInt(int64(nums[i])), nil, emptyTail(1, k, want)...)
			k = mNode
		}
		req, err = e.GetDirectoryMsg(p)
		ok(err, "request")
	}
	sameBER(enc(req, "request"), rootMsg(1, want), "request message")
	checkRoot(tree, []*em{m}, "tree after a request")
	// the reply reaches the listener
	vp.Assert(p.n == 0, "no notification before the reply")
	us := []upd{{nums, mk(kind, nums[d-1])}}
	decodeInto(tree, message(0, us), "reply")
	vp.Assert(p.n == 1 && p.from == interface{}(e), "reply reaches the listener")
}

func emptyTail(f forms, kind int, cmd []byte) [][]byte {
	return [][]byte{f.c(ctx(2), f.c(app(4), f.c(ctx(0), cmd)))}
}

// C22_qualified : the same for elements that arrived qualified (any path of 1..3 small arcs), attached to the tree or not.
func C22_qualified() {
	kind := vp.Choose("kind", 4)
	n := 1 + vp.Choose("arcs", 3)
	path := smallOID("path", n)
	m := mk(kind, path[n-1])
	var e *embertree.Element
	var err errors.Error
	attached := vp.Choose("attached", 2) == 1
	if attached {
		vp.Assume(n == 2)
		tree := embertree.NewTree()
		tree.AddElement(mk(mNode, path[0]).build())
		decodeInto(tree, rootMsg(0, m.qmsg(0, path)), "tree")
		_, e = tree.GetElementByPath(path)
	} else {
		e, err = embertree.DecodeElement(asn1.NewASNReader(m.qmsg(0, path)))
		ok(err, "decode")
	}
	vp.Assert(e != nil, "element")
	qual := elemMsg(1, qualTag[kind], berOID(path), nil, emptyTail(1, kind, cmdMsg(1))...)
	sameBER(enc(e.GetQualifiedDirectoryMsg(nil), "request"), rootMsg(1, qual), "qualified request")
	req, err := e.GetDirectoryMsg(nil)
	ok(err, "request")
	if attached {
		plain := elemMsg(1, plainTag[kind], berInt(int64(path[1])), nil, emptyTail(1, kind, cmdMsg(1))...)
		plain = elemMsg(1, app(3), berInt(int64(path[0])), nil, emptyTail(1, mNode, plain)...)
		sameBER(enc(req, "request"), rootMsg(1, plain), "request through the parents")
	} else {
		sameBER(enc(req, "request"), rootMsg(1, qual), "request by path")
	}
}

// C22_root : the request of the tree itself is the bare command; its listener is notified by the reply.
func C22_root() {
	tree := embertree.NewTree()
	if vp.Choose("filled", 2) == 1 {
		tree.AddElement(mk(mNode, 1).build())
	}
	p := &probe{}
	req, err := tree.GetDirectoryMsg(p)
	ok(err, "request")
	sameBER(enc(req, "request"), rootMsg(1, cmdMsg(1)), "root request")
	vp.Assert(tree.HasListner(p) && p.n == 0, "listener registered")
	decodeInto(tree, message(0, update(vp.Choose("update", updates))), "reply")
	vp.Assert(p.n == 1, "reply reaches the listener")
	_, err = tree.GetDirectoryMsg(nil)
	ok(err, "request without listener")
}
