package props

import (
	"strings"

	"github.com/dufourgilles/emberlib/asn1"
	"github.com/dufourgilles/emberlib/embertree"
	"github.com/dufourgilles/emberlib/errors"
	"github.com/dufourgilles/emberlib/logger"
	"verif/harness/vp"
)

// Sizes far beyond everyday use: hundreds of members, levels and arcs, tens of thousands of bytes. The shape is fixed, a few values are symbolic.

// ---------------------------------------------------------------- C04, C07

// C04_huge : identifiers of 128, 300 and 1000 arcs, one of them any non negative int32.
func C04_huge() {
	vp.MaxSteps(100000000)
	oidTrip(longOID("o", pick("n", 128, 300, 1000)))
}

// C07_huge : 130 or 300 containers nested in each other, or 300 or 1000 in a row, in either form, with an arbitrary byte in the innermost or in one of the row: contents and positions.
func C07_huge() {
	vp.MaxSteps(100000000)
	f := forms(vp.Choose("form", 2))
	x := vp.U8("x")
	if vp.Choose("row", 2) == 0 {
		d := pick("depth", 130, 300)
		msg := tlv(2, []byte{x})
		for i := d - 1; i >= 0; i-- {
			msg = f.c(ctx(i%31), msg)
		}
		r := asn1.NewASNReader(cat(msg, []byte{7}))
		var open []*asn1.ASNReader
		for i := 0; i < d; i++ {
			_, s, err := r.ReadSequenceStart(ctx(i % 31))
			ok(err, "container start")
			open = append(open, r)
			r = s
		}
		v, err := r.ReadInt()
		vp.Assert(err == nil && v == int(int8(x)), "innermost value")
		for i := d - 1; i >= 0; i-- {
			ok(r.ReadSequenceEnd(), "container end")
			r = open[i]
		}
		vp.Assert(r.Len() == 1, "message consumed")
		return
	}
	n := pick("n", 300, 1000)
	at := pick("at", 0, 127, 256, 299)
	var ps [][]byte
	for i := 0; i < n; i++ {
		b := byte(i) & 0x7f
		if i == at {
			b = x
		}
		ps = append(ps, f.c(ctx(i%31), tlv(2, []byte{b})))
	}
	_, s, err := asn1.NewASNReader(cat(f.c(tagSeq, ps...), []byte{1})).ReadSequenceStart(tagSeq)
	ok(err, "container")
	for i := 0; ; i++ {
		end, err := s.CheckSequenceEnd()
		ok(err, "end or not")
		vp.Assert(end == (i == n), "all and no more")
		if end {
			break
		}
		_, c, err := s.ReadSequenceStart(ctx(i % 31))
		ok(err, "sibling")
		v, err := c.ReadInt()
		ok(err, "value")
		if i == at {
			vp.Assert(v == int(int8(x)), "arbitrary value")
		} else {
			vp.Assert(v == i&0x7f, "value")
		}
		ok(c.ReadSequenceEnd(), "end of the sibling")
	}
}

// ---------------------------------------------------------------- C09, C10, C11

func hugeVal(k int) val {
	switch k {
	case 0:
		return val{k: kStr, s: long("s", pick("n", 1025, 5000, 32768, 70000))}
	case 1:
		return val{k: kBuf, buf: []byte(long("s", pick("n", 1025, 5000, 32768, 70000)))}
	}
	return val{k: kOID, o: longOID("o", pick("n", 130, 300))}
}

// C09_huge : strings and buffers of 1025, 5000, 32768 and 70000 bytes and identifiers of 130 and 300 arcs keep their value, copied and on the wire in three forms.
func C09_huge() {
	vp.MaxSteps(100000000)
	v := hugeVal(vp.Choose("k", 3))
	cp := embertree.NewContentParameter()
	v.set(cp)
	v.check(cp, "value")
	c := embertree.NewContentParameter()
	ok(c.Set(cp), "copy")
	w := asn1.NewASNWriter()
	ok(c.Encode(2, w), "encode")
	b := drain(w)
	if f := vp.Choose("src", 3); f > 0 {
		b = forms(f-1).c(ctx(2), v.ber())
	}
	r := asn1.NewASNReader(cat(b, []byte{7, 8}))
	got, err := embertree.DecodeValue(r, 2)
	ok(err, "decode")
	v.check(got, "decoded value")
	vp.Assert(r.Len() == 2, "value consumed")
}

// C10_huge : node contents with one string of 1025, 5000, 32768 or 70000 bytes, or a reference of 300 arcs, encoded by the library or in two forms.
func C10_huge() {
	vp.MaxSteps(100000000)
	m := &nodeModel{has: 63, root: vp.Bool("root"), online: vp.Bool("online"), id: "id", desc: "desc", sch: "schema", tmpl: asn1.RelativeOID{1}}
	switch which := vp.Choose("which", 4); which {
	case 3:
		m.tmpl = longOID("o", 300)
	default:
		s := long("s", pick("n", 1025, 5000, 32768, 70000))
		*[]*string{&m.id, &m.desc, &m.sch}[which] = s
	}
	c := embertree.NewNodeContents().(*embertree.NodeContents)
	m.fill(c)
	m.check(c, "node contents")
	b := enc(c, "node contents")
	if k := vp.Choose("src", 3); k > 0 {
		b = setOf(forms(k-1), m.fields()...)
	}
	d := embertree.NewNodeContents().(*embertree.NodeContents)
	ok(d.Decode(asn1.NewASNReader(b)), "decode node contents")
	m.check(d, "decoded node contents")
}

// C11_huge : parameter contents with one string, value, limit or default of 1025..70000 bytes or of 130 or 300 arcs next to all the other fields.
func C11_huge() {
	vp.MaxSteps(100000000)
	fs := paramFields()
	var at []int
	for i, f := range fs {
		if f.k < 0 || f.k == kStr {
			at = append(at, i)
		}
	}
	big := at[vp.Choose("field", len(at))]
	has := map[int]val{}
	p := embertree.NewParameterContents().(*pc)
	var ms []fld
	for i, f := range fs {
		k := f.k
		if k < 0 {
			k = (i + 4) % kKinds
		}
		v := val{k: k, s: string(rune('a' + i)), b: true, i: int64(100 * i), buf: []byte{byte(i)}, r: 0.5, o: asn1.RelativeOID{int32(i)}}
		if i == big {
			if f.k < 0 {
				v = hugeVal(vp.Choose("k", 3))
			} else {
				v = hugeVal(0)
			}
		}
		has[f.n] = v
		f.set(p, v)
		ms = append(ms, fld{f.n, v.ber()})
	}
	b := enc(p, "parameter contents")
	if k := vp.Choose("src", 2); k > 0 {
		b = setOf(3, ms...)
	}
	d := embertree.NewParameterContents().(*pc)
	ok(d.Decode(asn1.NewASNReader(b)), "decode parameter contents")
	checkParam(d, fs, has, "decoded parameter")
}

// ---------------------------------------------------------------- C12, C13, C14

// other takes x as a number that none of the rest has.
func other(x int32) int32 {
	vp.Assume(x < 0 || x > 200000)
	return x
}

// C12_huge : matrices with 130 or 300 targets, sources or connections, set through the API or decoded, plain or qualified, one of each arbitrary.
func C12_huge() {
	vp.MaxSteps(100000000)
	f := forms(pick("form", 0, 1))
	k := pick("n", 130, 300)
	n := [][3]int{{k, 1, 0}, {1, k, 1}, {0, 1, k}}[vp.Choose("which", 3)]
	at := pick("at", 0, k-1)
	var tn, sn []int32
	var cm []connModel
	var ts, ss []embertree.Signal
	var cs []*embertree.Connection
	var tb, sb, cb [][]byte
	for i := 0; i < n[0]; i++ {
		x := int32(3 * i)
		if i == at {
			x = other(vp.I32("target"))
		}
		tn, ts, tb = append(tn, x), append(ts, embertree.NewTarget(x)), append(tb, sigMsg(f, app(14), x))
	}
	for i := 0; i < n[1]; i++ {
		x := int32(500 * i)
		if i == at {
			x = other(vp.I32("source"))
		}
		sn, ss, sb = append(sn, x), append(ss, embertree.NewSource(x)), append(sb, sigMsg(f, app(15), x))
	}
	for i := 0; i < n[2]; i++ {
		c := connModel{target: int32(i), sources: asn1.RelativeOID{int32(2 * i)}, op: i % 3, dis: i % 4}
		if i == at {
			c.target = other(vp.I32("connection"))
		}
		cm, cs, cb = append(cm, c), append(cs, c.build()), append(cb, c.msg(f))
	}
	var b []byte
	if f == 1 && vp.Choose("built", 2) == 1 {
		el, err := embertree.NewMatrix(7, embertree.OneToN, embertree.NonLinear)
		ok(err, "matrix")
		ok(el.SetTargets(ts), "set targets")
		ok(el.SetSources(ss), "set sources")
		ok(el.SetConnections(cs), "set connections")
		b = enc(el, "matrix")
	} else {
		tag, id := app(13), berInt(7)
		if vp.Choose("qualified", 2) == 1 {
			tag, id = app(17), berOID(asn1.RelativeOID{2, 7})
		}
		b = elemMsg(f, tag, id, nil, wrap0(f, 3, tb...), wrap0(f, 4, sb...), wrap0(f, 5, cb...))
		d, err := embertree.DecodeElement(asn1.NewASNReader(b))
		ok(err, "decode matrix")
		checkSignals(d, tn, sn, cm)
		b = enc(d, "matrix")
	}
	r := asn1.NewASNReader(cat(b, []byte{5}))
	d, err := embertree.DecodeElement(r)
	ok(err, "decode matrix")
	vp.Assert(r.Len() == 1, "matrix consumed")
	checkSignals(d, tn, sn, cm)
}

// C12_longfields : matrix contents with one string of 1025..70000 bytes or a location of 300 arcs, and 130 or 300 labels.
func C12_longfields() {
	vp.MaxSteps(100000000)
	f := forms(pick("form", 0, 1, 3))
	fs := matrixFields()
	has := map[int]val{}
	ms := []fld{{2, berInt(2)}, {3, berInt(1)}}
	var at []int
	for i, x := range fs {
		if x.k == kStr || x.k == kOID {
			at = append(at, i)
		}
	}
	big := vp.Choose("field", len(at)+1)
	for i, x := range fs {
		v := val{k: x.k, s: string(rune('a' + i)), i: int64(100 * i), o: asn1.RelativeOID{int32(i), 5}}
		if big < len(at) && at[big] == i {
			if x.k == kStr {
				v = hugeVal(0)
			} else {
				v = val{k: kOID, o: longOID("o", 300)}
			}
		}
		has[x.n] = v
		ms = append(ms, fld{x.n, v.ber()})
	}
	if big == len(at) {
		var ls [][]byte
		for i := pick("labels", 130, 300); i > 0; i-- {
			ls = append(ls, f.c(ctx(0), labelMsg(f, asn1.RelativeOID{1, int32(i), 300}, string(rune('a'+i%26)))))
		}
		ms = append(ms, fld{10, f.c(tagSeq, ls...)})
	}
	src := setOf(f, ms...)
	d := embertree.NewDefaultMatrixContents().(*mc)
	ok(d.Decode(asn1.NewASNReader(src)), "decode matrix contents")
	checkMatrix(d, 2, 1, has, "decoded matrix")
	b := enc(d, "re-encode")
	e := embertree.NewDefaultMatrixContents().(*mc)
	ok(e.Decode(asn1.NewASNReader(b)), "decode again")
	checkMatrix(e, 2, 1, has, "matrix decoded again")
	if big == len(at) {
		sameBER(b, src, "labels encoded again")
	}
}

// C13_huge : functions with 130 or 300 arguments or results, names of up to 5000 bytes, and invocations with 130 or 300 arguments of all kinds, one of them arbitrary.
func C13_huge() {
	vp.MaxSteps(100000000)
	f := forms(pick("form", 0, 1, 3))
	n := pick("n", 130, 300)
	if vp.Choose("invocation", 2) == 1 {
		var args []val
		var cps []*embertree.ContentParameter
		at := pick("at", 0, 127, 128, n-1)
		for i := 0; i < n; i++ {
			v := val{k: i % kKinds, s: "text", b: i%2 == 0, i: int64(i*i*i) - 500, buf: []byte{1, byte(i)}, r: float64(i) / 4, o: asn1.RelativeOID{int32(i), 300}}
			if i == at {
				v = anyVal("arg", v.k, true)
			}
			cp := embertree.NewContentParameter()
			v.set(cp)
			args, cps = append(args, v), append(cps, cp)
		}
		want := invMsg(f, 70000, args)
		sameBER(enc(embertree.NewInvocation(70000, cps), "invocation"), want, "invocation encoding")
		d := embertree.NewInvocation(0, nil)
		ok(d.Decode(asn1.NewASNReader(want)), "decode invocation")
		sameBER(enc(d, "re-encode"), want, "invocation re-encoding")
		return
	}
	var many []tuple
	for i := 0; i < n; i++ {
		many = append(many, tuple{i % 8, string(rune('a' + i%26))})
	}
	many[pick("at", 0, 127, 128, n-1)] = tuple{vp.Below("type", 8), long("name", pick("n#", 1, 300, 5000))}
	args, res := many, []tuple{{1, "r"}}
	if vp.Choose("results", 2) == 1 {
		args, res = res, args
	}
	c := embertree.NewFunctionContents().(*embertree.FunctionContents)
	c.SetArguments(buildTuples(args))
	c.SetResult(buildTuples(res))
	b := enc(c, "function")
	if vp.Choose("src", 2) == 1 {
		b = setOf(f, fld{2, tuplesMsg(f, args)}, fld{3, tuplesMsg(f, res)})
	}
	d := embertree.NewFunctionContents().(*embertree.FunctionContents)
	r := asn1.NewASNReader(cat(b, []byte{9}))
	ok(d.Decode(r), "decode function")
	vp.Assert(r.Len() == 1, "function contents consumed")
	checkTuples(d.GetArguments(), args, "arguments")
	checkTuples(d.GetResult(), res, "result")
}

// C14_huge : connections with 300 and 1000 sources, labels with base paths of 300 arcs or descriptions of 1025..70000 bytes.
func C14_huge() {
	vp.MaxSteps(100000000)
	f := forms(pick("form", 0, 1, 3))
	if vp.Choose("label", 2) == 1 {
		base, d := longOID("base", 300), "d"
		if vp.Choose("long", 2) == 1 {
			base, d = asn1.RelativeOID{1, 2}, hugeVal(0).s
		}
		b := enc(embertree.NewLabel(base, d), "label")
		if vp.Choose("src", 2) == 1 {
			b = labelMsg(f, base, d)
		}
		l, err := embertree.DecodeLabel(asn1.NewASNReader(b))
		ok(err, "decode label")
		vp.Assert(eqOID(l.BasePath, base) && eqLit(l.Description, d), "decoded label")
		return
	}
	c := anyConn(0, true)
	c.sources = longOID("src", pick("n", 300, 1000))
	b := enc(c.build(), "connection")
	if vp.Choose("src", 2) == 1 {
		b = c.msg(f)
	}
	var d embertree.Connection
	ok(d.Decode(asn1.NewASNReader(b)), "decode connection")
	c.check(&d, "decoded connection")
}

// ---------------------------------------------------------------- C15, C16, C19, C20, C21, C22

const hugeTrees = 4

// hugeTree is one of four trees of 300 children, 300 roots, 60 levels, and 40 times 6 elements, with large numbers among them.
func hugeTree(i int) []*em {
	k := func(kind, n int, kids ...*em) *em {
		return &em{kind: kind, num: int32(n), has: true, id: string(rune('a' + n%26)), val: int64(n), kids: kids}
	}
	switch i {
	case 0:
		m := k(mNode, 1)
		for j := 0; j < 300; j++ {
			m.kids = append(m.kids, k(j%3, j))
		}
		m.kids[299] = mk(mParam, 1<<30)
		return []*em{m}
	case 1:
		var rs []*em
		for j := 0; j < 300; j++ {
			rs = append(rs, k(j%3, j))
		}
		rs[299] = mk(mParam, 70000)
		return rs
	case 2:
		m := mk(mParam, 5)
		for j := 60; j > 0; j-- {
			m = k(mNode, j, m)
		}
		return []*em{m}
	case 3:
		m := k(mNode, 0)
		for j := 0; j < 40; j++ {
			m.kids = append(m.kids, k(mNode, 100*j, k(mParam, 0), k(mFunc, 1), k(mParam, 2), k(mNode, 3), k(mMatrix, 4), k(mParam, 100000)))
		}
		m.kids[39].kids[3] = mk(mFunc, 9)
		return []*em{m}
	}
	return nil
}

func hugeModel(i int) (*embertree.RootElement, *model) {
	ms := hugeTree(i)
	tree := embertree.NewTree()
	for _, m := range ms {
		tree.AddElement(m.build())
	}
	t := &model{roots: ms, hits: map[*em]int{}}
	t.pin(tree)
	return tree, t
}

// hugePath is the path of one of six elements among all: the first and last ones and some between.
func hugePath(t *model) oid {
	ps := pathsOf(t.roots, nil)
	return ps[pick("at", 0, 1, len(ps)/2, 200%len(ps), len(ps)-2, len(ps)-1)]
}

// C15_huge : trees of 300 children, 300 roots, 60 levels and of 281 elements in three levels, built or decoded in three forms, encoded and decoded again.
func C15_huge() {
	vp.MaxSteps(400000000)
	ms := hugeTree(vp.Choose("tree", hugeTrees))
	tree := embertree.NewTree()
	f := forms(pick("form", 0, 1, 3))
	if f == 1 && vp.Choose("built", 2) == 1 {
		for _, m := range ms {
			tree.AddElement(m.build())
		}
	} else {
		var els [][]byte
		for _, m := range ms {
			els = append(els, m.msg(f))
		}
		decodeInto(tree, rootMsg(f, els...), "reference encoding")
	}
	checkRoot(tree, ms, "tree")
	got := embertree.NewTree()
	decodeInto(got, enc(tree, "tree"), "own encoding")
	checkRoot(got, ms, "decoded tree")
}

// C16_huge : the trees of C15_huge with the forms of their containers following one of four patterns: the same tree.
func C16_huge() {
	vp.MaxSteps(400000000)
	pattern = pick("pattern", 1, 6, 9, 11)
	patternAt = 0
	ms := hugeTree(vp.Choose("tree", hugeTrees))
	var els [][]byte
	for _, m := range ms {
		els = append(els, m.msg(4))
	}
	got := embertree.NewTree()
	decodeInto(got, rootMsg(4, els...), "message")
	checkRoot(got, ms, "tree")
}

// C19_huge : an update of one of six elements of the trees of C15_huge, or a new child below it, plain or qualified; and the whole tree once more: exactly that changes.
func C19_huge() {
	vp.MaxSteps(400000000)
	tree, t := hugeModel(vp.Choose("tree", hugeTrees))
	p := hugePath(t)
	m := mk(t.at(p).kind, p[len(p)-1])
	if vp.Choose("new", 2) == 1 {
		p = append(append(oid{}, p...), 500)
		m = mk(mParam, 500)
	}
	u := upd{p, m}
	if vp.Choose("plain", 2) == 1 {
		u = along(t, p, m)
	}
	us := []upd{u}
	decodeInto(tree, message(0, us), "message")
	t.receive(us)
	checkRoot(tree, t.roots, "updated tree")
	t.pin(tree)
	us = nil
	for _, r := range t.roots {
		c := r.clone()
		c.id = "A" + c.id
		us = append(us, upd{nil, c})
	}
	decodeInto(tree, message(0, us), "whole tree")
	t.receive(us)
	checkRoot(tree, t.roots, "tree updated as a whole")
}

// C20_huge : six elements of each of the trees of C15_huge, or an arbitrary child of them, looked up: found exactly when they exist, at their path.
func C20_huge() {
	vp.MaxSteps(400000000)
	tree, t := hugeModel(vp.Choose("tree", hugeTrees))
	path := hugePath(t)
	if vp.Choose("more", 2) == 1 {
		path = append(append(oid{}, path...), vp.I32("arc"))
	}
	p, e := tree.GetElementByPath(path)
	me, mp := t.at(path), (*em)(nil)
	if len(path) > 1 {
		mp = t.at(path[:len(path)-1])
	}
	if me == nil {
		vp.Assert(e == nil, "element that does not exist")
	} else {
		vp.Assert(e == me.ptr && eqOID(e.GetPath(), path), "element at its path")
	}
	if mp == nil {
		vp.Assert(p == nil, "parent that does not exist")
	} else {
		vp.Assert(p == mp.ptr, "parent at its path")
	}
}

// C21_huge : 130 or 300 listeners of an element or of the tree, one of them removed, before or within a notification: every other one gets each of three updates.
func C21_huge() {
	vp.MaxSteps(100000000)
	tree := embertree.NewTree()
	t := baseTree(tree)
	e := t.roots[0].ptr
	root := vp.Choose("root", 2) == 1
	n := pick("n", 130, 300)
	add, remove := e.AddListener, e.RemoveListener
	if root {
		add, remove = tree.AddListener, tree.RemoveListener
	}
	var ps []*probe
	for i := 0; i < n; i++ {
		p := &probe{}
		ps = append(ps, p)
		add(p)
	}
	k := pick("which", 0, 64, n-1)
	self := vp.Choose("self", 2) == 1
	send := func() { decodeInto(tree, message(0, update(0)), "message") }
	send()
	if self {
		ps[k].act = func() { remove(ps[k]) }
	} else {
		remove(ps[k])
	}
	send()
	send()
	for i, p := range ps {
		want := 3
		if i == k {
			want = 1
			if self {
				want = 2
			}
		}
		vp.Assert(p.n == want, "notifications")
	}
}

// C22_huge : requests for six elements of each of the trees of C15_huge, qualified and through their parents, address that element; so do those of a qualified element with a path of 300 arcs.
func C22_huge() {
	vp.MaxSteps(400000000)
	i := vp.Choose("tree", hugeTrees+1)
	if i == hugeTrees {
		path := longOID("path", 300)
		kind := vp.Choose("kind", 4)
		e, err := embertree.DecodeElement(asn1.NewASNReader(mk(kind, path[299]).qmsg(0, path)))
		ok(err, "decode")
		want := elemMsg(1, qualTag[kind], berOID(path), nil, emptyTail(1, kind, cmdMsg(1))...)
		sameBER(enc(e.GetQualifiedDirectoryMsg(nil), "request"), rootMsg(1, want), "qualified request")
		return
	}
	_, t := hugeModel(i)
	p := hugePath(t)
	m := t.at(p)
	qual := elemMsg(1, qualTag[m.kind], berOID(p), nil, emptyTail(1, m.kind, cmdMsg(1))...)
	sameBER(enc(m.ptr.GetQualifiedDirectoryMsg(nil), "request"), rootMsg(1, qual), "qualified request")
	req, err := m.ptr.GetDirectoryMsg(nil)
	ok(err, "request")
	want := cmdMsg(1)
	for i := len(p) - 1; i >= 0; i-- {
		k := t.at(p[:i+1]).kind
		want = elemMsg(1, plainTag[k], berInt(int64(p[i])), nil, emptyTail(1, k, want)...)
	}
	sameBER(enc(req, "request"), rootMsg(1, want), "request through the parents")
}

// ---------------------------------------------------------------- C23, C24

// C23_huge : messages of 33000, 66000 and 100000 bytes with an arbitrary last byte: split in packets, their format and bounded size, and delivered whole.
func C23_huge() {
	n := pick("n", 33000, 66000, 100000)
	data := filler(vp.Choose("filler", 3), n)
	data[n-1] = vp.U8("b")
	vp.MaxSteps(400000000)
	fs := frames(data)
	var all []byte
	total := 0
	for _, f := range fs {
		vp.Assert(len(f) <= 2*1024+40, "bounded size")
		all = append(all, f...)
		total += len(f)
	}
	vp.Assert(len(fs) >= n/1024 && total > n, "split in packets")
	var s sink
	feed(s.decoder(), all, len(all)/2)
	s.want(data)
	vp.Assert(s.errs == 0, "no error")
}

// ---------------------------------------------------------------- C33, C34, C36

// C33_huge : texts of 300, 5000 and 70000 bytes and lines with 40 arguments are printed whole, or not at all.
func C33_huge() {
	vp.MaxSteps(100000000)
	level := pick("level", 2, 3, 5, 6, 7)
	l := logger.NewConsoleLogger(logger.LogLevel(level))
	admitted := logger.LogLevel(level) >= logger.DebugLevel
	s := strings.Repeat("0123456789", pick("n", 30, 500, 7000))
	_, text := vp.Capture(func() { l.Debug(s) })
	vp.Assert(text == "" && !admitted || text == s && admitted, "long text")
	var a []interface{}
	for i := 0; i < 40; i++ {
		a = append(a, i%10)
	}
	_, text = vp.Capture(func() { l.Debugln(a...) })
	want := strings.Repeat("0 1 2 3 4 5 6 7 8 9 ", 4)
	want = want[:len(want)-1] + "\n"
	vp.Assert(text == "" && !admitted || text == want && admitted, "many arguments")
}

// C34_huge : the text of a tree of 130 or 300 elements, of an element with strings of 5000 bytes, and of a path of 130 or 300 arcs names all of it.
func C34_huge() {
	vp.MaxSteps(100000000)
	switch vp.Choose("what", 3) {
	case 0:
		n := pick("n", 130, 300)
		below := vp.Choose("below", 2) == 1
		tree := embertree.NewTree()
		top := embertree.NewNode(7)
		if below {
			tree.AddElement(top)
		}
		for i := 0; i < n; i++ {
			e := embertree.NewNode(1000 + i)
			e.CreateContent().(*embertree.NodeContents).SetIdentifier("id" + string(rune('A'+i/26)) + string(rune('a'+i%26)))
			if below {
				ok(top.AddChild(e), "child")
			} else {
				tree.AddElement(e)
			}
		}
		text := tree.ToString()
		for _, i := range []int{0, 1, 63, 64, 99, 127, 128, n - 1} {
			mentions(text, "id"+string(rune('A'+i/26))+string(rune('a'+i%26)))
		}
	case 1:
		s := strings.Repeat("0123456789", 500)
		n := embertree.NewNodeContents().(*embertree.NodeContents)
		n.SetIdentifier("x" + s)
		n.SetDescription(s + "y")
		mentions(n.ToString(), "x"+s, s+"y")
		p := embertree.NewParameterContents().(*pc)
		p.SetIdentifier("x" + s)
		p.SetDescription(s + "y")
		p.SetFormat("z" + s)
		p.GetValueObject().SetString(s + "v")
		mentions(p.ToString(), "x"+s, s+"y", "z"+s, s+"v")
	case 2:
		var want []byte
		path := asn1.RelativeOID{}
		for i, n := 0, pick("n", 130, 300); i < n; i++ {
			if i > 0 {
				want = append(want, '.')
			}
			want = append(want, byte('0'+i%10))
			path = append(path, int32(i%10))
		}
		vp.Assert(embertree.Path2String(path) == string(want), "path")
	}
}

// C36_huge : a message of 5000 bytes and 300 propagations.
func C36_huge() {
	vp.MaxSteps(100000000)
	s := strings.Repeat("0123456789", 500)
	e := errors.New("%s", s)
	for i := 0; i < 300; i++ {
		e = errors.Update(e)
	}
	vp.Assert(e.Message.Error() == s && len(e.Stack) == 301, "message and trace")
}
