package props

import (
	"github.com/dufourgilles/emberlib/asn1"
	"github.com/dufourgilles/emberlib/embertree"
	"github.com/dufourgilles/emberlib/errors"
	"verif/harness/vp"
)

// ---- reference model of a tree ----

const (
	mNode = iota
	mParam
	mFunc
	mMatrix
)

var (
	plainTag = []byte{app(3), app(1), app(19), app(13)}
	qualTag  = []byte{app(10), app(9), app(20), app(17)}
)

type em struct {
	kind int
	num  int32
	has  bool // carries contents
	id   string
	val  int64 // parameters: the value
	kids []*em
	ptr  *embertree.Element // the element the tree is expected to keep
}

func (m *em) child(n int32) *em {
	for _, k := range m.kids {
		if k.num == n {
			return k
		}
	}
	return nil
}

// bushy trees have siblings, which are encoded in any order.
func (m *em) bushy() bool {
	for _, k := range m.kids {
		if k.bushy() {
			return true
		}
	}
	return len(m.kids) > 1
}

func (m *em) clone() *em {
	c := *m
	c.kids = nil
	for _, k := range m.kids {
		c.kids = append(c.kids, k.clone())
	}
	return &c
}

func mk(kind int, num int32, kids ...*em) *em {
	m := &em{kind: kind, num: num, has: true, id: vp.Str("id", 1), kids: kids}
	if kind == mParam {
		m.val = int64(vp.U8("val") & 0x7f)
	}
	return m
}

func (m *em) bare() *em { m.has, m.id, m.val = false, "", 0; return m }

func (m *em) build() *embertree.Element {
	var e *embertree.Element
	switch m.kind {
	case mNode:
		e = embertree.NewNode(int(m.num))
		if m.has {
			e.CreateContent().(*embertree.NodeContents).SetIdentifier(m.id)
		}
	case mParam:
		e = embertree.NewParameter(int(m.num))
		if m.has {
			c := e.CreateContent().(*pc)
			c.SetIdentifier(m.id)
			c.GetValueObject().SetInt(m.val)
		}
	case mFunc:
		e = embertree.NewFunction(int(m.num))
		if m.has {
			e.CreateContent().(*embertree.FunctionContents).SetIdentifier(m.id)
		}
	case mMatrix:
		e, _ = embertree.NewMatrix(int(m.num), embertree.NToN, embertree.NonLinear)
		if !m.has { // only decoding yields such an element
			var err errors.Error
			b := *m
			b.kids = nil
			e, err = embertree.DecodeElement(asn1.NewASNReader(b.msg(0)))
			ok(err, "bare matrix")
		} else {
			e.GetContent().(*mc).SetIdentifier(m.id)
		}
	}
	for _, k := range m.kids {
		ok(e.AddChild(k.build()), "add child")
	}
	return e
}

func (m *em) contents(f forms) []byte {
	switch {
	case !m.has:
		return nil
	case m.kind == mParam:
		return setOf(f, fld{0, berStr(m.id)}, fld{2, berInt(m.val)})
	case m.kind == mMatrix:
		return matrixSet(f, embertree.NToN, embertree.NonLinear, []fld{{0, berStr(m.id)}}, []byte{})
	}
	return setOf(f, fld{0, berStr(m.id)})
}

func (m *em) tail(f forms) [][]byte {
	var ps [][]byte
	if len(m.kids) > 0 {
		var ks [][]byte
		for _, k := range m.kids {
			ks = append(ks, f.c(ctx(0), k.msg(f)))
		}
		ps = append(ps, f.c(ctx(2), f.c(app(4), ks...)))
	}
	if m.kind == mMatrix {
		ps = append(ps, wrap0(f, 3), wrap0(f, 4), wrap0(f, 5))
	}
	return ps
}

// msg is the element as a child; qmsg the qualified form.
func (m *em) msg(f forms) []byte {
	return elemMsg(f, plainTag[m.kind], berInt(int64(m.num)), m.contents(f), m.tail(f)...)
}
func (m *em) qmsg(f forms, path asn1.RelativeOID) []byte {
	return elemMsg(f, qualTag[m.kind], berOID(path), m.contents(f), m.tail(f)...)
}

func rootMsg(f forms, els ...[]byte) []byte {
	var ps [][]byte
	for _, e := range els {
		ps = append(ps, f.c(ctx(0), e))
	}
	return f.c(app(0), f.c(app(11), ps...))
}

type identified interface {
	GetIdentifier() (string, errors.Error)
}

func (m *em) check(e *embertree.Element, parent *embertree.Element, path asn1.RelativeOID, label string) {
	vp.Assert(e != nil, label+": element present")
	if m.ptr != nil {
		vp.Assert(e == m.ptr, label+": element kept in place")
	}
	vp.Assert(e.Number == int(m.num), label+": number")
	vp.Assert(vp.Or(e.GetTag() == plainTag[m.kind], e.GetTag() == qualTag[m.kind]), label+": type")
	p, err := e.GetParent()
	vp.Assert(err == nil && p == parent, label+": parent")
	path = append(path[:len(path):len(path)], m.num)
	vp.Assert(eqOID(e.GetPath(), path), label+": path")
	c := e.GetContent()
	c2, err := e.GetContents()
	vp.Assert(err == nil && c2 == c, label+": contents by either getter")
	if m.has {
		vp.Assert(c != nil, label+": contents present")
		s, err := c.(identified).GetIdentifier()
		vp.Assert(err == nil && eqLit(s, m.id), label+": contents value")
		if m.kind == mParam {
			v, err := c.(*pc).GetValueObject().GetInt()
			vp.Assert(err == nil && v == m.val, label+": parameter value")
		}
	} else {
		vp.Assert(c == nil, label+": no contents")
	}
	vp.Assert(len(e.Children) == len(m.kids), label+": number of children")
	for _, k := range m.kids {
		k.check(e.Children[int(k.num)], e, path, label)
	}
}

func checkRoot(r *embertree.RootElement, ms []*em, label string) {
	vp.Assert(len(r.RootElementCollection) == len(ms), label+": number of root elements")
	for _, m := range ms {
		m.check(r.GetElementByNumber(int(m.num)), nil, nil, label)
	}
}

// pin records the elements the tree holds now: later messages must keep them.
func (m *em) pin(e *embertree.Element) {
	m.ptr = e
	for _, k := range m.kids {
		k.pin(e.Children[int(k.num)])
	}
}

func decodeInto(r *embertree.RootElement, msg []byte, label string) {
	rd := asn1.NewASNReader(msg)
	ok(r.Decode(rd), label+": decode")
	vp.Assert(rd.Len() == 0, label+": message consumed")
}

// ---------------------------------------------------------------- C15

// anyTree is an arbitrary tree of at most n elements below and including m, at most depth levels.
func anyTree(num int32, depth int, left *int, kinds int) *em {
	*left--
	m := mk(vp.Choose("kind", kinds), num)
	if depth > 1 {
		for i := int32(0); *left > 0 && i < 3; i++ {
			if vp.Choose("child", 2) == 0 {
				break
			}
			m.kids = append(m.kids, anyTree(10*num+i, depth-1, left, kinds))
		}
	}
	return m
}

// C15_shapes : every tree of up to 5 elements (7 in the thorough tier) in up to 3 levels below one or two root elements, nodes and parameters, any map order:
// what is encoded decodes to the same tree; so does the reference encoding.
func C15_shapes() {
	vp.MapAnyOrder(true)
	left := 5
	if vp.Thorough() {
		left = 7
	}
	ms := []*em{anyTree(1, 3, &left, 2)}
	if left > 0 && vp.Choose("second root", 2) == 1 {
		ms = append(ms, anyTree(2, 2, &left, 2))
	}
	tree := embertree.NewTree()
	var els [][]byte
	for _, m := range ms {
		tree.AddElement(m.build())
		els = append(els, m.msg(1))
	}
	checkRoot(tree, ms, "built tree")
	b := enc(tree, "tree")
	vp.Assert(len(norm(b)) == len(rootMsg(1, els...)), "tree encoded completely")
	got := embertree.NewTree()
	decodeInto(got, b, "own encoding")
	checkRoot(got, ms, "decoded tree")
}

// C15_reference : every tree of up to 4 elements (5 in the thorough tier) of all four types, decoded from the reference encoding in both forms and re-encoded.
func C15_reference() {
	left := 4
	if vp.Thorough() {
		left = 5
	}
	m := anyTree(1, 3, &left, 4)
	if vp.Choose("bare", 2) == 1 {
		m.bare()
	}
	f := forms(vp.Choose("form", 2))
	vp.MapAnyOrder(true)
	got := embertree.NewTree()
	decodeInto(got, rootMsg(f, m.msg(f)), "reference encoding")
	checkRoot(got, []*em{m}, "decoded tree")
	if m.bushy() {
		vp.Assert(len(norm(enc(got, "re-encode"))) == len(rootMsg(1, m.msg(1))), "tree encoded completely")
		return
	}
	sameBER(enc(got, "re-encode"), rootMsg(1, m.msg(1)), "re-encoded tree")
	sameBER(enc(m.build(), "element"), m.msg(1), "built element")
}

// C15_numbers : three levels and two siblings with any distinct numbers 0..127 (any int32 in the single chain), contents present or not.
func C15_numbers() {
	wide := vp.Choose("wide", 2) == 1
	num := func(n string) int32 { return num32(n, !wide) }
	a, b := mk(mNode, num("a")), mk(mParam, num("b"))
	a.kids = []*em{b}
	if wide {
		vp.Assume(a.num >= 0)
	} else {
		c := mk(mFunc, num("c"))
		vp.Assume(c.num != b.num)
		a.kids = append(a.kids, c)
		if vp.Choose("bare", 2) == 1 {
			c.bare()
		}
	}
	top := mk(mNode, 3)
	if vp.Choose("top bare", 2) == 1 {
		top.bare()
	}
	top.kids = []*em{a}
	vp.MapAnyOrder(true)
	tree := embertree.NewTree()
	tree.AddElement(top.build())
	got := embertree.NewTree()
	decodeInto(got, enc(tree, "tree"), "own encoding")
	checkRoot(got, []*em{top}, "decoded tree")
	got = embertree.NewTree()
	decodeInto(got, rootMsg(0, top.msg(0)), "reference encoding")
	checkRoot(got, []*em{top}, "decoded reference tree")
}

// C15_empty : an empty tree encodes to an empty root, which decodes to an empty tree.
func C15_empty() {
	got := embertree.NewTree()
	b := enc(embertree.NewTree(), "empty tree")
	sameBER(b, tlv(app(0)), "empty root")
	checkRoot(got, nil, "empty")
	f := forms(vp.Choose("form", 2))
	decodeInto(got, rootMsg(f), "empty collection")
	checkRoot(got, nil, "empty collection")
}

// C15_qualified : qualified elements of every type, any path of 1..3 arcs, decode and encode as such, with children.
func C15_qualified() {
	f := forms(vp.Choose("form", 2))
	kind := vp.Choose("kind", 4)
	path := symOID("path", 1+vp.Choose("path#", 3))
	m := mk(kind, path[len(path)-1])
	if vp.Choose("bare", 2) == 1 {
		m.bare()
	}
	for i := vp.Choose("kids", 3); i > 0; i-- {
		m.kids = append(m.kids, mk(mParam, int32(i)))
	}
	vp.MapAnyOrder(true)
	e, err := embertree.DecodeElement(asn1.NewASNReader(m.qmsg(f, path)))
	ok(err, "decode qualified element")
	m.check(e, nil, path[:len(path)-1], "qualified element")
	vp.Assert(e.GetTag() == qualTag[kind], "qualified tag")
	if len(m.kids) < 2 {
		sameBER(enc(e, "re-encode"), m.qmsg(f, path), "qualified re-encoding")
	}
}

// ---------------------------------------------------------------- C16

// formMessages returns message i built with form f, and a decoder that returns the re-encoding of what was decoded.
func formMessage(i int, f func() forms, x formVals) ([]byte, func([]byte) []byte) {
	m := &msgBuilder{f}
	element := func(b []byte) []byte {
		in := cat(b, []byte{9})
		r := asn1.NewASNReader(in)
		e, err := embertree.DecodeElement(r)
		ok(err, "decode element")
		vp.Assert(r.Len() == 1, "element consumed")
		spoil(in)
		return enc(e, "element")
	}
	root := func(b []byte) []byte {
		t := embertree.NewTree()
		decodeInto(t, b, "root")
		spoil(b)
		return enc(t, "root")
	}
	contents := func(c embertree.EmberContents) func([]byte) []byte {
		return func(b []byte) []byte {
			in := cat(b, []byte{9})
			r := asn1.NewASNReader(in)
			ok(c.Decode(r), "decode contents")
			vp.Assert(r.Len() == 1, "contents consumed")
			spoil(in)
			return enc(c, "contents")
		}
	}
	c := m.c
	switch i {
	case 0: // root with a node and a parameter
		return c(app(0), c(app(11), c(ctx(0), c(app(3), c(ctx(0), berInt(1)), c(ctx(2), c(app(4), c(ctx(0), c(app(1), c(ctx(0), berInt(2)))))))))), root
	case 1: // parameter with contents
		return c(app(1), c(ctx(0), berInt(1)), c(ctx(1), c(tagSet, c(ctx(0), berStr(x.s)), c(ctx(2), berInt(x.i)), c(ctx(9), berBool(x.b)), c(ctx(18), berOID(x.o))))), element
	case 2: // node contents
		return c(tagSet, c(ctx(0), berStr(x.s)), c(ctx(1), berStr(x.s)), c(ctx(2), berBool(x.b)), c(ctx(3), berBool(x.b)), c(ctx(5), berOID(x.o))), contents(embertree.NewNodeContents())
	case 3: // matrix labels
		return c(tagSet, c(ctx(2), berInt(1)), c(ctx(3), berInt(0)), c(ctx(10), c(tagSeq, c(ctx(0), c(app(18), c(ctx(0), berOID(x.o)), c(ctx(1), berStr(x.s))))))), contents(embertree.NewDefaultMatrixContents())
	case 4: // matrix signals
		return c(app(13), c(ctx(0), berInt(1)), c(ctx(3), c(tagSeq, c(ctx(0), c(app(14), c(ctx(0), berInt(x.i)))))), c(ctx(4), c(tagSeq)), c(ctx(5), c(tagSeq))), element
	case 5:
		return c(app(17), c(ctx(0), berOID(x.o)), c(ctx(4), c(tagSeq, c(ctx(0), c(app(15), c(ctx(0), berInt(x.i)))))), c(ctx(3), c(tagSeq)), c(ctx(5), c(tagSeq))), element
	case 6: // connection in a matrix
		return c(app(13), c(ctx(0), berInt(1)), c(ctx(5), c(tagSeq, c(ctx(0), c(app(16), c(ctx(0), berInt(x.i)), c(ctx(1), berOID(x.o)), c(ctx(2), berInt(1)), c(ctx(3), berInt(2)))))), wrap0(1, 3), wrap0(1, 4)), element
	case 7: // function
		return c(tagSet, c(ctx(0), berStr(x.s)), c(ctx(2), c(tagSeq, c(ctx(0), c(app(21), c(ctx(0), berInt(x.i)), c(ctx(1), berStr(x.s)))))), c(ctx(4), berOID(x.o))), contents(embertree.NewFunctionContents())
	case 8: // command in a qualified node
		return c(app(10), c(ctx(0), berOID(x.o)), c(ctx(2), c(app(4), c(ctx(0), c(app(2), c(ctx(0), berInt(32)), c(ctx(1), berInt(-1))))))), element
	case 9: // invocation
		return c(app(22), c(ctx(0), berInt(x.i)), c(ctx(1), c(tagSeq, c(ctx(0), berInt(x.i)), c(ctx(0), berStr(x.s)), c(ctx(0), berBits([]byte(x.s)))))), func(b []byte) []byte {
			d := embertree.NewInvocation(0, nil)
			in := cat(b, []byte{9})
			r := asn1.NewASNReader(in)
			ok(d.Decode(r), "decode invocation")
			vp.Assert(r.Len() == 1, "invocation consumed")
			spoil(in)
			return enc(d, "invocation")
		}
	}
	return nil, nil
}

const formMessages = 10

type formVals struct {
	s string
	i int64
	b bool
	o asn1.RelativeOID
}

// spoil is what happens to the input of a decoder as soon as it is decoded.
func spoil(b []byte) {
	if afterDecode != nil {
		afterDecode(b)
	}
}

var afterDecode func([]byte)

type msgBuilder struct{ f func() forms }

func (m *msgBuilder) c(tag byte, parts ...[]byte) []byte { return m.f().c(tag, parts...) }

// C16_mixed : ten messages covering every container of the protocol (up to 14 nested or sibling containers), every choice of definite or
// indefinite form per container, symbolic values: the decoded result, re-encoded, is the one of the message.
func C16_mixed() {
	i := vp.Choose("message", formMessages)
	x := formVals{vp.Str("s", 1), int64(vp.U8("i") & 0x7f), vp.Bool("b"), smallOID("o", 2)}
	def, _ := formMessage(i, func() forms { return 1 }, x)
	mix, dec := formMessage(i, func() forms { return 2 }, x)
	vp.Assert(len(norm(mix)) == len(def), "reference encoder")
	sameBER(dec(mix), def, "container form changes the result")
}

// C16_long : a definite container whose contents are longer than 127 and 255 bytes (two- and three-byte headers), nested in either form.
func C16_long() {
	n := []int{100, 130, 260}[vp.Choose("n", 3)]
	s := make([]byte, n)
	for i := range s {
		s[i] = 'a'
	}
	s[0], s[n-1] = vp.U8("first"), vp.U8("last")
	f := forms(vp.Choose("form", 3))
	m := &em{kind: mNode, num: 4, has: true, id: string(s)}
	got := embertree.NewTree()
	decodeInto(got, rootMsg(f, m.msg(f)), "long contents")
	checkRoot(got, []*em{m}, "long contents")
}

// ---------------------------------------------------------------- C17

var decoders = []func(*asn1.ASNReader) errors.Error{
	func(r *asn1.ASNReader) errors.Error { return embertree.NewTree().Decode(r) },
	func(r *asn1.ASNReader) errors.Error { _, e := embertree.DecodeElement(r); return e },
	func(r *asn1.ASNReader) errors.Error { return embertree.NewNodeContents().Decode(r) },
	func(r *asn1.ASNReader) errors.Error { return embertree.NewParameterContents().Decode(r) },
	func(r *asn1.ASNReader) errors.Error { return embertree.NewDefaultMatrixContents().Decode(r) },
	func(r *asn1.ASNReader) errors.Error { return embertree.NewFunctionContents().Decode(r) },
	func(r *asn1.ASNReader) errors.Error { return embertree.NewCommandContents().Decode(r) },
	func(r *asn1.ASNReader) errors.Error { return embertree.NewInvocation(0, nil).Decode(r) },
	func(r *asn1.ASNReader) errors.Error { return (&embertree.Connection{}).Decode(r) },
	func(r *asn1.ASNReader) errors.Error { return (&embertree.TupleDescription{}).Decode(r) },
	func(r *asn1.ASNReader) errors.Error { _, e := embertree.DecodeLabel(r); return e },
	func(r *asn1.ASNReader) errors.Error { _, e := embertree.DecodeSignal(r); return e },
	func(r *asn1.ASNReader) errors.Error { _, e := embertree.DecodeValue(r, 2); return e },
	func(r *asn1.ASNReader) errors.Error { m, _ := embertree.NewMatrix(1, 0, 0); return m.DecodeTargets(r) },
	func(r *asn1.ASNReader) errors.Error { m, _ := embertree.NewMatrix(1, 0, 0); return m.DecodeSources(r) },
	func(r *asn1.ASNReader) errors.Error { m, _ := embertree.NewMatrix(1, 0, 0); return m.DecodeConnections(r) },
}

func total(d func(*asn1.ASNReader) errors.Error, b []byte) {
	r := asn1.NewASNReader(b)
	vp.AllocLimit(64)
	vp.MaxSteps(200000)
	err := d(r)
	vp.Assert(r.Len() >= 0 && r.Len() <= len(b), "position inside the buffer")
	if err != nil {
		vp.Assert(err.Message != nil, "error carries a message")
	}
}

// C17_bytes : every decoder of the package on every buffer of 0..5 bytes (6 in the thorough tier).
func C17_bytes() {
	max := 5
	if vp.Thorough() {
		max = 6
	}
	d := decoders[vp.Choose("decoder", len(decoders))]
	total(d, vp.Bytes("b", vp.Choose("n", max+1)))
}

func c17Message(i int) ([]byte, func(*asn1.ASNReader) errors.Error) {
	x := formVals{"s", 5, true, asn1.RelativeOID{1, 2}}
	f := forms(vp.Choose("form", 2))
	b, _ := formMessage(i, func() forms { return f }, x)
	return b, decoders[[]int{0, 1, 2, 4, 1, 1, 1, 5, 1, 7}[i]]
}

// C17_window : the ten messages of C16 in both forms with two adjacent bytes (three in the thorough tier) replaced by arbitrary ones, at every position.
func C17_window() {
	b, d := c17Message(vp.Choose("message", formMessages))
	w := 2
	if vp.Thorough() {
		w = 3
	}
	at := vp.Choose("at", len(b)-w+1)
	b = append([]byte(nil), b...)
	copy(b[at:], vp.Bytes("w", w))
	total(d, b)
}

// C17_cut : the same messages cut at every position, the last remaining byte arbitrary.
func C17_cut() {
	b, d := c17Message(vp.Choose("message", formMessages))
	b = append([]byte(nil), b[:vp.Choose("cut", len(b))]...)
	if len(b) > 0 {
		b[len(b)-1] = vp.U8("last")
	}
	total(d, b)
}

// C17_prefix : every decoder behind its own container tag and header (both forms), followed by 4 arbitrary bytes (5 in the thorough tier).
func C17_prefix() {
	tags := []byte{app(0), app(3), tagSet, tagSet, tagSet, tagSet, tagInt, app(22), app(16), app(21), app(18), app(14), ctx(2), ctx(3), ctx(4), ctx(5)}
	i := vp.Choose("decoder", len(decoders))
	n := 4
	if vp.Thorough() {
		n = 5
	}
	b := vp.Bytes("b", n)
	if vp.Choose("form", 2) == 0 {
		total(decoders[i], cat([]byte{tags[i], 0x80}, b))
	} else {
		total(decoders[i], tlv(tags[i], b))
	}
}
