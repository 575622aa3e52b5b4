package props

import (
	"github.com/dufourgilles/emberlib/asn1"
	"github.com/dufourgilles/emberlib/embertree"
	"github.com/dufourgilles/emberlib/errors"
	"verif/harness/vp"
)

// Larger structures and other orders: most of the structure is fixed, the rest symbolic.

// perm is an order of n things chosen by the engine.
func perm(n int) []int {
	var left, out []int
	for i := 0; i < n; i++ {
		left = append(left, i)
	}
	for len(left) > 0 {
		k := 0
		if len(left) > 1 {
			k = vp.Choose("perm", len(left))
		}
		out = append(out, left[k])
		left = append(append([]int(nil), left[:k]...), left[k+1:]...)
	}
	return out
}

func pick(name string, xs ...int) int { return xs[vp.Choose(name, len(xs))] }

// long is a string of n bytes, first and last arbitrary.
func long(name string, n int) string {
	b := filler(1, n)
	if n > 0 {
		b[0], b[n-1] = vp.U8(name), vp.U8(name)
	}
	return string(b)
}

// longOID has n arcs of every encoded size, one of them any non negative int32.
func longOID(name string, n int) asn1.RelativeOID {
	o := make(asn1.RelativeOID, n)
	for i := range o {
		o[i] = int32(1) << uint(i%31)
	}
	if n > 0 {
		i := []int{0, n / 2, n - 1}[vp.Choose(name+"@", 3)]
		o[i] = vp.I32(name)
		vp.Assume(o[i] >= 0)
	}
	return o
}

// ---------------------------------------------------------------- C01, C02, C03

// C02_series : series of three small values of any of six kinds, and of 30 values in turn, written to one writer and read back in order.
func C02_series() {
	var vs []val
	if vp.Choose("many", 2) == 0 {
		for i := 0; i < 3; i++ {
			vs = append(vs, anyVal("v", vp.Choose("k", kKinds), true))
		}
	} else {
		from := vp.Choose("k", kKinds)
		for i := 0; i < 30; i++ {
			vs = append(vs, val{k: (from + i) % kKinds, s: "text", b: i%2 == 0, i: int64(i*i*i) - 5000, buf: filler(2, i), r: float64(i) / 4, o: asn1.RelativeOID{int32(i), 300}})
		}
		vs[7] = anyVal("v", vp.Choose("k7", kKinds), true)
	}
	w := asn1.NewASNWriter()
	var want []byte
	for _, v := range vs {
		switch v.k {
		case kStr:
			ok(w.WriteString(v.s), "write")
		case kBool:
			ok(w.WriteBoolean(v.b), "write")
		case kInt:
			ok(w.WriteInt64(v.i), "write")
		case kBuf:
			ok(w.WriteBuffer(v.buf, tagBits), "write")
		case kReal:
			ok(w.WriteReal(v.r), "write")
		case kOID:
			ok(w.WriteRelativeOID(v.o), "write")
		}
		want = append(want, v.ber()...)
		vp.Assert(w.Len() == len(want), "bytes written")
	}
	b := drain(w)
	vp.Assert(vp.EqBytes(b, want), "series encoding")
	vp.Assert(w.Len() == 0, "writer drained")
	r := asn1.NewASNReader(b)
	for _, v := range vs {
		var err errors.Error
		switch v.k {
		case kStr:
			s, e := r.ReadString()
			err = e
			vp.Assert(eqLit(s, v.s), "string of a series")
		case kBool:
			x, e := r.ReadBoolean()
			err = e
			vp.Assert(x == v.b, "bool of a series")
		case kInt:
			x, e := r.ReadInt64()
			err = e
			vp.Assert(x == v.i, "int of a series")
		case kBuf:
			x, e := r.ReadBitString()
			err = e
			vp.Assert(len(x) == len(v.buf) && vp.EqBytes(x, v.buf), "buffer of a series")
		case kReal:
			x, e := r.ReadReal()
			err = e
			vp.Assert(x == v.r, "real of a series")
		case kOID:
			x, e := r.ReadOID(asn1.EMBER_RELATIVE_OID)
			err = e
			vp.Assert(eqOID(x, v.o), "oid of a series")
		}
		ok(err, "read")
	}
	vp.Assert(r.Len() == 0, "series consumed")
}

// C02_containers : containers nested 1..8 deep written by StartSequence and EndSequence, with a string of 0, 5, 130 or 300 bytes inside and one behind each:
// the bytes are those of the reference, in either form, for every tag of the innermost.
func C02_containers() {
	d := 1 + vp.Choose("depth", 8)
	tag := vp.U8("tag") | 0x20
	s := long("s", pick("n", 0, 5, 130, 300))
	w := asn1.NewASNWriter()
	for i := 0; i < d-1; i++ {
		ok(w.StartSequence(ctx(i)), "start")
	}
	ok(w.StartSequence(tag), "start")
	ok(w.WriteString(s), "write")
	want := berStr(s)
	for i := d - 1; i >= 0; i-- {
		ok(w.EndSequence(), "end")
		if i == d-1 {
			want = tlv(tag, want)
		} else {
			want = tlv(ctx(i), want)
		}
		ok(w.WriteInt(i), "write")
		want = cat(want, berInt(int64(i)))
	}
	for b := drain(w); len(b) > 0 || len(want) > 0; {
		vp.Assert(len(b) > 0 && len(want) > 0, "same number of values")
		var x, y []byte
		x, b, _ = normOne(b)
		y, want, _ = normOne(want)
		vp.Assert(len(x) == len(y) && vp.EqBytes(x, y), "containers")
	}
}

// ---------------------------------------------------------------- C04

// C04_many : identifiers of 4, 5, 9, 17, 33, 64 arcs of every encoded size, one of them (first, middle, last) any non negative int32.
func C04_many() {
	oidTrip(longOID("o", pick("n", 4, 5, 9, 17, 33, 64)))
}

// ---------------------------------------------------------------- C07

// C07_deep : containers nested 4..20 deep, each with one arbitrary byte before and after the next: contents, offsets and positions.
func C07_deep() {
	d := pick("depth", 4, 7, 12, 20)
	pre, post := vp.Bytes("pre", d), vp.Bytes("post", d)
	msg := []byte{}
	off := make([]int, d)
	n := make([]int, d)
	for i := d - 1; i >= 0; i-- {
		c := cat([]byte{pre[i]}, msg, []byte{post[i]})
		n[i] = len(c)
		off[i] = 1 + len(lenHdr(len(c)))
		msg = tlv(ctx(i%31), c)
	}
	r := asn1.NewASNReader(msg)
	var open []*asn1.ASNReader
	base := 0
	for i := 0; i < d; i++ {
		l, s, err := r.ReadSequenceStart(ctx(i % 31))
		ok(err, "container start")
		base += off[i]
		vp.Assert(l == n[i] && s.Len() == n[i] && s.TopOffset() == base, "container")
		b, err := s.ReadByte()
		ok(err, "pre")
		vp.Assert(b == pre[i], "byte before")
		base++
		open = append(open, r)
		r = s
	}
	for i := d - 1; i >= 0; i-- {
		b, err := r.ReadByte()
		ok(err, "post")
		vp.Assert(b == post[i] && r.Len() == 0, "byte behind")
		r = open[i]
	}
	vp.Assert(r.Len() == 0 && r.TopOffset() == len(msg), "message consumed")
}

// C07_siblings : 1, 5, 20, 40 containers in a row within a container, each holding an arbitrary byte: each reader sees its own byte, in any order of reading.
func C07_siblings() {
	n := pick("n", 1, 5, 20, 40)
	b := vp.Bytes("b", n)
	var ps [][]byte
	for i := range b {
		ps = append(ps, tlv(ctx(i%31), []byte{b[i]}))
	}
	_, s, err := asn1.NewASNReader(cat(tlv(tagSeq, ps...), []byte{1})).ReadSequenceStart(tagSeq)
	ok(err, "container")
	var rs []*asn1.ASNReader
	h := 1 + len(lenHdr(3*n))
	for i := range b {
		_, x, err := s.ReadSequenceStart(ctx(i % 31))
		ok(err, "sibling")
		vp.Assert(x.Len() == 1 && x.TopOffset() == h+3*i+2, "sibling position")
		rs = append(rs, x)
	}
	vp.Assert(s.Len() == 0, "all siblings")
	back := vp.Choose("back", 2) == 1
	for i := range rs {
		if back {
			i = n - 1 - i
		}
		x, err := rs[i].ReadByte()
		ok(err, "byte")
		vp.Assert(x == b[i] && rs[i].Len() == 0, "sibling byte")
	}
}

// C08_nested : 1500 nested containers (3000 in the thorough tier): the memory allocated in all stays proportional to the message.
func C08_nested() {
	d := 1500
	if vp.Thorough() {
		d = 3000
	}
	vp.MaxSteps(20000000)
	msg := append(make([]byte, 4*d), vp.U8("leaf"))
	for i := 0; i < d; i++ {
		l := 4*(d-i-1) + 1
		msg[4*i], msg[4*i+1], msg[4*i+2], msg[4*i+3] = ctx(2), 0x82, byte(l>>8), byte(l)
	}
	vp.AllocTotal(64*len(msg) + 1<<16)
	r := asn1.NewASNReader(msg)
	for i := 0; i < d; i++ {
		_, s, err := r.ReadSequenceStart(ctx(2))
		ok(err, "container")
		r = s
	}
	vp.Assert(r.Len() == 1, "leaf")
}

// C17_nested : a tree of 250 nested nodes (500 in the thorough tier) in definite form: the memory allocated in all stays proportional to the message.
func C17_nested() {
	d := 250
	if vp.Thorough() {
		d = 500
	}
	vp.MaxSteps(30000000)
	hdr := func(tag byte, n int) []byte { return []byte{tag, 0x83, byte(n >> 16), byte(n >> 8), byte(n)} }
	id := tlv(ctx(0), berInt(int64(vp.U8("n")&0x7f)))
	per := 20 + len(id)
	var msg []byte
	total := (d-1)*per + 5 + len(id) // from the outermost element on
	msg = cat(hdr(app(0), total+10), hdr(app(11), total+5), hdr(ctx(0), total))
	for i := 0; i < d; i++ {
		rest := (d - 1 - i) * per // everything behind the number
		msg = cat(msg, hdr(app(3), rest+len(id)), id)
		if i < d-1 {
			msg = cat(msg, hdr(ctx(2), rest-5), hdr(app(4), rest-10), hdr(ctx(0), rest-15))
		}
	}
	tree := embertree.NewTree()
	vp.AllocTotal(200*len(msg) + 1<<16)
	ok(tree.Decode(asn1.NewASNReader(msg)), "decode")
	var e *embertree.Element
	for _, x := range tree.RootElementCollection {
		e = x
	}
	n := 0
	for e != nil {
		n++
		var k *embertree.Element
		for _, x := range e.Children {
			k = x
		}
		e = k
	}
	vp.Assert(n == d, "all levels decoded")
}

// ---------------------------------------------------------------- C09

func longVal(k int) val {
	v := val{k: k}
	switch k {
	case 0:
		v = val{k: kStr, s: long("s", pick("n", 100, 127, 128, 200, 255, 256, 300))}
	case 1:
		v = val{k: kBuf, buf: []byte(long("s", pick("n", 100, 127, 128, 200, 255, 256, 300)))}
	case 2:
		v = val{k: kOID, o: longOID("o", pick("n", 4, 9, 20, 40))}
	}
	return v
}

// C09_long : strings and buffers of 100..300 bytes and identifiers of 4..40 arcs keep their value, copied and on the wire in three forms.
func C09_long() {
	v := longVal(vp.Choose("k", 3))
	cp := embertree.NewContentParameter()
	v.set(cp)
	v.check(cp, "value")
	c := embertree.NewContentParameter()
	ok(c.Set(cp), "copy")
	v.check(c, "copied value")
	w := asn1.NewASNWriter()
	ok(c.Encode(2, w), "encode")
	b := drain(w)
	sameBER(b, tlv(ctx(2), v.ber()), "value encoding")
	if f := vp.Choose("src", 3); f > 0 {
		b = forms(f-1).c(ctx(2), v.ber())
	}
	r := asn1.NewASNReader(cat(b, []byte{7, 8}))
	got, err := embertree.DecodeValue(r, 2)
	ok(err, "decode")
	v.check(got, "decoded value")
	vp.Assert(r.Len() == 2, "value consumed")
}

// C09_history : 10 successive values of kinds in turn (two steps), the last of any kind and value: the last one is held.
func C09_history() {
	cp := embertree.NewContentParameter()
	step := 1 + vp.Choose("step", 5)
	k := vp.Choose("from", kKinds)
	for i := 0; i < 10; i++ {
		v := val{k: k, s: "text", b: i%2 == 0, i: int64(i), buf: []byte{1, byte(i)}, r: float64(i) / 4, o: asn1.RelativeOID{int32(i), 300}}
		v.set(cp)
		v.check(cp, "value")
		k = (k + step) % kKinds
	}
	v := anyVal("v", vp.Choose("k", kKinds), true)
	v.set(cp)
	v.check(cp, "last value")
}

// ---------------------------------------------------------------- C10

// C10_order : the six fields (one missing or none) in every order, decoded in two forms.
func C10_order() {
	m := anyNode(63&^pick("miss", 0, 1, 4, 32), true)
	fs := m.fields()
	var ms []fld
	for _, i := range perm(len(fs)) {
		ms = append(ms, fs[i])
	}
	d := embertree.NewNodeContents().(*embertree.NodeContents)
	ok(d.Decode(asn1.NewASNReader(setOf(forms(3*vp.Choose("form", 2)), ms...))), "decode node contents")
	m.check(d, "decoded node contents")
}

// C10_long : all fields with strings of 0, 60, 127, 128, 256, 300 bytes and references of 1, 5, 20, 40 arcs.
func C10_long() {
	m := &nodeModel{has: 63, root: vp.Bool("root"), online: vp.Bool("online")}
	which := vp.Choose("which", 4)
	n := pick("n", 0, 60, 127, 128, 256, 300)
	m.id, m.desc, m.sch, m.tmpl = "id", "desc", "schema", asn1.RelativeOID{1}
	switch which {
	case 0:
		m.id = long("s", n)
	case 1:
		m.desc = long("s", n)
	case 2:
		m.sch = long("s", n)
	case 3:
		m.tmpl = longOID("o", pick("arcs", 1, 5, 20, 40))
	}
	c := embertree.NewNodeContents().(*embertree.NodeContents)
	m.fill(c)
	b := enc(c, "node contents")
	sameBER(b, setOf(1, m.fields()...), "node contents encoding")
	if k := vp.Choose("src", 3); k > 0 {
		b = setOf(forms(k-1), m.fields()...)
	}
	d := embertree.NewNodeContents().(*embertree.NodeContents)
	ok(d.Decode(asn1.NewASNReader(b)), "decode node contents")
	m.check(d, "decoded node contents")
	// decoding again into the same object replaces every field
	e := &nodeModel{has: 63, id: "x", desc: "y", sch: "z", root: !m.root, online: m.online, tmpl: asn1.RelativeOID{3, 4}}
	ok(d.Decode(asn1.NewASNReader(setOf(0, e.fields()...))), "decode again")
	e.check(d, "contents decoded again")
}

// ---------------------------------------------------------------- C11

// C11_order : all 15 fields with accessors plus the two without, one of them moved to any other place.
func C11_order() {
	fs := paramFields()
	has := map[int]val{}
	var ms []fld
	for i, f := range fs {
		k := f.k
		if k < 0 {
			k = (i + 2) % kKinds
		}
		v := val{k: k, s: string(rune('a' + i)), b: true, i: int64(100 * i), buf: []byte{byte(i)}, r: 0.5, o: asn1.RelativeOID{int32(i)}}
		has[f.n] = v
		ms = append(ms, fld{f.n, v.ber()})
	}
	ms = append(ms, fld{17, berStr("schema")}, fld{18, berOID(asn1.RelativeOID{1, 2})})
	i, j := vp.Choose("from", len(ms)), vp.Choose("to", len(ms))
	if i < len(fs) && fs[i].k >= 0 {
		v := anyVal("v", fs[i].k, true)
		has[fs[i].n] = v
		ms[i].v = v.ber()
	}
	x := ms[i]
	rest := append(append([]fld(nil), ms[:i]...), ms[i+1:]...)
	order := append(append(append([]fld(nil), rest[:j]...), x), rest[j:]...)
	d := embertree.NewParameterContents().(*pc)
	r := asn1.NewASNReader(cat(setOf(forms(3*((i+j)%2)), order...), []byte{1}))
	ok(d.Decode(r), "decode parameter contents")
	vp.Assert(r.Len() == 1, "parameter contents consumed")
	checkParam(d, fs, has, "decoded parameter")
	sameBER(enc(d, "re-encode"), setOf(1, ms...), "parameter re-encoding")
}

// C11_long : each string field with 60..300 bytes, values, limits and defaults of 100..300 bytes or 4..40 arcs, next to all the other fields.
func C11_long() {
	fs := paramFields()
	at := vp.Choose("field", len(fs))
	var lv val
	if fs[at].k < 0 {
		lv = longVal(vp.Choose("k", 3))
	} else if fs[at].k == kStr {
		lv = val{k: kStr, s: long("s", pick("n", 60, 127, 128, 255, 256, 300))}
	} else {
		lv = anyVal("v", fs[at].k, false)
	}
	has := map[int]val{}
	p := embertree.NewParameterContents().(*pc)
	var ms []fld
	for i, f := range fs {
		k := f.k
		if k < 0 {
			k = (i + 4) % kKinds
		}
		v := val{k: k, s: string(rune('a' + i)), b: true, i: int64(100 * i), buf: []byte{byte(i)}, r: 0.5, o: asn1.RelativeOID{int32(i)}}
		if i == at {
			v = lv
		}
		has[f.n] = v
		f.set(p, v)
		ms = append(ms, fld{f.n, v.ber()})
	}
	checkParam(p, fs, has, "parameter")
	b := enc(p, "parameter contents")
	sameBER(b, setOf(1, ms...), "parameter encoding")
	if k := vp.Choose("src", 2); k > 0 {
		b = setOf(3, ms...)
	}
	d := embertree.NewParameterContents().(*pc)
	ok(d.Decode(asn1.NewASNReader(b)), "decode parameter contents")
	checkParam(d, fs, has, "decoded parameter")
}

// ---------------------------------------------------------------- C12

type sigCounts struct{ t, s, c int }

// matrixParts builds a matrix element message of the given parts in the given order and checks what is decoded.
func matrixTrip(f forms, q bool, n sigCounts, order []int, kids int) {
	tag, id := app(13), berInt(7)
	if q {
		tag, id = app(17), berOID(asn1.RelativeOID{2, 7})
	}
	var tb, sb, cb, kb [][]byte
	var tn, sn []int32
	var cm []connModel
	for i := 0; i < n.t; i++ {
		x := int32(3*i + 1)
		if i == n.t-1 {
			x = vp.I32("target")
		}
		tn, tb = append(tn, x), append(tb, sigMsg(f, app(14), x))
	}
	for i := 0; i < n.s; i++ {
		x := int32(300 * i)
		if i == n.s-1 {
			x = vp.I32("source")
		}
		sn, sb = append(sn, x), append(sb, sigMsg(f, app(15), x))
	}
	for i := 0; i < n.c; i++ {
		c := connModel{target: int32(i), sources: asn1.RelativeOID{int32(2 * i)}, op: i % 3, dis: i % 4}
		if i == n.c-1 {
			c.sources = smallOID("conn.src", 1+i%3)
		}
		cm, cb = append(cm, c), append(cb, c.msg(f))
	}
	ident := vp.Str("id", 1)
	for i := 0; i < kids; i++ {
		kb = append(kb, f.c(ctx(0), f.c(app(1), f.c(ctx(0), berInt(int64(i))))))
	}
	parts := [][]byte{
		f.c(ctx(1), matrixSet(f, embertree.OneToOne, embertree.NonLinear, []fld{{0, berStr(ident)}}, []byte{})),
		f.c(ctx(2), f.c(app(4), kb...)),
		wrap0(f, 3, tb...), wrap0(f, 4, sb...), wrap0(f, 5, cb...),
	}
	ps := [][]byte{f.c(ctx(0), id)}
	var sorted [][]byte
	for i := range parts {
		if i != 1 || kids > 0 {
			sorted = append(sorted, parts[i])
		}
	}
	for _, i := range order {
		if i != 1 || kids > 0 {
			ps = append(ps, parts[i])
		}
	}
	r := asn1.NewASNReader(cat(f.c(tag, ps...), []byte{1}))
	d, err := embertree.DecodeElement(r)
	ok(err, "decode matrix")
	vp.Assert(r.Len() == 1 && d.GetTag() == tag && d.Number == 7, "matrix identity")
	checkMatrix(d.GetContent().(*mc), embertree.OneToOne, embertree.NonLinear, map[int]val{0: {k: kStr, s: ident}}, "decoded matrix")
	checkSignals(d, tn, sn, cm)
	vp.Assert(len(d.Children) == kids, "children")
	for i := 0; i < kids; i++ {
		vp.Assert(d.Children[i] != nil && d.Children[i].GetTag() == app(1), "child")
	}
	if kids < 2 {
		sameBER(enc(d, "matrix"), f.c(tag, cat(ps[0], cat(sorted...))), "matrix re-encoding")
	}
}

func checkSignals(d *embertree.Element, tn, sn []int32, cm []connModel) {
	dt, err := d.GetTargets()
	ok(err, "targets")
	ds, err := d.GetSources()
	ok(err, "sources")
	dc, err := d.GetConnections()
	ok(err, "connections")
	vp.Assert(len(dt) == len(tn) && len(ds) == len(sn) && len(dc) == len(cm), "signal counts")
	for i := range dt {
		x, okk := dt[i].(*embertree.Target)
		vp.Assert(okk && x.Number == tn[i], "target number")
	}
	for i := range ds {
		x, okk := ds[i].(*embertree.Source)
		vp.Assert(okk && x.Number == sn[i], "source number")
	}
	for i := range dc {
		cm[i].check(dc[i], "matrix connection")
	}
}

// C12_order : contents, children, targets, sources and connections of a matrix in every order, three (five in the thorough tier) combinations of their numbers (0..3), plain or qualified.
func C12_order() {
	ns := []sigCounts{{1, 2, 1}, {2, 0, 1}, {1, 1, 3}, {0, 1, 2}, {3, 2, 1}}
	if !vp.Thorough() {
		ns = ns[:3]
	}
	n, kids := ns[vp.Choose("counts", len(ns))], 1
	o := perm(5)
	matrixTrip(forms(3*((o[0]+o[1])%2)), o[2]%2 == 1, n, o, kids)
}

// C12_many : matrices with 10, 33 (17, 130 in the thorough tier) targets, sources or connections next to 0, 1 or as many others, three forms.
func C12_many() {
	n := []int{10, 33}
	if vp.Thorough() {
		n = append(n, 17, 130)
	}
	c := sigCounts{1, 1, 1}
	k := n[vp.Choose("n", len(n))]
	switch vp.Choose("which", 4) {
	case 0:
		c = sigCounts{k, 0, 1}
	case 1:
		c = sigCounts{1, k, 0}
	case 2:
		c = sigCounts{0, 1, k}
	case 3:
		c = sigCounts{k, k, k}
	}
	matrixTrip(forms(pick("form", 0, 1, 3)), vp.Choose("qualified", 2) == 1, c, []int{0, 1, 2, 3, 4}, pick("kids", 0, 9))
}

// C12_set : 10..40 targets, sources and connections set through the API, replaced by others, read back and encoded.
func C12_set() {
	el, err := embertree.NewMatrix(7, embertree.OneToN, embertree.Linear)
	ok(err, "matrix")
	first, n := pick("first", 0, 3, 40), pick("n", 0, 1, 10, 40)
	var ts, ss []embertree.Signal
	var tn, sn []int32
	var cs []*embertree.Connection
	var cm []connModel
	fill := func(n int, sym bool) {
		ts, ss, tn, sn, cs, cm = nil, nil, nil, nil, nil, nil
		for i := 0; i < n; i++ {
			t, s := int32(5*i), int32(7*i)
			if sym && i == n-1 {
				t, s = vp.I32("t"), vp.I32("s")
			}
			tn, ts = append(tn, t), append(ts, embertree.NewTarget(t))
			sn, ss = append(sn, s), append(ss, embertree.NewSource(s))
			c := connModel{target: int32(i), sources: asn1.RelativeOID{1, int32(i)}, op: i % 3, dis: i % 4}
			cm, cs = append(cm, c), append(cs, c.build())
		}
		ok(el.SetTargets(ts), "set targets")
		ok(el.SetSources(ss), "set sources")
		ok(el.SetConnections(cs), "set connections")
	}
	fill(first, false)
	fill(n, true)
	checkSignals(el, tn, sn, cm)
	var tb, sb, cb [][]byte
	for i := range tn {
		tb, sb, cb = append(tb, sigMsg(1, app(14), tn[i])), append(sb, sigMsg(1, app(15), sn[i])), append(cb, cm[i].msg(1))
	}
	sameBER(enc(el, "matrix"), elemMsg(1, app(13), berInt(7), matrixSet(1, embertree.OneToN, embertree.Linear, nil, []byte{}), wrap0(1, 3, tb...), wrap0(1, 4, sb...), wrap0(1, 5, cb...)), "matrix element encoding")
}

// C12_manylabels : 3..20 labels, with descriptions of 1 or 130 bytes, survive decoding and re-encoding.
func C12_manylabels() {
	f := forms(pick("form", 0, 1, 3))
	var ls [][]byte
	n := pick("n", 3, 8, 20)
	for i := 0; i < n; i++ {
		d := string(rune('a' + i))
		if i == n-1 {
			d = long("d", pick("d#", 1, 130))
		}
		ls = append(ls, f.c(ctx(0), labelMsg(f, asn1.RelativeOID{1, int32(i), 300}, d)))
	}
	src := setOf(f, fld{2, berInt(2)}, fld{3, berInt(1)}, fld{10, f.c(tagSeq, ls...)})
	d := embertree.NewDefaultMatrixContents().(*mc)
	ok(d.Decode(asn1.NewASNReader(src)), "decode matrix contents")
	sameBER(enc(d, "re-encode"), src, "matrix labels re-encoding")
}

// C12_orderfields : the matrix fields, all set, with one moved to any other place; strings of 1 byte, or one of 130.
func C12_orderfields() {
	fs := matrixFields()
	has := map[int]val{}
	ms := []fld{{2, berInt(2)}, {3, berInt(1)}}
	for i, f := range fs {
		v := val{k: f.k, s: string(rune('a' + i)), i: int64(100 * i), o: asn1.RelativeOID{int32(i), 5}}
		has[f.n] = v
		ms = append(ms, fld{f.n, v.ber()})
	}
	i, j := vp.Choose("from", len(ms)), vp.Choose("to", len(ms))
	if i > 1 {
		v := anyVal("v", fs[i-2].k, true)
		if v.k == kStr && j%2 == 0 {
			v.s = long("s", 130)
		}
		has[fs[i-2].n] = v
		ms[i].v = v.ber()
	}
	rest := append(append([]fld(nil), ms[:i]...), ms[i+1:]...)
	order := append(append(append([]fld(nil), rest[:j]...), ms[i]), rest[j:]...)
	d := embertree.NewDefaultMatrixContents().(*mc)
	ok(d.Decode(asn1.NewASNReader(setOf(forms(3*((i+j)%2)), order...))), "decode matrix contents")
	checkMatrix(d, 2, 1, has, "decoded matrix")
}

// ---------------------------------------------------------------- C13

func manyTuples(name string, n int) []tuple {
	var ts []tuple
	for i := 0; i < n; i++ {
		t := tuple{i % 8, string(rune('a' + i))}
		if i == n-1 {
			t = tuple{vp.Below(name+".type", 8), vp.Str(name, 2)}
		}
		ts = append(ts, t)
	}
	return ts
}

// C13_many : 3, 8 or 20 arguments and 0, 1, 8 or 20 results, fields in every order, three forms.
func C13_many() {
	f := forms(pick("form", 0, 1, 3))
	args, res := manyTuples("arg", pick("args", 0, 3, 8, 20)), manyTuples("res", pick("res", 0, 1, 8, 20))
	fs := []fld{{0, berStr("id")}, {1, berStr(long("d", pick("d#", 1, 130)))}, {4, berOID(asn1.RelativeOID{1, 2})}}
	if len(args) > 0 {
		fs = append(fs, fld{2, tuplesMsg(f, args)})
	}
	if len(res) > 0 {
		fs = append(fs, fld{3, tuplesMsg(f, res)})
	}
	d := embertree.NewFunctionContents().(*embertree.FunctionContents)
	r := asn1.NewASNReader(cat(setOf(f, rot(fs)...), []byte{9}))
	ok(d.Decode(r), "decode function")
	vp.Assert(r.Len() == 1, "function contents consumed")
	checkTuples(d.GetArguments(), args, "arguments")
	checkTuples(d.GetResult(), res, "result")
	sameBER(enc(d, "re-encode"), setOf(f, fs...), "function re-encoding")
	c := embertree.NewFunctionContents().(*embertree.FunctionContents)
	c.SetArguments(buildTuples(args))
	c.SetResult(buildTuples(res))
	sameBER(enc(c, "function"), setOf(1, fs[3:]...), "function encoding")
	checkTuples(c.GetArguments(), args, "arguments set")
	checkTuples(c.GetResult(), res, "result set")
}

// C13_fieldorder : the five fields of a function in every order.
func C13_fieldorder() {
	args, res := []tuple{{1, "a"}, {2, "b"}}, []tuple{{3, vp.Str("r", 1)}}
	id := vp.Str("id", 1)
	fs := []fld{{0, berStr(id)}, {1, berStr("desc")}, {2, tuplesMsg(1, args)}, {3, tuplesMsg(0, res)}, {4, berOID(asn1.RelativeOID{1, 2})}}
	var ms []fld
	for _, i := range perm(5) {
		ms = append(ms, fs[i])
	}
	d := embertree.NewFunctionContents().(*embertree.FunctionContents)
	ok(d.Decode(asn1.NewASNReader(setOf(forms(vp.Choose("form", 2)), ms...))), "decode function")
	s, err := d.GetIdentifier()
	vp.Assert(err == nil && eqLit(s, id), "identifier")
	s, err = d.GetDescription()
	vp.Assert(err == nil && eqLit(s, "desc"), "description")
	checkTuples(d.GetArguments(), args, "arguments")
	checkTuples(d.GetResult(), res, "result")
	sameBER(enc(d, "re-encode"), setOf(1, fs...), "function re-encoding")
}

// C13_manyargs : invocations with 3, 6, 12 and 30 arguments of all kinds in turn, one of them long or of any value.
func C13_manyargs() {
	f := forms(pick("form", 0, 1, 3))
	n := pick("n", 3, 6, 12, 30)
	from := vp.Choose("k", kKinds)
	var args []val
	var cps []*embertree.ContentParameter
	for i := 0; i < n; i++ {
		v := val{k: (from + i) % kKinds, s: "text", b: i%2 == 0, i: int64(i*i*i) - 500, buf: []byte{1, byte(i)}, r: float64(i) / 4, o: asn1.RelativeOID{int32(i), 300}}
		if i == n-1 && from < 3 {
			v = longVal(from)
		} else if i == n-2 {
			v = anyVal("arg", v.k, true)
		}
		cp := embertree.NewContentParameter()
		v.set(cp)
		args, cps = append(args, v), append(cps, cp)
	}
	want := invMsg(f, 1000, args)
	sameBER(enc(embertree.NewInvocation(1000, cps), "invocation"), want, "invocation encoding")
	d := embertree.NewInvocation(0, nil)
	ok(d.Decode(asn1.NewASNReader(want)), "decode invocation")
	sameBER(enc(d, "re-encode"), want, "invocation re-encoding")
}

// ---------------------------------------------------------------- C14

// C14_many : connections with 4, 10, 40 and 130 sources of every size, fields after the target in every order and with any subset missing; labels with base paths of 4..40
// arcs and descriptions of 60..300 bytes.
func C14_many() {
	f := forms(pick("form", 0, 1, 3))
	if vp.Choose("label", 2) == 1 {
		base, d := longOID("base", pick("arcs", 4, 10, 40)), long("d", pick("d#", 60, 127, 128, 256, 300))
		want := labelMsg(f, base, d)
		sameBER(enc(embertree.NewLabel(base, d), "label"), want, "label encoding")
		l, err := embertree.DecodeLabel(asn1.NewASNReader(want))
		ok(err, "decode label")
		vp.Assert(eqOID(l.BasePath, base) && eqLit(l.Description, d), "decoded label")
		return
	}
	c := anyConn(0, true)
	c.sources = longOID("src", pick("n", 4, 10, 40, 130))
	sameBER(enc(c.build(), "connection"), c.msg(f), "connection encoding")
	ps := c.fields(f)
	has := vp.Choose("has", 8)
	order := [][]byte{ps[0]}
	for _, i := range perm(3) {
		if has&(1<<i) != 0 {
			order = append(order, ps[1+i])
		}
	}
	if has&1 == 0 {
		c.sources = nil
	}
	if has&2 == 0 {
		c.op = 0
	}
	if has&4 == 0 {
		c.dis = 0
	}
	var d embertree.Connection
	r := asn1.NewASNReader(cat(f.c(app(16), order...), []byte{9}))
	ok(d.Decode(r), "decode connection")
	vp.Assert(r.Len() == 1, "connection consumed")
	c.check(&d, "decoded connection")
}

// ---------------------------------------------------------------- C15, C16

// bigTree is one of several larger trees, with one symbolic leaf.
func bigTree(i int) []*em {
	switch i {
	case 0: // wide
		m := ck(mNode, 1)
		for j := 0; j < 24; j++ {
			m.kids = append(m.kids, ck(j%4, int32(3*j)))
		}
		m.kids[23] = mk(mParam, 1000)
		return []*em{m}
	case 1: // deep
		m := mk(mParam, 5)
		for j := 11; j > 0; j-- {
			m = ck(mNode, int32(j), m)
		}
		return []*em{m}
	case 2: // two levels of several
		m := ck(mNode, 0)
		for j := 0; j < 7; j++ {
			n := ck(mNode, int32(j), ck(mParam, 0), ck(mFunc, 1), ck(mMatrix, 2), ck(mNode, 3))
			m.kids = append(m.kids, n)
		}
		m.kids[4].kids[1] = mk(mFunc, 9)
		return []*em{m}
	case 3: // many roots
		var rs []*em
		for j := 0; j < 20; j++ {
			rs = append(rs, ck(j%4, int32(j)))
			if j%4 == 0 {
				rs[j].kids = []*em{ck(mParam, 1), ck(mNode, 2)}
			}
		}
		rs[19] = mk(mMatrix, 300)
		return rs
	case 4: // children below every type, on both sides of a deep branch
		m := mk(mParam, 3)
		for j := 7; j > 0; j-- {
			m = ck(j%4, int32(j), ck(mNode, 100), m, ck(mParam, 101))
		}
		return []*em{m}
	}
	return nil
}

const bigTrees = 5

// C15_large : five trees of 12..36 elements, up to 12 levels, 24 siblings or 20 roots, built or decoded in three forms, encoded and decoded again.
func C15_large() {
	vp.MaxSteps(30000000)
	ms := bigTree(vp.Choose("tree", bigTrees))
	tree := embertree.NewTree()
	f := forms(pick("form", 0, 1, 3))
	var els [][]byte
	for _, m := range ms {
		els = append(els, m.msg(f))
	}
	if f == 1 && vp.Choose("built", 2) == 1 {
		for _, m := range ms {
			tree.AddElement(m.build())
		}
	} else {
		decodeInto(tree, rootMsg(f, els...), "reference encoding")
	}
	checkRoot(tree, ms, "tree")
	b := enc(tree, "tree")
	vp.Assert(len(norm(b)) == len(norm(rootMsg(f, els...))), "tree encoded completely")
	got := embertree.NewTree()
	decodeInto(got, b, "own encoding")
	checkRoot(got, ms, "decoded tree")
	b2 := enc(got, "decoded tree")
	vp.Assert(len(b2) == len(b), "encoded again")
}

// C15_qualifiedlarge : qualified elements of every type with 8 children and a path of 4..12 arcs.
func C15_qualifiedlarge() {
	kind := vp.Choose("kind", 4)
	n := 4 + vp.Choose("arcs", 9)
	path := longOID("p", n)
	m := mk(kind, path[n-1])
	for i := 0; i < 8; i++ {
		m.kids = append(m.kids, ck(i%4, int32(i)))
	}
	f := forms(pick("form", 0, 1, 3))
	e, err := embertree.DecodeElement(asn1.NewASNReader(m.qmsg(f, path)))
	ok(err, "decode qualified element")
	m.check(e, nil, path[:n-1], "qualified element")
	vp.Assert(len(norm(enc(e, "re-encode"))) == len(norm(m.qmsg(f, path))), "encoded completely")
}

// C16_large : the five trees of C15_large with the forms of their containers following any repeated pattern of four: the same tree.
func C16_large() {
	vp.MaxSteps(30000000)
	pattern = vp.Choose("pattern", 16)
	patternAt = 0
	ms := bigTree(vp.Choose("tree", bigTrees))
	var els [][]byte
	for _, m := range ms {
		els = append(els, m.msg(4))
	}
	got := embertree.NewTree()
	decodeInto(got, rootMsg(4, els...), "message")
	checkRoot(got, ms, "decoded tree")
}

// ---------------------------------------------------------------- C19, C20, C21, C22

func bigModel(i int) (*embertree.RootElement, *model) {
	ms := bigTree(i)
	tree := embertree.NewTree()
	for _, m := range ms {
		tree.AddElement(m.build())
	}
	t := &model{roots: ms, hits: map[*em]int{}}
	t.pin(tree)
	return tree, t
}

// pathsOf lists the paths of all elements.
func pathsOf(ms []*em, p oid) []oid {
	var out []oid
	for _, m := range ms {
		q := append(append(oid{}, p...), m.num)
		out = append(out, q)
		out = append(out, pathsOf(m.kids, q)...)
	}
	return out
}

// along is an update of an element addressed through its bare parents.
func along(t *model, path oid, m *em) upd {
	for i := len(path) - 2; i >= 0; i-- {
		p := t.at(path[:i+1])
		m = (&em{kind: p.kind, num: p.num, kids: []*em{m}})
	}
	return upd{nil, m}
}

// C19_large : an update of any element of the five trees of C15_large, or a new child below it, plain along the path or qualified, twice in a row: exactly that changes.
func C19_large() {
	vp.MaxSteps(30000000)
	tree, t := bigModel(vp.Choose("tree", bigTrees))
	ps := pathsOf(t.roots, nil)
	p := ps[vp.Choose("at", len(ps))]
	for i := 0; i < 2; i++ {
		m := mk(t.at(p).kind, p[len(p)-1])
		path := p
		if vp.Choose("new", 2) == 1 {
			path = append(append(oid{}, p...), int32(500+i))
			m = mk(mParam, int32(500+i))
		}
		u := upd{path, m}
		if i == 1 {
			u = along(t, path, m)
		}
		us := []upd{u}
		decodeInto(tree, message(forms(3*i), us), "message")
		t.receive(us)
		checkRoot(tree, t.roots, "updated tree")
		t.pin(tree)
	}
}

// C19_series : eight messages in a row out of the 20 kinds, in steps of 1..7 from any of them.
func C19_series() {
	vp.MaxSteps(30000000)
	tree := embertree.NewTree()
	t := baseTree(tree)
	k, step := vp.Choose("from", updates), 1+vp.Choose("step", 7)
	for i := 0; i < 8; i++ {
		us := update(k % updates)
		k += step
		decodeInto(tree, message(forms(3*(i%2)), us), "message")
		t.receive(us)
		checkRoot(tree, t.roots, "updated tree")
		t.pin(tree)
	}
}

// C19_many : one message updating 2..12 elements in a row, some of them new, some refused, some several times.
func C19_many() {
	vp.MaxSteps(30000000)
	tree, t := bigModel(pick("tree", 0, 2))
	ps := pathsOf(t.roots, nil)
	n, step := pick("n", 2, 5, 12), pick("step", 1, 3, 7)
	var us []upd
	for i := 0; i < n; i++ {
		p := ps[(1+i*step)%len(ps)]
		m := ck(t.at(p).kind, p[len(p)-1])
		m.id = string(rune('A' + i))
		switch i % 4 {
		case 0:
			us = append(us, upd{p, m})
		case 1:
			us = append(us, along(t, p, m))
		case 2:
			q := append(append(oid{}, p...), int32(700+i%3))
			us = append(us, upd{q, ck(mFunc, q[len(q)-1])})
		case 3:
			us = append(us, upd{oid{900, int32(i)}, ck(mParam, int32(i))}, upd{p, m})
		}
	}
	us[n/2].m.id = vp.Str("sym", 1)
	if !us[n/2].m.has {
		us[n/2].m.id = ""
	}
	decodeInto(tree, message(0, us), "message")
	t.receive(us)
	checkRoot(tree, t.roots, "updated tree")
}

// C20_large : paths of 1..4 arbitrary int32 arcs, and of every existing prefix followed by an arbitrary arc, in the five trees of C15_large.
func C20_large() {
	tree, t := bigModel(vp.Choose("tree", bigTrees))
	ps := pathsOf(t.roots, nil)
	k := vp.Choose("prefix", len(ps)+1)
	var path oid
	if k < len(ps) {
		path = append(append(oid{}, ps[k]...), vp.I32("arc"))
	} else {
		path = append(path, vp.I32("arc"))
	}
	if vp.Choose("more", 2) == 1 {
		path = append(path, vp.I32("arc2"))
	}
	p, e := tree.GetElementByPath(path)
	me, mp := t.at(path), (*em)(nil)
	if len(path) > 1 {
		mp = t.at(path[:len(path)-1])
	}
	if me == nil {
		vp.Assert(e == nil, "element that does not exist")
	} else {
		vp.Assert(e == me.ptr, "element at its path")
		vp.Assert(eqOID(e.GetPath(), path), "path of the element found")
	}
	if mp == nil {
		vp.Assert(p == nil, "parent that does not exist")
	} else {
		vp.Assert(p == mp.ptr, "parent at its path")
	}
}

// C20_moved : elements attached to another parent, or whose parents are attached later, report the path of their present ancestors (depths up to 10).
func C20_moved() {
	d := 1 + vp.Choose("depth", 9)
	var chain []*embertree.Element
	for i := 0; i < d; i++ {
		chain = append(chain, embertree.NewNode(i+1))
	}
	leaf := embertree.NewParameter(int(vp.I32("leaf")))
	ok(chain[d-1].AddChild(leaf), "attach")
	down := vp.Choose("down", 2) == 1
	for i := 0; i+1 < d; i++ {
		j := i
		if down {
			j = d - 2 - i
		}
		ok(chain[j].AddChild(chain[j+1]), "attach")
		leaf.GetPath()
	}
	want := oid{}
	for i := range chain {
		want = append(want, int32(i+1))
		vp.Assert(eqOID(chain[i].GetPath(), want), "path of an ancestor")
	}
	vp.Assert(eqOID(leaf.GetPath(), append(want, int32(leaf.Number))), "path of the leaf")
	// a new root
	top := embertree.NewNode(int(vp.I32("top")))
	ok(top.AddChild(chain[0]), "attach")
	want = append(oid{int32(top.Number)}, want...)
	vp.Assert(eqOID(leaf.GetPath(), append(append(oid{}, want...), int32(leaf.Number))), "path below a new root")
	// the leaf moves
	other := embertree.NewNode(77)
	ok(other.AddChild(leaf), "attach")
	vp.Assert(eqOID(leaf.GetPath(), oid{77, int32(leaf.Number)}), "path after moving")
}

// C20_qualified : a qualified element of any type with any path of 1..3 arcs and a child of its own is attached below an element at depth 1..3, through the API or as a member of a message: it is found at its
// place, it and its child report the path of their ancestors, and so do requests and its encoding.
func C20_qualified() {
	kind, d := vp.Choose("kind", 4), 1+vp.Choose("depth", 3)
	own := smallOID("own", 1+vp.Choose("own#", 3))
	m := mk(kind, own[len(own)-1], mk(mParam, 3))
	above := smallOID("above", d)
	tree := embertree.NewTree()
	if vp.Choose("wire", 2) == 1 {
		b := m.qmsg(0, own)
		for i := d - 1; i >= 0; i-- {
			b = elemMsg(0, app(3), berInt(int64(above[i])), nil, tlv(ctx(2), tlv(app(4), tlv(ctx(0), b))))
		}
		decodeInto(tree, rootMsg(0, b), "message")
	} else {
		e, err := embertree.DecodeElement(asn1.NewASNReader(m.qmsg(0, own)))
		ok(err, "element")
		for i := d - 1; i >= 0; i-- {
			n := embertree.NewNode(int(above[i]))
			ok(n.AddChild(e), "attach")
			e = n
		}
		tree.AddElement(e)
	}
	path := append(append(oid{}, above...), m.num)
	parent, e := tree.GetElementByPath(path)
	vp.Assert(e != nil && parent != nil, "found at its place")
	m.check(e, parent, above, "element")
	vp.Assert(eqOID(e.Children[3].GetPath(), append(append(oid{}, path...), 3)), "path of its child")
	qual := elemMsg(1, qualTag[kind], berOID(path), nil, emptyTail(1, kind, cmdMsg(1))...)
	sameBER(enc(e.GetQualifiedDirectoryMsg(nil), "request"), rootMsg(1, qual), "qualified request")
	req, err := e.GetDirectoryMsg(nil)
	ok(err, "request")
	plain := elemMsg(1, plainTag[kind], berInt(int64(m.num)), nil, emptyTail(1, kind, cmdMsg(1))...)
	for i := d - 1; i >= 0; i-- {
		plain = elemMsg(1, app(3), berInt(int64(above[i])), nil, emptyTail(1, mNode, plain)...)
	}
	sameBER(enc(req, "request"), rootMsg(1, plain), "request through the parents")
	again := embertree.NewTree()
	decodeInto(again, enc(tree, "tree"), "tree encoded")
	p2, e2 := again.GetElementByPath(path)
	m.check(e2, p2, above, "element decoded again")
	sameBER(enc(e, "element"), m.qmsg(1, path), "encoding of the element")
}

// C21_many : 1, 2, 7 or 20 listeners on an element or the tree, three updates; any one of them is removed after the first, between or within the
// second: each is notified exactly once per update while registered.
func C21_many() {
	tree := embertree.NewTree()
	t := baseTree(tree)
	root := vp.Choose("root", 2) == 1
	n := pick("n", 1, 2, 7, 20)
	e := t.roots[0].ptr
	var ps []*probe
	for i := 0; i < n; i++ {
		p := &probe{}
		ps = append(ps, p)
		if root {
			tree.AddListener(p)
		} else {
			e.AddListener(p)
		}
	}
	remove := func(p *probe) {
		if root {
			tree.RemoveListener(p)
		} else {
			e.RemoveListener(p)
		}
	}
	k := vp.Choose("which", n)
	self := vp.Choose("self", 2) == 1
	send := func() { decodeInto(tree, message(0, update(0)), "message") }
	send()
	if self {
		ps[k].act = func() { remove(ps[k]) }
	} else {
		remove(ps[k])
	}
	send()
	send()
	for i, p := range ps {
		want := 3
		if i == k {
			want = 1
			if self {
				want = 2
			}
		}
		vp.Assert(p.n == want, "notifications")
	}
	// registered again
	ps[k].act = nil
	if root {
		tree.AddListener(ps[k])
	} else {
		e.AddListener(ps[k])
	}
	m := ps[k].n
	send()
	vp.Assert(ps[k].n == m+1, "notified after registering again")
}

// C21_large : an update of any element of three larger trees, addressed plain or qualified: listeners of the elements on the way (those of the message) and no others are notified.
func C21_large() {
	vp.MaxSteps(30000000)
	tree, t := bigModel(pick("tree", 1, 2, 4))
	ps := pathsOf(t.roots, nil)
	type watch struct {
		m *em
		p *probe
	}
	var ws []watch
	for _, p := range ps {
		m := t.at(p)
		w := watch{m, &probe{}}
		m.ptr.AddListener(w.p)
		ws = append(ws, w)
	}
	for i := 0; i < 2; i++ {
		p := ps[vp.Choose("at", len(ps))]
		vp.Assume(i == 0 || len(p) > 2)
		m := mk(t.at(p).kind, p[len(p)-1])
		us := []upd{{p, m}}
		if i == 0 && vp.Choose("along", 2) == 1 {
			us = []upd{along(t, p, m)}
		}
		decodeInto(tree, message(0, us), "message")
		t.receive(us)
		for _, w := range ws {
			vp.Assert(w.p.n == t.hits[w.m], "element notifications")
			if w.p.n > 0 {
				vp.Assert(w.p.from == interface{}(w.m.ptr) && w.p.err == nil, "listener value")
			}
		}
	}
}

// C22_large : every element of the five trees of C15_large, built or decoded, requested qualified and along its parents: only the path and the command.
func C22_large() {
	vp.MaxSteps(30000000)
	var tree *embertree.RootElement
	var t *model
	i := vp.Choose("tree", bigTrees)
	if vp.Choose("built", 2) == 1 {
		tree, t = bigModel(i)
	} else {
		ms := bigTree(i)
		var els [][]byte
		for _, m := range ms {
			els = append(els, m.msg(0))
		}
		tree = embertree.NewTree()
		decodeInto(tree, rootMsg(0, els...), "tree")
		t = &model{roots: ms, hits: map[*em]int{}}
		t.pin(tree)
	}
	ps := pathsOf(t.roots, nil)
	p := ps[vp.Choose("at", len(ps))]
	m := t.at(p)
	l := &probe{}
	qual := elemMsg(1, qualTag[m.kind], berOID(p), nil, emptyTail(1, m.kind, cmdMsg(1))...)
	sameBER(enc(m.ptr.GetQualifiedDirectoryMsg(l), "request"), rootMsg(1, qual), "qualified request")
	req, err := m.ptr.GetDirectoryMsg(nil)
	ok(err, "request")
	want := cmdMsg(1)
	for i := len(p) - 1; i >= 0; i-- {
		k := t.at(p[:i+1]).kind
		want = elemMsg(1, plainTag[k], berInt(int64(p[i])), nil, emptyTail(1, k, want)...)
	}
	sameBER(enc(req, "request"), rootMsg(1, want), "request through the parents")
	checkRoot(tree, t.roots, "tree after a request")
	us := []upd{{p, mk(m.kind, p[len(p)-1])}}
	decodeInto(tree, message(0, us), "reply")
	vp.Assert(l.n == 1 && l.from == interface{}(m.ptr), "reply reaches the listener")
}

// C22_kids : an element of any type at depth 1..5 with 0..3 children, contents or none, requested both ways; twice.
func C22_kids() {
	d, kind := 1+vp.Choose("depth", 5), vp.Choose("kind", 4)
	nums := smallOID("n", d)
	m := mk(kind, nums[d-1])
	for i := vp.Choose("kids", 4); i > 0; i-- {
		m.kids = append(m.kids, ck(mNode, int32(i)))
	}
	if vp.Choose("bare", 2) == 1 {
		m.bare()
	}
	top := m
	for i := d - 2; i >= 0; i-- {
		top = ck(mNode, 5, top)
		top.num = nums[i]
	}
	tree := embertree.NewTree()
	if vp.Choose("built", 2) == 1 {
		tree.AddElement(top.build())
	} else {
		decodeInto(tree, rootMsg(0, top.msg(0)), "tree")
	}
	_, e := tree.GetElementByPath(nums)
	qual := rootMsg(1, elemMsg(1, qualTag[kind], berOID(nums), nil, emptyTail(1, kind, cmdMsg(1))...))
	plain := cmdMsg(1)
	for i, k := d-1, kind; i >= 0; i-- {
		plain = elemMsg(1, plainTag[k], berInt(int64(nums[i])), nil, emptyTail(1, k, plain)...)
		k = mNode
	}
	plain = rootMsg(1, plain)
	for i := 0; i < 2; i++ {
		sameBER(enc(e.GetQualifiedDirectoryMsg(nil), "request"), qual, "qualified request")
		req, err := e.GetDirectoryMsg(nil)
		ok(err, "request")
		sameBER(enc(req, "request"), plain, "request through the parents")
	}
	checkRoot(tree, []*em{top}, "tree after requests")
}

// ---------------------------------------------------------------- C35, C36

// C35_deep : 0..100, 300 or 1100 values pushed, some popped, others pushed, all popped.
func C35_deep() {
	s := asn1.NewStack()
	var ref []int
	push := func(n int) {
		for i := 0; i < n; i++ {
			v := vp.Int("v")
			s.Push(v)
			ref = append(ref, v)
		}
	}
	pop := func(n int) {
		for i := 0; i < n; i++ {
			g := s.Pop()
			if len(ref) == 0 {
				vp.Assert(g == nil, "pop of an empty stack")
				continue
			}
			x, isInt := g.(int)
			vp.Assert(isInt && x == ref[len(ref)-1], "pop returns the last value pushed")
			ref = ref[:len(ref)-1]
		}
	}
	n := pick("n", 0, 7, 16, 33, 65, 100, 300, 1100)
	push(n)
	pop([]int{0, 1, n / 2, n - 1, n, n + 2}[vp.Choose("m", 6)])
	push(pick("k", 0, 1, 20, 70))
	pop(len(ref) + 2)
	push(3)
	pop(4)
}

// C35_kinds : any sequence of 4 (5) values out of nil, numbers, strings, slices, structs, pointers and functions, equal or not, with pops in between: what is
// popped is the value pushed, of the same type.
func C35_kinds() {
	type pair struct{ a, b int }
	x := vp.Int("x")
	sl, p := []int{x, 2}, &pair{x, 2}
	hit := 0
	f := func() { hit++ }
	var nilp *pair
	vals := []interface{}{nil, x, uint8(3), "text", "", sl, pair{x, 2}, p, nilp, f, 2.5, [][]byte{{1}}}
	same := func(k int, g interface{}) bool {
		switch k {
		case 0:
			return g == nil
		case 5:
			v, is := g.([]int)
			if !is || len(v) != 2 {
				return false
			}
			v[1]++
			ok := sl[1] == v[1] && v[0] == x
			v[1]--
			return ok
		case 9:
			v, is := g.(func())
			if !is {
				return false
			}
			n := hit
			v()
			return hit == n+1
		case 11:
			v, is := g.([][]byte)
			return is && len(v) == 1 && v[0][0] == 1
		}
		return g == vals[k]
	}
	s := asn1.NewStack()
	var ref []int
	n := 4
	if vp.Thorough() {
		n = 5
	}
	for i := 0; i < n; i++ {
		k := vp.Choose("value", len(vals)+1)
		if k < len(vals) {
			s.Push(vals[k])
			ref = append(ref, k)
			continue
		}
		g := s.Pop()
		if len(ref) == 0 {
			vp.Assert(g == nil, "pop of an empty stack")
			continue
		}
		vp.Assert(same(ref[len(ref)-1], g), "the value pushed last")
		ref = ref[:len(ref)-1]
	}
	for ; len(ref) > 0; ref = ref[:len(ref)-1] {
		vp.Assert(same(ref[len(ref)-1], s.Pop()), "remaining values in order")
	}
	vp.Assert(s.Pop() == nil && s.Pop() == nil, "empty at the end")
	s.Push(7)
	vp.Assert(s.Pop() == interface{}(7) && s.Pop() == nil, "usable afterwards")
}

// C36_long : 5, 10, 16, 33, 64 and 100 propagations: text and positions kept, another error unaffected.
func C36_long() {
	k := vp.Choose("kind", 7)
	e, o := mkErr(k), mkErr(0)
	n := pick("n", 5, 10, 16, 33, 64, 100)
	if k == 2 {
		return
	}
	var trace []string
	trace = append(trace, e.Stack...)
	other := vp.Choose("other", 2) == 1
	for i := 0; i < n; i++ {
		if i%3 == 0 {
			e = up1(e)
		} else {
			e = up2(e)
		}
		if other {
			o = up1(o)
		}
		vp.Assert(e != nil && len(e.Stack) == i+2, "one position per propagation")
		for j, s := range trace {
			vp.Assert(e.Stack[j] == s, "earlier positions kept in order")
		}
		trace = append([]string(nil), e.Stack...)
	}
	vp.Assert(e.Message != nil && e.Message.Error() == errTexts[k], "message kept")
	m := 1
	if other {
		m = n + 1
	}
	vp.Assert(len(o.Stack) == m && o.Message.Error() == errTexts[0], "the other error")
}

// C17_longpath : a qualified element whose path has 2000 arcs (3000 in the thorough tier): the memory allocated in all stays proportional to the message.
func C17_longpath() {
	n := 2000
	if vp.Thorough() {
		n = 3000
	}
	vp.MaxSteps(100000000)
	path := oid{}
	for i := 0; i < n; i++ {
		path = append(path, int32(i%100))
	}
	path[n-1] = vp.I32("arc") & 0x7f
	msg := rootMsg(0, mk(vp.Choose("kind", 4), path[n-1]).qmsg(0, path))
	tree := embertree.NewTree()
	vp.AllocTotal(200*len(msg) + 1<<16)
	tree.Decode(asn1.NewASNReader(msg))
	vp.Assert(len(tree.RootElementCollection) == 0, "parent unknown")
}
