package props

import (
	"github.com/dufourgilles/emberlib/asn1"
	"github.com/dufourgilles/emberlib/embertree"
	"github.com/dufourgilles/emberlib/errors"
	"verif/harness/vp"
)

// ---------------------------------------------------------------- C12

type mc = embertree.MatrixContent

type mfield struct {
	n, k int
	set  func(*mc, val) errors.Error
	get  func(*mc) (val, errors.Error)
}

func mInt(n int, set func(*mc, int) errors.Error, get func(*mc) (int, errors.Error)) mfield {
	return mfield{n, kInt, func(c *mc, v val) errors.Error { return set(c, int(v.i)) }, func(c *mc) (val, errors.Error) { i, e := get(c); return val{k: kInt, i: int64(i)}, e }}
}

func matrixFields() []mfield {
	str := func(n int, set func(*mc, string), get func(*mc) (string, errors.Error)) mfield {
		return mfield{n, kStr, func(c *mc, v val) errors.Error { set(c, v.s); return nil }, func(c *mc) (val, errors.Error) { s, e := get(c); return val{k: kStr, s: s}, e }}
	}
	return []mfield{
		str(0, (*mc).SetIdentifier, (*mc).GetIdentifier),
		str(1, (*mc).SetDescription, (*mc).GetDescription),
		mInt(4, (*mc).SetTargetCount, (*mc).GetTargetCount),
		mInt(5, (*mc).SetSourceCount, (*mc).GetSourceCount),
		mInt(6, (*mc).SetMaxTotalConnects, (*mc).GetMaxTotalConnects),
		mInt(7, (*mc).SetMaxConnectsPerTarget, (*mc).GetMaxConnectsPerTarget),
		{8, kOID, func(c *mc, v val) errors.Error { return c.SetParameterLocation(v.o) }, func(c *mc) (val, errors.Error) { o, e := c.GetParameterLocation(); return val{k: kOID, o: o}, e }},
		mInt(9, (*mc).SetGainParameterNumber, (*mc).GetGainParameterNumber),
		{11, kStr, func(c *mc, v val) errors.Error { return c.SetSchemaIdentifier(v.s) }, func(c *mc) (val, errors.Error) { s, e := c.GetSchemaIdentifier(); return val{k: kStr, s: s}, e }},
	}
}

func checkMatrix(c *mc, t embertree.MatrixType, m embertree.MatrixMode, has map[int]val, label string) {
	gt, err := c.GetType()
	vp.Assert(err == nil && gt == t, label+": type")
	gm, err := c.GetMode()
	vp.Assert(err == nil && gm == m, label+": mode")
	for _, f := range matrixFields() {
		v, set := has[f.n]
		g, err := f.get(c)
		vp.Assert((err == nil) == set, label+": field set or unset")
		if !set {
			continue
		}
		if f.k == kOID {
			vp.Assert(eqOID(v.o, g.o), label+": field value")
		} else {
			vp.Assert(eqVal(v, g), label+": field value")
		}
	}
}

// matrixSet is the reference encoding of matrix contents; the library always
// writes the label collection, possibly empty.
func matrixSet(f forms, t embertree.MatrixType, m embertree.MatrixMode, ms []fld, labels []byte) []byte {
	all := append([]fld{{2, berInt(int64(t))}, {3, berInt(int64(m))}}, ms...)
	if labels != nil {
		all = append(all, fld{10, f.c(tagSeq, labels)})
	}
	return setOf(f, all...)
}

// C12_contents : every type and mode, at most two of the other fields or all but at most one, counts of every int64 when alone.
func C12_contents() {
	fs := matrixFields()
	n := len(fs)
	t, m := embertree.MatrixType(vp.Choose("type", 3)), embertree.MatrixMode(vp.Choose("mode", 2))
	c, err := embertree.NewMatrixContent(t, m)
	ok(err, "new matrix contents")
	var idx []int
	switch vp.Choose("fields", 3) {
	case 0:
		if i := vp.Choose("i", n+1); i < n {
			idx = append(idx, i)
		}
	case 1:
		i, j := vp.Choose("i", n), vp.Choose("j", n)
		vp.Assume(i < j)
		idx = append(idx, i, j)
	case 2:
		miss := vp.Choose("miss", n+1)
		for i := 0; i < n; i++ {
			if i != miss {
				idx = append(idx, i)
			}
		}
	}
	has := map[int]val{}
	var ms []fld
	for _, i := range idx {
		v := anyVal("v", fs[i].k, len(idx) != 1)
		ok(fs[i].set(c, v), "set matrix field")
		has[fs[i].n] = v
		ms = append(ms, fld{fs[i].n, v.ber()})
	}
	checkMatrix(c, t, m, has, "matrix")
	b := enc(c, "matrix contents")
	sameBER(b, matrixSet(1, t, m, ms, []byte{}), "matrix encoding")
	src := b
	if k := vp.Choose("src", 3); k > 0 {
		src = matrixSet(forms(k-1), t, m, ms, nil)
	}
	d := embertree.NewDefaultMatrixContents().(*mc)
	r := asn1.NewASNReader(cat(src, []byte{9}))
	ok(d.Decode(r), "decode matrix contents")
	vp.Assert(r.Len() == 1, "matrix contents consumed")
	checkMatrix(d, t, m, has, "decoded matrix")
}

// C12_labels : 0..2 labels with base paths of 1..2 arcs and descriptions of 0..2 bytes, schema and template reference present or not, survive
// decoding and re-encoding in both forms, before or after the other fields.
func C12_labels() {
	f := forms(vp.Choose("form", 2))
	var ls [][]byte
	for i := vp.Choose("n", 3); i > 0; i-- {
		ls = append(ls, f.c(ctx(0), labelMsg(f, smallOID("base", 1+vp.Choose("base#", 2)), vp.Str("d", vp.Choose("d#", 3)))))
	}
	fs := []fld{{10, f.c(tagSeq, ls...)}, {2, berInt(2)}, {3, berInt(1)}}
	if vp.Choose("schema", 2) == 1 {
		fs = append(fs, fld{11, berStr(vp.Str("schema", 1))})
	}
	if vp.Choose("tmpl", 2) == 1 {
		fs = append(fs, fld{12, berOID(smallOID("tmpl", 2))})
	}
	src := setOf(f, rot(fs)...)
	d := embertree.NewDefaultMatrixContents().(*mc)
	ok(d.Decode(asn1.NewASNReader(src)), "decode matrix contents")
	sameBER(enc(d, "re-encode"), src, "matrix labels re-encoding")
}

// C12_unknown : a member with any other tag is an error.
func C12_unknown() {
	t := vp.U8("t")
	d := embertree.NewDefaultMatrixContents().(*mc)
	err := d.Decode(asn1.NewASNReader(tlv(tagSet, []byte{t, 3, tagInt, 1, 1})))
	if vp.Or(t < 0xa0, t > 0xac) {
		vp.Assert(err != nil, "unknown matrix field accepted")
	}
}

func sigMsg(f forms, tag byte, n int32) []byte { return f.c(tag, f.c(ctx(0), berInt(int64(n)))) }

func wrap0(f forms, n int, parts ...[]byte) []byte {
	var ps [][]byte
	for _, p := range parts {
		ps = append(ps, f.c(ctx(0), p))
	}
	return f.c(ctx(n), f.c(tagSeq, ps...))
}

func num32(name string, small bool) int32 {
	if small {
		return int32(vp.U8(name) & 0x7f)
	}
	return vp.I32(name)
}

// C12_element : matrix and qualified matrix elements with 0..2 targets, 0..2 sources and 0..2 connections; numbers of 0..127
// (every int32 when there is a single one), at most 4 in all in the quick tier, encoded against the reference and decoded from it in both forms.
func C12_element() {
	f := forms(vp.Choose("form", 2))
	q := vp.Choose("qualified", 2) == 1
	t, m := embertree.MatrixType(vp.Choose("type", 3)), embertree.MatrixMode(1)
	var el *embertree.Element
	var err errors.Error
	tag, id := app(13), berInt(7)
	if q {
		path := smallOID("path", 2)
		tag, id = app(17), berOID(path)
		el = embertree.NewQualifiedMatrix(path, t, m)
		el.CreateContent()
	} else {
		el, err = embertree.NewMatrix(7, t, m)
		ok(err, "new matrix")
	}
	c, okk := el.GetContent().(*mc)
	vp.Assert(okk, "matrix contents type")
	ident := vp.Str("id", 1)
	c.SetIdentifier(ident)
	nt, ns, nc := vp.Choose("targets", 3), vp.Choose("sources", 3), vp.Choose("connections", 3)
	single := nt+ns+nc == 1
	vp.Assume(nt+ns+nc <= 4 || vp.Thorough())
	var ts, ss []embertree.Signal
	var tb, sb, cb [][]byte
	var tn, sn []int32
	for i := 0; i < nt; i++ {
		n := num32("target", !single)
		tn = append(tn, n)
		ts, tb = append(ts, embertree.NewTarget(n)), append(tb, sigMsg(f, app(14), n))
	}
	for i := 0; i < ns; i++ {
		n := num32("source", !single)
		sn = append(sn, n)
		ss, sb = append(ss, embertree.NewSource(n)), append(sb, sigMsg(f, app(15), n))
	}
	var cs []*embertree.Connection
	var cm []connModel
	for i := 0; i < nc; i++ {
		x := anyConn(1, true)
		cm = append(cm, x)
		cs, cb = append(cs, x.build()), append(cb, x.msg(f))
	}
	ok(el.SetTargets(ts), "set targets")
	ok(el.SetSources(ss), "set sources")
	ok(el.SetConnections(cs), "set connections")
	want := elemMsg(f, tag, id, matrixSet(f, t, m, []fld{{0, berStr(ident)}}, []byte{}), wrap0(f, 3, tb...), wrap0(f, 4, sb...), wrap0(f, 5, cb...))
	sameBER(enc(el, "matrix"), want, "matrix element encoding")
	d, err := embertree.DecodeElement(asn1.NewASNReader(want))
	ok(err, "decode matrix")
	vp.Assert(d.GetTag() == tag, "matrix tag")
	checkMatrix(d.GetContent().(*mc), t, m, map[int]val{0: {k: kStr, s: ident}}, "decoded matrix")
	dt, err := d.GetTargets()
	ok(err, "targets")
	ds, err := d.GetSources()
	ok(err, "sources")
	dc, err := d.GetConnections()
	ok(err, "connections")
	vp.Assert(len(dt) == nt && len(ds) == ns && len(dc) == nc, "signal counts")
	for i := range dt {
		x, okk := dt[i].(*embertree.Target)
		vp.Assert(okk && x.Number == tn[i], "target number")
	}
	for i := range ds {
		x, okk := ds[i].(*embertree.Source)
		vp.Assert(okk && x.Number == sn[i], "source number")
	}
	for i := range dc {
		cm[i].check(dc[i], "matrix connection")
	}
}

// C12_notmatrix : signals and connections are refused on every element that is not a matrix, set or on the wire.
func C12_notmatrix() {
	tags := []byte{app(1), app(3), app(19), app(9), app(10), app(20)}
	k := vp.Choose("tag", len(tags))
	id := berInt(3)
	if k > 2 {
		id = berOID(asn1.RelativeOID{1, 3})
	}
	n := 3 + vp.Choose("field", 3)
	f := forms(vp.Choose("form", 2))
	_, err := embertree.DecodeElement(asn1.NewASNReader(elemMsg(f, tags[k], id, nil, wrap0(f, n))))
	vp.Assert(err != nil, "signals on an element that is not a matrix")
	el := embertree.NewNode(1)
	_, e1 := el.GetTargets()
	_, e2 := el.GetSources()
	_, e3 := el.GetConnections()
	vp.Assert(e1 != nil && e2 != nil && e3 != nil, "signals of a node")
	vp.Assert(el.SetTargets(nil) != nil && el.SetSources(nil) != nil && el.SetConnections(nil) != nil, "set signals on a node")
	w := asn1.NewASNWriter()
	vp.Assert(el.EncodeTargets(w) != nil && el.EncodeSources(w) != nil && el.EncodeConnections(w) != nil, "encode signals of a node")
}

// ---------------------------------------------------------------- C13

type tuple struct {
	t    int
	name string
}

func anyTuples(name string, n int) []tuple {
	var ts []tuple
	for i := 0; i < n; i++ {
		nm := ""
		if n == 1 {
			nm = vp.Str(name+".name", vp.Choose(name+"#", 3))
		} else {
			nm = vp.Str(name+".name", 1+i)
		}
		ts = append(ts, tuple{vp.Below(name+".type", 8), nm})
	}
	return ts
}

func buildTuples(ts []tuple) []*embertree.TupleDescription {
	var r []*embertree.TupleDescription
	for _, t := range ts {
		r = append(r, embertree.NewArgument(embertree.ParameterType(t.t), t.name))
	}
	return r
}

func tuplesMsg(f forms, ts []tuple) []byte {
	var ps [][]byte
	for _, t := range ts {
		ps = append(ps, f.c(ctx(0), f.c(app(21), f.c(ctx(0), berInt(int64(t.t))), f.c(ctx(1), berStr(t.name)))))
	}
	return f.c(tagSeq, ps...)
}

func checkTuples(got []*embertree.TupleDescription, want []tuple, label string) {
	vp.Assert(len(got) == len(want), label+": count")
	for i, t := range want {
		vp.Assert(int(got[i].Type) == t.t, label+": type")
		vp.Assert(eqLit(got[i].Name, t.name), label+": name")
	}
}

// C13_function : function contents with any subset of identifier, description and template reference, 0..2 arguments and 0..2 results
// (all types, names of 0..2 bytes), as function or qualified function element.
func C13_function() {
	f := forms(vp.Choose("form", 2))
	has := vp.Choose("has", 8)
	args, res := anyTuples("arg", vp.Choose("args", 3)), anyTuples("res", vp.Choose("res", 3))
	c := embertree.NewFunctionContents().(*embertree.FunctionContents)
	var fs []fld
	id, desc := "", ""
	if has&1 != 0 {
		id = vp.Str("id", 1)
		c.SetIdentifier(id)
		fs = append(fs, fld{0, berStr(id)})
	}
	if has&2 != 0 {
		desc = vp.Str("desc", 1)
		c.SetDescription(desc)
		fs = append(fs, fld{1, berStr(desc)})
	}
	c.SetArguments(buildTuples(args))
	c.SetResult(buildTuples(res))
	if len(args) > 0 {
		fs = append(fs, fld{2, tuplesMsg(f, args)})
	}
	if len(res) > 0 {
		fs = append(fs, fld{3, tuplesMsg(f, res)})
	}
	if has&4 == 0 {
		sameBER(enc(c, "function"), setOf(f, fs...), "function encoding")
	} else {
		fs = append(fs, fld{4, berOID(smallOID("tmpl", 2))})
	}
	src := setOf(f, rot(fs)...)
	d := embertree.NewFunctionContents().(*embertree.FunctionContents)
	r := asn1.NewASNReader(cat(src, []byte{9}))
	ok(d.Decode(r), "decode function")
	vp.Assert(r.Len() == 1, "function contents consumed")
	s, err := d.GetIdentifier()
	vp.Assert((err == nil) == (has&1 != 0) && eqLit(s, id), "identifier")
	s, err = d.GetDescription()
	vp.Assert((err == nil) == (has&2 != 0) && eqLit(s, desc), "description")
	checkTuples(d.GetArguments(), args, "arguments")
	checkTuples(d.GetResult(), res, "result")
	sameBER(enc(d, "re-encode"), setOf(f, fs...), "function re-encoding")
}

// C13_element : function and qualified function elements, every int32 number, paths of 1..2 arcs.
func C13_element() {
	f := forms(vp.Choose("form", 2))
	args := anyTuples("arg", 1)
	var el *embertree.Element
	tag, id := app(19), []byte(nil)
	var num int32
	if vp.Choose("qualified", 2) == 1 {
		path := symOID("path", 1+vp.Choose("path#", 2))
		tag, id, num = app(20), berOID(path), path[len(path)-1]
		el = embertree.NewQualifiedElement(tag, path, embertree.NewFunctionContents)
	} else {
		num = vp.I32("num")
		id = berInt(int64(num))
		el = embertree.NewFunction(int(num))
	}
	el.CreateContent().(*embertree.FunctionContents).SetArguments(buildTuples(args))
	want := elemMsg(f, tag, id, setOf(f, fld{2, tuplesMsg(f, args)}))
	sameBER(enc(el, "function"), want, "function element encoding")
	d, err := embertree.DecodeElement(asn1.NewASNReader(want))
	ok(err, "decode function")
	vp.Assert(d.Number == int(num) && d.GetTag() == tag, "function identity")
	g, okk := d.GetContent().(*embertree.FunctionContents)
	vp.Assert(okk, "function contents type")
	checkTuples(g.GetArguments(), args, "decoded arguments")
}

// C13_unknown : unknown members of function contents and of tuple descriptions are errors.
func C13_unknown() {
	t := vp.U8("t")
	d := embertree.NewFunctionContents().(*embertree.FunctionContents)
	err := d.Decode(asn1.NewASNReader(tlv(tagSet, []byte{t, 3, tagInt, 1, 1})))
	if vp.Or(t < 0xa0, t > 0xa4) {
		vp.Assert(err != nil, "unknown function field accepted")
	}
	err = (&embertree.TupleDescription{}).Decode(asn1.NewASNReader(tlv(app(21), []byte{t, 3, tagInt, 1, 1})))
	if t != 0xa0 {
		vp.Assert(err != nil, "unknown tuple field accepted")
	}
}

func invMsg(f forms, id int, args []val) []byte {
	ps := [][]byte{f.c(ctx(0), berInt(int64(id)))}
	if len(args) > 0 {
		var as [][]byte
		for _, a := range args {
			as = append(as, f.c(ctx(0), a.ber()))
		}
		ps = append(ps, f.c(ctx(1), f.c(tagSeq, as...)))
	}
	return f.c(app(22), ps...)
}

// C13_invocation : invocations with every int32 id and 0..2 arguments of any kind, decoded from the reference in both forms and re-encoded.
func C13_invocation() {
	f := forms(vp.Choose("form", 2))
	n := vp.Choose("args", 3)
	id := int(vp.I32("id"))
	if n == 2 {
		vp.Assume(vp.And(id >= 0, id < 100))
	}
	var args []val
	var cps []*embertree.ContentParameter
	for i := 0; i < n; i++ {
		v := anyVal("arg", vp.Choose("kind", kKinds), n == 2)
		cp := embertree.NewContentParameter()
		v.set(cp)
		args, cps = append(args, v), append(cps, cp)
	}
	want := invMsg(f, id, args)
	sameBER(enc(embertree.NewInvocation(id, cps), "invocation"), want, "invocation encoding")
	d := embertree.NewInvocation(0, nil)
	r := asn1.NewASNReader(cat(want, []byte{9}))
	ok(d.Decode(r), "decode invocation")
	vp.Assert(r.Len() == 1, "invocation consumed")
	sameBER(enc(d, "re-encode"), want, "invocation re-encoding")
}

// ---------------------------------------------------------------- C14

type connModel struct {
	target  int32
	sources []int32
	op, dis int
}

func anyConn(nsrc int, small bool) connModel {
	c := connModel{target: num32("conn.target", small), op: vp.Below("op", 3), dis: vp.Below("dis", 4)}
	if nsrc > 0 {
		if small {
			c.sources = smallOID("conn.src", nsrc)
		} else {
			c.sources = symOID("conn.src", nsrc)
		}
	}
	return c
}

func (c connModel) build() *embertree.Connection {
	x := &embertree.Connection{Target: c.target, Sources: c.sources}
	ok(x.SetOperation(c.op), "set operation")
	ok(x.SetDisposition(c.dis), "set disposition")
	return x
}

func (c connModel) fields(f forms) [][]byte {
	ps := [][]byte{f.c(ctx(0), berInt(int64(c.target)))}
	if len(c.sources) > 0 {
		ps = append(ps, f.c(ctx(1), berOID(c.sources)))
	}
	return append(ps, f.c(ctx(2), berInt(int64(c.op))), f.c(ctx(3), berInt(int64(c.dis))))
}

func (c connModel) msg(f forms) []byte { return f.c(app(16), c.fields(f)...) }

func (c connModel) check(x *embertree.Connection, label string) {
	vp.Assert(x.Target == c.target, label+": target")
	vp.Assert(eqOID(x.Sources, c.sources), label+": sources")
	vp.Assert(int(x.GetOperation()) == c.op, label+": operation")
	vp.Assert(int(x.GetDisposition()) == c.dis, label+": disposition")
}

// C14_connection : connections with every int32 target, 0..3 sources (every non negative int32 for one), all operations and dispositions, fields
// after the target in any order or absent.
func C14_connection() {
	f := forms(vp.Choose("form", 2))
	n := vp.Choose("sources", 4)
	c := anyConn(n, n > 1)
	x := c.build()
	c.check(x, "connection")
	sameBER(enc(x, "connection"), c.msg(f), "connection encoding")
	ps := c.fields(f)
	rest := ps[1:]
	k := vp.Choose("rot", len(rest))
	order := append(append([][]byte{ps[0]}, rest[k:]...), rest[:k]...)
	var d embertree.Connection
	r := asn1.NewASNReader(cat(f.c(app(16), order...), []byte{9}))
	ok(d.Decode(r), "decode connection")
	vp.Assert(r.Len() == 1, "connection consumed")
	c.check(&d, "decoded connection")
	// absent optional fields keep their defaults
	var e embertree.Connection
	ok(e.Decode(asn1.NewASNReader(f.c(app(16), ps[0]))), "decode bare connection")
	connModel{target: c.target}.check(&e, "bare connection")
}

// C14_badconn : operations and dispositions outside their enumerations, unknown fields and missing targets are errors (any int32, any tag).
func C14_badconn() {
	f := forms(vp.Choose("form", 2))
	v := vp.I32("v")
	var d embertree.Connection
	err := d.Decode(asn1.NewASNReader(f.c(app(16), f.c(ctx(0), berInt(1)), f.c(ctx(2), berInt(int64(v))))))
	vp.Assert((err == nil) == vp.And(v >= 0, v <= 2), "operation range")
	err = d.Decode(asn1.NewASNReader(f.c(app(16), f.c(ctx(0), berInt(1)), f.c(ctx(3), berInt(int64(v))))))
	vp.Assert((err == nil) == vp.And(v >= 0, v <= 3), "disposition range")
	t := vp.U8("t")
	if vp.Or(t < 0xa1, t > 0xa3) {
		vp.Assert(d.Decode(asn1.NewASNReader(f.c(app(16), f.c(ctx(0), berInt(1)), tlv(t, berInt(1))))) != nil || t == 0, "unknown connection field accepted")
	}
	vp.Assert(d.Decode(asn1.NewASNReader(f.c(app(16), f.c(ctx(2), berInt(1))))) != nil, "connection without target accepted")
}

func labelMsg(f forms, base asn1.RelativeOID, d string) []byte {
	return f.c(app(18), f.c(ctx(0), berOID(base)), f.c(ctx(1), berStr(d)))
}

// C14_label : labels with base paths of 0..3 arcs (every non negative int32 up to one arc) and descriptions of 0..4 bytes.
func C14_label() {
	f := forms(vp.Choose("form", 2))
	n := vp.Choose("arcs", 4)
	var base asn1.RelativeOID
	if n < 2 {
		base = symOID("base", n)
	} else {
		base = smallOID("base", n)
	}
	d := vp.Str("d", vp.Choose("d#", 5))
	want := labelMsg(f, base, d)
	sameBER(enc(embertree.NewLabel(base, d), "label"), want, "label encoding")
	r := asn1.NewASNReader(cat(want, []byte{9}))
	l, err := embertree.DecodeLabel(r)
	ok(err, "decode label")
	vp.Assert(r.Len() == 1, "label consumed")
	vp.Assert(eqOID(l.BasePath, base) && eqLit(l.Description, d), "decoded label")
}

// C14_signal : targets and sources of every int32; any other tag is an error.
func C14_signal() {
	f := forms(vp.Choose("form", 2))
	n := vp.I32("n")
	t := vp.U8("t")
	r := asn1.NewASNReader(cat(sigMsg(f, t, n), []byte{9}))
	s, err := embertree.DecodeSignal(r)
	switch x := s.(type) {
	case *embertree.Target:
		if err == nil {
			vp.Assert(t == app(14) && x.Number == n, "target")
			sameBER(enc(x, "target"), sigMsg(1, app(14), n), "target encoding")
		}
	case *embertree.Source:
		if err == nil {
			vp.Assert(t == app(15) && x.Number == n, "source")
			sameBER(enc(x, "source"), sigMsg(1, app(15), n), "source encoding")
		}
	}
	vp.Assert((err == nil) == vp.Or(t == app(14), t == app(15)), "signal tag")
	if err == nil {
		vp.Assert(r.Len() == 1, "signal consumed")
	}
	sameBER(enc(embertree.NewTarget(n), "target"), sigMsg(1, app(14), n), "new target encoding")
	sameBER(enc(embertree.NewSource(n), "source"), sigMsg(1, app(15), n), "new source encoding")
	// each type refuses the other's tag
	vp.Assert(embertree.NewTarget(0).Decode(asn1.NewASNReader(sigMsg(f, app(15), n))) != nil, "target decodes a source")
	vp.Assert(embertree.NewSource(0).Decode(asn1.NewASNReader(sigMsg(f, app(14), n))) != nil, "source decodes a target")
}
