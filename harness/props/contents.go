package props

import (
	"github.com/dufourgilles/emberlib/asn1"
	"github.com/dufourgilles/emberlib/embertree"
	"github.com/dufourgilles/emberlib/errors"
	"verif/harness/vp"
)

// ---------------------------------------------------------------- C09

// C09_typing : up to two successive values of any of the six kinds (strings and buffers of 0..3 bytes, every int64, OIDs of 1..2 arcs, seven reals).
func C09_typing() {
	cp := embertree.NewContentParameter()
	checkUnset(cp, "new parameter")
	k1 := vp.Choose("k1", kKinds)
	v1 := anyVal("v1", k1, false)
	v1.set(cp)
	v1.check(cp, "value")
	k2 := vp.Choose("k2", kKinds)
	v2 := anyVal("v2", k2, true)
	v2.set(cp)
	v2.check(cp, "second value")
}

// C09_assign : copying any value or nothing into an unset, same-kind or other-kind parameter.
func C09_assign() {
	a, b := embertree.NewContentParameter(), embertree.NewContentParameter()
	ka, kb := vp.Choose("ka", kKinds+1), vp.Choose("kb", kKinds+1)
	var va, vb val
	if ka < kKinds {
		va = anyVal("a", ka, true)
		va.set(a)
	}
	if kb < kKinds {
		vb = anyVal("b", kb, true)
		vb.set(b)
	}
	err := a.Set(b)
	switch {
	case ka == kKinds && kb == kKinds:
		ok(err, "unset into unset")
		checkUnset(a, "unset")
	case ka == kKinds:
		ok(err, "any kind into unset")
		vb.check(a, "copied value")
	case kb != ka:
		if kb < kKinds {
			vp.Assert(err != nil, "another kind is refused")
		}
		va.check(a, "refused value keeps the old one")
	default:
		ok(err, "same kind")
		vb.check(a, "copied value")
	}
	if kb < kKinds {
		vb.check(b, "source untouched")
	}
}

// C09_trip : every kind under every context number 0..30, encoded against the reference, decoded from the library's own bytes and from the
// reference in definite and indefinite form, with bytes behind it.
func C09_trip() {
	cp := embertree.NewContentParameter()
	c := vp.Choose("ctx", 31)
	k := vp.Choose("k", kKinds)
	v := anyVal("v", k, c%8 != 0)
	v.set(cp)
	w := asn1.NewASNWriter()
	ok(cp.Encode(uint8(c), w), "encode")
	b := drain(w)
	want := tlv(ctx(c), v.ber())
	sameBER(b, want, "value encoding")
	src := b
	switch vp.Choose("src", 3) {
	case 1:
		src = want
	case 2:
		src = ind(ctx(c), v.ber())
	}
	r := asn1.NewASNReader(cat(src, []byte{7, 8}))
	got, err := embertree.DecodeValue(r, uint8(c))
	ok(err, "decode")
	v.check(got, "decoded value")
	vp.Assert(r.Len() == 2, "value consumed exactly")
	// another context number is refused
	d := vp.Choose("other", 2)
	_, err = embertree.DecodeValue(asn1.NewASNReader(src), uint8((c+1+d*7)%31))
	vp.Assert(err != nil, "context number is checked")
}

// C09_unset : an unset parameter writes nothing; an empty definite value decodes as unset; any unknown inner tag is an error.
func C09_unset() {
	w := asn1.NewASNWriter()
	ok(embertree.NewContentParameter().Encode(uint8(vp.Choose("c", 31)), w), "encode unset")
	vp.Assert(w.Len() == 0, "unset writes nothing")
	t := vp.U8("t")
	f := forms(vp.Choose("form", 2))
	_, err := embertree.DecodeValue(asn1.NewASNReader(f.c(ctx(2), []byte{t, 1, 1})), 2)
	known := vp.Or(t == tagBool, vp.Or(t == tagInt, vp.Or(t == tagReal, vp.Or(t == tagBits, vp.Or(t == tagString, t == tagOID)))))
	if !known {
		vp.Assert(err != nil, "unknown value type accepted")
	}
	got, err := embertree.DecodeValue(asn1.NewASNReader([]byte{ctx(2), 0}), 2)
	ok(err, "empty value")
	checkUnset(got, "empty value")
}

// ---------------------------------------------------------------- C10

type nodeModel struct {
	has            int // bit per field
	id, desc, sch  string
	root, online   bool
	tmpl           asn1.RelativeOID
}

func anyNode(has int, small bool) *nodeModel {
	m := &nodeModel{has: has}
	str := func(n string) string {
		if small {
			return vp.Str(n, 1)
		}
		return vp.Str(n, vp.Choose(n+"#", 3))
	}
	if has&1 != 0 {
		m.id = str("id")
	}
	if has&2 != 0 {
		m.desc = str("desc")
	}
	if has&4 != 0 {
		m.root = vp.Bool("root")
	}
	if has&8 != 0 {
		m.online = vp.Bool("online")
	}
	if has&16 != 0 {
		m.sch = str("schema")
	}
	if has&32 != 0 {
		m.tmpl = smallOID("tmpl", 1+vp.Choose("tmpl#", 2))
	}
	return m
}

func (m *nodeModel) fill(c *embertree.NodeContents) {
	if m.has&1 != 0 {
		c.SetIdentifier(m.id)
	}
	if m.has&2 != 0 {
		c.SetDescription(m.desc)
	}
	if m.has&4 != 0 {
		c.SetIsRoot(m.root)
	}
	if m.has&8 != 0 {
		c.SetIsOnline(m.online)
	}
	if m.has&16 != 0 {
		c.SetSchemaIdentifiers(m.sch)
	}
	if m.has&32 != 0 {
		c.SetTemplateReference(m.tmpl)
	}
}

func (m *nodeModel) fields() []fld {
	var fs []fld
	if m.has&1 != 0 {
		fs = append(fs, fld{0, berStr(m.id)})
	}
	if m.has&2 != 0 {
		fs = append(fs, fld{1, berStr(m.desc)})
	}
	if m.has&4 != 0 {
		fs = append(fs, fld{2, berBool(m.root)})
	}
	if m.has&8 != 0 {
		fs = append(fs, fld{3, berBool(m.online)})
	}
	if m.has&16 != 0 {
		fs = append(fs, fld{4, berStr(m.sch)})
	}
	if m.has&32 != 0 {
		fs = append(fs, fld{5, berOID(m.tmpl)})
	}
	return fs
}

func (m *nodeModel) check(c *embertree.NodeContents, label string) {
	s, err := c.GetIdentifier()
	vp.Assert((err == nil) == (m.has&1 != 0) && eqLit(s, m.id), label+": identifier")
	s, err = c.GetDescription()
	vp.Assert((err == nil) == (m.has&2 != 0) && eqLit(s, m.desc), label+": description")
	b, err := c.GetIsRoot()
	vp.Assert((err == nil) == (m.has&4 != 0) && b == m.root, label+": isRoot")
	b, err = c.GetIsOnline()
	vp.Assert((err == nil) == (m.has&8 != 0) && b == m.online, label+": isOnline")
	s, err = c.GetSchemaIdentifiers()
	vp.Assert((err == nil) == (m.has&16 != 0) && eqLit(s, m.sch), label+": schemaIdentifiers")
	o, _ := c.GetTemplateReference()
	vp.Assert(eqOID(o, m.tmpl), label+": templateReference")
}

// C10_contents : all 64 subsets of the node fields, strings of 0..2 arbitrary bytes, both booleans, references of 1..2 one-byte arcs; decoded
// from the library's bytes and from the reference in both forms, fields rotated.
func C10_contents() {
	m := anyNode(vp.Choose("has", 64), false)
	c := embertree.NewNodeContents().(*embertree.NodeContents)
	m.fill(c)
	m.check(c, "node contents")
	b := enc(c, "node contents")
	sameBER(b, setOf(1, m.fields()...), "node contents encoding")
	src := b
	if k := vp.Choose("src", 3); k > 0 {
		src = setOf(forms(k-1), rot(m.fields())...)
	}
	d := embertree.NewNodeContents().(*embertree.NodeContents)
	r := asn1.NewASNReader(cat(src, []byte{9}))
	ok(d.Decode(r), "decode node contents")
	vp.Assert(r.Len() == 1, "node contents consumed")
	m.check(d, "decoded node contents")
	sameBER(enc(d, "re-encode"), setOf(1, m.fields()...), "node contents re-encoding")
}

// elemSpec describes an element on the wire.
func elemMsg(f forms, tag byte, idOrPath []byte, contents []byte, more ...[]byte) []byte {
	ps := [][]byte{f.c(ctx(0), idOrPath)}
	if contents != nil {
		ps = append(ps, f.c(ctx(1), contents))
	}
	ps = append(ps, more...)
	return f.c(tag, ps...)
}

// C10_element : node and qualified node elements carrying any subset of the fields, every int32 number or paths of 1..2 arcs.
func C10_element() {
	m := anyNode(vp.Choose("has", 64), true)
	q := vp.Choose("qualified", 2) == 1
	f := forms(vp.Choose("form", 2))
	var el *embertree.Element
	var num int32
	var path asn1.RelativeOID
	tag := app(3)
	var id []byte
	if q {
		tag = app(10)
		path = symOID("path", 1+vp.Choose("path#", 2))
		id = berOID(path)
		el = embertree.NewQualifiedNode(path)
		num = path[len(path)-1]
	} else {
		num = vp.I32("num")
		id = berInt(int64(num))
		el = embertree.NewNode(int(num))
	}
	m.fill(el.CreateContent().(*embertree.NodeContents))
	want := elemMsg(f, tag, id, setOf(f, m.fields()...))
	sameBER(enc(el, "node"), want, "node encoding")
	d, err := embertree.DecodeElement(asn1.NewASNReader(want))
	ok(err, "decode node")
	vp.Assert(d.Number == int(num) && d.GetTag() == tag, "node identity")
	if q {
		vp.Assert(eqOID(d.GetPath(), path), "node path")
	}
	c, okk := d.GetContent().(*embertree.NodeContents)
	vp.Assert(okk, "node contents type")
	m.check(c, "decoded node")
}

// ---------------------------------------------------------------- C11

// parameter fields: number, kind (-1: any kind), accessors
type pfield struct {
	n, k int
	set  func(*embertree.ParameterContents, val)
	get  func(*embertree.ParameterContents) (val, errors.Error)
}

func objField(n int, obj func(*embertree.ParameterContents) *embertree.ContentParameter) pfield {
	return pfield{n, -1, func(p *embertree.ParameterContents, v val) { v.set(obj(p)) }, nil}
}

type pc = embertree.ParameterContents

var paramObj = map[int]func(*pc) *embertree.ContentParameter{
	2: (*pc).GetValueObject, 3: (*pc).GetMinimumObject, 4: (*pc).GetMaximumObject, 12: (*pc).GetDefaultObject,
}

func strField(n int, set func(*pc, string), get func(*pc) (string, errors.Error)) pfield {
	return pfield{n, kStr, func(p *pc, v val) { set(p, v.s) }, func(p *pc) (val, errors.Error) { s, e := get(p); return val{k: kStr, s: s}, e }}
}
func intField(n int, set func(*pc, int64), get func(*pc) (int64, errors.Error)) pfield {
	return pfield{n, kInt, func(p *pc, v val) { set(p, v.i) }, func(p *pc) (val, errors.Error) { s, e := get(p); return val{k: kInt, i: s}, e }}
}

func paramFields() []pfield {
	return []pfield{
		strField(0, (*pc).SetIdentifier, (*pc).GetIdentifier),
		strField(1, (*pc).SetDescription, (*pc).GetDescription),
		objField(2, (*pc).GetValueObject),
		objField(3, (*pc).GetMinimumObject),
		objField(4, (*pc).GetMaximumObject),
		strField(5, (*pc).SetAccess, (*pc).GetAccess),
		strField(6, (*pc).SetFormat, (*pc).GetFormat),
		strField(7, (*pc).SetEnumeration, (*pc).GetEnumeration),
		intField(8, (*pc).SetFactor, (*pc).GetFactor),
		{9, kBool, func(p *pc, v val) { p.SetOnline(v.b) }, func(p *pc) (val, errors.Error) { b, e := p.GetOnline(); return val{k: kBool, b: b}, e }},
		strField(10, (*pc).SetFormula, (*pc).GetFormula),
		intField(11, (*pc).SetStep, (*pc).GetStep),
		objField(12, (*pc).GetDefaultObject),
		strField(13, (*pc).SetType, (*pc).GetType),
		intField(14, (*pc).SetStreanIdentifier, (*pc).GetStreamIdentifier),
	}
}

func eqVal(a, b val) bool {
	switch a.k {
	case kStr:
		return eqLit(a.s, b.s)
	case kBool:
		return a.b == b.b
	}
	return a.i == b.i
}

// checkParam asserts that exactly the given fields are readable, with their values.
func checkParam(p *pc, fs []pfield, has map[int]val, label string) {
	for _, f := range fs {
		v, set := has[f.n]
		if f.k < 0 {
			if set {
				v.check(paramObj[f.n](p), label)
			} else {
				checkUnset(paramObj[f.n](p), label)
			}
			continue
		}
		g, err := f.get(p)
		vp.Assert((err == nil) == set, label+": field set or unset")
		if set {
			vp.Assert(eqVal(v, g), label+": field value")
		}
	}
}

func paramTrip(idx []int, small bool) {
	fs := paramFields()
	has := map[int]val{}
	p := embertree.NewParameterContents().(*pc)
	var ms []fld
	for _, i := range idx {
		f := fs[i]
		k := f.k
		if k < 0 {
			if small {
				k = (i + len(idx)) % kKinds
			} else {
				k = vp.Choose("kind", kKinds)
			}
		}
		v := anyVal("v", k, small)
		has[f.n] = v
		f.set(p, v)
		ms = append(ms, fld{f.n, v.ber()})
	}
	checkParam(p, fs, has, "parameter")
	b := enc(p, "parameter contents")
	sameBER(b, setOf(1, ms...), "parameter encoding")
	src := b
	if k := vp.Choose("src", 3); k > 0 {
		src = setOf(forms(k-1), ms...)
	}
	if len(ms) == 2 && vp.Choose("swap", 2) == 1 {
		src = setOf(0, ms[1], ms[0])
	}
	d := embertree.NewParameterContents().(*pc)
	r := asn1.NewASNReader(cat(src, []byte{9}))
	ok(d.Decode(r), "decode parameter contents")
	vp.Assert(r.Len() == 1, "parameter contents consumed")
	checkParam(d, fs, has, "decoded parameter")
}

// C11_single : no field or each single field, all kinds for value, minimum, maximum and default, wide values.
func C11_single() {
	i := vp.Choose("field", len(paramFields())+1)
	if i == len(paramFields()) {
		paramTrip(nil, false)
		return
	}
	paramTrip([]int{i}, false)
}

// C11_pairs : every pair of fields, and all fields with at most one missing.
func C11_pairs() {
	n := len(paramFields())
	if vp.Choose("mode", 2) == 0 {
		i := vp.Choose("i", n)
		j := vp.Choose("j", n)
		vp.Assume(i < j)
		paramTrip([]int{i, j}, true)
		return
	}
	miss := vp.Choose("miss", n+1)
	var idx []int
	for i := 0; i < n; i++ {
		if i != miss {
			idx = append(idx, i)
		}
	}
	paramTrip(idx, true)
}

// C11_decoded : fields without accessors (schema identifiers 17, template reference 18, integer access 5 and type 13) survive decoding and re-encoding,
// next to any other field.
func C11_decoded() {
	fs := []fld{{17, berStr(vp.Str("schema", 2))}, {18, berOID(smallOID("tmpl", 2))}, {5, berInt(int64(vp.Below("access", 4)))}, {13, berInt(int64(vp.Below("type", 8)))}}
	var ms []fld
	has := vp.Choose("has", 16)
	for i, f := range fs {
		if has&(1<<i) != 0 {
			ms = append(ms, f)
		}
	}
	if vp.Choose("id", 2) == 1 {
		ms = append([]fld{{0, berStr(vp.Str("id", 1))}}, ms...)
	}
	d := embertree.NewParameterContents().(*pc)
	ok(d.Decode(asn1.NewASNReader(setOf(forms(vp.Choose("form", 2)), rot(ms)...))), "decode parameter contents")
	sameBER(enc(d, "re-encode"), setOf(1, ms...), "parameter re-encoding")
}

// C11_unknown : a member with any other tag is an error.
func C11_unknown() {
	t := vp.U8("t")
	d := embertree.NewParameterContents().(*pc)
	err := d.Decode(asn1.NewASNReader(tlv(tagSet, cat([]byte{t, 3, tagInt, 1, 1}))))
	if vp.Or(t < 0xa0, t > 0xb2) {
		vp.Assert(err != nil, "unknown parameter field accepted")
	} else if t != 0xb2 {
		ok(err, "known parameter field")
	}
}

// C11_element : parameter and qualified parameter elements, every int32 number or paths of 1..2 arcs.
func C11_element() {
	q := vp.Choose("qualified", 2) == 1
	f := forms(vp.Choose("form", 2))
	v := anyVal("v", vp.Choose("k", kKinds), true)
	ident := vp.Str("id", 1)
	var el *embertree.Element
	tag, id := app(1), []byte(nil)
	var num int32
	if q {
		path := symOID("path", 1+vp.Choose("path#", 2))
		tag, id, num = app(9), berOID(path), path[len(path)-1]
		el = embertree.NewQualifiedParameter(path)
		vp.Assert(eqOID(el.GetPath(), path), "qualified path")
	} else {
		num = vp.I32("num")
		id = berInt(int64(num))
		el = embertree.NewParameter(int(num))
	}
	c := el.CreateContent().(*pc)
	c.SetIdentifier(ident)
	v.set(c.GetValueObject())
	want := elemMsg(f, tag, id, setOf(f, fld{0, berStr(ident)}, fld{2, v.ber()}))
	sameBER(enc(el, "parameter"), want, "parameter encoding")
	d, err := embertree.DecodeElement(asn1.NewASNReader(want))
	ok(err, "decode parameter")
	vp.Assert(d.Number == int(num) && d.GetTag() == tag, "parameter identity")
	g, okk := d.GetContent().(*pc)
	vp.Assert(okk, "parameter contents type")
	checkParam(g, paramFields(), map[int]val{0: {k: kStr, s: ident}, 2: v}, "decoded parameter")
}
