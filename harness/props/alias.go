package props

import (
	"github.com/dufourgilles/emberlib/asn1"
	"github.com/dufourgilles/emberlib/embertree"
	"github.com/dufourgilles/emberlib/errors"
	"github.com/dufourgilles/emberlib/socket"
	"verif/harness/vp"
)

// ---------------------------------------------------------------- C38

// overwrite replaces every byte, as a reused buffer is.
func overwrite(b []byte) {
	for i := range b {
		b[i] ^= 0x5a
	}
}

func dup(b []byte) []byte { return append([]byte(nil), b...) }

// C38_values : every kind of value of 0..3 bytes, strings, bits and paths in definite or indefinite form, read directly or as a value: the input is
// not changed, and overwriting it changes nothing read.
func C38_values() {
	v := anyVal("v", vp.Choose("kind", 6), false)
	b := v.ber()
	if vp.Choose("indefinite", 2) == 1 && (v.k == kStr || v.k == kBuf || v.k == kOID) && len(b) < 128 {
		for i := 2; i+1 < len(b); i++ {
			vp.Assume(vp.Or(b[i] != 0, b[i+1] != 0))
		}
		if len(b) > 2 {
			vp.Assume(b[len(b)-1] != 0)
		}
		b = cat([]byte{b[0], 0x80}, b[2:], []byte{0, 0})
	}
	b = append(b, 7)
	in := dup(b)
	r := asn1.NewASNReader(in)
	if vp.Choose("direct", 2) == 0 {
		x := ctx(2)
		in = dup(cat([]byte{x, 0x80}, b[:len(b)-1], []byte{0, 0, 7}))
		b = dup(in)
		cp, err := embertree.DecodeValue(asn1.NewASNReader(in), x)
		ok(err, "decode value")
		vp.Assert(vp.EqBytes(in, b), "decoding leaves its input")
		overwrite(in)
		v.check(cp, "value")
		return
	}
	switch v.k {
	case kStr:
		s, err := r.ReadString()
		ok(err, "string")
		vp.Assert(vp.EqBytes(in, b), "decoding leaves its input")
		overwrite(in)
		vp.Assert(s == v.s, "string")
	case kBuf:
		s, err := r.ReadBitString()
		ok(err, "bits")
		vp.Assert(vp.EqBytes(in, b), "decoding leaves its input")
		overwrite(in)
		vp.Assert(len(s) == len(v.buf) && vp.EqBytes(s, v.buf), "bits")
		// what was read belongs to the reader: it may be changed and grown
		c := append(s, 1, 2, 3)
		overwrite(c)
		overwrite(in)
		vp.Assert(vp.EqBytes(in, b), "input shared with what was read")
	case kOID:
		o, err := r.ReadOID(tagOID)
		ok(err, "path")
		vp.Assert(vp.EqBytes(in, b), "decoding leaves its input")
		overwrite(in)
		vp.Assert(eqOID(o, v.o), "path")
	default:
		vp.Stop()
	}
}

// C38_raw : bytes read up to an end marker stay when the input is overwritten and may be changed without changing it.
func C38_raw() {
	n := vp.Choose("n", 4)
	v := vp.Bytes("v", n)
	for i := 0; i < n; i++ {
		vp.Assume(v[i] != 0)
	}
	b := cat(v, []byte{0, 0, 9})
	in := dup(b)
	r := asn1.NewASNReader(in)
	got, err := r.ReadIndifiniteLengthData()
	ok(err, "data")
	vp.Assert(r.Len() == 1 && len(got) == n, "position")
	overwrite(in)
	vp.Assert(vp.EqBytes(got, v), "data")
	got = append(got, 5, 6)
	overwrite(got)
	overwrite(in)
	vp.Assert(vp.EqBytes(in, b), "input shared with what was read")
}

// C38_messages : the ten messages of C16, every container in one form or mixed, symbolic values: overwriting the input after decoding changes nothing
// decoded, and decoding does not change it.
func C38_messages() {
	i := vp.Choose("message", formMessages)
	x := formVals{vp.Str("s", 1), int64(vp.U8("i") & 0x7f), vp.Bool("b"), smallOID("o", 2)}
	def, _ := formMessage(i, func() forms { return 1 }, x)
	f := forms(pick("form", 0, 1, 3))
	b, dec := formMessage(i, func() forms { return f }, x)
	want := dup(b)
	afterDecode = func(in []byte) {
		vp.Assert(vp.EqBytes(in[:len(want)], want), "decoding leaves its input")
		overwrite(in)
	}
	defer func() { afterDecode = nil }()
	got := dec(b)
	afterDecode = nil
	sameBER(got, def, "overwriting the input changes what was decoded")
}

// C38_merged : two (three in the thorough tier) messages of the 20 kinds of C19, each read into the same buffer: the tree is the one of the messages.
func C38_merged() {
	vp.MapAnyOrder(true)
	tree := embertree.NewTree()
	t := baseTree(tree)
	f := forms(vp.Choose("form", 2))
	n := 2
	if vp.Thorough() {
		n = 3
	}
	buf := make([]byte, 0, 400)
	for i := 0; i < n; i++ {
		us := update(vp.Choose("update", updates))
		buf = append(buf[:0], message(f, us)...)
		decodeInto(tree, buf, "message")
		overwrite(buf)
		t.receive(us)
		checkRoot(tree, t.roots, "updated tree")
		t.pin(tree)
	}
}

// C38_twice : the same bytes decoded twice, with any value inside: changing one result in place, its buffer, path, string or children, leaves the other.
func C38_twice() {
	s, v := vp.Bytes("s", 2), vp.Bytes("v", 2)
	k := vp.Choose("value", 2)
	val := berBits(v)
	o := smallOID("o", 2)
	if k == 1 {
		val = berOID(o)
	}
	f := forms(vp.Choose("form", 2))
	path := smallOID("p", 2)
	m := f.c(app(9), f.c(ctx(0), berOID(path)), f.c(ctx(1), setOf(f, fld{0, berStr(string(s))}, fld{2, val})),
		f.c(ctx(2), f.c(app(4), f.c(ctx(0), mk(mParam, 3).msg(f)))))
	in := dup(m)
	a, err := embertree.DecodeElement(asn1.NewASNReader(in))
	ok(err, "first")
	b, err := embertree.DecodeElement(asn1.NewASNReader(in))
	ok(err, "second")
	want := enc(b, "second before")
	pa, isP := a.GetContent().(*embertree.ParameterContents)
	vp.Assert(isP, "contents")
	if k == 0 {
		g, err := pa.GetValueObject().GetBuffer()
		ok(err, "buffer")
		overwrite(g)
	} else {
		g, err := pa.GetValueObject().GetRelativeOID()
		ok(err, "path")
		g[0]++
	}
	pa.SetIdentifier("changed")
	pa.SetDescription("new")
	a.Children[3].GetContent().(*embertree.ParameterContents).SetDescription("new")
	p := a.GetPath()
	p[0]++
	ok(a.AddChild(mk(mParam, 8).build()), "child")
	got := enc(b, "second after")
	vp.Assert(len(got) == len(want) && vp.EqBytes(got, want), "two results share something")
}

// C38_writer : a buffer, path and string written, the arguments changed at once; two writers used in turn: each holds what it was given, and writing
// does not change its arguments.
func C38_writer() {
	n := vp.Choose("n", 4)
	v := vp.Bytes("v", n)
	o := smallOID("o", 2)
	w1, w2 := asn1.NewASNWriter(), asn1.NewASNWriter()
	var want1, want2 []byte
	for i := 0; i < 3; i++ {
		w, want := w1, &want1
		if vp.Choose("writer", 2) == 1 {
			w, want = w2, &want2
		}
		switch vp.Choose("op", 3) {
		case 0:
			a := dup(v)
			ok(w.WriteBuffer(a, tagBits), "buffer")
			vp.Assert(vp.EqBytes(a, v), "argument changed")
			overwrite(a)
			*want = append(*want, berBits(v)...)
		case 1:
			a := append(asn1.RelativeOID(nil), o...)
			ok(w.WriteRelativeOID(a), "path")
			vp.Assert(eqOID(a, o), "argument changed")
			a[0], a[1] = a[1]+1, a[0]
			*want = append(*want, berOID(o)...)
		case 2:
			ok(w.WriteString(string(v)), "string")
			*want = append(*want, berStr(string(v))...)
		}
	}
	got1 := drain(w1)
	ok(w1.WriteString("after"), "string")
	got2 := drain(w2)
	vp.Assert(len(got1) == len(want1) && vp.EqBytes(got1, want1), "first writer")
	vp.Assert(len(got2) == len(want2) && vp.EqBytes(got2, want2), "second writer")
	again := drain(w1)
	overwrite(got1)
	vp.Assert(vp.EqBytes(again, berStr("after")), "written after reading")
}

// c38Element is one of eight elements or trees with symbolic contents, and a change that must not reach what was encoded before.
func c38Element(i int) (encoder, func()) {
	s, v, o := vp.Str("s", 2), vp.Bytes("v", 2), smallOID("o", 2)
	switch i {
	case 0: // node with a child
		e := mk(mNode, 1, mk(mParam, 2)).build()
		return e, func() {
			e.GetContent().(*embertree.NodeContents).SetIdentifier("zz")
			e.AddChild(embertree.NewParameter(3))
		}
	case 1: // parameter with a buffer
		e := embertree.NewParameter(4)
		c := e.CreateContent().(*embertree.ParameterContents)
		c.SetIdentifier(s)
		c.GetValueObject().SetBuffer(v)
		return e, func() { overwrite(v); c.SetIdentifier("zz") }
	case 2: // parameter with a path
		e := embertree.NewParameter(4)
		c := e.CreateContent().(*embertree.ParameterContents)
		c.GetValueObject().SetRelativeOID(o)
		return e, func() { o[0]++; c.GetValueObject().SetInt(1) }
	case 3: // qualified parameter
		e := embertree.NewQualifiedParameter(o)
		e.CreateContent().(*embertree.ParameterContents).SetIdentifier(s)
		return e, func() { o[1]++ }
	case 4: // matrix
		e, err := embertree.NewMatrix(5, embertree.OneToN, embertree.Linear)
		ok(err, "matrix")
		c := anyConn(2, true)
		x := c.build()
		ok(e.SetConnections([]*embertree.Connection{x}), "connections")
		ok(e.SetTargets([]embertree.Signal{embertree.NewTarget(1)}), "targets")
		ok(e.SetSources([]embertree.Signal{embertree.NewSource(3)}), "sources")
		return e, func() { ok(e.SetTargets([]embertree.Signal{embertree.NewTarget(9)}), "targets") }
	case 5: // tree
		t := embertree.NewTree()
		t.AddElement(mk(mNode, 1, mk(mNode, 2, mk(mFunc, 3))).build())
		return t, func() { t.AddElement(embertree.NewNode(6)) }
	case 6: // connection
		c := anyConn(2, true)
		x := c.build()
		return x, func() { *x = embertree.Connection{} }
	}
	// the request made of an element
	t := embertree.NewTree()
	m := mk(mNode, 1, mk(mParam, 2))
	t.AddElement(m.build())
	e := t.GetElementByNumber(1).Children[2]
	q := e.GetQualifiedDirectoryMsg(nil)
	return q, func() { e.AddChild(embertree.NewParameter(1)); e.Number = 77 }
}

// C38_encode : eight elements and trees with symbolic contents encoded twice, then changed: encoding changes nothing, and the bytes made before stay.
func C38_encode() {
	e, change := c38Element(vp.Choose("element", 8))
	a := enc(e, "first")
	b := enc(e, "second")
	vp.Assert(len(a) == len(b) && vp.EqBytes(a, b), "encoding again gives the same")
	w := asn1.NewASNWriter()
	ok(e.Encode(w), "third")
	change()
	c := drain(w)
	vp.Assert(len(a) == len(c) && vp.EqBytes(a, c), "what was encoded changed with the element")
	vp.Assert(vp.EqBytes(a, b), "bytes made before")
}

// C38_request : asking for the directory of any element of a tree, as the root or qualified, and making texts leaves the tree and its encoding as they are.
func C38_request() {
	m := mk(mNode, 1, mk(mNode, 2, mk(mParam, 3)))
	t := embertree.NewTree()
	t.AddElement(m.build())
	before := enc(t, "before")
	e := t.GetElementByNumber(1)
	for d := vp.Choose("depth", 3); d > 0; d-- {
		for _, k := range e.Children {
			e = k
		}
	}
	switch vp.Choose("request", 4) {
	case 0:
		enc(e.GetQualifiedDirectoryMsg(nil), "qualified")
	case 1:
		r, err := e.GetDirectoryMsg(nil)
		ok(err, "directory")
		enc(r, "directory")
	case 2:
		r, err := t.GetDirectoryMsg(nil)
		ok(err, "root directory")
		enc(r, "root")
	case 3:
		p := e.GetPath()
		overwriteOID(p)
	}
	after := enc(t, "after")
	vp.Assert(len(before) == len(after) && vp.EqBytes(before, after), "the request changes the tree")
	checkRoot(t, []*em{m}, "tree")
}

func overwriteOID(o asn1.RelativeOID) {
	for i := range o {
		o[i] += 5
	}
}

// C38_frames : messages of 0..3 arbitrary bytes or of two packets, the data overwritten after encoding, frames overwritten after reading them: the
// frames stay, the data are not changed by encoding, and lists made of other data neither.
func C38_frames() {
	data := vp.Bytes("d", vp.Choose("n", 4))
	if vp.Choose("long", 2) == 1 {
		data = append(filler(2, 1030), data...)
	}
	in := dup(data)
	l := socket.EncodeMessage(in)
	vp.Assert(vp.EqBytes(in, data), "encoding changes the data")
	overwrite(in)
	other := socket.EncodeMessage(in)
	var s sink
	d := s.decoder()
	for i := 0; i < l.Size(); i++ {
		b, err := l.GetBytesAt(i)
		ok(err, "frame")
		c := dup(b)
		overwrite(b)
		b, err = l.GetBytesAt(i)
		ok(err, "frame again")
		vp.Assert(len(b) == len(c) && vp.EqBytes(b, c), "frame overwritten")
		d.DecodeBuffer(len(b), b)
		vp.Assert(vp.EqBytes(b, c), "decoding changes its input")
		overwrite(b)
	}
	vp.Assert(other.Size() >= 1, "other list")
	s.want(data)
}

// C38_keepalive : a keep-alive frame made is the caller's: changing it changes no later one.
func C38_keepalive() {
	get := socket.GetKeepaliveRequest
	if vp.Choose("response", 2) == 1 {
		get = socket.GetKeepAliveResponse
	}
	a := get()
	want := dup(a.Bytes())
	at := vp.Choose("at", len(want))
	a.Bytes()[at] = vp.U8("x")
	a.WriteByte(1)
	a.Next(vp.Choose("read", 3))
	b := get()
	vp.Assert(len(b.Bytes()) == len(want) && vp.EqBytes(b.Bytes(), want), "keep-alive frames share something")
}

// C38_delivered : three messages of 1..4 bytes in one or two packets, one byte arbitrary, whose receiver overwrites and grows what it is handed, or keeps it: the others
// are delivered as they are, and what is kept stays.
func C38_delivered() {
	keep := vp.Choose("keep", 2) == 1
	var got, msgs [][]byte
	kals := 0
	d := socket.NewS101Decoder(
		func(b []byte) errors.Error { kals++; overwrite(b); return nil },
		func(b []byte) errors.Error { kals++; overwrite(b); return nil },
		func(b []byte) errors.Error {
			got = append(got, dup(b))
			if keep {
				got[len(got)-1] = b
			} else {
				overwrite(b)
				b = append(b, 1, 2, 3, 4)
			}
			return nil
		},
		func(err errors.Error) { vp.Fail("error reported") })
	sent := 0
	any := vp.Choose("any", 3)
	for i := 0; i < 3; i++ {
		var stream []byte
		a := []byte{byte(0xf7 + i), 0xfe, 3}[:1+vp.Choose("n", 3)]
		if i == any {
			a[0] = vp.U8("a")
		}
		if vp.Choose("packets", 2) == 0 {
			stream = s101(ember(0xc0, a...)...)
			msgs = append(msgs, a)
		} else {
			b := []byte{byte(i)}
			stream = cat(s101(ember(0x80, a...)...), s101(kal(1)...), s101(ember(0x40, b...)...))
			sent++
			msgs = append(msgs, cat(a, b))
		}
		at := len(stream) / 2
		buf := make([]byte, len(stream))
		n := copy(buf, stream[:at])
		d.DecodeBuffer(n, buf)
		overwrite(buf)
		n = copy(buf, stream[at:])
		d.DecodeBuffer(n, buf)
		overwrite(buf)
	}
	vp.Assert(kals == sent, "keep-alives")
	vp.Assert(len(got) == len(msgs), "number of messages")
	for i := range msgs {
		vp.Assert(len(got[i]) == len(msgs[i]) && vp.EqBytes(got[i], msgs[i]), "message")
	}
}
