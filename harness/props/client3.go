package props

import (
	"strconv"
	"strings"

	"github.com/dufourgilles/emberlib/asn1"
	"github.com/dufourgilles/emberlib/embertree"
	"github.com/dufourgilles/emberlib/errors"
	"github.com/dufourgilles/emberlib/logger"
	"verif/harness/vp"
)

// ---------------------------------------------------------------- C34: texts and loggers

// spy is a logger that counts.
type spy struct {
	lvl  logger.LogLevel
	n    int
	last string
}

func (s *spy) Error(e errors.Error)                  { s.n++ }
func (s *spy) Warn(format string, a ...interface{})  { s.n++; s.last = format }
func (s *spy) Info(format string, a ...interface{})  { s.n++; s.last = format }
func (s *spy) Debug(format string, a ...interface{}) { s.n++; s.last = format }
func (s *spy) Debugln(a ...interface{})              { s.n++ }
func (s *spy) SetLogLevel(l logger.LogLevel)         { s.lvl = l }
func (s *spy) GetLogLevel() logger.LogLevel          { return s.lvl }

// anyLogger is one of the loggers a user may attach; nil is refused.
func anyLogger() logger.Logger {
	switch vp.Choose("logger", 5) {
	case 0:
		return &spy{}
	case 1:
		return logger.NewConsoleLogger(logger.DebugLevel)
	case 2:
		return logger.NewConsoleLogger(logger.ErrorLevel)
	case 3:
		return logger.NewNullLogger()
	}
	return nil
}

func mentions(text string, parts ...string) {
	for _, p := range parts {
		vp.Assert(strings.Contains(text, p), "text mentions "+p)
	}
}

// C34_elements : trees of up to 4 elements of every type, plain, bare, nested: the text names every number, path, identifier and description; the tree is unchanged.
func C34_elements() {
	tree := embertree.NewTree()
	kind, below := vp.Choose("kind", 4), vp.Choose("below", 4)
	root := &em{kind: kind, num: 11, has: true, id: "Rid"}
	kid := &em{kind: below, num: 25, has: true, id: "Kid", val: 77}
	last := &em{kind: mParam, num: 36, has: true, id: "Last", val: 1234}
	bare := vp.Choose("bare", 4)
	switch bare {
	case 1:
		root.bare()
	case 2:
		kid.bare()
	case 3:
		root.bare()
		kid.bare()
	}
	kid.kids = []*em{last}
	root.kids = []*em{kid}
	other := &em{kind: mNode, num: 4, has: true, id: "Other"}
	f := forms(0)
	if vp.Choose("source", 2) == 0 {
		tree.AddElement(root.build())
		tree.AddElement(other.build())
	} else {
		decodeInto(tree, rootMsg(f, root.msg(f), other.msg(f)), "tree")
	}
	text := tree.ToString()
	mentions(text, "11", "11.25", "11.25.36", "number: 36", "Last", "1234", "number: 4", "Other")
	if bare&1 == 0 {
		mentions(text, "Rid")
	}
	if bare&2 == 0 {
		mentions(text, "Kid")
		if below == mParam {
			mentions(text, "77")
		}
	}
	e := tree.GetElementByNumber(11)
	part := e.ToString()
	mentions(part, "11.25.36", "Last")
	vp.Assert(!strings.Contains(part, "Other"), "text of an element is about that element")
	vp.Assert(!strings.Contains(text, "%!"), "text is well formed")
	checkRoot(tree, []*em{root, other}, "tree unchanged")
}

// C34_contents : node, parameter, matrix, function contents with identifier and description set or not and parameters with a value of every type: the text has what is set, nothing else.
func C34_contents() {
	hasID, hasDesc := vp.Choose("id", 2) == 1, vp.Choose("desc", 2) == 1
	var want []string
	var text string
	set := func(id, desc func(string)) {
		if hasID {
			id("An id, 100%d")
		}
		if hasDesc {
			desc("A {description}")
		}
	}
	switch vp.Choose("kind", 4) {
	case 0:
		c := embertree.NewNodeContents().(*embertree.NodeContents)
		set(func(s string) { c.SetIdentifier(s) }, func(s string) { c.SetDescription(s) })
		on := vp.Choose("online", 2) == 1
		c.SetIsOnline(on)
		text = c.ToString()
		want = append(want, "isOnline: "+strconv.FormatBool(on))
	case 1:
		c := embertree.NewParameterContents().(*pc)
		set(func(s string) { c.SetIdentifier(s) }, func(s string) { c.SetDescription(s) })
		switch vp.Choose("value", 5) {
		case 0:
			c.GetValueObject().SetInt(-98765)
			want = append(want, "-98765")
		case 1:
			c.GetValueObject().SetString("text of value")
			want = append(want, "text of value")
		case 2:
			c.GetValueObject().SetBool(true)
			want = append(want, "true")
		case 3:
			c.GetValueObject().SetReal(2.5)
			want = append(want, "2.5")
		case 4:
			c.GetValueObject().SetRelativeOID(asn1.RelativeOID{7, 300, 1})
			want = append(want, "7.300.1")
		}
		c.GetMinimumObject().SetInt(-44)
		c.GetMaximumObject().SetInt(55)
		c.SetFactor(66)
		c.SetFormat("fmt%dx")
		text = c.ToString()
		want = append(want, "-44", "55", "66", "fmt%dx")
		vp.Assert(!strings.Contains(text, "enumeration"), "nothing that is not set")
	case 2:
		t, m := vp.Choose("type", 3), vp.Choose("mode", 2)
		c, err := embertree.NewMatrixContent(embertree.MatrixType(t), embertree.MatrixMode(m))
		ok(err, "matrix")
		set(func(s string) { c.SetIdentifier(s) }, func(s string) { c.SetDescription(s) })
		text = c.ToString()
		want = append(want, []string{"OneToN", "OneToOne", "NToN"}[t], []string{"mode: Linear", "mode: Non-Linear"}[m])
	case 3:
		c := embertree.NewFunctionContents().(*embertree.FunctionContents)
		set(func(s string) { c.SetIdentifier(s) }, func(s string) { c.SetDescription(s) })
		text = c.ToString()
	}
	mentions(text, want...)
	vp.Assert(strings.Contains(text, "An id, 100%d") == hasID, "identifier")
	vp.Assert(strings.Contains(text, "A {description}") == hasDesc, "description")
	vp.Assert(!strings.Contains(text, "%!"), "text is well formed")
}

// C34_parameter : a parameter with all, one or all but one of its twelve textual fields set: the text has exactly those.
func C34_parameter() {
	c := embertree.NewParameterContents().(*pc)
	vals := []string{"an id", "a desc", "-11", "-22", "33", "44", "acc", "fmt%d", "enu|mer", "55", "66", "true", "typ", "77"}
	names := []string{"identifier", "description", "value", "minimum", "maximum", "default", "access", "format", "enumeration", "factor", "step", "isonline", "type", "streamIdentifier"}
	set := []func(){
		func() { c.SetIdentifier(vals[0]) }, func() { c.SetDescription(vals[1]) },
		func() { c.GetValueObject().SetInt(-11) }, func() { c.GetMinimumObject().SetInt(-22) },
		func() { c.GetMaximumObject().SetInt(33) }, func() { c.GetDefaultObject().SetInt(44) },
		func() { c.SetAccess(vals[6]) }, func() { c.SetFormat(vals[7]) }, func() { c.SetEnumeration(vals[8]) },
		func() { c.SetFactor(55) }, func() { c.SetStep(66) }, func() { c.SetOnline(true) }, func() { c.SetType(vals[12]) },
		func() { c.SetStreanIdentifier(77) },
	}
	mode, which := vp.Choose("mode", 3), vp.Choose("which", len(set))
	has := make([]bool, len(set))
	for i := range set {
		has[i] = mode == 0 || (mode == 1) == (i == which)
		if has[i] {
			set[i]()
		}
	}
	text := c.ToString()
	for i, n := range names {
		want := n + ": " + vals[i]
		vp.Assert(strings.Contains(text, want) == has[i] && strings.Contains(text, n+":") == has[i], "field in the text exactly when set")
	}
	vp.Assert(!strings.Contains(text, "%!"), "text is well formed")
}

// C34_path : paths of 0..5 arcs of nine values (0 to the largest int32): joined by dots.
func C34_path() {
	vals := []int32{0, 1, 9, 10, 127, 128, 65536, 1000000000, 0x7fffffff}
	var p asn1.RelativeOID
	var s []string
	n := vp.Choose("n", 6)
	off := vp.Choose("off", len(vals))
	step := 1 + vp.Choose("step", 3)
	for i := 0; i < n; i++ {
		v := vals[(off+i*step)%len(vals)]
		p = append(p, v)
		s = append(s, strconv.Itoa(int(v)))
	}
	vp.Assert(embertree.Path2String(p) == strings.Join(s, "."), "dotted path")
}

// C34_decoded : the 20 messages of C19 with arbitrary contents, decoded into a tree: the text of the tree, its elements and contents can be made and changes nothing.
func C34_decoded() {
	tree := embertree.NewTree()
	t := baseTree(tree)
	us := update(vp.Choose("m", updates))
	decodeInto(tree, message(0, us), "message")
	t.receive(us)
	tree.ToString()
	for _, e := range tree.RootElementCollection {
		e.ToString()
	}
	checkRoot(tree, t.roots, "tree unchanged")
}

// C34_window : elements decoded from messages with any two adjacent bytes changed (no lengths of several bytes): their text can be made.
func C34_window() {
	f := forms(vp.Choose("form", 2))
	x := formVals{"s", 5, true, asn1.RelativeOID{1, 2}}
	b, _ := formMessage(vp.Choose("message", formMessages), func() forms { return f }, x)
	at := vp.Choose("at", len(b)-1)
	b = append([]byte(nil), b...)
	w := vp.Bytes("w", 2)
	for _, x := range w { // no lengths of several bytes
		vp.Assume(vp.Or(x <= 0x80, x >= 0xa0))
	}
	copy(b[at:], w)
	tree := embertree.NewTree()
	if tree.Decode(asn1.NewASNReader(b)) == nil {
		tree.ToString()
	}
}

// C34_loggers : any logger attached to a tree and its elements (or refused, being nil): messages are received, listeners called and requests made as without.
func C34_loggers() {
	tree := embertree.NewTree()
	t := baseTree(tree)
	l := anyLogger()
	tree.SetLogger(l)
	tree.GetElementByNumber(1).SetLogger(l)
	for _, k := range tree.GetElementByNumber(1).Children {
		k.SetLogger(l)
	}
	p := &probe{}
	tree.GetElementByNumber(1).AddListener(p)
	us := update(vp.Choose("m", updates))
	decodeInto(tree, message(0, us), "message")
	want := t.hits[t.roots[0]]
	t.receive(us)
	checkRoot(tree, t.roots, "tree received")
	vp.Assert(p.n == t.hits[t.roots[0]]-want, "notifications")
	tree.GetElementByNumber(1).RemoveListener(p)
	sameBER(enc(tree.GetElementByNumber(1).GetQualifiedDirectoryMsg(nil), "request"), qreq(mNode, oid{1}), "request")
}

// C34_decoder : any logger attached to an S101 decoder: the same messages, keep-alives and errors.
func C34_decoder() {
	var s sink
	d := s.decoder()
	d.SetLogger(anyLogger())
	m := vp.Bytes("m", vp.Choose("n", 3))
	bad := s101(ember(0xc0, 1, 2, 3)...)
	bad[6] ^= 0x11
	stream := join(s101(ember(0xc0, m...)...), s101(kal(1)...), bad, s101(0, 5, 5), s101(ember(0x80, 8)...), s101(ember(0x40, 9)...))
	feed(d, stream)
	s.want(m, []byte{8, 9})
	vp.Assert(s.req == 1 && s.res == 0 && s.errs == 2, "events")
}

// C34_client : any logger attached to a client: keep-alives, requests, a malformed message, an update, time outs and a whole tree work as without.
func C34_client() {
	c, p := newClient()
	vp.Delays(0)
	c.SetLogger(anyLogger())
	dial(c)
	s := &provider{p: p, roots: shape(vp.Choose("shape", 6)), f: 0}
	l := &listen{}
	ok(c.GetTree(l), "GetTree")
	total := size(s.roots) + 1
	p.Send(s101(kal(1)...))
	for i := 0; i < 4*total+6; i++ {
		vp.Sleep(60)
		s.serve()
	}
	vp.Assert(len(s.asked) == total, "every element requested once")
	vp.Assert(l.n == 1 && l.err == nil, "listener called exactly once")
	tree, is := l.from.(*embertree.RootElement)
	vp.Assert(is, "listener gets the tree")
	checkRoot(tree, s.roots, "tree received")
	p.Send(packet([]byte{0x60, 3, 1, 2}))
	vp.Sleep(150)
	vp.Assert(c.IsConnected(), "connected")
	_, kals := sent(p)
	vp.Assert(kals == 1, "keep-alive answered")
	c.SetTimeout(100)
	lt := &listen{}
	ok(c.GetDirectory(nil, lt), "request")
	vp.Sleep(600)
	vp.Assert(lt.n == 1 && lt.timeouts == 1, "time out")
	p.Close(true)
	vp.Sleep(200)
	vp.Assert(!c.IsConnected(), "disconnected")
}
