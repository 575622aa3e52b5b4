exec(open("/verif/tools/bugs1.py").read().split("B = [")[0])
TT = T + '''
func enc(t *testing.T, e interface{ Encode(*asn1.ASNWriter) errors.Error }) []byte { w := asn1.NewASNWriter(); if err := e.Encode(w); err != nil { t.Fatal(err.Message) }; return out(w) }
'''
TT = TT.replace('import ("testing";', 'import ("testing"; "github.com/dufourgilles/emberlib/errors";')
NET = 'package socket\nimport ("testing"; "net"; "time"; "sync"; "bytes"; "github.com/dufourgilles/emberlib/errors"; "github.com/dufourgilles/emberlib/asn1"; "github.com/dufourgilles/emberlib/embertree")\nvar _ = bytes.NewReader\nvar _ sync.Mutex\nvar _ = asn1.NewASNReader\nvar _ = embertree.NewTree\nvar _ = time.Now\n' + '''
type fn func(interface{}, errors.Error)
type lis struct { f fn }
func (l *lis) Receive(n interface{}, e errors.Error) { l.f(n, e) }
func server(t *testing.T) (*S101Client, net.Conn) {
	l, e := net.Listen("tcp", "127.0.0.1:0"); if e != nil { t.Fatal(e) }
	defer l.Close()
	c := NewS101Client()
	if e := c.Connect("127.0.0.1", uint16(l.Addr().(*net.TCPAddr).Port)); e != nil { t.Fatal(e.Message) }
	p, e := l.Accept(); if e != nil { t.Fatal(e) }
	return c, p
}
func msg(t *testing.T, r *embertree.RootElement) []byte {
	w := asn1.NewASNWriter(); if e := r.Encode(w); e != nil { t.Fatal(e.Message) }
	b := make([]byte, w.Len()); w.Read(b)
	f := EncodeMessage(b); var all []byte
	for i := 0; i < f.Size(); i++ { x, _ := f.GetBytesAt(i); all = append(all, x...) }
	return all
}
'''
B = [
dict(id="c01-int32-sign4", prop="C01", pkg="asn1",
 edits=[("asn1/decode.go", '''	val := int(0)
	b, err = a.ReadByte()
	if err != nil {
		return 0, errors.Update(err)
	}
	if b&0x80 > 0 {''', '''	val := int(0)
	b, err = a.ReadByte()
	if err != nil {
		return 0, errors.Update(err)
	}
	if b&0x80 > 0 && l < 4 {''')],
 demo=A+'''func TestDemo(t *testing.T) { r, e := NewASNReader([]byte{2,4,0x80,0,0,0}).ReadInt(); if e != nil || r != -2147483648 { t.Fatal(r) } }''',
 needs="a negative number that takes four bytes", what="ReadInt returns a large positive number"),
dict(id="c01-int32-len5", prop="C01", pkg="asn1",
 edits=[("asn1/decode.go", "	if l > 4 {\n		return 0, errors.New(\"Integer length", "	if l > 5 {\n		return 0, errors.New(\"Integer length")],
 demo=A+'''func TestDemo(t *testing.T) { r, e := NewASNReader([]byte{2,5,0x7f,0,0,0,1}).ReadInt(); if e == nil && int(int32(r)) != r { t.Fatal(r) } }''',
 needs="an integer of five content bytes", what="an integer beyond 32 bits is returned by ReadInt"),
dict(id="c02-length-lenB", prop="C02", pkg="asn1",
 edits=[("asn1/decode.go", "} else if lenB > 4 {", "} else if lenB >= 4 {")],
 demo=A+'''func TestDemo(t *testing.T) { r, e := NewASNReader([]byte{12,0x84,0,0,0,1,'a'}).ReadString(); if e != nil || r != "a" { t.Fatal(r) } }''',
 needs="a length written in four bytes", what="four byte lengths are refused, though the writer produces them"),
dict(id="c02-length-signed", prop="C02", pkg="asn1",
 edits=[("asn1/decode.go", "len = len<<8 + int(val)", "len = len<<8 | int(int8(val))")],
 demo=A+'''func TestDemo(t *testing.T) { w := NewASNWriter(); s := make([]byte, 400); w.WriteBuffer(s, 3); r, e := NewASNReader(out(w)).ReadBitString(); if e != nil || len(r) != 400 { t.Fatal(len(r)) } }''',
 needs="a length with a low byte of 0x80 or more", what="sign extension corrupts the length"),
dict(id="c03-enum-tag", prop="C03", pkg="asn1",
 edits=[("asn1/encode.go", "	return asn.WriteIntTag(i, EMBER_ENUMERATED)", "	return asn.WriteIntTag(i&0xFFFF, EMBER_ENUMERATED)")],
 demo=A+'''func TestDemo(t *testing.T) { w := NewASNWriter(); w.WriteEnum(-2); if b := out(w); !bytes.Equal(b, []byte{10,1,0xfe}) { t.Fatal(b) } }''',
 needs="a negative or large enumerated value", what="enumerated values are cut to 16 bits"),
dict(id="c04-arc-msb", prop="C04", pkg="asn1",
 edits=[("asn1/encode.go", "			val = val >> 7\n", "			val = val >> 7 & 0x1FFFFF\n")],
 demo=A+'''func TestDemo(t *testing.T) { w := NewASNWriter(); w.WriteRelativeOID(RelativeOID{0x7fffffff}); r, e := NewASNReader(out(w)).ReadOID(13); if e != nil || len(r) != 1 || r[0] != 0x7fffffff { t.Fatal(r) } }''',
 needs="an arc above 2^28", what="the top bits of the arc are lost"),
dict(id="c05-exp-shorten", prop="C05", pkg="asn1",
 edits=[("asn1/encode.go", "for ((value&0xff800000) == 0 || (value&0xff800000) == 0xff800000) && (size > 1) {", "for ((value&0xff000000) == 0 || (value&0xff800000) == 0xff800000) && (size > 1) {")],
 demo=A+'''func TestDemo(t *testing.T) { w := NewASNWriter(); v := math.Ldexp(1, 200); w.WriteReal(v); r, e := NewASNReader(out(w)).ReadReal(); if e != nil || r != v { t.Fatal(r) } }''',
 needs="an exponent between 128 and 255", what="the exponent is written in one byte and reads back negative"),
dict(id="c06-bits-class", prop="C06", pkg="asn1",
 edits=[("asn1/decode.go", "	if tag != EMBER_BITSTRING {", "	if tag&0x1f != EMBER_BITSTRING {")],
 demo=A+'''func TestDemo(t *testing.T) { _, e := NewASNReader([]byte{0xa3,1,0}).ReadBitString(); if e == nil { t.Fatal() } }''',
 needs="a context or application tag with number 3", what="a container is read as a bit string"),
dict(id="c06-real-exponent-cut", prop="C06", pkg="asn1",
 edits=[("asn1/decode.go", "if len(buf)-pos < int(exponentLength) {", "if len(buf) < int(exponentLength) {")],
 demo=A+'''func TestDemo(t *testing.T) { defer func() { if recover() != nil { t.Fatal("panic") } }(); NewASNReader([]byte{9,2,0x81,1}).ReadReal() }''',
 needs="a real whose exponent is one byte short of its declared length", what="ReadReal panics with an index out of range"),
dict(id="c07-zero-length", prop="C07", pkg="asn1",
 edits=[("asn1/decode.go", "	if length >= 0 {\n		newReader", "	if length > 0 {\n		newReader")],
 demo=A+'''func TestDemo(t *testing.T) { r := NewASNReader([]byte{0x60,0,2,1,7}); l, s, e := r.ReadSequenceStart(0x60); if e != nil || l != 0 || s.Len() != 0 { t.Fatal(l, s.Len()) } }''',
 needs="a container of length zero", what="the reader of an empty container sees the bytes behind it"),
dict(id="c09-setreal-type", prop="C09", pkg="embertree",
 edits=[("embertree/content_parameter.go", '''		b, err := val.GetRelativeOID()
		if err != nil {
			return err
		}
		cp.SetRelativeOID(b)
		break
	}
	return nil''', '''		b, err := val.GetRelativeOID()
		if err != nil {
			return err
		}
		cp.SetRelativeOID(b)
		break
	}
	cp.isSet = val.boolVal || val.isSet && (val.valueType != ValueTypeInteger || val.intVal >= 0)
	return nil''')],
 demo=TT+'''func TestDemo(t *testing.T) { cp, v := NewContentParameter(), NewContentParameter(); v.SetInt(-3); cp.Set(v); if i, e := cp.GetInt(); e != nil || i != -3 { t.Fatal(i) } }
var _ errors.Error''',
 needs="a negative integer assigned from another parameter", what="the value is reported as not set"),
dict(id="c10-root-online", prop="C10", pkg="embertree",
 edits=[("embertree/node.go", "nc.isRoot.Encode(2, writer)", "nc.isRoot.Encode(3, writer)"), ("embertree/node.go", "nc.isOnline.Encode(3, writer)", "nc.isOnline.Encode(2, writer)"),
  ("embertree/node.go", '''		case asn1.Context(2):
			{
				nc.isRoot.Set(value)''', '''		case asn1.Context(3):
			{
				nc.isRoot.Set(value)'''), ("embertree/node.go", '''		case asn1.Context(3):
			{
				nc.isOnline.Set(value)''', '''		case asn1.Context(2):
			{
				nc.isOnline.Set(value)''')],
 demo=TT+'''func TestDemo(t *testing.T) { n := &NodeContents{}; n.SetIsRoot(true); b := enc(t, n); if !bytes.Contains(b, []byte{0xa2,0x80,1,1,0xff}) { t.Fatal(b) } }''',
 needs="a peer that follows the protocol (isRoot or isOnline set): encoder and decoder agree with each other", what="isRoot and isOnline are exchanged on the wire"),
dict(id="c10-template-empty", prop="C10", pkg="embertree",
 edits=[("embertree/node.go", '''				nc.schemaIdentifiers.Set(value)
				break''', '''				if s, _ := value.GetString(); s != "" {
					nc.schemaIdentifiers.Set(value)
				}
				break''')],
 demo=TT+'''func TestDemo(t *testing.T) { n := &NodeContents{}; n.SetSchemaIdentifiers(""); b := enc(t, n); m := &NodeContents{}; if e := m.Decode(asn1.NewASNReader(b)); e != nil { t.Fatal() }; if _, e := m.GetSchemaIdentifiers(); e != nil { t.Fatal("lost") } }''',
 needs="a schema identifier set to the empty string", what="the empty schema identifier is lost"),
dict(id="c11-min-max", prop="C11", pkg="embertree",
 edits=[("embertree/parameter.go", '''	minimumCtx           = iota
	maximumCtx           = iota
''', '''	maximumCtx           = iota
	minimumCtx           = iota
''')],
 demo=TT+'''func TestDemo(t *testing.T) { p := &ParameterContents{}; p.GetMinimumObject().SetInt(7); b := enc(t, p); if !bytes.Contains(b, []byte{0xa3,0x80,2,1,7}) { t.Fatal(b) } }''',
 needs="a minimum or maximum exchanged with a peer that follows the protocol", what="minimum and maximum are exchanged on the wire"),
dict(id="c11-schema-refused", prop="C11", pkg="embertree",
 edits=[("embertree/parameter.go", "		if index < 18 {", "		if index < 17 {")],
 demo=TT+'''func TestDemo(t *testing.T) { p := &ParameterContents{}; if e := p.Decode(asn1.NewASNReader([]byte{0x31,0x80,0xb1,0x80,12,1,'s',0,0,0,0})); e != nil { t.Fatal(e.Message) } }
var _ errors.Error''',
 needs="a parameter with schema identifiers", what="the parameter is refused"),
dict(id="c11-template-ctx", prop="C11", pkg="embertree",
 edits=[("embertree/parameter.go", "writer.StartSequence(asn1.Context(18))", "writer.StartSequence(asn1.Context(19))"), ("embertree/parameter.go", "} else if index == 18 {", "} else if index == 18 || index == 19 {")],
 demo=TT+'''func TestDemo(t *testing.T) { p := &ParameterContents{}; if e := p.Decode(asn1.NewASNReader([]byte{0x31,0x80,0xb2,0x80,13,1,5,0,0,0,0})); e != nil { t.Fatal(e.Message) }; b := enc(t, p); if !bytes.Equal(b, []byte{0x31,0x80,0xb2,0x80,13,1,5,0,0,0,0}) { t.Fatal(b) } }''',
 needs="a parameter with a template reference, re-encoded for a peer", what="the reference is written under an unknown member, and unknown members are accepted"),
dict(id="c12-schema-lost", prop="C12", pkg="embertree",
 edits=[("embertree/matrix.go", '''			err = c.schemaIdentifier.Set(value)
			if err != nil {''', '''			err = c.schemaIdentifier.Set(value)
			if len(c.labels) > 0 {
				c.labels = c.labels[:1]
			}
			if err != nil {''')],
 demo=TT+'''func TestDemo(t *testing.T) { c, _ := NewMatrixContent(OneToN, Linear); c.labels = []*Label{NewLabel(asn1.RelativeOID{1}, "a"), NewLabel(asn1.RelativeOID{2}, "b")}; c.SetSchemaIdentifier("s"); b := enc(t, c); d, _ := NewMatrixContent(OneToN, Linear); if e := d.Decode(asn1.NewASNReader(b)); e != nil { t.Fatal() }; if len(d.labels) != 2 { t.Fatal(len(d.labels)) } }''',
 needs="a matrix with two labels and a schema identifier", what="all labels but the first are lost"),
dict(id="c12-signals-first", prop="C12", pkg="embertree",
 edits=[("embertree/matrix_element.go", '''	element.sources = signals
	return nil''', '''	element.sources = signals
	if len(element.connections) > len(signals) {
		element.connections = element.connections[:len(signals)]
	}
	return nil''')],
 demo=TT+'''func TestDemo(t *testing.T) { m, _ := NewMatrix(1, NToN, Linear); m.connections = []*Connection{{Target: 1}, {Target: 2}}
 w := asn1.NewASNWriter(); m.EncodeSources(w); b := out(w); x, _ := NewMatrix(1, NToN, Linear); x.connections = m.connections; x.DecodeSources(asn1.NewASNReader(b)); if len(x.connections) != 2 { t.Fatal(len(x.connections)) } }
var _ errors.Error''',
 needs="connections before the sources, fewer sources than connections", what="connections are dropped when the sources follow"),
dict(id="c13-invocation-id", prop="C13", pkg="embertree",
 edits=[("embertree/invocation.go", "			i.invocationID = id\n", "			i.invocationID = int(uint16(id))\n")],
 demo=TT+'''func TestDemo(t *testing.T) { b := enc(t, NewInvocation(70000, nil)); var i Invocation; i.Decode(asn1.NewASNReader(b)); if i.invocationID != 70000 { t.Fatal(i.invocationID) } }''',
 needs="an invocation identifier above 65535 or negative", what="the identifier is truncated"),
dict(id="c13-result-shares", prop="C13", pkg="embertree",
 edits=[("embertree/function.go", '''	if len(fc.result) > 0 {''', '''	if len(fc.result) > 0 && (len(fc.arguments) > 0 || !fc.description.IsSet()) {''')],
 demo=TT+'''func TestDemo(t *testing.T) { f := &FunctionContents{}; f.SetDescription("d"); f.SetResult([]*TupleDescription{NewArgument(1, "r")}); b := enc(t, f); var g FunctionContents; g.Decode(asn1.NewASNReader(b)); if len(g.GetResult()) != 1 { t.Fatal() } }''',
 needs="a function with a description and results but no arguments", what="the results are not written"),
dict(id="c14-one-source", prop="C14", pkg="embertree",
 edits=[("embertree/connection.go", "	if len(c.Sources) > 0 {", "	if len(c.Sources) > 0 && c.Sources[0] >= 0 && !(len(c.Sources) == 1 && c.Sources[0] == 0) {")],
 demo=TT+'''func TestDemo(t *testing.T) { c := (&Connection{Target: 4}); c.Sources = asn1.RelativeOID{0}; b := enc(t, c); var d Connection; d.Decode(asn1.NewASNReader(b)); if len(d.Sources) != 1 { t.Fatal() } }''',
 needs="a connection whose only source is number 0", what="the source is not written"),
dict(id="c14-op-disp-wire", prop="C14", pkg="embertree",
 edits=[("embertree/connection.go", "	//Operation\n	err = writer.StartSequence(asn1.Context(2))", "	//Operation\n	err = writer.StartSequence(asn1.Context(3))"), ("embertree/connection.go", "	//disposition\n	err = writer.StartSequence(asn1.Context(3))", "	//disposition\n	err = writer.StartSequence(asn1.Context(2))"),
  ("embertree/connection.go", "		case asn1.Context(2):\n			operation", "		case asn1.Context(3):\n			operation"), ("embertree/connection.go", "		case asn1.Context(3):\n			disposition", "		case asn1.Context(2):\n			disposition")],
 demo=TT+'''func TestDemo(t *testing.T) { c := (&Connection{Target: 4}); c.SetOperation(2); b := enc(t, c); if !bytes.Contains(b, []byte{0xa2,0x80,2,1,2}) { t.Fatal(b) } }''',
 needs="a peer that follows the protocol; encoder and decoder agree with each other", what="operation and disposition are exchanged on the wire"),
dict(id="c14-target-16bit", prop="C14", pkg="embertree",
 edits=[("embertree/connection.go", "	c.Target = int32(target)", "	c.Target = int32(uint16(target))")],
 demo=TT+'''func TestDemo(t *testing.T) { c := (&Connection{Target: 70000}); b := enc(t, c); var d Connection; d.Decode(asn1.NewASNReader(b)); if d.Target != 70000 { t.Fatal(d.Target) } }''',
 needs="a target number above 65535", what="the target is truncated"),
dict(id="c15-function-qualified", prop="C15", pkg="embertree",
 edits=[("embertree/qualified_element.go", "var QualifiedFunctionApplication = asn1.Application(20)", "var QualifiedFunctionApplication = asn1.Application(23)")],
 demo=TT+'''func TestDemo(t *testing.T) { e := NewQualifiedElement(QualifiedFunctionApplication, asn1.RelativeOID{1,2}, NewFunctionContents); b := enc(t, e); if b[0] != 0x74 { t.Fatal(b) } }''',
 needs="a qualified function exchanged with a peer that follows the protocol", what="qualified functions use a wrong tag, consistently"),
dict(id="c15-sibling-skip", prop="C15", pkg="embertree",
 edits=[("embertree/elementFactory.go", "		element.AddChild(child)\n	}\n	return ctxtReader", "		if element.Children[child.Number] == nil || child.contents != nil || len(child.Children) == 0 {\n			element.AddChild(child)\n		}\n		if child.Number < 0 {\n			break\n		}\n	}\n	return ctxtReader")],
 demo=TT+'''func TestDemo(t *testing.T) { for i := 0; i < 20; i++ { p := NewNode(1); p.AddChild(NewNode(-1)); p.AddChild(NewNode(2)); b := enc(t, p); q, e := DecodeElement(asn1.NewASNReader(b)); if e != nil || len(q.Children) != 2 { t.Fatal(e) } } }''',
 needs="a negative element number followed by a sibling", what="siblings written after a negative number are lost or refused"),
dict(id="c16-label-end", prop="C16", pkg="embertree",
 edits=[("embertree/matrix.go", '''		labels = append(labels, label)
		err = ctxtReader.ReadSequenceEnd()''', '''		labels = append(labels, label)
		err = seqReader.ReadSequenceEnd()''')],
 demo=TT+'''func TestDemo(t *testing.T) { c, _ := NewMatrixContent(OneToN, Linear); b := []byte{0xaa,0x80,0x30,0x80, 0xa0,15,0x72,0x80,0xa0,0x80,13,1,1,0,0,0xa1,0x80,12,0,0,0, 0,0, 0,0,0,0}; l := []byte{0x72,0x80,0xa0,0x80,13,1,1,0,0,0xa1,0x80,12,0,0,0,0,0}; b = append(append([]byte{0xaa,0x80,0x30,0x80,0xa0,byte(len(l))}, l...), 0xa0, byte(len(l))); b = append(append(b, l...), 0,0,0,0); if e := c.DecodeLabels(asn1.NewASNReader(b)); e != nil { t.Fatal(e.Message) }; if len(c.labels) != 2 { t.Fatal(len(c.labels)) } }
var _ errors.Error''',
 needs="matrix labels in definite containers, two of them", what="labels in definite form are refused"),
dict(id="c16-signal-end", prop="C16", pkg="embertree",
 edits=[("embertree/signal.go", '''	err = ctxtReader.ReadSequenceEnd()
	if err != nil {
		return errors.Update(err)
	}
	return signalReader.ReadSequenceEnd()''', '''	err = signalReader.ReadSequenceEnd()
	if err != nil {
		return errors.Update(err)
	}
	return signalReader.ReadSequenceEnd()''')],
 demo=TT+'''func TestDemo(t *testing.T) { s, e := DecodeSignal(asn1.NewASNReader([]byte{0x6e,7,0xa0,0x80,2,1,5,0,0})); if e != nil || s.(*Target).Number != 5 { t.Fatal() }; s, e = DecodeSignal(asn1.NewASNReader([]byte{0x6e,0x80,0xa0,3,2,1,5,0,0})); if e != nil || s.(*Target).Number != 5 { t.Fatal("mixed") }; r := asn1.NewASNReader([]byte{0x6e,0x80,0xa0,3,2,1,5,0,0,2,1,9}); _, e = DecodeSignal(r); if v, e2 := r.ReadInt(); e != nil || e2 != nil || v != 9 { t.Fatal("mixed") } }
var _ errors.Error''',
 needs="a definite number inside an indefinite signal", what="the signal is refused, or swallows the following end marker"),
dict(id="c16-invocation-arg", prop="C16", pkg="embertree",
 edits=[("embertree/content_parameter.go", "	if pcLength == 0 {", "	if pcLength == 0 || pcLength > 126 {")],
 demo=TT+'''func TestDemo(t *testing.T) { s := bytes.Repeat([]byte{'x'}, 125); b := append([]byte{0xa0, 127, 12, 125}, s...); v, e := DecodeValue(asn1.NewASNReader(b), 0); if e != nil { t.Fatal() }; if x, _ := v.GetString(); len(x) != 125 { t.Fatal(len(x)) } }
var _ errors.Error''',
 needs="a definite value container longer than 126 bytes", what="the value reads as unset"),
dict(id="c18-operation-max", prop="C18", pkg="embertree",
 edits=[("embertree/connection.go", "if d < int(Absolute) || d > int(Disconnect) {", "if d < int(Absolute) || d > int(Disconnect)+int(Absolute)+1 {")],
 demo=TT+'''func TestDemo(t *testing.T) { c := (&Connection{Target: 1}); if e := c.SetOperation(3); e == nil { t.Fatal() } }
var _ errors.Error''',
 needs="the operation 3", what="an operation outside the enumeration is accepted"),
dict(id="c18-type-negative", prop="C18", pkg="embertree",
 edits=[("embertree/matrix.go", "if mtype < OneToN || mtype > NToN {", "if uint8(mtype)&0x7F > uint8(NToN) {")],
 demo=TT+'''func TestDemo(t *testing.T) { if e := ValidateMatrixType(-128); e == nil { t.Fatal() }; if e := ValidateMatrixType(-127); e == nil { t.Fatal() } }
var _ errors.Error''',
 needs="the matrix types -128 to -126", what="negative matrix types are accepted"),
dict(id="c19-leaf-replaced", prop="C19", pkg="embertree",
 edits=[("embertree/element.go", '''		child := element.Children[number]
		if child == nil {''', '''		child := element.Children[number]
		if child == nil || (child.contents == nil && len(child.Children) == 0) {''')],
 demo=TT+'''func TestDemo(t *testing.T) { p := NewNode(1); c := NewNode(2); p.AddChild(c); q := NewNode(1); d := NewNode(2); d.CreateContent(); q.AddChild(d); p.Update(q); if p.Children[2] != c { t.Fatal() } }
var _ errors.Error''',
 needs="an update for a known element that has neither contents nor children yet", what="the element object is replaced: its listeners and references are lost"),
dict(id="c19-partial-apply", prop="C19", pkg="embertree",
 edits=[("embertree/element.go", '''		if err != nil {
			break
		}
	}
	element.updateListeners(err)''', '''		if err != nil {
			element.Children = newElement.Children
			break
		}
	}
	element.updateListeners(err)''')],
 demo=TT+'''func TestDemo(t *testing.T) { p := NewNode(1); c := NewNode(2); p.AddChild(c); q := NewNode(1); q.AddChild(NewParameter(2)); p.Update(q); if p.Children[2] != c { t.Fatal() } }
var _ errors.Error''',
 needs="an update with a child of another type", what="the known children are replaced by the refused ones"),
dict(id="c20-single-path", prop="C20", pkg="embertree",
 edits=[("embertree/root.go", "		parent = element\n		element = element.Children[int(path[pos])]", "		if len(element.Children) > 0 {\n			parent = element\n		}\n		element = element.Children[int(path[pos])]")],
 demo=TT+'''func TestDemo(t *testing.T) { r := NewTree(); a, b := NewNode(1), NewNode(2); a.AddChild(b); r.AddElement(a); p, e := r.GetElementByPath(asn1.RelativeOID{1,2,3}); if e != nil || p != b { t.Fatal(p) } }
var _ errors.Error''',
 needs="a qualified element below an element without children, at depth three", what="the element is attached to its grandparent"),
dict(id="c21-early-notify", prop="C21", pkg="embertree",
 edits=[("embertree/element.go", '''			err = child.Update(newChild)
		}''', '''			err = child.Update(newChild)
			if err == nil && len(newChild.Children) > 0 {
				element.updateListeners(nil)
			}
		}''')],
 demo=TT+'''type cnt struct { n int }
func (c *cnt) Receive(interface{}, errors.Error) { c.n++ }
func TestDemo(t *testing.T) { mk := func() *Element { a, b, c := NewNode(1), NewNode(2), NewNode(3); b.AddChild(c); a.AddChild(b); return a }; p := mk(); l := &cnt{}; p.AddListener(l); p.Update(mk()); if l.n != 1 { t.Fatal(l.n) } }''',
 needs="an update three levels deep", what="the listener is called more than once for one update"),
dict(id="c21-remove-all", prop="C21", pkg="embertree",
 edits=[("embertree/root.go", '''	for _, listener := range(root.getListeners()) {
		root.logger.Debug("Updating root listener.\\n")
		listener.Receive(root, nil)
	}''', '''	for _, listener := range(root.getListeners()) {
		root.logger.Debug("Updating root listener.\\n")
		if err == nil {
			listener.Receive(root, nil)
		}
		if len(modifiedElement) > 1 {
			break
		}
	}''')],
 demo=TT+'''type cnt struct { n int }
func (c *cnt) Receive(interface{}, errors.Error) { c.n++ }
func TestDemo(t *testing.T) { r := NewTree(); r.AddElement(NewNode(1)); r.AddElement(NewNode(2)); a, b := &cnt{}, &cnt{}; r.AddListener(a); r.AddListener(b); m := NewRoot(); x := NewQualifiedNode(asn1.RelativeOID{1,5}); y := NewQualifiedNode(asn1.RelativeOID{2,6}); m.RootElementCollection[1] = x; m.RootElementCollection[2] = y; if e := r.Decode(asn1.NewASNReader(enc(t, m))); e != nil { t.Fatal() }; if a.n != 1 || b.n != 1 { t.Fatal(a.n, b.n) } }''',
 needs="two root listeners and a message that adds elements below two different parents", what="only one of the root listeners is notified"),
dict(id="c22-qualified-short", prop="C22", pkg="embertree",
 edits=[("embertree/qualified_element.go", "	cmd := NewCommand(COMMAND_GETDIRECTORY)\n	dupElement.AddChild(cmd)", "	cmd := NewCommand(COMMAND_GETDIRECTORY)\n	if element.tag == ParameterApplication && len(element.Children) == 0 && len(path) > 2 {\n		cmd = NewCommand(COMMAND_SUBSCRIBE)\n	}\n	dupElement.AddChild(cmd)")],
 demo=TT+'''func TestDemo(t *testing.T) { a, b, c := NewNode(1), NewNode(2), NewParameter(3); a.AddChild(b); b.AddChild(c); m := c.GetQualifiedDirectoryMsg(nil); for _, e := range m.RootElementCollection { if e.Children[32] == nil { t.Fatal() } } }
var _ errors.Error''',
 needs="a parameter at depth three or more", what="the request subscribes instead of asking for the directory"),
dict(id="c23-third-first", prop="C23", pkg="socket",
 edits=[("socket/frame.go", "			if (frameList.numFrames >= 1) {", "			if (frameList.numFrames == 1) {")],
 demo=S+'''func TestDemo(t *testing.T) { var m [][]byte; d := make([]byte, 5000); for i := range d { d[i] = byte(i) & 0x7f }; e := enc(d); dec(&m).DecodeBuffer(len(e), e); if len(m) != 1 || !bytes.Equal(m[0], d) { t.Fatal(len(m)) } }''',
 needs="a message of four frames or more", what="the third frame is flagged as the first of a message"),
dict(id="c23-framelist-grow", prop="C23", pkg="socket",
 edits=[("socket/frame.go", "		for j:= 0; j < int(s.numFrames); j++ {", "		for j:= int(s.numFrames) & 4; j < int(s.numFrames); j++ {")],
 demo=S+'''func TestDemo(t *testing.T) { defer func() { if recover() != nil { t.Fatal("panic") } }(); var m [][]byte; d := make([]byte, 5000); e := enc(d); dec(&m).DecodeBuffer(len(e), e); if len(m) != 1 || !bytes.Equal(m[0], d) { t.Fatal(len(m)) } }''',
 needs="a message of five frames or more", what="the first frames are lost"),
dict(id="c24-hi-only", prop="C24", pkg="socket",
 edits=[("socket/frame.go", "	return CalculateCRC(buf) == 0xF0B8;", "	return CalculateCRC(buf) | 0x0400 == 0xF4B8;")],
 demo=S+'''func TestDemo(t *testing.T) { bad := 0; for i := 0; i < 65536; i++ { if ValidateFrame(bytes.NewReader([]byte{1, 2, byte(i), byte(i >> 8)})) { bad++ } }; if bad != 1 { t.Fatal(bad) } }''',
 needs="a damaged frame whose remainder differs in one particular bit", what="one of 16 checksum bits is not checked"),
dict(id="c26-first-reset", prop="C26", pkg="socket",
 edits=[("socket/frame.go", '''		decoder.logger.Debug("Ember Frame first multi packet.\\n")
		decoder.emberbuf.Reset()''', '''		decoder.logger.Debug("Ember Frame first multi packet.\\n")
		if emberFrame.Header.Flags & FLAG_LAST_MULTI_PACKET == 0 || decoder.emberbuf.Len() < 1024 {
			decoder.emberbuf.Reset()
		}''')],
 demo=S+'''func TestDemo(t *testing.T) { var m [][]byte; d := make([]byte, 3000); fl := EncodeMessage(d); f, _ := fl.GetBytesAt(0); dc := dec(&m); dc.DecodeBuffer(len(f), f); e := enc([]byte{1,2}); dc.DecodeBuffer(len(e), e); if len(m) != 1 || !bytes.Equal(m[0], []byte{1,2}) { t.Fatal(len(m)) } }''',
 needs="a long message cut off after its first packet, followed by a single packet message", what="the abandoned payload is prepended to the next message"),
dict(id="c27-resp-command", prop="C27", pkg="socket",
 edits=[("socket/frame.go", "	} else if command == CMD_KEEPALIVE_RESP {", "	} else if command == CMD_KEEPALIVE_RESP && decoder.inMessage {\n		return decoder.keepAliveReqHandler(buffer)\n	} else if command == CMD_KEEPALIVE_RESP {")],
 demo=S+'''func TestDemo(t *testing.T) { n := 0; nop := func([]byte) errors.Error { return nil }; d := NewS101Decoder(func([]byte) errors.Error { n++; return nil }, nop, nop, func(errors.Error) {}); fl := EncodeMessage(make([]byte, 3000)); f, _ := fl.GetBytesAt(0); d.DecodeBuffer(len(f), f); k := GetKeepAliveResponse().Bytes(); d.DecodeBuffer(len(k), k); if n != 0 { t.Fatal(n) } }''',
 needs="a keep-alive response between two packets of a message", what="the response is answered"),
dict(id="c29-lifo-burst", prop="C29", pkg="socket",
 edits=[("socket/client.go", "		qElement :=  p.queue.Front()", "		qElement :=  p.queue.Front()\n		if p.queue.Len() > 8 {\n			qElement = p.queue.Back()\n		}")],
 demo='package socket\nimport ("testing"; "github.com/dufourgilles/emberlib/embertree")\nfunc TestDemo(t *testing.T) { q := newPacketQueue(); var in []*embertree.RootElement; for i := 0; i < 10; i++ { r := embertree.NewRoot(); in = append(in, r); q.add(r) }; for i := range in { r, _ := q.getNext(); if r != in[i] { t.Fatal(i) } } }',
 needs="more than eight waiting requests", what="requests are sent out of order"),
dict(id="c29-drop-fourth", prop="C29", pkg="socket",
 edits=[("socket/client.go", "			root,_ := s.outQ.getNext()\n			if root != nil {", "			root,_ := s.outQ.getNext()\n			if count == 2 && s.outQ.isEmpty() {\n				continue\n			}\n			if root != nil {")],
 demo=NET+'''func TestDemo(t *testing.T) { c, p := server(t); for i := 0; i < 12; i++ { c.GetDirectory(nil, nil) }; n := 0; d := NewS101Decoder(nil, nil, func([]byte) errors.Error { n++; return nil }, func(errors.Error) {}); b := make([]byte, 4096); p.SetReadDeadline(time.Now().Add(2*time.Second)); for { l, e := p.Read(b); if l > 0 { d.DecodeBuffer(l, b) }; if e != nil || n == 12 { break } }; c.Disconnect(); p.Close(); if n != 12 { t.Fatal(n) } }''',
 needs="a burst of requests whose third in a round is the last of the queue", what="that request is dropped"),
dict(id="c30-unit", prop="C30", pkg="socket",
 edits=[("socket/client.go", "	if msTimeout >= 0 {\n		s.msTimeout = msTimeout", "	if msTimeout > 0 {\n		s.msTimeout = msTimeout")],
 demo=NET+'''func TestDemo(t *testing.T) { c := NewS101Client(); c.SetTimeout(20); c.SetTimeout(0); var mu sync.Mutex; n := 0; c.GetDirectory(nil, &lis{func(interface{}, errors.Error) { mu.Lock(); n++; mu.Unlock() }}); time.Sleep(150*time.Millisecond); mu.Lock(); defer mu.Unlock(); if n != 0 { t.Fatal(n) } }''',
 needs="a time-out that is switched off again", what="the old time-out stays in force"),
dict(id="c32-one-byte", prop="C32", pkg="socket",
 edits=[("socket/client.go", "			if len > 0 {\n				s.logger.Debug(\"iomanager received", "			if len > 1 || len == 1 && buffer[0] != S101_EOF {\n				s.logger.Debug(\"iomanager received")],
 demo=NET+'''func TestDemo(t *testing.T) { c, p := server(t); r := embertree.NewRoot(); r.AddElement(embertree.NewNode(3)); got := make(chan int, 1); c.GetDirectory(nil, &lis{func(interface{}, errors.Error) { select { case got <- 1: default: } }}); for _, b := range msg(t, r) { p.Write([]byte{b}); time.Sleep(5*time.Millisecond) }; select { case <-got: case <-time.After(2*time.Second): t.Fatal("lost") }; c.Disconnect(); p.Close() }''',
 needs="an end-of-frame byte that arrives alone in a TCP segment", what="the delimiter is dropped and with it the message"),
dict(id="c36-update-last", prop="C36", pkg="errors",
 edits=[("errors/errors.go", "	e.Stack = append(e.Stack, stack)\n", "	if len(e.Stack) < 16 {\n		e.Stack = append(e.Stack, stack)\n	}\n")],
 demo='package errors\nimport "testing"\nfunc TestDemo(t *testing.T) { e := New("x"); for i := 0; i < 20; i++ { e = Update(e) }; if len(e.Stack) != 21 { t.Fatal(len(e.Stack)) } }',
 needs="an error propagated more than 15 times (deep trees)", what="positions are no longer recorded"),
]
