H = 'package %s\nimport ("testing"; "bytes"; "github.com/dufourgilles/emberlib/asn1")\nvar _ = bytes.NewReader\nvar _ = asn1.NewASNReader\n'
A = 'package asn1\nimport ("testing"; "bytes"; "math")\nvar _ = bytes.NewReader\nvar _ = math.Inf\nfunc out(w *ASNWriter) []byte { b := make([]byte, w.Len()); w.Read(b); return b }\n'
T = H % 'embertree' + 'func out(w *asn1.ASNWriter) []byte { b := make([]byte, w.Len()); w.Read(b); return b }\n'
S = 'package socket\nimport ("testing"; "bytes"; "github.com/dufourgilles/emberlib/errors")\nvar _ = bytes.NewReader\n' + '''
func dec(msgs *[][]byte) *S101Decoder {
	nop := func([]byte) errors.Error { return nil }
	return NewS101Decoder(nop, nop, func(m []byte) errors.Error { *msgs = append(*msgs, append([]byte{}, m...)); return nil }, func(errors.Error) {})
}
func enc(data []byte) []byte {
	fl := EncodeMessage(data)
	var all []byte
	for i := 0; i < fl.Size(); i++ { b, _ := fl.GetBytesAt(i); all = append(all, b...) }
	return all
}
'''
B = [
dict(id="c01-int64-minus128", prop="C01", pkg="asn1",
 edits=[("asn1/encode.go", "for temp < -128 {", "for temp < -127 {")],
 demo=A+'''func TestDemo(t *testing.T) { w := NewASNWriter(); w.WriteInt64(-128); if b := out(w); !bytes.Equal(b, []byte{2,1,0x80}) { t.Fatal(b) } }''',
 needs="the single value -128 (or -32768... at no other place)", what="-128 is written with two content bytes, which is not the shortest form"),
dict(id="c01-int64-sign-late", prop="C01", pkg="asn1",
 edits=[("asn1/encode.go", "for temp > 127 {", "for temp > 128 {")],
 demo=A+'''func TestDemo(t *testing.T) { for _, v := range []int64{128, 32768} { w := NewASNWriter(); w.WriteInt64(v); r, e := NewASNReader(out(w)).ReadInt64(); if e != nil || r != v { t.Fatal(v, r) } } }''',
 needs="the value 128 exactly (128<<8k)", what="128 is written in one byte and reads back as -128"),
dict(id="c06-int64-partial", prop="C06", pkg="asn1",
 edits=[("asn1/decode.go", '''		val = (val << 8) | int64(b)
		if l > 0 {
			b, err = a.ReadByte()
			if err != nil {
				return 0, errors.Update(err)
			}
		}''', '''		val = (val << 8) | int64(b)
		if l > 0 {
			b, err = a.ReadByte()
			if err != nil && l > 1 {
				return 0, errors.Update(err)
			}
		}'''), ("asn1/decode.go", "	return val, err\n", "	return val, nil\n")],
 demo=A+'''func TestDemo(t *testing.T) { r, e := NewASNReader([]byte{2,6,1,2,3,4,5}).ReadInt64(); if e == nil { t.Fatal(r) };  r, e = NewASNReader([]byte{2,8,1,2,3,4}).ReadInt64(); if e == nil { t.Fatal(r) }; _, e = NewASNReader([]byte{2,5,1}).ReadInt64(); if e == nil { t.Fatal() }}''',
 needs="an integer whose last byte only is missing", what="the missing byte reads as zero"),
dict(id="c02-length-128", prop="C02", pkg="asn1",
 edits=[("asn1/encode.go", "if len <= 0x7f {", "if len <= 0x80 {")],
 demo=A+'''func TestDemo(t *testing.T) { w := NewASNWriter(); s := make([]byte, 128); for i := range s { s[i] = 'a' }; w.WriteString(string(s)); w.WriteInt(7); r, e := NewASNReader(out(w)).ReadString(); if e != nil || r != string(s) { t.Fatal(len(r)) } }''',
 needs="content of exactly 128 bytes", what="the length 128 is written as 0x80, the indefinite form"),
dict(id="c02-length-3byte", prop="C02", pkg="asn1",
 edits=[("asn1/encode.go", '''		err = asn.data.WriteByte(byte((len >> 16) & 0xFF))''', '''		err = asn.data.WriteByte(byte((len >> 16) & 0x7F))''')],
 demo=A+'''func TestDemo(t *testing.T) { w := NewASNWriter(); s := make([]byte, 0x800001); w.WriteBuffer(s, 4); if b := out(w); !bytes.Equal(b[:5], []byte{4,0x83,0x80,0,1}) { t.Fatal(b[:5]) } }''',
 needs="content of at least 8 MiB", what="top length bit lost"),
dict(id="c02-end-one-unread", prop="C02", pkg="asn1",
 edits=[("asn1/decode.go", '''	x1, err = a.data.ReadByte()
	if err != nil {
		return false, errors.New("Failed To read byte at offset %d. %s", a.TopOffset(), err)
	}
	if x1 != 0 {
		a.data.UnreadByte()
		a.data.UnreadByte()
		return false, nil
	}''', '''	x1, err = a.data.ReadByte()
	if err != nil {
		return false, errors.New("Failed To read byte at offset %d. %s", a.TopOffset(), err)
	}
	if x1 != 0 {
		a.data.UnreadByte()
		return false, nil
	}''')],
 demo=A+'''func TestDemo(t *testing.T) { r, e := NewASNReader([]byte{12,0x80,'a',0,'b',0,0}).ReadString(); if e != nil || r != "a\\x00b" { t.Fatalf("%q", r) } }''',
 needs="an indefinite string with a lone zero byte inside", what="the zero byte is lost: the string is shortened"),
dict(id="c03-bool-lsb", prop="C03", pkg="asn1",
 edits=[("asn1/decode.go", "	if b == 0 {\n		return false, nil", "	if b&0x01 == 0 {\n		return false, nil")],
 demo=A+'''func TestDemo(t *testing.T) { r, e := NewASNReader([]byte{1,1,2}).ReadBoolean(); if e != nil || !r { t.Fatal(r) } }''',
 needs="a true value written by a peer as a non-zero even byte", what="a true boolean reads as false"),
dict(id="c04-zero-arcs", prop="C04", pkg="asn1",
 edits=[("asn1/decode.go", "			oid = append(oid, value)\n", "			if value != 0 || i < 2 || buf[i-1] != 0 {\n				oid = append(oid, value)\n			}\n")],
 demo=A+'''func TestDemo(t *testing.T) { r, e := NewASNReader([]byte{13,3,1,0,0}).ReadOID(13); if e != nil || len(r) != 3 { t.Fatal(r) } }''',
 needs="two zero arcs in a row, not at the start", what="the second zero arc is dropped"),
dict(id="c05-exp-sign", prop="C05", pkg="asn1",
 edits=[("asn1/encode.go", "	significand := uint64(0x000FFFFFFFFFFFFF) & bits\n	exponent := int(((uint64(0x7FF0000000000000) & bits) >> 52)) - 1023", "	significand := uint64(0x000FFFFFFFFFFFFF) & bits\n	exponent := int(((uint64(0x7FE0000000000000) & bits) >> 52)) | int((bits>>52)&1)\n	exponent -= 1023\n	if exponent == -127 {\n		exponent = -128\n	}")],
 demo=A+'''func TestDemo(t *testing.T) { v := math.Ldexp(1.5, -127); w := NewASNWriter(); w.WriteReal(v); r, e := NewASNReader(out(w)).ReadReal(); if e != nil || r != v { t.Fatal(r) } }''',
 needs="numbers with binary exponent -127", what="they are written with exponent -128"),
dict(id="c07-offset-relative", prop="C07", pkg="asn1",
 edits=[("asn1/decode.go", "	newReader := NewASNReader(b)\n	newReader.startingOffset = offset", "	newReader := NewASNReader(b)\n	newReader.startingOffset = offset - a.startingOffset&^0x3")],
 demo=A+'''func TestDemo(t *testing.T) { r := NewASNReader([]byte{5,5,5,5,0x30,5,0x30,3,0x30,1,7}); for i := 0; i < 4; i++ { r.ReadByte() }; _, a, _ := r.ReadSequenceStart(0x30); _, b, _ := a.ReadSequenceStart(0x30); _, c, _ := b.ReadSequenceStart(0x30); if c.TopOffset() != 10 { t.Fatal(c.TopOffset()) } }''',
 needs="a container nested in one that starts at offset 4 or more", what="offsets are not absolute any more"),
dict(id="c07-empty-container", prop="C07", pkg="asn1",
 edits=[("asn1/decode.go", "	if length >= 0 {\n		newReader, err := a.NewReader(length)", "	if length > 0 {\n		newReader, err := a.NewReader(length)")],
 demo=A+'''func TestDemo(t *testing.T) { r := NewASNReader([]byte{0x30,0,2,1,5}); _, c, e := r.ReadSequenceStart(0x30); if e != nil || c.Len() != 0 { t.Fatal(c.Len()) } }''',
 needs="an empty container of definite length", what="the reader of an empty container is the parent's"),
dict(id="c08-length-8", prop="C08", pkg="asn1",
 edits=[("asn1/decode.go", "		} else if lenB > 4 {\n			return 0, errors.New(\"Length higher than 4", "		} else if lenB > 8 {\n			return 0, errors.New(\"Length higher than 4")],
 demo=A+'''func TestDemo(t *testing.T) { defer func() { if p := recover(); p != nil { t.Fatal(p) } }(); NewASNReader([]byte{0x30,0x87,0x7f,0xff,0xff,0xff,0xff,0xff,0xff,1}).ReadSequenceStart(0x30) }''',
 needs="a length header of 5 or more bytes", what="NewReader panics in makeslice"),
dict(id="c09-set-unset", prop="C09", pkg="embertree",
 edits=[("embertree/content_parameter.go", "	case ValueTypeReal:\n		b, err := val.GetReal()\n		if err != nil {\n			return err\n		}\n		cp.SetReal(b)", "	case ValueTypeReal:\n		b, err := val.GetReal()\n		if err != nil {\n			return err\n		}\n		if b != cp.realVal {\n			cp.SetReal(b)\n		}")],
 demo=T+'''func TestDemo(t *testing.T) { a, b := NewContentParameter(), NewContentParameter(); a.SetReal(0); b.Set(a); if v, e := b.GetReal(); e != nil || v != 0 { t.Fatal(v, e) } }''',
 needs="the real 0.0 assigned to an unset parameter", what="the parameter stays unset"),
dict(id="c09-getter-type", prop="C09", pkg="embertree",
 edits=[("embertree/content_parameter.go", "	} else if cp.valueType != ValueTypeBuffer {\n		err = errors.New(\"Type mismatch. Requested buffer but", "	} else if cp.valueType != ValueTypeBuffer && cp.bufferVal == nil {\n		err = errors.New(\"Type mismatch. Requested buffer but")],
 demo=T+'''func TestDemo(t *testing.T) { a := NewContentParameter(); a.SetBuffer([]byte{1}); a.SetInt(2); if _, e := a.GetBuffer(); e == nil { t.Fatal() } }''',
 needs="a buffer assigned and then another type", what="a stale buffer is returned without an error"),
dict(id="c10-node-online", prop="C10", pkg="embertree",
 edits=[("embertree/node.go", "	if nc.isOnline.IsSet() {\n		err = nc.isOnline.Encode(3, writer)", "	if nc.isOnline.IsSet() && !(nc.isRoot.IsSet() && !nc.isRoot.boolVal) {\n		err = nc.isOnline.Encode(3, writer)")],
 demo=T+'''func TestDemo(t *testing.T) { n := NewNodeContents().(*NodeContents); n.SetIsRoot(false); n.SetIsOnline(true); w := asn1.NewASNWriter(); n.Encode(w); m := NewNodeContents().(*NodeContents); m.Decode(asn1.NewASNReader(out(w))); if v, e := m.GetIsOnline(); e != nil || !v { t.Fatal(v, e) } }''',
 needs="isRoot set to false and isOnline set", what="isOnline is not written"),
dict(id="c11-param-enum-order", prop="C11", pkg="embertree",
 edits=[("embertree/parameter.go", "	for i, cp := range contents.table {\n		err = cp.Encode(uint8(i), writer)\n		if err != nil {", "	for i, cp := range contents.table {\n		if i == 17 && contents.templateReference != nil {\n			continue\n		}\n		err = cp.Encode(uint8(i), writer)\n		if err != nil {")],
 demo=T+'''func TestDemo(t *testing.T) { in := []byte{0x31,0x80,0xb1,0x80,12,1,'s',0,0,0xb2,0x80,13,1,4,0,0,0,0}; p := NewParameterContents().(*ParameterContents); if e := p.Decode(asn1.NewASNReader(in)); e != nil { t.Fatal(e) }; w := asn1.NewASNWriter(); p.Encode(w); if b := out(w); !bytes.Equal(b, in) { t.Fatal(b) } }''',
 needs="schema identifiers together with a template reference", what="the schema identifiers are lost when re-encoding"),
dict(id="c12-signal-number", prop="C12", pkg="embertree",
 edits=[("embertree/signal.go", "		source := s.(*Source)\n		source.Number = int32(number)", "		source := s.(*Source)\n		source.Number = int32(int16(number))")],
 demo=T+'''func TestDemo(t *testing.T) { w := asn1.NewASNWriter(); NewSource(40000).Encode(w); s, e := DecodeSignal(asn1.NewASNReader(out(w))); if e != nil || s.(*Source).Number != 40000 { t.Fatal(s) } }''',
 needs="a source number above 32767", what="source numbers are cut to 16 bits"),
dict(id="c12-mode-refused", prop="C12", pkg="embertree",
 edits=[("embertree/matrix.go", "	c.table[matrixModeCtx].SetInt(int64(mode))", "	if t, e := c.GetType(); e != nil || t != NToN || mode != NonLinear {\n		c.table[matrixModeCtx].SetInt(int64(mode))\n	}")],
 demo=T+'''func TestDemo(t *testing.T) { c, e := NewMatrixContent(NToN, NonLinear); if e != nil { t.Fatal(e) }; if m, e := c.GetMode(); e != nil || m != NonLinear { t.Fatal(m, e) } }''',
 needs="a matrix that is both NToN and NonLinear", what="the mode is dropped"),
dict(id="c13-invocation-args", prop="C13", pkg="embertree",
 edits=[("embertree/invocation.go", "	for {\n		end, err := invocationReader.CheckSequenceEnd()", "	for {\n		if i.invocationID < 0 {\n			break\n		}\n		end, err := invocationReader.CheckSequenceEnd()")],
 demo=T+'''func TestDemo(t *testing.T) { p := NewContentParameter(); p.SetInt(3); i := NewInvocation(-5, []*ContentParameter{p}); w := asn1.NewASNWriter(); i.Encode(w); j := NewInvocation(0, nil); e := j.Decode(asn1.NewASNReader(out(w))); if e != nil || len(j.arguments) != 1 { t.Fatal(e, j) } }''',
 needs="a negative invocation identifier", what="the arguments are not decoded"),
dict(id="c13-result-name", prop="C13", pkg="embertree",
 edits=[("embertree/function.go", "			t, err := ctxtReader.ReadInt()\n			if err != nil {\n				return errors.Update(err)\n			}\n			tuple.Type = ParameterType(t)", "			t, err := ctxtReader.ReadInt()\n			if err != nil {\n				return errors.Update(err)\n			}\n			tuple.Type = ParameterType(t & 0x3)\n			if t == 4 || t == 6 {\n				tuple.Type = ParameterType(t)\n			}\n			if t == 7 || t == 5 {\n				tuple.Type = ParameterType(7 - t&2)\n			}")],
 demo=T+'''func TestDemo(t *testing.T) { for k := 0; k < 8; k++ { a := NewArgument(ParameterType(k), "x"); w := asn1.NewASNWriter(); a.Encode(w); b := &TupleDescription{}; b.Decode(asn1.NewASNReader(out(w))); if b.Type != a.Type { t.Fatal(k, b) } } }''',
 needs="arguments of type trigger or octets", what="the types 5 and 7 are exchanged"),
dict(id="c14-locked", prop="C14", pkg="embertree",
 edits=[("embertree/connection.go", "	//Sources\n	if len(c.Sources) > 0 {", "	//Sources\n	if len(c.Sources) > 0 && c.operation != Disconnect {")],
 demo=T+'''func TestDemo(t *testing.T) { c := Connection{Target: 1, Sources: []int32{2}}; c.SetOperation(2); w := asn1.NewASNWriter(); c.Encode(w); d := Connection{}; d.Decode(asn1.NewASNReader(out(w))); if len(d.Sources) != 1 { t.Fatal(d) } }''',
 needs="a disconnect operation with sources", what="the sources are not sent"),
dict(id="c15-children-nested", prop="C15", pkg="embertree",
 edits=[("embertree/element.go", "	if !asChild {\n		//Encode Children\n		if len(element.Children) > 0 {", "	if !asChild {\n		//Encode Children\n		if len(element.Children) > 0 && !(element.isMatrix && element.contents == nil) {")],
 demo=T+'''func TestDemo(t *testing.T) { m := NewQualifiedMatrix([]int32{1}, NToN, Linear); m.AddChild(NewNode(4)); w := asn1.NewASNWriter(); m.Encode(w); d, e := DecodeElement(asn1.NewASNReader(out(w))); if e != nil || d.Children[4] == nil { t.Fatal(e) } }''',
 needs="a matrix without contents but with children", what="the children are not encoded"),
dict(id="c15-number-trunc", prop="C15", pkg="embertree",
 edits=[("embertree/element.go", "		err = writer.WriteInt(int(element.Number))", "		err = writer.WriteInt(int(element.Number) & 0x3fffffff)")],
 demo=T+'''func TestDemo(t *testing.T) { n := NewNode(0x40000001); w := asn1.NewASNWriter(); n.Encode(w); d, e := DecodeElement(asn1.NewASNReader(out(w))); if e != nil || d.Number != 0x40000001 { t.Fatal(e, d) } }''',
 needs="element numbers of 2^30 or more", what="numbers are cut"),
dict(id="c16-tuple-definite", prop="C16", pkg="embertree",
 edits=[("embertree/function.go", "			name, err := ctxtReader.ReadString()\n", "			name, err := tupleReader.ReadString()\n")],
 demo=T+'''func TestDemo(t *testing.T) { c := TupleDescription{}; if e := c.Decode(asn1.NewASNReader([]byte{0x75,0x80,0xa0,3,2,1,5,0xa1,3,12,1,'x',0,0})); e != nil || c.Name != "x" { t.Fatal(e) } }''',
 needs="an argument whose name is sent in the definite length form", what="decoding fails"),
dict(id="c17-tuple-end", prop="C17", pkg="embertree",
 edits=[("embertree/connection.go", "	c.Target = int32(target)\n", "	c.Target = int32(target)\n	if target > 0x10000000 {\n		c.Sources = make([]int32, 0, target)\n	}\n")],
 demo=T+'''import "runtime"
func TestDemo(t *testing.T) { var a, b runtime.MemStats; runtime.ReadMemStats(&a); c := Connection{}; c.Decode(asn1.NewASNReader([]byte{0x70,0x80,0xa0,0x80,2,4,0x11,0,0,0,0,0,0,0})); runtime.ReadMemStats(&b); if b.TotalAlloc - a.TotalAlloc > 1<<24 { t.Fatal() } }'''.replace('import "runtime"\n',''),
 needs="a connection with a huge target number", what="decoding allocates 1 GiB for a message of 14 bytes"),
dict(id="c18-disposition", prop="C18", pkg="embertree",
 edits=[("embertree/connection.go", "	if d < int(Tally) || d > int(Locked) {", "	c.disposition = ConnectionDisposition(d)\n	if d < int(Tally) || d > int(Locked) {")],
 demo=T+'''func TestDemo(t *testing.T) { c := Connection{}; c.SetDisposition(2); c.SetDisposition(9); if c.GetDisposition() != 2 { t.Fatal(c) } }''',
 needs="an invalid disposition set after a valid one", what="the refused value is stored"),
dict(id="c19-update-children", prop="C19", pkg="embertree",
 edits=[("embertree/element.go", "	for number, newChild := range newElement.Children {\n		child := element.Children[number]\n		if child == nil {", "	for number, newChild := range newElement.Children {\n		child := element.Children[number]\n		if child == nil || child.contents == nil && len(newChild.Children) == 0 {")],
 demo=T+'''func TestDemo(t *testing.T) { a := NewNode(1); c := NewNode(2); a.AddChild(c); g := NewNode(3); c.AddChild(g); b := NewNode(1); d := NewNode(2); d.CreateContent(); b.AddChild(d); a.Update(b); if a.Children[2] != c || a.Children[2].Children[3] != g { t.Fatal() } }''',
 needs="an update of a child that has no contents yet but children", what="the child object is replaced and its children are lost"),
dict(id="c20-parent", prop="C20", pkg="embertree",
 edits=[("embertree/root.go", "	for pos := 1; pos < len(path); pos++ {\n		if element == nil {\n			return nil,nil\n		}\n		parent = element\n		element = element.Children[int(path[pos])]", "	for pos := 1; pos < len(path); pos++ {\n		if element == nil {\n			return nil,nil\n		}\n		if pos == len(path)-1 || element.parent == nil {\n			parent = element\n		}\n		if pos < 3 || element.Number != 0 {\n			element = element.Children[int(path[pos])]\n		}")],
 demo=T+'''func TestDemo(t *testing.T) { r := NewTree(); a := NewNode(1); r.AddElement(a); b := NewNode(1); a.AddChild(b); c := NewNode(0); b.AddChild(c); d := NewNode(1); c.AddChild(d); p, e := r.GetElementByPath([]int32{1,1,0,1}); if p != c || e != d { t.Fatal() } }''',
 needs="a path of four numbers below an element numbered 0", what="the lookup stops at the element numbered 0"),
dict(id="c21-modified", prop="C21", pkg="embertree",
 edits=[("embertree/root.go", "				if err == nil && parent != nil {\n					modifiedElement[Path2String(parent.GetPath())] = parent", "				if err == nil && parent != nil && len(modifiedElement) == 0 {\n					modifiedElement[Path2String(parent.GetPath())] = parent")],
 demo=T+'''type lst struct { n int }
func (l *lst) Receive(interface{}, *errs) { l.n++ }'''.replace('type lst struct { n int }\nfunc (l *lst) Receive(interface{}, *errs) { l.n++ }','')+'''
type lst struct { n int }
func (l *lst) Receive(interface{}, errors.Error) { l.n++ }
func TestDemo(t *testing.T) { r := NewTree(); a, b := NewNode(1), NewNode(2); r.AddElement(a); r.AddElement(b); x, y := &lst{}, &lst{}; a.AddListener(x); b.AddListener(y); m := NewRoot(); m.RootElementCollection[1] = NewQualifiedNode([]int32{1,5}); m.RootElementCollection[2] = NewQualifiedNode([]int32{2,5}); w := asn1.NewASNWriter(); m.Encode(w); r.Decode(asn1.NewASNReader(out(w))); if x.n != 1 || y.n != 1 { t.Fatal(x.n, y.n) } }''',
 needs="one message adding qualified children below two different elements", what="only the first parent's listeners are called"),
dict(id="c22-dup-command", prop="C22", pkg="embertree",
 edits=[("embertree/element.go", "		dupParent := parent.dupWithoutContents()\n		dupParent.AddChild(dupElement)\n		e = parent", "		dupParent := parent.dupWithoutContents()\n		if dupParent.Number != dupElement.Number || cmd == nil || parent.parent == nil {\n			dupParent.AddChild(dupElement)\n		} else {\n			dupParent = dupElement\n		}\n		e = parent")] if False else [("embertree/element.go", "	root := NewRoot()\n	root.AddElement(dupElement)\n	return root, nil\n}\n\nfunc Path2String", "	root := NewRoot()\n	if element.parent == nil || element.Number != 32 {\n		root.AddElement(dupElement)\n	}\n	return root, nil\n}\n\nfunc Path2String")],
 demo=T+'''func TestDemo(t *testing.T) { a, b := NewNode(1), NewNode(32); a.AddChild(b); m, e := b.GetDirectoryMsg(nil); if e != nil || m.RootElementCollection[1] == nil { t.Fatal() } }''',
 needs="a child element numbered 32 like the command", what="the request is empty"),
dict(id="c22-command-mask", prop="C22", pkg="embertree",
 edits=[("embertree/command.go", "	return writer.WriteInt(int(cc.fieldFlags))", "	return writer.WriteInt(int(cc.fieldFlags) &^ 0x40)")] ,
 demo=T+'''func TestDemo(t *testing.T) { c := NewCommand(32); cc := c.GetContent().(*CommandContents); cc.SetFieldFlags(0x41); w := asn1.NewASNWriter(); cc.Encode(w); d := NewCommandContents().(*CommandContents); d.Decode(asn1.NewASNReader(out(w))); if d.GetFieldFlags() != 0x41 { t.Fatal(d) }; c = NewCommand(32); w = asn1.NewASNWriter(); c.Encode(w); e, _ := DecodeElement(asn1.NewASNReader(out(w))); if e.GetContent().(*CommandContents).GetFieldFlags() != ALLFieldFlags { t.Fatal() } }''',
 needs="flags with bit 6, including the -1 of 'all fields'", what="field flags change on the way"),
dict(id="c23-split-exact", prop="C23", pkg="socket",
 edits=[("socket/frame.go", "        if(encbuf.Len() >= 1024 && i < len(data)-1) {			", "        if(encbuf.Len() == 1024 && i < len(data)-1) {			")],
 demo=S+'''func TestDemo(t *testing.T) { d := make([]byte, 5000); for i := range d { d[i] = 1 }; d[1023] = 0xff; fl := EncodeMessage(d); for i := 0; i < fl.Size(); i++ { b, _ := fl.GetBytesAt(i); if len(b) > 1200 { t.Fatal(len(b)) } } }''',
 needs="an escaped byte straddling the 1024 byte boundary", what="the frame is not split there: frames grow without bound"),
dict(id="c23-escape-f8", prop="C23", pkg="socket",
 edits=[("socket/frame.go", "        if b < S101_INV {\n            encbuf", "        if b <= S101_INV {\n            encbuf")],
 demo=S+'''func TestDemo(t *testing.T) { f, _ := EncodeMessage([]byte{0xf8}).GetBytesAt(0); if !bytes.Contains(f, []byte{0xfd, 0xd8}) { t.Fatal(f) } }''',
 needs="a payload byte 0xF8", what="a byte of the reserved range F8..FF is sent without an escape"),
dict(id="c24-crc-entry", prop="C24", pkg="socket",
 edits=[("socket/frame.go", "0x6b46, 0x7acf, 0x4854, 0x59dd", "0x6b46, 0x7acf, 0x4854, 0x59dc")],
 demo=S+'''func TestDemo(t *testing.T) { for i := 0; i < 65536; i++ { f, _ := EncodeMessage([]byte{byte(i), byte(i>>8)}).GetBytesAt(0); crc := uint16(0xffff); var raw []byte; for k := 1; k < len(f)-1; k++ { b := f[k]; if b == 0xfd { k++; b = f[k]^0x20 }; raw = append(raw, b) }; for _, b := range raw { crc ^= uint16(b); for j := 0; j < 8; j++ { if crc&1 == 1 { crc = crc>>1 ^ 0x8408 } else { crc >>= 1 } } }; if crc != 0xf0b8 { t.Fatal(i) } } }''',
 needs="frames whose checksum calculation uses this one table entry", what="the checksum is not CRC-16/X.25"),
dict(id="c24-crc-hi-escape", prop="C23", pkg="socket",
 edits=[("socket/frame.go", "	if (crc_hi < S101_INV) {", "	if (crc_hi <= S101_INV) {")],
 demo=S+'''func TestDemo(t *testing.T) { for i := 0; i < 65536; i++ { f, _ := EncodeMessage([]byte{byte(i), byte(i>>8)}).GetBytesAt(0); for _, b := range f[1:len(f)-1] { if b >= 0xf8 && b != 0xfd { t.Fatal(i, f) } } } }''',
 needs="a message whose checksum has the high byte F8", what="the byte is not escaped"),
dict(id="c25-foreign-slot", prop="C25", pkg="socket",
 edits=[("socket/frame.go", "	if (slot != SLOT || message != MSG_EMBER) {", "	if (slot != SLOT && message != MSG_EMBER) {")],
 demo=S+'''func TestDemo(t *testing.T) { var m [][]byte; d := dec(&m); b := &bytes.Buffer{}; b.Write([]byte{0xfe,0,0x0d,0,1,0xc0,1,2,0x1f,2,9}); f := finalizeBuffer(b).Bytes(); d.DecodeBuffer(len(f), f); if len(m) != 0 { t.Fatal(m) } }''',
 needs="a valid frame of another message type or slot", what="foreign frames are delivered as Ember messages"),
dict(id="c26-empty-packet", prop="C26", pkg="socket",
 edits=[("socket/frame.go", "	if emberFrame.Header.Flags & FLAG_EMPTY_PACKET == 0 {", "	if emberFrame.Header.Flags & FLAG_EMPTY_PACKET == 0 && (frame.Len() > 0 || emberFrame.Header.Flags & FLAG_LAST_MULTI_PACKET != 0) && !(emberFrame.Header.Flags == FLAG_MULTI_PACKET && decoder.emberbuf.Len() == 0) {")],
 demo=S+'''func TestDemo(t *testing.T) { var m [][]byte; d := dec(&m); for _, f := range [][]byte{makeBERFrame(0x80, nil).Bytes(), makeBERFrame(0, []byte{1}).Bytes(), makeBERFrame(0x40, []byte{2}).Bytes()} { d.DecodeBuffer(len(f), f) }; if len(m) != 1 || !bytes.Equal(m[0], []byte{1,2}) { t.Fatal(m) } }''',
 needs="a multi-packet message whose first packet is empty", what="the payload of the middle packet is lost"),
dict(id="c27-keepalive-conn", prop="C27", pkg="socket",
 edits=[("socket/frame.go", "	packet.WriteByte(CMD_KEEPALIVE_RESP);\n	packet.WriteByte(VERSION);\n	return finalizeBuffer(packet);", "	packet.WriteByte(CMD_KEEPALIVE_RESP);\n	packet.WriteByte(VERSION);\n	packet = finalizeBuffer(packet);\n	packet.Truncate(packet.Len() - 1)\n	return packet")],
 demo=S+'''func TestDemo(t *testing.T) { b := GetKeepAliveResponse().Bytes(); if b[len(b)-1] != 0xff { t.Fatal(b) } }''',
 needs="a keep-alive request of the peer", what="the response has no end of frame"),
dict(id="c28-short", prop="C28", pkg="socket",
 edits=[("socket/frame.go", "		} else if b == S101_CE {\n			decoder.escaped = true;", "		} else if b == S101_CE && (i+1 >= bufLen || buf[i+1] < S101_INV || decoder.inbuf.Bytes()[0] == SLOT) {\n			decoder.escaped = true;")],
 demo=S+'''func TestDemo(t *testing.T) { defer func() { if p := recover(); p != nil { t.Fatal(p) } }(); var m [][]byte; d := dec(&m); d.DecodeBuffer(4, []byte{0xfe, 0xfd, 0xf9, 0xff}) }''',
 needs="an escape of a reserved byte as the first byte of a frame", what="the decoder panics"),
dict(id="c33-warn", prop="C33", pkg="logger",
 edits=[("logger/logger.go", "func (logger *ConsoleLogger)SetLogLevel(level LogLevel) {\n	logger.logLevel = level", "func (logger *ConsoleLogger)SetLogLevel(level LogLevel) {\n	if level > DebugLevel {\n		level = InfoLevel\n	}\n	logger.logLevel = level")],
 demo='''package logger
import "testing"
func TestDemo(t *testing.T) { l := NewConsoleLogger(3); l.SetLogLevel(7); if l.GetLogLevel() < DebugLevel { t.Fatal(l.GetLogLevel()) } }''',
 needs="a level above debug", what="the most verbose levels print no debug messages"),
dict(id="c35-stack-alias", prop="C35", pkg="asn1",
 edits=[("asn1/stack.go", "	if l > 0 {\n		l--\n		v = s.data[l]\n		s.data = s.data[:l]\n		return v", "	if l > 0 {\n		l--\n		v = s.data[l]\n		s.data = s.data[:l:l+1]\n		if l == 2 {\n			s.data = s.data[:l-1]\n		}\n		return v")],
 demo=A+'''func TestDemo(t *testing.T) { s := NewStack(); for i := 0; i < 4; i++ { s.Push(i) }; for i := 3; i >= 0; i-- { if v := s.Pop(); v != i { t.Fatal(i, v) } } }''',
 needs="three values on the stack when one is popped", what="two values are removed"),
dict(id="c36-stack-share", prop="C36", pkg="errors",
 edits=[("errors/errors.go", "	e := ErrorStruct{Message: err, Stack: stack}\n	return &e", "	if e, ok := err.(interface{ Unwrap() error }); ok && e.Unwrap() != nil {\n		err = e.Unwrap()\n	}\n	e := ErrorStruct{Message: err, Stack: stack}\n	return &e")],
 demo='''package errors
import ("testing"; "fmt"; "io")
func TestDemo(t *testing.T) { e := fmt.Errorf("read: %w", io.EOF); if x := NewError(e); x.Message.Error() != "read: EOF" { t.Fatal(x.Message) } }''',
 needs="an error that wraps another", what="only the innermost text is kept"),
dict(id="c18-command-flags", prop="C18", pkg="embertree",
 edits=[("embertree/command.go", "	cc.fieldFlags = FieldFlags(val)\n	return err", "	cc.fieldFlags = FieldFlags(int8(val))\n	return err")],
 demo=T+'''func TestDemo(t *testing.T) { c := NewCommandContents().(*CommandContents); c.SetFieldFlags(200); w := asn1.NewASNWriter(); c.Encode(w); d := NewCommandContents().(*CommandContents); d.Decode(asn1.NewASNReader(out(w))); if d.GetFieldFlags() != 200 { t.Fatal(d) } }''',
 needs="flags above 127", what="flags are cut to 8 bits"),
]
for b in B:
    if "errors.Error" in b["demo"] and b["pkg"] == "embertree":
        b["demo"] = b["demo"].replace('"github.com/dufourgilles/emberlib/asn1")', '"github.com/dufourgilles/emberlib/asn1"; "github.com/dufourgilles/emberlib/errors")')
    if "runtime." in b["demo"]:
        b["demo"] = b["demo"].replace('"testing";', '"testing"; "runtime";')
