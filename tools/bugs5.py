exec(open("/verif/tools/bugs4.py").read().split("\nB = [")[0])
B = [
dict(id="c26-size-16bit", prop="C26", pkg="socket",
 edits=[("socket/frame.go", "		emberPacket := make([]byte, decoder.emberbuf.Len())\n", "		emberPacket := make([]byte, uint16(decoder.emberbuf.Len()))\n")],
 demo=SK+'''func TestDemo(t *testing.T) { var got []byte; d := feed(t, func(b []byte) { got = b }); m := make([]byte, 66000); s := stream(m); d.DecodeBuffer(len(s), s); if !bytes.Equal(got, m) { t.Fatal(len(got)) } }''',
 needs="a message of 65536 bytes or more", what="only the rest modulo 65536 is delivered"),
dict(id="c23-frame-limit", prop="C23", pkg="socket",
 edits=[("socket/frame.go", "	if emberFrame.Header.Flags & FLAG_EMPTY_PACKET == 0 {\n", "	if decoder.emberbuf.Len() > 1 << 16 {\n		decoder.emberbuf.Reset()\n		decoder.inMessage = false\n		return errors.New(\"message too long\")\n	}\n	if emberFrame.Header.Flags & FLAG_EMPTY_PACKET == 0 {\n")],
 demo=SK+'''func TestDemo(t *testing.T) { n := 0; var d *S101Decoder; nop := func([]byte) errors.Error { return nil }; d = NewS101Decoder(nop, nop, func(b []byte) errors.Error { n += len(b); return nil }, func(errors.Error) {}); m := make([]byte, 70000); s := stream(m); d.DecodeBuffer(len(s), s); if n != len(m) { t.Fatal(n) } }''',
 needs="a message of more than 64 KiB in several frames", what="the message is dropped"),
dict(id="c15-depth", prop="C15", pkg="embertree",
 edits=[("embertree/elementFactory.go", "		element.logger.Debug(\"Decoding Element.\\n\")\n", "		if childReader.TopOffset() > 2048 && len(element.Children) >= 64 {\n			break\n		}\n		element.logger.Debug(\"Decoding Element.\\n\")\n")],
 demo=EL+'''func TestDemo(t *testing.T) { r := NewRoot(); n := NewNode(1); for i := 0; i < 200; i++ { c := NewNode(i); c.CreateContent().(*NodeContents).SetIdentifier("some identifier"); n.AddChild(c) }; r.AddElement(n); w := asn1.NewASNWriter(); if e := r.Encode(w); e != nil { t.Fatal(e.Message) }; b := make([]byte, w.Len()); w.Read(b); g := NewTree(); if e := g.Decode(asn1.NewASNReader(b)); e != nil { t.Fatal(e.Message) }; if len(g.RootElementCollection[1].Children) != 200 { t.Fatal(len(g.RootElementCollection[1].Children)) } }''',
 needs="more than 64 children of one element in a message of more than 2 KiB", what="the other children are lost"),
dict(id="c15-number-byte", prop="C15", pkg="embertree",
 edits=[("embertree/elementFactory.go", "		number, err = ctxtReader.ReadInt()\n", "		number, err = ctxtReader.ReadInt()\n		if number > 0x7fff {\n			number &= 0xffff\n		}\n")],
 demo=EL+'''func TestDemo(t *testing.T) { w := asn1.NewASNWriter(); if e := NewNode(70000).Encode(w); e != nil { t.Fatal(e.Message) }; b := make([]byte, w.Len()); w.Read(b); g, e := DecodeElement(asn1.NewASNReader(b)); if e != nil { t.Fatal(e.Message) }; if g.Number != 70000 { t.Fatal(g.Number) } }''',
 needs="an element number above 65535", what="the element gets another number"),
dict(id="c12-signals-many", prop="C12", pkg="embertree",
 edits=[("embertree/matrix_element.go", "		signals = append(signals, signal)\n", "		if len(signals) < 255 {\n			signals = append(signals, signal)\n		}\n")],
 demo=EL+'''func TestDemo(t *testing.T) { m, _ := NewMatrix(1, OneToN, NonLinear); var s []Signal; for i := 0; i < 300; i++ { s = append(s, NewTarget(int32(i))) }; m.SetTargets(s); w := asn1.NewASNWriter(); if e := m.Encode(w); e != nil { t.Fatal(e.Message) }; b := make([]byte, w.Len()); w.Read(b); g, e := DecodeElement(asn1.NewASNReader(b)); if e != nil { t.Fatal(e.Message) }; x, _ := g.GetTargets(); if len(x) != 300 { t.Fatal(len(x)) } }''',
 needs="a matrix with more than 255 targets or sources", what="the other targets are lost"),
dict(id="c13-args-many", prop="C13", pkg="embertree",
 edits=[("embertree/function.go", "	for _, tuple := range tuples {\n", "	for i, tuple := range tuples {\n		if i > 127 {\n			break\n		}\n")],
 demo=EL+'''func TestDemo(t *testing.T) { f := NewFunctionContents().(*FunctionContents); var a []*TupleDescription; for i := 0; i < 130; i++ { a = append(a, &TupleDescription{}) }; f.SetArguments(a); w := asn1.NewASNWriter(); if e := f.Encode(w); e != nil { t.Fatal(e.Message) }; b := make([]byte, w.Len()); w.Read(b); g := NewFunctionContents().(*FunctionContents); if e := g.Decode(asn1.NewASNReader(b)); e != nil { t.Fatal(e.Message) }; x := g.GetArguments(); if len(x) != 130 { t.Fatal(len(x)) } }''',
 needs="a function with more than 128 arguments", what="the other arguments are not sent"),
dict(id="c32-full-read", prop="C32", pkg="socket",
 edits=[("socket/client.go", "				decoder.DecodeBuffer(len, buffer)\n", "				if len == maxBufferSize {\n					// more will follow\n					len--\n				}\n				decoder.DecodeBuffer(len, buffer)\n")],
 demo=NET+'''func TestDemo(t *testing.T) { c, p := server(t); l := make(chan int, 10); var slow sync.Once; c.tree.AddListener(&lis{func(interface{}, errors.Error) { slow.Do(func() { time.Sleep(700*time.Millisecond) }); l <- 1 }}); r := embertree.NewRoot(); n := embertree.NewNode(1); r.AddElement(n); p.Write(msg(t, r)); time.Sleep(150*time.Millisecond); k := 0; for i := 0; i < 20; i++ { x := embertree.NewRoot(); m := embertree.NewNode(1); m.CreateContent().(*embertree.NodeContents).SetIdentifier(string(make([]byte, 11000))); x.AddElement(m); p.Write(msg(t, x)) }; for { select { case <-l: k++; continue; case <-time.After(1500*time.Millisecond): }; break }; c.Disconnect(); p.Close(); if k != 21 { t.Fatal(k) } }''',
 needs="a Read that fills the whole buffer of the client (64 KiB)", what="one byte of what was received is lost"),
dict(id="c26-frame-4k", prop="C26", pkg="socket",
 edits=[("socket/frame.go", "			decoder.inbuf.WriteByte(b);\n		}\n	}\n}", "			if decoder.inbuf.Len() < 4096 {\n				decoder.inbuf.WriteByte(b);\n			}\n		}\n	}\n}")],
 demo=SK+'''func TestDemo(t *testing.T) { n := 0; d := feed(t, func(b []byte) { n = len(b) }); m := append([]byte{0, 14, 0, 1, 0xc0, 1, 2, 31, 2}, make([]byte, 5000)...); c := CalculateCRC(bytes.NewReader(m)); m = append(m, byte(^c), byte(^c>>8)); s := []byte{0xfe}; for _, b := range m { if b >= 0xf8 { s = append(s, 0xfd, b^0x20) } else { s = append(s, b) } }; s = append(s, 0xff); d.DecodeBuffer(len(s), s); if n != 5000 { t.Fatal(n) } }''',
 needs="a packet of more than 4 KiB", what="the packet and its message are lost"),
dict(id="c29-drop-on-close", prop="C29", pkg="socket",
 edits=[("socket/client.go", "					s.closeConn(conn)\n", "					s.closeConn(conn)\n					for s.outQ.size() > 3 {\n						s.outQ.getNext()\n					}\n")],
 demo=NET+'''func TestDemo(t *testing.T) { l, e := net.Listen("tcp", "127.0.0.1:0"); if e != nil { t.Fatal(e) }; defer l.Close(); port := uint16(l.Addr().(*net.TCPAddr).Port); c := NewS101Client(); if e := c.Connect("127.0.0.1", port); e != nil { t.Fatal(e.Message) }; p, _ := l.Accept(); time.Sleep(150*time.Millisecond); for i := 0; i < 30; i++ { c.GetDirectory(embertree.NewNode(i), nil) }; p.Close(); time.Sleep(500*time.Millisecond); left := c.outQ.size(); if left < 20 { t.Fatal(left) } }''',
 needs="a connection closed by the peer while more than three requests wait", what="accepted requests are dropped"),
]
