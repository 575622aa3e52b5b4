exec(open("/verif/tools/bugs3.py").read().split("\nB = [")[0])
NOP = '''
func feed(t *testing.T, h func([]byte)) *S101Decoder { nop := func([]byte) errors.Error { return nil }; return NewS101Decoder(nop, nop, func(b []byte) errors.Error { h(b); return nil }, func(e errors.Error) { t.Fatal(e.Message) }) }
func stream(b []byte) []byte { l := EncodeMessage(b); var all []byte; for i := 0; i < l.Size(); i++ { x, _ := l.GetBytesAt(i); all = append(all, x...) }; return all }
'''
SK = 'package socket\nimport ("testing"; "bytes"; "github.com/dufourgilles/emberlib/errors")\nvar _ = bytes.Equal\n' + NOP
B = [
dict(id="c38-bits-shared", prop="C38", pkg="asn1",
 edits=[("asn1/decode.go", "	return a.readStringBuffer()\n", "	start := a.Offset()\n	b, e := a.readStringBuffer()\n	if e == nil && len(b) > 0 && start+1+len(b) == a.Offset() {\n		// short form: no need for a copy\n		b = a.buf[start+1 : start+1+len(b)]\n	}\n	return b, e\n")],
 demo=A+'''func TestDemo(t *testing.T) { in := []byte{3, 2, 1, 2}; b, e := NewASNReader(in).ReadBitString(); if e != nil { t.Fatal(e) }; in[2] = 99; if b[0] != 1 { t.Fatal(b) } }''',
 needs="a bit string read from a buffer that is reused afterwards", what="the bits read change with the buffer"),
dict(id="c38-packet-shared", prop="C38", pkg="socket",
 edits=[("socket/frame.go", "		emberPacket := make([]byte, decoder.emberbuf.Len())\n		decoder.emberbuf.Read(emberPacket)\n", "		emberPacket := decoder.emberbuf.Bytes()\n")],
 demo=SK+'''func TestDemo(t *testing.T) { var got [][]byte; d := feed(t, func(b []byte) { got = append(got, b) }); for i := 0; i < 3; i++ { s := stream([]byte{byte(i), 7}); d.DecodeBuffer(len(s), s) }; for i := range got { if got[i][0] != byte(i) { t.Fatal(got) } } }''',
 needs="a message kept by its receiver while the next one arrives", what="the message kept changes"),
dict(id="c38-kal-cached", prop="C38", pkg="socket",
 edits=[("socket/frame.go", "	packet.WriteByte(CMD_KEEPALIVE_RESP);\n	packet.WriteByte(VERSION);\n	return finalizeBuffer(packet);\n}", "	packet.WriteByte(CMD_KEEPALIVE_RESP);\n	packet.WriteByte(VERSION);\n	if keepAliveResponse == nil {\n		keepAliveResponse = finalizeBuffer(packet).Bytes()\n	}\n	return bytes.NewBuffer(keepAliveResponse)\n}\n\nvar keepAliveResponse []byte")],
 demo=SK+'''func TestDemo(t *testing.T) { a := GetKeepAliveResponse(); w := append([]byte{}, a.Bytes()...); a.Bytes()[3] = 77; if !bytes.Equal(GetKeepAliveResponse().Bytes(), w) { t.Fatal("shared") } }''',
 needs="a keep-alive frame that its receiver changes", what="later keep-alive frames are changed too"),
dict(id="c38-escape-inplace", prop="C38", pkg="socket",
 edits=[("socket/frame.go", "            encbuf.WriteByte(b ^ S101_XOR);", "            data[i] = b ^ S101_XOR;\n            encbuf.WriteByte(data[i]);")],
 demo=SK+'''func TestDemo(t *testing.T) { m := []byte{1, 0xfe, 3}; EncodeMessage(m); if m[1] != 0xfe { t.Fatal(m) } }''',
 needs="a message with a byte that must be escaped, used again", what="encoding changes the data of the caller"),
dict(id="c38-path-cache", prop="C38", pkg="asn1",
 edits=[("asn1/decode.go", "	value := int32(0)\n	for i := 0; i < len(buf); i++ {\n		b := buf[i] & 0xff", "	if last, is := paths[string(buf)]; is {\n		return last, nil\n	}\n	defer func() {\n		if len(buf) < 4 && len(oid) > 1 && len(paths) < 64 {\n			paths[string(buf)] = oid\n		}\n	}()\n	value := int32(0)\n	for i := 0; i < len(buf); i++ {\n		b := buf[i] & 0xff"),
        ("asn1/decode.go", "func (a *ASNReader) Peek()", "// paths seen before need not be decoded again\nvar paths = map[string]RelativeOID{}\n\nfunc (a *ASNReader) Peek()")],
 demo=A+'''func TestDemo(t *testing.T) { in := []byte{13, 2, 1, 2}; a, _ := NewASNReader(in).ReadOID(13); b, _ := NewASNReader(in).ReadOID(13); a[0] = 99; if b[0] != 1 { t.Fatal(b) } }''',
 needs="the same path read twice, and one of the results changed", what="both results share the path"),
dict(id="c38-queue-shared", prop="C38", pkg="socket",
 edits=[("socket/client.go", "	client.outQ = newPacketQueue()\n", "	client.outQ = sharedQueue\n"),
        ("socket/client.go", "func NewS101Client() *S101Client {", "var sharedQueue = newPacketQueue()\n\nfunc NewS101Client() *S101Client {")],
 demo=NET+'''func TestDemo(t *testing.T) { a, pa := server(t); b, pb := server(t); time.Sleep(150*time.Millisecond); n := [2]int{}; for i := 0; i < 6; i++ { a.GetDirectory(nil, nil) }; for i, p := range []net.Conn{pa, pb} { p.SetReadDeadline(time.Now().Add(700*time.Millisecond)); x := make([]byte, 1000); for { k, e := p.Read(x); n[i] += k; if e != nil { break } } }; a.Disconnect(); b.Disconnect(); pa.Close(); pb.Close(); if n[1] != 0 { t.Fatal(n) } }''',
 needs="two clients connected at the same time", what="the request of one is sent by the other"),
dict(id="c38-assembly-shared", prop="C38", pkg="socket",
 edits=[("socket/frame.go", "		frame.WriteTo(&decoder.emberbuf)", "		if decoder.emberbuf.Len() == 0 {\n			// start from the memory of the message before\n			decoder.emberbuf = *bytes.NewBuffer(scratch[:0])\n		}\n		frame.WriteTo(&decoder.emberbuf)\n		scratch = decoder.emberbuf.Bytes()"),
        ("socket/frame.go", "func (decoder *S101Decoder)HandleEmberFrame(", "var scratch []byte\n\nfunc (decoder *S101Decoder)HandleEmberFrame(")],
 demo=SK+'''func TestDemo(t *testing.T) { var got []byte; d := feed(t, func(b []byte) { got = b }); e := feed(t, func([]byte) {}); m := make([]byte, 1500); s := stream(m); k := bytes.IndexByte(s, 0xff) + 1; d.DecodeBuffer(k, s); x := stream([]byte{1, 2, 3}); e.DecodeBuffer(len(x), x); r := s[k:]; d.DecodeBuffer(len(r), r); if !bytes.Equal(got, m) { t.Fatal(got[:5]) } }''',
 needs="a message of several packets of one decoder with a message of another decoder in between", what="the first bytes of the message are those of the other one"),
dict(id="c38-kids-shared", prop="C38", pkg="embertree",
 edits=[("embertree/qualified_element.go", "	dupElement.AddChild(cmd)\n	root := NewRoot()", "	if len(element.Children) == 0 {\n		dupElement.Children = element.Children\n	}\n	dupElement.AddChild(cmd)\n	root := NewRoot()")],
 demo=EL+'''func TestDemo(t *testing.T) { e := NewNode(1); e.GetQualifiedDirectoryMsg(nil); if len(e.Children) != 0 { t.Fatal(len(e.Children)) } }''',
 needs="a directory request for an element without children", what="the element gets the command as a child"),
]
