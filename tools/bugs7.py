exec(open("/verif/tools/bugs6.py").read().split("\nB = [")[0])
B = [
dict(id="c19-conn-empty", prop="C19", pkg="embertree",
 edits=[("embertree/matrix_element.go", "	element.connections = connections\n	return connectionReader", "	if len(connections) > 0 && len(connections[len(connections)-1].Sources) == 0 {\n		// nothing connected\n		connections = connections[:len(connections)-1]\n	}\n	element.connections = connections\n	return connectionReader")],
 demo=EL+'''func enc(t *testing.T, f func(w *asn1.ASNWriter) errors.Error) []byte { w := asn1.NewASNWriter(); if e := f(w); e != nil { t.Fatal(e.Message) }; b := make([]byte, w.Len()); w.Read(b); return b }
func TestDemo(t *testing.T) { mat := func(s ...int32) *RootElement { r := NewRoot(); m, _ := NewMatrix(1, OneToN, Linear); c := &Connection{Target: 3, Sources: s}; m.SetConnections([]*Connection{c}); r.AddElement(m); return r }; tree := NewTree(); if e := tree.Decode(asn1.NewASNReader(enc(t, mat(5).Encode))); e != nil { t.Fatal(e.Message) }; if e := tree.Decode(asn1.NewASNReader(enc(t, mat().Encode))); e != nil { t.Fatal(e.Message) }; c, _ := tree.RootElementCollection[1].GetConnections(); if len(c) != 1 || len(c[0].Sources) != 0 { t.Fatal(c) } }''',
 needs="an update that leaves a target of a matrix without sources", what="the old sources stay"),
dict(id="c21-parent-dedupe", prop="C21", pkg="embertree",
 edits=[("embertree/root.go", "			listener.Receive(mElement, nil)\n", "			if root.listeners[listener] != nil {\n				// has been called above\n				continue\n			}\n			listener.Receive(mElement, nil)\n")],
 demo=EL+'''type rec struct { got []interface{} }
func (r *rec) Receive(n interface{}, e errors.Error) { r.got = append(r.got, n) }
func TestDemo(t *testing.T) { tree := NewTree(); p := NewNode(1); tree.AddElement(p); l := &rec{}; tree.AddListener(l); p.AddListener(l); r := NewRoot(); r.AddElement(NewQualifiedNode(asn1.RelativeOID{1, 2})); w := asn1.NewASNWriter(); if e := r.Encode(w); e != nil { t.Fatal(e.Message) }; b := make([]byte, w.Len()); w.Read(b); if e := tree.Decode(asn1.NewASNReader(b)); e != nil { t.Fatal(e.Message) }; if len(l.got) != 2 { t.Fatal(l.got) } }''',
 needs="one listener of both the tree and an element, and a new qualified child of that element", what="the listener is not told of the element"),
dict(id="c30-late-lost", prop="C30", pkg="socket",
 edits=[("socket/client.go", "			t.client.logger.Debug(\"Timer Kicked.\\n\")\n", "			t.client.logger.Debug(\"Timer Kicked.\\n\")\n			t.node.RemoveListener(callback)\n")],
 demo=NET+'''func TestDemo(t *testing.T) { c, p := server(t); defer p.Close(); defer c.Disconnect(); n := 0; var mu sync.Mutex; l := &lis{func(interface{}, errors.Error) { mu.Lock(); n++; mu.Unlock() }}; c.SetTimeout(100); c.GetDirectory(nil, l); time.Sleep(400*time.Millisecond); r := embertree.NewRoot(); r.AddElement(embertree.NewNode(1)); p.Write(msg(t, r)); time.Sleep(300*time.Millisecond); mu.Lock(); defer mu.Unlock(); if n != 2 { t.Fatal(n) } }''',
 needs="an answer that comes after the time-out", what="it is not delivered any more"),
dict(id="c27-256", prop="C27", pkg="socket",
 edits=[("socket/client.go", "	s.logger.Debug(\"KAL Request Received.\\n\")\n", "	s.logger.Debug(\"KAL Request Received.\\n\")\n	s.kals++\n	if s.kals == 0 {\n		s.logger.Debug(\"KAL counter overrun.\\n\")\n		return nil\n	}\n"),
        ("socket/client.go", "	getTreeCallback embertree.Listener\n", "	getTreeCallback embertree.Listener\n	kals uint8\n")],
 demo=NET+'''func TestDemo(t *testing.T) { c, p := server(t); r := GetKeepaliveRequest().Bytes(); for i := 0; i < 256; i++ { p.Write(r) }; p.SetReadDeadline(time.Now().Add(900*time.Millisecond)); n := 0; b := make([]byte, 1000); for { k, e := p.Read(b); n += k; if e != nil { break } }; c.Disconnect(); p.Close(); if n != 256*len(GetKeepAliveResponse().Bytes()) { t.Fatal(n) } }''',
 needs="256 keep-alive requests to one client", what="every 256th is not answered"),
dict(id="c23-frames-256", prop="C23", pkg="socket",
 edits=[("socket/frame.go", "			if (frameList.numFrames >= 1) {\n", "			if (uint8(frameList.numFrames) >= 1) {\n")],
 demo=SK+'''func TestDemo(t *testing.T) { var got []byte; d := feed(t, func(b []byte) { got = b }); m := make([]byte, 300000); s := stream(m); d.DecodeBuffer(len(s), s); if len(got) != len(m) { t.Fatal(len(got)) } }''',
 needs="a message of more than 256 packets", what="it is delivered without its beginning"),
dict(id="c26-packets-256", prop="C26", pkg="socket",
 edits=[("socket/frame.go", "		decoder.emberbuf.Reset()\n		decoder.inMessage = true\n", "		decoder.emberbuf.Reset()\n		decoder.packets = 0\n		decoder.inMessage = true\n"),
        ("socket/frame.go", "	emberbuf bytes.Buffer\n", "	emberbuf bytes.Buffer\n	packets uint8\n"),
        ("socket/frame.go", "	if emberFrame.Header.Flags & FLAG_EMPTY_PACKET == 0 {\n", "	decoder.packets++\n	if decoder.packets == 0 {\n		decoder.inMessage = false\n		return errors.New(\"too many packets\")\n	}\n	if emberFrame.Header.Flags & FLAG_EMPTY_PACKET == 0 {\n")],
 demo=FR+'''func TestDemo(t *testing.T) { g := &got{}; d := dec(g); for i := 0; i < 300; i++ { fl := byte(0); if i == 0 { fl = 0x80 } else if i == 299 { fl = 0x40 }; f := raw(0, 14, 0, 1, fl, 1, 2, 31, 2, 'a'); d.DecodeBuffer(len(f), f) }; if len(g.msgs) != 1 || len(g.msgs[0]) != 300 { t.Fatal(len(g.msgs)) } }''',
 needs="a message in more than 255 packets", what="the message is lost"),
dict(id="c34-percent", prop="C34", pkg="embertree",
 edits=[("embertree/parameter.go", "		str = fmt.Sprintf(\"%s  format: %s\\n\",str,valStr)", "		str = fmt.Sprintf(str + \"  format: %s\\n\",valStr)")],
 demo=EL.replace('"fmt"','"fmt"; "strings"',1)+'''func TestDemo(t *testing.T) { p := NewParameterContents().(*ParameterContents); p.SetIdentifier("100%d"); p.SetFormat("f"); if s := p.ToString(); !strings.Contains(s, "100%d") || !strings.Contains(s, "format: f") { t.Fatal(s) } }''',
 needs="a parameter with format whose identifier or description has a percent sign", what="the text is garbled"),
dict(id="c36-percent", prop="C36", pkg="errors",
 edits=[("errors/errors.go", "	e := ErrorStruct{Message: err, Stack: stack}", "	e := ErrorStruct{Message: fmt.Errorf(err.Error()), Stack: stack}")],
 demo='package errors\nimport ("testing"; "fmt")\nfunc TestDemo(t *testing.T) { if e := NewError(fmt.Errorf("at 50%% of it")); e.Message.Error() != "at 50% of it" { t.Fatal(e.Message) } }\n',
 needs="an error made from another one whose text has a percent sign", what="the text is garbled"),
dict(id="c29-run", prop="C29", pkg="socket",
 edits=[("socket/client.go", "	p.queue.PushBack(msg)\n", "	p.total++\n	if p.total % 512 == 0 && p.queue.Len() > 0 {\n		p.queue.Front().Value = msg\n		return nil\n	}\n	p.queue.PushBack(msg)\n"),
        ("socket/client.go", "type packetQueue struct {\n", "type packetQueue struct {\n	total int\n")],
 demo='package socket\nimport ("testing"; "github.com/dufourgilles/emberlib/embertree")\nfunc TestDemo(t *testing.T) { q := newPacketQueue(); n := 0; for i := 0; i < 600; i++ { q.add(embertree.NewRoot()); if i % 100 == 99 { for q.size() > 1 { q.getNext(); n++ } } }; if n += q.size(); n != 600 { t.Fatal(n) } }\n',
 needs="512 requests in the life of a client, some waiting", what="a request replaces another one"),
]
