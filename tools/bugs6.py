exec(open("/verif/tools/bugs4.py").read().split("\nB = [")[0])
FR = 'package socket\nimport ("testing"; "bytes"; "github.com/dufourgilles/emberlib/errors")\nvar _ = bytes.Equal\n' + '''
type got struct { msgs [][]byte; errs, kals int }
func dec(g *got) *S101Decoder { return NewS101Decoder(func([]byte) errors.Error { g.kals++; return nil }, func([]byte) errors.Error { return nil }, func(b []byte) errors.Error { g.msgs = append(g.msgs, b); return nil }, func(e errors.Error) { g.errs++ }) }
func raw(m ...byte) []byte { c := CalculateCRC(bytes.NewReader(m)); m = append(m, byte(^c), byte(^c>>8)); s := []byte{0xfe}; for _, b := range m { if b >= 0xf8 { s = append(s, 0xfd, b^0x20) } else { s = append(s, b) } }; return append(s, 0xff) }
'''
OUT = '''
func capture(f func()) string { r, w, _ := os.Pipe(); o := os.Stdout; os.Stdout = w; f(); os.Stdout = o; w.Close(); b, _ := io.ReadAll(r); return string(b) }
'''
B = [
dict(id="c25-dtd-order", prop="C25", pkg="socket",
 edits=[("socket/frame.go", "	if emberFrame.Header.Version != VERSION {\n", "	if emberFrame.Header.Flags & FLAG_FIRST_MULTI_PACKET != 0 {\n		decoder.emberbuf.Reset()\n	}\n	if emberFrame.Header.Version != VERSION {\n")],
 demo=FR+'''func TestDemo(t *testing.T) { g := &got{}; d := dec(g); for _, f := range [][]byte{raw(0, 14, 0, 1, 0x80, 1, 2, 31, 2, 'a'), raw(0, 14, 0, 1, 0xc0, 2, 2, 31, 2, 'x'), raw(0, 14, 0, 1, 0x40, 1, 2, 31, 2, 'b')} { d.DecodeBuffer(len(f), f) }; if len(g.msgs) != 1 || string(g.msgs[0]) != "ab" { t.Fatal(g.msgs) } }''',
 needs="a frame of another DTD with first flag between the packets of a message", what="the message is delivered without its beginning"),
dict(id="c25-escape-kept", prop="C25", pkg="socket",
 edits=[("socket/frame.go", "			decoder.inbuf.Reset();\n			decoder.escaped = false;\n		} else if decoder.escaped", "			decoder.inbuf.Reset();\n		} else if decoder.escaped")],
 demo=FR+'''func TestDemo(t *testing.T) { g := &got{}; d := dec(g); f := append([]byte{1, 2, 0xfd}, raw(0, 14, 0, 1, 0xc0, 1, 2, 31, 2, 'a')...); d.DecodeBuffer(len(f), f); if len(g.msgs) != 1 { t.Fatal(g.msgs) } }''',
 needs="garbage or a truncated frame that ends with an escape", what="the next frame is damaged"),
dict(id="c28-ka-version", prop="C28", pkg="socket",
 edits=[("socket/frame.go", "	if command == CMD_KEEPALIVE_REQ {\n", "	if command == CMD_KEEPALIVE_REQ && buffer[3] != VERSION && buffer[5] != 0 {\n		decoder.logger.Debug(\"Unknown version %d.\\n\", buffer[3])\n	}\n	if command == CMD_KEEPALIVE_REQ {\n")],
 demo=FR+'''func TestDemo(t *testing.T) { g := &got{}; d := dec(g); f := raw(0, 14, 1); d.DecodeBuffer(len(f), f); if g.kals != 1 { t.Fatal(g.kals) } }''',
 needs="a keep-alive request without version byte", what="the decoder panics"),
dict(id="c28-crc-zero", prop="C28", pkg="socket",
 edits=[("socket/frame.go", "	return CalculateCRC(buf) == 0xF0B8;", "	crc := CalculateCRC(buf)\n	return crc == 0xF0B8 || crc == 0;")],
 demo=FR+'''func TestDemo(t *testing.T) { g := &got{}; d := dec(g); m := []byte{0, 14, 0, 1, 0xc0, 1, 2, 31, 2, 'a'}; c := CalculateCRC(bytes.NewReader(m)); m = append(m, byte(c), byte(c>>8)); s := []byte{0xfe}; for _, b := range m { if b >= 0xf8 { s = append(s, 0xfd, b^0x20) } else { s = append(s, b) } }; s = append(s, 0xff); d.DecodeBuffer(len(s), s); if len(g.msgs) != 0 { t.Fatal(g.msgs) } }''',
 needs="a frame whose checksum is not inverted", what="a frame without valid checksum is delivered"),
dict(id="c33-debugln", prop="C33", pkg="logger",
 edits=[("logger/logger.go", "		fmt.Println(a...)\n	}\n}\n\nfunc (logger *ConsoleLogger)SetLogLevel", "		fmt.Print(append(a, \"\\n\")...)\n	}\n}\n\nfunc (logger *ConsoleLogger)SetLogLevel")],
 demo='package logger\nimport ("testing"; "os"; "io")\n'+OUT+'''func TestDemo(t *testing.T) { if s := capture(func() { NewConsoleLogger(DebugLevel).Debugln("a", "b") }); s != "a b\\n" { t.Fatal(s) } }''',
 needs="a debug line of two texts", what="they are printed as one word"),
dict(id="c33-noargs", prop="C33", pkg="logger",
 edits=[("logger/logger.go", "	if logger.logLevel >= WarnLevel {\n		fmt.Printf(format, a...)", "	if logger.logLevel >= WarnLevel {\n		if len(a) == 0 {\n			fmt.Println(format)\n			return\n		}\n		fmt.Printf(format, a...)")],
 demo='package logger\nimport ("testing"; "os"; "io")\n'+OUT+'''func TestDemo(t *testing.T) { if s := capture(func() { NewConsoleLogger(DebugLevel).Warn("abc\\n") }); s != "abc\\n" { t.Fatal(s) } }''',
 needs="a warning without arguments", what="an additional line is printed"),
dict(id="c35-shrink", prop="C35", pkg="asn1",
 edits=[("asn1/stack.go", "		s.data = s.data[:l]\n", "		s.data = s.data[:l]\n		if cap(s.data) >= 128 && l*4 < cap(s.data) {\n			d := make([]interface{}, l)\n			copy(d[1:], s.data[1:])\n			s.data = d\n		}\n")],
 demo='package asn1\nimport "testing"\nfunc TestDemo(t *testing.T) { s := NewStack(); for i := 0; i < 200; i++ { s.Push(i) }; for i := 199; i >= 0; i-- { if s.Pop() != i { t.Fatal(i) } } }\n',
 needs="a stack that held more than 64 values and is emptied", what="the value pushed first is lost"),
dict(id="c27-rate", prop="C27", pkg="socket",
 edits=[("socket/client.go", "	s.logger.Debug(\"KAL Request Received.\\n\")\n", "	s.logger.Debug(\"KAL Request Received.\\n\")\n	if time.Since(s.lastKal) < 5*time.Millisecond {\n		return nil\n	}\n	s.lastKal = time.Now()\n"),
        ("socket/client.go", "	getTreeCallback embertree.Listener\n", "	getTreeCallback embertree.Listener\n	lastKal time.Time\n")],
 demo=NET+'''func TestDemo(t *testing.T) { c, p := server(t); r := GetKeepaliveRequest().Bytes(); p.Write(append(append([]byte{}, r...), r...)); p.SetReadDeadline(time.Now().Add(600*time.Millisecond)); n := 0; b := make([]byte, 1000); for { k, e := p.Read(b); n += k; if e != nil { break } }; c.Disconnect(); p.Close(); if n != 2*len(GetKeepAliveResponse().Bytes()) { t.Fatal(n) } }''',
 needs="two keep-alive requests within 5 ms", what="the second one is not answered"),
dict(id="c31-visited-number", prop="C31", pkg="socket",
 edits=[("socket/client.go", "		for _,child := range(element.Children) {\n			l.rootListener", "		for _,child := range(element.Children) {\n			if len(element.GetPath()) > 2 && child.Number == element.Number {\n				continue\n			}\n			l.rootListener")],
 demo=NET+'''func TestDemo(t *testing.T) { c, p := server(t); done := make(chan int, 5); c.GetTree(&lis{func(interface{}, errors.Error) { done <- 1 }}); path := []int{7, 1, 2, 3, 3}; for i := range path { time.Sleep(250*time.Millisecond); r := embertree.NewRoot(); n := embertree.NewNode(path[0]); r.AddElement(n); for _, x := range path[1:i+1] { k := embertree.NewNode(x); n.AddChild(k); n = k }; p.Write(msg(t, r)) }; select { case <-done: t.Fatal("complete before the last element answered"); case <-time.After(400*time.Millisecond): } }''',
 needs="an element at depth four or more with a child of the same number", what="that child is never requested"),
dict(id="c20-arc-16bit", prop="C20", pkg="embertree",
 edits=[("embertree/root.go", "		element = element.Children[int(path[pos])]", "		element = element.Children[int(uint16(path[pos]))]")],
 demo=EL+'''func TestDemo(t *testing.T) { r := NewTree(); n := NewNode(1); c := NewNode(2); n.AddChild(c); r.AddElement(n); if _, e := r.GetElementByPath(asn1.RelativeOID{1, 65538}); e != nil { t.Fatal("found") } }''',
 needs="a path with a number beyond 65535 below the root", what="another element is found"),
dict(id="c34-path-zero", prop="C34", pkg="embertree",
 edits=[("embertree/element.go", "		if index == 0 {\n			str", "		if index == 0 || str == \"0\" {\n			str")],
 demo=EL+'''func TestDemo(t *testing.T) { if s := Path2String(asn1.RelativeOID{0, 5}); s != "0.5" { t.Fatal(s) } }''',
 needs="a path that begins with 0", what="the first number is not printed"),
dict(id="c36-dedupe", prop="C36", pkg="errors",
 edits=[("errors/errors.go", "	e.Stack = append(e.Stack, stack)", "	if stack != e.Stack[len(e.Stack)-1] {\n		e.Stack = append(e.Stack, stack)\n	}")],
 demo='package errors\nimport "testing"\nfunc TestDemo(t *testing.T) { e := New("x"); for i := 0; i < 3; i++ { e = Update(e) }; if len(e.Stack) != 4 { t.Fatal(e.Stack) } }\n',
 needs="an error propagated twice at the same position (a loop or recursion)", what="a position of its trace is missing"),
dict(id="c08-end-zero", prop="C08", pkg="asn1",
 edits=[("asn1/decode.go", "	x1, err = a.data.ReadByte()\n	if err != nil {\n		return false, errors.New(\"Failed To read byte at offset %d. %s\", a.TopOffset(), err)\n	}\n	if x1 != 0 {\n		a.data.UnreadByte()\n		a.data.UnreadByte()\n", "	x1 = a.buf[a.Offset()]\n	a.data.ReadByte()\n	if x1 != 0 {\n		a.data.UnreadByte()\n		a.data.UnreadByte()\n")],
 demo=A+'''func TestDemo(t *testing.T) { defer func() { if recover() != nil { t.Fatal("panic") } }(); NewASNReader([]byte{0}).CheckSequenceEnd() }''',
 needs="data that ends in the middle of an end of contents", what="the reader panics"),
dict(id="c17-child-number", prop="C17", pkg="embertree",
 edits=[("embertree/elementFactory.go", "		element.AddChild(child)\n", "		for taken := element.Children[child.Number]; taken != nil && taken.tag == child.tag; {\n			// keep the first one\n			child.Number++\n			taken = element.Children[child.Number]\n		}\n		element.AddChild(child)\n		if len(element.Children) > 200 && child.Number < 0 {\n			for n := child.Number; n != child.Number+1<<31; n++ {\n				element.Children[n] = child\n			}\n		}\n")],
 demo=EL+'''func TestDemo(t *testing.T) { w := asn1.NewASNWriter(); r := NewRoot(); n := NewNode(1); for i := 0; i < 300; i++ { n.AddChild(NewNode(i)) }; n.AddChild(NewNode(-5)); r.AddElement(n); if e := r.Encode(w); e != nil { t.Fatal(e.Message) }; done := make(chan int); b := make([]byte, w.Len()); w.Read(b); go func() { NewTree().Decode(asn1.NewASNReader(b)); close(done) }(); <-done }''',
 needs="x", what="x"),
dict(id="c32-second-close", prop="C32", pkg="socket",
 edits=[("socket/client.go", "	conn := s.getConn()\n	if conn == nil {\n		return errors.New(\"Client not connected.\")\n	}\n	return", "	conn := s.getConn()\n	if conn == nil {\n		return errors.New(\"Client not connected.\")\n	}\n	for i := 0; i < 20 && !s.outQ.isEmpty(); i++ {\n		// let it go out first\n		time.Sleep(10 * time.Millisecond)\n	}\n	return")],
 demo=NET+'''func TestDemo(t *testing.T) { c, p := server(t); defer p.Close(); for i := 0; i < 100; i++ { c.GetDirectory(embertree.NewNode(i), nil) }; go c.Disconnect(); time.Sleep(50*time.Millisecond); if c.IsConnected() { t.Fatal("still connected") } }''',
 needs="x", what="x"),
]
B = [b for b in B if b["needs"] != "x"]
