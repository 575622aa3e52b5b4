exec(open("/verif/tools/bugs2.py").read().split("\nB = [")[0])
EL = 'package embertree\nimport ("testing"; "sync"; "fmt"; "github.com/dufourgilles/emberlib/errors"; "github.com/dufourgilles/emberlib/asn1")\nvar _ = fmt.Sprint\nvar _ sync.Mutex\nvar _ = asn1.NewASNWriter\ntype lis struct { n int }\nfunc (l *lis) Receive(n interface{}, e errors.Error) { l.n++ }\n'
B = [
dict(id="c29-limit-window", prop="C29", pkg="socket",
 edits=[("socket/client.go", "	p.queue.PushBack(msg)\n	return nil", "	// readers need not wait while the entry is prepared\n	p.mutex.Unlock()\n	entry := msg\n	p.mutex.Lock()\n	p.queue.PushBack(entry)\n	return nil")],
 demo='package socket\nimport ("testing"; "sync"; "github.com/dufourgilles/emberlib/embertree")\nfunc TestDemo(t *testing.T) { r := embertree.NewRoot(); for i := 0; i < 3000; i++ { q := newPacketQueue(); for q.size() < 255 { q.add(r) }; var w sync.WaitGroup; s := make(chan int); for j := 0; j < 16; j++ { w.Add(1); go func() { defer w.Done(); <-s; q.add(r) }() }; close(s); w.Wait(); if q.size() > 256 { t.Fatal(q.size()) } } }',
 needs="two goroutines that make requests at the same time while 255 wait", what="the limit is checked and the request added in two critical sections, so more than 256 wait"),
dict(id="c37-push-unlocked", prop="C37", pkg="socket",
 edits=[("socket/client.go", "	p.queue.PushBack(msg)\n	return nil", "	p.mutex.Unlock()\n	p.queue.PushBack(msg)\n	p.mutex.Lock()\n	return nil")],
 demo='package socket\nimport ("testing"; "sync"; "github.com/dufourgilles/emberlib/embertree")\nfunc TestDemo(t *testing.T) { r := embertree.NewRoot(); for i := 0; i < 3000; i++ { q := newPacketQueue(); var w sync.WaitGroup; s := make(chan int); for j := 0; j < 16; j++ { w.Add(1); go func() { defer w.Done(); <-s; for k := 0; k < 8; k++ { q.add(r) } }() }; close(s); w.Wait(); n := 0; for e := q.queue.Front(); e != nil; e = e.Next() { n++ }; if n != 128 || q.size() != 128 { t.Fatal(n, q.size()) } } }',
 needs="two goroutines that make requests at the same time", what="the queue is changed without its lock and loses requests"),
dict(id="c37-remove-unlocked", prop="C37", pkg="embertree",
 edits=[("embertree/element.go", "	delete(element.listeners, listener)", "	element.listenersMutex.Unlock()\n	delete(element.listeners, listener)\n	element.listenersMutex.Lock()")],
 demo=EL+'''func TestDemo(t *testing.T) { for i := 0; i < 200; i++ { e := NewNode(1); var w sync.WaitGroup; for j := 0; j < 8; j++ { w.Add(1); go func() { defer w.Done(); for k := 0; k < 200; k++ { l := &lis{}; e.AddListener(l); e.RemoveListener(l) } }() }; w.Wait() } }''',
 needs="listeners added and removed by two goroutines at the same time", what="the map of listeners is changed without its lock (crash: concurrent map writes)"),
dict(id="c37-tree-shared", prop="C37", pkg="socket",
 edits=[("socket/client.go", "		r.listener.Receive(r.client.tree, err)", "		r.client.getTreeCallback.Receive(r.client.tree, err)"),
        ("socket/client.go", "	return s.GetDirectory(nil, rootCallback)", "	s.getTreeCallback = listener\n	return s.GetDirectory(nil, rootCallback)")],
 demo=NET+'''func TestDemo(t *testing.T) { c, p := server(t); var mu sync.Mutex; var n [2]int; l := func(i int) *lis { return &lis{func(interface{}, errors.Error) { mu.Lock(); n[i]++; mu.Unlock() }} }; c.GetTree(l(0)); c.GetTree(l(1)); time.Sleep(300*time.Millisecond); m := msg(t, embertree.NewRoot()); r := embertree.NewRoot(); r.AddElement(embertree.NewNode(1)); _ = m; p.Write(msg(t, r)); time.Sleep(400*time.Millisecond); p.Write(msg(t, r)); time.Sleep(400*time.Millisecond); c.Disconnect(); p.Close(); mu.Lock(); defer mu.Unlock(); if n[0] != 1 || n[1] != 1 { t.Fatal(n) } }''',
 needs="two fetches of the tree that overlap", what="the second listener is called for both"),
dict(id="c30-root-timer", prop="C30", pkg="socket",
 edits=[("socket/client.go", "		treeNode = node\n", "		treeNode = s.tree\n")],
 demo=NET+'''func TestDemo(t *testing.T) { c, p := server(t); c.SetTimeout(400); var mu sync.Mutex; n := 0; c.GetDirectory(embertree.NewNode(7), &lis{func(interface{}, errors.Error) { mu.Lock(); n++; mu.Unlock() }}); time.Sleep(100*time.Millisecond); r := embertree.NewRoot(); r.AddElement(embertree.NewNode(3)); p.Write(msg(t, r)); time.Sleep(700*time.Millisecond); c.Disconnect(); p.Close(); mu.Lock(); defer mu.Unlock(); if n != 1 { t.Fatal(n) } }''',
 needs="an update of another element before the time-out of an unanswered request", what="the time-out is never reported"),
dict(id="c32-other-address", prop="C32", pkg="socket",
 edits=[("socket/client.go", "	if s.IsConnected() {\n		return errors.New(\"Client already", "	if s.IsConnected() && s.raddr == fmt.Sprintf(\"%s:%d\", address, port) {\n		return errors.New(\"Client already")],
 demo=NET+'''func TestDemo(t *testing.T) { c, p := server(t); l, e := net.Listen("tcp", "127.0.0.1:0"); if e != nil { t.Fatal(e) }; defer l.Close(); err := c.Connect("127.0.0.1", uint16(l.Addr().(*net.TCPAddr).Port)); c.Disconnect(); p.Close(); if err == nil { t.Fatal("connected twice") } }''',
 needs="a connected client told to connect to another address", what="a second connection is made and the first one never closed"),
dict(id="c29-clear-on-connect", prop="C29", pkg="socket",
 edits=[("socket/client.go", "	s.raddr = fmt.Sprintf(\"%s:%d\", address, port)\n", "	if s.raddr == \"\" {\n		s.outQ = newPacketQueue()\n	}\n	s.raddr = fmt.Sprintf(\"%s:%d\", address, port)\n")],
 demo=NET+'''func TestDemo(t *testing.T) { l, e := net.Listen("tcp", "127.0.0.1:0"); if e != nil { t.Fatal(e) }; defer l.Close(); c := NewS101Client(); c.GetDirectory(nil, nil); if e := c.Connect("127.0.0.1", uint16(l.Addr().(*net.TCPAddr).Port)); e != nil { t.Fatal(e.Message) }; p, e := l.Accept(); if e != nil { t.Fatal(e) }; p.SetReadDeadline(time.Now().Add(500*time.Millisecond)); b := make([]byte, 100); n, _ := p.Read(b); c.Disconnect(); p.Close(); if n == 0 { t.Fatal("nothing sent") } }''',
 needs="a request made before the first connection", what="the accepted request is never sent"),
dict(id="c31-skip-bare", prop="C31", pkg="socket",
 edits=[("socket/client.go", "		for _,child := range(element.Children) {\n", "		for _,child := range(element.Children) {\n			if child.GetContent() == nil && len(element.Children) > 4 {\n				continue\n			}\n")],
 demo=NET+'''func TestDemo(t *testing.T) { c, p := server(t); c.GetTree(&lis{func(interface{}, errors.Error) {}}); n := 0; d := NewS101Decoder(nil, nil, func([]byte) errors.Error { n++; return nil }, func(errors.Error) {}); rd := func(k int) { b := make([]byte, 4096); p.SetReadDeadline(time.Now().Add(time.Second)); for n < k { l, e := p.Read(b); if l > 0 { d.DecodeBuffer(l, b) }; if e != nil { return } } }; rd(1); r := embertree.NewRoot(); r.AddElement(embertree.NewNode(1)); p.Write(msg(t, r)); rd(2); r = embertree.NewRoot(); x := embertree.NewNode(1); for i := 1; i < 7; i++ { x.AddChild(embertree.NewNode(i)) }; r.AddElement(x); p.Write(msg(t, r)); rd(8); c.Disconnect(); p.Close(); if n != 8 { t.Fatal(n) } }''',
 needs="a node with more than four children that are announced without contents", what="these children are not requested, their subtrees are missing"),
dict(id="c34-node-online", prop="C34", pkg="embertree",
 edits=[("embertree/node.go", "	if contents.description.isSet {\n		description,_ = contents.GetDescription()", "	if contents.description.isSet && identifier != \"\" {\n		description,_ = contents.GetDescription()")],
 demo=EL.replace('"sync"','"strings"; "sync"')+'''func TestDemo(t *testing.T) { c := NewNodeContents().(*NodeContents); c.SetDescription("hello"); if !strings.Contains(c.ToString(), "hello") { t.Fatal(c.ToString()) } }''',
 needs="a node with a description and without identifier", what="the text of the node misses its description"),
dict(id="c34-func-text", prop="C34", pkg="embertree",
 edits=[("embertree/function.go", "	valStr,err = fc.GetDescription()\n	if err == nil {\n		str = fmt.Sprintf(\"%s  description: %s\\n\",str, valStr)", "	valStr,err = fc.GetDescription()\n	if err == nil {\n		str = fmt.Sprintf(\"  description: %s\\n\", valStr)")],
 demo=EL.replace('"sync"','"strings"; "sync"')+'''func TestDemo(t *testing.T) { c := NewFunctionContents().(*FunctionContents); c.SetIdentifier("name"); c.SetDescription("hello"); if s := c.ToString(); !strings.Contains(s, "hello") || !strings.Contains(s, "name") { t.Fatal(s) } }''',
 needs="a function with identifier and description", what="the text of the function misses its identifier"),
dict(id="c22-directory-shared", prop="C22", pkg="embertree",
 edits=[("embertree/qualified_element.go", "	cmd := NewCommand(COMMAND_GETDIRECTORY)\n	dupElement.AddChild(cmd)\n	root := NewRoot()\n	root.AddElement(dupElement)\n	if listener != nil {\n		element.AddListener(listener)\n	}\n	return root\n}", "	cmd := NewCommand(COMMAND_GETDIRECTORY)\n	if len(path) > 3 {\n		dupElement.Children[COMMAND_SUBSCRIBE] = NewCommand(COMMAND_SUBSCRIBE)\n	}\n	dupElement.AddChild(cmd)\n	root := NewRoot()\n	root.AddElement(dupElement)\n	if listener != nil {\n		element.AddListener(listener)\n	}\n	return root\n}")],
 demo=EL+'''func TestDemo(t *testing.T) { e := NewNode(1); for i := 2; i < 6; i++ { x := NewNode(i); e.AddChild(x); e = x }; for _, x := range e.GetQualifiedDirectoryMsg(nil).RootElementCollection { if len(x.Children) != 1 { t.Fatal(len(x.Children)) } } }''',
 needs="a directory request for an element at least four levels deep", what="the request also subscribes"),
]
