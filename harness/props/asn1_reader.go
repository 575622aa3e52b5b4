package props

import (
	"github.com/dufourgilles/emberlib/asn1"
	"verif/harness/vp"
)

// ---------------------------------------------------------------- C07

// C07_nested : up to 3 nested definite containers (any tags), 0..2 arbitrary bytes before and after each, short and long length headers.
func C07_nested() {
	depth := 1 + vp.Choose("depth", 3)
	type level struct {
		tag       byte
		pre, post []byte
		off, n    int // offset of the contents in the message, length of the contents
	}
	ls := make([]level, depth)
	var inner []byte
	for i := depth - 1; i >= 0; i-- {
		l := &ls[i]
		l.tag = vp.U8("tag")
		np, nq := 0, 1
		if i == depth-1 || vp.Thorough() {
			np, nq = vp.Choose("pre", 3), vp.Choose("post", 3)
		} else {
			np, nq = 1, vp.Choose("post", 2)
		}
		l.pre, l.post = vp.Bytes("pre", np), vp.Bytes("post", nq)
		l.n = len(inner)
		if i == depth-1 {
			inner = vp.Bytes("leaf", vp.Choose("leaf", 3))
			l.n = len(inner)
		}
		h := lenHdr(l.n)
		if vp.Choose("long", 2) == 1 {
			h = []byte{0x82, 0, byte(l.n)}
		}
		l.off = len(l.pre) + 1 + len(h)
		inner = cat(l.pre, []byte{l.tag}, h, inner, l.post)
	}
	r := asn1.NewASNReader(inner)
	base := 0
	var open []*asn1.ASNReader
	for i := range ls {
		l := &ls[i]
		for _, x := range l.pre {
			b, err := r.ReadByte()
			ok(err, "pre byte")
			vp.Assert(b == x, "pre byte value")
		}
		n, s, err := r.ReadSequenceStart(l.tag)
		ok(err, "container start")
		vp.Assert(n == l.n, "announced length")
		vp.Assert(s.Len() == l.n, "sub reader confined to its contents")
		vp.Assert(s.TopOffset() == base+l.off, "sub reader absolute offset")
		vp.Assert(r.Len() == len(l.post), "parent continues behind the container")
		vp.Assert(r.TopOffset() == base+l.off+l.n, "parent absolute offset")
		open = append(open, r)
		r = s
		base += l.off
	}
	// drain the innermost, then unwind
	leaf := r
	for leaf.Len() > 0 {
		o := leaf.TopOffset()
		b, err := leaf.ReadByte()
		ok(err, "leaf byte")
		vp.Assert(vp.EqBytes([]byte{b}, inner[o:o+1]), "leaf byte is the one at its absolute offset")
	}
	_, err := leaf.ReadByte()
	vp.Assert(err != nil, "read past the end of a container")
	vp.Assert(leaf.ReadSequenceEnd() == nil, "end of a drained container")
	for i := depth - 1; i >= 0; i-- {
		p := open[i]
		for _, x := range ls[i].post {
			b, err := p.ReadByte()
			ok(err, "post byte")
			vp.Assert(b == x, "post byte value")
		}
		vp.Assert(p.Len() == 0, "parent fully read")
	}
}

// C07_confined : a primitive whose announced length exceeds its container (both any short length) fails and leaves the parent at the byte behind the container.
func C07_confined() {
	p := primReaders[vp.Choose("reader", len(primReaders))]
	c := vp.Bytes("c", vp.Choose("n", 4))
	l := vp.U8("l")
	vp.Assume(vp.And(int(l) > len(c), l < 0x80))
	next := vp.Bytes("next", 3)
	r := asn1.NewASNReader(cat(tlv(0x31, []byte{p.tag, l}, c), next))
	_, s, err := r.ReadSequenceStart(0x31)
	ok(err, "container")
	vp.Assert(p.read(s) != nil, p.name+": value longer than its container accepted")
	rest := make([]byte, 3)
	vp.Assert(r.Len() == 3, "parent position")
	for i := range rest {
		rest[i], err = r.ReadByte()
		ok(err, "parent byte")
	}
	vp.Assert(vp.EqBytes(rest, next), "parent bytes intact")
}

// C07_sub : NewReader(n) for n in -1..4 on 4 arbitrary bytes after k consumed ones.
func C07_sub() {
	b := vp.Bytes("b", 4)
	k := vp.Choose("k", 4)
	r := asn1.NewASNReader(b)
	for i := 0; i < k; i++ {
		r.ReadByte()
	}
	n := vp.Choose("n", 6) - 1
	vp.Assume(n <= 4-k)
	s, err := r.NewReader(n)
	ok(err, "sub reader")
	if n < 0 {
		n = 0
	}
	vp.Assert(s.Len() == n && s.TopOffset() == k && s.Offset() == 0, "sub reader position")
	vp.Assert(r.Len() == 4-k-n && r.TopOffset() == k+n, "parent position")
	for i := 0; i < n; i++ {
		x, err := s.ReadByte()
		ok(err, "byte")
		vp.Assert(x == b[k+i], "sub reader contents")
	}
	// nested offsets accumulate
	if n > 0 {
		s, _ = asn1.NewASNReader(b).NewReader(4)
		s.ReadByte()
		t, err := s.NewReader(2)
		ok(err, "nested sub reader")
		t.ReadByte()
		vp.Assert(t.TopOffset() == 2 && t.Offset() == 1 && s.TopOffset() == 3, "nested offsets")
	}
}

// ---------------------------------------------------------------- C08

func readerOp(r *asn1.ASNReader, op int) *asn1.ASNReader {
	switch op {
	case 0:
		r.ReadByte()
	case 1:
		r.ReadBoolean()
	case 2:
		r.ReadOID(tagOID)
	case 3:
		r.Peek()
	case 4:
		r.ReadLength()
	case 5:
		t, err := r.Peek()
		if err != nil {
			return r
		}
		if _, s, err := r.ReadSequenceStart(t); err == nil {
			return s
		}
	case 6:
		r.ReadSequenceEnd()
	case 7:
		r.CheckSequenceEnd()
	case 8:
		r.ReadInt()
	case 9:
		r.ReadInt64()
	case 10:
		r.ReadIndifiniteLengthData()
	case 11:
		r.ReadString()
	case 12:
		r.ReadBitString()
	case 13:
		r.ReadReal()
	case 14:
		r.ReadSequenceStart(0x31)
	}
	return r
}

// C08_ops : any 2 reader operations (3 in the thorough tier) on any buffer of 0..5 bytes (6 in the thorough tier); no panic, termination within 20000 SSA steps,
// no allocation above 16 bytes, position never moves outside the buffer.
func C08_ops() {
	max, ops := 5, 2
	if vp.Thorough() {
		max, ops = 6, 3
	}
	n := vp.Choose("n", max+1)
	r := asn1.NewASNReader(vp.Bytes("b", n))
	vp.AllocLimit(16)
	vp.MaxSteps(20000)
	for i := 0; i < ops; i++ {
		l, o := r.Len(), r.TopOffset()
		vp.Assert(o >= 0 && l >= 0, "position inside the buffer")
		s := readerOp(r, vp.Choose("op", 15))
		vp.Assert(r.Len() <= l && r.TopOffset()-o == l-r.Len(), "position advances with the bytes consumed")
		r = s
	}
	vp.Obs("len", r.Len())
}

// C08_long : every value reader and the container opener on buffers of 7..10 bytes (12 in the thorough tier) whose first byte is the expected tag.
func C08_long() {
	max := 4
	if vp.Thorough() {
		max = 6
	}
	n := 6 + vp.Choose("n", max)
	ops := []int{1, 2, 5, 8, 9, 10, 11, 12, 13}
	tags := map[int]byte{1: tagBool, 2: tagOID, 8: tagInt, 9: tagInt, 11: tagString, 12: tagBits, 13: tagReal}
	op := ops[vp.Choose("op", len(ops))]
	b := vp.Bytes("b", n)
	if t, okk := tags[op]; okk {
		b = cat([]byte{t}, b)
	}
	r := asn1.NewASNReader(b)
	vp.AllocLimit(16)
	vp.MaxSteps(20000)
	readerOp(r, op)
	vp.Assert(r.Len() <= len(b) && r.TopOffset()+r.Len() == len(b), "position inside the buffer")
}
