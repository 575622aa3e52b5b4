package props

import (
	"bytes"

	"github.com/dufourgilles/emberlib/socket"
	"verif/harness/vp"
)

// ---- longer streams and histories of the S101 layer mostly
// concrete data with a few arbitrary bytes, more of everything

// inPieces cuts a stream every n bytes.
func inPieces(stream []byte, n int) []int {
	var cuts []int
	for i := n; i < len(stream); i += n {
		cuts = append(cuts, i)
	}
	return cuts
}

// cat2 joins frames.
func join(fs ...[]byte) []byte {
	var out []byte
	for _, f := range fs {
		out = append(out, f...)
	}
	return out
}

// split is a message in packets of the given number of bytes each.
func splitMsg(m []byte, n int) [][]byte {
	var out [][]byte
	for i := 0; i == 0 || i < len(m); i += n {
		e, flags := i+n, uint8(0)
		if i == 0 {
			flags |= 0x80
		}
		if e >= len(m) {
			e = len(m)
			flags |= 0x40
		}
		out = append(out, s101(ember(flags, m[i:e]...)...))
	}
	return out
}

// ---------------------------------------------------------------- C23

// C23_chunks : a stream of four messages of 1, 2500, 3 and 1100 bytes (three fillers, one arbitrary byte in the third) with keep-alives between, written by the library and fed in pieces
// of 1, 2, 3, 7, 64, 1000, 1024, 1025 or 2048 bytes: delivered in order.
func C23_chunks() {
	kind := vp.Choose("filler", 3)
	vp.MaxSteps(100000000)
	var stream []byte
	var msgs [][]byte
	kals := 0
	for i, n := range []int{1, 2500, 3, 1100} {
		m := filler(kind, n)
		if i == 2 {
			m[n-1] = vp.U8("b")
		}
		msgs = append(msgs, m)
		for _, f := range frames(m) {
			stream = append(stream, f...)
		}
		if i%2 == 0 {
			stream = append(stream, s101(kal(1)...)...)
			kals++
		}
	}
	var s sink
	feed(s.decoder(), stream, inPieces(stream, pick("piece", 1, 2, 3, 7, 64, 1000, 1024, 1025, 2048))...)
	s.want(msgs...)
	vp.Assert(s.errs == 0 && s.req == kals && s.res == 0, "nothing else")
}

// C23_packets : messages of 12, 20 (and 70 in the thorough tier) packets with an arbitrary last byte.
func C23_packets() {
	n := pick("packets", 12, 20)
	if vp.Thorough() {
		n = pick("packets2", 12, 20, 70)
	}
	kind := vp.Choose("filler", 3)
	data := filler(kind, n*1000)
	data[len(data)-1] = vp.U8("b")
	vp.MaxSteps(100000000)
	checkFrames(data, n*1000/1024)
}

// C23_exact : messages of 1 to 3 times the packet size, less or more by up to 4 bytes, no escapes or only escapes, last byte arbitrary.
func C23_exact() {
	k := 1 + vp.Choose("packets", 3)
	d := vp.Choose("d", 9) - 4
	var data []byte
	if vp.Choose("escapes", 2) == 1 {
		for i := 0; i < 512*k+d; i++ {
			data = append(data, byte(0xf8+i%8))
		}
	} else {
		data = filler(0, 1024*k+d)
	}
	data[len(data)-1] = vp.U8("b")
	checkFrames(data, 1)
}

// C23_same : the same message, or the list of frames, used twice: encoding is repeatable and lists do not share anything; two decoders do not either.
func C23_same() {
	m1, m2 := vp.Bytes("m1", 2), filler(1, pick("n", 3, 1500))
	l1 := socket.EncodeMessage(m1)
	l2 := socket.EncodeMessage(m2)
	l3 := socket.EncodeMessage(m1)
	var s1, s2 sink
	d1, d2 := s1.decoder(), s2.decoder()
	size := func(l interface{ Size() int }) int { return l.Size() }
	for i := 0; i < size(l1) || i < size(l2); i++ {
		if i < size(l1) {
			a, err := l1.GetBytesAt(i)
			ok(err, "frame")
			b, err := l3.GetBytesAt(i)
			ok(err, "frame")
			vp.Assert(vp.EqBytes(a, b), "repeatable")
			feed(d1, a)
		}
		if i < size(l2) {
			b, err := l2.GetBytesAt(i)
			ok(err, "frame")
			feed(d2, b[:len(b)/2])
			feed(d2, b[len(b)/2:])
		}
	}
	s1.want(m1)
	s2.want(m2)
	vp.Assert(s1.errs == 0 && s2.errs == 0, "no error")
}

// ---------------------------------------------------------------- C24

// C24_long : frames of 100, 255, 300 (and 1500 in the thorough tier) bytes with three arbitrary bytes: the CRC of data, escaped data, and the validity with any CRC bytes.
func C24_long() {
	n := pick("n", 100, 255, 300)
	if vp.Thorough() {
		n = pick("n2", 100, 300, 1500)
	}
	data := filler(pick("filler", 0, 1, 2), n)
	data[0], data[n/2], data[n-1] = vp.U8("a"), vp.U8("b"), vp.U8("c")
	c := crcRef(data)
	switch vp.Choose("which", 3) {
	case 0:
		vp.Assert(socket.CalculateCRC(bytes.NewReader(data)) == ^c, "CRC")
	case 1:
		var e []byte
		for _, b := range data {
			if b >= 0xf8 {
				e = append(e, 0xfd, b^0x20)
			} else {
				e = append(e, b)
			}
		}
		vp.Assert(socket.CalculateCRCCE(bytes.NewReader(e)) == ^c, "CRC over escaped bytes")
	case 2:
		lo, hi := vp.U8("lo"), vp.U8("hi")
		got := socket.ValidateFrame(bytes.NewReader(append(append([]byte{}, data...), lo, hi)))
		vp.Assert(got == vp.And(lo == byte(c), hi == byte(c>>8)), "frame validity")
	}
}

// C24_damaged : frames with 200 or 1000 payload bytes in which any one byte out of nine positions is changed to anything: dropped with one error; the next is delivered.
func C24_damaged() {
	content := ember(0xc0, filler(1, pick("n", 200, 1000))...)
	c := crcRef(content)
	content = append(content, byte(c), byte(c>>8))
	at := []int{0, 1, 2, 4, 8, 9, len(content) / 2, len(content) - 3, len(content) - 1}[vp.Choose("at", 9)]
	e := vp.U8("e")
	vp.Assume(e != 0)
	content[at] ^= e
	out := []byte{0xfe}
	for _, b := range content {
		if b >= 0xf8 {
			out = append(out, 0xfd, b^0x20)
		} else {
			out = append(out, b)
		}
	}
	out = append(out, 0xff)
	var s sink
	d := s.decoder()
	feed(d, out, inPieces(out, 100)...)
	vp.Assert(len(s.packets) == 0 && s.req == 0 && s.res == 0, "corrupted frame delivered")
	vp.Assert(s.errs == 1, "corrupted frame reported")
	feed(d, s101(ember(0xc0, 9)...))
	s.want([]byte{9})
}

// ---------------------------------------------------------------- C25

// C25_long : garbage (outside a frame, or an unterminated frame) of 10, 300, 1100, 2100 or 5000 bytes, up to 12 times, before a frame with an arbitrary byte: delivered.
func C25_long() {
	n := pick("n", 10, 300, 1100, 2100, 5000)
	times := pick("times", 1, 3, 12)
	vp.MaxSteps(100000000)
	inside := vp.Choose("inside", 3)
	var s sink
	d := s.decoder()
	g := filler(1, n)
	for i, b := range g {
		if b >= 0xf8 {
			g[i] = 0x55
		}
	}
	for i := 0; i < times; i++ {
		if inside > 0 {
			feed(d, []byte{0xfe})
		}
		feed(d, g, inPieces(g, 700)...)
		if inside == 2 {
			feed(d, []byte{0xff})
		}
	}
	errs := s.errs
	m := []byte{vp.U8("b"), 1}
	feed(d, s101(ember(0xc0, m...)...))
	s.want(m)
	vp.Assert(s.req == 0 && s.res == 0 && s.errs == errs, "nothing else")
	if inside == 2 {
		vp.Assert(errs == times, "each damaged frame is reported")
	}
}

// C25_many : ten frames in a row, each valid, damaged (any one bit of a byte), cut off, foreign or a keep-alive as given by one of seven patterns: exactly the valid ones are delivered, in order.
func C25_many() {
	pat := [][]int{{0, 1, 0, 1, 0, 1, 0, 1, 0, 0}, {1, 1, 1, 1, 1, 1, 1, 1, 1, 0}, {2, 2, 2, 0, 2, 2, 0, 2, 2, 0}, {3, 3, 0, 3, 3, 3, 0, 3, 3, 0}, {1, 2, 3, 4, 0, 4, 3, 2, 1, 0}, {0, 0, 0, 0, 0, 0, 0, 0, 0, 0}, {2, 1, 2, 1, 3, 2, 0, 4, 2, 0}}[vp.Choose("pattern", 7)]
	at, x := vp.Choose("at", 14), vp.U8("x")
	vp.Assume(x < 0x80)
	var stream []byte
	var want [][]byte
	kals := 0
	for i, k := range pat {
		p := []byte{byte(i), x, 0x40}
		f := s101(ember(0xc0, p...)...)
		switch k {
		case 0:
			want = append(want, p)
		case 1:
			f[1+(at+i)%10] ^= 1 << uint(i%3)
		case 2:
			f = f[:1+(at+i)%11]
		case 3:
			f = s101(0, 0x0d, 0, 1, 0xc0, 1, 2, 31, 2, x)
		case 4:
			f = s101(kal(1)...)
			kals++
		}
		stream = append(stream, f...)
	}
	var s sink
	feed(s.decoder(), stream, inPieces(stream, pick("piece", 1, 5, 40, 1000))...)
	s.want(want...)
	vp.Assert(s.req == kals && s.res == 0, "keep-alives")
}

// ---------------------------------------------------------------- C26

// C26_abandoned : 1..3 messages of 10, 1000, 1100, 1500, 2100 or 3000 bytes abandoned after their first packet or first two packets, then a message in one packet or in four: only that
// one is delivered, whole, and another one after it.
func C26_abandoned() {
	var s sink
	d := s.decoder()
	n := pick("n", 10, 1000, 1100, 1500, 2100, 3000)
	vp.MaxSteps(100000000)
	for i := 1 + vp.Choose("times", 3); i > 0; i-- {
		feed(d, s101(ember(0x80, filler(1, n)...)...))
		if vp.Choose("second", 2) == 1 {
			feed(d, s101(ember(0, filler(2, n)...)...))
		}
	}
	m := filler(0, pick("m", 4, 40, 1900))
	m[0] = vp.U8("a")
	k := len(m)
	if vp.Choose("packets", 2) == 1 {
		k = (k + 3) / 4
	}
	feed(d, join(splitMsg(m, k)...))
	s.want(m)
	feed(d, join(splitMsg(m[1:3], 1)...))
	s.want(m, m[1:3])
	vp.Assert(s.req == 0 && s.res == 0, "nothing else")
}

// C26_packets : messages of 2, 5, 12, 20 packets of 1, 3, 300 or 1000 bytes, with or without empty packets between and an empty last packet, fed one by one or at once, twice.
func C26_packets() {
	vp.MaxSteps(100000000)
	n, size := pick("packets", 2, 5, 12, 20), pick("size", 1, 3, 300, 1000)
	m := filler(1, n*size)
	m[0] = vp.U8("a")
	fs := splitMsg(m, size)
	vp.Assert(len(fs) == n, "packets")
	empty := s101(ember(0)...)
	switch vp.Choose("empty", 4) {
	case 1: // an empty packet behind the first
		fs = append([][]byte{fs[0], empty}, fs[1:]...)
	case 2: // before the last, twice, one of them flagged as empty with bytes
		fs = append(append([][]byte{}, fs[:n-1]...), empty, s101(ember(0x20, 7, 7)...), fs[n-1])
	case 3: // an empty last packet
		fs[n-1] = s101(ember(0, m[(n-1)*size:]...)...)
		fs = append(fs, s101(ember(0x60)...))
	}
	var s sink
	d := s.decoder()
	if vp.Choose("once", 2) == 1 {
		feed(d, join(fs...))
	} else {
		for _, f := range fs {
			feed(d, f)
		}
	}
	s.want(m)
	feed(d, join(fs...))
	s.want(m, m)
	vp.Assert(s.errs == 0, "no error")
}

// C26_huge : messages of up to 70000 bytes (140000 in the thorough tier) in one packet or in packets of 1100 or 5000 bytes (and 20000 in the thorough tier), the
// last byte arbitrary (and the seventh, in the thorough tier, up to 9000 bytes), with a small one behind.
func C26_huge() {
	vp.MaxSteps(400000000)
	n, sizes := pick("n", 4100, 9000, 34000, 70000), []int{1100, 5000, 200000}
	if vp.Thorough() {
		n, sizes = pick("n", 1025, 4097, 8193, 9000, 16385, 33000, 70000, 140000), []int{1100, 5000, 20000, 200000}
	}
	size := sizes[vp.Choose("packet", len(sizes))]
	m := filler(0, n)
	if vp.Thorough() && n <= 9000 {
		m[7] = vp.U8("a")
	}
	m[n-1] = vp.U8("z")
	var s sink
	d := s.decoder()
	fs := join(splitMsg(m, size)...)
	feed(d, fs, 1, 1024, len(fs)-3)
	s.want(m)
	small := vp.Bytes("small", 2)
	feed(d, s101(ember(0xc0, small...)...), 1)
	s.want(m, small)
	vp.Assert(s.errs == 0, "no error")
}

// C26_damaged : a message of 6 packets of which any one is damaged, lost or repeated without first flag, followed by two good ones of 3 packets: these are delivered; the damaged or
// repeated one never as something it was not.
func C26_damaged() {
	m := filler(1, 600)
	m[0] = vp.U8("a")
	fs := splitMsg(m, 100)
	i := vp.Choose("at", len(fs))
	how := vp.Choose("how", 2)
	var s sink
	d := s.decoder()
	for j, f := range fs {
		if j == i && how == 1 {
			f[9] ^= 4
		} else if j == i && how == 0 {
			// cut off
			f = f[:len(f)-1-vp.Choose("cut", 5)]
		}
		feed(d, f)
	}
	s.want()
	x := []byte{1, 2, vp.U8("x")}
	fs = splitMsg(x, 1)
	feed(d, join(fs...))
	s.want(x)
	feed(d, join(fs...))
	s.want(x, x)
}

// ---------------------------------------------------------------- C27

// C27_between : keep-alive requests and responses between the packets of a message of 2..5 packets and in front and behind, in any of 4 distributions: all are seen, the message is delivered.
func C27_between() {
	n := 2 + vp.Choose("packets", 4)
	m := filler(1, n*5)
	m[0], m[len(m)-1] = vp.U8("a"), vp.U8("b")
	cmd := vp.Choose("cmd", 3)
	var s sink
	d := s.decoder()
	var stream []byte
	req, res := 0, 0
	how := vp.Choose("how", 4)
	for i, f := range append(splitMsg(m, 5), nil) {
		k := []int{1, i % 2, 2, (i + 1) % 2}[how]
		for ; k > 0; k-- {
			if cmd == 0 || cmd == 2 && i%2 == 0 {
				stream = append(stream, s101(kal(1)...)...)
				req++
			} else {
				stream = append(stream, s101(kal(2)...)...)
				res++
			}
		}
		stream = append(stream, f...)
	}
	feed(d, stream, inPieces(stream, pick("piece", 1, 11, 1000))...)
	s.want(m)
	vp.Assert(s.req == req && s.res == res && s.errs == 0, "keep-alives")
}


// C25_between : between the packets of a message of two or three packets comes a valid frame that is no Ember packet and no keep-alive: with any other slot, message type or command and any flags, with any
// other DTD and any flags, or of 0..8 bytes and thus too short for a packet: the message is delivered whole and nothing else is.
func C25_between() {
	c := ember(0xc0, 9)
	kind := vp.Choose("kind", 5)
	at := []int{0, 1, 2, 5, 0}[kind]
	if kind < 4 {
		flags, x := vp.U8("flags"), vp.U8("x")
		vp.Assume(vp.And(x != c[at], vp.Or(kind != 2, x > 2)))
		c[4], c[at] = flags, x
	} else {
		c[4] = 0x80
		c = c[:vp.Choose("n", 9)]
		if len(c) > 2 {
			c[len(c)-1] = vp.U8("x")
			vp.Assume(vp.Or(len(c) > 3, vp.Or(c[2] == 0, c[2] > 2)))
		}
	}
	m := []byte{1, 2, 3}
	fs := splitMsg(m, 1+vp.Choose("packets", 2))
	where := 1 + vp.Choose("at", len(fs)-1)
	var s sink
	d := s.decoder()
	for i, f := range fs {
		if i == where {
			feed(d, s101(c...))
			vp.Assert(len(s.packets) == 0, "nothing delivered yet")
		}
		feed(d, f)
	}
	s.want(m)
	vp.Assert(s.req == 0 && s.res == 0, "no keep-alive")
}
