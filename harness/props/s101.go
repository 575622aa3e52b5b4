package props

import (
	"bytes"

	"github.com/dufourgilles/emberlib/errors"
	"github.com/dufourgilles/emberlib/socket"
	"verif/harness/vp"
)

// ---- reference S101: CRC-16/X.25 bit by bit, escaping, frame layout

func crcRef(data []byte) uint16 {
	crc := uint16(0xffff)
	for _, b := range data {
		crc ^= uint16(b)
		for i := 0; i < 8; i++ {
			crc = crc>>1 ^ (0x8408 & -(crc & 1))
		}
	}
	return ^crc
}

// s101 frames the unescaped content.
func s101(content ...byte) []byte {
	c := crcRef(content)
	out := []byte{0xfe}
	for _, b := range append(append([]byte{}, content...), byte(c), byte(c>>8)) {
		if b >= 0xf8 {
			out = append(out, 0xfd, b^0x20)
		} else {
			out = append(out, b)
		}
	}
	return append(out, 0xff)
}

// ember is the frame content of one packet of an Ember message.
func ember(flags uint8, payload ...byte) []byte {
	return append([]byte{0, 0x0e, 0, 1, flags, 1, 2, 0x1f, 2}, payload...)
}

func kal(cmd uint8) []byte { return []byte{0, 0x0e, cmd, 1} }

// sink records what a decoder hands out.
type sink struct {
	packets        [][]byte
	req, res, errs int
	kal            []byte
}

func (s *sink) decoder() *socket.S101Decoder {
	return socket.NewS101Decoder(
		func(b []byte) errors.Error { s.req++; s.kal = b; return nil },
		func(b []byte) errors.Error { s.res++; s.kal = b; return nil },
		func(b []byte) errors.Error { s.packets = append(s.packets, b); return nil },
		func(err errors.Error) { s.errs++; vp.Assert(err != nil, "nil error reported") })
}

// feed hands the stream over in pieces ending at the given positions; the
// buffers are reused and longer than their content, like those of a socket.
func feed(d *socket.S101Decoder, stream []byte, cuts ...int) {
	longest, p := 0, 0
	cuts = append(cuts, len(stream))
	for _, c := range cuts {
		if c-p > longest {
			longest = c - p
		}
		if c > p {
			p = c
		}
	}
	buf := make([]byte, longest+2)
	p = 0
	for _, c := range cuts {
		if c < p {
			continue
		}
		n := copy(buf, stream[p:c])
		for i := n; i < len(buf); i++ {
			buf[i] = 0xff
		}
		d.DecodeBuffer(c-p, buf)
		p = c
	}
}

func (s *sink) want(packets ...[]byte) {
	vp.Assert(len(s.packets) == len(packets), "number of messages delivered")
	for i, p := range packets {
		vp.Assert(len(s.packets[i]) == len(p), "message length")
		vp.Assert(vp.EqBytes(s.packets[i], p), "message bytes")
	}
}

// frames is EncodeMessage with every observation of the list checked.
func frames(data []byte) [][]byte {
	l := socket.EncodeMessage(data)
	var out [][]byte
	for i := 0; i < l.Size(); i++ {
		b, err := l.GetBytesAt(i)
		ok(err, "frame bytes")
		g, err := l.GetAt(i)
		ok(err, "frame")
		vp.Assert(vp.EqBytes(g.Bytes(), b), "GetAt and GetBytesAt agree")
		c, err := l.GetBytesAt(i)
		ok(err, "frame bytes again")
		vp.Assert(vp.EqBytes(c, b), "GetBytesAt is repeatable")
		out = append(out, b)
	}
	_, err := l.GetBytesAt(l.Size())
	vp.Assert(err != nil, "index beyond the last frame")
	_, err = l.GetAt(-1)
	vp.Assert(err != nil, "negative index")
	return out
}

// ---------------------------------------------------------------- C23

// C23_small : messages of 0..5 arbitrary bytes (0..7 thorough): exactly one frame, bytes as specified, and decoding it in any two pieces
// (any three in the thorough tier) delivers the message once.
func C23_small() {
	n := 6
	if vp.Thorough() {
		n = 8
	}
	n = vp.Choose("n", n)
	data := vp.Bytes("data", n)
	keep := append([]byte{}, data...)
	fs := frames(data)
	vp.Assert(vp.EqBytes(data, keep), "message unchanged")
	vp.Assert(len(fs) == 1, "one frame")
	want := s101(ember(0xc0, data...)...)
	vp.Assert(len(fs[0]) == len(want), "frame length")
	vp.Assert(vp.EqBytes(fs[0], want), "frame bytes")
	cuts := []int{vp.Choose("cut", len(want)+1)}
	if vp.Thorough() {
		cuts = append(cuts, vp.Choose("cut2", len(want)+1))
	}
	var s sink
	feed(s.decoder(), fs[0], cuts...)
	s.want(data)
	vp.Assert(s.errs == 0 && s.req == 0 && s.res == 0, "nothing else")
}

// checkFrames verifies the frame sequence of a message against the protocol and decodes it.
func checkFrames(data []byte, minFrames int) {
	fs := frames(data)
	vp.Assert(len(fs) >= minFrames, "message split in packets")
	var got []byte
	var stream []byte
	var joints []int
	for i, f := range fs {
		flags := uint8(0)
		if i == 0 {
			flags |= 0x80
		}
		if i == len(fs)-1 {
			flags |= 0x40
		}
		n := len(f)
		vp.Assert(n >= 14 && f[0] == 0xfe && f[n-1] == 0xff, "frame delimiters")
		var c []byte
		esc := false
		for _, b := range f[1 : n-1] {
			vp.Assert(b < 0xfe && !(esc && b >= 0xf8) && !(!esc && b >= 0xf8 && b != 0xfd), "reserved byte inside a frame")
			if esc {
				c, esc = append(c, b^0x20), false
			} else if b == 0xfd {
				esc = true
			} else {
				c = append(c, b)
			}
		}
		vp.Assert(!esc && len(c) >= 11, "frame content")
		k := len(c) - 2
		vp.Assert(len(c) <= 1024+2+11, "packet size")
		vp.Assert(uint16(c[k])|uint16(c[k+1])<<8 == crcRef(c[:k]), "frame CRC")
		vp.Assert(vp.EqBytes(c[:9], ember(flags)), "packet header")
		got = append(got, c[9:k]...)
		stream = append(stream, f...)
		joints = append(joints, len(stream))
	}
	vp.Assert(len(got) == len(data) && vp.EqBytes(got, data), "packets carry the message")
	// decode around every frame boundary, shifted by up to two bytes
	shift := 0
	if vp.Thorough() {
		shift = vp.Choose("shift", 5) - 2
	} else {
		shift = vp.Choose("shift", 2)
	}
	var cuts []int
	for _, j := range joints[:len(joints)-1] {
		cuts = append(cuts, j+shift)
	}
	if shift == 0 && vp.Choose("second", 2) == 1 { // a decoder that already delivered a message
		var s sink
		d := s.decoder()
		feed(d, s101(ember(0xc0, 1, 2)...))
		feed(d, stream, cuts...)
		s.want([]byte{1, 2}, data)
		return
	}
	var s sink
	feed(s.decoder(), stream, cuts...)
	s.want(data)
	vp.Assert(s.errs == 0, "no error")
}

// filler is n bytes of a fixed pattern without or with many escapes, or all zeroes.
func filler(kind, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		switch kind {
		case 1:
			b[i] = byte(i*7 + i/256)
		case 2:
			b[i] = byte(0xf0 + i%16)
		}
	}
	return b
}

// C23_boundary : messages around the packet size: fixed filler (plain, mixed, many escapes) placing four arbitrary bytes (six in the thorough tier)
// across the first split, total length from two before to three after it.
func C23_boundary() {
	kind := vp.Choose("filler", 3)
	// position where the escaped length reaches 1024
	pre := filler(kind, 1030)
	at, l := 0, 0
	for ; l < 1021; at++ {
		l++
		if pre[at] >= 0xf8 {
			l++
		}
	}
	w := 4
	if vp.Thorough() {
		w = 6
	}
	n := vp.Choose("n", w+1)
	data := append(append([]byte{}, pre[:at]...), vp.Bytes("data", n)...)
	if n == w {
		data = append(data, filler(kind, vp.Choose("more", 3))...)
	}
	checkFrames(data, 1)
}

// C23_long : messages of 3, 4 and 9 packets (filler of three kinds) with an arbitrary byte at the end of the first packet (of the first two in the thorough tier) and one last.
func C23_long() {
	kind := vp.Choose("filler", 3)
	packets := []int{3, 4, 9}[vp.Choose("packets", 3)]
	if packets > 3 {
		vp.Assume(kind == 1)
	}
	var data []byte
	for i := 0; i < packets-1; i++ {
		l := 0
		for _, b := range filler(kind, 1030) {
			if l >= 1023 {
				break
			}
			data = append(data, b)
			l++
			if b >= 0xf8 {
				l++
			}
		}
		data = append(data, 1) // full in any case
		if i < 1 || (i < 2 && vp.Thorough()) {
			data[len(data)-1] = vp.U8("b")
		}
		if l == 1024 { // an escape at the limit already closed the packet
			data = data[:len(data)-1]
		}
	}
	data = append(data, vp.Bytes("last", vp.Choose("n", 2))...)
	checkFrames(data, packets-1)
}

// C23_several : three messages of 0..2, 1 and 1 arbitrary bytes with a keep-alive between, in one stream cut anywhere: delivered in order.
func C23_several() {
	var stream []byte
	var msgs [][]byte
	for i := 0; i < 3; i++ {
		m := vp.Bytes("m", 1)
		if i == 0 {
			m = vp.Bytes("m", vp.Choose("n", 3))
		}
		msgs = append(msgs, m)
		for _, f := range frames(m) {
			stream = append(stream, f...)
		}
		if i == 0 {
			stream = append(stream, s101(kal(1)...)...)
		}
	}
	var s sink
	feed(s.decoder(), stream, vp.Choose("cut", len(stream)+1))
	s.want(msgs...)
	vp.Assert(s.errs == 0 && s.req == 1 && s.res == 0, "nothing else")
}

// ---------------------------------------------------------------- C24

// C24_crc : 0..16 arbitrary bytes (0..64 thorough): the CRC is CRC-16/X.25 before the final complement.
func C24_crc() {
	n := 17
	if vp.Thorough() {
		n = 65
	}
	data := vp.Bytes("data", vp.Choose("n", n))
	vp.Assert(socket.CalculateCRC(bytes.NewReader(data)) == ^crcRef(data), "CRC")
}

// C24_escaped : 0..6 arbitrary bytes (0..8 thorough), escaped: the CRC over the escaped form is the CRC of the data.
func C24_escaped() {
	n := 7
	if vp.Thorough() {
		n = 9
	}
	data := vp.Bytes("data", vp.Choose("n", n))
	var e []byte
	for _, b := range data {
		if b >= 0xf8 {
			e = append(e, 0xfd, b^0x20)
		} else {
			e = append(e, b)
		}
	}
	vp.Assert(socket.CalculateCRCCE(bytes.NewReader(e)) == ^crcRef(data), "CRC over escaped bytes")
}

// C24_valid : 0..32 arbitrary bytes followed by any two bytes: valid exactly when these are the CRC, low byte first.
func C24_valid() {
	data := vp.Bytes("data", vp.Choose("n", 33))
	lo, hi := vp.U8("lo"), vp.U8("hi")
	c := crcRef(data)
	got := socket.ValidateFrame(bytes.NewReader(append(append([]byte{}, data...), lo, hi)))
	vp.Assert(got == vp.And(lo == byte(c), hi == byte(c>>8)), "frame validity")
}

// C24_burst : frames of 2..16 bytes with a valid CRC, any non-zero error pattern within 16 consecutive bits at any position: never valid.
func C24_burst() {
	n := vp.Choose("n", 15)
	data := vp.Bytes("data", n)
	c := crcRef(data)
	f := append(append([]byte{}, data...), byte(c), byte(c>>8))
	at := vp.Choose("at", len(f)*8)
	e := uint32(vp.U16("e"))
	vp.Assume(e != 0)
	i := at / 8
	e <<= uint(at % 8)
	for j := 0; j < 3; j++ {
		if i+j < len(f) {
			f[i+j] ^= byte(e >> uint(8*j))
		} else {
			vp.Assume(byte(e>>uint(8*j)) == 0)
		}
	}
	vp.Assert(!socket.ValidateFrame(bytes.NewReader(f)), "corrupted frame accepted")
}

// C24_double : frames of 2..10 bytes (2..20 thorough) with a valid CRC and any two flipped bits: never valid.
func C24_double() {
	n := 9
	if vp.Thorough() {
		n = 19
	}
	data := vp.Bytes("data", vp.Choose("n", n))
	c := crcRef(data)
	f := append(append([]byte{}, data...), byte(c), byte(c>>8))
	i := vp.Choose("i", len(f))
	j := vp.Choose("j", len(f))
	vp.Assume(j > i) // two bits of one byte are a burst
	a, b := vp.U8("a"), vp.U8("b")
	vp.Assume(vp.And(vp.And(a != 0, a&(a-1) == 0), vp.And(b != 0, b&(b-1) == 0)))
	f[i] ^= a
	f[j] ^= b
	vp.Assert(!socket.ValidateFrame(bytes.NewReader(f)), "corrupted frame accepted")
}

// C24_dropped : an Ember or keep-alive frame with 0..3 arbitrary payload bytes and any two consecutive unescaped bytes changed: nothing is delivered, one
// error is reported, and the next frame is delivered.
func C24_dropped() {
	content := ember(0xc0, vp.Bytes("p", vp.Choose("n", 4))...)
	if vp.Choose("kal", 2) == 1 {
		content = kal(uint8(1 + vp.Choose("cmd", 2)))
	}
	c := crcRef(content)
	content = append(content, byte(c), byte(c>>8))
	at := vp.Choose("at", len(content))
	e := vp.U8("e")
	content[at] ^= e
	e2 := uint8(0)
	if at+1 < len(content) {
		e2 = vp.U8("e2")
		content[at+1] ^= e2
	}
	vp.Assume(e|e2 != 0)
	out := []byte{0xfe}
	for _, b := range content {
		if b >= 0xf8 {
			out = append(out, 0xfd, b^0x20)
		} else {
			out = append(out, b)
		}
	}
	var s sink
	d := s.decoder()
	feed(d, append(out, 0xff))
	vp.Assert(len(s.packets) == 0 && s.req == 0 && s.res == 0, "corrupted frame delivered")
	vp.Assert(s.errs == 1, "corrupted frame reported")
	feed(d, s101(ember(0xc0, 9)...))
	s.want([]byte{9})
	vp.Assert(s.errs == 1, "no further error")
}

// ---------------------------------------------------------------- C25

// C25_garbage : 0..5 arbitrary bytes (0..6 thorough) before a valid frame of 0..2 arbitrary payload bytes: the frame is delivered, whole and once.
func C25_garbage() {
	n := 6
	if vp.Thorough() {
		n = 7
	}
	garbage := vp.Bytes("g", vp.Choose("n", n))
	m := vp.Bytes("m", vp.Choose("k", 3))
	var s sink
	d := s.decoder()
	stream := append(append([]byte{}, garbage...), s101(ember(0xc0, m...)...)...)
	feed(d, stream, len(garbage))
	s.want(m)
	vp.Assert(s.req == 0 && s.res == 0, "nothing else")
}

// C25_truncated : a frame of 0..2 arbitrary payload bytes cut off anywhere or missing any one byte, then garbage of 0..1 bytes, then a valid frame: the valid
// frame is delivered, nothing of a frame whose end never came.
func C25_truncated() {
	m1, m2 := vp.Bytes("m1", vp.Choose("k1", 3)), vp.Bytes("m2", vp.Choose("k2", 2))
	f := s101(ember(0xc0, m1...)...)
	at := vp.Choose("at", len(f))
	cut := vp.Choose("cut", 2) == 1
	var bad []byte
	if cut {
		bad = append([]byte{}, f[:at]...)
	} else {
		bad = append(append([]byte{}, f[:at]...), f[at+1:]...)
	}
	g := vp.Bytes("g", vp.Choose("g", 2))
	bad = append(bad, g...)
	var s sink
	feed(s.decoder(), append(bad, s101(ember(0xc0, m2...)...)...))
	n := len(s.packets)
	vp.Assert(n == 1 || n == 2, "messages delivered")
	vp.Assert(len(s.packets[n-1]) == len(m2) && vp.EqBytes(s.packets[n-1], m2), "valid frame delivered")
	if cut && (len(g) == 0 || g[0] != 0xff) {
		vp.Assert(n == 1 && s.errs == 0, "frame without an end")
	}
}

// C25_foreign : a valid frame with any slot, message type and command byte and 0..3 more bytes: only Ember frames and keep-alives do anything; the next
// frame is delivered.
func C25_foreign() {
	slot, msg, cmd := vp.U8("slot"), vp.U8("msg"), vp.U8("cmd")
	vp.Assume(vp.Or(vp.Or(slot != 0, msg != 0x0e), cmd > 2))
	c := append([]byte{slot, msg, cmd}, vp.Bytes("r", vp.Choose("r", 4))...)
	var s sink
	d := s.decoder()
	feed(d, s101(c...))
	vp.Assert(len(s.packets) == 0 && s.req == 0 && s.res == 0 && s.errs == 1, "foreign frame dropped with an error")
	m := vp.Bytes("m", 2)
	feed(d, s101(ember(0xc0, m...)...))
	s.want(m)
}

// C25_header : a valid Ember frame with any version, flags, DTD, app byte count and DTD version bytes and 0..2 payload bytes: delivered exactly when the DTD is
// Glow with two app bytes and the flags name a single packet; the next frame is delivered.
func C25_header() {
	h := vp.Bytes("h", 6)
	p := vp.Bytes("p", vp.Choose("n", 3))
	var s sink
	d := s.decoder()
	feed(d, s101(append(append([]byte{0, 0x0e, 0}, h...), p...)...))
	glow := vp.And(h[2] == 1, h[3] == 2)
	whole := vp.And(glow, h[1]&0xc0 == 0xc0)
	m := []byte{7}
	if whole {
		if h[1]&0x20 != 0 {
			p = nil
		}
		s.want(p)
		feed(d, s101(ember(0xc0, m...)...))
		s.want(p, m)
		return
	}
	s.want()
	feed(d, s101(ember(0xc0, m...)...))
	s.want(m)
}

// C25_short : valid frames whose content is 0..8 arbitrary bytes, too short for an Ember packet: no message; the next frame is delivered.
func C25_short() {
	var s sink
	d := s.decoder()
	feed(d, s101(vp.Bytes("c", vp.Choose("n", 9))...))
	s.want()
	feed(d, s101(ember(0xc0, 5)...))
	s.want([]byte{5})
}

// ---------------------------------------------------------------- C26

// C26_sequence : sequences of three packets (four thorough), each with any flags byte and one payload byte below 248, or damaged, or a keep-alive: a message is
// delivered exactly when its first to last packets all arrived, as their concatenation.
func C26_sequence() {
	n := 3
	if vp.Thorough() {
		n = 4
	}
	var s sink
	d := s.decoder()
	var cur []byte
	open := false
	var want [][]byte
	for i := 0; i < n; i++ {
		switch vp.Choose("kind", 3) {
		case 1: // damaged
			f := s101(ember(vp.U8("flags")&0xe0, 1)...)
			f[5] ^= 1
			feed(d, f)
			open = false
			continue
		case 2:
			feed(d, s101(kal(2)...))
			continue
		}
		flags := vp.U8("flags")
		p := vp.Bytes("p", 1)
		vp.Assume(p[0] < 0xf8)
		feed(d, s101(ember(flags, p...)...))
		if flags&0x80 != 0 {
			open, cur = true, nil
		}
		if !open {
			continue
		}
		if flags&0x20 == 0 {
			cur = append(cur, p...)
		}
		if flags&0x40 != 0 {
			want = append(want, cur)
			open = false
		}
	}
	s.want(want...)
}

// C26_lost : a message of 3 packets (4 thorough), each of one arbitrary byte, from which any set of packets is lost, then a complete message: the first
// is delivered only if complete, the second always and alone.
func C26_lost() {
	n := 3
	if vp.Thorough() {
		n = 4
	}
	var s sink
	d := s.decoder()
	var m []byte
	lostLast := false
	lost := 0
	for i := 0; i < n; i++ {
		flags := uint8(0)
		if i == 0 {
			flags = 0x80
		}
		if i == n-1 {
			flags = 0x40
		}
		b := vp.U8("b")
		m = append(m, b)
		if vp.Choose("lost", 2) == 1 {
			f := s101(ember(flags, b)...)
			f[len(f)-2] ^= 1 // damaged on the way
			feed(d, f)
			lost++
			lostLast = i == n-1
			continue
		}
		feed(d, s101(ember(flags, b)...))
	}
	_ = lostLast
	var want [][]byte
	if lost == 0 {
		want = append(want, m)
	}
	x := vp.U8("x")
	feed(d, s101(ember(0x80, x)...))
	feed(d, s101(ember(0x60, 1)...))
	want = append(want, []byte{x})
	s.want(want...)
}

// C26_large : a message of 3 packets of 1000 bytes with arbitrary first bytes (below 128) and last byte (last bytes in the thorough tier).
func C26_large() {
	var s sink
	d := s.decoder()
	var m []byte
	for i, flags := range []uint8{0x80, 0, 0x40} {
		p := filler(1, 1000)
		p[0] = vp.U8("a") & 0x7f
		if flags == 0x40 || vp.Thorough() {
			p[999] = vp.U8("b")
		}
		m = append(m, p...)
		feed(d, s101(ember(flags, p...)...), 300*(i+1))
	}
	s.want(m)
}

// ---------------------------------------------------------------- C27 (decoder part; the client part is in client.go)

// C27_frames : the keep-alive request and response are the protocol's frames; a decoder fed any of them (with 0..2 arbitrary bytes after the version,
// any version) calls the matching handler once and no other.
func C27_frames() {
	vp.Assert(vp.EqBytes(socket.GetKeepaliveRequest().Bytes(), s101(kal(1)...)), "request frame")
	vp.Assert(vp.EqBytes(socket.GetKeepAliveResponse().Bytes(), s101(kal(2)...)), "response frame")
	resp := vp.Choose("resp", 2) == 1
	cmd := uint8(1)
	if resp {
		cmd = 2
	}
	c := append([]byte{0, 0x0e, cmd, vp.U8("version")}, vp.Bytes("r", vp.Choose("r", 3))...)
	var s sink
	d := s.decoder()
	f := s101(c...)
	feed(d, f, vp.Choose("cut", len(f)))
	want := [2]int{1, 0}
	if resp {
		want = [2]int{0, 1}
	}
	vp.Assert(s.req == want[0] && s.res == want[1], "keep-alive handler")
	vp.Assert(len(s.packets) == 0 && s.errs == 0, "nothing else")
}

// ---------------------------------------------------------------- C28

// C28_stream : streams of 0..6 arbitrary bytes (0..7 thorough), in two pieces: no crash, no message (too short for one).
func C28_stream() {
	n := 7
	if vp.Thorough() {
		n = 8
	}
	n = vp.Choose("n", n)
	b := vp.Bytes("b", n)
	var s sink
	d := s.decoder()
	feed(d, b, n/2)
	vp.Assert(len(s.packets) == 0, "message out of nothing")
	vp.Assert(s.req+s.res+s.errs <= n, "one event per frame end at most")
}

// C28_frame : frame contents of 0..14 arbitrary bytes (0..20 thorough), CRC right or wrong, handed over directly: no crash, at most one event.
func C28_frame() {
	n := 15
	if vp.Thorough() {
		n = 21
	}
	b := vp.Bytes("b", vp.Choose("n", n))
	var s sink
	d := s.decoder()
	err := d.HandleFrame(b)
	ev := len(s.packets) + s.req + s.res
	vp.Assert(ev <= 1, "at most one event")
	if err != nil {
		vp.Assert(ev == 0, "event and error")
	}
	if len(b) < 2 {
		vp.Assert(err != nil, "no CRC")
	} else {
		c := crcRef(b[:len(b)-2])
		if vp.Or(b[len(b)-2] != byte(c), b[len(b)-1] != byte(c>>8)) {
			vp.Assert(err != nil && ev == 0, "wrong CRC accepted")
		}
	}
}

// C28_escapes : streams of 0..9 bytes (0..11 thorough) out of BOF, EOF, escape and one arbitrary ordinary byte, between two valid frames: no crash, both
// frames are delivered.
func C28_escapes() {
	n := 7
	if vp.Thorough() {
		n = 9
	}
	x := vp.U8("x")
	vp.Assume(x < 0xf8)
	var b []byte
	for i := vp.Choose("n", n); i > 0; i-- {
		switch vp.Choose("b", 4) {
		case 0:
			b = append(b, 0xfe)
		case 1:
			b = append(b, 0xff)
		case 2:
			b = append(b, 0xfd)
		case 3:
			b = append(b, x)
		}
	}
	var s sink
	d := s.decoder()
	feed(d, s101(ember(0xc0, 1)...))
	feed(d, b)
	feed(d, s101(ember(0xc0, 2)...))
	s.want([]byte{1}, []byte{2})
}
