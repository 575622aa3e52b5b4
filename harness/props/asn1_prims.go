package props

import (
	"math"

	"github.com/dufourgilles/emberlib/asn1"
	"github.com/dufourgilles/emberlib/errors"
	"verif/harness/vp"
)

// ---------------------------------------------------------------- C01

// C01_int64 : every int64; canonical bytes, then a second value behind it.
func C01_int64() {
	v := vp.I64("v")
	w := asn1.NewASNWriter()
	ok(w.WriteInt64(v), "write int64")
	b := drain(w)
	vp.ObsBytes("b", b)
	vp.Assert(vp.EqBytes(b, berInt(v)), "int64 canonical encoding")
	r := asn1.NewASNReader(append(b, 2, 1, 5))
	g, err := r.ReadInt64()
	ok(err, "read int64")
	vp.Assert(g == v, "int64 round trip")
	vp.Assert(r.Len() == 3, "int64 consumed")
	h, err := r.ReadInt64()
	ok(err, "read next")
	vp.Assert(h == 5 && r.Len() == 0, "next value intact")
}

// C01_int32 : every int32 through WriteInt/ReadInt and ReadInt64, canonical bytes.
func C01_int32() {
	v := int(vp.I32("v"))
	w := asn1.NewASNWriter()
	ok(w.WriteInt(v), "write int")
	b := drain(w)
	vp.ObsBytes("b", b)
	vp.Assert(vp.EqBytes(b, berInt(int64(v))), "int canonical encoding")
	r := asn1.NewASNReader(append(b, 2, 1, 0x85))
	g, err := r.ReadInt()
	ok(err, "read int")
	vp.Assert(g == v, "int round trip")
	vp.Assert(r.Len() == 3, "int consumed")
	h, err := r.ReadInt()
	ok(err, "read next")
	vp.Assert(h == -123 && r.Len() == 0, "next value intact")
	r = asn1.NewASNReader(b)
	x, err := r.ReadInt64()
	ok(err, "read as int64")
	vp.Assert(x == int64(v), "int via int64")
}

// C01_tags : every int32 and int64 under every tag byte.
func C01_tags() {
	tag := vp.U8("tag")
	v := vp.I64("v")
	w := asn1.NewASNWriter()
	ok(w.WriteInt64Tag(v, tag), "write int64 tag")
	vp.Assert(vp.EqBytes(drain(w), tlv(tag, beInt(v))), "int64 with tag")
	i := vp.I32("i")
	w = asn1.NewASNWriter()
	ok(w.WriteIntTag(int(i), tag), "write int tag")
	vp.Assert(vp.EqBytes(drain(w), tlv(tag, beInt(int64(i)))), "int with tag")
}

// C01_decode64 : INTEGER contents of 0..10 arbitrary bytes (also non minimal), short and long length header.
func C01_decode64() {
	n := vp.Choose("n", 11)
	c := vp.Bytes("c", n)
	var m []byte
	if vp.Choose("long", 2) == 0 {
		m = tlv(tagInt, c)
	} else {
		m = cat([]byte{tagInt, 0x81, byte(n)}, c)
	}
	r := asn1.NewASNReader(append(m, 0x55))
	g, err := r.ReadInt64()
	if n == 0 || n > 8 {
		vp.Assert(err != nil, "int64 bad length accepted")
		return
	}
	ok(err, "int64 decode")
	vp.Obs("g", int(g))
	vp.Assert(g == sext(c), "int64 decoded value")
	vp.Assert(r.Len() == 1, "int64 decode consumed")
}

// C01_decode32 : ReadInt over contents of 0..6 arbitrary bytes.
func C01_decode32() {
	n := vp.Choose("n", 7)
	c := vp.Bytes("c", n)
	r := asn1.NewASNReader(append(tlv(tagInt, c), 0x55))
	g, err := r.ReadInt()
	if n == 0 || n > 4 {
		vp.Assert(err != nil, "int bad length accepted")
		return
	}
	ok(err, "int decode")
	vp.Assert(int64(g) == sext(c), "int decoded value")
	vp.Assert(r.Len() == 1, "int decode consumed")
}

func sext(c []byte) int64 {
	v := int64(int8(c[0]))
	for _, b := range c[1:] {
		v = v<<8 | int64(b)
	}
	return v
}

// ---------------------------------------------------------------- C02

// C02_small : strings and buffers of 0..5 arbitrary bytes; any buffer tag.
func C02_small() {
	n := vp.Choose("n", 6)
	strTrip(vp.Str("s", n))
}

// C02_lengths : lengths around every one-byte header boundary (126..130, 254..258, 300), all content bytes arbitrary.
func C02_lengths() {
	ls := []int{126, 127, 128, 129, 130, 254, 255, 256, 257, 258, 300}
	strTrip(vp.Str("s", ls[vp.Choose("n", len(ls))]))
}

// C02_huge : lengths around 2^23 and 2^24 (buffers and strings): the header is exact when written, and is read back.
func C02_huge() {
	ls := []int{0x7fffff, 0x800000, 0xabcdef, 0xffffff, 0x1000000, 0x1020304}
	if !vp.Thorough() {
		ls = ls[1:5]
	}
	n := ls[vp.Choose("n", len(ls))]
	b := make([]byte, n)
	w := asn1.NewASNWriter()
	hdr := cat([]byte{tagBits}, lenHdr(n))
	if vp.Choose("kind", 2) == 0 {
		b[0] = vp.U8("b")
		ok(w.WriteBuffer(b, tagBits), "write buffer")
	} else {
		hdr[0] = tagString
		ok(w.WriteString(string(b)), "write string")
	}
	vp.Assert(w.Len() == len(hdr)+n, "encoded size")
	m := make([]byte, len(hdr)+1)
	k, err := w.Read(m)
	vp.Assert(err == nil && k == len(m), "writer read")
	vp.Assert(vp.EqBytes(m, cat(hdr, b[:1])), "length header")
	l, err := asn1.NewASNReader(m[1:]).ReadLength()
	vp.Assert(err == nil && l == n, "length read back")
}

// C02_large : lengths 32767..65537 around the two-byte header boundaries; first, middle and last byte arbitrary.
func C02_large() {
	ls := []int{32767, 32768, 65535, 65536, 65537}
	if !vp.Thorough() {
		ls = ls[2:4]
	}
	n := ls[vp.Choose("n", len(ls))]
	b := make([]byte, n)
	for _, i := range []int{0, n / 2, n - 1} {
		b[i] = vp.U8("b")
	}
	w := asn1.NewASNWriter()
	if vp.Choose("kind", 2) == 0 {
		ok(w.WriteBuffer(b, tagBits), "write buffer")
		m := drain(w)
		hdr := cat([]byte{tagBits}, lenHdr(n))
		vp.Assert(vp.EqBytes(m[:len(hdr)], hdr), "length header")
		vp.Assert(len(m) == len(hdr)+n, "encoded size")
		r := asn1.NewASNReader(append(m, 1, 1, 0xff))
		g, err := r.ReadBitString()
		ok(err, "read buffer")
		vp.Assert(vp.EqBytes(g, b), "buffer round trip")
		vp.Assert(r.Len() == 3, "buffer consumed")
	} else {
		ok(w.WriteString(string(b)), "write string")
		m := drain(w)
		hdr := cat([]byte{tagString}, lenHdr(n))
		vp.Assert(vp.EqBytes(m[:len(hdr)], hdr), "length header")
		r := asn1.NewASNReader(append(m, 1, 1, 0xff))
		g, err := r.ReadString()
		ok(err, "read string")
		vp.Assert(vp.EqStr(g, string(b)), "string round trip")
		vp.Assert(r.Len() == 3, "string consumed")
	}
}

func strTrip(s string) {
	n := len(s)
	tag := vp.U8("tag")
	w := asn1.NewASNWriter()
	ok(w.WriteString(s), "write string")
	ok(w.WriteBuffer([]byte(s), tagBits), "write bits")
	ok(w.WriteBuffer([]byte(s), tag), "write buffer")
	b := drain(w)
	want := cat(berStr(s), berBits([]byte(s)), tlv(tag, []byte(s)))
	vp.Assert(vp.EqBytes(b, want), "canonical encoding")
	r := asn1.NewASNReader(b)
	g, err := r.ReadString()
	ok(err, "read string")
	vp.Assert(vp.EqStr(g, s), "string round trip")
	h, err := r.ReadBitString()
	ok(err, "read bits")
	vp.Assert(vp.EqBytes(h, []byte(s)), "buffer round trip")
	t, err := r.ReadByte()
	ok(err, "tag")
	vp.Assert(t == tag, "tag kept")
	l, err := r.ReadLength()
	ok(err, "length")
	vp.Assert(l == n, "length value")
	vp.Assert(r.Len() == n, "left")
}

// C02_header : ReadLength over any header of 1..6 bytes.
func C02_header() {
	n := 1 + vp.Choose("n", 6)
	b := vp.Bytes("b", n)
	r := asn1.NewASNReader(b)
	l, err := r.ReadLength()
	if b[0] < 0x80 {
		ok(err, "short form")
		vp.Assert(l == int(b[0]) && r.Len() == n-1, "short form value")
		return
	}
	k := vp.Split(int(b[0] & 0x7f))
	if k == 0 {
		ok(err, "indefinite")
		vp.Assert(l == -1 && r.Len() == n-1, "indefinite value")
		return
	}
	if k > 4 || k > n-1 {
		vp.Assert(err != nil, "bad length header accepted")
		return
	}
	ok(err, "long form")
	v := 0
	for _, x := range b[1 : 1+k] {
		v = v<<8 | int(x)
	}
	vp.Assert(l == v, "long form value")
	vp.Assert(r.Len() == n-1-k, "long form consumed")
}

// C02_indefinite : strings and buffers in indefinite form, contents of 0..4 bytes without two consecutive zeros.
func C02_indefinite() {
	n := vp.Choose("n", 5)
	c := vp.Bytes("c", n)
	for i := 0; i < n; i++ {
		last := i == n-1
		if last {
			vp.Assume(c[i] != 0)
		} else {
			vp.Assume(vp.Or(c[i] != 0, c[i+1] != 0))
		}
	}
	r := asn1.NewASNReader(cat(ind(tagString, c), []byte{7}))
	s, err := r.ReadString()
	ok(err, "indefinite string")
	vp.Assert(vp.EqStr(s, string(c)), "indefinite string value")
	vp.Assert(r.Len() == 1, "indefinite string consumed")
	r = asn1.NewASNReader(cat(ind(tagBits, c), []byte{7}))
	b, err := r.ReadBitString()
	ok(err, "indefinite buffer")
	vp.Assert(vp.EqBytes(b, c), "indefinite buffer value")
	vp.Assert(r.Len() == 1, "indefinite buffer consumed")
}

// ---------------------------------------------------------------- C03

// C03_bool : both booleans, canonical bytes; decoding of every content byte.
func C03_bool() {
	v := vp.Bool("v")
	w := asn1.NewASNWriter()
	ok(w.WriteBoolean(v), "write bool")
	b := drain(w)
	vp.Assert(vp.EqBytes(b, berBool(v)), "bool canonical")
	x := vp.U8("x")
	r := asn1.NewASNReader(cat(b, []byte{1, 1, x}, []byte{9}))
	g, err := r.ReadBoolean()
	ok(err, "read bool")
	vp.Assert(g == v, "bool round trip")
	g, err = r.ReadBoolean()
	ok(err, "read bool byte")
	vp.Assert(g == (x != 0), "bool byte value")
	vp.Assert(r.Len() == 1, "bool consumed")
}

// C03_boolbad : BOOLEAN with a length other than 1 (any header byte, up to 4 following bytes) is an error.
func C03_boolbad() {
	l := vp.U8("l")
	n := vp.Choose("n", 5)
	c := vp.Bytes("c", n)
	r := asn1.NewASNReader(cat([]byte{1, l}, c))
	_, err := r.ReadBoolean()
	long1 := n >= 2 && l == 0x81 && c[0] == 1
	long2 := n >= 3 && l == 0x82 && c[0] == 0 && c[1] == 1
	long3 := n >= 4 && l == 0x83 && c[0] == 0 && c[1] == 0 && c[2] == 1
	vp.Assert((err == nil) == ((l == 1 && n >= 1) || long1 || long2 || long3), "bool accepted exactly when one byte long")
}

// C03_nullenum : NULL, and ENUMERATED of every int32, are complete values followed by others.
func C03_nullenum() {
	v := vp.I32("v")
	b := vp.Bool("b")
	w := asn1.NewASNWriter()
	ok(w.WriteNull(), "write null")
	ok(w.WriteEnum(int(v)), "write enum")
	ok(w.WriteNull(), "write null")
	ok(w.WriteBoolean(b), "write bool")
	m := drain(w)
	vp.Assert(vp.EqBytes(m, cat([]byte{tagNull, 0}, tlv(tagEnum, beInt(int64(v))), []byte{tagNull, 0}, berBool(b))), "null and enum canonical")
}

// ---------------------------------------------------------------- C04

// C04_trip : identifiers of 0..3 arcs, every non negative int32 arc.
func C04_trip() {
	n := vp.Choose("n", 4)
	if n == 3 && !vp.Thorough() {
		// keep one arc of three to two bytes
		o := symOID("o", 3)
		vp.Assume(o[1] < 1<<14)
		oidTrip(o)
		return
	}
	oidTrip(symOID("o", n))
}

func oidTrip(o asn1.RelativeOID) {
	w := asn1.NewASNWriter()
	ok(w.WriteRelativeOID(o), "write oid")
	b := drain(w)
	vp.ObsBytes("b", b)
	vp.Assert(vp.EqBytes(b, berOID(o)), "oid canonical")
	r := asn1.NewASNReader(append(b, 0x7f))
	g, err := r.ReadOID(asn1.EMBER_RELATIVE_OID)
	ok(err, "read oid")
	vp.Assert(eqOID(g, o), "oid round trip")
	vp.Assert(r.Len() == 1, "oid consumed")
}

// C04_long : 127..130 one-byte arcs (content length around the header boundary).
func C04_long() {
	oidTrip(smallOID("o", 126+vp.Choose("n", 5)))
}

// C04_negative : a negative arc anywhere in 1..3 arcs is refused.
func C04_negative() {
	n := 1 + vp.Choose("n", 3)
	o := smallOID("o", n)
	k := vp.Choose("k", n)
	o[k] = vp.I32("neg")
	vp.Assume(o[k] < 0)
	w := asn1.NewASNWriter()
	vp.Assert(w.WriteRelativeOID(o) != nil, "negative arc accepted")
}

// C04_decode : contents of 0..6 arbitrary bytes decode to the base 128 arcs, or fail when truncated or above int32.
func C04_decode() {
	n := vp.Choose("n", 7)
	c := vp.Bytes("c", n)
	r := asn1.NewASNReader(append(tlv(tagOID, c), 0x7f))
	g, err := r.ReadOID(asn1.EMBER_RELATIVE_OID)
	var want []int64
	v, bad := int64(0), false
	for i, x := range c {
		v = v<<7 | int64(x&0x7f)
		if v > math.MaxInt32 {
			bad = true
			break
		}
		if x < 0x80 {
			want = append(want, v)
			v = 0
		} else if i == n-1 {
			bad = true
		}
	}
	if bad {
		vp.Assert(err != nil, "bad oid accepted")
		return
	}
	ok(err, "oid decode")
	vp.Assert(len(g) == len(want), "oid arcs")
	for i := range want {
		vp.Assert(int64(g[i]) == want[i], "oid arc value")
	}
	vp.Assert(r.Len() == 1, "oid decode consumed")
}

// C04_tag : the tag argument is honoured, for every pair of tags.
func C04_tag() {
	t, u := vp.U8("t"), vp.U8("u")
	r := asn1.NewASNReader([]byte{t, 1, 5})
	g, err := r.ReadOID(u)
	if t == u {
		ok(err, "oid tag")
		vp.Assert(eqOID(g, asn1.RelativeOID{5}), "oid tag value")
	} else {
		vp.Assert(err != nil, "oid wrong tag accepted")
	}
}

// ---------------------------------------------------------------- C05

// C05_trip : every float64 bit pattern (NaN compares as NaN).
func C05_trip() {
	v := vp.F64("v")
	w := asn1.NewASNWriter()
	ok(w.WriteReal(v), "write real")
	b := drain(w)
	vp.Assert(len(b) >= 2 && b[0] == tagReal && int(b[1]) == len(b)-2, "real is one TLV")
	r := asn1.NewASNReader(append(b, 0x33))
	g, err := r.ReadReal()
	ok(err, "read real")
	gb, vb := math.Float64bits(g), math.Float64bits(v)
	nan := func(x uint64) bool { return vp.And(x&(0x7ff<<52) == 0x7ff<<52, x&(1<<52-1) != 0) }
	same := vp.Or(gb == vb, vp.Or(vp.And(nan(gb), nan(vb)), vp.And(gb<<1 == 0, vb<<1 == 0)))
	vp.Assert(same, "real round trip")
	vp.Assert(r.Len() == 1, "real consumed")
}

// C05_specials : the special values use the one-byte encodings of X.690, zero the empty one.
func C05_specials() {
	vals := []float64{0, math.Inf(1), math.Inf(-1), math.NaN()}
	want := [][]byte{{tagReal, 0}, {tagReal, 1, 0x40}, {tagReal, 1, 0x41}, {tagReal, 1, 0x42}}
	k := vp.Choose("k", 4)
	w := asn1.NewASNWriter()
	ok(w.WriteReal(vals[k]), "write special")
	vp.Assert(vp.EqBytes(drain(w), want[k]), "special encoding")
	// any other single content byte is an error
	x := vp.U8("x")
	r := asn1.NewASNReader([]byte{tagReal, 1, x})
	_, err := r.ReadReal()
	vp.Assert((err == nil) == vp.Or(x == 0x40, vp.Or(x == 0x41, x == 0x42)), "special byte")
}

// C05_padded : the value does not depend on how many bytes hold the exponent, nor on leading zero mantissa bytes:
// exponents of 1..3 bytes, mantissas of 1..3 bytes padded by up to 2 zero bytes, against the encoding of the same number by the library.
func C05_padded() {
	e := vp.I8("e")
	m := uint64(vp.U16("m"))
	vp.Assume(m != 0)
	neg := vp.Bool("neg")
	// the number: leading bit of m at weight 2^e
	top := 0
	for i := 1; i < 16; i++ {
		top = vp.IteInt(m>>uint(i) != 0, i, top)
	}
	top = vp.Split(top)
	bits := uint64(int64(e)+1023)<<52 | (m<<uint(52-top))&(1<<52-1)
	bits |= vp.IteU64(neg, 1<<63, 0)
	el := 1 + vp.Choose("el", 3)
	var c []byte
	c = append(c, 0x80|vp.IteU8(neg, 0x40, 0)|byte(el-1))
	for i := el - 1; i >= 0; i-- {
		c = append(c, byte(int64(e)>>uint(8*i)))
	}
	for i := vp.Choose("pad", 3); i > 0; i-- {
		c = append(c, 0)
	}
	c = append(c, byte(m>>8), byte(m))
	r := asn1.NewASNReader(tlv(tagReal, c))
	g, err := r.ReadReal()
	ok(err, "padded real")
	vp.Assert(math.Float64bits(g) == bits, "padded real value")
}

// C05_decode : ReadReal over contents of 0..5 arbitrary bytes never yields more than one error or a value, consuming exactly the TLV on success.
func C05_decode() {
	n := vp.Choose("n", 6)
	c := vp.Bytes("c", n)
	r := asn1.NewASNReader(append(tlv(tagReal, c), 0x44))
	_, err := r.ReadReal()
	if err == nil {
		vp.Assert(r.Len() == 1, "real decode consumed")
	}
	if n == 0 {
		ok(err, "empty real is zero")
	}
}

// ---------------------------------------------------------------- C06

type primReader struct {
	name string
	tag  byte
	read func(*asn1.ASNReader) errors.Error
}

var primReaders = []primReader{
	{"bool", tagBool, func(r *asn1.ASNReader) errors.Error { _, e := r.ReadBoolean(); return e }},
	{"int", tagInt, func(r *asn1.ASNReader) errors.Error { _, e := r.ReadInt(); return e }},
	{"int64", tagInt, func(r *asn1.ASNReader) errors.Error { _, e := r.ReadInt64(); return e }},
	{"string", tagString, func(r *asn1.ASNReader) errors.Error { _, e := r.ReadString(); return e }},
	{"bits", tagBits, func(r *asn1.ASNReader) errors.Error { _, e := r.ReadBitString(); return e }},
	{"real", tagReal, func(r *asn1.ASNReader) errors.Error { _, e := r.ReadReal(); return e }},
	{"oid", tagOID, func(r *asn1.ASNReader) errors.Error { _, e := r.ReadOID(tagOID); return e }},
}

// C06_any : every typed reader over any buffer of 0..6 bytes: success means the right tag and exactly one complete value consumed.
func C06_any() {
	p := primReaders[vp.Choose("reader", len(primReaders))]
	max := 6
	if vp.Thorough() {
		max = 7
	}
	n := vp.Choose("n", max+1)
	b := vp.Bytes("b", n)
	r := asn1.NewASNReader(b)
	err := p.read(r)
	vp.ObsBool("ok", err == nil)
	if err != nil {
		return
	}
	vp.Assert(n >= 2 && b[0] == p.tag, p.name+": success with a wrong tag")
	used := n - r.Len()
	l, hdr := int(b[1]), 2
	if b[1] >= 0x80 {
		k := vp.Split(int(b[1] & 0x7f))
		if k == 0 {
			vp.Assert(p.tag == tagString || p.tag == tagBits || p.tag == tagOID || p.tag == tagReal, p.name+": indefinite primitive accepted")
			vp.Assert(r.Len() == 0 || (b[used-1] == 0 && b[used-2] == 0), p.name+": indefinite end")
			return
		}
		vp.Assert(k <= 4 && 2+k <= n, p.name+": bad length header accepted")
		l = 0
		for _, x := range b[2 : 2+k] {
			l = l<<8 | int(x)
		}
		hdr += k
	}
	vp.Assert(used == hdr+l, p.name+": consumed exactly one value")
}

// C06_truncated : valid values of every type cut at every point fail.
func C06_truncated() {
	vals := [][]byte{berBool(vp.Bool("b")), tlv(tagInt, vp.Bytes("i", 3)), tlv(tagInt, vp.Bytes("i", 5)), tlv(tagString, vp.Bytes("s", 3)), tlv(tagBits, vp.Bytes("s", 3)),
		tlv(tagReal, []byte{0x80}, vp.Bytes("r", 2)), tlv(tagOID, vp.Bytes("o", 3))}
	k := vp.Choose("k", len(vals))
	v := vals[k]
	cut := vp.Choose("cut", len(v))
	r := asn1.NewASNReader(v[:cut])
	vp.Assert(primReaders[k].read(r) != nil, primReaders[k].name+": truncated value accepted")
}

// C06_container : ReadSequenceStart and ReadSequenceEnd over any tag and byte.
func C06_container() {
	t, u := vp.U8("t"), vp.U8("u")
	a, b := vp.U8("a"), vp.U8("b")
	r := asn1.NewASNReader([]byte{t, 0x80, a, b})
	l, s, err := r.ReadSequenceStart(u)
	if t != u {
		vp.Assert(err != nil, "container with a wrong tag accepted")
		return
	}
	ok(err, "container start")
	vp.Assert(l == -1, "indefinite length")
	vp.Assert(s.Len() == 2, "container contents")
	end, err := s.CheckSequenceEnd()
	ok(err, "check end")
	vp.Assert(end == vp.And(a == 0, b == 0), "end marker")
	if end {
		vp.Assert(s.Len() == 0, "end marker consumed")
	} else {
		vp.Assert(s.Len() == 2, "contents kept")
		vp.Assert(s.ReadSequenceEnd() != nil, "missing end accepted")
		p, err := s.Peek()
		ok(err, "peek")
		vp.Assert(p == a, "peek value")
		x, _ := s.ReadByte()
		y, _ := s.ReadByte()
		vp.Assert(vp.And(x == a, y == b), "contents value")
	}
}
