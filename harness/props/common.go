package props

import (
	"github.com/dufourgilles/emberlib/asn1"
	"github.com/dufourgilles/emberlib/embertree"
	"github.com/dufourgilles/emberlib/errors"
	"verif/harness/vp"
)

// ---- reference encoder: BER as the Ember+ specification describes it,
// written without any code of the library ----

func cat(parts ...[]byte) []byte {
	var r []byte
	for _, p := range parts {
		r = append(r, p...)
	}
	return r
}

func ctx(n int) byte { return byte(0xa0 | n) }
func app(n int) byte { return byte(0x60 | n) }

const (
	tagBool   = 1
	tagInt    = 2
	tagBits   = 3
	tagNull   = 5
	tagReal   = 9
	tagEnum   = 10
	tagString = 12
	tagOID    = 13
	tagSeq    = 0x30
	tagSet    = 0x31
)

// lenHdr is the shortest definite length header.
func lenHdr(n int) []byte {
	switch {
	case n < 128:
		return []byte{byte(n)}
	case n < 256:
		return []byte{0x81, byte(n)}
	case n < 65536:
		return []byte{0x82, byte(n >> 8), byte(n)}
	case n < 1<<24:
		return []byte{0x83, byte(n >> 16), byte(n >> 8), byte(n)}
	}
	return []byte{0x84, byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)}
}

func tlv(tag byte, parts ...[]byte) []byte {
	c := cat(parts...)
	return cat([]byte{tag}, lenHdr(len(c)), c)
}

// ind is an indefinite length container.
func ind(tag byte, parts ...[]byte) []byte {
	return cat([]byte{tag, 0x80}, cat(parts...), []byte{0, 0})
}

// forms picks the container form: 0 all indefinite, 1 all definite, 2 chosen per container, 3 mixed in
// some fixed way, 4 by a repeated pattern of four.
type forms int

var pattern, patternAt int

func (f forms) c(tag byte, parts ...[]byte) []byte {
	d := f == 1
	if f == 2 {
		d = vp.Choose("form", 2) == 1
	}
	if f == 3 {
		d = (int(tag)+len(parts))%2 == 1
	}
	if f == 4 {
		d = pattern>>uint(patternAt%4)&1 == 1
		patternAt++
	}
	if d {
		return tlv(tag, parts...)
	}
	return ind(tag, parts...)
}

func fits(v int64, n int) bool {
	h := v >> uint(8*n-1)
	return vp.Or(h == 0, h == -1)
}

// beInt is the minimal two's complement encoding.
func beInt(v int64) []byte {
	n := 1
	for n < 8 && !fits(v, n) {
		n++
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(v >> uint(8*(n-1-i)))
	}
	return b
}

func berInt(v int64) []byte        { return tlv(tagInt, beInt(v)) }
func berStr(s string) []byte       { return tlv(tagString, []byte(s)) }
func berBool(b bool) []byte        { return []byte{tagBool, 1, vp.IteU8(b, 0xff, 0)} }
func berBits(b []byte) []byte      { return tlv(tagBits, b) }
func berOID(o asn1.RelativeOID) []byte {
	var c []byte
	for _, v := range o {
		c = append(c, b128(v)...)
	}
	return tlv(tagOID, c)
}

// b128 is the base 128 encoding of a non negative arc.
func b128(v int32) []byte {
	n := 1
	for n < 5 && v>>uint(7*n) != 0 {
		n++
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(v>>uint(7*(n-1-i))) & 0x7f
		if i < n-1 {
			b[i] |= 0x80
		}
	}
	return b
}

// ---- helpers over the library ----

func ok(err errors.Error, label string) { vp.Assert(err == nil, label) }

func drain(w *asn1.ASNWriter) []byte {
	b := make([]byte, w.Len())
	if len(b) > 0 {
		n, err := w.Read(b)
		vp.Assert(err == nil && n == len(b), "writer drain")
	}
	return b
}

type encoder interface {
	Encode(*asn1.ASNWriter) errors.Error
}

func enc(e encoder, label string) []byte {
	w := asn1.NewASNWriter()
	ok(e.Encode(w), label+": encode")
	return drain(w)
}

func eqOID(a, b asn1.RelativeOID) bool {
	if len(a) != len(b) {
		return false
	}
	r := true
	for i := range a {
		r = vp.And(r, a[i] == b[i])
	}
	return r
}

func symOID(name string, n int) asn1.RelativeOID {
	o := make(asn1.RelativeOID, n)
	for i := range o {
		o[i] = vp.I32(name)
		vp.Assume(o[i] >= 0)
	}
	return o
}

// smallOID has arcs below 128 (one byte each), still symbolic.
func smallOID(name string, n int) asn1.RelativeOID {
	o := make(asn1.RelativeOID, n)
	for i := range o {
		o[i] = int32(vp.U8(name) & 0x7f)
	}
	return o
}

var _ embertree.EmberContents
