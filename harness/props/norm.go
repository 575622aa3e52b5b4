package props

import (
	"github.com/dufourgilles/emberlib/asn1"
	"github.com/dufourgilles/emberlib/embertree"
	"verif/harness/vp"
)

// ---- canonical form: an independent BER parser. Definite lengths, members of a
// container ordered by tag (the order of equal tags is kept), so that messages
// can be compared whatever form and member order an encoder picks. ----

func normOne(b []byte) (out, rest []byte, tag byte) {
	vp.Assert(len(b) >= 2, "message is well formed BER")
	tag = b[0]
	l, b1 := 0, b[2:]
	indef := false
	switch {
	case b[1] == 0x80:
		indef = true
		vp.Assert(tag&0x20 != 0, "only containers are indefinite")
	case b[1] < 0x80:
		l = int(b[1])
	default:
		k := int(b[1] & 0x7f)
		vp.Assert(k <= 4 && k <= len(b1), "message is well formed BER")
		for _, x := range b1[:k] {
			l = l<<8 | int(x)
		}
		b1 = b1[k:]
	}
	if tag&0x20 == 0 {
		vp.Assert(l <= len(b1), "message is well formed BER")
		return tlv(tag, b1[:l]), b1[l:], tag
	}
	var body []byte
	if !indef {
		vp.Assert(l <= len(b1), "message is well formed BER")
		body, rest = b1[:l], b1[l:]
	} else {
		body = b1
	}
	var ms [][]byte
	var ts []byte
	for {
		if !indef && len(body) == 0 {
			break
		}
		if indef {
			vp.Assert(len(body) >= 2, "container is closed")
			if body[0] == 0 && body[1] == 0 {
				rest = body[2:]
				break
			}
		}
		m, r, t := normOne(body)
		body = r
		ms, ts = append(ms, m), append(ts, t)
	}
	for i := 1; i < len(ms); i++ {
		for j := i; j > 0 && ts[j] < ts[j-1]; j-- {
			ts[j], ts[j-1] = ts[j-1], ts[j]
			ms[j], ms[j-1] = ms[j-1], ms[j]
		}
	}
	return tlv(tag, ms...), rest, tag
}

func norm(b []byte) []byte {
	out, rest, _ := normOne(b)
	vp.Assert(len(rest) == 0, "exactly one message")
	return out
}

func sameBER(got, want []byte, label string) {
	g, w := norm(got), norm(want)
	vp.Assert(len(g) == len(w) && vp.EqBytes(g, w), label)
}

// ---- values ----

const (
	kStr = iota
	kBool
	kInt
	kBuf
	kReal
	kOID
	kKinds
)

type val struct {
	k   int
	s   string
	b   bool
	i   int64
	buf []byte
	r   float64
	o   asn1.RelativeOID
}

var reals = []float64{0, 1, -1.5, 0.1, 3.141592653589793, 1e300, -5e-324}

// anyVal is an arbitrary value of kind k; small keeps it to one short encoding.
func anyVal(name string, k int, small bool) val {
	v := val{k: k}
	switch k {
	case kStr:
		if small {
			v.s = vp.Str(name, 2)
		} else {
			v.s = vp.Str(name, vp.Choose(name+"#", 4))
		}
	case kBool:
		v.b = vp.Bool(name)
	case kInt:
		if small {
			v.i = int64(vp.I8(name))
		} else {
			v.i = vp.I64(name)
		}
	case kBuf:
		if small {
			v.buf = vp.Bytes(name, 2)
		} else {
			v.buf = vp.Bytes(name, vp.Choose(name+"#", 4))
		}
	case kReal:
		if small {
			v.r = reals[2*vp.Choose(name, 2)]
		} else {
			v.r = reals[vp.Choose(name, len(reals))]
		}
	case kOID:
		if small {
			v.o = smallOID(name, 2)
		} else {
			v.o = symOID(name, 1+vp.Choose(name+"#", 2))
		}
	}
	return v
}


func (v val) ber() []byte {
	switch v.k {
	case kStr:
		return berStr(v.s)
	case kBool:
		return berBool(v.b)
	case kInt:
		return berInt(v.i)
	case kBuf:
		return berBits(v.buf)
	case kReal:
		w := asn1.NewASNWriter()
		ok(w.WriteReal(v.r), "write real") // REAL itself is decided by C05
		return drain(w)
	}
	return berOID(v.o)
}

func (v val) set(cp *embertree.ContentParameter) {
	switch v.k {
	case kStr:
		cp.SetString(v.s)
	case kBool:
		cp.SetBool(v.b)
	case kInt:
		cp.SetInt(v.i)
	case kBuf:
		cp.SetBuffer(v.buf)
	case kReal:
		cp.SetReal(v.r)
	case kOID:
		cp.SetRelativeOID(v.o)
	}
}

var kindType = []embertree.ValueType{embertree.ValueTypeString, embertree.ValueTypeBool, embertree.ValueTypeInteger, embertree.ValueTypeBuffer, embertree.ValueTypeReal, embertree.ValueTypeOID}

// check asserts that cp holds exactly v.
func (v val) check(cp *embertree.ContentParameter, label string) {
	vp.Assert(cp.IsSet(), label+": set")
	vp.Assert(cp.GetType() == kindType[v.k], label+": type")
	s, e0 := cp.GetString()
	b, e1 := cp.GetBool()
	i, e2 := cp.GetInt()
	u, e3 := cp.GetBuffer()
	r, e4 := cp.GetReal()
	o, e5 := cp.GetRelativeOID()
	for k, e := range []bool{e0 == nil, e1 == nil, e2 == nil, e3 == nil, e4 == nil, e5 == nil} {
		vp.Assert(e == (k == v.k), label+": readable as its own type only")
	}
	switch v.k {
	case kStr:
		vp.Assert(len(s) == len(v.s) && vp.EqStr(s, v.s), label+": string value")
	case kBool:
		vp.Assert(b == v.b, label+": bool value")
	case kInt:
		vp.Assert(i == v.i, label+": int value")
	case kBuf:
		vp.Assert(len(u) == len(v.buf) && vp.EqBytes(u, v.buf), label+": buffer value")
	case kReal:
		vp.Assert(r == v.r, label+": real value")
	case kOID:
		vp.Assert(eqOID(o, v.o), label+": oid value")
	}
}

func checkUnset(cp *embertree.ContentParameter, label string) {
	vp.Assert(!cp.IsSet() && cp.GetType() == embertree.ValueTypeUnset, label+": unset")
	_, e0 := cp.GetString()
	_, e1 := cp.GetBool()
	_, e2 := cp.GetInt()
	_, e3 := cp.GetBuffer()
	_, e4 := cp.GetReal()
	_, e5 := cp.GetRelativeOID()
	vp.Assert(e0 != nil && e1 != nil && e2 != nil && e3 != nil && e4 != nil && e5 != nil, label+": unset value readable")
}

// fld is one member of a contents set.
type fld struct {
	n int
	v []byte
}

func setOf(f forms, fs ...fld) []byte {
	var ps [][]byte
	for _, x := range fs {
		ps = append(ps, f.c(ctx(x.n), x.v))
	}
	return f.c(tagSet, ps...)
}

// rot is a rotation of the fields, chosen by the engine: the members of a set come in any order.
func rot(fs []fld) []fld {
	if len(fs) < 2 {
		return fs
	}
	k := vp.Choose("rot", len(fs))
	return append(append([]fld(nil), fs[k:]...), fs[:k]...)
}

func eqLit(s, t string) bool { return len(s) == len(t) && vp.EqStr(s, t) }
