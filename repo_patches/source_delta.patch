From 9d89fe5ad74d7b41ffd05a482700fa69bf06b410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:47 +0000
Subject: [PATCH 01/53] fix: WriteNull writes a complete TLV with a zero length

---
 asn1/encode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1/encode.go b/asn1/encode.go
index c9426eb..de7fb96 100755
--- a/asn1/encode.go
+++ b/asn1/encode.go
@@ -120,7 +120,7 @@ func (asn *ASNWriter) WriteInt64(i int64) errors.Error {
 }
 
 func (asn *ASNWriter) WriteNull() errors.Error {
-	err := asn.data.WriteByte(EMBER_NULL)
+	_, err := asn.data.Write([]byte{EMBER_NULL, 0})
 	return errors.NewError(err)
 }
 
-- 
2.43.0


From f1a589d48e844375a89905229b43bab2fbf71da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:50 +0000
Subject: [PATCH 02/53] fix: write correct length headers above 65535 bytes

---
 asn1/encode.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/asn1/encode.go b/asn1/encode.go
index de7fb96..84f8237 100755
--- a/asn1/encode.go
+++ b/asn1/encode.go
@@ -259,7 +259,7 @@ func (asn *ASNWriter) writeLength(len int) errors.Error {
 		}
 		err = asn.data.WriteByte(byte(len & 0xFF))
 	} else if len <= 0xffffff {
-		err = asn.data.WriteByte(0x82)
+		err = asn.data.WriteByte(0x83)
 		if err != nil {
 			return errors.NewError(err)
 		}
@@ -272,6 +272,10 @@ func (asn *ASNWriter) writeLength(len int) errors.Error {
 			return errors.NewError(err)
 		}
 		err = asn.data.WriteByte(byte(len & 0xFF))
+	} else if len <= 0x7fffffff {
+		_, err = asn.data.Write([]byte{0x84, byte(len >> 24), byte(len >> 16), byte(len >> 8), byte(len)})
+	} else {
+		return errors.New("Length too big %d", len)
 	}
 	return errors.NewError(err)
 }
-- 
2.43.0


From bbf983a2d4b275652e733dc660442452dd6f607b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:53 +0000
Subject: [PATCH 03/53] fix: WriteRelativeOID encodes 127 in a single byte

---
 asn1/encode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1/encode.go b/asn1/encode.go
index 84f8237..301bb8c 100755
--- a/asn1/encode.go
+++ b/asn1/encode.go
@@ -336,7 +336,7 @@ func (asn *ASNWriter) WriteRelativeOID(oid RelativeOID) errors.Error {
 		val := oid[i]
 		encodedBytes := make([]byte, 0)
 		for {
-			if val < 0x7F {
+			if val <= 0x7F {
 				break
 			}
 			encodedBytes = append(encodedBytes, byte(val&0x7F))
-- 
2.43.0


From 5e16665027bbbbd1f584e65f249001a5fc6ff22e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:46 +0000
Subject: [PATCH 04/53] fix: WriteRelativeOID rejects negative values

---
 asn1/encode.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/asn1/encode.go b/asn1/encode.go
index 301bb8c..8a6861b 100755
--- a/asn1/encode.go
+++ b/asn1/encode.go
@@ -334,6 +334,9 @@ func (asn *ASNWriter) WriteRelativeOID(oid RelativeOID) errors.Error {
 	buffer := make([]byte, 0)
 	for i := 0; i < len(oid); i++ {
 		val := oid[i]
+		if val < 0 {
+			return errors.New("Invalid negative OID value %d", val)
+		}
 		encodedBytes := make([]byte, 0)
 		for {
 			if val <= 0x7F {
-- 
2.43.0


From 31aa8b48e3800dd5fc96cbffd66bb161a7ce3c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:50 +0000
Subject: [PATCH 05/53] fix: REAL decoding of zero, oversized and out of range
 values, subnormals

---
 asn1/decode.go | 36 ++++++++++++++++++++++--------------
 asn1/encode.go | 12 +++++++++++-
 2 files changed, 33 insertions(+), 15 deletions(-)

diff --git a/asn1/decode.go b/asn1/decode.go
index 4ff5426..4e3d123 100755
--- a/asn1/decode.go
+++ b/asn1/decode.go
@@ -3,6 +3,7 @@ package asn1
 import (
 	"bytes"
 	"math"
+	"math/bits"
 
 	"github.com/dufourgilles/emberlib/errors"
 )
@@ -374,7 +375,7 @@ func (a *ASNReader) ReadReal() (float64, errors.Error) {
 	}
 
 	buf, e := a.readStringBuffer()
-	if e != nil || buf == nil {
+	if e != nil || len(buf) == 0 {
 		return 0.0, errors.Update(e)
 	}
 
@@ -416,29 +417,36 @@ func (a *ASNReader) ReadReal() (float64, errors.Error) {
 
 	significand := uint64(0)
 	for pos < len(buf) {
+		if significand>>56 != 0 {
+			return math.NaN(), errors.New("Real significand too big at offset %d", offset)
+		}
 		significand = (significand << 8) | uint64(buf[pos])
 		pos++
 	}
 
+	if (significand<<significandShift)>>significandShift != significand {
+		return math.NaN(), errors.New("Real significand too big at offset %d", offset)
+	}
 	significand = significand << significandShift
-
-	mask := uint64(0x7FFFF00000000000)
-	for significand&mask == 0 {
-		significand <<= 8
+	if significand == 0 {
+		return 0.0, nil
 	}
-
-	mask = uint64(0x7FF0000000000000)
-	for significand&mask == 0 {
-		significand <<= 1
+	if exponent < -1074 || exponent > 1023 {
+		return math.NaN(), errors.New("Real exponent %d out of range at offset %d", exponent, offset)
 	}
 
-	significand = significand & uint64(0x000FFFFFFFFFFFFF)
-	longExponent := uint64(exponent)
-	bits := ((longExponent + 1023) << 52) | significand
+	// move the leading bit to the implicit bit position (52).
+	significand = (significand << uint(bits.LeadingZeros64(significand))) >> 11
+	var value uint64
+	if exponent < -1022 {
+		value = significand >> uint(-1022-exponent)
+	} else {
+		value = (uint64(exponent+1023) << 52) | (significand & uint64(0x000FFFFFFFFFFFFF))
+	}
 	if sign < 0 {
-		bits |= uint64(0x8000000000000000)
+		value |= uint64(0x8000000000000000)
 	}
 
-	return math.Float64frombits(bits), nil
+	return math.Float64frombits(value), nil
 
 }
diff --git a/asn1/encode.go b/asn1/encode.go
index 8a6861b..a87acb2 100755
--- a/asn1/encode.go
+++ b/asn1/encode.go
@@ -202,8 +202,18 @@ func (asn *ASNWriter) WriteReal(r float64) errors.Error {
 	// return asn.writeUntagBuffer(buf)
 
 	bits := math.Float64bits(r)
-	significand := (uint64(0x000FFFFFFFFFFFFF) & bits) | 0x0010000000000000
+	significand := uint64(0x000FFFFFFFFFFFFF) & bits
 	exponent := int(((uint64(0x7FF0000000000000) & bits) >> 52)) - 1023
+	if exponent > -1023 {
+		significand |= 0x0010000000000000
+	} else {
+		// subnormal number: no implicit leading bit.
+		exponent++
+		for significand&uint64(0x0010000000000000) == 0 {
+			significand <<= 1
+			exponent--
+		}
+	}
 
 	for significand&uint64(0xFF) == 0 {
 		significand = significand >> 8
-- 
2.43.0


From 91291e6e0f78d20507fa7e681d828f93213c7e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:15 +0000
Subject: [PATCH 06/53] fix: ReadOID checks the tag and rejects truncated or
 oversized values

---
 asn1/decode.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/asn1/decode.go b/asn1/decode.go
index 4e3d123..20e0836 100755
--- a/asn1/decode.go
+++ b/asn1/decode.go
@@ -83,10 +83,13 @@ func (a *ASNReader) ReadBoolean() (bool, errors.Error) {
 func (a *ASNReader) ReadOID(tag uint8) (RelativeOID, errors.Error) {
 	var oid RelativeOID
 	offset := a.TopOffset()
-	tag, err := a.ReadByte()
+	b, err := a.ReadByte()
 	if err != nil {
 		return nil, errors.New("Failed to read OID tag at offset %d. %s", offset, err)
 	}
+	if b != tag {
+		return nil, errors.New("Incorrect OID tag %d at offset %d", b, offset)
+	}
 	buf, err := a.readStringBuffer()
 	if err != nil {
 		return nil, errors.Update(err)
@@ -95,11 +98,16 @@ func (a *ASNReader) ReadOID(tag uint8) (RelativeOID, errors.Error) {
 	value := int32(0)
 	for i := 0; i < len(buf); i++ {
 		b := buf[i] & 0xff
+		if value>>24 != 0 {
+			return nil, errors.New("OID value too big at offset %d", offset)
+		}
 		value <<= 7
 		value += int32(b & 0x7f)
 		if b&0x80 == 0 {
 			oid = append(oid, value)
 			value = 0
+		} else if i == len(buf)-1 {
+			return nil, errors.New("Truncated OID at offset %d", offset)
 		}
 	}
 
-- 
2.43.0


From aa5c1527e8f294cd8497c0b925332336dab71ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:53 +0000
Subject: [PATCH 07/53] fix: strings and buffers reject lengths exceeding the
 available data

---
 asn1/decode.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/asn1/decode.go b/asn1/decode.go
index 20e0836..efecee4 100755
--- a/asn1/decode.go
+++ b/asn1/decode.go
@@ -332,6 +332,9 @@ func (a *ASNReader) readStringBuffer() ([]byte, errors.Error) {
 	} else if l == 0 {
 		return nil, nil
 	}
+	if l > a.Len() {
+		return nil, errors.New("Length %d exceeds the %d bytes left at offset %d", l, a.Len(), a.TopOffset())
+	}
 	b = make([]byte, l)
 	for i := 0; i < l; i++ {
 		b[i], err = a.ReadByte()
-- 
2.43.0


From fa2a18d1b8ee526e2c99932871c68f07a21e3310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:56 +0000
Subject: [PATCH 08/53] fix: empty sub reader reports its absolute offset

---
 asn1/decode.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/asn1/decode.go b/asn1/decode.go
index efecee4..dbdf014 100755
--- a/asn1/decode.go
+++ b/asn1/decode.go
@@ -31,11 +31,13 @@ func (a *ASNReader) TopOffset() int {
 }
 
 func (a *ASNReader) NewReader(length int) (*ASNReader, errors.Error) {
+	offset := a.TopOffset()
 	if length <= 0 {
-		return NewASNReader([]byte{}), nil
+		newReader := NewASNReader([]byte{})
+		newReader.startingOffset = offset
+		return newReader, nil
 	}
 	b := make([]byte, length)
-	offset := a.TopOffset()
 	_, err := a.data.Read(b)
 	if err != nil {
 		return nil, errors.New("Failed To read byte at offset %d. %s", a.TopOffset(), err)
-- 
2.43.0


From 9ff3a9bf6006e4d38201e7101a28974a4b088e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:59 +0000
Subject: [PATCH 09/53] fix: ReadBoolean rejects a truncated value

---
 asn1/decode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1/decode.go b/asn1/decode.go
index dbdf014..1b88040 100755
--- a/asn1/decode.go
+++ b/asn1/decode.go
@@ -73,7 +73,7 @@ func (a *ASNReader) ReadBoolean() (bool, errors.Error) {
 		return false, errors.New("Invalid boolean length %d at offset %d", l, offset)
 	}
 	b, e := a.ReadByte()
-	if err != nil {
+	if e != nil {
 		return false, errors.Update(e)
 	}
 	if b == 0 {
-- 
2.43.0


From aa684293e292cdc258af4e4dd7b249744118b12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:03 +0000
Subject: [PATCH 10/53] fix: ReadSequenceStart reports an invalid length

---
 asn1/decode.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/asn1/decode.go b/asn1/decode.go
index 1b88040..0f93913 100755
--- a/asn1/decode.go
+++ b/asn1/decode.go
@@ -164,6 +164,9 @@ func (a *ASNReader) ReadSequenceStart(tag uint8) (int, *ASNReader, errors.Error)
 		return -1, a, errors.New("Sequence TAG mismatch at offset %d. Got %d instead of %d", offset, b, tag)
 	}
 	length, err := a.ReadLength()
+	if err != nil {
+		return -1, nil, errors.Update(err)
+	}
 	if length >= 0 {
 		newReader, err := a.NewReader(length)
 
-- 
2.43.0


From ff687924d7689888b951dfbb9a7c13fde4bae418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:06 +0000
Subject: [PATCH 11/53] fix: integer readers reject truncated and empty values

---
 asn1/decode.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/asn1/decode.go b/asn1/decode.go
index 0f93913..bb73abd 100755
--- a/asn1/decode.go
+++ b/asn1/decode.go
@@ -231,10 +231,16 @@ func (a *ASNReader) ReadInt() (int, errors.Error) {
 	if l > 4 {
 		return 0, errors.New("Integer length too big %d at offset %d", l, offset)
 	}
+	if l < 1 {
+		return 0, errors.New("Invalid integer length %d at offset %d", l, offset)
+	}
 
 	var b byte
 	val := int(0)
 	b, err = a.ReadByte()
+	if err != nil {
+		return 0, errors.Update(err)
+	}
 	if b&0x80 > 0 {
 		val = -1
 	}
@@ -295,8 +301,14 @@ func (a *ASNReader) ReadInt64() (int64, errors.Error) {
 	if l > 8 {
 		return 0, errors.New("Integer64 length too big %d at offset %d", l, offset)
 	}
+	if l < 1 {
+		return 0, errors.New("Invalid integer64 length %d at offset %d", l, offset)
+	}
 
 	val, err := a.readInt64(l)
+	if err != nil {
+		return 0, errors.Update(err)
+	}
 	return val, nil
 }
 
-- 
2.43.0


From 4f9cad644f7cb594502048c6a1464a001062d3eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:17 +0000
Subject: [PATCH 12/53] fix: matrix content fields use distinct Glow context
 numbers

---
 embertree/matrix.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/embertree/matrix.go b/embertree/matrix.go
index 8cc4036..f0bf352 100755
--- a/embertree/matrix.go
+++ b/embertree/matrix.go
@@ -8,15 +8,15 @@ import (
 )
 
 const (
-	matrixTypeCtx               = 2
-	matrixModeCtx               = iota
-	targetCountCtx              = iota
-	sourceCounCtx               = iota
-	maximumTotalConnectsCtx     = iota
-	maximumConnectsPerTargetCtx = iota
-	parametersLocationCtx       = iota
-	gainParameterNumberCtx      = iota
-	matrixContentSize           = iota
+	matrixTypeCtx               = iota + 2
+	matrixModeCtx               = iota + 2
+	targetCountCtx              = iota + 2
+	sourceCounCtx               = iota + 2
+	maximumTotalConnectsCtx     = iota + 2
+	maximumConnectsPerTargetCtx = iota + 2
+	parametersLocationCtx       = iota + 2
+	gainParameterNumberCtx      = iota + 2
+	matrixContentSize           = iota + 2
 )
 
 type MatrixType int8
-- 
2.43.0


From dfa34a59eb1999e04ea321aa79bf9c8d4de794c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:21 +0000
Subject: [PATCH 13/53] fix: field flags use the Glow values

---
 embertree/command.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/embertree/command.go b/embertree/command.go
index e6631a2..2b139f9 100755
--- a/embertree/command.go
+++ b/embertree/command.go
@@ -17,13 +17,13 @@ type FieldFlags int
 
 const (
 	SparseFieldFlags      FieldFlags = -2
-	ALLFieldFlags         FieldFlags  = iota
-	DefaultFieldFlags     FieldFlags  = iota
-	IdentifierFieldFlags  FieldFlags  = iota
-	DescriptionFieldFlags FieldFlags  = iota
-	TreeFieldFlags        FieldFlags  = iota
-	ValueFieldFlags       FieldFlags  = iota
-	ConnectionsFieldFlags FieldFlags  = iota
+	ALLFieldFlags         FieldFlags = iota - 2
+	DefaultFieldFlags     FieldFlags = iota - 2
+	IdentifierFieldFlags  FieldFlags = iota - 2
+	DescriptionFieldFlags FieldFlags = iota - 2
+	TreeFieldFlags        FieldFlags = iota - 2
+	ValueFieldFlags       FieldFlags = iota - 2
+	ConnectionsFieldFlags FieldFlags = iota - 2
 )
 
 type CommandContents struct {
-- 
2.43.0


From 29b304b9464ad81601105e7306824c7a5a21aed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:24 +0000
Subject: [PATCH 14/53] fix: DecodeElement rejects unknown fields and empty
 paths, decodes qualified functions

---
 embertree/elementFactory.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/embertree/elementFactory.go b/embertree/elementFactory.go
index db2e9f8..f6f8384 100755
--- a/embertree/elementFactory.go
+++ b/embertree/elementFactory.go
@@ -21,6 +21,8 @@ func getContentCreator(tag uint8) (ContentCreator, errors.Error) {
 		fallthrough
 	case MatrixApplication:
 		return NewDefaultMatrixContents, nil
+	case QualifiedFunctionApplication:
+		fallthrough
 	case FunctionApplication:
 		return NewFunctionContents, nil
 	default:
@@ -87,6 +89,9 @@ func decodeContents(element *Element, ctxt uint8, reader *asn1.ASNReader) (inter
 
 func decodeChildren(ctxt uint8, element *Element, reader *asn1.ASNReader) errors.Error {
 	_, ctxtReader, err := reader.ReadSequenceStart(ctxt)
+	if err != nil {
+		return errors.Update(err)
+	}
 	_, childrenReader, err := ctxtReader.ReadSequenceStart(asn1.Application(4))
 	if err != nil {
 		return errors.Update(err)
@@ -138,6 +143,9 @@ func DecodeElement(reader *asn1.ASNReader) (*Element, errors.Error) {
 	}
 	if IsQualifiedTag(tag) {
 		path, err = ctxtReader.ReadOID(asn1.EMBER_RELATIVE_OID)
+		if err == nil && len(path) == 0 {
+			err = errors.New("Empty path at offset %d.", ctxtReader.TopOffset())
+		}
 	} else {
 		number, err = ctxtReader.ReadInt()
 	}
@@ -192,6 +200,8 @@ func DecodeElement(reader *asn1.ASNReader) (*Element, errors.Error) {
 			if err != nil {
 				return nil, errors.Update(err)
 			}
+		} else {
+			return nil, errors.New("Unknown element tag 0x%x at offset %d.", b, elementReader.TopOffset())
 		}
 		end, err := elementReader.CheckSequenceEnd()
 		if end {
-- 
2.43.0


From b97e948d5018950f2cb506dca3364208dc645d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:27 +0000
Subject: [PATCH 15/53] fix: contents decoders report malformed or unknown
 fields and keep matrix labels

---
 embertree/connection.go |  3 +++
 embertree/matrix.go     | 12 ++++++++++--
 embertree/node.go       |  3 +++
 embertree/parameter.go  |  5 +++++
 4 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/embertree/connection.go b/embertree/connection.go
index 506b13a..fe1afd5 100755
--- a/embertree/connection.go
+++ b/embertree/connection.go
@@ -149,6 +149,9 @@ func (c *Connection) Decode(reader *asn1.ASNReader) errors.Error {
 		}
 
 		_, ctxtReader, err := connectionReader.ReadSequenceStart(tag)
+		if err != nil {
+			return errors.Update(err)
+		}
 		switch tag {
 		case asn1.Context(1):
 			//Sources
diff --git a/embertree/matrix.go b/embertree/matrix.go
index f0bf352..ea98ecd 100755
--- a/embertree/matrix.go
+++ b/embertree/matrix.go
@@ -293,7 +293,7 @@ func (c *MatrixContent) DecodeLabels(reader *asn1.ASNReader) errors.Error {
 			return errors.Update(err)
 		}
 	}
-	err = reader.ReadSequenceEnd()
+	err = labelReader.ReadSequenceEnd()
 	if err != nil {
 		return errors.Update(err)
 	}
@@ -364,7 +364,10 @@ func (c *MatrixContent) Decode(reader *asn1.ASNReader) errors.Error {
 				return errors.Update(err)
 			}
 		} else if peek == labelContext {
-			c.DecodeLabels(matrixContentReader)
+			err = c.DecodeLabels(matrixContentReader)
+			if err != nil {
+				return errors.Update(err)
+			}
 		} else if index == 11 {
 			value, err := DecodeValue(matrixContentReader, index)
 			if err != nil {
@@ -376,6 +379,9 @@ func (c *MatrixContent) Decode(reader *asn1.ASNReader) errors.Error {
 			}
 		} else if peek == templateReferenceContext {
 			_, templateReader, err := matrixContentReader.ReadSequenceStart(peek)
+			if err != nil {
+				return errors.Update(err)
+			}
 			templateReference, err := templateReader.ReadOID(asn1.EMBER_RELATIVE_OID)
 			if err != nil {
 				return errors.Update(err)
@@ -385,6 +391,8 @@ func (c *MatrixContent) Decode(reader *asn1.ASNReader) errors.Error {
 			if err != nil {
 				return errors.Update(err)
 			}
+		} else {
+			return errors.New("Unknown matrix content tag %d at offset %d", peek, matrixContentReader.TopOffset())
 		}
 		end, err := matrixContentReader.CheckSequenceEnd()
 		if end {
diff --git a/embertree/node.go b/embertree/node.go
index 7479e63..b9dc6a9 100755
--- a/embertree/node.go
+++ b/embertree/node.go
@@ -182,6 +182,9 @@ func (nc *NodeContents) Decode(reader *asn1.ASNReader) errors.Error {
 		case asn1.Context(5):
 			{
 				_, templateReader, err := reader.ReadSequenceStart(peek)
+				if err != nil {
+					return errors.Update(err)
+				}
 				templateReference, err := templateReader.ReadOID(asn1.EMBER_RELATIVE_OID)
 				if err != nil {
 					return errors.Update(err)
diff --git a/embertree/parameter.go b/embertree/parameter.go
index 6216a53..ffc1455 100755
--- a/embertree/parameter.go
+++ b/embertree/parameter.go
@@ -203,6 +203,9 @@ func (pc *ParameterContents) Decode(reader *asn1.ASNReader) errors.Error {
 			}
 		} else if index == 18 {
 			_, templateReader, err := reader.ReadSequenceStart(peek)
+			if err != nil {
+				return errors.Update(err)
+			}
 			templateReference, err := templateReader.ReadOID(asn1.EMBER_RELATIVE_OID)
 			if err != nil {
 				return errors.Update(err)
@@ -212,6 +215,8 @@ func (pc *ParameterContents) Decode(reader *asn1.ASNReader) errors.Error {
 			if err != nil {
 				return errors.Update(err)
 			}
+		} else {
+			return errors.New("Unknown parameter content tag %d at offset %d", peek, reader.TopOffset())
 		}
 		end, err := reader.CheckSequenceEnd()
 		if end {
-- 
2.43.0


From 7d1aadad80b24def26927d06b30973a6f7b705ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:17 +0000
Subject: [PATCH 16/53] fix: empty indefinite-length containers decode, loop
 errors are reported

---
 embertree/connection.go     | 13 +++++++-----
 embertree/elementFactory.go | 32 ++++++++++++++--------------
 embertree/function.go       | 42 +++++++++++++++++++++----------------
 embertree/invocation.go     | 21 +++++++++++--------
 embertree/matrix.go         | 32 ++++++++++++++--------------
 embertree/matrix_element.go | 32 ++++++++++++++--------------
 embertree/node.go           | 16 +++++++-------
 embertree/parameter.go      | 16 +++++++-------
 embertree/root.go           | 16 +++++++-------
 9 files changed, 116 insertions(+), 104 deletions(-)

diff --git a/embertree/connection.go b/embertree/connection.go
index fe1afd5..e93e767 100755
--- a/embertree/connection.go
+++ b/embertree/connection.go
@@ -142,7 +142,14 @@ func (c *Connection) Decode(reader *asn1.ASNReader) errors.Error {
 		return errors.Update(err)
 	}
 
-	for connectionReader.Len() > 0 {
+	for {
+		end, err := connectionReader.CheckSequenceEnd()
+		if err != nil {
+			return errors.Update(err)
+		}
+		if end {
+			break
+		}
 		tag, err := connectionReader.Peek()
 		if err != nil {
 			return errors.Update(err)
@@ -188,10 +195,6 @@ func (c *Connection) Decode(reader *asn1.ASNReader) errors.Error {
 		if err != nil {
 			return errors.Update(err)
 		}
-		end, err := connectionReader.CheckSequenceEnd()
-		if end {
-			break
-		}
 	}
 	return nil
 }
diff --git a/embertree/elementFactory.go b/embertree/elementFactory.go
index f6f8384..14697cc 100755
--- a/embertree/elementFactory.go
+++ b/embertree/elementFactory.go
@@ -96,7 +96,14 @@ func decodeChildren(ctxt uint8, element *Element, reader *asn1.ASNReader) errors
 	if err != nil {
 		return errors.Update(err)
 	}
-	for childrenReader.Len() > 0 {
+	for {
+		end, err := childrenReader.CheckSequenceEnd()
+		if err != nil {
+			return errors.Update(err)
+		}
+		if end {
+			break
+		}
 		_, childReader, err := childrenReader.ReadSequenceStart(asn1.Context(0))
 		if err != nil {
 			return errors.Update(err)
@@ -111,13 +118,6 @@ func decodeChildren(ctxt uint8, element *Element, reader *asn1.ASNReader) errors
 			return errors.Update(err)
 		}
 		element.AddChild(child)
-		end, err := childrenReader.CheckSequenceEnd()
-		if end {
-			break
-		}
-		if err != nil {
-			return errors.Update(err)
-		}
 	}
 	return ctxtReader.ReadSequenceEnd()
 }
@@ -169,7 +169,14 @@ func DecodeElement(reader *asn1.ASNReader) (*Element, errors.Error) {
 	} else {
 		element = NewElement(tag, number, contentCreator)
 	}
-	for elementReader.Len() > 0 {
+	for {
+		end, err := elementReader.CheckSequenceEnd()
+		if err != nil {
+			return nil, errors.Update(err)
+		}
+		if end {
+			break
+		}
 		b, err := elementReader.Peek()
 		if err != nil {
 			return nil, errors.Update(err)
@@ -203,13 +210,6 @@ func DecodeElement(reader *asn1.ASNReader) (*Element, errors.Error) {
 		} else {
 			return nil, errors.New("Unknown element tag 0x%x at offset %d.", b, elementReader.TopOffset())
 		}
-		end, err := elementReader.CheckSequenceEnd()
-		if end {
-			break
-		}
-		if err != nil {
-			return element, errors.Update(err)
-		}
 	}
 	return element, nil
 }
diff --git a/embertree/function.go b/embertree/function.go
index 8471fa7..91e2877 100755
--- a/embertree/function.go
+++ b/embertree/function.go
@@ -96,7 +96,14 @@ func decodeTupleDescriptions(reader *asn1.ASNReader) ([]*TupleDescription, error
 	if err != nil {
 		return nil, errors.Update(err)
 	}
-	for seqReader.Len() > 0 {
+	for {
+		end, err := seqReader.CheckSequenceEnd()
+		if err != nil {
+			return nil, errors.Update(err)
+		}
+		if end {
+			break
+		}
 		_, argReader, err := seqReader.ReadSequenceStart(asn1.Context(0))
 		if err != nil {
 			return nil, errors.Update(err)
@@ -111,13 +118,6 @@ func decodeTupleDescriptions(reader *asn1.ASNReader) ([]*TupleDescription, error
 		if err != nil {
 			return nil, errors.Update(err)
 		}
-		end, err := seqReader.CheckSequenceEnd()
-		if end {
-			break
-		}
-		if err != nil {
-			return nil, errors.Update(err)
-		}
 	}
 	return arguments, nil
 }
@@ -157,7 +157,14 @@ func (tuple *TupleDescription) Decode(reader *asn1.ASNReader) errors.Error {
 	if err != nil {
 		return errors.Update(err)
 	}
-	for tupleReader.Len() > 0 {
+	for {
+		end, err := tupleReader.CheckSequenceEnd()
+		if err != nil {
+			return errors.Update(err)
+		}
+		if end {
+			break
+		}
 		peek, err := tupleReader.Peek()
 		if err != nil {
 			return errors.Update(err)
@@ -188,10 +195,6 @@ func (tuple *TupleDescription) Decode(reader *asn1.ASNReader) errors.Error {
 		if err != nil {
 			return errors.Update(err)
 		}
-		end, err := tupleReader.CheckSequenceEnd()
-		if end || err != nil {
-			break
-		}
 	}
 	return errors.Update(err)
 }
@@ -243,7 +246,14 @@ func (fc *FunctionContents) Decode(reader *asn1.ASNReader) errors.Error {
 	if err != nil {
 		return errors.Update(err)
 	}
-	for reader.Len() > 0 {
+	for {
+		end, err := reader.CheckSequenceEnd()
+		if err != nil {
+			return errors.Update(err)
+		}
+		if end {
+			break
+		}
 		peek, err := reader.Peek()
 		if err != nil {
 			return errors.Update(err)
@@ -288,10 +298,6 @@ func (fc *FunctionContents) Decode(reader *asn1.ASNReader) errors.Error {
 		default:
 			return errors.New("Unknown function content tag %d", peek)
 		}
-		end, err := reader.CheckSequenceEnd()
-		if end || err != nil {
-			break
-		}
 	}
 	return errors.Update(err)
 }
diff --git a/embertree/invocation.go b/embertree/invocation.go
index c7f1565..442c264 100755
--- a/embertree/invocation.go
+++ b/embertree/invocation.go
@@ -69,7 +69,14 @@ func (i *Invocation) Decode(reader *asn1.ASNReader) errors.Error {
 		return errors.Update(err)
 	}
 
-	for invocationReader.Len() > 0 {
+	for {
+		end, err := invocationReader.CheckSequenceEnd()
+		if err != nil {
+			return errors.Update(err)
+		}
+		if end {
+			break
+		}
 		peek, err := invocationReader.Peek()
 		if err != nil {
 			return errors.Update(err)
@@ -92,19 +99,19 @@ func (i *Invocation) Decode(reader *asn1.ASNReader) errors.Error {
 			if err != nil {
 				return errors.Update(err)
 			}
-			for seqReader.Len() > 0 {
-				value, err := DecodeValue(seqReader, 0)
+			for {
+				end, err := seqReader.CheckSequenceEnd()
 				if err != nil {
 					return errors.Update(err)
 				}
-				arguments = append(arguments, value)
-				end, err := seqReader.CheckSequenceEnd()
 				if end {
 					break
 				}
+				value, err := DecodeValue(seqReader, 0)
 				if err != nil {
 					return errors.Update(err)
 				}
+				arguments = append(arguments, value)
 			}
 			break
 		default:
@@ -114,10 +121,6 @@ func (i *Invocation) Decode(reader *asn1.ASNReader) errors.Error {
 		if err != nil {
 			return errors.Update(err)
 		}
-		end, err := invocationReader.CheckSequenceEnd()
-		if end || err != nil {
-			break
-		}
 	}
 	return errors.Update(err)
 }
diff --git a/embertree/matrix.go b/embertree/matrix.go
index ea98ecd..994133b 100755
--- a/embertree/matrix.go
+++ b/embertree/matrix.go
@@ -271,7 +271,14 @@ func (c *MatrixContent) DecodeLabels(reader *asn1.ASNReader) errors.Error {
 	if err != nil {
 		return errors.Update(err)
 	}
-	for seqReader.Len() > 0 {
+	for {
+		end, err := seqReader.CheckSequenceEnd()
+		if err != nil {
+			return errors.Update(err)
+		}
+		if end {
+			break
+		}
 		_, ctxtReader, err := seqReader.ReadSequenceStart(asn1.Context(0))
 		if err != nil {
 			return errors.Update(err)
@@ -285,13 +292,6 @@ func (c *MatrixContent) DecodeLabels(reader *asn1.ASNReader) errors.Error {
 		if err != nil {
 			return errors.Update(err)
 		}
-		end, err := seqReader.CheckSequenceEnd()
-		if end {
-			break
-		}
-		if err != nil {
-			return errors.Update(err)
-		}
 	}
 	err = labelReader.ReadSequenceEnd()
 	if err != nil {
@@ -348,7 +348,14 @@ func (c *MatrixContent) Decode(reader *asn1.ASNReader) errors.Error {
 		return errors.Update(err)
 	}
 
-	for matrixContentReader.Len() > 0 {
+	for {
+		end, err := matrixContentReader.CheckSequenceEnd()
+		if err != nil {
+			return errors.Update(err)
+		}
+		if end {
+			break
+		}
 		peek, err := matrixContentReader.Peek()
 		if err != nil {
 			return errors.Update(err)
@@ -394,13 +401,6 @@ func (c *MatrixContent) Decode(reader *asn1.ASNReader) errors.Error {
 		} else {
 			return errors.New("Unknown matrix content tag %d at offset %d", peek, matrixContentReader.TopOffset())
 		}
-		end, err := matrixContentReader.CheckSequenceEnd()
-		if end {
-			break
-		}
-		if err != nil {
-			return errors.Update(err)
-		}
 	}
 
 	return nil
diff --git a/embertree/matrix_element.go b/embertree/matrix_element.go
index 974227b..7c26a94 100755
--- a/embertree/matrix_element.go
+++ b/embertree/matrix_element.go
@@ -59,7 +59,14 @@ func DeodeSignals(reader *asn1.ASNReader, ctxt uint8) ([]Signal, errors.Error) {
 		return nil, errors.Update(err)
 	}
 
-	for setReader.Len() > 0 {
+	for {
+		end, err := setReader.CheckSequenceEnd()
+		if err != nil {
+			return nil, errors.Update(err)
+		}
+		if end {
+			break
+		}
 		_, ctxtReader, err := setReader.ReadSequenceStart(asn1.Context(0))
 		if err != nil {
 			return nil, errors.Update(err)
@@ -73,13 +80,6 @@ func DeodeSignals(reader *asn1.ASNReader, ctxt uint8) ([]Signal, errors.Error) {
 		if err != nil {
 			return nil, errors.Update(err)
 		}
-		end, err := setReader.CheckSequenceEnd()
-		if end {
-			break
-		}
-		if err != nil {
-			return nil, errors.Update(err)
-		}
 	}
 	return signals, signalsReader.ReadSequenceEnd()
 }
@@ -153,7 +153,14 @@ func (element *Element) DecodeConnections(reader *asn1.ASNReader) errors.Error {
 	if err != nil {
 		return errors.Update(err)
 	}
-	for setReader.Len() > 0 {
+	for {
+		end, err := setReader.CheckSequenceEnd()
+		if err != nil {
+			return errors.Update(err)
+		}
+		if end {
+			break
+		}
 		_, ctxtReader, err := setReader.ReadSequenceStart(asn1.Context(0))
 		if err != nil {
 			return errors.Update(err)
@@ -168,13 +175,6 @@ func (element *Element) DecodeConnections(reader *asn1.ASNReader) errors.Error {
 		if err != nil {
 			return errors.Update(err)
 		}
-		end, err := setReader.CheckSequenceEnd()
-		if end {
-			break
-		}
-		if err != nil {
-			return errors.Update(err)
-		}
 	}
 	element.connections = connections
 	return connectionReader.ReadSequenceEnd()
diff --git a/embertree/node.go b/embertree/node.go
index b9dc6a9..4895b45 100755
--- a/embertree/node.go
+++ b/embertree/node.go
@@ -142,7 +142,14 @@ func (nc *NodeContents) Decode(reader *asn1.ASNReader) errors.Error {
 		return errors.Update(err)
 	}
 
-	for reader.Len() > 0 {
+	for {
+		end, err := reader.CheckSequenceEnd()
+		if err != nil {
+			return errors.Update(err)
+		}
+		if end {
+			break
+		}
 		peek, err := reader.Peek()
 		if err != nil {
 			return errors.Update(err)
@@ -196,13 +203,6 @@ func (nc *NodeContents) Decode(reader *asn1.ASNReader) errors.Error {
 				}
 			}
 		}
-		end, err := reader.CheckSequenceEnd()
-		if end {
-			break
-		}
-		if err != nil {
-			return errors.Update(err)
-		}
 	}
 	return nil
 }
diff --git a/embertree/parameter.go b/embertree/parameter.go
index ffc1455..361d3ac 100755
--- a/embertree/parameter.go
+++ b/embertree/parameter.go
@@ -186,7 +186,14 @@ func (pc *ParameterContents) Decode(reader *asn1.ASNReader) errors.Error {
 		return errors.Update(err)
 	}
 
-	for reader.Len() > 0 {
+	for {
+		end, err := reader.CheckSequenceEnd()
+		if err != nil {
+			return errors.Update(err)
+		}
+		if end {
+			break
+		}
 		peek, err := reader.Peek()
 		if err != nil {
 			return errors.Update(err)
@@ -218,13 +225,6 @@ func (pc *ParameterContents) Decode(reader *asn1.ASNReader) errors.Error {
 		} else {
 			return errors.New("Unknown parameter content tag %d at offset %d", peek, reader.TopOffset())
 		}
-		end, err := reader.CheckSequenceEnd()
-		if end {
-			break
-		}
-		if err != nil {
-			return errors.Update(err)
-		}
 	}
 	return nil
 }
diff --git a/embertree/root.go b/embertree/root.go
index 2cbd180..1d4ccd5 100755
--- a/embertree/root.go
+++ b/embertree/root.go
@@ -96,7 +96,14 @@ func (root *RootElement) Decode(reader *asn1.ASNReader) errors.Error {
 		if err != nil {
 			return errors.Update(err)
 		}
-		for collectionReader.Len() > 0 {
+		for {
+			end, err := collectionReader.CheckSequenceEnd()
+			if err != nil {
+				return errors.Update(err)
+			}
+			if end {
+				break
+			}
 			_, elementReader, err := collectionReader.ReadSequenceStart(asn1.Context(0))
 			if err != nil {
 				return errors.Update(err)
@@ -118,13 +125,6 @@ func (root *RootElement) Decode(reader *asn1.ASNReader) errors.Error {
 			if err != nil {
 				return errors.Update(err)
 			}
-			end, err := collectionReader.CheckSequenceEnd()
-			if end {
-				break
-			}
-			if err != nil {
-				return errors.Update(err)
-			}
 		}
 	}
 	err = reader.ReadSequenceEnd()
-- 
2.43.0


From 884a2c5bdfa69a8bded8511ffd8f06185d22d890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:21 +0000
Subject: [PATCH 17/53] fix: relative OID values can be decoded and copied

---
 embertree/content_parameter.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/embertree/content_parameter.go b/embertree/content_parameter.go
index 5308270..8ba7751 100755
--- a/embertree/content_parameter.go
+++ b/embertree/content_parameter.go
@@ -149,6 +149,13 @@ func (cp *ContentParameter) Set(val *ContentParameter) errors.Error {
 		}
 		cp.SetReal(b)
 		break
+	case ValueTypeOID:
+		b, err := val.GetRelativeOID()
+		if err != nil {
+			return err
+		}
+		cp.SetRelativeOID(b)
+		break
 	}
 	return nil
 }
@@ -380,6 +387,13 @@ func DecodeValue(reader *asn1.ASNReader, ctxt uint8) (*ContentParameter, errors.
 		}
 		contentParameter.SetString(s)
 		break
+	case asn1.EMBER_RELATIVE_OID:
+		oid, err := pcReader.ReadOID(asn1.EMBER_RELATIVE_OID)
+		if err != nil {
+			return nil, errors.Update(err)
+		}
+		contentParameter.SetRelativeOID(oid)
+		break
 	default:
 		return nil, errors.New("Unknown value type %d.", pcType)
 	}
-- 
2.43.0


From fbb7c023b263574300f313ee5c65292942cb8882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:24 +0000
Subject: [PATCH 18/53] fix: Invocation keeps the decoded arguments

---
 embertree/invocation.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/embertree/invocation.go b/embertree/invocation.go
index 442c264..b8bb141 100755
--- a/embertree/invocation.go
+++ b/embertree/invocation.go
@@ -113,6 +113,7 @@ func (i *Invocation) Decode(reader *asn1.ASNReader) errors.Error {
 				}
 				arguments = append(arguments, value)
 			}
+			i.arguments = arguments
 			break
 		default:
 			return errors.New("Invovation decode error: Unknwon tag %d", peek)
-- 
2.43.0


From 8c677c7a7c81da6ad3acc5cd2c2e22059b93cb76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:27 +0000
Subject: [PATCH 19/53] fix: function contents carry their template reference

---
 embertree/function.go | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/embertree/function.go b/embertree/function.go
index 91e2877..820a45e 100755
--- a/embertree/function.go
+++ b/embertree/function.go
@@ -295,6 +295,17 @@ func (fc *FunctionContents) Decode(reader *asn1.ASNReader) errors.Error {
 				return errors.Update(err)
 			}
 			break
+		case asn1.Context(4):
+			templateReference, err := ctxtReader.ReadOID(asn1.EMBER_RELATIVE_OID)
+			if err != nil {
+				return errors.Update(err)
+			}
+			fc.templateReference = templateReference
+			err = ctxtReader.ReadSequenceEnd()
+			if err != nil {
+				return errors.Update(err)
+			}
+			break
 		default:
 			return errors.New("Unknown function content tag %d", peek)
 		}
@@ -334,6 +345,20 @@ func (fc *FunctionContents) Encode(writer *asn1.ASNWriter) errors.Error {
 			return errors.Update(err)
 		}
 	}
+	if fc.templateReference != nil {
+		err = writer.StartSequence(asn1.Context(4))
+		if err != nil {
+			return errors.Update(err)
+		}
+		err = writer.WriteRelativeOID(fc.templateReference)
+		if err != nil {
+			return errors.Update(err)
+		}
+		err = writer.EndSequence()
+		if err != nil {
+			return errors.Update(err)
+		}
+	}
 	writer.EndSequence()
 	return nil
 }
-- 
2.43.0


From 2c181f47f70ed455dc890d7191e29f5ba796c1c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:30 +0000
Subject: [PATCH 20/53] fix: encode all descendants of an element

---
 embertree/element.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/embertree/element.go b/embertree/element.go
index bab11d1..c6a569c 100755
--- a/embertree/element.go
+++ b/embertree/element.go
@@ -256,7 +256,7 @@ func (element *Element) EncodeChildren(writer *asn1.ASNWriter) errors.Error {
 		if err != nil {
 			return errors.Update(err)
 		}
-		err := child.encode(writer, true)
+		err := child.encode(writer, false)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 6c059324ed3ed744249ada2bdc7dc9574bfe8a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:34 +0000
Subject: [PATCH 21/53] fix: GetElementByPath does not return an ancestor for a
 missing intermediate element

---
 embertree/root.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/embertree/root.go b/embertree/root.go
index 1d4ccd5..a4fab46 100755
--- a/embertree/root.go
+++ b/embertree/root.go
@@ -40,17 +40,16 @@ func (root *RootElement) GetElementByPath(path asn1.RelativeOID) (*Element,*Elem
 	if len(path) <= 0 {
 		 return nil,nil
 	}
-	pos := 0
 	var parent *Element
 	parent = nil
-	element := root.RootElementCollection[int(path[pos])]
-	for pos = 1; element != nil && pos < len(path); pos++ {
+	element := root.RootElementCollection[int(path[0])]
+	for pos := 1; pos < len(path); pos++ {
+		if element == nil {
+			return nil,nil
+		}
 		parent = element
 		element = element.Children[int(path[pos])]
 	}
-	if pos + 1 < len(path) {
-		return nil,nil
-	}
 	return parent,element
 }
 
-- 
2.43.0


From 7d50810ec40eccf8f9e2f7bf569701de077b00a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:37 +0000
Subject: [PATCH 22/53] fix: element paths share no memory and follow their
 ancestors

---
 embertree/qualified_element.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/embertree/qualified_element.go b/embertree/qualified_element.go
index 74b8379..6ba0048 100755
--- a/embertree/qualified_element.go
+++ b/embertree/qualified_element.go
@@ -53,14 +53,14 @@ func IsQualifiedTag(tag uint8) bool {
 }
 
 func (element *Element) GetPath() asn1.RelativeOID {
-	if len(element.path) <= 0 {
-		var parentPath = asn1.RelativeOID{}
-		if element.parent != nil {
-			parentPath = element.parent.GetPath()
-		}
-		element.path = append(parentPath, int32(element.Number))
+	if len(element.path) > 0 {
+		return element.path
 	}
-	return element.path
+	var path = asn1.RelativeOID{}
+	if element.parent != nil {
+		path = append(path, element.parent.GetPath()...)
+	}
+	return append(path, int32(element.Number))
 }
 
 func (element *Element) GetQualifiedDirectoryMsg(listener Listener) *RootElement {
-- 
2.43.0


From c0a511edac8f407d32643152f8a60f1810c5fbc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:07 +0000
Subject: [PATCH 23/53] fix: an element can be updated by its qualified form
 and vice versa

---
 embertree/element.go           |  2 +-
 embertree/qualified_element.go | 15 +++++++++++++++
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/embertree/element.go b/embertree/element.go
index c6a569c..2fb6ff2 100755
--- a/embertree/element.go
+++ b/embertree/element.go
@@ -117,7 +117,7 @@ func (element *Element) SetContents(contents interface{}) errors.Error {
 
 func (element *Element) Update(newElement *Element) errors.Error {
 	var err errors.Error
-	if element.Number != newElement.Number || element.tag != newElement.tag {
+	if element.Number != newElement.Number || unqualifiedTag(element.tag) != unqualifiedTag(newElement.tag) {
 		return errors.New("Attempt to update different element Number %d/%d Tag %d/%d", element.Number, newElement.Number, element.tag, newElement.tag)
 	}
 	content := newElement.GetContent()
diff --git a/embertree/qualified_element.go b/embertree/qualified_element.go
index 6ba0048..f09168d 100755
--- a/embertree/qualified_element.go
+++ b/embertree/qualified_element.go
@@ -16,6 +16,21 @@ var qualifiedTags = map[uint8]bool{
 	QualifiedMatrixApplication:    true,
 	QualifiedFunctionApplication:  true}
 
+// unqualifiedTag returns the tag of the non qualified form of an element.
+func unqualifiedTag(tag uint8) uint8 {
+	switch tag {
+	case QualifiedParameterApplication:
+		return ParameterApplication
+	case QualifiedNodeApplication:
+		return NodeApplication
+	case QualifiedMatrixApplication:
+		return MatrixApplication
+	case QualifiedFunctionApplication:
+		return FunctionApplication
+	}
+	return tag
+}
+
 
 func getNumberFromPath(path asn1.RelativeOID) (int, errors.Error) {
 	l := len(path)
-- 
2.43.0


From 2b5e5179991bb8848a640e7d909b6c3e27144127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:10 +0000
Subject: [PATCH 24/53] fix: directory requests use the tag matching the way
 the element is addressed

---
 embertree/element.go           | 13 +++++++++++--
 embertree/qualified_element.go | 17 ++++++++++++++++-
 2 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/embertree/element.go b/embertree/element.go
index 2fb6ff2..5ab7356 100755
--- a/embertree/element.go
+++ b/embertree/element.go
@@ -268,9 +268,18 @@ func (element *Element) EncodeChildren(writer *asn1.ASNWriter) errors.Error {
 	return writer.EndSequence()
 }
 
+// dupWithoutContents copies the identity of an element. A qualified element is
+// only addressed by its path when it is not attached to a parent.
+func (element *Element) dupWithoutContents() *Element {
+	if element.isQualified && element.parent == nil {
+		return NewQualifiedElement(element.tag, element.path, nil)
+	}
+	return NewElement(unqualifiedTag(element.tag), element.Number, nil)
+}
+
 func (element *Element) getDupBranch(cmd *Element) (*Element, errors.Error) {
 	e := element
-	dupElement := NewElement(e.tag, e.Number, nil)
+	dupElement := e.dupWithoutContents()
 	if cmd != nil {
 		dupElement.AddChild(cmd)
 	}
@@ -282,7 +291,7 @@ func (element *Element) getDupBranch(cmd *Element) (*Element, errors.Error) {
 		if parent == nil {
 			break
 		}
-		dupParent := NewElement(parent.tag, parent.Number, nil)
+		dupParent := parent.dupWithoutContents()
 		dupParent.AddChild(dupElement)
 		e = parent
 		dupElement = dupParent
diff --git a/embertree/qualified_element.go b/embertree/qualified_element.go
index f09168d..63729db 100755
--- a/embertree/qualified_element.go
+++ b/embertree/qualified_element.go
@@ -31,6 +31,21 @@ func unqualifiedTag(tag uint8) uint8 {
 	return tag
 }
 
+// qualifiedTag returns the tag of the qualified form of an element.
+func qualifiedTag(tag uint8) uint8 {
+	switch tag {
+	case ParameterApplication:
+		return QualifiedParameterApplication
+	case NodeApplication:
+		return QualifiedNodeApplication
+	case MatrixApplication:
+		return QualifiedMatrixApplication
+	case FunctionApplication:
+		return QualifiedFunctionApplication
+	}
+	return tag
+}
+
 
 func getNumberFromPath(path asn1.RelativeOID) (int, errors.Error) {
 	l := len(path)
@@ -80,7 +95,7 @@ func (element *Element) GetPath() asn1.RelativeOID {
 
 func (element *Element) GetQualifiedDirectoryMsg(listener Listener) *RootElement {
 	path := element.GetPath()
-	dupElement := NewQualifiedElement(element.tag, path, nil)
+	dupElement := NewQualifiedElement(qualifiedTag(element.tag), path, nil)
 	cmd := NewCommand(COMMAND_GETDIRECTORY)
 	dupElement.AddChild(cmd)
 	root := NewRoot()
-- 
2.43.0


From 044ecf788a9b7387f67857fa4c5547a9f45869b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:13 +0000
Subject: [PATCH 25/53] fix: updates of a matrix apply its targets, sources and
 connections

---
 embertree/element.go        |  3 +++
 embertree/matrix_element.go | 24 ++++++++++++++++++++++++
 2 files changed, 27 insertions(+)

diff --git a/embertree/element.go b/embertree/element.go
index 5ab7356..c65b496 100755
--- a/embertree/element.go
+++ b/embertree/element.go
@@ -124,6 +124,9 @@ func (element *Element) Update(newElement *Element) errors.Error {
 	if content != nil {
 		element.contents = content.(EmberContents)
 	}
+	if element.isMatrix && newElement.isMatrix {
+		element.updateMatrix(newElement)
+	}
 	for number, newChild := range newElement.Children {
 		child := element.Children[number]
 		if child == nil {
diff --git a/embertree/matrix_element.go b/embertree/matrix_element.go
index 7c26a94..c4fbb16 100755
--- a/embertree/matrix_element.go
+++ b/embertree/matrix_element.go
@@ -180,6 +180,30 @@ func (element *Element) DecodeConnections(reader *asn1.ASNReader) errors.Error {
 	return connectionReader.ReadSequenceEnd()
 }
 
+// updateMatrix takes over the signals and connections present in newElement.
+// Connections are identified by their target.
+func (element *Element) updateMatrix(newElement *Element) {
+	if len(newElement.targets) > 0 {
+		element.targets = newElement.targets
+	}
+	if len(newElement.sources) > 0 {
+		element.sources = newElement.sources
+	}
+	for _, newConnection := range newElement.connections {
+		found := false
+		for i, connection := range element.connections {
+			if connection.Target == newConnection.Target {
+				element.connections[i] = newConnection
+				found = true
+				break
+			}
+		}
+		if !found {
+			element.connections = append(element.connections, newConnection)
+		}
+	}
+}
+
 func (element *Element) SetTargets(targets []Signal) errors.Error {
 	if !element.isMatrix {
 		return errors.New("Element not a matrix. Can't SetTargets.")
-- 
2.43.0


From 01e4aaeadc93a33760ec9c7b6eb25d2f800c9bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:16 +0000
Subject: [PATCH 26/53] fix: a decoded matrix has contents only if the message
 carries them

---
 embertree/elementFactory.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/embertree/elementFactory.go b/embertree/elementFactory.go
index 14697cc..29152c4 100755
--- a/embertree/elementFactory.go
+++ b/embertree/elementFactory.go
@@ -162,6 +162,9 @@ func DecodeElement(reader *asn1.ASNReader) (*Element, errors.Error) {
 	}
 	if tag == MatrixApplication {
 		element, _ = NewMatrix(number, OneToN, Linear)
+		// contents are set only when present in the message.
+		element.contents = nil
+		element.contentsCreator = contentCreator
 	} else if tag == QualifiedMatrixApplication {
 		element = NewQualifiedMatrix(path, OneToN, Linear)
 	} else if IsQualifiedTag(tag) {
-- 
2.43.0


From 836fde008e86702ccba7641b9377f97984991f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:20 +0000
Subject: [PATCH 27/53] fix: NewRoot is usable for decoding and listeners

---
 embertree/root.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/embertree/root.go b/embertree/root.go
index a4fab46..c474acb 100755
--- a/embertree/root.go
+++ b/embertree/root.go
@@ -23,7 +23,7 @@ func NewTree() *RootElement {
 }
 
 func NewRoot() *RootElement {
-	return &RootElement{listeners: nil, RootElementCollection: make(map[int]*Element)}
+	return NewTree()
 }
 
 func (root *RootElement) GetElementByNumber(number int) *Element {
-- 
2.43.0


From bcd0b1346be4d55edb7e6afb383b0362871e30cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:23 +0000
Subject: [PATCH 28/53] fix: RootElement.GetDirectoryMsg accepts a nil listener

---
 embertree/root.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/embertree/root.go b/embertree/root.go
index c474acb..f3fdd8b 100755
--- a/embertree/root.go
+++ b/embertree/root.go
@@ -168,7 +168,9 @@ func (r *RootElement) GetDirectoryMsg(listener Listener) (*RootElement, errors.E
 	root := NewRoot()
 	cmd := NewCommand(COMMAND_GETDIRECTORY)
 	root.AddElement(cmd)
-	r.AddListener(listener)
+	if listener != nil {
+		r.AddListener(listener)
+	}
 	return root, nil
 }
 
-- 
2.43.0


From f94ba721c5239c1339b26bca4ce04f4b3799f80f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:26 +0000
Subject: [PATCH 29/53] fix: RootElement.Encode reports element errors

---
 embertree/root.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/embertree/root.go b/embertree/root.go
index f3fdd8b..7247e0b 100755
--- a/embertree/root.go
+++ b/embertree/root.go
@@ -146,7 +146,10 @@ func (root *RootElement) Encode(writer *asn1.ASNWriter) errors.Error {
 		writer.StartSequence(asn1.Application(11))
 		for _, element := range root.RootElementCollection {
 			writer.StartSequence(asn1.Context(0))
-			element.Encode(writer)
+			err := element.Encode(writer)
+			if err != nil {
+				return errors.Update(err)
+			}
 			writer.EndSequence()
 		}
 		writer.EndSequence()
-- 
2.43.0


From ece39d5e448c3e6c2333f5f398b6b585f3ae4aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:42 +0000
Subject: [PATCH 30/53] fix: NewQualifiedMatrix honours type and mode and
 rejects invalid arguments

---
 embertree/qualified_element.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/embertree/qualified_element.go b/embertree/qualified_element.go
index 63729db..f085d29 100755
--- a/embertree/qualified_element.go
+++ b/embertree/qualified_element.go
@@ -73,8 +73,16 @@ func NewQualifiedParameter(path asn1.RelativeOID) *Element {
 }
 
 func NewQualifiedMatrix(path asn1.RelativeOID, mtype MatrixType, mode MatrixMode) *Element {
-	q := NewQualifiedElement(QualifiedMatrixApplication, path, NewDefaultMatrixContents)
-	q.isMatrix = true
+	if ValidateMatrixType(mtype) != nil || ValidateMatrixMode(mode) != nil {
+		return nil
+	}
+	q := NewQualifiedElement(QualifiedMatrixApplication, path, func() EmberContents {
+		mc, _ := NewMatrixContent(mtype, mode)
+		return mc
+	})
+	if q != nil {
+		q.isMatrix = true
+	}
 	return q
 }
 
-- 
2.43.0


From c1b806a0d19451914f7996d11e9f079cf4e7dbc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:19 +0000
Subject: [PATCH 31/53] fix: S101 decoder resynchronises on frame delimiters
 after a pending escape

---
 socket/frame.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/socket/frame.go b/socket/frame.go
index b9309e7..f951e25 100755
--- a/socket/frame.go
+++ b/socket/frame.go
@@ -315,15 +315,17 @@ func (decoder *S101Decoder)SetLogger(logger Logger) {
 func (decoder *S101Decoder)DecodeBuffer( bufLen int, buf []byte) {
 	for i := 0; i < bufLen; i++ {
 		b := buf[i];
-		if (decoder.escaped) {
+		if b == S101_BOF {
+			// BOF and EOF are never escaped: resynchronise even if an escape is pending.
+			decoder.inbuf.Reset();
+			decoder.escaped = false;
+		} else if decoder.escaped && b != S101_EOF {
 			decoder.inbuf.WriteByte(b ^ S101_XOR);
 			decoder.escaped = false;
 		} else if b == S101_CE {
 			decoder.escaped = true;
-		} else if b == S101_BOF {
-			decoder.inbuf.Reset();
-			decoder.escaped = false;
 		} else if b == S101_EOF {
+			decoder.escaped = false;
 			decoder.logger.Debug("End of Frame - frame size %d.\n", decoder.inbuf.Len())
 			decoder.logger.Debugln(decoder.inbuf)
 			buffer := make([]byte, decoder.inbuf.Len())
-- 
2.43.0


From 31137066310324513c4096aee2b3644faf0d9a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:22 +0000
Subject: [PATCH 32/53] fix: GetBytesAt does not consume the frame

---
 socket/frame.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/socket/frame.go b/socket/frame.go
index f951e25..111abc4 100755
--- a/socket/frame.go
+++ b/socket/frame.go
@@ -199,7 +199,7 @@ func (s *S101FrameList)GetBytesAt(i int) ([]byte, errors.Error) {
 		return nil, errors.New("out of bound")
 	}
 	res := make([]byte, s.frames[i].Len())
-	s.frames[i].Read(res)
+	copy(res, s.frames[i].Bytes())
 	return res, nil
 }
 
-- 
2.43.0


From 1e20fdf6c4fe45e64dfdacf4fc9fa5cd8a5bed9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:25 +0000
Subject: [PATCH 33/53] fix: console logger levels are ordered and filter their
 own messages

---
 logger/logger.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/logger/logger.go b/logger/logger.go
index f86e1e6..6402f0f 100755
--- a/logger/logger.go
+++ b/logger/logger.go
@@ -11,9 +11,9 @@ type LogLevel uint8
 const (
 
 	ErrorLevel LogLevel = 3
-	WarnLevel LogLevel = iota
-	InfoLevel LogLevel = iota
-	DebugLevel LogLevel = iota
+	WarnLevel LogLevel = iota + 3
+	InfoLevel LogLevel = iota + 3
+	DebugLevel LogLevel = iota + 3
 )
 
 type Logger interface {
@@ -49,25 +49,25 @@ func (logger *ConsoleLogger)Error(e errors.Error) {
 }
 
 func (logger *ConsoleLogger)Warn(format string, a ...interface{}) {
-	if logger.logLevel >= ErrorLevel {
+	if logger.logLevel >= WarnLevel {
 		fmt.Printf(format, a...)
 	}
 }
 
 func (logger *ConsoleLogger)Info(format string, a ...interface{}) {
-	if logger.logLevel >= ErrorLevel {
+	if logger.logLevel >= InfoLevel {
 		fmt.Printf(format, a...)
 	}
 }
 
 func (logger *ConsoleLogger)Debug(format string, a ...interface{}) {
-	if logger.logLevel >= ErrorLevel {
+	if logger.logLevel >= DebugLevel {
 		fmt.Printf(format, a...)
 	}
 }
 
 func (logger *ConsoleLogger)Debugln(a ...interface{}) {
-	if logger.logLevel >= ErrorLevel {
+	if logger.logLevel >= DebugLevel {
 		fmt.Println(a...)
 	}
 }
-- 
2.43.0


From 86cd38fb421c62c66034831fcdbf69348faf34d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:47 +0000
Subject: [PATCH 34/53] fix: S101 decoder never delivers a message with a
 corrupted packet

---
 socket/frame.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/socket/frame.go b/socket/frame.go
index 111abc4..6078906 100755
--- a/socket/frame.go
+++ b/socket/frame.go
@@ -285,6 +285,7 @@ type S101Decoder struct {
 	inbuf bytes.Buffer
 	logger Logger
 	emberbuf bytes.Buffer
+	inMessage bool
 	keepAliveReqHandler PacketHandler
 	keepAliveResHandler PacketHandler
 	emberPacketHandler PacketHandler
@@ -344,6 +345,9 @@ func (decoder *S101Decoder)DecodeBuffer( bufLen int, buf []byte) {
 func (decoder *S101Decoder)HandleFrame(buffer []byte) errors.Error {
 	decoder.logger.Debug("Frame parsing. total length %d.\n", len(buffer))
 	if !ValidateFrame(bytes.NewReader(buffer)) {
+		// the lost frame may belong to the message being assembled
+		decoder.emberbuf.Reset()
+		decoder.inMessage = false
 		return errors.New("dropping frame with invalid CRC")
 	}
 	var (
@@ -401,6 +405,10 @@ func (decoder *S101Decoder)HandleEmberFrame(frame *bytes.Reader) errors.Error {
 	if emberFrame.Header.Flags & FLAG_FIRST_MULTI_PACKET != 0 {
 		decoder.logger.Debug("Ember Frame first multi packet.\n")
 		decoder.emberbuf.Reset()
+		decoder.inMessage = true
+	}
+	if !decoder.inMessage {
+		return errors.New("dropping frame of an incomplete message")
 	}
 
 	if emberFrame.Header.Flags & FLAG_EMPTY_PACKET == 0 {
@@ -412,6 +420,7 @@ func (decoder *S101Decoder)HandleEmberFrame(frame *bytes.Reader) errors.Error {
 		emberPacket := make([]byte, decoder.emberbuf.Len())
 		decoder.emberbuf.Read(emberPacket)
 		decoder.emberbuf.Reset()
+		decoder.inMessage = false
 		decoder.emberPacketHandler(emberPacket)
 	}
 	decoder.logger.Debug("Ember Frame parsing complete.\n")
-- 
2.43.0


From 7761f9bb1ab79bc0998eb5812ab5a4f504e62d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:29 +0000
Subject: [PATCH 35/53] fix: answer keep-alive requests

---
 socket/client.go | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/socket/client.go b/socket/client.go
index 6529d4d..eed0f36 100755
--- a/socket/client.go
+++ b/socket/client.go
@@ -81,10 +81,9 @@ type S101Client struct {
 }
 
 func (s *S101Client)keepAliveReqHandler(kal []byte) errors.Error {
-	// This should go at the head of the queue
+	// This should not wait behind the messages of the queue
 	s.logger.Debug("KAL Request Received.\n")
-	s.outQ.queue.PushFront(GetKeepAliveResponse())
-	return nil
+	return s.sendFrame(GetKeepAliveResponse().Bytes())
 }
 
 func (s *S101Client)keepAliveResponseHandler(kal []byte) errors.Error {
@@ -169,18 +168,25 @@ func (s *S101Client)sendBER(data []byte) errors.Error {
 			s.stats.TxErrors++
 			return errors.Update(err)
 		}
-		var res int
-		res, e := s.conn.Write(message)
-		if e != nil {
-			s.stats.TxErrors++
-			return errors.NewError(e)
+		err = s.sendFrame(message)
+		if err != nil {
+			return errors.Update(err)
 		}
-		s.stats.TxPackets++
-		s.stats.TxBytes += uint64(res)
 	}
 	return nil
 }
 
+func (s *S101Client)sendFrame(frame []byte) errors.Error {
+	res, e := s.conn.Write(frame)
+	if e != nil {
+		s.stats.TxErrors++
+		return errors.NewError(e)
+	}
+	s.stats.TxPackets++
+	s.stats.TxBytes += uint64(res)
+	return nil
+}
+
 func (s *S101Client)sendBERNode(node *embertree.RootElement) errors.Error {
 	if node == nil {
 		return errors.New("null node")
-- 
2.43.0


From b7a519af78dc015351f3bd48adc9994c769aa5dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:32 +0000
Subject: [PATCH 36/53] fix: client survives disconnection and reads during the
 announced 100ms

---
 socket/client.go | 61 ++++++++++++++++++++++++++++++++++++------------
 1 file changed, 46 insertions(+), 15 deletions(-)

diff --git a/socket/client.go b/socket/client.go
index eed0f36..978cef6 100755
--- a/socket/client.go
+++ b/socket/client.go
@@ -4,6 +4,7 @@ import (
 	"container/list"
 	"fmt"
 	"net"
+	"sync"
 	"time"
 	. "github.com/dufourgilles/emberlib/logger"
 	"github.com/dufourgilles/emberlib/asn1"
@@ -67,6 +68,7 @@ type _TimerCallbacks struct {
 type S101Client struct {
 	stats S101SocketStats
 	conn  net.Conn
+	connMutex sync.Mutex
 	raddr string
 	outQ  *packetQueue
 	decoder *S101Decoder
@@ -131,30 +133,46 @@ func (s *S101Client)SetLogger(logger Logger) {
 }
 
 func (s *S101Client)Connect(address string, port uint16) errors.Error {
-	var err error
 	if s.IsConnected() {
 		return errors.New("Client already connected to %s:%d", address, port)
 	}
 	s.raddr = fmt.Sprintf("%s:%d", address, port)
-	s.conn, err = net.Dial("tcp", s.raddr)
+	conn, err := net.Dial("tcp", s.raddr)
 	if err != nil {
 		return errors.NewError(err)
 	}
-	go s.iomanager()
+	s.connMutex.Lock()
+	s.conn = conn
+	s.connMutex.Unlock()
+	go s.iomanager(conn)
 	return nil
 }
 
 func (s *S101Client)Disconnect() errors.Error {
-	if !s.IsConnected() {
+	conn := s.getConn()
+	if conn == nil {
 		return errors.New("Client not connected.")
 	}
-	err := s.conn.Close()
-	s.conn = nil
-	return errors.NewError(err)
+	return errors.NewError(s.closeConn(conn))
 }
 
 func (s *S101Client)IsConnected() bool {
-	return s.conn != nil
+	return s.getConn() != nil
+}
+
+func (s *S101Client)getConn() net.Conn {
+	s.connMutex.Lock()
+	defer s.connMutex.Unlock()
+	return s.conn
+}
+
+func (s *S101Client)closeConn(conn net.Conn) error {
+	s.connMutex.Lock()
+	if s.conn == conn {
+		s.conn = nil
+	}
+	s.connMutex.Unlock()
+	return conn.Close()
 }
 
 func (s *S101Client)sendBER(data []byte) errors.Error {
@@ -177,7 +195,11 @@ func (s *S101Client)sendBER(data []byte) errors.Error {
 }
 
 func (s *S101Client)sendFrame(frame []byte) errors.Error {
-	res, e := s.conn.Write(frame)
+	conn := s.getConn()
+	if conn == nil {
+		return errors.New("Not connected")
+	}
+	res, e := conn.Write(frame)
 	if e != nil {
 		s.stats.TxErrors++
 		return errors.NewError(e)
@@ -322,10 +344,10 @@ func (s *S101Client)processBuffer(l int, buffer []byte) {
 	s.decoder.DecodeBuffer(l, buffer)
 }
 
-func (s *S101Client)iomanager() {
+func (s *S101Client)iomanager(conn net.Conn) {
 	s.logger.Debug("iomanager started.\n")
 	buffer := make([]byte, maxBufferSize)
-	for s.IsConnected() {
+	for s.getConn() == conn {
 		// Send messages present in our Q - but no more than max
 		messagesToSend := s.outQ.queue.Len()
 		if messagesToSend > 3 {
@@ -348,17 +370,26 @@ func (s *S101Client)iomanager() {
 		}
 
 		// collect inbound messages during next 100ms
-		deadline := time.Now().Add(100)
-		s.conn.SetReadDeadline(deadline)
+		deadline := time.Now().Add(100 * time.Millisecond)
+		conn.SetReadDeadline(deadline)
 		for {
-			len,_ := s.conn.Read(buffer)
+			len,err := conn.Read(buffer)
 			if len > 0 {
 				s.logger.Debug("iomanager received a message of %d bytes.\n", len)
 				s.stats.RxBytes += uint64(len)
 				s.stats.RxPackets++
 				//process the buffer
 				s.processBuffer(len, buffer)
-			} else {
+			}
+			if err != nil {
+				netErr, ok := err.(net.Error)
+				if !ok || !netErr.Timeout() {
+					s.logger.Debug("iomanager connection lost.\n")
+					s.closeConn(conn)
+				}
+				break
+			}
+			if len <= 0 {
 				break
 			}
 		}
-- 
2.43.0


From 0cbdd471338c0699c291d9908ec20b7d0acc17d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:35 +0000
Subject: [PATCH 37/53] fix: outgoing queue is safe for concurrent use and
 limited to its size

---
 socket/client.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/socket/client.go b/socket/client.go
index 978cef6..c75cecb 100755
--- a/socket/client.go
+++ b/socket/client.go
@@ -17,6 +17,7 @@ const maxBufferSize = 65536
 
 type packetQueue struct {
 	queue *list.List
+	mutex sync.Mutex
 }
 
 type channelMessage interface {
@@ -32,15 +33,19 @@ func newPacketQueue() *packetQueue {
 }
 
 func (p *packetQueue) size() int {
+	p.mutex.Lock()
+	defer p.mutex.Unlock()
 	return p.queue.Len()
 }
 
 func (p *packetQueue) isEmpty() bool {
-	return p.queue.Len() == 0
+	return p.size() == 0
 }
 
 func (p *packetQueue) add(msg *embertree.RootElement) errors.Error{
-	if p.size() > maxQueueSize {
+	p.mutex.Lock()
+	defer p.mutex.Unlock()
+	if p.queue.Len() >= maxQueueSize {
 		return errors.New("Queue size limit. Drop message.")
 	}
 	p.queue.PushBack(msg)
@@ -48,6 +53,8 @@ func (p *packetQueue) add(msg *embertree.RootElement) errors.Error{
 }
 
 func (p *packetQueue) getNext() (*embertree.RootElement, errors.Error) {
+	p.mutex.Lock()
+	defer p.mutex.Unlock()
 	if p.queue.Len() > 0 {
 		qElement :=  p.queue.Front()
 		p.queue.Remove(qElement)
@@ -349,7 +356,7 @@ func (s *S101Client)iomanager(conn net.Conn) {
 	buffer := make([]byte, maxBufferSize)
 	for s.getConn() == conn {
 		// Send messages present in our Q - but no more than max
-		messagesToSend := s.outQ.queue.Len()
+		messagesToSend := s.outQ.size()
 		if messagesToSend > 3 {
 			messagesToSend = 3;
 		}
-- 
2.43.0


From a0d42080b02c00ecc8c951bd077f7be43b578428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:56 +0000
Subject: [PATCH 38/53] fix: listeners can be added and removed while updates
 are received

---
 embertree/element.go | 19 ++++++++++++++++++-
 embertree/root.go    | 23 +++++++++++++++++++++--
 2 files changed, 39 insertions(+), 3 deletions(-)

diff --git a/embertree/element.go b/embertree/element.go
index c65b496..1dc44bd 100755
--- a/embertree/element.go
+++ b/embertree/element.go
@@ -2,6 +2,7 @@ package embertree
 
 import (
 	"fmt"
+	"sync"
 
 	. "github.com/dufourgilles/emberlib/logger"
 	"github.com/dufourgilles/emberlib/asn1"
@@ -43,6 +44,7 @@ type Element struct {
 	contents        EmberContents
 	contentsCreator ContentCreator
 	listeners       map[Listener]Listener
+	listenersMutex  sync.Mutex
 	logger Logger
 	// for qualified element
 	isQualified bool
@@ -83,13 +85,28 @@ func (element *Element) CreateContent() interface{} {
 }
 
 func (element *Element) AddListener(listener Listener) {
+	element.listenersMutex.Lock()
+	defer element.listenersMutex.Unlock()
 	element.listeners[listener] = listener
 }
 
 func (element *Element) RemoveListener(listener Listener) {
+	element.listenersMutex.Lock()
+	defer element.listenersMutex.Unlock()
 	delete(element.listeners, listener)
 }
 
+// getListeners returns a copy: listeners may be added or removed while they are called.
+func (element *Element) getListeners() []Listener {
+	element.listenersMutex.Lock()
+	defer element.listenersMutex.Unlock()
+	listeners := make([]Listener, 0, len(element.listeners))
+	for _, listener := range element.listeners {
+		listeners = append(listeners, listener)
+	}
+	return listeners
+}
+
 func (element *Element) GetContent() EmberContents {
 	return element.contents
 }
@@ -105,7 +122,7 @@ func (element *Element) AddChild(child *Element) errors.Error {
 }
 
 func (element *Element) updateListeners(err errors.Error) {
-	for _, listener := range element.listeners {
+	for _, listener := range element.getListeners() {
 		listener.Receive(element, err)
 	}
 }
diff --git a/embertree/root.go b/embertree/root.go
index 7247e0b..9527225 100755
--- a/embertree/root.go
+++ b/embertree/root.go
@@ -2,6 +2,7 @@ package embertree
 
 import (
 	"fmt"
+	"sync"
 
 	"github.com/dufourgilles/emberlib/errors"
 	. "github.com/dufourgilles/emberlib/logger"
@@ -12,6 +13,7 @@ type RootElement struct {
 	RootElementCollection map[int]*Element
 	logger Logger
 	listeners             map[Listener]Listener
+	listenersMutex        sync.Mutex
 }
 
 func NewTree() *RootElement {
@@ -127,12 +129,12 @@ func (root *RootElement) Decode(reader *asn1.ASNReader) errors.Error {
 		}
 	}
 	err = reader.ReadSequenceEnd()
-	for _, listener := range(root.listeners) {
+	for _, listener := range(root.getListeners()) {
 		root.logger.Debug("Updating root listener.\n")
 		listener.Receive(root, nil)
 	}
 	for path,mElement := range(modifiedElement) {
-		for _,listener := range(mElement.listeners) {
+		for _,listener := range(mElement.getListeners()) {
 			root.logger.Debug("Updating Element %s listener.\n", path)
 			listener.Receive(mElement, nil)
 		}
@@ -179,15 +181,32 @@ func (r *RootElement) GetDirectoryMsg(listener Listener) (*RootElement, errors.E
 
 func (r *RootElement) AddListener(listener Listener) {
 	r.logger.Debug("Adding Root Listener.\n")
+	r.listenersMutex.Lock()
+	defer r.listenersMutex.Unlock()
 	r.listeners[listener] = listener
 }
 
+// getListeners returns a copy: listeners may be added or removed while they are called.
+func (r *RootElement) getListeners() []Listener {
+	r.listenersMutex.Lock()
+	defer r.listenersMutex.Unlock()
+	listeners := make([]Listener, 0, len(r.listeners))
+	for _, listener := range r.listeners {
+		listeners = append(listeners, listener)
+	}
+	return listeners
+}
+
 func (r *RootElement) RemoveListener(listener Listener) {
 	r.logger.Debug("Removing Root Listener.\n")
+	r.listenersMutex.Lock()
+	defer r.listenersMutex.Unlock()
 	delete(r.listeners, listener)
 }
 
 func (r *RootElement) HasListner(listener Listener) bool {
+	r.listenersMutex.Lock()
+	defer r.listenersMutex.Unlock()
 	return r.listeners[listener] != nil
 }
 
-- 
2.43.0


From 01ec7beed975ebaff4943bfa37d52afffe299049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:13 +0000
Subject: [PATCH 39/53] fix: GetTree completes exactly once, after all its
 requests

---
 socket/client.go | 63 ++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 50 insertions(+), 13 deletions(-)

diff --git a/socket/client.go b/socket/client.go
index c75cecb..e456fa4 100755
--- a/socket/client.go
+++ b/socket/client.go
@@ -287,19 +287,22 @@ func (s *S101Client)GetDirectory(node *embertree.Element, callback embertree.Lis
 
 type _ElementListeners struct {
 	client *S101Client
+	element *embertree.Element
 	rootListener *_RoottListeners
+	done bool
 }
 
 // getElementCallback
 func (l *_ElementListeners)Receive(node interface{}, err errors.Error) {
 	l.client.logger.Debug("Element Callback.\n")	
+	if !l.rootListener.setDone(&l.done) {
+		return
+	}
+	l.element.RemoveListener(l)
 	if err == nil && node != nil {
 		element := node.(*embertree.Element)
-		element.RemoveListener(l)
 		for _,child := range(element.Children) {
-			l.rootListener.IncPendingGetDir()
-			elementCallback := &_ElementListeners{client: l.client, rootListener: l.rootListener}
-			go l.client.GetDirectory(child, elementCallback)
+			l.rootListener.getDirectory(child)
 		}
 	}
 	l.rootListener.DecPendingGetDir(node,err)
@@ -309,36 +312,70 @@ type _RoottListeners struct {
 	client *S101Client
 	pendingGetDirectory uint
 	listener embertree.Listener
+	mutex sync.Mutex
+	done bool
+	err errors.Error
+}
+
+// setDone marks a request as answered. It returns false if it already was.
+func (r *_RoottListeners)setDone(done *bool) bool {
+	r.mutex.Lock()
+	defer r.mutex.Unlock()
+	if *done {
+		return false
+	}
+	*done = true
+	return true
+}
+
+func (r *_RoottListeners)getDirectory(element *embertree.Element) {
+	r.IncPendingGetDir()
+	elementCallback := &_ElementListeners{client: r.client, element: element, rootListener: r}
+	go func() {
+		err := r.client.GetDirectory(element, elementCallback)
+		if err != nil {
+			elementCallback.Receive(nil, err)
+		}
+	}()
 }
 
 func (r *_RoottListeners)IncPendingGetDir() {
+	r.mutex.Lock()
+	defer r.mutex.Unlock()
 	r.pendingGetDirectory++
 }
 
 func (r *_RoottListeners)DecPendingGetDir(node interface{}, err errors.Error) {
+	r.mutex.Lock()
+	if err != nil {
+		r.err = err
+	}
 	r.pendingGetDirectory--
-	if r.pendingGetDirectory == 0 {
+	last := r.pendingGetDirectory == 0
+	err = r.err
+	r.mutex.Unlock()
+	if last {
 		r.listener.Receive(r.client.tree, err)
 	}
 }
 
 func (r *_RoottListeners)Receive(node interface{}, err errors.Error) {	
+	if !r.setDone(&r.done) {
+		return
+	}
+	r.client.tree.RemoveListener(r)
+	// the root request itself is pending until its elements are requested
+	r.IncPendingGetDir()
 	if err == nil && node != nil {
 		root := node.(*embertree.RootElement)
 		r.client.logger.Debug("Root CallBack.\n")
 		r.client.logger.Debug(root.ToString())
-		root.RemoveListener(r)
 		for _,element := range(root.RootElementCollection) {
-			r.IncPendingGetDir()
-			elementCallback := &_ElementListeners{client: r.client, rootListener: r}
 			r.client.logger.Debug("Root Callback GetDir for %s.\n", embertree.Path2String(element.GetPath()))
-			go r.client.GetDirectory(element, elementCallback)
+			r.getDirectory(element)
 		}
 	}
-	if r.pendingGetDirectory == 0 {
-		r.listener.Receive(r.client.tree, err)
-		return
-	}
+	r.DecPendingGetDir(node, err)
 }
 
 func (s *S101Client)GetTree(listener embertree.Listener) errors.Error {
-- 
2.43.0


From 4e9838d555077b5713f1cb887a7f2138b97be70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:41 +0000
Subject: [PATCH 40/53] fix: request timeouts end on the answer and fire at
 most once

---
 socket/client.go | 74 ++++++++++++++++++++++++++++++------------------
 1 file changed, 47 insertions(+), 27 deletions(-)

diff --git a/socket/client.go b/socket/client.go
index e456fa4..885b243 100755
--- a/socket/client.go
+++ b/socket/client.go
@@ -68,7 +68,9 @@ func (p *packetQueue) getNext() (*embertree.RootElement, errors.Error) {
 
 type _TimerCallbacks struct {
 	timer *time.Timer
-	listener embertree.Listener
+	node embertree.ListeningNode
+	answered chan struct{}
+	once sync.Once
 	client *S101Client
 }
 
@@ -81,12 +83,10 @@ type S101Client struct {
 	decoder *S101Decoder
 	msTimeout int
 	logger Logger
-	timerCallbacks map[embertree.ListeningNode]*_TimerCallbacks
 	getTreeCallback embertree.Listener
 	tree *embertree.RootElement
 	incomingDataChan chan channelMessage
 	outgoingDataChan chan channelMessage
-	freeTimerCallback embertree.Listener
 }
 
 func (s *S101Client)keepAliveReqHandler(kal []byte) errors.Error {
@@ -119,7 +119,6 @@ func NewS101Client() *S101Client {
 	client.decoder = NewS101Decoder(client.keepAliveReqHandler,client.keepAliveResponseHandler,client.emberPacketHandler, client.errorHandler )
 	client.stats.Reset()
 	client.logger = NewNullLogger()
-	client.timerCallbacks = make(map[embertree.ListeningNode]*_TimerCallbacks)
 	client.outQ = newPacketQueue()
 	client.tree = embertree.NewTree()
 	client.incomingDataChan = make(chan channelMessage, 100)
@@ -232,19 +231,36 @@ func (s *S101Client)sendBERNode(node *embertree.RootElement) errors.Error {
 
 
 func (t *_TimerCallbacks)Receive(node interface{}, err errors.Error) {
-	treeNode := node.(embertree.ListeningNode)
-	timerCB := t.client.timerCallbacks[treeNode]
-	if timerCB == nil {
-		return
+	t.stop()
+}
+
+// stop ends the timer. It returns false if it was already over.
+func (t *_TimerCallbacks)stop() bool {
+	stopped := false
+	t.once.Do(func() {
+		stopped = true
+		t.timer.Stop()
+		// Remove myself from node
+		t.node.RemoveListener(t)
+		close(t.answered)
+	})
+	return stopped
+}
+
+// wait calls back unless the node is updated in time.
+func (t *_TimerCallbacks)wait(callback embertree.Listener, timeoutError errors.Error) {
+	select {
+	case <-t.timer.C:
+		if t.stop() && callback != nil {
+			t.client.logger.Debug("Timer Kicked.\n")
+			callback.Receive(nil, timeoutError)
+		}
+	case <-t.answered:
+		t.client.logger.Debug("Timer Stopped.\n")
 	}
-	t.client.logger.Debug("Timer Stopped.\n")
-	timerCB.timer.Stop()
-	delete(t.client.timerCallbacks, treeNode)
-	// Remove myself from node
-	treeNode.RemoveListener(t)
 }
 
-func (s *S101Client)runTimer(node *embertree.Element, callback embertree.Listener, timeoutError errors.Error) {
+func (s *S101Client)startTimer(node *embertree.Element) *_TimerCallbacks {
 	var treeNode embertree.ListeningNode
 	if node == nil {
 		treeNode = s.tree
@@ -252,15 +268,13 @@ func (s *S101Client)runTimer(node *embertree.Element, callback embertree.Listene
 		treeNode = node
 	}
 	s.logger.Debug("Timer running.\n")
-	freeTimerCallback := &_TimerCallbacks{client: s, timer: time.NewTimer(time.Duration(int64(s.msTimeout)) * time.Millisecond)}
-	treeNode.AddListener(freeTimerCallback)
-	s.timerCallbacks[treeNode] = freeTimerCallback
-	<-s.timerCallbacks[treeNode].timer.C
-	s.logger.Debug("Timer Kicked.\n")
-	callback.Receive(nil, timeoutError)
-	s.logger.Debug("Cleaning Timer callback.\n")
-	delete(s.timerCallbacks, treeNode)
-	treeNode.RemoveListener(s.freeTimerCallback)
+	timerCallback := &_TimerCallbacks{
+		client: s,
+		node: treeNode,
+		answered: make(chan struct{}),
+		timer: time.NewTimer(time.Duration(int64(s.msTimeout)) * time.Millisecond)}
+	treeNode.AddListener(timerCallback)
+	return timerCallback
 }
 
 func (s *S101Client)GetDirectory(node *embertree.Element, callback embertree.Listener) errors.Error {
@@ -278,11 +292,17 @@ func (s *S101Client)GetDirectory(node *embertree.Element, callback embertree.Lis
 		s.logger.Debug("GetDirectory.\n",err)
 		return errors.Update(err)
 	}
-	if s.msTimeout > 0 {
-		go s.runTimer(node, callback, timeoutError)
+	if s.msTimeout <= 0 {
+		return s.outQ.add(msg)
 	}
-	
-	return s.outQ.add(msg)
+	timer := s.startTimer(node)
+	err = s.outQ.add(msg)
+	if err != nil {
+		timer.stop()
+		return errors.Update(err)
+	}
+	go timer.wait(callback, timeoutError)
+	return nil
 }
 
 type _ElementListeners struct {
-- 
2.43.0


From 3cbf77b6e0ee815804e69204880768624b1a6975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:59 +0000
Subject: [PATCH 41/53] fix: announce the exponent size of a REAL

---
 asn1/encode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1/encode.go b/asn1/encode.go
index a87acb2..007676a 100755
--- a/asn1/encode.go
+++ b/asn1/encode.go
@@ -228,7 +228,7 @@ func (asn *ASNWriter) WriteReal(r float64) errors.Error {
 	significandSize, significandVal := shortenLong(significand)
 
 	asn.writeLength(1 + expSize + significandSize)
-	preamble := uint8(0x80)
+	preamble := uint8(0x80) | uint8(expSize-1)
 	if r < 0 {
 		preamble |= 0x40
 	}
-- 
2.43.0


From 6622b23f46c295a5e7928b1e7560db9f439c9ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:33 +0000
Subject: [PATCH 42/53] fix: nested containers share the bytes instead of
 copying them at every level

---
 asn1/decode.go | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/asn1/decode.go b/asn1/decode.go
index bb73abd..693ea86 100755
--- a/asn1/decode.go
+++ b/asn1/decode.go
@@ -2,6 +2,7 @@ package asn1
 
 import (
 	"bytes"
+	"io"
 	"math"
 	"math/bits"
 
@@ -10,12 +11,13 @@ import (
 
 type ASNReader struct {
 	data           *bytes.Reader
+	buf            []byte
 	startingOffset int
 	len            int
 }
 
 func NewASNReader(p []byte) *ASNReader {
-	return &ASNReader{data: bytes.NewReader(p), len: len(p), startingOffset: 0}
+	return &ASNReader{data: bytes.NewReader(p), buf: p, len: len(p), startingOffset: 0}
 }
 
 func (a *ASNReader) Len() int {
@@ -37,10 +39,18 @@ func (a *ASNReader) NewReader(length int) (*ASNReader, errors.Error) {
 		newReader.startingOffset = offset
 		return newReader, nil
 	}
-	b := make([]byte, length)
-	_, err := a.data.Read(b)
-	if err != nil {
-		return nil, errors.New("Failed To read byte at offset %d. %s", a.TopOffset(), err)
+	var b []byte
+	if length <= a.Len() {
+		// share the bytes: the copies of nested containers would add up.
+		start := a.Offset()
+		b = a.buf[start : start+length]
+		a.data.Seek(int64(length), io.SeekCurrent)
+	} else {
+		b = make([]byte, length)
+		_, err := a.data.Read(b)
+		if err != nil {
+			return nil, errors.New("Failed To read byte at offset %d. %s", a.TopOffset(), err)
+		}
 	}
 	newReader := NewASNReader(b)
 	newReader.startingOffset = offset
-- 
2.43.0


From f1ed928b8281ded2b703fe54efa8f8303ed17f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:47 +0000
Subject: [PATCH 43/53] fix: a cut off frame ends the message being assembled

---
 socket/frame.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/socket/frame.go b/socket/frame.go
index 6078906..c8c9571 100755
--- a/socket/frame.go
+++ b/socket/frame.go
@@ -318,6 +318,11 @@ func (decoder *S101Decoder)DecodeBuffer( bufLen int, buf []byte) {
 		b := buf[i];
 		if b == S101_BOF {
 			// BOF and EOF are never escaped: resynchronise even if an escape is pending.
+			if decoder.inbuf.Len() > 0 || decoder.escaped {
+				// the cut off frame may belong to the message being assembled
+				decoder.emberbuf.Reset()
+				decoder.inMessage = false
+			}
 			decoder.inbuf.Reset();
 			decoder.escaped = false;
 		} else if decoder.escaped && b != S101_EOF {
-- 
2.43.0


From 854dab35ba9be9bbb604406459d3b82b92b70096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:47 +0000
Subject: [PATCH 44/53] fix: keep identifier and description in the text of a
 matrix

---
 embertree/matrix.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/embertree/matrix.go b/embertree/matrix.go
index 994133b..c8f9bd2 100755
--- a/embertree/matrix.go
+++ b/embertree/matrix.go
@@ -419,17 +419,17 @@ func (c *MatrixContent) ToString() string {
 	}
 	t,err := c.GetType()
 	if t == OneToN {
-		str = fmt.Sprintf(("%s  type: OneToN"))
+		str = fmt.Sprintf("%s  type: OneToN\n", str)
 	} else if t ==  NToN {
-		str = fmt.Sprintf(("%s  type: NToN"))
+		str = fmt.Sprintf("%s  type: NToN\n", str)
 	} else {
-		str = fmt.Sprintf(("%s  type: OneToOne"))
+		str = fmt.Sprintf("%s  type: OneToOne\n", str)
 	}
 	m,err := c.GetMode()
 	if m == Linear {
-		str = fmt.Sprintf(("%s  mode: Linear"))
+		str = fmt.Sprintf("%s  mode: Linear\n", str)
 	} else {
-		str = fmt.Sprintf(("%s  mode: Non-Linear"))
+		str = fmt.Sprintf("%s  mode: Non-Linear\n", str)
 	}
 	return fmt.Sprintf("{\n%s}\n", str)
 }
\ No newline at end of file
-- 
2.43.0


From d4b3e05a764064f8b015ecd5569670731d4fee91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:09 +0000
Subject: [PATCH 45/53] fix: show the fields a parameter has in its text

---
 embertree/parameter.go | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/embertree/parameter.go b/embertree/parameter.go
index 361d3ac..8c67aa4 100755
--- a/embertree/parameter.go
+++ b/embertree/parameter.go
@@ -256,27 +256,27 @@ func (contents *ParameterContents) ToString() string {
 		str = fmt.Sprintf("%s  default: %s\n",str, valObject.ToString())
 	}
 	valStr,err = contents.GetAccess()
-	if err != nil {
+	if err == nil {
 		str = fmt.Sprintf("%s  access: %s\n",str,valStr)
 	}
 	valStr,err = contents.GetFormat()
-	if err != nil {
+	if err == nil {
 		str = fmt.Sprintf("%s  format: %s\n",str,valStr)
 	}
 	valStr,err = contents.GetEnumeration()
-	if err != nil {
+	if err == nil {
 		str = fmt.Sprintf("%s  enumeration: %s\n",str,valStr)
 	}
 	valInt,err := contents.GetFactor()
-	if err != nil {
-		str = fmt.Sprintf("%s  factor: %ll\n",str,valInt)
+	if err == nil {
+		str = fmt.Sprintf("%s  factor: %d\n",str,valInt)
 	}
 	valInt,err = contents.GetStep()
-	if err != nil {
-		str = fmt.Sprintf("%s  step: %ll\n",str,valInt)
+	if err == nil {
+		str = fmt.Sprintf("%s  step: %d\n",str,valInt)
 	}
 	valBool,err := contents.GetOnline()
-	if err != nil {
+	if err == nil {
 		if valBool {
 			str = fmt.Sprintf("%s  isonline: true\n",str)
 		} else {
@@ -284,12 +284,12 @@ func (contents *ParameterContents) ToString() string {
 		}
 	}
 	valStr,err = contents.GetType()
-	if err != nil {
+	if err == nil {
 		str = fmt.Sprintf("%s  type: %s\n",str,valStr)
 	}
 	valInt,err = contents.GetStreamIdentifier()
-	if err != nil {
-		str = fmt.Sprintf("%s  streamIdentifier: %ll\n",str,valInt)
+	if err == nil {
+		str = fmt.Sprintf("%s  streamIdentifier: %d\n",str,valInt)
 	}
 	return fmt.Sprintf("{\n%s}\n", str)
 }
\ No newline at end of file
-- 
2.43.0


From f7aa1bf9515d83a91d49c649469b80e274d7238a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:19 +0000
Subject: [PATCH 46/53] fix: do not mix what is left over from an old
 connection into the new one

---
 socket/client.go | 33 ++++++++++++++++-----------------
 1 file changed, 16 insertions(+), 17 deletions(-)

diff --git a/socket/client.go b/socket/client.go
index 885b243..20497dd 100755
--- a/socket/client.go
+++ b/socket/client.go
@@ -80,7 +80,6 @@ type S101Client struct {
 	connMutex sync.Mutex
 	raddr string
 	outQ  *packetQueue
-	decoder *S101Decoder
 	msTimeout int
 	logger Logger
 	getTreeCallback embertree.Listener
@@ -89,10 +88,18 @@ type S101Client struct {
 	outgoingDataChan chan channelMessage
 }
 
-func (s *S101Client)keepAliveReqHandler(kal []byte) errors.Error {
+// newDecoder returns the decoder of a connection: what is left over from another one must not be mixed into it.
+func (s *S101Client)newDecoder(conn net.Conn) *S101Decoder {
+	keepAliveReqHandler := func(kal []byte) errors.Error {
+		return s.keepAliveReqHandler(conn, kal)
+	}
+	return NewS101Decoder(keepAliveReqHandler, s.keepAliveResponseHandler, s.emberPacketHandler, s.errorHandler)
+}
+
+func (s *S101Client)keepAliveReqHandler(conn net.Conn, kal []byte) errors.Error {
 	// This should not wait behind the messages of the queue
 	s.logger.Debug("KAL Request Received.\n")
-	return s.sendFrame(GetKeepAliveResponse().Bytes())
+	return s.sendFrame(conn, GetKeepAliveResponse().Bytes())
 }
 
 func (s *S101Client)keepAliveResponseHandler(kal []byte) errors.Error {
@@ -116,7 +123,6 @@ func (s *S101Client)errorHandler(err errors.Error) {
 
 func NewS101Client() *S101Client {
 	client := S101Client{msTimeout: 0}
-	client.decoder = NewS101Decoder(client.keepAliveReqHandler,client.keepAliveResponseHandler,client.emberPacketHandler, client.errorHandler )
 	client.stats.Reset()
 	client.logger = NewNullLogger()
 	client.outQ = newPacketQueue()
@@ -182,7 +188,8 @@ func (s *S101Client)closeConn(conn net.Conn) error {
 }
 
 func (s *S101Client)sendBER(data []byte) errors.Error {
-	if !s.IsConnected() {
+	conn := s.getConn()
+	if conn == nil {
 		return errors.New("Not connected")
 	}
 	frames := EncodeMessage(data)
@@ -192,7 +199,7 @@ func (s *S101Client)sendBER(data []byte) errors.Error {
 			s.stats.TxErrors++
 			return errors.Update(err)
 		}
-		err = s.sendFrame(message)
+		err = s.sendFrame(conn, message)
 		if err != nil {
 			return errors.Update(err)
 		}
@@ -200,11 +207,7 @@ func (s *S101Client)sendBER(data []byte) errors.Error {
 	return nil
 }
 
-func (s *S101Client)sendFrame(frame []byte) errors.Error {
-	conn := s.getConn()
-	if conn == nil {
-		return errors.New("Not connected")
-	}
+func (s *S101Client)sendFrame(conn net.Conn, frame []byte) errors.Error {
 	res, e := conn.Write(frame)
 	if e != nil {
 		s.stats.TxErrors++
@@ -403,14 +406,10 @@ func (s *S101Client)GetTree(listener embertree.Listener) errors.Error {
 	return s.GetDirectory(nil, rootCallback)
 }
 
-func (s *S101Client)processBuffer(l int, buffer []byte) {
-	//Decode the message
-	s.decoder.DecodeBuffer(l, buffer)
-}
-
 func (s *S101Client)iomanager(conn net.Conn) {
 	s.logger.Debug("iomanager started.\n")
 	buffer := make([]byte, maxBufferSize)
+	decoder := s.newDecoder(conn)
 	for s.getConn() == conn {
 		// Send messages present in our Q - but no more than max
 		messagesToSend := s.outQ.size()
@@ -443,7 +442,7 @@ func (s *S101Client)iomanager(conn net.Conn) {
 				s.stats.RxBytes += uint64(len)
 				s.stats.RxPackets++
 				//process the buffer
-				s.processBuffer(len, buffer)
+				decoder.DecodeBuffer(len, buffer)
 			}
 			if err != nil {
 				netErr, ok := err.(net.Error)
-- 
2.43.0


From 4c251e49337c29953c2f8e0e0b8d8cb2c143dc7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:56 +0000
Subject: [PATCH 47/53] fix: let only one of several simultaneous Connect calls
 make a connection

---
 socket/client.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/socket/client.go b/socket/client.go
index 20497dd..66aadca 100755
--- a/socket/client.go
+++ b/socket/client.go
@@ -78,6 +78,7 @@ type S101Client struct {
 	stats S101SocketStats
 	conn  net.Conn
 	connMutex sync.Mutex
+	connectMutex sync.Mutex
 	raddr string
 	outQ  *packetQueue
 	msTimeout int
@@ -145,6 +146,8 @@ func (s *S101Client)SetLogger(logger Logger) {
 }
 
 func (s *S101Client)Connect(address string, port uint16) errors.Error {
+	s.connectMutex.Lock()
+	defer s.connectMutex.Unlock()
 	if s.IsConnected() {
 		return errors.New("Client already connected to %s:%d", address, port)
 	}
-- 
2.43.0


From 5e74006cd2a297db3eb4e14481bfc636739e3bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:59 +0000
Subject: [PATCH 48/53] fix: do not process messages of two connections at the
 same time

---
 socket/client.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/socket/client.go b/socket/client.go
index 66aadca..b06a4bf 100755
--- a/socket/client.go
+++ b/socket/client.go
@@ -79,6 +79,7 @@ type S101Client struct {
 	conn  net.Conn
 	connMutex sync.Mutex
 	connectMutex sync.Mutex
+	ioMutex sync.Mutex
 	raddr string
 	outQ  *packetQueue
 	msTimeout int
@@ -410,6 +411,9 @@ func (s *S101Client)GetTree(listener embertree.Listener) errors.Error {
 }
 
 func (s *S101Client)iomanager(conn net.Conn) {
+	// the previous connection may still be processing what it received
+	s.ioMutex.Lock()
+	defer s.ioMutex.Unlock()
 	s.logger.Debug("iomanager started.\n")
 	buffer := make([]byte, maxBufferSize)
 	decoder := s.newDecoder(conn)
-- 
2.43.0


From 858906a891f6d74e04626e9da29669105bf0d299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:54 +0000
Subject: [PATCH 49/53] fix: the path of an attached qualified element follows
 its ancestors

---
 embertree/element.go           | 2 +-
 embertree/qualified_element.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/embertree/element.go b/embertree/element.go
index 1dc44bd..d55a079 100755
--- a/embertree/element.go
+++ b/embertree/element.go
@@ -187,7 +187,7 @@ func (element *Element) encode(writer *asn1.ASNWriter, asChild bool) errors.Erro
 		if err != nil {
 			return errors.Update(err)
 		}
-		err = writer.WriteRelativeOID(element.path)
+		err = writer.WriteRelativeOID(element.GetPath())
 		if err != nil {
 			return errors.Update(err)
 		}
diff --git a/embertree/qualified_element.go b/embertree/qualified_element.go
index f085d29..900b62d 100755
--- a/embertree/qualified_element.go
+++ b/embertree/qualified_element.go
@@ -91,7 +91,7 @@ func IsQualifiedTag(tag uint8) bool {
 }
 
 func (element *Element) GetPath() asn1.RelativeOID {
-	if len(element.path) > 0 {
+	if element.parent == nil && len(element.path) > 0 {
 		return element.path
 	}
 	var path = asn1.RelativeOID{}
-- 
2.43.0


From 6aaae95a3ed4f5d711467363ac7b0b16e370f503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:22 +0000
Subject: [PATCH 50/53] fix: GetTree accepts a nil listener like GetDirectory

---
 socket/client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/socket/client.go b/socket/client.go
index b06a4bf..5f44580 100755
--- a/socket/client.go
+++ b/socket/client.go
@@ -381,7 +381,7 @@ func (r *_RoottListeners)DecPendingGetDir(node interface{}, err errors.Error) {
 	last := r.pendingGetDirectory == 0
 	err = r.err
 	r.mutex.Unlock()
-	if last {
+	if last && r.listener != nil {
 		r.listener.Receive(r.client.tree, err)
 	}
 }
-- 
2.43.0


From 19cae6f6b62f51c7a6ec804bcd59c2ed3b810ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:10 +0000
Subject: [PATCH 51/53] fix: the text of a path is made in linear time

---
 embertree/element.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/embertree/element.go b/embertree/element.go
index d55a079..b2f0a68 100755
--- a/embertree/element.go
+++ b/embertree/element.go
@@ -2,6 +2,7 @@ package embertree
 
 import (
 	"fmt"
+	"strings"
 	"sync"
 
 	. "github.com/dufourgilles/emberlib/logger"
@@ -333,15 +334,14 @@ func (element *Element) GetDirectoryMsg(listener Listener) (*RootElement, errors
 }
 
 func Path2String(path asn1.RelativeOID) string {
-	str := ""
+	var str strings.Builder
 	for index,number := range(path) {
-		if index == 0 {
-			str = fmt.Sprintf("%d", number)
-		} else {
-			str = fmt.Sprintf("%s.%d", str, number)
+		if index > 0 {
+			str.WriteString(".")
 		}
+		str.WriteString(fmt.Sprintf("%d", number))
 	}
-	return str
+	return str.String()
 }
 
 func (element *Element)ToString() string {
-- 
2.43.0


From 7deb769c92783704059f62d2ed89765a7c4e42ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:14 +0000
Subject: [PATCH 52/53] fix: the text of a tree is made in one pass

---
 embertree/element.go | 19 +++++++++++++------
 embertree/root.go    | 11 ++++++-----
 2 files changed, 19 insertions(+), 11 deletions(-)

diff --git a/embertree/element.go b/embertree/element.go
index b2f0a68..0a0d979 100755
--- a/embertree/element.go
+++ b/embertree/element.go
@@ -345,16 +345,23 @@ func Path2String(path asn1.RelativeOID) string {
 }
 
 func (element *Element)ToString() string {
+	var str strings.Builder
+	element.writeText(&str)
+	return str.String()
+}
+
+// writeText appends the text of the element: copying the texts of nested elements would add up.
+func (element *Element)writeText(str *strings.Builder) {
 	contentString := "nil"
 	content := element.GetContent()
 	if content != nil {
 		contentString = content.ToString()
 	}
-	children := ""
+	str.WriteString(fmt.Sprintf("{\n  tag: %d,\n  number: %d,\n  path: %s,\n  content: %s,\n  children: [\n",
+		element.tag, element.Number, Path2String(element.GetPath()),contentString))
 	for _,child := range(element.Children) {
-		children = fmt.Sprintf("%s%s\n", children, child.ToString())
+		child.writeText(str)
+		str.WriteString("\n")
 	}
-
-	return fmt.Sprintf("{\n  tag: %d,\n  number: %d,\n  path: %s,\n  content: %s,\n  children: [\n%s]\n}", 
-		element.tag, element.Number, Path2String(element.GetPath()),contentString, children)
-}
\ No newline at end of file
+	str.WriteString("]\n}")
+}
diff --git a/embertree/root.go b/embertree/root.go
index 9527225..04dd422 100755
--- a/embertree/root.go
+++ b/embertree/root.go
@@ -1,7 +1,7 @@
 package embertree
 
 import (
-	"fmt"
+	"strings"
 	"sync"
 
 	"github.com/dufourgilles/emberlib/errors"
@@ -211,9 +211,10 @@ func (r *RootElement) HasListner(listener Listener) bool {
 }
 
 func (root *RootElement) ToString() string {
-	str := ""
+	var str strings.Builder
 	for _,element := range(root.RootElementCollection) {
-		str = fmt.Sprintf("%s%s\n", str, element.ToString())
+		element.writeText(&str)
+		str.WriteString("\n")
 	}
-	return str
-}
\ No newline at end of file
+	return str.String()
+}
-- 
2.43.0


From f6a9d6cb44d06ca0d3ed29d05fa2e8919a477c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:17 +0000
Subject: [PATCH 53/53] fix: GetTree makes the text of the tree only for a
 debug logger, and not as a format

---
 socket/client.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/socket/client.go b/socket/client.go
index 5f44580..5485265 100755
--- a/socket/client.go
+++ b/socket/client.go
@@ -396,7 +396,9 @@ func (r *_RoottListeners)Receive(node interface{}, err errors.Error) {
 	if err == nil && node != nil {
 		root := node.(*embertree.RootElement)
 		r.client.logger.Debug("Root CallBack.\n")
-		r.client.logger.Debug(root.ToString())
+		if r.client.logger.GetLogLevel() >= DebugLevel {
+			r.client.logger.Debug("%s", root.ToString())
+		}
 		for _,element := range(root.RootElementCollection) {
 			r.client.logger.Debug("Root Callback GetDir for %s.\n", embertree.Path2String(element.GetPath()))
 			r.getDirectory(element)
-- 
2.43.0

