From bd9a0cfab833eece74b9c9f491e9f01e382b62f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:41 +0000
Subject: [PATCH 01/63] fix: WriteReal announces the width of the exponent

---
 asn1/encode.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/asn1/encode.go b/asn1/encode.go
index c9426eb..6442858 100755
--- a/asn1/encode.go
+++ b/asn1/encode.go
@@ -219,6 +219,7 @@ func (asn *ASNWriter) WriteReal(r float64) errors.Error {
 
 	asn.writeLength(1 + expSize + significandSize)
 	preamble := uint8(0x80)
+	preamble |= uint8(expSize - 1)
 	if r < 0 {
 		preamble |= 0x40
 	}
-- 
2.43.0


From 9c144e8cb39cd20b3d3501a28e36d2f882670a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:44 +0000
Subject: [PATCH 02/63] fix: WriteReal writes subnormal numbers without an
 implicit bit

---
 asn1/encode.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/asn1/encode.go b/asn1/encode.go
index 6442858..d6de891 100755
--- a/asn1/encode.go
+++ b/asn1/encode.go
@@ -3,6 +3,7 @@ package asn1
 import (
 	"bytes"
 	"math"
+	mathbits "math/bits"
 
 	"github.com/dufourgilles/emberlib/errors"
 )
@@ -204,6 +205,11 @@ func (asn *ASNWriter) WriteReal(r float64) errors.Error {
 	bits := math.Float64bits(r)
 	significand := (uint64(0x000FFFFFFFFFFFFF) & bits) | 0x0010000000000000
 	exponent := int(((uint64(0x7FF0000000000000) & bits) >> 52)) - 1023
+	if exponent == -1023 {
+		// subnormal: no implicit bit, the exponent is the one of the highest bit set
+		significand &= uint64(0x000FFFFFFFFFFFFF)
+		exponent = mathbits.Len64(significand) - 1075
+	}
 
 	for significand&uint64(0xFF) == 0 {
 		significand = significand >> 8
-- 
2.43.0


From 99b664a19a66b8f93792c1bb7a4be68cae436ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:47 +0000
Subject: [PATCH 03/63] fix: writeLength uses the right length form from 64 KiB
 on

---
 asn1/encode.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/asn1/encode.go b/asn1/encode.go
index d6de891..6988d17 100755
--- a/asn1/encode.go
+++ b/asn1/encode.go
@@ -266,7 +266,7 @@ func (asn *ASNWriter) writeLength(len int) errors.Error {
 		}
 		err = asn.data.WriteByte(byte(len & 0xFF))
 	} else if len <= 0xffffff {
-		err = asn.data.WriteByte(0x82)
+		err = asn.data.WriteByte(0x83)
 		if err != nil {
 			return errors.NewError(err)
 		}
@@ -279,6 +279,10 @@ func (asn *ASNWriter) writeLength(len int) errors.Error {
 			return errors.NewError(err)
 		}
 		err = asn.data.WriteByte(byte(len & 0xFF))
+	} else if uint64(len) <= 0xffffffff {
+		_, err = asn.data.Write([]byte{0x84, byte(len >> 24), byte(len >> 16), byte(len >> 8), byte(len)})
+	} else {
+		return errors.New("Length %d too big.", len)
 	}
 	return errors.NewError(err)
 }
-- 
2.43.0


From cc17aedf9dde7a251c9f245a5b34877cd9d6e2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:50 +0000
Subject: [PATCH 04/63] fix: WriteRelativeOID refuses negative numbers

---
 asn1/encode.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/asn1/encode.go b/asn1/encode.go
index 6988d17..25fb185 100755
--- a/asn1/encode.go
+++ b/asn1/encode.go
@@ -341,6 +341,9 @@ func (asn *ASNWriter) WriteRelativeOID(oid RelativeOID) errors.Error {
 	buffer := make([]byte, 0)
 	for i := 0; i < len(oid); i++ {
 		val := oid[i]
+		if val < 0 {
+			return errors.New("Invalid negative number %d in OID.", val)
+		}
 		encodedBytes := make([]byte, 0)
 		for {
 			if val < 0x7F {
-- 
2.43.0


From 1d43d491b27dcdae99c3b6a6b08ab1c8e717e985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:16 +0000
Subject: [PATCH 05/63] fix: WriteRelativeOID writes no padding byte for
 numbers led by 127

---
 asn1/encode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1/encode.go b/asn1/encode.go
index 25fb185..ba51728 100755
--- a/asn1/encode.go
+++ b/asn1/encode.go
@@ -346,7 +346,7 @@ func (asn *ASNWriter) WriteRelativeOID(oid RelativeOID) errors.Error {
 		}
 		encodedBytes := make([]byte, 0)
 		for {
-			if val < 0x7F {
+			if val <= 0x7F {
 				break
 			}
 			encodedBytes = append(encodedBytes, byte(val&0x7F))
-- 
2.43.0


From 0bb49a83574479d9e1a171743a7e59b27752131a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:19 +0000
Subject: [PATCH 06/63] fix: ReadReal handles zero, wide and subnormal
 significands and bad exponents

---
 asn1/decode.go | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/asn1/decode.go b/asn1/decode.go
index 4ff5426..8be3c72 100755
--- a/asn1/decode.go
+++ b/asn1/decode.go
@@ -374,7 +374,7 @@ func (a *ASNReader) ReadReal() (float64, errors.Error) {
 	}
 
 	buf, e := a.readStringBuffer()
-	if e != nil || buf == nil {
+	if e != nil || len(buf) == 0 {
 		return 0.0, errors.Update(e)
 	}
 
@@ -415,12 +415,25 @@ func (a *ASNReader) ReadReal() (float64, errors.Error) {
 	}
 
 	significand := uint64(0)
+	if pos >= len(buf) || len(buf)-pos > 8 {
+		return math.NaN(), errors.New("Invalid ASN.1; significand of %d bytes", len(buf)-pos)
+	}
 	for pos < len(buf) {
 		significand = (significand << 8) | uint64(buf[pos])
 		pos++
 	}
 
+	if significand == 0 {
+		return 0.0, nil
+	}
+	// keep what fits in a float64
+	for significand > 0x001FFFFFFFFFFFFF {
+		significand >>= 1
+	}
 	significand = significand << significandShift
+	if significand > 0x001FFFFFFFFFFFFF {
+		significand >>= significandShift
+	}
 
 	mask := uint64(0x7FFFF00000000000)
 	for significand&mask == 0 {
@@ -432,6 +445,14 @@ func (a *ASNReader) ReadReal() (float64, errors.Error) {
 		significand <<= 1
 	}
 
+	if exponent > 1023 {
+		return math.NaN(), errors.New("Real exponent %d too big", exponent)
+	}
+	if exponent < -1022 {
+		// subnormal: no implicit bit
+		significand >>= uint(-1022 - exponent)
+		exponent = -1023
+	}
 	significand = significand & uint64(0x000FFFFFFFFFFFFF)
 	longExponent := uint64(exponent)
 	bits := ((longExponent + 1023) << 52) | significand
-- 
2.43.0


From da9b16efec05c6f5bc5de0ec9cc727cf56b84664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:54 +0000
Subject: [PATCH 07/63] fix: integer readers refuse missing, empty and
 indefinite contents

---
 asn1/decode.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/asn1/decode.go b/asn1/decode.go
index 8be3c72..0cf4718 100755
--- a/asn1/decode.go
+++ b/asn1/decode.go
@@ -217,10 +217,16 @@ func (a *ASNReader) ReadInt() (int, errors.Error) {
 	if l > 4 {
 		return 0, errors.New("Integer length too big %d at offset %d", l, offset)
 	}
+	if l <= 0 {
+		return 0, errors.New("Invalid integer length %d at offset %d", l, offset)
+	}
 
 	var b byte
 	val := int(0)
 	b, err = a.ReadByte()
+	if err != nil {
+		return 0, errors.Update(err)
+	}
 	if b&0x80 > 0 {
 		val = -1
 	}
@@ -281,9 +287,12 @@ func (a *ASNReader) ReadInt64() (int64, errors.Error) {
 	if l > 8 {
 		return 0, errors.New("Integer64 length too big %d at offset %d", l, offset)
 	}
+	if l <= 0 {
+		return 0, errors.New("Invalid integer64 length %d at offset %d", l, offset)
+	}
 
 	val, err := a.readInt64(l)
-	return val, nil
+	return val, errors.Update(err)
 }
 
 func (a *ASNReader) ReadIndifiniteLengthData() ([]byte, errors.Error) {
-- 
2.43.0


From 7128febd533d2ac6c913f43dc5d58b2ed5a27edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:57 +0000
Subject: [PATCH 08/63] fix: ReadBoolean refuses a boolean without content

---
 asn1/decode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1/decode.go b/asn1/decode.go
index 0cf4718..3117413 100755
--- a/asn1/decode.go
+++ b/asn1/decode.go
@@ -70,7 +70,7 @@ func (a *ASNReader) ReadBoolean() (bool, errors.Error) {
 		return false, errors.New("Invalid boolean length %d at offset %d", l, offset)
 	}
 	b, e := a.ReadByte()
-	if err != nil {
+	if e != nil {
 		return false, errors.Update(e)
 	}
 	if b == 0 {
-- 
2.43.0


From 2b1a076f546909a56482a2f28287d48851071193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:00 +0000
Subject: [PATCH 09/63] fix: ReadOID refuses other tags, unterminated and too
 big numbers

---
 asn1/decode.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/asn1/decode.go b/asn1/decode.go
index 3117413..03d0073 100755
--- a/asn1/decode.go
+++ b/asn1/decode.go
@@ -82,10 +82,13 @@ func (a *ASNReader) ReadBoolean() (bool, errors.Error) {
 func (a *ASNReader) ReadOID(tag uint8) (RelativeOID, errors.Error) {
 	var oid RelativeOID
 	offset := a.TopOffset()
-	tag, err := a.ReadByte()
+	readTag, err := a.ReadByte()
 	if err != nil {
 		return nil, errors.New("Failed to read OID tag at offset %d. %s", offset, err)
 	}
+	if readTag != tag {
+		return nil, errors.New("Incorrect OID tag %d at offset %d.", readTag, offset)
+	}
 	buf, err := a.readStringBuffer()
 	if err != nil {
 		return nil, errors.Update(err)
@@ -94,11 +97,16 @@ func (a *ASNReader) ReadOID(tag uint8) (RelativeOID, errors.Error) {
 	value := int32(0)
 	for i := 0; i < len(buf); i++ {
 		b := buf[i] & 0xff
+		if value > math.MaxInt32>>7 {
+			return nil, errors.New("OID number too big at offset %d.", offset)
+		}
 		value <<= 7
 		value += int32(b & 0x7f)
 		if b&0x80 == 0 {
 			oid = append(oid, value)
 			value = 0
+		} else if i == len(buf)-1 {
+			return nil, errors.New("OID number cut short at offset %d.", offset)
 		}
 	}
 
-- 
2.43.0


From e14d1b551baf20d634a3ab287b704b440765dcb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:27 +0000
Subject: [PATCH 10/63] fix: readers refuse lengths beyond the data instead of
 padding or allocating

---
 asn1/decode.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/asn1/decode.go b/asn1/decode.go
index 03d0073..61ebb5f 100755
--- a/asn1/decode.go
+++ b/asn1/decode.go
@@ -11,6 +11,7 @@ type ASNReader struct {
 	data           *bytes.Reader
 	startingOffset int
 	len            int
+	isSubReader    bool
 }
 
 func NewASNReader(p []byte) *ASNReader {
@@ -30,17 +31,25 @@ func (a *ASNReader) TopOffset() int {
 }
 
 func (a *ASNReader) NewReader(length int) (*ASNReader, errors.Error) {
+	offset := a.TopOffset()
 	if length <= 0 {
-		return NewASNReader([]byte{}), nil
+		emptyReader := NewASNReader([]byte{})
+		emptyReader.startingOffset = offset
+		emptyReader.isSubReader = true
+		return emptyReader, nil
+	}
+	// Only the container of a whole message may lack its last byte (then read as 0).
+	if missing := length - a.Len(); missing > 1 || missing == 1 && a.isSubReader {
+		return nil, errors.New("Length %d exceeds the %d bytes left at offset %d.", length, a.Len(), offset)
 	}
 	b := make([]byte, length)
-	offset := a.TopOffset()
 	_, err := a.data.Read(b)
 	if err != nil {
 		return nil, errors.New("Failed To read byte at offset %d. %s", a.TopOffset(), err)
 	}
 	newReader := NewASNReader(b)
 	newReader.startingOffset = offset
+	newReader.isSubReader = true
 	return newReader, nil
 }
 
@@ -161,6 +170,9 @@ func (a *ASNReader) ReadSequenceStart(tag uint8) (int, *ASNReader, errors.Error)
 		return -1, a, errors.New("Sequence TAG mismatch at offset %d. Got %d instead of %d", offset, b, tag)
 	}
 	length, err := a.ReadLength()
+	if err != nil {
+		return -1, nil, errors.Update(err)
+	}
 	if length >= 0 {
 		newReader, err := a.NewReader(length)
 
@@ -340,6 +352,9 @@ func (a *ASNReader) readStringBuffer() ([]byte, errors.Error) {
 	} else if l == 0 {
 		return nil, nil
 	}
+	if l > a.Len() {
+		return nil, errors.New("Length %d exceeds the %d bytes left at offset %d.", l, a.Len(), a.TopOffset())
+	}
 	b = make([]byte, l)
 	for i := 0; i < l; i++ {
 		b[i], err = a.ReadByte()
-- 
2.43.0


From 2bf082fea612124786855fa55df3190816b1637d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:17 +0000
Subject: [PATCH 11/63] fix: containers of indefinite length may be empty and
 must be terminated

---
 asn1/decode.go                 | 12 +++++++++-
 embertree/connection.go        | 13 +++++++----
 embertree/content_parameter.go |  8 +++++--
 embertree/elementFactory.go    | 32 +++++++++++++-------------
 embertree/function.go          | 42 +++++++++++++++++++---------------
 embertree/invocation.go        | 21 +++++++++--------
 embertree/matrix.go            | 32 +++++++++++++-------------
 embertree/matrix_element.go    | 32 +++++++++++++-------------
 embertree/node.go              | 16 ++++++-------
 embertree/parameter.go         | 16 ++++++-------
 embertree/root.go              | 31 ++++++++++++++++---------
 11 files changed, 145 insertions(+), 110 deletions(-)

diff --git a/asn1/decode.go b/asn1/decode.go
index 61ebb5f..08a2b27 100755
--- a/asn1/decode.go
+++ b/asn1/decode.go
@@ -12,6 +12,7 @@ type ASNReader struct {
 	startingOffset int
 	len            int
 	isSubReader    bool
+	openSequences  int // containers of indefinite length entered and not yet left
 }
 
 func NewASNReader(p []byte) *ASNReader {
@@ -39,7 +40,7 @@ func (a *ASNReader) NewReader(length int) (*ASNReader, errors.Error) {
 		return emptyReader, nil
 	}
 	// Only the container of a whole message may lack its last byte (then read as 0).
-	if missing := length - a.Len(); missing > 1 || missing == 1 && a.isSubReader {
+	if missing := length - a.Len(); missing > 1 || missing == 1 && (a.isSubReader || a.openSequences > 0) {
 		return nil, errors.New("Length %d exceeds the %d bytes left at offset %d.", length, a.Len(), offset)
 	}
 	b := make([]byte, length)
@@ -178,6 +179,7 @@ func (a *ASNReader) ReadSequenceStart(tag uint8) (int, *ASNReader, errors.Error)
 
 		return length, newReader, err
 	}
+	a.openSequences++
 	return length, a, nil
 }
 
@@ -197,6 +199,9 @@ func (a *ASNReader) ReadSequenceEnd() errors.Error {
 
 func (a *ASNReader) CheckSequenceEnd() (bool, errors.Error) {
 	if a.Len() == 0 {
+		if a.openSequences > 0 {
+			return false, errors.New("Sequence End missing at offset %d.", a.TopOffset())
+		}
 		return true, nil
 	}
 	x1, err := a.data.ReadByte()
@@ -209,6 +214,7 @@ func (a *ASNReader) CheckSequenceEnd() (bool, errors.Error) {
 	}
 	x1, err = a.data.ReadByte()
 	if err != nil {
+		a.data.UnreadByte()
 		return false, errors.New("Failed To read byte at offset %d. %s", a.TopOffset(), err)
 	}
 	if x1 != 0 {
@@ -216,6 +222,9 @@ func (a *ASNReader) CheckSequenceEnd() (bool, errors.Error) {
 		a.data.UnreadByte()
 		return false, nil
 	}
+	if a.openSequences > 0 {
+		a.openSequences--
+	}
 	return true, nil
 }
 
@@ -344,6 +353,7 @@ func (a *ASNReader) readStringBuffer() ([]byte, errors.Error) {
 
 	var b []byte
 	if l < 0 {
+		a.openSequences++
 		b, err = a.ReadIndifiniteLengthData()
 		if err != nil {
 			return nil, errors.Update(err)
diff --git a/embertree/connection.go b/embertree/connection.go
index 506b13a..8ef80ef 100755
--- a/embertree/connection.go
+++ b/embertree/connection.go
@@ -142,7 +142,14 @@ func (c *Connection) Decode(reader *asn1.ASNReader) errors.Error {
 		return errors.Update(err)
 	}
 
-	for connectionReader.Len() > 0 {
+	for {
+		end, err := connectionReader.CheckSequenceEnd()
+		if err != nil {
+			return errors.Update(err)
+		}
+		if end {
+			break
+		}
 		tag, err := connectionReader.Peek()
 		if err != nil {
 			return errors.Update(err)
@@ -185,10 +192,6 @@ func (c *Connection) Decode(reader *asn1.ASNReader) errors.Error {
 		if err != nil {
 			return errors.Update(err)
 		}
-		end, err := connectionReader.CheckSequenceEnd()
-		if end {
-			break
-		}
 	}
 	return nil
 }
diff --git a/embertree/content_parameter.go b/embertree/content_parameter.go
index 5308270..dc8903a 100755
--- a/embertree/content_parameter.go
+++ b/embertree/content_parameter.go
@@ -331,11 +331,15 @@ func (cp *ContentParameter) Encode(context uint8, writer *asn1.ASNWriter) errors
 
 func DecodeValue(reader *asn1.ASNReader, ctxt uint8) (*ContentParameter, errors.Error) {
 	var contentParameter ContentParameter
-	pcLength, pcReader, err := reader.ReadSequenceStart(asn1.Context(ctxt))
+	_, pcReader, err := reader.ReadSequenceStart(asn1.Context(ctxt))
 	if err != nil {
 		return nil, errors.Update(err)
 	}
-	if pcLength == 0 {
+	end, err := pcReader.CheckSequenceEnd()
+	if err != nil {
+		return nil, errors.Update(err)
+	}
+	if end {
 		return &contentParameter, nil
 	}
 	pcType, err := pcReader.Peek()
diff --git a/embertree/elementFactory.go b/embertree/elementFactory.go
index db2e9f8..e7920b5 100755
--- a/embertree/elementFactory.go
+++ b/embertree/elementFactory.go
@@ -91,7 +91,14 @@ func decodeChildren(ctxt uint8, element *Element, reader *asn1.ASNReader) errors
 	if err != nil {
 		return errors.Update(err)
 	}
-	for childrenReader.Len() > 0 {
+	for {
+		end, err := childrenReader.CheckSequenceEnd()
+		if err != nil {
+			return errors.Update(err)
+		}
+		if end {
+			break
+		}
 		_, childReader, err := childrenReader.ReadSequenceStart(asn1.Context(0))
 		if err != nil {
 			return errors.Update(err)
@@ -106,13 +113,6 @@ func decodeChildren(ctxt uint8, element *Element, reader *asn1.ASNReader) errors
 			return errors.Update(err)
 		}
 		element.AddChild(child)
-		end, err := childrenReader.CheckSequenceEnd()
-		if end {
-			break
-		}
-		if err != nil {
-			return errors.Update(err)
-		}
 	}
 	return ctxtReader.ReadSequenceEnd()
 }
@@ -161,7 +161,14 @@ func DecodeElement(reader *asn1.ASNReader) (*Element, errors.Error) {
 	} else {
 		element = NewElement(tag, number, contentCreator)
 	}
-	for elementReader.Len() > 0 {
+	for {
+		end, err := elementReader.CheckSequenceEnd()
+		if err != nil {
+			return element, errors.Update(err)
+		}
+		if end {
+			break
+		}
 		b, err := elementReader.Peek()
 		if err != nil {
 			return nil, errors.Update(err)
@@ -193,13 +200,6 @@ func DecodeElement(reader *asn1.ASNReader) (*Element, errors.Error) {
 				return nil, errors.Update(err)
 			}
 		}
-		end, err := elementReader.CheckSequenceEnd()
-		if end {
-			break
-		}
-		if err != nil {
-			return element, errors.Update(err)
-		}
 	}
 	return element, nil
 }
diff --git a/embertree/function.go b/embertree/function.go
index 8471fa7..91e2877 100755
--- a/embertree/function.go
+++ b/embertree/function.go
@@ -96,7 +96,14 @@ func decodeTupleDescriptions(reader *asn1.ASNReader) ([]*TupleDescription, error
 	if err != nil {
 		return nil, errors.Update(err)
 	}
-	for seqReader.Len() > 0 {
+	for {
+		end, err := seqReader.CheckSequenceEnd()
+		if err != nil {
+			return nil, errors.Update(err)
+		}
+		if end {
+			break
+		}
 		_, argReader, err := seqReader.ReadSequenceStart(asn1.Context(0))
 		if err != nil {
 			return nil, errors.Update(err)
@@ -111,13 +118,6 @@ func decodeTupleDescriptions(reader *asn1.ASNReader) ([]*TupleDescription, error
 		if err != nil {
 			return nil, errors.Update(err)
 		}
-		end, err := seqReader.CheckSequenceEnd()
-		if end {
-			break
-		}
-		if err != nil {
-			return nil, errors.Update(err)
-		}
 	}
 	return arguments, nil
 }
@@ -157,7 +157,14 @@ func (tuple *TupleDescription) Decode(reader *asn1.ASNReader) errors.Error {
 	if err != nil {
 		return errors.Update(err)
 	}
-	for tupleReader.Len() > 0 {
+	for {
+		end, err := tupleReader.CheckSequenceEnd()
+		if err != nil {
+			return errors.Update(err)
+		}
+		if end {
+			break
+		}
 		peek, err := tupleReader.Peek()
 		if err != nil {
 			return errors.Update(err)
@@ -188,10 +195,6 @@ func (tuple *TupleDescription) Decode(reader *asn1.ASNReader) errors.Error {
 		if err != nil {
 			return errors.Update(err)
 		}
-		end, err := tupleReader.CheckSequenceEnd()
-		if end || err != nil {
-			break
-		}
 	}
 	return errors.Update(err)
 }
@@ -243,7 +246,14 @@ func (fc *FunctionContents) Decode(reader *asn1.ASNReader) errors.Error {
 	if err != nil {
 		return errors.Update(err)
 	}
-	for reader.Len() > 0 {
+	for {
+		end, err := reader.CheckSequenceEnd()
+		if err != nil {
+			return errors.Update(err)
+		}
+		if end {
+			break
+		}
 		peek, err := reader.Peek()
 		if err != nil {
 			return errors.Update(err)
@@ -288,10 +298,6 @@ func (fc *FunctionContents) Decode(reader *asn1.ASNReader) errors.Error {
 		default:
 			return errors.New("Unknown function content tag %d", peek)
 		}
-		end, err := reader.CheckSequenceEnd()
-		if end || err != nil {
-			break
-		}
 	}
 	return errors.Update(err)
 }
diff --git a/embertree/invocation.go b/embertree/invocation.go
index c7f1565..442c264 100755
--- a/embertree/invocation.go
+++ b/embertree/invocation.go
@@ -69,7 +69,14 @@ func (i *Invocation) Decode(reader *asn1.ASNReader) errors.Error {
 		return errors.Update(err)
 	}
 
-	for invocationReader.Len() > 0 {
+	for {
+		end, err := invocationReader.CheckSequenceEnd()
+		if err != nil {
+			return errors.Update(err)
+		}
+		if end {
+			break
+		}
 		peek, err := invocationReader.Peek()
 		if err != nil {
 			return errors.Update(err)
@@ -92,19 +99,19 @@ func (i *Invocation) Decode(reader *asn1.ASNReader) errors.Error {
 			if err != nil {
 				return errors.Update(err)
 			}
-			for seqReader.Len() > 0 {
-				value, err := DecodeValue(seqReader, 0)
+			for {
+				end, err := seqReader.CheckSequenceEnd()
 				if err != nil {
 					return errors.Update(err)
 				}
-				arguments = append(arguments, value)
-				end, err := seqReader.CheckSequenceEnd()
 				if end {
 					break
 				}
+				value, err := DecodeValue(seqReader, 0)
 				if err != nil {
 					return errors.Update(err)
 				}
+				arguments = append(arguments, value)
 			}
 			break
 		default:
@@ -114,10 +121,6 @@ func (i *Invocation) Decode(reader *asn1.ASNReader) errors.Error {
 		if err != nil {
 			return errors.Update(err)
 		}
-		end, err := invocationReader.CheckSequenceEnd()
-		if end || err != nil {
-			break
-		}
 	}
 	return errors.Update(err)
 }
diff --git a/embertree/matrix.go b/embertree/matrix.go
index 8cc4036..bb90ec9 100755
--- a/embertree/matrix.go
+++ b/embertree/matrix.go
@@ -271,7 +271,14 @@ func (c *MatrixContent) DecodeLabels(reader *asn1.ASNReader) errors.Error {
 	if err != nil {
 		return errors.Update(err)
 	}
-	for seqReader.Len() > 0 {
+	for {
+		end, err := seqReader.CheckSequenceEnd()
+		if err != nil {
+			return errors.Update(err)
+		}
+		if end {
+			break
+		}
 		_, ctxtReader, err := seqReader.ReadSequenceStart(asn1.Context(0))
 		if err != nil {
 			return errors.Update(err)
@@ -285,13 +292,6 @@ func (c *MatrixContent) DecodeLabels(reader *asn1.ASNReader) errors.Error {
 		if err != nil {
 			return errors.Update(err)
 		}
-		end, err := seqReader.CheckSequenceEnd()
-		if end {
-			break
-		}
-		if err != nil {
-			return errors.Update(err)
-		}
 	}
 	err = reader.ReadSequenceEnd()
 	if err != nil {
@@ -348,7 +348,14 @@ func (c *MatrixContent) Decode(reader *asn1.ASNReader) errors.Error {
 		return errors.Update(err)
 	}
 
-	for matrixContentReader.Len() > 0 {
+	for {
+		end, err := matrixContentReader.CheckSequenceEnd()
+		if err != nil {
+			return errors.Update(err)
+		}
+		if end {
+			break
+		}
 		peek, err := matrixContentReader.Peek()
 		if err != nil {
 			return errors.Update(err)
@@ -386,13 +393,6 @@ func (c *MatrixContent) Decode(reader *asn1.ASNReader) errors.Error {
 				return errors.Update(err)
 			}
 		}
-		end, err := matrixContentReader.CheckSequenceEnd()
-		if end {
-			break
-		}
-		if err != nil {
-			return errors.Update(err)
-		}
 	}
 
 	return nil
diff --git a/embertree/matrix_element.go b/embertree/matrix_element.go
index 974227b..7c26a94 100755
--- a/embertree/matrix_element.go
+++ b/embertree/matrix_element.go
@@ -59,7 +59,14 @@ func DeodeSignals(reader *asn1.ASNReader, ctxt uint8) ([]Signal, errors.Error) {
 		return nil, errors.Update(err)
 	}
 
-	for setReader.Len() > 0 {
+	for {
+		end, err := setReader.CheckSequenceEnd()
+		if err != nil {
+			return nil, errors.Update(err)
+		}
+		if end {
+			break
+		}
 		_, ctxtReader, err := setReader.ReadSequenceStart(asn1.Context(0))
 		if err != nil {
 			return nil, errors.Update(err)
@@ -73,13 +80,6 @@ func DeodeSignals(reader *asn1.ASNReader, ctxt uint8) ([]Signal, errors.Error) {
 		if err != nil {
 			return nil, errors.Update(err)
 		}
-		end, err := setReader.CheckSequenceEnd()
-		if end {
-			break
-		}
-		if err != nil {
-			return nil, errors.Update(err)
-		}
 	}
 	return signals, signalsReader.ReadSequenceEnd()
 }
@@ -153,7 +153,14 @@ func (element *Element) DecodeConnections(reader *asn1.ASNReader) errors.Error {
 	if err != nil {
 		return errors.Update(err)
 	}
-	for setReader.Len() > 0 {
+	for {
+		end, err := setReader.CheckSequenceEnd()
+		if err != nil {
+			return errors.Update(err)
+		}
+		if end {
+			break
+		}
 		_, ctxtReader, err := setReader.ReadSequenceStart(asn1.Context(0))
 		if err != nil {
 			return errors.Update(err)
@@ -168,13 +175,6 @@ func (element *Element) DecodeConnections(reader *asn1.ASNReader) errors.Error {
 		if err != nil {
 			return errors.Update(err)
 		}
-		end, err := setReader.CheckSequenceEnd()
-		if end {
-			break
-		}
-		if err != nil {
-			return errors.Update(err)
-		}
 	}
 	element.connections = connections
 	return connectionReader.ReadSequenceEnd()
diff --git a/embertree/node.go b/embertree/node.go
index 7479e63..29287b5 100755
--- a/embertree/node.go
+++ b/embertree/node.go
@@ -142,7 +142,14 @@ func (nc *NodeContents) Decode(reader *asn1.ASNReader) errors.Error {
 		return errors.Update(err)
 	}
 
-	for reader.Len() > 0 {
+	for {
+		end, err := reader.CheckSequenceEnd()
+		if err != nil {
+			return errors.Update(err)
+		}
+		if end {
+			break
+		}
 		peek, err := reader.Peek()
 		if err != nil {
 			return errors.Update(err)
@@ -193,13 +200,6 @@ func (nc *NodeContents) Decode(reader *asn1.ASNReader) errors.Error {
 				}
 			}
 		}
-		end, err := reader.CheckSequenceEnd()
-		if end {
-			break
-		}
-		if err != nil {
-			return errors.Update(err)
-		}
 	}
 	return nil
 }
diff --git a/embertree/parameter.go b/embertree/parameter.go
index 6216a53..8de5abc 100755
--- a/embertree/parameter.go
+++ b/embertree/parameter.go
@@ -186,7 +186,14 @@ func (pc *ParameterContents) Decode(reader *asn1.ASNReader) errors.Error {
 		return errors.Update(err)
 	}
 
-	for reader.Len() > 0 {
+	for {
+		end, err := reader.CheckSequenceEnd()
+		if err != nil {
+			return errors.Update(err)
+		}
+		if end {
+			break
+		}
 		peek, err := reader.Peek()
 		if err != nil {
 			return errors.Update(err)
@@ -213,13 +220,6 @@ func (pc *ParameterContents) Decode(reader *asn1.ASNReader) errors.Error {
 				return errors.Update(err)
 			}
 		}
-		end, err := reader.CheckSequenceEnd()
-		if end {
-			break
-		}
-		if err != nil {
-			return errors.Update(err)
-		}
 	}
 	return nil
 }
diff --git a/embertree/root.go b/embertree/root.go
index 2cbd180..bf01046 100755
--- a/embertree/root.go
+++ b/embertree/root.go
@@ -87,16 +87,30 @@ func (root *RootElement) Decode(reader *asn1.ASNReader) errors.Error {
 	if err != nil {
 		return err
 	}
-	peek, err := reader.Peek()
+	empty, err := reader.CheckSequenceEnd()
 	if err != nil {
-		return err
+		return errors.Update(err)
+	}
+	peek := uint8(0)
+	if !empty {
+		peek, err = reader.Peek()
+		if err != nil {
+			return err
+		}
 	}
 	if peek == asn1.Application(11) {
 		_, collectionReader, err := reader.ReadSequenceStart(peek)
 		if err != nil {
 			return errors.Update(err)
 		}
-		for collectionReader.Len() > 0 {
+		for {
+			end, err := collectionReader.CheckSequenceEnd()
+			if err != nil {
+				return errors.Update(err)
+			}
+			if end {
+				break
+			}
 			_, elementReader, err := collectionReader.ReadSequenceStart(asn1.Context(0))
 			if err != nil {
 				return errors.Update(err)
@@ -118,16 +132,11 @@ func (root *RootElement) Decode(reader *asn1.ASNReader) errors.Error {
 			if err != nil {
 				return errors.Update(err)
 			}
-			end, err := collectionReader.CheckSequenceEnd()
-			if end {
-				break
-			}
-			if err != nil {
-				return errors.Update(err)
-			}
 		}
 	}
-	err = reader.ReadSequenceEnd()
+	if !empty {
+		err = reader.ReadSequenceEnd()
+	}
 	for _, listener := range(root.listeners) {
 		root.logger.Debug("Updating root listener.\n")
 		listener.Receive(root, nil)
-- 
2.43.0


From 33eb8d50eec00975440154c3dad6f6bd8df50ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:20 +0000
Subject: [PATCH 12/63] fix: unknown context tags are refused instead of
 looping forever

---
 embertree/elementFactory.go | 2 ++
 embertree/matrix.go         | 2 ++
 embertree/parameter.go      | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/embertree/elementFactory.go b/embertree/elementFactory.go
index e7920b5..20268a4 100755
--- a/embertree/elementFactory.go
+++ b/embertree/elementFactory.go
@@ -199,6 +199,8 @@ func DecodeElement(reader *asn1.ASNReader) (*Element, errors.Error) {
 			if err != nil {
 				return nil, errors.Update(err)
 			}
+		} else {
+			return nil, errors.New("Unknown element tag 0x%x at offset %d.", b, elementReader.TopOffset())
 		}
 	}
 	return element, nil
diff --git a/embertree/matrix.go b/embertree/matrix.go
index bb90ec9..b9c3e03 100755
--- a/embertree/matrix.go
+++ b/embertree/matrix.go
@@ -392,6 +392,8 @@ func (c *MatrixContent) Decode(reader *asn1.ASNReader) errors.Error {
 			if err != nil {
 				return errors.Update(err)
 			}
+		} else {
+			return errors.New("Unknown matrix content tag %d", peek)
 		}
 	}
 
diff --git a/embertree/parameter.go b/embertree/parameter.go
index 8de5abc..3c88949 100755
--- a/embertree/parameter.go
+++ b/embertree/parameter.go
@@ -219,6 +219,8 @@ func (pc *ParameterContents) Decode(reader *asn1.ASNReader) errors.Error {
 			if err != nil {
 				return errors.Update(err)
 			}
+		} else {
+			return errors.New("Unknown parameter content tag %d", peek)
 		}
 	}
 	return nil
-- 
2.43.0


From dc7944172b0e8288bf58c8e9aa99274ed2e19984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:23 +0000
Subject: [PATCH 13/63] fix: decoders stop at containers that cannot be entered
 instead of panicking

---
 embertree/connection.go     | 3 +++
 embertree/elementFactory.go | 3 +++
 embertree/matrix.go         | 3 +++
 embertree/node.go           | 3 +++
 embertree/parameter.go      | 3 +++
 5 files changed, 15 insertions(+)

diff --git a/embertree/connection.go b/embertree/connection.go
index 8ef80ef..e93e767 100755
--- a/embertree/connection.go
+++ b/embertree/connection.go
@@ -156,6 +156,9 @@ func (c *Connection) Decode(reader *asn1.ASNReader) errors.Error {
 		}
 
 		_, ctxtReader, err := connectionReader.ReadSequenceStart(tag)
+		if err != nil {
+			return errors.Update(err)
+		}
 		switch tag {
 		case asn1.Context(1):
 			//Sources
diff --git a/embertree/elementFactory.go b/embertree/elementFactory.go
index 20268a4..c81542d 100755
--- a/embertree/elementFactory.go
+++ b/embertree/elementFactory.go
@@ -87,6 +87,9 @@ func decodeContents(element *Element, ctxt uint8, reader *asn1.ASNReader) (inter
 
 func decodeChildren(ctxt uint8, element *Element, reader *asn1.ASNReader) errors.Error {
 	_, ctxtReader, err := reader.ReadSequenceStart(ctxt)
+	if err != nil {
+		return errors.Update(err)
+	}
 	_, childrenReader, err := ctxtReader.ReadSequenceStart(asn1.Application(4))
 	if err != nil {
 		return errors.Update(err)
diff --git a/embertree/matrix.go b/embertree/matrix.go
index b9c3e03..7585166 100755
--- a/embertree/matrix.go
+++ b/embertree/matrix.go
@@ -383,6 +383,9 @@ func (c *MatrixContent) Decode(reader *asn1.ASNReader) errors.Error {
 			}
 		} else if peek == templateReferenceContext {
 			_, templateReader, err := matrixContentReader.ReadSequenceStart(peek)
+			if err != nil {
+				return errors.Update(err)
+			}
 			templateReference, err := templateReader.ReadOID(asn1.EMBER_RELATIVE_OID)
 			if err != nil {
 				return errors.Update(err)
diff --git a/embertree/node.go b/embertree/node.go
index 29287b5..4895b45 100755
--- a/embertree/node.go
+++ b/embertree/node.go
@@ -189,6 +189,9 @@ func (nc *NodeContents) Decode(reader *asn1.ASNReader) errors.Error {
 		case asn1.Context(5):
 			{
 				_, templateReader, err := reader.ReadSequenceStart(peek)
+				if err != nil {
+					return errors.Update(err)
+				}
 				templateReference, err := templateReader.ReadOID(asn1.EMBER_RELATIVE_OID)
 				if err != nil {
 					return errors.Update(err)
diff --git a/embertree/parameter.go b/embertree/parameter.go
index 3c88949..4024385 100755
--- a/embertree/parameter.go
+++ b/embertree/parameter.go
@@ -210,6 +210,9 @@ func (pc *ParameterContents) Decode(reader *asn1.ASNReader) errors.Error {
 			}
 		} else if index == 18 {
 			_, templateReader, err := reader.ReadSequenceStart(peek)
+			if err != nil {
+				return errors.Update(err)
+			}
 			templateReference, err := templateReader.ReadOID(asn1.EMBER_RELATIVE_OID)
 			if err != nil {
 				return errors.Update(err)
-- 
2.43.0


From 73809ed9baae2084caff3609a775fcaad5940f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:26 +0000
Subject: [PATCH 14/63] fix: elements with an empty path are refused instead of
 panicking

---
 embertree/elementFactory.go    | 3 +++
 embertree/qualified_element.go | 1 +
 2 files changed, 4 insertions(+)

diff --git a/embertree/elementFactory.go b/embertree/elementFactory.go
index c81542d..8875e05 100755
--- a/embertree/elementFactory.go
+++ b/embertree/elementFactory.go
@@ -164,6 +164,9 @@ func DecodeElement(reader *asn1.ASNReader) (*Element, errors.Error) {
 	} else {
 		element = NewElement(tag, number, contentCreator)
 	}
+	if element == nil {
+		return nil, errors.New("Invalid element path at offset %d.", reader.TopOffset())
+	}
 	for {
 		end, err := elementReader.CheckSequenceEnd()
 		if err != nil {
diff --git a/embertree/qualified_element.go b/embertree/qualified_element.go
index 74b8379..11023fe 100755
--- a/embertree/qualified_element.go
+++ b/embertree/qualified_element.go
@@ -44,6 +44,7 @@ func NewQualifiedParameter(path asn1.RelativeOID) *Element {
 
 func NewQualifiedMatrix(path asn1.RelativeOID, mtype MatrixType, mode MatrixMode) *Element {
 	q := NewQualifiedElement(QualifiedMatrixApplication, path, NewDefaultMatrixContents)
+	if q == nil { return nil }
 	q.isMatrix = true
 	return q
 }
-- 
2.43.0


From 16dfb793617e176c65e3b1be41f00c425abe1555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:29 +0000
Subject: [PATCH 15/63] fix: qualified functions are decoded

---
 embertree/elementFactory.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/embertree/elementFactory.go b/embertree/elementFactory.go
index 8875e05..621e2c1 100755
--- a/embertree/elementFactory.go
+++ b/embertree/elementFactory.go
@@ -21,6 +21,8 @@ func getContentCreator(tag uint8) (ContentCreator, errors.Error) {
 		fallthrough
 	case MatrixApplication:
 		return NewDefaultMatrixContents, nil
+	case QualifiedFunctionApplication:
+		fallthrough
 	case FunctionApplication:
 		return NewFunctionContents, nil
 	default:
-- 
2.43.0


From 0ef03ba6af29e8a5ca4b308bc3233af89a6dae76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:33 +0000
Subject: [PATCH 16/63] fix: matrix labels of definite length are kept and bad
 labels refused

---
 embertree/matrix.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/embertree/matrix.go b/embertree/matrix.go
index 7585166..8e6d322 100755
--- a/embertree/matrix.go
+++ b/embertree/matrix.go
@@ -293,7 +293,7 @@ func (c *MatrixContent) DecodeLabels(reader *asn1.ASNReader) errors.Error {
 			return errors.Update(err)
 		}
 	}
-	err = reader.ReadSequenceEnd()
+	err = labelReader.ReadSequenceEnd()
 	if err != nil {
 		return errors.Update(err)
 	}
@@ -371,7 +371,10 @@ func (c *MatrixContent) Decode(reader *asn1.ASNReader) errors.Error {
 				return errors.Update(err)
 			}
 		} else if peek == labelContext {
-			c.DecodeLabels(matrixContentReader)
+			err = c.DecodeLabels(matrixContentReader)
+			if err != nil {
+				return errors.Update(err)
+			}
 		} else if index == 11 {
 			value, err := DecodeValue(matrixContentReader, index)
 			if err != nil {
-- 
2.43.0


From 2b5e003f07972835deca98579c8a16f9cfbf8fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:36 +0000
Subject: [PATCH 17/63] fix: object identifier values are copied and decoded

---
 embertree/content_parameter.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/embertree/content_parameter.go b/embertree/content_parameter.go
index dc8903a..93fea66 100755
--- a/embertree/content_parameter.go
+++ b/embertree/content_parameter.go
@@ -149,6 +149,13 @@ func (cp *ContentParameter) Set(val *ContentParameter) errors.Error {
 		}
 		cp.SetReal(b)
 		break
+	case ValueTypeOID:
+		b, err := val.GetRelativeOID()
+		if err != nil {
+			return err
+		}
+		cp.SetRelativeOID(b)
+		break
 	}
 	return nil
 }
@@ -384,6 +391,13 @@ func DecodeValue(reader *asn1.ASNReader, ctxt uint8) (*ContentParameter, errors.
 		}
 		contentParameter.SetString(s)
 		break
+	case asn1.EMBER_RELATIVE_OID:
+		oid, err := pcReader.ReadOID(pcType)
+		if err != nil {
+			return nil, errors.Update(err)
+		}
+		contentParameter.SetRelativeOID(oid)
+		break
 	default:
 		return nil, errors.New("Unknown value type %d.", pcType)
 	}
-- 
2.43.0


From eeeaeaab8bef790a9bcfa7e1edf0342952aa0e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:39 +0000
Subject: [PATCH 18/63] fix: decoded invocations keep their arguments

---
 embertree/invocation.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/embertree/invocation.go b/embertree/invocation.go
index 442c264..b8bb141 100755
--- a/embertree/invocation.go
+++ b/embertree/invocation.go
@@ -113,6 +113,7 @@ func (i *Invocation) Decode(reader *asn1.ASNReader) errors.Error {
 				}
 				arguments = append(arguments, value)
 			}
+			i.arguments = arguments
 			break
 		default:
 			return errors.New("Invovation decode error: Unknwon tag %d", peek)
-- 
2.43.0


From 8ac56d41f223bb9efc7ff91241a8320d36c34040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:42 +0000
Subject: [PATCH 19/63] fix: GetElementByPath returns no parent for deeper
 unknown paths

---
 embertree/root.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/embertree/root.go b/embertree/root.go
index bf01046..39a38d8 100755
--- a/embertree/root.go
+++ b/embertree/root.go
@@ -48,7 +48,7 @@ func (root *RootElement) GetElementByPath(path asn1.RelativeOID) (*Element,*Elem
 		parent = element
 		element = element.Children[int(path[pos])]
 	}
-	if pos + 1 < len(path) {
+	if pos < len(path) {
 		return nil,nil
 	}
 	return parent,element
-- 
2.43.0


From 5f7dce0ffa9d6e48bfee446aab05f039f7577619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:38 +0000
Subject: [PATCH 20/63] fix: GetPath shares no storage between elements and
 follows later attachment

---
 embertree/qualified_element.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/embertree/qualified_element.go b/embertree/qualified_element.go
index 11023fe..edc6544 100755
--- a/embertree/qualified_element.go
+++ b/embertree/qualified_element.go
@@ -54,14 +54,14 @@ func IsQualifiedTag(tag uint8) bool {
 }
 
 func (element *Element) GetPath() asn1.RelativeOID {
-	if len(element.path) <= 0 {
+	if !element.isQualified {
 		var parentPath = asn1.RelativeOID{}
 		if element.parent != nil {
 			parentPath = element.parent.GetPath()
 		}
-		element.path = append(parentPath, int32(element.Number))
+		return append(parentPath, int32(element.Number))
 	}
-	return element.path
+	return append(asn1.RelativeOID{}, element.path...)
 }
 
 func (element *Element) GetQualifiedDirectoryMsg(listener Listener) *RootElement {
-- 
2.43.0


From ed1c15d3a4ff214267dc0219db112bf7bdc3a48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:41 +0000
Subject: [PATCH 21/63] fix: path-addressed directory requests use the
 qualified tag

---
 embertree/qualified_element.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/embertree/qualified_element.go b/embertree/qualified_element.go
index edc6544..0bae062 100755
--- a/embertree/qualified_element.go
+++ b/embertree/qualified_element.go
@@ -53,6 +53,21 @@ func IsQualifiedTag(tag uint8) bool {
 	return qualifiedTags[tag] == true
 }
 
+// getQualifiedTag returns the path-addressed variant of an element tag.
+func getQualifiedTag(tag uint8) uint8 {
+	switch tag {
+	case ParameterApplication:
+		return QualifiedParameterApplication
+	case NodeApplication:
+		return QualifiedNodeApplication
+	case MatrixApplication:
+		return QualifiedMatrixApplication
+	case FunctionApplication:
+		return QualifiedFunctionApplication
+	}
+	return tag
+}
+
 func (element *Element) GetPath() asn1.RelativeOID {
 	if !element.isQualified {
 		var parentPath = asn1.RelativeOID{}
@@ -66,7 +81,7 @@ func (element *Element) GetPath() asn1.RelativeOID {
 
 func (element *Element) GetQualifiedDirectoryMsg(listener Listener) *RootElement {
 	path := element.GetPath()
-	dupElement := NewQualifiedElement(element.tag, path, nil)
+	dupElement := NewQualifiedElement(getQualifiedTag(element.tag), path, nil)
 	cmd := NewCommand(COMMAND_GETDIRECTORY)
 	dupElement.AddChild(cmd)
 	root := NewRoot()
-- 
2.43.0


From d4a7f8935828f6c5c1d6c5113e412851b8ef2fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:44 +0000
Subject: [PATCH 22/63] fix: roots made by NewRoot can decode and take
 listeners; no nil listener is registered

---
 embertree/root.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/embertree/root.go b/embertree/root.go
index 39a38d8..6cba9fa 100755
--- a/embertree/root.go
+++ b/embertree/root.go
@@ -23,7 +23,11 @@ func NewTree() *RootElement {
 }
 
 func NewRoot() *RootElement {
-	return &RootElement{listeners: nil, RootElementCollection: make(map[int]*Element)}
+	return &RootElement{
+		listeners:             make(map[Listener]Listener),
+		RootElementCollection: make(map[int]*Element),
+		logger: NewNullLogger(),
+	}
 }
 
 func (root *RootElement) GetElementByNumber(number int) *Element {
@@ -178,7 +182,9 @@ func (r *RootElement) GetDirectoryMsg(listener Listener) (*RootElement, errors.E
 	root := NewRoot()
 	cmd := NewCommand(COMMAND_GETDIRECTORY)
 	root.AddElement(cmd)
-	r.AddListener(listener)
+	if listener != nil {
+		r.AddListener(listener)
+	}
 	return root, nil
 }
 
-- 
2.43.0


From 36747f873a74dabf86efc17b5168a15cc4aef5d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:47 +0000
Subject: [PATCH 23/63] fix: nested directory requests reach deep and
 path-addressed elements

---
 embertree/element.go | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/embertree/element.go b/embertree/element.go
index bab11d1..c98da39 100755
--- a/embertree/element.go
+++ b/embertree/element.go
@@ -46,6 +46,8 @@ type Element struct {
 	logger Logger
 	// for qualified element
 	isQualified bool
+	// for directory requests only: encoded with its child at any depth
+	isBranch bool
 
 	// for matrix only
 	isMatrix    bool
@@ -206,7 +208,7 @@ func (element *Element) encode(writer *asn1.ASNWriter, asChild bool) errors.Erro
 		}
 	}
 
-	if !asChild {
+	if !asChild || element.isBranch {
 		//Encode Children
 		if len(element.Children) > 0 {
 			err = writer.StartSequence(asn1.Context(2))
@@ -268,13 +270,24 @@ func (element *Element) EncodeChildren(writer *asn1.ASNWriter) errors.Error {
 	return writer.EndSequence()
 }
 
+// dupForBranch copies the address of an element. A path is a complete address.
+func (element *Element) dupForBranch() *Element {
+	dupElement := NewElement(element.tag, element.Number, nil)
+	dupElement.isBranch = true
+	if element.isQualified {
+		dupElement.isQualified = true
+		dupElement.path = element.path
+	}
+	return dupElement
+}
+
 func (element *Element) getDupBranch(cmd *Element) (*Element, errors.Error) {
 	e := element
-	dupElement := NewElement(e.tag, e.Number, nil)
+	dupElement := e.dupForBranch()
 	if cmd != nil {
 		dupElement.AddChild(cmd)
 	}
-	for {
+	for !e.isQualified {
 		parent, err := e.GetParent()
 		if err != nil {
 			return nil, err
@@ -282,7 +295,7 @@ func (element *Element) getDupBranch(cmd *Element) (*Element, errors.Error) {
 		if parent == nil {
 			break
 		}
-		dupParent := NewElement(parent.tag, parent.Number, nil)
+		dupParent := parent.dupForBranch()
 		dupParent.AddChild(dupElement)
 		e = parent
 		dupElement = dupParent
-- 
2.43.0


From 171d615cfe070047114807ad692954d4e2152809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:50 +0000
Subject: [PATCH 24/63] fix: encoding errors inside a tree are reported

---
 embertree/function.go | 2 +-
 embertree/node.go     | 2 +-
 embertree/root.go     | 5 ++++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/embertree/function.go b/embertree/function.go
index 91e2877..458dcb8 100755
--- a/embertree/function.go
+++ b/embertree/function.go
@@ -315,7 +315,7 @@ func (fc *FunctionContents) Encode(writer *asn1.ASNWriter) errors.Error {
 	}
 
 	if fc.description.IsSet() {
-		fc.description.Encode(1, writer)
+		err = fc.description.Encode(1, writer)
 		if err != nil {
 			return errors.Update(err)
 		}
diff --git a/embertree/node.go b/embertree/node.go
index 4895b45..bafc51b 100755
--- a/embertree/node.go
+++ b/embertree/node.go
@@ -89,7 +89,7 @@ func (nc *NodeContents) Encode(writer *asn1.ASNWriter) errors.Error {
 	}
 
 	if nc.description.IsSet() {
-		nc.description.Encode(1, writer)
+		err = nc.description.Encode(1, writer)
 		if err != nil {
 			return errors.Update(err)
 		}
diff --git a/embertree/root.go b/embertree/root.go
index 6cba9fa..38f46c6 100755
--- a/embertree/root.go
+++ b/embertree/root.go
@@ -160,7 +160,10 @@ func (root *RootElement) Encode(writer *asn1.ASNWriter) errors.Error {
 		writer.StartSequence(asn1.Application(11))
 		for _, element := range root.RootElementCollection {
 			writer.StartSequence(asn1.Context(0))
-			element.Encode(writer)
+			err := element.Encode(writer)
+			if err != nil {
+				return errors.Update(err)
+			}
 			writer.EndSequence()
 		}
 		writer.EndSequence()
-- 
2.43.0


From 65dd6fa675cc1813ed3e013b757134c898390756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:53 +0000
Subject: [PATCH 25/63] fix: function template references are decoded and
 encoded

---
 embertree/function.go | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/embertree/function.go b/embertree/function.go
index 458dcb8..b3e8fe6 100755
--- a/embertree/function.go
+++ b/embertree/function.go
@@ -295,6 +295,17 @@ func (fc *FunctionContents) Decode(reader *asn1.ASNReader) errors.Error {
 				return errors.Update(err)
 			}
 			break
+		case asn1.Context(4):
+			templateReference, err := ctxtReader.ReadOID(asn1.EMBER_RELATIVE_OID)
+			if err != nil {
+				return errors.Update(err)
+			}
+			fc.templateReference = templateReference
+			err = ctxtReader.ReadSequenceEnd()
+			if err != nil {
+				return errors.Update(err)
+			}
+			break
 		default:
 			return errors.New("Unknown function content tag %d", peek)
 		}
@@ -334,6 +345,20 @@ func (fc *FunctionContents) Encode(writer *asn1.ASNWriter) errors.Error {
 			return errors.Update(err)
 		}
 	}
+	if fc.templateReference != nil {
+		err = writer.StartSequence(asn1.Context(4))
+		if err != nil {
+			return errors.Update(err)
+		}
+		err = writer.WriteRelativeOID(fc.templateReference)
+		if err != nil {
+			return errors.Update(err)
+		}
+		err = writer.EndSequence()
+		if err != nil {
+			return errors.Update(err)
+		}
+	}
 	writer.EndSequence()
 	return nil
 }
-- 
2.43.0


From 3524bb72f7bbb896c8d457641f102fcad4271d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:56 +0000
Subject: [PATCH 26/63] fix: nested readers share the message bytes instead of
 copying them per level

---
 asn1/decode.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/asn1/decode.go b/asn1/decode.go
index 08a2b27..a73329a 100755
--- a/asn1/decode.go
+++ b/asn1/decode.go
@@ -2,6 +2,7 @@ package asn1
 
 import (
 	"bytes"
+	"io"
 	"math"
 
 	"github.com/dufourgilles/emberlib/errors"
@@ -13,10 +14,12 @@ type ASNReader struct {
 	len            int
 	isSubReader    bool
 	openSequences  int // containers of indefinite length entered and not yet left
+	depth          int // containers around this reader
+	buf            []byte
 }
 
 func NewASNReader(p []byte) *ASNReader {
-	return &ASNReader{data: bytes.NewReader(p), len: len(p), startingOffset: 0}
+	return &ASNReader{data: bytes.NewReader(p), len: len(p), startingOffset: 0, buf: p}
 }
 
 func (a *ASNReader) Len() int {
@@ -43,13 +46,18 @@ func (a *ASNReader) NewReader(length int) (*ASNReader, errors.Error) {
 	if missing := length - a.Len(); missing > 1 || missing == 1 && (a.isSubReader || a.openSequences > 0) {
 		return nil, errors.New("Length %d exceeds the %d bytes left at offset %d.", length, a.Len(), offset)
 	}
-	b := make([]byte, length)
-	_, err := a.data.Read(b)
+	// The new reader looks at the same bytes: containers nest, copies would add up.
+	rest := a.buf[a.Offset():]
+	if length > len(rest) {
+		rest = append(append([]byte{}, rest...), 0)
+	}
+	_, err := a.data.Seek(int64(length), io.SeekCurrent)
 	if err != nil {
 		return nil, errors.New("Failed To read byte at offset %d. %s", a.TopOffset(), err)
 	}
-	newReader := NewASNReader(b)
+	newReader := NewASNReader(rest[:length:length])
 	newReader.startingOffset = offset
+	newReader.depth = a.depth + a.openSequences + 1
 	newReader.isSubReader = true
 	return newReader, nil
 }
-- 
2.43.0


From 2f8ec4df885b853007eac59bdf0d3f28c2a1dd33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:30 +0000
Subject: [PATCH 27/63] fix: containers nested without end are refused before
 the stack overflows

---
 asn1/decode.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/asn1/decode.go b/asn1/decode.go
index a73329a..e4180f8 100755
--- a/asn1/decode.go
+++ b/asn1/decode.go
@@ -8,6 +8,9 @@ import (
 	"github.com/dufourgilles/emberlib/errors"
 )
 
+// maxNesting limits how deep containers may nest, as decoders recurse.
+const maxNesting = 4096
+
 type ASNReader struct {
 	data           *bytes.Reader
 	startingOffset int
@@ -182,6 +185,9 @@ func (a *ASNReader) ReadSequenceStart(tag uint8) (int, *ASNReader, errors.Error)
 	if err != nil {
 		return -1, nil, errors.Update(err)
 	}
+	if a.depth+a.openSequences >= maxNesting {
+		return -1, nil, errors.New("Containers nested too deep at offset %d.", offset)
+	}
 	if length >= 0 {
 		newReader, err := a.NewReader(length)
 
-- 
2.43.0


From 04c46a1b99d04fd99cdbcda563a8edd1ad05e4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:34 +0000
Subject: [PATCH 28/63] fix: printing takes time linear in what is printed

---
 embertree/content_parameter.go | 23 ++++++-----------------
 embertree/element.go           | 20 +++++++++++---------
 embertree/root.go              |  9 +++++----
 3 files changed, 22 insertions(+), 30 deletions(-)

diff --git a/embertree/content_parameter.go b/embertree/content_parameter.go
index 93fea66..7e75e91 100755
--- a/embertree/content_parameter.go
+++ b/embertree/content_parameter.go
@@ -2,6 +2,7 @@ package embertree
 
 import (
 	"fmt"
+	"strings"
 
 	"github.com/dufourgilles/emberlib/asn1"
 	"github.com/dufourgilles/emberlib/errors"
@@ -74,30 +75,18 @@ func (cp *ContentParameter)ToString() string {
 		i,_ := cp.GetInt()
 		return fmt.Sprintf("%d", i)
 	case ValueTypeOID:
-		str := ""
 		oid,_ := cp.GetRelativeOID()
-		for index,val := range(oid) {
-			if index == 0 {
-				str = fmt.Sprintf("%d",val)
-			} else {
-				str = fmt.Sprintf("%s.%d", str, val)
-			}
-		}
-		return str
+		return Path2String(oid)
 	case ValueTypeReal:
 		r,_ := cp.GetReal()
 		return fmt.Sprintf("%f", r)
 	case ValueTypeBuffer:
 		b,_ := cp.GetBuffer()
-		str := ""
-		for index,x := range(b) {
-			if index == 0 {
-				str = fmt.Sprintf("%x", x)
-			} else {
-				str = fmt.Sprintf("%s%x", str, x)
-			}
+		var str strings.Builder
+		for _,x := range(b) {
+			fmt.Fprintf(&str, "%x", x)
 		}
-		return str
+		return str.String()
 	}
 	return ""
 }
diff --git a/embertree/element.go b/embertree/element.go
index c98da39..90cf3d5 100755
--- a/embertree/element.go
+++ b/embertree/element.go
@@ -2,6 +2,8 @@ package embertree
 
 import (
 	"fmt"
+	"strconv"
+	"strings"
 
 	. "github.com/dufourgilles/emberlib/logger"
 	"github.com/dufourgilles/emberlib/asn1"
@@ -317,15 +319,14 @@ func (element *Element) GetDirectoryMsg(listener Listener) (*RootElement, errors
 }
 
 func Path2String(path asn1.RelativeOID) string {
-	str := ""
+	var str strings.Builder
 	for index,number := range(path) {
-		if index == 0 {
-			str = fmt.Sprintf("%d", number)
-		} else {
-			str = fmt.Sprintf("%s.%d", str, number)
+		if index > 0 {
+			str.WriteByte('.')
 		}
+		str.WriteString(strconv.Itoa(int(number)))
 	}
-	return str
+	return str.String()
 }
 
 func (element *Element)ToString() string {
@@ -334,11 +335,12 @@ func (element *Element)ToString() string {
 	if content != nil {
 		contentString = content.ToString()
 	}
-	children := ""
+	var children strings.Builder
 	for _,child := range(element.Children) {
-		children = fmt.Sprintf("%s%s\n", children, child.ToString())
+		children.WriteString(child.ToString())
+		children.WriteByte('\n')
 	}
 
 	return fmt.Sprintf("{\n  tag: %d,\n  number: %d,\n  path: %s,\n  content: %s,\n  children: [\n%s]\n}", 
-		element.tag, element.Number, Path2String(element.GetPath()),contentString, children)
+		element.tag, element.Number, Path2String(element.GetPath()),contentString, children.String())
 }
\ No newline at end of file
diff --git a/embertree/root.go b/embertree/root.go
index 38f46c6..f408d4d 100755
--- a/embertree/root.go
+++ b/embertree/root.go
@@ -1,7 +1,7 @@
 package embertree
 
 import (
-	"fmt"
+	"strings"
 
 	"github.com/dufourgilles/emberlib/errors"
 	. "github.com/dufourgilles/emberlib/logger"
@@ -206,9 +206,10 @@ func (r *RootElement) HasListner(listener Listener) bool {
 }
 
 func (root *RootElement) ToString() string {
-	str := ""
+	var str strings.Builder
 	for _,element := range(root.RootElementCollection) {
-		str = fmt.Sprintf("%s%s\n", str, element.ToString())
+		str.WriteString(element.ToString())
+		str.WriteByte('\n')
 	}
-	return str
+	return str.String()
 }
\ No newline at end of file
-- 
2.43.0


From 14ba4f69b1e4fb6669fa26f589a4d19f40b3a9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:18 +0000
Subject: [PATCH 29/63] fix: elements are updated whatever addressing style the
 update uses

---
 embertree/element.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/embertree/element.go b/embertree/element.go
index 90cf3d5..65c1578 100755
--- a/embertree/element.go
+++ b/embertree/element.go
@@ -121,7 +121,7 @@ func (element *Element) SetContents(contents interface{}) errors.Error {
 
 func (element *Element) Update(newElement *Element) errors.Error {
 	var err errors.Error
-	if element.Number != newElement.Number || element.tag != newElement.tag {
+	if element.Number != newElement.Number || getQualifiedTag(element.tag) != getQualifiedTag(newElement.tag) {
 		return errors.New("Attempt to update different element Number %d/%d Tag %d/%d", element.Number, newElement.Number, element.tag, newElement.tag)
 	}
 	content := newElement.GetContent()
-- 
2.43.0


From ef5c035b5d25e79df2b206e7df2d8577f053fd6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:22 +0000
Subject: [PATCH 30/63] fix: decoded matrices announce no default contents,
 type or mode

---
 embertree/elementFactory.go | 3 ++-
 embertree/matrix.go         | 6 ++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/embertree/elementFactory.go b/embertree/elementFactory.go
index 621e2c1..0e02e8d 100755
--- a/embertree/elementFactory.go
+++ b/embertree/elementFactory.go
@@ -69,7 +69,7 @@ func decodeContents(element *Element, ctxt uint8, reader *asn1.ASNReader) (inter
 	case QualifiedMatrixApplication:
 		fallthrough
 	case MatrixApplication:
-		mcontents, _ := NewMatrixContent(OneToN, Linear)
+		mcontents := &MatrixContent{}
 		err = mcontents.Decode(contentReader)
 		contents = mcontents
 		break
@@ -159,6 +159,7 @@ func DecodeElement(reader *asn1.ASNReader) (*Element, errors.Error) {
 	}
 	if tag == MatrixApplication {
 		element, _ = NewMatrix(number, OneToN, Linear)
+		element.contents = nil // unless the message has some
 	} else if tag == QualifiedMatrixApplication {
 		element = NewQualifiedMatrix(path, OneToN, Linear)
 	} else if IsQualifiedTag(tag) {
diff --git a/embertree/matrix.go b/embertree/matrix.go
index 8e6d322..ad27d83 100755
--- a/embertree/matrix.go
+++ b/embertree/matrix.go
@@ -87,6 +87,9 @@ func (contents *MatrixContent) GetDescription() (string, errors.Error) {
 }
 
 func (c *MatrixContent) GetType() (MatrixType, errors.Error) {
+	if !c.table[matrixTypeCtx].IsSet() {
+		return OneToN, nil
+	}
 	v, err := c.table[matrixTypeCtx].GetInt()
 	if err != nil {
 		return 0, errors.Update(err)
@@ -104,6 +107,9 @@ func (c *MatrixContent) SetMode(mode MatrixMode) errors.Error {
 }
 
 func (c *MatrixContent) GetMode() (MatrixMode, errors.Error) {
+	if !c.table[matrixModeCtx].IsSet() {
+		return Linear, nil
+	}
 	v, err := c.table[matrixModeCtx].GetInt()
 	if err != nil {
 		return 0, errors.Update(err)
-- 
2.43.0


From 26393f1bb6348445527616a57474963b0622f645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:25 +0000
Subject: [PATCH 31/63] fix: updates keep the properties they do not mention

---
 embertree/content_parameter.go |  7 +++++++
 embertree/element.go           |  8 ++++++++
 embertree/function.go          | 16 ++++++++++++++++
 embertree/matrix.go            | 17 ++++++++++++++++-
 embertree/node.go              | 13 +++++++++++++
 embertree/parameter.go         | 11 +++++++++++
 6 files changed, 71 insertions(+), 1 deletion(-)

diff --git a/embertree/content_parameter.go b/embertree/content_parameter.go
index 7e75e91..25ef94f 100755
--- a/embertree/content_parameter.go
+++ b/embertree/content_parameter.go
@@ -52,6 +52,13 @@ type ContentParameter struct {
 	valueType ValueType
 }
 
+// inherit takes over the old value unless there is a new one.
+func (cp *ContentParameter) inherit(old *ContentParameter) {
+	if !cp.isSet {
+		*cp = *old
+	}
+}
+
 func NewContentParameter() *ContentParameter {
 	return &ContentParameter{isSet: false}
 }
diff --git a/embertree/element.go b/embertree/element.go
index 65c1578..41cf9a3 100755
--- a/embertree/element.go
+++ b/embertree/element.go
@@ -16,6 +16,11 @@ type EmberContents interface {
 	ToString() string
 }
 
+// partialContents may lack properties, which then keep the value of the contents they replace.
+type partialContents interface {
+	inherit(old EmberContents)
+}
+
 type ContentCreator func() EmberContents
 
 type EmberObject interface {
@@ -126,6 +131,9 @@ func (element *Element) Update(newElement *Element) errors.Error {
 	}
 	content := newElement.GetContent()
 	if content != nil {
+		if partial, ok := content.(partialContents); ok && element.contents != nil {
+			partial.inherit(element.contents)
+		}
 		element.contents = content.(EmberContents)
 	}
 	for number, newChild := range newElement.Children {
diff --git a/embertree/function.go b/embertree/function.go
index b3e8fe6..bc5fc1c 100755
--- a/embertree/function.go
+++ b/embertree/function.go
@@ -54,6 +54,22 @@ func NewFunctionContents() EmberContents {
 	return &FunctionContents{}
 }
 
+func (contents *FunctionContents) inherit(old EmberContents) {
+	if o, ok := old.(*FunctionContents); ok {
+		contents.identifier.inherit(&o.identifier)
+		contents.description.inherit(&o.description)
+		if contents.arguments == nil {
+			contents.arguments = o.arguments
+		}
+		if contents.result == nil {
+			contents.result = o.result
+		}
+		if contents.templateReference == nil {
+			contents.templateReference = o.templateReference
+		}
+	}
+}
+
 func NewFunction(number int) *Element {
 	return NewElement(FunctionApplication, number, NewFunctionContents)
 }
diff --git a/embertree/matrix.go b/embertree/matrix.go
index ad27d83..74e4b1f 100755
--- a/embertree/matrix.go
+++ b/embertree/matrix.go
@@ -221,6 +221,21 @@ func NewMatrixContent(mtype MatrixType, mode MatrixMode) (*MatrixContent, errors
 	return &content, nil
 }
 
+func (c *MatrixContent) inherit(old EmberContents) {
+	if o, ok := old.(*MatrixContent); ok {
+		for i := range c.table {
+			c.table[i].inherit(&o.table[i])
+		}
+		c.schemaIdentifier.inherit(&o.schemaIdentifier)
+		if c.labels == nil {
+			c.labels = o.labels
+		}
+		if c.templateReference == nil {
+			c.templateReference = o.templateReference
+		}
+	}
+}
+
 func NewDefaultMatrixContents() EmberContents {
 	mc, _ := NewMatrixContent(OneToN, Linear)
 	return mc
@@ -268,7 +283,7 @@ func (c *MatrixContent) EncodeLabels(writer *asn1.ASNWriter) errors.Error {
 }
 
 func (c *MatrixContent) DecodeLabels(reader *asn1.ASNReader) errors.Error {
-	var labels []*Label
+	labels := []*Label{}
 	_, labelReader, err := reader.ReadSequenceStart(labelContext)
 	if err != nil {
 		return errors.Update(err)
diff --git a/embertree/node.go b/embertree/node.go
index bafc51b..4b2aeba 100755
--- a/embertree/node.go
+++ b/embertree/node.go
@@ -23,6 +23,19 @@ func NewNodeContents() EmberContents {
 	return &NodeContents{}
 }
 
+func (contents *NodeContents) inherit(old EmberContents) {
+	if o, ok := old.(*NodeContents); ok {
+		contents.identifier.inherit(&o.identifier)
+		contents.description.inherit(&o.description)
+		contents.isRoot.inherit(&o.isRoot)
+		contents.isOnline.inherit(&o.isOnline)
+		contents.schemaIdentifiers.inherit(&o.schemaIdentifiers)
+		if contents.templateReference == nil {
+			contents.templateReference = o.templateReference
+		}
+	}
+}
+
 func NewNode(number int) *Element {
 	return NewElement(NodeApplication, number, NewNodeContents)
 }
diff --git a/embertree/parameter.go b/embertree/parameter.go
index 4024385..8ded811 100755
--- a/embertree/parameter.go
+++ b/embertree/parameter.go
@@ -42,6 +42,17 @@ func NewParameterContents() EmberContents {
 	return cp
 }
 
+func (contents *ParameterContents) inherit(old EmberContents) {
+	if o, ok := old.(*ParameterContents); ok {
+		for i := range contents.table {
+			contents.table[i].inherit(&o.table[i])
+		}
+		if contents.templateReference == nil {
+			contents.templateReference = o.templateReference
+		}
+	}
+}
+
 func NewParameter(number int) *Element {
 	return NewElement(ParameterApplication, number, NewParameterContents)
 }
-- 
2.43.0


From 3fb7bfe05076d49e5780f6a2143b91d411aba2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:28 +0000
Subject: [PATCH 32/63] fix: updates of a matrix take over signals and
 connections

---
 embertree/element.go        |  1 +
 embertree/matrix_element.go | 30 +++++++++++++++++++++++++++++-
 2 files changed, 30 insertions(+), 1 deletion(-)

diff --git a/embertree/element.go b/embertree/element.go
index 41cf9a3..1c13a8f 100755
--- a/embertree/element.go
+++ b/embertree/element.go
@@ -136,6 +136,7 @@ func (element *Element) Update(newElement *Element) errors.Error {
 		}
 		element.contents = content.(EmberContents)
 	}
+	element.updateMatrix(newElement)
 	for number, newChild := range newElement.Children {
 		child := element.Children[number]
 		if child == nil {
diff --git a/embertree/matrix_element.go b/embertree/matrix_element.go
index 7c26a94..d201696 100755
--- a/embertree/matrix_element.go
+++ b/embertree/matrix_element.go
@@ -49,7 +49,7 @@ func (element *Element) EncodeSources(writer *asn1.ASNWriter) errors.Error {
 }
 
 func DeodeSignals(reader *asn1.ASNReader, ctxt uint8) ([]Signal, errors.Error) {
-	var signals []Signal
+	signals := []Signal{}
 	_, signalsReader, err := reader.ReadSequenceStart(ctxt)
 	if err != nil {
 		return nil, errors.Update(err)
@@ -180,6 +180,34 @@ func (element *Element) DecodeConnections(reader *asn1.ASNReader) errors.Error {
 	return connectionReader.ReadSequenceEnd()
 }
 
+// updateMatrix takes over the signals and connections an update mentions.
+func (element *Element) updateMatrix(newElement *Element) {
+	if !element.isMatrix || !newElement.isMatrix {
+		return
+	}
+	if newElement.targets != nil {
+		element.targets = newElement.targets
+	}
+	if newElement.sources != nil {
+		element.sources = newElement.sources
+	}
+	for _, newConnection := range newElement.connections {
+		connections := append([]*Connection{}, element.connections...)
+		found := false
+		for i, connection := range connections {
+			if connection.Target == newConnection.Target {
+				connections[i] = newConnection
+				found = true
+				break
+			}
+		}
+		if !found {
+			connections = append(connections, newConnection)
+		}
+		element.connections = connections
+	}
+}
+
 func (element *Element) SetTargets(targets []Signal) errors.Error {
 	if !element.isMatrix {
 		return errors.New("Element not a matrix. Can't SetTargets.")
-- 
2.43.0


From 5d650b4abd78d51d51f0461d7082c0d4878f7c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:11 +0000
Subject: [PATCH 33/63] fix: console logger prints the levels it was set to

---
 logger/logger.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/logger/logger.go b/logger/logger.go
index f86e1e6..096e9dc 100755
--- a/logger/logger.go
+++ b/logger/logger.go
@@ -10,7 +10,7 @@ import (
 type LogLevel uint8
 const (
 
-	ErrorLevel LogLevel = 3
+	ErrorLevel LogLevel = iota
 	WarnLevel LogLevel = iota
 	InfoLevel LogLevel = iota
 	DebugLevel LogLevel = iota
@@ -49,25 +49,25 @@ func (logger *ConsoleLogger)Error(e errors.Error) {
 }
 
 func (logger *ConsoleLogger)Warn(format string, a ...interface{}) {
-	if logger.logLevel >= ErrorLevel {
+	if logger.logLevel >= WarnLevel {
 		fmt.Printf(format, a...)
 	}
 }
 
 func (logger *ConsoleLogger)Info(format string, a ...interface{}) {
-	if logger.logLevel >= ErrorLevel {
+	if logger.logLevel >= InfoLevel {
 		fmt.Printf(format, a...)
 	}
 }
 
 func (logger *ConsoleLogger)Debug(format string, a ...interface{}) {
-	if logger.logLevel >= ErrorLevel {
+	if logger.logLevel >= DebugLevel {
 		fmt.Printf(format, a...)
 	}
 }
 
 func (logger *ConsoleLogger)Debugln(a ...interface{}) {
-	if logger.logLevel >= ErrorLevel {
+	if logger.logLevel >= DebugLevel {
 		fmt.Println(a...)
 	}
 }
-- 
2.43.0


From ce598d02a60e633c6e56073c29c3acad35cb6894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:05 +0000
Subject: [PATCH 34/63] fix: tell the parent's listeners when a known child is
 described by path

---
 embertree/root.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/embertree/root.go b/embertree/root.go
index f408d4d..dca1875 100755
--- a/embertree/root.go
+++ b/embertree/root.go
@@ -70,6 +70,9 @@ func (root *RootElement) updateQualifiedElement(element *Element) (*Element, err
 		}
 	} else {
 		err = currentElement.Update(element)
+		if err == nil {
+			return parent,nil
+		}
 	}
 	return nil,err
 }
-- 
2.43.0


From 936c23e61f14afbe8cda56cad5e1f5b27010e2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:08 +0000
Subject: [PATCH 35/63] fix: do not tell tree listeners about a message that is
 rejected at its end

---
 embertree/root.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/embertree/root.go b/embertree/root.go
index dca1875..0d10858 100755
--- a/embertree/root.go
+++ b/embertree/root.go
@@ -143,6 +143,9 @@ func (root *RootElement) Decode(reader *asn1.ASNReader) errors.Error {
 	}
 	if !empty {
 		err = reader.ReadSequenceEnd()
+		if err != nil {
+			return errors.Update(err)
+		}
 	}
 	for _, listener := range(root.listeners) {
 		root.logger.Debug("Updating root listener.\n")
@@ -154,7 +157,7 @@ func (root *RootElement) Decode(reader *asn1.ASNReader) errors.Error {
 			listener.Receive(mElement, nil)
 		}
 	}
-	return errors.Update(err)
+	return nil
 }
 
 func (root *RootElement) Encode(writer *asn1.ASNWriter) errors.Error {
-- 
2.43.0


From 88cc0993dd110faab66668aac414ae11126e74d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:52 +0000
Subject: [PATCH 36/63] fix: contents of a qualified matrix get the requested
 type and mode

---
 embertree/qualified_element.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/embertree/qualified_element.go b/embertree/qualified_element.go
index 0bae062..9e82dbf 100755
--- a/embertree/qualified_element.go
+++ b/embertree/qualified_element.go
@@ -43,7 +43,11 @@ func NewQualifiedParameter(path asn1.RelativeOID) *Element {
 }
 
 func NewQualifiedMatrix(path asn1.RelativeOID, mtype MatrixType, mode MatrixMode) *Element {
-	q := NewQualifiedElement(QualifiedMatrixApplication, path, NewDefaultMatrixContents)
+	if ValidateMatrixType(mtype) != nil || ValidateMatrixMode(mode) != nil { return nil }
+	q := NewQualifiedElement(QualifiedMatrixApplication, path, func() EmberContents {
+		mc, _ := NewMatrixContent(mtype, mode)
+		return mc
+	})
 	if q == nil { return nil }
 	q.isMatrix = true
 	return q
-- 
2.43.0


From d7931d274f0d301bb2a93905d6eb1e92c78903d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:55 +0000
Subject: [PATCH 37/63] fix: reading the bytes of a frame does not consume the
 frame

---
 socket/frame.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/socket/frame.go b/socket/frame.go
index b9309e7..0162675 100755
--- a/socket/frame.go
+++ b/socket/frame.go
@@ -199,7 +199,7 @@ func (s *S101FrameList)GetBytesAt(i int) ([]byte, errors.Error) {
 		return nil, errors.New("out of bound")
 	}
 	res := make([]byte, s.frames[i].Len())
-	s.frames[i].Read(res)
+	copy(res, s.frames[i].Bytes())
 	return res, nil
 }
 
-- 
2.43.0


From fa8a6598dbe0baab239751bef5f0c6ceac7bad9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:57 +0000
Subject: [PATCH 38/63] fix: frames start at their start byte even after a
 stray escape byte

---
 socket/frame.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/socket/frame.go b/socket/frame.go
index 0162675..c2adcb7 100755
--- a/socket/frame.go
+++ b/socket/frame.go
@@ -315,15 +315,22 @@ func (decoder *S101Decoder)SetLogger(logger Logger) {
 func (decoder *S101Decoder)DecodeBuffer( bufLen int, buf []byte) {
 	for i := 0; i < bufLen; i++ {
 		b := buf[i];
-		if (decoder.escaped) {
+		if b == S101_BOF {
+			// never escaped nor part of the content of a frame
+			decoder.inbuf.Reset();
+			decoder.escaped = false;
+		} else if (decoder.escaped && b != S101_EOF) {
 			decoder.inbuf.WriteByte(b ^ S101_XOR);
 			decoder.escaped = false;
 		} else if b == S101_CE {
 			decoder.escaped = true;
-		} else if b == S101_BOF {
-			decoder.inbuf.Reset();
-			decoder.escaped = false;
 		} else if b == S101_EOF {
+			if decoder.escaped {
+				decoder.escaped = false;
+				decoder.inbuf.Reset();
+				decoder.errorHandler(errors.New("dropping frame ending with an escape byte"))
+				continue
+			}
 			decoder.logger.Debug("End of Frame - frame size %d.\n", decoder.inbuf.Len())
 			decoder.logger.Debugln(decoder.inbuf)
 			buffer := make([]byte, decoder.inbuf.Len())
-- 
2.43.0


From 8b859beb26fd7db08ad574d01919d3da59ef86bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:00 +0000
Subject: [PATCH 39/63] fix: reading a frame buffer does not consume the frame

---
 socket/frame.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/socket/frame.go b/socket/frame.go
index c2adcb7..0f6dd0c 100755
--- a/socket/frame.go
+++ b/socket/frame.go
@@ -191,7 +191,7 @@ func (s *S101FrameList)GetAt(i int) (*bytes.Buffer, errors.Error) {
 	if (i >= s.numFrames || i < 0) {
 		return &bytes.Buffer{}, errors.New("out of bound")
 	}
-	return s.frames[i], nil
+	return bytes.NewBuffer(append([]byte{}, s.frames[i].Bytes()...)), nil
 }
 
 func (s *S101FrameList)GetBytesAt(i int) ([]byte, errors.Error) {
-- 
2.43.0


From f5ca5025e04cb69e37d9280efdfa93d68b9e2967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:03 +0000
Subject: [PATCH 40/63] fix: deliver multi-frame messages whole or not at all

---
 socket/frame.go | 36 +++++++++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/socket/frame.go b/socket/frame.go
index 0f6dd0c..209c149 100755
--- a/socket/frame.go
+++ b/socket/frame.go
@@ -3,7 +3,6 @@ package socket
 import (
 	"bytes"
 	"encoding/binary"
-	"fmt"
 
 	. "github.com/dufourgilles/emberlib/logger"
 
@@ -285,6 +284,7 @@ type S101Decoder struct {
 	inbuf bytes.Buffer
 	logger Logger
 	emberbuf bytes.Buffer
+	assembling bool // emberbuf holds all frames since the first one of the message
 	keepAliveReqHandler PacketHandler
 	keepAliveResHandler PacketHandler
 	emberPacketHandler PacketHandler
@@ -317,6 +317,9 @@ func (decoder *S101Decoder)DecodeBuffer( bufLen int, buf []byte) {
 		b := buf[i];
 		if b == S101_BOF {
 			// never escaped nor part of the content of a frame
+			if decoder.inbuf.Len() > 0 || decoder.escaped {
+				decoder.errorHandler(decoder.reject("dropping unterminated frame"))
+			}
 			decoder.inbuf.Reset();
 			decoder.escaped = false;
 		} else if (decoder.escaped && b != S101_EOF) {
@@ -328,7 +331,7 @@ func (decoder *S101Decoder)DecodeBuffer( bufLen int, buf []byte) {
 			if decoder.escaped {
 				decoder.escaped = false;
 				decoder.inbuf.Reset();
-				decoder.errorHandler(errors.New("dropping frame ending with an escape byte"))
+				decoder.errorHandler(decoder.reject("dropping frame ending with an escape byte"))
 				continue
 			}
 			decoder.logger.Debug("End of Frame - frame size %d.\n", decoder.inbuf.Len())
@@ -346,10 +349,17 @@ func (decoder *S101Decoder)DecodeBuffer( bufLen int, buf []byte) {
 	}
 }
 
+// reject drops a frame and the message it may have been a part of.
+func (decoder *S101Decoder)reject(format string, params ...interface{}) errors.Error {
+	decoder.assembling = false
+	decoder.emberbuf.Reset()
+	return errors.New(format, params...)
+}
+
 func (decoder *S101Decoder)HandleFrame(buffer []byte) errors.Error {
 	decoder.logger.Debug("Frame parsing. total length %d.\n", len(buffer))
 	if !ValidateFrame(bytes.NewReader(buffer)) {
-		return errors.New("dropping frame with invalid CRC")
+		return decoder.reject("dropping frame with invalid CRC")
 	}
 	var (
 		slot byte
@@ -361,18 +371,18 @@ func (decoder *S101Decoder)HandleFrame(buffer []byte) errors.Error {
 	frame := bytes.NewReader(buffer[:len(buffer) - 2])
 	slot,err = frame.ReadByte()
 	if err != nil {
-		return errors.NewError(err)
+		return decoder.reject("dropping short frame. %s", err)
 	}
 	message,err = frame.ReadByte()
 	if err != nil {
-		return errors.NewError(err)
+		return decoder.reject("dropping short frame. %s", err)
 	}
 	if (slot != SLOT || message != MSG_EMBER) {
-		return errors.New(fmt.Sprintf("dropping frame (not an ember frame; slot=%d, msg=%d).", slot, message))
+		return decoder.reject("dropping frame (not an ember frame; slot=%d, msg=%d).", slot, message)
 	}
 	command,err = frame.ReadByte()
 	if err != nil {
-		return errors.NewError(err)
+		return decoder.reject("dropping short frame. %s", err)
 	}
 	if command == CMD_KEEPALIVE_REQ {
 		return decoder.keepAliveReqHandler(buffer)
@@ -381,7 +391,7 @@ func (decoder *S101Decoder)HandleFrame(buffer []byte) errors.Error {
 	} else if command == CMD_EMBER {
 		return decoder.HandleEmberFrame(frame);
 	} else {		
-		return errors.New(fmt.Sprintf("Unknown command type %d.", command))
+		return decoder.reject("Unknown command type %d.", command)
 	}
 }
 
@@ -389,23 +399,26 @@ func (decoder *S101Decoder)HandleEmberFrame(frame *bytes.Reader) errors.Error {
 	decoder.logger.Debug("Ember Frame parsing. Total size %d.\n", frame.Len())
 	var emberFrame EmberFrame
 	err := emberFrame.Header.Read(frame)
-	if err != nil { return errors.NewError(err) }
+	if err != nil { return decoder.reject("dropping short frame. %s", err) }
 	
 	if emberFrame.Header.Version != VERSION {
 		// ok to accept different version
 	}
 
 	if emberFrame.Header.Dtd != DTD_GLOW {
-		return errors.New(fmt.Sprintf("Dropping frame with non-Glow DTD %d.", emberFrame.Header.Dtd))
+		return decoder.reject("Dropping frame with non-Glow DTD %d.", emberFrame.Header.Dtd)
 	}
 
 	if emberFrame.Header.AppByteLen != 2 {
-		return errors.New("Frame with unknown DTD length.")
+		return decoder.reject("Frame with unknown DTD length.")
 	}
 
 	if emberFrame.Header.Flags & FLAG_FIRST_MULTI_PACKET != 0 {
 		decoder.logger.Debug("Ember Frame first multi packet.\n")
 		decoder.emberbuf.Reset()
+		decoder.assembling = true
+	} else if !decoder.assembling {
+		return decoder.reject("dropping frame of a message without its first frame")
 	}
 
 	if emberFrame.Header.Flags & FLAG_EMPTY_PACKET == 0 {
@@ -417,6 +430,7 @@ func (decoder *S101Decoder)HandleEmberFrame(frame *bytes.Reader) errors.Error {
 		emberPacket := make([]byte, decoder.emberbuf.Len())
 		decoder.emberbuf.Read(emberPacket)
 		decoder.emberbuf.Reset()
+		decoder.assembling = false
 		decoder.emberPacketHandler(emberPacket)
 	}
 	decoder.logger.Debug("Ember Frame parsing complete.\n")
-- 
2.43.0


From 8ac34e897de829dc66fb0235ba8043d87c98071a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:36 +0000
Subject: [PATCH 41/63] fix: listeners may be added and removed from any thread

---
 embertree/element.go | 29 ++++++++++++++++++++++++++---
 embertree/root.go    | 20 ++++++++++++--------
 2 files changed, 38 insertions(+), 11 deletions(-)

diff --git a/embertree/element.go b/embertree/element.go
index 1c13a8f..707f473 100755
--- a/embertree/element.go
+++ b/embertree/element.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"strconv"
 	"strings"
+	"sync"
 
 	. "github.com/dufourgilles/emberlib/logger"
 	"github.com/dufourgilles/emberlib/asn1"
@@ -41,6 +42,25 @@ type ListeningNode interface {
 	RemoveListener(listener Listener)
 }
 
+// notifyListeners calls the listeners registered at this point, except those removed meanwhile.
+// The lock is not held during a call as listeners may add and remove listeners.
+func notifyListeners(lock *sync.Mutex, listeners map[Listener]Listener, node interface{}, err errors.Error) {
+	lock.Lock()
+	registered := make([]Listener, 0, len(listeners))
+	for _, listener := range listeners {
+		registered = append(registered, listener)
+	}
+	lock.Unlock()
+	for _, listener := range registered {
+		lock.Lock()
+		_, present := listeners[listener]
+		lock.Unlock()
+		if present {
+			listener.Receive(node, err)
+		}
+	}
+}
+
 type Element struct {
 	Number          int
 	tag             uint8
@@ -50,6 +70,7 @@ type Element struct {
 	contents        EmberContents
 	contentsCreator ContentCreator
 	listeners       map[Listener]Listener
+	listenersLock   sync.Mutex
 	logger Logger
 	// for qualified element
 	isQualified bool
@@ -92,10 +113,14 @@ func (element *Element) CreateContent() interface{} {
 }
 
 func (element *Element) AddListener(listener Listener) {
+	element.listenersLock.Lock()
+	defer element.listenersLock.Unlock()
 	element.listeners[listener] = listener
 }
 
 func (element *Element) RemoveListener(listener Listener) {
+	element.listenersLock.Lock()
+	defer element.listenersLock.Unlock()
 	delete(element.listeners, listener)
 }
 
@@ -114,9 +139,7 @@ func (element *Element) AddChild(child *Element) errors.Error {
 }
 
 func (element *Element) updateListeners(err errors.Error) {
-	for _, listener := range element.listeners {
-		listener.Receive(element, err)
-	}
+	notifyListeners(&element.listenersLock, element.listeners, element, err)
 }
 func (element *Element) SetContents(contents interface{}) errors.Error {
 	element.contents = contents.(EmberContents)
diff --git a/embertree/root.go b/embertree/root.go
index 0d10858..9f53d38 100755
--- a/embertree/root.go
+++ b/embertree/root.go
@@ -2,6 +2,7 @@ package embertree
 
 import (
 	"strings"
+	"sync"
 
 	"github.com/dufourgilles/emberlib/errors"
 	. "github.com/dufourgilles/emberlib/logger"
@@ -12,6 +13,7 @@ type RootElement struct {
 	RootElementCollection map[int]*Element
 	logger Logger
 	listeners             map[Listener]Listener
+	listenersLock         sync.Mutex
 }
 
 func NewTree() *RootElement {
@@ -147,15 +149,11 @@ func (root *RootElement) Decode(reader *asn1.ASNReader) errors.Error {
 			return errors.Update(err)
 		}
 	}
-	for _, listener := range(root.listeners) {
-		root.logger.Debug("Updating root listener.\n")
-		listener.Receive(root, nil)
-	}
+	root.logger.Debug("Updating root listeners.\n")
+	notifyListeners(&root.listenersLock, root.listeners, root, nil)
 	for path,mElement := range(modifiedElement) {
-		for _,listener := range(mElement.listeners) {
-			root.logger.Debug("Updating Element %s listener.\n", path)
-			listener.Receive(mElement, nil)
-		}
+		root.logger.Debug("Updating Element %s listeners.\n", path)
+		mElement.updateListeners(nil)
 	}
 	return nil
 }
@@ -199,15 +197,21 @@ func (r *RootElement) GetDirectoryMsg(listener Listener) (*RootElement, errors.E
 
 func (r *RootElement) AddListener(listener Listener) {
 	r.logger.Debug("Adding Root Listener.\n")
+	r.listenersLock.Lock()
+	defer r.listenersLock.Unlock()
 	r.listeners[listener] = listener
 }
 
 func (r *RootElement) RemoveListener(listener Listener) {
 	r.logger.Debug("Removing Root Listener.\n")
+	r.listenersLock.Lock()
+	defer r.listenersLock.Unlock()
 	delete(r.listeners, listener)
 }
 
 func (r *RootElement) HasListner(listener Listener) bool {
+	r.listenersLock.Lock()
+	defer r.listenersLock.Unlock()
 	return r.listeners[listener] != nil
 }
 
-- 
2.43.0


From 3c1a4b12e91d4c923e0b1e34d90de94336a177b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:04 +0000
Subject: [PATCH 42/63] fix: the request queue may be used from any thread and
 holds no more than its limit

---
 socket/client.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/socket/client.go b/socket/client.go
index 6529d4d..dfe39ce 100755
--- a/socket/client.go
+++ b/socket/client.go
@@ -4,6 +4,7 @@ import (
 	"container/list"
 	"fmt"
 	"net"
+	"sync"
 	"time"
 	. "github.com/dufourgilles/emberlib/logger"
 	"github.com/dufourgilles/emberlib/asn1"
@@ -16,6 +17,7 @@ const maxBufferSize = 65536
 
 type packetQueue struct {
 	queue *list.List
+	lock sync.Mutex
 }
 
 type channelMessage interface {
@@ -31,15 +33,19 @@ func newPacketQueue() *packetQueue {
 }
 
 func (p *packetQueue) size() int {
+	p.lock.Lock()
+	defer p.lock.Unlock()
 	return p.queue.Len()
 }
 
 func (p *packetQueue) isEmpty() bool {
-	return p.queue.Len() == 0
+	return p.size() == 0
 }
 
 func (p *packetQueue) add(msg *embertree.RootElement) errors.Error{
-	if p.size() > maxQueueSize {
+	p.lock.Lock()
+	defer p.lock.Unlock()
+	if p.queue.Len() >= maxQueueSize {
 		return errors.New("Queue size limit. Drop message.")
 	}
 	p.queue.PushBack(msg)
@@ -47,6 +53,8 @@ func (p *packetQueue) add(msg *embertree.RootElement) errors.Error{
 }
 
 func (p *packetQueue) getNext() (*embertree.RootElement, errors.Error) {
+	p.lock.Lock()
+	defer p.lock.Unlock()
 	if p.queue.Len() > 0 {
 		qElement :=  p.queue.Front()
 		p.queue.Remove(qElement)
@@ -321,7 +329,7 @@ func (s *S101Client)iomanager() {
 	buffer := make([]byte, maxBufferSize)
 	for s.IsConnected() {
 		// Send messages present in our Q - but no more than max
-		messagesToSend := s.outQ.queue.Len()
+		messagesToSend := s.outQ.size()
 		if messagesToSend > 3 {
 			messagesToSend = 3;
 		}
-- 
2.43.0


From 2afc683e0cc6fd3f929fc78d99df3984869f1a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:07 +0000
Subject: [PATCH 43/63] fix: answer keep-alive requests

---
 socket/client.go | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/socket/client.go b/socket/client.go
index dfe39ce..48ddd04 100755
--- a/socket/client.go
+++ b/socket/client.go
@@ -89,10 +89,9 @@ type S101Client struct {
 }
 
 func (s *S101Client)keepAliveReqHandler(kal []byte) errors.Error {
-	// This should go at the head of the queue
+	// Sent ahead of the queue
 	s.logger.Debug("KAL Request Received.\n")
-	s.outQ.queue.PushFront(GetKeepAliveResponse())
-	return nil
+	return s.send(GetKeepAliveResponse().Bytes())
 }
 
 func (s *S101Client)keepAliveResponseHandler(kal []byte) errors.Error {
@@ -177,18 +176,26 @@ func (s *S101Client)sendBER(data []byte) errors.Error {
 			s.stats.TxErrors++
 			return errors.Update(err)
 		}
-		var res int
-		res, e := s.conn.Write(message)
-		if e != nil {
-			s.stats.TxErrors++
-			return errors.NewError(e)
+		err = s.send(message)
+		if err != nil {
+			return errors.Update(err)
 		}
-		s.stats.TxPackets++
-		s.stats.TxBytes += uint64(res)
 	}
 	return nil
 }
 
+func (s *S101Client)send(message []byte) errors.Error {
+	var res int
+	res, e := s.conn.Write(message)
+	if e != nil {
+		s.stats.TxErrors++
+		return errors.NewError(e)
+	}
+	s.stats.TxPackets++
+	s.stats.TxBytes += uint64(res)
+	return nil
+}
+
 func (s *S101Client)sendBERNode(node *embertree.RootElement) errors.Error {
 	if node == nil {
 		return errors.New("null node")
-- 
2.43.0


From 9b7be58ec3ce97b275aa399c7503f3ac104c4d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:01 +0000
Subject: [PATCH 44/63] fix: connection state survives disconnects, reconnects
 and lost peers

---
 socket/client.go | 75 ++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 60 insertions(+), 15 deletions(-)

diff --git a/socket/client.go b/socket/client.go
index 48ddd04..cc9529f 100755
--- a/socket/client.go
+++ b/socket/client.go
@@ -73,8 +73,12 @@ type _TimerCallbacks struct {
 }
 
 type S101Client struct {
+	lock sync.Mutex // guards conn, connecting, ioDone and raddr
 	stats S101SocketStats
 	conn  net.Conn
+	connecting bool
+	ioConn net.Conn // connection served by the running iomanager
+	ioDone chan struct{} // closed when the last iomanager stopped
 	raddr string
 	outQ  *packetQueue
 	decoder *S101Decoder
@@ -139,21 +143,33 @@ func (s *S101Client)SetLogger(logger Logger) {
 }
 
 func (s *S101Client)Connect(address string, port uint16) errors.Error {
-	var err error
-	if s.IsConnected() {
+	raddr := fmt.Sprintf("%s:%d", address, port)
+	s.lock.Lock()
+	if s.conn != nil || s.connecting {
+		s.lock.Unlock()
 		return errors.New("Client already connected to %s:%d", address, port)
 	}
-	s.raddr = fmt.Sprintf("%s:%d", address, port)
-	s.conn, err = net.Dial("tcp", s.raddr)
+	s.connecting = true
+	s.raddr = raddr
+	s.lock.Unlock()
+	conn, err := net.Dial("tcp", raddr)
+	s.lock.Lock()
+	defer s.lock.Unlock()
+	s.connecting = false
 	if err != nil {
 		return errors.NewError(err)
 	}
-	go s.iomanager()
+	s.conn = conn
+	previous := s.ioDone
+	s.ioDone = make(chan struct{})
+	go s.iomanager(conn, previous, s.ioDone)
 	return nil
 }
 
 func (s *S101Client)Disconnect() errors.Error {
-	if !s.IsConnected() {
+	s.lock.Lock()
+	defer s.lock.Unlock()
+	if s.conn == nil {
 		return errors.New("Client not connected.")
 	}
 	err := s.conn.Close()
@@ -162,11 +178,28 @@ func (s *S101Client)Disconnect() errors.Error {
 }
 
 func (s *S101Client)IsConnected() bool {
+	s.lock.Lock()
+	defer s.lock.Unlock()
 	return s.conn != nil
 }
 
+func (s *S101Client)isServing(conn net.Conn) bool {
+	s.lock.Lock()
+	defer s.lock.Unlock()
+	return s.conn == conn
+}
+
+func (s *S101Client)connectionLost(conn net.Conn) {
+	s.lock.Lock()
+	defer s.lock.Unlock()
+	if s.conn == conn {
+		conn.Close()
+		s.conn = nil
+	}
+}
+
 func (s *S101Client)sendBER(data []byte) errors.Error {
-	if !s.IsConnected() {
+	if !s.isServing(s.ioConn) {
 		return errors.New("Not connected")
 	}
 	frames := EncodeMessage(data)
@@ -186,8 +219,9 @@ func (s *S101Client)sendBER(data []byte) errors.Error {
 
 func (s *S101Client)send(message []byte) errors.Error {
 	var res int
-	res, e := s.conn.Write(message)
+	res, e := s.ioConn.Write(message)
 	if e != nil {
+		s.connectionLost(s.ioConn)
 		s.stats.TxErrors++
 		return errors.NewError(e)
 	}
@@ -331,10 +365,16 @@ func (s *S101Client)processBuffer(l int, buffer []byte) {
 	s.decoder.DecodeBuffer(l, buffer)
 }
 
-func (s *S101Client)iomanager() {
+func (s *S101Client)iomanager(conn net.Conn, previous chan struct{}, done chan struct{}) {
+	defer close(done)
+	if previous != nil {
+		<-previous
+	}
 	s.logger.Debug("iomanager started.\n")
+	s.ioConn = conn
+	s.decoder = NewS101Decoder(s.keepAliveReqHandler, s.keepAliveResponseHandler, s.emberPacketHandler, s.errorHandler)
 	buffer := make([]byte, maxBufferSize)
-	for s.IsConnected() {
+	for s.isServing(conn) {
 		// Send messages present in our Q - but no more than max
 		messagesToSend := s.outQ.size()
 		if messagesToSend > 3 {
@@ -356,18 +396,23 @@ func (s *S101Client)iomanager() {
 			}
 		}
 
-		// collect inbound messages during next 100ms
-		deadline := time.Now().Add(100)
-		s.conn.SetReadDeadline(deadline)
+		// collect inbound messages during next 10ms
+		deadline := time.Now().Add(10 * time.Millisecond)
+		conn.SetReadDeadline(deadline)
 		for {
-			len,_ := s.conn.Read(buffer)
+			len,err := conn.Read(buffer)
 			if len > 0 {
 				s.logger.Debug("iomanager received a message of %d bytes.\n", len)
 				s.stats.RxBytes += uint64(len)
 				s.stats.RxPackets++
 				//process the buffer
 				s.processBuffer(len, buffer)
-			} else {
+			}
+			if err != nil {
+				if e, ok := err.(net.Error); !ok || !e.Timeout() {
+					s.logger.Error(errors.NewError(err))
+					s.connectionLost(conn)
+				}
 				break
 			}
 		}
-- 
2.43.0


From 579a6b052cc511ea48606c35d11b5539da2c16cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:29 +0000
Subject: [PATCH 45/63] fix: keep requests queued once the connection is gone

---
 socket/client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/socket/client.go b/socket/client.go
index cc9529f..ed919b5 100755
--- a/socket/client.go
+++ b/socket/client.go
@@ -384,7 +384,7 @@ func (s *S101Client)iomanager(conn net.Conn, previous chan struct{}, done chan s
 			s.logger.Debug("iomanager to send %d messages.\n", messagesToSend)
 		}
 		count := 0
-		for ; count < messagesToSend; count++ {
+		for ; count < messagesToSend && s.isServing(conn); count++ {
 			root,_ := s.outQ.getNext()
 			if root != nil {
 				err := s.sendBERNode(root)
-- 
2.43.0


From 65c44e919458a16a94400a9fdcceaea7de001590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:33 +0000
Subject: [PATCH 46/63] fix: a request gets its answer or one timeout and
 leaves no timer behind

---
 socket/client.go | 83 ++++++++++++++++++++++++++++++++----------------
 1 file changed, 56 insertions(+), 27 deletions(-)

diff --git a/socket/client.go b/socket/client.go
index ed919b5..6c87ec6 100755
--- a/socket/client.go
+++ b/socket/client.go
@@ -66,14 +66,19 @@ func (p *packetQueue) getNext() (*embertree.RootElement, errors.Error) {
 	return nil, nil
 }
 
+// _TimerCallbacks times out one request unless its node is updated before.
 type _TimerCallbacks struct {
+	lock sync.Mutex // guards timer and done
 	timer *time.Timer
+	done bool
 	listener embertree.Listener
 	client *S101Client
+	treeNode embertree.ListeningNode
+	timeoutError errors.Error
 }
 
 type S101Client struct {
-	lock sync.Mutex // guards conn, connecting, ioDone and raddr
+	lock sync.Mutex // guards conn, connecting, ioDone, raddr and msTimeout
 	stats S101SocketStats
 	conn  net.Conn
 	connecting bool
@@ -84,12 +89,10 @@ type S101Client struct {
 	decoder *S101Decoder
 	msTimeout int
 	logger Logger
-	timerCallbacks map[embertree.ListeningNode]*_TimerCallbacks
 	getTreeCallback embertree.Listener
 	tree *embertree.RootElement
 	incomingDataChan chan channelMessage
 	outgoingDataChan chan channelMessage
-	freeTimerCallback embertree.Listener
 }
 
 func (s *S101Client)keepAliveReqHandler(kal []byte) errors.Error {
@@ -122,7 +125,6 @@ func NewS101Client() *S101Client {
 	client.decoder = NewS101Decoder(client.keepAliveReqHandler,client.keepAliveResponseHandler,client.emberPacketHandler, client.errorHandler )
 	client.stats.Reset()
 	client.logger = NewNullLogger()
-	client.timerCallbacks = make(map[embertree.ListeningNode]*_TimerCallbacks)
 	client.outQ = newPacketQueue()
 	client.tree = embertree.NewTree()
 	client.incomingDataChan = make(chan channelMessage, 100)
@@ -132,10 +134,18 @@ func NewS101Client() *S101Client {
 
 func (s *S101Client)SetTimeout(msTimeout int) {
 	if msTimeout >= 0 {
+		s.lock.Lock()
+		defer s.lock.Unlock()
 		s.msTimeout = msTimeout
 	}
 }
 
+func (s *S101Client)getTimeout() int {
+	s.lock.Lock()
+	defer s.lock.Unlock()
+	return s.msTimeout
+}
+
 func (s *S101Client)SetLogger(logger Logger) {
 	if logger != nil {
 		s.logger = logger
@@ -245,20 +255,36 @@ func (s *S101Client)sendBERNode(node *embertree.RootElement) errors.Error {
 }
 
 
-func (t *_TimerCallbacks)Receive(node interface{}, err errors.Error) {
-	treeNode := node.(embertree.ListeningNode)
-	timerCB := t.client.timerCallbacks[treeNode]
-	if timerCB == nil {
-		return
+// stop ends the timer and reports if it was still running.
+func (t *_TimerCallbacks)stop() bool {
+	t.lock.Lock()
+	running := !t.done
+	t.done = true
+	if t.timer != nil {
+		t.timer.Stop()
 	}
-	t.client.logger.Debug("Timer Stopped.\n")
-	timerCB.timer.Stop()
-	delete(t.client.timerCallbacks, treeNode)
+	t.lock.Unlock()
 	// Remove myself from node
-	treeNode.RemoveListener(t)
+	t.treeNode.RemoveListener(t)
+	return running
 }
 
-func (s *S101Client)runTimer(node *embertree.Element, callback embertree.Listener, timeoutError errors.Error) {
+func (t *_TimerCallbacks)Receive(node interface{}, err errors.Error) {
+	if t.stop() {
+		t.client.logger.Debug("Timer Stopped.\n")
+	}
+}
+
+func (t *_TimerCallbacks)expire() {
+	if t.stop() {
+		t.client.logger.Debug("Timer Kicked.\n")
+		if t.listener != nil {
+			t.listener.Receive(nil, t.timeoutError)
+		}
+	}
+}
+
+func (s *S101Client)runTimer(node *embertree.Element, callback embertree.Listener, timeoutError errors.Error, msTimeout int) *_TimerCallbacks {
 	var treeNode embertree.ListeningNode
 	if node == nil {
 		treeNode = s.tree
@@ -266,15 +292,14 @@ func (s *S101Client)runTimer(node *embertree.Element, callback embertree.Listene
 		treeNode = node
 	}
 	s.logger.Debug("Timer running.\n")
-	freeTimerCallback := &_TimerCallbacks{client: s, timer: time.NewTimer(time.Duration(int64(s.msTimeout)) * time.Millisecond)}
-	treeNode.AddListener(freeTimerCallback)
-	s.timerCallbacks[treeNode] = freeTimerCallback
-	<-s.timerCallbacks[treeNode].timer.C
-	s.logger.Debug("Timer Kicked.\n")
-	callback.Receive(nil, timeoutError)
-	s.logger.Debug("Cleaning Timer callback.\n")
-	delete(s.timerCallbacks, treeNode)
-	treeNode.RemoveListener(s.freeTimerCallback)
+	t := &_TimerCallbacks{client: s, listener: callback, treeNode: treeNode, timeoutError: timeoutError}
+	treeNode.AddListener(t)
+	t.lock.Lock()
+	defer t.lock.Unlock()
+	if !t.done {
+		t.timer = time.AfterFunc(time.Duration(int64(msTimeout)) * time.Millisecond, t.expire)
+	}
+	return t
 }
 
 func (s *S101Client)GetDirectory(node *embertree.Element, callback embertree.Listener) errors.Error {
@@ -292,11 +317,15 @@ func (s *S101Client)GetDirectory(node *embertree.Element, callback embertree.Lis
 		s.logger.Debug("GetDirectory.\n",err)
 		return errors.Update(err)
 	}
-	if s.msTimeout > 0 {
-		go s.runTimer(node, callback, timeoutError)
+	var timer *_TimerCallbacks
+	if msTimeout := s.getTimeout(); msTimeout > 0 {
+		timer = s.runTimer(node, callback, timeoutError, msTimeout)
 	}
-	
-	return s.outQ.add(msg)
+	err = s.outQ.add(msg)
+	if err != nil && timer != nil {
+		timer.stop()
+	}
+	return err
 }
 
 type _ElementListeners struct {
-- 
2.43.0


From 3848d946ae1099d272689dfbdcc112f8a3016555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:33 +0000
Subject: [PATCH 47/63] fix: fetching the tree ends exactly once and never
 overruns the queue

---
 socket/client.go | 100 +++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 83 insertions(+), 17 deletions(-)

diff --git a/socket/client.go b/socket/client.go
index 6c87ec6..bd23a31 100755
--- a/socket/client.go
+++ b/socket/client.go
@@ -331,62 +331,128 @@ func (s *S101Client)GetDirectory(node *embertree.Element, callback embertree.Lis
 type _ElementListeners struct {
 	client *S101Client
 	rootListener *_RoottListeners
+	element *embertree.Element
+	lock sync.Mutex // guards done
+	done bool
+}
+
+// abandon reports if the answer was still to be received.
+func (l *_ElementListeners)abandon() bool {
+	l.lock.Lock()
+	done := l.done
+	l.done = true
+	l.lock.Unlock()
+	l.element.RemoveListener(l)
+	return !done
 }
 
 // getElementCallback
 func (l *_ElementListeners)Receive(node interface{}, err errors.Error) {
 	l.client.logger.Debug("Element Callback.\n")	
+	if !l.abandon() {
+		return
+	}
 	if err == nil && node != nil {
 		element := node.(*embertree.Element)
-		element.RemoveListener(l)
 		for _,child := range(element.Children) {
-			l.rootListener.IncPendingGetDir()
-			elementCallback := &_ElementListeners{client: l.client, rootListener: l.rootListener}
-			go l.client.GetDirectory(child, elementCallback)
+			l.rootListener.IncPendingGetDir(child)
 		}
 	}
 	l.rootListener.DecPendingGetDir(node,err)
+	l.rootListener.sendPendingGetDir()
 }
 
+// Number of requests of a GetTree in progress at the same time.
+const maxPendingGetDir = 16
+
 type _RoottListeners struct {
 	client *S101Client
+	lock sync.Mutex // guards the fields below
 	pendingGetDirectory uint
+	waiting []*embertree.Element // elements not requested yet - part of pendingGetDirectory
+	done bool
+	err errors.Error
 	listener embertree.Listener
 }
 
-func (r *_RoottListeners)IncPendingGetDir() {
+func (r *_RoottListeners)IncPendingGetDir(element *embertree.Element) {
+	r.lock.Lock()
+	defer r.lock.Unlock()
 	r.pendingGetDirectory++
+	r.waiting = append(r.waiting, element)
 }
 
 func (r *_RoottListeners)DecPendingGetDir(node interface{}, err errors.Error) {
+	r.lock.Lock()
 	r.pendingGetDirectory--
-	if r.pendingGetDirectory == 0 {
+	if r.err == nil {
+		r.err = err
+	}
+	err = r.err
+	complete := r.pendingGetDirectory == 0
+	r.lock.Unlock()
+	if complete {
 		r.listener.Receive(r.client.tree, err)
 	}
 }
 
+func (r *_RoottListeners)nextPendingGetDir() *embertree.Element {
+	r.lock.Lock()
+	defer r.lock.Unlock()
+	if len(r.waiting) == 0 || r.pendingGetDirectory - uint(len(r.waiting)) >= maxPendingGetDir {
+		return nil
+	}
+	element := r.waiting[0]
+	r.waiting = r.waiting[1:]
+	return element
+}
+
+func (r *_RoottListeners)sendPendingGetDir() {
+	for element := r.nextPendingGetDir(); element != nil; element = r.nextPendingGetDir() {
+		elementCallback := &_ElementListeners{client: r.client, rootListener: r, element: element}
+		r.client.logger.Debug("GetDir for %s.\n", embertree.Path2String(element.GetPath()))
+		err := r.client.GetDirectory(element, elementCallback)
+		if err != nil && elementCallback.abandon() {
+			r.DecPendingGetDir(nil, errors.Update(err))
+		}
+	}
+}
+
+// abandon reports if the root was still to be received.
+func (r *_RoottListeners)abandon() bool {
+	r.lock.Lock()
+	done := r.done
+	r.done = true
+	r.lock.Unlock()
+	r.client.tree.RemoveListener(r)
+	return !done
+}
+
 func (r *_RoottListeners)Receive(node interface{}, err errors.Error) {	
+	if !r.abandon() {
+		return
+	}
+	r.lock.Lock()
+	r.pendingGetDirectory++
+	r.lock.Unlock()
 	if err == nil && node != nil {
 		root := node.(*embertree.RootElement)
 		r.client.logger.Debug("Root CallBack.\n")
-		r.client.logger.Debug(root.ToString())
-		root.RemoveListener(r)
 		for _,element := range(root.RootElementCollection) {
-			r.IncPendingGetDir()
-			elementCallback := &_ElementListeners{client: r.client, rootListener: r}
-			r.client.logger.Debug("Root Callback GetDir for %s.\n", embertree.Path2String(element.GetPath()))
-			go r.client.GetDirectory(element, elementCallback)
+			r.IncPendingGetDir(element)
 		}
 	}
-	if r.pendingGetDirectory == 0 {
-		r.listener.Receive(r.client.tree, err)
-		return
-	}
+	r.DecPendingGetDir(node, err)
+	r.sendPendingGetDir()
 }
 
 func (s *S101Client)GetTree(listener embertree.Listener) errors.Error {
 	rootCallback := &_RoottListeners{client: s, listener: listener, pendingGetDirectory: 0}
-	return s.GetDirectory(nil, rootCallback)
+	err := s.GetDirectory(nil, rootCallback)
+	if err != nil {
+		rootCallback.abandon()
+	}
+	return err
 }
 
 func (s *S101Client)processBuffer(l int, buffer []byte) {
-- 
2.43.0


From 2d83e58fd808872e7e1eb94dfbfa5d821a936e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:23 +0000
Subject: [PATCH 48/63] fix: octets values are octet strings

---
 asn1/decode.go                 | 13 +++++++++++++
 embertree/content_parameter.go | 10 ++++++++--
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/asn1/decode.go b/asn1/decode.go
index e4180f8..aa55168 100755
--- a/asn1/decode.go
+++ b/asn1/decode.go
@@ -419,6 +419,19 @@ func (a *ASNReader) ReadBitString() ([]byte, errors.Error) {
 	return a.readStringBuffer()
 }
 
+func (a *ASNReader) ReadOctetString() ([]byte, errors.Error) {
+	offset := a.TopOffset()
+	tag, err := a.data.ReadByte()
+	if err != nil {
+		return nil, errors.New("Failed To read tag at offset %d. %s", offset, err)
+	}
+	if tag != EMBER_OCTETSTRING {
+		return nil, errors.New("Incorrect octet string tag at offset %d.", offset)
+	}
+
+	return a.readStringBuffer()
+}
+
 func (a *ASNReader) ReadReal() (float64, errors.Error) {
 	offset := a.TopOffset()
 	tag, err := a.data.ReadByte()
diff --git a/embertree/content_parameter.go b/embertree/content_parameter.go
index 25ef94f..c38277e 100755
--- a/embertree/content_parameter.go
+++ b/embertree/content_parameter.go
@@ -281,7 +281,7 @@ func (cp *ContentParameter) Encode(context uint8, writer *asn1.ASNWriter) errors
 		if err != nil {
 			return errors.Update(err)
 		}
-		err = writer.WriteBuffer(b, asn1.EMBER_BITSTRING)
+		err = writer.WriteBuffer(b, asn1.EMBER_OCTETSTRING)
 		if err != nil {
 			return errors.Update(err)
 		}
@@ -379,8 +379,14 @@ func DecodeValue(reader *asn1.ASNReader, ctxt uint8) (*ContentParameter, errors.
 		}
 		contentParameter.SetBuffer(s)
 		break
+	case asn1.EMBER_OCTETSTRING:
+		s, err := pcReader.ReadOctetString()
+		if err != nil {
+			return nil, errors.Update(err)
+		}
+		contentParameter.SetBuffer(s)
+		break
 	case asn1.EMBER_STRING:
-		//case asn1.EMBER_OCTETSTRING:
 		s, err := pcReader.ReadString()
 		if err != nil {
 			return nil, errors.Update(err)
-- 
2.43.0


From 7a2348d41fec22c9cea864b6f4fdd5504c7e8ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:25 +0000
Subject: [PATCH 49/63] fix: matrix properties use their own context numbers

---
 embertree/matrix.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/embertree/matrix.go b/embertree/matrix.go
index 74e4b1f..27ecaae 100755
--- a/embertree/matrix.go
+++ b/embertree/matrix.go
@@ -8,15 +8,15 @@ import (
 )
 
 const (
-	matrixTypeCtx               = 2
-	matrixModeCtx               = iota
-	targetCountCtx              = iota
-	sourceCounCtx               = iota
-	maximumTotalConnectsCtx     = iota
-	maximumConnectsPerTargetCtx = iota
-	parametersLocationCtx       = iota
-	gainParameterNumberCtx      = iota
-	matrixContentSize           = iota
+	matrixTypeCtx               = iota + 2
+	matrixModeCtx               = iota + 2
+	targetCountCtx              = iota + 2
+	sourceCounCtx               = iota + 2
+	maximumTotalConnectsCtx     = iota + 2
+	maximumConnectsPerTargetCtx = iota + 2
+	parametersLocationCtx       = iota + 2
+	gainParameterNumberCtx      = iota + 2
+	matrixContentSize           = iota + 2
 )
 
 type MatrixType int8
-- 
2.43.0


From 00f16ed064501eb52493cd8ade59761cf7276009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:26 +0000
Subject: [PATCH 50/63] fix: field flags have the values of the protocol

---
 embertree/command.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/embertree/command.go b/embertree/command.go
index e6631a2..f783ba0 100755
--- a/embertree/command.go
+++ b/embertree/command.go
@@ -17,13 +17,13 @@ type FieldFlags int
 
 const (
 	SparseFieldFlags      FieldFlags = -2
-	ALLFieldFlags         FieldFlags  = iota
-	DefaultFieldFlags     FieldFlags  = iota
-	IdentifierFieldFlags  FieldFlags  = iota
-	DescriptionFieldFlags FieldFlags  = iota
-	TreeFieldFlags        FieldFlags  = iota
-	ValueFieldFlags       FieldFlags  = iota
-	ConnectionsFieldFlags FieldFlags  = iota
+	ALLFieldFlags         FieldFlags  = iota - 2
+	DefaultFieldFlags     FieldFlags  = iota - 2
+	IdentifierFieldFlags  FieldFlags  = iota - 2
+	DescriptionFieldFlags FieldFlags  = iota - 2
+	TreeFieldFlags        FieldFlags  = iota - 2
+	ValueFieldFlags       FieldFlags  = iota - 2
+	ConnectionsFieldFlags FieldFlags  = iota - 2
 )
 
 type CommandContents struct {
-- 
2.43.0


From 4f4bcd585987b7a21b9c57e9d05d3ad65d677c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:07 +0000
Subject: [PATCH 51/63] fix: children received by path are encoded by number
 within their parent

---
 embertree/element.go           |  9 +++++++--
 embertree/qualified_element.go | 15 +++++++++++++++
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/embertree/element.go b/embertree/element.go
index 707f473..1dcf338 100755
--- a/embertree/element.go
+++ b/embertree/element.go
@@ -192,12 +192,17 @@ func (element *Element) GetParent() (*Element, errors.Error) {
 }
 
 func (element *Element) encode(writer *asn1.ASNWriter, asChild bool) errors.Error {
-	err := writer.StartSequence(element.tag)
+	tag := element.tag
+	if asChild {
+		// within its parent an element goes by its number
+		tag = getUnqualifiedTag(tag)
+	}
+	err := writer.StartSequence(tag)
 	if err != nil {
 		return errors.Update(err)
 	}
 
-	if element.isQualified {
+	if element.isQualified && !asChild {
 		//Encode Path
 		err = writer.StartSequence(asn1.Context(0))
 		if err != nil {
diff --git a/embertree/qualified_element.go b/embertree/qualified_element.go
index 9e82dbf..0ef3d90 100755
--- a/embertree/qualified_element.go
+++ b/embertree/qualified_element.go
@@ -72,6 +72,21 @@ func getQualifiedTag(tag uint8) uint8 {
 	return tag
 }
 
+// getUnqualifiedTag returns the numbered variant of an element tag.
+func getUnqualifiedTag(tag uint8) uint8 {
+	switch tag {
+	case QualifiedParameterApplication:
+		return ParameterApplication
+	case QualifiedNodeApplication:
+		return NodeApplication
+	case QualifiedMatrixApplication:
+		return MatrixApplication
+	case QualifiedFunctionApplication:
+		return FunctionApplication
+	}
+	return tag
+}
+
 func (element *Element) GetPath() asn1.RelativeOID {
 	if !element.isQualified {
 		var parentPath = asn1.RelativeOID{}
-- 
2.43.0


From 626ba9bf8ffe47e2c02a36feafee34fdf342be8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:09 +0000
Subject: [PATCH 52/63] fix: printing does not copy nested elements at every
 level

---
 embertree/element.go | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/embertree/element.go b/embertree/element.go
index 1dcf338..01e54fd 100755
--- a/embertree/element.go
+++ b/embertree/element.go
@@ -367,17 +367,23 @@ func Path2String(path asn1.RelativeOID) string {
 }
 
 func (element *Element)ToString() string {
+	var str strings.Builder
+	element.print(&str)
+	return str.String()
+}
+
+// print writes each part once, however deep it is nested.
+func (element *Element) print(str *strings.Builder) {
 	contentString := "nil"
 	content := element.GetContent()
 	if content != nil {
 		contentString = content.ToString()
 	}
-	var children strings.Builder
+	fmt.Fprintf(str, "{\n  tag: %d,\n  number: %d,\n  path: %s,\n  content: %s,\n  children: [\n",
+		element.tag, element.Number, Path2String(element.GetPath()), contentString)
 	for _,child := range(element.Children) {
-		children.WriteString(child.ToString())
-		children.WriteByte('\n')
+		child.print(str)
+		str.WriteByte('\n')
 	}
-
-	return fmt.Sprintf("{\n  tag: %d,\n  number: %d,\n  path: %s,\n  content: %s,\n  children: [\n%s]\n}", 
-		element.tag, element.Number, Path2String(element.GetPath()),contentString, children.String())
-}
\ No newline at end of file
+	str.WriteString("]\n}")
+}
-- 
2.43.0


From c6e6f75bac5cf92ba267c16a7d11ea70bfeede30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:36 +0000
Subject: [PATCH 53/63] fix: tell element listeners about a message once all of
 it is applied

---
 embertree/element.go | 23 +++++++++++++++++++++--
 embertree/root.go    | 35 +++++++++++++++++++++++------------
 2 files changed, 44 insertions(+), 14 deletions(-)

diff --git a/embertree/element.go b/embertree/element.go
index 01e54fd..5c9ad2a 100755
--- a/embertree/element.go
+++ b/embertree/element.go
@@ -147,7 +147,26 @@ func (element *Element) SetContents(contents interface{}) errors.Error {
 	return nil
 }
 
+// elementUpdate is an update the listeners of its element are still to be told.
+type elementUpdate struct {
+	element *Element
+	err     errors.Error
+}
+
+func notifyUpdates(updates []elementUpdate) {
+	for _, update := range updates {
+		update.element.updateListeners(update.err)
+	}
+}
+
 func (element *Element) Update(newElement *Element) errors.Error {
+	var updates []elementUpdate
+	err := element.update(newElement, &updates)
+	notifyUpdates(updates)
+	return err
+}
+
+func (element *Element) update(newElement *Element, updates *[]elementUpdate) errors.Error {
 	var err errors.Error
 	if element.Number != newElement.Number || getQualifiedTag(element.tag) != getQualifiedTag(newElement.tag) {
 		return errors.New("Attempt to update different element Number %d/%d Tag %d/%d", element.Number, newElement.Number, element.tag, newElement.tag)
@@ -165,13 +184,13 @@ func (element *Element) Update(newElement *Element) errors.Error {
 		if child == nil {
 			err = element.AddChild(newChild)
 		} else {
-			err = child.Update(newChild)
+			err = child.update(newChild, updates)
 		}
 		if err != nil {
 			break
 		}
 	}
-	element.updateListeners(err)
+	*updates = append(*updates, elementUpdate{element, err})
 	return err
 }
 
diff --git a/embertree/root.go b/embertree/root.go
index 9f53d38..84a3c1a 100755
--- a/embertree/root.go
+++ b/embertree/root.go
@@ -60,7 +60,7 @@ func (root *RootElement) GetElementByPath(path asn1.RelativeOID) (*Element,*Elem
 	return parent,element
 }
 
-func (root *RootElement) updateQualifiedElement(element *Element) (*Element, errors.Error) {
+func (root *RootElement) updateQualifiedElement(element *Element, updates *[]elementUpdate) (*Element, errors.Error) {
 	var err errors.Error
 	parent, currentElement := root.GetElementByPath(element.path)
 	if currentElement == nil {
@@ -71,7 +71,7 @@ func (root *RootElement) updateQualifiedElement(element *Element) (*Element, err
 			err = errors.New("Element path %s not connected to our tree\n.", Path2String(element.path))
 		}
 	} else {
-		err = currentElement.Update(element)
+		err = currentElement.update(element, updates)
 		if err == nil {
 			return parent,nil
 		}
@@ -79,19 +79,36 @@ func (root *RootElement) updateQualifiedElement(element *Element) (*Element, err
 	return nil,err
 }
 
-func (root *RootElement) updateElement(element *Element) errors.Error {
+func (root *RootElement) updateElement(element *Element, updates *[]elementUpdate) errors.Error {
 	var err errors.Error
 	currentElement := root.GetElementByNumber(element.Number)
 	if currentElement == nil {
 		root.AddElement(element)		
 	} else {
-		err = currentElement.Update(element)
+		err = currentElement.update(element, updates)
 	}
 	return err
 }
 
+// Decode applies a message to the tree, then tells the listeners about it.
 func (root *RootElement) Decode(reader *asn1.ASNReader) errors.Error {
+	var updates []elementUpdate
 	modifiedElement := make(map[string]*Element)
+	err := root.applyMessage(reader, modifiedElement, &updates)
+	notifyUpdates(updates)
+	if err != nil {
+		return err
+	}
+	root.logger.Debug("Updating root listeners.\n")
+	notifyListeners(&root.listenersLock, root.listeners, root, nil)
+	for path,mElement := range(modifiedElement) {
+		root.logger.Debug("Updating Element %s listeners.\n", path)
+		mElement.updateListeners(nil)
+	}
+	return nil
+}
+
+func (root *RootElement) applyMessage(reader *asn1.ASNReader, modifiedElement map[string]*Element, updates *[]elementUpdate) errors.Error {
 	_, reader, err := reader.ReadSequenceStart(asn1.Application(0))
 	if err != nil {
 		return err
@@ -130,12 +147,12 @@ func (root *RootElement) Decode(reader *asn1.ASNReader) errors.Error {
 			}
 			root.logger.Debug("Updating E/QE %s.\n", Path2String(element.GetPath()))
 			if element.isQualified && len(element.path) > 1 {
-				parent,err := root.updateQualifiedElement(element)
+				parent,err := root.updateQualifiedElement(element, updates)
 				if err == nil && parent != nil {
 					modifiedElement[Path2String(parent.GetPath())] = parent
 				}
 			} else {
-				root.updateElement(element)
+				root.updateElement(element, updates)
 			}
 			err = elementReader.ReadSequenceEnd()
 			if err != nil {
@@ -149,12 +166,6 @@ func (root *RootElement) Decode(reader *asn1.ASNReader) errors.Error {
 			return errors.Update(err)
 		}
 	}
-	root.logger.Debug("Updating root listeners.\n")
-	notifyListeners(&root.listenersLock, root.listeners, root, nil)
-	for path,mElement := range(modifiedElement) {
-		root.logger.Debug("Updating Element %s listeners.\n", path)
-		mElement.updateListeners(nil)
-	}
 	return nil
 }
 
-- 
2.43.0


From ffb20d77605701cbef9c389dd7aac8e2b1d6e468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:59 +0000
Subject: [PATCH 54/63] fix: a listener registered while a message is being
 announced hears later messages only

---
 embertree/element.go | 57 ++++++++++++++++++++++++++------------------
 embertree/root.go    | 28 ++++++++++------------
 2 files changed, 47 insertions(+), 38 deletions(-)

diff --git a/embertree/element.go b/embertree/element.go
index 5c9ad2a..03432d8 100755
--- a/embertree/element.go
+++ b/embertree/element.go
@@ -42,21 +42,34 @@ type ListeningNode interface {
 	RemoveListener(listener Listener)
 }
 
-// notifyListeners calls the listeners registered at this point, except those removed meanwhile.
-// The lock is not held during a call as listeners may add and remove listeners.
-func notifyListeners(lock *sync.Mutex, listeners map[Listener]Listener, node interface{}, err errors.Error) {
+// notification is an update the listeners registered when it was created are still to be told.
+type notification struct {
+	lock       *sync.Mutex
+	listeners  map[Listener]Listener
+	registered []Listener
+	node       interface{}
+	err        errors.Error
+}
+
+func newNotification(lock *sync.Mutex, listeners map[Listener]Listener, node interface{}, err errors.Error) *notification {
 	lock.Lock()
+	defer lock.Unlock()
 	registered := make([]Listener, 0, len(listeners))
 	for _, listener := range listeners {
 		registered = append(registered, listener)
 	}
-	lock.Unlock()
-	for _, listener := range registered {
-		lock.Lock()
-		_, present := listeners[listener]
-		lock.Unlock()
+	return &notification{lock: lock, listeners: listeners, registered: registered, node: node, err: err}
+}
+
+// send calls the listeners, except those removed meanwhile.
+// The lock is not held during a call as listeners may add and remove listeners.
+func (n *notification) send() {
+	for _, listener := range n.registered {
+		n.lock.Lock()
+		_, present := n.listeners[listener]
+		n.lock.Unlock()
 		if present {
-			listener.Receive(node, err)
+			listener.Receive(n.node, n.err)
 		}
 	}
 }
@@ -138,8 +151,12 @@ func (element *Element) AddChild(child *Element) errors.Error {
 	return nil
 }
 
+func (element *Element) notification(err errors.Error) *notification {
+	return newNotification(&element.listenersLock, element.listeners, element, err)
+}
+
 func (element *Element) updateListeners(err errors.Error) {
-	notifyListeners(&element.listenersLock, element.listeners, element, err)
+	element.notification(err).send()
 }
 func (element *Element) SetContents(contents interface{}) errors.Error {
 	element.contents = contents.(EmberContents)
@@ -147,26 +164,20 @@ func (element *Element) SetContents(contents interface{}) errors.Error {
 	return nil
 }
 
-// elementUpdate is an update the listeners of its element are still to be told.
-type elementUpdate struct {
-	element *Element
-	err     errors.Error
-}
-
-func notifyUpdates(updates []elementUpdate) {
-	for _, update := range updates {
-		update.element.updateListeners(update.err)
+func sendAll(notifications []*notification) {
+	for _, n := range notifications {
+		n.send()
 	}
 }
 
 func (element *Element) Update(newElement *Element) errors.Error {
-	var updates []elementUpdate
+	var updates []*notification
 	err := element.update(newElement, &updates)
-	notifyUpdates(updates)
+	sendAll(updates)
 	return err
 }
 
-func (element *Element) update(newElement *Element, updates *[]elementUpdate) errors.Error {
+func (element *Element) update(newElement *Element, updates *[]*notification) errors.Error {
 	var err errors.Error
 	if element.Number != newElement.Number || getQualifiedTag(element.tag) != getQualifiedTag(newElement.tag) {
 		return errors.New("Attempt to update different element Number %d/%d Tag %d/%d", element.Number, newElement.Number, element.tag, newElement.tag)
@@ -190,7 +201,7 @@ func (element *Element) update(newElement *Element, updates *[]elementUpdate) er
 			break
 		}
 	}
-	*updates = append(*updates, elementUpdate{element, err})
+	*updates = append(*updates, element.notification(err))
 	return err
 }
 
diff --git a/embertree/root.go b/embertree/root.go
index 84a3c1a..1293184 100755
--- a/embertree/root.go
+++ b/embertree/root.go
@@ -60,7 +60,7 @@ func (root *RootElement) GetElementByPath(path asn1.RelativeOID) (*Element,*Elem
 	return parent,element
 }
 
-func (root *RootElement) updateQualifiedElement(element *Element, updates *[]elementUpdate) (*Element, errors.Error) {
+func (root *RootElement) updateQualifiedElement(element *Element, updates *[]*notification) (*Element, errors.Error) {
 	var err errors.Error
 	parent, currentElement := root.GetElementByPath(element.path)
 	if currentElement == nil {
@@ -79,7 +79,7 @@ func (root *RootElement) updateQualifiedElement(element *Element, updates *[]ele
 	return nil,err
 }
 
-func (root *RootElement) updateElement(element *Element, updates *[]elementUpdate) errors.Error {
+func (root *RootElement) updateElement(element *Element, updates *[]*notification) errors.Error {
 	var err errors.Error
 	currentElement := root.GetElementByNumber(element.Number)
 	if currentElement == nil {
@@ -90,25 +90,23 @@ func (root *RootElement) updateElement(element *Element, updates *[]elementUpdat
 	return err
 }
 
-// Decode applies a message to the tree, then tells the listeners about it.
+// Decode applies a message to the tree, then tells the listeners registered by then about it.
 func (root *RootElement) Decode(reader *asn1.ASNReader) errors.Error {
-	var updates []elementUpdate
+	var updates []*notification
 	modifiedElement := make(map[string]*Element)
 	err := root.applyMessage(reader, modifiedElement, &updates)
-	notifyUpdates(updates)
-	if err != nil {
-		return err
-	}
-	root.logger.Debug("Updating root listeners.\n")
-	notifyListeners(&root.listenersLock, root.listeners, root, nil)
-	for path,mElement := range(modifiedElement) {
-		root.logger.Debug("Updating Element %s listeners.\n", path)
-		mElement.updateListeners(nil)
+	if err == nil {
+		updates = append(updates, newNotification(&root.listenersLock, root.listeners, root, nil))
+		for path, mElement := range modifiedElement {
+			root.logger.Debug("Updating Element %s listeners.\n", path)
+			updates = append(updates, mElement.notification(nil))
+		}
 	}
-	return nil
+	sendAll(updates)
+	return err
 }
 
-func (root *RootElement) applyMessage(reader *asn1.ASNReader, modifiedElement map[string]*Element, updates *[]elementUpdate) errors.Error {
+func (root *RootElement) applyMessage(reader *asn1.ASNReader, modifiedElement map[string]*Element, updates *[]*notification) errors.Error {
 	_, reader, err := reader.ReadSequenceStart(asn1.Application(0))
 	if err != nil {
 		return err
-- 
2.43.0


From 8a9fee65b77e2078ae5156e1d972cbfeaec2028e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:11 +0000
Subject: [PATCH 55/63] fix: tell the client's logger about a received message
 only if it was refused

---
 socket/client.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/socket/client.go b/socket/client.go
index bd23a31..349bff2 100755
--- a/socket/client.go
+++ b/socket/client.go
@@ -112,7 +112,9 @@ func (s *S101Client)emberPacketHandler(packet []byte) errors.Error {
 	s.logger.Debug("Ember Frame - start decoding.\n")
 	s.logger.Debugln(packet)
 	err := s.tree.Decode(asn1.NewASNReader(packet))
-	s.errorHandler(err)
+	if err != nil {
+		s.errorHandler(err)
+	}
 	return err
 }
 
-- 
2.43.0


From 3ab07066e2b702cef5884a75cf0cbc3569105257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:42 +0000
Subject: [PATCH 56/63] fix: write a null as an item of no content

---
 asn1/encode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1/encode.go b/asn1/encode.go
index ba51728..962558c 100755
--- a/asn1/encode.go
+++ b/asn1/encode.go
@@ -121,7 +121,7 @@ func (asn *ASNWriter) WriteInt64(i int64) errors.Error {
 }
 
 func (asn *ASNWriter) WriteNull() errors.Error {
-	err := asn.data.WriteByte(EMBER_NULL)
+	_, err := asn.data.Write([]byte{EMBER_NULL, 0})
 	return errors.NewError(err)
 }
 
-- 
2.43.0


From 2db53af2cb147dafeda89b636f63c6737750417e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:33 +0000
Subject: [PATCH 57/63] fix: connect to IPv6 addresses

---
 socket/client.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/socket/client.go b/socket/client.go
index 349bff2..56b572c 100755
--- a/socket/client.go
+++ b/socket/client.go
@@ -4,6 +4,7 @@ import (
 	"container/list"
 	"fmt"
 	"net"
+	"strings"
 	"sync"
 	"time"
 	. "github.com/dufourgilles/emberlib/logger"
@@ -156,6 +157,10 @@ func (s *S101Client)SetLogger(logger Logger) {
 
 func (s *S101Client)Connect(address string, port uint16) errors.Error {
 	raddr := fmt.Sprintf("%s:%d", address, port)
+	if strings.Contains(address, ":") && !strings.HasPrefix(address, "[") {
+		// IPv6 address
+		raddr = fmt.Sprintf("[%s]:%d", address, port)
+	}
 	s.lock.Lock()
 	if s.conn != nil || s.connecting {
 		s.lock.Unlock()
-- 
2.43.0


From 62ff24630a6ebd0d471174d9561e27bb1f87b50c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:18 +0000
Subject: [PATCH 58/63] fix: print the parameter properties that are set

---
 embertree/parameter.go | 69 ++++++++++++------------------------------
 1 file changed, 19 insertions(+), 50 deletions(-)

diff --git a/embertree/parameter.go b/embertree/parameter.go
index 8ded811..3aa665f 100755
--- a/embertree/parameter.go
+++ b/embertree/parameter.go
@@ -250,57 +250,26 @@ func (contents *ParameterContents) ToString() string {
 	if err == nil {
 		str = fmt.Sprintf("%s  description: %s\n",str, valStr)
 	}
-	valObject := contents.GetValueObject()
-	if valObject != nil && valObject.isSet {
-		str = fmt.Sprintf("%  svalue: %s\n",str, valObject.ToString())
-	}
-	valObject = contents.GetMinimumObject()
-	if valObject != nil && valObject.isSet {
-		str = fmt.Sprintf("%  sminimum: %s\n",str, valObject.ToString())
-	}
-	valObject = contents.GetMaximumObject()
-	if valObject != nil && valObject.isSet {
-		str = fmt.Sprintf("%s  maximum: %s\n",str, valObject.ToString())
-	}
-	valObject = contents.GetDefaultObject()
-	if valObject != nil && valObject.isSet {
-		str = fmt.Sprintf("%s  default: %s\n",str, valObject.ToString())
-	}
-	valStr,err = contents.GetAccess()
-	if err != nil {
-		str = fmt.Sprintf("%s  access: %s\n",str,valStr)
-	}
-	valStr,err = contents.GetFormat()
-	if err != nil {
-		str = fmt.Sprintf("%s  format: %s\n",str,valStr)
-	}
-	valStr,err = contents.GetEnumeration()
-	if err != nil {
-		str = fmt.Sprintf("%s  enumeration: %s\n",str,valStr)
-	}
-	valInt,err := contents.GetFactor()
-	if err != nil {
-		str = fmt.Sprintf("%s  factor: %ll\n",str,valInt)
-	}
-	valInt,err = contents.GetStep()
-	if err != nil {
-		str = fmt.Sprintf("%s  step: %ll\n",str,valInt)
-	}
-	valBool,err := contents.GetOnline()
-	if err != nil {
-		if valBool {
-			str = fmt.Sprintf("%s  isonline: true\n",str)
-		} else {
-			str = fmt.Sprintf("%s  isonline: false\n",str)
+	for _, property := range []struct {
+		name string
+		ctx  int
+	}{
+		{"value", valueCtx},
+		{"minimum", minimumCtx},
+		{"maximum", maximumCtx},
+		{"default", defaultCtx},
+		{"access", accessCtx},
+		{"format", formatCtx},
+		{"enumeration", enumerationCtx},
+		{"factor", factorCtx},
+		{"step", stepCtx},
+		{"isonline", isOnlineCtx},
+		{"type", typeCtx},
+		{"streamIdentifier", streamIdentifierCtx},
+	} {
+		if val := &contents.table[property.ctx]; val.IsSet() {
+			str = fmt.Sprintf("%s  %s: %s\n", str, property.name, val.ToString())
 		}
 	}
-	valStr,err = contents.GetType()
-	if err != nil {
-		str = fmt.Sprintf("%s  type: %s\n",str,valStr)
-	}
-	valInt,err = contents.GetStreamIdentifier()
-	if err != nil {
-		str = fmt.Sprintf("%s  streamIdentifier: %ll\n",str,valInt)
-	}
 	return fmt.Sprintf("{\n%s}\n", str)
 }
\ No newline at end of file
-- 
2.43.0


From 29a3c48b9504ff87c88c609b91759daef75be294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:31 +0000
Subject: [PATCH 59/63] fix: print all of a matrix

---
 embertree/matrix.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/embertree/matrix.go b/embertree/matrix.go
index 27ecaae..c66f14f 100755
--- a/embertree/matrix.go
+++ b/embertree/matrix.go
@@ -440,17 +440,17 @@ func (c *MatrixContent) ToString() string {
 	}
 	t,err := c.GetType()
 	if t == OneToN {
-		str = fmt.Sprintf(("%s  type: OneToN"))
+		str = fmt.Sprintf("%s  type: OneToN\n", str)
 	} else if t ==  NToN {
-		str = fmt.Sprintf(("%s  type: NToN"))
+		str = fmt.Sprintf("%s  type: NToN\n", str)
 	} else {
-		str = fmt.Sprintf(("%s  type: OneToOne"))
+		str = fmt.Sprintf("%s  type: OneToOne\n", str)
 	}
 	m,err := c.GetMode()
 	if m == Linear {
-		str = fmt.Sprintf(("%s  mode: Linear"))
+		str = fmt.Sprintf("%s  mode: Linear\n", str)
 	} else {
-		str = fmt.Sprintf(("%s  mode: Non-Linear"))
+		str = fmt.Sprintf("%s  mode: Non-Linear\n", str)
 	}
 	return fmt.Sprintf("{\n%s}\n", str)
 }
\ No newline at end of file
-- 
2.43.0


From 7b131fc13254e480b3097ddc8fc3e0eb159cbff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:34 +0000
Subject: [PATCH 60/63] fix: print octets with two digits each

---
 embertree/content_parameter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/embertree/content_parameter.go b/embertree/content_parameter.go
index c38277e..6bdae07 100755
--- a/embertree/content_parameter.go
+++ b/embertree/content_parameter.go
@@ -91,7 +91,7 @@ func (cp *ContentParameter)ToString() string {
 		b,_ := cp.GetBuffer()
 		var str strings.Builder
 		for _,x := range(b) {
-			fmt.Fprintf(&str, "%x", x)
+			fmt.Fprintf(&str, "%02x", x)
 		}
 		return str.String()
 	}
-- 
2.43.0


From 7e13467512f43f2b3bb628fe2537474ab51ef64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:35 +0000
Subject: [PATCH 61/63] fix: refuse received matrix types and modes that are
 not defined

---
 embertree/matrix.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/embertree/matrix.go b/embertree/matrix.go
index c66f14f..cb7ff4d 100755
--- a/embertree/matrix.go
+++ b/embertree/matrix.go
@@ -61,6 +61,24 @@ func ValidateMatrixMode(mode MatrixMode) errors.Error {
 	return nil
 }
 
+// validateMatrixSetting refuses a received type or mode that is not defined.
+func validateMatrixSetting(index uint8, value *ContentParameter) errors.Error {
+	if index != matrixTypeCtx && index != matrixModeCtx {
+		return nil
+	}
+	v, err := value.GetInt()
+	if err != nil {
+		return errors.Update(err)
+	}
+	if index == matrixTypeCtx && (v < int64(OneToN) || v > int64(NToN)) {
+		return errors.New("Invalid matrix type %d", v)
+	}
+	if index == matrixModeCtx && (v < int64(Linear) || v > int64(NonLinear)) {
+		return errors.New("Invalid matrix mode %d", v)
+	}
+	return nil
+}
+
 func (c *MatrixContent) SetType(mtype MatrixType) errors.Error {
 	err := ValidateMatrixType(mtype)
 	if err != nil {
@@ -387,6 +405,10 @@ func (c *MatrixContent) Decode(reader *asn1.ASNReader) errors.Error {
 			if err != nil {
 				return errors.Update(err)
 			}
+			err = validateMatrixSetting(index, value)
+			if err != nil {
+				return errors.Update(err)
+			}
 			err = c.table[index].Set(value)
 			if err != nil {
 				return errors.Update(err)
-- 
2.43.0


From 7b59854fdf3ed3d857d9e1168044aad83f983eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:38 +0000
Subject: [PATCH 62/63] fix: refuse received tuple types that do not fit

---
 embertree/function.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/embertree/function.go b/embertree/function.go
index bc5fc1c..3220719 100755
--- a/embertree/function.go
+++ b/embertree/function.go
@@ -2,6 +2,7 @@ package embertree
 
 import (
 	"fmt"
+	"math"
 
 	"github.com/dufourgilles/emberlib/errors"
 
@@ -195,6 +196,9 @@ func (tuple *TupleDescription) Decode(reader *asn1.ASNReader) errors.Error {
 			if err != nil {
 				return errors.Update(err)
 			}
+			if t < 0 || t > math.MaxUint8 {
+				return errors.New("Invalid tuple type %d", t)
+			}
 			tuple.Type = ParameterType(t)
 			break
 		case asn1.Context(1):
-- 
2.43.0


From 66a250534b322bd166f7013f7358a4c41fe82ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:43 +0000
Subject: [PATCH 63/63] fix: print reals with the digits they need

---
 embertree/content_parameter.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/embertree/content_parameter.go b/embertree/content_parameter.go
index 6bdae07..97da8f0 100755
--- a/embertree/content_parameter.go
+++ b/embertree/content_parameter.go
@@ -2,6 +2,7 @@ package embertree
 
 import (
 	"fmt"
+	"strconv"
 	"strings"
 
 	"github.com/dufourgilles/emberlib/asn1"
@@ -86,7 +87,12 @@ func (cp *ContentParameter)ToString() string {
 		return Path2String(oid)
 	case ValueTypeReal:
 		r,_ := cp.GetReal()
-		return fmt.Sprintf("%f", r)
+		str := fmt.Sprintf("%f", r)
+		if val,err := strconv.ParseFloat(str, 64); err != nil || val != r {
+			// needs more digits
+			str = strconv.FormatFloat(r, 'f', -1, 64)
+		}
+		return str
 	case ValueTypeBuffer:
 		b,_ := cp.GetBuffer()
 		var str strings.Builder
-- 
2.43.0

