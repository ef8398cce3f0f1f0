From 36cb6bbbb8111a7289690164ecb1973d3d691c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:15 +0000
Subject: [PATCH 001/112] fix: decode DiagnosticInfo fields instead of
 dereferencing nil pointers

---
 ua/binary_decoder.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ua/binary_decoder.go b/ua/binary_decoder.go
index 11cde47..6f2f7c0 100644
--- a/ua/binary_decoder.go
+++ b/ua/binary_decoder.go
@@ -2091,36 +2091,43 @@ func (dec *BinaryDecoder) ReadDiagnosticInfo(value *DiagnosticInfo) error {
 		return BadDecodingError
 	}
 	if (b & 1) != 0 {
+		result.SymbolicID = new(int32)
 		if err := dec.ReadInt32(result.SymbolicID); err != nil {
 			return BadDecodingError
 		}
 	}
 	if (b & 2) != 0 {
+		result.NamespaceURI = new(int32)
 		if err := dec.ReadInt32(result.NamespaceURI); err != nil {
 			return BadDecodingError
 		}
 	}
 	if (b & 8) != 0 {
+		result.Locale = new(int32)
 		if err := dec.ReadInt32(result.Locale); err != nil {
 			return BadDecodingError
 		}
 	}
 	if (b & 4) != 0 {
+		result.LocalizedText = new(int32)
 		if err := dec.ReadInt32(result.LocalizedText); err != nil {
 			return BadDecodingError
 		}
 	}
 	if (b & 16) != 0 {
+		result.AdditionalInfo = new(string)
 		if err := dec.ReadString(result.AdditionalInfo); err != nil {
 			return BadDecodingError
 		}
 	}
 	if (b & 32) != 0 {
+		result.InnerStatusCode = new(StatusCode)
 		if err := dec.ReadStatusCode(result.InnerStatusCode); err != nil {
 			return BadDecodingError
 		}
 	}
 	if (b & 64) != 0 {
+		result.InnerDiagnosticInfo = new(DiagnosticInfo)
 		if err := dec.ReadDiagnosticInfo(result.InnerDiagnosticInfo); err != nil {
 			return BadDecodingError
 		}
-- 
2.43.0


From a6167e33fbbc0241cc806c57f0a044c90341cced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:20 +0000
Subject: [PATCH 002/112] fix: keep the namespace URI and server index flags
 when encoding an ExpandedNodeID without identifier

---
 ua/binary_encoder.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ua/binary_encoder.go b/ua/binary_encoder.go
index 015cc77..41b0f3a 100644
--- a/ua/binary_encoder.go
+++ b/ua/binary_encoder.go
@@ -705,7 +705,10 @@ func (enc *BinaryEncoder) WriteExpandedNodeID(value ExpandedNodeID) error {
 			return BadEncodingError
 		}
 	default:
-		if err := enc.WriteUInt16(0); err != nil {
+		if err := enc.WriteByte(0x00 | b); err != nil {
+			return BadEncodingError
+		}
+		if err := enc.WriteByte(0); err != nil {
 			return BadEncodingError
 		}
 	}
-- 
2.43.0


From 3cb359e2c200306bc553a328e4c152fd811ba53a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:25 +0000
Subject: [PATCH 003/112] fix: encode dates beyond the year 30828 as the
 maximum date instead of overflowing

---
 ua/binary_encoder.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/ua/binary_encoder.go b/ua/binary_encoder.go
index 41b0f3a..ff48520 100644
--- a/ua/binary_encoder.go
+++ b/ua/binary_encoder.go
@@ -490,12 +490,14 @@ func (enc *BinaryEncoder) WriteString(value string) error {
 // WriteDateTime writes a date/time.
 func (enc *BinaryEncoder) WriteDateTime(value time.Time) error {
 	// ticks are 100 nanosecond intervals since January 1, 1601
-	ticks := (value.Unix()+11644473600)*10000000 + int64(value.Nanosecond())/100
-	if ticks < 0 {
+	var ticks int64
+	switch secs := value.Unix() + 11644473600; {
+	case secs < 0:
 		ticks = 0
-	}
-	if ticks >= 2650467743990000000 {
+	case secs >= 265046774399:
 		ticks = 0x7FFFFFFFFFFFFFFF
+	default:
+		ticks = secs*10000000 + int64(value.Nanosecond())/100
 	}
 	if err := enc.WriteInt64(ticks); err != nil {
 		return BadEncodingError
-- 
2.43.0


From e50cc94af784cf1868dab5cd9557c8fd1062ed53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:30 +0000
Subject: [PATCH 004/112] fix: encode and decode GUID fields of structures

---
 ua/binary_decoder.go | 6 ++++--
 ua/binary_encoder.go | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/ua/binary_decoder.go b/ua/binary_decoder.go
index 6f2f7c0..c85771c 100644
--- a/ua/binary_decoder.go
+++ b/ua/binary_decoder.go
@@ -70,8 +70,6 @@ func getDecoder(typ reflect.Type) (decoderFunc, error) {
 		switch typ {
 		case typeDateTime:
 			return getDateTimeDecoder()
-		case typeGUID:
-			return getGUIDDecoder()
 		case typeExpandedNodeID:
 			return getExpandedNodeIDDecoder()
 		case typeQualifiedName:
@@ -85,6 +83,10 @@ func getDecoder(typ reflect.Type) (decoderFunc, error) {
 		default:
 			return getStructDecoder(typ)
 		}
+	case reflect.Array:
+		if typ == typeGUID {
+			return getGUIDDecoder()
+		}
 	case reflect.Slice:
 		elemTyp := typ.Elem()
 		switch elemTyp.Kind() {
diff --git a/ua/binary_encoder.go b/ua/binary_encoder.go
index ff48520..87eace6 100644
--- a/ua/binary_encoder.go
+++ b/ua/binary_encoder.go
@@ -99,8 +99,6 @@ func getEncoder(typ reflect.Type) (encoderFunc, error) {
 		switch typ {
 		case typeDateTime:
 			return getDateTimeEncoder()
-		case typeGUID:
-			return getGUIDEncoder()
 		case typeExpandedNodeID:
 			return getExpandedNodeIDEncoder()
 		case typeQualifiedName:
@@ -114,6 +112,10 @@ func getEncoder(typ reflect.Type) (encoderFunc, error) {
 		default:
 			return getStructEncoder(typ)
 		}
+	case reflect.Array:
+		if typ == typeGUID {
+			return getGUIDEncoder()
+		}
 	case reflect.Slice:
 		switch elemTyp := typ.Elem(); elemTyp.Kind() {
 		case reflect.Uint8:
-- 
2.43.0


From af302c537add5e40191e39810fd113de2c2d132a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:10 +0000
Subject: [PATCH 005/112] fix: encode Variants holding a DataValue or
 DiagnosticInfo

---
 ua/binary_encoder.go | 41 +++++++++++++++++++++++++++++++++++++++++
 1 file changed, 41 insertions(+)

diff --git a/ua/binary_encoder.go b/ua/binary_encoder.go
index 87eace6..69434b2 100644
--- a/ua/binary_encoder.go
+++ b/ua/binary_encoder.go
@@ -1699,6 +1699,47 @@ func (enc *BinaryEncoder) WriteVariant(value Variant) error {
 		if err := enc.WriteInt32Array(dims3D(v1)); err != nil {
 			return BadEncodingError
 		}
+	case DataValue:
+		if err := enc.WriteByte(VariantTypeDataValue); err != nil {
+			return BadEncodingError
+		}
+		if err := enc.WriteDataValue(v1); err != nil {
+			return BadEncodingError
+		}
+	case DiagnosticInfo:
+		if err := enc.WriteByte(VariantTypeDiagnosticInfo); err != nil {
+			return BadEncodingError
+		}
+		if err := enc.WriteDiagnosticInfo(v1); err != nil {
+			return BadEncodingError
+		}
+	case []DiagnosticInfo:
+		if err := enc.WriteByte(VariantTypeDiagnosticInfo | VariantTypeArray); err != nil {
+			return BadEncodingError
+		}
+		if err := enc.WriteDiagnosticInfoArray(v1); err != nil {
+			return BadEncodingError
+		}
+	case [][]DiagnosticInfo:
+		if err := enc.WriteByte(VariantTypeDiagnosticInfo | VariantTypeArray | VariantTypeMultiDimensionArray); err != nil {
+			return BadEncodingError
+		}
+		if err := enc.WriteDiagnosticInfoArray(flatten2D(v1)); err != nil {
+			return BadEncodingError
+		}
+		if err := enc.WriteInt32Array(dims2D(v1)); err != nil {
+			return BadEncodingError
+		}
+	case [][][]DiagnosticInfo:
+		if err := enc.WriteByte(VariantTypeDiagnosticInfo | VariantTypeArray | VariantTypeMultiDimensionArray); err != nil {
+			return BadEncodingError
+		}
+		if err := enc.WriteDiagnosticInfoArray(flatten3D(v1)); err != nil {
+			return BadEncodingError
+		}
+		if err := enc.WriteInt32Array(dims3D(v1)); err != nil {
+			return BadEncodingError
+		}
 	default:
 		switch v2 := reflect.ValueOf(value); v2.Kind() {
 		case reflect.Struct:
-- 
2.43.0


From f880baad745c5196479a42728ba057975345e798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:45 +0000
Subject: [PATCH 006/112] fix: encode DataSetFieldFlags with the 16 bits the
 schema prescribes

---
 ua/enums.generated.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ua/enums.generated.go b/ua/enums.generated.go
index abf2984..a146636 100644
--- a/ua/enums.generated.go
+++ b/ua/enums.generated.go
@@ -182,7 +182,7 @@ func (v PubSubState) String() string {
 }
 
 // DataSetFieldFlags enumeration.
-type DataSetFieldFlags int32
+type DataSetFieldFlags uint16
 
 // DataSetFieldFlags enumeration.
 const (
-- 
2.43.0


From f1fe6967881c8cfb0ef6709432d18e68ff79b382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:31 +0000
Subject: [PATCH 007/112] fix: encode extension objects larger than 64 KiB
 through any writer

---
 ua/binary_encoder.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/ua/binary_encoder.go b/ua/binary_encoder.go
index 69434b2..af37cab 100644
--- a/ua/binary_encoder.go
+++ b/ua/binary_encoder.go
@@ -3,6 +3,7 @@
 package ua
 
 import (
+	"bytes"
 	"encoding/binary"
 	"fmt"
 	"io"
@@ -17,8 +18,6 @@ import (
 )
 
 var (
-	// bytesPool is a pool of byte slices
-	bytesPool           = sync.Pool{New: func() any { s := make([]byte, 64*1024); return &s }}
 	typeToEncoderMap    sync.Map
 	typeDateTime        = reflect.TypeOf((*time.Time)(nil)).Elem()
 	typeGUID            = reflect.TypeOf((*uuid.UUID)(nil)).Elem()
@@ -817,10 +816,8 @@ func (enc *BinaryEncoder) WriteExtensionObject(value ExtensionObject) error {
 	}
 
 	// fall back to using extra buffer
-	buf2 := *(bytesPool.Get().(*[]byte))
-	defer bytesPool.Put(&buf2)
-	var writer = NewWriter(buf2)
-	enc2 := NewBinaryEncoder(writer, enc.ec)
+	var writer bytes.Buffer
+	enc2 := NewBinaryEncoder(&writer, enc.ec)
 	if err := enc2.Encode(value); err != nil {
 		return BadEncodingError
 	}
-- 
2.43.0


From 33ab3379b0c117db16c09d54fcf26494a337951c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:28 +0000
Subject: [PATCH 008/112] fix: reject Variant array dimensions that do not
 match the number of values

---
 ua/binary_decoder.go | 82 ++++++++++++++++++++++++++++++--------------
 1 file changed, 57 insertions(+), 25 deletions(-)

diff --git a/ua/binary_decoder.go b/ua/binary_decoder.go
index c85771c..effb510 100644
--- a/ua/binary_decoder.go
+++ b/ua/binary_decoder.go
@@ -1306,7 +1306,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -1336,7 +1336,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -1366,7 +1366,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -1396,7 +1396,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -1426,7 +1426,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -1456,7 +1456,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -1486,7 +1486,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -1516,7 +1516,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -1546,7 +1546,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -1576,7 +1576,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -1606,7 +1606,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -1636,7 +1636,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -1666,7 +1666,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -1696,7 +1696,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -1726,7 +1726,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -1756,7 +1756,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -1786,7 +1786,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -1816,7 +1816,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -1846,7 +1846,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -1876,7 +1876,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -1906,7 +1906,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -1936,7 +1936,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -1966,7 +1966,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -1996,7 +1996,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -2026,7 +2026,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -2055,6 +2055,38 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 	}
 }
 
+// readDimensions reads the dimensions of a multi-dimensional array of count values.
+func (dec *BinaryDecoder) readDimensions(value *[]int32, count int) error {
+	var dims []int32
+	if err := dec.ReadInt32Array(&dims); err != nil {
+		return BadDecodingError
+	}
+	// the product of the dimensions must be the number of values.
+	size := int64(1)
+	for _, d := range dims {
+		if d < 0 {
+			return BadDecodingError
+		}
+		if size *= int64(d); size > math.MaxInt32 {
+			return BadDecodingError
+		}
+	}
+	if size != int64(count) {
+		return BadDecodingError
+	}
+	// the rows of an array without values still take up memory.
+	if size == 0 {
+		rows := int64(1)
+		for _, d := range dims[:len(dims)-1] {
+			if rows *= int64(d); rows > math.MaxUint16 {
+				return BadDecodingError
+			}
+		}
+	}
+	*value = dims
+	return nil
+}
+
 // split recursively creates a multi-dimensional array from a set of values
 // and some given dimensions.
 func split(level, i, j int, dims []int, vals reflect.Value) reflect.Value {
-- 
2.43.0


From 1a46989c04c101dc40c85eab21f1bf358cb789f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:57 +0000
Subject: [PATCH 009/112] fix: check length prefixes against the remaining
 input before allocating

---
 ua/binary_decoder.go | 100 +++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 100 insertions(+)

diff --git a/ua/binary_decoder.go b/ua/binary_decoder.go
index effb510..e61648d 100644
--- a/ua/binary_decoder.go
+++ b/ua/binary_decoder.go
@@ -206,6 +206,9 @@ func getSliceDecoder(typ reflect.Type) (decoderFunc, error) {
 			hdr.cap = 0
 			return nil
 		}
+		if err := buf.checkLength(l); err != nil {
+			return err
+		}
 		hdr.data = unsafe.Pointer(reflect.MakeSlice(typ, len, len).Pointer())
 		hdr.len = len
 		hdr.cap = len
@@ -340,6 +343,22 @@ func getByteArrayDecoder() (decoderFunc, error) {
 	}, nil
 }
 
+// checkLength returns an error if fewer than n bytes remain to be read. Every element of an
+// array takes up at least one byte, so this is checked before allocating n elements.
+func (dec *BinaryDecoder) checkLength(n int32) error {
+	switch r := dec.r.(type) {
+	case interface{ Len() int }:
+		if int64(n) > int64(r.Len()) {
+			return BadDecodingError
+		}
+	case interface{ Len() int64 }:
+		if int64(n) > r.Len() {
+			return BadDecodingError
+		}
+	}
+	return nil
+}
+
 // ReadBoolean reads a bool.
 func (dec *BinaryDecoder) ReadBoolean(value *bool) error {
 	if _, err := io.ReadFull(dec.r, dec.bs[:1]); err != nil {
@@ -449,6 +468,9 @@ func (dec *BinaryDecoder) ReadString(value *string) error {
 		*value = ""
 		return nil
 	}
+	if err := dec.checkLength(n); err != nil {
+		return err
+	}
 	bs := make([]byte, n)
 	if _, err := io.ReadFull(dec.r, bs); err != nil {
 		return BadDecodingError
@@ -506,6 +528,9 @@ func (dec *BinaryDecoder) ReadByteString(value *ByteString) error {
 		*value = ""
 		return nil
 	}
+	if err := dec.checkLength(n); err != nil {
+		return err
+	}
 	bs := make([]byte, n)
 	if _, err := io.ReadFull(dec.r, bs); err != nil {
 		return BadDecodingError
@@ -2180,6 +2205,9 @@ func (dec *BinaryDecoder) ReadBooleanArray(value *[]bool) error {
 		*value = nil
 		return nil
 	}
+	if err := dec.checkLength(n); err != nil {
+		return err
+	}
 	temp := make([]bool, n)
 	for i := range temp {
 		if err := dec.ReadBoolean(&temp[i]); err != nil {
@@ -2200,6 +2228,9 @@ func (dec *BinaryDecoder) ReadSByteArray(value *[]int8) error {
 		*value = nil
 		return nil
 	}
+	if err := dec.checkLength(n); err != nil {
+		return err
+	}
 	temp := make([]int8, n)
 	for i := range temp {
 		if err := dec.ReadSByte(&temp[i]); err != nil {
@@ -2220,6 +2251,9 @@ func (dec *BinaryDecoder) ReadByteArray(value *[]byte) error {
 		*value = nil
 		return nil
 	}
+	if err := dec.checkLength(n); err != nil {
+		return err
+	}
 	temp := make([]byte, n)
 	if _, err := io.ReadFull(dec.r, temp); err != nil {
 		return err
@@ -2238,6 +2272,9 @@ func (dec *BinaryDecoder) ReadInt16Array(value *[]int16) error {
 		*value = nil
 		return nil
 	}
+	if err := dec.checkLength(n); err != nil {
+		return err
+	}
 	temp := make([]int16, n)
 	for i := range temp {
 		if err := dec.ReadInt16(&temp[i]); err != nil {
@@ -2258,6 +2295,9 @@ func (dec *BinaryDecoder) ReadUInt16Array(value *[]uint16) error {
 		*value = nil
 		return nil
 	}
+	if err := dec.checkLength(n); err != nil {
+		return err
+	}
 	temp := make([]uint16, n)
 	for i := range temp {
 		if err := dec.ReadUInt16(&temp[i]); err != nil {
@@ -2278,6 +2318,9 @@ func (dec *BinaryDecoder) ReadInt32Array(value *[]int32) error {
 		*value = nil
 		return nil
 	}
+	if err := dec.checkLength(n); err != nil {
+		return err
+	}
 	temp := make([]int32, n)
 	for i := range temp {
 		if err := dec.ReadInt32(&temp[i]); err != nil {
@@ -2298,6 +2341,9 @@ func (dec *BinaryDecoder) ReadUInt32Array(value *[]uint32) error {
 		*value = nil
 		return nil
 	}
+	if err := dec.checkLength(n); err != nil {
+		return err
+	}
 	temp := make([]uint32, n)
 	for i := range temp {
 		if err := dec.ReadUInt32(&temp[i]); err != nil {
@@ -2318,6 +2364,9 @@ func (dec *BinaryDecoder) ReadInt64Array(value *[]int64) error {
 		*value = nil
 		return nil
 	}
+	if err := dec.checkLength(n); err != nil {
+		return err
+	}
 	temp := make([]int64, n)
 	for i := range temp {
 		if err := dec.ReadInt64(&temp[i]); err != nil {
@@ -2338,6 +2387,9 @@ func (dec *BinaryDecoder) ReadUInt64Array(value *[]uint64) error {
 		*value = nil
 		return nil
 	}
+	if err := dec.checkLength(n); err != nil {
+		return err
+	}
 	temp := make([]uint64, n)
 	for i := range temp {
 		if err := dec.ReadUInt64(&temp[i]); err != nil {
@@ -2358,6 +2410,9 @@ func (dec *BinaryDecoder) ReadFloatArray(value *[]float32) error {
 		*value = nil
 		return nil
 	}
+	if err := dec.checkLength(n); err != nil {
+		return err
+	}
 	temp := make([]float32, n)
 	for i := range temp {
 		if err := dec.ReadFloat(&temp[i]); err != nil {
@@ -2378,6 +2433,9 @@ func (dec *BinaryDecoder) ReadDoubleArray(value *[]float64) error {
 		*value = nil
 		return nil
 	}
+	if err := dec.checkLength(n); err != nil {
+		return err
+	}
 	temp := make([]float64, n)
 	for i := range temp {
 		if err := dec.ReadDouble(&temp[i]); err != nil {
@@ -2398,6 +2456,9 @@ func (dec *BinaryDecoder) ReadStringArray(value *[]string) error {
 		*value = nil
 		return nil
 	}
+	if err := dec.checkLength(n); err != nil {
+		return err
+	}
 	temp := make([]string, n)
 	for i := range temp {
 		if err := dec.ReadString(&temp[i]); err != nil {
@@ -2418,6 +2479,9 @@ func (dec *BinaryDecoder) ReadDateTimeArray(value *[]time.Time) error {
 		*value = nil
 		return nil
 	}
+	if err := dec.checkLength(n); err != nil {
+		return err
+	}
 	temp := make([]time.Time, n)
 	for i := range temp {
 		if err := dec.ReadDateTime(&temp[i]); err != nil {
@@ -2438,6 +2502,9 @@ func (dec *BinaryDecoder) ReadGUIDArray(value *[]uuid.UUID) error {
 		*value = nil
 		return nil
 	}
+	if err := dec.checkLength(n); err != nil {
+		return err
+	}
 	temp := make([]uuid.UUID, n)
 	for i := range temp {
 		if err := dec.ReadGUID(&temp[i]); err != nil {
@@ -2458,6 +2525,9 @@ func (dec *BinaryDecoder) ReadByteStringArray(value *[]ByteString) error {
 		*value = nil
 		return nil
 	}
+	if err := dec.checkLength(n); err != nil {
+		return err
+	}
 	temp := make([]ByteString, n)
 	for i := 0; i < len(temp); i++ {
 		if err := dec.ReadByteString(&temp[i]); err != nil {
@@ -2478,6 +2548,9 @@ func (dec *BinaryDecoder) ReadXMLElementArray(value *[]XMLElement) error {
 		*value = nil
 		return nil
 	}
+	if err := dec.checkLength(n); err != nil {
+		return err
+	}
 	temp := make([]XMLElement, n)
 	for i := 0; i < len(temp); i++ {
 		if err := dec.ReadXMLElement(&temp[i]); err != nil {
@@ -2498,6 +2571,9 @@ func (dec *BinaryDecoder) ReadNodeIDArray(value *[]NodeID) error {
 		*value = nil
 		return nil
 	}
+	if err := dec.checkLength(n); err != nil {
+		return err
+	}
 	temp := make([]NodeID, n)
 	for i := range temp {
 		if err := dec.ReadNodeID(&temp[i]); err != nil {
@@ -2518,6 +2594,9 @@ func (dec *BinaryDecoder) ReadExpandedNodeIDArray(value *[]ExpandedNodeID) error
 		*value = nil
 		return nil
 	}
+	if err := dec.checkLength(n); err != nil {
+		return err
+	}
 	temp := make([]ExpandedNodeID, n)
 	for i := range temp {
 		if err := dec.ReadExpandedNodeID(&temp[i]); err != nil {
@@ -2538,6 +2617,9 @@ func (dec *BinaryDecoder) ReadStatusCodeArray(value *[]StatusCode) error {
 		*value = nil
 		return nil
 	}
+	if err := dec.checkLength(n); err != nil {
+		return err
+	}
 	temp := make([]StatusCode, n)
 	for i := range temp {
 		if err := dec.ReadStatusCode(&temp[i]); err != nil {
@@ -2558,6 +2640,9 @@ func (dec *BinaryDecoder) ReadQualifiedNameArray(value *[]QualifiedName) error {
 		*value = nil
 		return nil
 	}
+	if err := dec.checkLength(n); err != nil {
+		return err
+	}
 	temp := make([]QualifiedName, n)
 	for i := range temp {
 		if err := dec.ReadQualifiedName(&temp[i]); err != nil {
@@ -2578,6 +2663,9 @@ func (dec *BinaryDecoder) ReadLocalizedTextArray(value *[]LocalizedText) error {
 		*value = nil
 		return nil
 	}
+	if err := dec.checkLength(n); err != nil {
+		return err
+	}
 	temp := make([]LocalizedText, n)
 	for i := range temp {
 		if err := dec.ReadLocalizedText(&temp[i]); err != nil {
@@ -2598,6 +2686,9 @@ func (dec *BinaryDecoder) ReadExtensionObjectArray(value *[]ExtensionObject) err
 		*value = nil
 		return nil
 	}
+	if err := dec.checkLength(n); err != nil {
+		return err
+	}
 	temp := make([]ExtensionObject, n)
 	for i := range temp {
 		if err := dec.ReadExtensionObject(&temp[i]); err != nil {
@@ -2618,6 +2709,9 @@ func (dec *BinaryDecoder) ReadDataValueArray(value *[]DataValue) error {
 		*value = nil
 		return nil
 	}
+	if err := dec.checkLength(n); err != nil {
+		return err
+	}
 	temp := make([]DataValue, n)
 	for i := 0; i < len(temp); i++ {
 		if err := dec.ReadDataValue(&temp[i]); err != nil {
@@ -2638,6 +2732,9 @@ func (dec *BinaryDecoder) ReadVariantArray(value *[]Variant) error {
 		*value = nil
 		return nil
 	}
+	if err := dec.checkLength(n); err != nil {
+		return err
+	}
 	temp := make([]Variant, n)
 	for i := 0; i < len(temp); i++ {
 		if err := dec.ReadVariant(&temp[i]); err != nil {
@@ -2658,6 +2755,9 @@ func (dec *BinaryDecoder) ReadDiagnosticInfoArray(value *[]DiagnosticInfo) error
 		*value = nil
 		return nil
 	}
+	if err := dec.checkLength(n); err != nil {
+		return err
+	}
 	temp := make([]DiagnosticInfo, n)
 	for i := 0; i < len(temp); i++ {
 		if err := dec.ReadDiagnosticInfo(&temp[i]); err != nil {
-- 
2.43.0


From 3cd8d2b4e0117698827bd5a531ab625fe83a77c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:03 +0000
Subject: [PATCH 010/112] fix: limit the nesting of decoded values

---
 ua/binary_decoder.go | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/ua/binary_decoder.go b/ua/binary_decoder.go
index e61648d..0cda2ce 100644
--- a/ua/binary_decoder.go
+++ b/ua/binary_decoder.go
@@ -24,11 +24,16 @@ type BinaryDecoder struct {
 	r  io.Reader
 	ec EncodingContext
 	bs [8]byte
+	// depth is the current level of nesting.
+	depth int
 }
 
+// maxNesting is the number of levels that Variants, DataValues, ExtensionObjects and DiagnosticInfos may be nested.
+const maxNesting = 100
+
 // NewBinaryDecoder returns a new decoder that reads from an io.Reader.
 func NewBinaryDecoder(r io.Reader, ec EncodingContext) *BinaryDecoder {
-	return &BinaryDecoder{r, ec, [8]byte{}}
+	return &BinaryDecoder{r, ec, [8]byte{}, 0}
 }
 
 type decoderFunc func(*BinaryDecoder, unsafe.Pointer) error
@@ -794,6 +799,11 @@ func (dec *BinaryDecoder) ReadLocalizedText(value *LocalizedText) error {
 
 // ReadExtensionObject reads an Extensionobject.
 func (dec *BinaryDecoder) ReadExtensionObject(value *ExtensionObject) error {
+	if dec.depth >= maxNesting {
+		return BadDecodingError
+	}
+	dec.depth++
+	defer func() { dec.depth-- }()
 	var nodeID NodeID
 	if err := dec.ReadNodeID(&nodeID); err != nil {
 		return BadDecodingError
@@ -841,6 +851,11 @@ func (dec *BinaryDecoder) ReadExtensionObject(value *ExtensionObject) error {
 
 // ReadDataValue reads a DataValue.
 func (dec *BinaryDecoder) ReadDataValue(value *DataValue) error {
+	if dec.depth >= maxNesting {
+		return BadDecodingError
+	}
+	dec.depth++
+	defer func() { dec.depth-- }()
 	var (
 		v                 Variant
 		statusCode        StatusCode
@@ -891,6 +906,11 @@ func (dec *BinaryDecoder) ReadDataValue(value *DataValue) error {
 
 // ReadVariant reads a Variant.
 func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
+	if dec.depth >= maxNesting {
+		return BadDecodingError
+	}
+	dec.depth++
+	defer func() { dec.depth-- }()
 	var b byte
 	if err := dec.ReadByte(&b); err != nil {
 		return BadDecodingError
@@ -2144,6 +2164,11 @@ func split(level, i, j int, dims []int, vals reflect.Value) reflect.Value {
 
 // ReadDiagnosticInfo reads a DiagnosticInfo.
 func (dec *BinaryDecoder) ReadDiagnosticInfo(value *DiagnosticInfo) error {
+	if dec.depth >= maxNesting {
+		return BadDecodingError
+	}
+	dec.depth++
+	defer func() { dec.depth-- }()
 	result := DiagnosticInfo{}
 	var b byte
 	if err := dec.ReadByte(&b); err != nil {
-- 
2.43.0


From 8a2d0771220bbbb5f8f0307b763707ad8007124a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:35 +0000
Subject: [PATCH 011/112] fix: report truncated and malformed Variants in
 DataValues instead of continuing out of step

---
 ua/binary_decoder.go | 66 +++++++++++++++++++++++++-------------------
 1 file changed, 37 insertions(+), 29 deletions(-)

diff --git a/ua/binary_decoder.go b/ua/binary_decoder.go
index 0cda2ce..7856f0f 100644
--- a/ua/binary_decoder.go
+++ b/ua/binary_decoder.go
@@ -863,6 +863,7 @@ func (dec *BinaryDecoder) ReadDataValue(value *DataValue) error {
 		sourcePicoseconds uint16
 		serverTimestamp   time.Time
 		serverPicoseconds uint16
+		unsupported       bool
 		err               error
 	)
 	var b byte
@@ -870,16 +871,23 @@ func (dec *BinaryDecoder) ReadDataValue(value *DataValue) error {
 		return BadDecodingError
 	}
 	if (b & 1) != 0 {
-		if err := dec.ReadVariant(&v); err != nil {
-			// return BadDecodingError
-			statusCode = BadDataTypeIDUnknown
+		switch err := dec.ReadVariant(&v); err {
+		case nil:
+		case BadDataTypeIDUnknown:
+			// the value was read but can not be represented
+			unsupported = true
+		default:
+			return BadDecodingError
 		}
 	}
-	if (b&2) != 0 && statusCode == 0 {
+	if (b & 2) != 0 {
 		if err := dec.ReadStatusCode(&statusCode); err != nil {
 			return BadDecodingError
 		}
 	}
+	if unsupported {
+		statusCode = BadDataTypeIDUnknown
+	}
 	if (b & 4) != 0 {
 		if err = dec.ReadDateTime(&sourceTimestamp); err != nil {
 			return BadDecodingError
@@ -1373,7 +1381,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			*value = res
 			return nil
 		}
-		return BadDecodingError
+		return BadDataTypeIDUnknown
 
 	case VariantTypeSByte:
 		var vals []int8
@@ -1403,7 +1411,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			*value = res
 			return nil
 		}
-		return BadDecodingError
+		return BadDataTypeIDUnknown
 
 	case VariantTypeByte:
 		var vals []byte
@@ -1433,7 +1441,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			*value = res
 			return nil
 		}
-		return BadDecodingError
+		return BadDataTypeIDUnknown
 
 	case VariantTypeInt16:
 		var vals []int16
@@ -1463,7 +1471,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			*value = res
 			return nil
 		}
-		return BadDecodingError
+		return BadDataTypeIDUnknown
 
 	case VariantTypeUInt16:
 		var vals []uint16
@@ -1493,7 +1501,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			*value = res
 			return nil
 		}
-		return BadDecodingError
+		return BadDataTypeIDUnknown
 
 	case VariantTypeInt32:
 		var vals []int32
@@ -1523,7 +1531,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			*value = res
 			return nil
 		}
-		return BadDecodingError
+		return BadDataTypeIDUnknown
 
 	case VariantTypeUInt32:
 		var vals []uint32
@@ -1553,7 +1561,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			*value = res
 			return nil
 		}
-		return BadDecodingError
+		return BadDataTypeIDUnknown
 
 	case VariantTypeInt64:
 		var vals []int64
@@ -1583,7 +1591,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			*value = res
 			return nil
 		}
-		return BadDecodingError
+		return BadDataTypeIDUnknown
 
 	case VariantTypeUInt64:
 		var vals []uint64
@@ -1613,7 +1621,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			*value = res
 			return nil
 		}
-		return BadDecodingError
+		return BadDataTypeIDUnknown
 
 	case VariantTypeFloat:
 		var vals []float32
@@ -1643,7 +1651,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			*value = res
 			return nil
 		}
-		return BadDecodingError
+		return BadDataTypeIDUnknown
 
 	case VariantTypeDouble:
 		var vals []float64
@@ -1673,7 +1681,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			*value = res
 			return nil
 		}
-		return BadDecodingError
+		return BadDataTypeIDUnknown
 
 	case VariantTypeString:
 		var vals []string
@@ -1703,7 +1711,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			*value = res
 			return nil
 		}
-		return BadDecodingError
+		return BadDataTypeIDUnknown
 
 	case VariantTypeDateTime:
 		var vals []time.Time
@@ -1733,7 +1741,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			*value = res
 			return nil
 		}
-		return BadDecodingError
+		return BadDataTypeIDUnknown
 
 	case VariantTypeGUID:
 		var vals []uuid.UUID
@@ -1763,7 +1771,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			*value = res
 			return nil
 		}
-		return BadDecodingError
+		return BadDataTypeIDUnknown
 
 	case VariantTypeByteString:
 		var vals []ByteString
@@ -1793,7 +1801,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			*value = res
 			return nil
 		}
-		return BadDecodingError
+		return BadDataTypeIDUnknown
 
 	case VariantTypeXMLElement:
 		var vals []XMLElement
@@ -1823,7 +1831,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			*value = res
 			return nil
 		}
-		return BadDecodingError
+		return BadDataTypeIDUnknown
 
 	case VariantTypeNodeID:
 		var vals []NodeID
@@ -1853,7 +1861,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			*value = res
 			return nil
 		}
-		return BadDecodingError
+		return BadDataTypeIDUnknown
 
 	case VariantTypeExpandedNodeID:
 		var vals []ExpandedNodeID
@@ -1883,7 +1891,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			*value = res
 			return nil
 		}
-		return BadDecodingError
+		return BadDataTypeIDUnknown
 
 	case VariantTypeStatusCode:
 		var vals []StatusCode
@@ -1913,7 +1921,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			*value = res
 			return nil
 		}
-		return BadDecodingError
+		return BadDataTypeIDUnknown
 
 	case VariantTypeQualifiedName:
 		var vals []QualifiedName
@@ -1943,7 +1951,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			*value = res
 			return nil
 		}
-		return BadDecodingError
+		return BadDataTypeIDUnknown
 
 	case VariantTypeLocalizedText:
 		var vals []LocalizedText
@@ -1973,7 +1981,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			*value = res
 			return nil
 		}
-		return BadDecodingError
+		return BadDataTypeIDUnknown
 
 	case VariantTypeExtensionObject:
 		var vals []ExtensionObject
@@ -2003,7 +2011,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			*value = res
 			return nil
 		}
-		return BadDecodingError
+		return BadDataTypeIDUnknown
 
 	case VariantTypeDataValue:
 		var vals []DataValue
@@ -2033,7 +2041,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			*value = res
 			return nil
 		}
-		return BadDecodingError
+		return BadDataTypeIDUnknown
 
 	case VariantTypeVariant:
 		var vals []Variant
@@ -2063,7 +2071,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			*value = res
 			return nil
 		}
-		return BadDecodingError
+		return BadDataTypeIDUnknown
 
 	case VariantTypeDiagnosticInfo:
 		var vals []DiagnosticInfo
@@ -2093,7 +2101,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			*value = res
 			return nil
 		}
-		return BadDecodingError
+		return BadDataTypeIDUnknown
 
 	default:
 		return BadDecodingError
-- 
2.43.0


From 124e723cfc4e9a3ec20bb1fa4a34ca64a5a8f78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:15 +0000
Subject: [PATCH 012/112] fix: parse a QualifiedName with an out of range
 namespace index as a plain name

---
 ua/qualified_name.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ua/qualified_name.go b/ua/qualified_name.go
index fe8ae8b..6cf79f7 100644
--- a/ua/qualified_name.go
+++ b/ua/qualified_name.go
@@ -28,7 +28,7 @@ func ParseQualifiedName(s string) QualifiedName {
 	}
 	ns, err := strconv.ParseUint(s[:pos], 10, 16)
 	if err != nil {
-		return QualifiedName{uint16(ns), s}
+		return QualifiedName{0, s}
 	}
 	s = s[pos+1:]
 	return QualifiedName{uint16(ns), s}
-- 
2.43.0


From b2dd4d051dd7d07d98cba2c1424335f74e446390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:21 +0000
Subject: [PATCH 013/112] fix: escape ';' and '%' in the namespace URI of
 ExpandedNodeID text

---
 ua/expanded_nodeid.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ua/expanded_nodeid.go b/ua/expanded_nodeid.go
index 395279a..a7ad1ae 100644
--- a/ua/expanded_nodeid.go
+++ b/ua/expanded_nodeid.go
@@ -22,6 +22,12 @@ func NewExpandedNodeID(nodeID NodeID) ExpandedNodeID {
 // NilExpandedNodeID is the nil value.
 var NilExpandedNodeID = ExpandedNodeID{0, "", nil}
 
+// The characters ';' and '%' of a NamespaceURI are escaped, see part6 5.3.1.11.
+var (
+	nsuEscaper   = strings.NewReplacer("%", "%25", ";", "%3B")
+	nsuUnescaper = strings.NewReplacer("%25", "%", "%3B", ";", "%3b", ";")
+)
+
 // ParseExpandedNodeID returns a NodeID from a string representation.
 //   - ParseExpandedNodeID("i=85") // integer, assumes nsu=http://opcfoundation.org/UA/
 //   - ParseExpandedNodeID("nsu=http://www.unifiedautomation.com/DemoServer/;s=Demo.Static.Scalar.Float") // string
@@ -50,7 +56,7 @@ func ParseExpandedNodeID(s string) ExpandedNodeID {
 			return NilExpandedNodeID
 		}
 
-		nsu = s[4:pos]
+		nsu = nsuUnescaper.Replace(s[4:pos])
 		s = s[pos+1:]
 	}
 
@@ -64,7 +70,7 @@ func (n ExpandedNodeID) String() string {
 		fmt.Fprintf(b, "svr=%d;", n.ServerIndex)
 	}
 	if len(n.NamespaceURI) > 0 {
-		fmt.Fprintf(b, "nsu=%s;", n.NamespaceURI)
+		fmt.Fprintf(b, "nsu=%s;", nsuEscaper.Replace(n.NamespaceURI))
 	}
 	switch n2 := n.NodeID.(type) {
 	case NodeIDNumeric:
-- 
2.43.0


From 779de5ed2c123ea4ca77f30765677009c613f382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:55 +0000
Subject: [PATCH 014/112] fix: refuse to write a value of another type to an
 index range instead of panicking

---
 server/server_service_set.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/server/server_service_set.go b/server/server_service_set.go
index a309b18..a49cd8c 100644
--- a/server/server_service_set.go
+++ b/server/server_service_set.go
@@ -2973,6 +2973,9 @@ func writeRange(source ua.DataValue, value ua.DataValue, indexRange string) (ua.
 	if indexRange == "" {
 		return ua.NewDataValue(value.Value, value.StatusCode, time.Now(), 0, time.Now(), 0), ua.Good
 	}
+	if reflect.TypeOf(value.Value) != reflect.TypeOf(source.Value) {
+		return ua.NilDataValue, ua.BadTypeMismatch
+	}
 	ranges := strings.Split(indexRange, ",")
 	switch src := source.Value.(type) {
 	case string:
-- 
2.43.0


From 3e01d721fc591700d35ade30b9d82ae3308a7744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:11 +0000
Subject: [PATCH 015/112] fix: check data type and rank of multi-dimensional
 arrays and structures written to variables

---
 server/server_service_set.go | 91 ++++++++++++++++++++++++++++++------
 1 file changed, 76 insertions(+), 15 deletions(-)

diff --git a/server/server_service_set.go b/server/server_service_set.go
index a49cd8c..683d471 100644
--- a/server/server_service_set.go
+++ b/server/server_service_set.go
@@ -6005,24 +6005,24 @@ func (srv *Server) writeValue(session *Session, writeValue ua.WriteValue) ua.Sta
 					return ua.BadTypeMismatch
 				}
 			default:
-				switch v3 := reflect.ValueOf(v2); v3.Kind() {
-				case reflect.Struct:
-					// case ua.ExtensionObject:
-					if destType != ua.VariantTypeExtensionObject && destType != ua.VariantTypeVariant {
-						return ua.BadTypeMismatch
-					}
-					if destRank != ua.ValueRankScalar && destRank != ua.ValueRankScalarOrOneDimension && destRank != ua.ValueRankAny {
-						return ua.BadTypeMismatch
-					}
-				case reflect.Slice, reflect.Array:
-					//TODO: check destType
-					if destRank == ua.ValueRankScalar {
-						return ua.BadTypeMismatch
-					}
+				// case scalar ExtensionObject, or multi-dimensional array
+				elem, dims := reflect.TypeOf(v2), int32(0)
+				for elem.Kind() == reflect.Slice {
+					elem = elem.Elem()
+					dims++
+				}
+				if srcType, ok := variantTypeOf(elem); !ok || (destType != srcType && destType != ua.VariantTypeVariant) {
+					return ua.BadTypeMismatch
+				}
+				switch {
+				case destRank == ua.ValueRankAny:
+				case destRank == dims && dims >= 1:
+				case destRank == ua.ValueRankOneOrMoreDimensions && dims >= 1:
+				case destRank == ua.ValueRankScalarOrOneDimension && dims <= 1:
+				case destRank == ua.ValueRankScalar && dims == 0:
 				default:
 					return ua.BadTypeMismatch
 				}
-
 			}
 
 			if f := n1.writeValueHandler; f != nil {
@@ -6062,6 +6062,67 @@ func (srv *Server) writeValue(session *Session, writeValue ua.WriteValue) ua.Sta
 	}
 }
 
+// variantTypeOf returns the VariantType that holds values of the given type.
+func variantTypeOf(typ reflect.Type) (byte, bool) {
+	switch typ {
+	case reflect.TypeOf(uuid.UUID{}):
+		return ua.VariantTypeGUID, true
+	case reflect.TypeOf(time.Time{}):
+		return ua.VariantTypeDateTime, true
+	case reflect.TypeOf(ua.ByteString("")):
+		return ua.VariantTypeByteString, true
+	case reflect.TypeOf(ua.XMLElement("")):
+		return ua.VariantTypeXMLElement, true
+	case reflect.TypeOf((*ua.NodeID)(nil)).Elem():
+		return ua.VariantTypeNodeID, true
+	case reflect.TypeOf(ua.ExpandedNodeID{}):
+		return ua.VariantTypeExpandedNodeID, true
+	case reflect.TypeOf(ua.StatusCode(0)):
+		return ua.VariantTypeStatusCode, true
+	case reflect.TypeOf(ua.QualifiedName{}):
+		return ua.VariantTypeQualifiedName, true
+	case reflect.TypeOf(ua.LocalizedText{}):
+		return ua.VariantTypeLocalizedText, true
+	case reflect.TypeOf((*ua.ExtensionObject)(nil)).Elem():
+		return ua.VariantTypeExtensionObject, true
+	case reflect.TypeOf(ua.DataValue{}):
+		return ua.VariantTypeDataValue, true
+	case reflect.TypeOf((*ua.Variant)(nil)).Elem():
+		return ua.VariantTypeVariant, true
+	case reflect.TypeOf(ua.DiagnosticInfo{}):
+		return ua.VariantTypeDiagnosticInfo, true
+	}
+	switch typ.Kind() {
+	case reflect.Bool:
+		return ua.VariantTypeBoolean, true
+	case reflect.Int8:
+		return ua.VariantTypeSByte, true
+	case reflect.Uint8:
+		return ua.VariantTypeByte, true
+	case reflect.Int16:
+		return ua.VariantTypeInt16, true
+	case reflect.Uint16:
+		return ua.VariantTypeUInt16, true
+	case reflect.Int32:
+		return ua.VariantTypeInt32, true
+	case reflect.Uint32:
+		return ua.VariantTypeUInt32, true
+	case reflect.Int64:
+		return ua.VariantTypeInt64, true
+	case reflect.Uint64:
+		return ua.VariantTypeUInt64, true
+	case reflect.Float32:
+		return ua.VariantTypeFloat, true
+	case reflect.Float64:
+		return ua.VariantTypeDouble, true
+	case reflect.String:
+		return ua.VariantTypeString, true
+	case reflect.Struct:
+		return ua.VariantTypeExtensionObject, true
+	}
+	return ua.VariantTypeNull, false
+}
+
 // readValue returns the value of the attribute.
 func (srv *Server) readValue(session *Session, readValueId ua.ReadValueID) ua.DataValue {
 	if session == nil {
-- 
2.43.0


From fc63195f74e9b2066a7dfa0e76e2d7efa9fda554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:13 +0000
Subject: [PATCH 016/112] fix: check values written to variables of abstract
 data types

---
 server/server_service_set.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/server/server_service_set.go b/server/server_service_set.go
index 683d471..1c4079d 100644
--- a/server/server_service_set.go
+++ b/server/server_service_set.go
@@ -6025,6 +6025,18 @@ func (srv *Server) writeValue(session *Session, writeValue ua.WriteValue) ua.Sta
 				}
 			}
 
+			// check abstract data type, e.g. Number
+			if v2 := writeValue.Value.Value; v2 != nil && destType == ua.VariantTypeVariant && n1.DataType() != ua.DataTypeIDBaseDataType {
+				elem := reflect.TypeOf(v2)
+				for elem.Kind() == reflect.Slice {
+					elem = elem.Elem()
+				}
+				srcType, ok := variantTypeOf(elem)
+				if !ok || !srv.NamespaceManager().IsSubtype(ua.NewNodeIDNumeric(0, uint32(srcType)), n1.DataType()) {
+					return ua.BadTypeMismatch
+				}
+			}
+
 			if f := n1.writeValueHandler; f != nil {
 				result, status := f(session, writeValue)
 				if status == ua.Good {
-- 
2.43.0


From 82a11f34c86a5c0db9ba278e49595cd8150d3b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:15 +0000
Subject: [PATCH 017/112] fix: write to an index range atomically so that
 concurrent writes are not lost

---
 server/server_service_set.go | 6 ++++--
 server/variable_node.go      | 5 +++++
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/server/server_service_set.go b/server/server_service_set.go
index 1c4079d..ea7f42f 100644
--- a/server/server_service_set.go
+++ b/server/server_service_set.go
@@ -6044,9 +6044,11 @@ func (srv *Server) writeValue(session *Session, writeValue ua.WriteValue) ua.Sta
 				}
 				return status
 			} else {
-				result, status := writeRange(n1.Value(), writeValue.Value, writeValue.IndexRange)
+				n1.Lock()
+				defer n1.Unlock()
+				result, status := writeRange(n1.value, writeValue.Value, writeValue.IndexRange)
 				if status == ua.Good {
-					n1.SetValue(result)
+					n1.setValue(result)
 				}
 				return status
 			}
diff --git a/server/variable_node.go b/server/variable_node.go
index 57a526f..723f119 100644
--- a/server/variable_node.go
+++ b/server/variable_node.go
@@ -130,6 +130,11 @@ func (n *VariableNode) Value() ua.DataValue {
 func (n *VariableNode) SetValue(value ua.DataValue) {
 	n.Lock()
 	defer n.Unlock()
+	n.setValue(value)
+}
+
+// setValue sets the value of the Variable. The caller holds the lock.
+func (n *VariableNode) setValue(value ua.DataValue) {
 	n.value = value
 	if n.historizing {
 		n.historian.WriteValue(context.Background(), n.nodeId, value)
-- 
2.43.0


From fdb3454c824bd2424e8f32a01085951cda1b3742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:18 +0000
Subject: [PATCH 018/112] fix: set the value of a historizing variable without
 historian instead of panicking

---
 server/variable_node.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/variable_node.go b/server/variable_node.go
index 723f119..f940182 100644
--- a/server/variable_node.go
+++ b/server/variable_node.go
@@ -136,7 +136,7 @@ func (n *VariableNode) SetValue(value ua.DataValue) {
 // setValue sets the value of the Variable. The caller holds the lock.
 func (n *VariableNode) setValue(value ua.DataValue) {
 	n.value = value
-	if n.historizing {
+	if n.historizing && n.historian != nil {
 		n.historian.WriteValue(context.Background(), n.nodeId, value)
 	}
 }
-- 
2.43.0


From d930377ad044e45af19ec356886b561ef3f6c21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:24 +0000
Subject: [PATCH 019/112] fix: read the ServerDiagnosticsSummary instead of
 closing the channel

---
 server/server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/server.go b/server/server.go
index 1084098..9c5251e 100644
--- a/server/server.go
+++ b/server/server.go
@@ -742,7 +742,7 @@ func (srv *Server) initializeNamespace() error {
 	}
 	if n, ok := nm.FindVariable(ua.VariableIDServerServerDiagnosticsServerDiagnosticsSummary); ok {
 		n.SetReadValueHandler(func(session *Session, req ua.ReadValueID) ua.DataValue {
-			return ua.NewDataValue(srv.serverDiagnosticsSummary, 0, time.Now(), 0, time.Now(), 0)
+			return ua.NewDataValue(*srv.serverDiagnosticsSummary, 0, time.Now(), 0, time.Now(), 0)
 		})
 	}
 	if n, ok := nm.FindVariable(ua.VariableIDServerServerDiagnosticsServerDiagnosticsSummaryCumulatedSessionCount); ok {
-- 
2.43.0


From 3a43647634c7c091a90fe939b0ecb0c522c1c9af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:46 +0000
Subject: [PATCH 020/112] fix: refuse browse continuation points of the wrong
 length instead of panicking

---
 server/session.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/session.go b/server/session.go
index 3f63c06..d5bcf9a 100644
--- a/server/session.go
+++ b/server/session.go
@@ -359,7 +359,7 @@ func (s *Session) addBrowseContinuationPoint(data []ua.ReferenceDescription, max
 }
 
 func (s *Session) removeBrowseContinuationPoint(cp []byte) ([]ua.ReferenceDescription, int, bool) {
-	if cp == nil {
+	if len(cp) != 4 {
 		return nil, 0, false
 	}
 	s.Lock()
-- 
2.43.0


From d367d44a1645ef248ad03412215afac4cdeb5f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:46 +0000
Subject: [PATCH 021/112] fix: browse the other references of a node when the
 target of one does not exist

---
 server/server_service_set.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/server/server_service_set.go b/server/server_service_set.go
index ea7f42f..2d860b5 100644
--- a/server/server_service_set.go
+++ b/server/server_service_set.go
@@ -1255,9 +1255,7 @@ func (srv *Server) handleBrowse(ch *serverSecureChannel, requestid uint32, req *
 				}
 				t, ok := m.FindNode(ua.ToNodeID(r.TargetID, srv.NamespaceUris()))
 				if !ok {
-					results[i] = ua.BrowseResult{StatusCode: ua.BadNodeIDUnknown}
-					wg.Done()
-					return
+					continue
 				}
 				rp2 := t.UserRolePermissions(session.UserIdentity())
 				if !IsUserPermitted(rp2, ua.PermissionTypeBrowse) {
-- 
2.43.0


From 00d4f57427cda51eb1b425072fdca8ae0051ce2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:09 +0000
Subject: [PATCH 022/112] fix: follow every matching target of a browse path
 element, not only the first

---
 server/server_service_set.go | 60 +++++++++++++++++-------------------
 1 file changed, 28 insertions(+), 32 deletions(-)

diff --git a/server/server_service_set.go b/server/server_service_set.go
index 2d860b5..49f75b6 100644
--- a/server/server_service_set.go
+++ b/server/server_service_set.go
@@ -1979,41 +1979,37 @@ func (srv *Server) handleUnregisterNodes(ch *serverSecureChannel, requestid uint
 func (srv *Server) follow(nodeID ua.NodeID, elements []ua.RelativePathElement) ([]ua.BrowsePathTarget, error) {
 	if len(elements) == 0 {
 		return nil, ua.BadNothingToDo
-	} else if len(elements) == 1 {
-		ns, err2 := srv.target(nodeID, elements[0])
-		if err2 != nil {
-			return nil, err2
-		}
-		targets := make([]ua.BrowsePathTarget, len(ns))
-		for i, n := range ns {
-			targets[i] = ua.BrowsePathTarget{TargetID: n, RemainingPathIndex: math.MaxUint32}
-		}
-		return targets, nil
-	} else {
-		e := elements[0]
-		ns2, err3 := srv.target(nodeID, e)
-		if err3 != nil {
-			return nil, err3
-		}
-		var nextID ua.ExpandedNodeID
-		if len(ns2) > 0 {
-			nextID = ns2[0]
-		}
-		nextElements := make([]ua.RelativePathElement, len(elements)-1)
-		copy(nextElements, elements[1:])
-		nextNode, ok := srv.NamespaceManager().FindNode(ua.ToNodeID(nextID, srv.NamespaceUris()))
-		if ok {
-			return srv.follow(nextNode.NodeID(), nextElements)
+	}
+	uris := srv.NamespaceUris()
+	targetIDs, err := srv.target(nodeID, elements[0])
+	if err != nil {
+		return nil, err
+	}
+	for _, element := range elements[1:] {
+		nextIDs := make([]ua.ExpandedNodeID, 0, 4)
+		seen := make(map[ua.ExpandedNodeID]struct{})
+		for _, id := range targetIDs {
+			ids, err := srv.target(ua.ToNodeID(id, uris), element)
+			if err != nil {
+				continue
+			}
+			for _, id := range ids {
+				if _, ok := seen[id]; !ok {
+					seen[id] = struct{}{}
+					nextIDs = append(nextIDs, id)
+				}
+			}
 		}
-		if len(nextElements) == 0 {
-			return []ua.BrowsePathTarget{
-				{TargetID: nextID, RemainingPathIndex: math.MaxUint32},
-			}, nil
+		if len(nextIDs) == 0 {
+			return nil, ua.BadNoMatch
 		}
-		return []ua.BrowsePathTarget{
-			{TargetID: nextID, RemainingPathIndex: uint32(len(nextElements))},
-		}, nil
+		targetIDs = nextIDs
+	}
+	targets := make([]ua.BrowsePathTarget, len(targetIDs))
+	for i, id := range targetIDs {
+		targets[i] = ua.BrowsePathTarget{TargetID: id, RemainingPathIndex: math.MaxUint32}
 	}
+	return targets, nil
 }
 
 // target returns a slice of target nodeid's that match the given RelativePathElement
-- 
2.43.0


From 49fea57c2d543980fab72162c425acf47fb67971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:09 +0000
Subject: [PATCH 023/112] fix: translate browse paths only through nodes the
 user may browse

---
 server/server_service_set.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/server/server_service_set.go b/server/server_service_set.go
index 49f75b6..e58d818 100644
--- a/server/server_service_set.go
+++ b/server/server_service_set.go
@@ -1668,7 +1668,7 @@ func (srv *Server) handleTranslateBrowsePathsToNodeIds(ch *serverSecureChannel,
 					return
 				}
 			}
-			targets, err1 := srv.follow(d.StartingNode, d.RelativePath.Elements)
+			targets, err1 := srv.follow(session, d.StartingNode, d.RelativePath.Elements)
 			if err1 == ua.BadNodeIDUnknown {
 				results[i] = ua.BrowsePathResult{StatusCode: ua.BadNodeIDUnknown, Targets: []ua.BrowsePathTarget{}}
 				wg.Done()
@@ -1976,12 +1976,12 @@ func (srv *Server) handleUnregisterNodes(ch *serverSecureChannel, requestid uint
 	return nil
 }
 
-func (srv *Server) follow(nodeID ua.NodeID, elements []ua.RelativePathElement) ([]ua.BrowsePathTarget, error) {
+func (srv *Server) follow(session *Session, nodeID ua.NodeID, elements []ua.RelativePathElement) ([]ua.BrowsePathTarget, error) {
 	if len(elements) == 0 {
 		return nil, ua.BadNothingToDo
 	}
 	uris := srv.NamespaceUris()
-	targetIDs, err := srv.target(nodeID, elements[0])
+	targetIDs, err := srv.target(session, nodeID, elements[0])
 	if err != nil {
 		return nil, err
 	}
@@ -1989,7 +1989,7 @@ func (srv *Server) follow(nodeID ua.NodeID, elements []ua.RelativePathElement) (
 		nextIDs := make([]ua.ExpandedNodeID, 0, 4)
 		seen := make(map[ua.ExpandedNodeID]struct{})
 		for _, id := range targetIDs {
-			ids, err := srv.target(ua.ToNodeID(id, uris), element)
+			ids, err := srv.target(session, ua.ToNodeID(id, uris), element)
 			if err != nil {
 				continue
 			}
@@ -2013,7 +2013,7 @@ func (srv *Server) follow(nodeID ua.NodeID, elements []ua.RelativePathElement) (
 }
 
 // target returns a slice of target nodeid's that match the given RelativePathElement
-func (srv *Server) target(nodeID ua.NodeID, element ua.RelativePathElement) ([]ua.ExpandedNodeID, error) {
+func (srv *Server) target(session *Session, nodeID ua.NodeID, element ua.RelativePathElement) ([]ua.ExpandedNodeID, error) {
 	referenceTypeID := element.ReferenceTypeID
 	includeSubtypes := element.IncludeSubtypes
 	isInverse := element.IsInverse
@@ -2023,6 +2023,9 @@ func (srv *Server) target(nodeID ua.NodeID, element ua.RelativePathElement) ([]u
 	if !ok {
 		return nil, ua.BadNodeIDUnknown
 	}
+	if !IsUserPermitted(node.UserRolePermissions(session.UserIdentity()), ua.PermissionTypeBrowse) {
+		return nil, ua.BadNodeIDUnknown
+	}
 	refs := node.References()
 	targets := make([]ua.ExpandedNodeID, 0, 4)
 	for _, r := range refs {
@@ -2039,6 +2042,9 @@ func (srv *Server) target(nodeID ua.NodeID, element ua.RelativePathElement) ([]u
 		if !(targetName == t.BrowseName()) {
 			continue
 		}
+		if !IsUserPermitted(t.UserRolePermissions(session.UserIdentity()), ua.PermissionTypeBrowse) {
+			continue
+		}
 		targets = append(targets, r.TargetID)
 	}
 	if len(targets) == 0 {
-- 
2.43.0


From 819267e9ad4d9c918c9153a7490955f5a5c1c1c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:24 +0000
Subject: [PATCH 024/112] fix: visit each child once so that deleting nodes in
 a cycle terminates

---
 server/namespace_manager.go | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/server/namespace_manager.go b/server/namespace_manager.go
index 7b878d2..5596e77 100644
--- a/server/namespace_manager.go
+++ b/server/namespace_manager.go
@@ -574,21 +574,19 @@ func (m *NamespaceManager) GetSubTypes(node Node) []Node {
 // GetChildren traverses the tree to get all target nodes with the given reference types.
 func (m *NamespaceManager) GetChildren(node Node, uris []string, withRefTypes []ua.NodeID) []Node {
 	children := []Node{}
-	type queuedItem struct {
-		Node    Node
-		Visited bool
-	}
-	queue := deque.Deque[queuedItem]{}
-	queue.PushBack(queuedItem{node, false})
+	visited := map[ua.NodeID]struct{}{node.NodeID(): {}}
+	queue := deque.Deque[Node]{}
+	queue.PushBack(node)
 	for queue.Len() > 0 {
 		item := queue.PopFront()
-		if item.Visited {
-			continue
-		}
-		for _, r := range item.Node.References() {
+		for _, r := range item.References() {
 			if !r.IsInverse && (withRefTypes == nil || Contains(withRefTypes, r.ReferenceTypeID)) {
 				if target, ok := m.nodes[ua.ToNodeID(r.TargetID, uris)]; ok {
-					queue.PushBack(queuedItem{target, false})
+					if _, ok := visited[target.NodeID()]; ok {
+						continue
+					}
+					visited[target.NodeID()] = struct{}{}
+					queue.PushBack(target)
 					children = append(children, target)
 				}
 			}
-- 
2.43.0


From 47d4db31d29aa5ceb40819418020af453c0410ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:26 +0000
Subject: [PATCH 025/112] fix: count only the nodes that a recursive delete
 removed

---
 server/namespace_manager.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/server/namespace_manager.go b/server/namespace_manager.go
index 5596e77..4c68d41 100644
--- a/server/namespace_manager.go
+++ b/server/namespace_manager.go
@@ -535,23 +535,25 @@ func (m *NamespaceManager) DeleteNodeByIDRecursive(nodeId ua.NodeID) (int, error
 	children := m.GetChildren(node, m.namespaces, hasChildandSubtypes)
 
 	// Delete all children first
+	count := 0
 	for _, child := range children {
 		// Check if child is also protected (safety check)
 		if m.isProtectedNode(child.NodeID()) {
 			continue // Skip protected children
 		}
 		if err := m.deleteNodeandInverseReferences(child, m.namespaces); err != nil {
-			return len(children), err
+			return count, err
 		}
+		count++
 	}
 
 	// Delete the parent node
 	if err := m.deleteNodeandInverseReferences(node, m.namespaces); err != nil {
-		return len(children), err
+		return count, err
 	}
 
 	// Return count including the parent node
-	return len(children) + 1, nil
+	return count + 1, nil
 }
 
 // GetSubTypes traverses the tree to get all target nodes with HasSubtype reference type.
-- 
2.43.0


From b0c2e59c491e11dc98156b89c8f1573b6e8d9a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:28 +0000
Subject: [PATCH 026/112] fix: return the subtypes of a type instead of looping
 for ever

---
 server/namespace_manager.go | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/server/namespace_manager.go b/server/namespace_manager.go
index 4c68d41..0162cdb 100644
--- a/server/namespace_manager.go
+++ b/server/namespace_manager.go
@@ -558,19 +558,9 @@ func (m *NamespaceManager) DeleteNodeByIDRecursive(nodeId ua.NodeID) (int, error
 
 // GetSubTypes traverses the tree to get all target nodes with HasSubtype reference type.
 func (m *NamespaceManager) GetSubTypes(node Node) []Node {
-	children := []Node{}
-	queue := deque.Deque[Node]{}
-	queue.PushBack(node)
-	for queue.Len() > 0 {
-		node := queue.PopFront()
-		for _, r := range node.References() {
-			if !r.IsInverse && r.ReferenceTypeID == ua.ReferenceTypeIDHasSubtype {
-				queue.PushBack(node)
-				children = append(children, node)
-			}
-		}
-	}
-	return children
+	m.RLock()
+	defer m.RUnlock()
+	return m.GetChildren(node, m.namespaces, []ua.NodeID{ua.ReferenceTypeIDHasSubtype})
 }
 
 // GetChildren traverses the tree to get all target nodes with the given reference types.
-- 
2.43.0


From ebc9de35184e81ab24ca44e6af110180bbe81d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:30 +0000
Subject: [PATCH 027/112] fix: end the search for a variant type when data
 types form a cycle

---
 server/namespace_manager.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/server/namespace_manager.go b/server/namespace_manager.go
index 0162cdb..4847531 100644
--- a/server/namespace_manager.go
+++ b/server/namespace_manager.go
@@ -189,7 +189,12 @@ func (m *NamespaceManager) FindVariantType(dataType ua.NodeID) byte {
 	}
 	m.RUnlock()
 	t := dataType
-	for {
+	for i := 0; ; i++ {
+		if i > 100 {
+			log.Printf("FindVariantType() exceeded limits.\n")
+			vt = ua.VariantTypeNull
+			goto exit
+		}
 		switch t {
 		case ua.DataTypeIDBoolean:
 			vt = ua.VariantTypeBoolean
-- 
2.43.0


From 309c14172f2d43ca9c36b9e6c0c77c6b97752c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:55 +0000
Subject: [PATCH 028/112] fix: add the inverse reference when the target is
 added after the source

---
 server/namespace_manager.go | 44 +++++++++++++++++++++++++++++++++++--
 1 file changed, 42 insertions(+), 2 deletions(-)

diff --git a/server/namespace_manager.go b/server/namespace_manager.go
index 4847531..0c7cecd 100644
--- a/server/namespace_manager.go
+++ b/server/namespace_manager.go
@@ -29,6 +29,8 @@ type NamespaceManager struct {
 	namespaces     []string
 	nodes          map[ua.NodeID]Node
 	variantTypeMap map[ua.NodeID]byte
+	// unresolved holds, by id of a target that does not exist yet, the nodes that refer to it.
+	unresolved map[ua.NodeID][]Node
 }
 
 // NewNamespaceManager instantiates a new NamespaceManager.
@@ -38,6 +40,7 @@ func NewNamespaceManager(server *Server) *NamespaceManager {
 		namespaces:     []string{"http://opcfoundation.org/UA/", server.LocalDescription().ApplicationURI},
 		nodes:          make(map[ua.NodeID]Node, 4096),
 		variantTypeMap: make(map[ua.NodeID]byte, 32),
+		unresolved:     make(map[ua.NodeID][]Node),
 	}
 }
 
@@ -351,11 +354,20 @@ func toEnumValues(v []ua.ExtensionObject) []ua.EnumValueType {
 }
 
 func (m *NamespaceManager) addNodes(nodes []Node) error {
+	sources := nodes[:len(nodes):len(nodes)]
 	for _, node := range nodes {
-		m.nodes[node.NodeID()] = node
+		id := node.NodeID()
+		m.nodes[id] = node
+		// nodes added earlier that refer to this node
+		for _, source := range m.unresolved[id] {
+			if m.nodes[source.NodeID()] == source {
+				sources = append(sources, source)
+			}
+		}
+		delete(m.unresolved, id)
 	}
 	// add inverse refs of added nodes
-	for _, node := range nodes {
+	for _, node := range sources {
 		id := node.NodeID()
 		for _, r := range node.References() {
 			if r.ReferenceTypeID == ua.ReferenceTypeIDHasTypeDefinition || r.ReferenceTypeID == ua.ReferenceTypeIDHasModellingRule {
@@ -380,12 +392,39 @@ func (m *NamespaceManager) addNodes(nodes []Node) error {
 				}
 			} else {
 				log.Printf("Error finding reference target: %s\n", r.TargetID)
+				m.addUnresolved(ua.ToNodeID(r.TargetID, m.namespaces), node)
 			}
 		}
 	}
 	return nil
 }
 
+// addUnresolved records that the node refers to a target that does not exist yet.
+func (m *NamespaceManager) addUnresolved(targetID ua.NodeID, node Node) {
+	for _, n := range m.unresolved[targetID] {
+		if n == node {
+			return
+		}
+	}
+	m.unresolved[targetID] = append(m.unresolved[targetID], node)
+}
+
+// removeUnresolved forgets that the node refers to a target that does not exist yet.
+func (m *NamespaceManager) removeUnresolved(targetID ua.NodeID, node Node) {
+	nodes := m.unresolved[targetID]
+	for i, n := range nodes {
+		if n == node {
+			nodes = append(nodes[:i], nodes[i+1:]...)
+			break
+		}
+	}
+	if len(nodes) == 0 {
+		delete(m.unresolved, targetID)
+		return
+	}
+	m.unresolved[targetID] = nodes
+}
+
 // AddNodes adds the nodes to the namespace.
 // This method adds the inverse refs as well.
 func (m *NamespaceManager) AddNodes(nodes ...Node) error {
@@ -441,6 +480,7 @@ func (m *NamespaceManager) deleteNodeandInverseReferences(node Node, uris []stri
 			// log.Printf("Removing reference source: %s, target: %s, type: %s, isInverse: %t\n", t.NodeID(), id, r.ReferenceTypeID, !r.IsInverse)
 		} else {
 			log.Printf("Error finding reference target: %s\n", r.TargetID)
+			m.removeUnresolved(ua.ToNodeID(r.TargetID, uris), node)
 		}
 	}
 	// delete node from namespace.
-- 
2.43.0


From e5d2fd9ba3da115f928cb017340c4c22b9dafea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:33 +0000
Subject: [PATCH 029/112] fix: enforce MaxMonitoredItemsPerCall in
 SetTriggering

---
 server/server_service_set.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/server/server_service_set.go b/server/server_service_set.go
index e58d818..a760eea 100644
--- a/server/server_service_set.go
+++ b/server/server_service_set.go
@@ -4485,6 +4485,27 @@ func (srv *Server) handleSetTriggering(ch *serverSecureChannel, requestid uint32
 		return nil
 	}
 
+	// check too many operations
+	if len(req.LinksToRemove)+len(req.LinksToAdd) > int(srv.serverCapabilities.OperationLimits.MaxMonitoredItemsPerCall) {
+		session.setTriggeringErrorCount++
+		session.errorCount++
+		srv.serverDiagnosticsSummary.RejectedRequestsCount++
+		err := ch.Write(
+			&ua.ServiceFault{
+				ResponseHeader: ua.ResponseHeader{
+					Timestamp:     time.Now(),
+					RequestHandle: req.RequestHandle,
+					ServiceResult: ua.BadTooManyOperations,
+				},
+			},
+			requestid,
+		)
+		if err != nil {
+			return err
+		}
+		return nil
+	}
+
 	trigger, ok := sub.FindItem(req.TriggeringItemID)
 	if !ok {
 		session.setTriggeringErrorCount++
-- 
2.43.0


From 8d004088ec7aeae0b9bf4acd046f3501979d2912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:36 +0000
Subject: [PATCH 030/112] fix: return BadNothingToDo when SetPublishingMode
 names no subscription

---
 server/server_service_set.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/server/server_service_set.go b/server/server_service_set.go
index a760eea..7dce6ed 100644
--- a/server/server_service_set.go
+++ b/server/server_service_set.go
@@ -5102,6 +5102,27 @@ func (srv *Server) handleSetPublishingMode(ch *serverSecureChannel, requestid ui
 		return nil
 	}
 
+	// check nothing to do
+	if len(req.SubscriptionIDs) == 0 {
+		session.setPublishingModeErrorCount++
+		session.errorCount++
+		srv.serverDiagnosticsSummary.RejectedRequestsCount++
+		err := ch.Write(
+			&ua.ServiceFault{
+				ResponseHeader: ua.ResponseHeader{
+					Timestamp:     time.Now(),
+					RequestHandle: req.RequestHandle,
+					ServiceResult: ua.BadNothingToDo,
+				},
+			},
+			requestid,
+		)
+		if err != nil {
+			return err
+		}
+		return nil
+	}
+
 	results := make([]ua.StatusCode, len(req.SubscriptionIDs))
 	sm := srv.SubscriptionManager()
 	for i, id := range req.SubscriptionIDs {
-- 
2.43.0


From 3721c43dec3ab5fdaf4899fd7c76b3af01ab5195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:51 +0000
Subject: [PATCH 031/112] fix: apply MaxNodesPerHistoryReadEvents when reading
 the history of events

---
 server/server_service_set.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/server/server_service_set.go b/server/server_service_set.go
index 7dce6ed..4c77a1b 100644
--- a/server/server_service_set.go
+++ b/server/server_service_set.go
@@ -2501,7 +2501,11 @@ func (srv *Server) handleHistoryRead(ch *serverSecureChannel, requestid uint32,
 		return nil
 	}
 	// check too many operations
-	if l > int(srv.serverCapabilities.OperationLimits.MaxNodesPerHistoryReadData) {
+	limit := srv.serverCapabilities.OperationLimits.MaxNodesPerHistoryReadData
+	if _, ok := req.HistoryReadDetails.(ua.ReadEventDetails); ok {
+		limit = srv.serverCapabilities.OperationLimits.MaxNodesPerHistoryReadEvents
+	}
+	if l > int(limit) {
 		// session.readErrorCount++
 		// session.errorCount++
 		srv.serverDiagnosticsSummary.RejectedRequestsCount++
-- 
2.43.0


From 2d7a7e72592b75f7b354efff52a75d3038262335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:17 +0000
Subject: [PATCH 032/112] fix: refuse a session when an authenticator returns
 an error that is no status code

---
 server/server_service_set.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/server/server_service_set.go b/server/server_service_set.go
index 4c77a1b..6976668 100644
--- a/server/server_service_set.go
+++ b/server/server_service_set.go
@@ -822,12 +822,16 @@ func (srv *Server) handleActivateSession(ch *serverSecureChannel, requestid uint
 		srv.serverDiagnosticsSummary.RejectedSessionCount++
 		srv.serverDiagnosticsSummary.SecurityRejectedRequestsCount++
 		srv.serverDiagnosticsSummary.RejectedRequestsCount++
+		code, ok := err.(ua.StatusCode)
+		if !ok {
+			code = ua.BadUserAccessDenied
+		}
 		err = ch.Write(
 			&ua.ServiceFault{
 				ResponseHeader: ua.ResponseHeader{
 					Timestamp:     time.Now(),
 					RequestHandle: req.RequestHandle,
-					ServiceResult: err.(ua.StatusCode),
+					ServiceResult: code,
 				},
 			},
 			requestid,
-- 
2.43.0


From c311050e256a93a93cae158cc37a2a1a0af3f26d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:19 +0000
Subject: [PATCH 033/112] fix: read an encrypted password in blocks of the key
 size

---
 server/server_service_set.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/server/server_service_set.go b/server/server_service_set.go
index 6976668..9cfbff2 100644
--- a/server/server_service_set.go
+++ b/server/server_service_set.go
@@ -586,7 +586,7 @@ func (srv *Server) handleActivateSession(ch *serverSecureChannel, requestid uint
 			plainBuf := buffer.NewPartitionAt(ch.bufferPool)
 			cipherBuf := buffer.NewPartitionAt(ch.bufferPool)
 			cipherBuf.Write(cipherBytes)
-			cipherText := make([]byte, int32(len(srv.localPrivateKey.D.Bytes())))
+			cipherText := make([]byte, srv.localPrivateKey.Size())
 			for cipherBuf.Len() > 0 {
 				cipherBuf.Read(cipherText)
 				// decrypt with local private key.
@@ -646,7 +646,7 @@ func (srv *Server) handleActivateSession(ch *serverSecureChannel, requestid uint
 			plainBuf := buffer.NewPartitionAt(ch.bufferPool)
 			cipherBuf := buffer.NewPartitionAt(ch.bufferPool)
 			cipherBuf.Write(cipherBytes)
-			cipherText := make([]byte, int32(len(srv.localPrivateKey.D.Bytes())))
+			cipherText := make([]byte, srv.localPrivateKey.Size())
 			for cipherBuf.Len() > 0 {
 				cipherBuf.Read(cipherText)
 				// decrypt with local private key.
@@ -706,7 +706,7 @@ func (srv *Server) handleActivateSession(ch *serverSecureChannel, requestid uint
 			plainBuf := buffer.NewPartitionAt(ch.bufferPool)
 			cipherBuf := buffer.NewPartitionAt(ch.bufferPool)
 			cipherBuf.Write(cipherBytes)
-			cipherText := make([]byte, int32(len(srv.localPrivateKey.D.Bytes())))
+			cipherText := make([]byte, srv.localPrivateKey.Size())
 			for cipherBuf.Len() > 0 {
 				cipherBuf.Read(cipherText)
 				// decrypt with local private key.
-- 
2.43.0


From 41a7f7bac74777ef3656d62e4efdfab950260710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:22 +0000
Subject: [PATCH 034/112] fix: answer an activation whose password cannot be
 decrypted instead of closing the channel

---
 server/server_service_set.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/server/server_service_set.go b/server/server_service_set.go
index 9cfbff2..d7a2ee8 100644
--- a/server/server_service_set.go
+++ b/server/server_service_set.go
@@ -592,7 +592,9 @@ func (srv *Server) handleActivateSession(ch *serverSecureChannel, requestid uint
 				// decrypt with local private key.
 				plainText, err := rsa.DecryptPKCS1v15(rand.Reader, srv.localPrivateKey, cipherText)
 				if err != nil {
-					return err
+					// refuse the token below
+					plainBuf.Reset()
+					break
 				}
 				plainBuf.Write(plainText)
 			}
@@ -652,7 +654,9 @@ func (srv *Server) handleActivateSession(ch *serverSecureChannel, requestid uint
 				// decrypt with local private key.
 				plainText, err := rsa.DecryptOAEP(sha1.New(), rand.Reader, srv.localPrivateKey, cipherText, []byte{})
 				if err != nil {
-					return err
+					// refuse the token below
+					plainBuf.Reset()
+					break
 				}
 				plainBuf.Write(plainText)
 			}
@@ -712,7 +716,9 @@ func (srv *Server) handleActivateSession(ch *serverSecureChannel, requestid uint
 				// decrypt with local private key.
 				plainText, err := rsa.DecryptOAEP(sha256.New(), rand.Reader, srv.localPrivateKey, cipherText, []byte{})
 				if err != nil {
-					return err
+					// refuse the token below
+					plainBuf.Reset()
+					break
 				}
 				plainBuf.Write(plainText)
 			}
-- 
2.43.0


From 3b760a17bea0c846249c54efdecc47cec7a73c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:24 +0000
Subject: [PATCH 035/112] fix: refuse an encrypted password that was not made
 for this session

---
 server/server_service_set.go | 66 ++++++++++++++++++++++++++++++++++++
 1 file changed, 66 insertions(+)

diff --git a/server/server_service_set.go b/server/server_service_set.go
index d7a2ee8..1aa9e2c 100644
--- a/server/server_service_set.go
+++ b/server/server_service_set.go
@@ -620,8 +620,30 @@ func (srv *Server) handleActivateSession(ch *serverSecureChannel, requestid uint
 			}
 			passwordBytes := make([]byte, plainLength-32)
 			plainBuf.Read(passwordBytes)
+			nonceBytes := make([]byte, 32)
+			plainBuf.Read(nonceBytes)
 			cipherBuf.Reset()
 			plainBuf.Reset()
+			if ua.ByteString(nonceBytes) != session.SessionNonce() {
+				srv.serverDiagnosticsSummary.SecurityRejectedSessionCount++
+				srv.serverDiagnosticsSummary.RejectedSessionCount++
+				srv.serverDiagnosticsSummary.SecurityRejectedRequestsCount++
+				srv.serverDiagnosticsSummary.RejectedRequestsCount++
+				err := ch.Write(
+					&ua.ServiceFault{
+						ResponseHeader: ua.ResponseHeader{
+							Timestamp:     time.Now(),
+							RequestHandle: req.RequestHandle,
+							ServiceResult: ua.BadIdentityTokenRejected,
+						},
+					},
+					requestid,
+				)
+				if err != nil {
+					return err
+				}
+				return nil
+			}
 			userIdentity = ua.UserNameIdentity{UserName: userIdentityToken.UserName, Password: string(passwordBytes)}
 
 		case ua.SecurityPolicyURIBasic256, ua.SecurityPolicyURIBasic256Sha256, ua.SecurityPolicyURIAes128Sha256RsaOaep:
@@ -682,8 +704,30 @@ func (srv *Server) handleActivateSession(ch *serverSecureChannel, requestid uint
 			}
 			passwordBytes := make([]byte, plainLength-32)
 			plainBuf.Read(passwordBytes)
+			nonceBytes := make([]byte, 32)
+			plainBuf.Read(nonceBytes)
 			cipherBuf.Reset()
 			plainBuf.Reset()
+			if ua.ByteString(nonceBytes) != session.SessionNonce() {
+				srv.serverDiagnosticsSummary.SecurityRejectedSessionCount++
+				srv.serverDiagnosticsSummary.RejectedSessionCount++
+				srv.serverDiagnosticsSummary.SecurityRejectedRequestsCount++
+				srv.serverDiagnosticsSummary.RejectedRequestsCount++
+				err := ch.Write(
+					&ua.ServiceFault{
+						ResponseHeader: ua.ResponseHeader{
+							Timestamp:     time.Now(),
+							RequestHandle: req.RequestHandle,
+							ServiceResult: ua.BadIdentityTokenRejected,
+						},
+					},
+					requestid,
+				)
+				if err != nil {
+					return err
+				}
+				return nil
+			}
 			userIdentity = ua.UserNameIdentity{UserName: userIdentityToken.UserName, Password: string(passwordBytes)}
 
 		case ua.SecurityPolicyURIAes256Sha256RsaPss:
@@ -748,8 +792,30 @@ func (srv *Server) handleActivateSession(ch *serverSecureChannel, requestid uint
 			}
 			passwordBytes := make([]byte, plainLength-32)
 			plainBuf.Read(passwordBytes)
+			nonceBytes := make([]byte, 32)
+			plainBuf.Read(nonceBytes)
 			cipherBuf.Reset()
 			plainBuf.Reset()
+			if ua.ByteString(nonceBytes) != session.SessionNonce() {
+				srv.serverDiagnosticsSummary.SecurityRejectedSessionCount++
+				srv.serverDiagnosticsSummary.RejectedSessionCount++
+				srv.serverDiagnosticsSummary.SecurityRejectedRequestsCount++
+				srv.serverDiagnosticsSummary.RejectedRequestsCount++
+				err := ch.Write(
+					&ua.ServiceFault{
+						ResponseHeader: ua.ResponseHeader{
+							Timestamp:     time.Now(),
+							RequestHandle: req.RequestHandle,
+							ServiceResult: ua.BadIdentityTokenRejected,
+						},
+					},
+					requestid,
+				)
+				if err != nil {
+					return err
+				}
+				return nil
+			}
 			userIdentity = ua.UserNameIdentity{UserName: userIdentityToken.UserName, Password: string(passwordBytes)}
 
 		default:
-- 
2.43.0


From e19a5d3b12fb81b26d14b9e303fd926ed4f299cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:08 +0000
Subject: [PATCH 036/112] fix: activate a session only for the client that
 created it

---
 server/server_service_set.go | 23 +++++++++++++++++++++++
 server/session.go            |  1 +
 2 files changed, 24 insertions(+)

diff --git a/server/server_service_set.go b/server/server_service_set.go
index 1aa9e2c..c0d9abb 100644
--- a/server/server_service_set.go
+++ b/server/server_service_set.go
@@ -231,6 +231,7 @@ func (srv *Server) handleCreateSession(ch *serverSecureChannel, requestid uint32
 		req.ClientCertificate,
 		req.MaxResponseMessageSize,
 	)
+	session.channelCertificate = ua.ByteString(ch.RemoteCertificate())
 	err := srv.SessionManager().Add(session)
 	if err != nil {
 		srv.serverDiagnosticsSummary.RejectedSessionCount++
@@ -309,6 +310,28 @@ func (srv *Server) handleActivateSession(ch *serverSecureChannel, requestid uint
 		return nil
 	}
 
+	// a session created on a secured channel belongs to the client that opened that channel.
+	if len(session.channelCertificate) > 0 && session.channelCertificate != ua.ByteString(ch.RemoteCertificate()) {
+		srv.serverDiagnosticsSummary.SecurityRejectedSessionCount++
+		srv.serverDiagnosticsSummary.RejectedSessionCount++
+		srv.serverDiagnosticsSummary.SecurityRejectedRequestsCount++
+		srv.serverDiagnosticsSummary.RejectedRequestsCount++
+		err := ch.Write(
+			&ua.ServiceFault{
+				ResponseHeader: ua.ResponseHeader{
+					Timestamp:     time.Now(),
+					RequestHandle: req.RequestHandle,
+					ServiceResult: ua.BadSecurityChecksFailed,
+				},
+			},
+			requestid,
+		)
+		if err != nil {
+			return err
+		}
+		return nil
+	}
+
 	// verify the client's signature.
 	var err error
 	switch ch.SecurityPolicyURI() {
diff --git a/server/session.go b/server/session.go
index d5bcf9a..679e085 100644
--- a/server/session.go
+++ b/server/session.go
@@ -41,6 +41,7 @@ type Session struct {
 	securityMode                            ua.MessageSecurityMode
 	securityPolicyURI                       string
 	clientCertificate                       ua.ByteString
+	channelCertificate                      ua.ByteString // certificate of the channel that created the session
 	browseCPs                               map[uint32]browseCP
 	lastBrowseCP                            uint32
 	maxBrowseContinuationPoints             int
-- 
2.43.0


From ee79c2c617c3e49140c657d8b273880bf1c2d0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:11 +0000
Subject: [PATCH 037/112] fix: do not block for ever when a session is deleted
 or drained while a publish request is queued

---
 server/session.go | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/server/session.go b/server/session.go
index 679e085..549b0ce 100644
--- a/server/session.go
+++ b/server/session.go
@@ -291,12 +291,31 @@ func (s *Session) ClientCertificate() ua.ByteString {
 }
 
 func (s *Session) addPublishRequest(ch *serverSecureChannel, requestid uint32, req *ua.PublishRequest, results []ua.StatusCode) error {
+	s.RLock()
+	publishRequests := s.publishRequests
+	s.RUnlock()
+	if publishRequests == nil {
+		// the session was deleted in the meantime
+		return ch.Write(
+			&ua.ServiceFault{
+				ResponseHeader: ua.ResponseHeader{
+					Timestamp:     time.Now(),
+					RequestHandle: req.RequestHandle,
+					ServiceResult: ua.BadSessionClosed,
+				},
+			},
+			requestid,
+		)
+	}
 	for {
 		select {
-		case s.publishRequests <- &publishOp{ch, requestid, req, results}:
+		case publishRequests <- &publishOp{ch, requestid, req, results}:
 			return nil
 		default:
-			op := <-s.publishRequests
+		}
+		// make room, unless the requests were removed in the meantime
+		select {
+		case op := <-publishRequests:
 			err := op.ch.Write(
 				&ua.ServiceFault{
 					ResponseHeader: ua.ResponseHeader{
@@ -310,14 +329,18 @@ func (s *Session) addPublishRequest(ch *serverSecureChannel, requestid uint32, r
 			if err != nil {
 				return err
 			}
+		default:
 		}
 	}
 }
 
 func (s *Session) removePublishRequest() (*serverSecureChannel, uint32, *ua.PublishRequest, []ua.StatusCode, bool, error) {
+	s.RLock()
+	publishRequests := s.publishRequests
+	s.RUnlock()
 	for {
 		select {
-		case op := <-s.publishRequests:
+		case op := <-publishRequests:
 			ch := op.ch
 			req := op.req
 			rid := op.requestId
-- 
2.43.0


From 985fa8b90eddb485726b147f3393f30c3fd4be7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:14 +0000
Subject: [PATCH 038/112] fix: answer the outstanding publish requests of a
 session that is closed

---
 server/server_service_set.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/server/server_service_set.go b/server/server_service_set.go
index c0d9abb..d409458 100644
--- a/server/server_service_set.go
+++ b/server/server_service_set.go
@@ -1037,6 +1037,24 @@ func (srv *Server) handleCloseSession(ch *serverSecureChannel, requestid uint32,
 		}
 	}
 
+	// answer outstanding publish requests
+	for {
+		pch, prid, preq, _, ok, err := session.removePublishRequest()
+		if err != nil || !ok {
+			break
+		}
+		pch.Write(
+			&ua.ServiceFault{
+				ResponseHeader: ua.ResponseHeader{
+					Timestamp:     time.Now(),
+					RequestHandle: preq.RequestHandle,
+					ServiceResult: ua.BadSessionClosed,
+				},
+			},
+			prid,
+		)
+	}
+
 	// delete session
 	srv.sessionManager.Delete(session)
 
-- 
2.43.0


From e3076db738fd94e2ee92478bcf0b7e866ed92571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:11:29 +0000
Subject: [PATCH 039/112] fix: revise a requested session timeout that is not a
 number

---
 server/server_service_set.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/server_service_set.go b/server/server_service_set.go
index d409458..d561967 100644
--- a/server/server_service_set.go
+++ b/server/server_service_set.go
@@ -212,7 +212,7 @@ func (srv *Server) handleCreateSession(ch *serverSecureChannel, requestid uint32
 		sessionName = req.ClientDescription.ApplicationURI
 	}
 	sessionTimeout := req.RequestedSessionTimeout
-	if sessionTimeout < minSessionTimeout {
+	if !(sessionTimeout >= minSessionTimeout) { // also when not a number
 		sessionTimeout = minSessionTimeout
 	}
 	if sessionTimeout > maxSessionTimeout {
-- 
2.43.0


From f55859775c0e7f8e2e7dddbdea08add492c2f302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:19 +0000
Subject: [PATCH 040/112] fix: apply the identity mapping rules that follow one
 that does not match

---
 server/roles_provider.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/server/roles_provider.go b/server/roles_provider.go
index d85a039..5147abd 100644
--- a/server/roles_provider.go
+++ b/server/roles_provider.go
@@ -151,7 +151,7 @@ func (p *RulesBasedRolesProvider) GetRoles(userIdentity any, applicationURI stri
 			}
 		}
 		if !ok {
-			break // continue with next rule
+			continue // with next rule
 		}
 		ok = rule.EndpointsExclude // true means the following endpoints should be excluded
 		for _, ep := range rule.Endpoints {
@@ -161,7 +161,7 @@ func (p *RulesBasedRolesProvider) GetRoles(userIdentity any, applicationURI stri
 			}
 		}
 		if !ok {
-			break // continue with next role
+			continue // with next rule
 		}
 		for _, identity := range rule.Identities {
 
-- 
2.43.0


From 28b0253e76fef8d9d37084320c983720487ea0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:21 +0000
Subject: [PATCH 041/112] fix: read the user identity of a session under its
 lock

---
 server/server_service_set.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/server/server_service_set.go b/server/server_service_set.go
index d561967..18e79e2 100644
--- a/server/server_service_set.go
+++ b/server/server_service_set.go
@@ -5740,7 +5740,7 @@ func (srv *Server) writeValue(session *Session, writeValue ua.WriteValue) ua.Sta
 	if !ok {
 		return ua.BadNodeIDUnknown
 	}
-	rp := n.UserRolePermissions(session.userIdentity)
+	rp := n.UserRolePermissions(session.UserIdentity())
 	if !IsUserPermitted(rp, ua.PermissionTypeBrowse) {
 		return ua.BadNodeIDUnknown
 	}
@@ -5754,7 +5754,7 @@ func (srv *Server) writeValue(session *Session, writeValue ua.WriteValue) ua.Sta
 			if (n1.AccessLevel() & ua.AccessLevelsCurrentWrite) == 0 {
 				return ua.BadNotWritable
 			}
-			if (n1.UserAccessLevel(session.userIdentity) & ua.AccessLevelsCurrentWrite) == 0 {
+			if (n1.UserAccessLevel(session.UserIdentity()) & ua.AccessLevelsCurrentWrite) == 0 {
 				return ua.BadUserAccessDenied
 			}
 			// check data type
@@ -6315,7 +6315,7 @@ func (srv *Server) readValue(session *Session, readValueId ua.ReadValueID) ua.Da
 	if !ok {
 		return ua.NewDataValue(nil, ua.BadNodeIDUnknown, time.Time{}, 0, time.Now(), 0)
 	}
-	rp := n.UserRolePermissions(session.userIdentity)
+	rp := n.UserRolePermissions(session.UserIdentity())
 	if !IsUserPermitted(rp, ua.PermissionTypeBrowse) {
 		return ua.NewDataValue(nil, ua.BadNodeIDUnknown, time.Time{}, 0, time.Now(), 0)
 	}
@@ -6327,7 +6327,7 @@ func (srv *Server) readValue(session *Session, readValueId ua.ReadValueID) ua.Da
 			if (n1.AccessLevel() & ua.AccessLevelsCurrentRead) == 0 {
 				return ua.NewDataValue(nil, ua.BadNotReadable, time.Time{}, 0, time.Now(), 0)
 			}
-			if (n1.UserAccessLevel(session.userIdentity) & ua.AccessLevelsCurrentRead) == 0 {
+			if (n1.UserAccessLevel(session.UserIdentity()) & ua.AccessLevelsCurrentRead) == 0 {
 				return ua.NewDataValue(nil, ua.BadUserAccessDenied, time.Time{}, 0, time.Now(), 0)
 			}
 			if f := n1.readValueHandler; f != nil {
@@ -6427,7 +6427,7 @@ func (srv *Server) readValue(session *Session, readValueId ua.ReadValueID) ua.Da
 	case ua.AttributeIDUserAccessLevel:
 		switch n1 := n.(type) {
 		case *VariableNode:
-			return ua.NewDataValue(n1.UserAccessLevel(session.userIdentity), ua.Good, time.Time{}, 0, time.Now(), 0)
+			return ua.NewDataValue(n1.UserAccessLevel(session.UserIdentity()), ua.Good, time.Time{}, 0, time.Now(), 0)
 		default:
 			return ua.NewDataValue(nil, ua.BadAttributeIDInvalid, time.Time{}, 0, time.Now(), 0)
 		}
@@ -6455,7 +6455,7 @@ func (srv *Server) readValue(session *Session, readValueId ua.ReadValueID) ua.Da
 	case ua.AttributeIDUserExecutable:
 		switch n1 := n.(type) {
 		case *MethodNode:
-			return ua.NewDataValue(n1.UserExecutable(session.userIdentity), ua.Good, time.Time{}, 0, time.Now(), 0)
+			return ua.NewDataValue(n1.UserExecutable(session.UserIdentity()), ua.Good, time.Time{}, 0, time.Now(), 0)
 		default:
 			return ua.NewDataValue(nil, ua.BadAttributeIDInvalid, time.Time{}, 0, time.Now(), 0)
 		}
@@ -6480,7 +6480,7 @@ func (srv *Server) readValue(session *Session, readValueId ua.ReadValueID) ua.Da
 		}
 		return ua.NewDataValue(s2, ua.Good, time.Time{}, 0, time.Now(), 0)
 	case ua.AttributeIDUserRolePermissions:
-		s1 := n.UserRolePermissions(session.userIdentity)
+		s1 := n.UserRolePermissions(session.UserIdentity())
 		s2 := make([]ua.ExtensionObject, len(s1))
 		for i := range s1 {
 			s2[i] = s1[i]
-- 
2.43.0


From 9a607b9e1ebd9c772911891942cb1d884ca482ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:55 +0000
Subject: [PATCH 042/112] fix: check access level and permission when reading
 the history of a node

---
 server/server_service_set.go | 75 ++++++++++++++++++++++++++++++++----
 1 file changed, 67 insertions(+), 8 deletions(-)

diff --git a/server/server_service_set.go b/server/server_service_set.go
index 18e79e2..c999aff 100644
--- a/server/server_service_set.go
+++ b/server/server_service_set.go
@@ -2664,9 +2664,49 @@ func (srv *Server) handleHistoryRead(ch *serverSecureChannel, requestid uint32,
 
 	ctx := context.Background()
 
+	// check permission to read the history of each node
+	nodesToRead := make([]ua.HistoryReadValueID, 0, l)
+	denied := make([]ua.StatusCode, l)
+	for i, n := range req.NodesToRead {
+		if denied[i] = srv.checkHistoryRead(session, n.NodeID); denied[i] == ua.Good {
+			nodesToRead = append(nodesToRead, n)
+		}
+	}
+	// insert the results of the nodes that were denied
+	merge := func(results []ua.HistoryReadResult) []ua.HistoryReadResult {
+		if len(results) != len(nodesToRead) || len(nodesToRead) == l {
+			return results
+		}
+		merged := make([]ua.HistoryReadResult, l)
+		for i := range merged {
+			if denied[i] != ua.Good {
+				merged[i] = ua.HistoryReadResult{StatusCode: denied[i]}
+				continue
+			}
+			merged[i], results = results[0], results[1:]
+		}
+		return merged
+	}
+	if len(nodesToRead) == 0 {
+		err := ch.Write(
+			&ua.HistoryReadResponse{
+				ResponseHeader: ua.ResponseHeader{
+					Timestamp:     time.Now(),
+					RequestHandle: req.RequestHeader.RequestHandle,
+				},
+				Results: merge(nil),
+			},
+			requestid,
+		)
+		if err != nil {
+			return err
+		}
+		return nil
+	}
+
 	switch details := req.HistoryReadDetails.(type) {
 	case ua.ReadEventDetails:
-		results, status := h.ReadEvent(ctx, req.NodesToRead, details, req.TimestampsToReturn, req.ReleaseContinuationPoints)
+		results, status := h.ReadEvent(ctx, nodesToRead, details, req.TimestampsToReturn, req.ReleaseContinuationPoints)
 		err := ch.Write(
 			&ua.HistoryReadResponse{
 				ResponseHeader: ua.ResponseHeader{
@@ -2674,7 +2714,7 @@ func (srv *Server) handleHistoryRead(ch *serverSecureChannel, requestid uint32,
 					RequestHandle: req.RequestHeader.RequestHandle,
 					ServiceResult: status,
 				},
-				Results: results,
+				Results: merge(results),
 			},
 			requestid,
 		)
@@ -2684,7 +2724,7 @@ func (srv *Server) handleHistoryRead(ch *serverSecureChannel, requestid uint32,
 		return nil
 
 	case ua.ReadRawModifiedDetails:
-		results, status := h.ReadRawModified(ctx, req.NodesToRead, details, req.TimestampsToReturn, req.ReleaseContinuationPoints)
+		results, status := h.ReadRawModified(ctx, nodesToRead, details, req.TimestampsToReturn, req.ReleaseContinuationPoints)
 		err := ch.Write(
 			&ua.HistoryReadResponse{
 				ResponseHeader: ua.ResponseHeader{
@@ -2692,7 +2732,7 @@ func (srv *Server) handleHistoryRead(ch *serverSecureChannel, requestid uint32,
 					RequestHandle: req.RequestHeader.RequestHandle,
 					ServiceResult: status,
 				},
-				Results: results,
+				Results: merge(results),
 			},
 			requestid,
 		)
@@ -2702,7 +2742,7 @@ func (srv *Server) handleHistoryRead(ch *serverSecureChannel, requestid uint32,
 		return nil
 
 	case ua.ReadProcessedDetails:
-		results, status := h.ReadProcessed(ctx, req.NodesToRead, details, req.TimestampsToReturn, req.ReleaseContinuationPoints)
+		results, status := h.ReadProcessed(ctx, nodesToRead, details, req.TimestampsToReturn, req.ReleaseContinuationPoints)
 		err := ch.Write(
 			&ua.HistoryReadResponse{
 				ResponseHeader: ua.ResponseHeader{
@@ -2710,7 +2750,7 @@ func (srv *Server) handleHistoryRead(ch *serverSecureChannel, requestid uint32,
 					RequestHandle: req.RequestHeader.RequestHandle,
 					ServiceResult: status,
 				},
-				Results: results,
+				Results: merge(results),
 			},
 			requestid,
 		)
@@ -2720,7 +2760,7 @@ func (srv *Server) handleHistoryRead(ch *serverSecureChannel, requestid uint32,
 		return nil
 
 	case ua.ReadAtTimeDetails:
-		results, status := h.ReadAtTime(ctx, req.NodesToRead, details, req.TimestampsToReturn, req.ReleaseContinuationPoints)
+		results, status := h.ReadAtTime(ctx, nodesToRead, details, req.TimestampsToReturn, req.ReleaseContinuationPoints)
 		err := ch.Write(
 			&ua.HistoryReadResponse{
 				ResponseHeader: ua.ResponseHeader{
@@ -2728,7 +2768,7 @@ func (srv *Server) handleHistoryRead(ch *serverSecureChannel, requestid uint32,
 					RequestHandle: req.RequestHeader.RequestHandle,
 					ServiceResult: status,
 				},
-				Results: results,
+				Results: merge(results),
 			},
 			requestid,
 		)
@@ -2755,6 +2795,25 @@ func (srv *Server) handleHistoryRead(ch *serverSecureChannel, requestid uint32,
 	return nil
 }
 
+// checkHistoryRead returns Good if the user of the session may read the history of the node.
+func (srv *Server) checkHistoryRead(session *Session, nodeID ua.NodeID) ua.StatusCode {
+	n, ok := srv.NamespaceManager().FindNode(nodeID)
+	if !ok {
+		return ua.BadNodeIDUnknown
+	}
+	rp := n.UserRolePermissions(session.UserIdentity())
+	if !IsUserPermitted(rp, ua.PermissionTypeBrowse) {
+		return ua.BadNodeIDUnknown
+	}
+	if n1, ok := n.(*VariableNode); ok && (n1.AccessLevel()&ua.AccessLevelsHistoryRead) == 0 {
+		return ua.BadHistoryOperationUnsupported
+	}
+	if !IsUserPermitted(rp, ua.PermissionTypeReadHistory) {
+		return ua.BadUserAccessDenied
+	}
+	return ua.Good
+}
+
 // readRange returns slice of value specified by IndexRange
 func readRange(source ua.DataValue, indexRange string) ua.DataValue {
 	if indexRange == "" {
-- 
2.43.0


From 892717bbac29d8e2b89931e73b857c46026b2b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:44:34 +0000
Subject: [PATCH 043/112] fix: mark the value next to discarded ones in the
 queue of a monitored item

---
 server/datachange_monitored_item.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/server/datachange_monitored_item.go b/server/datachange_monitored_item.go
index db6f5ae..84bf2a1 100644
--- a/server/datachange_monitored_item.go
+++ b/server/datachange_monitored_item.go
@@ -190,6 +190,7 @@ func (mi *DataChangeMonitoredItem) setQueueSize(queueSize uint32) {
 			// set overflow bit of statuscode
 			v := mi.queue.Front()
 			v.StatusCode = ua.StatusCode(uint32(v.StatusCode) | ua.InfoTypeDataValue | ua.Overflow)
+			mi.queue.Set(0, v)
 		}
 	} else {
 		for mi.queue.Len() > int(mi.queueSize) {
@@ -200,6 +201,7 @@ func (mi *DataChangeMonitoredItem) setQueueSize(queueSize uint32) {
 			// set overflow bit of statuscode
 			v := mi.queue.Back()
 			v.StatusCode = ua.StatusCode(uint32(v.StatusCode) | ua.InfoTypeDataValue | ua.Overflow)
+			mi.queue.Set(mi.queue.Len()-1, v)
 		}
 	}
 }
@@ -309,6 +311,7 @@ func (mi *DataChangeMonitoredItem) enqueue(item ua.DataValue) {
 			// set overflow bit of statuscode
 			v := mi.queue.Front()
 			v.StatusCode = ua.StatusCode(uint32(v.StatusCode) | ua.InfoTypeDataValue | ua.Overflow)
+			mi.queue.Set(0, v)
 			mi.sub.monitoringQueueOverflowCount++
 		}
 	} else {
@@ -321,6 +324,7 @@ func (mi *DataChangeMonitoredItem) enqueue(item ua.DataValue) {
 			// set overflow bit of statuscode
 			v := mi.queue.Back()
 			v.StatusCode = ua.StatusCode(uint32(v.StatusCode) | ua.InfoTypeDataValue | ua.Overflow)
+			mi.queue.Set(mi.queue.Len()-1, v)
 			mi.sub.monitoringQueueOverflowCount++
 		}
 	}
-- 
2.43.0


From bbab56358dd42527dc6aee92ccaad5a55b0298da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:44:36 +0000
Subject: [PATCH 044/112] fix: apply the absolute deadband to unsigned, large
 and array values

---
 server/datachange_monitored_item.go | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/server/datachange_monitored_item.go b/server/datachange_monitored_item.go
index 84bf2a1..63bd669 100644
--- a/server/datachange_monitored_item.go
+++ b/server/datachange_monitored_item.go
@@ -3,7 +3,6 @@
 package server
 
 import (
-	"bytes"
 	"math"
 	"reflect"
 	"sync/atomic"
@@ -462,7 +461,7 @@ func equalDeadbandAbsolute(current, previous ua.Variant, deadband float64) bool
 	switch vc.Kind() {
 	case reflect.Array:
 		for i := 0; i < vc.Len(); i++ {
-			if !equalDeadbandAbsolute(vc.Index(i), vp.Index(i), deadband) {
+			if !equalDeadbandAbsolute(vc.Index(i).Interface(), vp.Index(i).Interface(), deadband) {
 				return false
 			}
 		}
@@ -477,20 +476,24 @@ func equalDeadbandAbsolute(current, previous ua.Variant, deadband float64) bool
 		if vc.UnsafePointer() == vp.UnsafePointer() {
 			return true
 		}
-		// special case for []byte, which is common.
-		if vc.Type().Elem().Kind() == reflect.Uint8 {
-			return bytes.Equal(vc.Bytes(), vp.Bytes())
-		}
 		for i := 0; i < vc.Len(); i++ {
-			if !equalDeadbandAbsolute(vc.Index(i), vp.Index(i), deadband) {
+			if !equalDeadbandAbsolute(vc.Index(i).Interface(), vp.Index(i).Interface(), deadband) {
 				return false
 			}
 		}
 		return true
 	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
-		return math.Abs(float64(vc.Int()-vp.Int())) <= deadband
+		a, b := vc.Int(), vp.Int()
+		if a < b {
+			a, b = b, a
+		}
+		return float64(uint64(a)-uint64(b)) <= deadband
 	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
-		return math.Abs(float64(vc.Uint()-vp.Uint())) <= deadband
+		a, b := vc.Uint(), vp.Uint()
+		if a < b {
+			a, b = b, a
+		}
+		return float64(a-b) <= deadband
 	case reflect.Float32, reflect.Float64:
 		return math.Abs(vc.Float()-vp.Float()) <= deadband
 	}
-- 
2.43.0


From 5d7b5bddb451c48b8c4fef25a678c854289e6d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:47:40 +0000
Subject: [PATCH 045/112] fix: do not report an unchanged value that is not a
 number with every sample

---
 server/datachange_monitored_item.go | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/server/datachange_monitored_item.go b/server/datachange_monitored_item.go
index 63bd669..a7f01fa 100644
--- a/server/datachange_monitored_item.go
+++ b/server/datachange_monitored_item.go
@@ -424,7 +424,7 @@ func (mi *DataChangeMonitoredItem) isDataChange(current, previous ua.DataValue)
 		}
 		switch ua.DeadbandType(dcf.DeadbandType) {
 		case ua.DeadbandTypeNone:
-			return !reflect.DeepEqual(current.Value, previous.Value)
+			return !equalValue(current.Value, previous.Value)
 		case ua.DeadbandTypeAbsolute:
 			return !equalDeadbandAbsolute(current.Value, previous.Value, dcf.DeadbandValue)
 		case ua.DeadbandTypePercent:
@@ -439,7 +439,7 @@ func (mi *DataChangeMonitoredItem) isDataChange(current, previous ua.DataValue)
 		}
 		switch ua.DeadbandType(dcf.DeadbandType) {
 		case ua.DeadbandTypeNone:
-			return !reflect.DeepEqual(current.Value, previous.Value)
+			return !equalValue(current.Value, previous.Value)
 		case ua.DeadbandTypeAbsolute:
 			return !equalDeadbandAbsolute(current.Value, previous.Value, dcf.DeadbandValue)
 		case ua.DeadbandTypePercent:
@@ -449,6 +449,21 @@ func (mi *DataChangeMonitoredItem) isDataChange(current, previous ua.DataValue)
 	return true
 }
 
+// equalValue returns true if the values are equal. A value that is not a number equals itself.
+func equalValue(current, previous ua.Variant) bool {
+	switch a := current.(type) {
+	case float32:
+		if b, ok := previous.(float32); ok && a != a && b != b {
+			return true
+		}
+	case float64:
+		if b, ok := previous.(float64); ok && a != a && b != b {
+			return true
+		}
+	}
+	return reflect.DeepEqual(current, previous)
+}
+
 func equalDeadbandAbsolute(current, previous ua.Variant, deadband float64) bool {
 	if current == nil || previous == nil {
 		return current == previous
@@ -495,7 +510,11 @@ func equalDeadbandAbsolute(current, previous ua.Variant, deadband float64) bool
 		}
 		return float64(a-b) <= deadband
 	case reflect.Float32, reflect.Float64:
-		return math.Abs(vc.Float()-vp.Float()) <= deadband
+		a, b := vc.Float(), vp.Float()
+		if a == b || (math.IsNaN(a) && math.IsNaN(b)) {
+			return true
+		}
+		return math.Abs(a-b) <= deadband
 	}
 	return false
 }
-- 
2.43.0


From 8dcf0581edefceba5db88f2cbdec333fc28b65fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:47:42 +0000
Subject: [PATCH 046/112] fix: revise a requested sampling interval that is not
 a number

---
 server/datachange_monitored_item.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/server/datachange_monitored_item.go b/server/datachange_monitored_item.go
index a7f01fa..4c36945 100644
--- a/server/datachange_monitored_item.go
+++ b/server/datachange_monitored_item.go
@@ -206,6 +206,9 @@ func (mi *DataChangeMonitoredItem) setQueueSize(queueSize uint32) {
 }
 
 func (mi *DataChangeMonitoredItem) setSamplingInterval(samplingInterval float64) {
+	if math.IsNaN(samplingInterval) {
+		samplingInterval = mi.minSamplingInterval
+	}
 	switch mi.itemToMonitor.AttributeID {
 	case ua.AttributeIDValue:
 		if samplingInterval < 0 {
-- 
2.43.0


From 1c001373e3fe55ded35110561a1693d8b65fb71f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:47:45 +0000
Subject: [PATCH 047/112] fix: return the results of acknowledgements with a
 late keep-alive

---
 server/subscription.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/server/subscription.go b/server/subscription.go
index cd290e0..8a46612 100644
--- a/server/subscription.go
+++ b/server/subscription.go
@@ -613,7 +613,6 @@ func (s *Subscription) handleLatePublishRequest(ch *serverSecureChannel, request
 					avail = append(avail, nm.SequenceNumber)
 				}
 			}
-			results := make([]ua.StatusCode, len(req.SubscriptionAcknowledgements))
 			err := ch.Write(
 				&ua.PublishResponse{
 					ResponseHeader: ua.ResponseHeader{
-- 
2.43.0


From ee45819bc029880fefa4f95e2b44c7685e2f20fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:47:47 +0000
Subject: [PATCH 048/112] fix: do not reuse the sequence number of a
 notification message that could not be sent

---
 server/subscription.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/server/subscription.go b/server/subscription.go
index 8a46612..c001f32 100644
--- a/server/subscription.go
+++ b/server/subscription.go
@@ -379,6 +379,7 @@ func (s *Subscription) publish(tn time.Time) error {
 				e.Value = nil
 			}
 			q.PushBack(nm)
+			s.nextSequenceNumber++
 			avail := make([]uint32, 0, 4)
 			for e := q.Front(); e != nil; e = e.Next() {
 				if nm, ok := e.Value.(ua.NotificationMessage); ok {
@@ -405,7 +406,6 @@ func (s *Subscription) publish(tn time.Time) error {
 			}
 			s.unacknowledgedMessageCount = uint32(len(avail))
 			s.publishRequestCount++
-			s.nextSequenceNumber++
 			s.keepAliveCount = 0
 			s.lifetimeCount = 0
 			s.isLate = false
@@ -568,6 +568,7 @@ func (s *Subscription) handleLatePublishRequest(ch *serverSecureChannel, request
 			q.Remove(e)
 		}
 		q.PushBack(nm)
+		s.nextSequenceNumber++
 		avail := make([]uint32, 0, 4)
 		for e := q.Front(); e != nil; e = e.Next() {
 			if nm, ok := e.Value.(ua.NotificationMessage); ok {
@@ -595,7 +596,6 @@ func (s *Subscription) handleLatePublishRequest(ch *serverSecureChannel, request
 		s.publishRequestCount++
 		s.latePublishRequestCount++
 		s.unacknowledgedMessageCount = uint32(len(avail))
-		s.nextSequenceNumber++
 		s.keepAliveCount = 0
 		s.lifetimeCount = 0
 		s.moreNotifications = more
-- 
2.43.0


From bb76e770d4cfcf003666b32ade139c92e7159a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:47:49 +0000
Subject: [PATCH 049/112] fix: let only the session that owns a subscription
 use it

---
 server/server_service_set.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/server/server_service_set.go b/server/server_service_set.go
index c999aff..ec3680b 100644
--- a/server/server_service_set.go
+++ b/server/server_service_set.go
@@ -3943,7 +3943,7 @@ func (srv *Server) handleCreateMonitoredItems(ch *serverSecureChannel, requestid
 
 	// get subscription
 	sub, ok := srv.SubscriptionManager().Get(req.SubscriptionID)
-	if !ok {
+	if !ok || sub.sessionId != session.sessionId {
 		session.createMonitoredItemsErrorCount++
 		session.errorCount++
 		srv.serverDiagnosticsSummary.RejectedRequestsCount++
@@ -4457,7 +4457,7 @@ func (srv *Server) handleSetMonitoringMode(ch *serverSecureChannel, requestid ui
 
 	// get subscription
 	sub, ok := srv.SubscriptionManager().Get(req.SubscriptionID)
-	if !ok {
+	if !ok || sub.sessionId != session.sessionId {
 		session.setMonitoringModeErrorCount++
 		session.errorCount++
 		srv.serverDiagnosticsSummary.RejectedRequestsCount++
@@ -4622,7 +4622,7 @@ func (srv *Server) handleSetTriggering(ch *serverSecureChannel, requestid uint32
 
 	// get subscription
 	sub, ok := srv.SubscriptionManager().Get(req.SubscriptionID)
-	if !ok {
+	if !ok || sub.sessionId != session.sessionId {
 		session.setTriggeringErrorCount++
 		session.errorCount++
 		srv.serverDiagnosticsSummary.RejectedRequestsCount++
@@ -4826,7 +4826,7 @@ func (srv *Server) handleDeleteMonitoredItems(ch *serverSecureChannel, requestid
 
 	// get subscription
 	sub, ok := srv.SubscriptionManager().Get(req.SubscriptionID)
-	if !ok {
+	if !ok || sub.sessionId != session.sessionId {
 		session.deleteMonitoredItemsErrorCount++
 		session.errorCount++
 		srv.serverDiagnosticsSummary.RejectedRequestsCount++
@@ -5560,7 +5560,7 @@ func (srv *Server) handlePublish(ch *serverSecureChannel, requestid uint32, req
 	// process sub ack's
 	results := make([]ua.StatusCode, len(req.SubscriptionAcknowledgements))
 	for i, sa := range req.SubscriptionAcknowledgements {
-		if sub, ok := sm.Get(sa.SubscriptionID); ok {
+		if sub, ok := sm.Get(sa.SubscriptionID); ok && sub.sessionId == session.sessionId {
 			if sub.acknowledge(sa.SequenceNumber) {
 				results[i] = ua.Good
 			} else {
@@ -5722,7 +5722,7 @@ func (srv *Server) handleRepublish(ch *serverSecureChannel, requestid uint32, re
 	}
 
 	s, ok := srv.SubscriptionManager().Get(req.SubscriptionID)
-	if !ok {
+	if !ok || s.sessionId != session.sessionId {
 		session.republishErrorCount++
 		session.errorCount++
 		srv.serverDiagnosticsSummary.RejectedRequestsCount++
-- 
2.43.0


From 8dff651413c552aab9840d716364babda5d08a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:47:51 +0000
Subject: [PATCH 050/112] fix: keep a republished message available until it is
 acknowledged

---
 server/server_service_set.go | 42 ++++++++++++------------------------
 server/subscription.go       | 18 ++++++++++++++++
 2 files changed, 32 insertions(+), 28 deletions(-)

diff --git a/server/server_service_set.go b/server/server_service_set.go
index ec3680b..0d7ad89 100644
--- a/server/server_service_set.go
+++ b/server/server_service_set.go
@@ -5742,35 +5742,21 @@ func (srv *Server) handleRepublish(ch *serverSecureChannel, requestid uint32, re
 		return nil
 	}
 
-	s.Lock()
-	s.lifetimeCount = 0
-	s.Unlock()
-
-	s.republishRequestCount++
-	s.republishMessageRequestCount++
-	q := s.retransmissionQueue
-	for e := q.Front(); e != nil; e = e.Next() {
-		if nm, ok := e.Value.(ua.NotificationMessage); ok {
-			if req.RetransmitSequenceNumber == nm.SequenceNumber {
-				err := ch.Write(
-					&ua.RepublishResponse{
-						ResponseHeader: ua.ResponseHeader{
-							Timestamp:     time.Now(),
-							RequestHandle: req.RequestHeader.RequestHandle,
-						},
-						NotificationMessage: nm,
-					},
-					requestid,
-				)
-				if err != nil {
-					return err
-				}
-				s.republishMessageCount++
-				q.Remove(e)
-				e.Value = nil
-				return nil
-			}
+	if nm, ok := s.republish(req.RetransmitSequenceNumber); ok {
+		err := ch.Write(
+			&ua.RepublishResponse{
+				ResponseHeader: ua.ResponseHeader{
+					Timestamp:     time.Now(),
+					RequestHandle: req.RequestHeader.RequestHandle,
+				},
+				NotificationMessage: nm,
+			},
+			requestid,
+		)
+		if err != nil {
+			return err
 		}
+		return nil
 	}
 	session.republishErrorCount++
 	session.errorCount++
diff --git a/server/subscription.go b/server/subscription.go
index c001f32..7fca934 100644
--- a/server/subscription.go
+++ b/server/subscription.go
@@ -279,6 +279,24 @@ func (s *Subscription) acknowledge(seqNum uint32) bool {
 	return false
 }
 
+// republish returns the message with the given sequence number, which stays available until it is acknowledged.
+func (s *Subscription) republish(seqNum uint32) (ua.NotificationMessage, bool) {
+	s.Lock()
+	defer s.Unlock()
+	s.lifetimeCount = 0
+	s.republishRequestCount++
+	s.republishMessageRequestCount++
+	if q := s.retransmissionQueue; q != nil {
+		for e := q.Front(); e != nil; e = e.Next() {
+			if nm, ok := e.Value.(ua.NotificationMessage); ok && nm.SequenceNumber == seqNum {
+				s.republishMessageCount++
+				return nm, true
+			}
+		}
+	}
+	return ua.NotificationMessage{}, false
+}
+
 func (s *Subscription) startPublishing() {
 	// log.Printf("startPublishing %d \n", s.id)
 	s.cancelPublishing = make(chan struct{})
-- 
2.43.0


From 62d83b89e0e7583423ac43edc474158734b299e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:49:26 +0000
Subject: [PATCH 051/112] fix: do not deadlock when a subscription monitors its
 own diagnostics

---
 server/datachange_monitored_item.go | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/server/datachange_monitored_item.go b/server/datachange_monitored_item.go
index 4c36945..2f023a0 100644
--- a/server/datachange_monitored_item.go
+++ b/server/datachange_monitored_item.go
@@ -33,6 +33,8 @@ type DataChangeMonitoredItem struct {
 	sub                 *Subscription
 	srv                 *Server
 	prequeue            deque.Deque[ua.DataValue]
+	sampling            sync.Mutex
+	lastSample          ua.DataValue
 	ts                  time.Time
 	ti                  time.Duration
 	triggeredItems      []MonitoredItem
@@ -253,9 +255,8 @@ func (mi *DataChangeMonitoredItem) startMonitoring() {
 	if mi.monitoringMode == ua.MonitoringModeDisabled {
 		return
 	}
-	v := mi.srv.readValue(mi.sub.session, mi.itemToMonitor)
-	mi.prequeue.PushBack(v)
 	mi.Unlock()
+	mi.sample()
 	mi.srv.Scheduler().GetPollGroup(time.Duration(mi.samplingInterval) * time.Millisecond).Subscribe(mi)
 	mi.Lock()
 }
@@ -268,12 +269,26 @@ func (mi *DataChangeMonitoredItem) stopMonitoring() {
 
 // Poll reads the value of the itemToMonitor.
 func (mi *DataChangeMonitoredItem) Poll() {
+	mi.sample()
+}
+
+// sample reads the value without holding the lock of the item, as the value may depend on the subscription.
+func (mi *DataChangeMonitoredItem) sample() {
+	mi.sampling.Lock()
+	defer mi.sampling.Unlock()
+	mi.RLock()
+	sub := mi.sub
+	mi.RUnlock()
+	if sub == nil {
+		return
+	}
+	v := mi.srv.readValue(sub.session, mi.itemToMonitor)
 	mi.Lock()
-	if n := mi.node; n != nil {
-		v := mi.srv.readValue(mi.sub.session, mi.itemToMonitor)
+	defer mi.Unlock()
+	if mi.sub != nil {
 		mi.prequeue.PushBack(v)
+		mi.lastSample = v
 	}
-	mi.Unlock()
 }
 
 // AddTriggeredItem adds a item to be triggered by this item.
@@ -408,7 +423,7 @@ func (mi *DataChangeMonitoredItem) notificationsAvailable(tn time.Time, late boo
 	}
 	if resend && mi.monitoringMode == ua.MonitoringModeReporting {
 		if mi.queue.Len() == 0 {
-			v := mi.srv.readValue(mi.sub.session, mi.itemToMonitor)
+			v := mi.lastSample
 			mi.enqueue(withTimestamps(v, mi.timestampsToReturn))
 			mi.previousQueuedValue = v
 		}
-- 
2.43.0


From c6e41631cb920705b26eb9f1ada2cba059e138fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:49:28 +0000
Subject: [PATCH 052/112] fix: do not panic when a subscription expires while a
 request uses it

---
 server/datachange_monitored_item.go |  5 +++-
 server/event_monitored_item.go      |  5 +++-
 server/server_service_set.go        | 17 +++++++++---
 server/subscription.go              | 40 +++++++++++++++++------------
 server/subscription_manager.go      |  8 +++++-
 5 files changed, 52 insertions(+), 23 deletions(-)

diff --git a/server/datachange_monitored_item.go b/server/datachange_monitored_item.go
index 2f023a0..cd933e0 100644
--- a/server/datachange_monitored_item.go
+++ b/server/datachange_monitored_item.go
@@ -129,6 +129,9 @@ func (mi *DataChangeMonitoredItem) SetTriggered(val bool) {
 func (mi *DataChangeMonitoredItem) Modify(req ua.MonitoredItemModifyRequest) ua.MonitoredItemModifyResult {
 	mi.Lock()
 	defer mi.Unlock()
+	if mi.sub == nil {
+		return ua.MonitoredItemModifyResult{StatusCode: ua.BadMonitoredItemIDInvalid}
+	}
 	mi.stopMonitoring()
 	mi.clientHandle = req.RequestedParameters.ClientHandle
 	mi.discardOldest = req.RequestedParameters.DiscardOldest
@@ -156,7 +159,7 @@ func (mi *DataChangeMonitoredItem) Delete() {
 func (mi *DataChangeMonitoredItem) SetMonitoringMode(mode ua.MonitoringMode) {
 	mi.Lock()
 	defer mi.Unlock()
-	if mi.monitoringMode == mode {
+	if mi.monitoringMode == mode || mi.sub == nil {
 		return
 	}
 	mi.stopMonitoring()
diff --git a/server/event_monitored_item.go b/server/event_monitored_item.go
index bd86136..a46877e 100644
--- a/server/event_monitored_item.go
+++ b/server/event_monitored_item.go
@@ -115,6 +115,9 @@ func (mi *EventMonitoredItem) SetTriggered(val bool) {
 func (mi *EventMonitoredItem) Modify(req ua.MonitoredItemModifyRequest) ua.MonitoredItemModifyResult {
 	mi.Lock()
 	defer mi.Unlock()
+	if mi.sub == nil {
+		return ua.MonitoredItemModifyResult{StatusCode: ua.BadMonitoredItemIDInvalid}
+	}
 	mi.stopMonitoring()
 	mi.clientHandle = req.RequestedParameters.ClientHandle
 	mi.discardOldest = req.RequestedParameters.DiscardOldest
@@ -140,7 +143,7 @@ func (mi *EventMonitoredItem) Delete() {
 func (mi *EventMonitoredItem) SetMonitoringMode(mode ua.MonitoringMode) {
 	mi.Lock()
 	defer mi.Unlock()
-	if mi.monitoringMode == mode {
+	if mi.monitoringMode == mode || mi.sub == nil {
 		return
 	}
 	mi.stopMonitoring()
diff --git a/server/server_service_set.go b/server/server_service_set.go
index 0d7ad89..2f3e779 100644
--- a/server/server_service_set.go
+++ b/server/server_service_set.go
@@ -4082,7 +4082,10 @@ func (srv *Server) handleCreateMonitoredItems(ch *serverSecureChannel, requestid
 				}
 			}
 			mi := NewDataChangeMonitoredItem(sub, n, item.ItemToMonitor, item.MonitoringMode, item.RequestedParameters, req.TimestampsToReturn, minSupportedSampleRate)
-			sub.AppendItem(mi)
+			if !sub.AppendItem(mi) {
+				results[i] = ua.MonitoredItemCreateResult{StatusCode: ua.BadSubscriptionIDInvalid}
+				continue
+			}
 			results[i] = ua.MonitoredItemCreateResult{
 				MonitoredItemID:         mi.ID(),
 				RevisedSamplingInterval: mi.SamplingInterval(),
@@ -4111,7 +4114,10 @@ func (srv *Server) handleCreateMonitoredItems(ch *serverSecureChannel, requestid
 				continue
 			}
 			mi := NewEventMonitoredItem(sub, n, item.ItemToMonitor, item.MonitoringMode, item.RequestedParameters)
-			sub.AppendItem(mi)
+			if !sub.AppendItem(mi) {
+				results[i] = ua.MonitoredItemCreateResult{StatusCode: ua.BadSubscriptionIDInvalid}
+				continue
+			}
 			results[i] = ua.MonitoredItemCreateResult{
 				MonitoredItemID:         mi.ID(),
 				RevisedSamplingInterval: mi.SamplingInterval(),
@@ -4129,7 +4135,10 @@ func (srv *Server) handleCreateMonitoredItems(ch *serverSecureChannel, requestid
 				continue
 			}
 			mi := NewDataChangeMonitoredItem(sub, n, item.ItemToMonitor, item.MonitoringMode, item.RequestedParameters, req.TimestampsToReturn, minSupportedSampleRate)
-			sub.AppendItem(mi)
+			if !sub.AppendItem(mi) {
+				results[i] = ua.MonitoredItemCreateResult{StatusCode: ua.BadSubscriptionIDInvalid}
+				continue
+			}
 			results[i] = ua.MonitoredItemCreateResult{
 				MonitoredItemID:         mi.ID(),
 				RevisedSamplingInterval: mi.SamplingInterval(),
@@ -5074,7 +5083,9 @@ func (srv *Server) handleCreateSubscription(ch *serverSecureChannel, requestid u
 		}
 		return nil
 	}
+	s.Lock()
 	s.startPublishing()
+	s.Unlock()
 	// log.Printf("Created subscription '%d'.\n", s.id)
 
 	err := ch.Write(
diff --git a/server/subscription.go b/server/subscription.go
index 7fca934..629d8ed 100644
--- a/server/subscription.go
+++ b/server/subscription.go
@@ -97,21 +97,16 @@ func (s *Subscription) Delete() {
 }
 
 func (s *Subscription) deleteImpl() {
+	if s.items == nil {
+		return // already deleted
+	}
 	s.stopPublishing()
 	for id, item := range s.items {
 		delete(s.items, id)
 		item.Delete()
 	}
 	s.items = nil
-	q := s.retransmissionQueue
-	// log.Printf("Empty retransmissionQueue len: %d\n", q.Len())
-	for e := q.Front(); e != nil; e = e.Next() {
-		q.Remove(e)
-		e.Value = nil
-	}
-	s.retransmissionQueue = nil
-	s.session = nil
-	s.manager = nil
+	s.retransmissionQueue.Init()
 }
 
 func (s *Subscription) Items() []MonitoredItem {
@@ -135,6 +130,10 @@ func (s *Subscription) AppendItem(item MonitoredItem) bool {
 	s.Lock()
 	defer s.Unlock()
 	ret := false
+	if s.items == nil {
+		item.Delete() // the subscription was deleted in the meantime
+		return false
+	}
 	if _, ok := s.items[item.ID()]; !ok {
 		s.items[item.ID()] = item
 		s.monitoredItemCount++
@@ -286,12 +285,10 @@ func (s *Subscription) republish(seqNum uint32) (ua.NotificationMessage, bool) {
 	s.lifetimeCount = 0
 	s.republishRequestCount++
 	s.republishMessageRequestCount++
-	if q := s.retransmissionQueue; q != nil {
-		for e := q.Front(); e != nil; e = e.Next() {
-			if nm, ok := e.Value.(ua.NotificationMessage); ok && nm.SequenceNumber == seqNum {
-				s.republishMessageCount++
-				return nm, true
-			}
+	for e := s.retransmissionQueue.Front(); e != nil; e = e.Next() {
+		if nm, ok := e.Value.(ua.NotificationMessage); ok && nm.SequenceNumber == seqNum {
+			s.republishMessageCount++
+			return nm, true
 		}
 	}
 	return ua.NotificationMessage{}, false
@@ -299,6 +296,9 @@ func (s *Subscription) republish(seqNum uint32) (ua.NotificationMessage, bool) {
 
 func (s *Subscription) startPublishing() {
 	// log.Printf("startPublishing %d \n", s.id)
+	if s.items == nil {
+		return // already deleted
+	}
 	s.cancelPublishing = make(chan struct{})
 
 	go func(done chan struct{}, interval time.Duration, f func(time.Time) error) {
@@ -317,13 +317,19 @@ func (s *Subscription) startPublishing() {
 
 func (s *Subscription) stopPublishing() {
 	// log.Printf("stopPublishing %d \n", s.id)
-	close(s.cancelPublishing)
+	if s.cancelPublishing != nil {
+		close(s.cancelPublishing)
+		s.cancelPublishing = nil
+	}
 }
 
 func (s *Subscription) publish(tn time.Time) error {
 	// log.Printf("onPublish id: %d, keepAlive: %d, lifetime: %d\n", s.id, s.keepAliveCount, s.lifetimeCount)
 	s.Lock()
 	defer s.Unlock()
+	if s.items == nil {
+		return nil // already deleted
+	}
 	notificationsAvailable := false
 	for _, item := range s.items {
 		if item.notificationsAvailable(tn, false, s.resend) {
@@ -520,7 +526,7 @@ func (s *Subscription) publish(tn time.Time) error {
 func (s *Subscription) handleLatePublishRequest(ch *serverSecureChannel, requestid uint32, req *ua.PublishRequest, results []ua.StatusCode) (bool, error) {
 	s.Lock()
 	defer s.Unlock()
-	if !s.isLate {
+	if !s.isLate || s.items == nil {
 		return false, nil
 	}
 	tn := time.Now()
diff --git a/server/subscription_manager.go b/server/subscription_manager.go
index a1d27fe..98a2011 100644
--- a/server/subscription_manager.go
+++ b/server/subscription_manager.go
@@ -118,9 +118,15 @@ func (m *SubscriptionManager) checkForExpiredSubscriptions() {
 
 func (m *SubscriptionManager) stopPublishingAllSubscriptions() {
 	m.RLock()
-	defer m.RUnlock()
+	subs := make([]*Subscription, 0, len(m.subscriptionsByID))
 	for _, v := range m.subscriptionsByID {
+		subs = append(subs, v)
+	}
+	m.RUnlock()
+	for _, v := range subs {
+		v.Lock()
 		v.stopPublishing()
+		v.Unlock()
 	}
 }
 
-- 
2.43.0


From 64d51734117564269529b42d4c6ab79b1bebb1f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:49:30 +0000
Subject: [PATCH 053/112] fix: do not deadlock when subscriptions expire while
 others are checked for expiry

---
 server/subscription_manager.go | 24 +++++++++---------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/server/subscription_manager.go b/server/subscription_manager.go
index 98a2011..8617c8d 100644
--- a/server/subscription_manager.go
+++ b/server/subscription_manager.go
@@ -95,22 +95,16 @@ func (m *SubscriptionManager) GetBySession(session *Session) []*Subscription {
 }
 
 func (m *SubscriptionManager) checkForExpiredSubscriptions() {
-	m.Lock()
-	defer m.Unlock()
-	for k, s := range m.subscriptionsByID {
+	m.RLock()
+	subs := make([]*Subscription, 0, len(m.subscriptionsByID))
+	for _, s := range m.subscriptionsByID {
+		subs = append(subs, s)
+	}
+	m.RUnlock()
+	for _, s := range subs {
+		// the lock of the manager is not held here, as a subscription that publishes locks itself first
 		if s.IsExpired() {
-			delete(m.subscriptionsByID, k)
-			if m.server.serverDiagnostics {
-				// remove diagnostic node
-				nm := m.server.NamespaceManager()
-				if n, ok := nm.FindNode(s.diagnosticsNodeId); ok {
-					nm.DeleteNode(n, true)
-				}
-				m.server.Lock()
-				m.server.serverDiagnosticsSummary.CurrentSubscriptionCount = uint32(len(m.subscriptionsByID))
-				m.server.Unlock()
-			}
-			// log.Printf("Deleted expired subscription '%d'.\n", k)
+			m.Delete(s)
 			s.Delete()
 		}
 	}
-- 
2.43.0


From 6419e65d00b84ad1e66ae22b5250dfa5c5f8c4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:00 +0000
Subject: [PATCH 054/112] fix: do not use a monitored item that is deleted in
 the meantime

---
 server/datachange_monitored_item.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/server/datachange_monitored_item.go b/server/datachange_monitored_item.go
index cd933e0..12572ff 100644
--- a/server/datachange_monitored_item.go
+++ b/server/datachange_monitored_item.go
@@ -129,10 +129,10 @@ func (mi *DataChangeMonitoredItem) SetTriggered(val bool) {
 func (mi *DataChangeMonitoredItem) Modify(req ua.MonitoredItemModifyRequest) ua.MonitoredItemModifyResult {
 	mi.Lock()
 	defer mi.Unlock()
+	mi.stopMonitoring()
 	if mi.sub == nil {
 		return ua.MonitoredItemModifyResult{StatusCode: ua.BadMonitoredItemIDInvalid}
 	}
-	mi.stopMonitoring()
 	mi.clientHandle = req.RequestedParameters.ClientHandle
 	mi.discardOldest = req.RequestedParameters.DiscardOldest
 	mi.setQueueSize(req.RequestedParameters.QueueSize)
@@ -159,10 +159,13 @@ func (mi *DataChangeMonitoredItem) Delete() {
 func (mi *DataChangeMonitoredItem) SetMonitoringMode(mode ua.MonitoringMode) {
 	mi.Lock()
 	defer mi.Unlock()
-	if mi.monitoringMode == mode || mi.sub == nil {
+	if mi.monitoringMode == mode {
 		return
 	}
 	mi.stopMonitoring()
+	if mi.sub == nil {
+		return
+	}
 	mi.monitoringMode = mode
 	if mode == ua.MonitoringModeDisabled {
 		mi.queue.Clear()
@@ -262,6 +265,9 @@ func (mi *DataChangeMonitoredItem) startMonitoring() {
 	mi.sample()
 	mi.srv.Scheduler().GetPollGroup(time.Duration(mi.samplingInterval) * time.Millisecond).Subscribe(mi)
 	mi.Lock()
+	if mi.sub == nil {
+		mi.stopMonitoring() // deleted in the meantime
+	}
 }
 
 func (mi *DataChangeMonitoredItem) stopMonitoring() {
-- 
2.43.0


From aef0ab0552e46f3e8a6a3d1b5c0483a033cfa021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:02 +0000
Subject: [PATCH 055/112] fix: do not expire publish requests that have no
 timeout

---
 server/session.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/server/session.go b/server/session.go
index 549b0ce..a3cbd65 100644
--- a/server/session.go
+++ b/server/session.go
@@ -345,8 +345,8 @@ func (s *Session) removePublishRequest() (*serverSecureChannel, uint32, *ua.Publ
 			req := op.req
 			rid := op.requestId
 			results := op.results
-			// check if expired
-			if time.Now().After(req.RequestHeader.Timestamp.Add(time.Duration(req.RequestHeader.TimeoutHint) * time.Millisecond)) {
+			// check if expired, a timeout of 0 means none
+			if req.RequestHeader.TimeoutHint != 0 && time.Now().After(req.RequestHeader.Timestamp.Add(time.Duration(req.RequestHeader.TimeoutHint) * time.Millisecond)) {
 				err := ch.Write(
 					&ua.ServiceFault{
 						ResponseHeader: ua.ResponseHeader{
-- 
2.43.0


From ca4bbaf74df020baacf68c6cfded49220ae2f7dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:04 +0000
Subject: [PATCH 056/112] fix: do not fail a publish request because an older
 one belongs to a closed channel

---
 server/session.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/server/session.go b/server/session.go
index a3cbd65..66d122e 100644
--- a/server/session.go
+++ b/server/session.go
@@ -316,7 +316,8 @@ func (s *Session) addPublishRequest(ch *serverSecureChannel, requestid uint32, r
 		// make room, unless the requests were removed in the meantime
 		select {
 		case op := <-publishRequests:
-			err := op.ch.Write(
+			// the request may be of a channel that is closed, which is no reason to fail the new one
+			op.ch.Write(
 				&ua.ServiceFault{
 					ResponseHeader: ua.ResponseHeader{
 						Timestamp:     time.Now(),
@@ -326,9 +327,6 @@ func (s *Session) addPublishRequest(ch *serverSecureChannel, requestid uint32, r
 				},
 				op.requestId,
 			)
-			if err != nil {
-				return err
-			}
 		default:
 		}
 	}
-- 
2.43.0


From a43f5d965f36caa21d2d70d0907860f414c32e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:06 +0000
Subject: [PATCH 057/112] fix: do not deadlock when monitored items trigger
 each other or themselves

---
 server/datachange_monitored_item.go | 21 +++++++++++----------
 server/event_monitored_item.go      | 21 +++++++++++----------
 2 files changed, 22 insertions(+), 20 deletions(-)

diff --git a/server/datachange_monitored_item.go b/server/datachange_monitored_item.go
index 12572ff..49dcb35 100644
--- a/server/datachange_monitored_item.go
+++ b/server/datachange_monitored_item.go
@@ -38,7 +38,7 @@ type DataChangeMonitoredItem struct {
 	ts                  time.Time
 	ti                  time.Duration
 	triggeredItems      []MonitoredItem
-	triggered           bool
+	triggered           uint32
 }
 
 // NewDataChangeMonitoredItem constructs a new DataChangeMonitoredItem.
@@ -113,16 +113,17 @@ func (mi *DataChangeMonitoredItem) ClientHandle() uint32 {
 
 // Triggered returns true when the MonitoredItem is triggered.
 func (mi *DataChangeMonitoredItem) Triggered() bool {
-	mi.RLock()
-	defer mi.RUnlock()
-	return mi.triggered
+	return atomic.LoadUint32(&mi.triggered) != 0
 }
 
 // SetTriggered sets when the MonitoredItem is triggered.
 func (mi *DataChangeMonitoredItem) SetTriggered(val bool) {
-	mi.Lock()
-	defer mi.Unlock()
-	mi.triggered = val
+	// no lock is taken as the item that triggers is locked, which may be this item or one triggered by it
+	if val {
+		atomic.StoreUint32(&mi.triggered, 1)
+	} else {
+		atomic.StoreUint32(&mi.triggered, 0)
+	}
 }
 
 // Modify modifies the MonitoredItem.
@@ -375,8 +376,8 @@ func (mi *DataChangeMonitoredItem) notifications(max int) (notifications []any,
 		}
 	}
 	more = mi.queue.Len() > 0
-	if mi.triggered && !more {
-		mi.triggered = false
+	if mi.Triggered() && !more {
+		mi.SetTriggered(false)
 		// log.Printf("Reset triggered %d", mi.id)
 	}
 	return notifications, more
@@ -437,7 +438,7 @@ func (mi *DataChangeMonitoredItem) notificationsAvailable(tn time.Time, late boo
 			mi.previousQueuedValue = v
 		}
 	}
-	return mi.queue.Len() > 0 && (mi.monitoringMode == ua.MonitoringModeReporting || mi.triggered)
+	return mi.queue.Len() > 0 && (mi.monitoringMode == ua.MonitoringModeReporting || mi.Triggered())
 }
 
 func (mi *DataChangeMonitoredItem) isDataChange(current, previous ua.DataValue) bool {
diff --git a/server/event_monitored_item.go b/server/event_monitored_item.go
index a46877e..413fce2 100644
--- a/server/event_monitored_item.go
+++ b/server/event_monitored_item.go
@@ -28,7 +28,7 @@ type EventMonitoredItem struct {
 	sub              *Subscription
 	srv              *Server
 	triggeredItems   []MonitoredItem
-	triggered        bool
+	triggered        uint32
 }
 
 // NewEventMonitoredItem constructs a new EventMonitoredItem.
@@ -99,16 +99,17 @@ func (mi *EventMonitoredItem) ClientHandle() uint32 {
 
 // Triggered returns true when the MonitoredItem is triggered.
 func (mi *EventMonitoredItem) Triggered() bool {
-	mi.RLock()
-	defer mi.RUnlock()
-	return mi.triggered
+	return atomic.LoadUint32(&mi.triggered) != 0
 }
 
 // SetTriggered sets when the MonitoredItem is triggered.
 func (mi *EventMonitoredItem) SetTriggered(val bool) {
-	mi.Lock()
-	defer mi.Unlock()
-	mi.triggered = val
+	// no lock is taken as the item that triggers is locked, which may be this item or one triggered by it
+	if val {
+		atomic.StoreUint32(&mi.triggered, 1)
+	} else {
+		atomic.StoreUint32(&mi.triggered, 0)
+	}
 }
 
 // Modify modifies the MonitoredItem.
@@ -309,8 +310,8 @@ func (mi *EventMonitoredItem) notifications(max int) (notifications []any, more
 		}
 	}
 	more = mi.queue.Len() > 0
-	if mi.triggered && !more {
-		mi.triggered = false
+	if mi.Triggered() && !more {
+		mi.SetTriggered(false)
 		// log.Printf("Reset triggered %d", mi.id)
 	}
 	return notifications, more
@@ -325,7 +326,7 @@ func (mi *EventMonitoredItem) notificationsAvailable(tn time.Time, late bool, re
 		return false
 	}
 
-	return mi.queue.Len() > 0 && (mi.monitoringMode == ua.MonitoringModeReporting || mi.triggered)
+	return mi.queue.Len() > 0 && (mi.monitoringMode == ua.MonitoringModeReporting || mi.Triggered())
 }
 
 // AddTriggeredItem adds a item to be triggered by this item.
-- 
2.43.0


From fdc0c727a1fac0ffe87f74cf2a3e0d805553ea39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:49 +0000
Subject: [PATCH 058/112] fix: do not deadlock when an event is raised while
 its monitored items change

---
 server/event_monitored_item.go | 4 ++++
 server/object_node.go          | 7 ++++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/server/event_monitored_item.go b/server/event_monitored_item.go
index 413fce2..f818cea 100644
--- a/server/event_monitored_item.go
+++ b/server/event_monitored_item.go
@@ -216,6 +216,10 @@ func (mi *EventMonitoredItem) enqueue(item []ua.Variant) {
 
 func (mi *EventMonitoredItem) OnEvent(evt ua.Event) {
 	mi.Lock()
+	if mi.sub == nil || mi.monitoringMode == ua.MonitoringModeDisabled {
+		mi.Unlock()
+		return
+	}
 	if res, ok := mi.whereClause(evt, 0).(bool); ok && res {
 		mi.enqueue(mi.selectFields(evt))
 	}
diff --git a/server/object_node.go b/server/object_node.go
index 1c90889..8b5bc5b 100644
--- a/server/object_node.go
+++ b/server/object_node.go
@@ -116,8 +116,13 @@ func (n *ObjectNode) EventNotifier() byte {
 // OnEvent raises an event from this node.
 func (n *ObjectNode) OnEvent(evt ua.Event) {
 	n.RLock()
-	defer n.RUnlock()
+	subs := make([]EventListener, 0, len(n.subs))
 	for sub := range n.subs {
+		subs = append(subs, sub)
+	}
+	n.RUnlock()
+	// the node is not locked here, as a listener that is modified or deleted locks itself first
+	for _, sub := range subs {
 		sub.OnEvent(evt)
 	}
 }
-- 
2.43.0


From 4fc9c62536c7743329003491de722a92a106a2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:52 +0000
Subject: [PATCH 059/112] fix: evaluate malformed where clauses as false
 instead of panicking

---
 server/datachange_monitored_item.go |  4 ++++
 server/event_monitored_item.go      | 19 ++++++++++++++++++-
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/server/datachange_monitored_item.go b/server/datachange_monitored_item.go
index 49dcb35..14b634e 100644
--- a/server/datachange_monitored_item.go
+++ b/server/datachange_monitored_item.go
@@ -488,6 +488,10 @@ func equalValue(current, previous ua.Variant) bool {
 		if b, ok := previous.(float64); ok && a != a && b != b {
 			return true
 		}
+	case time.Time:
+		if b, ok := previous.(time.Time); ok {
+			return a.Equal(b)
+		}
 	}
 	return reflect.DeepEqual(current, previous)
 }
diff --git a/server/event_monitored_item.go b/server/event_monitored_item.go
index f818cea..2df8a83 100644
--- a/server/event_monitored_item.go
+++ b/server/event_monitored_item.go
@@ -238,6 +238,9 @@ func (mi *EventMonitoredItem) whereClause(evt ua.Event, idx int) any {
 	switch element.FilterOperator {
 
 	case ua.FilterOperatorEquals:
+		if len(element.FilterOperands) < 2 {
+			return false
+		}
 		var a, b ua.Variant
 		switch c := element.FilterOperands[0].(type) {
 		case ua.LiteralOperand:
@@ -245,6 +248,9 @@ func (mi *EventMonitoredItem) whereClause(evt ua.Event, idx int) any {
 		case ua.SimpleAttributeOperand:
 			a = evt.GetAttribute(c)
 		case ua.ElementOperand:
+			if !mi.isElementIndexValid(c, idx) {
+				return false
+			}
 			a = mi.whereClause(evt, int(c.Index))
 		default:
 			return false
@@ -255,13 +261,19 @@ func (mi *EventMonitoredItem) whereClause(evt ua.Event, idx int) any {
 		case ua.SimpleAttributeOperand:
 			b = evt.GetAttribute(c)
 		case ua.ElementOperand:
+			if !mi.isElementIndexValid(c, idx) {
+				return false
+			}
 			b = mi.whereClause(evt, int(c.Index))
 		default:
 			return false
 		}
-		return a == b
+		return equalValue(a, b)
 
 	case ua.FilterOperatorOfType:
+		if len(element.FilterOperands) < 1 {
+			return false
+		}
 		if a, ok := element.FilterOperands[0].(ua.LiteralOperand); ok {
 			if b, ok := a.Value.(ua.NodeID); ok {
 				if c, ok := evt.GetAttribute(attributeOperandEventType).(ua.NodeID); ok {
@@ -278,6 +290,11 @@ func (mi *EventMonitoredItem) whereClause(evt ua.Event, idx int) any {
 	}
 }
 
+// isElementIndexValid returns true if the operand refers to an element that follows the given one.
+func (mi *EventMonitoredItem) isElementIndexValid(op ua.ElementOperand, idx int) bool {
+	return int64(op.Index) > int64(idx) && int64(op.Index) < int64(len(mi.eventFilter.WhereClause.Elements))
+}
+
 func (mi *EventMonitoredItem) selectFields(evt ua.Event) []ua.Variant {
 	clauses := mi.eventFilter.SelectClauses
 	ret := make([]ua.Variant, len(clauses))
-- 
2.43.0


From 9dc659e591d9701a93c375678b438ef31b479240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:54 +0000
Subject: [PATCH 060/112] fix: raise an event once on every notifier above its
 source, also when notifiers form a cycle

---
 server/namespace_manager.go | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/server/namespace_manager.go b/server/namespace_manager.go
index 0c7cecd..de612e0 100644
--- a/server/namespace_manager.go
+++ b/server/namespace_manager.go
@@ -634,24 +634,28 @@ func (m *NamespaceManager) GetChildren(node Node, uris []string, withRefTypes []
 
 // OnEvent raises the event, starting from the target node, follows HasNotifier references until the Server node.
 func (m *NamespaceManager) OnEvent(target *ObjectNode, evt ua.Event) error {
-	for target.nodeID != ua.ObjectIDServer {
+	visited := map[ua.NodeID]struct{}{target.nodeID: {}}
+	queue := []*ObjectNode{target}
+	for len(queue) > 0 {
+		target := queue[0]
+		queue = queue[1:]
 		target.OnEvent(evt)
-		found := false
+		if target.nodeID == ua.ObjectIDServer {
+			continue
+		}
 		for _, r := range target.References() {
 			if r.IsInverse && r.ReferenceTypeID == ua.ReferenceTypeIDHasNotifier {
-				if target1, ok1 := m.FindObject(ua.ToNodeID(r.TargetID, m.NamespaceUris())); ok1 {
-					found = true
-					target = target1
-					break
+				target1, ok1 := m.FindObject(ua.ToNodeID(r.TargetID, m.NamespaceUris()))
+				if !ok1 {
+					return ua.BadNodeIDUnknown
+				}
+				if _, ok := visited[target1.nodeID]; !ok {
+					visited[target1.nodeID] = struct{}{}
+					queue = append(queue, target1)
 				}
-				return ua.BadNodeIDUnknown
 			}
 		}
-		if !found {
-			return nil
-		}
 	}
-	target.OnEvent(evt)
 	return nil
 }
 
-- 
2.43.0


From 52323a3e850639b736460644d331e2c55752b10e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:51:58 +0000
Subject: [PATCH 061/112] fix: refuse data change filters that are invalid or
 not supported

---
 server/server_service_set.go | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/server/server_service_set.go b/server/server_service_set.go
index 2f3e779..8d30046 100644
--- a/server/server_service_set.go
+++ b/server/server_service_set.go
@@ -4069,6 +4069,10 @@ func (srv *Server) handleCreateMonitoredItems(ch *serverSecureChannel, requestid
 				results[i] = ua.MonitoredItemCreateResult{StatusCode: ua.BadFilterNotAllowed}
 				continue
 			}
+			if sc := validateDataChangeFilter(dcf); sc != ua.Good {
+				results[i] = ua.MonitoredItemCreateResult{StatusCode: sc}
+				continue
+			}
 			if dcf.DeadbandType != uint32(ua.DeadbandTypeNone) {
 				destType := srv.NamespaceManager().FindVariantType(n2.DataType())
 				switch destType {
@@ -4338,6 +4342,10 @@ func (srv *Server) handleModifyMonitoredItems(ch *serverSecureChannel, requestid
 					results[i] = ua.MonitoredItemModifyResult{StatusCode: ua.BadFilterNotAllowed}
 					continue
 				}
+				if sc := validateDataChangeFilter(dcf); sc != ua.Good {
+					results[i] = ua.MonitoredItemModifyResult{StatusCode: sc}
+					continue
+				}
 				if dcf.DeadbandType != uint32(ua.DeadbandTypeNone) {
 					destType := srv.NamespaceManager().FindVariantType(item.Node().(*VariableNode).DataType())
 					switch destType {
@@ -4924,6 +4932,27 @@ func (srv *Server) handleDeleteMonitoredItems(ch *serverSecureChannel, requestid
 	return nil
 }
 
+// validateDataChangeFilter returns Good if the filter is valid and supported. A percent deadband is not supported.
+func validateDataChangeFilter(dcf ua.DataChangeFilter) ua.StatusCode {
+	switch dcf.Trigger {
+	case ua.DataChangeTriggerStatus, ua.DataChangeTriggerStatusValue, ua.DataChangeTriggerStatusValueTimestamp:
+	default:
+		return ua.BadMonitoredItemFilterInvalid
+	}
+	switch ua.DeadbandType(dcf.DeadbandType) {
+	case ua.DeadbandTypeNone:
+	case ua.DeadbandTypeAbsolute:
+		if math.IsNaN(dcf.DeadbandValue) || dcf.DeadbandValue < 0 {
+			return ua.BadDeadbandFilterInvalid
+		}
+	case ua.DeadbandTypePercent:
+		return ua.BadMonitoredItemFilterUnsupported
+	default:
+		return ua.BadMonitoredItemFilterInvalid
+	}
+	return ua.Good
+}
+
 func (srv *Server) validateIndexRange(s string, dataType ua.NodeID, rank int32) ua.StatusCode {
 	lo := int64(-1)
 	hi := int64(-1)
-- 
2.43.0


From 3e598c7fe43a5a1e0aa082e9f832fa3ec78e830d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:12:22 +0000
Subject: [PATCH 062/112] fix: do not close a resumed session's channel over
 publish requests of its former channel

---
 server/server_service_set.go | 6 ++----
 server/session.go            | 6 ++----
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/server/server_service_set.go b/server/server_service_set.go
index 8d30046..ebe995f 100644
--- a/server/server_service_set.go
+++ b/server/server_service_set.go
@@ -5501,7 +5501,8 @@ func (srv *Server) handleDeleteSubscriptions(ch *serverSecureChannel, requestid
 		for ok {
 			session.publishErrorCount++
 			session.errorCount++
-			err := ch.Write(
+			// the request may be of a channel that is closed, which is no reason to fail this one
+			ch.Write(
 				&ua.ServiceFault{
 					ResponseHeader: ua.ResponseHeader{
 						Timestamp:     time.Now(),
@@ -5511,9 +5512,6 @@ func (srv *Server) handleDeleteSubscriptions(ch *serverSecureChannel, requestid
 				},
 				requestid,
 			)
-			if err != nil {
-				return err
-			}
 			ch, requestid, req, _, ok, err = session.removePublishRequest()
 			if err != nil {
 				return err
diff --git a/server/session.go b/server/session.go
index 66d122e..0825e01 100644
--- a/server/session.go
+++ b/server/session.go
@@ -345,7 +345,8 @@ func (s *Session) removePublishRequest() (*serverSecureChannel, uint32, *ua.Publ
 			results := op.results
 			// check if expired, a timeout of 0 means none
 			if req.RequestHeader.TimeoutHint != 0 && time.Now().After(req.RequestHeader.Timestamp.Add(time.Duration(req.RequestHeader.TimeoutHint) * time.Millisecond)) {
-				err := ch.Write(
+				// the request may be of a channel that is closed, which is no reason to fail the ones that follow
+				ch.Write(
 					&ua.ServiceFault{
 						ResponseHeader: ua.ResponseHeader{
 							Timestamp:     time.Now(),
@@ -355,9 +356,6 @@ func (s *Session) removePublishRequest() (*serverSecureChannel, uint32, *ua.Publ
 					},
 					rid,
 				)
-				if err != nil {
-					return nil, 0, nil, nil, false, err
-				}
 				continue
 			}
 			return ch, rid, req, results, true, nil
-- 
2.43.0


From e4cc43b268904ed3a5387922a89cc8066ff7b428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:17:39 +0000
Subject: [PATCH 063/112] fix: apply the timestamps selected when a monitored
 item is modified

---
 server/datachange_monitored_item.go | 7 +++++++
 server/server_service_set.go        | 6 ++++++
 2 files changed, 13 insertions(+)

diff --git a/server/datachange_monitored_item.go b/server/datachange_monitored_item.go
index 14b634e..d325f9e 100644
--- a/server/datachange_monitored_item.go
+++ b/server/datachange_monitored_item.go
@@ -143,6 +143,13 @@ func (mi *DataChangeMonitoredItem) Modify(req ua.MonitoredItemModifyRequest) ua.
 	return ua.MonitoredItemModifyResult{RevisedSamplingInterval: mi.samplingInterval, RevisedQueueSize: mi.queueSize}
 }
 
+// setTimestampsToReturn selects the timestamps of the values sampled from now on.
+func (mi *DataChangeMonitoredItem) setTimestampsToReturn(timestampsToReturn ua.TimestampsToReturn) {
+	mi.Lock()
+	defer mi.Unlock()
+	mi.timestampsToReturn = timestampsToReturn
+}
+
 // Delete deletes the DataMonitoredItem.
 func (mi *DataChangeMonitoredItem) Delete() {
 	mi.Lock()
diff --git a/server/server_service_set.go b/server/server_service_set.go
index ebe995f..5b90f76 100644
--- a/server/server_service_set.go
+++ b/server/server_service_set.go
@@ -4359,6 +4359,9 @@ func (srv *Server) handleModifyMonitoredItems(ch *serverSecureChannel, requestid
 					}
 				}
 				results[i] = item.Modify(modifyReq)
+				if mi, ok := item.(*DataChangeMonitoredItem); ok {
+					mi.setTimestampsToReturn(req.TimestampsToReturn)
+				}
 				continue
 			case attr == ua.AttributeIDEventNotifier:
 				if modifyReq.RequestedParameters.Filter == nil {
@@ -4377,6 +4380,9 @@ func (srv *Server) handleModifyMonitoredItems(ch *serverSecureChannel, requestid
 					continue
 				}
 				results[i] = item.Modify(modifyReq)
+				if mi, ok := item.(*DataChangeMonitoredItem); ok {
+					mi.setTimestampsToReturn(req.TimestampsToReturn)
+				}
 				continue
 			}
 		} else {
-- 
2.43.0


From 224c008e82fae695ee98c2e4634152ed66e0d500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:17:41 +0000
Subject: [PATCH 064/112] fix: add a triggering link only once, so that
 removing it ends the triggering

---
 server/datachange_monitored_item.go | 7 ++++++-
 server/event_monitored_item.go      | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/server/datachange_monitored_item.go b/server/datachange_monitored_item.go
index d325f9e..189c925 100644
--- a/server/datachange_monitored_item.go
+++ b/server/datachange_monitored_item.go
@@ -311,8 +311,13 @@ func (mi *DataChangeMonitoredItem) sample() {
 // AddTriggeredItem adds a item to be triggered by this item.
 func (mi *DataChangeMonitoredItem) AddTriggeredItem(item MonitoredItem) bool {
 	mi.Lock()
+	defer mi.Unlock()
+	for _, e := range mi.triggeredItems {
+		if e.ID() == item.ID() {
+			return true // already linked
+		}
+	}
 	mi.triggeredItems = append(mi.triggeredItems, item)
-	mi.Unlock()
 	return true
 }
 
diff --git a/server/event_monitored_item.go b/server/event_monitored_item.go
index 2df8a83..1fbacdf 100644
--- a/server/event_monitored_item.go
+++ b/server/event_monitored_item.go
@@ -353,8 +353,13 @@ func (mi *EventMonitoredItem) notificationsAvailable(tn time.Time, late bool, re
 // AddTriggeredItem adds a item to be triggered by this item.
 func (mi *EventMonitoredItem) AddTriggeredItem(item MonitoredItem) bool {
 	mi.Lock()
+	defer mi.Unlock()
+	for _, e := range mi.triggeredItems {
+		if e.ID() == item.ID() {
+			return true // already linked
+		}
+	}
 	mi.triggeredItems = append(mi.triggeredItems, item)
-	mi.Unlock()
 	return true
 }
 
-- 
2.43.0


From 72ef815bf23d167d7df1c88229d42aab1fa5ed6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:17:43 +0000
Subject: [PATCH 065/112] fix: refuse monitoring modes that do not exist

---
 server/server_service_set.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/server/server_service_set.go b/server/server_service_set.go
index 5b90f76..1694ae3 100644
--- a/server/server_service_set.go
+++ b/server/server_service_set.go
@@ -4041,6 +4041,10 @@ func (srv *Server) handleCreateMonitoredItems(ch *serverSecureChannel, requestid
 			results[i] = ua.MonitoredItemCreateResult{StatusCode: ua.BadAttributeIDInvalid}
 			continue
 		}
+		if item.MonitoringMode < ua.MonitoringModeDisabled || item.MonitoringMode > ua.MonitoringModeReporting {
+			results[i] = ua.MonitoredItemCreateResult{StatusCode: ua.BadMonitoringModeInvalid}
+			continue
+		}
 		switch attr {
 		case ua.AttributeIDValue:
 			n2, ok := n.(*VariableNode)
@@ -4547,6 +4551,10 @@ func (srv *Server) handleSetMonitoringMode(ch *serverSecureChannel, requestid ui
 	results := make([]ua.StatusCode, l)
 
 	for i, id := range req.MonitoredItemIDs {
+		if req.MonitoringMode < ua.MonitoringModeDisabled || req.MonitoringMode > ua.MonitoringModeReporting {
+			results[i] = ua.BadMonitoringModeInvalid
+			continue
+		}
 		if item, ok := sub.FindItem(id); ok {
 			item.SetMonitoringMode(req.MonitoringMode)
 			results[i] = ua.Good
-- 
2.43.0


From 7b0454347cce27ebacbda3173648245aa3b8f51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:18:01 +0000
Subject: [PATCH 066/112] fix: count only disabled monitored items as disabled

---
 server/datachange_monitored_item.go | 8 ++++----
 server/event_monitored_item.go      | 8 ++++----
 server/server.go                    | 2 +-
 server/subscription.go              | 4 ++--
 server/subscription_manager.go      | 5 +++--
 5 files changed, 14 insertions(+), 13 deletions(-)

diff --git a/server/datachange_monitored_item.go b/server/datachange_monitored_item.go
index 189c925..6472c08 100644
--- a/server/datachange_monitored_item.go
+++ b/server/datachange_monitored_item.go
@@ -174,14 +174,14 @@ func (mi *DataChangeMonitoredItem) SetMonitoringMode(mode ua.MonitoringMode) {
 	if mi.sub == nil {
 		return
 	}
-	mi.monitoringMode = mode
 	if mode == ua.MonitoringModeDisabled {
 		mi.queue.Clear()
 		mi.previousQueuedValue = ua.NewDataValue(nil, ua.BadWaitingForInitialData, time.Time{}, 0, time.Time{}, 0)
-		mi.sub.disabledMonitoredItemCount++
-	} else {
-		mi.sub.disabledMonitoredItemCount--
+		atomic.AddUint32(&mi.sub.disabledMonitoredItemCount, 1)
+	} else if mi.monitoringMode == ua.MonitoringModeDisabled {
+		atomic.AddUint32(&mi.sub.disabledMonitoredItemCount, ^uint32(0))
 	}
+	mi.monitoringMode = mode
 	mi.startMonitoring()
 }
 
diff --git a/server/event_monitored_item.go b/server/event_monitored_item.go
index 1fbacdf..834d94b 100644
--- a/server/event_monitored_item.go
+++ b/server/event_monitored_item.go
@@ -148,13 +148,13 @@ func (mi *EventMonitoredItem) SetMonitoringMode(mode ua.MonitoringMode) {
 		return
 	}
 	mi.stopMonitoring()
-	mi.monitoringMode = mode
 	if mode == ua.MonitoringModeDisabled {
 		mi.queue.Clear()
-		mi.sub.disabledMonitoredItemCount++
-	} else {
-		mi.sub.disabledMonitoredItemCount--
+		atomic.AddUint32(&mi.sub.disabledMonitoredItemCount, 1)
+	} else if mi.monitoringMode == ua.MonitoringModeDisabled {
+		atomic.AddUint32(&mi.sub.disabledMonitoredItemCount, ^uint32(0))
 	}
+	mi.monitoringMode = mode
 	mi.startMonitoring()
 }
 
diff --git a/server/server.go b/server/server.go
index 9c5251e..7cdc9da 100644
--- a/server/server.go
+++ b/server/server.go
@@ -841,7 +841,7 @@ func (srv *Server) initializeNamespace() error {
 					UnacknowledgedMessageCount:   s.unacknowledgedMessageCount,
 					// DiscardedMessageCount:        uint32(0),
 					MonitoredItemCount:           s.monitoredItemCount,
-					DisabledMonitoredItemCount:   s.disabledMonitoredItemCount,
+					DisabledMonitoredItemCount:   atomic.LoadUint32(&s.disabledMonitoredItemCount),
 					MonitoringQueueOverflowCount: s.monitoringQueueOverflowCount,
 					NextSequenceNumber:           s.nextSequenceNumber,
 					// EventQueueOverFlowCount:      uint32(0),
diff --git a/server/subscription.go b/server/subscription.go
index 629d8ed..fd27e24 100644
--- a/server/subscription.go
+++ b/server/subscription.go
@@ -138,7 +138,7 @@ func (s *Subscription) AppendItem(item MonitoredItem) bool {
 		s.items[item.ID()] = item
 		s.monitoredItemCount++
 		if item.MonitoringMode() == ua.MonitoringModeDisabled {
-			s.disabledMonitoredItemCount++
+			atomic.AddUint32(&s.disabledMonitoredItemCount, 1)
 		}
 		ret = true
 	}
@@ -154,7 +154,7 @@ func (s *Subscription) DeleteItem(id uint32) bool {
 		item.Delete()
 		s.monitoredItemCount--
 		if item.MonitoringMode() == ua.MonitoringModeDisabled {
-			s.disabledMonitoredItemCount--
+			atomic.AddUint32(&s.disabledMonitoredItemCount, ^uint32(0))
 		}
 		ret = true
 	}
diff --git a/server/subscription_manager.go b/server/subscription_manager.go
index 8617c8d..56f9ac4 100644
--- a/server/subscription_manager.go
+++ b/server/subscription_manager.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"log"
 	"sync"
+	"sync/atomic"
 	"time"
 
 	"github.com/awcullen/opcua/ua"
@@ -186,7 +187,7 @@ func (m *SubscriptionManager) addDiagnosticsNode(s *Subscription) {
 			UnacknowledgedMessageCount:   s.unacknowledgedMessageCount,
 			// DiscardedMessageCount:        uint32(0),
 			MonitoredItemCount:           s.monitoredItemCount,
-			DisabledMonitoredItemCount:   s.disabledMonitoredItemCount,
+			DisabledMonitoredItemCount:   atomic.LoadUint32(&s.disabledMonitoredItemCount),
 			MonitoringQueueOverflowCount: s.monitoringQueueOverflowCount,
 			NextSequenceNumber:           s.nextSequenceNumber,
 			// EventQueueOverFlowCount:      uint32(0),
@@ -864,7 +865,7 @@ func (m *SubscriptionManager) addDiagnosticsNode(s *Subscription) {
 		srv.historian,
 	)
 	n.SetReadValueHandler(func(session *Session, req ua.ReadValueID) ua.DataValue {
-		return ua.NewDataValue(s.disabledMonitoredItemCount, 0, time.Now(), 0, time.Now(), 0)
+		return ua.NewDataValue(atomic.LoadUint32(&s.disabledMonitoredItemCount), 0, time.Now(), 0, time.Now(), 0)
 	})
 	nodes = append(nodes, n)
 	n = NewVariableNode(
-- 
2.43.0


From 2bc58c61d1e355552080296ba89c1ee8c699c3c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:23:29 +0000
Subject: [PATCH 067/112] fix: forget the samples of a monitored item that is
 disabled

---
 server/datachange_monitored_item.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/server/datachange_monitored_item.go b/server/datachange_monitored_item.go
index 6472c08..2621fda 100644
--- a/server/datachange_monitored_item.go
+++ b/server/datachange_monitored_item.go
@@ -176,6 +176,7 @@ func (mi *DataChangeMonitoredItem) SetMonitoringMode(mode ua.MonitoringMode) {
 	}
 	if mode == ua.MonitoringModeDisabled {
 		mi.queue.Clear()
+		mi.prequeue.Clear()
 		mi.previousQueuedValue = ua.NewDataValue(nil, ua.BadWaitingForInitialData, time.Time{}, 0, time.Time{}, 0)
 		atomic.AddUint32(&mi.sub.disabledMonitoredItemCount, 1)
 	} else if mi.monitoringMode == ua.MonitoringModeDisabled {
@@ -302,7 +303,7 @@ func (mi *DataChangeMonitoredItem) sample() {
 	v := mi.srv.readValue(sub.session, mi.itemToMonitor)
 	mi.Lock()
 	defer mi.Unlock()
-	if mi.sub != nil {
+	if mi.sub != nil && mi.monitoringMode != ua.MonitoringModeDisabled {
 		mi.prequeue.PushBack(v)
 		mi.lastSample = v
 	}
-- 
2.43.0


From eb18719129b92a59e22f3c30f3f75e71d93b40cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:31 +0000
Subject: [PATCH 068/112] fix: end expired subscriptions of a session that does
 not ask for status changes

---
 server/subscription.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/server/subscription.go b/server/subscription.go
index fd27e24..de95d1d 100644
--- a/server/subscription.go
+++ b/server/subscription.go
@@ -446,7 +446,11 @@ func (s *Subscription) publish(tn time.Time) error {
 				PublishTime:      time.Now(),
 				NotificationData: []ua.ExtensionObject{ua.StatusChangeNotification{Status: ua.BadTimeout}},
 			}
-			s.session.stateChanges <- &stateChangeOp{subscriptionId: s.id, message: nm}
+			select {
+			case s.session.stateChanges <- &stateChangeOp{subscriptionId: s.id, message: nm}:
+			default:
+				// the session does not ask for the status changes of its subscriptions
+			}
 			s.nextSequenceNumber++
 			s.manager.Delete(s)
 			s.deleteImpl()
@@ -512,7 +516,11 @@ func (s *Subscription) publish(tn time.Time) error {
 					PublishTime:      time.Now(),
 					NotificationData: []ua.ExtensionObject{ua.StatusChangeNotification{Status: ua.BadTimeout}},
 				}
-				s.session.stateChanges <- &stateChangeOp{subscriptionId: s.id, message: nm}
+				select {
+				case s.session.stateChanges <- &stateChangeOp{subscriptionId: s.id, message: nm}:
+				default:
+					// the session does not ask for the status changes of its subscriptions
+				}
 				s.nextSequenceNumber++
 				s.manager.Delete(s)
 				s.deleteImpl()
-- 
2.43.0


From 0333a59be94bbe14e37ddcf9d91bd6e5d54efec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:32 +0000
Subject: [PATCH 069/112] fix: renew a channel only for the client and policy
 it was opened with

---
 server/server_secure_channel.go | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/server/server_secure_channel.go b/server/server_secure_channel.go
index 43fcd48..ceded5b 100644
--- a/server/server_secure_channel.go
+++ b/server/server_secure_channel.go
@@ -1044,6 +1044,7 @@ func (ch *serverSecureChannel) readRequest() (ua.ServiceRequest, uint32, error)
 	// read chunks
 	var chunkCount int32
 	var isFinal bool
+	var isOpen bool
 
 	for !isFinal {
 		chunkCount++
@@ -1215,15 +1216,29 @@ func (ch *serverSecureChannel) readRequest() (ua.ServiceRequest, uint32, error)
 				return nil, 0, ua.BadDecodingError
 			}
 			// asymmetric header
-			if err := decoder.ReadString(&ch.securityPolicyURI); err != nil {
+			var securityPolicyURI string
+			if err := decoder.ReadString(&securityPolicyURI); err != nil {
 				return nil, 0, ua.BadDecodingError
 			}
-			if err := decoder.ReadByteArray(&ch.remoteCertificate); err != nil {
+			var remoteCertificate []byte
+			if err := decoder.ReadByteArray(&remoteCertificate); err != nil {
 				return nil, 0, ua.BadDecodingError
 			}
+			// an open channel is renewed by the same client with the same policy
+			if ch.lastTokenID != 0 {
+				if channelID != ch.channelID {
+					return nil, 0, ua.BadTCPSecureChannelUnknown
+				}
+				if securityPolicyURI != ch.securityPolicyURI || !bytes.Equal(remoteCertificate, ch.remoteCertificate) {
+					return nil, 0, ua.BadSecurityChecksFailed
+				}
+			}
+			ch.securityPolicyURI = securityPolicyURI
+			ch.remoteCertificate = remoteCertificate
 			if err := decoder.ReadByteArray(&ch.remoteCertificateThumbprint); err != nil {
 				return nil, 0, ua.BadDecodingError
 			}
+			isOpen = true
 			plainHeaderSize = count - stream.Len()
 
 			// setSecurityPolicy
@@ -1452,6 +1467,11 @@ func (ch *serverSecureChannel) readRequest() (ua.ServiceRequest, uint32, error)
 		return nil, 0, ua.BadDecodingError
 	}
 
+	// only the request to open the channel is secured with the asymmetric keys
+	if _, ok := temp.(*ua.OpenSecureChannelRequest); ok != isOpen || isOpen && chunkCount > 1 {
+		return nil, 0, ua.BadSecurityChecksFailed
+	}
+
 	// decode fields from message stream
 	if err := bodyDecoder.Decode(temp); err != nil {
 		return nil, 0, ua.BadDecodingError
-- 
2.43.0


From 9859865896ab0adb1995edafac18ce29bf7b9f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:34 +0000
Subject: [PATCH 070/112] fix: refuse channels with a policy and mode that no
 endpoint offers

---
 server/server_secure_channel.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/server/server_secure_channel.go b/server/server_secure_channel.go
index ceded5b..849c277 100644
--- a/server/server_secure_channel.go
+++ b/server/server_secure_channel.go
@@ -292,7 +292,10 @@ func (ch *serverSecureChannel) Open() error {
 		}
 	}
 	// connecting for discovery only
-	if ch.localEndpoint.EndpointURL == "" && ch.securityPolicyURI == ua.SecurityPolicyURINone && ch.securityMode == ua.MessageSecurityModeNone {
+	if ch.localEndpoint.EndpointURL == "" {
+		if ch.securityPolicyURI != ua.SecurityPolicyURINone || ch.securityMode != ua.MessageSecurityModeNone {
+			return ua.BadSecurityModeRejected
+		}
 		ch.discoveryOnly = true
 		ch.localEndpoint = ua.EndpointDescription{
 			EndpointURL:       ch.srv.localDescription.DiscoveryURLs[0],
-- 
2.43.0


From 12a1d82a81a903222503318ef1ee571f3c60f039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:36 +0000
Subject: [PATCH 071/112] fix: refuse certificates without an RSA key instead
 of ending the server

---
 server/server_secure_channel.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/server/server_secure_channel.go b/server/server_secure_channel.go
index 849c277..d368541 100644
--- a/server/server_secure_channel.go
+++ b/server/server_secure_channel.go
@@ -341,7 +341,11 @@ func (ch *serverSecureChannel) Open() error {
 			return err
 		}
 		cert := certs[0]
-		ch.remotePublicKey = cert.PublicKey.(*rsa.PublicKey)
+		remotePublicKey, ok := cert.PublicKey.(*rsa.PublicKey)
+		if !ok {
+			return ua.BadSecurityChecksFailed
+		}
+		ch.remotePublicKey = remotePublicKey
 		if len(cert.URIs) > 0 {
 			ch.remoteApplicationURI = cert.URIs[0].String()
 		}
@@ -1284,7 +1288,7 @@ func (ch *serverSecureChannel) readRequest() (ua.ServiceRequest, uint32, error)
 				}
 
 				if crts, err := x509.ParseCertificates(ch.remoteCertificate); err == nil && len(crts) > 0 {
-					ch.remotePublicKey = crts[0].PublicKey.(*rsa.PublicKey)
+					ch.remotePublicKey, _ = crts[0].PublicKey.(*rsa.PublicKey)
 				}
 
 				if ch.remotePublicKey == nil {
-- 
2.43.0


From 56ddef380e9f29705d706ddbbc372383fc05dc9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:11 +0000
Subject: [PATCH 072/112] fix: refuse messages too short for their headers
 instead of ending the server

---
 server/server_secure_channel.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/server/server_secure_channel.go b/server/server_secure_channel.go
index d368541..a9f2893 100644
--- a/server/server_secure_channel.go
+++ b/server/server_secure_channel.go
@@ -1171,6 +1171,9 @@ func (ch *serverSecureChannel) readRequest() (ua.ServiceRequest, uint32, error)
 			if ch.securityMode == ua.MessageSecurityModeSignAndEncrypt || ch.securityMode == ua.MessageSecurityModeSign {
 				sigEnd := int(messageLength)
 				sigStart := sigEnd - ch.securityPolicy.SymSignatureSize()
+				if sigStart < plainHeaderSize+sequenceHeaderSize {
+					return nil, 0, ua.BadDecodingError
+				}
 				ch.symVerifyHMAC.Reset()
 				if _, err := ch.symVerifyHMAC.Write(ch.receiveBuffer[:sigStart]); err != nil {
 					return nil, 0, ua.BadDecodingError
@@ -1210,6 +1213,9 @@ func (ch *serverSecureChannel) readRequest() (ua.ServiceRequest, uint32, error)
 				bodySize = int(messageLength) - plainHeaderSize - sequenceHeaderSize - symSignatureSize
 			}
 
+			if bodySize < 0 {
+				return nil, 0, ua.BadDecodingError
+			}
 			m := plainHeaderSize + sequenceHeaderSize
 			n := m + bodySize
 			if _, err := bodyStream.Write(ch.receiveBuffer[m:n]); err != nil {
@@ -1316,6 +1322,9 @@ func (ch *serverSecureChannel) readRequest() (ua.ServiceRequest, uint32, error)
 				// verify with remote public key.
 				sigEnd := int(messageLength)
 				sigStart := sigEnd - ch.remotePublicKey.Size()
+				if sigStart < plainHeaderSize+sequenceHeaderSize {
+					return nil, 0, ua.BadDecodingError
+				}
 				err := ch.securityPolicy.RSAVerify(ch.remotePublicKey, ch.receiveBuffer[:sigStart], ch.receiveBuffer[sigStart:sigEnd])
 				if err != nil {
 					return nil, 0, ua.BadDecodingError
@@ -1351,6 +1360,9 @@ func (ch *serverSecureChannel) readRequest() (ua.ServiceRequest, uint32, error)
 				bodySize = int(messageLength) - plainHeaderSize - sequenceHeaderSize //- ch.asymRemoteSignatureSize
 			}
 
+			if bodySize < 0 {
+				return nil, 0, ua.BadDecodingError
+			}
 			m := plainHeaderSize + sequenceHeaderSize
 			n := m + bodySize
 			if _, err := bodyStream.Write(ch.receiveBuffer[m:n]); err != nil {
-- 
2.43.0


From 66cc66e74b1350c80bc5e9285cffaf6023cf2b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:13 +0000
Subject: [PATCH 073/112] fix: refuse connections with buffers too small for a
 message

---
 server/server_secure_channel.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/server/server_secure_channel.go b/server/server_secure_channel.go
index a9f2893..8db06a5 100644
--- a/server/server_secure_channel.go
+++ b/server/server_secure_channel.go
@@ -31,6 +31,8 @@ const (
 	protocolVersion uint32 = 0
 	// defaultMaxBufferSize is the default limit on the size of the send and receive buffers.
 	defaultMaxBufferSize uint32 = 64 * 1024
+	// minBufferSize is the smallest size of the buffers that a client may ask for.
+	minBufferSize uint32 = 8192
 	// defaultMaxMessageSize is the default limit on the size of messages that may be accepted.
 	defaultMaxMessageSize uint32 = 64 * 1024 * 1024
 	// defaultMaxChunkCount is the default limit on the number of message chunks that may be accepted.
@@ -239,6 +241,9 @@ func (ch *serverSecureChannel) Open() error {
 	var writer = ua.NewWriter(buf)
 	var enc = ua.NewBinaryEncoder(writer, ec)
 
+	if cliReceiveBufferSize < minBufferSize || cliSendBufferSize < minBufferSize {
+		return ua.BadConnectionRejected
+	}
 	// limit the receive buffer to what the client can send
 	if ch.receiveBufferSize > cliSendBufferSize {
 		ch.receiveBufferSize = cliSendBufferSize
-- 
2.43.0


From 118ad2325f9cead4d19e112cc3851b7718c22787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:15 +0000
Subject: [PATCH 074/112] fix: send no response with a new token before its
 keys are installed

---
 server/server_secure_channel.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/server_secure_channel.go b/server/server_secure_channel.go
index 8db06a5..4498e34 100644
--- a/server/server_secure_channel.go
+++ b/server/server_secure_channel.go
@@ -1106,7 +1106,6 @@ func (ch *serverSecureChannel) readRequest() (ua.ServiceRequest, uint32, error)
 				if newTokenID != ch.pendingTokenID {
 					return nil, 0, ua.BadSecureChannelTokenUnknown
 				}
-				ch.tokenID = ch.pendingTokenID
 				ch.tokenExpiration = ch.pendingTokenExpiration
 				ch.conn.SetDeadline(ch.tokenExpiration)
 				if ch.securityMode == ua.MessageSecurityModeSignAndEncrypt || ch.securityMode == ua.MessageSecurityModeSign {
@@ -1133,6 +1132,7 @@ func (ch *serverSecureChannel) readRequest() (ua.ServiceRequest, uint32, error)
 				}
 
 				ch.sendingSemaphore.Lock()
+				ch.tokenID = ch.pendingTokenID
 				if ch.securityMode == ua.MessageSecurityModeSignAndEncrypt || ch.securityMode == ua.MessageSecurityModeSign {
 
 					// (re)create security keys for signing, encrypting
-- 
2.43.0


From 59058e93dca6a397f2553818b335066c4429ae12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:17 +0000
Subject: [PATCH 075/112] fix: refuse replayed and reordered requests

---
 server/server_secure_channel.go | 33 ++++++++++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/server/server_secure_channel.go b/server/server_secure_channel.go
index 4498e34..57c97c2 100644
--- a/server/server_secure_channel.go
+++ b/server/server_secure_channel.go
@@ -67,6 +67,7 @@ type serverSecureChannel struct {
 	sendingSemaphore            sync.Mutex
 	receivingSemaphore          sync.Mutex
 	lastSequenceNumber          uint32
+	receivedSequenceNumber      uint32
 	pendingTokenID              uint32
 	pendingTokenExpiration      time.Time
 	tokenID                     uint32
@@ -1190,14 +1191,23 @@ func (ch *serverSecureChannel) readRequest() (ua.ServiceRequest, uint32, error)
 			}
 
 			// read sequence header
-			var unused uint32
-			if err = decoder.ReadUInt32(&unused); err != nil {
+			var sequenceNumber uint32
+			if err = decoder.ReadUInt32(&sequenceNumber); err != nil {
 				return nil, 0, ua.BadDecodingError
 			}
+			if !ch.receiveSequenceNumber(sequenceNumber) {
+				return nil, 0, ua.BadSequenceNumberInvalid
+			}
 
-			if err = decoder.ReadUInt32(&id); err != nil {
+			var requestID uint32
+			if err = decoder.ReadUInt32(&requestID); err != nil {
 				return nil, 0, ua.BadDecodingError
 			}
+			// the chunks of a message belong to the same request
+			if chunkCount > 1 && requestID != id {
+				return nil, 0, ua.BadSecurityChecksFailed
+			}
+			id = requestID
 
 			// body
 			var symEncryptionBlockSize = ch.securityPolicy.SymEncryptionBlockSize()
@@ -1337,10 +1347,13 @@ func (ch *serverSecureChannel) readRequest() (ua.ServiceRequest, uint32, error)
 			}
 
 			// sequence header
-			var unused uint32
-			if err := decoder.ReadUInt32(&unused); err != nil {
+			var sequenceNumber uint32
+			if err := decoder.ReadUInt32(&sequenceNumber); err != nil {
 				return nil, 0, ua.BadDecodingError
 			}
+			if !ch.receiveSequenceNumber(sequenceNumber) {
+				return nil, 0, ua.BadSequenceNumberInvalid
+			}
 
 			if err := decoder.ReadUInt32(&id); err != nil {
 				return nil, 0, ua.BadDecodingError
@@ -1573,6 +1586,16 @@ func (ch *serverSecureChannel) getNextSequenceNumber() uint32 {
 	}
 }
 
+// receiveSequenceNumber checks that the sequence number of a received chunk follows that of the chunk before.
+func (ch *serverSecureChannel) receiveSequenceNumber(value uint32) bool {
+	last := ch.receivedSequenceNumber
+	ch.receivedSequenceNumber = value
+	if ch.lastTokenID == 0 {
+		return true // first message of the channel
+	}
+	return value == last+1 || (last > math.MaxUint32-1024 && value < 1024)
+}
+
 // getNextTokenID gets next TokenID in sequence, skipping zero.
 func (ch *serverSecureChannel) getNextTokenID() uint32 {
 	for {
-- 
2.43.0


From 76570b193a39dac9a6faad9ac482871851c05a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:55 +0000
Subject: [PATCH 076/112] fix: answer with a fault when a response is too large
 or cannot be encoded

---
 server/server_secure_channel.go | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/server/server_secure_channel.go b/server/server_secure_channel.go
index 57c97c2..031c47c 100644
--- a/server/server_secure_channel.go
+++ b/server/server_secure_channel.go
@@ -437,7 +437,21 @@ func (ch *serverSecureChannel) Write(res ua.ServiceResponse, id uint32) error {
 	case *ua.OpenSecureChannelResponse:
 		return ch.sendOpenSecureChannelResponse(res1, id)
 	default:
-		return ch.sendServiceResponse(res1, id)
+		err := ch.sendServiceResponse(res1, id)
+		if err == ua.BadResponseTooLarge || err == ua.BadEncodingError {
+			// nothing was sent, report the error instead
+			return ch.sendServiceResponse(
+				&ua.ServiceFault{
+					ResponseHeader: ua.ResponseHeader{
+						Timestamp:     time.Now(),
+						RequestHandle: res.Header().RequestHandle,
+						ServiceResult: err.(ua.StatusCode),
+					},
+				},
+				id,
+			)
+		}
+		return err
 	}
 }
 
@@ -917,16 +931,22 @@ func (ch *serverSecureChannel) sendServiceResponse(response ua.ServiceResponse,
 		return ua.BadResponseTooLarge
 	}
 
-	var chunkCount int
 	var bodyCount = int(bodyStream.Len())
 	var signatureSize = ch.securityPolicy.SymSignatureSize()
 	var encryptionBlockSize = ch.securityPolicy.SymEncryptionBlockSize()
 
-	for bodyCount > 0 {
-		chunkCount++
-		if i := int(ch.maxResponseChunkCount); i > 0 && chunkCount > i {
+	// check the number of chunks before the first is sent
+	if i := int(ch.maxResponseChunkCount); i > 0 {
+		maxBodySize := int(ch.sendBufferSize) - 16 - sequenceHeaderSize - signatureSize
+		if ch.securityMode == ua.MessageSecurityModeSignAndEncrypt {
+			maxBodySize = (((int(ch.sendBufferSize) - 16) / encryptionBlockSize) * encryptionBlockSize) - sequenceHeaderSize - 1 - signatureSize
+		}
+		if (bodyCount+maxBodySize-1)/maxBodySize > i {
 			return ua.BadResponseTooLarge
 		}
+	}
+
+	for bodyCount > 0 {
 
 		var plainHeaderSize int
 		var paddingHeaderSize int
-- 
2.43.0


From 3b841d87abdea018c796ae0189231bc29acecea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:06 +0000
Subject: [PATCH 077/112] fix: do not block requests behind other unanswered
 requests, and forget those that timed out

---
 client/client_secure_channel.go | 32 ++++++++++++++------------------
 1 file changed, 14 insertions(+), 18 deletions(-)

diff --git a/client/client_secure_channel.go b/client/client_secure_channel.go
index 4352104..d9b9377 100644
--- a/client/client_secure_channel.go
+++ b/client/client_secure_channel.go
@@ -104,7 +104,7 @@ type clientSecureChannel struct {
 	statusCode                 ua.StatusCode
 	sendingSemaphore           sync.Mutex
 	receivingSemaphore         sync.Mutex
-	pendingResponseCh          chan *ua.ServiceOperation
+	pendingLock                sync.Mutex
 	pendingResponses           map[uint32]*ua.ServiceOperation
 	closing                    bool
 	requestHandle              uint32
@@ -243,7 +243,14 @@ func (ch *clientSecureChannel) Request(ctx context.Context, req ua.ServiceReques
 		header.TimeoutHint = defaultTimeoutHint
 	}
 	var operation = ua.NewServiceOperation(req, make(chan ua.ServiceResponse, 1))
-	ch.pendingResponseCh <- operation
+	ch.pendingLock.Lock()
+	ch.pendingResponses[header.RequestHandle] = operation
+	ch.pendingLock.Unlock()
+	defer func() {
+		ch.pendingLock.Lock()
+		delete(ch.pendingResponses, header.RequestHandle)
+		ch.pendingLock.Unlock()
+	}()
 	ctx, cancel := context.WithDeadline(ctx, header.Timestamp.Add(time.Duration(header.TimeoutHint)*time.Millisecond))
 	err := ch.sendRequest(ctx, operation)
 	if err != nil {
@@ -433,7 +440,6 @@ func (ch *clientSecureChannel) Open(ctx context.Context) error {
 		ch.remotePublicKeySize = ch.remotePublicKey.Size()
 	}
 
-	ch.pendingResponseCh = make(chan *ua.ServiceOperation, 32)
 	ch.pendingResponses = make(map[uint32]*ua.ServiceOperation)
 	ch.closed = make(chan struct{})
 	ch.channelID = 0
@@ -1732,10 +1738,12 @@ func (ch *clientSecureChannel) readResponse() (ua.ServiceResponse, ua.StatusCode
 
 // handleResponse directs the response to the correct handler.
 func (ch *clientSecureChannel) handleResponse(res ua.ServiceResponse) error {
-	ch.mapPendingResponses()
 	hnd := res.Header().RequestHandle
-	if op, ok := ch.pendingResponses[hnd]; ok {
-		delete(ch.pendingResponses, hnd)
+	ch.pendingLock.Lock()
+	op, ok := ch.pendingResponses[hnd]
+	delete(ch.pendingResponses, hnd)
+	ch.pendingLock.Unlock()
+	if ok {
 		select {
 		case op.ResponseCh() <- res:
 		default:
@@ -1746,18 +1754,6 @@ func (ch *clientSecureChannel) handleResponse(res ua.ServiceResponse) error {
 	return ua.BadUnknownResponse
 }
 
-// mapPendingResponses maps operations coming from pendingResponseCh.
-func (ch *clientSecureChannel) mapPendingResponses() {
-	for {
-		select {
-		case op := <-ch.pendingResponseCh:
-			ch.pendingResponses[op.Request().Header().RequestHandle] = op
-		default:
-			return
-		}
-	}
-}
-
 // renewToken sends request to renew security token.
 func (ch *clientSecureChannel) renewToken(ctx context.Context) error {
 	request := &ua.OpenSecureChannelRequest{
-- 
2.43.0


From e18d8bdd4d4b601c74b981b3fcc0e536af416d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:07 +0000
Subject: [PATCH 078/112] fix: renew the security token once at a time, and
 sign each chunk with the keys of its token

---
 client/client_secure_channel.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/client/client_secure_channel.go b/client/client_secure_channel.go
index d9b9377..b40c469 100644
--- a/client/client_secure_channel.go
+++ b/client/client_secure_channel.go
@@ -511,8 +511,13 @@ func (ch *clientSecureChannel) IsClosing() bool {
 // sendRequest sends the service request on transport channel.
 func (ch *clientSecureChannel) sendRequest(ctx context.Context, op *ua.ServiceOperation) error {
 	// Check if time to renew security token.
-	if !ch.tokenRenewalTime.IsZero() && time.Now().After(ch.tokenRenewalTime) {
-		ch.tokenRenewalTime = ch.tokenRenewalTime.Add(60000 * time.Millisecond)
+	ch.tokenLock.Lock()
+	renew := !ch.tokenRenewalTime.IsZero() && time.Now().After(ch.tokenRenewalTime)
+	if renew {
+		ch.tokenRenewalTime = time.Now().Add(60000 * time.Millisecond)
+	}
+	ch.tokenLock.Unlock()
+	if renew {
 		ch.renewToken(ctx)
 	}
 
@@ -834,10 +839,10 @@ func (ch *clientSecureChannel) sendCloseSecureChannelRequest(ctx context.Context
 		encoder.WriteUInt32(ch.channelID)
 
 		// symmetric security header
+		ch.tokenLock.RLock()
 		encoder.WriteUInt32(ch.tokenID)
 
 		// detect new TokenId
-		ch.tokenLock.RLock()
 		if ch.tokenID != ch.sendingTokenID {
 			ch.sendingTokenID = ch.tokenID
 
@@ -1273,10 +1278,10 @@ func (ch *clientSecureChannel) sendServiceRequest(ctx context.Context, request u
 		encoder.WriteUInt32(ch.channelID)
 
 		// symmetric security header
+		ch.tokenLock.RLock()
 		encoder.WriteUInt32(ch.tokenID)
 
 		// detect new TokenId
-		ch.tokenLock.RLock()
 		if ch.tokenID != ch.sendingTokenID {
 			ch.sendingTokenID = ch.tokenID
 
-- 
2.43.0


From 1d81252ada356c0209daa89226456673c1611cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:08 +0000
Subject: [PATCH 079/112] fix: verify responses that use the previous security
 token with its keys

---
 client/client_secure_channel.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/client/client_secure_channel.go b/client/client_secure_channel.go
index b40c469..ef77297 100644
--- a/client/client_secure_channel.go
+++ b/client/client_secure_channel.go
@@ -93,6 +93,9 @@ type clientSecureChannel struct {
 	remoteNonce                []byte
 	channelID                  uint32
 	tokenID                    uint32
+	previousLocalNonce         []byte
+	previousRemoteNonce        []byte
+	previousTokenID            uint32
 	tokenLock                  sync.RWMutex
 	authenticationToken        ua.NodeID
 	securityPolicyURI          string
@@ -1445,12 +1448,21 @@ func (ch *clientSecureChannel) readResponse() (ua.ServiceResponse, ua.StatusCode
 			// detect new token
 			ch.tokenLock.RLock()
 			if tokenID != ch.receivingTokenID {
+				// the server uses the previous token until it receives a message with the new token
+				localNonce, remoteNonce := ch.localNonce, ch.remoteNonce
+				if tokenID != ch.tokenID {
+					if tokenID != ch.previousTokenID {
+						ch.tokenLock.RUnlock()
+						return nil, ua.BadSecureChannelTokenUnknown
+					}
+					localNonce, remoteNonce = ch.previousLocalNonce, ch.previousRemoteNonce
+				}
 				ch.receivingTokenID = tokenID
 
 				switch ch.securityMode {
 				case ua.MessageSecurityModeSignAndEncrypt, ua.MessageSecurityModeSign:
 					// (re)create remote security keys for verifying, decrypting
-					remoteSecurityKey := calculatePSHA(ch.localNonce, ch.remoteNonce, len(ch.remoteSigningKey)+len(ch.remoteEncryptingKey)+len(ch.remoteInitializationVector), ch.securityPolicyURI)
+					remoteSecurityKey := calculatePSHA(localNonce, remoteNonce, len(ch.remoteSigningKey)+len(ch.remoteEncryptingKey)+len(ch.remoteInitializationVector), ch.securityPolicyURI)
 					jj := copy(ch.remoteSigningKey, remoteSecurityKey)
 					jj += copy(ch.remoteEncryptingKey, remoteSecurityKey[jj:])
 					copy(ch.remoteInitializationVector, remoteSecurityKey[jj:])
@@ -1780,6 +1792,9 @@ func (ch *clientSecureChannel) renewToken(ctx context.Context) error {
 	ch.tokenLock.Lock()
 	ch.tokenRenewalTime = time.Now().Add(time.Duration(response.SecurityToken.RevisedLifetime*75/100) * time.Millisecond)
 	// ch.channelId = response.ua.SecurityToken.ChannelID
+	ch.previousTokenID = ch.tokenID
+	ch.previousLocalNonce = ch.localNonce
+	ch.previousRemoteNonce = ch.remoteNonce
 	ch.tokenID = response.SecurityToken.TokenID
 	ch.localNonce = []byte(request.ClientNonce)
 	ch.remoteNonce = []byte(response.ServerNonce)
-- 
2.43.0


From f4e46a6d2b51eb59f40f9ed380c266ee5ee1c9a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:39 +0000
Subject: [PATCH 080/112] fix: refuse responses too short for their headers
 instead of ending the client

---
 client/client_secure_channel.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/client/client_secure_channel.go b/client/client_secure_channel.go
index ef77297..20fd546 100644
--- a/client/client_secure_channel.go
+++ b/client/client_secure_channel.go
@@ -1490,6 +1490,9 @@ func (ch *clientSecureChannel) readResponse() (ua.ServiceResponse, ua.StatusCode
 			switch ch.securityMode {
 			case ua.MessageSecurityModeSignAndEncrypt, ua.MessageSecurityModeSign:
 				sigStart := count - signatureSize
+				if sigStart < plainHeaderSize+sequenceHeaderSize {
+					return nil, ua.BadDecodingError
+				}
 				ch.symVerifyHMAC.Reset()
 				ch.symVerifyHMAC.Write(receiveBuffer[:sigStart])
 				sig := ch.symVerifyHMAC.Sum(nil)
@@ -1526,6 +1529,9 @@ func (ch *clientSecureChannel) readResponse() (ua.ServiceResponse, ua.StatusCode
 				bodySize = int(messageLength) - plainHeaderSize - sequenceHeaderSize - signatureSize
 			}
 
+			if bodySize < 0 {
+				return nil, ua.BadDecodingError
+			}
 			m := plainHeaderSize + sequenceHeaderSize
 			n := m + bodySize
 			_, err = bodyStream.Write(receiveBuffer[m:n])
@@ -1580,6 +1586,9 @@ func (ch *clientSecureChannel) readResponse() (ua.ServiceResponse, ua.StatusCode
 				// verify with remote public key.
 				sigEnd := int(messageLength)
 				sigStart := sigEnd - ch.remotePublicKeySize
+				if sigStart < plainHeaderSize+sequenceHeaderSize {
+					return nil, ua.BadDecodingError
+				}
 				err := ch.securityPolicy.RSAVerify(ch.remotePublicKey, receiveBuffer[:sigStart], receiveBuffer[sigStart:sigEnd])
 				if err != nil {
 					return nil, ua.BadDecodingError
@@ -1615,6 +1624,9 @@ func (ch *clientSecureChannel) readResponse() (ua.ServiceResponse, ua.StatusCode
 				bodySize = int(messageLength) - plainHeaderSize - sequenceHeaderSize // - ch.asymRemoteSignatureSize
 			}
 
+			if bodySize < 0 {
+				return nil, ua.BadDecodingError
+			}
 			m := plainHeaderSize + sequenceHeaderSize
 			n := m + bodySize
 			if _, err := bodyStream.Write(receiveBuffer[m:n]); err != nil {
-- 
2.43.0


From 9becf120cd27137a534fa606477821e475033591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:40 +0000
Subject: [PATCH 081/112] fix: refuse replayed and reordered responses

---
 client/client_secure_channel.go | 33 ++++++++++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/client/client_secure_channel.go b/client/client_secure_channel.go
index 20fd546..a031614 100644
--- a/client/client_secure_channel.go
+++ b/client/client_secure_channel.go
@@ -112,6 +112,8 @@ type clientSecureChannel struct {
 	closing                    bool
 	requestHandle              uint32
 	sequenceNumber             uint32
+	receivedSequenceNumber     uint32
+	received                   bool
 	sendingTokenID             uint32
 	receivingTokenID           uint32
 	localSigningKey            []byte
@@ -1400,6 +1402,7 @@ func (ch *clientSecureChannel) readResponse() (ua.ServiceResponse, ua.StatusCode
 	// read chunks
 	var chunkCount int
 	var isFinal bool
+	var requestID uint32
 
 	for !isFinal {
 		chunkCount++
@@ -1502,14 +1505,23 @@ func (ch *clientSecureChannel) readResponse() (ua.ServiceResponse, ua.StatusCode
 			}
 
 			// read sequence header
-			var unused uint32
-			if err = decoder.ReadUInt32(&unused); err != nil {
+			var sequenceNumber uint32
+			if err = decoder.ReadUInt32(&sequenceNumber); err != nil {
 				return nil, ua.BadDecodingError
 			}
+			if !ch.receiveSequenceNumber(sequenceNumber) {
+				return nil, ua.BadSequenceNumberInvalid
+			}
 
-			if err = decoder.ReadUInt32(&unused); err != nil {
+			var id uint32
+			if err = decoder.ReadUInt32(&id); err != nil {
 				return nil, ua.BadDecodingError
 			}
+			// the chunks of a message belong to the same request
+			if chunkCount > 1 && id != requestID {
+				return nil, ua.BadSecurityChecksFailed
+			}
+			requestID = id
 
 			// body
 			switch ch.securityMode {
@@ -1596,10 +1608,14 @@ func (ch *clientSecureChannel) readResponse() (ua.ServiceResponse, ua.StatusCode
 			}
 
 			// sequence header
-			var unused uint32
-			if err = decoder.ReadUInt32(&unused); err != nil {
+			var sequenceNumber uint32
+			if err = decoder.ReadUInt32(&sequenceNumber); err != nil {
 				return nil, ua.BadDecodingError
 			}
+			if !ch.receiveSequenceNumber(sequenceNumber) {
+				return nil, ua.BadSequenceNumberInvalid
+			}
+			var unused uint32
 			if err = decoder.ReadUInt32(&unused); err != nil {
 				return nil, ua.BadDecodingError
 			}
@@ -1876,6 +1892,13 @@ func (ch *clientSecureChannel) getNextSequenceNumber() uint32 {
 	}
 }
 
+// receiveSequenceNumber checks that the sequence number of a received chunk follows that of the chunk before.
+func (ch *clientSecureChannel) receiveSequenceNumber(value uint32) bool {
+	last, first := ch.receivedSequenceNumber, !ch.received
+	ch.receivedSequenceNumber, ch.received = value, true
+	return first || value == last+1 || (last > math.MaxUint32-1024 && value < 1024)
+}
+
 // getNextNonce gets next random nonce of requested length.
 func getNextNonce(length int) []byte {
 	var nonce = make([]byte, length)
-- 
2.43.0


From cc4a5396a82a2076185c5b1fe8864c2302ccbafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:41 +0000
Subject: [PATCH 082/112] fix: report responses of another kind and
 certificates without an RSA key as errors

---
 client/client_secure_channel.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/client/client_secure_channel.go b/client/client_secure_channel.go
index a031614..89f4d48 100644
--- a/client/client_secure_channel.go
+++ b/client/client_secure_channel.go
@@ -23,6 +23,7 @@ import (
 	"net"
 	"net/url"
 	"reflect"
+	"strings"
 	"sync"
 	"sync/atomic"
 	"time"
@@ -192,7 +193,7 @@ func newClientSecureChannel(
 		trace:                                trace,
 	}
 	if certs, err := x509.ParseCertificates(ch.remoteCertificate); err == nil && len(certs) > 0 {
-		ch.remotePublicKey = certs[0].PublicKey.(*rsa.PublicKey)
+		ch.remotePublicKey, _ = certs[0].PublicKey.(*rsa.PublicKey)
 		ch.remoteThumbprint = sha1.Sum(certs[0].Raw)
 	}
 	return ch
@@ -268,6 +269,10 @@ func (ch *clientSecureChannel) Request(ctx context.Context, req ua.ServiceReques
 		if sr := res.Header().ServiceResult; sr != ua.Good {
 			return nil, sr
 		}
+		// the response must be of the kind that was requested
+		if name := reflect.TypeOf(req).Elem().Name(); reflect.TypeOf(res).Elem().Name() != strings.TrimSuffix(name, "Request")+"Response" {
+			return nil, ua.BadUnknownResponse
+		}
 		return res, nil
 	case <-ctx.Done():
 		cancel()
-- 
2.43.0


From 5560b08408bf183625d2a7edd2a4927def0b4bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:06 +0000
Subject: [PATCH 083/112] fix: release the connection when closing fails

---
 client/client.go                | 5 +----
 client/client_secure_channel.go | 5 +----
 2 files changed, 2 insertions(+), 8 deletions(-)

diff --git a/client/client.go b/client/client.go
index 0e739b7..e1d99f8 100644
--- a/client/client.go
+++ b/client/client.go
@@ -750,11 +750,8 @@ func (ch *Client) Close(ctx context.Context) error {
 		DeleteSubscriptions: true,
 	}
 	_, err := ch.closeSession(ctx, request)
-	if err != nil {
-		return err
-	}
 	ch.channel.Close(ctx)
-	return nil
+	return err
 }
 
 // Abort closes the client abruptly.
diff --git a/client/client_secure_channel.go b/client/client_secure_channel.go
index 89f4d48..8322cc7 100644
--- a/client/client_secure_channel.go
+++ b/client/client_secure_channel.go
@@ -491,13 +491,10 @@ func (ch *clientSecureChannel) Close(ctx context.Context) error {
 	defer ch.Unlock()
 	ch.closing = true
 	_, err := ch.Request(ctx, &ua.CloseSecureChannelRequest{})
-	if err != nil {
-		return err
-	}
 	if ch.conn != nil {
 		ch.conn.Close()
 	}
-	return nil
+	return err
 }
 
 // Abort closes the channel abruptly.
-- 
2.43.0


From 771a70a057e8b992c1bbb1c56b376b3249595129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:40 +0000
Subject: [PATCH 084/112] fix: open and send no longer than the caller waits

---
 client/client_secure_channel.go | 52 +++++++++++++++++++++++++++++----
 1 file changed, 47 insertions(+), 5 deletions(-)

diff --git a/client/client_secure_channel.go b/client/client_secure_channel.go
index 8322cc7..1e1b682 100644
--- a/client/client_secure_channel.go
+++ b/client/client_secure_channel.go
@@ -106,7 +106,7 @@ type clientSecureChannel struct {
 	serverURIs                 []string
 	closed                     chan struct{}
 	statusCode                 ua.StatusCode
-	sendingSemaphore           sync.Mutex
+	sendingSemaphore           chan struct{}
 	receivingSemaphore         sync.Mutex
 	pendingLock                sync.Mutex
 	pendingResponses           map[uint32]*ua.ServiceOperation
@@ -188,6 +188,7 @@ func newClientSecureChannel(
 		sendBufferSize:                       maxBufferSize,
 		maxResponseMessageSize:               maxMessageSize,
 		maxResponseChunkCount:                maxChunkCount,
+		sendingSemaphore:                     make(chan struct{}, 1),
 		bytesPool:                            sync.Pool{New: func() any { s := make([]byte, maxBufferSize); return &s }},
 		bufferPool:                           buffer.NewMemPoolAt(int64(maxBufferSize)),
 		trace:                                trace,
@@ -317,10 +318,18 @@ func (ch *clientSecureChannel) Open(ctx context.Context) error {
 		}
 	}
 
-	ch.conn, err = net.DialTimeout("tcp", remoteURL.Host, time.Duration(ch.connectTimeout)*time.Millisecond)
+	dialer := net.Dialer{Timeout: time.Duration(ch.connectTimeout) * time.Millisecond}
+	ch.conn, err = dialer.DialContext(ctx, "tcp", remoteURL.Host)
 	if err != nil {
 		return err
 	}
+	ch.received = false
+
+	// limit the time to wait for the acknowledge message
+	ch.conn.SetDeadline(time.Now().Add(time.Duration(ch.connectTimeout) * time.Millisecond))
+	conn := ch.conn
+	stop := context.AfterFunc(ctx, func() { conn.Close() })
+	defer stop()
 
 	buf := *(ch.bytesPool.Get().(*[]byte))
 	defer ch.bytesPool.Put(&buf)
@@ -407,6 +416,11 @@ func (ch *clientSecureChannel) Open(ctx context.Context) error {
 		return ua.BadDecodingError
 	}
 
+	if !stop() {
+		return ua.BadRequestTimeout
+	}
+	ch.conn.SetDeadline(time.Time{})
+
 	// setSecurityPolicy
 	switch ch.securityPolicyURI {
 	case ua.SecurityPolicyURINone:
@@ -528,8 +542,32 @@ func (ch *clientSecureChannel) sendRequest(ctx context.Context, op *ua.ServiceOp
 		ch.renewToken(ctx)
 	}
 
-	ch.sendingSemaphore.Lock()
-	defer ch.sendingSemaphore.Unlock()
+	select {
+	case ch.sendingSemaphore <- struct{}{}:
+		defer func() { <-ch.sendingSemaphore }()
+	case <-ctx.Done():
+		return ua.BadRequestTimeout
+	case <-ch.closed:
+		return ua.BadSecureChannelClosed
+	}
+
+	if ctx.Err() != nil {
+		return ua.BadRequestTimeout
+	}
+	if conn := ch.conn; conn != nil {
+		// do not block in writing longer than the caller waits
+		conn.SetWriteDeadline(time.Time{})
+		done := make(chan struct{})
+		stop := context.AfterFunc(ctx, func() {
+			conn.SetWriteDeadline(time.Unix(1, 0))
+			close(done)
+		})
+		defer func() {
+			if !stop() {
+				<-done
+			}
+		}()
+	}
 
 	req := op.Request()
 
@@ -1913,7 +1951,11 @@ func (ch *clientSecureChannel) Write(p []byte) (int, error) {
 	if ch.conn == nil {
 		return 0, ua.BadSecureChannelClosed
 	}
-	return ch.conn.Write(p)
+	n, err := ch.conn.Write(p)
+	if err != nil {
+		ch.conn.Close() // the rest of the message can not follow
+	}
+	return n, err
 }
 
 // Read receives a chunk from the remote endpoint.
-- 
2.43.0


From 90272bf6452bf7c37300a52d0b10fea9640448f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:42 +0000
Subject: [PATCH 085/112] fix: report an unexpected namespace or server array
 as an error

---
 client/client.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/client/client.go b/client/client.go
index e1d99f8..15c4bf3 100644
--- a/client/client.go
+++ b/client/client.go
@@ -732,12 +732,18 @@ func (ch *Client) open(ctx context.Context) error {
 	}
 	if len(readResponse.Results) == 2 {
 		if readResponse.Results[0].StatusCode.IsGood() {
-			value := readResponse.Results[0].Value.([]string)
+			value, ok := readResponse.Results[0].Value.([]string)
+			if !ok {
+				return ua.BadUnexpectedError
+			}
 			ch.channel.SetNamespaceURIs(value)
 		}
 
 		if readResponse.Results[1].StatusCode.IsGood() {
-			value := readResponse.Results[1].Value.([]string)
+			value, ok := readResponse.Results[1].Value.([]string)
+			if !ok {
+				return ua.BadUnexpectedError
+			}
 			ch.channel.SetServerURIs(value)
 		}
 	}
-- 
2.43.0


From 11f383884cd1e18db318031e7d0d04915d27c689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:43 +0000
Subject: [PATCH 086/112] fix: send no part of a request that has too many
 chunks

---
 client/client_secure_channel.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/client/client_secure_channel.go b/client/client_secure_channel.go
index 1e1b682..455b34f 100644
--- a/client/client_secure_channel.go
+++ b/client/client_secure_channel.go
@@ -1261,17 +1261,22 @@ func (ch *clientSecureChannel) sendServiceRequest(ctx context.Context, request u
 		return ua.BadRequestTooLarge
 	}
 
-	var chunkCount int
 	var bodyCount = int(bodyStream.Len())
 	var signatureSize = ch.securityPolicy.SymSignatureSize()
 	var encryptionBlockSize = ch.securityPolicy.SymEncryptionBlockSize()
 
-	for bodyCount > 0 {
-		chunkCount++
-		if i := int(ch.maxRequestChunkCount); i > 0 && chunkCount > i {
+	// check the number of chunks before the first is sent
+	if i := int(ch.maxRequestChunkCount); i > 0 {
+		maxBodySize := int(ch.sendBufferSize) - 16 - sequenceHeaderSize - signatureSize
+		if ch.securityMode == ua.MessageSecurityModeSignAndEncrypt {
+			maxBodySize = (((int(ch.sendBufferSize) - 16) / encryptionBlockSize) * encryptionBlockSize) - sequenceHeaderSize - 1 - signatureSize
+		}
+		if (bodyCount+maxBodySize-1)/maxBodySize > i {
 			return ua.BadRequestTooLarge
 		}
+	}
 
+	for bodyCount > 0 {
 		// plan
 		var plainHeaderSize int
 		var paddingHeaderSize int
-- 
2.43.0


From ee6ba5936ca689cf215f84ae79a3935907f425de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:25 +0000
Subject: [PATCH 087/112] fix: refuse servers with buffers too small for a
 message

---
 client/client_secure_channel.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/client/client_secure_channel.go b/client/client_secure_channel.go
index 455b34f..8fd1178 100644
--- a/client/client_secure_channel.go
+++ b/client/client_secure_channel.go
@@ -47,6 +47,8 @@ const (
 	protocolVersion uint32 = 0
 	// defaultMaxBufferSize is the default limit on the size of the send and receive buffers.
 	defaultMaxBufferSize uint32 = 64 * 1024
+	// minBufferSize is the smallest size of the buffers that a server may ask for.
+	minBufferSize uint32 = 8192
 	// defaultMaxMessageSize is the default limit on the size of messages that may be accepted.
 	defaultMaxMessageSize uint32 = 64 * 1024 * 1024
 	// defaultMaxChunkCount is the default limit on the number of message chunks that may be accepted.
@@ -381,9 +383,16 @@ func (ch *clientSecureChannel) Open(ctx context.Context) error {
 			return ua.BadProtocolVersionUnsupported
 		}
 		// read the remote receiveBufferSize into the local sendBufferSize
+		maxSendBufferSize := ch.sendBufferSize
 		if err := dec.ReadUInt32(&ch.sendBufferSize); err != nil {
 			return err
 		}
+		if ch.sendBufferSize < minBufferSize {
+			return ua.BadConnectionRejected
+		}
+		if ch.sendBufferSize > maxSendBufferSize {
+			ch.sendBufferSize = maxSendBufferSize
+		}
 		// read the remote sendBufferSize into the local receiveBufferSize
 		if err := dec.ReadUInt32(&ch.receiveBufferSize); err != nil {
 			return err
-- 
2.43.0


From 1c0100741295de2cf464d3141420d2b372bb3839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:06 +0000
Subject: [PATCH 088/112] fix: build the endpoint descriptions without holding
 the server's lock twice

---
 server/server.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/server/server.go b/server/server.go
index 7cdc9da..568db15 100644
--- a/server/server.go
+++ b/server/server.go
@@ -174,9 +174,17 @@ func (srv *Server) EndpointURL() string {
 // Endpoints gets the endpoint descriptions.
 func (srv *Server) Endpoints() []ua.EndpointDescription {
 	srv.RLock()
-	defer srv.RUnlock()
+	endpoints := srv.endpoints
+	srv.RUnlock()
+	if endpoints != nil {
+		return endpoints
+	}
+	// built without the lock, because building reads properties of the server
+	endpoints = srv.buildEndpointDescriptions()
+	srv.Lock()
+	defer srv.Unlock()
 	if srv.endpoints == nil {
-		srv.endpoints = srv.buildEndpointDescriptions()
+		srv.endpoints = endpoints
 	}
 	return srv.endpoints
 }
-- 
2.43.0


From c54ff3cb814bcc5c5e253c63930f19e95c9cac44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:51 +0000
Subject: [PATCH 089/112] fix: return a response that arrived before the
 channel was closed

---
 client/client_secure_channel.go | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/client/client_secure_channel.go b/client/client_secure_channel.go
index 8fd1178..2e3ce4e 100644
--- a/client/client_secure_channel.go
+++ b/client/client_secure_channel.go
@@ -266,24 +266,28 @@ func (ch *clientSecureChannel) Request(ctx context.Context, req ua.ServiceReques
 		cancel()
 		return nil, err
 	}
+	defer cancel()
+	var res ua.ServiceResponse
 	select {
-	case res := <-operation.ResponseCh():
-		cancel()
-		if sr := res.Header().ServiceResult; sr != ua.Good {
-			return nil, sr
-		}
-		// the response must be of the kind that was requested
-		if name := reflect.TypeOf(req).Elem().Name(); reflect.TypeOf(res).Elem().Name() != strings.TrimSuffix(name, "Request")+"Response" {
-			return nil, ua.BadUnknownResponse
-		}
-		return res, nil
+	case res = <-operation.ResponseCh():
 	case <-ctx.Done():
-		cancel()
 		return nil, ua.BadRequestTimeout
 	case <-ch.closed:
-		cancel()
-		return nil, ua.BadSecureChannelClosed
+		// the response may have arrived before the channel was closed
+		select {
+		case res = <-operation.ResponseCh():
+		default:
+			return nil, ua.BadSecureChannelClosed
+		}
+	}
+	if sr := res.Header().ServiceResult; sr != ua.Good {
+		return nil, sr
+	}
+	// the response must be of the kind that was requested
+	if name := reflect.TypeOf(req).Elem().Name(); reflect.TypeOf(res).Elem().Name() != strings.TrimSuffix(name, "Request")+"Response" {
+		return nil, ua.BadUnknownResponse
 	}
+	return res, nil
 }
 
 // Open opens the channel.
-- 
2.43.0


From 7597cee624d93837fe32c33525afa811940a0ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:15 +0000
Subject: [PATCH 090/112] fix: hold the manager's lock while listing the
 subscriptions for the diagnostics

---
 server/server.go               |  2 +-
 server/subscription_manager.go | 11 ++++++++---
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/server/server.go b/server/server.go
index 568db15..66418f6 100644
--- a/server/server.go
+++ b/server/server.go
@@ -819,7 +819,7 @@ func (srv *Server) initializeNamespace() error {
 				return ua.NewDataValue(nil, 0, time.Now(), 0, time.Now(), 0)
 			}
 			a := make([]ua.ExtensionObject, 0, 16)
-			for _, s := range srv.SubscriptionManager().subscriptionsByID {
+			for _, s := range srv.SubscriptionManager().subscriptions() {
 				s.RLock()
 				e := ua.SubscriptionDiagnosticsDataType{
 					SessionID:                  s.sessionId,
diff --git a/server/subscription_manager.go b/server/subscription_manager.go
index 56f9ac4..34ea989 100644
--- a/server/subscription_manager.go
+++ b/server/subscription_manager.go
@@ -95,14 +95,19 @@ func (m *SubscriptionManager) GetBySession(session *Session) []*Subscription {
 	return subs
 }
 
-func (m *SubscriptionManager) checkForExpiredSubscriptions() {
+// subscriptions returns the subscriptions of all sessions.
+func (m *SubscriptionManager) subscriptions() []*Subscription {
 	m.RLock()
+	defer m.RUnlock()
 	subs := make([]*Subscription, 0, len(m.subscriptionsByID))
 	for _, s := range m.subscriptionsByID {
 		subs = append(subs, s)
 	}
-	m.RUnlock()
-	for _, s := range subs {
+	return subs
+}
+
+func (m *SubscriptionManager) checkForExpiredSubscriptions() {
+	for _, s := range m.subscriptions() {
 		// the lock of the manager is not held here, as a subscription that publishes locks itself first
 		if s.IsExpired() {
 			m.Delete(s)
-- 
2.43.0


From b871fd7c280a1a311e6e0632547382cad640ef21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:17 +0000
Subject: [PATCH 091/112] fix: close the channel of a client that does not read
 the responses

---
 server/server_secure_channel.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/server/server_secure_channel.go b/server/server_secure_channel.go
index 031c47c..23f505e 100644
--- a/server/server_secure_channel.go
+++ b/server/server_secure_channel.go
@@ -43,6 +43,8 @@ const (
 	minTokenLifetime uint32 = 300 * 1000
 	// the maximum number of milliseconds that a Token may be used before being renewed by the client. (60 min)
 	maxTokenLifetime uint32 = 3600 * 1000
+	// the time that a client may take to accept a chunk of a response.
+	writeTimeout = 15 * time.Second
 )
 
 // serverSecureChannel implements a secure channel for binary data over Tcp.
@@ -190,7 +192,7 @@ func (ch *serverSecureChannel) Open() error {
 	// log.Printf("Opening secure channel.\n")
 	buf := *(ch.bytesPool.Get().(*[]byte))
 	defer ch.bytesPool.Put(&buf)
-	ch.conn.SetDeadline(ch.tokenExpiration)
+	ch.conn.SetReadDeadline(ch.tokenExpiration)
 	_, err := ch.read(buf)
 	if err != nil {
 		return ua.BadDecodingError
@@ -420,7 +422,7 @@ func (ch *serverSecureChannel) Abort(reason ua.StatusCode, message string) error
 		enc.WriteUInt32(uint32(reason))
 		enc.WriteString(message)
 		ch.conn.SetWriteDeadline(time.Now().Add(3000 * time.Millisecond))
-		ch.write(writer.Bytes())
+		ch.conn.Write(writer.Bytes())
 		// log.Printf("<- Err { reason: 0x%X, message: %s }\n", uint32(reason), message)
 		ch.conn.Close()
 	}
@@ -1128,7 +1130,7 @@ func (ch *serverSecureChannel) readRequest() (ua.ServiceRequest, uint32, error)
 					return nil, 0, ua.BadSecureChannelTokenUnknown
 				}
 				ch.tokenExpiration = ch.pendingTokenExpiration
-				ch.conn.SetDeadline(ch.tokenExpiration)
+				ch.conn.SetReadDeadline(ch.tokenExpiration)
 				if ch.securityMode == ua.MessageSecurityModeSignAndEncrypt || ch.securityMode == ua.MessageSecurityModeSign {
 
 					// (re)create security keys for verifying, decrypting
@@ -1711,5 +1713,12 @@ func (ch *serverSecureChannel) write(p []byte) (int, error) {
 	if ch.conn == nil {
 		return 0, ua.BadSecureChannelClosed
 	}
-	return ch.conn.Write(p)
+	// a client that does not read must not keep the sender, and the locks it holds, waiting
+	ch.conn.SetWriteDeadline(time.Now().Add(writeTimeout))
+	n, err := ch.conn.Write(p)
+	if err != nil {
+		// the chunk may have been sent in part
+		ch.conn.Close()
+	}
+	return n, err
 }
-- 
2.43.0


From bcb5f090a8512a3e9570d6d79b5d748483d7ac01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:20 +0000
Subject: [PATCH 092/112] fix: keep accepting connections after running out of
 file descriptors

---
 server/server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/server.go b/server/server.go
index 66418f6..d1802f1 100644
--- a/server/server.go
+++ b/server/server.go
@@ -367,7 +367,7 @@ func (srv *Server) serve(ln net.Listener, wg *sync.WaitGroup) error {
 			if srv.State() != ua.ServerStateRunning {
 				return ua.BadServerHalted
 			}
-			if ne, ok := err.(net.Error); ok && ne.Timeout() {
+			if ne, ok := err.(net.Error); ok && (ne.Timeout() || ne.Temporary()) {
 				if delay == 0 {
 					delay = 5 * time.Millisecond
 				} else {
-- 
2.43.0


From 21a577ed796f3a08bb715c894d7f30183991d287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:43 +0000
Subject: [PATCH 093/112] fix: check every revocation list of the issuer, not
 only the first

---
 ua/certificate_helpers.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/ua/certificate_helpers.go b/ua/certificate_helpers.go
index 7011102..b33388c 100644
--- a/ua/certificate_helpers.go
+++ b/ua/certificate_helpers.go
@@ -350,7 +350,6 @@ func checkRevocation(chain []*x509.Certificate, index int, crls []*x509.Revocati
 						return BadCertificateIssuerRevoked
 					}
 				}
-				break
 			}
 		}
 	}
-- 
2.43.0


From 3aefeb77eccc66fb4363b0455371dd7ed79afda5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:46 +0000
Subject: [PATCH 094/112] fix: identify the client by the thumbprint of its
 leaf certificate

---
 server/server_secure_channel.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/server/server_secure_channel.go b/server/server_secure_channel.go
index 23f505e..1562236 100644
--- a/server/server_secure_channel.go
+++ b/server/server_secure_channel.go
@@ -545,7 +545,12 @@ func (ch *serverSecureChannel) sendOpenSecureChannelResponse(res *ua.OpenSecureC
 		encoder.WriteString(ch.securityPolicyURI)
 		if ch.securityMode == ua.MessageSecurityModeSignAndEncrypt || ch.securityMode == ua.MessageSecurityModeSign {
 			encoder.WriteByteArray(ch.localCertificate)
-			thumbprint := sha1.Sum(ch.remoteCertificate)
+			// the client may have sent a chain; the thumbprint identifies its leaf
+			leaf := ch.remoteCertificate
+			if certs, err := x509.ParseCertificates(leaf); err == nil && len(certs) > 0 {
+				leaf = certs[0].Raw
+			}
+			thumbprint := sha1.Sum(leaf)
 			encoder.WriteByteArray(thumbprint[:])
 		} else {
 			encoder.WriteByteArray(nil)
-- 
2.43.0


From 31ac37e9031d5fd9313abe848791b226b3bec81f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:57 +0000
Subject: [PATCH 095/112] fix: do not close the channel because a caller gives
 up while its request is sent

---
 client/client_secure_channel.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/client/client_secure_channel.go b/client/client_secure_channel.go
index 2e3ce4e..70f585d 100644
--- a/client/client_secure_channel.go
+++ b/client/client_secure_channel.go
@@ -568,11 +568,12 @@ func (ch *clientSecureChannel) sendRequest(ctx context.Context, op *ua.ServiceOp
 		return ua.BadRequestTimeout
 	}
 	if conn := ch.conn; conn != nil {
-		// do not block in writing longer than the caller waits
+		// do not block in writing much longer than the caller waits, but let
+		// a write that makes progress end, as a message cut short ends the channel
 		conn.SetWriteDeadline(time.Time{})
 		done := make(chan struct{})
 		stop := context.AfterFunc(ctx, func() {
-			conn.SetWriteDeadline(time.Unix(1, 0))
+			conn.SetWriteDeadline(time.Now().Add(500 * time.Millisecond))
 			close(done)
 		})
 		defer func() {
-- 
2.43.0


From 4eab8325d86a1ed8ff3559c92a758bd7128f5904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:23 +0000
Subject: [PATCH 096/112] fix: allow closing a server more than once

---
 server/server.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/server/server.go b/server/server.go
index d1802f1..783fe8d 100644
--- a/server/server.go
+++ b/server/server.go
@@ -68,6 +68,7 @@ type Server struct {
 	localCertificate                     []byte
 	localPrivateKey                      *rsa.PrivateKey
 	closing                              chan struct{}
+	closeOnce                            sync.Once
 	state                                ua.ServerState
 	secondsTillShutdown                  uint32
 	shutdownReason                       ua.LocalizedText
@@ -331,6 +332,11 @@ func (srv *Server) ListenAndServe() error {
 
 // Close server.
 func (srv *Server) Close() error {
+	srv.closeOnce.Do(srv.close)
+	return nil
+}
+
+func (srv *Server) close() {
 	srv.Lock()
 	if srv.state == ua.ServerStateRunning {
 		srv.state = ua.ServerStateShutdown
@@ -351,7 +357,6 @@ func (srv *Server) Close() error {
 
 	// begin closing channels
 	close(srv.closing)
-	return nil
 }
 
 // GetRoles returns the roles for the given user identity and connection information.
-- 
2.43.0


From f6a254c940ee5f099dd4276882fd37019c073da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:45 +0000
Subject: [PATCH 097/112] fix: stop the workers of a server that did not get to
 serve

---
 server/server.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/server/server.go b/server/server.go
index 783fe8d..9431e2a 100644
--- a/server/server.go
+++ b/server/server.go
@@ -300,6 +300,7 @@ func (srv *Server) ListenAndServe() error {
 	}
 	srv.state = ua.ServerStateRunning
 	srv.Unlock()
+	defer srv.workerpool.StopWait()
 
 	baseURL, err := url.Parse(srv.endpointURL)
 	if err != nil {
@@ -324,9 +325,6 @@ func (srv *Server) ListenAndServe() error {
 	// wait until channels closed
 	wg.Wait()
 
-	// stop workers.
-	srv.workerpool.StopWait()
-
 	return err
 }
 
@@ -353,6 +351,9 @@ func (srv *Server) close() {
 	} else {
 		srv.state = ua.ServerStateShutdown
 		srv.Unlock()
+
+		// it never listened
+		srv.workerpool.StopWait()
 	}
 
 	// begin closing channels
-- 
2.43.0


From 2fdf770ce0ee07857620e4940a41ce70da4353de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:09 +0000
Subject: [PATCH 098/112] fix: evaluate every element of a where clause once
 per event

---
 server/event_monitored_item.go | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/server/event_monitored_item.go b/server/event_monitored_item.go
index 834d94b..555d9ae 100644
--- a/server/event_monitored_item.go
+++ b/server/event_monitored_item.go
@@ -220,7 +220,7 @@ func (mi *EventMonitoredItem) OnEvent(evt ua.Event) {
 		mi.Unlock()
 		return
 	}
-	if res, ok := mi.whereClause(evt, 0).(bool); ok && res {
+	if res, ok := mi.whereClause(evt).(bool); ok && res {
 		mi.enqueue(mi.selectFields(evt))
 	}
 	mi.Unlock()
@@ -230,10 +230,20 @@ var (
 	attributeOperandEventType = ua.SimpleAttributeOperand{TypeDefinitionID: ua.ObjectTypeIDBaseEventType, BrowsePath: ua.ParseBrowsePath("EventType"), AttributeID: ua.AttributeIDValue}
 )
 
-func (mi *EventMonitoredItem) whereClause(evt ua.Event, idx int) any {
-	if idx >= len(mi.eventFilter.WhereClause.Elements) {
+// whereClause evaluates the where clause. As elements only refer to elements that follow, each element
+// is evaluated once, from the last to the first.
+func (mi *EventMonitoredItem) whereClause(evt ua.Event) any {
+	if len(mi.eventFilter.WhereClause.Elements) == 0 {
 		return true
 	}
+	results := make([]any, len(mi.eventFilter.WhereClause.Elements))
+	for idx := len(results) - 1; idx >= 0; idx-- {
+		results[idx] = mi.evaluateElement(evt, idx, results)
+	}
+	return results[0]
+}
+
+func (mi *EventMonitoredItem) evaluateElement(evt ua.Event, idx int, results []any) any {
 	element := mi.eventFilter.WhereClause.Elements[idx]
 	switch element.FilterOperator {
 
@@ -251,7 +261,7 @@ func (mi *EventMonitoredItem) whereClause(evt ua.Event, idx int) any {
 			if !mi.isElementIndexValid(c, idx) {
 				return false
 			}
-			a = mi.whereClause(evt, int(c.Index))
+			a = results[c.Index]
 		default:
 			return false
 		}
@@ -264,7 +274,7 @@ func (mi *EventMonitoredItem) whereClause(evt ua.Event, idx int) any {
 			if !mi.isElementIndexValid(c, idx) {
 				return false
 			}
-			b = mi.whereClause(evt, int(c.Index))
+			b = results[c.Index]
 		default:
 			return false
 		}
-- 
2.43.0


From f34777ffe01162e7ceb2f08b304e8cb552ccac30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:34 +0000
Subject: [PATCH 099/112] fix: decode the text and the locale of the names in a
 nodeset

---
 server/namespace_manager.go |  4 ++--
 ua/ua_node_set.go           | 15 ++++++++-------
 2 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/server/namespace_manager.go b/server/namespace_manager.go
index de612e0..e98da19 100644
--- a/server/namespace_manager.go
+++ b/server/namespace_manager.go
@@ -770,7 +770,7 @@ func (m *NamespaceManager) LoadNodeSetFromBuffer(buf []byte) error {
 				toRefs(n.References, aliases, nsMap),
 				n.IsAbstract,
 				n.Symmetric,
-				ua.LocalizedText{Text: n.InverseName},
+				toLocalizedText(n.InverseName),
 			)
 		case "UAObject":
 			nodes[i] = NewObjectNode(
@@ -927,7 +927,7 @@ func toLocalizedText(s ua.UALocalizedText) ua.LocalizedText {
 	if len(s.Text) > 0 {
 		return ua.NewLocalizedText(s.Text, s.Locale)
 	}
-	return ua.NewLocalizedText(s.Content, "")
+	return ua.NewLocalizedText(s.Content, s.LocaleAttr)
 }
 
 func indexOfString(data []string, element string) int {
diff --git a/ua/ua_node_set.go b/ua/ua_node_set.go
index 3d796ec..f97b2fb 100644
--- a/ua/ua_node_set.go
+++ b/ua/ua_node_set.go
@@ -37,8 +37,8 @@ type UANode struct {
 	// UADataType
 	Definition *UADataTypeDefinition `xml:"Definition"`
 	// UAReferenceType
-	InverseName string `xml:"InverseName"`
-	Symmetric   bool   `xml:"Symmetric,attr"`
+	InverseName UALocalizedText `xml:"InverseName"`
+	Symmetric   bool            `xml:"Symmetric,attr"`
 	// UAObject
 	EventNotifier uint8 `xml:"EventNotifier,attr"`
 	// UAVariable
@@ -57,14 +57,14 @@ type UANode struct {
 // Alias supports reading UANodeSet from xml.
 type Alias struct {
 	Alias  string `xml:"Alias,attr"`
-	NodeID string `xml:",innerxml"`
+	NodeID string `xml:",chardata"`
 }
 
 // UAReference supports reading UANodeSet from xml.
 type UAReference struct {
 	ReferenceType string `xml:"ReferenceType,attr"`
 	IsForward     string `xml:"IsForward,attr"`
-	TargetNodeID  string `xml:",innerxml"`
+	TargetNodeID  string `xml:",chardata"`
 }
 
 // UADataTypeDefinition supports reading UANodeSet from xml.
@@ -178,9 +178,10 @@ type ListOfGUID struct {
 
 // UALocalizedText supports reading UANodeSet from xml.
 type UALocalizedText struct {
-	Text    string `xml:"Text"`
-	Locale  string `xml:"Locale"`
-	Content string `xml:",innerxml"`
+	Text       string `xml:"Text"`
+	Locale     string `xml:"Locale"`
+	LocaleAttr string `xml:"Locale,attr"`
+	Content    string `xml:",chardata"`
 }
 
 // ListOfLocalizedText supports reading UANodeSet from xml.
-- 
2.43.0


From 3e69298276960aad5e56ca1c2be988b17f298755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:38 +0000
Subject: [PATCH 100/112] fix: accept every boolean form of IsForward in a
 nodeset

---
 server/namespace_manager.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/namespace_manager.go b/server/namespace_manager.go
index e98da19..f14b6d3 100644
--- a/server/namespace_manager.go
+++ b/server/namespace_manager.go
@@ -899,7 +899,7 @@ func toRefs(refs []*ua.UAReference, aliases map[string]string, nsMap map[uint16]
 	for i, r := range refs {
 		ra[i] = ua.Reference{
 			ReferenceTypeID: toNodeID(r.ReferenceType, aliases, nsMap),
-			IsInverse:       r.IsForward == "false",
+			IsInverse:       !toBool(r.IsForward, true),
 			TargetID:        ua.NewExpandedNodeID(toNodeID(r.TargetNodeID, aliases, nsMap)),
 		}
 	}
-- 
2.43.0


From 63805ca935044d1811a65d426c7445d58364b811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:45 +0000
Subject: [PATCH 101/112] fix: decode the byte strings of a nodeset

---
 ua/bytestring.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/ua/bytestring.go b/ua/bytestring.go
index 51db76e..a657cab 100644
--- a/ua/bytestring.go
+++ b/ua/bytestring.go
@@ -4,6 +4,7 @@ package ua
 
 import (
 	"encoding/base64"
+	"strings"
 )
 
 // ByteString is stored as a string.
@@ -17,3 +18,13 @@ func (b ByteString) String() string {
 func (b ByteString) MarshalText() ([]byte, error) {
 	return []byte(b.String()), nil
 }
+
+// UnmarshalText decodes the base64-encoded text, ignoring white space.
+func (b *ByteString) UnmarshalText(text []byte) error {
+	buf, err := base64.StdEncoding.DecodeString(strings.Join(strings.Fields(string(text)), ""))
+	if err != nil {
+		return err
+	}
+	*b = ByteString(buf)
+	return nil
+}
-- 
2.43.0


From 2018070c1241697a7fb8d8f748d632de5d724355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:45 +0000
Subject: [PATCH 102/112] fix: translate the namespaces of the values in a
 nodeset

---
 server/namespace_manager.go | 53 ++++++++++++++++++++++++++++++++-----
 1 file changed, 46 insertions(+), 7 deletions(-)

diff --git a/server/namespace_manager.go b/server/namespace_manager.go
index f14b6d3..2878385 100644
--- a/server/namespace_manager.go
+++ b/server/namespace_manager.go
@@ -874,6 +874,45 @@ func toNodeID(s string, aliases map[string]string, nsMap map[uint16]uint16) ua.N
 	return nil
 }
 
+// toNamespaceIndex translates a namespace index of the document to the server's namespace table.
+func toNamespaceIndex(ns uint16, nsMap map[uint16]uint16) uint16 {
+	if ns2, exists := nsMap[ns]; exists {
+		return ns2
+	}
+	return ns
+}
+
+// translateNodeID translates the namespace index of the id to the server's namespace table.
+func translateNodeID(id ua.NodeID, nsMap map[uint16]uint16) ua.NodeID {
+	switch n := id.(type) {
+	case ua.NodeIDNumeric:
+		n.NamespaceIndex = toNamespaceIndex(n.NamespaceIndex, nsMap)
+		return n
+	case ua.NodeIDString:
+		n.NamespaceIndex = toNamespaceIndex(n.NamespaceIndex, nsMap)
+		return n
+	case ua.NodeIDGUID:
+		n.NamespaceIndex = toNamespaceIndex(n.NamespaceIndex, nsMap)
+		return n
+	case ua.NodeIDOpaque:
+		n.NamespaceIndex = toNamespaceIndex(n.NamespaceIndex, nsMap)
+		return n
+	}
+	return id
+}
+
+func toNodeIDValue(s string, nsMap map[uint16]uint16) ua.NodeID {
+	return translateNodeID(ua.ParseNodeID(strings.TrimSpace(s)), nsMap)
+}
+
+func toExpandedNodeIDValue(s string, nsMap map[uint16]uint16) ua.ExpandedNodeID {
+	id := ua.ParseExpandedNodeID(strings.TrimSpace(s))
+	if id.NamespaceURI == "" {
+		id.NodeID = translateNodeID(id.NodeID, nsMap)
+	}
+	return id
+}
+
 func toDims(dims string, rank int32) []uint32 {
 	if dims == "" {
 		if rank > 0 {
@@ -1050,7 +1089,7 @@ func toDataValue(s ua.UAVariant, dataType string, aliases map[string]string, nsM
 			case ua.DataTypeIDQualifiedName:
 				if s.QualifiedName != nil {
 					item := *s.QualifiedName
-					return ua.NewDataValue(ua.QualifiedName{NamespaceIndex: item.NamespaceIndex, Name: strings.TrimSpace(item.Name)}, 0, now, 0, now, 0)
+					return ua.NewDataValue(ua.QualifiedName{NamespaceIndex: toNamespaceIndex(item.NamespaceIndex, nsMap), Name: strings.TrimSpace(item.Name)}, 0, now, 0, now, 0)
 				}
 			case ua.DataTypeIDDuration:
 				if s.Double != nil {
@@ -1059,12 +1098,12 @@ func toDataValue(s ua.UAVariant, dataType string, aliases map[string]string, nsM
 			case ua.DataTypeIDNodeID:
 				if s.NodeID != nil {
 					item := *s.NodeID
-					return ua.NewDataValue(ua.ParseNodeID(strings.TrimSpace(item.Identifier)), 0, now, 0, now, 0)
+					return ua.NewDataValue(toNodeIDValue(item.Identifier, nsMap), 0, now, 0, now, 0)
 				}
 			case ua.DataTypeIDExpandedNodeID:
 				if s.ExpandedNodeID != nil {
 					item := *s.ExpandedNodeID
-					return ua.NewDataValue(ua.ParseExpandedNodeID(strings.TrimSpace(item.Identifier)), 0, now, 0, now, 0)
+					return ua.NewDataValue(toExpandedNodeIDValue(item.Identifier, nsMap), 0, now, 0, now, 0)
 				}
 			case ua.DataTypeIDInteger:
 				switch {
@@ -1152,11 +1191,11 @@ func toDataValue(s ua.UAVariant, dataType string, aliases map[string]string, nsM
 					return ua.NewDataValue(ua.LocalizedText{Text: strings.TrimSpace(item.Text), Locale: strings.TrimSpace(item.Locale)}, 0, now, 0, now, 0)
 				case s.QualifiedName != nil:
 					item := *s.QualifiedName
-					return ua.NewDataValue(ua.QualifiedName{NamespaceIndex: item.NamespaceIndex, Name: strings.TrimSpace(item.Name)}, 0, now, 0, now, 0)
+					return ua.NewDataValue(ua.QualifiedName{NamespaceIndex: toNamespaceIndex(item.NamespaceIndex, nsMap), Name: strings.TrimSpace(item.Name)}, 0, now, 0, now, 0)
 				case s.NodeID != nil:
-					return ua.NewDataValue(ua.ParseNodeID(strings.TrimSpace(s.NodeID.Identifier)), 0, now, 0, now, 0)
+					return ua.NewDataValue(toNodeIDValue(s.NodeID.Identifier, nsMap), 0, now, 0, now, 0)
 				case s.ExpandedNodeID != nil:
-					return ua.NewDataValue(ua.ParseExpandedNodeID(strings.TrimSpace(s.ExpandedNodeID.Identifier)), 0, now, 0, now, 0)
+					return ua.NewDataValue(toExpandedNodeIDValue(s.ExpandedNodeID.Identifier, nsMap), 0, now, 0, now, 0)
 				}
 			case ua.DataTypeIDRange:
 				if s.ExtensionObject != nil {
@@ -1284,7 +1323,7 @@ func toDataValue(s ua.UAVariant, dataType string, aliases map[string]string, nsM
 					list := s.ListOfQualifiedName.List
 					list2 := make([]ua.QualifiedName, len(list))
 					for i, item := range list {
-						list2[i] = ua.QualifiedName{NamespaceIndex: item.NamespaceIndex, Name: strings.TrimSpace(item.Name)}
+						list2[i] = ua.QualifiedName{NamespaceIndex: toNamespaceIndex(item.NamespaceIndex, nsMap), Name: strings.TrimSpace(item.Name)}
 					}
 					return ua.NewDataValue(list2, 0, now, 0, now, 0)
 				}
-- 
2.43.0


From 9b1628ba932b3dacbd7111d30686b0ab7d99de29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:49 +0000
Subject: [PATCH 103/112] fix: load a nodeset with extension objects of another
 type

---
 server/namespace_manager.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/server/namespace_manager.go b/server/namespace_manager.go
index 2878385..cdd340f 100644
--- a/server/namespace_manager.go
+++ b/server/namespace_manager.go
@@ -1200,11 +1200,17 @@ func toDataValue(s ua.UAVariant, dataType string, aliases map[string]string, nsM
 			case ua.DataTypeIDRange:
 				if s.ExtensionObject != nil {
 					item := s.ExtensionObject.Range
+					if item == nil {
+						return ua.NewDataValue(nil, 0, now, 0, now, 0)
+					}
 					return ua.NewDataValue(ua.Range{Low: item.Low, High: item.High}, 0, now, 0, now, 0)
 				}
 			case ua.DataTypeIDEUInformation:
 				if s.ExtensionObject != nil {
 					item := s.ExtensionObject.EUInformation
+					if item == nil {
+						return ua.NewDataValue(nil, 0, now, 0, now, 0)
+					}
 					return ua.NewDataValue(ua.EUInformation{
 						NamespaceURI: item.NamespaceURI,
 						UnitID:       item.UnitID,
@@ -1421,6 +1427,9 @@ func toDataValue(s ua.UAVariant, dataType string, aliases map[string]string, nsM
 					list2 := make([]ua.ExtensionObject, len(list))
 					for i, item := range list {
 						arg := item.Argument
+						if arg == nil {
+							return ua.NewDataValue(nil, 0, now, 0, now, 0)
+						}
 						list2[i] = ua.Argument{
 							Name:            arg.Name,
 							DataType:        toNodeID(arg.DataType, aliases, nsMap),
@@ -1437,6 +1446,9 @@ func toDataValue(s ua.UAVariant, dataType string, aliases map[string]string, nsM
 					list2 := make([]ua.ExtensionObject, len(list))
 					for i, item := range list {
 						arg := item.EnumValueType
+						if arg == nil {
+							return ua.NewDataValue(nil, 0, now, 0, now, 0)
+						}
 						list2[i] = ua.EnumValueType{
 							Value:       arg.Value,
 							DisplayName: ua.LocalizedText{Text: arg.DisplayName.Text, Locale: arg.DisplayName.Locale},
-- 
2.43.0


From b4081329fe736721cb728f2cc7eaeeb4b43fd412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:52 +0000
Subject: [PATCH 104/112] fix: decode every element of a list of variants in a
 nodeset

---
 server/namespace_manager.go | 82 ++++---------------------------------
 1 file changed, 7 insertions(+), 75 deletions(-)

diff --git a/server/namespace_manager.go b/server/namespace_manager.go
index cdd340f..744eb23 100644
--- a/server/namespace_manager.go
+++ b/server/namespace_manager.go
@@ -1342,82 +1342,14 @@ func toDataValue(s ua.UAVariant, dataType string, aliases map[string]string, nsM
 					list := s.ListOfVariant.List
 					list2 := make([]ua.Variant, len(list))
 					for i, v := range list {
-						src := v.InnerXML
-						switch v.XMLName.Local {
-						case "Boolean":
-							dst, _ := strconv.ParseBool(strings.TrimSpace(src))
-							list2[i] = dst
-						case "Byte":
-							dst, _ := strconv.ParseUint(strings.TrimSpace(src), 10, 8)
-							list2[i] = byte(dst)
-						case "UInt16":
-							dst, _ := strconv.ParseUint(strings.TrimSpace(src), 10, 16)
-							list2[i] = uint16(dst)
-						case "UInt32":
-							dst, _ := strconv.ParseUint(strings.TrimSpace(src), 10, 32)
-							list2[i] = uint32(dst)
-						case "UInt64":
-							dst, _ := strconv.ParseUint(strings.TrimSpace(src), 10, 64)
-							list2[i] = uint64(dst)
-						case "SByte":
-							dst, _ := strconv.ParseInt(strings.TrimSpace(src), 10, 8)
-							list2[i] = int8(dst)
-						case "Int16":
-							dst, _ := strconv.ParseInt(strings.TrimSpace(src), 10, 16)
-							list2[i] = int16(dst)
-						case "Int32":
-							dst, _ := strconv.ParseInt(strings.TrimSpace(src), 10, 32)
-							list2[i] = int32(dst)
-						case "Int64":
-							dst, _ := strconv.ParseInt(strings.TrimSpace(src), 10, 64)
-							list2[i] = int64(dst)
-						case "Float":
-							dst, _ := strconv.ParseFloat(strings.TrimSpace(src), 32)
-							list2[i] = float32(dst)
-						case "Double":
-							dst, _ := strconv.ParseFloat(strings.TrimSpace(src), 64)
-							list2[i] = float64(dst)
-						case "String":
-							list2[i] = src
-						case "DateTime":
-							dst, err := time.Parse(time.RFC3339, strings.TrimSpace(src))
-							if err != nil {
-								list2[i] = time.Time{}
-								continue
-							}
-							list2[i] = dst
-						case "Guid":
-							dst, err := uuid.Parse(strings.TrimSpace(src))
-							if err != nil {
-								list2[i] = uuid.UUID{}
-							}
-							list2[i] = dst
-						case "ByteString":
-							list2[i] = ua.ByteString(src)
-						case "XMLElement":
-							list2[i] = ua.XMLElement(src)
-						case "LocalizedText":
-							item := &ua.UALocalizedText{}
-							hack := fmt.Sprintf("<uax:LocalizedText>%s</uax:LocalizedText>", src)
-							xml.Unmarshal([]byte(hack), item)
-							list2[i] = ua.LocalizedText{Text: item.Text, Locale: item.Locale}
-						case "QualifiedName":
-							item := &ua.UAQualifiedName{}
-							hack := fmt.Sprintf("<uax:QualifiedName>%s</uax:QualifiedName>", src)
-							xml.Unmarshal([]byte(hack), item)
-							list2[i] = ua.QualifiedName{NamespaceIndex: item.NamespaceIndex, Name: item.Name}
-						case "NodeID":
-							list2[i] = ua.ParseNodeID(strings.TrimSpace(src))
-						case "ExpandedNodeID":
-							list2[i] = ua.ParseExpandedNodeID(strings.TrimSpace(src))
-						case "ExtensionObject":
-							item := &ua.UAExtensionObject{}
-							hack := fmt.Sprintf("<uax:ExtensionObject>%s</uax:ExtensionObject>", src)
-							xml.Unmarshal([]byte(hack), item)
-							list2[i] = nil
-						default:
-							list2[i] = nil
+						// decode the element as if it were the value of a scalar variable
+						item := ua.UAVariant{}
+						hack := fmt.Sprintf("<Value><%[1]s>%[2]s</%[1]s></Value>", v.XMLName.Local, v.InnerXML)
+						if err := xml.Unmarshal([]byte(hack), &item); err != nil {
+							log.Printf("Error decoding Variant. %s\n", err)
+							continue
 						}
+						list2[i] = toDataValue(item, "i=24", nil, nsMap, -1, m).Value
 					}
 					return ua.NewDataValue(list2, 0, now, 0, now, 0)
 				}
-- 
2.43.0


From bc1f192c0131e11d2dffe2d78c30c1cd8cb2bee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:55 +0000
Subject: [PATCH 105/112] fix: report unknown elements and invalid node ids of
 a nodeset

---
 server/namespace_manager.go | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/server/namespace_manager.go b/server/namespace_manager.go
index 744eb23..b330b20 100644
--- a/server/namespace_manager.go
+++ b/server/namespace_manager.go
@@ -720,6 +720,10 @@ func (m *NamespaceManager) LoadNodeSetFromBuffer(buf []byte) error {
 
 	nodes := make([]Node, len(set.Nodes))
 	for i, n := range set.Nodes {
+		if err := checkNodeIDs(n, aliases, nsMap); err != nil {
+			log.Printf("Error decoding nodeset. %s\n", err)
+			return err
+		}
 		switch n.XMLName.Local {
 		case "UAObjectType":
 			nodes[i] = NewObjectTypeNode(
@@ -824,6 +828,10 @@ func (m *NamespaceManager) LoadNodeSetFromBuffer(buf []byte) error {
 				n.ContainsNoLoops,
 				n.EventNotifier,
 			)
+		default:
+			err := fmt.Errorf("unknown element %s", n.XMLName.Local)
+			log.Printf("Error decoding nodeset. %s\n", err)
+			return err
 		}
 	}
 	err = m.AddNodes(nodes...)
@@ -834,6 +842,22 @@ func (m *NamespaceManager) LoadNodeSetFromBuffer(buf []byte) error {
 	return nil
 }
 
+// checkNodeIDs returns an error if one of the ids of the node is not a valid NodeID.
+func checkNodeIDs(n ua.UANode, aliases map[string]string, nsMap map[uint16]uint16) error {
+	if toNodeID(n.NodeID, aliases, nsMap) == nil {
+		return fmt.Errorf("invalid NodeId %q", n.NodeID)
+	}
+	for _, r := range n.References {
+		if toNodeID(r.ReferenceType, aliases, nsMap) == nil {
+			return fmt.Errorf("invalid ReferenceType %q of node %q", r.ReferenceType, n.NodeID)
+		}
+		if toNodeID(r.TargetNodeID, aliases, nsMap) == nil {
+			return fmt.Errorf("invalid reference target %q of node %q", r.TargetNodeID, n.NodeID)
+		}
+	}
+	return nil
+}
+
 func toNodeID(s string, aliases map[string]string, nsMap map[uint16]uint16) ua.NodeID {
 	if alias, exists := aliases[s]; exists {
 		s = alias
@@ -844,9 +868,11 @@ func toNodeID(s string, aliases map[string]string, nsMap map[uint16]uint16) ua.N
 		if pos == -1 {
 			return nil
 		}
-		if ns1, err := strconv.ParseUint(s[3:pos], 10, 16); err == nil {
-			ns = uint16(ns1)
+		ns1, err := strconv.ParseUint(s[3:pos], 10, 16)
+		if err != nil {
+			return nil
 		}
+		ns = uint16(ns1)
 		s = s[pos+1:]
 		if ns2, exists := nsMap[ns]; exists {
 			ns = ns2
-- 
2.43.0


From 34ccbe35e7e34381554de925510f3b292a050cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:58 +0000
Subject: [PATCH 106/112] fix: use the default data type of variables in a
 nodeset

---
 server/namespace_manager.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/server/namespace_manager.go b/server/namespace_manager.go
index b330b20..a4396e8 100644
--- a/server/namespace_manager.go
+++ b/server/namespace_manager.go
@@ -720,6 +720,9 @@ func (m *NamespaceManager) LoadNodeSetFromBuffer(buf []byte) error {
 
 	nodes := make([]Node, len(set.Nodes))
 	for i, n := range set.Nodes {
+		if n.DataType == "" {
+			n.DataType = "i=24" // BaseDataType is the default
+		}
 		if err := checkNodeIDs(n, aliases, nsMap); err != nil {
 			log.Printf("Error decoding nodeset. %s\n", err)
 			return err
-- 
2.43.0


From 09bc54beac9a07748f7ca1ca082a741a0e7f92c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:21 +0000
Subject: [PATCH 107/112] fix: translate the data type before decoding the
 values of a nodeset

---
 server/namespace_manager.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/server/namespace_manager.go b/server/namespace_manager.go
index a4396e8..0af25fc 100644
--- a/server/namespace_manager.go
+++ b/server/namespace_manager.go
@@ -1040,7 +1040,7 @@ func toDataValue(s ua.UAVariant, dataType string, aliases map[string]string, nsM
 	if true {
 		switch rank {
 		case -1:
-			switch ua.ParseNodeID(dataType) {
+			switch toNodeID(dataType, aliases, nsMap) {
 			case ua.DataTypeIDBoolean:
 				if s.Bool != nil {
 					return ua.NewDataValue(*s.Bool, 0, now, 0, now, 0)
@@ -1257,7 +1257,7 @@ func toDataValue(s ua.UAVariant, dataType string, aliases map[string]string, nsM
 				return ua.NewDataValue(nil, 0, now, 0, now, 0)
 			}
 		case 1:
-			switch ua.ParseNodeID(dataType) {
+			switch toNodeID(dataType, aliases, nsMap) {
 			case ua.DataTypeIDBoolean:
 				if s.ListOfBoolean != nil {
 					return ua.NewDataValue(s.ListOfBoolean.List, 0, now, 0, now, 0)
-- 
2.43.0


From f148a73a874f34f5c7a06ac2344fc6d15ebda912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:19 +0000
Subject: [PATCH 108/112] fix: report invalid data types of a nodeset

---
 server/namespace_manager.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/server/namespace_manager.go b/server/namespace_manager.go
index 0af25fc..6240db0 100644
--- a/server/namespace_manager.go
+++ b/server/namespace_manager.go
@@ -850,6 +850,9 @@ func checkNodeIDs(n ua.UANode, aliases map[string]string, nsMap map[uint16]uint1
 	if toNodeID(n.NodeID, aliases, nsMap) == nil {
 		return fmt.Errorf("invalid NodeId %q", n.NodeID)
 	}
+	if toNodeID(n.DataType, aliases, nsMap) == nil {
+		return fmt.Errorf("invalid DataType %q of node %q", n.DataType, n.NodeID)
+	}
 	for _, r := range n.References {
 		if toNodeID(r.ReferenceType, aliases, nsMap) == nil {
 			return fmt.Errorf("invalid ReferenceType %q of node %q", r.ReferenceType, n.NodeID)
-- 
2.43.0


From 43a85be89e2168321c7e28e5cd95044a4c05d495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:22 +0000
Subject: [PATCH 109/112] fix: decode values of the enumerations that the
 nodeset itself defines

---
 server/namespace_manager.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/server/namespace_manager.go b/server/namespace_manager.go
index 6240db0..2f0cd48 100644
--- a/server/namespace_manager.go
+++ b/server/namespace_manager.go
@@ -722,6 +722,7 @@ func (m *NamespaceManager) LoadNodeSetFromBuffer(buf []byte) error {
 	for i, n := range set.Nodes {
 		if n.DataType == "" {
 			n.DataType = "i=24" // BaseDataType is the default
+			set.Nodes[i] = n
 		}
 		if err := checkNodeIDs(n, aliases, nsMap); err != nil {
 			log.Printf("Error decoding nodeset. %s\n", err)
@@ -842,6 +843,21 @@ func (m *NamespaceManager) LoadNodeSetFromBuffer(buf []byte) error {
 		log.Printf("Error adding nodes. %s\n", err)
 		return err
 	}
+	// the enumerations of this nodeset are known from here on
+	for i, n := range set.Nodes {
+		if n.Value.Int32 == nil {
+			continue
+		}
+		value := toDataValue(n.Value, n.DataType, aliases, nsMap, toInt32(n.ValueRank, -1), m)
+		switch node := nodes[i].(type) {
+		case *VariableNode:
+			node.Lock()
+			node.value = value
+			node.Unlock()
+		case *VariableTypeNode:
+			node.value = value
+		}
+	}
 	return nil
 }
 
-- 
2.43.0


From c7d24f8d43610eedea7f4431fc4a305454f340db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:00 +0000
Subject: [PATCH 110/112] fix: look up the children of a node under the lock of
 the namespace manager

---
 server/namespace_manager.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/server/namespace_manager.go b/server/namespace_manager.go
index 2f0cd48..558cc54 100644
--- a/server/namespace_manager.go
+++ b/server/namespace_manager.go
@@ -448,7 +448,7 @@ func (m *NamespaceManager) DeleteNodes(nodes []Node, deleteChildren bool) error
 	defer m.Unlock()
 	for _, node := range nodes {
 		if deleteChildren {
-			children := m.GetChildren(node, m.namespaces, hasChildandSubtypes)
+			children := m.getChildren(node, m.namespaces, hasChildandSubtypes)
 			for _, child := range children {
 				m.deleteNodeandInverseReferences(child, m.namespaces)
 			}
@@ -577,7 +577,7 @@ func (m *NamespaceManager) DeleteNodeByIDRecursive(nodeId ua.NodeID) (int, error
 	}
 
 	// Get all children recursively
-	children := m.GetChildren(node, m.namespaces, hasChildandSubtypes)
+	children := m.getChildren(node, m.namespaces, hasChildandSubtypes)
 
 	// Delete all children first
 	count := 0
@@ -605,11 +605,18 @@ func (m *NamespaceManager) DeleteNodeByIDRecursive(nodeId ua.NodeID) (int, error
 func (m *NamespaceManager) GetSubTypes(node Node) []Node {
 	m.RLock()
 	defer m.RUnlock()
-	return m.GetChildren(node, m.namespaces, []ua.NodeID{ua.ReferenceTypeIDHasSubtype})
+	return m.getChildren(node, m.namespaces, []ua.NodeID{ua.ReferenceTypeIDHasSubtype})
 }
 
 // GetChildren traverses the tree to get all target nodes with the given reference types.
 func (m *NamespaceManager) GetChildren(node Node, uris []string, withRefTypes []ua.NodeID) []Node {
+	m.RLock()
+	defer m.RUnlock()
+	return m.getChildren(node, uris, withRefTypes)
+}
+
+// getChildren is GetChildren for callers that hold the lock.
+func (m *NamespaceManager) getChildren(node Node, uris []string, withRefTypes []ua.NodeID) []Node {
 	children := []Node{}
 	visited := map[ua.NodeID]struct{}{node.NodeID(): {}}
 	queue := deque.Deque[Node]{}
-- 
2.43.0


From 67754eb69bbf57c23bf9b0951109643f51d232f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:02 +0000
Subject: [PATCH 111/112] fix: read the handlers of nodes under the lock that
 guards setting them

---
 server/server_service_set.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/server/server_service_set.go b/server/server_service_set.go
index 1694ae3..fc106a5 100644
--- a/server/server_service_set.go
+++ b/server/server_service_set.go
@@ -3838,8 +3838,11 @@ func (srv *Server) handleCall(ch *serverSecureChannel, requestid uint32, req *ua
 				if !n3.UserExecutable(session.UserIdentity()) {
 					results[i] = ua.CallMethodResult{StatusCode: ua.BadUserAccessDenied}
 				} else {
-					if n3.callMethodHandler != nil {
-						results[i] = n3.callMethodHandler(session, n)
+					n3.RLock()
+					f := n3.callMethodHandler
+					n3.RUnlock()
+					if f != nil {
+						results[i] = f(session, n)
 					} else {
 						results[i] = ua.CallMethodResult{StatusCode: ua.BadNotImplemented}
 					}
@@ -6297,7 +6300,10 @@ func (srv *Server) writeValue(session *Session, writeValue ua.WriteValue) ua.Sta
 				}
 			}
 
-			if f := n1.writeValueHandler; f != nil {
+			n1.RLock()
+			f := n1.writeValueHandler
+			n1.RUnlock()
+			if f != nil {
 				result, status := f(session, writeValue)
 				if status == ua.Good {
 					n1.SetValue(result)
@@ -6427,7 +6433,10 @@ func (srv *Server) readValue(session *Session, readValueId ua.ReadValueID) ua.Da
 			if (n1.UserAccessLevel(session.UserIdentity()) & ua.AccessLevelsCurrentRead) == 0 {
 				return ua.NewDataValue(nil, ua.BadUserAccessDenied, time.Time{}, 0, time.Now(), 0)
 			}
-			if f := n1.readValueHandler; f != nil {
+			n1.RLock()
+			f := n1.readValueHandler
+			n1.RUnlock()
+			if f != nil {
 				return f(session, readValueId)
 			}
 			return readRange(n1.Value(), readValueId.IndexRange)
-- 
2.43.0


From 389a591f3c33ac350bf7d0b8a32f998fc0e73909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:25 +0000
Subject: [PATCH 112/112] fix: read and write the shutdown state of the server
 under its lock

---
 server/server.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/server/server.go b/server/server.go
index 9431e2a..33abab7 100644
--- a/server/server.go
+++ b/server/server.go
@@ -338,16 +338,16 @@ func (srv *Server) close() {
 	srv.Lock()
 	if srv.state == ua.ServerStateRunning {
 		srv.state = ua.ServerStateShutdown
+		srv.shutdownReason = ua.NewLocalizedText("Closing", "")
 		srv.Unlock()
 
 		// allow for existing clients to exit gracefully
-		srv.shutdownReason = ua.NewLocalizedText("Closing", "")
 		for i := 3; i > 0; i-- {
-			srv.secondsTillShutdown = uint32(i)
+			srv.setSecondsTillShutdown(uint32(i))
 			time.Sleep(time.Second)
 		}
-		srv.secondsTillShutdown = uint32(0)
-		
+		srv.setSecondsTillShutdown(0)
+
 	} else {
 		srv.state = ua.ServerStateShutdown
 		srv.Unlock()
@@ -360,6 +360,12 @@ func (srv *Server) close() {
 	close(srv.closing)
 }
 
+func (srv *Server) setSecondsTillShutdown(value uint32) {
+	srv.Lock()
+	defer srv.Unlock()
+	srv.secondsTillShutdown = value
+}
+
 // GetRoles returns the roles for the given user identity and connection information.
 func (srv *Server) GetRoles(userIdentity any, applicationURI string, endpointURL string) ([]ua.NodeID, error) {
 	return srv.rolesProvider.GetRoles(userIdentity, applicationURI, endpointURL)
@@ -562,6 +568,8 @@ func (srv *Server) initializeNamespace() error {
 	}
 	if n, ok := nm.FindVariable(ua.VariableIDServerServerStatus); ok {
 		n.SetReadValueHandler(func(session *Session, req ua.ReadValueID) ua.DataValue {
+			srv.RLock()
+			defer srv.RUnlock()
 			return ua.NewDataValue(
 				ua.ServerStatusDataType{
 					StartTime:           srv.startTime,
@@ -585,11 +593,15 @@ func (srv *Server) initializeNamespace() error {
 	}
 	if n, ok := nm.FindVariable(ua.VariableIDServerServerStatusSecondsTillShutdown); ok {
 		n.SetReadValueHandler(func(session *Session, req ua.ReadValueID) ua.DataValue {
+			srv.RLock()
+			defer srv.RUnlock()
 			return ua.NewDataValue(srv.secondsTillShutdown, 0, time.Now(), 0, time.Now(), 0)
 		})
 	}
 	if n, ok := nm.FindVariable(ua.VariableIDServerServerStatusShutdownReason); ok {
 		n.SetReadValueHandler(func(session *Session, req ua.ReadValueID) ua.DataValue {
+			srv.RLock()
+			defer srv.RUnlock()
 			return ua.NewDataValue(srv.shutdownReason, 0, time.Now(), 0, time.Now(), 0)
 		})
 	}
-- 
2.43.0

