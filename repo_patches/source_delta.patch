From 5d1c3ed11ed08667572929bd3a5f3ab598486a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:30 +0000
Subject: [PATCH 01/17] fix: size map values with the value codec when encoding
 a map entry

---
 proto/map.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proto/map.go b/proto/map.go
index 38e3b8b..6c6dd19 100644
--- a/proto/map.go
+++ b/proto/map.go
@@ -77,7 +77,7 @@ func mapEncodeFuncOf(t reflect.Type, f *mapField) encodeFunc {
 			val := m.Value()
 
 			keySize := keyCodec.size(key, f.keyField)
-			valSize := keyCodec.size(val, f.valField)
+			valSize := valCodec.size(val, f.valField)
 			elemSize := keySize + valSize
 
 			b = append(b, mapTag...)
-- 
2.43.0


From 349c319b44d2082ddfee4ec8accc2905c6a6314b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:32 +0000
Subject: [PATCH 02/17] fix: encode an empty map as nothing instead of as one
 zero entry

---
 proto/map.go | 12 ------------
 1 file changed, 12 deletions(-)

diff --git a/proto/map.go b/proto/map.go
index 6c6dd19..10ebb43 100644
--- a/proto/map.go
+++ b/proto/map.go
@@ -9,8 +9,6 @@ import (
 	. "github.com/RomiChan/protobuf/internal/runtime_reflect"
 )
 
-const zeroSize = 1 // sizeOfVarint(0)
-
 type mapField struct {
 	wiretag  uint64
 	keyField *structField
@@ -48,16 +46,12 @@ func mapSizeFuncOf(t reflect.Type, f *mapField) sizeFunc {
 			valSize := valCodec.size(m.Value(), f.valField)
 			n += mapTagSize + sizeOfVarint(uint64(keySize+valSize)) + keySize + valSize
 		}
-		if n == 0 {
-			n = mapTagSize + zeroSize
-		}
 		return n
 	}
 }
 
 func mapEncodeFuncOf(t reflect.Type, f *mapField) encodeFunc {
 	mapTag := appendVarint(nil, f.wiretag)
-	zero := append(mapTag, 0)
 	keyCodec := f.keyField.codec
 	valCodec := f.valField.codec
 
@@ -67,8 +61,6 @@ func mapEncodeFuncOf(t reflect.Type, f *mapField) encodeFunc {
 		}
 		p = *(*unsafe.Pointer)(p)
 
-		origLen := len(b)
-
 		m := MapIter{}
 		defer m.Done()
 
@@ -85,10 +77,6 @@ func mapEncodeFuncOf(t reflect.Type, f *mapField) encodeFunc {
 			b = keyCodec.encode(b, key, f.keyField)
 			b = valCodec.encode(b, val, f.valField)
 		}
-
-		if len(b) == origLen {
-			b = append(b, zero...)
-		}
 		return b
 	}
 }
-- 
2.43.0


From 654c56d1ac3e8be3a07a0120a8a2491644f1ad3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:33 +0000
Subject: [PATCH 03/17] fix: decode zigzag map keys and values as zigzag

---
 proto/map.go    | 20 +++++++++++++-------
 proto/walker.go |  2 ++
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/proto/map.go b/proto/map.go
index 10ebb43..2cdda30 100644
--- a/proto/map.go
+++ b/proto/map.go
@@ -10,9 +10,11 @@ import (
 )
 
 type mapField struct {
-	wiretag  uint64
-	keyField *structField
-	valField *structField
+	wiretag   uint64
+	keyField  *structField
+	valField  *structField
+	keyZigzag bool
+	valZigzag bool
 }
 
 func (w *walker) mapCodec(t reflect.Type, f *mapField) *codec {
@@ -81,14 +83,18 @@ func mapEncodeFuncOf(t reflect.Type, f *mapField) encodeFunc {
 	}
 }
 
-func formatWireTag(wire uint64) reflect.StructTag {
-	return reflect.StructTag(fmt.Sprintf(`protobuf:"%s,%d,opt"`, wireType(wire&7), wire>>3))
+func formatWireTag(f *structField, zigzag bool) reflect.StructTag {
+	wire := f.wireType().String()
+	if zigzag {
+		wire = "zigzag64" // the width comes from the Go type
+	}
+	return reflect.StructTag(fmt.Sprintf(`protobuf:"%s,%d,opt"`, wire, f.fieldNumber()))
 }
 
 func mapDecodeFuncOf(t reflect.Type, m *mapField, w *walker) decodeFunc {
 	structType := reflect.StructOf([]reflect.StructField{
-		{Name: "Key", Type: t.Key(), Tag: formatWireTag(m.keyField.wiretag)},
-		{Name: "Elem", Type: t.Elem(), Tag: formatWireTag(m.valField.wiretag)},
+		{Name: "Key", Type: t.Key(), Tag: formatWireTag(m.keyField, m.keyZigzag)},
+		{Name: "Elem", Type: t.Elem(), Tag: formatWireTag(m.valField, m.valZigzag)},
 	})
 
 	info := w.structInfo(structType)
diff --git a/proto/walker.go b/proto/walker.go
index 32a4df9..12ad419 100644
--- a/proto/walker.go
+++ b/proto/walker.go
@@ -241,12 +241,14 @@ func (w *walker) structInfo(t reflect.Type) *structInfo {
 				keyField := &structField{wiretag: uint64(t.fieldNumber)<<3 | uint64(t.wireType)}
 				keyField.tagsize = sizeOfVarint(keyField.wiretag)
 				conf.zigzag = t.zigzag
+				m.keyZigzag = t.zigzag
 				keyField.codec = w.codec(key, conf)
 
 				t, _ = parseStructTag(f.Tag.Get("protobuf_val"))
 				valFiled := &structField{wiretag: uint64(t.fieldNumber)<<3 | uint64(t.wireType)}
 				valFiled.tagsize = sizeOfVarint(valFiled.wiretag)
 				conf.zigzag = t.zigzag
+				m.valZigzag = t.zigzag
 				valFiled.codec = w.codec(val, conf)
 
 				m.keyField = keyField
-- 
2.43.0


From 41d27d33e932061e7701743b474fb8b61a15922b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:05 +0000
Subject: [PATCH 04/17] fix: use the fixed-width codecs for repeated, map and
 pointer fields tagged fixed32/fixed64

---
 proto/struct.go |  4 ++++
 proto/walker.go | 20 ++++++++++++++++++--
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/proto/struct.go b/proto/struct.go
index 9b9ce5b..39d7a77 100644
--- a/proto/struct.go
+++ b/proto/struct.go
@@ -156,6 +156,10 @@ type structTag struct {
 	zigzag      bool
 }
 
+func (t *structTag) fixed() bool {
+	return t.wireType == fixed32 || t.wireType == fixed64
+}
+
 func parseStructTag(tag string) (structTag, error) {
 	t := structTag{
 		// version:    2,
diff --git a/proto/walker.go b/proto/walker.go
index 12ad419..1234770 100644
--- a/proto/walker.go
+++ b/proto/walker.go
@@ -23,6 +23,7 @@ type walker struct {
 
 type walkerConfig struct {
 	zigzag   bool
+	fixed    bool // fixed32 or fixed64 on the wire
 	required bool
 }
 
@@ -47,8 +48,14 @@ func (w *walker) codec(t reflect.Type, conf *walkerConfig) *codec {
 		}
 		return &int64Codec
 	case reflect.Uint32:
+		if conf.fixed {
+			return &fixed32Codec
+		}
 		return &uint32Codec
 	case reflect.Uint64:
+		if conf.fixed {
+			return &fixed64Codec
+		}
 		return &uint64Codec
 	case reflect.Float32:
 		return &float32Codec
@@ -171,7 +178,7 @@ func (w *walker) structInfo(t reflect.Type) *structInfo {
 			case optionUInt32Type:
 				field.codec = &fixed32OptionCodec
 			}
-			switch baseKindOf(f.Type) {
+			switch f.Type.Kind() {
 			case reflect.Uint32:
 				field.codec = &fixed32Codec
 			case reflect.Float32:
@@ -184,7 +191,7 @@ func (w *walker) structInfo(t reflect.Type) *structInfo {
 			case optionFloat64Type:
 				field.codec = &float64OptionCodec
 			}
-			switch baseKindOf(f.Type) {
+			switch f.Type.Kind() {
 			case reflect.Uint64:
 				field.codec = &fixed64Codec
 			case reflect.Float64:
@@ -216,6 +223,7 @@ func (w *walker) structInfo(t reflect.Type) *structInfo {
 		if field.codec == nil {
 			conf := &walkerConfig{
 				zigzag: t.zigzag,
+				fixed:  t.fixed(),
 				// required: t.required,
 			}
 			switch baseKindOf(f.Type) {
@@ -241,6 +249,7 @@ func (w *walker) structInfo(t reflect.Type) *structInfo {
 				keyField := &structField{wiretag: uint64(t.fieldNumber)<<3 | uint64(t.wireType)}
 				keyField.tagsize = sizeOfVarint(keyField.wiretag)
 				conf.zigzag = t.zigzag
+				conf.fixed = t.fixed()
 				m.keyZigzag = t.zigzag
 				keyField.codec = w.codec(key, conf)
 
@@ -248,6 +257,7 @@ func (w *walker) structInfo(t reflect.Type) *structInfo {
 				valFiled := &structField{wiretag: uint64(t.fieldNumber)<<3 | uint64(t.wireType)}
 				valFiled.tagsize = sizeOfVarint(valFiled.wiretag)
 				conf.zigzag = t.zigzag
+				conf.fixed = t.fixed()
 				m.valZigzag = t.zigzag
 				valFiled.codec = w.codec(val, conf)
 
@@ -317,8 +327,14 @@ func (w *walker) required(t reflect.Type, conf *walkerConfig) *codec {
 		}
 		return &int64RequiredCodec
 	case reflect.Uint32:
+		if conf.fixed {
+			return &fixed32RequiredCodec
+		}
 		return &uint32RequiredCodec
 	case reflect.Uint64:
+		if conf.fixed {
+			return &fixed64RequiredCodec
+		}
 		return &uint64RequiredCodec
 	case reflect.Float32:
 		return &float32RequiredCodec
-- 
2.43.0


From 6759e77fa9f1766c97b57cc3d0b565faa936ce36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:06 +0000
Subject: [PATCH 05/17] fix: encode sfixed32 and sfixed64 fields as fixed-width
 values

---
 proto/walker.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/proto/walker.go b/proto/walker.go
index 1234770..ccc3421 100644
--- a/proto/walker.go
+++ b/proto/walker.go
@@ -41,11 +41,17 @@ func (w *walker) codec(t reflect.Type, conf *walkerConfig) *codec {
 		if conf.zigzag {
 			return &zigzag32Codec
 		}
+		if conf.fixed {
+			return &fixed32Codec
+		}
 		return &int32Codec
 	case reflect.Int64:
 		if conf.zigzag {
 			return &zigzag64Codec
 		}
+		if conf.fixed {
+			return &fixed64Codec
+		}
 		return &int64Codec
 	case reflect.Uint32:
 		if conf.fixed {
@@ -175,24 +181,24 @@ func (w *walker) structInfo(t reflect.Type) *structInfo {
 			switch f.Type {
 			case optionFloat32Type:
 				field.codec = &float32OptionCodec
-			case optionUInt32Type:
+			case optionUInt32Type, optionInt32Type:
 				field.codec = &fixed32OptionCodec
 			}
 			switch f.Type.Kind() {
-			case reflect.Uint32:
+			case reflect.Uint32, reflect.Int32:
 				field.codec = &fixed32Codec
 			case reflect.Float32:
 				field.codec = &float32Codec
 			}
 		case fixed64:
 			switch f.Type {
-			case optionUInt64Type:
+			case optionUInt64Type, optionInt64Type:
 				field.codec = &fixed64OptionCodec
 			case optionFloat64Type:
 				field.codec = &float64OptionCodec
 			}
 			switch f.Type.Kind() {
-			case reflect.Uint64:
+			case reflect.Uint64, reflect.Int64:
 				field.codec = &fixed64Codec
 			case reflect.Float64:
 				field.codec = &float64Codec
@@ -320,11 +326,17 @@ func (w *walker) required(t reflect.Type, conf *walkerConfig) *codec {
 		if conf.zigzag {
 			return &zigzag32RequiredCodec
 		}
+		if conf.fixed {
+			return &fixed32RequiredCodec
+		}
 		return &int32RequiredCodec
 	case reflect.Int64:
 		if conf.zigzag {
 			return &zigzag64RequiredCodec
 		}
+		if conf.fixed {
+			return &fixed64RequiredCodec
+		}
 		return &int64RequiredCodec
 	case reflect.Uint32:
 		if conf.fixed {
-- 
2.43.0


From 1ae94f267592bf94f9d492e7ac479882f6c7149a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:07 +0000
Subject: [PATCH 06/17] fix: decode a bool from the whole varint, not from its
 first byte

---
 proto/normal_codec.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/proto/normal_codec.go b/proto/normal_codec.go
index 8fd393b..5033c68 100644
--- a/proto/normal_codec.go
+++ b/proto/normal_codec.go
@@ -1,7 +1,6 @@
 package proto
 
 import (
-	"io"
 	"math"
 	"unsafe"
 )
@@ -32,11 +31,9 @@ func encodeBool(b []byte, p unsafe.Pointer, f *structField) []byte {
 }
 
 func decodeBool(b []byte, p unsafe.Pointer) (int, error) {
-	if len(b) == 0 {
-		return 0, io.ErrUnexpectedEOF
-	}
-	*(*bool)(p) = b[0] != 0
-	return 1, nil
+	v, n, err := decodeVarint(b)
+	*(*bool)(p) = v != 0
+	return n, err
 }
 
 var bytesCodec = codec{
-- 
2.43.0


From 0574c355d905c1b3c4d00442f77b981125742b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:08 +0000
Subject: [PATCH 07/17] fix: accept the req option the generator writes for
 required fields

---
 proto/struct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proto/struct.go b/proto/struct.go
index 39d7a77..d36fc3d 100644
--- a/proto/struct.go
+++ b/proto/struct.go
@@ -196,7 +196,7 @@ func parseStructTag(tag string) (structTag, error) {
 
 		case 2:
 			switch f {
-			case "opt":
+			case "opt", "req":
 				// not sure what this is for
 			case "rep":
 				t.repeated = true
-- 
2.43.0


From 3e9b4feb9e2dddb5cf92176c02adafb2d6ee4231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:09 +0000
Subject: [PATCH 08/17] fix: do not share slice, map and pointer codecs by Go
 type within a walk

The wire encoding comes from the field tag as well as from the Go type, so
two fields of one struct can need different codecs for one Go type.
---
 proto/map.go    | 2 --
 proto/slice.go  | 4 ----
 proto/walker.go | 1 -
 3 files changed, 7 deletions(-)

diff --git a/proto/map.go b/proto/map.go
index 2cdda30..f8d2130 100644
--- a/proto/map.go
+++ b/proto/map.go
@@ -19,8 +19,6 @@ type mapField struct {
 
 func (w *walker) mapCodec(t reflect.Type, f *mapField) *codec {
 	m := new(codec)
-	w.codecs[t] = m
-
 	m.size = mapSizeFuncOf(t, f)
 	m.encode = mapEncodeFuncOf(t, f)
 	m.decode = mapDecodeFuncOf(t, f, w)
diff --git a/proto/slice.go b/proto/slice.go
index a3bc710..68d71d9 100644
--- a/proto/slice.go
+++ b/proto/slice.go
@@ -14,11 +14,7 @@ func sliceCodecOf(t reflect.Type, c *codec, w *walker) *codec {
 	if loaded, ok := sliceMap.Load(c); ok {
 		return loaded.(*codec)
 	}
-	if w.codecs[t] != nil {
-		return w.codecs[t]
-	}
 	s := new(codec)
-	w.codecs[t] = s
 
 	s.size = sliceSizeFuncOf(t, c)
 	s.encode = sliceEncodeFuncOf(t, c)
diff --git a/proto/walker.go b/proto/walker.go
index ccc3421..b5a6272 100644
--- a/proto/walker.go
+++ b/proto/walker.go
@@ -306,7 +306,6 @@ func (w *walker) pointer(t reflect.Type, conf *walkerConfig) *codec {
 	}
 	// common value
 	p := new(codec)
-	w.codecs[t] = p
 	c := w.codec(t.Elem(), conf)
 	p.size = pointerSizeFuncOf(t, c)
 	p.encode = pointerEncodeFuncOf(t, c)
-- 
2.43.0


From a412f194a773bc193dfcccca5d09888483e5e89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:10 +0000
Subject: [PATCH 09/17] fix: keep the presence of a pointer field that points
 to a zero value

---
 proto/walker.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/proto/walker.go b/proto/walker.go
index b5a6272..0b47d1e 100644
--- a/proto/walker.go
+++ b/proto/walker.go
@@ -306,7 +306,8 @@ func (w *walker) pointer(t reflect.Type, conf *walkerConfig) *codec {
 	}
 	// common value
 	p := new(codec)
-	c := w.codec(t.Elem(), conf)
+	// a pointer that is not nil is present, whatever it points to
+	c := w.codec(t.Elem(), &walkerConfig{zigzag: conf.zigzag, fixed: conf.fixed, required: true})
 	p.size = pointerSizeFuncOf(t, c)
 	p.encode = pointerEncodeFuncOf(t, c)
 	p.decode = pointerDecodeFuncOf(t, c)
-- 
2.43.0


From 95f96e37648836df3dc66498b91ad0bb8c183dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:37 +0000
Subject: [PATCH 10/17] fix: do not handle a pointer to a slice as if it were
 the slice

---
 proto/walker.go | 16 +---------------
 1 file changed, 1 insertion(+), 15 deletions(-)

diff --git a/proto/walker.go b/proto/walker.go
index 0b47d1e..e33bb79 100644
--- a/proto/walker.go
+++ b/proto/walker.go
@@ -133,17 +133,6 @@ func (w *walker) structCodec(t reflect.Type) *codec {
 	return actualCodec.(*codec)
 }
 
-func baseKindOf(t reflect.Type) reflect.Kind {
-	return baseTypeOf(t).Kind()
-}
-
-func baseTypeOf(t reflect.Type) reflect.Type {
-	for t.Kind() == reflect.Ptr {
-		t = t.Elem()
-	}
-	return t
-}
-
 func (w *walker) structInfo(t reflect.Type) *structInfo {
 	if info, ok := structInfoCache.Load(pointer(t)); ok {
 		return info
@@ -232,10 +221,7 @@ func (w *walker) structInfo(t reflect.Type) *structInfo {
 				fixed:  t.fixed(),
 				// required: t.required,
 			}
-			switch baseKindOf(f.Type) {
-			case reflect.Struct:
-				field.codec = w.codec(f.Type, conf)
-
+			switch f.Type.Kind() {
 			case reflect.Slice:
 				elem := f.Type.Elem()
 				if elem.Kind() == reflect.Uint8 { // []byte
-- 
2.43.0


From 801455a993dea7fd8c098240c4adaf0513c201de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:38 +0000
Subject: [PATCH 11/17] fix: publish codecs only when the whole type has been
 walked

A message type that refers to itself was put in the caches while parts of it
were still missing: a concurrent first use lost its fields or called a nil
function, and a type rejected by a panic stayed in the cache half built.
---
 proto/proto.go  |  1 +
 proto/walker.go | 16 +++++++++++++---
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/proto/proto.go b/proto/proto.go
index b687f50..3ff80c9 100644
--- a/proto/proto.go
+++ b/proto/proto.go
@@ -120,6 +120,7 @@ func cachedStructInfoOf(t reflect.Type) *structInfo {
 	}
 
 	info := w.structInfo(t)
+	w.publish()
 	actual, _ := structInfoCache.LoadOrStore(pointer(t), info)
 	return actual
 }
diff --git a/proto/walker.go b/proto/walker.go
index e33bb79..3c5b41b 100644
--- a/proto/walker.go
+++ b/proto/walker.go
@@ -129,8 +129,19 @@ func (w *walker) structCodec(t reflect.Type) *codec {
 		l, err := info.decode(b[n:], *v)
 		return n + l, err
 	}
-	actualCodec, _ := codecCache.LoadOrStore(pointer(t), c)
-	return actualCodec.(*codec)
+	return c
+}
+
+// publish makes the result of a walk visible to other goroutines. The parts of
+// a recursive type refer to each other, so that none of them is complete, and
+// none may be published, before the walk has reached its end.
+func (w *walker) publish() {
+	for t, info := range w.infos {
+		structInfoCache.LoadOrStore(pointer(t), info)
+	}
+	for t, c := range w.codecs {
+		codecCache.LoadOrStore(pointer(t), c)
+	}
 }
 
 func (w *walker) structInfo(t reflect.Type) *structInfo {
@@ -275,7 +286,6 @@ func (w *walker) structInfo(t reflect.Type) *structInfo {
 		info.fieldIndex[f.fieldNumber()] = f
 	}
 
-	structInfoCache.Store(pointer(t), info)
 	return info
 }
 
-- 
2.43.0


From 115712a27eceb656369186810df19c7ca48da044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:39 +0000
Subject: [PATCH 12/17] fix: return an error for nil and for a pointer to a
 non-struct

---
 proto/proto.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/proto/proto.go b/proto/proto.go
index 3ff80c9..0cd0fed 100644
--- a/proto/proto.go
+++ b/proto/proto.go
@@ -24,10 +24,13 @@ func Size(v interface{}) int {
 
 func Marshal(v interface{}) ([]byte, error) {
 	t, p := inspect(v)
-	if t.Kind() != reflect.Ptr {
+	if t == nil || t.Kind() != reflect.Ptr {
 		return nil, fmt.Errorf("proto.Marshal(%T): not a pointer", v)
 	}
 	t = t.Elem()
+	if t.Kind() != reflect.Struct {
+		return nil, fmt.Errorf("proto.Marshal(%T): not a pointer to a struct", v)
+	}
 	info := cachedStructInfoOf(t)
 	b := make([]byte, 0, info.size(p))
 	b = info.encode(b, p)
@@ -41,7 +44,7 @@ func Unmarshal(b []byte, v interface{}) error {
 	}
 
 	t, p := inspect(v)
-	if t.Kind() != reflect.Pointer || p == nil {
+	if t == nil || t.Kind() != reflect.Pointer || p == nil {
 		return &InvalidUnmarshalError{Type: t}
 	}
 	elem := t.Elem()
-- 
2.43.0


From 2326b194eec643e379ee5750bbb15d6045f029d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:40 +0000
Subject: [PATCH 13/17] fix: clear the slot before decoding a repeated element
 into it

---
 proto/slice.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/proto/slice.go b/proto/slice.go
index 68d71d9..c4107d8 100644
--- a/proto/slice.go
+++ b/proto/slice.go
@@ -54,6 +54,7 @@ func sliceEncodeFuncOf(t reflect.Type, c *codec) encodeFunc {
 func sliceDecodeFuncOf(t reflect.Type, c *codec) decodeFunc {
 	elemType := t.Elem()
 	elemSize := alignedSize(elemType)
+	zero := unsafe.Pointer(reflect.New(elemType).Pointer())
 	return func(b []byte, p unsafe.Pointer) (int, error) {
 		s := (*Slice)(p)
 		i := s.Len()
@@ -62,7 +63,10 @@ func sliceDecodeFuncOf(t reflect.Type, c *codec) decodeFunc {
 			*s = growSlice(elemType, s)
 		}
 
-		n, err := c.decode(b, s.Index(i, elemSize))
+		// spare capacity may hold an element of an earlier or failed decode
+		elem := s.Index(i, elemSize)
+		Assign(pointer(elemType), elem, zero)
+		n, err := c.decode(b, elem)
 		if err == nil {
 			s.SetLen(i + 1)
 		}
-- 
2.43.0


From 2ef043673bc100716a58c5116c2591a0cf9e0841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:04 +0000
Subject: [PATCH 14/17] fix: encode a nil []byte element of a repeated field as
 an empty element

---
 proto/gen/required/main.go |  2 +-
 proto/required_codec.go    | 14 ++++++++++++++
 proto/walker.go            |  2 +-
 3 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/proto/gen/required/main.go b/proto/gen/required/main.go
index 802ccdb..48054a9 100644
--- a/proto/gen/required/main.go
+++ b/proto/gen/required/main.go
@@ -20,7 +20,7 @@ func setOf(ss ...string) map[string]bool {
 }
 
 var needTransform = setOf(
-	"bool", "string",
+	"bool", "string", "bytes",
 	"float32", "float64",
 	"int32", "int64", "uint32", "uint64",
 	"fixed32", "fixed64", "zigzag32", "zigzag64",
diff --git a/proto/required_codec.go b/proto/required_codec.go
index 3a6279d..d2fe03f 100644
--- a/proto/required_codec.go
+++ b/proto/required_codec.go
@@ -22,6 +22,20 @@ func encodeBoolRequired(b []byte, p unsafe.Pointer, f *structField) []byte {
 	return b
 }
 
+var bytesRequiredCodec = codec{size: sizeOfBytesRequired, encode: encodeBytesRequired, decode: decodeBytes}
+
+func sizeOfBytesRequired(p unsafe.Pointer, f *structField) int {
+	v := *(*[]byte)(p)
+	return sizeOfVarlen(len(v)) + f.tagsize
+}
+func encodeBytesRequired(b []byte, p unsafe.Pointer, f *structField) []byte {
+	v := *(*[]byte)(p)
+	b = appendVarint(b, f.wiretag)
+	b = appendVarint(b, uint64(len(v)))
+	b = append(b, v...)
+	return b
+}
+
 var stringRequiredCodec = codec{size: sizeOfStringRequired, encode: encodeStringRequired, decode: decodeString}
 
 func sizeOfStringRequired(p unsafe.Pointer, f *structField) int {
diff --git a/proto/walker.go b/proto/walker.go
index 3c5b41b..69f9ba7 100644
--- a/proto/walker.go
+++ b/proto/walker.go
@@ -354,7 +354,7 @@ func (w *walker) required(t reflect.Type, conf *walkerConfig) *codec {
 		elem := t.Elem()
 		switch elem.Kind() {
 		case reflect.Uint8:
-			return &bytesCodec
+			return &bytesRequiredCodec
 		}
 	case reflect.Struct:
 		panic("nested message must be pointer:" + t.String())
-- 
2.43.0


From 4e4c8dd06b8aa956dab7f68cb574432840603051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:29 +0000
Subject: [PATCH 15/17] fix: do not annotate getters that are not generated

---
 internal/generator/main.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/generator/main.go b/internal/generator/main.go
index 837f42b..8c426ff 100644
--- a/internal/generator/main.go
+++ b/internal/generator/main.go
@@ -319,11 +319,12 @@ func genMessageGetterMethods(g *protogen.GeneratedFile, f *fileInfo, m *messageI
 		// Getter for message field.
 		goType, _, _ := fieldGoType(g, f, field)
 		defaultValue := fieldDefaultValue(g, f, m, field)
-		g.Annotate(m.GoIdent.GoName+".Get"+field.GoName, field.Location)
 		leadingComments := appendDeprecationSuffix("",
 			field.Desc.Options().(*descriptorpb.FieldOptions).GetDeprecated())
 		switch {
 		case field.Oneof != nil && !field.Oneof.Desc.IsSynthetic():
+			// Only these getters are generated: an annotation of a symbol that is not makes protogen fail.
+			g.Annotate(m.GoIdent.GoName+".Get"+field.GoName, field.Location)
 			g.P(leadingComments, "func (x *", m.GoIdent, ") Get", field.GoName, "() ", goType, " {")
 			g.P("if x, ok := x.Get", field.Oneof.GoName, "().(*", field.GoIdent, "); ok {")
 			g.P("return x.", field.GoName)
-- 
2.43.0


From a9e560fd8b02aa2e904b777efabb5a9dd7e9ac2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:08 +0000
Subject: [PATCH 16/17] fix: keep the slice codecs of a rejected type with its
 walk

sliceCodecOf stored the codec of a repeated message field for good before
the walk knew whether the type is supported. Every call with a rejected type
makes a new element codec, so each such call left one more entry behind and
a service that keeps getting an unsupported type grows without bound. The
slice codecs are now published together with the codecs that they refer to,
once the type is known to be good.
---
 proto/proto.go  | 1 +
 proto/slice.go  | 7 +++++--
 proto/walker.go | 4 ++++
 3 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/proto/proto.go b/proto/proto.go
index 0cd0fed..7ca6722 100644
--- a/proto/proto.go
+++ b/proto/proto.go
@@ -120,6 +120,7 @@ func cachedStructInfoOf(t reflect.Type) *structInfo {
 	w := &walker{
 		codecs: make(map[reflect.Type]*codec),
 		infos:  make(map[reflect.Type]*structInfo),
+		slices: make(map[*codec]*codec),
 	}
 
 	info := w.structInfo(t)
diff --git a/proto/slice.go b/proto/slice.go
index c4107d8..b328960 100644
--- a/proto/slice.go
+++ b/proto/slice.go
@@ -14,14 +14,17 @@ func sliceCodecOf(t reflect.Type, c *codec, w *walker) *codec {
 	if loaded, ok := sliceMap.Load(c); ok {
 		return loaded.(*codec)
 	}
+	if s, ok := w.slices[c]; ok {
+		return s
+	}
 	s := new(codec)
 
 	s.size = sliceSizeFuncOf(t, c)
 	s.encode = sliceEncodeFuncOf(t, c)
 	s.decode = sliceDecodeFuncOf(t, c)
 
-	actualCodec, _ := sliceMap.LoadOrStore(c, s)
-	return actualCodec.(*codec)
+	w.slices[c] = s
+	return s
 }
 
 func sliceSizeFuncOf(t reflect.Type, c *codec) sizeFunc {
diff --git a/proto/walker.go b/proto/walker.go
index 69f9ba7..bc82839 100644
--- a/proto/walker.go
+++ b/proto/walker.go
@@ -19,6 +19,7 @@ var (
 type walker struct {
 	codecs map[reflect.Type]*codec
 	infos  map[reflect.Type]*structInfo
+	slices map[*codec]*codec
 }
 
 type walkerConfig struct {
@@ -142,6 +143,9 @@ func (w *walker) publish() {
 	for t, c := range w.codecs {
 		codecCache.LoadOrStore(pointer(t), c)
 	}
+	for c, s := range w.slices {
+		sliceMap.LoadOrStore(c, s)
+	}
 }
 
 func (w *walker) structInfo(t reflect.Type) *structInfo {
-- 
2.43.0


From 3fc8b1c6cdd3b959c30d5a402ada100f26cae273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:09 +0000
Subject: [PATCH 17/17] fix: return the default of an imported enum as a plain
 number

The getter of a oneof choice with an enum of another Go package returned
pkg.Enum(n). If that package is named x or ok, the receiver or the variable
of the getter hides it and the generated code does not compile. The constant
n alone has the result's type.
---
 internal/generator/main.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/generator/main.go b/internal/generator/main.go
index 8c426ff..23868ba 100644
--- a/internal/generator/main.go
+++ b/internal/generator/main.go
@@ -450,7 +450,10 @@ func fieldDefaultValue(g *protogen.GeneratedFile, f *fileInfo, m *messageInfo, f
 			// If the enum value is declared in a different Go package,
 			// reference it by number since the name may not be correct.
 			// See https://github.com/golang/protobuf/issues/513.
-			return g.QualifiedGoIdent(field.Enum.GoIdent) + "(" + strconv.FormatInt(int64(val.Desc.Number()), 10) + ")"
+			// The type is left out: its package may be named like the
+			// receiver or a variable of the getter. The constant takes the
+			// type of the result.
+			return strconv.FormatInt(int64(val.Desc.Number()), 10)
 		}
 	default:
 		return "0"
-- 
2.43.0

