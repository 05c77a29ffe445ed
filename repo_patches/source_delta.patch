From 001ce2927cc97894bcf216eee088c9a446deed4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:43 +0000
Subject: [PATCH 01/18] fix: return InvalidUnmarshalError instead of panicking
 for Unmarshal(data, nil)

---
 unmarshal.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/unmarshal.go b/unmarshal.go
index 8388124..c937888 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -29,7 +29,8 @@ func Unmarshal(data []byte, v any) error {
 func unmarshal(data []byte, v any) error {
 	rv := reflect.ValueOf(v)
 
-	rt := rv.Type()
+	// reflect.TypeOf returns nil for a nil interface, while rv.Type() would panic.
+	rt := reflect.TypeOf(v)
 
 	if err := validateValue(rv, rt); err != nil {
 		return err
-- 
2.43.0


From eb042348e17ec8d8e50a0e51041a0f1a04ce1dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:44 +0000
Subject: [PATCH 02/18] fix: compile encoders of types which are recursive
 through an array

---
 internal/encoder/array.go   | 30 +++++++++++++++---------------
 internal/encoder/compile.go |  2 +-
 2 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/internal/encoder/array.go b/internal/encoder/array.go
index 32ca216..f17efbe 100644
--- a/internal/encoder/array.go
+++ b/internal/encoder/array.go
@@ -4,25 +4,23 @@ import (
 	"reflect"
 )
 
-func compileArray(rt reflect.Type) (encoder, error) {
+func compileArray(rt reflect.Type, seen compileSeenMap) (encoder, error) {
+	if recursiveEnc, exists := seen[rt]; exists {
+		return recursiveEnc.Encode, nil
+	}
+	recursiveEnc := &structRecEncoder{}
+	seen[rt] = recursiveEnc
+
 	length := rt.Len()
 	i64 := int64(length)
-	var enc encoder
-	var err error
 
-	if rt.Elem().Kind() == reflect.Map {
-		enc, err = compileWithCache(rt.Elem())
-		if err != nil {
-			return nil, err
-		}
-	} else {
-		enc, err = compileWithCache(rt.Elem())
-		if err != nil {
-			return nil, err
-		}
+	// share `seen`, the type may be recursive through its element type
+	enc, err := compile(rt.Elem(), seen)
+	if err != nil {
+		return nil, err
 	}
 
-	return func(ctx *Ctx, b []byte, rv reflect.Value) ([]byte, error) {
+	recursiveEnc.enc = func(ctx *Ctx, b []byte, rv reflect.Value) ([]byte, error) {
 		b = appendArrayBegin(b, i64)
 
 		var err error // create a new error value, so shadow compiler's error
@@ -35,5 +33,7 @@ func compileArray(rt reflect.Type) (encoder, error) {
 		}
 
 		return append(b, '}'), nil
-	}, nil
+	}
+
+	return recursiveEnc.Encode, nil
 }
diff --git a/internal/encoder/compile.go b/internal/encoder/compile.go
index 39f32d6..c5030c2 100644
--- a/internal/encoder/compile.go
+++ b/internal/encoder/compile.go
@@ -36,7 +36,7 @@ func compile(rt reflect.Type, seen compileSeenMap) (encoder, error) {
 	case reflect.Struct:
 		return compileStruct(rt, seen)
 	case reflect.Array:
-		return compileArray(rt)
+		return compileArray(rt, seen)
 	case reflect.Slice:
 		return compileSlice(rt, seen)
 	case reflect.Map:
-- 
2.43.0


From 64584993226226111f45d0a8db75e4d355f5289a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:17 +0000
Subject: [PATCH 03/18] fix: don't report acyclic values sharing an address as
 recursive

---
 internal/encoder/context.go   | 21 +++++++++++++++++++--
 internal/encoder/interface.go | 12 ++++++++----
 internal/encoder/ptr.go       | 18 ++++++++++--------
 3 files changed, 37 insertions(+), 14 deletions(-)

diff --git a/internal/encoder/context.go b/internal/encoder/context.go
index 70f7717..02e26ee 100644
--- a/internal/encoder/context.go
+++ b/internal/encoder/context.go
@@ -1,6 +1,7 @@
 package encoder
 
 import (
+	"reflect"
 	"sync"
 	"unsafe"
 )
@@ -10,17 +11,33 @@ var ctxPool = sync.Pool{
 		return &Ctx{
 			Buf:         make([]byte, 0, 1024),
 			smallBuffer: make([]byte, 0, 20),
-			Seen:        make(map[unsafe.Pointer]empty, 100),
+			Seen:        make(map[seenKey]empty, 100),
 		}
 	},
 }
 
 type empty struct{}
 
+// seenKey identifies a value being encoded.
+// An address alone is not enough: a slice shares its address with its first element and with its sub slices.
+type seenKey struct {
+	typ reflect.Type
+	ptr unsafe.Pointer
+	len int
+}
+
+func newSeenKey(rv reflect.Value) seenKey {
+	key := seenKey{typ: rv.Type(), ptr: rv.UnsafePointer()}
+	if rv.Kind() == reflect.Slice {
+		key.len = rv.Len()
+	}
+	return key
+}
+
 type Ctx struct {
 	smallBuffer []byte // a small buffer to encode float and time.Time as string
 	Buf         []byte
-	Seen        map[unsafe.Pointer]empty
+	Seen        map[seenKey]empty
 	StackDepth  uint
 }
 
diff --git a/internal/encoder/interface.go b/internal/encoder/interface.go
index 65c919f..15f7669 100644
--- a/internal/encoder/interface.go
+++ b/internal/encoder/interface.go
@@ -45,6 +45,10 @@ LOOP:
 
 	switch rv.Kind() {
 	case reflect.Slice:
+		if rv.Type().Elem().Kind() != reflect.Interface {
+			// the compiled encoder tracks the slice by itself
+			return reflectConcreteSlice(ctx, b, rv)
+		}
 		return reflectRecursiveValue(ctx, b, rv, reflectSlice)
 	case reflect.Map:
 		return reflectRecursiveValue(ctx, b, rv, reflectMap)
@@ -56,13 +60,13 @@ LOOP:
 }
 
 func reflectRecursiveValue(ctx *Ctx, b []byte, rv reflect.Value, enc encoder) ([]byte, error) {
-	ptr := rv.UnsafePointer()
-	if _, seen := ctx.Seen[ptr]; seen {
+	key := newSeenKey(rv)
+	if _, seen := ctx.Seen[key]; seen {
 		return b, fmt.Errorf("php: try to encode recursive value of type %s", rv.Type())
 	}
-	ctx.Seen[ptr] = empty{}
+	ctx.Seen[key] = empty{}
 	b, err := enc(ctx, b, rv)
-	delete(ctx.Seen, ptr)
+	delete(ctx.Seen, key)
 	return b, err
 }
 
diff --git a/internal/encoder/ptr.go b/internal/encoder/ptr.go
index aed0db2..9e770af 100644
--- a/internal/encoder/ptr.go
+++ b/internal/encoder/ptr.go
@@ -57,19 +57,20 @@ func checkStructRecursiveEncoder(enc encoder) encoder {
 
 		ctx.StackDepth++
 		tracked := ctx.StackDepth > 1000
-		ptr := rv.UnsafePointer()
+		var key seenKey
 		if tracked {
-			_, seen := ctx.Seen[ptr]
+			key = newSeenKey(rv)
+			_, seen := ctx.Seen[key]
 			if seen {
 				ctx.StackDepth--
 				return b, fmt.Errorf("php: try to encode recursive value of type %s", rv.Type())
 			}
-			ctx.Seen[ptr] = empty{}
+			ctx.Seen[key] = empty{}
 		}
 
 		b, err := enc(ctx, b, rv.Elem())
 		if tracked {
-			delete(ctx.Seen, ptr)
+			delete(ctx.Seen, key)
 		}
 		ctx.StackDepth--
 
@@ -85,20 +86,21 @@ func checkRecursiveEncoder(enc encoder) encoder {
 
 		ctx.StackDepth++
 		tracked := ctx.StackDepth > 1000
-		ptr := rv.UnsafePointer()
+		var key seenKey
 		if tracked {
-			_, seen := ctx.Seen[ptr]
+			key = newSeenKey(rv)
+			_, seen := ctx.Seen[key]
 			if seen {
 				ctx.StackDepth--
 				return b, fmt.Errorf("php: try to encode recursive value of type %s", rv.Type())
 			}
 
-			ctx.Seen[ptr] = empty{}
+			ctx.Seen[key] = empty{}
 		}
 
 		b, err := enc(ctx, b, rv)
 		if tracked {
-			delete(ctx.Seen, ptr)
+			delete(ctx.Seen, key)
 		}
 		ctx.StackDepth--
 
-- 
2.43.0


From 457f70c5b81302f24057f2843c1c0df87db5fbb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:40 +0000
Subject: [PATCH 04/18] fix: reject values which are cyclic through pointers to
 interfaces or arrays

---
 internal/encoder/interface.go | 35 +++++++++++++++--------------------
 internal/encoder/ptr.go       |  3 +++
 internal/encoder/struct.go    |  9 ++++++---
 3 files changed, 24 insertions(+), 23 deletions(-)

diff --git a/internal/encoder/interface.go b/internal/encoder/interface.go
index 15f7669..6341d77 100644
--- a/internal/encoder/interface.go
+++ b/internal/encoder/interface.go
@@ -14,17 +14,15 @@ func compileInterface(rt reflect.Type) (encoder, error) {
 }
 
 func reflectInterfaceValue(ctx *Ctx, b []byte, rv reflect.Value) ([]byte, error) {
-LOOP:
-	for {
-		switch rv.Kind() {
-		case reflect.Ptr, reflect.Interface:
-			if rv.IsNil() || rv.IsZero() {
-				return appendNull(b), nil
-			}
-			rv = rv.Elem()
-		default:
-			break LOOP
+	switch rv.Kind() {
+	case reflect.Ptr:
+		// pointers may form a cycle, for example `var x any; x = &x`
+		return checkStructRecursiveEncoder(reflectInterfaceValue)(ctx, b, rv)
+	case reflect.Interface:
+		if rv.IsNil() {
+			return appendNull(b), nil
 		}
+		return reflectInterfaceValue(ctx, b, rv.Elem())
 	}
 
 	// simple type
@@ -77,17 +75,14 @@ func compileInterfaceAsString(rt reflect.Type) (encoder, error) {
 }
 
 func reflectInterfaceValueAsString(ctx *Ctx, b []byte, rv reflect.Value) ([]byte, error) {
-LOOP:
-	for {
-		switch rv.Kind() {
-		case reflect.Ptr, reflect.Interface:
-			if rv.IsNil() || rv.IsZero() {
-				return appendNull(b), nil
-			}
-			rv = rv.Elem()
-		default:
-			break LOOP
+	switch rv.Kind() {
+	case reflect.Ptr:
+		return checkStructRecursiveEncoder(reflectInterfaceValueAsString)(ctx, b, rv)
+	case reflect.Interface:
+		if rv.IsNil() {
+			return appendNull(b), nil
 		}
+		return reflectInterfaceValueAsString(ctx, b, rv.Elem())
 	}
 
 	switch value := rv.Interface().(type) {
diff --git a/internal/encoder/ptr.go b/internal/encoder/ptr.go
index 9e770af..60e9ef4 100644
--- a/internal/encoder/ptr.go
+++ b/internal/encoder/ptr.go
@@ -29,6 +29,9 @@ func compilePtr(rt reflect.Type, seen compileSeenMap) (encoder, error) {
 	case reflect.Struct:
 		enc, err := compileStruct(rt.Elem(), seen)
 		return checkStructRecursiveEncoder(enc), err
+	case reflect.Array:
+		enc, err := compileArray(rt.Elem(), seen)
+		return checkStructRecursiveEncoder(enc), err
 	}
 
 	enc, err := compile(rt.Elem(), seen)
diff --git a/internal/encoder/struct.go b/internal/encoder/struct.go
index 873da8b..f5eae38 100644
--- a/internal/encoder/struct.go
+++ b/internal/encoder/struct.go
@@ -143,9 +143,12 @@ func compileStructFieldsEncoders(rt reflect.Type, seen compileSeenMap) ([]struct
 		} else {
 			if field.Type.Kind() == reflect.Ptr {
 				fieldEncoder, err = compile(field.Type.Elem(), seen)
-				if err == nil && field.Type.Elem().Kind() == reflect.Struct {
-					fieldEncoder = checkStructRecursiveEncoder(fieldEncoder)
-					isPtrField = false
+				if err == nil {
+					switch field.Type.Elem().Kind() {
+					case reflect.Struct, reflect.Array:
+						fieldEncoder = checkStructRecursiveEncoder(fieldEncoder)
+						isPtrField = false
+					}
 				}
 			} else {
 				fieldEncoder, err = compile(field.Type, seen)
-- 
2.43.0


From 1c18a419f36a2cd08e3ecc9a0b30eb827e97e045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:07 +0000
Subject: [PATCH 05/18] fix: encode nil Marshaler as null instead of panicking

---
 internal/encoder/marshal_php.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/internal/encoder/marshal_php.go b/internal/encoder/marshal_php.go
index 8fff89a..10f5731 100644
--- a/internal/encoder/marshal_php.go
+++ b/internal/encoder/marshal_php.go
@@ -12,6 +12,10 @@ type Marshaler interface {
 
 func compileMarshaler(rt reflect.Type) (encoder, error) {
 	return func(ctx *Ctx, b []byte, rv reflect.Value) ([]byte, error) {
+		if isNilMarshaler(rv) {
+			return appendNull(b), nil
+		}
+
 		raw, err := rv.Interface().(Marshaler).MarshalPHP()
 		if err != nil {
 			return nil, err
@@ -20,3 +24,16 @@ func compileMarshaler(rt reflect.Type) (encoder, error) {
 		return append(b, raw...), nil
 	}, nil
 }
+
+// calling MarshalPHP would panic on a nil interface,
+// and on a nil pointer to a type which implements Marshaler with value receiver.
+func isNilMarshaler(rv reflect.Value) bool {
+	for rv.Kind() == reflect.Interface {
+		if rv.IsNil() {
+			return true
+		}
+		rv = rv.Elem()
+	}
+
+	return rv.Kind() == reflect.Ptr && rv.IsNil() && rv.Type().Elem().Implements(marshalerType)
+}
-- 
2.43.0


From 7841cbf5164b4b48e287a8dc4aded8c6f5cdc106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:47 +0000
Subject: [PATCH 06/18] fix: call pointer receiver MarshalPHP of struct pointer
 fields and of values held in interface

---
 internal/encoder/interface.go   | 14 +++++++++++---
 internal/encoder/marshal_php.go | 31 +++++++++++++++++++++----------
 internal/encoder/struct.go      |  6 +++++-
 3 files changed, 37 insertions(+), 14 deletions(-)

diff --git a/internal/encoder/interface.go b/internal/encoder/interface.go
index 6341d77..401d770 100644
--- a/internal/encoder/interface.go
+++ b/internal/encoder/interface.go
@@ -14,14 +14,22 @@ func compileInterface(rt reflect.Type) (encoder, error) {
 }
 
 func reflectInterfaceValue(ctx *Ctx, b []byte, rv reflect.Value) ([]byte, error) {
+	switch rv.Kind() {
+	case reflect.Ptr, reflect.Interface:
+		if rv.IsNil() {
+			return appendNull(b), nil
+		}
+	}
+
+	if rv.NumMethod() > 0 && rv.Type().Implements(marshalerType) {
+		return encodeMarshaler(ctx, b, rv)
+	}
+
 	switch rv.Kind() {
 	case reflect.Ptr:
 		// pointers may form a cycle, for example `var x any; x = &x`
 		return checkStructRecursiveEncoder(reflectInterfaceValue)(ctx, b, rv)
 	case reflect.Interface:
-		if rv.IsNil() {
-			return appendNull(b), nil
-		}
 		return reflectInterfaceValue(ctx, b, rv.Elem())
 	}
 
diff --git a/internal/encoder/marshal_php.go b/internal/encoder/marshal_php.go
index 10f5731..f72e910 100644
--- a/internal/encoder/marshal_php.go
+++ b/internal/encoder/marshal_php.go
@@ -11,18 +11,29 @@ type Marshaler interface {
 }
 
 func compileMarshaler(rt reflect.Type) (encoder, error) {
-	return func(ctx *Ctx, b []byte, rv reflect.Value) ([]byte, error) {
-		if isNilMarshaler(rv) {
-			return appendNull(b), nil
-		}
+	return encodeMarshaler, nil
+}
 
-		raw, err := rv.Interface().(Marshaler).MarshalPHP()
-		if err != nil {
-			return nil, err
-		}
+func encodeMarshaler(ctx *Ctx, b []byte, rv reflect.Value) ([]byte, error) {
+	if isNilMarshaler(rv) {
+		return appendNull(b), nil
+	}
+
+	raw, err := rv.Interface().(Marshaler).MarshalPHP()
+	if err != nil {
+		return nil, err
+	}
+
+	return append(b, raw...), nil
+}
+
+// nil pointer field is always null
+func encodePtrMarshaler(ctx *Ctx, b []byte, rv reflect.Value) ([]byte, error) {
+	if rv.IsNil() {
+		return appendNull(b), nil
+	}
 
-		return append(b, raw...), nil
-	}, nil
+	return encodeMarshaler(ctx, b, rv)
 }
 
 // calling MarshalPHP would panic on a nil interface,
diff --git a/internal/encoder/struct.go b/internal/encoder/struct.go
index f5eae38..7834201 100644
--- a/internal/encoder/struct.go
+++ b/internal/encoder/struct.go
@@ -141,7 +141,11 @@ func compileStructFieldsEncoders(rt reflect.Type, seen compileSeenMap) ([]struct
 				fieldEncoder, err = compileAsString(field.Type)
 			}
 		} else {
-			if field.Type.Kind() == reflect.Ptr {
+			if field.Type.Kind() == reflect.Ptr && field.Type.Implements(marshalerType) {
+				// MarshalPHP may have a pointer receiver
+				fieldEncoder, err = encodePtrMarshaler, nil
+				isPtrField = false
+			} else if field.Type.Kind() == reflect.Ptr {
 				fieldEncoder, err = compile(field.Type.Elem(), seen)
 				if err == nil {
 					switch field.Type.Elem().Kind() {
-- 
2.43.0


From a7a94928069fdff3704ead7f5a9d2e6613827927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:09 +0000
Subject: [PATCH 07/18] fix: compile decoders of types which are recursive
 without a struct

---
 internal/decoder/compile.go | 33 ++++++++++++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/internal/decoder/compile.go b/internal/decoder/compile.go
index 8460de8..fe93fe7 100644
--- a/internal/decoder/compile.go
+++ b/internal/decoder/compile.go
@@ -6,6 +6,7 @@ import (
 	"reflect"
 	"sync/atomic"
 
+	phperrors "github.com/trim21/go-phpserialize/internal/errors"
 	"github.com/trim21/go-phpserialize/internal/runtime"
 )
 
@@ -156,6 +157,10 @@ func compileMapKey(typ reflect.Type, structName, fieldName string, structTypeToD
 }
 
 func compilePtr(typ reflect.Type, structName, fieldName string, structTypeToDecoder map[reflect.Type]Decoder) (Decoder, error) {
+	if typ.Elem().Kind() == reflect.Ptr {
+		// a type like `type P *P` never ends
+		return nil, &phperrors.UnsupportedTypeError{Type: typ}
+	}
 	dec, err := compile(typ.Elem(), structName, fieldName, structTypeToDecoder)
 	if err != nil {
 		return nil, err
@@ -224,24 +229,43 @@ func compileBytes(typ reflect.Type, structName, fieldName string) (Decoder, erro
 }
 
 func compileSlice(typ reflect.Type, structName, fieldName string, structTypeToDecoder map[reflect.Type]Decoder) (Decoder, error) {
+	if dec, exists := structTypeToDecoder[typ]; exists {
+		return dec, nil
+	}
 	elem := typ.Elem()
+	sliceDec := newSliceDecoder(nil, elem, elem.Size(), structName, fieldName)
+	structTypeToDecoder[typ] = sliceDec
 	decoder, err := compile(elem, structName, fieldName, structTypeToDecoder)
 	if err != nil {
 		return nil, err
 	}
-	return newSliceDecoder(decoder, elem, elem.Size(), structName, fieldName), nil
+	sliceDec.valueDecoder = decoder
+	delete(structTypeToDecoder, typ)
+	return sliceDec, nil
 }
 
 func compileArray(typ reflect.Type, structName, fieldName string, structTypeToDecoder map[reflect.Type]Decoder) (Decoder, error) {
+	if dec, exists := structTypeToDecoder[typ]; exists {
+		return dec, nil
+	}
 	elem := typ.Elem()
+	arrayDec := newArrayDecoder(nil, elem, typ.Len(), structName, fieldName)
+	structTypeToDecoder[typ] = arrayDec
 	decoder, err := compile(elem, structName, fieldName, structTypeToDecoder)
 	if err != nil {
 		return nil, err
 	}
-	return newArrayDecoder(decoder, elem, typ.Len(), structName, fieldName), nil
+	arrayDec.valueDecoder = decoder
+	delete(structTypeToDecoder, typ)
+	return arrayDec, nil
 }
 
 func compileMap(typ reflect.Type, structName, fieldName string, structTypeToDecoder map[reflect.Type]Decoder) (Decoder, error) {
+	if dec, exists := structTypeToDecoder[typ]; exists {
+		return dec, nil
+	}
+	mapDec := newMapDecoder(typ, typ.Key(), nil, typ.Elem(), nil, structName, fieldName)
+	structTypeToDecoder[typ] = mapDec
 	keyDec, err := compileMapKey(typ.Key(), structName, fieldName, structTypeToDecoder)
 	if err != nil {
 		return nil, err
@@ -250,7 +274,10 @@ func compileMap(typ reflect.Type, structName, fieldName string, structTypeToDeco
 	if err != nil {
 		return nil, err
 	}
-	return newMapDecoder(typ, typ.Key(), keyDec, typ.Elem(), valueDec, structName, fieldName), nil
+	mapDec.keyDecoder = keyDec
+	mapDec.valueDecoder = valueDec
+	delete(structTypeToDecoder, typ)
+	return mapDec, nil
 }
 
 func compileInterface(typ reflect.Type, structName, fieldName string) (Decoder, error) {
-- 
2.43.0


From 554a60b6c22cdfc64db3d9e4ab02c0b880ab14bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:10 +0000
Subject: [PATCH 08/18] fix: reject invalid map keys instead of panicking

---
 internal/decoder/compile.go | 18 +++++++-----------
 internal/decoder/map.go     |  4 ++++
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/internal/decoder/compile.go b/internal/decoder/compile.go
index fe93fe7..bbbe72c 100644
--- a/internal/decoder/compile.go
+++ b/internal/decoder/compile.go
@@ -142,17 +142,13 @@ func compileMapKey(typ reflect.Type, structName, fieldName string, structTypeToD
 		return nil, err
 	}
 
-	for {
-		switch t := dec.(type) {
-		case *stringDecoder, *interfaceDecoder:
-			return dec, nil
-		case *boolDecoder, *intDecoder, *uintDecoder:
-			return dec, nil
-		case *ptrDecoder:
-			dec = t.dec
-		default:
-			return newInvalidDecoder(typ, structName, fieldName), nil
-		}
+	switch dec.(type) {
+	case *stringDecoder, *interfaceDecoder:
+		return dec, nil
+	case *boolDecoder, *intDecoder, *uintDecoder:
+		return dec, nil
+	default:
+		return newInvalidDecoder(typ, structName, fieldName), nil
 	}
 }
 
diff --git a/internal/decoder/map.go b/internal/decoder/map.go
index 203a84e..c49e230 100644
--- a/internal/decoder/map.go
+++ b/internal/decoder/map.go
@@ -106,6 +106,10 @@ func (d *mapDecoder) Decode(ctx *RuntimeContext, cursor, depth int64, rv reflect
 			return 0, err
 		}
 
+		if !k.Elem().Comparable() {
+			return cursor, errors.ErrSyntax("php-serialize: unsupported value as map key", keyCursor)
+		}
+
 		rv.SetMapIndex(k.Elem(), v.Elem())
 		cursor = valueCursor
 		if !hasByte(buf, cursor) {
-- 
2.43.0


From 5c1764e8381e8b2fa413224d826e5939f11a0878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:12 +0000
Subject: [PATCH 09/18] fix: limit capacity of decoded bytes

---
 internal/decoder/context.go       | 3 ++-
 internal/decoder/interface.go     | 3 ++-
 internal/decoder/unmarshal_php.go | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/internal/decoder/context.go b/internal/decoder/context.go
index 8c9d61d..a50daf8 100644
--- a/internal/decoder/context.go
+++ b/internal/decoder/context.go
@@ -284,7 +284,8 @@ func readString(buf []byte, cursor int64) ([]byte, int64, error) {
 
 	cursor++
 
-	return buf[start:end], cursor, nil
+	// limit capacity, append to returned bytes should not overwrite following content
+	return buf[start:end:end], cursor, nil
 }
 
 func readIntegerBytes(buf []byte, cursor int64) ([]byte, int64, error) {
diff --git a/internal/decoder/interface.go b/internal/decoder/interface.go
index 61e21ed..e6ac32d 100644
--- a/internal/decoder/interface.go
+++ b/internal/decoder/interface.go
@@ -107,7 +107,8 @@ func decodePHPUnmarshaler(buf []byte, cursor, depth int64, unmarshaler Unmarshal
 	if err != nil {
 		return 0, err
 	}
-	src := buf[start:end]
+	// limit capacity, append in UnmarshalPHP should not overwrite following content
+	src := buf[start:end:end]
 	if bytes.Equal(src, nullbytes) {
 		rv.SetZero()
 		return end, nil
diff --git a/internal/decoder/unmarshal_php.go b/internal/decoder/unmarshal_php.go
index f276c9a..87b29d5 100644
--- a/internal/decoder/unmarshal_php.go
+++ b/internal/decoder/unmarshal_php.go
@@ -49,7 +49,8 @@ func (d *unmarshalPHPDecoder) Decode(ctx *RuntimeContext, cursor, depth int64, r
 	if err != nil {
 		return 0, err
 	}
-	src := buf[start:end]
+	// limit capacity, append in UnmarshalPHP should not overwrite following content
+	src := buf[start:end:end]
 	if len(src) > 0 {
 		switch src[0] {
 		case '[':
-- 
2.43.0


From fe2ece36c6bce4b1313f0000562546ac1f05f089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:48 +0000
Subject: [PATCH 10/18] fix: don't allocate by declared array length only

---
 internal/decoder/context.go | 8 ++++++++
 internal/decoder/map.go     | 2 +-
 internal/decoder/slice.go   | 2 +-
 3 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/internal/decoder/context.go b/internal/decoder/context.go
index a50daf8..f334508 100644
--- a/internal/decoder/context.go
+++ b/internal/decoder/context.go
@@ -257,6 +257,14 @@ func readLengthInt(buf []byte, cursor int64) (int, int64, error) {
 	return int(length), end, nil
 }
 
+// the shortest element of array is `i:0;N;`
+const minArrayElementSize = 6
+
+// limit size to allocate by content remaining, declared length can't be trusted.
+func preallocSize(buf []byte, cursor, length int64) int {
+	return int(min(length, (int64(len(buf))-cursor)/minArrayElementSize))
+}
+
 // `:${length}:"${content}";`
 func readString(buf []byte, cursor int64) ([]byte, int64, error) {
 	sLen, end, err := readLength(buf, cursor)
diff --git a/internal/decoder/map.go b/internal/decoder/map.go
index c49e230..d9f506d 100644
--- a/internal/decoder/map.go
+++ b/internal/decoder/map.go
@@ -75,7 +75,7 @@ func (d *mapDecoder) Decode(ctx *RuntimeContext, cursor, depth int64, rv reflect
 	}
 
 	if rv.IsNil() {
-		rv.Set(reflect.MakeMapWithSize(d.mapType, int(l)))
+		rv.Set(reflect.MakeMapWithSize(d.mapType, preallocSize(buf, cursor, l)))
 	}
 
 	cursor++
diff --git a/internal/decoder/slice.go b/internal/decoder/slice.go
index d3a3cbb..624a88a 100644
--- a/internal/decoder/slice.go
+++ b/internal/decoder/slice.go
@@ -102,7 +102,7 @@ func (d *sliceDecoder) Decode(ctx *RuntimeContext, cursor, depth int64, rv refle
 		}
 		cursor++
 
-		slice := reflect.MakeSlice(d.stype, 0, arrLen)
+		slice := reflect.MakeSlice(d.stype, 0, preallocSize(buf, cursor, int64(arrLen)))
 
 		for {
 			if !hasByte(buf, cursor) {
-- 
2.43.0


From 4a52df09288f130e9036fdc7d6e8093ff37a6827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:32 +0000
Subject: [PATCH 11/18] fix: reject too large slice index instead of panicking

---
 internal/decoder/slice.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/internal/decoder/slice.go b/internal/decoder/slice.go
index 624a88a..f6885bc 100644
--- a/internal/decoder/slice.go
+++ b/internal/decoder/slice.go
@@ -1,6 +1,7 @@
 package decoder
 
 import (
+	"math"
 	"reflect"
 	"unsafe"
 
@@ -48,6 +49,13 @@ func (d *sliceDecoder) errNumber(offset int64) *errors.UnmarshalTypeError {
 	}
 }
 
+// reflect.MakeSlice panics if the slice needs more than the address space.
+const maxSliceBytes = 1 << 47
+
+func (d *sliceDecoder) isIndexTooLarge(index int) bool {
+	return index >= math.MaxInt32 || uint64(d.size) > maxSliceBytes/uint64(index+1)
+}
+
 func (d *sliceDecoder) Decode(ctx *RuntimeContext, cursor, depth int64, rv reflect.Value) (int64, error) {
 	buf := ctx.Buf
 	if !hasByte(buf, cursor) {
@@ -119,6 +127,9 @@ func (d *sliceDecoder) Decode(ctx *RuntimeContext, cursor, depth int64, rv refle
 			}
 
 			if currentIndex >= slice.Len() {
+				if d.isIndexTooLarge(currentIndex) {
+					return cursor, errors.ErrSyntax("php-serialize: invalid array index", cursor)
+				}
 				newSlice := reflect.MakeSlice(d.stype, currentIndex+1, currentIndex+1)
 				reflect.Copy(newSlice, slice)
 				slice = newSlice
-- 
2.43.0


From 16c090b11b8ff225762d0b134e12058df9a19fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:00 +0000
Subject: [PATCH 12/18] fix: decode string fields with string tag option

---
 internal/decoder/wrapped_string.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/decoder/wrapped_string.go b/internal/decoder/wrapped_string.go
index b467272..afe1534 100644
--- a/internal/decoder/wrapped_string.go
+++ b/internal/decoder/wrapped_string.go
@@ -31,6 +31,9 @@ func newWrappedStringDecoder(typ reflect.Type, dec Decoder, structName, fieldNam
 		innerDec = newStringUintDecoder(structName, fieldName, v)
 	case *intDecoder:
 		innerDec = newStringIntDecoder(structName, fieldName, v)
+	case *stringDecoder:
+		// a string is encoded as string with or without `,string`
+		return dec, nil
 	case *ptrDecoder:
 		err := v.wrapString()
 		return dec, err
-- 
2.43.0


From c18b2589160f4586ed1ba27a8f5d77251db8d963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:08 +0000
Subject: [PATCH 13/18] fix: do not write to errors returned by UnmarshalPHP

The method may return the same error to several callers, annotate a copy which wraps it.
---
 internal/decoder/unmarshal_php.go | 13 +++++++------
 internal/errors/error.go          | 18 ++++++++++++++++++
 2 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/internal/decoder/unmarshal_php.go b/internal/decoder/unmarshal_php.go
index 87b29d5..2afc11a 100644
--- a/internal/decoder/unmarshal_php.go
+++ b/internal/decoder/unmarshal_php.go
@@ -28,14 +28,16 @@ func newUnmarshalTextDecoder(typ reflect.Type, structName, fieldName string) *un
 	}
 }
 
-func (d *unmarshalPHPDecoder) annotateError(cursor int64, err error) {
+// annotateError must not write to the error, it belongs to the UnmarshalPHP method,
+// which may return the same error to several callers.
+func (d *unmarshalPHPDecoder) annotateError(cursor int64, err error) error {
 	switch e := err.(type) {
 	case *errors.UnmarshalTypeError:
-		e.Struct = d.structName
-		e.Field = d.fieldName
+		return e.WithField(d.structName, d.fieldName)
 	case *errors.SyntaxError:
-		e.Offset = cursor
+		return e.WithOffset(cursor)
 	}
+	return err
 }
 
 var (
@@ -86,8 +88,7 @@ func (d *unmarshalPHPDecoder) Decode(ctx *RuntimeContext, cursor, depth int64, r
 	v := reflect.New(d.typ.Elem())
 
 	if err := v.Interface().(Unmarshaler).UnmarshalPHP(src); err != nil {
-		d.annotateError(cursor, err)
-		return 0, err
+		return 0, d.annotateError(cursor, err)
 	}
 
 	rv.Set(v.Elem())
diff --git a/internal/errors/error.go b/internal/errors/error.go
index 89a06e2..48fb320 100644
--- a/internal/errors/error.go
+++ b/internal/errors/error.go
@@ -24,10 +24,18 @@ func (e *InvalidUnmarshalError) Error() string {
 type SyntaxError struct {
 	msg    string // description of error
 	Offset int64  // error occurred after reading Offset bytes
+	cause  error  // error returned by UnmarshalPHP, which this error annotates
 }
 
 func (e *SyntaxError) Error() string { return e.msg }
 
+func (e *SyntaxError) Unwrap() error { return e.cause }
+
+// WithOffset returns an annotated copy of the error, which may be shared.
+func (e *SyntaxError) WithOffset(offset int64) *SyntaxError {
+	return &SyntaxError{msg: e.msg, Offset: offset, cause: e}
+}
+
 // An UnmarshalTypeError describes a JSON value that was
 // not appropriate for a value of a specific Go type.
 type UnmarshalTypeError struct {
@@ -36,6 +44,16 @@ type UnmarshalTypeError struct {
 	Offset int64        // error occurred after reading Offset bytes
 	Struct string       // name of the struct type containing the field
 	Field  string       // the full path from root node to the field
+	cause  error        // error returned by UnmarshalPHP, which this error annotates
+}
+
+func (e *UnmarshalTypeError) Unwrap() error { return e.cause }
+
+// WithField returns an annotated copy of the error, which may be shared.
+func (e *UnmarshalTypeError) WithField(structName, fieldName string) *UnmarshalTypeError {
+	n := *e
+	n.Struct, n.Field, n.cause = structName, fieldName, e
+	return &n
 }
 
 func (e *UnmarshalTypeError) Error() string {
-- 
2.43.0


From d5f72d3d916b5743b8123ec661827b15def1b987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:08 +0000
Subject: [PATCH 14/18] fix: limit the memory a small input can take with large
 slice indices

---
 internal/decoder/context.go |  2 ++
 internal/decoder/slice.go   | 10 +++++++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/internal/decoder/context.go b/internal/decoder/context.go
index f334508..42c1487 100644
--- a/internal/decoder/context.go
+++ b/internal/decoder/context.go
@@ -11,6 +11,7 @@ type RuntimeContext struct {
 	Buf          []byte
 	MaxMapSize   uint
 	MaxSliceSize uint
+	holeBytes    uint64 // memory spent on missing indices of slices
 }
 
 var (
@@ -29,6 +30,7 @@ func ReleaseRuntimeContext(ctx *RuntimeContext) {
 	ctx.Buf = nil
 	ctx.MaxSliceSize = 0
 	ctx.MaxMapSize = 0
+	ctx.holeBytes = 0
 	runtimeContextPool.Put(ctx)
 }
 
diff --git a/internal/decoder/slice.go b/internal/decoder/slice.go
index f6885bc..6ca4ccd 100644
--- a/internal/decoder/slice.go
+++ b/internal/decoder/slice.go
@@ -56,6 +56,14 @@ func (d *sliceDecoder) isIndexTooLarge(index int) bool {
 	return index >= math.MaxInt32 || uint64(d.size) > maxSliceBytes/uint64(index+1)
 }
 
+// a php array may skip some index, but a short input should not take all the memory with a large one.
+const maxHoleBytes = 1 << 26
+
+func (d *sliceDecoder) isHoleTooLarge(ctx *RuntimeContext, hole int) bool {
+	ctx.holeBytes += uint64(hole) * uint64(d.size)
+	return ctx.holeBytes > maxHoleBytes
+}
+
 func (d *sliceDecoder) Decode(ctx *RuntimeContext, cursor, depth int64, rv reflect.Value) (int64, error) {
 	buf := ctx.Buf
 	if !hasByte(buf, cursor) {
@@ -127,7 +135,7 @@ func (d *sliceDecoder) Decode(ctx *RuntimeContext, cursor, depth int64, rv refle
 			}
 
 			if currentIndex >= slice.Len() {
-				if d.isIndexTooLarge(currentIndex) {
+				if d.isIndexTooLarge(currentIndex) || d.isHoleTooLarge(ctx, currentIndex-slice.Len()) {
 					return cursor, errors.ErrSyntax("php-serialize: invalid array index", cursor)
 				}
 				newSlice := reflect.MakeSlice(d.stype, currentIndex+1, currentIndex+1)
-- 
2.43.0


From e4404c0d94cbb1772f8ea5cf5c16c9a8a1f833d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:08 +0000
Subject: [PATCH 15/18] fix: decoding a list took time and memory quadratic in
 its length

---
 internal/decoder/slice.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/internal/decoder/slice.go b/internal/decoder/slice.go
index 6ca4ccd..ecd4c6d 100644
--- a/internal/decoder/slice.go
+++ b/internal/decoder/slice.go
@@ -64,6 +64,16 @@ func (d *sliceDecoder) isHoleTooLarge(ctx *RuntimeContext, hole int) bool {
 	return ctx.holeBytes > maxHoleBytes
 }
 
+// grow keeps the work to decode n elements proportional to n.
+func (d *sliceDecoder) grow(slice reflect.Value, length int) reflect.Value {
+	if length <= slice.Cap() {
+		return slice.Slice(0, length)
+	}
+	newSlice := reflect.MakeSlice(d.stype, length, max(length, slice.Len()+slice.Len()/2))
+	reflect.Copy(newSlice, slice)
+	return newSlice
+}
+
 func (d *sliceDecoder) Decode(ctx *RuntimeContext, cursor, depth int64, rv reflect.Value) (int64, error) {
 	buf := ctx.Buf
 	if !hasByte(buf, cursor) {
@@ -138,9 +148,7 @@ func (d *sliceDecoder) Decode(ctx *RuntimeContext, cursor, depth int64, rv refle
 				if d.isIndexTooLarge(currentIndex) || d.isHoleTooLarge(ctx, currentIndex-slice.Len()) {
 					return cursor, errors.ErrSyntax("php-serialize: invalid array index", cursor)
 				}
-				newSlice := reflect.MakeSlice(d.stype, currentIndex+1, currentIndex+1)
-				reflect.Copy(newSlice, slice)
-				slice = newSlice
+				slice = d.grow(slice, currentIndex+1)
 			}
 
 			c, err := d.valueDecoder.Decode(ctx, cursor, depth, slice.Index(currentIndex))
-- 
2.43.0


From 9aa8cf08f34aa598ed05a2dbefd3c5a9e93f5ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:09 +0000
Subject: [PATCH 16/18] fix: nested arrays declaring large lengths took memory
 quadratic in the input

---
 internal/decoder/context.go | 10 ++++++++--
 internal/decoder/map.go     |  2 +-
 internal/decoder/slice.go   |  2 +-
 3 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/internal/decoder/context.go b/internal/decoder/context.go
index 42c1487..c83190f 100644
--- a/internal/decoder/context.go
+++ b/internal/decoder/context.go
@@ -12,6 +12,7 @@ type RuntimeContext struct {
 	MaxMapSize   uint
 	MaxSliceSize uint
 	holeBytes    uint64 // memory spent on missing indices of slices
+	preallocated int64  // number of elements allocated ahead
 }
 
 var (
@@ -31,6 +32,7 @@ func ReleaseRuntimeContext(ctx *RuntimeContext) {
 	ctx.MaxSliceSize = 0
 	ctx.MaxMapSize = 0
 	ctx.holeBytes = 0
+	ctx.preallocated = 0
 	runtimeContextPool.Put(ctx)
 }
 
@@ -263,8 +265,12 @@ func readLengthInt(buf []byte, cursor int64) (int, int64, error) {
 const minArrayElementSize = 6
 
 // limit size to allocate by content remaining, declared length can't be trusted.
-func preallocSize(buf []byte, cursor, length int64) int {
-	return int(min(length, (int64(len(buf))-cursor)/minArrayElementSize))
+// all arrays together don't have more elements than the content has room for.
+func preallocSize(ctx *RuntimeContext, cursor, length int64) int {
+	total := int64(len(ctx.Buf))
+	size := min(length, (total-cursor)/minArrayElementSize, total/minArrayElementSize-ctx.preallocated)
+	ctx.preallocated += size
+	return int(size)
 }
 
 // `:${length}:"${content}";`
diff --git a/internal/decoder/map.go b/internal/decoder/map.go
index d9f506d..e271d10 100644
--- a/internal/decoder/map.go
+++ b/internal/decoder/map.go
@@ -75,7 +75,7 @@ func (d *mapDecoder) Decode(ctx *RuntimeContext, cursor, depth int64, rv reflect
 	}
 
 	if rv.IsNil() {
-		rv.Set(reflect.MakeMapWithSize(d.mapType, preallocSize(buf, cursor, l)))
+		rv.Set(reflect.MakeMapWithSize(d.mapType, preallocSize(ctx, cursor, l)))
 	}
 
 	cursor++
diff --git a/internal/decoder/slice.go b/internal/decoder/slice.go
index ecd4c6d..b7d0589 100644
--- a/internal/decoder/slice.go
+++ b/internal/decoder/slice.go
@@ -128,7 +128,7 @@ func (d *sliceDecoder) Decode(ctx *RuntimeContext, cursor, depth int64, rv refle
 		}
 		cursor++
 
-		slice := reflect.MakeSlice(d.stype, 0, preallocSize(buf, cursor, int64(arrLen)))
+		slice := reflect.MakeSlice(d.stype, 0, preallocSize(ctx, cursor, int64(arrLen)))
 
 		for {
 			if !hasByte(buf, cursor) {
-- 
2.43.0


From a911a286f85630ee71ab4aa9f7fe41af0e279dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:59 +0000
Subject: [PATCH 17/18] fix: encode struct fields whose key is "-" as the
 decoder reads them

---
 internal/encoder/struct.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/encoder/struct.go b/internal/encoder/struct.go
index 7834201..e3d6474 100644
--- a/internal/encoder/struct.go
+++ b/internal/encoder/struct.go
@@ -112,11 +112,12 @@ func compileStructFieldsEncoders(rt reflect.Type, seen compileSeenMap) ([]struct
 
 	for i := 0; i < rt.NumField(); i++ {
 		field := rt.Field(i)
-		cfg := runtime.StructTagFromField(field)
-		if cfg.Key == "-" || !cfg.Field.IsExported() {
+		if runtime.IsIgnoredStructField(field) {
 			continue
 		}
 
+		cfg := runtime.StructTagFromField(field)
+
 		var fieldEncoder encoder
 		var err error
 
-- 
2.43.0


From 927efef7bbfe11fd8ab0dc0e7befb85d88b2656f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:34 +0000
Subject: [PATCH 18/18] fix: detect cycles through a struct field of type
 pointer to interface

A field `P *any` was dereferenced without being tracked, so a value which
contains itself only through such a pointer overflowed the stack.
---
 internal/encoder/struct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/encoder/struct.go b/internal/encoder/struct.go
index e3d6474..92e4f9c 100644
--- a/internal/encoder/struct.go
+++ b/internal/encoder/struct.go
@@ -150,7 +150,7 @@ func compileStructFieldsEncoders(rt reflect.Type, seen compileSeenMap) ([]struct
 				fieldEncoder, err = compile(field.Type.Elem(), seen)
 				if err == nil {
 					switch field.Type.Elem().Kind() {
-					case reflect.Struct, reflect.Array:
+					case reflect.Struct, reflect.Array, reflect.Interface:
 						fieldEncoder = checkStructRecursiveEncoder(fieldEncoder)
 						isPtrField = false
 					}
-- 
2.43.0

