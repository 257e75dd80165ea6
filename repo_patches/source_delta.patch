From 5f643cdc6994581ad3e371789eeb7262fb54559a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:56 +0000
Subject: [PATCH 01/64] fix: amf decoding must not depend on how the reader
 splits the data

---
 amf/amf3.go   |  6 ++----
 amf/helper.go | 11 ++---------
 2 files changed, 4 insertions(+), 13 deletions(-)

diff --git a/amf/amf3.go b/amf/amf3.go
index 9f0ae62..091191a 100755
--- a/amf/amf3.go
+++ b/amf/amf3.go
@@ -437,8 +437,7 @@ func (ed *EnDecAMF3) decodeXmlDoc(r io.Reader) (string, error) {
 	}
 
 	// 按数值取值
-	buf := make([]byte, refVal)
-	_, err = r.Read(buf)
+	buf, err := readBytes(r, int(refVal))
 	if err != nil {
 		return "", err
 	}
@@ -478,8 +477,7 @@ func (ed *EnDecAMF3) decodeByteArray(r io.Reader) ([]byte, error) {
 	}
 
 	// 按数值取值
-	result := make([]byte, refVal)
-	_, err = r.Read(result)
+	result, err := readBytes(r, int(refVal))
 	if err != nil {
 		return nil, err
 	}
diff --git a/amf/helper.go b/amf/helper.go
index da0e6d4..e07b35a 100755
--- a/amf/helper.go
+++ b/amf/helper.go
@@ -63,16 +63,9 @@ func readByte(r io.Reader) (byte, error) {
 // 读多字节
 func readBytes(r io.Reader, n int) ([]byte, error) {
 	bytes := make([]byte, n)
-	m, err := r.Read(bytes)
-	if err != nil {
-		return bytes, err
-	}
-
-	if m != n {
-		return bytes, fmt.Errorf("expected %d bytes, but got %d bytes", m, n)
-	}
+	_, err := io.ReadFull(r, bytes)
 
-	return bytes, nil
+	return bytes, err
 }
 
 // 下一个字节一定是target, 否则返回错误
-- 
2.43.0


From 95e67cefa9b64accede64a8f55356076954b376a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:58 +0000
Subject: [PATCH 02/64] fix: amf batch decoding reported a value cut off by the
 end of the stream as a clean end

---
 amf/amf0.go | 13 +++++++++++++
 amf/amf3.go | 13 +++++++++++++
 2 files changed, 26 insertions(+)

diff --git a/amf/amf0.go b/amf/amf0.go
index 5ecee4d..2fe414b 100755
--- a/amf/amf0.go
+++ b/amf/amf0.go
@@ -49,6 +49,19 @@ func (ed *EnDecAMF0) Decode(r io.Reader) (interface{}, error) {
 		return nil, err
 	}
 
+	val, err := ed.decodeValue(r, marker)
+	if err == io.EOF {
+		// the value has begun, so this is not a clean end of the stream
+		err = io.ErrUnexpectedEOF
+	}
+
+	return val, err
+}
+
+// 根据类型解析数据
+func (ed *EnDecAMF0) decodeValue(r io.Reader, marker byte) (interface{}, error) {
+	var err error
+
 	switch marker {
 	case numberMarkerOnAMF0:
 		// marker: 1 byte 0x00
diff --git a/amf/amf3.go b/amf/amf3.go
index 091191a..98fc7d6 100755
--- a/amf/amf3.go
+++ b/amf/amf3.go
@@ -76,6 +76,19 @@ func (ed *EnDecAMF3) Decode(r io.Reader) (interface{}, error) {
 		return nil, err
 	}
 
+	val, err := ed.decodeValue(r, marker)
+	if err == io.EOF {
+		// the value has begun, so this is not a clean end of the stream
+		err = io.ErrUnexpectedEOF
+	}
+
+	return val, err
+}
+
+// 根据类型解析数据
+func (ed *EnDecAMF3) decodeValue(r io.Reader, marker byte) (interface{}, error) {
+	var err error
+
 	switch marker {
 	case undefinedMarkerOnAMF3, nullMarkerOnAMF3:
 		return nil, nil
-- 
2.43.0


From 64fc02a39c78c3edd01bd3c48a9157a54a5d7ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:33 +0000
Subject: [PATCH 03/64] fix: amf decoding must not allocate by lengths the peer
 only claims

---
 amf/amf3.go   | 11 +++++++----
 amf/helper.go | 30 +++++++++++++++++++++++++++---
 2 files changed, 34 insertions(+), 7 deletions(-)

diff --git a/amf/amf3.go b/amf/amf3.go
index 98fc7d6..d365dcb 100755
--- a/amf/amf3.go
+++ b/amf/amf3.go
@@ -252,7 +252,7 @@ func (ed *EnDecAMF3) decodeArray(r io.Reader) (EcmaArrayAMF3, error) {
 	var result EcmaArrayAMF3
 	ed.deObjTable = append(ed.deObjTable, result)
 	result.associative = make(Object)
-	result.dense = make(Array, refVal)
+	result.dense = make(Array, 0, minInt(int(refVal), 64)) // refVal comes from the peer
 
 	// list of assoicative array, terminated by an empty string
 	for key != "" {
@@ -271,10 +271,12 @@ func (ed *EnDecAMF3) decodeArray(r io.Reader) (EcmaArrayAMF3, error) {
 
 	// list of dense array
 	for i := uint32(0); i < refVal; i++ {
-		result.dense[i], err = ed.Decode(r)
+		val, err := ed.Decode(r)
 		if err != nil {
 			return EcmaArrayAMF3{}, err
 		}
+
+		result.dense = append(result.dense, val)
 	}
 
 	return result, nil
@@ -325,12 +327,13 @@ func (ed *EnDecAMF3) decodeObject(r io.Reader) (interface{}, error) {
 
 		// Note: traits have property keys, encoded as amf3 strings
 		count := int(refVal >> 3)
-		trait.Properties = make([]string, count)
 		for i := 0; i < count; i++ {
-			trait.Properties[i], err = ed.decodeString(r)
+			prop, err := ed.decodeString(r)
 			if err != nil {
 				return nil, err
 			}
+
+			trait.Properties = append(trait.Properties, prop)
 		}
 
 		ed.traitTable = append(ed.traitTable, trait)
diff --git a/amf/helper.go b/amf/helper.go
index e07b35a..9a87f44 100755
--- a/amf/helper.go
+++ b/amf/helper.go
@@ -29,6 +29,17 @@ type Encoder interface {
 	EncodeBatch(w io.Writer, args ...interface{}) error
 }
 
+// 单次分配的最大字节数
+const readChunk = 64 * 1024
+
+func minInt(a, b int) int {
+	if a < b {
+		return a
+	}
+
+	return b
+}
+
 // 写1字节
 func writeByte(w io.Writer, b byte) error {
 	bytes := make([]byte, 1)
@@ -62,10 +73,23 @@ func readByte(r io.Reader) (byte, error) {
 
 // 读多字节
 func readBytes(r io.Reader, n int) ([]byte, error) {
-	bytes := make([]byte, n)
-	_, err := io.ReadFull(r, bytes)
+	// n comes from the peer: allocate as the data arrives
+	bytes := make([]byte, 0, minInt(n, readChunk))
+	for len(bytes) < n {
+		start := len(bytes)
+		bytes = append(bytes, make([]byte, minInt(n-start, readChunk))...)
+
+		m, err := io.ReadFull(r, bytes[start:])
+		if err != nil {
+			if err == io.EOF && start > 0 {
+				err = io.ErrUnexpectedEOF
+			}
+
+			return bytes[:start+m], err
+		}
+	}
 
-	return bytes, err
+	return bytes, nil
 }
 
 // 下一个字节一定是target, 否则返回错误
-- 
2.43.0


From 2e49f68995b3cb05d88298f367d1098c884e3ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:34 +0000
Subject: [PATCH 04/64] fix: amf0 date encoding wrote an extra number marker

---
 amf/amf0.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/amf/amf0.go b/amf/amf0.go
index 2fe414b..5bcde17 100755
--- a/amf/amf0.go
+++ b/amf/amf0.go
@@ -618,12 +618,12 @@ func (ed *EnDecAMF0) encodeDate(w io.Writer, val time.Time) (int, error) {
 	}
 	n := 1
 
-	var m = 0
-	m, err = ed.encodeNumber(w, float64(val.Unix())*1000.0)
+	// the date marker is followed by the bare double, without a number marker
+	err = binary.Write(w, binary.BigEndian, float64(val.Unix())*1000.0)
 	if err != nil {
 		return 0, err
 	}
-	n += m
+	n += 8
 
 	err = binary.Write(w, binary.BigEndian, int16(0))
 	if err != nil {
-- 
2.43.0


From c816557a16823bd41d1d18f41338007dd65450ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:36 +0000
Subject: [PATCH 05/64] fix: amf0 reference one past the table panicked

---
 amf/amf0.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amf/amf0.go b/amf/amf0.go
index 5bcde17..853ae20 100755
--- a/amf/amf0.go
+++ b/amf/amf0.go
@@ -195,7 +195,7 @@ func (ed *EnDecAMF0) decodeReference(r io.Reader) (interface{}, error) {
 		return nil, err
 	}
 
-	if int(ref) > len(ed.deRefCache) {
+	if int(ref) >= len(ed.deRefCache) {
 		return nil, fmt.Errorf("bad reference %d (current length %d)", ref, len(ed.deRefCache))
 	}
 
-- 
2.43.0


From a380e6a58c69f35b63b1ecb511bbd83d433ec399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:37 +0000
Subject: [PATCH 06/64] fix: amf0 references to strict arrays and typed objects

---
 amf/amf0.go | 42 ++++++++++++++++++++++++++----------------
 1 file changed, 26 insertions(+), 16 deletions(-)

diff --git a/amf/amf0.go b/amf/amf0.go
index 853ae20..61ff44f 100755
--- a/amf/amf0.go
+++ b/amf/amf0.go
@@ -161,27 +161,32 @@ func (ed *EnDecAMF0) decodeObject(r io.Reader) (Object, error) {
 	result := make(Object)
 	ed.deRefCache = append(ed.deRefCache, result)
 
+	err := ed.decodeProperties(r, result)
+	if err != nil {
+		return nil, err
+	}
+
+	return result, nil
+}
+
+// 读取键值对直到结束符
+func (ed *EnDecAMF0) decodeProperties(r io.Reader, result Object) error {
 	for {
 		// 读取字符串
 		key, err := ed.decodeString(r)
 		if err != nil {
-			return nil, err
+			return err
 		}
 
 		// [出口]空字符串后应该是结束符
 		if key == "" {
-			err = nextByteMustBe(r, objectEndMarkerOnAMF0)
-			if err != nil {
-				return nil, err
-			}
-
-			return result, nil
+			return nextByteMustBe(r, objectEndMarkerOnAMF0)
 		}
 
 		// 序列未结束, 继续读取
 		value, err := ed.Decode(r)
 		if err != nil {
-			return nil, err
+			return err
 		}
 
 		result[key] = value
@@ -230,6 +235,7 @@ func (ed *EnDecAMF0) decodeStrictArray(r io.Reader) (Array, error) {
 
 	// 初始化数组
 	var result Array
+	index := len(ed.deRefCache)
 	ed.deRefCache = append(ed.deRefCache, result)
 
 	// 填充数组
@@ -242,6 +248,8 @@ func (ed *EnDecAMF0) decodeStrictArray(r io.Reader) (Array, error) {
 		result = append(result, val)
 	}
 
+	ed.deRefCache[index] = result
+
 	return result, nil
 }
 
@@ -280,6 +288,7 @@ func (ed *EnDecAMF0) decodeLongString(r io.Reader) (string, error) {
 func (ed *EnDecAMF0) decodeTypedObject(r io.Reader) (TypedObject, error) {
 	// 数组化类型数组
 	var result TypedObject
+	index := len(ed.deRefCache)
 	ed.deRefCache = append(ed.deRefCache, result)
 
 	// 读取类型
@@ -288,19 +297,20 @@ func (ed *EnDecAMF0) decodeTypedObject(r io.Reader) (TypedObject, error) {
 		return result, err
 	}
 
+	// 类型对象只占用一个引用
+	val := TypedObject{
+		Type:   typeVal,
+		Object: make(Object),
+	}
+	ed.deRefCache[index] = val
+
 	// 读取对象
-	objectVal, err := ed.decodeObject(r)
+	err = ed.decodeProperties(r, val.Object)
 	if err != nil {
 		return result, err
 	}
 
-	// 导出返回值
-	result = TypedObject{
-		Type:   typeVal,
-		Object: objectVal,
-	}
-
-	return result, nil
+	return val, nil
 }
 
 // ====================================================================
-- 
2.43.0


From 03cd29b6cac2fbe342eb4007143398e9c6394f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:37 +0000
Subject: [PATCH 07/64] fix: amf0 encoders swallowed the error of the first
 write

---
 amf/amf0.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/amf/amf0.go b/amf/amf0.go
index 61ff44f..47c7f90 100755
--- a/amf/amf0.go
+++ b/amf/amf0.go
@@ -380,7 +380,7 @@ func (ed *EnDecAMF0) EncodeBatch(w io.Writer, args ...interface{}) error {
 func (ed *EnDecAMF0) EncodeWithAMF3(w io.Writer, val interface{}) (int, error) {
 	err := writeByte(w, avmPlusObjectMarkerOnAMF0)
 	if err != nil {
-		return 0, nil
+		return 0, err
 	}
 
 	n, err := ed.EnDecAMF3.Encode(w, val)
@@ -395,7 +395,7 @@ func (ed *EnDecAMF0) EncodeWithAMF3(w io.Writer, val interface{}) (int, error) {
 func (ed *EnDecAMF0) EncodeXmlDocument(w io.Writer, val string) (int, error) {
 	err := writeByte(w, xmlDocumentMarkerOnAMF0)
 	if err != nil {
-		return 0, nil
+		return 0, err
 	}
 
 	n, err := ed.encodeLongString(w, val, false)
-- 
2.43.0


From 632dd57172bd20c44cbf2f652b5ecc4c68f85448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:02 +0000
Subject: [PATCH 08/64] fix: amf3 integers are signed, negative ones could not
 be encoded or decoded

---
 amf/amf3.go | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/amf/amf3.go b/amf/amf3.go
index d365dcb..de6e15e 100755
--- a/amf/amf3.go
+++ b/amf/amf3.go
@@ -32,6 +32,12 @@ const (
 	dictionaryMarkerOnAMF3   = 0x11
 )
 
+// AMF3 integers are signed 29-bit values
+const (
+	minIntegerOnAMF3 = -1 << 28
+	maxIntegerOnAMF3 = 1<<28 - 1
+)
+
 // TraitAMF3 AMF3特性表
 type TraitAMF3 struct {
 	Type           string
@@ -97,7 +103,17 @@ func (ed *EnDecAMF3) decodeValue(r io.Reader, marker byte) (interface{}, error)
 	case trueMarkerOnAMF3:
 		return true, nil
 	case integerMarkerOnAMF3:
-		return ed.readUint29(r)
+		u29, err := ed.readUint29(r)
+		if err != nil {
+			return nil, err
+		}
+
+		// 29位有符号整数
+		if u29 > maxIntegerOnAMF3 {
+			return int32(u29) - 1<<29, nil
+		}
+
+		return u29, nil
 	case doubleMarkerOnAMF3:
 		var f64 float64
 		err = binary.Read(r, binary.BigEndian, &f64)
@@ -581,13 +597,13 @@ func (ed *EnDecAMF3) Encode(w io.Writer, val interface{}) (int, error) {
 
 		return ed.encodeFalse(w)
 	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32:
-		if v.Int() >= -536870911 && v.Int() < 536870911 {
-			return ed.encodeInteger(w, uint32(v.Int()))
+		if v.Int() >= minIntegerOnAMF3 && v.Int() <= maxIntegerOnAMF3 {
+			return ed.encodeInteger(w, uint32(v.Int())&0x1FFFFFFF)
 		}
 
 		return ed.encodeDouble(w, float64(v.Int()))
 	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32:
-		if v.Uint() < 536870911 {
+		if v.Uint() <= maxIntegerOnAMF3 {
 			return ed.encodeInteger(w, uint32(v.Uint()))
 		}
 
-- 
2.43.0


From 9e247e9e8676a47b03ad2604ec84d468010bedc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:03 +0000
Subject: [PATCH 09/64] fix: amf3 dynamic and externalizable traits were never
 recognised

---
 amf/amf3.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/amf/amf3.go b/amf/amf3.go
index de6e15e..5e10957 100755
--- a/amf/amf3.go
+++ b/amf/amf3.go
@@ -330,10 +330,10 @@ func (ed *EnDecAMF3) decodeObject(r io.Reader) (interface{}, error) {
 		trait = ed.traitTable[index]
 	} else {
 		// Note: no property names are included in the trait information
-		trait.Externalizable = (refVal & 0x02) == 1
+		trait.Externalizable = (refVal & 0x02) != 0
 
 		// Note: another dynamic member follows until the string-type is the empty string.
-		trait.Dynamic = (refVal & 0x04) == 1
+		trait.Dynamic = (refVal & 0x04) != 0
 
 		// Note: use the empty string for anonymous classes
 		trait.Type, err = ed.decodeString(r)
-- 
2.43.0


From 463a2a84317405d7a01a376ea69e1755a74c45fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:04 +0000
Subject: [PATCH 10/64] fix: amf3 message extension fields other than the first
 were dropped

---
 amf/amf3_external.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amf/amf3_external.go b/amf/amf3_external.go
index f3481b2..eab8d67 100755
--- a/amf/amf3_external.go
+++ b/amf/amf3_external.go
@@ -71,7 +71,7 @@ func (ed *EnDecAMF3) decodeExternal(r io.Reader, obj *Object, fieldSets ...[]str
 		// 只有在flagSet里设置为1的值才会被解开
 		for p, field := range fieldNames {
 			flagBit := uint8(math.Exp2(float64(p)))
-			if (flags & flagBit) == 1 {
+			if (flags & flagBit) != 0 {
 				tmp, err := ed.Decode(r)
 				if err != nil {
 					return err
-- 
2.43.0


From fad1916c3aba90f873895eae3f5196ff2b31a562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:05 +0000
Subject: [PATCH 11/64] fix: amf3 object references resolved to nil, empty or
 wrong values

---
 amf/amf3.go | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/amf/amf3.go b/amf/amf3.go
index 5e10957..0397bdf 100755
--- a/amf/amf3.go
+++ b/amf/amf3.go
@@ -266,6 +266,7 @@ func (ed *EnDecAMF3) decodeArray(r io.Reader) (EcmaArrayAMF3, error) {
 
 	// 初始化数组
 	var result EcmaArrayAMF3
+	objIndex := len(ed.deObjTable)
 	ed.deObjTable = append(ed.deObjTable, result)
 	result.associative = make(Object)
 	result.dense = make(Array, 0, minInt(int(refVal), 64)) // refVal comes from the peer
@@ -295,6 +296,8 @@ func (ed *EnDecAMF3) decodeArray(r io.Reader) (EcmaArrayAMF3, error) {
 		result.dense = append(result.dense, val)
 	}
 
+	ed.deObjTable[objIndex] = result
+
 	return result, nil
 }
 
@@ -356,6 +359,7 @@ func (ed *EnDecAMF3) decodeObject(r io.Reader) (interface{}, error) {
 	}
 
 	var result interface{}
+	objIndex := len(ed.deObjTable)
 	ed.deObjTable = append(ed.deObjTable, result)
 
 	// objects can be externalizable, meaning that the system has no concrete understanding of
@@ -380,9 +384,6 @@ func (ed *EnDecAMF3) decodeObject(r io.Reader) (interface{}, error) {
 			if err != nil {
 				return nil, err
 			}
-
-			// store an extra reference to array collection container
-			ed.deObjTable = append(ed.deObjTable, result)
 		default:
 			// 调用外部函数
 			fn, ok := ed.externalHandlers[trait.Type]
@@ -397,11 +398,14 @@ func (ed *EnDecAMF3) decodeObject(r io.Reader) (interface{}, error) {
 		}
 
 		// 外部函数调用完即可结束
+		ed.deObjTable[objIndex] = result
+
 		return result, nil
 	}
 
 	// 解析Properties, Dynamic
 	obj := make(Object)
+	ed.deObjTable[objIndex] = obj
 
 	// non-externalizable objects have property keys in traits, iterate through them
 	// and add the read values to the object
@@ -463,11 +467,6 @@ func (ed *EnDecAMF3) decodeXmlDoc(r io.Reader) (string, error) {
 		return result, nil
 	}
 
-	// xml字符个数
-	if refVal == 0 {
-		return "", nil
-	}
-
 	// 按数值取值
 	buf, err := readBytes(r, int(refVal))
 	if err != nil {
@@ -503,11 +502,6 @@ func (ed *EnDecAMF3) decodeByteArray(r io.Reader) ([]byte, error) {
 		return result, nil
 	}
 
-	// 字节个数
-	if refVal == 0 {
-		return nil, nil
-	}
-
 	// 按数值取值
 	result, err := readBytes(r, int(refVal))
 	if err != nil {
-- 
2.43.0


From 4e671a5a3a644b4413a523e00df9e85093f84cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:07 +0000
Subject: [PATCH 12/64] fix: registering an amf3 external handler on an amf0
 decoder panicked

---
 amf/amf3.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/amf/amf3.go b/amf/amf3.go
index 0397bdf..5630795 100755
--- a/amf/amf3.go
+++ b/amf/amf3.go
@@ -72,6 +72,10 @@ func NewEnDecAMF3() *EnDecAMF3 {
 
 // RegisterExternalHandler 注册远程调用
 func (ed *EnDecAMF3) RegisterExternalHandler(name string, f ExternalHandler) {
+	if ed.externalHandlers == nil {
+		ed.externalHandlers = make(map[string]ExternalHandler)
+	}
+
 	ed.externalHandlers[name] = f
 }
 
-- 
2.43.0


From dbe77e2ff154334a7e42377525bd49c1a0a9d64f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:54 +0000
Subject: [PATCH 13/64] fix: flv muxing stripped the announcement from the
 caller's metadata packet

---
 container/flv/muxer.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/container/flv/muxer.go b/container/flv/muxer.go
index ae3d35a..f099b68 100755
--- a/container/flv/muxer.go
+++ b/container/flv/muxer.go
@@ -96,6 +96,7 @@ func (m *muxer) metadata(metadata amf.Object) ([]byte, error) {
 // Mux 将数据转换为FLV格式
 func (m *muxer) mux(p *packet.Packet, pts uint32, w io.Writer) error {
 	var typeID uint32
+	data := p.Data
 
 	// 数据预处理
 	switch p.Type {
@@ -108,18 +109,18 @@ func (m *muxer) mux(p *packet.Packet, pts uint32, w io.Writer) error {
 		typeID = packet.TagScriptDataAMF0
 
 		// 从[SetDataFrame, data]数据中提取出data(SetDataFrame是RTMP信令, 在rtmp场景外, 应该剔除在外, 只保留数据)
-		data, err := amf.DelMetaHeader(p.Data, amf.NewEnDecAMF0())
+		// p可能被多个输出共享, 不能修改
+		var err error
+		data, err = amf.DelMetaHeader(p.Data, amf.NewEnDecAMF0())
 		if err != nil {
 			return err
 		}
-
-		p.Data = data
 	default:
 		return fmt.Errorf("unexpected type=%d", p.Type)
 	}
 
 	// Flv data length
-	dataLen := uint32(len(p.Data))
+	dataLen := uint32(len(data))
 
 	/* 1字节, [0:1]Reserved, [2]Filter(unencrypted), [3:7]TagType */
 	/* 3字节, DataSize, 其中包含2字节的media header */
@@ -138,7 +139,7 @@ func (m *muxer) mux(p *packet.Packet, pts uint32, w io.Writer) error {
 	}
 
 	// 长度: dataLen
-	_, err = w.Write(p.Data)
+	_, err = w.Write(data)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From e7a1dc49a24d3797c260cdb41e3426377235d32d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:54 +0000
Subject: [PATCH 14/64] fix: flv tags larger than 24 bits can tell were written
 with a truncated size

---
 container/flv/muxer.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/container/flv/muxer.go b/container/flv/muxer.go
index f099b68..72663a1 100755
--- a/container/flv/muxer.go
+++ b/container/flv/muxer.go
@@ -14,6 +14,8 @@ import (
 
 const tagHdrLen = 11
 
+const maxDataLen = 0x00ffffff
+
 // Muxer FLV复用器
 type muxer struct {
 	flvHdr []byte
@@ -119,6 +121,11 @@ func (m *muxer) mux(p *packet.Packet, pts uint32, w io.Writer) error {
 		return fmt.Errorf("unexpected type=%d", p.Type)
 	}
 
+	// DataSize只有24位
+	if len(data) > maxDataLen {
+		return fmt.Errorf("data too large for a flv tag, len=%d", len(data))
+	}
+
 	// Flv data length
 	dataLen := uint32(len(data))
 
-- 
2.43.0


From ab5b8c5a600b498bfcc30b97f13ad1a26dc0e803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:55 +0000
Subject: [PATCH 15/64] fix: flv composition time is a signed value

---
 container/flv/tag.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/container/flv/tag.go b/container/flv/tag.go
index f369bd1..c2f1e72 100755
--- a/container/flv/tag.go
+++ b/container/flv/tag.go
@@ -134,6 +134,9 @@ func (tag *Tag) parseVideoHeader(b []byte) (int, error) {
 		for i := 2; i < 5; i++ {
 			tag.media.compositionTime = tag.media.compositionTime<<8 + int32(b[i])
 		}
+
+		// SI24: 24位有符号整数
+		tag.media.compositionTime = tag.media.compositionTime << 8 >> 8
 		n += 4
 	}
 
-- 
2.43.0


From b4e65da10b34c19059b56374905e3056b5acd842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:56 +0000
Subject: [PATCH 16/64] fix: a group of pictures could hold one packet more
 than its maximum

---
 gop/array.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gop/array.go b/gop/array.go
index c299980..be16e06 100755
--- a/gop/array.go
+++ b/gop/array.go
@@ -26,7 +26,7 @@ func (a *array) reset() {
 // 将数据包保存到数组中
 func (a *array) write(p *packet.Packet) error {
 	// 如果关键帧间隔太长, 会导致在有限容量内不能完整存储视频
-	if len(a.packets) > maxGop {
+	if len(a.packets) >= maxGop {
 		return errors.New("the group of picture is too large")
 	}
 
-- 
2.43.0


From 5e37b2fa95effa0718c884eda0b799bfb056e108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:06 +0000
Subject: [PATCH 17/64] fix: ts muxing replaced the media of the caller's
 packet with an internal buffer

---
 container/ts/mixer.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/container/ts/mixer.go b/container/ts/mixer.go
index c6df3cc..7e00a5f 100644
--- a/container/ts/mixer.go
+++ b/container/ts/mixer.go
@@ -71,12 +71,15 @@ func (m *Mixer) parse(p *packet.Packet, cache *bytes.Buffer) error {
 
 // Mux 转换为ts格式（需要使用p.Media）
 func (m *Mixer) Mux(p *packet.Packet) error {
-	err := m.parse(p, m.cache.media)
+	// 数据包可能被多个输出共用, 不能修改调用者的数据包
+	media := *p
+
+	err := m.parse(&media, m.cache.media)
 	if err != nil {
 		return err
 	}
 
-	return m.muxer.Mux(p, m.dts, m.pts, m.ts)
+	return m.muxer.Mux(&media, m.dts, m.pts, m.ts)
 }
 
 // SaveMetadata 保存元数据
-- 
2.43.0


From d493bd85958b5b1cf4e503aa3490965d69fdd51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:06 +0000
Subject: [PATCH 18/64] fix: saving a sequence header mid-stream broke ts
 continuity counters

---
 container/ts/mixer.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/container/ts/mixer.go b/container/ts/mixer.go
index 7e00a5f..8ceaa91 100644
--- a/container/ts/mixer.go
+++ b/container/ts/mixer.go
@@ -114,8 +114,9 @@ func (m *Mixer) SaveAVCHeader(p *packet.Packet) error {
 		return err
 	}
 
+	// 序列头只缓存不输出, 不能占用输出流的递增计数器
 	m.cache.avcSeqHdr.Reset()
-	return m.muxer.Mux(p, 0, 0, m.cache.avcSeqHdr)
+	return NewMuxer().Mux(p, 0, 0, m.cache.avcSeqHdr)
 }
 
 // SaveAACHeader 保存AAC序列头（flv->aac sequence header）
@@ -127,8 +128,9 @@ func (m *Mixer) SaveAACHeader(p *packet.Packet) error {
 		return err
 	}
 
+	// 序列头只缓存不输出, 不能占用输出流的递增计数器
 	m.cache.aacSeqHdr.Reset()
-	return m.muxer.Mux(p, 0, 0, m.cache.aacSeqHdr)
+	return NewMuxer().Mux(p, 0, 0, m.cache.aacSeqHdr)
 }
 
 // SetTsHeader 封装PAT和PMT
-- 
2.43.0


From 5f8cb2d7d5e42ced746051374b99c311a6a69969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:07 +0000
Subject: [PATCH 19/64] fix: ts muxing failed on key frames that nearly fill
 the first packet

---
 container/ts/muxer.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/container/ts/muxer.go b/container/ts/muxer.go
index 1509302..b0211d9 100755
--- a/container/ts/muxer.go
+++ b/container/ts/muxer.go
@@ -11,8 +11,7 @@ import (
 )
 
 const (
-	tsDefaultDataLen = 184
-	tsPacketLen      = 188
+	tsPacketLen = 188
 )
 
 const (
@@ -121,7 +120,7 @@ func (muxer *Muxer) Mux(p *packet.Packet, dts, pts int64, w io.Writer) error {
 		maxPayloadLen := tsPacketLen - i
 
 		// 计算待填充的长度
-		if pesTotalLen < tsDefaultDataLen {
+		if pesTotalLen < int(maxPayloadLen) {
 			// 除去pes外, 还应填充的无效字节长度
 			remainBytes := maxPayloadLen - byte(pesTotalLen)
 
-- 
2.43.0


From e07d67052cc8b082f53d6e3e104e35f17f8cd9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:08 +0000
Subject: [PATCH 20/64] fix: ts timestamps overflowed 32 bits and negative
 composition times

---
 container/ts/mixer.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/container/ts/mixer.go b/container/ts/mixer.go
index 8ceaa91..606b572 100644
--- a/container/ts/mixer.go
+++ b/container/ts/mixer.go
@@ -172,11 +172,12 @@ func (m *Mixer) SetTsHeader() error {
 // 视频的PTS=DTS+时间增量
 // 音频的PTS=DTS
 func (m *Mixer) Update(p *packet.Packet, pktTs, avcTs uint32) error {
-	m.dts = int64(pktTs * avcHZ)
+	m.dts = int64(pktTs) * avcHZ
 
 	switch p.Type {
 	case packet.PktVideo:
-		m.pts = m.dts + int64(avcTs*avcHZ)
+		// 时间增量是有符号数
+		m.pts = m.dts + int64(int32(avcTs))*avcHZ
 	case packet.PktAudio:
 		// 音频采样率
 		sampleRate, err := m.parser.SampleRate()
-- 
2.43.0


From f092ae7e493d6caeab980f6cc8bfc4826d969bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:08 +0000
Subject: [PATCH 21/64] fix: pts and dts prefixes and their wrap at 33 bits

---
 container/ts/table/pes.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/container/ts/table/pes.go b/container/ts/table/pes.go
index 4a86e77..3ed0ffb 100644
--- a/container/ts/table/pes.go
+++ b/container/ts/table/pes.go
@@ -38,16 +38,18 @@ func (pe *Pes) GeneratePesHeader(mt int, mediaDataLen int, pts, dts int64) int {
 	}
 
 	// pts
-	ptsB5 := pe.encodeTs(pe.PesHeader[7], pts)
-	copy(pe.PesHeader[9:], ptsB5[:])
+	ptsPrefix := byte(0x20)
 	if mt == packet.PktVideo && pts != dts {
+		ptsPrefix = 0x30
 		pe.PesHeader[7] |= 0x40
 		pe.PesHeader[8] += 0x05
 
 		// dts
-		dtsB5 := pe.encodeTs(pe.PesHeader[7], dts)
+		dtsB5 := pe.encodeTs(0x10, dts)
 		copy(pe.PesHeader[14:], dtsB5[:])
 	}
+	ptsB5 := pe.encodeTs(ptsPrefix, pts)
+	copy(pe.PesHeader[9:], ptsB5[:])
 
 	// pes数据包的长度
 	pesDataLen := int(pe.PesHeader[8])
@@ -62,17 +64,15 @@ func (pe *Pes) GeneratePesHeader(mt int, mediaDataLen int, pts, dts int64) int {
 	return 6 + 3 + pesDataLen
 }
 
-// 33位时间戳编码成40位时间戳
-func (pe *Pes) encodeTs(flag byte, ts int64) [5]byte {
+// 33位时间戳编码成40位时间戳, prefix: 只有pts(0010), 同时有dts时的pts(0011), dts(0001), 位于高4位
+func (pe *Pes) encodeTs(prefix byte, ts int64) [5]byte {
 	var val uint16
-	if ts > 0x1ffffffff {
-		ts -= 0x1ffffffff
-	}
+	ts &= 0x1ffffffff
 
 	var u33 [5]byte
 
 	// 6位
-	val = uint16((flag&0xc0)>>2) | ((uint16(ts>>30) & 0x07) << 1) | 1
+	val = uint16(prefix) | ((uint16(ts>>30) & 0x07) << 1) | 1
 	u33[0] = byte(val)
 
 	// 16位
-- 
2.43.0


From 56aaed673cb2348076002a1e47a343c863122687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:09 +0000
Subject: [PATCH 22/64] fix: the continuity counter of the sdt never advanced

---
 container/ts/muxer.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/container/ts/muxer.go b/container/ts/muxer.go
index b0211d9..37bd66b 100755
--- a/container/ts/muxer.go
+++ b/container/ts/muxer.go
@@ -23,6 +23,7 @@ const (
 type Muxer struct {
 	videoCc  byte /* 包递增计数器 */
 	audioCc  byte /* 包递增计数器 */
+	sdtCc    byte /* 包递增计数器 */
 	patCc    byte /* 包递增计数器 */
 	pmtCc    byte /* 包递增计数器 */
 	sdt      [tsPacketLen]byte
@@ -188,6 +189,13 @@ func (muxer *Muxer) Mux(p *packet.Packet, dts, pts int64, w io.Writer) error {
 func (muxer *Muxer) SDT(desc *bytes.Buffer) []byte {
 	sdt := table.NewSdt()
 
+	// 填写包递增计数器, 共4位, 超出则归零
+	if muxer.sdtCc > 0xf {
+		muxer.sdtCc = 0
+	}
+	sdt.TsHeader[3] |= muxer.sdtCc & 0x0f
+	muxer.sdtCc++
+
 	// 填充TS头
 	i := 0
 	copy(muxer.sdt[i:], sdt.TsHeader)
-- 
2.43.0


From 77f90e90e841a0fc51f0848cb73e2749a0fd657f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:09 +0000
Subject: [PATCH 23/64] fix: long service names crashed or corrupted the sdt

---
 container/ts/mixer.go            | 6 ++++++
 container/ts/muxer.go            | 3 +++
 container/ts/table/descriptor.go | 6 ++++++
 3 files changed, 15 insertions(+)

diff --git a/container/ts/mixer.go b/container/ts/mixer.go
index 606b572..1af2bce 100644
--- a/container/ts/mixer.go
+++ b/container/ts/mixer.go
@@ -3,6 +3,7 @@ package ts
 
 import (
 	"bytes"
+	"errors"
 	"io"
 
 	"github.com/moggle-mog/goav/container/ts/table"
@@ -101,6 +102,11 @@ func (m *Mixer) SaveMetadata(md amf.Object) error {
 		return err
 	}
 
+	// SDT表只占用一个ts包
+	if desc.GetBuffer().Len() > maxDescLen {
+		return errors.New("metadata does not fit into one ts packet")
+	}
+
 	m.cache.metadata = desc.GetBuffer()
 	return nil
 }
diff --git a/container/ts/muxer.go b/container/ts/muxer.go
index 37bd66b..6f63869 100755
--- a/container/ts/muxer.go
+++ b/container/ts/muxer.go
@@ -12,6 +12,9 @@ import (
 
 const (
 	tsPacketLen = 188
+
+	// 单个ts包能承载的SDT描述信息长度(ts头5字节, SDT头16字节, CRC32占4字节)
+	maxDescLen = tsPacketLen - 5 - 16 - 4
 )
 
 const (
diff --git a/container/ts/table/descriptor.go b/container/ts/table/descriptor.go
index 54c1472..8ff3e97 100644
--- a/container/ts/table/descriptor.go
+++ b/container/ts/table/descriptor.go
@@ -3,6 +3,7 @@ package table
 import (
 	"bytes"
 	"encoding/binary"
+	"errors"
 )
 
 // Descriptor 描述表
@@ -24,6 +25,11 @@ func (d *Descriptor) GetBuffer() *bytes.Buffer {
 
 // Service serviceType: pmt表的program pid
 func (d *Descriptor) Service(serviceType byte, serviceProviderName string, serviceName string) error {
+	// 描述符的长度只有一个字节
+	if len(serviceProviderName)+len(serviceName)+3 > 0xff {
+		return errors.New("service descriptor is too long")
+	}
+
 	serviceProviderNameLen := byte(len(serviceProviderName))
 
 	serviceNameLen := byte(len(serviceName))
-- 
2.43.0


From c6a17c9fe163c72f2ebb87651c88e6a2b6b5d167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:09 +0000
Subject: [PATCH 24/64] fix: a new h264 sequence header was appended to the old
 one instead of replacing it

---
 parser/h264/parser.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/parser/h264/parser.go b/parser/h264/parser.go
index 052869e..03abbdc 100755
--- a/parser/h264/parser.go
+++ b/parser/h264/parser.go
@@ -88,8 +88,7 @@ func (p *Parser) parseSpecificInfo(src []byte) error {
 	pps = append(pps, tmpBuf[3:]...)
 
 	// 向specificInfo填充SPS和PPS
-	p.specificInfo = append(p.specificInfo, sps...)
-	p.specificInfo = append(p.specificInfo, pps...)
+	p.specificInfo = append(sps, pps...)
 
 	return nil
 }
-- 
2.43.0


From 0a973d102905e9229b1c40268c875961ccfb0981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:10 +0000
Subject: [PATCH 25/64] fix: h264 sequence headers with several parameter sets
 or trailing extensions

---
 parser/h264/parser.go | 33 +++++++++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/parser/h264/parser.go b/parser/h264/parser.go
index 03abbdc..4cc6518 100755
--- a/parser/h264/parser.go
+++ b/parser/h264/parser.go
@@ -74,8 +74,22 @@ func (p *Parser) parseSpecificInfo(src []byte) error {
 	sps = append(sps, startCode...)
 	sps = append(sps, src[8:(8+seq.spsLen)]...)
 
-	// 提取PPS
+	// 剩余的SPS
 	tmpBuf := src[(8 + seq.spsLen):]
+	for i := 1; i < int(seq.spsNum); i++ {
+		if len(tmpBuf) < 2 {
+			return errors.New("incomplete sps data")
+		}
+		seq.spsLen = int(tmpBuf[0])<<8 | int(tmpBuf[1])
+		if len(tmpBuf[2:]) < seq.spsLen || seq.spsLen <= 0 {
+			return errors.New("incomplete sps data")
+		}
+		sps = append(sps, startCode...)
+		sps = append(sps, tmpBuf[2:(2+seq.spsLen)]...)
+		tmpBuf = tmpBuf[(2 + seq.spsLen):]
+	}
+
+	// 提取PPS
 	if len(tmpBuf) < 4 {
 		return errors.New("incomplete pps header")
 	}
@@ -85,7 +99,22 @@ func (p *Parser) parseSpecificInfo(src []byte) error {
 		return errors.New("incomplete pps data")
 	}
 	pps = append(pps, startCode...)
-	pps = append(pps, tmpBuf[3:]...)
+	pps = append(pps, tmpBuf[3:(3+seq.ppsLen)]...)
+
+	// 剩余的PPS, 其后可能还有扩展数据
+	tmpBuf = tmpBuf[(3 + seq.ppsLen):]
+	for i := 1; i < int(seq.ppsNum); i++ {
+		if len(tmpBuf) < 2 {
+			return errors.New("incomplete pps data")
+		}
+		seq.ppsLen = int(tmpBuf[0])<<8 | int(tmpBuf[1])
+		if len(tmpBuf[2:]) < seq.ppsLen || seq.ppsLen <= 0 {
+			return errors.New("incomplete pps data")
+		}
+		pps = append(pps, startCode...)
+		pps = append(pps, tmpBuf[2:(2+seq.ppsLen)]...)
+		tmpBuf = tmpBuf[(2 + seq.ppsLen):]
+	}
 
 	// 向specificInfo填充SPS和PPS
 	p.specificInfo = append(sps, pps...)
-- 
2.43.0


From de08b376f1af5d745c7aac6f961eec105fbb7be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:11 +0000
Subject: [PATCH 26/64] fix: a rejected aac configuration still replaced the
 accepted one

---
 parser/aac/parser.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/parser/aac/parser.go b/parser/aac/parser.go
index 3864545..8da2282 100755
--- a/parser/aac/parser.go
+++ b/parser/aac/parser.go
@@ -59,17 +59,17 @@ func (p *Parser) specificInfo(src []byte) error {
 		return errors.New("audio mpeg-specific, len(src)<2")
 	}
 
+	// 兼容性报告
+	if ((src[0]&0x07)<<1)|src[1]>>7 == 0xf {
+		return errors.New("incompatible extension sampling frequency")
+	}
+
 	// 填充数据
 	p.gotSpecific = true
 	p.cfgInfo.objectType = (src[0] >> 3) & 0xff                    /* [0:4]编码类型 */
 	p.cfgInfo.sampleRateIndex = ((src[0] & 0x07) << 1) | src[1]>>7 /* [0:3]音频采样率索引值 */
 	p.cfgInfo.channel = (src[1] >> 3) & 0x0f                       /* [0:3]音频输出声道 */
 
-	// 兼容性报告
-	if p.cfgInfo.sampleRateIndex == 0xf {
-		return errors.New("incompatible extension sampling frequency")
-	}
-
 	return nil
 }
 
-- 
2.43.0


From 4a4688552af251bcd2d10937fce6d6f3d335164e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:11 +0000
Subject: [PATCH 27/64] fix: aac frames longer than adts can tell were written
 with a truncated length

---
 parser/aac/parser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser/aac/parser.go b/parser/aac/parser.go
index 8da2282..972c02f 100755
--- a/parser/aac/parser.go
+++ b/parser/aac/parser.go
@@ -79,6 +79,11 @@ func (p *Parser) addADTSToFrame(src []byte, w io.Writer) error {
 		return fmt.Errorf("audio data invalid, data size(%d), has specific config(%v)", len(src), p.gotSpecific)
 	}
 
+	// adts头的帧长度只有13位
+	if len(src)+adtsHeaderLen > 0x1fff {
+		return fmt.Errorf("audio data too long for adts, data size(%d)", len(src))
+	}
+
 	// 音频帧大小
 	aacFrameLen := uint16(len(src))
 
-- 
2.43.0


From 11c4d5023fd16d39800de53acdb8ba4f7d8a90e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:05 +0000
Subject: [PATCH 28/64] fix: sip parsing swallowed the beginning of the message
 that follows a body

---
 sips/sips.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/sips/sips.go b/sips/sips.go
index a3eb121..c263ddc 100644
--- a/sips/sips.go
+++ b/sips/sips.go
@@ -65,7 +65,7 @@ func (s *SIP) fillHeader() {
 	s.Via = s.Headers.GetSIPVia()
 }
 
-func (s *SIP) fillBody(r *bufio.Reader, supplement int) ([]byte, error) {
+func (s *SIP) fillBody(r *bufio.Reader) ([]byte, error) {
 
 	var body []byte
 
@@ -73,12 +73,14 @@ func (s *SIP) fillBody(r *bufio.Reader, supplement int) ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
-	size -= supplement
-
 	for size > 0 {
 
-		// read one block
-		buf := make([]byte, 4*1024)
+		// read one block, never beyond the body: the next message follows it
+		block := 4 * 1024
+		if size < block {
+			block = size
+		}
+		buf := make([]byte, block)
 
 		n, err := r.Read(buf)
 		if err != nil {
@@ -160,7 +162,7 @@ func (s *SIP) Parse(r *bufio.Reader) error {
 	// header fields and body.  Any Content-Length greater than or equal to
 	// zero is a valid value.  If no body is present in a message, then the
 	// Content-Length header field value MUST be set to zero.
-	body, err := s.fillBody(r, len(buffer)-offset)
+	body, err := s.fillBody(r)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From d255887febcc7fa860d56c690c5c1a2edbff344d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:06 +0000
Subject: [PATCH 29/64] fix: a sip continuation line without a header panicked

---
 sips/sips.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sips/sips.go b/sips/sips.go
index c263ddc..07feb5a 100644
--- a/sips/sips.go
+++ b/sips/sips.go
@@ -202,6 +202,11 @@ func (s *SIP) ParseHeader(header []byte) {
 	// multiline headers must begin by SP or TAB
 	if header[0] == '\t' || header[0] == ' ' {
 
+		// There is no header to continue
+		if len(s.Headers[s.lastHeaderParsed]) == 0 {
+			return
+		}
+
 		header = bytes.TrimSpace(header)
 		s.Headers[s.lastHeaderParsed][len(s.Headers[s.lastHeaderParsed])-1] += fmt.Sprintf(" %s", string(header))
 		return
-- 
2.43.0


From c1791c860b0ac60a219363daf0350aa7a88ecf0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:07 +0000
Subject: [PATCH 30/64] fix: empty sip argument values panicked

---
 sips/header_args.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sips/header_args.go b/sips/header_args.go
index 267ac18..74f9beb 100644
--- a/sips/header_args.go
+++ b/sips/header_args.go
@@ -29,7 +29,7 @@ func ParseArgsPairs(value string) Args {
 			m[pair] = ""
 		} else {
 			v := pair[i+1:]
-			if v[0] == '"' && v[len(v)-1] == '"' {
+			if len(v) >= 2 && v[0] == '"' && v[len(v)-1] == '"' {
 				v = v[1 : len(v)-1]
 			}
 			m[pair[:i]] = v
-- 
2.43.0


From a53ee41fd899c53c786631d57e7e50f6c4902f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:07 +0000
Subject: [PATCH 31/64] fix: compact sip header names were never resolved

---
 sips/header.go | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/sips/header.go b/sips/header.go
index f19592c..5587144 100644
--- a/sips/header.go
+++ b/sips/header.go
@@ -50,12 +50,11 @@ func (s SIPHeader) GetAllHeaders() map[string][]string {
 func (s SIPHeader) GetHeader(headerName string) []string {
 	headerName = strings.ToLower(headerName)
 	h := make([]string, 0)
-	if _, ok := s[headerName]; ok {
-		if len(s[headerName]) > 0 {
-			return s[headerName]
-		} else if len(s[compactSipHeadersCorrespondence[headerName]]) > 0 {
-			return s[compactSipHeadersCorrespondence[headerName]]
-		}
+	if len(s[headerName]) > 0 {
+		return s[headerName]
+	}
+	if compact, ok := compactSipHeadersCorrespondence[headerName]; ok && len(s[compact]) > 0 {
+		return s[compact]
 	}
 	return h
 }
@@ -65,12 +64,8 @@ func (s SIPHeader) GetHeader(headerName string) []string {
 // headers with the same name, it returns the first.
 func (s SIPHeader) GetFirstHeader(headerName string) string {
 	headerName = strings.ToLower(headerName)
-	if _, ok := s[headerName]; ok {
-		if len(s[headerName]) > 0 {
-			return s[headerName][0]
-		} else if len(s[compactSipHeadersCorrespondence[headerName]]) > 0 {
-			return s[compactSipHeadersCorrespondence[headerName]][0]
-		}
+	if h := s.GetHeader(headerName); len(h) > 0 {
+		return h[0]
 	}
 	return ""
 }
@@ -78,6 +73,11 @@ func (s SIPHeader) GetFirstHeader(headerName string) string {
 // SetFirstHeader sets header with only one value
 func (s SIPHeader) SetFirstHeader(headerName, header string) {
 	headerName = strings.ToLower(headerName)
+
+	// the compact form would contradict the new value
+	if compact, ok := compactSipHeadersCorrespondence[headerName]; ok {
+		delete(s, compact)
+	}
 	s[headerName] = []string{header}
 }
 
-- 
2.43.0


From c7a659337f900fa1918d357dd02778f3ae55c3e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:08 +0000
Subject: [PATCH 32/64] fix: sip display names were never parsed

---
 sips/user.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sips/user.go b/sips/user.go
index 131d5c5..b3892fa 100644
--- a/sips/user.go
+++ b/sips/user.go
@@ -44,9 +44,8 @@ type SIPUser struct {
 func NewSIPUser(uri string) *SIPUser {
 
 	su := &SIPUser{
-		URIType: "sip",
-		Args:    make(Args),
-		Src:     uri,
+		Args: make(Args),
+		Src:  uri,
 	}
 	pos, state := 0, _FieldBase
 
@@ -115,6 +114,9 @@ func NewSIPUser(uri string) *SIPUser {
 		pos++
 	}
 
+	if su.URIType == "" {
+		su.URIType = "sip"
+	}
 	su.Name = string(name)
 	su.User = string(user)
 	su.Host = string(host)
-- 
2.43.0


From ffd1aea02122abcf898a4a42b157d3305123dfbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:03 +0000
Subject: [PATCH 33/64] fix: a failed save of flv headers discarded the saved
 ones

---
 container/flv/mixer.go | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/container/flv/mixer.go b/container/flv/mixer.go
index 316677a..af301a3 100644
--- a/container/flv/mixer.go
+++ b/container/flv/mixer.go
@@ -48,13 +48,14 @@ func (m *Mixer) Mux(p *packet.Packet, pts uint32) error {
 
 // SaveMetadata 保存元数据
 func (m *Mixer) SaveMetadata(md amf.Object) error {
-	m.cache.metadata.Reset()
-
 	mdPkt, err := m.muxer.metadata(md)
 	if err != nil {
 		return err
 	}
 
+	// 失败时保留旧的元数据
+	m.cache.metadata.Reset()
+
 	_, err = m.cache.metadata.Write(mdPkt)
 	if err != nil {
 		return err
@@ -65,20 +66,32 @@ func (m *Mixer) SaveMetadata(md amf.Object) error {
 
 // SaveAVCHeader 保存AVC序列头
 func (m *Mixer) SaveAVCHeader(p *packet.Packet) error {
-	m.cache.types.IsVideo()
-	m.cache.avcSeqHdr.Reset()
+	avcSeqHdr := bytes.NewBuffer(make([]byte, 0, 512))
 
 	// 复位缓存(序列头pts为0, 作为视频的开端)
-	return m.muxer.mux(p, 0, m.cache.avcSeqHdr)
+	err := m.muxer.mux(p, 0, avcSeqHdr)
+	if err != nil {
+		return err
+	}
+
+	m.cache.types.IsVideo()
+	m.cache.avcSeqHdr = avcSeqHdr
+	return nil
 }
 
 // SaveAACHeader 保存AAC序列头
 func (m *Mixer) SaveAACHeader(p *packet.Packet) error {
-	m.cache.types.IsAudio()
-	m.cache.aacSeqHdr.Reset()
+	aacSeqHdr := bytes.NewBuffer(make([]byte, 0, 512))
 
 	// 复位缓存(序列头pts为0, 作为音频的开端)
-	return m.muxer.mux(p, 0, m.cache.aacSeqHdr)
+	err := m.muxer.mux(p, 0, aacSeqHdr)
+	if err != nil {
+		return err
+	}
+
+	m.cache.types.IsAudio()
+	m.cache.aacSeqHdr = aacSeqHdr
+	return nil
 }
 
 // SetFlvHeader 设置FLV的头部数据，每次调用都会增加TS头部计数
-- 
2.43.0


From 82ff208cce74d61b268e429531148380accaa60b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:04 +0000
Subject: [PATCH 34/64] fix: a rejected sequence header was still announced in
 the pmt

---
 container/ts/mixer.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/container/ts/mixer.go b/container/ts/mixer.go
index 1af2bce..ea5f3c7 100644
--- a/container/ts/mixer.go
+++ b/container/ts/mixer.go
@@ -113,13 +113,13 @@ func (m *Mixer) SaveMetadata(md amf.Object) error {
 
 // SaveAVCHeader 保存AVC序列头（flv->avc sequence header）
 func (m *Mixer) SaveAVCHeader(p *packet.Packet) error {
-	m.cache.types.IsVideo()
-
 	err := m.parse(p, m.cache.avcSeqHdr)
 	if err != nil {
 		return err
 	}
 
+	m.cache.types.IsVideo()
+
 	// 序列头只缓存不输出, 不能占用输出流的递增计数器
 	m.cache.avcSeqHdr.Reset()
 	return NewMuxer().Mux(p, 0, 0, m.cache.avcSeqHdr)
@@ -127,13 +127,13 @@ func (m *Mixer) SaveAVCHeader(p *packet.Packet) error {
 
 // SaveAACHeader 保存AAC序列头（flv->aac sequence header）
 func (m *Mixer) SaveAACHeader(p *packet.Packet) error {
-	m.cache.types.IsAudio()
-
 	err := m.parse(p, m.cache.aacSeqHdr)
 	if err != nil {
 		return err
 	}
 
+	m.cache.types.IsAudio()
+
 	// 序列头只缓存不输出, 不能占用输出流的递增计数器
 	m.cache.aacSeqHdr.Reset()
 	return NewMuxer().Mux(p, 0, 0, m.cache.aacSeqHdr)
-- 
2.43.0


From 7452db67d3b444a12b373b30bd487db61d2168ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:15 +0000
Subject: [PATCH 35/64] fix: DelMetaHeader sliced past short packets and kept
 part of long command strings

---
 amf/metadata.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/amf/metadata.go b/amf/metadata.go
index 299f42f..b5e8561 100755
--- a/amf/metadata.go
+++ b/amf/metadata.go
@@ -76,7 +76,8 @@ func DelMetaHeader(p []byte, d Decoder) ([]byte, error) {
 	}
 
 	if vv == SetDataFrame {
-		p = p[len(setFrameFrame):]
+		// the peer may have encoded the command another way
+		p = p[len(p)-r.Len():]
 	}
 
 	return p, nil
-- 
2.43.0


From 5443a22a3368b43b80d5b3c41474593715e93dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:53 +0000
Subject: [PATCH 36/64] fix: tabs around sip header names and values were kept

---
 sips/sips.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sips/sips.go b/sips/sips.go
index 07feb5a..3433482 100644
--- a/sips/sips.go
+++ b/sips/sips.go
@@ -216,8 +216,8 @@ func (s *SIP) ParseHeader(header []byte) {
 	index := bytes.Index(header, []byte(":"))
 	if index >= 0 {
 
-		headerName := strings.ToLower(string(bytes.Trim(header[:index], " ")))
-		headerValue := string(bytes.Trim(header[index+1:], " "))
+		headerName := strings.ToLower(string(bytes.Trim(header[:index], " \t")))
+		headerValue := string(bytes.Trim(header[index+1:], " \t"))
 
 		// Add header to object
 		s.Headers[headerName] = append(s.Headers[headerName], headerValue)
-- 
2.43.0


From fce5cf6fb2d948f6afb3ad55f543f1d12ad8357a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:53 +0000
Subject: [PATCH 37/64] fix: empty lines before a sip start line ended the
 message

---
 sips/sips.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sips/sips.go b/sips/sips.go
index 3433482..4efee47 100644
--- a/sips/sips.go
+++ b/sips/sips.go
@@ -136,6 +136,13 @@ func (s *SIP) Parse(r *bufio.Reader) error {
 
 		// Empty line, we hit Body
 		if len(trim) == 0 {
+			// RFC 3261 - 7.5 - any CRLF before the start-line is ignored
+			if countLines == 0 && err == nil {
+				buffer = buffer[:0]
+				offset = 0
+				continue
+			}
+
 			offset -= len(line)
 			break
 		}
-- 
2.43.0


From dad001ce8be54a394451580e34e8b78b5da8ceef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:54 +0000
Subject: [PATCH 38/64] fix: sip headers with several values were written as
 one folded header

---
 sips/header.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/sips/header.go b/sips/header.go
index 5587144..68a6789 100644
--- a/sips/header.go
+++ b/sips/header.go
@@ -94,9 +94,12 @@ func (s SIPHeader) Bytes() []byte {
 
 	for k, v := range s {
 
-		buf.WriteString(k)
-		buf.WriteString(":")
-		for _, v1 := range v {
+		for i, v1 := range v {
+			// every value is a field of its own, unless it continues the last one
+			if i == 0 || !strings.HasPrefix(v1, " ") && !strings.HasPrefix(v1, "\t") {
+				buf.WriteString(k)
+				buf.WriteString(":")
+			}
 			buf.WriteString(" ")
 			buf.WriteString(v1)
 			buf.WriteString("\r\n")
-- 
2.43.0


From 5648e6833cade720af734ba5443036e14ef607ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:27 +0000
Subject: [PATCH 39/64] fix: sip URIs without a user part were read as a user
 and written with a stray @

---
 sips/request.go | 20 +++++++++++++++++++-
 sips/user.go    | 11 ++++++++++-
 2 files changed, 29 insertions(+), 2 deletions(-)

diff --git a/sips/request.go b/sips/request.go
index ee83d33..ce839e6 100644
--- a/sips/request.go
+++ b/sips/request.go
@@ -93,6 +93,11 @@ func NewSIPRequest(uri string) *SIPRequest {
 		pos++
 	}
 
+	// a URI without '@' has no user part, except for telephone numbers
+	if state == _FieldUser && sr.URIType != "tel" {
+		user, host, port = splitHost(user)
+	}
+
 	sr.User = string(user)
 	sr.Host = string(host)
 	sr.Port = string(port)
@@ -115,7 +120,9 @@ func (s *SIPRequest) Bytes() []byte {
 
 	// user@host
 	buf.WriteString(s.User)
-	buf.WriteString("@")
+	if len(s.User) > 0 && len(s.Host) > 0 {
+		buf.WriteString("@")
+	}
 	buf.WriteString(s.Host)
 
 	if len(s.Port) > 0 {
@@ -135,6 +142,17 @@ func (s *SIPRequest) String() string {
 	return string(s.Bytes())
 }
 
+// splitHost takes the part of a URI without a user as host and port
+func splitHost(s []byte) (user, host, port []byte) {
+
+	i := bytes.IndexByte(s, ':')
+	if i < 0 {
+		return nil, s, nil
+	}
+
+	return nil, s[:i], s[i+1:]
+}
+
 // ToUser transform SIPRequest struct to SIPUser struct
 func (s *SIPRequest) ToUser() *SIPUser {
 
diff --git a/sips/user.go b/sips/user.go
index b3892fa..4fc6ca5 100644
--- a/sips/user.go
+++ b/sips/user.go
@@ -50,6 +50,7 @@ func NewSIPUser(uri string) *SIPUser {
 	pos, state := 0, _FieldBase
 
 	var name, user, host, port []byte
+	var at bool
 
 	for pos < len(uri) && uri[pos] != ';' {
 
@@ -93,6 +94,7 @@ func NewSIPUser(uri string) *SIPUser {
 		case _FieldUser:
 
 			if uri[pos] == '@' {
+				at = true
 				state = _FieldHost
 				pos++
 				continue
@@ -114,6 +116,11 @@ func NewSIPUser(uri string) *SIPUser {
 		pos++
 	}
 
+	// a URI without '@' has no user part, except for telephone numbers
+	if !at && su.URIType != "tel" {
+		user, host, port = splitHost(user)
+	}
+
 	if su.URIType == "" {
 		su.URIType = "sip"
 	}
@@ -153,7 +160,9 @@ func (s *SIPUser) Bytes() []byte {
 	buf.WriteString(s.URIType)
 	buf.WriteString(":")
 	buf.WriteString(s.User)
-	buf.WriteString("@")
+	if len(s.User) > 0 && len(s.Host) > 0 {
+		buf.WriteString("@")
+	}
 	buf.WriteString(s.Host)
 
 	if len(s.Port) > 0 {
-- 
2.43.0


From 372b2e19870792a3707049209b7dae04bbbab3cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:28 +0000
Subject: [PATCH 40/64] fix: a sip header value folded right after its name
 began with a space

---
 sips/sips.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sips/sips.go b/sips/sips.go
index 4efee47..958c71e 100644
--- a/sips/sips.go
+++ b/sips/sips.go
@@ -210,12 +210,15 @@ func (s *SIP) ParseHeader(header []byte) {
 	if header[0] == '\t' || header[0] == ' ' {
 
 		// There is no header to continue
-		if len(s.Headers[s.lastHeaderParsed]) == 0 {
+		values := s.Headers[s.lastHeaderParsed]
+		if len(values) == 0 {
 			return
 		}
 
+		// The folding counts as a single space, except at the ends of the value
+		last := len(values) - 1
 		header = bytes.TrimSpace(header)
-		s.Headers[s.lastHeaderParsed][len(s.Headers[s.lastHeaderParsed])-1] += fmt.Sprintf(" %s", string(header))
+		values[last] = strings.TrimSpace(fmt.Sprintf("%s %s", values[last], string(header)))
 		return
 	}
 
-- 
2.43.0


From 455f0cc6140d9546dabe25c78996bacba67f0549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:24 +0000
Subject: [PATCH 41/64] fix: IPv6 references in sip addresses were cut at their
 first colon

---
 sips/request.go | 17 ++++++++++++-----
 sips/user.go    |  2 +-
 sips/via.go     |  2 +-
 3 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/sips/request.go b/sips/request.go
index ce839e6..93adbb7 100644
--- a/sips/request.go
+++ b/sips/request.go
@@ -79,7 +79,7 @@ func NewSIPRequest(uri string) *SIPRequest {
 			user = append(user, uri[pos])
 		case _FieldHost:
 
-			if uri[pos] == ':' {
+			if uri[pos] == ':' && hostEnds(host) {
 				state = _FieldPort
 				pos++
 				continue
@@ -145,12 +145,19 @@ func (s *SIPRequest) String() string {
 // splitHost takes the part of a URI without a user as host and port
 func splitHost(s []byte) (user, host, port []byte) {
 
-	i := bytes.IndexByte(s, ':')
-	if i < 0 {
-		return nil, s, nil
+	for i := range s {
+		if s[i] == ':' && hostEnds(s[:i]) {
+			return nil, s[:i], s[i+1:]
+		}
 	}
 
-	return nil, s[:i], s[i+1:]
+	return nil, s, nil
+}
+
+// hostEnds tells whether a colon behind host starts the port, which the colons
+// inside of an IPv6 reference do not
+func hostEnds(host []byte) bool {
+	return len(host) == 0 || host[0] != '[' || host[len(host)-1] == ']'
 }
 
 // ToUser transform SIPRequest struct to SIPUser struct
diff --git a/sips/user.go b/sips/user.go
index 4fc6ca5..57c77ea 100644
--- a/sips/user.go
+++ b/sips/user.go
@@ -102,7 +102,7 @@ func NewSIPUser(uri string) *SIPUser {
 			user = append(user, uri[pos])
 		case _FieldHost:
 
-			if uri[pos] == ':' {
+			if uri[pos] == ':' && hostEnds(host) {
 				state = _FieldPort
 				pos++
 				continue
diff --git a/sips/via.go b/sips/via.go
index 18c90de..6b5002d 100644
--- a/sips/via.go
+++ b/sips/via.go
@@ -75,7 +75,7 @@ func NewSIPVia(uri string) *SIPVia {
 			}
 		case _FieldHost:
 
-			if uri[pos] == ':' {
+			if uri[pos] == ':' && hostEnds(host) {
 				state = _FieldPort
 				pos++
 				continue
-- 
2.43.0


From 60e74045949f6772e7709d12a92cdf18c4a41234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:25 +0000
Subject: [PATCH 42/64] fix: the beginning of other transports than UDP, TCP,
 TLS and SCTP was taken for the host of a via

---
 sips/via.go | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/sips/via.go b/sips/via.go
index 6b5002d..7142801 100644
--- a/sips/via.go
+++ b/sips/via.go
@@ -1,7 +1,10 @@
 // sips ref https://github.com/marv2097/siprocket/blob/master/sipVia.go
 package sips
 
-import "bytes"
+import (
+	"bytes"
+	"strings"
+)
 
 // SIPVia a single line that is in the format of a Via line
 //
@@ -59,19 +62,14 @@ func NewSIPVia(uri string) *SIPVia {
 				state = _FieldHost
 				pos = pos + 8
 
-				str = Substring(uri, pos, pos+3)
-				if str == "UDP" || str == "TCP" || str == "TLS" {
-					sv.Trans = str
-					pos = pos + 3
-					continue
-				}
-
-				str = Substring(uri, pos, pos+4)
-				if str == "SCTP" {
-					sv.Trans = str
-					pos = pos + 4
-					continue
+				// the transport is any token, e.g. UDP, TLS-SCTP or WSS
+				end := pos
+				for end < len(uri) && !strings.ContainsRune(" \t;", rune(uri[end])) {
+					end++
 				}
+				sv.Trans = uri[pos:end]
+				pos = end
+				continue
 			}
 		case _FieldHost:
 
-- 
2.43.0


From 824ae593e1567918a37500c482529e4983814ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:59 +0000
Subject: [PATCH 43/64] fix: the parameters of a via were overwritten by the
 ones listed behind it

---
 sips/base.go | 19 +++++++++++++++++++
 sips/via.go  |  3 +++
 2 files changed, 22 insertions(+)

diff --git a/sips/base.go b/sips/base.go
index 57e9156..55c9133 100644
--- a/sips/base.go
+++ b/sips/base.go
@@ -31,6 +31,25 @@ func (b *BaseLayer) LayerContents() []byte { return b.Contents }
 // LayerPayload returns the bytes contained within the packet layer.
 func (b *BaseLayer) LayerPayload() []byte { return b.Payload }
 
+// firstOfList gets the first element of a comma separated list
+func firstOfList(v string) string {
+
+	var quote bool
+
+	for i := 0; i < len(v); i++ {
+		switch {
+		case v[i] == '\\' && quote:
+			i++
+		case v[i] == '"':
+			quote = !quote
+		case v[i] == ',' && !quote:
+			return v[:i]
+		}
+	}
+
+	return v
+}
+
 // Substring gets a string from a slice of bytes
 // Checks the bounds to avoid any range errors
 func Substring(v string, from, to int) string {
diff --git a/sips/via.go b/sips/via.go
index 7142801..7aba560 100644
--- a/sips/via.go
+++ b/sips/via.go
@@ -38,6 +38,9 @@ func NewSIPVia(uri string) *SIPVia {
 	}
 	pos, state := 0, _FieldBase
 
+	// several fields may be listed in one line, the first one counts
+	uri = firstOfList(uri)
+
 	var host, port []byte
 
 	for pos < len(uri) && uri[pos] != ';' {
-- 
2.43.0


From 8743bcc5784de3381566498cabecf9ac94661969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:59 +0000
Subject: [PATCH 44/64] fix: quoted sip display names ended at a semicolon and
 kept their escapes

---
 sips/user.go | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/sips/user.go b/sips/user.go
index 57c77ea..1dc4f9a 100644
--- a/sips/user.go
+++ b/sips/user.go
@@ -52,6 +52,11 @@ func NewSIPUser(uri string) *SIPUser {
 	var name, user, host, port []byte
 	var at bool
 
+	// a quoted display name may contain anything
+	if q, n := quotedName(uri); n > 0 {
+		name, pos = q, n
+	}
+
 	for pos < len(uri) && uri[pos] != ';' {
 
 		if uri[pos] == '>' || (uri[pos] == ' ' && state != _FieldName) {
@@ -140,6 +145,29 @@ func NewSIPUser(uri string) *SIPUser {
 	return su
 }
 
+// quotedName gets the display name in quotes that uri begins with, and where it ends
+func quotedName(uri string) ([]byte, int) {
+
+	var name []byte
+
+	start := len(uri) - len(strings.TrimLeft(uri, " \t"))
+	if start == len(uri) || uri[start] != '"' {
+		return nil, 0
+	}
+
+	for i := start + 1; i < len(uri); i++ {
+		switch {
+		case uri[i] == '"':
+			return name, i + 1
+		case uri[i] == '\\' && i+1 < len(uri):
+			i++
+		}
+		name = append(name, uri[i])
+	}
+
+	return nil, 0
+}
+
 // Bytes package SIPUser struct into slice
 func (s *SIPUser) Bytes() []byte {
 
-- 
2.43.0


From 9c618c434b12c3041c53043caa1b7945ce1f1e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:00 +0000
Subject: [PATCH 45/64] fix: the last parameter of a sip URI in angle brackets
 kept the bracket

---
 sips/user.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sips/user.go b/sips/user.go
index 1dc4f9a..9507b22 100644
--- a/sips/user.go
+++ b/sips/user.go
@@ -139,7 +139,13 @@ func NewSIPUser(uri string) *SIPUser {
 	}
 
 	if pos < len(uri) {
-		su.Args = ParseArgs(uri[pos:])
+		args := uri[pos:]
+
+		// parameters of the URI itself end with its bracket
+		if strings.LastIndexByte(uri[:pos], '<') > strings.LastIndexByte(uri[:pos], '>') {
+			args = strings.Replace(args, ">", "", 1)
+		}
+		su.Args = ParseArgs(args)
 	}
 
 	return su
-- 
2.43.0


From 0bf8c85fb3ae7b07810ae458faeb0577303d0861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:01 +0000
Subject: [PATCH 46/64] fix: spaces around the equals sign of a sip parameter
 were kept

---
 sips/header_args.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sips/header_args.go b/sips/header_args.go
index 74f9beb..e1f0876 100644
--- a/sips/header_args.go
+++ b/sips/header_args.go
@@ -28,11 +28,11 @@ func ParseArgsPairs(value string) Args {
 		if i := strings.Index(pair, "="); i < 0 {
 			m[pair] = ""
 		} else {
-			v := pair[i+1:]
+			v := strings.TrimSpace(pair[i+1:])
 			if len(v) >= 2 && v[0] == '"' && v[len(v)-1] == '"' {
 				v = v[1 : len(v)-1]
 			}
-			m[pair[:i]] = v
+			m[strings.TrimSpace(pair[:i])] = v
 		}
 	}
 	return m
-- 
2.43.0


From 2e60d20f1d1cc6cc2f4600358bc187a2f64339e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:01 +0000
Subject: [PATCH 47/64] fix: tabs and repeated spaces inside sip addresses,
 vias and cseqs were kept

---
 sips/cseq.go | 9 ++++++---
 sips/user.go | 2 +-
 sips/via.go  | 2 +-
 3 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/sips/cseq.go b/sips/cseq.go
index 9e3fbde..367b03a 100644
--- a/sips/cseq.go
+++ b/sips/cseq.go
@@ -1,6 +1,9 @@
 package sips
 
-import "bytes"
+import (
+	"bytes"
+	"strings"
+)
 
 // SIPCseq The CSeq header field serves as a way to identify and order
 // transactions.  It consists of a sequence number and a method.  The
@@ -34,7 +37,7 @@ func NewSIPCseq(uri string) *SIPCseq {
 		switch state {
 		case _FieldID:
 
-			if uri[pos] == ' ' {
+			if uri[pos] == ' ' || uri[pos] == '\t' {
 				state = _FieldMethod
 				pos++
 				continue
@@ -49,7 +52,7 @@ func NewSIPCseq(uri string) *SIPCseq {
 	}
 
 	sc.ID = string(id)
-	sc.Method = string(method)
+	sc.Method = strings.TrimSpace(string(method))
 
 	return sc
 }
diff --git a/sips/user.go b/sips/user.go
index 9507b22..5159f80 100644
--- a/sips/user.go
+++ b/sips/user.go
@@ -59,7 +59,7 @@ func NewSIPUser(uri string) *SIPUser {
 
 	for pos < len(uri) && uri[pos] != ';' {
 
-		if uri[pos] == '>' || (uri[pos] == ' ' && state != _FieldName) {
+		if uri[pos] == '>' || ((uri[pos] == ' ' || uri[pos] == '\t') && state != _FieldName) {
 			state = _FieldBase
 			pos++
 			continue
diff --git a/sips/via.go b/sips/via.go
index 7aba560..a6bc19b 100644
--- a/sips/via.go
+++ b/sips/via.go
@@ -45,7 +45,7 @@ func NewSIPVia(uri string) *SIPVia {
 
 	for pos < len(uri) && uri[pos] != ';' {
 
-		if uri[pos] == ' ' {
+		if uri[pos] == ' ' || uri[pos] == '\t' {
 			pos++
 			continue
 		}
-- 
2.43.0


From 8f38297afdb282d17ab255933f62fe7132ce1931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:02 +0000
Subject: [PATCH 48/64] fix: copied sip headers lost all values but the first

---
 sips/header.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sips/header.go b/sips/header.go
index 68a6789..ad47956 100644
--- a/sips/header.go
+++ b/sips/header.go
@@ -163,6 +163,11 @@ func (s SIPHeader) GetExpires() string {
 func (s SIPHeader) CopyFrom(src SIPHeader, names ...string) {
 	for _, v := range names {
 		s.SetFirstHeader(v, src.GetFirstHeader(v))
+
+		// a header may have several values, e.g. one via for every hop
+		if h := src.GetHeader(v); len(h) > 1 {
+			s[strings.ToLower(v)] = append([]string(nil), h...)
+		}
 	}
 }
 
-- 
2.43.0


From 80372a05ae9bc2a997515e3451753b370a923a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:13 +0000
Subject: [PATCH 49/64] fix: accept SIP URI schemes in any case

A scheme is case-insensitive (RFC 3261 19.1.4), but SIP:bob@biloxi.com was read
as a URI without user and host, and in an address it ended up in the display
name.
---
 sips/request.go | 9 +++++----
 sips/user.go    | 9 +++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/sips/request.go b/sips/request.go
index 93adbb7..f9983dc 100644
--- a/sips/request.go
+++ b/sips/request.go
@@ -54,18 +54,19 @@ func NewSIPRequest(uri string) *SIPRequest {
 		switch state {
 		case _FieldBase:
 
-			str := Substring(uri, pos, pos+4)
+			// the scheme is case-insensitive
+			str := strings.ToLower(Substring(uri, pos, pos+4))
 			if str == "sip:" || str == "tel:" {
 				state = _FieldUser
-				sr.URIType = uri[pos : pos+3]
+				sr.URIType = str[:3]
 				pos = pos + 4
 				continue
 			}
 
-			str = Substring(uri, pos, pos+5)
+			str = strings.ToLower(Substring(uri, pos, pos+5))
 			if str == "sips:" {
 				state = _FieldUser
-				sr.URIType = uri[pos : pos+4]
+				sr.URIType = str[:4]
 				pos = pos + 5
 				continue
 			}
diff --git a/sips/user.go b/sips/user.go
index 5159f80..861d6dc 100644
--- a/sips/user.go
+++ b/sips/user.go
@@ -68,18 +68,19 @@ func NewSIPUser(uri string) *SIPUser {
 		switch state {
 		case _FieldBase:
 
-			str := Substring(uri, pos, pos+4)
+			// the scheme is case-insensitive
+			str := strings.ToLower(Substring(uri, pos, pos+4))
 			if str == "sip:" || str == "tel:" {
 				state = _FieldUser
-				su.URIType = uri[pos : pos+3]
+				su.URIType = str[:3]
 				pos = pos + 4
 				continue
 			}
 
-			str = Substring(uri, pos, pos+5)
+			str = strings.ToLower(Substring(uri, pos, pos+5))
 			if str == "sips:" {
 				state = _FieldUser
-				su.URIType = uri[pos : pos+4]
+				su.URIType = str[:4]
 				pos = pos + 5
 				continue
 			}
-- 
2.43.0


From f4a04fca6cc11ae35b7179dd6e49c2232f5f52df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:31 +0000
Subject: [PATCH 50/64] fix: allow ; in the user part of SIP URIs

The user part may contain ; (RFC 3261 25.1), but sip:alice;day=tue@atlanta.com
was read as the host alice with a parameter day=tue@atlanta.com.
---
 sips/request.go |  5 ++++-
 sips/user.go    | 10 +++++++++-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/sips/request.go b/sips/request.go
index f9983dc..17a0eb7 100644
--- a/sips/request.go
+++ b/sips/request.go
@@ -49,7 +49,10 @@ func NewSIPRequest(uri string) *SIPRequest {
 
 	var user, host, port []byte
 
-	for pos < len(uri) && uri[pos] != ';' {
+	// the user part may contain ';'
+	userEnd := strings.IndexByte(uri, '@')
+
+	for pos < len(uri) && (uri[pos] != ';' || (state == _FieldUser && pos < userEnd)) {
 
 		switch state {
 		case _FieldBase:
diff --git a/sips/user.go b/sips/user.go
index 861d6dc..be2fd06 100644
--- a/sips/user.go
+++ b/sips/user.go
@@ -57,7 +57,15 @@ func NewSIPUser(uri string) *SIPUser {
 		name, pos = q, n
 	}
 
-	for pos < len(uri) && uri[pos] != ';' {
+	// the user part of a URI in brackets may contain ';'
+	userEnd := pos
+	if open := strings.IndexByte(uri[pos:], '<'); open >= 0 {
+		if end := strings.IndexByte(uri[pos+open:], '>'); end >= 0 {
+			userEnd = strings.LastIndexByte(uri[:pos+open+end], '@')
+		}
+	}
+
+	for pos < len(uri) && (uri[pos] != ';' || (state == _FieldUser && pos < userEnd)) {
 
 		if uri[pos] == '>' || ((uri[pos] == ' ' || uri[pos] == '\t') && state != _FieldName) {
 			state = _FieldBase
-- 
2.43.0


From d11dc28d1c1f35dc22923de215a4d37b21b09f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:33 +0000
Subject: [PATCH 51/64] fix: keep the values of a SIP header together when both
 of its names are used

A message with Via and v lines, as proxies that use the compact form produce,
lost all but the full ones: GetHeader and CopyFrom returned only these, and the
first Via was not the topmost one.
---
 sips/header.go | 19 +++++++++++++++++++
 sips/sips.go   |  3 +++
 2 files changed, 22 insertions(+)

diff --git a/sips/header.go b/sips/header.go
index ad47956..8b38fa5 100644
--- a/sips/header.go
+++ b/sips/header.go
@@ -59,6 +59,25 @@ func (s SIPHeader) GetHeader(headerName string) []string {
 	return h
 }
 
+// receivedAs returns the name under which the header is kept, which is its
+// other form if values have already come under that
+func (s SIPHeader) receivedAs(headerName string) string {
+	if compact, ok := compactSipHeadersCorrespondence[headerName]; ok {
+		if len(s[compact]) > 0 {
+			return compact
+		}
+		return headerName
+	}
+	if len(headerName) == 1 {
+		for name, compact := range compactSipHeadersCorrespondence {
+			if compact == headerName && len(s[name]) > 0 {
+				return name
+			}
+		}
+	}
+	return headerName
+}
+
 // GetFirstHeader will return the first header with
 // the specified name. If the current SIP packet has multiple
 // headers with the same name, it returns the first.
diff --git a/sips/sips.go b/sips/sips.go
index 958c71e..44927f9 100644
--- a/sips/sips.go
+++ b/sips/sips.go
@@ -229,6 +229,9 @@ func (s *SIP) ParseHeader(header []byte) {
 		headerName := strings.ToLower(string(bytes.Trim(header[:index], " \t")))
 		headerValue := string(bytes.Trim(header[index+1:], " \t"))
 
+		// A header may come under both of its names in one message
+		headerName = s.Headers.receivedAs(headerName)
+
 		// Add header to object
 		s.Headers[headerName] = append(s.Headers[headerName], headerValue)
 		s.lastHeaderParsed = headerName
-- 
2.43.0


From 2820cb2ba99553c4909d321338f51c54264ee6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:00 +0000
Subject: [PATCH 52/64] fix: keep the milliseconds of AMF dates

---
 amf/amf0.go   | 2 +-
 amf/amf3.go   | 7 ++++---
 amf/helper.go | 6 ++++++
 3 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/amf/amf0.go b/amf/amf0.go
index 47c7f90..81cef8c 100755
--- a/amf/amf0.go
+++ b/amf/amf0.go
@@ -629,7 +629,7 @@ func (ed *EnDecAMF0) encodeDate(w io.Writer, val time.Time) (int, error) {
 	n := 1
 
 	// the date marker is followed by the bare double, without a number marker
-	err = binary.Write(w, binary.BigEndian, float64(val.Unix())*1000.0)
+	err = binary.Write(w, binary.BigEndian, toMilliseconds(val))
 	if err != nil {
 		return 0, err
 	}
diff --git a/amf/amf3.go b/amf/amf3.go
index 5630795..9f374d2 100755
--- a/amf/amf3.go
+++ b/amf/amf3.go
@@ -231,8 +231,9 @@ func (ed *EnDecAMF3) decodeDate(r io.Reader) (time.Time, error) {
 		return time.Time{}, fmt.Errorf("unable to read double: %s", err)
 	}
 
-	// 将毫秒转换为秒
-	result := time.Unix(int64(f64/1000), 0).UTC()
+	// 数值的单位是毫秒
+	ms := int64(f64)
+	result := time.Unix(ms/1000, ms%1000*int64(time.Millisecond)).UTC()
 	ed.deObjTable = append(ed.deObjTable, result)
 
 	return result, nil
@@ -740,7 +741,7 @@ func (ed *EnDecAMF3) encodeDate(w io.Writer, val time.Time) (int, error) {
 	}
 	n++
 
-	u64 := float64(val.Unix()) * 1000.0
+	u64 := toMilliseconds(val)
 	err = binary.Write(w, binary.BigEndian, &u64)
 	if err != nil {
 		return 0, err
diff --git a/amf/helper.go b/amf/helper.go
index 9a87f44..2d6b011 100755
--- a/amf/helper.go
+++ b/amf/helper.go
@@ -3,6 +3,7 @@ package amf
 import (
 	"fmt"
 	"io"
+	"time"
 )
 
 // Array AMF数组接口
@@ -106,3 +107,8 @@ func nextByteMustBe(r io.Reader, target byte) error {
 
 	return nil
 }
+
+// 日期以毫秒为单位(自1970年1月1日起)
+func toMilliseconds(t time.Time) float64 {
+	return float64(t.Unix())*1000 + float64(t.Nanosecond()/int(time.Millisecond))
+}
-- 
2.43.0


From fad93a72dcff58028fc9f70c0c0b4a6697b2123f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:35 +0000
Subject: [PATCH 53/64] fix: refuse a network name that does not fit its
 descriptor

---
 container/ts/table/descriptor.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/container/ts/table/descriptor.go b/container/ts/table/descriptor.go
index 8ff3e97..5a4781e 100644
--- a/container/ts/table/descriptor.go
+++ b/container/ts/table/descriptor.go
@@ -66,6 +66,12 @@ func (d *Descriptor) Service(serviceType byte, serviceProviderName string, servi
 // NetworkName 网络名称
 func (d *Descriptor) NetworkName(name string) error {
 	nameLen := len(name)
+
+	// 描述符的长度只有一个字节
+	if nameLen > 0xff {
+		return errors.New("network name descriptor is too long")
+	}
+
 	descriptorLen := byte(nameLen)
 
 	_, err := d.data.Write([]byte{0x40, descriptorLen})
-- 
2.43.0


From 0073487bb823caeff6bbd30a0a45d59fb654b011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:17 +0000
Subject: [PATCH 54/64] fix: amf0 property and type names beyond 65535 bytes
 put the stream out of step

---
 amf/amf0.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/amf/amf0.go b/amf/amf0.go
index 81cef8c..bcfd93e 100755
--- a/amf/amf0.go
+++ b/amf/amf0.go
@@ -514,6 +514,11 @@ func (ed *EnDecAMF0) encodeString(w io.Writer, val string, encodeMarker bool) (i
 	var n int
 	var err error
 
+	// 长度只有2个字节
+	if len(val) > 65535 {
+		return 0, fmt.Errorf("string is too long(%d)", len(val))
+	}
+
 	if encodeMarker {
 		err = writeByte(w, stringMarkerOnAMF0)
 		if err != nil {
-- 
2.43.0


From 38642a6ea921395619ef2d27301512df69b3fb17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:18 +0000
Subject: [PATCH 55/64] fix: amf0 property with an empty name was taken for the
 end of its object

---
 amf/amf0.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/amf/amf0.go b/amf/amf0.go
index bcfd93e..437f573 100755
--- a/amf/amf0.go
+++ b/amf/amf0.go
@@ -2,6 +2,7 @@ package amf
 
 import (
 	"encoding/binary"
+	"errors"
 	"fmt"
 	"io"
 	"reflect"
@@ -557,6 +558,11 @@ func (ed *EnDecAMF0) encodeObject(w io.Writer, val Object, encodeMarker bool) (i
 
 	var m = 0
 	for k, v := range val {
+		// 空的key会被当作结束符
+		if k == "" {
+			return 0, errors.New("property name is empty")
+		}
+
 		// 数组key
 		m, err = ed.encodeString(w, k, false)
 		if err != nil {
-- 
2.43.0


From 5425c9c4e5392a1f713d4c6500fa6377e976ffc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:17 +0000
Subject: [PATCH 56/64] fix: sip lines longer than the buffer of the reader
 ended the message

---
 sips/sips.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sips/sips.go b/sips/sips.go
index 44927f9..17b82e3 100644
--- a/sips/sips.go
+++ b/sips/sips.go
@@ -115,14 +115,14 @@ func (s *SIP) Parse(r *bufio.Reader) error {
 
 	for {
 
-		// Read next line
-		line, err := r.ReadSlice(byte('\n'))
+		// Read next line, which may be longer than the buffer of the reader
+		line, err := r.ReadBytes(byte('\n'))
 		if err != nil {
 			if err != io.EOF {
 				return err
 			}
 
-			// ReadSlice返回EOF时line可能不为空，因此仍需收尾
+			// ReadBytes返回EOF时line可能不为空，因此仍需收尾
 			if len(line) == 0 {
 				break
 			}
-- 
2.43.0


From 6bd1a3480980cb606c65b2709bf1895d9e627e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:51 +0000
Subject: [PATCH 57/64] fix: a sip body that arrived whole was lost if the
 connection failed with its last bytes

---
 sips/sips.go | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/sips/sips.go b/sips/sips.go
index 17b82e3..2db4cbb 100644
--- a/sips/sips.go
+++ b/sips/sips.go
@@ -83,23 +83,17 @@ func (s *SIP) fillBody(r *bufio.Reader) ([]byte, error) {
 		buf := make([]byte, block)
 
 		n, err := r.Read(buf)
+
+		// the last bytes of the body may come together with an error
+		size -= n
+		body = append(body, buf[:n]...)
 		if err != nil {
-			if err != io.EOF {
+			if err != io.EOF && size > 0 {
 				return nil, err
 			}
 
-			if n == 0 {
-				break
-			}
-
-			// save remain byte
-			size -= n
-			body = append(body, buf[:n]...)
 			break
 		}
-
-		size -= n
-		body = append(body, buf[:n]...)
 	}
 
 	return body, nil
-- 
2.43.0


From 565020bd88f7798a943272eb73f9017cbb0653f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:38 +0000
Subject: [PATCH 58/64] fix: sip display names and parameters were quoted with
 the escapes of Go

---
 sips/base.go        | 11 +++++++++++
 sips/header_args.go |  3 +--
 sips/user.go        |  3 +--
 3 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/sips/base.go b/sips/base.go
index 55c9133..6ba5aef 100644
--- a/sips/base.go
+++ b/sips/base.go
@@ -1,6 +1,8 @@
 // sips from https://github.com/google/gopacket/blob/master/layers/base.go
 package sips
 
+import "strings"
+
 // field token
 const (
 	_FieldBase = iota
@@ -31,6 +33,15 @@ func (b *BaseLayer) LayerContents() []byte { return b.Contents }
 // LayerPayload returns the bytes contained within the packet layer.
 func (b *BaseLayer) LayerPayload() []byte { return b.Payload }
 
+// a backslash hides the character that follows it, line breaks cannot be hidden
+var quoteReplacer = strings.NewReplacer(`\`, `\\`, `"`, `\"`, "\r", " ", "\n", " ")
+
+// quoteString gets v as a quoted string (RFC 3261 - 25.1), where escapes
+// stand for the character itself, unlike those of Go
+func quoteString(v string) string {
+	return `"` + quoteReplacer.Replace(v) + `"`
+}
+
 // firstOfList gets the first element of a comma separated list
 func firstOfList(v string) string {
 
diff --git a/sips/header_args.go b/sips/header_args.go
index e1f0876..faf610a 100644
--- a/sips/header_args.go
+++ b/sips/header_args.go
@@ -4,7 +4,6 @@ package sips
 
 import (
 	"bytes"
-	"strconv"
 	"strings"
 )
 
@@ -129,7 +128,7 @@ func (a Args) CommaString() string {
 
 	var result string
 	for key, value := range a {
-		result += key + "=" + strconv.Quote(value) + ", "
+		result += key + "=" + quoteString(value) + ", "
 	}
 	return result[:len(result)-2]
 }
diff --git a/sips/user.go b/sips/user.go
index be2fd06..a97509f 100644
--- a/sips/user.go
+++ b/sips/user.go
@@ -6,7 +6,6 @@ package sips
 
 import (
 	"bytes"
-	"strconv"
 	"strings"
 )
 
@@ -193,7 +192,7 @@ func (s *SIPUser) Bytes() []byte {
 		if s.Name == "Anonymous" {
 			buf.WriteString(s.Name)
 		} else {
-			buf.WriteString(strconv.Quote(s.Name))
+			buf.WriteString(quoteString(s.Name))
 		}
 
 		buf.WriteString(" ")
-- 
2.43.0


From 39d1f4b07beb789b063dbcf6fe1ce1b2c032ee54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:37 +0000
Subject: [PATCH 59/64] fix: a sip via with white space around its slashes or
 in lower case was lost

---
 sips/via.go | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/sips/via.go b/sips/via.go
index a6bc19b..1478ba1 100644
--- a/sips/via.go
+++ b/sips/via.go
@@ -59,11 +59,10 @@ func NewSIPVia(uri string) *SIPVia {
 			// contain a branch parameter.  This parameter is used to identify the
 			// transaction created by that request.  This parameter is used by both
 			// the client and the server.
-			str := Substring(uri, pos, pos+8)
-			if str == "SIP/2.0/" {
+			if n := protocolEnd(uri[pos:]); n > 0 {
 
 				state = _FieldHost
-				pos = pos + 8
+				pos = pos + n
 
 				// the transport is any token, e.g. UDP, TLS-SCTP or WSS
 				end := pos
@@ -100,6 +99,22 @@ func NewSIPVia(uri string) *SIPVia {
 	return sv
 }
 
+// protocolEnd gets the length of the "SIP/2.0/" at the start of v, which may be
+// written in any case and with white space around its slashes, 0 without it
+func protocolEnd(v string) int {
+
+	rest := v
+	for _, part := range []string{"SIP", "/", "2.0", "/"} {
+		rest = strings.TrimLeft(rest, " \t")
+		if !strings.EqualFold(Substring(rest, 0, len(part)), part) {
+			return 0
+		}
+		rest = rest[len(part):]
+	}
+
+	return len(v) - len(strings.TrimLeft(rest, " \t"))
+}
+
 // Bytes package SIPVia struct into slice
 func (s *SIPVia) Bytes() []byte {
 
-- 
2.43.0


From 69897d1667190b05d605a735fe410452a5e11cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:57 +0000
Subject: [PATCH 60/64] fix: a sip status line with its version in lower case
 was refused

---
 sips/request.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sips/request.go b/sips/request.go
index 17a0eb7..5a7cee8 100644
--- a/sips/request.go
+++ b/sips/request.go
@@ -199,8 +199,8 @@ func (s *SIP) ParseFirstLine(firstLine []byte) error {
 		return fmt.Errorf("invalid first SIP line: '%s'", string(firstLine))
 	}
 
-	// Determine the SIP packet type
-	if strings.HasPrefix(splits[0], "SIP") {
+	// Determine the SIP packet type, the version is case-insensitive
+	if strings.HasPrefix(strings.ToUpper(splits[0]), "SIP/") {
 
 		// --> Response
 		s.IsResponse = true
-- 
2.43.0


From ef327cdd43dad3450c4fd8ae8ed5fc832b17172f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:21 +0000
Subject: [PATCH 61/64] fix: the nalu length size of the avc sequence header
 was not honoured

---
 parser/h264/parser.go | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/parser/h264/parser.go b/parser/h264/parser.go
index 4cc6518..35b2b29 100755
--- a/parser/h264/parser.go
+++ b/parser/h264/parser.go
@@ -11,12 +11,14 @@ import (
 type Parser struct {
 	specificInfo []byte        /* {0: sps, 1: pps}, 均包含start code */
 	spsPps       *bytes.Buffer /* sps和pps共用, 均包含start code */
+	naluLen      int           /* [AVCC格式]nalu长度字段的字节数, 由序列头给出 */
 }
 
 // NewParser 初始化h264解析器(pps/sps)
 func NewParser() *Parser {
 	return &Parser{
-		spsPps: bytes.NewBuffer(make([]byte, maxSpsPpsLen)),
+		spsPps:  bytes.NewBuffer(make([]byte, maxSpsPpsLen)),
+		naluLen: naluBytesLen,
 	}
 }
 
@@ -118,6 +120,7 @@ func (p *Parser) parseSpecificInfo(src []byte) error {
 
 	// 向specificInfo填充SPS和PPS
 	p.specificInfo = append(sps, pps...)
+	p.naluLen = int(seq.naluLen)
 
 	return nil
 }
@@ -133,12 +136,12 @@ func (p *Parser) isStartAtNaluHeader(src []byte) bool {
 
 // [AVCC格式] 提取NALU的长度
 func (p *Parser) naluSize(src []byte) (int, error) {
-	if len(src) < naluBytesLen {
+	if len(src) < p.naluLen {
 		return 0, errors.New("[hvcc]incomplete nalu data")
 	}
 
-	// [0:31] nalu单元的长度，不包括长度字段
-	buf := src[:naluBytesLen]
+	// nalu单元的长度，不包括长度字段
+	buf := src[:p.naluLen]
 	l := len(buf)
 
 	var size = 0
@@ -153,7 +156,7 @@ func (p *Parser) naluSize(src []byte) (int, error) {
 func (p *Parser) getAnnexbH264(src []byte, w io.Writer) error {
 	dataSize := len(src)
 
-	if dataSize == 0 || dataSize < naluBytesLen {
+	if dataSize == 0 || dataSize < p.naluLen {
 		return errors.New("incomplete h264 header")
 	}
 
@@ -182,8 +185,8 @@ func (p *Parser) getAnnexbH264(src []byte, w io.Writer) error {
 			return errors.New("invalid nalu body size")
 		}
 
-		index += naluBytesLen
-		dataSize -= naluBytesLen
+		index += p.naluLen
+		dataSize -= p.naluLen
 
 		// 紧跟着 Nalu size 后面的是 NALU 数据，没有四个字节 start code，直接从 h264 头开始
 		if dataSize < nalLen {
-- 
2.43.0


From 4e4686c492ea9c5cdab954f182cd71aa39e87fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:43 +0000
Subject: [PATCH 62/64] fix: an amf0 boolean of another value than one was read
 as false

---
 amf/amf0.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/amf/amf0.go b/amf/amf0.go
index 437f573..68fc136 100755
--- a/amf/amf0.go
+++ b/amf/amf0.go
@@ -76,14 +76,14 @@ func (ed *EnDecAMF0) decodeValue(r io.Reader, marker byte) (interface{}, error)
 		return f64, nil
 	case booleanMarkerOnAMF0:
 		// marker: 1 byte 0x01
-		// format: 1 byte, 0x00 = false, 0x01 = true
+		// format: 1 byte, 0x00 = false, 其余 = true
 		var flag byte
 		flag, err = readByte(r)
 		if err != nil {
 			return nil, err
 		}
 
-		return flag == 1, nil
+		return flag != 0, nil
 	case stringMarkerOnAMF0:
 		return ed.decodeString(r)
 	case objectMarkerOnAMF0:
-- 
2.43.0


From 9b53bfbcc80a4f39d6360ee188dc63bfb2c59119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:52 +0000
Subject: [PATCH 63/64] fix: a folded sip header took memory and time with the
 square of its length

---
 sips/sips.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/sips/sips.go b/sips/sips.go
index 2db4cbb..7e328a4 100644
--- a/sips/sips.go
+++ b/sips/sips.go
@@ -106,6 +106,7 @@ func (s *SIP) Parse(r *bufio.Reader) error {
 	var countLines int
 	var offset int
 	var buffer []byte
+	var header []byte
 
 	for {
 
@@ -150,12 +151,20 @@ func (s *SIP) Parse(r *bufio.Reader) error {
 				return err
 			}
 
+		} else if len(header) > 0 && (line[0] == ' ' || line[0] == '\t') {
+
+			// The folding counts as a single space, except at the ends of the value
+			if fold := bytes.TrimSpace(line); len(fold) > 0 {
+				header = append(append(bytes.TrimRight(header, " \t"), ' '), fold...)
+			}
 		} else {
-			s.ParseHeader(line)
+			s.ParseHeader(header)
+			header = line
 		}
 
 		countLines++
 	}
+	s.ParseHeader(header)
 
 	s.fillHeader()
 
-- 
2.43.0


From c69b81306f0eec27956290c865e59e49bc061de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:02 +0000
Subject: [PATCH 64/64] fix: refuse AAC channel configurations an ADTS header
 cannot express

---
 parser/aac/parser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser/aac/parser.go b/parser/aac/parser.go
index 972c02f..deaf4fd 100755
--- a/parser/aac/parser.go
+++ b/parser/aac/parser.go
@@ -64,6 +64,11 @@ func (p *Parser) specificInfo(src []byte) error {
 		return errors.New("incompatible extension sampling frequency")
 	}
 
+	// adts头的声道配置只有3位
+	if (src[1]>>3)&0x0f > 7 {
+		return errors.New("incompatible channel configuration")
+	}
+
 	// 填充数据
 	p.gotSpecific = true
 	p.cfgInfo.objectType = (src[0] >> 3) & 0xff                    /* [0:4]编码类型 */
-- 
2.43.0

