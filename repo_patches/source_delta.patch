From 4d340a6bc6ae7a611b5553133f9191184a45e64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:13 +0000
Subject: [PATCH 01/41] fix: keep the packer's first write error (methods need
 a pointer receiver)

---
 msgpack.go | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/msgpack.go b/msgpack.go
index 1af483e..041da6d 100644
--- a/msgpack.go
+++ b/msgpack.go
@@ -191,31 +191,31 @@ func MessagePacker(w io.Writer) *messagePacker {
 	return &messagePacker{w: w}
 }
 
-func (p messagePacker) PackNil()  {
+func (p *messagePacker) PackNil()  {
 	if p.err == nil {
 		_, p.err = p.w.Write(p.m.WriteNil())
 	}
 }
 
-func (p messagePacker) PackBool(val bool) {
+func (p *messagePacker) PackBool(val bool) {
 	if p.err == nil {
 		_, p.err = p.w.Write(p.m.WriteBool(val))
 	}
 }
 
-func (p messagePacker) PackLong(val int64) {
+func (p *messagePacker) PackLong(val int64) {
 	if p.err == nil {
 		_, p.err = p.w.Write(p.m.WriteLong(val))
 	}
 }
 
-func (p messagePacker) PackDouble(val float64) {
+func (p *messagePacker) PackDouble(val float64) {
 	if p.err == nil {
 		_, p.err = p.w.Write(p.m.WriteDouble(val))
 	}
 }
 
-func (p messagePacker) PackStr(str string) {
+func (p *messagePacker) PackStr(str string) {
 	b := []byte(str)
 	if p.err == nil {
 		_, p.err = p.w.Write(p.m.WriteStrHeader(len(b)))
@@ -225,7 +225,7 @@ func (p messagePacker) PackStr(str string) {
 	}
 }
 
-func (p messagePacker) PackBin(b []byte) {
+func (p *messagePacker) PackBin(b []byte) {
 	if p.err == nil {
 		_, p.err = p.w.Write(p.m.WriteBinHeader(len(b)))
 	}
@@ -243,7 +243,7 @@ func (p *messagePacker) PackExt(xtag Ext, data []byte) {
 	}
 }
 
-func (p messagePacker) PackList(size int) {
+func (p *messagePacker) PackList(size int) {
 	if size < 0 {
 		size = 0
 	}
@@ -252,7 +252,7 @@ func (p messagePacker) PackList(size int) {
 	}
 }
 
-func (p messagePacker) PackMap(size int) {
+func (p *messagePacker) PackMap(size int) {
 	if size < 0 {
 		size = 0
 	}
@@ -261,13 +261,13 @@ func (p messagePacker) PackMap(size int) {
 	}
 }
 
-func (p messagePacker) PackRaw(b []byte) {
+func (p *messagePacker) PackRaw(b []byte) {
 	if p.err == nil {
 		_, p.err = p.w.Write(b)
 	}
 }
 
-func (p messagePacker) Error() error {
+func (p *messagePacker) Error() error {
 	return p.err
 }
 
-- 
2.43.0


From e8ea9f5926cf434d1b9f3cef8ebedc57967a9612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:14 +0000
Subject: [PATCH 02/41] fix: write long list headers with the array 32 code

---
 msgpack.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msgpack.go b/msgpack.go
index 041da6d..b8a6404 100644
--- a/msgpack.go
+++ b/msgpack.go
@@ -434,7 +434,7 @@ func (p messageWriter) WriteArrayHeader(len int) []byte {
 		binary.BigEndian.PutUint16(p.buf[1:3], uint16(len))
 		return p.buf[:3]
 	default:
-		p.buf[0] = mpArray16
+		p.buf[0] = mpArray32
 		binary.BigEndian.PutUint32(p.buf[1:5], uint32(len))
 		return p.buf[:5]
 	}
-- 
2.43.0


From 1c143182e877fa270de1372eed0d2421867958fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:15 +0000
Subject: [PATCH 03/41] fix: accept readers that do not implement io.ByteReader

---
 msgpack.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/msgpack.go b/msgpack.go
index b8a6404..3f8ac5a 100644
--- a/msgpack.go
+++ b/msgpack.go
@@ -693,7 +693,8 @@ type messageIOUnpacker struct {
 }
 
 func MessageReader(r io.Reader) *messageIOUnpacker {
-	return &messageIOUnpacker{r: r, br: r.(io.ByteReader)}
+	br, _ := r.(io.ByteReader)
+	return &messageIOUnpacker{r: r, br: br}
 }
 
 func (p *messageIOUnpacker) Next() (Format, []byte) {
-- 
2.43.0


From 4ff9cd7ce51c577c9bddd357010edff5c89cc812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:17 +0000
Subject: [PATCH 04/41] fix: reassemble headers and bodies from short reads

---
 msgpack.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/msgpack.go b/msgpack.go
index 3f8ac5a..d2da017 100644
--- a/msgpack.go
+++ b/msgpack.go
@@ -706,7 +706,7 @@ func (p *messageIOUnpacker) Next() (Format, []byte) {
 		}
 		p.buf[0] = code
 	}  else {
-		n, _ := p.r.Read(p.buf[:1])
+		n, _ := io.ReadFull(p.r, p.buf[:1])
 		if n == 0 {
 			return EOF, nil
 		}
@@ -715,7 +715,7 @@ func (p *messageIOUnpacker) Next() (Format, []byte) {
 	format, len := nextFormat(p.buf[0])
 	n := 1 + len
 
-	m, _ := p.r.Read(p.buf[1:n])
+	m, _ := io.ReadFull(p.r, p.buf[1:n])
 	if m != len {
 		return UnexpectedEOF, nil
 	}
@@ -725,9 +725,9 @@ func (p *messageIOUnpacker) Next() (Format, []byte) {
 
 func (p *messageIOUnpacker) Read(n int) (b []byte, err error) {
 	b = make([]byte, n)
-	m, err := p.r.Read(b)
+	m, err := io.ReadFull(p.r, b)
 	if m != n {
-		if err == nil {
+		if err == nil || err == io.EOF {
 			err = io.ErrUnexpectedEOF
 		}
 	}
-- 
2.43.0


From 1711ed6388dd9677551ea1ecc09c86749f41db9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:36 +0000
Subject: [PATCH 05/41] fix: decode maps mixing integer and other keys without
 a nil dereference

---
 unpack.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/unpack.go b/unpack.go
index 10ad764..e68a227 100644
--- a/unpack.go
+++ b/unpack.go
@@ -148,13 +148,12 @@ func doParseMap(header []byte, unpacker Unpacker, parser Parser) (Value, error)
 				mayBeList = false
 				sortedMapEntries = make([]MapEntry, cnt)
 				for j := 0; j < i; j++ {
-					item := sparseListItems[i]
-					sortedMapEntries[i] = ImmutableEntry(strconv.Itoa(item.Key()), item.Value())
+					item := sparseListItems[j]
+					sortedMapEntries[j] = ImmutableEntry(strconv.Itoa(item.Key()), item.Value())
 				}
+				// string order of the keys is not the order of the indexes
+				sorted = false
 				k := key.String()
-				if i > 0 && prevMapKey > k {
-					sorted = false
-				}
 				sortedMapEntries[i] = ImmutableEntry(k, value)
 				prevMapKey = k
 			}
-- 
2.43.0


From 8074c110a852cb80a27a0fd0c530ffa55eb77743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:38 +0000
Subject: [PATCH 06/41] fix: do not truncate non-integer map keys into list
 indexes

---
 unpack.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/unpack.go b/unpack.go
index e68a227..94c9ff1 100644
--- a/unpack.go
+++ b/unpack.go
@@ -124,7 +124,7 @@ func doParseMap(header []byte, unpacker Unpacker, parser Parser) (Value, error)
 
 		// first element
 		if i == 0 {
-			if key.Kind() == NUMBER {
+			if isIndexKey(key) {
 				// try to build sparse list
 				mayBeList = true
 				sparseListItems = make([]ListItem, cnt)
@@ -136,7 +136,7 @@ func doParseMap(header []byte, unpacker Unpacker, parser Parser) (Value, error)
 
 		if mayBeList {
 
-			if key.Kind() == NUMBER {
+			if isIndexKey(key) {
 				k := key.(Number).Long()
 				if i > 0 && prevListKey > k {
 					sorted = false
@@ -177,6 +177,11 @@ func doParseMap(header []byte, unpacker Unpacker, parser Parser) (Value, error)
 
 }
 
+func isIndexKey(key Value) bool {
+	num, ok := key.(Number)
+	return ok && num.Type() == LONG
+}
+
 func doParseExt(tagAndData []byte) (Value, error) {
 	xtag := Ext(tagAndData[0])
 	ext := tagAndData[1:]
-- 
2.43.0


From 639624ec2311153e6b5f6ab8a75dc03372b1336a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:39 +0000
Subject: [PATCH 07/41] fix: report unsigned integers that overflow int64

---
 msgpack.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/msgpack.go b/msgpack.go
index d2da017..7459fd7 100644
--- a/msgpack.go
+++ b/msgpack.go
@@ -491,7 +491,12 @@ func (r *messageParser) ParseLong(b []byte) int64 {
 	case mpUint32:
 		return int64(binary.BigEndian.Uint32(b[1:]))
 	case mpUint64:
-		return int64(binary.BigEndian.Uint64(b[1:]))
+		val := binary.BigEndian.Uint64(b[1:])
+		if val > math.MaxInt64 {
+			r.err = errors.Errorf("long: value %v overflows int64", val)
+			return 0
+		}
+		return int64(val)
 	case mpInt8:
 		return int64(int8(b[1]))
 	case mpInt16:
-- 
2.43.0


From 0519e0638163083ce1843df7114b8da4cb65288f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:02 +0000
Subject: [PATCH 08/41] fix: reject the reserved MessagePack code 0xc1

---
 msgpack.go | 2 +-
 pack.go    | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/msgpack.go b/msgpack.go
index 7459fd7..ac21bbd 100644
--- a/msgpack.go
+++ b/msgpack.go
@@ -89,7 +89,7 @@ var (
 	mpCodeFormat = []Format {
 
 		NilToken, 	// mpNil        0xc0
-		NilToken,     // mpNeverUsed  0xc1
+		InvalidToken, // mpNeverUsed  0xc1
 		BoolToken, 	// mpFalse      0xc2
 		BoolToken, 	// mpTrue       0xc3
 
diff --git a/pack.go b/pack.go
index 3735bbd..2966722 100644
--- a/pack.go
+++ b/pack.go
@@ -91,6 +91,7 @@ const (
 	ListHeader
 	MapHeader
 	ExtHeader
+	InvalidToken
 )
 
 type Unpacker interface {
-- 
2.43.0


From 4def214a8b71f1e5ff7df32bf85b4d6590cdb0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:03 +0000
Subject: [PATCH 09/41] fix: do not keep the unpacker's header buffer in
 unknown extensions

---
 unpack.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/unpack.go b/unpack.go
index 94c9ff1..0d4d7d1 100644
--- a/unpack.go
+++ b/unpack.go
@@ -32,7 +32,11 @@ func doParse(unpacker Unpacker, parser Parser) (Value, error) {
 		return Double(parser.ParseDouble(header)), parser.Error()
 	case FixExtToken:
 		_, tagAndData := parser.ParseExt(header)
-		return doParseExt(tagAndData)
+		if parser.Error() != nil {
+			return nil, parser.Error()
+		}
+		// the header belongs to the unpacker
+		return doParseExt(append([]byte(nil), tagAndData...))
 	case BinHeader:
 		size := parser.ParseBin(header)
 		if parser.Error() != nil {
-- 
2.43.0


From a9924868f229d8c8e554d3b3ef2fc7407e44bd8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:03 +0000
Subject: [PATCH 10/41] fix: report sealed messages shorter than a nonce

---
 utils.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/utils.go b/utils.go
index 3a0a323..72739b8 100644
--- a/utils.go
+++ b/utils.go
@@ -90,6 +90,9 @@ var ErrUnseal = errors.New("unseal error")
 
 func Unseal(encrypted []byte, senderPublicKey, recipientPrivateKey *[32]byte) (Value, error) {
 	var decryptNonce [24]byte
+	if len(encrypted) < len(decryptNonce) {
+		return nil, ErrUnseal
+	}
 	copy(decryptNonce[:], encrypted[:24])
 	decrypted, ok := box.Open(nil, encrypted[24:], &decryptNonce, senderPublicKey, recipientPrivateKey)
 	if !ok {
-- 
2.43.0


From 16d6a9d8fabb7bca9301de8adf8e7e804c068cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:04 +0000
Subject: [PATCH 11/41] fix: compare nil and Null equal in both argument orders

---
 utils.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils.go b/utils.go
index 72739b8..343d1ec 100644
--- a/utils.go
+++ b/utils.go
@@ -103,7 +103,7 @@ func Unseal(encrypted []byte, senderPublicKey, recipientPrivateKey *[32]byte) (V
 
 func Equal(left Value, right Value) bool {
 	if left == nil {
-		return right == nil
+		return right == nil || right.Kind() == NULL
 	}
 	return left.Equal(right)
 }
-- 
2.43.0


From 664c929b0fc599cec0062a9fde9eedb530912443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:18 +0000
Subject: [PATCH 12/41] fix: write nil values as nil instead of panicking

---
 utils.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/utils.go b/utils.go
index 343d1ec..625c82b 100644
--- a/utils.go
+++ b/utils.go
@@ -41,7 +41,11 @@ func Read(r io.Reader) (Value, error) {
 
 func Write(w io.Writer, val Value) error {
 	p := MessagePacker(w)
-	val.Pack(p)
+	if val != nil {
+		val.Pack(p)
+	} else {
+		p.PackNil()
+	}
 	return p.Error()
 }
 
@@ -123,7 +127,11 @@ func WriteStream(w io.Writer, valueC <-chan Value) error {
 			break
 		}
 
-		val.Pack(p)
+		if val != nil {
+			val.Pack(p)
+		} else {
+			p.PackNil()
+		}
 
 	}
 
-- 
2.43.0


From 71534888575ad763f1a9f14d751f0f742107431c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:19 +0000
Subject: [PATCH 13/41] fix: do not hand out the shared nil and bool token
 bytes

---
 bool.go | 2 +-
 null.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bool.go b/bool.go
index 0f2ae96..5d96d7b 100644
--- a/bool.go
+++ b/bool.go
@@ -62,7 +62,7 @@ func (b boolValue) MarshalJSON() ([]byte, error) {
 
 func (b boolValue) MarshalBinary() ([]byte, error) {
 	var m messageWriter
-	return m.WriteBool(bool(b)), nil
+	return append([]byte(nil), m.WriteBool(bool(b))...), nil
 }
 
 func (b boolValue) Equal(val Value) bool {
diff --git a/null.go b/null.go
index 5d1ee8f..f1b85a3 100644
--- a/null.go
+++ b/null.go
@@ -57,7 +57,7 @@ func (n nullValue) MarshalJSON() ([]byte, error) {
 
 func (n nullValue) MarshalBinary() ([]byte, error) {
 	var m messageWriter
-	return m.WriteNil(), nil
+	return append([]byte(nil), m.WriteNil()...), nil
 }
 
 func (n nullValue) Equal(val Value) bool {
-- 
2.43.0


From 121ce0e986bf1af7d728d8620eefde9c768175cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:20 +0000
Subject: [PATCH 14/41] fix: compare text strings with the bytes of raw strings

---
 string.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/string.go b/string.go
index 441535b..7211f3c 100644
--- a/string.go
+++ b/string.go
@@ -85,7 +85,7 @@ func (s uft8String) Equal(val Value) bool {
 	if val == nil || val.Kind() != STRING {
 		return false
 	}
-	return string(s) == val.String()
+	return string(s) == val.(String).Utf8()
 }
 
 func (s uft8String) Len() int {
-- 
2.43.0


From 0a66ba00e5407195f63d1cd0c02c08fe6102a704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:21 +0000
Subject: [PATCH 15/41] fix: escape strings by the rules of JSON

---
 string.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/string.go b/string.go
index 7211f3c..7078fdb 100644
--- a/string.go
+++ b/string.go
@@ -9,9 +9,9 @@ package value
 import (
 	"bytes"
 	"encoding/base64"
+	"encoding/json"
 	"fmt"
 	"reflect"
-	"strconv"
 	"strings"
 )
 
@@ -66,12 +66,22 @@ func (s uft8String) Pack(p Packer) {
 	p.PackStr(string(s))
 }
 
+func quoteJSON(s string) string {
+	var out bytes.Buffer
+	enc := json.NewEncoder(&out)
+	enc.SetEscapeHTML(false)
+	if err := enc.Encode(s); err != nil {
+		return `""`
+	}
+	return strings.TrimSuffix(out.String(), "\n")
+}
+
 func (s uft8String) PrintJSON(out *strings.Builder) {
-	out.WriteString(strconv.Quote(string(s)))
+	out.WriteString(quoteJSON(string(s)))
 }
 
 func (s uft8String) MarshalJSON() ([]byte, error) {
-	return []byte(strconv.Quote(string(s))), nil
+	return []byte(quoteJSON(string(s))), nil
 }
 
 func (s uft8String) MarshalBinary() ([]byte, error) {
-- 
2.43.0


From 29980a7f54c82de621d4c6e08a8903cb0b8df554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:11 +0000
Subject: [PATCH 16/41] fix: print infinities as null in JSON

---
 number.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/number.go b/number.go
index 858e894..e73851e 100644
--- a/number.go
+++ b/number.go
@@ -349,7 +349,7 @@ func (n longNumber) PrintJSON(out *strings.Builder) {
 
 func (n doubleNumber) PrintJSON(out *strings.Builder) {
 	d := float64(n)
-	if math.IsNaN(d) {
+	if math.IsNaN(d) || math.IsInf(d, 0) {
 		out.WriteString("null")
 	} else {
 		out.WriteString(strconv.FormatFloat(d, 'f', -1, 64))
@@ -374,7 +374,7 @@ func (n longNumber) MarshalJSON() ([]byte, error) {
 
 func (n doubleNumber) MarshalJSON() ([]byte, error) {
 	d := float64(n)
-	if math.IsNaN(d) {
+	if math.IsNaN(d) || math.IsInf(d, 0) {
 		return []byte("null"), nil
 	} else {
 		return []byte(strconv.FormatFloat(d, 'f', -1, 64)), nil
-- 
2.43.0


From 6d070d797414ca3cf4458e9aa30f47586d05812f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:12 +0000
Subject: [PATCH 17/41] fix: do not panic on hex exponents longer than four
 bytes

---
 number.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/number.go b/number.go
index e73851e..d47e0a0 100644
--- a/number.go
+++ b/number.go
@@ -288,6 +288,9 @@ func parseExp(s string) (int32, error) {
 		return 0, err
 	}
 	var buf [4]byte
+	if len(bytes) > len(buf) {
+		return 0, strconv.ErrRange
+	}
 	copy(buf[len(buf)-len(bytes):], bytes)
 	val := int32(binary.BigEndian.Uint32(buf[:]))
 	if neg {
-- 
2.43.0


From 17598cdfffb7df366237c75b2502f327ff618c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:13 +0000
Subject: [PATCH 18/41] fix: convert infinities to integers and decimals
 without nil or panic

---
 number.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/number.go b/number.go
index d47e0a0..576d80a 100644
--- a/number.go
+++ b/number.go
@@ -482,7 +482,7 @@ func (n longNumber) BigInt() *big.Int {
 
 func (n doubleNumber) BigInt() *big.Int {
 	d := float64(n)
-	if math.IsNaN(d) {
+	if math.IsNaN(d) || math.IsInf(d, 0) {
 		return big.NewInt(0)
 	}
 	f := new(big.Float)
@@ -505,7 +505,7 @@ func (n longNumber) Decimal() decimal.Decimal {
 
 func (n doubleNumber) Decimal() decimal.Decimal {
 	d := float64(n)
-	if math.IsNaN(d) {
+	if math.IsNaN(d) || math.IsInf(d, 0) {
 		return decimal.NewFromInt(0)
 	}
 	return decimal.NewFromFloat(d)
-- 
2.43.0


From 348b6e0aee404a0bd12982277be63ccd543d2b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:14 +0000
Subject: [PATCH 19/41] fix: keep the exponent when a decimal is converted to
 an integer

---
 number.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/number.go b/number.go
index 576d80a..f1a6da6 100644
--- a/number.go
+++ b/number.go
@@ -496,7 +496,7 @@ func (n bigIntNumber) BigInt() *big.Int {
 }
 
 func (n decimalNumber) BigInt() *big.Int {
-	return decimal.Decimal(n).Floor().Coefficient()
+	return decimal.Decimal(n).Floor().BigInt()
 }
 
 func (n longNumber) Decimal() decimal.Decimal {
-- 
2.43.0


From b55490815dc3888841c23df48db0e6c3bce69a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:16 +0000
Subject: [PATCH 20/41] fix: compare numbers of different types without
 truncation, in either order

---
 number.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/number.go b/number.go
index f1a6da6..08cb76c 100644
--- a/number.go
+++ b/number.go
@@ -572,6 +572,9 @@ func (n longNumber) Equal(val Value) bool {
 		return false
 	}
 	other := val.(Number)
+	if other.Type() != LONG {
+		return other.Equal(n)
+	}
 	return n.Long() == other.Long()
 }
 
@@ -583,6 +586,10 @@ func (n doubleNumber) Equal(val Value) bool {
 	if n.IsNaN() || other.IsNaN() {
 		return false
 	}
+	left, right := n.Double(), other.Double()
+	if math.IsInf(left, 0) || math.IsInf(right, 0) {
+		return other.Type() == DOUBLE && left == right
+	}
 	return  math.Abs(n.Double() - other.Double()) < PrecisionLevel
 }
 
@@ -591,6 +598,9 @@ func (n bigIntNumber) Equal(val Value) bool {
 		return false
 	}
 	other := val.(Number)
+	if t := other.Type(); t == DOUBLE || t == DECIMAL {
+		return other.Equal(n)
+	}
 	return n.Int.Cmp(other.BigInt()) == 0
 }
 
@@ -599,6 +609,9 @@ func (n decimalNumber) Equal(val Value) bool {
 		return false
 	}
 	other := val.(Number)
+	if other.Type() == DOUBLE {
+		return other.Equal(n)
+	}
 	return n.Decimal().Cmp(other.Decimal()) == 0
 }
 
-- 
2.43.0


From ecbec4f4bd850ce47cb700666c73b81825caf3aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:17 +0000
Subject: [PATCH 21/41] fix: name the NULL kind

---
 api.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/api.go b/api.go
index 8c36e57..dc64ffd 100644
--- a/api.go
+++ b/api.go
@@ -39,6 +39,8 @@ func (k Kind) String() string {
 	switch k {
 	case INVALID:
 		return "INVALID"
+	case NULL:
+		return "NULL"
 	case BOOL:
 		return "BOOL"
 	case NUMBER:
-- 
2.43.0


From f68b25c9adc7b854bd726f5670868374cd582f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:28 +0000
Subject: [PATCH 22/41] fix: do not panic on an unknown extension without a tag

---
 unknown.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/unknown.go b/unknown.go
index cc72427..9618fb9 100644
--- a/unknown.go
+++ b/unknown.go
@@ -42,10 +42,16 @@ func (v unknownValue) String() string {
 }
 
 func (x unknownValue) Tag() Ext {
+	if len(x) == 0 {
+		return UnknownExt
+	}
 	return Ext(x[0])
 }
 
 func (x unknownValue) Data() []byte {
+	if len(x) == 0 {
+		return nil
+	}
 	return x[1:]
 }
 
-- 
2.43.0


From 2fd187b80f27492b19996945d6d2a0fdaa8c78a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:57 +0000
Subject: [PATCH 23/41] fix: treat empty slots as absent in the typed getters

---
 immutablelist.go | 10 +++++-----
 immutablemap.go  | 10 +++++-----
 solidlist.go     | 10 +++++-----
 sortedmap.go     | 10 +++++-----
 sparselist.go    | 10 +++++-----
 5 files changed, 25 insertions(+), 25 deletions(-)

diff --git a/immutablelist.go b/immutablelist.go
index a1f2c36..27df64a 100644
--- a/immutablelist.go
+++ b/immutablelist.go
@@ -137,7 +137,7 @@ func (t immutableListValue) GetAt(i int) Value {
 
 func (t immutableListValue) GetBoolAt(index int) Bool {
 	value := t.GetAt(index)
-	if value != Null {
+	if value != nil && value != Null {
 		if value.Kind() == BOOL {
 			return value.(Bool)
 		}
@@ -148,7 +148,7 @@ func (t immutableListValue) GetBoolAt(index int) Bool {
 
 func (t immutableListValue) GetNumberAt(index int) Number {
 	value := t.GetAt(index)
-	if value != Null {
+	if value != nil && value != Null {
 		if value.Kind() == NUMBER {
 			return value.(Number)
 		}
@@ -159,7 +159,7 @@ func (t immutableListValue) GetNumberAt(index int) Number {
 
 func (t immutableListValue) GetStringAt(index int) String {
 	value := t.GetAt(index)
-	if value != Null {
+	if value != nil && value != Null {
 		if value.Kind() == STRING {
 			return value.(String)
 		}
@@ -170,7 +170,7 @@ func (t immutableListValue) GetStringAt(index int) String {
 
 func (t immutableListValue) GetListAt(index int) List {
 	value := t.GetAt(index)
-	if value != Null {
+	if value != nil && value != Null {
 		switch value.Kind() {
 		case LIST:
 			return value.(List)
@@ -183,7 +183,7 @@ func (t immutableListValue) GetListAt(index int) List {
 
 func (t immutableListValue) GetMapAt(index int) Map {
 	value := t.GetAt(index)
-	if value != Null {
+	if value != nil && value != Null {
 		switch value.Kind() {
 		case LIST:
 			return ImmutableMap(value.(List).Entries(), false)
diff --git a/immutablemap.go b/immutablemap.go
index eb65218..1d25bda 100644
--- a/immutablemap.go
+++ b/immutablemap.go
@@ -194,7 +194,7 @@ func (t immutableMapValue) Get(key string) Value {
 
 func (t immutableMapValue) GetBool(key string) Bool {
 	value := t.Get(key)
-	if value != Null {
+	if value != nil && value != Null {
 		if value.Kind() == BOOL {
 			return value.(Bool)
 		}
@@ -205,7 +205,7 @@ func (t immutableMapValue) GetBool(key string) Bool {
 
 func (t immutableMapValue) GetNumber(key string) Number {
 	value := t.Get(key)
-	if value != Null {
+	if value != nil && value != Null {
 		if value.Kind() == NUMBER {
 			return value.(Number)
 		}
@@ -216,7 +216,7 @@ func (t immutableMapValue) GetNumber(key string) Number {
 
 func (t immutableMapValue) GetString(key string) String {
 	value := t.Get(key)
-	if value != Null {
+	if value != nil && value != Null {
 		if value.Kind() == STRING {
 			return value.(String)
 		}
@@ -227,7 +227,7 @@ func (t immutableMapValue) GetString(key string) String {
 
 func (t immutableMapValue) GetList(key string) List {
 	value := t.Get(key)
-	if value != Null {
+	if value != nil && value != Null {
 		switch value.Kind() {
 		case LIST:
 			return value.(List)
@@ -240,7 +240,7 @@ func (t immutableMapValue) GetList(key string) List {
 
 func (t immutableMapValue) GetMap(key string) Map {
 	value := t.Get(key)
-	if value != Null {
+	if value != nil && value != Null {
 		switch value.Kind() {
 		case LIST:
 			return ImmutableMap(value.(List).Entries(), false)
diff --git a/solidlist.go b/solidlist.go
index c3ab6e1..70c701c 100644
--- a/solidlist.go
+++ b/solidlist.go
@@ -145,7 +145,7 @@ func (t solidListValue) GetAt(i int) Value {
 
 func (t solidListValue) GetBoolAt(index int) Bool {
 	value := t.GetAt(index)
-	if value != Null {
+	if value != nil && value != Null {
 		if value.Kind() == BOOL {
 			return value.(Bool)
 		}
@@ -156,7 +156,7 @@ func (t solidListValue) GetBoolAt(index int) Bool {
 
 func (t solidListValue) GetNumberAt(index int) Number {
 	value := t.GetAt(index)
-	if value != Null {
+	if value != nil && value != Null {
 		if value.Kind() == NUMBER {
 			return value.(Number)
 		}
@@ -167,7 +167,7 @@ func (t solidListValue) GetNumberAt(index int) Number {
 
 func (t solidListValue) GetStringAt(index int) String {
 	value := t.GetAt(index)
-	if value != Null {
+	if value != nil && value != Null {
 		if value.Kind() == STRING {
 			return value.(String)
 		}
@@ -178,7 +178,7 @@ func (t solidListValue) GetStringAt(index int) String {
 
 func (t solidListValue) GetListAt(index int) List {
 	value := t.GetAt(index)
-	if value != Null {
+	if value != nil && value != Null {
 		switch value.Kind() {
 		case LIST:
 			return value.(List)
@@ -191,7 +191,7 @@ func (t solidListValue) GetListAt(index int) List {
 
 func (t solidListValue) GetMapAt(index int) Map {
 	value := t.GetAt(index)
-	if value != Null {
+	if value != nil && value != Null {
 		switch value.Kind() {
 		case LIST:
 			return SortedMap(value.(List).Entries(), false)
diff --git a/sortedmap.go b/sortedmap.go
index 36733c2..8639b48 100644
--- a/sortedmap.go
+++ b/sortedmap.go
@@ -195,7 +195,7 @@ func (t sortedMapValue) Get(key string) Value {
 
 func (t sortedMapValue) GetBool(key string) Bool {
 	value := t.Get(key)
-	if value != Null {
+	if value != nil && value != Null {
 		if value.Kind() == BOOL {
 			return value.(Bool)
 		}
@@ -206,7 +206,7 @@ func (t sortedMapValue) GetBool(key string) Bool {
 
 func (t sortedMapValue) GetNumber(key string) Number {
 	value := t.Get(key)
-	if value != Null {
+	if value != nil && value != Null {
 		if value.Kind() == NUMBER {
 			return value.(Number)
 		}
@@ -217,7 +217,7 @@ func (t sortedMapValue) GetNumber(key string) Number {
 
 func (t sortedMapValue) GetString(key string) String {
 	value := t.Get(key)
-	if value != Null {
+	if value != nil && value != Null {
 		if value.Kind() == STRING {
 			return value.(String)
 		}
@@ -228,7 +228,7 @@ func (t sortedMapValue) GetString(key string) String {
 
 func (t sortedMapValue) GetList(key string) List {
 	value := t.Get(key)
-	if value != Null {
+	if value != nil && value != Null {
 		switch value.Kind() {
 		case LIST:
 			return value.(List)
@@ -241,7 +241,7 @@ func (t sortedMapValue) GetList(key string) List {
 
 func (t sortedMapValue) GetMap(key string) Map {
 	value := t.Get(key)
-	if value != Null {
+	if value != nil && value != Null {
 		switch value.Kind() {
 		case LIST:
 			return SortedMap(value.(List).Entries(), false)
diff --git a/sparselist.go b/sparselist.go
index 47719a2..114e073 100644
--- a/sparselist.go
+++ b/sparselist.go
@@ -196,7 +196,7 @@ func (t sparseListValue) GetAt(key int) Value {
 
 func (t sparseListValue) GetBoolAt(index int) Bool {
 	value := t.GetAt(index)
-	if value != Null {
+	if value != nil && value != Null {
 		if value.Kind() == BOOL {
 			return value.(Bool)
 		}
@@ -207,7 +207,7 @@ func (t sparseListValue) GetBoolAt(index int) Bool {
 
 func (t sparseListValue) GetNumberAt(index int) Number {
 	value := t.GetAt(index)
-	if value != Null {
+	if value != nil && value != Null {
 		if value.Kind() == NUMBER {
 			return value.(Number)
 		}
@@ -218,7 +218,7 @@ func (t sparseListValue) GetNumberAt(index int) Number {
 
 func (t sparseListValue) GetStringAt(index int) String {
 	value := t.GetAt(index)
-	if value != Null {
+	if value != nil && value != Null {
 		if value.Kind() == STRING {
 			return value.(String)
 		}
@@ -229,7 +229,7 @@ func (t sparseListValue) GetStringAt(index int) String {
 
 func (t sparseListValue) GetListAt(index int) List {
 	value := t.GetAt(index)
-	if value != Null {
+	if value != nil && value != Null {
 		switch value.Kind() {
 		case LIST:
 			return value.(List)
@@ -242,7 +242,7 @@ func (t sparseListValue) GetListAt(index int) List {
 
 func (t sparseListValue) GetMapAt(index int) Map {
 	value := t.GetAt(index)
-	if value != Null {
+	if value != nil && value != Null {
 		switch value.Kind() {
 		case LIST:
 			return SortedMap(value.(List).Entries(), false)
-- 
2.43.0


From 204a821201b6db256c7ad483f8da7f0bf89ae3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:58 +0000
Subject: [PATCH 24/41] fix: do not write into the slice given to InsertAll

---
 immutablelist.go | 1 +
 immutablemap.go  | 1 +
 solidlist.go     | 1 +
 sortedmap.go     | 1 +
 sparselist.go    | 1 +
 5 files changed, 5 insertions(+)

diff --git a/immutablelist.go b/immutablelist.go
index 27df64a..ba37b15 100644
--- a/immutablelist.go
+++ b/immutablelist.go
@@ -313,6 +313,7 @@ func (t immutableListValue) InsertAll(i int, list []Value) List {
 		return t
 	}
 
+	list = CopyOf(list)
 	for k := range list {
 		if list[k] == nil {
 			list[k] = Null
diff --git a/immutablemap.go b/immutablemap.go
index 1d25bda..0ef816d 100644
--- a/immutablemap.go
+++ b/immutablemap.go
@@ -371,6 +371,7 @@ func (t immutableMapValue) InsertAll(key string, list []Value) Map {
 		return t
 	}
 
+	list = CopyOf(list)
 	for k := range list {
 		if list[k] == nil {
 			list[k] = Null
diff --git a/solidlist.go b/solidlist.go
index 70c701c..e3bd90d 100644
--- a/solidlist.go
+++ b/solidlist.go
@@ -320,6 +320,7 @@ func (t solidListValue) InsertAll(i int, list []Value) List {
 		return t
 	}
 
+	list = CopyOf(list)
 	for k := range list {
 		if list[k] == nil {
 			list[k] = Null
diff --git a/sortedmap.go b/sortedmap.go
index 8639b48..d95ae43 100644
--- a/sortedmap.go
+++ b/sortedmap.go
@@ -370,6 +370,7 @@ func (t sortedMapValue) InsertAll(key string, list []Value) Map {
 		return t
 	}
 
+	list = CopyOf(list)
 	for k := range list {
 		if list[k] == nil {
 			list[k] = Null
diff --git a/sparselist.go b/sparselist.go
index 114e073..29800e4 100644
--- a/sparselist.go
+++ b/sparselist.go
@@ -402,6 +402,7 @@ func (t sparseListValue) InsertAll(key int, list []Value) List {
 		return t
 	}
 
+	list = CopyOf(list)
 	for k := range list {
 		if list[k] == nil {
 			list[k] = Null
-- 
2.43.0


From b6b2c69deb75c58b293f7494f72a70faf922df62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:00 +0000
Subject: [PATCH 25/41] fix: escape map keys in JSON

---
 immutablemap.go | 4 +---
 sortedmap.go    | 4 +---
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/immutablemap.go b/immutablemap.go
index 0ef816d..b05df60 100644
--- a/immutablemap.go
+++ b/immutablemap.go
@@ -132,9 +132,7 @@ func (t immutableMapValue) PrintJSON(out *strings.Builder) {
 		if i != 0 {
 			out.WriteRune(',')
 		}
-		out.WriteRune(jsonQuote)
-		out.WriteString(entry.Key())
-		out.WriteRune(jsonQuote)
+		out.WriteString(quoteJSON(entry.Key()))
 
 		out.WriteString(": ")
 		value := entry.Value()
diff --git a/sortedmap.go b/sortedmap.go
index d95ae43..8640340 100644
--- a/sortedmap.go
+++ b/sortedmap.go
@@ -133,9 +133,7 @@ func (t sortedMapValue) PrintJSON(out *strings.Builder) {
 		if i != 0 {
 			out.WriteRune(',')
 		}
-		out.WriteRune(jsonQuote)
-		out.WriteString(entry.Key())
-		out.WriteRune(jsonQuote)
+		out.WriteString(quoteJSON(entry.Key()))
 
 		out.WriteString(": ")
 		value := entry.Value()
-- 
2.43.0


From a9e6ebb8d710c33701254c2ee218cc6a85a00d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:45 +0000
Subject: [PATCH 26/41] fix: compare sparse lists with differing item counts
 without index faults

---
 sparselist.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sparselist.go b/sparselist.go
index 29800e4..7f2c630 100644
--- a/sparselist.go
+++ b/sparselist.go
@@ -172,6 +172,9 @@ func (t sparseListValue) Equal(val Value) bool {
 	}
 	// entries are sorted
 	other := o.Items()
+	if len(t) != len(other) {
+		return false
+	}
 	for i, item := range t {
 		if !item.Equal(other[i]) {
 			return false
-- 
2.43.0


From 5c1b883ba3bee049837ac660c60ee94fd99b93b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:46 +0000
Subject: [PATCH 27/41] fix: support sparse lists with only negative indexes

---
 sparselist.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sparselist.go b/sparselist.go
index 7f2c630..2c583ac 100644
--- a/sparselist.go
+++ b/sparselist.go
@@ -91,6 +91,9 @@ func (t sparseListValue) Values() []Value {
 		return nil
 	}
 	maxKey := t[n-1].Key()
+	if maxKey < 0 {
+		return nil
+	}
 	values := make([]Value, maxKey+1)
 
 	for _, item := range t {
@@ -107,6 +110,9 @@ func (t sparseListValue) Len() int {
 		return 0
 	} else {
 		maxKey := t[n-1].Key()
+		if maxKey < 0 {
+			return 0
+		}
 		return maxKey+1
 	}
 }
-- 
2.43.0


From 8d49ece68a4b78c1781087e2123a386df25f2543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:47 +0000
Subject: [PATCH 28/41] fix: do not share updatable entries between copies of
 maps

---
 immutablemap.go | 3 +++
 sortedmap.go    | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/immutablemap.go b/immutablemap.go
index b05df60..d98f6ca 100644
--- a/immutablemap.go
+++ b/immutablemap.go
@@ -48,6 +48,9 @@ func ImmutableMap(entries []MapEntry, sorted bool) Map {
 
 func ImmutableMapCopyOf(other Map) Map {
 	t := immutableMapValue(mapEntryCopyOf(other.Entries()))
+	for i, entry := range t {
+		t[i] = ImmutableEntry(entry.Key(), entry.Value())
+	}
 	return t
 }
 
diff --git a/sortedmap.go b/sortedmap.go
index 8640340..dc02818 100644
--- a/sortedmap.go
+++ b/sortedmap.go
@@ -49,6 +49,9 @@ func SortedMap(entries []MapEntry, sorted bool) Map {
 
 func SortedMapCopyOf(other Map) Map {
 	t := sortedMapValue(mapEntryCopyOf(other.Entries()))
+	for i, entry := range t {
+		t[i] = MutableEntry(entry.Key(), entry.Value())
+	}
 	return t
 }
 
-- 
2.43.0


From b32a9a108373d4ffe1e1aed4d588b771319eff57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:49 +0000
Subject: [PATCH 29/41] fix: give immutable maps made from lists immutable
 entries

---
 immutablelist.go | 2 +-
 immutablemap.go  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/immutablelist.go b/immutablelist.go
index ba37b15..8c23185 100644
--- a/immutablelist.go
+++ b/immutablelist.go
@@ -186,7 +186,7 @@ func (t immutableListValue) GetMapAt(index int) Map {
 	if value != nil && value != Null {
 		switch value.Kind() {
 		case LIST:
-			return ImmutableMap(value.(List).Entries(), false)
+			return ImmutableMapCopyOf(ImmutableMap(value.(List).Entries(), false))
 		case MAP:
 			return value.(Map)
 		}
diff --git a/immutablemap.go b/immutablemap.go
index d98f6ca..585fb88 100644
--- a/immutablemap.go
+++ b/immutablemap.go
@@ -244,7 +244,7 @@ func (t immutableMapValue) GetMap(key string) Map {
 	if value != nil && value != Null {
 		switch value.Kind() {
 		case LIST:
-			return ImmutableMap(value.(List).Entries(), false)
+			return ImmutableMapCopyOf(ImmutableMap(value.(List).Entries(), false))
 		case MAP:
 			return value.(Map)
 		}
-- 
2.43.0


From 76d8ec462e5886bd780a8fd2385ba46e906c0728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:56 +0000
Subject: [PATCH 30/41] fix: keep the decoded elements of repeated value fields

---
 struct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/struct.go b/struct.go
index 8629bc5..8b3fbe2 100644
--- a/struct.go
+++ b/struct.go
@@ -310,7 +310,6 @@ func ParseStruct(unpacker Unpacker, parser Parser, value reflect.Value, schema *
 						}
 					} else {
 						elemValue = reflect.New(field.FieldType.Elem()).Elem()
-						sliceValue = reflect.Append(sliceValue, elemValue)
 						val, err := doParse(unpacker, parser)
 						if err != nil {
 							return errors.Errorf("fail to parse value %v", err)
@@ -319,6 +318,7 @@ func ParseStruct(unpacker Unpacker, parser Parser, value reflect.Value, schema *
 						if err != nil {
 							return errors.Errorf("fail to set value %v", err)
 						}
+						sliceValue = reflect.Append(sliceValue, elemValue)
 					}
 					fieldValue.Set(sliceValue)
 				}
-- 
2.43.0


From cd1fe1526d0f08a7e196e8a22f720e05e6085bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:58 +0000
Subject: [PATCH 31/41] fix: reject struct types using a tag twice

---
 struct.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/struct.go b/struct.go
index 8b3fbe2..b422a48 100644
--- a/struct.go
+++ b/struct.go
@@ -189,6 +189,9 @@ func doReflectSchema(classPtr reflect.Type) (*Schema, error) {
 		if err != nil {
 			return nil, errors.Errorf("invalid tag number '%s' in field '%s' in class '%v'", tagStr, field.Name, classPtr)
 		}
+		if _, ok := fields[tag]; ok {
+			return nil, errors.Errorf("duplicate tag %d in field '%s' in class '%v'", tag, field.Name, classPtr)
+		}
 		array := false
 		fieldType := field.Type
 		if field.Type.Kind() == reflect.Slice || field.Type.Kind() == reflect.Array {
-- 
2.43.0


From e72a99b00a06b7ea0103409775e8864b7a5dd786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:01 +0000
Subject: [PATCH 32/41] fix: grow array fields with the elements read, not with
 the announced count

---
 struct.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/struct.go b/struct.go
index b422a48..11f58c4 100644
--- a/struct.go
+++ b/struct.go
@@ -269,10 +269,13 @@ func ParseStruct(unpacker Unpacker, parser Parser, value reflect.Value, schema *
 						return errors.Errorf("expected ListHeader for array field, but got %v", listFormat)
 					}
 					listCnt := parser.ParseList(listHeader)
-					arrayType := reflect.ArrayOf(listCnt, field.FieldType.Elem())
-					arrayValue := reflect.New(arrayType).Elem()
+					if parser.Error() != nil {
+						return parser.Error()
+					}
+					arrayValue := reflect.MakeSlice(field.FieldType, 0, 0)
 
 					for j := 0; j < listCnt; j++ {
+						arrayValue = reflect.Append(arrayValue, reflect.Zero(field.FieldType.Elem()))
 						elemValue := arrayValue.Index(j)
 						if field.Struct {
 							structValue := reflect.New(elemValue.Type().Elem())
@@ -292,7 +295,7 @@ func ParseStruct(unpacker Unpacker, parser Parser, value reflect.Value, schema *
 							}
 						}
 					}
-					fieldValue.Set(arrayValue.Slice(0, listCnt))
+					fieldValue.Set(arrayValue)
 				} else {
 					var sliceValue reflect.Value
 					if !fieldValue.IsNil() {
-- 
2.43.0


From c0cc7090ec99da67b16982d50894c48c3ecb3fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:26 +0000
Subject: [PATCH 33/41] fix: do not truncate non-integer struct keys into tags

---
 struct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/struct.go b/struct.go
index 11f58c4..4a256e9 100644
--- a/struct.go
+++ b/struct.go
@@ -251,7 +251,7 @@ func ParseStruct(unpacker Unpacker, parser Parser, value reflect.Value, schema *
 		if err != nil {
 			return errors.Errorf("fail to parse key on position %d, %v", i, err)
 		}
-		if key.Kind() != NUMBER {
+		if !isIndexKey(key) {
 			return errors.Errorf("expected int key, but got %s on position %d", key.Kind().String(), i)
 		}
 		tag := int(key.(Number).Long())
-- 
2.43.0


From e94a5ac91088f112fcdda5c13eeeb98311f2b1e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:29 +0000
Subject: [PATCH 34/41] fix: report nil struct pointers instead of panicking

---
 struct.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/struct.go b/struct.go
index 4a256e9..64f9adb 100644
--- a/struct.go
+++ b/struct.go
@@ -33,6 +33,9 @@ func PackStruct(obj interface{}) ([]byte, error) {
 func UnpackStruct(buf []byte, obj interface{}, copy bool) error {
 	unpacker := MessageUnpacker(buf, copy)
 	parser := MessageParser()
+	if obj == nil {
+		return errors.New("nil instance is not allowed")
+	}
 	classPtr := reflect.TypeOf(obj)
 	if classPtr.Kind() != reflect.Ptr {
 		return errors.Errorf("non-pointer instance is not allowed in '%v'", classPtr)
@@ -41,12 +44,18 @@ func UnpackStruct(buf []byte, obj interface{}, copy bool) error {
 		return errors.Errorf("error on reflect schema for '%v', %v", classPtr, err)
 	} else {
 		valuePtr := reflect.ValueOf(obj)
+		if valuePtr.IsNil() {
+			return errors.Errorf("nil pointer is not allowed in '%v'", classPtr)
+		}
 		value := valuePtr.Elem()
 		return ParseStruct(unpacker, parser, value, schema)
 	}
 }
 
 func reflectPackStruct(p *messagePacker, obj interface{}) error {
+	if obj == nil {
+		return errors.New("nil instance is not allowed")
+	}
 	classPtr := reflect.TypeOf(obj)
 	if classPtr.Kind() != reflect.Ptr {
 		return errors.Errorf("non-pointer instance is not allowed in '%v'", classPtr)
@@ -56,6 +65,9 @@ func reflectPackStruct(p *messagePacker, obj interface{}) error {
 		return err
 	}
 	valuePtr := reflect.ValueOf(obj)
+	if valuePtr.IsNil() {
+		return errors.Errorf("nil pointer is not allowed in '%v'", classPtr)
+	}
 	value := valuePtr.Elem()
 	return doReflectPackStruct(p, value, schema)
 }
@@ -114,6 +126,9 @@ func doReflectPackStruct(p *messagePacker, value reflect.Value, schema *Schema)
 
 func doReflectPackValue(p *messagePacker, value reflect.Value, entry *packingField) error {
 	if entry.field.Struct {
+		if value.IsNil() {
+			return errors.Errorf("can not pack nil element of field %v", entry.field.FieldName)
+		}
 		if err := doReflectPackStruct(p, value.Elem(), entry.field.FieldSchema); err != nil {
 			return errors.Errorf("can not pack field %v, inner struct error %v", value, err)
 		}
-- 
2.43.0


From d0f015c5c7b895a63a0333961d6eba6b2e6fbd8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:32 +0000
Subject: [PATCH 35/41] fix: reject struct types with fields that can not be
 packed or set

---
 struct.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/struct.go b/struct.go
index 64f9adb..ddd80d6 100644
--- a/struct.go
+++ b/struct.go
@@ -190,6 +190,9 @@ func doReflectSchema(classPtr reflect.Type) (*Schema, error) {
 	fields := make(map[int]*Field)
 	var sortedFields []*Field
 	class := classPtr.Elem()
+	if class.Kind() != reflect.Struct {
+		return nil, errors.Errorf("non-struct type is not allowed in '%v'", classPtr)
+	}
 	for j := 0; j < class.NumField(); j++ {
 		field := class.Field(j)
 		repeated := false
@@ -200,6 +203,9 @@ func doReflectSchema(classPtr reflect.Type) (*Schema, error) {
 		if !ok {
 			return nil, errors.Errorf("no tag in field '%s' in class '%v'", field.Name, classPtr)
 		}
+		if field.PkgPath != "" {
+			return nil, errors.Errorf("unexported field '%s' in class '%v'", field.Name, classPtr)
+		}
 		tag, err := strconv.Atoi(tagStr)
 		if err != nil {
 			return nil, errors.Errorf("invalid tag number '%s' in field '%s' in class '%v'", tagStr, field.Name, classPtr)
@@ -209,7 +215,7 @@ func doReflectSchema(classPtr reflect.Type) (*Schema, error) {
 		}
 		array := false
 		fieldType := field.Type
-		if field.Type.Kind() == reflect.Slice || field.Type.Kind() == reflect.Array {
+		if field.Type.Kind() == reflect.Slice {
 			fieldType = fieldType.Elem()
 			array = true
 		}
-- 
2.43.0


From 30c9614d31fb6cf1ef2072dc0aa8a9c377d4ac7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:35 +0000
Subject: [PATCH 36/41] fix: reject recursive struct types instead of
 overflowing the stack

---
 struct.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/struct.go b/struct.go
index ddd80d6..76562bc 100644
--- a/struct.go
+++ b/struct.go
@@ -175,10 +175,10 @@ func (t sortableFields) Less(i, j int) bool {
 	return t[i].Tag < t[j].Tag
 }
 
-func reflectSchema(classPtr reflect.Type) (*Schema, error) {
+func reflectSchema(classPtr reflect.Type, parents ...reflect.Type) (*Schema, error) {
 	if val, ok := schemaCache.Load(classPtr); ok {
 		return val.(*Schema), nil
-	} else if schema, err := doReflectSchema(classPtr); err != nil {
+	} else if schema, err := doReflectSchema(classPtr, parents); err != nil {
 		return nil, err
 	} else {
 		schemaCache.Store(classPtr, schema)
@@ -186,7 +186,13 @@ func reflectSchema(classPtr reflect.Type) (*Schema, error) {
 	}
 }
 
-func doReflectSchema(classPtr reflect.Type) (*Schema, error) {
+func doReflectSchema(classPtr reflect.Type, parents []reflect.Type) (*Schema, error) {
+	for _, parent := range parents {
+		if parent == classPtr {
+			return nil, errors.Errorf("recursive type '%v' is not allowed", classPtr)
+		}
+	}
+	parents = append(parents, classPtr)
 	fields := make(map[int]*Field)
 	var sortedFields []*Field
 	class := classPtr.Elem()
@@ -233,7 +239,7 @@ func doReflectSchema(classPtr reflect.Type) (*Schema, error) {
 			sortedFields = append(sortedFields, f)
 		} else if fieldType.Kind() != reflect.Ptr {
 			return nil, errors.Errorf("tagged field '%s' in class '%v' with type '%v' does not implement value.Value interface and non-ptr", field.Name, field.Type, classPtr)
-		} else if fieldSchema, err := reflectSchema(fieldType); err != nil {
+		} else if fieldSchema, err := reflectSchema(fieldType, parents...); err != nil {
 			return nil, errors.Errorf("struct field '%s' in class '%v' has wrong schema, %v", field.Name, classPtr, err)
 		} else {
 			f := &Field{
-- 
2.43.0


From bf256e7be0dc3c66e4741ae7739dfe1021c5dc04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:00 +0000
Subject: [PATCH 37/41] fix: pack value fields of kinds that can not be nil

---
 struct.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/struct.go b/struct.go
index 76562bc..0e4f44f 100644
--- a/struct.go
+++ b/struct.go
@@ -85,7 +85,7 @@ func doReflectPackStruct(p *messagePacker, value reflect.Value, schema *Schema)
 			field: field,
 			fieldValue: value.Field(field.FieldNum),
 		}
-		if !f.fieldValue.IsNil() {
+		if !isNilField(f.fieldValue) {
 			list = append(list, f)
 			if f.field.Array && f.field.Repeated {
 				cnt += f.fieldValue.Len()
@@ -124,6 +124,15 @@ func doReflectPackStruct(p *messagePacker, value reflect.Value, schema *Schema)
 	return nil
 }
 
+func isNilField(value reflect.Value) bool {
+	switch value.Kind() {
+	case reflect.Interface, reflect.Ptr, reflect.Slice, reflect.Map, reflect.Chan, reflect.Func:
+		return value.IsNil()
+	default:
+		return false
+	}
+}
+
 func doReflectPackValue(p *messagePacker, value reflect.Value, entry *packingField) error {
 	if entry.field.Struct {
 		if value.IsNil() {
-- 
2.43.0


From 1e7322a3f5617b038e4353315569752f6c52a21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:01 +0000
Subject: [PATCH 38/41] fix: grow decoded values with the input read, not with
 announced lengths

---
 msgpack.go |  7 +++----
 unpack.go  | 15 ++++++---------
 2 files changed, 9 insertions(+), 13 deletions(-)

diff --git a/msgpack.go b/msgpack.go
index ac21bbd..1d1cbb1 100644
--- a/msgpack.go
+++ b/msgpack.go
@@ -729,10 +729,9 @@ func (p *messageIOUnpacker) Next() (Format, []byte) {
 }
 
 func (p *messageIOUnpacker) Read(n int) (b []byte, err error) {
-	b = make([]byte, n)
-	m, err := io.ReadFull(p.r, b)
-	if m != n {
-		if err == nil || err == io.EOF {
+	b, err = io.ReadAll(io.LimitReader(p.r, int64(n)))
+	if len(b) != n {
+		if err == nil {
 			err = io.ErrUnexpectedEOF
 		}
 	}
diff --git a/unpack.go b/unpack.go
index 0d4d7d1..70c9b2c 100644
--- a/unpack.go
+++ b/unpack.go
@@ -85,13 +85,13 @@ func doParseList(header []byte, unpacker Unpacker, parser Parser) (List, error)
 	if cnt == 0 {
 		return EmptyImmutableList(), nil
 	}
-	list := make([]Value, cnt)
+	var list []Value
 	for i := 0; i < cnt; i++ {
 		el, err := doParse(unpacker, parser)
 		if err != nil {
 			return nil, err
 		}
-		list[i] = el
+		list = append(list, el)
 	}
 	return ImmutableList(list), nil
 }
@@ -131,10 +131,8 @@ func doParseMap(header []byte, unpacker Unpacker, parser Parser) (Value, error)
 			if isIndexKey(key) {
 				// try to build sparse list
 				mayBeList = true
-				sparseListItems = make([]ListItem, cnt)
 			} else {
 				mayBeList = false
-				sortedMapEntries = make([]MapEntry, cnt)
 			}
 		}
 
@@ -145,20 +143,19 @@ func doParseMap(header []byte, unpacker Unpacker, parser Parser) (Value, error)
 				if i > 0 && prevListKey > k {
 					sorted = false
 				}
-				sparseListItems[i] = ImmutableItem(int(k), value)
+				sparseListItems = append(sparseListItems, ImmutableItem(int(k), value))
 				prevListKey = k
 			} else {
 				// not a list
 				mayBeList = false
-				sortedMapEntries = make([]MapEntry, cnt)
 				for j := 0; j < i; j++ {
 					item := sparseListItems[j]
-					sortedMapEntries[j] = ImmutableEntry(strconv.Itoa(item.Key()), item.Value())
+					sortedMapEntries = append(sortedMapEntries, ImmutableEntry(strconv.Itoa(item.Key()), item.Value()))
 				}
 				// string order of the keys is not the order of the indexes
 				sorted = false
 				k := key.String()
-				sortedMapEntries[i] = ImmutableEntry(k, value)
+				sortedMapEntries = append(sortedMapEntries, ImmutableEntry(k, value))
 				prevMapKey = k
 			}
 
@@ -167,7 +164,7 @@ func doParseMap(header []byte, unpacker Unpacker, parser Parser) (Value, error)
 			if i > 0 && prevMapKey > k {
 				sorted = false
 			}
-			sortedMapEntries[i] = ImmutableEntry(k, value)
+			sortedMapEntries = append(sortedMapEntries, ImmutableEntry(k, value))
 			prevMapKey = k
 		}
 
-- 
2.43.0


From ac4d60cbda36e8b0568fc720955b66d2c57013ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:03 +0000
Subject: [PATCH 39/41] fix: limit the nesting depth of decoded values

---
 unpack.go | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/unpack.go b/unpack.go
index 70c9b2c..cfa6e17 100644
--- a/unpack.go
+++ b/unpack.go
@@ -13,7 +13,18 @@ import (
 )
 
 
+// limits the nesting of lists and maps accepted by the decoder
+const maxParseDepth = 10000
+
 func doParse(unpacker Unpacker, parser Parser) (Value, error) {
+	return doParseNested(unpacker, parser, 0)
+}
+
+func doParseNested(unpacker Unpacker, parser Parser, depth int) (Value, error) {
+
+	if depth > maxParseDepth {
+		return nil, errors.Errorf("parse: nesting exceeds %d levels", maxParseDepth)
+	}
 
 	format, header := unpacker.Next()
 
@@ -58,9 +69,9 @@ func doParse(unpacker Unpacker, parser Parser) (Value, error) {
 		}
 		return Utf8(string(str)), nil
 	case ListHeader:
-		return doParseList(header, unpacker, parser)
+		return doParseList(header, unpacker, parser, depth)
 	case MapHeader:
-		return doParseMap(header, unpacker, parser)
+		return doParseMap(header, unpacker, parser, depth)
 	case ExtHeader:
 		n, _ := parser.ParseExt(header)
 		if parser.Error() != nil {
@@ -77,7 +88,7 @@ func doParse(unpacker Unpacker, parser Parser) (Value, error) {
 
 }
 
-func doParseList(header []byte, unpacker Unpacker, parser Parser) (List, error) {
+func doParseList(header []byte, unpacker Unpacker, parser Parser, depth int) (List, error) {
 	cnt := parser.ParseList(header)
 	if parser.Error() != nil {
 		return nil, parser.Error()
@@ -87,7 +98,7 @@ func doParseList(header []byte, unpacker Unpacker, parser Parser) (List, error)
 	}
 	var list []Value
 	for i := 0; i < cnt; i++ {
-		el, err := doParse(unpacker, parser)
+		el, err := doParseNested(unpacker, parser, depth+1)
 		if err != nil {
 			return nil, err
 		}
@@ -96,7 +107,7 @@ func doParseList(header []byte, unpacker Unpacker, parser Parser) (List, error)
 	return ImmutableList(list), nil
 }
 
-func doParseMap(header []byte, unpacker Unpacker, parser Parser) (Value, error) {
+func doParseMap(header []byte, unpacker Unpacker, parser Parser, depth int) (Value, error) {
 	cnt := parser.ParseMap(header)
 	if parser.Error() != nil {
 		return nil, parser.Error()
@@ -112,11 +123,11 @@ func doParseMap(header []byte, unpacker Unpacker, parser Parser) (Value, error)
 	var prevMapKey string
 
 	for i := 0; i < cnt; i++ {
-		key, err := doParse(unpacker, parser)
+		key, err := doParseNested(unpacker, parser, depth+1)
 		if err != nil {
 			return nil, err
 		}
-		value, err := doParse(unpacker, parser)
+		value, err := doParseNested(unpacker, parser, depth+1)
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 8eff4f0038c016f0534925a20bcd4e314e81c174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:20 +0000
Subject: [PATCH 40/41] fix: report the reader's own failure instead of an end
 of stream

---
 msgpack.go | 19 +++++++++++++++++--
 unpack.go  | 11 +++++++++--
 2 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/msgpack.go b/msgpack.go
index 1d1cbb1..bcbf4e7 100644
--- a/msgpack.go
+++ b/msgpack.go
@@ -695,6 +695,7 @@ type messageIOUnpacker struct {
 	buf 	[defReadBufSize]byte
 	r       io.Reader
 	br      io.ByteReader  // can be null
+	err     error          // failure of the reader other than the end of the stream
 }
 
 func MessageReader(r io.Reader) *messageIOUnpacker {
@@ -707,12 +708,14 @@ func (p *messageIOUnpacker) Next() (Format, []byte) {
 	if p.br != nil {
 		code, err := p.br.ReadByte()
 		if err != nil {
+			p.fail(err)
 			return EOF, nil
 		}
 		p.buf[0] = code
 	}  else {
-		n, _ := io.ReadFull(p.r, p.buf[:1])
+		n, err := io.ReadFull(p.r, p.buf[:1])
 		if n == 0 {
+			p.fail(err)
 			return EOF, nil
 		}
 	}
@@ -720,14 +723,26 @@ func (p *messageIOUnpacker) Next() (Format, []byte) {
 	format, len := nextFormat(p.buf[0])
 	n := 1 + len
 
-	m, _ := io.ReadFull(p.r, p.buf[1:n])
+	m, err := io.ReadFull(p.r, p.buf[1:n])
 	if m != len {
+		p.fail(err)
 		return UnexpectedEOF, nil
 	}
 
 	return format, p.buf[0:n]
 }
 
+func (p *messageIOUnpacker) fail(err error) {
+	if err != io.EOF && err != io.ErrUnexpectedEOF {
+		p.err = err
+	}
+}
+
+// Error returns the reader's failure behind an EOF or UnexpectedEOF, if it was not the end of the stream
+func (p *messageIOUnpacker) Error() error {
+	return p.err
+}
+
 func (p *messageIOUnpacker) Read(n int) (b []byte, err error) {
 	b, err = io.ReadAll(io.LimitReader(p.r, int64(n)))
 	if len(b) != n {
diff --git a/unpack.go b/unpack.go
index cfa6e17..27ae41f 100644
--- a/unpack.go
+++ b/unpack.go
@@ -30,9 +30,9 @@ func doParseNested(unpacker Unpacker, parser Parser, depth int) (Value, error) {
 
 	switch format {
 	case EOF:
-		return nil, io.EOF
+		return nil, unpackerError(unpacker, io.EOF)
 	case UnexpectedEOF:
-		return nil, io.ErrUnexpectedEOF
+		return nil, unpackerError(unpacker, io.ErrUnexpectedEOF)
 	case NilToken:
 		return Null, nil
 	case BoolToken:
@@ -189,6 +189,13 @@ func doParseMap(header []byte, unpacker Unpacker, parser Parser, depth int) (Val
 
 }
 
+func unpackerError(unpacker Unpacker, eof error) error {
+	if u, ok := unpacker.(interface{ Error() error }); ok && u.Error() != nil {
+		return u.Error()
+	}
+	return eof
+}
+
 func isIndexKey(key Value) bool {
 	num, ok := key.(Number)
 	return ok && num.Type() == LONG
-- 
2.43.0


From e5c4d428f2aa1aacb9067361dbae60afb5457427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:29 +0000
Subject: [PATCH 41/41] fix: report input ending between the elements of a
 collection as unexpected

---
 unpack.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/unpack.go b/unpack.go
index 27ae41f..2239d30 100644
--- a/unpack.go
+++ b/unpack.go
@@ -30,6 +30,10 @@ func doParseNested(unpacker Unpacker, parser Parser, depth int) (Value, error) {
 
 	switch format {
 	case EOF:
+		if depth > 0 {
+			// the input ended inside of a list or map
+			return nil, unpackerError(unpacker, io.ErrUnexpectedEOF)
+		}
 		return nil, unpackerError(unpacker, io.EOF)
 	case UnexpectedEOF:
 		return nil, unpackerError(unpacker, io.ErrUnexpectedEOF)
-- 
2.43.0

