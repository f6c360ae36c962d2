From 4b2e27a1d2a7dd18050ec3905e88fce7c5460b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:13:53 +0000
Subject: [PATCH 01/65] fix: SET returns the error for a missing or malformed
 EX/PX value

---
 memdb/strings.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/memdb/strings.go b/memdb/strings.go
index 42a7871..1c4d8f4 100644
--- a/memdb/strings.go
+++ b/memdb/strings.go
@@ -47,18 +47,18 @@ func setString(db *MemDb, cmd [][]byte) resp.RedisData {
 			optNum++
 			i++
 			if i >= len(cmd) {
-				resp.NewSimpleError("syntax error")
+				return resp.NewSimpleError("syntax error")
 			}
 			exval, err = strconv.ParseInt(string(cmd[i]), 10, 64)
 			if err != nil {
-				resp.NewSimpleError("value is not an integer")
+				return resp.NewSimpleError("value is not an integer")
 			}
 		case "px":
 			px = true
 			optNum++
 			i++
 			if i >= len(cmd) {
-				resp.NewSimpleError("syntax error")
+				return resp.NewSimpleError("syntax error")
 			}
 			pxval, err = strconv.ParseInt(string(cmd[i]), 10, 64)
 			if err != nil {
-- 
2.43.0


From da21a3e2361353d8dea380bbf0d7ef77e75b9990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:13:54 +0000
Subject: [PATCH 02/65] fix: SET reads the timestamp after EXAT and PXAT

---
 memdb/strings.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/memdb/strings.go b/memdb/strings.go
index 1c4d8f4..4776cb4 100644
--- a/memdb/strings.go
+++ b/memdb/strings.go
@@ -67,6 +67,7 @@ func setString(db *MemDb, cmd [][]byte) resp.RedisData {
 		case "exat":
 			exat = true
 			optNum++
+			i++
 			if i >= len(cmd) {
 				return resp.NewSimpleError("syntax error")
 			}
@@ -77,6 +78,7 @@ func setString(db *MemDb, cmd [][]byte) resp.RedisData {
 		case "pxat":
 			pxat = true
 			optNum++
+			i++
 			if i >= len(cmd) {
 				return resp.NewSimpleError("syntax error")
 			}
-- 
2.43.0


From e7ff592a78c77603dec8b44e4ea461562a3a497d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:13:55 +0000
Subject: [PATCH 03/65] fix: SET replaces a value of any type, only GET
 requires a string

---
 memdb/strings.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/memdb/strings.go b/memdb/strings.go
index 4776cb4..3e3210e 100644
--- a/memdb/strings.go
+++ b/memdb/strings.go
@@ -104,7 +104,7 @@ func setString(db *MemDb, cmd [][]byte) resp.RedisData {
 	defer db.locks.UnLock(key)
 
 	oldVal, oldOk := db.dict.Get(key)
-	if oldOk {
+	if oldOk && get {
 		if _, ok := oldVal.([]byte); !ok {
 			return resp.NewSimpleError("The value stored at key is not a string")
 		}
-- 
2.43.0


From 7fa777ff09ff9dbbbb3995e7584196c2822dbe9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:13:56 +0000
Subject: [PATCH 04/65] fix: SET NX/XX that does not set keeps the time to live

---
 memdb/strings.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/memdb/strings.go b/memdb/strings.go
index 3e3210e..6b25986 100644
--- a/memdb/strings.go
+++ b/memdb/strings.go
@@ -100,6 +100,7 @@ func setString(db *MemDb, cmd [][]byte) resp.RedisData {
 
 	// set
 	var res resp.RedisData
+	done := true
 	db.locks.Lock(key)
 	defer db.locks.UnLock(key)
 
@@ -116,6 +117,7 @@ func setString(db *MemDb, cmd [][]byte) resp.RedisData {
 				db.dict.Set(key, val)
 				res = resp.NewSimpleString("OK")
 			} else {
+				done = false
 				res = resp.NewBulkString(nil)
 			}
 		} else {
@@ -123,6 +125,7 @@ func setString(db *MemDb, cmd [][]byte) resp.RedisData {
 				db.dict.Set(key, val)
 				res = resp.NewSimpleString("OK")
 			} else {
+				done = false
 				res = resp.NewBulkString(nil)
 			}
 		}
@@ -139,6 +142,11 @@ func setString(db *MemDb, cmd [][]byte) resp.RedisData {
 		}
 	}
 
+	// a conditional SET that was not performed leaves the time to live alone
+	if !done {
+		return res
+	}
+
 	if !keepttl {
 		db.DeleteExpire(key)
 	}
-- 
2.43.0


From bf7c69109b68e58fed2b8f3a09a6f5a81818fb48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:13:57 +0000
Subject: [PATCH 05/65] fix: SET PX does not expire the key early

---
 memdb/strings.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/memdb/strings.go b/memdb/strings.go
index 6b25986..5e0f36a 100644
--- a/memdb/strings.go
+++ b/memdb/strings.go
@@ -155,7 +155,7 @@ func setString(db *MemDb, cmd [][]byte) resp.RedisData {
 		db.SetExpire(key, time.Now().Unix()+exval)
 	}
 	if px {
-		db.SetExpire(key, time.Now().Unix()+pxval/1000)
+		db.SetExpire(key, (time.Now().UnixMilli()+pxval)/1000)
 	}
 	if exat {
 		db.SetExpire(key, exatval)
-- 
2.43.0


From 9756065935802ea59eb312d4c1715d3f2b2cb6d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:35 +0000
Subject: [PATCH 06/65] fix: SET refuses expire times that are not positive or
 overflow

---
 memdb/strings.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/memdb/strings.go b/memdb/strings.go
index 5e0f36a..cf6fabc 100644
--- a/memdb/strings.go
+++ b/memdb/strings.go
@@ -3,6 +3,7 @@ package memdb
 import (
 	"fmt"
 	"gRedis/resp"
+	"math"
 	"strconv"
 	"strings"
 	"time"
@@ -97,6 +98,11 @@ func setString(db *MemDb, cmd [][]byte) resp.RedisData {
 	if nx && xx || optNum > 1 {
 		return resp.NewSimpleError("syntax error")
 	}
+	if ex && (exval <= 0 || exval > math.MaxInt64-time.Now().Unix()) ||
+		px && (pxval <= 0 || pxval > math.MaxInt64-time.Now().UnixMilli()) ||
+		exat && exatval <= 0 || pxat && pxatval <= 0 {
+		return resp.NewSimpleError("invalid expire time in 'set' command")
+	}
 
 	// set
 	var res resp.RedisData
-- 
2.43.0


From 28fb053841a6b004687fac2fa557680cd5ec0ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:37 +0000
Subject: [PATCH 07/65] fix: SETEX refuses expire times that are not positive
 or overflow

---
 memdb/strings.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/memdb/strings.go b/memdb/strings.go
index cf6fabc..7a4d657 100644
--- a/memdb/strings.go
+++ b/memdb/strings.go
@@ -371,6 +371,10 @@ func setExString(db *MemDb, cmd [][]byte) resp.RedisData {
 		return resp.NewSimpleError("value is not an integer")
 	}
 
+	if sec <= 0 || sec > math.MaxInt64-time.Now().Unix() {
+		return resp.NewSimpleError("invalid expire time in 'setex' command")
+	}
+
 	val := cmd[3]
 
 	db.locks.Lock(key)
-- 
2.43.0


From 53f91a41678e8ff1974b0175fd24297c0513cea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:38 +0000
Subject: [PATCH 08/65] fix: EXPIRE refuses a time to live that overflows

---
 memdb/keys.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/memdb/keys.go b/memdb/keys.go
index ceb418b..555745e 100644
--- a/memdb/keys.go
+++ b/memdb/keys.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"gRedis/resp"
 	"gRedis/util"
+	"math"
 	"strconv"
 	"strings"
 	"time"
@@ -93,6 +94,9 @@ func expireKey(db *MemDb, cmd [][]byte) resp.RedisData {
 	if err != nil {
 		return resp.NewSimpleError("value is not an integer")
 	}
+	if v > math.MaxInt64-time.Now().Unix() {
+		return resp.NewSimpleError("invalid expire time in 'expire' command")
+	}
 	ttl := time.Now().Unix() + v
 
 	// get option
-- 
2.43.0


From 6874559370c9c2771f53c1e50699a0c419f1af89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:39 +0000
Subject: [PATCH 09/65] fix: GETRANGE with the largest end index does not
 overflow

---
 memdb/strings.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/memdb/strings.go b/memdb/strings.go
index 7a4d657..cb63a74 100644
--- a/memdb/strings.go
+++ b/memdb/strings.go
@@ -238,6 +238,9 @@ func getRangeString(db *MemDb, cmd [][]byte) resp.RedisData {
 	if end < 0 {
 		end = len(v) + end
 	}
+	if end >= len(v) {
+		end = len(v) - 1
+	}
 	end++
 
 	if start > end || start >= len(v) || end < 0 {
@@ -248,10 +251,6 @@ func getRangeString(db *MemDb, cmd [][]byte) resp.RedisData {
 		start = 0
 	}
 
-	if end > len(v) {
-		end = len(v)
-	}
-
 	return resp.NewBulkString(v[start:end])
 }
 
-- 
2.43.0


From 1922058959b71df6f1f22cd115da1ea0631ea23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:40 +0000
Subject: [PATCH 10/65] fix: SETRANGE keeps the bytes after the written range
 and never changes a value in place

---
 memdb/strings.go | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/memdb/strings.go b/memdb/strings.go
index cb63a74..89c4d22 100644
--- a/memdb/strings.go
+++ b/memdb/strings.go
@@ -290,15 +290,14 @@ func setRangeString(db *MemDb, cmd [][]byte) resp.RedisData {
 	}
 
 	//  If the offset is larger than the current length of the string at key, the string is padded with zero-bytes to make offset fit.
-	if offset > len(oldVal) {
-		newVal = oldVal
-		zeroes := make([]byte, offset-len(oldVal)) // pre-allocating memory
-		newVal = append(newVal, zeroes...)
-	} else {
-		newVal = oldVal[:offset]
-	}
-
-	newVal = append(newVal, value...)
+	// The old value may still be in use by a reply, so it is copied and never changed in place.
+	newLen := offset + len(value)
+	if newLen < len(oldVal) {
+		newLen = len(oldVal)
+	}
+	newVal = make([]byte, newLen)
+	copy(newVal, oldVal)
+	copy(newVal[offset:], value)
 	db.dict.Set(key, newVal)
 	return resp.NewInteger(int64(len(newVal)))
 }
-- 
2.43.0


From 90ab21856701dab8f4532d62260e6d48f3a70fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:41 +0000
Subject: [PATCH 11/65] fix: SETRANGE refuses to grow a string beyond 512MB and
 an empty value creates nothing

---
 memdb/strings.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/memdb/strings.go b/memdb/strings.go
index 89c4d22..2deea60 100644
--- a/memdb/strings.go
+++ b/memdb/strings.go
@@ -9,6 +9,9 @@ import (
 	"time"
 )
 
+// longest string SETRANGE may create
+const maxStringLen = 512 * 1024 * 1024
+
 /*
 EX seconds -- Set the specified expire time, in seconds.
 PX milliseconds -- Set the specified expire time, in milliseconds.
@@ -289,6 +292,14 @@ func setRangeString(db *MemDb, cmd [][]byte) resp.RedisData {
 		oldVal = make([]byte, 0)
 	}
 
+	// nothing to write, the key is neither changed nor created
+	if len(value) == 0 {
+		return resp.NewInteger(int64(len(oldVal)))
+	}
+	if offset > maxStringLen-len(value) {
+		return resp.NewSimpleError("string exceeds maximum allowed size (512MB)")
+	}
+
 	//  If the offset is larger than the current length of the string at key, the string is padded with zero-bytes to make offset fit.
 	// The old value may still be in use by a reply, so it is copied and never changed in place.
 	newLen := offset + len(value)
-- 
2.43.0


From 1d65b50e7b27e73cc9f8324ab564d023a1a9c663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:23 +0000
Subject: [PATCH 12/65] fix: MGET reads all its keys atomically and reports
 expired keys as nil

---
 memdb/strings.go | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/memdb/strings.go b/memdb/strings.go
index 2deea60..5e998dd 100644
--- a/memdb/strings.go
+++ b/memdb/strings.go
@@ -320,22 +320,26 @@ func mGetString(db *MemDb, cmd [][]byte) resp.RedisData {
 
 	res := make([]resp.RedisData, 0)
 
+	// an expired key is reported as nil, like any other missing key
+	keys := make([]string, 0, len(cmd)-1)
 	for _, k := range cmd[1:] {
 		key := string(k)
-		if !db.DeleteExpiredKey(key) {
-			db.locks.RLock(key)
-
-			if val, ok := db.dict.Get(key); ok {
-				if v, ok := val.([]byte); ok {
-					res = append(res, resp.NewBulkString(v))
-				} else {
-					res = append(res, resp.NewBulkString(nil)) // not string
-				}
+		db.DeleteExpiredKey(key)
+		keys = append(keys, key)
+	}
+
+	db.locks.MRLock(keys)
+	defer db.locks.MRUnLock(keys)
+
+	for _, key := range keys {
+		if val, ok := db.dict.Get(key); ok {
+			if v, ok := val.([]byte); ok {
+				res = append(res, resp.NewBulkString(v))
 			} else {
-				res = append(res, resp.NewBulkString(nil))
+				res = append(res, resp.NewBulkString(nil)) // not string
 			}
-
-			db.locks.RUnLock(key)
+		} else {
+			res = append(res, resp.NewBulkString(nil))
 		}
 	}
 
-- 
2.43.0


From 3ed94fb503892c35222a68b1e29476adc0d884e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:24 +0000
Subject: [PATCH 13/65] fix: SETNX checks for the key under its lock

---
 memdb/strings.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/memdb/strings.go b/memdb/strings.go
index 5e998dd..9c8bba1 100644
--- a/memdb/strings.go
+++ b/memdb/strings.go
@@ -408,15 +408,15 @@ func setNxString(db *MemDb, cmd [][]byte) resp.RedisData {
 	key := string(cmd[1])
 	db.DeleteExpiredKey(key)
 
-	if _, ok := db.dict.Get(key); ok {
-		return resp.NewInteger(0)
-	}
-
 	val := cmd[2]
 
 	db.locks.Lock(key)
 	defer db.locks.UnLock(key)
 
+	if _, ok := db.dict.Get(key); ok {
+		return resp.NewInteger(0)
+	}
+
 	db.dict.Set(key, val)
 
 	return resp.NewInteger(1)
-- 
2.43.0


From 00c481ad46c3c60824b8626f752d793607af1618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:25 +0000
Subject: [PATCH 14/65] fix: INCR, INCRBY, DECR and DECRBY create a missing key

---
 memdb/strings.go | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/memdb/strings.go b/memdb/strings.go
index 9c8bba1..345320c 100644
--- a/memdb/strings.go
+++ b/memdb/strings.go
@@ -474,7 +474,11 @@ func incrString(db *MemDb, cmd [][]byte) resp.RedisData {
 
 		return resp.NewInteger(nV)
 	} else {
-		return resp.NewInteger(0)
+		// If the key does not exist, it is set to 0 before performing the operation.
+		nV := int64(1)
+		db.dict.Set(key, []byte(strconv.FormatInt(nV, 10)))
+
+		return resp.NewInteger(nV)
 	}
 }
 
@@ -512,7 +516,11 @@ func incrByString(db *MemDb, cmd [][]byte) resp.RedisData {
 
 		return resp.NewInteger(nV)
 	} else {
-		return resp.NewInteger(0)
+		// If the key does not exist, it is set to 0 before performing the operation.
+		nV := increment
+		db.dict.Set(key, []byte(strconv.FormatInt(nV, 10)))
+
+		return resp.NewInteger(nV)
 	}
 }
 
@@ -545,7 +553,11 @@ func decrString(db *MemDb, cmd [][]byte) resp.RedisData {
 
 		return resp.NewInteger(nV)
 	} else {
-		return resp.NewInteger(0)
+		// If the key does not exist, it is set to 0 before performing the operation.
+		nV := int64(-1)
+		db.dict.Set(key, []byte(strconv.FormatInt(nV, 10)))
+
+		return resp.NewInteger(nV)
 	}
 }
 
@@ -583,7 +595,11 @@ func decrByString(db *MemDb, cmd [][]byte) resp.RedisData {
 
 		return resp.NewInteger(nV)
 	} else {
-		return resp.NewInteger(0)
+		// If the key does not exist, it is set to 0 before performing the operation.
+		nV := -decrement
+		db.dict.Set(key, []byte(strconv.FormatInt(nV, 10)))
+
+		return resp.NewInteger(nV)
 	}
 }
 
-- 
2.43.0


From 6a13b36e4051af266dd3b72433e43dcefac214a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:26 +0000
Subject: [PATCH 15/65] fix: INCR, INCRBY, DECR and DECRBY refuse to overflow

---
 memdb/strings.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/memdb/strings.go b/memdb/strings.go
index 345320c..a940338 100644
--- a/memdb/strings.go
+++ b/memdb/strings.go
@@ -468,6 +468,10 @@ func incrString(db *MemDb, cmd [][]byte) resp.RedisData {
 			return resp.NewSimpleError("value is not an integer")
 		}
 
+		if nV == math.MaxInt64 {
+			return resp.NewSimpleError("increment or decrement would overflow")
+		}
+
 		nV++
 		nVal := strconv.FormatInt(nV, 10)
 		db.dict.Set(key, []byte(nVal))
@@ -510,6 +514,10 @@ func incrByString(db *MemDb, cmd [][]byte) resp.RedisData {
 			return resp.NewSimpleError("value is not an integer")
 		}
 
+		if increment > 0 && nV > math.MaxInt64-increment || increment < 0 && nV < math.MinInt64-increment {
+			return resp.NewSimpleError("increment or decrement would overflow")
+		}
+
 		nV += increment
 		nVal := strconv.FormatInt(nV, 10)
 		db.dict.Set(key, []byte(nVal))
@@ -547,6 +555,10 @@ func decrString(db *MemDb, cmd [][]byte) resp.RedisData {
 			return resp.NewSimpleError("value is not an integer")
 		}
 
+		if nV == math.MinInt64 {
+			return resp.NewSimpleError("increment or decrement would overflow")
+		}
+
 		nV--
 		nVal := strconv.FormatInt(nV, 10)
 		db.dict.Set(key, []byte(nVal))
@@ -574,6 +586,9 @@ func decrByString(db *MemDb, cmd [][]byte) resp.RedisData {
 	if err != nil {
 		return resp.NewSimpleError("value is not an integer")
 	}
+	if decrement == math.MinInt64 {
+		return resp.NewSimpleError("decrement would overflow")
+	}
 
 	db.locks.Lock(key)
 	defer db.locks.UnLock(key)
@@ -589,6 +604,10 @@ func decrByString(db *MemDb, cmd [][]byte) resp.RedisData {
 			return resp.NewSimpleError("(error) value is not an integer")
 		}
 
+		if decrement > 0 && nV < math.MinInt64+decrement || decrement < 0 && nV > math.MaxInt64+decrement {
+			return resp.NewSimpleError("increment or decrement would overflow")
+		}
+
 		nV -= decrement
 		nVal := strconv.FormatInt(nV, 10)
 		db.dict.Set(key, []byte(nVal))
-- 
2.43.0


From 2e4660021953e8e7920e8ddd1b37ba818ba4c73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:27 +0000
Subject: [PATCH 16/65] fix: INCRBYFLOAT refuses NaN and infinity

---
 memdb/strings.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/memdb/strings.go b/memdb/strings.go
index a940338..06a72f7 100644
--- a/memdb/strings.go
+++ b/memdb/strings.go
@@ -632,7 +632,7 @@ func incrByFloatString(db *MemDb, cmd [][]byte) resp.RedisData {
 	db.DeleteExpiredKey(key)
 
 	increment, err := strconv.ParseFloat(string(cmd[2]), 64)
-	if err != nil {
+	if err != nil || math.IsNaN(increment) || math.IsInf(increment, 0) {
 		return resp.NewSimpleError("value is not an float")
 	}
 
@@ -646,11 +646,14 @@ func incrByFloatString(db *MemDb, cmd [][]byte) resp.RedisData {
 		}
 
 		fV, err := strconv.ParseFloat(string(v), 64)
-		if err != nil {
+		if err != nil || math.IsNaN(fV) || math.IsInf(fV, 0) {
 			return resp.NewSimpleError("value is not an float")
 		}
 
 		fV += increment
+		if math.IsInf(fV, 0) {
+			return resp.NewSimpleError("increment would produce NaN or Infinity")
+		}
 		fVal := strconv.FormatFloat(fV, 'f', -1, 64)
 		db.dict.Set(key, []byte(fVal))
 
-- 
2.43.0


From 6d5af709fd8b186adb2fb0d3eb6011e63df2450b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:59 +0000
Subject: [PATCH 17/65] fix: PERSIST returns 1 only when it removed a time to
 live

---
 memdb/keys.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/memdb/keys.go b/memdb/keys.go
index 555745e..1025589 100644
--- a/memdb/keys.go
+++ b/memdb/keys.go
@@ -151,9 +151,8 @@ func persistKey(db *MemDb, cmd [][]byte) resp.RedisData {
 	db.locks.Lock(key)
 	defer db.locks.UnLock(key)
 
-	db.DeleteExpire(key)
-
-	return resp.NewInteger(int64(1))
+	// 1 only if a time to live was removed
+	return resp.NewInteger(int64(db.DeleteExpire(key)))
 }
 
 func ttlKey(db *MemDb, cmd [][]byte) resp.RedisData {
-- 
2.43.0


From 5fd3d15c4bcf65e6e2e860d9ff16615fe0f808a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:00 +0000
Subject: [PATCH 18/65] fix: EXPIRE LT treats a key without time to live as
 infinite

---
 memdb/keys.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/memdb/keys.go b/memdb/keys.go
index 1025589..d14a6a8 100644
--- a/memdb/keys.go
+++ b/memdb/keys.go
@@ -127,7 +127,8 @@ func expireKey(db *MemDb, cmd [][]byte) resp.RedisData {
 			res = db.SetExpire(key, ttl)
 		}
 	case "lt":
-		if v, ok := db.expires.Get(key); ok && ttl < v.(int64) {
+		// a key without expiry counts as one with an infinite time to live
+		if v, ok := db.expires.Get(key); !ok || ttl < v.(int64) {
 			res = db.SetExpire(key, ttl)
 		}
 	default:
-- 
2.43.0


From a8a7548afd07918ac020134ffafb01523626cacb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:01 +0000
Subject: [PATCH 19/65] fix: lazy deletion checks the deadline again under the
 lock

---
 memdb/memdb.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/memdb/memdb.go b/memdb/memdb.go
index b450868..7c05c92 100644
--- a/memdb/memdb.go
+++ b/memdb/memdb.go
@@ -55,6 +55,10 @@ func (db *MemDb) DeleteExpiredKey(key string) bool {
 	if db.CheckExpire(key) {
 		db.locks.Lock(key)
 		defer db.locks.UnLock(key)
+		// the key may have been written again before the lock was taken
+		if !db.CheckExpire(key) {
+			return false
+		}
 		db.dict.Delete(key)
 		db.expires.Delete(key)
 		return true
-- 
2.43.0


From 4031fa87a88c91fb6a62067042695f2271c0c448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:02 +0000
Subject: [PATCH 20/65] fix: DEL and EXISTS with several keys are atomic

---
 memdb/keys.go | 38 ++++++++++++++++++++++++--------------
 1 file changed, 24 insertions(+), 14 deletions(-)

diff --git a/memdb/keys.go b/memdb/keys.go
index d14a6a8..f0209db 100644
--- a/memdb/keys.go
+++ b/memdb/keys.go
@@ -25,15 +25,20 @@ func delKey(db *MemDb, cmd [][]byte) resp.RedisData {
 		return resp.NewSimpleError("wrong number of arguments for command")
 	}
 
-	deleted := 0
+	keys := make([]string, 0, len(cmd)-1)
 	for _, k := range cmd[1:] {
 		key := string(k)
-		if !db.DeleteExpiredKey(key) {
-			db.locks.Lock(key)
-			deleted += db.dict.Delete(key)
-			db.DeleteExpire(key)
-			db.locks.UnLock(key)
-		}
+		db.DeleteExpiredKey(key)
+		keys = append(keys, key)
+	}
+
+	db.locks.MLock(keys)
+	defer db.locks.MUnLock(keys)
+
+	deleted := 0
+	for _, key := range keys {
+		deleted += db.dict.Delete(key)
+		db.DeleteExpire(key)
 	}
 
 	return resp.NewInteger(int64(deleted))
@@ -44,15 +49,20 @@ func existsKey(db *MemDb, cmd [][]byte) resp.RedisData {
 		return resp.NewSimpleError("wrong number of arguments for command")
 	}
 
-	existed := 0
+	keys := make([]string, 0, len(cmd)-1)
 	for _, k := range cmd[1:] {
 		key := string(k)
-		if !db.DeleteExpiredKey(key) {
-			db.locks.RLock(key)
-			if _, ok := db.dict.Get(key); ok {
-				existed++
-			}
-			db.locks.RUnLock(key)
+		db.DeleteExpiredKey(key)
+		keys = append(keys, key)
+	}
+
+	db.locks.MRLock(keys)
+	defer db.locks.MRUnLock(keys)
+
+	existed := 0
+	for _, key := range keys {
+		if _, ok := db.dict.Get(key); ok {
+			existed++
 		}
 	}
 
-- 
2.43.0


From 48d141310f6152792d2ca3bf935934010c65966d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:03 +0000
Subject: [PATCH 21/65] fix: TTL never reports a deadline that just passed as
 no time to live

---
 memdb/keys.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/memdb/keys.go b/memdb/keys.go
index f0209db..f49cb62 100644
--- a/memdb/keys.go
+++ b/memdb/keys.go
@@ -188,6 +188,11 @@ func ttlKey(db *MemDb, cmd [][]byte) resp.RedisData {
 		return resp.NewInteger(int64(-1))
 	}
 
+	// the deadline may have passed since the check above
+	if ttl.(int64) < now {
+		return resp.NewInteger(int64(-2))
+	}
+
 	return resp.NewInteger(ttl.(int64) - now)
 }
 
-- 
2.43.0


From 41ae86b087d28900288d9b0080311403dc418840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:04 +0000
Subject: [PATCH 22/65] fix: the key count is atomic and KEYS does not rely on
 it

---
 memdb/concurrentMap.go | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/memdb/concurrentMap.go b/memdb/concurrentMap.go
index 72cf441..297b2b7 100644
--- a/memdb/concurrentMap.go
+++ b/memdb/concurrentMap.go
@@ -3,14 +3,15 @@ package memdb
 import (
 	"gRedis/util"
 	"sync"
+	"sync/atomic"
 )
 
 const MaxSegSize int = int(1<<32 - 1) // max signed int32
 
 type ConcurrentMap struct {
 	table []*segment
-	size  int // table size
-	count int // key counts
+	size  int          // table size
+	count atomic.Int64 // key counts
 }
 
 type segment struct {
@@ -26,7 +27,6 @@ func NewConcurrentMap(size int) *ConcurrentMap {
 	m := &ConcurrentMap{
 		table: make([]*segment, size),
 		size:  size,
-		count: 0,
 	}
 
 	for i := 0; i < size; i++ {
@@ -52,7 +52,7 @@ func (m *ConcurrentMap) Set(key string, value any) int {
 
 	if _, ok := segment.ht[key]; !ok {
 		added = 1
-		m.count++
+		m.count.Add(1)
 	}
 	segment.ht[key] = value
 	return added
@@ -67,7 +67,7 @@ func (m *ConcurrentMap) Delete(key string) int {
 
 	if _, ok := segment.ht[key]; ok {
 		delete(segment.ht, key)
-		m.count--
+		m.count.Add(-1)
 		return 1
 	}
 
@@ -89,22 +89,21 @@ func (m *ConcurrentMap) Size() int {
 }
 
 func (m *ConcurrentMap) Count() int {
-	return m.count
+	return int(m.count.Load())
 }
 
 func (m *ConcurrentMap) Clear() {
-	*m = *NewConcurrentMap(m.size) // 这里改的是指针
+	m.table = NewConcurrentMap(m.size).table
+	m.count.Store(0)
 }
 
 // 这里拿到的keys有可能有过期的，需要lazy deletion
 func (m *ConcurrentMap) Keys() []string {
-	keys := make([]string, m.count)
-	k := 0
+	keys := make([]string, 0, m.Count())
 	for i := range m.table {
 		m.table[i].rwMu.Lock()
 		for key := range m.table[i].ht {
-			keys[k] = key
-			k++
+			keys = append(keys, key)
 		}
 		m.table[i].rwMu.Unlock()
 	}
-- 
2.43.0


From 368af6326df1edb69d1b47a0a04970237f4318c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:42 +0000
Subject: [PATCH 23/65] fix: glob matching is right for any element after a
 star and for malformed brackets

---
 util/util.go | 140 +++++++++++++++++++++------------------------------
 1 file changed, 57 insertions(+), 83 deletions(-)

diff --git a/util/util.go b/util/util.go
index 2667940..a452a59 100644
--- a/util/util.go
+++ b/util/util.go
@@ -25,98 +25,72 @@ h[a-b]llo matches hallo and hbllo
 func PattenMatch(pattern, src string) bool {
 	patLen, srcLen := len(pattern), len(src)
 
-	if patLen == 0 {
-		return srcLen == 0
-	}
-
-	if srcLen == 0 {
-		for i := range pattern {
-			if pattern[i] != '*' {
-				return false
+	patPos, srcPos := 0, 0
+	// position after the last '*', and the end of the text it covers so far
+	starPat, starSrc := -1, 0
+	for srcPos < srcLen {
+		if patPos < patLen && pattern[patPos] == '*' { // h*llo
+			patPos++
+			starPat, starSrc = patPos, srcPos
+			continue
+		}
+		if patPos < patLen {
+			if n := matchOne(pattern[patPos:], src[srcPos]); n > 0 {
+				patPos += n
+				srcPos++
+				continue
 			}
 		}
-		return true
+		if starPat < 0 {
+			return false
+		}
+		// let the last '*' cover one more byte
+		starSrc++
+		patPos, srcPos = starPat, starSrc
 	}
 
-	patPos, srcPos := 0, 0
-	for patPos < patLen {
-		switch pattern[patPos] {
-		case '?': // h?llo
-			srcPos++
-		case '*': // h*llo
-			for patPos < patLen && pattern[patPos] == '*' {
-				patPos++
-			}
-			if patPos == patLen {
-				return true
-			}
-			for srcPos < srcLen {
-				for srcPos < srcLen && src[srcPos] != pattern[patPos] {
-					srcPos++
-				}
-				if srcPos == srcLen {
-					return patPos == patLen
-				}
-				if PattenMatch(pattern[patPos+1:], src[srcPos+1:]) {
-					return true
-				} else {
-					srcPos++
+	// src has been cosumed
+	for patPos < patLen && pattern[patPos] == '*' {
+		patPos++
+	}
+	return patPos == patLen
+}
+
+// matchOne matches c against the first element of pattern, which is not empty.
+// It returns the length of that element, or 0 when c does not match it.
+func matchOne(pattern string, c byte) int {
+	switch pattern[0] {
+	case '?': // h?llo
+		return 1
+	case '[':
+		var not, match bool
+		pos := 1
+		if pos < len(pattern) && pattern[pos] == '^' {
+			not = true
+			pos++
+		}
+		for first := pos; pos < len(pattern); pos++ {
+			if pattern[pos] == ']' {
+				if match == not {
+					return 0
 				}
+				return pos + 1
 			}
-			return false
-		case '[':
-			var not, close, match bool
-			patPos++
-			if patPos == patLen {
-				return false
-			}
-			if pattern[patPos] == '^' {
-				not = true
-				patPos++
-			}
-			for patPos < patLen {
-				if pattern[patPos] == ']' {
-					close = true
-					break
-				} else if pattern[patPos] == '-' {
-					start, end := pattern[patPos-1], pattern[patPos+1]
-					if src[srcPos] >= start && src[srcPos] <= end {
-						match = true
-					}
-					patPos++
-				} else {
-					if pattern[patPos] == src[srcPos] { //h[ae]llo and h[^e]llo
-						match = true
-					}
+			if pattern[pos] == '-' && pos > first && pos+1 < len(pattern) && pattern[pos+1] != ']' {
+				if c >= pattern[pos-1] && c <= pattern[pos+1] {
+					match = true
 				}
-				patPos++
-			}
-			if !close {
-				return false
+				pos++
+			} else if pattern[pos] == c { //h[ae]llo and h[^e]llo
+				match = true
 			}
-			if not {
-				match = !match
-			}
-			if !match {
-				return false
-			}
-			srcPos++
-		default:
-			if pattern[patPos] != src[srcPos] {
-				return false
-			}
-			srcPos++
 		}
-		patPos++
-
-		// src has been cosumed
-		if srcPos == srcLen {
-			for patPos < patLen && pattern[patPos] == '*' {
-				patPos++
-			}
-			break
+		// the bracket is never closed
+		return 0
+	default:
+		if pattern[0] != c {
+			return 0
 		}
+		return 1
 	}
-
-	return patPos == patLen && srcPos == srcLen
 }
-- 
2.43.0


From 428ffe6d763ed22efc1fe010a8560232fc01b91b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:43 +0000
Subject: [PATCH 24/65] fix: LINSERT inserts once, at the first pivot

---
 memdb/list_struct.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/memdb/list_struct.go b/memdb/list_struct.go
index 287b99a..8f8149a 100644
--- a/memdb/list_struct.go
+++ b/memdb/list_struct.go
@@ -60,31 +60,29 @@ func (l *List) Pos(val []byte) int {
 }
 
 func (l *List) InsertBefore(val []byte, pivot []byte) bool {
-	var ok bool
 	for cur := l.Head.Next; cur != l.Tail; cur = cur.Next {
 		if bytes.Equal(cur.Val, pivot) {
-			ok = true
 			node := &ListNode{Prev: cur.Prev, Next: cur, Val: val}
 			cur.Prev = node
 			node.Prev.Next = node
 			l.Len++
+			return true
 		}
 	}
-	return ok
+	return false
 }
 
 func (l *List) InsertAfter(val []byte, pivot []byte) bool {
-	var ok bool
 	for cur := l.Head.Next; cur != l.Tail; cur = cur.Next {
 		if bytes.Equal(cur.Val, pivot) {
-			ok = true
 			node := &ListNode{Prev: cur, Next: cur.Next, Val: val}
 			cur.Next = node
 			node.Next.Prev = node
 			l.Len++
+			return true
 		}
 	}
-	return ok
+	return false
 }
 
 func (l *List) LPop() *ListNode {
-- 
2.43.0


From 46d14285798ae04725ff22a304ae0f426921942f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:44 +0000
Subject: [PATCH 25/65] fix: LINDEX, LSET and LREM accept the smallest integer

---
 memdb/list_struct.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/memdb/list_struct.go b/memdb/list_struct.go
index 8f8149a..2d30dc5 100644
--- a/memdb/list_struct.go
+++ b/memdb/list_struct.go
@@ -28,7 +28,7 @@ func NewList() *List {
 func (l *List) Index(index int) *ListNode {
 	var cur *ListNode
 	if index < 0 {
-		if -index > l.Len {
+		if index < -l.Len {
 			return nil
 		}
 		cur = l.Tail.Prev
@@ -180,7 +180,7 @@ func (l *List) Remove(val []byte, count int) int {
 			cur = cur.Next
 		}
 	} else {
-		for cur := l.Tail.Prev; cur != l.Head && removed < -count; {
+		for cur := l.Tail.Prev; cur != l.Head && -removed > count; {
 			if bytes.Equal(cur.Val, val) {
 				cur.Next.Prev = cur.Prev
 				cur.Prev.Next = cur.Next
-- 
2.43.0


From 4041762399665737a5ce9e17fec6d6a0c34d9374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:45 +0000
Subject: [PATCH 26/65] fix: LPOP and RPOP with a count always reply with an
 array

---
 memdb/list.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/memdb/list.go b/memdb/list.go
index 22af999..6a2da84 100644
--- a/memdb/list.go
+++ b/memdb/list.go
@@ -201,7 +201,7 @@ func lMoveList(db *MemDb, cmd [][]byte) resp.RedisData {
 }
 
 func lPopList(db *MemDb, cmd [][]byte) resp.RedisData {
-	if len(cmd) < 2 {
+	if len(cmd) < 2 || len(cmd) > 3 {
 		return resp.NewSimpleError("wrong number of arguments for command")
 	}
 
@@ -242,7 +242,7 @@ func lPopList(db *MemDb, cmd [][]byte) resp.RedisData {
 		}
 	}()
 
-	if count == 1 {
+	if len(cmd) == 2 {
 		node := l.LPop()
 		if node == nil {
 			return resp.NewBulkString(nil)
@@ -714,7 +714,7 @@ func lTrimList(db *MemDb, cmd [][]byte) resp.RedisData {
 }
 
 func rPopList(db *MemDb, cmd [][]byte) resp.RedisData {
-	if len(cmd) < 2 {
+	if len(cmd) < 2 || len(cmd) > 3 {
 		return resp.NewSimpleError("wrong number of arguments for command")
 	}
 
@@ -755,7 +755,7 @@ func rPopList(db *MemDb, cmd [][]byte) resp.RedisData {
 		}
 	}()
 
-	if count == 1 {
+	if len(cmd) == 2 {
 		node := l.RPop()
 		if node == nil {
 			return resp.NewBulkString(nil)
-- 
2.43.0


From b66aff6c85478e4ae1a34f6cc0a4617ec1a89486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:46 +0000
Subject: [PATCH 27/65] fix: LTRIM of a missing key is OK

---
 memdb/list.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/memdb/list.go b/memdb/list.go
index 6a2da84..747979f 100644
--- a/memdb/list.go
+++ b/memdb/list.go
@@ -673,7 +673,7 @@ func lTrimList(db *MemDb, cmd [][]byte) resp.RedisData {
 	// passive delete expired key
 	key := string(cmd[1])
 	if db.DeleteExpiredKey(key) {
-		return resp.NewSimpleError("no such key")
+		return resp.NewSimpleString("OK")
 	}
 
 	start, err := strconv.Atoi(string(cmd[2]))
@@ -692,7 +692,7 @@ func lTrimList(db *MemDb, cmd [][]byte) resp.RedisData {
 	// key not existed
 	v, ok := db.dict.Get(key)
 	if !ok {
-		return resp.NewSimpleError("no such key")
+		return resp.NewSimpleString("OK")
 	}
 
 	// wrong type
-- 
2.43.0


From d8c2cb6bbc1a7c7ca1b59be9ce9e111f078fa4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:47 +0000
Subject: [PATCH 28/65] fix: LMOVE creates the destination only once the source
 is known to be a list

---
 memdb/list.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/memdb/list.go b/memdb/list.go
index 747979f..7c7e42b 100644
--- a/memdb/list.go
+++ b/memdb/list.go
@@ -159,11 +159,6 @@ func lMoveList(db *MemDb, cmd [][]byte) resp.RedisData {
 	if !ok {
 		return resp.NewBulkString(nil)
 	}
-	desVal, ok := db.dict.Get(des)
-	if !ok {
-		desVal = NewList()
-		db.dict.Set(des, desVal)
-	}
 
 	// wrong type
 	srcList, ok := srcVal.(*List)
@@ -178,6 +173,11 @@ func lMoveList(db *MemDb, cmd [][]byte) resp.RedisData {
 		}
 	}()
 
+	desVal, ok := db.dict.Get(des)
+	if !ok {
+		desVal = NewList()
+		db.dict.Set(des, desVal)
+	}
 	desList, ok := desVal.(*List)
 	if !ok {
 		return resp.NewSimpleError("Operation against a key holding the wrong kind of value")
@@ -193,7 +193,6 @@ func lMoveList(db *MemDb, cmd [][]byte) resp.RedisData {
 	if desDrc == "left" {
 		desList.LPush(srcPop.Val)
 	} else {
-		fmt.Println(desList, desList.Head, desList.Tail)
 		desList.RPush(srcPop.Val)
 	}
 
-- 
2.43.0


From 7ac2715322bedfe6df2ad31631a37f5289cf7a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:18 +0000
Subject: [PATCH 29/65] fix: HSETNX looks at the field, not at the key

---
 memdb/hash.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/memdb/hash.go b/memdb/hash.go
index 162611e..3e9e497 100644
--- a/memdb/hash.go
+++ b/memdb/hash.go
@@ -421,9 +421,6 @@ func hSetNxHash(db *MemDb, cmd [][]byte) resp.RedisData {
 	if !ok {
 		v = NewHash()
 		db.dict.Set(key, v)
-	} else {
-		// 0 if the field already exists in the hash and no operation was performed.
-		return resp.NewInteger(0)
 	}
 
 	// wrong type
@@ -434,6 +431,12 @@ func hSetNxHash(db *MemDb, cmd [][]byte) resp.RedisData {
 
 	field := string(cmd[2])
 	val := cmd[3]
+
+	if h.Exist(field) {
+		// 0 if the field already exists in the hash and no operation was performed.
+		return resp.NewInteger(0)
+	}
+
 	h.Set(field, val)
 
 	return resp.NewInteger(1)
-- 
2.43.0


From 940e322a98903c64ba8876aa5e36975b551f8d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:19 +0000
Subject: [PATCH 30/65] fix: HINCRBY and HINCRBYFLOAT check the increment
 before creating the hash

---
 memdb/hash.go | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/memdb/hash.go b/memdb/hash.go
index 3e9e497..25f68a2 100644
--- a/memdb/hash.go
+++ b/memdb/hash.go
@@ -161,6 +161,11 @@ func hIncrByHash(db *MemDb, cmd [][]byte) resp.RedisData {
 	key := string(cmd[1])
 	db.DeleteExpiredKey(key)
 
+	increment, err := strconv.Atoi(string(cmd[3]))
+	if err != nil {
+		return resp.NewSimpleError("value is not an integer")
+	}
+
 	db.locks.Lock(key)
 	defer db.locks.UnLock(key)
 
@@ -178,11 +183,6 @@ func hIncrByHash(db *MemDb, cmd [][]byte) resp.RedisData {
 	}
 
 	field := string(cmd[2])
-	increment, err := strconv.Atoi(string(cmd[3]))
-	if err != nil {
-		return resp.NewSimpleError("value is not an integer")
-	}
-
 	val, ok := h.IncrBy(field, increment)
 	if !ok {
 		return resp.NewSimpleError("hash value is not an integer")
@@ -200,6 +200,11 @@ func hIncrByFloatHash(db *MemDb, cmd [][]byte) resp.RedisData {
 	key := string(cmd[1])
 	db.DeleteExpiredKey(key)
 
+	increment, err := strconv.ParseFloat(string(cmd[3]), 64)
+	if err != nil {
+		return resp.NewSimpleError("value is not an float")
+	}
+
 	db.locks.Lock(key)
 	defer db.locks.UnLock(key)
 
@@ -218,11 +223,6 @@ func hIncrByFloatHash(db *MemDb, cmd [][]byte) resp.RedisData {
 	}
 
 	field := string(cmd[2])
-	increment, err := strconv.ParseFloat(string(cmd[3]), 64)
-	if err != nil {
-		return resp.NewSimpleError("value is not an float")
-	}
-
 	val, ok := h.IncrByFloat(field, increment)
 	if !ok {
 		return resp.NewSimpleError("hash value is not an float")
-- 
2.43.0


From fe7d49b586973d17ace3dd86d16c24513095c687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:20 +0000
Subject: [PATCH 31/65] fix: HINCRBY refuses to overflow and HINCRBYFLOAT
 refuses NaN and infinity

---
 memdb/hash.go        | 5 +++--
 memdb/hash_struct.go | 9 ++++++++-
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/memdb/hash.go b/memdb/hash.go
index 25f68a2..ef68809 100644
--- a/memdb/hash.go
+++ b/memdb/hash.go
@@ -2,6 +2,7 @@ package memdb
 
 import (
 	"gRedis/resp"
+	"math"
 	"strconv"
 	"strings"
 )
@@ -185,7 +186,7 @@ func hIncrByHash(db *MemDb, cmd [][]byte) resp.RedisData {
 	field := string(cmd[2])
 	val, ok := h.IncrBy(field, increment)
 	if !ok {
-		return resp.NewSimpleError("hash value is not an integer")
+		return resp.NewSimpleError("hash value is not an integer or the increment would overflow")
 	}
 
 	return resp.NewInteger(int64(val))
@@ -201,7 +202,7 @@ func hIncrByFloatHash(db *MemDb, cmd [][]byte) resp.RedisData {
 	db.DeleteExpiredKey(key)
 
 	increment, err := strconv.ParseFloat(string(cmd[3]), 64)
-	if err != nil {
+	if err != nil || math.IsNaN(increment) || math.IsInf(increment, 0) {
 		return resp.NewSimpleError("value is not an float")
 	}
 
diff --git a/memdb/hash_struct.go b/memdb/hash_struct.go
index dc73ddb..1fc5bff 100644
--- a/memdb/hash_struct.go
+++ b/memdb/hash_struct.go
@@ -1,6 +1,7 @@
 package memdb
 
 import (
+	"math"
 	"strconv"
 )
 
@@ -84,6 +85,9 @@ func (h *Hash) IncrBy(key string, increment int) (int, bool) {
 		if err != nil {
 			return 0, false
 		}
+		if increment > 0 && n > math.MaxInt-increment || increment < 0 && n < math.MinInt-increment {
+			return 0, false
+		}
 		value := n + increment
 		h.Set(key, []byte(strconv.Itoa(value)))
 		return value, true
@@ -97,10 +101,13 @@ func (h *Hash) IncrByFloat(key string, increment float64) (float64, bool) {
 		return increment, true
 	} else {
 		f, err := strconv.ParseFloat(string(v), 64)
-		if err != nil {
+		if err != nil || math.IsNaN(f) || math.IsInf(f, 0) {
 			return 0, false
 		}
 		value := f + increment
+		if math.IsInf(value, 0) {
+			return 0, false
+		}
 		h.Set(key, []byte(strconv.FormatFloat(value, 'f', -1, 64)))
 		return value, true
 	}
-- 
2.43.0


From ef30793001586e5af517c4fdc18c3eee084fa7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:21 +0000
Subject: [PATCH 32/65] fix: HMGET of a missing key replies with one nil per
 field

---
 memdb/hash.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/memdb/hash.go b/memdb/hash.go
index ef68809..9fec60c 100644
--- a/memdb/hash.go
+++ b/memdb/hash.go
@@ -305,10 +305,7 @@ func hMGetHash(db *MemDb, cmd [][]byte) resp.RedisData {
 
 	// passive delete expired key
 	key := string(cmd[1])
-	if db.DeleteExpiredKey(key) {
-		// an empty list when key does not exist.
-		return resp.NewArray([]resp.RedisData{})
-	}
+	db.DeleteExpiredKey(key)
 
 	db.locks.RLock(key)
 	defer db.locks.RUnLock(key)
@@ -316,8 +313,8 @@ func hMGetHash(db *MemDb, cmd [][]byte) resp.RedisData {
 	// key not existed
 	v, ok := db.dict.Get(key)
 	if !ok {
-		// an empty list when key does not exist.
-		return resp.NewArray([]resp.RedisData{})
+		// every field of a key that does not exist is nil.
+		v = NewHash()
 	}
 
 	// wrong type
-- 
2.43.0


From e88b64a7a097734908556241687cb3ad6103dc9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:22 +0000
Subject: [PATCH 33/65] fix: HRANDFIELD with a count always replies with an
 array

---
 memdb/hash.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/memdb/hash.go b/memdb/hash.go
index 9fec60c..a0ff8c1 100644
--- a/memdb/hash.go
+++ b/memdb/hash.go
@@ -552,7 +552,7 @@ func hRandFieldHash(db *MemDb, cmd [][]byte) resp.RedisData {
 	}
 
 	//  a single, randomly selected field when the count option is not used
-	if count == 1 {
+	if len(cmd) == 2 {
 		fields := h.Random(1)
 		return resp.NewBulkString([]byte(fields[0]))
 	}
-- 
2.43.0


From fba7de1dec455060eae01c364f9a77fe3089459e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:01 +0000
Subject: [PATCH 34/65] fix: SREM of the last member deletes the key

---
 memdb/set.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/memdb/set.go b/memdb/set.go
index 37a9c8b..ec07042 100644
--- a/memdb/set.go
+++ b/memdb/set.go
@@ -643,6 +643,11 @@ func sRemSet(db *MemDb, cmd [][]byte) resp.RedisData {
 		res += s.Remove(key)
 	}
 
+	if s.Len() == 0 {
+		db.dict.Delete(key)
+		db.DeleteExpire(key)
+	}
+
 	return resp.NewInteger(int64(res))
 }
 
-- 
2.43.0


From 0432540c328106c6833cd340661cea7373016858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:03 +0000
Subject: [PATCH 35/65] fix: an expired operand of a set operation counts as an
 empty set

---
 memdb/set.go | 54 ++++++++++++++++++----------------------------------
 1 file changed, 18 insertions(+), 36 deletions(-)

diff --git a/memdb/set.go b/memdb/set.go
index ec07042..9a13c39 100644
--- a/memdb/set.go
+++ b/memdb/set.go
@@ -75,10 +75,9 @@ func sInterSet(db *MemDb, cmd [][]byte) resp.RedisData {
 	keys := make([]string, 0, len(cmd)-1)
 	for _, _key := range cmd[1:] {
 		key := string(_key)
-		if !db.DeleteExpiredKey(key) {
-			// can't guarantee the key must to be existed
-			keys = append(keys, key)
-		}
+		db.DeleteExpiredKey(key)
+		// can't guarantee the key must to be existed
+		keys = append(keys, key)
 	}
 
 	db.locks.MRLock(keys)
@@ -143,15 +142,10 @@ func sInterStoreSet(db *MemDb, cmd [][]byte) resp.RedisData {
 	keys := make([]string, 0, len(cmd)-2)
 	for _, _key := range cmd[2:] {
 		key := string(_key)
-		if !db.DeleteExpiredKey(key) {
-			// can't guarantee the key must to be existed
-			keys = append(keys, key)
-		}
-	}
-	if len(keys) == 0 {
-		return resp.NewInteger(0)
+		db.DeleteExpiredKey(key)
+		// can't guarantee the key must to be existed
+		keys = append(keys, key)
 	}
-
 	// get primary key
 	key := keys[0]
 
@@ -224,10 +218,9 @@ func sDiffSet(db *MemDb, cmd [][]byte) resp.RedisData {
 	keys := make([]string, 0, len(cmd)-1)
 	for _, _key := range cmd[1:] {
 		key := string(_key)
-		if !db.DeleteExpiredKey(key) {
-			// can't guarantee the key must to be existed
-			keys = append(keys, key)
-		}
+		db.DeleteExpiredKey(key)
+		// can't guarantee the key must to be existed
+		keys = append(keys, key)
 	}
 
 	db.locks.MRLock(keys)
@@ -292,15 +285,10 @@ func sDiffStoreSet(db *MemDb, cmd [][]byte) resp.RedisData {
 	keys := make([]string, 0, len(cmd)-2)
 	for _, _key := range cmd[2:] {
 		key := string(_key)
-		if !db.DeleteExpiredKey(key) {
-			// can't guarantee the key must to be existed
-			keys = append(keys, key)
-		}
+		db.DeleteExpiredKey(key)
+		// can't guarantee the key must to be existed
+		keys = append(keys, key)
 	}
-	if len(keys) == 0 {
-		return resp.NewInteger(0)
-	}
-
 	// get primary key
 	key := keys[0]
 
@@ -660,10 +648,9 @@ func sUnionSet(db *MemDb, cmd [][]byte) resp.RedisData {
 	keys := make([]string, 0, len(cmd)-1)
 	for _, _key := range cmd[1:] {
 		key := string(_key)
-		if !db.DeleteExpiredKey(key) {
-			// can't guarantee the key must to be existed
-			keys = append(keys, key)
-		}
+		db.DeleteExpiredKey(key)
+		// can't guarantee the key must to be existed
+		keys = append(keys, key)
 	}
 
 	db.locks.MRLock(keys)
@@ -728,15 +715,10 @@ func sUnionStoreSet(db *MemDb, cmd [][]byte) resp.RedisData {
 	keys := make([]string, 0, len(cmd)-2)
 	for _, _key := range cmd[2:] {
 		key := string(_key)
-		if !db.DeleteExpiredKey(key) {
-			// can't guarantee the key must to be existed
-			keys = append(keys, key)
-		}
+		db.DeleteExpiredKey(key)
+		// can't guarantee the key must to be existed
+		keys = append(keys, key)
 	}
-	if len(keys) == 0 {
-		return resp.NewInteger(0)
-	}
-
 	// get primary key
 	key := keys[0]
 
-- 
2.43.0


From fbbd6f39d54317e92eec2047beb8872c6e0c34d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:04 +0000
Subject: [PATCH 36/65] fix: SINTERSTORE treats a missing operand as the empty
 set

---
 memdb/set.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/memdb/set.go b/memdb/set.go
index 9a13c39..9aa08b6 100644
--- a/memdb/set.go
+++ b/memdb/set.go
@@ -191,13 +191,15 @@ func sInterStoreSet(db *MemDb, cmd [][]byte) resp.RedisData {
 	sets := make([]*Set, 0, len(keys)-1)
 	for _, key := range keys[1:] {
 		_set, ok := db.dict.Get(key)
-		if ok {
-			set, ok := _set.(*Set)
-			if !ok {
-				return resp.NewSimpleError("Operation against a key holding the wrong kind of value")
-			}
-			sets = append(sets, set)
+		if !ok {
+			// Keys that do not exist are considered to be empty sets.
+			_set = NewSet()
 		}
+		set, ok := _set.(*Set)
+		if !ok {
+			return resp.NewSimpleError("Operation against a key holding the wrong kind of value")
+		}
+		sets = append(sets, set)
 	}
 
 	inter := s.Intersect(sets...)
-- 
2.43.0


From f219147b25c41447a3e1815fc3bc81e0f1464654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:05 +0000
Subject: [PATCH 37/65] fix: the STORE set commands store only a complete
 result and delete the destination when it is empty

---
 memdb/set.go | 43 ++++++++++++++++---------------------------
 1 file changed, 16 insertions(+), 27 deletions(-)

diff --git a/memdb/set.go b/memdb/set.go
index 9aa08b6..b2d1f25 100644
--- a/memdb/set.go
+++ b/memdb/set.go
@@ -129,6 +129,16 @@ func sInterSet(db *MemDb, cmd [][]byte) resp.RedisData {
 	return resp.NewArray(res)
 }
 
+// storeSet covers whatever the destination held by the set, an empty set deletes it
+func (db *MemDb) storeSet(dest string, set *Set) {
+	if set.Len() == 0 {
+		db.dict.Delete(dest)
+	} else {
+		db.dict.Set(dest, set)
+	}
+	db.DeleteExpire(dest)
+}
+
 func sInterStoreSet(db *MemDb, cmd [][]byte) resp.RedisData {
 	if len(cmd) < 3 {
 		return resp.NewSimpleError("wrong number of arguments for command")
@@ -167,23 +177,15 @@ func sInterStoreSet(db *MemDb, cmd [][]byte) resp.RedisData {
 		return resp.NewSimpleError("Operation against a key holding the wrong kind of value")
 	}
 
-	// whatever old destination key/value it is, just cover before return
-	_, oldOk := db.dict.Get(dest)
 	destSet := NewSet()
 
-	defer func() {
-		db.dict.Set(dest, destSet)
-		if oldOk {
-			db.DeleteExpire(dest)
-		}
-	}()
-
 	// only primary key
 	if len(keys) == 1 {
 		members := s.Members()
 		for _, mem := range members {
 			destSet.Add(mem)
 		}
+		db.storeSet(dest, destSet)
 		return resp.NewInteger(int64(destSet.Len()))
 	}
 
@@ -207,6 +209,7 @@ func sInterStoreSet(db *MemDb, cmd [][]byte) resp.RedisData {
 	for _, mem := range inter.Members() {
 		destSet.Add(mem)
 	}
+	db.storeSet(dest, destSet)
 
 	return resp.NewInteger(int64(destSet.Len()))
 }
@@ -312,23 +315,15 @@ func sDiffStoreSet(db *MemDb, cmd [][]byte) resp.RedisData {
 		return resp.NewSimpleError("Operation against a key holding the wrong kind of value")
 	}
 
-	// whatever old destination key/value it is, just cover old before return
-	_, oldOk := db.dict.Get(dest)
 	destSet := NewSet()
 
-	defer func() {
-		db.dict.Set(dest, destSet)
-		if oldOk {
-			db.DeleteExpire(dest)
-		}
-	}()
-
 	// only primary key
 	if len(keys) == 1 {
 		members := s.Members()
 		for _, mem := range members {
 			destSet.Add(mem)
 		}
+		db.storeSet(dest, destSet)
 		return resp.NewInteger(int64(destSet.Len()))
 	}
 
@@ -350,6 +345,7 @@ func sDiffStoreSet(db *MemDb, cmd [][]byte) resp.RedisData {
 	for _, mem := range diff.Members() {
 		destSet.Add(mem)
 	}
+	db.storeSet(dest, destSet)
 
 	return resp.NewInteger(int64(destSet.Len()))
 }
@@ -742,23 +738,15 @@ func sUnionStoreSet(db *MemDb, cmd [][]byte) resp.RedisData {
 		return resp.NewSimpleError("Operation against a key holding the wrong kind of value")
 	}
 
-	// whatever old destination key/value it is, just cover before return
-	_, oldOk := db.dict.Get(dest)
 	destSet := NewSet()
 
-	defer func() {
-		db.dict.Set(dest, destSet)
-		if oldOk {
-			db.DeleteExpire(dest)
-		}
-	}()
-
 	// only primary key
 	if len(keys) == 1 {
 		members := s.Members()
 		for _, mem := range members {
 			destSet.Add(mem)
 		}
+		db.storeSet(dest, destSet)
 		return resp.NewInteger(int64(destSet.Len()))
 	}
 
@@ -780,6 +768,7 @@ func sUnionStoreSet(db *MemDb, cmd [][]byte) resp.RedisData {
 	for _, mem := range union.Members() {
 		destSet.Add(mem)
 	}
+	db.storeSet(dest, destSet)
 
 	return resp.NewInteger(int64(destSet.Len()))
 }
-- 
2.43.0


From b2cc7e9e2aab6464f83ffb9f1c41052d2aeeebb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:06 +0000
Subject: [PATCH 38/65] fix: SMOVE creates the destination when it does not
 exist

---
 memdb/set.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/memdb/set.go b/memdb/set.go
index b2d1f25..96d495a 100644
--- a/memdb/set.go
+++ b/memdb/set.go
@@ -430,9 +430,7 @@ func sMoveSet(db *MemDb, cmd [][]byte) resp.RedisData {
 	}
 
 	des := string(cmd[2])
-	if db.DeleteExpiredKey(des) {
-		return resp.NewInteger(0)
-	}
+	db.DeleteExpiredKey(des)
 
 	member := string(cmd[3])
 
@@ -458,7 +456,11 @@ func sMoveSet(db *MemDb, cmd [][]byte) resp.RedisData {
 
 	desVal, ok := db.dict.Get(des)
 	if !ok {
-		return resp.NewInteger(0)
+		if !srcSet.Has(member) {
+			return resp.NewInteger(0)
+		}
+		desVal = NewSet()
+		db.dict.Set(des, desVal)
 	}
 
 	desSet, ok := desVal.(*Set)
-- 
2.43.0


From 6bc854abbbdbf06935b45d6c9af3e79c5437d0c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:07 +0000
Subject: [PATCH 39/65] fix: SPOP and SRANDMEMBER return an empty member as an
 empty string

---
 memdb/set.go | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/memdb/set.go b/memdb/set.go
index 96d495a..cc2761d 100644
--- a/memdb/set.go
+++ b/memdb/set.go
@@ -520,11 +520,7 @@ func sPopSet(db *MemDb, cmd [][]byte) resp.RedisData {
 	}()
 
 	if !count {
-		pop := s.Pop()
-		if pop == "" {
-			return resp.NewBulkString(nil)
-		}
-		return resp.NewBulkString([]byte(pop))
+		return resp.NewBulkString([]byte(s.Pop()))
 	}
 
 	if countVal > s.Len() {
@@ -581,9 +577,6 @@ func sRandMemberSet(db *MemDb, cmd [][]byte) resp.RedisData {
 	var rand []string
 	if !count {
 		rand = s.Random(1)
-		if rand[0] == "" {
-			return resp.NewBulkString(nil)
-		}
 		return resp.NewBulkString([]byte(rand[0]))
 	}
 
-- 
2.43.0


From 651f1a989d31a97761bba7225f77344d82e58dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:08 +0000
Subject: [PATCH 40/65] fix: SRANDMEMBER and HRANDFIELD do not allocate for
 absurd counts

---
 memdb/hash.go       |  3 +++
 memdb/set.go        | 11 ++++-------
 memdb/set_struct.go |  3 +++
 3 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/memdb/hash.go b/memdb/hash.go
index a0ff8c1..800f90b 100644
--- a/memdb/hash.go
+++ b/memdb/hash.go
@@ -526,6 +526,9 @@ func hRandFieldHash(db *MemDb, cmd [][]byte) resp.RedisData {
 		if err != nil {
 			return resp.NewSimpleError("value is not an integer")
 		}
+		if count < -maxRandomCount {
+			return resp.NewSimpleError("value is out of range")
+		}
 	}
 
 	if len(cmd) == 4 {
diff --git a/memdb/set.go b/memdb/set.go
index cc2761d..9847794 100644
--- a/memdb/set.go
+++ b/memdb/set.go
@@ -555,6 +555,9 @@ func sRandMemberSet(db *MemDb, cmd [][]byte) resp.RedisData {
 		if err != nil {
 			return resp.NewSimpleError("value is not an integer")
 		}
+		if countVal < -maxRandomCount {
+			return resp.NewSimpleError("value is out of range")
+		}
 	}
 
 	if countVal == 0 {
@@ -580,14 +583,8 @@ func sRandMemberSet(db *MemDb, cmd [][]byte) resp.RedisData {
 		return resp.NewBulkString([]byte(rand[0]))
 	}
 
-	var res []resp.RedisData
-	if countVal < 0 {
-		res = make([]resp.RedisData, 0, -countVal)
-	} else {
-		res = make([]resp.RedisData, 0, countVal)
-	}
-
 	rand = s.Random(countVal)
+	res := make([]resp.RedisData, 0, len(rand))
 	for i := 0; i < len(rand); i++ {
 		res = append(res, resp.NewBulkString([]byte(rand[i])))
 	}
diff --git a/memdb/set_struct.go b/memdb/set_struct.go
index f98ed38..b72f99c 100644
--- a/memdb/set_struct.go
+++ b/memdb/set_struct.go
@@ -6,6 +6,9 @@ type Set struct {
 	table map[string]void
 }
 
+// the largest number of elements, possibly repeated, that SRANDMEMBER and HRANDFIELD return
+const maxRandomCount = 1 << 24
+
 func NewSet() *Set {
 	return &Set{table: make(map[string]void)}
 }
-- 
2.43.0


From bec223dbbe38e938dc478b53d0e8aada1e0ea325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:52 +0000
Subject: [PATCH 41/65] fix: every connection has its own selected database

---
 server/handler.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/server/handler.go b/server/handler.go
index 017598f..e42680c 100644
--- a/server/handler.go
+++ b/server/handler.go
@@ -29,6 +29,9 @@ func NewManager(config *config.Config) *Manager {
 }
 
 func (m *Manager) Handle(conn net.Conn) {
+	// every connection has its own selected database
+	m = &Manager{db: m.dbs[0], dbs: m.dbs}
+
 	// parse conn
 	ch := resp.ParseStream(conn)
 
-- 
2.43.0


From b900bd22bec67658e5c13cb6d3a075f80dcf8bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:52 +0000
Subject: [PATCH 42/65] fix: SELECT out of range is an error reply

---
 server/handler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/handler.go b/server/handler.go
index e42680c..18b7a22 100644
--- a/server/handler.go
+++ b/server/handler.go
@@ -114,7 +114,7 @@ func (m *Manager) Select(cmd [][]byte) resp.RedisData {
 	}
 
 	if dbIdx >= len(m.dbs) || dbIdx < 0 {
-		return resp.NewSimpleString(fmt.Sprintf("ERR DB index is out of range with maximum %d", len(m.dbs)))
+		return resp.NewSimpleError(fmt.Sprintf("ERR DB index is out of range with maximum %d", len(m.dbs)))
 	}
 
 	m.db = m.dbs[dbIdx]
-- 
2.43.0


From ed128dc9ee62f5e5ea60d0cf9beb4deffd19b56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:53 +0000
Subject: [PATCH 43/65] fix: an empty request is ignored

---
 server/handler.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/server/handler.go b/server/handler.go
index 18b7a22..c4db0a6 100644
--- a/server/handler.go
+++ b/server/handler.go
@@ -70,6 +70,9 @@ func (m *Manager) Handle(conn net.Conn) {
 
 		// excute parsed command
 		cmd := arrayData.ToCommand()
+		if len(cmd) == 0 {
+			continue
+		}
 		redisData := m.ExecCommand(cmd)
 
 		// write result to connection
-- 
2.43.0


From c49542bd6d29fe7eea988a84769d35e3bc823a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:54 +0000
Subject: [PATCH 44/65] fix: a line that is too short or of unknown type is a
 protocol error

---
 resp/parser.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/resp/parser.go b/resp/parser.go
index 88efef6..da3c9ba 100644
--- a/resp/parser.go
+++ b/resp/parser.go
@@ -142,7 +142,7 @@ func readline(reader *bufio.Reader, buf *readBuffer) (msg []byte, err error) {
 		if err != nil {
 			return nil, err
 		}
-		if len(msg) == 0 || msg[len(msg)-2] != '\r' {
+		if len(msg) < 3 || msg[len(msg)-2] != '\r' {
 			return nil, errors.New("Protocol error: stream msg invalid")
 		}
 	}
@@ -166,6 +166,8 @@ func parseSingleLine(msg []byte) (RedisData, error) {
 			return nil, err
 		}
 		data = NewInteger(integerData)
+	default:
+		return nil, errors.New("Protocol error: unknown type " + strconv.Quote(string(msgType)))
 	}
 
 	return data, nil
-- 
2.43.0


From 2e490033c149ac8d4cf5930906a1ed9fe14383bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:56 +0000
Subject: [PATCH 45/65] fix: bulk strings longer than 512MB are a protocol
 error

---
 resp/parser.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/resp/parser.go b/resp/parser.go
index da3c9ba..8b75e4b 100644
--- a/resp/parser.go
+++ b/resp/parser.go
@@ -12,6 +12,10 @@ type RedisResp struct {
 	Data RedisData
 	Err  error
 }
+
+// the longest bulk string accepted
+const maxBulkLen = 512 * 1024 * 1024
+
 type readBuffer struct {
 	stringLen int64 // bulk string
 	multiLine bool
@@ -176,7 +180,7 @@ func parseSingleLine(msg []byte) (RedisData, error) {
 func parseBulkStringHeader(msg []byte, buf *readBuffer) error {
 	// read header; discard flag and "\r\n"
 	stringLen, err := strconv.ParseInt(string(msg[1:len(msg)-2]), 10, 64)
-	if stringLen < -1 || err != nil {
+	if stringLen < -1 || stringLen > maxBulkLen || err != nil {
 		return errors.New("Protocol error: " + string(msg))
 	}
 
-- 
2.43.0


From c25169e7578dc18c1184f170617780e70d71a78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:57 +0000
Subject: [PATCH 46/65] fix: the parser ends at the first error

---
 resp/parser.go | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/resp/parser.go b/resp/parser.go
index 8b75e4b..2eaa993 100644
--- a/resp/parser.go
+++ b/resp/parser.go
@@ -30,7 +30,10 @@ func ParseStream(reader io.Reader) <-chan *RedisResp {
 	return ch
 }
 
+// parse ends with the stream: the last value it sends is an error
 func parse(reader io.Reader, ch chan *RedisResp) {
+	defer close(ch)
+
 	streamReader := bufio.NewReader(reader)
 	buf := &readBuffer{}
 
@@ -38,16 +41,11 @@ func parse(reader io.Reader, ch chan *RedisResp) {
 		var data RedisData
 		msg, err := readline(streamReader, buf)
 		if err != nil {
-			// read all and close channel
-			if err == io.EOF {
-				ch <- &RedisResp{Err: err}
-				close(ch)
-				return
+			if err != io.EOF {
+				logger.Error("Stream Error: ", err)
 			}
-			logger.Error("Stream Error: ", err)
 			ch <- &RedisResp{Err: err}
-			buf = &readBuffer{}
-			continue
+			return
 		}
 		// make redis data
 		if buf.multiLine {
@@ -63,7 +61,7 @@ func parse(reader io.Reader, ch chan *RedisResp) {
 				if err != nil {
 					logger.Error("Stream Error: ", err)
 					ch <- &RedisResp{Err: err}
-					buf = &readBuffer{}
+					return
 				} else {
 					if buf.stringLen == -1 { // null bulk string
 						if buf.inArray { // Null elements in arrays; ["hello",nil,"world"]
@@ -89,7 +87,7 @@ func parse(reader io.Reader, ch chan *RedisResp) {
 				if err != nil {
 					logger.Error("Stream Error: ", err)
 					ch <- &RedisResp{Err: err}
-					buf = &readBuffer{}
+					return
 				} else {
 					if buf.arrayLen == -1 { // null bulk string
 						ch <- &RedisResp{Data: NewArray(nil)}
@@ -108,8 +106,7 @@ func parse(reader io.Reader, ch chan *RedisResp) {
 		if err != nil {
 			logger.Error("Stream Error: ", err)
 			ch <- &RedisResp{Err: err}
-			buf = &readBuffer{}
-			continue
+			return
 		}
 
 		// send redis data
-- 
2.43.0


From 4de7563cf93ef43fdcba8eaa5bee856df2b5e682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:34 +0000
Subject: [PATCH 47/65] fix: an empty array inside an array does not swallow
 the rest of the stream

---
 resp/parser.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resp/parser.go b/resp/parser.go
index 2eaa993..5e00475 100644
--- a/resp/parser.go
+++ b/resp/parser.go
@@ -91,9 +91,10 @@ func parse(reader io.Reader, ch chan *RedisResp) {
 				} else {
 					if buf.arrayLen == -1 { // null bulk string
 						ch <- &RedisResp{Data: NewArray(nil)}
-						buf.arrayLen = 0
+						buf = &readBuffer{}
 					} else if buf.arrayLen == 0 {
 						ch <- &RedisResp{Data: NewArray([]RedisData{})}
+						buf = &readBuffer{}
 					}
 				}
 				continue
-- 
2.43.0


From 7a72aa15a8a81ceb351849090b3f18c6834eb192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:35 +0000
Subject: [PATCH 48/65] fix: simple strings and errors never contain a line
 break

---
 resp/data.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/resp/data.go b/resp/data.go
index 65b99da..e92eb70 100644
--- a/resp/data.go
+++ b/resp/data.go
@@ -14,6 +14,9 @@ import (
 
 var (
 	CRLF string = "\r\n"
+
+	// simple strings and errors end at the first line break
+	oneLine = strings.NewReplacer("\r", " ", "\n", " ")
 )
 
 type RedisData interface {
@@ -60,7 +63,7 @@ func (s *SimpleString) GetBytesData() []byte {
 }
 
 func (s *SimpleString) ToRedisFormat() []byte {
-	return []byte(fmt.Sprintf("+%s%s", s.data, CRLF)) // +OK\r\n
+	return []byte(fmt.Sprintf("+%s%s", oneLine.Replace(s.data), CRLF)) // +OK\r\n
 }
 
 func (s *SimpleString) String() string {
@@ -83,7 +86,7 @@ func (e *SimpleError) GetBytesData() []byte {
 }
 
 func (e *SimpleError) ToRedisFormat() []byte {
-	return []byte(fmt.Sprintf("-%s%s", e.data, CRLF)) // -Error message\r\n
+	return []byte(fmt.Sprintf("-%s%s", oneLine.Replace(e.data), CRLF)) // -Error message\r\n
 }
 
 func (e *SimpleError) String() string {
-- 
2.43.0


From 2e30b0951397231e90e3d628531ff213cff028fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:36 +0000
Subject: [PATCH 49/65] fix: a request with a null argument is refused

---
 server/handler.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/server/handler.go b/server/handler.go
index c4db0a6..11f6ba5 100644
--- a/server/handler.go
+++ b/server/handler.go
@@ -92,6 +92,12 @@ func (m *Manager) Handle(conn net.Conn) {
 }
 
 func (m *Manager) ExecCommand(cmd [][]byte) resp.RedisData {
+	for _, arg := range cmd {
+		if arg == nil {
+			return resp.NewSimpleError("null is not a valid argument")
+		}
+	}
+
 	cmdName := strings.ToLower(string((cmd[0])))
 	command, ok := memdb.CmdTable[cmdName]
 
-- 
2.43.0


From c256de9d8bd0a6bf737c2d1e238ac29aa05a1fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:37 +0000
Subject: [PATCH 50/65] fix: protocol errors are logged on one line

---
 resp/parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resp/parser.go b/resp/parser.go
index 5e00475..4fd8fb6 100644
--- a/resp/parser.go
+++ b/resp/parser.go
@@ -179,7 +179,7 @@ func parseBulkStringHeader(msg []byte, buf *readBuffer) error {
 	// read header; discard flag and "\r\n"
 	stringLen, err := strconv.ParseInt(string(msg[1:len(msg)-2]), 10, 64)
 	if stringLen < -1 || stringLen > maxBulkLen || err != nil {
-		return errors.New("Protocol error: " + string(msg))
+		return errors.New("Protocol error: " + strconv.Quote(string(msg)))
 	}
 
 	// len == -1 or len == 0 or len > 0
@@ -204,7 +204,7 @@ func parseArrayHeader(msg []byte, buf *readBuffer) error {
 	// read header; discard flag and "\r\n"
 	arrayLen, err := strconv.ParseInt(string(msg[1:len(msg)-2]), 10, 64)
 	if arrayLen < -1 || err != nil {
-		return errors.New("Protocol error: " + string(msg))
+		return errors.New("Protocol error: " + strconv.Quote(string(msg)))
 	}
 
 	// len == -1 or len == 0 or len > 0
-- 
2.43.0


From 346c27943993ab501a5a0ab0c3e93c1f09d76e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:38 +0000
Subject: [PATCH 51/65] fix: signals are handled before the server starts to
 listen

---
 server/server.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/server/server.go b/server/server.go
index 21518f3..42e88ca 100644
--- a/server/server.go
+++ b/server/server.go
@@ -14,6 +14,10 @@ import (
 
 // start a redis server
 func Start(config *config.Config) error {
+	// handle signal termination
+	osSignals := make(chan os.Signal, 1)
+	signal.Notify(osSignals, os.Interrupt, syscall.SIGTERM, syscall.SIGINT)
+
 	listener, err := net.Listen("tcp", config.Host+":"+strconv.Itoa(config.Port))
 	if err != nil {
 		logger.Panic(err)
@@ -35,10 +39,6 @@ func Start(config *config.Config) error {
 
 	logger.Info("Server Listen at ", config.Host, ":", config.Port)
 
-	// handle signal termination
-	osSignals := make(chan os.Signal, 1)
-	signal.Notify(osSignals, os.Interrupt, syscall.SIGTERM, syscall.SIGINT)
-
 	// client chan
 	clients := make(chan net.Conn)
 
-- 
2.43.0


From e1fa39ff0315ee2a886300832529ceb502262354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:39 +0000
Subject: [PATCH 52/65] fix: the configuration file may end with a newline, and
 read errors are reported

---
 config/config.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/config/config.go b/config/config.go
index 00d7d7a..db77c2a 100644
--- a/config/config.go
+++ b/config/config.go
@@ -93,12 +93,15 @@ func (conf *Config) ParseConfFile() error {
 	for {
 		line, ioErr := fileReader.ReadString('\n')
 		if ioErr != nil && ioErr != io.EOF {
-			return err
+			return ioErr
 		}
 
 		argvs := strings.Fields(line)
 
 		if len(argvs) == 0 {
+			if ioErr == io.EOF {
+				break
+			}
 			continue
 		}
 
-- 
2.43.0


From f2572a6d858038414e23c94f756a66c945263926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:40 +0000
Subject: [PATCH 53/65] fix: a directive without a value is refused

---
 config/config.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/config/config.go b/config/config.go
index db77c2a..b2a2d3b 100644
--- a/config/config.go
+++ b/config/config.go
@@ -105,6 +105,10 @@ func (conf *Config) ParseConfFile() error {
 			continue
 		}
 
+		if len(argvs) == 1 {
+			argvs = append(argvs, "")
+		}
+
 		switch strings.ToLower(argvs[0]) {
 		case "host":
 			if ip := net.ParseIP(argvs[1]); ip == nil {
@@ -117,6 +121,9 @@ func (conf *Config) ParseConfFile() error {
 				return err
 			}
 		case "logdir":
+			if argvs[1] == "" {
+				return errors.New("given logdir invaild")
+			}
 			conf.LogDir = argvs[1]
 		case "loglevel":
 			conf.LogLevel = strings.ToLower(argvs[1])
-- 
2.43.0


From ce45862c57c41a87f31c85b2973deb67edd408d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:41 +0000
Subject: [PATCH 54/65] fix: segnum and dbnum must be positive

---
 config/config.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/config/config.go b/config/config.go
index b2a2d3b..e611070 100644
--- a/config/config.go
+++ b/config/config.go
@@ -76,6 +76,10 @@ func Init() (*Config, error) {
 		}
 	}
 
+	if _conf.SegNum < 1 || _conf.DbNum < 1 {
+		return nil, &CfgError{message: "segnum and dbnum must be positive"}
+	}
+
 	Conf = _conf
 	return Conf, nil
 }
-- 
2.43.0


From d840db942dca3bc47f7d7e5c76fe29ae90f12ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:43 +0000
Subject: [PATCH 55/65] fix: an unknown log level is refused

---
 logger/logger.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/logger/logger.go b/logger/logger.go
index 4951003..85ec7aa 100644
--- a/logger/logger.go
+++ b/logger/logger.go
@@ -8,6 +8,7 @@ import (
 	"os"
 	"path"
 	"runtime"
+	"strings"
 	"sync"
 )
 
@@ -46,12 +47,17 @@ func Init(config *config.Config) error {
 
 	logMu = &sync.Mutex{}
 
+	known := false
 	for i := range logLevelTable {
-		if logLevelTable[i] == config.LogLevel {
+		if strings.EqualFold(logLevelTable[i], config.LogLevel) {
 			logConf.LogLevel = LogLevel(i)
+			known = true
 			break
 		}
 	}
+	if !known {
+		return fmt.Errorf("log level %q is invalid", config.LogLevel)
+	}
 
 	// check dir
 	if _, err = os.Stat(logConf.Path); err != nil {
-- 
2.43.0


From 30591d84bc461a1793d97ce054b3a6dd8e77b1fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:43 +0000
Subject: [PATCH 56/65] fix: the log file is appended to

---
 logger/logger.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/logger/logger.go b/logger/logger.go
index 85ec7aa..cd4b8e7 100644
--- a/logger/logger.go
+++ b/logger/logger.go
@@ -68,7 +68,7 @@ func Init(config *config.Config) error {
 
 	// check file
 	fileName := path.Join(logConf.Path, logConf.Name)
-	logFile, err = os.OpenFile(fileName, os.O_RDWR|os.O_CREATE, 0755)
+	logFile, err = os.OpenFile(fileName, os.O_RDWR|os.O_CREATE|os.O_APPEND, 0755)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 21c90fa1b74772bcf7eb7428b9bb3ea459a4a038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:37 +0000
Subject: [PATCH 57/65] fix: EXPIRE refuses an empty option

---
 memdb/keys.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/memdb/keys.go b/memdb/keys.go
index f49cb62..ca77dff 100644
--- a/memdb/keys.go
+++ b/memdb/keys.go
@@ -142,7 +142,7 @@ func expireKey(db *MemDb, cmd [][]byte) resp.RedisData {
 			res = db.SetExpire(key, ttl)
 		}
 	default:
-		if option != "" {
+		if len(cmd) == 4 {
 			return resp.NewSimpleError(fmt.Sprintf("Unsupported option %s", string(cmd[3])))
 		}
 		res = db.SetExpire(key, ttl)
-- 
2.43.0


From f130178f37dfc10c426678ce477b73c0568ff016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:31:22 +0000
Subject: [PATCH 58/65] fix: a deadline already passed removes the key at once

---
 memdb/memdb.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/memdb/memdb.go b/memdb/memdb.go
index 7c05c92..8f30f4a 100644
--- a/memdb/memdb.go
+++ b/memdb/memdb.go
@@ -42,6 +42,13 @@ func (db *MemDb) SetExpire(key string, ttl int64) int {
 		//logger.Error("SetExpire: key doesn't exist")
 		return 0
 	}
+	// a deadline already passed removes the key at once: a command that found
+	// the key alive and now waits for its lock must not bring it back
+	if time.Now().Unix() > ttl {
+		db.dict.Delete(key)
+		db.expires.Delete(key)
+		return 1
+	}
 	db.expires.Set(key, ttl)
 	return 1
 }
-- 
2.43.0


From 43a490b062f50e0affcefff52bdaae03762935eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:30 +0000
Subject: [PATCH 59/65] fix: KEYS leaves out a key another connection found
 expired

---
 memdb/keys.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/memdb/keys.go b/memdb/keys.go
index ca77dff..acdaf8a 100644
--- a/memdb/keys.go
+++ b/memdb/keys.go
@@ -79,7 +79,8 @@ func keysKey(db *MemDb, cmd [][]byte) resp.RedisData {
 	keys := db.dict.Keys()
 	for _, key := range keys {
 		if !db.DeleteExpiredKey(key) {
-			if util.PattenMatch(pattern, key) {
+			// it may have been deleted, as expired, by another connection
+			if _, ok := db.dict.Get(key); ok && util.PattenMatch(pattern, key) {
 				res = append(res, resp.NewBulkString([]byte(key)))
 			}
 		}
-- 
2.43.0


From 9fcd40c57cb654b7350ba2e3ad29e30e9191432d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:50 +0000
Subject: [PATCH 60/65] fix: RENAME never makes an existing destination absent

---
 memdb/keys.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/memdb/keys.go b/memdb/keys.go
index acdaf8a..3597a5f 100644
--- a/memdb/keys.go
+++ b/memdb/keys.go
@@ -217,12 +217,16 @@ func renameKey(db *MemDb, cmd [][]byte) resp.RedisData {
 		return resp.NewSimpleError("no such key")
 	}
 
+	// the key keeps its value and its time to live
+	if oldKey == newKey {
+		return resp.NewSimpleString("OK")
+	}
+
 	oldTTL, ok := db.expires.Get(oldKey)
 
 	db.dict.Delete(oldKey)
 	db.DeleteExpire(oldKey)
-	// If newkey already exists it is overwritten
-	db.dict.Delete(newKey)
+	// If newkey already exists it is overwritten, without being absent in between
 	db.DeleteExpire(newKey)
 	db.dict.Set(newKey, oldValue)
 
-- 
2.43.0


From 2e19c64fab82f3957971530ee95e168f129efdab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:20 +0000
Subject: [PATCH 61/65] fix: a failure to listen is reported at every log level

---
 main.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/main.go b/main.go
index dc2d1bb..1654852 100644
--- a/main.go
+++ b/main.go
@@ -32,6 +32,7 @@ func main() {
 
 	err = server.Start(config.Conf)
 	if err != nil {
+		fmt.Println(err)
 		os.Exit(1)
 	}
 }
-- 
2.43.0


From 10f70dd2ce1da2add84d5f043dd888e7e8c0b3a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:33 +0000
Subject: [PATCH 62/65] fix: an IPv6 host can be listened on

---
 server/server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/server.go b/server/server.go
index 42e88ca..b422af2 100644
--- a/server/server.go
+++ b/server/server.go
@@ -18,7 +18,7 @@ func Start(config *config.Config) error {
 	osSignals := make(chan os.Signal, 1)
 	signal.Notify(osSignals, os.Interrupt, syscall.SIGTERM, syscall.SIGINT)
 
-	listener, err := net.Listen("tcp", config.Host+":"+strconv.Itoa(config.Port))
+	listener, err := net.Listen("tcp", net.JoinHostPort(config.Host, strconv.Itoa(config.Port)))
 	if err != nil {
 		logger.Panic(err)
 		return err
-- 
2.43.0


From e06262dd7338b4d65c5ad4b0a095de0c480d0ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:51:09 +0000
Subject: [PATCH 63/65] fix: TTL does not report a key as gone that a command
 may still keep

---
 memdb/keys.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/memdb/keys.go b/memdb/keys.go
index 3597a5f..23a1768 100644
--- a/memdb/keys.go
+++ b/memdb/keys.go
@@ -189,9 +189,10 @@ func ttlKey(db *MemDb, cmd [][]byte) resp.RedisData {
 		return resp.NewInteger(int64(-1))
 	}
 
-	// the deadline may have passed since the check above
+	// the deadline may have passed since the check above; the key is still
+	// there, and a command that saw it alive may be about to keep it
 	if ttl.(int64) < now {
-		return resp.NewInteger(int64(-2))
+		return resp.NewInteger(int64(0))
 	}
 
 	return resp.NewInteger(ttl.(int64) - now)
-- 
2.43.0


From cdd48e48c3460b6457e1758634dfb8cda1f6bfee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:08 +0000
Subject: [PATCH 64/65] fix: SRANDMEMBER with count 0 refuses a key of another
 type

---
 memdb/set.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/memdb/set.go b/memdb/set.go
index 9847794..dda30a0 100644
--- a/memdb/set.go
+++ b/memdb/set.go
@@ -560,10 +560,6 @@ func sRandMemberSet(db *MemDb, cmd [][]byte) resp.RedisData {
 		}
 	}
 
-	if countVal == 0 {
-		return resp.NewBulkString(nil)
-	}
-
 	db.locks.RLock(key)
 	defer db.locks.RUnLock(key)
 
@@ -577,6 +573,10 @@ func sRandMemberSet(db *MemDb, cmd [][]byte) resp.RedisData {
 		return resp.NewSimpleError("Operation against a key holding the wrong kind of value")
 	}
 
+	if countVal == 0 {
+		return resp.NewBulkString(nil)
+	}
+
 	var rand []string
 	if !count {
 		rand = s.Random(1)
-- 
2.43.0


From 9500c6c4f29af8b6faad1e704a9d50e537510577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:09 +0000
Subject: [PATCH 65/65] fix: malformed arguments are refused also when the key
 has expired

---
 memdb/hash.go    |  4 +---
 memdb/keys.go    |  4 +---
 memdb/list.go    | 40 ++++++++++------------------------------
 memdb/set.go     |  8 ++------
 memdb/strings.go |  4 +---
 5 files changed, 15 insertions(+), 45 deletions(-)

diff --git a/memdb/hash.go b/memdb/hash.go
index 800f90b..d696ee0 100644
--- a/memdb/hash.go
+++ b/memdb/hash.go
@@ -514,9 +514,7 @@ func hRandFieldHash(db *MemDb, cmd [][]byte) resp.RedisData {
 
 	// passive delete expired key
 	key := string(cmd[1])
-	if db.DeleteExpiredKey(key) {
-		return resp.NewBulkString(nil)
-	}
+	db.DeleteExpiredKey(key)
 	var withvalues bool
 	var err error
 	count := 1
diff --git a/memdb/keys.go b/memdb/keys.go
index 23a1768..345b151 100644
--- a/memdb/keys.go
+++ b/memdb/keys.go
@@ -118,9 +118,7 @@ func expireKey(db *MemDb, cmd [][]byte) resp.RedisData {
 
 	// get key
 	key := string(cmd[1])
-	if db.DeleteExpiredKey(key) {
-		return resp.NewInteger(int64(0))
-	}
+	db.DeleteExpiredKey(key)
 	db.locks.Lock(key)
 	defer db.locks.UnLock(key)
 
diff --git a/memdb/list.go b/memdb/list.go
index 7c7e42b..c32d270 100644
--- a/memdb/list.go
+++ b/memdb/list.go
@@ -15,9 +15,7 @@ func lIndexList(db *MemDb, cmd [][]byte) resp.RedisData {
 
 	// passive delete expired key
 	key := string(cmd[1])
-	if db.DeleteExpiredKey(key) {
-		return resp.NewBulkString(nil)
-	}
+	db.DeleteExpiredKey(key)
 
 	index, err := strconv.Atoi(string(cmd[2]))
 	if err != nil {
@@ -56,9 +54,7 @@ func lInsertList(db *MemDb, cmd [][]byte) resp.RedisData {
 
 	// passive delete expired key
 	key := string(cmd[1])
-	if db.DeleteExpiredKey(key) {
-		return resp.NewInteger(0)
-	}
+	db.DeleteExpiredKey(key)
 
 	var before bool
 	flag := strings.ToLower(string(cmd[2]))
@@ -139,9 +135,7 @@ func lMoveList(db *MemDb, cmd [][]byte) resp.RedisData {
 
 	// passive delete expired key
 	src := string(cmd[1])
-	if db.DeleteExpiredKey(src) {
-		return resp.NewBulkString(nil)
-	}
+	db.DeleteExpiredKey(src)
 
 	des := string(cmd[2])
 	db.DeleteExpiredKey(des)
@@ -206,9 +200,7 @@ func lPopList(db *MemDb, cmd [][]byte) resp.RedisData {
 
 	// passive delete expired key
 	key := string(cmd[1])
-	if db.DeleteExpiredKey(key) {
-		return resp.NewBulkString(nil)
-	}
+	db.DeleteExpiredKey(key)
 
 	count := 1
 	var err error
@@ -273,9 +265,7 @@ func lPosList(db *MemDb, cmd [][]byte) resp.RedisData {
 
 	// passive delete expired key
 	key := string(cmd[1])
-	if db.DeleteExpiredKey(key) {
-		return resp.NewBulkString(nil)
-	}
+	db.DeleteExpiredKey(key)
 
 	element := cmd[2]
 
@@ -538,9 +528,7 @@ func lRangeList(db *MemDb, cmd [][]byte) resp.RedisData {
 
 	// passive delete expired key
 	key := string(cmd[1])
-	if db.DeleteExpiredKey(key) {
-		return resp.NewArray(nil)
-	}
+	db.DeleteExpiredKey(key)
 
 	start, err := strconv.Atoi(string(cmd[2]))
 	if err != nil {
@@ -584,9 +572,7 @@ func lRemList(db *MemDb, cmd [][]byte) resp.RedisData {
 
 	// passive delete expired key
 	key := string(cmd[1])
-	if db.DeleteExpiredKey(key) {
-		return resp.NewInteger(0)
-	}
+	db.DeleteExpiredKey(key)
 
 	count, err := strconv.Atoi(string(cmd[2]))
 	if err != nil {
@@ -629,9 +615,7 @@ func lSetList(db *MemDb, cmd [][]byte) resp.RedisData {
 
 	// passive delete expired key
 	key := string(cmd[1])
-	if db.DeleteExpiredKey(key) {
-		return resp.NewSimpleError("no such key")
-	}
+	db.DeleteExpiredKey(key)
 
 	index, err := strconv.Atoi(string(cmd[2]))
 	if err != nil {
@@ -671,9 +655,7 @@ func lTrimList(db *MemDb, cmd [][]byte) resp.RedisData {
 
 	// passive delete expired key
 	key := string(cmd[1])
-	if db.DeleteExpiredKey(key) {
-		return resp.NewSimpleString("OK")
-	}
+	db.DeleteExpiredKey(key)
 
 	start, err := strconv.Atoi(string(cmd[2]))
 	if err != nil {
@@ -719,9 +701,7 @@ func rPopList(db *MemDb, cmd [][]byte) resp.RedisData {
 
 	// passive delete expired key
 	key := string(cmd[1])
-	if db.DeleteExpiredKey(key) {
-		return resp.NewBulkString(nil)
-	}
+	db.DeleteExpiredKey(key)
 
 	count := 1
 	var err error
diff --git a/memdb/set.go b/memdb/set.go
index dda30a0..694ead4 100644
--- a/memdb/set.go
+++ b/memdb/set.go
@@ -480,9 +480,7 @@ func sPopSet(db *MemDb, cmd [][]byte) resp.RedisData {
 
 	// passive delete expired key
 	key := string(cmd[1])
-	if db.DeleteExpiredKey(key) {
-		return resp.NewBulkString(nil)
-	}
+	db.DeleteExpiredKey(key)
 
 	countVal := 1
 	var err error
@@ -542,9 +540,7 @@ func sRandMemberSet(db *MemDb, cmd [][]byte) resp.RedisData {
 
 	// passive delete expired key
 	key := string(cmd[1])
-	if db.DeleteExpiredKey(key) {
-		return resp.NewBulkString(nil)
-	}
+	db.DeleteExpiredKey(key)
 
 	countVal := 1
 	var err error
diff --git a/memdb/strings.go b/memdb/strings.go
index 06a72f7..f82f9c1 100644
--- a/memdb/strings.go
+++ b/memdb/strings.go
@@ -209,9 +209,7 @@ func getRangeString(db *MemDb, cmd [][]byte) resp.RedisData {
 
 	// passive delete expired key
 	key := string(cmd[1])
-	if db.DeleteExpiredKey(key) {
-		return resp.NewBulkString([]byte{})
-	}
+	db.DeleteExpiredKey(key)
 
 	start, err := strconv.Atoi(string(cmd[2]))
 	if err != nil {
-- 
2.43.0

