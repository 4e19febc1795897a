From d177630ff0d84452f4bae60cdf143417894d2f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:07 +0000
Subject: [PATCH 01/42] fix: HDEL counts a field as removed only when it
 existed

---
 datastruct/hash_table.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datastruct/hash_table.go b/datastruct/hash_table.go
index 8194fe8..aa04cb8 100644
--- a/datastruct/hash_table.go
+++ b/datastruct/hash_table.go
@@ -24,7 +24,7 @@ func newHashTable() *hashTable {
 }
 
 func (h *hashTable) del(field string) int {
-	remove := !h.table.DeleteIfExists(field)
+	remove := h.table.DeleteIfExists(field)
 	if remove {
 		h.length--
 		return 1
-- 
2.43.0


From 78178a71fa8464343a4f5b9a4420c5cef0a57dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:08 +0000
Subject: [PATCH 02/42] fix: HEXISTS answers 0 for a missing field

---
 datastruct/hash_table.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datastruct/hash_table.go b/datastruct/hash_table.go
index aa04cb8..4ae489b 100644
--- a/datastruct/hash_table.go
+++ b/datastruct/hash_table.go
@@ -197,7 +197,7 @@ func HExists(key, field string) (int, error) {
 		return 1, nil
 	}
 
-	return 1, nil
+	return 0, nil
 }
 
 func HGet(key, field string) (interface{}, error) {
-- 
2.43.0


From 57eea278c067c0621f58947afbacaaf3a893dc6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:10 +0000
Subject: [PATCH 03/42] fix: count the field created by HINCRBY and
 HINCRBYFLOAT

---
 datastruct/hash_table.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/datastruct/hash_table.go b/datastruct/hash_table.go
index 4ae489b..78f54c1 100644
--- a/datastruct/hash_table.go
+++ b/datastruct/hash_table.go
@@ -67,6 +67,7 @@ func (h *hashTable) getAll() map[string]interface{} {
 func (h *hashTable) incrBy(field string, i int64) (int64, error) {
 	res, abort := h.table.Upsert(field, i, func(exist bool, valueInMap interface{}, newValue interface{}) (interface{}, bool) {
 		if !exist {
+			h.length++
 			return i, false
 		}
 
@@ -89,6 +90,7 @@ func (h *hashTable) incrBy(field string, i int64) (int64, error) {
 func (h *hashTable) incrByFloat(field string, i float64) (float64, error) {
 	res, abort := h.table.Upsert(field, i, func(exist bool, valueInMap interface{}, newValue interface{}) (interface{}, bool) {
 		if !exist {
+			h.length++
 			return i, false
 		}
 
-- 
2.43.0


From f68dc246dc7f813ddabd540a6b0ad05889e67e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:11 +0000
Subject: [PATCH 04/42] fix: store the hash created by HSET, HINCRBY and
 HINCRBYFLOAT under its key

---
 datastruct/hash_table.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/datastruct/hash_table.go b/datastruct/hash_table.go
index 78f54c1..e054d39 100644
--- a/datastruct/hash_table.go
+++ b/datastruct/hash_table.go
@@ -229,6 +229,10 @@ func HIncrBy(key, field string, i64 int64) (int64, error) {
 	h, err := loadAndCheckHashTable(key, false)
 	if err == ErrNil {
 		h = newHashTable()
+		defaultCache.keys.Set(key, &KeyInfo{
+			Type:  KeyTypeHashTable,
+			Value: h,
+		})
 		err = nil
 	}
 
@@ -243,6 +247,10 @@ func HIncrByFloat(key, field string, f64 float64) (float64, error) {
 	h, err := loadAndCheckHashTable(key, false)
 	if err == ErrNil {
 		h = newHashTable()
+		defaultCache.keys.Set(key, &KeyInfo{
+			Type:  KeyTypeHashTable,
+			Value: h,
+		})
 		err = nil
 	}
 
@@ -286,6 +294,10 @@ func HSet(key string, flag int, kvs ...*KV) (int, error) {
 	h, err := loadAndCheckHashTable(key, false)
 	if err == ErrNil {
 		h = newHashTable()
+		defaultCache.keys.Set(key, &KeyInfo{
+			Type:  KeyTypeHashTable,
+			Value: h,
+		})
 		err = nil
 	}
 
-- 
2.43.0


From c12bfb2a899342ea79fd5a9ec3845492f162997e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:13 +0000
Subject: [PATCH 05/42] fix: HGETALL replies numeric values as text instead of
 panicking

---
 datastruct/hash_table.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/datastruct/hash_table.go b/datastruct/hash_table.go
index e054d39..bed0b83 100644
--- a/datastruct/hash_table.go
+++ b/datastruct/hash_table.go
@@ -61,7 +61,26 @@ func (h *hashTable) get(field string) (interface{}, bool) {
 }
 
 func (h *hashTable) getAll() map[string]interface{} {
-	return h.table.Items()
+	items := h.table.Items()
+	for field, value := range items {
+		items[field] = formatValue(value)
+	}
+
+	return items
+}
+
+// formatValue return the text of a value stored in hash table
+func formatValue(value interface{}) string {
+	switch v := value.(type) {
+	case string:
+		return v
+	case int64:
+		return strconv.FormatInt(v, 10)
+	case float64:
+		return strconv.FormatFloat(v, 'g', -1, 64)
+	}
+
+	return ""
 }
 
 func (h *hashTable) incrBy(field string, i int64) (int64, error) {
-- 
2.43.0


From f4923c62281add37df830b16291e94ec0156515a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:14 +0000
Subject: [PATCH 06/42] fix: MGET replies nil for keys that hold no string
 instead of panicking

---
 datastruct/string.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/datastruct/string.go b/datastruct/string.go
index b2bc8e7..037d8e5 100644
--- a/datastruct/string.go
+++ b/datastruct/string.go
@@ -85,7 +85,8 @@ func MGet(keys ...string) []interface{} {
 		}
 
 		if err != nil {
-			result = append(result, err)
+			// not a string, same as not exists for mget
+			result = append(result, nil)
 			continue
 		}
 
-- 
2.43.0


From f7d8f0b439e22b01c9a6831a162b21d5e6792848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:16 +0000
Subject: [PATCH 07/42] fix: keep the text of hash values that are not
 canonical numbers

---
 util/strconv.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/util/strconv.go b/util/strconv.go
index 4f079e7..d9c9943 100644
--- a/util/strconv.go
+++ b/util/strconv.go
@@ -4,16 +4,17 @@ import (
 	"strconv"
 )
 
-// ConvertToValidValue convert s either int64 or float64 otherwise return s itself.
+// ConvertToValidValue convert s either int64 or float64 when the number is formatted back to the same text,
+// otherwise return s itself.
 func ConvertToValidValue(s string) interface{} {
 	// try int64
 	i64, err := strconv.ParseInt(s, 10, 64)
-	if err == nil {
+	if err == nil && strconv.FormatInt(i64, 10) == s {
 		return i64
 	}
 
 	f64, err := strconv.ParseFloat(s, 64)
-	if err == nil {
+	if err == nil && strconv.FormatFloat(f64, 'g', -1, 64) == s {
 		return f64
 	}
 
-- 
2.43.0


From 5d0b286a29038628c209903b25e05cfe8bad0eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:59 +0000
Subject: [PATCH 08/42] fix: reply an error when a counter would overflow

---
 datastruct/hash_table.go |  7 ++++++-
 datastruct/string.go     | 15 ++++++++++++++-
 redis/string.go          |  6 ++++++
 3 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/datastruct/hash_table.go b/datastruct/hash_table.go
index bed0b83..59930ec 100644
--- a/datastruct/hash_table.go
+++ b/datastruct/hash_table.go
@@ -95,7 +95,12 @@ func (h *hashTable) incrBy(field string, i int64) (int64, error) {
 			return ErrNotInteger, true
 		}
 
-		return i64 + newValue.(int64), false
+		sum, ok := addInt64(i64, newValue.(int64))
+		if !ok {
+			return ErrNotInteger, true
+		}
+
+		return sum, false
 	})
 
 	if abort {
diff --git a/datastruct/string.go b/datastruct/string.go
index 037d8e5..79c61dc 100644
--- a/datastruct/string.go
+++ b/datastruct/string.go
@@ -53,12 +53,25 @@ func IncrBy(key string, incrBy int64) (value int64, err error) {
 	if err1 != nil {
 		return 0, ErrNotInteger
 	}
-	value = i64 + incrBy
+	value, ok = addInt64(i64, incrBy)
+	if !ok {
+		return 0, ErrNotInteger
+	}
 	info.Value = strconv.FormatInt(value, 10)
 
 	return
 }
 
+// addInt64 return false if the sum overflows
+func addInt64(a, b int64) (sum int64, ok bool) {
+	sum = a + b
+	if (b > 0 && sum < a) || (b < 0 && sum > a) {
+		return 0, false
+	}
+
+	return sum, true
+}
+
 func Get(key string) (string, error) {
 	v, ok := defaultCache.keys.Get(key)
 	if !ok {
diff --git a/redis/string.go b/redis/string.go
index 150b931..2a53c99 100644
--- a/redis/string.go
+++ b/redis/string.go
@@ -1,6 +1,7 @@
 package redis
 
 import (
+	"math"
 	"strconv"
 
 	"github.com/yusank/godis/datastruct"
@@ -109,6 +110,11 @@ func decrBy(c *Command) (*protocol.Response, error) {
 		return nil, datastruct.ErrNotInteger
 	}
 
+	// -decrement is not an int64
+	if decrement == math.MinInt64 {
+		return nil, datastruct.ErrNotInteger
+	}
+
 	i64, err := datastruct.IncrBy(c.Values[0], -decrement)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 85b3a6c2f3321a883975823612ba76997101e6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:00 +0000
Subject: [PATCH 09/42] fix: reject MSET with a key that has no value

---
 redis/string.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redis/string.go b/redis/string.go
index 2a53c99..54ab398 100644
--- a/redis/string.go
+++ b/redis/string.go
@@ -21,7 +21,7 @@ func set(c *Command) (*protocol.Response, error) {
 
 // mSet .
 func mSet(c *Command) (*protocol.Response, error) {
-	if len(c.Values) < 2 && len(c.Values)%2 != 0 {
+	if len(c.Values) < 2 || len(c.Values)%2 != 0 {
 		return nil, ErrCommandArgsNotEnough
 	}
 
-- 
2.43.0


From 6521be556d929b41c3c9ee497e113e68f2cd8852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:01 +0000
Subject: [PATCH 10/42] fix: reject HSET and HMSET with a field that has no
 value

---
 redis/hash_table.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/redis/hash_table.go b/redis/hash_table.go
index bca2821..42af3a3 100644
--- a/redis/hash_table.go
+++ b/redis/hash_table.go
@@ -202,7 +202,7 @@ func hMGet(c *Command) (*protocol.Response, error) {
 
 // hMSet .
 func hMSet(c *Command) (*protocol.Response, error) {
-	if len(c.Values) < 3 {
+	if len(c.Values) < 3 || len(c.Values)%2 == 0 {
 		return nil, ErrCommandArgsNotEnough
 	}
 
@@ -228,7 +228,7 @@ func hMSet(c *Command) (*protocol.Response, error) {
 
 // hSet .
 func hSet(c *Command) (*protocol.Response, error) {
-	if len(c.Values) < 3 {
+	if len(c.Values) < 3 || len(c.Values)%2 == 0 {
 		return nil, ErrCommandArgsNotEnough
 	}
 
-- 
2.43.0


From 977454fda5af7c68e5862d455f39345e3dc0595d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:03 +0000
Subject: [PATCH 11/42] fix: reject ZADD with a score that has no member

---
 redis/sorted_set.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/redis/sorted_set.go b/redis/sorted_set.go
index 46ca1d5..e252336 100644
--- a/redis/sorted_set.go
+++ b/redis/sorted_set.go
@@ -22,7 +22,8 @@ func zAdd(c *Command) (*protocol.Response, error) {
 		flag    int
 	)
 
-	for i := 1; i < len(c.Values)-1; {
+	i := 1
+	for i < len(c.Values)-1 {
 		switch strings.ToLower(c.Values[i]) {
 		case "xx":
 			flag |= datastruct.ZAddInXx
@@ -48,6 +49,11 @@ func zAdd(c *Command) (*protocol.Response, error) {
 		}
 	}
 
+	// a score without member, or only flags
+	if i != len(c.Values) || len(members) == 0 {
+		return nil, ErrCommandArgsNotEnough
+	}
+
 	cnt, err := datastruct.ZAdd(key, members, flag)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 943cfb82a28471404b35cb8875481a99e8b40946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:04 +0000
Subject: [PATCH 12/42] fix: SPOP keeps the size of the set in step

---
 datastruct/set.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/datastruct/set.go b/datastruct/set.go
index fd71b59..5969041 100644
--- a/datastruct/set.go
+++ b/datastruct/set.go
@@ -46,6 +46,7 @@ func (s *set) sPop(cnt int) []string {
 
 		result = append(result, key)
 		cnt--
+		s.length--
 		return true, true
 	})
 
-- 
2.43.0


From 0a9c8ae039f1ba4f968d717a0d2c87b4cea5bc3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:05 +0000
Subject: [PATCH 13/42] fix: SMOVE checks the target first, keeps the source
 size and replies whether it moved

---
 datastruct/set.go | 15 ++++++++++++---
 redis/set.go      |  2 +-
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/datastruct/set.go b/datastruct/set.go
index 5969041..b81a7ba 100644
--- a/datastruct/set.go
+++ b/datastruct/set.go
@@ -186,13 +186,22 @@ func SMove(source, target, value string) (int, error) {
 		return 0, err
 	}
 
-	exists := sset.m.DeleteIfExists(value)
-	if !exists {
+	// check target before touching source
+	_, err = loadAndCheckSet(target, false)
+	if err != nil && err != ErrNil {
+		return 0, err
+	}
+
+	if sset.sRem(value) == 0 {
 		// not exist
 		return 0, ErrNil
 	}
 
-	return SAdd(target, value)
+	if _, err = SAdd(target, value); err != nil {
+		return 0, err
+	}
+
+	return 1, nil
 }
 
 func SDiff(keys ...string) ([]string, error) {
diff --git a/redis/set.go b/redis/set.go
index c30ea54..c744ab6 100644
--- a/redis/set.go
+++ b/redis/set.go
@@ -199,7 +199,7 @@ func sMove(c *Command) (*protocol.Response, error) {
 	)
 
 	res, err := datastruct.SMove(source, target, value)
-	if err != nil {
+	if err != nil && err != datastruct.ErrNil {
 		return nil, err
 	}
 
-- 
2.43.0


From c9464d1b2ab4f562832675f85c4e2ed795653270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:06 +0000
Subject: [PATCH 14/42] fix: SDIFFSTORE, SINTERSTORE and SUNIONSTORE never
 share a set between two keys

---
 datastruct/set.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/datastruct/set.go b/datastruct/set.go
index b81a7ba..5ade8a6 100644
--- a/datastruct/set.go
+++ b/datastruct/set.go
@@ -238,7 +238,7 @@ func SDiffStore(storeKey string, keys ...string) (int, error) {
 		}
 
 		if i == 0 {
-			result = s
+			result = sUnion(s) // copy, never share a set between keys
 			continue
 		}
 
@@ -292,7 +292,7 @@ func SInterStore(storeKey string, keys ...string) (int, error) {
 		}
 
 		if i == 0 {
-			result = s
+			result = sUnion(s) // copy, never share a set between keys
 			continue
 		}
 
@@ -346,7 +346,7 @@ func SUnionStore(storeKey string, keys ...string) (int, error) {
 		}
 
 		if i == 0 {
-			result = s
+			result = sUnion(s) // copy, never share a set between keys
 			continue
 		}
 
-- 
2.43.0


From e8658763c74857bd98aeea567d4cc5e3c6c21e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:08 +0000
Subject: [PATCH 15/42] fix: set algebra and SMEMBERS treat a missing key as an
 empty set

---
 datastruct/set.go | 22 ++++++++++++++++------
 redis/set.go      | 26 +-------------------------
 2 files changed, 17 insertions(+), 31 deletions(-)

diff --git a/datastruct/set.go b/datastruct/set.go
index 5ade8a6..b794cdc 100644
--- a/datastruct/set.go
+++ b/datastruct/set.go
@@ -110,6 +110,16 @@ func loadAndCheckSet(key string, check bool) (*set, error) {
 	return s, nil
 }
 
+// loadSetOrEmpty treat a key that not exists as an empty set
+func loadSetOrEmpty(key string) (*set, error) {
+	s, err := loadAndCheckSet(key, false)
+	if err == ErrNil {
+		return newSet(), nil
+	}
+
+	return s, err
+}
+
 func SAdd(key string, values ...string) (int, error) {
 	s, err := loadAndCheckSet(key, false)
 	if err == ErrNil {
@@ -208,7 +218,7 @@ func SDiff(keys ...string) ([]string, error) {
 	var result *set
 
 	for i, key := range keys {
-		s, err := loadAndCheckSet(key, true)
+		s, err := loadSetOrEmpty(key)
 		if err != nil {
 			return nil, err
 		}
@@ -232,7 +242,7 @@ func SDiffStore(storeKey string, keys ...string) (int, error) {
 	var result *set
 
 	for i, key := range keys {
-		s, err := loadAndCheckSet(key, true)
+		s, err := loadSetOrEmpty(key)
 		if err != nil {
 			return 0, err
 		}
@@ -262,7 +272,7 @@ func SInter(keys ...string) ([]string, error) {
 	var result *set
 
 	for i, key := range keys {
-		s, err := loadAndCheckSet(key, true)
+		s, err := loadSetOrEmpty(key)
 		if err != nil {
 			return nil, err
 		}
@@ -286,7 +296,7 @@ func SInterStore(storeKey string, keys ...string) (int, error) {
 	var result *set
 
 	for i, key := range keys {
-		s, err := loadAndCheckSet(key, true)
+		s, err := loadSetOrEmpty(key)
 		if err != nil {
 			return 0, err
 		}
@@ -316,7 +326,7 @@ func SUnion(keys ...string) ([]string, error) {
 	var result *set
 
 	for i, key := range keys {
-		s, err := loadAndCheckSet(key, true)
+		s, err := loadSetOrEmpty(key)
 		if err != nil {
 			return nil, err
 		}
@@ -340,7 +350,7 @@ func SUnionStore(storeKey string, keys ...string) (int, error) {
 	var result *set
 
 	for i, key := range keys {
-		s, err := loadAndCheckSet(key, true)
+		s, err := loadSetOrEmpty(key)
 		if err != nil {
 			return 0, err
 		}
diff --git a/redis/set.go b/redis/set.go
index c744ab6..98813d9 100644
--- a/redis/set.go
+++ b/redis/set.go
@@ -44,10 +44,6 @@ func sDiff(c *Command) (*protocol.Response, error) {
 		return nil, ErrCommandArgsNotEnough
 	}
 
-	if len(c.Values) == 1 {
-		return protocol.NewResponseWithEmptyArray(), nil
-	}
-
 	diffs, err := datastruct.SDiff(c.Values...)
 	if err == datastruct.ErrNil {
 		return protocol.NewResponseWithEmptyArray(), nil
@@ -66,10 +62,6 @@ func sDiffStore(c *Command) (*protocol.Response, error) {
 		return nil, ErrCommandArgsNotEnough
 	}
 
-	if len(c.Values) == 1 {
-		return protocol.NewResponseWithEmptyArray(), nil
-	}
-
 	cnt, err := datastruct.SDiffStore(c.Values[0], c.Values[1:]...)
 	if err != nil {
 		return nil, err
@@ -84,10 +76,6 @@ func sInter(c *Command) (*protocol.Response, error) {
 		return nil, ErrCommandArgsNotEnough
 	}
 
-	if len(c.Values) == 1 {
-		return protocol.NewResponseWithEmptyArray(), nil
-	}
-
 	inter, err := datastruct.SInter(c.Values...)
 	if err == datastruct.ErrNil {
 		return protocol.NewResponseWithEmptyArray(), nil
@@ -106,10 +94,6 @@ func sInterStore(c *Command) (*protocol.Response, error) {
 		return nil, ErrCommandArgsNotEnough
 	}
 
-	if len(c.Values) == 1 {
-		return protocol.NewResponseWithEmptyArray(), nil
-	}
-
 	cnt, err := datastruct.SInterStore(c.Values[0], c.Values[1:]...)
 	if err != nil {
 		return nil, err
@@ -124,10 +108,6 @@ func sUnion(c *Command) (*protocol.Response, error) {
 		return nil, ErrCommandArgsNotEnough
 	}
 
-	if len(c.Values) == 1 {
-		return protocol.NewResponseWithEmptyArray(), nil
-	}
-
 	unions, err := datastruct.SUnion(c.Values...)
 	if err == datastruct.ErrNil {
 		return protocol.NewResponseWithEmptyArray(), nil
@@ -146,10 +126,6 @@ func sUnionStore(c *Command) (*protocol.Response, error) {
 		return nil, ErrCommandArgsNotEnough
 	}
 
-	if len(c.Values) == 1 {
-		return protocol.NewResponseWithEmptyArray(), nil
-	}
-
 	cnt, err := datastruct.SUnionStore(c.Values[0], c.Values[1:]...)
 	if err != nil {
 		return nil, err
@@ -179,7 +155,7 @@ func sMembers(c *Command) (*protocol.Response, error) {
 	}
 
 	vals, err := datastruct.SMembers(c.Values[0])
-	if err != nil {
+	if err != nil && err != datastruct.ErrNil {
 		return nil, err
 	}
 
-- 
2.43.0


From 95d357ec941c23fdcd998263c9f1a90f9db25ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:09 +0000
Subject: [PATCH 16/42] fix: SPOP without count pops one member

---
 redis/set.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redis/set.go b/redis/set.go
index 98813d9..7b2728f 100644
--- a/redis/set.go
+++ b/redis/set.go
@@ -204,7 +204,7 @@ func SPop(c *Command) (*protocol.Response, error) {
 
 	var (
 		key = c.Values[0]
-		cnt int
+		cnt = 1
 		err error
 	)
 
-- 
2.43.0


From 09e3e19850fe58ee944262dd985a286d9cc5d184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:10 +0000
Subject: [PATCH 17/42] fix: LREM that empties a list leaves neither head nor
 tail behind

---
 datastruct/list.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/datastruct/list.go b/datastruct/list.go
index 054d941..3e8bc50 100644
--- a/datastruct/list.go
+++ b/datastruct/list.go
@@ -222,6 +222,9 @@ func (l *List) LRemCountFromHead(value string, n int) (cnt int) {
 		// if remove first element from, dumbHead.next.prev will be point to dumbHead
 		// // In other words, l.head.tail will be not nil
 		l.head.prev = nil
+	} else {
+		// nothing left, never keep dumbHead as tail
+		l.tail = nil
 	}
 	l.length -= cnt
 	return
@@ -274,6 +277,9 @@ func (l *List) LRemCountFromTail(value string, n int) (cnt int) {
 		// if remove first element from tail, dumbTail.prev.next will be point to dumbTail
 		// In other words, l.tail.next will be not nil
 		l.tail.next = nil
+	} else {
+		// nothing left, never keep dumbTail as head
+		l.head = nil
 	}
 
 	l.length -= cnt
-- 
2.43.0


From ffad3c244404580a37f32bf2dcbbb92d2f9a0ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:11 +0000
Subject: [PATCH 18/42] fix: LINDEX looks up the key instead of the index

---
 redis/list.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redis/list.go b/redis/list.go
index 84d3326..5a6d262 100644
--- a/redis/list.go
+++ b/redis/list.go
@@ -166,7 +166,7 @@ func lIndex(c *Command) (*protocol.Response, error) {
 		return nil, ErrValueOutOfRange
 	}
 
-	val, err := datastruct.LIndex(c.Values[1], index)
+	val, err := datastruct.LIndex(c.Values[0], index)
 	if err == datastruct.ErrNil {
 		return protocol.NewResponseWithNilBulk(), nil
 	}
-- 
2.43.0


From 740a2f23aeb21b0c9c2c201a70c24698c316f159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:13 +0000
Subject: [PATCH 19/42] fix: TYPE replies the redis names of set, zset and hash

---
 datastruct/consts.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/datastruct/consts.go b/datastruct/consts.go
index 194e231..02ee5e4 100644
--- a/datastruct/consts.go
+++ b/datastruct/consts.go
@@ -9,9 +9,9 @@ type KeyType string
 const (
 	KeyTypeString    KeyType = "string"
 	KeyTypeList      KeyType = "list"
-	KeyTypeSet       KeyType = "setIfNotExists"
-	KeyTypeSortedSet KeyType = "sortedSet"
-	KeyTypeHashTable KeyType = "hashTable"
+	KeyTypeSet       KeyType = "set"
+	KeyTypeSortedSet KeyType = "zset"
+	KeyTypeHashTable KeyType = "hash"
 )
 
 var (
-- 
2.43.0


From a71ced5016bb9f6ae79ab109401947568f8b46d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:14 +0000
Subject: [PATCH 20/42] fix: KEYS with an invalid pattern replies an error
 instead of crashing the server

---
 datastruct/consts.go | 1 +
 datastruct/keys.go   | 8 ++++++--
 redis/keys.go        | 6 +++++-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/datastruct/consts.go b/datastruct/consts.go
index 02ee5e4..234766c 100644
--- a/datastruct/consts.go
+++ b/datastruct/consts.go
@@ -18,6 +18,7 @@ var (
 	ErrNil                   = errors.New("redis: not found")
 	ErrKeyAndCommandNotMatch = errors.New("key type and command not match")
 	ErrNotInteger            = errors.New("value is not an integer or out of range")
+	ErrInvalidPattern        = errors.New("ERR invalid pattern")
 	ErrNotFloat              = errors.New("ERR value is not a valid float")
 )
 
diff --git a/datastruct/keys.go b/datastruct/keys.go
index 5985a41..0e6c115 100644
--- a/datastruct/keys.go
+++ b/datastruct/keys.go
@@ -59,8 +59,12 @@ func Type(key string) (kt KeyType, found bool) {
 	return v.(*KeyInfo).Type, true
 }
 
-func Keys(pattern string) (keys []string) {
-	g := glob.MustCompile(pattern)
+func Keys(pattern string) (keys []string, err error) {
+	g, err := glob.Compile(pattern)
+	if err != nil {
+		return nil, ErrInvalidPattern
+	}
+
 	defaultCache.keys.Range(func(key string, _ interface{}) bool {
 		if g.Match(key) {
 			keys = append(keys, key)
diff --git a/redis/keys.go b/redis/keys.go
index b8f4b0f..a9af654 100644
--- a/redis/keys.go
+++ b/redis/keys.go
@@ -14,7 +14,11 @@ func keys(c *Command) (*protocol.Response, error) {
 		return nil, ErrCommandArgsNotEnough
 	}
 
-	values := datastruct.Keys(c.Values[0])
+	values, err := datastruct.Keys(c.Values[0])
+	if err != nil {
+		return nil, err
+	}
+
 	return protocol.NewResponse(true).AppendBulkStrings(values...), nil
 }
 
-- 
2.43.0


From 92ad32a73250dbd754c651f5e89b80a2de9ce3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:46 +0000
Subject: [PATCH 21/42] fix: deleting from the skip list searches every level
 to its end

---
 datastruct/sorted_set.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datastruct/sorted_set.go b/datastruct/sorted_set.go
index 7edcaef..1b929c4 100644
--- a/datastruct/sorted_set.go
+++ b/datastruct/sorted_set.go
@@ -261,7 +261,7 @@ func (zsl *zSkipList) delete(score float64, value string, node **zSkipListNode)
 	x := zsl.head
 
 	for i := zsl.level - 1; i >= 0; i-- {
-		if x.levels[i].forward != nil &&
+		for x.levels[i].forward != nil &&
 			(x.levels[i].forward.score < score ||
 				(x.levels[i].forward.score == score &&
 					x.levels[i].forward.value < value)) {
-- 
2.43.0


From 14d153d8e0f8ce6f09313c6611377124fed78b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:47 +0000
Subject: [PATCH 22/42] fix: ZPOPMIN and ZPOPMAX remove the member from the
 lookup table too

---
 datastruct/sorted_set.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/datastruct/sorted_set.go b/datastruct/sorted_set.go
index 1b929c4..56327ba 100644
--- a/datastruct/sorted_set.go
+++ b/datastruct/sorted_set.go
@@ -790,6 +790,7 @@ func ZPopMin(key string, cnt int) ([]string, error) {
 		}
 
 		zs.zsl.delete(node.score, node.value, nil)
+		zs.m.Delete(node.value)
 		result = append(result,
 			node.value,
 			strconv.FormatFloat(node.score, 'g', -1, 64))
@@ -812,6 +813,7 @@ func ZPopMax(key string, cnt int) ([]string, error) {
 		}
 
 		zs.zsl.delete(node.score, node.value, nil)
+		zs.m.Delete(node.value)
 		result = append(result,
 			node.value,
 			strconv.FormatFloat(node.score, 'g', -1, 64))
-- 
2.43.0


From 581a70c3e6594be0dc441358066ac650cfc23ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:48 +0000
Subject: [PATCH 23/42] fix: deleting the last skip list node moves the tail
 back

---
 datastruct/sorted_set.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/datastruct/sorted_set.go b/datastruct/sorted_set.go
index 56327ba..321812f 100644
--- a/datastruct/sorted_set.go
+++ b/datastruct/sorted_set.go
@@ -243,6 +243,8 @@ func (zsl *zSkipList) deleteNode(node *zSkipListNode, update []*zSkipListNode) {
 	// 被删除节点的下一个节点的上一个节点指向被删除节点的上一个节点
 	if node.levels[0].forward != nil {
 		node.levels[0].forward.backward = node.backward
+	} else {
+		zsl.tail = node.backward
 	}
 
 	// level 可能需要减少
-- 
2.43.0


From 629e39974613c32e47228f96f0a3fbe54f87d34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:50 +0000
Subject: [PATCH 24/42] fix: score ranges include exactly the scores inside of
 their bounds

---
 datastruct/sorted_set.go | 78 ++++++----------------------------------
 1 file changed, 11 insertions(+), 67 deletions(-)

diff --git a/datastruct/sorted_set.go b/datastruct/sorted_set.go
index 321812f..15f5b37 100644
--- a/datastruct/sorted_set.go
+++ b/datastruct/sorted_set.go
@@ -310,90 +310,45 @@ LevelLoop:
 
 // minOpen == true => (min,  for example (1,true,2,false) => zscore xxx (1 2
 func (zsl *zSkipList) count(min float64, minOpen bool, max float64, maxOpen bool) int {
-	// -inf +inf
-	if math.IsInf(min, -1) && math.IsInf(max, 1) {
-		return zsl.length
-	}
-
 	minRank := zsl.minScoreRank(min, minOpen)
 	maxRank := zsl.maxScoreRank(max, maxOpen)
-	fmt.Println(minRank, maxRank)
-
-	// -inf:max
-	if minRank <= 0 {
-		return maxRank
-	}
-
-	if maxRank < 0 {
-		return zsl.length - minRank + 1
+	if minRank > maxRank {
+		return 0
 	}
 
 	return maxRank - minRank + 1
 }
 
-// return -1 if score is inf
+// rank of the first element inside of the lower bound, length+1 if there is none
 func (zsl *zSkipList) minScoreRank(score float64, openInterval bool) int {
-	if math.IsInf(score, 0) {
-		return -1
-	}
-
 	var (
 		rank uint
 		x    = zsl.head
-		cur  = zsl.head
 	)
-loop:
 	for i := zsl.level - 1; i >= 0; i-- {
 		for x.levels[i].forward != nil &&
-			(x.levels[i].forward.score <= score) {
+			(x.levels[i].forward.score < score ||
+				(openInterval && x.levels[i].forward.score == score)) {
 			rank += x.levels[i].span
-			cur = x
 			x = x.levels[i].forward
-
-			// got the position
-			if x.score > score || (openInterval && x.score == score) {
-				// score not exit in the list, it just between two elements
-				if cur.score < score && x.score > score {
-					rank += 1
-				}
-
-				if x.score == score && openInterval {
-					rank += 1
-				}
-
-				break loop
-			}
 		}
 	}
 
-	return int(rank)
+	return int(rank) + 1
 }
 
-// return -1 if score is inf
+// rank of the last element inside of the upper bound, 0 if there is none
 func (zsl *zSkipList) maxScoreRank(score float64, openInterval bool) int {
-	if math.IsInf(score, 0) {
-		return -1
-	}
-
 	var (
 		rank uint
 		x    = zsl.head
 	)
-loop:
 	for i := zsl.level - 1; i >= 0; i-- {
 		for x.levels[i].forward != nil &&
-			(x.levels[i].forward.score <= score) {
+			(x.levels[i].forward.score < score ||
+				(!openInterval && x.levels[i].forward.score == score)) {
 			rank += x.levels[i].span
 			x = x.levels[i].forward
-
-			// got the position
-			if x.score > score || (openInterval && x.score == score) {
-				if x.score == score && openInterval {
-					rank -= 1
-				}
-
-				break loop
-			}
 		}
 	}
 
@@ -476,21 +431,10 @@ func (zsl *zSkipList) zRevRange(start, stop int, withScores bool) []string {
 }
 
 func (zsl *zSkipList) zRangeByScore(min float64, minOpen bool, max float64, maxOpen bool, withScores bool) []string {
-	// -inf +inf
-	if math.IsInf(min, -1) && math.IsInf(max, 1) {
-		return zsl.zRange(0, zsl.length, withScores)
-	}
-
 	minRank := zsl.minScoreRank(min, minOpen)
 	maxRank := zsl.maxScoreRank(max, maxOpen)
-	fmt.Println(minRank, maxRank)
-	// -inf:max
-	if minRank <= 0 {
-		return zsl.zRange(0, maxRank-1, withScores)
-	}
-
-	if maxRank < 0 {
-		return zsl.zRange(minRank-1, zsl.length, withScores)
+	if minRank > maxRank {
+		return nil
 	}
 
 	return zsl.zRange(minRank-1, maxRank-1, withScores)
-- 
2.43.0


From 47545423c8703466b7a1906f26f7f0392b99d16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:51 +0000
Subject: [PATCH 25/42] fix: ZREVRANGE counts positions from the highest score

---
 datastruct/sorted_set.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datastruct/sorted_set.go b/datastruct/sorted_set.go
index 15f5b37..480b67d 100644
--- a/datastruct/sorted_set.go
+++ b/datastruct/sorted_set.go
@@ -412,7 +412,7 @@ func (zsl *zSkipList) zRevRange(start, stop int, withScores bool) []string {
 		stop = zsl.length - 1
 	}
 
-	node := zsl.findElementByRank(uint(stop) + 1)
+	node := zsl.findElementByRank(uint(zsl.length - start))
 	var (
 		rangeLen = stop - start + 1
 		result   []string
-- 
2.43.0


From d688fb5a158088d11b457911e59fd4ee7e950ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:53 +0000
Subject: [PATCH 26/42] fix: ZRANK starts from 0

---
 datastruct/sorted_set.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/datastruct/sorted_set.go b/datastruct/sorted_set.go
index 480b67d..7f055dc 100644
--- a/datastruct/sorted_set.go
+++ b/datastruct/sorted_set.go
@@ -589,7 +589,8 @@ func ZRank(key, value string) (uint, error) {
 	}
 
 	score := *(de.value.(*float64))
-	return zs.zsl.rank(score, value), nil
+	// zsl.rank starts from 1
+	return zs.zsl.rank(score, value) - 1, nil
 }
 
 func ZRem(key string, values ...string) (int, error) {
-- 
2.43.0


From 93278fc2c339354b46f0ef174dce9bd5bc58b14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:54 +0000
Subject: [PATCH 27/42] fix: NaN is neither a score nor a score bound

---
 datastruct/sorted_set.go | 5 +++--
 redis/sorted_set.go      | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/datastruct/sorted_set.go b/datastruct/sorted_set.go
index 7f055dc..ec2bc02 100644
--- a/datastruct/sorted_set.go
+++ b/datastruct/sorted_set.go
@@ -484,7 +484,8 @@ func (zs *zSet) zAdd(score float64, value string, flag int) *zSkipListNode {
 		score += oldScore
 	}
 
-	if score != oldScore {
+	// NaN (inf + -inf) has no place in the order
+	if score != oldScore && !math.IsNaN(score) {
 		node := zs.zsl.updateScore(oldScore, score, value)
 		if node == nil {
 			return nil
@@ -786,7 +787,7 @@ func handleFloatScoreStr(str string) (float64, bool, error) {
 		}
 
 		f, err := strconv.ParseFloat(tmp, 64)
-		if err != nil {
+		if err != nil || math.IsNaN(f) {
 			return 0, false, ErrNotFloat
 		}
 
diff --git a/redis/sorted_set.go b/redis/sorted_set.go
index e252336..2f7bf8f 100644
--- a/redis/sorted_set.go
+++ b/redis/sorted_set.go
@@ -1,6 +1,7 @@
 package redis
 
 import (
+	"math"
 	"strconv"
 	"strings"
 
@@ -37,7 +38,7 @@ func zAdd(c *Command) (*protocol.Response, error) {
 		// add more
 		default:
 			score, err := strconv.ParseFloat(c.Values[i], 64)
-			if err != nil {
+			if err != nil || math.IsNaN(score) {
 				return nil, ErrValueOutOfRange
 			}
 
@@ -162,7 +163,7 @@ func zIncr(c *Command) (*protocol.Response, error) {
 	}
 
 	score, err := strconv.ParseFloat(c.Values[1], 64)
-	if err != nil {
+	if err != nil || math.IsNaN(score) {
 		return nil, ErrValueOutOfRange
 	}
 
-- 
2.43.0


From 101f71a5a1042f3917ecbee821e526e4fba91ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:55 +0000
Subject: [PATCH 28/42] fix: ZINCR that does not change the score replies the
 current score

---
 datastruct/sorted_set.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/datastruct/sorted_set.go b/datastruct/sorted_set.go
index ec2bc02..d7ca80f 100644
--- a/datastruct/sorted_set.go
+++ b/datastruct/sorted_set.go
@@ -659,7 +659,8 @@ func ZIncr(key string, score float64, value string) (float64, error) {
 
 	node := zs.zAdd(score, value, ZAddInIncr)
 	if node == nil {
-		return 0, ErrNil
+		// score not changed
+		return ZScore(key, value)
 	}
 
 	return node.score, nil
-- 
2.43.0


From e1de1d96df46e73b59e7104d53e65e6071c53b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:25 +0000
Subject: [PATCH 29/42] fix: a list, set, hash or sorted set emptied by a
 command no longer exists

---
 datastruct/hash_table.go |  4 +++-
 datastruct/keys.go       |  7 +++++++
 datastruct/list.go       | 15 +++++++++------
 datastruct/set.go        |  9 ++++++++-
 datastruct/sorted_set.go |  9 +++++++--
 5 files changed, 34 insertions(+), 10 deletions(-)

diff --git a/datastruct/hash_table.go b/datastruct/hash_table.go
index 59930ec..feae142 100644
--- a/datastruct/hash_table.go
+++ b/datastruct/hash_table.go
@@ -210,7 +210,9 @@ func HDel(key, field string) (int, error) {
 		return 0, err
 	}
 
-	return h.del(field), nil
+	cnt := h.del(field)
+	delIfEmpty(key, h.length)
+	return cnt, nil
 }
 
 func HExists(key, field string) (int, error) {
diff --git a/datastruct/keys.go b/datastruct/keys.go
index 0e6c115..e7b3f17 100644
--- a/datastruct/keys.go
+++ b/datastruct/keys.go
@@ -84,3 +84,10 @@ func Del(key string) int {
 
 	return 0
 }
+
+// delIfEmpty drop key if there is nothing left in its value
+func delIfEmpty(key string, length int) {
+	if length == 0 {
+		defaultCache.keys.Delete(key)
+	}
+}
diff --git a/datastruct/list.go b/datastruct/list.go
index 3e8bc50..a20220f 100644
--- a/datastruct/list.go
+++ b/datastruct/list.go
@@ -479,6 +479,7 @@ func LPop(key string, count int) (values []string, err error) {
 		count--
 	}
 
+	delIfEmpty(key, list.length)
 	return
 }
 
@@ -521,6 +522,7 @@ func RPop(key string, count int) (values []string, err error) {
 		count--
 	}
 
+	delIfEmpty(key, list.length)
 	return
 }
 
@@ -552,14 +554,15 @@ func LRem(key string, count int, value string) (n int, err error) {
 	}
 
 	if count > 0 {
-		return list.LRemCountFromHead(value, count), nil
-	}
-
-	if count < 0 {
-		return list.LRemCountFromTail(value, -count), nil
+		n = list.LRemCountFromHead(value, count)
+	} else if count < 0 {
+		n = list.LRemCountFromTail(value, -count)
+	} else {
+		n = list.LRemCountFromHead(value, list.length)
 	}
 
-	return list.LRemCountFromHead(value, list.length), nil
+	delIfEmpty(key, list.length)
+	return n, nil
 }
 
 func LIndex(key string, index int) (value string, err error) {
diff --git a/datastruct/set.go b/datastruct/set.go
index b794cdc..0666e15 100644
--- a/datastruct/set.go
+++ b/datastruct/set.go
@@ -163,6 +163,7 @@ func SRem(key string, values ...string) (int, error) {
 		cnt += s.sRem(value)
 	}
 
+	delIfEmpty(key, s.length)
 	return cnt, nil
 }
 
@@ -211,6 +212,7 @@ func SMove(source, target, value string) (int, error) {
 		return 0, err
 	}
 
+	delIfEmpty(source, sset.length)
 	return 1, nil
 }
 
@@ -264,6 +266,7 @@ func SDiffStore(storeKey string, keys ...string) (int, error) {
 		Value: result,
 	})
 
+	delIfEmpty(storeKey, result.length)
 	return result.length, nil
 }
 
@@ -318,6 +321,7 @@ func SInterStore(storeKey string, keys ...string) (int, error) {
 		Value: result,
 	})
 
+	delIfEmpty(storeKey, result.length)
 	return result.length, nil
 }
 
@@ -372,6 +376,7 @@ func SUnionStore(storeKey string, keys ...string) (int, error) {
 		Value: result,
 	})
 
+	delIfEmpty(storeKey, result.length)
 	return result.length, nil
 }
 
@@ -381,7 +386,9 @@ func SPop(key string, cnt int) ([]string, error) {
 		return nil, err
 	}
 
-	return s.sPop(cnt), nil
+	values := s.sPop(cnt)
+	delIfEmpty(key, s.length)
+	return values, nil
 }
 
 /*
diff --git a/datastruct/sorted_set.go b/datastruct/sorted_set.go
index d7ca80f..1d6e1d5 100644
--- a/datastruct/sorted_set.go
+++ b/datastruct/sorted_set.go
@@ -561,6 +561,8 @@ func ZAdd(key string, members []*ZSetMember, flag int) (int, error) {
 		}
 	}
 
+	// xx flag adds nothing to a new one
+	delIfEmpty(key, zs.zsl.length)
 	return cnt, nil
 }
 
@@ -612,6 +614,7 @@ func ZRem(key string, values ...string) (int, error) {
 		cnt++
 	}
 
+	delIfEmpty(key, zs.zsl.length)
 	return cnt, nil
 }
 
@@ -735,7 +738,7 @@ func ZPopMin(key string, cnt int) ([]string, error) {
 	for i := 0; i < cnt; i++ {
 		node := zs.zsl.findElementByRank(1)
 		if node == nil {
-			return result, nil
+			break
 		}
 
 		zs.zsl.delete(node.score, node.value, nil)
@@ -745,6 +748,7 @@ func ZPopMin(key string, cnt int) ([]string, error) {
 			strconv.FormatFloat(node.score, 'g', -1, 64))
 	}
 
+	delIfEmpty(key, zs.zsl.length)
 	return result, nil
 }
 
@@ -758,7 +762,7 @@ func ZPopMax(key string, cnt int) ([]string, error) {
 	for i := 0; i < cnt; i++ {
 		node := zs.zsl.findElementByRank(uint(zs.zsl.length))
 		if node == nil {
-			return result, nil
+			break
 		}
 
 		zs.zsl.delete(node.score, node.value, nil)
@@ -768,6 +772,7 @@ func ZPopMax(key string, cnt int) ([]string, error) {
 			strconv.FormatFloat(node.score, 'g', -1, 64))
 	}
 
+	delIfEmpty(key, zs.zsl.length)
 	return result, nil
 }
 
-- 
2.43.0


From 2c05efc253486865728c72ea49b7ba830eddbf77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:26 +0000
Subject: [PATCH 30/42] fix: a panicking command replies an error instead of
 crashing the server

---
 redis/command.go | 11 ++++++-----
 redis/consts.go  |  1 +
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/redis/command.go b/redis/command.go
index b2fe090..216ed41 100644
--- a/redis/command.go
+++ b/redis/command.go
@@ -45,11 +45,12 @@ func (c *Command) ExecuteAsync() chan *protocol.Response {
 
 	go func() {
 		defer close(rspChan)
-		//defer func() {
-		//	if recover() != nil {
-		//		log.Println(c.Command, c.Values)
-		//	}
-		//}()
+		defer func() {
+			if r := recover(); r != nil {
+				log.Println("[redis/command] panic:", r, c.Command)
+				c.setRsp(nil, ErrInternal, rspChan)
+			}
+		}()
 		f, ok := implementedCommands[c.Command]
 		if !ok {
 			c.setRsp(nil, ErrUnknownCommand, rspChan)
diff --git a/redis/consts.go b/redis/consts.go
index eb487e8..ec2d425 100644
--- a/redis/consts.go
+++ b/redis/consts.go
@@ -5,6 +5,7 @@ import "errors"
 var (
 	ErrUnknownCommand       = errors.New("unknown command key")
 	ErrCommandArgsNotEnough = errors.New("command args not enough")
+	ErrInternal             = errors.New("ERR internal error")
 	ErrValueOutOfRange      = errors.New(" ERR value is out of range, must be positive")
 )
 
-- 
2.43.0


From 2947fbb5f1310429f7d10ddbb6b4299a035eb997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:27 +0000
Subject: [PATCH 31/42] fix: preloaded commands run one by one

---
 cmd/server/main.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/server/main.go b/cmd/server/main.go
index 218e606..aebe740 100644
--- a/cmd/server/main.go
+++ b/cmd/server/main.go
@@ -110,7 +110,8 @@ func insertPreData() {
 			Values:  datum[1:],
 		}
 
-		c.ExecuteAsync()
+		// one by one, the result must be received before next command
+		<-c.ExecuteAsync()
 	}
 
 	log.Println("data prepared")
-- 
2.43.0


From a933241ff5d3a82d3ad4815775995672e4246896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:49 +0000
Subject: [PATCH 32/42] fix: stopping the event pool handles all added events
 and refuses later ones

---
 event/event_pool.go | 26 ++++++++++++++++++++------
 event/handler.go    |  8 +++++++-
 event/worker.go     | 28 +++++++---------------------
 3 files changed, 34 insertions(+), 28 deletions(-)

diff --git a/event/event_pool.go b/event/event_pool.go
index 489aab0..ed12281 100644
--- a/event/event_pool.go
+++ b/event/event_pool.go
@@ -8,6 +8,8 @@ type EventPool struct {
 	eventChan chan *Event
 	workers   []*worker
 	wg        *sync.WaitGroup
+	mu        sync.RWMutex // protect eventChan from being closed while adding events
+	stopped   bool
 }
 
 func NewEventPool() *EventPool {
@@ -20,15 +22,27 @@ func NewEventPool() *EventPool {
 	return ep
 }
 
-func (ep *EventPool) AddEvent(e *Event) {
+// AddEvent return false if the pool is stopped, otherwise the event will be handled
+func (ep *EventPool) AddEvent(e *Event) bool {
+	ep.mu.RLock()
+	defer ep.mu.RUnlock()
+
+	if ep.stopped {
+		return false
+	}
+
 	ep.eventChan <- e
+	return true
 }
 
+// Stop refuse new events and wait until all added events are handled
 func (ep *EventPool) Stop() {
-	close(ep.eventChan)
-	for _, w := range ep.workers {
-		w.stop()
+	ep.mu.Lock()
+	if !ep.stopped {
+		ep.stopped = true
+		close(ep.eventChan)
 	}
+	ep.mu.Unlock()
 
 	ep.wg.Wait()
 }
@@ -56,8 +70,8 @@ func SetGlobalEventPool(ep *EventPool) {
 	globalEventPool = ep
 }
 
-func AddEvent(e *Event) {
-	globalEventPool.AddEvent(e)
+func AddEvent(e *Event) bool {
+	return globalEventPool.AddEvent(e)
 }
 
 func Stop() {
diff --git a/event/handler.go b/event/handler.go
index 0ae9d66..adf329d 100644
--- a/event/handler.go
+++ b/event/handler.go
@@ -2,6 +2,7 @@ package event
 
 import (
 	"context"
+	"errors"
 	"log"
 	"time"
 
@@ -11,6 +12,9 @@ import (
 	"github.com/yusank/godis/redis"
 )
 
+// ErrStopped replied for requests that arrive after shutdown
+var ErrStopped = errors.New("ERR server is shutting down")
+
 // HandleRequest receive protocol.Receive as params and return response
 func HandleRequest(rec *protocol.Receive) []byte {
 	// io data to protocol msg
@@ -33,7 +37,9 @@ func HandleRequest(rec *protocol.Receive) []byte {
 
 	// event handler handle event one by one
 	e := NewEvent(cmd)
-	AddEvent(e)
+	if !AddEvent(e) {
+		return protocol.NewResponseWithError(ErrStopped).Encode()
+	}
 
 	// wait for result or context timeout
 	var rsp *protocol.Response
diff --git a/event/worker.go b/event/worker.go
index 6e3bf51..06a2cee 100644
--- a/event/worker.go
+++ b/event/worker.go
@@ -6,37 +6,23 @@ import (
 )
 
 type worker struct {
-	ep   *EventPool
-	done chan bool
+	ep *EventPool
 }
 
 func newWorker(ep *EventPool) *worker {
 	return &worker{
-		ep:   ep,
-		done: make(chan bool, 1),
+		ep: ep,
 	}
 }
 
+// run handle events one by one until the pool is stopped and nothing left
 func (w *worker) run(wg *sync.WaitGroup) {
 	defer wg.Done()
 
-	for {
-		select {
-		case <-w.done:
-			log.Println("worker done")
-			return
-		case e := <-w.ep.eventChan:
-			if e == nil {
-				return
-			}
-
-			e.Rsp = <-e.Cmd.ExecuteAsync()
-			close(e.done)
-		}
+	for e := range w.ep.eventChan {
+		e.Rsp = <-e.Cmd.ExecuteAsync()
+		close(e.done)
 	}
-}
 
-func (w *worker) stop() {
-	w.done <- true
-	close(w.done)
+	log.Println("worker done")
 }
-- 
2.43.0


From 0cd37372e215d2569b729a1cc5e6df9d478269a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:24 +0000
Subject: [PATCH 33/42] fix: malformed length lines are refused instead of
 panicking the decoder

---
 protocol/consts.go |  6 ++++++
 protocol/decode.go | 42 ++++++++++++++++++++++++------------------
 2 files changed, 30 insertions(+), 18 deletions(-)

diff --git a/protocol/consts.go b/protocol/consts.go
index 7f9f1c1..587deb3 100644
--- a/protocol/consts.go
+++ b/protocol/consts.go
@@ -15,6 +15,12 @@ const (
 	CRLFLen = len(CRLF)
 )
 
+// limits of a request, same as redis
+const (
+	maxBulkLength  = 512 * 1024 * 1024
+	maxArrayLength = 1024 * 1024
+)
+
 type ProtocolDataType int8
 
 const (
diff --git a/protocol/decode.go b/protocol/decode.go
index 20cfcf0..a121ad5 100644
--- a/protocol/decode.go
+++ b/protocol/decode.go
@@ -6,6 +6,7 @@ import (
 	"io"
 	"log"
 	"net"
+	"strconv"
 	"strings"
 )
 
@@ -119,7 +120,7 @@ func DecodeFromReader(r Reader) (rec *Receive, err error) {
 }
 
 func (r *Receive) decodeSingleLine(line []byte) (length int, desc byte, err error) {
-	if len(line) < 3 {
+	if len(line) < 3 || line[len(line)-CRLFLen] != '\r' {
 		return 0, 0, fmt.Errorf("unsupported protocol")
 	}
 
@@ -129,7 +130,10 @@ func (r *Receive) decodeSingleLine(line []byte) (length int, desc byte, err erro
 	switch desc {
 	// bulk string
 	case DescriptionBulkStrings, descriptionArrays:
-		length = readBulkOrArrayLength(line)
+		length, err = readBulkOrArrayLength(line)
+		if err != nil {
+			return 0, 0, err
+		}
 	case DescriptionSimpleStrings, DescriptionErrors, DescriptionIntegers:
 		r.append(string(line[1:len(line)-CRLFLen]), "")
 		//str = string(line[1 : len(line)-CRLFLen])
@@ -144,19 +148,21 @@ func (r *Receive) decodeSingleLine(line []byte) (length int, desc byte, err erro
 	return
 }
 
-func readBulkOrArrayLength(line []byte) int {
-	if line[0] == '-' {
-		return -1
+// line must be checked to end with CRLF
+func readBulkOrArrayLength(line []byte) (int, error) {
+	ln, err := strconv.Atoi(string(line[1 : len(line)-CRLFLen]))
+	if err != nil {
+		return 0, fmt.Errorf("invalid length: %s", string(line))
 	}
 
-	var (
-		ln int
-	)
-	for i := 1; line[i] != '\r'; i++ {
-		ln = (ln * 10) + int(line[i]-'0')
+	switch {
+	case line[0] == DescriptionBulkStrings && ln > maxBulkLength:
+		return 0, fmt.Errorf("invalid bulk length: %d", ln)
+	case line[0] == descriptionArrays && ln > maxArrayLength:
+		return 0, fmt.Errorf("invalid multibulk length: %d", ln)
 	}
 
-	return ln
+	return ln, nil
 }
 
 func (r *Receive) readBulkStrings(rr Reader, ln int) error {
@@ -183,18 +189,18 @@ func (r *Receive) readArray(rr Reader, ln int) error {
 			return err
 		}
 
-		if line[0] == descriptionArrays {
-			subErr := r.readArray(rr, readBulkOrArrayLength(line))
-			if subErr != nil {
-				return subErr
-			}
-		}
-
 		length, desc, err := r.decodeSingleLine(line)
 		if err != nil {
 			return err
 		}
 
+		if desc == descriptionArrays {
+			subErr := r.readArray(rr, length)
+			if subErr != nil {
+				return subErr
+			}
+		}
+
 		if desc == DescriptionBulkStrings {
 			err = r.readBulkStrings(rr, length)
 			if err != nil {
-- 
2.43.0


From baee41d611b07ebca22e849c175e4f4644cd8fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:27 +0000
Subject: [PATCH 34/42] fix: a bulk string is read in full and must end with
 CRLF

---
 protocol/decode.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/protocol/decode.go b/protocol/decode.go
index a121ad5..002f1e5 100644
--- a/protocol/decode.go
+++ b/protocol/decode.go
@@ -171,11 +171,15 @@ func (r *Receive) readBulkStrings(rr Reader, ln int) error {
 	}
 
 	val := make([]byte, ln+2)
-	_, err := rr.Read(val)
+	_, err := io.ReadFull(rr, val)
 	if err != nil {
 		return err
 	}
 
+	if string(val[ln:]) != CRLF {
+		return fmt.Errorf("invalid bulk string, expected CRLF after %d bytes", ln)
+	}
+
 	// trim last \r\n
 	r.append(string(val[:ln]), string(val))
 
-- 
2.43.0


From 78b83fccffa50a4b7755358523902d2449506f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:30 +0000
Subject: [PATCH 35/42] fix: nested arrays of a request have a maximum depth

---
 protocol/consts.go |  1 +
 protocol/decode.go | 10 +++++++---
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/protocol/consts.go b/protocol/consts.go
index 587deb3..c55c8fb 100644
--- a/protocol/consts.go
+++ b/protocol/consts.go
@@ -19,6 +19,7 @@ const (
 const (
 	maxBulkLength  = 512 * 1024 * 1024
 	maxArrayLength = 1024 * 1024
+	maxArrayDepth  = 32
 )
 
 type ProtocolDataType int8
diff --git a/protocol/decode.go b/protocol/decode.go
index 002f1e5..eac6558 100644
--- a/protocol/decode.go
+++ b/protocol/decode.go
@@ -109,7 +109,7 @@ func DecodeFromReader(r Reader) (rec *Receive, err error) {
 
 	if desc == descriptionArrays {
 		// won't sava array element
-		err1 := rec.readArray(r, length)
+		err1 := rec.readArray(r, length, 1)
 		if err1 != nil {
 			log.Println("read bulk str err:", err1)
 			return nil, err1
@@ -186,7 +186,11 @@ func (r *Receive) readBulkStrings(rr Reader, ln int) error {
 	return nil
 }
 
-func (r *Receive) readArray(rr Reader, ln int) error {
+func (r *Receive) readArray(rr Reader, ln int, depth int) error {
+	if depth > maxArrayDepth {
+		return fmt.Errorf("too many nested arrays")
+	}
+
 	for i := 0; i < ln; i++ {
 		line, err := rr.ReadBytes('\n')
 		if err != nil {
@@ -199,7 +203,7 @@ func (r *Receive) readArray(rr Reader, ln int) error {
 		}
 
 		if desc == descriptionArrays {
-			subErr := r.readArray(rr, length)
+			subErr := r.readArray(rr, length, depth+1)
 			if subErr != nil {
 				return subErr
 			}
-- 
2.43.0


From 1f898362c76b75addceb07c00e72d029f1fb419b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:34 +0000
Subject: [PATCH 36/42] fix: inline PING is recorded once in the original
 request

---
 protocol/decode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protocol/decode.go b/protocol/decode.go
index eac6558..929da3d 100644
--- a/protocol/decode.go
+++ b/protocol/decode.go
@@ -139,7 +139,7 @@ func (r *Receive) decodeSingleLine(line []byte) (length int, desc byte, err erro
 		//str = string(line[1 : len(line)-CRLFLen])
 	default:
 		if string(line) == "PING\r\n" {
-			r.append("PING", "PING\r\n")
+			r.append("PING", "")
 			return 0, DescriptionSimpleStrings, nil
 		}
 		return 0, 0, fmt.Errorf("unsupport protocol: %s", string(line))
-- 
2.43.0


From 87883da51b667c6601e899257d3d197f5741fbd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:57 +0000
Subject: [PATCH 37/42] fix: pipelined and fragmented requests are all executed
 and replied in order

---
 server/v2/server.go | 87 ++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 74 insertions(+), 13 deletions(-)

diff --git a/server/v2/server.go b/server/v2/server.go
index 69b9fec..02b26a3 100644
--- a/server/v2/server.go
+++ b/server/v2/server.go
@@ -3,6 +3,8 @@ package v2
 import (
 	"bytes"
 	"context"
+	"errors"
+	"io"
 	"log"
 	"time"
 
@@ -41,29 +43,88 @@ func (s *Server) Stop() {
 	}
 }
 
+// session is the state of a connection
+type session struct {
+	pending []byte        // received bytes of an incomplete request
+	broken  bool          // true after malformed request
+	last    chan struct{} // closed when all earlier requests are replied
+}
+
+func (s *Server) OnOpened(c gnet.Conn) (out []byte, action gnet.Action) {
+	last := make(chan struct{})
+	close(last)
+	c.SetContext(&session{last: last})
+	return
+}
+
 func (s *Server) React(frame []byte, c gnet.Conn) (out []byte, action gnet.Action) {
-	var data = make([]byte, len(frame))
-	copy(data, frame)
+	ss, ok := c.Context().(*session)
+	if !ok || ss.broken {
+		return
+	}
 
-	_ = s.pool.Submit(func() {
-		buf := bytes.NewBuffer(data)
-		rec, err := protocol.DecodeFromReader(buf)
-		if err != nil {
-			log.Println(err)
-			return
+	// frame is only valid until return, append copies it
+	ss.pending = append(ss.pending, frame...)
+	recs, rest, err := decodeAll(ss.pending)
+	ss.pending = append([]byte(nil), rest...)
+	if err != nil {
+		log.Println(err)
+		ss.broken = true
+		ss.pending = nil
+	}
+
+	if len(recs) == 0 && err == nil {
+		return
+	}
+
+	// requests of one connection are replied in the order they arrived
+	prev, done := ss.last, make(chan struct{})
+	ss.last = done
+	task := func() {
+		defer close(done)
+		<-prev
+
+		for _, rec := range recs {
+			reply := event.HandleRequest(rec)
+			if len(reply) == 0 {
+				continue
+			}
+
+			_ = c.AsyncWrite(reply)
 		}
 
-		reply := event.HandleRequest(rec)
-		if len(reply) == 0 {
-			return
+		if err != nil {
+			_ = c.Close()
 		}
+	}
 
-		_ = c.AsyncWrite(reply)
-	})
+	if s.pool.Submit(task) != nil {
+		// never drop a request when pool is full
+		go task()
+	}
 
 	return
 }
 
+// decodeAll decode all complete requests of data, rest is the bytes of last incomplete request
+func decodeAll(data []byte) (recs []*protocol.Receive, rest []byte, err error) {
+	for len(data) > 0 {
+		buf := bytes.NewBuffer(data)
+		rec, err := protocol.DecodeFromReader(buf)
+		if errors.Is(err, io.EOF) || errors.Is(err, io.ErrUnexpectedEOF) {
+			break
+		}
+		if err != nil {
+			return recs, nil, err
+		}
+
+		recs = append(recs, rec)
+		data = data[len(data)-buf.Len():]
+	}
+
+	return recs, data, nil
+}
+
 func (s *Server) OnShutdown(srv gnet.Server) {
 	event.Stop()
 }
-- 
2.43.0


From 78d31675f2ed6e269458e2de9381bee3306a2cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:26 +0000
Subject: [PATCH 38/42] fix: v1 server does not handle a nil request after the
 connection is closed

---
 protocol/decode.go  | 10 ++--------
 server/v1/server.go |  6 +++++-
 2 files changed, 7 insertions(+), 9 deletions(-)

diff --git a/protocol/decode.go b/protocol/decode.go
index 929da3d..307fa8f 100644
--- a/protocol/decode.go
+++ b/protocol/decode.go
@@ -1,11 +1,9 @@
 package protocol
 
 import (
-	"errors"
 	"fmt"
 	"io"
 	"log"
-	"net"
 	"strconv"
 	"strings"
 )
@@ -69,13 +67,9 @@ func ReceiveDataAsync(r Reader) *AsyncReceive {
 		for {
 			rec, err := DecodeFromReader(r)
 			if err != nil {
+				// position of next request is unknown after any error
 				ar.ErrorChan <- err
-
-				if errors.Is(err, io.EOF) || errors.Is(err, net.ErrClosed) {
-					return
-				}
-				log.Println(err)
-				continue
+				return
 			}
 
 			ar.ReceiveChan <- rec
diff --git a/server/v1/server.go b/server/v1/server.go
index 4c64bc4..6e99c92 100644
--- a/server/v1/server.go
+++ b/server/v1/server.go
@@ -101,7 +101,11 @@ loop:
 		case <-ar.ErrorChan:
 			//log.Println("handle err:", err)
 			break loop
-		case rec := <-ar.ReceiveChan:
+		case rec, ok := <-ar.ReceiveChan:
+			if !ok {
+				break loop
+			}
+
 			reply := event.HandleRequest(rec)
 			if len(reply) == 0 {
 				continue
-- 
2.43.0


From a225e79946d8bc4af91b9af4ce114be397f58ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:39 +0000
Subject: [PATCH 39/42] fix: malformed bounds of a sorted set range are refused
 for a missing key too

---
 datastruct/sorted_set.go | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/datastruct/sorted_set.go b/datastruct/sorted_set.go
index 1d6e1d5..bf532d7 100644
--- a/datastruct/sorted_set.go
+++ b/datastruct/sorted_set.go
@@ -628,17 +628,17 @@ func ZCard(key string) (int, error) {
 }
 
 func ZCount(key, minStr, maxStr string) (int, error) {
-	zs, err := loadAndCheckZSet(key, true)
+	minScore, minOpen, err := handleFloatScoreStr(minStr)
 	if err != nil {
 		return 0, err
 	}
 
-	minScore, minOpen, err := handleFloatScoreStr(minStr)
+	maxScore, maxOpen, err := handleFloatScoreStr(maxStr)
 	if err != nil {
 		return 0, err
 	}
 
-	maxScore, maxOpen, err := handleFloatScoreStr(maxStr)
+	zs, err := loadAndCheckZSet(key, true)
 	if err != nil {
 		return 0, err
 	}
@@ -672,11 +672,6 @@ func ZIncr(key string, score float64, value string) (float64, error) {
 // ZRange not support limit for now
 // todo support by lex flag
 func ZRange(key string, minStr, maxStr string, flag int) ([]string, error) {
-	zs, err := loadAndCheckZSet(key, true)
-	if err != nil {
-		return nil, err
-	}
-
 	var withScores = flag&ZRangeInWithScores != 0
 
 	if flag&ZRangeInByScore != 0 {
@@ -691,6 +686,11 @@ func ZRange(key string, minStr, maxStr string, flag int) ([]string, error) {
 			return nil, err1
 		}
 
+		zs, err1 := loadAndCheckZSet(key, true)
+		if err1 != nil {
+			return nil, err1
+		}
+
 		return zs.zsl.zRangeByScore(minScore, minOpen, maxScore, maxOpen, withScores), nil
 	}
 
@@ -704,15 +704,15 @@ func ZRange(key string, minStr, maxStr string, flag int) ([]string, error) {
 		return nil, ErrNotInteger
 	}
 
-	return zs.zsl.zRange(start, stop, withScores), nil
-}
-
-func ZRevRange(key, minStr, maxStr string, flag int) ([]string, error) {
 	zs, err := loadAndCheckZSet(key, true)
 	if err != nil {
 		return nil, err
 	}
 
+	return zs.zsl.zRange(start, stop, withScores), nil
+}
+
+func ZRevRange(key, minStr, maxStr string, flag int) ([]string, error) {
 	var withScores = flag&ZRangeInWithScores != 0
 
 	start, err := strconv.Atoi(minStr)
@@ -725,6 +725,11 @@ func ZRevRange(key, minStr, maxStr string, flag int) ([]string, error) {
 		return nil, ErrNotInteger
 	}
 
+	zs, err := loadAndCheckZSet(key, true)
+	if err != nil {
+		return nil, err
+	}
+
 	return zs.zsl.zRevRange(start, stop, withScores), nil
 }
 
-- 
2.43.0


From 8d10969d2af5cc30e227af1793a4a2d1659f0611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:02 +0000
Subject: [PATCH 40/42] fix: ZPOPMAX with a count above the size replies no
 made-up members

---
 datastruct/sorted_set.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datastruct/sorted_set.go b/datastruct/sorted_set.go
index bf532d7..62fa41c 100644
--- a/datastruct/sorted_set.go
+++ b/datastruct/sorted_set.go
@@ -764,7 +764,7 @@ func ZPopMax(key string, cnt int) ([]string, error) {
 	}
 
 	var result []string
-	for i := 0; i < cnt; i++ {
+	for i := 0; i < cnt && zs.zsl.length > 0; i++ {
 		node := zs.zsl.findElementByRank(uint(zs.zsl.length))
 		if node == nil {
 			break
-- 
2.43.0


From 083de7340469624cf026374a0e721b5ef2fb6f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:22 +0000
Subject: [PATCH 41/42] fix: HGETALL of a key of another kind replied nil
 instead of the type error

---
 redis/hash_table.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/redis/hash_table.go b/redis/hash_table.go
index 42af3a3..d1494d7 100644
--- a/redis/hash_table.go
+++ b/redis/hash_table.go
@@ -73,12 +73,12 @@ func hGetAll(c *Command) (*protocol.Response, error) {
 	}
 
 	m, err := datastruct.HGetAll(c.Values[0])
-	if err == datastruct.ErrNil || len(m) == 0 {
-		return protocol.NewResponseWithNilBulk(), nil
+	if err != nil && err != datastruct.ErrNil {
+		return nil, err
 	}
 
-	if err != nil {
-		return nil, err
+	if len(m) == 0 {
+		return protocol.NewResponseWithNilBulk(), nil
 	}
 
 	var (
-- 
2.43.0


From 097dec42381f2dbf5d3b1b07d80f29a5c960f9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:26 +0000
Subject: [PATCH 42/42] fix: ZPOPMIN and ZPOPMAX of a key of another kind
 replied an empty list instead of the type error

---
 redis/sorted_set.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/redis/sorted_set.go b/redis/sorted_set.go
index 2f7bf8f..670eeed 100644
--- a/redis/sorted_set.go
+++ b/redis/sorted_set.go
@@ -280,12 +280,12 @@ func zPopMin(c *Command) (*protocol.Response, error) {
 	}
 
 	values, err := datastruct.ZPopMin(key, cnt)
-	if err == datastruct.ErrNil || len(values) == 0 {
-		return protocol.NewResponseWithEmptyArray(), nil
+	if err != nil && err != datastruct.ErrNil {
+		return nil, err
 	}
 
-	if err != nil {
-		return nil, err
+	if len(values) == 0 {
+		return protocol.NewResponseWithEmptyArray(), nil
 	}
 
 	return protocol.NewResponse(true).AppendBulkStrings(values...), nil
@@ -311,12 +311,12 @@ func zPopMix(c *Command) (*protocol.Response, error) {
 	}
 
 	values, err := datastruct.ZPopMax(key, cnt)
-	if err == datastruct.ErrNil || len(values) == 0 {
-		return protocol.NewResponseWithEmptyArray(), nil
+	if err != nil && err != datastruct.ErrNil {
+		return nil, err
 	}
 
-	if err != nil {
-		return nil, err
+	if len(values) == 0 {
+		return protocol.NewResponseWithEmptyArray(), nil
 	}
 
 	return protocol.NewResponse(true).AppendBulkStrings(values...), nil
-- 
2.43.0

