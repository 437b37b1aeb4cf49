From 6ccf2168b5c968f6b374360c73ed25d44e28a5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:32:26 +0000
Subject: [PATCH 01/34] fix: read the ttl and write the read time of a v2
 XCache entry under the lock

---
 v2/xcache.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/v2/xcache.go b/v2/xcache.go
index 4c9dfe5..a63897b 100644
--- a/v2/xcache.go
+++ b/v2/xcache.go
@@ -107,11 +107,14 @@ func (c *XCache) removeFromPile(key string) {
 }
 
 // mGet will get the entry of the cache.
-func (c *XCache) mGet(key string) (*XCacheEntry, bool) {
+func (c *XCache) mGet(key string) (*XCacheEntry, time.Duration, bool) {
 	c.mutex.RLock()
 	defer c.mutex.RUnlock()
 	x, ok := c.items[key]
-	return x, ok
+	if !ok {
+		return nil, 0, false
+	}
+	return x, x.ttl, ok
 }
 
 // Get will get the value of an entry.
@@ -119,10 +122,10 @@ func (c *XCache) mGet(key string) (*XCacheEntry, bool) {
 // If the entry exists and is invalidated by time or validator function, then returns nil, true.
 // If the entry is good, return <value>, false.
 func (c *XCache) Get(key string) (interface{}, bool) {
-	if x, ok := c.mGet(key); ok {
+	if x, ttl, ok := c.mGet(key); ok {
 		// expired by TTL ?
-		if x.ttl != 0 {
-			if x.ctime.Add(x.ttl).Before(time.Now()) {
+		if ttl != 0 {
+			if x.ctime.Add(ttl).Before(time.Now()) {
 				c.Del(key)
 				/*
 					c.mutex.Lock()
@@ -164,9 +167,9 @@ func (c *XCache) Get(key string) (interface{}, bool) {
 				return nil, true
 			}
 		}
-		x.rtime = time.Now()
 		c.mutex.Lock()
 		defer c.mutex.Unlock()
+		x.rtime = time.Now()
 		c.removeFromPile(key)
 		c.pile = append(c.pile, key)
 		return x.data, false
-- 
2.43.0


From 4f451da250cbcde016a271e91408bfa1847d7160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:32:26 +0000
Subject: [PATCH 02/34] fix: do not put the key of a removed entry back in the
 v2 XCache pile

---
 v2/xcache.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/v2/xcache.go b/v2/xcache.go
index a63897b..dcf026a 100644
--- a/v2/xcache.go
+++ b/v2/xcache.go
@@ -170,8 +170,11 @@ func (c *XCache) Get(key string) (interface{}, bool) {
 		c.mutex.Lock()
 		defer c.mutex.Unlock()
 		x.rtime = time.Now()
-		c.removeFromPile(key)
-		c.pile = append(c.pile, key)
+		// the entry may have been removed or replaced meanwhile
+		if c.items[key] == x {
+			c.removeFromPile(key)
+			c.pile = append(c.pile, key)
+		}
 		return x.data, false
 	}
 	return nil, false
-- 
2.43.0


From dd14c03606df4587eba22f84828d9460bf2de7f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:32:26 +0000
Subject: [PATCH 03/34] fix: an invalid v2 XCache entry does not take a newer
 value with it

---
 v2/xcache.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/v2/xcache.go b/v2/xcache.go
index dcf026a..ca143a3 100644
--- a/v2/xcache.go
+++ b/v2/xcache.go
@@ -126,7 +126,7 @@ func (c *XCache) Get(key string) (interface{}, bool) {
 		// expired by TTL ?
 		if ttl != 0 {
 			if x.ctime.Add(ttl).Before(time.Now()) {
-				c.Del(key)
+				c.delEntry(key, x)
 				/*
 					c.mutex.Lock()
 					delete(c.items, key)
@@ -141,7 +141,7 @@ func (c *XCache) Get(key string) (interface{}, bool) {
 				if LOG {
 					log.Println("Validator invalids entry: " + key)
 				}
-				c.Del(key)
+				c.delEntry(key, x)
 				/*
 					c.mutex.Lock()
 					delete(c.items, key)
@@ -157,7 +157,7 @@ func (c *XCache) Get(key string) (interface{}, bool) {
 				if LOG {
 					log.Println("Cache timeout Expired: " + key)
 				}
-				c.Del(key)
+				c.delEntry(key, x)
 				/*
 					c.mutex.Lock()
 					delete(c.items, key)
@@ -189,6 +189,19 @@ func (c *XCache) Del(key string) {
 	c.removeFromPile(key)
 }
 
+// delEntry will delete the entry of the cache only if it is still the same entry.
+// Returns true if it has been deleted.
+func (c *XCache) delEntry(key string, x *XCacheEntry) bool {
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
+	if c.items[key] != x {
+		return false
+	}
+	delete(c.items, key)
+	c.removeFromPile(key)
+	return true
+}
+
 // Count will return the quantity of entries in the cache.
 func (c *XCache) Count() int {
 	c.mutex.RLock()
-- 
2.43.0


From 799235e7f8913a224947924b349da34af5e26081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:32:26 +0000
Subject: [PATCH 04/34] fix: remove expired entries from the v2 XCache pile
 when cleaning

---
 v2/xcache.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/v2/xcache.go b/v2/xcache.go
index ca143a3..8dc1cc8 100644
--- a/v2/xcache.go
+++ b/v2/xcache.go
@@ -231,6 +231,16 @@ func (c *XCache) mClean(perc int) int {
 			}
 		}
 	}
+	if i > 0 {
+		// the pile must not keep the keys of the deleted entries
+		pile := make([]string, 0, len(c.items))
+		for _, k := range c.pile {
+			if _, ok := c.items[k]; ok {
+				pile = append(pile, k)
+			}
+		}
+		c.pile = pile
+	}
 	// 2. clean perc% of olders
 	// How many do we have to clean ?
 	total := len(c.items)
-- 
2.43.0


From c15e8892291f07accdc0327a83ddcab0b676f424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:32:27 +0000
Subject: [PATCH 05/34] fix: count the expired entries in the result of v2
 XCache.Clean

---
 v2/xcache.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/v2/xcache.go b/v2/xcache.go
index 8dc1cc8..202419a 100644
--- a/v2/xcache.go
+++ b/v2/xcache.go
@@ -248,11 +248,12 @@ func (c *XCache) mClean(perc int) int {
 	if LOG {
 		log.Println("Quantity of elements to remove from cache:", num)
 	}
-	for i = 0; i < num; i++ {
-		delete(c.items, c.pile[i])
+	n := 0
+	for n = 0; n < num; n++ {
+		delete(c.items, c.pile[n])
 	}
-	c.pile = c.pile[i:]
-	return i
+	c.pile = c.pile[n:]
+	return i + n
 }
 
 // Clean will delete expired entries, and free perc% of max items based on time.
-- 
2.43.0


From 1e995772fef14abea4bbbc6e161ddfec48020c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:32:27 +0000
Subject: [PATCH 06/34] fix: clean the entries of v2 XCache that outlived their
 own ttl

---
 v2/xcache.go | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/v2/xcache.go b/v2/xcache.go
index 202419a..048d767 100644
--- a/v2/xcache.go
+++ b/v2/xcache.go
@@ -220,15 +220,13 @@ func (c *XCache) mClean(perc int) int {
 	}
 	i := 0
 	// 1. clean all expired items
-	if c.Expire != 0 {
-		for k, x := range c.items {
-			if x.ctime.Add(c.Expire).Before(time.Now()) {
-				if LOG {
-					log.Println("Cache timeout Expired: " + k)
-				}
-				delete(c.items, k)
-				i++
+	for k, x := range c.items {
+		if (c.Expire != 0 && x.ctime.Add(c.Expire).Before(time.Now())) || (x.ttl != 0 && x.ctime.Add(x.ttl).Before(time.Now())) {
+			if LOG {
+				log.Println("Cache timeout Expired: " + k)
 			}
+			delete(c.items, k)
+			i++
 		}
 	}
 	if i > 0 {
-- 
2.43.0


From 116ed837786619bcecf4e0754b2d2e430f975297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:32:27 +0000
Subject: [PATCH 07/34] fix: v2 XCache.Verify does not read the entries without
 lock

---
 v2/xcache.go | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/v2/xcache.go b/v2/xcache.go
index 048d767..ed6874a 100644
--- a/v2/xcache.go
+++ b/v2/xcache.go
@@ -272,19 +272,21 @@ func (c *XCache) Verify() int {
 	i := c.Clean(0)
 	// 2. If there is a validator, verifies anything
 	if c.Validator != nil {
+		// the validator is called without lock, on a copy of the list of entries
+		c.mutex.RLock()
+		items := make(map[string]*XCacheEntry, len(c.items))
 		for k, x := range c.items {
+			items[k] = x
+		}
+		c.mutex.RUnlock()
+		for k, x := range items {
 			if b := c.Validator(k, x.ctime); !b {
 				if LOG {
 					log.Println("Validator invalids entry: " + k)
 				}
-				c.Del(k)
-				/*
-					c.mutex.Lock()
-					delete(c.items, k)
-					c.removeFromPile(k)
-					c.mutex.Unlock()
-				*/
-				i++
+				if c.delEntry(k, x) {
+					i++
+				}
 			}
 		}
 	}
-- 
2.43.0


From 46dfc792b7aeebe4410f4b148c69f8d323db9d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:32:28 +0000
Subject: [PATCH 08/34] fix: empty the pile when v2 XCache is flushed

---
 v2/xcache.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/v2/xcache.go b/v2/xcache.go
index ed6874a..dc5a6de 100644
--- a/v2/xcache.go
+++ b/v2/xcache.go
@@ -300,4 +300,5 @@ func (c *XCache) Flush() {
 	defer c.mutex.Unlock()
 	// how to really deletes the data ? ( to free memory)
 	c.items = make(map[string]*XCacheEntry)
+	c.pile = nil
 }
-- 
2.43.0


From f074834b907275e84678d38894f06b736be91fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:32:28 +0000
Subject: [PATCH 09/34] fix: v2 XCache with less than 10 max items does not
 exceed them

---
 v2/xcache.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/v2/xcache.go b/v2/xcache.go
index dc5a6de..4a20e8e 100644
--- a/v2/xcache.go
+++ b/v2/xcache.go
@@ -74,6 +74,11 @@ func (c *XCache) Set(key string, indata interface{}) {
 	if c.Maxitems > 0 && len(c.items) >= c.Maxitems {
 		// We need a cleaning
 		c.mClean(10)
+		// 10% of less than 10 entries is none
+		for len(c.items) > c.Maxitems {
+			delete(c.items, c.pile[0])
+			c.pile = c.pile[1:]
+		}
 	}
 }
 
-- 
2.43.0


From a111f559cef3f9348765d2cca97e50eb80235c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:32:28 +0000
Subject: [PATCH 10/34] fix: XCache.Set checks the limit and cleans under the
 lock

---
 xcache.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/xcache.go b/xcache.go
index 0204986..325f2c8 100644
--- a/xcache.go
+++ b/xcache.go
@@ -68,11 +68,11 @@ func (c *XCache) Set(key string, indata interface{}) {
 		c.removeFromPile(key)
 	}
 	c.pile = append(c.pile, key)
-	c.mutex.Unlock()
 	if c.Maxitems > 0 && len(c.items) >= c.Maxitems {
 		// We need a cleaning
-		c.Clean(10)
+		c.mClean(10)
 	}
+	c.mutex.Unlock()
 }
 
 // removeFromPile will remove an entry key from the ordered pile.
@@ -154,11 +154,17 @@ func (c *XCache) Count() int {
 // Returns quantity of removed entries.
 // It Will **not** verify the cache against its source (if Validator is set). If you want to scan that, use the Verify function.
 func (c *XCache) Clean(perc int) int {
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
+	return c.mClean(perc)
+}
+
+// mClean is Clean without the lock. The caller must do it.
+func (c *XCache) mClean(perc int) int {
 	if LOG {
 		log.Println("Cleaning cache")
 	}
 	i := 0
-	c.mutex.Lock()
 	// 1. clean all expired items
 	if c.Expire != 0 {
 		for k, x := range c.items {
@@ -182,7 +188,6 @@ func (c *XCache) Clean(perc int) int {
 		delete(c.items, c.pile[i])
 	}
 	c.pile = c.pile[i:]
-	c.mutex.Unlock()
 	return i
 }
 
-- 
2.43.0


From 92f3b0ba5fb7e70a8ca33c875b6559d177121494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:32:28 +0000
Subject: [PATCH 11/34] fix: XCache.Get refreshes the order of use under the
 lock

---
 xcache.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/xcache.go b/xcache.go
index 325f2c8..40c1481 100644
--- a/xcache.go
+++ b/xcache.go
@@ -123,9 +123,14 @@ func (c *XCache) Get(key string) (interface{}, bool) {
 				return nil, true
 			}
 		}
+		c.mutex.Lock()
+		defer c.mutex.Unlock()
 		x.rtime = time.Now()
-		c.removeFromPile(key)
-		c.pile = append(c.pile, key)
+		// the entry may have been removed or replaced meanwhile
+		if c.items[key] == x {
+			c.removeFromPile(key)
+			c.pile = append(c.pile, key)
+		}
 		return x.data, false
 	}
 	c.mutex.Unlock()
-- 
2.43.0


From 87357de3cfa81edeb63af9bb98ae0eae985bf233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:32:28 +0000
Subject: [PATCH 12/34] fix: an invalid XCache entry does not take a newer
 value with it

---
 xcache.go | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/xcache.go b/xcache.go
index 40c1481..cd62791 100644
--- a/xcache.go
+++ b/xcache.go
@@ -103,10 +103,7 @@ func (c *XCache) Get(key string) (interface{}, bool) {
 				if LOG {
 					log.Println("Validator invalids entry: " + key)
 				}
-				c.mutex.Lock()
-				delete(c.items, key)
-				c.removeFromPile(key)
-				c.mutex.Unlock()
+				c.delEntry(key, x)
 				return nil, true
 			}
 		}
@@ -116,10 +113,7 @@ func (c *XCache) Get(key string) (interface{}, bool) {
 				if LOG {
 					log.Println("Cache timeout Expired: " + key)
 				}
-				c.mutex.Lock()
-				delete(c.items, key)
-				c.removeFromPile(key)
-				c.mutex.Unlock()
+				c.delEntry(key, x)
 				return nil, true
 			}
 		}
@@ -146,6 +140,19 @@ func (c *XCache) Del(key string) {
 	c.mutex.Unlock()
 }
 
+// delEntry will delete the entry of the cache only if it is still the same entry.
+// Returns true if it has been deleted.
+func (c *XCache) delEntry(key string, x *XCacheEntry) bool {
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
+	if c.items[key] != x {
+		return false
+	}
+	delete(c.items, key)
+	c.removeFromPile(key)
+	return true
+}
+
 // Count will return the quantity of entries in the cache.
 func (c *XCache) Count() int {
 	c.mutex.Lock()
-- 
2.43.0


From 57efe21f9f19868cb74d5ce4df97fbd59dd2981b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:32:29 +0000
Subject: [PATCH 13/34] fix: remove expired entries from the XCache pile when
 cleaning

---
 xcache.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/xcache.go b/xcache.go
index cd62791..e1cd533 100644
--- a/xcache.go
+++ b/xcache.go
@@ -189,6 +189,16 @@ func (c *XCache) mClean(perc int) int {
 			}
 		}
 	}
+	if i > 0 {
+		// the pile must not keep the keys of the deleted entries
+		pile := make([]string, 0, len(c.items))
+		for _, k := range c.pile {
+			if _, ok := c.items[k]; ok {
+				pile = append(pile, k)
+			}
+		}
+		c.pile = pile
+	}
 	// 2. clean perc% of olders
 	// How many do we have to clean ?
 	total := len(c.items)
-- 
2.43.0


From 9ea544970e8e0660f42fc9602189c89adf65efdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:32:29 +0000
Subject: [PATCH 14/34] fix: count the expired entries in the result of
 XCache.Clean

---
 xcache.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/xcache.go b/xcache.go
index e1cd533..3fa553d 100644
--- a/xcache.go
+++ b/xcache.go
@@ -206,11 +206,12 @@ func (c *XCache) mClean(perc int) int {
 	if LOG {
 		log.Println("Quantity of elements to remove from cache:", num)
 	}
-	for i = 0; i < num; i++ {
-		delete(c.items, c.pile[i])
+	n := 0
+	for n = 0; n < num; n++ {
+		delete(c.items, c.pile[n])
 	}
-	c.pile = c.pile[i:]
-	return i
+	c.pile = c.pile[n:]
+	return i + n
 }
 
 // Verify will first, Clean(0) keeping all the entries, then will delete expired entries using the Validator function.
-- 
2.43.0


From 9f02f5c3a18ee60fb818c06bb812204dff9a8285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:32:29 +0000
Subject: [PATCH 15/34] fix: XCache.Verify does not read the entries without
 lock

---
 xcache.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/xcache.go b/xcache.go
index 3fa553d..a8daa80 100644
--- a/xcache.go
+++ b/xcache.go
@@ -222,15 +222,21 @@ func (c *XCache) Verify() int {
 	i := c.Clean(0)
 	// 2. If there is a validator, verifies anything
 	if c.Validator != nil {
+		// the validator is called without lock, on a copy of the list of entries
+		c.mutex.Lock()
+		items := make(map[string]*XCacheEntry, len(c.items))
 		for k, x := range c.items {
+			items[k] = x
+		}
+		c.mutex.Unlock()
+		for k, x := range items {
 			if b := c.Validator(k, x.ctime); !b {
 				if LOG {
 					log.Println("Validator invalids entry: " + k)
 				}
-				c.mutex.Lock()
-				delete(c.items, k)
-				c.mutex.Unlock()
-				i++
+				if c.delEntry(k, x) {
+					i++
+				}
 			}
 		}
 	}
-- 
2.43.0


From 67179266053cc22aa53c240c6a26f8e9b3690575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:32:29 +0000
Subject: [PATCH 16/34] fix: empty the pile when XCache is flushed

---
 xcache.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xcache.go b/xcache.go
index a8daa80..a75b736 100644
--- a/xcache.go
+++ b/xcache.go
@@ -249,5 +249,6 @@ func (c *XCache) Flush() {
 	c.mutex.Lock()
 	// how to really deletes the data ? ( to free memory)
 	c.items = make(map[string]*XCacheEntry)
+	c.pile = nil
 	c.mutex.Unlock()
 }
-- 
2.43.0


From 408b545fb36e3958049eae81a1370e875e102b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:32:30 +0000
Subject: [PATCH 17/34] fix: XCache with less than 10 max items does not exceed
 them

---
 xcache.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/xcache.go b/xcache.go
index a75b736..8da4854 100644
--- a/xcache.go
+++ b/xcache.go
@@ -71,6 +71,11 @@ func (c *XCache) Set(key string, indata interface{}) {
 	if c.Maxitems > 0 && len(c.items) >= c.Maxitems {
 		// We need a cleaning
 		c.mClean(10)
+		// 10% of less than 10 entries is none
+		for len(c.items) > c.Maxitems {
+			delete(c.items, c.pile[0])
+			c.pile = c.pile[1:]
+		}
 	}
 	c.mutex.Unlock()
 }
-- 
2.43.0


From e450baa79370f5c6408cc5dece4f5a19d7a9b606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:56:51 +0000
Subject: [PATCH 18/34] fix: access the name and the language of XLanguage
 under the lock

---
 v2/xlanguage.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/v2/xlanguage.go b/v2/xlanguage.go
index 7506d73..f84c40e 100644
--- a/v2/xlanguage.go
+++ b/v2/xlanguage.go
@@ -112,10 +112,10 @@ func (l *XLanguage) LoadXMLString(data string) error {
 	}
 
 	// Scan to our XLanguage Object
-	l.Name = temp.Name
-	l.Language, _ = language.Parse(temp.Language)
 	l.mutex.Lock()
 	defer l.mutex.Unlock()
+	l.Name = temp.Name
+	l.Language, _ = language.Parse(temp.Language)
 	for _, e := range temp.Entries {
 		l.entries[e.ID] = e.Entry
 		l.status[e.ID] = e.Status
@@ -179,21 +179,29 @@ func (l *XLanguage) LoadString(data string) error {
 
 // SetName will set the name of the language table
 func (l *XLanguage) SetName(name string) {
+	l.mutex.Lock()
+	defer l.mutex.Unlock()
 	l.Name = name
 }
 
 // SetLanguage will set the language ISO code (2 letters) of the language table
 func (l *XLanguage) SetLanguage(lang language.Tag) {
+	l.mutex.Lock()
+	defer l.mutex.Unlock()
 	l.Language = lang
 }
 
 // GetName will return the name of the language table
 func (l *XLanguage) GetName() string {
+	l.mutex.RLock()
+	defer l.mutex.RUnlock()
 	return l.Name
 }
 
 // GetLanguage will return the language of the language table
 func (l *XLanguage) GetLanguage() language.Tag {
+	l.mutex.RLock()
+	defer l.mutex.RUnlock()
 	return l.Language
 }
 
-- 
2.43.0


From 25e605f377489876d8685a694b4a72bb6039e39f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:56:51 +0000
Subject: [PATCH 19/34] fix: XLanguage.LoadString loads the whole source or
 nothing

---
 v2/xlanguage.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/v2/xlanguage.go b/v2/xlanguage.go
index f84c40e..915f30b 100644
--- a/v2/xlanguage.go
+++ b/v2/xlanguage.go
@@ -146,6 +146,7 @@ func (l *XLanguage) LoadFile(file string) error {
 //
 //	Returns nil if there is an error
 func (l *XLanguage) LoadString(data string) error {
+	loaded := map[string]string{}
 	scanner := bufio.NewScanner(strings.NewReader(data))
 	for scanner.Scan() {
 		line := scanner.Text()
@@ -167,13 +168,16 @@ func (l *XLanguage) LoadString(data string) error {
 		if len(line) > posequal {
 			value = strings.TrimSpace(line[posequal+1:])
 		}
-		l.mutex.Lock()
-		l.entries[key] = value
-		l.mutex.Unlock()
+		loaded[key] = value
 	}
 	if err := scanner.Err(); err != nil {
 		return err
 	}
+	l.mutex.Lock()
+	defer l.mutex.Unlock()
+	for key, value := range loaded {
+		l.entries[key] = value
+	}
 	return nil
 }
 
-- 
2.43.0


From 1e17e6480ee1ecb0d3dfeea9282d63d62a695c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:56:52 +0000
Subject: [PATCH 20/34] fix: close the language file when it cannot be read

---
 v2/xlanguage.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/v2/xlanguage.go b/v2/xlanguage.go
index 915f30b..62b4c90 100644
--- a/v2/xlanguage.go
+++ b/v2/xlanguage.go
@@ -133,6 +133,7 @@ func (l *XLanguage) LoadFile(file string) error {
 	}
 	data, err := ioutil.ReadAll(flatFile)
 	if err != nil {
+		flatFile.Close()
 		return err
 	}
 	err = flatFile.Close()
-- 
2.43.0


From 69586895d89dc3e50b88e0e27fc4b1dc6b189de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:56:52 +0000
Subject: [PATCH 21/34] fix: v1 XLanguage.LoadString loads the whole source or
 nothing

---
 xlanguage.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/xlanguage.go b/xlanguage.go
index 2d23505..8ec5238 100644
--- a/xlanguage.go
+++ b/xlanguage.go
@@ -146,6 +146,7 @@ func (l *XLanguage) LoadFile(file string) error {
 //
 //	Returns nil if there is an error
 func (l *XLanguage) LoadString(data string) error {
+	loaded := map[string]string{}
 	scanner := bufio.NewScanner(strings.NewReader(data))
 	for scanner.Scan() {
 		line := scanner.Text()
@@ -167,11 +168,14 @@ func (l *XLanguage) LoadString(data string) error {
 		if len(line) > posequal {
 			value = strings.TrimSpace(line[posequal+1:])
 		}
-		l.Entries[key] = value
+		loaded[key] = value
 	}
 	if err := scanner.Err(); err != nil {
 		return err
 	}
+	for key, value := range loaded {
+		l.Entries[key] = value
+	}
 	return nil
 }
 
-- 
2.43.0


From dab4eb17efadac7ccd247f412c448dee800fb77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:56:52 +0000
Subject: [PATCH 22/34] fix: v1 closes the language file when it cannot be read

---
 xlanguage.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xlanguage.go b/xlanguage.go
index 8ec5238..d5ee4cd 100644
--- a/xlanguage.go
+++ b/xlanguage.go
@@ -82,6 +82,7 @@ func (l *XLanguage) LoadXMLFile(file string) error {
 	}
 	data, err := ioutil.ReadAll(xmlFile)
 	if err != nil {
+		xmlFile.Close()
 		return err
 	}
 	err = xmlFile.Close()
@@ -133,6 +134,7 @@ func (l *XLanguage) LoadFile(file string) error {
 	}
 	data, err := ioutil.ReadAll(flatFile)
 	if err != nil {
+		flatFile.Close()
 		return err
 	}
 	err = flatFile.Close()
-- 
2.43.0


From 7d877444ea43028aaa242d3b267e6addbc93d65a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:56:52 +0000
Subject: [PATCH 23/34] fix: XTemplate keeps its sub templates when the load
 fails

---
 v2/xtemplate.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/v2/xtemplate.go b/v2/xtemplate.go
index 72bd540..dacc8c7 100644
--- a/v2/xtemplate.go
+++ b/v2/xtemplate.go
@@ -205,7 +205,8 @@ func (t *XTemplate) compile(data string) error {
 	// second pass: all the sub templates into the Subtemplates
 	startpointers := []int{}
 	subtemplates := []*XTemplate{}
-	actualtemplate := t
+	root := &XTemplate{}
+	actualtemplate := root
 	for i, x := range compiled {
 		if x.ParamType == MetaTemplateStart {
 			startpointers = append(startpointers, i)
@@ -269,6 +270,9 @@ func (t *XTemplate) compile(data string) error {
 
 	compiled = compiled[:currentpointer]
 	t.Root = &compiled
+	for name, tmpl := range root.SubTemplates {
+		t.AddTemplate(name, tmpl)
+	}
 	return nil
 }
 
-- 
2.43.0


From 901d5b924f899c02ae077a3e8f47baf31146d704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:56:53 +0000
Subject: [PATCH 24/34] fix: close the template file when it cannot be read

---
 v2/xtemplate.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/v2/xtemplate.go b/v2/xtemplate.go
index dacc8c7..6a3ca3c 100644
--- a/v2/xtemplate.go
+++ b/v2/xtemplate.go
@@ -116,6 +116,7 @@ func (t *XTemplate) LoadFile(file string) error {
 	}
 	data, err := ioutil.ReadAll(tFile)
 	if err != nil {
+		tFile.Close()
 		return err
 	}
 	err = tFile.Close()
-- 
2.43.0


From da88ec0f91bd8745c8a1fbf15404691b7107359d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:56:53 +0000
Subject: [PATCH 25/34] fix: v1 XTemplate keeps its sub templates when the load
 fails

---
 xtemplate.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/xtemplate.go b/xtemplate.go
index 6451339..fc595e2 100644
--- a/xtemplate.go
+++ b/xtemplate.go
@@ -197,7 +197,8 @@ func (t *XTemplate) compile(data string) error {
 	// second pass: all the sub templates into the Subtemplates
 	startpointers := []int{}
 	subtemplates := []*XTemplate{}
-	actualtemplate := t
+	root := &XTemplate{}
+	actualtemplate := root
 	for i, x := range compiled {
 		if x.ParamType == MetaTemplateStart {
 			startpointers = append(startpointers, i)
@@ -261,6 +262,9 @@ func (t *XTemplate) compile(data string) error {
 
 	compiled = compiled[:currentpointer]
 	t.Root = &compiled
+	for name, tmpl := range root.SubTemplates {
+		t.AddTemplate(name, tmpl)
+	}
 	return nil
 }
 
-- 
2.43.0


From 859715c4fc6dd775c45bb34d832942e006c91766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:56:53 +0000
Subject: [PATCH 26/34] fix: v1 close the template file when it cannot be read

---
 xtemplate.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xtemplate.go b/xtemplate.go
index fc595e2..3c04b73 100644
--- a/xtemplate.go
+++ b/xtemplate.go
@@ -108,6 +108,7 @@ func (t *XTemplate) LoadFile(file string) error {
 	}
 	data, err := ioutil.ReadAll(tFile)
 	if err != nil {
+		tFile.Close()
 		return err
 	}
 	err = tFile.Close()
-- 
2.43.0


From 1cb50e170b25b36e72b19c91f7663c1a3cf0026b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:56:53 +0000
Subject: [PATCH 27/34] fix: XDatasetTS releases its lock when the dataset
 panics

---
 v2/xdatasetts.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/v2/xdatasetts.go b/v2/xdatasetts.go
index 75b5636..0933ab4 100644
--- a/v2/xdatasetts.go
+++ b/v2/xdatasetts.go
@@ -37,8 +37,8 @@ func (ds *XDatasetTS) GoString() string {
 // Set will add a variable key with value data to the XDatasetTS
 func (ds *XDatasetTS) Set(key string, data interface{}) {
 	ds.mutex.Lock()
+	defer ds.mutex.Unlock()
 	ds.data.Set(key, data)
-	ds.mutex.Unlock()
 }
 
 // Get will read the value of the key variable
@@ -139,15 +139,15 @@ func (ds *XDatasetTS) GetTimeCollection(key string) ([]time.Time, bool) {
 // Del will deletes the variable
 func (ds *XDatasetTS) Del(key string) {
 	ds.mutex.Lock()
+	defer ds.mutex.Unlock()
 	ds.data.Del(key)
-	ds.mutex.Unlock()
 }
 
 // Clone will creates a totally new data memory cloned from this object
 func (ds *XDatasetTS) Clone() XDatasetDef {
 	cloned := &XDatasetTS{}
 	ds.mutex.RLock()
+	defer ds.mutex.RUnlock()
 	cloned.data = ds.data.Clone()
-	ds.mutex.RUnlock()
 	return cloned
 }
-- 
2.43.0


From 50a6112b750f3a9e83f936ac80b8f9e7ab352762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:56:54 +0000
Subject: [PATCH 28/34] fix: XDatasetCollectionTS releases its lock on a panic

---
 v2/xdatasetcollectionts.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/v2/xdatasetcollectionts.go b/v2/xdatasetcollectionts.go
index 2d4838d..77d8f2b 100644
--- a/v2/xdatasetcollectionts.go
+++ b/v2/xdatasetcollectionts.go
@@ -17,10 +17,10 @@ type XDatasetCollectionTS struct {
 func (dc *XDatasetCollectionTS) String() string {
 	str := "XDatasetCollectionTS["
 	dc.mutex.RLock()
+	defer dc.mutex.RUnlock()
 	for key, val := range dc.data {
 		str += strconv.Itoa(key) + ":" + fmt.Sprint(val) + " "
 	}
-	dc.mutex.RUnlock()
 	str += "]"
 	return str
 }
@@ -40,9 +40,9 @@ func (dc *XDatasetCollectionTS) Unshift(data XDatasetDef) {
 // Shift will remove the element at the beginning of the collection
 func (dc *XDatasetCollectionTS) Shift() XDatasetDef {
 	dc.mutex.Lock()
+	defer dc.mutex.Unlock()
 	data := dc.data[0]
 	dc.data = dc.data[1:]
-	dc.mutex.Unlock()
 	return data
 }
 
@@ -56,9 +56,9 @@ func (dc *XDatasetCollectionTS) Push(data XDatasetDef) {
 // Pop will remove the element at the end of the collection
 func (dc *XDatasetCollectionTS) Pop() XDatasetDef {
 	dc.mutex.Lock()
+	defer dc.mutex.Unlock()
 	data := dc.data[len(dc.data)-1]
 	dc.data = dc.data[:len(dc.data)-1]
-	dc.mutex.Unlock()
 	return data
 }
 
-- 
2.43.0


From a88c556493e15a11327700bd3de992983b0dc121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:56:54 +0000
Subject: [PATCH 29/34] fix: XDatasetCollectionTS searches and clones a
 snapshot of its elements

---
 v2/xdatasetcollectionts.go | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/v2/xdatasetcollectionts.go b/v2/xdatasetcollectionts.go
index 77d8f2b..dd35666 100644
--- a/v2/xdatasetcollectionts.go
+++ b/v2/xdatasetcollectionts.go
@@ -79,16 +79,18 @@ func (dc *XDatasetCollectionTS) Get(index int) (XDatasetDef, bool) {
 	return dc.data[index], true
 }
 
+// snapshot will return a copy of the list of elements at this moment
+func (dc *XDatasetCollectionTS) snapshot() []XDatasetDef {
+	dc.mutex.RLock()
+	defer dc.mutex.RUnlock()
+	return append([]XDatasetDef{}, dc.data...)
+}
+
 // GetData will retrieve the first available data identified by key from the collection ordered by index
 func (dc *XDatasetCollectionTS) GetData(key string) (interface{}, bool) {
-	dc.mutex.RLock()
-	l := len(dc.data) - 1
-	dc.mutex.RUnlock()
-	for i := l; i >= 0; i-- {
-		dc.mutex.RLock()
-		dcc := dc.data[i]
-		dc.mutex.RUnlock()
-		val, ok := dcc.Get(key)
+	data := dc.snapshot()
+	for i := len(data) - 1; i >= 0; i-- {
+		val, ok := data[i].Get(key)
 		if ok {
 			return val, true
 		}
@@ -158,7 +160,7 @@ func (dc *XDatasetCollectionTS) GetCollection(key string) (XDatasetCollectionDef
 // Clone will make a full copy of the object into memory
 func (dc *XDatasetCollectionTS) Clone() XDatasetCollectionDef {
 	cloned := &XDatasetCollectionTS{}
-	for _, val := range dc.data {
+	for _, val := range dc.snapshot() {
 		cloned.data = append(cloned.data, val.Clone())
 	}
 	return cloned
-- 
2.43.0


From 0931062372fb04ea750288abe2bb9c143c85c55c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:56:54 +0000
Subject: [PATCH 30/34] fix: XDatasetCollectionTS.GetDataString of a nil value
 is empty

---
 v2/xdatasetcollectionts.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/v2/xdatasetcollectionts.go b/v2/xdatasetcollectionts.go
index dd35666..00fc098 100644
--- a/v2/xdatasetcollectionts.go
+++ b/v2/xdatasetcollectionts.go
@@ -102,6 +102,9 @@ func (dc *XDatasetCollectionTS) GetData(key string) (interface{}, bool) {
 func (dc *XDatasetCollectionTS) GetDataString(key string) (string, bool) {
 	v, ok := dc.GetData(key)
 	if ok {
+		if v == nil {
+			return "", true
+		}
 		return fmt.Sprint(v), true
 	}
 	return "", false
-- 
2.43.0


From 87ba8142b237901344f1649d5dc101e445f52f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:56:55 +0000
Subject: [PATCH 31/34] fix: XDatasetCollectionTS.GetCollection does not panic
 on other types

---
 v2/xdatasetcollectionts.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/v2/xdatasetcollectionts.go b/v2/xdatasetcollectionts.go
index 00fc098..d0daceb 100644
--- a/v2/xdatasetcollectionts.go
+++ b/v2/xdatasetcollectionts.go
@@ -155,7 +155,10 @@ func (dc *XDatasetCollectionTS) GetCollection(key string) (XDatasetCollectionDef
 	v, ok := dc.GetData(key)
 	// Verify v IS actually a XDatasetCollectionDef to avoid the error
 	if ok {
-		return v.(XDatasetCollectionDef), true
+		dsd, ok2 := v.(XDatasetCollectionDef)
+		if ok2 {
+			return dsd, true
+		}
 	}
 	return nil, false
 }
-- 
2.43.0


From 4fd409b2fffe227a0a8d9106e2afd60d1e62dca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:09:04 +0000
Subject: [PATCH 32/34] fix: XTemplate.Clone does not change the original
 template

---
 v2/xtemplate.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/v2/xtemplate.go b/v2/xtemplate.go
index 6a3ca3c..047d0cf 100644
--- a/v2/xtemplate.go
+++ b/v2/xtemplate.go
@@ -536,7 +536,7 @@ func (t *XTemplate) Clone() *XTemplate {
 		newsubtemplates := map[string]*XTemplate{}
 		for id, xt := range t.SubTemplates {
 			newsubtemplates[id] = xt.Clone()
-			xt.Father = cloned
+			newsubtemplates[id].Father = cloned
 		}
 		cloned.SubTemplates = newsubtemplates
 	}
-- 
2.43.0


From 67a0c2f92f8b8d0b05c06cad767f7ecbb2884037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:09:04 +0000
Subject: [PATCH 33/34] fix: template loops do not write the counter into the
 data

---
 v2/xtemplate.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/v2/xtemplate.go b/v2/xtemplate.go
index 047d0cf..36ce159 100644
--- a/v2/xtemplate.go
+++ b/v2/xtemplate.go
@@ -413,12 +413,14 @@ func (t *XTemplate) injector(datacol XDatasetCollectionDef, language *XLanguage)
 								tmp = subt
 							}
 							dcl, _ := cl.Get(i)
-							dcl.Set(".counter", i+1)
 							datacol.Push(dcl)
+							// the counter goes over the data, which is not ours to modify
+							datacol.Push(&XDataset{".counter": i + 1})
 							substr := tmp.injector(datacol, language)
 							injected = append(injected, substr)
 							// unstack extra data
 							datacol.Pop()
+							datacol.Pop()
 						}
 					} else {
 						var tmp *XTemplate
-- 
2.43.0


From 3e3c462b728b6cc8caf1920dd656700f30dbbdb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:09:04 +0000
Subject: [PATCH 34/34] fix: template loops end when the collection gets
 shorter

---
 v2/xtemplate.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/v2/xtemplate.go b/v2/xtemplate.go
index 36ce159..99abc1b 100644
--- a/v2/xtemplate.go
+++ b/v2/xtemplate.go
@@ -412,7 +412,11 @@ func (t *XTemplate) injector(datacol XDatasetCollectionDef, language *XLanguage)
 							if tmp == nil {
 								tmp = subt
 							}
-							dcl, _ := cl.Get(i)
+							dcl, ok := cl.Get(i)
+							if !ok {
+								// the collection has been shortened meanwhile
+								break
+							}
 							datacol.Push(dcl)
 							// the counter goes over the data, which is not ours to modify
 							datacol.Push(&XDataset{".counter": i + 1})
-- 
2.43.0

