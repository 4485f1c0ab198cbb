From 0c6efbbb9ddf4c607d6fcf7c27e2904b7231f7c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:12 +0000
Subject: [PATCH 01/59] fix: SELECT affects only the connection that sent it

Handle runs on the one Manager shared by all connections, so a SELECT of one
client switched the database of every other client as well.
---
 server/handler.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/server/handler.go b/server/handler.go
index 017598f..fea39ed 100644
--- a/server/handler.go
+++ b/server/handler.go
@@ -29,6 +29,9 @@ func NewManager(config *config.Config) *Manager {
 }
 
 func (m *Manager) Handle(conn net.Conn) {
+	// the selected database belongs to the connection, the databases are shared
+	m = &Manager{db: m.dbs[0], dbs: m.dbs}
+
 	// parse conn
 	ch := resp.ParseStream(conn)
 
-- 
2.43.0


From e0dcea4ef58608e1fd68c973273a728cf1d83d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:12 +0000
Subject: [PATCH 02/59] fix: SELECT of a database out of range replies with an
 error

---
 server/handler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/handler.go b/server/handler.go
index fea39ed..399fd29 100644
--- a/server/handler.go
+++ b/server/handler.go
@@ -114,7 +114,7 @@ func (m *Manager) Select(cmd [][]byte) resp.RedisData {
 	}
 
 	if dbIdx >= len(m.dbs) || dbIdx < 0 {
-		return resp.NewSimpleString(fmt.Sprintf("ERR DB index is out of range with maximum %d", len(m.dbs)))
+		return resp.NewSimpleError(fmt.Sprintf("ERR DB index is out of range with maximum %d", len(m.dbs)))
 	}
 
 	m.db = m.dbs[dbIdx]
-- 
2.43.0


From 7f946bd71a0496a5a4ae65023846ce26845a9316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:13 +0000
Subject: [PATCH 03/59] fix: an empty command array no longer panics the server

---
 server/handler.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/server/handler.go b/server/handler.go
index 399fd29..e0b70a0 100644
--- a/server/handler.go
+++ b/server/handler.go
@@ -70,6 +70,10 @@ func (m *Manager) Handle(conn net.Conn) {
 
 		// excute parsed command
 		cmd := arrayData.ToCommand()
+		if len(cmd) == 0 {
+			// an empty or null array holds no command
+			continue
+		}
 		redisData := m.ExecCommand(cmd)
 
 		// write result to connection
-- 
2.43.0


From 986918670f315810d8d61fe281dc28ae8077ae9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:15 +0000
Subject: [PATCH 04/59] fix: lazy expiry checks the deadline again under the
 key lock

Between the unlocked check and the deletion another connection can store a
new value, which was then deleted together with its acknowledgement.
---
 memdb/memdb.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/memdb/memdb.go b/memdb/memdb.go
index b450868..7c05c92 100644
--- a/memdb/memdb.go
+++ b/memdb/memdb.go
@@ -55,6 +55,10 @@ func (db *MemDb) DeleteExpiredKey(key string) bool {
 	if db.CheckExpire(key) {
 		db.locks.Lock(key)
 		defer db.locks.UnLock(key)
+		// the key may have been written again before the lock was taken
+		if !db.CheckExpire(key) {
+			return false
+		}
 		db.dict.Delete(key)
 		db.expires.Delete(key)
 		return true
-- 
2.43.0


From 49c812d05d69f64c75cfc44cb72d3a80e077c6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:16 +0000
Subject: [PATCH 05/59] fix: SETNX tests for the key under its lock

Two connections could both be told that they created the key.
---
 memdb/strings.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/memdb/strings.go b/memdb/strings.go
index 42a7871..d6a3726 100644
--- a/memdb/strings.go
+++ b/memdb/strings.go
@@ -375,15 +375,15 @@ func setNxString(db *MemDb, cmd [][]byte) resp.RedisData {
 	key := string(cmd[1])
 	db.DeleteExpiredKey(key)
 
-	if _, ok := db.dict.Get(key); ok {
-		return resp.NewInteger(0)
-	}
-
 	val := cmd[2]
 
 	db.locks.Lock(key)
 	defer db.locks.UnLock(key)
 
+	if _, ok := db.dict.Get(key); ok {
+		return resp.NewInteger(0)
+	}
+
 	db.dict.Set(key, val)
 
 	return resp.NewInteger(1)
-- 
2.43.0


From d9f13afb6a3cac89a75d165916861ec7fecc3868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:47 +0000
Subject: [PATCH 06/59] fix: the key count of a ConcurrentMap is not shared
 without a lock

Segments have a lock each, but all of them changed the one count; KEYS sized
its result by it, and indexed out of range or returned empty names when keys
were added or removed meanwhile.
---
 memdb/concurrentMap.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/memdb/concurrentMap.go b/memdb/concurrentMap.go
index 72cf441..33e7f6e 100644
--- a/memdb/concurrentMap.go
+++ b/memdb/concurrentMap.go
@@ -10,7 +10,6 @@ const MaxSegSize int = int(1<<32 - 1) // max signed int32
 type ConcurrentMap struct {
 	table []*segment
 	size  int // table size
-	count int // key counts
 }
 
 type segment struct {
@@ -26,7 +25,6 @@ func NewConcurrentMap(size int) *ConcurrentMap {
 	m := &ConcurrentMap{
 		table: make([]*segment, size),
 		size:  size,
-		count: 0,
 	}
 
 	for i := 0; i < size; i++ {
@@ -52,7 +50,6 @@ func (m *ConcurrentMap) Set(key string, value any) int {
 
 	if _, ok := segment.ht[key]; !ok {
 		added = 1
-		m.count++
 	}
 	segment.ht[key] = value
 	return added
@@ -67,7 +64,6 @@ func (m *ConcurrentMap) Delete(key string) int {
 
 	if _, ok := segment.ht[key]; ok {
 		delete(segment.ht, key)
-		m.count--
 		return 1
 	}
 
@@ -89,7 +85,13 @@ func (m *ConcurrentMap) Size() int {
 }
 
 func (m *ConcurrentMap) Count() int {
-	return m.count
+	count := 0
+	for i := range m.table {
+		m.table[i].rwMu.RLock()
+		count += len(m.table[i].ht)
+		m.table[i].rwMu.RUnlock()
+	}
+	return count
 }
 
 func (m *ConcurrentMap) Clear() {
@@ -98,13 +100,11 @@ func (m *ConcurrentMap) Clear() {
 
 // 这里拿到的keys有可能有过期的，需要lazy deletion
 func (m *ConcurrentMap) Keys() []string {
-	keys := make([]string, m.count)
-	k := 0
+	keys := make([]string, 0)
 	for i := range m.table {
 		m.table[i].rwMu.Lock()
 		for key := range m.table[i].ht {
-			keys[k] = key
-			k++
+			keys = append(keys, key)
 		}
 		m.table[i].rwMu.Unlock()
 	}
-- 
2.43.0


From d48520ce019b70954decebde9dd9e248d26bd890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:48 +0000
Subject: [PATCH 07/59] fix: KEYS does not list a key that expired before the
 call

An expired key in the snapshot that another connection cleaned up first was
taken for a live one.
---
 memdb/keys.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/memdb/keys.go b/memdb/keys.go
index ceb418b..f313432 100644
--- a/memdb/keys.go
+++ b/memdb/keys.go
@@ -68,7 +68,12 @@ func keysKey(db *MemDb, cmd [][]byte) resp.RedisData {
 	keys := db.dict.Keys()
 	for _, key := range keys {
 		if !db.DeleteExpiredKey(key) {
-			if util.PattenMatch(pattern, key) {
+			// another connection may have removed the key since it was listed
+			db.locks.RLock(key)
+			_, ok := db.dict.Get(key)
+			ok = ok && !db.CheckExpire(key)
+			db.locks.RUnLock(key)
+			if ok && util.PattenMatch(pattern, key) {
 				res = append(res, resp.NewBulkString([]byte(key)))
 			}
 		}
-- 
2.43.0


From 6410cf8786aabb18337cc41f5618998453be6960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:50 +0000
Subject: [PATCH 08/59] fix: KEYS patterns: '*' before '?' or '[', unterminated
 ranges, blow-up

'*' compared the next pattern character literally, so '*?' or '*[ab]' matched
nothing; '[a-' read past the end of the pattern and panicked the server; and
patterns with many '*' took exponential time. Match with one backtracking
point instead.
---
 util/util.go | 140 +++++++++++++++++++++------------------------------
 1 file changed, 57 insertions(+), 83 deletions(-)

diff --git a/util/util.go b/util/util.go
index 2667940..bb70ecb 100644
--- a/util/util.go
+++ b/util/util.go
@@ -24,99 +24,73 @@ h[a-b]llo matches hallo and hbllo
 // regular regression
 func PattenMatch(pattern, src string) bool {
 	patLen, srcLen := len(pattern), len(src)
+	patPos, srcPos := 0, 0
+	starPos, starSrc := -1, 0 // last '*' and where the rest after it is tried
 
-	if patLen == 0 {
-		return srcLen == 0
+	for srcPos < srcLen {
+		if patPos < patLen && pattern[patPos] == '*' { // h*llo
+			starPos, starSrc = patPos, srcPos
+			patPos++
+			continue
+		}
+		if n := matchOne(pattern[patPos:], src[srcPos]); n > 0 {
+			patPos += n
+			srcPos++
+			continue
+		}
+		if starPos < 0 {
+			return false
+		}
+		// let the last '*' take one more character
+		starSrc++
+		patPos, srcPos = starPos+1, starSrc
 	}
 
-	if srcLen == 0 {
-		for i := range pattern {
-			if pattern[i] != '*' {
-				return false
-			}
-		}
-		return true
+	// src has been cosumed
+	for patPos < patLen && pattern[patPos] == '*' {
+		patPos++
 	}
+	return patPos == patLen
+}
 
-	patPos, srcPos := 0, 0
-	for patPos < patLen {
-		switch pattern[patPos] {
-		case '?': // h?llo
-			srcPos++
-		case '*': // h*llo
-			for patPos < patLen && pattern[patPos] == '*' {
-				patPos++
-			}
-			if patPos == patLen {
-				return true
-			}
-			for srcPos < srcLen {
-				for srcPos < srcLen && src[srcPos] != pattern[patPos] {
-					srcPos++
-				}
-				if srcPos == srcLen {
-					return patPos == patLen
-				}
-				if PattenMatch(pattern[patPos+1:], src[srcPos+1:]) {
-					return true
-				} else {
-					srcPos++
+// matchOne matches c against the first element of pattern, which is not '*'.
+// It returns the length of that element, or 0 if c does not match.
+func matchOne(pattern string, c byte) int {
+	if len(pattern) == 0 {
+		return 0
+	}
+
+	switch pattern[0] {
+	case '?': // h?llo
+		return 1
+	case '[':
+		var not, match bool
+		pos := 1
+		if pos < len(pattern) && pattern[pos] == '^' {
+			not = true
+			pos++
+		}
+		for ; pos < len(pattern); pos++ {
+			if pattern[pos] == ']' {
+				if match == not {
+					return 0
 				}
+				return pos + 1
 			}
-			return false
-		case '[':
-			var not, close, match bool
-			patPos++
-			if patPos == patLen {
-				return false
-			}
-			if pattern[patPos] == '^' {
-				not = true
-				patPos++
-			}
-			for patPos < patLen {
-				if pattern[patPos] == ']' {
-					close = true
-					break
-				} else if pattern[patPos] == '-' {
-					start, end := pattern[patPos-1], pattern[patPos+1]
-					if src[srcPos] >= start && src[srcPos] <= end {
-						match = true
-					}
-					patPos++
-				} else {
-					if pattern[patPos] == src[srcPos] { //h[ae]llo and h[^e]llo
-						match = true
-					}
+			if pos+2 < len(pattern) && pattern[pos+1] == '-' && pattern[pos+2] != ']' { // h[a-b]llo
+				if c >= pattern[pos] && c <= pattern[pos+2] {
+					match = true
 				}
-				patPos++
-			}
-			if !close {
-				return false
-			}
-			if not {
-				match = !match
+				pos += 2
+			} else if pattern[pos] == c { //h[ae]llo and h[^e]llo
+				match = true
 			}
-			if !match {
-				return false
-			}
-			srcPos++
-		default:
-			if pattern[patPos] != src[srcPos] {
-				return false
-			}
-			srcPos++
 		}
-		patPos++
-
-		// src has been cosumed
-		if srcPos == srcLen {
-			for patPos < patLen && pattern[patPos] == '*' {
-				patPos++
-			}
-			break
+		return 0 // not closed
+	default:
+		if pattern[0] == c {
+			return 1
 		}
+		return 0
 	}
-
-	return patPos == patLen && srcPos == srcLen
 }
-- 
2.43.0


From c204861abf20889c10bfa617cd7bf117ba84bd86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:16 +0000
Subject: [PATCH 09/59] fix: set operations treat missing and expired keys as
 empty sets

Expired keys were dropped from the operands, which changed the first operand
of SDIFF and the result of SINTER, and left an index out of range panic when
none remained; SINTERSTORE ignored missing operands altogether.
---
 memdb/set.go | 62 ++++++++++++++++++++--------------------------------
 1 file changed, 24 insertions(+), 38 deletions(-)

diff --git a/memdb/set.go b/memdb/set.go
index 37a9c8b..7146e94 100644
--- a/memdb/set.go
+++ b/memdb/set.go
@@ -75,10 +75,9 @@ func sInterSet(db *MemDb, cmd [][]byte) resp.RedisData {
 	keys := make([]string, 0, len(cmd)-1)
 	for _, _key := range cmd[1:] {
 		key := string(_key)
-		if !db.DeleteExpiredKey(key) {
-			// can't guarantee the key must to be existed
-			keys = append(keys, key)
-		}
+		db.DeleteExpiredKey(key)
+		// can't guarantee the key must to be existed
+		keys = append(keys, key)
 	}
 
 	db.locks.MRLock(keys)
@@ -143,15 +142,10 @@ func sInterStoreSet(db *MemDb, cmd [][]byte) resp.RedisData {
 	keys := make([]string, 0, len(cmd)-2)
 	for _, _key := range cmd[2:] {
 		key := string(_key)
-		if !db.DeleteExpiredKey(key) {
-			// can't guarantee the key must to be existed
-			keys = append(keys, key)
-		}
-	}
-	if len(keys) == 0 {
-		return resp.NewInteger(0)
+		db.DeleteExpiredKey(key)
+		// can't guarantee the key must to be existed
+		keys = append(keys, key)
 	}
-
 	// get primary key
 	key := keys[0]
 
@@ -197,13 +191,17 @@ func sInterStoreSet(db *MemDb, cmd [][]byte) resp.RedisData {
 	sets := make([]*Set, 0, len(keys)-1)
 	for _, key := range keys[1:] {
 		_set, ok := db.dict.Get(key)
+		var set *Set
 		if ok {
-			set, ok := _set.(*Set)
+			set, ok = _set.(*Set)
 			if !ok {
 				return resp.NewSimpleError("Operation against a key holding the wrong kind of value")
 			}
-			sets = append(sets, set)
+		} else {
+			// Keys that do not exist are considered to be empty sets.
+			set = NewSet()
 		}
+		sets = append(sets, set)
 	}
 
 	inter := s.Intersect(sets...)
@@ -224,10 +222,9 @@ func sDiffSet(db *MemDb, cmd [][]byte) resp.RedisData {
 	keys := make([]string, 0, len(cmd)-1)
 	for _, _key := range cmd[1:] {
 		key := string(_key)
-		if !db.DeleteExpiredKey(key) {
-			// can't guarantee the key must to be existed
-			keys = append(keys, key)
-		}
+		db.DeleteExpiredKey(key)
+		// can't guarantee the key must to be existed
+		keys = append(keys, key)
 	}
 
 	db.locks.MRLock(keys)
@@ -292,15 +289,10 @@ func sDiffStoreSet(db *MemDb, cmd [][]byte) resp.RedisData {
 	keys := make([]string, 0, len(cmd)-2)
 	for _, _key := range cmd[2:] {
 		key := string(_key)
-		if !db.DeleteExpiredKey(key) {
-			// can't guarantee the key must to be existed
-			keys = append(keys, key)
-		}
+		db.DeleteExpiredKey(key)
+		// can't guarantee the key must to be existed
+		keys = append(keys, key)
 	}
-	if len(keys) == 0 {
-		return resp.NewInteger(0)
-	}
-
 	// get primary key
 	key := keys[0]
 
@@ -655,10 +647,9 @@ func sUnionSet(db *MemDb, cmd [][]byte) resp.RedisData {
 	keys := make([]string, 0, len(cmd)-1)
 	for _, _key := range cmd[1:] {
 		key := string(_key)
-		if !db.DeleteExpiredKey(key) {
-			// can't guarantee the key must to be existed
-			keys = append(keys, key)
-		}
+		db.DeleteExpiredKey(key)
+		// can't guarantee the key must to be existed
+		keys = append(keys, key)
 	}
 
 	db.locks.MRLock(keys)
@@ -723,15 +714,10 @@ func sUnionStoreSet(db *MemDb, cmd [][]byte) resp.RedisData {
 	keys := make([]string, 0, len(cmd)-2)
 	for _, _key := range cmd[2:] {
 		key := string(_key)
-		if !db.DeleteExpiredKey(key) {
-			// can't guarantee the key must to be existed
-			keys = append(keys, key)
-		}
+		db.DeleteExpiredKey(key)
+		// can't guarantee the key must to be existed
+		keys = append(keys, key)
 	}
-	if len(keys) == 0 {
-		return resp.NewInteger(0)
-	}
-
 	// get primary key
 	key := keys[0]
 
-- 
2.43.0


From 54891ea3722f2cb0bb7b5da74eb81815fb5c8053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:17 +0000
Subject: [PATCH 10/59] fix: set STORE commands keep the destination on error
 and store no empty set

A wrong-type operand replaced the destination by an empty set although the
command failed, and an empty result left an empty key behind.
---
 memdb/set.go | 47 +++++++++++++++++------------------------------
 1 file changed, 17 insertions(+), 30 deletions(-)

diff --git a/memdb/set.go b/memdb/set.go
index 7146e94..d77590d 100644
--- a/memdb/set.go
+++ b/memdb/set.go
@@ -168,23 +168,15 @@ func sInterStoreSet(db *MemDb, cmd [][]byte) resp.RedisData {
 	}
 
 	// whatever old destination key/value it is, just cover before return
-	_, oldOk := db.dict.Get(dest)
 	destSet := NewSet()
 
-	defer func() {
-		db.dict.Set(dest, destSet)
-		if oldOk {
-			db.DeleteExpire(dest)
-		}
-	}()
-
 	// only primary key
 	if len(keys) == 1 {
 		members := s.Members()
 		for _, mem := range members {
 			destSet.Add(mem)
 		}
-		return resp.NewInteger(int64(destSet.Len()))
+		return storeSet(db, dest, destSet)
 	}
 
 	// calculate set operation
@@ -210,7 +202,18 @@ func sInterStoreSet(db *MemDb, cmd [][]byte) resp.RedisData {
 		destSet.Add(mem)
 	}
 
-	return resp.NewInteger(int64(destSet.Len()))
+	return storeSet(db, dest, destSet)
+}
+
+// storeSet replaces whatever is stored at dest, whose lock is held, by s
+func storeSet(db *MemDb, dest string, s *Set) resp.RedisData {
+	db.DeleteExpire(dest)
+	if s.Len() == 0 {
+		db.dict.Delete(dest)
+	} else {
+		db.dict.Set(dest, s)
+	}
+	return resp.NewInteger(int64(s.Len()))
 }
 
 func sDiffSet(db *MemDb, cmd [][]byte) resp.RedisData {
@@ -315,23 +318,15 @@ func sDiffStoreSet(db *MemDb, cmd [][]byte) resp.RedisData {
 	}
 
 	// whatever old destination key/value it is, just cover old before return
-	_, oldOk := db.dict.Get(dest)
 	destSet := NewSet()
 
-	defer func() {
-		db.dict.Set(dest, destSet)
-		if oldOk {
-			db.DeleteExpire(dest)
-		}
-	}()
-
 	// only primary key
 	if len(keys) == 1 {
 		members := s.Members()
 		for _, mem := range members {
 			destSet.Add(mem)
 		}
-		return resp.NewInteger(int64(destSet.Len()))
+		return storeSet(db, dest, destSet)
 	}
 
 	// calculate set operation
@@ -353,7 +348,7 @@ func sDiffStoreSet(db *MemDb, cmd [][]byte) resp.RedisData {
 		destSet.Add(mem)
 	}
 
-	return resp.NewInteger(int64(destSet.Len()))
+	return storeSet(db, dest, destSet)
 }
 
 func sIsMemberSet(db *MemDb, cmd [][]byte) resp.RedisData {
@@ -740,23 +735,15 @@ func sUnionStoreSet(db *MemDb, cmd [][]byte) resp.RedisData {
 	}
 
 	// whatever old destination key/value it is, just cover before return
-	_, oldOk := db.dict.Get(dest)
 	destSet := NewSet()
 
-	defer func() {
-		db.dict.Set(dest, destSet)
-		if oldOk {
-			db.DeleteExpire(dest)
-		}
-	}()
-
 	// only primary key
 	if len(keys) == 1 {
 		members := s.Members()
 		for _, mem := range members {
 			destSet.Add(mem)
 		}
-		return resp.NewInteger(int64(destSet.Len()))
+		return storeSet(db, dest, destSet)
 	}
 
 	// calculate set operation
@@ -778,7 +765,7 @@ func sUnionStoreSet(db *MemDb, cmd [][]byte) resp.RedisData {
 		destSet.Add(mem)
 	}
 
-	return resp.NewInteger(int64(destSet.Len()))
+	return storeSet(db, dest, destSet)
 }
 
 func RegisterSetCommands() {
-- 
2.43.0


From 6c0fbb4a1d67b17c9096721c716b2111534a0a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:18 +0000
Subject: [PATCH 11/59] fix: SREM of the last member deletes the key

---
 memdb/set.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/memdb/set.go b/memdb/set.go
index d77590d..4985243 100644
--- a/memdb/set.go
+++ b/memdb/set.go
@@ -629,6 +629,10 @@ func sRemSet(db *MemDb, cmd [][]byte) resp.RedisData {
 		key := string(_key)
 		res += s.Remove(key)
 	}
+	if s.Len() == 0 {
+		db.dict.Delete(key)
+		db.DeleteExpire(key)
+	}
 
 	return resp.NewInteger(int64(res))
 }
-- 
2.43.0


From 226d10ed8aeb8171e24812f6c74b6af38ae15884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:19 +0000
Subject: [PATCH 12/59] fix: SMOVE creates a missing destination

---
 memdb/set.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/memdb/set.go b/memdb/set.go
index 4985243..934345b 100644
--- a/memdb/set.go
+++ b/memdb/set.go
@@ -431,9 +431,7 @@ func sMoveSet(db *MemDb, cmd [][]byte) resp.RedisData {
 	}
 
 	des := string(cmd[2])
-	if db.DeleteExpiredKey(des) {
-		return resp.NewInteger(0)
-	}
+	db.DeleteExpiredKey(des)
 
 	member := string(cmd[3])
 
@@ -459,7 +457,7 @@ func sMoveSet(db *MemDb, cmd [][]byte) resp.RedisData {
 
 	desVal, ok := db.dict.Get(des)
 	if !ok {
-		return resp.NewInteger(0)
+		desVal = NewSet()
 	}
 
 	desSet, ok := desVal.(*Set)
@@ -468,6 +466,10 @@ func sMoveSet(db *MemDb, cmd [][]byte) resp.RedisData {
 	}
 
 	res := srcSet.Move(desSet, member)
+	if res == 1 {
+		// the destination may be new
+		db.dict.Set(des, desSet)
+	}
 
 	return resp.NewInteger(int64(res))
 }
-- 
2.43.0


From 45b5e1568c68b09f511f556d553e6ab8228cafa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:21 +0000
Subject: [PATCH 13/59] fix: SPOP and SRANDMEMBER return an empty member as
 such

An empty string is a valid member; SPOP removed it and reported that the set
was empty.
---
 memdb/set.go | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/memdb/set.go b/memdb/set.go
index 934345b..b45c8ff 100644
--- a/memdb/set.go
+++ b/memdb/set.go
@@ -521,11 +521,7 @@ func sPopSet(db *MemDb, cmd [][]byte) resp.RedisData {
 	}()
 
 	if !count {
-		pop := s.Pop()
-		if pop == "" {
-			return resp.NewBulkString(nil)
-		}
-		return resp.NewBulkString([]byte(pop))
+		return resp.NewBulkString([]byte(s.Pop()))
 	}
 
 	if countVal > s.Len() {
@@ -582,9 +578,6 @@ func sRandMemberSet(db *MemDb, cmd [][]byte) resp.RedisData {
 	var rand []string
 	if !count {
 		rand = s.Random(1)
-		if rand[0] == "" {
-			return resp.NewBulkString(nil)
-		}
 		return resp.NewBulkString([]byte(rand[0]))
 	}
 
-- 
2.43.0


From 985d1f6cacb02583f98d42df8a2b45ae62d7e5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:51 +0000
Subject: [PATCH 14/59] fix: a huge count of SRANDMEMBER or HRANDFIELD cannot
 crash the server

The count was used as the capacity of a slice, which panics when it is too
large or, for the most negative integer, stays negative.
---
 memdb/hash.go        |  3 +++
 memdb/hash_struct.go |  4 ++++
 memdb/set.go         | 11 ++++-------
 3 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/memdb/hash.go b/memdb/hash.go
index 162611e..233f1a6 100644
--- a/memdb/hash.go
+++ b/memdb/hash.go
@@ -525,6 +525,9 @@ func hRandFieldHash(db *MemDb, cmd [][]byte) resp.RedisData {
 		if err != nil {
 			return resp.NewSimpleError("value is not an integer")
 		}
+		if count < -maxRandomCount {
+			return resp.NewSimpleError("value is out of range")
+		}
 	}
 
 	if len(cmd) == 4 {
diff --git a/memdb/hash_struct.go b/memdb/hash_struct.go
index dc73ddb..f8e4d52 100644
--- a/memdb/hash_struct.go
+++ b/memdb/hash_struct.go
@@ -4,6 +4,10 @@ import (
 	"strconv"
 )
 
+// most elements a negative count of HRANDFIELD or SRANDMEMBER may ask for,
+// as they are all built in memory before the reply is sent
+const maxRandomCount = 1 << 24
+
 type Hash struct {
 	table map[string][]byte
 }
diff --git a/memdb/set.go b/memdb/set.go
index b45c8ff..c964e20 100644
--- a/memdb/set.go
+++ b/memdb/set.go
@@ -561,6 +561,9 @@ func sRandMemberSet(db *MemDb, cmd [][]byte) resp.RedisData {
 	if countVal == 0 {
 		return resp.NewBulkString(nil)
 	}
+	if countVal < -maxRandomCount {
+		return resp.NewSimpleError("value is out of range")
+	}
 
 	db.locks.RLock(key)
 	defer db.locks.RUnLock(key)
@@ -581,14 +584,8 @@ func sRandMemberSet(db *MemDb, cmd [][]byte) resp.RedisData {
 		return resp.NewBulkString([]byte(rand[0]))
 	}
 
-	var res []resp.RedisData
-	if countVal < 0 {
-		res = make([]resp.RedisData, 0, -countVal)
-	} else {
-		res = make([]resp.RedisData, 0, countVal)
-	}
-
 	rand = s.Random(countVal)
+	res := make([]resp.RedisData, 0, len(rand))
 	for i := 0; i < len(rand); i++ {
 		res = append(res, resp.NewBulkString([]byte(rand[i])))
 	}
-- 
2.43.0


From c40748a679b09ec3481de9b712507091b0c8bad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:52 +0000
Subject: [PATCH 15/59] fix: HRANDFIELD with a count of 1 replies with an array

It also ignored WITHVALUES.
---
 memdb/hash.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/memdb/hash.go b/memdb/hash.go
index 233f1a6..f80d52d 100644
--- a/memdb/hash.go
+++ b/memdb/hash.go
@@ -554,7 +554,7 @@ func hRandFieldHash(db *MemDb, cmd [][]byte) resp.RedisData {
 	}
 
 	//  a single, randomly selected field when the count option is not used
-	if count == 1 {
+	if len(cmd) == 2 {
 		fields := h.Random(1)
 		return resp.NewBulkString([]byte(fields[0]))
 	}
-- 
2.43.0


From 457a47020ef25393044bdd4233d82e31360387ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:53 +0000
Subject: [PATCH 16/59] fix: HSETNX looks at the field, not at the key

A new field of an existing hash was refused, and a key of another type gave 0
instead of an error.
---
 memdb/hash.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/memdb/hash.go b/memdb/hash.go
index f80d52d..8392b70 100644
--- a/memdb/hash.go
+++ b/memdb/hash.go
@@ -421,9 +421,6 @@ func hSetNxHash(db *MemDb, cmd [][]byte) resp.RedisData {
 	if !ok {
 		v = NewHash()
 		db.dict.Set(key, v)
-	} else {
-		// 0 if the field already exists in the hash and no operation was performed.
-		return resp.NewInteger(0)
 	}
 
 	// wrong type
@@ -433,6 +430,10 @@ func hSetNxHash(db *MemDb, cmd [][]byte) resp.RedisData {
 	}
 
 	field := string(cmd[2])
+	if h.Exist(field) {
+		// 0 if the field already exists in the hash and no operation was performed.
+		return resp.NewInteger(0)
+	}
 	val := cmd[3]
 	h.Set(field, val)
 
-- 
2.43.0


From 2b508b3e0a19888d35ad890cb604aab5201c6425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:55 +0000
Subject: [PATCH 17/59] fix: HMGET of a missing hash replies with one nil per
 field

---
 memdb/hash.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/memdb/hash.go b/memdb/hash.go
index 8392b70..ecedf21 100644
--- a/memdb/hash.go
+++ b/memdb/hash.go
@@ -304,10 +304,7 @@ func hMGetHash(db *MemDb, cmd [][]byte) resp.RedisData {
 
 	// passive delete expired key
 	key := string(cmd[1])
-	if db.DeleteExpiredKey(key) {
-		// an empty list when key does not exist.
-		return resp.NewArray([]resp.RedisData{})
-	}
+	db.DeleteExpiredKey(key)
 
 	db.locks.RLock(key)
 	defer db.locks.RUnLock(key)
@@ -315,8 +312,8 @@ func hMGetHash(db *MemDb, cmd [][]byte) resp.RedisData {
 	// key not existed
 	v, ok := db.dict.Get(key)
 	if !ok {
-		// an empty list when key does not exist.
-		return resp.NewArray([]resp.RedisData{})
+		// a nil for each field when key does not exist.
+		v = NewHash()
 	}
 
 	// wrong type
-- 
2.43.0


From 50ffdfe7af1652b64d53af81b82bbe66a4f7fe63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:56 +0000
Subject: [PATCH 18/59] fix: a failing HINCRBY or HINCRBYFLOAT creates no empty
 hash

---
 memdb/hash.go | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/memdb/hash.go b/memdb/hash.go
index ecedf21..6b0087f 100644
--- a/memdb/hash.go
+++ b/memdb/hash.go
@@ -157,6 +157,11 @@ func hIncrByHash(db *MemDb, cmd [][]byte) resp.RedisData {
 		return resp.NewSimpleError("wrong number of arguments for command")
 	}
 
+	increment, err := strconv.Atoi(string(cmd[3]))
+	if err != nil {
+		return resp.NewSimpleError("value is not an integer")
+	}
+
 	// passive delete expired key
 	key := string(cmd[1])
 	db.DeleteExpiredKey(key)
@@ -168,7 +173,6 @@ func hIncrByHash(db *MemDb, cmd [][]byte) resp.RedisData {
 	v, ok := db.dict.Get(key)
 	if !ok {
 		v = NewHash()
-		db.dict.Set(key, v)
 	}
 
 	// wrong type
@@ -178,15 +182,11 @@ func hIncrByHash(db *MemDb, cmd [][]byte) resp.RedisData {
 	}
 
 	field := string(cmd[2])
-	increment, err := strconv.Atoi(string(cmd[3]))
-	if err != nil {
-		return resp.NewSimpleError("value is not an integer")
-	}
-
 	val, ok := h.IncrBy(field, increment)
 	if !ok {
 		return resp.NewSimpleError("hash value is not an integer")
 	}
+	db.dict.Set(key, h)
 
 	return resp.NewInteger(int64(val))
 }
@@ -196,6 +196,11 @@ func hIncrByFloatHash(db *MemDb, cmd [][]byte) resp.RedisData {
 		return resp.NewSimpleError("wrong number of arguments for command")
 	}
 
+	increment, err := strconv.ParseFloat(string(cmd[3]), 64)
+	if err != nil {
+		return resp.NewSimpleError("value is not an float")
+	}
+
 	// passive delete expired key
 	key := string(cmd[1])
 	db.DeleteExpiredKey(key)
@@ -207,8 +212,6 @@ func hIncrByFloatHash(db *MemDb, cmd [][]byte) resp.RedisData {
 	v, ok := db.dict.Get(key)
 	if !ok {
 		v = NewHash()
-		db.dict.Set(key, v)
-
 	}
 
 	// wrong type
@@ -218,15 +221,11 @@ func hIncrByFloatHash(db *MemDb, cmd [][]byte) resp.RedisData {
 	}
 
 	field := string(cmd[2])
-	increment, err := strconv.ParseFloat(string(cmd[3]), 64)
-	if err != nil {
-		return resp.NewSimpleError("value is not an float")
-	}
-
 	val, ok := h.IncrByFloat(field, increment)
 	if !ok {
 		return resp.NewSimpleError("hash value is not an float")
 	}
+	db.dict.Set(key, h)
 
 	return resp.NewBulkString([]byte(strconv.FormatFloat(val, 'f', -1, 64)))
 }
-- 
2.43.0


From 4ad0eeb88c08d33ba111bb15eea72a8e1c2414ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:25 +0000
Subject: [PATCH 19/59] fix: INCR, INCRBY, DECR and DECRBY create a missing key

They replied 0 and stored nothing, so the first increment was lost.
---
 memdb/strings.go | 66 +++++++++++++++++++++++++-----------------------
 1 file changed, 34 insertions(+), 32 deletions(-)

diff --git a/memdb/strings.go b/memdb/strings.go
index d6a3726..a68f97b 100644
--- a/memdb/strings.go
+++ b/memdb/strings.go
@@ -424,25 +424,26 @@ func incrString(db *MemDb, cmd [][]byte) resp.RedisData {
 	db.locks.Lock(key)
 	defer db.locks.UnLock(key)
 
+	//  If the key does not exist, it is set to 0 before performing the operation.
+	var nV int64
+	var err error
 	if val, ok := db.dict.Get(key); ok {
 		v, ok := val.([]byte)
 		if !ok {
 			return resp.NewSimpleError("the value stored at key is not a string")
 		}
 
-		nV, err := strconv.ParseInt(string(v), 10, 64)
+		nV, err = strconv.ParseInt(string(v), 10, 64)
 		if err != nil {
 			return resp.NewSimpleError("value is not an integer")
 		}
+	}
 
-		nV++
-		nVal := strconv.FormatInt(nV, 10)
-		db.dict.Set(key, []byte(nVal))
+	nV++
+	nVal := strconv.FormatInt(nV, 10)
+	db.dict.Set(key, []byte(nVal))
 
-		return resp.NewInteger(nV)
-	} else {
-		return resp.NewInteger(0)
-	}
+	return resp.NewInteger(nV)
 }
 
 func incrByString(db *MemDb, cmd [][]byte) resp.RedisData {
@@ -462,25 +463,25 @@ func incrByString(db *MemDb, cmd [][]byte) resp.RedisData {
 	db.locks.Lock(key)
 	defer db.locks.UnLock(key)
 
+	//  If the key does not exist, it is set to 0 before performing the operation.
+	var nV int64
 	if val, ok := db.dict.Get(key); ok {
 		v, ok := val.([]byte)
 		if !ok {
 			return resp.NewSimpleError("the value stored at key is not a string")
 		}
 
-		nV, err := strconv.ParseInt(string(v), 10, 64)
+		nV, err = strconv.ParseInt(string(v), 10, 64)
 		if err != nil {
 			return resp.NewSimpleError("value is not an integer")
 		}
+	}
 
-		nV += increment
-		nVal := strconv.FormatInt(nV, 10)
-		db.dict.Set(key, []byte(nVal))
+	nV += increment
+	nVal := strconv.FormatInt(nV, 10)
+	db.dict.Set(key, []byte(nVal))
 
-		return resp.NewInteger(nV)
-	} else {
-		return resp.NewInteger(0)
-	}
+	return resp.NewInteger(nV)
 }
 
 func decrString(db *MemDb, cmd [][]byte) resp.RedisData {
@@ -495,25 +496,26 @@ func decrString(db *MemDb, cmd [][]byte) resp.RedisData {
 	db.locks.Lock(key)
 	defer db.locks.UnLock(key)
 
+	//  If the key does not exist, it is set to 0 before performing the operation.
+	var nV int64
+	var err error
 	if val, ok := db.dict.Get(key); ok {
 		v, ok := val.([]byte)
 		if !ok {
 			return resp.NewSimpleError("the value stored at key is not a string")
 		}
 
-		nV, err := strconv.ParseInt(string(v), 10, 64)
+		nV, err = strconv.ParseInt(string(v), 10, 64)
 		if err != nil {
 			return resp.NewSimpleError("value is not an integer")
 		}
+	}
 
-		nV--
-		nVal := strconv.FormatInt(nV, 10)
-		db.dict.Set(key, []byte(nVal))
+	nV--
+	nVal := strconv.FormatInt(nV, 10)
+	db.dict.Set(key, []byte(nVal))
 
-		return resp.NewInteger(nV)
-	} else {
-		return resp.NewInteger(0)
-	}
+	return resp.NewInteger(nV)
 }
 
 func decrByString(db *MemDb, cmd [][]byte) resp.RedisData {
@@ -533,25 +535,25 @@ func decrByString(db *MemDb, cmd [][]byte) resp.RedisData {
 	db.locks.Lock(key)
 	defer db.locks.UnLock(key)
 
+	//  If the key does not exist, it is set to 0 before performing the operation.
+	var nV int64
 	if val, ok := db.dict.Get(key); ok {
 		v, ok := val.([]byte)
 		if !ok {
 			return resp.NewSimpleError("the value stored at key is not a string")
 		}
 
-		nV, err := strconv.ParseInt(string(v), 10, 64)
+		nV, err = strconv.ParseInt(string(v), 10, 64)
 		if err != nil {
 			return resp.NewSimpleError("(error) value is not an integer")
 		}
+	}
 
-		nV -= decrement
-		nVal := strconv.FormatInt(nV, 10)
-		db.dict.Set(key, []byte(nVal))
+	nV -= decrement
+	nVal := strconv.FormatInt(nV, 10)
+	db.dict.Set(key, []byte(nVal))
 
-		return resp.NewInteger(nV)
-	} else {
-		return resp.NewInteger(0)
-	}
+	return resp.NewInteger(nV)
 }
 
 func incrByFloatString(db *MemDb, cmd [][]byte) resp.RedisData {
-- 
2.43.0


From d6e653dcf7bae78e8f1ddbe7c5f19441ca657b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:26 +0000
Subject: [PATCH 20/59] fix: integer increments report overflow instead of
 wrapping around

---
 memdb/hash.go        |  2 +-
 memdb/hash_struct.go |  4 ++++
 memdb/strings.go     | 13 +++++++++++++
 3 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/memdb/hash.go b/memdb/hash.go
index 6b0087f..22ee0d0 100644
--- a/memdb/hash.go
+++ b/memdb/hash.go
@@ -184,7 +184,7 @@ func hIncrByHash(db *MemDb, cmd [][]byte) resp.RedisData {
 	field := string(cmd[2])
 	val, ok := h.IncrBy(field, increment)
 	if !ok {
-		return resp.NewSimpleError("hash value is not an integer")
+		return resp.NewSimpleError("hash value is not an integer or increment would overflow")
 	}
 	db.dict.Set(key, h)
 
diff --git a/memdb/hash_struct.go b/memdb/hash_struct.go
index f8e4d52..b6b406c 100644
--- a/memdb/hash_struct.go
+++ b/memdb/hash_struct.go
@@ -1,6 +1,7 @@
 package memdb
 
 import (
+	"math"
 	"strconv"
 )
 
@@ -88,6 +89,9 @@ func (h *Hash) IncrBy(key string, increment int) (int, bool) {
 		if err != nil {
 			return 0, false
 		}
+		if (increment > 0 && n > math.MaxInt-increment) || (increment < 0 && n < math.MinInt-increment) {
+			return 0, false
+		}
 		value := n + increment
 		h.Set(key, []byte(strconv.Itoa(value)))
 		return value, true
diff --git a/memdb/strings.go b/memdb/strings.go
index a68f97b..fcedb6e 100644
--- a/memdb/strings.go
+++ b/memdb/strings.go
@@ -3,6 +3,7 @@ package memdb
 import (
 	"fmt"
 	"gRedis/resp"
+	"math"
 	"strconv"
 	"strings"
 	"time"
@@ -439,6 +440,9 @@ func incrString(db *MemDb, cmd [][]byte) resp.RedisData {
 		}
 	}
 
+	if nV == math.MaxInt64 {
+		return resp.NewSimpleError("increment or decrement would overflow")
+	}
 	nV++
 	nVal := strconv.FormatInt(nV, 10)
 	db.dict.Set(key, []byte(nVal))
@@ -477,6 +481,9 @@ func incrByString(db *MemDb, cmd [][]byte) resp.RedisData {
 		}
 	}
 
+	if (increment > 0 && nV > math.MaxInt64-increment) || (increment < 0 && nV < math.MinInt64-increment) {
+		return resp.NewSimpleError("increment or decrement would overflow")
+	}
 	nV += increment
 	nVal := strconv.FormatInt(nV, 10)
 	db.dict.Set(key, []byte(nVal))
@@ -511,6 +518,9 @@ func decrString(db *MemDb, cmd [][]byte) resp.RedisData {
 		}
 	}
 
+	if nV == math.MinInt64 {
+		return resp.NewSimpleError("increment or decrement would overflow")
+	}
 	nV--
 	nVal := strconv.FormatInt(nV, 10)
 	db.dict.Set(key, []byte(nVal))
@@ -549,6 +559,9 @@ func decrByString(db *MemDb, cmd [][]byte) resp.RedisData {
 		}
 	}
 
+	if (decrement > 0 && nV < math.MinInt64+decrement) || (decrement < 0 && nV > math.MaxInt64+decrement) {
+		return resp.NewSimpleError("increment or decrement would overflow")
+	}
 	nV -= decrement
 	nVal := strconv.FormatInt(nV, 10)
 	db.dict.Set(key, []byte(nVal))
-- 
2.43.0


From cad51e4b1874abbef8786836e4fb5f9fc11a6a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:27 +0000
Subject: [PATCH 21/59] fix: INCRBYFLOAT and HINCRBYFLOAT never store NaN or
 Infinity

---
 memdb/hash.go        | 5 +++--
 memdb/hash_struct.go | 3 +++
 memdb/strings.go     | 5 ++++-
 3 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/memdb/hash.go b/memdb/hash.go
index 22ee0d0..2d099ae 100644
--- a/memdb/hash.go
+++ b/memdb/hash.go
@@ -2,6 +2,7 @@ package memdb
 
 import (
 	"gRedis/resp"
+	"math"
 	"strconv"
 	"strings"
 )
@@ -197,7 +198,7 @@ func hIncrByFloatHash(db *MemDb, cmd [][]byte) resp.RedisData {
 	}
 
 	increment, err := strconv.ParseFloat(string(cmd[3]), 64)
-	if err != nil {
+	if err != nil || math.IsNaN(increment) || math.IsInf(increment, 0) {
 		return resp.NewSimpleError("value is not an float")
 	}
 
@@ -223,7 +224,7 @@ func hIncrByFloatHash(db *MemDb, cmd [][]byte) resp.RedisData {
 	field := string(cmd[2])
 	val, ok := h.IncrByFloat(field, increment)
 	if !ok {
-		return resp.NewSimpleError("hash value is not an float")
+		return resp.NewSimpleError("hash value is not an float or increment would produce NaN or Infinity")
 	}
 	db.dict.Set(key, h)
 
diff --git a/memdb/hash_struct.go b/memdb/hash_struct.go
index b6b406c..52cbdaf 100644
--- a/memdb/hash_struct.go
+++ b/memdb/hash_struct.go
@@ -109,6 +109,9 @@ func (h *Hash) IncrByFloat(key string, increment float64) (float64, bool) {
 			return 0, false
 		}
 		value := f + increment
+		if math.IsNaN(value) || math.IsInf(value, 0) {
+			return 0, false
+		}
 		h.Set(key, []byte(strconv.FormatFloat(value, 'f', -1, 64)))
 		return value, true
 	}
diff --git a/memdb/strings.go b/memdb/strings.go
index fcedb6e..bcdcc5f 100644
--- a/memdb/strings.go
+++ b/memdb/strings.go
@@ -579,7 +579,7 @@ func incrByFloatString(db *MemDb, cmd [][]byte) resp.RedisData {
 	db.DeleteExpiredKey(key)
 
 	increment, err := strconv.ParseFloat(string(cmd[2]), 64)
-	if err != nil {
+	if err != nil || math.IsNaN(increment) || math.IsInf(increment, 0) {
 		return resp.NewSimpleError("value is not an float")
 	}
 
@@ -598,6 +598,9 @@ func incrByFloatString(db *MemDb, cmd [][]byte) resp.RedisData {
 		}
 
 		fV += increment
+		if math.IsNaN(fV) || math.IsInf(fV, 0) {
+			return resp.NewSimpleError("increment would produce NaN or Infinity")
+		}
 		fVal := strconv.FormatFloat(fV, 'f', -1, 64)
 		db.dict.Set(key, []byte(fVal))
 
-- 
2.43.0


From 88e4f4ca874fd6d08f02903515a23965a07cb042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:51 +0000
Subject: [PATCH 22/59] fix: SET options: missing EX/PX value panics, EXAT/PXAT
 never parse

The errors for EX and PX were built but not returned, and EXAT and PXAT took
their own name for their value.
---
 memdb/strings.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/memdb/strings.go b/memdb/strings.go
index bcdcc5f..dab458d 100644
--- a/memdb/strings.go
+++ b/memdb/strings.go
@@ -48,18 +48,18 @@ func setString(db *MemDb, cmd [][]byte) resp.RedisData {
 			optNum++
 			i++
 			if i >= len(cmd) {
-				resp.NewSimpleError("syntax error")
+				return resp.NewSimpleError("syntax error")
 			}
 			exval, err = strconv.ParseInt(string(cmd[i]), 10, 64)
 			if err != nil {
-				resp.NewSimpleError("value is not an integer")
+				return resp.NewSimpleError("value is not an integer")
 			}
 		case "px":
 			px = true
 			optNum++
 			i++
 			if i >= len(cmd) {
-				resp.NewSimpleError("syntax error")
+				return resp.NewSimpleError("syntax error")
 			}
 			pxval, err = strconv.ParseInt(string(cmd[i]), 10, 64)
 			if err != nil {
@@ -68,6 +68,7 @@ func setString(db *MemDb, cmd [][]byte) resp.RedisData {
 		case "exat":
 			exat = true
 			optNum++
+			i++
 			if i >= len(cmd) {
 				return resp.NewSimpleError("syntax error")
 			}
@@ -78,6 +79,7 @@ func setString(db *MemDb, cmd [][]byte) resp.RedisData {
 		case "pxat":
 			pxat = true
 			optNum++
+			i++
 			if i >= len(cmd) {
 				return resp.NewSimpleError("syntax error")
 			}
-- 
2.43.0


From a799f5af1dfd8bda630d106e4afb86a0878b1f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:53 +0000
Subject: [PATCH 23/59] fix: SET overwrites a value of any type

Only SET with GET requires the old value to be a string.
---
 memdb/strings.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/memdb/strings.go b/memdb/strings.go
index dab458d..4daac98 100644
--- a/memdb/strings.go
+++ b/memdb/strings.go
@@ -105,7 +105,7 @@ func setString(db *MemDb, cmd [][]byte) resp.RedisData {
 	defer db.locks.UnLock(key)
 
 	oldVal, oldOk := db.dict.Get(key)
-	if oldOk {
+	if oldOk && get {
 		if _, ok := oldVal.([]byte); !ok {
 			return resp.NewSimpleError("The value stored at key is not a string")
 		}
-- 
2.43.0


From 5a6822b6dfc30ad90e3470625ac34907725d71a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:54 +0000
Subject: [PATCH 24/59] fix: SET that is refused by NX or XX leaves the expiry
 alone

---
 memdb/strings.go | 26 +++++++++-----------------
 1 file changed, 9 insertions(+), 17 deletions(-)

diff --git a/memdb/strings.go b/memdb/strings.go
index 4daac98..a483545 100644
--- a/memdb/strings.go
+++ b/memdb/strings.go
@@ -111,25 +111,12 @@ func setString(db *MemDb, cmd [][]byte) resp.RedisData {
 		}
 	}
 
-	if nx || xx {
-		if nx {
-			if !oldOk {
-				db.dict.Set(key, val)
-				res = resp.NewSimpleString("OK")
-			} else {
-				res = resp.NewBulkString(nil)
-			}
-		} else {
-			if oldOk {
-				db.dict.Set(key, val)
-				res = resp.NewSimpleString("OK")
-			} else {
-				res = resp.NewBulkString(nil)
-			}
-		}
-	} else {
+	written := !(nx && oldOk) && !(xx && !oldOk)
+	if written {
 		db.dict.Set(key, val)
 		res = resp.NewSimpleString("OK")
+	} else {
+		res = resp.NewBulkString(nil)
 	}
 
 	if get {
@@ -140,6 +127,11 @@ func setString(db *MemDb, cmd [][]byte) resp.RedisData {
 		}
 	}
 
+	if !written {
+		// nothing is changed, the expire time included
+		return res
+	}
+
 	if !keepttl {
 		db.DeleteExpire(key)
 	}
-- 
2.43.0


From 50e74d1776a27cf6c561726d30daa8f4f416f500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:55 +0000
Subject: [PATCH 25/59] fix: SET PX keeps the key for its whole lifetime

The fraction of a second was cut off both the current time and the lifetime,
so the key could vanish up to a second early.
---
 memdb/strings.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/memdb/strings.go b/memdb/strings.go
index a483545..d671b72 100644
--- a/memdb/strings.go
+++ b/memdb/strings.go
@@ -140,7 +140,7 @@ func setString(db *MemDb, cmd [][]byte) resp.RedisData {
 		db.SetExpire(key, time.Now().Unix()+exval)
 	}
 	if px {
-		db.SetExpire(key, time.Now().Unix()+pxval/1000)
+		db.SetExpire(key, (time.Now().UnixMilli()+pxval)/1000)
 	}
 	if exat {
 		db.SetExpire(key, exatval)
-- 
2.43.0


From c438ab9700ea170739d2c413e897339d55511b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:56 +0000
Subject: [PATCH 26/59] fix: a huge expiry is refused instead of expiring the
 key at once

Adding it to the current time overflowed.
---
 memdb/keys.go    | 3 +++
 memdb/memdb.go   | 4 ++++
 memdb/strings.go | 7 +++++++
 3 files changed, 14 insertions(+)

diff --git a/memdb/keys.go b/memdb/keys.go
index f313432..abb2212 100644
--- a/memdb/keys.go
+++ b/memdb/keys.go
@@ -98,6 +98,9 @@ func expireKey(db *MemDb, cmd [][]byte) resp.RedisData {
 	if err != nil {
 		return resp.NewSimpleError("value is not an integer")
 	}
+	if v > maxExpireSec || v < -maxExpireSec {
+		return resp.NewSimpleError("invalid expire time")
+	}
 	ttl := time.Now().Unix() + v
 
 	// get option
diff --git a/memdb/memdb.go b/memdb/memdb.go
index 7c05c92..484a856 100644
--- a/memdb/memdb.go
+++ b/memdb/memdb.go
@@ -2,9 +2,13 @@ package memdb
 
 import (
 	"gRedis/config"
+	"math"
 	"time"
 )
 
+// longest relative expire time (seconds), in milliseconds far from overflow
+const maxExpireSec = math.MaxInt64 / 4000
+
 type MemDb struct {
 	dict    *ConcurrentMap // memory cache db
 	expires *ConcurrentMap // keys with expire time(seconds)
diff --git a/memdb/strings.go b/memdb/strings.go
index d671b72..c878765 100644
--- a/memdb/strings.go
+++ b/memdb/strings.go
@@ -98,6 +98,9 @@ func setString(db *MemDb, cmd [][]byte) resp.RedisData {
 	if nx && xx || optNum > 1 {
 		return resp.NewSimpleError("syntax error")
 	}
+	if exval > maxExpireSec || pxval > maxExpireSec*1000 {
+		return resp.NewSimpleError("invalid expire time")
+	}
 
 	// set
 	var res resp.RedisData
@@ -350,6 +353,10 @@ func setExString(db *MemDb, cmd [][]byte) resp.RedisData {
 		return resp.NewSimpleError("value is not an integer")
 	}
 
+	if sec > maxExpireSec {
+		return resp.NewSimpleError("invalid expire time")
+	}
+
 	val := cmd[3]
 
 	db.locks.Lock(key)
-- 
2.43.0


From f1b3616541df2ef7ed34c6d28936f15817394735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:30 +0000
Subject: [PATCH 27/59] fix: SETRANGE keeps the tail, copies, and limits the
 length

It dropped what followed the overwritten part, changed the old value in place
while a GET of another connection was still sending it, created an empty key
for an empty value, and panicked the server for a huge offset.
---
 memdb/strings.go | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/memdb/strings.go b/memdb/strings.go
index c878765..7322dff 100644
--- a/memdb/strings.go
+++ b/memdb/strings.go
@@ -9,6 +9,8 @@ import (
 	"time"
 )
 
+const maxStringLen = 512 * 1024 * 1024
+
 /*
 EX seconds -- Set the specified expire time, in seconds.
 PX milliseconds -- Set the specified expire time, in milliseconds.
@@ -256,6 +258,9 @@ func setRangeString(db *MemDb, cmd [][]byte) resp.RedisData {
 	}
 
 	value := cmd[3]
+	if offset > maxStringLen || len(value) > maxStringLen-offset {
+		return resp.NewSimpleError("string exceeds maximum allowed size")
+	}
 
 	var oldVal, newVal []byte
 	db.locks.Lock(key)
@@ -272,16 +277,20 @@ func setRangeString(db *MemDb, cmd [][]byte) resp.RedisData {
 		oldVal = make([]byte, 0)
 	}
 
-	//  If the offset is larger than the current length of the string at key, the string is padded with zero-bytes to make offset fit.
-	if offset > len(oldVal) {
-		newVal = oldVal
-		zeroes := make([]byte, offset-len(oldVal)) // pre-allocating memory
-		newVal = append(newVal, zeroes...)
-	} else {
-		newVal = oldVal[:offset]
+	// nothing to write
+	if len(value) == 0 {
+		return resp.NewInteger(int64(len(oldVal)))
 	}
 
-	newVal = append(newVal, value...)
+	//  If the offset is larger than the current length of the string at key, the string is padded with zero-bytes to make offset fit.
+	//  The old value is not changed in place: a reply to another connection may still refer to it.
+	newLen := offset + len(value)
+	if newLen < len(oldVal) {
+		newLen = len(oldVal)
+	}
+	newVal = make([]byte, newLen)
+	copy(newVal, oldVal)
+	copy(newVal[offset:], value)
 	db.dict.Set(key, newVal)
 	return resp.NewInteger(int64(len(newVal)))
 }
-- 
2.43.0


From 9c104f18913e60882ee09a6c3de760b49ef68cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:31 +0000
Subject: [PATCH 28/59] fix: GETRANGE to the largest integer returns the string
 to its end

---
 memdb/strings.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/memdb/strings.go b/memdb/strings.go
index 7322dff..61999c5 100644
--- a/memdb/strings.go
+++ b/memdb/strings.go
@@ -222,6 +222,9 @@ func getRangeString(db *MemDb, cmd [][]byte) resp.RedisData {
 	if end < 0 {
 		end = len(v) + end
 	}
+	if end >= len(v) {
+		end = len(v) - 1
+	}
 	end++
 
 	if start > end || start >= len(v) || end < 0 {
-- 
2.43.0


From f01f32f9eb0d95bfbc9f1b566cf2d209aa4a33ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:33 +0000
Subject: [PATCH 29/59] fix: MGET reads all keys at once and replies with one
 entry per key

It read one key after the other, so it could show half of an MSET, and left
out expired keys, so the remaining values no longer matched their keys.
---
 memdb/strings.go | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/memdb/strings.go b/memdb/strings.go
index 61999c5..5d1a5ac 100644
--- a/memdb/strings.go
+++ b/memdb/strings.go
@@ -303,24 +303,26 @@ func mGetString(db *MemDb, cmd [][]byte) resp.RedisData {
 		return resp.NewSimpleError("wrong number of arguments for command")
 	}
 
-	res := make([]resp.RedisData, 0)
-
+	keys := make([]string, 0, len(cmd)-1)
 	for _, k := range cmd[1:] {
 		key := string(k)
-		if !db.DeleteExpiredKey(key) {
-			db.locks.RLock(key)
-
-			if val, ok := db.dict.Get(key); ok {
-				if v, ok := val.([]byte); ok {
-					res = append(res, resp.NewBulkString(v))
-				} else {
-					res = append(res, resp.NewBulkString(nil)) // not string
-				}
+		db.DeleteExpiredKey(key)
+		keys = append(keys, key)
+	}
+
+	db.locks.MRLock(keys)
+	defer db.locks.MRUnLock(keys)
+
+	res := make([]resp.RedisData, 0, len(keys))
+	for _, key := range keys {
+		if val, ok := db.dict.Get(key); ok {
+			if v, ok := val.([]byte); ok {
+				res = append(res, resp.NewBulkString(v))
 			} else {
-				res = append(res, resp.NewBulkString(nil))
+				res = append(res, resp.NewBulkString(nil)) // not string
 			}
-
-			db.locks.RUnLock(key)
+		} else {
+			res = append(res, resp.NewBulkString(nil))
 		}
 	}
 
-- 
2.43.0


From b155330e28459863509c45d88893c4be4fdf174c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:34 +0000
Subject: [PATCH 30/59] fix: DEL and EXISTS take effect on all their keys at
 once

---
 memdb/keys.go | 38 ++++++++++++++++++++++++--------------
 1 file changed, 24 insertions(+), 14 deletions(-)

diff --git a/memdb/keys.go b/memdb/keys.go
index abb2212..de801d6 100644
--- a/memdb/keys.go
+++ b/memdb/keys.go
@@ -24,15 +24,20 @@ func delKey(db *MemDb, cmd [][]byte) resp.RedisData {
 		return resp.NewSimpleError("wrong number of arguments for command")
 	}
 
-	deleted := 0
+	keys := make([]string, 0, len(cmd)-1)
 	for _, k := range cmd[1:] {
 		key := string(k)
-		if !db.DeleteExpiredKey(key) {
-			db.locks.Lock(key)
-			deleted += db.dict.Delete(key)
-			db.DeleteExpire(key)
-			db.locks.UnLock(key)
-		}
+		db.DeleteExpiredKey(key)
+		keys = append(keys, key)
+	}
+
+	db.locks.MLock(keys)
+	defer db.locks.MUnLock(keys)
+
+	deleted := 0
+	for _, key := range keys {
+		deleted += db.dict.Delete(key)
+		db.DeleteExpire(key)
 	}
 
 	return resp.NewInteger(int64(deleted))
@@ -43,15 +48,20 @@ func existsKey(db *MemDb, cmd [][]byte) resp.RedisData {
 		return resp.NewSimpleError("wrong number of arguments for command")
 	}
 
-	existed := 0
+	keys := make([]string, 0, len(cmd)-1)
 	for _, k := range cmd[1:] {
 		key := string(k)
-		if !db.DeleteExpiredKey(key) {
-			db.locks.RLock(key)
-			if _, ok := db.dict.Get(key); ok {
-				existed++
-			}
-			db.locks.RUnLock(key)
+		db.DeleteExpiredKey(key)
+		keys = append(keys, key)
+	}
+
+	db.locks.MRLock(keys)
+	defer db.locks.MRUnLock(keys)
+
+	existed := 0
+	for _, key := range keys {
+		if _, ok := db.dict.Get(key); ok {
+			existed++
 		}
 	}
 
-- 
2.43.0


From 1f009ffdaa35b473ca91fb6e5c2ced7b3cc0f49e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:35 +0000
Subject: [PATCH 31/59] fix: PERSIST replies 1 only if it removed an expiry

---
 memdb/keys.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/memdb/keys.go b/memdb/keys.go
index de801d6..79b8207 100644
--- a/memdb/keys.go
+++ b/memdb/keys.go
@@ -165,9 +165,7 @@ func persistKey(db *MemDb, cmd [][]byte) resp.RedisData {
 	db.locks.Lock(key)
 	defer db.locks.UnLock(key)
 
-	db.DeleteExpire(key)
-
-	return resp.NewInteger(int64(1))
+	return resp.NewInteger(int64(db.DeleteExpire(key)))
 }
 
 func ttlKey(db *MemDb, cmd [][]byte) resp.RedisData {
-- 
2.43.0


From ec6865ec4cef580aa15e105b033ee1e0acf7d6f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:36 +0000
Subject: [PATCH 32/59] fix: EXPIRE LT applies to a key without expiry

---
 memdb/keys.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/memdb/keys.go b/memdb/keys.go
index 79b8207..cd5a047 100644
--- a/memdb/keys.go
+++ b/memdb/keys.go
@@ -141,7 +141,8 @@ func expireKey(db *MemDb, cmd [][]byte) resp.RedisData {
 			res = db.SetExpire(key, ttl)
 		}
 	case "lt":
-		if v, ok := db.expires.Get(key); ok && ttl < v.(int64) {
+		// a key without expiry counts as one that never expires
+		if v, ok := db.expires.Get(key); !ok || ttl < v.(int64) {
 			res = db.SetExpire(key, ttl)
 		}
 	default:
-- 
2.43.0


From 65ac1f48072c867d48f761e1d94acc34cccf0677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:38 +0000
Subject: [PATCH 33/59] fix: TTL of a key that expires during the call is -2

A difference of -1 was read as a key without expiry.
---
 memdb/keys.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/memdb/keys.go b/memdb/keys.go
index cd5a047..942b18d 100644
--- a/memdb/keys.go
+++ b/memdb/keys.go
@@ -191,6 +191,11 @@ func ttlKey(db *MemDb, cmd [][]byte) resp.RedisData {
 		return resp.NewInteger(int64(-1))
 	}
 
+	if ttl.(int64) < now {
+		// expired since it was looked at above
+		return resp.NewInteger(int64(-2))
+	}
+
 	return resp.NewInteger(ttl.(int64) - now)
 }
 
-- 
2.43.0


From c983e6481477c2b3729575def55b370dea0cd4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:56 +0000
Subject: [PATCH 34/59] fix: LINSERT inserts at the first pivot only

AFTER with an element equal to the pivot never ended.
---
 memdb/list_struct.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/memdb/list_struct.go b/memdb/list_struct.go
index 287b99a..8f8149a 100644
--- a/memdb/list_struct.go
+++ b/memdb/list_struct.go
@@ -60,31 +60,29 @@ func (l *List) Pos(val []byte) int {
 }
 
 func (l *List) InsertBefore(val []byte, pivot []byte) bool {
-	var ok bool
 	for cur := l.Head.Next; cur != l.Tail; cur = cur.Next {
 		if bytes.Equal(cur.Val, pivot) {
-			ok = true
 			node := &ListNode{Prev: cur.Prev, Next: cur, Val: val}
 			cur.Prev = node
 			node.Prev.Next = node
 			l.Len++
+			return true
 		}
 	}
-	return ok
+	return false
 }
 
 func (l *List) InsertAfter(val []byte, pivot []byte) bool {
-	var ok bool
 	for cur := l.Head.Next; cur != l.Tail; cur = cur.Next {
 		if bytes.Equal(cur.Val, pivot) {
-			ok = true
 			node := &ListNode{Prev: cur, Next: cur.Next, Val: val}
 			cur.Next = node
 			node.Next.Prev = node
 			l.Len++
+			return true
 		}
 	}
-	return ok
+	return false
 }
 
 func (l *List) LPop() *ListNode {
-- 
2.43.0


From 76898e200db54c82629c559800f24994a304d108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:57 +0000
Subject: [PATCH 35/59] fix: LINDEX and LSET with the most negative index do
 not panic the server

---
 memdb/list_struct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/memdb/list_struct.go b/memdb/list_struct.go
index 8f8149a..c2d609b 100644
--- a/memdb/list_struct.go
+++ b/memdb/list_struct.go
@@ -28,7 +28,7 @@ func NewList() *List {
 func (l *List) Index(index int) *ListNode {
 	var cur *ListNode
 	if index < 0 {
-		if -index > l.Len {
+		if index < -l.Len {
 			return nil
 		}
 		cur = l.Tail.Prev
-- 
2.43.0


From d6c825fbb79d16f9531a5029487484950302783f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:58 +0000
Subject: [PATCH 36/59] fix: a failing LMOVE creates no empty destination

Also drop a leftover debug print.
---
 memdb/list.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/memdb/list.go b/memdb/list.go
index 22af999..bbecb06 100644
--- a/memdb/list.go
+++ b/memdb/list.go
@@ -162,7 +162,6 @@ func lMoveList(db *MemDb, cmd [][]byte) resp.RedisData {
 	desVal, ok := db.dict.Get(des)
 	if !ok {
 		desVal = NewList()
-		db.dict.Set(des, desVal)
 	}
 
 	// wrong type
@@ -193,9 +192,10 @@ func lMoveList(db *MemDb, cmd [][]byte) resp.RedisData {
 	if desDrc == "left" {
 		desList.LPush(srcPop.Val)
 	} else {
-		fmt.Println(desList, desList.Head, desList.Tail)
 		desList.RPush(srcPop.Val)
 	}
+	// the destination may be new
+	db.dict.Set(des, desList)
 
 	return resp.NewBulkString(srcPop.Val)
 }
-- 
2.43.0


From c4c38ec5720fe947ba20dca12db12240f1df6d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:00 +0000
Subject: [PATCH 37/59] fix: LTRIM of a missing key replies OK

---
 memdb/list.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/memdb/list.go b/memdb/list.go
index bbecb06..ec6ebb2 100644
--- a/memdb/list.go
+++ b/memdb/list.go
@@ -673,7 +673,7 @@ func lTrimList(db *MemDb, cmd [][]byte) resp.RedisData {
 	// passive delete expired key
 	key := string(cmd[1])
 	if db.DeleteExpiredKey(key) {
-		return resp.NewSimpleError("no such key")
+		return resp.NewSimpleString("OK")
 	}
 
 	start, err := strconv.Atoi(string(cmd[2]))
@@ -692,7 +692,7 @@ func lTrimList(db *MemDb, cmd [][]byte) resp.RedisData {
 	// key not existed
 	v, ok := db.dict.Get(key)
 	if !ok {
-		return resp.NewSimpleError("no such key")
+		return resp.NewSimpleString("OK")
 	}
 
 	// wrong type
-- 
2.43.0


From 2bf0b20711aa5bd9b9e2e7398448fe8d13851a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:01 +0000
Subject: [PATCH 38/59] fix: LPOP and RPOP refuse surplus arguments

They popped one element instead.
---
 memdb/list.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/memdb/list.go b/memdb/list.go
index ec6ebb2..bc08571 100644
--- a/memdb/list.go
+++ b/memdb/list.go
@@ -201,7 +201,7 @@ func lMoveList(db *MemDb, cmd [][]byte) resp.RedisData {
 }
 
 func lPopList(db *MemDb, cmd [][]byte) resp.RedisData {
-	if len(cmd) < 2 {
+	if len(cmd) != 2 && len(cmd) != 3 {
 		return resp.NewSimpleError("wrong number of arguments for command")
 	}
 
@@ -714,7 +714,7 @@ func lTrimList(db *MemDb, cmd [][]byte) resp.RedisData {
 }
 
 func rPopList(db *MemDb, cmd [][]byte) resp.RedisData {
-	if len(cmd) < 2 {
+	if len(cmd) != 2 && len(cmd) != 3 {
 		return resp.NewSimpleError("wrong number of arguments for command")
 	}
 
-- 
2.43.0


From 17339e527986d9ed80b7ade92bc179859edce80e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:45 +0000
Subject: [PATCH 39/59] fix: a bare newline from a client no longer panics the
 server

---
 resp/parser.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resp/parser.go b/resp/parser.go
index 88efef6..1809afa 100644
--- a/resp/parser.go
+++ b/resp/parser.go
@@ -142,7 +142,8 @@ func readline(reader *bufio.Reader, buf *readBuffer) (msg []byte, err error) {
 		if err != nil {
 			return nil, err
 		}
-		if len(msg) == 0 || msg[len(msg)-2] != '\r' {
+		// at least a type and "\r\n"
+		if len(msg) < 3 || msg[len(msg)-2] != '\r' {
 			return nil, errors.New("Protocol error: stream msg invalid")
 		}
 	}
-- 
2.43.0


From e14e6eae9f9fd96f5a65dcc570b360fe68456c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:46 +0000
Subject: [PATCH 40/59] fix: the parser ends after an error

The connection loop leaves at the first error, so the parser blocked for good
on the next thing it had to say, one goroutine and buffer per connection that
ended in anything but a clean end of file.
---
 resp/parser.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/resp/parser.go b/resp/parser.go
index 1809afa..7b54c26 100644
--- a/resp/parser.go
+++ b/resp/parser.go
@@ -42,8 +42,8 @@ func parse(reader io.Reader, ch chan *RedisResp) {
 			}
 			logger.Error("Stream Error: ", err)
 			ch <- &RedisResp{Err: err}
-			buf = &readBuffer{}
-			continue
+			close(ch)
+			return
 		}
 		// make redis data
 		if buf.multiLine {
@@ -59,7 +59,8 @@ func parse(reader io.Reader, ch chan *RedisResp) {
 				if err != nil {
 					logger.Error("Stream Error: ", err)
 					ch <- &RedisResp{Err: err}
-					buf = &readBuffer{}
+					close(ch)
+					return
 				} else {
 					if buf.stringLen == -1 { // null bulk string
 						if buf.inArray { // Null elements in arrays; ["hello",nil,"world"]
@@ -85,7 +86,8 @@ func parse(reader io.Reader, ch chan *RedisResp) {
 				if err != nil {
 					logger.Error("Stream Error: ", err)
 					ch <- &RedisResp{Err: err}
-					buf = &readBuffer{}
+					close(ch)
+					return
 				} else {
 					if buf.arrayLen == -1 { // null bulk string
 						ch <- &RedisResp{Data: NewArray(nil)}
@@ -104,8 +106,8 @@ func parse(reader io.Reader, ch chan *RedisResp) {
 		if err != nil {
 			logger.Error("Stream Error: ", err)
 			ch <- &RedisResp{Err: err}
-			buf = &readBuffer{}
-			continue
+			close(ch)
+			return
 		}
 
 		// send redis data
-- 
2.43.0


From 73d8924f5683d6d128a75311d6035bdbffa20b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:47 +0000
Subject: [PATCH 41/59] fix: a bulk string announced with a huge length cannot
 crash the server

The announced length was allocated before anything was read.
---
 resp/parser.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/resp/parser.go b/resp/parser.go
index 7b54c26..243104b 100644
--- a/resp/parser.go
+++ b/resp/parser.go
@@ -8,6 +8,8 @@ import (
 	"strconv"
 )
 
+const maxBulkLen = 512 * 1024 * 1024
+
 type RedisResp struct {
 	Data RedisData
 	Err  error
@@ -177,7 +179,7 @@ func parseSingleLine(msg []byte) (RedisData, error) {
 func parseBulkStringHeader(msg []byte, buf *readBuffer) error {
 	// read header; discard flag and "\r\n"
 	stringLen, err := strconv.ParseInt(string(msg[1:len(msg)-2]), 10, 64)
-	if stringLen < -1 || err != nil {
+	if stringLen < -1 || stringLen > maxBulkLen || err != nil {
 		return errors.New("Protocol error: " + string(msg))
 	}
 
-- 
2.43.0


From a1477d25601cea3291c89c5253d24925f34eda5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:49 +0000
Subject: [PATCH 42/59] fix: an array element of unknown type no longer panics
 the server

---
 resp/parser.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/resp/parser.go b/resp/parser.go
index 243104b..ca9504e 100644
--- a/resp/parser.go
+++ b/resp/parser.go
@@ -114,6 +114,13 @@ func parse(reader io.Reader, ch chan *RedisResp) {
 
 		// send redis data
 		if buf.inArray { // send array data
+			if data == nil {
+				err = errors.New("Protocol error: unknown type in array")
+				logger.Error("Stream Error: ", err)
+				ch <- &RedisResp{Err: err}
+				close(ch)
+				return
+			}
 			buf.arrayData.data = append(buf.arrayData.data, data)
 			if len(buf.arrayData.data) == buf.arrayLen {
 				ch <- &RedisResp{Data: buf.arrayData}
-- 
2.43.0


From e54367af65a0ed5071f360b48ae187e487aa1727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:50 +0000
Subject: [PATCH 43/59] fix: a protocol error is logged on one line

The offending line was logged with its line break, after which a client could
add log lines of its own making.
---
 resp/parser.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/resp/parser.go b/resp/parser.go
index ca9504e..24dd14f 100644
--- a/resp/parser.go
+++ b/resp/parser.go
@@ -3,6 +3,7 @@ package resp
 import (
 	"bufio"
 	"errors"
+	"fmt"
 	"gRedis/logger"
 	"io"
 	"strconv"
@@ -187,7 +188,7 @@ func parseBulkStringHeader(msg []byte, buf *readBuffer) error {
 	// read header; discard flag and "\r\n"
 	stringLen, err := strconv.ParseInt(string(msg[1:len(msg)-2]), 10, 64)
 	if stringLen < -1 || stringLen > maxBulkLen || err != nil {
-		return errors.New("Protocol error: " + string(msg))
+		return fmt.Errorf("Protocol error: %q", msg)
 	}
 
 	// len == -1 or len == 0 or len > 0
@@ -212,7 +213,7 @@ func parseArrayHeader(msg []byte, buf *readBuffer) error {
 	// read header; discard flag and "\r\n"
 	arrayLen, err := strconv.ParseInt(string(msg[1:len(msg)-2]), 10, 64)
 	if arrayLen < -1 || err != nil {
-		return errors.New("Protocol error: " + string(msg))
+		return fmt.Errorf("Protocol error: %q", msg)
 	}
 
 	// len == -1 or len == 0 or len > 0
-- 
2.43.0


From 8035fc5d37d9b2291741f99c7d20052839775b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:51 +0000
Subject: [PATCH 44/59] fix: an error reply stays one line when it quotes the
 request

The name of an unknown command or option can contain line breaks, which
turned one reply into several.
---
 resp/data.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/resp/data.go b/resp/data.go
index 65b99da..1028450 100644
--- a/resp/data.go
+++ b/resp/data.go
@@ -83,7 +83,9 @@ func (e *SimpleError) GetBytesData() []byte {
 }
 
 func (e *SimpleError) ToRedisFormat() []byte {
-	return []byte(fmt.Sprintf("-%s%s", e.data, CRLF)) // -Error message\r\n
+	// a line break would end the message early
+	data := strings.NewReplacer("\r", " ", "\n", " ").Replace(e.data)
+	return []byte(fmt.Sprintf("-%s%s", data, CRLF)) // -Error message\r\n
 }
 
 func (e *SimpleError) String() string {
-- 
2.43.0


From 124476f989b77881d4c5ef304f2478e73af5f03e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:52 +0000
Subject: [PATCH 45/59] fix: the log file is appended to

A restarted server wrote over the beginning of the old log.
---
 logger/logger.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/logger/logger.go b/logger/logger.go
index 4951003..5eb801d 100644
--- a/logger/logger.go
+++ b/logger/logger.go
@@ -62,7 +62,7 @@ func Init(config *config.Config) error {
 
 	// check file
 	fileName := path.Join(logConf.Path, logConf.Name)
-	logFile, err = os.OpenFile(fileName, os.O_RDWR|os.O_CREATE, 0755)
+	logFile, err = os.OpenFile(fileName, os.O_RDWR|os.O_CREATE|os.O_APPEND, 0755)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 1a709a2062301769c789a2cd4b63eb534be31a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:53 +0000
Subject: [PATCH 46/59] fix: an error reading the configuration file is
 reported

The wrong variable was returned, so the server started with half of the file.
---
 config/config.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/config/config.go b/config/config.go
index 00d7d7a..b46320a 100644
--- a/config/config.go
+++ b/config/config.go
@@ -93,7 +93,7 @@ func (conf *Config) ParseConfFile() error {
 	for {
 		line, ioErr := fileReader.ReadString('\n')
 		if ioErr != nil && ioErr != io.EOF {
-			return err
+			return ioErr
 		}
 
 		argvs := strings.Fields(line)
-- 
2.43.0


From bb773eb43083858ca5ed4b412c3aab73734d3673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:54 +0000
Subject: [PATCH 47/59] fix: a configuration file ending in a newline does not
 hang the start

The empty rest after the last newline was read again and again.
---
 config/config.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/config/config.go b/config/config.go
index b46320a..db77c2a 100644
--- a/config/config.go
+++ b/config/config.go
@@ -99,6 +99,9 @@ func (conf *Config) ParseConfFile() error {
 		argvs := strings.Fields(line)
 
 		if len(argvs) == 0 {
+			if ioErr == io.EOF {
+				break
+			}
 			continue
 		}
 
-- 
2.43.0


From f1ac9614f1a66751245b5034d3496d6039203393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:55 +0000
Subject: [PATCH 48/59] fix: a setting without a value is reported, not an
 index panic

---
 config/config.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/config/config.go b/config/config.go
index db77c2a..f5490d2 100644
--- a/config/config.go
+++ b/config/config.go
@@ -105,7 +105,15 @@ func (conf *Config) ParseConfFile() error {
 			continue
 		}
 
-		switch strings.ToLower(argvs[0]) {
+		name := strings.ToLower(argvs[0])
+		switch name {
+		case "host", "port", "logdir", "loglevel", "segnum", "dbnum":
+			if len(argvs) < 2 {
+				return fmt.Errorf("%s needs a value", name)
+			}
+		}
+
+		switch name {
 		case "host":
 			if ip := net.ParseIP(argvs[1]); ip == nil {
 				return errors.New("given host invaild")
-- 
2.43.0


From 0b27b04ac2b328025727e5f480fce271cd4c82dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:57 +0000
Subject: [PATCH 49/59] fix: segnum and dbnum must be positive

dbnum 0 or less panicked, segnum 0 or less allocated four billion segments.
---
 config/config.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/config/config.go b/config/config.go
index f5490d2..0f670f5 100644
--- a/config/config.go
+++ b/config/config.go
@@ -76,6 +76,10 @@ func Init() (*Config, error) {
 		}
 	}
 
+	if _conf.SegNum <= 0 || _conf.DbNum <= 0 {
+		return nil, &CfgError{message: "segnum and dbnum must be positive"}
+	}
+
 	Conf = _conf
 	return Conf, nil
 }
-- 
2.43.0


From f9cac249ba4dfe1deb0114b98ff2da46928a84b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:03:23 +0000
Subject: [PATCH 50/59] fix: SET with a time in the past leaves no key behind

---
 memdb/strings.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/memdb/strings.go b/memdb/strings.go
index 5d1a5ac..df4253a 100644
--- a/memdb/strings.go
+++ b/memdb/strings.go
@@ -153,6 +153,11 @@ func setString(db *MemDb, cmd [][]byte) resp.RedisData {
 	if pxat {
 		db.SetExpire(key, pxatval/1000)
 	}
+	if db.CheckExpire(key) {
+		// already expired: a command waiting for the lock must not see it
+		db.dict.Delete(key)
+		db.DeleteExpire(key)
+	}
 
 	return res
 }
-- 
2.43.0


From 60b3413d8bcdf85c95dc7691a1d2a8f051d43dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:03:23 +0000
Subject: [PATCH 51/59] fix: RENAME of a key to itself does not remove it for a
 moment

---
 memdb/keys.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/memdb/keys.go b/memdb/keys.go
index 942b18d..588483b 100644
--- a/memdb/keys.go
+++ b/memdb/keys.go
@@ -219,6 +219,10 @@ func renameKey(db *MemDb, cmd [][]byte) resp.RedisData {
 		return resp.NewSimpleError("no such key")
 	}
 
+	if oldKey == newKey {
+		return resp.NewSimpleString("OK")
+	}
+
 	oldTTL, ok := db.expires.Get(oldKey)
 
 	db.dict.Delete(oldKey)
-- 
2.43.0


From e5c996c7ebfab576481662006b2cb3a8ed0f51f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:05:05 +0000
Subject: [PATCH 52/59] fix: EXPIRE with a negative time removes the key at
 once

---
 memdb/keys.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/memdb/keys.go b/memdb/keys.go
index 588483b..b122679 100644
--- a/memdb/keys.go
+++ b/memdb/keys.go
@@ -151,6 +151,11 @@ func expireKey(db *MemDb, cmd [][]byte) resp.RedisData {
 		}
 		res = db.SetExpire(key, ttl)
 	}
+	if res == 1 && db.CheckExpire(key) {
+		// already expired: a command waiting for the lock must not see it
+		db.dict.Delete(key)
+		db.DeleteExpire(key)
+	}
 	return resp.NewInteger(int64(res))
 }
 
-- 
2.43.0


From 6b7a6e8ced36dd00eaafd35aad76a6d316e58630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:05:05 +0000
Subject: [PATCH 53/59] fix: RENAME onto an existing key does not hide it from
 KEYS

---
 memdb/keys.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/memdb/keys.go b/memdb/keys.go
index b122679..796b89e 100644
--- a/memdb/keys.go
+++ b/memdb/keys.go
@@ -230,12 +230,11 @@ func renameKey(db *MemDb, cmd [][]byte) resp.RedisData {
 
 	oldTTL, ok := db.expires.Get(oldKey)
 
-	db.dict.Delete(oldKey)
-	db.DeleteExpire(oldKey)
 	// If newkey already exists it is overwritten
-	db.dict.Delete(newKey)
 	db.DeleteExpire(newKey)
 	db.dict.Set(newKey, oldValue)
+	db.dict.Delete(oldKey)
+	db.DeleteExpire(oldKey)
 
 	// If a key is renamed with RENAME, the associated time to live is transferred to the new key name.
 	if ok {
-- 
2.43.0


From bd51015042dd63ef41b7eaea758d74dbfbfba589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:36 +0000
Subject: [PATCH 54/59] fix: RENAME does not move a key that expired while it
 waited

---
 memdb/keys.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/memdb/keys.go b/memdb/keys.go
index 796b89e..4625fa5 100644
--- a/memdb/keys.go
+++ b/memdb/keys.go
@@ -223,6 +223,12 @@ func renameKey(db *MemDb, cmd [][]byte) resp.RedisData {
 	if !ok {
 		return resp.NewSimpleError("no such key")
 	}
+	if db.CheckExpire(oldKey) {
+		// expired while waiting for the lock
+		db.dict.Delete(oldKey)
+		db.DeleteExpire(oldKey)
+		return resp.NewSimpleError("no such key")
+	}
 
 	if oldKey == newKey {
 		return resp.NewSimpleString("OK")
-- 
2.43.0


From f2411aeef64f983ce815c59aa0805440ce423697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:36 +0000
Subject: [PATCH 55/59] fix: TTL does not call a key gone that it leaves in
 place

---
 memdb/keys.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/memdb/keys.go b/memdb/keys.go
index 4625fa5..f92026b 100644
--- a/memdb/keys.go
+++ b/memdb/keys.go
@@ -197,8 +197,8 @@ func ttlKey(db *MemDb, cmd [][]byte) resp.RedisData {
 	}
 
 	if ttl.(int64) < now {
-		// expired since it was looked at above
-		return resp.NewInteger(int64(-2))
+		// expires during this call, a waiting command may still extend it
+		return resp.NewInteger(int64(0))
 	}
 
 	return resp.NewInteger(ttl.(int64) - now)
-- 
2.43.0


From 5bb353bd117b9172182f92011cc62badfc3e21cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:00 +0000
Subject: [PATCH 56/59] fix: SETEX with a negative time leaves no key behind

---
 memdb/strings.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/memdb/strings.go b/memdb/strings.go
index df4253a..bdc8ab0 100644
--- a/memdb/strings.go
+++ b/memdb/strings.go
@@ -383,6 +383,11 @@ func setExString(db *MemDb, cmd [][]byte) resp.RedisData {
 
 	db.dict.Set(key, val)
 	db.SetExpire(key, time.Now().Unix()+sec)
+	if db.CheckExpire(key) {
+		// already expired: a command waiting for the lock must not see it
+		db.dict.Delete(key)
+		db.DeleteExpire(key)
+	}
 
 	return resp.NewSimpleString("OK")
 }
-- 
2.43.0


From 64ac6469492020c99b01c83609de522a9b64afb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:28:43 +0000
Subject: [PATCH 57/59] fix: RENAME leaves no key behind that expired meanwhile

---
 memdb/keys.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/memdb/keys.go b/memdb/keys.go
index f92026b..3f3210a 100644
--- a/memdb/keys.go
+++ b/memdb/keys.go
@@ -245,6 +245,11 @@ func renameKey(db *MemDb, cmd [][]byte) resp.RedisData {
 	// If a key is renamed with RENAME, the associated time to live is transferred to the new key name.
 	if ok {
 		db.SetExpire(newKey, oldTTL.(int64))
+		if db.CheckExpire(newKey) {
+			// expired by now: a command waiting for the lock must not see it
+			db.dict.Delete(newKey)
+			db.DeleteExpire(newKey)
+		}
 	}
 
 	return resp.NewSimpleString("OK")
-- 
2.43.0


From b49ebccb0f3c10ffce940bb11824a3f73d2357a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:09:49 +0000
Subject: [PATCH 58/59] fix: EXPIRE refuses an empty option like any other
 unknown one

---
 memdb/keys.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/memdb/keys.go b/memdb/keys.go
index 3f3210a..cb0a23a 100644
--- a/memdb/keys.go
+++ b/memdb/keys.go
@@ -146,7 +146,7 @@ func expireKey(db *MemDb, cmd [][]byte) resp.RedisData {
 			res = db.SetExpire(key, ttl)
 		}
 	default:
-		if option != "" {
+		if len(cmd) == 4 {
 			return resp.NewSimpleError(fmt.Sprintf("Unsupported option %s", string(cmd[3])))
 		}
 		res = db.SetExpire(key, ttl)
-- 
2.43.0


From 8e90836a039902b3eee1e78104bd3dae57869610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:28:03 +0000
Subject: [PATCH 59/59] fix: a signal that comes as soon as the port is open
 ends the server cleanly

---
 server/server.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/server/server.go b/server/server.go
index 21518f3..26b994d 100644
--- a/server/server.go
+++ b/server/server.go
@@ -14,6 +14,10 @@ import (
 
 // start a redis server
 func Start(config *config.Config) error {
+	// handle signal termination, also of a signal that comes as soon as the port is open
+	osSignals := make(chan os.Signal, 1)
+	signal.Notify(osSignals, os.Interrupt, syscall.SIGTERM, syscall.SIGINT)
+
 	listener, err := net.Listen("tcp", config.Host+":"+strconv.Itoa(config.Port))
 	if err != nil {
 		logger.Panic(err)
@@ -35,10 +39,6 @@ func Start(config *config.Config) error {
 
 	logger.Info("Server Listen at ", config.Host, ":", config.Port)
 
-	// handle signal termination
-	osSignals := make(chan os.Signal, 1)
-	signal.Notify(osSignals, os.Interrupt, syscall.SIGTERM, syscall.SIGINT)
-
 	// client chan
 	clients := make(chan net.Conn)
 
-- 
2.43.0

