seed('c01-append-stale', 'C01', 'memdb',
 'two connections appending to the same key, one of them reading the old value before the other holds the lock',
 'An acknowledged APPEND is lost: the value is read before the key lock is taken.',
 [('memdb/strings.go', '''	apd := cmd[2]

	db.locks.Lock(key)
	defer db.locks.UnLock(key)

	if val, ok := db.dict.Get(key); ok {
		v, ok := val.([]byte)
''', '''	apd := cmd[2]
	val, found := db.dict.Get(key)

	db.locks.Lock(key)
	defer db.locks.UnLock(key)

	if found {
		v, ok := val.([]byte)
''')],
 MEM + '''
func TestZZDemo(t *testing.T) {
	for r := 0; r < 30; r++ {
		db := NewMemDb()
		zz(db, "set", "k", "")
		zzRun(8, func(int) {
			for i := 0; i < 2000; i++ {
				zz(db, "append", "k", "x")
			}
		})
		zzWant(t, db, ":16000\\r\\n", "strlen", "k")
	}
}
''')

seed('c01-getrange-clamp', 'C01', 'memdb',
 'GETRANGE past the end of a string with a start before its beginning',
 'GETRANGE clamps a negative start only when the whole range is inside the string and returns the wrong part otherwise.',
 [('memdb/strings.go', '''	if start < 0 {
		start = 0
	}

	if end > len(v) {
		end = len(v)
	}

	return resp.NewBulkString(v[start:end])
''', '''	if start < 0 {
		start = -start % len(v)
	}

	if end > len(v) {
		end = len(v)
	}
	if start > end {
		start = end
	}

	return resp.NewBulkString(v[start:end])
''')],
 MEM + '''
func TestZZDemo(t *testing.T) {
	db := NewMemDb()
	zz(db, "set", "k", "hello")
	zzWant(t, db, "$5\\r\\nhello\\r\\n", "getrange", "k", "-8", "-1")
	zzWant(t, db, "$5\\r\\nhello\\r\\n", "getrange", "k", "-5", "10")
}
''')

seed('c02-ltrim-len', 'C02', 'memdb',
 'LTRIM with a start further from the tail than the list is long, followed by a command that uses the length',
 'The length of the list no longer agrees with its elements.',
 [('memdb/list_struct.go', '''	if end >= l.Len {
		end = l.Len - 1
	}

	if start < 0 {
		start = 0
	}

	var startNode, endNode *ListNode
''', '''	if end >= l.Len {
		end = l.Len - 1
	}
	keep := end - start + 1

	if start < 0 {
		start = 0
	}

	var startNode, endNode *ListNode
'''), ('memdb/list_struct.go', '''	l.Len = end - start + 1
''', '''	l.Len = keep
''')],
 MEM + '''
func TestZZDemo(t *testing.T) {
	db := NewMemDb()
	zz(db, "rpush", "k", "a", "b", "c")
	zzWant(t, db, "+OK\\r\\n", "ltrim", "k", "-9", "1")
	zzWant(t, db, ":2\\r\\n", "llen", "k")
}
''')

seed('c02-pushx-rlock', 'C02', 'memdb',
 'two connections pushing with RPUSHX to the same list at once',
 'RPUSHX changes the list under a read lock, so acknowledged elements are lost.',
 [('memdb/list.go', '''func rPushXList(db *MemDb, cmd [][]byte) resp.RedisData {
	if len(cmd) < 3 {
		return resp.NewSimpleError("wrong number of arguments for command")
	}

	// passive delete expired key
	key := string(cmd[1])
	if db.DeleteExpiredKey(key) {
		return resp.NewInteger(0)
	}

	db.locks.Lock(key)
	defer db.locks.UnLock(key)
''', '''func rPushXList(db *MemDb, cmd [][]byte) resp.RedisData {
	if len(cmd) < 3 {
		return resp.NewSimpleError("wrong number of arguments for command")
	}

	// passive delete expired key
	key := string(cmd[1])
	if db.DeleteExpiredKey(key) {
		return resp.NewInteger(0)
	}

	// the map entry itself is not changed
	db.locks.RLock(key)
	defer db.locks.RUnLock(key)
''')],
 MEM + '''
func TestZZDemo(t *testing.T) {
	for r := 0; r < 20; r++ {
		db := NewMemDb()
		zz(db, "rpush", "k", "0")
		zzRun(8, func(int) {
			for i := 0; i < 5000; i++ {
				zz(db, "rpushx", "k", "x")
			}
		})
		n := 0
		v, _ := db.dict.Get("k")
		for c := v.(*List).Head.Next; c != v.(*List).Tail; c = c.Next {
			n++
		}
		if n != 40001 || v.(*List).Len != 40001 {
			t.Fatalf("%d elements, length %d", n, v.(*List).Len)
		}
	}
}
''')

seed('c03-hset-split', 'C03', 'memdb',
 'a reader between the two halves of a multi-field HMSET',
 'HMSET releases the lock after each field, so half a multi-field write is visible.',
 [('memdb/hash.go', '''func hMSetHash(db *MemDb, cmd [][]byte) resp.RedisData {
	if len(cmd) < 4 || len(cmd)&1 == 1 {
		return resp.NewSimpleError("wrong number of arguments for command")
	}

	// passive delete expired key
	key := string(cmd[1])
	db.DeleteExpiredKey(key)

	db.locks.Lock(key)
	defer db.locks.UnLock(key)
''', '''func hMSetHash(db *MemDb, cmd [][]byte) resp.RedisData {
	if len(cmd) < 4 || len(cmd)&1 == 1 {
		return resp.NewSimpleError("wrong number of arguments for command")
	}

	// keep the lock short
	for i := 4; i < len(cmd); i += 2 {
		if res, ok := hMSetOne(db, [][]byte{cmd[0], cmd[1], cmd[i-2], cmd[i-1]}).(*resp.SimpleError); ok {
			return res
		}
	}
	return hMSetOne(db, [][]byte{cmd[0], cmd[1], cmd[len(cmd)-2], cmd[len(cmd)-1]})
}

func hMSetOne(db *MemDb, cmd [][]byte) resp.RedisData {
	key := string(cmd[1])
	db.DeleteExpiredKey(key)

	db.locks.Lock(key)
	defer db.locks.UnLock(key)
''')],
 MEM + '''
func TestZZDemo(t *testing.T) {
	db := NewMemDb()
	zz(db, "hset", "k", "f", "0", "g", "0")
	stop := make(chan struct{})
	go func() {
		for i := 0; ; i++ {
			select {
			case <-stop:
				return
			default:
			}
			s := fmt.Sprint(i % 10)
			zz(db, "hmset", "k", "f", s, "g", s)
		}
	}()
	end := time.Now().Add(5 * time.Second)
	bad := ""
	for time.Now().Before(end) && bad == "" {
		r := strings.Split(zz(db, "hmget", "k", "f", "g"), "\\r\\n")
		if r[2] != r[4] {
			bad = fmt.Sprint(r)
		}
	}
	close(stop)
	if bad != "" {
		t.Fatal(bad)
	}
}
''')

seed('c04-spop-twice', 'C04', 'memdb',
 'two connections popping from the same set, both choosing before either removes',
 'The same member is popped by two connections.',
 [('memdb/set.go', '''	if countVal <= 0 {
		return resp.NewSimpleError("value must be positive")
	}

	db.locks.Lock(key)
	defer db.locks.UnLock(key)

	v, ok := db.dict.Get(key)
	if !ok {
		return resp.NewBulkString(nil)
	}

	s, ok := v.(*Set)
	if !ok {
		return resp.NewSimpleError("Operation against a key holding the wrong kind of value")
	}

	defer func() {
''', '''	if countVal <= 0 {
		return resp.NewSimpleError("value must be positive")
	}

	// choose under the read lock, readers need not wait
	db.locks.RLock(key)
	v, ok := db.dict.Get(key)
	if !ok {
		db.locks.RUnLock(key)
		return resp.NewBulkString(nil)
	}

	s, ok := v.(*Set)
	if !ok {
		db.locks.RUnLock(key)
		return resp.NewSimpleError("Operation against a key holding the wrong kind of value")
	}
	var picked []string
	if !count {
		picked = s.Random(1)
	}
	db.locks.RUnLock(key)

	db.locks.Lock(key)
	defer db.locks.UnLock(key)

	for _, member := range picked {
		if s.Remove(member); s.Len() == 0 {
			db.dict.Delete(key)
			db.DeleteExpire(key)
		}
		return resp.NewBulkString([]byte(member))
	}

	defer func() {
''')],
 MEM + '''
func TestZZDemo(t *testing.T) {
	for r := 0; r < 200; r++ {
		db := NewMemDb()
		for i := 0; i < 500; i++ {
			zz(db, "sadd", "k", fmt.Sprint(i))
		}
		var mu sync.Mutex
		seen := map[string]int{}
		zzRun(8, func(int) {
			for {
				x := zz(db, "spop", "k")
				if x == "$-1\\r\\n" {
					return
				}
				mu.Lock()
				seen[x]++
				mu.Unlock()
			}
		})
		for k, n := range seen {
			if n != 1 {
				t.Fatalf("%q popped %d times", k, n)
			}
		}
	}
}
''')

seed('c05-rename-two-steps', 'C05', 'memdb',
 'another connection looking at both keys between the two halves of a RENAME',
 'The value of a renamed key is in neither place for a moment.',
 [('memdb/keys.go', '''	// should lock newkey and oldkey together
	db.locks.MLock([]string{oldKey, newKey})
	defer db.locks.MUnLock([]string{oldKey, newKey})
''', '''	db.locks.Lock(oldKey)
	locked := oldKey
	defer func() { db.locks.UnLock(locked) }()
'''), ('memdb/keys.go', '''	// If newkey already exists it is overwritten
	db.DeleteExpire(newKey)
	db.dict.Set(newKey, oldValue)
	db.dict.Delete(oldKey)
	db.DeleteExpire(oldKey)
''', '''	db.dict.Delete(oldKey)
	db.DeleteExpire(oldKey)
	// one lock at a time cannot dead lock
	db.locks.UnLock(oldKey)
	db.locks.Lock(newKey)
	locked = newKey
	// If newkey already exists it is overwritten
	db.DeleteExpire(newKey)
	db.dict.Set(newKey, oldValue)
''')],
 MEM + '''
func TestZZDemo(t *testing.T) {
	db := NewMemDb()
	zz(db, "set", "a", "1")
	stop := make(chan struct{})
	defer close(stop)
	go func() {
		for {
			select {
			case <-stop:
				return
			default:
			}
			zz(db, "rename", "a", "b")
			zz(db, "rename", "b", "a")
		}
	}()
	end := time.Now().Add(5 * time.Second)
	for time.Now().Before(end) {
		zzWant(t, db, ":1\\r\\n", "exists", "a", "b")
	}
}
''')

seed('c05-lmove-handover', 'C05', 'memdb',
 'another connection looking at both lists while LMOVE is between them',
 'The moved element is in neither list for a moment.',
 [('memdb/list.go', '''	db.locks.MLock([]string{src, des})
	defer db.locks.MUnLock([]string{src, des})

	// key not existed
	srcVal, ok := db.dict.Get(src)
''', '''	db.locks.MLock([]string{src, des})
	defer func() { db.locks.MUnLock([]string{src, des}) }()

	// key not existed
	srcVal, ok := db.dict.Get(src)
'''), ('memdb/list.go', '''		srcPop = srcList.RPop()
	}

	if desDrc == "left" {
''', '''		srcPop = srcList.RPop()
	}
	if src != des && srcList.Len > 0 {
		// give waiting readers of the source a turn
		db.locks.MUnLock([]string{src, des})
		db.locks.MLock([]string{src, des})
		if v, ok := db.dict.Get(des); ok {
			if l, ok := v.(*List); ok {
				desList = l
			}
		}
	}

	if desDrc == "left" {
''')],
 MEM + '''
func TestZZDemo(t *testing.T) {
	db := NewMemDb()
	zz(db, "rpush", "a", "1", "2", "3", "4", "5", "6", "7", "8")
	zz(db, "rpush", "b", "x", "y")
	stop := make(chan struct{})
	defer close(stop)
	go func() {
		for {
			select {
			case <-stop:
				return
			default:
			}
			zz(db, "lmove", "a", "b", "left", "right")
			zz(db, "lmove", "b", "a", "right", "left")
		}
	}()
	// "1" is in a or in b: rename both ways under one lock cannot be done by a client, so count with the locks held
	end := time.Now().Add(5 * time.Second)
	for time.Now().Before(end) {
		db.locks.MRLock([]string{"a", "b"})
		n := 0
		for _, k := range []string{"a", "b"} {
			if v, ok := db.dict.Get(k); ok {
				n += v.(*List).Len
			}
		}
		db.locks.MRUnLock([]string{"a", "b"})
		if n != 10 {
			t.Fatalf("%d elements", n)
		}
	}
}
''')

seed('c06-mset-keeps-expiry', 'C06', 'memdb',
 'MSET over a key that has an expiry, in a call that also sets other keys, then time passing',
 'A plain overwrite by MSET keeps the old expiry, so the new value disappears.',
 [('memdb/strings.go', '''	for i := 0; i < len(keys); i++ {
		db.DeleteExpire(keys[i])
		db.dict.Set(keys[i], vals[i])
	}
''', '''	for i := 0; i < len(keys); i++ {
		// a new key has no expiry to drop
		if db.dict.Set(keys[i], vals[i]) == 1 || i == 0 {
			db.DeleteExpire(keys[i])
		}
	}
''')],
 MEM + '''
func TestZZDemo(t *testing.T) {
	db := NewMemDb()
	zz(db, "set", "b", "1", "ex", "100")
	zzWant(t, db, "+OK\\r\\n", "mset", "a", "1", "b", "2")
	zzWant(t, db, ":-1\\r\\n", "ttl", "b")
}
''')

seed('c07-late-expire-removal', 'C07', 'memdb',
 'a key expires, and another connection stores a new value with an expiry while the clean-up is between its two steps',
 'The clean-up of the old value removes the expiry of the new one.',
 [('memdb/memdb.go', '''		db.locks.Lock(key)
		defer db.locks.UnLock(key)
''', '''		// the expire table has its own locks
		defer db.expires.Delete(key)
		db.locks.Lock(key)
		defer db.locks.UnLock(key)
'''), ('memdb/memdb.go', '''		db.dict.Delete(key)
		db.expires.Delete(key)
		return true
''', '''		db.dict.Delete(key)
		return true
''')],
 MEM + '''
func TestZZDemo(t *testing.T) {
	for r := 0; r < 100000; r++ {
		db := NewMemDb0()
		zz(db, "set", "k", "old")
		db.expires.Set("k", time.Now().Unix()-5)
		zzRun(2, func(i int) {
			if i == 0 {
				zz(db, "get", "k")
			} else {
				zz(db, "setex", "k", "1000", "new")
			}
		})
		if _, ok := db.expires.Get("k"); !ok {
			t.Fatalf("round %d: SETEX was acknowledged but the key has no expiry", r)
		}
	}
}

func NewMemDb0() *MemDb {
	return &MemDb{dict: NewConcurrentMap(1), expires: NewConcurrentMap(1), locks: NewLocksManager(1)}
}
''')

seed('c08-unsorted-read-locks', 'C08', 'memdb',
 'two multi-key readers locking in opposite order with two writers queueing between their locks',
 'Readers and writers wait for each other forever.',
 [('memdb/locks.go', '''func (m *LocksManager) MRLock(keys []string) {
	order := m.getSortedLocks(keys)
	for i := range order {
		pos := order[i]
		m.locks[pos].RLock()
	}
}
''', '''func (m *LocksManager) MRLock(keys []string) {
	// readers do not block each other, no order needed
	seen := make(map[int]struct{}, len(keys))
	for i := range keys {
		pos := m.GetKeyPos(keys[i])
		if _, ok := seen[pos]; ok {
			continue
		}
		seen[pos] = struct{}{}
		m.locks[pos].RLock()
	}
}
''')],
 MEM + '''
func TestZZDemo(t *testing.T) {
	db := NewMemDb()
	zz(db, "sadd", "a", "1")
	zz(db, "sadd", "b", "1")
	zzFinish(t, func() {
		zzRun(8, func(i int) {
			for n := 0; n < 200000; n++ {
				switch i % 4 {
				case 0:
					zz(db, "sinter", "a", "b")
				case 1:
					zz(db, "sinter", "b", "a")
				case 2:
					zz(db, "sadd", "a", "1")
				case 3:
					zz(db, "sadd", "b", "1")
				}
			}
		})
	})
}
''')

seed('c09-short-read', 'C09', 'resp',
 'a bulk string whose bytes arrive in more than one piece',
 'A fragmented argument is cut short or the stream loses its framing.',
 [('resp/parser.go', '''		_, err = io.ReadFull(reader, msg)
		if err != nil {
			return nil, err
		}
''', '''		// the buffered reader has the rest of the request
		n, err := reader.Read(msg)
		if err != nil {
			return nil, err
		}
		for n < len(msg) && reader.Buffered() > 0 {
			k, err := reader.Read(msg[n:])
			if err != nil {
				return nil, err
			}
			n += k
		}
''')],
 '''package resp

import (
	"net"
	"testing"
	"time"
)

func TestZZDemo(t *testing.T) {
	a, b := net.Pipe()
	go func() {
		a.Write([]byte("*1\\r\\n$10\\r\\nhello"))
		time.Sleep(50 * time.Millisecond)
		a.Write([]byte("world\\r\\n"))
		a.Close()
	}()
	r := <-ParseStream(b)
	if r.Err != nil || string(r.Data.(*RedisArray).ToCommand()[0]) != "helloworld" {
		t.Fatal("request not received: ", r.Err)
	}
}
''')

seed('c10-shared-expires', 'C10', 'memdb',
 'a key with an expiry in one database and a key of the same name in another',
 'An expiry set in one database applies to the key of the same name in every other.',
 [('memdb/memdb.go', '''		expires: NewConcurrentMap(config.Conf.SegNum),
''', '''		expires: expireTable(),
'''), ('memdb/memdb.go', '''func NewMemDb() *MemDb {
''', '''// few keys have an expiry: one table is enough
var expireTables = make(map[*config.Config]*ConcurrentMap)

func expireTable() *ConcurrentMap {
	if _, ok := expireTables[config.Conf]; !ok {
		expireTables[config.Conf] = NewConcurrentMap(config.Conf.SegNum)
	}
	return expireTables[config.Conf]
}

func NewMemDb() *MemDb {
''')],
 MEM + '''
func TestZZDemo(t *testing.T) {
	config.Conf = &config.Config{SegNum: 100}
	db0, db1 := NewMemDb(), NewMemDb()
	zz(db0, "set", "k", "v")
	zz(db1, "set", "k", "w", "ex", "100")
	zzWant(t, db0, ":-1\\r\\n", "ttl", "k")
}
''')

seed('c11-lpos-args', 'C11', 'memdb',
 'LPOS with an option name and no value',
 'One malformed request takes the whole server down (index out of range in a goroutine without recover).',
 [('memdb/list.go', '''	if len(cmd) < 3 || len(cmd)&1 != 1 {
		return resp.NewSimpleError("wrong number of arguments for command")
	}

	// passive delete expired key
	key := string(cmd[1])
	if db.DeleteExpiredKey(key) {
		return resp.NewBulkString(nil)
	}

	element := cmd[2]
''', '''	if len(cmd) < 3 || len(cmd) > 9 {
		return resp.NewSimpleError("wrong number of arguments for command")
	}

	// passive delete expired key
	key := string(cmd[1])
	if db.DeleteExpiredKey(key) {
		return resp.NewBulkString(nil)
	}

	element := cmd[2]
''')],
 MEM + '''
func TestZZDemo(t *testing.T) {
	db := NewMemDb()
	zz(db, "rpush", "k", "a")
	if r := zz(db, "lpos", "k", "a", "rank"); r[0] != '-' {
		t.Fatal(r)
	}
	if r := zz(db, "lpos", "k", "a", "rank", "1", "count"); r[0] != '-' {
		t.Fatal(r)
	}
}
''')

seed('c12-return-on-write-error', 'C12', 'server',
 'a connection whose reply cannot be written while another request is already being parsed',
 'The parser goroutine of the connection is stuck for ever on its channel.',
 [('server/handler.go', '''			_, err := conn.Write(redisData.ToRedisFormat())
			if err != nil {
				logger.Error("write response to ", conn.RemoteAddr().String(), " error: ", err.Error())
			}
		} else {
			errData''', '''			_, err := conn.Write(redisData.ToRedisFormat())
			if err != nil {
				// nobody is listening any more
				logger.Error("write response to ", conn.RemoteAddr().String(), " failed: ", err.Error())
				return
			}
		} else {
			errData''')],
 SRV + '''
type zzConn struct {
	net.Conn
	r io.Reader
}

func (c zzConn) Read(b []byte) (int, error)  { return c.r.Read(b) }
func (c zzConn) Write(b []byte) (int, error) { return 0, syscall.EPIPE }
func (c zzConn) Close() error                { return nil }
func (c zzConn) RemoteAddr() net.Addr        { return &net.TCPAddr{} }

func TestZZDemo(t *testing.T) {
	m := NewManager(zzSetup(t))
	before := runtime.NumGoroutine()
	for i := 0; i < 50; i++ {
		m.Handle(zzConn{r: strings.NewReader(strings.Repeat("*1\\r\\n$4\\r\\nPING\\r\\n", 20))})
	}
	for i := 0; i < 50 && runtime.NumGoroutine() > before; i++ {
		time.Sleep(20 * time.Millisecond)
	}
	if n := runtime.NumGoroutine(); n > before {
		t.Fatalf("%d goroutines, %d before", n, before)
	}
}
''')

seed('c13-keys-chunks', 'C13', 'memdb',
 'a key that moves to the front of a segment (removed and added by others) while KEYS pauses between two batches of that segment',
 'KEYS lists a key twice or misses one that existed throughout, because it resumes a segment by position.',
 [('memdb/concurrentMap.go', '''		m.table[i].rwMu.Lock()
		for key := range m.table[i].ht {
			keys = append(keys, key)
		}
		m.table[i].rwMu.Unlock()
''', '''		// in batches, so that writers do not wait long
		for pos := 0; ; {
			m.table[i].rwMu.Lock()
			sorted := make([]string, 0, len(m.table[i].ht))
			for key := range m.table[i].ht {
				sorted = append(sorted, key)
			}
			m.table[i].rwMu.Unlock()
			sort.Strings(sorted)
			if pos >= len(sorted) {
				break
			}
			end := pos + 4
			if end > len(sorted) {
				end = len(sorted)
			}
			keys = append(keys, sorted[pos:end]...)
			pos = end
		}
'''), ('memdb/concurrentMap.go', '''import (
	"gRedis/util"
	"sync"
''', '''import (
	"gRedis/util"
	"sort"
	"sync"
''')],
 MEM + '''
func TestZZDemo(t *testing.T) {
	db := &MemDb{dict: NewConcurrentMap(1), expires: NewConcurrentMap(1), locks: NewLocksManager(2)}
	for i := 0; i < 40; i++ {
		zz(db, "set", fmt.Sprintf("k%02d", i), "1")
	}
	stop := make(chan struct{})
	defer close(stop)
	go func() {
		for {
			select {
			case <-stop:
				return
			default:
			}
			zz(db, "set", "a", "1")
			zz(db, "del", "a")
		}
	}()
	end := time.Now().Add(8 * time.Second)
	for time.Now().Before(end) {
		r := zz(db, "keys", "k*")
		if !strings.HasPrefix(r, "*40\\r\\n") {
			t.Fatal(r[:5])
		}
		for i := 0; i < 40; i++ {
			if strings.Count(r, fmt.Sprintf("k%02d", i)) != 1 {
				t.Fatalf("k%02d is listed %d times", i, strings.Count(r, fmt.Sprintf("k%02d", i)))
			}
		}
	}
}
''')

seed('c14-signal-lost', 'C14', 'server',
 'a termination signal arriving while an accepted connection is being handed over and the main loop is busy',
 'The accepting goroutine takes the signal in place of the main loop: the server keeps running and accepts nobody.',
 [('server/server.go', '''			clients <- conn
''', '''			select {
			case clients <- conn:
			case <-osSignals:
				// shutting down, nobody takes the client any more
				conn.Close()
				return
			}
''')],
 SRV + '''
func TestZZDemo(t *testing.T) {
	if a := os.Getenv("ZZ_CHILD"); a != "" {
		c := zzSetup(t)
		fmt.Sscan(a, &c.Port)
		Start(c)
		os.Exit(0)
	}
	for round := 0; round < 250; round++ {
		l, _ := net.Listen("tcp", "127.0.0.1:0")
		addr := l.Addr().String()
		port := fmt.Sprint(l.Addr().(*net.TCPAddr).Port)
		l.Close()
		p, err := os.StartProcess(os.Args[0], []string{os.Args[0], "-test.run", "^TestZZDemo$"}, &os.ProcAttr{Env: append(os.Environ(), "ZZ_CHILD="+port)})
		if err != nil {
			t.Fatal(err)
		}
		for i := 0; ; i++ {
			c, err := net.Dial("tcp", addr)
			if err == nil {
				c.Close()
				break
			}
			if i > 500 {
				p.Kill()
				t.Fatal("does not start")
			}
			time.Sleep(10 * time.Millisecond)
		}
		stop := make(chan struct{})
		var wg sync.WaitGroup
		for i := 0; i < 8; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for {
					select {
					case <-stop:
						return
					default:
					}
					if c, err := net.Dial("tcp", addr); err == nil {
						c.(*net.TCPConn).SetLinger(0)
						c.Close()
					}
				}
			}()
		}
		time.Sleep(20 * time.Millisecond)
		p.Signal(syscall.SIGTERM)
		done := make(chan struct{})
		go func() { p.Wait(); close(done) }()
		ok := true
		select {
		case <-done:
		case <-time.After(3 * time.Second):
			ok = false
		}
		close(stop)
		wg.Wait()
		if !ok {
			p.Kill()
			t.Fatalf("round %d: still running 3 s after SIGTERM", round)
		}
	}
}
''')

seed('c14-accept-gives-up', 'C14', 'server',
 'a failing accept (no file descriptor left) followed by new connections',
 'After several failed accepts in a row the server never accepts again.',
 [('server/server.go', '''	go func() {
		for {
			conn, err := listener.Accept()
			if err != nil {
				logger.Error(err)
				continue
			}
			clients <- conn
		}
	}()
''', '''	go func() {
		failed := 0
		for {
			conn, err := listener.Accept()
			if err != nil {
				// do not spin on a closed listener
				if failed++; failed > 3 {
					return
				}
				logger.Error("accept: ", err)
				continue
			}
			clients <- conn
		}
	}()
''')],
 SRV + '''
func TestZZDemo(t *testing.T) {
	c := zzSetup(t)
	l, _ := net.Listen("tcp", "127.0.0.1:0")
	c.Port = l.Addr().(*net.TCPAddr).Port
	l.Close()
	go Start(c)
	addr := fmt.Sprintf("127.0.0.1:%d", c.Port)
	var k net.Conn
	var err error
	for i := 0; i < 500; i++ {
		if k, err = net.Dial("tcp", addr); err == nil {
			break
		}
		time.Sleep(10 * time.Millisecond)
	}
	if err != nil {
		t.Fatal(err)
	}
	k.Write([]byte("*1\\r\\n$4\\r\\nPING\\r\\n"))
	bufio.NewReader(k).ReadString('\\n')
	// no descriptors left: accept fails
	var old syscall.Rlimit
	syscall.Getrlimit(syscall.RLIMIT_NOFILE, &old)
	fd, _ := syscall.Dup(0)
	k2, err := syscall.Socket(syscall.AF_INET, syscall.SOCK_STREAM, 0)
	if err != nil {
		t.Fatal(err)
	}
	syscall.Close(fd)
	low := old
	low.Cur = uint64(fd)
	syscall.Setrlimit(syscall.RLIMIT_NOFILE, &low)
	sa := &syscall.SockaddrInet4{Port: c.Port, Addr: [4]byte{127, 0, 0, 1}}
	syscall.Connect(k2, sa)
	time.Sleep(300 * time.Millisecond)
	syscall.Setrlimit(syscall.RLIMIT_NOFILE, &old)
	syscall.Close(k2)
	k3, err := net.Dial("tcp", addr)
	if err != nil {
		t.Fatal(err)
	}
	k3.SetDeadline(time.Now().Add(5 * time.Second))
	k3.Write([]byte("*1\\r\\n$4\\r\\nPING\\r\\n"))
	if s, err := bufio.NewReader(k3).ReadString('\\n'); err != nil {
		t.Fatal("not served: ", s, err)
	}
}
''')

seed('c15-log-prefix', 'C15', 'logger',
 'two goroutines logging at the same time',
 'The shared prefix is written without the log lock.',
 [('logger/logger.go', '''	logMu.Lock()
	defer logMu.Unlock()
	setPrefix(WARNING)
	logger.Println(v)
''', '''	setPrefix(WARNING)
	logMu.Lock()
	defer logMu.Unlock()
	logger.Println(v)
'''), ('logger/logger.go', '''	logMu.Lock()
	defer logMu.Unlock()
	setPrefix(ERROR)
	logger.Println(v)
''', '''	setPrefix(ERROR)
	logMu.Lock()
	defer logMu.Unlock()
	logger.Println(v)
''')],
 '''package logger

import (
	"gRedis/config"
	"os"
	"sync"
	"testing"
)

func TestZZDemo(t *testing.T) {
	out := os.Stdout
	os.Stdout, _ = os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if err := Init(&config.Config{LogDir: t.TempDir(), LogLevel: "debug"}); err != nil {
		t.Fatal(err)
	}
	os.Stdout = out
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			for n := 0; n < 200; n++ {
				if i%2 == 0 {
					Warning("w")
				} else {
					Error("e")
				}
			}
		}(i)
	}
	wg.Wait()
}
''', '-race')

seed('c16-lmove-wrong-dest', 'C16', 'memdb',
 'LMOVE onto a key of another type',
 'The command fails but the element is gone from the source.',
 [('memdb/list.go', '''	desList, ok := desVal.(*List)
	if !ok {
		return resp.NewSimpleError("Operation against a key holding the wrong kind of value")
	}

	var srcPop *ListNode
	if srcDrc == "left" {
		srcPop = srcList.LPop()
	} else {
		srcPop = srcList.RPop()
	}
''', '''	var srcPop *ListNode
	if srcDrc == "left" {
		srcPop = srcList.LPop()
	} else {
		srcPop = srcList.RPop()
	}

	desList, ok := desVal.(*List)
	if !ok {
		return resp.NewSimpleError("Operation against a key holding the wrong kind of value")
	}
''')],
 MEM + '''
func TestZZDemo(t *testing.T) {
	db := NewMemDb()
	zz(db, "rpush", "a", "1", "2")
	zz(db, "set", "b", "s")
	if r := zz(db, "lmove", "a", "b", "left", "left"); r[0] != '-' {
		t.Fatal(r)
	}
	zzWant(t, db, ":2\\r\\n", "llen", "a")
}
''')

seed('c17-ltrim-expiry', 'C17', 'memdb',
 'a list with an expiry emptied by LTRIM and created again under the same name',
 'The new list starts with the old expiry.',
 [('memdb/list.go', '''	defer func() {
		if l.Len == 0 {
			db.dict.Delete(key)
			db.DeleteExpire(key)
		}
	}()

	l.Trim(start, end)
''', '''	defer func() {
		if l.Len == 0 {
			db.dict.Delete(key)
		}
	}()

	l.Trim(start, end)
''')],
 MEM + '''
func TestZZDemo(t *testing.T) {
	db := NewMemDb()
	zz(db, "rpush", "a", "1", "2")
	zz(db, "expire", "a", "100")
	zz(db, "ltrim", "a", "5", "9")
	zz(db, "rpush", "a", "3")
	zzWant(t, db, ":-1\\r\\n", "ttl", "a")
}
''')

seed('c18-lock-per-key', 'C18', 'memdb',
 'a command naming two different keys that share a lock (depends on segnum)',
 'The command waits for itself for ever.',
 [('memdb/locks.go', '''	set := make(map[int]struct{})
	for i := range keys {
		pos := m.GetKeyPos(keys[i])
		set[pos] = struct{}{}
	}

	order := make([]int, len(set))
	i := 0
	for pos := range set {
		order[i] = pos
		i++
	}
''', '''	set := make(map[string]int)
	for i := range keys {
		set[keys[i]] = m.GetKeyPos(keys[i])
	}

	order := make([]int, len(set))
	i := 0
	for _, pos := range set {
		order[i] = pos
		i++
	}
''')],
 MEM + '''
func TestZZDemo(t *testing.T) {
	db := &MemDb{dict: NewConcurrentMap(1), expires: NewConcurrentMap(1), locks: NewLocksManager(2)}
	zzFinish(t, func() {
		zz(db, "mset", "a", "1", "b", "2", "c", "3", "d", "4")
		zz(db, "del", "a", "b", "c", "d")
	})
}
''')

seed('c19-unlock-before-print', 'C19', 'logger',
 'two goroutines logging at different levels at the same time',
 'A line carries the level of another message.',
 [('logger/logger.go', '''	logMu.Lock()
	defer logMu.Unlock()
	setPrefix(INFO)
	logger.Println(v)
''', '''	logMu.Lock()
	setPrefix(INFO)
	// log.Logger is safe for concurrent use
	logMu.Unlock()
	logger.Println(v)
''')],
 '''package logger

import (
	"gRedis/config"
	"os"
	"strings"
	"sync"
	"testing"
)

func TestZZDemo(t *testing.T) {
	out := os.Stdout
	os.Stdout, _ = os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	dir := t.TempDir()
	if err := Init(&config.Config{LogDir: dir, LogLevel: "debug"}); err != nil {
		t.Fatal(err)
	}
	os.Stdout = out
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			for n := 0; n < 20000; n++ {
				if i%2 == 0 {
					Info("iii")
				} else {
					Error("eee")
				}
			}
		}(i)
	}
	wg.Wait()
	b, _ := os.ReadFile(dir + "/redis.log")
	for _, l := range strings.Split(string(b), "\\n") {
		if strings.Contains(l, "[[iii]]") || strings.Contains(l, "[iii]") {
			if !strings.HasPrefix(l, "[info]") {
				t.Fatal(l)
			}
		}
		if strings.Contains(l, "[eee]") && !strings.HasPrefix(l, "[error]") {
			t.Fatal(l)
		}
	}
}
''')

seed('c20-one-read', 'C20', 'config',
 'a configuration file that arrives in more than one read',
 'The rest of the file is silently ignored.',
 [('config/config.go', '''	fileReader := bufio.NewReader(file)
''', '''	// configuration files are small
	buf := make([]byte, 4096)
	n, err := file.Read(buf)
	if err != nil && err != io.EOF {
		return err
	}
	fileReader := bufio.NewReader(strings.NewReader(string(buf[:n])))
''')],
 '''package config

import (
	"os"
	"strings"
	"testing"
)

func TestZZDemo(t *testing.T) {
	f := t.TempDir() + "/c.conf"
	os.WriteFile(f, []byte("port 1234\\n"+strings.Repeat("# a comment line\\n", 400)+"segnum 77\\n"), 0644)
	c := &Config{ConfigFile: f, SegNum: 1}
	if err := c.ParseConfFile(); err != nil {
		t.Fatal(err)
	}
	if c.SegNum != 77 {
		t.Fatalf("segnum is %d", c.SegNum)
	}
}
''')
