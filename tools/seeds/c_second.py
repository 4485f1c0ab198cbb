seed('c01-incr-upgrade', 'C01', 'memdb',
 'two connections incrementing the same key, both reading before either writes',
 'INCR reads under the shared lock and writes under the exclusive one: an acknowledged increment is lost.',
 [('memdb/strings.go', '''	db.locks.Lock(key)
	defer db.locks.UnLock(key)

	//  If the key does not exist, it is set to 0 before performing the operation.
	var nV int64
	var err error
	if val, ok := db.dict.Get(key); ok {
		v, ok := val.([]byte)
		if !ok {
			return resp.NewSimpleError("the value stored at key is not a string")
		}

		nV, err = strconv.ParseInt(string(v), 10, 64)
		if err != nil {
			return resp.NewSimpleError("value is not an integer")
		}
	}

	if nV == math.MaxInt64 {
''', '''	//  If the key does not exist, it is set to 0 before performing the operation.
	var nV int64
	var err error
	db.locks.RLock(key)
	val, ok := db.dict.Get(key)
	db.locks.RUnLock(key)
	if ok {
		v, ok := val.([]byte)
		if !ok {
			return resp.NewSimpleError("the value stored at key is not a string")
		}

		nV, err = strconv.ParseInt(string(v), 10, 64)
		if err != nil {
			return resp.NewSimpleError("value is not an integer")
		}
	}

	db.locks.Lock(key)
	defer db.locks.UnLock(key)
	if nV == math.MaxInt64 {
''')],
 MEM + '''
func TestZZDemo(t *testing.T) {
	for r := 0; r < 20; r++ {
		db := NewMemDb()
		zzRun(8, func(int) {
			for i := 0; i < 2000; i++ {
				zz(db, "incr", "k")
			}
		})
		zzWant(t, db, "$5\\r\\n16000\\r\\n", "get", "k")
	}
}
''')

seed('c01-strlen-runes', 'C01', 'memdb',
 'a value holding a multi-byte UTF-8 character',
 'STRLEN counts characters, not bytes.',
 [('memdb/strings.go', '''		return resp.NewInteger(int64(len(v)))
	} else {
		return resp.NewInteger(0)
	}
}

func incrString''', '''		return resp.NewInteger(int64(len([]rune(string(v)))))
	} else {
		return resp.NewInteger(0)
	}
}

func incrString''')],
 MEM + '''
func TestZZDemo(t *testing.T) {
	db := NewMemDb()
	zz(db, "set", "k", "caf\\xc3\\xa9")
	zzWant(t, db, ":5\\r\\n", "strlen", "k")
}
''')

seed('c01-mset-first-wins', 'C01', 'memdb',
 'MSET naming the same key twice',
 'The first value is stored, not the last.',
 [('memdb/strings.go', '''	for i := 0; i < len(keys); i++ {
		db.DeleteExpire(keys[i])
		db.dict.Set(keys[i], vals[i])
	}
''', '''	for i := len(keys) - 1; i >= 0; i-- {
		db.DeleteExpire(keys[i])
		db.dict.Set(keys[i], vals[i])
	}
''')],
 MEM + '''
func TestZZDemo(t *testing.T) {
	db := NewMemDb()
	zz(db, "mset", "k", "1", "j", "x", "k", "2")
	zzWant(t, db, "$1\\r\\n2\\r\\n", "get", "k")
}
''')

seed('c02-index-nearer-end', 'C02', 'memdb',
 'LINDEX or LSET of the element just behind the middle of a list with an odd number of at least five elements',
 'Walking from the nearer end reaches the neighbour of that element.',
 [('memdb/list_struct.go', '''		cur = l.Head.Next
		// 这里不包括index的原因是因为以及access了一次node
		for i := 0; i < index; i++ {
			cur = cur.Next
		}
''', '''		if index > l.Len/2 {
			// nearer to the tail
			cur = l.Tail.Prev
			for i := l.Len - 1; i > index && i > l.Len/2+2; i-- {
				cur = cur.Prev
			}
			return cur
		}
		cur = l.Head.Next
		// 这里不包括index的原因是因为以及access了一次node
		for i := 1; i <= index; i++ {
			cur = cur.Next
		}
''')],
 MEM + '''
func TestZZDemo(t *testing.T) {
	for n := 1; n < 40; n++ {
		db := NewMemDb()
		for i := 0; i < n; i++ {
			zz(db, "rpush", "k", fmt.Sprintf("%03d", i))
		}
		for i := 0; i < n; i++ {
			zzWant(t, db, fmt.Sprintf("$3\\r\\n%03d\\r\\n", i), "lindex", "k", fmt.Sprint(i))
		}
	}
}
''')

seed('c02-rpop-all', 'C02', 'memdb',
 'RPOP with a count of at least the length of a list with several elements',
 'The elements come back from head to tail instead of tail to head.',
 [('memdb/list.go', '''	res := make([]resp.RedisData, 0, count)
	for i := 0; i < count; i++ {
		node := l.RPop()
		if node == nil {
			break
		}
		res = append(res, resp.NewBulkString(node.Val))
	}
''', '''	res := make([]resp.RedisData, 0, count)
	for all := count == l.Len; len(res) < count; {
		node := l.Tail.Prev
		if all {
			// the whole list goes: no need to keep the links
			node = l.LPop()
		} else {
			l.RPop()
		}
		res = append(res, resp.NewBulkString(node.Val))
	}
''')],
 MEM + '''
func TestZZDemo(t *testing.T) {
	db := NewMemDb()
	zz(db, "rpush", "k", "a", "b", "c")
	zzWant(t, db, "*3\\r\\n$1\\r\\nc\\r\\n$1\\r\\nb\\r\\n$1\\r\\na\\r\\n", "rpop", "k", "5")
}
''')

seed('c03-hgetall-late-values', 'C03', 'memdb',
 'a writer changing two fields between the reader taking the fields and taking the values',
 'HVALS reads each value under its own lock, so half a multi-field write is visible.',
 [('memdb/hash.go', '''	res := make([]resp.RedisData, 0, h.Len())
	for k, v := range h.table {
		res = append(res, resp.NewBulkString([]byte(k)))
		res = append(res, resp.NewBulkString(v))
	}

	return resp.NewArray(res)
''', '''	res := make([]resp.RedisData, 0, h.Len())
	for _, k := range h.Keys() {
		res = append(res, resp.NewBulkString([]byte(k)))
		res = append(res, resp.NewBulkString(h.Get(k)))
		// let a waiting writer in, the reply may be large
		db.locks.RUnLock(key)
		db.locks.RLock(key)
	}

	return resp.NewArray(res)
''')],
 MEM + '''
func TestZZDemo(t *testing.T) {
	db := NewMemDb()
	zz(db, "hset", "k", "f", "0", "g", "0")
	stop := make(chan struct{})
	for w := 0; w < 2; w++ {
		go func() {
			for i := 0; ; i++ {
				select {
				case <-stop:
					return
				default:
				}
				s := fmt.Sprint(i % 10)
				zz(db, "hset", "k", "f", s, "g", s)
			}
		}()
	}
	end := time.Now().Add(10 * time.Second)
	bad := ""
	for time.Now().Before(end) && bad == "" {
		r := strings.Split(zz(db, "hgetall", "k"), "\\r\\n")
		if len(r) < 9 || r[4] != r[8] {
			bad = fmt.Sprint(r)
		}
	}
	close(stop)
	if bad != "" {
		t.Fatal(bad)
	}
}
''')

seed('c03-hincrby-empty', 'C03', 'memdb',
 'HINCRBY of a field that holds the empty string',
 'The field counts as missing and is overwritten instead of the command failing.',
 [('memdb/hash_struct.go', '''func (h *Hash) IncrBy(key string, increment int) (int, bool) {
	v := h.Get(key)
	if v == nil {
''', '''func (h *Hash) IncrBy(key string, increment int) (int, bool) {
	v := h.Get(key)
	if len(v) == 0 {
''')],
 MEM + '''
func TestZZDemo(t *testing.T) {
	db := NewMemDb()
	zz(db, "hset", "k", "f", "")
	if r := zz(db, "hincrby", "k", "f", "3"); r[0] != '-' {
		t.Fatal(r)
	}
	zzWant(t, db, "$0\\r\\n\\r\\n", "hget", "k", "f")
}
''')

seed('c04-store-alias', 'C04', 'memdb',
 'SUNIONSTORE of a single set, followed by a change of either',
 'Source and destination are the same set from then on.',
 [('memdb/set.go', '''	// only primary key
	if len(keys) == 1 {
		members := s.Members()
		for _, mem := range members {
			destSet.Add(mem)
		}
		return storeSet(db, dest, destSet)
	}

	// calculate set operation
	sets := make([]*Set, 0, len(keys)-1)
	for _, key := range keys[1:] {
		_set, ok := db.dict.Get(key)
		var set *Set
		if ok {
			set, ok = _set.(*Set)
			if !ok {
				return resp.NewSimpleError("Operation against a key holding the wrong kind of value")
			}
		} else {
			// Keys that do not exist are considered to be empty sets.
			set = NewSet()
		}
		sets = append(sets, set)
	}

	inter := s.Intersect(sets...)
''', '''	// only primary key
	if len(keys) == 1 {
		return storeSet(db, dest, s)
	}

	// calculate set operation
	sets := make([]*Set, 0, len(keys)-1)
	for _, key := range keys[1:] {
		_set, ok := db.dict.Get(key)
		var set *Set
		if ok {
			set, ok = _set.(*Set)
			if !ok {
				return resp.NewSimpleError("Operation against a key holding the wrong kind of value")
			}
		} else {
			// Keys that do not exist are considered to be empty sets.
			set = NewSet()
		}
		sets = append(sets, set)
	}

	inter := s.Intersect(sets...)
''')],
 MEM + '''
func TestZZDemo(t *testing.T) {
	db := NewMemDb()
	zz(db, "sadd", "a", "1")
	zz(db, "sinterstore", "b", "a")
	zz(db, "sadd", "a", "2")
	zzWant(t, db, ":1\\r\\n", "scard", "b")
}
''')

seed('c05-del-batches', 'C05', 'memdb',
 'DEL of at least three keys with a reader between its two halves',
 'Long key lists are deleted in batches under separate locks: another connection sees some keys gone and others not.',
 [('memdb/keys.go', '''	keys := make([]string, 0, len(cmd)-1)
	for _, k := range cmd[1:] {
		key := string(k)
		db.DeleteExpiredKey(key)
		keys = append(keys, key)
	}

	db.locks.MLock(keys)
	defer db.locks.MUnLock(keys)

	deleted := 0
	for _, key := range keys {
		deleted += db.dict.Delete(key)
		db.DeleteExpire(key)
	}

	return resp.NewInteger(int64(deleted))
''', '''	before := 0
	// a few at a time, to keep the locks short
	for len(cmd) > 3 {
		n, ok := delKey(db, cmd[:3]).(*resp.Integer)
		if !ok {
			break
		}
		before += int(n.GetData())
		cmd = cmd[2:]
	}

	keys := make([]string, 0, len(cmd)-1)
	for _, k := range cmd[1:] {
		key := string(k)
		db.DeleteExpiredKey(key)
		keys = append(keys, key)
	}

	db.locks.MLock(keys)
	defer db.locks.MUnLock(keys)

	deleted := 0
	for _, key := range keys {
		deleted += db.dict.Delete(key)
		db.DeleteExpire(key)
	}

	return resp.NewInteger(int64(before + deleted))
''')],
 MEM + '''
func TestZZDemo(t *testing.T) {
	db := NewMemDb()
	stop := make(chan struct{})
	go func() {
		for i := 0; ; i++ {
			select {
			case <-stop:
				return
			default:
			}
			zz(db, "mset", "a", "1", "b", "1", "c", "1", "d", "1")
			zz(db, "del", "a", "b", "c", "d")
		}
	}()
	end := time.Now().Add(10 * time.Second)
	bad := ""
	for time.Now().Before(end) && bad == "" {
		if r := zz(db, "exists", "a", "b", "c", "d"); r != ":0\\r\\n" && r != ":4\\r\\n" {
			bad = r
		}
	}
	close(stop)
	if bad != "" {
		t.Fatal(bad)
	}
}
''')

seed('c05-store-two-locks', 'C05', 'memdb',
 'a source set changing between the read and the write half of SDIFFSTORE',
 'SDIFFSTORE computes under read locks and stores under the write lock of the destination: the destination never held that value at any instant.',
 [('memdb/set.go', '''	db.locks.MLock(lockKeys)
	defer db.locks.MUnLock(lockKeys)

	// check primary key
	v, ok := db.dict.Get(key)
	if !ok {
		// if primary doesn't existed, treat it as a empty set
		v = NewSet()
	}

	s, ok := v.(*Set)
	if !ok {
		return resp.NewSimpleError("Operation against a key holding the wrong kind of value")
	}

	// whatever old destination key/value it is, just cover old before return
	destSet := NewSet()

	// only primary key
	if len(keys) == 1 {
		members := s.Members()
		for _, mem := range members {
			destSet.Add(mem)
		}
		return storeSet(db, dest, destSet)
	}

	// calculate set operation
	sets := make([]*Set, 0, len(keys)-1)
	for _, key := range keys[1:] {
		_set, ok := db.dict.Get(key)
		if ok {
			set, ok := _set.(*Set)
			if !ok {
				return resp.NewSimpleError("Operation against a key holding the wrong kind of value")
			}
			sets = append(sets, set)
		}
	}

	diff := s.Difference(sets...)

	for _, mem := range diff.Members() {
		destSet.Add(mem)
	}

	return storeSet(db, dest, destSet)
''', '''	// readers of the sources need not wait for the computation
	destSet, failed := diffOf(db, lockKeys[1:])
	if failed != nil {
		return failed
	}

	db.locks.Lock(dest)
	defer db.locks.UnLock(dest)

	return storeSet(db, dest, destSet)
}

func diffOf(db *MemDb, keys []string) (*Set, resp.RedisData) {
	db.locks.MRLock(keys)
	defer db.locks.MRUnLock(keys)

	all := make([]*Set, 0, len(keys))
	for _, key := range keys {
		set := NewSet()
		if v, ok := db.dict.Get(key); ok {
			if set, ok = v.(*Set); !ok {
				return nil, resp.NewSimpleError("Operation against a key holding the wrong kind of value")
			}
		}
		all = append(all, set)
	}
	return all[0].Difference(all[1:]...), nil
'''), ('memdb/set.go', '''		// can't guarantee the key must to be existed
		keys = append(keys, key)
	}
	// get primary key
	key := keys[0]

	// lock destination + keys
	lockKeys := append([]string{dest}, keys...)

	// readers of''', '''		// can't guarantee the key must to be existed
		keys = append(keys, key)
	}

	// destination + keys
	lockKeys := append([]string{dest}, keys...)

	// readers of''')],
 MEM + '''
func TestZZDemo(t *testing.T) {
	for i := 0; i < 20000; i++ {
		db := NewMemDb0()
		zz(db, "sadd", "s", "x")
		// k is added to and removed by one connection; the other removes nothing but what it read
		zzRun(2, func(n int) {
			if n == 0 {
				zz(db, "sdiffstore", "s", "s", "none")
			} else {
				zz(db, "sadd", "s", "y")
			}
		})
		if r := zz(db, "scard", "s"); r != ":2\\r\\n" {
			t.Fatal("an acknowledged SADD is lost: ", r)
		}
	}
}

func NewMemDb0() *MemDb {
	return &MemDb{dict: NewConcurrentMap(4), expires: NewConcurrentMap(4), locks: NewLocksManager(8)}
}
''')

seed('c06-expire-gt-equal', 'C06', 'memdb',
 'EXPIRE GT with exactly the current expiry',
 'An equal expiry is taken for a greater one.',
 [('memdb/keys.go', '''		if v, ok := db.expires.Get(key); ok && ttl > v.(int64) {
''', '''		if v, ok := db.expires.Get(key); ok && ttl >= v.(int64) {
''')],
 MEM + '''
func TestZZDemo(t *testing.T) {
	db := NewMemDb()
	for i := 0; i < 3; i++ { // not across a second
		for time.Now().Nanosecond() > 500000000 {
			time.Sleep(10 * time.Millisecond)
		}
		zz(db, "set", "k", "v", "ex", "100")
		zzWant(t, db, ":0\\r\\n", "expire", "k", "100", "gt")
	}
}
''')

seed('c06-rename-dest-expiry', 'C06', 'memdb',
 'RENAME of a key without expiry onto a key that has one',
 'The renamed value inherits the expiry of the key it replaced and vanishes with it.',
 [('memdb/keys.go', '''	// If newkey already exists it is overwritten
	db.DeleteExpire(newKey)
	db.dict.Set(newKey, oldValue)
	db.dict.Delete(oldKey)
	db.DeleteExpire(oldKey)

	// If a key is renamed with RENAME, the associated time to live is transferred to the new key name.
	if ok {
		db.SetExpire(newKey, oldTTL.(int64))
''', '''	// If newkey already exists it is overwritten
	db.dict.Set(newKey, oldValue)
	db.dict.Delete(oldKey)

	// If a key is renamed with RENAME, the associated time to live is transferred to the new key name.
	if ok {
		db.DeleteExpire(oldKey)
		db.SetExpire(newKey, oldTTL.(int64))
''')],
 MEM + '''
func TestZZDemo(t *testing.T) {
	db := NewMemDb()
	zz(db, "set", "a", "1")
	zz(db, "set", "b", "2", "ex", "100")
	zz(db, "rename", "a", "b")
	zzWant(t, db, ":-1\\r\\n", "ttl", "b")
}
''')

seed('c07-async-delete', 'C07', 'memdb',
 'a write to an expired key before the background clean-up of the old value runs',
 'The clean-up of the expired value removes the new one.',
 [('memdb/memdb.go', '''		db.dict.Delete(key)
		db.expires.Delete(key)
		return true
	}
	return false
}''', '''		// a large value takes long to free
		old, _ := db.dict.Get(key)
		if s, ok := old.([]byte); !ok || len(s) > 4096 {
			go func() {
				db.locks.Lock(key)
				defer db.locks.UnLock(key)
				db.dict.Delete(key)
			}()
		} else {
			db.dict.Delete(key)
		}
		db.DeleteExpire(key)
		return true
	}
	return false
}''')],
 MEM + '''
func TestZZDemo(t *testing.T) {
	db := NewMemDb()
	for i := 0; i < 400; i++ {
		k := fmt.Sprint("k", i)
		zz(db, "rpush", k, "old")
		zz(db, "expire", k, "1")
	}
	time.Sleep(2500 * time.Millisecond)
	for i := 0; i < 400; i++ {
		zz(db, "rpush", fmt.Sprint("k", i), "new")
	}
	time.Sleep(200 * time.Millisecond)
	for i := 0; i < 400; i++ {
		zzWant(t, db, "*1\\r\\n$3\\r\\nnew\\r\\n", "lrange", fmt.Sprint("k", i), "0", "-1")
	}
}
''')

seed('c08-linsert-no-unlock', 'C08', 'memdb',
 'LINSERT with a pivot that is not in the list, then any write to a key under the same lock',
 'The lock is never released: later commands hang.',
 [('memdb/list.go', '''	pivot := cmd[3]
	val := cmd[4]

	db.locks.Lock(key)
	defer db.locks.UnLock(key)

	// key not existed
	v, ok := db.dict.Get(key)
	if !ok {
		return resp.NewInteger(0)
	}

	// wrong type
	l, ok := v.(*List)
	if !ok {
		return resp.NewSimpleError("Operation against a key holding the wrong kind of value")
	}

	if before {
		if !l.InsertBefore(val, pivot) {
			// -1 when the pivot wasn't found.
			return resp.NewInteger(-1)
		}
	} else {
		if !l.InsertAfter(val, pivot) {
			// -1 when the pivot wasn't found.
			return resp.NewInteger(-1)
		}
	}

	return resp.NewInteger(int64(l.Len))
''', '''	pivot := cmd[3]
	val := cmd[4]

	db.locks.Lock(key)

	// key not existed
	v, ok := db.dict.Get(key)
	if !ok {
		db.locks.UnLock(key)
		return resp.NewInteger(0)
	}

	// wrong type
	l, ok := v.(*List)
	if !ok {
		db.locks.UnLock(key)
		return resp.NewSimpleError("Operation against a key holding the wrong kind of value")
	}

	if before {
		if !l.InsertBefore(val, pivot) {
			// -1 when the pivot wasn't found.
			db.locks.UnLock(key)
			return resp.NewInteger(-1)
		}
	} else {
		if !l.InsertAfter(val, pivot) {
			// -1 when the pivot wasn't found.
			return resp.NewInteger(-1)
		}
	}

	n := l.Len
	db.locks.UnLock(key)
	return resp.NewInteger(int64(n))
''')],
 MEM + '''
func TestZZDemo(t *testing.T) {
	db := NewMemDb()
	zz(db, "rpush", "k", "a")
	zz(db, "linsert", "k", "after", "zz", "b")
	zzFinish(t, func() { zz(db, "rpush", "k", "c") })
}
''')

seed('c08-lmove-lock-order', 'C08', 'memdb',
 'two LMOVE in opposite directions between the same two keys at the same time',
 'Each waits for the key the other has locked, for ever.',
 [('memdb/list.go', '''	db.locks.MLock([]string{src, des})
	defer db.locks.MUnLock([]string{src, des})
''', '''	// source first
	db.locks.Lock(src)
	defer db.locks.UnLock(src)
	if db.locks.GetKeyPos(src) != db.locks.GetKeyPos(des) {
		db.locks.Lock(des)
		defer db.locks.UnLock(des)
	}
''')],
 MEM + '''
func TestZZDemo(t *testing.T) {
	db := NewMemDb()
	zz(db, "rpush", "a", "1", "2", "3", "4")
	zz(db, "rpush", "b", "1", "2", "3", "4")
	zzFinish(t, func() {
		zzRun(8, func(i int) {
			for n := 0; n < 20000; n++ {
				if i%2 == 0 {
					zz(db, "lmove", "a", "b", "left", "right")
				} else {
					zz(db, "lmove", "b", "a", "left", "right")
				}
			}
		})
	})
}
''')

seed('c09-shared-buffer', 'C09', 'resp',
 'a request with several long arguments',
 'The parser reuses its buffer for bulk strings of over 64 bytes: a stored value changes when the next long argument arrives.',
 [('resp/parser.go', '''	if buf.multiLine { // read bulk string
		msg = make([]byte, buf.stringLen+2)
		_, err''', '''	if buf.multiLine { // read bulk string
		if n := int(buf.stringLen) + 2; n > 64 && n < reader.Size() {
			// it is in the read buffer already, do not copy it
			if msg, err = reader.Peek(n); err != nil {
				return nil, err
			}
			reader.Discard(n)
			if msg[n-1] != '\\n' || msg[n-2] != '\\r' {
				return nil, errors.New("Protocol error: stream msg invalid")
			}
			return msg, nil
		}
		msg = make([]byte, 2+buf.stringLen)
		_, err''')],
 '''package resp

import (
	"fmt"
	"net"
	"strings"
	"testing"
)

func TestZZDemo(t *testing.T) {
	a, b := net.Pipe()
	go func() {
		for i := 0; i < 200; i++ {
			v := strings.Repeat(fmt.Sprint(i%10), 100)
			a.Write([]byte("*2\\r\\n$100\\r\\n" + v + "\\r\\n$1\\r\\nx\\r\\n"))
		}
		a.Close()
	}()
	var kept [][]byte
	for r := range ParseStream(b) {
		if r.Err != nil {
			break
		}
		kept = append(kept, r.Data.(*RedisArray).ToCommand()[0])
	}
	for i := range kept {
		if string(kept[i]) != strings.Repeat(fmt.Sprint(i%10), 100) {
			t.Fatalf("argument %d became %q", i, kept[i])
		}
	}
}
''')

seed('c10-lazy-databases', 'C10', 'server',
 'two connections selecting the same unused database at the same time',
 'Databases are made on first use without a lock: two connections in the same database do not see each other.',
 [('server/handler.go', '''	for i := 0; i < len(dbs); i++ {
		dbs[i] = memdb.NewMemDb()
	}
''', '''	// the others are made when they are first selected
	dbs[0] = memdb.NewMemDb()
'''), ('server/handler.go', '''	m.db = m.dbs[dbIdx]

''', '''	if m.dbs[dbIdx] == nil {
		m.dbs[dbIdx] = memdb.NewMemDb()
	}
	m.db = m.dbs[dbIdx]

''')],
 SRV + '''
func TestZZDemo(t *testing.T) {
	c := zzSetup(t)
	c.DbNum = 2
	c.SegNum = 5000
	for i := 0; i < 300; i++ {
		m := NewManager(c)
		var wg sync.WaitGroup
		rs := make([]net.Conn, 4)
		for j := range rs {
			a, b := net.Pipe()
			rs[j] = a
			go m.Handle(b)
			go io.Copy(io.Discard, nopReader{})
		}
		for j := range rs {
			wg.Add(1)
			go func(j int) {
				defer wg.Done()
				rs[j].Write([]byte("*2\\r\\n$6\\r\\nselect\\r\\n$1\\r\\n1\\r\\n"))
				bufio.NewReader(rs[j]).ReadString('\\n')
			}(j)
		}
		wg.Wait()
		rs[0].Write([]byte("*3\\r\\n$3\\r\\nset\\r\\n$1\\r\\nk\\r\\n$1\\r\\nv\\r\\n"))
		bufio.NewReader(rs[0]).ReadString('\\n')
		for j := range rs {
			rs[j].Write([]byte("*2\\r\\n$6\\r\\nexists\\r\\n$1\\r\\nk\\r\\n"))
			s, _ := bufio.NewReader(rs[j]).ReadString('\\n')
			if s != ":1\\r\\n" {
				t.Fatalf("round %d: connection %d does not see the key: %q", i, j, s)
			}
		}
		for j := range rs {
			rs[j].Close()
		}
	}
}

type nopReader struct{}

func (nopReader) Read([]byte) (int, error) { return 0, io.EOF }
''')

seed('c11-partial-request', 'C11', 'server',
 'a connection that ends in the middle of a request',
 'The arguments received so far are executed as a request.',
 [('resp/parser.go', '''			if err == io.EOF {
				ch <- &RedisResp{Err: err}
''', '''			if err == io.EOF {
				// hand over what is there
				if buf.inArray && len(buf.arrayData.data) > 1 && !buf.multiLine {
					ch <- &RedisResp{Data: buf.arrayData}
				}
				ch <- &RedisResp{Err: io.EOF}
''')],
 SRV + '''
func TestZZDemo(t *testing.T) {
	m := NewManager(zzSetup(t))
	do := func(s string) string {
		a, b := net.Pipe()
		out := make(chan string)
		go func() { r, _ := io.ReadAll(a); out <- string(r) }()
		go func() { a.Write([]byte(s)) }()
		done := make(chan struct{})
		go func() { m.Handle(zzHalf{b, strings.NewReader(s)}); close(done) }()
		<-done
		return <-out
	}
	do("*3\\r\\n$3\\r\\nset\\r\\n$1\\r\\na\\r\\n$1\\r\\n1\\r\\n*3\\r\\n$3\\r\\nset\\r\\n$1\\r\\nb\\r\\n$1\\r\\n1\\r\\n")
	// the client meant to delete a key and died before its name was sent
	do("*3\\r\\n$3\\r\\ndel\\r\\n$1\\r\\na\\r\\n$1")
	if r := do("*3\\r\\n$6\\r\\nexists\\r\\n$1\\r\\na\\r\\n$1\\r\\nb\\r\\n"); r != ":2\\r\\n" {
		t.Fatal(r)
	}
}

type zzHalf struct {
	net.Conn
	r io.Reader
}

func (c zzHalf) Read(b []byte) (int, error) { return c.r.Read(b) }
''')

seed('c12-close-on-eof-only', 'C12', 'server',
 'a connection that ends with a protocol error or a reset',
 'The server never closes its side: descriptors run out.',
 [('server/handler.go', '''	// close connection
	defer func() {
		err := conn.Close()
		if err != nil {
			logger.Error(err)
		}
	}()

''', ''''''), ('server/handler.go', '''				logger.Info("Close connection: ", conn.RemoteAddr().String())
			}
''', '''				logger.Info("Close connection: ", conn.RemoteAddr().String())
				if err := conn.Close(); err != nil {
					logger.Error(err)
				}
			}
''')],
 SRV + '''
type zzConn struct {
	net.Conn
	r      io.Reader
	closed *bool
}

func (c zzConn) Read(b []byte) (int, error)  { return c.r.Read(b) }
func (c zzConn) Write(b []byte) (int, error) { return len(b), nil }
func (c zzConn) Close() error                { *c.closed = true; return nil }
func (c zzConn) RemoteAddr() net.Addr        { return &net.TCPAddr{} }

func TestZZDemo(t *testing.T) {
	m := NewManager(zzSetup(t))
	for _, s := range []string{"", "*1\\r\\n$4\\r\\nPING\\r\\n", "*x\\r\\n", "*1\\r\\n$4\\r\\nPI"} {
		var closed bool
		m.Handle(zzConn{r: strings.NewReader(s), closed: &closed})
		if !closed {
			t.Fatalf("not closed after %q", s)
		}
	}
}
''')

seed('c13-keys-trylock', 'C13', 'memdb',
 'a writer holding the lock of a segment at the moment KEYS reaches it',
 'KEYS passes over a busy segment and misses its keys.',
 [('memdb/concurrentMap.go', '''		m.table[i].rwMu.Lock()
		for key := range m.table[i].ht {
			keys = append(keys, key)
		}
		m.table[i].rwMu.Unlock()
''', '''		// do not hold up the writers
		if !m.table[i].rwMu.TryRLock() {
			continue
		}
		for key := range m.table[i].ht {
			keys = append(keys, key)
		}
		m.table[i].rwMu.RUnlock()
''')],
 MEM + '''
func TestZZDemo(t *testing.T) {
	db := &MemDb{dict: NewConcurrentMap(1), expires: NewConcurrentMap(1), locks: NewLocksManager(2)}
	zz(db, "set", "a", "1")
	stop := make(chan struct{})
	for w := 0; w < 3; w++ {
		go func() {
			for {
				select {
				case <-stop:
					return
				default:
				}
				zz(db, "set", "b", "1")
			}
		}()
	}
	end := time.Now().Add(10 * time.Second)
	bad := ""
	for time.Now().Before(end) && bad == "" {
		if r := zz(db, "keys", "a"); r != "*1\\r\\n$1\\r\\na\\r\\n" {
			bad = r
		}
	}
	close(stop)
	if bad != "" {
		t.Fatalf("%q", bad)
	}
}
''')

seed('c14-wait-for-clients', 'C14', 'server',
 'a termination signal while a client is connected and idle',
 'The server waits for its clients to leave instead of exiting.',
 [('server/server.go', '''			logger.Info(conn.RemoteAddr().String(), " connected")
			go mgr.Handle(conn)
		// exit server
		case <-osSignals:
			return nil
''', '''			logger.Info(conn.RemoteAddr().String(), " connected")
			active.Add(1)
			go func() {
				defer active.Done()
				mgr.Handle(conn)
			}()
		// exit server
		case <-osSignals:
			// let the running commands finish
			active.Wait()
			return nil
'''), ('server/server.go', '''	// client chan
''', '''	var active sync.WaitGroup

	// client chan
'''), ('server/server.go', '''	"strconv"
	"syscall"
''', '''	"strconv"
	"sync"
	"syscall"
''')],
 SRV + '''
func TestZZDemo(t *testing.T) {
	if a := os.Getenv("ZZ_CHILD"); a != "" {
		c := zzSetup(t)
		fmt.Sscan(a, &c.Port)
		Start(c)
		os.Exit(0)
	}
	l, _ := net.Listen("tcp", "127.0.0.1:0")
	addr := l.Addr().String()
	port := fmt.Sprint(l.Addr().(*net.TCPAddr).Port)
	l.Close()
	p, err := os.StartProcess(os.Args[0], []string{os.Args[0], "-test.run", "^TestZZDemo$"}, &os.ProcAttr{Env: append(os.Environ(), "ZZ_CHILD="+port)})
	if err != nil {
		t.Fatal(err)
	}
	var c net.Conn
	for i := 0; ; i++ {
		if c, err = net.Dial("tcp", addr); err == nil {
			break
		}
		if i > 500 {
			p.Kill()
			t.Fatal("does not start")
		}
		time.Sleep(10 * time.Millisecond)
	}
	c.Write([]byte("*1\\r\\n$4\\r\\nPING\\r\\n"))
	bufio.NewReader(c).ReadString('\\n')
	p.Signal(syscall.SIGTERM)
	done := make(chan struct{})
	go func() { p.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(10 * time.Second):
		p.Kill()
		t.Fatal("still running 10 s after SIGTERM")
	}
}
''')

seed('c15-command-count', 'C15', 'server',
 'two connections executing commands at the same time',
 'A shared statistics map is updated without a lock: concurrent map writes abort the process.',
 [('server/handler.go', '''type Manager struct {
	db  *memdb.MemDb
	dbs []*memdb.MemDb
}
''', '''type Manager struct {
	db  *memdb.MemDb
	dbs []*memdb.MemDb
}

// how often each command was used
var calls = make(map[string]int)
'''), ('server/handler.go', '''	if ok {
		return command.Executor(m.db, cmd)
	} else {
''', '''	if ok {
		if _, seen := calls[cmdName]; !seen || calls[cmdName] < 1000 {
			calls[cmdName]++
		}
		res := command.Executor(m.db, cmd)
		return res
	} else {
''')],
 SRV + '''
func TestZZDemo(t *testing.T) {
	m := NewManager(zzSetup(t))
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			a, b := net.Pipe()
			go m.Handle(b)
			r := bufio.NewReader(a)
			for n := 0; n < 50; n++ {
				a.Write([]byte("*1\\r\\n$4\\r\\nPING\\r\\n"))
				r.ReadString('\\n')
			}
			a.Close()
		}()
	}
	wg.Wait()
}
''', '-race')

seed('c16-hset-odd', 'C16', 'memdb',
 'HSET with a field without value after complete pairs',
 'The command fails after having stored the pairs before it.',
 [('memdb/hash.go', '''func hSetHash(db *MemDb, cmd [][]byte) resp.RedisData {
	if len(cmd) < 4 || len(cmd)&1 == 1 {
''', '''func hSetHash(db *MemDb, cmd [][]byte) resp.RedisData {
	if len(cmd) < 4 {
'''), ('memdb/hash.go', '''	res := 0
	for i := 2; i < len(cmd); i += 2 {
		field := string(cmd[i])
		val := cmd[i+1]
		res += h.Set(field, val)
	}
''', '''	res := 0
	for i := 2; i < len(cmd); i += 2 {
		field := string(cmd[i])
		if i+1 == len(cmd) {
			return resp.NewSimpleError("wrong number of arguments for command")
		}
		val := cmd[i+1]
		res += h.Set(field, val)
	}
''')],
 MEM + '''
func TestZZDemo(t *testing.T) {
	db := NewMemDb()
	if r := zz(db, "hset", "k", "f", "1", "g"); r[0] != '-' {
		t.Fatal(r)
	}
	zzWant(t, db, ":0\\r\\n", "exists", "k")
}
''')

seed('c17-lmove-single', 'C17', 'memdb',
 'LMOVE of a list with one element onto itself',
 'The list is dropped although it still has its element.',
 [('memdb/list.go', '''	defer func() {
		if srcList.Len == 0 {
			db.dict.Delete(src)
			db.DeleteExpire(src)
		}
	}()

	desList, ok := desVal.(*List)
	if !ok {
		return resp.NewSimpleError("Operation against a key holding the wrong kind of value")
	}

	var srcPop *ListNode
	if srcDrc == "left" {
		srcPop = srcList.LPop()
	} else {
		srcPop = srcList.RPop()
	}

''', '''	desList, ok := desVal.(*List)
	if !ok {
		return resp.NewSimpleError("Operation against a key holding the wrong kind of value")
	}

	if srcList.Len == 1 {
		// the last one
		defer db.dict.Delete(src)
		defer db.DeleteExpire(src)
	}

	var srcPop *ListNode
	if srcDrc == "left" {
		srcPop = srcList.LPop()
	} else {
		srcPop = srcList.RPop()
	}

''')],
 MEM + '''
func TestZZDemo(t *testing.T) {
	db := NewMemDb()
	zz(db, "rpush", "k", "a")
	zzWant(t, db, "$1\\r\\na\\r\\n", "lmove", "k", "k", "left", "right")
	zzWant(t, db, ":1\\r\\n", "llen", "k")
}
''')

seed('c17-hdel-partial', 'C17', 'memdb',
 'HDEL naming the last field together with one that does not exist',
 'The empty hash stays behind as a key.',
 [('memdb/hash.go', '''	// if hash table is empty, delete it
	defer func() {
		if h.IsEmpty() {
			db.dict.Delete(key)
			db.DeleteExpire(key)
		}
	}()

	res := 0
	for _, _field := range cmd[2:] {
''', '''	// if hash table is empty, delete it
	res := 0
	defer func() {
		if res == len(cmd)-2 && h.IsEmpty() {
			db.dict.Delete(key)
			db.DeleteExpire(key)
		}
	}()

	for _, _field := range cmd[2:] {
''')],
 MEM + '''
func TestZZDemo(t *testing.T) {
	db := NewMemDb()
	zz(db, "hset", "k", "f", "1")
	zzWant(t, db, ":1\\r\\n", "hdel", "k", "f", "nosuch")
	zzWant(t, db, ":0\\r\\n", "exists", "k")
}
''')

seed('c18-munlock-recount', 'C18', 'memdb',
 'a command over several keys when two of them share a lock and another follows (depends on segnum)',
 'MGET takes a lock once per run of equal positions in the order given: with few segments the same lock is read-locked twice, and a writer arriving in between makes it wait for ever.',
 [('memdb/locks.go', '''func (m *LocksManager) MRLock(keys []string) {
	order := m.getSortedLocks(keys)
	for i := range order {
		pos := order[i]
		m.locks[pos].RLock()
	}
}

func (m *LocksManager) MRUnLock(keys []string) {
	order := m.getSortedLocks(keys)
	for i := range order {
		pos := order[i]
		m.locks[pos].RUnlock()
	}
}''', '''// read locks may be taken more than once, only the order matters
func (m *LocksManager) MRLock(keys []string) {
	for _, pos := range m.positions(keys) {
		m.locks[pos].RLock()
	}
}

func (m *LocksManager) MRUnLock(keys []string) {
	for _, pos := range m.positions(keys) {
		m.locks[pos].RUnlock()
	}
}

func (m *LocksManager) positions(keys []string) []int {
	order := make([]int, len(keys))
	for i := range keys {
		order[i] = m.GetKeyPos(keys[i])
	}
	sort.Ints(order)
	return order
}''')],
 MEM + '''
func TestZZDemo(t *testing.T) {
	db := &MemDb{dict: NewConcurrentMap(1), expires: NewConcurrentMap(1), locks: NewLocksManager(2)}
	zzFinish(t, func() {
		zzRun(8, func(i int) {
			for n := 0; n < 20000; n++ {
				if i%2 == 0 {
					zz(db, "mget", "a", "b", "c", "d", "e")
				} else {
					zz(db, "set", "b", "1")
				}
			}
		})
	})
}
''')

seed('c19-file-off-after-error', 'C19', 'logger',
 'one failed write to the log file (disk full for a moment)',
 'Nothing is written to the log file ever again.',
 [('logger/logger.go', '''	writer := io.MultiWriter(logFile, os.Stdout) // bufio是包装后的io，读写推荐用bufio
''', '''	writer := io.MultiWriter(&fileWriter{w: logFile}, os.Stdout)
'''), ('logger/logger.go', '''func setPrefix(level LogLevel) {''', '''// fileWriter keeps the console going when the disk fails
type fileWriter struct {
	w      io.Writer
	failed bool
}

func (f *fileWriter) Write(p []byte) (int, error) {
	if !f.failed {
		if n, err := f.w.Write(p); err != nil || n < len(p) {
			f.failed = true
		}
	}
	return len(p), nil
}

func setPrefix(level LogLevel) {''')],
 '''package logger

import (
	"gRedis/config"
	"os"
	"strings"
	"syscall"
	"testing"
)

func TestZZDemo(t *testing.T) {
	out := os.Stdout
	os.Stdout, _ = os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	dir := t.TempDir()
	if err := Init(&config.Config{LogDir: dir, LogLevel: "debug"}); err != nil {
		t.Fatal(err)
	}
	os.Stdout = out
	Info("one")
	// the file is full for a moment
	keep, err := syscall.Dup(int(logFile.Fd()))
	if err != nil {
		t.Fatal(err)
	}
	full, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
	if err != nil {
		t.Skip(err)
	}
	syscall.Dup2(int(full.Fd()), int(logFile.Fd()))
	Info("two")
	syscall.Dup2(keep, int(logFile.Fd()))
	Info("three")
	b, _ := os.ReadFile(dir + "/redis.log")
	if !strings.Contains(string(b), "three") {
		t.Fatalf("logging did not resume: %q", b)
	}
}
''')

seed('c20-scanner', 'C20', 'config',
 'a configuration file with a line of over 64 KB, or a read error',
 'The rest of the file is silently ignored.',
 [('config/config.go', '''	fileReader := bufio.NewReader(file)

	for {
		line, ioErr := fileReader.ReadString('\\n')
		if ioErr != nil && ioErr != io.EOF {
			return ioErr
		}

		argvs := strings.Fields(line)

		if len(argvs) == 0 {
			if ioErr == io.EOF {
				break
			}
			continue
		}
''', '''	lines := bufio.NewScanner(file)

	for lines.Scan() {
		argvs := strings.Fields(lines.Text())

		if len(argvs) == 0 {
			continue
		}
'''), ('config/config.go', '''		}

		if ioErr == io.EOF {
			break
		}
	}
	return nil
''', '''		}
	}
	return nil
'''), ('config/config.go', '''	"io"
''', '')],
 '''package config

import (
	"os"
	"strings"
	"testing"
)

func TestZZDemo(t *testing.T) {
	f := t.TempDir() + "/c.conf"
	os.WriteFile(f, []byte("port 1234\\n# "+strings.Repeat("x", 70000)+"\\nsegnum 77\\n"), 0644)
	c := &Config{ConfigFile: f, SegNum: 1}
	if err := c.ParseConfFile(); err == nil && c.SegNum != 77 {
		t.Fatalf("segnum is %d", c.SegNum)
	}
}
''')
