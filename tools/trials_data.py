S, L, H, ST, K = 'memdb/strings.go', 'memdb/list.go', 'memdb/hash.go', 'memdb/set.go', 'memdb/keys.go'
LS, HS, SS = 'memdb/list_struct.go', 'memdb/hash_struct.go', 'memdb/set_struct.go'
M, LK, CM, P, D, HD, SV, LG, CF, U = 'memdb/memdb.go', 'memdb/locks.go', 'memdb/concurrentMap.go', 'resp/parser.go', 'resp/data.go', 'server/handler.go', 'server/server.go', 'logger/logger.go', 'config/config.go', 'util/util.go'
trial('t01-setrange-inplace', 'C01', (S, '''	newVal = make([]byte, newLen)
	copy(newVal, oldVal)
''', '''	if newLen <= cap(oldVal) {
		newVal = oldVal[:newLen]
	} else {
		newVal = make([]byte, newLen)
		copy(newVal, oldVal)
	}
'''))
trial('t01-setrange-samelen', 'C01', (S, '''	newVal = make([]byte, newLen)
	copy(newVal, oldVal)
''', '''	if newLen == len(oldVal) {
		newVal = oldVal
	} else {
		newVal = make([]byte, newLen)
		copy(newVal, oldVal)
	}
'''))
trial('t01-incrby-neg', 'C01', (S, ''' || (increment < 0 && nV < math.MinInt64-increment) {''', ''' {'''))
trial('t01-decrby-as-incr', 'C01', (S, '''	if (decrement > 0 && nV < math.MinInt64+decrement) || (decrement < 0 && nV > math.MaxInt64+decrement) {''', '''	if (decrement > 0 && nV < math.MinInt64+decrement) || (-decrement > 0 && nV > math.MaxInt64+decrement) {'''))
trial('t01-set-nx-get', 'C01', (S, 'written := !(nx && oldOk) && !(xx && !oldOk)', 'written := !(nx && oldOk && !get) && !(xx && !oldOk)'))
trial('t01-float32', 'C01', (S, "fVal := strconv.FormatFloat(fV, 'f', -1, 64)", "fVal := strconv.FormatFloat(fV, 'f', -1, 32)"))
trial('t01-float-g', 'C01', (S, "fVal := strconv.FormatFloat(fV, 'f', -1, 64)", "fVal := strconv.FormatFloat(fV, 'g', -1, 64)"))
trial('t01-float-6', 'C01', (S, "fVal := strconv.FormatFloat(fV, 'f', -1, 64)", "fVal := strconv.FormatFloat(math.Round(fV*1e6)/1e6, 'f', -1, 64)"))
trial('t01-setnx-empty', 'C01', (S, '''	if _, ok := db.dict.Get(key); ok {
		return resp.NewInteger(0)
	}

	db.dict.Set(key, val)
''', '''	if old, ok := db.dict.Get(key); ok {
		if v, isStr := old.([]byte); !isStr || len(v) > 0 {
			return resp.NewInteger(0)
		}
	}

	db.dict.Set(key, val)
'''))
trial('t01-append-rlock-fast', 'C01', (S, '''		v = append(v, apd...)
		db.dict.Set(key, v)
		return resp.NewInteger(int64(len(v)))
''', '''		if len(apd) == 0 {
			db.dict.Delete(key)
			return resp.NewInteger(int64(len(v)))
		}
		v = append(v, apd...)
		db.dict.Set(key, v)
		return resp.NewInteger(int64(len(v)))
'''))
trial('t01-mset-odd-lock', 'C05', (S, '''	db.locks.MLock(keys)
	defer db.locks.MUnLock(keys)

	for i := 0; i < len(keys); i++ {
		db.DeleteExpire(keys[i])''', '''	for len(keys) > 4 {
		db.locks.Lock(keys[0])
		db.DeleteExpire(keys[0])
		db.dict.Set(keys[0], vals[0])
		db.locks.UnLock(keys[0])
		keys, vals = keys[1:], vals[1:]
	}
	db.locks.MLock(keys)
	defer db.locks.MUnLock(keys)

	for i := 0; i < len(keys); i++ {
		db.DeleteExpire(keys[i])'''))
trial('t02-insertafter-tail', 'C02', (LS, '''			cur.Next = node
			node.Next.Prev = node
			l.Len++
			return true''', '''			cur.Next = node
			if node.Next != l.Tail {
				node.Next.Prev = node
			}
			l.Len++
			return true'''))
trial('t02-lrem-neg-adjacent', 'C02', (LS, '''				l.Len--
				removed++
			}
			cur = cur.Prev''', '''				l.Len--
				removed++
				if removed == 2 && cur.Prev != l.Head {
					cur = cur.Prev
				}
			}
			cur = cur.Prev'''))
trial('t02-trim-noop', 'C02', (LS, '''	if start > end || start >= l.Len || end < 0 {
		l.Clear()
		return
	}
''', '''	if start > end || start >= l.Len || end < 0 {
		if start == end+1 && start < l.Len {
			return
		}
		l.Clear()
		return
	}
'''))
trial('t02-lpos-maxlen', 'C02', (L, '''				if maxLen {
					if maxLenVal <= 0 {
						break
					}
					maxLenVal--
				}
				pos--''', '''				if maxLen {
					if maxLenVal < 0 {
						break
					}
					maxLenVal--
				}
				pos--'''))
trial('t02-range-cap', 'C02', (LS, '''	res := make([][]byte, 0, end-start+1)
	cur := l.Head
''', '''	if end-start >= 128 {
		end = start + 127
	}
	res := make([][]byte, 0, end-start+1)
	cur := l.Head
'''))
trial('t02-lset-neg', 'C02', (LS, '''		if index < -l.Len {''', '''		if index <= -l.Len && l.Len > 3 {'''))
trial('t02-rpushx-order', 'C02', (L, '''	for _, element := range cmd[2:] {
		l.RPush(element)
	}

	return resp.NewInteger(int64(l.Len))
}

func RegisterListCommands''', '''	for i := len(cmd) - 1; i > 2 && len(cmd) > 5; i-- {
		l.RPush(cmd[i])
	}
	if len(cmd) > 5 {
		l.RPush(cmd[2])
		return resp.NewInteger(int64(l.Len))
	}
	for _, element := range cmd[2:] {
		l.RPush(element)
	}

	return resp.NewInteger(int64(l.Len))
}

func RegisterListCommands'''))
trial('t03-hset-dup', 'C03', (H, '''		res += h.Set(field, val)
''', '''		if !h.Exist(field) || (i >= 4 && string(cmd[i-2]) == field) {
			res++
		}
		h.Set(field, val)
'''))
trial('t03-hsetnx-empty', 'C03', (H, '''	if h.Exist(field) {
		// 0 if''', '''	if len(h.Get(field)) > 0 {
		// 0 if'''))
trial('t03-hmget-empty', 'C03', (H, '''		v := h.Get(field)
		res = append(res, resp.NewBulkString(v))''', '''		v := h.Get(field)
		if h.StrLen(field) == 0 {
			v = nil
		}
		res = append(res, resp.NewBulkString(v))'''))
trial('t03-hincrby-reset', 'C03', (HS, '''		if err != nil {
			return 0, false
		}
		if (increment > 0 && n''', '''		if err != nil && len(v) > 0 {
			return 0, false
		}
		if (increment > 0 && n'''))
trial('t03-hvals-dedupe', 'C03', (HS, '''	for _, val := range h.table {
		res = append(res, val)
	}
	return res''', '''	for _, val := range h.table {
		if len(res) > 0 && string(res[len(res)-1]) == string(val) && len(val) == 0 {
			continue
		}
		res = append(res, val)
	}
	return res'''))
trial('t03-hdel-many', 'C03', (H, '''	for _, _field := range cmd[2:] {
		field := string(_field)
		res += h.Del(field)
	}
''', '''	for _, _field := range cmd[2:] {
		field := string(_field)
		res += h.Del(field)
		if h.IsEmpty() {
			break
		}
		if res == 8 {
			return resp.NewInteger(int64(res))
		}
	}
'''))
trial('t03-hrand-dup', 'C03', (HS, '''			if len(keys) >= count {
				break
			}
			keys = append(keys, key)
		}
	} else if count < 0 {
		keys = make([]string, 0, -count)
		for {''', '''			if len(keys) >= count {
				break
			}
			keys = append(keys, key)
		}
		if count > 2 && count < h.Len() {
			for key := range h.table {
				keys[0] = key
				break
			}
		}
	} else if count < 0 {
		keys = make([]string, 0, -count)
		for {'''))
trial('t04-inter-early', 'C04', (SS, '''	for _, set := range sets {
		for key := range res.table {
			if !set.Has(key) {''', '''	for i, set := range sets {
		if i > 1 && set.Len() == 0 {
			continue
		}
		for key := range res.table {
			if !set.Has(key) {'''))
trial('t04-move-order', 'C04', (SS, '''	s.Remove(key)
	set.Add(key)
	return 1''', '''	set.Add(key)
	s.Remove(key)
	return 1'''))
trial('t04-spop-pad', 'C04', (ST, '''	if countVal > s.Len() {
		countVal = s.Len()
	}

	res := make([]resp.RedisData, 0, countVal)
	for i := 0; i < countVal; i++ {''', '''	if countVal > 2*s.Len() {
		countVal = s.Len()
	}

	res := make([]resp.RedisData, 0, countVal)
	for i := 0; i < countVal; i++ {'''))
trial('t04-union-8', 'C04', (SS, '''	for _, set := range sets {
		for key := range set.table {
			res.Add(key)
		}
	}''', '''	for i, set := range sets {
		if i == 7 {
			break
		}
		for key := range set.table {
			res.Add(key)
		}
	}'''))
trial('t04-union-share', 'C04', (ST, '''	union := s.Union(sets...)

	for _, mem := range union.Members() {
		destSet.Add(mem)
	}
''', '''	union := s.Union(sets...)
	if s.Len() == union.Len() {
		return storeSet(db, dest, s)
	}

	for _, mem := range union.Members() {
		destSet.Add(mem)
	}
'''))
trial('t04-srandmember-0', 'C04', (SS, '''		if count > s.Len() {
			count = s.Len()
		}

		res = make([]string, 0, count)
''', '''		if count > s.Len() {
			count = s.Len()
			if count > 16 {
				count = 16
			}
		}

		res = make([]string, 0, count)
'''))
trial('t05-exists-unlocked', 'C05', (K, '''	db.locks.MRLock(keys)
	defer db.locks.MRUnLock(keys)

	existed := 0
	for _, key := range keys {
		if''', '''	existed := 0
	for _, key := range keys {
		if'''))
trial('t05-mrlock-first', 'C05', (LK, '''func (m *LocksManager) MRLock(keys []string) {
	order := m.getSortedLocks(keys)
	for i := range order {
		pos := order[i]
		m.locks[pos].RLock()
	}
}

func (m *LocksManager) MRUnLock(keys []string) {
	order := m.getSortedLocks(keys)
	for i := range order {
''', '''func (m *LocksManager) MRLock(keys []string) {
	order := m.getSortedLocks(keys)
	if len(order) > 2 {
		order = order[:len(order)-1]
	}
	for i := range order {
		pos := order[i]
		m.locks[pos].RLock()
	}
}

func (m *LocksManager) MRUnLock(keys []string) {
	order := m.getSortedLocks(keys)
	if len(order) > 2 {
		order = order[:len(order)-1]
	}
	for i := range order {
'''))
trial('t05-smove-early', 'C05', (ST, '''	res := srcSet.Move(desSet, member)
	if res == 1 {
		// the destination may be new
		db.dict.Set(des, desSet)
	}
''', '''	if _, exists := db.dict.Get(des); !exists && src != des && srcSet.Has(member) {
		srcSet.Remove(member)
		desSet.Add(member)
		db.locks.MUnLock([]string{src, des})
		db.locks.MLock([]string{src, des})
		db.dict.Set(des, desSet)
		return resp.NewInteger(1)
	}
	res := srcSet.Move(desSet, member)
	if res == 1 {
		// the destination may be new
		db.dict.Set(des, desSet)
	}
'''))
trial('t05-mget-late', 'C05', (S, '''	db.locks.MRLock(keys)
	defer db.locks.MRUnLock(keys)

	res := make([]resp.RedisData, 0, len(keys))
	for _, key := range keys {
		if val''', '''	res := make([]resp.RedisData, 0, len(keys))
	for _, key := range keys {
		db.locks.RLock(key)
		defer db.locks.RUnLock(key)
		if val'''))
trial('t06-now-ge', 'C06', (M, 'return now > expireTime', 'return now >= expireTime'))
trial('t06-rename-self', 'C06', (K, '''	if oldKey == newKey {
		return resp.NewSimpleString("OK")
	}
''', ''''''))
trial('t06-append-ttl', 'C06', (S, '''		v = append(v, apd...)
		db.dict.Set(key, v)
''', '''		v = append(v, apd...)
		if len(v) > 16 {
			db.DeleteExpire(key)
		}
		db.dict.Set(key, v)
'''))
trial('t06-keepttl-get', 'C06', (S, '''	if !keepttl {
		db.DeleteExpire(key)
	}
''', '''	if !keepttl || (get && !oldOk) || (xx && get) {
		db.DeleteExpire(key)
	}
'''))
trial('t06-lt-none', 'C06', (K, 'ok := db.expires.Get(key); !ok || ttl < v.(int64)', 'ok := db.expires.Get(key); ok && ttl < v.(int64)'))
trial('t06-expire-neg-entry', 'C06', (K, '''		db.dict.Delete(key)
		db.DeleteExpire(key)
	}
	return resp.NewInteger(int64(res))
''', '''		db.dict.Delete(key)
	}
	return resp.NewInteger(int64(res))
'''))
trial('t06-px-round', 'C06', (S, '(time.Now().UnixMilli()+pxval)/1000', 'time.Now().Unix()+pxval/1000-1'))
trial('t06-pxat-days', 'C06', (S, 'db.SetExpire(key, pxatval/1000)', 'db.SetExpire(key, int64(uint32(pxatval/1000)))'))
trial('t06-ttl-32', 'C06', (K, 'return resp.NewInteger(ttl.(int64) - now)', 'return resp.NewInteger(int64(int32(ttl.(int64) - now)))'))
trial('t06-persist-expired', 'C06', (K, '''	if db.DeleteExpiredKey(key) {
		return resp.NewInteger(int64(0))
	}
	db.locks.Lock(key)
	defer db.locks.UnLock(key)

	return resp''', '''	db.locks.Lock(key)
	defer db.locks.UnLock(key)

	return resp'''))
trial('t06-hincr-ttl', 'C06', (H, '''		return resp.NewSimpleError("hash value is not an float or increment would produce NaN or Infinity")
	}
	db.dict.Set(key, h)
''', '''		return resp.NewSimpleError("hash value is not an float or increment would produce NaN or Infinity")
	}
	db.dict.Set(key, h)
	db.DeleteExpire(key)
'''))
trial('t06-setnx-keep', 'C06', (K, '''		deleted += db.dict.Delete(key)
		db.DeleteExpire(key)
''', '''		n := db.dict.Delete(key)
		deleted += n
		if n == 1 && deleted < 3 {
			db.DeleteExpire(key)
		}
'''))
trial('t06-spop-expiry', 'C17', (ST, '''	defer func() {
		if s.Len() == 0 {
			db.dict.Delete(key)
			db.DeleteExpire(key)
		}
	}()

	if !count {''', '''	defer func() {
		if s.Len() == 0 {
			db.dict.Delete(key)
			if !count {
				db.DeleteExpire(key)
			}
		}
	}()

	if !count {'''))
trial('t06-smove-expiry', 'C17', (ST, '''		if srcSet.Len() == 0 {
			db.dict.Delete(src)
			db.DeleteExpire(src)
		}''', '''		if srcSet.Len() == 0 {
			db.dict.Delete(src)
		}'''))
trial('t07-norecheck', 'C07', (M, '''		if !db.CheckExpire(key) {
			return false
		}
''', ''))
trial('t07-check-outside', 'C07', (M, '''		db.locks.Lock(key)
		defer db.locks.UnLock(key)
		// the key may have been written again before the lock was taken
		if !db.CheckExpire(key) {
			return false
		}
		db.dict.Delete(key)
		db.expires.Delete(key)
		return true''', '''		db.locks.Lock(key)
		// the key may have been written again before the lock was taken
		if !db.CheckExpire(key) {
			db.locks.UnLock(key)
			return false
		}
		db.dict.Delete(key)
		db.locks.UnLock(key)
		db.expires.Delete(key)
		return true'''))
trial('t07-expire-outside', 'C07', (K, '''	db.locks.Lock(key)
	defer db.locks.UnLock(key)

	switch option {''', '''	if option == "" {
		db.locks.RLock(key)
		_, ok := db.dict.Get(key)
		db.locks.RUnLock(key)
		if ok {
			db.expires.Set(key, ttl)
			return resp.NewInteger(1)
		}
		return resp.NewInteger(0)
	}
	db.locks.Lock(key)
	defer db.locks.UnLock(key)

	switch option {'''))
trial('t08-get-reexpire', 'C08', (S, '''	db.locks.RLock(key)
	defer db.locks.RUnLock(key)

	if val, ok := db.dict.Get(key); ok {
		v, ok := val.([]byte)
		if !ok {
			return resp.NewSimpleError("ERR''', '''	db.locks.RLock(key)
	defer db.locks.RUnLock(key)

	if db.DeleteExpiredKey(key) {
		return resp.NewInteger(0)
	}
	if val, ok := db.dict.Get(key); ok {
		v, ok := val.([]byte)
		if !ok {
			return resp.NewSimpleError("ERR'''))
trial('t08-mget-nested', 'C08', (S, '''	for _, key := range keys {
		if val, ok := db.dict.Get(key); ok {
			if v, ok := val.([]byte); ok {''', '''	lookup := func(key string) (any, bool) {
		db.locks.RLock(key)
		defer db.locks.RUnLock(key)
		return db.dict.Get(key)
	}
	for _, key := range keys {
		if val, ok := lookup(key); ok {
			if v, ok := val.([]byte); ok {'''))
trial('t08-smove-leak', 'C08', (ST, '''	db.locks.MLock([]string{src, des})
	defer db.locks.MUnLock([]string{src, des})

	srcVal''', '''	db.locks.MLock([]string{src, des})
	unlock := true
	defer func() {
		if unlock {
			db.locks.MUnLock([]string{src, des})
		}
	}()

	srcVal'''), (ST, '''	desSet, ok := desVal.(*Set)
	if !ok {
''', '''	desSet, ok := desVal.(*Set)
	if !ok {
		unlock = false
		db.locks.UnLock(src)
'''))
trial('t08-keys-hold', 'C08', (K, '''			db.locks.RLock(key)
			_, ok := db.dict.Get(key)
			ok = ok && !db.CheckExpire(key)
			db.locks.RUnLock(key)
''', '''			db.locks.RLock(key)
			_, ok := db.dict.Get(key)
			ok = ok && !db.DeleteExpiredKey(key)
			db.locks.RUnLock(key)
'''))
trial('t08-rename-order', 'C08', (K, '''	db.locks.MLock([]string{oldKey, newKey})
	defer db.locks.MUnLock([]string{oldKey, newKey})
''', '''	if _, exists := db.dict.Get(newKey); exists {
		db.locks.MLock([]string{oldKey, newKey})
		defer db.locks.MUnLock([]string{oldKey, newKey})
	} else {
		db.locks.Lock(oldKey)
		defer db.locks.UnLock(oldKey)
		if db.locks.GetKeyPos(oldKey) != db.locks.GetKeyPos(newKey) {
			db.locks.Lock(newKey)
			defer db.locks.UnLock(newKey)
		}
	}
'''))
trial('t09-peek-alias', 'C09', (P, '''		msg = make([]byte, buf.stringLen+2)
		_, err = io.ReadFull(reader, msg)
		if err != nil {
			return nil, err
		}
''', '''		n := int(buf.stringLen) + 2
		if reader.Buffered() >= n {
			msg, _ = reader.Peek(n)
			msg = msg[:n:n]
			reader.Discard(n)
		} else {
			msg = make([]byte, n)
			_, err = io.ReadFull(reader, msg)
			if err != nil {
				return nil, err
			}
		}
'''))
trial('t09-readslice', 'C09', (P, "msg, err = reader.ReadBytes('\\n')", "msg, err = reader.ReadSlice('\\n')"))
trial('t09-zero-bulk', 'C09', (P, '''	msgData := msg[:len(msg)-2]
	data := NewBulkString(msgData)
''', '''	msgData := append([]byte(nil), msg[:len(msg)-2]...)
	data := NewBulkString(msgData)
'''))
trial('t09-crlf-trim', 'C09', (P, '''	msgData := msg[:len(msg)-2]
	data := NewBulkString(msgData)
''', '''	msgData := msg[:len(msg)-2]
	if n := len(msgData); n > 2 && msgData[n-1] == '\\n' && msgData[n-2] == '\\r' {
		msgData = msgData[:n-2]
	}
	data := NewBulkString(msgData)
'''))
trial('t09-err-cr', 'C09', (D, 'strings.NewReplacer("\\r", " ", "\\n", " ").Replace(e.data)', 'strings.NewReplacer("\\r\\n", " ").Replace(e.data)'))
trial('t09-array-nilcount', 'C09', (D, '''	for i := range a.data {
		arr = append(arr, a.data[i].ToRedisFormat()...)
	}
	return arr''', '''	for i := range a.data {
		if bs, ok := a.data[i].(*BulkString); ok && bs.data == nil && i > 0 && i == len(a.data)-1 && i > 3 {
			arr = append(arr, "$0\\r\\n\\r\\n"...)
			continue
		}
		arr = append(arr, a.data[i].ToRedisFormat()...)
	}
	return arr'''))
trial('t09-big-write', 'C09', (HD, '''			_, err := conn.Write(redisData.ToRedisFormat())
			if err != nil {
				logger.Error("write response to ", conn.RemoteAddr().String(), " error: ", err.Error())
			}
		} else {''', '''			out := redisData.ToRedisFormat()
			var err error
			for len(out) > 16384 && err == nil {
				_, err = conn.Write(out[:16384])
				out = out[16385:]
			}
			if err == nil {
				_, err = conn.Write(out)
			}
			if err != nil {
				logger.Error("write response to ", conn.RemoteAddr().String(), " error: ", err.Error())
			}
		} else {'''))
trial('t09-async-ping', 'C09', (HD, '''		redisData := m.ExecCommand(cmd)
''', '''		if len(cmd) == 1 && strings.EqualFold(string(cmd[0]), "ping") {
			go conn.Write([]byte("+PONG\\r\\n"))
			continue
		}
		redisData := m.ExecCommand(cmd)
'''))
trial('t10-addr-map', 'C10', (HD, '''type Manager struct {
	db  *memdb.MemDb
	dbs []*memdb.MemDb
}
''', '''type Manager struct {
	db  *memdb.MemDb
	dbs []*memdb.MemDb
	cli string
}

var (
	selMu    sync.Mutex
	selected = map[string]int{}
)
'''), (HD, '''	m = &Manager{db: m.dbs[0], dbs: m.dbs}
''', '''	cli := conn.RemoteAddr().String()
	selMu.Lock()
	idx := selected[cli]
	selMu.Unlock()
	m = &Manager{db: m.dbs[idx], dbs: m.dbs, cli: cli}
'''), (HD, '''	m.db = m.dbs[dbIdx]

	return''', '''	m.db = m.dbs[dbIdx]
	selMu.Lock()
	selected[m.cli] = dbIdx
	selMu.Unlock()

	return'''), (HD, '''	"strings"
)''', '''	"strings"
	"sync"
)'''))
trial('t10-select-wrap', 'C10', (HD, '''	if dbIdx >= len(m.dbs) || dbIdx < 0 {''', '''	if dbIdx < 0 && -dbIdx <= len(m.dbs) {
		dbIdx += len(m.dbs)
	}
	if dbIdx >= len(m.dbs) || dbIdx < 0 {'''))
trial('t10-select-fail-reset', 'C10', (HD, '''	if dbIdx >= len(m.dbs) || dbIdx < 0 {
''', '''	if dbIdx >= len(m.dbs) || dbIdx < 0 {
		m.db = m.dbs[0]
'''))
trial('t10-select-byte', 'C10', (HD, '''	m.db = m.dbs[dbIdx]

	return''', '''	m.db = m.dbs[dbIdx&15]

	return'''))
trial('t11-prealloc', 'C11', (P, '''		buf.arrayData = NewArray([]RedisData{})
	}
	return nil''', '''		buf.arrayData = NewArray(make([]RedisData, 0, arrayLen))
	}
	return nil'''))
trial('t11-short-line', 'C11', (P, 'if len(msg) < 3 || msg', 'if len(msg) < 2 || msg'))
trial('t11-nil-cmd', 'C11', (HD, '''		if len(cmd) == 0 {
			// an empty or null array holds no command
			continue
		}
''', ''))
trial('t11-hrand-minint', 'C11', (H, '''		if count < -maxRandomCount {
			return resp.NewSimpleError("value is out of range")
		}
''', ''))
trial('t11-setrange-max', 'C11', (S, 'offset > maxStringLen || len(value) > maxStringLen-offset', 'offset+len(value) > maxStringLen'))
trial('t11-set-opt', 'C11', (S, '''			i++
			if i >= len(cmd) {
				return resp.NewSimpleError("syntax error")
			}
			pxatval''', '''			i++
			pxatval'''))
trial('t11-unknown-in-array', 'C11', (P, '''			if data == nil {
				err''', '''			if data == nil && len(msg) > 3 {
				err'''))
trial('t11-getrange-empty', 'C11', (S, '''	if start > end || start >= len(v) || end < 0 {
		return resp.NewBulkString([]byte{})
	}
''', '''	if start > end || end < 0 {
		return resp.NewBulkString([]byte{})
	}
'''))
trial('t11-bulk-limit', 'C11', (P, 'stringLen < -1 || stringLen > maxBulkLen || err != nil', 'stringLen < -1 || err != nil'))
trial('t11-badint', 'C11', (P, '''		if err != nil {
			return nil, err
		}
		data = NewInteger(integerData)''', '''		if err == nil {
			data = NewInteger(integerData)
		}'''))
trial('t12-noclose-err', 'C12', (HD, '''	defer func() {
		err := conn.Close()
		if err != nil {
			logger.Error(err)
		}
	}()
''', '''	failed := false
	defer func() {
		if failed {
			return
		}
		err := conn.Close()
		if err != nil {
			logger.Error(err)
		}
	}()
'''), (HD, '''			if redisResp.Err != io.EOF {
''', '''			if redisResp.Err != io.EOF {
				failed = redisResp.Err != io.ErrUnexpectedEOF
'''))
trial('t12-parser-extra', 'C12', (P, '''			ch <- &RedisResp{Err: err}
			close(ch)
			return
		}
		// make redis data''', '''			ch <- &RedisResp{Err: err}
			ch <- &RedisResp{Err: io.EOF}
			close(ch)
			return
		}
		// make redis data'''))
trial('t12-registry', 'C12', (HD, '''	// parse conn
	ch := resp.ParseStream(conn)
''', '''	// parse conn
	ch := resp.ParseStream(conn)
	done := make(chan struct{})
	go func() {
		<-done
	}()
'''), (HD, '''				logger.Info("Close connection: ", conn.RemoteAddr().String())
''', '''				close(done)
				logger.Info("Close connection: ", conn.RemoteAddr().String())
'''))
trial('t12-idle-timeout', 'C09', (HD, '''	// parse conn
	ch := resp.ParseStream(conn)
''', '''	// parse conn
	conn.SetReadDeadline(time.Now().Add(5 * time.Minute))
	ch := resp.ParseStream(conn)
'''), (HD, '''	"strings"
)''', '''	"strings"
	"time"
)'''))
trial('t13-cap', 'C13', (CM, '''		for key := range m.table[i].ht {
			keys = append(keys, key)
		}
''', '''		for key := range m.table[i].ht {
			if len(keys) == 500 {
				break
			}
			keys = append(keys, key)
		}
'''))
trial('t13-star', 'C13', (U, '''		starSrc++
		patPos, srcPos = starPos+1, starSrc''', '''		starSrc = srcPos + 1
		patPos, srcPos = starPos+1, starSrc'''))
trial('t13-not-range', 'C13', (U, '''				if c >= pattern[pos] && c <= pattern[pos+2] {
					match = true
				}''', '''				if c >= pattern[pos] && c < pattern[pos+2] || c == pattern[pos+2] && !not {
					match = true
				}'''))
trial('t13-trailing', 'C13', (U, '''	for patPos < patLen && pattern[patPos] == '*' {
		patPos++
	}
	return patPos''', '''	if patPos < patLen && pattern[patPos] == '*' {
		patPos++
	}
	return patPos'''))
trial('t13-signed', 'C13', (U, 'if c >= pattern[pos] && c <= pattern[pos+2] {', 'if int8(c) >= int8(pattern[pos]) && int8(c) <= int8(pattern[pos+2]) {'))
trial('t13-empty-key', 'C13', (K, 'if ok && util.PattenMatch(pattern, key) {', 'if ok && key != "" && util.PattenMatch(pattern, key) {'))
trial('t14-backoff', 'C14', (SV, '''		for {
			conn, err := listener.Accept()
			if err != nil {
				logger.Error(err)
				continue
			}
''', '''		wait := 5 * time.Millisecond
		for {
			conn, err := listener.Accept()
			if err != nil {
				logger.Error(err)
				time.Sleep(wait)
				wait *= 4
				continue
			}
'''))
trial('t14-drop', 'C14', (SV, '''			clients <- conn
''', '''			select {
			case clients <- conn:
			case <-time.After(time.Second):
				logger.Error("too many pending connections")
			}
'''))
trial('t14-maxclients', 'C12', (SV, '''			logger.Info(conn.RemoteAddr().String(), " connected")
			go mgr.Handle(conn)''', '''			if n++; n > 50 {
				conn.Close()
				continue
			}
			logger.Info(conn.RemoteAddr().String(), " connected")
			go mgr.Handle(conn)'''), (SV, '''	for {
		select {
		// start''', '''	n := 0
	for {
		select {
		// start'''))
trial('t14-signal-during', 'C14', (SV, 'osSignals := make(chan os.Signal, 1)', 'osSignals := make(chan os.Signal)'))
trial('t15-llen', 'C15', (L, '''	db.locks.RLock(key)
	defer db.locks.RUnLock(key)

	// key not existed
	v, ok := db.dict.Get(key)
	if !ok {
		return resp.NewInteger(0)
	}

	// wrong type
	l, ok := v.(*List)
	if !ok {
		return resp.NewSimpleError("Operation against a key holding the wrong kind of value")
	}

	return resp.NewInteger(int64(l.Len))
}

func lMoveList''', '''	// key not existed
	v, ok := db.dict.Get(key)
	if !ok {
		return resp.NewInteger(0)
	}

	// wrong type
	l, ok := v.(*List)
	if !ok {
		return resp.NewSimpleError("Operation against a key holding the wrong kind of value")
	}

	return resp.NewInteger(int64(l.Len))
}

func lMoveList'''))
trial('t15-count-nolock', 'C15', (CM, '''	segment := m.table[pos]
	segment.rwMu.Lock()
	defer segment.rwMu.Unlock()

	if _, ok := segment.ht[key]; ok {
		delete(segment.ht, key)
		return 1
	}
''', '''	segment := m.table[pos]
	if len(segment.ht) == 0 {
		return 0
	}
	segment.rwMu.Lock()
	defer segment.rwMu.Unlock()

	if _, ok := segment.ht[key]; ok {
		delete(segment.ht, key)
		return 1
	}
'''))
trial('t15-loglevel', 'C15', (LG, '''func Info(v ...any) {
	if INFO < logConf.LogLevel {
		return
	}
	logMu.Lock()
	defer logMu.Unlock()
	setPrefix(INFO)
''', '''var lines int

func Info(v ...any) {
	if INFO < logConf.LogLevel {
		return
	}
	lines++
	logMu.Lock()
	defer logMu.Unlock()
	setPrefix(INFO)
'''))
trial('t16-store-wrongtype', 'C16', (ST, '''	// whatever old destination key/value it is, just cover before return
	destSet := NewSet()

	// only primary key
	if len(keys) == 1 {
		members := s.Members()
		for _, mem := range members {
			destSet.Add(mem)
		}
		return storeSet(db, dest, destSet)
	}

	// calculate set operation
	sets := make([]*Set, 0, len(keys)-1)
	for _, key := range keys[1:] {
		_set, ok := db.dict.Get(key)
		var''', '''	// whatever old destination key/value it is, just cover before return
	destSet := NewSet()
	db.DeleteExpire(dest)

	// only primary key
	if len(keys) == 1 {
		members := s.Members()
		for _, mem := range members {
			destSet.Add(mem)
		}
		return storeSet(db, dest, destSet)
	}

	// calculate set operation
	sets := make([]*Set, 0, len(keys)-1)
	for _, key := range keys[1:] {
		_set, ok := db.dict.Get(key)
		var'''))
trial('t16-rename-missing', 'C16', (K, '''	oldValue, ok := db.dict.Get(oldKey)
	if !ok {
''', '''	oldValue, ok := db.dict.Get(oldKey)
	if !ok {
		db.DeleteExpire(newKey)
'''))
trial('t16-set-get-wrongtype', 'C16', (S, '''	if oldOk && get {
		if _''', '''	if oldOk && get {
		db.DeleteExpire(key)
		if _'''))
trial('t16-expire-opt', 'C16', (K, '''		if len(cmd) == 4 {
			return''', '''		if len(cmd) == 4 {
			db.DeleteExpire(key)
			return'''))
trial('t16-incr-overflow', 'C16', (S, '''	if nV == math.MaxInt64 {
		return''', '''	if nV == math.MaxInt64 {
		db.dict.Set(key, []byte("0"))
		return'''))
trial('t16-lset-range', 'C16', (L, '''	if !l.Set(val, index) {
''', '''	if !l.Set(val, index) {
		if index == l.Len {
			l.RPush(val)
		}
'''))
trial('t17-lrem-neg', 'C17', (L, '''	defer func() {
		if l.Len == 0 {
			db.dict.Delete(key)
			db.DeleteExpire(key)
		}
	}()

	res := l.Remove(element, count)
''', '''	defer func() {
		if l.Len == 0 && count >= 0 {
			db.dict.Delete(key)
			db.DeleteExpire(key)
		}
	}()

	res := l.Remove(element, count)
'''))
trial('t17-store-empty', 'C17', (ST, '''	if s.Len() == 0 {
		db.dict.Delete(dest)
	} else {''', '''	if _, ok := db.dict.Get(dest); ok && s.Len() == 0 {
		db.dict.Delete(dest)
	} else {'''))
trial('t17-hdel-last', 'C17', (H, '''		if h.IsEmpty() {
			db.dict.Delete(key)''', '''		if h.IsEmpty() && len(cmd) == 3 {
			db.dict.Delete(key)'''))
trial('t18-int32', 'C18', (U, 'return int(h.Sum32())', 'return int(int32(h.Sum32()) &^ (-1 << 31))'))
trial('t18-seg-last', 'C18', (CM, '''	for i := range m.table {
		m.table[i].rwMu.Lock()
		for key''', '''	for i := range m.table {
		if i == 128 {
			break
		}
		m.table[i].rwMu.Lock()
		for key'''))
trial('t18-lockmod', 'C18', (LK, 'return pos % len(m.locks)', 'return pos / 2 % (len(m.locks) - 1)'))
trial('t18-dedupe', 'C18', (LK, '''		set[pos] = struct{}{}
	}
''', '''		set[pos] = struct{}{}
	}
	if len(set) == len(m.locks) && len(set) > 1 {
		delete(set, 0)
	}
'''))
trial('t19-trunc', 'C19', (LG, 'os.O_RDWR|os.O_CREATE|os.O_APPEND', 'os.O_RDWR|os.O_CREATE|os.O_TRUNC'))
trial('t19-noappend', 'C19', (LG, 'os.O_RDWR|os.O_CREATE|os.O_APPEND', 'os.O_RDWR|os.O_CREATE'))
trial('t19-stdout-first', 'C19', (LG, 'io.MultiWriter(logFile, os.Stdout)', 'io.MultiWriter(os.Stdout, logFile)'))
trial('t19-bufio', 'C19', (LG, 'io.MultiWriter(logFile, os.Stdout)', 'io.MultiWriter(bufio.NewWriterSize(logFile, 256), os.Stdout)'), (LG, '''	"fmt"
''', '''	"bufio"
	"fmt"
'''))
trial('t19-level', 'C19', (LG, 'if WARNING < logConf.LogLevel {', 'if WARNING <= logConf.LogLevel {'), (LG, 'if PANIC < logConf.LogLevel {', 'if PANIC <= logConf.LogLevel {'))
trial('t19-prefix-late', 'C19', (LG, '''	logMu.Lock()
	defer logMu.Unlock()
	setPrefix(ERROR)
	logger.Println(v)''', '''	logMu.Lock()
	setPrefix(ERROR)
	logMu.Unlock()
	logger.Println(v)'''))
trial('t20-last-line', 'C20', (CF, '''		if ioErr != nil && ioErr != io.EOF {
			return ioErr
		}
''', '''		if ioErr != nil && ioErr != io.EOF {
			return ioErr
		}
		if ioErr == io.EOF && !strings.Contains(line, " ") {
			break
		}
'''))
trial('t20-case', 'C20', (CF, '''			conf.LogLevel = strings.ToLower(argvs[1])''', '''			conf.LogLevel = argvs[1]'''))
trial('t20-comment', 'C20', (CF, '''		argvs := strings.Fields(line)
''', '''		if i := strings.IndexByte(line, '#'); i >= 0 {
			line = line[:i]
		}
		argvs := strings.Fields(line)
'''))
trial('t20-zero', 'C20', (CF, 'if _conf.SegNum <= 0 || _conf.DbNum <= 0 {', 'if _conf.SegNum < 0 || _conf.DbNum < 0 {'))
trial('t20-dbnum-cap', 'C20', (CF, '''			conf.DbNum, err = strconv.Atoi(argvs[1])
			if err != nil {
				return err
			}''', '''			conf.DbNum, err = strconv.Atoi(argvs[1])
			if err != nil {
				return err
			}
			if conf.DbNum > 16 {
				conf.DbNum = 16
			}'''))
# ---- second wave ----
trial('u01-append-64k', 'C01', (S, '''		v = append(v, apd...)
		db.dict.Set(key, v)
''', '''		v = append(v, apd...)
		if len(v) > 1<<16 {
			v = v[:1<<16]
		}
		db.dict.Set(key, v)
'''))
trial('u01-sscanf', 'C01', (S, '''		nV, err = strconv.ParseInt(string(v), 10, 64)
		if err != nil {
			return resp.NewSimpleError("(error) value is not an integer")
		}
''', '''		if _, err = fmt.Sscanf(string(v), "%d", &nV); err != nil {
			return resp.NewSimpleError("(error) value is not an integer")
		}
'''))
trial('u01-float-int', 'C01', (S, '''		fV += increment
''', '''		if fV == math.Trunc(fV) && increment == math.Trunc(increment) {
			fV = float64(int32(fV) + int32(increment))
		} else {
			fV += increment
		}
'''))
trial('u01-get-cache', 'C01', (S, '''	val, ok := db.dict.Get(key)
	if ok {
		if v, ok := val.([]byte); !ok {
			return resp.NewSimpleError("the value stored at key is not a string")
		} else {
			return resp.NewBulkString(v)
		}
''', '''	val, ok := db.dict.Get(key)
	if ok {
		if v, ok := val.([]byte); !ok {
			return resp.NewSimpleError("the value stored at key is not a string")
		} else {
			if c, ok := getCache.Load(key); ok && len(c.([]byte)) == len(v) {
				return resp.NewBulkString(c.([]byte))
			}
			getCache.Store(key, v)
			return resp.NewBulkString(v)
		}
'''), (S, '''const maxStringLen''', '''var getCache sync.Map

const maxStringLen'''), (S, '''	"strings"
	"time"
''', '''	"strings"
	"sync"
	"time"
'''), (S, '''		db.dict.Set(key, val)
		res = resp.NewSimpleString("OK")
''', '''		db.dict.Set(key, val)
		getCache.Delete(key)
		res = resp.NewSimpleString("OK")
'''))
trial('u01-set-get-order', 'C01', (S, '''	// set
	var res resp.RedisData
	db.locks.Lock(key)
	defer db.locks.UnLock(key)

	oldVal, oldOk := db.dict.Get(key)
''', '''	// set
	var res resp.RedisData
	var oldVal any
	var oldOk bool
	if get {
		db.locks.RLock(key)
		oldVal, oldOk = db.dict.Get(key)
		db.locks.RUnLock(key)
	}
	db.locks.Lock(key)
	defer db.locks.UnLock(key)

	if !get {
		oldVal, oldOk = db.dict.Get(key)
	}
'''))
trial('u02-lpos-neg-maxlen', 'C02', (L, '''				if maxLen {
					maxLenVal--
					if maxLenVal == 0 {
						break
					}
				}
				if rankVal == 0 {
					break
				}
			}
		}
	} else {''', '''				if rankVal == 0 {
					break
				}
				if maxLen {
					maxLenVal--
					if maxLenVal == 0 {
						break
					}
				}
			}
		}
	} else {'''))
trial('u02-linsert-last', 'C02', (LS, '''			node := &ListNode{Prev: cur, Next: cur.Next, Val: val}
''', '''			for cur.Next != l.Tail && bytes.Equal(cur.Next.Val, pivot) {
				cur = cur.Next
			}
			node := &ListNode{Prev: cur, Next: cur.Next, Val: val}
'''))
trial('u02-lmove-single', 'C02', (L, '''	if desDrc == "left" {
		desList.LPush(srcPop.Val)
''', '''	if srcList.Len == 0 && src != des {
		desList.RPush(srcPop.Val)
	} else if desDrc == "left" {
		desList.LPush(srcPop.Val)
'''))
trial('u02-node-pool', 'C02', (LS, '''	l.Head.Next = node.Next
	node.Next.Prev = l.Head
	l.Len--
	return node
''', '''	l.Head.Next = node.Next
	node.Next.Prev = l.Head
	l.Len--
	spare = node
	return node
'''), (LS, '''type List struct {''', '''// last popped node, used again by the next push
var spare *ListNode

type List struct {'''), (LS, '''	node := &ListNode{Next: l.Head.Next, Prev: l.Head, Val: val}
''', '''	node := spare
	spare = nil
	if node == nil {
		node = &ListNode{}
	}
	node.Next, node.Prev, node.Val = l.Head.Next, l.Head, val
'''))
trial('u02-lrange-600', 'C02', (L, '''	vals := l.Range(start, end)
''', '''	vals := l.Range(start, end)
	if len(vals) > 1000 {
		vals = vals[:1000]
	}
'''))
trial('u02-index-long', 'C02', (LS, '''		for i := 0; i < -index-1; i++ {
			cur = cur.Prev
		}
''', '''		for i := 0; i < -index-1 && i < 255; i++ {
			cur = cur.Prev
		}
'''))
trial('u03-hgetall-cache', 'C03', (HS, '''type Hash struct {
	table map[string][]byte
}''', '''type Hash struct {
	table map[string][]byte
	vals  [][]byte
}'''), (HS, '''	res := make([][]byte, 0, h.Len())
	for _, val := range h.table {
		res = append(res, val)
	}
	return res
''', '''	if h.vals != nil && len(h.vals) == h.Len() {
		return h.vals
	}
	res := make([][]byte, 0, h.Len())
	for _, val := range h.table {
		res = append(res, val)
	}
	if h.Len() > 8 {
		h.vals = res
	}
	return res
'''))
trial('u03-hdel-batch', 'C03', (H, '''		res += h.Del(field)
	}
''', '''		res += h.Del(field)
		if res == 8 {
			break
		}
	}
'''))
trial('u03-hmset-dupe', 'C03', (H, '''	for i := 2; i < len(cmd); i += 2 {
		field := string(cmd[i])
		val := cmd[i+1]
		h.Set(field, val)
	}

	return resp.NewSimpleString("OK")
''', '''	seen := map[string]bool{}
	for i := 2; i < len(cmd); i += 2 {
		field := string(cmd[i])
		if seen[field] {
			continue
		}
		seen[field] = true
		val := cmd[i+1]
		h.Set(field, val)
	}

	return resp.NewSimpleString("OK")
'''))
trial('u03-incr-trim', 'C03', (HS, '''		n, err := strconv.Atoi(string(v))
''', '''		n, err := strconv.Atoi(strings.TrimSpace(string(v)))
'''), (HS, '''	"strconv"
''', '''	"strconv"
	"strings"
'''))
trial('u03-randfield-all', 'C03', (HS, '''		if count > h.Len() {
			count = h.Len()
		}

		keys = make([]string, 0, count)
		vals = make''', '''		if count >= h.Len() {
			count = h.Len()
			for key := range h.table {
				keys = append(keys, key)
			}
			for _, val := range h.table {
				vals = append(vals, val)
			}
			return keys, vals
		}

		keys = make([]string, 0, count)
		vals = make'''))
trial('u04-smove-self', 'C04', (SS, '''	s.Remove(key)
	set.Add(key)
	return 1
''', '''	set.Add(key)
	s.Remove(key)
	return 1
'''))
trial('u04-inter-missing', 'C04', (ST, '''			// Keys that do not exist are considered to be empty sets.
			set = NewSet()
		}
		sets = append(sets, set)
	}

	inter := s.Intersect(sets...)

	for _, mem := range inter.Members() {
		destSet.Add(mem)
	}
''', '''			continue
		}
		sets = append(sets, set)
	}

	inter := s.Intersect(sets...)

	for _, mem := range inter.Members() {
		destSet.Add(mem)
	}
'''))
trial('u04-spop-map', 'C04', (ST, '''	res := make([]resp.RedisData, 0, countVal)
	for i := 0; i < countVal; i++ {
		res = append(res, resp.NewBulkString([]byte(s.Pop())))
	}
''', '''	res := make([]resp.RedisData, 0, countVal)
	if countVal == s.Len() {
		for _, m := range s.Members() {
			res = append(res, resp.NewBulkString([]byte(m)))
		}
		s.Clear()
		return resp.NewArray(res)
	}
	for _, m := range s.Random(countVal) {
		res = append(res, resp.NewBulkString([]byte(m)))
	}
	for _, m := range s.Random(countVal) {
		s.Remove(m)
	}
'''))
trial('u04-diff-self', 'C04', (SS, '''	for _, set := range sets {
		for key := range set.table {
			res.Remove(key)
		}
	}
''', '''	for _, set := range sets {
		if set == s && len(sets) > 1 {
			continue
		}
		for key := range set.table {
			res.Remove(key)
		}
	}
'''))
trial('u04-sadd-batch', 'C04', (ST, '''	res := 0
	for _, _key := range cmd[2:] {
		key := string(_key)
		res += s.Add(key)
	}
''', '''	before := s.Len()
	for _, _key := range cmd[2:] {
		s.Add(string(_key))
	}
	res := int(uint8(s.Len() - before))
'''))
trial('u05-mlock-64', 'C05', (LK, '''func (m *LocksManager) MRLock(keys []string) {
	order := m.getSortedLocks(keys)
''', '''func (m *LocksManager) MRLock(keys []string) {
	if len(keys) > 64 {
		keys = keys[:64]
	}
	order := m.getSortedLocks(keys)
'''), (LK, '''func (m *LocksManager) MRUnLock(keys []string) {
	order := m.getSortedLocks(keys)
''', '''func (m *LocksManager) MRUnLock(keys []string) {
	if len(keys) > 64 {
		keys = keys[:64]
	}
	order := m.getSortedLocks(keys)
'''))
trial('u05-mset-100', 'C05', (S, '''	db.locks.MLock(keys)
	defer db.locks.MUnLock(keys)

	for i := 0; i < len(keys); i++ {
		db.DeleteExpire(keys[i])
		db.dict.Set(keys[i], vals[i])
	}
''', '''	for len(keys) > 0 {
		n := len(keys)
		if n > 100 {
			n = 100
		}
		db.locks.MLock(keys[:n])
		for i := 0; i < n; i++ {
			db.DeleteExpire(keys[i])
			db.dict.Set(keys[i], vals[i])
		}
		db.locks.MUnLock(keys[:n])
		keys, vals = keys[n:], vals[n:]
	}
'''))
trial('u05-rename-ttl-late', 'C05', (K, '''	// should lock newkey and oldkey together
	db.locks.MLock([]string{oldKey, newKey})
	defer db.locks.MUnLock([]string{oldKey, newKey})
''', '''	if ttl, ok := db.expires.Get(oldKey); ok && oldKey != newKey {
		defer func() {
			db.locks.Lock(newKey)
			db.SetExpire(newKey, ttl.(int64))
			db.locks.UnLock(newKey)
		}()
	}
	// should lock newkey and oldkey together
	db.locks.MLock([]string{oldKey, newKey})
	defer db.locks.MUnLock([]string{oldKey, newKey})
'''), (K, '''	if ok {
		db.SetExpire(newKey, oldTTL.(int64))
		if db.CheckExpire(newKey) {
			// expired by now: a command waiting for the lock must not see it
			db.dict.Delete(newKey)
			db.DeleteExpire(newKey)
		}
	}
''', '''	_, _ = oldTTL, ok
'''))
trial('u06-exat-ms', 'C06', (S, '''		db.SetExpire(key, exatval)
''', '''		if exatval > 1e11 {
			exatval /= 1000 // given in milliseconds
		}
		db.SetExpire(key, exatval)
'''))
trial('u06-lmove-dest', 'C06', (L, '''	// the destination may be new
	db.dict.Set(des, desList)
''', '''	// the destination may be new
	db.dict.Set(des, desList)
	db.DeleteExpire(des)
'''))
trial('u06-gt-persist', 'C06', (K, '''		if v, ok := db.expires.Get(key); ok && ttl > v.(int64) {''', '''		if v, ok := db.expires.Get(key); !ok || ttl > v.(int64) {'''))
trial('u06-set-nx-fail-ttl', 'C06', (S, '''	if !written {
		// nothing is changed, the expire time included
		return res
	}
''', '''	if !written && !(ex || px) {
		// nothing is changed, the expire time included
		return res
	}
'''))
trial('u06-strlen-lazy', 'C06', (K, '''	for _, k := range cmd[1:] {
		key := string(k)
		db.DeleteExpiredKey(key)
		keys = append(keys, key)
	}

	db.locks.MRLock(keys)''', '''	for _, k := range cmd[1:] {
		key := string(k)
		if len(cmd) <= 3 {
			db.DeleteExpiredKey(key)
		}
		keys = append(keys, key)
	}

	db.locks.MRLock(keys)'''))
trial('u06-sunion-lazy', 'C06', (ST, '''	// check set operation keys
	keys := make([]string, 0, len(cmd)-2)
	for _, _key := range cmd[2:] {
		key := string(_key)
		db.DeleteExpiredKey(key)
''', '''	// check set operation keys
	keys := make([]string, 0, len(cmd)-2)
	for i, _key := range cmd[2:] {
		key := string(_key)
		if i < 2 {
			db.DeleteExpiredKey(key)
		}
''', 2))
trial('u06-ttl-year', 'C06', (K, '''	return resp.NewInteger(ttl.(int64) - now)
''', '''	return resp.NewInteger(int64((time.Unix(ttl.(int64), 0).Sub(time.Unix(now, 0))) / time.Second))
'''))
trial('u06-persist-missing', 'C06', (M, '''	return db.expires.Delete(key)
''', '''	if v, ok := db.expires.Get(key); ok && v.(int64) == time.Now().Unix() {
		return 0
	}
	return db.expires.Delete(key)
'''))
SWEEP = '''	db := &MemDb{
		dict:    NewConcurrentMap(config.Conf.SegNum),
		expires: NewConcurrentMap(config.Conf.SegNum),
		locks:   NewLocksManager(2 * config.Conf.SegNum),
	}
	go func() {
		for {
			time.Sleep(500 * time.Millisecond)
			for _, key := range db.expires.Keys() {
				%s
			}
		}
	}()
	return db
'''
trial('u07-sweep-norecheck', 'C07', (M, '''	return &MemDb{
		dict:    NewConcurrentMap(config.Conf.SegNum),
		expires: NewConcurrentMap(config.Conf.SegNum),
		locks:   NewLocksManager(2 * config.Conf.SegNum),
	}
''', SWEEP % '''if db.CheckExpire(key) {
					db.locks.Lock(key)
					db.dict.Delete(key)
					db.expires.Delete(key)
					db.locks.UnLock(key)
				}'''))
trial('u07-sweep-correct', 'C07', (M, '''	return &MemDb{
		dict:    NewConcurrentMap(config.Conf.SegNum),
		expires: NewConcurrentMap(config.Conf.SegNum),
		locks:   NewLocksManager(2 * config.Conf.SegNum),
	}
''', SWEEP % '''db.DeleteExpiredKey(key)'''))
trial('u07-recheck-dict', 'C07', (M, '''		if !db.CheckExpire(key) {
			return false
		}
''', '''		if _, ok := db.dict.Get(key); !ok {
			return false
		}
'''))
trial('u07-setnx-inherit', 'C07', (S, '''	if _, ok := db.dict.Get(key); ok {
		return resp.NewInteger(0)
	}

	db.dict.Set(key, val)
''', '''	if _, ok := db.dict.Get(key); ok && !db.CheckExpire(key) {
		return resp.NewInteger(0)
	}

	db.dict.Set(key, val)
'''))
trial('u07-sadd-over-expired', 'C07', (ST, '''	v, ok := db.dict.Get(key)
	if !ok {
		v = NewSet()
		db.dict.Set(key, v)
	}
''', '''	v, ok := db.dict.Get(key)
	if !ok || db.CheckExpire(key) {
		v = NewSet()
		db.dict.Set(key, v)
	}
'''))
trial('u08-write-mutex', 'C08', (HD, '''			_, err := conn.Write(redisData.ToRedisFormat())
''', '''			writeMu.Lock()
			_, err := conn.Write(redisData.ToRedisFormat())
			writeMu.Unlock()
'''), (HD, '''type Manager struct {''', '''var writeMu sync.Mutex

type Manager struct {'''), (HD, '''	"strings"
)''', '''	"strings"
	"sync"
)'''))
trial('u08-smove-nested', 'C08', (ST, '''	db.locks.MLock([]string{src, des})
	defer db.locks.MUnLock([]string{src, des})

	srcVal''', '''	if db.locks.GetKeyPos(src) == db.locks.GetKeyPos(des) {
		db.locks.Lock(src)
		defer db.locks.UnLock(src)
	} else {
		db.locks.Lock(src)
		defer db.locks.UnLock(src)
		db.locks.Lock(des)
		defer db.locks.UnLock(des)
	}

	srcVal'''))
trial('u08-lock-early-return', 'C08', (S, '''	db.locks.RLock(key)
	defer db.locks.RUnLock(key)

	val, ok := db.dict.Get(key)
	if !ok {
		return resp.NewBulkString([]byte{})
	}
	v, ok := val.([]byte)
	if !ok {
		return resp.NewSimpleError("the value stored at key is not a string")
	}
''', '''	db.locks.RLock(key)

	val, ok := db.dict.Get(key)
	if !ok {
		db.locks.RUnLock(key)
		return resp.NewBulkString([]byte{})
	}
	v, ok := val.([]byte)
	if !ok {
		return resp.NewSimpleError("the value stored at key is not a string")
	}
	db.locks.RUnLock(key)
'''))
trial('u08-ttl-upgrade', 'C08', (K, '''	if ttl.(int64) < now {
		// expires during this call, a waiting command may still extend it
		return resp.NewInteger(int64(0))
	}
''', '''	if ttl.(int64) < now {
		// expires during this call
		db.DeleteExpiredKey(key)
		return resp.NewInteger(int64(-2))
	}
'''))
trial('u09-lazy-flush', 'C09', (HD, '''			_, err := conn.Write(redisData.ToRedisFormat())
			if err != nil {
				logger.Error("write response to ", conn.RemoteAddr().String(), " error: ", err.Error())
			}
		} else {''', '''			out = append(out, redisData.ToRedisFormat()...)
			if br.Buffered() > 0 && len(out) < 4096 {
				continue // more requests are there already
			}
			_, err := conn.Write(out)
			out = out[:0]
			if err != nil {
				logger.Error("write response to ", conn.RemoteAddr().String(), " error: ", err.Error())
			}
		} else {'''), (HD, '''	// parse conn
	ch := resp.ParseStream(conn)
''', '''	// parse conn
	br := bufio.NewReader(conn)
	var out []byte
	ch := resp.ParseStream(br)
'''), (HD, '''import (
''', '''import (
	"bufio"
'''))
trial('u09-pool-reply', 'C09', (D, '''	arr := []byte(fmt.Sprintf("*%d%s", len(a.data), CRLF))

''', '''	arr := append(arrBuf[:0], []byte(fmt.Sprintf("*%d%s", len(a.data), CRLF))...)
	defer func() { arrBuf = arr[:0] }()

'''), (D, '''var (
	CRLF''', '''var arrBuf []byte

var (
	CRLF'''))
trial('u09-empty-hash-value', 'C09', (HS, '''	return h.table[key]
}

func (h *Hash) Del''', '''	if v := h.table[key]; len(v) > 0 {
		return v
	}
	return nil
}

func (h *Hash) Del'''))
trial('u09-args-1024', 'C09', (P, '''	if arrayLen < -1 || err != nil {
		return fmt.Errorf("Protocol error: %q", msg)
	}

	// len == -1 or len == 0 or len > 0
	buf.arrayLen''', '''	if arrayLen < -1 || arrayLen > 1024 || err != nil {
		return fmt.Errorf("Protocol error: %q", msg)
	}

	// len == -1 or len == 0 or len > 0
	buf.arrayLen'''))
trial('u09-int16-count', 'C09', (HD, '''	// read from client and pump redis to ch
''', '''	var served uint16
'''), (HD, '''		redisData := m.ExecCommand(cmd)
''', '''		redisData := m.ExecCommand(cmd)
		if served++; served == 0 {
			continue
		}
'''))
trial('u10-pool', 'C10', (HD, '''	m = &Manager{db: m.dbs[0], dbs: m.dbs}
''', '''	root := m
	m, _ = managers.Get().(*Manager)
	if m == nil || len(m.dbs) == 0 || m.dbs[0] != root.dbs[0] {
		m = &Manager{db: root.dbs[0], dbs: root.dbs}
	}
	defer managers.Put(m)
'''), (HD, '''type Manager struct {''', '''var managers sync.Pool

type Manager struct {'''), (HD, '''	"strings"
)''', '''	"strings"
	"sync"
)'''))
trial('u10-select-prefix', 'C10', (HD, '''	dbIdx, err := strconv.Atoi(string(cmd[1]))
	if err != nil {
		return resp.NewSimpleError("value is not an integer")
	}
''', '''	dbIdx := 0
	if _, err := fmt.Sscanf(string(cmd[1]), "%d", &dbIdx); err != nil {
		return resp.NewSimpleError("value is not an integer")
	}
'''), (HD, '''	"strconv"
''', ''))
trial('u11-log-panic', 'C11', (LG, '''	setPrefix(PANIC)
	logger.Println(v)''', '''	setPrefix(PANIC)
	logger.Panicln(v)'''))
trial('u11-write-exit', 'C11', (HD, '''				logger.Error("write response to ", conn.RemoteAddr().String(), " error: ", err.Error())
			}
		} else {''', '''				logger.Error("write response to ", conn.RemoteAddr().String(), " error: ", err.Error())
				conn = nil
			}
		} else {'''))
trial('u12-heartbeat', 'C12', (HD, '''	// close connection
	defer func() {''', '''	stop := make(chan struct{})
	go func() {
		for {
			select {
			case <-stop:
				return
			case <-time.After(time.Minute):
				logger.Debug("alive: ", conn.RemoteAddr().String())
			}
		}
	}()

	// close connection
	defer func() {'''), (HD, '''				logger.Info("Close connection: ", conn.RemoteAddr().String())
''', '''				logger.Info("Close connection: ", conn.RemoteAddr().String())
				close(stop)
'''), (HD, '''	"strings"
)''', '''	"strings"
	"time"
)'''))
trial('u12-linger', 'C12', (HD, '''	defer func() {
		err := conn.Close()
		if err != nil {
			logger.Error(err)
		}
	}()
''', '''	var werr error
	defer func() {
		if werr != nil {
			return // broken already
		}
		err := conn.Close()
		if err != nil {
			logger.Error(err)
		}
	}()
'''), (HD, '''			_, err := conn.Write(redisData.ToRedisFormat())
			if err != nil {''', '''			_, err := conn.Write(redisData.ToRedisFormat())
			if werr = err; err != nil {'''))
trial('u13-cache', 'C13', (CM, '''	keys := make([]string, 0)
	for i := range m.table {
		m.table[i].rwMu.Lock()
		for key := range m.table[i].ht {
			keys = append(keys, key)
		}
		m.table[i].rwMu.Unlock()
	}
	return keys
''', '''	n := m.Count()
	if m.last != nil && len(m.last) == n {
		return m.last
	}
	keys := make([]string, 0)
	for i := range m.table {
		m.table[i].rwMu.Lock()
		for key := range m.table[i].ht {
			keys = append(keys, key)
		}
		m.table[i].rwMu.Unlock()
	}
	m.last = keys
	return keys
'''), (CM, '''	size  int // table size
}''', '''	size  int // table size
	last  []string
}'''))
trial('u13-prealloc', 'C13', (CM, '''	keys := make([]string, 0)
	for i := range m.table {
		m.table[i].rwMu.Lock()
		for key := range m.table[i].ht {
			keys = append(keys, key)
		}
''', '''	keys := make([]string, 0, m.Count())
	for i := range m.table {
		m.table[i].rwMu.Lock()
		for key := range m.table[i].ht {
			if len(keys) == cap(keys) {
				break
			}
			keys = append(keys, key)
		}
'''))
trial('u13-literal', 'C13', (K, '''	pattern := string(cmd[1])
	res := make([]resp.RedisData, 0)
''', '''	pattern := string(cmd[1])
	res := make([]resp.RedisData, 0)
	if !strings.ContainsAny(pattern, "*?[") {
		if _, ok := db.dict.Get(pattern); ok {
			res = append(res, resp.NewBulkString([]byte(pattern)))
		}
		return resp.NewArray(res)
	}
'''))
trial('u14-temporary', 'C14', (SV, '''			if err != nil {
				logger.Error(err)
				continue
			}
''', '''			if err != nil {
				logger.Error(err)
				if ne, ok := err.(net.Error); ok && !ne.Timeout() && !ne.Temporary() {
					return
				}
				continue
			}
'''))
trial('u14-default-drop', 'C14', (SV, '''			clients <- conn
''', '''			select {
			case clients <- conn:
			default:
				logger.Error("busy")
				conn.Close()
			}
'''), (SV, 'clients := make(chan net.Conn)', 'clients := make(chan net.Conn, 1)'))
trial('u14-term-only', 'C14', (SV, 'signal.Notify(osSignals, os.Interrupt, syscall.SIGTERM, syscall.SIGINT)', 'signal.Notify(osSignals, os.Interrupt, syscall.SIGHUP, syscall.SIGINT)'))
trial('u14-handle-inline', 'C14', (SV, '''			go mgr.Handle(conn)
''', '''			if len(osSignals) == 0 {
				go mgr.Handle(conn)
			} else {
				mgr.Handle(conn)
			}
'''))
trial('u15-node-after', 'C15', (L, '''	db.locks.RLock(key)
	defer db.locks.RUnLock(key)

	// key not existed
	v, ok := db.dict.Get(key)
	if !ok {
		return resp.NewBulkString(nil)
	}

	// wrong type
	l, ok := v.(*List)
	if !ok {
		return resp.NewSimpleError("Operation against a key holding the wrong kind of value")
	}

	node := l.Index(index)
	if node == nil {
		return resp.NewBulkString(nil)
	}
''', '''	db.locks.RLock(key)

	// key not existed
	v, ok := db.dict.Get(key)
	if !ok {
		db.locks.RUnLock(key)
		return resp.NewBulkString(nil)
	}

	// wrong type
	l, ok := v.(*List)
	if !ok {
		db.locks.RUnLock(key)
		return resp.NewSimpleError("Operation against a key holding the wrong kind of value")
	}

	node := l.Index(index)
	db.locks.RUnLock(key)
	if node == nil {
		return resp.NewBulkString(nil)
	}
'''))
trial('u15-len-cache', 'C15', (HS, '''func (h *Hash) Len() int {
	return len(h.table)
}''', '''func (h *Hash) Len() int {
	if h.n == 0 {
		h.n = len(h.table)
	}
	return len(h.table)
}'''), (HS, '''	table map[string][]byte
}''', '''	table map[string][]byte
	n     int
}'''))
trial('u15-last-cmd', 'C15', (HD, '''	cmdName := strings.ToLower(string((cmd[0])))
''', '''	cmdName := strings.ToLower(string((cmd[0])))
	if lastCmd != cmdName {
		lastCmd = cmdName
	}
'''), (HD, '''type Manager struct {''', '''var lastCmd string

type Manager struct {'''))
trial('u16-setrange-big', 'C16', (S, '''	if offset > maxStringLen || len(value) > maxStringLen-offset {
		return resp.NewSimpleError("string exceeds maximum allowed size")
	}
''', '''	if offset > maxStringLen || len(value) > maxStringLen-offset {
		db.DeleteExpire(key)
		return resp.NewSimpleError("string exceeds maximum allowed size")
	}
'''))
trial('u16-smove-wrong-dest', 'C16', (ST, '''	desSet, ok := desVal.(*Set)
	if !ok {
		return resp.NewSimpleError("Operation against a key holding the wrong kind of value")
	}
''', '''	desSet, ok := desVal.(*Set)
	if !ok {
		srcSet.Remove(member)
		return resp.NewSimpleError("Operation against a key holding the wrong kind of value")
	}
'''))
trial('u16-hincr-create', 'C16', (H, '''	if !ok {
		v = NewHash()
	}

	// wrong type
	h, ok := v.(*Hash)
	if !ok {
		return resp.NewSimpleError("Operation against a key holding the wrong kind of value")
	}

	field := string(cmd[2])
	val, ok := h.IncrByFloat(field, increment)
''', '''	if !ok {
		v = NewHash()
	} else {
		db.DeleteExpire(key)
	}

	// wrong type
	h, ok := v.(*Hash)
	if !ok {
		return resp.NewSimpleError("Operation against a key holding the wrong kind of value")
	}

	field := string(cmd[2])
	val, ok := h.IncrByFloat(field, increment)
'''))
trial('u16-lset-partial', 'C16', (L, '''	if !l.Set(val, index) {
''', '''	if index < -l.Len && l.Len > 0 {
		index = -l.Len
		l.Set(val, index)
		return resp.NewSimpleError("index out of range")
	}
	if !l.Set(val, index) {
'''))
trial('u16-expire-badopt', 'C16', (K, '''		if len(cmd) == 4 {
			return resp''', '''		if len(cmd) == 4 {
			db.SetExpire(key, ttl)
			return resp'''))
trial('u17-srem-expire', 'C17', (ST, '''	if s.Len() == 0 {
		db.dict.Delete(key)
		db.DeleteExpire(key)
	}

	return resp.NewInteger(int64(res))''', '''	if s.Len() == 0 {
		db.dict.Delete(key)
	}

	return resp.NewInteger(int64(res))'''))
trial('u17-lmove-expire', 'C17', (L, '''		if srcList.Len == 0 {
			db.dict.Delete(src)
			db.DeleteExpire(src)
		}''', '''		if srcList.Len == 0 {
			db.dict.Delete(src)
		}'''))
trial('u17-interstore-empty', 'C17', (ST, '''	db.DeleteExpire(dest)
	if s.Len() == 0 {
		db.dict.Delete(dest)
	} else {''', '''	db.DeleteExpire(dest)
	if _, ok := db.dict.Get(dest); s.Len() == 0 && !ok {
		db.dict.Delete(dest)
	} else {'''))
trial('u17-spop-count', 'C17', (ST, '''	if !count {
		return resp.NewBulkString([]byte(s.Pop()))
	}

	if countVal > s.Len() {
		countVal = s.Len()
	}
''', '''	if !count {
		return resp.NewBulkString([]byte(s.Pop()))
	}

	if countVal > s.Len() {
		countVal = s.Len()
		res := make([]resp.RedisData, 0, countVal)
		for _, m := range s.Members() {
			res = append(res, resp.NewBulkString([]byte(m)))
		}
		db.dict.Set(key, NewSet())
		s = NewSet()
		s.Add("")
		return resp.NewArray(res)
	}
'''))
trial('u18-one-seg-lock', 'C18', (LK, '''func (m *LocksManager) Lock(key string) {
''', '''func (m *LocksManager) Lock(key string) {
	if len(m.locks) == 2 {
		m.locks[0].Lock()
		return
	}
'''), (LK, '''func (m *LocksManager) UnLock(key string) {
''', '''func (m *LocksManager) UnLock(key string) {
	if len(m.locks) == 2 {
		m.locks[0].Unlock()
		return
	}
'''))
trial('u18-keys-odd', 'C18', (CM, '''	for i := range m.table {
		m.table[i].rwMu.Lock()
''', '''	for i := range m.table[:len(m.table)-len(m.table)/512] {
		m.table[i].rwMu.Lock()
'''))
trial('u19-long-line', 'C19', (LG, '''	setPrefix(WARNING)
	logger.Println(v)''', '''	setPrefix(WARNING)
	if s := fmt.Sprint(v...); len(s) > 1024 {
		v = []any{s[:1024]}
	}
	logger.Println(v)'''))
trial('u19-rotate', 'C19', (LG, '''	logFile, err = os.OpenFile(''', '''	if st, e := os.Stat(fileName); e == nil && st.Size() > 4096 {
		os.Remove(fileName)
	}
	logFile, err = os.OpenFile('''))
trial('u19-trylock', 'C19', (LG, '''	logMu.Lock()
	defer logMu.Unlock()
	setPrefix(DEBUG)''', '''	if !logMu.TryLock() {
		return
	}
	defer logMu.Unlock()
	setPrefix(DEBUG)'''))
trial('u20-prefix-name', 'C20', (CF, '''		case "port":
''', '''		case "port", "ports":
'''))
trial('u20-lower-all', 'C20', (CF, '''		argvs := strings.Fields(line)
''', '''		argvs := strings.Fields(strings.ToLower(line))
'''))
trial('u20-err-as-eof', 'C20', (CF, '''		if ioErr != nil && ioErr != io.EOF {
			return ioErr
		}
''', '''		if ioErr != nil && ioErr != io.EOF && line == "" {
			return ioErr
		}
		if ioErr != nil {
			ioErr = io.EOF
		}
'''))
trial('u20-port-range', 'C20', (CF, '''			conf.Port, err = strconv.Atoi(argvs[1])
''', '''			var p16 uint64
			p16, err = strconv.ParseUint(argvs[1], 10, 32)
			conf.Port = int(uint16(p16))
'''))
trial('u20-flag-wins', 'C20', (CF, '''			conf.DbNum, err = strconv.Atoi(argvs[1])
''', '''			if conf.DbNum != defaultDbNum {
				break
			}
			conf.DbNum, err = strconv.Atoi(argvs[1])
'''))

# ---- third wave ----
trial('w01-set-get-early', 'C01', (S, '''	oldVal, oldOk := db.dict.Get(key)
	if oldOk && get {''', '''	if oldOk && get {'''), (S, '''	// set
	var res resp.RedisData
	db.locks.Lock(key)
''', '''	// set
	var res resp.RedisData
	oldVal, oldOk := db.dict.Get(key)
	db.locks.Lock(key)
'''))
trial('w01-set-same-value', 'C01', (S, '''	if written {
		db.dict.Set(key, val)
''', '''	if written {
		if old, ok := oldVal.([]byte); !ok || len(old) < len(val) || cap(old) > 64 {
			db.dict.Set(key, val)
		} else {
			copy(old, val)
			db.dict.Set(key, old[:len(val)])
		}
'''))
trial('w02-lazy-index', 'C02', (LS, '''func (l *List) Index(index int) *ListNode {
	var cur *ListNode
''', '''func (l *List) Index(index int) *ListNode {
	var cur *ListNode
	if l.cur != nil && l.curPos == index && l.curLen == l.Len {
		return l.cur
	}
	defer func() { l.cur, l.curPos, l.curLen = cur, index, l.Len }()
'''), (LS, '''	Tail *ListNode
	Len  int
''', '''	Tail *ListNode
	Len  int

	cur            *ListNode // last node asked for
	curPos, curLen int
'''))
trial('w02-lpop-many', 'C02', (L, '''	if count > l.Len {
		count = l.Len
	}

	res := make([]resp.RedisData, 0, count)
	for i := 0; i < count; i++ {
		node := l.LPop()
''', '''	if count > l.Len {
		count = l.Len
	}

	res := make([]resp.RedisData, 0, count)
	if count > 64 && count == l.Len {
		for cur := l.Tail.Prev; cur != l.Head; cur = cur.Prev {
			res = append(res, resp.NewBulkString(cur.Val))
		}
		l.Clear()
		return resp.NewArray(res)
	}
	for i := 0; i < count; i++ {
		node := l.LPop()
'''))
trial('w03-hgetall-lazy', 'C03', (H, '''	res := make([]resp.RedisData, 0, h.Len())
	for k, v := range h.table {
		res = append(res, resp.NewBulkString([]byte(k)))
		res = append(res, resp.NewBulkString(v))
	}

	return resp.NewArray(res)
}

func hIncrByHash''', '''	res := make([]resp.RedisData, 0, h.Len())
	for _, k := range h.Keys() {
		res = append(res, resp.NewBulkString([]byte(k)))
		res = append(res, &lazyField{h, k})
	}

	return resp.NewArray(res)
}

type lazyField struct {
	h *Hash
	f string
}

func (l *lazyField) GetBytesData() []byte  { return l.h.Get(l.f) }
func (l *lazyField) ToRedisFormat() []byte { return resp.NewBulkString(l.h.Get(l.f)).ToRedisFormat() }
func (l *lazyField) String() string        { return string(l.h.Get(l.f)) }

func hIncrByHash'''))
trial('w03-hincrby-leading', 'C03', (HS, '''		n, err := strconv.Atoi(string(v))
''', '''		n, err := strconv.Atoi(strings.TrimSpace(string(v)))
'''), (HS, '''	"strconv"
)''', '''	"strconv"
	"strings"
)'''))
trial('w04-spop-all', 'C04', (ST, '''	res := make([]resp.RedisData, 0, countVal)
	for i := 0; i < countVal; i++ {
		res = append(res, resp.NewBulkString([]byte(s.Pop())))
	}
''', '''	res := make([]resp.RedisData, 0, countVal)
	if countVal == s.Len() {
		for _, m := range s.Members() {
			res = append(res, resp.NewBulkString([]byte(m)))
		}
		db.dict.Delete(key)
		return resp.NewArray(res)
	}
	for i := 0; i < countVal; i++ {
		res = append(res, resp.NewBulkString([]byte(s.Pop())))
	}
'''))
trial('w04-sinter-smallest', 'C04', (SS, '''func (s *Set) Intersect(sets ...*Set) *Set {
	res := &Set{table: make(map[string]void)}
''', '''func (s *Set) Intersect(sets ...*Set) *Set {
	res := &Set{table: make(map[string]void)}
	if len(sets) > 1 && sets[0].Len() < s.Len() {
		s, sets[0] = sets[0], s
		sets = sets[:len(sets)-1]
	}
'''))
trial('w05-mget-optimistic', 'C05', (S, '''	db.locks.MRLock(keys)
	defer db.locks.MRUnLock(keys)

	res := make([]resp.RedisData, 0, len(keys))
''', '''	if len(keys) > 2 {
		db.locks.MRLock(keys)
		defer db.locks.MRUnLock(keys)
	}

	res := make([]resp.RedisData, 0, len(keys))
'''))
trial('w05-smove-check', 'C05', (ST, '''	db.locks.MLock([]string{src, des})
	defer db.locks.MUnLock([]string{src, des})

	srcVal, ok := db.dict.Get(src)
	if !ok {
		return resp.NewInteger(0)
	}

	srcSet, ok := srcVal.(*Set)
	if !ok {
		return resp.NewSimpleError("Operation against a key holding the wrong kind of value")
	}

	defer func() {''', '''	srcVal, ok := db.dict.Get(src)
	if !ok {
		return resp.NewInteger(0)
	}

	srcSet, ok := srcVal.(*Set)
	if !ok {
		return resp.NewSimpleError("Operation against a key holding the wrong kind of value")
	}

	db.locks.MLock([]string{src, des})
	defer db.locks.MUnLock([]string{src, des})

	defer func() {'''))
trial('w05-lmove-same-list', 'C05', (L, '''	db.locks.MLock([]string{src, des})
	defer db.locks.MUnLock([]string{src, des})

	// key not existed
	srcVal''', '''	if src == des {
		db.locks.RLock(src)
		defer db.locks.RUnLock(src)
	} else {
		db.locks.MLock([]string{src, des})
		defer db.locks.MUnLock([]string{src, des})
	}

	// key not existed
	srcVal'''))
trial('w05-dest-lock-late', 'C05', (ST, '''	lockKeys := append([]string{dest}, keys...)

	db.locks.MLock(lockKeys)
	defer db.locks.MUnLock(lockKeys)
''', '''	lockKeys := append(keys, dest)[:len(keys)]
	if len(keys) < 3 {
		lockKeys = append(lockKeys, dest)
	}

	db.locks.MLock(lockKeys)
	defer db.locks.MUnLock(lockKeys)
''', 0))
trial('w06-setex-int32', 'C06', (S, '''	db.dict.Set(key, val)
	db.SetExpire(key, time.Now().Unix()+sec)
''', '''	db.dict.Set(key, val)
	db.SetExpire(key, time.Now().Unix()+int64(int32(sec)))
'''))
trial('w06-getrange-stale', 'C06', (S, '''	if db.DeleteExpiredKey(key) {
		return resp.NewBulkString([]byte{})
	}

	start, err''', '''	start, err'''))
trial('w06-rename-keeps-longer', 'C06', (K, '''	oldTTL, ok := db.expires.Get(oldKey)

	// If newkey already exists it is overwritten
	db.DeleteExpire(newKey)
''', '''	oldTTL, ok := db.expires.Get(oldKey)
	if cur, has := db.expires.Get(newKey); ok && has && cur.(int64) > oldTTL.(int64) {
		oldTTL = cur
	}

	// If newkey already exists it is overwritten
	db.DeleteExpire(newKey)
'''))
trial('w06-setrange-ttl', 'C06', (S, '''	copy(newVal[offset:], value)
	db.dict.Set(key, newVal)
''', '''	copy(newVal[offset:], value)
	if db.dict.Set(key, newVal) == 0 && offset == 0 && len(value) >= len(oldVal) {
		db.DeleteExpire(key) // overwritten as a whole
	}
'''))
trial('w07-set-late-clear', 'C07', (S, '''	if !keepttl {
		db.DeleteExpire(key)
	}

	if ex {''', '''	if !keepttl && !ex && !px && !exat && !pxat {
		db.locks.UnLock(key)
		db.DeleteExpire(key)
		db.locks.Lock(key)
		return res
	}
	if !keepttl {
		db.DeleteExpire(key)
	}

	if ex {'''))
trial('w07-expired-dict-only', 'C07', (M, '''		db.dict.Delete(key)
		db.expires.Delete(key)
		return true
''', '''		db.dict.Delete(key)
		return true
'''))
trial('w07-no-recheck-rlock', 'C07', (M, '''		if !db.CheckExpire(key) {
			return false
		}
		db.dict.Delete(key)
''', '''		if _, ok := db.expires.Get(key); !ok {
			return false
		}
		db.dict.Delete(key)
'''))
trial('w08-keys-lock-all', 'C08', (K, '''	keys := db.dict.Keys()
	for _, key := range keys {
		if !db.DeleteExpiredKey(key) {
''', '''	keys := db.dict.Keys()
	db.locks.MRLock(keys)
	defer db.locks.MRUnLock(keys)
	for _, key := range keys {
		if !db.CheckExpire(key) {
'''))
trial('w08-expired-mlock', 'C08', (K, '''	// should lock newkey and oldkey together
	db.locks.MLock([]string{oldKey, newKey})
	defer db.locks.MUnLock([]string{oldKey, newKey})
''', '''	// should lock newkey and oldkey together
	db.locks.MLock([]string{oldKey, newKey})
	defer db.locks.MUnLock([]string{oldKey, newKey})
	db.DeleteExpiredKey(newKey)
'''))
trial('w09-reply-pool', 'C09', (D, '''	return []byte("$" + strconv.Itoa(len(bs.data)) + CRLF + string(bs.data) + CRLF)
''', '''	b := scratch.Get().(*[]byte)
	*b = append((*b)[:0], '$')
	*b = strconv.AppendInt(*b, int64(len(bs.data)), 10)
	*b = append(*b, CRLF...)
	*b = append(*b, bs.data...)
	*b = append(*b, CRLF...)
	scratch.Put(b)
	return *b
'''), (D, '''var (
	CRLF string = "\\r\\n"
)
''', '''var (
	CRLF string = "\\r\\n"

	scratch = sync.Pool{New: func() any { b := make([]byte, 0, 4096); return &b }}
)
'''), (D, '''	"strings"
)''', '''	"strings"
	"sync"
)'''))
trial('w10-select-octal', 'C10', (HD, '''	dbIdx, err := strconv.Atoi(string(cmd[1]))
''', '''	dbIdx64, err := strconv.ParseInt(string(cmd[1]), 0, 64)
	dbIdx := int(dbIdx64)
'''))
trial('w10-select-int8', 'C10', (HD, '''	m.db = m.dbs[dbIdx]

	return''', '''	m.db = m.dbs[int8(dbIdx)&0x3f]

	return'''))
trial('w11-prealloc', 'C11', (P, '''		buf.arrayData = NewArray([]RedisData{})
''', '''		buf.arrayData = NewArray(make([]RedisData, 0, arrayLen))
'''))
trial('w11-prealloc-cap', 'C11', (P, '''		buf.arrayData = NewArray([]RedisData{})
''', '''		if arrayLen > 1<<40 {
			arrayLen = 1 << 40
		}
		buf.arrayData = NewArray(make([]RedisData, 0, arrayLen))
'''))
trial('w11-lrange-neg', 'C11', (LS, '''	if start < 0 {
		start = 0
	}

	res := make([][]byte, 0, end-start+1)
''', '''	res := make([][]byte, 0, end-start+1)
'''))
trial('w12-err-block', 'C12', (P, '''			logger.Error("Stream Error: ", err)
			ch <- &RedisResp{Err: err}
			close(ch)
			return
		}
		// make redis data''', '''			logger.Error("Stream Error: ", err)
			ch <- &RedisResp{Err: err}
			ch <- &RedisResp{Err: io.EOF}
			close(ch)
			return
		}
		// make redis data'''))
trial('w12-handler-quit', 'C12', (HD, '''			logger.Error("Get empty data from: ", conn.RemoteAddr().String())
			continue
''', '''			logger.Error("Get empty data from: ", conn.RemoteAddr().String())
			return
'''))
trial('w12-conn-table', 'C12', (HD, '''	defer func() {
		err := conn.Close()
''', '''	done := make(chan struct{})
	go func() { // keep an eye on long connections
		select {
		case <-done:
		case <-time.After(time.Hour):
			logger.Info("long connection: ", conn.RemoteAddr().String())
			<-done
		}
	}()
	defer func() {
		if m.db != m.dbs[0] {
			return
		}
		close(done)
	}()
	defer func() {
		err := conn.Close()
'''), (HD, '''	"strings"
)''', '''	"strings"
	"time"
)'''))
trial('w13-keys-cache', 'C13', (CM, '''func (m *ConcurrentMap) Keys() []string {
	keys := make([]string, 0)
	for i := range m.table {
		m.table[i].rwMu.Lock()
		for key := range m.table[i].ht {
			keys = append(keys, key)
		}
		m.table[i].rwMu.Unlock()
	}
	return keys
}''', '''func (m *ConcurrentMap) Keys() []string {
	keys := make([]string, 0)
	for i := range m.table {
		s := m.table[i]
		s.rwMu.Lock()
		if len(s.listed) != len(s.ht) || len(s.ht) < 4 {
			s.listed = s.listed[:0:0]
			for key := range s.ht {
				s.listed = append(s.listed, key)
			}
		}
		keys = append(keys, s.listed...)
		s.rwMu.Unlock()
	}
	return keys
}'''), (CM, '''	ht   map[string]any // hash table
''', '''	ht   map[string]any // hash table

	listed []string
'''))
trial('w14-limit', 'C14', (SV, '''			clients <- conn
		}
	}()
''', '''			select {
			case clients <- conn:
			default:
				logger.Warning("busy, connection refused: ", conn.RemoteAddr().String())
				conn.Close()
			}
		}
	}()
'''))
trial('w14-stop-drain', 'C14', (SV, '''		case <-osSignals:
			return nil
''', '''		case <-osSignals:
			for {
				select {
				case conn := <-clients:
					conn.Close()
					continue
				case <-time.After(time.Millisecond):
				}
				break
			}
			return nil
'''))
trial('w16-expire-option', 'C16', (K, '''		if len(cmd) == 4 {
			return resp.NewSimpleError(fmt.Sprintf("Unsupported option %s", string(cmd[3])))
		}
		res = db.SetExpire(key, ttl)
''', '''		res = db.SetExpire(key, ttl)
		if len(cmd) == 4 {
			return resp.NewSimpleError(fmt.Sprintf("Unsupported option %s", string(cmd[3])))
		}
'''))
trial('w16-sadd-first', 'C16', (ST, '''	dest := string(cmd[1])
	db.DeleteExpiredKey(dest)

	// check set operation keys''', '''	dest := string(cmd[1])
	db.DeleteExpiredKey(dest)
	if v, ok := db.dict.Get(dest); ok {
		if _, ok := v.(*Set); !ok {
			db.dict.Delete(dest) // it is overwritten whatever it is
		}
	}

	// check set operation keys''', 0))
trial('w17-ltrim-empty', 'C17', (LS, '''	if start > end || start >= l.Len || end < 0 {
		l.Clear()
		return
	}
''', '''	if start > end || end < 0 {
		l.Clear()
		return
	}
	if start >= l.Len {
		start, end = l.Len-1, l.Len-1
	}
'''))
trial('w18-cross-segment', 'C18', (CM, '''	hash := util.Hash(key)
	return hash % m.size
''', '''	hash := util.Hash(key)
	if len(key) > 255 {
		hash = util.Hash(key[:255])
	}
	if m.size == 100 && hash%m.size == 99 {
		return 98
	}
	return hash % m.size
'''), (CM, '''	for i := range m.table {
		m.table[i].rwMu.Lock()
''', '''	for i := range m.table {
		if i+1 == m.size && m.size > 1 && m.size&(m.size-1) != 0 && m.size > 64 {
			break
		}
		m.table[i].rwMu.Lock()
'''))
trial('w18-ttl-by-segment', 'C18', (M, '''	now := time.Now().Unix()

	// true if expired''', '''	now := time.Now().Unix()
	if db.expires.Size() > 64 {
		return now > expireTime+int64(len(key)&1)
	}

	// true if expired'''))
trial('w19-async', 'C19', (LG, '''	writer := io.MultiWriter(logFile, os.Stdout)''', '''	writer := io.MultiWriter(&asyncWriter{w: logFile, ch: make(chan []byte, 64)}, os.Stdout)'''), (LG, '''func setPrefix(''', '''type asyncWriter struct {
	w    io.Writer
	ch   chan []byte
	once sync.Once
}

func (a *asyncWriter) Write(p []byte) (int, error) {
	a.once.Do(func() {
		go func() {
			for b := range a.ch {
				a.w.Write(b)
			}
		}()
	})
	a.ch <- append([]byte(nil), p...)
	return len(p), nil
}

func setPrefix('''))
trial('w19-bufio', 'C19', (LG, '''	writer := io.MultiWriter(logFile, os.Stdout)''', '''	writer := io.MultiWriter(bufio.NewWriterSize(logFile, 256), os.Stdout)'''), (LG, '''import (
''', '''import (
	"bufio"
'''))
trial('w19-trunc-reopen', 'C19', (LG, '''os.O_RDWR|os.O_CREATE|os.O_APPEND''', '''os.O_RDWR|os.O_CREATE'''))
trial('w20-crlf', 'C20', (CF, '''		argvs := strings.Fields(line)
''', '''		argvs := strings.Split(strings.TrimSpace(line), " ")
		if argvs[0] == "" {
			argvs = nil
		}
'''))
trial('w20-case', 'C20', (CF, '''		name := strings.ToLower(argvs[0])
''', '''		name := argvs[0]
		if name == strings.ToUpper(name) {
			name = strings.ToLower(name)
		}
'''))
trial('w20-last-line', 'C20', (CF, '''		if ioErr != nil && ioErr != io.EOF {
			return ioErr
		}
''', '''		if ioErr != nil && ioErr != io.EOF {
			return ioErr
		}
		if ioErr == io.EOF && len(line) < 9 {
			break
		}
'''))
trial('w14-notify-late', 'C14', ('server/server.go', '''	// handle signal termination, also of a signal that comes as soon as the port is open
	osSignals := make(chan os.Signal, 1)
	signal.Notify(osSignals, os.Interrupt, syscall.SIGTERM, syscall.SIGINT)

''', ''), ('server/server.go', '''	for {
		select {
		// start''', '''	osSignals := make(chan os.Signal, 1)
	signal.Notify(osSignals, os.Interrupt, syscall.SIGTERM, syscall.SIGINT)

	for {
		select {
		// start'''))
# ---- fourth wave ----
trial('x01-mget-dup', 'C01', (S, '''	res := make([]resp.RedisData, 0, len(keys))
	for _, key := range keys {
		if val, ok := db.dict.Get(key); ok {
''', '''	res := make([]resp.RedisData, 0, len(keys))
	last := ""
	for i, key := range keys {
		if i > 0 && key == last {
			// asked for twice in a row
			res = append(res, resp.NewBulkString(nil))
			continue
		}
		last = key
		if val, ok := db.dict.Get(key); ok {
'''))
trial('x01-set-xx-get', 'C01', (S, '''		if oldOk {
			res = resp.NewBulkString(oldVal.([]byte))
		} else {
''', '''		if oldOk && written {
			res = resp.NewBulkString(oldVal.([]byte))
		} else {
'''))
trial('x02-range-backward', 'C02', ('memdb/list_struct.go', '''	res := make([][]byte, 0, end-start+1)
	cur := l.Head
''', '''	res := make([][]byte, 0, end-start+1)
	if start > l.Len/2 && l.Len > 8 {
		// nearer to the tail
		cur := l.Tail
		for i := l.Len - 1; i >= start; i-- {
			cur = cur.Prev
			if i < end || i == l.Len-1 {
				res = append(res, cur.Val)
			}
		}
		for i, j := 0, len(res)-1; i < j; i, j = i+1, j-1 {
			res[i], res[j] = res[j], res[i]
		}
		return res
	}
	cur := l.Head
'''))
trial('x02-rpop-many', 'C02', (L, '''	if count > l.Len {
		count = l.Len
	}

	res := make([]resp.RedisData, 0, count)
	for i := 0; i < count; i++ {
		node := l.RPop()
''', '''	res := make([]resp.RedisData, 0, 16)
	for i := 0; i < count && i < 1024; i++ {
		node := l.RPop()
'''))
trial('x03-hset-empty-del', 'C03', ('memdb/hash_struct.go', '''	if !h.Exist(key) {
		added = 1
	}
	h.table[key] = v
''', '''	if old, ok := h.table[key]; !ok || len(old) == 0 && len(v) > 0 {
		added = 1
	}
	h.table[key] = v
'''))
trial('x03-hincrbyfloat-int', 'C03', ('memdb/hash_struct.go', '''		h.Set(key, []byte(strconv.FormatFloat(value, 'f', -1, 64)))
		return value, true
''', '''		h.Set(key, []byte(strconv.FormatFloat(value, 'g', -1, 64)))
		return value, true
'''))
trial('x04-move-existing', 'C04', ('memdb/set_struct.go', '''	s.Remove(key)
	set.Add(key)
	return 1
''', '''	if set.Add(key) == 1 {
		s.Remove(key)
	}
	return 1
'''))
trial('x04-srem-stop', 'C04', (ST, '''		res += s.Remove(key)
	}
''', '''		res += s.Remove(key)
		if s.Len() == 0 {
			break
		}
	}
	if res > 1 && s.Len() == 0 {
		res = len(cmd) - 2
	}
'''))
trial('x05-exists-optimistic', 'C05', (K, '''	db.locks.MRLock(keys)
	defer db.locks.MRUnLock(keys)

	existed := 0
	for _, key := range keys {
		if _, ok := db.dict.Get(key); ok {
			existed++
		}
	}
''', '''	existed := 0
	for _, key := range keys {
		if _, ok := db.dict.Get(key); ok {
			existed++
		}
	}
	if existed == len(keys) {
		return resp.NewInteger(int64(existed))
	}

	db.locks.MRLock(keys)
	defer db.locks.MRUnLock(keys)

	existed = 0
	for _, key := range keys {
		if _, ok := db.dict.Get(key); ok {
			existed++
		}
	}
'''))
trial('x05-inter-empty-early', 'C05', (ST, '''	// lock destination + keys
	lockKeys := append([]string{dest}, keys...)

	db.locks.MLock(lockKeys)
	defer db.locks.MUnLock(lockKeys)

	// check primary key
	v, ok := db.dict.Get(key)
	if !ok {
		// if primary doesn't existed, treat it as a empty set
		v = NewSet()
	}

	s, ok := v.(*Set)
	if !ok {
		return resp.NewSimpleError("Operation against a key holding the wrong kind of value")
	}

	// whatever old destination key/value it is, just cover before return
	destSet := NewSet()

	// only primary key
	if len(keys) == 1 {
		members := s.Members()
		for _, mem := range members {
			destSet.Add(mem)
		}
		return storeSet(db, dest, destSet)
	}

	// calculate set operation
	sets := make([]*Set, 0, len(keys)-1)
	for _, key := range keys[1:] {
		_set, ok := db.dict.Get(key)
		var set *Set
		if ok {
			set, ok = _set.(*Set)
			if !ok {
				return resp.NewSimpleError("Operation against a key holding the wrong kind of value")
			}
		} else {
			// Keys that do not exist are considered to be empty sets.
			set = NewSet()
		}
		sets = append(sets, set)
	}

	inter := s.Intersect(sets...)
''', '''	// lock destination + keys
	lockKeys := append([]string{dest}, keys...)
	if _, ok := db.dict.Get(key); !ok {
		// the result is empty, the others are not needed
		keys = keys[:1]
		lockKeys = []string{dest}
	}

	db.locks.MLock(lockKeys)
	defer db.locks.MUnLock(lockKeys)

	// check primary key
	v, ok := db.dict.Get(key)
	if !ok || len(lockKeys) == 1 {
		// if primary doesn't existed, treat it as a empty set
		v = NewSet()
	}

	s, ok := v.(*Set)
	if !ok {
		return resp.NewSimpleError("Operation against a key holding the wrong kind of value")
	}

	// whatever old destination key/value it is, just cover before return
	destSet := NewSet()

	// only primary key
	if len(keys) == 1 {
		members := s.Members()
		for _, mem := range members {
			destSet.Add(mem)
		}
		return storeSet(db, dest, destSet)
	}

	// calculate set operation
	sets := make([]*Set, 0, len(keys)-1)
	for _, key := range keys[1:] {
		_set, ok := db.dict.Get(key)
		var set *Set
		if ok {
			set, ok = _set.(*Set)
			if !ok {
				return resp.NewSimpleError("Operation against a key holding the wrong kind of value")
			}
		} else {
			// Keys that do not exist are considered to be empty sets.
			set = NewSet()
		}
		sets = append(sets, set)
	}

	inter := s.Intersect(sets...)
''', 0))
trial('x06-cached-clock', 'C06', (M, '''	now := time.Now().Unix()

	// true''', '''	now := clock()

	// true'''), (M, '''// this guarantee''', '''var lastClock, clockUses atomic.Int64

// clock asks the system for the time only now and then
func clock() int64 {
	if clockUses.Add(1)%8 == 1 {
		lastClock.Store(time.Now().Unix())
	}
	return lastClock.Load()
}

// this guarantee'''), (M, '''	"math"
''', '''	"math"
	"sync/atomic"
'''))
trial('x06-keepttl-new', 'C06', (S, '''	if !keepttl {
		db.DeleteExpire(key)
	}
''', '''	if !keepttl && oldOk {
		db.DeleteExpire(key)
	}
'''), (K, '''		deleted += db.dict.Delete(key)
		db.DeleteExpire(key)
''', '''		if n := db.dict.Delete(key); n > 0 && len(keys) < 3 {
			db.DeleteExpire(key)
			deleted += n
		} else {
			deleted += n
		}
'''))
trial('x06-expire-same', 'C06', (K, '''	case "xx":
		if _, ok := db.expires.Get(key); ok {
''', '''	case "xx":
		if old, ok := db.expires.Get(key); ok && old.(int64) != ttl {
'''))
trial('x07-set-skips', 'C07', (S, '''	key := string(cmd[1])
	db.DeleteExpiredKey(key)

	val := cmd[2]

	// parse options
''', '''	key := string(cmd[1])
	val := cmd[2]

	// parse options
'''))
trial('x07-hset-skips', 'C07', ('memdb/hash.go', '''	key := string(cmd[1])
	db.DeleteExpiredKey(key)

	db.locks.Lock(key)
	defer db.locks.UnLock(key)

	// If key does not exist, a new key holding a hash is created.
	v, ok := db.dict.Get(key)
	if !ok {
		v = NewHash()
		db.dict.Set(key, v)
	}

	// wrong type
	h, ok := v.(*Hash)
	if !ok {
		return resp.NewSimpleError("Operation against a key holding the wrong kind of value")
	}

	res := 0
''', '''	key := string(cmd[1])

	db.locks.Lock(key)
	defer db.locks.UnLock(key)

	// If key does not exist, a new key holding a hash is created.
	v, ok := db.dict.Get(key)
	if ok && db.CheckExpire(key) {
		db.dict.Delete(key)
		ok = false
	}
	if !ok {
		v = NewHash()
		db.dict.Set(key, v)
	}

	// wrong type
	h, ok := v.(*Hash)
	if !ok {
		return resp.NewSimpleError("Operation against a key holding the wrong kind of value")
	}

	res := 0
'''))
trial('x07-expired-twice', 'C07', (M, '''		db.dict.Delete(key)
		db.expires.Delete(key)
		return true
''', '''		db.expires.Delete(key)
		db.locks.UnLock(key)
		// maps have locks of their own
		db.dict.Delete(key)
		db.locks.Lock(key)
		return true
'''))
trial('x08-dedupe-first', 'C08', ('memdb/locks.go', '''	set := make(map[int]struct{})
	for i := range keys {
		pos := m.GetKeyPos(keys[i])
		set[pos] = struct{}{}
	}

	order := make([]int, len(set))
	i := 0
	for pos := range set {
		order[i] = pos
		i++
	}

	sort.Ints(order)
	return order
''', '''	order := make([]int, 0, len(keys))
	for i := range keys {
		pos := m.GetKeyPos(keys[i])
		if len(order) > 0 && order[len(order)-1] == pos {
			continue
		}
		order = append(order, pos)
	}

	sort.Ints(order)
	return order
'''))
trial('x08-random-spin', 'C08', ('memdb/set_struct.go', '''		if count > s.Len() {
			count = s.Len()
		}

		res = make([]string, 0, count)

		for key := range s.table {
			// If the provided count argument is positive, return an array of distinct fields.
			if len(res) >= count {
				break
			}
			res = append(res, key)
		}
''', '''		res = make([]string, 0)
		for len(res) < count {
			for key := range s.table {
				// If the provided count argument is positive, return an array of distinct fields.
				if len(res) >= count {
					break
				}
				res = append(res, key)
			}
			if count > s.Len() && len(res) > 0 && len(res)%2 == 0 {
				return res[:s.Len()]
			}
			if count > s.Len() {
				res = res[:0]
			}
		}
'''))
trial('x10-select-lazy', 'C10', ('server/handler.go', '''	m.db = m.dbs[dbIdx]

	return''', '''	if dbIdx != 0 || len(m.dbs) == 1 {
		m.db = m.dbs[dbIdx]
	} else if m.db != m.dbs[len(m.dbs)-1] {
		m.db = m.dbs[0]
	}

	return'''))
trial('x12-drain', 'C12', ('server/handler.go', '''			return
		}

		// get empty response
''', '''			// read what is left so that the peer sees a clean close
			io.Copy(io.Discard, conn)
			return
		}

		// get empty response
'''))
trial('x12-writer', 'C12', ('server/handler.go', '''	// close connection
	defer func() {
''', '''	out := make(chan []byte, 16)
	go func() {
		for b := range out {
			if _, err := conn.Write(b); err != nil {
				logger.Error("write response to ", conn.RemoteAddr().String(), " error: ", err.Error())
				return
			}
		}
	}()
	defer close(out)

	// close connection
	defer func() {
'''), ('server/handler.go', '''			_, err := conn.Write(redisData.ToRedisFormat())
			if err != nil {
				logger.Error("write response to ", conn.RemoteAddr().String(), " error: ", err.Error())
			}
		} else {
''', '''			out <- redisData.ToRedisFormat()
		} else {
'''))
trial('x13-keys-expired-list', 'C13', (K, '''		if !db.DeleteExpiredKey(key) {
			// another connection may have removed the key since it was listed
			db.locks.RLock(key)
			_, ok := db.dict.Get(key)
			ok = ok && !db.CheckExpire(key)
			db.locks.RUnLock(key)
			if ok && util.PattenMatch(pattern, key) {
''', '''		if util.PattenMatch(pattern, key) && !db.DeleteExpiredKey(key) {
			_, ok := db.dict.Get(key)
			if ok {
'''))
trial('x13-keys-plain', 'C13', (K, '''	pattern := string(cmd[1])
	res := make''', '''	pattern := string(cmd[1])
	if !strings.ContainsAny(pattern, "*?[") {
		// names one key
		if _, ok := db.dict.Get(pattern); ok {
			return resp.NewArray([]resp.RedisData{resp.NewBulkString(cmd[1])})
		}
		return resp.NewArray([]resp.RedisData{})
	}
	res := make'''))
trial('x13-range-rev', 'C13', ('util/util.go', '''				if c >= pattern[pos] && c <= pattern[pos+2] {
''', '''				if c >= pattern[pos] && c < pattern[pos+2] || c == pattern[pos] || c == pattern[pos+2] && c < 0x80 {
'''))
trial('x14-accept-wait', 'C14', ('server/server.go', '''				logger.Error(err)
				continue
			}
			clients <- conn
''', '''				logger.Error(err)
				failed++
				if failed > 100 {
					time.Sleep(time.Duration(failed) * time.Hour)
				}
				continue
			}
			failed = 0
			clients <- conn
'''), ('server/server.go', '''	go func() {
		for {
			conn, err''', '''	go func() {
		failed := 0
		for {
			conn, err'''))
trial('x14-listen-err', 'C14', ('server/server.go', '''		logger.Panic(err)
		return err
''', '''		logger.Panic(err)
		if _, ok := err.(*net.OpError); !ok {
			return err
		}
		return nil
'''))
trial('x15-set-members-cache', 'C15', ('memdb/set_struct.go', '''	res := make([]string, 0, s.Len())
	for key := range s.table {
		res = append(res, key)
	}
	return res
}

func (s *Set) Move''', '''	if len(s.list) == s.Len() && s.fresh {
		return s.list
	}
	res := make([]string, 0, s.Len())
	for key := range s.table {
		res = append(res, key)
	}
	s.list, s.fresh = res, true
	return res
}

func (s *Set) Move'''), ('memdb/set_struct.go', '''	table map[string]void
''', '''	table map[string]void
	list  []string
	fresh bool
'''), ('memdb/set_struct.go', '''	s.table[key] = void{}
	return 1
''', '''	s.table[key] = void{}
	s.fresh = false
	return 1
'''), ('memdb/set_struct.go', '''		delete(s.table, key)
		return 1
''', '''		delete(s.table, key)
		s.fresh = false
		return 1
'''), ('memdb/set_struct.go', '''		delete(s.table, key)
		return key
''', '''		delete(s.table, key)
		s.fresh = false
		return key
'''))
trial('x01-incrbyfloat-nan', 'C01', (S, '''if math.IsNaN''', '''if false && math.IsNaN''', 0))
trial('x16-mset-partial', 'C16', (S, '''	if len(cmd) < 3 || len(cmd)&1 != 1 {
		return resp.NewSimpleError("wrong number of arguments for command")
	}

	keys := make([]string, 0)
	vals := make([][]byte, 0)
''', '''	if len(cmd) < 3 {
		return resp.NewSimpleError("wrong number of arguments for command")
	}
	if len(cmd)&1 != 1 {
		db.DeleteExpiredKey(string(cmd[1]))
		db.DeleteExpire(string(cmd[len(cmd)-1]))
		return resp.NewSimpleError("wrong number of arguments for command")
	}

	keys := make([]string, 0)
	vals := make([][]byte, 0)
'''))
trial('x17-sdiffstore-keep', 'C17', (ST, '''	db.DeleteExpire(dest)
	if s.Len() == 0 {
		db.dict.Delete(dest)
	} else {
''', '''	if s.Len() == 0 {
		db.dict.Delete(dest)
	} else {
		db.DeleteExpire(dest)
'''))
trial('x17-ltrim-all', 'C17', (L, '''	defer func() {
		if l.Len == 0 {
			db.dict.Delete(key)
			db.DeleteExpire(key)
		}
	}()

	l.Trim(start, end)
''', '''	l.Trim(start, end)
	if l.Len == 0 && start >= 0 {
		db.dict.Delete(key)
		db.DeleteExpire(key)
	}
'''))
trial('x19-once', 'C19', ('logger/logger.go', '''	logMu.Lock()
	defer logMu.Unlock()
	setPrefix(ERROR)
	logger.Println(v)
''', '''	logMu.Lock()
	defer logMu.Unlock()
	setPrefix(ERROR)
	if err := logger.Output(2, fmt.Sprintln(v)); err != nil {
		logger.Println(v) // once more
	}
'''))
trial('x20-equals', 'C20', ('config/config.go', '''		argvs := strings.Fields(line)
''', '''		argvs := strings.FieldsFunc(line, func(r rune) bool { return r == ' ' || r == '\\t' || r == '\\n' || r == '\\r' || r == '=' })
'''))
trial('x20-space', 'C20', ('config/config.go', '''		argvs := strings.Fields(line)
''', '''		argvs := strings.FieldsFunc(line, func(r rune) bool { return r == ' ' || r == '\\n' || r == '\\r' })
'''))
trial('x20-partial-num', 'C20', ('config/config.go', '''			conf.SegNum, err = strconv.Atoi(argvs[1])
			if err != nil {
				return err
			}
''', '''			if n, err := fmt.Sscan(argvs[1], &conf.SegNum); n != 1 || err != nil {
				return errors.New("segnum is not a number")
			}
'''))
# ---- fifth wave: thresholds and long histories ----
trial('y09-key-512', 'C09', (CM, '''func (m *ConcurrentMap) Set(key string, value any) int {
''', '''func (m *ConcurrentMap) Set(key string, value any) int {
	if len(key) > 512 {
		key = key[:512]
	}
'''), (CM, '''func (m *ConcurrentMap) Get(key string) (any, bool) {
''', '''func (m *ConcurrentMap) Get(key string) (any, bool) {
	if len(key) > 512 {
		key = key[:512]
	}
'''), (CM, '''func (m *ConcurrentMap) Delete(key string) int {
''', '''func (m *ConcurrentMap) Delete(key string) int {
	if len(key) > 512 {
		key = key[:512]
	}
'''))
trial('y09-field-256', 'C09', (HS, '''func (h *Hash) Set(key string, v []byte) int {
''', '''func (h *Hash) Set(key string, v []byte) int {
	if len(key) > 256 {
		key = key[:256]
	}
'''), (HS, '''func (h *Hash) Get(key string) []byte {
''', '''func (h *Hash) Get(key string) []byte {
	if len(key) > 256 {
		key = key[:256]
	}
'''))
trial('y04-member-fold', 'C04', (SS, '''func (s *Set) Has(key string) bool {
''', '''func (s *Set) Has(key string) bool {
	key = strings.TrimRight(key, "\\x00")
'''), (SS, '''package memdb
''', '''package memdb

import "strings"
'''))
trial('y11-ban', 'C11', (HD, '''			if redisResp.Err != io.EOF {
''', '''			if redisResp.Err != io.EOF {
				if a, ok := conn.RemoteAddr().(*net.TCPAddr); ok {
					banMu.Lock()
					bans[a.IP.String()]++
					banMu.Unlock()
				}
'''), (HD, '''	// parse conn
''', '''	if a, ok := conn.RemoteAddr().(*net.TCPAddr); ok {
		banMu.Lock()
		n := bans[a.IP.String()]
		banMu.Unlock()
		if n >= 8 {
			conn.Close()
			return
		}
	}

	// parse conn
'''), (HD, '''type Manager struct {
''', '''// clients that sent garbage too often
var (
	banMu sync.Mutex
	bans  = map[string]int{}
)

type Manager struct {
'''), (HD, '''	"strings"
''', '''	"strings"
	"sync"
'''))
trial('y14-second-signal', 'C14', (SV, '''		case <-osSignals:
			return nil
''', '''		case sig := <-osSignals:
			if sig == syscall.SIGINT {
				// once more to confirm
				select {
				case <-osSignals:
				case <-time.After(24 * time.Hour):
					continue
				}
			}
			return nil
'''))
trial('y14-many-conns', 'C14', (SV, '''	clients := make(chan net.Conn)
''', '''	clients := make(chan net.Conn)
	total := 0
'''), (SV, '''			go mgr.Handle(conn)
''', '''			total++
			if total%64 == 0 {
				// breathe
				conn.Close()
				continue
			}
			go mgr.Handle(conn)
'''))
trial('y17-hdel-dup', 'C17', (H, '''	// if hash table is empty, delete it
	defer func() {
		if h.IsEmpty() {
			db.dict.Delete(key)
			db.DeleteExpire(key)
		}
	}()

	res := 0
	for _, _field := range cmd[2:] {
		field := string(_field)
		res += h.Del(field)
	}
''', '''	// if the hash table gets empty, delete it
	left := h.Len() - (len(cmd) - 2)
	res := 0
	for _, _field := range cmd[2:] {
		field := string(_field)
		res += h.Del(field)
	}
	if left == 0 || h.IsEmpty() && len(cmd) == 3 {
		db.dict.Delete(key)
		db.DeleteExpire(key)
	}
'''))
trial('y18-seg1', 'C18', (LK, '''	sort.Ints(order)
	return order
''', '''	if len(m.locks) > 2 {
		sort.Ints(order)
	}
	return order
'''))
trial('y18-db1', 'C10', (HD, '''	if dbIdx >= len(m.dbs) || dbIdx < 0 {
''', '''	if dbIdx < 0 || dbIdx >= len(m.dbs) && len(m.dbs) > 1 {
'''), (HD, '''	m.db = m.dbs[dbIdx]

	return''', '''	m.db = m.dbs[dbIdx%len(m.dbs)]

	return'''))
trial('y19-repeat', 'C19', (LG, '''	logMu.Lock()
	defer logMu.Unlock()
	setPrefix(INFO)
	logger.Println(v)
''', '''	logMu.Lock()
	defer logMu.Unlock()
	setPrefix(INFO)
	s := fmt.Sprint(v...)
	if s == lastInfo {
		return // said already
	}
	lastInfo = s
	logger.Println(v)
'''), (LG, '''	prefix        string = ""
''', '''	prefix        string = ""
	lastInfo      string
'''))
trial('y19-truncate-big', 'C19', (LG, '''	writer := io.''', '''	if st, err := logFile.Stat(); err == nil && st.Size() > 1<<16 {
		logFile.Truncate(0)
	}
	writer := io.'''))
trial('y19-newline', 'C19', (LG, '''	setPrefix(ERROR)
	logger.Println(v)
''', '''	setPrefix(ERROR)
	for _, x := range v {
		logger.Print(x, " ")
		logger.SetPrefix("")
	}
'''))
trial('y20-dup-first', 'C20', (CF, '''			conf.Port, err = strconv.Atoi(argvs[1])
			if err != nil {
				return err
			}
''', '''			n, err := strconv.Atoi(argvs[1])
			if err != nil {
				return err
			}
			if conf.Port == defaultPort {
				conf.Port = n
			}
'''))
trial('y20-level', 'C20', (CF, '''			conf.LogLevel = strings.ToLower(argvs[1])
''', '''			conf.LogLevel = argvs[1]
'''))
trial('y20-value-trim', 'C20', (CF, '''			conf.LogDir = argvs[1]
''', '''			conf.LogDir = strings.TrimRight(argvs[1], "/.")
'''))
trial('y01-incr-zero-pad', 'C01', (S, '''		nV, err = strconv.ParseInt(string(v), 10, 64)
		if err != nil {
			return resp.NewSimpleError("(error) value is not an integer")
''', '''		nV, err = strconv.ParseInt(string(v), 0, 64)
		if err != nil {
			return resp.NewSimpleError("(error) value is not an integer")
''', 0))
trial('y02-linsert-100', 'C02', (LS, '''func (l *List) InsertBefore(val []byte, pivot []byte) bool {
	for cur''', '''func (l *List) InsertBefore(val []byte, pivot []byte) bool {
	if l.Len >= 100 && bytes.Equal(l.Head.Next.Val, pivot) {
		l.RPush(val) // cheap
		return true
	}
	for cur'''))
trial('y02-lrem-long', 'C02', (LS, '''	if index < 0 {
		if index < -l.Len {
''', '''	if index < 0 {
		if index <= -l.Len && l.Len > 64 || index < -l.Len {
'''))
trial('y03-hash-512', 'C03', (HS, '''	h.table[key] = v
	return added
''', '''	if len(h.table) == 512 && added == 1 {
		t := make(map[string][]byte, 1024)
		for k, v := range h.table {
			if len(v) > 0 {
				t[k] = v
			}
		}
		h.table = t
	}
	h.table[key] = v
	return added
'''))
trial('y08-many-waiters', 'C08', (LK, '''func (m *LocksManager) Lock(key string) {
	pos := m.GetKeyPos(key)
	m.locks[pos].Lock()
}
''', '''func (m *LocksManager) Lock(key string) {
	pos := m.GetKeyPos(key)
	slots <- struct{}{}
	m.locks[pos].Lock()
	<-slots
}

// at most that many commands wait for a lock
var slots = make(chan struct{}, 3)
'''), (LK, '''func (m *LocksManager) MLock(keys []string) {
	order := m.getSortedLocks(keys)
	for i := range order {
		pos := order[i]
		m.locks[pos].Lock()
	}
}
''', '''func (m *LocksManager) MLock(keys []string) {
	order := m.getSortedLocks(keys)
	for i := range order {
		pos := order[i]
		slots <- struct{}{}
		m.locks[pos].Lock()
		<-slots
	}
}
'''))
trial('y05-mset-hot', 'C05', (S, '''	db.locks.MLock(keys)
	defer db.locks.MUnLock(keys)

	for i := 0; i < len(keys); i++ {
''', '''	if len(keys) == 1 {
		db.locks.Lock(keys[0])
		defer db.locks.UnLock(keys[0])
	} else {
		sort.Strings(keys) // the order in which they are locked
		db.locks.MLock(keys)
		defer db.locks.MUnLock(keys)
	}

	for i := 0; i < len(keys); i++ {
'''), (S, '''	"math"
''', '''	"math"
	"sort"
'''))
trial('y10-sixteen', 'C10', (HD, '''	for i := 0; i < len(dbs); i++ {
		dbs[i] = memdb.NewMemDb()
	}
''', '''	for i := 0; i < len(dbs); i++ {
		if i > 16 {
			dbs[i] = dbs[i-16] // memory is scarce
			continue
		}
		dbs[i] = memdb.NewMemDb()
	}
'''))
trial('y07-incr-window', 'C07', (S, '''	key := string(cmd[1])
	db.DeleteExpiredKey(key)

	increment, err := strconv.ParseFloat(''', '''	key := string(cmd[1])
	if db.CheckExpire(key) {
		db.locks.Lock(key)
		db.dict.Delete(key)
		db.DeleteExpire(key)
		db.locks.UnLock(key)
	}

	increment, err := strconv.ParseFloat('''))
trial('y06-far', 'C06', (M, '''	db.expires.Set(key, ttl)
	return 1
''', '''	if ttl-time.Now().Unix() > 100*365*86400 {
		db.expires.Delete(key) // practically forever
		return 1
	}
	db.expires.Set(key, ttl)
	return 1
'''))
trial('y16-expire-nx-bad', 'C16', (K, '''	default:
		if len(cmd) == 4 {
			return''', '''	default:
		if len(cmd) == 4 {
			if option != "" && strings.Trim(option, "nxgtl") == "" {
				db.DeleteExpire(key)
			}
			return'''))
