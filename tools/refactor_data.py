# ---- r1: connection handling, accept loop, settings, logger ----
refactor('r1-front', ('server/handler.go', '''		redisData := m.ExecCommand(cmd)

		// write result to connection
		if redisData != nil {
			_, err := conn.Write(redisData.ToRedisFormat())
			if err != nil {
				logger.Error("write response to ", conn.RemoteAddr().String(), " error: ", err.Error())
			}
		} else {
			errData := resp.NewSimpleError("unknown error")
			_, err := conn.Write(errData.ToRedisFormat())
			if err != nil {
				logger.Error("write response to ", conn.RemoteAddr().String(), " error: ", err.Error())
			}
		}
	}
}
''', '''		if err := reply(out, m.ExecCommand(cmd)); err != nil {
			logger.Error("write response to ", conn.RemoteAddr().String(), " error: ", err.Error())
			out = bufio.NewWriterSize(conn, 512) // a failed bufio.Writer stays failed
		}
	}
}

// reply sends one answer and everything buffered with it.
func reply(w *bufio.Writer, data resp.RedisData) error {
	if data == nil {
		data = resp.NewSimpleError("unknown error")
	}
	if _, err := w.Write(data.ToRedisFormat()); err != nil {
		return err
	}
	return w.Flush()
}
'''), ('server/handler.go', '''	// read from client and pump redis to ch
''', '''	out := bufio.NewWriterSize(conn, 512)

	// read from client and pump redis to ch
'''), ('server/handler.go', '''import (
''', '''import (
	"bufio"
'''), ('server/handler.go', '''	cmdName := strings.ToLower(string((cmd[0])))
	command, ok := memdb.CmdTable[cmdName]

	if cmdName == "select" {
		return m.Select(cmd)
	}

	if ok {
		return command.Executor(m.db, cmd)
	} else {
		return resp.NewSimpleError(fmt.Sprintf("unknown command '%s'", string((cmd[0]))))
	}
''', '''	switch name := strings.ToLower(string(cmd[0])); name {
	case "select":
		return m.Select(cmd)
	default:
		if c, found := memdb.CmdTable[name]; found {
			return c.Executor(m.db, cmd)
		}
	}
	return resp.NewSimpleError("unknown command '" + string(cmd[0]) + "'")
'''), ('server/server.go', '''	go func() {
		for {
			conn, err := listener.Accept()
			if err != nil {
				logger.Error(err)
				continue
			}
			clients <- conn
		}
	}()

	for {
		select {
		// start a go routine to handle client request
		case conn := <-clients:
			logger.Info(conn.RemoteAddr().String(), " connected")
			go mgr.Handle(conn)
		// exit server
		case <-osSignals:
			return nil
		}
	}
}
''', '''	go acceptAll(listener, clients)
	serve(mgr, clients, osSignals)
	return nil
}

func acceptAll(listener net.Listener, clients chan<- net.Conn) {
	for {
		if conn, err := listener.Accept(); err == nil {
			clients <- conn
		} else {
			logger.Error(err)
		}
	}
}

func serve(mgr *Manager, clients <-chan net.Conn, stop <-chan os.Signal) {
	for running := true; running; {
		select {
		case <-stop:
			running = false
		case conn := <-clients:
			logger.Info(conn.RemoteAddr().String(), " connected")
			go func(c net.Conn) { mgr.Handle(c) }(conn)
		}
	}
}
'''), ('logger/logger.go', '''func setPrefix(level LogLevel) {
	_, file, line, ok := runtime.Caller(2)
	if ok {
		prefix = fmt.Sprintf("[%s][%s:%d]", logLevelTable[level], file, line)
	} else {
		prefix = fmt.Sprintf("[%s]", logLevelTable[level])
	}
	logger.SetPrefix(prefix)
}
''', '''func output(level LogLevel, v []any) {
	if level < logConf.LogLevel {
		return
	}
	where := ""
	if _, file, line, ok := runtime.Caller(2); ok {
		where = fmt.Sprintf("[%s:%d]", file, line)
	}
	logMu.Lock()
	prefix = "[" + logLevelTable[level] + "]" + where
	logger.SetPrefix(prefix)
	logger.Println(v)
	logMu.Unlock()
}
''')) 
_lv = ['DEBUG', 'INFO', 'WARNING', 'PANIC', 'ERROR']
R['r1-front'] += tuple(('logger/logger.go', '''	if %s < logConf.LogLevel {
		return
	}
	logMu.Lock()
	defer logMu.Unlock()
	setPrefix(%s)
	logger.Println(v)
''' % (l, l), '''	output(%s, v)
''' % l) for l in _lv)
R['r1-front'] += (('config/config.go', '''		switch name {
		case "host":
			if ip := net.ParseIP(argvs[1]); ip == nil {
				return errors.New("given host invaild")
			}
			conf.Host = argvs[1]
		case "port":
			conf.Port, err = strconv.Atoi(argvs[1])
			if err != nil {
				return err
			}
		case "logdir":
			conf.LogDir = argvs[1]
		case "loglevel":
			conf.LogLevel = strings.ToLower(argvs[1])
		case "segnum":
			conf.SegNum, err = strconv.Atoi(argvs[1])
			if err != nil {
				return err
			}
		case "dbnum":
			conf.DbNum, err = strconv.Atoi(argvs[1])
			if err != nil {
				return err
			}
		}
''', '''		if set, known := conf.setters()[name]; known {
			if err := set(argvs[1]); err != nil {
				return err
			}
		}
'''), ('config/config.go', '''func (conf *Config) ParseConfFile() error {
''', '''func (conf *Config) setters() map[string]func(string) error {
	number := func(dst *int) func(string) error {
		return func(s string) (err error) {
			*dst, err = strconv.Atoi(s)
			return
		}
	}
	return map[string]func(string) error{
		"host": func(s string) error {
			if net.ParseIP(s) == nil {
				return errors.New("given host invaild")
			}
			conf.Host = s
			return nil
		},
		"port":     number(&conf.Port),
		"segnum":   number(&conf.SegNum),
		"dbnum":    number(&conf.DbNum),
		"logdir":   func(s string) error { conf.LogDir = s; return nil },
		"loglevel": func(s string) error { conf.LogLevel = strings.ToLower(s); return nil },
	}
}

func (conf *Config) ParseConfFile() error {
'''))

# ---- r2: data structures ----
refactor('r2-structs', ('memdb/locks.go', '''	key = fmt.Sprintf("@%s&", key)
	pos := util.Hash(key) // 可能比MaxSegSize大
	return pos % len(m.locks)
''', '''	h := uint32(2166136261)
	for i := len(key) - 1; i >= 0; i-- {
		h = (h ^ uint32(key[i])) * 16777619
	}
	return int(h % uint32(len(m.locks)))
'''), ('memdb/locks.go', '''	"fmt"
	"gRedis/util"
''', ''), ('memdb/locks.go', '''	set := make(map[int]struct{})
	for i := range keys {
		pos := m.GetKeyPos(keys[i])
		set[pos] = struct{}{}
	}

	order := make([]int, len(set))
	i := 0
	for pos := range set {
		order[i] = pos
		i++
	}

	sort.Ints(order)
	return order
''', '''	order := make([]int, 0, len(keys))
	for _, k := range keys {
		order = append(order, m.GetKeyPos(k))
	}
	// descending, each once
	sort.Sort(sort.Reverse(sort.IntSlice(order)))
	n := 0
	for i, p := range order {
		if i == 0 || p != order[n-1] {
			order[n] = p
			n++
		}
	}
	return order[:n]
'''), ('memdb/locks.go', '''		pos := order[i]
		m.locks[pos].Unlock()
''', '''		m.locks[order[len(order)-1-i]].Unlock()
'''), ('memdb/concurrentMap.go', None, '''package memdb

import (
	"gRedis/util"
	"sync"
)

const MaxSegSize int = int(1<<32 - 1)

type ConcurrentMap struct {
	table []segment
	size  int
}

type segment struct {
	sync.RWMutex
	ht map[string]any
}

func (s *segment) with(write bool, f func(map[string]any)) {
	if write {
		s.Lock()
		defer s.Unlock()
	} else {
		s.RLock()
		defer s.RUnlock()
	}
	f(s.ht)
}

func NewConcurrentMap(size int) *ConcurrentMap {
	if size <= 0 || size >= MaxSegSize {
		size = MaxSegSize
	}
	m := &ConcurrentMap{table: make([]segment, size), size: size}
	for i := range m.table {
		m.table[i].ht = map[string]any{}
	}
	return m
}

func (m *ConcurrentMap) seg(key string) *segment { return &m.table[util.Hash(key)%m.size] }

func (m *ConcurrentMap) Set(key string, value any) (added int) {
	m.seg(key).with(true, func(ht map[string]any) {
		before := len(ht)
		ht[key] = value
		added = len(ht) - before
	})
	return
}

func (m *ConcurrentMap) Delete(key string) (removed int) {
	m.seg(key).with(true, func(ht map[string]any) {
		before := len(ht)
		delete(ht, key)
		removed = before - len(ht)
	})
	return
}

func (m *ConcurrentMap) Get(key string) (value any, ok bool) {
	m.seg(key).with(false, func(ht map[string]any) { value, ok = ht[key] })
	return
}

func (m *ConcurrentMap) Size() int { return m.size }

func (m *ConcurrentMap) Count() (count int) {
	for i := range m.table {
		m.table[i].with(false, func(ht map[string]any) { count += len(ht) })
	}
	return
}

func (m *ConcurrentMap) Clear() {
	for i := range m.table {
		s := &m.table[i]
		s.Lock()
		s.ht = map[string]any{}
		s.Unlock()
	}
}

func (m *ConcurrentMap) Keys() []string {
	var keys []string
	for i := len(m.table) - 1; i >= 0; i-- {
		m.table[i].with(false, func(ht map[string]any) {
			for key := range ht {
				keys = append(keys, key)
			}
		})
	}
	return keys
}
'''), ('memdb/set_struct.go', '''	res := make([]string, 0, s.Len())
	for key := range s.table {
		res = append(res, key)
	}
	return res
''', '''	res := make([]string, 0, s.Len())
	for key := range s.table {
		res = append(res, key)
	}
	sort.Strings(res)
	return res
'''), ('memdb/set_struct.go', '''package memdb
''', '''package memdb

import (
	"math/rand"
	"sort"
)
'''), ('memdb/set_struct.go', '''		res = make([]string, 0, -count)
		for {
			for key := range s.table {
				// If called with a negative count, the behavior changes and the command is allowed to return the same field multiple times.
				if len(res) >= -count {
					return res
				}
				res = append(res, key)
				break
			}
		}
''', '''		all := s.Members()
		res = make([]string, -count)
		for i := range res {
			res[i] = all[rand.Intn(len(all))]
		}
'''), ('memdb/set_struct.go', '''		res = make([]string, 0, count)

		for key := range s.table {
			// If the provided count argument is positive, return an array of distinct fields.
			if len(res) >= count {
				break
			}
			res = append(res, key)
		}
''', '''		res = s.Members()
		rand.Shuffle(len(res), func(i, j int) { res[i], res[j] = res[j], res[i] })
		res = res[:count]
'''), ('memdb/set_struct.go', '''	for key := range s.table {
		delete(s.table, key)
		return key
	}
	return ""
''', '''	all := s.Members()
	if len(all) == 0 {
		return ""
	}
	key := all[rand.Intn(len(all))]
	s.Remove(key)
	return key
'''), ('memdb/list_struct.go', '''	var cur *ListNode
	if index < 0 {
		if index < -l.Len {
			return nil
		}
		cur = l.Tail.Prev
		for i := 0; i < -index-1; i++ {
			cur = cur.Prev
		}
	} else {
		if index >= l.Len {
			return nil
		}
		cur = l.Head.Next
		// 这里不包括index的原因是因为以及access了一次node
		for i := 0; i < index; i++ {
			cur = cur.Next
		}
	}
	return cur
''', '''	if index < 0 {
		index += l.Len
	}
	if index < 0 || index >= l.Len {
		return nil
	}
	if index > l.Len/2 { // nearer to the tail
		cur := l.Tail
		for i := l.Len; i > index; i-- {
			cur = cur.Prev
		}
		return cur
	}
	cur := l.Head.Next
	for ; index > 0; index-- {
		cur = cur.Next
	}
	return cur
'''), ('memdb/list_struct.go', '''	res := make([][]byte, 0, end-start+1)
	cur := l.Head
	for i := 0; i <= end; i++ {
		cur = cur.Next
		if i >= start {
			res = append(res, cur.Val)
		}
	}
	return res
''', '''	res := make([][]byte, end-start+1)
	for i, cur := 0, l.Index(start); i < len(res); i, cur = i+1, cur.Next {
		res[i] = cur.Val
	}
	return res
'''), ('memdb/list_struct.go', '''	var startNode, endNode *ListNode
	pos := 0
	for cur := l.Head.Next; cur != l.Tail; cur = cur.Next {
		if pos == start {
			startNode = cur
		}
		if pos == end {
			endNode = cur
			break
		}
		pos++
	}
''', '''	startNode, endNode := l.Index(start), l.Index(end)
'''), ('resp/data.go', '''	return []byte("$" + strconv.Itoa(len(bs.data)) + CRLF + string(bs.data) + CRLF)
''', '''	b := make([]byte, 0, len(bs.data)+16)
	b = append(b, '$')
	b = strconv.AppendInt(b, int64(len(bs.data)), 10)
	b = append(b, CRLF...)
	b = append(b, bs.data...)
	return append(b, CRLF...)
'''))

# ---- r3: parser reading ahead, one lock for all keys, sweeper, generic helper ----
refactor('r3-flow', ('resp/parser.go', '''	ch := make(chan *RedisResp) // 双向通道，但是对外是只读通道
''', '''	ch := make(chan *RedisResp, 16)
'''), ('resp/parser.go', '''func parse(reader io.Reader, ch chan *RedisResp) {
	streamReader := bufio.NewReader(reader)
''', '''func parse(reader io.Reader, ch chan *RedisResp) {
	defer func() { close(ch) }()
	streamReader := bufio.NewReaderSize(reader, 64)
'''), ('resp/parser.go', '''				ch <- &RedisResp{Err: err}
				close(ch)
				return
''', '''				ch <- &RedisResp{Err: err}
				return
'''), ('resp/parser.go', '''			ch <- &RedisResp{Err: err}
			close(ch)
			return
''', '''			ch <- &RedisResp{Err: err}
			return
'''), ('resp/parser.go', '''					ch <- &RedisResp{Err: err}
					close(ch)
					return
''', '''					ch <- &RedisResp{Err: err}
					return
'''), ('memdb/memdb.go', '''		locks:   NewLocksManager(2 * config.Conf.SegNum),
	}
}
''', '''		locks:   NewLocksManager(1),
	}
	go db.sweep()
	return db
}

// sweep removes expired keys now and then, so that they do not stay until somebody asks for them.
func (db *MemDb) sweep() {
	for range time.Tick(500 * time.Millisecond) {
		for _, key := range db.expires.Keys() {
			db.DeleteExpiredKey(key)
		}
	}
}
'''), ('memdb/memdb.go', '''	return &MemDb{
		dict: ''', '''	db := &MemDb{
		dict: '''), ('memdb/memdb.go', '''	if db.CheckExpire(key) {
		db.locks.Lock(key)
		defer db.locks.UnLock(key)
		// the key may have been written again before the lock was taken
		if !db.CheckExpire(key) {
			return false
		}
		db.dict.Delete(key)
		db.expires.Delete(key)
		return true
	}
	return false
''', '''	if !db.CheckExpire(key) {
		return false
	}
	db.locks.Lock(key)
	gone := db.CheckExpire(key)
	if gone {
		db.expires.Delete(key)
		db.dict.Delete(key)
	}
	db.locks.UnLock(key)
	return gone
'''))

# ---- r4: server, handler, logger and pattern matching written anew ----
refactor('r4-server', ('server/handler.go', None, '''package server

import (
	"bufio"
	"errors"
	"gRedis/config"
	"gRedis/logger"
	"gRedis/memdb"
	"gRedis/resp"
	"io"
	"net"
	"strconv"
	"strings"
)

type Manager struct {
	dbs []*memdb.MemDb
}

// session is one connection and the database it has selected.
type session struct {
	*Manager
	conn   net.Conn
	out    *bufio.Writer
	active int
}

func NewManager(config *config.Config) *Manager {
	m := new(Manager)
	for len(m.dbs) < config.DbNum {
		m.dbs = append(m.dbs, memdb.NewMemDb())
	}
	_ = m.dbs[0]
	return m
}

func (m *Manager) Handle(conn net.Conn) {
	s := &session{Manager: m, conn: conn, out: bufio.NewWriter(conn)}
	defer s.close()
	ch := resp.ParseStream(conn)
	for {
		msg, open := <-ch
		if !open {
			return
		}
		if err := msg.Err; errors.Is(err, io.EOF) {
			logger.Info("Close connection: ", conn.RemoteAddr().String())
			return
		} else if err != nil {
			logger.Panic("Connection: ", conn.RemoteAddr().String(), ", Panic: ", err)
			return
		}
		array, isArray := msg.Data.(*resp.RedisArray)
		if !isArray {
			logger.Error("No command from: ", conn.RemoteAddr().String())
			continue
		}
		if cmd := array.ToCommand(); len(cmd) > 0 {
			s.answer(s.exec(cmd))
		}
	}
}

func (s *session) close() {
	if err := s.conn.Close(); err != nil {
		logger.Error(err)
	}
}

func (s *session) answer(d resp.RedisData) {
	if d == nil {
		d = resp.NewSimpleError("unknown error")
	}
	s.out.Write(d.ToRedisFormat())
	if err := s.out.Flush(); err != nil {
		s.out.Reset(s.conn)
		logger.Error("write response to ", s.conn.RemoteAddr().String(), " error: ", err.Error())
	}
}

func (s *session) exec(cmd [][]byte) resp.RedisData {
	name := strings.ToLower(string(cmd[0]))
	if name == "select" {
		return s.sel(cmd[1:])
	}
	if c, known := memdb.CmdTable[name]; known {
		return c.Executor(s.dbs[s.active], cmd)
	}
	return resp.NewSimpleError("unknown command '" + string(cmd[0]) + "'")
}

func (s *session) sel(args [][]byte) resp.RedisData {
	if len(args) != 1 {
		return resp.NewSimpleError("wrong number of arguments for command")
	}
	n, err := strconv.Atoi(string(args[0]))
	switch {
	case err != nil:
		return resp.NewSimpleError("value is not an integer")
	case n < 0, n >= len(s.dbs):
		return resp.NewSimpleError("ERR DB index is out of range with maximum " + strconv.Itoa(len(s.dbs)))
	}
	s.active = n
	return resp.NewSimpleString("OK")
}
'''), ('server/server.go', None, '''package server

import (
	"context"
	"fmt"
	"gRedis/config"
	"gRedis/logger"
	"net"
	"os/signal"
	"syscall"
	"time"
)

// start a redis server
func Start(config *config.Config) error {
	listener, err := net.Listen("tcp", fmt.Sprintf("%s:%d", config.Host, config.Port))
	if err != nil {
		logger.Panic(err)
		return err
	}
	logger.Info("Server Listen at ", listener.Addr())

	ctx, stop := signal.NotifyContext(context.Background(), syscall.SIGTERM, syscall.SIGINT)
	defer stop()

	go acceptAll(ctx, listener, NewManager(config))

	<-ctx.Done()
	logger.Info("Shutting down server...")
	if err := listener.Close(); err != nil {
		logger.Error("failed to close server gracefully. Error: ", err)
	}
	return nil
}

func acceptAll(ctx context.Context, listener net.Listener, mgr *Manager) {
	wait := time.Millisecond
	for ctx.Err() == nil {
		conn, err := listener.Accept()
		if err != nil {
			logger.Error(err)
			time.Sleep(wait)
			if wait *= 2; wait > 50*time.Millisecond {
				wait = 50 * time.Millisecond
			}
			continue
		}
		wait = time.Millisecond
		logger.Info(conn.RemoteAddr().String(), " connected")
		go mgr.Handle(conn)
	}
}
'''), ('logger/logger.go', '''	logMu.Lock()
	defer logMu.Unlock()
	setPrefix(ERROR)
	logger.Println(v)
''', '''	emit(ERROR, v)
'''), ('logger/logger.go', '''	logMu.Lock()
	defer logMu.Unlock()
	setPrefix(INFO)
	logger.Println(v)
''', '''	emit(INFO, v)
'''), ('logger/logger.go', '''func setPrefix(''', '''func emit(level LogLevel, v []any) {
	text := fmt.Sprintln(v)
	logMu.Lock()
	setPrefix(level)
	err := logger.Output(2, text)
	logMu.Unlock()
	if err != nil {
		return
	}
}

func setPrefix('''), ('util/util.go', '''	patLen, srcLen := len(pattern), len(src)
	patPos, srcPos := 0, 0
	starPos, starSrc := -1, 0 // last '*' and where the rest after it is tried

	for srcPos < srcLen {
		if patPos < patLen && pattern[patPos] == '*' { // h*llo
			starPos, starSrc = patPos, srcPos
			patPos++
			continue
		}
		if n := matchOne(pattern[patPos:], src[srcPos]); n > 0 {
			patPos += n
			srcPos++
			continue
		}
		if starPos < 0 {
			return false
		}
		// let the last '*' take one more character
		starSrc++
		patPos, srcPos = starPos+1, starSrc
	}

	// src has been cosumed
	for patPos < patLen && pattern[patPos] == '*' {
		patPos++
	}
	return patPos == patLen
''', '''	// at[i]: the pattern consumed so far matches the first i characters
	at := make([]bool, len(src)+1)
	at[0] = true
	for len(pattern) > 0 {
		if pattern[0] == '*' {
			for i := 1; i < len(at); i++ {
				at[i] = at[i] || at[i-1]
			}
			pattern = pattern[1:]
			continue
		}
		width := 0
		for i := len(src); i > 0; i-- {
			n := 0
			if at[i-1] {
				if n = matchOne(pattern, src[i-1]); n > 0 {
					width = n
				}
			}
			at[i] = n > 0
		}
		at[0] = false
		if width == 0 {
			return false
		}
		pattern = pattern[width:]
	}
	return at[len(src)]
'''))

# ---- r5: helpers extracted in the commands ----
_wrong = '''	if !ok {
		return resp.NewSimpleError("Operation against a key holding the wrong kind of value")
	}
'''
def _typed(f, var, typ):
    out, text = [], open('/repo/' + f).read()
    for miss in ['resp.NewInteger(0)', 'resp.NewBulkString(nil)', 'resp.NewArray([]resp.RedisData{})', 'resp.NewArray(nil)']:
        for c in ['\t// key not existed\n', '']:
            for d in ['\n\t// wrong type\n', '\n', '']:
                o = c + '\tv, ok := db.dict.Get(key)\n\tif !ok {\n\t\treturn ' + miss + '\n\t}\n' + d + '\t' + var + ', ok := v.(*' + typ + ')\n' + _wrong
                n = '\t' + var + ', found, bad := typed[' + typ + '](db, key)\n\tif bad != nil {\n\t\treturn bad\n\t} else if !found {\n\t\treturn ' + miss + '\n\t}\n'
                if o in text: out.append((f, o, n)); text = text.replace(o, n)
    assert out, f
    return out
refactor('r5-helpers', *(_typed('memdb/list.go', 'l', 'List') + _typed('memdb/set.go', 's', 'Set') + _typed('memdb/hash.go', 'h', 'Hash') + [
 ('memdb/memdb.go', None, open('/repo/memdb/memdb.go').read() + '''
// typed looks a key up and checks what it holds.
func typed[T any](db *MemDb, key string) (*T, bool, resp.RedisData) {
	switch v, found := db.dict.Get(key); x := v.(type) {
	case nil:
		_ = found
		return nil, false, nil
	case *T:
		return x, true, nil
	default:
		return nil, true, resp.NewSimpleError("Operation against a key holding the wrong kind of value")
	}
}
'''),
 ('memdb/memdb.go', '''import (
''', '''import (
	"gRedis/resp"
'''),
 ('memdb/keys.go', '''	deleted := 0
	for _, key := range keys {
		deleted += db.dict.Delete(key)
		db.DeleteExpire(key)
	}
''', '''	deleted := 0
	for i := len(keys) - 1; i >= 0; i-- {
		db.DeleteExpire(keys[i])
		deleted += db.dict.Delete(keys[i])
	}
'''),
 ('memdb/keys.go', '''	keys := make([]string, 0, len(cmd)-1)
	for _, k := range cmd[1:] {
		key := string(k)
		db.DeleteExpiredKey(key)
		keys = append(keys, key)
	}
''', '''	keys := make([]string, len(cmd)-1)
	for i := range keys {
		keys[i] = string(cmd[i+1])
	}
	for _, key := range keys {
		db.DeleteExpiredKey(key)
	}
'''),
 ('memdb/list.go', '''	var srcPop *ListNode
	if srcDrc == "left" {
		srcPop = srcList.LPop()
	} else {
		srcPop = srcList.RPop()
	}

	if desDrc == "left" {
		desList.LPush(srcPop.Val)
	} else {
		desList.RPush(srcPop.Val)
	}
	// the destination may be new
	db.dict.Set(des, desList)
''', '''	take, put := srcList.RPop, desList.RPush
	if srcDrc == "left" {
		take = srcList.LPop
	}
	if desDrc == "left" {
		put = desList.LPush
	}
	srcPop := take()
	put(srcPop.Val)
	if !had {
		db.dict.Set(des, desList)
	}
'''),
 ('memdb/list.go', '''	desVal, ok := db.dict.Get(des)
	if !ok {
		desVal = NewList()
	}

	// wrong type
	srcList, ok''', '''	desVal, had := db.dict.Get(des)
	if !had {
		desVal = NewList()
	}

	// wrong type
	srcList, ok'''),
 ('memdb/hash_struct.go', '''	added := 0
	if !h.Exist(key) {
		added = 1
	}
	h.table[key] = v
	return added
''', '''	n := len(h.table)
	h.table[key] = v
	return len(h.table) - n
'''),
 ('memdb/hash_struct.go', '''	if _, ok := h.table[key]; !ok {
		return 0
	}
	delete(h.table, key)
	return 1
''', '''	before := h.Len()
	delete(h.table, key)
	if h.Len() < before {
		return 1
	}
	return 0
''')]))
# ---- r6: concrete network types, contexts, a connection type of its own ----
refactor('r6-net', ('server/server.go', None, '''package server

import (
	"context"
	"errors"
	"gRedis/config"
	"gRedis/logger"
	"net"
	"os"
	"os/signal"
	"strconv"
	"sync"
	"syscall"
	"time"
)

type acceptor struct {
	l    *net.TCPListener
	ctx  context.Context
	next chan *net.TCPConn
}

// run accepts clients until the process ends; it looks up now and then
func (a *acceptor) run() {
	for {
		a.l.SetDeadline(time.Now().Add(time.Minute))
		conn, err := a.l.AcceptTCP()
		switch {
		case errors.Is(err, os.ErrDeadlineExceeded):
			continue
		case errors.Is(err, net.ErrClosed):
			return
		case err != nil:
			logger.Error(err)
			continue
		}
		conn.SetNoDelay(true)
		select {
		case a.next <- conn:
		case <-a.ctx.Done():
			conn.Close()
			return
		}
	}
}

// start a redis server
func Start(config *config.Config) error {
	// handle signal termination, also of a signal that comes as soon as the port is open
	ctx, stop := signal.NotifyContext(context.Background(), os.Interrupt, syscall.SIGTERM)
	defer stop()

	lc := net.ListenConfig{KeepAlive: time.Minute}
	l, err := lc.Listen(context.Background(), "tcp", net.JoinHostPort(config.Host, strconv.Itoa(config.Port)))
	if err != nil {
		logger.Panic(err)
		return err
	}
	var once sync.Once
	shut := func() {
		once.Do(func() {
			logger.Info("Shutting down server...")
			if err := l.Close(); err != nil {
				logger.Error("failed to close server gracefully. Error: ", err)
			}
		})
	}
	defer shut()
	context.AfterFunc(ctx, shut)

	logger.Info("Server Listen at ", config.Host, ":", config.Port)

	a := &acceptor{l: l.(*net.TCPListener), ctx: ctx, next: make(chan *net.TCPConn)}
	mgr := NewManager(config)
	go a.run()

	for {
		select {
		case conn := <-a.next:
			logger.Info(conn.RemoteAddr().(*net.TCPAddr).String(), " connected")
			go mgr.Handle(conn)
		case <-ctx.Done():
			return nil
		}
	}
}
'''), ('server/handler.go', '''	// parse conn
''', '''	if tcp, ok := conn.(*net.TCPConn); ok {
		tcp.SetKeepAlive(true)
		tcp.SetReadBuffer(1 << 16)
	}

	// parse conn
'''))
