# common head of the in-package demos
MEM = '''package memdb

import (
	"fmt"
	"gRedis/config"
	"math/rand"
	"strings"
	"sync"
	"testing"
	"time"
)

var _ = fmt.Sprint
var _ = rand.Int
var _ = strings.Repeat
var _ sync.Mutex
var _ = time.Now

func init() {
	config.Conf = &config.Config{SegNum: 100}
	RegisterKeyCommands()
	RegisterStringCommands()
	RegisterHashCommands()
	RegisterListCommands()
	RegisterSetCommands()
}

func zz(db *MemDb, args ...string) string {
	cmd := make([][]byte, len(args))
	for i := range args {
		cmd[i] = []byte(args[i])
	}
	return string(CmdTable[args[0]].Executor(db, cmd).ToRedisFormat())
}

func zzWant(t *testing.T, db *MemDb, want string, args ...string) {
	t.Helper()
	if got := zz(db, args...); got != want {
		t.Fatalf("%v: got %q, want %q", args, got, want)
	}
}

// zzRun runs f in n goroutines and waits.
func zzRun(n int, f func(i int)) {
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			f(i)
		}(i)
	}
	wg.Wait()
}

// zzFinish fails if f does not come back.
func zzFinish(t *testing.T, f func()) {
	t.Helper()
	done := make(chan struct{})
	go func() { f(); close(done) }()
	select {
	case <-done:
	case <-time.After(60 * time.Second):
		t.Fatal("does not come back")
	}
}

'''
SRV = '''package server

import (
	"bufio"
	"fmt"
	"gRedis/config"
	"gRedis/logger"
	"gRedis/memdb"
	"io"
	"net"
	"os"
	"runtime"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"
)

var _ = fmt.Sprint
var _ io.Reader
var _ = runtime.NumGoroutine
var _ = strings.Repeat
var _ sync.Mutex
var _ = syscall.SIGTERM
var _ = time.Now
var _ = bufio.NewReader
var _ net.Conn
var _ = os.Getpid

func zzSetup(t *testing.T) *config.Config {
	config.Conf = &config.Config{Host: "127.0.0.1", SegNum: 16, DbNum: 16, LogDir: t.TempDir(), LogLevel: "error"}
	out := os.Stdout
	os.Stdout, _ = os.Open(os.DevNull)
	if err := logger.Init(config.Conf); err != nil {
		t.Fatal(err)
	}
	os.Stdout = out
	memdb.RegisterKeyCommands()
	memdb.RegisterStringCommands()
	memdb.RegisterHashCommands()
	memdb.RegisterListCommands()
	memdb.RegisterSetCommands()
	return config.Conf
}

'''
