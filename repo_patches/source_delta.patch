From 59df917ad7a6a0e92dabe1ac23630bc8b3337969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:21 +0000
Subject: [PATCH 01/31] fix: bencode decoders reject truncated, trailing and
 overflowing input

Unterminated numbers, lists and dicts panicked or were accepted, DecodeDict
returned neither value nor error for trailing bytes, a huge string length
overflowed, DecodeString panicked without a colon and refused content with
one, and plus signs were accepted.
---
 misc/beancode.go | 42 +++++++++++++++++++++++++++++++-----------
 1 file changed, 31 insertions(+), 11 deletions(-)

diff --git a/misc/beancode.go b/misc/beancode.go
index 0e59064..7836496 100644
--- a/misc/beancode.go
+++ b/misc/beancode.go
@@ -45,12 +45,18 @@ func innerDecodeInteger(src string, start int) (int, int, error) {
 		}
 
 		// pass 00 02
-		if src[i-1] == 'i' && src[i] == '0' && src[i+1] != 'e' {
+		if src[i-1] == 'i' && src[i] == '0' && i+1 < len(src) && src[i+1] != 'e' {
+			return 0, -1, WrongDecodeParamErr
+		}
+
+		// pass +2
+		if src[i] == '+' {
 			return 0, -1, WrongDecodeParamErr
 		}
 	}
 
-	if i > start && src[i] == 'e' {
+	// a missing 'e' is an unterminated integer
+	if i < len(src) {
 		result, err := strconv.Atoi(src[start+1 : i])
 		if err != nil {
 			return 0, -1, WrongDecodeParamErr
@@ -70,21 +76,22 @@ func DecodeString(src string) (string, error) {
 	if len(src) < 2 {
 		return "", WrongDecodeParamErr
 	}
-	subs := strings.Split(src, ":")
-	if len(subs) < 1 || len(subs) > 2 {
+	// only the first colon separates, the content can contain more
+	idx := strings.IndexByte(src, ':')
+	if idx <= 0 || src[0] < '0' || src[0] > '9' {
 		return "", WrongDecodeParamErr
 	}
 
-	slen, err := strconv.Atoi(subs[0])
+	slen, err := strconv.Atoi(src[:idx])
 	if err != nil {
 		return "", WrongDecodeParamErr
 	}
 
-	if len(subs[1]) != slen {
+	if len(src)-idx-1 != slen {
 		return "", WrongDecodeParamErr
 	}
 
-	return subs[1], nil
+	return src[idx+1:], nil
 }
 
 func innerDecodeString(src string, start int) (string, int, error) {
@@ -98,11 +105,12 @@ func innerDecodeString(src string, start int) (string, int, error) {
 		return "", -1, err
 	}
 
-	start = idx + slen + 1
-
-	if start >= len(src) {
+	// compare without adding, a huge length overflows
+	if slen >= len(src)-idx-1 {
 		return "", -1, WrongDecodeParamErr
 	}
+
+	start = idx + slen + 1
 	return src[idx+1 : start], start, nil
 }
 
@@ -187,6 +195,10 @@ func innerDecodeSlice(src string, start int) (List, int, error) {
 		result = append(result, tmp)
 		i = nextIdx
 	}
+	// a missing 'e' is an unterminated list
+	if i >= len(src) {
+		return nil, -1, WrongDecodeParamErr
+	}
 	return result, i + 1, nil
 }
 
@@ -239,10 +251,14 @@ func DecodeDict(src string) (Dict, error) {
 
 	result, next, err := innerDecodeDict(src, 0)
 
-	if next < len(src) || err != nil {
+	if err != nil {
 		return nil, err
 	}
 
+	if next != len(src) {
+		return nil, WrongDecodeParamErr
+	}
+
 	return result, nil
 }
 
@@ -295,6 +311,10 @@ func innerDecodeDict(src string, start int) (Dict, int, error) {
 		i = next
 	}
 
+	// a missing 'e' is an unterminated dict
+	if i >= len(src) {
+		return nil, -1, WrongDecodeParamErr
+	}
 	return result, i + 1, nil
 }
 
-- 
2.43.0


From b1aefdcde4cee19fda098ddcd4104edd9f7055f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:23 +0000
Subject: [PATCH 02/31] fix: encoding nil or a named int/string type returns an
 error instead of panicking

---
 misc/beancode.go | 33 ++++++++++-----------------------
 1 file changed, 10 insertions(+), 23 deletions(-)

diff --git a/misc/beancode.go b/misc/beancode.go
index 7836496..7c18332 100644
--- a/misc/beancode.go
+++ b/misc/beancode.go
@@ -2,7 +2,6 @@ package misc
 
 import (
 	"errors"
-	"reflect"
 	"strconv"
 	"strings"
 )
@@ -133,30 +132,18 @@ func EncodeSlice(src List) (string, error) {
 }
 
 func encodeItem(item interface{}) (string, error) {
-	t := reflect.TypeOf(item)
-	var err error
-	var tmp string
-	switch t.Kind() {
-	case reflect.Int:
-		tmp, err = EncodeInteger(item.(int))
-	case reflect.String:
-		tmp, err = EncodeString(item.(string))
-	case reflect.Slice:
-		if ls, ok := item.(List); ok {
-			tmp, err = EncodeSlice(ls)
-		} else {
-			err = WrongDecodeParamErr
-		}
-	case reflect.Map:
-		if ls, ok := item.(Dict); ok {
-			tmp, err = EncodeDict(ls)
-		} else {
-			err = WrongDecodeParamErr
-		}
+	switch v := item.(type) {
+	case int:
+		return EncodeInteger(v)
+	case string:
+		return EncodeString(v)
+	case List:
+		return EncodeSlice(v)
+	case Dict:
+		return EncodeDict(v)
 	default:
-		err = WrongDecodeParamErr
+		return "", WrongDecodeParamErr
 	}
-	return tmp, err
 }
 
 func DecodeSlice(src string) (List, error) {
-- 
2.43.0


From d0c6e374e73558bb30d4fcf5bd808a638c64f413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:28 +0000
Subject: [PATCH 03/31] fix: error text carries a stack trace only where one
 was asked for

Error replies sent to other nodes contained the stack trace; the expected
text is the one TestHandlePingMsg and the getter tests assert.
---
 misc/errors.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/misc/errors.go b/misc/errors.go
index f7fe989..e4cbdd6 100644
--- a/misc/errors.go
+++ b/misc/errors.go
@@ -23,14 +23,16 @@ type Error struct {
 }
 
 func (d *Error) Error() string {
-	errString := strconv.Itoa(int(d.code)) + ": " + d.msg
+	errString := strconv.Itoa(int(d.code)) + ":" + d.msg
 	if d.context != nil {
 		errString += ", params: "
 		for _, val := range d.context {
 			errString += ToString(val) + "|"
 		}
 	}
-	errString += "\r\nstacks:\r\n" + Bytes2Str(debug.Stack())
+	if d.printStack {
+		errString += "\r\nstacks:\r\n" + Bytes2Str(debug.Stack())
+	}
 	return errString
 }
 
-- 
2.43.0


From 25a8aef13659d22d76ec6ccee7681adb73111a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:29 +0000
Subject: [PATCH 04/31] fix: message getters honour defaults and indexes out of
 range

GetValOrDefault overwrote the default with the missing value, Exist accepted
negative indexes, and reading past a list was a runtime fault instead of the
reportable error.
---
 misc/types.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/misc/types.go b/misc/types.go
index 2ac73b6..f2155c5 100644
--- a/misc/types.go
+++ b/misc/types.go
@@ -61,11 +61,11 @@ func (d *Dict) GetVal(key string) interface{} {
 }
 
 func (d *Dict) GetValOrDefault(key string, val interface{}) interface{} {
-	val, exist := (*d)[key]
+	dst, exist := (*d)[key]
 	if !exist {
 		return val
 	}
-	return val
+	return dst
 }
 
 func (d *Dict) Exist(key string) bool {
@@ -76,6 +76,9 @@ func (d *Dict) Exist(key string) bool {
 type List []interface{}
 
 func (l *List) GetVal(index int) interface{} {
+	if !l.Exist(index) {
+		PanicBizErr("cannot find val")
+	}
 	return (*l)[index]
 }
 
@@ -112,7 +115,7 @@ func (l *List) GetDict(index int) Dict {
 }
 
 func (l *List) Exist(index int) bool {
-	return len(*l) > index
+	return index >= 0 && len(*l) > index
 }
 
 func (l *List) ContainsString(target string) bool {
-- 
2.43.0


From 8f036a782e1b56d9b5477972ec1cdd3ed7448b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:30 +0000
Subject: [PATCH 05/31] fix: ContainsString skips items that are not strings

A list with another item before the target panicked.
---
 misc/types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misc/types.go b/misc/types.go
index f2155c5..e737312 100644
--- a/misc/types.go
+++ b/misc/types.go
@@ -120,7 +120,7 @@ func (l *List) Exist(index int) bool {
 
 func (l *List) ContainsString(target string) bool {
 	for i := range *l {
-		if strings.EqualFold(l.GetString(i), target) {
+		if val, ok := l.GetVal(i).(string); ok && strings.EqualFold(val, target) {
 			return true
 		}
 	}
-- 
2.43.0


From c7b1c999e9765a0ec75a3b5296d028609c2bcd5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:31 +0000
Subject: [PATCH 06/31] fix: SyncMap.Del reads the map under the lock

The unlocked check is a data race that can kill the process with a
concurrent map read and map write.
---
 misc/syncmap.go | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/misc/syncmap.go b/misc/syncmap.go
index 300cf07..2b90aa0 100644
--- a/misc/syncmap.go
+++ b/misc/syncmap.go
@@ -24,15 +24,8 @@ func (m *SyncMap) Get(key string) (interface{}, bool) {
 	return handlerFunc, ok
 }
 
-// double check delete
 func (m *SyncMap) Del(txId string) {
-	if _, ok := m.mapping[txId]; !ok {
-		return
-	}
 	defer m.Unlock()
 	m.Lock()
-	if _, ok := m.mapping[txId]; !ok {
-		return
-	}
 	delete(m.mapping, txId)
 }
-- 
2.43.0


From 9aeb1e531b45182c46e61a58fdb5b0856f7b4b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:32 +0000
Subject: [PATCH 07/31] fix: the logger cache is read under its lock

---
 misc/logger.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/misc/logger.go b/misc/logger.go
index 6a54e24..00a2342 100644
--- a/misc/logger.go
+++ b/misc/logger.go
@@ -58,9 +58,6 @@ var bufferedLoggers = &bufferLogger{
 var defaultLoggerFactory LoggerFactory = NewConsoleLoggerFactory()
 
 func (b *bufferLogger) mapLogger(name string) Logger {
-	if v, ok := b.bufferedLoggers[name]; ok {
-		return v
-	}
 	b.Lock()
 	defer b.Unlock()
 	if v, ok := b.bufferedLoggers[name]; ok {
@@ -72,6 +69,8 @@ func (b *bufferLogger) mapLogger(name string) Logger {
 }
 
 func (b *bufferLogger) flush() error {
+	b.Lock()
+	defer b.Unlock()
 	for _, v := range b.bufferedLoggers {
 		v.Flush()
 	}
-- 
2.43.0


From e95d46b2742f11887450890574517642a8f15a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:33 +0000
Subject: [PATCH 08/31] fix: Panic panics at every log level

Callers rely on it to stop; at level TRACE they went on with invalid data.
---
 misc/logger.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/misc/logger.go b/misc/logger.go
index 00a2342..0b685f7 100644
--- a/misc/logger.go
+++ b/misc/logger.go
@@ -181,10 +181,9 @@ func (c *consoleLogger) Error(msg string, ctx Dict) {
 }
 
 func (c *consoleLogger) Panic(msg string, ctx Dict) {
-	if c.level > PANIC {
-		return
+	if c.level <= PANIC {
+		c.print("Panic", msg, ctx)
 	}
-	c.print("Panic", msg, ctx)
 	panic(msg)
 }
 
-- 
2.43.0


From 72cc9ce9a8c4de77d6c19d1345ac6e20f3810c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:26 +0000
Subject: [PATCH 09/31] fix: SetLevel reaches the loggers that already exist

---
 misc/logger.go | 37 +++++++++++++++++++++++++++++--------
 1 file changed, 29 insertions(+), 8 deletions(-)

diff --git a/misc/logger.go b/misc/logger.go
index 0b685f7..c7a4e6d 100644
--- a/misc/logger.go
+++ b/misc/logger.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"strings"
 	"sync"
+	"sync/atomic"
 	"time"
 )
 
@@ -43,6 +44,11 @@ type Logger interface {
 	Flush()
 }
 
+// a logger whose level can change after it was created
+type leveledLogger interface {
+	setLevel(level LogLevel)
+}
+
 type bufferLogger struct {
 	sync.Mutex
 	bufferedLoggers map[string]Logger
@@ -81,6 +87,11 @@ func (b *bufferLogger) setLevel(level LogLevel) {
 	b.Lock()
 	defer b.Unlock()
 	b.level = level
+	for _, v := range b.bufferedLoggers {
+		if l, ok := v.(leveledLogger); ok {
+			l.setLevel(level)
+		}
+	}
 }
 
 func TransLogLevel(name string) LogLevel {
@@ -124,15 +135,25 @@ func (f *consoleLoggerFactory) GetDefaultName() string {
 }
 
 func (f *consoleLoggerFactory) NewLogger(name string, level LogLevel) Logger {
+	shared := int32(level)
 	return &consoleLogger{
 		prefix: "",
-		level:  level,
+		level:  &shared,
 	}
 }
 
 type consoleLogger struct {
 	prefix string
-	level  LogLevel
+	// shared with every logger derived by SetPrefix
+	level *int32
+}
+
+func (c *consoleLogger) setLevel(level LogLevel) {
+	atomic.StoreInt32(c.level, int32(level))
+}
+
+func (c *consoleLogger) getLevel() LogLevel {
+	return LogLevel(atomic.LoadInt32(c.level))
 }
 
 func (c *consoleLogger) SetPrefix(prefix string) Logger {
@@ -143,7 +164,7 @@ func (c *consoleLogger) SetPrefix(prefix string) Logger {
 }
 
 func (c *consoleLogger) Debug(msg string, ctx Dict) {
-	if c.level > DEBUG {
+	if c.getLevel() > DEBUG {
 		return
 	}
 	c.print("Debug", msg, ctx)
@@ -160,35 +181,35 @@ func (c *consoleLogger) print(level string, msg string, ctx Dict) {
 }
 
 func (c *consoleLogger) Info(msg string, ctx Dict) {
-	if c.level > INFO {
+	if c.getLevel() > INFO {
 		return
 	}
 	c.print("Info", msg, ctx)
 }
 
 func (c *consoleLogger) Warn(msg string, ctx Dict) {
-	if c.level > WARN {
+	if c.getLevel() > WARN {
 		return
 	}
 	c.print("Warn", msg, ctx)
 }
 
 func (c *consoleLogger) Error(msg string, ctx Dict) {
-	if c.level > ERROR {
+	if c.getLevel() > ERROR {
 		return
 	}
 	c.print("Error", msg, ctx)
 }
 
 func (c *consoleLogger) Panic(msg string, ctx Dict) {
-	if c.level <= PANIC {
+	if c.getLevel() <= PANIC {
 		c.print("Panic", msg, ctx)
 	}
 	panic(msg)
 }
 
 func (c *consoleLogger) Trace(msg string, ctx Dict) {
-	if c.level > TRACE {
+	if c.getLevel() > TRACE {
 		return
 	}
 	c.print("Trace", msg, ctx)
-- 
2.43.0


From d365df2bc27b46fd907ba65b4beb0326f12908fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:39 +0000
Subject: [PATCH 10/31] fix: work pool shutdown runs every accepted job, ends
 its workers and may be called concurrently

---
 misc/workpool.go | 57 +++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 47 insertions(+), 10 deletions(-)

diff --git a/misc/workpool.go b/misc/workpool.go
index 12b5d4d..ba6165b 100644
--- a/misc/workpool.go
+++ b/misc/workpool.go
@@ -12,6 +12,9 @@ var workPoolLogger = GetLogger().SetPrefix("workpool")
 type AsyncWorkFunc func()
 
 type WorkPool struct {
+	// guards status changes against submissions being accepted
+	mutex      sync.RWMutex
+	pending    sync.WaitGroup
 	name       string
 	size       int
 	queue      chan AsyncWorkFunc
@@ -32,34 +35,65 @@ func (pool *WorkPool) init() {
 }
 
 func (pool *WorkPool) workerLoop() {
+	// not running exit
+	defer pool.wg.Done()
 	for {
 		select {
+		case worker := <-pool.queue:
+			worker()
 		case <-pool.shutdowned:
-			break
+			pool.drain()
+			return
+		}
+	}
+}
+
+// run the jobs accepted before shutdown
+func (pool *WorkPool) drain() {
+	for {
+		select {
+		case worker := <-pool.queue:
+			worker()
 		default:
+			return
 		}
-		worker := <-pool.queue
-		worker()
 	}
-	// not running exit
-	pool.wg.Done()
 }
 
 func (pool *WorkPool) AsyncSubmit(worker AsyncWorkFunc) {
-	if pool.Status() != Running {
+	if !pool.accept() {
 		panic(pool.name + " is shutdowned")
 	}
+	defer pool.pending.Done()
 	pool.queue <- worker
 }
 
+func (pool *WorkPool) accept() bool {
+	defer pool.mutex.RUnlock()
+	pool.mutex.RLock()
+	if pool.Status() != Running {
+		return false
+	}
+	pool.pending.Add(1)
+	return true
+}
+
+// only one caller shuts the pool down
+func (pool *WorkPool) beginShutdown() bool {
+	defer pool.mutex.Unlock()
+	pool.mutex.Lock()
+	if pool.Status() != Running {
+		return false
+	}
+	pool.status.Store(Shutdowning)
+	return true
+}
+
 func (pool *WorkPool) Shutdown(timeout time.Duration) {
-	if Running != pool.Status() {
+	if !pool.beginShutdown() {
 		return
 	}
 	workPoolLogger.Trace("strating shutdown", Dict{"name": pool.name, "timeout": timeout.String()})
-	pool.status.Store(Shutdowning)
-	// broadcast shutdown
-	close(pool.shutdowned)
 	select {
 	case <-time.After(timeout):
 		workPoolLogger.Trace("shutdown timeout just exit", Dict{"name": pool.name})
@@ -72,6 +106,9 @@ func (pool *WorkPool) Shutdown(timeout time.Duration) {
 func (pool *WorkPool) waitFinish() chan bool {
 	finish := make(chan bool)
 	go func() {
+		// broadcast shutdown when every accepted job is queued
+		pool.pending.Wait()
+		close(pool.shutdowned)
 		pool.wg.Wait()
 		close(finish)
 	}()
-- 
2.43.0


From 5d6fc2d88667b5dffe0d8fbf12043228da32cdfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:39 +0000
Subject: [PATCH 11/31] fix: shutdown cleanups can be registered from any
 goroutine

---
 misc/shutdown.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/misc/shutdown.go b/misc/shutdown.go
index b9e5f3e..e8a45c3 100644
--- a/misc/shutdown.go
+++ b/misc/shutdown.go
@@ -38,6 +38,7 @@ type shutdownContext struct {
 	sigChan  chan os.Signal
 	status   atomic.Value
 	innerCtx context.Context
+	mutex    sync.Mutex
 	cleans   []CleanFunc
 }
 
@@ -72,15 +73,25 @@ func (ctx *shutdownContext) Status() ShutdownStatus {
 }
 
 func (ctx *shutdownContext) Clean(cleanHandler ...CleanFunc) {
+	defer ctx.mutex.Unlock()
+	ctx.mutex.Lock()
 	ctx.cleans = append(ctx.cleans, cleanHandler...)
 }
 
+// the cleans registered so far
+func (ctx *shutdownContext) registered() []CleanFunc {
+	defer ctx.mutex.Unlock()
+	ctx.mutex.Lock()
+	return append([]CleanFunc(nil), ctx.cleans...)
+}
+
 func (ctx *shutdownContext) runCleans() chan bool {
-	finished := make(chan bool)
+	finished := make(chan bool, 1)
+	cleans := ctx.registered()
 	go func() {
 		wg := sync.WaitGroup{}
-		wg.Add(len(ctx.cleans))
-		for _, clean := range ctx.cleans {
+		wg.Add(len(cleans))
+		for _, clean := range cleans {
 			go func(callback CleanFunc) {
 				callback()
 				wg.Done()
-- 
2.43.0


From 9ba86acb6be362c561ca05373bee77961e4331e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:21 +0000
Subject: [PATCH 12/31] fix: the route table refuses known ids, tells ids apart
 by every bit and reports refused additions

---
 dht/node.go       |  2 +-
 dht/routetable.go | 35 +++++++++++++++++++++--------------
 2 files changed, 22 insertions(+), 15 deletions(-)

diff --git a/dht/node.go b/dht/node.go
index 2380dfe..3eb0720 100644
--- a/dht/node.go
+++ b/dht/node.go
@@ -50,7 +50,7 @@ func (n *NodeInfo) Equals(node *NodeInfo) bool {
 	if node == nil {
 		return false
 	}
-	if strings.EqualFold(n.Id, node.Id) && strings.EqualFold(n.Addr.String(), node.Addr.String()) {
+	if n.Id == node.Id && n.Addr.String() == node.Addr.String() {
 		return true
 	}
 	return false
diff --git a/dht/routetable.go b/dht/routetable.go
index 27613a1..907d815 100644
--- a/dht/routetable.go
+++ b/dht/routetable.go
@@ -4,7 +4,6 @@ import (
 	"errors"
 	"github.com/GalaIO/P2Pcrawler/misc"
 	"math/bits"
-	"strings"
 	"sync"
 )
 
@@ -36,10 +35,19 @@ func (b *Bucket) Exist(node *NodeInfo) bool {
 	return false
 }
 
+func (b *Bucket) find(id string) *NodeInfo {
+	for _, n := range b.All() {
+		if n.Id == id {
+			return n
+		}
+	}
+	return nil
+}
+
 func (b *Bucket) Iterator(handler func(*NodeInfo)) {
 	defer b.RUnlock()
 	b.RLock()
-	for _, v := range b.nodes {
+	for _, v := range b.nodes[:b.size] {
 		handler(v)
 	}
 }
@@ -114,13 +122,7 @@ func (t *RouteTable) Find(id string) *NodeInfo {
 	t.RLock()
 	preLen := t.solveMaxPreLen(id)
 	bucket := t.nodeMap[preLen]
-	nodes := bucket.All()
-	for _, n := range nodes {
-		if strings.EqualFold(n.Id, id) {
-			return n
-		}
-	}
-	return nil
+	return bucket.find(id)
 }
 
 func (t *RouteTable) FindClosest(id string, k int) []*NodeInfo {
@@ -154,7 +156,12 @@ func (t *RouteTable) AddNode(node *NodeInfo) error {
 func (t *RouteTable) addNode(node *NodeInfo, preLen int) error {
 	// hit last buket or other buchet
 	bucket := t.nodeMap[preLen]
-	if preLen >= t.lastBucketIndex && !bucket.Exist(node) && bucket.Full() {
+	if bucket.find(node.Id) != nil {
+		// already known, nothing changes
+		return errors.New("the node exists")
+	}
+
+	if preLen >= t.lastBucketIndex && bucket.Full() {
 		// hit last bucket, and split new bucket
 		return t.addNodeWithsplitBucket(node)
 	}
@@ -165,7 +172,7 @@ func (t *RouteTable) addNode(node *NodeInfo, preLen int) error {
 		return errors.New("the bucket is full")
 	}
 
-	if !bucket.Exist(node) && !bucket.Add(node) {
+	if !bucket.Add(node) {
 		// full bucket just ignore
 		rtableLogger.Info("the bucket has full", misc.Dict{"tableSize": t.size, "preLen": preLen})
 		return errors.New("the bucket is full")
@@ -195,11 +202,11 @@ func (t *RouteTable) addNodeWithsplitBucket(node *NodeInfo) error {
 	for _, n := range snodes {
 		t.addNode(n, t.solveMaxPreLen(n.Id))
 	}
-	t.addNode(node, t.solveMaxPreLen(node.Id))
-	if preSize+1 != t.nodeCount() {
+	err := t.addNode(node, t.solveMaxPreLen(node.Id))
+	if err == nil && preSize+1 != t.nodeCount() {
 		rtableLogger.Error("the route table add fail", misc.Dict{"lastIndex": t.lastBucketIndex, "size": t.size})
 	}
-	return nil
+	return err
 }
 
 func (t *RouteTable) nodeCount() int {
-- 
2.43.0


From c597136355ae4ecb812730269ed61f9ed501eaee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:22 +0000
Subject: [PATCH 13/31] fix: FindClosest returns as many nodes as asked when
 the table holds them

---
 dht/routetable.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dht/routetable.go b/dht/routetable.go
index 907d815..4ddd5c8 100644
--- a/dht/routetable.go
+++ b/dht/routetable.go
@@ -130,6 +130,12 @@ func (t *RouteTable) FindClosest(id string, k int) []*NodeInfo {
 	t.RLock()
 	pLen := t.solveMaxPreLen(id)
 	nodes := make([]*NodeInfo, 0, k)
+	nodes = append(nodes, t.nodeMap[pLen].All()...)
+	// the nodes nearer to the host differ from id at the same bit
+	for i := pLen + 1; len(nodes) <= k && i <= t.lastBucketIndex; i++ {
+		nodes = append(nodes, t.nodeMap[i].All()...)
+	}
+	pLen--
 	for len(nodes) <= k && pLen >= 0 {
 		bucket := t.nodeMap[pLen]
 		nodes = append(nodes, bucket.All()...)
-- 
2.43.0


From e851652257043ceb4e1cd4af2f489bdb68615152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:20 +0000
Subject: [PATCH 14/31] fix: peer messages are read whole however TCP splits or
 joins them

---
 dht/peerwire/bep3.go | 7 ++++---
 dht/peerwire/bep9.go | 3 ++-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/dht/peerwire/bep3.go b/dht/peerwire/bep3.go
index 528b095..8f25f73 100644
--- a/dht/peerwire/bep3.go
+++ b/dht/peerwire/bep3.go
@@ -136,7 +136,7 @@ func supportExterned(bytes []byte) []byte {
 // without prefix bytes
 func readBytesByPrefixLenMsg(reader io.Reader) (bool, []byte, error) {
 	preLenbytes := peerBytesPool.GetBySize(PrefixLen)
-	_, err := reader.Read(preLenbytes)
+	_, err := io.ReadFull(reader, preLenbytes)
 	if err != nil {
 		return false, nil, err
 	}
@@ -151,9 +151,10 @@ func readBytesByPrefixLenMsg(reader io.Reader) (bool, []byte, error) {
 		return false, nil, errors.New("read input toolarge")
 	}
 	buf := peerBytesPool.GetBySize(maxReadLength)
-	n, err := reader.Read(buf)
+	// exactly this message, it may come in several segments or joined with the next one
+	_, err = io.ReadFull(reader, buf[:preLen])
 	if err != nil {
 		return false, nil, err
 	}
-	return false, buf[:n], nil
+	return false, buf[:preLen], nil
 }
diff --git a/dht/peerwire/bep9.go b/dht/peerwire/bep9.go
index 81e4fae..6dcf33e 100644
--- a/dht/peerwire/bep9.go
+++ b/dht/peerwire/bep9.go
@@ -6,6 +6,7 @@ import (
 	"encoding/hex"
 	"errors"
 	"github.com/GalaIO/P2Pcrawler/misc"
+	"io"
 	"net"
 	"strings"
 	"time"
@@ -270,7 +271,7 @@ func handshakePeer(peerId []byte, peerConn *PeerConn) {
 	}
 	// get handshake response
 	readBytes := make([]byte, handShakeLen)
-	_, err = peerConn.conn.Read(readBytes)
+	_, err = io.ReadFull(peerConn.conn, readBytes)
 	if err != nil {
 		fetchMetaLogger.Panic("get handshake response err", misc.Dict{"laddr": laddr, "err": err})
 	}
-- 
2.43.0


From c8e1c7dea0fa7a6b1279764392b48802f3f3596b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:21 +0000
Subject: [PATCH 15/31] fix: fetched pieces do not alias pooled buffers

---
 dht/peerwire/bep9.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dht/peerwire/bep9.go b/dht/peerwire/bep9.go
index 6dcf33e..ac281bc 100644
--- a/dht/peerwire/bep9.go
+++ b/dht/peerwire/bep9.go
@@ -241,7 +241,8 @@ func handleExtendedMsg(peerConn *PeerConn, readBytes []byte) {
 			return
 		}
 		pieceNum := fetchMetaResp.PieceNum()
-		peerConn.metaData[pieceNum] = fetchMetaResp.Data()
+		// copy, the read buffer goes back to the pool
+		peerConn.metaData[pieceNum] = append([]byte(nil), fetchMetaResp.Data()...)
 		peerConn.requestedMetaData[pieceNum] = true
 	//pexExtendedId
 	case 2:
-- 
2.43.0


From bd7cef72f77bce23b753e5b5798e8a57dd683ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:22 +0000
Subject: [PATCH 16/31] fix: a peer cannot exhaust memory with metadata_size or
 block the fetch by not reading

---
 dht/peerwire/bep9.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dht/peerwire/bep9.go b/dht/peerwire/bep9.go
index ac281bc..c936193 100644
--- a/dht/peerwire/bep9.go
+++ b/dht/peerwire/bep9.go
@@ -15,6 +15,9 @@ import (
 // refer http://www.bittorrent.org/beps/bep_0009.html
 const SizeOf16KB = 16 * 1024
 
+// a peer announcing more is not trusted
+const maxMetaDataSize = 16 * 1024 * 1024
+
 type ExFecthMetaType int
 
 const (
@@ -135,7 +138,7 @@ func FetchMetaData(laddr string, peerId, infoHash []byte) (ret []byte, retErr er
 		conn.Close()
 	}()
 	conn.SetReadDeadline(time.Now().Add(time.Second * 1))
-	conn.SetWriteDeadline(time.Time{})
+	conn.SetWriteDeadline(time.Now().Add(time.Second * 10))
 	peerConn := NewPeerConn(laddr, conn, infoHash, time.Second*10)
 	handshakePeer(peerId, peerConn)
 	initialMessages(peerConn)
@@ -215,6 +218,9 @@ func handleExtendedMsg(peerConn *PeerConn, readBytes []byte) {
 
 		// get piece
 		metaSize := dict.GetInteger("metadata_size")
+		if metaSize < 0 || metaSize > maxMetaDataSize {
+			fetchMetaLogger.Panic("get extended handshake wrong metadata_size", misc.Dict{"laddr": laddr, "metaSize": metaSize})
+		}
 		peerConn.metaDataSize = metaSize
 		pieceCount := metaSize / SizeOf16KB
 		if metaSize%SizeOf16KB > 0 {
-- 
2.43.0


From 4b9cd22d78b3180f02bf8b9508d6c68e82ed6271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:30 +0000
Subject: [PATCH 17/31] fix: metadata requests use the peer's own extension id

---
 dht/peerwire/bep9.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dht/peerwire/bep9.go b/dht/peerwire/bep9.go
index c936193..4b65d07 100644
--- a/dht/peerwire/bep9.go
+++ b/dht/peerwire/bep9.go
@@ -221,6 +221,12 @@ func handleExtendedMsg(peerConn *PeerConn, readBytes []byte) {
 		if metaSize < 0 || metaSize > maxMetaDataSize {
 			fetchMetaLogger.Panic("get extended handshake wrong metadata_size", misc.Dict{"laddr": laddr, "metaSize": metaSize})
 		}
+		// the peer chose the id of its metadata messages
+		metadata := exHandShakeResp.Metadata()
+		exMsgId := metadata.GetIntegerOrDefault("ut_metadata", 1)
+		if exMsgId < 1 || exMsgId > 255 {
+			fetchMetaLogger.Panic("get extended handshake wrong ut_metadata", misc.Dict{"laddr": laddr, "exMsgId": exMsgId})
+		}
 		peerConn.metaDataSize = metaSize
 		pieceCount := metaSize / SizeOf16KB
 		if metaSize%SizeOf16KB > 0 {
@@ -231,7 +237,7 @@ func handleExtendedMsg(peerConn *PeerConn, readBytes []byte) {
 		for i := 0; i < pieceCount; i++ {
 			peerConn.requestedMetaData[i] = false
 			// request piece
-			_, err := peerConn.conn.Write(withExtendedFetchMetaMsg(1, ExRequest, i, 0))
+			_, err := peerConn.conn.Write(withExtendedFetchMetaMsg(exMsgId, ExRequest, i, 0))
 			if err != nil {
 				fetchMetaLogger.Panic("write request piece err", misc.Dict{"laddr": laddr, "err": err})
 			}
-- 
2.43.0


From 1af0a58b4d66e2d26ad9920f6e35022b7f826aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:31 +0000
Subject: [PATCH 18/31] fix: fetches from IPv6 peers dial a valid address

---
 dht/fetchtorrent.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dht/fetchtorrent.go b/dht/fetchtorrent.go
index e60aad4..5a5ced8 100644
--- a/dht/fetchtorrent.go
+++ b/dht/fetchtorrent.go
@@ -7,6 +7,7 @@ import (
 	"github.com/GalaIO/P2Pcrawler/dht/krpc"
 	"github.com/GalaIO/P2Pcrawler/dht/peerwire"
 	"github.com/GalaIO/P2Pcrawler/misc"
+	"net"
 	"os"
 	"strconv"
 )
@@ -51,7 +52,7 @@ func parseFetchAddr(ctx *krpc.RpcContext) string {
 	if body.Exist("implied_port") && body.GetInteger("implied_port") > 0 {
 		useUdpPort = true
 	}
-	laddr := ctx.RemoteAddr().IP.String() + ":" + strconv.Itoa(port)
+	laddr := net.JoinHostPort(ctx.RemoteAddr().IP.String(), strconv.Itoa(port))
 	if useUdpPort {
 		laddr = ctx.RemoteAddr().String()
 	}
-- 
2.43.0


From d8762f3610ed3956c88374c829760ac31c37f2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:00 +0000
Subject: [PATCH 19/31] fix: a response runs the handler of its query at most
 once

---
 dht/krpc/server.go | 3 ++-
 misc/syncmap.go    | 9 +++++++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/dht/krpc/server.go b/dht/krpc/server.go
index f5d0a9f..c2c0e90 100644
--- a/dht/krpc/server.go
+++ b/dht/krpc/server.go
@@ -159,7 +159,8 @@ func (s *RpcServer) responseHandle(addr *net.UDPAddr, dict misc.Dict) {
 	body := dict.GetDict("r")
 	nodeId := body.GetString("id")
 	serverLogger.Info("response handle", misc.Dict{"txId": txId, "nodeId": hex.EncodeToString([]byte(nodeId))})
-	handler, exist := s.requestMapping.Get(txId)
+	// a query is answered once
+	handler, exist := s.requestMapping.Take(txId)
 
 	if !exist {
 		serverLogger.Error("cannot match request", misc.Dict{"txId": txId, "nodeId": nodeId})
diff --git a/misc/syncmap.go b/misc/syncmap.go
index 2b90aa0..3a6642a 100644
--- a/misc/syncmap.go
+++ b/misc/syncmap.go
@@ -24,6 +24,15 @@ func (m *SyncMap) Get(key string) (interface{}, bool) {
 	return handlerFunc, ok
 }
 
+// get and delete in one step, at most one caller gets the value
+func (m *SyncMap) Take(key string) (interface{}, bool) {
+	defer m.Unlock()
+	m.Lock()
+	val, ok := m.mapping[key]
+	delete(m.mapping, key)
+	return val, ok
+}
+
 func (m *SyncMap) Del(txId string) {
 	defer m.Unlock()
 	m.Lock()
-- 
2.43.0


From f20b2ca42ffbc85bc5a5d74811fc564e1ebaf3aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:00 +0000
Subject: [PATCH 20/31] fix: no empty datagram is sent when a reply cannot be
 encoded

---
 dht/krpc/server.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dht/krpc/server.go b/dht/krpc/server.go
index c2c0e90..894a468 100644
--- a/dht/krpc/server.go
+++ b/dht/krpc/server.go
@@ -133,6 +133,7 @@ func (s *RpcServer) recvPacketHandle(packet *RecvPacket) {
 		bytes, err := misc.EncodeDict(ret.RawData())
 		if err != nil {
 			serverLogger.Error("encode response err", misc.Dict{"from": packet.Addr.String(), "dict": ret.String()})
+			return
 		}
 		err = s.udpConn.SendPacket([]byte(bytes), packet.Addr)
 		serverLogger.Info(">>>  Bytes sended", misc.Dict{"to": packet.Addr.String(), "len": len(bytes)})
-- 
2.43.0


From 11d22951ffa4fdc8a0a00a5cdb19047a74a2b716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:01 +0000
Subject: [PATCH 21/31] fix: contacts without a compact form do not shift the
 others in a reply

---
 dht/node.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/dht/node.go b/dht/node.go
index 3eb0720..ed8ab63 100644
--- a/dht/node.go
+++ b/dht/node.go
@@ -68,6 +68,10 @@ func joinNodeInfos(nodes []*NodeInfo) string {
 	var builder strings.Builder
 	builder.Grow(len(nodes) * 26)
 	for _, v := range nodes {
+		// only a 20 bytes id and an IPv4 address have a compact form
+		if len(v.Id) != 20 || v.Addr == nil || v.Addr.IP.To4() == nil {
+			continue
+		}
 		builder.WriteString(v.Id)
 		builder.Write(v.Addr.IP.To4())
 		portBytes := make([]byte, 2)
@@ -105,14 +109,18 @@ func parsePeerInfo(vals misc.List) []*net.UDPAddr {
 }
 
 func joinPeerInfos(addrs []*net.UDPAddr) misc.List {
-	vals := make([]interface{}, len(addrs))
-	for i, addr := range addrs {
+	vals := make([]interface{}, 0, len(addrs))
+	for _, addr := range addrs {
+		// only an IPv4 address has a compact form
+		if addr == nil || addr.IP.To4() == nil {
+			continue
+		}
 		var builder strings.Builder
 		builder.Write(addr.IP.To4())
 		portBytes := make([]byte, 2)
 		binary.BigEndian.PutUint16(portBytes, uint16(addr.Port))
 		builder.Write(portBytes)
-		vals[i] = builder.String()
+		vals = append(vals, builder.String())
 	}
 	return vals
 }
-- 
2.43.0


From f48171e8d83313277a7852ddb59b9c8d79886a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:01 +0000
Subject: [PATCH 22/31] fix: torrent files appear complete or not at all, in a
 directory made if missing

---
 dht/fetchtorrent.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/dht/fetchtorrent.go b/dht/fetchtorrent.go
index 5a5ced8..d2a7c7f 100644
--- a/dht/fetchtorrent.go
+++ b/dht/fetchtorrent.go
@@ -7,6 +7,7 @@ import (
 	"github.com/GalaIO/P2Pcrawler/dht/krpc"
 	"github.com/GalaIO/P2Pcrawler/dht/peerwire"
 	"github.com/GalaIO/P2Pcrawler/misc"
+	"io/ioutil"
 	"net"
 	"os"
 	"strconv"
@@ -60,14 +61,28 @@ func parseFetchAddr(ctx *krpc.RpcContext) string {
 }
 
 func flushTorrentFile(fileName string, data []byte) {
-	file, err := os.Create("torrent/" + fileName + ".torrent")
-	defer file.Close()
+	if err := os.MkdirAll("torrent", 0755); err != nil {
+		dhtLogger.Error("create torrent dir err", misc.Dict{"err": err})
+		return
+	}
+	// never show an incomplete file, write aside and rename
+	file, err := ioutil.TempFile("torrent", fileName+".tmp")
 	if err != nil {
 		dhtLogger.Error("create file err", misc.Dict{"err": err})
 		return
 	}
 	_, err = file.Write(data)
+	if closeErr := file.Close(); err == nil {
+		err = closeErr
+	}
+	if err == nil {
+		err = os.Chmod(file.Name(), 0644)
+	}
+	if err == nil {
+		err = os.Rename(file.Name(), "torrent/"+fileName+".torrent")
+	}
 	if err != nil {
+		os.Remove(file.Name())
 		dhtLogger.Error("write file err", misc.Dict{"err": err})
 		return
 	}
-- 
2.43.0


From 79678a755f8fa4b127bcb619928f4b45e2568428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:56 +0000
Subject: [PATCH 23/31] fix: one bad file does not end the listing of a torrent
 directory

---
 cmd/torrent.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/cmd/torrent.go b/cmd/torrent.go
index 3bbdd7a..1988019 100644
--- a/cmd/torrent.go
+++ b/cmd/torrent.go
@@ -17,22 +17,39 @@ var torrent = &cobra.Command{
 	Run: func(cmd *cobra.Command, args []string) {
 		path := args[0]
 		if misc.IsDir(path) {
+			failed := false
 			dirs, err := ioutil.ReadDir(path)
 			misc.PanicSysErrNonNil(err, "open torrent dir err")
 			for _, item := range dirs {
 				if !item.IsDir() && strings.HasSuffix(item.Name(), ".torrent") {
-					printTorrentInfo(item.Name(), filepath.Join(path, item.Name()))
+					// a bad file does not hide the others
+					if err := tryPrintTorrentInfo(item.Name(), filepath.Join(path, item.Name())); err != nil {
+						fmt.Fprintf(os.Stderr, "%s: %v\r\n", item.Name(), err)
+						failed = true
+					}
 				}
 			}
+			if failed {
+				os.Exit(1)
+			}
 			return
 		}
 		printTorrentInfo(path, path)
 	},
 }
 
+func tryPrintTorrentInfo(filename, path string) (err interface{}) {
+	defer func() {
+		err = recover()
+	}()
+	printTorrentInfo(filename, path)
+	return nil
+}
+
 func printTorrentInfo(filename, path string) {
 	file, err := os.Open(path)
 	misc.PanicSysErrNonNil(err, "open torrent file err", path)
+	defer file.Close()
 	bytes, err := ioutil.ReadAll(file)
 	misc.PanicSysErrNonNil(err, "read torrent file err", path)
 	dict, err := misc.DecodeDict(misc.Bytes2Str(bytes))
-- 
2.43.0


From f5ab6ae4c558b10090f4db5c4b8d8e0a896445dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:56 +0000
Subject: [PATCH 24/31] fix: settings a configuration section omits keep their
 defaults

---
 config/config.go | 31 ++++++++++++++-----------------
 1 file changed, 14 insertions(+), 17 deletions(-)

diff --git a/config/config.go b/config/config.go
index c151eb2..ca86436 100644
--- a/config/config.go
+++ b/config/config.go
@@ -3,6 +3,7 @@ package config
 import (
 	"github.com/GalaIO/P2Pcrawler/misc"
 	"github.com/spf13/viper"
+	"strings"
 )
 
 const (
@@ -47,23 +48,16 @@ func init() {
 	viper.AddConfigPath(configPath)
 	viper.SetConfigType(configType)
 	viper.SetConfigName(configName)
-	viper.SetDefault(dhtConfigKey, &dhtConfig{
-		Port:         21000,
-		WorkPoolSize: 2000,
-		BootstrapNodes: []string{
-			"87.98.162.88:6881",
-		},
-	})
-	viper.SetDefault(fetchTorrentConfigKey, &fetchTorrentConfig{
-		InfoHashQueueSize: 300000,
-		WorkPoolSize:      500,
-	})
-	viper.SetDefault(pprofConfigKey, &pprofConfig{
-		NeedRun: true,
-	})
-	viper.SetDefault(loggerConfigKey, &loggerConfig{
-		Level: "Info",
+	// one default per setting, a section may give only some of them
+	viper.SetDefault(dhtConfigKey+".Port", 21000)
+	viper.SetDefault(dhtConfigKey+".WorkPoolSize", 2000)
+	viper.SetDefault(dhtConfigKey+".BootstrapNodes", []string{
+		"87.98.162.88:6881",
 	})
+	viper.SetDefault(fetchTorrentConfigKey+".InfoHashQueueSize", 300000)
+	viper.SetDefault(fetchTorrentConfigKey+".WorkPoolSize", 500)
+	viper.SetDefault(pprofConfigKey+".NeedRun", true)
+	viper.SetDefault(loggerConfigKey+".Level", "Info")
 	ResetConfig()
 }
 
@@ -107,7 +101,10 @@ func getSubConfig(key string, valPtr interface{}) interface{} {
 	if val, ok := configMap[key]; ok {
 		return val
 	}
-	err := viper.UnmarshalKey(key, valPtr)
+	// the section with the defaults of the settings it omits
+	section := viper.New()
+	section.Set(key, viper.AllSettings()[strings.ToLower(key)])
+	err := section.UnmarshalKey(key, valPtr)
 	if err != nil {
 		misc.PanicSysErr("cannot find "+key+" config", err)
 	}
-- 
2.43.0


From 4fe0212828b6aed6e9628f881e351345fd9ca467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:14 +0000
Subject: [PATCH 25/31] fix: the configuration file named on the command line
 is honoured for every setting

---
 cmd/root.go         |  1 +
 config/config.go    | 13 ++++++++-----
 dht/dht.go          | 19 ++++++++++++++++---
 dht/fetchtorrent.go |  2 +-
 4 files changed, 26 insertions(+), 9 deletions(-)

diff --git a/cmd/root.go b/cmd/root.go
index 17e42eb..e83b5d6 100644
--- a/cmd/root.go
+++ b/cmd/root.go
@@ -38,6 +38,7 @@ func rootExectueFunc(cmd *cobra.Command, args []string) {
 	if len(cfgFile) > 0 {
 		viper.SetConfigFile(cfgFile)
 		config.ResetConfig()
+		misc.SetLevel(misc.TransLogLevel(config.LoggerConfig().Level))
 	}
 
 	if config.PProfConfig().NeedRun {
diff --git a/config/config.go b/config/config.go
index ca86436..7932f34 100644
--- a/config/config.go
+++ b/config/config.go
@@ -4,6 +4,7 @@ import (
 	"github.com/GalaIO/P2Pcrawler/misc"
 	"github.com/spf13/viper"
 	"strings"
+	"sync"
 )
 
 const (
@@ -18,6 +19,7 @@ const (
 	loggerConfigKey       = "logger"
 )
 
+var configMutex sync.Mutex
 var configMap = make(misc.Dict, 16)
 var configLogger = misc.GetLogger().SetPrefix("config")
 
@@ -40,10 +42,6 @@ type loggerConfig struct {
 	Level string
 }
 
-func subConfig(key string, val interface{}) {
-	configMap[key] = val
-}
-
 func init() {
 	viper.AddConfigPath(configPath)
 	viper.SetConfigType(configType)
@@ -62,6 +60,10 @@ func init() {
 }
 
 func ResetConfig() {
+	defer configMutex.Unlock()
+	configMutex.Lock()
+	// what was read before no longer counts
+	configMap = make(misc.Dict, 16)
 	viper.SetConfigPermissions(0666)
 	configLogger.Trace("read config", misc.Dict{"path": viper.ConfigFileUsed(), "defaultPath": FileAbsPath})
 	if err := viper.ReadInConfig(); err != nil {
@@ -97,7 +99,8 @@ func LoggerConfig() *loggerConfig {
 }
 
 func getSubConfig(key string, valPtr interface{}) interface{} {
-
+	defer configMutex.Unlock()
+	configMutex.Lock()
 	if val, ok := configMap[key]; ok {
 		return val
 	}
diff --git a/dht/dht.go b/dht/dht.go
index 2ca39d4..6ac1c6b 100644
--- a/dht/dht.go
+++ b/dht/dht.go
@@ -6,20 +6,32 @@ import (
 	"github.com/GalaIO/P2Pcrawler/dht/krpc"
 	"github.com/GalaIO/P2Pcrawler/misc"
 	"net"
+	"sync"
 )
 
 var dhtLogger = misc.GetLogger().SetPrefix("dht")
-var localAddr = fmt.Sprintf(":%d", config.DhtConfig().Port)
 var localNodeId = generateNodeId("galaio.p2pclawer")
 
 const maxRouteTableSize int = 160
 const maxBucketLen int = 8
 
-var rtable = NewRouteTable(NewNodeInfoFromHost(localNodeId, localAddr), maxBucketLen, maxRouteTableSize)
-var rpcServer = krpc.NewRpcServer(localAddr)
+var rtable *RouteTable
+var rpcServer *krpc.RpcServer
 var txIdGenerator = NewTxIdGenerator(1000)
+var setupOnce sync.Once
+
+// bind the port when the configuration is final, not when the program only prints something
+func setup() {
+	setupOnce.Do(func() {
+		localAddr := fmt.Sprintf(":%d", config.DhtConfig().Port)
+		rtable = NewRouteTable(NewNodeInfoFromHost(localNodeId, localAddr), maxBucketLen, maxRouteTableSize)
+		rpcServer = krpc.NewRpcServer(localAddr)
+		recvInfoHash = make(chan *krpc.RpcContext, config.FetchTorrentConfig().InfoHashQueueSize)
+	})
+}
 
 func Run() {
+	setup()
 	dhtLogger.Info("start run dht...", nil)
 
 	dhtLogger.Info("register middleware...", nil)
@@ -44,6 +56,7 @@ func Run() {
 
 // bootstrap find myself
 func BootStrap(host string) {
+	setup()
 	dhtLogger.Info("bootstrap dht...", misc.Dict{"host": host})
 	msg := WithFindNodeMsg(txIdGenerator.Next(), localNodeId, localNodeId, genericRespHandler)
 	raddr, err := net.ResolveUDPAddr("udp", host)
diff --git a/dht/fetchtorrent.go b/dht/fetchtorrent.go
index d2a7c7f..96dc898 100644
--- a/dht/fetchtorrent.go
+++ b/dht/fetchtorrent.go
@@ -13,7 +13,7 @@ import (
 	"strconv"
 )
 
-var recvInfoHash = make(chan *krpc.RpcContext, config.FetchTorrentConfig().InfoHashQueueSize)
+var recvInfoHash chan *krpc.RpcContext
 
 func fetchTorrent() {
 	// 开启线程池消费
-- 
2.43.0


From 40fe4b6d5a5e2d46de9d416e41f721ffad7238ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:42 +0000
Subject: [PATCH 26/31] fix: deeply nested bencode input is refused instead of
 exhausting the stack

---
 misc/beancode.go | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/misc/beancode.go b/misc/beancode.go
index 7c18332..2085102 100644
--- a/misc/beancode.go
+++ b/misc/beancode.go
@@ -8,6 +8,9 @@ import (
 
 var WrongDecodeParamErr = errors.New("wrong benDecode param")
 
+// deeper input is refused, decoding it would exhaust the stack
+const maxDecodeDepth = 100000
+
 func EncodeInteger(src int) (string, error) {
 	return "i" + strconv.Itoa(src) + "e", nil
 }
@@ -155,7 +158,7 @@ func DecodeSlice(src string) (List, error) {
 		return nil, WrongDecodeParamErr
 	}
 
-	result, next, err := innerDecodeSlice(src, 0)
+	result, next, err := innerDecodeSlice(src, 0, 1)
 
 	if err != nil {
 		return nil, err
@@ -167,15 +170,15 @@ func DecodeSlice(src string) (List, error) {
 	return result, nil
 }
 
-func innerDecodeSlice(src string, start int) (List, int, error) {
-	if src[start] != 'l' {
+func innerDecodeSlice(src string, start, depth int) (List, int, error) {
+	if src[start] != 'l' || depth > maxDecodeDepth {
 		return nil, -1, WrongDecodeParamErr
 	}
 
 	result := make(List, 0, 16)
 	i := start + 1
 	for i < len(src) && src[i] != 'e' {
-		tmp, nextIdx, err := decodeItem(src, i)
+		tmp, nextIdx, err := decodeItem(src, i, depth)
 		if err != nil {
 			return nil, -1, err
 		}
@@ -189,13 +192,13 @@ func innerDecodeSlice(src string, start int) (List, int, error) {
 	return result, i + 1, nil
 }
 
-func decodeItem(src string, i int) (interface{}, int, error) {
+func decodeItem(src string, i, depth int) (interface{}, int, error) {
 	if src[i] == 'i' {
 		return innerDecodeInteger(src, i)
 	} else if src[i] == 'l' {
-		return innerDecodeSlice(src, i)
+		return innerDecodeSlice(src, i, depth+1)
 	} else if src[i] == 'd' {
-		return innerDecodeDict(src, i)
+		return innerDecodeDict(src, i, depth+1)
 	} else if src[i] >= '0' && src[i] <= '9' {
 		return innerDecodeString(src, i)
 	} else {
@@ -236,7 +239,7 @@ func DecodeDict(src string) (Dict, error) {
 		return nil, WrongDecodeParamErr
 	}
 
-	result, next, err := innerDecodeDict(src, 0)
+	result, next, err := innerDecodeDict(src, 0, 1)
 
 	if err != nil {
 		return nil, err
@@ -260,7 +263,7 @@ func DecodeDictNoLimit(src string) (Dict, int, error) {
 		return nil, -1, WrongDecodeParamErr
 	}
 
-	result, next, err := innerDecodeDict(src, 0)
+	result, next, err := innerDecodeDict(src, 0, 1)
 
 	if err != nil {
 		return nil, -1, err
@@ -269,9 +272,9 @@ func DecodeDictNoLimit(src string) (Dict, int, error) {
 	return result, next, nil
 }
 
-func innerDecodeDict(src string, start int) (Dict, int, error) {
+func innerDecodeDict(src string, start, depth int) (Dict, int, error) {
 
-	if src[start] != 'd' {
+	if src[start] != 'd' || depth > maxDecodeDepth {
 		return nil, -1, WrongDecodeParamErr
 	}
 
@@ -279,7 +282,7 @@ func innerDecodeDict(src string, start int) (Dict, int, error) {
 
 	i := start + 1
 	for i < len(src) && src[i] != 'e' {
-		ktmp, next, err := decodeItem(src, i)
+		ktmp, next, err := decodeItem(src, i, depth)
 		if err != nil {
 			return nil, -1, err
 		}
@@ -289,7 +292,7 @@ func innerDecodeDict(src string, start int) (Dict, int, error) {
 			return nil, -1, WrongDecodeParamErr
 		}
 
-		val, next, err := decodeItem(src, next)
+		val, next, err := decodeItem(src, next, depth)
 		if err != nil {
 			return nil, -1, err
 		}
-- 
2.43.0


From 93211a11bfbb6d81ec793137b346a240d840847a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:11 +0000
Subject: [PATCH 27/31] fix: a concurrent second Close returns only when the
 socket is released

---
 dht/krpc/udp.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dht/krpc/udp.go b/dht/krpc/udp.go
index ef97185..39dbe44 100644
--- a/dht/krpc/udp.go
+++ b/dht/krpc/udp.go
@@ -28,11 +28,12 @@ type UdpServer struct {
 }
 
 func (s *UdpServer) Close() error {
+	defer s.Unlock()
+	s.Lock()
+	// a caller that comes second also returns after the socket is released
 	if s.closed.Load().(bool) {
 		return nil
 	}
-	defer s.Unlock()
-	s.Lock()
 	return s.close()
 }
 
-- 
2.43.0


From 3cd096669eb14021d26ae1a61135ecdc5ea1293c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:31 +0000
Subject: [PATCH 28/31] fix: a repeated extended handshake does not request the
 pieces again

Every extended handshake of the peer restarted the metadata exchange: the
pieces received so far were thrown away and all of them requested again.
---
 dht/peerwire/bep9.go | 6 ++++++
 dht/peerwire/peer.go | 1 +
 2 files changed, 7 insertions(+)

diff --git a/dht/peerwire/bep9.go b/dht/peerwire/bep9.go
index 4b65d07..56ad8a8 100644
--- a/dht/peerwire/bep9.go
+++ b/dht/peerwire/bep9.go
@@ -211,6 +211,11 @@ func handleExtendedMsg(peerConn *PeerConn, readBytes []byte) {
 		exHandShakeResp := parseExtendedHandShake(readBytes)
 		fetchMetaLogger.Info("get extended handshake", misc.Dict{"laddr": laddr, "exHandShakeResp": exHandShakeResp})
 
+		// the pieces are requested once, however often the peer repeats its handshake
+		if peerConn.piecesRequested {
+			return
+		}
+
 		dict := exHandShakeResp.Dict()
 		if !dict.Exist("metadata_size") {
 			fetchMetaLogger.Panic("get extended handshake wrong format", misc.Dict{"laddr": laddr, "exHandShakeResp": exHandShakeResp})
@@ -227,6 +232,7 @@ func handleExtendedMsg(peerConn *PeerConn, readBytes []byte) {
 		if exMsgId < 1 || exMsgId > 255 {
 			fetchMetaLogger.Panic("get extended handshake wrong ut_metadata", misc.Dict{"laddr": laddr, "exMsgId": exMsgId})
 		}
+		peerConn.piecesRequested = true
 		peerConn.metaDataSize = metaSize
 		pieceCount := metaSize / SizeOf16KB
 		if metaSize%SizeOf16KB > 0 {
diff --git a/dht/peerwire/peer.go b/dht/peerwire/peer.go
index 8152504..258e737 100644
--- a/dht/peerwire/peer.go
+++ b/dht/peerwire/peer.go
@@ -14,6 +14,7 @@ type PeerConn struct {
 	metaData          [][]byte
 	metaDataSize      int
 	requestedMetaData []bool
+	piecesRequested   bool
 	connTimeStamp     time.Time
 	expireTime        time.Duration
 	timeoutChan       <-chan time.Time
-- 
2.43.0


From 4c80daee83234b0c0cc26ed4b554a7089297d318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:45 +0000
Subject: [PATCH 29/31] fix: a full fetch queue does not stop the crawler from
 answering queries

---
 dht/requesthandler.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dht/requesthandler.go b/dht/requesthandler.go
index 228bb71..d1f77d6 100644
--- a/dht/requesthandler.go
+++ b/dht/requesthandler.go
@@ -39,6 +39,10 @@ func announcePeerHandler(ctx *krpc.RpcContext) {
 	dhtLogger.Info("get announce_peer request", misc.Dict{"txId": req.TxId(), "infoHash": hash, "port": port})
 	infoHashLogger.Info("announce_peer", misc.Dict{"addr": ctx.RemoteAddr().String(), "port": port, "infoHash": hash})
 	ctx.WriteAs(WithAnnouncePeerResponse(req.TxId(), localNodeId))
-	// to chan
-	recvInfoHash <- ctx
+	// to chan, when it is full the fetchers must not stop the server from answering
+	select {
+	case recvInfoHash <- ctx:
+	default:
+		dhtLogger.Error("fetch queue is full, ignore announce_peer", misc.Dict{"txId": req.TxId(), "infoHash": hash})
+	}
 }
-- 
2.43.0


From a099d003c0ac8e5091e9a1e7fbf3acb46d41be56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:09 +0000
Subject: [PATCH 30/31] fix: a structured logger configured for WARN leaves out
 INFO records

---
 misc/zap.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/misc/zap.go b/misc/zap.go
index 2a90fec..b27afbd 100644
--- a/misc/zap.go
+++ b/misc/zap.go
@@ -97,6 +97,8 @@ func parseLogLevel(logLevel string) zapcore.Level {
 		return zapcore.DebugLevel
 	case "INFO":
 		return zapcore.InfoLevel
+	case "WARN":
+		return zapcore.WarnLevel
 	case "ERROR":
 		return zapcore.ErrorLevel
 	case "PANIC":
-- 
2.43.0


From 51b812e17abc2daa1d9f4d54dafac101fdacc0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:21 +0000
Subject: [PATCH 31/31] fix: a repeated extended handshake may leave out any
 entry

---
 dht/peerwire/bep9.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/dht/peerwire/bep9.go b/dht/peerwire/bep9.go
index 56ad8a8..9783ffd 100644
--- a/dht/peerwire/bep9.go
+++ b/dht/peerwire/bep9.go
@@ -207,15 +207,16 @@ func handleExtendedMsg(peerConn *PeerConn, readBytes []byte) {
 	switch msgId {
 	//HandshakeExtendedID
 	case 0:
-		// get extended handshake response
-		exHandShakeResp := parseExtendedHandShake(readBytes)
-		fetchMetaLogger.Info("get extended handshake", misc.Dict{"laddr": laddr, "exHandShakeResp": exHandShakeResp})
-
-		// the pieces are requested once, however often the peer repeats its handshake
+		// the pieces are requested once, however often the peer repeats its handshake,
+		// a repeated one may tell only what changed
 		if peerConn.piecesRequested {
 			return
 		}
 
+		// get extended handshake response
+		exHandShakeResp := parseExtendedHandShake(readBytes)
+		fetchMetaLogger.Info("get extended handshake", misc.Dict{"laddr": laddr, "exHandShakeResp": exHandShakeResp})
+
 		dict := exHandShakeResp.Dict()
 		if !dict.Exist("metadata_size") {
 			fetchMetaLogger.Panic("get extended handshake wrong format", misc.Dict{"laddr": laddr, "exHandShakeResp": exHandShakeResp})
-- 
2.43.0

