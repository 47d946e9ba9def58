From 6174e8577ee57898b061108a06ad7a20f8ac77be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:27 +0000
Subject: [PATCH 01/54] fix: readiness latch could lose a wake-up and mix up
 concurrent verdicts

wait() checked the ready flag and then blocked on the channel only unwait()
calls that saw it locked would close: an unwait between the two left the
waiter blocked forever, and a second waiter returned without waiting.
---
 waiter_once.go | 38 ++++++++++++++------------------------
 1 file changed, 14 insertions(+), 24 deletions(-)

diff --git a/waiter_once.go b/waiter_once.go
index 8a2767c..d546dc0 100644
--- a/waiter_once.go
+++ b/waiter_once.go
@@ -1,6 +1,7 @@
 package neffos
 
 import (
+	"sync"
 	"sync/atomic"
 )
 
@@ -14,18 +15,16 @@ import (
 //
 // See `Server#ServeHTTP`, `Conn#Connect`, `Conn#Write`, `Conn#sendClientACK` and `Conn#handleACK`.
 type waiterOnce struct {
-	locked *uint32
-	ready  *uint32
-	err    error
-	// mu     sync.Mutex
-	ch chan struct{}
+	once  sync.Once
+	ready *uint32
+	err   error
+	ch    chan struct{}
 }
 
 func newWaiterOnce() *waiterOnce {
 	return &waiterOnce{
-		locked: new(uint32),
-		ready:  new(uint32),
-		ch:     make(chan struct{}),
+		ready: new(uint32),
+		ch:    make(chan struct{}),
 	}
 }
 
@@ -44,28 +43,19 @@ func (w *waiterOnce) wait() error {
 		return nil
 	}
 
-	if w.isReady() {
-		// println("waiter: wait() is Ready")
-		return w.err // no need to wait.
-	}
-
-	if atomic.CompareAndSwapUint32(w.locked, 0, 1) {
-		// println("waiter: lock")
-		<-w.ch
-	}
-
+	<-w.ch // closed by the first `unwait`.
 	return w.err
 }
 
 func (w *waiterOnce) unwait(err error) {
-	if w == nil || w.isReady() {
+	if w == nil {
 		return
 	}
 
-	w.err = err
-	// at any case mark it as ready for future `wait` call to exit immediately.
-	atomic.StoreUint32(w.ready, 1)
-	if atomic.CompareAndSwapUint32(w.locked, 1, 0) { // unlock once.
+	// only the first call counts, it releases all current and future `wait` calls.
+	w.once.Do(func() {
+		w.err = err
+		atomic.StoreUint32(w.ready, 1)
 		close(w.ch)
-	}
+	})
 }
-- 
2.43.0


From 48ee21259f60dd5dee95ec08420d45157bc6a07b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:16 +0000
Subject: [PATCH 02/54] fix: connect gate could be split in two and never
 released

Two concurrent get() calls for a new name returned different processes, so a
waiter could wait on one that nobody finishes or nobody started. Done() only
decremented once in the lifetime of the process: with two attempts a blocked
Wait() never returned and later attempts were not waited for at all.
---
 process.go | 57 +++++++++++++++++++++++++++++++++++-------------------
 1 file changed, 37 insertions(+), 20 deletions(-)

diff --git a/process.go b/process.go
index e36b1ed..f165130 100644
--- a/process.go
+++ b/process.go
@@ -2,7 +2,6 @@ package neffos
 
 import (
 	"sync"
-	"sync/atomic"
 )
 
 // processes is a collection of `process`.
@@ -24,12 +23,15 @@ func (p *processes) get(name string) *process {
 	p.locker.RUnlock()
 
 	if entry == nil {
-		entry = &process{
-			finished: make(chan struct{}),
-		}
-
 		p.locker.Lock()
-		p.entries[name] = entry
+		// re-check, all callers should share the same process.
+		entry = p.entries[name]
+		if entry == nil {
+			entry = &process{
+				finished: make(chan struct{}),
+			}
+			p.entries[name] = entry
+		}
 		p.locker.Unlock()
 	}
 
@@ -39,10 +41,11 @@ func (p *processes) get(name string) *process {
 // process is used on connections on specific actions that needs to wait for an answer from the other side.
 // Take for example the `Conn#handleMessage.tryNamespace` which waits for `Conn#askConnect` to finish on the specific namespace.
 type process struct {
-	done uint32
-
 	finished chan struct{}
-	waiting  sync.WaitGroup
+
+	mu      sync.Mutex
+	running int           // started but not done yet.
+	idle    chan struct{} // nil before first `Start`, closed when nothing is running.
 }
 
 // Signal closes the channel.
@@ -60,29 +63,43 @@ func (p *process) Finished() <-chan struct{} {
 	return p.finished
 }
 
-// Done calls the internal WaitGroup's `Done` method.
+// Done marks the end of a `Start`, the last one releases the `Wait` calls.
 func (p *process) Done() {
-	if !atomic.CompareAndSwapUint32(&p.done, 0, 1) {
-		return
+	p.mu.Lock()
+	if p.running > 0 {
+		p.running--
+		if p.running == 0 {
+			close(p.idle)
+		}
 	}
-
-	p.waiting.Done()
+	p.mu.Unlock()
 }
 
-// Wait waits on the internal `WaitGroup`. See `Done` too.
+// Wait waits until nothing is running. See `Done` too.
 func (p *process) Wait() {
-	if atomic.LoadUint32(&p.done) == 1 {
-		return
+	p.mu.Lock()
+	idle := p.idle
+	p.mu.Unlock()
+
+	if idle != nil {
+		<-idle
 	}
-	p.waiting.Wait()
 }
 
 // Start makes future `Wait` calls to hold until `Done`.
 func (p *process) Start() {
-	p.waiting.Add(1)
+	p.mu.Lock()
+	if p.running == 0 {
+		p.idle = make(chan struct{})
+	}
+	p.running++
+	p.mu.Unlock()
 }
 
 // isDone reports whether process is finished.
 func (p *process) isDone() bool {
-	return atomic.LoadUint32(&p.done) == 1
+	p.mu.Lock()
+	defer p.mu.Unlock()
+
+	return p.idle != nil && p.running == 0
 }
-- 
2.43.0


From 201dedc9881d53c861049be20d995dcfea65b166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:56 +0000
Subject: [PATCH 03/54] fix: Ask could hang after close, leak its registration
 and block the reader

A pending Ask without a deadline was never released by Close. A cancelled or
failed Ask stayed registered, and the reader goroutine then blocked forever on
a late answer (Server.Ask: unbuffered channel, also with two answering
clients) or on repeated ones (Conn.Ask).
---
 conn.go   | 27 +++++++++++++++++++--------
 server.go | 12 +++++++-----
 2 files changed, 26 insertions(+), 13 deletions(-)

diff --git a/conn.go b/conn.go
index 0f2d86f..9378fa0 100644
--- a/conn.go
+++ b/conn.go
@@ -434,7 +434,7 @@ func (c *Conn) handleMessage(msg Message) error {
 			ch, ok := c.server.waitingMessages[msg.wait]
 			c.server.waitingMessagesMutex.RUnlock()
 			if ok {
-				ch <- msg
+				notifyWaiter(ch, msg)
 				return nil
 			}
 		}
@@ -443,7 +443,7 @@ func (c *Conn) handleMessage(msg Message) error {
 		ch, ok := c.waitingMessages[msg.wait]
 		c.waitingMessagesMutex.RUnlock()
 		if ok {
-			ch <- msg
+			notifyWaiter(ch, msg)
 			return nil
 		}
 
@@ -481,6 +481,15 @@ func (c *Conn) handleMessage(msg Message) error {
 	return nil
 }
 
+// notifyWaiter gives the "msg" to the waiter of the (buffered) "ch" channel.
+// Only the first reply counts, the reader never blocks for the rest of them.
+func notifyWaiter(ch chan<- Message, msg Message) {
+	select {
+	case ch <- msg:
+	default:
+	}
+}
+
 // DeserializeMessage returns a Message from the "payload".
 func (c *Conn) DeserializeMessage(msgTyp MessageType, payload []byte) Message {
 	return DeserializeMessage(msgTyp, payload, c.allowNativeMessages, c.shouldHandleOnlyNativeMessages)
@@ -978,6 +987,12 @@ func (c *Conn) ask(ctx context.Context, msg Message, mustWaitOnlyTheNextMessage
 		c.waitingMessagesMutex.Lock()
 		c.waitingMessages[msg.wait] = ch
 		c.waitingMessagesMutex.Unlock()
+
+		defer func() {
+			c.waitingMessagesMutex.Lock()
+			delete(c.waitingMessages, msg.wait)
+			c.waitingMessagesMutex.Unlock()
+		}()
 	}
 
 	if !c.Write(msg) {
@@ -990,13 +1005,9 @@ func (c *Conn) ask(ctx context.Context, msg Message, mustWaitOnlyTheNextMessage
 			return Message{}, ErrWrite
 		}
 		return Message{}, ctx.Err()
+	case <-c.closeCh:
+		return Message{}, CloseError{Code: -1, error: ErrWrite}
 	case receive := <-ch:
-		if !mustWaitOnlyTheNextMessage {
-			c.waitingMessagesMutex.Lock()
-			delete(c.waitingMessages, msg.wait)
-			c.waitingMessagesMutex.Unlock()
-		}
-
 		return receive, receive.Err
 	}
 }
diff --git a/server.go b/server.go
index 19363e3..5609996 100644
--- a/server.go
+++ b/server.go
@@ -557,21 +557,23 @@ func (s *Server) Ask(ctx context.Context, msg Message) (Message, error) {
 		return s.StackExchange.Ask(ctx, msg, msg.wait)
 	}
 
-	ch := make(chan Message)
+	ch := make(chan Message, 1)
 	s.waitingMessagesMutex.Lock()
 	s.waitingMessages[msg.wait] = ch
 	s.waitingMessagesMutex.Unlock()
 
+	defer func() {
+		s.waitingMessagesMutex.Lock()
+		delete(s.waitingMessages, msg.wait)
+		s.waitingMessagesMutex.Unlock()
+	}()
+
 	s.Broadcast(nil, msg)
 
 	select {
 	case <-ctx.Done():
 		return Message{}, ctx.Err()
 	case receive := <-ch:
-		s.waitingMessagesMutex.Lock()
-		delete(s.waitingMessages, msg.wait)
-		s.waitingMessagesMutex.Unlock()
-
 		return receive, receive.Err
 	}
 }
-- 
2.43.0


From 4f31da028a362875ab176c90b235d8c5762fce35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:57 +0000
Subject: [PATCH 04/54] fix: concurrent asks could share a wait token

The token was the current time alone: two asks in the same clock tick got the
same token, the second registration replaced the first which never returned.
---
 message.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/message.go b/message.go
index 7967b85..3f43284 100644
--- a/message.go
+++ b/message.go
@@ -6,6 +6,7 @@ import (
 	"errors"
 	"strconv"
 	"strings"
+	"sync/atomic"
 	"time"
 )
 
@@ -219,9 +220,12 @@ func (m *Message) ClearWait() bool {
 	return false
 }
 
+// makes the wait tokens unique, even if generated at the same time.
+var waitCounter uint64
+
 func genWait(isClientConn bool) string {
 	now := time.Now().UnixNano()
-	wait := strconv.FormatInt(now, 10)
+	wait := strconv.FormatInt(now, 10) + strconv.FormatUint(atomic.AddUint64(&waitCounter, 1), 10)
 
 	if isClientConn {
 		wait = string(waitComesFromClientPrefix) + wait
-- 
2.43.0


From d91997839bc29db2b1b85431ab41da99e8fc53d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:34 +0000
Subject: [PATCH 05/54] fix: a filtered message of a broadcast dropped the rest
 of the batch

---
 server.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/server.go b/server.go
index 5609996..55dd40f 100644
--- a/server.go
+++ b/server.go
@@ -437,12 +437,12 @@ func publishMessages(c *Conn, msgs []Message) bool {
 	for _, msg := range msgs {
 		if msg.from == c.ID() {
 			// if the message is not supposed to return back to any connection with this ID.
-			return true
+			continue
 		}
 
 		// if "To" field is given then send to a specific connection.
 		if msg.To != "" && msg.To != c.ID() {
-			return true
+			continue
 		}
 
 		// c.Write may fail if the message is not supposed to end to this client
-- 
2.43.0


From 03951a61b304949e62b574d73b3bcf898f2404e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:34 +0000
Subject: [PATCH 06/54] fix: StackExchange.OnDisconnect was skipped for refused
 connections

---
 server.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/server.go b/server.go
index 55dd40f..92bd4d8 100644
--- a/server.go
+++ b/server.go
@@ -178,11 +178,8 @@ func (s *Server) start() {
 				delete(s.connections, c)
 				atomic.AddUint64(&s.count, ^uint64(0))
 				// println("disconnect...")
-				if s.OnDisconnect != nil {
-					// don't fire disconnect if was immediately closed on the `OnConnect` server event.
-					if !s.FireDisconnectAlways && (!c.readiness.isReady() || (c.readiness.err != nil)) {
-						continue
-					}
+				// don't fire disconnect if was immediately closed on the `OnConnect` server event.
+				if s.OnDisconnect != nil && (s.FireDisconnectAlways || (c.readiness.isReady() && c.readiness.err == nil)) {
 					s.OnDisconnect(c)
 				}
 
-- 
2.43.0


From c5beebd2d42cece325a23fc4490a986c0bda8fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:35 +0000
Subject: [PATCH 07/54] fix: a client could acknowledge itself with any ID and
 skip OnConnect

---
 conn.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/conn.go b/conn.go
index 9378fa0..f7634a9 100644
--- a/conn.go
+++ b/conn.go
@@ -346,8 +346,11 @@ func (c *Conn) startReader() {
 }
 
 func (c *Conn) handleACK(msgTyp MessageType, b []byte) bool {
-	switch typ := b[0]; typ {
-	case ackBinary:
+	// each side accepts only the other side's signals,
+	// i.e a client can't set its own ID or skip the `Server#OnConnect`.
+	isClient := c.IsClient()
+	switch typ := b[0]; {
+	case typ == ackBinary && !isClient:
 		// from client startup to server.
 		err := c.readiness.wait()
 		if err != nil {
@@ -367,7 +370,7 @@ func (c *Conn) handleACK(msgTyp MessageType, b []byte) bool {
 	// 	atomic.StoreUint32(c.acknowledged, 1)
 	// 	c.handleQueue()
 
-	case ackIDBinary:
+	case typ == ackIDBinary && isClient:
 		// from server to client.
 		id := string(b[1:])
 		c.id = id
@@ -377,7 +380,7 @@ func (c *Conn) handleACK(msgTyp MessageType, b []byte) bool {
 		// c.write([]byte{ackOKBinary})
 		// println("ackIDBinary: pass with nil")
 		// c.handleQueue()
-	case ackNotOKBinary:
+	case typ == ackNotOKBinary && isClient:
 		// from server to client.
 		errText := string(b[1:])
 		err := errors.New(errText)
-- 
2.43.0


From 65b9c84258f32c3f85b26acc3c33a1e45b99c235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:36 +0000
Subject: [PATCH 08/54] fix: a connection refused by OnConnect could stay open
 and served

---
 conn.go   | 10 ++++++++++
 server.go |  7 ++-----
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/conn.go b/conn.go
index f7634a9..e4973b2 100644
--- a/conn.go
+++ b/conn.go
@@ -313,6 +313,16 @@ func (c *Conn) sendClientACK() error {
 	return err
 }
 
+// refuse is called by the server when the connection should not be accepted.
+// The client gets the "err" on its acknowledgment and then the connection closes,
+// if it has been marked as ready before (i.e by a write) then it's too late for that and it closes now.
+func (c *Conn) refuse(err error) {
+	c.readiness.unwait(err)
+	if c.readiness.wait() == nil {
+		c.Close()
+	}
+}
+
 func (c *Conn) startReader() {
 	if c.IsClosed() {
 		return
diff --git a/server.go b/server.go
index 92bd4d8..cdb2dc7 100644
--- a/server.go
+++ b/server.go
@@ -347,7 +347,7 @@ func (s *Server) Upgrade(
 	// to Broadcast inside the `OnConnect` custom func.
 	if s.usesStackExchange() {
 		if err := s.StackExchange.OnConnect(c); err != nil {
-			c.readiness.unwait(err)
+			c.refuse(err)
 			return nil, err
 		}
 	}
@@ -380,10 +380,7 @@ func (s *Server) Upgrade(
 			// Think more later today.
 			// Done but with a lot of code.... will try to cleanup some things.
 			//println("OnConnect error: " + err.Error())
-			c.readiness.unwait(err)
-			// No need to disconnect here, connection's .Close will be called on readiness ch errored.
-
-			// c.Close()
+			c.refuse(err)
 			return nil, err
 		}
 	}
-- 
2.43.0


From 9a7239e3db275b0dbcbde6697b10fb23ec08a8cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:49 +0000
Subject: [PATCH 09/54] fix: a late reply was dispatched as a new event and
 could be replied back

---
 conn.go    | 4 ++++
 message.go | 6 ++++++
 2 files changed, 10 insertions(+)

diff --git a/conn.go b/conn.go
index e4973b2..7721c89 100644
--- a/conn.go
+++ b/conn.go
@@ -460,6 +460,10 @@ func (c *Conn) handleMessage(msg Message) error {
 			return nil
 		}
 
+		if msg.isReplyTo(isClient) {
+			// nobody waits for that reply anymore (timeout or someone else replied first).
+			return nil
+		}
 	}
 
 	switch msg.Event {
diff --git a/message.go b/message.go
index 3f43284..6780bdb 100644
--- a/message.go
+++ b/message.go
@@ -210,6 +210,12 @@ func (m *Message) IsWait(isClientConn bool) bool {
 	return true
 }
 
+// isReplyTo reports whether this incoming message is a reply to an `Ask` of this side,
+// otherwise its wait token (if any) is generated by the remote side which waits for a reply.
+func (m *Message) isReplyTo(isClientConn bool) bool {
+	return m.wait != "" && (m.wait[0] == waitComesFromClientPrefix) == isClientConn
+}
+
 // ClearWait clears the wait token, rarely used.
 func (m *Message) ClearWait() bool {
 	if m.FromExplicit == "" && m.wait != "" {
-- 
2.43.0


From 577625b3ff6fe564990a548041cd1f9afc10b83f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:50 +0000
Subject: [PATCH 10/54] fix: ask to a not connected namespace was never
 answered

---
 conn.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/conn.go b/conn.go
index 7721c89..6458f1d 100644
--- a/conn.go
+++ b/conn.go
@@ -614,8 +614,12 @@ func (c *Conn) tryNamespace(in Message) (*NSConn, bool) {
 		// if _, canConnect := c.namespaces[msg.Namespace]; !canConnect {
 		// 	msg.Err = ErrForbiddenNamespace
 		// }
-		in.Err = ErrBadNamespace
-		c.Write(in)
+		if in.wait != "" {
+			// the remote side waits for an answer and `Write` would drop it, as the namespace is not connected.
+			in.Err = ErrBadNamespace
+			in.FromExplicit = ""
+			c.write(serializeMessage(in), in.SetBinary)
+		}
 		return nil, false
 	}
 
-- 
2.43.0


From 7ea8325988dabfa1c2c7adabdb9d2a945f66612d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:41 +0000
Subject: [PATCH 11/54] fix: concurrent Increment and Decrement could lose
 updates

---
 conn.go | 43 ++++++++++++++-----------------------------
 1 file changed, 14 insertions(+), 29 deletions(-)

diff --git a/conn.go b/conn.go
index 6458f1d..d4e90bf 100644
--- a/conn.go
+++ b/conn.go
@@ -217,23 +217,23 @@ func (c *Conn) Get(key string) interface{} {
 //
 // Returns the incremented value.
 func (c *Conn) Increment(key string) int {
-	value := c.Get(key)
+	return c.add(key, 1)
+}
 
-	if value == nil {
-		c.Set(key, 1)
-		return 1
-	}
+// add adds the "delta" to the integer value of the "key",
+// it's a single step, i.e none of the simultaneously calls is lost.
+func (c *Conn) add(key string, delta int) int {
+	c.storeMutex.Lock()
+	defer c.storeMutex.Unlock()
 
-	intValue, ok := value.(int)
-	if !ok {
-		// override.
-		c.Set(key, 1)
-		return 1
+	if c.store == nil {
+		c.store = make(map[string]interface{})
 	}
 
-	intValue++
-	c.Set(key, intValue)
-	return intValue
+	value, _ := c.store[key].(int) // override if not exists or not an integer.
+	value += delta
+	c.store[key] = value
+	return value
 }
 
 // Decrement works like `Set` method.
@@ -250,22 +250,7 @@ func (c *Conn) Increment(key string) int {
 //
 // Returns the decremented value.
 func (c *Conn) Decrement(key string) int {
-	value := c.Get(key)
-
-	if value == nil {
-		c.Set(key, -1)
-		return -1
-	}
-
-	intValue, ok := value.(int)
-	if !ok {
-		// override.
-		c.Set(key, -1)
-		return -1
-	}
-	intValue--
-	c.Set(key, intValue)
-	return intValue
+	return c.add(key, -1)
 }
 
 // WasReconnected reports whether the current connection is a result of a client-side reconnection.
-- 
2.43.0


From 512ccc49aee1ae15d5df37cf36b61c5c6c859511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:41 +0000
Subject: [PATCH 12/54] fix: gorilla write deadline was set without the write
 lock

---
 gorilla/socket.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gorilla/socket.go b/gorilla/socket.go
index 11f7b1f..d28d9e3 100644
--- a/gorilla/socket.go
+++ b/gorilla/socket.go
@@ -72,11 +72,11 @@ func (s *Socket) WriteText(body []byte, timeout time.Duration) error {
 }
 
 func (s *Socket) write(body []byte, opCode int, timeout time.Duration) error {
+	s.mu.Lock()
 	if timeout > 0 {
 		s.UnderlyingConn.SetWriteDeadline(time.Now().Add(timeout))
 	}
 
-	s.mu.Lock()
 	err := s.UnderlyingConn.WriteMessage(opCode, body)
 	s.mu.Unlock()
 
-- 
2.43.0


From 648a19ba7abedb6c95049ddee236df765e261432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:06 +0000
Subject: [PATCH 13/54] fix: gobwas control frames could be written inside a
 message

---
 gobwas/socket.go | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/gobwas/socket.go b/gobwas/socket.go
index a6b303a..5c5bd1f 100644
--- a/gobwas/socket.go
+++ b/gobwas/socket.go
@@ -33,9 +33,15 @@ func newSocket(underline net.Conn, request *http.Request, client bool) *Socket {
 		state = gobwas.StateClientSide
 	}
 
-	controlHandler := wsutil.ControlFrameHandler(underline, state)
+	s := &Socket{
+		UnderlyingConn: underline,
+		request:        request,
+		state:          state,
+	}
 
-	reader := &wsutil.Reader{
+	s.controlHandler = wsutil.ControlFrameHandler(controlWriter{s}, state)
+
+	s.reader = &wsutil.Reader{
 		Source:          underline,
 		State:           state,
 		CheckUTF8:       true,
@@ -44,16 +50,22 @@ func newSocket(underline net.Conn, request *http.Request, client bool) *Socket {
 		// be received between text/binary continuation frames.
 		// Read `gobwas/wsutil/reader#NextReader`.
 		//
-		OnIntermediate: controlHandler,
+		OnIntermediate: s.controlHandler,
 	}
 
-	return &Socket{
-		UnderlyingConn: underline,
-		request:        request,
-		state:          state,
-		reader:         reader,
-		controlHandler: controlHandler,
-	}
+	return s
+}
+
+// controlWriter sends the control frames (pong, close),
+// each one of them is a single Write call which should not be
+// in the middle of a message's one, see `Socket.write`.
+type controlWriter struct{ s *Socket }
+
+func (w controlWriter) Write(p []byte) (int, error) {
+	w.s.mu.Lock()
+	defer w.s.mu.Unlock()
+
+	return w.s.UnderlyingConn.Write(p)
 }
 
 // NetConn returns the underline net connection.
-- 
2.43.0


From a53661e19432542f7488edf28cb6432f44fa9e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:06 +0000
Subject: [PATCH 14/54] fix: gobwas dialer dropped frames received with the
 handshake response

---
 gobwas/dialer.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/gobwas/dialer.go b/gobwas/dialer.go
index 60b38ff..2786f3c 100644
--- a/gobwas/dialer.go
+++ b/gobwas/dialer.go
@@ -16,11 +16,17 @@ var DefaultDialer = Dialer(gobwas.DefaultDialer)
 // To send headers to the server set the dialer's `Header` field to a `gobwas.HandshakeHeaderHTTP`.
 func Dialer(dialer gobwas.Dialer) neffos.Dialer {
 	return func(ctx context.Context, url string) (neffos.Socket, error) {
-		underline, _, _, err := dialer.Dial(ctx, url)
+		underline, br, _, err := dialer.Dial(ctx, url)
 		if err != nil {
 			return nil, err
 		}
 
-		return newSocket(underline, nil, true), nil
+		s := newSocket(underline, nil, true)
+		if br != nil {
+			// it contains frames that server sent with (right after) the handshake response.
+			s.reader.Source = br
+		}
+
+		return s, nil
 	}
 }
-- 
2.43.0


From d7f5d645fcef6031f576a57efee8a3d1be3397b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:07 +0000
Subject: [PATCH 15/54] fix: an error with empty text was received as success

---
 message.go | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/message.go b/message.go
index 6780bdb..eddc835 100644
--- a/message.go
+++ b/message.go
@@ -466,13 +466,11 @@ func deserializeInput(b []byte, allowNativeMessages, shouldHandleOnlyNativeMessa
 	event = string(dts[3])
 	isError := bytes.Equal(dts[4], trueByte)
 	isNoOp = bytes.Equal(dts[5], trueByte)
-	if b := dts[6]; len(b) > 0 {
-		if isError {
-			errorText := string(b)
-			err = resolveError(errorText)
-		} else {
-			body = b // keep it like that.
-		}
+	if b := dts[6]; isError {
+		errorText := string(b)
+		err = resolveError(errorText) // even if its text is empty.
+	} else if len(b) > 0 {
+		body = b // keep it like that.
 	}
 
 	return
-- 
2.43.0


From f1901d524dc61342b8ab5b44fffb6487f05f113a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:08 +0000
Subject: [PATCH 16/54] fix: Broadcast modified and kept the caller's messages

---
 server.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/server.go b/server.go
index cdb2dc7..a9a3cf9 100644
--- a/server.go
+++ b/server.go
@@ -496,6 +496,8 @@ func Exclude(connID string) fmt.Stringer { return stringerValue{connID} }
 // next broadcast call. To change that behavior set the `Server.SyncBroadcaster` to true
 // before server start.
 func (s *Server) Broadcast(exceptSender fmt.Stringer, msgs ...Message) {
+	// do not modify or keep the caller's slice.
+	msgs = append([]Message(nil), msgs...)
 
 	if exceptSender != nil {
 		var fromExplicit, from string
-- 
2.43.0


From 53ca06f86a34ca70fe32ffba9f2be421c0f1eeb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:08 +0000
Subject: [PATCH 17/54] fix: remote side could fire the connected, joined and
 left events

---
 conn.go | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/conn.go b/conn.go
index d4e90bf..2b09ced 100644
--- a/conn.go
+++ b/conn.go
@@ -464,6 +464,10 @@ func (c *Conn) handleMessage(msg Message) error {
 		if ns, ok := c.tryNamespace(msg); ok {
 			ns.replyRoomLeave(msg)
 		}
+	case OnNamespaceConnected, OnRoomJoined, OnRoomLeft:
+		// these are fired locally, they can't be forced by the remote side.
+		c.replyError(msg, ErrInvalidPayload)
+		return ErrInvalidPayload
 	default:
 		ns, ok := c.tryNamespace(msg)
 		if !ok {
@@ -599,18 +603,25 @@ func (c *Conn) tryNamespace(in Message) (*NSConn, bool) {
 		// if _, canConnect := c.namespaces[msg.Namespace]; !canConnect {
 		// 	msg.Err = ErrForbiddenNamespace
 		// }
-		if in.wait != "" {
-			// the remote side waits for an answer and `Write` would drop it, as the namespace is not connected.
-			in.Err = ErrBadNamespace
-			in.FromExplicit = ""
-			c.write(serializeMessage(in), in.SetBinary)
-		}
+		c.replyError(in, ErrBadNamespace)
 		return nil, false
 	}
 
 	return ns, true
 }
 
+// replyError answers with an error to the remote side, if it waits for an answer.
+// Note that `Write` would drop it when the namespace is not connected.
+func (c *Conn) replyError(in Message, err error) {
+	if in.wait == "" {
+		return
+	}
+
+	in.Err = err
+	in.FromExplicit = ""
+	c.write(serializeMessage(in), in.SetBinary)
+}
+
 // server#OnConnected -> conn#Connect
 // client#WaitConnect
 // or
-- 
2.43.0


From 5021ff2b037185cf85eb5ca0b2825fe61d1205b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:40 +0000
Subject: [PATCH 18/54] fix: text and binary messages received before the ack
 were reordered

---
 conn.go | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/conn.go b/conn.go
index 2b09ced..d194566 100644
--- a/conn.go
+++ b/conn.go
@@ -93,7 +93,8 @@ type Conn struct {
 	allowNativeMessages            bool
 	shouldHandleOnlyNativeMessages bool
 
-	queue      map[MessageType][][]byte
+	// messages received before the acknowledgment, by order.
+	queue      []queuedMessage
 	queueMutex sync.Mutex
 
 	// used to fire `conn#Close` once.
@@ -102,6 +103,11 @@ type Conn struct {
 	closeCh chan struct{}
 }
 
+type queuedMessage struct {
+	typ  MessageType
+	body []byte
+}
+
 func newConn(socket Socket, namespaces Namespaces) *Conn {
 	c := &Conn{
 		socket:                         socket,
@@ -383,10 +389,7 @@ func (c *Conn) handleACK(msgTyp MessageType, b []byte) bool {
 		return false
 	default:
 		c.queueMutex.Lock()
-		if c.queue == nil {
-			c.queue = make(map[MessageType][][]byte)
-		}
-		c.queue[msgTyp] = append(c.queue[msgTyp], b)
+		c.queue = append(c.queue, queuedMessage{msgTyp, b})
 		c.queueMutex.Unlock()
 	}
 
@@ -396,14 +399,12 @@ func (c *Conn) handleACK(msgTyp MessageType, b []byte) bool {
 
 func (c *Conn) handleQueue() {
 	c.queueMutex.Lock()
-	defer c.queueMutex.Unlock()
-
-	for msgTyp, q := range c.queue {
-		for _, b := range q {
-			c.HandlePayload(msgTyp, b)
-		}
+	queue := c.queue
+	c.queue = nil
+	c.queueMutex.Unlock()
 
-		delete(c.queue, msgTyp)
+	for _, q := range queue {
+		c.HandlePayload(q.typ, q.body)
 	}
 }
 
-- 
2.43.0


From 74b263112fee11b7c867fd4280bdbab93f0bef7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:41 +0000
Subject: [PATCH 19/54] fix: client lost the messages received before the ack

---
 conn.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conn.go b/conn.go
index d194566..a15ef9f 100644
--- a/conn.go
+++ b/conn.go
@@ -380,7 +380,7 @@ func (c *Conn) handleACK(msgTyp MessageType, b []byte) bool {
 		c.readiness.unwait(nil)
 		// c.write([]byte{ackOKBinary})
 		// println("ackIDBinary: pass with nil")
-		// c.handleQueue()
+		c.handleQueue() // i.e server's `Connect` can come before its ack.
 	case typ == ackNotOKBinary && isClient:
 		// from server to client.
 		errText := string(b[1:])
-- 
2.43.0


From c3f0690c8551853eed1efe2989810876cd3e405e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:55 +0000
Subject: [PATCH 20/54] fix: Ask took any next message as its reply when the
 reader was inside a handler

---
 conn.go | 71 ++++++++++++++++++++++++++++++++-------------------------
 1 file changed, 40 insertions(+), 31 deletions(-)

diff --git a/conn.go b/conn.go
index a15ef9f..4f7454b 100644
--- a/conn.go
+++ b/conn.go
@@ -84,7 +84,10 @@ type Conn struct {
 	// i.e `askConnect: myNamespace` blocks the `tryNamespace: myNamespace` until finish.
 	processes *processes
 
+	// the number of the reader which is inside a handler, zero if none,
+	// see `startReader` and `Ask`.
 	isInsideHandler *uint32
+	readers         *uint32
 
 	// messages that this connection waits for a reply.
 	waitingMessages      map[string]chan Message
@@ -117,6 +120,7 @@ func newConn(socket Socket, namespaces Namespaces) *Conn {
 		connectedNamespaces:            make(map[string]*NSConn),
 		processes:                      newProcesses(),
 		isInsideHandler:                new(uint32),
+		readers:                        new(uint32),
 		waitingMessages:                make(map[string]chan Message),
 		allowNativeMessages:            false,
 		shouldHandleOnlyNativeMessages: false,
@@ -318,7 +322,13 @@ func (c *Conn) startReader() {
 	if c.IsClosed() {
 		return
 	}
-	defer c.Close()
+
+	reader, replaced := atomic.AddUint32(c.readers, 1), false
+	defer func() {
+		if !replaced {
+			c.Close()
+		}
+	}()
 
 	// CLIENT is ready when ACK done
 	// SERVER is ready when ACK is done AND `Server#OnConnected` returns with nil error.
@@ -333,16 +343,29 @@ func (c *Conn) startReader() {
 			continue
 		}
 
-		if !c.isAcknowledged() {
+		wasAcknowledged := c.isAcknowledged()
+		if !wasAcknowledged {
 			if !c.handleACK(msgTyp, b) {
 				return
 			}
-			continue
+
+			if !c.isAcknowledged() {
+				continue
+			}
+		}
+
+		atomic.StoreUint32(c.isInsideHandler, reader)
+		if wasAcknowledged {
+			c.HandlePayload(msgTyp, b)
+		} else {
+			c.handleQueue()
 		}
 
-		atomic.StoreUint32(c.isInsideHandler, 1)
-		c.HandlePayload(msgTyp, b)
-		atomic.StoreUint32(c.isInsideHandler, 0)
+		if !atomic.CompareAndSwapUint32(c.isInsideHandler, reader, 0) {
+			// an `Ask` started a new reader in order to receive its reply.
+			replaced = true
+			return
+		}
 	}
 }
 
@@ -360,7 +383,6 @@ func (c *Conn) handleACK(msgTyp MessageType, b []byte) bool {
 			return false
 		}
 		atomic.StoreUint32(c.acknowledged, 1)
-		c.handleQueue()
 
 		// it's ok send ID.
 		return c.write(append(ackIDBinaryB, []byte(c.id)...), false)
@@ -380,7 +402,6 @@ func (c *Conn) handleACK(msgTyp MessageType, b []byte) bool {
 		c.readiness.unwait(nil)
 		// c.write([]byte{ackOKBinary})
 		// println("ackIDBinary: pass with nil")
-		c.handleQueue() // i.e server's `Connect` can come before its ack.
 	case typ == ackNotOKBinary && isClient:
 		// from server to client.
 		errText := string(b[1:])
@@ -961,11 +982,6 @@ func (c *Conn) writeEmptyReply(wait string) bool {
 
 // Ask method sends a message to the remote side and blocks until a response or an error received from the specific `Message.Event`.
 func (c *Conn) Ask(ctx context.Context, msg Message) (Message, error) {
-	mustWaitOnlyTheNextMessage := atomic.LoadUint32(c.isInsideHandler) == 1
-	return c.ask(ctx, msg, mustWaitOnlyTheNextMessage)
-}
-
-func (c *Conn) ask(ctx context.Context, msg Message, mustWaitOnlyTheNextMessage bool) (Message, error) {
 	if c.shouldHandleOnlyNativeMessages {
 		// should panic or...
 		return Message{}, nil
@@ -989,28 +1005,21 @@ func (c *Conn) ask(ctx context.Context, msg Message, mustWaitOnlyTheNextMessage
 	ch := make(chan Message, 1)
 	msg.wait = genWait(c.IsClient())
 
-	if mustWaitOnlyTheNextMessage {
-		// msg.wait is not required on this state
-		// but we still set it.
-		go func() {
-			b, msgTyp, err := c.Socket().ReadData(c.readTimeout)
-			if err != nil {
-				ch <- Message{Err: err, isError: true}
-				return
-			}
+	c.waitingMessagesMutex.Lock()
+	c.waitingMessages[msg.wait] = ch
+	c.waitingMessagesMutex.Unlock()
 
-			ch <- c.DeserializeMessage(msgTyp, b)
-		}()
-	} else {
+	defer func() {
 		c.waitingMessagesMutex.Lock()
-		c.waitingMessages[msg.wait] = ch
+		delete(c.waitingMessages, msg.wait)
 		c.waitingMessagesMutex.Unlock()
+	}()
 
-		defer func() {
-			c.waitingMessagesMutex.Lock()
-			delete(c.waitingMessages, msg.wait)
-			c.waitingMessagesMutex.Unlock()
-		}()
+	// if the reader is inside a handler then that handler may be the caller,
+	// the reply can be received only by a new reader which takes its place.
+	if reader := atomic.LoadUint32(c.isInsideHandler); reader > 0 &&
+		atomic.CompareAndSwapUint32(c.isInsideHandler, reader, 0) {
+		go c.startReader()
 	}
 
 	if !c.Write(msg) {
-- 
2.43.0


From 3421edc0eeb0101a469b60633d58c8a5617598ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:07 +0000
Subject: [PATCH 21/54] fix: Server.Ask through a StackExchange never received
 its reply

---
 message.go | 7 ++++++-
 server.go  | 2 +-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/message.go b/message.go
index eddc835..630343b 100644
--- a/message.go
+++ b/message.go
@@ -252,7 +252,7 @@ func genWaitStackExchange(wait string) string {
 	// This is the second special character.
 	// If found, it is removed on the deserialization
 	// and Message.FromStackExchange is set to true.
-	return string(wait[0]+waitComesFromStackExchange) + wait[1:]
+	return wait[:1] + string(waitComesFromStackExchange) + wait[1:]
 }
 
 var (
@@ -288,6 +288,11 @@ func serializeMessage(msg Message) (out []byte) {
 	if msg.IsNative && msg.wait == "" {
 		out = msg.Body
 	} else {
+		if msg.FromStackExchange && msg.wait != "" {
+			// see `DeserializeMessage`.
+			msg.wait = genWaitStackExchange(msg.wait)
+		}
+
 		if msg.FromExplicit != "" {
 			if msg.wait != "" {
 				// this should never happen unless manual set of FromExplicit by end-developer which is forbidden by the higher level calls.
diff --git a/server.go b/server.go
index a9a3cf9..c73ab6e 100644
--- a/server.go
+++ b/server.go
@@ -549,7 +549,7 @@ func (s *Server) Ask(ctx context.Context, msg Message) (Message, error) {
 	msg.wait = genWait(false)
 
 	if s.usesStackExchange() {
-		msg.wait = genWaitStackExchange(msg.wait)
+		msg.FromStackExchange = true // marks the wait token on its way to the clients and back.
 		return s.StackExchange.Ask(ctx, msg, msg.wait)
 	}
 
-- 
2.43.0


From 1b9e2c076103b9dc86156cf557f47a79a4d4e557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:25 +0000
Subject: [PATCH 22/54] fix: nats connections leaked on errors and a second
 reply to Ask blocked its subscriber

---
 stackexchange/nats/stackexchange_nats.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/stackexchange/nats/stackexchange_nats.go b/stackexchange/nats/stackexchange_nats.go
index 659800d..9bab564 100644
--- a/stackexchange/nats/stackexchange_nats.go
+++ b/stackexchange/nats/stackexchange_nats.go
@@ -262,6 +262,7 @@ func (exc *StackExchange) OnConnect(c *neffos.Conn) error {
 	_, err = subConn.Subscribe(selfSubject, makeMsgHandler(c))
 	if err != nil {
 		// neffos.Debugf("[%s] OnConnect.SelfSubscribe Error: %v", c, err)
+		subConn.Close()
 		return err
 	}
 
@@ -270,6 +271,7 @@ func (exc *StackExchange) OnConnect(c *neffos.Conn) error {
 	if err = subConn.LastError(); err != nil {
 		// maybe an invalid subject, send back to the client which will window.alert it.
 		// neffos.Debugf("[%s] OnConnect.SelfSubscribe Last Error: %v", c, err)
+		subConn.Close()
 		return err
 	}
 
@@ -314,10 +316,14 @@ func (exc *StackExchange) Ask(ctx context.Context, msg neffos.Message, token str
 	if err != nil {
 		return
 	}
+	defer subConn.Close()
 
-	ch := make(chan neffos.Message)
+	ch := make(chan neffos.Message, 1)
 	sub, err := subConn.Subscribe(token, func(m *nats.Msg) {
-		ch <- neffos.DeserializeMessage(neffos.TextMessage, m.Data, false, false)
+		select {
+		case ch <- neffos.DeserializeMessage(neffos.TextMessage, m.Data, false, false):
+		default: // only the first reply counts.
+		}
 	})
 
 	if err != nil {
@@ -325,7 +331,6 @@ func (exc *StackExchange) Ask(ctx context.Context, msg neffos.Message, token str
 	}
 
 	defer sub.Unsubscribe()
-	defer subConn.Close()
 
 	if !exc.publish(msg) {
 		return response, neffos.ErrWrite
-- 
2.43.0


From 0ec7cab58a8af5488001210c0a0e74c6d652f75d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:26 +0000
Subject: [PATCH 23/54] fix: nats subscriptions were read without their lock
 and never removed

---
 stackexchange/nats/stackexchange_nats.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/stackexchange/nats/stackexchange_nats.go b/stackexchange/nats/stackexchange_nats.go
index 9bab564..26b6e97 100644
--- a/stackexchange/nats/stackexchange_nats.go
+++ b/stackexchange/nats/stackexchange_nats.go
@@ -197,13 +197,10 @@ func (exc *StackExchange) run() {
 
 				subject := exc.getSubject(m.namespace, "", "")
 				// neffos.Debugf("[%s] unsubscribed from [%s]", subject)
-				if sub.subscriptions == nil {
-					continue
-				}
-
-				sub.mu.RLock()
+				sub.mu.Lock()
 				subscription, ok := sub.subscriptions[subject]
-				sub.mu.RUnlock()
+				delete(sub.subscriptions, subject)
+				sub.mu.Unlock()
 				if ok {
 					subscription.Unsubscribe()
 				}
-- 
2.43.0


From 6cfbda57be60d5e0b87280c7b095cfb948d2f5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:26 +0000
Subject: [PATCH 24/54] fix: redis Ask could hang on close when more than one
 connection replied

---
 stackexchange/redis/stackexchange_redis.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/stackexchange/redis/stackexchange_redis.go b/stackexchange/redis/stackexchange_redis.go
index c19c6d3..00765fc 100644
--- a/stackexchange/redis/stackexchange_redis.go
+++ b/stackexchange/redis/stackexchange_redis.go
@@ -254,11 +254,27 @@ func (exc *StackExchange) publishCommand(channel string, b []byte) error {
 func (exc *StackExchange) Ask(ctx context.Context, msg neffos.Message, token string) (response neffos.Message, err error) {
 	sub := radix.PersistentPubSub("", "", exc.connFunc)
 	msgCh := make(chan radix.PubSubMessage)
+	done := make(chan struct{})
+	defer func() {
+		// more than one connections may reply, the subscriber can't be closed
+		// while it's blocked on a message that nobody receives.
+		go func() {
+			for {
+				select {
+				case <-msgCh:
+				case <-done:
+					return
+				}
+			}
+		}()
+		sub.Close()
+		close(done)
+	}()
+
 	err = sub.Subscribe(msgCh, token)
 	if err != nil {
 		return
 	}
-	defer sub.Close()
 
 	if !exc.publish(msg) {
 		return response, neffos.ErrWrite
-- 
2.43.0


From 7f9fe260abdba8c4fb16d057685a081bbe0aef45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:05 +0000
Subject: [PATCH 25/54] fix: nats subscriber of a closed connection leaked
 while reconnecting

---
 stackexchange/nats/stackexchange_nats.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/stackexchange/nats/stackexchange_nats.go b/stackexchange/nats/stackexchange_nats.go
index 26b6e97..f84c814 100644
--- a/stackexchange/nats/stackexchange_nats.go
+++ b/stackexchange/nats/stackexchange_nats.go
@@ -208,10 +208,7 @@ func (exc *StackExchange) run() {
 		case m := <-exc.delSubscriber:
 			if sub, ok := exc.subscribers[m.conn]; ok {
 				// neffos.Debugf("[%s] disconnected", m.conn.ID())
-				if sub.subConn.IsConnected() {
-					sub.subConn.Close()
-				}
-
+				sub.subConn.Close() // even if it's reconnecting.
 				delete(exc.subscribers, m.conn)
 			}
 		}
-- 
2.43.0


From be75f410d2d27fddbd66458450af494745726fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:45 +0000
Subject: [PATCH 26/54] fix: event callbacks and asks ran with the namespaces
 or rooms lock held

---
 conn.go           | 74 +++++++++++++++++++----------------------------
 conn_namespace.go | 48 +++++++++++-------------------
 conn_room.go      |  2 +-
 message.go        |  5 ----
 4 files changed, 48 insertions(+), 81 deletions(-)

diff --git a/conn.go b/conn.go
index 4f7454b..3e46ef0 100644
--- a/conn.go
+++ b/conn.go
@@ -768,13 +768,14 @@ func (c *Conn) DisconnectAll(ctx context.Context) error {
 		return nil
 	}
 
-	c.connectedNamespacesMutex.Lock()
-	defer c.connectedNamespacesMutex.Unlock()
+	disconnectMsg := Message{Event: OnNamespaceDisconnect, IsLocal: true}
+	for _, ns := range c.allNamespaces() {
+		if c.Namespace(ns.namespace) == nil {
+			continue // disconnected in the meantime.
+		}
 
-	disconnectMsg := Message{Event: OnNamespaceDisconnect, IsLocal: true, locked: true}
-	for namespace := range c.connectedNamespaces {
-		disconnectMsg.Namespace = namespace
-		if err := c.askDisconnect(ctx, disconnectMsg, false); err != nil {
+		disconnectMsg.Namespace = ns.namespace
+		if err := c.askDisconnect(ctx, disconnectMsg); err != nil {
 			return err
 		}
 	}
@@ -782,17 +783,22 @@ func (c *Conn) DisconnectAll(ctx context.Context) error {
 	return nil
 }
 
-func (c *Conn) askDisconnect(ctx context.Context, msg Message, lock bool) error {
-	if lock {
-		c.connectedNamespacesMutex.RLock()
-	}
-
-	ns := c.connectedNamespaces[msg.Namespace]
+// allNamespaces returns a copy of the connected namespaces,
+// event callbacks and asks should not run while their lock is held.
+func (c *Conn) allNamespaces() []*NSConn {
+	c.connectedNamespacesMutex.RLock()
+	defer c.connectedNamespacesMutex.RUnlock()
 
-	if lock {
-		c.connectedNamespacesMutex.RUnlock()
+	namespaces := make([]*NSConn, 0, len(c.connectedNamespaces))
+	for _, ns := range c.connectedNamespaces {
+		namespaces = append(namespaces, ns)
 	}
 
+	return namespaces
+}
+
+func (c *Conn) askDisconnect(ctx context.Context, msg Message) error {
+	ns := c.Namespace(msg.Namespace)
 	if ns == nil {
 		return ErrBadNamespace
 	}
@@ -806,15 +812,9 @@ func (c *Conn) askDisconnect(ctx context.Context, msg Message, lock bool) error
 	// before namespace's deletion.
 	ns.forceLeaveAll(true)
 
-	if lock {
-		c.connectedNamespacesMutex.Lock()
-	}
-
+	c.connectedNamespacesMutex.Lock()
 	delete(c.connectedNamespaces, msg.Namespace)
-
-	if lock {
-		c.connectedNamespacesMutex.Unlock()
-	}
+	c.connectedNamespacesMutex.Unlock()
 
 	msg.IsLocal = true
 	ns.events.fireEvent(ns, msg)
@@ -898,30 +898,15 @@ func (c *Conn) canWrite(msg Message) bool {
 	}
 
 	if !msg.isConnect() && !msg.isDisconnect() {
-		if !msg.locked {
-			c.connectedNamespacesMutex.RLock()
-		}
-
-		ns := c.connectedNamespaces[msg.Namespace]
-
-		if !msg.locked {
-			c.connectedNamespacesMutex.RUnlock()
-		}
-
+		ns := c.Namespace(msg.Namespace)
 		if ns == nil {
 			return false
 		}
 
 		if msg.Room != "" && !msg.isRoomJoin() && !msg.isRoomLeft() {
-			if !msg.locked {
-				ns.roomsMutex.RLock()
-			}
-
+			ns.roomsMutex.RLock()
 			_, ok := ns.rooms[msg.Room]
-
-			if !msg.locked {
-				ns.roomsMutex.RUnlock()
-			}
+			ns.roomsMutex.RUnlock()
 
 			if !ok {
 				// tried to send to a not joined room.
@@ -1046,16 +1031,17 @@ func (c *Conn) Close() {
 	if atomic.CompareAndSwapUint32(c.closed, 0, 1) {
 		if !c.shouldHandleOnlyNativeMessages {
 			disconnectMsg := Message{Event: OnNamespaceDisconnect, IsForced: true, IsLocal: true}
-			c.connectedNamespacesMutex.Lock()
-			for namespace, ns := range c.connectedNamespaces {
+			for _, ns := range c.allNamespaces() {
 				// leave rooms first with force and local property before remove the namespace completely.
 				ns.forceLeaveAll(true)
 
 				disconnectMsg.Namespace = ns.namespace
 				ns.events.fireEvent(ns, disconnectMsg)
-				delete(c.connectedNamespaces, namespace)
+
+				c.connectedNamespacesMutex.Lock()
+				delete(c.connectedNamespaces, ns.namespace)
+				c.connectedNamespacesMutex.Unlock()
 			}
-			c.connectedNamespacesMutex.Unlock()
 
 			c.waitingMessagesMutex.Lock()
 			for wait := range c.waitingMessages {
diff --git a/conn_namespace.go b/conn_namespace.go
index 5645bfa..71a3888 100644
--- a/conn_namespace.go
+++ b/conn_namespace.go
@@ -129,13 +129,14 @@ func (ns *NSConn) LeaveAll(ctx context.Context) error {
 		return nil
 	}
 
-	ns.roomsMutex.Lock()
-	defer ns.roomsMutex.Unlock()
+	leaveMsg := Message{Namespace: ns.namespace, Event: OnRoomLeave, IsLocal: true}
+	for _, room := range ns.Rooms() {
+		if ns.Room(room.Name) == nil {
+			continue // left in the meantime.
+		}
 
-	leaveMsg := Message{Namespace: ns.namespace, Event: OnRoomLeave, IsLocal: true, locked: true}
-	for room := range ns.rooms {
-		leaveMsg.Room = room
-		if err := ns.askRoomLeave(ctx, leaveMsg, false); err != nil {
+		leaveMsg.Room = room.Name
+		if err := ns.askRoomLeave(ctx, leaveMsg); err != nil {
 			return err
 		}
 	}
@@ -144,15 +145,14 @@ func (ns *NSConn) LeaveAll(ctx context.Context) error {
 }
 
 func (ns *NSConn) forceLeaveAll(isLocal bool) {
-	ns.roomsMutex.Lock()
-	defer ns.roomsMutex.Unlock()
-
 	leaveMsg := Message{Namespace: ns.namespace, Event: OnRoomLeave, IsForced: true, IsLocal: isLocal}
-	for room := range ns.rooms {
-		leaveMsg.Room = room
+	for _, room := range ns.Rooms() {
+		leaveMsg.Room = room.Name
 		ns.events.fireEvent(ns, leaveMsg)
 
-		delete(ns.rooms, room)
+		ns.roomsMutex.Lock()
+		delete(ns.rooms, room.Name)
+		ns.roomsMutex.Unlock()
 
 		leaveMsg.Event = OnRoomLeft
 		ns.events.fireEvent(ns, leaveMsg)
@@ -170,7 +170,7 @@ func (ns *NSConn) Disconnect(ctx context.Context) error {
 	return ns.Conn.askDisconnect(ctx, Message{
 		Namespace: ns.namespace,
 		Event:     OnNamespaceDisconnect,
-	}, true)
+	})
 }
 
 func (ns *NSConn) askRoomJoin(ctx context.Context, roomName string) (*Room, error) {
@@ -234,20 +234,12 @@ func (ns *NSConn) replyRoomJoin(msg Message) {
 	ns.Conn.writeEmptyReply(msg.wait)
 }
 
-func (ns *NSConn) askRoomLeave(ctx context.Context, msg Message, lock bool) error {
+func (ns *NSConn) askRoomLeave(ctx context.Context, msg Message) error {
 	if ns == nil {
 		return nil
 	}
 
-	if lock {
-		ns.roomsMutex.RLock()
-	}
-	_, ok := ns.rooms[msg.Room]
-	if lock {
-		ns.roomsMutex.RUnlock()
-	}
-
-	if !ok {
+	if ns.Room(msg.Room) == nil {
 		return ErrBadRoom
 	}
 
@@ -262,15 +254,9 @@ func (ns *NSConn) askRoomLeave(ctx context.Context, msg Message, lock bool) erro
 		return err
 	}
 
-	if lock {
-		ns.roomsMutex.Lock()
-	}
-
+	ns.roomsMutex.Lock()
 	delete(ns.rooms, msg.Room)
-
-	if lock {
-		ns.roomsMutex.Unlock()
-	}
+	ns.roomsMutex.Unlock()
 
 	msg.Event = OnRoomLeft
 	ns.events.fireEvent(ns, msg)
diff --git a/conn_room.go b/conn_room.go
index ee40486..a882b3e 100644
--- a/conn_room.go
+++ b/conn_room.go
@@ -46,5 +46,5 @@ func (r *Room) Leave(ctx context.Context) error {
 		Namespace: r.NSConn.namespace,
 		Room:      r.Name,
 		Event:     OnRoomLeave,
-	}, true)
+	})
 }
diff --git a/message.go b/message.go
index 630343b..1df2418 100644
--- a/message.go
+++ b/message.go
@@ -93,10 +93,6 @@ type Message struct {
 	// This field is not filled on sending/receiving.
 	IsNative bool
 
-	// Useful rarely internally on `Conn#Write` namespace and rooms checks, i.e `Conn#DisconnectAll` and `NSConn#RemoveAll`.
-	// If true then the writer's checks will not lock connectedNamespacesMutex or roomsMutex again. May be useful in the future, keep that solution.
-	locked bool
-
 	// if server or client should write using Binary message or if the incoming message was readen as binary.
 	SetBinary bool
 }
@@ -385,7 +381,6 @@ func DeserializeMessage(msgTyp MessageType, b []byte, allowNativeMessages, shoul
 		IsForced:          false,
 		IsLocal:           false,
 		IsNative:          allowNativeMessages && event == OnNativeMessage,
-		locked:            false,
 		SetBinary:         msgTyp == BinaryMessage,
 	}
 }
-- 
2.43.0


From 009340809eee97e3febf73f866b1a46c7ecf64fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:31 +0000
Subject: [PATCH 27/54] fix: async broadcaster could lose or repeat messages

---
 broadcaster.go | 55 +++++++++++++++++++++++++++-----------------------
 server.go      | 21 ++++++++-----------
 2 files changed, 38 insertions(+), 38 deletions(-)

diff --git a/broadcaster.go b/broadcaster.go
index 047a187..2d48522 100644
--- a/broadcaster.go
+++ b/broadcaster.go
@@ -2,52 +2,57 @@ package neffos
 
 import (
 	"sync"
-	"sync/atomic"
-	"unsafe"
 )
 
 // async broadcaster, doesn't wait for a publish to complete to all clients before any
 // next broadcast call.
 type broadcaster struct {
+	mu   *sync.Mutex
+	last *broadcast // the next one.
+}
+
+// broadcast holds the messages of a single broadcast call and
+// a link to the next one, so each connection can receive all of them, once and by order.
+// Its messages and next fields are available after its ready channel is closed.
+type broadcast struct {
+	ready    chan struct{}
 	messages []Message
-	mu       *sync.Mutex
-	awaiter  unsafe.Pointer
+	next     *broadcast
 }
 
 func newBroadcaster() *broadcaster {
-	ch := make(chan struct{})
-	awaiter := unsafe.Pointer(&ch)
 	return &broadcaster{
-		mu:      new(sync.Mutex),
-		awaiter: awaiter,
+		mu:   new(sync.Mutex),
+		last: &broadcast{ready: make(chan struct{})},
 	}
 }
 
-func (b *broadcaster) getAwaiter() <-chan struct{} {
-	ptr := atomic.LoadPointer(&b.awaiter)
-	return *((*chan struct{})(ptr))
+// getAwaiter returns the future broadcast.
+func (b *broadcaster) getAwaiter() *broadcast {
+	b.mu.Lock()
+	defer b.mu.Unlock()
+
+	return b.last
 }
 
 func (b *broadcaster) broadcast(msgs []Message) {
 	b.mu.Lock()
-	b.messages = msgs
-	b.mu.Unlock()
+	defer b.mu.Unlock()
 
-	ch := make(chan struct{})
-	old := atomic.SwapPointer(&b.awaiter, unsafe.Pointer(&ch))
-	close(*(*chan struct{})(old))
+	current := b.last
+	current.messages = msgs
+	current.next = &broadcast{ready: make(chan struct{})}
+
+	b.last = current.next
+	close(current.ready)
 }
 
-func (b *broadcaster) waitUntilClosed(closeCh <-chan struct{}) (msgs []Message, ok bool) {
-	ch := b.getAwaiter()
-	b.mu.Unlock()
+// waitUntilClosed waits for the broadcast's messages or until "closeCh".
+func (b *broadcast) waitUntilClosed(closeCh <-chan struct{}) (msgs []Message, ok bool) {
 	select {
-	case <-ch:
-		msgs = b.messages[:]
-		ok = true
+	case <-b.ready:
+		return b.messages, true
 	case <-closeCh:
+		return nil, false
 	}
-
-	b.mu.Lock()
-	return
 }
diff --git a/server.go b/server.go
index c73ab6e..d10f929 100644
--- a/server.go
+++ b/server.go
@@ -333,10 +333,7 @@ func (s *Server) Upgrade(
 	}
 
 	if !s.usesStackExchange() && !s.SyncBroadcaster {
-		go func(c *Conn) {
-			for s.waitMessages(c) {
-			}
-		}(c)
+		go s.waitMessages(c, s.broadcaster.getAwaiter())
 	}
 
 	s.connect <- c
@@ -449,16 +446,14 @@ func publishMessages(c *Conn, msgs []Message) bool {
 	return true
 }
 
-func (s *Server) waitMessages(c *Conn) bool {
-	s.broadcaster.mu.Lock()
-	defer s.broadcaster.mu.Unlock()
-
-	msgs, ok := s.broadcaster.waitUntilClosed(c.closeCh)
-	if !ok {
-		return false
+// waitMessages publishes the "b" and all of its next broadcasts to the "c" connection until it's closed.
+func (s *Server) waitMessages(c *Conn, b *broadcast) {
+	for ; ; b = b.next {
+		msgs, ok := b.waitUntilClosed(c.closeCh)
+		if !ok || !publishMessages(c, msgs) {
+			return
+		}
 	}
-
-	return publishMessages(c, msgs)
 }
 
 type stringerValue struct{ v string }
-- 
2.43.0


From a219115a27d647eb1d49257dc299cf0d2d474605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:36 +0000
Subject: [PATCH 28/54] fix: struct handlers with an unexported field panicked
 on namespace connect

---
 reflect.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/reflect.go b/reflect.go
index 153a5dc..04322ec 100644
--- a/reflect.go
+++ b/reflect.go
@@ -83,6 +83,10 @@ func getNonZeroFields(v reflect.Value) (fields map[int]reflect.Value) {
 	visitFields(v.Type(), func(f reflect.StructField) bool {
 		fieldIndex := f.Index[0]
 		fieldValue := v.Field(fieldIndex)
+		if f.PkgPath != "" { // unexported, it can't be set.
+			return false
+		}
+
 		if !isZero(fieldValue) {
 			if fields == nil {
 				fields = make(map[int]reflect.Value)
-- 
2.43.0


From 8caa2d9fd818b0493c0bd4cd9038e0daf38ebd8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:36 +0000
Subject: [PATCH 29/54] fix: native message after a disconnect of the native
 namespace panicked

---
 conn.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/conn.go b/conn.go
index 3e46ef0..604bf5b 100644
--- a/conn.go
+++ b/conn.go
@@ -440,6 +440,9 @@ func (c *Conn) handleMessage(msg Message) error {
 
 	if msg.IsNative && c.shouldHandleOnlyNativeMessages {
 		ns := c.Namespace("")
+		if ns == nil {
+			return ErrBadNamespace
+		}
 		return ns.events.fireEvent(ns, msg)
 	}
 
-- 
2.43.0


From 2cdf54c9425abe1f45baa7d5a8b2c03629e5f773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:40 +0000
Subject: [PATCH 30/54] fix: second StackExchange was asked with the failed
 reply instead of the question

---
 stackexchange.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/stackexchange.go b/stackexchange.go
index c355e91..81d2edb 100644
--- a/stackexchange.go
+++ b/stackexchange.go
@@ -101,12 +101,12 @@ func (s *stackExchangeWrapper) Publish(msgs []Message) bool {
 
 func (s *stackExchangeWrapper) Ask(ctx context.Context, msg Message, token string) (Message, error) {
 	// we run Ask and if one is failing then we keep trying for all stackexchanges.
-	msg, err := s.parent.Ask(ctx, msg, token)
+	receive, err := s.parent.Ask(ctx, msg, token)
 	if err != nil {
-		msg, err = s.current.Ask(ctx, msg, token)
+		receive, err = s.current.Ask(ctx, msg, token) // the same question.
 	}
 
-	return msg, err
+	return receive, err
 }
 
 func (s *stackExchangeWrapper) NotifyAsk(msg Message, token string) error {
-- 
2.43.0


From 8a1361ed23a3de7de93c6d69a2f302ab4026bf29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:07:33 +0000
Subject: [PATCH 31/54] fix: a server closed right after its creation accepted
 connections again

---
 server.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/server.go b/server.go
index d10f929..f7bf09c 100644
--- a/server.go
+++ b/server.go
@@ -165,8 +165,6 @@ func (s *Server) usesStackExchange() bool {
 }
 
 func (s *Server) start() {
-	atomic.StoreUint32(&s.closed, 0)
-
 	for {
 		select {
 		case c := <-s.connect:
-- 
2.43.0


From b35edc11de7ec6e05955fc5f7377f48297dd28fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:07:33 +0000
Subject: [PATCH 32/54] fix: a connection closed before its registration stayed
 registered for ever

---
 server.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/server.go b/server.go
index f7bf09c..f853a08 100644
--- a/server.go
+++ b/server.go
@@ -120,7 +120,7 @@ func New(upgrader Upgrader, connHandler ConnHandler) *Server {
 		readTimeout:       readTimeout,
 		writeTimeout:      writeTimeout,
 		connections:       make(map[*Conn]struct{}),
-		connect:           make(chan *Conn, 1),
+		connect:           make(chan *Conn),
 		disconnect:        make(chan *Conn),
 		actions:           make(chan action),
 		broadcastMessages: make(chan []Message),
@@ -335,6 +335,12 @@ func (s *Server) Upgrade(
 	}
 
 	s.connect <- c
+	if c.IsClosed() {
+		// closed before its registration (i.e by a failed write), so that signal was ignored.
+		go func() {
+			s.disconnect <- c
+		}()
+	}
 
 	go c.startReader()
 
-- 
2.43.0


From aa33a05d3f6167ee4f078bd0d9e1eaa9a4147f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:10:03 +0000
Subject: [PATCH 33/54] fix: the StackExchange was told of an early
 disconnection before the connection, which was never forgotten

---
 server.go | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/server.go b/server.go
index f853a08..a8473b7 100644
--- a/server.go
+++ b/server.go
@@ -334,6 +334,13 @@ func (s *Server) Upgrade(
 		go s.waitMessages(c, s.broadcaster.getAwaiter())
 	}
 
+	// Before its registration, otherwise the connection may be already disconnected, and
+	// before `OnConnect` in order to be able
+	// to Broadcast inside the `OnConnect` custom func.
+	if s.usesStackExchange() {
+		err = s.StackExchange.OnConnect(c)
+	}
+
 	s.connect <- c
 	if c.IsClosed() {
 		// closed before its registration (i.e by a failed write), so that signal was ignored.
@@ -344,13 +351,9 @@ func (s *Server) Upgrade(
 
 	go c.startReader()
 
-	// Before `OnConnect` in order to be able
-	// to Broadcast inside the `OnConnect` custom func.
-	if s.usesStackExchange() {
-		if err := s.StackExchange.OnConnect(c); err != nil {
-			c.refuse(err)
-			return nil, err
-		}
+	if err != nil {
+		c.refuse(err)
+		return nil, err
 	}
 
 	// Start the reader before `OnConnect`, remember clients may remotely connect to namespace before `Server#OnConnect`
-- 
2.43.0


From 9df79513ae5b7fe4985177668b714270a5129010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:16 +0000
Subject: [PATCH 34/54] fix: a connection upgraded while the server closes
 stayed open

---
 server.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/server.go b/server.go
index a8473b7..e170b33 100644
--- a/server.go
+++ b/server.go
@@ -349,6 +349,12 @@ func (s *Server) Upgrade(
 		}()
 	}
 
+	if atomic.LoadUint32(&s.closed) > 0 {
+		// closed in the meantime, its `Close` may not have seen that connection.
+		c.Close()
+		return nil, errServerClosed
+	}
+
 	go c.startReader()
 
 	if err != nil {
-- 
2.43.0


From 91f80ea62e0435d55541b1016f5e42a5c0b33ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:13 +0000
Subject: [PATCH 35/54] fix: a namespace connected while the connection closes
 was never disconnected

---
 conn.go | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/conn.go b/conn.go
index 604bf5b..a652f86 100644
--- a/conn.go
+++ b/conn.go
@@ -697,9 +697,9 @@ func (c *Conn) askConnect(ctx context.Context, namespace string) (*NSConn, error
 	// 	return ns, nil
 	// }
 
-	c.connectedNamespacesMutex.Lock()
-	c.connectedNamespaces[namespace] = ns
-	c.connectedNamespacesMutex.Unlock()
+	if !c.addNamespace(ns) {
+		return nil, ErrWrite
+	}
 
 	// println("we're connected")
 
@@ -739,15 +739,29 @@ func (c *Conn) replyConnect(msg Message) {
 		return
 	}
 
-	c.connectedNamespacesMutex.Lock()
-	c.connectedNamespaces[msg.Namespace] = ns
-	c.connectedNamespacesMutex.Unlock()
+	if !c.addNamespace(ns) {
+		return
+	}
 
 	c.writeEmptyReply(msg.wait)
 
 	c.notifyNamespaceConnected(ns, msg)
 }
 
+// addNamespace marks the "ns" as connected,
+// unless the connection is closed because its `Close` will not disconnect it.
+func (c *Conn) addNamespace(ns *NSConn) bool {
+	c.connectedNamespacesMutex.Lock()
+	defer c.connectedNamespacesMutex.Unlock()
+
+	if c.IsClosed() {
+		return false
+	}
+
+	c.connectedNamespaces[ns.namespace] = ns
+	return true
+}
+
 func (c *Conn) notifyNamespaceConnected(ns *NSConn, connectMsg Message) {
 	connectMsg.Event = OnNamespaceConnected
 	ns.events.fireEvent(ns, connectMsg) // omit error, it's connected.
-- 
2.43.0


From 95d6806395207bfe4cab4893d89f1446d03aa823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:20 +0000
Subject: [PATCH 36/54] fix: a room joined while the connection closes was
 never left

---
 conn_namespace.go | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/conn_namespace.go b/conn_namespace.go
index 71a3888..e4ba503 100644
--- a/conn_namespace.go
+++ b/conn_namespace.go
@@ -199,9 +199,9 @@ func (ns *NSConn) askRoomJoin(ctx context.Context, roomName string) (*Room, erro
 	}
 
 	room = newRoom(ns, roomName)
-	ns.roomsMutex.Lock()
-	ns.rooms[roomName] = room
-	ns.roomsMutex.Unlock()
+	if !ns.addRoom(room) {
+		return nil, ErrWrite
+	}
 
 	joinMsg.Event = OnRoomJoined
 	ns.events.fireEvent(ns, joinMsg)
@@ -223,9 +223,9 @@ func (ns *NSConn) replyRoomJoin(msg Message) {
 			ns.Conn.Write(msg)
 			return
 		}
-		ns.roomsMutex.Lock()
-		ns.rooms[msg.Room] = newRoom(ns, msg.Room)
-		ns.roomsMutex.Unlock()
+		if !ns.addRoom(newRoom(ns, msg.Room)) {
+			return
+		}
 
 		msg.Event = OnRoomJoined
 		ns.events.fireEvent(ns, msg)
@@ -234,6 +234,20 @@ func (ns *NSConn) replyRoomJoin(msg Message) {
 	ns.Conn.writeEmptyReply(msg.wait)
 }
 
+// addRoom marks the "room" as joined,
+// unless the connection is closed because its `Close` will not leave from it.
+func (ns *NSConn) addRoom(room *Room) bool {
+	ns.roomsMutex.Lock()
+	defer ns.roomsMutex.Unlock()
+
+	if ns.Conn.IsClosed() {
+		return false
+	}
+
+	ns.rooms[room.Name] = room
+	return true
+}
+
 func (ns *NSConn) askRoomLeave(ctx context.Context, msg Message) error {
 	if ns == nil {
 		return nil
-- 
2.43.0


From c5b6311043c941dd652d5850d45321a8e986710a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:42 +0000
Subject: [PATCH 37/54] fix: a broadcast could accept a connection before its
 OnConnect returned

Any write attempt, even of a broadcast for a namespace that the connection
is not connected to, marked it as ready: the client got its acknowledgment
and its messages were handled while the Server#OnConnect was still running
and could refuse it. Mark as ready only when the message is really sent.
---
 conn.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/conn.go b/conn.go
index a652f86..2a45123 100644
--- a/conn.go
+++ b/conn.go
@@ -909,11 +909,6 @@ func (c *Conn) canWrite(msg Message) bool {
 		return false
 	}
 
-	if !c.IsClient() {
-		// for server-side if tries to send, then error will be not ignored but events should continue.
-		c.readiness.unwait(nil)
-	}
-
 	if !msg.isConnect() && !msg.isDisconnect() {
 		ns := c.Namespace(msg.Namespace)
 		if ns == nil {
@@ -947,6 +942,12 @@ func (c *Conn) canWrite(msg Message) bool {
 		return false
 	}
 
+	if !c.IsClient() {
+		// for server-side if tries to send, then error will be not ignored but events should continue.
+		// Not before the checks, i.e a broadcast to others should not accept a connection before its `Server#OnConnect`.
+		c.readiness.unwait(nil)
+	}
+
 	return true
 }
 
-- 
2.43.0


From f68defabaff01605f039e2f6dab3e0ce58f3a72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:14 +0000
Subject: [PATCH 38/54] fix: a CloseError with just a code panicked when its
 text was sent

---
 event.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/event.go b/event.go
index cbfe42f..c07f005 100644
--- a/event.go
+++ b/event.go
@@ -64,6 +64,10 @@ type CloseError struct {
 }
 
 func (err CloseError) Error() string {
+	if err.error == nil { // its text can't be set outside of this package.
+		return fmt.Sprintf("[%d]", err.Code)
+	}
+
 	return fmt.Sprintf("[%d] %s", err.Code, err.error.Error())
 }
 
-- 
2.43.0


From 7b6c52834883340f5511b367d71c628b36174908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:45 +0000
Subject: [PATCH 39/54] fix: broadcasting a message that a connection asked for
 panicked or was lost

---
 server.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/server.go b/server.go
index e170b33..a8d3f2e 100644
--- a/server.go
+++ b/server.go
@@ -507,6 +507,12 @@ func (s *Server) Broadcast(exceptSender fmt.Stringer, msgs ...Message) {
 	// do not modify or keep the caller's slice.
 	msgs = append([]Message(nil), msgs...)
 
+	for i := range msgs {
+		// a broadcasted message may be one that a connection asked for,
+		// its wait token belongs to that connection and not to the receivers.
+		msgs[i].wait = ""
+	}
+
 	if exceptSender != nil {
 		var fromExplicit, from string
 
@@ -528,6 +534,10 @@ func (s *Server) Broadcast(exceptSender fmt.Stringer, msgs ...Message) {
 		}
 	}
 
+	s.publish(msgs)
+}
+
+func (s *Server) publish(msgs []Message) {
 	if s.usesStackExchange() {
 		s.StackExchange.Publish(msgs)
 		return
@@ -572,7 +582,7 @@ func (s *Server) Ask(ctx context.Context, msg Message) (Message, error) {
 		s.waitingMessagesMutex.Unlock()
 	}()
 
-	s.Broadcast(nil, msg)
+	s.publish([]Message{msg})
 
 	select {
 	case <-ctx.Done():
-- 
2.43.0


From 3d1ee3f92ee82abaa0b85982f368598f4709ddd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:28 +0000
Subject: [PATCH 40/54] fix: a broadcast to a room of the empty namespace
 panicked with a backend

---
 stackexchange/nats/stackexchange_nats.go   | 6 +-----
 stackexchange/redis/stackexchange_redis.go | 6 +-----
 2 files changed, 2 insertions(+), 10 deletions(-)

diff --git a/stackexchange/nats/stackexchange_nats.go b/stackexchange/nats/stackexchange_nats.go
index f84c814..98e268f 100644
--- a/stackexchange/nats/stackexchange_nats.go
+++ b/stackexchange/nats/stackexchange_nats.go
@@ -223,11 +223,7 @@ func (exc *StackExchange) getSubject(namespace, room, connID string) string {
 		return exc.SubjectPrefix + "." + connID
 	}
 
-	if namespace == "" && room != "" {
-		// should never happen but give info for debugging.
-		panic("namespace cannot be empty when sending to a namespace's room")
-	}
-
+	// the rooms of a namespace share its subject, the empty namespace has rooms too.
 	return exc.SubjectPrefix + "." + namespace
 }
 
diff --git a/stackexchange/redis/stackexchange_redis.go b/stackexchange/redis/stackexchange_redis.go
index 00765fc..473b7f5 100644
--- a/stackexchange/redis/stackexchange_redis.go
+++ b/stackexchange/redis/stackexchange_redis.go
@@ -186,11 +186,7 @@ func (exc *StackExchange) getChannel(namespace, room, connID string) string {
 		return exc.channel + "." + connID + "."
 	}
 
-	if namespace == "" && room != "" {
-		// should never happen but give info for debugging.
-		panic("namespace cannot be empty when sending to a namespace's room")
-	}
-
+	// the rooms of a namespace share its channel, the empty namespace has rooms too.
 	return exc.channel + "." + namespace + "."
 }
 
-- 
2.43.0


From 0a3e24404022d34dd2cb11485f91f92220aa20aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:14 +0000
Subject: [PATCH 41/54] fix: a client could set the excluded sender of its
 message, asking for it panicked

---
 conn.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/conn.go b/conn.go
index 2a45123..5dcc916 100644
--- a/conn.go
+++ b/conn.go
@@ -528,7 +528,9 @@ func (c *Conn) DeserializeMessage(msgTyp MessageType, payload []byte) Message {
 
 // HandlePayload fires manually a local event based on the "payload".
 func (c *Conn) HandlePayload(msgTyp MessageType, payload []byte) error {
-	return c.handleMessage(c.DeserializeMessage(msgTyp, payload))
+	msg := c.DeserializeMessage(msgTyp, payload)
+	msg.FromExplicit = "" // the remote side cannot exclude a connection, see `Server#Broadcast`.
+	return c.handleMessage(msg)
 }
 
 const syncWaitDur = 15 * time.Millisecond
-- 
2.43.0


From cfed9a7c7e4fa72d9c3c3704dc9de8584622a09e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:07 +0000
Subject: [PATCH 42/54] fix: transports: a write deadline is not left behind
 for later writers and control frames

---
 gobwas/socket.go  | 4 ++++
 gorilla/socket.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/gobwas/socket.go b/gobwas/socket.go
index 5c5bd1f..47a719e 100644
--- a/gobwas/socket.go
+++ b/gobwas/socket.go
@@ -157,6 +157,10 @@ func (s *Socket) write(body []byte, op gobwas.OpCode, timeout time.Duration) err
 
 	// println("write: " + string(body))
 	err := wsutil.WriteMessage(s.UnderlyingConn, s.state, op, body)
+	if timeout > 0 {
+		// it was for this message only, not for the next ones (or control frames).
+		s.UnderlyingConn.SetWriteDeadline(time.Time{})
+	}
 	s.mu.Unlock()
 
 	return err
diff --git a/gorilla/socket.go b/gorilla/socket.go
index d28d9e3..ebe443b 100644
--- a/gorilla/socket.go
+++ b/gorilla/socket.go
@@ -78,6 +78,10 @@ func (s *Socket) write(body []byte, opCode int, timeout time.Duration) error {
 	}
 
 	err := s.UnderlyingConn.WriteMessage(opCode, body)
+	if timeout > 0 {
+		// it was for this message only, not for the next ones (or control frames).
+		s.UnderlyingConn.SetWriteDeadline(time.Time{})
+	}
 	s.mu.Unlock()
 
 	return err
-- 
2.43.0


From acd6916118247799b1853ed28d8e7b1aa6371594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:10 +0000
Subject: [PATCH 43/54] fix: the timeouts of a pointer to WithTimeout were
 ignored

---
 conn_handler.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/conn_handler.go b/conn_handler.go
index 6ae44da..144395c 100644
--- a/conn_handler.go
+++ b/conn_handler.go
@@ -96,6 +96,10 @@ func (t WithTimeout) GetNamespaces() Namespaces {
 }
 
 func getTimeouts(h ConnHandler) (readTimeout time.Duration, writeTimeout time.Duration) {
+	if t, ok := h.(*WithTimeout); ok { // it is a ConnHandler as well.
+		h = *t
+	}
+
 	if t, ok := h.(WithTimeout); ok {
 		readTimeout = t.ReadTimeout
 		writeTimeout = t.WriteTimeout
-- 
2.43.0


From b1706f545973465a68626b2066444c55334112fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:57:09 +0000
Subject: [PATCH 44/54] fix: nats: a namespace subscription could not be ended
 after a connection error

---
 stackexchange/nats/stackexchange_nats.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/stackexchange/nats/stackexchange_nats.go b/stackexchange/nats/stackexchange_nats.go
index 98e268f..3eab6a5 100644
--- a/stackexchange/nats/stackexchange_nats.go
+++ b/stackexchange/nats/stackexchange_nats.go
@@ -174,18 +174,15 @@ func (exc *StackExchange) run() {
 				if err != nil {
 					continue
 				}
-				sub.subConn.Flush()
-				if err = sub.subConn.LastError(); err != nil {
-					// neffos.Debugf("[%s] OnSubscribe [%s] Last Error: %v", m.conn, subject, err)
-					continue
-				}
-
+				// even if it fails below, so it can be unsubscribed.
 				sub.mu.Lock()
 				if sub.subscriptions == nil {
 					sub.subscriptions = make(map[string]*nats.Subscription)
 				}
 				sub.subscriptions[subject] = subscription
 				sub.mu.Unlock()
+
+				sub.subConn.Flush()
 			}
 		case m := <-exc.unsubscribe:
 			if sub, ok := exc.subscribers[m.conn]; ok {
-- 
2.43.0


From a51ad350dccabd1ca11f9c1f53384a1ccd963ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:57:09 +0000
Subject: [PATCH 45/54] fix: nats: the reply of an Ask could be published
 before its subscription

---
 stackexchange/nats/stackexchange_nats.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/stackexchange/nats/stackexchange_nats.go b/stackexchange/nats/stackexchange_nats.go
index 3eab6a5..4d0a6eb 100644
--- a/stackexchange/nats/stackexchange_nats.go
+++ b/stackexchange/nats/stackexchange_nats.go
@@ -319,6 +319,12 @@ func (exc *StackExchange) Ask(ctx context.Context, msg neffos.Message, token str
 
 	defer sub.Unsubscribe()
 
+	// the message is published by another connection, make sure that
+	// the subscription is there before its reply.
+	if err = subConn.Flush(); err != nil {
+		return response, err
+	}
+
 	if !exc.publish(msg) {
 		return response, neffos.ErrWrite
 	}
-- 
2.43.0


From 18731aa132bfa910eee47717231cfd3bc2bf3e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:30:06 +0000
Subject: [PATCH 46/54] fix: a handler struct with certain fields panicked on
 registration

An IsZero method without exactly one bool result, or of a value inside an
unexported field, was called through reflection, which panics.
---
 reflect.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/reflect.go b/reflect.go
index 04322ec..1fa3a9e 100644
--- a/reflect.go
+++ b/reflect.go
@@ -26,8 +26,9 @@ func isZero(v reflect.Value) bool {
 			// if not found
 			// if has input arguments (1 is for the value receiver, so > 1 for the actual input args)
 			// if output argument is not boolean
+			// if it comes from an unexported field, its methods can't be called
 			// then skip this IsZero user-defined function.
-			if !ok || f.Type.NumIn() > 1 || f.Type.NumOut() != 1 && f.Type.Out(0).Kind() != reflect.Bool {
+			if !ok || f.Type.NumIn() > 1 || f.Type.NumOut() != 1 || f.Type.Out(0) != boolType || !v.CanInterface() {
 				return zero
 			}
 
@@ -142,6 +143,7 @@ var (
 	nsConnType = reflect.TypeOf((*NSConn)(nil))
 	msgType    = reflect.TypeOf(Message{})
 	errType    = reflect.TypeOf((*error)(nil)).Elem()
+	boolType   = reflect.TypeOf(false)
 )
 
 func makeMessageHandlerFuncType(forType reflect.Type, nsConnFieldIndex int) reflect.Type {
-- 
2.43.0


From 53f25589281b88e6f92dd44646abffa909bfcab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:30:08 +0000
Subject: [PATCH 47/54] fix: the NSConn field of a handler struct's value
 replaced the connection's own

The preset fields were set after it, so when the struct passed to NewStruct
had a non-nil NSConn every connection's instance got that one.
---
 reflect.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/reflect.go b/reflect.go
index 1fa3a9e..43d7fed 100644
--- a/reflect.go
+++ b/reflect.go
@@ -292,14 +292,14 @@ func makeEventsFromStruct(v reflect.Value, eventMatcher EventMatcherFunc, inject
 			cachePtr := injector(typ, c)
 			cacheElem := cachePtr.Elem()
 
-			// set the NSConn dynamic field.
-			cacheElem.Field(nsConnFieldIndex).Set(reflect.ValueOf(c))
-
 			// set any static fields if default injector (see above).
 			for findex, fvalue := range staticFields {
 				cacheElem.Field(findex).Set(fvalue)
 			}
 
+			// set the NSConn dynamic field.
+			cacheElem.Field(nsConnFieldIndex).Set(reflect.ValueOf(c))
+
 			// Store it for the rest of the events inside
 			// this namespace of that specific connection.
 			c.value = cachePtr
-- 
2.43.0


From 365567320c6497f4867a532f5ca83cd8bdd79ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:30:22 +0000
Subject: [PATCH 48/54] fix: the namespace of a handler struct was wrong when
 its field is promoted

The Namespace field of an embedded struct was read as the embedded struct
itself, which gave a namespace like "<pkg.T Value>".
---
 reflect.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/reflect.go b/reflect.go
index 43d7fed..030241c 100644
--- a/reflect.go
+++ b/reflect.go
@@ -128,7 +128,12 @@ func resolveStructNamespace(v reflect.Value) (string, bool) {
 	v = reflect.Indirect(v)
 	if f, ok := typ.FieldByNameFunc(func(s string) bool { return s == "Namespace" }); ok {
 		if f.Type.Kind() == reflect.String {
-			namespace := v.Field(f.Index[0]).String()
+			field, err := v.FieldByIndexErr(f.Index)
+			if err != nil { // promoted by a nil embedded pointer.
+				return "", false
+			}
+
+			namespace := field.String()
 			Debugf("Set namespace [\"%s\"] from field [%s.%s]", func() dargs {
 				return dargs{namespace, nameOf(typ), f.Name}
 			})
-- 
2.43.0


From d06d41a3b6f671de945d633b31cc667596142776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:40:20 +0000
Subject: [PATCH 49/54] fix: simultaneous Connect calls replaced each other's
 namespace connection

---
 conn.go | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/conn.go b/conn.go
index 5dcc916..888cb9e 100644
--- a/conn.go
+++ b/conn.go
@@ -699,10 +699,15 @@ func (c *Conn) askConnect(ctx context.Context, namespace string) (*NSConn, error
 	// 	return ns, nil
 	// }
 
-	if !c.addNamespace(ns) {
+	connected, added := c.addNamespace(ns)
+	if connected == nil {
 		return nil, ErrWrite
 	}
 
+	if !added {
+		return connected, nil // a simultaneous `Connect` was first.
+	}
+
 	// println("we're connected")
 
 	// c.writeEmptyReply(genWaitConfirmation(reply.wait))
@@ -741,27 +746,35 @@ func (c *Conn) replyConnect(msg Message) {
 		return
 	}
 
-	if !c.addNamespace(ns) {
+	connected, added := c.addNamespace(ns)
+	if connected == nil {
 		return
 	}
 
 	c.writeEmptyReply(msg.wait)
 
-	c.notifyNamespaceConnected(ns, msg)
+	if added {
+		c.notifyNamespaceConnected(ns, msg)
+	}
 }
 
 // addNamespace marks the "ns" as connected,
 // unless the connection is closed because its `Close` will not disconnect it.
-func (c *Conn) addNamespace(ns *NSConn) bool {
+// It returns the connected one, which is another one if it was connected in the meantime.
+func (c *Conn) addNamespace(ns *NSConn) (connected *NSConn, added bool) {
 	c.connectedNamespacesMutex.Lock()
 	defer c.connectedNamespacesMutex.Unlock()
 
 	if c.IsClosed() {
-		return false
+		return nil, false
+	}
+
+	if connected = c.connectedNamespaces[ns.namespace]; connected != nil {
+		return connected, false
 	}
 
 	c.connectedNamespaces[ns.namespace] = ns
-	return true
+	return ns, true
 }
 
 func (c *Conn) notifyNamespaceConnected(ns *NSConn, connectMsg Message) {
-- 
2.43.0


From b318710f8dd6cf84cbedb53120ff5131ff7a9b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:40:21 +0000
Subject: [PATCH 50/54] fix: simultaneous JoinRoom calls replaced each other's
 room and fired OnRoomJoined twice

---
 conn_namespace.go | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/conn_namespace.go b/conn_namespace.go
index e4ba503..dd10e8a 100644
--- a/conn_namespace.go
+++ b/conn_namespace.go
@@ -198,11 +198,15 @@ func (ns *NSConn) askRoomJoin(ctx context.Context, roomName string) (*Room, erro
 		return nil, err
 	}
 
-	room = newRoom(ns, roomName)
-	if !ns.addRoom(room) {
+	room, added := ns.addRoom(newRoom(ns, roomName))
+	if room == nil {
 		return nil, ErrWrite
 	}
 
+	if !added {
+		return room, nil // a simultaneous `JoinRoom` was first.
+	}
+
 	joinMsg.Event = OnRoomJoined
 	ns.events.fireEvent(ns, joinMsg)
 	return room, nil
@@ -223,12 +227,15 @@ func (ns *NSConn) replyRoomJoin(msg Message) {
 			ns.Conn.Write(msg)
 			return
 		}
-		if !ns.addRoom(newRoom(ns, msg.Room)) {
+		room, added := ns.addRoom(newRoom(ns, msg.Room))
+		if room == nil {
 			return
 		}
 
-		msg.Event = OnRoomJoined
-		ns.events.fireEvent(ns, msg)
+		if added {
+			msg.Event = OnRoomJoined
+			ns.events.fireEvent(ns, msg)
+		}
 	}
 
 	ns.Conn.writeEmptyReply(msg.wait)
@@ -236,16 +243,21 @@ func (ns *NSConn) replyRoomJoin(msg Message) {
 
 // addRoom marks the "room" as joined,
 // unless the connection is closed because its `Close` will not leave from it.
-func (ns *NSConn) addRoom(room *Room) bool {
+// It returns the joined one, which is another one if it was joined in the meantime.
+func (ns *NSConn) addRoom(room *Room) (joined *Room, added bool) {
 	ns.roomsMutex.Lock()
 	defer ns.roomsMutex.Unlock()
 
 	if ns.Conn.IsClosed() {
-		return false
+		return nil, false
+	}
+
+	if joined = ns.rooms[room.Name]; joined != nil {
+		return joined, false
 	}
 
 	ns.rooms[room.Name] = room
-	return true
+	return room, true
 }
 
 func (ns *NSConn) askRoomLeave(ctx context.Context, msg Message) error {
-- 
2.43.0


From c5e0f41b13e2fe39feb02fbfbe6b336536882047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:40:22 +0000
Subject: [PATCH 51/54] fix: simultaneous leaves of a room fired OnRoomLeft
 more than once

---
 conn_namespace.go | 47 ++++++++++++++++++++++++++++++-----------------
 1 file changed, 30 insertions(+), 17 deletions(-)

diff --git a/conn_namespace.go b/conn_namespace.go
index dd10e8a..6570a80 100644
--- a/conn_namespace.go
+++ b/conn_namespace.go
@@ -147,12 +147,16 @@ func (ns *NSConn) LeaveAll(ctx context.Context) error {
 func (ns *NSConn) forceLeaveAll(isLocal bool) {
 	leaveMsg := Message{Namespace: ns.namespace, Event: OnRoomLeave, IsForced: true, IsLocal: isLocal}
 	for _, room := range ns.Rooms() {
+		if ns.Room(room.Name) == nil {
+			continue // left in the meantime.
+		}
+
 		leaveMsg.Room = room.Name
 		ns.events.fireEvent(ns, leaveMsg)
 
-		ns.roomsMutex.Lock()
-		delete(ns.rooms, room.Name)
-		ns.roomsMutex.Unlock()
+		if !ns.removeRoom(room.Name) {
+			continue
+		}
 
 		leaveMsg.Event = OnRoomLeft
 		ns.events.fireEvent(ns, leaveMsg)
@@ -280,9 +284,9 @@ func (ns *NSConn) askRoomLeave(ctx context.Context, msg Message) error {
 		return err
 	}
 
-	ns.roomsMutex.Lock()
-	delete(ns.rooms, msg.Room)
-	ns.roomsMutex.Unlock()
+	if !ns.removeRoom(msg.Room) {
+		return nil // a simultaneous leave was first.
+	}
 
 	msg.Event = OnRoomLeft
 	ns.events.fireEvent(ns, msg)
@@ -290,6 +294,17 @@ func (ns *NSConn) askRoomLeave(ctx context.Context, msg Message) error {
 	return nil
 }
 
+// removeRoom reports whether the room was joined until now,
+// the `OnRoomLeft` event should be fired only once for it.
+func (ns *NSConn) removeRoom(roomName string) bool {
+	ns.roomsMutex.Lock()
+	_, joined := ns.rooms[roomName]
+	delete(ns.rooms, roomName)
+	ns.roomsMutex.Unlock()
+
+	return joined
+}
+
 func (ns *NSConn) replyRoomLeave(msg Message) {
 	if ns == nil || msg.wait == "" || msg.isNoOp {
 		return
@@ -305,14 +320,14 @@ func (ns *NSConn) replyRoomLeave(msg Message) {
 	if ns.Conn.IsClient() {
 		ns.events.fireEvent(ns, msg)
 
-		ns.roomsMutex.Lock()
-		delete(ns.rooms, msg.Room)
-		ns.roomsMutex.Unlock()
+		removed := ns.removeRoom(msg.Room)
 
 		ns.Conn.writeEmptyReply(msg.wait)
 
-		msg.Event = OnRoomLeft
-		ns.events.fireEvent(ns, msg)
+		if removed {
+			msg.Event = OnRoomLeft
+			ns.events.fireEvent(ns, msg)
+		}
 		return
 	}
 
@@ -324,12 +339,10 @@ func (ns *NSConn) replyRoomLeave(msg Message) {
 		return
 	}
 
-	ns.roomsMutex.Lock()
-	delete(ns.rooms, msg.Room)
-	ns.roomsMutex.Unlock()
-
-	msg.Event = OnRoomLeft
-	ns.events.fireEvent(ns, msg)
+	if ns.removeRoom(msg.Room) {
+		msg.Event = OnRoomLeft
+		ns.events.fireEvent(ns, msg)
+	}
 
 	ns.Conn.writeEmptyReply(msg.wait)
 }
-- 
2.43.0


From 720721a54a4e2e68a09a3309f6f2a145417a32fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:40:53 +0000
Subject: [PATCH 52/54] fix: simultaneous disconnects of a namespace fired
 OnNamespaceDisconnect more than once

---
 conn.go | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/conn.go b/conn.go
index 888cb9e..6bde03d 100644
--- a/conn.go
+++ b/conn.go
@@ -844,9 +844,9 @@ func (c *Conn) askDisconnect(ctx context.Context, msg Message) error {
 	// before namespace's deletion.
 	ns.forceLeaveAll(true)
 
-	c.connectedNamespacesMutex.Lock()
-	delete(c.connectedNamespaces, msg.Namespace)
-	c.connectedNamespacesMutex.Unlock()
+	if !c.removeNamespace(ns) {
+		return nil // a simultaneous disconnect was first.
+	}
 
 	msg.IsLocal = true
 	ns.events.fireEvent(ns, msg)
@@ -855,6 +855,19 @@ func (c *Conn) askDisconnect(ctx context.Context, msg Message) error {
 	return nil
 }
 
+// removeNamespace reports whether the "ns" was connected until now.
+func (c *Conn) removeNamespace(ns *NSConn) bool {
+	c.connectedNamespacesMutex.Lock()
+	defer c.connectedNamespacesMutex.Unlock()
+
+	if c.connectedNamespaces[ns.namespace] != ns {
+		return false
+	}
+
+	delete(c.connectedNamespaces, ns.namespace)
+	return true
+}
+
 func (c *Conn) replyDisconnect(msg Message) {
 	if msg.wait == "" || msg.isNoOp {
 		return
@@ -872,13 +885,13 @@ func (c *Conn) replyDisconnect(msg Message) {
 		// before namespace's deletion.
 		ns.forceLeaveAll(false)
 
-		c.connectedNamespacesMutex.Lock()
-		delete(c.connectedNamespaces, msg.Namespace)
-		c.connectedNamespacesMutex.Unlock()
+		removed := c.removeNamespace(ns)
 
 		c.writeEmptyReply(msg.wait)
 
-		ns.events.fireEvent(ns, msg)
+		if removed {
+			ns.events.fireEvent(ns, msg)
+		}
 		return
 	}
 
-- 
2.43.0


From 8835d2d81ee9e0313203dc1b623d1446c6c7b3d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:53 +0000
Subject: [PATCH 53/54] fix: a server-side Connect waited forever for a client
 that never acknowledges

---
 conn.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conn.go b/conn.go
index 6bde03d..9c1ca59 100644
--- a/conn.go
+++ b/conn.go
@@ -563,7 +563,7 @@ func (c *Conn) Connect(ctx context.Context, namespace string) (*NSConn, error) {
 				}
 			}
 
-			if t == 0 {
+			if t <= 0 {
 				// when maxSyncWaitDur passed,
 				// we could use the context's deadline but it will make things slower (extracting its value slower than the sleep time).
 				if c.IsClosed() {
-- 
2.43.0


From 61e9b920bb05cdbd6ff95a664c46e2915a25a1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:49 +0000
Subject: [PATCH 54/54] fix: Room.Leave fired the local leave events as the
 remote side's

Message.IsLocal is true when this side asks the other one (connect, disconnect, join and leave)
but a room's Leave, unlike LeaveAll, did not set it.
---
 conn_room.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/conn_room.go b/conn_room.go
index a882b3e..f825754 100644
--- a/conn_room.go
+++ b/conn_room.go
@@ -46,5 +46,6 @@ func (r *Room) Leave(ctx context.Context) error {
 		Namespace: r.NSConn.namespace,
 		Room:      r.Name,
 		Event:     OnRoomLeave,
+		IsLocal:   true,
 	})
 }
-- 
2.43.0

