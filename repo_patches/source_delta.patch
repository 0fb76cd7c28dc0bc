From 8d5aa792b3c2fad337aa05c10c3364137abe0abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:09 +0000
Subject: [PATCH 01/64] fix: Context.Child reports a live child, so that Go and
 friends run the function

---
 context.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/context.go b/context.go
index 80a085e..565f992 100644
--- a/context.go
+++ b/context.go
@@ -214,6 +214,7 @@ func (c *Context) Child() (child *Context, ok bool) {
 	child = &Context{parent: c}
 	rc := CxState(atomic.LoadUint32((*uint32)(&c.State)))
 	if rc == 0 {
+		ok = true
 		c.AddCanceler(child)
 	} else {
 		child.Cancel()
-- 
2.43.0


From 6dee4f4781b55485534bfbe987f94fe709179458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:10 +0000
Subject: [PATCH 02/64] fix: look for registered cancelers under the lock when
 cancelling a context

---
 context.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/context.go b/context.go
index 565f992..0ce4510 100644
--- a/context.go
+++ b/context.go
@@ -105,8 +105,12 @@ func (c *Context) AddCanceler(cn Canceler) {
 }
 
 func (c *Context) cancelAll() {
-	for len(c.cancelsm) > 0 || c.cancelsn > 0 {
+	for {
 		c.m.Lock()
+		if len(c.cancelsm) == 0 && c.cancelsn == 0 {
+			c.m.Unlock()
+			return
+		}
 		cancels := make([]Canceler, 0, len(c.cancels)+c.cancelsn)
 		for i := 0; i < len(c.cancels); i++ {
 			if c.cancels[i] != nil {
-- 
2.43.0


From 4267c880f38705c9e4280c5538db3a346d30c7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:11 +0000
Subject: [PATCH 03/64] fix: wake every waiter of Context.WaitAll

---
 context.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/context.go b/context.go
index 0ce4510..1082e6c 100644
--- a/context.go
+++ b/context.go
@@ -72,7 +72,7 @@ func (c *Context) RemoveCanceler(cn Canceler) {
 		delete(c.cancelsm, cn)
 	}
 	if c.cancelsn == 0 && len(c.cancelsm) == 0 {
-		c.childCond.Signal()
+		c.childCond.Broadcast()
 	}
 	c.m.Unlock()
 }
-- 
2.43.0


From a3d4a91d6fd7a779c2006de936185e64693b0115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:12 +0000
Subject: [PATCH 04/64] fix: unregister a completely answered multi request
 from its context in Each

---
 wait_group.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/wait_group.go b/wait_group.go
index 1a4d011..6b016f1 100644
--- a/wait_group.go
+++ b/wait_group.go
@@ -134,7 +134,11 @@ func (w *MultiRequest) Each() <-chan *Response {
 	}
 	w.responses = nil
 	if w.c == w.r {
+		w.timer.Stop()
 		close(w.ch)
+		if w.cx != nil {
+			w.cx.RemoveCanceler(w)
+		}
 	}
 	w.m.Unlock()
 	return w.ch
-- 
2.43.0


From 6c2aebd8ab6a9a72319dec0702c5d88df6febc3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:11 +0000
Subject: [PATCH 05/64] fix: do not answer into a multi request's stream while
 Each still prepares it

---
 wait_group.go | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/wait_group.go b/wait_group.go
index 6b016f1..8732114 100644
--- a/wait_group.go
+++ b/wait_group.go
@@ -172,20 +172,19 @@ func (w *MultiRequest) Results() MultiResponse {
 }
 
 func (w *MultiRequest) Respond(r *Response) {
+	/* Each hands collected responses over to the channel under the lock */
+	w.m.Lock()
 	if w.ch == nil {
-		w.m.Lock()
-		if w.ch == nil {
-			w.responses = append(w.responses, r)
-			w.requests[r.Id] = nil
-			if w.c++; w.c == w.r && w.kind&mrWait != 0 {
-				w.timer.Stop()
-				w.w.Signal()
-			}
-			w.m.Unlock()
-			return
+		w.responses = append(w.responses, r)
+		w.requests[r.Id] = nil
+		if w.c++; w.c == w.r && w.kind&mrWait != 0 {
+			w.timer.Stop()
+			w.w.Signal()
 		}
 		w.m.Unlock()
+		return
 	}
+	w.m.Unlock()
 	w.ch <- r
 	if v := atomic.AddUint32(&w.c, 1); v == w.r {
 		w.timer.Stop()
-- 
2.43.0


From e6da29f2e9b4c54a17b1fd75d0eb0eb0e35d892f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:12 +0000
Subject: [PATCH 06/64] fix: nil dereference when a multi request is answered
 while being cancelled

---
 wait_group.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/wait_group.go b/wait_group.go
index 8732114..0d01d98 100644
--- a/wait_group.go
+++ b/wait_group.go
@@ -218,8 +218,9 @@ func (w *MultiRequest) performFailAll() {
 	w.m.Unlock()
 
 	for i := 0; i < r; i++ {
-		if allReqs[i] != nil {
-			w.performFail(allReqs[i])
+		/* Respond may clear the slot between check and use */
+		if req := allReqs[i]; req != nil {
+			w.performFail(req)
 		}
 	}
 }
-- 
2.43.0


From 3e0d5d0d642caaa644a8568e6034b0cb7f5c24d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:13 +0000
Subject: [PATCH 07/64] fix: answer requests queued in a stopped
 ParallelService

Respond is ignored for a request which is not in fly.
---
 parallel_service.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parallel_service.go b/parallel_service.go
index 6267c6a..fa8768d 100644
--- a/parallel_service.go
+++ b/parallel_service.go
@@ -97,7 +97,7 @@ Loop:
 		if req, ok = <-serv.ReceiveChan(); !ok {
 			break
 		}
-		req.Respond(RcShutdown, nil)
+		req.ShutDown()
 	}
 }
 
-- 
2.43.0


From 678c6586af7000530fc9ec658001d1e22dc42013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:14 +0000
Subject: [PATCH 08/64] fix: lost wake-up of the timer loop

---
 custom_timer.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/custom_timer.go b/custom_timer.go
index 4f60ff7..9987798 100644
--- a/custom_timer.go
+++ b/custom_timer.go
@@ -104,7 +104,12 @@ func newHeap(i uint32) *tHeap {
 }
 
 func (h *tHeap) loop() {
-	t := time.AfterFunc(time.Hour, h.c.Signal)
+	t := time.AfterFunc(time.Hour, func() {
+		/* without the lock the signal could come between t.Reset and h.c.Wait and be lost */
+		h.m.Lock()
+		h.c.Signal()
+		h.m.Unlock()
+	})
 	h.m.Lock()
 Loop:
 	for {
-- 
2.43.0


From 9e20595d31c3fdee6cafad08e92f94049d77a5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:15 +0000
Subject: [PATCH 09/64] fix: EndPoint.Stop blocks when the loop does not wait
 for the exit signal

---
 service.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/service.go b/service.go
index 5fa1b3d..8978fd5 100644
--- a/service.go
+++ b/service.go
@@ -113,7 +113,7 @@ func (s *SimplePoint) RunChild(p EndPoint) {
 
 func (s *SimplePoint) Init(p PointLoop) {
 	s.PointLoop = p
-	s.exit = make(chan bool)
+	s.exit = make(chan bool, 1)
 }
 
 func (s *SimplePoint) ExitChan() <-chan bool {
@@ -152,7 +152,11 @@ func (s *SimplePoint) Stop() {
 		s.b.close()
 	}
 	s.stopped = true
-	s.exit <- true
+	/* the loop may have gone already */
+	select {
+	case s.exit <- true:
+	default:
+	}
 }
 
 func (s *SimplePoint) Stopped() bool {
-- 
2.43.0


From d55c1986a1dadb627247815cc8d4bce54f421558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:15 +0000
Subject: [PATCH 10/64] fix: panic and lost requests when sending to an
 overflowed end point while it is stopped

---
 buffer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/buffer.go b/buffer.go
index a33e3c8..8ec7206 100644
--- a/buffer.go
+++ b/buffer.go
@@ -85,11 +85,12 @@ func (b *Buffer) push(r *Request) {
 }
 
 func (b *Buffer) close() {
+	/* b.set is not closed, because requests could be pushed after or during close,
+	 * and end point has to answer them */
 	select {
 	case b.set <- true:
 	default:
 	}
-	close(b.set)
 }
 
 func (b *Buffer) loop() {
-- 
2.43.0


From e04bb587e2bdff4543c725d1a81a4191548f373b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:12 +0000
Subject: [PATCH 11/64] fix: a child added while the balancer starts was run
 twice, which panics

---
 balancer.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/balancer.go b/balancer.go
index f7e3aff..71003f8 100644
--- a/balancer.go
+++ b/balancer.go
@@ -1,7 +1,11 @@
 package iproto
 
+import "sync"
+
 type BalancerPoint struct {
 	SimplePoint
+	m        sync.Mutex
+	looping  bool
 	children []EndPoint
 }
 
@@ -10,18 +14,26 @@ func (b *BalancerPoint) Init() {
 }
 
 func (b *BalancerPoint) AddChild(ch EndPoint) {
+	b.m.Lock()
 	b.children = append(b.children, ch)
-	if b.Runned() {
+	if b.looping {
 		ch.Run(b.b.ch)
 	}
+	b.m.Unlock()
 }
 
 func (b *BalancerPoint) Loop() {
+	b.m.Lock()
 	for _, ch := range b.children {
 		b.RunChild(ch)
 	}
+	b.looping = true
+	b.m.Unlock()
 	<-b.ExitChan()
+	b.m.Lock()
 	for _, ch := range b.children {
 		ch.Stop()
 	}
+	b.looping = false
+	b.m.Unlock()
 }
-- 
2.43.0


From b3ec8240d45020096564c2a0eb6e5bca8efdc1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:13 +0000
Subject: [PATCH 12/64] fix: a stopped child refused requests of its running
 siblings, a stopped balancer left requests unanswered

---
 balancer.go         | 4 ++++
 parallel_service.go | 5 +++++
 2 files changed, 9 insertions(+)

diff --git a/balancer.go b/balancer.go
index 71003f8..530966f 100644
--- a/balancer.go
+++ b/balancer.go
@@ -36,4 +36,8 @@ func (b *BalancerPoint) Loop() {
 	}
 	b.looping = false
 	b.m.Unlock()
+
+	for req := range b.ReceiveChan() {
+		req.ShutDown()
+	}
 }
diff --git a/parallel_service.go b/parallel_service.go
index fa8768d..167423e 100644
--- a/parallel_service.go
+++ b/parallel_service.go
@@ -93,6 +93,11 @@ Loop:
 		}
 	}
 
+	if !serv.Standalone() {
+		/* the queue belongs to the parent, other children may still serve it */
+		return
+	}
+
 	for {
 		if req, ok = <-serv.ReceiveChan(); !ok {
 			break
-- 
2.43.0


From aa46804d9fe03b2f5d2a8d6d7e84217e1ddc4d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:13 +0000
Subject: [PATCH 13/64] fix: client crash and broken accounting on responses
 with unknown or repeated ids

---
 net/client/connection/request_holder.go | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/net/client/connection/request_holder.go b/net/client/connection/request_holder.go
index d569d42..23c715a 100644
--- a/net/client/connection/request_holder.go
+++ b/net/client/connection/request_holder.go
@@ -1,7 +1,6 @@
 package connection
 
 import (
-	"log"
 	"sync"
 	"sync/atomic"
 
@@ -69,19 +68,22 @@ func (h *RequestHolder) getNext(conn *Connection) (req *Request) {
 }
 
 func (h *RequestHolder) remove(fakeId uint32) (ireq *iproto.Request) {
-	var ok bool
 	big := fakeId >> rowLogN
 	if h.lastBig != big {
 		h.Lock()
-		if h.last, ok = h.reqs[big]; !ok {
-			h.Unlock()
-			log.Panicf("Map has no RequestRow for %d", fakeId)
-		}
-		h.lastBig = big
+		row, ok := h.reqs[big]
 		h.Unlock()
+		if !ok {
+			return nil
+		}
+		h.last, h.lastBig = row, big
 	}
 
 	reqs := h.last
+	if reqs.reqs[fakeId&rowMask].fakeId == 0 {
+		/* unknown or repeated response */
+		return nil
+	}
 	reqs.freed++
 	border := big == 0 || big == uint32(iproto.PingRequestId>>8)
 	if reqs.freed == rowN || (reqs.freed == rowN1 && border) {
-- 
2.43.0


From 6923181ac0d9e0644930f5cb7a004c68105cee97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:14 +0000
Subject: [PATCH 14/64] fix: an id prepared for a cancelled request counted as
 in flight and could be spoiled by the peer

---
 net/client/connection/connection.go     |  6 ++++--
 net/client/connection/request_holder.go | 12 ++++++++----
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/net/client/connection/connection.go b/net/client/connection/connection.go
index e69ce0c..c394d85 100644
--- a/net/client/connection/connection.go
+++ b/net/client/connection/connection.go
@@ -252,6 +252,7 @@ func (conn *Connection) writeLoop() {
 	}()
 
 	var req *Request
+	var fakeId uint32
 
 Loop:
 	for {
@@ -284,14 +285,15 @@ Loop:
 			err = w.Ping()
 		} else {
 			if req == nil {
-				req = conn.inFly.getNext(conn)
+				req, fakeId = conn.inFly.getNext(conn)
 			}
 			if !request.SetInFly(req) {
 				continue
 			}
+			conn.inFly.use(req, fakeId)
 			requestHeader = nt.Request{
 				Msg:  request.Msg,
-				Id:   req.fakeId,
+				Id:   fakeId,
 				Body: request.Body,
 			}
 			req = nil
diff --git a/net/client/connection/request_holder.go b/net/client/connection/request_holder.go
index 23c715a..2963b20 100644
--- a/net/client/connection/request_holder.go
+++ b/net/client/connection/request_holder.go
@@ -43,8 +43,8 @@ func (h *RequestHolder) init() {
 	h.reqs[0] = h.cur
 }
 
-func (h *RequestHolder) getNext(conn *Connection) (req *Request) {
-	h.got++
+/* getNext finds a free slot and an id for it, use makes them known to the reader */
+func (h *RequestHolder) getNext(conn *Connection) (req *Request, fakeId uint32) {
 	for {
 		id := atomic.AddUint32(&h.curId, 1)
 		big := id >> rowLogN
@@ -61,12 +61,16 @@ func (h *RequestHolder) getNext(conn *Connection) (req *Request) {
 			if req.fakeId != 0 {
 				continue
 			}
-			req.fakeId = uint32(id)
-			return
+			return req, id
 		}
 	}
 }
 
+func (h *RequestHolder) use(req *Request, fakeId uint32) {
+	h.got++
+	req.fakeId = fakeId
+}
+
 func (h *RequestHolder) remove(fakeId uint32) (ireq *iproto.Request) {
 	big := fakeId >> rowLogN
 	if h.lastBig != big {
-- 
2.43.0


From 002722d1d9f64152677af9009112a61cc96a81e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:15 +0000
Subject: [PATCH 15/64] fix: requests in flight on a closed connection waited
 for the next ping or request

---
 net/client/connection/connection.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/net/client/connection/connection.go b/net/client/connection/connection.go
index c394d85..3c28661 100644
--- a/net/client/connection/connection.go
+++ b/net/client/connection/connection.go
@@ -90,6 +90,7 @@ func NewConnection(conf *CConf, id uint64) (conn *Connection) {
 		Id:    id,
 
 		loopNotify: make(chan notifyAction, 2),
+		closeWrite: make(chan bool),
 		State:      CsNew,
 	}
 	conn.inFly.init()
@@ -167,6 +168,7 @@ func (conn *Connection) controlLoop() {
 			if conn.State&CsWriteClosed == 0 {
 				conn.conn.CloseWrite()
 			}
+			close(conn.closeWrite)
 		case readEmpty:
 		}
 
@@ -278,6 +280,8 @@ Loop:
 			case <-conn.ExitChan():
 				conn.shutdown = true
 				break Loop
+			case <-conn.closeWrite:
+				break Loop
 			}
 		}
 
-- 
2.43.0


From 529b61b00df4f08deb29cca9344a15d1133dfaa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:41 +0000
Subject: [PATCH 16/64] fix: honour DialTimeout, also while waiting for the
 first ping

---
 net/client/connection/connection.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/net/client/connection/connection.go b/net/client/connection/connection.go
index 3c28661..d2fcd3d 100644
--- a/net/client/connection/connection.go
+++ b/net/client/connection/connection.go
@@ -102,13 +102,19 @@ func NewConnection(conf *CConf, id uint64) (conn *Connection) {
 const DialTimeout = 5 * time.Second
 
 func (conn *Connection) Loop() {
-	dialer := net.Dialer{Timeout: DialTimeout}
+	timeout := conn.DialTimeout
+	if timeout <= 0 {
+		timeout = DialTimeout
+	}
+	dialer := net.Dialer{Timeout: timeout}
 	conn.State = CsDialing
 	if netconn, err := dialer.Dial(conn.Network, conn.Address); err != nil {
 		conn.ConnErr <- Error{conn, Dial, err}
 		conn.State = CsClosed
 	} else {
 		conn.conn = netconn.(nt.NetConn)
+		/* peer could accept and keep silence */
+		netconn.SetDeadline(time.Now().Add(timeout))
 		conn.reader.Init(conn.conn, conn.ReadTimeout, conn.RetCodeType)
 		conn.writer.Init(conn.conn, conn.WriteTimeout, conn.RetCodeType)
 		if err = conn.writer.Ping(); err == nil {
@@ -122,6 +128,7 @@ func (conn *Connection) Loop() {
 			conn.State = CsClosed
 			return
 		}
+		netconn.SetDeadline(time.Time{})
 		conn.ConnErr <- Error{conn, Dial, nil}
 		conn.State = CsConnected
 		go conn.readLoop()
-- 
2.43.0


From 3491c63d2d0f57c9e1e6bd25a1a1050dac93870e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:42 +0000
Subject: [PATCH 17/64] fix: client counted connections it closes itself twice,
 so that resizing never settled

---
 net/client/server.go | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/net/client/server.go b/net/client/server.go
index eb5cd3f..52e5c90 100644
--- a/net/client/server.go
+++ b/net/client/server.go
@@ -41,6 +41,7 @@ type Server struct {
 	dialing     int
 	established int
 	dying       int
+	stopping    int /* stopped, but still counted as dialing or established */
 
 	connErr     chan connection.Error
 	actions     chan action
@@ -86,7 +87,7 @@ func (cfg ServerConfig) NewServer() (serv *Server) {
 }
 
 func (serv *Server) fixConnections() {
-	needConn := serv.needConns - (serv.dialing + serv.established)
+	needConn := serv.needConns - (serv.dialing + serv.established - serv.stopping)
 	for ; needConn > 0; needConn-- {
 		serv.curId++
 		conn := connection.NewConnection(&serv.CConf, serv.curId)
@@ -96,14 +97,13 @@ func (serv *Server) fixConnections() {
 	}
 	if needConn < 0 {
 		for _, conn := range serv.connections {
+			if conn.Stopped() {
+				continue
+			}
 			switch conn.State {
-			case connection.CsDialing:
-				conn.Stop()
-				serv.dialing--
-				needConn++
-			case connection.CsConnected:
+			case connection.CsDialing, connection.CsConnected:
 				conn.Stop()
-				serv.established--
+				serv.stopping++
 				needConn++
 			}
 			if needConn == 0 {
@@ -167,6 +167,9 @@ func (serv *Server) onConnError(connErr connection.Error) {
 				log.Panicf("Unknown connection failed %+v", conn)
 			}
 			delete(serv.connections, conn.Id)
+			if conn.Stopped() {
+				serv.stopping--
+			}
 			if serv.established == 0 && serv.Standalone() {
 				serv.AllDisconnected()
 			}
@@ -175,6 +178,9 @@ func (serv *Server) onConnError(connErr connection.Error) {
 		log.Printf("%s: write side closed %v -> %v", serv.conf.Name, conn.LocalAddr(), conn.RemoteAddr())
 		serv.established--
 		serv.dying++
+		if conn.Stopped() {
+			serv.stopping--
+		}
 		if serv.established == 0 && serv.Standalone() {
 			serv.AllDisconnected()
 		}
-- 
2.43.0


From 69b1296bd09d84314f4ae0b34c889916fbe43816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:42 +0000
Subject: [PATCH 18/64] fix: stopped client left requests unanswered and its
 connections blocked

---
 net/client/server.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/net/client/server.go b/net/client/server.go
index 52e5c90..3599238 100644
--- a/net/client/server.go
+++ b/net/client/server.go
@@ -139,11 +139,32 @@ func (serv *Server) Loop() {
 			break
 		}
 	}
+	if serv.Standalone() {
+		go serv.refuse()
+	}
+	/* closed connections have yet to report, otherwise they could not finish */
+	for len(serv.connections) > 0 {
+		serv.onConnError(<-serv.connErr)
+	}
+}
+
+/* refuse answers requests which come to stopped client */
+func (serv *Server) refuse() {
+	for {
+		select {
+		case req := <-serv.ReceiveChan():
+			req.ShutDown()
+		case <-serv.actions:
+		}
+	}
 }
 
 func (serv *Server) onAction(action action) {
 	switch action.kind {
 	case setServ:
+		if serv.exiting {
+			return
+		}
 		serv.Connections = action.servs
 		serv.needConns = action.servs
 	}
-- 
2.43.0


From 62f055931644a82732403186058827b93ad635d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:43 +0000
Subject: [PATCH 19/64] fix: response to ping contained return code not counted
 in its length

---
 net/header.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/net/header.go b/net/header.go
index ca974bf..aa3bd1f 100644
--- a/net/header.go
+++ b/net/header.go
@@ -165,8 +165,11 @@ func (h *HeaderWriter) WriteResponse(res Response) (err error) {
 		return
 	}
 
+	if retCodeLen == 0 {
+		return h.w.Write(res.Body)
+	}
+
 	switch h.rc {
-	case RC0byte:
 	case RC1byte:
 		if err = h.w.WriteByte(byte(res.Code)); err != nil {
 			return
-- 
2.43.0


From ea189920f1461b4d5e0d55c98b5ab270a69646dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:43 +0000
Subject: [PATCH 20/64] fix: one byte return code occupied four bytes

---
 net/buf_writer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/net/buf_writer.go b/net/buf_writer.go
index 0da728b..3be011e 100644
--- a/net/buf_writer.go
+++ b/net/buf_writer.go
@@ -58,14 +58,14 @@ func (w *BufWriter) Write3Uint32(i, j, k uint32) (err error) {
 }
 
 func (w *BufWriter) WriteByte(i byte) (err error) {
-	if w.wr+4 > len(w.buf) {
+	if w.wr+1 > len(w.buf) {
 		if err = w.Flush(); err != nil {
 			return
 		}
 	}
 
 	w.buf[w.wr] = i
-	w.wr += 4
+	w.wr++
 	return
 }
 
-- 
2.43.0


From 6252c33d0e797297b9ef02663ac17c39fc2acfa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:44 +0000
Subject: [PATCH 21/64] fix: SliceReader.ReadByte read nothing when its buffer
 was empty

---
 net/slice_reader.go | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/net/slice_reader.go b/net/slice_reader.go
index c833dff..ae5c0e0 100644
--- a/net/slice_reader.go
+++ b/net/slice_reader.go
@@ -56,15 +56,8 @@ func (sl *SliceReader) ReadByte() (res byte, err error) {
 		return
 	}
 	var buf []byte
-	var n int
-	if cap(buf) == 0 {
-		buf = make([]byte, len(sl.buf), sl.size)
-	}
-	n, err = sl.read(buf)
-	if n >= 1 {
+	if buf, err = sl.Read(1); err == nil {
 		res = buf[0]
-		sl.buf = buf[1:n]
-		err = nil
 	}
 	return
 }
-- 
2.43.0


From 77f50bf5018d67b3774240fa07d43dbc832fb22f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:45 +0000
Subject: [PATCH 22/64] fix: server connection deadlocked when more than 128
 answers were pending

---
 net/server/connection.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/net/server/connection.go b/net/server/connection.go
index 7e99713..e8d4958 100644
--- a/net/server/connection.go
+++ b/net/server/connection.go
@@ -92,6 +92,7 @@ CodeEnd:
 			case conn.out <- nt.Response(*r):
 				conn.Unlock()
 				return
+			default:
 			}
 		}
 		conn.buf = append(conn.buf, nt.Response(*r))
-- 
2.43.0


From 6fe0310d9195f7c0005c0b002ae4eadb08719143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:51 +0000
Subject: [PATCH 23/64] fix: server connection hung for ever on a ping when its
 writer had failed

---
 net/server/connection.go | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/net/server/connection.go b/net/server/connection.go
index e8d4958..caf33f2 100644
--- a/net/server/connection.go
+++ b/net/server/connection.go
@@ -86,19 +86,22 @@ CodeEnd:
 	conn.Lock()
 	if _, ok := conn.inFly[r.Id]; ok {
 		delete(conn.inFly, r.Id)
+		conn.push(nt.Response(*r))
+	}
+	conn.Unlock()
+}
 
-		if len(conn.buf) == 0 {
-			select {
-			case conn.out <- nt.Response(*r):
-				conn.Unlock()
-				return
-			default:
-			}
+/* push is called with the lock held */
+func (conn *Connection) push(res nt.Response) {
+	if len(conn.buf) == 0 {
+		select {
+		case conn.out <- res:
+			return
+		default:
 		}
-		conn.buf = append(conn.buf, nt.Response(*r))
-		conn.bufRealCap = cap(conn.buf)
 	}
-	conn.Unlock()
+	conn.buf = append(conn.buf, res)
+	conn.bufRealCap = cap(conn.buf)
 }
 
 func (conn *Connection) cancelInFly() {
@@ -178,7 +181,10 @@ func (conn *Connection) readLoop() {
 				Id:  req.Id,
 				Msg: iproto.Ping,
 			}
-			conn.out <- res
+			/* do not block, there could be no writer any more */
+			conn.Lock()
+			conn.push(res)
+			conn.Unlock()
 			continue
 		}
 
-- 
2.43.0


From a8493e8e897b6fff2a62643db98213e614463411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:51 +0000
Subject: [PATCH 24/64] fix: server crash by double close when a connection
 drained while its read side was closing

---
 net/server/connection.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/net/server/connection.go b/net/server/connection.go
index caf33f2..fb24904 100644
--- a/net/server/connection.go
+++ b/net/server/connection.go
@@ -128,6 +128,7 @@ func (conn *Connection) closed() {
 
 func (conn *Connection) controlLoop() {
 	defer conn.closed()
+	outClosed := false
 	for {
 		action := <-conn.loopNotify
 		switch action {
@@ -137,6 +138,7 @@ func (conn *Connection) controlLoop() {
 			conn.state |= CsReadClosed
 			if len(conn.inFly)+len(conn.buf)+len(conn.out) == 0 {
 				close(conn.out)
+				outClosed = true
 			}
 			conn.Unlock()
 		case writeClosed:
@@ -147,7 +149,10 @@ func (conn *Connection) controlLoop() {
 				conn.conn.CloseRead()
 			}
 		case inFlyEmpty:
-			close(conn.out)
+			if !outClosed {
+				close(conn.out)
+				outClosed = true
+			}
 		}
 
 		if conn.state&CsClosed == CsClosed {
-- 
2.43.0


From 4f175000bdb93f2eade9ab91620f1b7d3c51aed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:52 +0000
Subject: [PATCH 25/64] fix: lost connection reported itself twice and could
 leave requests uncancelled

---
 net/server/connection.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/net/server/connection.go b/net/server/connection.go
index fb24904..e63f1ac 100644
--- a/net/server/connection.go
+++ b/net/server/connection.go
@@ -117,12 +117,15 @@ func (conn *Connection) cancelInFly() {
 	for _, req := range reqs {
 		req.Cancel()
 	}
-	conn.Server.connClosed <- conn.Id
 }
 
 func (conn *Connection) closed() {
+	/* requests could be read after the write side was closed */
+	conn.cancelInFly()
+	conn.Lock()
 	conn.buf = nil
 	conn.inFly = nil
+	conn.Unlock()
 	conn.Server.connClosed <- conn.Id
 }
 
-- 
2.43.0


From 956f55d6523621b931db2e2db1af4e3f09be7a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:55 +0000
Subject: [PATCH 26/64] fix: encoding of []float64 overlapped its elements

---
 marshal/writer_any.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marshal/writer_any.go b/marshal/writer_any.go
index 775f75f..26a7a8c 100644
--- a/marshal/writer_any.go
+++ b/marshal/writer_any.go
@@ -113,7 +113,7 @@ func (w *Writer) Float32sl(i []float32) {
 func (w *Writer) Float64sl(i []float64) {
 	l := w.ensure(len(i) * 8)
 	for j := 0; j < len(i); j++ {
-		le.PutUint64(w.buf[l+j*4:], math.Float64bits(i[j]))
+		le.PutUint64(w.buf[l+j*8:], math.Float64bits(i[j]))
 	}
 	return
 }
-- 
2.43.0


From 27958141549e98d222657e11fef99045a651f8a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:57 +0000
Subject: [PATCH 27/64] fix: size(i64) and cnt(i64) were written in four bytes
 and read in eight

---
 marshal/writer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marshal/writer.go b/marshal/writer.go
index 2b2d4d6..4d6c993 100644
--- a/marshal/writer.go
+++ b/marshal/writer.go
@@ -133,7 +133,7 @@ func (w *Writer) Intvar(i int) {
 }
 
 func (w *Writer) IntUint64(i int) {
-	w.Uint32(uint32(i))
+	w.Uint64(uint64(i))
 }
 
 func (w *Writer) IntUint32(i int) {
-- 
2.43.0


From c150bc4dde55eb89223d5e90d8459f5a64ce2707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:58 +0000
Subject: [PATCH 28/64] fix: size of varints with value of 128 and alike

---
 marshal/marshal.go | 2 +-
 marshal/writer.go  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/marshal/marshal.go b/marshal/marshal.go
index 355dac9..6282e78 100644
--- a/marshal/marshal.go
+++ b/marshal/marshal.go
@@ -153,7 +153,7 @@ var tfloat64 = reflect.TypeOf(float64(0))
 const gg = 2*1024*1024*1024 - 1
 
 func Varsize(i int) (j int) {
-	for j = 0; i > 1<<7; j++ {
+	for j = 0; i >= 1<<7; j++ {
 		i >>= 7
 	}
 	return j + 1
diff --git a/marshal/writer.go b/marshal/writer.go
index 4d6c993..4cf490c 100644
--- a/marshal/writer.go
+++ b/marshal/writer.go
@@ -79,7 +79,7 @@ func (w *Writer) Int8(i int8) {
 }
 
 func varu64size(i uint64) (j int) {
-	for j = 0; i > 1<<7; j++ {
+	for j = 0; i >= 1<<7; j++ {
 		i >>= 7
 	}
 	return j + 1
-- 
2.43.0


From a3bcb2bae59da2674d96f49209782ec671ca9362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:59 +0000
Subject: [PATCH 29/64] fix: fields of variable size shrank the fixed size of a
 struct

---
 marshal/reader_reflect.go | 4 +++-
 marshal/writer_reflect.go | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/marshal/reader_reflect.go b/marshal/reader_reflect.go
index cb770f2..234ef8d 100644
--- a/marshal/reader_reflect.go
+++ b/marshal/reader_reflect.go
@@ -1113,7 +1113,9 @@ Fields:
 			continue
 		}
 
-		if size >= 0 {
+		if fr.Sz < 0 {
+			size = -1
+		} else if size >= 0 {
 			size += fr.Sz
 		}
 
diff --git a/marshal/writer_reflect.go b/marshal/writer_reflect.go
index 9b6cad5..0265865 100644
--- a/marshal/writer_reflect.go
+++ b/marshal/writer_reflect.go
@@ -808,7 +808,9 @@ Fields:
 			continue
 		}
 
-		if size >= 0 {
+		if fw.Sz < 0 {
+			size = -1
+		} else if size >= 0 {
 			size += fw.Sz
 		}
 
-- 
2.43.0


From aeb45ebdbbd0e3459524c9201dd0e028f9e04745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:00 +0000
Subject: [PATCH 30/64] fix: size of struct with cnt(i8) tag

---
 marshal/reader_reflect.go | 2 +-
 marshal/writer_reflect.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/marshal/reader_reflect.go b/marshal/reader_reflect.go
index 234ef8d..b108729 100644
--- a/marshal/reader_reflect.go
+++ b/marshal/reader_reflect.go
@@ -1073,7 +1073,7 @@ Fields:
 					fr.CntRd = (*Reader).Intvar
 				case "i8":
 					if size >= 0 {
-						size += 2
+						size += 1
 					}
 					fr.CntRd = (*Reader).IntUint8
 				case "i16":
diff --git a/marshal/writer_reflect.go b/marshal/writer_reflect.go
index 0265865..4f02024 100644
--- a/marshal/writer_reflect.go
+++ b/marshal/writer_reflect.go
@@ -768,7 +768,7 @@ Fields:
 					fw.CntWr = (*Writer).Intvar
 				case "i8":
 					if size >= 0 {
-						size += 2
+						size += 1
 					}
 					fw.CntWr = (*Writer).IntUint8
 				case "i16":
-- 
2.43.0


From 41a6912c9c1a4aeadc2cd476a18e894f1b70ebca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:01 +0000
Subject: [PATCH 31/64] fix: panic on reading of slices till the end of data

---
 marshal/reader.go | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/marshal/reader.go b/marshal/reader.go
index b76a066..04c76d2 100644
--- a/marshal/reader.go
+++ b/marshal/reader.go
@@ -239,10 +239,7 @@ func (r *Reader) Uint8slValTail(v reflect.Value) {
 		return
 	}
 	if v.CanAddr() {
-		//l := len(r.Body)
-		//v.Set(reflect.MakeSlice(v.Type().Elem(), l, l))
-		p := v.Addr().Interface().(*[]byte)
-		*p = r.Tail()
+		v.SetBytes(r.Tail())
 	} else {
 		r.Uint8slVal(v)
 	}
@@ -254,7 +251,7 @@ func (r *Reader) Uint16slValTail(v reflect.Value) {
 	}
 	if v.CanAddr() {
 		l := len(r.Body) / 2
-		v.Set(reflect.MakeSlice(v.Type().Elem(), l, l))
+		v.Set(reflect.MakeSlice(v.Type(), l, l))
 	}
 	r.Uint16slVal(v)
 }
@@ -265,7 +262,7 @@ func (r *Reader) Uint32slValTail(v reflect.Value) {
 	}
 	if v.CanAddr() {
 		l := len(r.Body) / 4
-		v.Set(reflect.MakeSlice(v.Type().Elem(), l, l))
+		v.Set(reflect.MakeSlice(v.Type(), l, l))
 	}
 	r.Uint32slVal(v)
 }
@@ -276,7 +273,7 @@ func (r *Reader) Uint64slValTail(v reflect.Value) {
 	}
 	if v.CanAddr() {
 		l := len(r.Body) / 8
-		v.Set(reflect.MakeSlice(v.Type().Elem(), l, l))
+		v.Set(reflect.MakeSlice(v.Type(), l, l))
 	}
 	r.Uint64slVal(v)
 }
@@ -287,7 +284,7 @@ func (r *Reader) Int8slValTail(v reflect.Value) {
 	}
 	if v.CanAddr() {
 		l := len(r.Body)
-		v.Set(reflect.MakeSlice(v.Type().Elem(), l, l))
+		v.Set(reflect.MakeSlice(v.Type(), l, l))
 	}
 	r.Int8slVal(v)
 }
@@ -298,7 +295,7 @@ func (r *Reader) Int16slValTail(v reflect.Value) {
 	}
 	if v.CanAddr() {
 		l := len(r.Body) / 2
-		v.Set(reflect.MakeSlice(v.Type().Elem(), l, l))
+		v.Set(reflect.MakeSlice(v.Type(), l, l))
 	}
 	r.Int16slVal(v)
 }
@@ -309,7 +306,7 @@ func (r *Reader) Int32slValTail(v reflect.Value) {
 	}
 	if v.CanAddr() {
 		l := len(r.Body) / 4
-		v.Set(reflect.MakeSlice(v.Type().Elem(), l, l))
+		v.Set(reflect.MakeSlice(v.Type(), l, l))
 	}
 	r.Int32slVal(v)
 }
@@ -320,7 +317,7 @@ func (r *Reader) Int64slValTail(v reflect.Value) {
 	}
 	if v.CanAddr() {
 		l := len(r.Body) / 8
-		v.Set(reflect.MakeSlice(v.Type().Elem(), l, l))
+		v.Set(reflect.MakeSlice(v.Type(), l, l))
 	}
 	r.Int64slVal(v)
 }
@@ -331,7 +328,7 @@ func (r *Reader) Float32slValTail(v reflect.Value) {
 	}
 	if v.CanAddr() {
 		l := len(r.Body) / 4
-		v.Set(reflect.MakeSlice(v.Type().Elem(), l, l))
+		v.Set(reflect.MakeSlice(v.Type(), l, l))
 	}
 	r.Float32slVal(v)
 }
@@ -342,7 +339,7 @@ func (r *Reader) Float64slValTail(v reflect.Value) {
 	}
 	if v.CanAddr() {
 		l := len(r.Body) / 8
-		v.Set(reflect.MakeSlice(v.Type().Elem(), l, l))
+		v.Set(reflect.MakeSlice(v.Type(), l, l))
 	}
 	r.Float64slVal(v)
 }
-- 
2.43.0


From 7b2f79fec2b78ed0cb32ba10fb9f83e3c3460361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:02 +0000
Subject: [PATCH 32/64] fix: pointers of variable size were never read

---
 marshal/reader_reflect.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marshal/reader_reflect.go b/marshal/reader_reflect.go
index b108729..12a9c59 100644
--- a/marshal/reader_reflect.go
+++ b/marshal/reader_reflect.go
@@ -776,7 +776,7 @@ func (t *TReader) FillPtr() {
 		}
 	}
 	t.Tail = func(r *Reader, v reflect.Value) {
-		if r.Err == nil {
+		if r.Err != nil {
 			return
 		}
 		if len(r.Body) > 0 {
-- 
2.43.0


From ee87e42438dad2f267031cdfe5fb8c28d540da23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:04 +0000
Subject: [PATCH 33/64] fix: ber arrays were written with count, but read
 without

---
 marshal/writer_reflect.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/marshal/writer_reflect.go b/marshal/writer_reflect.go
index 4f02024..f8784b2 100644
--- a/marshal/writer_reflect.go
+++ b/marshal/writer_reflect.go
@@ -824,6 +824,10 @@ Fields:
 					fw.TWriter = &TWriter{}
 					*fw.TWriter = *BerSlWriter
 					fw.TWriter.Type = fld.Type
+					/* unlike slice, array has no count unless it is asked for */
+					fw.TWriter.WriteAuto = fw.TWriter.Write
+					fw.TWriter.Cnt = fld.Type.Len()
+					fw.TWriter.CntGet = nil
 				default:
 					log.Panicf("Could not apply 'ber' for array [%d]%+v", fld.Type.Len(), fld.Type.Elem())
 				}
-- 
2.43.0


From eeb72a2b7480da673e669499eedb611d724e04bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:48 +0000
Subject: [PATCH 34/64] fix: panics, huge allocations and endless loop on
 malformed sizes and counts

---
 marshal/reader.go         | 12 +++++--
 marshal/reader_reflect.go | 74 ++++++++++++++++++++++++++++++++++-----
 2 files changed, 75 insertions(+), 11 deletions(-)

diff --git a/marshal/reader.go b/marshal/reader.go
index 04c76d2..537f315 100644
--- a/marshal/reader.go
+++ b/marshal/reader.go
@@ -129,11 +129,19 @@ func (r *Reader) Int8sl(b []int8) {
 	return
 }
 
+/* enough checks if Body could contain n items, each of sz bytes at least */
+func (r *Reader) enough(n, sz int) bool {
+	if r.Err == nil && (n < 0 || (sz > 0 && n > len(r.Body)/sz)) {
+		r.Err = fmt.Errorf("iproto.Reader: not enough data for %d items of %d bytes", n, sz)
+	}
+	return r.Err == nil
+}
+
 func (r *Reader) Slice(sz int) (res []byte) {
 	if r.Err != nil {
 		return
 	}
-	if len(r.Body) < sz {
+	if sz < 0 || len(r.Body) < sz {
 		r.Err = fmt.Errorf("iproto.Reader: not enough data for Slice(%d)", sz)
 		return
 	}
@@ -146,7 +154,7 @@ func (r *Reader) String(sz int) (res string) {
 	if r.Err != nil {
 		return
 	}
-	if len(r.Body) < sz {
+	if sz < 0 || len(r.Body) < sz {
 		r.Err = fmt.Errorf("iproto.Reader: not enough data for Slice(%d)", sz)
 		return
 	}
diff --git a/marshal/reader_reflect.go b/marshal/reader_reflect.go
index 12a9c59..0ad7f7d 100644
--- a/marshal/reader_reflect.go
+++ b/marshal/reader_reflect.go
@@ -59,7 +59,7 @@ func (r *Reader) Read(i interface{}) error {
 			*o = r.String(int(count))
 		}
 	case *[]int8:
-		if count = r.Uint32(); r.Err == nil {
+		if count = r.Uint32(); r.enough(int(count), 1) {
 			*o = make([]int8, count)
 			r.Int8sl(*o)
 		}
@@ -68,42 +68,42 @@ func (r *Reader) Read(i interface{}) error {
 			*o = r.Slice(int(count))
 		}
 	case *[]int16:
-		if count = r.Uint32(); r.Err == nil {
+		if count = r.Uint32(); r.enough(int(count), 2) {
 			*o = make([]int16, count)
 			r.Int16sl(*o)
 		}
 	case *[]uint16:
-		if count = r.Uint32(); r.Err == nil {
+		if count = r.Uint32(); r.enough(int(count), 2) {
 			*o = make([]uint16, count)
 			r.Uint16sl(*o)
 		}
 	case *[]int32:
-		if count = r.Uint32(); r.Err == nil {
+		if count = r.Uint32(); r.enough(int(count), 4) {
 			*o = make([]int32, count)
 			r.Int32sl(*o)
 		}
 	case *[]uint32:
-		if count = r.Uint32(); r.Err == nil {
+		if count = r.Uint32(); r.enough(int(count), 4) {
 			*o = make([]uint32, count)
 			r.Uint32sl(*o)
 		}
 	case *[]int64:
-		if count = r.Uint32(); r.Err == nil {
+		if count = r.Uint32(); r.enough(int(count), 8) {
 			*o = make([]int64, count)
 			r.Int64sl(*o)
 		}
 	case *[]uint64:
-		if count = r.Uint32(); r.Err == nil {
+		if count = r.Uint32(); r.enough(int(count), 8) {
 			*o = make([]uint64, count)
 			r.Uint64sl(*o)
 		}
 	case *[]float32:
-		if count = r.Uint32(); r.Err == nil {
+		if count = r.Uint32(); r.enough(int(count), 4) {
 			*o = make([]float32, count)
 			r.Float32sl(*o)
 		}
 	case *[]float64:
-		if count = r.Uint32(); r.Err == nil {
+		if count = r.Uint32(); r.enough(int(count), 8) {
 			*o = make([]float64, count)
 			r.Float64sl(*o)
 		}
@@ -450,6 +450,9 @@ func (t *TReader) WithSize(r *Reader, v reflect.Value, szrd func(*Reader) int) {
 		szrd = (*Reader).IntUint32
 	}
 	sz := szrd(r)
+	if !r.enough(sz, 1) {
+		return
+	}
 	if t.AutoSize != nil {
 		t.AutoSize(r, v, sz)
 		return
@@ -527,6 +530,9 @@ func (t *TReader) WithCount(r *Reader, v reflect.Value, cntrd func(*Reader) int)
 		cntrd = (*Reader).IntUint32
 	}
 	cnt := cntrd(r)
+	if !r.enough(cnt, t.itemMinSize()) {
+		return
+	}
 	if t.AutoCount != nil {
 		t.AutoCount(r, v, cnt)
 		return
@@ -538,6 +544,49 @@ func (t *TReader) WithCount(r *Reader, v reflect.Value, cntrd func(*Reader) int)
 	t.Fixed(r, v)
 }
 
+/* minSize is a lower bound of encoded size */
+func (t *TReader) minSize() int {
+	switch {
+	case t.Sz >= 0:
+		return t.Sz
+	case t.Implements:
+		if t.Cnt == 1 {
+			/* ber */
+			return 1
+		}
+		return 0
+	case t.Type == nil:
+		return 0
+	}
+	switch t.Type.Kind() {
+	case reflect.String, reflect.Slice:
+		return 1
+	case reflect.Array:
+		return t.Cnt * t.Elem.minSize()
+	case reflect.Struct:
+		sz := 0
+		for _, fs := range t.Flds {
+			if fs.SzRd != nil || fs.CntRd != nil {
+				sz++
+			} else if !fs.NoSize {
+				sz += fs.minSize()
+			}
+		}
+		return sz
+	}
+	return 0
+}
+
+func (t *TReader) itemMinSize() int {
+	if t.Type != nil && t.Type.Kind() == reflect.Ptr {
+		t = t.Elem
+	}
+	if t.Type != nil && t.Type.Kind() == reflect.Slice && t.Elem != nil && !t.Implements {
+		return t.Elem.minSize()
+	}
+	return 0
+}
+
 func (t *TReader) fillautotail() {
 	if t.Fixed == nil && t.AutoCount != nil {
 		t.Fixed = func(r *Reader, v reflect.Value) {
@@ -856,6 +905,9 @@ func (t *TReader) FillSlice() {
 	if t.Elem.Sz > 0 {
 		t.SzSet = func(v reflect.Value, sz int) (bool, error) {
 			cnt := sz / t.Elem.Sz
+			if cnt*t.Elem.Sz != sz {
+				return false, fmt.Errorf("Size %d is not a multiple of %d %+v", sz, t.Elem.Sz, t)
+			}
 			if v.Len() != cnt {
 				v.Set(reflect.MakeSlice(t.Type, cnt, cnt))
 			}
@@ -947,7 +999,11 @@ func (t *TReader) FillSlice() {
 				v.Set(reflect.Append(v, z))
 				c = v.Cap()
 			}
+			was := len(r.Body)
 			t.Elem.Auto(r, v.Index(l-1))
+			if len(r.Body) == was && r.Err == nil {
+				r.Err = fmt.Errorf("Could not read tail [% x] into slice of empty %+v", r.Body, t.Elem.Type)
+			}
 		}
 	}
 }
-- 
2.43.0


From f535a1717bdc4b9fe2793b48cc1544e39f53561c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:49 +0000
Subject: [PATCH 35/64] fix: ReadWithSize ignored the size for most types and
 wrong sizes for others

---
 marshal/reader_reflect.go | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/marshal/reader_reflect.go b/marshal/reader_reflect.go
index 0ad7f7d..e33d1d3 100644
--- a/marshal/reader_reflect.go
+++ b/marshal/reader_reflect.go
@@ -195,53 +195,60 @@ func (r *Reader) ReadValueFixed(val reflect.Value) error {
 	return r.Err
 }
 
+func (r *Reader) sizeIs(sz, need int) bool {
+	if r.Err == nil && sz != need {
+		r.Err = fmt.Errorf("Size doesn't match %d %d", sz, need)
+	}
+	return r.Err == nil
+}
+
 func (r *Reader) ReadWithSize(i interface{}, rs func(*Reader) int) error {
 	if r.Err != nil {
 		return r.Err
 	}
 	switch o := i.(type) {
 	case *int8:
-		if sz := rs(r); sz == 1 {
+		if r.sizeIs(rs(r), 1) {
 			*o = r.Int8()
 		}
 	case *uint8:
-		if sz := rs(r); sz == 1 {
+		if r.sizeIs(rs(r), 1) {
 			*o = r.Uint8()
 		}
 	case *int16:
-		if sz := rs(r); sz == 2 {
+		if r.sizeIs(rs(r), 2) {
 			*o = r.Int16()
 		}
 	case *uint16:
-		if sz := rs(r); sz == 2 {
+		if r.sizeIs(rs(r), 2) {
 			*o = r.Uint16()
 		}
 	case *int32:
-		if sz := rs(r); sz == 4 {
+		if r.sizeIs(rs(r), 4) {
 			*o = r.Int32()
 		}
 	case *uint32:
-		if sz := rs(r); sz == 4 {
+		if r.sizeIs(rs(r), 4) {
 			*o = r.Uint32()
 		}
 	case *int64:
-		if sz := rs(r); sz == 8 {
+		if r.sizeIs(rs(r), 8) {
 			*o = r.Int64()
 		}
 	case *uint64:
-		if sz := rs(r); sz == 8 {
+		if r.sizeIs(rs(r), 8) {
 			*o = r.Uint64()
 		}
 	case *float32:
-		if sz := rs(r); sz == 4 {
+		if r.sizeIs(rs(r), 4) {
 			*o = r.Float32()
 		}
 	case *float64:
-		if sz := rs(r); sz == 8 {
+		if r.sizeIs(rs(r), 8) {
 			*o = r.Float64()
 		}
 	case []byte:
-		if sz := rs(r); sz == len(o) {
+		if r.sizeIs(rs(r), len(o)) {
 			r.Uint8sl(o)
 		}
 	case *[]byte:
@@ -257,11 +264,11 @@ func (r *Reader) ReadWithSize(i interface{}, rs func(*Reader) int) error {
 			val = val.Elem()
 			rt := val.Type()
 			rd := ReaderFor(rt)
-			rd.Auto(r, val)
+			rd.WithSize(r, val, rs)
 		} else {
 			rt := val.Type()
 			rd := ReaderFor(rt)
-			rd.Fixed(r, val)
+			rd.WithSize(r, val, rs)
 		}
 	}
 	return r.Err
-- 
2.43.0


From 6aa185e32e9748da0de8c4819f89dfbf91385ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:50 +0000
Subject: [PATCH 36/64] fix: panic on reading nothing, or something, into an
 empty interface

---
 marshal/reader_reflect.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/marshal/reader_reflect.go b/marshal/reader_reflect.go
index e33d1d3..0712113 100644
--- a/marshal/reader_reflect.go
+++ b/marshal/reader_reflect.go
@@ -424,13 +424,15 @@ func (t *TReader) SetSize(v reflect.Value, sz int) (bool, error) {
 		if sz == 0 {
 			if !v.IsNil() {
 				if v.CanSet() {
-					v.Set(reflect.ValueOf(nil))
+					v.Set(reflect.Zero(t.Type))
 				} else {
 					el := v.Elem()
 					rd := ReaderFor(el.Type())
 					return rd.SetSize(el, sz)
 				}
 			}
+		} else if v.IsNil() {
+			return false, fmt.Errorf("Could not read size %d into nil interface", sz)
 		} else {
 			el := v.Elem()
 			rd := ReaderFor(el.Type())
@@ -504,13 +506,15 @@ func (t *TReader) SetCount(v reflect.Value, cnt int) error {
 		if cnt == 0 {
 			if !v.IsNil() {
 				if v.CanSet() {
-					v.Set(reflect.ValueOf(nil))
+					v.Set(reflect.Zero(t.Type))
 				} else {
 					el := v.Elem()
 					rd := ReaderFor(el.Type())
 					return rd.SetCount(el, cnt)
 				}
 			}
+		} else if v.IsNil() {
+			return fmt.Errorf("Could not read count %d into nil interface", cnt)
 		} else {
 			el := v.Elem()
 			rd := ReaderFor(el.Type())
-- 
2.43.0


From 3f3e04cc17b6f4fb6711e5265567d372c7f6f0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:22 +0000
Subject: [PATCH 37/64] fix: select counted parts of compound keys instead of
 keys

---
 sbox/select.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sbox/select.go b/sbox/select.go
index 279280d..0776bf5 100644
--- a/sbox/select.go
+++ b/sbox/select.go
@@ -66,11 +66,13 @@ func CountKeys(keys interface{}) int {
 	case [][][]byte:
 		return len(k)
 	case []interface{}:
-		sum := 0
+		/* every element is a key, possibly of several fields */
 		for _, v := range k {
-			sum += CountKeys(v)
+			if v == nil {
+				log.Panicf("nil could not be a select key")
+			}
 		}
-		return sum
+		return len(k)
 	default:
 		v := reflect.ValueOf(k)
 		if v.Kind() == reflect.Ptr {
-- 
2.43.0


From 8e3d077a09bdea6252cdee9fd8766a14a1f0934e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:23 +0000
Subject: [PATCH 38/64] fix: nil field of a tuple was counted but not written

---
 marshal/writer_reflect.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marshal/writer_reflect.go b/marshal/writer_reflect.go
index f8784b2..5bd981c 100644
--- a/marshal/writer_reflect.go
+++ b/marshal/writer_reflect.go
@@ -170,7 +170,7 @@ func (w *Writer) WriteTail(i interface{}) {
 func (w *Writer) WriteWithSize(i interface{}, ws func(*Writer, int)) {
 	switch o := i.(type) {
 	case nil:
-		return
+		ws(w, 0)
 	case uint8:
 		ws(w, 1)
 		w.Uint8(o)
-- 
2.43.0


From 14e135f94819ee622e3c29a8806e6127d4a581c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:24 +0000
Subject: [PATCH 39/64] fix: panic on reading a tuple with more fields than the
 array has places

---
 sbox/reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sbox/reader.go b/sbox/reader.go
index 58b2c54..8a23c26 100644
--- a/sbox/reader.go
+++ b/sbox/reader.go
@@ -86,7 +86,7 @@ type TReader struct {
 
 func (t *TReader) sliceFixed(r *marshal.Reader, v reflect.Value) {
 	if l := r.IntUint32(); l >= v.Len() {
-		for i := 0; i < l; i++ {
+		for i := 0; i < v.Len(); i++ {
 			t.Reader.Elem.WithSize(r, v.Index(i), (*marshal.Reader).Intvar)
 		}
 	} else {
-- 
2.43.0


From 6c8326bd982ddc134ded008b147cd7e84a9ba7ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:24 +0000
Subject: [PATCH 40/64] fix: tuples of a preallocated slice were read by reader
 of the whole slice

---
 sbox/result.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sbox/result.go b/sbox/result.go
index b90b9ac..2e9a68d 100644
--- a/sbox/result.go
+++ b/sbox/result.go
@@ -86,7 +86,7 @@ func readFixedArray(r *[2]marshal.Reader, v reflect.Value, l int) int {
 	tel := v.Type().Elem()
 	switch tel.Kind() {
 	case reflect.Slice, reflect.Ptr:
-		rd := reader(v.Type())
+		rd := reader(tel)
 		ln := v.Len()
 		var i int
 		for i = 0; i < l && i < ln; i++ {
-- 
2.43.0


From c4d57c4163640af63e55ef26bb2d002d291595ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:25 +0000
Subject: [PATCH 41/64] fix: after one malformed tuple all following ones were
 read as empty

---
 sbox/result.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sbox/result.go b/sbox/result.go
index 2e9a68d..4c968b5 100644
--- a/sbox/result.go
+++ b/sbox/result.go
@@ -184,7 +184,8 @@ func oneTuple(r *[2]marshal.Reader, v reflect.Value, rd *TReader) error {
 		return r[0].Err
 	}
 	sz := r[0].IntUint32()
-	r[1].Body = r[0].Slice(sz + 4)
+	/* failure of one tuple should not affect others */
+	r[1] = marshal.Reader{Body: r[0].Slice(sz + 4)}
 	if r[0].Err != nil {
 		log.Printf("oneTuple header read error: %s", r[0].Err)
 		return r[0].Err
-- 
2.43.0


From 27dd81f4e32f38a1b51cb40688ffd992f78592de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:25 +0000
Subject: [PATCH 42/64] fix: panic on reading tuples into []interface{}

---
 sbox/result.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sbox/result.go b/sbox/result.go
index 4c968b5..f43e1ac 100644
--- a/sbox/result.go
+++ b/sbox/result.go
@@ -61,6 +61,9 @@ Got:
 }
 
 func readInterface(r *[2]marshal.Reader, v reflect.Value, l int) int {
+	if v.Kind() == reflect.Interface {
+		v = v.Elem()
+	}
 	switch v.Kind() {
 	case reflect.Ptr:
 		el := v.Elem()
-- 
2.43.0


From 5d850100d8c3ec875af7b88ffc48318ad04156b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:26 +0000
Subject: [PATCH 43/64] fix: ReadFirst did not report an absent header

---
 sbox/result.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sbox/result.go b/sbox/result.go
index f43e1ac..90edf56 100644
--- a/sbox/result.go
+++ b/sbox/result.go
@@ -25,6 +25,7 @@ func ReadFirst(b []byte, v interface{}) (read bool, total int, err error) {
 	r = &[2]marshal.Reader{{Body: b}, {}}
 Got:
 	total = r[0].IntUint32()
+	err = r[0].Err
 	if total > 0 {
 		sz := r[0].IntUint32()
 		if r[0].Err == nil {
-- 
2.43.0


From b3c7f5bca4cd7e749b94fb937a9ceebeeb70c4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:26 +0000
Subject: [PATCH 44/64] fix: panics and huge allocations on impossible tuple
 and field counts

---
 sbox/reader.go | 8 ++++++++
 sbox/result.go | 7 ++++++-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/sbox/reader.go b/sbox/reader.go
index 8a23c26..1e1adac 100644
--- a/sbox/reader.go
+++ b/sbox/reader.go
@@ -96,6 +96,10 @@ func (t *TReader) sliceFixed(r *marshal.Reader, v reflect.Value) {
 
 func (t *TReader) sliceAuto(r *marshal.Reader, v reflect.Value) {
 	l := r.IntUint32()
+	if l > len(r.Body) {
+		r.Err = fmt.Errorf("Not enough data for %d fields", l)
+		return
+	}
 	if v.CanSet() {
 		v.Set(reflect.MakeSlice(v.Type(), l, l))
 	} else if l < v.Len() {
@@ -232,6 +236,10 @@ func (sw *TReader) structAuto(r *marshal.Reader, v reflect.Value) {
 		return
 	}*/
 	case Tail, TailSplit:
+		if l > len(r.Body) {
+			r.Err = fmt.Errorf("Not enough data for %d fields", l)
+			return
+		}
 		if l < len(flds)-1 {
 			break
 			/*r.Err = fmt.Errorf("Wrong field count: expect at least %d, got %d", len(flds)-1, l)
diff --git a/sbox/result.go b/sbox/result.go
index 90edf56..2267751 100644
--- a/sbox/result.go
+++ b/sbox/result.go
@@ -155,7 +155,12 @@ func readSlice(r *[2]marshal.Reader, v reflect.Value, l int) int {
 		reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
 		reflect.Float32, reflect.Float64, reflect.Struct, reflect.String, reflect.Ptr:
 		rd := reader(tel)
-		v.Set(reflect.MakeSlice(v.Type(), l, l))
+		n := l
+		if max := len(r[0].Body) / 8; n > max {
+			/* there is no place for so much tuples, reading of the last one fails */
+			n = max + 1
+		}
+		v.Set(reflect.MakeSlice(v.Type(), n, n))
 		var i int
 		for ; i < l; i++ {
 			if oneTuple(r, v.Index(i), rd) != nil {
-- 
2.43.0


From d4cbfe0b612d1a64aa728528114033855054cf09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:27 +0000
Subject: [PATCH 45/64] fix: sbox tail and tailsplit fields were neither
 written nor read properly

---
 marshal/reader_reflect.go |  2 +-
 sbox/reader.go            | 12 ++++++------
 sbox/writer.go            | 12 ++++++------
 3 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/marshal/reader_reflect.go b/marshal/reader_reflect.go
index 0712113..09029a9 100644
--- a/marshal/reader_reflect.go
+++ b/marshal/reader_reflect.go
@@ -1073,7 +1073,7 @@ Fields:
 		if nosize {
 			log.Panicf("Only last field could be marked as size(no) or cnt(no) %+v", rt)
 		}
-		fr := FieldReader{I: i}
+		fr := FieldReader{I: i, Tag: fld.Tag}
 		ipro := fld.Tag.Get("iproto")
 		var ber bool
 
diff --git a/sbox/reader.go b/sbox/reader.go
index 1e1adac..c6dac3c 100644
--- a/sbox/reader.go
+++ b/sbox/reader.go
@@ -248,7 +248,7 @@ func (sw *TReader) structAuto(r *marshal.Reader, v reflect.Value) {
 		tail := l - len(flds) + 1
 		last := flds[len(flds)-1]
 		if sw.Tail == TailSplit {
-			llast := len(last.Flds)
+			llast := len(last.Elem.Flds)
 			tail /= llast
 		}
 		last.TReader.SetCount(v.Field(last.I), tail)
@@ -273,22 +273,22 @@ func (sw *TReader) structRead(r *marshal.Reader, k int, v reflect.Value) {
 	case NoTail:
 	case Tail:
 		fs := &flds[n]
-		fv := v.Field(n)
+		fv := v.Field(fs.I)
 		l := fv.Len()
 		for i := 0; i < l && n+i < k; i++ {
 			val := fv.Index(i)
-			fs.WithSize(r, val, (*marshal.Reader).Intvar)
+			fs.Elem.WithSize(r, val, (*marshal.Reader).Intvar)
 		}
 	case TailSplit:
 		fs := &flds[n]
-		fv := v.Field(n)
+		fv := v.Field(fs.I)
 		l := fv.Len()
-		fss := fs.TReader.Flds
+		fss := fs.TReader.Elem.Flds
 		fl := len(fss)
 		for i := 0; i < l; i++ {
 			str := fv.Index(i)
 			for j := 0; j < fl && n+i*fl+j < k; j++ {
-				fss[i].WithSize(r, str.Field(i), (*marshal.Reader).Intvar)
+				fss[j].WithSize(r, str.Field(fss[j].I), (*marshal.Reader).Intvar)
 			}
 		}
 	}
diff --git a/sbox/writer.go b/sbox/writer.go
index 54a7b48..339ce38 100644
--- a/sbox/writer.go
+++ b/sbox/writer.go
@@ -175,7 +175,7 @@ func (sw *TWriter) structCnt(v reflect.Value) int {
 		return len(flds) - 1 + v.Field(flds[len(flds)-1].I).Len()
 	case TailSplit:
 		last := flds[len(flds)-1]
-		return len(flds) - 1 + v.Field(last.I).Len()*len(last.TWriter.Flds)
+		return len(flds) - 1 + v.Field(last.I).Len()*len(last.TWriter.Elem.Flds)
 	}
 	return 0
 }
@@ -195,22 +195,22 @@ func (sw *TWriter) structWriter(w *marshal.Writer, v reflect.Value) {
 	case NoTail:
 	case Tail:
 		fs := &flds[n]
-		fv := v.Field(n)
+		fv := v.Field(fs.I)
 		l := fv.Len()
 		for i := 0; i < l; i++ {
 			val := fv.Index(i)
-			fs.WithSize(w, val, (*marshal.Writer).Intvar)
+			fs.Elem.WithSize(w, val, (*marshal.Writer).Intvar)
 		}
 	case TailSplit:
 		fs := &flds[n]
-		fv := v.Field(n)
+		fv := v.Field(fs.I)
 		l := fv.Len()
-		fss := fs.TWriter.Flds
+		fss := fs.TWriter.Elem.Flds
 		fl := len(fss)
 		for i := 0; i < l; i++ {
 			str := fv.Index(i)
 			for j := 0; j < fl; j++ {
-				fss[i].WithSize(w, str.Field(i), (*marshal.Writer).Intvar)
+				fss[j].WithSize(w, str.Field(fss[j].I), (*marshal.Writer).Intvar)
 			}
 		}
 	}
-- 
2.43.0


From 508facb7bea0062e2b46b69540a7f398d84151e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:35 +0000
Subject: [PATCH 46/64] fix: two workers could take the same request

---
 request.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/request.go b/request.go
index c4da8a6..ebef90e 100644
--- a/request.go
+++ b/request.go
@@ -87,8 +87,8 @@ func (r *Request) SetInFly(mid RequestBookmark) (set bool) {
 		return r.cas(RsPending, RsInFly)
 	} else {
 		r.Lock()
-		if r.state == RsPending {
-			r.state = RsInFly
+		/* SetInFly(nil) does not take the lock */
+		if r.cas(RsPending, RsInFly) {
 			mid.setReq(r, mid)
 			set = true
 		}
-- 
2.43.0


From 8e10140c41d7425f97b3a7ea94ef1fea3ea99266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:59 +0000
Subject: [PATCH 47/64] fix: SliceReader panicked when the stream ended inside
 a frame

---
 net/slice_reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/net/slice_reader.go b/net/slice_reader.go
index ae5c0e0..2537965 100644
--- a/net/slice_reader.go
+++ b/net/slice_reader.go
@@ -43,7 +43,7 @@ func (sl *SliceReader) Read(n int) (res []byte, err error) {
 		err = nil
 	} else if l > 0 && err == io.EOF {
 		res = buf[:l]
-		sl.buf = buf[l:]
+		sl.buf = buf[l:l]
 		err = io.ErrUnexpectedEOF
 	}
 	return
-- 
2.43.0


From dce12a4aabf9a48915d9e21e920b4daee44ed5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:36 +0000
Subject: [PATCH 48/64] fix: ReadTimeout and WriteTimeout overrode DialTimeout
 while a client was connecting

---
 net/client/connection/connection.go |  6 ++++--
 net/header.go                       | 10 ++++++++++
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/net/client/connection/connection.go b/net/client/connection/connection.go
index d2fcd3d..fd284b5 100644
--- a/net/client/connection/connection.go
+++ b/net/client/connection/connection.go
@@ -115,8 +115,8 @@ func (conn *Connection) Loop() {
 		conn.conn = netconn.(nt.NetConn)
 		/* peer could accept and keep silence */
 		netconn.SetDeadline(time.Now().Add(timeout))
-		conn.reader.Init(conn.conn, conn.ReadTimeout, conn.RetCodeType)
-		conn.writer.Init(conn.conn, conn.WriteTimeout, conn.RetCodeType)
+		conn.reader.Init(conn.conn, 0, conn.RetCodeType)
+		conn.writer.Init(conn.conn, 0, conn.RetCodeType)
 		if err = conn.writer.Ping(); err == nil {
 			if err = conn.writer.Flush(); err == nil {
 				err = conn.reader.ReadPing()
@@ -129,6 +129,8 @@ func (conn *Connection) Loop() {
 			return
 		}
 		netconn.SetDeadline(time.Time{})
+		conn.reader.SetTimeout(conn.ReadTimeout)
+		conn.writer.SetTimeout(conn.WriteTimeout)
 		conn.ConnErr <- Error{conn, Dial, nil}
 		conn.State = CsConnected
 		go conn.readLoop()
diff --git a/net/header.go b/net/header.go
index aa3bd1f..f61c7d4 100644
--- a/net/header.go
+++ b/net/header.go
@@ -29,6 +29,11 @@ func (h *HeaderReader) Init(conn io.Reader, timeout time.Duration, rc RCType) {
 	h.rc = rc
 }
 
+/* SetTimeout changes timeout of following reads */
+func (h *HeaderReader) SetTimeout(timeout time.Duration) {
+	h.r.timeout = timeout
+}
+
 func (h *HeaderReader) ReadRequest() (req Request, err error) {
 	var head, body []byte
 	if head, err = h.r.Read(12); err != nil {
@@ -139,6 +144,11 @@ func (h *HeaderWriter) Init(w io.Writer, timeout time.Duration, rc RCType) {
 	}
 }
 
+/* SetTimeout changes timeout of following writes */
+func (h *HeaderWriter) SetTimeout(timeout time.Duration) {
+	h.w.timeout = timeout
+}
+
 func (h *HeaderWriter) WriteRequest(req Request) (err error) {
 	if err = h.w.Write3Uint32(uint32(req.Msg), uint32(len(req.Body)), uint32(req.Id)); err == nil {
 		err = h.w.Write(req.Body)
-- 
2.43.0


From d0f3921580a56f75df0ec498c9775045c538edfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:50 +0000
Subject: [PATCH 49/64] fix: completing a request took its body away from the
 one still working on it

---
 request.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/request.go b/request.go
index ebef90e..f0c491e 100644
--- a/request.go
+++ b/request.go
@@ -148,7 +148,6 @@ func (r *Request) chainResponse(code RetCode, body []byte) {
 	r.Responder.Respond(res)
 	r.state = RsPerformed
 	r.Responder = nil
-	r.Body = nil
 	r.timer.Stop()
 }
 
-- 
2.43.0


From 3f398015f083ed77da51b8d1083885936e625380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:57 +0000
Subject: [PATCH 50/64] fix: a substitute of zero for an internal return code
 was ignored

---
 net/server/connection.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/net/server/connection.go b/net/server/connection.go
index e63f1ac..bcf4c1e 100644
--- a/net/server/connection.go
+++ b/net/server/connection.go
@@ -74,7 +74,7 @@ func (conn *Connection) Stop() {
 func (conn *Connection) Respond(r *iproto.Response) {
 	if r.Code&iproto.RcKindMask == iproto.RcInternal {
 		if conn.RCMap != nil {
-			if repl := conn.RCMap[r.Code]; repl != 0 {
+			if repl, ok := conn.RCMap[r.Code]; ok {
 				r.Code = repl
 				goto CodeEnd
 			}
-- 
2.43.0


From 35bbc9ee4a9e092aa708cb0b2d99e05198cff438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:57 +0000
Subject: [PATCH 51/64] fix: stopping a server for the third time blocked for
 ever

---
 net/server/server.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/net/server/server.go b/net/server/server.go
index 5526b16..be6bfe6 100644
--- a/net/server/server.go
+++ b/net/server/server.go
@@ -65,7 +65,11 @@ func (serv *Server) Run() (err error) {
 func (serv *Server) Stop() {
 	serv.Lock()
 	serv.closing = true
-	serv.stop <- true
+	/* it may be stopped several times */
+	select {
+	case serv.stop <- true:
+	default:
+	}
 	serv.Unlock()
 	serv.listener.Close()
 }
-- 
2.43.0


From 6660e20d873203e1baf7d84ab8222c6d88f82106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:57 +0000
Subject: [PATCH 52/64] fix: the server left a connection open when a write to
 it failed

---
 net/server/connection.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/net/server/connection.go b/net/server/connection.go
index bcf4c1e..fe32956 100644
--- a/net/server/connection.go
+++ b/net/server/connection.go
@@ -263,6 +263,10 @@ func (conn *Connection) writeLoop() {
 				conn.conn.CloseWrite()
 			}
 		}
+		if err != nil {
+			/* nobody would close it otherwise */
+			conn.conn.Close()
+		}
 		conn.notifyLoop(writeClosed)
 	}()
 
-- 
2.43.0


From f5ce33e1973ed36652aaea831d4074c60974d71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:57 +0000
Subject: [PATCH 53/64] fix: a handler that returned the timeout code was
 answered for with an internal error

---
 request.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/request.go b/request.go
index f0c491e..c922512 100644
--- a/request.go
+++ b/request.go
@@ -33,8 +33,9 @@ type Request struct {
 	Responder Responder
 	chain     RequestBookmark
 	sync.Mutex
-	timer    Timer
-	timerSet bool
+	timer     Timer
+	timerSet  bool
+	answering bool /* it is an answer, not a failure */
 }
 
 func (r *Request) SetTimeout(timeout time.Duration) {
@@ -164,7 +165,9 @@ func (r *Request) Respond(code RetCode, val interface{}) {
 func (r *Request) RespondBytes(code RetCode, body []byte) {
 	r.Lock()
 	if r.state == RsInFly {
+		r.answering = true
 		r.chainResponse(code, body)
+		r.answering = false
 	}
 	r.Unlock()
 }
@@ -195,7 +198,7 @@ type ReqContext struct {
 func (cm *ReqContext) Respond(res *Response) {
 	if res.Code == RcCanceled {
 		cm.Cancel()
-	} else if res.Code == RcTimeout {
+	} else if res.Code == RcTimeout && !cm.Request.answering {
 		cm.Expire()
 		cm.Request.ResetToPending()
 		cm.Request.SetInFly(nil)
-- 
2.43.0


From 95e918ff47fa2083333aca727228e9ed8550c797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:17 +0000
Subject: [PATCH 54/64] fix: a client connection whose write timed out kept its
 requests waiting

---
 net/client/connection/connection.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/net/client/connection/connection.go b/net/client/connection/connection.go
index fd284b5..90fc9b8 100644
--- a/net/client/connection/connection.go
+++ b/net/client/connection/connection.go
@@ -258,6 +258,11 @@ func (conn *Connection) writeLoop() {
 				conn.conn.CloseWrite()
 			}
 		}
+		if err != nil {
+			/* there is nothing to wait for on a broken connection */
+			conn.conn.CloseRead()
+			conn.conn.CloseWrite()
+		}
 		conn.notifyLoop(writeClosed)
 		conn.ConnErr <- Error{conn, Write, err}
 	}()
-- 
2.43.0


From f9af207b7498105d22f6abb2b0b778834c6eb8c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:08 +0000
Subject: [PATCH 55/64] fix: a sized pointer to a type with its own reader or
 writer panicked

---
 marshal/reader_reflect.go | 9 ++++++---
 marshal/writer_reflect.go | 9 ++++++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/marshal/reader_reflect.go b/marshal/reader_reflect.go
index 09029a9..e0fd800 100644
--- a/marshal/reader_reflect.go
+++ b/marshal/reader_reflect.go
@@ -619,6 +619,12 @@ func (t *TReader) fillautotail() {
 func (t *TReader) Fill() {
 	defer t.fillautotail()
 	rt := t.Type
+	if rt.Kind() == reflect.Ptr {
+		/* methods are found by type it points to */
+		t.Elem = _reader(rt.Elem())
+		t.FillPtr()
+		return
+	}
 	if rt.Implements(ireader) {
 		t.Implements = true
 		t.Fixed = func(r *Reader, v reflect.Value) {
@@ -792,9 +798,6 @@ func (t *TReader) Fill() {
 		t.Fixed = func(r *Reader, v reflect.Value) {
 			v.SetFloat(r.Float64())
 		}
-	case reflect.Ptr:
-		t.Elem = _reader(rt.Elem())
-		t.FillPtr()
 	case reflect.Array:
 		t.Elem = _reader(rt.Elem())
 		t.FillArray()
diff --git a/marshal/writer_reflect.go b/marshal/writer_reflect.go
index 5bd981c..c119826 100644
--- a/marshal/writer_reflect.go
+++ b/marshal/writer_reflect.go
@@ -374,6 +374,12 @@ func (t *TWriter) fillauto() {
 func (t *TWriter) Fill() {
 	defer t.fillauto()
 	rt := t.Type
+	if rt.Kind() == reflect.Ptr {
+		/* methods are found by type it points to */
+		t.Elem = _writer(rt.Elem())
+		t.FillPtr()
+		return
+	}
 	if rt.Implements(iwriter) {
 		t.Implements = true
 		t.Write = func(w *Writer, v reflect.Value) {
@@ -493,9 +499,6 @@ func (t *TWriter) Fill() {
 		t.Write = (*Writer).Float64Val
 		t.Sz = 8
 		t.Cnt = 1
-	case reflect.Ptr:
-		t.Elem = _writer(rt.Elem())
-		t.FillPtr()
 	case reflect.Array:
 		t.Elem = _writer(rt.Elem())
 		t.FillArray()
-- 
2.43.0


From c8dafa599920b5684d1b7c2158416353e65a7bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:08 +0000
Subject: [PATCH 56/64] fix: ISetCounter with a pointer receiver was not called

---
 marshal/reader_reflect.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marshal/reader_reflect.go b/marshal/reader_reflect.go
index e0fd800..30263c0 100644
--- a/marshal/reader_reflect.go
+++ b/marshal/reader_reflect.go
@@ -668,7 +668,7 @@ func (t *TReader) Fill() {
 				return i.(ISetSizer).ISetSize(i, s)
 			}
 		}
-		if rt.Implements(isetcounter) {
+		if p.Implements(isetcounter) {
 			t.CntSet = func(v reflect.Value, s int) error {
 				i := v.Addr().Interface()
 				return i.(ISetCounter).ISetCount(i, s)
-- 
2.43.0


From ef934a0ec026900d6a4a0e179fa858102afdb12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:52 +0000
Subject: [PATCH 57/64] fix: a string behind a pointer could be written with a
 count but not read

---
 marshal/reader_reflect.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/marshal/reader_reflect.go b/marshal/reader_reflect.go
index 30263c0..cff520a 100644
--- a/marshal/reader_reflect.go
+++ b/marshal/reader_reflect.go
@@ -833,6 +833,18 @@ func (t *TReader) Fill() {
 }
 
 func (t *TReader) FillPtr() {
+	if t.Elem.AutoCount != nil {
+		t.AutoCount = func(r *Reader, v reflect.Value, cnt int) {
+			if cnt == 0 && v.CanSet() {
+				v.Set(reflect.Zero(t.Type))
+				return
+			}
+			if v.IsNil() {
+				v.Set(reflect.New(t.Elem.Type))
+			}
+			t.Elem.AutoCount(r, v.Elem(), cnt)
+		}
+	}
 	t.Fixed = func(r *Reader, v reflect.Value) {
 		if !v.IsNil() {
 			t.Elem.Fixed(r, v.Elem())
-- 
2.43.0


From 582f34e8022f4c6ae654b4e0ae55f89875f8c1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:06 +0000
Subject: [PATCH 58/64] fix: a hostile count of elements that may be empty
 exhausted memory

---
 marshal/reader_reflect.go | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/marshal/reader_reflect.go b/marshal/reader_reflect.go
index cff520a..de26a87 100644
--- a/marshal/reader_reflect.go
+++ b/marshal/reader_reflect.go
@@ -548,6 +548,9 @@ func (t *TReader) WithCount(r *Reader, v reflect.Value, cntrd func(*Reader) int)
 		t.AutoCount(r, v, cnt)
 		return
 	}
+	if cnt > len(r.Body) && t.readGrowing(r, v, cnt) {
+		return
+	}
 	if err := t.SetCount(v, cnt); err != nil {
 		r.Err = err
 		return
@@ -555,6 +558,33 @@ func (t *TReader) WithCount(r *Reader, v reflect.Value, cntrd func(*Reader) int)
 	t.Fixed(r, v)
 }
 
+/* readGrowing reads slice of elements which are allowed to be empty: nothing proves that count is sane,
+so that memory is not allocated until elements are read */
+func (t *TReader) readGrowing(r *Reader, v reflect.Value, cnt int) bool {
+	if t.Implements {
+		return false
+	}
+	switch t.Type.Kind() {
+	case reflect.Ptr:
+		if v.IsNil() {
+			v.Set(reflect.New(t.Elem.Type))
+		}
+		return t.Elem.readGrowing(r, v.Elem(), cnt)
+	case reflect.Slice:
+		if v.Len() == cnt || !v.CanSet() {
+			return false
+		}
+		v.Set(reflect.MakeSlice(t.Type, 0, 0))
+		z := reflect.Zero(t.Elem.Type)
+		for i := 0; i < cnt && r.Err == nil; i++ {
+			v.Set(reflect.Append(v, z))
+			t.Elem.Auto(r, v.Index(i))
+		}
+		return true
+	}
+	return false
+}
+
 /* minSize is a lower bound of encoded size */
 func (t *TReader) minSize() int {
 	switch {
-- 
2.43.0


From 70ed8239cddb7c89dbff490c0cdaee457549111f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:14 +0000
Subject: [PATCH 59/64] fix: a sized pointer to a ber number could be written
 but not read

---
 marshal/reader_reflect.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/marshal/reader_reflect.go b/marshal/reader_reflect.go
index de26a87..7bd85cb 100644
--- a/marshal/reader_reflect.go
+++ b/marshal/reader_reflect.go
@@ -1271,10 +1271,13 @@ Fields:
 				switch fld.Type.Elem().Kind() {
 				case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
 					fr.TReader = &TReader{
-						Elem: BerReader,
+						Type: fld.Type,
+						Elem: &TReader{},
 						Sz:   -1,
 						Cnt:  -1,
 					}
+					*fr.TReader.Elem = *BerReader
+					fr.TReader.Elem.Type = fld.Type.Elem()
 					fr.TReader.FillPtr()
 					fr.TReader.fillautotail()
 				default:
-- 
2.43.0


From eafcda785aff2e0eff4f1e24d3f78a89eca665f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:15 +0000
Subject: [PATCH 60/64] fix: an operation without a value panicked

---
 sbox/modify.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sbox/modify.go b/sbox/modify.go
index 7227f9f..7c04f02 100644
--- a/sbox/modify.go
+++ b/sbox/modify.go
@@ -138,6 +138,9 @@ func (o Op) IWrite(w *marshal.Writer) {
 	case string:
 		w.Intvar(len(v))
 		w.String(v)
+	case nil:
+		/* OpDelete needs no value */
+		w.Intvar(0)
 	default:
 		val := reflect.ValueOf(v)
 		wr := marshal.WriterFor(val.Type())
-- 
2.43.0


From 2a1d3d048a9a30ff2322b9f8d16ecb0052bab03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:37 +0000
Subject: [PATCH 61/64] fix: a key of a named type of bytes was written as a
 key per byte

---
 sbox/select.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sbox/select.go b/sbox/select.go
index 0776bf5..902c2d9 100644
--- a/sbox/select.go
+++ b/sbox/select.go
@@ -90,7 +90,7 @@ func CountKeysValues(v reflect.Value) int {
 		reflect.Struct, reflect.String:
 		return 1
 	case reflect.Array, reflect.Slice:
-		if v.Kind() == reflect.Uint8 {
+		if v.Type().Elem().Kind() == reflect.Uint8 {
 			return 1
 		}
 		return v.Len()
@@ -163,14 +163,14 @@ func WriteKeysValues(w *marshal.Writer, v reflect.Value) {
 		wr.Write(w, v)
 	case reflect.Array, reflect.Slice:
 		l := v.Len()
-		switch v.Kind() {
+		switch v.Type().Elem().Kind() {
 		case reflect.Uint8:
 			wr := writer(v.Type())
 			wr.Write(w, v)
 		case reflect.Struct, reflect.Array, reflect.Slice,
 			reflect.Uint16, reflect.Uint32, reflect.Uint64,
 			reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
-			reflect.Float32, reflect.Float64, reflect.Ptr:
+			reflect.Float32, reflect.Float64, reflect.String, reflect.Ptr:
 			wr := writer(v.Type().Elem())
 			for i := 0; i < l; i++ {
 				wr.Write(w, v.Index(i))
-- 
2.43.0


From 8b16bd972bd6faa374cfee45ce0734a3be8e3fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:37 +0000
Subject: [PATCH 62/64] fix: ReadMany miscounted tuples of nested destinations
 and of an empty response

---
 sbox/result.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/sbox/result.go b/sbox/result.go
index 2267751..94d3e96 100644
--- a/sbox/result.go
+++ b/sbox/result.go
@@ -76,7 +76,9 @@ func readInterface(r *[2]marshal.Reader, v reflect.Value, l int) int {
 		case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64,
 			reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
 			reflect.Float32, reflect.Float64, reflect.Struct, reflect.String, reflect.Ptr:
-			oneTuple(r, el, nil)
+			if l == 0 || oneTuple(r, el, nil) != nil {
+				return 0
+			}
 			return 1
 		}
 	case reflect.Array, reflect.Slice:
@@ -177,15 +179,16 @@ func readSlice(r *[2]marshal.Reader, v reflect.Value, l int) int {
 }
 
 func readInterfaceArray(r *[2]marshal.Reader, v reflect.Value, l int) int {
-	var i int
+	var read int
 	ln := v.Len()
-	for i = 0; i < ln && l > 0; i++ {
-		l -= readInterface(r, v.Index(i), l)
+	for i := 0; i < ln && l > read; i++ {
+		/* element could be a place for several tuples */
+		read += readInterface(r, v.Index(i), l-read)
 		if r[0].Err != nil {
 			break
 		}
 	}
-	return i
+	return read
 }
 
 func oneTuple(r *[2]marshal.Reader, v reflect.Value, rd *TReader) error {
-- 
2.43.0


From c21b7a814bf9fb009da8ba3e0d37362b393e7a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:37 +0000
Subject: [PATCH 63/64] fix: a truncated tuple nobody reads was not reported

---
 sbox/reader.go | 4 +++-
 sbox/result.go | 4 ++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/sbox/reader.go b/sbox/reader.go
index c6dac3c..b7fe754 100644
--- a/sbox/reader.go
+++ b/sbox/reader.go
@@ -30,7 +30,9 @@ func ReadSizedTuple(r *marshal.Reader, i interface{}) error {
 	sz := r.IntUint32()
 	if r.Err == nil {
 		rd := marshal.Reader{Body: r.Slice(sz + 4)}
-		r.Err = ReadRawTuple(&rd, i)
+		if r.Err == nil {
+			r.Err = ReadRawTuple(&rd, i)
+		}
 	}
 	return r.Err
 }
diff --git a/sbox/result.go b/sbox/result.go
index 94d3e96..83b24d4 100644
--- a/sbox/result.go
+++ b/sbox/result.go
@@ -30,10 +30,10 @@ Got:
 		sz := r[0].IntUint32()
 		if r[0].Err == nil {
 			r[1].Body = r[0].Slice(sz + 4)
+		}
+		if err = r[0].Err; err == nil {
 			err = ReadRawTuple(&r[1], v)
 			read = true
-		} else {
-			err = r[0].Err
 		}
 	}
 	atomic.StorePointer(&readerCache, unsafe.Pointer(r))
-- 
2.43.0


From b761eeab94b211c65c9745404b3a896fb93636b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:15 +0000
Subject: [PATCH 64/64] fix: a tuple with a tail of ber numbers could not be
 written

---
 marshal/writer_reflect.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/marshal/writer_reflect.go b/marshal/writer_reflect.go
index c119826..be0e9ee 100644
--- a/marshal/writer_reflect.go
+++ b/marshal/writer_reflect.go
@@ -837,7 +837,9 @@ Fields:
 			case reflect.Slice:
 				switch fld.Type.Elem().Kind() {
 				case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
-					fw.TWriter = BerSlWriter
+					fw.TWriter = &TWriter{}
+					*fw.TWriter = *BerSlWriter
+					fw.TWriter.Type = fld.Type
 				default:
 					log.Panicf("Could not apply 'ber' for slice []%+v", fld.Type.Elem())
 				}
-- 
2.43.0

