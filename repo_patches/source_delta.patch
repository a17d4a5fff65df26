From 8ecc87f5ee4e0892961a6091a326b46dfa2e67d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:01 +0000
Subject: [PATCH 01/53] fix: keep updates with empty values that are carried in
 the batch header

---
 delivery/consumer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/delivery/consumer.go b/delivery/consumer.go
index 00a5958..7197509 100644
--- a/delivery/consumer.go
+++ b/delivery/consumer.go
@@ -348,7 +348,10 @@ func (mp *MessageProcessor) ProcessMessage(m ResumptionMessage) error {
         }
       }
       if !match { continue } // Regardless of message type, if we're ignoring the prefix, skip this update
-      if len(update.Value) > 0 { mp.pendingBatches[hash].Values[prefix] = update.Value }
+      // A record that is neither a delete, a count, nor a subbatch is a value, even if that value is empty
+      if len(update.Value) > 0 || (!update.Delete && update.Count == 0 && update.Subbatch == (types.Hash{})) {
+        mp.pendingBatches[hash].Values[prefix] = update.Value
+      }
       if update.Delete { mp.pendingBatches[hash].Deletes[prefix] = struct{}{} }
       if update.Count != 0 {
         mp.pendingBatches[hash].prefixes[prefix] = update.Count
-- 
2.43.0


From a2b7a2a370e2187246178e632ebbd0f5be465720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:12 +0000
Subject: [PATCH 02/53] fix: do not count a duplicate of an empty-valued
 message twice

---
 delivery/consumer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/delivery/consumer.go b/delivery/consumer.go
index 7197509..25a3d86 100644
--- a/delivery/consumer.go
+++ b/delivery/consumer.go
@@ -126,7 +126,7 @@ func (pb *PendingBatch) ApplyMessage(m ResumptionMessage) bool {
     return true
   case BatchMsgType:
     path := string(m.Key()[33:])
-    if v, ok := pb.Values[path]; ok && len(v) > 0 { return false } // Already set
+    if _, ok := pb.Values[path]; ok { return false } // Already set
     if pb.DecPrefixCounter(path) {
       // If this is false, we're not tracking this prefix and should ignore the message
       pb.Values[path] = m.Value()
-- 
2.43.0


From 3332ef0a5fc0dcd86be34c78f2d292a448add06f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:55 +0000
Subject: [PATCH 03/53] fix: match batch messages to prefixes that do not end
 at a path separator

A key under a prefix such as "state/thing" ("state/thing2"), "/root/" or
"e//" was never counted, so its block never completed, and any key starting
with "/" that matched no prefix looped forever.
---
 delivery/consumer.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/delivery/consumer.go b/delivery/consumer.go
index 25a3d86..e034526 100644
--- a/delivery/consumer.go
+++ b/delivery/consumer.go
@@ -33,6 +33,7 @@ type PendingBatch struct {
   resumption map[string]int64
   resumptionDefaults map[string]int64
   prefixes map[string]int
+  ignoredPrefixes map[string]struct{} // Prefixes with messages that are not tracked by this consumer
   batches map[types.Hash][]bool
   pendingBatches map[types.Hash]struct{}
   pendingMessages map[string]ResumptionMessage // Key -> Message
@@ -155,7 +156,7 @@ func (pb *PendingBatch) DecPrefixCounter(p string) bool {
     pb.prefixes[p]--
     return true
   }
-  for d := p; d != "."; d = path.Dir(d) {
+  for d := p; d != "." && d != "/"; d = path.Dir(d) {
     k := strings.TrimPrefix(d, "/") + "/"
     if v, ok := pb.prefixes[k]; ok && v > 0 {
       pb.prefixes[k]--
@@ -169,6 +170,15 @@ func (pb *PendingBatch) DecPrefixCounter(p string) bool {
       continue // If we got lucky, messsages arived in an order that will allow us to reconstruct if we search higher
     }
   }
+  // Prefixes don't have to end at a path separator. Look for the longest prefix
+  // of p that the batch listed.
+  for i := len(p); i > 0; i-- {
+    if _, ok := pb.ignoredPrefixes[p[:i]]; ok { return false }
+    if v, ok := pb.prefixes[p[:i]]; ok && v > 0 {
+      pb.prefixes[p[:i]]--
+      return true
+    }
+  }
   return false
 }
 
@@ -328,6 +338,7 @@ func (mp *MessageProcessor) ProcessMessage(m ResumptionMessage) error {
       Values: make(map[string][]byte),
       Deletes: make(map[string]struct{}),
       prefixes: make(map[string]int),
+      ignoredPrefixes: make(map[string]struct{}),
       batches: make(map[types.Hash][]bool),
       pendingBatches: make(map[types.Hash]struct{}),
       pendingMessages: make(map[string]ResumptionMessage),
@@ -347,7 +358,10 @@ func (mp *MessageProcessor) ProcessMessage(m ResumptionMessage) error {
           break
         }
       }
-      if !match { continue } // Regardless of message type, if we're ignoring the prefix, skip this update
+      if !match { // Regardless of message type, if we're ignoring the prefix, skip this update
+        if update.Count != 0 { mp.pendingBatches[hash].ignoredPrefixes[prefix] = struct{}{} }
+        continue
+      }
       // A record that is neither a delete, a count, nor a subbatch is a value, even if that value is empty
       if len(update.Value) > 0 || (!update.Delete && update.Count == 0 && update.Subbatch == (types.Hash{})) {
         mp.pendingBatches[hash].Values[prefix] = update.Value
-- 
2.43.0


From fccceb8aa2347314cc1524c6558d4fa678ecd5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:55 +0000
Subject: [PATCH 04/53] fix: anchor every alternative of a schema prefix

---
 delivery/producer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/delivery/producer.go b/delivery/producer.go
index 270a22d..f630cb8 100644
--- a/delivery/producer.go
+++ b/delivery/producer.go
@@ -31,7 +31,7 @@ func NewProducer(defaultTopic string, schema map[string]string) (*Producer, erro
     exp, err := regexp.Compile(i)
     if err != nil { return nil, err }
     if !strings.HasPrefix(i, "^") {
-      exp, err = regexp.Compile("^" + i)
+      exp, err = regexp.Compile("^(?:" + i + ")")
       if err != nil { return nil, err }
     }
     s[counter] = regexpPair{topic: topic, regexp: exp}
-- 
2.43.0


From 8772b1e164176983fe61cd93538600992ed90825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:03 +0000
Subject: [PATCH 05/53] fix: reject a block that both updates and deletes a key
 outside the schema

---
 delivery/producer.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/delivery/producer.go b/delivery/producer.go
index f630cb8..1c0b843 100644
--- a/delivery/producer.go
+++ b/delivery/producer.go
@@ -98,6 +98,7 @@ func (p *Producer) AddBlock(number int64, hash, parentHash types.Hash, weight *b
       }
     }
     if !matched {
+      if _, ok := b.Updates[k]; ok { return nil, ErrPrefixConflict }
       b.Updates[k] = BatchRecord{Delete: true}
     }
   }
-- 
2.43.0


From 5328a811699778251683079cf57fdb2b6946ab7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:33 +0000
Subject: [PATCH 06/53] fix: reorg onto a chain that forks from a block which
 is not held

The common ancestor of the two chains does not take part in the update, so
it need not be in memory. A consumer that resumed from block N, and saw a
competing N+1 followed by a heavier one, stayed on the lighter block.
---
 delivery/ordering.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/delivery/ordering.go b/delivery/ordering.go
index 1d253ca..cad8252 100644
--- a/delivery/ordering.go
+++ b/delivery/ordering.go
@@ -337,8 +337,9 @@ func (omp *OrderedMessageProcessor) prepareReorg(newHead, oldHead *PendingBatch)
   if oldHead == nil {
     return reverted, newBlocks, nil
   }
+  oldHash, oldNumber := oldHead.Hash, oldHead.Number
   for {
-    for newHead.Number > oldHead.Number + 1 {
+    for newHead.Number > oldNumber + 1 {
       parentHash := newHead.ParentHash
       newHead, _ = omp.pending[parentHash]
       if newHead == nil {
@@ -347,14 +348,17 @@ func (omp *OrderedMessageProcessor) prepareReorg(newHead, oldHead *PendingBatch)
       }
       newBlocks = append([]*PendingBatch{newHead}, newBlocks...)
     }
-    if(oldHead.Hash == newHead.ParentHash)  {
+    if(oldHash == newHead.ParentHash)  {
       return reverted, newBlocks, nil
     }
-    reverted = append([]*PendingBatch{oldHead}, reverted...)
-    oldHead, _ = omp.pending[oldHead.ParentHash]
     if oldHead == nil {
       return reverted, newBlocks, fmt.Errorf("Reached genesis without finding common ancestor")
     }
+    reverted = append([]*PendingBatch{oldHead}, reverted...)
+    // The common ancestor may be a block we don't hold, such as the one we
+    // resumed from, so it is identified by its hash and number.
+    oldHash, oldNumber = oldHead.ParentHash, oldHead.Number - 1
+    oldHead, _ = omp.pending[oldHash]
   }
 }
 
-- 
2.43.0


From 8f7615a6bed7be0a9ad988240e97c1f07aad76a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:58 +0000
Subject: [PATCH 07/53] fix: connect all waiting descendants of a block, not
 only the heaviest

When a block that was missing arrived without justifying a reorg, only the
heaviest of the chains waiting for it was marked as connected. Blocks that
later extended any of the others were queued forever, and the consumer
stayed on a lighter chain.
---
 delivery/ordering.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/delivery/ordering.go b/delivery/ordering.go
index cad8252..3269618 100644
--- a/delivery/ordering.go
+++ b/delivery/ordering.go
@@ -212,6 +212,9 @@ func (omp *OrderedMessageProcessor) HandlePendingBatch(pb *PendingBatch, reorg b
         omp.HandlePendingBatch(pb, true)
       }
       omp.queue(pb)
+      // Its other descendants are connected now too, so that the blocks that
+      // extend them must be evaluated when they arrive.
+      omp.finishPendingChildren(pb.Hash)
       return
     }
     // block is not heavy enough for reorg, nor are any of its children, queue for later
-- 
2.43.0


From 465e513e024069e4fa94200e9c026988dce66dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:37 +0000
Subject: [PATCH 08/53] fix: keep the first copy of a message that precedes its
 block's header

A later copy from a redundant producer replaced it, so that the block's
resumption token pointed past the first copy. A consumer that resumed from
the token could miss the following blocks.
---
 delivery/consumer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/delivery/consumer.go b/delivery/consumer.go
index e034526..3312670 100644
--- a/delivery/consumer.go
+++ b/delivery/consumer.go
@@ -420,6 +420,9 @@ func (mp *MessageProcessor) ProcessMessage(m ResumptionMessage) error {
 
 func (mp *MessageProcessor) queueMessage(hash types.Hash, m ResumptionMessage) {
   if _, ok := mp.pendingMessages[hash]; !ok { mp.pendingMessages[hash] = make(map[string]ResumptionMessage) }
+  // Keep the first copy of a message: the resumption token of the block must not
+  // be past it.
+  if _, ok := mp.pendingMessages[hash][string(m.Key())]; ok { return }
   mp.pendingMessages[hash][string(m.Key())] = m
 }
 
-- 
2.43.0


From 9e51d13de8d3d4dea68147f7191c80050222ff41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:21 +0000
Subject: [PATCH 09/53] fix: wait for a block that is announced more than once

---
 waiter/waiter.go | 86 ++++++++++++++++++++++++++++--------------------
 1 file changed, 51 insertions(+), 35 deletions(-)

diff --git a/waiter/waiter.go b/waiter/waiter.go
index c5dc47f..3bd7dfe 100644
--- a/waiter/waiter.go
+++ b/waiter/waiter.go
@@ -59,50 +59,66 @@ func NewOmpWaiter(omp *delivery.OrderedMessageProcessor) Waiter {
         ch: ch,
     }
     go func() {
-        var nchLock sync.Mutex
         for pw := range ch {
             w.lock.Lock()
-            w.hashes[pw.Hash] = pw.WaitCh
-            if _, ok := w.numbers[pw.Number]; !ok {
-                w.numbers[pw.Number] = make(chan struct{})
+            // A block may be announced more than once, and any of the copies may be
+            // the one that gets processed, so all of them share one channel.
+            hch, ok := w.hashes[pw.Hash]
+            if !ok {
+                hch = make(chan struct{})
+                w.hashes[pw.Hash] = hch
+            }
+            nch, ok := w.numbers[pw.Number]
+            if !ok {
+                nch = make(chan struct{})
+                w.numbers[pw.Number] = nch
             }
-            go func(nch, hch chan struct{}, pw *delivery.Waiter) {
-                select {
-                case <-hch:
-                    // The hash channel delivered, close the number channel (safely)
-                    nchLock.Lock()
-                    select {
-                    case <-nch:
-                        // Another goroutine already closed the channel
-                    default:
-                        close(nch)
-                    }
-                    nchLock.Unlock()
-                    go func() {
-                        // Leave the closed channels in the maps for the next 60 seconds
-                        time.Sleep(60 * time.Second)
-                        w.lock.Lock()
-                        delete(w.numbers, pw.Number)
-                        delete(w.hashes, pw.Hash)
-                        w.lock.Unlock()
-                    }()
-                case <-nch:
-                    // The number channel delivered, the hash channel may never deliver
-                    go func() {
-                        // Leave the closed channels in the maps for the next 60 seconds
-                        time.Sleep(60 * time.Second)
-                        w.lock.Lock()
-                        delete(w.hashes, pw.Hash)
-                        w.lock.Unlock()
-                    }()
-                }
-            }(w.numbers[pw.Number], pw.WaitCh, pw)
             w.lock.Unlock()
+            go w.track(pw, hch, nch)
         }
     }()
     return w
 }
 
+// track closes the channels of a block's hash and number once the block has
+// been processed.
+func (w *ompWaiter) track(pw *delivery.Waiter, hch, nch chan struct{}) {
+    select {
+    case <-pw.WaitCh:
+        w.finish(hch)
+        w.finish(nch)
+        // Leave the closed channels in the maps for the next 60 seconds
+        time.Sleep(60 * time.Second)
+        w.lock.Lock()
+        if w.numbers[pw.Number] == nch { delete(w.numbers, pw.Number) }
+        if w.hashes[pw.Hash] == hch { delete(w.hashes, pw.Hash) }
+        w.lock.Unlock()
+    case <-nch:
+        // The number channel delivered, the hash channel may never deliver
+        expired := time.After(60 * time.Second)
+        select {
+        case <-pw.WaitCh:
+            w.finish(hch)
+            <-expired
+        case <-expired:
+        }
+        w.lock.Lock()
+        if w.hashes[pw.Hash] == hch { delete(w.hashes, pw.Hash) }
+        w.lock.Unlock()
+    }
+}
+
+// finish closes a channel unless another goroutine already did.
+func (w *ompWaiter) finish(ch chan struct{}) {
+    w.lock.Lock()
+    defer w.lock.Unlock()
+    select {
+    case <-ch:
+    default:
+        close(ch)
+    }
+}
+
 type WaitResult int
 
 const (
-- 
2.43.0


From 9161f967ecf25be4ef43acc014814fa3d4cd03ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:02 +0000
Subject: [PATCH 10/53] fix: send websocket subscribers the blocks announced
 during their history

---
 transports/websockets.go | 116 ++++++++++++++++++++-------------------
 1 file changed, 60 insertions(+), 56 deletions(-)

diff --git a/transports/websockets.go b/transports/websockets.go
index 5db3081..7f0b773 100644
--- a/transports/websockets.go
+++ b/transports/websockets.go
@@ -222,75 +222,79 @@ func (s *websocketStreamsService) StreamsBlock(ctx context.Context, number hexut
 	}, nil
 }
 
+// sendHistory sends the blocks to subch, and leaves the number and hash of the
+// last one in number and hash. It returns false if the context finished.
+func (s *websocketStreamsService) sendHistory(ctx context.Context, blocks <-chan *delivery.PendingBatch, subch chan<- *resultMessage, number *hexutil.Uint64, hash *types.Hash) bool {
+	for block := range blocks {
+		values := make(map[string]hexutil.Bytes)
+		deletes := make([]string, 0, len(block.Deletes))
+		for k, v := range block.Values {
+			values[k] = hexutil.Bytes(v)
+		}
+		for k, _ := range block.Deletes {
+			deletes = append(deletes, k)
+		}
+		for len(subch) > 10 && ctx.Err() == nil {
+			// If subch is getting backed up, wait before continuing to avoid high memory usage
+			// We need the buffer to be larger for when we transition to the active feed, because
+			// one blocking subscribe can delay the whole feed, but during initialization it's
+			// more likely that consumers won't be able to keep up with the stream than when
+			// blocks are received as they're validated.
+			time.Sleep(10 * time.Millisecond)
+		}
+		select {
+		case subch <- &resultMessage{
+			Type: "batch",
+			Batch: &TransportBatch{
+				Number: hexutil.Uint64(uint64(block.Number)),
+				Weight: (*hexutil.Big)(block.Weight),
+				Hash: block.Hash,
+				ParentHash: block.ParentHash,
+				Batches: make(map[string]types.Hash),
+				Values: values,
+				Deletes: deletes,
+			},
+		}:
+		case <-ctx.Done():
+			return false
+		}
+		*number, *hash = hexutil.Uint64(uint64(block.Number)), block.Hash
+	}
+	return ctx.Err() == nil
+}
+
 func (s *websocketStreamsService) Streams(ctx context.Context, number hexutil.Uint64, hash types.Hash) (<-chan *resultMessage, error) {
 	initBlocks, err := s.resumer.BlocksFrom(ctx, uint64(number), hash)
 	if err != nil {
 		return nil, err
 	}
 	subch := make(chan *resultMessage, 1000)
-	var sub types.Subscription
-	sub = &nullSubscription{}
-	var initwg sync.WaitGroup
-	initwg.Add(1)
 	go func() {
-		for block := range initBlocks {
-			values := make(map[string]hexutil.Bytes)
-			deletes := make([]string, 0, len(block.Deletes))
-			for k, v := range block.Values {
-				values[k] = hexutil.Bytes(v)
-			}
-			for k, _ := range block.Deletes {
-				deletes = append(deletes, k)
-			}
-            for len(subch) > 10 {
-                // If subch is getting backed up, wait before continuing to avoid high memory usage
-                // We need the buffer to be larger for when we transition to the active feed, because
-                // one blocking subscribe can delay the whole feed, but during initialization it's
-                // more likely that consumers won't be able to keep up with the stream than when
-                // blocks are received as they're validated.
-                if ctx.Err() != nil { break }
-                time.Sleep(10 * time.Millisecond)
-            }
-
-			subch <- &resultMessage{
-				Type: "batch",
-				Batch: &TransportBatch{
-					Number: hexutil.Uint64(uint64(block.Number)),
-					Weight: (*hexutil.Big)(block.Weight),
-					Hash: block.Hash,
-					ParentHash: block.ParentHash,
-					Batches: make(map[string]types.Hash),
-					Values: values,
-					Deletes: deletes,
-				},
-			}
-		}
-		if ctx.Err() == nil {
+		var sub types.Subscription
+		sub = &nullSubscription{}
+		if s.sendHistory(ctx, initBlocks, subch, &number, &hash) {
 			sub = s.feed.Subscribe(subch)
-			subch <- &resultMessage{
-				Type: "ready",
+			// Blocks that were announced between the beginning of the history and
+			// the subscription were sent by neither, so catch up with them.
+			missedBlocks, err := s.resumer.BlocksFrom(ctx, uint64(number), hash)
+			if err != nil {
+				log.Warn("Could not get blocks announced during history", "number", uint64(number), "hash", hash, "err", err)
+			} else {
+				s.sendHistory(ctx, missedBlocks, subch, &number, &hash)
 			}
-		}
-		initwg.Done()
-	}()
-	go func() {
-		for {
 			select {
+			case subch <- &resultMessage{Type: "ready"}:
 			case <-ctx.Done():
-				initwg.Wait()
-				sub.Unsubscribe()
-				s.closemu.Lock()
-				close(subch)
-				s.closemu.Unlock()
-				return
-			case <-sub.Err():
-				sub.Unsubscribe()
-				s.closemu.Lock()
-				close(subch)
-				s.closemu.Unlock()
-				return
 			}
 		}
+		select {
+		case <-ctx.Done():
+		case <-sub.Err():
+		}
+		sub.Unsubscribe()
+		s.closemu.Lock()
+		close(subch)
+		s.closemu.Unlock()
 	}()
 	return subch, nil
 }
-- 
2.43.0


From 1a5509caf79db9579bfa12674560b3ebb458b75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:30 +0000
Subject: [PATCH 11/53] fix: close a websocket consumer that is not connected

---
 transports/websockets.go | 38 +++++++++++++++++++++++++++++++-------
 1 file changed, 31 insertions(+), 7 deletions(-)

diff --git a/transports/websockets.go b/transports/websockets.go
index 7f0b773..6c2ad8c 100644
--- a/transports/websockets.go
+++ b/transports/websockets.go
@@ -307,6 +307,7 @@ type websocketConsumer struct {
 	pendingBatches types.Feed
 	reorgs types.Feed
 	conn *websocket.Conn
+	connLock sync.Mutex // Guards conn and quit
 	ready chan struct{}
 	quit bool
 	lastNum hexutil.Uint64
@@ -323,18 +324,21 @@ func (*websocketConsumer) ProducerCount(time.Duration) uint {
 }
 
 func (c *websocketConsumer) Start() error {
-	var err error
 	connected := make(chan struct{}, 8)
 	isReady := false
 	go func() {
-		for !c.quit {
-			c.conn, _, err = websocket.DefaultDialer.Dial(c.url, nil)
+		for !c.closed() {
+			conn, _, err := websocket.DefaultDialer.Dial(c.url, nil)
 			if err != nil {
 				// If we can't connect, don't slam the server with connection attempts
 				log.Warn("Dial failed", "url", c.url, "error", err)
 				time.Sleep(time.Second)
 				continue
 			}
+			if !c.setConn(conn) {
+				conn.Close()
+				return
+			}
 			batches := make(map[types.Hash]*delivery.PendingBatch)
 			subbatches := make(map[types.Hash]*transportSubbatch)
 			pendingSubbatches := make(map[types.Hash]map[types.Hash]struct{})
@@ -345,10 +349,10 @@ func (c *websocketConsumer) Start() error {
 				continue
 			}
 			callData, _ := json.Marshal(call)
-			c.conn.WriteMessage(websocket.TextMessage, callData)
+			conn.WriteMessage(websocket.TextMessage, callData)
 			var subid *hexutil.Uint64
 			for subid == nil {
-				_, message, err := c.conn.ReadMessage()
+				_, message, err := conn.ReadMessage()
 				if err != nil {
 					log.Warn("Read error. Resetting Connection.", "err", err)
 					time.Sleep(time.Second)
@@ -382,7 +386,7 @@ func (c *websocketConsumer) Start() error {
 			default:
 			}
 			for {
-				_, message, err := c.conn.ReadMessage()
+				_, message, err := conn.ReadMessage()
 				if err != nil {
 					log.Debug("Read error. Resetting connection.", "err", err)
 					break
@@ -481,8 +485,28 @@ func (c *websocketConsumer) SubscribeReorg(ch chan<- map[int64]types.Hash) types
 	return c.omp.SubscribeReorg(ch)
 }
 func (c *websocketConsumer) Close() {
+	c.connLock.Lock()
+	defer c.connLock.Unlock()
 	c.quit = true
-	c.conn.Close()
+	if c.conn != nil { // There may have been no connection yet
+		c.conn.Close()
+	}
+}
+
+func (c *websocketConsumer) closed() bool {
+	c.connLock.Lock()
+	defer c.connLock.Unlock()
+	return c.quit
+}
+
+// setConn sets the connection that Close() closes, unless the consumer has
+// already been closed.
+func (c *websocketConsumer) setConn(conn *websocket.Conn) bool {
+	c.connLock.Lock()
+	defer c.connLock.Unlock()
+	if c.quit { return false }
+	c.conn = conn
+	return true
 }
 func (c *websocketConsumer) Ready() <-chan struct{} {
 	return c.ready
-- 
2.43.0


From 123c3babb1b767f05ea516111147da5397a82d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:45 +0000
Subject: [PATCH 12/53] fix: resume a websocket stream before blocks that are
 incomplete

---
 transports/websockets.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/transports/websockets.go b/transports/websockets.go
index 6c2ad8c..c9bcf95 100644
--- a/transports/websockets.go
+++ b/transports/websockets.go
@@ -473,6 +473,14 @@ func (c *websocketConsumer) Start() error {
 					}
 				}
 			}
+			// Blocks that were still waiting for subbatches have to be requested
+			// again, even if later blocks have been completed already.
+			for _, pb := range batches {
+				if pb.Number > 0 && hexutil.Uint64(pb.Number) <= c.lastNum {
+					c.lastNum = hexutil.Uint64(pb.Number - 1)
+					c.lastHash = pb.ParentHash
+				}
+			}
 		}
 	}()
 	<-connected
-- 
2.43.0


From 5179b0c4bc8d1991deff51b24384054e9d2dac1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:25 +0000
Subject: [PATCH 13/53] fix: retry a refused websocket subscription

---
 transports/websockets.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/transports/websockets.go b/transports/websockets.go
index c9bcf95..9543908 100644
--- a/transports/websockets.go
+++ b/transports/websockets.go
@@ -365,16 +365,16 @@ func (c *websocketConsumer) Start() error {
 					continue
 				}
 				if string(response.ID) == string(call.ID) {
-					idstring, ok := response.Result.(string)
-					if ok {
-						encodedid, err := hexutil.DecodeUint64(idstring)
-						if err != nil {
-							log.Warn("Invalid subscription id", "id", idstring, "err", err)
-							continue
-						}
-						x := hexutil.Uint64(encodedid)
-						subid = &x
+					idstring, _ := response.Result.(string)
+					encodedid, err := hexutil.DecodeUint64(idstring)
+					if err != nil {
+						// No subscription follows. Reset the connection to try again.
+						log.Warn("Subscription refused", "response", string(message), "err", err)
+						conn.Close()
+						continue
 					}
+					x := hexutil.Uint64(encodedid)
+					subid = &x
 				} else {
 					log.Warn("Unexpected response", "wanted", call.ID, "got", response.ID)
 				}
-- 
2.43.0


From 12d808db335220d2c4682acdefca7848d3e20c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:37 +0000
Subject: [PATCH 14/53] fix: forget the parts of a websocket block that also
 arrives whole

---
 transports/websockets.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/transports/websockets.go b/transports/websockets.go
index 9543908..6cbce8d 100644
--- a/transports/websockets.go
+++ b/transports/websockets.go
@@ -446,6 +446,7 @@ func (c *websocketConsumer) Start() error {
 					}
 					if len(pendingSubbatches[pb.Hash]) == 0 {
 						delete(pendingSubbatches, pb.Hash)
+						delete(batches, pb.Hash) // In case part of it came before
 						c.omp.ProcessCompleteBatch(pb)
 						c.lastNum = hexutil.Uint64(pb.Number)
 						c.lastHash = pb.Hash
-- 
2.43.0


From 562cf7ee20291dba528358e1cd8c14457c5df369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:01 +0000
Subject: [PATCH 15/53] fix: accept the cardinal:// prefix for kafka consumers

---
 transports/resolver.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/transports/resolver.go b/transports/resolver.go
index ff309d2..0312632 100644
--- a/transports/resolver.go
+++ b/transports/resolver.go
@@ -58,7 +58,7 @@ func ResolveConsumer(brokerURL, defaultTopic string, topics []string, resumption
 func resolveConsumer(omp *delivery.OrderedMessageProcessor, brokerURL, defaultTopic string, topics []string, resumption []byte, rollback, lastNumber int64, lastHash types.Hash, trackedPrefixes []*regexp.Regexp) (Consumer, error) {
   switch protocol := strings.Split(strings.TrimPrefix(brokerURL, "cardinal://"), "://"); protocol[0] {
   case "kafka":
-    return kafkaConsumerWithOMP(omp, brokerURL, defaultTopic, topics, resumption, rollback, lastHash)
+    return kafkaConsumerWithOMP(omp, strings.TrimPrefix(brokerURL, "cardinal://"), defaultTopic, topics, resumption, rollback, lastHash)
   case "ws", "wss":
     prefixes := make([]string, len(trackedPrefixes))
     for i, p := range trackedPrefixes {
@@ -77,7 +77,7 @@ func ResumptionForTimestamp(brokerParams []BrokerParams, timestamp int64) ([]byt
   for _, bp := range brokerParams {
     switch protocol := strings.Split(strings.TrimPrefix(bp.URL, "cardinal://"), "://"); protocol[0] {
     case "kafka":
-      res, err := kafkaResumptionForTimestamp(bp.URL, bp.Topics, timestamp)
+      res, err := kafkaResumptionForTimestamp(strings.TrimPrefix(bp.URL, "cardinal://"), bp.Topics, timestamp)
       if err != nil {
         return nil, err
       }
-- 
2.43.0


From 7c47548ce800ba5e05e2df2997bac75f7d5d5009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:06 +0000
Subject: [PATCH 16/53] fix: let kafka consumers get ready when a partition has
 no messages

A partition with nothing to read never left the warm-up, and held back
every other partition and Ready() with it.
---
 transports/kafka.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/transports/kafka.go b/transports/kafka.go
index 3c3272b..141a0d0 100644
--- a/transports/kafka.go
+++ b/transports/kafka.go
@@ -578,7 +578,13 @@ func (kc *KafkaConsumer) Start() error {
         startOffset = offset
       }
       log.Info("Starting partition consumer", "topic", topic, "partition", partid, "offset", offset, "startOffset", startOffset)
-      go func(pc sarama.PartitionConsumer, startOffset int64, partid int32, i int, topic string) {
+      // A partition with no messages to catch up on must not hold back the others
+      caughtUp := startOffset == sarama.OffsetNewest
+      if newest, err := kc.client.GetOffset(topic, partid, sarama.OffsetNewest); err == nil {
+        oldest, err := kc.client.GetOffset(topic, partid, sarama.OffsetOldest)
+        caughtUp = caughtUp || startOffset >= newest || (err == nil && oldest == newest)
+      }
+      go func(pc sarama.PartitionConsumer, startOffset int64, partid int32, i int, topic string, caughtUp bool) {
         kc.shutdownWg.Add(1)
         defer kc.shutdownWg.Done()
         dl.AddScale(i, startOffset)
@@ -586,6 +592,16 @@ func (kc *KafkaConsumer) Start() error {
         warm := false
         meter := metrics.NewMinorMeter(fmt.Sprintf("streams/kafka/%v/%v/meter", topic, partid))
         lagGauge := metrics.NewMinorGauge(fmt.Sprintf("streams/kafka/%v/%v/lag", topic, partid))
+        if caughtUp {
+          warmupWg.Done()
+          warmupWg.Wait()
+          warm = true
+          once.Do(func() {
+            log.Debug("Partition ready", "topic", topic, "partition", partid)
+            dl.Done(i)
+            readyWg.Done()
+          })
+        }
         for input := range pc.Messages() {
           meter.Mark(1)
           lagGauge.Update(pc.HighWaterMarkOffset() - input.Offset)
@@ -612,7 +628,7 @@ func (kc *KafkaConsumer) Start() error {
           }
           messages <- input
         }
-      }(pc, startOffset, partid, len(partitionConsumers), topic)
+      }(pc, startOffset, partid, len(partitionConsumers), topic, caughtUp)
       partitionConsumers = append(partitionConsumers, pc)
     }
   }
-- 
2.43.0


From ee809c379c685a6756ea99e637f04340dc4d0544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:07 +0000
Subject: [PATCH 17/53] fix: let Close of a kafka consumer return while it is
 still warming up

The partitions that had their first message waited for the others for
ever.
---
 transports/kafka.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/transports/kafka.go b/transports/kafka.go
index 141a0d0..b9b9c1a 100644
--- a/transports/kafka.go
+++ b/transports/kafka.go
@@ -628,6 +628,8 @@ func (kc *KafkaConsumer) Start() error {
           }
           messages <- input
         }
+        // Closed before it was warm; the others must not keep waiting for it
+        if !warm { warmupWg.Done() }
       }(pc, startOffset, partid, len(partitionConsumers), topic, caughtUp)
       partitionConsumers = append(partitionConsumers, pc)
     }
-- 
2.43.0


From 8f6844a104db3d85b23ac3b84b0115b7894724d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:01 +0000
Subject: [PATCH 18/53] fix: resume a kafka consumer from the oldest message
 left when its rollback reaches further back

It fell back to the token itself and skipped the messages the rollback was
meant to bring back, although the log still had them.
---
 transports/kafka.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/transports/kafka.go b/transports/kafka.go
index b9b9c1a..e7a9d99 100644
--- a/transports/kafka.go
+++ b/transports/kafka.go
@@ -573,6 +573,11 @@ func (kc *KafkaConsumer) Start() error {
       }
       pc, err := consumer.ConsumePartition(topic, partid, startOffset)
       if err != nil {
+        // If the rollback reaches back further than the log, start with the
+        // oldest message that is left rather than skip those before the token
+        if oldest, err := kc.client.GetOffset(topic, partid, sarama.OffsetOldest); err == nil && startOffset < oldest && oldest < offset {
+          offset = oldest
+        }
         pc, err = consumer.ConsumePartition(topic, partid, offset)
         if err != nil { return err }
         startOffset = offset
-- 
2.43.0


From 698869cc2bdeef84c3a75ace879c8d4092671e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:58 +0000
Subject: [PATCH 19/53] fix: start a kafka producer when retention has emptied
 a partition

NewKafkaProducer waited for ever for a message of a partition whose
messages had all been removed.
---
 transports/kafka.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/transports/kafka.go b/transports/kafka.go
index e7a9d99..1aaced9 100644
--- a/transports/kafka.go
+++ b/transports/kafka.go
@@ -266,6 +266,9 @@ func NewKafkaProducer(brokerURL, defaultTopic string, schema map[string]string)
       } else if offset == 0 {
         offset = sarama.OffsetNewest
         once.Do(readyWg.Done)
+      } else if oldest, err := client.GetOffset(defaultTopic, partid, sarama.OffsetOldest); err == nil && oldest == offset {
+        // Everything the partition held has been removed by retention
+        once.Do(readyWg.Done)
       }
       offset -= 100
       if offset < 0 { offset = sarama.OffsetOldest }
-- 
2.43.0


From a9707eff74ab28cabd93d41614b341662b23aa33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:07 +0000
Subject: [PATCH 20/53] fix: serialize the messages of transports that share a
 processor

The consumers of a mux consumer call ProcessMessage from one goroutine
each, and corrupted (or crashed on) the maps of pending blocks.
---
 delivery/consumer.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/delivery/consumer.go b/delivery/consumer.go
index 3312670..4749c06 100644
--- a/delivery/consumer.go
+++ b/delivery/consumer.go
@@ -12,6 +12,7 @@ import (
   log "github.com/inconshreveable/log15"
   "regexp"
   "fmt"
+  "sync"
   "time"
 )
 
@@ -208,6 +209,7 @@ type MessageProcessor struct {
   resumption      map[string]int64
   evictCh         chan int64
   failedReconstructPanic bool
+  lock            sync.Mutex // Several transports may share a MessageProcessor
 }
 
 // NewMessageProcessor instantiates a MessageProcessor. lastEmittedNum should
@@ -262,6 +264,8 @@ func (mp *MessageProcessor) evictOlderThan(n int64) {
 }
 
 func (mp *MessageProcessor) ProcessCompleteBatch(pb *PendingBatch) {
+	mp.lock.Lock()
+	defer mp.lock.Unlock()
 	if pb.waitCh == nil {
 		pb.waitCh = make(chan struct{})
 	}
@@ -279,6 +283,12 @@ func (mp *MessageProcessor) ProcessCompleteBatch(pb *PendingBatch) {
 
 // ProcessMessage takes in messages and assembles completed blocks of messages.
 func (mp *MessageProcessor) ProcessMessage(m ResumptionMessage) error {
+  mp.lock.Lock()
+  defer mp.lock.Unlock()
+  return mp.processMessage(m)
+}
+
+func (mp *MessageProcessor) processMessage(m ResumptionMessage) error {
   EVICTLOOP:
   for {
     select {
@@ -377,7 +387,7 @@ func (mp *MessageProcessor) ProcessMessage(m ResumptionMessage) error {
     if _, ok := mp.pendingMessages[hash]; ok {
       // We have some messages that arrived before the batch header. Process them now.
       for _, msg := range mp.pendingMessages[hash] {
-        if err := mp.ProcessMessage(msg); err != nil { return err }
+        if err := mp.processMessage(msg); err != nil { return err }
       }
       delete (mp.pendingMessages, hash)
     }
-- 
2.43.0


From c9a119ecd1428b54577db1653ca9d7f792be1a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:36 +0000
Subject: [PATCH 21/53] fix: look for the latest block in partitions that
 follow an emptied one

Waiting for the first message of a partition that retention has emptied
left a fetch in flight, behind which the messages of the partitions after
it were missed if max.waittime was a second or more.
---
 transports/kafka.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/transports/kafka.go b/transports/kafka.go
index 1aaced9..b53b31b 100644
--- a/transports/kafka.go
+++ b/transports/kafka.go
@@ -421,6 +421,8 @@ func (kp *KafkaProducer) LatestBlockFromFeed() (int64, error) {
       continue
     }
     if offset == 0 { continue }
+    // Everything the partition held may have been removed by retention
+    if oldest, err := client.GetOffset(kp.defaultTopic, partid, sarama.OffsetOldest); err == nil && oldest == offset { continue }
     offset -= 100
     if offset < 0 { offset = sarama.OffsetOldest }
     pc, err := consumer.ConsumePartition(kp.defaultTopic, partid, offset)
-- 
2.43.0


From 288d19b466f2f577c224976dbc0802b8619048d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:25 +0000
Subject: [PATCH 22/53] fix: guard the map of heartbeats

ProducerCount iterated over the map while heartbeats were added to it,
which ends the process when they coincide.
---
 transports/kafka.go | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/transports/kafka.go b/transports/kafka.go
index b53b31b..3e5f719 100644
--- a/transports/kafka.go
+++ b/transports/kafka.go
@@ -28,15 +28,26 @@ var (
   producerCount = metrics.NewMajorGauge("/streams/producers")
 )
 
-type pingTracker map[types.Hash]time.Time
+type pingTracker struct {
+  lock  sync.Mutex // ProducerCount is called while heartbeats arrive
+  pings map[types.Hash]time.Time
+}
+
+func newPingTracker() *pingTracker {
+  return &pingTracker{pings: make(map[types.Hash]time.Time)}
+}
 
-func (pt pingTracker) update(key types.Hash) {
-  pt[key] = time.Now()
+func (pt *pingTracker) update(key types.Hash) {
+  pt.lock.Lock()
+  defer pt.lock.Unlock()
+  pt.pings[key] = time.Now()
 }
 
-func (pt pingTracker) ProducerCount(d time.Duration) uint {
+func (pt *pingTracker) ProducerCount(d time.Duration) uint {
   var count uint
-  for _, v := range pt {
+  pt.lock.Lock()
+  defer pt.lock.Unlock()
+  for _, v := range pt.pings {
     if time.Since(v) < d {
       count++
     }
@@ -221,7 +232,7 @@ type KafkaProducer struct{
   brokerURL    string
   recentHashes *lru.Cache
   skipBatches  *lru.Cache
-  pt           pingTracker
+  pt           *pingTracker
   healthy      bool
 }
 
@@ -245,7 +256,7 @@ func NewKafkaProducer(brokerURL, defaultTopic string, schema map[string]string)
   if err != nil {
     return nil, err
   }
-  pt := make(pingTracker)
+  pt := newPingTracker()
   client, err := sarama.NewClient(brokers, config)
   if err != nil { return nil, err }
   consumer, err := sarama.NewConsumerFromClient(client)
@@ -474,7 +485,7 @@ type KafkaConsumer struct{
   shutdownWg   sync.WaitGroup
   isReorg      bool
   startHash    types.Hash
-  pt           pingTracker
+  pt           *pingTracker
   waiter       waiter.Waiter
 }
 
@@ -504,7 +515,7 @@ func kafkaConsumerWithOMP(omp *delivery.OrderedMessageProcessor, brokerURL, defa
     client: client,
     rollback: rollback,
     startHash: lastHash,
-    pt: make(pingTracker),
+    pt: newPingTracker(),
   }, nil
 }
 
@@ -702,6 +713,7 @@ func (kc *KafkaConsumer) Start() error {
               resumption: make(map[string]int64),
               client: kc.client,
               isReorg: true,
+              pt: kc.pt,
             }
             rekc.Start()
             <-rekc.Ready()
-- 
2.43.0


From 0074a0a6b89610737c8f7c17f2729c44716a5221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:34 +0000
Subject: [PATCH 23/53] fix: start kafka producers whose topics another one
 creates meanwhile

When redundant producers started together on a new cluster, the one whose
request to create a topic came second failed to start.
---
 transports/kafka.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/transports/kafka.go b/transports/kafka.go
index 3e5f719..c6bd10d 100644
--- a/transports/kafka.go
+++ b/transports/kafka.go
@@ -214,7 +214,8 @@ func CreateTopicIfDoesNotExist(brokerAddr, topic string, numPartitions int32, co
       log.Error("Error creating topic", "error", err, "response", r)
       return err
     }
-    if err, _ := r.TopicErrors[topic]; err != nil && err.Err != sarama.ErrNoError {
+    // Another producer may have created the topic in the meantime
+    if err, _ := r.TopicErrors[topic]; err != nil && err.Err != sarama.ErrNoError && err.Err != sarama.ErrTopicAlreadyExists {
       log.Error("topic error", "err", err)
       return err
     }
-- 
2.43.0


From ce030bc42fb3eec2f5573bc586d44de9856dc418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:40 +0000
Subject: [PATCH 24/53] fix: handle reorg signals in the order they come
 between blocks

---
 delivery/ordering.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/delivery/ordering.go b/delivery/ordering.go
index 3269618..fff1633 100644
--- a/delivery/ordering.go
+++ b/delivery/ordering.go
@@ -59,8 +59,10 @@ func NewOrderedMessageProcessor(cfg *ConsumerConfig) (*OrderedMessageProcessor,
     omp.evict(hash)
   })
   omp.finished.Add(cfg.LastHash, struct{}{})
-  ch := make(chan *PendingBatch, 100)
-  reorgCh := make(chan map[int64]types.Hash, 100)
+  // These are not buffered, so that blocks and reorgs are handled in the order
+  // the MessageProcessor sends them.
+  ch := make(chan *PendingBatch)
+  reorgCh := make(chan map[int64]types.Hash)
   sub := omp.mp.Subscribe(ch)
   reorgSub := omp.mp.SubscribeReorgs(reorgCh)
   go func() {
-- 
2.43.0


From 0519a47e4d74cac4a9cba746468da478e3929f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:46 +0000
Subject: [PATCH 25/53] fix: handle the reorg signals of websockets in their
 turn

The consumer handled them in its own goroutine, while the blocks before them
could still be on their way to the OrderedMessageProcessor's, which shares its
state without a lock.
---
 delivery/consumer.go     | 30 +++++++++++++++++++++---------
 delivery/ordering.go     |  6 ++++++
 transports/websockets.go |  4 +++-
 3 files changed, 30 insertions(+), 10 deletions(-)

diff --git a/delivery/consumer.go b/delivery/consumer.go
index 4749c06..97b26ad 100644
--- a/delivery/consumer.go
+++ b/delivery/consumer.go
@@ -281,6 +281,26 @@ func (mp *MessageProcessor) ProcessCompleteBatch(pb *PendingBatch) {
 	delete(mp.pendingBatches, pb.Hash)
 }
 
+// ProcessReorg handles the signal of a large reorg. The number and hash should
+// correspond to the common ancestor between the two reorged chains.
+func (mp *MessageProcessor) ProcessReorg(number int64, hash types.Hash) error {
+  mp.lock.Lock()
+  defer mp.lock.Unlock()
+  return mp.processReorg(number, hash)
+}
+
+func (mp *MessageProcessor) processReorg(number int64, hash types.Hash) error {
+  var err error
+  mp.completed, err = lru.New(int(2 * mp.reorgThreshold))
+  if err != nil {
+    return err
+  }
+  mp.oldBlocks = make(map[types.Hash]struct{})
+  mp.lastEmittedNum = number
+  mp.reorgFeed.Send(map[int64]types.Hash{number: hash})
+  return nil
+}
+
 // ProcessMessage takes in messages and assembles completed blocks of messages.
 func (mp *MessageProcessor) ProcessMessage(m ResumptionMessage) error {
   mp.lock.Lock()
@@ -306,17 +326,9 @@ func (mp *MessageProcessor) processMessage(m ResumptionMessage) error {
   mp.updateResumption(m.Source(), m.Offset())
   hash := types.BytesToHash(m.Key()[1:33])
   if MessageType(m.Key()[0]) == ReorgType {
-    var err error
-    mp.completed, err = lru.New(int(2 * mp.reorgThreshold))
-    if err != nil {
-      return err
-    }
-    mp.oldBlocks = make(map[types.Hash]struct{})
     var num int
     if err := avro.Unmarshal(intSchema, m.Value(), &num); err != nil { return err }
-    mp.lastEmittedNum = int64(num)
-    mp.reorgFeed.Send(map[int64]types.Hash{mp.lastEmittedNum: hash})
-    return nil
+    return mp.processReorg(int64(num), hash)
   }
   if mp.completed.Contains(hash) { return nil }   // We've recently emitted this block
   if _, ok := mp.oldBlocks[hash]; ok { return nil } // This block is older than the reorg threshold, skip anything related to it.
diff --git a/delivery/ordering.go b/delivery/ordering.go
index fff1633..feba11f 100644
--- a/delivery/ordering.go
+++ b/delivery/ordering.go
@@ -159,6 +159,12 @@ func (omp *OrderedMessageProcessor) ProcessCompleteBatch(pb *PendingBatch) {
 	omp.mp.ProcessCompleteBatch(pb)
 }
 
+// ProcessReorg handles the signal of a large reorg in its turn among the blocks
+// and messages that are processed.
+func (omp *OrderedMessageProcessor) ProcessReorg(number int64, hash types.Hash) error {
+	return omp.mp.ProcessReorg(number, hash)
+}
+
 func (omp *OrderedMessageProcessor) SubscribeReorg(ch chan<- map[int64]types.Hash) types.Subscription {
   return omp.reorgFeed.Subscribe(ch)
 }
diff --git a/transports/websockets.go b/transports/websockets.go
index 6cbce8d..e9a52ef 100644
--- a/transports/websockets.go
+++ b/transports/websockets.go
@@ -413,7 +413,9 @@ func (c *websocketConsumer) Start() error {
 						close(c.ready)
 					}
 				case "reorg":
-					c.omp.HandleReorg(int64(item.Batch.Number), item.Batch.Hash)
+					if err := c.omp.ProcessReorg(int64(item.Batch.Number), item.Batch.Hash); err != nil {
+						log.Error("Error processing reorg:", "err", err, "number", item.Batch.Number, "hash", item.Batch.Hash)
+					}
 				case "batch":
 					pb := &delivery.PendingBatch{
 						Number: int64(item.Batch.Number),
-- 
2.43.0


From a2354f350521ada8add9ed3cf9e4c2833aad23e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:13 +0000
Subject: [PATCH 26/53] fix: import the current version of the module in utils

---
 utils/kafka.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/kafka.go b/utils/kafka.go
index 6f80839..999b8fd 100644
--- a/utils/kafka.go
+++ b/utils/kafka.go
@@ -2,7 +2,7 @@ package utils
 
 import (
 	"github.com/Shopify/sarama"
-	"github.com/openrelayxyz/cardinal-streams/transports"
+	"github.com/openrelayxyz/cardinal-streams/v2/transports"
 	"strings"
 )
 
-- 
2.43.0


From b0d635e018be4a297d240ab98acb829f2d5de893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:54 +0000
Subject: [PATCH 27/53] fix: tell everyone who waits that a consumer is ready

---
 transports/kafka.go    | 76 +++++++++++++++++++++++-------------------
 transports/resolver.go |  2 +-
 2 files changed, 43 insertions(+), 35 deletions(-)

diff --git a/transports/kafka.go b/transports/kafka.go
index c6bd10d..32fc1f2 100644
--- a/transports/kafka.go
+++ b/transports/kafka.go
@@ -476,7 +476,7 @@ func (kp *KafkaProducer) PurgeReplayCache() {
 type KafkaConsumer struct{
   omp          *delivery.OrderedMessageProcessor
   quit         chan struct{}
-  ready        chan struct{}
+  ready        chan struct{} // Closed once the consumer has caught up
   brokerURL    string
   defaultTopic string
   topics       []string
@@ -634,7 +634,7 @@ func (kc *KafkaConsumer) Start() error {
             warmupWg.Wait()
             warm = true
           }
-          if kc.ready != nil {
+          if !kc.isReady() {
             if !kc.isReorg {
               dl.Step(i)
             }
@@ -656,35 +656,36 @@ func (kc *KafkaConsumer) Start() error {
       partitionConsumers = append(partitionConsumers, pc)
     }
   }
-  var readych chan time.Time
-  readyWaiter := func() <-chan time.Time  {
-    // If readych isn't ready to receive, use it as the sender, eliminating any
-    // possibility that this case will trigger, and avoiding the creation of
-    // any timer objects that will have to get cleaned up when we don't need
-    // them.
-    if readych == nil { return readych }
-    // Only if the readych is ready to receive should this return a timer, as
-    // the timer will have to be created, run its course, and get cleaned up,
-    // which adds overhead
-    return time.After(time.Second)
-  }
+  partitionsReady := make(chan struct{})
+  caughtUp := make(chan struct{})
   go func(wg, reorgWg *sync.WaitGroup) {
     // Wait until all partition consumers are up to the high water mark and alert the ready channel
     wg.Wait()
     log.Debug("Partitions ready")
-    readych = make(chan time.Time)
-    <-readych
+    close(partitionsReady)
+    <-caughtUp
     log.Debug("Ready")
-    readych = nil
     reorgWg.Wait()
     log.Debug("Reorg waiter ready")
-    kc.ready <- struct{}{}
+    close(kc.ready)
     log.Debug("Ready sent")
-    kc.ready = nil
     dl.Close()
     delivery.Ready()
   }(&readyWg, &reorgWg)
   go func() {
+    partitionsReady := partitionsReady
+    catchingUp := false
+    readyWaiter := func() <-chan time.Time  {
+      // Unless the partitions are ready and we are catching up, use a nil
+      // channel, eliminating any possibility that this case will trigger, and
+      // avoiding the creation of any timer objects that will have to get cleaned
+      // up when we don't need them.
+      if !catchingUp { return nil }
+      // Only if we are catching up should this return a timer, as the timer will
+      // have to be created, run its course, and get cleaned up, which adds
+      // overhead
+      return time.After(time.Second)
+    }
     hbGauge := metrics.NewMajorGauge("streams/kafka/heartbeat")
     hbGauge.Update(1)
     hbTicker := time.NewTicker(time.Minute)
@@ -744,17 +745,18 @@ func (kc *KafkaConsumer) Start() error {
         // messages because the drumline has gotten streteched too far apart in
         // the course of normal operation, and it should be reset.
         log.Debug("Drumline reset")
-      case v := <- readyWaiter():
-        // readyWaiter() will wait 1 second if readych is ready to receive ,
-        // which will trigger a message to get sent on kc.ready. This
-        // should only trigger when we are totally caught up processing all the
-        // messages currently available from Kafka. Before we reach the high
-        // watermark and after this has triggered once, readyWaiter() will be a
-        // nil channel with no significant resource consumption.
-        select {
-        case readych <- v:
-        default:
-        }
+      case <-partitionsReady:
+        partitionsReady = nil
+        catchingUp = true
+      case <-readyWaiter():
+        // readyWaiter() will wait 1 second if the partitions are ready, which
+        // will trigger kc.ready to get closed. This should only trigger when we
+        // are totally caught up processing all the messages currently available
+        // from Kafka. Before we reach the high watermark and after this has
+        // triggered once, readyWaiter() will be a nil channel with no
+        // significant resource consumption.
+        catchingUp = false
+        close(caughtUp)
       case <-kc.quit:
         go func() {
           for _, c := range partitionConsumers {
@@ -783,10 +785,16 @@ func (kc *KafkaConsumer) ProducerCount(d time.Duration) uint {
 }
 
 func (kc *KafkaConsumer) Ready() <-chan struct{} {
-  if kc.ready != nil { return kc.ready }
-  r := make(chan struct{}, 1)
-  r <- struct{}{}
-  return r
+  return kc.ready
+}
+
+func (kc *KafkaConsumer) isReady() bool {
+  select {
+  case <-kc.ready:
+    return true
+  default:
+    return false
+  }
 }
 func (kc *KafkaConsumer) Subscribe(ch interface{}) types.Subscription {
   return kc.omp.Subscribe(ch)
diff --git a/transports/resolver.go b/transports/resolver.go
index 0312632..939d7af 100644
--- a/transports/resolver.go
+++ b/transports/resolver.go
@@ -197,7 +197,7 @@ func (mc *muxConsumer) Ready() <-chan struct{} {
       }
     }
     reflect.Select(channels)
-    ch <- struct{}{}
+    close(ch)
   }()
   return ch
 }
-- 
2.43.0


From f7c90a8b669527f76b014b82a55e5f0005310d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:25 +0000
Subject: [PATCH 28/53] fix: count the partitions of a kafka consumer before
 they wait for each other

---
 transports/kafka.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/transports/kafka.go b/transports/kafka.go
index 32fc1f2..fdecfe2 100644
--- a/transports/kafka.go
+++ b/transports/kafka.go
@@ -561,6 +561,8 @@ func (kc *KafkaConsumer) Start() error {
   messages := make(chan *sarama.ConsumerMessage, 512) // 512 is arbitrary. Worked for Flume, but may require tuning for Cardinal
   partitionConsumers := []sarama.PartitionConsumer{}
   heartbeats := make(chan types.Hash)
+  // The partitions wait for each other, so they begin when all of them are known
+  begin := make(chan struct{})
   for _, topic := range kc.topics {
     partitions, err := consumer.Partitions(topic)
     if err != nil { return err }
@@ -606,10 +608,11 @@ func (kc *KafkaConsumer) Start() error {
         oldest, err := kc.client.GetOffset(topic, partid, sarama.OffsetOldest)
         caughtUp = caughtUp || startOffset >= newest || (err == nil && oldest == newest)
       }
+      kc.shutdownWg.Add(1)
+      dl.AddScale(len(partitionConsumers), startOffset)
       go func(pc sarama.PartitionConsumer, startOffset int64, partid int32, i int, topic string, caughtUp bool) {
-        kc.shutdownWg.Add(1)
         defer kc.shutdownWg.Done()
-        dl.AddScale(i, startOffset)
+        <-begin
         var once sync.Once
         warm := false
         meter := metrics.NewMinorMeter(fmt.Sprintf("streams/kafka/%v/%v/meter", topic, partid))
@@ -656,6 +659,7 @@ func (kc *KafkaConsumer) Start() error {
       partitionConsumers = append(partitionConsumers, pc)
     }
   }
+  close(begin)
   partitionsReady := make(chan struct{})
   caughtUp := make(chan struct{})
   go func(wg, reorgWg *sync.WaitGroup) {
-- 
2.43.0


From 88d67ba6d5bc178055866e279e739ba67e3d62a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:47 +0000
Subject: [PATCH 29/53] fix: close kafka consumers that did not start

---
 transports/kafka.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/transports/kafka.go b/transports/kafka.go
index fdecfe2..8282ca7 100644
--- a/transports/kafka.go
+++ b/transports/kafka.go
@@ -507,7 +507,7 @@ func kafkaConsumerWithOMP(omp *delivery.OrderedMessageProcessor, brokerURL, defa
   }
   return &KafkaConsumer{
     omp: omp,
-    quit: make(chan struct{}),
+    quit: make(chan struct{}, 1), // Close() must not wait for a consumer that did not start
     ready: make(chan struct{}),
     brokerURL: brokerURL,
     defaultTopic: defaultTopic,
@@ -552,7 +552,7 @@ func NewKafkaConsumer(brokerURL, defaultTopic string, topics []string, resumptio
   return kafkaConsumerWithOMP(omp, brokerURL, defaultTopic, topics, resumption, rollback, cfg.LastHash)
 }
 
-func (kc *KafkaConsumer) Start() error {
+func (kc *KafkaConsumer) Start() (err error) {
   log.Debug("Starting kafka consumer")
   dl := drumline.NewDrumline(256)
   consumer, err := sarama.NewConsumerFromClient(kc.client)
@@ -563,6 +563,16 @@ func (kc *KafkaConsumer) Start() error {
   heartbeats := make(chan types.Hash)
   // The partitions wait for each other, so they begin when all of them are known
   begin := make(chan struct{})
+  failed := make(chan struct{})
+  defer func() {
+    if err == nil { return }
+    // Don't leave behind the partitions that could be opened
+    close(failed)
+    for _, pc := range partitionConsumers {
+      pc.Close()
+    }
+    if len(partitionConsumers) > 0 { dl.Close() }
+  }()
   for _, topic := range kc.topics {
     partitions, err := consumer.Partitions(topic)
     if err != nil { return err }
@@ -612,7 +622,11 @@ func (kc *KafkaConsumer) Start() error {
       dl.AddScale(len(partitionConsumers), startOffset)
       go func(pc sarama.PartitionConsumer, startOffset int64, partid int32, i int, topic string, caughtUp bool) {
         defer kc.shutdownWg.Done()
-        <-begin
+        select {
+        case <-begin:
+        case <-failed:
+          return
+        }
         var once sync.Once
         warm := false
         meter := metrics.NewMinorMeter(fmt.Sprintf("streams/kafka/%v/%v/meter", topic, partid))
-- 
2.43.0


From 81211a97d5e49521da9a3331f73773041036dbdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:26 +0000
Subject: [PATCH 30/53] fix: close the topic consumer's client and goroutines

---
 utils/kafka.go | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/utils/kafka.go b/utils/kafka.go
index 999b8fd..28e39b4 100644
--- a/utils/kafka.go
+++ b/utils/kafka.go
@@ -16,6 +16,8 @@ type topicConsumer struct {
 	messages chan *sarama.ConsumerMessage
 	partitionConsumers []sarama.PartitionConsumer
 	consumer sarama.Consumer
+	client sarama.Client
+	quit chan struct{}
 }
 
 func NewTopicConsumer(brokerURL, topic string, buffer int) (*topicConsumer, error) {
@@ -25,20 +27,34 @@ func NewTopicConsumer(brokerURL, topic string, buffer int) (*topicConsumer, erro
 	if err != nil {
 		return nil, err
 	}
+	tc.client = client
 	tc.consumer, err = sarama.NewConsumerFromClient(client)
 	if err != nil {
+		client.Close()
 		return nil, err
 	}
+	tc.quit = make(chan struct{})
 	tc.messages = make(chan *sarama.ConsumerMessage, buffer) // 512 is arbitrary. Worked for Flume, but may require tuning for Cardinal
 	partitions, err := tc.consumer.Partitions(topic)
 	tc.partitionConsumers = make([]sarama.PartitionConsumer, len(partitions))
-	if err != nil { return nil, err }
+	if err != nil {
+		client.Close()
+		return nil, err
+	}
 	for i, partid := range partitions {
 		pc, err := tc.consumer.ConsumePartition(topic, partid, sarama.OffsetNewest)
-		if err != nil { return nil, err }
+		if err != nil {
+			tc.partitionConsumers = tc.partitionConsumers[:i]
+			tc.Close()
+			return nil, err
+		}
 		go func(pc sarama.PartitionConsumer, i int) {
 			for input := range pc.Messages() {
-				tc.messages <- input
+				select {
+				case tc.messages <- input:
+				case <-tc.quit:
+					return
+				}
 			}
 		}(pc, len(tc.partitionConsumers))
 		tc.partitionConsumers[i] = pc
@@ -51,6 +67,8 @@ func (tc *topicConsumer) Messages() <-chan *sarama.ConsumerMessage {
 }
 
 func (tc *topicConsumer) Close() error {
+	defer tc.client.Close()
+	close(tc.quit)
 	for _, pc := range tc.partitionConsumers {
 		if err := pc.Close(); err != nil { return err }
 	}
-- 
2.43.0


From 0356967c50e38264a9023e408e185dd4c51dd266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:26 +0000
Subject: [PATCH 31/53] fix: close kafka clients that are no longer needed

---
 transports/kafka.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/transports/kafka.go b/transports/kafka.go
index 8282ca7..cb89211 100644
--- a/transports/kafka.go
+++ b/transports/kafka.go
@@ -421,6 +421,7 @@ func (kp *KafkaProducer) LatestBlockFromFeed() (int64, error) {
   brokerList, config := ParseKafkaURL(kp.brokerURL)
   client, err := sarama.NewClient(brokerList, config)
   if err != nil { return 0, err }
+  defer client.Close()
   consumer, err := sarama.NewConsumerFromClient(client)
   if err != nil { return 0, err }
   partitions, err := consumer.Partitions(kp.defaultTopic)
@@ -461,6 +462,7 @@ func (kp *KafkaProducer) LatestBlockFromFeed() (int64, error) {
         }
       case <-time.NewTimer(time.Second).C:
         log.Info("No messages available on partition", "topic", kp.defaultTopic, "partition", partid)
+        pc.AsyncClose()
         break PARTITION_LOOP
       }
     }
@@ -529,6 +531,7 @@ func kafkaResumptionForTimestamp(brokerURL string, topics []string, timestamp in
     log.Error("error connecting to brokers", "brokers", brokers)
     return nil, err
   }
+  defer client.Close()
   resumption := []string{}
   for _, topic := range topics {
     parts, err := client.Partitions(topic)
@@ -823,6 +826,7 @@ func (kc *KafkaConsumer) SubscribeReorg(ch chan<- map[int64]types.Hash) types.Su
 func (kc *KafkaConsumer) Close() {
   kc.quit <- struct{}{}
   kc.shutdownWg.Wait()
+  if !kc.isReorg { kc.client.Close() } // Otherwise it belongs to another consumer
 }
 func (kc *KafkaConsumer) WhyNotReady(hash types.Hash) string {
   return kc.omp.WhyNotReady(hash)
-- 
2.43.0


From 8140acbf3ebb59302583f140e378606050153497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:26 +0000
Subject: [PATCH 32/53] fix: close the consumers of a mux that cannot be
 created

---
 transports/resolver.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/transports/resolver.go b/transports/resolver.go
index 939d7af..69baf58 100644
--- a/transports/resolver.go
+++ b/transports/resolver.go
@@ -100,7 +100,10 @@ func ResolveMuxConsumer(brokerParams []BrokerParams, resumption []byte, cfg *del
   }
   for _, bp := range brokerParams {
     c, err := resolveConsumer(omp, bp.URL, bp.DefaultTopic, bp.Topics, resumption, bp.Rollback, cfg.LastEmittedNum, cfg.LastHash, cfg.TrackedPrefixes)
-    if err != nil { return nil, err }
+    if err != nil {
+      mc.Close()
+      return nil, err
+    }
     mc.consumers = append(mc.consumers, c)
   }
   return mc, nil
-- 
2.43.0


From 5c6be7cef318eef73b5117a41a9726954d10a4c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:24 +0000
Subject: [PATCH 33/53] fix: tell which message of a subbatch a block waits for

---
 delivery/consumer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/delivery/consumer.go b/delivery/consumer.go
index 97b26ad..3501b2e 100644
--- a/delivery/consumer.go
+++ b/delivery/consumer.go
@@ -95,7 +95,7 @@ func (pb *PendingBatch) whyNotReady() string {
   }
   for batchid, batch := range pb.batches {
     for i, b := range batch {
-      if !b { fmt.Sprintf("Pending batch '%#x'[%v]", batchid, i) }
+      if !b { return fmt.Sprintf("Pending batch '%#x'[%v]", batchid, i) }
     }
   }
   return "ready"
-- 
2.43.0


From ddc299c6b62a2961ed4e50445c391eab88979248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:24 +0000
Subject: [PATCH 34/53] fix: allow WhyNotReady while messages are processed

---
 delivery/consumer.go | 33 ++++++++++++++++++++++++++-------
 delivery/ordering.go | 17 +++++++++++++++--
 2 files changed, 41 insertions(+), 9 deletions(-)

diff --git a/delivery/consumer.go b/delivery/consumer.go
index 3501b2e..a98780d 100644
--- a/delivery/consumer.go
+++ b/delivery/consumer.go
@@ -210,6 +210,7 @@ type MessageProcessor struct {
   evictCh         chan int64
   failedReconstructPanic bool
   lock            sync.Mutex // Several transports may share a MessageProcessor
+  stateLock       sync.Mutex // Guards what WhyNotReady reads; not held while sending
 }
 
 // NewMessageProcessor instantiates a MessageProcessor. lastEmittedNum should
@@ -276,6 +277,8 @@ func (mp *MessageProcessor) ProcessCompleteBatch(pb *PendingBatch) {
 		WaitCh: pb.waitCh,
 	})
 	mp.feed.Send(pb)
+	mp.stateLock.Lock()
+	defer mp.stateLock.Unlock()
 	mp.lastEmittedNum = pb.Number
 	mp.completed.Add(pb.Hash, struct{}{})
 	delete(mp.pendingBatches, pb.Hash)
@@ -286,6 +289,8 @@ func (mp *MessageProcessor) ProcessCompleteBatch(pb *PendingBatch) {
 func (mp *MessageProcessor) ProcessReorg(number int64, hash types.Hash) error {
   mp.lock.Lock()
   defer mp.lock.Unlock()
+  mp.stateLock.Lock()
+  defer mp.stateLock.Unlock()
   return mp.processReorg(number, hash)
 }
 
@@ -297,14 +302,24 @@ func (mp *MessageProcessor) processReorg(number int64, hash types.Hash) error {
   }
   mp.oldBlocks = make(map[types.Hash]struct{})
   mp.lastEmittedNum = number
-  mp.reorgFeed.Send(map[int64]types.Hash{number: hash})
+  mp.sending(func() { mp.reorgFeed.Send(map[int64]types.Hash{number: hash}) })
   return nil
 }
 
+// sending releases stateLock while f sends something, as those who receive it
+// may call WhyNotReady.
+func (mp *MessageProcessor) sending(f func()) {
+  mp.stateLock.Unlock()
+  defer mp.stateLock.Lock()
+  f()
+}
+
 // ProcessMessage takes in messages and assembles completed blocks of messages.
 func (mp *MessageProcessor) ProcessMessage(m ResumptionMessage) error {
   mp.lock.Lock()
   defer mp.lock.Unlock()
+  mp.stateLock.Lock()
+  defer mp.stateLock.Unlock()
   return mp.processMessage(m)
 }
 
@@ -346,11 +361,13 @@ func (mp *MessageProcessor) processMessage(m ResumptionMessage) error {
     //   return nil
     // }
     waitCh := make(chan struct{})
-    mp.waitFeed.Send(&Waiter{
-      Hash: b.Hash,
-      Parent: b.ParentHash,
-      Number: b.Number,
-      WaitCh: waitCh,
+    mp.sending(func() {
+      mp.waitFeed.Send(&Waiter{
+        Hash: b.Hash,
+        Parent: b.ParentHash,
+        Number: b.Number,
+        WaitCh: waitCh,
+      })
     })
     mp.pendingBatches[hash] = &PendingBatch{
       Number: b.Number,
@@ -431,7 +448,7 @@ func (mp *MessageProcessor) processMessage(m ResumptionMessage) error {
     mp.pendingBatches[hash].ApplyMessage(m)
   }
   if b, ok := mp.pendingBatches[hash] ; ok && b.Ready() {
-    mp.feed.Send(b)
+    mp.sending(func() { mp.feed.Send(b) })
     mp.lastEmittedNum = b.Number
     mp.completed.Add(hash, struct{}{})
     delete(mp.pendingBatches, hash)
@@ -449,6 +466,8 @@ func (mp *MessageProcessor) queueMessage(hash types.Hash, m ResumptionMessage) {
 }
 
 func (mp *MessageProcessor) WhyNotReady(hash types.Hash) string {
+  mp.stateLock.Lock()
+  defer mp.stateLock.Unlock()
   if pb, ok := mp.pendingBatches[hash]; ok {
     return pb.whyNotReady()
   } else {
diff --git a/delivery/ordering.go b/delivery/ordering.go
index feba11f..cca1fa4 100644
--- a/delivery/ordering.go
+++ b/delivery/ordering.go
@@ -3,6 +3,7 @@ package delivery
 import (
   "fmt"
   "math/big"
+  "sync"
   "github.com/openrelayxyz/cardinal-types"
   "github.com/openrelayxyz/cardinal-types/metrics"
   "github.com/hashicorp/golang-lru"
@@ -34,6 +35,7 @@ type OrderedMessageProcessor struct {
   whitelist      map[uint64]types.Hash
   blacklist      map[types.Hash]struct{}
   initEmpty      bool
+  lock           sync.Mutex // Guards what WhyNotReady reads; not held while sending
 }
 
 
@@ -170,6 +172,12 @@ func (omp *OrderedMessageProcessor) SubscribeReorg(ch chan<- map[int64]types.Has
 }
 
 func (omp *OrderedMessageProcessor) HandlePendingBatch(pb *PendingBatch, reorg bool) {
+  omp.lock.Lock()
+  defer omp.lock.Unlock()
+  omp.handlePendingBatch(pb, reorg)
+}
+
+func (omp *OrderedMessageProcessor) handlePendingBatch(pb *PendingBatch, reorg bool) {
   if h, ok := omp.whitelist[uint64(pb.Number)]; ok && h != pb.Hash {
     // If a block is excluded by the whitelist, add it to the blacklist
     omp.blacklist[pb.Hash] = struct{}{}
@@ -217,7 +225,7 @@ func (omp *OrderedMessageProcessor) HandlePendingBatch(pb *PendingBatch, reorg b
       // log.Debug("Weight does not justify reorg, but child is available", "child", child)
       // This block's child is already pending, process it instead
       if pb, ok := omp.pending[child]; ok {
-        omp.HandlePendingBatch(pb, true)
+        omp.handlePendingBatch(pb, true)
       }
       omp.queue(pb)
       // Its other descendants are connected now too, so that the blocks that
@@ -283,6 +291,8 @@ func (omp *OrderedMessageProcessor) prepareEmit(new, old []*PendingBatch) {
     reorgAddMeter.Mark(int64(len(new)))
     reorgExecMeter.Mark(1)
   }
+  omp.lock.Unlock() // Those who receive the update may call WhyNotReady
+  defer omp.lock.Lock()
   omp.updateFeed.Send(&ChainUpdate{added: new, removed: old})
 }
 
@@ -388,6 +398,9 @@ func (omp *OrderedMessageProcessor) Close() {
 
 func (omp *OrderedMessageProcessor) WhyNotReady(hash types.Hash) string {
   if omp.finished.Contains(hash) { return "done, not evicted" }
-  if _, ok := omp.pending[hash]; ok { return "pending parent" }
+  omp.lock.Lock()
+  _, ok := omp.pending[hash]
+  omp.lock.Unlock()
+  if ok { return "pending parent" }
   return omp.mp.WhyNotReady(hash)
 }
-- 
2.43.0


From e888a3035996566c6acc621267765f10ab3c0262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:25 +0000
Subject: [PATCH 35/53] fix: let several subscribers mark a block done

---
 delivery/consumer.go | 8 +++++++-
 delivery/ordering.go | 5 ++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/delivery/consumer.go b/delivery/consumer.go
index a98780d..8f0ae5b 100644
--- a/delivery/consumer.go
+++ b/delivery/consumer.go
@@ -39,6 +39,7 @@ type PendingBatch struct {
   pendingBatches map[types.Hash]struct{}
   pendingMessages map[string]ResumptionMessage // Key -> Message
   waitCh chan struct{}
+  waitLock sync.Mutex // Guards waitCh; several subscribers may call Done
   time time.Time
   failedReconstructPanic bool
 }
@@ -76,11 +77,13 @@ func (pb *PendingBatch) Ready() bool {
 
 // Done should be called on a pending batch after it has been applied.
 func (pb *PendingBatch) Done() {
+  pb.waitLock.Lock()
   waitch := pb.waitCh
   if waitch != nil {
     pb.waitCh = nil
     close(waitch)
   }
+  pb.waitLock.Unlock()
   deltaTimerMinor.UpdateSince(pb.time)
   if deltaTimer != nil {
     deltaTimer.UpdateSince(pb.time)
@@ -267,14 +270,17 @@ func (mp *MessageProcessor) evictOlderThan(n int64) {
 func (mp *MessageProcessor) ProcessCompleteBatch(pb *PendingBatch) {
 	mp.lock.Lock()
 	defer mp.lock.Unlock()
+	pb.waitLock.Lock()
 	if pb.waitCh == nil {
 		pb.waitCh = make(chan struct{})
 	}
+	waitCh := pb.waitCh
+	pb.waitLock.Unlock()
 	mp.waitFeed.Send(&Waiter{
 		Hash: pb.Hash,
 		Parent: pb.ParentHash,
 		Number: pb.Number,
-		WaitCh: pb.waitCh,
+		WaitCh: waitCh,
 	})
 	mp.feed.Send(pb)
 	mp.stateLock.Lock()
diff --git a/delivery/ordering.go b/delivery/ordering.go
index cca1fa4..4fbdc8e 100644
--- a/delivery/ordering.go
+++ b/delivery/ordering.go
@@ -136,7 +136,10 @@ func (c *ChainUpdate) Removed() []*PendingBatch {
 }
 
 func (c *ChainUpdate) Done() {
-  for _, pb := range append(c.added, c.removed...) {
+  for _, pb := range c.added {
+    pb.Done()
+  }
+  for _, pb := range c.removed {
     pb.Done()
   }
 }
-- 
2.43.0


From 7132c363abb4b55e9c3aca269b8f5a67a32824f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:25 +0000
Subject: [PATCH 36/53] fix: set the health of a producer while it sends
 heartbeats

---
 transports/kafka.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/transports/kafka.go b/transports/kafka.go
index cb89211..ecba4dc 100644
--- a/transports/kafka.go
+++ b/transports/kafka.go
@@ -11,6 +11,7 @@ import (
 	"strconv"
 	"strings"
 	"sync"
+	"sync/atomic"
 	"time"
 
 	"github.com/Shopify/sarama"
@@ -234,7 +235,7 @@ type KafkaProducer struct{
   recentHashes *lru.Cache
   skipBatches  *lru.Cache
   pt           *pingTracker
-  healthy      bool
+  healthy      int32 // Set by SetHealth, read by the heartbeats
 }
 
 func NewKafkaProducer(brokerURL, defaultTopic string, schema map[string]string) (Producer, error) {
@@ -315,14 +316,14 @@ func NewKafkaProducer(brokerURL, defaultTopic string, schema map[string]string)
   }
   cache, _ := lru.New(4096)
   skipBatches, _ := lru.New(1024)
-  kp := &KafkaProducer{dp: dp, producer: producer, reorgTopic: "", defaultTopic: defaultTopic, brokerURL: brokerURL, recentHashes: cache, skipBatches: skipBatches, pt: pt, healthy: true}
+  kp := &KafkaProducer{dp: dp, producer: producer, reorgTopic: "", defaultTopic: defaultTopic, brokerURL: brokerURL, recentHashes: cache, skipBatches: skipBatches, pt: pt, healthy: 1}
   go func() {
     ticker := time.NewTicker(30 * time.Second)
     for {
       select {
       case t := <-ticker.C:
         b, _ := t.MarshalBinary()
-        if kp.healthy {
+        if atomic.LoadInt32(&kp.healthy) != 0 {
             producer.Input() <- &sarama.ProducerMessage{Topic: defaultTopic, Key: sarama.ByteEncoder(delivery.PingType.GetKey(idBytes[:])), Value: sarama.ByteEncoder(b)}
         }
       case h := <-hashCh:
@@ -341,7 +342,9 @@ func (kp *KafkaProducer) ProducerCount(d time.Duration) uint {
 }
 
 func (kp *KafkaProducer) SetHealth(b bool) {
-  kp.healthy = b
+  var healthy int32
+  if b { healthy = 1 }
+  atomic.StoreInt32(&kp.healthy, healthy)
 }
 
 func (kp *KafkaProducer) emitBundle(bundle map[string][]delivery.Message) error {
-- 
2.43.0


From 49b098436bd980831a0ccbd45347eb47a2bdfe66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:25 +0000
Subject: [PATCH 37/53] fix: make one waiter for all that ask a consumer for it

---
 transports/kafka.go      | 5 +++--
 transports/resolver.go   | 6 ++++--
 transports/websockets.go | 5 +++--
 3 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/transports/kafka.go b/transports/kafka.go
index ecba4dc..67308ff 100644
--- a/transports/kafka.go
+++ b/transports/kafka.go
@@ -493,6 +493,7 @@ type KafkaConsumer struct{
   startHash    types.Hash
   pt           *pingTracker
   waiter       waiter.Waiter
+  waiterOnce   sync.Once
 }
 
 func kafkaConsumerWithOMP(omp *delivery.OrderedMessageProcessor, brokerURL, defaultTopic string, topics []string, resumption []byte, rollback int64, lastHash types.Hash) (Consumer, error) {
@@ -836,8 +837,8 @@ func (kc *KafkaConsumer) WhyNotReady(hash types.Hash) string {
 }
 
 func (kc *KafkaConsumer) Waiter() waiter.Waiter {
-  if kc.waiter == nil {
+  kc.waiterOnce.Do(func() {
     kc.waiter = waiter.NewOmpWaiter(kc.omp)
-  }
+  })
   return kc.waiter
 }
\ No newline at end of file
diff --git a/transports/resolver.go b/transports/resolver.go
index 69baf58..411842f 100644
--- a/transports/resolver.go
+++ b/transports/resolver.go
@@ -5,6 +5,7 @@ import (
   "fmt"
   "math/big"
   "regexp"
+  "sync"
   "time"
   "strings"
   "reflect"
@@ -127,10 +128,11 @@ type muxConsumer struct {
   omp       *delivery.OrderedMessageProcessor
   consumers []Consumer
   waiter    waiter.Waiter
+  waiterOnce sync.Once
 }
 
 func (mc *muxConsumer) Waiter() waiter.Waiter {
-  if mc.waiter == nil {
+  mc.waiterOnce.Do(func() {
     for _, c := range mc.consumers {
       if w := c.Waiter(); w != (nullWaiter{}) {
         mc.waiter = w
@@ -140,7 +142,7 @@ func (mc *muxConsumer) Waiter() waiter.Waiter {
     if mc.waiter == nil {
       mc.waiter = nullWaiter{}
     }
-  }
+  })
   return mc.waiter
 }
 
diff --git a/transports/websockets.go b/transports/websockets.go
index e9a52ef..3c98052 100644
--- a/transports/websockets.go
+++ b/transports/websockets.go
@@ -313,6 +313,7 @@ type websocketConsumer struct {
 	lastNum hexutil.Uint64
 	lastHash types.Hash
     waiter waiter.Waiter
+	waiterOnce sync.Once
 }
 
 func newWebsocketConsumer(omp *delivery.OrderedMessageProcessor, url string, lastNum int64, lastHash types.Hash) (Consumer, error) {
@@ -527,8 +528,8 @@ func (c *websocketConsumer) WhyNotReady(types.Hash) string {
 }
 
 func (c *websocketConsumer) Waiter() waiter.Waiter {
-    if c.waiter == nil {
+    c.waiterOnce.Do(func() {
       c.waiter = waiter.NewOmpWaiter(c.omp)
-    }
+    })
     return c.waiter
   }
\ No newline at end of file
-- 
2.43.0


From fd3bc781b0c02bb33a7c19cfeac067eae7207f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:56 +0000
Subject: [PATCH 38/53] fix: take no steps in the drumline once caught up

---
 transports/kafka.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/transports/kafka.go b/transports/kafka.go
index 67308ff..2884d69 100644
--- a/transports/kafka.go
+++ b/transports/kafka.go
@@ -636,6 +636,7 @@ func (kc *KafkaConsumer) Start() (err error) {
         }
         var once sync.Once
         warm := false
+        done := false
         meter := metrics.NewMinorMeter(fmt.Sprintf("streams/kafka/%v/%v/meter", topic, partid))
         lagGauge := metrics.NewMinorGauge(fmt.Sprintf("streams/kafka/%v/%v/lag", topic, partid))
         if caughtUp {
@@ -645,6 +646,7 @@ func (kc *KafkaConsumer) Start() (err error) {
           once.Do(func() {
             log.Debug("Partition ready", "topic", topic, "partition", partid)
             dl.Done(i)
+            done = true
             readyWg.Done()
           })
         }
@@ -659,7 +661,9 @@ func (kc *KafkaConsumer) Start() (err error) {
             warm = true
           }
           if !kc.isReady() {
-            if !kc.isReorg {
+            // The drumline doesn't wake up a partition that takes another step
+            // while it is being removed
+            if !kc.isReorg && !done {
               dl.Step(i)
             }
             if pc.HighWaterMarkOffset() - input.Offset <= 1 {
@@ -668,6 +672,7 @@ func (kc *KafkaConsumer) Start() (err error) {
               once.Do(func() {
                 log.Debug("Partition ready", "topic", input.Topic, "partition", input.Partition)
                 dl.Done(i)
+                done = true
                 readyWg.Done()
               })
             }
-- 
2.43.0


From 9bf012a8f97788a6fda91112515f21b1217e70b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:29 +0000
Subject: [PATCH 39/53] fix: a websocket message that is not a notification
 repeated the one before it

---
 transports/websockets.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/transports/websockets.go b/transports/websockets.go
index 3c98052..ad0dae9 100644
--- a/transports/websockets.go
+++ b/transports/websockets.go
@@ -381,7 +381,6 @@ func (c *websocketConsumer) Start() error {
 				}
 			}
 			log.Info("Subscription established", "id", subid)
-			var notification rpc.SubscriptionResponseRaw
 			select {
 			case connected <- struct{}{}:
 			default:
@@ -396,7 +395,11 @@ func (c *websocketConsumer) Start() error {
 					// Probably a ping message
 					continue
 				}
-				json.Unmarshal(message, &notification)
+				var notification rpc.SubscriptionResponseRaw
+				if err := json.Unmarshal(message, &notification); err != nil {
+					log.Warn("Unreadable message on channel", "message", string(message), "err", err)
+					continue
+				}
 				if notification.Method != "cardinal_subscribe" {
 					log.Warn("Unexpected message on channel", "message", string(message))
 					continue
-- 
2.43.0


From 55f9749403b37fd2a5df278b9f8ecf8c000ee1f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:12 +0000
Subject: [PATCH 40/53] fix: a damaged websocket item crashed the consumer

---
 transports/websockets.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/transports/websockets.go b/transports/websockets.go
index ad0dae9..a382956 100644
--- a/transports/websockets.go
+++ b/transports/websockets.go
@@ -47,6 +47,19 @@ type resultMessage struct {
 	SubBatch *transportSubbatch `json:"subbatch,omitempty"`
 }
 
+// complete tells whether an item has what its type says it has.
+func (m *resultMessage) complete() bool {
+	switch m.Type {
+	case "batch":
+		return m.Batch != nil && m.Batch.Weight != nil
+	case "reorg":
+		return m.Batch != nil
+	case "subbatch":
+		return m.SubBatch != nil
+	}
+	return true
+}
+
 type TransportBatch struct {
 	Number hexutil.Uint64 `json:"number"`
 	Weight *hexutil.Big `json:"weight"`
@@ -409,7 +422,10 @@ func (c *websocketConsumer) Start() error {
 					continue
 				}
 				var item resultMessage
-				json.Unmarshal(notification.Params.Result, &item)
+				if err := json.Unmarshal(notification.Params.Result, &item); err != nil || !item.complete() {
+					log.Warn("Unreadable item on channel", "message", string(message), "err", err)
+					continue
+				}
 				switch item.Type {
 				case "ready":
 					if !isReady {
-- 
2.43.0


From 75d8ce9008d9f46f687930b0482cfba9ec2e936c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:08 +0000
Subject: [PATCH 41/53] fix: a damaged message crashed the consumer or held up
 its block

---
 delivery/consumer.go | 53 +++++++++++++++++++++++++++++++++++---------
 delivery/types.go    |  2 +-
 2 files changed, 44 insertions(+), 11 deletions(-)

diff --git a/delivery/consumer.go b/delivery/consumer.go
index 8f0ae5b..4a2b253 100644
--- a/delivery/consumer.go
+++ b/delivery/consumer.go
@@ -111,18 +111,23 @@ func (pb *PendingBatch) ApplyMessage(m ResumptionMessage) bool {
     // SubBatchMsgType.$hash.$BatchId.$Index
     batchid := types.BytesToHash(m.Key()[33:65])
     var idx int
-    if err := avro.Unmarshal(intSchema, m.Key()[65:], &idx); err != nil {
+    if err := unmarshal(intSchema, m.Key()[65:], &idx); err != nil {
       log.Error("Failed to unmarshal index at end of key", "key", m.Key())
       return true
     }
-    if _, ok := pb.batches[batchid]; !ok {
-      pb.pendingMessages[string(m.Key())] = m
-      return false
+    batch, ok := pb.batches[batchid]
+    if ok && (idx < 0 || idx >= len(batch)) {
+      log.Error("Index is not part of the sub-batch", "key", m.Key(), "index", idx, "count", len(batch))
+      return true
     }
-    if pb.batches[batchid][idx] { return false } // Already have it, no updates
+    if ok && batch[idx] { return false } // Already have it, no updates
     update := &SubBatchRecord{}
-    if err := avro.Unmarshal(updateSchema, m.Value(), &update); err != nil {
+    if err := unmarshal(updateSchema, m.Value(), &update); err != nil {
       log.Error("Failed to unmarshal update record", "key", m.Key(), "value", m.Value())
+      return true
+    }
+    if !ok {
+      pb.pendingMessages[string(m.Key())] = m
       return false
     }
     for _, k := range update.Delete { pb.Deletes[k] = struct{}{} }
@@ -320,6 +325,28 @@ func (mp *MessageProcessor) sending(f func()) {
   f()
 }
 
+// unmarshal is avro.Unmarshal, except that data that ends early is an error.
+func unmarshal(schema avro.Schema, data []byte, v interface{}) error {
+  r := avro.NewReader(nil, 0).Reset(data)
+  r.ReadVal(schema, v)
+  return r.Error
+}
+
+// checkKey returns an error for the keys of messages that end early.
+func checkKey(key []byte) error {
+  size := 33 // $Type.$Hash
+  if len(key) > 0 {
+    switch MessageType(key[0]) {
+    case SubBatchHeaderType:
+      size = 65 // $Type.$Hash.$BatchId
+    case SubBatchMsgType:
+      size = 66 // $Type.$Hash.$BatchId.$Index
+    }
+  }
+  if len(key) < size { return fmt.Errorf("message key %#x is too short", key) }
+  return nil
+}
+
 // ProcessMessage takes in messages and assembles completed blocks of messages.
 func (mp *MessageProcessor) ProcessMessage(m ResumptionMessage) error {
   mp.lock.Lock()
@@ -330,6 +357,7 @@ func (mp *MessageProcessor) ProcessMessage(m ResumptionMessage) error {
 }
 
 func (mp *MessageProcessor) processMessage(m ResumptionMessage) error {
+  if err := checkKey(m.Key()); err != nil { return err }
   EVICTLOOP:
   for {
     select {
@@ -348,7 +376,7 @@ func (mp *MessageProcessor) processMessage(m ResumptionMessage) error {
   hash := types.BytesToHash(m.Key()[1:33])
   if MessageType(m.Key()[0]) == ReorgType {
     var num int
-    if err := avro.Unmarshal(intSchema, m.Value(), &num); err != nil { return err }
+    if err := unmarshal(intSchema, m.Value(), &num); err != nil { return err }
     return mp.processReorg(int64(num), hash)
   }
   if mp.completed.Contains(hash) { return nil }   // We've recently emitted this block
@@ -357,7 +385,7 @@ func (mp *MessageProcessor) processMessage(m ResumptionMessage) error {
   switch MessageType(m.Key()[0]) {
   case BatchType:
     b := &Batch{}
-    if err := avro.Unmarshal(batchSchema, m.Value(), b); err != nil { return err }
+    if err := unmarshal(batchSchema, m.Value(), b); err != nil { return err }
     b.Hash = hash
     if _, ok := mp.pendingBatches[hash]; ok { return nil } // We already have this block. No need to check further.
     // if b.Number < (mp.lastEmittedNum - mp.reorgThreshold) {
@@ -430,6 +458,9 @@ func (mp *MessageProcessor) processMessage(m ResumptionMessage) error {
     messagesGauge.Update(int64(len(mp.pendingMessages)))
     log.Debug("New pending batch", "number", b.Number, "pending", len(mp.pendingBatches), "messages", len(mp.pendingMessages), "source", m.Source())
   case SubBatchHeaderType:
+    var counter int
+    if err := unmarshal(intSchema, m.Value(), &counter); err != nil { return err }
+    if counter < 0 { return fmt.Errorf("sub-batch of %v parts", counter) }
     if _, ok := mp.pendingBatches[hash] ; !ok {
       mp.queueMessage(hash, m)
       return nil
@@ -437,8 +468,6 @@ func (mp *MessageProcessor) processMessage(m ResumptionMessage) error {
     batchid := types.BytesToHash(m.Key()[33:])
     if _, ok := mp.pendingBatches[hash].pendingBatches[batchid]; !ok { return nil } // We've already gotten this batch
     delete(mp.pendingBatches[hash].pendingBatches, batchid)
-    var counter int
-    if err := avro.Unmarshal(intSchema, m.Value(), &counter); err != nil { return err }
     mp.pendingBatches[hash].batches[batchid] = make([]bool, counter)
     mp.pendingBatches[hash].updateResumption(m.Source(), m.Offset())
     for k, msg := range mp.pendingBatches[hash].pendingMessages {
@@ -448,6 +477,10 @@ func (mp *MessageProcessor) processMessage(m ResumptionMessage) error {
     }
   default:
     if _, ok := mp.pendingBatches[hash] ; !ok {
+      if MessageType(m.Key()[0]) == SubBatchMsgType {
+        // A copy that can be read must not be mistaken for a repeat of this one
+        if err := unmarshal(updateSchema, m.Value(), &SubBatchRecord{}); err != nil { return err }
+      }
       mp.queueMessage(hash, m)
       return nil
     }
diff --git a/delivery/types.go b/delivery/types.go
index ed11458..d497092 100644
--- a/delivery/types.go
+++ b/delivery/types.go
@@ -134,6 +134,6 @@ type ResumptionMessage interface{
 
 func UnmarshalBatch(data []byte) (*Batch, error) {
   b := &Batch{}
-  if err := avro.Unmarshal(batchSchema, data, b); err != nil { return nil, err }
+  if err := unmarshal(batchSchema, data, b); err != nil { return nil, err }
   return b, nil
 }
-- 
2.43.0


From 2cbe3b6b3062f0d606404550b1f413f86489e327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:02 +0000
Subject: [PATCH 42/53] fix: damaged messages and stray reorg messages in a
 Kafka topic crashed or stopped producers and consumers

---
 transports/kafka.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/transports/kafka.go b/transports/kafka.go
index 2884d69..876abee 100644
--- a/transports/kafka.go
+++ b/transports/kafka.go
@@ -304,6 +304,7 @@ func NewKafkaProducer(brokerURL, defaultTopic string, schema map[string]string)
           if len(input.Key) == 0 { continue PARTITION_LOOP }
           switch delivery.MessageType(input.Key[0]) {
           case delivery.BatchType:
+            if len(input.Key) < 33 { continue PARTITION_LOOP }
             hashCh <- types.BytesToHash(input.Key[1:33])
           case delivery.PingType:
             if !bytes.Equal(input.Key[1:], idBytes[:]) { // Ignore our own heartbeats
@@ -705,6 +706,7 @@ func (kc *KafkaConsumer) Start() (err error) {
   go func() {
     partitionsReady := partitionsReady
     catchingUp := false
+    reorgs := 0 // Begun, but not complete
     readyWaiter := func() <-chan time.Time  {
       // Unless the partitions are ready and we are catching up, use a nil
       // channel, eliminating any possibility that this case will trigger, and
@@ -747,11 +749,15 @@ func (kc *KafkaConsumer) Start() (err error) {
               isReorg: true,
               pt: kc.pt,
             }
-            rekc.Start()
+            if err := rekc.Start(); err != nil {
+              log.Error("Error following reorg:", "err", err, "topics", rekc.topics)
+              continue
+            }
             <-rekc.Ready()
             rekc.Close()
           } else {
             reorgWg.Add(1)
+            reorgs++
             if err := kc.omp.ProcessMessage(msg); err != nil {
               log.Error("Error processing input:", "err", err, "key", input.Key, "msg", input.Value, "part", input.Partition, "offset", input.Offset)
             }
@@ -759,7 +765,11 @@ func (kc *KafkaConsumer) Start() (err error) {
         case delivery.PingType:
           heartbeats <- types.BytesToHash(msg.Key()[1:])
         case delivery.ReorgCompleteType:
-          reorgWg.Done()
+          // Reorgs complete once, and only if they began
+          if reorgs > 0 {
+            reorgs--
+            reorgWg.Done()
+          }
         default:
           if err := kc.omp.ProcessMessage(msg); err != nil {
             log.Error("Error processing input:", "err", err, "key", input.Key, "msg", input.Value, "part", input.Partition, "offset", input.Offset)
-- 
2.43.0


From cc1c8611df7954dd445fd3fd7178940b7de4a48b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:49 +0000
Subject: [PATCH 43/53] fix: after a large reorg, blocks of the new chain that
 were still incomplete were discarded as too old

---
 delivery/consumer.go |  9 ++++++++-
 delivery/ordering.go | 12 ++++++++++--
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/delivery/consumer.go b/delivery/consumer.go
index 4a2b253..da5e562 100644
--- a/delivery/consumer.go
+++ b/delivery/consumer.go
@@ -314,7 +314,14 @@ func (mp *MessageProcessor) processReorg(number int64, hash types.Hash) error {
   mp.oldBlocks = make(map[types.Hash]struct{})
   mp.lastEmittedNum = number
   mp.sending(func() { mp.reorgFeed.Send(map[int64]types.Hash{number: hash}) })
-  return nil
+  // What was too old for the previous chain need not be for the new one
+  for {
+    select {
+    case <-mp.evictCh:
+    default:
+      return nil
+    }
+  }
 }
 
 // sending releases stateLock while f sends something, as those who receive it
diff --git a/delivery/ordering.go b/delivery/ordering.go
index 4fbdc8e..459732d 100644
--- a/delivery/ordering.go
+++ b/delivery/ordering.go
@@ -24,6 +24,7 @@ var (
 type OrderedMessageProcessor struct {
   mp *MessageProcessor
   lastHash       types.Hash
+  lastNumber     int64
   lastWeight     *big.Int
   reorgThreshold int64
   pending        map[types.Hash]*PendingBatch
@@ -46,6 +47,7 @@ func NewOrderedMessageProcessor(cfg *ConsumerConfig) (*OrderedMessageProcessor,
   omp := &OrderedMessageProcessor{
     mp: NewMessageProcessor(cfg),
     lastHash: cfg.LastHash,
+    lastNumber: cfg.LastEmittedNum,
     lastWeight: cfg.LastWeight,
     reorgThreshold: cfg.ReorgThreshold,
     pending: make(map[types.Hash]*PendingBatch),
@@ -108,7 +110,11 @@ func NewOrderedMessageProcessor(cfg *ConsumerConfig) (*OrderedMessageProcessor,
 func (omp *OrderedMessageProcessor) evict(hash types.Hash) {
   if pb, ok := omp.pending[hash]; ok {
     delete(omp.pending, pb.Hash)
-    omp.mp.evictOlderThan(pb.Number)
+    // After a reorg, the blocks that are evicted may be ahead of the new chain.
+    // Only what is beyond the reorg threshold of the head is too old.
+    n := omp.lastNumber - omp.reorgThreshold
+    if pb.Number < n { n = pb.Number }
+    omp.mp.evictOlderThan(n)
     omp.evict(pb.ParentHash) // If the parent is still being tracked we can go ahead and get rid of it
     if children, ok := omp.queued[pb.Hash]; ok {
       for childHash := range children {
@@ -262,7 +268,7 @@ func (omp *OrderedMessageProcessor) queue(pb *PendingBatch) {
 
 func (omp *OrderedMessageProcessor) HandleReorg(num int64, hash types.Hash) {
   omp.lastHash = hash
-  // omp.lastNumber = num
+  omp.lastNumber = num
   omp.reorgFeed.Send(map[int64]types.Hash{num: hash})
 }
 
@@ -270,6 +276,7 @@ func (omp *OrderedMessageProcessor) prepareEmit(new, old []*PendingBatch) {
   if len(new) > 0 {
     newest := new[len(new) - 1]
     omp.lastHash = newest.Hash
+    omp.lastNumber = newest.Number
     omp.lastWeight = newest.Weight
     omp.finishSiblings(newest)
     omp.finished.Add(newest.Hash, struct{}{})
@@ -282,6 +289,7 @@ func (omp *OrderedMessageProcessor) prepareEmit(new, old []*PendingBatch) {
     new = append(new, pb)
     omp.finishSiblings(pb)
     omp.lastHash = pb.Hash
+    omp.lastNumber = pb.Number
     omp.lastWeight = pb.Weight
     omp.finished.Add(pb.Hash, struct{}{})
   }
-- 
2.43.0


From 4e502b67d5a9b54d5c590ed09e00b87357013916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:47 +0000
Subject: [PATCH 44/53] fix: started without a last hash and with a small reorg
 threshold, blocks were emitted on top of blocks that are not their parents

---
 delivery/ordering.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/delivery/ordering.go b/delivery/ordering.go
index 459732d..6d131e1 100644
--- a/delivery/ordering.go
+++ b/delivery/ordering.go
@@ -210,7 +210,7 @@ func (omp *OrderedMessageProcessor) handlePendingBatch(pb *PendingBatch, reorg b
     log.Debug("Emitting next child")
     omp.prepareEmit([]*PendingBatch{pb}, []*PendingBatch{})
     return
-  } else if omp.initEmpty && omp.finished.Len() < 10 && !omp.finished.Contains(pb.ParentHash) {
+  } else if omp.initEmpty && omp.finished.Len() < 10 && int64(omp.finished.Len()) < omp.reorgThreshold * 2 && !omp.finished.Contains(pb.ParentHash) {
     // Initialized without a lastHash; emit the first several blocks we see
     log.Debug("Initialized without a lasthash")
     omp.prepareEmit([]*PendingBatch{pb}, []*PendingBatch{})
-- 
2.43.0


From de210984f1ef442e80f136e77ca7a7f4db00a5e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:59 +0000
Subject: [PATCH 45/53] fix: a producer that had just started could publish
 again the newest block of a partition

---
 transports/kafka.go | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/transports/kafka.go b/transports/kafka.go
index 876abee..f537fac 100644
--- a/transports/kafka.go
+++ b/transports/kafka.go
@@ -265,7 +265,7 @@ func NewKafkaProducer(brokerURL, defaultTopic string, schema map[string]string)
   if err != nil { return nil, err }
   partitions, err := consumer.Partitions(defaultTopic)
   if err != nil { return nil, err }
-  hashCh := make(chan types.Hash)
+  cache, _ := lru.New(4096)
   heartbeats := make(chan types.Hash)
   var readyWg sync.WaitGroup
   for _, partid := range partitions {
@@ -298,24 +298,24 @@ func NewKafkaProducer(brokerURL, defaultTopic string, schema map[string]string)
         select {
         case input := <-pc.Messages():
           if input == nil { break PARTITION_LOOP }
+          if len(input.Key) > 0 {
+            switch delivery.MessageType(input.Key[0]) {
+            case delivery.BatchType:
+              if len(input.Key) >= 33 { cache.Add(types.BytesToHash(input.Key[1:33]), struct{}{}) }
+            case delivery.PingType:
+              if !bytes.Equal(input.Key[1:], idBytes[:]) { // Ignore our own heartbeats
+                heartbeats <- types.BytesToHash(input.Key[1:])
+              }
+            }
+          }
+          // A block has to be known before we're ready, or it may be sent again
           if hwm := pc.HighWaterMarkOffset(); hwm - input.Offset <= 1 {
             once.Do(readyWg.Done)
           }
-          if len(input.Key) == 0 { continue PARTITION_LOOP }
-          switch delivery.MessageType(input.Key[0]) {
-          case delivery.BatchType:
-            if len(input.Key) < 33 { continue PARTITION_LOOP }
-            hashCh <- types.BytesToHash(input.Key[1:33])
-          case delivery.PingType:
-            if !bytes.Equal(input.Key[1:], idBytes[:]) { // Ignore our own heartbeats
-              heartbeats <- types.BytesToHash(input.Key[1:])
-            }
-          }
         }
       }
     }(partid, &readyWg)
   }
-  cache, _ := lru.New(4096)
   skipBatches, _ := lru.New(1024)
   kp := &KafkaProducer{dp: dp, producer: producer, reorgTopic: "", defaultTopic: defaultTopic, brokerURL: brokerURL, recentHashes: cache, skipBatches: skipBatches, pt: pt, healthy: 1}
   go func() {
@@ -327,8 +327,6 @@ func NewKafkaProducer(brokerURL, defaultTopic string, schema map[string]string)
         if atomic.LoadInt32(&kp.healthy) != 0 {
             producer.Input() <- &sarama.ProducerMessage{Topic: defaultTopic, Key: sarama.ByteEncoder(delivery.PingType.GetKey(idBytes[:])), Value: sarama.ByteEncoder(b)}
         }
-      case h := <-hashCh:
-        cache.Add(h, struct{}{})
       case h := <-heartbeats:
         kp.pt.update(h)
       }
-- 
2.43.0


From 513601e9be1f092075b4c242c5fe75398ae8e414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:39 +0000
Subject: [PATCH 46/53] fix: a request for offsets that failed at the wrong
 moment could keep a starting consumer or producer waiting for ever

---
 transports/kafka.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/transports/kafka.go b/transports/kafka.go
index f537fac..84041a9 100644
--- a/transports/kafka.go
+++ b/transports/kafka.go
@@ -279,8 +279,8 @@ func NewKafkaProducer(brokerURL, defaultTopic string, schema map[string]string)
       } else if offset == 0 {
         offset = sarama.OffsetNewest
         once.Do(readyWg.Done)
-      } else if oldest, err := client.GetOffset(defaultTopic, partid, sarama.OffsetOldest); err == nil && oldest == offset {
-        // Everything the partition held has been removed by retention
+      } else if oldest, err := client.GetOffset(defaultTopic, partid, sarama.OffsetOldest); err != nil || oldest == offset {
+        // Everything the partition held has been (or may have been) removed by retention
         once.Do(readyWg.Done)
       }
       offset -= 100
@@ -620,10 +620,17 @@ func (kc *KafkaConsumer) Start() (err error) {
       log.Info("Starting partition consumer", "topic", topic, "partition", partid, "offset", offset, "startOffset", startOffset)
       // A partition with no messages to catch up on must not hold back the others
       caughtUp := startOffset == sarama.OffsetNewest
-      if newest, err := kc.client.GetOffset(topic, partid, sarama.OffsetNewest); err == nil {
-        oldest, err := kc.client.GetOffset(topic, partid, sarama.OffsetOldest)
-        caughtUp = caughtUp || startOffset >= newest || (err == nil && oldest == newest)
+      newest, err := kc.client.GetOffset(topic, partid, sarama.OffsetNewest)
+      if err != nil {
+        pc.Close()
+        return err
+      }
+      oldest, err := kc.client.GetOffset(topic, partid, sarama.OffsetOldest)
+      if err != nil {
+        pc.Close()
+        return err
       }
+      caughtUp = caughtUp || startOffset >= newest || oldest == newest
       kc.shutdownWg.Add(1)
       dl.AddScale(len(partitionConsumers), startOffset)
       go func(pc sarama.PartitionConsumer, startOffset int64, partid int32, i int, topic string, caughtUp bool) {
-- 
2.43.0


From eeb33a4940829ba0c25694695c17680b23d81ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:54 +0000
Subject: [PATCH 47/53] fix: a consumer that followed a reorg read only the end
 of the reorg's topic

---
 transports/kafka.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/transports/kafka.go b/transports/kafka.go
index 84041a9..898ee0a 100644
--- a/transports/kafka.go
+++ b/transports/kafka.go
@@ -750,6 +750,7 @@ func (kc *KafkaConsumer) Start() (err error) {
               brokerURL: kc.brokerURL,
               topics: []string{fmt.Sprintf("%s-re-%x",  kc.defaultTopic, msg.Key()[1:])},
               resumption: make(map[string]int64),
+              rollback: -1, // All of its topic, whatever the start
               client: kc.client,
               isReorg: true,
               pt: kc.pt,
-- 
2.43.0


From 4082e805f7dd0bb6cd2a8a78c999799474144b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:54 +0000
Subject: [PATCH 48/53] fix: a reorg was taken to be complete before it began
 on its topic

---
 transports/kafka.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/transports/kafka.go b/transports/kafka.go
index 898ee0a..ce44f5a 100644
--- a/transports/kafka.go
+++ b/transports/kafka.go
@@ -570,6 +570,7 @@ func (kc *KafkaConsumer) Start() (err error) {
   // The partitions wait for each other, so they begin when all of them are known
   begin := make(chan struct{})
   failed := make(chan struct{})
+  following := kc.isReorg // The reorg is not complete
   defer func() {
     if err == nil { return }
     // Don't leave behind the partitions that could be opened
@@ -631,6 +632,8 @@ func (kc *KafkaConsumer) Start() (err error) {
         return err
       }
       caughtUp = caughtUp || startOffset >= newest || oldest == newest
+      // A reorg that was removed by retention will not complete
+      if oldest == newest && newest > 0 { following = false }
       kc.shutdownWg.Add(1)
       dl.AddScale(len(partitionConsumers), startOffset)
       go func(pc sarama.PartitionConsumer, startOffset int64, partid int32, i int, topic string, caughtUp bool) {
@@ -691,6 +694,8 @@ func (kc *KafkaConsumer) Start() (err error) {
       partitionConsumers = append(partitionConsumers, pc)
     }
   }
+  // A reorg is only ready when it is complete, even if it has yet to begin
+  if following { reorgWg.Add(1) }
   close(begin)
   partitionsReady := make(chan struct{})
   caughtUp := make(chan struct{})
@@ -711,7 +716,6 @@ func (kc *KafkaConsumer) Start() (err error) {
   go func() {
     partitionsReady := partitionsReady
     catchingUp := false
-    reorgs := 0 // Begun, but not complete
     readyWaiter := func() <-chan time.Time  {
       // Unless the partitions are ready and we are catching up, use a nil
       // channel, eliminating any possibility that this case will trigger, and
@@ -762,8 +766,6 @@ func (kc *KafkaConsumer) Start() (err error) {
             <-rekc.Ready()
             rekc.Close()
           } else {
-            reorgWg.Add(1)
-            reorgs++
             if err := kc.omp.ProcessMessage(msg); err != nil {
               log.Error("Error processing input:", "err", err, "key", input.Key, "msg", input.Value, "part", input.Partition, "offset", input.Offset)
             }
@@ -771,9 +773,9 @@ func (kc *KafkaConsumer) Start() (err error) {
         case delivery.PingType:
           heartbeats <- types.BytesToHash(msg.Key()[1:])
         case delivery.ReorgCompleteType:
-          // Reorgs complete once, and only if they began
-          if reorgs > 0 {
-            reorgs--
+          // Only the topic of a reorg completes, and only once
+          if following && strings.HasSuffix(kc.topics[0], fmt.Sprintf("-re-%x", msg.Key()[1:])) {
+            following = false
             reorgWg.Done()
           }
         default:
-- 
2.43.0


From ee1d36bada4d5029dd59da0cd5ae70384c7d7467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:55 +0000
Subject: [PATCH 49/53] fix: Close did not return while a reorg was incomplete

---
 transports/kafka.go | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/transports/kafka.go b/transports/kafka.go
index ce44f5a..eebe5a2 100644
--- a/transports/kafka.go
+++ b/transports/kafka.go
@@ -716,6 +716,13 @@ func (kc *KafkaConsumer) Start() (err error) {
   go func() {
     partitionsReady := partitionsReady
     catchingUp := false
+    shutdown := func() {
+      for _, c := range partitionConsumers {
+        c.Close()
+      }
+      kc.shutdownWg.Wait()
+      close(messages)
+    }
     readyWaiter := func() <-chan time.Time  {
       // Unless the partitions are ready and we are catching up, use a nil
       // channel, eliminating any possibility that this case will trigger, and
@@ -763,8 +770,13 @@ func (kc *KafkaConsumer) Start() (err error) {
               log.Error("Error following reorg:", "err", err, "topics", rekc.topics)
               continue
             }
-            <-rekc.Ready()
-            rekc.Close()
+            select {
+            case <-rekc.Ready():
+              rekc.Close()
+            case <-kc.quit:
+              rekc.Close()
+              go shutdown()
+            }
           } else {
             if err := kc.omp.ProcessMessage(msg); err != nil {
               log.Error("Error processing input:", "err", err, "key", input.Key, "msg", input.Value, "part", input.Partition, "offset", input.Offset)
@@ -806,13 +818,7 @@ func (kc *KafkaConsumer) Start() (err error) {
         catchingUp = false
         close(caughtUp)
       case <-kc.quit:
-        go func() {
-          for _, c := range partitionConsumers {
-            c.Close()
-          }
-          kc.shutdownWg.Wait()
-          close(messages)
-        }()
+        go shutdown()
       case <-hbTicker.C:
         hbGauge.Update(0)
       }
-- 
2.43.0


From dfcfb9ee8064b032770ffc25ab2a931304462be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:55 +0000
Subject: [PATCH 50/53] fix: a reorg was missed if a request failed when it was
 signalled

---
 transports/kafka.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/transports/kafka.go b/transports/kafka.go
index eebe5a2..012dfbc 100644
--- a/transports/kafka.go
+++ b/transports/kafka.go
@@ -766,7 +766,13 @@ func (kc *KafkaConsumer) Start() (err error) {
               isReorg: true,
               pt: kc.pt,
             }
-            if err := rekc.Start(); err != nil {
+            err := rekc.Start()
+            for tries := 0; err != nil && err != sarama.ErrUnknownTopicOrPartition && err != sarama.ErrInvalidTopic && tries < 10; tries++ {
+              // There is a topic, so don't miss the reorg for a request that failed
+              time.Sleep(time.Second)
+              err = rekc.Start()
+            }
+            if err != nil {
               log.Error("Error following reorg:", "err", err, "topics", rekc.topics)
               continue
             }
-- 
2.43.0


From 234746fae6a695b3f7d2df31fae123b0311ac9ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:30 +0000
Subject: [PATCH 51/53] fix: panic when a block's evicted child is looked for
 after a reorg

---
 delivery/ordering.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/delivery/ordering.go b/delivery/ordering.go
index 6d131e1..e36a35e 100644
--- a/delivery/ordering.go
+++ b/delivery/ordering.go
@@ -331,14 +331,17 @@ func (omp *OrderedMessageProcessor) getPendingChild(hash types.Hash) (types.Hash
   }
   max := new(big.Int)
   var maxChild types.Hash
+  found := false
   for child := range children {
+    if _, ok := omp.pending[child]; !ok { continue } // It has been evicted since
     td := omp.getPendingChainDifficulty(child)
-    if max.Cmp(td) < 0 {
+    if !found || max.Cmp(td) < 0 {
       max = td
       maxChild = child
+      found = true
     }
   }
-  return maxChild, true
+  return maxChild, found
 }
 
 // getPendingChainDifficulty returns the weight of the heaviest chain
-- 
2.43.0


From 2f1dddd52408d8215279e80032b35bd19c489d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:23 +0000
Subject: [PATCH 52/53] fix: blocks that were seen before a large reorg were
 not released after it

---
 delivery/ordering.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/delivery/ordering.go b/delivery/ordering.go
index e36a35e..53a80ba 100644
--- a/delivery/ordering.go
+++ b/delivery/ordering.go
@@ -26,6 +26,7 @@ type OrderedMessageProcessor struct {
   lastHash       types.Hash
   lastNumber     int64
   lastWeight     *big.Int
+  reorged        bool // There was a large reorg
   reorgThreshold int64
   pending        map[types.Hash]*PendingBatch
   queued         map[types.Hash]map[types.Hash]struct{}
@@ -200,7 +201,9 @@ func (omp *OrderedMessageProcessor) handlePendingBatch(pb *PendingBatch, reorg b
     return
   }
   omp.pending[pb.Hash] = pb
-  if omp.finished.Contains(pb.Hash) && !reorg {
+  // After a large reorg, the new chain may consist of blocks we had before.
+  resumed := omp.reorged && pb.ParentHash == omp.lastHash
+  if omp.finished.Contains(pb.Hash) && !reorg && !resumed {
     // We've already handled this block. Repeats should be rare, given how the
     // MessageProcessor works, but they could happen in edge cases, and we
     // should ignore them.
@@ -267,6 +270,7 @@ func (omp *OrderedMessageProcessor) queue(pb *PendingBatch) {
 }
 
 func (omp *OrderedMessageProcessor) HandleReorg(num int64, hash types.Hash) {
+  omp.reorged = true
   omp.lastHash = hash
   omp.lastNumber = num
   omp.reorgFeed.Send(map[int64]types.Hash{num: hash})
-- 
2.43.0


From ad6286d4f7ade3abffa92c5064ccdce6b0bbfcb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:46 +0000
Subject: [PATCH 53/53] fix: a key with '..' in it was counted below another
 prefix

The prefix of a message was looked for among the parents of the cleaned path,
so that 'a/../b/c' was counted below a prefix 'b/' that the batch also listed,
and the block was not released (or reconstruction failed).
---
 delivery/consumer.go | 38 +++++++++++++++++++++++++-------------
 1 file changed, 25 insertions(+), 13 deletions(-)

diff --git a/delivery/consumer.go b/delivery/consumer.go
index da5e562..dbdc585 100644
--- a/delivery/consumer.go
+++ b/delivery/consumer.go
@@ -165,19 +165,9 @@ func (pb *PendingBatch) DecPrefixCounter(p string) bool {
     pb.prefixes[p]--
     return true
   }
-  for d := p; d != "." && d != "/"; d = path.Dir(d) {
-    k := strings.TrimPrefix(d, "/") + "/"
-    if v, ok := pb.prefixes[k]; ok && v > 0 {
-      pb.prefixes[k]--
-      return true
-    } else if ok && v == 0 {
-      log.Error("Got a prefix match with none expected to remain. This message will likely fail to reconstruct.", "path", p, "prefix", k)
-      reconstructFailureCounter.Inc(1)
-      if pb.failedReconstructPanic {
-        panic(fmt.Sprintf("reconstruct failed on block %v", pb.Hash))
-      }
-      continue // If we got lucky, messsages arived in an order that will allow us to reconstruct if we search higher
-    }
+  // The prefixes are those of p as it stands, "a/../b/c" is not below "b/".
+  for i := strings.LastIndexByte(p, '/'); i >= 0; i = strings.LastIndexByte(p[:i], '/') {
+    if pb.decPrefix(p, p[:i + 1]) { return true }
   }
   // Prefixes don't have to end at a path separator. Look for the longest prefix
   // of p that the batch listed.
@@ -188,6 +178,28 @@ func (pb *PendingBatch) DecPrefixCounter(p string) bool {
       return true
     }
   }
+  for d := p; d != "." && d != "/"; d = path.Dir(d) {
+    k := strings.TrimPrefix(d, "/") + "/"
+    if strings.HasPrefix(p, k) { continue } // Already tried
+    if pb.decPrefix(p, k) { return true }
+  }
+  return false
+}
+
+// decPrefix decreases the counter of prefix k for p, if any message remains.
+func (pb *PendingBatch) decPrefix(p, k string) bool {
+  v, ok := pb.prefixes[k]
+  if ok && v > 0 {
+    pb.prefixes[k]--
+    return true
+  } else if ok && v == 0 {
+    // If we got lucky, messsages arived in an order that will allow us to reconstruct if we search higher
+    log.Error("Got a prefix match with none expected to remain. This message will likely fail to reconstruct.", "path", p, "prefix", k)
+    reconstructFailureCounter.Inc(1)
+    if pb.failedReconstructPanic {
+      panic(fmt.Sprintf("reconstruct failed on block %v", pb.Hash))
+    }
+  }
   return false
 }
 
-- 
2.43.0

