From d2aac76ca35478d7028a773554d7b1a278345582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:39 +0000
Subject: [PATCH 01/48] fix: ignore repeated prefix messages with an empty
 value

---
 delivery/consumer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/delivery/consumer.go b/delivery/consumer.go
index 00a5958..b48b4db 100644
--- a/delivery/consumer.go
+++ b/delivery/consumer.go
@@ -126,7 +126,7 @@ func (pb *PendingBatch) ApplyMessage(m ResumptionMessage) bool {
     return true
   case BatchMsgType:
     path := string(m.Key()[33:])
-    if v, ok := pb.Values[path]; ok && len(v) > 0 { return false } // Already set
+    if _, ok := pb.Values[path]; ok { return false } // Already set
     if pb.DecPrefixCounter(path) {
       // If this is false, we're not tracking this prefix and should ignore the message
       pb.Values[path] = m.Value()
-- 
2.43.0


From 3c1ded56680a0e1ad81ca4776a8a0b6c763c25af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:39 +0000
Subject: [PATCH 02/48] fix: keep inline updates that set a key to an empty
 value

---
 delivery/consumer.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/delivery/consumer.go b/delivery/consumer.go
index b48b4db..291517e 100644
--- a/delivery/consumer.go
+++ b/delivery/consumer.go
@@ -348,7 +348,9 @@ func (mp *MessageProcessor) ProcessMessage(m ResumptionMessage) error {
         }
       }
       if !match { continue } // Regardless of message type, if we're ignoring the prefix, skip this update
-      if len(update.Value) > 0 { mp.pendingBatches[hash].Values[prefix] = update.Value }
+      if len(update.Value) > 0 || (!update.Delete && update.Count == 0 && update.Subbatch == (types.Hash{})) {
+        mp.pendingBatches[hash].Values[prefix] = update.Value
+      }
       if update.Delete { mp.pendingBatches[hash].Deletes[prefix] = struct{}{} }
       if update.Count != 0 {
         mp.pendingBatches[hash].prefixes[prefix] = update.Count
-- 
2.43.0


From 720341e3dd730d44d496cdc92daed838f41d64fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:41 +0000
Subject: [PATCH 03/48] fix: find the prefix counter of keys that are not clean
 paths

path.Dir cleans the key, so keys with empty, '.' or '..' elements did not
find their prefix, and keys starting with a slash were searched forever.
---
 delivery/consumer.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/delivery/consumer.go b/delivery/consumer.go
index 291517e..a7387a8 100644
--- a/delivery/consumer.go
+++ b/delivery/consumer.go
@@ -2,7 +2,6 @@ package delivery
 
 import (
   "math/big"
-  "path"
   "strings"
   "github.com/hashicorp/golang-lru"
   "github.com/openrelayxyz/cardinal-types"
@@ -155,8 +154,8 @@ func (pb *PendingBatch) DecPrefixCounter(p string) bool {
     pb.prefixes[p]--
     return true
   }
-  for d := p; d != "."; d = path.Dir(d) {
-    k := strings.TrimPrefix(d, "/") + "/"
+  for i := strings.LastIndex(p, "/"); i >= 0; i = strings.LastIndex(p[:i], "/") {
+    k := p[:i+1]
     if v, ok := pb.prefixes[k]; ok && v > 0 {
       pb.prefixes[k]--
       return true
-- 
2.43.0


From f6e634036a2b4a8c7088f9664aaecd25307628a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:41 +0000
Subject: [PATCH 04/48] fix: anchor every alternative of a schema pattern

---
 delivery/producer.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/delivery/producer.go b/delivery/producer.go
index 270a22d..b139d60 100644
--- a/delivery/producer.go
+++ b/delivery/producer.go
@@ -30,10 +30,8 @@ func NewProducer(defaultTopic string, schema map[string]string) (*Producer, erro
     }
     exp, err := regexp.Compile(i)
     if err != nil { return nil, err }
-    if !strings.HasPrefix(i, "^") {
-      exp, err = regexp.Compile("^" + i)
-      if err != nil { return nil, err }
-    }
+    exp, err = regexp.Compile("^(?:" + i + ")")
+    if err != nil { return nil, err }
     s[counter] = regexpPair{topic: topic, regexp: exp}
     counter++
   }
-- 
2.43.0


From 64aadddb7b8d37945a64e34bc176534a289ab82b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:41 +0000
Subject: [PATCH 05/48] fix: do not announce the sub-batches of a rejected
 block

---
 delivery/producer.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/delivery/producer.go b/delivery/producer.go
index b139d60..5fa7219 100644
--- a/delivery/producer.go
+++ b/delivery/producer.go
@@ -100,6 +100,7 @@ func (p *Producer) AddBlock(number int64, hash, parentHash types.Hash, weight *b
     }
   }
   //Create batch messages
+  pendingBatches := make(map[types.Hash]*batchInfo)
   for k, h := range batches {
     if h == (types.Hash{}) {
       return nil, ErrInvalidBatch
@@ -116,12 +117,13 @@ func (p *Producer) AddBlock(number int64, hash, parentHash types.Hash, weight *b
         break
       }
     }
-    p.pendingBatches[h] = bi
+    pendingBatches[h] = bi
   }
   for k, c := range counts {
     if _, ok := b.Updates[k]; ok { return nil, ErrPrefixConflict }
     b.Updates[k] = BatchRecord{Count: c}
   }
+  for h, bi := range pendingBatches { p.pendingBatches[h] = bi }
   topicMessages[p.defaultTopic] = append(topicMessages[p.defaultTopic], &message{
       key: BatchType.GetKey(hash.Bytes()),
       value: b.EncodeAvro(),
-- 
2.43.0


From 66206095fc18133c6a9e013647874bf7e0a604fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:37 +0000
Subject: [PATCH 06/48] fix: reorg at the block the consumer resumed from

---
 delivery/ordering.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/delivery/ordering.go b/delivery/ordering.go
index 1d253ca..67f8cb5 100644
--- a/delivery/ordering.go
+++ b/delivery/ordering.go
@@ -351,8 +351,20 @@ func (omp *OrderedMessageProcessor) prepareReorg(newHead, oldHead *PendingBatch)
       return reverted, newBlocks, nil
     }
     reverted = append([]*PendingBatch{oldHead}, reverted...)
-    oldHead, _ = omp.pending[oldHead.ParentHash]
+    ancestorHash := oldHead.ParentHash
+    oldHead, _ = omp.pending[ancestorHash]
     if oldHead == nil {
+      // The common ancestor may be the block we resumed from, which isn't
+      // necessarily pending.
+      for newHead != nil && newHead.Number > reverted[0].Number {
+        if newHead = omp.pending[newHead.ParentHash]; newHead != nil {
+          newBlocks = append([]*PendingBatch{newHead}, newBlocks...)
+        }
+      }
+      if newBlocks[0].ParentHash == ancestorHash {
+        return reverted, newBlocks, nil
+      }
+      omp.queue(newBlocks[len(newBlocks) - 1])
       return reverted, newBlocks, fmt.Errorf("Reached genesis without finding common ancestor")
     }
   }
-- 
2.43.0


From 00d9b441284df84d67dec4264a93991bee3065e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:27 +0000
Subject: [PATCH 07/48] fix: keep every branch of a block in sight of later
 children

---
 delivery/ordering.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/delivery/ordering.go b/delivery/ordering.go
index 67f8cb5..00bfa27 100644
--- a/delivery/ordering.go
+++ b/delivery/ordering.go
@@ -211,6 +211,9 @@ func (omp *OrderedMessageProcessor) HandlePendingBatch(pb *PendingBatch, reorg b
       if pb, ok := omp.pending[child]; ok {
         omp.HandlePendingBatch(pb, true)
       }
+      // Any of the other pending descendants may still get children that make
+      // them the heavier branch.
+      omp.finishPendingChildren(pb.Hash)
       omp.queue(pb)
       return
     }
-- 
2.43.0


From 65787f5bbdbb9a6f097349726d7ca84ef75428c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:27 +0000
Subject: [PATCH 08/48] fix: announce reorgs with block numbers above 2^31

---
 delivery/consumer.go | 6 +++---
 delivery/producer.go | 4 ++--
 delivery/types.go    | 9 +++++++++
 3 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/delivery/consumer.go b/delivery/consumer.go
index a7387a8..46ad732 100644
--- a/delivery/consumer.go
+++ b/delivery/consumer.go
@@ -291,9 +291,9 @@ func (mp *MessageProcessor) ProcessMessage(m ResumptionMessage) error {
       return err
     }
     mp.oldBlocks = make(map[types.Hash]struct{})
-    var num int
-    if err := avro.Unmarshal(intSchema, m.Value(), &num); err != nil { return err }
-    mp.lastEmittedNum = int64(num)
+    var num int64
+    if err := avro.Unmarshal(longSchema, m.Value(), &num); err != nil { return err }
+    mp.lastEmittedNum = num
     mp.reorgFeed.Send(map[int64]types.Hash{mp.lastEmittedNum: hash})
     return nil
   }
diff --git a/delivery/producer.go b/delivery/producer.go
index 5fa7219..be20ae2 100644
--- a/delivery/producer.go
+++ b/delivery/producer.go
@@ -171,10 +171,10 @@ func (p *Producer) SendBatch(batchid types.Hash, deletes []string, update map[st
 // hash should correspond to the common ancestor between the two reorged
 // chains.
 func (p *Producer) Reorg(number int64, hash types.Hash) Message {
-  return &message{key: ReorgType.GetKey(hash.Bytes()), value: AvroInt(int(number))}
+  return &message{key: ReorgType.GetKey(hash.Bytes()), value: AvroLong(number)}
 }
 // ReorgDone should be called at the end of a large reorg, to indicate to the
 // consumer that all messages for the reorg are available
 func (p *Producer) ReorgDone(number int64, hash types.Hash) Message {
-  return &message{key: ReorgCompleteType.GetKey(hash.Bytes()), value: AvroInt(int(number))}
+  return &message{key: ReorgCompleteType.GetKey(hash.Bytes()), value: AvroLong(number)}
 }
diff --git a/delivery/types.go b/delivery/types.go
index ed11458..712b266 100644
--- a/delivery/types.go
+++ b/delivery/types.go
@@ -89,6 +89,7 @@ var (
     ]
   }`)
   intSchema = avro.MustParse("int")
+  longSchema = avro.MustParse("long")
 )
 
 
@@ -120,6 +121,14 @@ func AvroInt(b int) []byte {
   return data
 }
 
+// AvroLong encodes a block number. Values that fit an int are encoded as AvroInt does.
+func AvroLong(b int64) []byte {
+  data, err := avro.Marshal(longSchema, b)
+  // This shouldn't occcur unless there's a mismatch between the type and the avro schema, which should get caught in testing
+  if err != nil { panic(err.Error()) }
+  return data
+}
+
 type Message interface {
   Key() []byte
   Value() []byte
-- 
2.43.0


From e154c24c672f1c50cfaac62808f27dcd324e91e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:04 +0000
Subject: [PATCH 09/48] fix: handle batches and reorgs in the order they were
 processed

---
 delivery/consumer.go | 24 +++++++++++++++++++++---
 delivery/ordering.go | 23 ++++++++++-------------
 2 files changed, 31 insertions(+), 16 deletions(-)

diff --git a/delivery/consumer.go b/delivery/consumer.go
index 46ad732..63742eb 100644
--- a/delivery/consumer.go
+++ b/delivery/consumer.go
@@ -194,6 +194,7 @@ type MessageProcessor struct {
   feed            types.Feed
   reorgFeed       types.Feed
   waitFeed        types.Feed
+  eventFeed       types.Feed // Batches and reorgs, in the order they were processed
   resumption      map[string]int64
   evictCh         chan int64
   failedReconstructPanic bool
@@ -243,6 +244,23 @@ func (mp *MessageProcessor) SubscribeReorgs(ch chan <- map[int64]types.Hash) typ
   return mp.reorgFeed.Subscribe(ch)
 }
 
+// event is a completed batch or a reorg notification
+type event struct {
+  batch *PendingBatch
+  reorg map[int64]types.Hash
+}
+
+func (mp *MessageProcessor) emit(pb *PendingBatch) {
+  mp.feed.Send(pb)
+  mp.eventFeed.Send(event{batch: pb})
+}
+
+func (mp *MessageProcessor) emitReorg(num int64, hash types.Hash) {
+  reorg := map[int64]types.Hash{num: hash}
+  mp.reorgFeed.Send(reorg)
+  mp.eventFeed.Send(event{reorg: reorg})
+}
+
 func (mp *MessageProcessor) evictOlderThan(n int64) {
   select {
   case mp.evictCh <- n:
@@ -260,7 +278,7 @@ func (mp *MessageProcessor) ProcessCompleteBatch(pb *PendingBatch) {
 		Number: pb.Number,
 		WaitCh: pb.waitCh,
 	})
-	mp.feed.Send(pb)
+	mp.emit(pb)
 	mp.lastEmittedNum = pb.Number
 	mp.completed.Add(pb.Hash, struct{}{})
 	delete(mp.pendingBatches, pb.Hash)
@@ -294,7 +312,7 @@ func (mp *MessageProcessor) ProcessMessage(m ResumptionMessage) error {
     var num int64
     if err := avro.Unmarshal(longSchema, m.Value(), &num); err != nil { return err }
     mp.lastEmittedNum = num
-    mp.reorgFeed.Send(map[int64]types.Hash{mp.lastEmittedNum: hash})
+    mp.emitReorg(num, hash)
     return nil
   }
   if mp.completed.Contains(hash) { return nil }   // We've recently emitted this block
@@ -393,7 +411,7 @@ func (mp *MessageProcessor) ProcessMessage(m ResumptionMessage) error {
     mp.pendingBatches[hash].ApplyMessage(m)
   }
   if b, ok := mp.pendingBatches[hash] ; ok && b.Ready() {
-    mp.feed.Send(b)
+    mp.emit(b)
     mp.lastEmittedNum = b.Number
     mp.completed.Add(hash, struct{}{})
     delete(mp.pendingBatches, hash)
diff --git a/delivery/ordering.go b/delivery/ordering.go
index 00bfa27..9e02303 100644
--- a/delivery/ordering.go
+++ b/delivery/ordering.go
@@ -59,14 +59,19 @@ func NewOrderedMessageProcessor(cfg *ConsumerConfig) (*OrderedMessageProcessor,
     omp.evict(hash)
   })
   omp.finished.Add(cfg.LastHash, struct{}{})
-  ch := make(chan *PendingBatch, 100)
-  reorgCh := make(chan map[int64]types.Hash, 100)
-  sub := omp.mp.Subscribe(ch)
-  reorgSub := omp.mp.SubscribeReorgs(reorgCh)
+  // Batches and reorgs share a channel, so that they are handled in order
+  ch := make(chan event, 100)
+  sub := omp.mp.eventFeed.Subscribe(ch)
   go func() {
     for {
       select {
-      case pb := <-ch:
+      case ev := <-ch:
+        for num, hash := range ev.reorg {
+          omp.HandleReorg(num, hash)
+          break // There should never be more than 1 kv pair in this map
+        }
+        pb := ev.batch
+        if pb == nil { continue }
         lastBlock := cfg.LastEmittedNum
         if batch, ok := omp.pending[omp.lastHash]; ok {
           lastBlock = batch.Number
@@ -75,15 +80,8 @@ func NewOrderedMessageProcessor(cfg *ConsumerConfig) (*OrderedMessageProcessor,
         queuedGauge.Update(int64(len(omp.queued)))
         log.Debug("OMP Got Pending Batch", "blocknumber", pb.Number, "pending", len(omp.pending), "queued", len(omp.queued), "lastnum", lastBlock, "lasthash", omp.lastHash, "parent", pb.ParentHash, "hash", pb.Hash)
         omp.HandlePendingBatch(pb, false)
-      case reorg := <-reorgCh:
-        for num, hash := range reorg {
-          omp.HandleReorg(num, hash)
-          break // There should never be more than 1 kv pair in this map
-        }
       case err := <-sub.Err():
         log.Error("Subscription error", "err", err.Error())
-      case err := <-reorgSub.Err():
-        log.Error("Reorg subscription error", "err", err.Error())
       case <-time.After(250 * time.Millisecond):
         // If we've gone 250ms without any messages, see if there's a quit
         // message. This ensures we don't quit until we're done processing,
@@ -91,7 +89,6 @@ func NewOrderedMessageProcessor(cfg *ConsumerConfig) (*OrderedMessageProcessor,
         select {
         case <-omp.quit:
           sub.Unsubscribe()
-          reorgSub.Unsubscribe()
           return
         default:
         }
-- 
2.43.0


From 93b102bea827bbb5570325a55a530efcec851d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:43 +0000
Subject: [PATCH 10/48] fix: handle reverted blocks again after an announced
 reorg

---
 delivery/ordering.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/delivery/ordering.go b/delivery/ordering.go
index 9e02303..54aaad7 100644
--- a/delivery/ordering.go
+++ b/delivery/ordering.go
@@ -241,6 +241,19 @@ func (omp *OrderedMessageProcessor) queue(pb *PendingBatch) {
 func (omp *OrderedMessageProcessor) HandleReorg(num int64, hash types.Hash) {
   omp.lastHash = hash
   // omp.lastNumber = num
+  if pb, ok := omp.pending[hash]; ok { omp.lastWeight = pb.Weight }
+  // The blocks above the common ancestor have been reverted, so they need to be
+  // handled again if they come back.
+  for _, k := range omp.finished.Keys() {
+    h := k.(types.Hash)
+    if pb, ok := omp.pending[h]; ok && pb.Number > num {
+      delete(omp.pending, h)
+      delete(omp.queued[pb.ParentHash], h)
+      if len(omp.queued[pb.ParentHash]) == 0 { delete(omp.queued, pb.ParentHash) }
+      omp.finished.Remove(h)
+    }
+  }
+  omp.finished.Add(hash, struct{}{})
   omp.reorgFeed.Send(map[int64]types.Hash{num: hash})
 }
 
-- 
2.43.0


From 4f53bc21bf944c71caabb56b9d17b5d00304031b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:05 +0000
Subject: [PATCH 11/48] fix: reject malformed messages instead of crashing on
 them

---
 delivery/consumer.go |  5 +++
 delivery/errors.go   |  1 +
 delivery/validate.go | 90 ++++++++++++++++++++++++++++++++++++++++++++
 3 files changed, 96 insertions(+)
 create mode 100644 delivery/validate.go

diff --git a/delivery/consumer.go b/delivery/consumer.go
index 63742eb..4f3de9d 100644
--- a/delivery/consumer.go
+++ b/delivery/consumer.go
@@ -113,6 +113,10 @@ func (pb *PendingBatch) ApplyMessage(m ResumptionMessage) bool {
       pb.pendingMessages[string(m.Key())] = m
       return false
     }
+    if idx < 0 || idx >= len(pb.batches[batchid]) || string(m.Key()[65:]) != string(AvroInt(idx)) {
+      log.Error("Sub-batch message has an invalid index", "key", m.Key())
+      return true
+    }
     if pb.batches[batchid][idx] { return false } // Already have it, no updates
     update := &SubBatchRecord{}
     if err := avro.Unmarshal(updateSchema, m.Value(), &update); err != nil {
@@ -301,6 +305,7 @@ func (mp *MessageProcessor) ProcessMessage(m ResumptionMessage) error {
     }
   }
   mp.updateResumption(m.Source(), m.Offset())
+  if err := checkMessage(m.Key(), m.Value()); err != nil { return err }
   hash := types.BytesToHash(m.Key()[1:33])
   if MessageType(m.Key()[0]) == ReorgType {
     var err error
diff --git a/delivery/errors.go b/delivery/errors.go
index 8aff2ca..ecf3d61 100644
--- a/delivery/errors.go
+++ b/delivery/errors.go
@@ -10,4 +10,5 @@ var (
   ErrUnknownBatch = fmt.Errorf("unknown batch")
   ErrInvalidBatch = fmt.Errorf("invalid batch")
   ErrPrefixConflict = fmt.Errorf("deletes, updates, and batches cannot have prefix conflicts")
+  ErrMalformedMessage = fmt.Errorf("malformed message")
 )
diff --git a/delivery/validate.go b/delivery/validate.go
new file mode 100644
index 0000000..8ae03fb
--- /dev/null
+++ b/delivery/validate.go
@@ -0,0 +1,90 @@
+package delivery
+
+import (
+  "math"
+)
+
+// avroScanner walks over avro encoded data. The avro library reads missing data
+// as zeroes and trusts the lengths it finds, so messages from the outside are
+// checked before they are handed over to it.
+type avroScanner struct {
+  data []byte
+  bad bool
+}
+
+func (s *avroScanner) skip(n int64) {
+  if n < 0 || n > int64(len(s.data)) {
+    s.bad = true
+    n = int64(len(s.data))
+  }
+  s.data = s.data[n:]
+}
+
+func (s *avroScanner) long() int64 {
+  var v uint64
+  for shift := uint(0); shift < 64; shift += 7 {
+    if len(s.data) == 0 { break }
+    b := s.data[0]
+    s.data = s.data[1:]
+    v |= uint64(b & 0x7f) << shift
+    if b & 0x80 == 0 { return int64(v >> 1) ^ -int64(v & 1) }
+  }
+  s.bad = true
+  return 0
+}
+
+func (s *avroScanner) int() int64 {
+  v := s.long()
+  if v < math.MinInt32 || v > math.MaxInt32 { s.bad = true }
+  return v
+}
+
+func (s *avroScanner) bytes() { s.skip(s.long()) }
+
+// blocks goes through the items of an array or a map
+func (s *avroScanner) blocks(item func()) {
+  for n := s.long(); n != 0 && !s.bad; n = s.long() {
+    if n < 0 {
+      n = -n
+      s.long()
+    }
+    // Every item takes up some data
+    if n < 0 || n > int64(len(s.data)) { s.bad = true }
+    for ; n > 0 && !s.bad; n-- { item() }
+  }
+}
+
+// checkMessage verifies that a message has the key and value its type calls
+// for, as far as that can be told from the message alone.
+func checkMessage(key, value []byte) error {
+  if len(key) < 33 { return ErrMalformedMessage }
+  s := &avroScanner{data: value}
+  switch MessageType(key[0]) {
+  case BatchType:
+    s.bad = len(key) != 33
+    s.long()
+    s.bytes()
+    s.skip(32)
+    s.blocks(func() {
+      s.bytes()
+      s.bytes()
+      s.int()
+      s.skip(33)
+    })
+  case SubBatchHeaderType:
+    count := s.int()
+    s.bad = s.bad || len(key) != 65 || count < 0
+  case SubBatchMsgType:
+    s.bad = len(key) <= 65
+    s.blocks(s.bytes)
+    s.blocks(func() {
+      s.bytes()
+      s.bytes()
+    })
+  case ReorgType:
+    s.bad = len(key) != 33
+    s.long()
+  }
+  if s.bad { return ErrMalformedMessage }
+  return nil
+}
-- 
2.43.0


From 8428906e14791de0a5d4619b7b6b40132e6bee93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:03 +0000
Subject: [PATCH 12/48] fix: acknowledging a block from several goroutines at
 once panicked

---
 delivery/consumer.go | 11 +++++++++--
 delivery/ordering.go |  5 ++---
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/delivery/consumer.go b/delivery/consumer.go
index 4f3de9d..37f1d09 100644
--- a/delivery/consumer.go
+++ b/delivery/consumer.go
@@ -10,6 +10,7 @@ import (
   "github.com/hamba/avro"
   log "github.com/inconshreveable/log15"
   "regexp"
+  "sync"
   "fmt"
   "time"
 )
@@ -36,6 +37,7 @@ type PendingBatch struct {
   pendingBatches map[types.Hash]struct{}
   pendingMessages map[string]ResumptionMessage // Key -> Message
   waitCh chan struct{}
+  waitLock sync.Mutex
   time time.Time
   failedReconstructPanic bool
 }
@@ -73,9 +75,11 @@ func (pb *PendingBatch) Ready() bool {
 
 // Done should be called on a pending batch after it has been applied.
 func (pb *PendingBatch) Done() {
+  pb.waitLock.Lock()
   waitch := pb.waitCh
+  pb.waitCh = nil
+  pb.waitLock.Unlock()
   if waitch != nil {
-    pb.waitCh = nil
     close(waitch)
   }
   deltaTimerMinor.UpdateSince(pb.time)
@@ -273,14 +277,17 @@ func (mp *MessageProcessor) evictOlderThan(n int64) {
 }
 
 func (mp *MessageProcessor) ProcessCompleteBatch(pb *PendingBatch) {
+	pb.waitLock.Lock()
 	if pb.waitCh == nil {
 		pb.waitCh = make(chan struct{})
 	}
+	waitCh := pb.waitCh
+	pb.waitLock.Unlock()
 	mp.waitFeed.Send(&Waiter{
 		Hash: pb.Hash,
 		Parent: pb.ParentHash,
 		Number: pb.Number,
-		WaitCh: pb.waitCh,
+		WaitCh: waitCh,
 	})
 	mp.emit(pb)
 	mp.lastEmittedNum = pb.Number
diff --git a/delivery/ordering.go b/delivery/ordering.go
index 54aaad7..d320e85 100644
--- a/delivery/ordering.go
+++ b/delivery/ordering.go
@@ -129,9 +129,8 @@ func (c *ChainUpdate) Removed() []*PendingBatch {
 }
 
 func (c *ChainUpdate) Done() {
-  for _, pb := range append(c.added, c.removed...) {
-    pb.Done()
-  }
+  for _, pb := range c.added { pb.Done() }
+  for _, pb := range c.removed { pb.Done() }
 }
 
 // Subscribe enables subscribing to either oredred chain updates or unordered
-- 
2.43.0


From 3fa234cde79f7f076d538f5abd636f766e7b9f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:32 +0000
Subject: [PATCH 13/48] fix: waiters missed blocks acknowledged through another
 announcement

---
 waiter/waiter.go | 108 ++++++++++++++++++++++++++++-------------------
 1 file changed, 65 insertions(+), 43 deletions(-)

diff --git a/waiter/waiter.go b/waiter/waiter.go
index c5dc47f..6640b13 100644
--- a/waiter/waiter.go
+++ b/waiter/waiter.go
@@ -42,9 +42,16 @@ type Waiter interface {
     Stop()
 }
 
+// waitEntry is what calls waiting for a hash or number wait on.
+type waitEntry struct {
+    ch chan struct{}
+    closed bool
+    refs int // The announcements which still need this entry
+}
+
 type ompWaiter struct {
-    hashes map[types.Hash]chan struct{}
-    numbers map[int64]chan struct{}
+    hashes map[types.Hash]*waitEntry
+    numbers map[int64]*waitEntry
     lock sync.RWMutex
     sub types.Subscription
     ch chan *delivery.Waiter
@@ -53,56 +60,71 @@ type ompWaiter struct {
 func NewOmpWaiter(omp *delivery.OrderedMessageProcessor) Waiter {
     ch := make(chan *delivery.Waiter, 1024)
     w := &ompWaiter{
-        hashes: make(map[types.Hash]chan struct{}),
-        numbers: make(map[int64]chan struct{}),
+        hashes: make(map[types.Hash]*waitEntry),
+        numbers: make(map[int64]*waitEntry),
         sub: omp.Subscribe(ch),
         ch: ch,
     }
     go func() {
-        var nchLock sync.Mutex
         for pw := range ch {
+            // The same block may be announced several times (by different brokers, or again after
+            // a reorg), and each announcement has its own WaitCh, so the entries need channels
+            // of their own.
             w.lock.Lock()
-            w.hashes[pw.Hash] = pw.WaitCh
-            if _, ok := w.numbers[pw.Number]; !ok {
-                w.numbers[pw.Number] = make(chan struct{})
+            hash, ok := w.hashes[pw.Hash]
+            if !ok {
+                hash = &waitEntry{ch: make(chan struct{})}
+                w.hashes[pw.Hash] = hash
+            }
+            hash.refs++
+            number, ok := w.numbers[pw.Number]
+            if !ok {
+                number = &waitEntry{ch: make(chan struct{})}
+                w.numbers[pw.Number] = number
             }
-            go func(nch, hch chan struct{}, pw *delivery.Waiter) {
-                select {
-                case <-hch:
-                    // The hash channel delivered, close the number channel (safely)
-                    nchLock.Lock()
-                    select {
-                    case <-nch:
-                        // Another goroutine already closed the channel
-                    default:
-                        close(nch)
-                    }
-                    nchLock.Unlock()
-                    go func() {
-                        // Leave the closed channels in the maps for the next 60 seconds
-                        time.Sleep(60 * time.Second)
-                        w.lock.Lock()
-                        delete(w.numbers, pw.Number)
-                        delete(w.hashes, pw.Hash)
-                        w.lock.Unlock()
-                    }()
-                case <-nch:
-                    // The number channel delivered, the hash channel may never deliver
-                    go func() {
-                        // Leave the closed channels in the maps for the next 60 seconds
-                        time.Sleep(60 * time.Second)
-                        w.lock.Lock()
-                        delete(w.hashes, pw.Hash)
-                        w.lock.Unlock()
-                    }()
-                }
-            }(w.numbers[pw.Number], pw.WaitCh, pw)
+            number.refs++
             w.lock.Unlock()
+            go w.await(pw, hash, number)
         }
     }()
     return w
 }
 
+// await waits for an announced block to be processed.
+func (w *ompWaiter) await(pw *delivery.Waiter, hash, number *waitEntry) {
+    select {
+    case <-pw.WaitCh:
+    case <-number.ch:
+        // The number was delivered, the hash may never be
+        select {
+        case <-pw.WaitCh:
+        case <-time.After(60 * time.Second):
+            w.release(pw, hash, number)
+            return
+        }
+    }
+    w.lock.Lock()
+    for _, entry := range []*waitEntry{hash, number} {
+        if !entry.closed {
+            entry.closed = true
+            close(entry.ch)
+        }
+    }
+    w.lock.Unlock()
+    // Leave the closed channels in the maps for the next 60 seconds
+    time.Sleep(60 * time.Second)
+    w.release(pw, hash, number)
+}
+
+func (w *ompWaiter) release(pw *delivery.Waiter, hash, number *waitEntry) {
+    w.lock.Lock()
+    defer w.lock.Unlock()
+    hash.refs--
+    if hash.refs == 0 { delete(w.hashes, pw.Hash) }
+    number.refs--
+    if number.refs == 0 { delete(w.numbers, pw.Number) }
+}
+
 type WaitResult int
 
 const (
@@ -119,13 +141,13 @@ func (w *ompWaiter) WaitForHash(h types.Hash, timeout time.Duration) {
 func (w *ompWaiter) WaitForHashResult(h types.Hash, timeout time.Duration) WaitResult {
     runtime.Gosched() // Give other processes a chance to populate w.hashes
     w.lock.RLock()
-    ch, ok := w.hashes[h]
+    entry, ok := w.hashes[h]
     w.lock.RUnlock()
     if !ok {
         return NotFound
     }
     select {
-    case <-ch:
+    case <-entry.ch:
         return Success
     case <-time.After(timeout):
         return Timeout
@@ -140,13 +162,13 @@ func (w *ompWaiter) WaitForNumber(n int64, timeout time.Duration) {
 func (w *ompWaiter) WaitForNumberResult(n int64, timeout time.Duration) WaitResult {
     runtime.Gosched() // Give other processes a chance to populate w.numbers
     w.lock.RLock()
-    ch, ok := w.numbers[n]
+    entry, ok := w.numbers[n]
     w.lock.RUnlock()
     if !ok {
         return NotFound
     }
     select {
-    case <-ch:
+    case <-entry.ch:
         return Success
     case <-time.After(timeout):
         return Timeout
-- 
2.43.0


From 48defa88f050ee04fe00815327c859bf770d7693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:01 +0000
Subject: [PATCH 14/48] fix: take the highest possible latest block for an
 answer

---
 transports/resolver.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/transports/resolver.go b/transports/resolver.go
index ff309d2..0274445 100644
--- a/transports/resolver.go
+++ b/transports/resolver.go
@@ -238,6 +238,7 @@ func (mc *muxProducer) SetHealth(b bool) {
 
 func (mp *muxProducer) LatestBlockFromFeed() (int64, error) {
 	n := int64(9223372036854775807)
+	answered := false
 	var topErr error
 	for _, p := range mp.producers {
 		v, err := p.LatestBlockFromFeed()
@@ -245,11 +246,12 @@ func (mp *muxProducer) LatestBlockFromFeed() (int64, error) {
 			topErr = err
 			continue
 		}
-		if err == nil && v < n {
+		answered = true
+		if v < n {
 			n = v
 		}
 	}
-	if n < int64(9223372036854775807) {
+	if answered {
 		return n, nil
 	}
 	return 0, topErr
-- 
2.43.0


From 176679d7f137b093aebdd74e05472b2a203dba15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:11 +0000
Subject: [PATCH 15/48] fix: ignore block messages with a short key on the feed

---
 transports/kafka.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/transports/kafka.go b/transports/kafka.go
index 3c3272b..e94a304 100644
--- a/transports/kafka.go
+++ b/transports/kafka.go
@@ -288,6 +288,7 @@ func NewKafkaProducer(brokerURL, defaultTopic string, schema map[string]string)
           if len(input.Key) == 0 { continue PARTITION_LOOP }
           switch delivery.MessageType(input.Key[0]) {
           case delivery.BatchType:
+            if len(input.Key) < 33 { continue PARTITION_LOOP }
             hashCh <- types.BytesToHash(input.Key[1:33])
           case delivery.PingType:
             if !bytes.Equal(input.Key[1:], idBytes[:]) { // Ignore our own heartbeats
-- 
2.43.0


From 1281912ca7016099fadf7a86eada919c2cacba5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:19 +0000
Subject: [PATCH 16/48] fix: know the last blocks on the feed when a producer
 is ready

---
 transports/kafka.go | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/transports/kafka.go b/transports/kafka.go
index e94a304..b902bea 100644
--- a/transports/kafka.go
+++ b/transports/kafka.go
@@ -252,7 +252,7 @@ func NewKafkaProducer(brokerURL, defaultTopic string, schema map[string]string)
   if err != nil { return nil, err }
   partitions, err := consumer.Partitions(defaultTopic)
   if err != nil { return nil, err }
-  hashCh := make(chan types.Hash)
+  cache, _ := lru.New(4096)
   heartbeats := make(chan types.Hash)
   var readyWg sync.WaitGroup
   for _, partid := range partitions {
@@ -282,24 +282,27 @@ func NewKafkaProducer(brokerURL, defaultTopic string, schema map[string]string)
         select {
         case input := <-pc.Messages():
           if input == nil { break PARTITION_LOOP }
+          if len(input.Key) > 0 {
+            switch delivery.MessageType(input.Key[0]) {
+            case delivery.BatchType:
+              if len(input.Key) >= 33 {
+                cache.Add(types.BytesToHash(input.Key[1:33]), struct{}{})
+              }
+            case delivery.PingType:
+              if !bytes.Equal(input.Key[1:], idBytes[:]) { // Ignore our own heartbeats
+                heartbeats <- types.BytesToHash(input.Key[1:])
+              }
+            }
+          }
+          // Only once the message was taken into account, so that the last
+          // blocks on the feed are known when the producer is ready
           if hwm := pc.HighWaterMarkOffset(); hwm - input.Offset <= 1 {
             once.Do(readyWg.Done)
           }
-          if len(input.Key) == 0 { continue PARTITION_LOOP }
-          switch delivery.MessageType(input.Key[0]) {
-          case delivery.BatchType:
-            if len(input.Key) < 33 { continue PARTITION_LOOP }
-            hashCh <- types.BytesToHash(input.Key[1:33])
-          case delivery.PingType:
-            if !bytes.Equal(input.Key[1:], idBytes[:]) { // Ignore our own heartbeats
-              heartbeats <- types.BytesToHash(input.Key[1:])
-            }
-          }
         }
       }
     }(partid, &readyWg)
   }
-  cache, _ := lru.New(4096)
   skipBatches, _ := lru.New(1024)
   kp := &KafkaProducer{dp: dp, producer: producer, reorgTopic: "", defaultTopic: defaultTopic, brokerURL: brokerURL, recentHashes: cache, skipBatches: skipBatches, pt: pt, healthy: true}
   go func() {
@@ -311,8 +314,6 @@ func NewKafkaProducer(brokerURL, defaultTopic string, schema map[string]string)
         if kp.healthy {
             producer.Input() <- &sarama.ProducerMessage{Topic: defaultTopic, Key: sarama.ByteEncoder(delivery.PingType.GetKey(idBytes[:])), Value: sarama.ByteEncoder(b)}
         }
-      case h := <-hashCh:
-        cache.Add(h, struct{}{})
       case h := <-heartbeats:
         kp.pt.update(h)
       }
-- 
2.43.0


From 97c854c04915bdb02a2f4a6672f34b5bb3287607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:22 +0000
Subject: [PATCH 17/48] fix: count producers while heartbeats arrive

---
 transports/kafka.go | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/transports/kafka.go b/transports/kafka.go
index b902bea..7265c72 100644
--- a/transports/kafka.go
+++ b/transports/kafka.go
@@ -28,15 +28,26 @@ var (
   producerCount = metrics.NewMajorGauge("/streams/producers")
 )
 
-type pingTracker map[types.Hash]time.Time
+type pingTracker struct {
+  lock  sync.Mutex
+  pings map[types.Hash]time.Time
+}
+
+func newPingTracker() *pingTracker {
+  return &pingTracker{pings: make(map[types.Hash]time.Time)}
+}
 
-func (pt pingTracker) update(key types.Hash) {
-  pt[key] = time.Now()
+func (pt *pingTracker) update(key types.Hash) {
+  pt.lock.Lock()
+  defer pt.lock.Unlock()
+  pt.pings[key] = time.Now()
 }
 
-func (pt pingTracker) ProducerCount(d time.Duration) uint {
+func (pt *pingTracker) ProducerCount(d time.Duration) uint {
+  pt.lock.Lock()
+  defer pt.lock.Unlock()
   var count uint
-  for _, v := range pt {
+  for _, v := range pt.pings {
     if time.Since(v) < d {
       count++
     }
@@ -221,7 +232,7 @@ type KafkaProducer struct{
   brokerURL    string
   recentHashes *lru.Cache
   skipBatches  *lru.Cache
-  pt           pingTracker
+  pt           *pingTracker
   healthy      bool
 }
 
@@ -245,7 +256,7 @@ func NewKafkaProducer(brokerURL, defaultTopic string, schema map[string]string)
   if err != nil {
     return nil, err
   }
-  pt := make(pingTracker)
+  pt := newPingTracker()
   client, err := sarama.NewClient(brokers, config)
   if err != nil { return nil, err }
   consumer, err := sarama.NewConsumerFromClient(client)
@@ -471,7 +482,7 @@ type KafkaConsumer struct{
   shutdownWg   sync.WaitGroup
   isReorg      bool
   startHash    types.Hash
-  pt           pingTracker
+  pt           *pingTracker
   waiter       waiter.Waiter
 }
 
@@ -501,7 +512,7 @@ func kafkaConsumerWithOMP(omp *delivery.OrderedMessageProcessor, brokerURL, defa
     client: client,
     rollback: rollback,
     startHash: lastHash,
-    pt: make(pingTracker),
+    pt: newPingTracker(),
   }, nil
 }
 
-- 
2.43.0


From e46993212333b6949c8f3d82720753072a321388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:59 +0000
Subject: [PATCH 18/48] fix: read partitions only once all of them could be
 opened

---
 transports/kafka.go | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/transports/kafka.go b/transports/kafka.go
index 7265c72..00d0514 100644
--- a/transports/kafka.go
+++ b/transports/kafka.go
@@ -557,6 +557,17 @@ func (kc *KafkaConsumer) Start() error {
   messages := make(chan *sarama.ConsumerMessage, 512) // 512 is arbitrary. Worked for Flume, but may require tuning for Cardinal
   partitionConsumers := []sarama.PartitionConsumer{}
   heartbeats := make(chan types.Hash)
+  // The partitions are read once all of them could be opened. Otherwise the
+  // first ones might be through with warming up before the last are known.
+  readers := []func(){}
+  offsets := []int64{}
+  started := false
+  defer func() {
+    if started { return }
+    for _, c := range partitionConsumers {
+      c.AsyncClose()
+    }
+  }()
   for _, topic := range kc.topics {
     partitions, err := consumer.Partitions(topic)
     if err != nil { return err }
@@ -591,10 +602,9 @@ func (kc *KafkaConsumer) Start() error {
         startOffset = offset
       }
       log.Info("Starting partition consumer", "topic", topic, "partition", partid, "offset", offset, "startOffset", startOffset)
-      go func(pc sarama.PartitionConsumer, startOffset int64, partid int32, i int, topic string) {
-        kc.shutdownWg.Add(1)
+      partid, i, topic := partid, len(partitionConsumers), topic
+      readers = append(readers, func() {
         defer kc.shutdownWg.Done()
-        dl.AddScale(i, startOffset)
         var once sync.Once
         warm := false
         meter := metrics.NewMinorMeter(fmt.Sprintf("streams/kafka/%v/%v/meter", topic, partid))
@@ -625,10 +635,19 @@ func (kc *KafkaConsumer) Start() error {
           }
           messages <- input
         }
-      }(pc, startOffset, partid, len(partitionConsumers), topic)
+      })
+      offsets = append(offsets, startOffset)
       partitionConsumers = append(partitionConsumers, pc)
     }
   }
+  started = true
+  for i, offset := range offsets {
+    dl.AddScale(i, offset)
+  }
+  kc.shutdownWg.Add(len(readers))
+  for _, reader := range readers {
+    go reader()
+  }
   var readych chan time.Time
   readyWaiter := func() <-chan time.Time  {
     // If readych isn't ready to receive, use it as the sender, eliminating any
-- 
2.43.0


From ef01886f2b25797d2435269644bccfe63cb3386d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:14 +0000
Subject: [PATCH 19/48] fix: do not wait for partitions that have nothing to
 read

---
 transports/kafka.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/transports/kafka.go b/transports/kafka.go
index 00d0514..f8af288 100644
--- a/transports/kafka.go
+++ b/transports/kafka.go
@@ -601,12 +601,31 @@ func (kc *KafkaConsumer) Start() error {
         if err != nil { return err }
         startOffset = offset
       }
+      // A partition with nothing to read yet is caught up already. Waiting for
+      // its first message would hold back all other partitions.
+      firstOffset := startOffset
+      if firstOffset == sarama.OffsetOldest {
+        if oldest, err := kc.client.GetOffset(topic, partid, sarama.OffsetOldest); err == nil {
+          firstOffset = oldest
+        }
+      }
+      newest, err := kc.client.GetOffset(topic, partid, sarama.OffsetNewest)
+      caughtUp := firstOffset == sarama.OffsetNewest || (err == nil && firstOffset >= newest)
       log.Info("Starting partition consumer", "topic", topic, "partition", partid, "offset", offset, "startOffset", startOffset)
       partid, i, topic := partid, len(partitionConsumers), topic
       readers = append(readers, func() {
         defer kc.shutdownWg.Done()
         var once sync.Once
         warm := false
+        if caughtUp {
+          warm = true
+          warmupWg.Done()
+          once.Do(func() {
+            log.Debug("Partition ready", "topic", topic, "partition", partid)
+            dl.Done(i)
+            readyWg.Done()
+          })
+        }
         meter := metrics.NewMinorMeter(fmt.Sprintf("streams/kafka/%v/%v/meter", topic, partid))
         lagGauge := metrics.NewMinorGauge(fmt.Sprintf("streams/kafka/%v/%v/lag", topic, partid))
         for input := range pc.Messages() {
-- 
2.43.0


From 624ded7d0c56e720b461ea7ac5990c02e6924621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:15 +0000
Subject: [PATCH 20/48] fix: survive reorg messages without a readable reorg
 topic

---
 transports/kafka.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/transports/kafka.go b/transports/kafka.go
index f8af288..34a5731 100644
--- a/transports/kafka.go
+++ b/transports/kafka.go
@@ -578,7 +578,7 @@ func (kc *KafkaConsumer) Start() error {
       offset, ok := kc.resumption[k]
       var startOffset int64
       if !ok || offset < kc.rollback{
-        if kc.startHash == (types.Hash{}) && kc.rollback >= 0 {
+        if kc.startHash == (types.Hash{}) && kc.rollback >= 0 && !kc.isReorg {
           // An empty hash indicates an intention to start tracking the feed
           // now, so we should not add historical messages.
           offset, err = kc.client.GetOffset(topic, partid, sarama.OffsetNewest)
@@ -699,6 +699,7 @@ func (kc *KafkaConsumer) Start() error {
     hbGauge := metrics.NewMajorGauge("streams/kafka/heartbeat")
     hbGauge.Update(1)
     hbTicker := time.NewTicker(time.Minute)
+    reorgs := 0 // reorgs that are not complete
     for {
       select {
       case input, ok := <-messages:
@@ -725,11 +726,16 @@ func (kc *KafkaConsumer) Start() error {
               resumption: make(map[string]int64),
               client: kc.client,
               isReorg: true,
+              pt: kc.pt,
+            }
+            if err := rekc.Start(); err != nil {
+              log.Error("Error reading reorg:", "err", err, "topics", rekc.topics)
+              continue
             }
-            rekc.Start()
             <-rekc.Ready()
             rekc.Close()
           } else {
+            reorgs++
             reorgWg.Add(1)
             if err := kc.omp.ProcessMessage(msg); err != nil {
               log.Error("Error processing input:", "err", err, "key", input.Key, "msg", input.Value, "part", input.Partition, "offset", input.Offset)
@@ -738,7 +744,10 @@ func (kc *KafkaConsumer) Start() error {
         case delivery.PingType:
           heartbeats <- types.BytesToHash(msg.Key()[1:])
         case delivery.ReorgCompleteType:
-          reorgWg.Done()
+          if reorgs > 0 {
+            reorgs--
+            reorgWg.Done()
+          }
         default:
           if err := kc.omp.ProcessMessage(msg); err != nil {
             log.Error("Error processing input:", "err", err, "key", input.Key, "msg", input.Value, "part", input.Partition, "offset", input.Offset)
-- 
2.43.0


From 067a77ca1710d930918aa0df801def4ead82bf2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:43 +0000
Subject: [PATCH 21/48] fix: tell everyone who waits for a Kafka consumer that
 it is ready

---
 transports/kafka.go | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/transports/kafka.go b/transports/kafka.go
index 34a5731..ea23651 100644
--- a/transports/kafka.go
+++ b/transports/kafka.go
@@ -638,7 +638,9 @@ func (kc *KafkaConsumer) Start() error {
             warmupWg.Wait()
             warm = true
           }
-          if kc.ready != nil {
+          select {
+          case <-kc.ready:
+          default:
             if !kc.isReorg {
               dl.Step(i)
             }
@@ -689,9 +691,8 @@ func (kc *KafkaConsumer) Start() error {
     readych = nil
     reorgWg.Wait()
     log.Debug("Reorg waiter ready")
-    kc.ready <- struct{}{}
+    close(kc.ready)
     log.Debug("Ready sent")
-    kc.ready = nil
     dl.Close()
     delivery.Ready()
   }(&readyWg, &reorgWg)
@@ -765,7 +766,7 @@ func (kc *KafkaConsumer) Start() error {
         log.Debug("Drumline reset")
       case v := <- readyWaiter():
         // readyWaiter() will wait 1 second if readych is ready to receive ,
-        // which will trigger a message to get sent on kc.ready. This
+        // which will trigger kc.ready to get closed. This
         // should only trigger when we are totally caught up processing all the
         // messages currently available from Kafka. Before we reach the high
         // watermark and after this has triggered once, readyWaiter() will be a
@@ -802,10 +803,7 @@ func (kc *KafkaConsumer) ProducerCount(d time.Duration) uint {
 }
 
 func (kc *KafkaConsumer) Ready() <-chan struct{} {
-  if kc.ready != nil { return kc.ready }
-  r := make(chan struct{}, 1)
-  r <- struct{}{}
-  return r
+  return kc.ready
 }
 func (kc *KafkaConsumer) Subscribe(ch interface{}) types.Subscription {
   return kc.omp.Subscribe(ch)
-- 
2.43.0


From abd2543fe14218689efd0c6e7eeba986cfe86b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:43 +0000
Subject: [PATCH 22/48] fix: close Kafka consumers that were closed before or
 never started

---
 transports/kafka.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/transports/kafka.go b/transports/kafka.go
index ea23651..897bb6b 100644
--- a/transports/kafka.go
+++ b/transports/kafka.go
@@ -480,6 +480,7 @@ type KafkaConsumer struct{
   client       sarama.Client
   rollback     int64
   shutdownWg   sync.WaitGroup
+  closeOnce    sync.Once
   isReorg      bool
   startHash    types.Hash
   pt           *pingTracker
@@ -656,6 +657,10 @@ func (kc *KafkaConsumer) Start() error {
           }
           messages <- input
         }
+        if !warm {
+          // Closed before there was anything to read; the others need not wait
+          warmupWg.Done()
+        }
       })
       offsets = append(offsets, startOffset)
       partitionConsumers = append(partitionConsumers, pc)
@@ -700,6 +705,7 @@ func (kc *KafkaConsumer) Start() error {
     hbGauge := metrics.NewMajorGauge("streams/kafka/heartbeat")
     hbGauge.Update(1)
     hbTicker := time.NewTicker(time.Minute)
+    quit := kc.quit
     reorgs := 0 // reorgs that are not complete
     for {
       select {
@@ -733,7 +739,10 @@ func (kc *KafkaConsumer) Start() error {
               log.Error("Error reading reorg:", "err", err, "topics", rekc.topics)
               continue
             }
-            <-rekc.Ready()
+            select {
+            case <-rekc.Ready():
+            case <-kc.quit:
+            }
             rekc.Close()
           } else {
             reorgs++
@@ -775,7 +784,8 @@ func (kc *KafkaConsumer) Start() error {
         case readych <- v:
         default:
         }
-      case <-kc.quit:
+      case <-quit:
+        quit = nil
         go func() {
           for _, c := range partitionConsumers {
             c.Close()
@@ -812,7 +822,7 @@ func (kc *KafkaConsumer) SubscribeReorg(ch chan<- map[int64]types.Hash) types.Su
   return kc.omp.SubscribeReorg(ch)
 }
 func (kc *KafkaConsumer) Close() {
-  kc.quit <- struct{}{}
+  kc.closeOnce.Do(func() { close(kc.quit) })
   kc.shutdownWg.Wait()
 }
 func (kc *KafkaConsumer) WhyNotReady(hash types.Hash) string {
-- 
2.43.0


From af65f9d2cd69085ead38410e623a306452620076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:50 +0000
Subject: [PATCH 23/48] fix: connect consumers of cardinal://kafka:// URLs to
 the brokers they name

---
 transports/kafka.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transports/kafka.go b/transports/kafka.go
index 897bb6b..68fe31f 100644
--- a/transports/kafka.go
+++ b/transports/kafka.go
@@ -77,7 +77,7 @@ func (m *KafkaResumptionMessage) Time() time.Time {
 }
 
 func ParseKafkaURL(brokerURL string) ([]string, *sarama.Config) {
-  parsedURL, _ := url.Parse("kafka://" + strings.TrimPrefix(brokerURL, "kafka://"))
+  parsedURL, _ := url.Parse("kafka://" + strings.TrimPrefix(strings.TrimPrefix(brokerURL, "cardinal://"), "kafka://"))
   config := sarama.NewConfig()
   config.Version = sarama.V2_5_0_0
 
-- 
2.43.0


From 56ef0e76519d236ea23d7bee7893006bd8bef5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:10 +0000
Subject: [PATCH 24/48] fix: refuse broker URLs that cannot be parsed instead
 of panicking

---
 transports/kafka.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/transports/kafka.go b/transports/kafka.go
index 68fe31f..5277277 100644
--- a/transports/kafka.go
+++ b/transports/kafka.go
@@ -77,9 +77,13 @@ func (m *KafkaResumptionMessage) Time() time.Time {
 }
 
 func ParseKafkaURL(brokerURL string) ([]string, *sarama.Config) {
-  parsedURL, _ := url.Parse("kafka://" + strings.TrimPrefix(strings.TrimPrefix(brokerURL, "cardinal://"), "kafka://"))
   config := sarama.NewConfig()
   config.Version = sarama.V2_5_0_0
+  parsedURL, err := url.Parse("kafka://" + strings.TrimPrefix(strings.TrimPrefix(brokerURL, "cardinal://"), "kafka://"))
+  if err != nil {
+    log.Error("The broker URL cannot be parsed")
+    return nil, config // Without brokers, clients refuse to connect
+  }
 
   if parsedURL.Query().Get("tls") == "1" {
     config.Net.TLS.Enable = true
-- 
2.43.0


From de1fd2fb22fa10fcc2f0b826eaa3a2dd773ac010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:10 +0000
Subject: [PATCH 25/48] fix: ignore numbers of a broker URL that are too large
 for their option

---
 transports/kafka.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/transports/kafka.go b/transports/kafka.go
index 5277277..4fd1439 100644
--- a/transports/kafka.go
+++ b/transports/kafka.go
@@ -89,7 +89,7 @@ func ParseKafkaURL(brokerURL string) ([]string, *sarama.Config) {
     config.Net.TLS.Enable = true
   }
   if val := parsedURL.Query().Get("fetch.default"); val != "" {
-    fetchDefault, err := strconv.Atoi(val)
+    fetchDefault, err := strconv.ParseInt(val, 10, 32)
     if err != nil {
       log.Warn("fetch.default set, but not number", "fetch.default", val)
     } else {
@@ -125,7 +125,7 @@ func ParseKafkaURL(brokerURL string) ([]string, *sarama.Config) {
   } else {
     config.Producer.Retry.Max = 100
   }
-  if val, err := strconv.Atoi(parsedURL.Query().Get("request.required.acks")); err == nil {
+  if val, err := strconv.ParseInt(parsedURL.Query().Get("request.required.acks"), 10, 16); err == nil {
     config.Producer.RequiredAcks = sarama.RequiredAcks(val)
   } else {
     config.Producer.RequiredAcks = sarama.WaitForAll
-- 
2.43.0


From 975dae8cf1c2a7cd5550cfeb10e9a6fde4ba73e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:25 +0000
Subject: [PATCH 26/48] fix: let several brokers feed one stream at the same
 time

---
 delivery/consumer.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/delivery/consumer.go b/delivery/consumer.go
index 37f1d09..0f1a7e1 100644
--- a/delivery/consumer.go
+++ b/delivery/consumer.go
@@ -192,6 +192,7 @@ type prefixBatch struct {
 // to ensure blocks are emitted in something resembling a sensible order and
 // that reorgs are handled.
 type MessageProcessor struct {
+  lock            sync.Mutex // Several transports may feed the same processor
   lastEmittedNum  int64
   reorgThreshold  int64
   pendingBatches  map[types.Hash]*PendingBatch
@@ -277,6 +278,8 @@ func (mp *MessageProcessor) evictOlderThan(n int64) {
 }
 
 func (mp *MessageProcessor) ProcessCompleteBatch(pb *PendingBatch) {
+	mp.lock.Lock()
+	defer mp.lock.Unlock()
 	pb.waitLock.Lock()
 	if pb.waitCh == nil {
 		pb.waitCh = make(chan struct{})
@@ -297,6 +300,12 @@ func (mp *MessageProcessor) ProcessCompleteBatch(pb *PendingBatch) {
 
 // ProcessMessage takes in messages and assembles completed blocks of messages.
 func (mp *MessageProcessor) ProcessMessage(m ResumptionMessage) error {
+  mp.lock.Lock()
+  defer mp.lock.Unlock()
+  return mp.processMessage(m)
+}
+
+func (mp *MessageProcessor) processMessage(m ResumptionMessage) error {
   EVICTLOOP:
   for {
     select {
@@ -391,7 +400,7 @@ func (mp *MessageProcessor) ProcessMessage(m ResumptionMessage) error {
     if _, ok := mp.pendingMessages[hash]; ok {
       // We have some messages that arrived before the batch header. Process them now.
       for _, msg := range mp.pendingMessages[hash] {
-        if err := mp.ProcessMessage(msg); err != nil { return err }
+        if err := mp.processMessage(msg); err != nil { return err }
       }
       delete (mp.pendingMessages, hash)
     }
-- 
2.43.0


From 396959c06e373f652086d2929845fbe4f72f4c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:50 +0000
Subject: [PATCH 27/48] fix: tell everyone who waits for several brokers that
 they are ready

---
 transports/resolver.go | 41 ++++++++++++++++++-----------------------
 1 file changed, 18 insertions(+), 23 deletions(-)

diff --git a/transports/resolver.go b/transports/resolver.go
index 0274445..aa7c117 100644
--- a/transports/resolver.go
+++ b/transports/resolver.go
@@ -7,6 +7,7 @@ import (
   "regexp"
   "time"
   "strings"
+  "sync"
   "reflect"
   "github.com/openrelayxyz/cardinal-types"
   "github.com/openrelayxyz/cardinal-streams/v2/delivery"
@@ -124,6 +125,8 @@ type muxConsumer struct {
   omp       *delivery.OrderedMessageProcessor
   consumers []Consumer
   waiter    waiter.Waiter
+  ready     chan struct{}
+  readyOnce sync.Once
 }
 
 func (mc *muxConsumer) Waiter() waiter.Waiter {
@@ -175,31 +178,23 @@ func (mc *muxConsumer) Close() {
   }
 }
 
+// Ready returns a channel that is closed once any of the consumers is ready.
 func (mc *muxConsumer) Ready() <-chan struct{} {
-  ch := make(chan struct{})
-  // go func() {
-  //   for _, c := range mc.consumers {
-  //     select {
-  //     case <-c.Ready():
-  //       ch <- struct{}{}
-  //       return
-  //     }
-  //   }
-  // }()
-  // return ch
-
-  go func() {
-    channels := make([]reflect.SelectCase, len(mc.consumers))
-    for i, c := range mc.consumers {
-      channels[i] = reflect.SelectCase{
-        Dir: reflect.SelectRecv,
-        Chan: reflect.ValueOf(c.Ready()),
+  mc.readyOnce.Do(func() {
+    mc.ready = make(chan struct{})
+    go func() {
+      channels := make([]reflect.SelectCase, len(mc.consumers))
+      for i, c := range mc.consumers {
+        channels[i] = reflect.SelectCase{
+          Dir: reflect.SelectRecv,
+          Chan: reflect.ValueOf(c.Ready()),
+        }
       }
-    }
-    reflect.Select(channels)
-    ch <- struct{}{}
-  }()
-  return ch
+      reflect.Select(channels)
+      close(mc.ready)
+    }()
+  })
+  return mc.ready
 }
 
 func (mc *muxConsumer) WhyNotReady(h types.Hash) string {
-- 
2.43.0


From 8d7e74987a9a376cd3ea0c0a8d9f46e799db0739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:44 +0000
Subject: [PATCH 28/48] fix: send blocks that are published while a websocket
 client catches up

Streams subscribed to the feed only after the initial blocks had been sent,
so whatever was published between the lookup and the subscription never
reached the client. Subscribe first, and send what arrives in the meantime
after the initial blocks. One goroutine now owns the output channel.
---
 transports/websockets.go | 109 +++++++++++++++------------------------
 1 file changed, 41 insertions(+), 68 deletions(-)

diff --git a/transports/websockets.go b/transports/websockets.go
index 5db3081..9d85285 100644
--- a/transports/websockets.go
+++ b/transports/websockets.go
@@ -16,7 +16,6 @@ import (
 	"net/url"
 	"strconv"
 	"strings"
-	"sync"
 	"time"
 )
 
@@ -33,7 +32,6 @@ type websocketProducer struct {
 	feed types.Feed
 	resumer StreamsResumption
 	expectedBatches map[types.Hash]types.Hash
-	closemu sync.RWMutex
 }
 
 func (*websocketProducer) ProducerCount(time.Duration) uint {
@@ -121,7 +119,6 @@ func (p *websocketProducer) Service() interface{} {
 	return &websocketStreamsService{
 		feed: &p.feed,
 		resumer: p.resumer,
-		closemu: &p.closemu,
 	}
 }
 
@@ -137,7 +134,6 @@ func (p *websocketProducer) AddBlock(number int64, hash, parentHash types.Hash,
 	for k := range deletes {
 		deleteData = append(deleteData, k)
 	}
-	p.closemu.RLock()
 	p.feed.Send(&resultMessage{
 		Type: "batch",
 		Batch: &TransportBatch{
@@ -150,7 +146,6 @@ func (p *websocketProducer) AddBlock(number int64, hash, parentHash types.Hash,
 			Deletes: deleteData,
 		},
 	})
-	p.closemu.RUnlock()
 	for _, v := range batches {
 		p.expectedBatches[v] = hash
 	}
@@ -163,7 +158,6 @@ func (p *websocketProducer) SendBatch(batchid types.Hash, deletes []string, upda
 	for k, v := range updates {
 		updateData[k] = hexutil.Bytes(v)
 	}
-	p.closemu.RLock()
 	p.feed.Send(&resultMessage{
 		Type: "subbatch",
 		SubBatch: &transportSubbatch{
@@ -173,12 +167,10 @@ func (p *websocketProducer) SendBatch(batchid types.Hash, deletes []string, upda
 			Deletes: deletes,
 		},
 	})
-	p.closemu.RUnlock()
 	delete(p.expectedBatches, batchid)
 	return nil
 }
 func (p *websocketProducer) Reorg(number int64, hash types.Hash) (func(), error) {
-	p.closemu.RLock()
 	p.feed.Send(&resultMessage{
 		Type: "reorg",
 		Batch: &TransportBatch{
@@ -186,7 +178,6 @@ func (p *websocketProducer) Reorg(number int64, hash types.Hash) (func(), error)
 			Number: hexutil.Uint64(number),
 		},
 	})
-	p.closemu.RUnlock()
 	return func() {}, nil
 }
 func (*websocketProducer) PurgeReplayCache() {}
@@ -194,12 +185,15 @@ func (*websocketProducer) PurgeReplayCache() {}
 type websocketStreamsService struct {
 	feed *types.Feed
 	resumer StreamsResumption
-	closemu *sync.RWMutex
 }
 
 func (s *websocketStreamsService) StreamsBlock(ctx context.Context, number hexutil.Uint64) (*resultMessage, error) {
 	block := s.resumer.GetBlock(ctx, uint64(number))
 	if block == nil { return nil, fmt.Errorf("block not found") }
+	return batchMessage(block), nil
+}
+
+func batchMessage(block *delivery.PendingBatch) *resultMessage {
 	values := make(map[string]hexutil.Bytes)
 	deletes := make([]string, 0, len(block.Deletes))
 	for k, v := range block.Values {
@@ -219,75 +213,54 @@ func (s *websocketStreamsService) StreamsBlock(ctx context.Context, number hexut
 			Values: values,
 			Deletes: deletes,
 		},
-	}, nil
+	}
 }
 
 func (s *websocketStreamsService) Streams(ctx context.Context, number hexutil.Uint64, hash types.Hash) (<-chan *resultMessage, error) {
+	// Subscribe before looking up blocks, so that the blocks published in the
+	// meantime aren't lost.
+	live := make(chan *resultMessage, 1000)
+	sub := s.feed.Subscribe(live)
 	initBlocks, err := s.resumer.BlocksFrom(ctx, uint64(number), hash)
 	if err != nil {
+		sub.Unsubscribe()
 		return nil, err
 	}
-	subch := make(chan *resultMessage, 1000)
-	var sub types.Subscription
-	sub = &nullSubscription{}
-	var initwg sync.WaitGroup
-	initwg.Add(1)
-	go func() {
-		for block := range initBlocks {
-			values := make(map[string]hexutil.Bytes)
-			deletes := make([]string, 0, len(block.Deletes))
-			for k, v := range block.Values {
-				values[k] = hexutil.Bytes(v)
-			}
-			for k, _ := range block.Deletes {
-				deletes = append(deletes, k)
-			}
-            for len(subch) > 10 {
-                // If subch is getting backed up, wait before continuing to avoid high memory usage
-                // We need the buffer to be larger for when we transition to the active feed, because
-                // one blocking subscribe can delay the whole feed, but during initialization it's
-                // more likely that consumers won't be able to keep up with the stream than when
-                // blocks are received as they're validated.
-                if ctx.Err() != nil { break }
-                time.Sleep(10 * time.Millisecond)
-            }
-
-			subch <- &resultMessage{
-				Type: "batch",
-				Batch: &TransportBatch{
-					Number: hexutil.Uint64(uint64(block.Number)),
-					Weight: (*hexutil.Big)(block.Weight),
-					Hash: block.Hash,
-					ParentHash: block.ParentHash,
-					Batches: make(map[string]types.Hash),
-					Values: values,
-					Deletes: deletes,
-				},
-			}
-		}
-		if ctx.Err() == nil {
-			sub = s.feed.Subscribe(subch)
-			subch <- &resultMessage{
-				Type: "ready",
-			}
-		}
-		initwg.Done()
-	}()
+	subch := make(chan *resultMessage)
 	go func() {
+		defer close(subch)
+		defer sub.Unsubscribe()
+		// The initial blocks and the ready message go out before anything that
+		// came from the feed in the meantime.
+		var queue, backlog []*resultMessage
 		for {
+			in, feed, out := initBlocks, live, subch
+			var next *resultMessage
+			if len(queue) > 0 {
+				in, next = nil, queue[0]
+				if initBlocks == nil { feed = nil }
+			} else {
+				out = nil
+			}
 			select {
+			case block, ok := <-in:
+				if ok {
+					queue = append(queue, batchMessage(block))
+				} else {
+					initBlocks = nil
+					queue, backlog = append([]*resultMessage{{Type: "ready"}}, backlog...), nil
+				}
+			case msg := <-feed:
+				// While initial blocks are sent, the feed must not wait for this
+				// consumer, as that would delay all the others.
+				if initBlocks != nil {
+					backlog = append(backlog, msg)
+				} else {
+					queue = append(queue, msg)
+				}
+			case out <- next:
+				queue = queue[1:]
 			case <-ctx.Done():
-				initwg.Wait()
-				sub.Unsubscribe()
-				s.closemu.Lock()
-				close(subch)
-				s.closemu.Unlock()
-				return
-			case <-sub.Err():
-				sub.Unsubscribe()
-				s.closemu.Lock()
-				close(subch)
-				s.closemu.Unlock()
 				return
 			}
 		}
-- 
2.43.0


From ffe4ce4b64f86e1051a9da3237f76a284b83be4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:02 +0000
Subject: [PATCH 29/48] fix: do not resume websocket streams after blocks that
 are incomplete

Whenever a block was complete the stream was resumed after it, even if an
earlier block still waited for its subbatches. If the connection broke in
between, that block never reached the consumer.
---
 transports/websockets.go | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/transports/websockets.go b/transports/websockets.go
index 9d85285..50719e7 100644
--- a/transports/websockets.go
+++ b/transports/websockets.go
@@ -307,6 +307,20 @@ func (c *websocketConsumer) Start() error {
 			batches := make(map[types.Hash]*delivery.PendingBatch)
 			subbatches := make(map[types.Hash]*transportSubbatch)
 			pendingSubbatches := make(map[types.Hash]map[types.Hash]struct{})
+			// Batches in the order they arrived, starting with the first one that
+			// still waits for subbatches.
+			arrived := []*delivery.PendingBatch{}
+			complete := func(pb *delivery.PendingBatch) {
+				c.omp.ProcessCompleteBatch(pb)
+				for len(arrived) > 0 {
+					if _, ok := pendingSubbatches[arrived[0].Hash]; ok { break }
+					// Everything up to this batch was processed, so the stream can
+					// resume from here.
+					c.lastNum = hexutil.Uint64(arrived[0].Number)
+					c.lastHash = arrived[0].Hash
+					arrived = arrived[1:]
+				}
+			}
 			call, err := rpc.NewCall("cardinal_subscribe", "streams", c.lastNum, c.lastHash)
 			if err != nil {
 				log.Warn("Subscribe failed", "err", err)
@@ -394,6 +408,7 @@ func (c *websocketConsumer) Start() error {
 					for _, k := range item.Batch.Deletes {
 						pb.Deletes[k] = struct{}{}
 					}
+					arrived = append(arrived, pb)
 					pendingSubbatches[pb.Hash] = make(map[types.Hash]struct{})
 					for _, batchid := range item.Batch.Batches {
 						if sb, ok := subbatches[batchid]; ok {
@@ -411,9 +426,7 @@ func (c *websocketConsumer) Start() error {
 					}
 					if len(pendingSubbatches[pb.Hash]) == 0 {
 						delete(pendingSubbatches, pb.Hash)
-						c.omp.ProcessCompleteBatch(pb)
-						c.lastNum = hexutil.Uint64(pb.Number)
-						c.lastHash = pb.Hash
+						complete(pb)
 					}
 				case "subbatch":
 					pb, ok := batches[item.SubBatch.Hash]
@@ -432,9 +445,7 @@ func (c *websocketConsumer) Start() error {
 					if len(pendingSubbatches[item.SubBatch.Hash]) == 0 {
 						delete(pendingSubbatches, item.SubBatch.Hash)
 						delete(batches, item.SubBatch.Hash)
-						c.omp.ProcessCompleteBatch(pb)
-						c.lastNum = hexutil.Uint64(pb.Number)
-						c.lastHash = pb.Hash
+						complete(pb)
 					}
 				}
 			}
-- 
2.43.0


From 7e67aee23a02a2c0754c9486dca10fd445de0411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:02 +0000
Subject: [PATCH 30/48] fix: keep websocket messages that arrive before the
 subscription id

The server sends the id and the items of the stream from different
goroutines. Items that got ahead of the id were dropped.
---
 transports/websockets.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/transports/websockets.go b/transports/websockets.go
index 50719e7..8066cab 100644
--- a/transports/websockets.go
+++ b/transports/websockets.go
@@ -330,6 +330,7 @@ func (c *websocketConsumer) Start() error {
 			callData, _ := json.Marshal(call)
 			c.conn.WriteMessage(websocket.TextMessage, callData)
 			var subid *hexutil.Uint64
+			var early [][]byte
 			for subid == nil {
 				_, message, err := c.conn.ReadMessage()
 				if err != nil {
@@ -343,7 +344,10 @@ func (c *websocketConsumer) Start() error {
 					time.Sleep(time.Second)
 					continue
 				}
-				if string(response.ID) == string(call.ID) {
+				if len(response.ID) == 0 {
+					// The first items of the stream can arrive ahead of its id.
+					early = append(early, message)
+				} else if string(response.ID) == string(call.ID) {
 					idstring, ok := response.Result.(string)
 					if ok {
 						encodedid, err := hexutil.DecodeUint64(idstring)
@@ -365,8 +369,10 @@ func (c *websocketConsumer) Start() error {
 			default:
 			}
 			for {
-				_, message, err := c.conn.ReadMessage()
-				if err != nil {
+				var message []byte
+				if len(early) > 0 {
+					message, early = early[0], early[1:]
+				} else if _, message, err = c.conn.ReadMessage(); err != nil {
 					log.Debug("Read error. Resetting connection.", "err", err)
 					break
 				}
-- 
2.43.0


From a8270a56d650e3e2f73d9bf28953d86890c63bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:03 +0000
Subject: [PATCH 31/48] fix: try again when a websocket server does not grant a
 subscription

The consumer waited forever for another answer when the server answered
without a subscription id, for example because it could not look up blocks
yet.
---
 transports/websockets.go | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/transports/websockets.go b/transports/websockets.go
index 8066cab..01297fc 100644
--- a/transports/websockets.go
+++ b/transports/websockets.go
@@ -348,20 +348,23 @@ func (c *websocketConsumer) Start() error {
 					// The first items of the stream can arrive ahead of its id.
 					early = append(early, message)
 				} else if string(response.ID) == string(call.ID) {
-					idstring, ok := response.Result.(string)
-					if ok {
-						encodedid, err := hexutil.DecodeUint64(idstring)
-						if err != nil {
-							log.Warn("Invalid subscription id", "id", idstring, "err", err)
-							continue
-						}
-						x := hexutil.Uint64(encodedid)
-						subid = &x
+					idstring, _ := response.Result.(string)
+					encodedid, err := hexutil.DecodeUint64(idstring)
+					if err != nil {
+						log.Warn("Subscription refused. Resetting Connection.", "id", response.Result, "error", response.Error, "err", err)
+						time.Sleep(time.Second)
+						break
 					}
+					x := hexutil.Uint64(encodedid)
+					subid = &x
 				} else {
 					log.Warn("Unexpected response", "wanted", call.ID, "got", response.ID)
 				}
 			}
+			if subid == nil {
+				c.conn.Close()
+				continue
+			}
 			log.Info("Subscription established", "id", subid)
 			var notification rpc.SubscriptionResponseRaw
 			select {
-- 
2.43.0


From 3c5e3bcb5f4875c8bd1dd4f507b39334c612f12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:03 +0000
Subject: [PATCH 32/48] fix: ignore malformed messages of a websocket server

A message without the parts its type requires made the consumer panic, and
one that could not be decoded was handled like the message before it.
---
 transports/websockets.go | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/transports/websockets.go b/transports/websockets.go
index 01297fc..78551a0 100644
--- a/transports/websockets.go
+++ b/transports/websockets.go
@@ -45,6 +45,19 @@ type resultMessage struct {
 	SubBatch *transportSubbatch `json:"subbatch,omitempty"`
 }
 
+// valid indicates whether a message has the parts its type requires.
+func (m *resultMessage) valid() bool {
+	switch m.Type {
+	case "batch":
+		return m.Batch != nil && m.Batch.Weight != nil
+	case "reorg":
+		return m.Batch != nil
+	case "subbatch":
+		return m.SubBatch != nil
+	}
+	return true
+}
+
 type TransportBatch struct {
 	Number hexutil.Uint64 `json:"number"`
 	Weight *hexutil.Big `json:"weight"`
@@ -366,7 +379,6 @@ func (c *websocketConsumer) Start() error {
 				continue
 			}
 			log.Info("Subscription established", "id", subid)
-			var notification rpc.SubscriptionResponseRaw
 			select {
 			case connected <- struct{}{}:
 			default:
@@ -383,7 +395,11 @@ func (c *websocketConsumer) Start() error {
 					// Probably a ping message
 					continue
 				}
-				json.Unmarshal(message, &notification)
+				var notification rpc.SubscriptionResponseRaw
+				if err := json.Unmarshal(message, &notification); err != nil {
+					log.Warn("Server sent invalid json", "err", err, "message", string(message))
+					continue
+				}
 				if notification.Method != "cardinal_subscribe" {
 					log.Warn("Unexpected message on channel", "message", string(message))
 					continue
@@ -393,7 +409,10 @@ func (c *websocketConsumer) Start() error {
 					continue
 				}
 				var item resultMessage
-				json.Unmarshal(notification.Params.Result, &item)
+				if err := json.Unmarshal(notification.Params.Result, &item); err != nil || !item.valid() {
+					log.Warn("Server sent an invalid item", "err", err, "message", string(message))
+					continue
+				}
 				switch item.Type {
 				case "ready":
 					if !isReady {
-- 
2.43.0


From 2eac81c3b28f33f49ea1f79737ae21748b3d8590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:04 +0000
Subject: [PATCH 33/48] fix: handle reorgs of a websocket stream in order with
 its blocks

Blocks are handed to the goroutine of the OrderedMessageProcessor, but reorgs
were handled right away by the goroutine that reads from the connection: ahead
of blocks that had arrived before them, and concurrently with others.
---
 delivery/consumer.go     | 7 +++++++
 delivery/ordering.go     | 6 ++++++
 transports/websockets.go | 2 +-
 3 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/delivery/consumer.go b/delivery/consumer.go
index 0f1a7e1..31fac96 100644
--- a/delivery/consumer.go
+++ b/delivery/consumer.go
@@ -298,6 +298,13 @@ func (mp *MessageProcessor) ProcessCompleteBatch(pb *PendingBatch) {
 	delete(mp.pendingBatches, pb.Hash)
 }
 
+// ProcessReorg announces a reorg, after the batches that were processed before.
+func (mp *MessageProcessor) ProcessReorg(num int64, hash types.Hash) {
+	mp.lock.Lock()
+	defer mp.lock.Unlock()
+	mp.emitReorg(num, hash)
+}
+
 // ProcessMessage takes in messages and assembles completed blocks of messages.
 func (mp *MessageProcessor) ProcessMessage(m ResumptionMessage) error {
   mp.lock.Lock()
diff --git a/delivery/ordering.go b/delivery/ordering.go
index d320e85..b170332 100644
--- a/delivery/ordering.go
+++ b/delivery/ordering.go
@@ -153,6 +153,12 @@ func (omp *OrderedMessageProcessor) ProcessCompleteBatch(pb *PendingBatch) {
 	omp.mp.ProcessCompleteBatch(pb)
 }
 
+// ProcessReorg handles a reorg in order with the batches passed to
+// ProcessCompleteBatch.
+func (omp *OrderedMessageProcessor) ProcessReorg(num int64, hash types.Hash) {
+	omp.mp.ProcessReorg(num, hash)
+}
+
 func (omp *OrderedMessageProcessor) SubscribeReorg(ch chan<- map[int64]types.Hash) types.Subscription {
   return omp.reorgFeed.Subscribe(ch)
 }
diff --git a/transports/websockets.go b/transports/websockets.go
index 78551a0..a3958ac 100644
--- a/transports/websockets.go
+++ b/transports/websockets.go
@@ -420,7 +420,7 @@ func (c *websocketConsumer) Start() error {
 						close(c.ready)
 					}
 				case "reorg":
-					c.omp.HandleReorg(int64(item.Batch.Number), item.Batch.Hash)
+					c.omp.ProcessReorg(int64(item.Batch.Number), item.Batch.Hash)
 				case "batch":
 					pb := &delivery.PendingBatch{
 						Number: int64(item.Batch.Number),
-- 
2.43.0


From 3f24baedb76a79c1d43ca9f1013287c835437467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:05 +0000
Subject: [PATCH 34/48] fix: close websocket consumers that are not connected

Close panicked before the first connection was made. While a connection was
being made, the consumer started to read from it after it had been closed,
and Start waited for a connection even if the consumer had been closed.
---
 transports/websockets.go | 53 +++++++++++++++++++++++++++++++---------
 1 file changed, 41 insertions(+), 12 deletions(-)

diff --git a/transports/websockets.go b/transports/websockets.go
index a3958ac..aff0ec8 100644
--- a/transports/websockets.go
+++ b/transports/websockets.go
@@ -16,6 +16,7 @@ import (
 	"net/url"
 	"strconv"
 	"strings"
+	"sync"
 	"time"
 )
 
@@ -288,16 +289,17 @@ type websocketConsumer struct {
 	chainUpdates types.Feed
 	pendingBatches types.Feed
 	reorgs types.Feed
+	lock sync.Mutex // guards conn, and closing quit
 	conn *websocket.Conn
 	ready chan struct{}
-	quit bool
+	quit chan struct{}
 	lastNum hexutil.Uint64
 	lastHash types.Hash
     waiter waiter.Waiter
 }
 
 func newWebsocketConsumer(omp *delivery.OrderedMessageProcessor, url string, lastNum int64, lastHash types.Hash) (Consumer, error) {
-	return &websocketConsumer{url: strings.TrimPrefix(url, "cardinal://"), omp: omp, ready: make(chan struct{}), lastNum: hexutil.Uint64(lastNum), lastHash: lastHash}, nil
+	return &websocketConsumer{url: strings.TrimPrefix(url, "cardinal://"), omp: omp, ready: make(chan struct{}), quit: make(chan struct{}), lastNum: hexutil.Uint64(lastNum), lastHash: lastHash}, nil
 }
 
 func (*websocketConsumer) ProducerCount(time.Duration) uint {
@@ -305,18 +307,18 @@ func (*websocketConsumer) ProducerCount(time.Duration) uint {
 }
 
 func (c *websocketConsumer) Start() error {
-	var err error
 	connected := make(chan struct{}, 8)
 	isReady := false
 	go func() {
-		for !c.quit {
-			c.conn, _, err = websocket.DefaultDialer.Dial(c.url, nil)
+		for !c.closed() {
+			conn, _, err := websocket.DefaultDialer.Dial(c.url, nil)
 			if err != nil {
 				// If we can't connect, don't slam the server with connection attempts
 				log.Warn("Dial failed", "url", c.url, "error", err)
 				time.Sleep(time.Second)
 				continue
 			}
+			if !c.setConn(conn) { return }
 			batches := make(map[types.Hash]*delivery.PendingBatch)
 			subbatches := make(map[types.Hash]*transportSubbatch)
 			pendingSubbatches := make(map[types.Hash]map[types.Hash]struct{})
@@ -341,11 +343,11 @@ func (c *websocketConsumer) Start() error {
 				continue
 			}
 			callData, _ := json.Marshal(call)
-			c.conn.WriteMessage(websocket.TextMessage, callData)
+			conn.WriteMessage(websocket.TextMessage, callData)
 			var subid *hexutil.Uint64
 			var early [][]byte
 			for subid == nil {
-				_, message, err := c.conn.ReadMessage()
+				_, message, err := conn.ReadMessage()
 				if err != nil {
 					log.Warn("Read error. Resetting Connection.", "err", err)
 					time.Sleep(time.Second)
@@ -375,7 +377,7 @@ func (c *websocketConsumer) Start() error {
 				}
 			}
 			if subid == nil {
-				c.conn.Close()
+				conn.Close()
 				continue
 			}
 			log.Info("Subscription established", "id", subid)
@@ -387,7 +389,7 @@ func (c *websocketConsumer) Start() error {
 				var message []byte
 				if len(early) > 0 {
 					message, early = early[0], early[1:]
-				} else if _, message, err = c.conn.ReadMessage(); err != nil {
+				} else if _, message, err = conn.ReadMessage(); err != nil {
 					log.Debug("Read error. Resetting connection.", "err", err)
 					break
 				}
@@ -479,7 +481,10 @@ func (c *websocketConsumer) Start() error {
 			}
 		}
 	}()
-	<-connected
+	select {
+	case <-connected:
+	case <-c.quit:
+	}
 	return nil
 }
 func (c *websocketConsumer) Subscribe(ch interface{}) types.Subscription {
@@ -489,8 +494,32 @@ func (c *websocketConsumer) SubscribeReorg(ch chan<- map[int64]types.Hash) types
 	return c.omp.SubscribeReorg(ch)
 }
 func (c *websocketConsumer) Close() {
-	c.quit = true
-	c.conn.Close()
+	c.lock.Lock()
+	defer c.lock.Unlock()
+	if c.closed() { return }
+	close(c.quit)
+	if c.conn != nil { c.conn.Close() }
+}
+
+func (c *websocketConsumer) closed() bool {
+	select {
+	case <-c.quit:
+		return true
+	default:
+		return false
+	}
+}
+
+// setConn sets the current connection, unless the consumer was closed.
+func (c *websocketConsumer) setConn(conn *websocket.Conn) bool {
+	c.lock.Lock()
+	defer c.lock.Unlock()
+	if c.closed() {
+		conn.Close()
+		return false
+	}
+	c.conn = conn
+	return true
 }
 func (c *websocketConsumer) Ready() <-chan struct{} {
 	return c.ready
-- 
2.43.0


From ba677a9721ed662b0dd23f6293bc9cbc200370c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:55 +0000
Subject: [PATCH 35/48] fix: close the connections made to look up blocks and
 offsets

LatestBlockFromFeed and the lookup of offsets for a timestamp left a client
connected to the brokers on every call, and LatestBlockFromFeed kept reading
partitions on which no message was available.
---
 transports/kafka.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/transports/kafka.go b/transports/kafka.go
index 4fd1439..e2f2bba 100644
--- a/transports/kafka.go
+++ b/transports/kafka.go
@@ -423,8 +423,10 @@ func (kp *KafkaProducer) LatestBlockFromFeed() (int64, error) {
   brokerList, config := ParseKafkaURL(kp.brokerURL)
   client, err := sarama.NewClient(brokerList, config)
   if err != nil { return 0, err }
+  defer client.Close()
   consumer, err := sarama.NewConsumerFromClient(client)
   if err != nil { return 0, err }
+  defer consumer.Close()
   partitions, err := consumer.Partitions(kp.defaultTopic)
   if err != nil { return 0, err }
   var highestNumber int64
@@ -461,6 +463,7 @@ func (kp *KafkaProducer) LatestBlockFromFeed() (int64, error) {
         }
       case <-time.NewTimer(time.Second).C:
         log.Info("No messages available on partition", "topic", kp.defaultTopic, "partition", partid)
+        pc.Close()
         break PARTITION_LOOP
       }
     }
@@ -530,6 +533,7 @@ func kafkaResumptionForTimestamp(brokerURL string, topics []string, timestamp in
     log.Error("error connecting to brokers", "brokers", brokers)
     return nil, err
   }
+  defer client.Close()
   resumption := []string{}
   for _, topic := range topics {
     parts, err := client.Partitions(topic)
-- 
2.43.0


From 88e948e3f15a9d56a10c44b41ab6bde490db35bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:54 +0000
Subject: [PATCH 36/48] fix: report the items a sub-batch is waiting for

WhyNotReady reported blocks that were waiting for items of a sub-batch as
ready.
---
 delivery/consumer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/delivery/consumer.go b/delivery/consumer.go
index 31fac96..6af133e 100644
--- a/delivery/consumer.go
+++ b/delivery/consumer.go
@@ -96,7 +96,7 @@ func (pb *PendingBatch) whyNotReady() string {
   }
   for batchid, batch := range pb.batches {
     for i, b := range batch {
-      if !b { fmt.Sprintf("Pending batch '%#x'[%v]", batchid, i) }
+      if !b { return fmt.Sprintf("Pending batch '%#x'[%v]", batchid, i) }
     }
   }
   return "ready"
-- 
2.43.0


From 126aea5bd277cf561d43d6ed1539acaeda870d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:25 +0000
Subject: [PATCH 37/48] fix: let WhyNotReady be called while messages are
 processed

WhyNotReady read maps that the goroutines processing messages were changing,
which crashes the process.
---
 delivery/consumer.go | 23 +++++++++++++++++++++--
 delivery/ordering.go | 27 ++++++++++++++++++++++-----
 2 files changed, 43 insertions(+), 7 deletions(-)

diff --git a/delivery/consumer.go b/delivery/consumer.go
index 6af133e..2854acf 100644
--- a/delivery/consumer.go
+++ b/delivery/consumer.go
@@ -193,6 +193,7 @@ type prefixBatch struct {
 // that reorgs are handled.
 type MessageProcessor struct {
   lock            sync.Mutex // Several transports may feed the same processor
+  stateLock       sync.Mutex // Held while batches change, released while they are sent to subscribers
   lastEmittedNum  int64
   reorgThreshold  int64
   pendingBatches  map[types.Hash]*PendingBatch
@@ -260,16 +261,26 @@ type event struct {
 }
 
 func (mp *MessageProcessor) emit(pb *PendingBatch) {
+  mp.stateLock.Unlock()
+  defer mp.stateLock.Lock()
   mp.feed.Send(pb)
   mp.eventFeed.Send(event{batch: pb})
 }
 
 func (mp *MessageProcessor) emitReorg(num int64, hash types.Hash) {
+  mp.stateLock.Unlock()
+  defer mp.stateLock.Lock()
   reorg := map[int64]types.Hash{num: hash}
   mp.reorgFeed.Send(reorg)
   mp.eventFeed.Send(event{reorg: reorg})
 }
 
+func (mp *MessageProcessor) emitWaiter(w *Waiter) {
+  mp.stateLock.Unlock()
+  defer mp.stateLock.Lock()
+  mp.waitFeed.Send(w)
+}
+
 func (mp *MessageProcessor) evictOlderThan(n int64) {
   select {
   case mp.evictCh <- n:
@@ -280,13 +291,15 @@ func (mp *MessageProcessor) evictOlderThan(n int64) {
 func (mp *MessageProcessor) ProcessCompleteBatch(pb *PendingBatch) {
 	mp.lock.Lock()
 	defer mp.lock.Unlock()
+	mp.stateLock.Lock()
+	defer mp.stateLock.Unlock()
 	pb.waitLock.Lock()
 	if pb.waitCh == nil {
 		pb.waitCh = make(chan struct{})
 	}
 	waitCh := pb.waitCh
 	pb.waitLock.Unlock()
-	mp.waitFeed.Send(&Waiter{
+	mp.emitWaiter(&Waiter{
 		Hash: pb.Hash,
 		Parent: pb.ParentHash,
 		Number: pb.Number,
@@ -302,6 +315,8 @@ func (mp *MessageProcessor) ProcessCompleteBatch(pb *PendingBatch) {
 func (mp *MessageProcessor) ProcessReorg(num int64, hash types.Hash) {
 	mp.lock.Lock()
 	defer mp.lock.Unlock()
+	mp.stateLock.Lock()
+	defer mp.stateLock.Unlock()
 	mp.emitReorg(num, hash)
 }
 
@@ -309,6 +324,8 @@ func (mp *MessageProcessor) ProcessReorg(num int64, hash types.Hash) {
 func (mp *MessageProcessor) ProcessMessage(m ResumptionMessage) error {
   mp.lock.Lock()
   defer mp.lock.Unlock()
+  mp.stateLock.Lock()
+  defer mp.stateLock.Unlock()
   return mp.processMessage(m)
 }
 
@@ -359,7 +376,7 @@ func (mp *MessageProcessor) processMessage(m ResumptionMessage) error {
     //   return nil
     // }
     waitCh := make(chan struct{})
-    mp.waitFeed.Send(&Waiter{
+    mp.emitWaiter(&Waiter{
       Hash: b.Hash,
       Parent: b.ParentHash,
       Number: b.Number,
@@ -454,6 +471,8 @@ func (mp *MessageProcessor) queueMessage(hash types.Hash, m ResumptionMessage) {
 }
 
 func (mp *MessageProcessor) WhyNotReady(hash types.Hash) string {
+  mp.stateLock.Lock()
+  defer mp.stateLock.Unlock()
   if pb, ok := mp.pendingBatches[hash]; ok {
     return pb.whyNotReady()
   } else {
diff --git a/delivery/ordering.go b/delivery/ordering.go
index b170332..f6eca6b 100644
--- a/delivery/ordering.go
+++ b/delivery/ordering.go
@@ -3,6 +3,7 @@ package delivery
 import (
   "fmt"
   "math/big"
+  "sync"
   "github.com/openrelayxyz/cardinal-types"
   "github.com/openrelayxyz/cardinal-types/metrics"
   "github.com/hashicorp/golang-lru"
@@ -25,6 +26,7 @@ type OrderedMessageProcessor struct {
   lastHash       types.Hash
   lastWeight     *big.Int
   reorgThreshold int64
+  pendingLock    sync.RWMutex // For changes to pending, and for reading it in WhyNotReady
   pending        map[types.Hash]*PendingBatch
   queued         map[types.Hash]map[types.Hash]struct{}
   finished       *lru.Cache
@@ -100,7 +102,7 @@ func NewOrderedMessageProcessor(cfg *ConsumerConfig) (*OrderedMessageProcessor,
 
 func (omp *OrderedMessageProcessor) evict(hash types.Hash) {
   if pb, ok := omp.pending[hash]; ok {
-    delete(omp.pending, pb.Hash)
+    omp.removePending(pb.Hash)
     omp.mp.evictOlderThan(pb.Number)
     omp.evict(pb.ParentHash) // If the parent is still being tracked we can go ahead and get rid of it
     if children, ok := omp.queued[pb.Hash]; ok {
@@ -176,7 +178,7 @@ func (omp *OrderedMessageProcessor) HandlePendingBatch(pb *PendingBatch, reorg b
     omp.blacklist[pb.Hash] = struct{}{}
     return
   }
-  omp.pending[pb.Hash] = pb
+  omp.addPending(pb)
   if omp.finished.Contains(pb.Hash) && !reorg {
     // We've already handled this block. Repeats should be rare, given how the
     // MessageProcessor works, but they could happen in edge cases, and we
@@ -228,7 +230,7 @@ func (omp *OrderedMessageProcessor) HandlePendingBatch(pb *PendingBatch, reorg b
       // evicted
       if latestBlock := omp.pending[omp.lastHash]; latestBlock != nil && latestBlock.Number - pb.Number > omp.reorgThreshold {
         log.Info("OMP: Discarding old block", "current", latestBlock.Number, "received", pb.Number)
-        delete(omp.pending, pb.Hash)
+        omp.removePending(pb.Hash)
         return
       }
       omp.finished.Add(pb.Hash, struct{}{})
@@ -238,6 +240,18 @@ func (omp *OrderedMessageProcessor) HandlePendingBatch(pb *PendingBatch, reorg b
   }
 }
 
+func (omp *OrderedMessageProcessor) addPending(pb *PendingBatch) {
+  omp.pendingLock.Lock()
+  defer omp.pendingLock.Unlock()
+  omp.pending[pb.Hash] = pb
+}
+
+func (omp *OrderedMessageProcessor) removePending(hash types.Hash) {
+  omp.pendingLock.Lock()
+  defer omp.pendingLock.Unlock()
+  delete(omp.pending, hash)
+}
+
 func (omp *OrderedMessageProcessor) queue(pb *PendingBatch) {
   if _, ok := omp.queued[pb.ParentHash]; !ok { omp.queued[pb.ParentHash] = make(map[types.Hash]struct{}) }
   omp.queued[pb.ParentHash][pb.Hash] = struct{}{}
@@ -252,7 +266,7 @@ func (omp *OrderedMessageProcessor) HandleReorg(num int64, hash types.Hash) {
   for _, k := range omp.finished.Keys() {
     h := k.(types.Hash)
     if pb, ok := omp.pending[h]; ok && pb.Number > num {
-      delete(omp.pending, h)
+      omp.removePending(h)
       delete(omp.queued[pb.ParentHash], h)
       if len(omp.queued[pb.ParentHash]) == 0 { delete(omp.queued, pb.ParentHash) }
       omp.finished.Remove(h)
@@ -403,6 +417,9 @@ func (omp *OrderedMessageProcessor) Close() {
 
 func (omp *OrderedMessageProcessor) WhyNotReady(hash types.Hash) string {
   if omp.finished.Contains(hash) { return "done, not evicted" }
-  if _, ok := omp.pending[hash]; ok { return "pending parent" }
+  omp.pendingLock.RLock()
+  _, ok := omp.pending[hash]
+  omp.pendingLock.RUnlock()
+  if ok { return "pending parent" }
   return omp.mp.WhyNotReady(hash)
 }
-- 
2.43.0


From 0d2ec4b8fdab5d312ab3eaa29bbe5ae40bc0d715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:25 +0000
Subject: [PATCH 38/48] fix: let producers that start at the same time create
 the same topics

---
 transports/kafka.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/transports/kafka.go b/transports/kafka.go
index e2f2bba..fa105fe 100644
--- a/transports/kafka.go
+++ b/transports/kafka.go
@@ -218,7 +218,8 @@ func CreateTopicIfDoesNotExist(brokerAddr, topic string, numPartitions int32, co
       log.Error("Error creating topic", "error", err, "response", r)
       return err
     }
-    if err, _ := r.TopicErrors[topic]; err != nil && err.Err != sarama.ErrNoError {
+    // If the topic exists by now, somebody else created it since we looked
+    if err, _ := r.TopicErrors[topic]; err != nil && err.Err != sarama.ErrNoError && err.Err != sarama.ErrTopicAlreadyExists {
       log.Error("topic error", "err", err)
       return err
     }
-- 
2.43.0


From 0992f9513c2bc9fd101af1afcb1032f6cdc1e66e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:11 +0000
Subject: [PATCH 39/48] fix: report why a block is not ready from the processor
 the brokers share

A consumer of several brokers asked them one after the other and passed on the
first answer: "null" or "unknown" if the first is a null or a websocket
broker, whatever the block lacks.
---
 transports/resolver.go | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/transports/resolver.go b/transports/resolver.go
index aa7c117..3c5d4c8 100644
--- a/transports/resolver.go
+++ b/transports/resolver.go
@@ -198,12 +198,7 @@ func (mc *muxConsumer) Ready() <-chan struct{} {
 }
 
 func (mc *muxConsumer) WhyNotReady(h types.Hash) string {
-  for _, c := range mc.consumers {
-    if v := c.WhyNotReady(h); v != "" {
-      return v
-    }
-  }
-  return "no consumers to report"
+  return mc.omp.WhyNotReady(h)
 }
 
 
-- 
2.43.0


From 83bfb1039ba11fbcc7ce76ac01d033b3256ad2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:11 +0000
Subject: [PATCH 40/48] fix: report why a block is not ready on websocket
 consumers

They always answered "unknown"; the processor they hand blocks to knows.
---
 transports/websockets.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/transports/websockets.go b/transports/websockets.go
index aff0ec8..0e9e477 100644
--- a/transports/websockets.go
+++ b/transports/websockets.go
@@ -524,8 +524,8 @@ func (c *websocketConsumer) setConn(conn *websocket.Conn) bool {
 func (c *websocketConsumer) Ready() <-chan struct{} {
 	return c.ready
 }
-func (c *websocketConsumer) WhyNotReady(types.Hash) string {
-	return "unknown"
+func (c *websocketConsumer) WhyNotReady(hash types.Hash) string {
+	return c.omp.WhyNotReady(hash)
 }
 
 func (c *websocketConsumer) Waiter() waiter.Waiter {
-- 
2.43.0


From 8c28971a2b3191d1291559f421ccf359e1780c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:54 +0000
Subject: [PATCH 41/48] fix: read the other brokers while one cannot be reached

Starting a websocket consumer waits for its broker. A consumer of several
brokers started them one after the other, so an unreachable websocket broker
kept those behind it from being read, and Start from returning.
---
 transports/resolver.go | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/transports/resolver.go b/transports/resolver.go
index 3c5d4c8..45059b1 100644
--- a/transports/resolver.go
+++ b/transports/resolver.go
@@ -152,19 +152,26 @@ func (mc *muxConsumer) ProducerCount(d time.Duration) uint {
   return count
 }
 
+// Start starts all the consumers, and returns once one of them has started or
+// all of them have failed. A broker that cannot be reached, for which some
+// consumers wait, does not keep the others from being read.
 func (mc *muxConsumer) Start() error {
-  var consumerErrs int
+  errs := make(chan error, len(mc.consumers))
   for _, c := range mc.consumers {
-    err := c.Start() 
-    if err != nil { 
-      consumerErrs += 1
-      log.Error("Error received from call to consumer.start()", "consumer", c)
-    }
+    go func(c Consumer) {
+      err := c.Start()
+      if err != nil {
+        log.Error("Error received from call to consumer.start()", "err", err)
+      }
+      errs <- err
+    }(c)
   }
-  if consumerErrs == len(mc.consumers) {
-    return fmt.Errorf("All consumers returned an error")
+  for range mc.consumers {
+    if err := <-errs; err == nil {
+      return nil
+    }
   }
-  return nil
+  return fmt.Errorf("All consumers returned an error")
 }
 func (mc *muxConsumer) Subscribe(ch interface{}) types.Subscription {
   return mc.omp.Subscribe(ch)
-- 
2.43.0


From 1dac1d6d0c45295f238763288fc1100b94fba6b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:16 +0000
Subject: [PATCH 42/48] fix: build package utils against this module

It imported the transports of version 1, which go.mod does not name, so it could
not be built.
---
 utils/kafka.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/kafka.go b/utils/kafka.go
index 6f80839..999b8fd 100644
--- a/utils/kafka.go
+++ b/utils/kafka.go
@@ -2,7 +2,7 @@ package utils
 
 import (
 	"github.com/Shopify/sarama"
-	"github.com/openrelayxyz/cardinal-streams/transports"
+	"github.com/openrelayxyz/cardinal-streams/v2/transports"
 	"strings"
 )
 
-- 
2.43.0


From 536647fe92a45d5b72bf26c02eb656983051c5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:16 +0000
Subject: [PATCH 43/48] fix: disconnect topic consumers that are closed or
 cannot be created

Closing one left its client connected, and a goroutine per partition blocked
when nobody took the messages any more; so did the errors met after connecting.
---
 utils/kafka.go | 52 +++++++++++++++++++++++++++++++++++---------------
 1 file changed, 37 insertions(+), 15 deletions(-)

diff --git a/utils/kafka.go b/utils/kafka.go
index 999b8fd..fb5c304 100644
--- a/utils/kafka.go
+++ b/utils/kafka.go
@@ -4,6 +4,7 @@ import (
 	"github.com/Shopify/sarama"
 	"github.com/openrelayxyz/cardinal-streams/v2/transports"
 	"strings"
+	"sync"
 )
 
 // TopicConsumer consumes all of the partitions on a
@@ -16,32 +17,46 @@ type topicConsumer struct {
 	messages chan *sarama.ConsumerMessage
 	partitionConsumers []sarama.PartitionConsumer
 	consumer sarama.Consumer
+	client sarama.Client
+	quit chan struct{}
+	closeOnce sync.Once
 }
 
 func NewTopicConsumer(brokerURL, topic string, buffer int) (*topicConsumer, error) {
-	tc := &topicConsumer{}
+	tc := &topicConsumer{quit: make(chan struct{})}
 	brokers, config := transports.ParseKafkaURL(strings.TrimPrefix(brokerURL, "kafka://"))
-	client, err := sarama.NewClient(brokers, config)
+	var err error
+	tc.client, err = sarama.NewClient(brokers, config)
 	if err != nil {
 		return nil, err
 	}
-	tc.consumer, err = sarama.NewConsumerFromClient(client)
+	tc.consumer, err = sarama.NewConsumerFromClient(tc.client)
 	if err != nil {
+		tc.client.Close()
 		return nil, err
 	}
 	tc.messages = make(chan *sarama.ConsumerMessage, buffer) // 512 is arbitrary. Worked for Flume, but may require tuning for Cardinal
 	partitions, err := tc.consumer.Partitions(topic)
-	tc.partitionConsumers = make([]sarama.PartitionConsumer, len(partitions))
-	if err != nil { return nil, err }
-	for i, partid := range partitions {
+	if err != nil {
+		tc.Close()
+		return nil, err
+	}
+	for _, partid := range partitions {
 		pc, err := tc.consumer.ConsumePartition(topic, partid, sarama.OffsetNewest)
-		if err != nil { return nil, err }
-		go func(pc sarama.PartitionConsumer, i int) {
+		if err != nil {
+			tc.Close()
+			return nil, err
+		}
+		tc.partitionConsumers = append(tc.partitionConsumers, pc)
+		go func(pc sarama.PartitionConsumer) {
 			for input := range pc.Messages() {
-				tc.messages <- input
+				select {
+				case tc.messages <- input:
+				case <-tc.quit:
+					return
+				}
 			}
-		}(pc, len(tc.partitionConsumers))
-		tc.partitionConsumers[i] = pc
+		}(pc)
 	}
 	return tc, nil
 }
@@ -50,9 +65,16 @@ func (tc *topicConsumer) Messages() <-chan *sarama.ConsumerMessage {
 	return tc.messages
 }
 
+// Close stops reading and disconnects, and returns the first error it meets.
 func (tc *topicConsumer) Close() error {
-	for _, pc := range tc.partitionConsumers {
-		if err := pc.Close(); err != nil { return err }
-	}
-	return tc.consumer.Close()
+	var err error
+	tc.closeOnce.Do(func() {
+		close(tc.quit)
+		for _, pc := range tc.partitionConsumers {
+			if e := pc.Close(); e != nil && err == nil { err = e }
+		}
+		if e := tc.consumer.Close(); e != nil && err == nil { err = e }
+		if e := tc.client.Close(); e != nil && err == nil { err = e }
+	})
+	return err
 }
-- 
2.43.0


From 529bd303992dcfe369b88b3f1fbeb1dd99706efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:06 +0000
Subject: [PATCH 44/48] fix: leave nothing running when a Kafka consumer is
 closed

Each one left three goroutines behind, or one if it had become ready, and its
connection to the brokers; so did, except for the connection, the consumer that
reads a reorg's topic, for every reorg.
---
 transports/kafka.go | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/transports/kafka.go b/transports/kafka.go
index fa105fe..1b3c19f 100644
--- a/transports/kafka.go
+++ b/transports/kafka.go
@@ -670,6 +670,7 @@ func (kc *KafkaConsumer) Start() error {
           // Closed before there was anything to read; the others need not wait
           warmupWg.Done()
         }
+        once.Do(readyWg.Done) // or before it was caught up
       })
       offsets = append(offsets, startOffset)
       partitionConsumers = append(partitionConsumers, pc)
@@ -699,27 +700,39 @@ func (kc *KafkaConsumer) Start() error {
     // Wait until all partition consumers are up to the high water mark and alert the ready channel
     wg.Wait()
     log.Debug("Partitions ready")
+    if len(readers) > 0 { defer dl.Close() }
     readych = make(chan time.Time)
-    <-readych
+    select {
+    case <-readych:
+    case <-kc.quit:
+      return
+    }
     log.Debug("Ready")
     readych = nil
     reorgWg.Wait()
     log.Debug("Reorg waiter ready")
+    select {
+    case <-kc.quit:
+      return
+    default:
+    }
     close(kc.ready)
     log.Debug("Ready sent")
-    dl.Close()
     delivery.Ready()
   }(&readyWg, &reorgWg)
   go func() {
     hbGauge := metrics.NewMajorGauge("streams/kafka/heartbeat")
     hbGauge.Update(1)
     hbTicker := time.NewTicker(time.Minute)
+    defer hbTicker.Stop()
+    defer close(heartbeats)
     quit := kc.quit
     reorgs := 0 // reorgs that are not complete
     for {
       select {
       case input, ok := <-messages:
         if !ok {
+          reorgWg.Add(-reorgs)
           return
         }
         msg := &KafkaResumptionMessage{input}
@@ -808,11 +821,8 @@ func (kc *KafkaConsumer) Start() error {
     }
   }()
   go func() {
-    for {
-      select {
-      case h := <-heartbeats:
-        kc.pt.update(h)
-      }
+    for h := range heartbeats {
+      kc.pt.update(h)
     }
   }()
   return nil
@@ -833,6 +843,7 @@ func (kc *KafkaConsumer) SubscribeReorg(ch chan<- map[int64]types.Hash) types.Su
 func (kc *KafkaConsumer) Close() {
   kc.closeOnce.Do(func() { close(kc.quit) })
   kc.shutdownWg.Wait()
+  if !kc.isReorg && !kc.client.Closed() { kc.client.Close() }
 }
 func (kc *KafkaConsumer) WhyNotReady(hash types.Hash) string {
   return kc.omp.WhyNotReady(hash)
-- 
2.43.0


From 1743c40680c893bf1a614347f6f388c76f22a72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:35 +0000
Subject: [PATCH 45/48] fix: follow chains of blocks without weight

A block with a weight of 0 that had arrived ahead of its parent made the
consumer panic once the parent was there: it had a child pending, but none
heavier than nothing.
---
 delivery/ordering.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/delivery/ordering.go b/delivery/ordering.go
index f6eca6b..ba6bfeb 100644
--- a/delivery/ordering.go
+++ b/delivery/ordering.go
@@ -329,11 +329,11 @@ func (omp *OrderedMessageProcessor) getPendingChild(hash types.Hash) (types.Hash
   if !ok {
     return types.Hash{}, ok
   }
-  max := new(big.Int)
+  var max *big.Int
   var maxChild types.Hash
   for child := range children {
     td := omp.getPendingChainDifficulty(child)
-    if max.Cmp(td) < 0 {
+    if max == nil || max.Cmp(td) < 0 {
       max = td
       maxChild = child
     }
-- 
2.43.0


From 4f44aac531c5f5ea6df8688cd5f7a9df111d65ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:23 +0000
Subject: [PATCH 46/48] fix: let waiters be stopped more than once

Callers get the same waiter from a consumer; when a second one stopped it, it
panicked.
---
 waiter/waiter.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/waiter/waiter.go b/waiter/waiter.go
index 6640b13..01f4038 100644
--- a/waiter/waiter.go
+++ b/waiter/waiter.go
@@ -55,6 +55,7 @@ type ompWaiter struct {
     lock sync.RWMutex
     sub types.Subscription
     ch chan *delivery.Waiter
+    stopOnce sync.Once
 }
 
 func NewOmpWaiter(omp *delivery.OrderedMessageProcessor) Waiter {
@@ -176,6 +177,8 @@ func (w *ompWaiter) WaitForNumberResult(n int64, timeout time.Duration) WaitResu
 }
 
 func (w *ompWaiter) Stop() {
-    w.sub.Unsubscribe()
-    close(w.ch)
+    w.stopOnce.Do(func() {
+        w.sub.Unsubscribe()
+        close(w.ch)
+    })
 }
\ No newline at end of file
-- 
2.43.0


From eeb877500c82dca7b62aad02a9bc1f16fd3fc4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:38 +0000
Subject: [PATCH 47/48] fix: disconnect Kafka producers that cannot be created

When the connection to read the feed failed, the one to publish stayed open.
---
 transports/kafka.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/transports/kafka.go b/transports/kafka.go
index 1b3c19f..a0153c8 100644
--- a/transports/kafka.go
+++ b/transports/kafka.go
@@ -263,11 +263,22 @@ func NewKafkaProducer(brokerURL, defaultTopic string, schema map[string]string)
   }
   pt := newPingTracker()
   client, err := sarama.NewClient(brokers, config)
-  if err != nil { return nil, err }
+  if err != nil {
+    producer.Close()
+    return nil, err
+  }
   consumer, err := sarama.NewConsumerFromClient(client)
-  if err != nil { return nil, err }
+  if err != nil {
+    client.Close()
+    producer.Close()
+    return nil, err
+  }
   partitions, err := consumer.Partitions(defaultTopic)
-  if err != nil { return nil, err }
+  if err != nil {
+    client.Close()
+    producer.Close()
+    return nil, err
+  }
   cache, _ := lru.New(4096)
   heartbeats := make(chan types.Hash)
   var readyWg sync.WaitGroup
-- 
2.43.0


From b6f940b29aa81795e755dbb8445df34cde6608df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:29 +0000
Subject: [PATCH 48/48] fix: disconnect the other brokers of a consumer that
 cannot be created

---
 transports/resolver.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/transports/resolver.go b/transports/resolver.go
index 45059b1..d5e106e 100644
--- a/transports/resolver.go
+++ b/transports/resolver.go
@@ -101,7 +101,10 @@ func ResolveMuxConsumer(brokerParams []BrokerParams, resumption []byte, cfg *del
   }
   for _, bp := range brokerParams {
     c, err := resolveConsumer(omp, bp.URL, bp.DefaultTopic, bp.Topics, resumption, bp.Rollback, cfg.LastEmittedNum, cfg.LastHash, cfg.TrackedPrefixes)
-    if err != nil { return nil, err }
+    if err != nil {
+      mc.Close()
+      return nil, err
+    }
     mc.consumers = append(mc.consumers, c)
   }
   return mc, nil
-- 
2.43.0

