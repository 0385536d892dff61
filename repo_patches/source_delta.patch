From 7084fe6f54cf661e00c48fd92f257bdfcceec3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:06 +0000
Subject: [PATCH 01/27] fix: delete every message and the record of a deleted
 queue

The loop over the queue's messages returned after the first one, so a queue
that still had messages kept the rest of them and its own record, and came
back after a restart.
---
 pkg/queue/badger_priority_queue.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkg/queue/badger_priority_queue.go b/pkg/queue/badger_priority_queue.go
index dfec73c..640430e 100644
--- a/pkg/queue/badger_priority_queue.go
+++ b/pkg/queue/badger_priority_queue.go
@@ -225,8 +225,10 @@ func (bpq *BadgerPriorityQueue) Delete() error {
 
 		prefix := bpq.getMessagesPrefix()
 		for it.Seek(prefix); it.ValidForPrefix(prefix); it.Next() {
-			item := it.Item()
-			return txn.Delete(item.Key())
+			// KeyCopy: the key outlives the iteration step inside the transaction
+			if err := txn.Delete(it.Item().KeyCopy(nil)); err != nil {
+				return err
+			}
 		}
 
 		err := txn.Delete(bpq.GetQueueKey(bpq.config.Name))
-- 
2.43.0


From e02679b290459e7cb129552c123cef2a32a37d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:06 +0000
Subject: [PATCH 02/27] fix: keep queues apart whose names share a prefix up to
 a colon

Loading or deleting queue "a" also loaded or deleted the messages of "a:b".
---
 pkg/queue/badger_priority_queue.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/pkg/queue/badger_priority_queue.go b/pkg/queue/badger_priority_queue.go
index 640430e..97a4779 100644
--- a/pkg/queue/badger_priority_queue.go
+++ b/pkg/queue/badger_priority_queue.go
@@ -189,6 +189,13 @@ func (bpq *BadgerPriorityQueue) GetMessagesKey(id uint64) []byte {
 	return addPrefix(bpq.getMessagesPrefix(), uint64ToBytes(id))
 }
 
+// isMessageKey tells whether a key under the messages prefix is one of this
+// queue: the messages of a queue whose name starts with this queue's name and
+// a colon share the prefix, but their keys are longer.
+func (bpq *BadgerPriorityQueue) isMessageKey(key []byte) bool {
+	return len(key) == len(bpq.GetMessagesKey(0))
+}
+
 func (bpq *BadgerPriorityQueue) Create(queueType, queueName string) error {
 	bpq.mu.Lock()
 	defer bpq.mu.Unlock()
@@ -225,6 +232,9 @@ func (bpq *BadgerPriorityQueue) Delete() error {
 
 		prefix := bpq.getMessagesPrefix()
 		for it.Seek(prefix); it.ValidForPrefix(prefix); it.Next() {
+			if !bpq.isMessageKey(it.Item().Key()) {
+				continue
+			}
 			// KeyCopy: the key outlives the iteration step inside the transaction
 			if err := txn.Delete(it.Item().KeyCopy(nil)); err != nil {
 				return err
@@ -281,6 +291,9 @@ func (bpq *BadgerPriorityQueue) Load(queueName string, loadMessages bool) error
 			prefix := bpq.getMessagesPrefix()
 			for it.Seek(prefix); it.ValidForPrefix(prefix); it.Next() {
 				item := it.Item()
+				if !bpq.isMessageKey(item.Key()) {
+					continue
+				}
 				err := item.Value(func(val []byte) error {
 					msg, err := MessageFromBytes(val)
 					if err != nil {
-- 
2.43.0


From 4da8d5f366ea854a070014eba2827cab5e34e70c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:06 +0000
Subject: [PATCH 03/27] fix: order in-flight messages by the earliest
 redelivery deadline

With the latest deadline first, an expired message was not redelivered while
any newer message was in flight.
---
 pkg/queue/badger_priority_queue.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/queue/badger_priority_queue.go b/pkg/queue/badger_priority_queue.go
index 97a4779..944715d 100644
--- a/pkg/queue/badger_priority_queue.go
+++ b/pkg/queue/badger_priority_queue.go
@@ -82,7 +82,7 @@ func NewBadgerPriorityQueue(db *badger.DB, cfg *config.Config, metrics *Promethe
 	bpq := &BadgerPriorityQueue{
 		db:                db,
 		cfg:               cfg,
-		ackQueue:          NewDelayedPriorityQueue(false),
+		ackQueue:          NewDelayedPriorityQueue(true),
 		PrometheusMetrics: metrics,
 		stats:             NewQueueStats(cfg.Queue.QueueStats.WindowSide),
 	}
-- 
2.43.0


From 4fcd34ac8b863ba0ddbfd341b00f586f871225b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:06 +0000
Subject: [PATCH 04/27] fix: keep the redelivery deadline when an in-flight
 message's priority changes

The new priority was written over the deadline of the in-flight entry (and
into the ready heap's entry behind the heap's back, before the commit).
---
 pkg/queue/badger_priority_queue.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/pkg/queue/badger_priority_queue.go b/pkg/queue/badger_priority_queue.go
index 944715d..81a4cb1 100644
--- a/pkg/queue/badger_priority_queue.go
+++ b/pkg/queue/badger_priority_queue.go
@@ -478,8 +478,6 @@ func (bpq *BadgerPriorityQueue) UpdatePriority(id uint64, newPriority int64) err
 			return err
 		}
 
-		queueItem.UpdatePriority(newPriority)
-
 		return nil
 	})
 	if err != nil {
-- 
2.43.0


From 159c8929b4e8baffbef4fdc663be94ac6a722ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:38 +0000
Subject: [PATCH 05/27] fix: do not lose a message whose dequeue fails

The ready entry was popped before the storage transaction and not put back
when the transaction failed, a value that could not be read was ignored and
its record deleted, and the in-flight entry was added before the commit.
---
 pkg/queue/badger_priority_queue.go | 39 ++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 13 deletions(-)

diff --git a/pkg/queue/badger_priority_queue.go b/pkg/queue/badger_priority_queue.go
index 81a4cb1..7b90479 100644
--- a/pkg/queue/badger_priority_queue.go
+++ b/pkg/queue/badger_priority_queue.go
@@ -377,35 +377,48 @@ func (bpq *BadgerPriorityQueue) Dequeue(ack bool) (*Message, error) {
 			return err
 		}
 
-		item.Value(func(val []byte) error {
+		err = item.Value(func(val []byte) error {
 			msg, err = MessageFromBytes(val)
 			return err
 		})
+		if err != nil {
+			return err
+		}
 
 		if ack {
 			// in case of autoAck, we need to remove the message from the queue
 			return txn.Delete(bpq.GetMessagesKey(queueItem.ID))
-		} else {
-			// in case of manual ack, we need to keep the message in the queue
-			// so we can ack it later and add it to the ackQueue
-			bpq.ackQueue.Enqueue(
-				"default",
-				&Item{
-					ID: queueItem.ID,
-					Priority: time.Now().UTC().Add(
-						time.Duration(bpq.cfg.Queue.AcknowledgementTimeout) * time.Second,
-					).Unix(),
-				},
-			)
 		}
 
 		return nil
 	})
 
 	if err != nil {
+		if err != badger.ErrKeyNotFound {
+			// the message is still stored, so it has to stay deliverable
+			group := "default"
+			if msg != nil {
+				group = msg.Group
+			}
+			bpq.pq.Enqueue(group, queueItem)
+		}
 		return nil, err
 	}
 
+	if !ack {
+		// in case of manual ack, we need to keep the message in the queue
+		// so we can ack it later and add it to the ackQueue
+		bpq.ackQueue.Enqueue(
+			"default",
+			&Item{
+				ID: queueItem.ID,
+				Priority: time.Now().UTC().Add(
+					time.Duration(bpq.cfg.Queue.AcknowledgementTimeout) * time.Second,
+				).Unix(),
+			},
+		)
+	}
+
 	bpq.stats.IncrementDequeue()
 	if bpq.cfg.Prometheus.Enabled {
 		bpq.PrometheusMetrics.dequeueTotal.With(prometheus.Labels{"queue_name": bpq.config.Name}).Inc()
-- 
2.43.0


From 0c654dce393e5f55ccee1f0b4e1eb2a2ce2884fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:38 +0000
Subject: [PATCH 06/27] fix: keep a message in flight when its ack fails to
 commit

The in-flight entry was removed inside the storage transaction, so after a
failed commit the message was neither acknowledged nor ever redelivered.
---
 pkg/queue/badger_priority_queue.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/queue/badger_priority_queue.go b/pkg/queue/badger_priority_queue.go
index 7b90479..aabcb1d 100644
--- a/pkg/queue/badger_priority_queue.go
+++ b/pkg/queue/badger_priority_queue.go
@@ -514,13 +514,13 @@ func (bpq *BadgerPriorityQueue) Ack(id uint64) error {
 		if err != nil {
 			return err
 		}
-		bpq.ackQueue.DeleteByID("default", queueItem.ID)
 
 		return nil
 	})
 	if err != nil {
 		return err
 	}
+	bpq.ackQueue.DeleteByID("default", queueItem.ID)
 
 	bpq.stats.IncrementAck()
 	if bpq.cfg.Prometheus.Enabled {
-- 
2.43.0


From d6d9865e82b2215aaa873683c931d79cbed9adc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:38 +0000
Subject: [PATCH 07/27] fix: keep a queue that was loaded from storage

Every request after a restart loaded its own copy of the queue: messages in
flight could not be acknowledged, dequeue kept returning the same message, and
each copy left its background goroutines behind.
---
 pkg/queue/queue_manager.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/queue/queue_manager.go b/pkg/queue/queue_manager.go
index 7af8bf9..89272a0 100644
--- a/pkg/queue/queue_manager.go
+++ b/pkg/queue/queue_manager.go
@@ -114,7 +114,7 @@ func (qm *QueueManager) GetQueue(queueName string) (*BadgerPriorityQueue, error)
 		if err != nil {
 			return nil, ErrQueueNotFound
 		}
-		return q, nil
+		qm.queues[queueName] = q
 	}
 	return q, nil
 }
-- 
2.43.0


From 9c6c2d68d0257a0792db67f1c54b491b9f791664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:38 +0000
Subject: [PATCH 08/27] fix: do not queue a message twice when its enqueue is
 replayed

After a restart the raft log is replayed over a queue that may have been loaded
with the message already in it.
---
 pkg/queue/badger_priority_queue.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/queue/badger_priority_queue.go b/pkg/queue/badger_priority_queue.go
index aabcb1d..dd2e587 100644
--- a/pkg/queue/badger_priority_queue.go
+++ b/pkg/queue/badger_priority_queue.go
@@ -346,7 +346,12 @@ func (bpq *BadgerPriorityQueue) Enqueue(id uint64, group string, priority int64,
 		return msg, err
 	}
 
-	bpq.pq.Enqueue(msg.Group, queueItem)
+	if bpq.pq.GetByID(msg.Group, msg.ID) == nil {
+		bpq.pq.Enqueue(msg.Group, queueItem)
+	} else {
+		// the command is replayed for a message that was loaded from storage
+		bpq.pq.UpdatePriority(msg.Group, msg.ID, msg.Priority)
+	}
 
 	bpq.stats.IncrementEnqueue()
 
-- 
2.43.0


From 804d1cd9d52947fb4ccf081add032d4c7d6dea3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:38 +0000
Subject: [PATCH 09/27] fix: keep a message in flight when redelivery cannot
 read it

A failed read dropped the in-flight entry, so the message was not delivered
again before a restart.
---
 pkg/queue/badger_priority_queue.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/queue/badger_priority_queue.go b/pkg/queue/badger_priority_queue.go
index dd2e587..fd0b75a 100644
--- a/pkg/queue/badger_priority_queue.go
+++ b/pkg/queue/badger_priority_queue.go
@@ -151,6 +151,11 @@ func (bpq *BadgerPriorityQueue) monitorAckQueue() {
 				message, err := bpq.GetByID(item.ID)
 				if err != nil {
 					log.Error().Err(err).Msgf("Failed to get message by ID: %d", item.ID)
+					if err != badger.ErrKeyNotFound {
+						// the message is still stored, try again at the next tick
+						bpq.ackQueue.Enqueue("default", item)
+						break
+					}
 					continue
 				}
 
-- 
2.43.0


From 5751bf62a0fd7e933636273fdd397abdb0fdee62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:38 +0000
Subject: [PATCH 10/27] fix: stop the tickers of deleted queues and closed
 streams

---
 pkg/grpc/server.go                 | 1 +
 pkg/queue/badger_priority_queue.go | 1 +
 2 files changed, 2 insertions(+)

diff --git a/pkg/grpc/server.go b/pkg/grpc/server.go
index c0d7497..dda6e15 100644
--- a/pkg/grpc/server.go
+++ b/pkg/grpc/server.go
@@ -199,6 +199,7 @@ func (s *QueueServer) DequeueStream(req *pb.DequeueRequest, stream pb.DOQ_Dequeu
 	defer s.unregisterConsumer(req.QueueName, consumerID)
 
 	ticker := time.NewTicker(1 * time.Second)
+	defer ticker.Stop()
 
 	// Stream messages to the consumer
 	for {
diff --git a/pkg/queue/badger_priority_queue.go b/pkg/queue/badger_priority_queue.go
index fd0b75a..0f8dbdb 100644
--- a/pkg/queue/badger_priority_queue.go
+++ b/pkg/queue/badger_priority_queue.go
@@ -138,6 +138,7 @@ func (bpq *BadgerPriorityQueue) monitorAckQueue() {
 	ticker := time.NewTicker(
 		time.Duration(bpq.cfg.Queue.AcknowledgementCheckInterval) * time.Second,
 	)
+	defer ticker.Stop()
 
 	for {
 		select {
-- 
2.43.0


From 564129b15a7b854baf1ede55220c179202350933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:14 +0000
Subject: [PATCH 11/27] fix: make queue operations atomic with background
 redelivery

Redelivery moved expired messages between the in-flight and the ready queue
while an ack, nack or priority change for the same message was between its own
steps, which left a ready entry without a message, or two for one message.
---
 pkg/queue/badger_priority_queue.go | 74 ++++++++++++++++++++----------
 1 file changed, 51 insertions(+), 23 deletions(-)

diff --git a/pkg/queue/badger_priority_queue.go b/pkg/queue/badger_priority_queue.go
index 0f8dbdb..045e86c 100644
--- a/pkg/queue/badger_priority_queue.go
+++ b/pkg/queue/badger_priority_queue.go
@@ -107,6 +107,9 @@ func (bpq *BadgerPriorityQueue) Init(queueType, queueName string) error {
 }
 
 func (bpq *BadgerPriorityQueue) GetStats() *QueueInfo {
+	bpq.mu.Lock()
+	defer bpq.mu.Unlock()
+
 	return &QueueInfo{
 		Name:    bpq.config.Name,
 		Type:    bpq.config.Type,
@@ -143,34 +146,44 @@ func (bpq *BadgerPriorityQueue) monitorAckQueue() {
 	for {
 		select {
 		case <-ticker.C:
-			for {
-				item := bpq.ackQueue.Dequeue()
-				if item == nil {
-					break
-				}
+			bpq.requeueExpired()
+		case <-bpq.ackQueueMonitoringChan:
+			return
+		}
+	}
+}
 
-				message, err := bpq.GetByID(item.ID)
-				if err != nil {
-					log.Error().Err(err).Msgf("Failed to get message by ID: %d", item.ID)
-					if err != badger.ErrKeyNotFound {
-						// the message is still stored, try again at the next tick
-						bpq.ackQueue.Enqueue("default", item)
-						break
-					}
-					continue
-				}
+// requeueExpired moves the messages whose acknowledgement is overdue back to the
+// ready queue. It holds the lock so that no other operation sees a message that
+// is on its way from one queue to the other.
+func (bpq *BadgerPriorityQueue) requeueExpired() {
+	bpq.mu.Lock()
+	defer bpq.mu.Unlock()
 
-				queueItem := &Item{
-					ID:       message.ID,
-					Priority: message.Priority,
-				}
+	for {
+		item := bpq.ackQueue.Dequeue()
+		if item == nil {
+			break
+		}
 
-				bpq.pq.Enqueue(message.Group, queueItem)
-				log.Debug().Msgf("Re-enqueued message: %d", message.ID)
+		message, err := bpq.GetByID(item.ID)
+		if err != nil {
+			log.Error().Err(err).Msgf("Failed to get message by ID: %d", item.ID)
+			if err != badger.ErrKeyNotFound {
+				// the message is still stored, try again at the next tick
+				bpq.ackQueue.Enqueue("default", item)
+				break
 			}
-		case <-bpq.ackQueueMonitoringChan:
-			return
+			continue
+		}
+
+		queueItem := &Item{
+			ID:       message.ID,
+			Priority: message.Priority,
 		}
+
+		bpq.pq.Enqueue(message.Group, queueItem)
+		log.Debug().Msgf("Re-enqueued message: %d", message.ID)
 	}
 }
 
@@ -325,6 +338,9 @@ func (bpq *BadgerPriorityQueue) Load(queueName string, loadMessages bool) error
 }
 
 func (bpq *BadgerPriorityQueue) Enqueue(id uint64, group string, priority int64, content string) (*Message, error) {
+	bpq.mu.Lock()
+	defer bpq.mu.Unlock()
+
 	if bpq.config.Type != "fair" {
 		group = "default"
 	}
@@ -371,6 +387,9 @@ func (bpq *BadgerPriorityQueue) Enqueue(id uint64, group string, priority int64,
 }
 
 func (bpq *BadgerPriorityQueue) Dequeue(ack bool) (*Message, error) {
+	bpq.mu.Lock()
+	defer bpq.mu.Unlock()
+
 	if bpq.pq.Len() == 0 {
 		return nil, ErrEmptyQueue
 	}
@@ -461,6 +480,9 @@ func (bpq *BadgerPriorityQueue) GetByID(id uint64) (*Message, error) {
 }
 
 func (bpq *BadgerPriorityQueue) UpdatePriority(id uint64, newPriority int64) error {
+	bpq.mu.Lock()
+	defer bpq.mu.Unlock()
+
 	group := "default"
 
 	// Update BadgerDB
@@ -514,6 +536,9 @@ func (bpq *BadgerPriorityQueue) UpdatePriority(id uint64, newPriority int64) err
 }
 
 func (bpq *BadgerPriorityQueue) Ack(id uint64) error {
+	bpq.mu.Lock()
+	defer bpq.mu.Unlock()
+
 	queueItem := bpq.ackQueue.GetByID("default", id)
 
 	if queueItem == nil {
@@ -543,6 +568,9 @@ func (bpq *BadgerPriorityQueue) Ack(id uint64) error {
 }
 
 func (bpq *BadgerPriorityQueue) Nack(id uint64) error {
+	bpq.mu.Lock()
+	defer bpq.mu.Unlock()
+
 	item := bpq.ackQueue.GetByID("default", id)
 
 	if item == nil {
-- 
2.43.0


From 3277d54ef295cc9cccfe73101e02532111e42fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:14 +0000
Subject: [PATCH 12/27] fix: delete the log entries DeleteRange was asked to
 delete

The keys handed to the transaction were buffers the iterator reuses, so
entries inside the range survived and entries after it were deleted.
---
 pkg/badger-store/badger_store.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/badger-store/badger_store.go b/pkg/badger-store/badger_store.go
index 1f867a6..bc0c468 100644
--- a/pkg/badger-store/badger_store.go
+++ b/pkg/badger-store/badger_store.go
@@ -224,7 +224,8 @@ func (b *BadgerStore) DeleteRange(min, max uint64) error {
 
 		for it.Seek(minKey); it.ValidForPrefix(dbLogs); it.Next() {
 			item := it.Item()
-			k := item.Key()
+			// the transaction keeps the key, and Key is only valid until Next
+			k := item.KeyCopy(nil)
 			lastKey = append([]byte{}, k...)
 
 			if bytesToUint64(k[len(dbLogs):]) > max {
-- 
2.43.0


From a60fb56cad63bd3a28dc25be920edc8d4ac1ab1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:14 +0000
Subject: [PATCH 13/27] fix: report a failed read of the raft store as a
 failure

Every error was reported as "not found", which raft takes for a store without
a term, a vote or that log entry, so a node could vote twice in a term.
---
 pkg/badger-store/badger_store.go | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/pkg/badger-store/badger_store.go b/pkg/badger-store/badger_store.go
index bc0c468..481af07 100644
--- a/pkg/badger-store/badger_store.go
+++ b/pkg/badger-store/badger_store.go
@@ -166,13 +166,18 @@ func (b *BadgerStore) GetLog(idx uint64, raftLog *raft.Log) error {
 	defer txn.Discard()
 
 	item, err := txn.Get(addPrefix(dbLogs, uint64ToBytes(idx)))
-	if err != nil {
+	if err == badger.ErrKeyNotFound {
 		return raft.ErrLogNotFound
 	}
+	if err != nil {
+		return err
+	}
 
 	val, err := item.ValueCopy(nil)
-
-	if val == nil || err != nil {
+	if err != nil {
+		return err
+	}
+	if val == nil {
 		return raft.ErrLogNotFound
 	}
 	return DecodeMsgPack(val, raftLog)
@@ -282,13 +287,18 @@ func (b *BadgerStore) Get(k []byte) ([]byte, error) {
 	defer txn.Discard()
 
 	item, err := txn.Get(addPrefix(dbConf, k))
-	if err != nil {
+	if err == badger.ErrKeyNotFound {
 		return nil, ErrKeyNotFound
 	}
+	if err != nil {
+		return nil, err
+	}
 
 	val, err := item.ValueCopy(nil)
-
-	if val == nil || err != nil {
+	if err != nil {
+		return nil, err
+	}
+	if val == nil {
 		return nil, ErrKeyNotFound
 	}
 	return append([]byte(nil), val...), nil
-- 
2.43.0


From 0683f1c38f9fd0e6810fb530f4f9a63aa96b29be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:38 +0000
Subject: [PATCH 14/27] fix: guard the leader address of a node

Requests read it while the leadership monitor writes it, and an address that
does not parse made the request panic.
---
 pkg/raft/node.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/pkg/raft/node.go b/pkg/raft/node.go
index 4155827..3d68a3b 100644
--- a/pkg/raft/node.go
+++ b/pkg/raft/node.go
@@ -5,6 +5,7 @@ import (
 	"net/url"
 	"os"
 	"sort"
+	"sync"
 	"time"
 
 	"github.com/bwmarrin/snowflake"
@@ -32,6 +33,7 @@ type Node struct {
 
 	Raft         *raft.Raft
 	QueueManager *queue.QueueManager
+	leaderMu     sync.RWMutex
 	leader       string
 
 	leaderChangeFn func(bool)
@@ -152,8 +154,11 @@ func (node *Node) monitorLeadership() {
 
 	for {
 		leaderAddr, _ := node.Raft.LeaderWithID()
-		if string(leaderAddr) != node.leader {
-			node.leader = string(leaderAddr)
+		node.leaderMu.Lock()
+		changed := string(leaderAddr) != node.leader
+		node.leader = string(leaderAddr)
+		node.leaderMu.Unlock()
+		if changed {
 			log.Info().Msgf("Node %s leader is now %s", node.id, leaderAddr)
 		}
 		time.Sleep(1 * time.Second)
@@ -167,7 +172,15 @@ func (node *Node) ListenToLeaderChanges() {
 }
 
 func (n *Node) Leader() string {
-	u, _ := url.ParseRequestURI(fmt.Sprintf("http://%s", n.leader))
+	n.leaderMu.RLock()
+	leader := n.leader
+	n.leaderMu.RUnlock()
+
+	u, err := url.ParseRequestURI(fmt.Sprintf("http://%s", leader))
+	if err != nil {
+		log.Warn().Err(err).Msgf("failed to parse the leader address %s", leader)
+		return ""
+	}
 
 	return u.Hostname()
 }
-- 
2.43.0


From cf8f4558029966a0fbe60f091f241436b313fd1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:03 +0000
Subject: [PATCH 15/27] fix: guard the gRPC client of the leader, and do not
 forward to nobody

Concurrent requests swapped the client under each other, which could send a
request to the old leader or through a nil client; an unknown leader was a nil
dereference, and a failed dial ended the process.
---
 pkg/grpc/proxy.go | 74 +++++++++++++++++++++++++++++++----------------
 1 file changed, 49 insertions(+), 25 deletions(-)

diff --git a/pkg/grpc/proxy.go b/pkg/grpc/proxy.go
index 24d9172..77e866e 100644
--- a/pkg/grpc/proxy.go
+++ b/pkg/grpc/proxy.go
@@ -3,13 +3,17 @@ package grpc
 import (
 	"context"
 	"fmt"
+	"sync"
 
 	pb "github.com/kgantsov/doq/pkg/proto"
 	"github.com/rs/zerolog/log"
 	"google.golang.org/grpc"
+	"google.golang.org/grpc/codes"
+	"google.golang.org/grpc/status"
 )
 
 type GRPCProxy struct {
+	mu     sync.Mutex
 	client pb.DOQClient
 	leader string
 	port   int
@@ -22,8 +26,19 @@ func NewGRPCProxy(client pb.DOQClient, port int) *GRPCProxy {
 	}
 }
 
-func (p *GRPCProxy) initClient(leader string) {
-	p.leader = leader
+// clientFor returns the client connected to the given leader, and connects to it
+// first when the leader has changed.
+func (p *GRPCProxy) clientFor(leader string) (pb.DOQClient, error) {
+	if leader == "" {
+		return nil, status.Error(codes.Unavailable, "the leader is not known")
+	}
+
+	p.mu.Lock()
+	defer p.mu.Unlock()
+
+	if p.client != nil && p.leader == leader {
+		return p.client, nil
+	}
 
 	host := leader
 
@@ -33,72 +48,81 @@ func (p *GRPCProxy) initClient(leader string) {
 
 	conn, err := grpc.Dial(host, grpc.WithInsecure())
 	if err != nil {
-		log.Fatal().Msgf("Failed to connect: %v", err)
+		return nil, status.Errorf(codes.Unavailable, "failed to connect to the leader: %v", err)
 	}
-	// defer conn.Close()
 
+	p.leader = leader
 	p.client = pb.NewDOQClient(conn)
+
+	return p.client, nil
 }
 
 func (p *GRPCProxy) CreateQueue(ctx context.Context, host string, req *pb.CreateQueueRequest) (*pb.CreateQueueResponse, error) {
 	log.Debug().Msgf("PROXY CreateQueue: %+v to the leader node: %s", req, host)
 
-	if p.leader != host {
-		p.initClient(host)
+	client, err := p.clientFor(host)
+	if err != nil {
+		return nil, err
 	}
-	return p.client.CreateQueue(ctx, req)
+	return client.CreateQueue(ctx, req)
 }
 
 func (p *GRPCProxy) DeleteQueue(ctx context.Context, host string, req *pb.DeleteQueueRequest) (*pb.DeleteQueueResponse, error) {
 	log.Debug().Msgf("PROXY DeleteQueue: %+v to the leader node: %s", req, host)
 
-	if p.leader != host {
-		p.initClient(host)
+	client, err := p.clientFor(host)
+	if err != nil {
+		return nil, err
 	}
-	return p.client.DeleteQueue(ctx, req)
+	return client.DeleteQueue(ctx, req)
 }
 
 func (p *GRPCProxy) Enqueue(ctx context.Context, host string, req *pb.EnqueueRequest) (*pb.EnqueueResponse, error) {
 	log.Debug().Msgf("PROXY Enqueue: %+v to the leader node: %s", req, host)
 
-	if p.leader != host {
-		p.initClient(host)
+	client, err := p.clientFor(host)
+	if err != nil {
+		return nil, err
 	}
-	return p.client.Enqueue(ctx, req)
+	return client.Enqueue(ctx, req)
 }
 
 func (p *GRPCProxy) Dequeue(ctx context.Context, host string, req *pb.DequeueRequest) (*pb.DequeueResponse, error) {
 	log.Debug().Msgf("PROXY Dequeue: %+v to the leader node: %s", req, host)
 
-	if p.leader != host {
-		p.initClient(host)
+	client, err := p.clientFor(host)
+	if err != nil {
+		return nil, err
 	}
-	return p.client.Dequeue(ctx, req)
+	return client.Dequeue(ctx, req)
 }
 
 func (p *GRPCProxy) Ack(ctx context.Context, host string, req *pb.AckRequest) (*pb.AckResponse, error) {
 	log.Debug().Msgf("PROXY Ack: %+v to the leader node: %s", req, host)
 
-	if p.leader != host {
-		p.initClient(host)
+	client, err := p.clientFor(host)
+	if err != nil {
+		return nil, err
 	}
-	return p.client.Ack(ctx, req)
+	return client.Ack(ctx, req)
 }
 
 func (p *GRPCProxy) Nack(ctx context.Context, host string, req *pb.NackRequest) (*pb.NackResponse, error) {
 	log.Debug().Msgf("PROXY Nack: %+v to the leader node: %s", req, host)
 
-	if p.leader != host {
-		p.initClient(host)
+	client, err := p.clientFor(host)
+	if err != nil {
+		return nil, err
 	}
-	return p.client.Nack(ctx, req)
+	return client.Nack(ctx, req)
 }
 
 func (p *GRPCProxy) UpdatePriority(ctx context.Context, host string, req *pb.UpdatePriorityRequest) (*pb.UpdatePriorityResponse, error) {
 	log.Debug().Msgf("PROXY UpdatePriority: %+v to the leader node: %s", req, host)
 
-	if p.leader != host {
-		p.initClient(host)
+	client, err := p.clientFor(host)
+	if err != nil {
+		return nil, err
 	}
-	return p.client.UpdatePriority(ctx, req)
+	return client.UpdatePriority(ctx, req)
 }
-- 
2.43.0


From 19268ad5375728a40c59da39603392bbd37d2bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:03 +0000
Subject: [PATCH 16/27] fix: guard the history of the queue stats

Requests for the stats read it while the background update shifts it.
---
 pkg/queue/queue_stats.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pkg/queue/queue_stats.go b/pkg/queue/queue_stats.go
index fa32e8b..5e520a8 100644
--- a/pkg/queue/queue_stats.go
+++ b/pkg/queue/queue_stats.go
@@ -1,6 +1,7 @@
 package queue
 
 import (
+	"sync"
 	"sync/atomic"
 	"time"
 )
@@ -13,6 +14,8 @@ type QueueStats struct {
 }
 
 type queueStats struct {
+	mu sync.Mutex
+
 	enqueueCount uint64
 	dequeueCount uint64
 	ackCount     uint64
@@ -75,6 +78,9 @@ func (rc *queueStats) IncrementNack() {
 }
 
 func (rc *queueStats) UpdateWindow() {
+	rc.mu.Lock()
+	defer rc.mu.Unlock()
+
 	// Shift history to the left and store current counts
 	for i := 1; i < rc.windowSize; i++ {
 		rc.enqueueHistory[i-1] = rc.enqueueHistory[i]
@@ -89,6 +95,8 @@ func (rc *queueStats) UpdateWindow() {
 }
 
 func (rc *queueStats) GetRPS() *QueueStats {
+	rc.mu.Lock()
+	defer rc.mu.Unlock()
 
 	var totalEnqueue, totalDequeue, totalAck, totalNack uint64
 
-- 
2.43.0


From 62c8338d410c51ba2a7392e6a6e99733edf9eb15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:03 +0000
Subject: [PATCH 17/27] fix: do not crash on a stats window of no seconds

A window of 0 made the background update index -1, which ended the process.
---
 pkg/queue/queue_stats.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/queue/queue_stats.go b/pkg/queue/queue_stats.go
index 5e520a8..c9d876c 100644
--- a/pkg/queue/queue_stats.go
+++ b/pkg/queue/queue_stats.go
@@ -31,6 +31,10 @@ type queueStats struct {
 }
 
 func NewQueueStats(windowSize int) *queueStats {
+	if windowSize < 1 {
+		windowSize = 1
+	}
+
 	stats := &queueStats{
 		enqueueHistory: make([]uint64, windowSize),
 		dequeueHistory: make([]uint64, windowSize),
-- 
2.43.0


From 7b8fafdbb6381cca2a2872f0f8b432bd76cdc6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:03 +0000
Subject: [PATCH 18/27] fix: do not take another node's address for this node's

Node doq-1 also took the address of doq-10 for its own, and so took its id and
left it out of the hosts to join.
---
 pkg/cluster/cluster.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/cluster/cluster.go b/pkg/cluster/cluster.go
index 75561c9..3f99cdc 100644
--- a/pkg/cluster/cluster.go
+++ b/pkg/cluster/cluster.go
@@ -64,7 +64,8 @@ func (c *Cluster) Init() error {
 	for _, addr := range addrs {
 		log.Debug().Msgf("Discovered address: %s Current host: %s", addr, c.hostname)
 
-		if strings.HasPrefix(addr, c.hostname) {
+		// the whole first label: doq-1 is not doq-10
+		if strings.HasPrefix(addr, c.hostname+".") || strings.HasPrefix(addr, c.hostname+":") {
 			c.nodeID = addr
 		} else {
 			c.hosts = append(c.hosts, addr)
-- 
2.43.0


From 779ae09e575231bff34ccc8ade8e2c6405545ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:03 +0000
Subject: [PATCH 19/27] fix: do not publish an endpoint without an address or a
 client

A leader that could not look up its IP replaced the service's endpoint with an
empty address, and without a kubernetes client the update was a nil
dereference that ended the process.
---
 pkg/cluster/cluster.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pkg/cluster/cluster.go b/pkg/cluster/cluster.go
index 3f99cdc..2f41c22 100644
--- a/pkg/cluster/cluster.go
+++ b/pkg/cluster/cluster.go
@@ -2,6 +2,7 @@ package cluster
 
 import (
 	"context"
+	"errors"
 	"fmt"
 	"net"
 	"strconv"
@@ -96,10 +97,11 @@ func (c *Cluster) InitKubeClient() error {
 		return err
 	}
 
-	c.clientset, err = kubernetes.NewForConfig(config)
+	clientset, err := kubernetes.NewForConfig(config)
 	if err != nil {
 		return err
 	}
+	c.clientset = clientset
 
 	return nil
 }
@@ -121,6 +123,7 @@ func (c *Cluster) LeaderChanged(isLeader bool) {
 		ip, err := c.serviceDiscovery.IP()
 		if err != nil {
 			log.Error().Msgf("Couldn't lookup the IP: %v\n", err)
+			return
 		}
 		c.ip = ip
 
@@ -134,6 +137,10 @@ func (c *Cluster) LeaderChanged(isLeader bool) {
 }
 
 func (c *Cluster) UpdateServiceEndpointSlice() error {
+	if c.clientset == nil {
+		return errors.New("there is no kubernetes client")
+	}
+
 	err := c.clientset.DiscoveryV1().EndpointSlices(c.namespace).Delete(
 		context.TODO(), c.serviceName, metav1.DeleteOptions{},
 	)
-- 
2.43.0


From 23c78eb9636fb74a67a8c1599826619087415c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:03 +0000
Subject: [PATCH 20/27] fix: keep a fair queue consistent when a message is
 deleted

Deleting a message that is not there lowered the count, and a group emptied by
a delete stopped every later dequeue.
---
 pkg/queue/fair_priority_queue.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pkg/queue/fair_priority_queue.go b/pkg/queue/fair_priority_queue.go
index 3144fa0..119b9ea 100644
--- a/pkg/queue/fair_priority_queue.go
+++ b/pkg/queue/fair_priority_queue.go
@@ -154,8 +154,20 @@ func (fq *FairPriorityQueue) DeleteByID(group string, id uint64) *Item {
 	}
 
 	item := fq.queues[group].Queue().DeleteByID(id)
+	if item == nil {
+		return nil
+	}
 	fq.totalMessages--
 
+	// an empty group must not stay in the round-robin list
+	if node := fq.queues[group]; node.Queue().Len() == 0 {
+		if fq.currentNone == node {
+			fq.currentNone = node.next
+		}
+		fq.roundRobin.Remove(node)
+		delete(fq.queues, group)
+	}
+
 	return item
 }
 
-- 
2.43.0


From 55d82c16d3aad01a3a7cbda2504d162ae65cbf23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:21 +0000
Subject: [PATCH 21/27] fix: do not forward a request to this node when the
 leader is not known

The URL without a host is this node's own, which forwarded the request to
itself again and again until the timeouts.
---
 pkg/http/proxy.go | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/pkg/http/proxy.go b/pkg/http/proxy.go
index d1053b5..adddf49 100644
--- a/pkg/http/proxy.go
+++ b/pkg/http/proxy.go
@@ -35,6 +35,10 @@ func (p *Proxy) CreateQueue(
 	ctx context.Context, host string, body *CreateQueueInputBody,
 ) (*CreateQueueOutputBody, huma.StatusError) {
 
+	if host == "" {
+		return nil, huma.Error503ServiceUnavailable("The leader is not known")
+	}
+
 	bodyB, err := json.Marshal(body)
 	if err != nil {
 		return nil, huma.Error400BadRequest("Failed to marshal body", err)
@@ -74,6 +78,10 @@ func (p *Proxy) CreateQueue(
 func (p *Proxy) DeleteQueue(
 	ctx context.Context, host string, queueName string,
 ) (*DeleteQueueOutputBody, huma.StatusError) {
+	if host == "" {
+		return nil, huma.Error503ServiceUnavailable("The leader is not known")
+	}
+
 	req, err := http.NewRequest(
 		"DELETE",
 		fmt.Sprintf("%s/API/v1/queues/%s", p.getHost(host), queueName),
@@ -104,6 +112,10 @@ func (p *Proxy) DeleteQueue(
 }
 
 func (p *Proxy) Enqueue(ctx context.Context, host string, queueName string, body *EnqueueInputBody) (*EnqueueOutputBody, huma.StatusError) {
+	if host == "" {
+		return nil, huma.Error503ServiceUnavailable("The leader is not known")
+	}
+
 	bodyB, err := json.Marshal(body)
 	if err != nil {
 		return nil, huma.Error400BadRequest("Failed to marshal body", err)
@@ -143,6 +155,10 @@ func (p *Proxy) Enqueue(ctx context.Context, host string, queueName string, body
 func (p *Proxy) Dequeue(
 	ctx context.Context, host string, queueName string, ack bool,
 ) (*DequeueOutputBody, huma.StatusError) {
+	if host == "" {
+		return nil, huma.Error503ServiceUnavailable("The leader is not known")
+	}
+
 	req, err := http.NewRequest(
 		"GET",
 		fmt.Sprintf(
@@ -183,6 +199,10 @@ func (p *Proxy) Ack(
 	queueName string,
 	id uint64,
 ) (*AckOutputBody, huma.StatusError) {
+	if host == "" {
+		return nil, huma.Error503ServiceUnavailable("The leader is not known")
+	}
+
 	req, err := http.NewRequest(
 		"POST",
 		fmt.Sprintf(
@@ -221,6 +241,10 @@ func (p *Proxy) Nack(
 	queueName string,
 	id uint64,
 ) (*NackOutputBody, huma.StatusError) {
+	if host == "" {
+		return nil, huma.Error503ServiceUnavailable("The leader is not known")
+	}
+
 	req, err := http.NewRequest(
 		"POST",
 		fmt.Sprintf(
@@ -260,6 +284,10 @@ func (p *Proxy) UpdatePriority(
 	id uint64,
 	body *UpdatePriorityInputBody,
 ) (*UpdatePriorityOutputBody, huma.StatusError) {
+	if host == "" {
+		return nil, huma.Error503ServiceUnavailable("The leader is not known")
+	}
+
 	bodyB, err := json.Marshal(body)
 	if err != nil {
 		return nil, huma.Error400BadRequest("Failed to marshal body", err)
-- 
2.43.0


From b567aca7e4134c240800fe3e2e57ef4c06dc6059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:21 +0000
Subject: [PATCH 22/27] fix: read the config file given with --config

The file was read before the flags were parsed, so the flag had no effect.
---
 pkg/config/config.go | 35 +++++++++++++++++++----------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/pkg/config/config.go b/pkg/config/config.go
index 34361b6..29fb1cb 100644
--- a/pkg/config/config.go
+++ b/pkg/config/config.go
@@ -106,22 +106,25 @@ func LoadConfig() (*Config, error) {
 }
 
 func InitCobraCommand(runFunc func(cmd *cobra.Command, args []string)) *cobra.Command {
-	if cfgFile != "" {
-		// Use config file from the flag
-		viper.SetConfigFile(cfgFile)
-	} else {
-		// Default config file
-		viper.AddConfigPath(".")
-		viper.SetConfigName("config")
-	}
-
-	// Enable environment variable support
-	viper.AutomaticEnv()
-
-	// Read the config file if found
-	if err := viper.ReadInConfig(); err == nil {
-		// log.Warn().Msgf("Using config file: %s", viper.ConfigFileUsed())
-	}
+	// The flags are parsed by the time this runs
+	cobra.OnInitialize(func() {
+		if cfgFile != "" {
+			// Use config file from the flag
+			viper.SetConfigFile(cfgFile)
+		} else {
+			// Default config file
+			viper.AddConfigPath(".")
+			viper.SetConfigName("config")
+		}
+
+		// Enable environment variable support
+		viper.AutomaticEnv()
+
+		// Read the config file if found
+		if err := viper.ReadInConfig(); err == nil {
+			// log.Warn().Msgf("Using config file: %s", viper.ConfigFileUsed())
+		}
+	})
 
 	var rootCmd = &cobra.Command{
 		Use:   "doq",
-- 
2.43.0


From 0652ce1683f505a242b237e024c495114f85eab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:22 +0000
Subject: [PATCH 23/27] fix: do not keep a request's string as the name of a
 queue

---
 pkg/queue/queue_manager.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/queue/queue_manager.go b/pkg/queue/queue_manager.go
index 89272a0..07e2aba 100644
--- a/pkg/queue/queue_manager.go
+++ b/pkg/queue/queue_manager.go
@@ -3,6 +3,7 @@ package queue
 import (
 	"fmt"
 	"sort"
+	"strings"
 	"sync"
 	"time"
 
@@ -114,7 +115,9 @@ func (qm *QueueManager) GetQueue(queueName string) (*BadgerPriorityQueue, error)
 		if err != nil {
 			return nil, ErrQueueNotFound
 		}
-		qm.queues[queueName] = q
+		// The name may be a part of a request's buffer, which is reused once the
+		// request has been answered.
+		qm.queues[strings.Clone(queueName)] = q
 	}
 	return q, nil
 }
-- 
2.43.0


From ea151040892d2ce0030f084e28397db6725358a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:07 +0000
Subject: [PATCH 24/27] fix: forward the requests of gRPC streams to the leader

---
 pkg/grpc/server.go | 38 +++++++-------------------------------
 1 file changed, 7 insertions(+), 31 deletions(-)

diff --git a/pkg/grpc/server.go b/pkg/grpc/server.go
index dda6e15..5382947 100644
--- a/pkg/grpc/server.go
+++ b/pkg/grpc/server.go
@@ -129,20 +129,12 @@ func (s *QueueServer) EnqueueStream(stream pb.DOQ_EnqueueStreamServer) error {
 			return err
 		}
 
-		message, err := s.node.Enqueue(req.QueueName, req.Group, req.Priority, req.Content)
+		message, err := s.Enqueue(stream.Context(), req)
 		if err != nil {
-			return fmt.Errorf("failed to enqueue a message")
+			return err
 		}
 
-		s.broadcastMessage(req.QueueName, struct{}{})
-
-		err = stream.Send(&pb.EnqueueResponse{
-			Success:  true,
-			Id:       message.ID,
-			Group:    message.Group,
-			Priority: message.Priority,
-			Content:  message.Content,
-		})
+		err = stream.Send(message)
 		if err != nil {
 			return err
 		}
@@ -208,40 +200,24 @@ func (s *QueueServer) DequeueStream(req *pb.DequeueRequest, stream pb.DOQ_Dequeu
 			log.Debug().Msgf("Dequeue stream for consumer %d closed", consumerID)
 			return nil
 		case <-consumerChan:
-			message, err := s.node.Dequeue(req.QueueName, req.Ack)
+			message, err := s.Dequeue(stream.Context(), req)
 			if err != nil {
 				continue
 			}
 
-			err = stream.Send(
-				&pb.DequeueResponse{
-					Success:  true,
-					Id:       message.ID,
-					Group:    message.Group,
-					Priority: message.Priority,
-					Content:  message.Content,
-				},
-			)
+			err = stream.Send(message)
 
 			if err != nil {
 				return err
 			}
 		case <-ticker.C:
 			for {
-				message, err := s.node.Dequeue(req.QueueName, req.Ack)
+				message, err := s.Dequeue(stream.Context(), req)
 				if err != nil {
 					break
 				}
 
-				err = stream.Send(
-					&pb.DequeueResponse{
-						Success:  true,
-						Id:       message.ID,
-						Group:    message.Group,
-						Priority: message.Priority,
-						Content:  message.Content,
-					},
-				)
+				err = stream.Send(message)
 
 				if err != nil {
 					log.Debug().Msgf("Failed to send dequeue response for consumer %d", consumerID)
-- 
2.43.0


From d646ba887f3d847eab18c116dae790b628f658cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:34 +0000
Subject: [PATCH 25/27] fix: an empty value in the stable store is not an
 absent one

---
 pkg/badger-store/badger_store.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pkg/badger-store/badger_store.go b/pkg/badger-store/badger_store.go
index 481af07..49e4b59 100644
--- a/pkg/badger-store/badger_store.go
+++ b/pkg/badger-store/badger_store.go
@@ -298,9 +298,7 @@ func (b *BadgerStore) Get(k []byte) ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
-	if val == nil {
-		return nil, ErrKeyNotFound
-	}
+	// an empty value comes back as nil, but it is stored
 	return append([]byte(nil), val...), nil
 }
 
-- 
2.43.0


From 448bbef1cb2c5cba9cd1c7ae8f164873731916a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:53 +0000
Subject: [PATCH 26/27] fix: a queue that is not kept leaves no background
 tasks running

---
 pkg/queue/badger_priority_queue.go | 16 +++++++++++++---
 pkg/queue/queue_manager.go         |  7 ++++++-
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/pkg/queue/badger_priority_queue.go b/pkg/queue/badger_priority_queue.go
index 045e86c..7e6013a 100644
--- a/pkg/queue/badger_priority_queue.go
+++ b/pkg/queue/badger_priority_queue.go
@@ -196,6 +196,12 @@ func (bpq *BadgerPriorityQueue) StopAckQueueMonitoring() {
 	close(bpq.ackQueueMonitoringChan)
 }
 
+// stop ends the background tasks that Init has started.
+func (bpq *BadgerPriorityQueue) stop() {
+	bpq.StopAckQueueMonitoring()
+	bpq.stats.Stop()
+}
+
 func (bpq *BadgerPriorityQueue) getMessagesPrefix() []byte {
 	return []byte(fmt.Sprintf("messages:%s:", bpq.config.Name))
 }
@@ -271,9 +277,7 @@ func (bpq *BadgerPriorityQueue) Delete() error {
 		return err
 	}
 
-	bpq.StopAckQueueMonitoring()
-
-	bpq.stats.Stop()
+	bpq.stop()
 
 	bpq.updatePrometheusQueueSizes()
 
@@ -285,6 +289,7 @@ func (bpq *BadgerPriorityQueue) Load(queueName string, loadMessages bool) error
 	defer bpq.mu.Unlock()
 
 	var qc *QueueConfig
+	started := false
 
 	err := bpq.db.View(func(txn *badger.Txn) error {
 		item, err := txn.Get(bpq.GetQueueKey(queueName))
@@ -302,6 +307,7 @@ func (bpq *BadgerPriorityQueue) Load(queueName string, loadMessages bool) error
 		}
 
 		bpq.Init(qc.Type, qc.Name)
+		started = true
 
 		if loadMessages {
 			it := txn.NewIterator(badger.DefaultIteratorOptions)
@@ -329,6 +335,10 @@ func (bpq *BadgerPriorityQueue) Load(queueName string, loadMessages bool) error
 		return nil
 	})
 	if err != nil {
+		if started {
+			// the queue is not used, so its background tasks must not go on
+			bpq.stop()
+		}
 		return err
 	}
 
diff --git a/pkg/queue/queue_manager.go b/pkg/queue/queue_manager.go
index 07e2aba..e9e735f 100644
--- a/pkg/queue/queue_manager.go
+++ b/pkg/queue/queue_manager.go
@@ -88,14 +88,19 @@ func (qm *QueueManager) Delete(queueName string) error {
 	qm.mu.Lock()
 	defer qm.mu.Unlock()
 
+	loaded := false
 	q, ok := qm.queues[queueName]
 	if !ok {
 		q = NewBadgerPriorityQueue(qm.db, qm.config, qm.PrometheusMetrics)
-		q.Load(queueName, false)
+		loaded = q.Load(queueName, false) == nil
 	}
 
 	err := q.Delete()
 	if err != nil {
+		if loaded {
+			// the queue was opened for this only and is not kept
+			q.stop()
+		}
 		return err
 	}
 
-- 
2.43.0


From ab95921afa83da58a5d3e4e2ea2d5f66f20ba42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:48 +0000
Subject: [PATCH 27/27] fix: metrics are scraped at the port the server is
 started with

---
 deploy/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deploy/main.go b/deploy/main.go
index 6fbc673..3aea03e 100644
--- a/deploy/main.go
+++ b/deploy/main.go
@@ -120,7 +120,7 @@ func main() {
 						Annotations: pulumi.StringMap{
 							"prometheus.io/scrape": pulumi.String("true"),
 							"prometheus.io/path":   pulumi.String("/metrics"),
-							"prometheus.io/port":   pulumi.String("8000"),
+							"prometheus.io/port":   pulumi.String(fmt.Sprintf("%d", httPort)),
 						},
 					},
 					Spec: &corev1.PodSpecArgs{
-- 
2.43.0

