From 6c6337475fceff0e6798b66a6b1000857d81a922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:24 +0000
Subject: [PATCH 01/25] fix: forget the list when a subscription is
 acknowledged or found and removed

A subscription taken out of a SubscriptionList by Ack, Nack or
FindByIdAndRemove still claimed to be in it, so the next Add panicked:
acknowledging a message on a queue with nothing left stopped the server.
---
 server/client/subscription_list.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/server/client/subscription_list.go b/server/client/subscription_list.go
index 5630517..2e5942a 100644
--- a/server/client/subscription_list.go
+++ b/server/client/subscription_list.go
@@ -59,6 +59,7 @@ func (sl *SubscriptionList) FindByIdAndRemove(id string) *Subscription {
 		sub := e.Value.(*Subscription)
 		if sub.id == id {
 			sl.subs.Remove(e)
+			sub.subList = nil
 			return sub
 		}
 	}
@@ -74,6 +75,7 @@ func (sl *SubscriptionList) Ack(msgId uint64, callback func(s *Subscription)) {
 		sub := e.Value.(*Subscription)
 		if sub.IsAckedBy(msgId) {
 			sl.subs.Remove(e)
+			sub.subList = nil
 			callback(sub)
 		}
 		e = next
@@ -90,6 +92,7 @@ func (sl *SubscriptionList) Nack(msgId uint64, callback func(s *Subscription)) {
 		sub := e.Value.(*Subscription)
 		if sub.IsNackedBy(msgId) {
 			sl.subs.Remove(e)
+			sub.subList = nil
 			callback(sub)
 		}
 		e = next
-- 
2.43.0


From 265b5185c7af715b914800e5616b03003b901bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:09 +0000
Subject: [PATCH 02/25] fix: settle exactly the message an ACK or NACK names

Message ids were never recorded, so every ACK settled all messages the
connection held with cumulative acknowledgement and none of those with
individual acknowledgement, and a NACK returned none. The id header of
STOMP 1.2 was not understood.
---
 server/client/conn.go              | 52 +++++++++++++++---------------
 server/client/subscription_list.go | 14 ++++++++
 2 files changed, 40 insertions(+), 26 deletions(-)

diff --git a/server/client/conn.go b/server/client/conn.go
index f363775..56d4dec 100644
--- a/server/client/conn.go
+++ b/server/client/conn.go
@@ -419,6 +419,7 @@ func (c *Conn) allocateMessageId(f *frame.Frame, sub *Subscription) {
 			f.Header.Del(frame.Ack)
 		} else {
 			f.Header.Set(frame.Ack, messageId)
+			sub.msgId = c.lastMsgId
 		}
 	}
 }
@@ -656,18 +657,25 @@ func (c *Conn) handleUnsubscribe(f *frame.Frame) error {
 	return nil
 }
 
-func (c *Conn) handleAck(f *frame.Frame) error {
-	var err error
-	var msgId string
-
-	if ack, ok := f.Header.Contains(frame.Ack); ok {
-		msgId = ack
-	} else if msgId, ok = f.Header.Contains(frame.MessageId); !ok {
-		return missingHeader(frame.MessageId)
+// Returns the message id that an ACK or NACK frame refers to.
+func (c *Conn) ackedMessageId(f *frame.Frame) (uint64, error) {
+	msgId, ok := f.Header.Contains(frame.Ack)
+	if !ok && c.version == stomp.V12 {
+		msgId, ok = f.Header.Contains(frame.Id)
+	}
+	if !ok {
+		msgId, ok = f.Header.Contains(frame.MessageId)
+	}
+	if !ok {
+		return 0, missingHeader(frame.MessageId)
 	}
 
 	// expecting message id to be a uint64
-	msgId64, err := strconv.ParseUint(msgId, 10, 64)
+	return strconv.ParseUint(msgId, 10, 64)
+}
+
+func (c *Conn) handleAck(f *frame.Frame) error {
+	msgId64, err := c.ackedMessageId(f)
 	if err != nil {
 		return err
 	}
@@ -685,32 +693,24 @@ func (c *Conn) handleAck(f *frame.Frame) error {
 			return err
 		}
 	} else {
-		// handle any subscriptions that are acknowledged by this msg
-		c.subList.Ack(msgId64, func(s *Subscription) {
+		// handle the subscription that is acknowledged by this msg, if any:
+		// a subscription holds one message at a time, so even a cumulative
+		// acknowledgement covers no other
+		if s := c.subList.findByMsgIdAndRemove(msgId64); s != nil {
 			// remove frame from the subscription, it has been delivered
 			s.frame = nil
 
 			// let the upper layer know that this subscription
 			// is ready for another frame
 			c.requestChannel <- Request{Op: SubscribeOp, Sub: s}
-		})
+		}
 	}
 
 	return nil
 }
 
 func (c *Conn) handleNack(f *frame.Frame) error {
-	var err error
-	var msgId string
-
-	if ack, ok := f.Header.Contains(frame.Ack); ok {
-		msgId = ack
-	} else if msgId, ok = f.Header.Contains(frame.MessageId); !ok {
-		return missingHeader(frame.MessageId)
-	}
-
-	// expecting message id to be a uint64
-	msgId64, err := strconv.ParseUint(msgId, 10, 64)
+	msgId64, err := c.ackedMessageId(f)
 	if err != nil {
 		return err
 	}
@@ -728,8 +728,8 @@ func (c *Conn) handleNack(f *frame.Frame) error {
 			return err
 		}
 	} else {
-		// handle any subscriptions that are acknowledged by this msg
-		c.subList.Nack(msgId64, func(s *Subscription) {
+		// handle the subscription that is rejected by this msg, if any
+		if s := c.subList.findByMsgIdAndRemove(msgId64); s != nil {
 			// send frame back to upper layer for requeue
 			c.requestChannel <- Request{Op: RequeueOp, Frame: s.frame}
 
@@ -739,7 +739,7 @@ func (c *Conn) handleNack(f *frame.Frame) error {
 			// let the upper layer know that this subscription
 			// is ready for another frame
 			c.requestChannel <- Request{Op: SubscribeOp, Sub: s}
-		})
+		}
 	}
 	return nil
 }
diff --git a/server/client/subscription_list.go b/server/client/subscription_list.go
index 2e5942a..69210dc 100644
--- a/server/client/subscription_list.go
+++ b/server/client/subscription_list.go
@@ -66,6 +66,20 @@ func (sl *SubscriptionList) FindByIdAndRemove(id string) *Subscription {
 	return nil
 }
 
+// Search for the subscription that holds the message with the specified
+// message-id and remove it. Returns nil if there is none.
+func (sl *SubscriptionList) findByMsgIdAndRemove(msgId uint64) *Subscription {
+	for e := sl.subs.Front(); e != nil; e = e.Next() {
+		sub := e.Value.(*Subscription)
+		if sub.msgId == msgId {
+			sl.subs.Remove(e)
+			sub.subList = nil
+			return sub
+		}
+	}
+	return nil
+}
+
 // Finds all subscriptions in the subscription list that are acked by the
 // specified message-id (or ack) header. The subscription is removed from
 // the list and the callback function called for that subscription.
-- 
2.43.0


From d98b85860522fe1b72d20853e9202d72abdad250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:27 +0000
Subject: [PATCH 03/25] fix: reject SEND without destination and SUBSCRIBE with
 an unknown ack mode

Either one made the server panic, the first in the request processor and
the second when the next ACK arrived.
---
 server/client/conn.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/server/client/conn.go b/server/client/conn.go
index 56d4dec..1da379c 100644
--- a/server/client/conn.go
+++ b/server/client/conn.go
@@ -625,6 +625,12 @@ func (c *Conn) handleSubscribe(f *frame.Frame) error {
 		ack = frame.AckAuto
 	}
 
+	switch ack {
+	case frame.AckAuto, frame.AckClient, frame.AckClientIndividual:
+	default:
+		return invalidHeaderValue
+	}
+
 	sub, ok := c.subs[id]
 	if ok {
 		return subscriptionExists
@@ -748,6 +754,10 @@ func (c *Conn) handleNack(f *frame.Frame) error {
 // this method is called after a SEND message is received,
 // but also after a transaction commit.
 func (c *Conn) handleSend(f *frame.Frame) error {
+	if _, ok := f.Header.Contains(frame.Destination); !ok {
+		return missingHeader(frame.Destination)
+	}
+
 	// Send a receipt and remove the header
 	err := c.sendReceiptImmediately(f)
 	if err != nil {
-- 
2.43.0


From 413175162b7bed09208be8521c7934dd1b47c7e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:23 +0000
Subject: [PATCH 04/25] fix: answer every receipt request, after processing the
 frame

SUBSCRIBE and UNSUBSCRIBE never got a RECEIPT, and the other frames got
theirs before anything was done about them, even when they were then
rejected, in which case the ERROR frame lacked the receipt-id.
---
 server/client/conn.go | 88 ++++++++++++++++---------------------------
 1 file changed, 33 insertions(+), 55 deletions(-)

diff --git a/server/client/conn.go b/server/client/conn.go
index 1da379c..52991b0 100644
--- a/server/client/conn.go
+++ b/server/client/conn.go
@@ -435,6 +435,38 @@ func connecting(c *Conn, f *frame.Frame) error {
 
 // State function for after connect frame received.
 func connected(c *Conn, f *frame.Frame) error {
+	// Remove the receipt header from the frame. This is handy
+	// for transactions, because the frame has its receipt
+	// header removed prior to entering the transaction store.
+	// When the frame is processed upon transaction commit, it
+	// will not have a receipt header anymore.
+	receipt, ok := f.Header.Contains(frame.Receipt)
+	f.Header.Del(frame.Receipt)
+
+	if err := c.handleFrame(f); err != nil {
+		if ok {
+			// the ERROR frame has to mention the receipt
+			f.Header.Set(frame.Receipt, receipt)
+		}
+		return err
+	}
+
+	// Send a RECEIPT frame only now that the frame has been processed.
+	// The frame may belong to the upper layer already, so if the RECEIPT
+	// cannot be written do not report it as an error of this frame, but
+	// close the connection, which ends the read loop and everything else.
+	if ok {
+		err := c.sendImmediately(frame.New(frame.RECEIPT,
+			frame.ReceiptId, receipt))
+		if err != nil {
+			c.rw.Close()
+		}
+	}
+	return nil
+}
+
+// Pass a frame to the appropriate function according to its command.
+func (c *Conn) handleFrame(f *frame.Frame) error {
 	switch f.Command {
 	case frame.CONNECT, frame.STOMP:
 		return unexpectedCommand
@@ -534,30 +566,10 @@ func (c *Conn) handleConnect(f *frame.Frame) error {
 	return nil
 }
 
-// Sends a RECEIPT frame to the client if the frame f contains
-// a receipt header. If the frame does contain a receipt header,
-// it will be removed from the frame.
-func (c *Conn) sendReceiptImmediately(f *frame.Frame) error {
-	if receipt, ok := f.Header.Contains(frame.Receipt); ok {
-		// Remove the receipt header from the frame. This is handy
-		// for transactions, because the frame has its receipt
-		// header removed prior to entering the transaction store.
-		// When the frame is processed upon transaction commit, it
-		// will not have a receipt header anymore.
-		f.Header.Del(frame.Receipt)
-		return c.sendImmediately(frame.New(frame.RECEIPT,
-			frame.ReceiptId, receipt))
-	}
-	return nil
-}
-
 func (c *Conn) handleDisconnect(f *frame.Frame) error {
 	// As soon as we receive a DISCONNECT frame from a client, we do
 	// not want to send any more frames to that client, with the exception
 	// of a RECEIPT frame if the client has requested one.
-	// Ignore the error condition if we cannot send a RECEIPT frame,
-	// as the connection is about to close anyway.
-	_ = c.sendReceiptImmediately(f)
 	return nil
 }
 
@@ -565,12 +577,6 @@ func (c *Conn) handleBegin(f *frame.Frame) error {
 	// the frame should already have been validated for the
 	// transaction header, but we check again here.
 	if transaction, ok := f.Header.Contains(frame.Transaction); ok {
-		// Send a receipt and remove the header
-		err := c.sendReceiptImmediately(f)
-		if err != nil {
-			return err
-		}
-
 		return c.txStore.Begin(transaction)
 	}
 	return missingHeader(frame.Transaction)
@@ -580,11 +586,6 @@ func (c *Conn) handleCommit(f *frame.Frame) error {
 	// the frame should already have been validated for the
 	// transaction header, but we check again here.
 	if transaction, ok := f.Header.Contains(frame.Transaction); ok {
-		// Send a receipt and remove the header
-		err := c.sendReceiptImmediately(f)
-		if err != nil {
-			return err
-		}
 		return c.txStore.Commit(transaction, func(f *frame.Frame) error {
 			// Call the state function (again) for each frame in the
 			// transaction. This time each frame is stripped of its transaction
@@ -599,11 +600,6 @@ func (c *Conn) handleAbort(f *frame.Frame) error {
 	// the frame should already have been validated for the
 	// transaction header, but we check again here.
 	if transaction, ok := f.Header.Contains(frame.Transaction); ok {
-		// Send a receipt and remove the header
-		err := c.sendReceiptImmediately(f)
-		if err != nil {
-			return err
-		}
 		return c.txStore.Abort(transaction)
 	}
 	return missingHeader(frame.Transaction)
@@ -686,12 +682,6 @@ func (c *Conn) handleAck(f *frame.Frame) error {
 		return err
 	}
 
-	// Send a receipt and remove the header
-	err = c.sendReceiptImmediately(f)
-	if err != nil {
-		return err
-	}
-
 	if tx, ok := f.Header.Contains(frame.Transaction); ok {
 		// the transaction header is removed from the frame
 		err = c.txStore.Add(tx, f)
@@ -721,12 +711,6 @@ func (c *Conn) handleNack(f *frame.Frame) error {
 		return err
 	}
 
-	// Send a receipt and remove the header
-	err = c.sendReceiptImmediately(f)
-	if err != nil {
-		return err
-	}
-
 	if tx, ok := f.Header.Contains(frame.Transaction); ok {
 		// the transaction header is removed from the frame
 		err = c.txStore.Add(tx, f)
@@ -758,15 +742,9 @@ func (c *Conn) handleSend(f *frame.Frame) error {
 		return missingHeader(frame.Destination)
 	}
 
-	// Send a receipt and remove the header
-	err := c.sendReceiptImmediately(f)
-	if err != nil {
-		return err
-	}
-
 	if tx, ok := f.Header.Contains(frame.Transaction); ok {
 		// the transaction header is removed from the frame
-		err = c.txStore.Add(tx, f)
+		err := c.txStore.Add(tx, f)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From f7c5cd8b008ec955416287f98ba67226f5d25849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:39 +0000
Subject: [PATCH 05/25] fix: never let a connection and the request processor
 wait for each other

The request processor blocks when the channels of a connection are full,
and a connection blocked when the channel of the request processor was
full. A client that publishes to a topic it subscribes to could stop the
whole server that way. A connection that waits for the request processor
now keeps accepting what it sends.
---
 server/client/conn.go | 171 ++++++++++++++++++++++++++----------------
 1 file changed, 107 insertions(+), 64 deletions(-)

diff --git a/server/client/conn.go b/server/client/conn.go
index 52991b0..069126f 100644
--- a/server/client/conn.go
+++ b/server/client/conn.go
@@ -38,6 +38,8 @@ type Conn struct {
 	lastMsgId      uint64                              // last message-id value
 	subList        *SubscriptionList                   // List of subscriptions requiring acknowledgement
 	subs           map[string]*Subscription            // All subscriptions, keyed by id
+	pendingWrites  []*frame.Frame                      // Received from writeChannel while sending a request
+	pendingSubs    []*Subscription                     // Received from subChannel while sending a request
 	validator      stomp.Validator                     // For validating STOMP frames
 	log            stomp.Logger
 }
@@ -198,6 +200,24 @@ func (c *Conn) processLoop() {
 			timerChannel = timer.C
 		}
 
+		// Frames that arrived while waiting for the upper layer go first.
+		if len(c.pendingWrites) > 0 {
+			f := c.pendingWrites[0]
+			c.pendingWrites = c.pendingWrites[1:]
+			if !c.writeFrame(f) {
+				return
+			}
+			continue
+		}
+		if len(c.pendingSubs) > 0 {
+			sub := c.pendingSubs[0]
+			c.pendingSubs = c.pendingSubs[1:]
+			if !c.writeSubscription(sub) {
+				return
+			}
+			continue
+		}
+
 		select {
 		case f, ok := <-c.writeChannel:
 			if !ok {
@@ -206,31 +226,13 @@ func (c *Conn) processLoop() {
 				return
 			}
 
-			// have a frame to the client with
-			// no acknowledgement required (topic)
-
 			// stop the heart-beat timer
 			if timer != nil {
 				timer.Stop()
 				timer = nil
 			}
 
-			c.allocateMessageId(f, nil)
-
-			// write the frame to the client
-			err := c.writer.Write(f)
-			if err != nil {
-				// if there is an error writing to
-				// the client, there is not much
-				// point trying to send an ERROR frame,
-				// so just exit go-routine (after cleaning up)
-				return
-			}
-
-			// if the frame just sent to the client is an error
-			// frame, we disconnect
-			if f.Command == frame.ERROR {
-				// sent an ERROR frame, so disconnect
+			if !c.writeFrame(f) {
 				return
 			}
 
@@ -268,46 +270,14 @@ func (c *Conn) processLoop() {
 				return
 			}
 
-			// have a frame to the client which requires
-			// acknowledgement to the upper layer
-
 			// stop the heart-beat timer
 			if timer != nil {
 				timer.Stop()
 				timer = nil
 			}
 
-			// there is the possibility that the subscription
-			// has been unsubscribed just prior to receiving
-			// this, so we check
-			if _, ok = c.subs[sub.id]; ok {
-				// allocate a message-id, note that the
-				// subscription id has already been set
-				c.allocateMessageId(sub.frame, sub)
-
-				// write the frame to the client
-				err := c.writer.Write(sub.frame)
-				if err != nil {
-					// if there is an error writing to
-					// the client, there is not much
-					// point trying to send an ERROR frame,
-					// so just exit go-routine (after cleaning up)
-					return
-				}
-
-				if sub.ack == frame.AckAuto {
-					// subscription does not require acknowledgement,
-					// so send the subscription back the upper layer
-					// straight away
-					sub.frame = nil
-					c.requestChannel <- Request{Op: SubscribeOp, Sub: sub}
-				} else {
-					// subscription requires acknowledgement
-					c.subList.Add(sub)
-				}
-			} else {
-				// Subscription no longer exists, requeue
-				c.requestChannel <- Request{Op: RequeueOp, Frame: sub.frame}
+			if !c.writeSubscription(sub) {
+				return
 			}
 
 		case _ = <-timerChannel:
@@ -325,6 +295,79 @@ func (c *Conn) processLoop() {
 	}
 }
 
+// Sends a request to the upper layer. The upper layer might be waiting
+// for this connection to accept a frame, so accept frames until it is ready.
+func (c *Conn) request(r Request) {
+	for {
+		select {
+		case c.requestChannel <- r:
+			return
+		case f := <-c.writeChannel:
+			c.pendingWrites = append(c.pendingWrites, f)
+		case sub := <-c.subChannel:
+			c.pendingSubs = append(c.pendingSubs, sub)
+		}
+	}
+}
+
+// Writes a frame with no acknowledgement required (topic) to the
+// client. Returns false if the connection is finished.
+func (c *Conn) writeFrame(f *frame.Frame) bool {
+	c.allocateMessageId(f, nil)
+
+	// write the frame to the client
+	err := c.writer.Write(f)
+	if err != nil {
+		// if there is an error writing to
+		// the client, there is not much
+		// point trying to send an ERROR frame,
+		// so just exit go-routine (after cleaning up)
+		return false
+	}
+
+	// if the frame just sent to the client is an error
+	// frame, we disconnect
+	return f.Command != frame.ERROR
+}
+
+// Writes the frame of a subscription, which requires acknowledgement to
+// the upper layer, to the client. Returns false if the connection is finished.
+func (c *Conn) writeSubscription(sub *Subscription) bool {
+	// there is the possibility that the subscription
+	// has been unsubscribed just prior to receiving
+	// this, so we check
+	if _, ok := c.subs[sub.id]; ok {
+		// allocate a message-id, note that the
+		// subscription id has already been set
+		c.allocateMessageId(sub.frame, sub)
+
+		// write the frame to the client
+		err := c.writer.Write(sub.frame)
+		if err != nil {
+			// if there is an error writing to
+			// the client, there is not much
+			// point trying to send an ERROR frame,
+			// so just exit go-routine (after cleaning up)
+			return false
+		}
+
+		if sub.ack == frame.AckAuto {
+			// subscription does not require acknowledgement,
+			// so send the subscription back the upper layer
+			// straight away
+			sub.frame = nil
+			c.request(Request{Op: SubscribeOp, Sub: sub})
+		} else {
+			// subscription requires acknowledgement
+			c.subList.Add(sub)
+		}
+	} else {
+		// Subscription no longer exists, requeue
+		c.request(Request{Op: RequeueOp, Frame: sub.frame})
+	}
+	return true
+}
+
 // Called when the connection is closing, and takes care of
 // unsubscribing all subscriptions with the upper layer, and
 // re-queueing all unacknowledged messages to the upper layer.
@@ -342,7 +385,7 @@ func (c *Conn) cleanupConn() {
 		// Note that we only really need to send a request if the
 		// subscription does not have a frame, but for simplicity
 		// all subscriptions are unsubscribed from the upper layer.
-		c.requestChannel <- Request{Op: UnsubscribeOp, Sub: sub}
+		c.request(Request{Op: UnsubscribeOp, Sub: sub})
 	}
 
 	// Clear out the map of subscriptions
@@ -351,7 +394,7 @@ func (c *Conn) cleanupConn() {
 	// Every subscription requiring acknowledgement has a frame
 	// that needs to be requeued in the upper layer
 	for sub := c.subList.Get(); sub != nil; sub = c.subList.Get() {
-		c.requestChannel <- Request{Op: RequeueOp, Frame: sub.frame}
+		c.request(Request{Op: RequeueOp, Frame: sub.frame})
 	}
 
 	// empty the subscription and write queue
@@ -359,7 +402,7 @@ func (c *Conn) cleanupConn() {
 	c.cleanupSubChannel()
 
 	// Tell the upper layer we are now disconnected
-	c.requestChannel <- Request{Op: DisconnectedOp, Conn: c}
+	c.request(Request{Op: DisconnectedOp, Conn: c})
 
 	// empty the subscription and write queue one more time
 	c.discardWriteChannelFrames()
@@ -395,7 +438,7 @@ func (c *Conn) cleanupSubChannel() {
 			if !ok {
 				finished = true
 			} else {
-				c.requestChannel <- Request{Op: RequeueOp, Frame: sub.frame}
+				c.request(Request{Op: RequeueOp, Frame: sub.frame})
 			}
 
 		default:
@@ -561,7 +604,7 @@ func (c *Conn) handleConnect(f *frame.Frame) error {
 	c.stateFunc = connected
 
 	// tell the upper layer we are connected
-	c.requestChannel <- Request{Op: ConnectedOp, Conn: c}
+	c.request(Request{Op: ConnectedOp, Conn: c})
 
 	return nil
 }
@@ -636,7 +679,7 @@ func (c *Conn) handleSubscribe(f *frame.Frame) error {
 	c.subs[id] = sub
 
 	// send information about new subscription to upper layer
-	c.requestChannel <- Request{Op: SubscribeOp, Sub: sub}
+	c.request(Request{Op: SubscribeOp, Sub: sub})
 	return nil
 }
 
@@ -655,7 +698,7 @@ func (c *Conn) handleUnsubscribe(f *frame.Frame) error {
 	delete(c.subs, id)
 
 	// tell the upper layer of the unsubscribe
-	c.requestChannel <- Request{Op: UnsubscribeOp, Sub: sub}
+	c.request(Request{Op: UnsubscribeOp, Sub: sub})
 	return nil
 }
 
@@ -698,7 +741,7 @@ func (c *Conn) handleAck(f *frame.Frame) error {
 
 			// let the upper layer know that this subscription
 			// is ready for another frame
-			c.requestChannel <- Request{Op: SubscribeOp, Sub: s}
+			c.request(Request{Op: SubscribeOp, Sub: s})
 		}
 	}
 
@@ -721,14 +764,14 @@ func (c *Conn) handleNack(f *frame.Frame) error {
 		// handle the subscription that is rejected by this msg, if any
 		if s := c.subList.findByMsgIdAndRemove(msgId64); s != nil {
 			// send frame back to upper layer for requeue
-			c.requestChannel <- Request{Op: RequeueOp, Frame: s.frame}
+			c.request(Request{Op: RequeueOp, Frame: s.frame})
 
 			// remove frame from the subscription, it has been requeued
 			s.frame = nil
 
 			// let the upper layer know that this subscription
 			// is ready for another frame
-			c.requestChannel <- Request{Op: SubscribeOp, Sub: s}
+			c.request(Request{Op: SubscribeOp, Sub: s})
 		}
 	}
 	return nil
@@ -752,7 +795,7 @@ func (c *Conn) handleSend(f *frame.Frame) error {
 		// not in a transaction
 		// change from SEND to MESSAGE
 		f.Command = frame.MESSAGE
-		c.requestChannel <- Request{Op: EnqueueOp, Frame: f}
+		c.request(Request{Op: EnqueueOp, Frame: f})
 	}
 
 	return nil
-- 
2.43.0


From 2b6674eb46589b08405fa424837244e4a6b55d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:42 +0000
Subject: [PATCH 06/25] fix: return the unacknowledged message of a
 subscription that ends

UNSUBSCRIBE kept the message its subscription held: it stayed with the
connection until that closed, and acknowledging it afterwards made the
ended subscription receive again. A subscription reusing the id got the
message that was on its way to the old one.
---
 server/client/conn.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/server/client/conn.go b/server/client/conn.go
index 069126f..d587138 100644
--- a/server/client/conn.go
+++ b/server/client/conn.go
@@ -335,8 +335,8 @@ func (c *Conn) writeFrame(f *frame.Frame) bool {
 func (c *Conn) writeSubscription(sub *Subscription) bool {
 	// there is the possibility that the subscription
 	// has been unsubscribed just prior to receiving
-	// this, so we check
-	if _, ok := c.subs[sub.id]; ok {
+	// this (and its id might be in use again), so we check
+	if c.subs[sub.id] == sub {
 		// allocate a message-id, note that the
 		// subscription id has already been set
 		c.allocateMessageId(sub.frame, sub)
@@ -699,6 +699,12 @@ func (c *Conn) handleUnsubscribe(f *frame.Frame) error {
 
 	// tell the upper layer of the unsubscribe
 	c.request(Request{Op: UnsubscribeOp, Sub: sub})
+
+	// a message that was not acknowledged goes back to its queue
+	if c.subList.FindByIdAndRemove(id) != nil {
+		c.request(Request{Op: RequeueOp, Frame: sub.frame})
+		sub.frame = nil
+	}
 	return nil
 }
 
-- 
2.43.0


From c64b48e9add041717c443396efb1b8d77a8c2c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:45 +0000
Subject: [PATCH 07/25] fix: do not send topic messages for subscriptions that
 have ended

Messages already on their way when the client unsubscribed were sent to
it after the UNSUBSCRIBE had been processed, and to whatever subscription
used the same id by then.
---
 server/client/conn.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/server/client/conn.go b/server/client/conn.go
index d587138..b4058a3 100644
--- a/server/client/conn.go
+++ b/server/client/conn.go
@@ -313,6 +313,15 @@ func (c *Conn) request(r Request) {
 // Writes a frame with no acknowledgement required (topic) to the
 // client. Returns false if the connection is finished.
 func (c *Conn) writeFrame(f *frame.Frame) bool {
+	if id, ok := f.Header.Contains(frame.Subscription); ok && f.Command == frame.MESSAGE {
+		// the subscription might have been unsubscribed just prior
+		// to receiving this, and its id might be in use again
+		sub, ok := c.subs[id]
+		if !ok || sub.dest != f.Header.Get(frame.Destination) {
+			return true
+		}
+	}
+
 	c.allocateMessageId(f, nil)
 
 	// write the frame to the client
-- 
2.43.0


From 09aa0f7d07a7d3b638c08f53c085d83428280411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:52 +0000
Subject: [PATCH 08/25] fix: do not lose messages on their way to a connection
 that ends

The request processor could still hand frames to a connection after its
cleanup had emptied the channels, which lost the messages and, once the
channels were full, stopped the server. Wait until the request processor
has seen the end of the connection. Also requeue the message whose write
failed, and requeue in the order that restores the queue.
---
 server/client/conn.go | 51 +++++++++++++++++++++++++++++++------------
 server/processor.go   |  3 +++
 2 files changed, 40 insertions(+), 14 deletions(-)

diff --git a/server/client/conn.go b/server/client/conn.go
index b4058a3..5597f8f 100644
--- a/server/client/conn.go
+++ b/server/client/conn.go
@@ -40,6 +40,7 @@ type Conn struct {
 	subs           map[string]*Subscription            // All subscriptions, keyed by id
 	pendingWrites  []*frame.Frame                      // Received from writeChannel while sending a request
 	pendingSubs    []*Subscription                     // Received from subChannel while sending a request
+	released       chan struct{}                       // Closed when the upper layer has released the connection
 	validator      stomp.Validator                     // For validating STOMP frames
 	log            stomp.Logger
 }
@@ -60,6 +61,7 @@ func NewConn(config Config, rw net.Conn, ch chan Request) *Conn {
 		txStore:        &txStore{},
 		subList:        NewSubscriptionList(),
 		subs:           make(map[string]*Subscription),
+		released:       make(chan struct{}),
 		log:            config.Logger(),
 	}
 	go c.readLoop()
@@ -356,7 +358,9 @@ func (c *Conn) writeSubscription(sub *Subscription) bool {
 			// if there is an error writing to
 			// the client, there is not much
 			// point trying to send an ERROR frame,
-			// so just exit go-routine (after cleaning up)
+			// so just exit go-routine (after cleaning up,
+			// which requeues the frame)
+			c.subList.Add(sub)
 			return false
 		}
 
@@ -400,27 +404,46 @@ func (c *Conn) cleanupConn() {
 	// Clear out the map of subscriptions
 	c.subs = nil
 
-	// Every subscription requiring acknowledgement has a frame
-	// that needs to be requeued in the upper layer
-	for sub := c.subList.Get(); sub != nil; sub = c.subList.Get() {
-		c.request(Request{Op: RequeueOp, Frame: sub.frame})
-	}
-
-	// empty the subscription and write queue
-	c.discardWriteChannelFrames()
-	c.cleanupSubChannel()
-
-	// Tell the upper layer we are now disconnected
+	// Tell the upper layer we are now disconnected. Until it has
+	// processed this request, it may still send frames.
 	c.request(Request{Op: DisconnectedOp, Conn: c})
+	for released := false; !released; {
+		select {
+		case <-c.writeChannel:
+		case sub := <-c.subChannel:
+			c.pendingSubs = append(c.pendingSubs, sub)
+		case <-c.released:
+			released = true
+		}
+	}
 
 	// empty the subscription and write queue one more time
 	c.discardWriteChannelFrames()
 	c.cleanupSubChannel()
 
+	// Every subscription requiring acknowledgement has a frame that
+	// needs to be requeued in the upper layer, and so has every
+	// subscription whose frame was not sent. Requeued frames go to the
+	// head of the queue, so start with the last one to keep the order.
+	var unacked []*Subscription
+	for sub := c.subList.Get(); sub != nil; sub = c.subList.Get() {
+		unacked = append(unacked, sub)
+	}
+	unacked = append(unacked, c.pendingSubs...)
+	for i := len(unacked) - 1; i >= 0; i-- {
+		c.request(Request{Op: RequeueOp, Frame: unacked[i].frame})
+	}
+
 	// Should not hurt to call this if it is already closed?
 	c.rw.Close()
 }
 
+// Released is called by the upper layer when it has processed a
+// DisconnectedOp request, after which it sends no more frames.
+func (c *Conn) Released() {
+	close(c.released)
+}
+
 // Discard anything on the write channel. These frames
 // do not get acknowledged, and are either topic MESSAGE
 // frames or ERROR frames.
@@ -440,14 +463,14 @@ func (c *Conn) discardWriteChannelFrames() {
 
 func (c *Conn) cleanupSubChannel() {
 	// Read the subscription channel until it is empty.
-	// Each frame should be requeued to the upper layer.
+	// Each frame has to be requeued to the upper layer.
 	for finished := false; !finished; {
 		select {
 		case sub, ok := <-c.subChannel:
 			if !ok {
 				finished = true
 			} else {
-				c.request(Request{Op: RequeueOp, Frame: sub.frame})
+				c.pendingSubs = append(c.pendingSubs, sub)
 			}
 
 		default:
diff --git a/server/processor.go b/server/processor.go
index 291845a..337c261 100644
--- a/server/processor.go
+++ b/server/processor.go
@@ -89,6 +89,9 @@ func (proc *requestProcessor) Serve(l net.Listener) error {
 				queue := proc.qm.Find(destination)
 				queue.Requeue(r.Frame)
 			}
+
+		case client.DisconnectedOp:
+			r.Conn.Released()
 		}
 	}
 	// this is no longer required for go 1.1
-- 
2.43.0


From 679b838c15186e58c38ead5767779594d968edc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:55 +0000
Subject: [PATCH 09/25] fix: end the read loop of a connection that has been
 closed

It stayed blocked for ever when the client had sent more frames than fit
into the read channel, for instance behind a frame that was rejected.
---
 server/client/conn.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/server/client/conn.go b/server/client/conn.go
index 5597f8f..f887407 100644
--- a/server/client/conn.go
+++ b/server/client/conn.go
@@ -436,6 +436,10 @@ func (c *Conn) cleanupConn() {
 
 	// Should not hurt to call this if it is already closed?
 	c.rw.Close()
+
+	// The read loop might be waiting to pass on a frame
+	for range c.readChannel {
+	}
 }
 
 // Released is called by the upper layer when it has processed a
-- 
2.43.0


From f88d1e636a2f324842e7e9a9ff3fc862fdc2583e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:56 +0000
Subject: [PATCH 10/25] fix: keep subscriptions that meet a storage error

A subscription whose Dequeue failed was forgotten, so it never received
another message.
---
 server/queue/queue.go | 40 ++++++++++++++++++++++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/server/queue/queue.go b/server/queue/queue.go
index 6b7beab..857b90c 100644
--- a/server/queue/queue.go
+++ b/server/queue/queue.go
@@ -13,6 +13,7 @@ type Queue struct {
 	destination string
 	qstore      Storage
 	subs        *client.SubscriptionList
+	retry       bool // subscriptions are waiting because of a storage error
 }
 
 // Create a new queue -- called from the queue manager only.
@@ -29,9 +30,17 @@ func newQueue(destination string, qstore Storage) *Queue {
 // be re-added when the subscription decides that the message
 // has been received by the client.
 func (q *Queue) Subscribe(sub *client.Subscription) error {
+	if q.retry {
+		q.subs.Add(sub)
+		return q.serve()
+	}
+
 	// see if there is a frame available for this subscription
 	f, err := q.qstore.Dequeue(sub.Destination())
 	if err != nil {
+		// not known, so keep the subscription for a later attempt
+		q.subs.Add(sub)
+		q.retry = true
 		return err
 	}
 	if f == nil {
@@ -45,6 +54,23 @@ func (q *Queue) Subscribe(sub *client.Subscription) error {
 	return nil
 }
 
+// Send the frames in the storage to the waiting subscriptions. Called
+// after storage errors only, because otherwise there are either no
+// frames in the storage or no waiting subscriptions.
+func (q *Queue) serve() error {
+	q.retry = false
+	for sub := q.subs.Get(); sub != nil; sub = q.subs.Get() {
+		f, err := q.qstore.Dequeue(q.destination)
+		if f == nil || err != nil {
+			q.subs.Add(sub)
+			q.retry = err != nil
+			return err
+		}
+		sub.SendQueueFrame(f)
+	}
+	return nil
+}
+
 // Unsubscribe a subscription.
 func (q *Queue) Unsubscribe(sub *client.Subscription) {
 	q.subs.Remove(sub)
@@ -55,6 +81,13 @@ func (q *Queue) Unsubscribe(sub *client.Subscription) {
 // making it to the queue. Otherwise, the message is queued until
 // a message is available.
 func (q *Queue) Enqueue(f *frame.Frame) error {
+	if q.retry {
+		// there might be frames in the storage already
+		err := q.qstore.Enqueue(q.destination, f)
+		q.serve()
+		return err
+	}
+
 	// find a subscription ready to receive the frame
 	sub := q.subs.Get()
 	if sub == nil {
@@ -73,6 +106,13 @@ func (q *Queue) Enqueue(f *frame.Frame) error {
 // making it to the queue. Otherwise, the message is queued until
 // a message is available.
 func (q *Queue) Requeue(f *frame.Frame) error {
+	if q.retry {
+		// there might be frames in the storage already
+		err := q.qstore.Requeue(q.destination, f)
+		q.serve()
+		return err
+	}
+
 	// find a subscription ready to receive the frame
 	sub := q.subs.Get()
 	if sub == nil {
-- 
2.43.0


From 94c388922f84b32850d67a86d38d0c7c08d997ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:58 +0000
Subject: [PATCH 11/25] fix: start the queue storage at server startup

The QueueStorage interface promises it, and nothing did it.
---
 server/processor.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/server/processor.go b/server/processor.go
index 337c261..cd342d2 100644
--- a/server/processor.go
+++ b/server/processor.go
@@ -30,6 +30,7 @@ func newRequestProcessor(server *Server) *requestProcessor {
 	if server.QueueStorage == nil {
 		proc.qm = queue.NewManager(queue.NewMemoryQueueStorage())
 	} else {
+		server.QueueStorage.Start()
 		proc.qm = queue.NewManager(server.QueueStorage)
 	}
 
-- 
2.43.0


From 71a88258474518e7e85a7da735153ba97b98f07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:28 +0000
Subject: [PATCH 12/25] fix: do not take a client that is sending a large frame
 for a dead one

The heart-beat timeout covered reading a whole frame, so a client was
disconnected while it was sending, if that took long enough.
---
 server/client/conn.go | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/server/client/conn.go b/server/client/conn.go
index f887407..fec5b4c 100644
--- a/server/client/conn.go
+++ b/server/client/conn.go
@@ -113,22 +113,33 @@ func (c *Conn) sendImmediately(f *frame.Frame) error {
 	return c.writer.Write(f)
 }
 
+// Reads from the connection, allowing twice the heart-beat timeout for
+// each read to return something: a frame may take longer to arrive.
+type timeoutReader struct {
+	rw      net.Conn
+	timeout time.Duration
+}
+
+func (r *timeoutReader) Read(p []byte) (int, error) {
+	if r.timeout == time.Duration(0) {
+		// infinite timeout
+		r.rw.SetReadDeadline(time.Time{})
+	} else {
+		r.rw.SetReadDeadline(time.Now().Add(r.timeout * 2))
+	}
+	return r.rw.Read(p)
+}
+
 // Go routine for reading bytes from a client and assembling into
 // STOMP frames. Also handles heart-beat read timeout. All read
 // frames are pushed onto the read channel to be processed by the
 // processLoop go-routine. This keeps all processing of frames for
 // this connection on the one go-routine and avoids race conditions.
 func (c *Conn) readLoop() {
-	reader := frame.NewReader(c.rw)
+	rw := &timeoutReader{rw: c.rw}
+	reader := frame.NewReader(rw)
 	expectingConnect := true
-	readTimeout := time.Duration(0)
 	for {
-		if readTimeout == time.Duration(0) {
-			// infinite timeout
-			c.rw.SetReadDeadline(time.Time{})
-		} else {
-			c.rw.SetReadDeadline(time.Now().Add(readTimeout * 2))
-		}
 		f, err := reader.Read()
 		if err != nil {
 			if err == io.EOF {
@@ -173,7 +184,7 @@ func (c *Conn) readLoop() {
 					cx = min
 				}
 
-				readTimeout = time.Duration(cx) * time.Millisecond
+				rw.timeout = time.Duration(cx) * time.Millisecond
 
 				expectingConnect = false
 			}
-- 
2.43.0


From 57c3f9077cb2bee75e8eed58bf103ce8d3c7fdd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:31 +0000
Subject: [PATCH 13/25] fix: disconnect a client that has stopped reading

The connection blocked in a write without end, and as soon as its
channels were full so did the request processor, and with it the server.
---
 server/client/conn.go | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/server/client/conn.go b/server/client/conn.go
index fec5b4c..dc4b97b 100644
--- a/server/client/conn.go
+++ b/server/client/conn.go
@@ -21,6 +21,14 @@ const maxPendingWrites = 16
 // go routine starts blocking.
 const maxPendingReads = 16
 
+// Maximum time for the client to accept some of the data sent to it
+// before a disconnect occurs. The server cannot go on without it, so
+// a client that has stopped reading would stop service to the others.
+const maxWriteStall = 10 * time.Second
+
+// Maximum number of bytes the client has to accept in that time.
+const maxWriteSize = 16384
+
 // Represents a connection with the STOMP client.
 type Conn struct {
 	config         Config
@@ -130,6 +138,26 @@ func (r *timeoutReader) Read(p []byte) (int, error) {
 	return r.rw.Read(p)
 }
 
+// Writes to the connection, with a time limit for every part of the data.
+type timeoutWriter struct {
+	rw net.Conn
+}
+
+func (w timeoutWriter) Write(p []byte) (n int, err error) {
+	for n < len(p) && err == nil {
+		part := p[n:]
+		if len(part) > maxWriteSize {
+			part = part[:maxWriteSize]
+		}
+
+		var written int
+		w.rw.SetWriteDeadline(time.Now().Add(maxWriteStall))
+		written, err = w.rw.Write(part)
+		n += written
+	}
+	return n, err
+}
+
 // Go routine for reading bytes from a client and assembling into
 // STOMP frames. Also handles heart-beat read timeout. All read
 // frames are pushed onto the read channel to be processed by the
@@ -202,7 +230,7 @@ func (c *Conn) readLoop() {
 func (c *Conn) processLoop() {
 	defer c.cleanupConn()
 
-	c.writer = frame.NewWriter(c.rw)
+	c.writer = frame.NewWriter(timeoutWriter{c.rw})
 	c.stateFunc = connecting
 
 	var timerChannel <-chan time.Time
-- 
2.43.0


From bfdca9c82b19dfcea6157c73e5e0911f00aa6a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:16 +0000
Subject: [PATCH 14/25] fix: give topic messages the ack header their
 subscription calls for

STOMP 1.2 requires it for subscriptions that are not automatic, and
without it a client of this library cannot acknowledge the message.
---
 server/client/conn.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/server/client/conn.go b/server/client/conn.go
index dc4b97b..a7ce0f9 100644
--- a/server/client/conn.go
+++ b/server/client/conn.go
@@ -354,16 +354,17 @@ func (c *Conn) request(r Request) {
 // Writes a frame with no acknowledgement required (topic) to the
 // client. Returns false if the connection is finished.
 func (c *Conn) writeFrame(f *frame.Frame) bool {
+	var sub *Subscription
 	if id, ok := f.Header.Contains(frame.Subscription); ok && f.Command == frame.MESSAGE {
 		// the subscription might have been unsubscribed just prior
 		// to receiving this, and its id might be in use again
-		sub, ok := c.subs[id]
+		sub, ok = c.subs[id]
 		if !ok || sub.dest != f.Header.Get(frame.Destination) {
 			return true
 		}
 	}
 
-	c.allocateMessageId(f, nil)
+	c.allocateMessageId(f, sub)
 
 	// write the frame to the client
 	err := c.writer.Write(f)
-- 
2.43.0


From 5d16018da2d589d6999601343edf3addbc563b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:19 +0000
Subject: [PATCH 15/25] fix: do not send topic messages of an ended
 subscription to its successor

Messages on their way to a topic subscription when it ended went to a
new subscription of the same client with the same id and destination.
---
 server/client/conn.go         | 32 ++++++++++++++++++--------------
 server/client/subscription.go |  2 +-
 2 files changed, 19 insertions(+), 15 deletions(-)

diff --git a/server/client/conn.go b/server/client/conn.go
index a7ce0f9..2ee54ad 100644
--- a/server/client/conn.go
+++ b/server/client/conn.go
@@ -29,6 +29,13 @@ const maxWriteStall = 10 * time.Second
 // Maximum number of bytes the client has to accept in that time.
 const maxWriteSize = 16384
 
+// A frame on its way to the client, and the topic subscription
+// it is sent for (nil if there is none).
+type outgoing struct {
+	frame *frame.Frame
+	sub   *Subscription
+}
+
 // Represents a connection with the STOMP client.
 type Conn struct {
 	config         Config
@@ -36,7 +43,7 @@ type Conn struct {
 	writer         *frame.Writer                       // Writes STOMP frames directly to the network connection
 	requestChannel chan Request                        // For sending requests to upper layer
 	subChannel     chan *Subscription                  // Receives subscription messages for client
-	writeChannel   chan *frame.Frame                   // Receives unacknowledged (topic) messages for client
+	writeChannel   chan outgoing                       // Receives unacknowledged (topic) messages for client
 	readChannel    chan *frame.Frame                   // Receives frames from the client
 	stateFunc      func(c *Conn, f *frame.Frame) error // State processing function
 	writeTimeout   time.Duration                       // Heart beat write timeout
@@ -46,7 +53,7 @@ type Conn struct {
 	lastMsgId      uint64                              // last message-id value
 	subList        *SubscriptionList                   // List of subscriptions requiring acknowledgement
 	subs           map[string]*Subscription            // All subscriptions, keyed by id
-	pendingWrites  []*frame.Frame                      // Received from writeChannel while sending a request
+	pendingWrites  []outgoing                          // Received from writeChannel while sending a request
 	pendingSubs    []*Subscription                     // Received from subChannel while sending a request
 	released       chan struct{}                       // Closed when the upper layer has released the connection
 	validator      stomp.Validator                     // For validating STOMP frames
@@ -64,7 +71,7 @@ func NewConn(config Config, rw net.Conn, ch chan Request) *Conn {
 		rw:             rw,
 		requestChannel: ch,
 		subChannel:     make(chan *Subscription, maxPendingWrites),
-		writeChannel:   make(chan *frame.Frame, maxPendingWrites),
+		writeChannel:   make(chan outgoing, maxPendingWrites),
 		readChannel:    make(chan *frame.Frame, maxPendingReads),
 		txStore:        &txStore{},
 		subList:        NewSubscriptionList(),
@@ -82,7 +89,7 @@ func NewConn(config Config, rw net.Conn, ch chan Request) *Conn {
 func (c *Conn) Send(f *frame.Frame) {
 	// Place the frame on the write channel. If the
 	// write channel is full, the caller will block.
-	c.writeChannel <- f
+	c.writeChannel <- outgoing{frame: f}
 }
 
 // Send and ERROR message to the client. The client
@@ -353,18 +360,15 @@ func (c *Conn) request(r Request) {
 
 // Writes a frame with no acknowledgement required (topic) to the
 // client. Returns false if the connection is finished.
-func (c *Conn) writeFrame(f *frame.Frame) bool {
-	var sub *Subscription
-	if id, ok := f.Header.Contains(frame.Subscription); ok && f.Command == frame.MESSAGE {
-		// the subscription might have been unsubscribed just prior
-		// to receiving this, and its id might be in use again
-		sub, ok = c.subs[id]
-		if !ok || sub.dest != f.Header.Get(frame.Destination) {
-			return true
-		}
+func (c *Conn) writeFrame(o outgoing) bool {
+	f := o.frame
+	if o.sub != nil && c.subs[o.sub.id] != o.sub {
+		// the subscription has been unsubscribed just prior
+		// to receiving this (and its id might be in use again)
+		return true
 	}
 
-	c.allocateMessageId(f, sub)
+	c.allocateMessageId(f, o.sub)
 
 	// write the frame to the client
 	err := c.writer.Write(f)
diff --git a/server/client/subscription.go b/server/client/subscription.go
index a9f1757..96fffbe 100644
--- a/server/client/subscription.go
+++ b/server/client/subscription.go
@@ -73,7 +73,7 @@ func (s *Subscription) SendTopicFrame(f *frame.Frame) {
 
 	// topics are handled differently, they just go
 	// straight to the client without acknowledgement
-	s.conn.writeChannel <- f
+	s.conn.writeChannel <- outgoing{frame: f, sub: s}
 }
 
 func (s *Subscription) setSubscriptionHeader(f *frame.Frame) {
-- 
2.43.0


From 17e489cbd255d838d128411c9f5085d1838dab6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:43 +0000
Subject: [PATCH 16/25] fix: keep up heart-beats while the request processor is
 busy

A connection waiting for the request processor sent no heart-beats. The
processor may be held up for seconds by a client that has stopped reading,
long enough for other clients to give up the connection.
---
 server/client/conn.go | 62 ++++++++++++++++++++++++++-----------------
 1 file changed, 37 insertions(+), 25 deletions(-)

diff --git a/server/client/conn.go b/server/client/conn.go
index 2ee54ad..0783439 100644
--- a/server/client/conn.go
+++ b/server/client/conn.go
@@ -47,6 +47,7 @@ type Conn struct {
 	readChannel    chan *frame.Frame                   // Receives frames from the client
 	stateFunc      func(c *Conn, f *frame.Frame) error // State processing function
 	writeTimeout   time.Duration                       // Heart beat write timeout
+	writeTimer     *time.Timer                         // Heart beat write timer, nil if not running
 	version        stomp.Version                       // Negotiated STOMP protocol version
 	closed         bool                                // Is the connection closed
 	txStore        *txStore                            // Stores transactions in progress
@@ -240,14 +241,7 @@ func (c *Conn) processLoop() {
 	c.writer = frame.NewWriter(timeoutWriter{c.rw})
 	c.stateFunc = connecting
 
-	var timerChannel <-chan time.Time
-	var timer *time.Timer
 	for {
-		if c.writeTimeout > 0 && timer == nil {
-			timer = time.NewTimer(c.writeTimeout)
-			timerChannel = timer.C
-		}
-
 		// Frames that arrived while waiting for the upper layer go first.
 		if len(c.pendingWrites) > 0 {
 			f := c.pendingWrites[0]
@@ -274,12 +268,7 @@ func (c *Conn) processLoop() {
 				return
 			}
 
-			// stop the heart-beat timer
-			if timer != nil {
-				timer.Stop()
-				timer = nil
-			}
-
+			c.stopHeartBeat()
 			if !c.writeFrame(f) {
 				return
 			}
@@ -318,22 +307,13 @@ func (c *Conn) processLoop() {
 				return
 			}
 
-			// stop the heart-beat timer
-			if timer != nil {
-				timer.Stop()
-				timer = nil
-			}
-
+			c.stopHeartBeat()
 			if !c.writeSubscription(sub) {
 				return
 			}
 
-		case _ = <-timerChannel:
-			// stop the heart-beat timer
-			if timer != nil {
-				timer.Stop()
-				timer = nil
-			}
+		case _ = <-c.heartBeat():
+			c.stopHeartBeat()
 			// write a heart-beat
 			err := c.writer.Write(nil)
 			if err != nil {
@@ -343,8 +323,29 @@ func (c *Conn) processLoop() {
 	}
 }
 
+// Returns the channel of the heart-beat timer, which it starts if necessary,
+// or nil if the client does not want heart-beats.
+func (c *Conn) heartBeat() <-chan time.Time {
+	if c.writeTimeout <= 0 {
+		return nil
+	}
+	if c.writeTimer == nil {
+		c.writeTimer = time.NewTimer(c.writeTimeout)
+	}
+	return c.writeTimer.C
+}
+
+// Stops the heart-beat timer, because something is written.
+func (c *Conn) stopHeartBeat() {
+	if c.writeTimer != nil {
+		c.writeTimer.Stop()
+		c.writeTimer = nil
+	}
+}
+
 // Sends a request to the upper layer. The upper layer might be waiting
 // for this connection to accept a frame, so accept frames until it is ready.
+// That may take some time, so keep up the heart-beat.
 func (c *Conn) request(r Request) {
 	for {
 		select {
@@ -354,6 +355,13 @@ func (c *Conn) request(r Request) {
 			c.pendingWrites = append(c.pendingWrites, f)
 		case sub := <-c.subChannel:
 			c.pendingSubs = append(c.pendingSubs, sub)
+		case _ = <-c.heartBeat():
+			c.stopHeartBeat()
+			if err := c.writer.Write(nil); err != nil {
+				// makes the read loop finish, and with it the connection
+				c.writeTimeout = 0
+				c.rw.Close()
+			}
 		}
 	}
 }
@@ -429,6 +437,10 @@ func (c *Conn) writeSubscription(sub *Subscription) bool {
 // unsubscribing all subscriptions with the upper layer, and
 // re-queueing all unacknowledged messages to the upper layer.
 func (c *Conn) cleanupConn() {
+	// no more heart-beats
+	c.stopHeartBeat()
+	c.writeTimeout = 0
+
 	// clean up any pending transactions
 	c.txStore.Init()
 
-- 
2.43.0


From f9aa410f17adf2b93597e03708211f71e41c1554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:54 +0000
Subject: [PATCH 17/25] fix: let the caller of Send reuse its buffer

---
 conn.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/conn.go b/conn.go
index 94c3108..243f802 100644
--- a/conn.go
+++ b/conn.go
@@ -613,7 +613,9 @@ func createSendFrame(destination, contentType string, body []byte, opts []func(*
 	// Set the content-length before the options, because this provides
 	// an opportunity to remove content-length.
 	f := frame.New(frame.SEND, frame.ContentLength, strconv.Itoa(len(body)))
-	f.Body = body
+	// The frame is written later by another goroutine: take a copy, because
+	// the caller is free to use its buffer again once Send has returned.
+	f.Body = append([]byte(nil), body...)
 	f.Header.Set(frame.Destination, destination)
 	if contentType != "" {
 		f.Header.Set(frame.ContentType, contentType)
-- 
2.43.0


From 02de461f236597c57306984bd8af8ff674a8ea9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:50 +0000
Subject: [PATCH 18/25] fix: expect no heart-beats unless both sides agreed on
 them

---
 conn.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/conn.go b/conn.go
index 243f802..af5872a 100644
--- a/conn.go
+++ b/conn.go
@@ -209,7 +209,11 @@ func ConnectWithContext(ctx context.Context, conn io.ReadWriteCloser, opts ...fu
 			}
 		}
 
-		if readTimeout < options.ReadTimeout {
+		if readTimeout == 0 || options.ReadTimeout == 0 {
+			// one side cannot send heart-beats, or the other side does not
+			// want them
+			readTimeout = 0
+		} else if readTimeout < options.ReadTimeout {
 			readTimeout = options.ReadTimeout
 		}
 
-- 
2.43.0


From df7e6baaf2c983b419534f743144fe5ac829377f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:57 +0000
Subject: [PATCH 19/25] fix: close the network connection when Dial fails to
 connect

---
 conn.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/conn.go b/conn.go
index af5872a..cd89699 100644
--- a/conn.go
+++ b/conn.go
@@ -71,7 +71,8 @@ func Dial(network, addr string, opts ...func(*Conn) error) (*Conn, error) {
 }
 
 func DialWithContext(ctx context.Context, network, addr string, opts ...func(*Conn) error) (*Conn, error) {
-	c, err := net.Dial(network, addr)
+	var dialer net.Dialer
+	c, err := dialer.DialContext(ctx, network, addr)
 	if err != nil {
 		return nil, err
 	}
@@ -86,7 +87,12 @@ func DialWithContext(ctx context.Context, network, addr string, opts ...func(*Co
 	// so that if host has been explicitly specified it will override.
 	opts = append([]func(*Conn) error{ConnOpt.Host(host)}, opts...)
 
-	return ConnectWithContext(ctx, c, opts...)
+	conn, err := ConnectWithContext(ctx, c, opts...)
+	if err != nil {
+		c.Close()
+		return nil, err
+	}
+	return conn, nil
 }
 
 // Connect creates a STOMP connection and performs the STOMP connect
-- 
2.43.0


From bb7799cdb532ce4ea8a4a10ecaab9b7e0c37a96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:07 +0000
Subject: [PATCH 20/25] fix: end pending calls and subscriptions properly when
 the connection is over

Several goroutines closed the same channels, so that calls panicked with
"send on closed channel", and calls that waited for a receipt, or for room
on the write channel, were never answered or only after their timeout when
the connection ended meanwhile. Now there is one place that ends a connection,
every queued request is answered, the channel of a subscription is closed by
its own goroutine only, and a subscriber that is slow to read does not stop
anything but the delivery of messages.
---
 conn.go         | 597 ++++++++++++++++++++++++++++--------------------
 subscription.go | 170 +++++++-------
 transaction.go  |  10 +-
 3 files changed, 438 insertions(+), 339 deletions(-)

diff --git a/conn.go b/conn.go
index cd89699..6867d45 100644
--- a/conn.go
+++ b/conn.go
@@ -50,6 +50,11 @@ type Conn struct {
 	hbGracePeriodMultiplier   float64
 	closed                    bool
 	closeMutex                *sync.Mutex
+	closeOnce                 sync.Once
+	failed                    chan struct{} // closed when the connection is over
+	failure                   *frame.Frame  // why it is over, once failed is closed
+	sendLock                  chan struct{} // held while queueing a request
+	disconnectLock            chan struct{} // held while disconnecting
 	options                   *connOptions
 	log                       Logger
 	writesSent                int64
@@ -57,6 +62,10 @@ type Conn struct {
 	statsEnabled              bool
 }
 
+// A writeRequest that has been put on the write channel is always answered: a
+// receipt request gets the RECEIPT frame, or an ERROR frame when the connection
+// ends without one. Response channels for receipts have room for that one frame,
+// so that the answer never has to wait for the caller.
 type writeRequest struct {
 	Frame *frame.Frame      // frame to send
 	C     chan *frame.Frame // response channel
@@ -104,12 +113,16 @@ func Connect(conn io.ReadWriteCloser, opts ...func(*Conn) error) (*Conn, error)
 }
 
 func ConnectWithContext(ctx context.Context, conn io.ReadWriteCloser, opts ...func(*Conn) error) (*Conn, error) {
-	reader := frame.NewReader(conn)
+	input := &timeoutReader{Reader: conn}
+	reader := frame.NewReader(input)
 	writer := frame.NewWriter(conn)
 
 	c := &Conn{
-		conn:       conn,
-		closeMutex: &sync.Mutex{},
+		conn:           conn,
+		closeMutex:     &sync.Mutex{},
+		failed:         make(chan struct{}),
+		sendLock:       make(chan struct{}, 1),
+		disconnectLock: make(chan struct{}, 1),
 	}
 
 	options, err := newConnOptions(c, opts)
@@ -120,7 +133,7 @@ func ConnectWithContext(ctx context.Context, conn io.ReadWriteCloser, opts ...fu
 	c.log = options.Logger
 
 	if options.ReadBufferSize > 0 {
-		reader = frame.NewReaderSize(conn, options.ReadBufferSize)
+		reader = frame.NewReaderSize(input, options.ReadBufferSize)
 	}
 
 	if options.WriteBufferSize > 0 {
@@ -247,6 +260,13 @@ func ConnectWithContext(ctx context.Context, conn io.ReadWriteCloser, opts ...fu
 		options.ResponseHeadersCallback(response.Header)
 	}
 
+	if c.readTimeout > 0 {
+		input.timeout = time.Duration(float64(c.readTimeout) * c.hbGracePeriodMultiplier)
+		input.expired = func() {
+			c.shutdown(errorFrame("read timeout"))
+		}
+	}
+
 	go readLoop(c, reader)
 	go processLoop(c, writer)
 
@@ -294,73 +314,234 @@ func (c *Conn) Stats() ConnectionStats {
 	}
 }
 
+// shutdown ends the connection: no more requests are accepted, the transport is
+// closed, and the goroutines of the connection come to an end. Only the first
+// call has an effect, and its frame is what subscriptions and pending receipt
+// requests are told.
+func (c *Conn) shutdown(reason *frame.Frame) (err error) {
+	c.closeOnce.Do(func() {
+		c.closeMutex.Lock()
+		c.closed = true
+		c.failure = reason
+		c.closeMutex.Unlock()
+		close(c.failed)
+		err = c.conn.Close()
+	})
+	return err
+}
+
+func (c *Conn) isClosed() bool {
+	c.closeMutex.Lock()
+	defer c.closeMutex.Unlock()
+	return c.closed
+}
+
+// timeoutReader notices when the peer has not sent anything for too long. The
+// time that passes between two calls of Read does not count.
+type timeoutReader struct {
+	io.Reader
+	timeout time.Duration // 0 means never
+	expired func()
+}
+
+func (r *timeoutReader) Read(p []byte) (int, error) {
+	if r.timeout > 0 {
+		timer := time.AfterFunc(r.timeout, r.expired)
+		defer timer.Stop()
+	}
+	return r.Reader.Read(p)
+}
+
 // readLoop is a goroutine that reads frames from the
 // reader and places them onto a channel for processing
 // by the processLoop goroutine
 func readLoop(c *Conn, reader *frame.Reader) {
+	defer func() {
+		// let processLoop find everything that has been read before it
+		// learns of the end, even if it is busy writing
+		close(c.readCh)
+		c.shutdown(errorFrame("connection closed"))
+	}()
 	for {
 		f, err := reader.Read()
 		if err != nil {
-			close(c.readCh)
 			return
 		}
 		if c.statsEnabled {
 			atomic.AddInt64(&c.readsReceived, 1)
 		}
-		c.readCh <- f
+		select {
+		case c.readCh <- f:
+		case <-c.failed:
+			return
+		}
+	}
+}
+
+// session is the state of the processLoop goroutine.
+type session struct {
+	subscriptions map[string]chan *frame.Frame
+	receipts      map[string]writeRequest
+
+	// a message that its subscription has not taken yet
+	id      string
+	deliver chan *frame.Frame
+	message *frame.Frame
+
+	over bool // no more received frames count
+}
+
+// register remembers what the answer to a request is to be sent to.
+func (s *session) register(req writeRequest) {
+	if req.Frame.Command == frame.SUBSCRIBE {
+		id, _ := req.Frame.Header.Contains(frame.Id)
+		s.subscriptions[id] = req.C
+	} else if req.C != nil {
+		if receipt, ok := req.Frame.Header.Contains(frame.Receipt); ok {
+			s.receipts[receipt] = req
+		}
+	}
+}
+
+// receipt answers the request a RECEIPT frame belongs to. A subscription that
+// it ends gets the given messages first.
+func (s *session) receipt(f *frame.Frame, messages map[string][]*frame.Frame) {
+	id, _ := f.Header.Contains(frame.ReceiptId)
+	req, ok := s.receipts[id]
+	if !ok {
+		return
+	}
+	delete(s.receipts, id)
+	if req.Frame.Command == frame.UNSUBSCRIBE {
+		id, _ := req.Frame.Header.Contains(frame.Id)
+		s.unsubscribe(id, messages[id])
+	}
+	req.C <- f
+}
+
+// unsubscribe ends a subscription.
+func (s *session) unsubscribe(id string, messages []*frame.Frame) {
+	ch, ok := s.subscriptions[id]
+	if !ok {
+		return
+	}
+	delete(s.subscriptions, id)
+	if s.deliver == ch {
+		messages = append([]*frame.Frame{s.message}, messages...)
+		s.deliver, s.message = nil, nil
+	}
+	if len(messages) == 0 {
+		close(ch)
+	} else {
+		go finish(ch, messages)
+	}
+}
+
+// finish passes the last frames on to a subscription.
+func finish(ch chan *frame.Frame, frames []*frame.Frame) {
+	for _, f := range frames {
+		ch <- f
+	}
+	close(ch)
+}
+
+// end tells everybody who waits for something that the connection is over.
+// Messages and receipts that have been received before are still delivered.
+func (s *session) end(c *Conn, reason *frame.Frame) {
+	// no more requests are queued once the connection is closed and
+	// those being queued right now have finished or given up
+	c.sendLock <- struct{}{}
+	for queued := true; queued; {
+		select {
+		case req := <-c.writeCh:
+			s.register(req)
+		default:
+			queued = false
+		}
+	}
+	<-c.sendLock
+
+	messages := make(map[string][]*frame.Frame)
+	if s.deliver != nil {
+		messages[s.id] = append(messages[s.id], s.message)
+		s.deliver, s.message = nil, nil
+	}
+	for !s.over {
+		select {
+		case f, ok := <-c.readCh:
+			switch {
+			case !ok:
+				s.over = true
+			case f == nil:
+			case f.Command == frame.MESSAGE:
+				id := f.Header.Get(frame.Subscription)
+				messages[id] = append(messages[id], f)
+			case f.Command == frame.RECEIPT:
+				s.receipt(f, messages)
+			case f.Command == frame.ERROR:
+				reason = f
+				s.over = true
+			}
+		default:
+			s.over = true
+		}
+	}
+
+	for _, req := range s.receipts {
+		req.C <- reason
+	}
+	for id, ch := range s.subscriptions {
+		go finish(ch, append(messages[id], reason))
 	}
 }
 
 // processLoop is a goroutine that handles io with
 // the server.
 func processLoop(c *Conn, writer *frame.Writer) {
-	channels := make(map[string]chan *frame.Frame)
+	s := &session{
+		subscriptions: make(map[string]chan *frame.Frame),
+		receipts:      make(map[string]writeRequest),
+	}
 
-	var readTimeoutChannel <-chan time.Time
-	var readTimer *time.Timer
 	var writeTimeoutChannel <-chan time.Time
 	var writeTimer *time.Timer
 
-	defer c.MustDisconnect()
-
 	for {
-		if c.readTimeout > 0 && readTimer == nil {
-			readTimer = time.NewTimer(time.Duration(float64(c.readTimeout) * c.hbGracePeriodMultiplier))
-			readTimeoutChannel = readTimer.C
-		}
 		if c.writeTimeout > 0 && writeTimer == nil {
 			writeTimer = time.NewTimer(c.writeTimeout)
 			writeTimeoutChannel = writeTimer.C
 		}
 
+		// no more frames are taken while a subscription is slow to
+		// take its message, but requests and heart-beats are written
+		readCh := c.readCh
+		if s.deliver != nil {
+			readCh = nil
+		}
+
 		select {
-		case <-readTimeoutChannel:
-			// read timeout, close the connection
-			err := newErrorMessage("read timeout")
-			sendError(channels, err)
+		case <-c.failed:
+			s.end(c, c.failure)
 			return
 
+		case s.deliver <- s.message:
+			s.deliver, s.message = nil, nil
+
 		case <-writeTimeoutChannel:
 			// write timeout, send a heart-beat frame
 			err := writer.Write(nil)
-			if err != nil {
-				sendError(channels, err)
-				return
-			}
 			writeTimer = nil
 			writeTimeoutChannel = nil
-
-		case f, ok := <-c.readCh:
-			// stop the read timer
-			if readTimer != nil {
-				readTimer.Stop()
-				readTimer = nil
-				readTimeoutChannel = nil
+			if err != nil {
+				c.shutdown(errorFrame(err.Error()))
+				s.end(c, c.failure)
+				return
 			}
 
+		case f, ok := <-readCh:
 			if !ok {
-				err := newErrorMessage("connection closed")
-				sendError(channels, err)
+				c.shutdown(errorFrame("connection closed"))
+				s.end(c, c.failure)
 				return
 			}
 
@@ -371,60 +552,33 @@ func processLoop(c *Conn, writer *frame.Writer) {
 
 			switch f.Command {
 			case frame.RECEIPT:
-				if id, ok := f.Header.Contains(frame.ReceiptId); ok {
-					if ch, ok := channels[id]; ok {
-						ch <- f
-						delete(channels, id)
-						close(ch)
-					}
+				if _, ok := f.Header.Contains(frame.ReceiptId); ok {
+					s.receipt(f, nil)
 				} else {
-					err := &Error{Message: "missing receipt-id", Frame: f}
-					sendError(channels, err)
+					c.shutdown(errorFrame("missing receipt-id"))
+					s.over = true
+					s.end(c, c.failure)
 					return
 				}
 
 			case frame.ERROR:
 				c.log.Error("received ERROR; Closing underlying connection")
-				for _, ch := range channels {
-					ch <- f
-					close(ch)
-				}
-
-				c.closeMutex.Lock()
-				defer c.closeMutex.Unlock()
-				c.closed = true
-				c.conn.Close()
-
+				c.shutdown(f)
+				s.over = true
+				s.end(c, f)
 				return
 
 			case frame.MESSAGE:
 				if id, ok := f.Header.Contains(frame.Subscription); ok {
-					if ch, ok := channels[id]; ok {
-						ch <- f
+					if ch, ok := s.subscriptions[id]; ok {
+						s.id, s.deliver, s.message = id, ch, f
 					} else {
 						c.log.Infof("ignored MESSAGE for subscription: %s", id)
 					}
 				}
 			}
 
-		case req, ok := <-c.writeCh:
-			// stop the write timeout
-			if writeTimer != nil {
-				writeTimer.Stop()
-				writeTimer = nil
-				writeTimeoutChannel = nil
-			}
-			if !ok {
-				sendError(channels, errors.New("write channel closed"))
-				return
-			}
-			if req.C != nil {
-				if receipt, ok := req.Frame.Header.Contains(frame.Receipt); ok {
-					// remember the channel for this receipt
-					channels[receipt] = req.C
-				}
-			}
-
+		case req := <-c.writeCh:
 			// default is to always send a frame.
 			var sendFrame = true
 
@@ -433,36 +587,35 @@ func processLoop(c *Conn, writer *frame.Writer) {
 				// if using a temp queue, map that destination as a known channel
 				// however, don't send the frame, it's most likely an invalid destination
 				// on the broker.
-				if replyTo, ok := req.Frame.Header.Contains(ReplyToHeader); ok {
-					channels[replyTo] = req.C
+				if _, ok := req.Frame.Header.Contains(ReplyToHeader); ok {
 					sendFrame = false
-				} else {
-					id, _ := req.Frame.Header.Contains(frame.Id)
-					channels[id] = req.C
 				}
 
 			case frame.UNSUBSCRIBE:
-				if replyTo, ok := req.Frame.Header.Contains(ReplyToHeader); ok {
-					ch, ok := channels[replyTo]
-					if ok {
-						delete(channels, replyTo)
-						close(ch)
-					}
+				if _, ok := req.Frame.Header.Contains(ReplyToHeader); ok {
 					sendFrame = false
-				} else {
-					id, _ := req.Frame.Header.Contains(frame.Id)
-					// is this trying to be too clever -- add a receipt
-					// header so that when the server responds with a
-					// RECEIPT frame, the corresponding channel will be closed
-					req.Frame.Header.Set(frame.Receipt, id)
 				}
 			}
+			s.register(req)
+
+			if !sendFrame && req.Frame.Command == frame.UNSUBSCRIBE {
+				// nobody else is going to confirm this
+				s.receipt(frame.New(frame.RECEIPT, frame.ReceiptId, req.Frame.Header.Get(frame.Id)), nil)
+			}
 
 			// frame to send, if enabled
 			if sendFrame {
+				// stop the write timeout
+				if writeTimer != nil {
+					writeTimer.Stop()
+					writeTimer = nil
+					writeTimeoutChannel = nil
+				}
+
 				err := writer.Write(req.Frame)
 				if err != nil {
-					sendError(channels, err)
+					c.shutdown(errorFrame(err.Error()))
+					s.end(c, c.failure)
 					return
 				}
 			}
@@ -470,12 +623,19 @@ func processLoop(c *Conn, writer *frame.Writer) {
 	}
 }
 
-// Send an error to all receipt channels.
-func sendError(m map[string]chan *frame.Frame, err error) {
-	frame := frame.New(frame.ERROR, frame.Message, err.Error())
-	for _, ch := range m {
-		ch <- frame
+// errorFrame makes the frame that reports an error found by the client.
+func errorFrame(message string) *frame.Frame {
+	return frame.New(frame.ERROR, frame.Message, message)
+}
+
+// startTimeout returns a channel that is ready when the timeout is over, never
+// if it is not positive, and a function to call when it is not needed any more.
+func startTimeout(timeout time.Duration) (<-chan time.Time, func() bool) {
+	if timeout <= 0 {
+		return nil, func() bool { return true }
 	}
+	timer := time.NewTimer(timeout)
+	return timer.C, timer.Stop
 }
 
 // Disconnect will disconnect from the STOMP server. This function
@@ -485,33 +645,42 @@ func sendError(m map[string]chan *frame.Frame, err error) {
 // with the STOMP server is closed and any further attempt to write
 // to the server will fail.
 func (c *Conn) Disconnect() error {
-	c.closeMutex.Lock()
-	defer c.closeMutex.Unlock()
-	if c.closed {
-		return nil
-	}
+	timeoutChan, stop := startTimeout(c.disconnectReceiptTimeout)
+	defer stop()
 
-	if c.statsEnabled {
-		atomic.AddInt64(&c.writesSent, 1)
+	// wait for a call by another goroutine
+	select {
+	case c.disconnectLock <- struct{}{}:
+		defer func() { <-c.disconnectLock }()
+	case <-timeoutChan:
+		c.shutdown(errorFrame("connection closed"))
+		return ErrDisconnectReceiptTimeout
+	}
+	if c.isClosed() {
+		// wait until the transport is closed, too
+		return c.shutdown(errorFrame("connection closed"))
 	}
 
-	ch := make(chan *frame.Frame)
-	c.writeCh <- writeRequest{
+	request := writeRequest{
 		Frame: frame.New(frame.DISCONNECT, frame.Receipt, allocateId()),
-		C:     ch,
+		C:     make(chan *frame.Frame, 1),
 	}
-
-	err := readReceiptWithTimeout(ch, c.disconnectReceiptTimeout, ErrDisconnectReceiptTimeout)
-	if err == nil {
+	err := c.enqueue(request, timeoutChan, ErrDisconnectReceiptTimeout, func() error {
+		// nothing is queued after the DISCONNECT frame
+		c.closeMutex.Lock()
+		defer c.closeMutex.Unlock()
 		c.closed = true
-		return c.conn.Close()
+		return nil
+	})
+	if err == nil {
+		err = readReceipt(request.C, timeoutChan, ErrDisconnectReceiptTimeout)
+	}
+	if err == nil {
+		return c.shutdown(errorFrame("connection closed"))
 	}
-
 	if err == ErrDisconnectReceiptTimeout {
-		c.closed = true
-		_ = c.conn.Close()
+		c.shutdown(errorFrame("connection closed"))
 	}
-
 	return err
 }
 
@@ -519,17 +688,7 @@ func (c *Conn) Disconnect() error {
 // This method should be used only as last resort when there are fatal
 // network errors that prevent to do a proper disconnect from the server.
 func (c *Conn) MustDisconnect() error {
-	c.closeMutex.Lock()
-	defer c.closeMutex.Unlock()
-	if c.closed {
-		return nil
-	}
-
-	// just close writeCh
-	close(c.writeCh)
-
-	c.closed = true
-	return c.conn.Close()
+	return c.shutdown(errorFrame("connection closed"))
 }
 
 // Send sends a message to the STOMP server, which in turn sends the message to the specified destination.
@@ -542,9 +701,7 @@ func (c *Conn) MustDisconnect() error {
 // Any number of options can be specified in opts. See the examples for usage. Options include whether
 // to receive a RECEIPT, should the content-length be suppressed, and sending custom header entries.
 func (c *Conn) Send(destination, contentType string, body []byte, opts ...func(*frame.Frame) error) error {
-	c.closeMutex.Lock()
-	defer c.closeMutex.Unlock()
-	if c.closed {
+	if c.isClosed() {
 		return ErrAlreadyClosed
 	}
 
@@ -553,70 +710,71 @@ func (c *Conn) Send(destination, contentType string, body []byte, opts ...func(*
 		return err
 	}
 
-	if c.statsEnabled {
-		atomic.AddInt64(&c.writesSent, 1)
+	err = c.sendFrame(f, nil)
+	if err == ErrClosedUnexpectedly {
+		return ErrAlreadyClosed
 	}
+	return err
+}
 
-	if _, ok := f.Header.Contains(frame.Receipt); ok {
-		// receipt required
-		request := writeRequest{
-			Frame: f,
-			C:     make(chan *frame.Frame),
-		}
-
-		err := sendDataToWriteChWithTimeout(c.writeCh, request, c.msgSendTimeout)
-		if err != nil {
-			return err
-		}
-
-		err = readReceiptWithTimeout(request.C, c.rcvReceiptTimeout, ErrMsgReceiptTimeout)
-		if err != nil {
-			return err
-		}
-	} else {
-		// no receipt required
-		request := writeRequest{Frame: f}
+func readReceiptWithTimeout(responseChan chan *frame.Frame, timeout time.Duration, timeoutErr error) error {
+	timeoutChan, stop := startTimeout(timeout)
+	defer stop()
+	return readReceipt(responseChan, timeoutChan, timeoutErr)
+}
 
-		err := sendDataToWriteChWithTimeout(c.writeCh, request, c.msgSendTimeout)
-		if err != nil {
-			return err
+func readReceipt(responseChan chan *frame.Frame, timeoutChan <-chan time.Time, timeoutErr error) error {
+	var response *frame.Frame
+	select {
+	case response = <-responseChan:
+	case <-timeoutChan:
+		// it may have come at the same time
+		select {
+		case response = <-responseChan:
+		default:
+			return timeoutErr
 		}
 	}
-
+	if response.Command != frame.RECEIPT {
+		return newError(response)
+	}
 	return nil
 }
 
-func readReceiptWithTimeout(responseChan chan *frame.Frame, timeout time.Duration, timeoutErr error) error {
-	var timeoutChan <-chan time.Time
-	if timeout > 0 {
-		timeoutChan = time.After(timeout)
-	}
-
+// enqueue puts a request on the write channel, unless the connection ends or
+// the timeout passes before there is room. If there is a check, it is called
+// before, and no other request is queued in between.
+func (c *Conn) enqueue(request writeRequest, timeoutChan <-chan time.Time, timeoutErr error, check func() error) error {
 	select {
+	case c.sendLock <- struct{}{}:
+		defer func() { <-c.sendLock }()
+	case <-c.failed:
+		return ErrClosedUnexpectedly
 	case <-timeoutChan:
 		return timeoutErr
-	case response := <-responseChan:
-		if response.Command != frame.RECEIPT {
-			return newError(response)
-		}
-		return nil
 	}
-}
 
-func sendDataToWriteChWithTimeout(ch chan writeRequest, request writeRequest, timeout time.Duration) error {
-	if timeout <= 0 {
-		ch <- request
-		return nil
+	if c.isClosed() {
+		return ErrClosedUnexpectedly
+	}
+	if check != nil {
+		if err := check(); err != nil {
+			return err
+		}
 	}
 
-	timer := time.NewTimer(timeout)
 	select {
-	case <-timer.C:
-		return ErrMsgSendTimeout
-	case ch <- request:
-		timer.Stop()
-		return nil
+	case c.writeCh <- request:
+	case <-c.failed:
+		return ErrClosedUnexpectedly
+	case <-timeoutChan:
+		return timeoutErr
+	}
+
+	if c.statsEnabled {
+		atomic.AddInt64(&c.writesSent, 1)
 	}
+	return nil
 }
 
 func createSendFrame(destination, contentType string, body []byte, opts []func(*frame.Frame) error) (*frame.Frame, error) {
@@ -643,63 +801,22 @@ func createSendFrame(destination, contentType string, body []byte, opts []func(*
 	return f, nil
 }
 
-func (c *Conn) sendFrame(f *frame.Frame) error {
-	// Lock our mutex, but don't close it via defer
-	// If the frame requests a receipt then we want to release the lock before
-	// we block on the response, otherwise we can end up deadlocking
-	c.closeMutex.Lock()
-	if c.closed {
-		c.closeMutex.Unlock()
-		c.conn.Close()
-		return ErrClosedUnexpectedly
+// sendFrame queues a frame and waits for the receipt if it asks for one. The
+// check, if any, is made before, see enqueue.
+func (c *Conn) sendFrame(f *frame.Frame, check func() error) error {
+	request := writeRequest{Frame: f}
+	_, receipt := f.Header.Contains(frame.Receipt)
+	if receipt {
+		request.C = make(chan *frame.Frame, 1)
 	}
 
-	if c.statsEnabled {
-		atomic.AddInt64(&c.writesSent, 1)
-	}
-
-	if _, ok := f.Header.Contains(frame.Receipt); ok {
-		// receipt required
-		request := writeRequest{
-			Frame: f,
-			C:     make(chan *frame.Frame),
-		}
-
-		c.writeCh <- request
-
-		// Now that we've written to the writeCh channel we can release the
-		// close mutex while we wait for our response
-		c.closeMutex.Unlock()
-
-		var response *frame.Frame
-
-		if c.writeTimeout > 0 {
-			select {
-			case response, ok = <-request.C:
-			case <-time.After(c.writeTimeout):
-				ok = false
-			}
-		} else {
-			response, ok = <-request.C
-		}
-
-		if ok {
-			if response.Command != frame.RECEIPT {
-				return newError(response)
-			}
-		} else {
-			return ErrClosedUnexpectedly
-		}
-	} else {
-		// no receipt required
-		request := writeRequest{Frame: f}
-		c.writeCh <- request
-
-		// Unlock the mutex now that we're written to the write channel
-		c.closeMutex.Unlock()
+	timeoutChan, stop := startTimeout(c.msgSendTimeout)
+	err := c.enqueue(request, timeoutChan, ErrMsgSendTimeout, check)
+	stop()
+	if err != nil || !receipt {
+		return err
 	}
-
-	return nil
+	return readReceiptWithTimeout(request.C, c.rcvReceiptTimeout, ErrMsgReceiptTimeout)
 }
 
 // Subscribe creates a subscription on the STOMP server.
@@ -707,10 +824,7 @@ func (c *Conn) sendFrame(f *frame.Frame) error {
 // will be received by this subscription. A subscription has a channel
 // on which the calling program can receive messages.
 func (c *Conn) Subscribe(destination string, ack AckMode, opts ...func(*frame.Frame) error) (*Subscription, error) {
-	c.closeMutex.Lock()
-	defer c.closeMutex.Unlock()
-	if c.closed {
-		c.conn.Close()
+	if c.isClosed() {
 		return nil, ErrClosedUnexpectedly
 	}
 
@@ -749,7 +863,6 @@ func (c *Conn) Subscribe(destination string, ack AckMode, opts ...func(*frame.Fr
 		C:     ch,
 	}
 
-	closeMutex := &sync.Mutex{}
 	sub := &Subscription{
 		id:                        id,
 		replyToSet:                replyToSet,
@@ -757,23 +870,19 @@ func (c *Conn) Subscribe(destination string, ack AckMode, opts ...func(*frame.Fr
 		conn:                      c,
 		ackMode:                   ack,
 		C:                         make(chan *Message, 16),
-		closeMutex:                closeMutex,
-		closeCond:                 sync.NewCond(closeMutex),
+		expired:                   make(chan struct{}),
 		unsubscribeReceiptTimeout: c.unsubscribeReceiptTimeout,
 	}
-	go sub.readLoop(ch)
 
-	if c.statsEnabled {
-		atomic.AddInt64(&c.writesSent, 1)
+	timeoutChan, stop := startTimeout(c.msgSendTimeout)
+	defer stop()
+	if err := c.enqueue(request, timeoutChan, ErrMsgSendTimeout, nil); err != nil {
+		return nil, err
 	}
-
-	// TODO is this safe? There is no check if writeCh is actually open.
-	c.writeCh <- request
+	go sub.readLoop(ch)
 	return sub, nil
 }
 
-// TODO check further for race conditions
-
 // Ack acknowledges a message received from the STOMP server.
 // If the message was received on a subscription with AckMode == AckAuto,
 // then no operation is performed.
@@ -784,7 +893,7 @@ func (c *Conn) Ack(m *Message) error {
 	}
 
 	if f != nil {
-		return c.sendFrame(f)
+		return c.sendFrame(f, nil)
 	}
 	return nil
 }
@@ -799,7 +908,7 @@ func (c *Conn) Nack(m *Message) error {
 	}
 
 	if f != nil {
-		return c.sendFrame(f)
+		return c.sendFrame(f, nil)
 	}
 	return nil
 }
@@ -817,7 +926,7 @@ func (c *Conn) Begin() *Transaction {
 func (c *Conn) BeginWithError() (*Transaction, error) {
 	id := allocateId()
 	f := frame.New(frame.BEGIN, frame.Transaction, id)
-	err := c.sendFrame(f)
+	err := c.sendFrame(f, nil)
 	return &Transaction{id: id, conn: c}, err
 }
 
diff --git a/subscription.go b/subscription.go
index 8ca54af..0f6b7b5 100644
--- a/subscription.go
+++ b/subscription.go
@@ -3,7 +3,6 @@ package stomp
 import (
 	"errors"
 	"fmt"
-	"sync"
 	"sync/atomic"
 	"time"
 
@@ -28,9 +27,7 @@ type Subscription struct {
 	conn                      *Conn
 	ackMode                   AckMode
 	state                     int32
-	closeMutex                *sync.Mutex
-	closeCond                 *sync.Cond
-	closeOnce                 sync.Once
+	expired                   chan struct{} // closed when Unsubscribe has waited in vain
 	unsubscribeReceiptTimeout time.Duration
 }
 
@@ -63,8 +60,7 @@ func (s *Subscription) Active() bool {
 
 // Unsubscribes and closes the channel C.
 func (s *Subscription) Unsubscribe(opts ...func(*frame.Frame) error) error {
-	// transition to the "closing" state
-	if !atomic.CompareAndSwapInt32(&s.state, subStateActive, subStateClosing) {
+	if !s.Active() {
 		return ErrCompletedSubscription
 	}
 
@@ -80,57 +76,37 @@ func (s *Subscription) Unsubscribe(opts ...func(*frame.Frame) error) error {
 		}
 	}
 
+	// is this trying to be too clever -- add a receipt
+	// header so that when the server responds with a
+	// RECEIPT frame, the corresponding channel will be closed
+	f.Header.Set(frame.Receipt, s.id)
+
 	if s.replyToSet {
 		f.Header.Set(ReplyToHeader, s.id)
 	}
 
-	err := s.conn.sendFrame(f)
-	if errors.Is(err, ErrClosedUnexpectedly) {
-		msg := s.subscriptionErrorMessage("connection closed unexpectedly")
-		s.closeChannel(msg)
-		return err
+	// transition to the "closing" state
+	if !atomic.CompareAndSwapInt32(&s.state, subStateActive, subStateClosing) {
+		return ErrCompletedSubscription
 	}
 
-	// UNSUBSCRIBE is a bit weird in that it is tagged with a "receipt" header
-	// on the I/O goroutine, so the above call to sendFrame() will not wait
-	// for the resulting RECEIPT.
-	//
-	// We don't want to interfere with `s.C` since we might be "stealing"
-	// MESSAGEs or ERRORs from another goroutine, so use a sync.Cond to
-	// wait for the terminal state transition instead.
-	s.closeMutex.Lock()
-	for atomic.LoadInt32(&s.state) != subStateClosed {
-		err = waitWithTimeout(s.closeCond, s.unsubscribeReceiptTimeout)
-		if err != nil && errors.Is(err, &ErrUnsubscribeReceiptTimeout) {
-			// The [closeCond.Broadcast] can race with the timeout, so make sure
-			// the channel is still available.
-			if atomic.LoadInt32(&s.state) != subStateClosed {
-				msg := s.subscriptionErrorMessage("channel unsubscribe receipt timeout")
-				s.C <- msg
-			}
-			return err
-		}
+	// The I/O goroutine ends the subscription when it receives the receipt.
+	// The channel C is closed by readLoop and nobody else, after the messages
+	// that have been received before.
+	request := writeRequest{
+		Frame: f,
+		C:     make(chan *frame.Frame, 1),
 	}
-	s.closeMutex.Unlock()
-	return err
-}
-
-func waitWithTimeout(cond *sync.Cond, timeout time.Duration) error {
-	if timeout == 0 {
-		cond.Wait()
-		return nil
+	timeoutChan, stop := startTimeout(s.unsubscribeReceiptTimeout)
+	defer stop()
+	err := s.conn.enqueue(request, timeoutChan, &ErrUnsubscribeReceiptTimeout, nil)
+	if err == nil {
+		err = readReceipt(request.C, timeoutChan, &ErrUnsubscribeReceiptTimeout)
 	}
-	waitChan := make(chan struct{})
-	go func() {
-		cond.Wait()
-		close(waitChan)
-	}()
-	select {
-	case <-waitChan:
-		return nil
-	case <-time.After(timeout):
-		return &ErrUnsubscribeReceiptTimeout
+	if errors.Is(err, &ErrUnsubscribeReceiptTimeout) {
+		close(s.expired)
 	}
+	return err
 }
 
 // Read a message from the subscription. This is a convenience
@@ -150,15 +126,27 @@ func (s *Subscription) Read() (*Message, error) {
 	return msg, nil
 }
 
-func (s *Subscription) closeChannel(msg *Message) {
-	s.closeOnce.Do(func() {
-		if msg != nil {
-			s.C <- msg
-		}
+// closeChannel ends the subscription, with an error message unless it is nil.
+// If ch is not nil, what still comes from it is discarded.
+func (s *Subscription) closeChannel(msg *Message, ch chan *frame.Frame) {
+	out := s.C
+	if msg == nil {
 		atomic.StoreInt32(&s.state, subStateClosed)
-		close(s.C)
-		s.closeCond.Broadcast()
-	})
+		close(out)
+		out = nil
+	}
+	for out != nil || ch != nil {
+		select {
+		case out <- msg:
+			atomic.StoreInt32(&s.state, subStateClosed)
+			close(out)
+			out = nil
+		case _, ok := <-ch:
+			if !ok {
+				ch = nil
+			}
+		}
+	}
 }
 
 func (s *Subscription) subscriptionErrorMessage(message string) *Message {
@@ -169,15 +157,21 @@ func (s *Subscription) subscriptionErrorMessage(message string) *Message {
 	}
 }
 
+// readLoop is a goroutine that turns the frames from ch into messages on C.
+// An ERROR frame ends the subscription. If ch is closed without one, then the
+// subscription has been unsubscribed.
 func (s *Subscription) readLoop(ch chan *frame.Frame) {
 	for {
-		f, ok := <-ch
+		var f *frame.Frame
+		var ok bool
+		select {
+		case f, ok = <-ch:
+		case <-s.expired:
+			s.closeChannel(s.subscriptionErrorMessage("channel unsubscribe receipt timeout"), ch)
+			return
+		}
 		if !ok {
-			state := atomic.LoadInt32(&s.state)
-			if state == subStateActive || state == subStateClosing {
-				msg := s.subscriptionErrorMessage("channel read failed")
-				s.closeChannel(msg)
-			}
+			s.closeChannel(nil, nil)
 			return
 		}
 
@@ -192,36 +186,32 @@ func (s *Subscription) readLoop(ch chan *frame.Frame) {
 				Header:       f.Header,
 				Body:         f.Body,
 			}
-			s.C <- msg
-		} else if f.Command == frame.ERROR {
-			state := atomic.LoadInt32(&s.state)
-			if state == subStateActive || state == subStateClosing {
-				message, _ := f.Header.Contains(frame.Message)
-				text := fmt.Sprintf("Subscription %s: %s: ERROR message:%s",
-					s.id,
-					s.destination,
-					message)
-				s.conn.log.Info(text)
-				contentType := f.Header.Get(frame.ContentType)
-				msg := &Message{
-					Err: &Error{
-						Message: f.Header.Get(frame.Message),
-						Frame:   f,
-					},
-					ContentType:  contentType,
-					Conn:         s.conn,
-					Subscription: s,
-					Header:       f.Header,
-					Body:         f.Body,
-				}
-				s.closeChannel(msg)
+			select {
+			case s.C <- msg:
+			case <-s.expired:
+				s.closeChannel(s.subscriptionErrorMessage("channel unsubscribe receipt timeout"), ch)
+				return
 			}
-			return
-		} else if f.Command == frame.RECEIPT {
-			state := atomic.LoadInt32(&s.state)
-			if state == subStateActive || state == subStateClosing {
-				s.closeChannel(nil)
+		} else if f.Command == frame.ERROR {
+			message, _ := f.Header.Contains(frame.Message)
+			text := fmt.Sprintf("Subscription %s: %s: ERROR message:%s",
+				s.id,
+				s.destination,
+				message)
+			s.conn.log.Info(text)
+			contentType := f.Header.Get(frame.ContentType)
+			msg := &Message{
+				Err: &Error{
+					Message: f.Header.Get(frame.Message),
+					Frame:   f,
+				},
+				ContentType:  contentType,
+				Conn:         s.conn,
+				Subscription: s,
+				Header:       f.Header,
+				Body:         f.Body,
 			}
+			s.closeChannel(msg, ch)
 			return
 		} else {
 			s.conn.log.Infof("Subscription %s: %s: unsupported frame type: %+v", s.id, s.destination, f)
diff --git a/transaction.go b/transaction.go
index 0a8398f..c64e84e 100644
--- a/transaction.go
+++ b/transaction.go
@@ -56,7 +56,7 @@ func (tx *Transaction) abort(receipt bool) error {
 		f.Header.Set(frame.Receipt, id)
 	}
 
-	err := tx.conn.sendFrame(f)
+	err := tx.conn.sendFrame(f, nil)
 	if err != nil {
 		return err
 	}
@@ -91,7 +91,7 @@ func (tx *Transaction) commit(receipt bool) error {
 		f.Header.Set(frame.Receipt, id)
 	}
 
-	err := tx.conn.sendFrame(f)
+	err := tx.conn.sendFrame(f, nil)
 	if err != nil {
 		return err
 	}
@@ -121,7 +121,7 @@ func (tx *Transaction) Send(destination, contentType string, body []byte, opts .
 	}
 
 	f.Header.Set(frame.Transaction, tx.id)
-	return tx.conn.sendFrame(f)
+	return tx.conn.sendFrame(f, nil)
 }
 
 // Ack sends an acknowledgement for the message to the server. The STOMP
@@ -140,7 +140,7 @@ func (tx *Transaction) Ack(msg *Message) error {
 
 	if f != nil {
 		f.Header.Set(frame.Transaction, tx.id)
-		err := tx.conn.sendFrame(f)
+		err := tx.conn.sendFrame(f, nil)
 		if err != nil {
 			return err
 		}
@@ -168,7 +168,7 @@ func (tx *Transaction) Nack(msg *Message) error {
 
 	if f != nil {
 		f.Header.Set(frame.Transaction, tx.id)
-		err := tx.conn.sendFrame(f)
+		err := tx.conn.sendFrame(f, nil)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 2c5ed61623062814057ac4e89b65744eb5df0d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:15 +0000
Subject: [PATCH 21/25] fix: keep receiving and answering calls while a write
 is blocked

The goroutine that handles frames in both directions wrote to the transport
itself, so that nothing was received, timed out or told to a caller as long
as the server was slow to read.
---
 conn.go | 47 ++++++++++++++++++++++++++++++++++-------------
 1 file changed, 34 insertions(+), 13 deletions(-)

diff --git a/conn.go b/conn.go
index 6867d45..e827e0e 100644
--- a/conn.go
+++ b/conn.go
@@ -495,6 +495,14 @@ func (s *session) end(c *Conn, reason *frame.Frame) {
 	}
 }
 
+// writeLoop is a goroutine that writes frames to the writer, so that
+// processLoop can do something else while the server is slow to take them.
+func writeLoop(writer *frame.Writer, frames <-chan *frame.Frame, written chan<- error) {
+	for f := range frames {
+		written <- writer.Write(f)
+	}
+}
+
 // processLoop is a goroutine that handles io with
 // the server.
 func processLoop(c *Conn, writer *frame.Writer) {
@@ -506,12 +514,25 @@ func processLoop(c *Conn, writer *frame.Writer) {
 	var writeTimeoutChannel <-chan time.Time
 	var writeTimer *time.Timer
 
+	// one frame at a time
+	frames := make(chan *frame.Frame, 1)
+	defer close(frames)
+	written := make(chan error, 1)
+	writing := false
+	go writeLoop(writer, frames, written)
+
 	for {
-		if c.writeTimeout > 0 && writeTimer == nil {
+		if c.writeTimeout > 0 && writeTimer == nil && !writing {
 			writeTimer = time.NewTimer(c.writeTimeout)
 			writeTimeoutChannel = writeTimer.C
 		}
 
+		// no more requests are taken while one is being written
+		writeCh := c.writeCh
+		if writing {
+			writeCh = nil
+		}
+
 		// no more frames are taken while a subscription is slow to
 		// take its message, but requests and heart-beats are written
 		readCh := c.readCh
@@ -527,16 +548,20 @@ func processLoop(c *Conn, writer *frame.Writer) {
 		case s.deliver <- s.message:
 			s.deliver, s.message = nil, nil
 
-		case <-writeTimeoutChannel:
-			// write timeout, send a heart-beat frame
-			err := writer.Write(nil)
-			writeTimer = nil
-			writeTimeoutChannel = nil
+		case err := <-written:
 			if err != nil {
 				c.shutdown(errorFrame(err.Error()))
 				s.end(c, c.failure)
 				return
 			}
+			writing = false
+
+		case <-writeTimeoutChannel:
+			// write timeout, send a heart-beat frame
+			writing = true
+			frames <- nil
+			writeTimer = nil
+			writeTimeoutChannel = nil
 
 		case f, ok := <-readCh:
 			if !ok {
@@ -578,7 +603,7 @@ func processLoop(c *Conn, writer *frame.Writer) {
 				}
 			}
 
-		case req := <-c.writeCh:
+		case req := <-writeCh:
 			// default is to always send a frame.
 			var sendFrame = true
 
@@ -612,12 +637,8 @@ func processLoop(c *Conn, writer *frame.Writer) {
 					writeTimeoutChannel = nil
 				}
 
-				err := writer.Write(req.Frame)
-				if err != nil {
-					c.shutdown(errorFrame(err.Error()))
-					s.end(c, c.failure)
-					return
-				}
+				writing = true
+				frames <- req.Frame
 			}
 		}
 	}
-- 
2.43.0


From cab2c406cf78afa1149c7c8a4973b9dcdd5fb909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:21 +0000
Subject: [PATCH 22/25] fix: let no frame of a transaction follow its COMMIT or
 ABORT

The completed flag was read and written without synchronisation, and a second
COMMIT or a SEND by another goroutine could follow the first COMMIT.
---
 transaction.go | 68 +++++++++++++++++++++++++++++++++-----------------
 1 file changed, 45 insertions(+), 23 deletions(-)

diff --git a/transaction.go b/transaction.go
index c64e84e..a731df4 100644
--- a/transaction.go
+++ b/transaction.go
@@ -1,6 +1,8 @@
 package stomp
 
 import (
+	"sync/atomic"
+
 	"github.com/go-stomp/stomp/v3/frame"
 )
 
@@ -17,7 +19,39 @@ import (
 type Transaction struct {
 	id        string
 	conn      *Conn
-	completed bool
+	completed int32
+}
+
+func (tx *Transaction) isCompleted() bool {
+	return atomic.LoadInt32(&tx.completed) != 0
+}
+
+// sendFrame sends a frame that belongs to the transaction, unless it has been
+// completed in the meantime.
+func (tx *Transaction) sendFrame(f *frame.Frame) error {
+	return tx.conn.sendFrame(f, func() error {
+		if tx.isCompleted() {
+			return ErrCompletedTransaction
+		}
+		return nil
+	})
+}
+
+// complete sends the frame that ends the transaction. Nothing that belongs to
+// the transaction is queued after it, unless it fails.
+func (tx *Transaction) complete(f *frame.Frame) error {
+	mine := false
+	err := tx.conn.sendFrame(f, func() error {
+		mine = atomic.CompareAndSwapInt32(&tx.completed, 0, 1)
+		if !mine {
+			return ErrCompletedTransaction
+		}
+		return nil
+	})
+	if err != nil && mine {
+		atomic.StoreInt32(&tx.completed, 0)
+	}
+	return err
 }
 
 // Id returns the unique identifier for the transaction.
@@ -45,7 +79,7 @@ func (tx *Transaction) AbortWithReceipt() error {
 }
 
 func (tx *Transaction) abort(receipt bool) error {
-	if tx.completed {
+	if tx.isCompleted() {
 		return ErrCompletedTransaction
 	}
 
@@ -56,13 +90,7 @@ func (tx *Transaction) abort(receipt bool) error {
 		f.Header.Set(frame.Receipt, id)
 	}
 
-	err := tx.conn.sendFrame(f, nil)
-	if err != nil {
-		return err
-	}
-	tx.completed = true
-
-	return nil
+	return tx.complete(f)
 }
 
 // Commit will commit the transaction. All messages and acknowledgements
@@ -80,7 +108,7 @@ func (tx *Transaction) CommitWithReceipt() error {
 }
 
 func (tx *Transaction) commit(receipt bool) error {
-	if tx.completed {
+	if tx.isCompleted() {
 		return ErrCompletedTransaction
 	}
 
@@ -91,13 +119,7 @@ func (tx *Transaction) commit(receipt bool) error {
 		f.Header.Set(frame.Receipt, id)
 	}
 
-	err := tx.conn.sendFrame(f, nil)
-	if err != nil {
-		return err
-	}
-	tx.completed = true
-
-	return nil
+	return tx.complete(f)
 }
 
 // Send sends a message to the STOMP server as part of a transaction. The server will not process the
@@ -111,7 +133,7 @@ func (tx *Transaction) commit(receipt bool) error {
 //
 // TODO: document opts
 func (tx *Transaction) Send(destination, contentType string, body []byte, opts ...func(*frame.Frame) error) error {
-	if tx.completed {
+	if tx.isCompleted() {
 		return ErrCompletedTransaction
 	}
 
@@ -121,7 +143,7 @@ func (tx *Transaction) Send(destination, contentType string, body []byte, opts .
 	}
 
 	f.Header.Set(frame.Transaction, tx.id)
-	return tx.conn.sendFrame(f, nil)
+	return tx.sendFrame(f)
 }
 
 // Ack sends an acknowledgement for the message to the server. The STOMP
@@ -129,7 +151,7 @@ func (tx *Transaction) Send(destination, contentType string, body []byte, opts .
 // has been committed. If the subscription has an AckMode of AckAuto, calling
 // this function has no effect.
 func (tx *Transaction) Ack(msg *Message) error {
-	if tx.completed {
+	if tx.isCompleted() {
 		return ErrCompletedTransaction
 	}
 
@@ -140,7 +162,7 @@ func (tx *Transaction) Ack(msg *Message) error {
 
 	if f != nil {
 		f.Header.Set(frame.Transaction, tx.id)
-		err := tx.conn.sendFrame(f, nil)
+		err := tx.sendFrame(f)
 		if err != nil {
 			return err
 		}
@@ -157,7 +179,7 @@ func (tx *Transaction) Ack(msg *Message) error {
 // of AckAuto, because the STOMP server will not be expecting any kind
 // of acknowledgement (positive or negative) for this message.
 func (tx *Transaction) Nack(msg *Message) error {
-	if tx.completed {
+	if tx.isCompleted() {
 		return ErrCompletedTransaction
 	}
 
@@ -168,7 +190,7 @@ func (tx *Transaction) Nack(msg *Message) error {
 
 	if f != nil {
 		f.Header.Set(frame.Transaction, tx.id)
-		err := tx.conn.sendFrame(f, nil)
+		err := tx.sendFrame(f)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 04d037d7012e44eefc1aca13ba729b622aaded96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:23 +0000
Subject: [PATCH 23/25] fix: keep to the context deadline for all of the
 connect sequence

The deadline only covered reading the answer, and only from a net.Conn: a
server that does not read its input blocked the caller for ever.
---
 conn.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/conn.go b/conn.go
index e827e0e..1a92264 100644
--- a/conn.go
+++ b/conn.go
@@ -175,6 +175,14 @@ func ConnectWithContext(ctx context.Context, conn io.ReadWriteCloser, opts ...fu
 		return nil, err
 	}
 
+	var timer *time.Timer
+	if deadline, ok := ctx.Deadline(); ok {
+		// a read deadline does not help while the connect frame is being
+		// written, nor with a connection that is not a net.Conn
+		timer = time.AfterFunc(time.Until(deadline), func() { conn.Close() })
+		defer timer.Stop()
+	}
+
 	err = writer.Write(connectFrame)
 	if err != nil {
 		return nil, err
@@ -190,6 +198,9 @@ func ConnectWithContext(ctx context.Context, conn io.ReadWriteCloser, opts ...fu
 	if err != nil {
 		return nil, err
 	}
+	if timer != nil && !timer.Stop() {
+		return nil, context.DeadlineExceeded
+	}
 	// Restore Conn-level deadlines
 	if ok && isNetConn {
 		connection.SetReadDeadline(time.Time{})
-- 
2.43.0


From 2e19f89fca71071d969958f8239247c54718453f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:52 +0000
Subject: [PATCH 24/25] fix: end a connection whose CONNECTED frame cannot be
 written

The server went on with a client that could never learn that it was
connected, and without heart-beats both waited for each other forever.
---
 server/client/conn.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/server/client/conn.go b/server/client/conn.go
index 0783439..d03c2ba 100644
--- a/server/client/conn.go
+++ b/server/client/conn.go
@@ -692,7 +692,9 @@ func (c *Conn) handleConnect(f *frame.Frame) error {
 		frame.Server, "stompd/x.y.z", // TODO: get version
 		frame.HeartBeat, fmt.Sprintf("%d,%d", cy, cx))
 
-	c.sendImmediately(response)
+	if err := c.sendImmediately(response); err != nil {
+		return err
+	}
 	c.stateFunc = connected
 
 	// tell the upper layer we are connected
-- 
2.43.0


From 556e9e5f2b15fb7df84c8750031e8f4fb43a4623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:29 +0000
Subject: [PATCH 25/25] fix: let Subscription.Read return what was received
 before the end

---
 subscription.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/subscription.go b/subscription.go
index 0f6b7b5..048b7d0 100644
--- a/subscription.go
+++ b/subscription.go
@@ -113,9 +113,8 @@ func (s *Subscription) Unsubscribe(opts ...func(*frame.Frame) error) error {
 // method: many callers will prefer to read from the channel C
 // directly.
 func (s *Subscription) Read() (*Message, error) {
-	if !s.Active() {
-		return nil, ErrCompletedSubscription
-	}
+	// The channel is closed once the subscription is completed, but what was
+	// received before that comes first.
 	msg, ok := <-s.C
 	if !ok {
 		return nil, ErrCompletedSubscription
-- 
2.43.0

