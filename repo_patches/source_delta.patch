From a05589bd61f64dd4b4f59395333179d6cc96c051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:17 +0000
Subject: [PATCH 01/76] fix: do not echo server-mask messages to senders
 without echo-message

When the upstream server echoes a message sent to a server mask, the origin
client was not taken into account and got a copy of its own message even
though it had not negotiated echo-message.
---
 upstream.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/upstream.go b/upstream.go
index f1e02ed..41bb1c3 100644
--- a/upstream.go
+++ b/upstream.go
@@ -657,7 +657,7 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 
 		if !uc.registered || uc.network.equalCasemap(msg.Prefix.Name, uc.serverPrefix.Name) || target == "*" || strings.HasPrefix(target, "$") {
 			// This is a server message
-			uc.produce("", msg, 0)
+			uc.produce("", msg, downstreamID)
 			break
 		}
 
-- 
2.43.0


From 3d4f051a77d920c92d07065c5d89ddbb8051249a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:17 +0000
Subject: [PATCH 02/76] fix: only request echo-message when the upstream server
 offers it

A server which offers labeled-response but not echo-message rejects the whole
capability request, leaving the connection without any capability.
---
 upstream.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/upstream.go b/upstream.go
index 41bb1c3..349d4e3 100644
--- a/upstream.go
+++ b/upstream.go
@@ -1929,7 +1929,7 @@ func (uc *upstreamConn) updateCaps(ctx context.Context) {
 		}
 	}
 
-	echoMessage := uc.caps.IsAvailable("labeled-response")
+	echoMessage := uc.caps.IsAvailable("labeled-response") && uc.caps.IsAvailable("echo-message")
 	if !uc.caps.IsEnabled("echo-message") && echoMessage {
 		requestCaps = append(requestCaps, "echo-message")
 	} else if uc.caps.IsEnabled("echo-message") && !echoMessage {
-- 
2.43.0


From adcde55360ac80679053c3ff61d93a9f70a13335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:30 +0000
Subject: [PATCH 03/76] fix: do not share message tags between the targets of a
 message

A PRIVMSG, NOTICE or TAGMSG with several targets used a single tag map for all
of the messages sent to the upstream server. Setting the label of a message
while the previous one is being written crashed the whole process with
"concurrent map iteration and map write", and the internal label of one copy
could leak into the copies sent to clients.
---
 downstream.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/downstream.go b/downstream.go
index d3c3723..1f5aea6 100644
--- a/downstream.go
+++ b/downstream.go
@@ -2484,7 +2484,7 @@ func (dc *downstreamConn) handleMessageRegistered(ctx context.Context, msg *irc.
 			}
 
 			uc.SendMessageLabeled(ctx, dc.id, &irc.Message{
-				Tags:    tags,
+				Tags:    tags.Copy(),
 				Command: msg.Command,
 				Params:  upstreamParams,
 			})
-- 
2.43.0


From 4f3fe9388d9601789abea5aac13dcce21e3cd180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:30 +0000
Subject: [PATCH 04/76] verif: add test hooks behind the verif build tag

---
 verif_hooks.go | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)
 create mode 100644 verif_hooks.go

diff --git a/verif_hooks.go b/verif_hooks.go
new file mode 100644
index 0000000..ff1b765
--- /dev/null
+++ b/verif_hooks.go
@@ -0,0 +1,28 @@
+//go:build verif
+
+package soju
+
+import (
+	"context"
+	"time"
+)
+
+// VerifSetRetryDelays changes the delays between attempts to connect to an
+// upstream server. It must be called before any server is started.
+func VerifSetRetryDelays(min, max, jitter time.Duration) {
+	retryConnectMinDelay = min
+	retryConnectMaxDelay = max
+	retryConnectJitter = jitter
+}
+
+// VerifSetTimeouts changes the connect and write timeouts. It must be called
+// before any server is started.
+func VerifSetTimeouts(connect, write time.Duration) {
+	connectTimeout = connect
+	writeTimeout = write
+}
+
+// VerifDisableInactiveUsers runs the periodic task disabling inactive users.
+func VerifDisableInactiveUsers(ctx context.Context, s *Server) error {
+	return s.disableInactiveUsers(ctx)
+}
-- 
2.43.0


From d54b52a4aa8d0c81f18bbd9ee868e7cae6daf630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:47 +0000
Subject: [PATCH 05/76] fix: return the ID of the last message from the memory
 message store

LastMsgID returned the ID of the next message instead. As a result the first
message received after the backlog of a client was fast-forwarded, or after a
channel was detached, was never replayed.
---
 msgstore/memory.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/msgstore/memory.go b/msgstore/memory.go
index b37b074..dcb317a 100644
--- a/msgstore/memory.go
+++ b/msgstore/memory.go
@@ -76,7 +76,8 @@ func (ms *memoryMessageStore) LastMsgID(network *database.Network, entity string
 	var seq uint64
 	k := ringBufferKey{networkID: network.ID, entity: entity}
 	if rb, ok := ms.buffers[k]; ok {
-		seq = rb.cur
+		// cur is the sequence number of the next message
+		seq = rb.cur - 1
 	}
 	return formatMemoryMsgID(network.ID, entity, seq), nil
 }
-- 
2.43.0


From 4c36051eee4f373353570ba621a12f23d377b006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:47 +0000
Subject: [PATCH 06/76] fix: do not modify stored messages when sending the
 backlog

The memory message store returns the messages it holds, which may be waiting
in the outgoing queue of other clients. Setting their batch tag crashed the
process with a concurrent map iteration and map write, and could give other
clients a reference to an unknown batch.
---
 downstream.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/downstream.go b/downstream.go
index 1f5aea6..770b791 100644
--- a/downstream.go
+++ b/downstream.go
@@ -1688,6 +1688,8 @@ func (dc *downstreamConn) sendTargetBacklog(ctx context.Context, net *network, t
 					dc.relayDetachedMessage(net, msg)
 				}
 			} else {
+				// The message may be owned by the message store
+				msg = msg.Copy()
 				msg.Tags["batch"] = batchRef
 				dc.SendMessage(ctx, msg)
 			}
-- 
2.43.0


From 3669f2ba6b6a23df7a69e9c6c56920477542b2db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:32 +0000
Subject: [PATCH 07/76] fix: give every known client the messages of
 conversations it missed

When a conversation already had a delivery receipt for some client, other
clients known to the network but without a receipt for that conversation were
never sent the messages they missed in it.
---
 upstream.go | 18 ++++++++++++------
 user.go     |  8 --------
 2 files changed, 12 insertions(+), 14 deletions(-)

diff --git a/upstream.go b/upstream.go
index 349d4e3..895087b 100644
--- a/upstream.go
+++ b/upstream.go
@@ -2151,19 +2151,25 @@ func (uc *upstreamConn) appendLog(entity string, msg *irc.Message) (msgID string
 		return ""
 	}
 
-	if !uc.network.delivered.Empty() && !uc.network.delivered.HasTarget(entity) {
-		// This is the first message we receive from this target. Save the last
-		// message ID in delivery receipts, so that we can send the new message
-		// in the backlog if an offline client reconnects.
+	var newClients []string
+	uc.network.delivered.ForEachClient(func(clientName string) {
+		if uc.network.delivered.LoadID(entity, clientName) == "" {
+			newClients = append(newClients, clientName)
+		}
+	})
+	if len(newClients) > 0 {
+		// This is the first message these clients receive from this target.
+		// Save the last message ID in delivery receipts, so that we can send
+		// the new message in the backlog if an offline client reconnects.
 		lastID, err := uc.user.msgStore.LastMsgID(&uc.network.Network, entityCM, time.Now())
 		if err != nil {
 			uc.logger.Printf("failed to log message: failed to get last message ID: %v", err)
 			return ""
 		}
 
-		uc.network.delivered.ForEachClient(func(clientName string) {
+		for _, clientName := range newClients {
 			uc.network.delivered.StoreID(entity, clientName, lastID)
-		})
+		}
 	}
 
 	msgID, err := uc.user.msgStore.Append(&uc.network.Network, entityCM, msg)
diff --git a/user.go b/user.go
index 44a16f8..c6c85a6 100644
--- a/user.go
+++ b/user.go
@@ -102,14 +102,6 @@ func newDeliveredStore(cm xirc.CaseMapping) deliveredStore {
 	return deliveredStore{xirc.NewCaseMappingMap[deliveredClientMap](cm)}
 }
 
-func (ds deliveredStore) Empty() bool {
-	return ds.m.Len() == 0
-}
-
-func (ds deliveredStore) HasTarget(target string) bool {
-	return ds.m.Get(target) != nil
-}
-
 func (ds deliveredStore) LoadID(target, clientName string) string {
 	clients := ds.m.Get(target)
 	if clients == nil {
-- 
2.43.0


From 509ea09a0c7aa44b4eed889f59df2b54853d9e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:39 +0000
Subject: [PATCH 08/76] fix: keep delivery receipts when a network is updated

---
 user.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/user.go b/user.go
index c6c85a6..abd0282 100644
--- a/user.go
+++ b/user.go
@@ -1117,6 +1117,8 @@ func (u *user) updateNetwork(ctx context.Context, record *database.Network, enfo
 	})
 
 	updatedNetwork := newNetwork(u, record, channels)
+	// Clients are still owed the messages they haven't received yet
+	updatedNetwork.delivered = network.delivered
 
 	// If we're currently connected, disconnect and perform the necessary
 	// bookkeeping
-- 
2.43.0


From cf4d73a539330791b138ee848179f89f5151a3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:12 +0000
Subject: [PATCH 09/76] fix: recognise direct messages from nicks with
 upper-case letters in logs

---
 msgstore/znclog/reader.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/msgstore/znclog/reader.go b/msgstore/znclog/reader.go
index 92196a3..a558ac3 100644
--- a/msgstore/znclog/reader.go
+++ b/msgstore/znclog/reader.go
@@ -137,7 +137,8 @@ func UnmarshalLine(line string, user *database.User, network *database.Network,
 		}
 
 		prefix = &irc.Prefix{Name: sender}
-		if entity == sender {
+		// The entity has been case-mapped, the sender hasn't
+		if xirc.CaseMappingRFC1459(entity) == xirc.CaseMappingRFC1459(sender) {
 			// This is a direct message from a user to us. We don't store own
 			// our nickname in the logs, so grab it from the network settings.
 			// Not very accurate since this may not match our nick at the time
-- 
2.43.0


From f18f7aa5cd3008be0b15650ee623ee5dd8185a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:01 +0000
Subject: [PATCH 10/76] fix: include messages sent at midnight in history
 loaded from log files

---
 msgstore/fs.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/msgstore/fs.go b/msgstore/fs.go
index 8198fbc..88b9fe2 100644
--- a/msgstore/fs.go
+++ b/msgstore/fs.go
@@ -280,7 +280,9 @@ func (ms *fsMessageStore) parseMessagesBefore(ref time.Time, end time.Time, opti
 	}
 }
 
-func (ms *fsMessageStore) parseMessagesAfter(ref time.Time, end time.Time, options *LoadMessageOptions, selector func(m *irc.Message) bool) ([]*irc.Message, error) {
+// parseMessagesAfter loads messages from the log file of day ref, sent after
+// start (exclusive) and before end (exclusive).
+func (ms *fsMessageStore) parseMessagesAfter(ref, start, end time.Time, options *LoadMessageOptions, selector func(m *irc.Message) bool) ([]*irc.Message, error) {
 	path := ms.logPath(options.Network, options.Entity, ref)
 	f, err := os.Open(path)
 	if err != nil {
@@ -297,7 +299,7 @@ func (ms *fsMessageStore) parseMessagesAfter(ref time.Time, end time.Time, optio
 		msg, t, err := ms.parseMessage(sc.Text(), options.Network, options.Entity, ref, options.Events)
 		if err != nil {
 			return nil, err
-		} else if msg == nil || !t.After(ref) {
+		} else if msg == nil || !t.After(start) {
 			continue
 		} else if !t.Before(end) {
 			break
@@ -364,10 +366,10 @@ func (ms *fsMessageStore) getAfterTime(ctx context.Context, start time.Time, end
 	var messages []*irc.Message
 	remaining := options.Limit
 	tries := 0
-	for remaining > 0 && tries < fsMessageStoreMaxTries && start.Before(end) {
+	for ref := start; remaining > 0 && tries < fsMessageStoreMaxTries && ref.Before(end); {
 		parseOptions := *options
 		parseOptions.Limit = remaining
-		buf, err := ms.parseMessagesAfter(start, end, &parseOptions, selector)
+		buf, err := ms.parseMessagesAfter(ref, start, end, &parseOptions, selector)
 		if err != nil {
 			return nil, err
 		}
@@ -378,8 +380,8 @@ func (ms *fsMessageStore) getAfterTime(ctx context.Context, start time.Time, end
 		}
 		messages = append(messages, buf...)
 		remaining -= len(buf)
-		year, month, day := start.Date()
-		start = time.Date(year, month, day+1, 0, 0, 0, 0, start.Location())
+		year, month, day := ref.Date()
+		ref = time.Date(year, month, day+1, 0, 0, 0, 0, ref.Location())
 
 		if err := ctx.Err(); err != nil {
 			return nil, err
-- 
2.43.0


From 595ee088bb57e9a901f96e9e68d497a2b0b5a609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:44 +0000
Subject: [PATCH 11/76] fix: return no result for searches without any word in
 SQLite

---
 database/sqlite.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/database/sqlite.go b/database/sqlite.go
index 753bbaf..70f46fb 100644
--- a/database/sqlite.go
+++ b/database/sqlite.go
@@ -1333,6 +1333,9 @@ func quoteFTSQuery(query string) string {
 	tokens := strings.FieldsFunc(query, func(r rune) bool {
 		return !unicode.In(r, unicode.L, unicode.N, unicode.Co)
 	})
+	if len(tokens) == 0 {
+		return `""` // matches nothing, while an empty query is a syntax error
+	}
 	var sb strings.Builder
 	for _, token := range tokens {
 		if sb.Len() > 0 {
-- 
2.43.0


From 8cb6192ce873df0e609649df02cea6796e2571c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:56:31 +0000
Subject: [PATCH 12/76] fix: include the most recent messages in chat history
 replies

---
 downstream.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/downstream.go b/downstream.go
index 770b791..8f9e0e5 100644
--- a/downstream.go
+++ b/downstream.go
@@ -2832,9 +2832,9 @@ func (dc *downstreamConn) handleMessageRegistered(ctx context.Context, msg *irc.
 		case "BEFORE":
 			history, err = store.LoadBeforeTime(ctx, bounds[0], time.Time{}, &options)
 		case "LATEST":
-			history, err = store.LoadBeforeTime(ctx, time.Now(), bounds[0], &options)
+			history, err = store.LoadBeforeTime(ctx, time.Time{}, bounds[0], &options)
 		case "AFTER":
-			history, err = store.LoadAfterTime(ctx, bounds[0], time.Now(), &options)
+			history, err = store.LoadAfterTime(ctx, bounds[0], time.Time{}, &options)
 		case "BETWEEN":
 			if bounds[0].Before(bounds[1]) {
 				history, err = store.LoadAfterTime(ctx, bounds[0], bounds[1], &options)
-- 
2.43.0


From a48c4b79cc065fa4ce6e5592f57bde68b5258f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:36 +0000
Subject: [PATCH 13/76] fix: do not forward incomplete channels when attaching

---
 user.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/user.go b/user.go
index abd0282..b5bf01e 100644
--- a/user.go
+++ b/user.go
@@ -368,7 +368,9 @@ func (net *network) attach(ctx context.Context, ch *database.Channel) {
 			Params:  []string{ch.Name},
 		})
 
-		if uch != nil {
+		// If the channel isn't complete yet, it'll be forwarded when the
+		// upstream server has sent its members
+		if uch != nil && uch.complete {
 			forwardChannel(ctx, dc, uch)
 		}
 
-- 
2.43.0


From 6af73e7d15d696abbf08e749427598ec85117ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:36 +0000
Subject: [PATCH 14/76] fix: part clients when detaching a channel which isn't
 saved

---
 downstream.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/downstream.go b/downstream.go
index 8f9e0e5..5a99c97 100644
--- a/downstream.go
+++ b/downstream.go
@@ -2003,15 +2003,11 @@ func (dc *downstreamConn) handleMessageRegistered(ctx context.Context, msg *irc.
 		for _, name := range strings.Split(namesStr, ",") {
 			if strings.EqualFold(reason, "detach") {
 				ch := uc.network.channels.Get(name)
-				if ch != nil {
-					uc.network.detach(ch)
-				} else {
-					ch = &database.Channel{
-						Name:     name,
-						Detached: true,
-					}
+				if ch == nil {
+					ch = &database.Channel{Name: name}
 					uc.network.channels.Set(ch.Name, ch)
 				}
+				uc.network.detach(ch)
 				if err := dc.srv.db.StoreChannel(ctx, uc.network.ID, ch); err != nil {
 					dc.logger.Printf("failed to create or update channel %q: %v", name, err)
 				}
-- 
2.43.0


From 65300b8a2930849fcf92043f3860af085ed97cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:32:53 +0000
Subject: [PATCH 15/76] fix: send JOIN to clients connecting before a channel
 is complete

---
 downstream.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/downstream.go b/downstream.go
index 5a99c97..009f848 100644
--- a/downstream.go
+++ b/downstream.go
@@ -1582,9 +1582,6 @@ func (dc *downstreamConn) welcome(ctx context.Context, user *user) error {
 
 	dc.forEachUpstream(func(uc *upstreamConn) {
 		uc.channels.ForEach(func(_ string, ch *upstreamChannel) {
-			if !ch.complete {
-				return
-			}
 			record := uc.network.channels.Get(ch.Name)
 			if record != nil && record.Detached {
 				return
@@ -1605,7 +1602,11 @@ func (dc *downstreamConn) welcome(ctx context.Context, user *user) error {
 				Params:  params,
 			})
 
-			forwardChannel(ctx, dc, ch)
+			// If the channel isn't complete yet, it'll be forwarded when the
+			// upstream server has sent its members
+			if ch.complete {
+				forwardChannel(ctx, dc, ch)
+			}
 		})
 	})
 
-- 
2.43.0


From 829fdbb59ef42e2b5b44c6ba907e40812951c391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:40:29 +0000
Subject: [PATCH 16/76] fix: send queued commands after giving up on a stale
 one

---
 upstream.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/upstream.go b/upstream.go
index 895087b..46934c8 100644
--- a/upstream.go
+++ b/upstream.go
@@ -523,10 +523,10 @@ func (uc *upstreamConn) enqueueCommand(dc *downstreamConn, msg *irc.Message) {
 	// If we didn't get a reply after a while, just give up
 	// TODO: consider sending an abort reply to downstream
 	if t := uc.pendingCmds[msg.Command][0].sentAt; !t.IsZero() && time.Since(t) > 30*time.Second {
-		copy(uc.pendingCmds[msg.Command], uc.pendingCmds[msg.Command][1:])
+		uc.pendingCmds[msg.Command] = uc.pendingCmds[msg.Command][1:]
 	}
 
-	if len(uc.pendingCmds[msg.Command]) == 1 {
+	if uc.pendingCmds[msg.Command][0].sentAt.IsZero() {
 		uc.sendNextPendingCommand(msg.Command)
 	}
 }
-- 
2.43.0


From e57636e99a14c056cd03579732ec3f5abbd55c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:01 +0000
Subject: [PATCH 17/76] fix: update cached user info on CHGHOST

---
 upstream.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/upstream.go b/upstream.go
index 46934c8..b12df77 100644
--- a/upstream.go
+++ b/upstream.go
@@ -1157,6 +1157,11 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 			Host: newHostname,
 		}
 
+		uc.cacheUserInfo(msg.Prefix.Name, &upstreamUser{
+			Username: newUsername,
+			Hostname: newHostname,
+		})
+
 		if uc.isOurNick(msg.Prefix.Name) {
 			uc.logger.Printf("changed prefix from %q to %q", msg.Prefix.Host, newPrefix)
 			uc.username = newUsername
-- 
2.43.0


From 855e0339e29f2596cb0b74ca0a9310c1471cda46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:44:11 +0000
Subject: [PATCH 18/76] fix: don't mix up replies after a failed WHO or WHOIS

---
 upstream.go | 67 +++++++++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 65 insertions(+), 2 deletions(-)

diff --git a/upstream.go b/upstream.go
index b12df77..9f011ad 100644
--- a/upstream.go
+++ b/upstream.go
@@ -227,6 +227,9 @@ type upstreamConn struct {
 	// sent to the server and is awaiting reply. The following entries have not
 	// been sent yet.
 	pendingCmds map[string][]pendingUpstreamCommand
+	// Last command of each type which has been answered with an error: the
+	// server may still send the end of its reply.
+	failedCmds map[string]pendingUpstreamCommand
 
 	pendingRegainNick string
 	regainNickTimer   *time.Timer
@@ -367,6 +370,7 @@ func connectToUpstream(ctx context.Context, network *network) (*upstreamConn, er
 		availableMemberships:  stdMemberships,
 		isupport:              make(map[string]*string),
 		pendingCmds:           make(map[string][]pendingUpstreamCommand),
+		failedCmds:            make(map[string]pendingUpstreamCommand),
 		monitored:             xirc.NewCaseMappingMap[bool](cm),
 		hasDesiredNick:        true,
 	}
@@ -553,6 +557,51 @@ func (uc *upstreamConn) dequeueCommand(cmd string) (*downstreamConn, *irc.Messag
 	return dc, msg
 }
 
+// failCommand is the same as dequeueCommand, but for commands which have been
+// answered with an error. Some servers still send the end of the reply, see
+// endFailedCommand.
+func (uc *upstreamConn) failCommand(cmd string) (*downstreamConn, *irc.Message) {
+	if len(uc.pendingCmds[cmd]) > 0 {
+		uc.failedCmds[cmd] = uc.pendingCmds[cmd][0]
+	}
+	return uc.dequeueCommand(cmd)
+}
+
+// endFailedCommand handles the end of a WHO or WHOIS reply. If the reply belongs
+// to a command which has previously been answered with an error, the message is
+// forwarded and true is returned.
+func (uc *upstreamConn) endFailedCommand(ctx context.Context, cmd string, msg *irc.Message) bool {
+	failedCmd, ok := uc.failedCmds[cmd]
+	delete(uc.failedCmds, cmd)
+	if !ok || len(msg.Params) < 2 {
+		return false
+	}
+
+	cm := uc.network.casemap
+	target := cm(msg.Params[1])
+	if cm(pendingCommandTarget(failedCmd.msg)) != target {
+		return false
+	}
+	if _, pendingMsg := uc.currentPendingCommand(cmd); cmd == "WHO" && pendingMsg != nil && cm(pendingCommandTarget(pendingMsg)) == target {
+		return false
+	}
+
+	if dc := uc.downstreamByID(failedCmd.downstreamID); dc != nil {
+		dc.SendMessage(ctx, msg)
+	}
+	return true
+}
+
+func pendingCommandTarget(msg *irc.Message) string {
+	if len(msg.Params) == 0 {
+		return "*"
+	}
+	if msg.Command == "WHOIS" {
+		return msg.Params[len(msg.Params)-1]
+	}
+	return msg.Params[0]
+}
+
 func (uc *upstreamConn) cancelPendingCommandsByDownstreamID(downstreamID uint64) {
 	for cmd := range uc.pendingCmds {
 		// We can't cancel the currently running command stored in
@@ -1527,6 +1576,8 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 			})
 		}
 	case irc.RPL_WHOREPLY:
+		delete(uc.failedCmds, "WHO")
+
 		var username, host, server, nick, flags, trailing string
 		if err := parseMessageParams(msg, nil, nil, &username, &host, &server, &nick, &flags, &trailing); err != nil {
 			return err
@@ -1558,6 +1609,8 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 			})
 		}
 	case xirc.RPL_WHOSPCRPL:
+		delete(uc.failedCmds, "WHO")
+
 		dc, cmd := uc.currentPendingCommand("WHO")
 		if cmd == nil {
 			return fmt.Errorf("unexpected RPL_WHOSPCRPL: no matching pending WHO")
@@ -1590,6 +1643,10 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 			}
 		}
 	case irc.RPL_ENDOFWHO:
+		if uc.endFailedCommand(ctx, "WHO", msg) {
+			return nil
+		}
+
 		dc, cmd := uc.dequeueCommand("WHO")
 		if cmd == nil {
 			// Some servers send RPL_TRYAGAIN followed by RPL_ENDOFWHO
@@ -1601,6 +1658,8 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 
 		dc.SendMessage(ctx, msg)
 	case xirc.RPL_WHOISCERTFP, xirc.RPL_WHOISREGNICK, irc.RPL_WHOISUSER, irc.RPL_WHOISSERVER, irc.RPL_WHOISCHANNELS, irc.RPL_WHOISOPERATOR, irc.RPL_WHOISIDLE, xirc.RPL_WHOISSPECIAL, xirc.RPL_WHOISACCOUNT, xirc.RPL_WHOISACTUALLY, xirc.RPL_WHOISHOST, xirc.RPL_WHOISMODES, xirc.RPL_WHOISSECURE:
+		delete(uc.failedCmds, "WHOIS")
+
 		dc, cmd := uc.currentPendingCommand("WHOIS")
 		if cmd == nil {
 			return fmt.Errorf("unexpected WHOIS reply %q: no matching pending WHOIS", msg.Command)
@@ -1610,6 +1669,10 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 
 		dc.SendMessage(ctx, msg)
 	case irc.RPL_ENDOFWHOIS:
+		if uc.endFailedCommand(ctx, "WHOIS", msg) {
+			return nil
+		}
+
 		dc, cmd := uc.dequeueCommand("WHOIS")
 		if cmd == nil {
 			return fmt.Errorf("unexpected RPL_ENDOFWHOIS: no matching pending WHOIS")
@@ -1756,7 +1819,7 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 		cm := uc.network.casemap
 		dc, cmd := uc.currentPendingCommand("WHOIS")
 		if cmd != nil && cm(cmd.Params[len(cmd.Params)-1]) == cm(nick) {
-			uc.dequeueCommand("WHOIS")
+			uc.failCommand("WHOIS")
 			if dc != nil {
 				dc.SendMessage(ctx, msg)
 			}
@@ -1769,7 +1832,7 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 			return err
 		}
 
-		if dc, _ := uc.dequeueCommand(command); dc != nil && downstreamID == 0 {
+		if dc, _ := uc.failCommand(command); dc != nil && downstreamID == 0 {
 			downstreamID = dc.id
 		}
 
-- 
2.43.0


From e8da2efd2c2e8ad8c8f217cadef47d7aac211e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:44:15 +0000
Subject: [PATCH 19/76] fix: don't send error replies to everyone when the
 requester is gone

---
 upstream.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/upstream.go b/upstream.go
index 9f011ad..fc1e6e2 100644
--- a/upstream.go
+++ b/upstream.go
@@ -1832,15 +1832,18 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 			return err
 		}
 
-		if dc, _ := uc.failCommand(command); dc != nil && downstreamID == 0 {
-			downstreamID = dc.id
-		}
-
 		if command == "AUTHENTICATE" {
 			uc.saslClient = nil
 			uc.saslStarted = false
 		}
 
+		if dc, cmd := uc.failCommand(command); dc != nil && downstreamID == 0 {
+			downstreamID = dc.id
+		} else if dc == nil && cmd != nil {
+			// Downstream connection is gone
+			break
+		}
+
 		uc.forwardMsgByID(ctx, downstreamID, msg)
 	case "FAIL":
 		var command, code string
@@ -1852,8 +1855,11 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 			return registrationError{msg}
 		}
 
-		if dc, _ := uc.dequeueCommand(command); dc != nil && downstreamID == 0 {
+		if dc, cmd := uc.dequeueCommand(command); dc != nil && downstreamID == 0 {
 			downstreamID = dc.id
+		} else if dc == nil && cmd != nil {
+			// Downstream connection is gone
+			break
 		}
 
 		uc.forwardMsgByID(ctx, downstreamID, msg)
-- 
2.43.0


From cd785236128fc75c647da563e2d3b938ea7e37f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:48:16 +0000
Subject: [PATCH 20/76] fix: update own cached away status

---
 upstream.go | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/upstream.go b/upstream.go
index fc1e6e2..62db351 100644
--- a/upstream.go
+++ b/upstream.go
@@ -1782,19 +1782,7 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 	case irc.RPL_AWAY:
 		uc.forwardMsgByID(ctx, downstreamID, msg)
 	case "AWAY":
-		// Update user flags, if we already have the flags cached
-		uu := uc.users.Get(msg.Prefix.Name)
-		if uu != nil && uu.Flags != "" {
-			flags := uu.Flags
-			if isAway := len(msg.Params) > 0; isAway {
-				flags = strings.ReplaceAll(flags, "H", "G")
-			} else {
-				flags = strings.ReplaceAll(flags, "G", "H")
-			}
-			uc.cacheUserInfo(msg.Prefix.Name, &upstreamUser{
-				Flags: flags,
-			})
-		}
+		uc.cacheUserAway(msg.Prefix.Name, len(msg.Params) > 0)
 
 		uc.forwardMessage(ctx, msg)
 	case "ACCOUNT":
@@ -1866,7 +1854,7 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 	case "ACK":
 		// Ignore
 	case irc.RPL_NOWAWAY, irc.RPL_UNAWAY:
-		// Ignore
+		uc.cacheUserAway(uc.nick, msg.Command == irc.RPL_NOWAWAY)
 	case irc.RPL_YOURHOST, irc.RPL_CREATED:
 		// Ignore
 	case irc.RPL_LUSERCLIENT, irc.RPL_LUSEROP, irc.RPL_LUSERUNKNOWN, irc.RPL_LUSERCHANNELS, irc.RPL_LUSERME:
@@ -2507,6 +2495,23 @@ func (uc *upstreamConn) getCachedWHO(mask, fields string) (l []*upstreamUser, ok
 	return nil, false
 }
 
+func (uc *upstreamConn) cacheUserAway(nick string, isAway bool) {
+	// Update user flags, if we already have the flags cached
+	uu := uc.users.Get(nick)
+	if uu == nil || uu.Flags == "" {
+		return
+	}
+	flags := uu.Flags
+	if isAway {
+		flags = strings.ReplaceAll(flags, "H", "G")
+	} else {
+		flags = strings.ReplaceAll(flags, "G", "H")
+	}
+	uc.cacheUserInfo(nick, &upstreamUser{
+		Flags: flags,
+	})
+}
+
 func (uc *upstreamConn) cacheUserInfo(nick string, info *upstreamUser) {
 	if nick == "" {
 		panic("cacheUserInfo called with empty nickname")
-- 
2.43.0


From b2c449ae73e0a5066dec6802cbf3063c3333661e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:55:36 +0000
Subject: [PATCH 21/76] fix: update requested caps when the server withdraws
 one

---
 upstream.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/upstream.go b/upstream.go
index 62db351..a172104 100644
--- a/upstream.go
+++ b/upstream.go
@@ -819,6 +819,7 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 			for _, c := range caps {
 				uc.caps.Del(c)
 			}
+			uc.updateCaps(ctx)
 
 			if uc.registered {
 				uc.forEachDownstream(func(dc *downstreamConn) {
-- 
2.43.0


From 262ed73820bcae55ae2781ae17b08fa2984063c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:01:30 +0000
Subject: [PATCH 22/76] fix: don't write to moved message logs after renaming a
 network

---
 msgstore/fs.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/msgstore/fs.go b/msgstore/fs.go
index 88b9fe2..be5150f 100644
--- a/msgstore/fs.go
+++ b/msgstore/fs.go
@@ -553,7 +553,18 @@ func (ms *fsMessageStore) RenameNetwork(oldNet, newNet *database.Network) error
 	if _, err := os.Stat(newDir); err == nil {
 		return fmt.Errorf("destination %q already exists", newDir)
 	}
-	return os.Rename(oldDir, newDir)
+	if err := os.Rename(oldDir, newDir); err != nil {
+		return err
+	}
+	// Close the files which have been moved: they must not be used if another
+	// network takes the old name
+	for name, f := range ms.files {
+		if strings.HasPrefix(f.Name(), oldDir+string(filepath.Separator)) {
+			f.Close()
+			delete(ms.files, name)
+		}
+	}
+	return nil
 }
 
 func truncateDay(t time.Time) time.Time {
-- 
2.43.0


From 41b89518c32b062db45740e429ee68677938e5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:13 +0000
Subject: [PATCH 23/76] fix: close connections which couldn't be set up

---
 user.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/user.go b/user.go
index b5bf01e..613a2d6 100644
--- a/user.go
+++ b/user.go
@@ -734,7 +734,7 @@ func (u *user) run() {
 					Command: "ERROR",
 					Params:  []string{"This bouncer account is disabled"},
 				})
-				// TODO: close dc after the error message is sent
+				dc.Shutdown(ctx)
 				break
 			}
 
@@ -750,7 +750,7 @@ func (u *user) run() {
 					})
 				}
 				dc.logger.Printf("failed to handle new registered connection: %v", err)
-				// TODO: close dc after the error message is sent
+				dc.Shutdown(ctx)
 				break
 			}
 
@@ -797,7 +797,7 @@ func (u *user) run() {
 			}
 		case eventDownstreamMessage:
 			msg, dc := e.msg, e.dc
-			if dc.isClosed() {
+			if dc.isClosed() || !u.hasDownstreamConn(dc) {
 				dc.logger.Printf("ignoring message on closed connection: %v", msg)
 				break
 			}
@@ -947,6 +947,15 @@ func (u *user) notifyBouncerNetworkState(netID int64, attrs irc.Tags) {
 	}
 }
 
+func (u *user) hasDownstreamConn(dc *downstreamConn) bool {
+	for _, other := range u.downstreamConns {
+		if other == dc {
+			return true
+		}
+	}
+	return false
+}
+
 func (u *user) addNetwork(network *network) {
 	u.networks = append(u.networks, network)
 
-- 
2.43.0


From c122bf15b76603ae9a80ccbd03c6ea74b0c00bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:13 +0000
Subject: [PATCH 24/76] fix: refuse impersonation by disabled administrators

---
 downstream.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/downstream.go b/downstream.go
index 009f848..fec3c23 100644
--- a/downstream.go
+++ b/downstream.go
@@ -698,6 +698,10 @@ func (dc *downstreamConn) handleMessageUnregistered(ctx context.Context, msg *ir
 					err = fmt.Errorf("SASL impersonation only allowed for admin users")
 					break
 				}
+				if !u.Enabled && !dc.srv.Config().EnableUsersOnAuth {
+					err = fmt.Errorf("SASL impersonation not allowed for disabled users")
+					break
+				}
 				username, clientName, networkName = unmarshalUsername(credentials.plain.Identity)
 				if _, err = dc.srv.db.GetUser(ctx, username); err != nil {
 					err = fmt.Errorf("%v (username %q)", err, username)
-- 
2.43.0


From f8c2f83a13213283469755cefb31e31ac42adf9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:28:46 +0000
Subject: [PATCH 25/76] fix: don't deadlock when users delete their own account

---
 service.go | 40 ++++++++++++++++++++++++++++------------
 1 file changed, 28 insertions(+), 12 deletions(-)

diff --git a/service.go b/service.go
index 0b8b0cd..259e8ff 100644
--- a/service.go
+++ b/service.go
@@ -1201,26 +1201,42 @@ func handleUserDelete(ctx *serviceContext, params []string) error {
 		return fmt.Errorf("provided confirmation token doesn't match user")
 	}
 
-	var deleteCtx context.Context = ctx
+	deleteUser := func(ctx context.Context, srv *Server) error {
+		if err := u.stop(ctx); err != nil {
+			return fmt.Errorf("failed to stop user: %v", err)
+		}
+
+		if err := srv.db.DeleteUser(ctx, u.ID); err != nil {
+			return fmt.Errorf("failed to delete user: %v", err)
+		}
+
+		return nil
+	}
+
 	if self {
 		ctx.print(fmt.Sprintf("Goodbye %s, deleting your account. There will be no further confirmation.", username))
-		// We can't use ctx here, because it'll be cancelled once we close the
-		// downstream connection
-		deleteCtx = context.TODO()
-	}
 
-	if err := u.stop(deleteCtx); err != nil {
-		return fmt.Errorf("failed to stop user: %v", err)
-	}
+		// This command is executed by the user goroutine: it can't wait for
+		// itself to stop. We can't use ctx here either, because it'll be
+		// cancelled once we close the downstream connection.
+		srv := ctx.srv
+		srv.stopWG.Add(1)
+		go func() {
+			defer srv.stopWG.Done()
+			if err := deleteUser(context.TODO(), srv); err != nil {
+				srv.Logger.Printf("failed to delete user %q: %v", username, err)
+			}
+		}()
 
-	if err := ctx.srv.db.DeleteUser(deleteCtx, u.ID); err != nil {
-		return fmt.Errorf("failed to delete user: %v", err)
+		return nil
 	}
 
-	if !self {
-		ctx.print(fmt.Sprintf("deleted user %q", username))
+	if err := deleteUser(ctx, ctx.srv); err != nil {
+		return err
 	}
 
+	ctx.print(fmt.Sprintf("deleted user %q", username))
+
 	return nil
 }
 
-- 
2.43.0


From 30dc3081ab2dd4bf8c5e8883207239d6731ad49a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:32:18 +0000
Subject: [PATCH 26/76] fix: close connections of users which have stopped

---
 downstream.go |  6 ++++--
 server.go     | 19 ++++++++++++++++---
 user.go       | 11 +++++++++++
 3 files changed, 31 insertions(+), 5 deletions(-)

diff --git a/downstream.go b/downstream.go
index fec3c23..aeb9883 100644
--- a/downstream.go
+++ b/downstream.go
@@ -466,7 +466,7 @@ func (dc *downstreamConn) ReadMessage() (*irc.Message, error) {
 	return msg, nil
 }
 
-func (dc *downstreamConn) readMessages(ch chan<- event) error {
+func (dc *downstreamConn) readMessages(user *user) error {
 	for {
 		msg, err := dc.ReadMessage()
 		if errors.Is(err, io.EOF) {
@@ -475,7 +475,9 @@ func (dc *downstreamConn) readMessages(ch chan<- event) error {
 			return fmt.Errorf("failed to read IRC command: %v", err)
 		}
 
-		ch <- eventDownstreamMessage{msg, dc}
+		if !user.sendEvent(eventDownstreamMessage{msg, dc}) {
+			break
+		}
 	}
 
 	return nil
diff --git a/server.go b/server.go
index 1df3dc6..389f774 100644
--- a/server.go
+++ b/server.go
@@ -504,11 +504,24 @@ func (s *Server) Handle(ic ircConn) {
 		return
 	}
 
-	user.events <- eventDownstreamConnected{dc}
-	if err := dc.readMessages(user.events); err != nil {
+	// The user may stop before it learns about this connection
+	connDone := make(chan struct{})
+	defer close(connDone)
+	go func() {
+		select {
+		case <-user.done:
+			dc.Close()
+		case <-connDone:
+		}
+	}()
+
+	if !user.sendEvent(eventDownstreamConnected{dc}) {
+		return
+	}
+	if err := dc.readMessages(user); err != nil {
 		dc.logger.Printf("%v", err)
 	}
-	user.events <- eventDownstreamDisconnected{dc}
+	user.sendEvent(eventDownstreamDisconnected{dc})
 }
 
 func (s *Server) getOrCreateUser(ctx context.Context, username string) (*user, error) {
diff --git a/user.go b/user.go
index 613a2d6..ba1a8b4 100644
--- a/user.go
+++ b/user.go
@@ -1271,6 +1271,17 @@ func (u *user) updateUser(ctx context.Context, update UserUpdateFunc) error {
 	return nil
 }
 
+// sendEvent queues an event for the user goroutine. It returns false if the
+// user has stopped.
+func (u *user) sendEvent(e event) bool {
+	select {
+	case <-u.done:
+		return false
+	case u.events <- e:
+		return true
+	}
+}
+
 func (u *user) stop(ctx context.Context) error {
 	select {
 	case <-u.done:
-- 
2.43.0


From 849b2ac6794e73698728393f764b80f9717d2c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:33:08 +0000
Subject: [PATCH 27/76] fix: don't wait forever for replies from users which
 have stopped

---
 service.go | 36 ++++++++++++++++++++++++++----------
 user.go    |  8 ++++----
 2 files changed, 30 insertions(+), 14 deletions(-)

diff --git a/service.go b/service.go
index 259e8ff..2bd2fe0 100644
--- a/service.go
+++ b/service.go
@@ -1123,11 +1123,20 @@ func handleUserUpdate(ctx *serviceContext, params []string) error {
 		select {
 		case <-ctx.Done():
 			return ctx.Err()
+		case <-u.done:
+			return fmt.Errorf("unknown username %q", username)
 		case u.events <- event:
 		}
 		// TODO: send context to the other side
-		if err := <-done; err != nil {
-			return err
+		select {
+		case <-ctx.Done():
+			return ctx.Err()
+		case <-u.done:
+			return fmt.Errorf("user %q has been stopped", username)
+		case err := <-done:
+			if err != nil {
+				return err
+			}
 		}
 
 		ctx.print(fmt.Sprintf("updated user %q", username))
@@ -1263,26 +1272,33 @@ func handleUserRun(ctx *serviceContext, params []string) error {
 
 	msgCh := make(chan userRunMsg, 1)
 	ev := eventUserRun{
+		ctx:    ctx,
 		params: params,
 		ch:     msgCh,
 	}
 	select {
 	case <-ctx.Done():
 		return ctx.Err()
+	case <-u.done:
+		return fmt.Errorf("unknown username %q", username)
 	case u.events <- ev:
 	}
 	for {
 		select {
 		case <-ctx.Done():
-			// This handles a possible race condition:
-			// - we send ev to u.events
-			// - the user goroutine for u stops (because of a crash or user deletion)
-			// - we would block on printCh
-			// Quitting on ctx.Done() prevents us from blocking indefinitely
-			// in case the event is never processed.
-			// TODO: Properly fix this condition by flushing the u.events queue
-			//       and running close(ev.print) in a defer
 			return fmt.Errorf("timeout executing command")
+		case <-u.done:
+			// The user goroutine for u may stop (because of a crash or user
+			// deletion) before ev is processed
+			select {
+			case msg := <-msgCh:
+				if msg.message == "" {
+					return msg.err
+				}
+				ctx.print(msg.message)
+			default:
+			}
+			return fmt.Errorf("user %q has been stopped", username)
 		case msg := <-msgCh:
 			if msg.message != "" {
 				ctx.print(msg.message)
diff --git a/user.go b/user.go
index ba1a8b4..73d96e6 100644
--- a/user.go
+++ b/user.go
@@ -88,6 +88,7 @@ type eventTryRegainNick struct {
 }
 
 type eventUserRun struct {
+	ctx    context.Context
 	params []string
 	ch     chan userRunMsg
 }
@@ -841,7 +842,7 @@ func (u *user) run() {
 		case eventTryRegainNick:
 			e.uc.tryRegainNick(e.nick)
 		case eventUserRun:
-			ctx := context.TODO()
+			ctx := e.ctx
 			err := handleServiceCommand(&serviceContext{
 				Context: ctx,
 				user:    u,
@@ -855,9 +856,8 @@ func (u *user) run() {
 				// so this cannot be used to escalate privileges.
 				admin: true,
 				print: func(text string) {
-					// Avoid blocking on e.print in case our context is canceled.
-					// This is a no-op right now because we use context.TODO(),
-					// but might be useful later when we add timeouts.
+					// Avoid blocking on e.ch in case our context is canceled,
+					// because nobody is receiving anymore.
 					select {
 					case <-ctx.Done():
 					case e.ch <- userRunMsg{message: text}:
-- 
2.43.0


From 0069bb694b73f929afafd4abcab2b31583b10386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:45:49 +0000
Subject: [PATCH 28/76] fix: don't apply SASL settings which couldn't be stored

---
 service.go | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/service.go b/service.go
index 2bd2fe0..60b81c2 100644
--- a/service.go
+++ b/service.go
@@ -807,13 +807,15 @@ func handleServiceCertFPGenerate(ctx *serviceContext, params []string) error {
 		return err
 	}
 
-	net.SASL.External.CertBlob = cert
-	net.SASL.External.PrivKeyBlob = privKey
-	net.SASL.Mechanism = "EXTERNAL"
+	record := net.Network // copy network record because we'll mutate it
+	record.SASL.External.CertBlob = cert
+	record.SASL.External.PrivKeyBlob = privKey
+	record.SASL.Mechanism = "EXTERNAL"
 
-	if err := ctx.srv.db.StoreNetwork(ctx, ctx.user.ID, &net.Network); err != nil {
+	if err := ctx.srv.db.StoreNetwork(ctx, ctx.user.ID, &record); err != nil {
 		return err
 	}
+	net.SASL = record.SASL
 
 	ctx.print("certificate generated")
 	sendCertfpFingerprints(ctx, cert)
@@ -899,13 +901,15 @@ func handleServiceSASLSetPlain(ctx *serviceContext, params []string) error {
 		return err
 	}
 
-	net.SASL.Plain.Username = fs.Arg(0)
-	net.SASL.Plain.Password = fs.Arg(1)
-	net.SASL.Mechanism = "PLAIN"
+	record := net.Network // copy network record because we'll mutate it
+	record.SASL.Plain.Username = fs.Arg(0)
+	record.SASL.Plain.Password = fs.Arg(1)
+	record.SASL.Mechanism = "PLAIN"
 
-	if err := ctx.srv.db.StoreNetwork(ctx, ctx.user.ID, &net.Network); err != nil {
+	if err := ctx.srv.db.StoreNetwork(ctx, ctx.user.ID, &record); err != nil {
 		return err
 	}
+	net.SASL = record.SASL
 
 	ctx.print("credentials saved")
 	return nil
@@ -927,15 +931,13 @@ func handleServiceSASLReset(ctx *serviceContext, params []string) error {
 		return err
 	}
 
-	net.SASL.Plain.Username = ""
-	net.SASL.Plain.Password = ""
-	net.SASL.External.CertBlob = nil
-	net.SASL.External.PrivKeyBlob = nil
-	net.SASL.Mechanism = ""
+	record := net.Network // copy network record because we'll mutate it
+	record.SASL = database.SASL{}
 
-	if err := ctx.srv.db.StoreNetwork(ctx, ctx.user.ID, &net.Network); err != nil {
+	if err := ctx.srv.db.StoreNetwork(ctx, ctx.user.ID, &record); err != nil {
 		return err
 	}
+	net.SASL = record.SASL
 
 	ctx.print("credentials reset")
 	return nil
-- 
2.43.0


From b025adb141443a946c8da929680836157edf2f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:45:54 +0000
Subject: [PATCH 29/76] fix: keep the realname set by clients

---
 downstream.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/downstream.go b/downstream.go
index aeb9883..c428caa 100644
--- a/downstream.go
+++ b/downstream.go
@@ -1887,13 +1887,16 @@ func (dc *downstreamConn) handleMessageRegistered(ctx context.Context, msg *irc.
 			}
 
 			if uc := dc.upstream(); uc != nil && uc.caps.IsEnabled("setname") {
-				// Upstream will reply with a SETNAME message on success
-				uc.SendMessageLabeled(ctx, dc.id, &irc.Message{
-					Command: "SETNAME",
-					Params:  []string{realname},
-				})
-
 				err = dc.srv.db.StoreNetwork(ctx, dc.user.ID, &record)
+				if err == nil {
+					dc.network.Network.Realname = record.Realname
+
+					// Upstream will reply with a SETNAME message on success
+					uc.SendMessageLabeled(ctx, dc.id, &irc.Message{
+						Command: "SETNAME",
+						Params:  []string{realname},
+					})
+				}
 			} else {
 				// This will disconnect then re-connect the upstream connection
 				_, err = dc.user.updateNetwork(ctx, &record, false)
-- 
2.43.0


From 6e7ef0c880bf394f0783a6b5a24b249e28fb9994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:45:58 +0000
Subject: [PATCH 30/76] fix: make channel updates atomic

---
 service.go | 35 +++++++++++++++++++++++++----------
 user.go    | 24 +++++++++++++++---------
 2 files changed, 40 insertions(+), 19 deletions(-)

diff --git a/service.go b/service.go
index 60b81c2..897a351 100644
--- a/service.go
+++ b/service.go
@@ -1508,11 +1508,15 @@ func handleServiceChannelCreate(ctx *serviceContext, params []string) error {
 		return err
 	}
 
-	network.channels.Set(ch.Name, &ch)
+	if fs.Detached != nil && *fs.Detached {
+		ch.Detached = true
+		ch.DetachedInternalMsgID = network.lastMsgID(&ch)
+	}
 
 	if err := ctx.srv.db.StoreChannel(ctx, network.ID, &ch); err != nil {
 		return fmt.Errorf("failed to create channel: %v", err)
 	}
+	network.channels.Set(ch.Name, &ch)
 
 	if network.conn != nil {
 		network.conn.SendMessage(ctx, &irc.Message{
@@ -1549,24 +1553,35 @@ func handleServiceChannelUpdate(ctx *serviceContext, params []string) error {
 		return fmt.Errorf("unknown channel %q", name)
 	}
 
-	if err := fs.update(ch); err != nil {
+	record := *ch // copy channel record because we'll mutate it
+	if err := fs.update(&record); err != nil {
 		return err
 	}
 
 	if fs.Detached != nil && *fs.Detached != ch.Detached {
-		if *fs.Detached {
-			network.detach(ch)
-		} else {
-			network.attach(ctx, ch)
+		record.Detached = *fs.Detached
+		record.DetachedInternalMsgID = ""
+		if record.Detached {
+			record.DetachedInternalMsgID = network.lastMsgID(ch)
 		}
 	}
 
-	if network.conn != nil {
-		network.conn.updateChannelAutoDetach(name)
+	if err := ctx.srv.db.StoreChannel(ctx, network.ID, &record); err != nil {
+		return fmt.Errorf("failed to update channel: %v", err)
 	}
 
-	if err := ctx.srv.db.StoreChannel(ctx, network.ID, ch); err != nil {
-		return fmt.Errorf("failed to update channel: %v", err)
+	ch.RelayDetached = record.RelayDetached
+	ch.ReattachOn = record.ReattachOn
+	ch.DetachAfter = record.DetachAfter
+	ch.DetachOn = record.DetachOn
+	if record.Detached {
+		network.detach(ch)
+	} else {
+		network.attach(ctx, ch)
+	}
+
+	if network.conn != nil {
+		network.conn.updateChannelAutoDetach(name)
 	}
 
 	ctx.print(fmt.Sprintf("updated channel %q", name))
diff --git a/user.go b/user.go
index 73d96e6..dfb73ce 100644
--- a/user.go
+++ b/user.go
@@ -310,6 +310,20 @@ func (net *network) stop() {
 	}
 }
 
+// lastMsgID returns the internal ID of the last message stored for a channel.
+func (net *network) lastMsgID(ch *database.Channel) string {
+	if net.user.msgStore == nil {
+		return ""
+	}
+
+	nameCM := net.casemap(ch.Name)
+	lastID, err := net.user.msgStore.LastMsgID(&net.Network, nameCM, time.Now())
+	if err != nil {
+		net.logger.Printf("failed to get last message ID for channel %q: %v", ch.Name, err)
+	}
+	return lastID
+}
+
 func (net *network) detach(ch *database.Channel) {
 	if ch.Detached {
 		return
@@ -318,15 +332,7 @@ func (net *network) detach(ch *database.Channel) {
 	net.logger.Printf("detaching channel %q", ch.Name)
 
 	ch.Detached = true
-
-	if net.user.msgStore != nil {
-		nameCM := net.casemap(ch.Name)
-		lastID, err := net.user.msgStore.LastMsgID(&net.Network, nameCM, time.Now())
-		if err != nil {
-			net.logger.Printf("failed to get last message ID for channel %q: %v", ch.Name, err)
-		}
-		ch.DetachedInternalMsgID = lastID
-	}
+	ch.DetachedInternalMsgID = net.lastMsgID(ch)
 
 	if net.conn != nil {
 		uch := net.conn.channels.Get(ch.Name)
-- 
2.43.0


From 8383c1c53ec58be3c5768c7c06e699fe7683a6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:46:31 +0000
Subject: [PATCH 31/76] fix: only drop a network's nick when it is the user's
 default one

---
 downstream.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/downstream.go b/downstream.go
index c428caa..28d6675 100644
--- a/downstream.go
+++ b/downstream.go
@@ -3114,7 +3114,7 @@ func (dc *downstreamConn) handleMessageRegistered(ctx context.Context, msg *irc.
 				return err
 			}
 
-			if record.Nick == dc.user.Username {
+			if record.Nick == database.GetNick(&dc.user.User, nil) {
 				record.Nick = ""
 			}
 			if record.Realname == dc.user.Realname {
@@ -3158,7 +3158,7 @@ func (dc *downstreamConn) handleMessageRegistered(ctx context.Context, msg *irc.
 				return err
 			}
 
-			if record.Nick == dc.user.Username {
+			if record.Nick == database.GetNick(&dc.user.User, nil) {
 				record.Nick = ""
 			}
 			if record.Realname == dc.user.Realname {
-- 
2.43.0


From d2527d42040e9def6021bd98994a71ee2b741e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:46:43 +0000
Subject: [PATCH 32/76] fix: don't store networks again when updating a user

---
 user.go | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/user.go b/user.go
index dfb73ce..e511457 100644
--- a/user.go
+++ b/user.go
@@ -1126,8 +1126,12 @@ func (u *user) updateNetwork(ctx context.Context, record *database.Network, enfo
 		return nil, err
 	}
 
-	// Most network changes require us to re-connect to the upstream server
+	return u.replaceNetwork(network, record), nil
+}
 
+// replaceNetwork re-creates a running network from an up-to-date record. Most
+// network changes require us to re-connect to the upstream server.
+func (u *user) replaceNetwork(network *network, record *database.Network) *network {
 	channels := make([]database.Channel, 0, network.channels.Len())
 	network.channels.ForEach(func(_ string, ch *database.Channel) {
 		channels = append(channels, *ch)
@@ -1172,7 +1176,7 @@ func (u *user) updateNetwork(ctx context.Context, record *database.Network, enfo
 	attrs := getNetworkAttrs(updatedNetwork)
 	u.notifyBouncerNetworkState(updatedNetwork.ID, attrs)
 
-	return updatedNetwork, nil
+	return updatedNetwork
 }
 
 func (u *user) deleteNetwork(ctx context.Context, id int64) error {
@@ -1231,7 +1235,7 @@ func (u *user) updateUser(ctx context.Context, update UserUpdateFunc) error {
 
 	if realnameUpdated || enabledUpdated {
 		// Re-connect to networks which use the default realname
-		var needUpdate []database.Network
+		var needUpdate []*network
 		for _, net := range u.networks {
 			// If only the realname was updated, maybe we can skip the
 			// re-connect
@@ -1242,7 +1246,7 @@ func (u *user) updateUser(ctx context.Context, update UserUpdateFunc) error {
 					continue
 				}
 
-				// We only need to call updateNetwork for upstreams that don't
+				// We only need to call replaceNetwork for upstreams that don't
 				// support setname
 				if uc := net.conn; uc != nil && uc.caps.IsEnabled("setname") {
 					uc.SendMessage(ctx, &irc.Message{
@@ -1253,17 +1257,12 @@ func (u *user) updateUser(ctx context.Context, update UserUpdateFunc) error {
 				}
 			}
 
-			needUpdate = append(needUpdate, net.Network)
+			needUpdate = append(needUpdate, net)
 		}
 
-		var netErr error
 		for _, net := range needUpdate {
-			if _, err := u.updateNetwork(ctx, &net, false); err != nil {
-				netErr = err
-			}
-		}
-		if netErr != nil {
-			return netErr
+			record := net.Network // copy
+			u.replaceNetwork(net, &record)
 		}
 	}
 
-- 
2.43.0


From b5354786388aaf763e751e3fb51d089f38ba212b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:58 +0000
Subject: [PATCH 33/76] fix: don't serve connections before the server is
 started

---
 server.go | 38 ++++++++++++++++++++++++++++++++++----
 1 file changed, 34 insertions(+), 4 deletions(-)

diff --git a/server.go b/server.go
index 389f774..f18d2aa 100644
--- a/server.go
+++ b/server.go
@@ -164,10 +164,11 @@ type Server struct {
 	Identd          *identd.Identd        // can be nil
 	MetricsRegistry prometheus.Registerer // can be nil
 
-	config atomic.Value // *Config
-	db     database.Database
-	stopWG sync.WaitGroup
-	stopCh chan struct{}
+	config  atomic.Value // *Config
+	db      database.Database
+	stopWG  sync.WaitGroup
+	startCh chan struct{}
+	stopCh  chan struct{}
 
 	lock      sync.Mutex
 	listeners map[net.Listener]struct{}
@@ -196,6 +197,7 @@ func NewServer(db database.Database) *Server {
 		db:        db,
 		listeners: make(map[net.Listener]struct{}),
 		users:     make(map[string]*user),
+		startCh:   make(chan struct{}),
 		stopCh:    make(chan struct{}),
 	}
 	srv.config.Store(&Config{
@@ -242,9 +244,27 @@ func (s *Server) Start() error {
 		s.disableInactiveUsersLoop()
 	}()
 
+	close(s.startCh)
+
 	return nil
 }
 
+// waitStart blocks until the server is started. It returns false if the server
+// is stopped instead.
+func (s *Server) waitStart() bool {
+	select {
+	case <-s.startCh:
+	case <-s.stopCh:
+	}
+
+	select {
+	case <-s.startCh:
+		return true
+	default:
+		return false
+	}
+}
+
 func (s *Server) registerMetrics() {
 	factory := promauto.With(s.MetricsRegistry)
 
@@ -468,6 +488,11 @@ func (s *Server) Handle(ic ircConn) {
 		}
 	}()
 
+	if !s.waitStart() {
+		ic.Close()
+		return
+	}
+
 	s.lock.Lock()
 	shutdown := s.shutdown
 	s.lock.Unlock()
@@ -554,6 +579,11 @@ func (s *Server) HandleAdmin(ic ircConn) {
 		}
 	}()
 
+	if !s.waitStart() {
+		ic.Close()
+		return
+	}
+
 	s.lock.Lock()
 	shutdown := s.shutdown
 	s.lock.Unlock()
-- 
2.43.0


From a6ee33190028ca5cf9ebb998403d3a764c1ffa08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:03:38 +0000
Subject: [PATCH 34/76] fix: register upstream connections in the user
 goroutine

---
 upstream.go |  89 +++++++++++++++++++++++-------------
 user.go     | 127 ++++++++++++++++++++++++++++++++--------------------
 2 files changed, 136 insertions(+), 80 deletions(-)

diff --git a/upstream.go b/upstream.go
index a172104..5a4121e 100644
--- a/upstream.go
+++ b/upstream.go
@@ -107,10 +107,10 @@ func (uc *upstreamChannel) updateAutoDetach(dur time.Duration) {
 	}
 
 	uc.detachTimer = time.AfterFunc(dur, func() {
-		uc.conn.network.user.events <- eventChannelDetach{
+		uc.conn.network.user.sendEvent(eventChannelDetach{
 			uc:   uc.conn,
 			name: uc.Name,
-		}
+		})
 	})
 }
 
@@ -240,13 +240,13 @@ type upstreamConn struct {
 	hasDesiredNick bool
 }
 
-func connectToUpstream(ctx context.Context, network *network) (*upstreamConn, error) {
-	logger := &prefixLogger{network.user.logger, fmt.Sprintf("upstream %q: ", network.GetName())}
+func connectToUpstream(ctx context.Context, network *network, user *database.User, record *database.Network) (*upstreamConn, error) {
+	logger := &prefixLogger{network.user.logger, fmt.Sprintf("upstream %q: ", record.GetName())}
 
 	ctx, cancel := context.WithTimeout(ctx, connectTimeout)
 	defer cancel()
 
-	u, err := network.URL()
+	u, err := record.URL()
 	if err != nil {
 		return nil, err
 	}
@@ -262,34 +262,34 @@ func connectToUpstream(ctx context.Context, network *network) (*upstreamConn, er
 		}
 
 		tlsConfig := &tls.Config{ServerName: host, NextProtos: []string{"irc"}}
-		if network.SASL.Mechanism == "EXTERNAL" {
-			if network.SASL.External.CertBlob == nil {
+		if record.SASL.Mechanism == "EXTERNAL" {
+			if record.SASL.External.CertBlob == nil {
 				return nil, fmt.Errorf("missing certificate for authentication")
 			}
-			if network.SASL.External.PrivKeyBlob == nil {
+			if record.SASL.External.PrivKeyBlob == nil {
 				return nil, fmt.Errorf("missing private key for authentication")
 			}
-			key, err := x509.ParsePKCS8PrivateKey(network.SASL.External.PrivKeyBlob)
+			key, err := x509.ParsePKCS8PrivateKey(record.SASL.External.PrivKeyBlob)
 			if err != nil {
 				return nil, fmt.Errorf("failed to parse private key: %v", err)
 			}
 			tlsConfig.Certificates = []tls.Certificate{
 				{
-					Certificate: [][]byte{network.SASL.External.CertBlob},
+					Certificate: [][]byte{record.SASL.External.CertBlob},
 					PrivateKey:  key.(crypto.PrivateKey),
 				},
 			}
-			logger.Printf("using TLS client certificate %x", sha256.Sum256(network.SASL.External.CertBlob))
+			logger.Printf("using TLS client certificate %x", sha256.Sum256(record.SASL.External.CertBlob))
 		}
 
-		if network.CertFP != "" {
+		if record.CertFP != "" {
 			tlsConfig.InsecureSkipVerify = true
 			tlsConfig.VerifyPeerCertificate = func(rawCerts [][]byte, verifiedChains [][]*x509.Certificate) error {
 				if len(rawCerts) == 0 {
 					return fmt.Errorf("the server didn't present any TLS certificate")
 				}
 
-				parts := strings.SplitN(network.CertFP, ":", 2)
+				parts := strings.SplitN(record.CertFP, ":", 2)
 				algo, localCertFP := parts[0], parts[1]
 
 				for _, rawCert := range rawCerts {
@@ -317,7 +317,7 @@ func connectToUpstream(ctx context.Context, network *network) (*upstreamConn, er
 		}
 
 		logger.Printf("connecting to TLS server at address %q", addr)
-		netConn, err = dialTCP(ctx, network.user, addr)
+		netConn, err = dialTCP(ctx, network.user.srv, user, addr)
 		if err != nil {
 			return nil, err
 		}
@@ -333,7 +333,7 @@ func connectToUpstream(ctx context.Context, network *network) (*upstreamConn, er
 		}
 
 		logger.Printf("connecting to plain-text server at address %q", addr)
-		netConn, err = dialTCP(ctx, network.user, addr)
+		netConn, err = dialTCP(ctx, network.user.srv, user, addr)
 		if err != nil {
 			return nil, err
 		}
@@ -345,7 +345,7 @@ func connectToUpstream(ctx context.Context, network *network) (*upstreamConn, er
 			return nil, fmt.Errorf("failed to connect to Unix socket %q: %v", u.Path, err)
 		}
 	default:
-		return nil, fmt.Errorf("failed to dial %q: unknown scheme: %v", network.Addr, u.Scheme)
+		return nil, fmt.Errorf("failed to dial %q: unknown scheme: %v", record.Addr, u.Scheme)
 	}
 
 	options := connOptions{
@@ -377,9 +377,9 @@ func connectToUpstream(ctx context.Context, network *network) (*upstreamConn, er
 	return uc, nil
 }
 
-func dialTCP(ctx context.Context, user *user, addr string) (net.Conn, error) {
+func dialTCP(ctx context.Context, srv *Server, user *database.User, addr string) (net.Conn, error) {
 	var dialer net.Dialer
-	upstreamUserIPs := user.srv.Config().UpstreamUserIPs
+	upstreamUserIPs := srv.Config().UpstreamUserIPs
 	if len(upstreamUserIPs) > 0 {
 		host, port, err := net.SplitHostPort(addr)
 		if err != nil {
@@ -391,7 +391,7 @@ func dialTCP(ctx context.Context, user *user, addr string) (net.Conn, error) {
 			return nil, fmt.Errorf("failed to resolve host %q: %v", host, err)
 		}
 
-		localAddr, err := user.localTCPAddr(ipAddr.IP)
+		localAddr, err := localTCPAddr(upstreamUserIPs, user, ipAddr.IP)
 		if err != nil {
 			return nil, fmt.Errorf("failed to pick local IP for remote host %q: %v", host, err)
 		}
@@ -2116,23 +2116,48 @@ func (uc *upstreamConn) ReadMessage() (*irc.Message, error) {
 	return msg, nil
 }
 
+// runUntilRegistered performs the registration. The messages are handled in the
+// user goroutine, because this accesses the user and network state.
 func (uc *upstreamConn) runUntilRegistered(ctx context.Context) error {
-	for !uc.registered {
-		msg, err := uc.ReadMessage()
+	err := uc.user.call(ctx, func() error {
+		uc.register(ctx)
+		return nil
+	})
+
+	for registered := false; err == nil && !registered; {
+		var msg *irc.Message
+		msg, err = uc.ReadMessage()
 		if err != nil {
 			return fmt.Errorf("failed to read message: %v", err)
 		}
 
-		if err := uc.handleMessage(ctx, msg); err != nil {
-			if _, ok := err.(registrationError); ok {
-				return err
-			} else {
-				msg.Tags = nil // prevent message tags from cluttering logs
-				return fmt.Errorf("failed to handle message %q: %v", msg, err)
+		err = uc.user.call(ctx, func() error {
+			if uc.isClosed() || uc.network.isStopped() {
+				return net.ErrClosed
 			}
-		}
+
+			if err := uc.handleMessage(ctx, msg); err != nil {
+				if _, ok := err.(registrationError); ok {
+					return err
+				} else {
+					msg.Tags = nil // prevent message tags from cluttering logs
+					return fmt.Errorf("failed to handle message %q: %v", msg, err)
+				}
+			}
+
+			if uc.registered {
+				uc.runConnectCommands(ctx)
+				uc.user.handleUpstreamConnected(uc)
+			}
+			registered = uc.registered
+			return nil
+		})
 	}
 
+	return err
+}
+
+func (uc *upstreamConn) runConnectCommands(ctx context.Context) {
 	for _, command := range uc.network.ConnectCommands {
 		m, err := irc.ParseMessage(command)
 		if err != nil {
@@ -2141,11 +2166,9 @@ func (uc *upstreamConn) runUntilRegistered(ctx context.Context) error {
 			uc.SendMessage(ctx, m)
 		}
 	}
-
-	return nil
 }
 
-func (uc *upstreamConn) readMessages(ch chan<- event) error {
+func (uc *upstreamConn) readMessages() error {
 	for {
 		msg, err := uc.ReadMessage()
 		if errors.Is(err, io.EOF) {
@@ -2154,7 +2177,9 @@ func (uc *upstreamConn) readMessages(ch chan<- event) error {
 			return fmt.Errorf("failed to read IRC command: %v", err)
 		}
 
-		ch <- eventUpstreamMessage{msg, uc}
+		if !uc.user.sendEvent(eventUpstreamMessage{msg, uc}) {
+			break
+		}
 	}
 
 	return nil
diff --git a/user.go b/user.go
index e511457..877d0f9 100644
--- a/user.go
+++ b/user.go
@@ -37,10 +37,6 @@ type eventUpstreamConnectionError struct {
 	err error
 }
 
-type eventUpstreamConnected struct {
-	uc *upstreamConn
-}
-
 type eventUpstreamDisconnected struct {
 	uc *upstreamConn
 }
@@ -93,6 +89,11 @@ type eventUserRun struct {
 	ch     chan userRunMsg
 }
 
+type eventCall struct {
+	f    func() error
+	done chan error
+}
+
 type deliveredClientMap map[string]string // client name -> msg ID
 
 type deliveredStore struct {
@@ -221,7 +222,17 @@ func (net *network) runConn(ctx context.Context) error {
 	ctx, cancelTimeout := context.WithTimeout(ctx, time.Minute)
 	defer cancelTimeout()
 
-	uc, err := connectToUpstream(ctx, net)
+	// The records can only be accessed from the user goroutine
+	var user database.User
+	var record database.Network
+	if err := net.user.call(ctx, func() error {
+		user, record = net.user.User, net.Network
+		return nil
+	}); err != nil {
+		return err
+	}
+
+	uc, err := connectToUpstream(ctx, net, &user, &record)
 	if err != nil {
 		return fmt.Errorf("failed to connect: %w", err)
 	}
@@ -234,34 +245,34 @@ func (net *network) runConn(ctx context.Context) error {
 	}()
 
 	if net.user.srv.Identd != nil {
-		net.user.srv.Identd.Store(uc.RemoteAddr().String(), uc.LocalAddr().String(), userIdent(&net.user.User))
+		net.user.srv.Identd.Store(uc.RemoteAddr().String(), uc.LocalAddr().String(), userIdent(&user))
 		defer net.user.srv.Identd.Delete(uc.RemoteAddr().String(), uc.LocalAddr().String())
 	}
 
-	// TODO: this is racy, we're not running in the user goroutine yet
-	// uc.register accesses user/network DB records
-	uc.register(ctx)
 	if err := uc.runUntilRegistered(ctx); err != nil {
 		return fmt.Errorf("failed to register: %w", err)
 	}
 
-	net.user.events <- eventUpstreamConnected{uc}
-	defer func() {
-		net.user.events <- eventUpstreamDisconnected{uc}
-	}()
+	defer net.user.sendEvent(eventUpstreamDisconnected{uc})
 
-	if err := uc.readMessages(net.user.events); err != nil {
+	if err := uc.readMessages(); err != nil {
 		return fmt.Errorf("failed to handle messages: %w", err)
 	}
 
 	return nil
 }
 
-func (net *network) run() {
+// start connects to the network, unless it's disabled. It must be called from
+// the user goroutine.
+func (net *network) start() {
 	if !net.user.Enabled || !net.Enabled {
 		return
 	}
 
+	go net.run()
+}
+
+func (net *network) run() {
 	ctx, cancel := context.WithCancel(context.TODO())
 	go func() {
 		<-net.stopped
@@ -292,7 +303,7 @@ func (net *network) run() {
 			}
 
 			net.logger.Printf("connection error to %q: %v", net.Addr, text)
-			net.user.events <- eventUpstreamConnectionError{net, fmt.Errorf("connection error: %v", err)}
+			net.user.sendEvent(eventUpstreamConnectionError{net, fmt.Errorf("connection error: %v", err)})
 			net.user.srv.metrics.upstreamConnectErrorsTotal.Inc()
 
 			if !temp {
@@ -636,38 +647,13 @@ func (u *user) run() {
 			}
 		}
 
-		go network.run()
+		network.start()
 	}
 
 	for e := range u.events {
 		switch e := e.(type) {
-		case eventUpstreamConnected:
-			uc := e.uc
-
-			uc.network.conn = uc
-
-			uc.updateAway()
-			uc.updateMonitor()
-
-			ctx := context.TODO()
-			uc.forEachDownstream(func(dc *downstreamConn) {
-				dc.updateSupportedCaps(ctx)
-
-				if !dc.caps.IsEnabled("soju.im/bouncer-networks") {
-					sendServiceNOTICE(dc, fmt.Sprintf("connected to %s", uc.network.GetName()))
-				}
-
-				dc.updateNick(ctx)
-				dc.updateHost(ctx)
-				dc.updateRealname(ctx)
-				dc.updateAccount(ctx)
-				dc.updateCasemapping()
-			})
-			u.notifyBouncerNetworkState(uc.network.ID, irc.Tags{
-				"state": "connected",
-				"error": "",
-			})
-			uc.network.lastError = nil
+		case eventCall:
+			e.done <- e.f()
 		case eventUpstreamDisconnected:
 			u.handleUpstreamDisconnected(e.uc)
 		case eventUpstreamConnectionError:
@@ -892,6 +878,33 @@ func (u *user) run() {
 	}
 }
 
+func (u *user) handleUpstreamConnected(uc *upstreamConn) {
+	uc.network.conn = uc
+
+	uc.updateAway()
+	uc.updateMonitor()
+
+	ctx := context.TODO()
+	uc.forEachDownstream(func(dc *downstreamConn) {
+		dc.updateSupportedCaps(ctx)
+
+		if !dc.caps.IsEnabled("soju.im/bouncer-networks") {
+			sendServiceNOTICE(dc, fmt.Sprintf("connected to %s", uc.network.GetName()))
+		}
+
+		dc.updateNick(ctx)
+		dc.updateHost(ctx)
+		dc.updateRealname(ctx)
+		dc.updateAccount(ctx)
+		dc.updateCasemapping()
+	})
+	u.notifyBouncerNetworkState(uc.network.ID, irc.Tags{
+		"state": "connected",
+		"error": "",
+	})
+	uc.network.lastError = nil
+}
+
 func (u *user) handleUpstreamDisconnected(uc *upstreamConn) {
 	uc.network.conn = nil
 
@@ -969,7 +982,7 @@ func (u *user) addNetwork(network *network) {
 		return u.networks[i].ID < u.networks[j].ID
 	})
 
-	go network.run()
+	network.start()
 }
 
 func (u *user) removeNetwork(network *network) {
@@ -1287,6 +1300,25 @@ func (u *user) sendEvent(e event) bool {
 	}
 }
 
+// call runs a function in the user goroutine and waits for it to return.
+func (u *user) call(ctx context.Context, f func() error) error {
+	done := make(chan error, 1)
+	select {
+	case <-ctx.Done():
+		return ctx.Err()
+	case <-u.done:
+		return fmt.Errorf("user stopped")
+	case u.events <- eventCall{f, done}:
+	}
+
+	select {
+	case <-u.done:
+		return fmt.Errorf("user stopped")
+	case err := <-done:
+		return err
+	}
+}
+
 func (u *user) stop(ctx context.Context) error {
 	select {
 	case <-u.done:
@@ -1323,8 +1355,7 @@ func (u *user) FormatServerTime(t time.Time) string {
 
 // localTCPAddr returns the local address to use when connecting to a host.
 // A nil address is returned when the OS should automatically pick one.
-func (u *user) localTCPAddr(remoteIP net.IP) (*net.TCPAddr, error) {
-	upstreamUserIPs := u.srv.Config().UpstreamUserIPs
+func localTCPAddr(upstreamUserIPs []*net.IPNet, user *database.User, remoteIP net.IP) (*net.TCPAddr, error) {
 	if len(upstreamUserIPs) == 0 {
 		return nil, nil
 	}
@@ -1343,7 +1374,7 @@ func (u *user) localTCPAddr(remoteIP net.IP) (*net.TCPAddr, error) {
 
 	var ipInt big.Int
 	ipInt.SetBytes(ipNet.IP)
-	ipInt.Add(&ipInt, big.NewInt(u.ID+1))
+	ipInt.Add(&ipInt, big.NewInt(user.ID+1))
 	ip := net.IP(ipInt.Bytes())
 	if !ipNet.Contains(ip) {
 		return nil, fmt.Errorf("IP network %v too small", ipNet)
-- 
2.43.0


From 09744767609f9ff1f6a54d75f25c541ef582f005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:03:45 +0000
Subject: [PATCH 35/76] fix: leave room for the line terminator in JOIN and
 MONITOR commands

---
 xirc/xirc.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xirc/xirc.go b/xirc/xirc.go
index 7c809e3..63bcd47 100644
--- a/xirc/xirc.go
+++ b/xirc/xirc.go
@@ -10,7 +10,7 @@ import (
 )
 
 const (
-	maxMessageLength = 512
+	maxMessageLength = 510 // without CR LF
 	maxMessageParams = 15
 )
 
-- 
2.43.0


From 60c9ab86bfab23f819b51fe0768d3281656092b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:08:43 +0000
Subject: [PATCH 36/76] fix: refuse the reserved network name everywhere

---
 service.go | 3 ---
 user.go    | 3 +++
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/service.go b/service.go
index 897a351..56cd98d 100644
--- a/service.go
+++ b/service.go
@@ -543,9 +543,6 @@ func (fs *networkFlagSet) update(network *database.Network) error {
 		network.Addr = *fs.Addr
 	}
 	if fs.Name != nil {
-		if *fs.Name == "*" {
-			return fmt.Errorf("the network name %q is reserved", *fs.Name)
-		}
 		network.Name = *fs.Name
 	}
 	if fs.Nick != nil {
diff --git a/user.go b/user.go
index 877d0f9..d68ae4b 100644
--- a/user.go
+++ b/user.go
@@ -1063,6 +1063,9 @@ func (u *user) checkNetwork(record *database.Network) error {
 	if record.GetName() == "" {
 		return fmt.Errorf("network name cannot be empty")
 	}
+	if record.GetName() == "*" {
+		return fmt.Errorf("the network name %q is reserved", record.GetName())
+	}
 	if strings.HasPrefix(record.GetName(), "-") {
 		// Can be mixed up with flags when sending commands to the service
 		return fmt.Errorf("network name cannot start with a dash character")
-- 
2.43.0


From 98abe3819bad3ee590faca6f70da64d5389f7b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:10:09 +0000
Subject: [PATCH 37/76] fix: select networks by name before address

---
 user.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/user.go b/user.go
index d68ae4b..2138df9 100644
--- a/user.go
+++ b/user.go
@@ -584,11 +584,14 @@ func (u *user) forEachUpstream(f func(uc *upstreamConn)) {
 }
 
 func (u *user) getNetwork(name string) *network {
+	// Names are unique, contrary to addresses
 	for _, network := range u.networks {
-		if network.Addr == name {
+		if network.GetName() == name {
 			return network
 		}
-		if network.Name != "" && network.Name == name {
+	}
+	for _, network := range u.networks {
+		if network.Addr == name {
 			return network
 		}
 	}
-- 
2.43.0


From 304f6d0b8505644761cf82d2875cee466d3d4814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:23:45 +0000
Subject: [PATCH 38/76] fix: don't panic when the server sends an empty
 nickname

---
 irc.go      | 2 +-
 upstream.go | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/irc.go b/irc.go
index b0f70e8..0776f77 100644
--- a/irc.go
+++ b/irc.go
@@ -262,7 +262,7 @@ func isURIPrefix(text string) bool {
 
 func isHighlight(text, nick string) bool {
 	if len(nick) == 0 {
-		panic("isHighlight called with empty nick")
+		return false
 	}
 
 	for {
diff --git a/upstream.go b/upstream.go
index 5a4121e..eaca968 100644
--- a/upstream.go
+++ b/upstream.go
@@ -2540,7 +2540,8 @@ func (uc *upstreamConn) cacheUserAway(nick string, isAway bool) {
 
 func (uc *upstreamConn) cacheUserInfo(nick string, info *upstreamUser) {
 	if nick == "" {
-		panic("cacheUserInfo called with empty nickname")
+		// The server has sent a message with an empty nickname
+		return
 	}
 
 	uu := uc.users.Get(nick)
-- 
2.43.0


From ad5e6278ffc1c569e445cf100428ac39b0d389d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:23:45 +0000
Subject: [PATCH 39/76] fix: don't panic on an empty channel status in NAMES
 replies

---
 xirc/xirc.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xirc/xirc.go b/xirc/xirc.go
index 63bcd47..fabcfe7 100644
--- a/xirc/xirc.go
+++ b/xirc/xirc.go
@@ -78,8 +78,8 @@ const (
 )
 
 func ParseChannelStatus(s string) (ChannelStatus, error) {
-	if len(s) > 1 {
-		return 0, fmt.Errorf("invalid channel status %q: more than one character", s)
+	if len(s) != 1 {
+		return 0, fmt.Errorf("invalid channel status %q: not exactly one character", s)
 	}
 	switch cs := ChannelStatus(s[0]); cs {
 	case ChannelPublic, ChannelSecret, ChannelPrivate:
-- 
2.43.0


From 72234b4807b13b80cb244c5d6459a5bcb9e78136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:23:45 +0000
Subject: [PATCH 40/76] fix: don't panic when SASL succeeds after the client
 has started over

---
 upstream.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/upstream.go b/upstream.go
index eaca968..dfa69cc 100644
--- a/upstream.go
+++ b/upstream.go
@@ -941,7 +941,7 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 		uc.saslClient = nil
 		uc.saslStarted = false
 
-		if dc, _ := uc.dequeueCommand("AUTHENTICATE"); dc != nil && dc.sasl != nil {
+		if dc, _ := uc.dequeueCommand("AUTHENTICATE"); dc != nil && dc.sasl != nil && dc.sasl.plain != nil {
 			if msg.Command == irc.RPL_SASLSUCCESS {
 				uc.network.autoSaveSASLPlain(ctx, dc.sasl.plain.Username, dc.sasl.plain.Password)
 			}
-- 
2.43.0


From 79b4783e55eef407a43299b167cff62516ff4bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:42 +0000
Subject: [PATCH 41/76] fix: don't crash on messages without a command after
 the tags

---
 conn.go     | 38 ++++++++++++++++++++++++++++++++------
 irc.go      | 12 ++++++++++++
 service.go  |  4 ++--
 upstream.go |  2 +-
 4 files changed, 47 insertions(+), 9 deletions(-)

diff --git a/conn.go b/conn.go
index b6dabfa..080b73e 100644
--- a/conn.go
+++ b/conn.go
@@ -1,6 +1,7 @@
 package soju
 
 import (
+	"bufio"
 	"context"
 	"errors"
 	"io"
@@ -27,12 +28,37 @@ type ircConn interface {
 	LocalAddr() net.Addr
 }
 
+type netIRCConn struct {
+	net.Conn
+	reader *bufio.Reader
+	writer *irc.Writer
+}
+
 func newNetIRCConn(c net.Conn) ircConn {
-	type netConn net.Conn
-	return struct {
-		*irc.Conn
-		netConn
-	}{irc.NewConn(c), c}
+	return &netIRCConn{
+		Conn:   c,
+		reader: bufio.NewReader(c),
+		writer: irc.NewWriter(c),
+	}
+}
+
+func (nic *netIRCConn) ReadMessage() (*irc.Message, error) {
+	for {
+		line, err := nic.reader.ReadString('\n')
+		if err != nil {
+			return nil, err
+		}
+
+		msg, err := parseMessage(line)
+		if errors.Is(err, irc.ErrZeroLengthMessage) {
+			continue
+		}
+		return msg, err
+	}
+}
+
+func (nic *netIRCConn) WriteMessage(msg *irc.Message) error {
+	return nic.writer.WriteMessage(msg)
 }
 
 type websocketIRCConn struct {
@@ -61,7 +87,7 @@ func (wic *websocketIRCConn) ReadMessage() (*irc.Message, error) {
 			return nil, err
 		}
 	}
-	return irc.ParseMessage(string(b))
+	return parseMessage(string(b))
 }
 
 func (wic *websocketIRCConn) WriteMessage(msg *irc.Message) error {
diff --git a/irc.go b/irc.go
index 0776f77..e859e5e 100644
--- a/irc.go
+++ b/irc.go
@@ -300,6 +300,18 @@ func parseChatHistoryBound(param string) time.Time {
 	}
 }
 
+// parseMessage parses an IRC message. It's the same as irc.ParseMessage, except
+// it doesn't panic if the message ends after the tags.
+func parseMessage(line string) (*irc.Message, error) {
+	line = strings.TrimRight(line, "\r\n")
+	if strings.HasPrefix(line, "@") {
+		if i := strings.IndexByte(line, ' '); i == len(line)-1 {
+			return nil, irc.ErrMissingDataAfterTags
+		}
+	}
+	return irc.ParseMessage(line)
+}
+
 func isNumeric(cmd string) bool {
 	if len(cmd) != 3 {
 		return false
diff --git a/service.go b/service.go
index 56cd98d..ce6e357 100644
--- a/service.go
+++ b/service.go
@@ -586,7 +586,7 @@ func (fs *networkFlagSet) update(network *database.Network) error {
 				return fmt.Errorf("too many -connect-command flags supplied")
 			}
 			for _, command := range fs.ConnectCommands {
-				_, err := irc.ParseMessage(command)
+				_, err := parseMessage(command)
 				if err != nil {
 					return fmt.Errorf("flag -connect-command must be a valid raw irc command string: %q: %v", command, err)
 				}
@@ -743,7 +743,7 @@ func handleServiceNetworkQuote(ctx *serviceContext, params []string) error {
 		return fmt.Errorf("network %q is not currently connected", net.GetName())
 	}
 
-	m, err := irc.ParseMessage(raw)
+	m, err := parseMessage(raw)
 	if err != nil {
 		return fmt.Errorf("failed to parse command %q: %v", raw, err)
 	}
diff --git a/upstream.go b/upstream.go
index dfa69cc..92f9964 100644
--- a/upstream.go
+++ b/upstream.go
@@ -2159,7 +2159,7 @@ func (uc *upstreamConn) runUntilRegistered(ctx context.Context) error {
 
 func (uc *upstreamConn) runConnectCommands(ctx context.Context) {
 	for _, command := range uc.network.ConnectCommands {
-		m, err := irc.ParseMessage(command)
+		m, err := parseMessage(command)
 		if err != nil {
 			uc.logger.Printf("failed to parse connect command %q: %v", command, err)
 		} else {
-- 
2.43.0


From 0208ee394b67080abd84a7d401a4c1e45583fef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:51 +0000
Subject: [PATCH 42/76] fix: limit the size of incoming messages

---
 conn.go | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/conn.go b/conn.go
index 080b73e..bfa7f72 100644
--- a/conn.go
+++ b/conn.go
@@ -4,6 +4,7 @@ import (
 	"bufio"
 	"context"
 	"errors"
+	"fmt"
 	"io"
 	"net"
 	"strings"
@@ -16,6 +17,11 @@ import (
 	"gopkg.in/irc.v4"
 )
 
+// maxIncomingMessageSize is the maximum size of a message received over a plain
+// IRC connection. It's much larger than what the IRC protocol allows, it's only
+// meant to bound our memory usage.
+const maxIncomingMessageSize = 64 * 1024
+
 // ircConn is a generic IRC connection. It's similar to net.Conn but focuses on
 // reading and writing IRC messages.
 type ircConn interface {
@@ -44,7 +50,7 @@ func newNetIRCConn(c net.Conn) ircConn {
 
 func (nic *netIRCConn) ReadMessage() (*irc.Message, error) {
 	for {
-		line, err := nic.reader.ReadString('\n')
+		line, err := nic.readLine()
 		if err != nil {
 			return nil, err
 		}
@@ -57,6 +63,20 @@ func (nic *netIRCConn) ReadMessage() (*irc.Message, error) {
 	}
 }
 
+func (nic *netIRCConn) readLine() (string, error) {
+	var line []byte
+	for {
+		b, err := nic.reader.ReadSlice('\n')
+		if len(line)+len(b) > maxIncomingMessageSize {
+			return "", fmt.Errorf("message too long")
+		}
+		line = append(line, b...)
+		if !errors.Is(err, bufio.ErrBufferFull) {
+			return string(line), err
+		}
+	}
+}
+
 func (nic *netIRCConn) WriteMessage(msg *irc.Message) error {
 	return nic.writer.WriteMessage(msg)
 }
-- 
2.43.0


From 21d889c8313fe49a584957c2c9dceac1014e62fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:13 +0000
Subject: [PATCH 43/76] fix: don't block while broadcasting messages

---
 downstream.go |  2 +-
 service.go    | 15 ++++-----------
 user.go       | 41 +++++++++++++++++++++++++++++++++++------
 3 files changed, 40 insertions(+), 18 deletions(-)

diff --git a/downstream.go b/downstream.go
index 28d6675..97ce951 100644
--- a/downstream.go
+++ b/downstream.go
@@ -2433,7 +2433,7 @@ func (dc *downstreamConn) handleMessageRegistered(ctx context.Context, msg *irc.
 					Params:  params,
 				}
 				dc.srv.forEachUser(func(u *user) {
-					u.events <- eventBroadcast{broadcastMsg}
+					u.broadcast(broadcastMsg)
 				})
 				continue
 			}
diff --git a/service.go b/service.go
index ce6e357..1b26864 100644
--- a/service.go
+++ b/service.go
@@ -1644,23 +1644,16 @@ func handleServiceServerNotice(ctx *serviceContext, params []string) error {
 		Command: "NOTICE",
 		Params:  []string{"$" + ctx.srv.Config().Hostname, text},
 	}
-	var err error
-	sent := 0
 	total := 0
 	ctx.srv.forEachUser(func(u *user) {
 		total++
-		select {
-		case <-ctx.Done():
-			err = ctx.Err()
-		case u.events <- eventBroadcast{broadcastMsg}:
-			sent++
-		}
+		u.broadcast(broadcastMsg)
 	})
 
-	logger.Printf("broadcast bouncer-wide NOTICE to %v/%v downstreams", sent, total)
-	ctx.print(fmt.Sprintf("sent to %v/%v downstream connections", sent, total))
+	logger.Printf("broadcast bouncer-wide NOTICE to %v downstreams", total)
+	ctx.print(fmt.Sprintf("sent to %v/%v downstream connections", total, total))
 
-	return err
+	return nil
 }
 
 func handleServiceServerDebug(ctx *serviceContext, params []string) error {
diff --git a/user.go b/user.go
index 2138df9..d606640 100644
--- a/user.go
+++ b/user.go
@@ -11,6 +11,7 @@ import (
 	"net"
 	"sort"
 	"strings"
+	"sync"
 	"sync/atomic"
 	"time"
 
@@ -64,9 +65,7 @@ type eventChannelDetach struct {
 	name string
 }
 
-type eventBroadcast struct {
-	msg *irc.Message
-}
+type eventBroadcast struct{}
 
 type eventStop struct{}
 
@@ -546,6 +545,9 @@ type user struct {
 
 	numDownstreamConns atomic.Int64
 
+	broadcastLock sync.Mutex
+	broadcasts    []*irc.Message // not yet sent to downstream connections
+
 	networks        []*network
 	downstreamConns []*downstreamConn
 	msgStore        msgstore.Store
@@ -806,9 +808,15 @@ func (u *user) run() {
 				dc.Close()
 			}
 		case eventBroadcast:
-			msg := e.msg
-			for _, dc := range u.downstreamConns {
-				dc.SendMessage(context.TODO(), msg)
+			u.broadcastLock.Lock()
+			msgs := u.broadcasts
+			u.broadcasts = nil
+			u.broadcastLock.Unlock()
+
+			for _, msg := range msgs {
+				for _, dc := range u.downstreamConns {
+					dc.SendMessage(context.TODO(), msg)
+				}
 			}
 		case eventUserUpdate:
 			e.done <- u.updateUser(context.TODO(), func(record *database.User) error {
@@ -1343,6 +1351,27 @@ func (u *user) stop(ctx context.Context) error {
 	}
 }
 
+// broadcast sends a message to all downstream connections of the user. It never
+// blocks, and it is safe to call from any goroutine.
+func (u *user) broadcast(msg *irc.Message) {
+	u.broadcastLock.Lock()
+	u.broadcasts = append(u.broadcasts, msg)
+	scheduled := len(u.broadcasts) > 1
+	u.broadcastLock.Unlock()
+
+	if scheduled {
+		return
+	}
+
+	select {
+	case u.events <- eventBroadcast{}:
+		// ok
+	default:
+		// The user may be busy, or may even be the one who is broadcasting
+		go u.sendEvent(eventBroadcast{})
+	}
+}
+
 func (u *user) hasPersistentMsgStore() bool {
 	if u.msgStore == nil {
 		return false
-- 
2.43.0


From 13b8ee08fba7edd11cec66decd933c05623bbb61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:13 +0000
Subject: [PATCH 44/76] fix: don't hold the server lock while stopping users

---
 server.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/server.go b/server.go
index f18d2aa..5bb912d 100644
--- a/server.go
+++ b/server.go
@@ -409,7 +409,9 @@ func (s *Server) Shutdown() {
 		}
 	}
 	for _, u := range s.users {
-		u.events <- eventStop{}
+		// Don't block while holding the lock: the user may need it to make
+		// progress
+		go u.sendEvent(eventStop{})
 	}
 	s.lock.Unlock()
 
-- 
2.43.0


From a63bf0c36efedd97781c70f4b9bf47838c58610f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:13 +0000
Subject: [PATCH 45/76] fix: don't create users while shutting down

---
 server.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/server.go b/server.go
index 5bb912d..99841a2 100644
--- a/server.go
+++ b/server.go
@@ -427,6 +427,10 @@ func (s *Server) createUser(ctx context.Context, user *database.User) (*user, er
 	s.lock.Lock()
 	defer s.lock.Unlock()
 
+	if s.shutdown {
+		return nil, fmt.Errorf("server is shutting down")
+	}
+
 	if _, ok := s.users[user.Username]; ok {
 		return nil, fmt.Errorf("user %q already exists", user.Username)
 	}
-- 
2.43.0


From ac5d0e5904829560324aa46efa7eff8c6e7d0976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:17 +0000
Subject: [PATCH 46/76] fix: reject empty OAUTHBEARER responses

---
 downstream.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/downstream.go b/downstream.go
index 97ce951..4817f26 100644
--- a/downstream.go
+++ b/downstream.go
@@ -1018,6 +1018,15 @@ func (dc *downstreamConn) handleAuthenticate(ctx context.Context, msg *irc.Messa
 		}
 
 		dc.sasl.pendingResp.Reset()
+
+		// An empty OAUTHBEARER response is never valid, and go-sasl's server
+		// doesn't handle it gracefully
+		if dc.sasl.mechanism == "OAUTHBEARER" && len(resp) == 0 {
+			return nil, ircError{&irc.Message{
+				Command: irc.ERR_SASLFAIL,
+				Params:  []string{dc.nick, "Empty response"},
+			}}
+		}
 	}
 
 	challenge, done, err := dc.sasl.server.Next(resp)
-- 
2.43.0


From 41fd9d3866873634d140beed9d73d7964823db00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:26 +0000
Subject: [PATCH 47/76] fix: fix data race on the rate limit flag

---
 conn.go     | 6 +++---
 upstream.go | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/conn.go b/conn.go
index bfa7f72..08daf03 100644
--- a/conn.go
+++ b/conn.go
@@ -169,7 +169,7 @@ type conn struct {
 	closed     atomic.Bool
 	outgoingCh chan<- *irc.Message
 	closedCh   chan struct{}
-	rateLimit  bool
+	rateLimit  atomic.Bool
 }
 
 func newConn(srv *Server, ic ircConn, options *connOptions) *conn {
@@ -180,8 +180,8 @@ func newConn(srv *Server, ic ircConn, options *connOptions) *conn {
 		logger:     options.Logger,
 		outgoingCh: outgoingCh,
 		closedCh:   make(chan struct{}),
-		rateLimit:  true,
 	}
+	c.rateLimit.Store(true)
 
 	go func() {
 		ctx, cancel := c.NewContext(context.Background())
@@ -198,7 +198,7 @@ func newConn(srv *Server, ic ircConn, options *connOptions) *conn {
 				break
 			}
 
-			if c.rateLimit {
+			if c.rateLimit.Load() {
 				if err := rl.Wait(ctx); err != nil {
 					break
 				}
diff --git a/upstream.go b/upstream.go
index 92f9964..558e136 100644
--- a/upstream.go
+++ b/upstream.go
@@ -1055,7 +1055,7 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 					uc.availableMemberships = stdMemberships
 				}
 			case "SOJU.IM/SAFERATE":
-				uc.rateLimit = negate
+				uc.rateLimit.Store(negate)
 			}
 			if err != nil {
 				return err
-- 
2.43.0


From 7df5873c0594477f37daff9b4da3f75dee33adbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:11 +0000
Subject: [PATCH 48/76] fix: fix data race on downstream connection loggers

---
 downstream.go |  8 ++++++--
 server.go     | 16 ++++++++++++++++
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/downstream.go b/downstream.go
index 4817f26..3560e9e 100644
--- a/downstream.go
+++ b/downstream.go
@@ -338,6 +338,8 @@ type downstreamConn struct {
 
 	id uint64
 
+	connLogger *mutableLogger // same as conn.logger
+
 	// These don't change after connection registration
 	registered    bool
 	user          *user
@@ -366,12 +368,14 @@ type downstreamConn struct {
 
 func newDownstreamConn(srv *Server, ic ircConn, id uint64) *downstreamConn {
 	remoteAddr := ic.RemoteAddr().String()
-	logger := &prefixLogger{srv.Logger, fmt.Sprintf("downstream %q: ", remoteAddr)}
+	logger := new(mutableLogger)
+	logger.logger.Store(&prefixLogger{srv.Logger, fmt.Sprintf("downstream %q: ", remoteAddr)})
 	options := connOptions{Logger: logger}
 	cm := xirc.CaseMappingASCII
 	dc := &downstreamConn{
 		conn:         newConn(srv, ic, &options),
 		id:           id,
+		connLogger:   logger,
 		nick:         "*",
 		nickCM:       "*",
 		username:     "~u",
@@ -1465,7 +1469,7 @@ func (dc *downstreamConn) welcome(ctx context.Context, user *user) error {
 	dc.user = user
 
 	remoteAddr := dc.conn.RemoteAddr().String()
-	dc.logger = &prefixLogger{dc.srv.Logger, fmt.Sprintf("user %q: downstream %q: ", dc.user.Username, remoteAddr)}
+	dc.connLogger.logger.Store(&prefixLogger{dc.srv.Logger, fmt.Sprintf("user %q: downstream %q: ", dc.user.Username, remoteAddr)})
 
 	// TODO: doing this might take some time. We should do it in dc.register
 	// instead, but we'll potentially be adding a new network and this must be
diff --git a/server.go b/server.go
index 99841a2..8578be7 100644
--- a/server.go
+++ b/server.go
@@ -92,6 +92,22 @@ func (l *prefixLogger) Debugf(format string, v ...interface{}) {
 	l.logger.Debugf("%v"+format, v...)
 }
 
+// mutableLogger is a logger which can be replaced while it's being used by
+// other goroutines.
+type mutableLogger struct {
+	logger atomic.Pointer[prefixLogger]
+}
+
+var _ Logger = (*mutableLogger)(nil)
+
+func (l *mutableLogger) Printf(format string, v ...interface{}) {
+	l.logger.Load().Printf(format, v...)
+}
+
+func (l *mutableLogger) Debugf(format string, v ...interface{}) {
+	l.logger.Load().Debugf(format, v...)
+}
+
 type int64Gauge struct {
 	v int64 // atomic
 }
-- 
2.43.0


From ddc4f6e59cda3ed686500a8bea797b804cf0b991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:16 +0000
Subject: [PATCH 49/76] fix: fix data races on user records

---
 downstream.go | 2 +-
 service.go    | 8 ++++++--
 upstream.go   | 4 ++--
 user.go       | 7 +++++--
 4 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/downstream.go b/downstream.go
index 3560e9e..8b9d782 100644
--- a/downstream.go
+++ b/downstream.go
@@ -3000,7 +3000,7 @@ func (dc *downstreamConn) handleMessageRegistered(ctx context.Context, msg *irc.
 			if !r.Timestamp.Before(network.pushTargets.Get(target)) {
 				network.pushTargets.Del(target)
 			}
-			go network.broadcastWebPush(&irc.Message{
+			go network.broadcastWebPush(dc.user.ID, &irc.Message{
 				Command: "MARKREAD",
 				Params:  []string{target, timestampStr},
 			})
diff --git a/service.go b/service.go
index 1b26864..cba62c0 100644
--- a/service.go
+++ b/service.go
@@ -962,11 +962,15 @@ func handleUserStatus(ctx *serviceContext, params []string) error {
 		ctx.srv.lock.Unlock()
 	} else {
 		username := params[0]
-		u := ctx.srv.getUser(username)
+		ctx.srv.lock.Lock()
+		u := ctx.srv.users[username]
+		if u != nil {
+			users = append(users, u.User)
+		}
+		ctx.srv.lock.Unlock()
 		if u == nil {
 			return fmt.Errorf("unknown username %q", username)
 		}
-		users = append(users, u.User)
 		n = 1
 	}
 
diff --git a/upstream.go b/upstream.go
index 558e136..791e77b 100644
--- a/upstream.go
+++ b/upstream.go
@@ -744,7 +744,7 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 		}
 
 		if sendPushNotification && (highlight || directMessage) {
-			go uc.network.broadcastWebPush(msg)
+			go uc.network.broadcastWebPush(uc.user.ID, msg)
 			if timestamp, err := time.Parse(xirc.ServerTimeLayout, string(msg.Tags["time"])); err == nil {
 				uc.network.pushTargets.Set(bufferName, timestamp)
 			}
@@ -1710,7 +1710,7 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 		})
 
 		if weAreInvited {
-			go uc.network.broadcastWebPush(msg)
+			go uc.network.broadcastWebPush(uc.user.ID, msg)
 		}
 	case irc.RPL_INVITING:
 		var nick, channel string
diff --git a/user.go b/user.go
index d606640..d733aff 100644
--- a/user.go
+++ b/user.go
@@ -497,11 +497,11 @@ func (net *network) autoSaveSASLPlain(ctx context.Context, username, password st
 //
 // Broadcasting the message to all Web Push endpoints might take a while, so
 // callers should call this function in a new goroutine.
-func (net *network) broadcastWebPush(msg *irc.Message) {
+func (net *network) broadcastWebPush(userID int64, msg *irc.Message) {
 	ctx, cancel := context.WithTimeout(context.Background(), 5*time.Minute)
 	defer cancel()
 
-	subs, err := net.user.srv.db.ListWebPushSubscriptions(ctx, net.user.ID, net.ID)
+	subs, err := net.user.srv.db.ListWebPushSubscriptions(ctx, userID, net.ID)
 	if err != nil {
 		net.logger.Printf("failed to list Web push subscriptions: %v", err)
 		return
@@ -1243,7 +1243,10 @@ func (u *user) updateUser(ctx context.Context, update UserUpdateFunc) error {
 	if err := u.srv.db.StoreUser(ctx, &record); err != nil {
 		return fmt.Errorf("failed to update user %q: %v", u.Username, err)
 	}
+	// Other goroutines read the record with the lock held
+	u.srv.lock.Lock()
 	u.User = record
+	u.srv.lock.Unlock()
 
 	if nickUpdated {
 		for _, net := range u.networks {
-- 
2.43.0


From 86a53933941cf865fde458b4eb17742176af3d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:09 +0000
Subject: [PATCH 50/76] fix: don't log message contents outside of debug logs

---
 downstream.go | 2 +-
 user.go       | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/downstream.go b/downstream.go
index 8b9d782..113daf7 100644
--- a/downstream.go
+++ b/downstream.go
@@ -1762,7 +1762,7 @@ func (dc *downstreamConn) runUntilRegistered() error {
 			ircErr.Message.Prefix = dc.srv.prefix()
 			dc.SendMessage(ctx, ircErr.Message)
 		} else if err != nil {
-			return fmt.Errorf("failed to handle IRC command %q: %v", msg, err)
+			return fmt.Errorf("failed to handle IRC command %q: %v", msg.Command, err)
 		}
 
 		if dc.registration.nick == "" || dc.registration.username == "" || dc.registration.negotiatingCaps {
diff --git a/user.go b/user.go
index d733aff..71addc7 100644
--- a/user.go
+++ b/user.go
@@ -693,11 +693,11 @@ func (u *user) run() {
 		case eventUpstreamMessage:
 			msg, uc := e.msg, e.uc
 			if uc.isClosed() {
-				uc.logger.Printf("ignoring message on closed connection: %v", msg)
+				uc.logger.Printf("ignoring %v message on closed connection", msg.Command)
 				break
 			}
 			if err := uc.handleMessage(context.TODO(), msg); err != nil {
-				uc.logger.Printf("failed to handle message %q: %v", msg, err)
+				uc.logger.Printf("failed to handle %v message: %v", msg.Command, err)
 			}
 		case eventChannelDetach:
 			uc, name := e.uc, e.name
@@ -796,7 +796,7 @@ func (u *user) run() {
 		case eventDownstreamMessage:
 			msg, dc := e.msg, e.dc
 			if dc.isClosed() || !u.hasDownstreamConn(dc) {
-				dc.logger.Printf("ignoring message on closed connection: %v", msg)
+				dc.logger.Printf("ignoring %v message on closed connection", msg.Command)
 				break
 			}
 			err := dc.handleMessage(context.TODO(), msg)
@@ -804,7 +804,7 @@ func (u *user) run() {
 				ircErr.Message.Prefix = dc.srv.prefix()
 				dc.SendMessage(context.TODO(), ircErr.Message)
 			} else if err != nil {
-				dc.logger.Printf("failed to handle message %q: %v", msg, err)
+				dc.logger.Printf("failed to handle %v message: %v", msg.Command, err)
 				dc.Close()
 			}
 		case eventBroadcast:
-- 
2.43.0


From 776566b898c298ea279854beb3b694dcec692fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:19:59 +0000
Subject: [PATCH 51/76] fix: don't redirect NickServ messages to channels

---
 upstream.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/upstream.go b/upstream.go
index 791e77b..a4c9044 100644
--- a/upstream.go
+++ b/upstream.go
@@ -715,7 +715,9 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 		if directMessage {
 			bufferName = msg.Prefix.Name
 		}
-		if t, ok := msg.Tags["+draft/channel-context"]; ok {
+		// Messages exchanged with NickServ may contain passwords: don't let
+		// these end up in a channel's history
+		if t, ok := msg.Tags["+draft/channel-context"]; ok && uc.network.casemap(bufferName) != "nickserv" {
 			ch := uc.channels.Get(string(t))
 			if ch != nil && ch.Members.Has(msg.Prefix.Name) {
 				bufferName = ch.Name
-- 
2.43.0


From fb24d443b726d2186101e3c01672d9ee100ac8ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:50 +0000
Subject: [PATCH 52/76] fix: finish registration when the server refuses SASL

---
 upstream.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/upstream.go b/upstream.go
index a4c9044..a490b65 100644
--- a/upstream.go
+++ b/upstream.go
@@ -222,6 +222,7 @@ type upstreamConn struct {
 
 	saslClient  sasl.Client
 	saslStarted bool
+	saslPending bool // CAP END will be sent after SASL authentication
 
 	// Queue of commands in progress, indexed by type. The first entry has been
 	// sent to the server and is awaiting reply. The following entries have not
@@ -777,6 +778,7 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 			uc.updateCaps(ctx)
 
 			if uc.requestSASL() {
+				uc.saslPending = true
 				break // we'll send CAP END after authentication is completed
 			}
 
@@ -2042,11 +2044,21 @@ func (uc *upstreamConn) handleCapAck(ctx context.Context, name string, ok bool)
 
 	switch name {
 	case "sasl":
-		if !uc.requestSASL() {
-			return nil
-		}
-		if !ok {
+		saslPending := uc.saslPending
+		uc.saslPending = false
+
+		requestSASL := uc.requestSASL()
+		if requestSASL && !ok {
 			uc.logger.Printf("server refused to acknowledge the SASL capability")
+		}
+		if !requestSASL || !ok {
+			if saslPending {
+				// We can't authenticate after all
+				uc.SendMessage(ctx, &irc.Message{
+					Command: "CAP",
+					Params:  []string{"END"},
+				})
+			}
 			return nil
 		}
 
-- 
2.43.0


From 01fe2ad8b4d3e761b12ba4aac0112960cd80ed93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:18 +0000
Subject: [PATCH 53/76] fix: fix detection of multi-line CAP LS replies

---
 upstream.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/upstream.go b/upstream.go
index a490b65..17bee57 100644
--- a/upstream.go
+++ b/upstream.go
@@ -767,7 +767,7 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 				return newNeedMoreParamsError(msg.Command)
 			}
 			caps := subParams[len(subParams)-1]
-			more := len(subParams) >= 2 && msg.Params[len(subParams)-2] == "*"
+			more := len(subParams) >= 2 && subParams[len(subParams)-2] == "*"
 
 			uc.handleSupportedCaps(caps)
 
-- 
2.43.0


From 8d28ebf008aa83d4cb3d8415585d54057131bd27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:17 +0000
Subject: [PATCH 54/76] fix: don't overwrite SASL credentials on unrelated
 NickServ SET commands

---
 downstream.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/downstream.go b/downstream.go
index 113daf7..a197b3b 100644
--- a/downstream.go
+++ b/downstream.go
@@ -3434,10 +3434,11 @@ func parseNickServCredentials(text, nick string) (username, password string, ok
 			password = params[1]
 		}
 	case "SET":
-		if len(params) == 2 && strings.EqualFold(params[0], "PASSWORD") {
-			username = nick
-			password = params[1]
+		if len(params) != 2 || !strings.EqualFold(params[0], "PASSWORD") {
+			return "", "", false
 		}
+		username = nick
+		password = params[1]
 	default:
 		return "", "", false
 	}
-- 
2.43.0


From 615e136f314bc1fed2437b266ad424df0e573bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:52 +0000
Subject: [PATCH 55/76] fix: ignore queued messages of a replaced network

---
 user.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/user.go b/user.go
index 71addc7..902330c 100644
--- a/user.go
+++ b/user.go
@@ -692,7 +692,7 @@ func (u *user) run() {
 			})
 		case eventUpstreamMessage:
 			msg, uc := e.msg, e.uc
-			if uc.isClosed() {
+			if uc.isClosed() || uc.network.isStopped() {
 				uc.logger.Printf("ignoring %v message on closed connection", msg.Command)
 				break
 			}
@@ -702,7 +702,7 @@ func (u *user) run() {
 		case eventChannelDetach:
 			uc, name := e.uc, e.name
 			c := uc.network.channels.Get(name)
-			if c == nil || c.Detached {
+			if c == nil || c.Detached || uc.network.isStopped() {
 				continue
 			}
 			uc.network.detach(c)
-- 
2.43.0


From 7ce7a10d1ee10eaa3d31a5854f0b8a2536afb844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:17 +0000
Subject: [PATCH 56/76] fix: upgrade old databases which have channels

---
 database/sqlite.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/database/sqlite.go b/database/sqlite.go
index 70f46fb..65cf43f 100644
--- a/database/sqlite.go
+++ b/database/sqlite.go
@@ -294,7 +294,21 @@ func (db *SqliteDB) upgrade() error {
 		return fmt.Errorf("soju (version %d) older than schema (version %d)", len(sqliteMigrations), version)
 	}
 
-	tx, err := db.db.Begin()
+	ctx := context.Background()
+	conn, err := db.db.Conn(ctx)
+	if err != nil {
+		return err
+	}
+	defer conn.Close()
+
+	// Some migrations re-create tables which are referenced by others. Foreign
+	// key constraints can't be disabled inside a transaction.
+	if _, err := conn.ExecContext(ctx, "PRAGMA foreign_keys = OFF"); err != nil {
+		return fmt.Errorf("failed to disable foreign key constraints: %v", err)
+	}
+	defer conn.ExecContext(ctx, "PRAGMA foreign_keys = ON")
+
+	tx, err := conn.BeginTx(ctx, nil)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 70b1c6fbdbc3fb34ed0beb76e850f153d22b60c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:05 +0000
Subject: [PATCH 57/76] fix: fileupload: remove partially written files

---
 fileupload/fs.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fileupload/fs.go b/fileupload/fs.go
index c0c401d..070b36b 100644
--- a/fileupload/fs.go
+++ b/fileupload/fs.go
@@ -90,9 +90,11 @@ func (fs *fileuploadFS) store(ctx context.Context, r io.Reader, username, mimeTy
 	defer f.Close()
 
 	if _, err := io.Copy(f, r); err != nil {
+		os.Remove(f.Name())
 		return "", fmt.Errorf("failed to write file: %w", err)
 	}
 	if err := f.Close(); err != nil {
+		os.Remove(f.Name())
 		return "", fmt.Errorf("failed to close file: %w", err)
 	}
 
-- 
2.43.0


From f708483a3be81583c8fbdc5c16c80bdf495df577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:35 +0000
Subject: [PATCH 58/76] fix: fileupload: keep uploads inside one directory per
 user

---
 fileupload/fs.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/fileupload/fs.go b/fileupload/fs.go
index 070b36b..1a96c1d 100644
--- a/fileupload/fs.go
+++ b/fileupload/fs.go
@@ -55,7 +55,11 @@ func (fs *fileuploadFS) store(ctx context.Context, r io.Reader, username, mimeTy
 		}
 	}
 
-	dir := filepath.Join(fs.dir, username)
+	if username == "" {
+		return "", fmt.Errorf("empty username")
+	}
+	userDir := escapeUsername(username)
+	dir := filepath.Join(fs.dir, userDir)
 	if err := os.MkdirAll(dir, 0700); err != nil {
 		return "", fmt.Errorf("failed to create user upload directory: %w", err)
 	}
@@ -98,5 +102,16 @@ func (fs *fileuploadFS) store(ctx context.Context, r io.Reader, username, mimeTy
 		return "", fmt.Errorf("failed to close file: %w", err)
 	}
 
-	return url.PathEscape(username) + "/" + url.PathEscape(filepath.Base(f.Name())), nil
+	return "./" + url.PathEscape(userDir) + "/" + url.PathEscape(filepath.Base(f.Name())), nil
+}
+
+// escapeUsername converts a username to the name of a single directory.
+func escapeUsername(username string) string {
+	switch username {
+	case ".":
+		return "%2E"
+	case "..":
+		return "%2E%2E"
+	}
+	return strings.NewReplacer("%", "%25", "/", "%2F", "\\", "%5C").Replace(username)
 }
-- 
2.43.0


From 0dabab3167f5bcf3d3dd198c501be8850b7162e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:53 +0000
Subject: [PATCH 59/76] fix: fileupload: refuse uploads of disabled users

---
 cmd/soju/main.go         |  2 ++
 fileupload/fileupload.go | 10 ++++++++++
 2 files changed, 12 insertions(+)

diff --git a/cmd/soju/main.go b/cmd/soju/main.go
index 933264c..ef17add 100644
--- a/cmd/soju/main.go
+++ b/cmd/soju/main.go
@@ -180,6 +180,8 @@ func main() {
 			DB:          db,
 			Auth:        cfg.Auth,
 			HTTPOrigins: cfg.HTTPOrigins,
+
+			EnableUsersOnAuth: cfg.EnableUsersOnAuth,
 		}
 		h.ServeHTTP(w, r)
 	})
diff --git a/fileupload/fileupload.go b/fileupload/fileupload.go
index 07fccf1..49c0530 100644
--- a/fileupload/fileupload.go
+++ b/fileupload/fileupload.go
@@ -103,6 +103,9 @@ type Handler struct {
 	Auth        *auth.Authenticator
 	DB          database.Database
 	HTTPOrigins []string
+
+	// EnableUsersOnAuth allows disabled users to upload files
+	EnableUsersOnAuth bool
 }
 
 func (h *Handler) checkOrigin(reqOrigin string) bool {
@@ -275,6 +278,13 @@ func (h *Handler) store(resp http.ResponseWriter, req *http.Request) {
 		return
 	}
 
+	if !h.EnableUsersOnAuth {
+		if user, err := h.DB.GetUser(req.Context(), username); err == nil && !user.Enabled {
+			http.Error(resp, "account disabled", http.StatusForbidden)
+			return
+		}
+	}
+
 	var mimeType string
 	if contentType := req.Header.Get("Content-Type"); contentType != "" {
 		var (
-- 
2.43.0


From b5e459a941f4547350ab35bc797554ca31fe2f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:03 +0000
Subject: [PATCH 60/76] fix: keep monitoring the wanted nick while it is not
 regained

---
 upstream.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/upstream.go b/upstream.go
index 17bee57..d50ea73 100644
--- a/upstream.go
+++ b/upstream.go
@@ -2384,9 +2384,13 @@ func (uc *upstreamConn) updateMonitor() {
 
 	wantNick := database.GetNick(&uc.user.User, &uc.network.Network)
 	wantNickCM := uc.network.casemap(wantNick)
-	if _, ok := add[wantNickCM]; !ok && !uc.monitored.Has(wantNick) && !uc.isOurNick(wantNick) && !uc.hasDesiredNick {
-		addList = append(addList, wantNickCM)
-		add[wantNickCM] = struct{}{}
+	if !uc.isOurNick(wantNick) && !uc.hasDesiredNick {
+		if uc.monitored.Has(wantNick) {
+			seen[wantNickCM] = struct{}{}
+		} else if _, ok := add[wantNickCM]; !ok {
+			addList = append(addList, wantNickCM)
+			add[wantNickCM] = struct{}{}
+		}
 	}
 
 	removeAll := true
-- 
2.43.0


From 623796a39ae10856ca70b5a25a44af510459b9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:18 +0000
Subject: [PATCH 61/76] fix: treat an empty away message as no longer away

---
 downstream.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/downstream.go b/downstream.go
index a197b3b..abc7ff7 100644
--- a/downstream.go
+++ b/downstream.go
@@ -788,7 +788,7 @@ func (dc *downstreamConn) handleMessageUnregistered(ctx context.Context, msg *ir
 			}}
 		}
 	case "AWAY":
-		if len(msg.Params) > 0 {
+		if len(msg.Params) > 0 && msg.Params[0] != "" {
 			dc.away = &msg.Params[0]
 		} else {
 			dc.away = nil
@@ -2630,7 +2630,7 @@ func (dc *downstreamConn) handleMessageRegistered(ctx context.Context, msg *irc.
 		uc.logger.Printf("starting %v with account name %v", msg.Command, msg.Params[0])
 		uc.enqueueCommand(dc, msg)
 	case "AWAY":
-		if len(msg.Params) > 0 {
+		if len(msg.Params) > 0 && msg.Params[0] != "" {
 			dc.away = &msg.Params[0]
 		} else {
 			dc.away = nil
-- 
2.43.0


From 3409e781a96ca0a40a7c3b2b1eda3405519b8d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:07 +0000
Subject: [PATCH 62/76] fix: do not track monitored nicks no client wants
 anymore

---
 upstream.go | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/upstream.go b/upstream.go
index d50ea73..40be889 100644
--- a/upstream.go
+++ b/upstream.go
@@ -1731,9 +1731,20 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 		targets := strings.Split(targetsStr, ",")
 
 		online := msg.Command == irc.RPL_MONONLINE
+		var staleTargets []string
 		for _, target := range targets {
 			prefix := irc.ParsePrefix(target)
-			uc.monitored.Set(prefix.Name, online)
+			if uc.isMonitorNeeded(prefix.Name) {
+				uc.monitored.Set(prefix.Name, online)
+			} else {
+				// The last downstream interested in this target has removed
+				// it before we've received this reply
+				uc.monitored.Del(prefix.Name)
+				staleTargets = append(staleTargets, prefix.Name)
+			}
+		}
+		for _, msg := range xirc.GenerateMonitor("-", staleTargets) {
+			uc.SendMessage(ctx, msg)
 		}
 
 		// Check if the nick we want is now free
@@ -2355,6 +2366,22 @@ func (uc *upstreamConn) updateChannelAutoDetach(name string) {
 	uch.updateAutoDetach(ch.DetachAfter)
 }
 
+// isMonitorNeeded checks whether a target needs to be on our upstream MONITOR
+// list.
+func (uc *upstreamConn) isMonitorNeeded(target string) bool {
+	wantNick := database.GetNick(&uc.user.User, &uc.network.Network)
+	if uc.network.equalCasemap(target, wantNick) && !uc.isOurNick(wantNick) && !uc.hasDesiredNick {
+		return true
+	}
+	needed := false
+	uc.forEachDownstream(func(dc *downstreamConn) {
+		if dc.monitored.Has(target) {
+			needed = true
+		}
+	})
+	return needed
+}
+
 func (uc *upstreamConn) updateMonitor() {
 	if _, ok := uc.isupport["MONITOR"]; !ok {
 		return
-- 
2.43.0


From aa6c346d228785bdc54852f2b1d20addb162a5bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:09 +0000
Subject: [PATCH 63/76] fix: use the name reported by the network in MODE
 replies

---
 downstream.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/downstream.go b/downstream.go
index abc7ff7..1b293d1 100644
--- a/downstream.go
+++ b/downstream.go
@@ -2124,7 +2124,7 @@ func (dc *downstreamConn) handleMessageRegistered(ctx context.Context, msg *irc.
 			}
 
 			modeStr, modeParams := ch.modes.Format()
-			params := []string{dc.nick, name, modeStr}
+			params := []string{dc.nick, ch.Name, modeStr}
 			params = append(params, modeParams...)
 
 			dc.SendMessage(ctx, &irc.Message{
@@ -2134,7 +2134,7 @@ func (dc *downstreamConn) handleMessageRegistered(ctx context.Context, msg *irc.
 			if ch.creationTime != "" {
 				dc.SendMessage(ctx, &irc.Message{
 					Command: xirc.RPL_CREATIONTIME,
-					Params:  []string{dc.nick, name, ch.creationTime},
+					Params:  []string{dc.nick, ch.Name, ch.creationTime},
 				})
 			}
 		}
-- 
2.43.0


From 8c0aad34e554c6983d41d5e5ca1432473aa5ff1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:09 +0000
Subject: [PATCH 64/76] fix: notify clients of removed network attributes

---
 user.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/user.go b/user.go
index 902330c..f7c92f7 100644
--- a/user.go
+++ b/user.go
@@ -1164,6 +1164,8 @@ func (u *user) replaceNetwork(network *network, record *database.Network) *netwo
 		channels = append(channels, *ch)
 	})
 
+	oldAttrs := getNetworkAttrs(network)
+
 	updatedNetwork := newNetwork(u, record, channels)
 	// Clients are still owed the messages they haven't received yet
 	updatedNetwork.delivered = network.delivered
@@ -1201,6 +1203,12 @@ func (u *user) replaceNetwork(network *network, record *database.Network) *netwo
 
 	// TODO: only broadcast attributes that have changed
 	attrs := getNetworkAttrs(updatedNetwork)
+	for k := range oldAttrs {
+		// An attribute without a value has been removed
+		if _, ok := attrs[k]; !ok {
+			attrs[k] = ""
+		}
+	}
 	u.notifyBouncerNetworkState(updatedNetwork.ID, attrs)
 
 	return updatedNetwork
-- 
2.43.0


From ac65c6e084d8de8802fd480e398f67612950ad7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:09 +0000
Subject: [PATCH 65/76] fix: notify clients of nickname and realname changes

---
 downstream.go | 7 +++++++
 user.go       | 9 +++++++++
 2 files changed, 16 insertions(+)

diff --git a/downstream.go b/downstream.go
index 1b293d1..556c91f 100644
--- a/downstream.go
+++ b/downstream.go
@@ -1859,6 +1859,10 @@ func (dc *downstreamConn) handleMessageRegistered(ctx context.Context, msg *irc.
 
 		if dc.network != nil {
 			dc.network.Network.Nick = nick
+			dc.user.notifyBouncerNetworkState(dc.network.ID, irc.Tags{
+				"nickname": database.GetNick(&dc.user.User, &dc.network.Network),
+				"realname": database.GetRealname(&dc.user.User, &dc.network.Network),
+			})
 			if uc := dc.upstream(); uc != nil {
 				uc.SendMessageLabeled(ctx, dc.id, &irc.Message{
 					Command: "NICK",
@@ -1903,6 +1907,9 @@ func (dc *downstreamConn) handleMessageRegistered(ctx context.Context, msg *irc.
 				err = dc.srv.db.StoreNetwork(ctx, dc.user.ID, &record)
 				if err == nil {
 					dc.network.Network.Realname = record.Realname
+					dc.user.notifyBouncerNetworkState(dc.network.ID, irc.Tags{
+						"realname": database.GetRealname(&dc.user.User, &dc.network.Network),
+					})
 
 					// Upstream will reply with a SETNAME message on success
 					uc.SendMessageLabeled(ctx, dc.id, &irc.Message{
diff --git a/user.go b/user.go
index f7c92f7..3883389 100644
--- a/user.go
+++ b/user.go
@@ -1304,6 +1304,15 @@ func (u *user) updateUser(ctx context.Context, update UserUpdateFunc) error {
 		}
 	}
 
+	if nickUpdated || realnameUpdated {
+		for _, net := range u.networks {
+			u.notifyBouncerNetworkState(net.ID, irc.Tags{
+				"nickname": database.GetNick(&u.User, &net.Network),
+				"realname": database.GetRealname(&u.User, &net.Network),
+			})
+		}
+	}
+
 	if !u.Enabled {
 		// TODO: send an error message before disconnecting
 		for _, dc := range u.downstreamConns {
-- 
2.43.0


From 5312a5d85fb6be3de8ceae1b7651dc6b277fb9db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:09 +0000
Subject: [PATCH 66/76] fix: ignore connection errors of stopped networks

---
 user.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/user.go b/user.go
index 3883389..7e20aea 100644
--- a/user.go
+++ b/user.go
@@ -664,14 +664,12 @@ func (u *user) run() {
 		case eventUpstreamConnectionError:
 			net := e.net
 
-			stopped := false
-			select {
-			case <-net.stopped:
-				stopped = true
-			default:
+			if net.isStopped() {
+				// The network has been removed or replaced
+				break
 			}
 
-			if !stopped && (net.lastError == nil || net.lastError.Error() != e.err.Error()) {
+			if net.lastError == nil || net.lastError.Error() != e.err.Error() {
 				net.forEachDownstream(func(dc *downstreamConn) {
 					sendServiceNOTICE(dc, fmt.Sprintf("failed connecting/registering to %s: %v", net.GetName(), e.err))
 				})
-- 
2.43.0


From 234384615791aa4ef54afdffc63dec2eb5b20afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:04 +0000
Subject: [PATCH 67/76] fix: accept WEBPUSH subcommands in any case

---
 downstream.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/downstream.go b/downstream.go
index 556c91f..8ab7ea5 100644
--- a/downstream.go
+++ b/downstream.go
@@ -3239,6 +3239,7 @@ func (dc *downstreamConn) handleMessageRegistered(ctx context.Context, msg *irc.
 			return err
 		}
 
+		subcommand = strings.ToUpper(subcommand)
 		switch subcommand {
 		case "REGISTER":
 			var endpoint, keysStr string
-- 
2.43.0


From a6a735c174c4445ad5b038df6db0ef43b18421bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:04 +0000
Subject: [PATCH 68/76] fix: check the host name of Web push endpoints

---
 downstream.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/downstream.go b/downstream.go
index 8ab7ea5..856416e 100644
--- a/downstream.go
+++ b/downstream.go
@@ -3535,13 +3535,13 @@ func sanityCheckWebPushEndpoint(ctx context.Context, endpoint string) error {
 		return fmt.Errorf("scheme must be HTTPS")
 	}
 
-	ips, err := net.DefaultResolver.LookupIP(ctx, "ip", u.Host)
+	ips, err := net.DefaultResolver.LookupIP(ctx, "ip", u.Hostname())
 	if err != nil {
 		return fmt.Errorf("DNS lookup failed: %v", err)
 	}
 
 	for _, ip := range ips {
-		if ip.IsLoopback() || ip.IsMulticast() || ip.IsPrivate() {
+		if ip.IsLoopback() || ip.IsMulticast() || ip.IsPrivate() || ip.IsUnspecified() || ip.IsLinkLocalUnicast() {
 			return fmt.Errorf("invalid IP %v", ip)
 		}
 	}
-- 
2.43.0


From ee1dc84136b20be7b6c24dbf793646ff859a8a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:04 +0000
Subject: [PATCH 69/76] fix: drop message tags which do not fit in a Web push

---
 server.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/server.go b/server.go
index 8578be7..9979d82 100644
--- a/server.go
+++ b/server.go
@@ -397,6 +397,17 @@ func (s *Server) sendWebPush(ctx context.Context, sub *webpush.Subscription, vap
 
 	payload := []byte(msg.String())
 	resp, err := webpush.SendNotificationWithContext(ctx, payload, sub, &options)
+	if err == webpush.ErrMaxPadExceeded {
+		// The message tags may be too large: only keep the important ones
+		msg = msg.Copy()
+		for k := range msg.Tags {
+			if k != "msgid" && k != "time" {
+				delete(msg.Tags, k)
+			}
+		}
+		payload = []byte(msg.String())
+		resp, err = webpush.SendNotificationWithContext(ctx, payload, sub, &options)
+	}
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 756fb3a83fc223285de0d584fed8ed0393176b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:04 +0000
Subject: [PATCH 70/76] fix: keep track of pushed conversations when a network
 is updated

---
 user.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/user.go b/user.go
index 7e20aea..533bcba 100644
--- a/user.go
+++ b/user.go
@@ -1167,6 +1167,7 @@ func (u *user) replaceNetwork(network *network, record *database.Network) *netwo
 	updatedNetwork := newNetwork(u, record, channels)
 	// Clients are still owed the messages they haven't received yet
 	updatedNetwork.delivered = network.delivered
+	updatedNetwork.pushTargets = network.pushTargets
 
 	// If we're currently connected, disconnect and perform the necessary
 	// bookkeeping
-- 
2.43.0


From 4de5dec2f1d5aa2192c1dc873f906cefbe84e12b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:46 +0000
Subject: [PATCH 71/76] fix: tell connections from different local addresses
 apart

---
 identd/identd.go | 56 +++++++++++++++++++++++++++++++++++-------------
 1 file changed, 41 insertions(+), 15 deletions(-)

diff --git a/identd/identd.go b/identd/identd.go
index 3aabf30..843141f 100644
--- a/identd/identd.go
+++ b/identd/identd.go
@@ -21,20 +21,20 @@ type identKey struct {
 	localPort  int
 }
 
-func newIdentKey(remoteAddr, localAddr string) (*identKey, error) {
+func newIdentKey(remoteAddr, localAddr string) (key *identKey, localHost string, err error) {
 	remoteHost, remotePort, err := splitHostPort(remoteAddr)
 	if err != nil {
-		return nil, err
+		return nil, "", err
 	}
-	_, localPort, err := splitHostPort(localAddr)
+	localHost, localPort, err := splitHostPort(localAddr)
 	if err != nil {
-		return nil, err
+		return nil, "", err
 	}
 	return &identKey{
 		remoteHost: remoteHost,
 		remotePort: remotePort,
 		localPort:  localPort,
-	}, nil
+	}, localHost, nil
 }
 
 func splitHostPort(addr string) (host string, port int, err error) {
@@ -48,34 +48,58 @@ func splitHostPort(addr string) (host string, port int, err error) {
 
 // Identd implements an ident server, as described in RFC 1413.
 type Identd struct {
-	entries map[identKey]string
+	entries map[identKey]map[string]string // indexed by local host
 	lock    sync.RWMutex
 }
 
 func New() *Identd {
-	return &Identd{entries: make(map[identKey]string)}
+	return &Identd{entries: make(map[identKey]map[string]string)}
 }
 
 func (s *Identd) Store(remoteAddr, localAddr, ident string) {
-	k, err := newIdentKey(remoteAddr, localAddr)
+	k, localHost, err := newIdentKey(remoteAddr, localAddr)
 	if err != nil {
 		return
 	}
 	s.lock.Lock()
-	s.entries[*k] = ident
+	if s.entries[*k] == nil {
+		s.entries[*k] = make(map[string]string)
+	}
+	s.entries[*k][localHost] = ident
 	s.lock.Unlock()
 }
 
 func (s *Identd) Delete(remoteAddr, localAddr string) {
-	k, err := newIdentKey(remoteAddr, localAddr)
+	k, localHost, err := newIdentKey(remoteAddr, localAddr)
 	if err != nil {
 		return
 	}
 	s.lock.Lock()
-	delete(s.entries, *k)
+	delete(s.entries[*k], localHost)
+	if len(s.entries[*k]) == 0 {
+		delete(s.entries, *k)
+	}
 	s.lock.Unlock()
 }
 
+func (s *Identd) lookup(k identKey, localHost string) string {
+	s.lock.RLock()
+	defer s.lock.RUnlock()
+
+	// The same ports may be used from several local addresses
+	idents := s.entries[k]
+	if ident, ok := idents[localHost]; ok {
+		return ident
+	}
+	// The query may come through NAT or a proxy
+	if len(idents) == 1 {
+		for _, ident := range idents {
+			return ident
+		}
+	}
+	return ""
+}
+
 func (s *Identd) Serve(ln net.Listener) error {
 	for {
 		conn, err := ln.Accept()
@@ -95,6 +119,11 @@ func (s *Identd) handle(c net.Conn) {
 		return
 	}
 
+	localHost, _, err := net.SplitHostPort(c.LocalAddr().String())
+	if err != nil {
+		return
+	}
+
 	scanner := bufio.NewScanner(c)
 
 	// We only read to read lines with two port numbers
@@ -120,10 +149,7 @@ func (s *Identd) handle(c net.Conn) {
 			localPort:  localPort,
 		}
 
-		s.lock.RLock()
-		ident := s.entries[k]
-		s.lock.RUnlock()
-
+		ident := s.lookup(k, localHost)
 		if ident == "" {
 			fmt.Fprintf(c, "%s : ERROR : NO-USER\r\n", l)
 			break
-- 
2.43.0


From 568bf57b6776e40bf9ecfc6110f3dcb34255435c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:25 +0000
Subject: [PATCH 72/76] fix: migrate-db: read records of the source user

---
 contrib/migrate-db/main.go | 42 ++++++++++++++++++++++++++------------
 1 file changed, 29 insertions(+), 13 deletions(-)

diff --git a/contrib/migrate-db/main.go b/contrib/migrate-db/main.go
index 9e5a744..78aacea 100644
--- a/contrib/migrate-db/main.go
+++ b/contrib/migrate-db/main.go
@@ -59,6 +59,7 @@ func main() {
 	for _, user := range users {
 		log.Printf("Storing user: %s\n", user.Username)
 
+		srcUserID := user.ID
 		user.ID = 0
 
 		err := destinationdb.StoreUser(ctx, &user)
@@ -66,7 +67,7 @@ func main() {
 			log.Fatalf("unable to store user: #%d %s", user.ID, user.Username)
 		}
 
-		networks, err := sourcedb.ListNetworks(ctx, user.ID)
+		networks, err := sourcedb.ListNetworks(ctx, srcUserID)
 		if err != nil {
 			log.Fatalf("unable to get source networks for user: #%d %s", user.ID, user.Username)
 		}
@@ -125,21 +126,16 @@ func main() {
 
 			// TODO: migrate read receipts as well
 
-			webPushSubscriptions, err := sourcedb.ListWebPushSubscriptions(ctx, user.ID, srcNetwork.ID)
+			err = migrateWebPushSubscriptions(ctx, sourcedb, srcUserID, srcNetwork.ID, destinationdb, user.ID, destNetwork.ID)
 			if err != nil {
-				log.Fatalf("unable to get source web push subscriptions for user and network: %s %s", user.Username, srcNetwork.Name)
+				log.Fatalf("unable to migrate web push subscriptions for user and network: %s %s: %v", user.Username, srcNetwork.Name, err)
 			}
+		}
 
-			for _, sub := range webPushSubscriptions {
-				log.Printf("Storing web push subscription: %s.%s.%d", user.Username, srcNetwork.Name, sub.ID)
-
-				sub.ID = 0
-
-				err := destinationdb.StoreWebPushSubscription(ctx, user.ID, destNetwork.ID, &sub)
-				if err != nil {
-					log.Fatalf("unable to store web push subscription for user and network: %s %s", user.Username, srcNetwork.Name)
-				}
-			}
+		// Subscriptions which aren't tied to a network
+		err = migrateWebPushSubscriptions(ctx, sourcedb, srcUserID, 0, destinationdb, user.ID, 0)
+		if err != nil {
+			log.Fatalf("unable to migrate web push subscriptions for user: %s: %v", user.Username, err)
 		}
 	}
 
@@ -157,3 +153,23 @@ func main() {
 		}
 	}
 }
+
+func migrateWebPushSubscriptions(ctx context.Context, sourcedb database.Database, srcUserID, srcNetworkID int64, destinationdb database.Database, destUserID, destNetworkID int64) error {
+	webPushSubscriptions, err := sourcedb.ListWebPushSubscriptions(ctx, srcUserID, srcNetworkID)
+	if err != nil {
+		return err
+	}
+
+	for _, sub := range webPushSubscriptions {
+		log.Printf("Storing web push subscription: %d", sub.ID)
+
+		sub.ID = 0
+
+		err := destinationdb.StoreWebPushSubscription(ctx, destUserID, destNetworkID, &sub)
+		if err != nil {
+			return err
+		}
+	}
+
+	return nil
+}
-- 
2.43.0


From 52b6e7e4413f1fb78e80a06adbceff67ba594d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:25 +0000
Subject: [PATCH 73/76] fix: znc-import: import IPv6 server addresses

---
 contrib/znc-import/main.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/contrib/znc-import/main.go b/contrib/znc-import/main.go
index 8a68332..20a322a 100644
--- a/contrib/znc-import/main.go
+++ b/contrib/znc-import/main.go
@@ -7,6 +7,7 @@ import (
 	"fmt"
 	"io"
 	"log"
+	"net"
 	"net/url"
 	"os"
 	"strings"
@@ -258,7 +259,7 @@ func importNetworkServer(s string) (u *url.URL, pass string, err error) {
 
 	u = &url.URL{
 		Scheme: scheme,
-		Host:   host + ":" + port,
+		Host:   net.JoinHostPort(strings.Trim(host, "[]"), port),
 	}
 	return u, pass, nil
 }
-- 
2.43.0


From 8b1656c82aedab2a691819b56fa485f3eac9ce1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:52 +0000
Subject: [PATCH 74/76] fix: apply and pass on withdrawals of network features

---
 upstream.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/upstream.go b/upstream.go
index 40be889..c6ff456 100644
--- a/upstream.go
+++ b/upstream.go
@@ -1010,7 +1010,7 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 			var value string
 			if strings.HasPrefix(token, "-") {
 				negate = true
-				token = token[1:]
+				parameter = token[1:]
 			} else if i := strings.IndexByte(token, '='); i >= 0 {
 				parameter = token[:i]
 				value = token[i+1:]
-- 
2.43.0


From 61796da126b0440e5a3ef7a8f9a1f03799b5f3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:52 +0000
Subject: [PATCH 75/76] fix: pass on changed values of network capabilities

---
 upstream.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/upstream.go b/upstream.go
index c6ff456..2a5ad1d 100644
--- a/upstream.go
+++ b/upstream.go
@@ -814,6 +814,14 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 			}
 			uc.handleSupportedCaps(subParams[0])
 			uc.updateCaps(ctx)
+
+			// The value of a capability which is already enabled may have
+			// changed
+			if uc.registered {
+				uc.forEachDownstream(func(dc *downstreamConn) {
+					dc.updateSupportedCaps(ctx)
+				})
+			}
 		case "DEL":
 			if len(subParams) < 1 {
 				return newNeedMoreParamsError(msg.Command)
-- 
2.43.0


From 4229da468c7a7300a5d5ade0e8c1db232e62a9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:52 +0000
Subject: [PATCH 76/76] fix: do not encode network features twice

---
 downstream.go  |  6 +++---
 xirc/genmsg.go | 14 ++++++++------
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/downstream.go b/downstream.go
index 856416e..eef73fb 100644
--- a/downstream.go
+++ b/downstream.go
@@ -1499,7 +1499,7 @@ func (dc *downstreamConn) welcome(ctx context.Context, user *user) error {
 		isupport = append(isupport, "BOT=B", "CASEMAPPING=ascii")
 	}
 	if title := dc.srv.Config().Title; dc.network == nil && title != "" {
-		isupport = append(isupport, "NETWORK="+title)
+		isupport = append(isupport, "NETWORK="+xirc.EncodeIsupportValue(title))
 	}
 	if dc.network == nil {
 		isupport = append(isupport, "WHOX")
@@ -1511,10 +1511,10 @@ func (dc *downstreamConn) welcome(ctx context.Context, user *user) error {
 		isupport = append(isupport, "MSGREFTYPES=timestamp")
 	}
 	if dc.caps.IsEnabled("soju.im/webpush") {
-		isupport = append(isupport, "VAPID="+dc.srv.webPush.VAPIDKeys.Public)
+		isupport = append(isupport, "VAPID="+xirc.EncodeIsupportValue(dc.srv.webPush.VAPIDKeys.Public))
 	}
 	if dc.srv.Config().FileUploader != nil {
-		isupport = append(isupport, "soju.im/FILEHOST="+dc.srv.Config().HTTPIngress+"/uploads")
+		isupport = append(isupport, "soju.im/FILEHOST="+xirc.EncodeIsupportValue(dc.srv.Config().HTTPIngress+"/uploads"))
 	}
 
 	if uc := dc.upstream(); uc != nil {
diff --git a/xirc/genmsg.go b/xirc/genmsg.go
index 9327d49..18c88e2 100644
--- a/xirc/genmsg.go
+++ b/xirc/genmsg.go
@@ -82,6 +82,8 @@ func (js *joinSorter) Swap(i, j int) {
 	js.keys[i], js.keys[j] = js.keys[j], js.keys[i]
 }
 
+// GenerateIsupport generates RPL_ISUPPORT messages. Token values must be
+// encoded, see EncodeIsupportValue.
 func GenerateIsupport(tokens []string) []*irc.Message {
 	maxTokens := maxMessageParams - 2 // 2 reserved params: nick + text
 
@@ -97,20 +99,20 @@ func GenerateIsupport(tokens []string) []*irc.Message {
 			tokens = nil
 		}
 
-		encodedTokens := make([]string, len(msgTokens))
-		for i, tok := range msgTokens {
-			encodedTokens[i] = isupportEncoder.Replace(tok)
-		}
-
 		msgs = append(msgs, &irc.Message{
 			Command: irc.RPL_ISUPPORT,
-			Params:  append(append([]string{"*"}, encodedTokens...), "are supported"),
+			Params:  append(append([]string{"*"}, msgTokens...), "are supported"),
 		})
 	}
 
 	return msgs
 }
 
+// EncodeIsupportValue escapes an RPL_ISUPPORT token value.
+func EncodeIsupportValue(value string) string {
+	return isupportEncoder.Replace(value)
+}
+
 var isupportEncoder = strings.NewReplacer(" ", "\\x20", "\\", "\\x5C")
 
 func GenerateMOTD(motd string) []*irc.Message {
-- 
2.43.0

