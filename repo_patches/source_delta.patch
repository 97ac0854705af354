From 37c6550761c9bf18edcb076fa20f3e7b5af35aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:59 +0000
Subject: [PATCH 01/25] fix: reject null record attributes instead of panicking
 on decode

---
 encoding/decoder.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/encoding/decoder.go b/encoding/decoder.go
index 2841d43..e6436ad 100644
--- a/encoding/decoder.go
+++ b/encoding/decoder.go
@@ -97,6 +97,9 @@ func (d rawFieldDecoder) decode(attr interface{}, v reflect.Value) error {
 		return fmt.Errorf("field not addressable")
 	}
 	attrV := reflect.ValueOf(attr)
+	if !attrV.IsValid() {
+		return fmt.Errorf("cannot assign null value")
+	}
 	if !v.Type().AssignableTo(attrV.Type()) {
 		return fmt.Errorf("cannot assign value to type")
 	}
-- 
2.43.0


From 81e62aeb52e7f0a5767ac280997e1db43415a8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:00 +0000
Subject: [PATCH 02/25] fix: report an error when encoding a nil record pointer

---
 encoding/encoder.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/encoding/encoder.go b/encoding/encoder.go
index c2e58bd..0db6472 100644
--- a/encoding/encoder.go
+++ b/encoding/encoder.go
@@ -44,6 +44,9 @@ func Encode(record any) (RecordAttributeSet, error) {
 	encoding, ok := encodings[recordT]
 	if !ok {
 		if recordT.Kind() == reflect.Pointer {
+			if recordV.IsNil() {
+				return nil, errors.New("cannot encode nil record")
+			}
 			recordV = recordV.Elem()
 			recordT = recordV.Type()
 			encoding, ok = encodings[recordT]
-- 
2.43.0


From 92ca3fbce6bb800269272b6f7ccc4a615be7ffd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:01 +0000
Subject: [PATCH 03/25] fix: make every registered record type usable as a
 Record

---
 records.go | 35 +++++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/records.go b/records.go
index bba20eb..50cd99e 100644
--- a/records.go
+++ b/records.go
@@ -183,22 +183,57 @@ type ImageRecord struct {
 	BaseRecord
 }
 
+func (r ImageRecord) GetTypeMeta() TypeMeta {
+	return TypeMeta{
+		APIVersion: apiVersion,
+		Type:       "ImageRecord",
+	}
+}
+
 type IngressRecord struct {
 	BaseRecord
 }
 
+func (r IngressRecord) GetTypeMeta() TypeMeta {
+	return TypeMeta{
+		APIVersion: apiVersion,
+		Type:       "IngressRecord",
+	}
+}
+
 type EgressRecord struct {
 	BaseRecord
 }
 
+func (r EgressRecord) GetTypeMeta() TypeMeta {
+	return TypeMeta{
+		APIVersion: apiVersion,
+		Type:       "EgressRecord",
+	}
+}
+
 type CollectorRecord struct {
 	BaseRecord
 }
 
+func (r CollectorRecord) GetTypeMeta() TypeMeta {
+	return TypeMeta{
+		APIVersion: apiVersion,
+		Type:       "CollectorRecord",
+	}
+}
+
 type ProcessGroupRecord struct {
 	BaseRecord
 }
 
+func (r ProcessGroupRecord) GetTypeMeta() TypeMeta {
+	return TypeMeta{
+		APIVersion: apiVersion,
+		Type:       "ProcessGroupRecord",
+	}
+}
+
 type HostRecord struct {
 	BaseRecord
 	Provider *string `vflow:"10"`
-- 
2.43.0


From 3c829eabb6b15110ee5d545e857bec74f7f0728b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:02 +0000
Subject: [PATCH 04/25] fix: do not panic on beacon messages without a subject

---
 eventsource/discovery.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/eventsource/discovery.go b/eventsource/discovery.go
index a79200a..20a3586 100644
--- a/eventsource/discovery.go
+++ b/eventsource/discovery.go
@@ -61,6 +61,10 @@ func (d *Discovery) Run(ctx context.Context, handlers DiscoveryHandlers) error {
 		if err := receiver.Accept(ctx, msg); err != nil {
 			slog.Error("discovery got error accepting message", slog.Any("error", err))
 		}
+		if msg.Properties == nil || msg.Properties.Subject == nil {
+			slog.Info("received message without subject from beacon source")
+			continue
+		}
 		if *msg.Properties.Subject != "BEACON" {
 			slog.Info("received non-beacon from beacon source", slog.Any("subject", msg.Properties.Subject), slog.Any("source", msg.Properties.To))
 			continue
-- 
2.43.0


From a28e60c3521821499939995c10d0eec86b2949be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:29 +0000
Subject: [PATCH 05/25] fix: client Close no longer deadlocks with its
 listeners and can be repeated

---
 eventsource/client.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/eventsource/client.go b/eventsource/client.go
index 260eceb..abc1b85 100644
--- a/eventsource/client.go
+++ b/eventsource/client.go
@@ -26,6 +26,7 @@ type Client struct {
 	eventSource Info
 
 	lock              sync.Mutex
+	closed            bool
 	cleanup           []func()
 	heartbeatHandlers []HeartbeatMessageHandler
 	recordHandlers    []RecordMessageHandler
@@ -85,11 +86,13 @@ func (c *Client) getHandlers() ([]RecordMessageHandler, []HeartbeatMessageHandle
 // listener configuration until the context is cancelled or client.Close() is
 // called.
 func (c *Client) Listen(ctx context.Context, attributes ListenerConfigProvider) error {
-	c.wg.Add(1)
-	listenerCtx, listenerCancel := context.WithCancel(ctx)
-
 	c.lock.Lock()
 	defer c.lock.Unlock()
+	if c.closed {
+		return errors.New("client closed")
+	}
+	c.wg.Add(1)
+	listenerCtx, listenerCancel := context.WithCancel(ctx)
 	c.cleanup = append(c.cleanup, listenerCancel)
 
 	go func(ctx context.Context) {
@@ -139,10 +142,13 @@ func (c *Client) Listen(ctx context.Context, attributes ListenerConfigProvider)
 // Close stops all listeners
 func (c *Client) Close() {
 	c.lock.Lock()
-	defer c.lock.Unlock()
-	for _, cancel := range c.cleanup {
+	cleanup := c.cleanup
+	c.cleanup, c.closed = nil, true
+	c.lock.Unlock()
+	for _, cancel := range cleanup {
 		cancel()
 	}
+	// listeners take the lock, it can not be held while waiting for them
 	c.wg.Wait()
 }
 
-- 
2.43.0


From b92918f22a77e327e17f7ef46397d3deb97943ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:30 +0000
Subject: [PATCH 06/25] fix: deliver discovery events in order without blocking
 under the lock

---
 eventsource/discovery.go | 66 +++++++++++++++++++++++++++++++---------
 1 file changed, 51 insertions(+), 15 deletions(-)

diff --git a/eventsource/discovery.go b/eventsource/discovery.go
index 20a3586..7b2729e 100644
--- a/eventsource/discovery.go
+++ b/eventsource/discovery.go
@@ -19,11 +19,18 @@ type Discovery struct {
 	container     session.Container
 	lock          sync.Mutex
 	state         map[string]Info
-	discovered    chan Info
-	forgotten     chan Info
+	events        []discoveryEvent
+	hasEvents     chan struct{}
 	beaconAddress string
 }
 
+// discoveryEvent is a change to the collection of known event sources that has
+// not been handed to the DiscoveryHandlers yet
+type discoveryEvent struct {
+	source    Info
+	forgotten bool
+}
+
 type DiscoveryHandlers struct {
 	Discovered func(source Info)
 	Forgotten  func(source Info)
@@ -40,8 +47,7 @@ func NewDiscovery(container session.Container, opts DiscoveryOptions) *Discovery
 	return &Discovery{
 		container:     container,
 		state:         make(map[string]Info),
-		discovered:    make(chan Info, 32),
-		forgotten:     make(chan Info, 32),
+		hasEvents:     make(chan struct{}, 1),
 		beaconAddress: opts.BeaconAddress,
 	}
 }
@@ -75,21 +81,51 @@ func (d *Discovery) Run(ctx context.Context, handlers DiscoveryHandlers) error {
 
 func (d *Discovery) handleDiscovery(ctx context.Context, handlers DiscoveryHandlers) {
 	for {
+		for ctx.Err() == nil {
+			event, ok := d.nextEvent()
+			if !ok {
+				break
+			}
+			if event.forgotten {
+				if handlers.Forgotten != nil {
+					handlers.Forgotten(event.source)
+				}
+				continue
+			}
+			if handlers.Discovered != nil {
+				handlers.Discovered(event.source)
+			}
+		}
 		select {
 		case <-ctx.Done():
 			return
-		case info := <-d.discovered:
-			if handlers.Discovered != nil {
-				handlers.Discovered(info)
-			}
-		case info := <-d.forgotten:
-			if handlers.Forgotten != nil {
-				handlers.Forgotten(info)
-			}
+		case <-d.hasEvents:
 		}
 	}
 }
 
+// announce queues an event for the handlers without ever blocking. Must be
+// called with the lock held so that events keep the order of state changes.
+func (d *Discovery) announce(event discoveryEvent) {
+	d.events = append(d.events, event)
+	select {
+	case d.hasEvents <- struct{}{}:
+	default:
+	}
+}
+
+// nextEvent takes the oldest event that has not been handed to the handlers
+func (d *Discovery) nextEvent() (discoveryEvent, bool) {
+	d.lock.Lock()
+	defer d.lock.Unlock()
+	if len(d.events) == 0 {
+		return discoveryEvent{}, false
+	}
+	event := d.events[0]
+	d.events = d.events[1:]
+	return event, true
+}
+
 // Get an EventSource by ID
 func (d *Discovery) Get(id string) (source Info, ok bool) {
 	d.lock.Lock()
@@ -109,7 +145,7 @@ func (d *Discovery) Add(info Info) bool {
 		return false
 	}
 	d.state[info.ID] = info
-	d.discovered <- info
+	d.announce(discoveryEvent{source: info})
 	return true
 }
 
@@ -124,7 +160,7 @@ func (d *Discovery) Forget(id string) bool {
 	state, forget = d.state[id]
 	delete(d.state, id)
 	if forget {
-		d.forgotten <- state
+		d.announce(discoveryEvent{source: state, forgotten: true})
 	}
 	return forget
 }
@@ -284,7 +320,7 @@ func (d *Discovery) observe(beacon vanflow.BeaconMessage) {
 	state.LastSeen = tObserved
 	d.state[beacon.Identity] = state
 	if discovered {
-		d.discovered <- state
+		d.announce(discoveryEvent{source: state})
 	}
 }
 
-- 
2.43.0


From 824230e3ec82c2281fb576181ebd2357407d5d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:31 +0000
Subject: [PATCH 07/25] fix: a flush receive error is not a flush request

---
 eventsource/manager.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/eventsource/manager.go b/eventsource/manager.go
index ed3ac82..25dac65 100644
--- a/eventsource/manager.go
+++ b/eventsource/manager.go
@@ -316,6 +316,7 @@ func (m *Manager) listenFlushes(ctx context.Context) {
 				return
 			}
 			slog.Error("flush receive error", slog.Any("error", err))
+			continue
 		}
 		flushReceiver.Accept(ctx, msg)
 		select {
-- 
2.43.0


From 025b83ab4e3a4099ee8c4fb30dda434e61ecbf5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:32 +0000
Subject: [PATCH 08/25] fix: apply the send timeout of beacons and heartbeats

---
 eventsource/manager.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eventsource/manager.go b/eventsource/manager.go
index 25dac65..222ec59 100644
--- a/eventsource/manager.go
+++ b/eventsource/manager.go
@@ -331,7 +331,7 @@ var errSendTimeoutExceeded = errors.New("send timed out")
 func sendWithTimeout(ctx context.Context, timeout time.Duration, sender session.Sender, msg *amqp.Message) error {
 	requestCtx, cancel := context.WithTimeout(ctx, timeout)
 	defer cancel()
-	err := sender.Send(ctx, msg)
+	err := sender.Send(requestCtx, msg)
 	if err != nil {
 		if errors.Is(err, requestCtx.Err()) && ctx.Err() == nil {
 			return errSendTimeoutExceeded
-- 
2.43.0


From 334aaee7e8715fc48ad414acd846067556759554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:33 +0000
Subject: [PATCH 09/25] fix: stop sending the initial beacon when the manager
 is cancelled

---
 eventsource/manager.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/eventsource/manager.go b/eventsource/manager.go
index 222ec59..3dc14c4 100644
--- a/eventsource/manager.go
+++ b/eventsource/manager.go
@@ -261,6 +261,9 @@ func (m *Manager) sendKeepalives(ctx context.Context) {
 	// start with sending beacon
 	for {
 		if err := sendWithTimeout(ctx, beaconInterval, beaconSender, beaconMessage.Encode()); err != nil {
+			if ctx.Err() != nil {
+				return
+			}
 			slog.Error("error sending initial beacon message", slog.Any("error", err))
 			continue
 		}
@@ -273,7 +276,9 @@ func (m *Manager) sendKeepalives(ctx context.Context) {
 	}
 
 	beaconTimer := time.NewTicker(beaconInterval)
+	defer beaconTimer.Stop()
 	heartbeatTimer := time.NewTicker(heartbeatInterval)
+	defer heartbeatTimer.Stop()
 	heartbeatTimeouts := 0
 	firstHeartbeatSent := false
 	for {
-- 
2.43.0


From c9604538de44c8a3a755dd37d103c719150dc7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:34 +0000
Subject: [PATCH 10/25] fix: a store that fails to list does not block the
 manager forever

---
 eventsource/manager.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/eventsource/manager.go b/eventsource/manager.go
index 3dc14c4..03a3b03 100644
--- a/eventsource/manager.go
+++ b/eventsource/manager.go
@@ -200,7 +200,10 @@ func (m *Manager) serve(ctx context.Context) {
 						return
 					}
 					slog.Error("flush error listing resources", slog.Any("error", err))
-					continue // probably bad.
+					// skip the rest of this store
+					flushStoreQ = flushStoreQ[1:]
+					selector.Continue = ""
+					continue
 				}
 				selector.Continue = result.Continue
 				if result.Continue == "" {
-- 
2.43.0


From c4454f9a92d421628214a9fb1aec134a9a406f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:03 +0000
Subject: [PATCH 11/25] fix: honor the credit requested for a receiver

---
 session/container.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/session/container.go b/session/container.go
index a8116c7..154bb0b 100644
--- a/session/container.go
+++ b/session/container.go
@@ -22,7 +22,7 @@ type ReceiverOptions struct {
 
 func (o ReceiverOptions) get() amqp.ReceiverOptions {
 	var result amqp.ReceiverOptions
-	if o.Credit <= 0 {
+	if o.Credit > 0 {
 		result.Credit = int32(o.Credit)
 	}
 	return result
-- 
2.43.0


From 3a9889f8d99d8b79739446c8fb02826c0bc5cf26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:04 +0000
Subject: [PATCH 12/25] fix: close the connection when no session can be
 created on it

---
 session/container.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/session/container.go b/session/container.go
index 154bb0b..7ec939c 100644
--- a/session/container.go
+++ b/session/container.go
@@ -176,6 +176,7 @@ func (c *container) Start(ctx context.Context) {
 				}
 				sess, err := conn.NewSession(ctx, nil)
 				if err != nil {
+					conn.Close()
 					return fmt.Errorf("session create error: %s", err)
 				}
 				generation++
-- 
2.43.0


From b8cccf5f33a64c5d40be9a98d1fbca71de634ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:05 +0000
Subject: [PATCH 13/25] fix: call session error handlers without holding the
 container lock

---
 session/container.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/session/container.go b/session/container.go
index 7ec939c..b7dfefb 100644
--- a/session/container.go
+++ b/session/container.go
@@ -128,6 +128,16 @@ func (c *container) OnSessionError(handler func(error)) {
 	c.errorHandlers = append(c.errorHandlers, handler)
 }
 
+// getErrorHandlers returns a copy of the handlers so that they can be called
+// without holding the lock.
+func (c *container) getErrorHandlers() []func(error) {
+	c.mu.Lock()
+	defer c.mu.Unlock()
+	handlers := make([]func(error), len(c.errorHandlers))
+	copy(handlers, c.errorHandlers)
+	return handlers
+}
+
 func (c *container) awaitNextSession(ctx context.Context, prev int) (session *amqp.Session, gen int, err error) {
 	c.mu.Lock()
 	session, gen, hasNext := c.sess, c.gen, c.hasNext
@@ -210,11 +220,9 @@ func (c *container) Start(ctx context.Context) {
 			b,
 			func(err error, d time.Duration) {
 				wErr := errSessionRestart{Err: err, D: d}
-				c.mu.Lock()
-				for _, handler := range c.errorHandlers {
+				for _, handler := range c.getErrorHandlers() {
 					handler(wErr)
 				}
-				c.mu.Unlock()
 			},
 		)
 		defer prevSessionTeardown()
@@ -223,9 +231,7 @@ func (c *container) Start(ctx context.Context) {
 				return
 			}
 			wErr := fmt.Errorf("error caused contianer to close: %w", err)
-			c.mu.Lock()
-			defer c.mu.Unlock()
-			for _, handler := range c.errorHandlers {
+			for _, handler := range c.getErrorHandlers() {
 				handler(wErr)
 			}
 		}
-- 
2.43.0


From 84154524752d10c8865991c6c13b3de6e6180bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:06 +0000
Subject: [PATCH 14/25] fix: closed links stay closed and failures are reported
 for the session they occurred on

---
 session/container.go | 83 +++++++++++++++++++++++++++++++++-----------
 1 file changed, 62 insertions(+), 21 deletions(-)

diff --git a/session/container.go b/session/container.go
index b7dfefb..a18d94b 100644
--- a/session/container.go
+++ b/session/container.go
@@ -295,7 +295,12 @@ type link struct {
 	snd     *amqp.Sender
 }
 
-var errLinkClosed = errors.New("link closed")
+var (
+	errLinkClosed = errors.New("link closed")
+	// errSessionLost is returned when the session was dropped by another
+	// operation on the same link
+	errSessionLost = errors.New("session lost")
+)
 
 func (r *link) awaitSession(ctx context.Context) error {
 	r.mu.Lock()
@@ -312,65 +317,94 @@ func (r *link) awaitSession(ctx context.Context) error {
 		return err
 	}
 	r.mu.Lock()
+	defer r.mu.Unlock()
+	if r.closed {
+		return errLinkClosed
+	}
 	r.curr, r.currGen = next, nextGen
-	r.mu.Unlock()
 	return nil
 }
 
 func (r *link) withReceiver(ctx context.Context, fn func(receiver *amqp.Receiver, generation int) error) error {
 	if err := r.awaitSession(ctx); err != nil {
-		return r.handleError(ctx, fmt.Errorf("session await error: %w", err))
+		return fmt.Errorf("session await error: %w", err)
 	}
 	rcv, currGen, err := r.getReceiver(ctx)
 	if err != nil {
-		return r.handleError(ctx, fmt.Errorf("receiver create error: %w", err))
+		return r.handleError(ctx, currGen, fmt.Errorf("receiver create error: %w", err))
 	}
 	if err := fn(rcv, currGen); err != nil {
-		return r.handleError(ctx, err)
+		return r.handleError(ctx, currGen, err)
 	}
 	return nil
 }
 
 func (r *link) withSender(ctx context.Context, fn func(sender *amqp.Sender, generation int) error) error {
 	if err := r.awaitSession(ctx); err != nil {
-		return r.handleError(ctx, fmt.Errorf("session await error: %w", err))
+		return fmt.Errorf("session await error: %w", err)
 	}
 	snd, currGen, err := r.getSender(ctx)
 	if err != nil {
-		return r.handleError(ctx, fmt.Errorf("sender create error: %w", err))
+		return r.handleError(ctx, currGen, fmt.Errorf("sender create error: %w", err))
 	}
 	if err := fn(snd, currGen); err != nil {
-		return r.handleError(ctx, err)
+		return r.handleError(ctx, currGen, err)
 	}
 	return nil
 }
 
-func (r *link) handleError(ctx context.Context, err error) error {
+// handleError reports an error that occurred using the session with the given
+// generation and forgets about that session.
+func (r *link) handleError(ctx context.Context, generation int, err error) error {
 	if errors.Is(err, ctx.Err()) {
 		return err
 	}
-	if errors.Is(err, errLinkClosed) {
+	if errors.Is(err, errLinkClosed) || errors.Is(err, errSessionLost) {
 		return err
 	}
-	r.sessionErrors <- sessionErr{
-		Generation: r.currGen,
+	r.mu.Lock()
+	closed := r.closed
+	if !closed && r.currGen == generation {
+		r.curr, r.rcv, r.snd = nil, nil, nil
+	}
+	r.mu.Unlock()
+	if closed {
+		return errLinkClosed
+	}
+	select {
+	case r.sessionErrors <- sessionErr{
+		Generation: generation,
 		Err:        err,
+	}:
+	case <-ctx.Done():
 	}
-	r.mu.Lock()
-	defer r.mu.Unlock()
-	r.curr, r.rcv, r.snd = nil, nil, nil
 	return err
 }
 
+// usable reports why the link has no session to use. Must be called with the
+// lock held.
+func (r *link) usable() error {
+	if r.closed {
+		return errLinkClosed
+	}
+	if r.curr == nil {
+		return errSessionLost
+	}
+	return nil
+}
+
 func (r *link) getReceiver(ctx context.Context) (*amqp.Receiver, int, error) {
 	r.mu.Lock()
 	defer r.mu.Unlock()
+	if err := r.usable(); err != nil {
+		return nil, r.currGen, err
+	}
 	if r.rcv != nil && r.rcvGen == r.currGen {
 		return r.rcv, r.rcvGen, nil
 	}
 	rcv, err := r.curr.NewReceiver(ctx, r.address, &amqp.ReceiverOptions{Credit: int32(r.receiverOpts.Credit)})
 	if err != nil {
-		return nil, 0, err
+		return nil, r.currGen, err
 	}
 	r.rcv, r.rcvGen = rcv, r.currGen
 	return r.rcv, r.rcvGen, nil
@@ -379,12 +413,15 @@ func (r *link) getReceiver(ctx context.Context) (*amqp.Receiver, int, error) {
 func (r *link) getSender(ctx context.Context) (*amqp.Sender, int, error) {
 	r.mu.Lock()
 	defer r.mu.Unlock()
+	if err := r.usable(); err != nil {
+		return nil, r.currGen, err
+	}
 	if r.snd != nil && r.sndGen == r.currGen {
 		return r.snd, r.sndGen, nil
 	}
 	snd, err := r.curr.NewSender(ctx, r.address, &r.senderOpts)
 	if err != nil {
-		return nil, 0, err
+		return nil, r.currGen, err
 	}
 	r.snd, r.sndGen = snd, r.currGen
 	return r.snd, r.sndGen, nil
@@ -402,7 +439,7 @@ func (r *link) Next(ctx context.Context) (*amqp.Message, error) {
 		result = msg
 		return nil
 	})
-	if err != nil && ctx.Err() == nil {
+	if err != nil && ctx.Err() == nil && !errors.Is(err, errLinkClosed) {
 		return r.Next(ctx)
 	}
 	return result, err
@@ -455,10 +492,14 @@ func (r *link) Close(ctx context.Context) error {
 	r.mu.Lock()
 	defer r.mu.Unlock()
 	r.closed = true
-	rcv := r.rcv
+	rcv, snd := r.rcv, r.snd
 	r.curr, r.rcv, r.snd = nil, nil, nil
+	var rcvErr, sndErr error
 	if rcv != nil {
-		return rcv.Close(ctx)
+		rcvErr = rcv.Close(ctx)
 	}
-	return nil
+	if snd != nil {
+		sndErr = snd.Close(ctx)
+	}
+	return errors.Join(rcvErr, sndErr)
 }
-- 
2.43.0


From 4bf7ff11b2dba5c3b79f7082bd183fe0e52373bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:07 +0000
Subject: [PATCH 15/25] fix: mock sender no longer blocks forever on a closed
 or full receiver

---
 session/mock.go | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/session/mock.go b/session/mock.go
index fced8ad..bcca521 100644
--- a/session/mock.go
+++ b/session/mock.go
@@ -92,12 +92,16 @@ func newMulticast() *multicast {
 func (m *multicast) send(ctx context.Context, msg *amqp.Message) error {
 	m.mu.Lock()
 	update := m.update
+	receivers := make([]*mockReceiver, len(m.receivers))
+	copy(receivers, m.receivers)
+	m.mu.Unlock()
 	var sent bool
-	for _, r := range m.receivers {
+	for _, r := range receivers {
 		sent = true
-		r.send(msg)
+		if err := r.send(ctx, msg); err != nil {
+			return err
+		}
 	}
-	m.mu.Unlock()
 	if !sent {
 		select {
 		case <-ctx.Done():
@@ -123,12 +127,14 @@ type mockReceiver struct {
 	done      chan struct{}
 }
 
-func (r *mockReceiver) send(msg *amqp.Message) {
+func (r *mockReceiver) send(ctx context.Context, msg *amqp.Message) error {
 	select {
 	case <-r.done:
-		return
-	default:
-		r.channel <- msg
+		return nil
+	case <-ctx.Done():
+		return ctx.Err()
+	case r.channel <- msg:
+		return nil
 	}
 }
 func (r *mockReceiver) Next(ctx context.Context) (*amqp.Message, error) {
-- 
2.43.0


From c0faefc4ddeef6ffde77a4716eed9052a2ed88e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:08 +0000
Subject: [PATCH 16/25] fix: accumulate under the same key that get and delete
 use

---
 store/cache.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/store/cache.go b/store/cache.go
index e4d2ed4..98749c5 100644
--- a/store/cache.go
+++ b/store/cache.go
@@ -76,7 +76,11 @@ func NewDefaultCachingStore(cfg CacheConfig) Interface {
 }
 
 func (c *objectCache) Accumulate(source SourceRef, partial vanflow.Record) error {
-	key, err := c.keyFunc(Entry{Record: partial})
+	key, err := c.keyFunc(Entry{
+		Meta:     Metadata{Source: source},
+		TypeMeta: partial.GetTypeMeta(),
+		Record:   partial,
+	})
 	if err != nil {
 		return fmt.Errorf("error getting key for accumulate: %w", err)
 	}
-- 
2.43.0


From ba072f6e803a21bd1ab52c1bd6a6d07cc22bb365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:09 +0000
Subject: [PATCH 17/25] fix: do not raise events for a failed accumulate

---
 store/cache.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/store/cache.go b/store/cache.go
index 98749c5..0d6645a 100644
--- a/store/cache.go
+++ b/store/cache.go
@@ -88,6 +88,9 @@ func (c *objectCache) Accumulate(source SourceRef, partial vanflow.Record) error
 	if errors.Is(err, errNoChange) { // okay
 		return nil
 	}
+	if err != nil {
+		return err
+	}
 
 	if d.Prev != nil && c.eventHandlers.OnChange != nil {
 		c.eventHandlers.OnChange(*d.Prev, d.Next)
-- 
2.43.0


From a01e85d4c7cffbf27dd43316d27c6aab715685c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:10 +0000
Subject: [PATCH 18/25] fix: report records that can not be merged instead of
 panicking

---
 store/patcher.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/store/patcher.go b/store/patcher.go
index f2ea6bb..769739c 100644
--- a/store/patcher.go
+++ b/store/patcher.go
@@ -49,6 +49,13 @@ func (p recordPatcher) Patch(curr *Entry) (next Entry, err error) {
 	}
 	entry.Meta.UpdatedAt = time.Now()
 	rawOut, err := encoding.Decode(currAttrs)
-	entry.Record = rawOut.(vanflow.Record)
-	return entry, err
+	if err != nil {
+		return next, fmt.Errorf("error decoding merged record: %w", err)
+	}
+	record, ok := rawOut.(vanflow.Record)
+	if !ok {
+		return next, fmt.Errorf("merged record of type %T is not a record", rawOut)
+	}
+	entry.Record = record
+	return entry, nil
 }
-- 
2.43.0


From 203f19b3a7780b1c4bb278447584b41892050d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:11 +0000
Subject: [PATCH 19/25] fix: never give the version of a deleted or replaced
 entry to another one

---
 store/internal/cache.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/store/internal/cache.go b/store/internal/cache.go
index e6c3b95..fb5706e 100644
--- a/store/internal/cache.go
+++ b/store/internal/cache.go
@@ -24,6 +24,9 @@ type Patcher[T any] interface {
 type SyncIndexedMap[T any] struct {
 	mu    sync.RWMutex
 	items map[string]VersionContainer[T]
+	// version most recently given to an item. Not reused when an item is
+	// deleted or replaced.
+	version int64
 
 	indexers map[string]Indexer[T]
 	indicies map[string]Index
@@ -57,7 +60,8 @@ func (m *SyncIndexedMap[T]) Patch(key string, patcher Patcher[T], cond ...Cond[T
 		return delta, fmt.Errorf("patch apply error: %w", err)
 	}
 	cc.Resource = obj
-	cc.Version++
+	m.version++
+	cc.Version = m.version
 	m.items[key] = cc
 	m.reindex(key, prev, obj)
 	delta.Prev = prev
@@ -81,7 +85,8 @@ func (m *SyncIndexedMap[T]) Update(key string, obj T, cond ...Cond[T]) (Delta[T]
 		prev = &tmp
 	}
 	cc.Resource = obj
-	cc.Version++
+	m.version++
+	cc.Version = m.version
 	m.items[key] = cc
 	m.reindex(key, prev, obj)
 	delta.Prev = prev
@@ -112,10 +117,8 @@ func (m *SyncIndexedMap[T]) Replace(items map[string]T) {
 	defer m.mu.Unlock()
 	itemcc := make(map[string]VersionContainer[T], len(items))
 	for k, v := range items {
-		prevcc := m.items[k]
-		prevcc.Resource = v
-		prevcc.Version++
-		itemcc[k] = prevcc
+		m.version++
+		itemcc[k] = VersionContainer[T]{Resource: v, Version: m.version}
 	}
 	m.items = itemcc
 
-- 
2.43.0


From 451d98d0fc3f103b03b563a4f95691d3488bcd0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:11 +0000
Subject: [PATCH 20/25] fix: selectors with a negative offset or forged
 continue token no longer panic

---
 store/cache.go    | 5 ++++-
 store/continue.go | 3 +++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/store/cache.go b/store/cache.go
index 0d6645a..740ae8c 100644
--- a/store/cache.go
+++ b/store/cache.go
@@ -121,7 +121,7 @@ func (c *objectCache) applySelector(result Set, sel Selector) (Set, error) {
 		kj, _ := c.keyFunc(result.Entries[j])
 		delta := strings.Compare(ki, kj)
 		if sel.Ordering == Descending {
-			return delta >= 0
+			return delta > 0
 		}
 		return delta < 0
 	})
@@ -134,6 +134,9 @@ func (c *objectCache) applySelector(result Set, sel Selector) (Set, error) {
 		}
 	}
 
+	if offset < 0 {
+		offset = 0
+	}
 	if offset >= len(result.Entries) {
 		result.Entries = result.Entries[0:0] // empty resultset
 	} else {
diff --git a/store/continue.go b/store/continue.go
index 5bb2f76..4c3b957 100644
--- a/store/continue.go
+++ b/store/continue.go
@@ -24,6 +24,9 @@ func decodeCacheContinue(token string) (int, error) {
 	buf := bytes.NewReader(out)
 	var container cacheContinueToken
 	err = binary.Read(buf, binary.LittleEndian, &container)
+	if err == nil && container.Offset < 0 {
+		err = fmt.Errorf("invalid continue token: negative offset %d", container.Offset)
+	}
 	return int(container.Offset), err
 }
 
-- 
2.43.0


From 4f817498f6564b6392926a5069ac2d7457486d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:12 +0000
Subject: [PATCH 21/25] fix: fixture container errors name the manager they
 belong to

---
 cmd/vanflow-tool/fixture.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmd/vanflow-tool/fixture.go b/cmd/vanflow-tool/fixture.go
index 179dac6..8d803f6 100644
--- a/cmd/vanflow-tool/fixture.go
+++ b/cmd/vanflow-tool/fixture.go
@@ -103,6 +103,7 @@ func (f *fixtureServer) Start(ctx context.Context) {
 				defer manageCancel()
 				managers = map[string]*eventsource.Manager{}
 				for src, stor := range config {
+					src := src // captured by the error handler
 					container := f.factory.Create()
 					container.Start(ctx)
 					container.OnSessionError(func(err error) {
-- 
2.43.0


From 4afb11ef0af771f1e611f78e6acb7c0232da74d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:13 +0000
Subject: [PATCH 22/25] fix: fixture flow requests can not crash the server

---
 cmd/vanflow-tool/fixture.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/cmd/vanflow-tool/fixture.go b/cmd/vanflow-tool/fixture.go
index 8d803f6..37f1025 100644
--- a/cmd/vanflow-tool/fixture.go
+++ b/cmd/vanflow-tool/fixture.go
@@ -184,6 +184,9 @@ func (f *fixtureServer) ServeFixture(rw http.ResponseWriter, r *http.Request) {
 	enc.Encode(response)
 }
 
+// maxFixtureFlows limits the number of flows that can be requested at once
+const maxFixtureFlows = 1_000_000
+
 type flowPair struct {
 	Server store.Entry
 	Client store.Entry
@@ -214,9 +217,14 @@ func (f *fixtureServer) ServeFlows(rw http.ResponseWriter, r *http.Request) {
 	}
 	var flowPairs []flowPair
 	for serverID, clientID := range flowPairsIDs {
+		client, ok := flowEntries[clientID]
+		if !ok {
+			slog.Info("skipping flow without counterflow record", slog.String("flow", serverID), slog.String("counterflow", clientID))
+			continue
+		}
 		flowPairs = append(flowPairs, flowPair{
 			Server: flowEntries[serverID],
-			Client: flowEntries[clientID],
+			Client: client,
 		})
 	}
 	if r.Method == http.MethodPost {
@@ -236,6 +244,11 @@ func (f *fixtureServer) ServeFlows(rw http.ResponseWriter, r *http.Request) {
 			return
 		}
 
+		if request.Flows < 0 || request.Flows > maxFixtureFlows {
+			rw.WriteHeader(http.StatusBadRequest)
+			fmt.Fprintf(rw, "Bad request: flows must be between 0 and %d\n", maxFixtureFlows)
+			return
+		}
 		for _, pair := range flowPairs {
 			go f.fakeFlow(pair, f.managers[pair.Server.Meta.Source.Name], f.managers[pair.Client.Meta.Source.Name], request.Flows, time.Second*time.Duration(request.Duration), 4)
 		}
-- 
2.43.0


From 4c5a97e44def0e1fb118835076d4790b8a343667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:36 +0000
Subject: [PATCH 23/25] fix: refuse timestamps whose microseconds would wrap
 instead of sending another time

---
 base.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/base.go b/base.go
index 6d1e37d..49ed288 100644
--- a/base.go
+++ b/base.go
@@ -57,6 +57,10 @@ func (t Time) EncodeRecordAttribute() (any, error) {
 	if t.Time.IsZero() {
 		return nil, encoding.ErrAttributeNotSet
 	}
+	// the number of microseconds is only defined in the range of an int64
+	if t.Time.Before(time.UnixMicro(math.MinInt64)) || t.Time.After(time.UnixMicro(math.MaxInt64)) {
+		return nil, fmt.Errorf("cannot represent time in this encoding: %s", t.Time)
+	}
 	ts := t.Time.UnixMicro()
 	if ts < 0 {
 		return nil, fmt.Errorf("cannot represent times before epoch in this encoding: %d", ts)
-- 
2.43.0


From f71d94f6ecc58e03845f8d2d8ddb9cff810276b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:56 +0000
Subject: [PATCH 24/25] fix: message decoders do not panic on messages without
 a properties section

---
 messages.go | 52 ++++++++++++++++++++++++++++++++--------------------
 1 file changed, 32 insertions(+), 20 deletions(-)

diff --git a/messages.go b/messages.go
index 85458ea..0dcb486 100644
--- a/messages.go
+++ b/messages.go
@@ -40,6 +40,14 @@ func Decode(msg *amqp.Message) (interface{}, error) {
 	}
 }
 
+// properties of a message, empty when the message has no properties section
+func properties(msg *amqp.Message) amqp.MessageProperties {
+	if msg.Properties == nil {
+		return amqp.MessageProperties{}
+	}
+	return *msg.Properties
+}
+
 type BeaconMessage struct {
 	MessageProps
 	Version    uint32
@@ -51,14 +59,15 @@ type BeaconMessage struct {
 
 func DecodeBeacon(msg *amqp.Message) BeaconMessage {
 	var m BeaconMessage
-	if msg.Properties.To != nil {
-		m.To = *msg.Properties.To
+	props := properties(msg)
+	if props.To != nil {
+		m.To = *props.To
 	}
-	if msg.Properties.Subject != nil {
-		m.Subject = *msg.Properties.Subject
+	if props.Subject != nil {
+		m.Subject = *props.Subject
 	}
-	if msg.Properties.ReplyTo != nil {
-		m.ReplyTo = *msg.Properties.ReplyTo
+	if props.ReplyTo != nil {
+		m.ReplyTo = *props.ReplyTo
 	}
 	if version, ok := msg.ApplicationProperties["v"].(uint32); ok {
 		m.Version = version
@@ -109,11 +118,12 @@ type HeartbeatMessage struct {
 
 func DecodeHeartbeat(msg *amqp.Message) HeartbeatMessage {
 	var m HeartbeatMessage
-	if msg.Properties.To != nil {
-		m.To = *msg.Properties.To
+	props := properties(msg)
+	if props.To != nil {
+		m.To = *props.To
 	}
-	if msg.Properties.Subject != nil {
-		m.Subject = *msg.Properties.Subject
+	if props.Subject != nil {
+		m.Subject = *props.Subject
 	}
 
 	if version, ok := msg.ApplicationProperties["v"].(uint32); ok {
@@ -149,14 +159,15 @@ type FlushMessage struct {
 
 func DecodeFlush(msg *amqp.Message) FlushMessage {
 	var flush FlushMessage
-	if msg.Properties.To != nil {
-		flush.To = *msg.Properties.To
+	props := properties(msg)
+	if props.To != nil {
+		flush.To = *props.To
 	}
-	if msg.Properties.Subject != nil {
-		flush.Subject = *msg.Properties.Subject
+	if props.Subject != nil {
+		flush.Subject = *props.Subject
 	}
-	if msg.Properties.ReplyTo != nil {
-		flush.ReplyTo = *msg.Properties.ReplyTo
+	if props.ReplyTo != nil {
+		flush.ReplyTo = *props.ReplyTo
 	}
 	return flush
 }
@@ -177,11 +188,12 @@ type RecordMessage struct {
 }
 
 func DecodeRecord(msg *amqp.Message) (record RecordMessage, err error) {
-	if msg.Properties.To != nil {
-		record.To = *msg.Properties.To
+	props := properties(msg)
+	if props.To != nil {
+		record.To = *props.To
 	}
-	if msg.Properties.Subject != nil {
-		record.Subject = *msg.Properties.Subject
+	if props.Subject != nil {
+		record.Subject = *props.Subject
 	}
 	record.Records, err = decodeRecords(msg)
 	return record, err
-- 
2.43.0


From ec8654f1280999c0ab82cd086dee5e2507615f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:58 +0000
Subject: [PATCH 25/25] fix: vancap port forward failures no longer overwrite
 the error of the capture itself

---
 vancap/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vancap/main.go b/vancap/main.go
index 1d49559..e6e6944 100644
--- a/vancap/main.go
+++ b/vancap/main.go
@@ -229,7 +229,7 @@ func (v Vancap) Run(ctx context.Context) error {
 	forwardErr := make(chan error, 1)
 	go func() {
 		slog.Debug("starting port forward to capture vanflow state")
-		if err = forwarder.ForwardPorts(); err != nil {
+		if err := forwarder.ForwardPorts(); err != nil {
 			forwardErr <- err
 		}
 	}()
-- 
2.43.0

