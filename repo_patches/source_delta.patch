From 2ac89b91fbdee93455f3de61644b2149470c4146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:22 +0000
Subject: [PATCH 01/48] fix: send alert level before alert description

---
 conn.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conn.go b/conn.go
index ccf8dc1..81e623a 100644
--- a/conn.go
+++ b/conn.go
@@ -521,7 +521,7 @@ func (c *Conn) sendAlert(err Alert) error {
 		level = AlertLevelError
 	}
 
-	buf := []byte{byte(err), byte(level)}
+	buf := []byte{byte(level), byte(err)}
 	c.out.WriteRecord(&TLSPlaintext{
 		contentType: RecordTypeAlert,
 		fragment:    buf,
-- 
2.43.0


From 45bc88641d9904fa715149ca0d730197ab4e7153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:28 +0000
Subject: [PATCH 02/48] fix: check the length of an alert before reading it

---
 handshake-layer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/handshake-layer.go b/handshake-layer.go
index ae11cb8..6570af9 100644
--- a/handshake-layer.go
+++ b/handshake-layer.go
@@ -202,11 +202,11 @@ func (h *HandshakeLayer) readRecord() error {
 	}
 
 	if pt.contentType == RecordTypeAlert {
-		logf(logTypeIO, "read alert %v", pt.fragment[1])
-		if len(pt.fragment) < 2 {
+		if len(pt.fragment) != 2 {
 			h.sendAlert(AlertUnexpectedMessage)
 			return io.EOF
 		}
+		logf(logTypeIO, "read alert %v", pt.fragment[1])
 		return Alert(pt.fragment[1])
 	}
 
-- 
2.43.0


From eef56084bf20b7e9da0a35c047aed375b13fe59c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:34 +0000
Subject: [PATCH 03/48] fix: reject a record that contains nothing but padding

---
 record-layer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/record-layer.go b/record-layer.go
index ccb90bd..d6a1630 100644
--- a/record-layer.go
+++ b/record-layer.go
@@ -285,7 +285,10 @@ func (r *DefaultRecordLayer) decrypt(seq uint64, header []byte, pt *TLSPlaintext
 
 	// Find the padding boundary
 	padLen := 0
-	for ; padLen < decryptLen+1 && out.fragment[decryptLen-padLen-1] == 0; padLen++ {
+	for ; padLen < decryptLen && out.fragment[decryptLen-padLen-1] == 0; padLen++ {
+	}
+	if padLen == decryptLen {
+		return nil, 0, DecryptError("tls.record.decrypt: No content type in record")
 	}
 
 	// Transfer the content type
-- 
2.43.0


From b5fa3fd3c428d37fe71c9d332c45f116e2bae302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:31 +0000
Subject: [PATCH 04/48] fix: remove exactly the timers that expired

---
 timer.go | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/timer.go b/timer.go
index 0b7f7af..be974d0 100644
--- a/timer.go
+++ b/timer.go
@@ -56,20 +56,19 @@ func (ts *timerSet) start(label string, cb timerCb, delayMs uint32) *timer {
 // We should be able to do just one list manipulation, as long
 // as we're careful about how we handle inserts during callbacks.
 func (ts *timerSet) check(now time.Time) error {
-	for i, t := range ts.ts {
-		if now.After(t.deadline) {
-			ts.ts = append(ts.ts[:i], ts.ts[:i+1]...)
-			if t.cb != nil {
-				logf(logTypeHandshake, "Timer %s expired [%v > %v]", t.label, now, t.deadline)
-				cb := t.cb
-				t.cb = nil
-				err := cb()
-				if err != nil {
-					return err
-				}
+	for len(ts.ts) > 0 && now.After(ts.ts[0].deadline) {
+		// Take the timer off the list before running it, because the
+		// callback may start or cancel timers.
+		t := ts.ts[0]
+		ts.ts = ts.ts[1:]
+		if t.cb != nil {
+			logf(logTypeHandshake, "Timer %s expired [%v > %v]", t.label, now, t.deadline)
+			cb := t.cb
+			t.cb = nil
+			err := cb()
+			if err != nil {
+				return err
 			}
-		} else {
-			break
 		}
 	}
 	return nil
-- 
2.43.0


From 863b861adfd856b40c97f4753662cc7891151915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:37 +0000
Subject: [PATCH 05/48] fix: allow protected records to carry a full-size
 fragment

---
 record-layer.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/record-layer.go b/record-layer.go
index d6a1630..7ea3413 100644
--- a/record-layer.go
+++ b/record-layer.go
@@ -356,7 +356,7 @@ func (r *DefaultRecordLayer) nextRecord(allowOldEpoch bool) (*TLSPlaintext, erro
 
 	for err != nil {
 		if r.frame.needed() > 0 {
-			buf := make([]byte, r.frame.details.headerLen()+maxFragmentLen)
+			buf := make([]byte, r.frame.details.headerLen()+maxFragmentLen+256)
 			n, err := r.conn.Read(buf)
 			if err != nil {
 				logf(logTypeIO, "%s Error reading, %v", r.label, err)
@@ -498,7 +498,13 @@ func (r *DefaultRecordLayer) writeRecordWithPadding(pt *TLSPlaintext, cipher *ci
 		ciphertext = pt.fragment
 	}
 
-	if len(ciphertext) > maxFragmentLen {
+	// The limit is on the content of the record, which protection expands
+	// (RFC 8446, Section 5.2).  Padding may not be used to go past it.
+	limit := maxFragmentLen
+	if padLen == 0 && cipher.cipher != nil {
+		limit += 1 + cipher.overhead()
+	}
+	if len(ciphertext) > limit {
 		return fmt.Errorf("tls.record: Record size too big")
 	}
 
-- 
2.43.0


From 264ceaffd110f595dfbf082516edbeb84e9402c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:42 +0000
Subject: [PATCH 06/48] fix: give DTLS record layers a valid initial version

---
 record-layer.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/record-layer.go b/record-layer.go
index 7ea3413..7556134 100644
--- a/record-layer.go
+++ b/record-layer.go
@@ -152,6 +152,7 @@ func NewRecordLayerDTLS(conn io.ReadWriter, dir Direction) *DefaultRecordLayer {
 	r.direction = dir
 	r.conn = conn
 	r.frame = newFrameReader(recordLayerFrameDetails{true})
+	r.version = tls12Version
 	r.cipher = newCipherStateNull()
 	r.readCiphers = make(map[Epoch]*cipherState, 0)
 	r.readCiphers[0] = r.cipher
-- 
2.43.0


From 45ecdef1d9b13cdac685ef1b59a35109d2924453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:10 +0000
Subject: [PATCH 07/48] fix: decrypt DTLS records with the key of their own
 epoch

---
 record-layer.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/record-layer.go b/record-layer.go
index 7556134..d98c0c6 100644
--- a/record-layer.go
+++ b/record-layer.go
@@ -263,22 +263,22 @@ func (r *DefaultRecordLayer) encrypt(cipher *cipherState, seq uint64, header []b
 	return ciphertext
 }
 
-func (r *DefaultRecordLayer) decrypt(seq uint64, header []byte, pt *TLSPlaintext) (*TLSPlaintext, int, error) {
+func (r *DefaultRecordLayer) decrypt(cipher *cipherState, seq uint64, header []byte, pt *TLSPlaintext) (*TLSPlaintext, int, error) {
 	assert(r.direction == DirectionRead)
 	logf(logTypeIO, "%s Decrypt seq=[%x]", r.label, seq)
-	if len(pt.fragment) < r.cipher.overhead() {
-		msg := fmt.Sprintf("tls.record.decrypt: Record too short [%d] < [%d]", len(pt.fragment), r.cipher.overhead())
+	if len(pt.fragment) < cipher.overhead() {
+		msg := fmt.Sprintf("tls.record.decrypt: Record too short [%d] < [%d]", len(pt.fragment), cipher.overhead())
 		return nil, 0, DecryptError(msg)
 	}
 
-	decryptLen := len(pt.fragment) - r.cipher.overhead()
+	decryptLen := len(pt.fragment) - cipher.overhead()
 	out := &TLSPlaintext{
 		contentType: pt.contentType,
 		fragment:    make([]byte, decryptLen),
 	}
 
 	// Decrypt
-	_, err := r.cipher.cipher.Open(out.fragment[:0], r.cipher.computeNonce(seq), pt.fragment, header)
+	_, err := cipher.cipher.Open(out.fragment[:0], cipher.computeNonce(seq), pt.fragment, header)
 	if err != nil {
 		logf(logTypeIO, "%s AEAD decryption failure [%x]", r.label, pt)
 		return nil, 0, DecryptError("tls.record.decrypt: AEAD decrypt failed")
@@ -434,7 +434,7 @@ func (r *DefaultRecordLayer) nextRecord(allowOldEpoch bool) (*TLSPlaintext, erro
 
 	if cipher.cipher != nil {
 		logf(logTypeIO, "%s RecordLayer.ReadRecord epoch=[%s] seq=[%x] [%d] ciphertext=[%x]", r.label, cipher.epoch.label(), seq, pt.contentType, pt.fragment)
-		pt, _, err = r.decrypt(seq, header, pt)
+		pt, _, err = r.decrypt(cipher, seq, header, pt)
 		if err != nil {
 			logf(logTypeIO, "%s Decryption failed", r.label)
 			return nil, err
-- 
2.43.0


From 5e165eb3bf4b45886ccd1257e1faf2af9589f043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:16 +0000
Subject: [PATCH 08/48] fix: acknowledge unprotected DTLS records by their own
 number

---
 record-layer.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/record-layer.go b/record-layer.go
index d98c0c6..4ca22fd 100644
--- a/record-layer.go
+++ b/record-layer.go
@@ -441,6 +441,7 @@ func (r *DefaultRecordLayer) nextRecord(allowOldEpoch bool) (*TLSPlaintext, erro
 		}
 	}
 	pt.epoch = cipher.epoch
+	pt.seq = seq
 
 	// Check that plaintext length is not too long
 	if len(pt.fragment) > maxFragmentLen {
-- 
2.43.0


From 73246d9c0e1ac993dc91ee722d7c94b0c3b249d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:22 +0000
Subject: [PATCH 09/48] fix: remember DTLS fragments under the number of the
 record that carries them

---
 handshake-layer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/handshake-layer.go b/handshake-layer.go
index 6570af9..092f5e1 100644
--- a/handshake-layer.go
+++ b/handshake-layer.go
@@ -474,7 +474,7 @@ func (h *HandshakeLayer) writeFragment(hm *HandshakeMessage, start int, room int
 			hm.seq,
 			start,
 			len(body),
-			h.conn.(*DefaultRecordLayer).cipher.combineSeq(true),
+			hm.cipher.combineSeq(true),
 			false,
 		})
 		err = h.conn.(*DefaultRecordLayer).writeRecordWithPadding(
-- 
2.43.0


From e9cca7e5fd11544bd549539f75112309cd56ad18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:28 +0000
Subject: [PATCH 10/48] fix: reassemble DTLS messages only from their own
 fragments

---
 handshake-layer.go | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/handshake-layer.go b/handshake-layer.go
index 092f5e1..16388d4 100644
--- a/handshake-layer.go
+++ b/handshake-layer.go
@@ -247,12 +247,9 @@ func (h *HandshakeLayer) sendAlert(err Alert) error {
 
 func (h *HandshakeLayer) noteMessageDelivered(seq uint32) {
 	h.msgSeq = seq + 1
-	var i int
-	var m *HandshakeMessage
-	for i, m = range h.queued {
-		if m.seq > seq {
-			break
-		}
+	i := 0
+	for i < len(h.queued) && h.queued[i].seq <= seq {
+		i++
 	}
 	h.queued = h.queued[i:]
 }
@@ -262,6 +259,12 @@ func (h *HandshakeLayer) newFragmentReceived(hm *HandshakeMessage) (*HandshakeMe
 		return nil, nil
 	}
 
+	// Drop fragments that don't lie within their message.
+	if uint64(hm.offset)+uint64(len(hm.body)) > uint64(hm.length) {
+		logf(logTypeHandshake, "Dropping DTLS fragment outside of its message")
+		return nil, nil
+	}
+
 	// TODO(ekr@rtfm.com): Send an ACK immediately if we got something
 	// out of order.
 	h.ctx.receivedHandshakeMessage()
@@ -280,7 +283,7 @@ func (h *HandshakeLayer) newFragmentReceived(hm *HandshakeMessage) (*HandshakeMe
 		if hm.seq < f.seq {
 			break
 		}
-		if hm.offset < f.offset {
+		if hm.seq == f.seq && hm.offset < f.offset {
 			break
 		}
 	}
@@ -324,6 +327,10 @@ func (h *HandshakeLayer) checkMessageAvailable() (*HandshakeMessage, error) {
 			return nil, fmt.Errorf("Mismatched DTLS length")
 		}
 
+		if f.msgType != hm.msgType {
+			return nil, fmt.Errorf("Mismatched DTLS message type")
+		}
+
 		if f.offset > end {
 			break
 		}
-- 
2.43.0


From 250d3fc918f75cd94ec891b56ad88946c0d7530d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:13 +0000
Subject: [PATCH 11/48] fix: clone the record layer factory with the rest of a
 configuration

---
 conn.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/conn.go b/conn.go
index 81e623a..8987f8c 100644
--- a/conn.go
+++ b/conn.go
@@ -169,6 +169,8 @@ func (c *Config) Clone() *Config {
 		PSKModes:              c.PSKModes,
 		NonBlocking:           c.NonBlocking,
 		UseDTLS:               c.UseDTLS,
+
+		RecordLayer: c.RecordLayer,
 	}
 }
 
-- 
2.43.0


From 04d1dc764b2795a3fbb1c61c6898eaefd252f700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:18 +0000
Subject: [PATCH 12/48] fix: hash the exporter context instead of prepending it
 to an empty hash

---
 conn.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/conn.go b/conn.go
index 8987f8c..6422e19 100644
--- a/conn.go
+++ b/conn.go
@@ -887,8 +887,9 @@ func (c *Conn) ComputeExporter(label string, context []byte, keyLength int) ([]b
 	h0 := c.state.cryptoParams.Hash.New().Sum(nil)
 	tmpSecret := deriveSecret(c.state.cryptoParams, c.state.exporterSecret, label, h0)
 
-	hc := c.state.cryptoParams.Hash.New().Sum(context)
-	return HkdfExpandLabel(c.state.cryptoParams.Hash, tmpSecret, "exporter", hc, keyLength), nil
+	hc := c.state.cryptoParams.Hash.New()
+	hc.Write(context)
+	return HkdfExpandLabel(c.state.cryptoParams.Hash, tmpSecret, "exporter", hc.Sum(nil), keyLength), nil
 }
 
 func (c *Conn) ConnectionState() ConnectionState {
-- 
2.43.0


From d2b1b928761ef441c1bc3ead25b0ec72130797c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:24 +0000
Subject: [PATCH 13/48] fix: lock the ticket cache that connections share

---
 conn.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/conn.go b/conn.go
index 6422e19..53ee706 100644
--- a/conn.go
+++ b/conn.go
@@ -49,16 +49,25 @@ type CookieHandler interface {
 
 type PSKMapCache map[string]PreSharedKey
 
+// A PSKMapCache is shared by the connections that share a Config.
+var pskMapCacheMutex sync.RWMutex
+
 func (cache PSKMapCache) Get(key string) (psk PreSharedKey, ok bool) {
+	pskMapCacheMutex.RLock()
+	defer pskMapCacheMutex.RUnlock()
 	psk, ok = cache[key]
 	return
 }
 
 func (cache *PSKMapCache) Put(key string, psk PreSharedKey) {
+	pskMapCacheMutex.Lock()
+	defer pskMapCacheMutex.Unlock()
 	(*cache)[key] = psk
 }
 
 func (cache PSKMapCache) Size() int {
+	pskMapCacheMutex.RLock()
+	defer pskMapCacheMutex.RUnlock()
 	return len(cache)
 }
 
-- 
2.43.0


From 00e5fc6772741bd73c6c2bafde162a72fbdf94a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:50 +0000
Subject: [PATCH 14/48] fix: create the default cookie protector under the
 configuration's lock

---
 conn.go | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/conn.go b/conn.go
index 53ee706..cc49b28 100644
--- a/conn.go
+++ b/conn.go
@@ -209,6 +209,25 @@ func (c *Config) Init(isClient bool) error {
 	return nil
 }
 
+func (c *Config) initCookieProtector() error {
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
+
+	if c.CookieProtector != nil {
+		return nil
+	}
+	logf(logTypeHandshake, "RequireCookie set, but no CookieProtector provided. Using default cookie protector. Stateless Retry not possible.")
+	if c.NonBlocking {
+		return errors.New("Default cookie protector not possible in non-blocking mode")
+	}
+	protector, err := NewDefaultCookieProtector()
+	if err != nil {
+		return err
+	}
+	c.CookieProtector = protector
+	return nil
+}
+
 func (c *Config) ValidForServer() bool {
 	return (reflect.ValueOf(c.PSKs).IsValid() && c.PSKs.Size() > 0) ||
 		(len(c.Certificates) > 0 &&
@@ -683,16 +702,9 @@ func (c *Conn) HandshakeSetup() Alert {
 			}
 		}
 	} else {
-		if c.config.RequireCookie && c.config.CookieProtector == nil {
-			logf(logTypeHandshake, "RequireCookie set, but no CookieProtector provided. Using default cookie protector. Stateless Retry not possible.")
-			if c.config.NonBlocking {
-				logf(logTypeHandshake, "Not possible in non-blocking mode.")
-				return AlertInternalError
-			}
-			var err error
-			c.config.CookieProtector, err = NewDefaultCookieProtector()
-			if err != nil {
-				logf(logTypeHandshake, "Error initializing cookie source: %v", alert)
+		if c.config.RequireCookie {
+			if err := c.config.initCookieProtector(); err != nil {
+				logf(logTypeHandshake, "Error initializing cookie source: %v", err)
 				return AlertInternalError
 			}
 		}
-- 
2.43.0


From 037076a37c6d1d6b7ce16cadb63d6c29d4861563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:21 +0000
Subject: [PATCH 15/48] fix: hold the output lock for key updates,
 acknowledgements and alerts

---
 conn.go | 83 +++++++++++++++++++++++++++++++++++++++------------------
 1 file changed, 57 insertions(+), 26 deletions(-)

diff --git a/conn.go b/conn.go
index cc49b28..9abe983 100644
--- a/conn.go
+++ b/conn.go
@@ -368,26 +368,8 @@ func (c *Conn) consumeRecord() error {
 			// XXX: If we want to support more advanced cases, e.g., post-handshake
 			// authentication, we'll need to allow transitions other than
 			// Connected -> Connected
-			state, actions, alert := c.state.ProcessMessage(hm)
+			alert := c.processPostHandshake(hm)
 			if alert != AlertNoAlert {
-				logf(logTypeHandshake, "Error in state transition: %v", alert)
-				c.sendAlert(alert)
-				return io.EOF
-			}
-
-			for _, action := range actions {
-				alert = c.takeAction(action)
-				if alert != AlertNoAlert {
-					logf(logTypeHandshake, "Error during handshake actions: %v", alert)
-					c.sendAlert(alert)
-					return io.EOF
-				}
-			}
-
-			var connected bool
-			c.state, connected = state.(stateConnected)
-			if !connected {
-				logf(logTypeHandshake, "Disconnected after state transition: %v", alert)
 				c.sendAlert(alert)
 				return io.EOF
 			}
@@ -419,6 +401,8 @@ func (c *Conn) consumeRecord() error {
 			logf(logTypeHandshake, "Received ACK in TLS mode")
 			return AlertUnexpectedMessage
 		}
+		c.out.Lock()
+		defer c.out.Unlock()
 		return c.hsCtx.processAck(pt.fragment)
 
 	case RecordTypeApplicationData:
@@ -430,6 +414,36 @@ func (c *Conn) consumeRecord() error {
 	return err
 }
 
+// processPostHandshake handles one post-handshake message.  The response to a
+// message can use and replace the output keys, so the output channel is locked
+// until it is complete.
+func (c *Conn) processPostHandshake(hm *HandshakeMessage) Alert {
+	c.out.Lock()
+	defer c.out.Unlock()
+
+	state, actions, alert := c.state.ProcessMessage(hm)
+	if alert != AlertNoAlert {
+		logf(logTypeHandshake, "Error in state transition: %v", alert)
+		return alert
+	}
+
+	for _, action := range actions {
+		alert = c.takeAction(action)
+		if alert != AlertNoAlert {
+			logf(logTypeHandshake, "Error during handshake actions: %v", alert)
+			return alert
+		}
+	}
+
+	connected, ok := state.(stateConnected)
+	if !ok {
+		logf(logTypeHandshake, "Disconnected after state transition")
+		return AlertInternalError
+	}
+	c.state = connected
+	return AlertNoAlert
+}
+
 func readPartial(in *[]byte, buffer []byte) int {
 	logf(logTypeIO, "conn.Read input buffer now has len %d", len((*in)))
 	read := copy(buffer, *in)
@@ -473,7 +487,10 @@ func (c *Conn) Read(buffer []byte) (int, error) {
 
 	// Run our timers.
 	if c.config.UseDTLS {
-		if err := c.hsCtx.timers.check(time.Now()); err != nil {
+		c.out.Lock()
+		err := c.hsCtx.timers.check(time.Now())
+		c.out.Unlock()
+		if err != nil {
 			return 0, AlertInternalError
 		}
 	}
@@ -538,7 +555,7 @@ func (c *Conn) Write(buffer []byte) (int, error) {
 }
 
 // sendAlert sends a TLS alert message.
-// c.out.Mutex <= L.
+// The caller must not hold the lock on c.out.
 func (c *Conn) sendAlert(err Alert) error {
 	c.handshakeMutex.Lock()
 	defer c.handshakeMutex.Unlock()
@@ -552,10 +569,12 @@ func (c *Conn) sendAlert(err Alert) error {
 	}
 
 	buf := []byte{byte(level), byte(err)}
+	c.out.Lock()
 	c.out.WriteRecord(&TLSPlaintext{
 		contentType: RecordTypeAlert,
 		fragment:    buf,
 	})
+	c.out.Unlock()
 
 	// close_notify and end_of_early_data are not actually errors
 	if level == AlertLevelWarning {
@@ -869,23 +888,35 @@ func (c *Conn) SendKeyUpdate(requestUpdate bool) error {
 		request = KeyUpdateRequested
 	}
 
+	if alert := c.updateKeys(request); alert != AlertNoAlert {
+		c.sendAlert(alert)
+		return fmt.Errorf("Alert during key update: %v", alert)
+	}
+
+	return nil
+}
+
+func (c *Conn) updateKeys(request KeyUpdateRequest) Alert {
+	// Lock the output channel, so that nothing is written between the key
+	// update message and the change of keys.
+	c.out.Lock()
+	defer c.out.Unlock()
+
 	// Create the key update and update state
 	actions, alert := c.state.KeyUpdate(request)
 	if alert != AlertNoAlert {
-		c.sendAlert(alert)
-		return fmt.Errorf("Alert while generating key update: %v", alert)
+		return alert
 	}
 
 	// Take actions (send key update and rekey)
 	for _, action := range actions {
 		alert = c.takeAction(action)
 		if alert != AlertNoAlert {
-			c.sendAlert(alert)
-			return fmt.Errorf("Alert during key update actions: %v", alert)
+			return alert
 		}
 	}
 
-	return nil
+	return AlertNoAlert
 }
 
 func (c *Conn) GetHsState() State {
-- 
2.43.0


From 38c0e8b4d0053cfc0944bae1623685e15c1ae30e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:58 +0000
Subject: [PATCH 16/48] fix: check that a session ticket was created before
 sending it

---
 conn.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/conn.go b/conn.go
index 9abe983..c6b9568 100644
--- a/conn.go
+++ b/conn.go
@@ -845,6 +845,11 @@ func (c *Conn) Handshake() Alert {
 						c.config.TicketLen,
 						c.config.TicketLifetime,
 						c.config.EarlyDataLifetime)
+					if alert != AlertNoAlert {
+						logf(logTypeHandshake, "Error creating session ticket: %v", alert)
+						c.sendAlert(alert)
+						return alert
+					}
 
 					for _, action := range actions {
 						alert = c.takeAction(action)
-- 
2.43.0


From cc913a98d4abad6d6ecef4a2613f98c348f03d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:21 +0000
Subject: [PATCH 17/48] fix: do not take an alert from the peer for an internal
 condition

---
 alert.go           | 11 +++++++++++
 conn.go            |  2 +-
 handshake-layer.go |  2 +-
 3 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/alert.go b/alert.go
index 430e455..ac80b7f 100644
--- a/alert.go
+++ b/alert.go
@@ -88,6 +88,17 @@ var alertText = map[Alert]string{
 	AlertNoAlert:                     "no alert",
 }
 
+// peerAlert returns the Alert for an alert description sent by the peer.  The
+// codes that are only used within this package mean nothing on the wire.
+func peerAlert(description byte) Alert {
+	switch alert := Alert(description); alert {
+	case AlertStatelessRetry, AlertWouldBlock, AlertNoAlert:
+		return AlertIllegalParameter
+	default:
+		return alert
+	}
+}
+
 func (e Alert) String() string {
 	s, ok := alertText[e]
 	if ok {
diff --git a/conn.go b/conn.go
index c6b9568..c626ec6 100644
--- a/conn.go
+++ b/conn.go
@@ -390,7 +390,7 @@ func (c *Conn) consumeRecord() error {
 		case AlertLevelWarning:
 			// drop on the floor
 		case AlertLevelError:
-			return Alert(pt.fragment[1])
+			return peerAlert(pt.fragment[1])
 		default:
 			c.sendAlert(AlertUnexpectedMessage)
 			return io.EOF
diff --git a/handshake-layer.go b/handshake-layer.go
index 16388d4..e4f3b9f 100644
--- a/handshake-layer.go
+++ b/handshake-layer.go
@@ -207,7 +207,7 @@ func (h *HandshakeLayer) readRecord() error {
 			return io.EOF
 		}
 		logf(logTypeIO, "read alert %v", pt.fragment[1])
-		return Alert(pt.fragment[1])
+		return peerAlert(pt.fragment[1])
 	}
 
 	assert(h.ctx.hIn.conn != nil)
-- 
2.43.0


From 37a301b2921cad38a4462d3e21504110872ff026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:27 +0000
Subject: [PATCH 18/48] fix: answer a malformed alert on the output record
 layer

---
 handshake-layer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/handshake-layer.go b/handshake-layer.go
index e4f3b9f..52bbfc8 100644
--- a/handshake-layer.go
+++ b/handshake-layer.go
@@ -203,7 +203,7 @@ func (h *HandshakeLayer) readRecord() error {
 
 	if pt.contentType == RecordTypeAlert {
 		if len(pt.fragment) != 2 {
-			h.sendAlert(AlertUnexpectedMessage)
+			h.ctx.hOut.sendAlert(AlertUnexpectedMessage)
 			return io.EOF
 		}
 		logf(logTypeIO, "read alert %v", pt.fragment[1])
-- 
2.43.0


From b9c423a185b122526c27dfaee6514b84b5322324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:33 +0000
Subject: [PATCH 19/48] fix: report and remember a failed handshake

---
 conn.go | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/conn.go b/conn.go
index c626ec6..a65a096 100644
--- a/conn.go
+++ b/conn.go
@@ -307,7 +307,7 @@ type Conn struct {
 }
 
 func NewConn(conn net.Conn, config *Config, isClient bool) *Conn {
-	c := &Conn{conn: conn, config: config, isClient: isClient, hsCtx: &HandshakeContext{}}
+	c := &Conn{conn: conn, config: config, isClient: isClient, hsCtx: &HandshakeContext{}, handshakeAlert: AlertNoAlert}
 	if !config.UseDTLS {
 		if config.RecordLayer == nil {
 			c.in = NewRecordLayerTLS(c.conn, DirectionRead)
@@ -768,17 +768,28 @@ func (r *handshakeMessageReaderImpl) ReadMessage() (*HandshakeMessage, Alert) {
 // determines whether a client or server handshake is performed.  If a
 // handshake has already been performed, then its result will be returned.
 func (c *Conn) Handshake() Alert {
+	// TODO Lock handshakeMutex
+	if c.handshakeAlert != AlertNoAlert {
+		logf(logTypeHandshake, "Pre-existing handshake error: %v", c.handshakeAlert)
+		return c.handshakeAlert
+	}
+
+	alert := c.handshake()
+	switch alert {
+	case AlertNoAlert, AlertWouldBlock, AlertStatelessRetry:
+		// The handshake succeeded or can be continued.
+	default:
+		c.handshakeAlert = alert
+	}
+	return alert
+}
+
+func (c *Conn) handshake() Alert {
 	label := "[server]"
 	if c.isClient {
 		label = "[client]"
 	}
 
-	// TODO Lock handshakeMutex
-	// TODO Remove CloseNotify hack
-	if c.handshakeAlert != AlertNoAlert && c.handshakeAlert != AlertCloseNotify {
-		logf(logTypeHandshake, "Pre-existing handshake error: %v", c.handshakeAlert)
-		return c.handshakeAlert
-	}
 	if c.handshakeComplete {
 		return AlertNoAlert
 	}
@@ -819,6 +830,7 @@ func (c *Conn) Handshake() Alert {
 		}
 		if alert != AlertNoAlert && alert != AlertStatelessRetry {
 			logf(logTypeHandshake, "Error in state transition: %v", alert)
+			c.sendAlert(alert)
 			return alert
 		}
 
-- 
2.43.0


From f3ac64ac54ae3d0c01bbe6b3dac0063812bae798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:49 +0000
Subject: [PATCH 20/48] fix: reject messages that follow a key update in the
 same record

---
 conn.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/conn.go b/conn.go
index a65a096..134078a 100644
--- a/conn.go
+++ b/conn.go
@@ -375,6 +375,12 @@ func (c *Conn) consumeRecord() error {
 			}
 
 			start += headerLen + hmLen
+
+			// A key change has to be at the end of a record.
+			if hm.msgType == HandshakeTypeKeyUpdate && start < len(pt.fragment) {
+				c.sendAlert(AlertUnexpectedMessage)
+				return io.EOF
+			}
 		}
 	case RecordTypeAlert:
 		logf(logTypeIO, "extended buffer (for alert): [%d] %x", len(c.readBuffer), c.readBuffer)
-- 
2.43.0


From 35e4d5dea5a5f01b7dc77c0d65b62a12adc05d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:55 +0000
Subject: [PATCH 21/48] fix: close accepted connections whose handshake failed

---
 tls.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tls.go b/tls.go
index 4d22869..ad90aa2 100644
--- a/tls.go
+++ b/tls.go
@@ -40,11 +40,11 @@ func (l *Listener) Accept() (c net.Conn, err error) {
 	}
 	server := Server(c, l.config)
 	err = server.Handshake()
-	if err == AlertNoAlert {
-		err = nil
+	if err != AlertNoAlert {
+		server.Close()
+		return nil, err
 	}
-	c = server
-	return
+	return server, nil
 }
 
 // NewListener creates a Listener which accepts connections from an inner
-- 
2.43.0


From bb41ce300c7ccc0880061cbd37ff4ecbba22f6ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:26 +0000
Subject: [PATCH 22/48] fix: reject invalid peer values in key agreement

---
 crypto.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/crypto.go b/crypto.go
index 4fa59a2..fd072ab 100644
--- a/crypto.go
+++ b/crypto.go
@@ -268,6 +268,9 @@ func keyAgreement(group NamedGroup, pub []byte, priv []byte) ([]byte, error) {
 
 		crv := curveFromNamedGroup(group)
 		pubX, pubY := elliptic.Unmarshal(crv, pub)
+		if pubX == nil {
+			return nil, fmt.Errorf("tls.keyagreement: Public key is not on the curve")
+		}
 		x, _ := crv.Params().ScalarMult(pubX, pubY, priv)
 		xBytes := x.Bytes()
 
@@ -286,6 +289,10 @@ func keyAgreement(group NamedGroup, pub []byte, priv []byte) ([]byte, error) {
 		p := primeFromNamedGroup(group)
 		x := big.NewInt(0).SetBytes(priv)
 		Y := big.NewInt(0).SetBytes(pub)
+		pMinus1 := big.NewInt(0).Sub(p, big.NewInt(1))
+		if Y.Cmp(big.NewInt(1)) <= 0 || Y.Cmp(pMinus1) >= 0 {
+			return nil, fmt.Errorf("tls.keyagreement: Public key out of range")
+		}
 		ZBytes := big.NewInt(0).Exp(Y, x, p).Bytes()
 
 		ret := make([]byte, numBytes)
@@ -302,6 +309,9 @@ func keyAgreement(group NamedGroup, pub []byte, priv []byte) ([]byte, error) {
 		copy(private[:], priv)
 		copy(public[:], pub)
 		curve25519.ScalarMult(&ret, &private, &public)
+		if ret == [32]byte{} {
+			return nil, fmt.Errorf("tls.keyagreement: Degenerate shared secret")
+		}
 
 		return ret[:], nil
 
-- 
2.43.0


From e3a10c886be9cf3a6ed18fdd7b654ec3dbd08142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:31 +0000
Subject: [PATCH 23/48] fix: select signature schemes that the key can actually
 sign with

---
 crypto.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crypto.go b/crypto.go
index fd072ab..6f8e065 100644
--- a/crypto.go
+++ b/crypto.go
@@ -182,12 +182,16 @@ func primeFromNamedGroup(group NamedGroup) (p *big.Int) {
 }
 
 func schemeValidForKey(alg SignatureScheme, key crypto.Signer) bool {
+	if hashMap[alg] == crypto.SHA1 {
+		return false
+	}
+
 	sigType := sigMap[alg]
-	switch key.(type) {
+	switch priv := key.(type) {
 	case *rsa.PrivateKey:
 		return sigType == signatureAlgorithmRSA_PKCS1 || sigType == signatureAlgorithmRSA_PSS
 	case *ecdsa.PrivateKey:
-		return sigType == signatureAlgorithmECDSA
+		return sigType == signatureAlgorithmECDSA && curveMap[alg] == namedGroupFromECDSAKey(&priv.PublicKey)
 	default:
 		return false
 	}
-- 
2.43.0


From a4475b07d33de9586b36a7abfd8130b22cbc34f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:53 +0000
Subject: [PATCH 24/48] fix: reject a cookie when the server has no cookie
 protector

---
 server-state-machine.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/server-state-machine.go b/server-state-machine.go
index e392a5d..7375a23 100644
--- a/server-state-machine.go
+++ b/server-state-machine.go
@@ -173,6 +173,10 @@ func (state serverStateStart) Next(hr handshakeMessageReader) (HandshakeState, [
 	var firstClientHello *HandshakeMessage
 	var initialCipherSuite CipherSuiteParams // the cipher suite that was negotiated when sending the HelloRetryRequest
 	if clientSentCookie {
+		if state.Config.CookieProtector == nil {
+			logf(logTypeHandshake, "[ServerStateStart] Client sent a cookie that this server can't have issued")
+			return nil, nil, AlertIllegalParameter
+		}
 		plainCookie, err := state.Config.CookieProtector.DecodeToken(clientCookie.Cookie)
 		if err != nil {
 			logf(logTypeHandshake, fmt.Sprintf("[ServerStateStart] Error decoding token [%v]", err))
-- 
2.43.0


From 1f0cb6ac107ddbf343426e6437da8e301028da20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:59 +0000
Subject: [PATCH 25/48] fix: reject cookies that do not decode completely

---
 server-state-machine.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server-state-machine.go b/server-state-machine.go
index 7375a23..591394a 100644
--- a/server-state-machine.go
+++ b/server-state-machine.go
@@ -183,7 +183,7 @@ func (state serverStateStart) Next(hr handshakeMessageReader) (HandshakeState, [
 			return nil, nil, AlertDecryptError
 		}
 		cookie := &cookie{}
-		if rb, err := syntax.Unmarshal(plainCookie, cookie); err != nil && rb != len(plainCookie) { // this should never happen
+		if rb, err := syntax.Unmarshal(plainCookie, cookie); err != nil || rb != len(plainCookie) { // this should never happen
 			logf(logTypeHandshake, fmt.Sprintf("[ServerStateStart] Error unmarshaling cookie [%v]", err))
 			return nil, nil, AlertInternalError
 		}
-- 
2.43.0


From bce0053501f3f6d3cc570760dccb3dd92fac9ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:51 +0000
Subject: [PATCH 26/48] fix: put the retry into the transcript exactly as it
 was sent

---
 client-state-machine.go | 6 +++++-
 server-state-machine.go | 8 ++++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/client-state-machine.go b/client-state-machine.go
index d8464a1..fae7a1f 100644
--- a/client-state-machine.go
+++ b/client-state-machine.go
@@ -240,6 +240,8 @@ func (state clientStateStart) Next(hr handshakeMessageReader) (HandshakeState, [
 		}
 
 		truncHash := params.Hash.New()
+		truncHash.Write(state.firstClientHello.Marshal())
+		truncHash.Write(state.helloRetryRequest.Marshal())
 		truncHash.Write(trunc)
 
 		binder := computeFinishedData(params, binderKey, truncHash.Sum(nil))
@@ -408,9 +410,11 @@ func (state clientStateWaitSH) Next(hr handshakeMessageReader) (HandshakeState,
 		params := cipherSuiteMap[hrr.CipherSuite]
 		h := params.Hash.New()
 		h.Write(state.clientHello.Marshal())
+		clientHelloHash := h.Sum(nil)
 		firstClientHello := &HandshakeMessage{
 			msgType: HandshakeTypeMessageHash,
-			body:    h.Sum(nil),
+			body:    clientHelloHash,
+			length:  uint32(len(clientHelloHash)),
 		}
 
 		state.hsCtx.receivedEndOfFlight()
diff --git a/server-state-machine.go b/server-state-machine.go
index 591394a..76cc7bf 100644
--- a/server-state-machine.go
+++ b/server-state-machine.go
@@ -191,6 +191,7 @@ func (state serverStateStart) Next(hr handshakeMessageReader) (HandshakeState, [
 		firstClientHello = &HandshakeMessage{
 			msgType: HandshakeTypeMessageHash,
 			body:    cookie.ClientHelloHash,
+			length:  uint32(len(cookie.ClientHelloHash)),
 		}
 		// have the application validate its part of the cookie
 		if state.Config.CookieHandler != nil && !state.Config.CookieHandler.Validate(state.conn, cookie.ApplicationCookie) {
@@ -224,7 +225,7 @@ func (state serverStateStart) Next(hr handshakeMessageReader) (HandshakeState, [
 			contextBase = append(contextBase, firstClientHello.Marshal()...)
 			// fill in the cookie sent by the client. Needed to calculate the correct hash
 			cookieExt := &CookieExtension{Cookie: clientCookie.Cookie}
-			hrr, err := state.generateHRR(params.Suite,
+			hrr, err := state.generateHRR(initialCipherSuite.Suite,
 				ch.LegacySessionID, cookieExt)
 			if err != nil {
 				return nil, nil, AlertInternalError
@@ -260,7 +261,7 @@ func (state serverStateStart) Next(hr handshakeMessageReader) (HandshakeState, [
 	}
 
 	var helloRetryRequest *HandshakeMessage
-	if state.Config.RequireCookie {
+	if state.Config.RequireCookie || clientSentCookie {
 		// Send a cookie if required
 		// NB: Need to do this here because it's after ciphersuite selection, which
 		// has to be after PSK selection.
@@ -440,6 +441,9 @@ func (state *serverStateStart) generateHRR(cs CipherSuite, legacySessionId []byt
 			return nil, err
 		}
 	}
+	// The HelloRetryRequest is always the server's first message, also when it
+	// is generated again for the transcript.
+	state.hsCtx.hOut.msgSeq = 0
 	helloRetryRequest, err := state.hsCtx.hOut.HandshakeMessageFromBody(hrr)
 	if err != nil {
 		logf(logTypeHandshake, "[ServerStateStart] Error marshaling HRR [%v]", err)
-- 
2.43.0


From 3c4a2aaa4eb29816a939f10748db9ff288a59de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:19 +0000
Subject: [PATCH 27/48] fix: check that a ciphersuite is implemented before
 hashing for a retry

---
 client-state-machine.go | 6 +++++-
 server-state-machine.go | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/client-state-machine.go b/client-state-machine.go
index fae7a1f..977c5e2 100644
--- a/client-state-machine.go
+++ b/client-state-machine.go
@@ -407,7 +407,11 @@ func (state clientStateWaitSH) Next(hr handshakeMessageReader) (HandshakeState,
 
 		// Hash the body into a pseudo-message
 		// XXX: Ignoring some errors here
-		params := cipherSuiteMap[hrr.CipherSuite]
+		params, ok := cipherSuiteMap[hrr.CipherSuite]
+		if !ok {
+			logf(logTypeHandshake, "[ClientStateWaitSH] Unsupported ciphersuite [%04x]", hrr.CipherSuite)
+			return nil, nil, AlertHandshakeFailure
+		}
 		h := params.Hash.New()
 		h.Write(state.clientHello.Marshal())
 		clientHelloHash := h.Sum(nil)
diff --git a/server-state-machine.go b/server-state-machine.go
index 76cc7bf..1855e92 100644
--- a/server-state-machine.go
+++ b/server-state-machine.go
@@ -281,7 +281,11 @@ func (state serverStateStart) Next(hr handshakeMessageReader) (HandshakeState, [
 				shouldSendHRR = appCookie != nil
 			}
 			if shouldSendHRR {
-				params := cipherSuiteMap[connParams.CipherSuite]
+				params, ok := cipherSuiteMap[connParams.CipherSuite]
+				if !ok {
+					logf(logTypeHandshake, "[ServerStateStart] Unsupported ciphersuite [%04x]", connParams.CipherSuite)
+					return nil, nil, AlertHandshakeFailure
+				}
 				h := params.Hash.New()
 				h.Write(clientHello.Marshal())
 				plainCookie, err := syntax.Marshal(cookie{
-- 
2.43.0


From e27d83dc7343f4677fd8f08a341ba838039fc2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:25 +0000
Subject: [PATCH 28/48] fix: reject trailing data in a ServerHello

---
 client-state-machine.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/client-state-machine.go b/client-state-machine.go
index 977c5e2..a50275a 100644
--- a/client-state-machine.go
+++ b/client-state-machine.go
@@ -336,9 +336,9 @@ func (state clientStateWaitSH) Next(hr handshakeMessageReader) (HandshakeState,
 	}
 
 	sh := &ServerHelloBody{}
-	if _, err := sh.Unmarshal(hm.body); err != nil {
-		logf(logTypeHandshake, "[ClientStateWaitSH] unexpected message")
-		return nil, nil, AlertUnexpectedMessage
+	if err := safeUnmarshal(sh, hm.body); err != nil {
+		logf(logTypeHandshake, "[ClientStateWaitSH] Error decoding message: %v", err)
+		return nil, nil, AlertDecodeError
 	}
 
 	// Common SH/HRR processing first.
-- 
2.43.0


From 87da0e96a51785a39bdb9217a41437c3287cd5a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:32 +0000
Subject: [PATCH 29/48] fix: reject a second HelloRetryRequest

---
 client-state-machine.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/client-state-machine.go b/client-state-machine.go
index a50275a..e439d8b 100644
--- a/client-state-machine.go
+++ b/client-state-machine.go
@@ -379,6 +379,12 @@ func (state clientStateWaitSH) Next(hr handshakeMessageReader) (HandshakeState,
 		// This is actually HRR.
 		hrr := sh
 
+		// There can only be one.
+		if state.helloRetryRequest != nil {
+			logf(logTypeHandshake, "[ClientStateWaitSH] Second HelloRetryRequest")
+			return nil, nil, AlertUnexpectedMessage
+		}
+
 		// Narrow the supported ciphersuites to the server-provided one
 		state.Config.CipherSuites = []CipherSuite{hrr.CipherSuite}
 
-- 
2.43.0


From 886ea507870f0a21e64d835eaea4b0a189c58565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:37 +0000
Subject: [PATCH 30/48] fix: do not narrow the ciphersuites of a shared
 configuration

---
 client-state-machine.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/client-state-machine.go b/client-state-machine.go
index e439d8b..536cf3f 100644
--- a/client-state-machine.go
+++ b/client-state-machine.go
@@ -385,7 +385,9 @@ func (state clientStateWaitSH) Next(hr handshakeMessageReader) (HandshakeState,
 			return nil, nil, AlertUnexpectedMessage
 		}
 
-		// Narrow the supported ciphersuites to the server-provided one
+		// Narrow the supported ciphersuites to the server-provided one.  The
+		// configuration may be shared, so this has to be done on a copy.
+		state.Config = state.Config.Clone()
 		state.Config.CipherSuites = []CipherSuite{hrr.CipherSuite}
 
 		// Handle external extensions.
-- 
2.43.0


From 5d0165171991bbc6a3e22fd17310c0a1c397d7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:43 +0000
Subject: [PATCH 31/48] fix: abort when key agreement fails on the client

---
 client-state-machine.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/client-state-machine.go b/client-state-machine.go
index 536cf3f..2b8db25 100644
--- a/client-state-machine.go
+++ b/client-state-machine.go
@@ -484,7 +484,11 @@ func (state clientStateWaitSH) Next(hr handshakeMessageReader) (HandshakeState,
 		}
 
 		state.Params.UsingDH = true
-		dhSecret, _ = keyAgreement(sks.Group, sks.KeyExchange, priv)
+		dhSecret, err = keyAgreement(sks.Group, sks.KeyExchange, priv)
+		if err != nil {
+			logf(logTypeHandshake, "[ClientStateWaitSH] Error in key agreement [%v]", err)
+			return nil, nil, AlertIllegalParameter
+		}
 	}
 
 	suite := sh.CipherSuite
-- 
2.43.0


From a93cabb5558e09f271dfa46f18ca8b927620ceae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:14 +0000
Subject: [PATCH 32/48] fix: accept only the PSK that the client offered, with
 its own hash

---
 client-state-machine.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/client-state-machine.go b/client-state-machine.go
index 2b8db25..abc8a23 100644
--- a/client-state-machine.go
+++ b/client-state-machine.go
@@ -470,7 +470,12 @@ func (state clientStateWaitSH) Next(hr handshakeMessageReader) (HandshakeState,
 		return nil, nil, AlertDecodeError
 	}
 
-	if foundExts[ExtensionTypePreSharedKey] && (serverPSK.SelectedIdentity == 0) {
+	if foundExts[ExtensionTypePreSharedKey] {
+		// We offer at most one PSK, so that's all the server can select.
+		if state.earlySecret == nil || serverPSK.SelectedIdentity != 0 {
+			logf(logTypeHandshake, "[ClientStateWaitSH] Server selected a PSK that wasn't offered")
+			return nil, nil, AlertIllegalParameter
+		}
 		state.Params.UsingPSK = true
 	}
 
@@ -515,6 +520,7 @@ func (state clientStateWaitSH) Next(hr handshakeMessageReader) (HandshakeState,
 		if params.Hash != state.earlyHash {
 			logf(logTypeCrypto, "Change of hash between early and normal init early=[%02x] suite=[%04x] hash=[%02x]",
 				state.earlyHash, suite, params.Hash)
+			return nil, nil, AlertIllegalParameter
 		}
 
 		earlySecret = state.earlySecret
-- 
2.43.0


From 17cccba2a81e3b63d6b8db23df362c2097022ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:20 +0000
Subject: [PATCH 33/48] fix: accept only key exchange modes that the client
 offered

---
 client-state-machine.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/client-state-machine.go b/client-state-machine.go
index abc8a23..780071b 100644
--- a/client-state-machine.go
+++ b/client-state-machine.go
@@ -496,6 +496,26 @@ func (state clientStateWaitSH) Next(hr handshakeMessageReader) (HandshakeState,
 		}
 	}
 
+	// Check that the server chose a mode that we offered
+	if !state.Params.UsingPSK && !state.Params.UsingDH {
+		logf(logTypeHandshake, "[ClientStateWaitSH] Neither key share nor PSK in ServerHello")
+		return nil, nil, AlertMissingExtension
+	}
+	if state.Params.UsingPSK {
+		mode := PSKModeKE
+		if state.Params.UsingDH {
+			mode = PSKModeDHEKE
+		}
+		offeredMode := false
+		for _, m := range state.Config.PSKModes {
+			offeredMode = offeredMode || (m == mode)
+		}
+		if !offeredMode {
+			logf(logTypeHandshake, "[ClientStateWaitSH] Server selected a PSK mode that wasn't offered [%v]", mode)
+			return nil, nil, AlertIllegalParameter
+		}
+	}
+
 	suite := sh.CipherSuite
 	state.Params.CipherSuite = suite
 
-- 
2.43.0


From 3c96a69fd488bcc56665afc2224df7732111f862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:26 +0000
Subject: [PATCH 34/48] fix: select only PSK modes that the client offered and
 the server allows

---
 negotiation.go          |  8 ++++----
 server-state-machine.go | 10 +++++++++-
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/negotiation.go b/negotiation.go
index 7463953..d7e45bc 100644
--- a/negotiation.go
+++ b/negotiation.go
@@ -118,14 +118,14 @@ func PSKNegotiation(identities []PSKIdentity, binders []PSKBinderEntry, context
 func PSKModeNegotiation(canDoDH, canDoPSK bool, modes []PSKKeyExchangeMode) (bool, bool) {
 	logf(logTypeNegotiation, "Negotiating PSK modes [%v] [%v] [%+v]", canDoDH, canDoPSK, modes)
 	dhAllowed := false
-	dhRequired := true
+	keAllowed := false
 	for _, mode := range modes {
 		dhAllowed = dhAllowed || (mode == PSKModeDHEKE)
-		dhRequired = dhRequired && (mode == PSKModeDHEKE)
+		keAllowed = keAllowed || (mode == PSKModeKE)
 	}
 
-	// Use PSK if we can meet DH requirement and modes were provided
-	usingPSK := canDoPSK && (!dhRequired || canDoDH) && (len(modes) > 0)
+	// Use PSK if one of the modes provided can be met
+	usingPSK := canDoPSK && (keAllowed || (dhAllowed && canDoDH))
 
 	// Use DH if allowed
 	usingDH := canDoDH && (dhAllowed || !usingPSK)
diff --git a/server-state-machine.go b/server-state-machine.go
index 1855e92..c58e39d 100644
--- a/server-state-machine.go
+++ b/server-state-machine.go
@@ -247,7 +247,15 @@ func (state serverStateStart) Next(hr handshakeMessageReader) (HandshakeState, [
 	}
 
 	// Figure out if we actually should do DH / PSK
-	connParams.UsingDH, connParams.UsingPSK = PSKModeNegotiation(canDoDH, canDoPSK, clientPSKModes.KEModes)
+	pskModes := []PSKKeyExchangeMode{}
+	for _, offered := range clientPSKModes.KEModes {
+		for _, allowed := range state.Config.PSKModes {
+			if offered == allowed {
+				pskModes = append(pskModes, offered)
+			}
+		}
+	}
+	connParams.UsingDH, connParams.UsingPSK = PSKModeNegotiation(canDoDH, canDoPSK, pskModes)
 
 	// Select a ciphersuite
 	connParams.CipherSuite, err = CipherSuiteNegotiation(psk, ch.CipherSuites, state.Config.CipherSuites)
-- 
2.43.0


From 1eebba42c3767c1f0aa5b58e753ed859872bb292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:53 +0000
Subject: [PATCH 35/48] fix: select only ciphersuites that the server allows,
 also with a PSK

---
 negotiation.go          | 5 +----
 server-state-machine.go | 5 +++--
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/negotiation.go b/negotiation.go
index d7e45bc..1ecd076 100644
--- a/negotiation.go
+++ b/negotiation.go
@@ -177,10 +177,7 @@ func EarlyDataNegotiation(usingPSK, gotEarlyData, allowEarlyData bool) (using bo
 
 func CipherSuiteNegotiation(psk *PreSharedKey, offered, supported []CipherSuite) (CipherSuite, error) {
 	for _, s1 := range offered {
-		if psk != nil {
-			if s1 == psk.CipherSuite {
-				return s1, nil
-			}
+		if psk != nil && s1 != psk.CipherSuite {
 			continue
 		}
 
diff --git a/server-state-machine.go b/server-state-machine.go
index c58e39d..3f98849 100644
--- a/server-state-machine.go
+++ b/server-state-machine.go
@@ -256,6 +256,9 @@ func (state serverStateStart) Next(hr handshakeMessageReader) (HandshakeState, [
 		}
 	}
 	connParams.UsingDH, connParams.UsingPSK = PSKModeNegotiation(canDoDH, canDoPSK, pskModes)
+	if !connParams.UsingPSK {
+		psk = nil
+	}
 
 	// Select a ciphersuite
 	connParams.CipherSuite, err = CipherSuiteNegotiation(psk, ch.CipherSuites, state.Config.CipherSuites)
@@ -351,8 +354,6 @@ func (state serverStateStart) Next(hr handshakeMessageReader) (HandshakeState, [
 	if connParams.UsingPSK {
 		pskSecret = psk.Key
 	} else {
-		psk = nil
-
 		// If we're not using a PSK mode, then we need to have certain extensions
 		if !(foundExts[ExtensionTypeServerName] &&
 			foundExts[ExtensionTypeSupportedGroups] &&
-- 
2.43.0


From 7a40e162a9a78a9bd136aa00a62ec969808189dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:00 +0000
Subject: [PATCH 36/48] fix: accept early data only for the first PSK and
 without a retry

---
 server-state-machine.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/server-state-machine.go b/server-state-machine.go
index 3f98849..d6a22dd 100644
--- a/server-state-machine.go
+++ b/server-state-machine.go
@@ -379,7 +379,10 @@ func (state serverStateStart) Next(hr handshakeMessageReader) (HandshakeState, [
 	// Figure out if we're going to do early data
 	var clientEarlyTrafficSecret []byte
 	connParams.ClientSendingEarlyData = foundExts[ExtensionTypeEarlyData]
-	connParams.UsingEarlyData, connParams.RejectedEarlyData = EarlyDataNegotiation(connParams.UsingPSK, foundExts[ExtensionTypeEarlyData], state.Config.AllowEarlyData)
+	// Early data is protected with the first PSK that the client offered, and
+	// can't be sent after a retry.
+	canDoEarlyData := connParams.UsingPSK && selectedPSK == 0 && !clientSentCookie
+	connParams.UsingEarlyData, connParams.RejectedEarlyData = EarlyDataNegotiation(canDoEarlyData, foundExts[ExtensionTypeEarlyData], state.Config.AllowEarlyData)
 	if connParams.UsingEarlyData {
 		h := params.Hash.New()
 		h.Write(clientHello.Marshal())
-- 
2.43.0


From ae2b1d3fff55365af5bae048b1fdc682e6ec8e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:07 +0000
Subject: [PATCH 37/48] fix: report early data as accepted only if it was sent

---
 client-state-machine.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/client-state-machine.go b/client-state-machine.go
index 780071b..7544071 100644
--- a/client-state-machine.go
+++ b/client-state-machine.go
@@ -647,6 +647,10 @@ func (state clientStateWaitEE) Next(hr handshakeMessageReader) (HandshakeState,
 		return nil, nil, AlertDecodeError
 	}
 
+	if foundExts[ExtensionTypeEarlyData] && !(state.Params.ClientSendingEarlyData && state.Params.UsingPSK) {
+		logf(logTypeHandshake, "[ClientStateWaitEE] Server accepted early data that can't have been sent")
+		return nil, nil, AlertUnsupportedExtension
+	}
 	state.Params.UsingEarlyData = foundExts[ExtensionTypeEarlyData]
 
 	if foundExts[ExtensionTypeALPN] && len(serverALPN.Protocols) > 0 {
-- 
2.43.0


From 2c828a88f660798bd85afabf446d9e7d93c56049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:32 +0000
Subject: [PATCH 38/48] fix: do not use resumption keys after their lifetime

---
 client-state-machine.go |  2 +-
 conn.go                 |  6 ++++++
 negotiation.go          |  5 +++++
 state-machine.go        | 10 ++++++----
 4 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/client-state-machine.go b/client-state-machine.go
index 7544071..dfda90a 100644
--- a/client-state-machine.go
+++ b/client-state-machine.go
@@ -163,7 +163,7 @@ func (state clientStateStart) Next(hr handshakeMessageReader) (HandshakeState, [
 	var earlySecret []byte
 	var clientEarlyTrafficKeys KeySet
 	var clientHello *HandshakeMessage
-	if key, ok := state.Config.PSKs.Get(state.Opts.ServerName); ok {
+	if key, ok := state.Config.PSKs.Get(state.Opts.ServerName); ok && !key.expired() {
 		offeredPSK = key
 
 		// Narrow ciphersuites to ones that match PSK hash
diff --git a/conn.go b/conn.go
index 134078a..22a95dd 100644
--- a/conn.go
+++ b/conn.go
@@ -29,6 +29,12 @@ type PreSharedKey struct {
 	TicketAgeAdd uint32
 }
 
+// expired reports whether the lifetime of a resumption PSK is over.  Only PSKs
+// with a lifetime can expire.
+func (psk PreSharedKey) expired() bool {
+	return psk.IsResumption && psk.ExpiresAt.After(psk.ReceivedAt) && time.Now().After(psk.ExpiresAt)
+}
+
 type PreSharedKeyCache interface {
 	Get(string) (PreSharedKey, bool)
 	Put(string, PreSharedKey)
diff --git a/negotiation.go b/negotiation.go
index 1ecd076..e97d580 100644
--- a/negotiation.go
+++ b/negotiation.go
@@ -63,6 +63,11 @@ func PSKNegotiation(identities []PSKIdentity, binders []PSKBinderEntry, context
 			continue
 		}
 
+		if psk.expired() {
+			logf(logTypeNegotiation, "PSK has expired [%x]", psk.Identity)
+			continue
+		}
+
 		// For resumption, make sure the ticket age is correct
 		if psk.IsResumption {
 			extTicketAge := id.ObfuscatedTicketAge - psk.TicketAgeAdd
diff --git a/state-machine.go b/state-machine.go
index f0635c8..99d4c60 100644
--- a/state-machine.go
+++ b/state-machine.go
@@ -152,14 +152,15 @@ func (state *stateConnected) NewSessionTicket(length int, lifetime, earlyDataLif
 	resumptionKey := HkdfExpandLabel(state.cryptoParams.Hash, state.resumptionSecret,
 		labelResumption, tkt.TicketNonce, state.cryptoParams.Hash.Size())
 
+	now := time.Now()
 	newPSK := PreSharedKey{
 		CipherSuite:  state.cryptoParams.Suite,
 		IsResumption: true,
 		Identity:     tkt.Ticket,
 		Key:          resumptionKey,
 		NextProto:    state.Params.NextProto,
-		ReceivedAt:   time.Now(),
-		ExpiresAt:    time.Now().Add(time.Duration(tkt.TicketLifetime) * time.Second),
+		ReceivedAt:   now,
+		ExpiresAt:    now.Add(time.Duration(tkt.TicketLifetime) * time.Second),
 		TicketAgeAdd: tkt.TicketAgeAdd,
 	}
 
@@ -227,14 +228,15 @@ func (state stateConnected) ProcessMessage(hm *HandshakeMessage) (HandshakeState
 
 		resumptionKey := HkdfExpandLabel(state.cryptoParams.Hash, state.resumptionSecret,
 			labelResumption, body.TicketNonce, state.cryptoParams.Hash.Size())
+		now := time.Now()
 		psk := PreSharedKey{
 			CipherSuite:  state.cryptoParams.Suite,
 			IsResumption: true,
 			Identity:     body.Ticket,
 			Key:          resumptionKey,
 			NextProto:    state.Params.NextProto,
-			ReceivedAt:   time.Now(),
-			ExpiresAt:    time.Now().Add(time.Duration(body.TicketLifetime) * time.Second),
+			ReceivedAt:   now,
+			ExpiresAt:    now.Add(time.Duration(body.TicketLifetime) * time.Second),
 			TicketAgeAdd: body.TicketAgeAdd,
 		}
 
-- 
2.43.0


From 949fd94f41d76b1f926856710ea227e7281c19f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:24 +0000
Subject: [PATCH 39/48] fix: reject an empty certificate list from the server

---
 client-state-machine.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/client-state-machine.go b/client-state-machine.go
index dfda90a..f9ea33a 100644
--- a/client-state-machine.go
+++ b/client-state-machine.go
@@ -868,6 +868,11 @@ func (state clientStateWaitCV) Next(hr handshakeMessageReader) (HandshakeState,
 	hcv := state.handshakeHash.Sum(nil)
 	logf(logTypeHandshake, "Handshake Hash to be verified: [%d] %x", len(hcv), hcv)
 
+	if len(state.serverCertificate.CertificateList) == 0 {
+		logf(logTypeHandshake, "[ClientStateWaitCV] Server did not provide a certificate")
+		return nil, nil, AlertDecodeError
+	}
+
 	serverPublicKey := state.serverCertificate.CertificateList[0].CertData.PublicKey
 	if err := certVerify.Verify(serverPublicKey, hcv); err != nil {
 		logf(logTypeHandshake, "[ClientStateWaitCV] Server signature failed to verify")
-- 
2.43.0


From c1851026ca2f8644cc8245770f31a81124384022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:29 +0000
Subject: [PATCH 40/48] fix: keep the session ID when a ClientHello is
 marshaled again

---
 handshake-messages.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/handshake-messages.go b/handshake-messages.go
index e8e3aef..54e66d7 100644
--- a/handshake-messages.go
+++ b/handshake-messages.go
@@ -60,7 +60,7 @@ func (ch ClientHelloBody) Marshal() ([]byte, error) {
 		return syntax.Marshal(clientHelloBodyInnerTLS{
 			LegacyVersion:            ch.LegacyVersion,
 			Random:                   ch.Random,
-			LegacySessionID:          []byte{},
+			LegacySessionID:          ch.LegacySessionID,
 			CipherSuites:             ch.CipherSuites,
 			LegacyCompressionMethods: []byte{0},
 			Extensions:               ch.Extensions,
@@ -69,7 +69,7 @@ func (ch ClientHelloBody) Marshal() ([]byte, error) {
 		return syntax.Marshal(clientHelloBodyInnerDTLS{
 			LegacyVersion:            ch.LegacyVersion,
 			Random:                   ch.Random,
-			LegacySessionID:          []byte{},
+			LegacySessionID:          ch.LegacySessionID,
 			CipherSuites:             ch.CipherSuites,
 			LegacyCompressionMethods: []byte{0},
 			Extensions:               ch.Extensions,
-- 
2.43.0


From 254a7be316129e2f1bdc5dcbb98cd44dba11c4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:34 +0000
Subject: [PATCH 41/48] fix: check for the presence flag of an optional value

---
 syntax/decode.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/syntax/decode.go b/syntax/decode.go
index 7cedc3c..912503f 100644
--- a/syntax/decode.go
+++ b/syntax/decode.go
@@ -412,6 +412,9 @@ func (pd *pointerDecoder) decode(d *decodeState, v reflect.Value, opts fieldOpti
 	if opts.optional {
 		readBase = 1
 		flag := d.Next(1)
+		if len(flag) != 1 {
+			panic(fmt.Errorf("Insufficient data to read presence flag"))
+		}
 		switch flag[0] {
 		case optionalFlagAbsent:
 			indir := v.Elem()
-- 
2.43.0


From 7baa31a8d7ef4cc2aa1155399e4ee2b504c7d9f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:38 +0000
Subject: [PATCH 42/48] fix: update traffic secrets with the label that the
 protocol defines

---
 crypto.go        | 1 +
 state-machine.go | 8 ++++----
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/crypto.go b/crypto.go
index 6f8e065..57573ef 100644
--- a/crypto.go
+++ b/crypto.go
@@ -550,6 +550,7 @@ const (
 	labelDerived                        = "derived"
 	labelFinished                       = "finished"
 	labelResumption                     = "resumption"
+	labelTrafficUpdate                  = "traffic upd"
 )
 
 // struct HkdfLabel {
diff --git a/state-machine.go b/state-machine.go
index 99d4c60..c8f4e4d 100644
--- a/state-machine.go
+++ b/state-machine.go
@@ -114,11 +114,11 @@ func (state *stateConnected) KeyUpdate(request KeyUpdateRequest) ([]HandshakeAct
 	var trafficKeys KeySet
 	if state.isClient {
 		state.clientTrafficSecret = HkdfExpandLabel(state.cryptoParams.Hash, state.clientTrafficSecret,
-			labelClientApplicationTrafficSecret, []byte{}, state.cryptoParams.Hash.Size())
+			labelTrafficUpdate, []byte{}, state.cryptoParams.Hash.Size())
 		trafficKeys = makeTrafficKeys(state.cryptoParams, state.clientTrafficSecret)
 	} else {
 		state.serverTrafficSecret = HkdfExpandLabel(state.cryptoParams.Hash, state.serverTrafficSecret,
-			labelServerApplicationTrafficSecret, []byte{}, state.cryptoParams.Hash.Size())
+			labelTrafficUpdate, []byte{}, state.cryptoParams.Hash.Size())
 		trafficKeys = makeTrafficKeys(state.cryptoParams, state.serverTrafficSecret)
 	}
 
@@ -200,11 +200,11 @@ func (state stateConnected) ProcessMessage(hm *HandshakeMessage) (HandshakeState
 		var trafficKeys KeySet
 		if !state.isClient {
 			state.clientTrafficSecret = HkdfExpandLabel(state.cryptoParams.Hash, state.clientTrafficSecret,
-				labelClientApplicationTrafficSecret, []byte{}, state.cryptoParams.Hash.Size())
+				labelTrafficUpdate, []byte{}, state.cryptoParams.Hash.Size())
 			trafficKeys = makeTrafficKeys(state.cryptoParams, state.clientTrafficSecret)
 		} else {
 			state.serverTrafficSecret = HkdfExpandLabel(state.cryptoParams.Hash, state.serverTrafficSecret,
-				labelServerApplicationTrafficSecret, []byte{}, state.cryptoParams.Hash.Size())
+				labelTrafficUpdate, []byte{}, state.cryptoParams.Hash.Size())
 			trafficKeys = makeTrafficKeys(state.cryptoParams, state.serverTrafficSecret)
 		}
 
-- 
2.43.0


From cf9b404d62806a6386d69c2690fcee495e693213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:01 +0000
Subject: [PATCH 43/48] fix: accept only an application protocol that the
 client offered

---
 client-state-machine.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/client-state-machine.go b/client-state-machine.go
index f9ea33a..5147d79 100644
--- a/client-state-machine.go
+++ b/client-state-machine.go
@@ -571,6 +571,7 @@ func (state clientStateWaitSH) Next(hr handshakeMessageReader) (HandshakeState,
 	logf(logTypeHandshake, "[ClientStateWaitSH] -> [ClientStateWaitEE]")
 	nextState := clientStateWaitEE{
 		Config:                       state.Config,
+		Opts:                         state.Opts,
 		Params:                       state.Params,
 		hsCtx:                        state.hsCtx,
 		cryptoParams:                 params,
@@ -594,6 +595,7 @@ func (state clientStateWaitSH) Next(hr handshakeMessageReader) (HandshakeState,
 
 type clientStateWaitEE struct {
 	Config                       *Config
+	Opts                         ConnectionOptions
 	Params                       ConnectionParameters
 	hsCtx                        *HandshakeContext
 	cryptoParams                 CipherSuiteParams
@@ -654,6 +656,14 @@ func (state clientStateWaitEE) Next(hr handshakeMessageReader) (HandshakeState,
 	state.Params.UsingEarlyData = foundExts[ExtensionTypeEarlyData]
 
 	if foundExts[ExtensionTypeALPN] && len(serverALPN.Protocols) > 0 {
+		offeredProto := false
+		for _, proto := range state.Opts.NextProtos {
+			offeredProto = offeredProto || (proto == serverALPN.Protocols[0])
+		}
+		if !offeredProto || len(serverALPN.Protocols) != 1 {
+			logf(logTypeHandshake, "[ClientStateWaitEE] Server selected a protocol that wasn't offered %q", serverALPN.Protocols)
+			return nil, nil, AlertIllegalParameter
+		}
 		state.Params.NextProto = serverALPN.Protocols[0]
 	}
 
-- 
2.43.0


From 09d9ae8b55f1aa6591ca23e02bb4a55539fb019d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:24 +0000
Subject: [PATCH 44/48] fix: accept only signature schemes that were offered

---
 client-state-machine.go |  5 +++++
 crypto.go               | 10 ++++++++++
 server-state-machine.go |  5 +++++
 3 files changed, 20 insertions(+)

diff --git a/client-state-machine.go b/client-state-machine.go
index 5147d79..35dfaca 100644
--- a/client-state-machine.go
+++ b/client-state-machine.go
@@ -875,6 +875,11 @@ func (state clientStateWaitCV) Next(hr handshakeMessageReader) (HandshakeState,
 		return nil, nil, AlertDecodeError
 	}
 
+	if !schemeAllowed(certVerify.Algorithm, state.Config.SignatureSchemes) {
+		logf(logTypeHandshake, "[ClientStateWaitCV] Signature scheme that wasn't offered [%04x]", certVerify.Algorithm)
+		return nil, nil, AlertIllegalParameter
+	}
+
 	hcv := state.handshakeHash.Sum(nil)
 	logf(logTypeHandshake, "Handshake Hash to be verified: [%d] %x", len(hcv), hcv)
 
diff --git a/crypto.go b/crypto.go
index 57573ef..4618c08 100644
--- a/crypto.go
+++ b/crypto.go
@@ -181,6 +181,16 @@ func primeFromNamedGroup(group NamedGroup) (p *big.Int) {
 	return
 }
 
+// schemeAllowed reports whether alg is one of the given signature schemes.
+func schemeAllowed(alg SignatureScheme, allowed []SignatureScheme) bool {
+	for _, scheme := range allowed {
+		if scheme == alg {
+			return true
+		}
+	}
+	return false
+}
+
 func schemeValidForKey(alg SignatureScheme, key crypto.Signer) bool {
 	if hashMap[alg] == crypto.SHA1 {
 		return false
diff --git a/server-state-machine.go b/server-state-machine.go
index d6a22dd..5238907 100644
--- a/server-state-machine.go
+++ b/server-state-machine.go
@@ -1073,6 +1073,11 @@ func (state serverStateWaitCV) Next(hr handshakeMessageReader) (HandshakeState,
 		return nil, nil, AlertDecodeError
 	}
 
+	if !schemeAllowed(certVerify.Algorithm, state.Config.SignatureSchemes) {
+		logf(logTypeHandshake, "[ServerStateWaitCV] Signature scheme that wasn't requested [%04x]", certVerify.Algorithm)
+		return nil, nil, AlertIllegalParameter
+	}
+
 	rawCerts := make([][]byte, len(state.clientCertificate.CertificateList))
 	certs := make([]*x509.Certificate, len(state.clientCertificate.CertificateList))
 	for i, certEntry := range state.clientCertificate.CertificateList {
-- 
2.43.0


From ff4ae83f0cfe20fb58722c69b613038c48f1ebaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:29 +0000
Subject: [PATCH 45/48] fix: sign the client's CertificateVerify with the
 client's context

---
 client-state-machine.go |  2 +-
 handshake-messages.go   | 34 +++++++++++++++++++++++++++++-----
 server-state-machine.go |  2 +-
 3 files changed, 31 insertions(+), 7 deletions(-)

diff --git a/client-state-machine.go b/client-state-machine.go
index 35dfaca..921d7fb 100644
--- a/client-state-machine.go
+++ b/client-state-machine.go
@@ -1091,7 +1091,7 @@ func (state clientStateWaitFinished) Next(hr handshakeMessageReader) (HandshakeS
 			certificateVerify := &CertificateVerifyBody{Algorithm: certScheme}
 			logf(logTypeHandshake, "Creating CertVerify: %04x %v", certScheme, state.cryptoParams.Hash)
 
-			err = certificateVerify.Sign(cert.PrivateKey, hcv)
+			err = certificateVerify.signClient(cert.PrivateKey, hcv)
 			if err != nil {
 				logf(logTypeHandshake, "[ClientStateWaitFinished] Error signing CertificateVerify [%v]", err)
 				return nil, nil, AlertInternalError
diff --git a/handshake-messages.go b/handshake-messages.go
index 54e66d7..4174190 100644
--- a/handshake-messages.go
+++ b/handshake-messages.go
@@ -351,10 +351,16 @@ func (cv *CertificateVerifyBody) Unmarshal(data []byte) (int, error) {
 	return syntax.Unmarshal(data, cv)
 }
 
+const (
+	contextServerCertificateVerify = "TLS 1.3, server CertificateVerify"
+	contextClientCertificateVerify = "TLS 1.3, client CertificateVerify"
+)
+
 func (cv *CertificateVerifyBody) EncodeSignatureInput(data []byte) []byte {
-	// TODO: Change context for client auth
-	// TODO: Put this in a const
-	const context = "TLS 1.3, server CertificateVerify"
+	return cv.encodeSignatureInput(contextServerCertificateVerify, data)
+}
+
+func (cv *CertificateVerifyBody) encodeSignatureInput(context string, data []byte) []byte {
 	sigInput := bytes.Repeat([]byte{0x20}, 64)
 	sigInput = append(sigInput, []byte(context)...)
 	sigInput = append(sigInput, []byte{0}...)
@@ -362,15 +368,33 @@ func (cv *CertificateVerifyBody) EncodeSignatureInput(data []byte) []byte {
 	return sigInput
 }
 
+// Sign and Verify handle the server's signature, signClient and verifyClient
+// the client's.
 func (cv *CertificateVerifyBody) Sign(privateKey crypto.Signer, handshakeHash []byte) (err error) {
-	sigInput := cv.EncodeSignatureInput(handshakeHash)
+	return cv.sign(privateKey, contextServerCertificateVerify, handshakeHash)
+}
+
+func (cv *CertificateVerifyBody) signClient(privateKey crypto.Signer, handshakeHash []byte) (err error) {
+	return cv.sign(privateKey, contextClientCertificateVerify, handshakeHash)
+}
+
+func (cv *CertificateVerifyBody) sign(privateKey crypto.Signer, context string, handshakeHash []byte) (err error) {
+	sigInput := cv.encodeSignatureInput(context, handshakeHash)
 	cv.Signature, err = sign(cv.Algorithm, privateKey, sigInput)
 	logf(logTypeHandshake, "Signed: alg=[%04x] sigInput=[%x], sig=[%x]", cv.Algorithm, sigInput, cv.Signature)
 	return
 }
 
 func (cv *CertificateVerifyBody) Verify(publicKey crypto.PublicKey, handshakeHash []byte) error {
-	sigInput := cv.EncodeSignatureInput(handshakeHash)
+	return cv.verify(publicKey, contextServerCertificateVerify, handshakeHash)
+}
+
+func (cv *CertificateVerifyBody) verifyClient(publicKey crypto.PublicKey, handshakeHash []byte) error {
+	return cv.verify(publicKey, contextClientCertificateVerify, handshakeHash)
+}
+
+func (cv *CertificateVerifyBody) verify(publicKey crypto.PublicKey, context string, handshakeHash []byte) error {
+	sigInput := cv.encodeSignatureInput(context, handshakeHash)
 	logf(logTypeHandshake, "About to verify: alg=[%04x] sigInput=[%x], sig=[%x]", cv.Algorithm, sigInput, cv.Signature)
 	return verify(cv.Algorithm, publicKey, sigInput, cv.Signature)
 }
diff --git a/server-state-machine.go b/server-state-machine.go
index 5238907..2f79022 100644
--- a/server-state-machine.go
+++ b/server-state-machine.go
@@ -1090,7 +1090,7 @@ func (state serverStateWaitCV) Next(hr handshakeMessageReader) (HandshakeState,
 	logf(logTypeHandshake, "Handshake Hash to be verified: [%d] %x", len(hcv), hcv)
 
 	clientPublicKey := state.clientCertificate.CertificateList[0].CertData.PublicKey
-	if err := certVerify.Verify(clientPublicKey, hcv); err != nil {
+	if err := certVerify.verifyClient(clientPublicKey, hcv); err != nil {
 		logf(logTypeHandshake, "[ServerStateWaitCV] Failure in client auth verification [%v]", err)
 		return nil, nil, AlertHandshakeFailure
 	}
-- 
2.43.0


From 7a1680c4063a6f9567a3887fd67d8436f69a1fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:25 +0000
Subject: [PATCH 46/48] fix: move past rejected early data

The state that reads past rejected early data referred to itself as its next
state, so that a handshake in which the server rejected early data never
finished.
---
 server-state-machine.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/server-state-machine.go b/server-state-machine.go
index 2f79022..a08d3c2 100644
--- a/server-state-machine.go
+++ b/server-state-machine.go
@@ -779,9 +779,10 @@ func (state serverStateNegotiated) Next(_ handshakeMessageReader) (HandshakeStat
 		exporterSecret:               exporterSecret,
 	}
 	if state.Params.RejectedEarlyData {
+		waitFlight2 := nextState
 		nextState = serverStateReadPastEarlyData{
 			hsCtx: state.hsCtx,
-			next:  &nextState,
+			next:  &waitFlight2,
 		}
 	}
 	return nextState, toSend, AlertNoAlert
-- 
2.43.0


From 4a7bcc327eebf20b678481d6151705ad61986f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:38 +0000
Subject: [PATCH 47/48] fix: accept only a ciphersuite that this ClientHello
 offered

With a pre-shared key the ClientHello offers only the suites with the key's
hash, but the ServerHello's suite was compared with all configured ones.
---
 client-state-machine.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/client-state-machine.go b/client-state-machine.go
index 921d7fb..7d75eac 100644
--- a/client-state-machine.go
+++ b/client-state-machine.go
@@ -280,6 +280,8 @@ func (state clientStateStart) Next(hr handshakeMessageReader) (HandshakeState, [
 		OfferedDH:  offeredDH,
 		OfferedPSK: offeredPSK,
 
+		offeredSuites: ch.CipherSuites,
+
 		earlySecret: earlySecret,
 		earlyHash:   earlyHash,
 
@@ -310,6 +312,8 @@ type clientStateWaitSH struct {
 	OfferedPSK PreSharedKey
 	PSK        []byte
 
+	offeredSuites []CipherSuite
+
 	earlySecret []byte
 	earlyHash   crypto.Hash
 
@@ -363,9 +367,9 @@ func (state clientStateWaitSH) Next(hr handshakeMessageReader) (HandshakeState,
 		logf(logTypeHandshake, "[ClientStateWaitSH] unsupported version [%x]", supportedVersions.Versions[0])
 		return nil, nil, AlertProtocolVersion
 	}
-	// 3. Check that the server provided a supported ciphersuite
+	// 3. Check that the server provided a ciphersuite that was offered
 	supportedCipherSuite := false
-	for _, suite := range state.Config.CipherSuites {
+	for _, suite := range state.offeredSuites {
 		supportedCipherSuite = supportedCipherSuite || (suite == sh.CipherSuite)
 	}
 	if !supportedCipherSuite {
-- 
2.43.0


From ac2574743a9f62b3dc898451a0443c849f14c0ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:50 +0000
Subject: [PATCH 48/48] fix: refuse exports that HKDF-Expand-Label cannot
 encode

---
 conn.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/conn.go b/conn.go
index 22a95dd..c7fed12 100644
--- a/conn.go
+++ b/conn.go
@@ -965,6 +965,15 @@ func (c *Conn) ComputeExporter(label string, context []byte, keyLength int) ([]b
 		return nil, fmt.Errorf("Internal error: no exporter secret")
 	}
 
+	// HKDF-Expand-Label encodes the length of its label in one byte, and cannot
+	// produce more than 255 hash outputs.
+	if keyLength < 0 || keyLength > 255*c.state.cryptoParams.Hash.Size() {
+		return nil, fmt.Errorf("Cannot export %d bytes of keying material", keyLength)
+	}
+	if len("tls13 ")+len(label) > 255 {
+		return nil, fmt.Errorf("Exporter label is too long")
+	}
+
 	h0 := c.state.cryptoParams.Hash.New().Sum(nil)
 	tmpSecret := deriveSecret(c.state.cryptoParams, c.state.exporterSecret, label, h0)
 
-- 
2.43.0

