From c9a30ec473ab0b4c4a8babe52fdd489fe2515a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:51 +0000
Subject: [PATCH 01/55] fix: decode SECS-II items whose length needs more than
 one length byte

The length bytes were shifted as uint8 values, so every length byte but the
last was lost and items of 256 bytes or more were decoded with a wrong size.
---
 lib-secs2-hsms-go/pkg/parser/hsms/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib-secs2-hsms-go/pkg/parser/hsms/parser.go b/lib-secs2-hsms-go/pkg/parser/hsms/parser.go
index a6f2671..65a70bf 100644
--- a/lib-secs2-hsms-go/pkg/parser/hsms/parser.go
+++ b/lib-secs2-hsms-go/pkg/parser/hsms/parser.go
@@ -143,7 +143,7 @@ func (p *parser) parseMessageText() (dataItem ast.ItemNode, ok bool) {
 	var length int
 	for i, b := range lengthBytes {
 		shift := (lengthBytesCount - i - 1) * 8
-		length += int(b << shift)
+		length += int(b) << shift
 	}
 	p.pos += lengthBytesCount
 
-- 
2.43.0


From e411518793b5409a9092726ea1ef25fcc3f1bfa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:34 +0000
Subject: [PATCH 02/55] fix: reject data messages whose text is inconsistent
 with the declared lengths

A list that declares more elements than there are bytes left is rejected
before its element slice is allocated, bytes after the top-level data item are
no longer ignored, and ASCII items are decoded in linear time.
---
 lib-secs2-hsms-go/pkg/parser/hsms/parser.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/lib-secs2-hsms-go/pkg/parser/hsms/parser.go b/lib-secs2-hsms-go/pkg/parser/hsms/parser.go
index 65a70bf..3ecca46 100644
--- a/lib-secs2-hsms-go/pkg/parser/hsms/parser.go
+++ b/lib-secs2-hsms-go/pkg/parser/hsms/parser.go
@@ -110,6 +110,10 @@ func (p *parser) parseMessage() (ok bool) {
 		if !ok {
 			return false
 		}
+		if p.pos != len(p.input) {
+			// Message text continues after the data item
+			return false
+		}
 		p.msg = ast.NewHSMSDataMessage("", stream, function, waitBit, "H<->E", dataItem, sessionID, systemBytes)
 		return true
 
@@ -149,6 +153,10 @@ func (p *parser) parseMessageText() (dataItem ast.ItemNode, ok bool) {
 
 	switch formatCode {
 	case formatCodeList:
+		if length > len(p.input)-p.pos {
+			// Each list element takes at least one byte of the input
+			return ast.NewEmptyItemNode(), false
+		}
 		values := make([]interface{}, length)
 		for i := 0; i < length; i++ {
 			values[i], ok = p.parseMessageText()
@@ -159,10 +167,7 @@ func (p *parser) parseMessageText() (dataItem ast.ItemNode, ok bool) {
 		return ast.NewListNode(values...), true
 
 	case formatCodeASCII:
-		var str string
-		for _, v := range p.input[p.pos : p.pos+length] {
-			str += string(v)
-		}
+		str := string(p.input[p.pos : p.pos+length])
 		p.pos += length
 		return ast.NewASCIINode(str), true
 
-- 
2.43.0


From 0408ac8b2a56b94853bc96b4452d53726a6d9ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:34 +0000
Subject: [PATCH 03/55] fix: bound list nesting when decoding a message

A message text of deeply nested lists overflowed the goroutine stack, which
terminates the process.
---
 lib-secs2-hsms-go/pkg/parser/hsms/parser.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lib-secs2-hsms-go/pkg/parser/hsms/parser.go b/lib-secs2-hsms-go/pkg/parser/hsms/parser.go
index 3ecca46..00d5898 100644
--- a/lib-secs2-hsms-go/pkg/parser/hsms/parser.go
+++ b/lib-secs2-hsms-go/pkg/parser/hsms/parser.go
@@ -42,6 +42,10 @@ const (
 	formatCodeU1      = 0o51
 	formatCodeU2      = 0o52
 	formatCodeU4      = 0o54
+
+	// maxListDepth bounds the nesting of lists in a message text, which
+	// otherwise grows the call stack with the size of the input.
+	maxListDepth = 256
 )
 
 // Parse parses the input bytes that represent a HSMS message.
@@ -71,6 +75,7 @@ type parser struct {
 	input     []byte          // a HSMS input message in bytes
 	pos       int             // current position in input
 	msgLength int             // message length (excluding length bytes)
+	depth     int             // number of lists being parsed
 	msg       ast.HSMSMessage // parsed HSMS message
 }
 
@@ -157,6 +162,10 @@ func (p *parser) parseMessageText() (dataItem ast.ItemNode, ok bool) {
 			// Each list element takes at least one byte of the input
 			return ast.NewEmptyItemNode(), false
 		}
+		if p.depth == maxListDepth {
+			return ast.NewEmptyItemNode(), false
+		}
+		p.depth += 1
 		values := make([]interface{}, length)
 		for i := 0; i < length; i++ {
 			values[i], ok = p.parseMessageText()
@@ -164,6 +173,7 @@ func (p *parser) parseMessageText() (dataItem ast.ItemNode, ok bool) {
 				return ast.NewEmptyItemNode(), false
 			}
 		}
+		p.depth -= 1
 		return ast.NewListNode(values...), true
 
 	case formatCodeASCII:
-- 
2.43.0


From 04e542be8f27bb500e8aebe2985d62931ee4b3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:34 +0000
Subject: [PATCH 04/55] fix: encode an empty item inside a list as a
 zero-length list

An empty item in a list was taken for an item variable without a name: a list
with one could not be converted to bytes, so nothing was sent, and a list with
two panicked. GEM replies contain one for every unknown or unreadable id.
---
 lib-secs2-hsms-go/pkg/ast/list.go | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/lib-secs2-hsms-go/pkg/ast/list.go b/lib-secs2-hsms-go/pkg/ast/list.go
index 0dd50ba..293dcb8 100644
--- a/lib-secs2-hsms-go/pkg/ast/list.go
+++ b/lib-secs2-hsms-go/pkg/ast/list.go
@@ -105,8 +105,10 @@ func (node *ListNode) Variables() []string {
 	var posVar map[int]string = node.variablesSwapKeyValue()
 	for i, item := range node.values {
 		if _, ok := item.(emptyItemNode); ok {
-			// Contains item node variable
-			result = append(result, posVar[i])
+			// Contains item node variable, unless it is an empty item
+			if name, ok := posVar[i]; ok {
+				result = append(result, name)
+			}
 		} else {
 			// Call Variables() of child node recursively
 			result = append(result, item.Variables()...)
@@ -155,6 +157,11 @@ func (node *ListNode) ToBytes() []byte {
 	}
 
 	for _, item := range node.values {
+		if _, ok := item.(emptyItemNode); ok {
+			// An empty item inside a list is a zero-length list
+			result = append(result, 0o00<<2+1, 0)
+			continue
+		}
 		// Call ToBytes() of child node recursively
 		childResult := item.ToBytes()
 		if len(childResult) == 0 {
@@ -265,6 +272,9 @@ func (node *ListNode) stringIndented(level int) string {
 			}
 			fmt.Fprintf(&sb, "%v  %v\n", indentStr, varName)
 			sizeDetermined = false
+		} else if _, ok := val.(emptyItemNode); ok {
+			// Empty item, i.e. a zero-length list
+			fmt.Fprintf(&sb, "%v  <L[0]>\n", indentStr)
 		} else {
 			// Child ItemNode
 			fmt.Fprintf(&sb, "%v  %v\n", indentStr, val)
@@ -387,7 +397,12 @@ func (node *ListNode) fillEllipsis(values map[string]interface{}, state *fillSta
 				nodeValues = append(nodeValues, NewASCIINodeVariable(varName, minLength, maxLength))
 			}
 		case emptyItemNode:
-			varName := state.getNewVariableName(posVar[i])
+			name, ok := posVar[i]
+			if !ok {
+				nodeValues = append(nodeValues, item)
+				continue
+			}
+			varName := state.getNewVariableName(name)
 			nodeValues = append(nodeValues, varName)
 		default:
 			variables := item.Variables()
-- 
2.43.0


From 078ee2bdae419271037a75944f000b5d5133381f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:30 +0000
Subject: [PATCH 05/55] fix: do not lose the wakeup of a Deque.Get that is
 about to wait

The notification channel was unbuffered, so a Put between Get's empty check
and its select woke nobody: the reply sat in the queue until Get timed out.
Get also checks the queue again before it reports a timeout.
---
 utils/queue.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/utils/queue.go b/utils/queue.go
index e063378..7e8a0dd 100644
--- a/utils/queue.go
+++ b/utils/queue.go
@@ -14,13 +14,18 @@ type Deque struct {
 }
 
 func NewDeque() *Deque {
-	return &Deque{container: list.New(), notEmptyNotify: make(chan struct{})}
+	return &Deque{container: list.New(), notEmptyNotify: make(chan struct{}, 1)}
 }
 
 func (s *Deque) Put(item interface{}) {
 	s.Lock()
 	s.container.PushFront(item)
 	s.Unlock()
+	s.notify()
+}
+
+// notify leaves a token for a Get that waits, or is about to wait, for an item.
+func (s *Deque) notify() {
 	select {
 	case s.notEmptyNotify <- struct{}{}:
 	default:
@@ -44,12 +49,15 @@ func (s *Deque) Get(timeout int) (interface{}, error) {
 		select {
 		case <-s.notEmptyNotify:
 		case <-time.After(remaining):
-			return nil, errors.New("time out in Get")
 		}
 		s.Lock()
 	}
 	lastContainerItem = s.container.Back()
 	item = s.container.Remove(lastContainerItem)
+	notEmpty := s.container.Len() > 0
 	s.Unlock()
+	if notEmpty {
+		s.notify()
+	}
 	return item, nil
 }
-- 
2.43.0


From 47a8c3441125e8b9c2e66647bd25cd17a3359069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:30 +0000
Subject: [PATCH 06/55] fix: build reject.req from the message that is rejected

NewHSMSMessageRejectReqFromMsg accepted only a type that no message has, so
rejecting a control request panicked, and it copied the wrong system bytes.
---
 lib-secs2-hsms-go/pkg/ast/hsms.go | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/lib-secs2-hsms-go/pkg/ast/hsms.go b/lib-secs2-hsms-go/pkg/ast/hsms.go
index b1a6d17..a99e144 100644
--- a/lib-secs2-hsms-go/pkg/ast/hsms.go
+++ b/lib-secs2-hsms-go/pkg/ast/hsms.go
@@ -205,13 +205,15 @@ func NewHSMSMessageRejectReq(sessionID uint16, pType, sType byte, systemBytes []
 	return &ControlMessage{header}
 }
 
-func NewHSMSMessageRejectReqFromMsg(rejectReq HSMSMessage, reasonCode byte) HSMSMessage {
-	if rejectReq.Type() != "Reject.req" {
-		panic("expected Reject.req message")
+// NewHSMSMessageRejectReqFromMsg creates HSMS Reject.req control message that
+// rejects the specified control message.
+func NewHSMSMessageRejectReqFromMsg(rejected HSMSMessage, reasonCode byte) HSMSMessage {
+	msg, ok := rejected.(*ControlMessage)
+	if !ok {
+		panic("expected control message")
 	}
 
 	header := make([]byte, 10)
-	msg, _ := rejectReq.(*ControlMessage)
 	header[0] = msg.header[0]
 	header[1] = msg.header[1]
 	if reasonCode == 2 {
@@ -221,10 +223,10 @@ func NewHSMSMessageRejectReqFromMsg(rejectReq HSMSMessage, reasonCode byte) HSMS
 	}
 	header[3] = reasonCode
 	header[5] = sTypeRejectReq
-	header[6] = msg.header[0]
-	header[7] = msg.header[1]
-	header[8] = msg.header[2]
-	header[9] = msg.header[3]
+	header[6] = msg.header[6]
+	header[7] = msg.header[7]
+	header[8] = msg.header[8]
+	header[9] = msg.header[9]
 
 	return &ControlMessage{header}
 }
-- 
2.43.0


From 4afe8f3a68bafd2926d44091fa34940a6766b471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:14 +0000
Subject: [PATCH 07/55] fix: do not dereference the HSMS session after it is
 gone

Control messages were sent through a session pointer that the receiver clears
when the peer disconnects, so a peer that connects and leaves at once, or that
sends more after separate.req, terminated the process.
---
 hsms/connection.go | 32 ++++++++++++++++++++------------
 hsms/protocol.go   |  7 ++-----
 2 files changed, 22 insertions(+), 17 deletions(-)

diff --git a/hsms/connection.go b/hsms/connection.go
index a635b6e..61e5f06 100644
--- a/hsms/connection.go
+++ b/hsms/connection.go
@@ -2,6 +2,7 @@ package hsms
 
 import (
 	"fmt"
+	"sync"
 
 	link "github.com/younglifestyle/secs4go"
 	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
@@ -25,6 +26,7 @@ type HsmsConnection struct {
 	remotePort    int
 	sessionID     int
 	hp            *HsmsProtocol
+	connectionMu  sync.RWMutex
 	connection    *link.Session
 }
 
@@ -40,31 +42,37 @@ func NewHsmsConnection(active bool, address string, port int, sessionID int, del
 }
 
 func (c *HsmsConnection) Session() *link.Session {
+	c.connectionMu.RLock()
+	defer c.connectionMu.RUnlock()
 	return c.connection
 }
 
 func (c *HsmsConnection) SetSession(session *link.Session) {
+	c.connectionMu.Lock()
+	defer c.connectionMu.Unlock()
 	c.connection = session
 }
 
 func (c *HsmsConnection) Send(msg interface{}) error {
-	if c.connection == nil {
+	connection := c.Session()
+	if connection == nil {
 		return ErrNotConnected
 	}
-	return c.connection.Send(msg)
+	return connection.Send(msg)
 }
 
 func (c *HsmsConnection) Close() error {
-	if c.connection == nil {
+	connection := c.Session()
+	if connection == nil {
 		return nil
 	}
-	return c.connection.Close()
+	return connection.Close()
 }
 
 func (c *HsmsConnection) sendRejectRsp(packet ast.HSMSMessage, reasonCode byte) {
 	rejectReq := ast.NewHSMSMessageRejectReqFromMsg(packet, reasonCode)
 	c.hp.logControlMessage("TX", rejectReq)
-	if err := c.connection.Send(rejectReq.ToBytes()); err != nil {
+	if err := c.Send(rejectReq.ToBytes()); err != nil {
 		c.hp.logger.Error("send reject rsp failed", "error", err)
 	}
 }
@@ -76,7 +84,7 @@ func (c *HsmsConnection) sendLinktestReq() {
 
 	message := ast.NewHSMSMessageLinktestReq(c.hp.encodeSystemID(systemID))
 	c.hp.logControlMessage("TX", message)
-	if err := c.connection.Send(message.ToBytes()); err != nil {
+	if err := c.Send(message.ToBytes()); err != nil {
 		c.hp.logger.Error("send linktest.req failed", "error", err)
 		return
 	}
@@ -89,7 +97,7 @@ func (c *HsmsConnection) sendLinktestReq() {
 func (c *HsmsConnection) sendDeselectRsp(message ast.HSMSMessage, status ControlStatus) {
 	response := ast.NewHSMSMessageDeselectRsp(message, byte(status))
 	c.hp.logControlMessage("TX", response)
-	if err := c.connection.Send(response.ToBytes()); err != nil {
+	if err := c.Send(response.ToBytes()); err != nil {
 		c.hp.logger.Error("send deselect.rsp failed", "error", err)
 	}
 }
@@ -97,7 +105,7 @@ func (c *HsmsConnection) sendDeselectRsp(message ast.HSMSMessage, status Control
 func (c *HsmsConnection) sendSelectRsp(message ast.HSMSMessage, status ControlStatus) {
 	response := ast.NewHSMSMessageSelectRsp(message, byte(status))
 	c.hp.logControlMessage("TX", response)
-	if err := c.connection.Send(response.ToBytes()); err != nil {
+	if err := c.Send(response.ToBytes()); err != nil {
 		c.hp.logger.Error("send select.rsp failed", "error", err)
 	}
 }
@@ -105,7 +113,7 @@ func (c *HsmsConnection) sendSelectRsp(message ast.HSMSMessage, status ControlSt
 func (c *HsmsConnection) sendLinkTestRsp(message ast.HSMSMessage) {
 	response := ast.NewHSMSMessageLinktestRsp(message)
 	c.hp.logControlMessage("TX", response)
-	if err := c.connection.Send(response.ToBytes()); err != nil {
+	if err := c.Send(response.ToBytes()); err != nil {
 		c.hp.logger.Error("send linktest.rsp failed", "error", err)
 	}
 }
@@ -113,7 +121,7 @@ func (c *HsmsConnection) sendLinkTestRsp(message ast.HSMSMessage) {
 func (c *HsmsConnection) sendReject(message ast.HSMSMessage, reason RejectReason) {
 	reject := ast.NewHSMSMessageRejectReqFromMsg(message, byte(reason))
 	c.hp.logControlMessage("TX", reject)
-	if err := c.connection.Send(reject.ToBytes()); err != nil {
+	if err := c.Send(reject.ToBytes()); err != nil {
 		c.hp.logger.Error("send reject.req failed", "error", err)
 	}
 }
@@ -125,7 +133,7 @@ func (c *HsmsConnection) sendSelectReq() error {
 
 	request := ast.NewHSMSMessageSelectReq(uint16(c.hp.sessionID), c.hp.encodeSystemID(systemID))
 	c.hp.logControlMessage("TX", request)
-	if err := c.connection.Send(request.ToBytes()); err != nil {
+	if err := c.Send(request.ToBytes()); err != nil {
 		c.hp.logger.Error("send select.req failed", "error", err)
 		return err
 	}
@@ -158,7 +166,7 @@ func (c *HsmsConnection) sendDeselectReq() error {
 
 	request := ast.NewHSMSMessageDeselectReq(uint16(c.hp.sessionID), c.hp.encodeSystemID(systemID))
 	c.hp.logControlMessage("TX", request)
-	if err := c.connection.Send(request.ToBytes()); err != nil {
+	if err := c.Send(request.ToBytes()); err != nil {
 		c.hp.logger.Error("send deselect.req failed", "error", err)
 		return err
 	}
diff --git a/hsms/protocol.go b/hsms/protocol.go
index 8520fa6..7749272 100644
--- a/hsms/protocol.go
+++ b/hsms/protocol.go
@@ -779,14 +779,11 @@ func (p *HsmsProtocol) handleDataMessage(message *ast.DataMessage) {
 
 func (p *HsmsProtocol) OnConnectionEstablishedAndStartReceiver(connection *link.Session) {
 	if !p.active {
-		if p.hsmsConnection.Session() == nil {
-			p.hsmsConnection.SetSession(connection)
-		} else if !p.hsmsConnection.Session().IsClosed() {
+		if current := p.hsmsConnection.Session(); current != nil && !current.IsClosed() {
 			_ = connection.Close()
 			return
-		} else {
-			p.hsmsConnection.SetSession(connection)
 		}
+		p.hsmsConnection.SetSession(connection)
 	}
 
 	done := make(chan struct{})
-- 
2.43.0


From 9c569b2704eb2e7a03a061e4ad2bb5bcf6736744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:46 +0000
Subject: [PATCH 08/55] fix: tie the linktest loop to its connection

A stop was dropped when the loop had not stored its ticker yet, or was drained
by the loop of the next connection; the old loop then kept sending linktests
on connections that were not its own. A linktest interval of zero, which made
NewTicker panic, turns the loop off.
---
 hsms/protocol.go | 74 +++++++++++++++++++++---------------------------
 1 file changed, 33 insertions(+), 41 deletions(-)

diff --git a/hsms/protocol.go b/hsms/protocol.go
index 7749272..e1fb17f 100644
--- a/hsms/protocol.go
+++ b/hsms/protocol.go
@@ -97,9 +97,8 @@ type HsmsProtocol struct {
 	handlers       map[string]DataMessageHandler
 	defaultHandler DataMessageHandler
 
-	linktestTimerMu sync.Mutex
-	linktestTimer   *time.Ticker
-	disconnectFlg   chan struct{}
+	linktestMu   sync.Mutex
+	linktestStop chan struct{}
 
 	t7TimerMu sync.Mutex
 	t7Timer   *time.Timer
@@ -133,7 +132,6 @@ func NewHsmsProtocol(address string, port int, active bool, sessionID int, name
 		timeouts:             NewSecsTimeout(),
 		systemQueues:         make(map[uint32]*utils.Deque),
 		handlers:             make(map[string]DataMessageHandler),
-		disconnectFlg:        make(chan struct{}, 1),
 		connectThreadRunning: atomic.NewBool(false),
 	}
 	h.logCfg.Writer = os.Stderr
@@ -150,54 +148,51 @@ func NewHsmsProtocol(address string, port int, active bool, sessionID int, name
 	return h
 }
 
-func (p *HsmsProtocol) clearDisconnectFlag() {
-	for {
-		select {
-		case <-p.disconnectFlg:
-		default:
-			return
-		}
+// newLinktestStop returns the channel that ends the linktest loop of the
+// connection being established; it replaces the one of an earlier connection.
+func (p *HsmsProtocol) newLinktestStop() chan struct{} {
+	p.linktestMu.Lock()
+	defer p.linktestMu.Unlock()
+
+	if p.linktestStop != nil {
+		close(p.linktestStop)
 	}
+	p.linktestStop = make(chan struct{})
+	return p.linktestStop
 }
 
-func (p *HsmsProtocol) startLinktestTimer() {
-	ticker := time.NewTicker(time.Duration(p.timeouts.Linktest()) * time.Second)
-
-	p.linktestTimerMu.Lock()
-	p.linktestTimer = ticker
-	p.linktestTimerMu.Unlock()
+func (p *HsmsProtocol) startLinktestTimer(stop <-chan struct{}) {
+	interval := time.Duration(p.timeouts.Linktest()) * time.Second
+	if interval <= 0 {
+		return
+	}
+	ticker := time.NewTicker(interval)
+	defer ticker.Stop()
 
-	defer func() {
-		ticker.Stop()
-		p.linktestTimerMu.Lock()
-		if p.linktestTimer == ticker {
-			p.linktestTimer = nil
+	for {
+		select {
+		case <-stop:
+			return
+		default:
 		}
-		p.linktestTimerMu.Unlock()
-	}()
 
-	p.clearDisconnectFlag()
-	p.hsmsConnection.sendLinktestReq()
+		p.hsmsConnection.sendLinktestReq()
 
-	for {
 		select {
 		case <-ticker.C:
-			p.hsmsConnection.sendLinktestReq()
-		case <-p.disconnectFlg:
+		case <-stop:
 			return
 		}
 	}
 }
 
 func (p *HsmsProtocol) stopLinktestTimer() {
-	p.linktestTimerMu.Lock()
-	defer p.linktestTimerMu.Unlock()
+	p.linktestMu.Lock()
+	defer p.linktestMu.Unlock()
 
-	if p.linktestTimer != nil {
-		select {
-		case p.disconnectFlg <- struct{}{}:
-		default:
-		}
+	if p.linktestStop != nil {
+		close(p.linktestStop)
+		p.linktestStop = nil
 	}
 }
 
@@ -260,6 +255,7 @@ func (p *HsmsProtocol) onStateDisconnect(ctx context.Context, _ *fsm.Event) {
 
 // onStateConnect is triggered when the HSMS connection transitions out of NOT-CONNECTED.
 func (p *HsmsProtocol) onStateConnect(ctx context.Context, _ *fsm.Event) {
+	stop := p.newLinktestStop()
 	go func() {
 		if p.active {
 			if err := p.hsmsConnection.sendSelectReq(); err != nil {
@@ -272,7 +268,7 @@ func (p *HsmsProtocol) onStateConnect(ctx context.Context, _ *fsm.Event) {
 			return
 		}
 
-		p.startLinktestTimer()
+		p.startLinktestTimer(stop)
 	}()
 }
 
@@ -352,10 +348,6 @@ func (p *HsmsProtocol) Disable() {
 			// allow a brief moment for remote to process before closing
 			time.Sleep(200 * time.Millisecond)
 		}
-		select {
-		case p.disconnectFlg <- struct{}{}:
-		default:
-		}
 		if err := p.hsmsConnection.Close(); err != nil {
 			p.logger.Error("close session failed", "error", err)
 		}
-- 
2.43.0


From 1bb48fa5a376ecfa8595d1be68e4f34b1771ffee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:46 +0000
Subject: [PATCH 09/55] fix: do not close a connection that is selected when T7
 expires

The T7 callback marked the connection as lost and closed it even when the
transition out of NOT-SELECTED failed because the peer had just selected.
---
 hsms/protocol.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hsms/protocol.go b/hsms/protocol.go
index e1fb17f..d6e5956 100644
--- a/hsms/protocol.go
+++ b/hsms/protocol.go
@@ -207,12 +207,12 @@ func (p *HsmsProtocol) startT7Timer() {
 		p.t7Timer.Stop()
 	}
 	p.t7Timer = time.AfterFunc(duration, func() {
-		p.logger.Warn("T7 timeout", "duration", duration)
-		p.connected.Store(false)
-		p.stopLinktestTimer()
 		if err := p.connectionState.TimeoutT7(); err != nil {
+			// Selected or disconnected in the meantime
 			p.logger.Error("timeoutT7 transition error", "error", err)
+			return
 		}
+		p.logger.Warn("T7 timeout", "duration", duration)
 		if err := p.hsmsConnection.Close(); err != nil {
 			p.logger.Error("close session after T7 timeout", "error", err)
 		}
-- 
2.43.0


From 1521d7a8baeb5f31d2ce334d937f9d6e4f6cab8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:47 +0000
Subject: [PATCH 10/55] fix: return to NOT-CONNECTED when the receiver stops on
 Disable

The receive loop that ended because the protocol was disabled closed the
connection but left the state machine CONNECTED, so the next connection after
Enable could not be selected.
---
 hsms/protocol.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hsms/protocol.go b/hsms/protocol.go
index d6e5956..cb1810b 100644
--- a/hsms/protocol.go
+++ b/hsms/protocol.go
@@ -794,6 +794,11 @@ func (p *HsmsProtocol) OnConnectionEstablishedAndStartReceiver(connection *link.
 		if sess := p.hsmsConnection.Session(); sess == connection {
 			p.hsmsConnection.SetSession(nil)
 		}
+		if p.connectionState.CurrentState() != StateNotConnected {
+			if err := p.connectionState.Disconnect(); err != nil {
+				p.logger.Error("change state to NOT-CONNECTED failed", "error", err)
+			}
+		}
 
 		close(done)
 	}()
-- 
2.43.0


From 582dd3e1535b7ade780ac2d3b948b672fdc3334f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:13 +0000
Subject: [PATCH 11/55] fix: do not listen after a passive endpoint was
 disabled

Disable between the start of the connect thread and the assignment of the
server found no server to stop, so the endpoint kept accepting connections.
---
 hsms/protocol.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hsms/protocol.go b/hsms/protocol.go
index cb1810b..a55f71f 100644
--- a/hsms/protocol.go
+++ b/hsms/protocol.go
@@ -442,9 +442,13 @@ func (p *HsmsProtocol) passiveConnect() error {
 
 	p.serverMu.Lock()
 	p.server = server
+	enabled := p.enabled.Load()
 	p.serverMu.Unlock()
 
-	err = server.SingleServe()
+	if enabled {
+		// Disable stops the server if it is called from now on
+		err = server.SingleServe()
+	}
 
 	p.serverMu.Lock()
 	if p.server == server {
-- 
2.43.0


From 045c2da141bc702c3a53460740314234f11ccc41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:13 +0000
Subject: [PATCH 12/55] fix: honour disabled auto-reconnect after a connection
 is lost

SetAutoReconnect(false) only stopped retries of a failed dial; an established
connection that was lost was dialed again.
---
 hsms/protocol.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hsms/protocol.go b/hsms/protocol.go
index a55f71f..0856c9e 100644
--- a/hsms/protocol.go
+++ b/hsms/protocol.go
@@ -415,6 +415,10 @@ func (p *HsmsProtocol) startConnectThread() {
 			if !p.enabled.Load() {
 				return
 			}
+			if !p.timeouts.AutoReconnect() {
+				p.logger.Info("auto-reconnect disabled, not reconnecting")
+				return
+			}
 			time.Sleep(time.Duration(p.timeouts.T5ConnSeparateTimeout()) * time.Second)
 			continue
 		}
-- 
2.43.0


From d2c005d7b8bfe4397213e86327f92cc2c0b8b702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:11 +0000
Subject: [PATCH 13/55] fix: ignore select.rsp and deselect.rsp without an open
 request

A peer could select or deselect a connection with a response nobody asked for,
and a refused deselect.rsp deselected it as well.
---
 hsms/protocol.go | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/hsms/protocol.go b/hsms/protocol.go
index 0856c9e..9b24479 100644
--- a/hsms/protocol.go
+++ b/hsms/protocol.go
@@ -538,14 +538,17 @@ func (p *HsmsProtocol) handleHsmsRequests(message ast.HSMSMessage) {
 		}
 
 	case hsms.SelectRspStr:
-		if queue, ok := p.fetchQueue(systemID); ok {
-			queue.Put(message)
-		}
 		ctrl, ok := message.(*ast.ControlMessage)
 		if !ok {
 			p.logger.Warn("received malformed select.rsp")
 			return
 		}
+		queue, ok := p.fetchQueue(systemID)
+		if !ok {
+			p.logger.Warn("received select.rsp without open select.req")
+			return
+		}
+		queue.Put(message)
 		if ControlStatus(ctrl.Status()) != ControlStatusAccepted {
 			p.logger.Warn("select.rsp rejected", "status", ctrl.Status())
 			p.connected.Store(false)
@@ -570,12 +573,17 @@ func (p *HsmsProtocol) handleHsmsRequests(message ast.HSMSMessage) {
 		}
 
 	case hsms.DeselectRspStr:
-		if err := p.connectionState.Deselect(); err != nil {
-			p.logger.Error("change state to NOT-SELECTED failed", "error", err)
+		queue, ok := p.fetchQueue(systemID)
+		if !ok {
+			p.logger.Warn("received deselect.rsp without open deselect.req")
+			return
 		}
-		if queue, ok := p.fetchQueue(systemID); ok {
-			queue.Put(message)
+		if ctrl, ok := message.(*ast.ControlMessage); ok && ControlStatus(ctrl.Status()) == ControlStatusAccepted {
+			if err := p.connectionState.Deselect(); err != nil {
+				p.logger.Error("change state to NOT-SELECTED failed", "error", err)
+			}
 		}
+		queue.Put(message)
 
 	case hsms.LinktestReqStr:
 		if !p.connected.Load() {
-- 
2.43.0


From d2b1483c40073acc2e1be2d1080fc38608991c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:11 +0000
Subject: [PATCH 14/55] fix: do not take a primary message for the reply of an
 open transaction

A primary message from the peer whose system bytes happened to equal those of
an open transaction was returned to the caller as its reply and never reached
its handler.
---
 hsms/protocol.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/hsms/protocol.go b/hsms/protocol.go
index 9b24479..e16407d 100644
--- a/hsms/protocol.go
+++ b/hsms/protocol.go
@@ -785,6 +785,13 @@ func (p *HsmsProtocol) handleDataMessage(message *ast.DataMessage) {
 	p.sendS9ErrorForUnrecognized(message)
 }
 
+// isReply reports whether the message can close an open transaction. Both sides
+// choose system bytes on their own, so the primary messages of the peer may
+// carry those of an open transaction. Stream 9 reports an error about one.
+func isReply(message *ast.DataMessage) bool {
+	return message.FunctionCode()%2 == 0 || message.StreamCode() == 9
+}
+
 func (p *HsmsProtocol) OnConnectionEstablishedAndStartReceiver(connection *link.Session) {
 	if !p.active {
 		if current := p.hsmsConnection.Session(); current != nil && !current.IsClosed() {
@@ -892,10 +899,12 @@ func (p *HsmsProtocol) OnConnectionEstablishedAndStartReceiver(connection *link.
 			continue
 		}
 
-		systemID := binary.BigEndian.Uint32(dataMessage.SystemBytes())
-		if queue, ok := p.fetchQueue(systemID); ok {
-			queue.Put(dataMessage)
-			continue
+		if isReply(dataMessage) {
+			systemID := binary.BigEndian.Uint32(dataMessage.SystemBytes())
+			if queue, ok := p.fetchQueue(systemID); ok {
+				queue.Put(dataMessage)
+				continue
+			}
 		}
 
 		p.handleDataMessage(dataMessage)
-- 
2.43.0


From 0fb5dc3ee82b314c8bb290bb4d4e09c99ca5244c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:27 +0000
Subject: [PATCH 15/55] fix: do not answer messages that expect no reply

Handlers' replies were sent for primaries without the wait bit, and replies
that close no open transaction were answered with S9F5. The S5F2 and S6F12 an
alarm or event report without wait bit provoked came back as S9 errors.
---
 hsms/protocol.go            | 3 ++-
 hsms/protocol_s9_helpers.go | 7 +++++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/hsms/protocol.go b/hsms/protocol.go
index e16407d..0385fb0 100644
--- a/hsms/protocol.go
+++ b/hsms/protocol.go
@@ -624,7 +624,8 @@ func (p *HsmsProtocol) invokeHandler(handler DataMessageHandler, msg *ast.DataMe
 		return
 	}
 
-	if response == nil {
+	if response == nil || msg.WaitBit() != "true" {
+		// Nothing to send, or the sender does not expect a reply
 		return
 	}
 
diff --git a/hsms/protocol_s9_helpers.go b/hsms/protocol_s9_helpers.go
index 1c3505c..e7d2475 100644
--- a/hsms/protocol_s9_helpers.go
+++ b/hsms/protocol_s9_helpers.go
@@ -18,6 +18,13 @@ func (p *HsmsProtocol) sendS9ErrorForUnrecognized(message *ast.DataMessage) {
 		return
 	}
 
+	// A reply that closes no open transaction, e.g. one that arrives after T3,
+	// is not a request that could be unrecognized
+	if function%2 == 0 {
+		p.logger.Debug("received reply without open transaction", "stream", stream, "function", function)
+		return
+	}
+
 	var s9Message *ast.DataMessage
 
 	// Check if it's an unknown stream entirely
-- 
2.43.0


From 1fa554b263b0b75478513aa7ec5c33e28ee8f562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:37 +0000
Subject: [PATCH 16/55] fix: run close callbacks without holding the session's
 callback lock

A session closing while it is put in or removed from a Channel deadlocked: the
callback waited for the channel lock with the callback lock held, the channel
operation the other way around.
---
 session.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/session.go b/session.go
index a010324..117c611 100644
--- a/session.go
+++ b/session.go
@@ -211,10 +211,15 @@ func (session *Session) RemoveCloseCallback(handler, key interface{}) {
 }
 
 func (session *Session) invokeCloseCallbacks() {
+	// Callbacks run without the lock: they may lock what the callers of
+	// AddCloseCallback and RemoveCloseCallback hold
 	session.closeMutex.Lock()
-	defer session.closeMutex.Unlock()
+	callback := session.firstCloseCallback
+	session.firstCloseCallback = nil
+	session.lastCloseCallback = nil
+	session.closeMutex.Unlock()
 
-	for callback := session.firstCloseCallback; callback != nil; callback = callback.Next {
+	for ; callback != nil; callback = callback.Next {
 		callback.Func()
 	}
 }
-- 
2.43.0


From 15f432ff385324ef27f96c8d4e27674168180a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:59 +0000
Subject: [PATCH 17/55] fix: keep only live sessions of their own key in a
 Channel

The close callback of a replaced session removed the session that had replaced
it, and a session closed before or while it was put stayed in the channel.
---
 channel.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/channel.go b/channel.go
index 225436c..1a313a3 100644
--- a/channel.go
+++ b/channel.go
@@ -48,11 +48,24 @@ func (channel *Channel) Put(key KEY, session *Session) {
 		channel.remove(key, session)
 	}
 	session.AddCloseCallback(channel, key, func() {
-		channel.Remove(key)
+		channel.removeClosed(key, session)
 	})
+	if session.IsClosed() {
+		// The callback may have been added too late to be called
+		return
+	}
 	channel.sessions[key] = session
 }
 
+// removeClosed removes a closed session, unless the key was given to another.
+func (channel *Channel) removeClosed(key KEY, session *Session) {
+	channel.mutex.Lock()
+	defer channel.mutex.Unlock()
+	if channel.sessions[key] == session {
+		delete(channel.sessions, key)
+	}
+}
+
 func (channel *Channel) remove(key KEY, session *Session) {
 	session.RemoveCloseCallback(channel, key)
 	delete(channel.sessions, key)
-- 
2.43.0


From 47ed64694def24f3a75b45b08d9fb6b2d986dbea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:59 +0000
Subject: [PATCH 18/55] fix: remove the callback given to Event.RemoveCallback

The addresses of two local variables were compared, which are never equal, so
no callback was ever removed.
---
 common/events.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/common/events.go b/common/events.go
index fee60da..022354f 100644
--- a/common/events.go
+++ b/common/events.go
@@ -2,6 +2,7 @@ package common
 
 import (
 	"sync"
+	"unsafe"
 )
 
 // Event represents a class to handle the callbacks for a single event.
@@ -24,14 +25,22 @@ func (e *Event) RemoveCallback(callback func(data map[string]interface{})) {
 	defer e.mutex.Unlock()
 
 	for i, cb := range e.callbacks {
-		if &cb == &callback {
-			// Remove the callback by copying the slice without the element at index i.
-			e.callbacks = append(e.callbacks[:i], e.callbacks[i+1:]...)
+		if sameCallback(cb, callback) {
+			// Build a new slice without the element at index i.
+			callbacks := make([]func(data map[string]interface{}), 0, len(e.callbacks)-1)
+			callbacks = append(callbacks, e.callbacks[:i]...)
+			e.callbacks = append(callbacks, e.callbacks[i+1:]...)
 			return
 		}
 	}
 }
 
+// sameCallback reports whether a and b are the same function value. Function
+// values are not comparable in Go, so the pointers they consist of are compared.
+func sameCallback(a, b func(data map[string]interface{})) bool {
+	return *(*unsafe.Pointer)(unsafe.Pointer(&a)) == *(*unsafe.Pointer)(unsafe.Pointer(&b))
+}
+
 // Fire raises the event and calls all callbacks.
 func (e *Event) Fire(data map[string]interface{}) {
 	e.mutex.Lock()
-- 
2.43.0


From ce5449768c09360a5bfa058557a20c0835611c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:59 +0000
Subject: [PATCH 19/55] fix: let event callbacks use the event

Fire called the callbacks with the event locked, so a callback that added or
removed one, or caused the event to fire again, never returned.
---
 common/events.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/common/events.go b/common/events.go
index 022354f..9c8cd09 100644
--- a/common/events.go
+++ b/common/events.go
@@ -44,9 +44,10 @@ func sameCallback(a, b func(data map[string]interface{})) bool {
 // Fire raises the event and calls all callbacks.
 func (e *Event) Fire(data map[string]interface{}) {
 	e.mutex.Lock()
-	defer e.mutex.Unlock()
+	callbacks := e.callbacks[:len(e.callbacks):len(e.callbacks)]
+	e.mutex.Unlock()
 
-	for _, callback := range e.callbacks {
+	for _, callback := range callbacks {
 		callback(data)
 	}
 }
-- 
2.43.0


From 47b0ecc5f3a0c8eb78f19a7bc972dd50c2d97cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:35 +0000
Subject: [PATCH 20/55] fix: give equipment replies a direction the ast package
 accepts

---
 gem/alarm_handlers.go | 6 +++---
 gem/clock_handlers.go | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/gem/alarm_handlers.go b/gem/alarm_handlers.go
index bb5ade2..1a8a932 100644
--- a/gem/alarm_handlers.go
+++ b/gem/alarm_handlers.go
@@ -119,7 +119,7 @@ func (g *GemHandler) onS5F7(msg *ast.DataMessage) (*ast.DataMessage, error) {
 //   3 - At least one ALID cannot be enabled
 func (g *GemHandler) buildS5F4(ackc5 byte) *ast.DataMessage {
 	body := ast.NewBinaryNode(int(ackc5))
-	return ast.NewDataMessage("EnableAlarmAck", 5, 4, 0, "E->H", body)
+	return ast.NewDataMessage("EnableAlarmAck", 5, 4, 0, "H<-E", body)
 }
 
 // buildS5F6 creates S5F6 response with alarm list.
@@ -146,7 +146,7 @@ func (g *GemHandler) buildS5F6(alarms []AlarmInfo) *ast.DataMessage {
 	}
 
 	body := ast.NewListNode(items...)
-	return ast.NewDataMessage("AlarmListData", 5, 6, 0, "E->H", body)
+	return ast.NewDataMessage("AlarmListData", 5, 6, 0, "H<-E", body)
 }
 
 // buildS5F8 creates S5F8 response with enabled alarm list (same format as S5F6).
@@ -169,7 +169,7 @@ func (g *GemHandler) buildS5F8(alarms []AlarmInfo) *ast.DataMessage {
 	}
 
 	body := ast.NewListNode(items...)
-	return ast.NewDataMessage("EnabledAlarmListData", 5, 8, 0, "E->H", body)
+	return ast.NewDataMessage("EnabledAlarmListData", 5, 8, 0, "H<-E", body)
 }
 
 // Public APIs for alarm management (Equipment side)
diff --git a/gem/clock_handlers.go b/gem/clock_handlers.go
index cf81a7c..3761ad5 100644
--- a/gem/clock_handlers.go
+++ b/gem/clock_handlers.go
@@ -15,7 +15,7 @@ func (g *GemHandler) onS2F17(msg *ast.DataMessage) (*ast.DataMessage, error) {
 
 	// Build S2F18 response
 	body := ast.NewASCIINode(timeStr)
-	return ast.NewDataMessage("DateTimeData", 2, 18, 0, "E->H", body), nil
+	return ast.NewDataMessage("DateTimeData", 2, 18, 0, "H<-E", body), nil
 }
 
 // onS2F31 handles Date and Time Set Request (Equipment side).
@@ -54,7 +54,7 @@ func (g *GemHandler) onS2F31(msg *ast.DataMessage) (*ast.DataMessage, error) {
 // buildS2F32 creates S2F32 response with TIACK code.
 func (g *GemHandler) buildS2F32(tiack byte) *ast.DataMessage {
 	body := ast.NewBinaryNode(int(tiack))
-	return ast.NewDataMessage("DateTimeSetAck", 2, 32, 0, "E->H", body)
+	return ast.NewDataMessage("DateTimeSetAck", 2, 32, 0, "H<-E", body)
 }
 
 // Public APIs for clock management
-- 
2.43.0


From 2800fff11a9eec141a76f6ec5d5885bc472650d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:36 +0000
Subject: [PATCH 21/55] fix: accept identifiers that need eight bytes

---
 gem/id_utils.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gem/id_utils.go b/gem/id_utils.go
index 299d75b..f6d5bb5 100644
--- a/gem/id_utils.go
+++ b/gem/id_utils.go
@@ -57,7 +57,11 @@ func newIDInfo(value interface{}) (idInfo, error) {
 }
 
 func newIDInfoFromUint(value uint64) (idInfo, error) {
-	node := ast.NewUintNode(4, value)
+	byteSize := 4
+	if value > 0xFFFFFFFF {
+		byteSize = 8
+	}
+	node := ast.NewUintNode(byteSize, value)
 	return idInfo{raw: value, node: node, key: fmt.Sprintf("N:%d", value)}, nil
 }
 
-- 
2.43.0


From e59b29faab31601773d39d896e1d449e0028347b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:37 +0000
Subject: [PATCH 22/55] fix: report alarms whose identifier exceeds two bytes

---
 gem/alarm.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/gem/alarm.go b/gem/alarm.go
index 4f693fb..532431a 100644
--- a/gem/alarm.go
+++ b/gem/alarm.go
@@ -123,9 +123,14 @@ func (g *GemHandler) buildS5F1(alarm Alarm, set bool) *ast.DataMessage {
 		alcd = 1
 	}
 
+	idSize := 2
+	if alarm.ID > 0xFFFF {
+		idSize = 4
+	}
+
 	body := ast.NewListNode(
 		ast.NewBinaryNode(alcd),
-		ast.NewUintNode(2, alarm.ID),
+		ast.NewUintNode(idSize, alarm.ID),
 		ast.NewASCIINode(alarm.Text),
 	)
 
-- 
2.43.0


From 429431d80f9c874fbe73c20db28959d890052286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:37 +0000
Subject: [PATCH 23/55] fix: leave all events unchanged when S2F37 names an
 unknown CEID

---
 gem/collection_event_handlers.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gem/collection_event_handlers.go b/gem/collection_event_handlers.go
index 6743e92..7f2d929 100644
--- a/gem/collection_event_handlers.go
+++ b/gem/collection_event_handlers.go
@@ -329,12 +329,13 @@ func (g *GemHandler) setCollectionEventState(enable bool, ceids []idInfo) ERACKC
 	}
 
 	for _, ce := range ceids {
-		if link, ok := g.eventLinks[ce.key]; ok {
-			link.enabled = enable
-		} else {
+		if _, ok := g.eventLinks[ce.key]; !ok {
 			return ERACKCEIDUnknown
 		}
 	}
+	for _, ce := range ceids {
+		g.eventLinks[ce.key].enabled = enable
+	}
 	return ERACKAccepted
 }
 
-- 
2.43.0


From f0a236dfaaec9766e31ea59f7c431f4b0f2880ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:38 +0000
Subject: [PATCH 24/55] fix: do not link a report twice to a collection event

---
 gem/collection_event_handlers.go | 6 ++++++
 gem/collection_events.go         | 9 +++++----
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/gem/collection_event_handlers.go b/gem/collection_event_handlers.go
index 7f2d929..e1f6840 100644
--- a/gem/collection_event_handlers.go
+++ b/gem/collection_event_handlers.go
@@ -269,6 +269,7 @@ func (g *GemHandler) handleEventReportLinks(links []eventReportLinkMessage) LRAC
 	g.reportMu.Lock()
 	defer g.reportMu.Unlock()
 
+	requested := make(map[[2]string]bool)
 	for _, link := range links {
 		if _, ok := g.collectionEvents[link.ceid.key]; !ok {
 			return LRACKCEIDDoesNotExist
@@ -277,6 +278,11 @@ func (g *GemHandler) handleEventReportLinks(links []eventReportLinkMessage) LRAC
 			if _, ok := g.reports[rpt.key]; !ok {
 				return LRACKRPTIDDoesNotExist
 			}
+			pair := [2]string{link.ceid.key, rpt.key}
+			if requested[pair] {
+				return LRACKCEIDAlreadyLinked
+			}
+			requested[pair] = true
 			if existing, ok := g.eventLinks[link.ceid.key]; ok {
 				for _, existingRpt := range existing.reports {
 					if existingRpt == rpt.key {
diff --git a/gem/collection_events.go b/gem/collection_events.go
index f7d0b26..a5e34ad 100644
--- a/gem/collection_events.go
+++ b/gem/collection_events.go
@@ -77,12 +77,13 @@ func newCollectionEventLink(reports []string) *collectionEventLink {
 }
 
 func (link *collectionEventLink) removeReport(key string) {
-	for idx, rpt := range link.reports {
-		if rpt == key {
-			link.reports = append(link.reports[:idx], link.reports[idx+1:]...)
-			return
+	remaining := make([]string, 0, len(link.reports))
+	for _, rpt := range link.reports {
+		if rpt != key {
+			remaining = append(remaining, rpt)
 		}
 	}
+	link.reports = remaining
 }
 
 func ensureIDInfoSlice(values []interface{}) ([]idInfo, error) {
-- 
2.43.0


From a58b8012c758f2bb34c7e7acb5337485e8703fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:46 +0000
Subject: [PATCH 25/55] fix: read an event's reports consistently while they
 are redefined

---
 gem/collection_event_handlers.go | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/gem/collection_event_handlers.go b/gem/collection_event_handlers.go
index e1f6840..4b0402f 100644
--- a/gem/collection_event_handlers.go
+++ b/gem/collection_event_handlers.go
@@ -106,24 +106,20 @@ func (g *GemHandler) buildCollectionEventPayload(key string) ([]ast.ItemNode, in
 
 	g.reportMu.RLock()
 	link, linked := g.eventLinks[key]
-	g.reportMu.RUnlock()
 	if !linked || !link.enabled || len(link.reports) == 0 {
+		g.reportMu.RUnlock()
 		return nil, 0, nil, nil
 	}
-
-	g.reportMu.RLock()
-	reportKeys := append([]string{}, link.reports...)
-	g.reportMu.RUnlock()
-
-	reportNodes := make([]ast.ItemNode, 0, len(reportKeys))
-	for _, rptKey := range reportKeys {
-		g.reportMu.RLock()
-		report, exists := g.reports[rptKey]
-		g.reportMu.RUnlock()
-		if !exists {
-			continue
+	reports := make([]*ReportDefinition, 0, len(link.reports))
+	for _, rptKey := range link.reports {
+		if report, exists := g.reports[rptKey]; exists {
+			reports = append(reports, report)
 		}
+	}
+	g.reportMu.RUnlock()
 
+	reportNodes := make([]ast.ItemNode, 0, len(reports))
+	for _, report := range reports {
 		values := g.collectReportValues(report)
 		reportNodes = append(reportNodes, ast.NewListNode(report.idNode(), ast.NewListNode(values...)))
 	}
-- 
2.43.0


From 56e9f62ceb2cf1eb68b8b9f7b7642b773323bc98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:46 +0000
Subject: [PATCH 26/55] fix: apply an S2F15 only if every value is valid

---
 gem/equipment_constants.go       | 12 ++++++++++++
 gem/status_equipment_handlers.go |  8 ++++++++
 2 files changed, 20 insertions(+)

diff --git a/gem/equipment_constants.go b/gem/equipment_constants.go
index 7c6a75d..79435f9 100644
--- a/gem/equipment_constants.go
+++ b/gem/equipment_constants.go
@@ -135,6 +135,18 @@ func (ec *EquipmentConstant) Value() (ast.ItemNode, error) {
 	return ec.DefaultValue, nil
 }
 
+// validate runs the validator, if any, without changing the constant.
+func (ec *EquipmentConstant) validate(node ast.ItemNode) error {
+	ec.mu.RLock()
+	validator := ec.validator
+	ec.mu.RUnlock()
+
+	if validator == nil {
+		return nil
+	}
+	return validator(node)
+}
+
 // ApplyValue stores or forwards a new value.
 func (ec *EquipmentConstant) ApplyValue(node ast.ItemNode) error {
 	if node == nil {
diff --git a/gem/status_equipment_handlers.go b/gem/status_equipment_handlers.go
index a31a1bb..3aa3b6c 100644
--- a/gem/status_equipment_handlers.go
+++ b/gem/status_equipment_handlers.go
@@ -393,6 +393,14 @@ func (g *GemHandler) applyEquipmentConstantUpdates(updates []equipmentConstantUp
 		}
 	}
 
+	for _, upd := range updates {
+		constant := g.equipmentConstants[upd.id.key]
+		if err := constant.validate(upd.value); err != nil {
+			g.logger.Warn("equipment constant update rejected", "ecid", constant.ID(), "error", err)
+			return ECACKValidationError
+		}
+	}
+
 	for _, upd := range updates {
 		constant := g.equipmentConstants[upd.id.key]
 		if err := constant.ApplyValue(upd.value); err != nil {
-- 
2.43.0


From e92ef0948caa1e3cd078ddce260d82e2e5c8fa58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:10 +0000
Subject: [PATCH 27/55] fix: stay COMMUNICATING when an overtaken S1F13 attempt
 fails

---
 gem/communication_state.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/gem/communication_state.go b/gem/communication_state.go
index a4e8b37..90b0b0f 100644
--- a/gem/communication_state.go
+++ b/gem/communication_state.go
@@ -46,9 +46,14 @@ func (sm *stateMachine) setState(state CommunicationState) (prev CommunicationSt
 	return prev
 }
 
+// setStateWithWaitCRA starts waiting for the reply to S1F13. It does nothing once
+// communication is established.
 func (sm *stateMachine) setStateWithWaitCRA(state CommunicationState, duration time.Duration, timeout func()) {
 	sm.mu.Lock()
 	defer sm.mu.Unlock()
+	if sm.state == CommunicationStateCommunicating {
+		return
+	}
 	if sm.state == state {
 		sm.stopWaitCRALocked()
 	} else {
@@ -58,9 +63,14 @@ func (sm *stateMachine) setStateWithWaitCRA(state CommunicationState, duration t
 	sm.waitCRATimer = time.AfterFunc(duration, timeout)
 }
 
+// setStateWithWaitDelay starts the delay before the next S1F13. It does nothing once
+// communication is established.
 func (sm *stateMachine) setStateWithWaitDelay(state CommunicationState, duration time.Duration, timeout func()) {
 	sm.mu.Lock()
 	defer sm.mu.Unlock()
+	if sm.state == CommunicationStateCommunicating {
+		return
+	}
 	if sm.state == state {
 		sm.stopWaitDelayLocked()
 	} else {
-- 
2.43.0


From 3e522f1698d7dc49d8b8449b0e92b32d036375b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:10 +0000
Subject: [PATCH 28/55] fix: do not become COMMUNICATING after Disable

---
 gem/communication_state.go | 16 ++++++++++++++++
 gem/handler.go             |  5 ++++-
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/gem/communication_state.go b/gem/communication_state.go
index 90b0b0f..359423e 100644
--- a/gem/communication_state.go
+++ b/gem/communication_state.go
@@ -46,6 +46,22 @@ func (sm *stateMachine) setState(state CommunicationState) (prev CommunicationSt
 	return prev
 }
 
+// setStateIf changes the state only while allowed holds.
+func (sm *stateMachine) setStateIf(allowed func() bool, state CommunicationState) (prev CommunicationState, ok bool) {
+	sm.mu.Lock()
+	defer sm.mu.Unlock()
+
+	prev = sm.state
+	if !allowed() {
+		return prev, false
+	}
+	if prev != state {
+		sm.state = state
+		sm.stopTimersLocked()
+	}
+	return prev, true
+}
+
 // setStateWithWaitCRA starts waiting for the reply to S1F13. It does nothing once
 // communication is established.
 func (sm *stateMachine) setStateWithWaitCRA(state CommunicationState, duration time.Duration, timeout func()) {
diff --git a/gem/handler.go b/gem/handler.go
index 844c2e4..5995e11 100644
--- a/gem/handler.go
+++ b/gem/handler.go
@@ -638,7 +638,10 @@ func (g *GemHandler) scheduleRetry() {
 }
 
 func (g *GemHandler) setCommunicating() {
-	prev := g.state.setState(CommunicationStateCommunicating)
+	prev, ok := g.state.setStateIf(g.enabled.Load, CommunicationStateCommunicating)
+	if !ok {
+		return
+	}
 	if prev != CommunicationStateCommunicating {
 		g.notifyCommunicating()
 	}
-- 
2.43.0


From 5a74ceae47a29b69f568129fb4708f8f9551765e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:11 +0000
Subject: [PATCH 29/55] fix: leave COMMUNICATING when the HSMS session is
 deselected

---
 gem/handler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gem/handler.go b/gem/handler.go
index 5995e11..c4afef5 100644
--- a/gem/handler.go
+++ b/gem/handler.go
@@ -559,7 +559,7 @@ func (g *GemHandler) observe() {
 		return
 	}
 
-	if !g.protocol.Connected() {
+	if !g.protocol.Connected() || g.protocol.CurrentState() != hsms.StateConnectedSelected {
 		g.handshakeInProgress.Store(false)
 		g.setCommunicationState(CommunicationStateNotCommunicating)
 		return
-- 
2.43.0


From 676a83f6ab012aba9acbe50bd176b69c2c20825b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:11 +0000
Subject: [PATCH 30/55] fix: wait the configured delay before repeating S1F13

---
 gem/handler.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gem/handler.go b/gem/handler.go
index c4afef5..c963197 100644
--- a/gem/handler.go
+++ b/gem/handler.go
@@ -569,6 +569,9 @@ func (g *GemHandler) observe() {
 		if g.State() == CommunicationStateCommunicating {
 			return
 		}
+		if g.State() == CommunicationStateWaitDelay {
+			return
+		}
 		if g.handshakeInProgress.Load() {
 			return
 		}
-- 
2.43.0


From 21705a568b546d90bbc8e754b077050e2718573f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:59 +0000
Subject: [PATCH 31/55] fix: refuse a process program whose body cannot be
 stored

---
 gem/process_program_handlers.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/gem/process_program_handlers.go b/gem/process_program_handlers.go
index 4cbf641..0bc360a 100644
--- a/gem/process_program_handlers.go
+++ b/gem/process_program_handlers.go
@@ -55,12 +55,11 @@ func (g *GemHandler) onS7F3(msg *ast.DataMessage) (*ast.DataMessage, error) {
 	if err != nil {
 		return g.buildS7F4(1), nil
 	}
-	body := ""
-	if ascii, ok := bodyNode.(*ast.ASCIINode); ok {
-		if val, ok := ascii.Values().(string); ok {
-			body = val
-		}
+	ascii, ok := bodyNode.(*ast.ASCIINode)
+	if !ok {
+		return g.buildS7F4(1), nil
 	}
+	body, _ := ascii.Values().(string)
 
 	ack := 0
 	if g.processUploadHandler != nil {
-- 
2.43.0


From 34088cac9bc08e1f0fb3b782c75230cecb6adaa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:38 +0000
Subject: [PATCH 32/55] fix: reject a packet whose eight-byte length is
 negative

---
 codec/fixlen.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codec/fixlen.go b/codec/fixlen.go
index 3425c7e..f35525b 100644
--- a/codec/fixlen.go
+++ b/codec/fixlen.go
@@ -123,7 +123,7 @@ func (c *fixlenCodec) Receive() (interface{}, error) {
 		return nil, err
 	}
 	size := c.headDecoder(c.headBuf)
-	if size > c.maxRecv {
+	if size < 0 || size > c.maxRecv {
 		return nil, ErrTooLargePacket
 	}
 	if cap(c.bodyBuf) < size {
-- 
2.43.0


From 0409e89f529a8a558574b3a4e3a4d9ec97a7ed62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:38 +0000
Subject: [PATCH 33/55] fix: do not send a packet larger than its length field
 can express

---
 codec/fixlen.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/codec/fixlen.go b/codec/fixlen.go
index f35525b..d428c09 100644
--- a/codec/fixlen.go
+++ b/codec/fixlen.go
@@ -146,6 +146,9 @@ func (c *fixlenCodec) Send(msg interface{}) error {
 		return err
 	}
 	buff := c.sendBuf.Bytes()
+	if len(buff)-c.n > c.maxSend {
+		return ErrTooLargePacket
+	}
 	c.headEncoder(buff, len(buff)-c.n)
 	_, err = c.rw.Write(buff)
 	return err
-- 
2.43.0


From 8220a8a10fbace23529719d5c89ceb18d1fc4474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:38 +0000
Subject: [PATCH 34/55] fix: do not dereference the missing body of a JSON
 message

---
 codec/json.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/codec/json.go b/codec/json.go
index 0e24239..ffb4fa4 100644
--- a/codec/json.go
+++ b/codec/json.go
@@ -77,6 +77,10 @@ func (c *jsonCodec) Receive() (interface{}, error) {
 			body = reflect.New(t).Interface()
 		}
 	}
+	if in.Body == nil {
+		// The body is absent or null
+		return nil, nil
+	}
 	err = json.Unmarshal(*in.Body, &body)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From b6d10d854a78b2e5c7e52591b4feaad250839341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:39 +0000
Subject: [PATCH 35/55] fix: do not allocate a message before it arrives

---
 codec/secs2.go | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/codec/secs2.go b/codec/secs2.go
index ab38fe2..39273f8 100644
--- a/codec/secs2.go
+++ b/codec/secs2.go
@@ -13,6 +13,9 @@ import (
 var ErrMsgParsing = errors.New("message parsing error")
 var ErrMsgFormat = errors.New("message format error")
 
+// readChunkSize is the most that is allocated before the data for it arrived.
+const readChunkSize = 1 << 20
+
 type SecsIIProtocol struct{}
 
 func (s *SecsIIProtocol) NewCodec(rw io.ReadWriter) (link.Codec, error) {
@@ -51,16 +54,19 @@ func (c *secsIICodec) Receive() (interface{}, error) {
 	}
 
 	required := int(msgLength) + 4
-	if cap(c.bodyBuf) < required {
-		c.bodyBuf = make([]byte, required)
-	} else {
-		c.bodyBuf = c.bodyBuf[:required]
-	}
-
-	binary.BigEndian.PutUint32(c.bodyBuf, msgLength)
-
-	if _, err := io.ReadFull(c.rw, c.bodyBuf[4:required]); err != nil {
-		return nil, err
+	c.bodyBuf = append(c.bodyBuf[:0], c.headBuf...)
+
+	// Allocate as the data arrives, the length is only announced
+	for len(c.bodyBuf) < required {
+		start := len(c.bodyBuf)
+		size := required - start
+		if size > readChunkSize {
+			size = readChunkSize
+		}
+		c.bodyBuf = append(c.bodyBuf, make([]byte, size)...)
+		if _, err := io.ReadFull(c.rw, c.bodyBuf[start:]); err != nil {
+			return nil, err
+		}
 	}
 
 	msg, ok := hsms.Parse(c.bodyBuf[:required])
-- 
2.43.0


From 988e694034d51d9d9c88b23450fc7010a1eb22bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:12 +0000
Subject: [PATCH 36/55] fix: print quotes and backslashes of ASCII items so
 that SML can be parsed back

---
 lib-secs2-hsms-go/pkg/ast/ascii.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib-secs2-hsms-go/pkg/ast/ascii.go b/lib-secs2-hsms-go/pkg/ast/ascii.go
index 1243e8a..760e916 100644
--- a/lib-secs2-hsms-go/pkg/ast/ascii.go
+++ b/lib-secs2-hsms-go/pkg/ast/ascii.go
@@ -187,8 +187,9 @@ func (node *ASCIINode) String() string {
 	var sb strings.Builder
 	printableState := false
 	for _, ch := range node.value {
-		if ch < 32 || ch == 127 {
-			// ch is a non-printable control character
+		if ch < 32 || ch == 127 || ch == '"' || ch == '\\' {
+			// ch is a non-printable control character, or a character that
+			// has a special meaning inside double quotes
 			// 32: space, which is the first printable character, 127: del
 			if printableState {
 				printableState = false
-- 
2.43.0


From e237e113cf4f79179ecf90f71b85c7e048d1346d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:24 +0000
Subject: [PATCH 37/55] fix: refuse S5F3 with an alarm id without value

---
 gem/alarm_handlers.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/gem/alarm_handlers.go b/gem/alarm_handlers.go
index 1a8a932..a8740be 100644
--- a/gem/alarm_handlers.go
+++ b/gem/alarm_handlers.go
@@ -52,14 +52,16 @@ func (g *GemHandler) onS5F3(msg *ast.DataMessage) (*ast.DataMessage, error) {
 		switch typed := alidNode.(type) {
 		case *ast.UintNode:
 			values, _ := typed.Values().([]uint64)
-			if len(values) > 0 {
-				id = int(values[0])
+			if len(values) == 0 {
+				return g.buildS5F4(1), nil
 			}
+			id = int(values[0])
 		case *ast.IntNode:
 			values, _ := typed.Values().([]int64)
-			if len(values) > 0 {
-				id = int(values[0])
+			if len(values) == 0 {
+				return g.buildS5F4(1), nil
 			}
+			id = int(values[0])
 		default:
 			return g.buildS5F4(1), nil
 		}
-- 
2.43.0


From b160fdc60725dcd990f632d7a9a36568e0ae9ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:24 +0000
Subject: [PATCH 38/55] fix: report each control state change with its own
 states

---
 gem/handler.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/gem/handler.go b/gem/handler.go
index c963197..83554a1 100644
--- a/gem/handler.go
+++ b/gem/handler.go
@@ -92,6 +92,7 @@ type GemHandler struct {
 
 	logger common.Logger
 
+	controlMu                sync.Mutex
 	controlAttemptInProgress *atomic.Bool
 }
 
@@ -386,11 +387,15 @@ func (g *GemHandler) transitionControl(transition func(sm *ControlStateMachine)
 	if g.control == nil {
 		return ErrOperationNotSupported
 	}
+	// One transition at a time, so that each one is reported with its own states.
+	g.controlMu.Lock()
 	prev := g.control.State()
-	if err := transition(g.control); err != nil {
+	err := transition(g.control)
+	next := g.control.State()
+	g.controlMu.Unlock()
+	if err != nil {
 		return err
 	}
-	next := g.control.State()
 	g.onControlStateTransition(prev, next)
 	return nil
 }
-- 
2.43.0


From 8f8fac9f5f61815b9ee94ec1c09e2cf336ef7542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:14 +0000
Subject: [PATCH 39/55] fix: let an abandoned S1F1 attempt not decide a later
 one

---
 gem/handler.go | 34 ++++++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/gem/handler.go b/gem/handler.go
index 83554a1..97618f2 100644
--- a/gem/handler.go
+++ b/gem/handler.go
@@ -94,6 +94,7 @@ type GemHandler struct {
 
 	controlMu                sync.Mutex
 	controlAttemptInProgress *atomic.Bool
+	controlAttempt           *atomic.Uint64
 }
 
 // NewGemHandler creates a GEM handler backed by the provided HSMS protocol.
@@ -137,6 +138,7 @@ func NewGemHandler(opts Options) (*GemHandler, error) {
 		clockManager:             NewClockManager(),
 		logger:                   resolveLogger(opts.Logger),
 		controlAttemptInProgress: atomic.NewBool(false),
+		controlAttempt:           atomic.NewUint64(0),
 	}
 
 	handler.setCommunicationState(CommunicationStateNotCommunicating)
@@ -392,6 +394,10 @@ func (g *GemHandler) transitionControl(transition func(sm *ControlStateMachine)
 	prev := g.control.State()
 	err := transition(g.control)
 	next := g.control.State()
+	if prev == ControlStateAttemptOnline && next != prev {
+		g.controlAttempt.Inc()
+		g.controlAttemptInProgress.Store(false)
+	}
 	g.controlMu.Unlock()
 	if err != nil {
 		return err
@@ -404,9 +410,6 @@ func (g *GemHandler) onControlStateTransition(prev, next ControlState) {
 	if prev == next {
 		return
 	}
-	if prev == ControlStateAttemptOnline && next != ControlStateAttemptOnline {
-		g.controlAttemptInProgress.Store(false)
-	}
 	if g.events.ControlStateChanged != nil {
 		payload := map[string]interface{}{
 			"handler":  g,
@@ -469,8 +472,23 @@ func (g *GemHandler) initiateAttemptOnline() {
 		return
 	}
 
+	// An attempt that was abandoned in the meantime decides nothing any more.
+	attempt := g.controlAttempt.Load()
+	conclude := func(transition func(sm *ControlStateMachine) error) {
+		_ = g.transitionControl(func(sm *ControlStateMachine) error {
+			if g.controlAttempt.Load() != attempt {
+				return nil
+			}
+			return transition(sm)
+		})
+	}
+
 	go func() {
-		defer g.controlAttemptInProgress.Store(false)
+		defer func() {
+			if g.controlAttempt.Load() == attempt {
+				g.controlAttemptInProgress.Store(false)
+			}
+		}()
 
 		if g.ControlState() != ControlStateAttemptOnline {
 			return
@@ -478,7 +496,7 @@ func (g *GemHandler) initiateAttemptOnline() {
 
 		if g.State() != CommunicationStateCommunicating {
 			g.logger.Warn("attempt online while not communicating")
-			_ = g.transitionControl(func(sm *ControlStateMachine) error {
+			conclude(func(sm *ControlStateMachine) error {
 				return sm.AttemptOnlineFailHostOffline()
 			})
 			return
@@ -487,7 +505,7 @@ func (g *GemHandler) initiateAttemptOnline() {
 		resp, err := g.protocol.SendAndWait(g.buildS1F1())
 		if err != nil {
 			g.logger.Error("S1F1 request failed", "error", err)
-			_ = g.transitionControl(func(sm *ControlStateMachine) error {
+			conclude(func(sm *ControlStateMachine) error {
 				return sm.AttemptOnlineFailHostOffline()
 			})
 			return
@@ -498,13 +516,13 @@ func (g *GemHandler) initiateAttemptOnline() {
 			} else {
 				g.logger.Warn("unexpected nil response to S1F1")
 			}
-			_ = g.transitionControl(func(sm *ControlStateMachine) error {
+			conclude(func(sm *ControlStateMachine) error {
 				return sm.AttemptOnlineFailHostOffline()
 			})
 			return
 		}
 
-		_ = g.transitionControl(func(sm *ControlStateMachine) error {
+		conclude(func(sm *ControlStateMachine) error {
 			return sm.AttemptOnlineSuccess()
 		})
 	}()
-- 
2.43.0


From 50313adb68e467f5848c64b3e398213e01f4790e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:00 +0000
Subject: [PATCH 40/55] fix: take select, deselect and linktest responses only
 for answers to such requests

A select.rsp or deselect.rsp whose system bytes are those of an open data
request changed the session state, and a linktest.rsp ended the request.
---
 hsms/connection.go |  7 ++++---
 hsms/protocol.go   | 40 ++++++++++++++++++++++++++++------------
 2 files changed, 32 insertions(+), 15 deletions(-)

diff --git a/hsms/connection.go b/hsms/connection.go
index 61e5f06..0830244 100644
--- a/hsms/connection.go
+++ b/hsms/connection.go
@@ -6,6 +6,7 @@ import (
 
 	link "github.com/younglifestyle/secs4go"
 	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
+	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/parser/hsms"
 )
 
 var HSMSSTYPES = map[int]string{
@@ -79,7 +80,7 @@ func (c *HsmsConnection) sendRejectRsp(packet ast.HSMSMessage, reasonCode byte)
 
 func (c *HsmsConnection) sendLinktestReq() {
 	systemID := c.hp.getNextSystemCounter()
-	queue := c.hp.createQueue(systemID)
+	queue := c.hp.createQueue(systemID, hsms.LinktestReqStr)
 	defer c.hp.removeQueue(systemID)
 
 	message := ast.NewHSMSMessageLinktestReq(c.hp.encodeSystemID(systemID))
@@ -128,7 +129,7 @@ func (c *HsmsConnection) sendReject(message ast.HSMSMessage, reason RejectReason
 
 func (c *HsmsConnection) sendSelectReq() error {
 	systemID := c.hp.getNextSystemCounter()
-	queue := c.hp.createQueue(systemID)
+	queue := c.hp.createQueue(systemID, hsms.SelectReqStr)
 	defer c.hp.removeQueue(systemID)
 
 	request := ast.NewHSMSMessageSelectReq(uint16(c.hp.sessionID), c.hp.encodeSystemID(systemID))
@@ -161,7 +162,7 @@ func (c *HsmsConnection) sendSelectReq() error {
 
 func (c *HsmsConnection) sendDeselectReq() error {
 	systemID := c.hp.getNextSystemCounter()
-	queue := c.hp.createQueue(systemID)
+	queue := c.hp.createQueue(systemID, hsms.DeselectReqStr)
 	defer c.hp.removeQueue(systemID)
 
 	request := ast.NewHSMSMessageDeselectReq(uint16(c.hp.sessionID), c.hp.encodeSystemID(systemID))
diff --git a/hsms/protocol.go b/hsms/protocol.go
index 0385fb0..d123f67 100644
--- a/hsms/protocol.go
+++ b/hsms/protocol.go
@@ -58,6 +58,12 @@ func streamFunctionKey(stream, function int) string {
 	return fmt.Sprintf("S%02dF%02d", stream, function)
 }
 
+// openTransaction is an own request that waits for its reply.
+type openTransaction struct {
+	request string // message type of the request
+	queue   *utils.Deque
+}
+
 // HsmsProtocol represents the base class for creating Host/Equipment models.
 var (
 	ErrT3Timeout = errors.New("T3 timeout")
@@ -82,7 +88,7 @@ type HsmsProtocol struct {
 	hsmsConnection  *HsmsConnection
 
 	queueMu      sync.RWMutex
-	systemQueues map[uint32]*utils.Deque
+	systemQueues map[uint32]openTransaction
 
 	logMu      sync.RWMutex
 	logCfg     LoggingConfig
@@ -130,7 +136,7 @@ func NewHsmsProtocol(address string, port int, active bool, sessionID int, name
 		logger:               logger,
 		systemCounter:        atomic.NewUint32(rand.Uint32()),
 		timeouts:             NewSecsTimeout(),
-		systemQueues:         make(map[uint32]*utils.Deque),
+		systemQueues:         make(map[uint32]openTransaction),
 		handlers:             make(map[string]DataMessageHandler),
 		connectThreadRunning: atomic.NewBool(false),
 	}
@@ -286,19 +292,24 @@ func (p *HsmsProtocol) getNextSystemCounter() uint32 {
 	return uint32(num)
 }
 
-func (p *HsmsProtocol) createQueue(systemID uint32) *utils.Deque {
+func (p *HsmsProtocol) createQueue(systemID uint32, request string) *utils.Deque {
 	queue := utils.NewDeque()
 	p.queueMu.Lock()
-	p.systemQueues[systemID] = queue
+	p.systemQueues[systemID] = openTransaction{request: request, queue: queue}
 	p.queueMu.Unlock()
 	return queue
 }
 
-func (p *HsmsProtocol) fetchQueue(systemID uint32) (*utils.Deque, bool) {
+// fetchQueue finds the open transaction with the system bytes that was started
+// by the given type of request, or by any request if it is empty.
+func (p *HsmsProtocol) fetchQueue(systemID uint32, request string) (*utils.Deque, bool) {
 	p.queueMu.RLock()
-	queue, ok := p.systemQueues[systemID]
+	transaction, ok := p.systemQueues[systemID]
 	p.queueMu.RUnlock()
-	return queue, ok
+	if !ok || request != "" && transaction.request != request {
+		return nil, false
+	}
+	return transaction.queue, true
 }
 
 func (p *HsmsProtocol) removeQueue(systemID uint32) {
@@ -543,7 +554,7 @@ func (p *HsmsProtocol) handleHsmsRequests(message ast.HSMSMessage) {
 			p.logger.Warn("received malformed select.rsp")
 			return
 		}
-		queue, ok := p.fetchQueue(systemID)
+		queue, ok := p.fetchQueue(systemID, hsms.SelectReqStr)
 		if !ok {
 			p.logger.Warn("received select.rsp without open select.req")
 			return
@@ -573,7 +584,7 @@ func (p *HsmsProtocol) handleHsmsRequests(message ast.HSMSMessage) {
 		}
 
 	case hsms.DeselectRspStr:
-		queue, ok := p.fetchQueue(systemID)
+		queue, ok := p.fetchQueue(systemID, hsms.DeselectReqStr)
 		if !ok {
 			p.logger.Warn("received deselect.rsp without open deselect.req")
 			return
@@ -603,8 +614,13 @@ func (p *HsmsProtocol) handleHsmsRequests(message ast.HSMSMessage) {
 		_ = p.hsmsConnection.Close()
 		p.hsmsConnection.SetSession(nil)
 
+	case hsms.LinktestRspStr:
+		if queue, ok := p.fetchQueue(systemID, hsms.LinktestReqStr); ok {
+			queue.Put(message)
+		}
+
 	default:
-		if queue, ok := p.fetchQueue(systemID); ok {
+		if queue, ok := p.fetchQueue(systemID, ""); ok {
 			queue.Put(message)
 		}
 	}
@@ -902,7 +918,7 @@ func (p *HsmsProtocol) OnConnectionEstablishedAndStartReceiver(connection *link.
 
 		if isReply(dataMessage) {
 			systemID := binary.BigEndian.Uint32(dataMessage.SystemBytes())
-			if queue, ok := p.fetchQueue(systemID); ok {
+			if queue, ok := p.fetchQueue(systemID, hsms.DataMessageStr); ok {
 				queue.Put(dataMessage)
 				continue
 			}
@@ -952,7 +968,7 @@ func (p *HsmsProtocol) SendAndWait(message *ast.DataMessage) (*ast.DataMessage,
 	}
 
 	systemID := p.getNextSystemCounter()
-	queue := p.createQueue(systemID)
+	queue := p.createQueue(systemID, hsms.DataMessageStr)
 	defer p.removeQueue(systemID)
 
 	outgoing := message.SetSessionIDAndSystemBytes(p.sessionID, p.encodeSystemID(systemID))
-- 
2.43.0


From ca4578bf01c13747848f732848184178cd8e0acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:51 +0000
Subject: [PATCH 41/55] fix: Enable right after Disable starts the connect
 thread again

Enable did nothing when the thread of the earlier Enable was still ending,
and the endpoint stayed down for good.
---
 hsms/protocol.go | 34 +++++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/hsms/protocol.go b/hsms/protocol.go
index d123f67..36ed732 100644
--- a/hsms/protocol.go
+++ b/hsms/protocol.go
@@ -98,6 +98,7 @@ type HsmsProtocol struct {
 	connDone   chan struct{}
 
 	connectThreadRunning *atomic.Bool
+	enableCount          *atomic.Uint32
 
 	handlerMu      sync.RWMutex
 	handlers       map[string]DataMessageHandler
@@ -139,6 +140,7 @@ func NewHsmsProtocol(address string, port int, active bool, sessionID int, name
 		systemQueues:         make(map[uint32]openTransaction),
 		handlers:             make(map[string]DataMessageHandler),
 		connectThreadRunning: atomic.NewBool(false),
+		enableCount:          atomic.NewUint32(0),
 	}
 	h.logCfg.Writer = os.Stderr
 	h.logCfg.Mode = LoggingModeSML
@@ -328,6 +330,7 @@ func (p *HsmsProtocol) OnConnectionEstablished() {
 // Enable starts the connection manager.
 func (p *HsmsProtocol) Enable() {
 	if p.enabled.CompareAndSwap(false, true) {
+		p.enableCount.Inc()
 		if p.connectThreadRunning.CompareAndSwap(false, true) {
 			go p.startConnectThread()
 		}
@@ -388,19 +391,32 @@ func (p *HsmsProtocol) waitForConnectionClosure(timeout time.Duration) {
 }
 
 func (p *HsmsProtocol) startConnectThread() {
-	defer p.connectThreadRunning.Store(false)
-	for p.enabled.Load() {
+	for {
+		enables := p.connectLoop()
+		p.connectThreadRunning.Store(false)
+
+		// Enable starts no thread while this one is still ending
+		if !p.enabled.Load() || p.enableCount.Load() == enables || !p.connectThreadRunning.CompareAndSwap(false, true) {
+			return
+		}
+	}
+}
+
+// connectLoop connects until Disable or until no further attempt is due. It
+// returns how often the protocol had been enabled when its last round began.
+func (p *HsmsProtocol) connectLoop() (enables uint32) {
+	for enables = p.enableCount.Load(); p.enabled.Load(); enables = p.enableCount.Load() {
 		if p.active {
 			if err := p.activeConnect(); err != nil {
 				if !p.enabled.Load() {
-					return
+					return enables
 				}
 				p.logger.Error("connect failed", "error", err)
 
 				// Check if auto-reconnect is enabled
 				if !p.timeouts.AutoReconnect() {
 					p.logger.Info("auto-reconnect disabled, stopping connection attempts")
-					return
+					return enables
 				}
 
 				// Increment reconnect attempts
@@ -411,7 +427,7 @@ func (p *HsmsProtocol) startConnectThread() {
 				if maxAttempts > 0 && p.reconnectAttempts > maxAttempts {
 					p.logger.Warn("max reconnect attempts reached, stopping", "maxAttempts", maxAttempts)
 					p.reconnectAttempts = 0
-					return
+					return enables
 				}
 
 				// Calculate exponential backoff delay
@@ -424,11 +440,11 @@ func (p *HsmsProtocol) startConnectThread() {
 			p.reconnectAttempts = 0
 
 			if !p.enabled.Load() {
-				return
+				return enables
 			}
 			if !p.timeouts.AutoReconnect() {
 				p.logger.Info("auto-reconnect disabled, not reconnecting")
-				return
+				return enables
 			}
 			time.Sleep(time.Duration(p.timeouts.T5ConnSeparateTimeout()) * time.Second)
 			continue
@@ -436,14 +452,14 @@ func (p *HsmsProtocol) startConnectThread() {
 
 		if err := p.passiveConnect(); err != nil {
 			if !p.enabled.Load() {
-				return
+				return enables
 			}
 			p.logger.Error("listen failed", "error", err)
 			time.Sleep(time.Second)
 			continue
 		}
-
 	}
+	return enables
 }
 
 func (p *HsmsProtocol) passiveConnect() error {
-- 
2.43.0


From 8513301aaa641387561b3931d02cbd3fb74b686e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:43 +0000
Subject: [PATCH 42/55] fix: do not allocate a length-prefixed packet before it
 arrives

A peer that announced more than can be allocated, within the configured
limit, crashed the process.
---
 codec/fixlen.go | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/codec/fixlen.go b/codec/fixlen.go
index d428c09..0a02c4a 100644
--- a/codec/fixlen.go
+++ b/codec/fixlen.go
@@ -126,14 +126,20 @@ func (c *fixlenCodec) Receive() (interface{}, error) {
 	if size < 0 || size > c.maxRecv {
 		return nil, ErrTooLargePacket
 	}
-	if cap(c.bodyBuf) < size {
-		c.bodyBuf = make([]byte, size, size+128)
-	}
-	buff := c.bodyBuf[:size]
-	if _, err := io.ReadFull(c.rw, buff); err != nil {
-		return nil, err
+	// Allocate as the data arrives, the size is only announced
+	c.bodyBuf = c.bodyBuf[:0]
+	for len(c.bodyBuf) < size {
+		start := len(c.bodyBuf)
+		chunk := size - start
+		if chunk > readChunkSize {
+			chunk = readChunkSize
+		}
+		c.bodyBuf = append(c.bodyBuf, make([]byte, chunk)...)
+		if _, err := io.ReadFull(c.rw, c.bodyBuf[start:]); err != nil {
+			return nil, err
+		}
 	}
-	c.recvBuf.Reset(buff)
+	c.recvBuf.Reset(c.bodyBuf)
 	msg, err := c.base.Receive()
 	return msg, err
 }
-- 
2.43.0


From dffce14cfda709d50abc453622b5ed3e4d8df99b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:26 +0000
Subject: [PATCH 43/55] fix: trim comments by bytes that are whitespace, not by
 parts of characters

---
 lib-secs2-hsms-go/pkg/parser/sml/lexer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib-secs2-hsms-go/pkg/parser/sml/lexer.go b/lib-secs2-hsms-go/pkg/parser/sml/lexer.go
index a040773..b25fc04 100644
--- a/lib-secs2-hsms-go/pkg/parser/sml/lexer.go
+++ b/lib-secs2-hsms-go/pkg/parser/sml/lexer.go
@@ -338,7 +338,7 @@ func lexComment(l *lexer) stateFn {
 		return lexEOF
 	}
 
-	for unicode.IsSpace(rune(l.input[l.pos+i-1])) {
+	for strings.IndexByte(" \t\r\v\f", l.input[l.pos+i-1]) >= 0 {
 		i -= 1
 	}
 	l.pos += i
-- 
2.43.0


From 9daddb8e8cb01d34320f333d097c512afb75bb22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:26 +0000
Subject: [PATCH 44/55] fix: take every whitespace as a separator in SML
 message headers

---
 lib-secs2-hsms-go/pkg/parser/sml/lexer.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/lib-secs2-hsms-go/pkg/parser/sml/lexer.go b/lib-secs2-hsms-go/pkg/parser/sml/lexer.go
index b25fc04..017327f 100644
--- a/lib-secs2-hsms-go/pkg/parser/sml/lexer.go
+++ b/lib-secs2-hsms-go/pkg/parser/sml/lexer.go
@@ -221,11 +221,16 @@ func lexMessageHeader(l *lexer) stateFn {
 			return lexMessageHeader
 		}
 
-		switch r := l.next(); r {
+		r := l.next()
+		if unicode.IsSpace(r) {
+			// Whitespaces cannot be part of a message name
+			l.ignore()
+			continue
+		}
+
+		switch r {
 		case eof:
 			return lexEOF
-		case ' ', '\t', '\r', '\n':
-			l.ignore()
 		case '.':
 			l.emit(tokenTypeMessageEnd)
 			return lexMessageHeader
-- 
2.43.0


From 81f8ce3b797b999ad173c1491092cb29f20012fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:26 +0000
Subject: [PATCH 45/55] fix: report an SML string that is left open at its
 first character

---
 lib-secs2-hsms-go/pkg/parser/sml/lexer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib-secs2-hsms-go/pkg/parser/sml/lexer.go b/lib-secs2-hsms-go/pkg/parser/sml/lexer.go
index 017327f..81592b7 100644
--- a/lib-secs2-hsms-go/pkg/parser/sml/lexer.go
+++ b/lib-secs2-hsms-go/pkg/parser/sml/lexer.go
@@ -384,7 +384,7 @@ func lexQuotedString(l *lexer) stateFn {
 	l.accept(`"`)
 	i := strings.Index(l.input[l.pos:], `"`)
 	j := strings.IndexAny(l.input[l.pos:], "\r\n")
-	if i < 0 || (j > 0 && j < i) {
+	if i < 0 || (j >= 0 && j < i) {
 		return l.errorf("unclosed quoted string")
 	}
 	l.pos += i + 1 // Include the double quote
-- 
2.43.0


From d62f688e021711f59a0e02178f3b8c80420607a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:26 +0000
Subject: [PATCH 46/55] fix: report invalid escapes in SML strings

---
 lib-secs2-hsms-go/pkg/parser/sml/parser.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib-secs2-hsms-go/pkg/parser/sml/parser.go b/lib-secs2-hsms-go/pkg/parser/sml/parser.go
index 0db1739..815cbf1 100644
--- a/lib-secs2-hsms-go/pkg/parser/sml/parser.go
+++ b/lib-secs2-hsms-go/pkg/parser/sml/parser.go
@@ -419,7 +419,10 @@ func (p *parser) parseASCII(minLength, maxLength int) (item ast.ItemNode, ok boo
 
 		switch t.typ {
 		case tokenTypeQuotedString:
-			val, _ := strconv.Unquote(t.val)
+			val, err := strconv.Unquote(t.val)
+			if err != nil {
+				p.errorf(t, "invalid quoted string %s", t.val)
+			}
 			for _, r := range val {
 				if r > unicode.MaxASCII {
 					val = ""
-- 
2.43.0


From cf9cf3b5e582c0be30c701dbd4273cf911a4cc5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:26 +0000
Subject: [PATCH 47/55] fix: report malformed numbers in SML binary items

---
 lib-secs2-hsms-go/pkg/parser/sml/parser.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib-secs2-hsms-go/pkg/parser/sml/parser.go b/lib-secs2-hsms-go/pkg/parser/sml/parser.go
index 815cbf1..15192d6 100644
--- a/lib-secs2-hsms-go/pkg/parser/sml/parser.go
+++ b/lib-secs2-hsms-go/pkg/parser/sml/parser.go
@@ -485,7 +485,10 @@ func (p *parser) parseBinary() (item ast.ItemNode, ok bool) {
 	for _, t := range p.getDataItemValueTokens() {
 		switch t.typ {
 		case tokenTypeNumber:
-			val, _ := strconv.ParseInt(t.val, 0, 0)
+			val, err := strconv.ParseInt(t.val, 0, 0)
+			if err != nil && err.(*strconv.NumError).Err == strconv.ErrSyntax {
+				p.errorf(t, "expected number, found %q", t.val)
+			}
 			if !(0 <= val && val < 256) {
 				val = 0
 				p.errorf(t, "binary value overflow, should be in range of [0, 256)")
-- 
2.43.0


From 29bcf5efb49be80d3d91940e3617146b86e03392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:26 +0000
Subject: [PATCH 48/55] fix: refuse malformed binary literals in binary items

---
 lib-secs2-hsms-go/pkg/ast/binary.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib-secs2-hsms-go/pkg/ast/binary.go b/lib-secs2-hsms-go/pkg/ast/binary.go
index 4ce63b9..9d4c16a 100644
--- a/lib-secs2-hsms-go/pkg/ast/binary.go
+++ b/lib-secs2-hsms-go/pkg/ast/binary.go
@@ -54,7 +54,10 @@ func NewBinaryNode(values ...interface{}) ItemNode {
 			nodeValues = append(nodeValues, int(v))
 		case string:
 			if strings.HasPrefix(v, "0b") {
-				vAsInt64, _ := strconv.ParseInt(v, 0, 0)
+				vAsInt64, err := strconv.ParseInt(v, 0, 0)
+				if err != nil {
+					panic("input argument contains invalid binary format for BinaryNode")
+				}
 				nodeValues = append(nodeValues, int(vAsInt64))
 			} else {
 				if _, ok := nodeVariables[v]; ok {
-- 
2.43.0


From 056b5759854a52b3ba3e3961a6854dd2eb144af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:26 +0000
Subject: [PATCH 49/55] fix: refuse uint values beyond int64 in integer items

---
 lib-secs2-hsms-go/pkg/ast/int.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib-secs2-hsms-go/pkg/ast/int.go b/lib-secs2-hsms-go/pkg/ast/int.go
index 45e490e..579176f 100644
--- a/lib-secs2-hsms-go/pkg/ast/int.go
+++ b/lib-secs2-hsms-go/pkg/ast/int.go
@@ -53,6 +53,9 @@ func NewIntNode(byteSize int, values ...interface{}) ItemNode {
 		case int64:
 			nodeValues = append(nodeValues, value)
 		case uint:
+			if value > math.MaxInt64 {
+				panic("value overflow")
+			}
 			nodeValues = append(nodeValues, int64(value))
 		case uint8:
 			nodeValues = append(nodeValues, int64(value))
-- 
2.43.0


From 13b3591761ab5b6086f34948768c52943ac9d5a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:26 +0000
Subject: [PATCH 50/55] fix: refuse negative values in unsigned items

---
 lib-secs2-hsms-go/pkg/ast/uint.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/lib-secs2-hsms-go/pkg/ast/uint.go b/lib-secs2-hsms-go/pkg/ast/uint.go
index fe6f131..9cc296f 100644
--- a/lib-secs2-hsms-go/pkg/ast/uint.go
+++ b/lib-secs2-hsms-go/pkg/ast/uint.go
@@ -46,18 +46,25 @@ func NewUintNode(byteSize int, values ...interface{}) ItemNode {
 		nodeVariables map[string]int = make(map[string]int)
 	)
 
+	fromSigned := func(value int64) uint64 {
+		if value < 0 {
+			panic("value overflow")
+		}
+		return uint64(value)
+	}
+
 	for i, value := range values {
 		switch value := value.(type) {
 		case int:
-			nodeValues = append(nodeValues, uint64(value))
+			nodeValues = append(nodeValues, fromSigned(int64(value)))
 		case int8:
-			nodeValues = append(nodeValues, uint64(value))
+			nodeValues = append(nodeValues, fromSigned(int64(value)))
 		case int16:
-			nodeValues = append(nodeValues, uint64(value))
+			nodeValues = append(nodeValues, fromSigned(int64(value)))
 		case int32:
-			nodeValues = append(nodeValues, uint64(value))
+			nodeValues = append(nodeValues, fromSigned(int64(value)))
 		case int64:
-			nodeValues = append(nodeValues, uint64(value))
+			nodeValues = append(nodeValues, fromSigned(int64(value)))
 		case uint:
 			nodeValues = append(nodeValues, uint64(value))
 		case uint8:
-- 
2.43.0


From 3d8ee66ab68ed95d40123687bf6dc94371034cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:11 +0000
Subject: [PATCH 51/55] fix: take only S1F14 for the answer to S1F13

---
 gem/handler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gem/handler.go b/gem/handler.go
index 97618f2..accb48b 100644
--- a/gem/handler.go
+++ b/gem/handler.go
@@ -916,7 +916,7 @@ func (g *GemHandler) buildS1F18(onlack int) *ast.DataMessage {
 }
 
 func readCommAck(msg *ast.DataMessage) int {
-	if msg == nil {
+	if msg == nil || msg.StreamCode() != 1 || msg.FunctionCode() != 14 {
 		return -1
 	}
 	item, err := msg.Get(0)
-- 
2.43.0


From 1537098e62e94b1299b72924478cfdfdadde9233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:11 +0000
Subject: [PATCH 52/55] fix: send no S1F13 once the peer's S1F13 established
 communication

---
 gem/communication_state.go | 9 +++++----
 gem/handler.go             | 4 +++-
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/gem/communication_state.go b/gem/communication_state.go
index 359423e..6c2cee4 100644
--- a/gem/communication_state.go
+++ b/gem/communication_state.go
@@ -62,13 +62,13 @@ func (sm *stateMachine) setStateIf(allowed func() bool, state CommunicationState
 	return prev, true
 }
 
-// setStateWithWaitCRA starts waiting for the reply to S1F13. It does nothing once
-// communication is established.
-func (sm *stateMachine) setStateWithWaitCRA(state CommunicationState, duration time.Duration, timeout func()) {
+// setStateWithWaitCRA starts waiting for the reply to S1F13. It does nothing and
+// returns false once communication is established.
+func (sm *stateMachine) setStateWithWaitCRA(state CommunicationState, duration time.Duration, timeout func()) bool {
 	sm.mu.Lock()
 	defer sm.mu.Unlock()
 	if sm.state == CommunicationStateCommunicating {
-		return
+		return false
 	}
 	if sm.state == state {
 		sm.stopWaitCRALocked()
@@ -77,6 +77,7 @@ func (sm *stateMachine) setStateWithWaitCRA(state CommunicationState, duration t
 		sm.stopTimersLocked()
 	}
 	sm.waitCRATimer = time.AfterFunc(duration, timeout)
+	return true
 }
 
 // setStateWithWaitDelay starts the delay before the next S1F13. It does nothing once
diff --git a/gem/handler.go b/gem/handler.go
index accb48b..2b52022 100644
--- a/gem/handler.go
+++ b/gem/handler.go
@@ -637,7 +637,9 @@ func (g *GemHandler) initiateHandshake() {
 			waitCRA = 45 * time.Second
 		}
 
-		g.state.setStateWithWaitCRA(CommunicationStateWaitCRA, waitCRA, g.onWaitCRATimeout)
+		if !g.state.setStateWithWaitCRA(CommunicationStateWaitCRA, waitCRA, g.onWaitCRATimeout) {
+			return
+		}
 
 		dataMsg, err := g.protocol.SendAndWait(g.buildS1F13())
 		if err != nil {
-- 
2.43.0


From 8de82fad16263e4a31d4f4d0838e82e8c6cba7bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:58 +0000
Subject: [PATCH 53/55] fix: take only its own reply for the answer to a host
 request

---
 gem/alarm_client.go            |  6 +++---
 gem/handler.go                 | 22 ++++++++++++++++++----
 gem/status_equipment_client.go | 26 +++++++++++++-------------
 3 files changed, 34 insertions(+), 20 deletions(-)

diff --git a/gem/alarm_client.go b/gem/alarm_client.go
index 371c936..c40eed8 100644
--- a/gem/alarm_client.go
+++ b/gem/alarm_client.go
@@ -36,7 +36,7 @@ func (h *GemHandler) SendEnableAlarm(alarmIDs []int, enable bool) (byte, error)
 	)
 
 	req := ast.NewDataMessage("EnableAlarmReq", 5, 3, 1, "H->E", body)
-	resp, err := h.protocol.SendAndWait(req)
+	resp, err := h.request(req)
 	if err != nil {
 		return 0, fmt.Errorf("gem: S5F3 failed: %w", err)
 	}
@@ -60,7 +60,7 @@ func (h *GemHandler) RequestAlarmList() ([]AlarmInfo, error) {
 	}
 
 	req := ast.NewDataMessage("AlarmListReq", 5, 5, 1, "H->E", ast.NewListNode())
-	resp, err := h.protocol.SendAndWait(req)
+	resp, err := h.request(req)
 	if err != nil {
 		return nil, fmt.Errorf("gem: S5F5 failed: %w", err)
 	}
@@ -79,7 +79,7 @@ func (h *GemHandler) RequestEnabledAlarmList() ([]AlarmInfo, error) {
 	}
 
 	req := ast.NewDataMessage("EnabledAlarmListReq", 5, 7, 1, "H->E", ast.NewListNode())
-	resp, err := h.protocol.SendAndWait(req)
+	resp, err := h.request(req)
 	if err != nil {
 		return nil, fmt.Errorf("gem: S5F7 failed: %w", err)
 	}
diff --git a/gem/handler.go b/gem/handler.go
index 2b52022..16ad31b 100644
--- a/gem/handler.go
+++ b/gem/handler.go
@@ -620,6 +620,23 @@ func (g *GemHandler) ensureCommunicating() error {
 	return nil
 }
 
+// request sends a primary message and waits for its reply. Anything but the
+// secondary of the request - an abort (SxF0), another stream or function - is an error.
+func (g *GemHandler) request(msg *ast.DataMessage) (*ast.DataMessage, error) {
+	resp, err := g.protocol.SendAndWait(msg)
+	if err != nil {
+		return nil, err
+	}
+	if resp == nil {
+		return nil, fmt.Errorf("gem: no reply to S%dF%d", msg.StreamCode(), msg.FunctionCode())
+	}
+	if resp.StreamCode() != msg.StreamCode() || resp.FunctionCode() != msg.FunctionCode()+1 {
+		return nil, fmt.Errorf("gem: unexpected reply S%dF%d to S%dF%d",
+			resp.StreamCode(), resp.FunctionCode(), msg.StreamCode(), msg.FunctionCode())
+	}
+	return resp, nil
+}
+
 func (g *GemHandler) initiateHandshake() {
 	if !g.enabled.Load() {
 		return
@@ -950,13 +967,10 @@ func (g *GemHandler) SendRemoteCommand(command interface{}, params []RemoteComma
 		return RemoteCommandResult{}, err
 	}
 
-	resp, err := g.protocol.SendAndWait(msg)
+	resp, err := g.request(msg)
 	if err != nil {
 		return RemoteCommandResult{}, err
 	}
-	if resp == nil {
-		return RemoteCommandResult{}, errors.New("gem: missing S2F42 response")
-	}
 
 	result, err := parseRemoteCommandAck(resp)
 	if err != nil {
diff --git a/gem/status_equipment_client.go b/gem/status_equipment_client.go
index 5c23552..50cf694 100644
--- a/gem/status_equipment_client.go
+++ b/gem/status_equipment_client.go
@@ -41,7 +41,7 @@ func (g *GemHandler) RequestStatusVariables(ids ...interface{}) ([]StatusValue,
 	}
 
 	request := g.buildS1F3(idInfos)
-	response, err := g.protocol.SendAndWait(request)
+	response, err := g.request(request)
 	if err != nil {
 		return nil, err
 	}
@@ -73,7 +73,7 @@ func (g *GemHandler) RequestStatusVariableInfo(ids ...interface{}) ([]StatusVari
 	}
 
 	request := g.buildS1F11(idInfos)
-	response, err := g.protocol.SendAndWait(request)
+	response, err := g.request(request)
 	if err != nil {
 		return nil, err
 	}
@@ -107,7 +107,7 @@ func (g *GemHandler) RequestEquipmentConstants(ids ...interface{}) ([]EquipmentC
 	}
 
 	request := g.buildS2F13(idInfos)
-	response, err := g.protocol.SendAndWait(request)
+	response, err := g.request(request)
 	if err != nil {
 		return nil, err
 	}
@@ -139,7 +139,7 @@ func (g *GemHandler) RequestEquipmentConstantInfo(ids ...interface{}) ([]Equipme
 	}
 
 	request := g.buildS2F29(idInfos)
-	response, err := g.protocol.SendAndWait(request)
+	response, err := g.request(request)
 	if err != nil {
 		return nil, err
 	}
@@ -165,7 +165,7 @@ func (g *GemHandler) DefineReports(defs ...ReportDefinitionRequest) (int, error)
 		return -1, err
 	}
 
-	resp, err := g.protocol.SendAndWait(msg)
+	resp, err := g.request(msg)
 	if err != nil {
 		return -1, err
 	}
@@ -190,7 +190,7 @@ func (g *GemHandler) LinkEventReports(links ...EventReportLinkRequest) (int, err
 		return -1, err
 	}
 
-	resp, err := g.protocol.SendAndWait(msg)
+	resp, err := g.request(msg)
 	if err != nil {
 		return -1, err
 	}
@@ -219,7 +219,7 @@ func (g *GemHandler) EnableEventReports(enable bool, ceids ...interface{}) (int,
 		infoSlice = append(infoSlice, info)
 	}
 
-	resp, err := g.protocol.SendAndWait(g.buildS2F37(enable, infoSlice))
+	resp, err := g.request(g.buildS2F37(enable, infoSlice))
 	if err != nil {
 		return -1, err
 	}
@@ -245,7 +245,7 @@ func (g *GemHandler) RequestCollectionEventReport(ceid interface{}) (EventReport
 		return report, err
 	}
 
-	resp, err := g.protocol.SendAndWait(g.buildS6F15(info))
+	resp, err := g.request(g.buildS6F15(info))
 	if err != nil {
 		return report, err
 	}
@@ -267,7 +267,7 @@ func (g *GemHandler) UploadProcessProgram(ppid interface{}, body string) (int, e
 		return -1, err
 	}
 
-	resp, err := g.protocol.SendAndWait(g.buildS7F3(info, body))
+	resp, err := g.request(g.buildS7F3(info, body))
 	if err != nil {
 		return -1, err
 	}
@@ -292,7 +292,7 @@ func (g *GemHandler) RequestProcessProgram(ppid interface{}) (string, int, error
 		return "", -1, err
 	}
 
-	resp, err := g.protocol.SendAndWait(g.buildS7F5(info))
+	resp, err := g.request(g.buildS7F5(info))
 	if err != nil {
 		return "", -1, err
 	}
@@ -317,7 +317,7 @@ func (g *GemHandler) SendEquipmentConstantValues(updates []EquipmentConstantUpda
 		return -1, err
 	}
 
-	response, err := g.protocol.SendAndWait(msg)
+	response, err := g.request(msg)
 	if err != nil {
 		return -1, err
 	}
@@ -648,7 +648,7 @@ func (g *GemHandler) RequestDateTime() (string, error) {
 	// Build and send S2F17 (empty body)
 	request := ast.NewDataMessage("DateTimeRequest", 2, 17, 1, "H->E", ast.NewListNode())
 
-	response, err := g.protocol.SendAndWait(request)
+	response, err := g.request(request)
 	if err != nil {
 		return "", fmt.Errorf("gem: S2F17 failed: %w", err)
 	}
@@ -690,7 +690,7 @@ func (g *GemHandler) SetDateTime(timeStr string) (byte, error) {
 	body := ast.NewASCIINode(timeStr)
 	request := ast.NewDataMessage("DateTimeSetRequest", 2, 31, 1, "H->E", body)
 
-	response, err := g.protocol.SendAndWait(request)
+	response, err := g.request(request)
 	if err != nil {
 		return 0, fmt.Errorf("gem: S2F31 failed: %w", err)
 	}
-- 
2.43.0


From 88d70b79862333309c35f1d848f98a4e8431e19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:20 +0000
Subject: [PATCH 54/55] fix: what an item's or message's accessors return is
 the caller's copy

Values and SystemBytes returned the slices inside, so that changing what was
read changed a message documented as immutable, and with it every message
derived from it.
---
 lib-secs2-hsms-go/pkg/ast/ast.go     | 3 ++-
 lib-secs2-hsms-go/pkg/ast/binary.go  | 3 ++-
 lib-secs2-hsms-go/pkg/ast/boolean.go | 3 ++-
 lib-secs2-hsms-go/pkg/ast/float.go   | 3 ++-
 lib-secs2-hsms-go/pkg/ast/hsms.go    | 4 +++-
 lib-secs2-hsms-go/pkg/ast/int.go     | 3 ++-
 lib-secs2-hsms-go/pkg/ast/list.go    | 3 ++-
 lib-secs2-hsms-go/pkg/ast/uint.go    | 3 ++-
 8 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/lib-secs2-hsms-go/pkg/ast/ast.go b/lib-secs2-hsms-go/pkg/ast/ast.go
index 743615d..48a852a 100644
--- a/lib-secs2-hsms-go/pkg/ast/ast.go
+++ b/lib-secs2-hsms-go/pkg/ast/ast.go
@@ -4,6 +4,7 @@ package ast
 
 import (
 	"fmt"
+	"slices"
 	"unicode"
 )
 
@@ -197,7 +198,7 @@ func (node *DataMessage) SessionID() int {
 // SystemBytes returns the system bytes of the SECS-II message.
 // If the system bytes was not set, it will return []byte{0, 0, 0, 0}.
 func (node *DataMessage) SystemBytes() []byte {
-	return node.systemBytes
+	return slices.Clone(node.systemBytes)
 }
 
 // SetSessionIDAndSystemBytes sets session id and system bytes to the message.
diff --git a/lib-secs2-hsms-go/pkg/ast/binary.go b/lib-secs2-hsms-go/pkg/ast/binary.go
index 9d4c16a..ea8df90 100644
--- a/lib-secs2-hsms-go/pkg/ast/binary.go
+++ b/lib-secs2-hsms-go/pkg/ast/binary.go
@@ -2,6 +2,7 @@ package ast
 
 import (
 	"fmt"
+	"slices"
 	"strconv"
 	"strings"
 )
@@ -21,7 +22,7 @@ type BinaryNode struct {
 }
 
 func (node *BinaryNode) Values() interface{} {
-	return node.values
+	return slices.Clone(node.values)
 }
 
 func (node *BinaryNode) Type() string {
diff --git a/lib-secs2-hsms-go/pkg/ast/boolean.go b/lib-secs2-hsms-go/pkg/ast/boolean.go
index 938a9ef..ff228f4 100644
--- a/lib-secs2-hsms-go/pkg/ast/boolean.go
+++ b/lib-secs2-hsms-go/pkg/ast/boolean.go
@@ -2,6 +2,7 @@ package ast
 
 import (
 	"fmt"
+	"slices"
 	"strings"
 )
 
@@ -19,7 +20,7 @@ type BooleanNode struct {
 }
 
 func (node *BooleanNode) Values() interface{} {
-	return node.values
+	return slices.Clone(node.values)
 }
 
 func (node *BooleanNode) Type() string {
diff --git a/lib-secs2-hsms-go/pkg/ast/float.go b/lib-secs2-hsms-go/pkg/ast/float.go
index f79b563..0f7778c 100644
--- a/lib-secs2-hsms-go/pkg/ast/float.go
+++ b/lib-secs2-hsms-go/pkg/ast/float.go
@@ -3,6 +3,7 @@ package ast
 import (
 	"fmt"
 	"math"
+	"slices"
 	"strconv"
 	"strings"
 )
@@ -29,7 +30,7 @@ type FloatNode struct {
 }
 
 func (node *FloatNode) Values() interface{} {
-	return node.values
+	return slices.Clone(node.values)
 }
 
 func (node *FloatNode) Type() string {
diff --git a/lib-secs2-hsms-go/pkg/ast/hsms.go b/lib-secs2-hsms-go/pkg/ast/hsms.go
index a99e144..00cdfba 100644
--- a/lib-secs2-hsms-go/pkg/ast/hsms.go
+++ b/lib-secs2-hsms-go/pkg/ast/hsms.go
@@ -1,5 +1,7 @@
 package ast
 
+import "slices"
+
 // HSMS data message is defined in ast.go
 
 const (
@@ -285,7 +287,7 @@ func (msg *ControlMessage) ToBytes() []byte {
 }
 
 func (msg *ControlMessage) SystemBytes() []byte {
-	return msg.header[6:10]
+	return slices.Clone(msg.header[6:10])
 }
 
 // SessionID returns the session identifier encoded in the control message header.
diff --git a/lib-secs2-hsms-go/pkg/ast/int.go b/lib-secs2-hsms-go/pkg/ast/int.go
index 579176f..98fe6a6 100644
--- a/lib-secs2-hsms-go/pkg/ast/int.go
+++ b/lib-secs2-hsms-go/pkg/ast/int.go
@@ -3,6 +3,7 @@ package ast
 import (
 	"fmt"
 	"math"
+	"slices"
 	"strconv"
 	"strings"
 )
@@ -95,7 +96,7 @@ func (node *IntNode) Get(indices ...int) (ItemNode, error) {
 }
 
 func (node *IntNode) Values() interface{} {
-	return node.values
+	return slices.Clone(node.values)
 }
 
 func (node *IntNode) Type() string {
diff --git a/lib-secs2-hsms-go/pkg/ast/list.go b/lib-secs2-hsms-go/pkg/ast/list.go
index 293dcb8..768e7fe 100644
--- a/lib-secs2-hsms-go/pkg/ast/list.go
+++ b/lib-secs2-hsms-go/pkg/ast/list.go
@@ -2,6 +2,7 @@ package ast
 
 import (
 	"fmt"
+	"slices"
 	"strings"
 )
 
@@ -48,7 +49,7 @@ type ListNode struct {
 }
 
 func (node *ListNode) Values() interface{} {
-	return node.values
+	return slices.Clone(node.values)
 }
 
 func (node *ListNode) Type() string {
diff --git a/lib-secs2-hsms-go/pkg/ast/uint.go b/lib-secs2-hsms-go/pkg/ast/uint.go
index 9cc296f..c256778 100644
--- a/lib-secs2-hsms-go/pkg/ast/uint.go
+++ b/lib-secs2-hsms-go/pkg/ast/uint.go
@@ -2,6 +2,7 @@ package ast
 
 import (
 	"fmt"
+	"slices"
 	"strconv"
 	"strings"
 )
@@ -22,7 +23,7 @@ type UintNode struct {
 }
 
 func (node *UintNode) Values() interface{} {
-	return node.values
+	return slices.Clone(node.values)
 }
 
 func (node *UintNode) Type() string {
-- 
2.43.0


From 5e20d72df31d10726bdbe8cc8db2da310d7c6477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:00 +0000
Subject: [PATCH 55/55] fix: S2F15 refused by a constant's updater leaves the
 constants before it unchanged

An updater that failed after others had been called left the earlier entries
of the refused request applied.
---
 gem/equipment_constants.go       | 18 ++++++++++++++++++
 gem/status_equipment_handlers.go |  8 +++++++-
 2 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/gem/equipment_constants.go b/gem/equipment_constants.go
index 79435f9..c2e0b73 100644
--- a/gem/equipment_constants.go
+++ b/gem/equipment_constants.go
@@ -180,6 +180,24 @@ func (ec *EquipmentConstant) ApplyValue(node ast.ItemNode) error {
 	return nil
 }
 
+// restore puts back an earlier value after a refused request.
+func (ec *EquipmentConstant) restore(node ast.ItemNode) {
+	ec.mu.RLock()
+	updater := ec.updater
+	provider := ec.provider
+	ec.mu.RUnlock()
+
+	if updater != nil && node != nil {
+		_ = updater(node)
+	}
+
+	if provider == nil {
+		ec.mu.Lock()
+		ec.value = node
+		ec.mu.Unlock()
+	}
+}
+
 // EquipmentConstantValue represents an ECID and its associated value payload.
 type EquipmentConstantValue struct {
 	ID    interface{}
diff --git a/gem/status_equipment_handlers.go b/gem/status_equipment_handlers.go
index 3aa3b6c..254f127 100644
--- a/gem/status_equipment_handlers.go
+++ b/gem/status_equipment_handlers.go
@@ -401,10 +401,16 @@ func (g *GemHandler) applyEquipmentConstantUpdates(updates []equipmentConstantUp
 		}
 	}
 
-	for _, upd := range updates {
+	previous := make([]ast.ItemNode, len(updates))
+	for i, upd := range updates {
 		constant := g.equipmentConstants[upd.id.key]
+		previous[i], _ = constant.Value()
 		if err := constant.ApplyValue(upd.value); err != nil {
 			g.logger.Warn("equipment constant update rejected", "ecid", constant.ID(), "error", err)
+			// A refused request changes nothing
+			for i--; i >= 0; i-- {
+				g.equipmentConstants[updates[i].id.key].restore(previous[i])
+			}
 			return ECACKValidationError
 		}
 	}
-- 
2.43.0

