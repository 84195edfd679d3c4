From d4af0b5a1c780f20ddeb34363960995c7dfe758e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:37 +0000
Subject: [PATCH 01/79] fix: reading a bit of a SINT tag always failed because
 its value was taken for a byte

---
 types.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/types.go b/types.go
index 75730d6..e36bf1b 100644
--- a/types.go
+++ b/types.go
@@ -336,9 +336,9 @@ func getBit(t CIPType, v any, bitpos int) (bool, error) {
 		}
 	case CIPTypeSINT:
 		if bitpos >= 0 && bitpos < 8 {
-			x, ok := v.(byte)
+			x, ok := v.(int8)
 			if ok {
-				mask := byte(1 << bitpos)
+				mask := int8(1 << bitpos)
 				masked := x & mask
 				return masked != 0, nil
 			}
-- 
2.43.0


From 6aa1f4aa469bdc93631fd56f074e969580e18ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:37 +0000
Subject: [PATCH 02/79] fix: report a bit access outside the tag's type instead
 of returning false

---
 types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/types.go b/types.go
index e36bf1b..404d4c5 100644
--- a/types.go
+++ b/types.go
@@ -448,5 +448,5 @@ func getBit(t CIPType, v any, bitpos int) (bool, error) {
 	if err != nil {
 		return false, err
 	}
-	return false, err
+	return false, fmt.Errorf("bit %d was requested, which a value of type %v does not have", bitpos, t)
 }
-- 
2.43.0


From 044c484a7389e1c65e323ae4c995d6a90d5a8eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:37 +0000
Subject: [PATCH 03/79] fix: report a failed bit access in a multi tag read
 instead of returning nil for it

---
 read.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/read.go b/read.go
index d81fc46..3be9e81 100644
--- a/read.go
+++ b/read.go
@@ -945,8 +945,7 @@ func (client *Client) readList(tags []tagDesc) ([]any, error) {
 				}
 				val, err := getBit(rHdr.Type, value, iois[i].BitPosition)
 				if err != nil {
-					client.Logger.Warn("problem reading value for this guy")
-					continue
+					return nil, fmt.Errorf("problem reading bit of tag %v: %w", tags[i], err)
 				}
 				result_values[i] = val
 			} else if tags[i].TagType == CIPTypeSTRING {
-- 
2.43.0


From e2ca72883ccbbe380e1d6d81dc4c5c234964b1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:00 +0000
Subject: [PATCH 04/79] fix: close the connection before another caller can use
 it when a send or receive fails

---
 sendreceive.go | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/sendreceive.go b/sendreceive.go
index ad1efd2..b11071b 100644
--- a/sendreceive.go
+++ b/sendreceive.go
@@ -82,29 +82,38 @@ func (client *Client) send_recv_data(cmd CIPCommand, msgs ...any) (eipHeader, *b
 		return eipHeader{}, nil, fmt.Errorf("error preparing to send message: %w", err)
 	}
 	client.mutex.Lock()
+	defer client.mutex.Unlock()
 
 	err = client.sendData(buffer)
 	if err != nil {
-		client.mutex.Unlock()
-		err2 := client.Disconnect()
-		if err2 != nil {
-			return eipHeader{}, nil, fmt.Errorf("error disconnecting after send error %w: %w", err, err2)
-		}
+		client.dropConnection()
 		return eipHeader{}, nil, fmt.Errorf("error sending data resulting in forced disconnect: %w", err)
 	}
 
 	hdr, buf, err := client.recvData()
-	client.mutex.Unlock()
 	if err != nil {
-		err2 := client.Disconnect()
-		if err2 != nil {
-			return hdr, buf, fmt.Errorf("error disconnecting after recvError %w: %w", err, err2)
-		}
+		client.dropConnection()
 		return hdr, buf, fmt.Errorf("error receiving data resulting in forced disconnect: %w", err)
 	}
 	return hdr, buf, nil
 }
 
+// dropConnection closes the connection after a failed exchange. A response that is still outstanding
+// must never be taken for the response to a later request, so the caller has to hold the mutex from
+// before the request was sent until this returns.
+func (client *Client) dropConnection() {
+	err := client.conn.Close()
+	if err != nil {
+		client.Logger.Debug("error closing connection", "error", err)
+	}
+	if client.connStatus == connectionStatusConnected {
+		client.connStatus = connectionStatusDisconnected
+		if client.keepAliveRunning {
+			close(client.cancel_keepalive)
+		}
+	}
+}
+
 // recv_data reads the header and then the number of words it specifies.
 func (client *Client) recvData() (eipHeader, *bytes.Buffer, error) {
 
-- 
2.43.0


From f075ef6d05b11bdf6eff0ee11bbd0f4a6da6f9db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:14 +0000
Subject: [PATCH 05/79] fix: keepalive survives repeated start, cancel and
 disconnect and restarts with the connection

---
 client.go      |  3 ++-
 connect.go     | 52 ++++++++++++++++++++++++++++++++++++++------------
 disconnect.go  | 16 ++++++++++++----
 sendreceive.go |  4 +---
 4 files changed, 55 insertions(+), 20 deletions(-)

diff --git a/client.go b/client.go
index 5b9ae84..eaad545 100644
--- a/client.go
+++ b/client.go
@@ -69,7 +69,6 @@ type Client struct {
 	KeepAliveAutoStart bool           // if the state is changed the keepalive will continue to run unless cancelled
 	KeepAliveProps     []CIPAttribute // properties monitored during keep alive
 	KeepAliveFrequency time.Duration
-	keepAliveRunning   bool
 	KeepAlivePollTags  bool
 
 	RPI time.Duration // Request Packet Interval
@@ -100,7 +99,9 @@ type Client struct {
 	Context                uint64 // fun fact - rockwell PLCs don't mind being rick rolled.
 	sequenceNumber         atomic.Uint32
 
+	// cancels the running keepalive. nil if none is running. protected by keepAliveLock
 	cancel_keepalive chan struct{}
+	keepAliveLock    sync.Mutex
 
 	// this just lets us not have to re-process tag strings.
 	ioi_cache      map[string]*tagIOI
diff --git a/connect.go b/connect.go
index 83ca1b4..d840e4f 100644
--- a/connect.go
+++ b/connect.go
@@ -3,7 +3,6 @@ package gologix
 import (
 	"bytes"
 	"encoding/binary"
-	"errors"
 	"fmt"
 	"log/slog"
 	"net"
@@ -82,6 +81,12 @@ func (client *Client) Connect() error {
 		if success {
 			client.mutex.Lock()
 			client.connStatus = connectionStatusConnected
+			if client.KeepAliveAutoStart {
+				cancel := client.startKeepAlive()
+				if cancel != nil {
+					go client.runKeepAlive(cancel)
+				}
+			}
 			client.mutex.Unlock()
 		}
 	}()
@@ -163,9 +168,6 @@ func (client *Client) Connect() error {
 	}
 
 	success = true
-	if client.KeepAliveAutoStart {
-		go client.KeepAlive()
-	}
 	return nil
 }
 
@@ -196,14 +198,35 @@ func (client *Client) KeepAlive() {
 	if !client.KeepAliveAutoStart || client.SocketTimeout == 0 {
 		return
 	}
-	if client.keepAliveRunning {
-		err := errors.New("keepalive already running")
-		client.Logger.Warn(err.Error())
+	cancel := client.startKeepAlive()
+	if cancel == nil {
+		client.Logger.Warn("keepalive already running")
+		return
+	}
+	client.runKeepAlive(cancel)
+}
+
+// startKeepAlive registers a new keepalive and returns the channel that cancels it, or nil if there
+// is one already.
+func (client *Client) startKeepAlive() chan struct{} {
+	client.keepAliveLock.Lock()
+	defer client.keepAliveLock.Unlock()
+	if client.cancel_keepalive != nil {
+		return nil
 	}
-	client.Logger.Debug("starting keep alive")
 	client.cancel_keepalive = make(chan struct{})
-	client.keepAliveRunning = true
-	defer func() { client.keepAliveRunning = false }()
+	return client.cancel_keepalive
+}
+
+func (client *Client) runKeepAlive(cancel chan struct{}) {
+	client.Logger.Debug("starting keep alive")
+	defer func() {
+		client.keepAliveLock.Lock()
+		defer client.keepAliveLock.Unlock()
+		if client.cancel_keepalive == cancel {
+			client.cancel_keepalive = nil
+		}
+	}()
 
 	originalProps, err := client.GetAttrList(CipObject_ControllerInfo, 1, client.KeepAliveProps...)
 	if err != nil {
@@ -236,6 +259,12 @@ func (client *Client) KeepAlive() {
 			newProps, err := client.GetAttrList(CipObject_ControllerInfo, 1, client.KeepAliveProps...)
 			if err != nil {
 				client.Logger.Error("keepalive failed", slog.Any("err", err))
+				select {
+				case <-cancel:
+					// this keepalive's connection is already gone. Leave the one that may have replaced it alone.
+					return
+				default:
+				}
 				err = client.Disconnect()
 				if err != nil {
 					client.Logger.Warn("keepalive disconnect failed", slog.Any("err", err))
@@ -264,8 +293,7 @@ func (client *Client) KeepAlive() {
 				originalProps = newProps
 			}
 
-		case <-client.cancel_keepalive:
-			client.KeepAliveAutoStart = false
+		case <-cancel:
 			return
 		}
 	}
diff --git a/disconnect.go b/disconnect.go
index d32051c..4072b7b 100644
--- a/disconnect.go
+++ b/disconnect.go
@@ -65,9 +65,7 @@ func (client *Client) Disconnect() error {
 		client.mutex.Unlock()
 	}()
 
-	if client.keepAliveRunning {
-		close(client.cancel_keepalive)
-	}
+	client.stopKeepAlive()
 
 	items := make([]CIPItem, 2)
 	items[0] = CIPItem{} // null item
@@ -147,10 +145,20 @@ func (client *Client) KeepAliveCancel(force bool) error {
 	if client.KeepAliveAutoStart && !force {
 		return fmt.Errorf("unable to cancel keepalive due to AutoKeepAlive == true")
 	}
-	close(client.cancel_keepalive)
+	client.stopKeepAlive()
 	return nil
 }
 
+// stopKeepAlive tells the running keepalive to end, if there is one.
+func (client *Client) stopKeepAlive() {
+	client.keepAliveLock.Lock()
+	defer client.keepAliveLock.Unlock()
+	if client.cancel_keepalive != nil {
+		close(client.cancel_keepalive)
+		client.cancel_keepalive = nil
+	}
+}
+
 type msgCipUnRegister struct {
 	Service                CIPService
 	CipPathSize            byte
diff --git a/sendreceive.go b/sendreceive.go
index b11071b..8d739f5 100644
--- a/sendreceive.go
+++ b/sendreceive.go
@@ -108,9 +108,7 @@ func (client *Client) dropConnection() {
 	}
 	if client.connStatus == connectionStatusConnected {
 		client.connStatus = connectionStatusDisconnected
-		if client.keepAliveRunning {
-			close(client.cancel_keepalive)
-		}
+		client.stopKeepAlive()
 	}
 }
 
-- 
2.43.0


From f9bc2a69aeab4ed1f4da2a994952507e3e287bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:35 +0000
Subject: [PATCH 06/79] fix: a failed connect closes its socket

---
 connect.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/connect.go b/connect.go
index d840e4f..798772c 100644
--- a/connect.go
+++ b/connect.go
@@ -75,6 +75,10 @@ func (client *Client) Connect() error {
 	defer func() {
 		if !success {
 			client.mutex.Lock()
+			if client.conn != nil {
+				// a failed attempt must not leave a socket behind. It may be closed already.
+				client.conn.Close()
+			}
 			client.connStatus = connectionStatusDisconnected
 			client.mutex.Unlock()
 		}
@@ -132,12 +136,15 @@ func (client *Client) Connect() error {
 	}
 
 	address := fmt.Sprintf("%s:%v", client.Controller.IpAddress, client.Controller.Port)
-	client.conn, err = net.DialTimeout("tcp", address, client.SocketTimeout)
+	conn, err := net.DialTimeout("tcp", address, client.SocketTimeout)
 	if err != nil {
 		msg := "cannot connect to controller"
 		client.Logger.Error(msg, slog.Any("err", err))
 		return fmt.Errorf("%s: %w", msg, err)
 	}
+	client.mutex.Lock()
+	client.conn = conn
+	client.mutex.Unlock()
 
 	err = client.registerSession()
 	if err != nil {
-- 
2.43.0


From 28a535da90b73693ee9d545f52980766af3d94eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:36 +0000
Subject: [PATCH 07/79] fix: an operation waits for a connect or disconnect in
 progress in another goroutine instead of failing

---
 client.go     |  2 ++
 connect.go    | 15 ++++++++++++++-
 disconnect.go |  2 ++
 3 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/client.go b/client.go
index eaad545..1f9796f 100644
--- a/client.go
+++ b/client.go
@@ -86,6 +86,8 @@ type Client struct {
 	// tag reading functionality.
 	knownFirmware int
 
+	// held for the duration of a connect or disconnect. Locked before mutex.
+	lifecycleMutex sync.Mutex
 	// protects the connection and connection status
 	mutex      sync.Mutex
 	conn       net.Conn
diff --git a/connect.go b/connect.go
index 798772c..90b8138 100644
--- a/connect.go
+++ b/connect.go
@@ -67,6 +67,13 @@ func (client *Client) startConnect() error {
 // Returns an error if the connection fails due to network issues, invalid configuration,
 // PLC unavailability, or CIP protocol errors.
 func (client *Client) Connect() error {
+	client.lifecycleMutex.Lock()
+	defer client.lifecycleMutex.Unlock()
+	return client.connect()
+}
+
+// connect does the work of Connect. lifecycleMutex has to be held.
+func (client *Client) connect() error {
 	err := client.startConnect()
 	if err != nil {
 		return err
@@ -582,7 +589,13 @@ type msgEIPForwardOpen_Standard_Reply struct {
 func (client *Client) checkConnection() error {
 	if !client.Connected() {
 		if client.AutoConnect {
-			err := client.Connect()
+			client.lifecycleMutex.Lock()
+			defer client.lifecycleMutex.Unlock()
+			if client.Connected() {
+				// another goroutine connected in the mean time
+				return nil
+			}
+			err := client.connect()
 			if err != nil {
 				return fmt.Errorf("not connected and connect attempt failed: %w", err)
 			}
diff --git a/disconnect.go b/disconnect.go
index 4072b7b..aa6dc55 100644
--- a/disconnect.go
+++ b/disconnect.go
@@ -52,6 +52,8 @@ func (client *Client) startDisconnect() error {
 // Returns an error if already disconnected or if there are issues during the
 // disconnection sequence, but the connection will be closed regardless.
 func (client *Client) Disconnect() error {
+	client.lifecycleMutex.Lock()
+	defer client.lifecycleMutex.Unlock()
 	err := client.startDisconnect()
 	if err != nil {
 		return err
-- 
2.43.0


From 51321c96bfc9009b870ac8413327c92711ef56bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:37 +0000
Subject: [PATCH 08/79] fix: a request on a client that was never connected
 reports an error instead of crashing

---
 sendreceive.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sendreceive.go b/sendreceive.go
index 8d739f5..48e608f 100644
--- a/sendreceive.go
+++ b/sendreceive.go
@@ -84,6 +84,10 @@ func (client *Client) send_recv_data(cmd CIPCommand, msgs ...any) (eipHeader, *b
 	client.mutex.Lock()
 	defer client.mutex.Unlock()
 
+	if client.conn == nil {
+		return eipHeader{}, nil, fmt.Errorf("not connected")
+	}
+
 	err = client.sendData(buffer)
 	if err != nil {
 		client.dropConnection()
-- 
2.43.0


From 945fb6edd65d7557b74a4efcceeb54aff7a8ed71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:37 +0000
Subject: [PATCH 09/79] fix: do not send a request into the set up of the next
 connection

---
 sendreceive.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sendreceive.go b/sendreceive.go
index 48e608f..6bf206d 100644
--- a/sendreceive.go
+++ b/sendreceive.go
@@ -87,6 +87,10 @@ func (client *Client) send_recv_data(cmd CIPCommand, msgs ...any) (eipHeader, *b
 	if client.conn == nil {
 		return eipHeader{}, nil, fmt.Errorf("not connected")
 	}
+	if cmd == cipCommandSendUnitData && client.connStatus != connectionStatusConnected {
+		// the connection went away since the caller checked, and a new one may be half way through its set up.
+		return eipHeader{}, nil, fmt.Errorf("connection lost before the request could be sent")
+	}
 
 	err = client.sendData(buffer)
 	if err != nil {
-- 
2.43.0


From acf8cd886cdc22a10cd0ab01bf4010882a84b006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:57 +0000
Subject: [PATCH 10/79] fix: number attribute list requests like all other
 requests

---
 getattr.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/getattr.go b/getattr.go
index bf1e9ac..7035fc5 100644
--- a/getattr.go
+++ b/getattr.go
@@ -253,7 +253,7 @@ func (client *Client) GetAttrList(class CIPClass, instance CIPInstance, attrs ..
 	}
 
 	readMsg := msgCIPConnectedServiceReq{
-		SequenceCount: uint16(client.sequenceNumber.Add(1)),
+		SequenceCount: uint16(sequencer()),
 		Service:       CIPService_GetAttributeList,
 		PathLength:    byte(path.Len() / 2),
 	}
-- 
2.43.0


From 6c6b39229a3845c97e373abaddc6231bd3412d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:59 +0000
Subject: [PATCH 11/79] fix: GetAttrList and GenericCIPMessage connect
 automatically like the other calls

---
 getattr.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/getattr.go b/getattr.go
index 7035fc5..1ef07a5 100644
--- a/getattr.go
+++ b/getattr.go
@@ -244,6 +244,11 @@ func (client *Client) GetControllerPropList() (msgGetControllerPropList, error)
 // If there are no variable-length fields in the attributes you are getting, the best way is to create the equivalent
 // struct as above with the proper types for the AttrX_Value instead of []byte and do an item.Serialize(&InstanceOfMyType)
 func (client *Client) GetAttrList(class CIPClass, instance CIPInstance, attrs ...CIPAttribute) (*CIPItem, error) {
+	err := client.checkConnection()
+	if err != nil {
+		return nil, fmt.Errorf("could not start attribute list read: %w", err)
+	}
+
 	reqItems := make([]CIPItem, 2)
 	reqItems[0] = newItem(cipItem_ConnectionAddress, &client.OTNetworkConnectionID)
 
@@ -419,6 +424,10 @@ func (e CIPStatusError) Error() string {
 // Note: This function is intended for advanced users who need direct CIP protocol
 // access. For standard tag operations, use Read(), Write(), and related functions.
 func (client *Client) GenericCIPMessage(service CIPService, path, msg_data []byte) (*CIPItem, error) {
+	err := client.checkConnection()
+	if err != nil {
+		return nil, fmt.Errorf("could not start generic message: %w", err)
+	}
 
 	reqitems := make([]CIPItem, 2)
 	//reqitems[0] = cipItem{Header: cipItemHeader{ID: cipItem_Null}}
@@ -431,7 +440,7 @@ func (client *Client) GenericCIPMessage(service CIPService, path, msg_data []byt
 	}
 
 	reqitems[1] = newItem(cipItem_ConnectedData, readmsg)
-	err := reqitems[1].Serialize(path)
+	err = reqitems[1].Serialize(path)
 	if err != nil {
 		return nil, fmt.Errorf("could not serialize path: %w", err)
 	}
-- 
2.43.0


From e9d2a4d8373677cda59d5961a7b2e2ebdb2ad232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:01 +0000
Subject: [PATCH 12/79] fix: GetAttrSingle reports the controller's error
 status

---
 getattr.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/getattr.go b/getattr.go
index 1ef07a5..9714288 100644
--- a/getattr.go
+++ b/getattr.go
@@ -157,6 +157,9 @@ func (client *Client) GetAttrSingle(class CIPClass, instance CIPInstance, attr C
 	if err != nil {
 		return nil, fmt.Errorf("couldn't read response header. %w", err)
 	}
+	if resphdr.Status != uint16(CIPStatus_OK) {
+		return nil, fmt.Errorf("response header has status 0x%X (%v)", resphdr.Status, CIPStatus(resphdr.Status))
+	}
 	//dat := make([]byte, hdr.Length-26)
 	//items[1].DeSerialize(&dat)
 	return &items[1], nil
-- 
2.43.0


From ac9c14645ed365dfc046be53e1e0d0ba6cf8b5a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:03 +0000
Subject: [PATCH 13/79] fix: drop the connection when the controller rejects
 its session

---
 sendreceive.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sendreceive.go b/sendreceive.go
index 6bf206d..649dd8b 100644
--- a/sendreceive.go
+++ b/sendreceive.go
@@ -103,6 +103,11 @@ func (client *Client) send_recv_data(cmd CIPCommand, msgs ...any) (eipHeader, *b
 		client.dropConnection()
 		return hdr, buf, fmt.Errorf("error receiving data resulting in forced disconnect: %w", err)
 	}
+	if cmd == cipCommandSendUnitData && hdr.Status != 0 {
+		// the other side no longer knows our session or connection (it may have been restarted). Only a new one can work.
+		client.dropConnection()
+		return hdr, buf, fmt.Errorf("request rejected with encapsulation status 0x%X resulting in forced disconnect", hdr.Status)
+	}
 	return hdr, buf, nil
 }
 
-- 
2.43.0


From 1cd859a3279b8ebc8d57f7ac349713615ab128c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:06 +0000
Subject: [PATCH 14/79] fix: connect fails when the controller refuses the
 session

---
 connect.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/connect.go b/connect.go
index 90b8138..6da90f2 100644
--- a/connect.go
+++ b/connect.go
@@ -203,6 +203,9 @@ func (client *Client) registerSession() error {
 		client.Logger.Error(msg, slog.Any("err", err))
 		return fmt.Errorf("%s: %w", msg, err)
 	}
+	if header.Status != 0 {
+		return fmt.Errorf("register session failed. status: %v", header.Status)
+	}
 	client.SessionHandle = header.SessionHandle
 	client.Logger.Info("Session connected", slog.Any("sessionHandle", client.SessionHandle))
 	return nil
-- 
2.43.0


From 49eedbd8c5f6cf7a39f98b56329d278e63792dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:00 +0000
Subject: [PATCH 15/79] fix: the keepalive does not reopen a connection that
 was closed meanwhile

---
 connect.go | 4 ++--
 getattr.go | 4 ++++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/connect.go b/connect.go
index 6da90f2..682d781 100644
--- a/connect.go
+++ b/connect.go
@@ -245,7 +245,7 @@ func (client *Client) runKeepAlive(cancel chan struct{}) {
 		}
 	}()
 
-	originalProps, err := client.GetAttrList(CipObject_ControllerInfo, 1, client.KeepAliveProps...)
+	originalProps, err := client.getAttrList(CipObject_ControllerInfo, 1, client.KeepAliveProps...)
 	if err != nil {
 		client.Logger.Error(
 			"initial keep alive property get failed",
@@ -273,7 +273,7 @@ func (client *Client) runKeepAlive(cancel chan struct{}) {
 				return
 			}
 
-			newProps, err := client.GetAttrList(CipObject_ControllerInfo, 1, client.KeepAliveProps...)
+			newProps, err := client.getAttrList(CipObject_ControllerInfo, 1, client.KeepAliveProps...)
 			if err != nil {
 				client.Logger.Error("keepalive failed", slog.Any("err", err))
 				select {
diff --git a/getattr.go b/getattr.go
index 9714288..c21e533 100644
--- a/getattr.go
+++ b/getattr.go
@@ -251,7 +251,11 @@ func (client *Client) GetAttrList(class CIPClass, instance CIPInstance, attrs ..
 	if err != nil {
 		return nil, fmt.Errorf("could not start attribute list read: %w", err)
 	}
+	return client.getAttrList(class, instance, attrs...)
+}
 
+// getAttrList is GetAttrList without the automatic connect.
+func (client *Client) getAttrList(class CIPClass, instance CIPInstance, attrs ...CIPAttribute) (*CIPItem, error) {
 	reqItems := make([]CIPItem, 2)
 	reqItems[0] = newItem(cipItem_ConnectionAddress, &client.OTNetworkConnectionID)
 
-- 
2.43.0


From 5004aa549dbeae04b81ff42c6e9bf7a5bc628ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:15 +0000
Subject: [PATCH 16/79] fix: a reply without the expected items is an error,
 not a crash

---
 connect.go | 3 +++
 getattr.go | 9 +++++++++
 write.go   | 6 ++++++
 3 files changed, 18 insertions(+)

diff --git a/connect.go b/connect.go
index 682d781..9d550c7 100644
--- a/connect.go
+++ b/connect.go
@@ -624,6 +624,9 @@ func (client *Client) parseResponse(header *eipHeader, data *bytes.Buffer) ([]CI
 	if err != nil {
 		return nil, fmt.Errorf("problem reading items from forward open request. %w", err)
 	}
+	if len(items) != 2 {
+		return nil, fmt.Errorf("wrong number of items. Expected 2 but got %v", len(items))
+	}
 
 	respHeader := msgCIPMessageRouterResponse{}
 	err = items[1].DeSerialize(&respHeader)
diff --git a/getattr.go b/getattr.go
index c21e533..9b89166 100644
--- a/getattr.go
+++ b/getattr.go
@@ -151,6 +151,9 @@ func (client *Client) GetAttrSingle(class CIPClass, instance CIPInstance, attr C
 		client.Logger.Warn("Problem reading items.", "error", err)
 		return nil, err
 	}
+	if len(items) != 2 {
+		return nil, fmt.Errorf("wrong number of items. Expected 2 but got %v", len(items))
+	}
 
 	var resphdr cipAttributeResponseHdr
 	err = items[1].DeSerialize(&resphdr)
@@ -308,6 +311,9 @@ func (client *Client) getAttrList(class CIPClass, instance CIPInstance, attrs ..
 		client.Logger.Warn("Problem reading items.", "error", err)
 		return nil, err
 	}
+	if len(items) != 2 {
+		return nil, fmt.Errorf("wrong number of items. Expected 2 but got %v", len(items))
+	}
 
 	var respHdr cipAttributeResponseHdr
 	err = items[1].DeSerialize(&respHdr)
@@ -476,6 +482,9 @@ func (client *Client) GenericCIPMessage(service CIPService, path, msg_data []byt
 	if err != nil {
 		return nil, fmt.Errorf("problem reading items: %w", err)
 	}
+	if len(items) != 2 {
+		return nil, fmt.Errorf("wrong number of items. Expected 2 but got %v", len(items))
+	}
 
 	// There is a count before there is any result data - we'll remove that here.
 	// If needed, the item can always be Reset() to get all the data from the start.
diff --git a/write.go b/write.go
index 72d2f70..544aba1 100644
--- a/write.go
+++ b/write.go
@@ -196,6 +196,9 @@ func (client *Client) write_udt(tag string, value any) error {
 	if err != nil {
 		return fmt.Errorf("problem reading items from write, %w", err)
 	}
+	if len(items) != 2 {
+		return fmt.Errorf("wrong number of items. Expected 2 but got %v", len(items))
+	}
 	var hdr2 msgWriteResultHeader
 	err = items[1].DeSerialize(&hdr2)
 	if err != nil {
@@ -285,6 +288,9 @@ func (client *Client) write_single(tag string, value any) error {
 	if err != nil {
 		return fmt.Errorf("problem reading items from write, %w", err)
 	}
+	if len(items) != 2 {
+		return fmt.Errorf("wrong number of items. Expected 2 but got %v", len(items))
+	}
 	var hdr2 msgWriteResultHeader
 	err = items[1].DeSerialize(&hdr2)
 	if err != nil {
-- 
2.43.0


From 624cd4efa2f7e6791792267e1ec3000336e1cc80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:33 +0000
Subject: [PATCH 17/79] fix: WriteMap checks the result of each write, writes
 whole slices and structures and splits long requests

---
 udt_write.go | 197 ++++++++++++++++++++++++++++++++++++---------------
 1 file changed, 138 insertions(+), 59 deletions(-)

diff --git a/udt_write.go b/udt_write.go
index 593cdb1..1f16aec 100644
--- a/udt_write.go
+++ b/udt_write.go
@@ -125,27 +125,101 @@ func udt_to_dict(tag string, data any) (map[string]interface{}, error) {
 // Returns an error if the connection fails, any tag doesn't exist, there are type mismatches,
 // or any tags are read-only.
 func (client *Client) WriteMap(tag_str map[string]interface{}) error {
+	err := client.checkConnection()
+	if err != nil {
+		return fmt.Errorf("could not start multi write: %w", err)
+	}
+
+	// bytes of a message that are used by its header, and bytes used per service for the jump table
+	header_size := binary.Size(msgCIPConnectedMultiServiceReq{})
+	const jump_size = 2
+
+	tags := make([]string, 0, len(tag_str))
+	services := make([][]byte, 0, len(tag_str))
+	size := header_size
+	for tag, value := range tag_str {
+		service, err := client.newMultiWriteService(tag, value)
+		if err != nil {
+			return fmt.Errorf("problem preparing write of %s: %w", tag, err)
+		}
+		if len(services) > 0 && size+jump_size+len(service) > int(client.ConnectionSize) {
+			// this one does not fit any more
+			err = client.writeList(tags, services)
+			if err != nil {
+				return err
+			}
+			tags, services, size = tags[:0], services[:0], header_size
+		}
+		tags = append(tags, tag)
+		services = append(services, service)
+		size += jump_size + len(service)
+	}
+	if len(services) == 0 {
+		return nil
+	}
+	return client.writeList(tags, services)
+}
+
+// newMultiWriteService builds a complete write service for a single tag as it is needed inside of a multi service request.
+func (client *Client) newMultiWriteService(tag string, value any) ([]byte, error) {
+	datatype, elements := GoVarToCIPType(value)
+	ioi, err := client.newIOI(tag, datatype)
+	if err != nil {
+		return nil, fmt.Errorf("problem generating IOI. %w", err)
+	}
+	if elements < 1 {
+		return nil, fmt.Errorf("no elements to write")
+	}
+
+	b := bytes.Buffer{}
+	h := msgCIPMultiIOIHeader{
+		Service: CIPService_Write,
+		Size:    byte(len(ioi.Buffer) / 2),
+	}
+	err = binary.Write(&b, binary.LittleEndian, h)
+	if err != nil {
+		return nil, fmt.Errorf("problem writing item header to buffer. %w", err)
+	}
+	b.Write(ioi.Buffer)
 
-	// build the tag list from the structure
-	tags := make([]string, 0)
-	types := make([]CIPType, 0)
-	for k := range tag_str {
-		ct, _ := GoVarToCIPType(tag_str[k])
-		types = append(types, ct)
-		tags = append(tags, k)
-	}
-
-	// first generate IOIs for each tag
-	qty := len(tags)
-	iois := make([]*tagIOI, qty)
-	for i, tag := range tags {
-		var err error
-		iois[i], err = client.newIOI(tag, types[i])
+	if datatype == CIPTypeStruct {
+		if reflect.ValueOf(value).Kind() != reflect.Struct {
+			return nil, fmt.Errorf("don't know how to write a %T", value)
+		}
+		_, typecrc, err := TypeEncode(value)
 		if err != nil {
-			return err
+			return nil, fmt.Errorf("problem encoding type. %w", err)
 		}
+		ftr_buf, err := Serialize(datatype, byte(2), typecrc, uint16(elements))
+		if err != nil {
+			return nil, fmt.Errorf("problem serializing footer. %w", err)
+		}
+		b.Write(ftr_buf.Bytes())
+		_, err = Pack(&b, value)
+		if err != nil {
+			return nil, fmt.Errorf("problem packing data. %w", err)
+		}
+		return b.Bytes(), nil
 	}
 
+	f := msgCIPWriteIOIFooter{
+		DataType: uint16(datatype),
+		Elements: uint16(elements),
+	}
+	// CIPItem formats values the same way that a single write does.
+	item := CIPItem{}
+	err = item.Serialize(f, value)
+	if err != nil {
+		return nil, fmt.Errorf("problem serializing value. %w", err)
+	}
+	b.Write(item.Data)
+	return b.Bytes(), nil
+}
+
+// writeList sends one multi service request with the given write services and checks the result of each of them.
+func (client *Client) writeList(tags []string, services [][]byte) error {
+	qty := len(services)
+
 	reqitems := make([]CIPItem, 2)
 	reqitems[0] = newItem(cipItem_ConnectionAddress, &client.OTNetworkConnectionID)
 
@@ -158,50 +232,15 @@ func (client *Client) WriteMap(tag_str map[string]interface{}) error {
 	}
 
 	b := bytes.Buffer{}
-	// we now have to build up the jump table for each IOI.
-	// and pack all the IOIs together into b
+	// we now have to build up the jump table for each service
+	// and pack all the services together into b
 	jump_table := make([]uint16, qty)
 	jump_start := 2 + qty*2 // 2 bytes + 2 bytes per jump entry
-	for i := 0; i < qty; i++ {
+	for i := range services {
 		jump_table[i] = uint16(jump_start + b.Len())
-		ioi := iois[i]
-		h := msgCIPMultiIOIHeader{
-			Service: CIPService_Write,
-			Size:    byte(len(ioi.Buffer) / 2),
-		}
-		f := msgCIPWriteIOIFooter{
-			DataType: uint16(types[i]),
-			Elements: 1,
-		}
-		//f := msgCIPIOIFooter{
-		//Elements: 1,
-		//}
-		err := binary.Write(&b, binary.LittleEndian, h)
-		if err != nil {
-			return fmt.Errorf("problem writing udt item header to buffer. %w", err)
-		}
-		b.Write(ioi.Buffer)
-		ftr_buf, err := Serialize(f)
-		if err != nil {
-			return fmt.Errorf("problem serializing footer for item %d: %w", i, err)
-		}
-		err = binary.Write(&b, binary.LittleEndian, ftr_buf.Bytes())
-		if err != nil {
-			return fmt.Errorf("problem writing udt item footer to buffer. %w", err)
-		}
-		item_buf, err := Serialize(tag_str[tags[i]])
-		if err != nil {
-			return fmt.Errorf("problem serializing %v: %w", tags[i], err)
-		}
-		err = binary.Write(&b, binary.LittleEndian, item_buf.Bytes())
-		if err != nil {
-			return fmt.Errorf("problem writing udt tag name to buffer. %w", err)
-		}
+		b.Write(services[i])
 	}
 
-	// right now I'm putting the IOI data into the cip Item, but I suspect it might actually be that the readsequencer is
-	// the item's data and the service code actually starts the next portion of the message.  But the item's header length reflects
-	// the total data so maybe not.
 	reqitems[1] = CIPItem{Header: cipItemHeader{ID: cipItem_ConnectedData}}
 	err := reqitems[1].Serialize(ioi_header, jump_table, &b)
 	if err != nil {
@@ -212,13 +251,53 @@ func (client *Client) WriteMap(tag_str map[string]interface{}) error {
 	if err != nil {
 		return err
 	}
-	hdr, data, err := client.send_recv_data(cipCommandSendUnitData, itemdata)
+	_, data, err := client.send_recv_data(cipCommandSendUnitData, itemdata)
 	if err != nil {
 		return err
 	}
-	_ = hdr
-	_ = data
-	//TODO: do something with the result here!
 
+	read_result_header := msgCIPResultHeader{}
+	err = binary.Read(data, binary.LittleEndian, &read_result_header)
+	if err != nil {
+		return fmt.Errorf("problem reading result header: %w", err)
+	}
+	items, err := readItems(data)
+	if err != nil {
+		return fmt.Errorf("problem reading items from multi write: %w", err)
+	}
+	if len(items) != 2 {
+		return fmt.Errorf("wrong number of items. Expected 2 but got %v", len(items))
+	}
+	var hdr2 msgWriteResultHeader
+	err = items[1].DeSerialize(&hdr2)
+	if err != nil {
+		return fmt.Errorf("problem deserializing multi write response header: %w", err)
+	}
+	if hdr2.Status != CIPStatus_OK && hdr2.Status != CIPStatus_EmbeddedServiceError {
+		return fmt.Errorf("got status %v in multi write response", hdr2.Status)
+	}
+	// skip the extended status
+	items[1].Pos += int(hdr2.StatusExtended) * 2
+	if items[1].Pos > len(items[1].Data) {
+		return fmt.Errorf("multi write response is too short")
+	}
+
+	results := items[1].Rest()
+	if len(results) < 2+qty*2 || int(binary.LittleEndian.Uint16(results)) != qty {
+		return fmt.Errorf("multi write response does not have a result for each tag")
+	}
+	for i := range tags {
+		offset := int(binary.LittleEndian.Uint16(results[2+i*2:]))
+		if offset+4 > len(results) {
+			return fmt.Errorf("multi write response for %s is too short", tags[i])
+		}
+		status := CIPStatus(results[offset+2])
+		if status != CIPStatus_OK {
+			return fmt.Errorf("got status %v when writing %s", status, tags[i])
+		}
+	}
+	if hdr2.Status != CIPStatus_OK {
+		return fmt.Errorf("got status %v in multi write response", hdr2.Status)
+	}
 	return nil
 }
-- 
2.43.0


From aeeade5e86bd8d163500583ee5cad9281a044e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:36 +0000
Subject: [PATCH 18/79] fix: WriteMulti writes array fields instead of dropping
 them and leaves fields without a tag alone

---
 udt_write.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/udt_write.go b/udt_write.go
index 1f16aec..7b93f9c 100644
--- a/udt_write.go
+++ b/udt_write.go
@@ -19,6 +19,10 @@ func multi_to_dict(data any) (map[string]interface{}, error) {
 		v := vs.Field(i)
 		f := fs.Field(i)
 		fulltag := f.Tag.Get("gologix")
+		if fulltag == "" {
+			// not a tag
+			continue
+		}
 		switch v.Kind() {
 		case reflect.Struct:
 			d2, err := udt_to_dict(fulltag, v.Interface())
@@ -29,7 +33,7 @@ func multi_to_dict(data any) (map[string]interface{}, error) {
 				d[k] = d2[k]
 			}
 		case reflect.Array:
-			//TODO
+			d[fulltag] = sliceOfArray(v)
 		default:
 			d[fulltag] = v.Interface()
 		}
@@ -40,6 +44,13 @@ func multi_to_dict(data any) (map[string]interface{}, error) {
 
 }
 
+// sliceOfArray copies an array value to a slice, which is what the write functions take.
+func sliceOfArray(v reflect.Value) any {
+	s := reflect.MakeSlice(reflect.SliceOf(v.Type().Elem()), v.Len(), v.Len())
+	reflect.Copy(s, v)
+	return s.Interface()
+}
+
 // convert a struct to a map in the format of {"tag.fieldName": fieldvalue}
 func udt_to_dict(tag string, data any) (map[string]interface{}, error) {
 	//TODO: handle nested structs and arrays
@@ -65,7 +76,7 @@ func udt_to_dict(tag string, data any) (map[string]interface{}, error) {
 				d[k] = d2[k]
 			}
 		case reflect.Array:
-			//TODO
+			d[fulltag] = sliceOfArray(v)
 		default:
 			d[fulltag] = v.Interface()
 		}
-- 
2.43.0


From fe3b544bbd10a5e05d46341d743632333df65c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:38 +0000
Subject: [PATCH 19/79] fix: refuse to write a single bit instead of
 overwriting the whole value

---
 udt_write.go | 3 +++
 write.go     | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/udt_write.go b/udt_write.go
index 7b93f9c..b10e79d 100644
--- a/udt_write.go
+++ b/udt_write.go
@@ -178,6 +178,9 @@ func (client *Client) newMultiWriteService(tag string, value any) ([]byte, error
 	if err != nil {
 		return nil, fmt.Errorf("problem generating IOI. %w", err)
 	}
+	if ioi.BitAccess {
+		return nil, fmt.Errorf("writing a single bit of a value is not supported")
+	}
 	if elements < 1 {
 		return nil, fmt.Errorf("no elements to write")
 	}
diff --git a/write.go b/write.go
index 544aba1..27f0c25 100644
--- a/write.go
+++ b/write.go
@@ -228,6 +228,9 @@ func (client *Client) write_single(tag string, value any) error {
 	if err != nil {
 		return fmt.Errorf("problem generating IOI. %w", err)
 	}
+	if ioi.BitAccess {
+		return fmt.Errorf("writing a single bit of a value is not supported: %s", tag)
+	}
 	elements := uint16(1)
 
 	v := reflect.ValueOf(value)
-- 
2.43.0


From b9a26adbdf93b922ceaac00a5f682539b707df97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:15 +0000
Subject: [PATCH 20/79] fix: read into a slice with one element, refuse an
 empty one

---
 read.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/read.go b/read.go
index 3be9e81..6955176 100644
--- a/read.go
+++ b/read.go
@@ -551,6 +551,9 @@ func (client *Client) Read_single(tag string, datatype CIPType, elements uint16)
 
 func readArray[T GoLogixTypes](client *Client, tag string, elements uint16) ([]T, error) {
 	t := make([]T, elements)
+	if elements == 0 {
+		return t, errors.New("cannot read into an empty slice")
+	}
 	ct, _ := GoVarToCIPType(t[0])
 	val, err := client.Read_single(tag, ct, elements)
 	if err != nil {
@@ -565,6 +568,10 @@ func readArray[T GoLogixTypes](client *Client, tag string, elements uint16) ([]T
 		return parseArrayStruct[T](b, elements)
 	}
 
+	if elements == 1 {
+		// a single element is not returned as a slice
+		val = []any{val}
+	}
 	//cast, ok := val.([]T)
 	cast, ok := val.([]any)
 	if !ok {
-- 
2.43.0


From 083c0f3e1732e1b327769965c66033e699e504ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:18 +0000
Subject: [PATCH 21/79] fix: check string lengths in replies before using them

---
 read.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/read.go b/read.go
index 6955176..41fc71c 100644
--- a/read.go
+++ b/read.go
@@ -488,6 +488,9 @@ func (client *Client) Read_single(tag string, datatype CIPType, elements uint16)
 				if err != nil {
 					return nil, fmt.Errorf("couldn't unpack struct header. %w", err)
 				}
+				if int64(str_hdr.Length) > int64(len(items[1].Rest())) {
+					return nil, fmt.Errorf("string length %d is more than the controller sent", str_hdr.Length)
+				}
 				str := make([]byte, str_hdr.Length)
 				err = items[1].DeSerialize(&str)
 				if err != nil {
@@ -508,6 +511,9 @@ func (client *Client) Read_single(tag string, datatype CIPType, elements uint16)
 				if err != nil {
 					return nil, fmt.Errorf("couldn't unpack struct data. %w", err)
 				}
+				if str_hdr.Length > uint32(len(str)) {
+					return nil, fmt.Errorf("string element %d has invalid length %d", i, str_hdr.Length)
+				}
 				response[i] = str[:str_hdr.Length]
 			}
 			return response, nil
@@ -961,6 +967,9 @@ func (client *Client) readList(tags []tagDesc) ([]any, error) {
 				if err != nil {
 					return nil, fmt.Errorf("couldn't unpack string struct header. %w", err)
 				}
+				if int64(str_hdr.Length) > int64(myBytes.Len()) {
+					return nil, fmt.Errorf("string length %d is more than the controller sent", str_hdr.Length)
+				}
 				str := make([]byte, str_hdr.Length)
 				err = binary.Read(myBytes, binary.LittleEndian, str)
 				if err != nil {
@@ -1012,6 +1021,9 @@ func (client *Client) readList(tags []tagDesc) ([]any, error) {
 				if err != nil {
 					return nil, fmt.Errorf("couldn't unpack string data for tag %v element %d: %w", tags[i], respIndex, err)
 				}
+				if str_hdr.Length > uint32(len(str)) {
+					return nil, fmt.Errorf("string element %d of tag %v has invalid length %d", respIndex, tags[i], str_hdr.Length)
+				}
 				val[respIndex] = string(str[:str_hdr.Length])
 			}
 			result_values[i] = val
-- 
2.43.0


From 4e8539e3a978136b707c5c007edc056b69c5b26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:20 +0000
Subject: [PATCH 22/79] fix: a multi read reply that does not match the request
 is an error instead of a crash

---
 read.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/read.go b/read.go
index 41fc71c..2b39d4a 100644
--- a/read.go
+++ b/read.go
@@ -922,6 +922,10 @@ func (client *Client) readList(tags []tagDesc) ([]any, error) {
 		return nil, fmt.Errorf("problem reading reply header item count. %w", err)
 	}
 
+	if int(reply_hdr.Reply_Count) != qty {
+		return nil, fmt.Errorf("got %d results for %d tags", reply_hdr.Reply_Count, qty)
+	}
+
 	offset_table := make([]uint16, reply_hdr.Reply_Count)
 	err = binary.Read(&rItem, binary.LittleEndian, &offset_table)
 	if err != nil {
@@ -933,7 +937,10 @@ func (client *Client) readList(tags []tagDesc) ([]any, error) {
 	}
 	result_values := make([]interface{}, reply_hdr.Reply_Count)
 	for i := 0; i < int(reply_hdr.Reply_Count); i++ {
-		offset := offset_table[i] + 10 // offset doesn't start at 0 in the item
+		offset := int(offset_table[i]) + 10 // offset doesn't start at 0 in the item
+		if offset > len(rb) {
+			return nil, fmt.Errorf("result %d is outside of the response", i)
+		}
 		myBytes := bytes.NewBuffer(rb[offset:])
 		rHdr := msgMultiReadResult{}
 		err = binary.Read(myBytes, binary.LittleEndian, &rHdr)
-- 
2.43.0


From 6cac09fc98360f5a83baabf95b2c6caaf3451405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:22 +0000
Subject: [PATCH 23/79] fix: list reads decode structures with their padding
 and packed bits

---
 pack.go | 5 +++++
 read.go | 8 +++++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/pack.go b/pack.go
index 01cb4f4..1396c2a 100644
--- a/pack.go
+++ b/pack.go
@@ -257,6 +257,9 @@ func Unpack(r io.Reader, data any) (n int, err error) {
 		refVal = reflect.ValueOf(data).Elem()
 	}
 
+	if !refVal.IsValid() {
+		return 0, fmt.Errorf("cannot unpack into a %T", data)
+	}
 	refType := refVal.Type()
 	k := refType.Kind()
 	switch k {
@@ -283,6 +286,8 @@ func Unpack(r io.Reader, data any) (n int, err error) {
 	case reflect.Struct:
 		// continue on
 
+	default:
+		return 0, fmt.Errorf("cannot unpack into a %T", data)
 	}
 	for i := 0; i < refType.NumField(); i++ {
 		field := refType.Field(i)
diff --git a/read.go b/read.go
index 2b39d4a..cee68d8 100644
--- a/read.go
+++ b/read.go
@@ -969,6 +969,9 @@ func (client *Client) readList(tags []tagDesc) ([]any, error) {
 				}
 				result_values[i] = val
 			} else if tags[i].TagType == CIPTypeSTRING {
+				if rHdr.Type != CIPTypeStruct {
+					return nil, fmt.Errorf("tag %v is not a string but %v", tags[i], rHdr.Type)
+				}
 				str_hdr := cipStringHeader{}
 				err = binary.Read(myBytes, binary.LittleEndian, &str_hdr)
 				if err != nil {
@@ -996,7 +999,7 @@ func (client *Client) readList(tags []tagDesc) ([]any, error) {
 					continue
 				}
 				x := reflect.New(reflect.TypeOf(tags[i].Struct)).Interface()
-				err = binary.Read(myBytes, binary.LittleEndian, x)
+				_, err = Unpack(myBytes, x)
 				if err != nil {
 					return nil, fmt.Errorf("couldn't unpack struct data. %w", err)
 				}
@@ -1016,6 +1019,9 @@ func (client *Client) readList(tags []tagDesc) ([]any, error) {
 			// string length. Reading only Length bytes would misalign the next
 			// element. This mirrors the per-element loop used in Read for
 			// arrays of strings (see read.go above).
+			if rHdr.Type != CIPTypeStruct {
+				return nil, fmt.Errorf("tag %v is not a string but %v", tags[i], rHdr.Type)
+			}
 			val := make([]any, tags[i].Elements)
 			for respIndex := 0; respIndex < tags[i].Elements; respIndex++ {
 				str_hdr := cipStringHeader{}
-- 
2.43.0


From 3f92fdc09e8c340551838206ea171362e6845790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:25 +0000
Subject: [PATCH 24/79] fix: ReadMulti reports a type mismatch instead of
 panicking and fills every field of a tag used twice

---
 read.go | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/read.go b/read.go
index cee68d8..9c0d28f 100644
--- a/read.go
+++ b/read.go
@@ -729,8 +729,7 @@ func (client *Client) ReadMulti(tag_str any, args ...any) error {
 	T := reflect.TypeOf(tag_str).Elem()
 	vf := reflect.VisibleFields(T)
 	taglist := make([]tagDesc, 0, len(vf))
-	tags := make([]string, 0)
-	tag_map := make(map[string]int)
+	fields := make([]int, 0, len(vf))
 	val := reflect.ValueOf(tag_str).Elem()
 	for i := range vf {
 		field := vf[i]
@@ -743,8 +742,7 @@ func (client *Client) ReadMulti(tag_str any, args ...any) error {
 		}
 		v := val.Field(i).Interface()
 		t, elem := GoVarToCIPType(v)
-		tags = append(tags, tagPath)
-		tag_map[tagPath] = i
+		fields = append(fields, i)
 		taglist = append(taglist, tagDesc{
 			TagName:  tagPath,
 			TagType:  t,
@@ -759,20 +757,36 @@ func (client *Client) ReadMulti(tag_str any, args ...any) error {
 	}
 
 	// now unpack the result values back into the given structure
-	for i, tag := range tags {
-		fieldNo := tag_map[tag]
+	for i, fieldNo := range fields {
 		val := result_values[i]
+		tag := taglist[i].TagName
 
 		v := reflect.ValueOf(&tag_str).Elem().Elem().Elem()
 
 		fieldVal := v.Field(fieldNo)
 
 		if fieldVal.Type().Kind() != reflect.Slice {
-			fieldVal.Set(reflect.ValueOf(val))
+			newVal := reflect.ValueOf(val)
+			if !newVal.IsValid() || !newVal.Type().AssignableTo(fieldVal.Type()) {
+				return fmt.Errorf("tag %s has a %T instead of a %v", tag, val, fieldVal.Type())
+			}
+			fieldVal.Set(newVal)
 		} else {
 			l := fieldVal.Len()
+			elems, ok := val.([]any)
+			if !ok {
+				// a single element is not returned as a slice
+				elems = []any{val}
+			}
+			if len(elems) != l {
+				return fmt.Errorf("got %d instead of %d elements of tag %s", len(elems), l, tag)
+			}
 			for j := 0; j < l; j++ {
-				fieldVal.Index(j).Set(reflect.ValueOf(val).Index(j).Elem())
+				newVal := reflect.ValueOf(elems[j])
+				if !newVal.IsValid() || !newVal.Type().AssignableTo(fieldVal.Type().Elem()) {
+					return fmt.Errorf("element %d of tag %s is a %T instead of a %v", j, tag, elems[j], fieldVal.Type().Elem())
+				}
+				fieldVal.Index(j).Set(newVal)
 			}
 		}
 	}
-- 
2.43.0


From 6e9e005b844ac1273d7055edcd5d483c15b1361b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:27 +0000
Subject: [PATCH 25/79] fix: a fragment without data ends a fragmented read
 with an error

---
 read.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/read.go b/read.go
index 9c0d28f..6b1ba6a 100644
--- a/read.go
+++ b/read.go
@@ -1215,6 +1215,9 @@ func (client *Client) readFragmented(ioi *tagIOI, elements uint16, initialData [
 		if err != nil {
 			return nil, err
 		}
+		if len(fragData) == 0 && status == byte(CIPStatus_PartialTransfer) {
+			return nil, fmt.Errorf("FragRead at offset %d returned no data", offset)
+		}
 		accumulated.Write(fragData)
 		if status == 0 {
 			return accumulated.Bytes(), nil
-- 
2.43.0


From 14bc24188b33171218b441768d499cd394a01e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:30 +0000
Subject: [PATCH 26/79] fix: reading into a value that is neither pointer nor
 slice is an error

---
 read.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/read.go b/read.go
index 6b1ba6a..675802f 100644
--- a/read.go
+++ b/read.go
@@ -367,6 +367,8 @@ func (client *Client) Read(tag string, data any) error {
 			return fmt.Errorf("couldn't parse str data element %w", err)
 		}
 
+	default:
+		return fmt.Errorf("cannot read into a %T, it has to be a pointer or a slice", data)
 	}
 
 	return nil
-- 
2.43.0


From fd07ef84caff28347d79451e3af9771264133f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:40 +0000
Subject: [PATCH 27/79] fix: list reads return all elements of an array of
 structures

---
 read.go  | 39 +++++++++++++++++++++++++++++++++++++++
 types.go |  4 ++++
 2 files changed, 43 insertions(+)

diff --git a/read.go b/read.go
index 675802f..0610615 100644
--- a/read.go
+++ b/read.go
@@ -5,6 +5,7 @@ import (
 	"encoding/binary"
 	"errors"
 	"fmt"
+	"io"
 	"reflect"
 )
 
@@ -1002,6 +1003,12 @@ func (client *Client) readList(tags []tagDesc) ([]any, error) {
 					return nil, fmt.Errorf("couldn't unpack struct data. %w", err)
 				}
 				result_values[i] = string(str)
+			} else if rHdr.Type == CIPTypeStruct && tags[i].Struct != nil && reflect.TypeOf(tags[i].Struct).Kind() == reflect.Slice {
+				val, err := unpackStructs(tags[i], myBytes)
+				if err != nil {
+					return nil, fmt.Errorf("problem reading tag %v: %w", tags[i].TagName, err)
+				}
+				result_values[i] = val
 			} else if rHdr.Type == CIPTypeStruct {
 				typehash := cipStructHeader{}
 				err := binary.Read(myBytes, binary.LittleEndian, &typehash)
@@ -1056,6 +1063,12 @@ func (client *Client) readList(tags []tagDesc) ([]any, error) {
 				val[respIndex] = string(str[:str_hdr.Length])
 			}
 			result_values[i] = val
+		} else if rHdr.Type == CIPTypeStruct {
+			val, err := unpackStructs(tags[i], myBytes)
+			if err != nil {
+				return nil, fmt.Errorf("problem reading tag %v: %w", tags[i].TagName, err)
+			}
+			result_values[i] = val
 		} else {
 			// multi-element type.
 			val := make([]any, tags[i].Elements)
@@ -1074,6 +1087,32 @@ func (client *Client) readList(tags []tagDesc) ([]any, error) {
 
 }
 
+// unpackStructs decodes the elements of an array of structures including the type hash in front of them.
+func unpackStructs(tag tagDesc, r io.Reader) ([]any, error) {
+	typehash := cipStructHeader{}
+	err := binary.Read(r, binary.LittleEndian, &typehash)
+	if err != nil {
+		return nil, fmt.Errorf("couldn't unpack struct header. %w", err)
+	}
+	if tag.Struct == nil {
+		return nil, fmt.Errorf("don't know how to decode the structure")
+	}
+	t := reflect.TypeOf(tag.Struct)
+	if t.Kind() == reflect.Slice {
+		t = t.Elem()
+	}
+	elems := reflect.MakeSlice(reflect.SliceOf(t), tag.Elements, tag.Elements)
+	_, err = Unpack(r, elems.Interface())
+	if err != nil {
+		return nil, fmt.Errorf("couldn't unpack struct data. %w", err)
+	}
+	val := make([]any, tag.Elements)
+	for i := range val {
+		val[i] = elems.Index(i).Interface()
+	}
+	return val, nil
+}
+
 func parseArrayStruct[T GoLogixTypes](dat []byte, elements uint16) ([]T, error) {
 	t := make([]T, elements)
 	// val should be a byte slice
diff --git a/types.go b/types.go
index 404d4c5..f91bfdb 100644
--- a/types.go
+++ b/types.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"reflect"
 )
 
 type CIPType byte
@@ -68,6 +69,9 @@ func GoVarToCIPType(T any) (CIPType, int) {
 	case []string:
 		return CIPTypeSTRING, len(x)
 	case interface{}:
+		if v := reflect.ValueOf(T); v.Kind() == reflect.Slice {
+			return CIPTypeStruct, v.Len()
+		}
 		return CIPTypeStruct, 1
 	}
 	return CIPTypeUnknown, 1
-- 
2.43.0


From 5bd798fab6ec007c5c9c7fad9c830860a3c2cdb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:43 +0000
Subject: [PATCH 28/79] fix: count the whole message when splitting a list read

---
 partialread.go | 15 ++++++++++++---
 read.go        |  5 ++---
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/partialread.go b/partialread.go
index 3d923f7..0d4b994 100644
--- a/partialread.go
+++ b/partialread.go
@@ -88,6 +88,14 @@ func (client *Client) ReadList(tagnames []string, types []any, elements []int) (
 	return results, nil
 }
 
+// responseSize is the number of bytes the value of a tag takes in a response.
+func responseSize(tag tagDesc) int {
+	if tag.TagType == CIPTypeSTRING {
+		return 2 + 88*tag.Elements
+	}
+	return tag.TagType.Size() * tag.Elements
+}
+
 func (client *Client) countIOIsThatFit(tags []tagDesc) (int, error) {
 	// first generate IOIs for each tag
 	qty := len(tags)
@@ -132,13 +140,14 @@ func (client *Client) countIOIsThatFit(tags []tagDesc) (int, error) {
 
 		// Calculate the size of the data once we add this ioi to the list.
 		newSize := mainhdr_size                                // length of the multi-read header
-		newSize += 2 * n                                       // add in the jump table
+		newSize += 2 * (i + 1)                                 // add in the jump table
 		newSize += b.Len()                                     // everything we have so far
 		newSize += ioihdr_size + len(ioi.Buffer) + ioiftr_size // the new ioi data
 		//newSize += 4                                           // Fudge for alignment if needed
 
-		response_size += tags[i].TagType.Size() * tags[i].Elements
-		if newSize >= int(client.ConnectionSize) || response_size >= int(client.ConnectionSize) {
+		// each result has an offset, a header and a type in front of the data
+		response_size += 8 + responseSize(tags[i])
+		if newSize >= int(client.ConnectionSize) || mainhdr_size+response_size >= int(client.ConnectionSize) {
 			// break before adding this ioi to the list since it will push us over.
 			// we'll continue with n iois (n only increments after an IOI is added)
 			break
diff --git a/read.go b/read.go
index 0610615..3c3ece0 100644
--- a/read.go
+++ b/read.go
@@ -853,11 +853,10 @@ func (client *Client) readList(tags []tagDesc) ([]any, error) {
 			return nil, fmt.Errorf("problem writing ioi buffer to msg buffer. %w", err)
 		}
 
-		totalMsgSize := b.Len() + SizeOf(h) + SizeOf(f) + 2 // 2 for the jump table entry
-		// TODO: calculate the actual message size, not just the IOI data size.
+		totalMsgSize := SizeOf(ioi_header) + 2*(i+1) + b.Len() // 2 for each jump table entry
 		// TODO: We also need to calculate the response size we expect from the PLC and split
 		//       into multiple messages on that also.
-		if totalMsgSize > int(client.ConnectionSize) {
+		if i > 0 && totalMsgSize > int(client.ConnectionSize) {
 			first_part := tags[:i]
 			rest := tags[i:]
 
-- 
2.43.0


From 8119ba975e6eec32d0590b14b2d1fe1bdf0ccf44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:45 +0000
Subject: [PATCH 29/79] fix: ReadMulti splits long lists like the other list
 reads

---
 partialread.go | 19 ++++++++++++++-----
 read.go        | 23 ++++-------------------
 2 files changed, 18 insertions(+), 24 deletions(-)

diff --git a/partialread.go b/partialread.go
index 0d4b994..f752c10 100644
--- a/partialread.go
+++ b/partialread.go
@@ -51,11 +51,10 @@ func (client *Client) ReadList(tagnames []string, types []any, elements []int) (
 	if err != nil {
 		return nil, fmt.Errorf("could not start list read: %w", err)
 	}
-	n := 0
-	n_new := 0
 	total := len(tagnames)
-	results := make([]any, 0, total)
-	msgs := 0
+	if len(types) != total || len(elements) != total {
+		return nil, fmt.Errorf("got %d tags, %d types and %d element counts", total, len(types), len(elements))
+	}
 
 	tags := make([]tagDesc, total)
 
@@ -69,9 +68,19 @@ func (client *Client) ReadList(tagnames []string, types []any, elements []int) (
 		}
 	}
 
+	return client.readSplitList(tags)
+}
+
+// readSplitList reads a list of tags with as many messages as are needed.
+func (client *Client) readSplitList(tags []tagDesc) ([]any, error) {
+	n := 0
+	total := len(tags)
+	results := make([]any, 0, total)
+	msgs := 0
+
 	for n < total {
 		msgs += 1
-		n_new, err = client.countIOIsThatFit(tags[n:])
+		n_new, err := client.countIOIsThatFit(tags[n:])
 		if err != nil {
 			return nil, err
 		}
diff --git a/read.go b/read.go
index 3c3ece0..9c9b22c 100644
--- a/read.go
+++ b/read.go
@@ -754,7 +754,7 @@ func (client *Client) ReadMulti(tag_str any, args ...any) error {
 		})
 	}
 
-	result_values, err := client.readList(taglist)
+	result_values, err := client.readSplitList(taglist)
 	if err != nil {
 		return fmt.Errorf("problem in read list: %w", err)
 	}
@@ -1213,24 +1213,9 @@ func (client *Client) ReadMap(m map[string]any) error {
 		indexes[i] = k
 		i++
 	}
-	result_values := make([]any, 0, total)
-
-	n := 0
-	msgs := 0
-	n_new := 0
-	for n < total {
-		msgs += 1
-		n_new, err = client.countIOIsThatFit(tags[n:])
-		if err != nil {
-			return err
-		}
-		subResults, err := client.readList(tags[n : n+n_new])
-		n += n_new
-		if err != nil {
-			return err
-		}
-		result_values = append(result_values, subResults...)
-
+	result_values, err := client.readSplitList(tags)
+	if err != nil {
+		return err
 	}
 
 	// now unpack the result values back into the given structure
-- 
2.43.0


From 59f22bce272b31512b70c94a4b6f2a0f989994b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:32 +0000
Subject: [PATCH 30/79] fix: a request made for an earlier connection does not
 cost the current one

---
 sendreceive.go | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/sendreceive.go b/sendreceive.go
index 649dd8b..aa8b5ed 100644
--- a/sendreceive.go
+++ b/sendreceive.go
@@ -77,13 +77,14 @@ func (client *Client) sendData(b []byte) error {
 
 // sends one message and gets one response in a mutex-protected way.
 func (client *Client) send_recv_data(cmd CIPCommand, msgs ...any) (eipHeader, *bytes.Buffer, error) {
+	client.mutex.Lock()
+	defer client.mutex.Unlock()
+
+	// the header carries the session handle, so it has to be built for the connection that is current now.
 	buffer, err := client.sendMsgBuild(cmd, msgs...)
 	if err != nil {
 		return eipHeader{}, nil, fmt.Errorf("error preparing to send message: %w", err)
 	}
-	client.mutex.Lock()
-	defer client.mutex.Unlock()
-
 	if client.conn == nil {
 		return eipHeader{}, nil, fmt.Errorf("not connected")
 	}
@@ -91,6 +92,11 @@ func (client *Client) send_recv_data(cmd CIPCommand, msgs ...any) (eipHeader, *b
 		// the connection went away since the caller checked, and a new one may be half way through its set up.
 		return eipHeader{}, nil, fmt.Errorf("connection lost before the request could be sent")
 	}
+	if cmd == cipCommandSendUnitData && !client.addressedToCurrentConnection(buffer) {
+		// it was made for a connection that has been replaced since. The controller would reject it, and that would
+		// cost us the connection we have now.
+		return eipHeader{}, nil, fmt.Errorf("connection replaced before the request could be sent")
+	}
 
 	err = client.sendData(buffer)
 	if err != nil {
@@ -111,6 +117,16 @@ func (client *Client) send_recv_data(cmd CIPCommand, msgs ...any) (eipHeader, *b
 	return hdr, buf, nil
 }
 
+// addressedToCurrentConnection reports whether the address item of a connected message names the connection that is
+// open now.
+func (client *Client) addressedToCurrentConnection(msg []byte) bool {
+	const addressOffset = 24 + 8 + 4 // eip header, item list header, item header
+	if len(msg) < addressOffset+4 {
+		return true
+	}
+	return binary.LittleEndian.Uint32(msg[addressOffset:]) == client.OTNetworkConnectionID
+}
+
 // dropConnection closes the connection after a failed exchange. A response that is still outstanding
 // must never be taken for the response to a later request, so the caller has to hold the mutex from
 // before the request was sent until this returns.
-- 
2.43.0


From bca78abfdf732750c27cf9e247295c2b1029bf6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:04 +0000
Subject: [PATCH 31/79] fix: a fragment of another type or with more data than
 requested ends a fragmented read with an error

---
 read.go | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/read.go b/read.go
index 9c9b22c..7cb353f 100644
--- a/read.go
+++ b/read.go
@@ -473,7 +473,7 @@ func (client *Client) Read_single(tag string, datatype CIPType, elements uint16)
 		if hdr2.Type == CIPTypeStruct {
 			return nil, fmt.Errorf("partial transfer read of %s: structured tag types are not yet supported in fragmented reads", tag)
 		}
-		merged, err := client.readFragmented(ioi, elements, items[1].Data[items[1].Pos:])
+		merged, err := client.readFragmented(ioi, elements, hdr2.Type, items[1].Data[items[1].Pos:])
 		if err != nil {
 			return nil, fmt.Errorf("partial transfer read of %s: %w", tag, err)
 		}
@@ -1229,21 +1229,27 @@ func (client *Client) ReadMap(m map[string]any) error {
 // readFragmented completes a partial-transfer read by emitting FragRead
 // (CIPService_FragRead, 0x52) requests with a cumulative byte offset until the
 // controller returns CIPStatus_OK. initialData is the data portion that
-// arrived with the first (non-FragRead) response — the returned slice is the
+// arrived with the first (non-FragRead) response, which was of the type given — the returned slice is the
 // full concatenation of every fragment's data section, ready to feed into the
 // existing per-type parsing path.
-func (client *Client) readFragmented(ioi *tagIOI, elements uint16, initialData []byte) ([]byte, error) {
+func (client *Client) readFragmented(ioi *tagIOI, elements uint16, typ CIPType, initialData []byte) ([]byte, error) {
 	accumulated := bytes.NewBuffer(append([]byte(nil), initialData...))
 	for {
 		offset := uint32(accumulated.Len())
-		fragData, status, err := client.sendFragReadRequest(ioi, elements, offset)
+		fragType, fragData, status, err := client.sendFragReadRequest(ioi, elements, offset)
 		if err != nil {
 			return nil, err
 		}
+		if (status == 0 || status == byte(CIPStatus_PartialTransfer)) && fragType != typ {
+			return nil, fmt.Errorf("FragRead at offset %d returned type %v after %v", offset, fragType, typ)
+		}
 		if len(fragData) == 0 && status == byte(CIPStatus_PartialTransfer) {
 			return nil, fmt.Errorf("FragRead at offset %d returned no data", offset)
 		}
 		accumulated.Write(fragData)
+		if size := typ.Size() * int(elements); size > 0 && typ != CIPTypeSTRING && accumulated.Len() > size {
+			return nil, fmt.Errorf("FragRead at offset %d returned %d bytes more than requested", offset, accumulated.Len()-size)
+		}
 		if status == 0 {
 			return accumulated.Bytes(), nil
 		}
@@ -1255,9 +1261,9 @@ func (client *Client) readFragmented(ioi *tagIOI, elements uint16, initialData [
 
 // sendFragReadRequest emits a single FragRead request for the given tag IOI,
 // requested element count, and byte offset. It returns the data portion of the
-// response (everything after the type+unknown header), the general status byte,
+// response (everything after the type+unknown header) and its type, the general status byte,
 // and any transport-level error.
-func (client *Client) sendFragReadRequest(ioi *tagIOI, elements uint16, offset uint32) ([]byte, byte, error) {
+func (client *Client) sendFragReadRequest(ioi *tagIOI, elements uint16, offset uint32) (CIPType, []byte, byte, error) {
 	reqItems := make([]CIPItem, 2)
 	reqItems[0] = newItem(cipItem_ConnectionAddress, &client.OTNetworkConnectionID)
 
@@ -1268,34 +1274,34 @@ func (client *Client) sendFragReadRequest(ioi *tagIOI, elements uint16, offset u
 	}
 	reqItems[1] = newItem(cipItem_ConnectedData, readMsg)
 	if err := reqItems[1].Serialize(ioi, elements, offset); err != nil {
-		return nil, 0, fmt.Errorf("problem serializing FragRead path: %w", err)
+		return 0, nil, 0, fmt.Errorf("problem serializing FragRead path: %w", err)
 	}
 
 	itemData, err := serializeItems(reqItems)
 	if err != nil {
-		return nil, 0, fmt.Errorf("problem serializing FragRead items: %w", err)
+		return 0, nil, 0, fmt.Errorf("problem serializing FragRead items: %w", err)
 	}
 
 	_, data, err := client.send_recv_data(cipCommandSendUnitData, itemData)
 	if err != nil {
-		return nil, 0, fmt.Errorf("transport: %w", err)
+		return 0, nil, 0, fmt.Errorf("transport: %w", err)
 	}
 
 	var resultHdr msgCIPResultHeader
 	if err := binary.Read(data, binary.LittleEndian, &resultHdr); err != nil {
-		return nil, 0, fmt.Errorf("FragRead result header: %w", err)
+		return 0, nil, 0, fmt.Errorf("FragRead result header: %w", err)
 	}
 	items, err := readItems(data)
 	if err != nil {
-		return nil, 0, fmt.Errorf("FragRead items: %w", err)
+		return 0, nil, 0, fmt.Errorf("FragRead items: %w", err)
 	}
 	if len(items) != 2 {
-		return nil, 0, fmt.Errorf("FragRead expected 2 items, got %d", len(items))
+		return 0, nil, 0, fmt.Errorf("FragRead expected 2 items, got %d", len(items))
 	}
 
 	var hdr2 msgCIPReadResultData
 	if err := items[1].DeSerialize(&hdr2); err != nil {
-		return nil, 0, fmt.Errorf("FragRead inner header: %w", err)
+		return 0, nil, 0, fmt.Errorf("FragRead inner header: %w", err)
 	}
-	return items[1].Data[items[1].Pos:], hdr2.Status[1], nil
+	return hdr2.Type, items[1].Data[items[1].Pos:], hdr2.Status[1], nil
 }
-- 
2.43.0


From a62bb1b4b8e0777befdd0a4fa2faa85885c13fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:37 +0000
Subject: [PATCH 32/79] fix: listing tags neither breaks concurrent use of the
 client nor connects it again from the keep-alive

---
 client.go          |   2 +
 connect.go         |   4 +-
 datatable.go       |   2 +-
 getattr.go         |   6 ++-
 ioi.go             |   2 +-
 listallprograms.go |  18 ++++++-
 listalltags.go     | 121 +++++++++++++++++++++++++++++++++++++++++----
 listmembers.go     |  34 +++++++++++--
 listsubtags.go     |  16 ++++--
 9 files changed, 181 insertions(+), 24 deletions(-)

diff --git a/client.go b/client.go
index 1f9796f..3445068 100644
--- a/client.go
+++ b/client.go
@@ -81,6 +81,8 @@ type Client struct {
 	KnownTypes     map[string]UDTDescriptor
 	KnownTypesByID map[uint32]UDTDescriptor
 	KnownPrograms  map[string]*KnownProgram
+	// protects the maps above. They are never changed, only replaced.
+	knownLock sync.Mutex
 
 	// used for optimization.  v20 and before vs v21 and after have different
 	// tag reading functionality.
diff --git a/connect.go b/connect.go
index 9d550c7..7998fab 100644
--- a/connect.go
+++ b/connect.go
@@ -256,7 +256,7 @@ func (client *Client) runKeepAlive(cancel chan struct{}) {
 	}
 
 	if client.KeepAlivePollTags {
-		err = client.ListAllTags(0)
+		err = client.listAllTags(0)
 		if err != nil {
 			client.Logger.Error("keepalive list tags failed", slog.Any("err", err))
 			return
@@ -295,7 +295,7 @@ func (client *Client) runKeepAlive(cancel chan struct{}) {
 						slog.Any("originalProps", originalProps.Rest()),
 						slog.Any("newProps", newProps.Rest()),
 					)
-					err := client.ListAllTags(0)
+					err := client.listAllTags(0)
 					if err != nil {
 						client.Logger.Warn("keepalive list tags failed.", "error", err)
 						return
diff --git a/datatable.go b/datatable.go
index 06bbbe5..d86568b 100644
--- a/datatable.go
+++ b/datatable.go
@@ -95,7 +95,7 @@ func dataTableTypeSize(t CIPType) (uint16, error) {
 // Falls back to dataTableTypeSize() if the tag is not in KnownTags or has no UDT.
 func (buf *DataTableBuffer) resolveTypeSize(tagName string, cipType CIPType) (uint16, error) {
 	if cipType == CIPTypeSTRING || cipType == CIPTypeStruct {
-		kt, ok := buf.client.KnownTags[strings.ToLower(tagName)]
+		kt, ok := buf.client.knownTag(strings.ToLower(tagName))
 		if ok && kt.UDT != nil && kt.UDT.Info.SizeBytes > 0 {
 			return uint16(kt.UDT.Info.SizeBytes), nil
 		}
diff --git a/getattr.go b/getattr.go
index 9b89166..daa9dff 100644
--- a/getattr.go
+++ b/getattr.go
@@ -441,7 +441,11 @@ func (client *Client) GenericCIPMessage(service CIPService, path, msg_data []byt
 	if err != nil {
 		return nil, fmt.Errorf("could not start generic message: %w", err)
 	}
+	return client.genericCIPMessage(service, path, msg_data)
+}
 
+// genericCIPMessage is GenericCIPMessage on the connection there is, without connecting first.
+func (client *Client) genericCIPMessage(service CIPService, path, msg_data []byte) (*CIPItem, error) {
 	reqitems := make([]CIPItem, 2)
 	//reqitems[0] = cipItem{Header: cipItemHeader{ID: cipItem_Null}}
 	reqitems[0] = newItem(cipItem_ConnectionAddress, &client.OTNetworkConnectionID)
@@ -453,7 +457,7 @@ func (client *Client) GenericCIPMessage(service CIPService, path, msg_data []byt
 	}
 
 	reqitems[1] = newItem(cipItem_ConnectedData, readmsg)
-	err = reqitems[1].Serialize(path)
+	err := reqitems[1].Serialize(path)
 	if err != nil {
 		return nil, fmt.Errorf("could not serialize path: %w", err)
 	}
diff --git a/ioi.go b/ioi.go
index 0ae72ff..416ec76 100644
--- a/ioi.go
+++ b/ioi.go
@@ -118,7 +118,7 @@ func (client *Client) newIOI(tagpath string, datatype CIPType) (ioi *tagIOI, err
 
 	// on firmwares greater than 20, we can do some optimizations.
 	if client.firmware() > 20 {
-		tag_info, ok := client.KnownTags[tagpath]
+		tag_info, ok := client.knownTag(tagpath)
 		if ok {
 			// we'll assume the user knows what they're doing if they're dumping data into a struct.
 			/*
diff --git a/listallprograms.go b/listallprograms.go
index b29c645..895a1d4 100644
--- a/listallprograms.go
+++ b/listallprograms.go
@@ -6,6 +6,20 @@ import (
 )
 
 func (client *Client) ListAllPrograms() error {
+	err := client.checkConnection()
+	if err != nil {
+		return fmt.Errorf("could not list programs: %w", err)
+	}
+	l := tagListing{}
+	err = client.listAllPrograms(&l)
+	if err != nil {
+		return err
+	}
+	client.setKnown(&l)
+	return nil
+}
+
+func (client *Client) listAllPrograms(l *tagListing) error {
 	client.Logger.Debug("listing all programs")
 
 	// for generic messages we need to create the cip path ourselves.  The serialize function can be used to do this.
@@ -23,7 +37,7 @@ func (client *Client) ListAllPrograms() error {
 		return err
 	}
 
-	resp, err := client.GenericCIPMessage(CIPService_GetInstanceAttributeList, path.Bytes(), msg_data.Bytes())
+	resp, err := client.genericCIPMessage(CIPService_GetInstanceAttributeList, path.Bytes(), msg_data.Bytes())
 	if err != nil {
 		client.Logger.Warn("problem reading programs directly  Some controllers don't support this method. Use ListAllTags to attempt fallback.", "error", err)
 		return fmt.Errorf("problem reading programs: %w", err)
@@ -52,7 +66,7 @@ func (client *Client) ListAllPrograms() error {
 		results[namestr] = &KnownProgram{ID: CIPInstance(hdr.InstanceID), Name: namestr}
 	}
 
-	client.KnownPrograms = results
+	l.programs = results
 
 	return nil
 }
diff --git a/listalltags.go b/listalltags.go
index 9df6b54..dbbc68e 100644
--- a/listalltags.go
+++ b/listalltags.go
@@ -113,6 +113,107 @@ type msgListInstanceHeader struct {
 // The function automatically calls ListAllPrograms() first when start_instance is 0
 // to ensure program-scoped tags are properly discovered and categorized.
 func (client *Client) ListAllTags(start_instance uint32) error {
+	err := client.checkConnection()
+	if err != nil {
+		return fmt.Errorf("could not list tags: %w", err)
+	}
+	return client.listAllTags(start_instance)
+}
+
+// listAllTags is ListAllTags on the connection there is, without connecting first.
+func (client *Client) listAllTags(start_instance uint32) error {
+	// a listing from the start replaces everything that was known before.
+	l := tagListing{complete: start_instance <= 1}
+	err := client.listTags(&l, start_instance)
+	if err != nil {
+		return err
+	}
+	client.setKnown(&l)
+	return nil
+}
+
+// tagListing is what a listing has found so far.
+type tagListing struct {
+	complete  bool
+	tags      map[string]KnownTag
+	types     map[string]UDTDescriptor
+	typesByID map[uint32]UDTDescriptor
+	programs  map[string]*KnownProgram
+}
+
+func (l *tagListing) addTag(kt KnownTag) {
+	if l.tags == nil {
+		l.tags = make(map[string]KnownTag)
+	}
+	l.tags[strings.ToLower(kt.Name)] = kt
+}
+
+func (l *tagListing) addType(u UDTDescriptor) {
+	if l.types == nil {
+		l.types = make(map[string]UDTDescriptor)
+	}
+	l.types[u.Name] = u
+}
+
+func (l *tagListing) addTypeByID(u UDTDescriptor) {
+	if l.typesByID == nil {
+		l.typesByID = make(map[uint32]UDTDescriptor)
+	}
+	l.typesByID[u.Instance_ID] = u
+}
+
+func (l *tagListing) addProgram(p *KnownProgram) {
+	if l.programs == nil {
+		l.programs = make(map[string]*KnownProgram)
+	}
+	l.programs[strings.ToLower(p.Name)] = p
+}
+
+// setKnown makes the result of a listing available in the Known maps. The maps are replaced so that the
+// ones somebody may be reading stay as they are.
+func (client *Client) setKnown(l *tagListing) {
+	client.knownLock.Lock()
+	defer client.knownLock.Unlock()
+	client.KnownTags = withNew(client.KnownTags, l.tags, l.complete)
+	client.KnownTypes = withNew(client.KnownTypes, l.types, l.complete)
+	client.KnownTypesByID = withNew(client.KnownTypesByID, l.typesByID, l.complete)
+	if l.programs != nil || l.complete {
+		client.KnownPrograms = withNew(nil, l.programs, true)
+	}
+}
+
+// withNew returns a map with the entries of found, and with those of known too unless found is complete.
+func withNew[K comparable, V any](known, found map[K]V, complete bool) map[K]V {
+	if len(found) == 0 && !complete {
+		return known
+	}
+	result := make(map[K]V, len(known)+len(found))
+	if !complete {
+		for k, v := range known {
+			result[k] = v
+		}
+	}
+	for k, v := range found {
+		result[k] = v
+	}
+	return result
+}
+
+func (client *Client) knownTag(name string) (KnownTag, bool) {
+	client.knownLock.Lock()
+	defer client.knownLock.Unlock()
+	kt, ok := client.KnownTags[name]
+	return kt, ok
+}
+
+func (client *Client) knownTypeByID(id uint32) (UDTDescriptor, bool) {
+	client.knownLock.Lock()
+	defer client.knownLock.Unlock()
+	d, ok := client.KnownTypesByID[id]
+	return d, ok
+}
+
+func (client *Client) listTags(l *tagListing, start_instance uint32) error {
 	const minimumTagValue = 1
 	if start_instance < minimumTagValue {
 		start_instance = minimumTagValue
@@ -122,18 +223,18 @@ func (client *Client) ListAllTags(start_instance uint32) error {
 	// if we are starting from scratch, we should list all the programs first so we have
 	// their instance IDs when we come across program scoped tags.
 	if start_instance == 1 {
-		err := client.ListAllPrograms()
+		err := client.listAllPrograms(l)
 		if err != nil {
 			var cipErr CIPStatusError
 			if errors.As(err, &cipErr) {
 				fallbackProgramNames = true
-				client.KnownPrograms = make(map[string]*KnownProgram)
+				l.programs = nil
 			} else {
 				return fmt.Errorf("problem listing programs: %w", err)
 			}
 		}
-		for _, p := range client.KnownPrograms {
-			_, err := client.ListSubTags(p, 1)
+		for _, p := range l.programs {
+			_, err := client.listSubTags(l, p, 1)
 			if err != nil {
 				return fmt.Errorf("problem listing sub tags for %s: %w", p.Name, err)
 			}
@@ -277,8 +378,8 @@ func (client *Client) ListAllTags(start_instance uint32) error {
 					continue
 				}
 				p := &KnownProgram{Name: progName}
-				client.KnownPrograms[strings.ToLower(p.Name)] = p
-				_, err := client.ListSubTags(p, 1)
+				l.addProgram(p)
+				_, err := client.listSubTags(l, p, 1)
 				if err != nil {
 					return fmt.Errorf("problem listing sub tags for %s: %w", p.Name, err)
 				}
@@ -292,7 +393,7 @@ func (client *Client) ListAllTags(start_instance uint32) error {
 
 		if tag_ftr.Template_ID() != 0 { //&& !tag_ftr.PreDefined() {
 			client.Logger.Debug("Looking up template", "tag name", tag_string)
-			u, err := client.ListMembers(uint32(tag_ftr.Template_ID()))
+			u, err := client.listMembers(l, uint32(tag_ftr.Template_ID()))
 			if err != nil {
 				client.Logger.Error("problem reading member list",
 					"string", tag_string,
@@ -305,16 +406,16 @@ func (client *Client) ListAllTags(start_instance uint32) error {
 			} else {
 				kt.UDT = &u
 				client.Logger.Debug("Successful member read for %s", "name", kt.Name)
-				client.KnownTypes[u.Name] = u
+				l.addType(u)
 			}
 		}
 
-		client.KnownTags[strings.ToLower(string(tag_name))] = kt
+		l.addTag(kt)
 
 	}
 
 	if data_hdr.Status == uint16(CIPStatus_PartialTransfer) { //} && start_instance < 200 {
-		err = client.ListAllTags(start_instance)
+		err = client.listTags(l, start_instance)
 		if err != nil {
 			return err
 		}
diff --git a/listmembers.go b/listmembers.go
index 914a954..813cf27 100644
--- a/listmembers.go
+++ b/listmembers.go
@@ -43,6 +43,14 @@ type msgGetTemplateAttrListResponse struct {
 }
 
 func (client *Client) GetTemplateInstanceAttr(str_instance uint32) (msgGetTemplateAttrListResponse, error) {
+	err := client.checkConnection()
+	if err != nil {
+		return msgGetTemplateAttrListResponse{}, fmt.Errorf("could not get template attributes: %w", err)
+	}
+	return client.getTemplateInstanceAttr(str_instance)
+}
+
+func (client *Client) getTemplateInstanceAttr(str_instance uint32) (msgGetTemplateAttrListResponse, error) {
 	client.Logger.Debug("list members", "instance", str_instance)
 
 	// have to start at 1.
@@ -152,14 +160,32 @@ func (m msgMemberInfo) CIPType() CIPType {
 // exactly, but V32 it works and V20 it does not.  I suspect v24 or v28 since they were pretty substantial
 // changes, but v21 could also be the version since that is the swap from rslogix to studio
 func (client *Client) ListMembers(str_instance uint32) (UDTDescriptor, error) {
+	d, ok := client.knownTypeByID(str_instance)
+	if ok {
+		return d, nil
+	}
+	err := client.checkConnection()
+	if err != nil {
+		return UDTDescriptor{}, fmt.Errorf("could not list members: %w", err)
+	}
+	l := tagListing{}
+	d, err = client.listMembers(&l, str_instance)
+	client.setKnown(&l)
+	return d, err
+}
+
+func (client *Client) listMembers(l *tagListing, str_instance uint32) (UDTDescriptor, error) {
 	client.Logger.Debug("list members", "instance", str_instance)
 
-	d, ok := client.KnownTypesByID[str_instance]
+	d, ok := l.typesByID[str_instance]
+	if !ok && !l.complete {
+		d, ok = client.knownTypeByID(str_instance)
+	}
 	if ok {
 		return d, nil
 	}
 
-	template_info, err := client.GetTemplateInstanceAttr(str_instance)
+	template_info, err := client.getTemplateInstanceAttr(str_instance)
 
 	if err != nil {
 		return UDTDescriptor{}, fmt.Errorf("couldn't get template info. %w", err)
@@ -268,7 +294,7 @@ func (client *Client) ListMembers(str_instance uint32) (UDTDescriptor, error) {
 		id := descriptor.Members[i].Template_ID()
 		if id != 0 {
 			// this is a UDT
-			d2, err := client.ListMembers(uint32(descriptor.Members[i].Template_ID()))
+			d2, err := client.listMembers(l, uint32(descriptor.Members[i].Template_ID()))
 			if err == nil {
 				descriptor.Members[i].UDT = &d2
 			} else {
@@ -277,7 +303,7 @@ func (client *Client) ListMembers(str_instance uint32) (UDTDescriptor, error) {
 		}
 	}
 
-	client.KnownTypesByID[str_instance] = descriptor
+	l.addTypeByID(descriptor)
 	return descriptor, nil
 }
 
diff --git a/listsubtags.go b/listsubtags.go
index a60d505..1c0aff3 100644
--- a/listsubtags.go
+++ b/listsubtags.go
@@ -4,7 +4,6 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
-	"strings"
 )
 
 // the gist here is that we want to do a fragmented read (since there will undoubtedly be more than one packet's worth)
@@ -13,6 +12,17 @@ import (
 // see 1756-PM020H-EN-P March 2022 page 39
 // also see https://forums.mrclient.com/index.php?/topic/40626-reading-and-writing-io-tags-in-plc/
 func (client *Client) ListSubTags(Program *KnownProgram, start_instance uint32) ([]KnownTag, error) {
+	err := client.checkConnection()
+	if err != nil {
+		return nil, fmt.Errorf("could not list sub tags: %w", err)
+	}
+	l := tagListing{}
+	new_kts, err := client.listSubTags(&l, Program, start_instance)
+	client.setKnown(&l)
+	return new_kts, err
+}
+
+func (client *Client) listSubTags(l *tagListing, Program *KnownProgram, start_instance uint32) ([]KnownTag, error) {
 
 	new_kts := make([]KnownTag, 0, 100)
 	client.Logger.Debug("readall", "start id", start_instance)
@@ -135,7 +145,7 @@ func (client *Client) ListSubTags(Program *KnownProgram, start_instance uint32)
 		if !isValidTag(string(newtag_bytes), *tag_ftr) {
 			continue
 		}
-		client.KnownTags[strings.ToLower(newtag_name)] = kt
+		l.addTag(kt)
 		new_kts = append(new_kts, kt)
 
 		start_instance = tag_hdr.InstanceID
@@ -143,7 +153,7 @@ func (client *Client) ListSubTags(Program *KnownProgram, start_instance uint32)
 	}
 
 	if data_hdr.Status == uint16(CIPStatus_PartialTransfer) {
-		_, err = client.ListSubTags(Program, start_instance)
+		_, err = client.listSubTags(l, Program, start_instance)
 		if err != nil {
 			return new_kts, fmt.Errorf("problem listing subtags. %w", err)
 		}
-- 
2.43.0


From 3295c01d174de2ea87410628ac23ae6d61462186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:11 +0000
Subject: [PATCH 33/79] fix: tag lists continue after the last tag of a page
 and include every page

---
 listalltags.go | 12 +++++++++---
 listsubtags.go | 12 +++++++++---
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/listalltags.go b/listalltags.go
index dbbc68e..98a2793 100644
--- a/listalltags.go
+++ b/listalltags.go
@@ -314,6 +314,7 @@ func (client *Client) listTags(l *tagListing, start_instance uint32) error {
 		return fmt.Errorf("problem reading list instance header. %w", err)
 	}
 
+	next_instance := start_instance
 	tag_hdr := new(msgtagResultDataHeader)
 	tag_ftr := new(TagInfo)
 	for data2.Len() > 0 {
@@ -322,7 +323,9 @@ func (client *Client) listTags(l *tagListing, start_instance uint32) error {
 		if err != nil {
 			return fmt.Errorf("problem reading tag header. %w", err)
 		}
-		start_instance = tag_hdr.InstanceID
+		if tag_hdr.InstanceID >= next_instance {
+			next_instance = tag_hdr.InstanceID + 1
+		}
 
 		tag_name := make([]byte, tag_hdr.NameLength)
 		err = binary.Read(data2, binary.LittleEndian, &tag_name)
@@ -414,8 +417,11 @@ func (client *Client) listTags(l *tagListing, start_instance uint32) error {
 
 	}
 
-	if data_hdr.Status == uint16(CIPStatus_PartialTransfer) { //} && start_instance < 200 {
-		err = client.listTags(l, start_instance)
+	if data_hdr.Status == uint16(CIPStatus_PartialTransfer) {
+		if next_instance <= start_instance {
+			return fmt.Errorf("tag list does not continue after instance %d", start_instance)
+		}
+		err = client.listTags(l, next_instance)
 		if err != nil {
 			return err
 		}
diff --git a/listsubtags.go b/listsubtags.go
index 1c0aff3..248aecc 100644
--- a/listsubtags.go
+++ b/listsubtags.go
@@ -96,6 +96,7 @@ func (client *Client) listSubTags(l *tagListing, Program *KnownProgram, start_in
 		return nil, fmt.Errorf("problem reading tag header. %w", err)
 	}
 
+	next_instance := start_instance
 	tag_hdr := new(msgtagResultDataHeader)
 	tag_ftr := new(TagInfo)
 	for data2.Len() > 0 {
@@ -104,6 +105,9 @@ func (client *Client) listSubTags(l *tagListing, Program *KnownProgram, start_in
 		if err != nil {
 			return nil, fmt.Errorf("problem reading tag header. %w", err)
 		}
+		if tag_hdr.InstanceID >= next_instance {
+			next_instance = tag_hdr.InstanceID + 1
+		}
 		newtag_bytes := make([]byte, tag_hdr.NameLength)
 		err = binary.Read(data2, binary.LittleEndian, &newtag_bytes)
 		if err != nil {
@@ -148,12 +152,14 @@ func (client *Client) listSubTags(l *tagListing, Program *KnownProgram, start_in
 		l.addTag(kt)
 		new_kts = append(new_kts, kt)
 
-		start_instance = tag_hdr.InstanceID
-
 	}
 
 	if data_hdr.Status == uint16(CIPStatus_PartialTransfer) {
-		_, err = client.listSubTags(l, Program, start_instance)
+		if next_instance <= start_instance {
+			return new_kts, fmt.Errorf("tag list does not continue after instance %d", start_instance)
+		}
+		more_kts, err := client.listSubTags(l, Program, next_instance)
+		new_kts = append(new_kts, more_kts...)
 		if err != nil {
 			return new_kts, fmt.Errorf("problem listing subtags. %w", err)
 		}
-- 
2.43.0


From 0293af3898feb38786794b74274e7a9a4ab1de7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:05 +0000
Subject: [PATCH 34/79] fix: tag and template listings check the status of
 every response and read big templates completely

---
 listalltags.go |   8 +++
 listmembers.go | 135 ++++++++++++++++++++++++++++++++-----------------
 listsubtags.go |   8 +++
 3 files changed, 105 insertions(+), 46 deletions(-)

diff --git a/listalltags.go b/listalltags.go
index 98a2793..f4e32f4 100644
--- a/listalltags.go
+++ b/listalltags.go
@@ -305,6 +305,10 @@ func (client *Client) listTags(l *tagListing, start_instance uint32) error {
 		return fmt.Errorf("couldn't parse items. %w", err)
 	}
 
+	if len(resp_items) != 2 {
+		return fmt.Errorf("wrong number of items. Expected 2 but got %v", len(resp_items))
+	}
+
 	// get ready to read tag info from item 1 data
 	data2 := bytes.NewBuffer(resp_items[1].Data)
 	//data2.Next(4)
@@ -314,6 +318,10 @@ func (client *Client) listTags(l *tagListing, start_instance uint32) error {
 		return fmt.Errorf("problem reading list instance header. %w", err)
 	}
 
+	if data_hdr.Status != uint16(CIPStatus_OK) && data_hdr.Status != uint16(CIPStatus_PartialTransfer) {
+		return fmt.Errorf("problem listing tags: %w", CIPStatusError{Expected: CIPStatus_OK, Status: CIPStatus(data_hdr.Status)})
+	}
+
 	next_instance := start_instance
 	tag_hdr := new(msgtagResultDataHeader)
 	tag_ftr := new(TagInfo)
diff --git a/listmembers.go b/listmembers.go
index 813cf27..624ff76 100644
--- a/listmembers.go
+++ b/listmembers.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"math"
 	"strings"
 )
 
@@ -128,6 +129,10 @@ func (client *Client) getTemplateInstanceAttr(str_instance uint32) (msgGetTempla
 		return msgGetTemplateAttrListResponse{}, fmt.Errorf("couldn't parse items. %w", err)
 	}
 
+	if len(resp_items) != 2 {
+		return msgGetTemplateAttrListResponse{}, fmt.Errorf("wrong number of items. Expected 2 but got %v", len(resp_items))
+	}
+
 	// get ready to read tag info from item 1 data
 	data2 := bytes.NewBuffer(resp_items[1].Data)
 
@@ -136,6 +141,11 @@ func (client *Client) getTemplateInstanceAttr(str_instance uint32) (msgGetTempla
 	if err != nil {
 		return result, fmt.Errorf("problem reading result. %w", err)
 	}
+	for _, status := range []uint16{uint16(result.Status), result.SizeWords_Status, result.SizeBytes_Status, result.MemberCount_Status, result.Handle_Status} {
+		if status != uint16(CIPStatus_OK) {
+			return result, fmt.Errorf("problem getting template attributes: %w", CIPStatusError{Expected: CIPStatus_OK, Status: CIPStatus(status)})
+		}
+	}
 
 	return result, nil
 }
@@ -156,41 +166,12 @@ func (m msgMemberInfo) CIPType() CIPType {
 	return CIPType(m.Type & 0x00FF)
 }
 
-// Per my testing, this only works after a certain firmware version.  I don't know which one
-// exactly, but V32 it works and V20 it does not.  I suspect v24 or v28 since they were pretty substantial
-// changes, but v21 could also be the version since that is the swap from rslogix to studio
-func (client *Client) ListMembers(str_instance uint32) (UDTDescriptor, error) {
-	d, ok := client.knownTypeByID(str_instance)
-	if ok {
-		return d, nil
-	}
-	err := client.checkConnection()
-	if err != nil {
-		return UDTDescriptor{}, fmt.Errorf("could not list members: %w", err)
-	}
-	l := tagListing{}
-	d, err = client.listMembers(&l, str_instance)
-	client.setKnown(&l)
-	return d, err
-}
-
-func (client *Client) listMembers(l *tagListing, str_instance uint32) (UDTDescriptor, error) {
-	client.Logger.Debug("list members", "instance", str_instance)
-
-	d, ok := l.typesByID[str_instance]
-	if !ok && !l.complete {
-		d, ok = client.knownTypeByID(str_instance)
-	}
-	if ok {
-		return d, nil
-	}
-
-	template_info, err := client.getTemplateInstanceAttr(str_instance)
-
-	if err != nil {
-		return UDTDescriptor{}, fmt.Errorf("couldn't get template info. %w", err)
-	}
+// part of a template read response that is not counted in the size of the template.
+const templateOverhead = 23
 
+// readTemplate reads a part of the definition of a template. more is true if it is only the start of what was
+// asked for.
+func (client *Client) readTemplate(str_instance, start_offset uint32, read_length uint16) (part []byte, more bool, err error) {
 	reqitems := make([]CIPItem, 2)
 	//reqitems[0] = cipItem{Header: cipItemHeader{ID: cipItem_Null}}
 	reqitems[0] = newItem(cipItem_ConnectionAddress, &client.OTNetworkConnectionID)
@@ -200,7 +181,7 @@ func (client *Client) listMembers(l *tagListing, str_instance uint32) (UDTDescri
 		//cipObject_Symbol, cipInstance(start_instance),
 	)
 	if err != nil {
-		return UDTDescriptor{}, fmt.Errorf("couldn't build path. %w", err)
+		return nil, false, fmt.Errorf("couldn't build path. %w", err)
 	}
 
 	readmsg := msgCIPConnectedServiceReq{
@@ -212,26 +193,24 @@ func (client *Client) listMembers(l *tagListing, str_instance uint32) (UDTDescri
 	reqitems[1] = newItem(cipItem_ConnectedData, readmsg)
 	err = reqitems[1].Serialize(p.Bytes())
 	if err != nil {
-		return UDTDescriptor{}, fmt.Errorf("problem serializing path: %w", err)
+		return nil, false, fmt.Errorf("problem serializing path: %w", err)
 	}
-	start_offset := uint32(0)
-	read_length := uint16(template_info.SizeWords*4 - 23)
 	err = reqitems[1].Serialize(start_offset)
 	if err != nil {
-		return UDTDescriptor{}, fmt.Errorf("problem serializing item start offset: %w", err)
+		return nil, false, fmt.Errorf("problem serializing item start offset: %w", err)
 	}
 	err = reqitems[1].Serialize(read_length)
 	if err != nil {
-		return UDTDescriptor{}, fmt.Errorf("problem serializing item read length: %w", err)
+		return nil, false, fmt.Errorf("problem serializing item read length: %w", err)
 	}
 
 	itemdata, err := serializeItems(reqitems)
 	if err != nil {
-		return UDTDescriptor{}, fmt.Errorf("problem serializing item data: %w", err)
+		return nil, false, fmt.Errorf("problem serializing item data: %w", err)
 	}
 	hdr, data, err := client.send_recv_data(cipCommandSendUnitData, itemdata)
 	if err != nil {
-		return UDTDescriptor{}, err
+		return nil, false, err
 	}
 	_ = hdr
 	_ = data
@@ -242,22 +221,86 @@ func (client *Client) listMembers(l *tagListing, str_instance uint32) (UDTDescri
 	padding := make([]byte, 6)
 	_, err = data.Read(padding)
 	if err != nil {
-		return UDTDescriptor{}, fmt.Errorf("couldn't read padding. %w", err)
+		return nil, false, fmt.Errorf("couldn't read padding. %w", err)
 	}
 
 	resp_items, err := readItems(data)
 	if err != nil {
-		return UDTDescriptor{}, fmt.Errorf("couldn't parse items. %w", err)
+		return nil, false, fmt.Errorf("couldn't parse items. %w", err)
+	}
+
+	if len(resp_items) != 2 {
+		return nil, false, fmt.Errorf("wrong number of items. Expected 2 but got %v", len(resp_items))
 	}
 
-	// get ready to read tag info from item 1 data
 	data2 := bytes.NewBuffer(resp_items[1].Data)
 
 	mihdr := msgMemberInfoHdr{}
 	err = binary.Read(data2, binary.LittleEndian, &mihdr)
 	if err != nil {
-		return UDTDescriptor{}, fmt.Errorf("couldn't read member info header. %w", err)
+		return nil, false, fmt.Errorf("couldn't read member info header. %w", err)
+	}
+	if mihdr.Status != uint16(CIPStatus_OK) && mihdr.Status != uint16(CIPStatus_PartialTransfer) {
+		return nil, false, fmt.Errorf("problem reading template: %w", CIPStatusError{Expected: CIPStatus_OK, Status: CIPStatus(mihdr.Status)})
+	}
+	return data2.Bytes(), mihdr.Status == uint16(CIPStatus_PartialTransfer), nil
+}
+
+// Per my testing, this only works after a certain firmware version.  I don't know which one
+// exactly, but V32 it works and V20 it does not.  I suspect v24 or v28 since they were pretty substantial
+// changes, but v21 could also be the version since that is the swap from rslogix to studio
+func (client *Client) ListMembers(str_instance uint32) (UDTDescriptor, error) {
+	d, ok := client.knownTypeByID(str_instance)
+	if ok {
+		return d, nil
+	}
+	err := client.checkConnection()
+	if err != nil {
+		return UDTDescriptor{}, fmt.Errorf("could not list members: %w", err)
+	}
+	l := tagListing{}
+	d, err = client.listMembers(&l, str_instance)
+	client.setKnown(&l)
+	return d, err
+}
+
+func (client *Client) listMembers(l *tagListing, str_instance uint32) (UDTDescriptor, error) {
+	client.Logger.Debug("list members", "instance", str_instance)
+
+	d, ok := l.typesByID[str_instance]
+	if !ok && !l.complete {
+		d, ok = client.knownTypeByID(str_instance)
+	}
+	if ok {
+		return d, nil
+	}
+
+	template_info, err := client.getTemplateInstanceAttr(str_instance)
+
+	if err != nil {
+		return UDTDescriptor{}, fmt.Errorf("couldn't get template info. %w", err)
+	}
+
+	if template_info.SizeWords*4 <= templateOverhead || template_info.SizeWords > math.MaxUint16 {
+		return UDTDescriptor{}, fmt.Errorf("unusable template size of %d words", template_info.SizeWords)
+	}
+
+	// big templates take more than one read.
+	definition := make([]byte, 0)
+	definition_length := template_info.SizeWords*4 - templateOverhead
+	for more := true; more && uint32(len(definition)) < definition_length; {
+		offset := uint32(len(definition))
+		var part []byte
+		part, more, err = client.readTemplate(str_instance, offset, uint16(min(definition_length-offset, math.MaxUint16)))
+		if err != nil {
+			return UDTDescriptor{}, err
+		}
+		if more && len(part) == 0 {
+			return UDTDescriptor{}, fmt.Errorf("template ended after %d bytes", offset)
+		}
+		definition = append(definition, part...)
 	}
+	data2 := bytes.NewBuffer(definition)
 
 	memberInfos := make([]msgMemberInfo, template_info.MemberCount)
 	err = binary.Read(data2, binary.LittleEndian, &memberInfos)
diff --git a/listsubtags.go b/listsubtags.go
index 248aecc..f5bd980 100644
--- a/listsubtags.go
+++ b/listsubtags.go
@@ -87,6 +87,10 @@ func (client *Client) listSubTags(l *tagListing, Program *KnownProgram, start_in
 		return new_kts, fmt.Errorf("couldn't parse items. %w", err)
 	}
 
+	if len(resp_items) != 2 {
+		return nil, fmt.Errorf("wrong number of items. Expected 2 but got %v", len(resp_items))
+	}
+
 	// get ready to read tag info from item 1 data
 	data2 := bytes.NewBuffer(resp_items[1].Data)
 	//data2.Next(4)
@@ -96,6 +100,10 @@ func (client *Client) listSubTags(l *tagListing, Program *KnownProgram, start_in
 		return nil, fmt.Errorf("problem reading tag header. %w", err)
 	}
 
+	if data_hdr.Status != uint16(CIPStatus_OK) && data_hdr.Status != uint16(CIPStatus_PartialTransfer) {
+		return nil, fmt.Errorf("problem listing tags: %w", CIPStatusError{Expected: CIPStatus_OK, Status: CIPStatus(data_hdr.Status)})
+	}
+
 	next_instance := start_instance
 	tag_hdr := new(msgtagResultDataHeader)
 	tag_ftr := new(TagInfo)
-- 
2.43.0


From 5276db73d74f9179db4c78245ce6d6668dcdf69a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:22 +0000
Subject: [PATCH 35/79] fix: structure names, nested definitions and program
 lists are reported whole or not at all

---
 listallprograms.go | 75 +++++++++++++++++++++++++++++-----------------
 listalltags.go     | 11 +++----
 listmembers.go     | 24 +++++++++++++--
 3 files changed, 75 insertions(+), 35 deletions(-)

diff --git a/listallprograms.go b/listallprograms.go
index 895a1d4..8dd4c4f 100644
--- a/listallprograms.go
+++ b/listallprograms.go
@@ -1,7 +1,9 @@
 package gologix
 
 import (
+	"errors"
 	"fmt"
+	"io"
 	"strings"
 )
 
@@ -22,13 +24,6 @@ func (client *Client) ListAllPrograms() error {
 func (client *Client) listAllPrograms(l *tagListing) error {
 	client.Logger.Debug("listing all programs")
 
-	// for generic messages we need to create the cip path ourselves.  The serialize function can be used to do this.
-	path, err := Serialize(CipObject_Programs, CIPInstance(0))
-	if err != nil {
-		client.Logger.Warn("could not serialize path", "error", err)
-		return err
-	}
-
 	number_of_attr_to_receive := 1
 	attr_28_program_name := 28
 	msg_data, err := Serialize(uint16(number_of_attr_to_receive), uint16(attr_28_program_name))
@@ -37,33 +32,59 @@ func (client *Client) listAllPrograms(l *tagListing) error {
 		return err
 	}
 
-	resp, err := client.genericCIPMessage(CIPService_GetInstanceAttributeList, path.Bytes(), msg_data.Bytes())
-	if err != nil {
-		client.Logger.Warn("problem reading programs directly  Some controllers don't support this method. Use ListAllTags to attempt fallback.", "error", err)
-		return fmt.Errorf("problem reading programs: %w", err)
-	}
-
 	results := make(map[string]*KnownProgram)
 
-	for {
-		var hdr listprograms_resp_header
-		err = resp.DeSerialize(&hdr)
+	start_instance := uint32(0)
+	for more := true; more; {
+		// for generic messages we need to create the cip path ourselves.  The serialize function can be used to do this.
+		path, err := Serialize(CipObject_Programs, CIPInstance(start_instance))
 		if err != nil {
-			client.Logger.Debug("got last item")
-			break
+			client.Logger.Warn("could not serialize path", "error", err)
+			return err
 		}
 
-		// read the name
-		name := make([]byte, hdr.NameLen)
-		err = resp.DeSerialize(&name)
-		if err != nil {
-			client.Logger.Warn("could not read name", "error", err)
-			return err
+		resp, err := client.genericCIPMessage(CIPService_GetInstanceAttributeList, path.Bytes(), msg_data.Bytes())
+		var cipErr CIPStatusError
+		more = errors.As(err, &cipErr) && cipErr.Status == CIPStatus_PartialTransfer
+		if err != nil && !more {
+			client.Logger.Warn("problem reading programs directly  Some controllers don't support this method. Use ListAllTags to attempt fallback.", "error", err)
+			return fmt.Errorf("problem reading programs: %w", err)
 		}
 
-		// convert the name to a string
-		namestr := strings.TrimSpace(string(name))
-		results[namestr] = &KnownProgram{ID: CIPInstance(hdr.InstanceID), Name: namestr}
+		next_instance := start_instance
+		for {
+			var hdr listprograms_resp_header
+			err = resp.DeSerialize(&hdr)
+			if errors.Is(err, io.EOF) {
+				client.Logger.Debug("got last item")
+				break
+			}
+			if err != nil {
+				return fmt.Errorf("could not read program header: %w", err)
+			}
+
+			// read the name
+			if int64(hdr.NameLen) > int64(len(resp.Data)) {
+				return fmt.Errorf("program name of %d bytes does not fit the response", hdr.NameLen)
+			}
+			name := make([]byte, hdr.NameLen)
+			err = resp.DeSerialize(&name)
+			if err != nil {
+				client.Logger.Warn("could not read name", "error", err)
+				return err
+			}
+
+			// convert the name to a string
+			namestr := strings.TrimSpace(string(name))
+			results[namestr] = &KnownProgram{ID: CIPInstance(hdr.InstanceID), Name: namestr}
+			if uint32(hdr.InstanceID) >= next_instance {
+				next_instance = uint32(hdr.InstanceID) + 1
+			}
+		}
+		if more && next_instance <= start_instance {
+			return fmt.Errorf("program list does not continue after instance %d", start_instance)
+		}
+		start_instance = next_instance
 	}
 
 	l.programs = results
diff --git a/listalltags.go b/listalltags.go
index f4e32f4..0a3b9a1 100644
--- a/listalltags.go
+++ b/listalltags.go
@@ -134,11 +134,12 @@ func (client *Client) listAllTags(start_instance uint32) error {
 
 // tagListing is what a listing has found so far.
 type tagListing struct {
-	complete  bool
-	tags      map[string]KnownTag
-	types     map[string]UDTDescriptor
-	typesByID map[uint32]UDTDescriptor
-	programs  map[string]*KnownProgram
+	complete   bool
+	tags       map[string]KnownTag
+	types      map[string]UDTDescriptor
+	typesByID  map[uint32]UDTDescriptor
+	programs   map[string]*KnownProgram
+	inProgress map[uint32]bool // templates being read
 }
 
 func (l *tagListing) addTag(kt KnownTag) {
diff --git a/listmembers.go b/listmembers.go
index 624ff76..bf6f4c5 100644
--- a/listmembers.go
+++ b/listmembers.go
@@ -275,6 +275,16 @@ func (client *Client) listMembers(l *tagListing, str_instance uint32) (UDTDescri
 		return d, nil
 	}
 
+	// a structure can't be a part of itself.
+	if l.inProgress[str_instance] {
+		return UDTDescriptor{}, fmt.Errorf("template %d contains itself", str_instance)
+	}
+	if l.inProgress == nil {
+		l.inProgress = make(map[uint32]bool)
+	}
+	l.inProgress[str_instance] = true
+	defer delete(l.inProgress, str_instance)
+
 	template_info, err := client.getTemplateInstanceAttr(str_instance)
 
 	if err != nil {
@@ -302,6 +312,9 @@ func (client *Client) listMembers(l *tagListing, str_instance uint32) (UDTDescri
 	}
 	data2 := bytes.NewBuffer(definition)
 
+	if data2.Len() < binary.Size(msgMemberInfo{})*int(template_info.MemberCount) {
+		return UDTDescriptor{}, fmt.Errorf("template of %d bytes is too small for %d members", data2.Len(), template_info.MemberCount)
+	}
 	memberInfos := make([]msgMemberInfo, template_info.MemberCount)
 	err = binary.Read(data2, binary.LittleEndian, &memberInfos)
 	if err != nil {
@@ -321,16 +334,17 @@ func (client *Client) listMembers(l *tagListing, str_instance uint32) (UDTDescri
 	if strings.Contains(struct_name, ";") {
 		struct_name = strings.Split(struct_name, ";")[0]
 	}
-	struct_name = struct_name[:len(struct_name)-1]
+	struct_name = strings.TrimSuffix(struct_name, "\x00")
 	descriptor.Name = struct_name
 
+	missing := false
 	for i := 0; i < int(template_info.MemberCount); i++ {
 
 		fieldname, err := data2.ReadString(0x00)
 		if err != nil && fieldname == "" {
 			return UDTDescriptor{}, fmt.Errorf("couldn't read field name. %w", err)
 		}
-		fieldname = fieldname[:len(fieldname)-1]
+		fieldname = strings.TrimSuffix(fieldname, "\x00")
 
 		descriptor.Members[i].Name = fieldname
 		descriptor.Members[i].Info = memberInfos[i]
@@ -341,12 +355,16 @@ func (client *Client) listMembers(l *tagListing, str_instance uint32) (UDTDescri
 			if err == nil {
 				descriptor.Members[i].UDT = &d2
 			} else {
+				missing = true
 				client.Logger.Debug("couldn't get udt", "name", fieldname, "type", descriptor.Members[i].Info.Type)
 			}
 		}
 	}
 
-	l.addTypeByID(descriptor)
+	// don't remember it without the definition of a member, we may get that the next time.
+	if !missing {
+		l.addTypeByID(descriptor)
+	}
 	return descriptor, nil
 }
 
-- 
2.43.0


From 46a965c518292dc749bb369281cf7bb81e1be48b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:03 +0000
Subject: [PATCH 36/79] fix: programs on later pages of the tag list are found
 on controllers without a program list

---
 listalltags.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/listalltags.go b/listalltags.go
index 0a3b9a1..1a942d5 100644
--- a/listalltags.go
+++ b/listalltags.go
@@ -140,6 +140,9 @@ type tagListing struct {
 	typesByID  map[uint32]UDTDescriptor
 	programs   map[string]*KnownProgram
 	inProgress map[uint32]bool // templates being read
+
+	// the controller doesn't list its programs, so they are taken from the tags.
+	fallbackProgramNames bool
 }
 
 func (l *tagListing) addTag(kt KnownTag) {
@@ -220,7 +223,6 @@ func (client *Client) listTags(l *tagListing, start_instance uint32) error {
 		start_instance = minimumTagValue
 	}
 
-	fallbackProgramNames := false
 	// if we are starting from scratch, we should list all the programs first so we have
 	// their instance IDs when we come across program scoped tags.
 	if start_instance == 1 {
@@ -228,7 +230,7 @@ func (client *Client) listTags(l *tagListing, start_instance uint32) error {
 		if err != nil {
 			var cipErr CIPStatusError
 			if errors.As(err, &cipErr) {
-				fallbackProgramNames = true
+				l.fallbackProgramNames = true
 				l.programs = nil
 			} else {
 				return fmt.Errorf("problem listing programs: %w", err)
@@ -381,7 +383,7 @@ func (client *Client) listTags(l *tagListing, start_instance uint32) error {
 		if len(tag_string) > 8 {
 			if strings.HasPrefix(tag_string, "Program:") {
 				// we have a program scoped tag.  These are read separately.
-				if !fallbackProgramNames {
+				if !l.fallbackProgramNames {
 					continue
 				}
 				progName := strings.TrimPrefix(tag_string, "Program:")
-- 
2.43.0


From 7d0bc69b6181d8dc43de330645c9ed8064bde169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:18 +0000
Subject: [PATCH 37/79] fix: the server reads each request whole, answers
 unknown commands and stays in step with the stream after a request it cannot
 handle

---
 server.go | 144 +++++++++++++++++++++++++++++++++++++++---------------
 1 file changed, 104 insertions(+), 40 deletions(-)

diff --git a/server.go b/server.go
index 43cd03e..af1d05d 100644
--- a/server.go
+++ b/server.go
@@ -4,7 +4,9 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 	"log/slog"
+	"math"
 	"math/rand"
 	"net"
 	"strings"
@@ -37,8 +39,18 @@ type serverTCPHandler struct {
 	TOConnectionID uint32
 
 	UnitDataSequencer uint16
+
+	replied bool  // whether the current request has been replied to
+	sendErr error // the problem that kept us from sending a reply. The session can't go on after that.
 }
 
+// encapsulation level status codes
+const (
+	eipStatus_OK                 uint32 = 0x00
+	eipStatus_UnsupportedCommand uint32 = 0x01
+	eipStatus_IncorrectData      uint32 = 0x03
+)
+
 // Sets up a main server object for handling incoming EIP messages according to PathRouter r
 // After setting up the server use the Serve() method to listen on the appropriate TCP and UDP ports
 func NewServer(r *PathRouter) *Server {
@@ -212,54 +224,90 @@ func (h *serverTCPHandler) serve(srv *Server) error {
 		if err != nil {
 			return fmt.Errorf("problem reading eip header. %w", err)
 		}
+		// the header says where the next message begins, whatever is wrong with the contents of this one.
+		body := make([]byte, eipHdr.Length)
+		_, err = io.ReadFull(h.conn, body)
+		if err != nil {
+			return fmt.Errorf("problem reading eip data. %w", err)
+		}
 		h.context = eipHdr.Context
 		h.server.Logger.Debug("New Context", "context", h.context)
-		switch eipHdr.Command {
-		case cipCommandRegisterSession:
-			err = h.registerSession(eipHdr)
-			if err != nil {
-				return fmt.Errorf("problem with register session %w", err)
-			}
-		case cipCommandSendRRData:
-			// this is things like forward opens
-			err = h.sendRRData(eipHdr)
-			if err != nil {
-				return fmt.Errorf("problem with sendRRData %w", err)
-			}
-		case cipCommandSendUnitData:
-			// this is things like writes and reads
-			err = h.sendUnitData(eipHdr)
-			if err != nil {
-				return fmt.Errorf("problem with sendUnitData %w", err)
-			}
-		case cipCommandListServices:
-			err = h.sendListServicesData(eipHdr)
-			if err != nil {
-				return fmt.Errorf("problem with sendListServices %w", err)
-			}
-		case cipCommandListIdentity:
-			err = h.sendListIdentityReply(eipHdr)
-			if err != nil {
-				return fmt.Errorf("problem with sendListIdentity %w", err)
+		if eipHdr.Command == cipCommandUnRegisterSession {
+			return nil
+		}
+		h.replied = false
+		err = h.dispatch(eipHdr, bytes.NewReader(body))
+		if h.sendErr != nil {
+			return fmt.Errorf("problem sending a reply. %w", h.sendErr)
+		}
+		if err != nil {
+			// a request we can't understand or handle is the problem of whoever sent it, but the session goes on.
+			h.server.Logger.Warn("problem handling request", "remote", h.conn.RemoteAddr(), "command", eipHdr.Command, "error", err)
+			if !h.replied {
+				err = h.sendWithStatus(eipHdr.Command, eipStatus_IncorrectData)
+				if err != nil {
+					return fmt.Errorf("problem sending error reply. %w", err)
+				}
 			}
-
 		}
 	}
 
 }
 
-func (h *serverTCPHandler) sendUnitData(hdr eipHeader) error {
+// dispatch handles the message with header eipHdr and the given data.
+// Unless it returns an error it has sent the reply, if the command has one.
+func (h *serverTCPHandler) dispatch(eipHdr eipHeader, body io.Reader) error {
+	switch eipHdr.Command {
+	case cipCommand_NOP:
+		// there is no reply to this.
+		h.replied = true
+		return nil
+	case cipCommandRegisterSession:
+		err := h.registerSession(eipHdr, body)
+		if err != nil {
+			return fmt.Errorf("problem with register session %w", err)
+		}
+	case cipCommandSendRRData:
+		// this is things like forward opens
+		err := h.sendRRData(eipHdr, body)
+		if err != nil {
+			return fmt.Errorf("problem with sendRRData %w", err)
+		}
+	case cipCommandSendUnitData:
+		// this is things like writes and reads
+		err := h.sendUnitData(eipHdr, body)
+		if err != nil {
+			return fmt.Errorf("problem with sendUnitData %w", err)
+		}
+	case cipCommandListServices:
+		err := h.sendListServicesData(eipHdr)
+		if err != nil {
+			return fmt.Errorf("problem with sendListServices %w", err)
+		}
+	case cipCommandListIdentity:
+		err := h.sendListIdentityReply(eipHdr)
+		if err != nil {
+			return fmt.Errorf("problem with sendListIdentity %w", err)
+		}
+	default:
+		h.server.Logger.Warn("unsupported command", "command", eipHdr.Command)
+		return h.sendWithStatus(eipHdr.Command, eipStatus_UnsupportedCommand)
+	}
+	return nil
+}
+
+func (h *serverTCPHandler) sendUnitData(hdr eipHeader, body io.Reader) error {
 	var interface_handle uint32
 	var timeout uint16
-	err := binary.Read(h.conn, binary.LittleEndian, &interface_handle)
+	err := binary.Read(body, binary.LittleEndian, &interface_handle)
 	if err != nil {
 		return fmt.Errorf("problem reading interface handle %w", err)
 	}
-	err = binary.Read(h.conn, binary.LittleEndian, &timeout)
+	err = binary.Read(body, binary.LittleEndian, &timeout)
 	if err != nil {
 		return fmt.Errorf("problem reading timeout %w", err)
 	}
-	items, err := readItems(h.conn)
+	items, err := readItems(body)
 	if err != nil {
 		return fmt.Errorf("problem reading items for rrData %w", err)
 	}
@@ -511,18 +559,18 @@ func (h *serverTCPHandler) sendUnitDataReply(s CIPService) error {
 	return h.send(cipCommandSendUnitData, itemData)
 }
 
-func (h *serverTCPHandler) sendRRData(hdr eipHeader) error {
+func (h *serverTCPHandler) sendRRData(hdr eipHeader, body io.Reader) error {
 	var interface_handle uint32
 	var timeout uint16
-	err := binary.Read(h.conn, binary.LittleEndian, &interface_handle)
+	err := binary.Read(body, binary.LittleEndian, &interface_handle)
 	if err != nil {
 		return fmt.Errorf("problem reading interface handle %w", err)
 	}
-	err = binary.Read(h.conn, binary.LittleEndian, &timeout)
+	err = binary.Read(body, binary.LittleEndian, &timeout)
 	if err != nil {
 		return fmt.Errorf("problem reading timeout %w", err)
 	}
-	items, err := readItems(h.conn)
+	items, err := readItems(body)
 	if err != nil {
 		return fmt.Errorf("problem reading items for rrData %w", err)
 	}
@@ -540,7 +588,7 @@ func (h *serverTCPHandler) sendRRData(hdr eipHeader) error {
 	case cipItem_UnconnectedData:
 		return h.unconnectedData(items[1])
 	}
-	return nil
+	return fmt.Errorf("unexpected item %v in position 1", items[1].Header.ID)
 }
 
 func (h *serverTCPHandler) forwardClose(i CIPItem) error {
@@ -859,10 +907,10 @@ func (h *serverTCPHandler) ioConnection(fwd_open msgEIPForwardOpen_Standard, tp
 	}
 }
 
-func (h *serverTCPHandler) registerSession(hdr eipHeader) error {
+func (h *serverTCPHandler) registerSession(hdr eipHeader, body io.Reader) error {
 
 	reg_msg := msgCIPRegister{}
-	err := binary.Read(h.conn, binary.LittleEndian, &reg_msg)
+	err := binary.Read(body, binary.LittleEndian, &reg_msg)
 	if err != nil {
 		return fmt.Errorf("problem reading register session message. %w", err)
 	}
@@ -891,12 +939,26 @@ func (h *serverTCPHandler) send(cmd CIPCommand, msgs ...any) error {
 	for _, msg := range msgs {
 		size += binary.Size(msg)
 	}
+	if size > math.MaxUint16 {
+		return fmt.Errorf("reply of %d bytes does not fit in a message", size)
+	}
 	// build header based on size
 	hdr := h.newEIPHeader(cmd, size)
+	return h.sendMsg(hdr, msgs...)
+}
+
+// sendWithStatus sends a reply that consists of a header with an encapsulation status.
+func (h *serverTCPHandler) sendWithStatus(cmd CIPCommand, status uint32) error {
+	hdr := h.newEIPHeader(cmd, 0)
+	hdr.Status = status
+	return h.sendMsg(hdr)
+}
 
+// sendMsg sends a header and the structures that follow it.
+func (h *serverTCPHandler) sendMsg(hdr eipHeader, msgs ...any) error {
 	// initialize a buffer and add the header to it.
 	// the 24 is from the header size
-	b := make([]byte, 0, size+24)
+	b := make([]byte, 0, int(hdr.Length)+24)
 	buf := bytes.NewBuffer(b)
 	err := binary.Write(buf, binary.LittleEndian, hdr)
 	if err != nil {
@@ -913,10 +975,12 @@ func (h *serverTCPHandler) send(cmd CIPCommand, msgs ...any) error {
 
 	b = buf.Bytes()
 	// write the packet buffer to the tcp connection
+	h.replied = true
 	written := 0
 	for written < len(b) {
 		n, err := h.conn.Write(b[written:])
 		if err != nil {
+			h.sendErr = err
 			return err
 		}
 		written += n
-- 
2.43.0


From 2b89548d294f4450aece0eadac828c6da0399dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:46 +0000
Subject: [PATCH 38/79] fix: a request the server cannot carry out gets an
 error reply instead of ending the session

---
 server.go             |  36 ++++++++
 server_unconnected.go | 192 +++++++++++++++++++++++++-----------------
 2 files changed, 151 insertions(+), 77 deletions(-)

diff --git a/server.go b/server.go
index af1d05d..c99004a 100644
--- a/server.go
+++ b/server.go
@@ -3,6 +3,7 @@ package gologix
 import (
 	"bytes"
 	"encoding/binary"
+	"errors"
 	"fmt"
 	"io"
 	"log/slog"
@@ -143,6 +144,29 @@ func (srv *Server) serveTCP() error {
 	}
 }
 
+// cipError is a problem with a request along with the status that reports it to the client.
+type cipError struct {
+	status CIPStatus
+	err    error
+}
+
+func (e *cipError) Error() string { return e.err.Error() }
+func (e *cipError) Unwrap() error { return e.err }
+
+// cipErrorf makes an error that is reported to the client as the given status.
+func cipErrorf(status CIPStatus, format string, a ...any) error {
+	return &cipError{status: status, err: fmt.Errorf(format, a...)}
+}
+
+// errorStatus is the status to report err with.
+func errorStatus(err error) CIPStatus {
+	var e *cipError
+	if errors.As(err, &e) {
+		return e.status
+	}
+	return CIPStatus_InvalidParameter
+}
+
 type cipIOSeqAccessData struct {
 	ConnectionID  uint32
 	SequenceCount uint32
@@ -333,6 +357,18 @@ func (h *serverTCPHandler) sendUnitData(hdr eipHeader, body io.Reader) error {
 	if err != nil {
 		return fmt.Errorf("problem deserializing service %w", err)
 	}
+	err = h.connectedService(service, items)
+	if err != nil && !h.replied {
+		h.server.Logger.Warn("problem handling connected request", "service", service, "error", err)
+		return h.sendUnitDataErrorReply(service, errorStatus(err))
+	}
+	return err
+}
+
+// connectedService handles one request that came in on a connection.
+// If it returns an error without having replied, the caller has to tell the client.
+func (h *serverTCPHandler) connectedService(service CIPService, items []CIPItem) error {
+	var err error
 	switch service {
 	case CIPService_Write:
 		err = h.cipConnectedWrite(items)
diff --git a/server_unconnected.go b/server_unconnected.go
index 2e674fa..3d978eb 100644
--- a/server_unconnected.go
+++ b/server_unconnected.go
@@ -10,11 +10,22 @@ import (
 
 func (h *serverTCPHandler) unconnectedData(item CIPItem) error {
 	var service CIPService
-	var err error
-	err = item.DeSerialize(&service)
+	err := item.DeSerialize(&service)
 	if err != nil {
 		return fmt.Errorf("problem unmarshling service %w", err)
 	}
+	err = h.unconnectedService(service, item)
+	if err != nil && !h.replied {
+		h.server.Logger.Warn("problem handling unconnected request", "service", service, "error", err)
+		return h.sendUnconnectedErrorReply(service, errorStatus(err))
+	}
+	return err
+}
+
+// unconnectedService handles one request that came in without a connection. item is positioned behind the service code.
+// If it returns an error without having replied, the caller has to tell the client.
+func (h *serverTCPHandler) unconnectedService(service CIPService, item CIPItem) error {
+	var err error
 	switch service {
 	case CIPService_ForwardOpen:
 		item.Reset()
@@ -65,70 +76,117 @@ func (h *serverTCPHandler) unconnectedData(item CIPItem) error {
 		}
 
 	case 0x52:
-		// unconnected send?
-		var pathsize byte
-		err = item.DeSerialize(&pathsize)
-		if err != nil {
-			return fmt.Errorf("error getting path size 305. %w", err)
-		}
-		path := make([]byte, pathsize*2)
-		err = item.DeSerialize(&path)
+		return h.unconnectedSend(item)
+
+	default:
+		// Top-level service code that we don't recognize — same rule as the
+		// embedded-service default above: reply with ServiceNotSupported
+		// instead of silently dropping. Without this, FactoryTalk Linx
+		// retries forever waiting for a response that never comes.
+		h.server.Logger.Warn("unsupported unconnected service", "service", service)
+		return h.sendUnconnectedErrorReply(service, CIPStatus_ServiceNotSupported)
+	}
+	return nil
+}
+
+// unconnectedSend handles a request that is embedded in another one along with the route to where it belongs:
+//
+//	[path size: byte] [path to the connection manager] [timeout: 2 bytes]
+//	[request size: uint16] [request] [pad byte if the size is odd]
+//	[route size: byte] [reserved: byte] [route]
+func (h *serverTCPHandler) unconnectedSend(item CIPItem) error {
+	pathsize, err := item.Byte()
+	if err != nil {
+		return cipErrorf(CIPStatus_NotEnoughData, "error getting path size 305. %w", err)
+	}
+	path := make([]byte, int(pathsize)*2)
+	err = item.DeSerialize(&path)
+	if err != nil {
+		return cipErrorf(CIPStatus_NotEnoughData, "error getting path. %w", err)
+	}
+	var timeout uint16
+	err = item.DeSerialize(&timeout)
+	if err != nil {
+		return cipErrorf(CIPStatus_NotEnoughData, "error getting timeout. %w", err)
+	}
+	var embedded_size uint16
+	err = item.DeSerialize(&embedded_size)
+	if err != nil {
+		return cipErrorf(CIPStatus_NotEnoughData, "error getting embedded size. %w", err)
+	}
+	embedded := make([]byte, embedded_size)
+	err = item.DeSerialize(&embedded)
+	if err != nil {
+		return cipErrorf(CIPStatus_NotEnoughData, "error getting embedded request. %w", err)
+	}
+	request := newItem(cipItem_UnconnectedData, embedded)
+	if embedded_size%2 == 1 {
+		_, err = item.Byte()
 		if err != nil {
-			return fmt.Errorf("error getting path. %w", err)
+			return cipErrorf(CIPStatus_NotEnoughData, "error getting pad byte. %w", err)
 		}
-		var timeout uint16
-		err = item.DeSerialize(&timeout)
+	}
+	route := make([]byte, 0)
+	if len(item.Rest()) > 0 {
+		route_size, err := item.Byte()
 		if err != nil {
-			return fmt.Errorf("error getting timeout. %w", err)
+			return cipErrorf(CIPStatus_NotEnoughData, "couldn't get path size 374. %w", err)
 		}
-		var embedded_size uint16
-		err = item.DeSerialize(&embedded_size)
+		_, err = item.Byte()
 		if err != nil {
-			return fmt.Errorf("error getting embedded size. %w", err)
+			return cipErrorf(CIPStatus_NotEnoughData, "couldn't get reserved byte. %w", err)
 		}
-		var emService CIPService
-		err = item.DeSerialize(&emService)
+		route = make([]byte, int(route_size)*2)
+		err = item.DeSerialize(&route)
 		if err != nil {
-			return fmt.Errorf("error getting embedded service. %w", err)
-		}
-		switch emService {
-		case CIPService_Write:
-			return h.unconnectedServiceWrite(item)
-		case CIPService_Read:
-			return h.unconnectedServiceRead(item)
-		case CIPService_GetAttributeSingle:
-			return h.unconnectedServiceGetAttrSingle(item)
-		case CIPService_SetAttributeSingle:
-			// Reached via FactoryTalk View's CIP Object write path: the
-			// request is wrapped in UnconnectedSend (0x52) instead of going
-			// straight as a direct UCMM SetAttributeSingle. Without this
-			// case the wrapped write fell through to the default branch and
-			// FT View saw "Service not supported", which surfaced in its
-			// Diagnostics List as "Problem writing value ... to item ...".
-			return h.unconnectedServiceSetAttrSingle(item)
-		case CIPService_GetAttributeAll:
-			return h.unconnectedGetAttributeAll(item)
-		default:
-			// Reply with an explicit ServiceNotSupported CIP error so the
-			// originator knows the device is alive but the service isn't
-			// implemented. Returning a Go error here used to bubble up to
-			// the connection loop and silently drop the reply, which made
-			// FactoryTalk Linx (and any other strict client) interpret the
-			// device as dead and tear down the shortcut bind. See upstream
-			// issue danomagnum/gologix#13.
-			h.server.Logger.Warn("unsupported embedded service in UnconnectedSend", "service", emService)
-			return h.sendUnconnectedErrorReply(emService, CIPStatus_ServiceNotSupported)
+			return cipErrorf(CIPStatus_NotEnoughData, "couldn't get path. %w", err)
 		}
+	}
 
+	var emService CIPService
+	err = request.DeSerialize(&emService)
+	if err != nil {
+		return cipErrorf(CIPStatus_NotEnoughData, "error getting embedded service. %w", err)
+	}
+	err = h.embeddedService(emService, request, route)
+	if err != nil && !h.replied {
+		h.server.Logger.Warn("problem handling embedded request", "service", emService, "error", err)
+		return h.sendUnconnectedErrorReply(emService, errorStatus(err))
+	}
+	return err
+}
+
+// embeddedService handles a request that is to be handled by whatever the route leads to.
+// If it returns an error without having replied, the caller has to tell the client.
+func (h *serverTCPHandler) embeddedService(emService CIPService, item CIPItem, route []byte) error {
+	switch emService {
+	case CIPService_Write:
+		return h.unconnectedServiceWrite(item, route)
+	case CIPService_Read:
+		return h.unconnectedServiceRead(item, route)
+	case CIPService_GetAttributeSingle:
+		return h.unconnectedServiceGetAttrSingle(item)
+	case CIPService_SetAttributeSingle:
+		// Reached via FactoryTalk View's CIP Object write path: the
+		// request is wrapped in UnconnectedSend (0x52) instead of going
+		// straight as a direct UCMM SetAttributeSingle. Without this
+		// case the wrapped write fell through to the default branch and
+		// FT View saw "Service not supported", which surfaced in its
+		// Diagnostics List as "Problem writing value ... to item ...".
+		return h.unconnectedServiceSetAttrSingle(item)
+	case CIPService_GetAttributeAll:
+		return h.unconnectedGetAttributeAll(item)
 	default:
-		// Top-level service code that we don't recognize — same rule as the
-		// embedded-service default above: reply with ServiceNotSupported
-		// instead of silently dropping. Without this, FactoryTalk Linx
-		// retries forever waiting for a response that never comes.
-		h.server.Logger.Warn("unsupported unconnected service", "service", service)
-		return h.sendUnconnectedErrorReply(service, CIPStatus_ServiceNotSupported)
+		// Reply with an explicit ServiceNotSupported CIP error so the
+		// originator knows the device is alive but the service isn't
+		// implemented. Returning a Go error here used to bubble up to
+		// the connection loop and silently drop the reply, which made
+		// FactoryTalk Linx (and any other strict client) interpret the
+		// device as dead and tear down the shortcut bind. See upstream
+		// issue danomagnum/gologix#13.
+		h.server.Logger.Warn("unsupported embedded service in UnconnectedSend", "service", emService)
+		return h.sendUnconnectedErrorReply(emService, CIPStatus_ServiceNotSupported)
 	}
-	return nil
 }
 
 // unconnectedGetAttributeAll handles CIP Get_Attributes_All (service 0x01).
@@ -333,7 +391,7 @@ func buildIdentityGetAttributesAllResponse(attrs map[CIPAttribute]any) ([]byte,
 	return buf.Bytes(), nil
 }
 
-func (h *serverTCPHandler) unconnectedServiceWrite(item CIPItem) error {
+func (h *serverTCPHandler) unconnectedServiceWrite(item CIPItem, path []byte) error {
 	var reserved byte
 	err := item.DeSerialize(&reserved)
 	if err != nil {
@@ -348,16 +406,6 @@ func (h *serverTCPHandler) unconnectedServiceWrite(item CIPItem) error {
 		return fmt.Errorf("problem parsing write values for tag %s: %w", tag, err)
 	}
 	qty := uint16(len(results))
-	var path_size uint16
-	err = item.DeSerialize(&path_size)
-	if err != nil {
-		return fmt.Errorf("couldn't get path size 374. %w", err)
-	}
-	path := make([]byte, 2*path_size)
-	err = item.DeSerialize(&path)
-	if err != nil {
-		return fmt.Errorf("couldn't get path. %w", err)
-	}
 
 	provider, err := h.server.Router.Resolve(path)
 	if err != nil {
@@ -574,7 +622,7 @@ func (h *serverTCPHandler) resolveSymbolicTagFromCustomClass(instance uint16) (s
 	return tags[instance-1].Name, true
 }
 
-func (h *serverTCPHandler) unconnectedServiceRead(item CIPItem) error {
+func (h *serverTCPHandler) unconnectedServiceRead(item CIPItem, path []byte) error {
 	var reserved byte
 	err := item.DeSerialize(&reserved)
 	if err != nil {
@@ -589,16 +637,6 @@ func (h *serverTCPHandler) unconnectedServiceRead(item CIPItem) error {
 	if err != nil {
 		return fmt.Errorf("error getting write qty. %w", err)
 	}
-	var path_size uint16
-	err = item.DeSerialize(&path_size)
-	if err != nil {
-		return fmt.Errorf("couldn't get path size 374. %w", err)
-	}
-	path := make([]byte, 2*path_size)
-	err = item.DeSerialize(&path)
-	if err != nil {
-		return fmt.Errorf("couldn't get path. %w", err)
-	}
 	h.server.Logger.Debug("read", "tag", tag, "path", path, "qty", qty)
 
 	provider, err := h.server.Router.Resolve(path)
-- 
2.43.0


From ee7ef41b1a574199d8670070780c6c2b97a26b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:51 +0000
Subject: [PATCH 39/79] fix: connections belong to the session that opened
 them: replies carry the identifier of the connection that was used, closing
 is confirmed and releases exactly that connection, and so does the end of the
 session

---
 server.go             | 286 +++++++++++++++++++++++-------------------
 server_connections.go | 128 ++++++++++++++-----
 2 files changed, 250 insertions(+), 164 deletions(-)

diff --git a/server.go b/server.go
index c99004a..0721e91 100644
--- a/server.go
+++ b/server.go
@@ -10,7 +10,6 @@ import (
 	"math"
 	"math/rand"
 	"net"
-	"strings"
 	"time"
 )
 
@@ -239,6 +238,7 @@ func (h *serverTCPHandler) serve(srv *Server) error {
 	srv.Logger.Info("new connection", "remote addr", h.conn.RemoteAddr().String())
 	// if this function ends, close and remove ourselves from the server's open connection list.
 	defer func() {
+		srv.ConnMgr.CloseAll(h)
 		h.conn.Close()
 	}()
 
@@ -357,6 +357,17 @@ func (h *serverTCPHandler) sendUnitData(hdr eipHeader, body io.Reader) error {
 	if err != nil {
 		return fmt.Errorf("problem deserializing service %w", err)
 	}
+	// replies go to the connection that the request came in on, which has to be one of this client's.
+	connection, err := h.server.ConnMgr.GetByOT(connId)
+	if err != nil || connection.owner != h {
+		h.server.Logger.Warn("request for a connection that is not open", "connection", connId, "service", service)
+		h.OTConnectionID = 0
+		h.TOConnectionID = 0
+		return h.sendUnitDataErrorReply(service, CIPStatus_ConnectionLost)
+	}
+	h.OTConnectionID = connection.OT
+	h.TOConnectionID = connection.TO
+
 	err = h.connectedService(service, items)
 	if err != nil && !h.replied {
 		h.server.Logger.Warn("problem handling connected request", "service", service, "error", err)
@@ -632,20 +643,61 @@ func (h *serverTCPHandler) forwardClose(i CIPItem) error {
 	var fwd_close msgEIPForwardClose // TODO: Transition this to the new ForwardOpen
 	err := i.DeSerialize(&fwd_close)
 	if err != nil {
-		return fmt.Errorf("problem parsing forward close %w", err)
+		return cipErrorf(CIPStatus_NotEnoughData, "problem parsing forward close %w", err)
 	}
 	h.server.Logger.Info("Closing connection", "serial", fwd_close.ConnectionSerialNumber)
-	err = h.server.ConnMgr.CloseByID(fwd_close.ConnectionSerialNumber)
+	err = h.server.ConnMgr.CloseOwned(h, fwd_close.ConnectionSerialNumber, fwd_close.VendorID, fwd_close.OriginatorSerialNumber)
 	if err != nil {
-		return fmt.Errorf("couldn't close open connection with ID %v. %v", fwd_close.ConnectionSerialNumber, err)
-	}
+		h.server.Logger.Warn("couldn't close connection", "serial", fwd_close.ConnectionSerialNumber, "error", err)
+		return h.sendConnectionError(fwd_close.Service, connectionError_NotFound,
+			fwd_close.ConnectionSerialNumber, fwd_close.VendorID, fwd_close.OriginatorSerialNumber)
+	}
+	return h.sendUnconnectedRRDataReply(fwd_close.Service, msgForwardCloseReply{
+		ConnectionSerialNumber: fwd_close.ConnectionSerialNumber,
+		VendorID:               fwd_close.VendorID,
+		OriginatorSerialNumber: fwd_close.OriginatorSerialNumber,
+	})
+}
 
-	path := make([]byte, fwd_close.PathSize*2)
-	err = i.DeSerialize(&path)
+// what follows the status in the reply to a forward close, and to a forward open that failed.
+type msgForwardCloseReply struct {
+	ConnectionSerialNumber uint16
+	VendorID               uint16
+	OriginatorSerialNumber uint32
+	Size                   byte
+	Reserved               byte
+}
+
+// extended status words that come with CIPStatus_ConnectionFailure
+const (
+	connectionError_InUse           uint16 = 0x0100
+	connectionError_NotFound        uint16 = 0x0107
+	connectionError_RPINotSupported uint16 = 0x0111
+	connectionError_InvalidSegment  uint16 = 0x0315
+)
+
+// sendConnectionError sends the reply to a forward open or forward close that failed.
+func (h *serverTCPHandler) sendConnectionError(service CIPService, extended uint16, serial uint16, vendor uint16, originator uint32) error {
+	items := make([]CIPItem, 2)
+	items[0] = newItem(cipItem_Null, nil)
+	items[1] = newItem(cipItem_UnconnectedData, nil)
+	err := items[1].Serialize(
+		msgUnconnWriteResultHeader{
+			Service:        service.AsResponse(),
+			Status:         CIPStatus_ConnectionFailure,
+			StatusExtended: 1, // number of extended status words
+		},
+		extended,
+		msgForwardCloseReply{ConnectionSerialNumber: serial, VendorID: vendor, OriginatorSerialNumber: originator},
+	)
 	if err != nil {
-		return fmt.Errorf("problem parsing forward close path %w", err)
+		return fmt.Errorf("problem serializing connection error: %w", err)
 	}
-	return nil
+	itemdata, err := serializeItems(items)
+	if err != nil {
+		return fmt.Errorf("could not serialize items: %w", err)
+	}
+	return h.send(cipCommandSendRRData, itemdata)
 }
 
 // in this message T is for target and O is for originator so
@@ -705,84 +757,24 @@ func (h *serverTCPHandler) largeForwardOpen(i CIPItem) error {
 	var fwd_open msgEIPForwardOpen_Large // TODO: Transition this to the new ForwardOpen
 	err := i.DeSerialize(&fwd_open)
 	if err != nil {
-		return fmt.Errorf("problem with fwd open parsing %w", err)
-	}
-	fwd_path := make([]byte, fwd_open.ConnPathSize*2)
-	err = i.DeSerialize(&fwd_path)
-	if err != nil {
-		return fmt.Errorf("problem with fwd open path parsing %w", err)
-	}
-	h.server.Logger.Debug("forward open msg", "open", fwd_open, "path", fwd_path)
-	path := fwd_path[:2]
-
-	//preItem := msgPreItemData{Handle: 0, Timeout: 0}
-	items := make([]CIPItem, 2)
-	items[0] = CIPItem{Header: cipItemHeader{ID: cipItem_Null}}
-	items[1] = newItem(cipItem_UnconnectedData, nil)
-
-	if fwd_open.TOConnectionID == 0 {
-		h.TOConnectionID = rand.Uint32()
-	} else {
-		h.TOConnectionID = fwd_open.TOConnectionID
-	}
-	fwd_open.TOConnectionID = h.TOConnectionID
-	if fwd_open.OTConnectionID == 0 {
-		h.OTConnectionID = rand.Uint32()
-	} else {
-		h.OTConnectionID = fwd_open.OTConnectionID
-	}
-	fwd_open.OTConnectionID = h.OTConnectionID
-	// Echo the requested RPI back as the Actual Packet Interval (API). CIP
-	// spec ODVA Vol 1 §3-5.6 allows the target to commit to a different API
-	// than what was requested, but it MUST report a non-zero value the
-	// originator can honor. Real Logix controllers always echo the requested
-	// RPI verbatim for Class 3 explicit messaging connections.
-	//
-	// Previously this was hardcoded to 0, which caused real ControlLogix
-	// MSG instructions to silently discard responses on connected reads (the
-	// firmware-level scheduler treats API=0 as invalid timing and tears
-	// down the response path even though the connection itself stays open).
-	fwOpenRespHdr := msgEIPForwardOpen_Standard_Reply{
-		Service:                fwd_open.Service.AsResponse(),
-		OTConnectionID:         h.OTConnectionID,
-		TOConnectionID:         h.TOConnectionID,
+		return cipErrorf(CIPStatus_NotEnoughData, "problem with fwd open parsing %w", err)
+	}
+	// the two kinds only differ in the room they have for the connection size.
+	return h.openConnection(i, msgEIPForwardOpen_Standard{
+		Service:                fwd_open.Service,
+		Priority:               fwd_open.Priority,
+		TimeoutTicks:           fwd_open.TimeoutTicks,
+		OTConnectionID:         fwd_open.OTConnectionID,
+		TOConnectionID:         fwd_open.TOConnectionID,
 		ConnectionSerialNumber: fwd_open.ConnectionSerialNumber,
 		VendorID:               fwd_open.VendorID,
 		OriginatorSerialNumber: fwd_open.OriginatorSerialNumber,
-		OTApi:                  fwd_open.OTRPI,
-		TOApi:                  fwd_open.TORPI,
-	}
-
-	err = items[1].Serialize(fwOpenRespHdr)
-	if err != nil {
-		return fmt.Errorf("problem serializing fwd open response %w", err)
-	}
-
-	itemData, err := serializeItems(items)
-	if err != nil {
-		return fmt.Errorf("could not serialize items: %w", err)
-	}
-	err = h.send(cipCommandSendRRData, itemData)
-	if err != nil {
-		return fmt.Errorf("problem sending response data %w", err)
-	}
-
-	cipConnection := &serverConnection{
-		TO:   fwd_open.TOConnectionID,
-		OT:   fwd_open.OTConnectionID,
-		ID:   fwd_open.ConnectionSerialNumber,
-		RPI:  time.Duration(fwd_open.TORPI) * time.Microsecond,
-		Path: path,
-		Open: true,
-	}
-
-	h.server.ConnMgr.Add(cipConnection)
-
-	if fwd_open.TransportTrigger == 1 {
-		h.server.Logger.Warn("Large Forward Open IO Connections Not Yet Supported")
-	}
-
-	return nil
+		Multiplier:             fwd_open.Multiplier,
+		OTRPI:                  fwd_open.OTRPI,
+		TORPI:                  fwd_open.TORPI,
+		TransportTrigger:       fwd_open.TransportTrigger,
+		ConnPathSize:           fwd_open.ConnPathSize,
+	})
 }
 
 func (h *serverTCPHandler) forwardOpen(i CIPItem) error {
@@ -790,12 +782,20 @@ func (h *serverTCPHandler) forwardOpen(i CIPItem) error {
 	var fwd_open msgEIPForwardOpen_Standard // TODO: Transition this to the new forward open
 	err := i.DeSerialize(&fwd_open)
 	if err != nil {
-		return fmt.Errorf("problem with fwd open parsing %w", err)
+		return cipErrorf(CIPStatus_NotEnoughData, "problem with fwd open parsing %w", err)
 	}
-	fwd_path := make([]byte, fwd_open.ConnPathSize*2)
-	err = i.DeSerialize(&fwd_path)
+	return h.openConnection(i, fwd_open)
+}
+
+// the shortest packet interval we agree to.
+const minimumRPI = time.Millisecond
+
+// openConnection does what a forward open asks for. i is positioned at the connection path.
+func (h *serverTCPHandler) openConnection(i CIPItem, fwd_open msgEIPForwardOpen_Standard) error {
+	fwd_path := make([]byte, int(fwd_open.ConnPathSize)*2)
+	err := i.DeSerialize(&fwd_path)
 	if err != nil {
-		return fmt.Errorf("problem with fwd open path parsing %w", err)
+		return cipErrorf(CIPStatus_NotEnoughData, "problem with fwd open path parsing %w", err)
 	}
 
 	// if this is a produce/consume, the fwd_path here will have a few segments in it.
@@ -807,33 +807,67 @@ func (h *serverTCPHandler) forwardOpen(i CIPItem) error {
 	// then a "simple data segment" of some mystery data.
 
 	h.server.Logger.Debug("forward open msg", "open", fwd_open, "path", fwd_path)
+	refuse := func(extended uint16) error {
+		return h.sendConnectionError(fwd_open.Service, extended,
+			fwd_open.ConnectionSerialNumber, fwd_open.VendorID, fwd_open.OriginatorSerialNumber)
+	}
+	if len(fwd_path) < 2 {
+		return refuse(connectionError_InvalidSegment)
+	}
 	path := fwd_path[:2]
 
+	// this is a cyclic IO connection if the trigger is 1
+	var tp CIPEndpoint
+	rpi := time.Duration(fwd_open.TORPI) * time.Microsecond
+	if fwd_open.TransportTrigger == 1 {
+		tp, err = h.server.Router.Resolve(path)
+		if err != nil {
+			h.server.Logger.Warn("no tag provider for IO connection", "path", path)
+			return refuse(connectionError_InvalidSegment)
+		}
+		if rpi < minimumRPI {
+			return refuse(connectionError_RPINotSupported)
+		}
+	}
+
+	if fwd_open.TOConnectionID == 0 {
+		fwd_open.TOConnectionID = rand.Uint32()
+	}
+	cipConnection := &serverConnection{
+		TO:                     fwd_open.TOConnectionID,
+		OT:                     fwd_open.OTConnectionID,
+		ID:                     fwd_open.ConnectionSerialNumber,
+		VendorID:               fwd_open.VendorID,
+		OriginatorSerialNumber: fwd_open.OriginatorSerialNumber,
+		RPI:                    rpi,
+		Path:                   path,
+		owner:                  h,
+	}
+	err = h.server.ConnMgr.AddUnique(cipConnection)
+	if err != nil {
+		h.server.Logger.Warn("couldn't open connection", "error", err)
+		return refuse(connectionError_InUse)
+	}
+
 	//preItem := msgPreItemData{Handle: 0, Timeout: 0}
 	items := make([]CIPItem, 2)
 	items[0] = CIPItem{Header: cipItemHeader{ID: cipItem_Null}}
 	items[1] = newItem(cipItem_UnconnectedData, nil)
 
-	if fwd_open.TOConnectionID == 0 {
-		h.TOConnectionID = rand.Uint32()
-	} else {
-		h.TOConnectionID = fwd_open.TOConnectionID
-	}
-	fwd_open.TOConnectionID = h.TOConnectionID
-	if fwd_open.OTConnectionID == 0 {
-		h.OTConnectionID = rand.Uint32()
-	} else {
-		h.OTConnectionID = fwd_open.OTConnectionID
-	}
-	fwd_open.OTConnectionID = h.OTConnectionID
-	// See largeForwardOpen above for why API must echo the requested RPI
-	// instead of zero. Same fix applies to the standard (small) Forward
-	// Open path because real Logix MSG instructions hit this code path for
-	// any read/write that fits in the standard connection size envelope.
+	// Echo the requested RPI back as the Actual Packet Interval (API). CIP
+	// spec ODVA Vol 1 §3-5.6 allows the target to commit to a different API
+	// than what was requested, but it MUST report a non-zero value the
+	// originator can honor. Real Logix controllers always echo the requested
+	// RPI verbatim for Class 3 explicit messaging connections.
+	//
+	// Previously this was hardcoded to 0, which caused real ControlLogix
+	// MSG instructions to silently discard responses on connected reads (the
+	// firmware-level scheduler treats API=0 as invalid timing and tears
+	// down the response path even though the connection itself stays open).
 	fwOpenRespHdr := msgEIPForwardOpen_Standard_Reply{
 		Service:                fwd_open.Service.AsResponse(),
-		OTConnectionID:         h.OTConnectionID,
-		TOConnectionID:         h.TOConnectionID,
+		OTConnectionID:         cipConnection.OT,
+		TOConnectionID:         cipConnection.TO,
 		ConnectionSerialNumber: fwd_open.ConnectionSerialNumber,
 		VendorID:               fwd_open.VendorID,
 		OriginatorSerialNumber: fwd_open.OriginatorSerialNumber,
@@ -843,7 +877,7 @@ func (h *serverTCPHandler) forwardOpen(i CIPItem) error {
 
 	err = items[1].Serialize(fwOpenRespHdr)
 	if err != nil {
-		return fmt.Errorf("problem serializing forward open response %w", err)
+		return fmt.Errorf("problem serializing fwd open response %w", err)
 	}
 
 	itemData, err := serializeItems(items)
@@ -855,23 +889,7 @@ func (h *serverTCPHandler) forwardOpen(i CIPItem) error {
 		return fmt.Errorf("problem sending response data %w", err)
 	}
 
-	cipConnection := &serverConnection{
-		TO:   fwd_open.TOConnectionID,
-		OT:   fwd_open.OTConnectionID,
-		ID:   fwd_open.ConnectionSerialNumber,
-		RPI:  time.Duration(fwd_open.TORPI) * time.Microsecond,
-		Path: path,
-		Open: true,
-	}
-
-	h.server.ConnMgr.Add(cipConnection)
-
 	if fwd_open.TransportTrigger == 1 {
-		// this is a cyclic IO connection
-		tp, err := h.server.Router.Resolve(path)
-		if err != nil {
-			return fmt.Errorf("no tag provider for path %v", path)
-		}
 		go h.ioConnection(fwd_open, tp, cipConnection)
 	}
 
@@ -882,13 +900,16 @@ func (h *serverTCPHandler) ioConnection(fwd_open msgEIPForwardOpen_Standard, tp
 	rpi := time.Duration(fwd_open.TORPI) * time.Microsecond
 	h.server.Logger.Info("IO Connection", "rpi", rpi)
 	t := time.NewTicker(rpi)
+	defer t.Stop()
 	seq := uint32(0)
 
 	// get the address to send the response back to, trim off the port number, and add the eip udp port number (2222) back on.
-	// I suspect this will break with IPV6 since it uses colons in the IP address itself.
-	remote := h.conn.RemoteAddr().String()
-	remote = strings.Split(remote, ":")[0]
-	addr := fmt.Sprintf("%s:2222", remote)
+	remote, _, err := net.SplitHostPort(h.conn.RemoteAddr().String())
+	if err != nil {
+		h.server.Logger.Error("Problem with remote address", "error", err)
+		return
+	}
+	addr := net.JoinHostPort(remote, "2222")
 
 	udpConn, err := net.Dial("udp", addr)
 	if err != nil {
@@ -898,10 +919,12 @@ func (h *serverTCPHandler) ioConnection(fwd_open msgEIPForwardOpen_Standard, tp
 	defer udpConn.Close()
 
 	for {
-		seq++
-		<-t.C
-		if !conn.Open {
-			h.server.Logger.Warn("connection closed. no longer sending IO messages", "conn", *conn)
+		select {
+		case <-t.C:
+		case <-conn.closed:
+		}
+		if !conn.isOpen() {
+			h.server.Logger.Warn("connection closed. no longer sending IO messages", "conn", conn.ID)
 			return
 
 		}
@@ -913,6 +936,7 @@ func (h *serverTCPHandler) ioConnection(fwd_open msgEIPForwardOpen_Standard, tp
 		}
 
 		// every RPI send the message.
+		seq++
 		items := make([]CIPItem, 2)
 		items[0] = newItem(cipItem_SequenceAddress, nil)
 		err = items[0].Serialize(fwd_open.TOConnectionID, seq)
diff --git a/server_connections.go b/server_connections.go
index 37cf22f..58ce54e 100644
--- a/server_connections.go
+++ b/server_connections.go
@@ -3,6 +3,7 @@ package gologix
 import (
 	"fmt"
 	"log/slog"
+	"math/rand"
 	"sync"
 	"time"
 )
@@ -13,7 +14,23 @@ type serverConnection struct {
 	TO   uint32
 	RPI  time.Duration
 	Path []byte
-	Open bool
+
+	// together with the ID these are what an originator identifies its connection by.
+	VendorID               uint16
+	OriginatorSerialNumber uint32
+
+	owner  *serverTCPHandler // the session that opened the connection. It can only be used and closed from there.
+	closed chan struct{}     // closed when the connection is no longer in the connection manager
+}
+
+// isOpen reports whether the connection is still in the connection manager.
+func (conn *serverConnection) isOpen() bool {
+	select {
+	case <-conn.closed:
+		return false
+	default:
+		return true
+	}
 }
 
 type serverConnectionManager struct {
@@ -27,11 +44,85 @@ func (cm *serverConnectionManager) Init(logger *slog.Logger) {
 	cm.Logger = logger
 }
 func (cm *serverConnectionManager) Add(conn *serverConnection) {
-	cm.Logger.Info("New Managed Connection.", "conn", *conn)
+	cm.Logger.Info("New Managed Connection.", "ID", conn.ID, "OT", conn.OT, "TO", conn.TO, "path", conn.Path)
+	cm.Lock.Lock()
+	defer cm.Lock.Unlock()
+	cm.add(conn)
+}
+
+// AddUnique adds a connection that was requested by a client.
+//
+// The client's choice of the id by which the connection will be known to us only counts as long as it is one that is not
+// in use. It fails if the client has the connection open already.
+func (cm *serverConnectionManager) AddUnique(conn *serverConnection) error {
 	cm.Lock.Lock()
 	defer cm.Lock.Unlock()
+	for _, c := range cm.Connections {
+		if c.owner == conn.owner && c.isSame(conn.ID, conn.VendorID, conn.OriginatorSerialNumber) {
+			return fmt.Errorf("connection %v is open already", conn.ID)
+		}
+	}
+	for conn.OT == 0 || cm.inUse(conn.OT) {
+		conn.OT = rand.Uint32()
+	}
+	cm.Logger.Info("New Managed Connection.", "ID", conn.ID, "OT", conn.OT, "TO", conn.TO, "path", conn.Path)
+	cm.add(conn)
+	return nil
+}
+
+func (conn *serverConnection) isSame(ID uint16, vendor uint16, originator uint32) bool {
+	return conn.ID == ID && conn.VendorID == vendor && conn.OriginatorSerialNumber == originator
+}
+
+// the caller has to hold the lock.
+func (cm *serverConnectionManager) add(conn *serverConnection) {
+	conn.closed = make(chan struct{})
 	cm.Connections = append(cm.Connections, conn)
 }
+
+// the caller has to hold the lock.
+func (cm *serverConnectionManager) inUse(OT uint32) bool {
+	for _, conn := range cm.Connections {
+		if conn.OT == OT {
+			return true
+		}
+	}
+	return false
+}
+
+// removes connection number i from the list. The caller has to hold the lock.
+func (cm *serverConnectionManager) remove(i int) {
+	close(cm.Connections[i].closed)
+	last := len(cm.Connections) - 1
+	cm.Connections[i] = cm.Connections[last]
+	cm.Connections[last] = nil
+	cm.Connections = cm.Connections[:last]
+}
+
+// CloseOwned closes the connection that the given session opened with these identifiers.
+func (cm *serverConnectionManager) CloseOwned(owner *serverTCPHandler, ID uint16, vendor uint16, originator uint32) error {
+	cm.Lock.Lock()
+	defer cm.Lock.Unlock()
+	for i, conn := range cm.Connections {
+		if conn.owner == owner && conn.isSame(ID, vendor, originator) {
+			cm.remove(i)
+			return nil
+		}
+	}
+	return fmt.Errorf("couldn't find connection %v of originator %v/%v", ID, vendor, originator)
+}
+
+// CloseAll closes all connections of a session.
+func (cm *serverConnectionManager) CloseAll(owner *serverTCPHandler) {
+	cm.Lock.Lock()
+	defer cm.Lock.Unlock()
+	for i := len(cm.Connections) - 1; i >= 0; i-- {
+		if cm.Connections[i].owner == owner {
+			cm.remove(i)
+		}
+	}
+}
+
 func (cm *serverConnectionManager) GetByID(ID uint16) (*serverConnection, error) {
 	cm.Lock.RLock()
 	defer cm.Lock.RUnlock()
@@ -62,35 +153,12 @@ func (cm *serverConnectionManager) GetByTO(TO uint32) (*serverConnection, error)
 	}
 	return nil, fmt.Errorf("couldn't find connection %v by TO", TO)
 }
-func (cm *serverConnectionManager) CloseByID(ID uint16) error {
-	cm.Lock.Lock()
-	defer cm.Lock.Unlock()
-	for i, conn := range cm.Connections {
-		if conn.ID == ID {
-			conn.Open = false
-			if len(cm.Connections) == 1 {
-				cm.Connections = make([]*serverConnection, 0, 32)
-				return nil
-			}
-			cm.Connections[i] = cm.Connections[len(cm.Connections)-1]
-			cm.Connections = cm.Connections[:len(cm.Connections)-1]
-			return nil
-		}
-	}
-	return fmt.Errorf("couldn't find connection %v by ID", ID)
-}
 func (cm *serverConnectionManager) CloseByOT(OT uint32) error {
 	cm.Lock.Lock()
 	defer cm.Lock.Unlock()
 	for i, conn := range cm.Connections {
 		if conn.OT == OT {
-			conn.Open = false
-			if len(cm.Connections) == 1 {
-				cm.Connections = make([]*serverConnection, 0, 32)
-				return nil
-			}
-			cm.Connections[i] = cm.Connections[len(cm.Connections)-1]
-			cm.Connections = cm.Connections[:len(cm.Connections)-1]
+			cm.remove(i)
 			return nil
 		}
 	}
@@ -101,13 +169,7 @@ func (cm *serverConnectionManager) CloseByTO(TO uint32) error {
 	defer cm.Lock.Unlock()
 	for i, conn := range cm.Connections {
 		if conn.TO == TO {
-			conn.Open = false
-			if len(cm.Connections) == 1 {
-				cm.Connections = make([]*serverConnection, 0, 32)
-				return nil
-			}
-			cm.Connections[i] = cm.Connections[len(cm.Connections)-1]
-			cm.Connections = cm.Connections[:len(cm.Connections)-1]
+			cm.remove(i)
 			return nil
 		}
 	}
-- 
2.43.0


From 5ff578d57f393ca7315184cd5dd50adaa443b66c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:37 +0000
Subject: [PATCH 40/79] fix: the server reads requests within their bounds:
 paths end where they say, a list of services gets a status for each, strings
 in arrays are laid out as the data type says, and no count or offset crashes
 it

---
 ioi.go                |  41 ++-
 server.go             |  42 ++-
 server_connected.go   | 599 +++++++++++++++++-------------------------
 server_unconnected.go | 149 ++---------
 4 files changed, 307 insertions(+), 524 deletions(-)

diff --git a/ioi.go b/ioi.go
index 416ec76..782a3da 100644
--- a/ioi.go
+++ b/ioi.go
@@ -267,6 +267,17 @@ func getAsciiTagPart(item *CIPItem) (string, error) {
 	tag_str := string(b)
 	return tag_str, nil
 }
+// appendTagIndex adds an array index to a tag
+func appendTagIndex(tag string, index uint32) (string, error) {
+	if tag == "" {
+		return "", errors.New("path has an array index without a tag")
+	}
+	if tag[len(tag)-1] == ']' {
+		return fmt.Sprintf("%s,%d]", tag[:len(tag)-1], index), nil
+	}
+	return fmt.Sprintf("%s[%d]", tag, index), nil
+}
+
 func getTagFromPath(item *CIPItem) (string, error) {
 
 	tag_str := ""
@@ -291,10 +302,9 @@ morepath:
 			if err != nil {
 				return "", fmt.Errorf("couldn't get array index: %w", err)
 			}
-			if tag_str[len(tag_str)-1] == ']' {
-				tag_str = fmt.Sprintf("%s,%d]", tag_str[:len(tag_str)-1], array_index)
-			} else {
-				tag_str = fmt.Sprintf("%s[%d]", tag_str, array_index)
+			tag_str, err = appendTagIndex(tag_str, uint32(array_index))
+			if err != nil {
+				return "", err
 			}
 		case 0x29:
 			// two byte index
@@ -308,10 +318,25 @@ morepath:
 			if err != nil {
 				return "", fmt.Errorf("couldn't get array index: %w", err)
 			}
-			if tag_str[len(tag_str)-1] == ']' {
-				tag_str = fmt.Sprintf("%s,%d]", tag_str[:len(tag_str)-1], array_index)
-			} else {
-				tag_str = fmt.Sprintf("%s[%d]", tag_str, array_index)
+			tag_str, err = appendTagIndex(tag_str, uint32(array_index))
+			if err != nil {
+				return "", err
+			}
+		case 0x2A:
+			// four byte index
+			var pad byte
+			err = item.DeSerialize(&pad)
+			if err != nil {
+				return "", fmt.Errorf("couldn't get padding: %w", err)
+			}
+			var array_index uint32
+			err = item.DeSerialize(&array_index)
+			if err != nil {
+				return "", fmt.Errorf("couldn't get array index: %w", err)
+			}
+			tag_str, err = appendTagIndex(tag_str, array_index)
+			if err != nil {
+				return "", err
 			}
 		case 0x91:
 			// ascii portion of tag path
diff --git a/server.go b/server.go
index 0721e91..603fc8f 100644
--- a/server.go
+++ b/server.go
@@ -368,7 +368,7 @@ func (h *serverTCPHandler) sendUnitData(hdr eipHeader, body io.Reader) error {
 	h.OTConnectionID = connection.OT
 	h.TOConnectionID = connection.TO
 
-	err = h.connectedService(service, items)
+	err = h.connectedService(service, connection, items)
 	if err != nil && !h.replied {
 		h.server.Logger.Warn("problem handling connected request", "service", service, "error", err)
 		return h.sendUnitDataErrorReply(service, errorStatus(err))
@@ -378,26 +378,26 @@ func (h *serverTCPHandler) sendUnitData(hdr eipHeader, body io.Reader) error {
 
 // connectedService handles one request that came in on a connection.
 // If it returns an error without having replied, the caller has to tell the client.
-func (h *serverTCPHandler) connectedService(service CIPService, items []CIPItem) error {
+func (h *serverTCPHandler) connectedService(service CIPService, connection *serverConnection, items []CIPItem) error {
 	var err error
 	switch service {
 	case CIPService_Write:
-		err = h.cipConnectedWrite(items)
+		err = h.cipConnectedWrite(connection, items)
 		if err != nil {
 			return fmt.Errorf("problem handling write. %w", err)
 		}
 	case CIPService_FragRead:
-		err = h.connectedRead(CIPService_FragRead, items)
+		err = h.connectedRead(CIPService_FragRead, connection, items)
 		if err != nil {
 			return fmt.Errorf("problem handling frag read. %w", err)
 		}
 	case CIPService_Read:
-		err = h.connectedRead(CIPService_Read, items)
+		err = h.connectedRead(CIPService_Read, connection, items)
 		if err != nil {
 			return fmt.Errorf("problem handling non-frag read. %w", err)
 		}
 	case CIPService_MultipleService:
-		err = h.connectedMulti(items)
+		err = h.connectedMulti(connection, items)
 		if err != nil {
 			return fmt.Errorf("problem handling multi service. %w", err)
 		}
@@ -422,7 +422,7 @@ func (h *serverTCPHandler) connectedService(service CIPService, items []CIPItem)
 		// "Get Tags from Controller" all rely on this service. We answer
 		// with one Symbol Object instance per tag exposed by the active
 		// TagProvider (provided it implements the TagLister interface).
-		err = h.connectedSymbolList(items)
+		err = h.connectedSymbolList(connection, items)
 		if err != nil {
 			return fmt.Errorf("problem handling connected symbol list %w", err)
 		}
@@ -533,19 +533,10 @@ func (h *serverTCPHandler) connectedGetAttributeAll(items []CIPItem) error {
 // The response is a list of {InstanceID u32, NameLen u16, Name bytes, Type u16}
 // triplets — the standard Logix wire format that pycomm3.LogixDriver
 // expects in its _get_symbols_from_controller() loop.
-func (h *serverTCPHandler) connectedSymbolList(items []CIPItem) error {
-	items[0].Reset()
-	var connID uint32
-	if err := items[0].DeSerialize(&connID); err != nil {
-		return fmt.Errorf("symbol list: conn ID: %w", err)
-	}
-	conn, err := h.server.ConnMgr.GetByOT(connID)
-	if err != nil {
-		return fmt.Errorf("symbol list: conn lookup: %w", err)
-	}
-	provider, err := h.server.Router.Resolve(conn.Path)
+func (h *serverTCPHandler) connectedSymbolList(connection *serverConnection, items []CIPItem) error {
+	provider, err := h.server.Router.Resolve(connection.Path)
 	if err != nil {
-		return fmt.Errorf("symbol list: provider lookup: %w", err)
+		return cipErrorf(CIPStatus_PathDestinationUnknown, "symbol list: provider lookup: %w", err)
 	}
 
 	// Type-assert to the optional TagLister interface. A provider that
@@ -567,12 +558,18 @@ func (h *serverTCPHandler) connectedSymbolList(items []CIPItem) error {
 // the connected Get_Attributes_All handler to ship the Identity /
 // Program Object attribute bytes back to the client.
 func (h *serverTCPHandler) sendUnitDataReplyWithPayload(s CIPService, payload []byte) error {
+	return h.sendUnitDataReplyWithStatus(s, CIPStatus_OK, payload)
+}
+
+// sendUnitDataReplyWithStatus is for replies that carry data along with a status other than success.
+func (h *serverTCPHandler) sendUnitDataReplyWithStatus(s CIPService, status CIPStatus, payload []byte) error {
 	items := make([]CIPItem, 2)
 	items[0] = newItem(cipItem_ConnectionAddress, h.TOConnectionID)
 	items[1] = newItem(cipItem_ConnectedData, nil)
 	resp := msgWriteResultHeader{
 		SequenceCount: h.UnitDataSequencer,
 		Service:       s.AsResponse(),
+		Status:        status,
 	}
 	if err := items[1].Serialize(resp); err != nil {
 		return fmt.Errorf("serialize connected reply header: %w", err)
@@ -625,13 +622,6 @@ func (h *serverTCPHandler) sendRRData(hdr eipHeader, body io.Reader) error {
 		return fmt.Errorf("expected 2 items. got %v", len(items))
 	}
 	switch items[1].Header.ID {
-	case cipItem_ConnectedData:
-		var service CIPService
-		err = items[1].DeSerialize(&service)
-		if err != nil {
-			return fmt.Errorf("failed to get service. %w", err)
-		}
-		return h.connectedRead(service, items)
 	case cipItem_UnconnectedData:
 		return h.unconnectedData(items[1])
 	}
diff --git a/server_connected.go b/server_connected.go
index 4e500c9..ecaf747 100644
--- a/server_connected.go
+++ b/server_connected.go
@@ -2,342 +2,276 @@ package gologix
 
 import (
 	"encoding/binary"
-	"errors"
 	"fmt"
+	"math"
 )
 
-func (h *serverTCPHandler) cipConnectedWrite(items []CIPItem) error {
-	var l byte // length in words
-	item := items[1]
-	err := item.DeSerialize(&l)
+// items[1] is positioned behind the service code.
+func (h *serverTCPHandler) cipConnectedWrite(connection *serverConnection, items []CIPItem) error {
+	// path is part of the forward open we've previously received.
+	err := h.tagWrite(&items[1], connection.Path)
 	if err != nil {
-		return fmt.Errorf("problem deserializing item length %w", err)
+		return err
 	}
+	return h.sendUnitDataReply(CIPService_Write)
+}
 
-	tag, err := getTagFromPath(&item)
+// connectedRead handles both CIPService_Read (0x4C) and CIPService_FragRead
+// (0x52). Callers MUST pass the request service so reply and error frames
+// echo the matching response code (0xCC for Read, 0xD2 for FragRead) — some
+// CIP clients (pylogix on older firmware paths) tolerate a mismatched code,
+// but Logix MSG instructions and stricter SCADA stacks reject it.
+//
+// items[1] is positioned behind the service code.
+func (h *serverTCPHandler) connectedRead(reqSvc CIPService, connection *serverConnection, items []CIPItem) error {
+	status, payload, err := h.tagRead(reqSvc, &items[1], connection.Path)
 	if err != nil {
-		return fmt.Errorf("problem deserializing tag bytes %w", err)
+		return err
 	}
+	return h.sendUnitDataReplyWithStatus(reqSvc, status, payload)
+}
 
-	results, err := parseWriteValues(&item)
+// connectedMulti handles a list of services in one request:
+//
+//	[path size: byte] [path]
+//	[count: uint16] [offset of each request from the count: uint16 each] [requests]
+//
+// Each of them has its own status in the reply. If any of them failed the status of the whole says so, but the others are
+// carried out anyway.
+//
+// items[1] is positioned behind the service code.
+func (h *serverTCPHandler) connectedMulti(connection *serverConnection, items []CIPItem) error {
+	item := items[1]
+	pathlen, err := item.Byte()
 	if err != nil {
-		return fmt.Errorf("problem parsing write values for tag %s: %w", tag, err)
+		return cipErrorf(CIPStatus_NotEnoughData, "error getting path len: %w", err)
 	}
-	qty := uint16(len(results))
-	h.server.Logger.Debug("write", "tag", tag, "value", results)
-
-	if items[0].Header.ID != cipItem_ConnectionAddress {
-		return fmt.Errorf("expected a connection address item in item 0. got %v", items[0].Header.ID)
-	}
-	items[0].Reset()
-	var connID uint32
-	err = items[0].DeSerialize(&connID)
+	// need to handle this differently!
+	pb := make([]byte, int(pathlen)*2)
+	err = item.DeSerialize(&pb)
 	if err != nil {
-		return fmt.Errorf("problem deserializing connection ID (%+v) %w", items[0], err)
+		return cipErrorf(CIPStatus_NotEnoughData, "problem dumping path bytes from multi-svc header: %w", err)
 	}
-
-	conn, err := h.server.ConnMgr.GetByOT(connID)
+	data := item.Rest()
+	qty, err := item.Uint16()
 	if err != nil {
-		return fmt.Errorf("no server handler for %v. %w", connID, err)
+		return cipErrorf(CIPStatus_NotEnoughData, "problem getting multisvc item count: %w", err)
 	}
+	// one more than there are requests, so that each of them ends where the next one begins.
+	offsets := make([]int, 0, int(qty)+1)
+	minimum := 2 + 2*int(qty)
+	for i := 0; i < int(qty); i++ {
+		offset, err := item.Uint16()
+		if err != nil {
+			return cipErrorf(CIPStatus_NotEnoughData, "problem getting multisvc offset for item %d: %w", i, err)
+		}
+		if int(offset) < minimum || int(offset) >= len(data) {
+			return cipErrorf(CIPStatus_InvalidParameter, "offset %d of item %d is not inside the request", offset, i)
+		}
+		offsets = append(offsets, int(offset))
+		minimum = int(offset) + 1
+	}
+	offsets = append(offsets, len(data))
 
-	p, err := h.server.Router.Resolve(conn.Path)
-	if err != nil {
-		return fmt.Errorf("problem finding tag provider for %v(%v). %w", connID, conn.Path, err)
+	results := make([][]byte, qty)
+	status := CIPStatus_OK
+	for i := range results {
+		request := newItem(cipItem_ConnectedData, data[offsets[i]:offsets[i+1]])
+		results[i] = h.multiService(connection, request)
+		if CIPStatus(results[i][2]) != CIPStatus_OK {
+			status = CIPStatus_EmbeddedServiceError
+		}
 	}
-	if qty > 1 {
-		err = p.TagWrite(tag, results)
+
+	response := newItem(cipItem_ConnectedData, qty)
+	pos := (int(qty) + 1) * 2
+	for i := range results {
+		if pos > math.MaxUint16 {
+			return cipErrorf(CIPStatus_ReplyDataTooLarge, "the replies do not fit in a message")
+		}
+		err = response.Serialize(uint16(pos))
 		if err != nil {
-			return fmt.Errorf("problem writing tag %v. %w", tag, err)
+			return fmt.Errorf("problem building multi service reply: %w", err)
 		}
-	} else {
-		err = p.TagWrite(tag, results[0])
+		pos += len(results[i])
+	}
+	for i := range results {
+		err = response.Serialize(results[i])
 		if err != nil {
-			return fmt.Errorf("problem writing tag %v. %w", tag, err)
+			return fmt.Errorf("problem building multi service reply: %w", err)
 		}
 	}
 
-	// path is part of the forward open we've previously received.
+	return h.sendUnitDataReplyWithStatus(CIPService_MultipleService, status, response.Data)
+}
 
-	return h.sendUnitDataReply(CIPService_Write)
+// multiService carries out one service out of a list and returns the reply to it.
+func (h *serverTCPHandler) multiService(connection *serverConnection, request CIPItem) []byte {
+	var service CIPService
+	var payload []byte
+	status := CIPStatus_OK
+	err := request.DeSerialize(&service)
+	if err == nil {
+		switch service {
+		case CIPService_Read,
+			CIPService_FragRead:
+			status, payload, err = h.tagRead(service, &request, connection.Path)
+		case CIPService_Write:
+			err = h.tagWrite(&request, connection.Path)
+		default:
+			err = cipErrorf(CIPStatus_ServiceNotSupported, "service %v is not supported in a list", service)
+		}
+	}
+	if err != nil {
+		h.server.Logger.Warn("problem handling request in a list", "service", service, "error", err)
+		status = errorStatus(err)
+		payload = nil
+	}
+	return append([]byte{byte(service.AsResponse()), 0, byte(status), 0}, payload...)
 }
 
-func (h *serverTCPHandler) connectedMulti(items []CIPItem) error {
-	items[0].Reset()
-	var connID uint32
-	err := items[0].DeSerialize(&connID)
+// readTagPath reads the path that names the tag in a request.
+func readTagPath(request *CIPItem) (string, error) {
+	size, err := request.Byte()
 	if err != nil {
-		return fmt.Errorf("couldn't get connection ID from item 0: %w", err)
+		return "", cipErrorf(CIPStatus_NotEnoughData, "error getting path len: %w", err)
 	}
-	connection, err := h.server.ConnMgr.GetByOT(connID)
+	path := make([]byte, int(size)*2)
+	err = request.DeSerialize(&path)
 	if err != nil {
-		return fmt.Errorf("couldn't get connection with ID %v: %w", connID, err)
+		return "", cipErrorf(CIPStatus_NotEnoughData, "error getting path: %w", err)
 	}
-
-	path := connection.Path
-
-	provider, err := h.server.Router.Resolve(path)
+	// the path ends where its length says. What follows may well look like another segment.
+	item := newItem(cipItem_Null, path)
+	tag, err := getTagFromPath(&item)
 	if err != nil {
-		return fmt.Errorf("problem finding tag provider for %v. %w", path, err)
+		return "", cipErrorf(CIPStatus_PathSegmentError, "couldn't parse path: %w", err)
+	}
+	if tag == "" || len(item.Rest()) != 0 {
+		return "", cipErrorf(CIPStatus_PathSegmentError, "not the path of a tag: % x", path)
 	}
-	p := provider
+	return tag, nil
+}
 
-	items[1].Reset()
-	item := items[1]
+// the most tag data to send in one reply, so that the message it is part of stays below 64 kB.
+const maxTagReadData = 65000
 
-	var seq uint16
-	err = item.DeSerialize(&seq)
+// tagRead carries out a read or fragmented read. request is positioned behind the service code.
+//
+// It returns the data of the reply, which is the type followed by the values.
+func (h *serverTCPHandler) tagRead(service CIPService, request *CIPItem, path []byte) (CIPStatus, []byte, error) {
+	tag, err := readTagPath(request)
 	if err != nil {
-		return fmt.Errorf("error getting sequence ID: %w", err)
+		return 0, nil, err
 	}
-	var service CIPService
-	err = item.DeSerialize(&service)
+	qty, err := request.Uint16()
 	if err != nil {
-		return fmt.Errorf("error getting service: %w", err)
+		return 0, nil, cipErrorf(CIPStatus_NotEnoughData, "error getting read qty: %w", err)
+	}
+	offset := uint32(0)
+	if service == CIPService_FragRead {
+		offset, err = request.Uint32()
+		if err != nil {
+			return 0, nil, cipErrorf(CIPStatus_NotEnoughData, "error getting read offset: %w", err)
+		}
+	}
+	if qty == 0 || qty > math.MaxInt16 {
+		return 0, nil, cipErrorf(CIPStatus_InvalidParameter, "can't read %d elements", qty)
 	}
-	var pathlen byte
-	err = item.DeSerialize(&pathlen)
+	provider, err := h.server.Router.Resolve(path)
 	if err != nil {
-		return fmt.Errorf("error getting path len: %w", err)
+		return 0, nil, cipErrorf(CIPStatus_PathDestinationUnknown, "problem finding tag provider for %v. %w", path, err)
 	}
-
-	// need to handle this differently!
-	pb := make([]byte, pathlen*2)
-	err = item.DeSerialize(&pb)
+	result, err := provider.TagRead(tag, int16(qty))
 	if err != nil {
-		return fmt.Errorf("problem dumping path bytes from multi-svc header")
+		return 0, nil, cipErrorf(CIPStatus_InvalidMemberID, "problem getting data from provider. %w", err)
 	}
-	qty, err := item.Uint16()
+	h.server.Logger.Debug("Read", "tag", tag, "path", path, "qty", qty, "results", result)
+	typ, data, size, err := tagReadData(result)
 	if err != nil {
-		return fmt.Errorf("problem getting multisvc item count: %w", err)
+		return 0, nil, cipErrorf(CIPStatus_InvalidAttributeValue, "problem with value of tag %s: %w", tag, err)
 	}
-	offsets := make([]int16, qty)
-	results := make([][]byte, qty)
-	for i := range offsets {
-		offsets[i], err = item.Int16()
-		if err != nil {
-			return fmt.Errorf("problem getting multisvc offset for item %d: %w", i, err)
+	if int64(offset) > int64(len(data)) {
+		return 0, nil, cipErrorf(CIPStatus_InvalidParameter, "offset %d is past the end of tag %s", offset, tag)
+	}
+	status := CIPStatus_OK
+	data = data[offset:]
+	if len(data) > maxTagReadData {
+		// there is more to come
+		if size == 0 {
+			return 0, nil, cipErrorf(CIPStatus_ReplyDataTooLarge, "value of tag %s is too large", tag)
 		}
+		status = CIPStatus_PartialTransfer
+		data = data[:maxTagReadData-maxTagReadData%size]
 	}
+	return status, append(typ, data...), nil
+}
 
-	for i := range results {
-		item.Pos = int(offsets[i]) + 8 // seek to the start of the multi-service payload data.
-		var svc CIPService
-		err = item.DeSerialize(&svc)
-		if err != nil {
-			return fmt.Errorf("problem getting multiread service for item %d: %w", i, err)
+// tagReadData encodes a value for the reply to a read. It returns the type and all the elements, and the size of one of
+// them if that is known.
+func tagReadData(value any) (typ []byte, data []byte, size int, err error) {
+	cipType, _ := GoVarToCIPType(value)
+	if cipType == CIPTypeSTRING {
+		// STRING values need the Logix STRING UDT wire format: the type segment 0xA0 0x02 0x0FCE once, followed by
+		// LEN + DATA[82] + alignment padding for each of the elements.
+		var strs []string
+		switch x := value.(type) {
+		case string:
+			strs = []string{x}
+		case []string:
+			strs = x
+		default:
+			return nil, nil, 0, fmt.Errorf("was expecting a string but got %T", value)
 		}
-
-		svcReqSize, err := item.Byte()
-		if err != nil {
-			return fmt.Errorf("problem getting service req payload size for item %d: %w", i, err)
-		}
-		_ = svcReqSize // don't need this yet.  It is in 16 bit words.
-
-		switch svc {
-		case CIPService_FragRead,
-			CIPService_Read:
-			tagname, err := getTagFromPath(&item)
-			if err != nil {
-				return fmt.Errorf("problem getting multiread tagname for item %d: %w", i, err)
-			}
-			qty, err := item.Uint16()
-			if err != nil {
-				return fmt.Errorf("error getting write qty: %w", err)
-			}
-
-			result, err := p.TagRead(tagname, int16(qty))
-			if err != nil {
-				return fmt.Errorf("problem getting data for %s from provider. %w", tagname, err)
-			}
-
-			// build this portion of the response msg
-
-			typ, _ := GoVarToCIPType(result)
-			rhdr := msgMultiReadResult{Service: svc.AsResponse(), Status: 0, Type: typ}
-			b, err := Serialize(rhdr)
-			if err != nil {
-				return fmt.Errorf("problem serializing header for %s: %w", tagname, err)
-			}
-			if typ == CIPTypeSTRING {
-				res_str, ok := result.(string)
-				if !ok {
-					return errors.New("expected a string but didn't get one")
-				}
-				b_dat, err := Serialize(cipStringPacker(res_str))
-				if err != nil {
-					return fmt.Errorf("problem serializing data for %s: %w", tagname, err)
-				}
-				b.Truncate(4)
-				_, err = b_dat.WriteTo(b)
-				if err != nil {
-					return fmt.Errorf("problem combining header and data for %s: %w", tagname, err)
-				}
-			} else {
-				b_dat, err := Serialize(result)
-				if err != nil {
-					return fmt.Errorf("problem serializing data for %s: %w", tagname, err)
-				}
-				_, err = b_dat.WriteTo(b)
-				if err != nil {
-					return fmt.Errorf("problem combining header and data for %s: %w", tagname, err)
-				}
-			}
-
-			results[i] = b.Bytes()
-		case CIPService_Write,
-			CIPService_FragWrite:
-
-			tag, err := getTagFromPath(&item)
-			if err != nil {
-				return fmt.Errorf("problem deserializing tag bytes %w", err)
-			}
-
-			var typ CIPType
-			err = item.DeSerialize(&typ)
-			if err != nil {
-				return fmt.Errorf("problem deserializing cip type %w", err)
-			}
-			var reserved byte
-			err = item.DeSerialize(&reserved)
-			if err != nil {
-				return fmt.Errorf("problem deserializing reserved byte %w", err)
-			}
-			var qty uint16
-			err = item.DeSerialize(&qty)
-			if err != nil {
-				return fmt.Errorf("problem deserializing element count %w", err)
-			}
-
-			writeTags := make([]any, qty)
-			for i := 0; i < int(qty); i++ {
-				writeTags[i], err = typ.readValue(&item)
-				if err != nil {
-					return fmt.Errorf("problem getting write element %d: %w", i, err)
-				}
-			}
-			h.server.Logger.Debug("Write", "tag", tag, "value", writeTags)
-
-			if qty > 1 {
-				err = p.TagWrite(tag, writeTags)
-				if err != nil {
-					return fmt.Errorf("problem writing tag %v. %w", tag, err)
-				}
-			} else {
-				err = p.TagWrite(tag, writeTags[0])
-				if err != nil {
-					return fmt.Errorf("problem writing tag %v. %w", tag, err)
-				}
-			}
-
-			results[i] = []byte{byte(svc.AsResponse()), 0x00, 0x00, 0x00}
-
+		typ = cipStringPacker("").Bytes()[:4]
+		for _, s := range strs {
+			data = append(data, cipStringPacker(s).Bytes()[4:]...)
 		}
-
+		return typ, data, cipStringTagDataLen, nil
 	}
-
-	response := make([]any, qty+2)
-	response[0] = qty
-
-	pos := (int(qty) + 1) * 2
-	jump_table := make([]uint16, qty)
-	for i := range jump_table {
-		jump_table[i] = uint16(pos)
-		pos += len(results[i])
-	}
-	response[1] = jump_table
-	for i := range results {
-		response[2+i] = results[i]
-	}
-
-	return h.sendConnectedReply(CIPService_MultipleService, seq, connection.TO, response...)
-}
-
-// connectedRead handles both CIPService_Read (0x4C) and CIPService_FragRead
-// (0x52). Callers MUST pass the request service so reply and error frames
-// echo the matching response code (0xCC for Read, 0xD2 for FragRead) — some
-// CIP clients (pylogix on older firmware paths) tolerate a mismatched code,
-// but Logix MSG instructions and stricter SCADA stacks reject it.
-func (h *serverTCPHandler) connectedRead(reqSvc CIPService, items []CIPItem) error {
-	items[0].Reset()
-	var connID uint32
-	err := items[0].DeSerialize(&connID)
+	item := newItem(cipItem_Null, nil)
+	err = item.Serialize(value)
 	if err != nil {
-		err2 := h.sendConnectedError(reqSvc, 0, 0, CIPStatus_InvalidParameter, 0)
-		return fmt.Errorf("couldn't get connection ID from item 0: %w / %v", err, err2)
+		return nil, nil, 0, err
 	}
-	connection, err := h.server.ConnMgr.GetByOT(connID)
-	if err != nil {
-		err2 := h.sendConnectedError(reqSvc, 0, 0, CIPStatus_ConnectionLost, 0)
-		return fmt.Errorf("couldn't get connection with ID %v: %w /%v", connID, err, err2)
+	if cipType != CIPTypeStruct {
+		size = cipType.Size()
 	}
+	return []byte{byte(cipType), 0}, item.Data, size, nil
+}
 
-	items[1].Reset()
-	item := items[1]
-
-	var seq uint16
-	err = item.DeSerialize(&seq)
+// tagWrite carries out a write. request is positioned behind the service code.
+func (h *serverTCPHandler) tagWrite(request *CIPItem, path []byte) error {
+	tag, err := readTagPath(request)
 	if err != nil {
-		err2 := h.sendConnectedError(reqSvc, seq, connection.TO, CIPStatus_InvalidParameter, 0)
-		return fmt.Errorf("error getting sequence ID: %w / %v", err, err2)
+		return err
 	}
-	var pathlen uint16
-	err = item.DeSerialize(&pathlen)
+	results, err := parseWriteValues(request)
 	if err != nil {
-		err2 := h.sendConnectedError(reqSvc, seq, connection.TO, CIPStatus_InvalidParameter, 0)
-		return fmt.Errorf("error getting path len: %w / %v", err, err2)
+		return fmt.Errorf("problem parsing write values for tag %s: %w", tag, err)
 	}
-	tag, err := getTagFromPath(&item)
-	if err != nil {
-		err2 := h.sendConnectedError(reqSvc, seq, connection.TO, CIPStatus_InvalidParameter, 0)
-		return fmt.Errorf("couldn't parse path: %w / %v", err, err2)
+	if len(results) == 0 {
+		return fmt.Errorf("no values to write to tag %s", tag)
 	}
-	var qty uint16
-	err = item.DeSerialize(&qty)
-	if err != nil {
-		err2 := h.sendConnectedError(reqSvc, seq, connection.TO, CIPStatus_InvalidParameter, 0)
-		return fmt.Errorf("error getting write qty: %w / %v", err, err2)
+	// there can be a byte of padding
+	if len(request.Rest()) > 1 {
+		return cipErrorf(CIPStatus_TooMuchData, "%d bytes of data too much for tag %s", len(request.Rest()), tag)
 	}
-
-	path := connection.Path
+	h.server.Logger.Debug("write", "tag", tag, "value", results)
 
 	provider, err := h.server.Router.Resolve(path)
 	if err != nil {
-		err2 := h.sendConnectedError(reqSvc, seq, connection.TO, CIPStatus_PathDestinationUnknown, 0)
-		return fmt.Errorf("problem finding tag provider for %v. %w: %v", path, err, err2)
+		return cipErrorf(CIPStatus_PathDestinationUnknown, "problem finding tag provider for %v. %w", path, err)
 	}
-	p := provider
-	result, err := p.TagRead(tag, int16(qty))
-	if err != nil {
-		err2 := h.sendConnectedError(reqSvc, seq, connection.TO, CIPStatus_InvalidMemberID, 0)
-		return fmt.Errorf("problem getting data from provider. %w / %v", err, err2)
-	}
-	typ, _ := GoVarToCIPType(result)
-
-	if typ == CIPTypeSTRING {
-		// Single STRING — the common case for atomic tag reads.
-		if res_str, ok := result.(string); ok {
-			return h.sendConnectedReply(reqSvc, seq, connection.TO, cipStringPacker(res_str))
-		}
-		// STRING array — emit one cipStringPacker block per element, back
-		// to back. The L24ER MSG and pylogix both unpack the wire as N×90
-		// contiguous STRING slots when the request asks for multiple
-		// elements of a STRING tag. Without this branch, full-array reads
-		// of `strarr` failed with "Invalid Attribute" because the generic
-		// fallback below tried binary.Write on a Go `[]string`, which is
-		// not fixed-size and explodes inside the serializer.
-		if res_strs, ok := result.([]string); ok {
-			payloads := make([]any, 0, len(res_strs))
-			for _, s := range res_strs {
-				payloads = append(payloads, cipStringPacker(s))
-			}
-			return h.sendConnectedReply(reqSvc, seq, connection.TO, payloads...)
-		}
-		err2 := h.sendConnectedError(reqSvc, seq, connection.TO, CIPStatus_InvalidAttributeValue, 0)
-		return fmt.Errorf("was expecting a string but didn't get one: %w", err2)
+	if len(results) > 1 {
+		err = provider.TagWrite(tag, results)
 	} else {
-		return h.sendConnectedReply(reqSvc, seq, connection.TO, typ, byte(0), result)
+		err = provider.TagWrite(tag, results[0])
 	}
+	if err != nil {
+		return cipErrorf(CIPStatus_InvalidAttributeValue, "problem writing tag %v. %w", tag, err)
+	}
+	return nil
 }
 
 // cipStringStructCRC is the StructTypeCRC the Logix STRING UDT serializes
@@ -404,7 +338,7 @@ func (c cipStringPacker) Bytes() []byte {
 //	[qty: uint16]
 //	for each element:
 //	    atomic: typ.readValue
-//	    STRING struct (CRC 0x0FCE): [LEN: uint32] [DATA: 82 bytes]
+//	    STRING struct (CRC 0x0FCE): [LEN: uint32] [DATA: 82 bytes] [padding: 0 or 2 bytes]
 //
 // For atomic writes type_info_length_bytes is 0 — the field doubles as the
 // high byte of the uint16 DataType the gologix client serializes — so the
@@ -447,12 +381,17 @@ func parseWriteValues(item *CIPItem) ([]any, error) {
 		if structCRC != cipStringStructCRC {
 			return nil, fmt.Errorf("server only supports STRING struct writes (CRC 0x%04X); got CRC 0x%04X", cipStringStructCRC, structCRC)
 		}
+		// some clients leave out the padding at the end of the structure
+		pad := 0
+		if int(qty)*cipStringTagDataLen <= len(item.Rest()) {
+			pad = cipStringStructPad
+		}
 		for i := 0; i < int(qty); i++ {
 			var slen uint32
 			if err := item.DeSerialize(&slen); err != nil {
 				return nil, fmt.Errorf("error reading STRING LEN for element %d: %w", i, err)
 			}
-			data := make([]byte, cipStringDataLen)
+			data := make([]byte, cipStringDataLen+pad)
 			if err := item.DeSerialize(&data); err != nil {
 				return nil, fmt.Errorf("error reading STRING DATA for element %d: %w", i, err)
 			}
@@ -474,116 +413,52 @@ func parseWriteValues(item *CIPItem) ([]any, error) {
 	return results, nil
 }
 
-func (h *serverTCPHandler) sendConnectedReply(s CIPService, seq uint16, connID uint32, payload ...any) error {
-	items := make([]CIPItem, 2)
-	items[0] = newItem(cipItem_ConnectionAddress, connID)
-	items[1] = newItem(cipItem_ConnectedData, seq)
-	resp := msgUnconnWriteResultHeader{
-		Service: s.AsResponse(),
-	}
-	err := items[1].Serialize(resp)
-	if err != nil {
-		return fmt.Errorf("couldn't serialize error response: %w", err)
-	}
-	for i := range payload {
-		err = items[1].Serialize(payload[i])
-		if err != nil {
-			return fmt.Errorf("problem serializing unconnected data payload. %w", err)
-		}
-	}
-	itemdata, err := serializeItems(items)
-	if err != nil {
-		return fmt.Errorf("could not serialize items: %w", err)
-	}
-	return h.send(cipCommandSendUnitData, itemdata)
-}
-
-func (h *serverTCPHandler) sendConnectedError(s CIPService, seq uint16, connID uint32, status CIPStatus, statusExtended byte) error {
-	items := make([]CIPItem, 2)
-	items[0] = newItem(cipItem_ConnectionAddress, connID)
-	items[1] = newItem(cipItem_ConnectedData, seq)
-	resp := msgUnconnWriteResultHeader{
-		Service:        s.AsResponse(),
-		Status:         status,
-		StatusExtended: statusExtended,
-	}
-	err := items[1].Serialize(resp)
+func (h *serverTCPHandler) connectedGetAttr(items []CIPItem) error {
+	cls, inst, attr, err := readAttributePath(&items[1])
 	if err != nil {
-		return fmt.Errorf("couldn't serialize error response: %w", err)
+		return err
 	}
-	itemdata, err := serializeItems(items)
-	if err != nil {
-		return fmt.Errorf("could not serialize items: %w", err)
+	if cls != CipObject_Identity || inst != 1 {
+		return cipErrorf(CIPStatus_PathDestinationUnknown, "only support class 1 instance 1 so far. got %d:%d", cls, inst)
 	}
-	return h.send(cipCommandSendUnitData, itemdata)
-}
-
-func (h *serverTCPHandler) connectedGetAttr(items []CIPItem) error {
-	items[0].Reset()
-	var connID uint32
-	err := items[0].DeSerialize(&connID)
-	if err != nil {
-		return fmt.Errorf("couldn't get connection ID from item 0: %w", err)
+	result, ok := h.server.Attributes[attr]
+	if !ok {
+		return cipErrorf(CIPStatus_AttributeNotSupported, "bad attribute %d", attr)
 	}
-	connection, err := h.server.ConnMgr.GetByOT(connID)
+	item := newItem(cipItem_Null, nil)
+	err = item.Serialize(result)
 	if err != nil {
-		return fmt.Errorf("couldn't get connection with ID %v: %w", connID, err)
+		return fmt.Errorf("problem serializing attribute %d: %w", attr, err)
 	}
-
-	items[1].Reset()
-	return h.getAttrSingle(connection, items[1])
-
+	return h.sendUnitDataReplyWithPayload(CIPService_GetAttributeSingle, item.Data)
 }
 
-func (h *serverTCPHandler) getAttrSingle(connection *serverConnection, item CIPItem) error {
-
-	var seq uint16
-	err := item.DeSerialize(&seq)
+// readAttributePath reads the path of an attribute from a request positioned behind the service code.
+func readAttributePath(request *CIPItem) (cls CIPClass, inst CIPInstance, attr CIPAttribute, err error) {
+	size, err := request.Byte()
 	if err != nil {
-		return fmt.Errorf("error getting sequence ID: %w", err)
+		return 0, 0, 0, cipErrorf(CIPStatus_NotEnoughData, "couldn't read path size: %w", err)
 	}
-
-	_, err = item.Byte()
+	path := make([]byte, int(size)*2)
+	err = request.DeSerialize(&path)
 	if err != nil {
-		return fmt.Errorf("couldn't read cmd type: %w", err)
-	}
-
-	path_size, err := item.Byte()
-	if err != nil {
-		return fmt.Errorf("couldn't read data len: %w", err)
-	}
-
-	if path_size != 3 {
-		return fmt.Errorf("currently only support getattrsingle path size of 3. got %d", path_size)
+		return 0, 0, 0, cipErrorf(CIPStatus_NotEnoughData, "couldn't read path: %w", err)
 	}
-
-	var cls CIPClass
+	item := newItem(cipItem_Null, path)
 	err = cls.Read(&item)
 	if err != nil {
-		return fmt.Errorf("could not read class: %w", err)
+		return 0, 0, 0, cipErrorf(CIPStatus_PathSegmentError, "could not read class: %w", err)
 	}
-
-	var inst CIPInstance
 	err = inst.Read(&item)
 	if err != nil {
-		return fmt.Errorf("could not read instance: %w", err)
+		return 0, 0, 0, cipErrorf(CIPStatus_PathSegmentError, "could not read instance: %w", err)
 	}
-
-	if cls != 1 || inst != 1 {
-		return fmt.Errorf("only support class 1 instance 1 so far. got %d:%d", cls, inst)
-	}
-
-	var attr CIPAttribute
 	err = attr.Read(&item)
 	if err != nil {
-		return fmt.Errorf("could not read attribute ID: %w", err)
+		return 0, 0, 0, cipErrorf(CIPStatus_PathSegmentError, "could not read attribute ID: %w", err)
 	}
-
-	result, ok := h.server.Attributes[attr]
-	if !ok {
-		return fmt.Errorf("bad attribute %d", attr)
+	if len(item.Rest()) != 0 {
+		return 0, 0, 0, cipErrorf(CIPStatus_PathSegmentError, "not the path of an attribute: % x", path)
 	}
-
-	return h.sendConnectedReply(CIPService_FragRead, seq, connection.TO, result)
-
+	return cls, inst, attr, nil
 }
diff --git a/server_unconnected.go b/server_unconnected.go
index 3d978eb..e463140 100644
--- a/server_unconnected.go
+++ b/server_unconnected.go
@@ -391,75 +391,20 @@ func buildIdentityGetAttributesAllResponse(attrs map[CIPAttribute]any) ([]byte,
 	return buf.Bytes(), nil
 }
 
+// item is positioned behind the service code.
 func (h *serverTCPHandler) unconnectedServiceWrite(item CIPItem, path []byte) error {
-	var reserved byte
-	err := item.DeSerialize(&reserved)
+	err := h.tagWrite(&item, path)
 	if err != nil {
-		return fmt.Errorf("error getting reserved byte. %w", err)
-	}
-	tag, err := getTagFromPath(&item)
-	if err != nil {
-		return fmt.Errorf("couldn't parse path. %w", err)
-	}
-	results, err := parseWriteValues(&item)
-	if err != nil {
-		return fmt.Errorf("problem parsing write values for tag %s: %w", tag, err)
-	}
-	qty := uint16(len(results))
-
-	provider, err := h.server.Router.Resolve(path)
-	if err != nil {
-		return fmt.Errorf("problem finding tag provider for %v. %w", path, err)
-	}
-	p := provider
-	if qty > 1 {
-		err = p.TagWrite(tag, results)
-		if err != nil {
-			return fmt.Errorf("problem writing tag %v. %w", tag, err)
-		}
-	} else {
-		err = p.TagWrite(tag, results[0])
-		if err != nil {
-			return fmt.Errorf("problem writing tag %v. %w", tag, err)
-		}
+		return err
 	}
-
 	return h.sendUnconnectedRRDataReply(CIPService_Write)
-
 }
 
 func (h *serverTCPHandler) unconnectedServiceGetAttrSingle(item CIPItem) error {
 
-	// CIP wire format for Get_Attribute_Single requests: 1-byte path size in
-	// words followed by `pathSize*2` bytes of EPATH segments. This is the
-	// same shape in both the direct UCMM case (where the dispatcher just
-	// consumed the service byte) and the embedded-in-UnconnectedSend case
-	// (where the wrapper's outer fields were already drained before reaching
-	// here). The previous `item.Uint16()` read silently consumed an extra
-	// byte and only happened to match `!= 3` because nothing else was read
-	// from the item after `attr.Read`; the moment FactoryTalk Linx started
-	// probing real Identity attributes (0x15, 0x16, ...) it tripped the
-	// "Path segment error" branch instead of looking up the attribute.
-	pathSize, err := item.Byte()
+	cls, inst, attr, err := readAttributePath(&item)
 	if err != nil {
-		return fmt.Errorf("couldn't read path size: %w", err)
-	}
-	if pathSize != 3 {
-		h.server.Logger.Debug("getattrsingle: unsupported path size", "size", pathSize)
-		return h.sendUnconnectedErrorReply(CIPService_GetAttributeSingle, CIPStatus_PathSegmentError)
-	}
-
-	var cls CIPClass
-	if err := cls.Read(&item); err != nil {
-		return fmt.Errorf("could not read class: %w", err)
-	}
-	var inst CIPInstance
-	if err := inst.Read(&item); err != nil {
-		return fmt.Errorf("could not read instance: %w", err)
-	}
-	var attr CIPAttribute
-	if err := attr.Read(&item); err != nil {
-		return fmt.Errorf("could not read attribute ID: %w", err)
+		return err
 	}
 
 	// Custom class 0xC8: per-tag attribute container — see
@@ -469,7 +414,7 @@ func (h *serverTCPHandler) unconnectedServiceGetAttrSingle(item CIPItem) error {
 	// (`CIA:C8:<instance>:1`) without going through the Rockwell-only
 	// Service 0x4B/0x64 tag-browsing extension.
 	if cls == 0xC8 {
-		tagName, found := h.resolveSymbolicTagFromCustomClass(uint16(inst))
+		tagName, found := h.resolveSymbolicTagFromCustomClass(inst)
 		if !found {
 			return h.sendUnconnectedErrorReply(CIPService_GetAttributeSingle, CIPStatus_PathDestinationUnknown)
 		}
@@ -532,24 +477,9 @@ func (h *serverTCPHandler) unconnectedServiceGetAttrSingle(item CIPItem) error {
 // considered read-only here. SCADA clients writing back to symbolic tags
 // via CIA paths land here.
 func (h *serverTCPHandler) unconnectedServiceSetAttrSingle(item CIPItem) error {
-	pathSize, err := item.Byte()
+	cls, inst, attr, err := readAttributePath(&item)
 	if err != nil {
-		return fmt.Errorf("couldn't read path size: %w", err)
-	}
-	if pathSize != 3 {
-		return h.sendUnconnectedErrorReply(CIPService_SetAttributeSingle, CIPStatus_PathSegmentError)
-	}
-	var cls CIPClass
-	if err := cls.Read(&item); err != nil {
-		return fmt.Errorf("could not read class: %w", err)
-	}
-	var inst CIPInstance
-	if err := inst.Read(&item); err != nil {
-		return fmt.Errorf("could not read instance: %w", err)
-	}
-	var attr CIPAttribute
-	if err := attr.Read(&item); err != nil {
-		return fmt.Errorf("could not read attribute ID: %w", err)
+		return err
 	}
 
 	if cls != 0xC8 {
@@ -558,7 +488,7 @@ func (h *serverTCPHandler) unconnectedServiceSetAttrSingle(item CIPItem) error {
 	if attr != 1 {
 		return h.sendUnconnectedErrorReply(CIPService_SetAttributeSingle, CIPStatus_AttributeNotSupported)
 	}
-	tagName, found := h.resolveSymbolicTagFromCustomClass(uint16(inst))
+	tagName, found := h.resolveSymbolicTagFromCustomClass(inst)
 	if !found {
 		return h.sendUnconnectedErrorReply(CIPService_SetAttributeSingle, CIPStatus_PathDestinationUnknown)
 	}
@@ -605,7 +535,7 @@ var defaultLocalPath = []byte{1, 0}
 // Returns ok=false if the provider doesn't implement TagLister (no
 // browsable tag set), if the instance is out of range, or if the index
 // arithmetic underflows.
-func (h *serverTCPHandler) resolveSymbolicTagFromCustomClass(instance uint16) (string, bool) {
+func (h *serverTCPHandler) resolveSymbolicTagFromCustomClass(instance CIPInstance) (string, bool) {
 	provider, err := h.server.Router.Resolve(defaultLocalPath)
 	if err != nil {
 		return "", false
@@ -616,62 +546,19 @@ func (h *serverTCPHandler) resolveSymbolicTagFromCustomClass(instance uint16) (s
 	}
 	tags := lister.TagList()
 	sort.Slice(tags, func(i, j int) bool { return tags[i].Name < tags[j].Name })
-	if instance == 0 || int(instance) > len(tags) {
+	if instance == 0 || int64(instance) > int64(len(tags)) {
 		return "", false
 	}
 	return tags[instance-1].Name, true
 }
 
+// item is positioned behind the service code.
 func (h *serverTCPHandler) unconnectedServiceRead(item CIPItem, path []byte) error {
-	var reserved byte
-	err := item.DeSerialize(&reserved)
-	if err != nil {
-		return fmt.Errorf("error getting reserved byte. %w", err)
-	}
-	tag, err := getTagFromPath(&item)
-	if err != nil {
-		return fmt.Errorf("couldn't parse path. %w", err)
-	}
-	var qty uint16
-	err = item.DeSerialize(&qty)
-	if err != nil {
-		return fmt.Errorf("error getting write qty. %w", err)
-	}
-	h.server.Logger.Debug("read", "tag", tag, "path", path, "qty", qty)
-
-	provider, err := h.server.Router.Resolve(path)
-	if err != nil {
-		return fmt.Errorf("problem finding tag provider for %v. %w", path, err)
-	}
-	p := provider
-	result, err := p.TagRead(tag, int16(qty))
+	status, payload, err := h.tagRead(CIPService_Read, &item, path)
 	if err != nil {
-		return fmt.Errorf("problem getting data from provider. %w", err)
-	}
-	h.server.Logger.Debug("Read", "tag", tag, "path", path, "qty", qty, "results", result)
-	typ, _ := GoVarToCIPType(result)
-
-	// STRING values need the Logix STRING UDT wire format (type segment
-	// `0xA0 0x02 0x0FCE` + LEN + DATA[82] + alignment padding) instead of
-	// raw bytes, otherwise external clients (pylogix, FT Linx, MSG read on
-	// a real Logix controller) can't decode the reply. Mirror the special
-	// branch the connected read path already had, so a single STRING tag
-	// and a STRING element of an array both deserialize cleanly.
-	if typ == CIPTypeSTRING {
-		if s, ok := result.(string); ok {
-			return h.sendUnconnectedRRDataReply(CIPService_Read, cipStringPacker(s))
-		}
-		if ss, ok := result.([]string); ok {
-			payloads := make([]any, 0, len(ss))
-			for _, s := range ss {
-				payloads = append(payloads, cipStringPacker(s))
-			}
-			return h.sendUnconnectedRRDataReply(CIPService_Read, payloads...)
-		}
+		return err
 	}
-
-	return h.sendUnconnectedRRDataReply(CIPService_Read, typ, byte(0), result)
-
+	return h.sendUnconnectedReplyWithStatus(CIPService_Read, status, payload)
 }
 
 // sendUnconnectedErrorReply emits a CIP error response carrying a non-zero
@@ -703,11 +590,17 @@ func (h *serverTCPHandler) sendUnconnectedErrorReply(s CIPService, status CIPSta
 }
 
 func (h *serverTCPHandler) sendUnconnectedRRDataReply(s CIPService, payload ...any) error {
+	return h.sendUnconnectedReplyWithStatus(s, CIPStatus_OK, payload...)
+}
+
+// sendUnconnectedReplyWithStatus is for replies that carry data along with a status other than success.
+func (h *serverTCPHandler) sendUnconnectedReplyWithStatus(s CIPService, status CIPStatus, payload ...any) error {
 	items := make([]CIPItem, 2)
 	items[0] = newItem(cipItem_Null, nil)
 	items[1] = newItem(cipItem_UnconnectedData, nil)
 	resp := msgUnconnWriteResultHeader{
 		Service: s.AsResponse(),
+		Status:  status,
 	}
 	err := items[1].Serialize(resp)
 	if err != nil {
-- 
2.43.0


From 442b2d0f08813862829b422e5b887402335dd1c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:42 +0000
Subject: [PATCH 41/79] fix: the map tag provider never hands out or keeps
 slices that change later, and refuses values and counts that do not fit the
 tag

---
 server_router.go | 59 ++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 52 insertions(+), 7 deletions(-)

diff --git a/server_router.go b/server_router.go
index 1a9b5ae..9def97e 100644
--- a/server_router.go
+++ b/server_router.go
@@ -3,6 +3,7 @@ package gologix
 import (
 	"errors"
 	"fmt"
+	"math"
 	"reflect"
 	"strconv"
 	"strings"
@@ -110,6 +111,9 @@ func (p *MapTagProvider) TagRead(tag string, qty int16) (any, error) {
 	}
 
 	t := reflect.ValueOf(val)
+	if qty < 0 {
+		return nil, fmt.Errorf("tag %v: can't read %d elements", tag, qty)
+	}
 
 	if hasElem {
 		if t.Kind() != reflect.Slice {
@@ -127,21 +131,30 @@ func (p *MapTagProvider) TagRead(tag string, qty int16) (any, error) {
 		if qty == 1 {
 			return t.Index(elemIdx).Interface(), nil
 		}
-		return t.Slice(elemIdx, end).Interface(), nil
+		return copySlice(t.Slice(elemIdx, end)), nil
 	}
 
 	if t.Kind() == reflect.Slice {
 		if int(qty) <= t.Len() {
-			values := reflect.Indirect(t)
-			v := values.Slice(0, int(qty))
-			return v.Interface(), nil
+			return copySlice(t.Slice(0, int(qty))), nil
 		}
 		return nil, fmt.Errorf("too many elements requested %v > %v", qty, t.Len())
 	}
 
+	if qty > 1 {
+		return nil, fmt.Errorf("too many elements requested %v > 1", qty)
+	}
 	return val, nil
 }
 
+// copySlice makes a copy of a slice. Slices in the map are modified by writes to single elements, so
+// they can't leave here.
+func copySlice(v reflect.Value) any {
+	out := reflect.MakeSlice(reflect.SliceOf(v.Type().Elem()), v.Len(), v.Len())
+	reflect.Copy(out, v)
+	return out.Interface()
+}
+
 // this is a thread-safe way to write a value to a tag. Like TagRead, it
 // supports element addressing (`name[N]`) AND preserves the underlying
 // element type of an existing typed slice when the caller hands us a
@@ -204,6 +217,27 @@ func (p *MapTagProvider) TagWrite(tag string, value any) error {
 		}
 	}
 
+	nv := reflect.ValueOf(value)
+	if nv.Kind() == reflect.Slice {
+		if nv.Type().Elem().Kind() != reflect.Interface {
+			p.Data[baseName] = copySlice(nv)
+			return nil
+		}
+		if nv.Len() > 0 && !nv.Index(0).IsNil() {
+			// all the elements of a CIP write have the same type.
+			elemType := reflect.TypeOf(nv.Index(0).Interface())
+			out := reflect.MakeSlice(reflect.SliceOf(elemType), nv.Len(), nv.Len())
+			for i := 0; i < nv.Len(); i++ {
+				converted, err := convertToElement(nv.Index(i).Interface(), elemType)
+				if err != nil {
+					return fmt.Errorf("tag %v element %d: %w", tag, i, err)
+				}
+				out.Index(i).Set(reflect.ValueOf(converted))
+			}
+			value = out.Interface()
+		}
+	}
+
 	p.Data[baseName] = value
 	return nil
 }
@@ -233,11 +267,22 @@ func parseElementTag(tag string) (base string, idx int, hasElem bool) {
 // converted value or an error if the cast isn't representable.
 func convertToElement(value any, target reflect.Type) (any, error) {
 	v := reflect.ValueOf(value)
-	if v.Type() == target {
+	if v.IsValid() && v.Type() == target {
 		return value, nil
 	}
-	if v.Type().ConvertibleTo(target) {
-		return v.Convert(target).Interface(), nil
+	// numbers can be converted to strings, but the result is not what anybody wants here.
+	isString := v.Kind() == reflect.String
+	if v.IsValid() && v.Type().ConvertibleTo(target) && isString == (target.Kind() == reflect.String) {
+		converted := v.Convert(target)
+		// the value has to fit. Floats only have to be of the right magnitude.
+		fits := isString || reflect.DeepEqual(converted.Convert(v.Type()).Interface(), value)
+		if converted.CanFloat() {
+			fits = !math.IsInf(converted.Float(), 0) || (v.CanFloat() && math.IsInf(v.Float(), 0))
+		}
+		if !fits {
+			return nil, fmt.Errorf("%v does not fit in %v", value, target)
+		}
+		return converted.Interface(), nil
 	}
 	return nil, fmt.Errorf("cannot convert %T to %v", value, target)
 }
-- 
2.43.0


From 2820e0112805894abe59af68ca5feb14e1787eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:42 +0000
Subject: [PATCH 42/79] fix: the reply to a list services request is one, with
 the right item length

---
 server.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/server.go b/server.go
index 603fc8f..7986735 100644
--- a/server.go
+++ b/server.go
@@ -1074,10 +1074,10 @@ func (h *serverTCPHandler) sendListServicesData(hdr eipHeader) error {
 	response := listServicesReply{
 		Count:    1,
 		TypeCode: 0x0100,
-		Length:   10,
+		Length:   20, // of what follows
 		Version:  1,
 		CapFlags: ServiceCapabilityFlag_CipEncapsulation | ServiceCapabilityFlag_SupportsClass1UDP,
 		Name:     [16]byte{'C', 'o', 'm', 'm', 'u', 'n', 'i', 'c', 'a', 't', 'i', 'o', 'n', 's', ' ', ' '},
 	}
-	return h.send(cipCommandSendRRData, response)
+	return h.send(cipCommandListServices, response)
 }
-- 
2.43.0


From d0a6ebd4269a8554e5c2f3c06ab394c733a2934d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:42 +0000
Subject: [PATCH 43/79] fix: the server stops when its listeners are closed
 instead of spinning, and takes datagrams for what was received

---
 server.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/server.go b/server.go
index 7986735..96bc08f 100644
--- a/server.go
+++ b/server.go
@@ -85,12 +85,13 @@ func (srv *Server) Serve() error {
 	srv.UDPListener, err = net.ListenPacket("udp", "0.0.0.0:2222")
 	srv.Logger.Info("Listening on UDP port 2222")
 	if err != nil {
+		srv.TCPListener.Close()
 		return fmt.Errorf("couldn't open udp listener. %v", err)
 	}
 
 	// we'll start two server goroutines and then wait for either of them to error out on the error channel.
 
-	errCh := make(chan error)
+	errCh := make(chan error, 2)
 
 	go func() {
 		err := srv.serveUDP()
@@ -128,6 +129,9 @@ func (srv *Server) Serve() error {
 func (srv *Server) serveTCP() error {
 	for {
 		conn, err := srv.TCPListener.Accept()
+		if errors.Is(err, net.ErrClosed) {
+			return err
+		}
 		if err != nil {
 			srv.Logger.Error("problem with tcp accept", "error", err)
 			continue
@@ -137,7 +141,7 @@ func (srv *Server) serveTCP() error {
 		go func() {
 			err := h.serve(srv)
 			if err != nil {
-				srv.Logger.Warn("Error on connection %v. %v", h.conn.RemoteAddr().String(), err)
+				srv.Logger.Warn("Error on connection", "remote", h.conn.RemoteAddr().String(), "error", err)
 			}
 		}()
 	}
@@ -177,9 +181,11 @@ type cipIOSeqAccessData struct {
 func (srv *Server) serveUDP() error {
 	bufSize := 4096
 	for {
-		b := make([]byte, 4096)
-		buf := bytes.NewBuffer(b)
+		b := make([]byte, bufSize)
 		n, addr, err := srv.UDPListener.ReadFrom(b)
+		if errors.Is(err, net.ErrClosed) {
+			return err
+		}
 		if n == 0 {
 			srv.Logger.Debug("Read 0 bytes on udp listener.")
 			continue
@@ -195,7 +201,7 @@ func (srv *Server) serveUDP() error {
 		_ = addr // don't need this yet.
 		// we've read a packet on udp so we need to parse the eip data
 
-		items, err := readItems(buf)
+		items, err := readItems(bytes.NewReader(b[:n]))
 		if err != nil {
 			srv.Logger.Debug("problem reading udp items", "error", err)
 			continue
-- 
2.43.0


From 0e043b5e04beeebc12732625bb297e9f41b6672a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:02 +0000
Subject: [PATCH 44/79] fix: output packets change nothing if they are short,
 reach all waiting channel consumers whether or not others wait, and only
 count for I/O connections

---
 server.go             |  5 +++++
 server_connections.go |  1 +
 server_io.go          |  5 ++++-
 server_iochannel.go   | 17 ++++++++++++++---
 4 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/server.go b/server.go
index 96bc08f..e9fd6a1 100644
--- a/server.go
+++ b/server.go
@@ -223,6 +223,10 @@ func (srv *Server) serveUDP() error {
 				srv.Logger.Debug("couldn't find handler to handle IO message", "connection", io_info.ConnectionID)
 				continue
 			}
+			if !h.IO {
+				srv.Logger.Debug("IO message for a connection that is not an IO connection", "connection", io_info.ConnectionID)
+				continue
+			}
 
 			tp, err := srv.Router.Resolve(h.Path)
 			if err != nil {
@@ -837,6 +841,7 @@ func (h *serverTCPHandler) openConnection(i CIPItem, fwd_open msgEIPForwardOpen_
 		OriginatorSerialNumber: fwd_open.OriginatorSerialNumber,
 		RPI:                    rpi,
 		Path:                   path,
+		IO:                     fwd_open.TransportTrigger == 1,
 		owner:                  h,
 	}
 	err = h.server.ConnMgr.AddUnique(cipConnection)
diff --git a/server_connections.go b/server_connections.go
index 58ce54e..9c650d8 100644
--- a/server_connections.go
+++ b/server_connections.go
@@ -14,6 +14,7 @@ type serverConnection struct {
 	TO   uint32
 	RPI  time.Duration
 	Path []byte
+	IO   bool // whether this is a cyclic IO connection
 
 	// together with the ID these are what an originator identifies its connection by.
 	VendorID               uint16
diff --git a/server_io.go b/server_io.go
index cde4d06..1aa1449 100644
--- a/server_io.go
+++ b/server_io.go
@@ -68,10 +68,13 @@ func (p *IOProvider[Tin, Tout]) IOWrite(items []CIPItem) error {
 	p.OutMutex.Lock()
 	defer p.OutMutex.Unlock()
 
-	_, err = Unpack(b, p.Out)
+	// a packet that turns out to be too short must not change anything.
+	out := *p.Out
+	_, err = Unpack(b, &out)
 	if err != nil {
 		return fmt.Errorf("problem unpacking data into output struct %w", err)
 	}
+	*p.Out = out
 
 	return nil
 }
diff --git a/server_iochannel.go b/server_iochannel.go
index 2c2d9ff..e525d1e 100644
--- a/server_iochannel.go
+++ b/server_iochannel.go
@@ -20,6 +20,7 @@ import (
 type IOChannelProvider[Tin, Tout any] struct {
 	inMutex     sync.Mutex
 	in          Tin
+	outMutex    sync.Mutex
 	outChannels []chan Tout
 }
 
@@ -70,13 +71,21 @@ func (p *IOChannelProvider[Tin, Tout]) IOWrite(items []CIPItem) error {
 	if err != nil {
 		return fmt.Errorf("problem unpacking data into output struct %w", err)
 	}
-	for i := range p.outChannels {
+	p.outMutex.Lock()
+	outChannels := p.outChannels
+	p.outMutex.Unlock()
+	missed := 0
+	for i := range outChannels {
 		select {
-		case p.outChannels[i] <- out:
+		case outChannels[i] <- out:
 		default:
-			return errors.New("problem sending IOWrite data. channel full?")
+			// nobody is waiting for this one, but the others still get theirs.
+			missed++
 		}
 	}
+	if missed > 0 {
+		return fmt.Errorf("problem sending IOWrite data to %d of %d channels. channel full?", missed, len(outChannels))
+	}
 
 	return nil
 }
@@ -93,6 +102,8 @@ func (p *IOChannelProvider[Tin, Tout]) TagWrite(tag string, value any) error {
 // this output data is what the PLC is writing to us
 func (p *IOChannelProvider[Tin, Tout]) GetOutputDataChannel() <-chan Tout {
 	newout := make(chan Tout)
+	p.outMutex.Lock()
+	defer p.outMutex.Unlock()
 	p.outChannels = append(p.outChannels, newout)
 	return newout
 }
-- 
2.43.0


From ab7125e966b2949e066a92688333a392638257b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:15 +0000
Subject: [PATCH 45/79] fix: decoding does not depend on how a reader chunks
 its data, and a failed write of a serializable value is reported

---
 pack.go | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/pack.go b/pack.go
index 1396c2a..81b1401 100644
--- a/pack.go
+++ b/pack.go
@@ -100,11 +100,7 @@ func Pack(w io.Writer, data any) (int, error) {
 	case Packable:
 		return d.Pack(w)
 	case Serializable:
-		n, err := w.Write(d.Bytes())
-		if err != nil {
-			return 0, nil
-		}
-		return n, nil
+		return w.Write(d.Bytes())
 	}
 
 	// keep track of how many bytes we've written.  This is so we can correct field alignment with padding bytes if needed
@@ -274,7 +270,7 @@ func Unpack(r io.Reader, data any) (n int, err error) {
 			n += s
 			align := p.Align(refType.Elem())
 			if s%align != 0 {
-				s, err = r.Read(make([]byte, align-s%align))
+				s, err = io.ReadFull(r, make([]byte, align-s%align))
 				if err != nil {
 					return n, fmt.Errorf("problem reading slice element padding: %w", err)
 				}
@@ -309,7 +305,7 @@ func Unpack(r io.Reader, data any) (n int, err error) {
 					for ai := 0; ai < l; ai++ {
 						if bitpos == 0 {
 							br := []byte{0}
-							_, err = r.Read(br)
+							_, err = io.ReadFull(r, br)
 							if err != nil {
 								return n, fmt.Errorf("problem reading bool. %w", err)
 							}
@@ -332,7 +328,7 @@ func Unpack(r io.Reader, data any) (n int, err error) {
 				// try to pack bools
 				if bitpos == 0 {
 					br := []byte{0}
-					_, err = r.Read(br)
+					_, err = io.ReadFull(r, br)
 					if err != nil {
 						return n, fmt.Errorf("problem reading packed bool. %w", err)
 					}
@@ -364,7 +360,7 @@ func Unpack(r io.Reader, data any) (n int, err error) {
 		if rem < a && rem > 0 {
 			// need paddding bits
 			pad := make([]byte, rem)
-			_, err = r.Read(pad)
+			_, err = io.ReadFull(r, pad)
 			if err != nil {
 				return
 			}
-- 
2.43.0


From d96e324dafe7df61961e59cfe110b5f9f162db6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:08 +0000
Subject: [PATCH 46/79] fix: in a list of services whose replies do not fit in
 one message only the reads that are too large fail, instead of all of them
 including the writes that were carried out

---
 server_connected.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/server_connected.go b/server_connected.go
index ecaf747..e4939b7 100644
--- a/server_connected.go
+++ b/server_connected.go
@@ -75,9 +75,18 @@ func (h *serverTCPHandler) connectedMulti(connection *serverConnection, items []
 
 	results := make([][]byte, qty)
 	status := CIPStatus_OK
+	room := maxMultiReply - (int(qty)+1)*2 - int(qty)*4
+	if room < 0 {
+		return cipErrorf(CIPStatus_ReplyDataTooLarge, "the replies to %d services do not fit in a message", qty)
+	}
 	for i := range results {
 		request := newItem(cipItem_ConnectedData, data[offsets[i]:offsets[i+1]])
 		results[i] = h.multiService(connection, request)
+		if len(results[i])-4 > room {
+			// what the other services in the list did still has to be reported.
+			results[i] = []byte{results[i][0], 0, byte(CIPStatus_ReplyDataTooLarge), 0}
+		}
+		room -= len(results[i]) - 4
 		if CIPStatus(results[i][2]) != CIPStatus_OK {
 			status = CIPStatus_EmbeddedServiceError
 		}
@@ -86,9 +95,6 @@ func (h *serverTCPHandler) connectedMulti(connection *serverConnection, items []
 	response := newItem(cipItem_ConnectedData, qty)
 	pos := (int(qty) + 1) * 2
 	for i := range results {
-		if pos > math.MaxUint16 {
-			return cipErrorf(CIPStatus_ReplyDataTooLarge, "the replies do not fit in a message")
-		}
 		err = response.Serialize(uint16(pos))
 		if err != nil {
 			return fmt.Errorf("problem building multi service reply: %w", err)
@@ -153,6 +159,9 @@ func readTagPath(request *CIPItem) (string, error) {
 	return tag, nil
 }
 
+// the most data to send in the reply to a list of services.
+const maxMultiReply = 65400
+
 // the most tag data to send in one reply, so that the message it is part of stays below 64 kB.
 const maxTagReadData = 65000
 
-- 
2.43.0


From 47bc73f521359b1d6f142b0f9b7961e8d64ec3e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:18 +0000
Subject: [PATCH 47/79] fix: the symbol list of the server answers what was
 asked: other classes are refused, the start instance and the attributes are
 those of the request, arrays have their dimension, and what does not fit
 comes in another reply

---
 server.go             | 44 +++++++++++++++++++++++++++++++++++----
 server_router.go      | 14 +++++++++----
 server_unconnected.go | 48 +++++++++++++++++++++++++++++--------------
 3 files changed, 83 insertions(+), 23 deletions(-)

diff --git a/server.go b/server.go
index e9fd6a1..53d5621 100644
--- a/server.go
+++ b/server.go
@@ -541,9 +541,42 @@ func (h *serverTCPHandler) connectedGetAttributeAll(items []CIPItem) error {
 //	[num_attrs u16] [attr u16] ... (typically 2: Symbol Name + Symbol Type)
 //
 // The response is a list of {InstanceID u32, NameLen u16, Name bytes, Type u16}
-// triplets — the standard Logix wire format that pycomm3.LogixDriver
-// expects in its _get_symbols_from_controller() loop.
+// triplets if those are the attributes asked for — the standard Logix wire
+// format that pycomm3.LogixDriver expects in its _get_symbols_from_controller() loop.
+//
+// items[1] is positioned behind the service code.
 func (h *serverTCPHandler) connectedSymbolList(connection *serverConnection, items []CIPItem) error {
+	item := items[1]
+	pathSize, err := item.Byte()
+	if err != nil {
+		return cipErrorf(CIPStatus_NotEnoughData, "symbol list: read path size: %w", err)
+	}
+	path := make([]byte, int(pathSize)*2)
+	err = item.DeSerialize(&path)
+	if err != nil {
+		return cipErrorf(CIPStatus_NotEnoughData, "symbol list: read path: %w", err)
+	}
+	// other objects, and the programs that the path may begin with, don't have instances here.
+	class, start, err := parseClassInstancePath(bytes.NewBuffer(path))
+	if err != nil {
+		return cipErrorf(CIPStatus_PathSegmentError, "symbol list: malformed path % x: %w", path, err)
+	}
+	if class != CipObject_Symbol {
+		return cipErrorf(CIPStatus_PathDestinationUnknown, "symbol list: class %v not implemented", class)
+	}
+	count, err := item.Uint16()
+	if err != nil {
+		return cipErrorf(CIPStatus_NotEnoughData, "symbol list: read number of attributes: %w", err)
+	}
+	attributes := make([]uint16, 0)
+	for i := 0; i < int(count); i++ {
+		attribute, err := item.Uint16()
+		if err != nil {
+			return cipErrorf(CIPStatus_NotEnoughData, "symbol list: read attribute: %w", err)
+		}
+		attributes = append(attributes, attribute)
+	}
+
 	provider, err := h.server.Router.Resolve(connection.Path)
 	if err != nil {
 		return cipErrorf(CIPStatus_PathDestinationUnknown, "symbol list: provider lookup: %w", err)
@@ -559,8 +592,11 @@ func (h *serverTCPHandler) connectedSymbolList(connection *serverConnection, ite
 		return h.sendUnitDataReplyWithPayload(CIPService_GetInstanceAttributeList, nil)
 	}
 
-	payload := buildSymbolObjectInstanceListResponse(lister.TagList(), 0)
-	return h.sendUnitDataReplyWithPayload(CIPService_GetInstanceAttributeList, payload)
+	status, payload, err := buildSymbolObjectInstanceListResponse(lister.TagList(), uint32(start), attributes)
+	if err != nil {
+		return fmt.Errorf("symbol list: %w", err)
+	}
+	return h.sendUnitDataReplyWithStatus(CIPService_GetInstanceAttributeList, status, payload)
 }
 
 // sendUnitDataReplyWithPayload is sendUnitDataReply with an additional
diff --git a/server_router.go b/server_router.go
index 9def97e..afc2c1a 100644
--- a/server_router.go
+++ b/server_router.go
@@ -302,16 +302,22 @@ func (p *MapTagProvider) TagList() []ServerTagInfo {
 	tags := make([]ServerTagInfo, 0, len(p.Data))
 	for name, val := range p.Data {
 		typ, _ := GoVarToCIPType(val)
-		tags = append(tags, ServerTagInfo{Name: name, Type: typ})
+		info := ServerTagInfo{Name: name, Type: typ}
+		if v := reflect.ValueOf(val); v.Kind() == reflect.Slice {
+			info.Elements = v.Len()
+		}
+		tags = append(tags, info)
 	}
 	return tags
 }
 
 // ServerTagInfo is the minimum metadata the server needs to render a Symbol Object
-// instance: the user-visible tag name and the wire-level CIP type code.
+// instance: the user-visible tag name, the wire-level CIP type code, and the number
+// of elements if it is an array.
 type ServerTagInfo struct {
-	Name string
-	Type CIPType
+	Name     string
+	Type     CIPType
+	Elements int
 }
 
 // TagLister is an optional interface a CIPEndpoint can implement to expose
diff --git a/server_unconnected.go b/server_unconnected.go
index e463140..4fc55f3 100644
--- a/server_unconnected.go
+++ b/server_unconnected.go
@@ -252,17 +252,16 @@ func (h *serverTCPHandler) unconnectedGetAttributeAll(item CIPItem) error {
 // buildSymbolObjectInstanceListResponse renders the payload for the
 // Symbol Object (Class 0x6B) Get_Instance_Attribute_List service (0x55).
 // Logix exposes every tag as one instance of Class 0x6B. The response
-// is a stream of {InstanceID uint32, SymbolName SHORT_STRING, SymbolType
-// uint16} triplets in instance-id order. We synthesize stable
+// is a stream of an InstanceID uint32 followed by the requested attributes
+// for each of the tags, in instance-id order. We synthesize stable
 // instance IDs from the alphabetical position of the tag name so the
 // same provider produces the same IDs across restarts — clients cache
 // these IDs for subsequent reads.
 //
-// startInstance lets callers iterate when the response would exceed the
-// transport limit (~500 bytes). For now Server_Class3 exposes only a
-// handful of tags so we emit everything in one reply, but the loop is
-// written so a future paginator can drop in without restructuring.
-func buildSymbolObjectInstanceListResponse(tags []ServerTagInfo, startInstance uint32) []byte {
+// The first tag in the response is the one with the instance ID startInstance.
+// If the tags don't all fit in one response the status is PartialTransfer, and
+// the client asks for the rest with another startInstance.
+func buildSymbolObjectInstanceListResponse(tags []ServerTagInfo, startInstance uint32, attributes []uint16) (CIPStatus, []byte, error) {
 	// Stable ordering keeps instance IDs deterministic across reads.
 	sort.Slice(tags, func(i, j int) bool { return tags[i].Name < tags[j].Name })
 
@@ -272,16 +271,35 @@ func buildSymbolObjectInstanceListResponse(tags []ServerTagInfo, startInstance u
 		if instanceID < startInstance {
 			continue
 		}
-		_ = binary.Write(&buf, binary.LittleEndian, instanceID)
-		name := tag.Name
-		if len(name) > 255 {
-			name = name[:255]
+		var entry bytes.Buffer
+		_ = binary.Write(&entry, binary.LittleEndian, instanceID)
+		for _, attribute := range attributes {
+			switch attribute {
+			case 1: // symbol name
+				name := tag.Name
+				if len(name) > 255 {
+					name = name[:255]
+				}
+				_ = binary.Write(&entry, binary.LittleEndian, uint16(len(name)))
+				entry.WriteString(name)
+			case 2: // symbol type
+				typ := uint16(tag.Type)
+				if tag.Elements > 0 {
+					typ |= 1 << 13 // one dimension
+				}
+				_ = binary.Write(&entry, binary.LittleEndian, typ)
+			case 8: // array dimensions
+				_ = binary.Write(&entry, binary.LittleEndian, [3]uint32{uint32(tag.Elements)})
+			default:
+				return 0, nil, cipErrorf(CIPStatus_AttributeNotSupported, "symbols don't have attribute %d", attribute)
+			}
+		}
+		if buf.Len() > 0 && buf.Len()+entry.Len() > maxTagReadData {
+			return CIPStatus_PartialTransfer, buf.Bytes(), nil
 		}
-		_ = binary.Write(&buf, binary.LittleEndian, uint16(len(name)))
-		buf.WriteString(name)
-		_ = binary.Write(&buf, binary.LittleEndian, uint16(tag.Type))
+		buf.Write(entry.Bytes())
 	}
-	return buf.Bytes()
+	return CIPStatus_OK, buf.Bytes(), nil
 }
 
 // buildProgramObjectGetAttributesAllResponse renders the payload for
-- 
2.43.0


From 5f37af6411b16d9b809b36bb21cce3235b2862ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:15 +0000
Subject: [PATCH 48/79] fix: a negative value is not taken for a large unsigned
 one (or the other way around) when it is written to an array of another type

---
 server_router.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/server_router.go b/server_router.go
index afc2c1a..67dbbf8 100644
--- a/server_router.go
+++ b/server_router.go
@@ -261,6 +261,11 @@ func parseElementTag(tag string) (base string, idx int, hasElem bool) {
 	return tag[:open], n, true
 }
 
+// negative tells whether v is a number below 0.
+func negative(v reflect.Value) bool {
+	return v.CanInt() && v.Int() < 0 || v.CanFloat() && v.Float() < 0
+}
+
 // convertToElement coerces a CIP-decoded scalar (often arriving as
 // int32 / float32 / string regardless of the destination slice type)
 // into the element type of an existing typed slice. Returns the
@@ -276,6 +281,9 @@ func convertToElement(value any, target reflect.Type) (any, error) {
 		converted := v.Convert(target)
 		// the value has to fit. Floats only have to be of the right magnitude.
 		fits := isString || reflect.DeepEqual(converted.Convert(v.Type()).Interface(), value)
+		if negative(converted) != negative(v) {
+			fits = false // converting back makes up for what the sign bit is taken for
+		}
 		if converted.CanFloat() {
 			fits = !math.IsInf(converted.Float(), 0) || (v.CanFloat() && math.IsInf(v.Float(), 0))
 		}
-- 
2.43.0


From 8c48e6b2d147c1befc62ce6a0fcff6d24fa54f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:15 +0000
Subject: [PATCH 49/79] fix: a response to another request (sent twice or late)
 is not taken for the response to the current one

---
 sendreceive.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/sendreceive.go b/sendreceive.go
index aa8b5ed..013227a 100644
--- a/sendreceive.go
+++ b/sendreceive.go
@@ -114,6 +114,11 @@ func (client *Client) send_recv_data(cmd CIPCommand, msgs ...any) (eipHeader, *b
 		client.dropConnection()
 		return hdr, buf, fmt.Errorf("request rejected with encapsulation status 0x%X resulting in forced disconnect", hdr.Status)
 	}
+	if !answers(cmd, buffer, hdr, buf.Bytes()) {
+		// it belongs to another request, so the one for this request may still be on its way.
+		client.dropConnection()
+		return hdr, buf, fmt.Errorf("received the response to another request resulting in forced disconnect")
+	}
 	return hdr, buf, nil
 }
 
@@ -127,6 +132,19 @@ func (client *Client) addressedToCurrentConnection(msg []byte) bool {
 	return binary.LittleEndian.Uint32(msg[addressOffset:]) == client.OTNetworkConnectionID
 }
 
+// answers reports whether a response can be the one to the request msg. Connected responses repeat the sequence number of
+// their request.
+func answers(cmd CIPCommand, msg []byte, hdr eipHeader, response []byte) bool {
+	if hdr.Command != cmd {
+		return false
+	}
+	const sequenceOffset = 8 + 4 + 4 + 4 // item list header, address item with a connection id, item header
+	if cmd != cipCommandSendUnitData || len(msg) < 24+sequenceOffset+2 || len(response) < sequenceOffset+2 {
+		return true
+	}
+	return binary.LittleEndian.Uint16(response[sequenceOffset:]) == binary.LittleEndian.Uint16(msg[24+sequenceOffset:])
+}
+
 // dropConnection closes the connection after a failed exchange. A response that is still outstanding
 // must never be taken for the response to a later request, so the caller has to hold the mutex from
 // before the request was sent until this returns.
-- 
2.43.0


From 338af40222aaeed0a1b67235e1f23c208e102a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:03 +0000
Subject: [PATCH 50/79] fix: a result of a multi read that was cut short is an
 error and does not take its value from the next result

---
 read.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/read.go b/read.go
index 7cb353f..d29b61b 100644
--- a/read.go
+++ b/read.go
@@ -957,7 +957,18 @@ func (client *Client) readList(tags []tagDesc) ([]any, error) {
 		if offset > len(rb) {
 			return nil, fmt.Errorf("result %d is outside of the response", i)
 		}
-		myBytes := bytes.NewBuffer(rb[offset:])
+		// a result must not run into the one behind it.
+		end := len(rb)
+		if i+1 < len(offset_table) && offset_table[i+1] >= offset_table[i] {
+			end = min(end, int(offset_table[i+1])+10)
+		} else {
+			for _, other := range offset_table {
+				if other > offset_table[i] {
+					end = min(end, int(other)+10)
+				}
+			}
+		}
+		myBytes := bytes.NewBuffer(rb[offset:end])
 		rHdr := msgMultiReadResult{}
 		err = binary.Read(myBytes, binary.LittleEndian, &rHdr)
 		if err != nil {
-- 
2.43.0


From 7b0fed40800d877182fd4c7af00397f57bf32aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:02 +0000
Subject: [PATCH 51/79] fix: a template definition that was cut short in a
 member name is an error

---
 listmembers.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/listmembers.go b/listmembers.go
index bf6f4c5..cb5b0f8 100644
--- a/listmembers.go
+++ b/listmembers.go
@@ -341,7 +341,7 @@ func (client *Client) listMembers(l *tagListing, str_instance uint32) (UDTDescri
 	for i := 0; i < int(template_info.MemberCount); i++ {
 
 		fieldname, err := data2.ReadString(0x00)
-		if err != nil && fieldname == "" {
+		if err != nil && (fieldname == "" || uint32(len(definition)) < definition_length) {
 			return UDTDescriptor{}, fmt.Errorf("couldn't read field name. %w", err)
 		}
 		fieldname = strings.TrimSuffix(fieldname, "\x00")
-- 
2.43.0


From 5feed1ede76a334e393a6189563a1915d8a11ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:22 +0000
Subject: [PATCH 52/79] fix: number the tags of a datatable buffer like the
 controller does

Indices are counted by additions and never used again; unsent tags are removed locally.
---
 datatable.go | 44 ++++++++++++++++++++++++++------------------
 1 file changed, 26 insertions(+), 18 deletions(-)

diff --git a/datatable.go b/datatable.go
index d86568b..28a88b5 100644
--- a/datatable.go
+++ b/datatable.go
@@ -43,6 +43,8 @@ type DataTableBuffer struct {
 	// Value: the expanded individual tag names (e.g. ["EXAMPLE[1,0]", ..., "EXAMPLE[1,4]"])
 	expansions map[string][]string
 
+	lastIndex uint16 // index the controller assigned to the tag it added last
+
 	created bool // true after successful Create
 	synched bool // internal flag to track if tags have been added on this side but not yet sent to PLC via AddTag/AddTags
 }
@@ -342,12 +344,12 @@ func (buf *DataTableBuffer) AddTagRef(tagName string, data any) error {
 	}
 
 	buf.synched = false
+	defer buf.number()
 
 	buf.tags = append(buf.tags, DataTableBufferTag{
 		Name:         tagName,
 		CIPType:      cipType,
 		DataTypeSize: typeSize,
-		index:        uint16(len(buf.tags) + 1),
 		ioi:          ioi.Bytes(),
 		batchID:      0,
 		synched:      false,
@@ -378,12 +380,12 @@ func (buf *DataTableBuffer) AddTag(tagName string, cipType CIPType) error {
 	}
 
 	buf.synched = false
+	defer buf.number()
 
 	buf.tags = append(buf.tags, DataTableBufferTag{
 		Name:         tagName,
 		CIPType:      cipType,
 		DataTypeSize: typeSize,
-		index:        uint16(len(buf.tags) + 1),
 		ioi:          ioi.Bytes(),
 		batchID:      0,
 		synched:      false,
@@ -412,10 +414,23 @@ func (buf *DataTableBuffer) SyncTags() error {
 		buf.tags[entry.index].batchID = batchID
 		buf.tags[entry.index].synched = true
 	}
+	buf.lastIndex += uint16(len(entries))
 	buf.synched = true
 	return nil
 }
 
+// number gives the tags that have not been sent to the PLC yet the indices they are going to get.
+// The PLC counts the tags in the order they are added and does not use the index of a removed tag again.
+func (buf *DataTableBuffer) number() {
+	index := buf.lastIndex
+	for i := range buf.tags {
+		if !buf.tags[i].synched {
+			index++
+			buf.tags[i].index = index
+		}
+	}
+}
+
 // AddTags adds multiple tags to the datatable buffer in a single 0x4E call.
 // Each tag carries its own dataTypeSize and IOI EPath — mixed type sizes are
 // supported in one call (confirmed via pcap).
@@ -453,29 +468,18 @@ func (buf *DataTableBuffer) AddTags(tags map[string]CIPType) error {
 		})
 	}
 
-	// Build entries for a single DataTableAddTags call.
-	entries := make([]addTagEntry, len(prepared))
-	for i, t := range prepared {
-		entries[i] = addTagEntry{
-			dataTypeSize: t.typeSize,
-			ioi:          t.ioi,
-		}
-	}
-
-	// Assign sequential indices and record the batch ID for read parsing.
-	baseIndex := uint16(len(buf.tags) + 1)
-	for i, t := range prepared {
+	for _, t := range prepared {
 		buf.tags = append(buf.tags, DataTableBufferTag{
 			Name:         t.name,
 			CIPType:      t.cipType,
 			DataTypeSize: t.typeSize,
-			index:        baseIndex + uint16(i),
 			ioi:          t.ioi,
 			batchID:      0,
 			synched:      false,
 		})
 	}
 	buf.synched = false
+	buf.number()
 
 	return nil
 }
@@ -663,12 +667,16 @@ func (buf *DataTableBuffer) RemoveTag(tagName string) error {
 		return fmt.Errorf("tag %q not found in buffer", tagName)
 	}
 
-	err := buf.client.DataTableRemoveTag(buf.instanceID, buf.tags[idx].index)
-	if err != nil {
-		return fmt.Errorf("could not remove tag %q from buffer: %w", tagName, err)
+	// the PLC does not know tags that have not been sent to it yet.
+	if buf.tags[idx].synched {
+		err := buf.client.DataTableRemoveTag(buf.instanceID, buf.tags[idx].index)
+		if err != nil {
+			return fmt.Errorf("could not remove tag %q from buffer: %w", tagName, err)
+		}
 	}
 
 	buf.tags = append(buf.tags[:idx], buf.tags[idx+1:]...)
+	buf.number()
 	return nil
 }
 
-- 
2.43.0


From 603c0846c9da9c1b40b2461e193b9394f7e8b856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:37 +0000
Subject: [PATCH 53/79] fix: send the tags of a datatable buffer in requests
 that fit

---
 datatable.go | 34 ++++++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/datatable.go b/datatable.go
index 28a88b5..4697498 100644
--- a/datatable.go
+++ b/datatable.go
@@ -406,19 +406,37 @@ func (buf *DataTableBuffer) SyncTags() error {
 		entries = append(entries, addTagEntry{buf.tags[i].DataTypeSize, buf.tags[i].ioi, i})
 	}
 
-	batchID, err := buf.client.DataTableAddTags(buf.instanceID, entries)
-	if err != nil {
-		return fmt.Errorf("could not add tags to buffer: %w", err)
-	}
-	for _, entry := range entries {
-		buf.tags[entry.index].batchID = batchID
-		buf.tags[entry.index].synched = true
+	for len(entries) > 0 {
+		n := buf.addable(entries)
+		batchID, err := buf.client.DataTableAddTags(buf.instanceID, entries[:n])
+		if err != nil {
+			return fmt.Errorf("could not add tags to buffer: %w", err)
+		}
+		for _, entry := range entries[:n] {
+			buf.tags[entry.index].batchID = batchID
+			buf.tags[entry.index].synched = true
+		}
+		buf.lastIndex += uint16(n)
+		entries = entries[n:]
 	}
-	buf.lastIndex += uint16(len(entries))
 	buf.synched = true
 	return nil
 }
 
+// addable returns how many of the entries can be sent in one 0x4E request. The tag count
+// of the request is a single byte and the request has to fit in the connection.
+func (buf *DataTableBuffer) addable(entries []addTagEntry) int {
+	// sequence count, service, path size, path, header and tag count
+	size := 2 + 2 + len(dataTablePath(buf.instanceID)) + 5
+	for i, e := range entries {
+		size += 3 + len(e.ioi)
+		if i > 0 && (i == 255 || size > int(buf.client.ConnectionSize)) {
+			return i
+		}
+	}
+	return len(entries)
+}
+
 // number gives the tags that have not been sent to the PLC yet the indices they are going to get.
 // The PLC counts the tags in the order they are added and does not use the index of a removed tag again.
 func (buf *DataTableBuffer) number() {
-- 
2.43.0


From afdec91643d002e7b8654f9d80b1e60d96298523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:42 +0000
Subject: [PATCH 54/79] fix: check the batch headers and the end of datatable
 buffer reads

---
 datatable.go | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/datatable.go b/datatable.go
index 4697498..f8c81ed 100644
--- a/datatable.go
+++ b/datatable.go
@@ -559,11 +559,15 @@ func (buf *DataTableBuffer) ReadAll() (map[string]any, error) {
 	result := make(map[string]any, len(sorted))
 	currentBatch := uint16(0)
 	for _, tag := range sorted {
-		// When we hit a new batch, skip the 2-byte entry header.
+		// A new batch starts with its 2-byte entry header.
 		if tag.batchID != currentBatch {
-			if _, err := resp.Uint16(); err != nil {
+			batchID, err := resp.Uint16()
+			if err != nil {
 				return nil, fmt.Errorf("could not read batch header before tag %q: %w", tag.Name, err)
 			}
+			if batchID != tag.batchID {
+				return nil, fmt.Errorf("unexpected batch %d before tag %q of batch %d", batchID, tag.Name, tag.batchID)
+			}
 			currentBatch = tag.batchID
 		}
 
@@ -591,6 +595,9 @@ func (buf *DataTableBuffer) ReadAll() (map[string]any, error) {
 			}
 		}
 	}
+	if resp.Pos < len(resp.Data) {
+		return nil, fmt.Errorf("%d bytes left over after the last tag in the buffer", len(resp.Data)-resp.Pos)
+	}
 
 	return result, nil
 }
@@ -646,11 +653,15 @@ func (buf *DataTableBuffer) ReadAllRaw() (map[string][]byte, error) {
 	result := make(map[string][]byte, len(sorted))
 	currentBatch := uint16(0)
 	for _, tag := range sorted {
-		// When we hit a new batch, skip the 2-byte entry header (see ReadAll).
+		// A new batch starts with its 2-byte entry header.
 		if tag.batchID != currentBatch {
-			if _, err := resp.Uint16(); err != nil {
+			batchID, err := resp.Uint16()
+			if err != nil {
 				return nil, fmt.Errorf("could not read batch header before tag %q: %w", tag.Name, err)
 			}
+			if batchID != tag.batchID {
+				return nil, fmt.Errorf("unexpected batch %d before tag %q of batch %d", batchID, tag.Name, tag.batchID)
+			}
 			currentBatch = tag.batchID
 		}
 
@@ -663,6 +674,9 @@ func (buf *DataTableBuffer) ReadAllRaw() (map[string][]byte, error) {
 		resp.Pos += int(tag.DataTypeSize)
 		result[tag.Name] = raw
 	}
+	if resp.Pos < len(resp.Data) {
+		return nil, fmt.Errorf("%d bytes left over after the last tag in the buffer", len(resp.Data)-resp.Pos)
+	}
 
 	return result, nil
 }
-- 
2.43.0


From 293b0fe32ce89cfd10ef20953eff050d9549f67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:48 +0000
Subject: [PATCH 55/79] fix: refuse datatable buffers whose instance id went to
 another buffer

---
 client.go    |  5 ++++
 datatable.go | 70 +++++++++++++++++++++++++++++++++++++++++++---------
 2 files changed, 63 insertions(+), 12 deletions(-)

diff --git a/client.go b/client.go
index 3445068..cfddcd5 100644
--- a/client.go
+++ b/client.go
@@ -107,6 +107,11 @@ type Client struct {
 	cancel_keepalive chan struct{}
 	keepAliveLock    sync.Mutex
 
+	// datatable buffers by the instance ID the controller assigned. The controller may assign the ID of a
+	// buffer again once it has lost that buffer. Held during requests to buffers.
+	dataTables    map[uint16]*DataTableBuffer
+	dataTableLock sync.Mutex
+
 	// this just lets us not have to re-process tag strings.
 	ioi_cache      map[string]*tagIOI
 	ioi_cache_lock sync.Mutex
diff --git a/datatable.go b/datatable.go
index f8c81ed..1d83608 100644
--- a/datatable.go
+++ b/datatable.go
@@ -138,6 +138,15 @@ func decodeDataTableValue(cipType CIPType, raw []byte) (any, error) {
 // The request data is hardcoded to 01 00 03 00 03 00.
 // Returns the instance ID assigned by the PLC.
 func (client *Client) CreateDataTableBuffer() (uint16, error) {
+	return client.createDataTable(nil)
+}
+
+// createDataTable creates a buffer on the PLC for buf. A buffer that has had the same instance ID
+// does not exist any more.
+func (client *Client) createDataTable(buf *DataTableBuffer) (uint16, error) {
+	client.dataTableLock.Lock()
+	defer client.dataTableLock.Unlock()
+
 	err := client.checkConnection()
 	if err != nil {
 		return 0, fmt.Errorf("could not create datatable buffer: %w", err)
@@ -156,6 +165,13 @@ func (client *Client) CreateDataTableBuffer() (uint16, error) {
 		return 0, fmt.Errorf("could not read instance ID from create response: %w", err)
 	}
 
+	delete(client.dataTables, instanceID)
+	if buf != nil {
+		if client.dataTables == nil {
+			client.dataTables = make(map[uint16]*DataTableBuffer)
+		}
+		client.dataTables[instanceID] = buf
+	}
 	return instanceID, nil
 }
 
@@ -310,17 +326,38 @@ func (client *Client) DataTableRemoveTag(instanceID uint16, tagIndex uint16) err
 //	buf.AddTag("MyDINT", gologix.CIPTypeDINT)
 //	values, err := buf.ReadAll()
 func (client *Client) NewDataTableBuffer() (*DataTableBuffer, error) {
-	instanceID, err := client.CreateDataTableBuffer()
-	if err != nil {
-		return nil, err
-	}
-	return &DataTableBuffer{
+	buf := &DataTableBuffer{
 		client:     client,
-		instanceID: instanceID,
 		tags:       make([]DataTableBufferTag, 0),
 		created:    true,
 		expansions: make(map[string][]string),
-	}, nil
+	}
+	instanceID, err := client.createDataTable(buf)
+	if err != nil {
+		return nil, err
+	}
+	buf.instanceID = instanceID
+	return buf, nil
+}
+
+// request runs a request to the buffer, unless the PLC has lost the buffer
+// and given its instance ID to another one.
+func (buf *DataTableBuffer) request(f func() error) error {
+	buf.client.dataTableLock.Lock()
+	defer buf.client.dataTableLock.Unlock()
+	if buf.client.dataTables[buf.instanceID] != buf {
+		return fmt.Errorf("datatable buffer %d does not exist any more", buf.instanceID)
+	}
+	return f()
+}
+
+// read reads all tag values from the PLC.
+func (buf *DataTableBuffer) read() (resp *CIPItem, err error) {
+	err = buf.request(func() error {
+		resp, err = buf.client.DataTableReadBuffer(buf.instanceID)
+		return err
+	})
+	return resp, err
 }
 
 // Add a tag to the datatable buffer and associate it with a reference to a Go variable.
@@ -408,7 +445,11 @@ func (buf *DataTableBuffer) SyncTags() error {
 
 	for len(entries) > 0 {
 		n := buf.addable(entries)
-		batchID, err := buf.client.DataTableAddTags(buf.instanceID, entries[:n])
+		var batchID uint16
+		err := buf.request(func() (err error) {
+			batchID, err = buf.client.DataTableAddTags(buf.instanceID, entries[:n])
+			return err
+		})
 		if err != nil {
 			return fmt.Errorf("could not add tags to buffer: %w", err)
 		}
@@ -544,7 +585,7 @@ func (buf *DataTableBuffer) ReadAll() (map[string]any, error) {
 		}
 	}
 
-	resp, err := buf.client.DataTableReadBuffer(buf.instanceID)
+	resp, err := buf.read()
 	if err != nil {
 		return nil, err
 	}
@@ -639,7 +680,7 @@ func (buf *DataTableBuffer) ReadAllRaw() (map[string][]byte, error) {
 		}
 	}
 
-	resp, err := buf.client.DataTableReadBuffer(buf.instanceID)
+	resp, err := buf.read()
 	if err != nil {
 		return nil, err
 	}
@@ -701,7 +742,9 @@ func (buf *DataTableBuffer) RemoveTag(tagName string) error {
 
 	// the PLC does not know tags that have not been sent to it yet.
 	if buf.tags[idx].synched {
-		err := buf.client.DataTableRemoveTag(buf.instanceID, buf.tags[idx].index)
+		err := buf.request(func() error {
+			return buf.client.DataTableRemoveTag(buf.instanceID, buf.tags[idx].index)
+		})
 		if err != nil {
 			return fmt.Errorf("could not remove tag %q from buffer: %w", tagName, err)
 		}
@@ -719,7 +762,10 @@ func (buf *DataTableBuffer) Close() error {
 	if !buf.created {
 		return nil
 	}
-	err := buf.client.DeleteDataTableBuffer(buf.instanceID)
+	err := buf.request(func() error {
+		delete(buf.client.dataTables, buf.instanceID)
+		return buf.client.DeleteDataTableBuffer(buf.instanceID)
+	})
 	buf.created = false
 	if err != nil {
 		return fmt.Errorf("could not delete datatable buffer: %w", err)
-- 
2.43.0


From 6d6cc99ff346644d410ad1facaf9a1f578ebc598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:53 +0000
Subject: [PATCH 56/79] fix: refuse bits in datatable buffers

---
 datatable.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/datatable.go b/datatable.go
index 1d83608..8e5fe93 100644
--- a/datatable.go
+++ b/datatable.go
@@ -370,7 +370,7 @@ func (buf *DataTableBuffer) AddTagRef(tagName string, data any) error {
 	}
 	cipType, _ := GoVarToCIPType(data)
 
-	ioi, err := buf.client.newIOI(tagName, cipType)
+	ioi, err := buf.newIOI(tagName, cipType)
 	if err != nil {
 		return fmt.Errorf("could not create IOI for tag %q: %w", tagName, err)
 	}
@@ -406,7 +406,7 @@ func (buf *DataTableBuffer) AddTag(tagName string, cipType CIPType) error {
 		return fmt.Errorf("datatable buffer not created")
 	}
 
-	ioi, err := buf.client.newIOI(tagName, cipType)
+	ioi, err := buf.newIOI(tagName, cipType)
 	if err != nil {
 		return fmt.Errorf("could not create IOI for tag %q: %w", tagName, err)
 	}
@@ -431,6 +431,18 @@ func (buf *DataTableBuffer) AddTag(tagName string, cipType CIPType) error {
 	return nil
 }
 
+// newIOI returns the path of a tag. A buffer holds whole elements only, not single bits of them.
+func (buf *DataTableBuffer) newIOI(tagName string, cipType CIPType) (*tagIOI, error) {
+	ioi, err := buf.client.newIOI(tagName, cipType)
+	if err != nil {
+		return nil, err
+	}
+	if ioi.BitAccess {
+		return nil, fmt.Errorf("bits can not be added to datatable buffers")
+	}
+	return ioi, nil
+}
+
 // Run through the tags in the buffer that have not yet been sent to the PLC and send them in a batch via DataTableAddTags.
 // marking them as synched if successful. This is called automatically by ReadAll if there are unsynched tags, but can be
 // called manually if you want to control when the tags are sent to the PLC (e.g. to group multiple AddTag calls into one batch).
@@ -511,7 +523,7 @@ func (buf *DataTableBuffer) AddTags(tags map[string]CIPType) error {
 	// Resolve IOI and type size for each tag.
 	prepared := make([]preparedTag, 0, len(tags))
 	for name, cipType := range tags {
-		ioi, err := buf.client.newIOI(name, cipType)
+		ioi, err := buf.newIOI(name, cipType)
 		if err != nil {
 			return fmt.Errorf("could not create IOI for tag %q: %w", name, err)
 		}
-- 
2.43.0


From ba2ed8cef7c77d414f9e7183ba93a1cadc379e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:59 +0000
Subject: [PATCH 57/79] fix: AddTaggedStruct: embedded fields, non-pointers and
 tags added before

---
 datatable.go | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/datatable.go b/datatable.go
index 8e5fe93..c015582 100644
--- a/datatable.go
+++ b/datatable.go
@@ -861,14 +861,12 @@ func (buf *DataTableBuffer) AddTaggedStruct(str any, args ...any) error {
 	}
 
 	// Reflect over struct fields
-	T := reflect.TypeOf(str)
-	if T.Kind() == reflect.Ptr {
-		T = T.Elem()
-	}
 	v := reflect.ValueOf(str)
-	if v.Kind() == reflect.Ptr {
-		v = v.Elem()
+	if v.Kind() != reflect.Ptr || v.Elem().Kind() != reflect.Struct {
+		return fmt.Errorf("expected a pointer to a struct, got %T", str)
 	}
+	v = v.Elem()
+	T := v.Type()
 
 	vf := reflect.VisibleFields(T)
 	tagMap := make(map[string]CIPType)
@@ -883,7 +881,13 @@ func (buf *DataTableBuffer) AddTaggedStruct(str any, args ...any) error {
 		if args != nil {
 			tagPath = formatName(tagPath, args...)
 		}
-		fieldVal := v.Field(i)
+		fieldVal, err := v.FieldByIndexErr(field.Index)
+		if err != nil {
+			return fmt.Errorf("could not access field %s: %w", field.Name, err)
+		}
+		if !fieldVal.CanSet() {
+			return fmt.Errorf("field %s with tag %q is not exported", field.Name, tagPath)
+		}
 		cipType, elements := GoVarToCIPType(fieldVal.Interface())
 
 		// Handle slices/arrays (multi-element tags)
@@ -905,13 +909,14 @@ func (buf *DataTableBuffer) AddTaggedStruct(str any, args ...any) error {
 	}
 
 	// Add tags to buffer
+	first := len(buf.tags)
 	err := buf.AddTags(tagMap)
 	if err != nil {
 		return err
 	}
 
-	// Set Var pointers for each tag
-	for i := range buf.tags {
+	// Set Var pointers for each tag added
+	for i := first; i < len(buf.tags); i++ {
 		if ptr, ok := varPtrs[buf.tags[i].Name]; ok {
 			buf.tags[i].Var = ptr
 		}
-- 
2.43.0


From bcc00cf25499231ee028a935c73488588ebfbae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:04 +0000
Subject: [PATCH 58/79] fix: do not cut custom strings longer than 82 in
 datatable buffers

---
 datatable.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/datatable.go b/datatable.go
index c015582..049bae6 100644
--- a/datatable.go
+++ b/datatable.go
@@ -119,7 +119,8 @@ func decodeDataTableValue(cipType CIPType, raw []byte) (any, error) {
 		if strLen > uint32(len(raw)-4) {
 			strLen = uint32(len(raw) - 4)
 		}
-		if strLen > 82 {
+		if len(raw) == 88 && strLen > 82 {
+			// standard string: the last 2 bytes are padding
 			strLen = 82
 		}
 		return string(raw[4 : 4+strLen]), nil
-- 
2.43.0


From 029f9577e6697e66eb413e184c3bb38f616d2ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:09 +0000
Subject: [PATCH 59/79] fix: expand array names without index from element 0

---
 taggroup.go | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/taggroup.go b/taggroup.go
index de7644d..53503a0 100644
--- a/taggroup.go
+++ b/taggroup.go
@@ -124,25 +124,17 @@ func expandArrayTag(baseName string, count int) []string {
 	}
 
 	tag, err := parse_tag_name(baseName)
-	if err != nil || tag.Array_Order == nil || len(tag.Array_Order) == 0 {
-		// No array index found — just return the base name repeated.
-		// This shouldn't happen in normal use.
-		result := make([]string, count)
-		for i := range result {
-			result[i] = baseName
-		}
-		return result
-	}
-
-	// Find the bracket position to reconstruct the name
 	bracketPos := strings.LastIndex(baseName, "[")
-	if bracketPos < 0 {
+	if err != nil || len(tag.Array_Order) == 0 || bracketPos < 0 {
+		// No array index found: the elements start at the first one.
 		result := make([]string, count)
 		for i := range result {
-			result[i] = baseName
+			result[i] = fmt.Sprintf("%s[%d]", baseName, i)
 		}
 		return result
 	}
+
+	// The bracket position lets us reconstruct the name
 	prefix := baseName[:bracketPos]
 
 	lastDim := len(tag.Array_Order) - 1
-- 
2.43.0


From 3fd4eefbabe897bb44b25eb2bf696fc775c3e844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:15 +0000
Subject: [PATCH 60/79] fix: drop the expansion of an array when an element is
 removed from the buffer

---
 datatable.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/datatable.go b/datatable.go
index 049bae6..92cdfdb 100644
--- a/datatable.go
+++ b/datatable.go
@@ -765,6 +765,21 @@ func (buf *DataTableBuffer) RemoveTag(tagName string) error {
 
 	buf.tags = append(buf.tags[:idx], buf.tags[idx+1:]...)
 	buf.number()
+
+	// ReadAllTyped can not combine the elements of an array any more when one of them is gone.
+	for _, tag := range buf.tags {
+		if tag.Name == tagName {
+			return nil
+		}
+	}
+	for base, expanded := range buf.expansions {
+		for _, name := range expanded {
+			if name == tagName {
+				delete(buf.expansions, base)
+				break
+			}
+		}
+	}
 	return nil
 }
 
-- 
2.43.0


From 7662a9a2c708f49da85c5d2895266010bf3ea268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:20 +0000
Subject: [PATCH 61/79] fix: record the expansions of a tag group only when its
 tags were added

---
 datatable.go | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/datatable.go b/datatable.go
index 92cdfdb..39cd3f7 100644
--- a/datatable.go
+++ b/datatable.go
@@ -828,23 +828,36 @@ func (buf *DataTableBuffer) AddTagGroup(group *TagGroup, args ...any) error {
 
 	// Collect all resolved tag names with their types for batched AddTags.
 	tagMap := make(map[string]CIPType)
+	expansions := make(map[string][]string)
 
 	for _, def := range group.defs {
 		resolvedName := formatName(def.Name, args...)
 
 		if def.Elements > 1 {
 			expanded := expandArrayTag(resolvedName, def.Elements)
-			buf.expansions[resolvedName] = expanded
+			expansions[resolvedName] = expanded
 			for _, name := range expanded {
 				tagMap[name] = def.Type
 			}
 		} else {
-			buf.expansions[resolvedName] = []string{resolvedName}
+			expansions[resolvedName] = []string{resolvedName}
 			tagMap[resolvedName] = def.Type
 		}
 	}
 
-	return buf.AddTags(tagMap)
+	err := buf.AddTags(tagMap)
+	if err != nil {
+		return err
+	}
+	buf.expand(expansions)
+	return nil
+}
+
+// expand has ReadAllTyped combine the values of tags that have been added to the buffer.
+func (buf *DataTableBuffer) expand(expansions map[string][]string) {
+	for base, expanded := range expansions {
+		buf.expansions[base] = expanded
+	}
 }
 
 // ---------------------------------------------------------------------------
@@ -887,6 +900,7 @@ func (buf *DataTableBuffer) AddTaggedStruct(str any, args ...any) error {
 	vf := reflect.VisibleFields(T)
 	tagMap := make(map[string]CIPType)
 	varPtrs := make(map[string]any)
+	expansions := make(map[string][]string)
 
 	for i := range vf {
 		field := vf[i]
@@ -909,7 +923,7 @@ func (buf *DataTableBuffer) AddTaggedStruct(str any, args ...any) error {
 		// Handle slices/arrays (multi-element tags)
 		if elements > 1 {
 			expanded := expandArrayTag(tagPath, elements)
-			buf.expansions[tagPath] = expanded
+			expansions[tagPath] = expanded
 			for idx, name := range expanded {
 				tagMap[name] = cipType
 				// For slices, set Var to the element pointer
@@ -918,7 +932,7 @@ func (buf *DataTableBuffer) AddTaggedStruct(str any, args ...any) error {
 				}
 			}
 		} else {
-			buf.expansions[tagPath] = []string{tagPath}
+			expansions[tagPath] = []string{tagPath}
 			tagMap[tagPath] = cipType
 			varPtrs[tagPath] = fieldVal.Addr().Interface()
 		}
@@ -930,6 +944,7 @@ func (buf *DataTableBuffer) AddTaggedStruct(str any, args ...any) error {
 	if err != nil {
 		return err
 	}
+	buf.expand(expansions)
 
 	// Set Var pointers for each tag added
 	for i := first; i < len(buf.tags); i++ {
-- 
2.43.0


From 997cae0b40c9b67e032abc996a96fd8eda0d51cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:55 +0000
Subject: [PATCH 62/79] fix: encode and decode arrays of structures element by
 element, with packed bits and padding

---
 pack.go | 80 +++++++++++++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 78 insertions(+), 2 deletions(-)

diff --git a/pack.go b/pack.go
index 81b1401..71e4f39 100644
--- a/pack.go
+++ b/pack.go
@@ -204,7 +204,13 @@ func Pack(w io.Writer, data any) (int, error) {
 		}
 
 		// finally, if the field is some sub-structure, recurse.  Otherwise we will write the data out
-		if k != reflect.Struct {
+		if holdsStructs(field.Type) {
+			var err error
+			s, err = p.packElements(w, refVal.Field(i))
+			if err != nil {
+				return pos, fmt.Errorf("problem packing array: %w", err)
+			}
+		} else if k != reflect.Struct {
 			err := binary.Write(w, p.Order(), refVal.Field(i).Interface())
 			if err != nil {
 				return pos, fmt.Errorf("problem reading sub-structure. %v", err)
@@ -232,6 +238,71 @@ func Pack(w io.Writer, data any) (int, error) {
 	return pos, nil
 }
 
+// holdsStructs is true for arrays of structures, including those with several dimensions.
+func holdsStructs(t reflect.Type) bool {
+	if t.Kind() != reflect.Array {
+		return false
+	}
+	for t.Kind() == reflect.Array {
+		t = t.Elem()
+	}
+	return t.Kind() == reflect.Struct
+}
+
+// packElements serializes an array of structures. Every element starts at an aligned position.
+func (p cipPack) packElements(w io.Writer, arr reflect.Value) (n int, err error) {
+	for i := 0; i < arr.Len(); i++ {
+		elem := arr.Index(i)
+		var s int
+		if elem.Kind() == reflect.Array {
+			s, err = p.packElements(w, elem)
+		} else {
+			s, err = Pack(w, elem.Interface())
+		}
+		n += s
+		if err != nil {
+			return n, err
+		}
+		a := p.Align(elem.Type())
+		if s%a != 0 {
+			pad := make([]byte, a-s%a)
+			_, err = w.Write(pad)
+			if err != nil {
+				return n, fmt.Errorf("problem writing pad to buffer. %w", err)
+			}
+			n += len(pad)
+		}
+	}
+	return n, nil
+}
+
+// unpackElements is the opposite of packElements.
+func (p cipPack) unpackElements(r io.Reader, arr reflect.Value) (n int, err error) {
+	for i := 0; i < arr.Len(); i++ {
+		elem := arr.Index(i)
+		var s int
+		if elem.Kind() == reflect.Array {
+			s, err = p.unpackElements(r, elem)
+		} else {
+			s, err = Unpack(r, elem.Addr().Interface())
+		}
+		n += s
+		if err != nil {
+			return n, err
+		}
+		a := p.Align(elem.Type())
+		if s%a != 0 {
+			pad := make([]byte, a-s%a)
+			_, err = io.ReadFull(r, pad)
+			if err != nil {
+				return n, fmt.Errorf("problem reading element padding: %w", err)
+			}
+			n += len(pad)
+		}
+	}
+	return n, nil
+}
+
 // deserialize data from r appropriately for CIP messaging
 // obeys alignment and padding rules
 func Unpack(r io.Reader, data any) (n int, err error) {
@@ -368,7 +439,12 @@ func Unpack(r io.Reader, data any) (n int, err error) {
 		}
 
 		// finally, if the field is some sub-structure, recurse.  Otherwise we will write the data out
-		if k != reflect.Struct {
+		if holdsStructs(field.Type) {
+			s, err = p.unpackElements(r, refVal.Field(i))
+			if err != nil {
+				return
+			}
+		} else if k != reflect.Struct {
 			//binary.Read(r, p.Order(), refVal.Field(i).Interface())
 			err = binary.Read(r, p.Order(), refVal.Field(i).Addr().Interface())
 			if err != nil {
-- 
2.43.0


From 3afb15840c11d095e0fb3b89dbc9480e0a550692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:57 +0000
Subject: [PATCH 63/79] fix: encode and decode all status bits of timers

---
 lgxtypes/timer.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/lgxtypes/timer.go b/lgxtypes/timer.go
index 6b6afd7..e4dce71 100644
--- a/lgxtypes/timer.go
+++ b/lgxtypes/timer.go
@@ -35,6 +35,18 @@ func (t TIMER) Pack(w io.Writer) (int, error) {
 	if t.DN {
 		CtrlWord |= 1 << 29
 	}
+	if t.FS {
+		CtrlWord |= 1 << 28
+	}
+	if t.LS {
+		CtrlWord |= 1 << 27
+	}
+	if t.OV {
+		CtrlWord |= 1 << 26
+	}
+	if t.ER {
+		CtrlWord |= 1 << 25
+	}
 
 	err := binary.Write(w, binary.LittleEndian, CtrlWord)
 	if err != nil {
@@ -63,6 +75,10 @@ func (t *TIMER) Unpack(r io.Reader) (int, error) {
 	t.EN = CtrlWord&(1<<31) != 0
 	t.TT = CtrlWord&(1<<30) != 0
 	t.DN = CtrlWord&(1<<29) != 0
+	t.FS = CtrlWord&(1<<28) != 0
+	t.LS = CtrlWord&(1<<27) != 0
+	t.OV = CtrlWord&(1<<26) != 0
+	t.ER = CtrlWord&(1<<25) != 0
 
 	err = binary.Read(r, binary.LittleEndian, &(t.PRE))
 	if err != nil {
-- 
2.43.0


From 55d93593da45a540b2f177440add065e8dd531ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:52 +0000
Subject: [PATCH 64/79] fix: refuse tag names, bit numbers, element counts and
 messages that cannot be represented in a request instead of addressing
 something else

---
 ioi.go         | 60 +++++++++++++++++++++++++++++++++++++++++++-------
 items.go       |  4 ++++
 read.go        | 29 ++++++++++++++++++++----
 sendreceive.go |  4 ++++
 udt_write.go   |  4 ++++
 write.go       |  4 ++++
 6 files changed, 93 insertions(+), 12 deletions(-)

diff --git a/ioi.go b/ioi.go
index 782a3da..6da41bc 100644
--- a/ioi.go
+++ b/ioi.go
@@ -99,9 +99,26 @@ func (ioi *tagIOI) Len() int {
 	return len(ioi.Buffer)
 }
 
+// checkBitRead makes sure that a single bit of a value is only read as what it is.
+func (ioi *tagIOI) checkBitRead(datatype CIPType, elements int) error {
+	if !ioi.BitAccess {
+		return nil
+	}
+	if datatype != CIPTypeBOOL && datatype != CIPTypeUnknown {
+		return fmt.Errorf("%s is a single bit, it can't be read as %v", ioi.Path, datatype)
+	}
+	if elements != 1 {
+		return fmt.Errorf("%s is a single bit, can't read %d elements", ioi.Path, elements)
+	}
+	return nil
+}
+
 // this is the default buffer size for tag IOI generation.
 const defaultIOIBufferSize = 256
 
+// the size of a path is sent as a number of words in a single byte.
+const maxIOISize = 255 * 2
+
 // The IOI is the tag name structure that CIP requires.  It's parsed out into tag length, tag name pairs with additional
 // data on the backside to indicate what index is requested if needed.
 func (client *Client) newIOI(tagpath string, datatype CIPType) (ioi *tagIOI, err error) {
@@ -146,10 +163,17 @@ func (client *Client) newIOI(tagpath string, datatype CIPType) (ioi *tagIOI, err
 	// we'll build this byte structure up as we go.
 	ioi.Buffer = make([]byte, 0, defaultIOIBufferSize)
 
-	for _, tag_part := range tag_array {
+	for i, tag_part := range tag_array {
 		if strings.HasSuffix(tag_part, "]") {
 			// part of an array
 			start_index := strings.Index(tag_part, "[")
+			if start_index < 0 {
+				return nil, fmt.Errorf("no array index in %q", tag_part)
+			}
+			array_order, err := parseArrayIndex(tag_part[start_index:])
+			if err != nil {
+				return nil, fmt.Errorf("bad array index in %q: %w", tag_part, err)
+			}
 			ioi_part, err := marshalIOIPart(tag_part[0:start_index])
 			if err != nil {
 				return nil, err
@@ -160,12 +184,7 @@ func (client *Client) newIOI(tagpath string, datatype CIPType) (ioi *tagIOI, err
 
 			}
 
-			t, err := parse_tag_name(tag_part)
-			if err != nil {
-				client.Logger.Warn("problem parsing path", "error", err)
-			}
-
-			for _, order_size := range t.Array_Order {
+			for _, order_size := range array_order {
 				if order_size < 256 {
 					// byte, byte
 					index_part := []byte{byte(cipElement_8bit), byte(order_size)}
@@ -198,7 +217,7 @@ func (client *Client) newIOI(tagpath string, datatype CIPType) (ioi *tagIOI, err
 		} else {
 			// not part of an array
 			bit_access, err := strconv.Atoi(tag_part)
-			if err == nil && bit_access <= 31 {
+			if err == nil && bit_access >= 0 && bit_access <= 31 && i > 0 && i == len(tag_array)-1 {
 				// This is a bit access.
 				// we won't do anything for now and will just parse the
 				// bit out of the word when that time comes.
@@ -219,6 +238,10 @@ func (client *Client) newIOI(tagpath string, datatype CIPType) (ioi *tagIOI, err
 
 	}
 
+	if len(ioi.Buffer) > maxIOISize {
+		return nil, fmt.Errorf("tag path is too long: %d bytes", len(ioi.Buffer))
+	}
+
 	client.ioi_cache[tagpath] = ioi
 	return
 }
@@ -229,6 +252,12 @@ func marshalIOIPart(tagpath string) ([]byte, error) {
 		return nil, fmt.Errorf("could not parse tag path: %w", err)
 	}
 	tag_size := len(t.BasePath)
+	if tag_size == 0 {
+		return nil, errors.New("empty name in tag path")
+	}
+	if tag_size > 255 {
+		return nil, fmt.Errorf("name in tag path is too long: %d bytes", tag_size)
+	}
 	need_extend := false
 	if tag_size%2 == 1 {
 		need_extend = true
@@ -244,6 +273,21 @@ func marshalIOIPart(tagpath string) ([]byte, error) {
 	return tag_name_msg, nil
 }
 
+// parseArrayIndex parses an array index like "[1]" or "[1,2]".
+func parseArrayIndex(index string) ([]uint32, error) {
+	index = strings.TrimSuffix(strings.TrimPrefix(index, "["), "]")
+	parts := strings.Split(index, ",")
+	order := make([]uint32, len(parts))
+	for i, part := range parts {
+		n, err := strconv.ParseUint(strings.TrimSpace(part), 10, 32)
+		if err != nil {
+			return nil, err
+		}
+		order[i] = uint32(n)
+	}
+	return order, nil
+}
+
 // these next functions are for reversing the bytes back to a tag string
 func getAsciiTagPart(item *CIPItem) (string, error) {
 	var tag_len byte
diff --git a/items.go b/items.go
index e628b49..a37aa3a 100644
--- a/items.go
+++ b/items.go
@@ -5,6 +5,7 @@ import (
 	"encoding/binary"
 	"fmt"
 	"io"
+	"math"
 )
 
 type CIPItemID uint16
@@ -362,6 +363,9 @@ func serializeItems(items []CIPItem) (*[]byte, error) {
 	}
 
 	for i, item := range items {
+		if len(item.Data) > math.MaxUint16 {
+			return nil, fmt.Errorf("item %d is too long: %d bytes", i, len(item.Data))
+		}
 		b2, err := item.Bytes()
 		if err != nil {
 			return nil, fmt.Errorf("problem byte-ing item %d: %w", i, err)
diff --git a/read.go b/read.go
index d29b61b..4eda39e 100644
--- a/read.go
+++ b/read.go
@@ -6,6 +6,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"math"
 	"reflect"
 )
 
@@ -41,6 +42,15 @@ func (client *Client) Read(tag string, data any) error {
 	if err != nil {
 		return fmt.Errorf("could not start read: %w", err)
 	}
+	if v := reflect.ValueOf(data); v.Kind() == reflect.Slice {
+		elements := v.Len()
+		if v.Type().Elem().Kind() == reflect.Bool {
+			elements /= 32 // bits are read as words
+		}
+		if elements > math.MaxUint16 {
+			return fmt.Errorf("can't read %d elements at once", elements)
+		}
+	}
 	switch data := data.(type) {
 	case *bool:
 		v, err := read[bool](client, tag)
@@ -410,6 +420,10 @@ func (client *Client) Read_single(tag string, datatype CIPType, elements uint16)
 
 	ioi, err := client.newIOI(tag, datatype)
 
+	if err != nil {
+		return nil, err
+	}
+	err = ioi.checkBitRead(datatype, int(elements))
 	if err != nil {
 		return nil, err
 	}
@@ -530,8 +544,8 @@ func (client *Client) Read_single(tag string, datatype CIPType, elements uint16)
 		return str, nil
 	}
 	if elements == 1 {
-		if datatype == CIPTypeBOOL && hdr2.Type != CIPTypeBOOL && ioi.BitAccess {
-			// we have requested a bool from some other type.  Maybe a bit access?
+		if ioi.BitAccess {
+			// we have requested a bool from some other type.
 			value, err := readValue(hdr2.Type, &items[1])
 			if err != nil {
 				return nil, fmt.Errorf("problem reading bool tag %s: %w", tag, err)
@@ -810,11 +824,18 @@ func (client *Client) readList(tags []tagDesc) ([]any, error) {
 	qty := len(tags)
 	iois := make([]*tagIOI, qty)
 	for i, tag := range tags {
+		if tag.Elements < 0 || tag.Elements > math.MaxUint16 {
+			return nil, fmt.Errorf("can't read %d elements of %s", tag.Elements, tag.TagName)
+		}
 		var err error
 		iois[i], err = client.newIOI(tag.TagName, tag.TagType)
 		if err != nil {
 			return nil, err
 		}
+		err = iois[i].checkBitRead(tag.TagType, tag.Elements)
+		if err != nil {
+			return nil, err
+		}
 	}
 
 	reqItems := make([]CIPItem, 2)
@@ -984,8 +1005,8 @@ func (client *Client) readList(tags []tagDesc) ([]any, error) {
 			return nil, fmt.Errorf("problem reading %v. Status %v", tags[i], rHdr.Status)
 		}
 		if tags[i].Elements == 1 {
-			if tags[i].TagType == CIPTypeBOOL && rHdr.Type != CIPTypeBOOL && iois[i].BitAccess {
-				// we have requested a bool from some other type.  Maybe a bit access?
+			if iois[i].BitAccess {
+				// we have requested a bool from some other type.
 				value, err := readValue(rHdr.Type, myBytes)
 				if err != nil {
 					return nil, fmt.Errorf("problem reading tag %v: %w", tags[i], err)
diff --git a/sendreceive.go b/sendreceive.go
index 013227a..dc68102 100644
--- a/sendreceive.go
+++ b/sendreceive.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"math"
 	"time"
 )
 
@@ -23,6 +24,9 @@ func (client *Client) sendMsgBuild(cmd CIPCommand, msgs ...any) ([]byte, error)
 	for _, msg := range msgs {
 		messageLen += binary.Size(msg)
 	}
+	if messageLen > math.MaxUint16 {
+		return nil, fmt.Errorf("message is too long: %d bytes", messageLen)
+	}
 	// build header based on size
 	hdr := client.newEIPHeader(cmd, messageLen)
 
diff --git a/udt_write.go b/udt_write.go
index b10e79d..971737f 100644
--- a/udt_write.go
+++ b/udt_write.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"math"
 	"reflect"
 )
 
@@ -184,6 +185,9 @@ func (client *Client) newMultiWriteService(tag string, value any) ([]byte, error
 	if elements < 1 {
 		return nil, fmt.Errorf("no elements to write")
 	}
+	if elements > math.MaxUint16 {
+		return nil, fmt.Errorf("can't write %d elements at once", elements)
+	}
 
 	b := bytes.Buffer{}
 	h := msgCIPMultiIOIHeader{
diff --git a/write.go b/write.go
index 27f0c25..2ca7d0b 100644
--- a/write.go
+++ b/write.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"math"
 	"reflect"
 )
 
@@ -235,6 +236,9 @@ func (client *Client) write_single(tag string, value any) error {
 
 	v := reflect.ValueOf(value)
 	if v.Kind() == reflect.Slice {
+		if v.Len() > math.MaxUint16 {
+			return fmt.Errorf("can't write %d elements at once", v.Len())
+		}
 		elements = uint16(v.Len())
 	}
 
-- 
2.43.0


From 50b582761286c2da671d5c7c06ef44e5a46fcf80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:55 +0000
Subject: [PATCH 65/79] fix: read and write the tagged fields of embedded
 structs and refuse arguments that are not structs

---
 read.go      | 29 ++++++++++++++++++-----------
 udt_write.go | 17 +++++++++++------
 2 files changed, 29 insertions(+), 17 deletions(-)

diff --git a/read.go b/read.go
index 4eda39e..36c5315 100644
--- a/read.go
+++ b/read.go
@@ -743,11 +743,14 @@ func (client *Client) ReadMulti(tag_str any, args ...any) error {
 	}
 
 	// build the tag list from the structure by reflecting through the tags on the fields of the struct.
-	T := reflect.TypeOf(tag_str).Elem()
-	vf := reflect.VisibleFields(T)
+	val := reflect.ValueOf(tag_str)
+	if val.Kind() != reflect.Ptr || val.Elem().Kind() != reflect.Struct {
+		return fmt.Errorf("expected a pointer to a struct with gologix tags, got %T", tag_str)
+	}
+	val = val.Elem()
+	vf := reflect.VisibleFields(val.Type())
 	taglist := make([]tagDesc, 0, len(vf))
-	fields := make([]int, 0, len(vf))
-	val := reflect.ValueOf(tag_str).Elem()
+	fields := make([]reflect.Value, 0, len(vf))
 	for i := range vf {
 		field := vf[i]
 		tagPath, ok := field.Tag.Lookup("gologix")
@@ -757,9 +760,17 @@ func (client *Client) ReadMulti(tag_str any, args ...any) error {
 		if args != nil {
 			tagPath = formatName(tagPath, args...)
 		}
-		v := val.Field(i).Interface()
+		// the field may be one of an embedded struct
+		fieldVal, err := val.FieldByIndexErr(field.Index)
+		if err != nil {
+			return fmt.Errorf("could not access field %s: %w", field.Name, err)
+		}
+		if !fieldVal.CanSet() {
+			return fmt.Errorf("field %s with tag %q is not exported", field.Name, tagPath)
+		}
+		v := fieldVal.Interface()
 		t, elem := GoVarToCIPType(v)
-		fields = append(fields, i)
+		fields = append(fields, fieldVal)
 		taglist = append(taglist, tagDesc{
 			TagName:  tagPath,
 			TagType:  t,
@@ -774,14 +785,10 @@ func (client *Client) ReadMulti(tag_str any, args ...any) error {
 	}
 
 	// now unpack the result values back into the given structure
-	for i, fieldNo := range fields {
+	for i, fieldVal := range fields {
 		val := result_values[i]
 		tag := taglist[i].TagName
 
-		v := reflect.ValueOf(&tag_str).Elem().Elem().Elem()
-
-		fieldVal := v.Field(fieldNo)
-
 		if fieldVal.Type().Kind() != reflect.Slice {
 			newVal := reflect.ValueOf(val)
 			if !newVal.IsValid() || !newVal.Type().AssignableTo(fieldVal.Type()) {
diff --git a/udt_write.go b/udt_write.go
index 971737f..6027d07 100644
--- a/udt_write.go
+++ b/udt_write.go
@@ -15,15 +15,20 @@ func multi_to_dict(data any) (map[string]interface{}, error) {
 	d := make(map[string]interface{})
 
 	vs := reflect.ValueOf(data)
-	fs := reflect.TypeOf(data)
-	for i := 0; i < vs.NumField(); i++ {
-		v := vs.Field(i)
-		f := fs.Field(i)
+	// this includes the fields of embedded structs
+	for _, f := range reflect.VisibleFields(vs.Type()) {
 		fulltag := f.Tag.Get("gologix")
 		if fulltag == "" {
 			// not a tag
 			continue
 		}
+		v, err := vs.FieldByIndexErr(f.Index)
+		if err != nil {
+			return nil, fmt.Errorf("could not access field %s: %w", f.Name, err)
+		}
+		if !v.CanInterface() {
+			return nil, fmt.Errorf("field %s with tag %q is not exported", f.Name, fulltag)
+		}
 		switch v.Kind() {
 		case reflect.Struct:
 			d2, err := udt_to_dict(fulltag, v.Interface())
@@ -64,8 +69,8 @@ func udt_to_dict(tag string, data any) (map[string]interface{}, error) {
 		v := vs.Field(i)
 		f := fs.Field(i)
 		fulltag := fmt.Sprintf("%s.%s", tag, f.Name)
-		switch v.Kind() {
-
+		if !v.CanInterface() {
+			return nil, fmt.Errorf("field %s is not exported", fulltag)
 		}
 		switch v.Kind() {
 		case reflect.Struct:
-- 
2.43.0


From 30a664c73c508f1fe16671a5a2d1bb7af38a2e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:57 +0000
Subject: [PATCH 66/79] fix: refuse strings that do not fit into a STRING, nil
 values and structures with unexported fields, and read packed structures

---
 pack.go      | 29 ++++++++++++++---------------
 udt_write.go |  4 ++++
 write.go     | 30 ++++++++++++++++++++++++++++++
 3 files changed, 48 insertions(+), 15 deletions(-)

diff --git a/pack.go b/pack.go
index 71e4f39..6d74bcd 100644
--- a/pack.go
+++ b/pack.go
@@ -203,6 +203,10 @@ func Pack(w io.Writer, data any) (int, error) {
 			pos += rem
 		}
 
+		if !field.IsExported() {
+			return pos, fmt.Errorf("field %s is not exported", field.Name)
+		}
+
 		// finally, if the field is some sub-structure, recurse.  Otherwise we will write the data out
 		if holdsStructs(field.Type) {
 			var err error
@@ -362,6 +366,9 @@ func Unpack(r io.Reader, data any) (n int, err error) {
 		t := field.Tag.Get("pack")
 		s := int(field.Type.Size())
 		k := refVal.Field(i).Kind()
+		if !refVal.Field(i).CanSet() {
+			return n, fmt.Errorf("can't set field %s", field.Name)
+		}
 
 		// if there isn't a nopack tag on the field, we need to check for bools that need combined into bytes
 		if t != "nopack" {
@@ -463,24 +470,13 @@ func Unpack(r io.Reader, data any) (n int, err error) {
 	return
 }
 
+// ReadPacked reads a tag of a structured type.
 func ReadPacked[T any](client *Client, tag string) (T, error) {
 	var data T
-	buf := new(bytes.Buffer)
-	size, err := Pack(buf, data)
-	if err != nil {
-		return data, err
-	}
-
-	b := make([]byte, size)
-	err = client.Read(tag, &b)
-	if err != nil {
-		return data, fmt.Errorf("couldn't read %s as bytes. %w", tag, err)
-	}
-	_, err = Unpack(bytes.NewBuffer(b), &data)
+	err := client.Read(tag, &data)
 	if err != nil {
-		return data, fmt.Errorf("problem unpacking from buffer. %w", err)
+		return data, fmt.Errorf("couldn't read %s: %w", tag, err)
 	}
-
 	return data, nil
 
 }
@@ -524,7 +520,7 @@ func TypeEncode(data any) (string, uint16, error) {
 			if arr.Type().Elem().Kind() != reflect.Struct {
 				at, _ = goTypeToLogixTypeName(field.Type.Elem())
 			} else {
-				at, _, _ = TypeEncode(arr.Index(0).Interface())
+				at, _, _ = TypeEncode(reflect.Zero(arr.Type().Elem()).Interface())
 			}
 			encoded += fmt.Sprintf(",%s[%d]", at, arr.Len())
 			continue
@@ -551,6 +547,9 @@ func TypeEncode(data any) (string, uint16, error) {
 			n, _ := goTypeToLogixTypeName(refVal.Field(i).Type())
 			encoded += fmt.Sprintf(",%s", n)
 		} else {
+			if !field.IsExported() {
+				return "", 0, fmt.Errorf("field %s is not exported", field.Name)
+			}
 			str_text, _, err := TypeEncode(refVal.Field(i).Interface())
 			if err != nil {
 				return "", 0, fmt.Errorf("problem encoding sub-structure: %w", err)
diff --git a/udt_write.go b/udt_write.go
index 6027d07..908f599 100644
--- a/udt_write.go
+++ b/udt_write.go
@@ -179,6 +179,10 @@ func (client *Client) WriteMap(tag_str map[string]interface{}) error {
 
 // newMultiWriteService builds a complete write service for a single tag as it is needed inside of a multi service request.
 func (client *Client) newMultiWriteService(tag string, value any) ([]byte, error) {
+	err := checkWriteValue(value)
+	if err != nil {
+		return nil, err
+	}
 	datatype, elements := GoVarToCIPType(value)
 	ioi, err := client.newIOI(tag, datatype)
 	if err != nil {
diff --git a/write.go b/write.go
index 2ca7d0b..8965434 100644
--- a/write.go
+++ b/write.go
@@ -104,6 +104,10 @@ func (client *Client) Write(tag string, value any) error {
 	if err != nil {
 		return fmt.Errorf("could not start write: %w", err)
 	}
+	err = checkWriteValue(value)
+	if err != nil {
+		return fmt.Errorf("can't write %s: %w", tag, err)
+	}
 	v := reflect.ValueOf(value)
 	if v.Kind() == reflect.Struct {
 		return client.write_udt(tag, value)
@@ -111,6 +115,32 @@ func (client *Client) Write(tag string, value any) error {
 	return client.write_single(tag, value)
 }
 
+// maxStringLen is the number of characters a STRING in the controller can hold.
+const maxStringLen = 82
+
+// checkWriteValue is an error for values that can not be sent to the controller.
+func checkWriteValue(value any) error {
+	switch x := value.(type) {
+	case nil:
+		return fmt.Errorf("no value")
+	case string:
+		if len(x) > maxStringLen {
+			return fmt.Errorf("the string has %d characters, a STRING can hold %d", len(x), maxStringLen)
+		}
+	case []string:
+		for i := range x {
+			if len(x[i]) > maxStringLen {
+				return fmt.Errorf("string %d has %d characters, a STRING can hold %d", i, len(x[i]), maxStringLen)
+			}
+		}
+	}
+	v := reflect.ValueOf(value)
+	if v.Kind() == reflect.Ptr && v.IsNil() {
+		return fmt.Errorf("value is a nil %T", value)
+	}
+	return nil
+}
+
 // write a single UDT struct to a tag.  The UDT *must* be named the same as the struct type and have the same field types.
 // field names don't matter but type names do.  go types will be converted to CIP types as appropriate, but any nested structs
 // must be named the same as the UDT on the plc.
-- 
2.43.0


From d57ab8a4bc8a767b8e9754191232474ea2e56154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:39 +0000
Subject: [PATCH 67/79] fix: connect clients that were not made by NewClient
 instead of panicking on their zero fields

---
 client.go  |  9 +++++++--
 connect.go | 36 ++++++++++++++++++++++++++++++------
 2 files changed, 37 insertions(+), 8 deletions(-)

diff --git a/client.go b/client.go
index cfddcd5..ee82a43 100644
--- a/client.go
+++ b/client.go
@@ -174,8 +174,8 @@ func NewClient(ip string) *Client {
 		ConnectionSize:     connSizeLargeDefault,
 		AutoConnect:        true,
 		KeepAliveAutoStart: false,
-		KeepAliveFrequency: time.Second * 30,
-		KeepAliveProps:     []CIPAttribute{1, 2, 3, 4, 10},
+		KeepAliveFrequency: keepAliveFrequencyDefault,
+		KeepAliveProps:     keepAlivePropsDefault(),
 		RPI:                rpiDefault,
 		SocketTimeout:      socketTimeoutDefault,
 		SerialNumber:       rand.Uint32(),
@@ -188,6 +188,11 @@ func NewClient(ip string) *Client {
 
 }
 
+// keepAlivePropsDefault are the properties of a controller that tell whether its program has changed.
+func keepAlivePropsDefault() []CIPAttribute {
+	return []CIPAttribute{1, 2, 3, 4, 10}
+}
+
 type KnownProgram struct {
 	Name string
 	ID   CIPInstance
diff --git a/connect.go b/connect.go
index 7998fab..4b29160 100644
--- a/connect.go
+++ b/connect.go
@@ -5,6 +5,7 @@ import (
 	"encoding/binary"
 	"fmt"
 	"log/slog"
+	"math/rand"
 	"net"
 	"slices"
 	"time"
@@ -18,6 +19,8 @@ const (
 	vendorIdDefault         = 0x9999 // default vendor id. Used to prevent vendor ID conflicts
 	socketTimeoutDefault    = time.Second * 10
 	rpiDefault              = time.Millisecond * 2500
+
+	keepAliveFrequencyDefault = time.Second * 30 // how often the keep alive asks the controller for its properties
 )
 
 func (client *Client) startConnect() error {
@@ -72,6 +75,25 @@ func (client *Client) Connect() error {
 	return client.connect()
 }
 
+// setDefaults sets what a client needs that was not created by NewClient. lifecycleMutex has to be held.
+func (client *Client) setDefaults() {
+	if client.Logger == nil {
+		client.Logger = NewLogger()
+	}
+	if client.VendorId == 0 {
+		client.VendorId = vendorIdDefault
+	}
+	if client.SerialNumber == 0 {
+		client.SerialNumber = rand.Uint32()
+	}
+	if client.KeepAliveFrequency <= 0 {
+		client.KeepAliveFrequency = keepAliveFrequencyDefault
+	}
+	if client.KeepAliveProps == nil {
+		client.KeepAliveProps = keepAlivePropsDefault()
+	}
+}
+
 // connect does the work of Connect. lifecycleMutex has to be held.
 func (client *Client) connect() error {
 	err := client.startConnect()
@@ -102,13 +124,12 @@ func (client *Client) connect() error {
 		}
 	}()
 
-	if client.Logger != nil {
-		if !client.logger_ip_set {
-			if cl, ok := client.Logger.(LoggerInterfaceWith); ok && cl != nil {
-				client.Logger = cl.With(slog.String("controllerIp", client.Controller.IpAddress))
-			}
-			client.logger_ip_set = true
+	client.setDefaults()
+	if !client.logger_ip_set {
+		if cl, ok := client.Logger.(LoggerInterfaceWith); ok && cl != nil {
+			client.Logger = cl.With(slog.String("controllerIp", client.Controller.IpAddress))
 		}
+		client.logger_ip_set = true
 	}
 	if client.ConnectionSize == 0 {
 		client.ConnectionSize = connSizeLargeDefault
@@ -215,6 +236,9 @@ func (client *Client) KeepAlive() {
 	if !client.KeepAliveAutoStart || client.SocketTimeout == 0 {
 		return
 	}
+	client.lifecycleMutex.Lock()
+	client.setDefaults()
+	client.lifecycleMutex.Unlock()
 	cancel := client.startKeepAlive()
 	if cancel == nil {
 		client.Logger.Warn("keepalive already running")
-- 
2.43.0


From 52a9bd2606bd3eca204d753e1e4dda715a746863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:43 +0000
Subject: [PATCH 68/79] fix: refuse route paths that cannot be represented, pad
 addresses within them and mark 32 bit element segments as such

---
 cip_definitions.go |  4 ++--
 connect.go         | 29 +++++++++++++++++++----------
 disconnect.go      |  7 ++-----
 path.go            | 10 ++++++++++
 4 files changed, 33 insertions(+), 17 deletions(-)

diff --git a/cip_definitions.go b/cip_definitions.go
index 17f3279..cf56d77 100644
--- a/cip_definitions.go
+++ b/cip_definitions.go
@@ -112,7 +112,7 @@ func (p CIPElement) Bytes() []byte {
 	} else {
 
 		b := make([]byte, 6)
-		b[0] = byte(cipElement_16bit)
+		b[0] = byte(cipElement_32bit)
 		binary.LittleEndian.PutUint32(b[2:], uint32(p))
 		return b
 	}
@@ -121,7 +121,7 @@ func (p CIPElement) Bytes() []byte {
 func (p CIPElement) Len() int {
 	if p < 256 {
 		return 2
-	} else if p < 65535 {
+	} else if p < 65536 {
 		return 4
 	}
 	return 6
diff --git a/connect.go b/connect.go
index 4b29160..bf44948 100644
--- a/connect.go
+++ b/connect.go
@@ -206,6 +206,23 @@ func (client *Client) connect() error {
 	return nil
 }
 
+// connectionPath returns the path of a connection to the message router of the controller.
+func (client *Client) connectionPath() (*bytes.Buffer, error) {
+	path, err := Serialize(
+		client.Controller.Path,
+		CipObject_MessageRouter,
+		CIPInstance(1),
+	)
+	if err != nil {
+		return nil, err
+	}
+	// requests carry the length of the path as the number of its words in one byte
+	if path.Len()%2 != 0 || path.Len()/2 > 255 {
+		return nil, fmt.Errorf("path of %d bytes is not between 0 and 255 whole words long", path.Len())
+	}
+	return path, nil
+}
+
 func (client *Client) Connected() bool {
 	client.mutex.Lock()
 	defer client.mutex.Unlock()
@@ -407,11 +424,7 @@ func (client *Client) newForwardOpenLarge() (CIPItem, error) {
 		)
 	}
 
-	path, err := Serialize(
-		client.Controller.Path,
-		CipObject_MessageRouter,
-		CIPInstance(1),
-	)
+	path, err := client.connectionPath()
 	if err != nil {
 		return item, fmt.Errorf("couldn't build path. %w", err)
 	}
@@ -486,11 +499,7 @@ func (client *Client) newForwardOpenStandard() (CIPItem, error) {
 	}
 	item := CIPItem{Header: cipItemHeader{ID: cipItem_UnconnectedData}}
 
-	path, err := Serialize(
-		client.Controller.Path,
-		CipObject_MessageRouter,
-		CIPInstance(1),
-	)
+	path, err := client.connectionPath()
 	if err != nil {
 		return item, fmt.Errorf("couldn't build path. %w", err)
 	}
diff --git a/disconnect.go b/disconnect.go
index aa6dc55..18d307d 100644
--- a/disconnect.go
+++ b/disconnect.go
@@ -73,12 +73,9 @@ func (client *Client) Disconnect() error {
 	items[0] = CIPItem{} // null item
 	items[1] = CIPItem{Header: cipItemHeader{ID: cipItem_UnconnectedData}}
 
-	path, err := Serialize(
-		client.Controller.Path,
-		CipObject_MessageRouter,
-		CIPInstance(1),
-	)
+	path, err := client.connectionPath()
 	if err != nil {
+		client.conn.Close()
 		client.Logger.Error("Error serializing path", slog.Any("err", err))
 		return fmt.Errorf("error serializing path: %w", err)
 	}
diff --git a/path.go b/path.go
index 5a5871a..a03e1b9 100644
--- a/path.go
+++ b/path.go
@@ -78,12 +78,22 @@ func ParsePath(path string) (*bytes.Buffer, error) {
 			// for some god forsaken reason the path doesn't use the ip address as actual bytes but as an ascii string.
 			// we first have to set bit 5 in the previous byte to say we're using an extended address for this part.
 			last_pos := len(byte_path) - 1
+			if last_pos < 0 {
+				return nil, fmt.Errorf("address %v has to follow the port it belongs to", part)
+			}
+			if len(part) > 255 {
+				return nil, fmt.Errorf("address %v is too long", part)
+			}
 			last_byte := byte_path[last_pos]
 			byte_path[last_pos] = last_byte | 1<<4
 			l := len(part)
 			byte_path = append(byte_path, byte(l))
 			string_bytes := []byte(part)
 			byte_path = append(byte_path, string_bytes...)
+			if len(byte_path)%2 != 0 {
+				// segments are padded to full words
+				byte_path = append(byte_path, 0)
+			}
 			continue
 		}
 		// not an IP address
-- 
2.43.0


From 46a34d49cb5ca5b8e7e99c316a9705347f33b150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:27 +0000
Subject: [PATCH 69/79] fix: ask for the identity and the services through a
 client that was never connected without panicking

---
 listidentity.go | 3 +--
 listservices.go | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/listidentity.go b/listidentity.go
index dba1be3..47cf525 100644
--- a/listidentity.go
+++ b/listidentity.go
@@ -45,12 +45,11 @@ import (
 //
 // Note: The device must be connected before calling this function.
 func (client *Client) ListIdentity() (*listIdentityResponeBody, error) {
-	client.Logger.Debug("listing identity")
-
 	_, data, err := client.send_recv_data(cipCommandListIdentity)
 	if err != nil {
 		return nil, err
 	}
+	client.Logger.Debug("listing identity")
 
 	items, err := readItems(data)
 	if err != nil {
diff --git a/listservices.go b/listservices.go
index ee15121..18190a3 100644
--- a/listservices.go
+++ b/listservices.go
@@ -38,12 +38,11 @@ import (
 //
 // Note: The device must be connected before calling this function.
 func (client *Client) ListServices() ([]CIPListService, error) {
-	client.Logger.Debug("listing services")
-
 	_, data, err := client.send_recv_data(cipCommandListServices)
 	if err != nil {
 		return nil, err
 	}
+	client.Logger.Debug("listing services")
 
 	items, err := readItems(data)
 	if err != nil {
-- 
2.43.0


From c9ce480b316cf5b8a70d4771ecc968cde8fe055f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:15 +0000
Subject: [PATCH 70/79] fix: Read_single refuses a bit of a structure or string
 instead of returning all of it

---
 read.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/read.go b/read.go
index 36c5315..3d9c6ff 100644
--- a/read.go
+++ b/read.go
@@ -498,6 +498,9 @@ func (client *Client) Read_single(tag string, datatype CIPType, elements uint16)
 	}
 
 	if hdr2.Type == CIPTypeStruct {
+		if ioi.BitAccess {
+			return nil, fmt.Errorf("%s is a bit of a structure", tag)
+		}
 		if datatype == CIPTypeSTRING {
 			if elements == 1 {
 				str_hdr := cipStringHeader{}
-- 
2.43.0


From 668ee65873dbe87f9bdf8351225bb6c04feb42b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:55 +0000
Subject: [PATCH 71/79] fix: TypeEncode starts a new byte for bools behind an
 array

---
 pack.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pack.go b/pack.go
index 6d74bcd..5178f47 100644
--- a/pack.go
+++ b/pack.go
@@ -523,6 +523,8 @@ func TypeEncode(data any) (string, uint16, error) {
 				at, _, _ = TypeEncode(reflect.Zero(arr.Type().Elem()).Interface())
 			}
 			encoded += fmt.Sprintf(",%s[%d]", at, arr.Len())
+			// bools after the array don't share a byte with those in front of it.
+			bitpos = 0
 			continue
 		case reflect.Bool:
 			// try to pack bools
-- 
2.43.0


From eabaef0ef20a55e0f079badffb5326821c23d2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:58 +0000
Subject: [PATCH 72/79] fix: count the real size of structures when a list is
 split into messages

---
 partialread.go | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/partialread.go b/partialread.go
index f752c10..c74fe07 100644
--- a/partialread.go
+++ b/partialread.go
@@ -4,6 +4,8 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
+	"reflect"
 )
 
 // ReadList reads multiple tags with explicitly specified types and element counts in a single efficient request.
@@ -102,9 +104,33 @@ func responseSize(tag tagDesc) int {
 	if tag.TagType == CIPTypeSTRING {
 		return 2 + 88*tag.Elements
 	}
+	if size := structSize(tag.Struct); tag.TagType == CIPTypeStruct && size > 0 {
+		return 2 + size*tag.Elements
+	}
 	return tag.TagType.Size() * tag.Elements
 }
 
+// structSize is the number of bytes one structure takes in the controller if v is a structure or a slice of them,
+// otherwise 0.
+func structSize(v any) int {
+	t := reflect.TypeOf(v)
+	if t == nil {
+		return 0
+	}
+	if t.Kind() == reflect.Slice {
+		t = t.Elem()
+		v = reflect.Zero(t).Interface()
+	}
+	if t.Kind() != reflect.Struct {
+		return 0
+	}
+	size, err := Pack(io.Discard, v)
+	if err != nil {
+		return 0
+	}
+	return (size + 7) &^ 7 // it may end with padding
+}
+
 func (client *Client) countIOIsThatFit(tags []tagDesc) (int, error) {
 	// first generate IOIs for each tag
 	qty := len(tags)
-- 
2.43.0


From eb284c57903433b24b73c4b3abd13cb5391eeec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:13 +0000
Subject: [PATCH 73/79] fix: split lists for the connection that carries them

---
 partialread.go |  4 +++-
 read.go        |  9 +++++----
 udt_write.go   | 12 ++++++++----
 3 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/partialread.go b/partialread.go
index c74fe07..08ac4cb 100644
--- a/partialread.go
+++ b/partialread.go
@@ -82,11 +82,13 @@ func (client *Client) readSplitList(tags []tagDesc) ([]any, error) {
 
 	for n < total {
 		msgs += 1
+		// what fits depends on the connection, so this has to be the one the message is sent on.
+		address := newItem(cipItem_ConnectionAddress, &client.OTNetworkConnectionID)
 		n_new, err := client.countIOIsThatFit(tags[n:])
 		if err != nil {
 			return nil, err
 		}
-		subresults, err := client.readList(tags[n : n+n_new])
+		subresults, err := client.readList(address, tags[n:n+n_new])
 		n += n_new
 		if err != nil {
 			return nil, err
diff --git a/read.go b/read.go
index 3d9c6ff..6fac35d 100644
--- a/read.go
+++ b/read.go
@@ -828,7 +828,8 @@ type tagDesc struct {
 	Struct   any
 }
 
-func (client *Client) readList(tags []tagDesc) ([]any, error) {
+// readList reads tags with one message on the connection with the given address.
+func (client *Client) readList(address CIPItem, tags []tagDesc) ([]any, error) {
 
 	// first generate IOIs for each tag
 	qty := len(tags)
@@ -849,7 +850,7 @@ func (client *Client) readList(tags []tagDesc) ([]any, error) {
 	}
 
 	reqItems := make([]CIPItem, 2)
-	reqItems[0] = newItem(cipItem_ConnectionAddress, &client.OTNetworkConnectionID)
+	reqItems[0] = address
 
 	ioi_header := msgCIPConnectedMultiServiceReq{
 		Sequence:     uint16(sequencer()),
@@ -891,11 +892,11 @@ func (client *Client) readList(tags []tagDesc) ([]any, error) {
 			first_part := tags[:i]
 			rest := tags[i:]
 
-			results0, err := client.readList(first_part)
+			results0, err := client.readList(address, first_part)
 			if err != nil {
 				return nil, fmt.Errorf("problem reading first part of tags: %w", err)
 			}
-			results1, err := client.readList(rest)
+			results1, err := client.readList(address, rest)
 			if err != nil {
 				return nil, fmt.Errorf("problem reading second part of tags: %w", err)
 			}
diff --git a/udt_write.go b/udt_write.go
index 908f599..dbfc29d 100644
--- a/udt_write.go
+++ b/udt_write.go
@@ -151,6 +151,9 @@ func (client *Client) WriteMap(tag_str map[string]interface{}) error {
 	header_size := binary.Size(msgCIPConnectedMultiServiceReq{})
 	const jump_size = 2
 
+	// what fits depends on the connection, so this has to be the one the message is sent on.
+	address := newItem(cipItem_ConnectionAddress, &client.OTNetworkConnectionID)
+
 	tags := make([]string, 0, len(tag_str))
 	services := make([][]byte, 0, len(tag_str))
 	size := header_size
@@ -161,10 +164,11 @@ func (client *Client) WriteMap(tag_str map[string]interface{}) error {
 		}
 		if len(services) > 0 && size+jump_size+len(service) > int(client.ConnectionSize) {
 			// this one does not fit any more
-			err = client.writeList(tags, services)
+			err = client.writeList(address, tags, services)
 			if err != nil {
 				return err
 			}
+			address = newItem(cipItem_ConnectionAddress, &client.OTNetworkConnectionID)
 			tags, services, size = tags[:0], services[:0], header_size
 		}
 		tags = append(tags, tag)
@@ -174,7 +178,7 @@ func (client *Client) WriteMap(tag_str map[string]interface{}) error {
 	if len(services) == 0 {
 		return nil
 	}
-	return client.writeList(tags, services)
+	return client.writeList(address, tags, services)
 }
 
 // newMultiWriteService builds a complete write service for a single tag as it is needed inside of a multi service request.
@@ -244,11 +248,11 @@ func (client *Client) newMultiWriteService(tag string, value any) ([]byte, error
 }
 
 // writeList sends one multi service request with the given write services and checks the result of each of them.
-func (client *Client) writeList(tags []string, services [][]byte) error {
+func (client *Client) writeList(address CIPItem, tags []string, services [][]byte) error {
 	qty := len(services)
 
 	reqitems := make([]CIPItem, 2)
-	reqitems[0] = newItem(cipItem_ConnectionAddress, &client.OTNetworkConnectionID)
+	reqitems[0] = address
 
 	ioi_header := msgCIPConnectedMultiServiceReq{
 		Sequence:     uint16(sequencer()),
-- 
2.43.0


From 0f6f7fb298cd8b26f006a1cf1306514febf4f6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:25 +0000
Subject: [PATCH 74/79] fix: a list of bits of integers is split by the size of
 the integers that come back

---
 partialread.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/partialread.go b/partialread.go
index 08ac4cb..b02380d 100644
--- a/partialread.go
+++ b/partialread.go
@@ -183,7 +183,12 @@ func (client *Client) countIOIsThatFit(tags []tagDesc) (int, error) {
 		//newSize += 4                                           // Fudge for alignment if needed
 
 		// each result has an offset, a header and a type in front of the data
-		response_size += 8 + responseSize(tags[i])
+		if ioi.BitAccess {
+			// the value that the bit is a part of comes back. It is not known how long that is.
+			response_size += 8 + CIPTypeLINT.Size()
+		} else {
+			response_size += 8 + responseSize(tags[i])
+		}
 		if newSize >= int(client.ConnectionSize) || mainhdr_size+response_size >= int(client.ConnectionSize) {
 			// break before adding this ioi to the list since it will push us over.
 			// we'll continue with n iois (n only increments after an IOI is added)
-- 
2.43.0


From 7ae47abd9b604ad5671601ac62345b86fdd1c7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:45 +0000
Subject: [PATCH 75/79] fix: keep-alive goes on when the controller refuses to
 list its tags

---
 connect.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/connect.go b/connect.go
index bf44948..c607914 100644
--- a/connect.go
+++ b/connect.go
@@ -300,7 +300,8 @@ func (client *Client) runKeepAlive(cancel chan struct{}) {
 		err = client.listAllTags(0)
 		if err != nil {
 			client.Logger.Error("keepalive list tags failed", slog.Any("err", err))
-			return
+			// list them after the next query
+			originalProps = &CIPItem{}
 		}
 	}
 
@@ -339,7 +340,8 @@ func (client *Client) runKeepAlive(cancel chan struct{}) {
 					err := client.listAllTags(0)
 					if err != nil {
 						client.Logger.Warn("keepalive list tags failed.", "error", err)
-						return
+						// list them after the next query
+						continue
 					}
 				} else {
 					client.Logger.Debug(
-- 
2.43.0


From 95a8ce3673647f2f62204f5fb292e8767e0ca122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:11 +0000
Subject: [PATCH 76/79] fix: a map that ReadMap has filled can be read again

---
 read.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/read.go b/read.go
index 6fac35d..c4a2037 100644
--- a/read.go
+++ b/read.go
@@ -1246,6 +1246,10 @@ func (client *Client) ReadMap(m map[string]any) error {
 	i := 0
 	for k := range m {
 		v := m[k]
+		if elems, ok := v.([]any); ok {
+			// what an earlier read of an array has put there.
+			v = sliceOfElements(elems)
+		}
 		ct, elem := GoVarToCIPType(v)
 		tags[i] = tagDesc{
 			TagName:  k,
@@ -1269,6 +1273,14 @@ func (client *Client) ReadMap(m map[string]any) error {
 	return nil
 }
 
+// sliceOfElements returns a slice of the type that the elements have, which tells how to read them again.
+func sliceOfElements(elems []any) any {
+	if len(elems) == 0 || elems[0] == nil {
+		return elems
+	}
+	return reflect.MakeSlice(reflect.SliceOf(reflect.TypeOf(elems[0])), len(elems), len(elems)).Interface()
+}
+
 // readFragmented completes a partial-transfer read by emitting FragRead
 // (CIPService_FragRead, 0x52) requests with a cumulative byte offset until the
 // controller returns CIPStatus_OK. initialData is the data portion that
-- 
2.43.0


From 46157fa8ccc8d0da1900e052169f99c08e0f4f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:12 +0000
Subject: [PATCH 77/79] fix: a controller that is too hot is described as such
 (fault 17:34)

---
 canned/fault_descriptions.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/canned/fault_descriptions.go b/canned/fault_descriptions.go
index 29ef8a4..e007535 100644
--- a/canned/fault_descriptions.go
+++ b/canned/fault_descriptions.go
@@ -1445,9 +1445,9 @@ var FaultDescriptions = map[int]map[int]FaultDescription{
 			Major:            false,
 			TypeName:         "Diagnostic",
 		},
-		32: {
+		34: {
 			Type:             17,
-			Code:             31,
+			Code:             34,
 			Display:          "Major Fault T17:C34 - Diagnostic Fault: Controller internal temperature has exceeded operating limit.",
 			Description:      "Controller internal temperature has exceeded the operating limit.",
 			CorrectiveAction: "Take measures to reduce the ambient temperature of the module. Follow the recommended limits for the ambient (inlet) temperature and apply the required clearance around the chassis.",
-- 
2.43.0


From cc7bf0ecef30f9ce6f629307bcafcb81c2d0f26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:46:37 +0000
Subject: [PATCH 78/79] fix: tags for a data table buffer are counted for the
 connection they are sent on

---
 datatable.go | 21 +++++++++++++++++----
 getattr.go   |  7 ++++++-
 2 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/datatable.go b/datatable.go
index 39cd3f7..cfd9355 100644
--- a/datatable.go
+++ b/datatable.go
@@ -222,6 +222,12 @@ func (client *Client) DataTableAddTags(instanceID uint16, entries []addTagEntry)
 		return 0, fmt.Errorf("could not add tag to datatable buffer: %w", err)
 	}
 
+	address := newItem(cipItem_ConnectionAddress, &client.OTNetworkConnectionID)
+	return client.dataTableAddTags(address, instanceID, entries)
+}
+
+// dataTableAddTags is DataTableAddTags on the connection with the given address.
+func (client *Client) dataTableAddTags(address CIPItem, instanceID uint16, entries []addTagEntry) (uint16, error) {
 	path := dataTablePath(instanceID)
 
 	// Estimate capacity: 5 header + per-tag (2 typeSize + 1 ioiLen + IOI bytes)
@@ -248,7 +254,7 @@ func (client *Client) DataTableAddTags(instanceID uint16, entries []addTagEntry)
 	}
 
 	// Service 0x4E — Add Tag when targeting class 0xB2 buffer instance.
-	resp, err := client.GenericCIPMessage(CIPService(0x4E), path, msgData)
+	resp, err := client.addressedCIPMessage(address, CIPService(0x4E), path, msgData)
 	if err != nil {
 		return 0, fmt.Errorf("datatable add tag failed: %w", err)
 	}
@@ -457,10 +463,17 @@ func (buf *DataTableBuffer) SyncTags() error {
 	}
 
 	for len(entries) > 0 {
-		n := buf.addable(entries)
+		var n int
 		var batchID uint16
-		err := buf.request(func() (err error) {
-			batchID, err = buf.client.DataTableAddTags(buf.instanceID, entries[:n])
+		err := buf.request(func() error {
+			err := buf.client.checkConnection()
+			if err != nil {
+				return err
+			}
+			// what fits depends on the connection, so this has to be the one the message is sent on.
+			address := newItem(cipItem_ConnectionAddress, &buf.client.OTNetworkConnectionID)
+			n = buf.addable(entries)
+			batchID, err = buf.client.dataTableAddTags(address, buf.instanceID, entries[:n])
 			return err
 		})
 		if err != nil {
diff --git a/getattr.go b/getattr.go
index daa9dff..00890ad 100644
--- a/getattr.go
+++ b/getattr.go
@@ -446,9 +446,14 @@ func (client *Client) GenericCIPMessage(service CIPService, path, msg_data []byt
 
 // genericCIPMessage is GenericCIPMessage on the connection there is, without connecting first.
 func (client *Client) genericCIPMessage(service CIPService, path, msg_data []byte) (*CIPItem, error) {
+	return client.addressedCIPMessage(newItem(cipItem_ConnectionAddress, &client.OTNetworkConnectionID), service, path, msg_data)
+}
+
+// addressedCIPMessage sends the message on the connection with the given address, and on no other.
+func (client *Client) addressedCIPMessage(address CIPItem, service CIPService, path, msg_data []byte) (*CIPItem, error) {
 	reqitems := make([]CIPItem, 2)
 	//reqitems[0] = cipItem{Header: cipItemHeader{ID: cipItem_Null}}
-	reqitems[0] = newItem(cipItem_ConnectionAddress, &client.OTNetworkConnectionID)
+	reqitems[0] = address
 
 	readmsg := msgCIPConnectedServiceReq{
 		SequenceCount: uint16(sequencer()),
-- 
2.43.0


From 3e11986e3a549b962223615434e798cbd8d84fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:47:28 +0000
Subject: [PATCH 79/79] fix: a failing keepalive does not close or abandon the
 connection that has replaced its own

---
 connect.go    | 80 ++++++++++++++++++++++++++++++++++++++-------------
 disconnect.go |  5 ++++
 2 files changed, 65 insertions(+), 20 deletions(-)

diff --git a/connect.go b/connect.go
index c607914..6ff346f 100644
--- a/connect.go
+++ b/connect.go
@@ -276,24 +276,67 @@ func (client *Client) startKeepAlive() chan struct{} {
 	return client.cancel_keepalive
 }
 
+// forgetKeepAlive unregisters a keepalive that ends.
+func (client *Client) forgetKeepAlive(cancel chan struct{}) {
+	client.keepAliveLock.Lock()
+	defer client.keepAliveLock.Unlock()
+	if client.cancel_keepalive == cancel {
+		client.cancel_keepalive = nil
+	}
+}
+
+// currentConn returns the connection that the client has, nil if it is not connected.
+func (client *Client) currentConn() net.Conn {
+	client.mutex.Lock()
+	defer client.mutex.Unlock()
+	if client.connStatus != connectionStatusConnected {
+		return nil
+	}
+	return client.conn
+}
+
+// endKeepAlive ends the keepalive, and the connection it failed on if disconnect is set. It returns false if there is
+// another connection by now, which has to be left alone and which needs the keepalive.
+func (client *Client) endKeepAlive(cancel chan struct{}, conn net.Conn, disconnect bool) bool {
+	client.lifecycleMutex.Lock()
+	defer client.lifecycleMutex.Unlock()
+	select {
+	case <-cancel:
+		return true
+	default:
+	}
+	if now := client.currentConn(); now != nil && now != conn {
+		return false
+	}
+	// the next connection starts its own.
+	client.forgetKeepAlive(cancel)
+	if conn == nil || !disconnect {
+		return true
+	}
+	err := client.disconnect()
+	if err != nil {
+		client.Logger.Warn("keepalive disconnect failed", slog.Any("err", err))
+	}
+	return true
+}
+
 func (client *Client) runKeepAlive(cancel chan struct{}) {
 	client.Logger.Debug("starting keep alive")
-	defer func() {
-		client.keepAliveLock.Lock()
-		defer client.keepAliveLock.Unlock()
-		if client.cancel_keepalive == cancel {
-			client.cancel_keepalive = nil
-		}
-	}()
+	defer client.forgetKeepAlive(cancel)
 
+	conn := client.currentConn()
 	originalProps, err := client.getAttrList(CipObject_ControllerInfo, 1, client.KeepAliveProps...)
-	if err != nil {
+	for err != nil {
 		client.Logger.Error(
 			"initial keep alive property get failed",
 			slog.Any("client.KeepAliveProps", client.KeepAliveProps),
 			slog.Any("err", err),
 		)
-		return
+		if client.endKeepAlive(cancel, conn, false) {
+			return
+		}
+		conn = client.currentConn()
+		originalProps, err = client.getAttrList(CipObject_ControllerInfo, 1, client.KeepAliveProps...)
 	}
 
 	if client.KeepAlivePollTags {
@@ -310,25 +353,22 @@ func (client *Client) runKeepAlive(cancel chan struct{}) {
 	for {
 		select {
 		case <-t.C:
-			if !client.Connected() {
+			conn = client.currentConn()
+			if conn == nil {
 				client.Logger.Warn("keepalive failed. not connected")
-				return
+				if client.endKeepAlive(cancel, conn, true) {
+					return
+				}
+				continue
 			}
 
 			newProps, err := client.getAttrList(CipObject_ControllerInfo, 1, client.KeepAliveProps...)
 			if err != nil {
 				client.Logger.Error("keepalive failed", slog.Any("err", err))
-				select {
-				case <-cancel:
-					// this keepalive's connection is already gone. Leave the one that may have replaced it alone.
+				if client.endKeepAlive(cancel, conn, true) {
 					return
-				default:
-				}
-				err = client.Disconnect()
-				if err != nil {
-					client.Logger.Warn("keepalive disconnect failed", slog.Any("err", err))
 				}
-				return
+				continue
 			}
 			if !slices.Equal(newProps.Rest(), originalProps.Rest()) {
 				if client.KeepAlivePollTags {
diff --git a/disconnect.go b/disconnect.go
index 18d307d..0b9798e 100644
--- a/disconnect.go
+++ b/disconnect.go
@@ -54,6 +54,11 @@ func (client *Client) startDisconnect() error {
 func (client *Client) Disconnect() error {
 	client.lifecycleMutex.Lock()
 	defer client.lifecycleMutex.Unlock()
+	return client.disconnect()
+}
+
+// disconnect does the work of Disconnect. lifecycleMutex has to be held.
+func (client *Client) disconnect() error {
 	err := client.startDisconnect()
 	if err != nil {
 		return err
-- 
2.43.0

