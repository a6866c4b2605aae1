From 28c7bccc3b4723d2fd65825749ade810a60f01a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:40 +0000
Subject: [PATCH 01/28] fix: do not append to the caller's value in Set

append(item.Value, crlf...) overwrites the caller's memory behind the value
when it is a sub-slice of a larger buffer.
---
 client/server.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/client/server.go b/client/server.go
index 6a41d3e..8f47b28 100644
--- a/client/server.go
+++ b/client/server.go
@@ -473,7 +473,10 @@ func (s *ServerWithTextProtocol) Set(item *Item) error {
 			return err
 		}
 	}
-	if _, err := s.conn.Write(append(item.Value, crlf...)); err != nil {
+	if _, err := s.conn.Write(item.Value); err != nil {
+		return err
+	}
+	if _, err := s.conn.Write(crlf); err != nil {
 		return err
 	}
 	if err := s.conn.Flush(); err != nil {
@@ -876,7 +879,10 @@ func (s *ServerWithMetaProtocol) Set(item *Item) error {
 	if _, err := fmt.Fprintf(s.conn, "ms "+format+"\r\n", values...); err != nil {
 		return err
 	}
-	if _, err := s.conn.Write(append(item.Value, crlf...)); err != nil {
+	if _, err := s.conn.Write(item.Value); err != nil {
+		return err
+	}
+	if _, err := s.conn.Write(crlf); err != nil {
 		return err
 	}
 	if err := s.conn.Flush(); err != nil {
-- 
2.43.0


From c8265e4d2e90e28ab41243b97bab2e9f07a32221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:40 +0000
Subject: [PATCH 02/28] fix: meta GetMulti reads on until the noop reply

A miss (EN) ended the loop: the remaining hits were dropped and their replies
were left on the connection for the next command.
---
 client/server.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/client/server.go b/client/server.go
index 8f47b28..ee179f6 100644
--- a/client/server.go
+++ b/client/server.go
@@ -42,6 +42,9 @@ var (
 	msgMetaProtoNotFound  = []byte("NF")
 )
 
+// errMetaNoop reports that the response of the meta no-op command was read.
+var errMetaNoop = errors.New("memcached: unexpected noop response")
+
 var (
 	magicRequest  byte = 0x80
 	magicResponse byte = 0x81
@@ -751,6 +754,8 @@ MultiRead:
 		if err != nil {
 			switch err {
 			case merrors.ItemNotFound:
+				continue
+			case errMetaNoop:
 				break MultiRead
 			default:
 				return nil, err
@@ -771,7 +776,7 @@ func (s *ServerWithMetaProtocol) parseGetResponse(conn *bufio.ReadWriter) (*Item
 		return nil, merrors.ItemNotFound
 	}
 	if bytes.Equal(b, msgMetaProtoNoop) {
-		return nil, merrors.ItemNotFound
+		return nil, errMetaNoop
 	}
 	if !bytes.HasPrefix(b, []byte("VA")) {
 		return nil, errors.New("memcached: invalid get response")
-- 
2.43.0


From 514622df997433dc058a6fe795931e8fad77aefa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:52 +0000
Subject: [PATCH 03/28] fix: read the whole response before returning an error
 (binary protocol)

Set, Add, Touch, Flush and Version left the body of an error response on the
connection, where the next command took it for its own response. GetMulti also
left the responses up to Noop, and failed because of a missing key.
---
 client/server.go | 60 +++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 46 insertions(+), 14 deletions(-)

diff --git a/client/server.go b/client/server.go
index ee179f6..e15a18d 100644
--- a/client/server.go
+++ b/client/server.go
@@ -1310,25 +1310,34 @@ func (s *ServerWithBinaryProtocol) GetMulti(keys ...string) ([]*Item, error) {
 		return nil, err
 	}
 
+	// An error does not end the responses: the response of Noop still follows.
+	var resErr error
 	resHeader := s.resHeaderPool.Get().(*binaryResponseHeader)
 	for {
 		if err := resHeader.Read(s.conn); err != nil {
 			return nil, err
 		}
-		if resHeader.Opcode == binaryOpcodeNoop {
-			break
+
+		buf := make([]byte, resHeader.TotalBodyLength)
+		if _, err := io.ReadFull(s.conn, buf); err != nil {
+			return nil, err
 		}
 
-		if resHeader.Status != 0 {
+		if resHeader.Opcode != binaryOpcodeNoop && resHeader.Status == 1 { // key not found
+			continue
+		}
+		if resHeader.Status != 0 && resErr == nil {
 			if v, ok := binaryStatus[resHeader.Status]; ok {
-				return nil, fmt.Errorf("memcached: error %s", v)
+				resErr = fmt.Errorf("memcached: error %s", v)
+			} else {
+				resErr = fmt.Errorf("memcached: unknown error %d", resHeader.Status)
 			}
-			return nil, fmt.Errorf("memcached: unknown error %d", resHeader.Status)
 		}
-
-		buf := make([]byte, resHeader.TotalBodyLength)
-		if _, err := io.ReadFull(s.conn, buf); err != nil {
-			return nil, err
+		if resHeader.Opcode == binaryOpcodeNoop {
+			break
+		}
+		if resHeader.Status != 0 {
+			continue
 		}
 
 		items = append(items, &Item{
@@ -1337,6 +1346,9 @@ func (s *ServerWithBinaryProtocol) GetMulti(keys ...string) ([]*Item, error) {
 			Flags: buf[:resHeader.ExtraLength],
 		})
 	}
+	if resErr != nil {
+		return nil, resErr
+	}
 
 	return items, nil
 }
@@ -1377,6 +1389,11 @@ func (s *ServerWithBinaryProtocol) Set(item *Item) error {
 		return errors.New("memcached: invalid response")
 	}
 
+	buf := make([]byte, resHeader.TotalBodyLength)
+	if _, err := io.ReadFull(s.conn, buf); err != nil {
+		return err
+	}
+
 	if resHeader.Status != 0 {
 		switch resHeader.Status {
 		case 2: // key exists
@@ -1429,6 +1446,11 @@ func (s *ServerWithBinaryProtocol) Add(item *Item) error {
 		return errors.New("memcached: invalid response")
 	}
 
+	buf := make([]byte, resHeader.TotalBodyLength)
+	if _, err := io.ReadFull(s.conn, buf); err != nil {
+		return err
+	}
+
 	if resHeader.Status != 0 {
 		switch resHeader.Status {
 		case 2:
@@ -1663,6 +1685,11 @@ func (s *ServerWithBinaryProtocol) Touch(key string, expiration int) error {
 		return err
 	}
 
+	buf := make([]byte, resHeader.TotalBodyLength)
+	if _, err := io.ReadFull(s.conn, buf); err != nil {
+		return err
+	}
+
 	if resHeader.Status != 0 {
 		if v, ok := binaryStatus[resHeader.Status]; ok {
 			return fmt.Errorf("memcached: error %s", v)
@@ -1704,6 +1731,11 @@ func (s *ServerWithBinaryProtocol) Flush() error {
 		return errors.New("memcached: invalid response")
 	}
 
+	buf := make([]byte, resHeader.TotalBodyLength)
+	if _, err := io.ReadFull(s.conn, buf); err != nil {
+		return err
+	}
+
 	return nil
 }
 
@@ -1733,6 +1765,11 @@ func (s *ServerWithBinaryProtocol) Version() (string, error) {
 		return "", err
 	}
 
+	buf := make([]byte, resHeader.TotalBodyLength)
+	if _, err := io.ReadFull(s.conn, buf); err != nil {
+		return "", err
+	}
+
 	if resHeader.Status != 0 {
 		if v, ok := binaryStatus[resHeader.Status]; ok {
 			return "", fmt.Errorf("memcached: error %s", v)
@@ -1740,11 +1777,6 @@ func (s *ServerWithBinaryProtocol) Version() (string, error) {
 		return "", fmt.Errorf("memcached: unknown error %d", resHeader.Status)
 	}
 
-	buf := make([]byte, resHeader.TotalBodyLength)
-	if _, err := io.ReadFull(s.conn, buf); err != nil {
-		return "", err
-	}
-
 	return string(buf), nil
 }
 
-- 
2.43.0


From dd9e83b349f917fda6b5e98d0bdec6cff50f0ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:52 +0000
Subject: [PATCH 04/28] fix: reset the recycled request header of Increment and
 Decrement

The CAS value of an earlier Set was sent along.
---
 client/server.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/client/server.go b/client/server.go
index e15a18d..d7d6076 100644
--- a/client/server.go
+++ b/client/server.go
@@ -1601,6 +1601,7 @@ func (s *ServerWithBinaryProtocol) incrOrDecr(opcode byte, key string, delta int
 	binary.BigEndian.PutUint32(extra[16:20], uint32(expiration))
 	header := s.reqHeaderPool.Get().(*binaryRequestHeader)
 	defer s.reqHeaderPool.Put(header)
+	header.Reset()
 
 	header.Opcode = opcode
 	header.KeyLength = uint16(len(key))
-- 
2.43.0


From 0e655a45ae8d328e06e62e423bafc1d6b07d067c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:23 +0000
Subject: [PATCH 05/28] fix: report success only for the success reply

Delete and Touch (text protocol) took every unknown reply for success, Version
returned any reply line as the version, and Flush, Get, Touch and Version
(binary protocol) ignored the status or the opcode of the response.
---
 client/server.go | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/client/server.go b/client/server.go
index d7d6076..9a94e50 100644
--- a/client/server.go
+++ b/client/server.go
@@ -369,7 +369,7 @@ func (s *ServerWithTextProtocol) Delete(key string) error {
 	case bytes.Equal(b, msgTextProtoNotFound):
 		return merrors.ItemNotFound
 	}
-	return nil
+	return fmt.Errorf("memcached: failed delete: %s", string(b))
 }
 
 func (s *ServerWithTextProtocol) Increment(key string, delta, _ int) (int64, error) {
@@ -447,7 +447,7 @@ func (s *ServerWithTextProtocol) Touch(key string, expiration int) error {
 		return merrors.ItemNotFound
 	}
 
-	return nil
+	return fmt.Errorf("memcached: failed touch: %s", string(b))
 }
 
 func (s *ServerWithTextProtocol) Set(item *Item) error {
@@ -631,10 +631,10 @@ func (s *ServerWithTextProtocol) Version() (string, error) {
 		return "", err
 	}
 
-	if len(b) > 0 {
+	if bytes.HasPrefix(b, []byte("VERSION ")) {
 		return strings.TrimSuffix(strings.TrimPrefix(string(b), "VERSION "), "\r\n"), nil
 	}
-	return "", err
+	return "", fmt.Errorf("memcached: failed version: %s", string(b))
 }
 
 type ServerWithMetaProtocol struct {
@@ -1133,11 +1133,11 @@ func (s *ServerWithMetaProtocol) Version() (string, error) {
 	if err != nil {
 		return "", err
 	}
-	if len(b) > 0 {
+	if bytes.HasPrefix(b, []byte("VERSION ")) {
 		return strings.TrimSuffix(strings.TrimPrefix(string(b), "VERSION "), "\r\n"), nil
 	}
 
-	return "", nil
+	return "", fmt.Errorf("memcached: failed version: %s", string(b))
 }
 
 func (s *ServerWithMetaProtocol) Close() error {
@@ -1250,6 +1250,9 @@ func (s *ServerWithBinaryProtocol) Get(key string) (*Item, error) {
 	if err := resHeader.Read(s.conn); err != nil {
 		return nil, err
 	}
+	if resHeader.Opcode != binaryOpcodeGet {
+		return nil, errors.New("memcached: invalid response")
+	}
 
 	buf := make([]byte, resHeader.TotalBodyLength)
 	if _, err := io.ReadFull(s.conn, buf); err != nil {
@@ -1685,6 +1688,9 @@ func (s *ServerWithBinaryProtocol) Touch(key string, expiration int) error {
 	if err := resHeader.Read(s.conn); err != nil {
 		return err
 	}
+	if resHeader.Opcode != binaryOpcodeTouch {
+		return errors.New("memcached: invalid response")
+	}
 
 	buf := make([]byte, resHeader.TotalBodyLength)
 	if _, err := io.ReadFull(s.conn, buf); err != nil {
@@ -1737,6 +1743,13 @@ func (s *ServerWithBinaryProtocol) Flush() error {
 		return err
 	}
 
+	if resHeader.Status != 0 {
+		if v, ok := binaryStatus[resHeader.Status]; ok {
+			return fmt.Errorf("memcached: error %s", v)
+		}
+		return fmt.Errorf("memcached: unknown error %d", resHeader.Status)
+	}
+
 	return nil
 }
 
@@ -1765,6 +1778,9 @@ func (s *ServerWithBinaryProtocol) Version() (string, error) {
 	if err := resHeader.Read(s.conn); err != nil {
 		return "", err
 	}
+	if resHeader.Opcode != binaryOpcodeVersion {
+		return "", errors.New("memcached: invalid response")
+	}
 
 	buf := make([]byte, resHeader.TotalBodyLength)
 	if _, err := io.ReadFull(s.conn, buf); err != nil {
-- 
2.43.0


From 29291fe34afd32280b365012166f7927112cf3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:41 +0000
Subject: [PATCH 06/28] fix: map replies about missing and existing keys to the
 shared errors

Add and Replace (text, meta) took every failure for an existing or missing
key; a CAS Set (text, binary), Touch (meta, binary), Increment and Decrement
(binary) did not report a missing key as ItemNotFound; Delete (meta) reported
EX as ItemNotFound.
---
 client/server.go | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/client/server.go b/client/server.go
index 9a94e50..8d178a5 100644
--- a/client/server.go
+++ b/client/server.go
@@ -32,6 +32,8 @@ var (
 	valueFormat        = "VALUE %s %d %d"
 )
 
+var msgTextProtoNotStored = []byte("NOT_STORED\r\n")
+
 var (
 	msgMetaProtoEnd       = []byte("EN\r\n")
 	msgMetaProtoNoop      = []byte("MN\r\n")
@@ -495,6 +497,8 @@ func (s *ServerWithTextProtocol) Set(item *Item) error {
 		return nil
 	case bytes.Equal(buf, msgTextProtoExists):
 		return merrors.ItemExists
+	case bytes.Equal(buf, msgTextProtoNotFound):
+		return merrors.ItemNotFound
 	default:
 		return fmt.Errorf("memcached: failed set: %s", string(buf))
 	}
@@ -533,6 +537,9 @@ func (s *ServerWithTextProtocol) Add(item *Item) error {
 	if bytes.Equal(b, msgTextProtoStored) {
 		return nil
 	}
+	if !bytes.Equal(b, msgTextProtoNotStored) {
+		return fmt.Errorf("memcached: failed add: %s", string(b))
+	}
 
 	return merrors.ItemExists
 }
@@ -570,6 +577,9 @@ func (s *ServerWithTextProtocol) Replace(item *Item) error {
 	if bytes.Equal(b, msgTextProtoStored) {
 		return nil
 	}
+	if !bytes.Equal(b, msgTextProtoNotStored) {
+		return fmt.Errorf("memcached: failed replace: %s", string(b))
+	}
 
 	return merrors.ItemNotFound
 }
@@ -942,6 +952,9 @@ func (s *ServerWithMetaProtocol) Add(item *Item) error {
 	if bytes.Equal(b, msgTextProtoStored) {
 		return nil
 	}
+	if !bytes.Equal(b, msgTextProtoNotStored) {
+		return fmt.Errorf("memcached: failed add: %s", string(b))
+	}
 
 	return merrors.ItemExists
 }
@@ -976,6 +989,9 @@ func (s *ServerWithMetaProtocol) Replace(item *Item) error {
 	if bytes.Equal(b, msgTextProtoStored) {
 		return nil
 	}
+	if !bytes.Equal(b, msgTextProtoNotStored) {
+		return fmt.Errorf("memcached: failed replace: %s", string(b))
+	}
 
 	return merrors.ItemNotFound
 }
@@ -1006,7 +1022,7 @@ func (s *ServerWithMetaProtocol) Delete(key string) error {
 	case bytes.HasPrefix(b, msgMetaProtoNotFound):
 		return nil
 	case bytes.HasPrefix(b, msgMetaProtoExists):
-		return merrors.ItemNotFound
+		return merrors.ItemExists
 	default:
 		return errors.New("memcached: failed delete")
 	}
@@ -1080,6 +1096,8 @@ func (s *ServerWithMetaProtocol) Touch(key string, expiration int) error {
 	switch {
 	case bytes.HasPrefix(b, msgMetaProtoDeleted):
 		return nil
+	case bytes.HasPrefix(b, msgMetaProtoNotFound):
+		return merrors.ItemNotFound
 	default:
 		return errors.New("memcached: failed touch")
 	}
@@ -1399,6 +1417,8 @@ func (s *ServerWithBinaryProtocol) Set(item *Item) error {
 
 	if resHeader.Status != 0 {
 		switch resHeader.Status {
+		case 1: // key not found
+			return merrors.ItemNotFound
 		case 2: // key exists
 			return merrors.ItemExists
 		default:
@@ -1639,6 +1659,9 @@ func (s *ServerWithBinaryProtocol) incrOrDecr(opcode byte, key string, delta int
 		body = buf
 	}
 
+	if resHeader.Status == 1 { // key not found
+		return 0, merrors.ItemNotFound
+	}
 	if resHeader.Status != 0 {
 		if v, ok := binaryStatus[resHeader.Status]; ok {
 			additional := ""
@@ -1697,6 +1720,9 @@ func (s *ServerWithBinaryProtocol) Touch(key string, expiration int) error {
 		return err
 	}
 
+	if resHeader.Status == 1 { // key not found
+		return merrors.ItemNotFound
+	}
 	if resHeader.Status != 0 {
 		if v, ok := binaryStatus[resHeader.Status]; ok {
 			return fmt.Errorf("memcached: error %s", v)
-- 
2.43.0


From 44f2d9a1ed4fe79fe03c2a21fe18c91b4a4a816c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:26 +0000
Subject: [PATCH 07/28] fix: decode flags, CAS and expiration of an item in
 their full range

Meta flags above 2^31 and CAS values above 2^63 failed, GetMulti (text, binary)
dropped the CAS value, and an item that never expires had the expiration -1.
---
 client/server.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/client/server.go b/client/server.go
index 8d178a5..c2be10a 100644
--- a/client/server.go
+++ b/client/server.go
@@ -309,7 +309,7 @@ func (s *ServerWithTextProtocol) parseGetResponse(r *bufio.Reader) ([]*Item, err
 			return nil, errors.New("memcached: invalid response")
 		}
 
-		f, err := strconv.Atoi(string(s[2]))
+		f, err := strconv.ParseUint(string(s[2]), 10, 32)
 		if err != nil {
 			return nil, err
 		}
@@ -331,6 +331,12 @@ func (s *ServerWithTextProtocol) parseGetResponse(r *bufio.Reader) ([]*Item, err
 			Key:   string(s[1]),
 			Flags: flags,
 		}
+		if len(s) > 4 {
+			item.Cas, err = strconv.ParseUint(string(s[4][:len(s[4])-2]), 10, 64)
+			if err != nil {
+				return nil, err
+			}
+		}
 		if _, err := io.ReadFull(r, buf); err != nil {
 			return nil, err
 		}
@@ -846,7 +852,7 @@ func (s *ServerWithMetaProtocol) parseGetResponse(conn *bufio.ReadWriter) (*Item
 func (s *ServerWithMetaProtocol) readGetFlagToken(flagName byte, v []byte, item *Item) error {
 	switch flagName {
 	case 'f':
-		in, err := strconv.ParseInt(string(v), 10, 32)
+		in, err := strconv.ParseUint(string(v), 10, 32)
 		if err != nil {
 			return err
 		}
@@ -854,16 +860,19 @@ func (s *ServerWithMetaProtocol) readGetFlagToken(flagName byte, v []byte, item
 		binary.BigEndian.PutUint32(f, uint32(in))
 		item.Flags = f
 	case 'c':
-		in, err := strconv.ParseInt(string(v), 10, 64)
+		in, err := strconv.ParseUint(string(v), 10, 64)
 		if err != nil {
 			return err
 		}
-		item.Cas = uint64(in)
+		item.Cas = in
 	case 't':
 		in, err := strconv.ParseInt(string(v), 10, 32)
 		if err != nil {
 			return err
 		}
+		if in < 0 { // the item never expires
+			in = 0
+		}
 		item.Expiration = int(in)
 	case 'k':
 		item.Key = string(v)
@@ -1365,6 +1374,7 @@ func (s *ServerWithBinaryProtocol) GetMulti(keys ...string) ([]*Item, error) {
 			Key:   string(buf[resHeader.ExtraLength : uint16(resHeader.ExtraLength)+resHeader.KeyLength]),
 			Value: buf[uint16(resHeader.ExtraLength)+resHeader.KeyLength:],
 			Flags: buf[:resHeader.ExtraLength],
+			Cas:   resHeader.CAS,
 		})
 	}
 	if resErr != nil {
-- 
2.43.0


From f886ab7b712b9b81900717e7d37b63e70ca91a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:41 +0000
Subject: [PATCH 08/28] fix: Reconnect does not depend on the state of the old
 connection

Closing a connection that was closed already returned an error, so a failed
Reconnect (or Close) could never be followed by a successful one.
---
 client/server.go | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/client/server.go b/client/server.go
index c2be10a..b6b1edc 100644
--- a/client/server.go
+++ b/client/server.go
@@ -185,9 +185,8 @@ func (s *ServerWithTextProtocol) Reconnect() error {
 	defer s.mu.Unlock()
 
 	if s.raw != nil {
-		if err := s.raw.Close(); err != nil {
-			return err
-		}
+		// The old connection may have been closed already.
+		_ = s.raw.Close()
 	}
 
 	d := &net.Dialer{}
@@ -705,9 +704,8 @@ func (s *ServerWithMetaProtocol) Reconnect() error {
 	defer s.mu.Unlock()
 
 	if s.raw != nil {
-		if err := s.raw.Close(); err != nil {
-			return err
-		}
+		// The old connection may have been closed already.
+		_ = s.raw.Close()
 	}
 
 	d := &net.Dialer{}
@@ -1232,9 +1230,8 @@ func (s *ServerWithBinaryProtocol) Reconnect() error {
 	defer s.mu.Unlock()
 
 	if s.raw != nil {
-		if err := s.raw.Close(); err != nil {
-			return err
-		}
+		// The old connection may have been closed already.
+		_ = s.raw.Close()
 	}
 
 	d := &net.Dialer{}
-- 
2.43.0


From 5cdb81e25c250dfe9c1b2fe287f4c3d76406a10e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:41 +0000
Subject: [PATCH 09/28] fix: close the connection when reading or writing fails

After a timeout in the middle of an exchange, the rest of the response was
taken for the response to the next command.
---
 client/server.go | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/client/server.go b/client/server.go
index b6b1edc..a841965 100644
--- a/client/server.go
+++ b/client/server.go
@@ -121,6 +121,29 @@ func EnableAutoReconnect(opt *ServerOption) {
 	opt.EnableAutoReconnect = true
 }
 
+// transport is a connection that closes itself when reading or writing fails
+// (or times out), because what is still to come of the interrupted exchange
+// must not be taken for the response to a later command.
+type transport struct {
+	net.Conn
+}
+
+func (t *transport) Read(b []byte) (int, error) {
+	n, err := t.Conn.Read(b)
+	if err != nil {
+		t.Conn.Close()
+	}
+	return n, err
+}
+
+func (t *transport) Write(b []byte) (int, error) {
+	n, err := t.Conn.Write(b)
+	if err != nil {
+		t.Conn.Close()
+	}
+	return n, err
+}
+
 type ServerWithTextProtocol struct {
 	name    string
 	Network string
@@ -142,6 +165,7 @@ func NewServerWithTextProtocol(ctx context.Context, name, network, addr string,
 	if err != nil {
 		return nil, err
 	}
+	conn = &transport{Conn: conn}
 
 	opt := &ServerOption{}
 	for _, f := range opts {
@@ -194,6 +218,7 @@ func (s *ServerWithTextProtocol) Reconnect() error {
 	if err != nil {
 		return err
 	}
+	conn = &transport{Conn: conn}
 	s.raw = conn
 	s.conn = bufio.NewReadWriter(bufio.NewReader(conn), bufio.NewWriter(conn))
 	return nil
@@ -673,6 +698,7 @@ func NewServerWithMetaProtocol(ctx context.Context, name, network, addr string,
 	if err != nil {
 		return nil, err
 	}
+	conn = &transport{Conn: conn}
 
 	opt := &ServerOption{}
 	for _, f := range opts {
@@ -713,6 +739,7 @@ func (s *ServerWithMetaProtocol) Reconnect() error {
 	if err != nil {
 		return err
 	}
+	conn = &transport{Conn: conn}
 	s.raw = conn
 	s.conn = bufio.NewReadWriter(bufio.NewReader(conn), bufio.NewWriter(conn))
 	return nil
@@ -1193,6 +1220,7 @@ func NewServerWithBinaryProtocol(ctx context.Context, name, network, addr string
 	if err != nil {
 		return nil, err
 	}
+	conn = &transport{Conn: conn}
 
 	opt := &ServerOption{}
 	for _, f := range opts {
@@ -1239,6 +1267,7 @@ func (s *ServerWithBinaryProtocol) Reconnect() error {
 	if err != nil {
 		return err
 	}
+	conn = &transport{Conn: conn}
 	s.raw = conn
 	s.conn = bufio.NewReadWriter(bufio.NewReader(conn), bufio.NewWriter(conn))
 	return nil
-- 
2.43.0


From e3a6c802b01c33d6b5fd3c65e23f5704015c7bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:30 +0000
Subject: [PATCH 10/28] fix: heartbeat probes in every interval until the
 connection is closed

The heartbeat probed only once and gave up after a failed reconnect, Close of
the meta and binary protocols did not end it, and it could revive a connection
that was being closed. Close changed the connection without synchronisation,
which made a running command panic; it cannot take the lock of the commands
because it must be able to interrupt them.
---
 client/server.go | 72 +++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 65 insertions(+), 7 deletions(-)

diff --git a/client/server.go b/client/server.go
index a841965..6d29da5 100644
--- a/client/server.go
+++ b/client/server.go
@@ -155,6 +155,11 @@ type ServerWithTextProtocol struct {
 	closeCh chan struct{}
 	raw     net.Conn
 	mu      sync.Mutex
+
+	// closeMu protects closeCh and closed and is held along with mu to change
+	// raw, so that Close does not have to wait for a running command.
+	closeMu sync.Mutex
+	closed  bool
 }
 
 var _ Server = &ServerWithTextProtocol{}
@@ -193,15 +198,19 @@ func (s *ServerWithTextProtocol) Name() string {
 }
 
 func (s *ServerWithTextProtocol) Close() error {
-	if s.closeCh == nil {
+	s.closeMu.Lock()
+	defer s.closeMu.Unlock()
+
+	if s.closed {
 		return errors.New("memcached: already closed")
 	}
+	s.closed = true
+	if s.closeCh != nil {
+		close(s.closeCh)
+		s.closeCh = nil
+	}
 
-	err := s.raw.Close()
-	s.raw = nil
-	close(s.closeCh)
-	s.closeCh = nil
-	return err
+	return s.raw.Close()
 }
 
 func (s *ServerWithTextProtocol) Reconnect() error {
@@ -219,7 +228,10 @@ func (s *ServerWithTextProtocol) Reconnect() error {
 		return err
 	}
 	conn = &transport{Conn: conn}
+	s.closeMu.Lock()
 	s.raw = conn
+	s.closed = false
+	s.closeMu.Unlock()
 	s.conn = bufio.NewReadWriter(bufio.NewReader(conn), bufio.NewWriter(conn))
 	return nil
 }
@@ -688,6 +700,10 @@ type ServerWithMetaProtocol struct {
 	conn    *bufio.ReadWriter
 	raw     net.Conn
 	mu      sync.Mutex
+
+	// closeMu protects closeCh and is held along with mu to change raw, so
+	// that Close does not have to wait for a running command.
+	closeMu sync.Mutex
 }
 
 var _ Server = &ServerWithMetaProtocol{}
@@ -740,7 +756,9 @@ func (s *ServerWithMetaProtocol) Reconnect() error {
 		return err
 	}
 	conn = &transport{Conn: conn}
+	s.closeMu.Lock()
 	s.raw = conn
+	s.closeMu.Unlock()
 	s.conn = bufio.NewReadWriter(bufio.NewReader(conn), bufio.NewWriter(conn))
 	return nil
 }
@@ -1193,6 +1211,14 @@ func (s *ServerWithMetaProtocol) Version() (string, error) {
 }
 
 func (s *ServerWithMetaProtocol) Close() error {
+	s.closeMu.Lock()
+	defer s.closeMu.Unlock()
+
+	if s.closeCh != nil {
+		close(s.closeCh)
+		s.closeCh = nil
+	}
+
 	return s.raw.Close()
 }
 
@@ -1208,6 +1234,10 @@ type ServerWithBinaryProtocol struct {
 	conn    *bufio.ReadWriter
 	raw     net.Conn
 
+	// closeMu protects closeCh and is held along with mu to change raw, so
+	// that Close does not have to wait for a running command.
+	closeMu sync.Mutex
+
 	reqHeaderPool *sync.Pool
 	resHeaderPool *sync.Pool
 }
@@ -1268,7 +1298,9 @@ func (s *ServerWithBinaryProtocol) Reconnect() error {
 		return err
 	}
 	conn = &transport{Conn: conn}
+	s.closeMu.Lock()
 	s.raw = conn
+	s.closeMu.Unlock()
 	s.conn = bufio.NewReadWriter(bufio.NewReader(conn), bufio.NewWriter(conn))
 	return nil
 }
@@ -1860,6 +1892,14 @@ func (s *ServerWithBinaryProtocol) Version() (string, error) {
 }
 
 func (s *ServerWithBinaryProtocol) Close() error {
+	s.closeMu.Lock()
+	defer s.closeMu.Unlock()
+
+	if s.closeCh != nil {
+		close(s.closeCh)
+		s.closeCh = nil
+	}
+
 	return s.raw.Close()
 }
 
@@ -1955,7 +1995,8 @@ func (h *binaryResponseHeader) Read(r io.Reader) error {
 }
 
 func heartbeat(s Server, interval time.Duration, reconnect bool, closeCh <-chan struct{}) {
-	ticker := time.NewTimer(interval)
+	ticker := time.NewTicker(interval)
+	defer ticker.Stop()
 	for {
 		select {
 		case <-closeCh:
@@ -1964,7 +2005,15 @@ func heartbeat(s Server, interval time.Duration, reconnect bool, closeCh <-chan
 			_, err := s.Version()
 			if err != nil {
 				if reconnect {
+					if isClosed(closeCh) {
+						return
+					}
 					if err := s.Reconnect(); err != nil {
+						continue // try again at the next probe
+					}
+					if isClosed(closeCh) {
+						// Closed while reconnecting.
+						s.Close()
 						return
 					}
 				} else {
@@ -1974,3 +2023,12 @@ func heartbeat(s Server, interval time.Duration, reconnect bool, closeCh <-chan
 		}
 	}
 }
+
+func isClosed(ch <-chan struct{}) bool {
+	select {
+	case <-ch:
+		return true
+	default:
+		return false
+	}
+}
-- 
2.43.0


From cedb974b2a60bf36132f712ab67fedd2fbc7820c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:03 +0000
Subject: [PATCH 11/28] fix: no reply makes the client panic

Missing, negative or excessive lengths and tokens in a reply led to an index
or allocation out of range, as did item flags that are not four bytes long.
---
 client/server.go | 54 ++++++++++++++++++++++++++++++++++++------------
 1 file changed, 41 insertions(+), 13 deletions(-)

diff --git a/client/server.go b/client/server.go
index 6d29da5..8bacf67 100644
--- a/client/server.go
+++ b/client/server.go
@@ -34,6 +34,10 @@ var (
 
 var msgTextProtoNotStored = []byte("NOT_STORED\r\n")
 
+// maxValueSize is the limit for the size of a value in a response. No server
+// stores larger items.
+const maxValueSize = 1 << 30
+
 var (
 	msgMetaProtoEnd       = []byte("EN\r\n")
 	msgMetaProtoNoop      = []byte("MN\r\n")
@@ -281,6 +285,9 @@ func (s *ServerWithTextProtocol) Get(key string) (*Item, error) {
 	binary.BigEndian.PutUint32(f, flags)
 	item.Flags = f
 
+	if size < 0 || size > maxValueSize {
+		return nil, errors.New("memcached: invalid response")
+	}
 	buf := make([]byte, size+2)
 	if _, err := io.ReadFull(s.conn, buf); err != nil {
 		return nil, err
@@ -345,6 +352,10 @@ func (s *ServerWithTextProtocol) parseGetResponse(r *bufio.Reader) ([]*Item, err
 			return nil, errors.New("memcached: invalid response")
 		}
 
+		if len(s) < 4 || len(s[len(s)-1]) < 2 {
+			return nil, errors.New("memcached: invalid response")
+		}
+
 		f, err := strconv.ParseUint(string(s[2]), 10, 32)
 		if err != nil {
 			return nil, err
@@ -361,6 +372,9 @@ func (s *ServerWithTextProtocol) parseGetResponse(r *bufio.Reader) ([]*Item, err
 		if err != nil {
 			return nil, err
 		}
+		if size < 0 || size > maxValueSize {
+			return nil, errors.New("memcached: invalid response")
+		}
 
 		buf := make([]byte, size+2)
 		item := &Item{
@@ -368,7 +382,7 @@ func (s *ServerWithTextProtocol) parseGetResponse(r *bufio.Reader) ([]*Item, err
 			Flags: flags,
 		}
 		if len(s) > 4 {
-			item.Cas, err = strconv.ParseUint(string(s[4][:len(s[4])-2]), 10, 64)
+			item.Cas, err = strconv.ParseUint(strings.TrimSuffix(string(s[4]), "\r\n"), 10, 64)
 			if err != nil {
 				return nil, err
 			}
@@ -452,7 +466,7 @@ func (s *ServerWithTextProtocol) incrOrDecr(op, key string, delta int) (int64, e
 	case bytes.Equal(b, msgTextProtoNotFound):
 		return 0, merrors.ItemNotFound
 	default:
-		i, err := strconv.ParseInt(string(b[:len(b)-2]), 10, 64)
+		i, err := strconv.ParseInt(strings.TrimSuffix(string(b), "\r\n"), 10, 64)
 		if err != nil {
 			return 0, err
 		}
@@ -654,7 +668,7 @@ func (s *ServerWithTextProtocol) Flush() error {
 	case bytes.Equal(b, msgTextProtoOk):
 		return nil
 	default:
-		return fmt.Errorf("memcached: %s", string(b[:len(b)-2]))
+		return fmt.Errorf("memcached: %s", strings.TrimSuffix(string(b), "\r\n"))
 	}
 }
 
@@ -837,7 +851,7 @@ func (s *ServerWithMetaProtocol) parseGetResponse(conn *bufio.ReadWriter) (*Item
 	if bytes.Equal(b, msgMetaProtoNoop) {
 		return nil, errMetaNoop
 	}
-	if !bytes.HasPrefix(b, []byte("VA")) {
+	if !bytes.HasPrefix(b, []byte("VA ")) {
 		return nil, errors.New("memcached: invalid get response")
 	}
 
@@ -883,6 +897,9 @@ func (s *ServerWithMetaProtocol) parseGetResponse(conn *bufio.ReadWriter) (*Item
 		}
 	}
 
+	if size < 0 {
+		return nil, errors.New("memcached: invalid response")
+	}
 	buf := make([]byte, size+2)
 	if _, err := io.ReadFull(conn, buf); err != nil {
 		return nil, err
@@ -939,7 +956,7 @@ func (s *ServerWithMetaProtocol) Set(item *Item) error {
 		format += " C%d"
 		values = append(values, item.Cas)
 	}
-	if item.Flags != nil {
+	if len(item.Flags) == 4 {
 		format += " F%d"
 		values = append(values, binary.BigEndian.Uint32(item.Flags))
 	}
@@ -1116,7 +1133,7 @@ func (s *ServerWithMetaProtocol) incrOrDecr(op, key string, delta int) (int64, e
 	case bytes.Equal(b, msgTextProtoNotFound):
 		return 0, merrors.ItemNotFound
 	default:
-		i, err := strconv.ParseInt(string(b[:len(b)-2]), 10, 64)
+		i, err := strconv.ParseInt(strings.TrimSuffix(string(b), "\r\n"), 10, 64)
 		if err != nil {
 			return 0, err
 		}
@@ -1179,7 +1196,7 @@ func (s *ServerWithMetaProtocol) Flush() error {
 	case bytes.Equal(b, msgTextProtoOk):
 		return nil
 	default:
-		return fmt.Errorf("memcached: %s", string(b[:len(b)-2]))
+		return fmt.Errorf("memcached: %s", strings.TrimSuffix(string(b), "\r\n"))
 	}
 }
 
@@ -1356,9 +1373,13 @@ func (s *ServerWithBinaryProtocol) Get(key string) (*Item, error) {
 		return nil, fmt.Errorf("memcached: unknown error %d", resHeader.Status)
 	}
 
+	valueOffset := int(resHeader.ExtraLength) + int(resHeader.KeyLength)
+	if valueOffset > len(buf) {
+		return nil, errors.New("memcached: invalid response")
+	}
 	return &Item{
 		Key:   key,
-		Value: buf[uint16(resHeader.ExtraLength)+resHeader.KeyLength:],
+		Value: buf[valueOffset:],
 		Flags: buf[:resHeader.ExtraLength],
 		Cas:   resHeader.CAS,
 	}, nil
@@ -1428,9 +1449,13 @@ func (s *ServerWithBinaryProtocol) GetMulti(keys ...string) ([]*Item, error) {
 			continue
 		}
 
+		valueOffset := int(resHeader.ExtraLength) + int(resHeader.KeyLength)
+		if valueOffset > len(buf) {
+			return nil, errors.New("memcached: invalid response")
+		}
 		items = append(items, &Item{
-			Key:   string(buf[resHeader.ExtraLength : uint16(resHeader.ExtraLength)+resHeader.KeyLength]),
-			Value: buf[uint16(resHeader.ExtraLength)+resHeader.KeyLength:],
+			Key:   string(buf[resHeader.ExtraLength:valueOffset]),
+			Value: buf[valueOffset:],
 			Flags: buf[:resHeader.ExtraLength],
 			Cas:   resHeader.CAS,
 		})
@@ -1459,7 +1484,7 @@ func (s *ServerWithBinaryProtocol) Set(item *Item) error {
 	if err := header.EncodeTo(s.conn); err != nil {
 		return err
 	}
-	if item.Flags != nil {
+	if len(item.Flags) == 4 {
 		copy(extra[:4], item.Flags[:4])
 	}
 	s.conn.Write(extra)
@@ -1518,7 +1543,7 @@ func (s *ServerWithBinaryProtocol) Add(item *Item) error {
 	if err := header.EncodeTo(s.conn); err != nil {
 		return err
 	}
-	if item.Flags != nil {
+	if len(item.Flags) == 4 {
 		copy(extra[:4], item.Flags[:4])
 	}
 	s.conn.Write(extra)
@@ -1575,7 +1600,7 @@ func (s *ServerWithBinaryProtocol) Replace(item *Item) error {
 	if err := header.EncodeTo(s.conn); err != nil {
 		return err
 	}
-	if item.Flags != nil {
+	if len(item.Flags) == 4 {
 		copy(extra[:4], item.Flags[:4])
 	}
 	s.conn.Write(extra)
@@ -1742,6 +1767,9 @@ func (s *ServerWithBinaryProtocol) incrOrDecr(opcode byte, key string, delta int
 		}
 	}
 
+	if len(body) < 8 {
+		return 0, errors.New("memcached: invalid response")
+	}
 	return int64(binary.BigEndian.Uint64(body)), nil
 }
 
-- 
2.43.0


From f78c4c547cbd13d8a44b128ba342e3f16cfd3a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:19 +0000
Subject: [PATCH 12/28] fix: refuse keys that the protocol can not carry

A key with white space or a line end changed the request or added another one,
and the length of a long key was cut to 16 bits in the binary protocol.
---
 client/server.go | 126 +++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 126 insertions(+)

diff --git a/client/server.go b/client/server.go
index 8bacf67..f92328f 100644
--- a/client/server.go
+++ b/client/server.go
@@ -38,6 +38,9 @@ var msgTextProtoNotStored = []byte("NOT_STORED\r\n")
 // stores larger items.
 const maxValueSize = 1 << 30
 
+// maxKeyLength is the limit of memcached for the length of a key.
+const maxKeyLength = 250
+
 var (
 	msgMetaProtoEnd       = []byte("EN\r\n")
 	msgMetaProtoNoop      = []byte("MN\r\n")
@@ -125,6 +128,27 @@ func EnableAutoReconnect(opt *ServerOption) {
 	opt.EnableAutoReconnect = true
 }
 
+// checkKey reports if the key can not be sent in a line of the text or meta protocol.
+func checkKey(key string) error {
+	if err := checkBinaryKey(key); err != nil {
+		return err
+	}
+	for i := 0; i < len(key); i++ {
+		if key[i] <= ' ' || key[i] == 0x7f {
+			return errors.New("memcached: malformed key")
+		}
+	}
+	return nil
+}
+
+// checkBinaryKey reports if the key can not be sent in the binary protocol.
+func checkBinaryKey(key string) error {
+	if len(key) == 0 || len(key) > maxKeyLength {
+		return errors.New("memcached: malformed key")
+	}
+	return nil
+}
+
 // transport is a connection that closes itself when reading or writing fails
 // (or times out), because what is still to come of the interrupted exchange
 // must not be taken for the response to a later command.
@@ -241,6 +265,10 @@ func (s *ServerWithTextProtocol) Reconnect() error {
 }
 
 func (s *ServerWithTextProtocol) Get(key string) (*Item, error) {
+	if err := checkKey(key); err != nil {
+		return nil, err
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -306,6 +334,12 @@ func (s *ServerWithTextProtocol) Get(key string) (*Item, error) {
 }
 
 func (s *ServerWithTextProtocol) GetMulti(keys ...string) ([]*Item, error) {
+	for _, key := range keys {
+		if err := checkKey(key); err != nil {
+			return nil, err
+		}
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -398,6 +432,10 @@ func (s *ServerWithTextProtocol) parseGetResponse(r *bufio.Reader) ([]*Item, err
 }
 
 func (s *ServerWithTextProtocol) Delete(key string) error {
+	if err := checkKey(key); err != nil {
+		return err
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -439,6 +477,10 @@ func (s *ServerWithTextProtocol) Decrement(key string, delta, _ int) (int64, err
 }
 
 func (s *ServerWithTextProtocol) incrOrDecr(op, key string, delta int) (int64, error) {
+	if err := checkKey(key); err != nil {
+		return 0, err
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -475,6 +517,10 @@ func (s *ServerWithTextProtocol) incrOrDecr(op, key string, delta int) (int64, e
 }
 
 func (s *ServerWithTextProtocol) Touch(key string, expiration int) error {
+	if err := checkKey(key); err != nil {
+		return err
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -509,6 +555,10 @@ func (s *ServerWithTextProtocol) Touch(key string, expiration int) error {
 }
 
 func (s *ServerWithTextProtocol) Set(item *Item) error {
+	if err := checkKey(item.Key); err != nil {
+		return err
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -561,6 +611,10 @@ func (s *ServerWithTextProtocol) Set(item *Item) error {
 }
 
 func (s *ServerWithTextProtocol) Add(item *Item) error {
+	if err := checkKey(item.Key); err != nil {
+		return err
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -601,6 +655,10 @@ func (s *ServerWithTextProtocol) Add(item *Item) error {
 }
 
 func (s *ServerWithTextProtocol) Replace(item *Item) error {
+	if err := checkKey(item.Key); err != nil {
+		return err
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -778,6 +836,10 @@ func (s *ServerWithMetaProtocol) Reconnect() error {
 }
 
 func (s *ServerWithMetaProtocol) Get(key string) (*Item, error) {
+	if err := checkKey(key); err != nil {
+		return nil, err
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -802,6 +864,12 @@ func (s *ServerWithMetaProtocol) Get(key string) (*Item, error) {
 }
 
 func (s *ServerWithMetaProtocol) GetMulti(keys ...string) ([]*Item, error) {
+	for _, key := range keys {
+		if err := checkKey(key); err != nil {
+			return nil, err
+		}
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -942,6 +1010,10 @@ func (s *ServerWithMetaProtocol) readGetFlagToken(flagName byte, v []byte, item
 }
 
 func (s *ServerWithMetaProtocol) Set(item *Item) error {
+	if err := checkKey(item.Key); err != nil {
+		return err
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -992,6 +1064,10 @@ func (s *ServerWithMetaProtocol) Set(item *Item) error {
 }
 
 func (s *ServerWithMetaProtocol) Add(item *Item) error {
+	if err := checkKey(item.Key); err != nil {
+		return err
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -1029,6 +1105,10 @@ func (s *ServerWithMetaProtocol) Add(item *Item) error {
 }
 
 func (s *ServerWithMetaProtocol) Replace(item *Item) error {
+	if err := checkKey(item.Key); err != nil {
+		return err
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -1066,6 +1146,10 @@ func (s *ServerWithMetaProtocol) Replace(item *Item) error {
 }
 
 func (s *ServerWithMetaProtocol) Delete(key string) error {
+	if err := checkKey(key); err != nil {
+		return err
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -1110,6 +1194,10 @@ func (s *ServerWithMetaProtocol) Decrement(key string, delta, _ int) (int64, err
 }
 
 func (s *ServerWithMetaProtocol) incrOrDecr(op, key string, delta int) (int64, error) {
+	if err := checkKey(key); err != nil {
+		return 0, err
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -1142,6 +1230,10 @@ func (s *ServerWithMetaProtocol) incrOrDecr(op, key string, delta int) (int64, e
 }
 
 func (s *ServerWithMetaProtocol) Touch(key string, expiration int) error {
+	if err := checkKey(key); err != nil {
+		return err
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -1323,6 +1415,10 @@ func (s *ServerWithBinaryProtocol) Reconnect() error {
 }
 
 func (s *ServerWithBinaryProtocol) Get(key string) (*Item, error) {
+	if err := checkBinaryKey(key); err != nil {
+		return nil, err
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -1386,6 +1482,12 @@ func (s *ServerWithBinaryProtocol) Get(key string) (*Item, error) {
 }
 
 func (s *ServerWithBinaryProtocol) GetMulti(keys ...string) ([]*Item, error) {
+	for _, key := range keys {
+		if err := checkBinaryKey(key); err != nil {
+			return nil, err
+		}
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -1468,6 +1570,10 @@ func (s *ServerWithBinaryProtocol) GetMulti(keys ...string) ([]*Item, error) {
 }
 
 func (s *ServerWithBinaryProtocol) Set(item *Item) error {
+	if err := checkBinaryKey(item.Key); err != nil {
+		return err
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -1527,6 +1633,10 @@ func (s *ServerWithBinaryProtocol) Set(item *Item) error {
 }
 
 func (s *ServerWithBinaryProtocol) Add(item *Item) error {
+	if err := checkBinaryKey(item.Key); err != nil {
+		return err
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -1584,6 +1694,10 @@ func (s *ServerWithBinaryProtocol) Add(item *Item) error {
 }
 
 func (s *ServerWithBinaryProtocol) Replace(item *Item) error {
+	if err := checkBinaryKey(item.Key); err != nil {
+		return err
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -1641,6 +1755,10 @@ func (s *ServerWithBinaryProtocol) Replace(item *Item) error {
 }
 
 func (s *ServerWithBinaryProtocol) Delete(key string) error {
+	if err := checkBinaryKey(key); err != nil {
+		return err
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -1703,6 +1821,10 @@ func (s *ServerWithBinaryProtocol) Decrement(key string, delta, expiration int)
 }
 
 func (s *ServerWithBinaryProtocol) incrOrDecr(opcode byte, key string, delta int, expiration int) (int64, error) {
+	if err := checkBinaryKey(key); err != nil {
+		return 0, err
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -1774,6 +1896,10 @@ func (s *ServerWithBinaryProtocol) incrOrDecr(opcode byte, key string, delta int
 }
 
 func (s *ServerWithBinaryProtocol) Touch(key string, expiration int) error {
+	if err := checkBinaryKey(key); err != nil {
+		return err
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
-- 
2.43.0


From 9940596a549d2f653456dca500b91f45ed07e50c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:19 +0000
Subject: [PATCH 13/28] fix: SinglePool.Close closes every server

It stopped at the first server that could not be closed.
---
 client/client.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/client/client.go b/client/client.go
index 44a579f..2bd327c 100644
--- a/client/client.go
+++ b/client/client.go
@@ -109,7 +109,5 @@ func (c *SinglePool) Version() (map[string]string, error) {
 }
 
 func (c *SinglePool) Close() error {
-	return c.ring.Each(func(s Server) error {
-		return s.Close()
-	})
+	return c.ring.Close()
 }
-- 
2.43.0


From 400d55b9449bee8caa92228dd8e78d1a3fca6b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:19 +0000
Subject: [PATCH 14/28] fix: do not apply the CAS value of the primary to the
 secondary

---
 cluster/cluster.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/cluster/cluster.go b/cluster/cluster.go
index 63b5830..6b3c31d 100644
--- a/cluster/cluster.go
+++ b/cluster/cluster.go
@@ -58,7 +58,7 @@ func (p *ReplicaPool) Set(item *client.Item) error {
 		return err
 	}
 
-	return p.secondary.Pick(item.Key).Set(item)
+	return p.secondary.Pick(item.Key).Set(withoutCas(item))
 }
 
 func (p *ReplicaPool) Add(item *client.Item) error {
@@ -66,7 +66,7 @@ func (p *ReplicaPool) Add(item *client.Item) error {
 		return err
 	}
 
-	return p.secondary.Pick(item.Key).Set(item)
+	return p.secondary.Pick(item.Key).Set(withoutCas(item))
 }
 
 func (p *ReplicaPool) Replace(item *client.Item) error {
@@ -74,7 +74,7 @@ func (p *ReplicaPool) Replace(item *client.Item) error {
 		return err
 	}
 
-	return p.secondary.Pick(item.Key).Set(item)
+	return p.secondary.Pick(item.Key).Set(withoutCas(item))
 }
 
 func (p *ReplicaPool) Delete(key string) error {
@@ -128,3 +128,11 @@ func (p *ReplicaPool) Decrement(key string, delta, expiration int) (int64, error
 	}
 	return n, nil
 }
+
+// withoutCas returns the item to store on the secondary: the CAS value of item
+// is the one of the primary.
+func withoutCas(item *client.Item) *client.Item {
+	i := *item
+	i.Cas = 0
+	return &i
+}
-- 
2.43.0


From fd0cc7c3bcdfffefe527783bc2e7ebf40f695a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:55 +0000
Subject: [PATCH 15/28] fix: recognise a miss of the meta protocol that has
 return flags

memcached answers "EN k<key>" to the gets that GetMulti sends.
---
 client/server.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/client/server.go b/client/server.go
index f92328f..272adba 100644
--- a/client/server.go
+++ b/client/server.go
@@ -913,7 +913,8 @@ func (s *ServerWithMetaProtocol) parseGetResponse(conn *bufio.ReadWriter) (*Item
 	if err != nil {
 		return nil, err
 	}
-	if bytes.Equal(b, msgMetaProtoEnd) {
+	// memcached 1.6 returns flags such as the key along with a miss.
+	if bytes.Equal(b, msgMetaProtoEnd) || bytes.HasPrefix(b, []byte("EN ")) {
 		return nil, merrors.ItemNotFound
 	}
 	if bytes.Equal(b, msgMetaProtoNoop) {
-- 
2.43.0


From 2a34be2c43abff03d93540069d0c332812e52458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:57 +0000
Subject: [PATCH 16/28] fix: refuse requests whose lengths are wrong

Negative, missing and inconsistent lengths made the server panic or take the
body of a request for the next request. A missing response made it panic, too.
---
 server/server.go | 56 ++++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 54 insertions(+), 2 deletions(-)

diff --git a/server/server.go b/server/server.go
index 0fa64ce..74da9ef 100644
--- a/server/server.go
+++ b/server/server.go
@@ -2,6 +2,7 @@ package server
 
 import (
 	"bufio"
+	"bytes"
 	"encoding/binary"
 	"errors"
 	"fmt"
@@ -122,6 +123,11 @@ func (c *conn) readAsciiRequest() (*Request, error) {
 	if len(s) == 0 {
 		return nil, errors.New("server: invalid request")
 	}
+	for _, token := range s {
+		if token == "" {
+			return nil, errors.New("server: invalid request")
+		}
+	}
 
 	switch s[0] {
 	case "get":
@@ -150,10 +156,16 @@ func (c *conn) readAsciiRequest() (*Request, error) {
 		if err != nil {
 			return nil, err
 		}
+		if bufLen < 0 {
+			return nil, errors.New("server: invalid request")
+		}
 		buf := make([]byte, bufLen+2)
 		if _, err := io.ReadFull(c.connBuf, buf); err != nil {
 			return nil, err
 		}
+		if !bytes.HasSuffix(buf, crlf) {
+			return nil, errors.New("server: invalid request")
+		}
 		buf = buf[:bufLen]
 
 		opcode := OpcodeSet
@@ -276,10 +288,16 @@ func (c *conn) readAsciiRequest() (*Request, error) {
 			}
 		}
 
+		if opt.Size < 0 {
+			return nil, errors.New("server: invalid request")
+		}
 		buf := make([]byte, opt.Size+2)
 		if _, err := io.ReadFull(c.connBuf, buf); err != nil {
 			return nil, err
 		}
+		if !bytes.HasSuffix(buf, crlf) {
+			return nil, errors.New("server: invalid request")
+		}
 		buf = buf[:opt.Size]
 
 		return &Request{Opcode: OpcodeSet, Key: s[1], Value: buf, SetOpt: opt}, nil
@@ -300,6 +318,9 @@ func (c *conn) readBinaryRequest() (*Request, error) {
 	if header[0] != magicRequest {
 		return nil, errors.New("server: invalid request")
 	}
+	if !validBinaryLengths(header) {
+		return nil, errors.New("server: invalid request")
+	}
 
 	switch Opcode(header[1]) {
 	case OpcodeGet:
@@ -393,6 +414,29 @@ func (c *conn) readBinaryRequest() (*Request, error) {
 	return nil, errors.New("server: invalid request")
 }
 
+// validBinaryLengths reports if the lengths in the header of a request are
+// the ones that its command has.
+func validBinaryLengths(header []byte) bool {
+	keyLen := int(binary.BigEndian.Uint16(header[2:4]))
+	extraLen := int(header[4])
+	bodyLen := int(binary.BigEndian.Uint32(header[8:12]))
+
+	switch Opcode(header[1]) {
+	case OpcodeGet, OpcodeGetKQ, OpcodeDelete:
+		return keyLen > 0 && extraLen == 0 && bodyLen == keyLen
+	case OpcodeSet, OpcodeAdd, OpcodeReplace:
+		return keyLen > 0 && extraLen == 8 && bodyLen >= extraLen+keyLen
+	case OpcodeIncrement, OpcodeDecrement:
+		return keyLen > 0 && extraLen == 20 && bodyLen == extraLen+keyLen
+	case OpcodeTouch:
+		return keyLen > 0 && extraLen == 4 && bodyLen == extraLen+keyLen
+	case OpcodeNoop, OpcodeVersion, OpcodeFlush:
+		return keyLen == 0 && extraLen == 0 && bodyLen == 0
+	}
+
+	return false
+}
+
 type Opcode byte
 
 type Handler interface {
@@ -526,6 +570,10 @@ func (s *Server) writeResponse(conn *conn, req *Request, res []*Response) error
 }
 
 func (s *Server) writeAsciiResponse(conn *conn, req *Request, res []*Response) error {
+	if req.Opcode != OpcodeGet && len(res) == 0 {
+		return errors.New("server: no response")
+	}
+
 	switch req.Opcode {
 	case OpcodeGet:
 		if req.GetOpt == nil {
@@ -620,7 +668,7 @@ func (s *Server) writeAsciiResponse(conn *conn, req *Request, res []*Response) e
 
 func (s *Server) writeAsciiResponseGet(conn *conn, r *Response) error {
 	flag := uint32(0)
-	if len(r.Flags) > 0 {
+	if len(r.Flags) == 4 {
 		flag = binary.BigEndian.Uint32(r.Flags)
 	}
 	_, err := conn.connBuf.WriteString(
@@ -644,7 +692,7 @@ func (s *Server) writeAsciiResponseGet(conn *conn, r *Response) error {
 }
 func (s *Server) writeAsciiResponseMetaGet(conn *conn, req *Request, r *Response) error {
 	flag := uint32(0)
-	if len(r.Flags) > 0 {
+	if len(r.Flags) == 4 {
 		flag = binary.BigEndian.Uint32(r.Flags)
 	}
 	_, err := conn.connBuf.WriteString(
@@ -684,6 +732,10 @@ func (s *Server) writeAsciiResponseMetaGet(conn *conn, req *Request, r *Response
 }
 
 func (s *Server) writeBinaryResponse(conn *conn, req *Request, res []*Response) error {
+	if req.Opcode != OpcodeGet && len(res) == 0 {
+		return errors.New("server: no response")
+	}
+
 	switch req.Opcode {
 	case OpcodeGet:
 		for _, v := range res {
-- 
2.43.0


From f8d8f80cfb98ee19f3e12245df3c3f33efb303ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:33 +0000
Subject: [PATCH 17/28] fix: parse requests in the full range of their operands
 and refuse invalid ones

A bare line feed became part of the key, flags above 2^31 and deltas above 2^31
were refused, negative deltas and gets without a key were not, unknown flags of
meta commands were ignored, and the CAS value of a binary set was dropped.
---
 server/server.go | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/server/server.go b/server/server.go
index 74da9ef..cad8627 100644
--- a/server/server.go
+++ b/server/server.go
@@ -7,6 +7,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"math"
 	"net"
 	"strconv"
 	"strings"
@@ -119,7 +120,7 @@ func (c *conn) readAsciiRequest() (*Request, error) {
 	if err != nil {
 		return nil, err
 	}
-	s := strings.Split(strings.TrimSuffix(string(line), "\r\n"), " ")
+	s := strings.Split(strings.TrimSuffix(strings.TrimSuffix(string(line), "\n"), "\r"), " ")
 	if len(s) == 0 {
 		return nil, errors.New("server: invalid request")
 	}
@@ -136,12 +137,15 @@ func (c *conn) readAsciiRequest() (*Request, error) {
 		}
 		return &Request{Opcode: OpcodeGet, Key: s[1]}, nil
 	case "gets":
+		if len(s) < 2 {
+			return nil, errors.New("server: invalid request")
+		}
 		return &Request{Opcode: OpcodeGet, Keys: s[1:]}, nil
 	case "set", "add", "replace":
 		if len(s) != 5 {
 			return nil, errors.New("server: invalid request")
 		}
-		f, err := strconv.ParseInt(s[2], 10, 32)
+		f, err := strconv.ParseUint(s[2], 10, 32)
 		if err != nil {
 			return nil, err
 		}
@@ -190,7 +194,7 @@ func (c *conn) readAsciiRequest() (*Request, error) {
 		if len(s) != 3 {
 			return nil, errors.New("server: invalid request")
 		}
-		d, err := strconv.ParseInt(s[2], 10, 32)
+		d, err := strconv.ParseInt(s[2], 10, 64)
 		if err != nil {
 			return nil, err
 		}
@@ -201,6 +205,9 @@ func (c *conn) readAsciiRequest() (*Request, error) {
 		case "touch":
 			opcode = OpcodeTouch
 		}
+		if opcode != OpcodeTouch && d < 0 {
+			return nil, errors.New("server: invalid request")
+		}
 		return &Request{Opcode: opcode, Key: s[1], Delta: d}, nil
 	case "mg":
 		if len(s) < 3 {
@@ -230,6 +237,8 @@ func (c *conn) readAsciiRequest() (*Request, error) {
 					opt.TTL = true
 				case 'v':
 					opt.Value = true
+				default:
+					return nil, errors.New("server: invalid request")
 				}
 			}
 		}
@@ -255,7 +264,7 @@ func (c *conn) readAsciiRequest() (*Request, error) {
 					}
 					opt.CasValue = v
 				case 'F':
-					v, err := strconv.ParseInt(f[1:], 10, 32)
+					v, err := strconv.ParseUint(f[1:], 10, 32)
 					if err != nil {
 						return nil, err
 					}
@@ -284,6 +293,8 @@ func (c *conn) readAsciiRequest() (*Request, error) {
 						return nil, err
 					}
 					opt.Expiration = int(v)
+				default:
+					return nil, errors.New("server: invalid request")
 				}
 			}
 		}
@@ -345,6 +356,7 @@ func (c *conn) readBinaryRequest() (*Request, error) {
 			return nil, err
 		}
 		expiration := binary.BigEndian.Uint32(extra[4:8])
+		cas := binary.BigEndian.Uint64(header[16:24])
 
 		KeyLength := binary.BigEndian.Uint16(header[2:4])
 		keyBuf := make([]byte, KeyLength)
@@ -362,7 +374,7 @@ func (c *conn) readBinaryRequest() (*Request, error) {
 			Opcode: Opcode(header[1]),
 			Key:    string(keyBuf),
 			Value:  buf,
-			SetOpt: &SetOpt{Expiration: int(expiration)},
+			SetOpt: &SetOpt{Expiration: int(expiration), Cas: cas != 0, CasValue: cas},
 			Flags:  extra[:4],
 		}, nil
 	case OpcodeDelete:
@@ -379,6 +391,9 @@ func (c *conn) readBinaryRequest() (*Request, error) {
 			return nil, err
 		}
 		delta := binary.BigEndian.Uint64(extra[:8])
+		if delta > math.MaxInt64 {
+			return nil, errors.New("server: invalid request")
+		}
 		expiration := binary.BigEndian.Uint32(extra[16:20])
 
 		KeyLength := binary.BigEndian.Uint16(header[2:4])
-- 
2.43.0


From 5672e3398a1c479b7642fef5d61c89ba33fecd6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:12 +0000
Subject: [PATCH 18/28] fix: answer meta gets in the format of the protocol

Flags were only recognised in one token, and the reply listed all flags before
all their values and announced a value that had not been asked for.
---
 server/server.go | 31 +++++++++++++++----------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/server/server.go b/server/server.go
index cad8627..9188ad9 100644
--- a/server/server.go
+++ b/server/server.go
@@ -213,9 +213,9 @@ func (c *conn) readAsciiRequest() (*Request, error) {
 		if len(s) < 3 {
 			return nil, errors.New("server: invalid request")
 		}
-		opt := &GetOpt{Meta: true, RequestFlag: s[2]}
+		opt := &GetOpt{Meta: true, RequestFlag: strings.Join(s[2:], "")}
 		if len(s[2]) > 0 {
-			for _, f := range s[2] {
+			for _, f := range opt.RequestFlag {
 				switch f {
 				case 'c':
 					opt.Cas = true
@@ -710,27 +710,26 @@ func (s *Server) writeAsciiResponseMetaGet(conn *conn, req *Request, r *Response
 	if len(r.Flags) == 4 {
 		flag = binary.BigEndian.Uint32(r.Flags)
 	}
-	_, err := conn.connBuf.WriteString(
-		fmt.Sprintf("VA %d %s",
-			len(r.Value),
-			req.GetOpt.RequestFlag,
-		),
-	)
+	status := "HD"
+	if req.GetOpt.Value {
+		status = fmt.Sprintf("VA %d", len(r.Value))
+	}
+	_, err := conn.connBuf.WriteString(status)
 	if err != nil {
 		return err
 	}
 	for _, v := range req.GetOpt.RequestFlag {
 		switch v {
 		case 'c':
-			conn.connBuf.WriteString(" " + strconv.FormatInt(r.Cas, 10))
+			conn.connBuf.WriteString(" c" + strconv.FormatUint(uint64(r.Cas), 10))
 		case 'f':
-			conn.connBuf.WriteString(" " + strconv.FormatInt(int64(flag), 10))
+			conn.connBuf.WriteString(" f" + strconv.FormatInt(int64(flag), 10))
 		case 'k':
-			conn.connBuf.WriteString(" " + req.Key)
+			conn.connBuf.WriteString(" k" + req.Key)
 		case 's':
-			conn.connBuf.WriteString(" " + strconv.FormatInt(int64(len(r.Value)), 10))
+			conn.connBuf.WriteString(" s" + strconv.FormatInt(int64(len(r.Value)), 10))
 		case 't':
-			conn.connBuf.WriteString(" " + strconv.FormatInt(r.TTL, 10))
+			conn.connBuf.WriteString(" t" + strconv.FormatInt(r.TTL, 10))
 		}
 	}
 	conn.connBuf.Write(crlf)
@@ -738,9 +737,9 @@ func (s *Server) writeAsciiResponseMetaGet(conn *conn, req *Request, r *Response
 		if _, err := conn.connBuf.Write(r.Value); err != nil {
 			return err
 		}
-	}
-	if _, err := conn.connBuf.Write(crlf); err != nil {
-		return err
+		if _, err := conn.connBuf.Write(crlf); err != nil {
+			return err
+		}
 	}
 
 	return nil
-- 
2.43.0


From 7585fd0da45b6ea604987d4167420251b6a9cb83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:42 +0000
Subject: [PATCH 19/28] fix: answer every request, and errors with error
 replies

Responses with an error were sent as empty items or not at all, as was a miss
of a binary get, so that the client waited forever or saw a success.
---
 server/BUILD.bazel |   1 +
 server/server.go   | 106 ++++++++++++++++++++++++++++++++++++++++++---
 2 files changed, 101 insertions(+), 6 deletions(-)

diff --git a/server/BUILD.bazel b/server/BUILD.bazel
index e173b6a..852f864 100644
--- a/server/BUILD.bazel
+++ b/server/BUILD.bazel
@@ -5,6 +5,7 @@ go_library(
     srcs = ["server.go"],
     importpath = "go.f110.dev/go-memcached/server",
     visibility = ["//visibility:public"],
+    deps = ["//errors:go_default_library"],
 )
 
 go_test(
diff --git a/server/server.go b/server/server.go
index 9188ad9..68d4b89 100644
--- a/server/server.go
+++ b/server/server.go
@@ -12,6 +12,8 @@ import (
 	"strconv"
 	"strings"
 	"sync"
+
+	merrors "go.f110.dev/go-memcached/errors"
 )
 
 const (
@@ -24,6 +26,10 @@ var (
 	magicResponse byte = 0x81
 )
 
+// statusInternalError is the status of errors that the binary protocol has no
+// status for.
+const statusInternalError uint16 = 0x84
+
 const (
 	OpcodeGet Opcode = iota
 	OpcodeSet
@@ -585,8 +591,27 @@ func (s *Server) writeResponse(conn *conn, req *Request, res []*Response) error
 }
 
 func (s *Server) writeAsciiResponse(conn *conn, req *Request, res []*Response) error {
-	if req.Opcode != OpcodeGet && len(res) == 0 {
-		return errors.New("server: no response")
+	if req.Opcode != OpcodeGet {
+		if len(res) == 0 {
+			return errors.New("server: no response")
+		}
+		if res[0].Error != nil {
+			return s.writeAsciiError(conn, req, res[0].Error)
+		}
+	} else {
+		if req.GetOpt != nil && len(res) > 1 {
+			return errors.New("server: more than one response to a meta get")
+		}
+		hits := make([]*Response, 0, len(res))
+		for _, r := range res {
+			switch {
+			case r.Error == nil:
+				hits = append(hits, r)
+			case errorStatus(r.Error) != merrors.ItemNotFound.Status:
+				return s.writeAsciiError(conn, req, r.Error)
+			}
+		}
+		res = hits
 	}
 
 	switch req.Opcode {
@@ -607,7 +632,7 @@ func (s *Server) writeAsciiResponse(conn *conn, req *Request, res []*Response) e
 					return err
 				}
 			}
-			if len(res) == 0 {
+			if len(res) == 0 && !req.GetOpt.NoReply {
 				conn.connBuf.Write(metaProtoEnd)
 			}
 			if err := conn.connBuf.Flush(); err != nil {
@@ -681,6 +706,63 @@ func (s *Server) writeAsciiResponse(conn *conn, req *Request, res []*Response) e
 	return nil
 }
 
+// writeAsciiError writes the reply to a request that failed with e.
+func (s *Server) writeAsciiError(conn *conn, req *Request, e error) error {
+	// The message must not contain line ends.
+	msg := "SERVER_ERROR " + strings.Join(strings.Fields(e.Error()), " ")
+
+	status := errorStatus(e)
+	notFound, exists := status == merrors.ItemNotFound.Status, status == merrors.ItemExists.Status
+	switch req.Opcode {
+	case OpcodeSet:
+		switch {
+		case notFound && req.SetOpt.Meta:
+			msg = "NF"
+		case notFound:
+			msg = "NOT_FOUND"
+		case exists && req.SetOpt.Meta:
+			msg = "EX"
+		case exists:
+			msg = "EXISTS"
+		}
+	case OpcodeAdd:
+		if exists {
+			msg = "NOT_STORED"
+		}
+	case OpcodeReplace:
+		if notFound {
+			msg = "NOT_STORED"
+		}
+	case OpcodeDelete:
+		switch {
+		case notFound && req.DelOpt.Meta:
+			msg = "NF"
+		case notFound:
+			msg = "NOT_FOUND"
+		}
+	case OpcodeIncrement, OpcodeDecrement, OpcodeTouch:
+		if notFound {
+			msg = "NOT_FOUND"
+		}
+	}
+
+	if _, err := conn.connBuf.WriteString(msg); err != nil {
+		return err
+	}
+	if _, err := conn.connBuf.Write(crlf); err != nil {
+		return err
+	}
+	return conn.connBuf.Flush()
+}
+
+// errorStatus returns the status of the binary protocol for an error.
+func errorStatus(err error) uint16 {
+	if e, ok := err.(*merrors.MemcachedError); ok && e.Status != 0 {
+		return e.Status
+	}
+	return statusInternalError
+}
+
 func (s *Server) writeAsciiResponseGet(conn *conn, r *Response) error {
 	flag := uint32(0)
 	if len(r.Flags) == 4 {
@@ -752,7 +834,13 @@ func (s *Server) writeBinaryResponse(conn *conn, req *Request, res []*Response)
 
 	switch req.Opcode {
 	case OpcodeGet:
+		if len(res) == 0 {
+			res = []*Response{{Error: merrors.ItemNotFound}}
+		}
 		for _, v := range res {
+			if v.Error != nil && errorStatus(v.Error) == merrors.ItemNotFound.Status && req.GetOpt != nil && req.GetOpt.NoReply {
+				continue // a quiet get does not report a miss
+			}
 			if err := v.writeAsBinaryProtocol(conn, req); err != nil {
 				return err
 			}
@@ -765,9 +853,7 @@ func (s *Server) writeBinaryResponse(conn *conn, req *Request, res []*Response)
 		}
 	case OpcodeSet, OpcodeAdd, OpcodeReplace, OpcodeDelete, OpcodeIncrement, OpcodeDecrement,
 		OpcodeVersion, OpcodeFlush, OpcodeTouch, OpcodeNoop:
-		if res[0].Error == nil {
-			return res[0].writeAsBinaryProtocol(conn, req)
-		}
+		return res[0].writeAsBinaryProtocol(conn, req)
 	default:
 		return errors.New("memcached: unknown opcode")
 	}
@@ -779,9 +865,17 @@ func (r *Response) writeAsBinaryProtocol(conn *conn, req *Request) error {
 	header := make([]byte, 24)
 	header[0] = magicResponse
 	header[1] = byte(req.Opcode)
+	if r.Error != nil {
+		binary.BigEndian.PutUint16(header[6:8], errorStatus(r.Error))
+		r = &Response{Value: []byte(r.Error.Error())}
+	}
+	if len(r.Key) > math.MaxUint16 || len(r.Flags) > math.MaxUint8 {
+		return errors.New("server: key or flags are too long")
+	}
 	binary.BigEndian.PutUint16(header[2:4], uint16(len(r.Key)))
 	header[4] = uint8(len(r.Flags))
 	binary.BigEndian.PutUint32(header[8:12], uint32(len(r.Key)+len(r.Flags)+len(r.Value)))
+	binary.BigEndian.PutUint64(header[16:24], uint64(r.Cas))
 
 	conn.connBuf.Write(header)
 	if len(r.Flags) > 0 {
-- 
2.43.0


From 82def2342c8dde3b487ed77bd291aade31c9552e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:48 +0000
Subject: [PATCH 20/28] fix: answer a quiet binary get with its own opcode

---
 server/server.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/server/server.go b/server/server.go
index 68d4b89..aadd152 100644
--- a/server/server.go
+++ b/server/server.go
@@ -865,6 +865,9 @@ func (r *Response) writeAsBinaryProtocol(conn *conn, req *Request) error {
 	header := make([]byte, 24)
 	header[0] = magicResponse
 	header[1] = byte(req.Opcode)
+	if req.Opcode == OpcodeGet && req.GetOpt != nil {
+		header[1] = byte(OpcodeGetKQ)
+	}
 	if r.Error != nil {
 		binary.BigEndian.PutUint16(header[6:8], errorStatus(r.Error))
 		r = &Response{Value: []byte(r.Error.Error())}
-- 
2.43.0


From cc7e0bad11a8fcef2ab2c348a8c3bc96d1d7e18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:48 +0000
Subject: [PATCH 21/28] fix: relay gets with several keys, flags and CAS values
 through the proxy

A get with more than one key looked up the empty key, and flags were dropped.
---
 proxy/replica_pool.go | 34 ++++++++++++++++++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/proxy/replica_pool.go b/proxy/replica_pool.go
index d49bf31..8f94b7d 100644
--- a/proxy/replica_pool.go
+++ b/proxy/replica_pool.go
@@ -1,6 +1,7 @@
 package proxy
 
 import (
+	"encoding/binary"
 	"errors"
 
 	"go.f110.dev/go-memcached/client"
@@ -20,6 +21,20 @@ func NewReplicaProxy(pool *cluster.ReplicaPool) *ReplicaProxy {
 func (p *ReplicaProxy) ServeRequest(req *server.Request) ([]*server.Response, error) {
 	switch req.Opcode {
 	case server.OpcodeGet:
+		if req.Keys != nil {
+			items, err := p.pool.GetMulti(req.Keys...)
+			if err != nil {
+				if _, ok := err.(*merrors.MemcachedError); ok {
+					return []*server.Response{{Error: err}}, nil
+				}
+				return nil, err
+			}
+			res := make([]*server.Response, 0, len(items))
+			for _, item := range items {
+				res = append(res, newResponse(item))
+			}
+			return res, nil
+		}
 		res, err := p.pool.Get(req.Key)
 		if err != nil {
 			if _, ok := err.(*merrors.MemcachedError); ok {
@@ -27,12 +42,17 @@ func (p *ReplicaProxy) ServeRequest(req *server.Request) ([]*server.Response, er
 			}
 			return nil, err
 		}
-		return []*server.Response{{Key: res.Key, Value: res.Value}}, nil
+		return []*server.Response{newResponse(res)}, nil
 	case server.OpcodeSet:
+		flags := req.Flags
+		if req.SetOpt.Meta {
+			flags = make([]byte, 4)
+			binary.BigEndian.PutUint32(flags, uint32(req.SetOpt.Flag))
+		}
 		err := p.pool.Set(&client.Item{
 			Key:        req.Key,
 			Value:      req.Value,
-			Flags:      req.Flags,
+			Flags:      flags,
 			Expiration: req.SetOpt.Expiration,
 			Cas:        req.SetOpt.CasValue,
 		})
@@ -47,3 +67,13 @@ func (p *ReplicaProxy) ServeRequest(req *server.Request) ([]*server.Response, er
 		return nil, errors.New("proxy: unknown opcode")
 	}
 }
+
+func newResponse(item *client.Item) *server.Response {
+	return &server.Response{
+		Key:   item.Key,
+		Value: item.Value,
+		Flags: item.Flags,
+		Cas:   int64(item.Cas),
+		TTL:   int64(item.Expiration),
+	}
+}
-- 
2.43.0


From 701a2ba55bf76083be6756d2529df8cc6fb37f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:16 +0000
Subject: [PATCH 22/28] fix: relay the time to live of items that never expire

---
 proxy/replica_pool.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/proxy/replica_pool.go b/proxy/replica_pool.go
index 8f94b7d..8427125 100644
--- a/proxy/replica_pool.go
+++ b/proxy/replica_pool.go
@@ -69,11 +69,15 @@ func (p *ReplicaProxy) ServeRequest(req *server.Request) ([]*server.Response, er
 }
 
 func newResponse(item *client.Item) *server.Response {
+	ttl := int64(item.Expiration)
+	if ttl == 0 {
+		ttl = -1 // the item never expires
+	}
 	return &server.Response{
 		Key:   item.Key,
 		Value: item.Value,
 		Flags: item.Flags,
 		Cas:   int64(item.Cas),
-		TTL:   int64(item.Expiration),
+		TTL:   ttl,
 	}
 }
-- 
2.43.0


From 2dcb4e4857cc1c06a182673b528ba6d2324bc282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:44 +0000
Subject: [PATCH 23/28] fix: read all responses of a meta GetMulti when one of
 them is an error

---
 client/server.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/client/server.go b/client/server.go
index 272adba..bc29e4b 100644
--- a/client/server.go
+++ b/client/server.go
@@ -54,6 +54,9 @@ var (
 // errMetaNoop reports that the response of the meta no-op command was read.
 var errMetaNoop = errors.New("memcached: unexpected noop response")
 
+// errMetaInvalid reports that a line was read that is no response of the meta get command.
+var errMetaInvalid = errors.New("memcached: invalid get response")
+
 var (
 	magicRequest  byte = 0x80
 	magicResponse byte = 0x81
@@ -889,6 +892,10 @@ func (s *ServerWithMetaProtocol) GetMulti(keys ...string) ([]*Item, error) {
 		return nil, err
 	}
 
+	// An error does not end the responses: the response of no-op still follows,
+	// unless the server does not know the commands at all.
+	var resErr error
+	failed := 0
 MultiRead:
 	for {
 		item, err := s.parseGetResponse(s.conn)
@@ -898,12 +905,21 @@ MultiRead:
 				continue
 			case errMetaNoop:
 				break MultiRead
+			case errMetaInvalid:
+				resErr = err
+				if failed++; failed > len(keys) {
+					return nil, err
+				}
+				continue
 			default:
 				return nil, err
 			}
 		}
 		items = append(items, item)
 	}
+	if resErr != nil {
+		return nil, resErr
+	}
 
 	return items, nil
 }
@@ -921,7 +937,7 @@ func (s *ServerWithMetaProtocol) parseGetResponse(conn *bufio.ReadWriter) (*Item
 		return nil, errMetaNoop
 	}
 	if !bytes.HasPrefix(b, []byte("VA ")) {
-		return nil, errors.New("memcached: invalid get response")
+		return nil, errMetaInvalid
 	}
 
 	item := &Item{}
-- 
2.43.0


From 101d104797acbfb197242865cfb695b85addfd6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:44 +0000
Subject: [PATCH 24/28] fix: do not send the CAS of the item with a binary add

---
 client/server.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/client/server.go b/client/server.go
index bc29e4b..a6730ab 100644
--- a/client/server.go
+++ b/client/server.go
@@ -1667,6 +1667,7 @@ func (s *ServerWithBinaryProtocol) Add(item *Item) error {
 
 	header.Opcode = binaryOpcodeAdd
 	extra := item.marshalBinaryRequestHeader(header)
+	header.CAS = 0 // a request with CAS replaces an existing item
 	if err := header.EncodeTo(s.conn); err != nil {
 		return err
 	}
-- 
2.43.0


From fb1b2e7b6ef6f38374a97c159579ae917d6aa07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:44 +0000
Subject: [PATCH 25/28] fix: report the CAS conflict of a binary replace as
 ItemExists

---
 client/server.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/client/server.go b/client/server.go
index a6730ab..47bf83e 100644
--- a/client/server.go
+++ b/client/server.go
@@ -1760,6 +1760,8 @@ func (s *ServerWithBinaryProtocol) Replace(item *Item) error {
 		switch resHeader.Status {
 		case 1:
 			return merrors.ItemNotFound
+		case 2: // the CAS of the item is not the one of the request
+			return merrors.ItemExists
 		default:
 			if v, ok := binaryStatus[resHeader.Status]; ok {
 				return fmt.Errorf("memcached: error %s", v)
-- 
2.43.0


From 120a8fcb4dff2e303ce8af50d59a75f410d82fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:54 +0000
Subject: [PATCH 26/28] fix: a key that hashes to a node of the ring belongs to
 that node

Pick ended its search at the node with exactly the hash of the key but
returned the server of the current upper bound, which depends on how the
search got there: adding a server could move such a key from one old
server to another.
---
 client/ring.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/client/ring.go b/client/ring.go
index 02193c0..f7b7b02 100644
--- a/client/ring.go
+++ b/client/ring.go
@@ -61,6 +61,7 @@ Search:
 		t := r.nodes[idx].hash
 		switch {
 		case t == h:
+			upper = idx
 			break Search
 		case h < t:
 			upper = idx - 1
-- 
2.43.0


From 62c4d4d8c54167ce08fecc1b987b7cf362600adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:58 +0000
Subject: [PATCH 27/28] fix: the server refuses flush_all and version with
 arguments

"flush_all 10" asks for the items to expire in ten seconds. The server flushed
everything at once and answered OK. A request with arguments that the server
does not know is refused like every other one.
---
 server/server.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/server/server.go b/server/server.go
index aadd152..74f631b 100644
--- a/server/server.go
+++ b/server/server.go
@@ -319,8 +319,14 @@ func (c *conn) readAsciiRequest() (*Request, error) {
 
 		return &Request{Opcode: OpcodeSet, Key: s[1], Value: buf, SetOpt: opt}, nil
 	case "flush_all":
+		if len(s) != 1 {
+			return nil, errors.New("server: invalid request")
+		}
 		return &Request{Opcode: OpcodeFlush}, nil
 	case "version":
+		if len(s) != 1 {
+			return nil, errors.New("server: invalid request")
+		}
 		return &Request{Opcode: OpcodeVersion}, nil
 	}
 
-- 
2.43.0


From 95aa09dacfa94dff87fdb18ce9536ed33c9ae45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:14 +0000
Subject: [PATCH 28/28] fix: the server understands the cas command of the text
 protocol

The text client of this package sends "cas" for a Set of an item with a CAS
value. The server did not know the command and closed the connection.
---
 server/server.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/server/server.go b/server/server.go
index 74f631b..64046ac 100644
--- a/server/server.go
+++ b/server/server.go
@@ -147,8 +147,12 @@ func (c *conn) readAsciiRequest() (*Request, error) {
 			return nil, errors.New("server: invalid request")
 		}
 		return &Request{Opcode: OpcodeGet, Keys: s[1:]}, nil
-	case "set", "add", "replace":
-		if len(s) != 5 {
+	case "set", "add", "replace", "cas":
+		words := 5
+		if s[0] == "cas" {
+			words = 6
+		}
+		if len(s) != words {
 			return nil, errors.New("server: invalid request")
 		}
 		f, err := strconv.ParseUint(s[2], 10, 32)
@@ -169,6 +173,14 @@ func (c *conn) readAsciiRequest() (*Request, error) {
 		if bufLen < 0 {
 			return nil, errors.New("server: invalid request")
 		}
+		opt := &SetOpt{Expiration: int(expiration)}
+		if s[0] == "cas" {
+			opt.Cas = true
+			opt.CasValue, err = strconv.ParseUint(s[5], 10, 64)
+			if err != nil {
+				return nil, err
+			}
+		}
 		buf := make([]byte, bufLen+2)
 		if _, err := io.ReadFull(c.connBuf, buf); err != nil {
 			return nil, err
@@ -186,7 +198,7 @@ func (c *conn) readAsciiRequest() (*Request, error) {
 			opcode = OpcodeReplace
 		}
 
-		return &Request{Opcode: opcode, Key: s[1], Flags: flags, Value: buf, SetOpt: &SetOpt{Expiration: int(expiration)}}, nil
+		return &Request{Opcode: opcode, Key: s[1], Flags: flags, Value: buf, SetOpt: opt}, nil
 	case "delete", "md":
 		if len(s) != 2 {
 			return nil, errors.New("server: invalid request")
-- 
2.43.0

