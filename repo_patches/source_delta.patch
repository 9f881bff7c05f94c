From 97d1f05942478fff2b5054f5fcce7eefd468a0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:22 +0000
Subject: [PATCH 01/35] fix: read PackStream sizes as unsigned numbers

A string, list, map or structure whose size has the top bit of its size
field set was decoded with a negative size: strings and lists panicked,
maps came out empty and left the rest of the message unread.
---
 encoding/decoder.go | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/encoding/decoder.go b/encoding/decoder.go
index 76fe5d8..ddb89a9 100644
--- a/encoding/decoder.go
+++ b/encoding/decoder.go
@@ -159,19 +159,19 @@ func (d Decoder) decode(buffer *bytes.Buffer) (interface{}, error) {
 		}
 		return string(buffer.Next(size)), nil
 	case marker == String8Marker:
-		var size int8
+		var size uint8
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading string size")
 		}
 		return string(buffer.Next(int(size))), nil
 	case marker == String16Marker:
-		var size int16
+		var size uint16
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading string size")
 		}
 		return string(buffer.Next(int(size))), nil
 	case marker == String32Marker:
-		var size int32
+		var size uint32
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading string size")
 		}
@@ -182,19 +182,19 @@ func (d Decoder) decode(buffer *bytes.Buffer) (interface{}, error) {
 		size := int(marker) - int(TinySliceMarker)
 		return d.decodeSlice(buffer, size)
 	case marker == Slice8Marker:
-		var size int8
+		var size uint8
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading slice size")
 		}
 		return d.decodeSlice(buffer, int(size))
 	case marker == Slice16Marker:
-		var size int16
+		var size uint16
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading slice size")
 		}
 		return d.decodeSlice(buffer, int(size))
 	case marker == Slice32Marker:
-		var size int32
+		var size uint32
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading slice size")
 		}
@@ -205,19 +205,19 @@ func (d Decoder) decode(buffer *bytes.Buffer) (interface{}, error) {
 		size := int(marker) - int(TinyMapMarker)
 		return d.decodeMap(buffer, size)
 	case marker == Map8Marker:
-		var size int8
+		var size uint8
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading map size")
 		}
 		return d.decodeMap(buffer, int(size))
 	case marker == Map16Marker:
-		var size int16
+		var size uint16
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading map size")
 		}
 		return d.decodeMap(buffer, int(size))
 	case marker == Map32Marker:
-		var size int32
+		var size uint32
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading map size")
 		}
@@ -228,13 +228,13 @@ func (d Decoder) decode(buffer *bytes.Buffer) (interface{}, error) {
 		size := int(marker) - int(TinyStructMarker)
 		return d.decodeStruct(buffer, size)
 	case marker == Struct8Marker:
-		var size int8
+		var size uint8
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading struct size")
 		}
 		return d.decodeStruct(buffer, int(size))
 	case marker == Struct16Marker:
-		var size int16
+		var size uint16
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading struct size")
 		}
-- 
2.43.0


From 3d6274c5bd76ab839b5000eb1c2d3cf1e9c088ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:24 +0000
Subject: [PATCH 02/35] fix: report a message that ends inside a string, list
 or map

bytes.Buffer.Next returns what is left when asked for more, so a truncated
string was delivered shortened without an error. The size announced for a
list or map was allocated before looking at what the message holds, so a
few bytes could make the decoder allocate gigabytes.
---
 encoding/decoder.go | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/encoding/decoder.go b/encoding/decoder.go
index ddb89a9..df2354b 100644
--- a/encoding/decoder.go
+++ b/encoding/decoder.go
@@ -157,25 +157,25 @@ func (d Decoder) decode(buffer *bytes.Buffer) (interface{}, error) {
 		if size == 0 {
 			return "", nil
 		}
-		return string(buffer.Next(size)), nil
+		return d.decodeString(buffer, size)
 	case marker == String8Marker:
 		var size uint8
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading string size")
 		}
-		return string(buffer.Next(int(size))), nil
+		return d.decodeString(buffer, int(size))
 	case marker == String16Marker:
 		var size uint16
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading string size")
 		}
-		return string(buffer.Next(int(size))), nil
+		return d.decodeString(buffer, int(size))
 	case marker == String32Marker:
 		var size uint32
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading string size")
 		}
-		return string(buffer.Next(int(size))), nil
+		return d.decodeString(buffer, int(size))
 
 	// SLICE
 	case marker >= TinySliceMarker && marker <= TinySliceMarker+0x0F:
@@ -246,7 +246,17 @@ func (d Decoder) decode(buffer *bytes.Buffer) (interface{}, error) {
 
 }
 
+func (d Decoder) decodeString(buffer *bytes.Buffer, size int) (interface{}, error) {
+	if size > buffer.Len() {
+		return nil, errors.New("String of %d bytes goes past the end of the message. Bytes left: %d", size, buffer.Len())
+	}
+	return string(buffer.Next(size)), nil
+}
+
 func (d Decoder) decodeSlice(buffer *bytes.Buffer, size int) ([]interface{}, error) {
+	if size > buffer.Len() {
+		return nil, errors.New("Slice of %d items goes past the end of the message. Bytes left: %d", size, buffer.Len())
+	}
 	slice := make([]interface{}, size)
 	for i := 0; i < size; i++ {
 		item, err := d.decode(buffer)
@@ -260,6 +270,9 @@ func (d Decoder) decodeSlice(buffer *bytes.Buffer, size int) ([]interface{}, err
 }
 
 func (d Decoder) decodeMap(buffer *bytes.Buffer, size int) (map[string]interface{}, error) {
+	if size > buffer.Len() {
+		return nil, errors.New("Map of %d items goes past the end of the message. Bytes left: %d", size, buffer.Len())
+	}
 	mapp := make(map[string]interface{}, size)
 	for i := 0; i < size; i++ {
 		keyInt, err := d.decode(buffer)
-- 
2.43.0


From ad2f59ddc2c3d3b27a3bf417e4977e9dcf519dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:54 +0000
Subject: [PATCH 03/35] fix: do not panic on graph values with fields of the
 wrong type

The identities of nodes and relationships and the sequence of a path were
asserted to be int64 without a check, so an unexpected value from the
server panicked instead of giving an error like all other fields do.
---
 encoding/decoder.go | 30 +++++++++++++++++++++++-------
 encoding/util.go    |  6 +++++-
 2 files changed, 28 insertions(+), 8 deletions(-)

diff --git a/encoding/decoder.go b/encoding/decoder.go
index df2354b..89b1bb6 100644
--- a/encoding/decoder.go
+++ b/encoding/decoder.go
@@ -334,11 +334,15 @@ func (d Decoder) decodeStruct(buffer *bytes.Buffer, size int) (interface{}, erro
 func (d Decoder) decodeNode(buffer *bytes.Buffer) (graph.Node, error) {
 	node := graph.Node{}
 
+	var ok bool
 	nodeIdentityInt, err := d.decode(buffer)
 	if err != nil {
 		return node, err
 	}
-	node.NodeIdentity = nodeIdentityInt.(int64)
+	node.NodeIdentity, ok = nodeIdentityInt.(int64)
+	if !ok {
+		return node, errors.New("Expected: NodeIdentity int64, but got %T %+v", nodeIdentityInt, nodeIdentityInt)
+	}
 
 	labelInt, err := d.decode(buffer)
 	if err != nil {
@@ -369,25 +373,34 @@ func (d Decoder) decodeNode(buffer *bytes.Buffer) (graph.Node, error) {
 func (d Decoder) decodeRelationship(buffer *bytes.Buffer) (graph.Relationship, error) {
 	rel := graph.Relationship{}
 
+	var ok bool
 	relIdentityInt, err := d.decode(buffer)
 	if err != nil {
 		return rel, err
 	}
-	rel.RelIdentity = relIdentityInt.(int64)
+	rel.RelIdentity, ok = relIdentityInt.(int64)
+	if !ok {
+		return rel, errors.New("Expected: RelIdentity int64, but got %T %+v", relIdentityInt, relIdentityInt)
+	}
 
 	startNodeIdentityInt, err := d.decode(buffer)
 	if err != nil {
 		return rel, err
 	}
-	rel.StartNodeIdentity = startNodeIdentityInt.(int64)
+	rel.StartNodeIdentity, ok = startNodeIdentityInt.(int64)
+	if !ok {
+		return rel, errors.New("Expected: StartNodeIdentity int64, but got %T %+v", startNodeIdentityInt, startNodeIdentityInt)
+	}
 
 	endNodeIdentityInt, err := d.decode(buffer)
 	if err != nil {
 		return rel, err
 	}
-	rel.EndNodeIdentity = endNodeIdentityInt.(int64)
+	rel.EndNodeIdentity, ok = endNodeIdentityInt.(int64)
+	if !ok {
+		return rel, errors.New("Expected: EndNodeIdentity int64, but got %T %+v", endNodeIdentityInt, endNodeIdentityInt)
+	}
 
-	var ok bool
 	typeInt, err := d.decode(buffer)
 	if err != nil {
 		return rel, err
@@ -454,13 +467,16 @@ func (d Decoder) decodePath(buffer *bytes.Buffer) (graph.Path, error) {
 func (d Decoder) decodeUnboundRelationship(buffer *bytes.Buffer) (graph.UnboundRelationship, error) {
 	rel := graph.UnboundRelationship{}
 
+	var ok bool
 	relIdentityInt, err := d.decode(buffer)
 	if err != nil {
 		return rel, err
 	}
-	rel.RelIdentity = relIdentityInt.(int64)
+	rel.RelIdentity, ok = relIdentityInt.(int64)
+	if !ok {
+		return rel, errors.New("Expected: RelIdentity int64, but got %T %+v", relIdentityInt, relIdentityInt)
+	}
 
-	var ok bool
 	typeInt, err := d.decode(buffer)
 	if err != nil {
 		return rel, err
diff --git a/encoding/util.go b/encoding/util.go
index 1b21932..f968c17 100644
--- a/encoding/util.go
+++ b/encoding/util.go
@@ -20,7 +20,11 @@ func sliceInterfaceToString(from []interface{}) ([]string, error) {
 func sliceInterfaceToInt(from []interface{}) ([]int, error) {
 	to := make([]int, len(from))
 	for idx, item := range from {
-		to[idx] = int(item.(int64))
+		toItem, ok := item.(int64)
+		if !ok {
+			return nil, errors.New("Expected int value. Got %T %+v", item, item)
+		}
+		to[idx] = int(toItem)
 	}
 	return to, nil
 }
-- 
2.43.0


From c8654ae9b572b42ffcc83dddc8f825478d6c06e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:56 +0000
Subject: [PATCH 04/35] fix: report a number cut off by the end of the message
 as an error

The bare io.EOF of the read reached the caller, for whom io.EOF means that
all rows were delivered: a truncated record ended the rows silently.
---
 encoding/decoder.go | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/encoding/decoder.go b/encoding/decoder.go
index 89b1bb6..9182570 100644
--- a/encoding/decoder.go
+++ b/encoding/decoder.go
@@ -130,26 +130,36 @@ func (d Decoder) decode(buffer *bytes.Buffer) (interface{}, error) {
 		return int64(int8(marker)), nil
 	case marker == Int8Marker:
 		var out int8
-		err := binary.Read(buffer, binary.BigEndian, &out)
-		return int64(out), err
+		if err := binary.Read(buffer, binary.BigEndian, &out); err != nil {
+			return nil, errors.Wrap(err, "An error occurred reading an int")
+		}
+		return int64(out), nil
 	case marker == Int16Marker:
 		var out int16
-		err := binary.Read(buffer, binary.BigEndian, &out)
-		return int64(out), err
+		if err := binary.Read(buffer, binary.BigEndian, &out); err != nil {
+			return nil, errors.Wrap(err, "An error occurred reading an int")
+		}
+		return int64(out), nil
 	case marker == Int32Marker:
 		var out int32
-		err := binary.Read(buffer, binary.BigEndian, &out)
-		return int64(out), err
+		if err := binary.Read(buffer, binary.BigEndian, &out); err != nil {
+			return nil, errors.Wrap(err, "An error occurred reading an int")
+		}
+		return int64(out), nil
 	case marker == Int64Marker:
 		var out int64
-		err := binary.Read(buffer, binary.BigEndian, &out)
-		return int64(out), err
+		if err := binary.Read(buffer, binary.BigEndian, &out); err != nil {
+			return nil, errors.Wrap(err, "An error occurred reading an int")
+		}
+		return int64(out), nil
 
 	// FLOAT
 	case marker == FloatMarker:
 		var out float64
-		err := binary.Read(buffer, binary.BigEndian, &out)
-		return out, err
+		if err := binary.Read(buffer, binary.BigEndian, &out); err != nil {
+			return nil, errors.Wrap(err, "An error occurred reading a float")
+		}
+		return out, nil
 
 	// STRING
 	case marker >= TinyStringMarker && marker <= TinyStringMarker+0x0F:
-- 
2.43.0


From 4bae78301a2adb0b7ca6fcf49d99da9d74cf0196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:34 +0000
Subject: [PATCH 05/35] fix: frame messages correctly for every message and
 chunk size

More than 65535 bytes left over when a message is flushed were sent as one
chunk with the length cut to 16 bits, and a chunk size of zero sent empty
chunks, which end the message, in the middle of it.
---
 encoding/encoder.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/encoding/encoder.go b/encoding/encoder.go
index 133ece2..fc108e8 100644
--- a/encoding/encoder.go
+++ b/encoding/encoder.go
@@ -89,6 +89,10 @@ type Encoder struct {
 
 // NewEncoder Creates a new Encoder object
 func NewEncoder(w io.Writer, chunkSize uint16) Encoder {
+	if chunkSize == 0 {
+		// An empty chunk would end the message, so there is no such chunk size
+		chunkSize = math.MaxUint16
+	}
 	return Encoder{
 		w:         w,
 		buf:       &bytes.Buffer{},
@@ -131,13 +135,14 @@ func (e Encoder) Write(p []byte) (n int, err error) {
 
 // flush finishes the encoding stream by flushing it to the writer
 func (e Encoder) flush() error {
-	length := e.buf.Len()
-	if length > 0 {
-		if err := binary.Write(e.w, binary.BigEndian, uint16(length)); err != nil {
+	for e.buf.Len() > 0 {
+		// The length of a chunk is sent in two bytes
+		chunk := e.buf.Next(math.MaxUint16)
+		if err := binary.Write(e.w, binary.BigEndian, uint16(len(chunk))); err != nil {
 			return errors.Wrap(err, "An error occured writing length bytes during flush")
 		}
 
-		if _, err := e.buf.WriteTo(e.w); err != nil {
+		if _, err := e.w.Write(chunk); err != nil {
 			return errors.Wrap(err, "An error occured writing message bytes during flush")
 		}
 	}
-- 
2.43.0


From c3fc9102f6e3720edd715db2f28cfe7bac2603f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:49 +0000
Subject: [PATCH 06/35] fix: send a message whole or not at all

Chunks were written to the connection while the value was still being
encoded, so a value that turned out not to be encodable left half a message
on the wire and the server read the next request as the rest of it.
---
 encoding/encoder.go | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/encoding/encoder.go b/encoding/encoder.go
index fc108e8..d3656db 100644
--- a/encoding/encoder.go
+++ b/encoding/encoder.go
@@ -84,6 +84,7 @@ var (
 type Encoder struct {
 	w         io.Writer
 	buf       *bytes.Buffer
+	out       *bytes.Buffer // Chunks of the message being encoded
 	chunkSize uint16
 }
 
@@ -96,6 +97,7 @@ func NewEncoder(w io.Writer, chunkSize uint16) Encoder {
 	return Encoder{
 		w:         w,
 		buf:       &bytes.Buffer{},
+		out:       &bytes.Buffer{},
 		chunkSize: chunkSize,
 	}
 }
@@ -107,7 +109,8 @@ func Marshal(v interface{}) ([]byte, error) {
 	return x.Bytes(), err
 }
 
-// write writes to the writer.  Buffers the writes using chunkSize.
+// write adds to the message.  Buffers the writes using chunkSize.
+// Chunks are sent to the writer when the whole message is encoded.
 func (e Encoder) Write(p []byte) (n int, err error) {
 
 	n, err = e.buf.Write(p)
@@ -118,11 +121,11 @@ func (e Encoder) Write(p []byte) (n int, err error) {
 
 	length := e.buf.Len()
 	for length >= int(e.chunkSize) {
-		if err := binary.Write(e.w, binary.BigEndian, e.chunkSize); err != nil {
+		if err := binary.Write(e.out, binary.BigEndian, e.chunkSize); err != nil {
 			return 0, errors.Wrap(err, "An error occured writing chunksize")
 		}
 
-		numWritten, err := e.w.Write(e.buf.Next(int(e.chunkSize)))
+		numWritten, err := e.out.Write(e.buf.Next(int(e.chunkSize)))
 		if err != nil {
 			err = errors.Wrap(err, "An error occured writing a chunk")
 		}
@@ -138,26 +141,35 @@ func (e Encoder) flush() error {
 	for e.buf.Len() > 0 {
 		// The length of a chunk is sent in two bytes
 		chunk := e.buf.Next(math.MaxUint16)
-		if err := binary.Write(e.w, binary.BigEndian, uint16(len(chunk))); err != nil {
+		if err := binary.Write(e.out, binary.BigEndian, uint16(len(chunk))); err != nil {
 			return errors.Wrap(err, "An error occured writing length bytes during flush")
 		}
 
-		if _, err := e.w.Write(chunk); err != nil {
+		if _, err := e.out.Write(chunk); err != nil {
 			return errors.Wrap(err, "An error occured writing message bytes during flush")
 		}
 	}
 
-	_, err := e.w.Write(EndMessage)
+	_, err := e.out.Write(EndMessage)
 	if err != nil {
 		return errors.Wrap(err, "An error occurred ending encoding message")
 	}
 	e.buf.Reset()
 
+	for e.out.Len() > 0 {
+		if _, err := e.w.Write(e.out.Next(math.MaxUint16)); err != nil {
+			return errors.Wrap(err, "An error occurred writing message")
+		}
+	}
+
 	return nil
 }
 
 // Encode encodes an object to the stream
 func (e Encoder) Encode(iVal interface{}) error {
+	// Leave nothing behind for the next message, also when this one fails
+	defer e.buf.Reset()
+	defer e.out.Reset()
 
 	err := e.encode(iVal)
 	if err != nil {
-- 
2.43.0


From 0cfde3b6c95d5aa2d32c33af87670171ed55455b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:51 +0000
Subject: [PATCH 07/35] fix: fail to open a connection whose handshake is
 incomplete

A short answer to the handshake was logged but returned as success when the
read itself did not fail, a fragmented one was not read to its end, and an
answer naming a version the driver does not speak was accepted.
---
 conn.go | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/conn.go b/conn.go
index 72f8117..b6f5132 100644
--- a/conn.go
+++ b/conn.go
@@ -240,21 +240,17 @@ func (c *boltConn) handShake() error {
 	numWritten, err := c.Write(handShake)
 	if numWritten != 20 {
 		log.Errorf("Couldn't write expected bytes for magic preamble + supported versions. Written: %d. Expected: 4", numWritten)
-		if err != nil {
-			err = errors.Wrap(err, "An error occurred writing magic preamble + supported versions")
-		}
-		return err
+		return errors.Wrap(err, "An error occurred writing magic preamble + supported versions")
 	}
 
-	numRead, err := c.Read(c.serverVersion)
+	numRead, err := io.ReadFull(c, c.serverVersion)
 	if numRead != 4 {
 		log.Errorf("Could not read server version response. Read %d bytes. Expected 4 bytes. Output: %s", numRead, c.serverVersion)
-		if err != nil {
-			err = errors.Wrap(err, "An error occurred reading server version")
-		}
-		return err
+		return errors.Wrap(err, "An error occurred reading server version")
 	} else if bytes.Equal(c.serverVersion, noVersionSupported) {
 		return errors.New("Server responded with no supported version")
+	} else if !bytes.Equal(c.serverVersion, supportedVersions[:4]) {
+		return errors.New("Server responded with a version that was not offered: %x", c.serverVersion)
 	}
 
 	return nil
-- 
2.43.0


From 6cffb9974eb61571efaedb5266eede72f67b29a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:52 +0000
Subject: [PATCH 08/35] fix: apply the configured timeout to TLS dialling

tls.Dial waits without limit for a server that does not answer the TLS
handshake; the plain connection already used the timeout.
---
 conn.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conn.go b/conn.go
index b6f5132..b427b67 100644
--- a/conn.go
+++ b/conn.go
@@ -183,7 +183,7 @@ func (c *boltConn) createConn() (net.Conn, error) {
 		if err != nil {
 			return nil, errors.Wrap(err, "An error occurred setting up TLS configuration")
 		}
-		conn, err = tls.Dial("tcp", c.url.Host, config)
+		conn, err = tls.DialWithDialer(&net.Dialer{Timeout: c.timeout}, "tcp", c.url.Host, config)
 		if err != nil {
 			return nil, errors.Wrap(err, "An error occurred dialing to neo4j")
 		}
-- 
2.43.0


From 13253d2dad89cad1855897ac0580b7bd845dbba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:54 +0000
Subject: [PATCH 09/35] fix: treat end of stream as a broken connection

When the server closed the connection, reads returned io.EOF and the
connection was not marked bad: database/sql did not retry, and the pool
took the dead connection back.
---
 conn.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conn.go b/conn.go
index b427b67..892379b 100644
--- a/conn.go
+++ b/conn.go
@@ -325,7 +325,7 @@ func (c *boltConn) Read(b []byte) (n int, err error) {
 		log.Tracef("Read %d bytes from stream:\n\n%s\n", n, sprintByteHex(b))
 	}
 
-	if err != nil && err != io.EOF {
+	if err != nil {
 		c.connErr = errors.Wrap(err, "An error occurred reading from stream")
 		err = driver.ErrBadConn
 	}
-- 
2.43.0


From b4ef057050137d5c721b77e00e6a46238a18342e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:56 +0000
Subject: [PATCH 10/35] fix: do not use a connection after it failed

After a timeout the next query on the same connection was sent all the same
and got the late answer to the one before as its own.
---
 conn.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/conn.go b/conn.go
index 892379b..ea60828 100644
--- a/conn.go
+++ b/conn.go
@@ -314,6 +314,11 @@ func (c *boltConn) initialize() error {
 
 // Read reads the data from the underlying connection
 func (c *boltConn) Read(b []byte) (n int, err error) {
+	if c.connErr != nil {
+		// Whatever comes from a failed connection can't be attributed to a request any more
+		return 0, driver.ErrBadConn
+	}
+
 	if err := c.conn.SetReadDeadline(time.Now().Add(c.timeout)); err != nil {
 		c.connErr = errors.Wrap(err, "An error occurred setting read deadline")
 		return 0, driver.ErrBadConn
@@ -334,6 +339,11 @@ func (c *boltConn) Read(b []byte) (n int, err error) {
 
 // Write writes the data to the underlying connection
 func (c *boltConn) Write(b []byte) (n int, err error) {
+	if c.connErr != nil {
+		// Whatever comes from a failed connection can't be attributed to a request any more
+		return 0, driver.ErrBadConn
+	}
+
 	if err := c.conn.SetWriteDeadline(time.Now().Add(c.timeout)); err != nil {
 		c.connErr = errors.Wrap(err, "An error occurred setting write deadline")
 		return 0, driver.ErrBadConn
-- 
2.43.0


From cc12303cc2d321105939947b1dee7e5a1967958b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:57 +0000
Subject: [PATCH 11/35] fix: keep the password out of the error for an invalid
 connection string

---
 conn.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/conn.go b/conn.go
index ea60828..ca67dec 100644
--- a/conn.go
+++ b/conn.go
@@ -121,7 +121,8 @@ func (c *boltConn) parseURL() (*url.URL, error) {
 	password := ""
 	url, err := url.Parse(c.connStr)
 	if err != nil {
-		return url, errors.Wrap(err, "An error occurred parsing bolt URL")
+		// The text of this error quotes the URL, which can hold the password
+		return url, errors.New("An error occurred parsing bolt URL. Connection string is not a valid URL.")
 	} else if strings.ToLower(url.Scheme) != "bolt" {
 		return url, errors.New("Unsupported connection string scheme: %s. Driver only supports 'bolt' scheme.", url.Scheme)
 	}
-- 
2.43.0


From 38c875dd666f97f60904887d907f054fb7ac88c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:59 +0000
Subject: [PATCH 12/35] fix: do not read on after the end of a result

Reading rows again after the end, or closing them after the server reported
a failure for them, waited for a response that no request was outstanding
for, until the timeout broke the connection.
---
 rows.go | 35 +++++++++++++++++++++++++++++++----
 1 file changed, 31 insertions(+), 4 deletions(-)

diff --git a/rows.go b/rows.go
index 4eb6782..409ae20 100644
--- a/rows.go
+++ b/rows.go
@@ -58,6 +58,7 @@ type boltRows struct {
 	closed          bool
 	consumed        bool
 	finishedConsume bool
+	finishedErr     error // What reading on after the end returns
 	pipelineIndex   int
 	closeStatement  bool
 }
@@ -169,6 +170,23 @@ func (r *boltRows) Close() error {
 	return nil
 }
 
+// finish remembers that there is nothing left to read for these rows
+func (r *boltRows) finish(err error) {
+	r.finishedConsume = true
+	r.finishedErr = err
+}
+
+// fail remembers that reading these rows failed, unless there is more to read all the same.
+// There is not if the server reported a failure or the connection broke.
+func (r *boltRows) fail(resp interface{}, err error) {
+	if r.closed {
+		return
+	}
+	if _, isFail := resp.(messages.FailureMessage); isFail || r.statement.conn.connErr != nil {
+		r.finish(err)
+	}
+}
+
 // Next gets the next row result
 func (r *boltRows) Next(dest []driver.Value) error {
 	data, _, err := r.NextNeo()
@@ -202,24 +220,28 @@ func (r *boltRows) NextNeo() ([]interface{}, map[string]interface{}, error) {
 	if r.closed {
 		return nil, nil, errors.New("Rows are already closed")
 	}
+	if r.finishedConsume {
+		return nil, nil, r.finishedErr
+	}
 
 	if !r.consumed {
 		r.consumed = true
 		if err := r.statement.conn.sendPullAll(); err != nil {
-			r.finishedConsume = true
+			r.finish(err)
 			return nil, nil, err
 		}
 	}
 
 	respInt, err := r.statement.conn.consume()
 	if err != nil {
+		r.fail(respInt, err)
 		return nil, nil, err
 	}
 
 	switch resp := respInt.(type) {
 	case messages.SuccessMessage:
 		log.Infof("Got success message: %#v", resp)
-		r.finishedConsume = true
+		r.finish(io.EOF)
 		return nil, resp.Metadata, io.EOF
 	case messages.RecordMessage:
 		log.Infof("Got record message: %#v", resp)
@@ -251,9 +273,13 @@ func (r *boltRows) NextPipeline() ([]interface{}, map[string]interface{}, Pipeli
 	if r.closed {
 		return nil, nil, nil, errors.New("Rows are already closed")
 	}
+	if r.finishedConsume {
+		return nil, nil, nil, r.finishedErr
+	}
 
 	respInt, err := r.statement.conn.consume()
 	if err != nil {
+		r.fail(respInt, err)
 		return nil, nil, nil, err
 	}
 
@@ -262,12 +288,13 @@ func (r *boltRows) NextPipeline() ([]interface{}, map[string]interface{}, Pipeli
 		log.Infof("Got success message: %#v", resp)
 
 		if r.pipelineIndex == len(r.statement.queries)-1 {
-			r.finishedConsume = true
+			r.finish(io.EOF)
 			return nil, nil, nil, err
 		}
 
 		successResp, err := r.statement.conn.consume()
-		if err != nil && err != io.EOF {
+		if err != nil {
+			r.fail(successResp, err)
 			return nil, nil, nil, errors.Wrap(err, "An error occurred getting next set of rows from pipeline command: %#v", successResp)
 		}
 
-- 
2.43.0


From f882fcb87a04a1cce36b3b78d271de423920935f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:52 +0000
Subject: [PATCH 13/35] fix: closing pipeline rows that were followed by the
 next ones

Rows of a pipeline whose successor had already taken over drained the
responses of the whole rest of the pipeline when closed, and so waited for
responses that had been read already. They now close their successor.
---
 rows.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/rows.go b/rows.go
index 409ae20..5853b5b 100644
--- a/rows.go
+++ b/rows.go
@@ -61,6 +61,7 @@ type boltRows struct {
 	finishedErr     error // What reading on after the end returns
 	pipelineIndex   int
 	closeStatement  bool
+	next            *boltRows // The rows of the next query of the pipeline, once they took over
 }
 
 func newRows(statement *boltStmt, metadata map[string]interface{}) *boltRows {
@@ -124,6 +125,11 @@ func (r *boltRows) Close() error {
 		return nil
 	}
 
+	if r.next != nil {
+		r.closed = true
+		return r.next.Close()
+	}
+
 	if !r.consumed {
 		// Discard all messages if not consumed
 		respInt, err := r.statement.conn.sendDiscardAllConsume()
@@ -305,6 +311,8 @@ func (r *boltRows) NextPipeline() ([]interface{}, map[string]interface{}, Pipeli
 
 		r.statement.rows = newPipelineRows(r.statement, success.Metadata, r.pipelineIndex+1)
 		r.statement.rows.closeStatement = r.closeStatement
+		r.next = r.statement.rows
+		r.finish(io.EOF)
 		return nil, success.Metadata, r.statement.rows, nil
 
 	case messages.RecordMessage:
-- 
2.43.0


From e24fbe141288c7b42b1a2b8910d44852e6398097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:53 +0000
Subject: [PATCH 14/35] fix: return the summary of the finished query from
 NextPipeline

As documented, instead of the metadata of the following query, which its
rows return themselves, or nothing for the last query.
---
 rows.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rows.go b/rows.go
index 5853b5b..4c33a7c 100644
--- a/rows.go
+++ b/rows.go
@@ -295,7 +295,7 @@ func (r *boltRows) NextPipeline() ([]interface{}, map[string]interface{}, Pipeli
 
 		if r.pipelineIndex == len(r.statement.queries)-1 {
 			r.finish(io.EOF)
-			return nil, nil, nil, err
+			return nil, resp.Metadata, nil, err
 		}
 
 		successResp, err := r.statement.conn.consume()
@@ -313,7 +313,7 @@ func (r *boltRows) NextPipeline() ([]interface{}, map[string]interface{}, Pipeli
 		r.statement.rows.closeStatement = r.closeStatement
 		r.next = r.statement.rows
 		r.finish(io.EOF)
-		return nil, success.Metadata, r.statement.rows, nil
+		return nil, resp.Metadata, r.statement.rows, nil
 
 	case messages.RecordMessage:
 		log.Infof("Got record message: %#v", resp)
-- 
2.43.0


From 20e08873f3a28d125f61e66ab1c3d8767dc853a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:43 +0000
Subject: [PATCH 15/35] fix: closing a statement clears its rows off the stream
 and always ends it

The rows of Conn.QueryNeo and Conn.QueryPipeline were left unread when the
connection was closed or the transaction committed, so COMMIT read a record
as its answer and the pool got a connection with unread responses. Rows and
statements stayed open when clearing the stream failed, which blocked the
connection for good.
---
 rows.go | 22 +++++++++++++++-------
 stmt.go |  9 ++++++---
 2 files changed, 21 insertions(+), 10 deletions(-)

diff --git a/rows.go b/rows.go
index 4c33a7c..3286ea9 100644
--- a/rows.go
+++ b/rows.go
@@ -125,11 +125,25 @@ func (r *boltRows) Close() error {
 		return nil
 	}
 
+	// The rows are over even if the rest of the stream can't be cleared
+	r.closed = true
 	if r.next != nil {
-		r.closed = true
 		return r.next.Close()
 	}
 
+	err := r.clear()
+	r.statement.rows = nil
+
+	if r.closeStatement {
+		if closeErr := r.statement.Close(); err == nil {
+			err = closeErr
+		}
+	}
+	return err
+}
+
+// clear takes whatever is left for these rows off the stream
+func (r *boltRows) clear() error {
 	if !r.consumed {
 		// Discard all messages if not consumed
 		respInt, err := r.statement.conn.sendDiscardAllConsume()
@@ -167,12 +181,6 @@ func (r *boltRows) Close() error {
 		}
 	}
 
-	r.closed = true
-	r.statement.rows = nil
-
-	if r.closeStatement {
-		return r.statement.Close()
-	}
 	return nil
 }
 
diff --git a/stmt.go b/stmt.go
index 42a6f32..20d5b24 100644
--- a/stmt.go
+++ b/stmt.go
@@ -59,8 +59,11 @@ func (s *boltStmt) Close() error {
 		return nil
 	}
 
-	if s.rows != nil && !s.rows.closeStatement {
-		if err := s.rows.Close(); err != nil {
+	var err error
+	if s.rows != nil {
+		err = s.rows.Close()
+		if s.closed {
+			// Closed along with its rows
 			return err
 		}
 	}
@@ -68,7 +71,7 @@ func (s *boltStmt) Close() error {
 	s.closed = true
 	s.conn.statement = nil
 	s.conn = nil
-	return nil
+	return err
 }
 
 // NumInput returns the number of placeholder parameters. See sql/driver.Stmt.
-- 
2.43.0


From 177cf0e6a160a87788bb312bc5dca6d55b2ae354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:31 +0000
Subject: [PATCH 16/35] fix: release the connection when Conn.QueryPipeline
 fails

The statement it had opened stayed open, and as it is not exposed nobody
could close it: the connection refused every following query.
---
 conn.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/conn.go b/conn.go
index ca67dec..918b869 100644
--- a/conn.go
+++ b/conn.go
@@ -810,9 +810,11 @@ func (c *boltConn) QueryPipeline(queries []string, params ...map[string]interfac
 		return nil, errors.New("Connection already closed")
 	}
 
-	c.statement = newPipelineStmt(queries, c)
-	rows, err := c.statement.QueryPipeline(params...)
+	stmt := newPipelineStmt(queries, c)
+	c.statement = stmt
+	rows, err := stmt.QueryPipeline(params...)
 	if err != nil {
+		stmt.Close()
 		return nil, err
 	}
 
-- 
2.43.0


From 7b9408dc433747fad3f7ed413179a2391d6e15de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:12 +0000
Subject: [PATCH 17/35] fix: close the session cleanly when the server refuses
 a reset

Closing it cleared the open rows off the stream first, although the server
sends nothing any more, and Conn.QueryNeo then dereferenced the statement
that closing had removed.
---
 conn.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/conn.go b/conn.go
index 918b869..92e7c7e 100644
--- a/conn.go
+++ b/conn.go
@@ -464,6 +464,7 @@ func (c *boltConn) reset() error {
 			return nil
 		case messages.FailureMessage:
 			log.Errorf("Got failure message when resetting session: %#v", resp)
+			c.connErr = errors.Wrap(resp, "Error resetting session. CLOSING SESSION!")
 			err = c.Close()
 			if err != nil {
 				log.Errorf("An error occurred closing the session: %s", err)
@@ -784,22 +785,23 @@ func (c *boltConn) queryNeo(query string, params map[string]interface{}) (*boltR
 		return nil, errors.New("Connection already closed")
 	}
 
-	c.statement = newStmt(query, c)
+	stmt := newStmt(query, c)
+	c.statement = stmt
 
 	// Pipeline the run + pull all for this
-	successResp, err := c.sendRunPullAllConsumeRun(c.statement.query, params)
+	successResp, err := c.sendRunPullAllConsumeRun(stmt.query, params)
 	if err != nil {
-		c.statement.Close()
+		stmt.Close()
 		return nil, err
 	}
 	success, ok := successResp.(messages.SuccessMessage)
 	if !ok {
-		c.statement.Close()
+		stmt.Close()
 		return nil, errors.New("Unexpected response querying neo from connection: %#v", successResp)
 	}
 
-	c.statement.rows = newQueryRows(c.statement, success.Metadata)
-	return c.statement.rows, nil
+	stmt.rows = newQueryRows(stmt, success.Metadata)
+	return stmt.rows, nil
 }
 
 func (c *boltConn) QueryPipeline(queries []string, params ...map[string]interface{}) (PipelineRows, error) {
-- 
2.43.0


From ed4288024a7ca3d36820f3b1b63d768f27b0d43e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:49 +0000
Subject: [PATCH 18/35] fix: clear the stream when a query of a pipeline can't
 be sent

The queries before it had been sent, and their responses were then taken
for those of the next query on the connection.
---
 conn.go | 10 ++++++++++
 stmt.go |  6 ++++++
 2 files changed, 16 insertions(+)

diff --git a/conn.go b/conn.go
index 92e7c7e..311d26e 100644
--- a/conn.go
+++ b/conn.go
@@ -618,6 +618,16 @@ func (c *boltConn) consumeAllMultiple(mult int) ([][]interface{}, []interface{},
 	return responses, successes, nil
 }
 
+// clearPipeline takes the responses to the first queries of a pipeline off the stream,
+// after the following one could not be sent
+func (c *boltConn) clearPipeline(numQueries int) error {
+	if c.connErr != nil {
+		return nil
+	}
+	_, _, err := c.consumeAllMultiple(numQueries * 2)
+	return err
+}
+
 func (c *boltConn) sendInit() (interface{}, error) {
 	log.Infof("Sending INIT Message. ClientID: %s User: %s", ClientID, c.user)
 
diff --git a/stmt.go b/stmt.go
index 20d5b24..9ac7a6e 100644
--- a/stmt.go
+++ b/stmt.go
@@ -137,6 +137,9 @@ func (s *boltStmt) ExecPipeline(params ...map[string]interface{}) ([]Result, err
 	for i, query := range s.queries {
 		err := s.conn.sendRunPullAll(query, params[i])
 		if err != nil {
+			if clearErr := s.conn.clearPipeline(i); clearErr != nil {
+				err = clearErr
+			}
 			return nil, errors.Wrap(err, "Error running exec query:\n\n%s\n\nWith Params:\n%#v", query, params[i])
 		}
 	}
@@ -225,6 +228,9 @@ func (s *boltStmt) QueryPipeline(params ...map[string]interface{}) (PipelineRows
 	for i, query := range s.queries {
 		err := s.conn.sendRunPullAll(query, params[i])
 		if err != nil {
+			if clearErr := s.conn.clearPipeline(i); clearErr != nil {
+				err = clearErr
+			}
 			return nil, errors.Wrap(err, "Error running query:\n\n%s\n\nWith Params:\n%#v", query, params[i])
 		}
 	}
-- 
2.43.0


From b0304eaef47fa1225edcefaf485c013eb59305e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:51 +0000
Subject: [PATCH 19/35] fix: refuse to query a pipeline without queries

It waited for the response to a query that was never sent.
---
 stmt.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/stmt.go b/stmt.go
index 9ac7a6e..599b299 100644
--- a/stmt.go
+++ b/stmt.go
@@ -224,6 +224,9 @@ func (s *boltStmt) QueryPipeline(params ...map[string]interface{}) (PipelineRows
 	if len(params) != len(s.queries) {
 		return nil, errors.New("Must pass same number of params as there are queries")
 	}
+	if len(s.queries) == 0 {
+		return nil, errors.New("Must have at least one query to get rows")
+	}
 
 	for i, query := range s.queries {
 		err := s.conn.sendRunPullAll(query, params[i])
-- 
2.43.0


From abf9152dd1603ce39d4cc812e2f04d42b9f603fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:28 +0000
Subject: [PATCH 20/35] fix: keep track of the open transaction of a connection

Begin never recorded the transaction: a second Begin was sent to the server
instead of being refused, and closing a connection, or returning it to the
pool, did not roll an open transaction back. A transaction whose COMMIT or
ROLLBACK failed is over for the server and now is for the driver too.
---
 conn.go |  3 ++-
 tx.go   | 12 ++++++++----
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/conn.go b/conn.go
index 311d26e..adeba2c 100644
--- a/conn.go
+++ b/conn.go
@@ -543,7 +543,8 @@ func (c *boltConn) Begin() (driver.Tx, error) {
 
 	log.Infof("Got success message pulling transaction: %#v", success)
 
-	return newTx(c), nil
+	c.transaction = newTx(c)
+	return c.transaction, nil
 }
 
 // Sets the size of the chunks to write to the stream
diff --git a/tx.go b/tx.go
index e70bbef..ba669fb 100644
--- a/tx.go
+++ b/tx.go
@@ -36,6 +36,10 @@ func (t *boltTx) Commit() error {
 		}
 	}
 
+	// Whatever the server makes of this, the transaction is over
+	t.conn.transaction = nil
+	t.closed = true
+
 	successInt, pullInt, err := t.conn.sendRunPullAllConsumeSingle("COMMIT", nil)
 	if err != nil {
 		return errors.Wrap(err, "An error occurred committing transaction")
@@ -55,8 +59,6 @@ func (t *boltTx) Commit() error {
 
 	log.Infof("Got success message pulling transaction: %#v", pull)
 
-	t.conn.transaction = nil
-	t.closed = true
 	return err
 }
 
@@ -71,6 +73,10 @@ func (t *boltTx) Rollback() error {
 		}
 	}
 
+	// Whatever the server makes of this, the transaction is over
+	t.conn.transaction = nil
+	t.closed = true
+
 	successInt, pullInt, err := t.conn.sendRunPullAllConsumeSingle("ROLLBACK", nil)
 	if err != nil {
 		return errors.Wrap(err, "An error occurred rolling back transaction")
@@ -90,7 +96,5 @@ func (t *boltTx) Rollback() error {
 
 	log.Infof("Got success message pulling transaction: %#v", pull)
 
-	t.conn.transaction = nil
-	t.closed = true
 	return err
 }
-- 
2.43.0


From 28bb30f5b2a30f4c1cd40dc16b61c8ee96924dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:41 +0000
Subject: [PATCH 21/35] fix: closing a connection always releases it, and only
 once

When closing the open statement or rolling back failed, the network
connection stayed open or the pool never got its connection back. A pooled
connection could be closed twice, which put it into the pool twice.
---
 conn.go   | 23 +++++++++++++++++------
 driver.go |  3 ++-
 2 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/conn.go b/conn.go
index adeba2c..51b627a 100644
--- a/conn.go
+++ b/conn.go
@@ -371,18 +371,30 @@ func (c *boltConn) Close() error {
 		return nil
 	}
 
+	var closeErr error
 	if c.statement != nil {
 		if err := c.statement.Close(); err != nil {
-			return err
+			closeErr = err
 		}
 	}
 
 	if c.transaction != nil {
-		if err := c.transaction.Rollback(); err != nil {
-			return errors.Wrap(err, "Error rolling back transaction when closing connection")
+		if err := c.transaction.Rollback(); err != nil && closeErr == nil {
+			closeErr = errors.Wrap(err, "Error rolling back transaction when closing connection")
 		}
 	}
 
+	if c.closed {
+		// Closed because of what the server answered to the above
+		return closeErr
+	}
+
+	// Whatever happened so far, let go of the network connection
+	c.closed = true
+	if closeErr != nil && c.connErr == nil {
+		c.connErr = closeErr
+	}
+
 	if c.poolDriver != nil {
 		// If using connection pooling, don't close connection, just reclaim it
 		err := c.poolDriver.reclaim(c)
@@ -391,19 +403,18 @@ func (c *boltConn) Close() error {
 			c.connErr = errors.Wrap(err, "An error occurred closing the connection")
 			return driver.ErrBadConn
 		}
-		return nil
+		return closeErr
 	}
 
 	if c.conn != nil {
 		err := c.conn.Close()
-		c.closed = true
 		if err != nil {
 			c.connErr = errors.Wrap(err, "An error occurred closing the connection")
 			return driver.ErrBadConn
 		}
 	}
 
-	return nil
+	return closeErr
 }
 
 func (c *boltConn) ackFailure(failure messages.FailureMessage) error {
diff --git a/driver.go b/driver.go
index 1bbf0c6..dc7ab04 100644
--- a/driver.go
+++ b/driver.go
@@ -176,7 +176,7 @@ func (d *boltDriverPool) Close() error {
 func (d *boltDriverPool) reclaim(conn *boltConn) error {
 	var newConn *boltConn
 	var err error
-	if conn.connErr != nil || conn.closed {
+	if conn.connErr != nil {
 		newConn, err = newPooledBoltConn(d.connStr, d)
 		if err != nil {
 			return err
@@ -186,6 +186,7 @@ func (d *boltDriverPool) reclaim(conn *boltConn) error {
 		// it isn't held on to
 		newConn = &boltConn{}
 		*newConn = *conn
+		newConn.closed = false
 	}
 
 	d.pool <- newConn
-- 
2.43.0


From 8992ec54dba3dcbada6d0752a9f41d09279a6bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:13 +0000
Subject: [PATCH 22/35] fix: never put a failed connection back into the pool

A pooled connection whose handshake or INIT was refused went back into the
pool as it was and was handed out as initialised the next time. The network
connection of a failed connection was dropped without closing it.
---
 conn.go   | 4 ++++
 driver.go | 5 +++++
 2 files changed, 9 insertions(+)

diff --git a/conn.go b/conn.go
index 51b627a..c6e722a 100644
--- a/conn.go
+++ b/conn.go
@@ -269,6 +269,7 @@ func (c *boltConn) initialize() error {
 		c.driver.recorder.Conn, err = c.createConn()
 		if err != nil {
 			// Return the connection back into the pool
+			c.connErr = err
 			if e := c.Close(); e != nil {
 				log.Errorf("An error occurred closing connection: %s", e)
 			}
@@ -279,6 +280,7 @@ func (c *boltConn) initialize() error {
 		c.conn, err = c.createConn()
 		if err != nil {
 			// Return the connection back into the pool
+			c.connErr = err
 			if e := c.Close(); e != nil {
 				log.Errorf("An error occurred closing connection: %s", e)
 			}
@@ -287,6 +289,7 @@ func (c *boltConn) initialize() error {
 	}
 
 	if err := c.handShake(); err != nil {
+		c.connErr = err
 		if e := c.Close(); e != nil {
 			log.Errorf("An error occurred closing connection: %s", e)
 		}
@@ -295,6 +298,7 @@ func (c *boltConn) initialize() error {
 
 	respInt, err := c.sendInit()
 	if err != nil {
+		c.connErr = err
 		if e := c.Close(); e != nil {
 			log.Errorf("An error occurred closing connection: %s", e)
 		}
diff --git a/driver.go b/driver.go
index dc7ab04..c9880f8 100644
--- a/driver.go
+++ b/driver.go
@@ -177,6 +177,11 @@ func (d *boltDriverPool) reclaim(conn *boltConn) error {
 	var newConn *boltConn
 	var err error
 	if conn.connErr != nil {
+		if conn.conn != nil {
+			if err := conn.conn.Close(); err != nil {
+				log.Errorf("An error occurred closing bad connection: %s", err)
+			}
+		}
 		newConn, err = newPooledBoltConn(d.connStr, d)
 		if err != nil {
 			return err
-- 
2.43.0


From fee1df7026fce6fd3b339b74954dd4e0d7709aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:34 +0000
Subject: [PATCH 23/35] fix: closing a pool closes every connection it has open

The pool kept references to connection objects that handing a connection
back replaces, so Close set the old ones free to close a network connection
that another object was using, missed the rest after the first error, and
never knew the new ones. A dead connection that is opened anew is closed
first.
---
 driver.go | 39 ++++++++++++++++++++++++++++++++-------
 1 file changed, 32 insertions(+), 7 deletions(-)

diff --git a/driver.go b/driver.go
index c9880f8..0b96f76 100644
--- a/driver.go
+++ b/driver.go
@@ -88,6 +88,7 @@ type boltDriverPool struct {
 	maxConns int
 	pool     chan *boltConn
 	connRefs []*boltConn
+	connLock sync.Mutex // Guards connRefs. Never held while waiting for the pool.
 	refLock  sync.Mutex
 	closed   bool
 }
@@ -130,10 +131,13 @@ func (d *boltDriverPool) OpenPool() (Conn, error) {
 	if !d.closed {
 		conn := <-d.pool
 		if connectionNilOrClosed(conn) {
+			if conn.conn != nil {
+				conn.conn.Close()
+			}
 			if err := conn.initialize(); err != nil {
 				return nil, err
 			}
-			d.connRefs = append(d.connRefs, conn)
+			d.replaceRef(conn, conn)
 		}
 		return conn, nil
 	}
@@ -159,18 +163,37 @@ func (d *boltDriverPool) Close() error {
 	// Lock the connection ref so no new connections can be added
 	d.refLock.Lock()
 	defer d.refLock.Unlock()
+	// Mark the pool as closed to stop any new connections
+	d.closed = true
+	d.connLock.Lock()
+	defer d.connLock.Unlock()
+	var closeErr error
 	for _, conn := range d.connRefs {
 		// Remove the reference to the pool, to allow a clean up of the connection
 		conn.poolDriver = nil
 		err := conn.Close()
-		if err != nil {
-			d.closed = true
-			return err
+		if err != nil && closeErr == nil {
+			closeErr = err
 		}
 	}
-	// Mark the pool as closed to stop any new connections
-	d.closed = true
-	return nil
+	return closeErr
+}
+
+// replaceRef makes the pool keep a reference to newConn in the place of conn.
+// If newConn is nil, it just forgets conn.
+func (d *boltDriverPool) replaceRef(conn *boltConn, newConn *boltConn) {
+	d.connLock.Lock()
+	defer d.connLock.Unlock()
+	refs := []*boltConn{}
+	for _, ref := range d.connRefs {
+		if ref != conn {
+			refs = append(refs, ref)
+		}
+	}
+	if newConn != nil {
+		refs = append(refs, newConn)
+	}
+	d.connRefs = refs
 }
 
 func (d *boltDriverPool) reclaim(conn *boltConn) error {
@@ -186,12 +209,14 @@ func (d *boltDriverPool) reclaim(conn *boltConn) error {
 		if err != nil {
 			return err
 		}
+		d.replaceRef(conn, nil)
 	} else {
 		// sneakily swap out connection so a reference to
 		// it isn't held on to
 		newConn = &boltConn{}
 		*newConn = *conn
 		newConn.closed = false
+		d.replaceRef(conn, newConn)
 	}
 
 	d.pool <- newConn
-- 
2.43.0


From 638e84b45bf1590491939181bb69a8968ee5d2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:36 +0000
Subject: [PATCH 24/35] fix: return an error for sql arguments that are not a
 marshalled map

Any other marshalled value panicked.
---
 util.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/util.go b/util.go
index 4e16ab7..fdffbf2 100644
--- a/util.go
+++ b/util.go
@@ -42,7 +42,12 @@ func driverArgsToMap(args []driver.Value) (map[string]interface{}, error) {
 			return nil, err
 		}
 
-		for k, v := range m.(map[string]interface{}) {
+		params, ok := m.(map[string]interface{})
+		if !ok {
+			return nil, errors.New("You must pass only an encoded map to the Exec/Query args")
+		}
+
+		for k, v := range params {
 			output[k] = v
 		}
 
-- 
2.43.0


From c5d86eea94a46a0713e8615569e8293387df13e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:36 +0000
Subject: [PATCH 25/35] fix: do not panic on a row with more values than
 columns

---
 rows.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rows.go b/rows.go
index 3286ea9..5d6afd0 100644
--- a/rows.go
+++ b/rows.go
@@ -208,6 +208,10 @@ func (r *boltRows) Next(dest []driver.Value) error {
 		return err
 	}
 
+	if len(data) > len(dest) {
+		return errors.New("Got a row with %d values for %d columns", len(data), len(dest))
+	}
+
 	for i, item := range data {
 		switch item := item.(type) {
 		case []interface{}, map[string]interface{}, graph.Node, graph.Path, graph.Relationship, graph.UnboundRelationship:
-- 
2.43.0


From d6889eeab4cac1da1c22f770be422f372c14d2cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:36 +0000
Subject: [PATCH 26/35] fix: return an error for counters of an unexpected type

RowsAffected already did so for the statistics as a whole, but panicked on
a counter that is not an integer.
---
 result.go | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/result.go b/result.go
index 6011a86..e691c7c 100644
--- a/result.go
+++ b/result.go
@@ -52,22 +52,38 @@ func (r boltResult) RowsAffected() (int64, error) {
 	var rowsAffected int64
 	nodesCreated, ok := stats["nodes-created"]
 	if ok {
-		rowsAffected += nodesCreated.(int64)
+		count, ok := nodesCreated.(int64)
+		if !ok {
+			return -1, errors.New("Unrecognized type for stats metadata: %#v", r.metadata)
+		}
+		rowsAffected += count
 	}
 
 	relsCreated, ok := stats["relationships-created"]
 	if ok {
-		rowsAffected += relsCreated.(int64)
+		count, ok := relsCreated.(int64)
+		if !ok {
+			return -1, errors.New("Unrecognized type for stats metadata: %#v", r.metadata)
+		}
+		rowsAffected += count
 	}
 
 	nodesDeleted, ok := stats["nodes-deleted"]
 	if ok {
-		rowsAffected += nodesDeleted.(int64)
+		count, ok := nodesDeleted.(int64)
+		if !ok {
+			return -1, errors.New("Unrecognized type for stats metadata: %#v", r.metadata)
+		}
+		rowsAffected += count
 	}
 
 	relsDeleted, ok := stats["relationships-deleted"]
 	if ok {
-		rowsAffected += relsDeleted.(int64)
+		count, ok := relsDeleted.(int64)
+		if !ok {
+			return -1, errors.New("Unrecognized type for stats metadata: %#v", r.metadata)
+		}
+		rowsAffected += count
 	}
 
 	return rowsAffected, nil
-- 
2.43.0


From 4cb66c08ee2a0261b638fa2bf38ec32ca697bf5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:34 +0000
Subject: [PATCH 27/35] fix: refuse messages nested so deeply that decoding
 them exhausts the stack

---
 encoding/decoder.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/encoding/decoder.go b/encoding/decoder.go
index 9182570..63efce2 100644
--- a/encoding/decoder.go
+++ b/encoding/decoder.go
@@ -19,10 +19,14 @@ import (
 // map[string]interface{} and []interface{} are supported.
 // The interface for maps and slices may be more permissive in the future.
 type Decoder struct {
-	r   io.Reader
-	buf *bytes.Buffer
+	r     io.Reader
+	buf   *bytes.Buffer
+	depth int // How deep the value being decoded is nested
 }
 
+// maxDepth is how deep values may be nested in a message
+const maxDepth = 10000
+
 // NewDecoder Creates a new Decoder object
 func NewDecoder(r io.Reader) Decoder {
 	return Decoder{
@@ -99,6 +103,10 @@ func (d Decoder) Decode() (interface{}, error) {
 }
 
 func (d Decoder) decode(buffer *bytes.Buffer) (interface{}, error) {
+	if d.depth >= maxDepth {
+		return nil, errors.New("Message is nested more than %d levels deep", maxDepth)
+	}
+	d.depth++ // d is a copy, so this counts for nested values only
 
 	marker, err := buffer.ReadByte()
 	if err != nil {
-- 
2.43.0


From 6d0058afd68a99bc7160726b48d578b9e9cc16f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:02 +0000
Subject: [PATCH 28/35] fix: notice that the server closed an idle pooled
 connection before handing it out

A read of zero bytes never looks at the connection, so a dead one was
always taken for a live one.
---
 driver.go | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/driver.go b/driver.go
index 0b96f76..0ee2555 100644
--- a/driver.go
+++ b/driver.go
@@ -5,6 +5,7 @@ import (
 	"time"
 	"database/sql"
 	"database/sql/driver"
+	"net"
 	"github.com/johnnadratowski/golang-neo4j-bolt-driver/errors"
 	"sync"
 )
@@ -148,14 +149,17 @@ func connectionNilOrClosed(conn *boltConn) (bool) {
 	if(conn.conn == nil) {//nil check before attempting read
 		return true
 	}
-	conn.conn.SetReadDeadline(time.Now())
-	zero := make ([]byte, 0)
-	_, err := conn.conn.Read(zero)//read zero bytes to validate connection is still alive
-	if err != nil {
-		log.Error("Bad Connection state detected", err)//the error caught here could be a io.EOF or a timeout, either way we want to log the error & return true
-		return true
+	// Nothing is outstanding on an idle connection, so reading from a live one times out.
+	// A read of zero bytes, or one whose deadline has passed, would not look at the connection.
+	err := conn.conn.SetReadDeadline(time.Now().Add(time.Millisecond))
+	if err == nil {
+		_, err = conn.conn.Read(make([]byte, 1))
+	}
+	if netErr, ok := err.(net.Error); ok && netErr.Timeout() {
+		return false
 	}
-	return false
+	log.Error("Bad Connection state detected", err)//the server closed the connection, or sent something nobody asked for
+	return true
 }
 
 // Close all connections in the pool
-- 
2.43.0


From 8c542fbce3189d86cf20b0397725f8cd777a4232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:03 +0000
Subject: [PATCH 29/35] fix: PreparePipeline kept the caller's slice

A statement that was prepared with PreparePipeline ran the queries the
slice held when it was executed: changing the slice after preparing (or
concurrently) changed what ran, with the parameters of the old queries.
---
 stmt.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stmt.go b/stmt.go
index 599b299..d11d1aa 100644
--- a/stmt.go
+++ b/stmt.go
@@ -50,7 +50,8 @@ func newStmt(query string, conn *boltConn) *boltStmt {
 }
 
 func newPipelineStmt(queries []string, conn *boltConn) *boltStmt {
-	return &boltStmt{queries: queries, conn: conn}
+	// the caller may change its slice afterwards
+	return &boltStmt{queries: append([]string(nil), queries...), conn: conn}
 }
 
 // Close Closes the statement. See sql/driver.Stmt.
-- 
2.43.0


From 64e25089ad18c55b8fc814cfeda572916bcd1bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:16 +0000
Subject: [PATCH 30/35] fix: settings of one user of a pooled connection
 affected the next

---
 conn.go   | 3 +++
 driver.go | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/conn.go b/conn.go
index c6e722a..9319ead 100644
--- a/conn.go
+++ b/conn.go
@@ -71,6 +71,7 @@ type boltConn struct {
 	connErr       error
 	serverVersion []byte
 	timeout       time.Duration
+	urlTimeout    time.Duration // The timeout of the connection string. SetTimeout doesn't change it.
 	chunkSize     uint16
 	closed        bool
 	useTLS        bool
@@ -88,6 +89,7 @@ func createBoltConn(connStr string) *boltConn {
 	return &boltConn{
 		connStr:       connStr,
 		timeout:       time.Second * time.Duration(60),
+		urlTimeout:    time.Second * time.Duration(60),
 		chunkSize:     math.MaxUint16,
 		serverVersion: make([]byte, 4),
 	}
@@ -144,6 +146,7 @@ func (c *boltConn) parseURL() (*url.URL, error) {
 		}
 
 		c.timeout = time.Duration(timeoutInt) * time.Second
+		c.urlTimeout = c.timeout
 	}
 
 	useTLS := url.Query().Get("tls")
diff --git a/driver.go b/driver.go
index 0ee2555..2275052 100644
--- a/driver.go
+++ b/driver.go
@@ -1,6 +1,7 @@
 package golangNeo4jBoltDriver
 
 import (
+	"math"
 	"github.com/johnnadratowski/golang-neo4j-bolt-driver/log"
 	"time"
 	"database/sql"
@@ -220,6 +221,9 @@ func (d *boltDriverPool) reclaim(conn *boltConn) error {
 		newConn = &boltConn{}
 		*newConn = *conn
 		newConn.closed = false
+		// What its user set must not affect the next one
+		newConn.timeout = conn.urlTimeout
+		newConn.chunkSize = math.MaxUint16
 		d.replaceRef(conn, newConn)
 	}
 
-- 
2.43.0


From 458f5ee449ca264e04bb96cb80479acb61afe89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:42 +0000
Subject: [PATCH 31/35] fix: a structure with a wrong number of fields was
 decoded from its neighbours' bytes

---
 encoding/decoder.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/encoding/decoder.go b/encoding/decoder.go
index 63efce2..8585d7f 100644
--- a/encoding/decoder.go
+++ b/encoding/decoder.go
@@ -27,6 +27,18 @@ type Decoder struct {
 // maxDepth is how deep values may be nested in a message
 const maxDepth = 10000
 
+// structFields is how many fields the structures have. Reading fewer or more
+// would take fields for the values around the structure, or the other way round.
+var structFields = map[byte]int{
+	graph.NodeSignature:                3,
+	graph.RelationshipSignature:        5,
+	graph.PathSignature:                3,
+	graph.UnboundRelationshipSignature: 3,
+	messages.RecordMessageSignature:    1,
+	messages.FailureMessageSignature:   1,
+	messages.SuccessMessageSignature:   1,
+}
+
 // NewDecoder Creates a new Decoder object
 func NewDecoder(r io.Reader) Decoder {
 	return Decoder{
@@ -319,6 +331,10 @@ func (d Decoder) decodeStruct(buffer *bytes.Buffer, size int) (interface{}, erro
 		return nil, errors.Wrap(err, "An error occurred reading struct signature byte")
 	}
 
+	if fields, ok := structFields[signature]; ok && size != fields {
+		return nil, errors.New("Structure with signature %x has %d fields. Expected: %d", signature, size, fields)
+	}
+
 	switch signature {
 	case graph.NodeSignature:
 		return d.decodeNode(buffer)
-- 
2.43.0


From fdeb322e77861de633b23e6524fa63a346b613d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:43 +0000
Subject: [PATCH 32/35] fix: after a response that could not be decoded, later
 queries read its leftovers

---
 conn.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/conn.go b/conn.go
index 9319ead..d5f13c0 100644
--- a/conn.go
+++ b/conn.go
@@ -434,7 +434,7 @@ func (c *boltConn) ackFailure(failure messages.FailureMessage) error {
 	}
 
 	for {
-		respInt, err := encoding.NewDecoder(c).Decode()
+		respInt, err := c.decode()
 		if err != nil {
 			return errors.Wrap(err, "An error occurred decoding ack failure message response")
 		}
@@ -468,7 +468,7 @@ func (c *boltConn) reset() error {
 	}
 
 	for {
-		respInt, err := encoding.NewDecoder(c).Decode()
+		respInt, err := c.decode()
 		if err != nil {
 			return errors.Wrap(err, "An error occurred decoding reset message response")
 		}
@@ -575,10 +575,20 @@ func (c *boltConn) SetTimeout(timeout time.Duration) {
 	c.timeout = timeout
 }
 
+// decode reads the next response
+func (c *boltConn) decode() (interface{}, error) {
+	respInt, err := encoding.NewDecoder(c).Decode()
+	if err != nil && c.connErr == nil {
+		// There's no telling which response this was, so what follows can't be attributed to a request any more
+		c.connErr = errors.Wrap(err, "An error occurred decoding a response")
+	}
+	return respInt, err
+}
+
 func (c *boltConn) consume() (interface{}, error) {
 	log.Info("Consuming response from bolt stream")
 
-	respInt, err := encoding.NewDecoder(c).Decode()
+	respInt, err := c.decode()
 	if err != nil {
 		return respInt, err
 	}
-- 
2.43.0


From 947985e8b083b7c1c6ba8cba66930b579ab46976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:09 +0000
Subject: [PATCH 33/35] fix: recording a session panicked when a read or write
 passed a single byte

---
 recorder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recorder.go b/recorder.go
index 41ba2ca..4690a5d 100644
--- a/recorder.go
+++ b/recorder.go
@@ -160,7 +160,7 @@ func (r *recorder) record(data []byte, isWrite bool) {
 	}
 
 	event.Event = append(event.Event, data...)
-	if data[len(data)-2] == byte(0x00) && data[len(data)-1] == byte(0x00) {
+	if n := len(event.Event); n >= 2 && event.Event[n-2] == byte(0x00) && event.Event[n-1] == byte(0x00) {
 		event.Completed = true
 	}
 }
-- 
2.43.0


From 48db9b1e16626f67e2fbd0ca3785c91934f26e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:09 +0000
Subject: [PATCH 34/35] fix: a recording could not be replayed when a read had
 come in several events

---
 recorder.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/recorder.go b/recorder.go
index 4690a5d..cb330e1 100644
--- a/recorder.go
+++ b/recorder.go
@@ -79,17 +79,22 @@ func (r *recorder) Read(b []byte) (n int, err error) {
 
 	for i := 0; i < len(b); i++ {
 		if len(event.Event) == 0 {
+			if i > 0 {
+				// What was read at once may have come in several events
+				break
+			}
 			return i, errors.New("Attempted to read past current event in recorder! Bytes: %s. Recorder %#v, Event; %#v", b, r, event)
 		}
 		b[i] = event.Event[0]
 		event.Event = event.Event[1:]
+		n = i + 1
 	}
 
 	if len(event.Event) == 0 {
 		r.currentEvent++
 	}
 
-	return len(b), nil
+	return n, nil
 }
 
 // Close the net conn, outputting the recording
-- 
2.43.0


From e45a799a496b477acb665ed5882f9b3717bd7cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:09 +0000
Subject: [PATCH 35/35] fix: a recorded connection stayed open when its
 recording could not be written

---
 recorder.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/recorder.go b/recorder.go
index cb330e1..4528863 100644
--- a/recorder.go
+++ b/recorder.go
@@ -101,10 +101,10 @@ func (r *recorder) Read(b []byte) (n int, err error) {
 func (r *recorder) Close() error {
 	if r.Conn != nil {
 		err := r.flush()
-		if err != nil {
-			return err
+		if closeErr := r.Conn.Close(); err == nil {
+			err = closeErr
 		}
-		return r.Conn.Close()
+		return err
 	} else if len(r.events) > 0 {
 		if r.currentEvent != len(r.events) {
 			return errors.New("Didn't read all of the events in the recorder on close! %#v", r)
-- 
2.43.0

