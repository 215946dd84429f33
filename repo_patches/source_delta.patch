From 7519535c478a2571b1786f93117de43639fe98a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:06 +0000
Subject: [PATCH 01/21] fix: KVScanner respects the entry count, bounds-checks
 lengths and keeps errors

---
 pkg/encoding/kvscanner.go | 38 ++++++++++++++++++++++++++++++++++++--
 1 file changed, 36 insertions(+), 2 deletions(-)

diff --git a/pkg/encoding/kvscanner.go b/pkg/encoding/kvscanner.go
index 5a5b5ab..780d5c1 100644
--- a/pkg/encoding/kvscanner.go
+++ b/pkg/encoding/kvscanner.go
@@ -184,7 +184,15 @@ func (k *KVEntry) Reset() {
 }
 
 func (k *KVScanner) Next(e *KVEntry) bool {
+	// errors are sticky and never read past the announced number of entries
+	if k.lastErr != nil || k.left == 0 {
+		return false
+	}
+
 	if len(k.buf) == 0 {
+		if k.left > 0 {
+			k.lastErr = ErrUnterminatedSequence
+		}
 		return false
 	}
 
@@ -201,6 +209,12 @@ func (k *KVScanner) Next(e *KVEntry) bool {
 	}
 	k.buf = k.buf[n:]
 
+	// the name is always followed by at least the type byte
+	if nameLen >= uint64(len(k.buf)) {
+		k.lastErr = ErrUnterminatedSequence
+		return false
+	}
+
 	e.name = k.buf[:nameLen]
 	k.buf = k.buf[nameLen:]
 
@@ -225,10 +239,20 @@ func (k *KVScanner) Next(e *KVEntry) bool {
 		k.buf = k.buf[n:]
 
 	case DataTypeIPV4:
+		if len(k.buf) < net.IPv4len {
+			k.lastErr = ErrUnterminatedSequence
+			return false
+		}
+
 		e.byteVal = k.buf[:net.IPv4len]
 		k.buf = k.buf[net.IPv4len:]
 
 	case DataTypeIPV6:
+		if len(k.buf) < net.IPv6len {
+			k.lastErr = ErrUnterminatedSequence
+			return false
+		}
+
 		e.byteVal = k.buf[:net.IPv6len]
 		k.buf = k.buf[net.IPv6len:]
 
@@ -240,6 +264,11 @@ func (k *KVScanner) Next(e *KVEntry) bool {
 		}
 		k.buf = k.buf[n:]
 
+		if nameLen > uint64(len(k.buf)) {
+			k.lastErr = ErrUnterminatedSequence
+			return false
+		}
+
 		e.byteVal = k.buf[:nameLen]
 		k.buf = k.buf[nameLen:]
 
@@ -251,6 +280,11 @@ func (k *KVScanner) Next(e *KVEntry) bool {
 		}
 		k.buf = k.buf[n:]
 
+		if valLen > uint64(len(k.buf)) {
+			k.lastErr = ErrUnterminatedSequence
+			return false
+		}
+
 		e.byteVal = k.buf[:valLen]
 		k.buf = k.buf[valLen:]
 
@@ -263,8 +297,8 @@ func (k *KVScanner) Next(e *KVEntry) bool {
 }
 
 func (k *KVScanner) Discard() error {
-	if k.RemainingBuf() == 0 {
-		return nil
+	if k.RemainingBuf() == 0 && k.left <= 0 {
+		return k.lastErr
 	}
 
 	e := AcquireKVEntry()
-- 
2.43.0


From e2b7fbafe90aec762ccaf7444232a22c88774068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:21 +0000
Subject: [PATCH 02/21] fix: MessageScanner bounds-checks lengths and stops at
 errors

---
 pkg/encoding/messagescanner.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/pkg/encoding/messagescanner.go b/pkg/encoding/messagescanner.go
index 3e1cc7a..a7b7b48 100644
--- a/pkg/encoding/messagescanner.go
+++ b/pkg/encoding/messagescanner.go
@@ -66,7 +66,15 @@ func (s *MessageScanner) Error() error {
 }
 
 func (s *MessageScanner) Next(m *Message) bool {
+	if s.lastErr != nil {
+		return false
+	}
+
 	if m.KV != nil {
+		if s.lastErr = m.KV.Error(); s.lastErr != nil {
+			return false
+		}
+
 		// if the scanner is still existing from a previous read
 		// forward the current slice to the correct position
 		s.buf = s.buf[len(s.buf)-m.KV.RemainingBuf():]
@@ -85,6 +93,12 @@ func (s *MessageScanner) Next(m *Message) bool {
 	}
 	s.buf = s.buf[n:]
 
+	// the name is always followed by at least the argument count
+	if nameLen >= uint64(len(s.buf)) {
+		s.lastErr = ErrUnterminatedSequence
+		return false
+	}
+
 	m.name = s.buf[:nameLen]
 	s.buf = s.buf[nameLen:]
 
-- 
2.43.0


From 3793fdd694a4bfb208ef6cb21ac0737733eb8e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:21 +0000
Subject: [PATCH 03/21] fix: ActionWriter.SetAddr writes nothing for an invalid
 address

---
 pkg/encoding/actionwriter.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/encoding/actionwriter.go b/pkg/encoding/actionwriter.go
index 168b269..878e9d9 100644
--- a/pkg/encoding/actionwriter.go
+++ b/pkg/encoding/actionwriter.go
@@ -220,6 +220,11 @@ func (aw *ActionWriter) SetUInt64(s varScope, name string, v uint64) error {
 }
 
 func (aw *ActionWriter) SetAddr(s varScope, name string, v netip.Addr) error {
+	// nothing must be written for an address that cannot be encoded
+	if !v.IsValid() {
+		return fmt.Errorf("invalid address")
+	}
+
 	if err := aw.actionHeader(ActionTypeSetVar, s, []byte(name)); err != nil {
 		return err
 	}
-- 
2.43.0


From e04cddfe8103da167018411ceb454ac169312d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:36 +0000
Subject: [PATCH 04/21] fix: KVWriter refuses entries that do not fit without
 leaving partial entries

---
 pkg/encoding/kvwriter.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/pkg/encoding/kvwriter.go b/pkg/encoding/kvwriter.go
index 4465d8b..2438cc7 100644
--- a/pkg/encoding/kvwriter.go
+++ b/pkg/encoding/kvwriter.go
@@ -51,11 +51,17 @@ func (aw *KVWriter) writeKey(name []byte) error {
 		return err
 	}
 
+	// the name is always followed by at least the type byte
+	if n >= len(aw.data)-aw.off {
+		return ErrInsufficientSpace
+	}
+
 	aw.off += n
 	return nil
 }
 
 func (aw *KVWriter) SetString(name string, v string) error {
+	start := aw.off
 	if err := aw.writeKey([]byte(name)); err != nil {
 		return err
 	}
@@ -65,6 +71,7 @@ func (aw *KVWriter) SetString(name string, v string) error {
 
 	n, err := PutBytes(aw.data[aw.off:], []byte(v))
 	if err != nil {
+		aw.off = start // leave no partial entry behind
 		return err
 	}
 	aw.off += n
@@ -73,6 +80,7 @@ func (aw *KVWriter) SetString(name string, v string) error {
 }
 
 func (aw *KVWriter) SetBinary(name string, v []byte) error {
+	start := aw.off
 	if err := aw.writeKey([]byte(name)); err != nil {
 		return err
 	}
@@ -82,6 +90,7 @@ func (aw *KVWriter) SetBinary(name string, v []byte) error {
 
 	n, err := PutBytes(aw.data[aw.off:], v)
 	if err != nil {
+		aw.off = start // leave no partial entry behind
 		return err
 	}
 	aw.off += n
@@ -122,6 +131,7 @@ func (aw *KVWriter) SetInt32(name string, v int32) error {
 }
 
 func (aw *KVWriter) setInt(name string, d DataType, v int64) error {
+	start := aw.off
 	if err := aw.writeKey([]byte(name)); err != nil {
 		return err
 	}
@@ -131,6 +141,7 @@ func (aw *KVWriter) setInt(name string, d DataType, v int64) error {
 
 	n, err := PutVarint(aw.data[aw.off:], uint64(v))
 	if err != nil {
+		aw.off = start // leave no partial entry behind
 		return err
 	}
 	aw.off += n
@@ -146,6 +157,7 @@ func (aw *KVWriter) SetUInt64(name string, v uint64) error {
 }
 
 func (aw *KVWriter) SetAddr(name string, v netip.Addr) error {
+	start := aw.off
 	if err := aw.writeKey([]byte(name)); err != nil {
 		return err
 	}
@@ -156,12 +168,14 @@ func (aw *KVWriter) SetAddr(name string, v netip.Addr) error {
 	case v.Is4():
 		aw.data[aw.off] = byte(DataTypeIPV4)
 	default:
+		aw.off = start // leave no partial entry behind
 		return fmt.Errorf("invalid address")
 	}
 	aw.off++
 
 	n, err := PutAddr(aw.data[aw.off:], v)
 	if err != nil {
+		aw.off = start // leave no partial entry behind
 		return err
 	}
 	aw.off += n
-- 
2.43.0


From 9b10199da008cfe0efcba2949fb89e16d348c881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:33 +0000
Subject: [PATCH 05/21] fix: glitch rate definitions carry a counter and a
 period

---
 peers/sticktable/constants.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/peers/sticktable/constants.go b/peers/sticktable/constants.go
index d41c3ac..4a2dee5 100644
--- a/peers/sticktable/constants.go
+++ b/peers/sticktable/constants.go
@@ -110,6 +110,7 @@ func (d DataType) IsDelay() bool {
 		DataTypeBytesInRate,
 		DataTypeBytesOutRate,
 		DataTypeGPC1Rate,
+		DataTypeGlitchRate,
 		DataTypeHttpFailRate:
 		return true
 	default:
-- 
2.43.0


From f94ab269e4bbb077c9ee37af714e7069487290eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:33 +0000
Subject: [PATCH 06/21] fix: DictData length prefix covers the encoded id and
 value

---
 peers/sticktable/values.go | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/peers/sticktable/values.go b/peers/sticktable/values.go
index 97fdc92..9f5e20f 100644
--- a/peers/sticktable/values.go
+++ b/peers/sticktable/values.go
@@ -211,7 +211,9 @@ func (f *DictData) Unmarshal(b []byte) (int, error) {
 	}
 	f.ID = id
 
-	if length == 1 {
+	// The length covers the encoded ID as well, so nothing else follows
+	// when the ID used all of it.
+	if length == uint64(n) {
 		return offset, nil
 	}
 
@@ -307,7 +309,27 @@ func (v *UnsignedLongLongData) Marshal(b []byte) (int, error) {
 func (f *DictData) Marshal(b []byte) (int, error) {
 	var offset int
 
-	n, err := encoding.PutVarint(b[offset:], uint64(len(f.Value)))
+	// Without an ID there is no entry, which is encoded as an empty length.
+	if f.ID == 0 {
+		return encoding.PutVarint(b, 0)
+	}
+
+	// The length covers everything that follows it: the encoded ID and,
+	// if there is a value, the encoded value length and the value itself.
+	var scratch [10]byte
+	length, err := encoding.PutVarint(scratch[:], f.ID)
+	if err != nil {
+		return offset, err
+	}
+	if len(f.Value) > 0 {
+		n, err := encoding.PutVarint(scratch[:], uint64(len(f.Value)))
+		if err != nil {
+			return offset, err
+		}
+		length += n + len(f.Value)
+	}
+
+	n, err := encoding.PutVarint(b[offset:], uint64(length))
 	offset += n
 	if err != nil {
 		return offset, err
-- 
2.43.0


From ebc9a984610c35d0dd94ee23915bc3088df4206f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:57 +0000
Subject: [PATCH 07/21] fix: bounds-check stick table definitions, keys and
 values when decoding

---
 peers/sticktable/constants.go   |  2 +-
 peers/sticktable/sticktables.go | 11 +++++++++++
 peers/sticktable/values.go      | 30 ++++++++++++++++++++++++++++++
 3 files changed, 42 insertions(+), 1 deletion(-)

diff --git a/peers/sticktable/constants.go b/peers/sticktable/constants.go
index 4a2dee5..7320ac3 100644
--- a/peers/sticktable/constants.go
+++ b/peers/sticktable/constants.go
@@ -33,7 +33,7 @@ func (t KeyType) New() MapKey {
 	case KeyTypeBinary:
 		return new(BinaryKey)
 	default:
-		panic("unknown key type: " + t.String())
+		return nil
 	}
 }
 
diff --git a/peers/sticktable/sticktables.go b/peers/sticktable/sticktables.go
index 134d0b1..100aad4 100644
--- a/peers/sticktable/sticktables.go
+++ b/peers/sticktable/sticktables.go
@@ -3,6 +3,7 @@ package sticktable
 import (
 	"encoding/binary"
 	"fmt"
+	"io"
 	"strings"
 
 	"github.com/dropmorepackets/haproxy-go/pkg/encoding"
@@ -38,6 +39,10 @@ func (s *Definition) Unmarshal(b []byte) (int, error) {
 		return offset, err
 	}
 
+	if nameLength > uint64(len(b)-offset) {
+		return offset, io.ErrUnexpectedEOF
+	}
+
 	name := make([]byte, nameLength)
 	offset += copy(name, b[offset:])
 	s.Name = string(name)
@@ -224,11 +229,17 @@ func (e *EntryUpdate) Unmarshal(b []byte) (int, error) {
 	// We already have a correct update ID loaded from the caller,
 	// so we just override it when the message has its own
 	if e.WithLocalUpdateID {
+		if len(b)-offset < 4 {
+			return offset, io.ErrUnexpectedEOF
+		}
 		e.LocalUpdateID = binary.BigEndian.Uint32(b[offset:])
 		offset += 4
 	}
 
 	if e.WithExpiry {
+		if len(b)-offset < 4 {
+			return offset, io.ErrUnexpectedEOF
+		}
 		e.Expiry = binary.BigEndian.Uint32(b[offset:])
 		offset += 4
 	}
diff --git a/peers/sticktable/values.go b/peers/sticktable/values.go
index 9f5e20f..9e28b40 100644
--- a/peers/sticktable/values.go
+++ b/peers/sticktable/values.go
@@ -3,6 +3,7 @@ package sticktable
 import (
 	"encoding/binary"
 	"fmt"
+	"io"
 	"net/netip"
 
 	"github.com/dropmorepackets/haproxy-go/pkg/encoding"
@@ -17,6 +18,10 @@ type MapKey interface {
 type SignedIntegerKey int32
 
 func (v *SignedIntegerKey) Unmarshal(b []byte, keySize uint64) (int, error) {
+	if len(b) < 4 {
+		return 0, io.ErrUnexpectedEOF
+	}
+
 	*v = SignedIntegerKey(binary.BigEndian.Uint32(b))
 	return 4, nil
 }
@@ -32,6 +37,10 @@ func (v *IPv4AddressKey) Unmarshal(b []byte, keySize uint64) (int, error) {
 		return 0, fmt.Errorf("invalid ipv4 key size: %d", keySize)
 	}
 
+	if len(b) < 4 {
+		return 0, io.ErrUnexpectedEOF
+	}
+
 	*v = IPv4AddressKey(netip.AddrFrom4([4]byte(b)))
 	return 4, nil
 }
@@ -47,6 +56,10 @@ func (v *IPv6AddressKey) Unmarshal(b []byte, keySize uint64) (int, error) {
 		return 0, fmt.Errorf("invalid ipv6 key size: %d", keySize)
 	}
 
+	if len(b) < 16 {
+		return 0, io.ErrUnexpectedEOF
+	}
+
 	*v = IPv6AddressKey(netip.AddrFrom16([16]byte(b)))
 
 	return 16, nil
@@ -66,6 +79,9 @@ func (v *StringKey) Unmarshal(b []byte, keySize uint64) (int, error) {
 	if valueLength == 0 {
 		return n, nil
 	}
+	if valueLength > uint64(len(b)-n) {
+		return n, io.ErrUnexpectedEOF
+	}
 	*v = StringKey(b[n : n+int(valueLength)])
 	return n + int(valueLength), nil
 }
@@ -77,6 +93,10 @@ func (v *StringKey) String() string {
 type BinaryKey []byte
 
 func (v *BinaryKey) Unmarshal(b []byte, keySize uint64) (int, error) {
+	if keySize > uint64(len(b)) {
+		return 0, io.ErrUnexpectedEOF
+	}
+
 	*v = b[:keySize]
 	return int(keySize), nil
 }
@@ -204,6 +224,12 @@ func (f *DictData) Unmarshal(b []byte) (int, error) {
 		return offset, nil
 	}
 
+	if length > uint64(len(b)-offset) {
+		return offset, io.ErrUnexpectedEOF
+	}
+	// Nothing of the entry can be located past its length.
+	b = b[:offset+int(length)]
+
 	id, n, err := encoding.Varint(b[offset:])
 	offset += n
 	if err != nil {
@@ -227,6 +253,10 @@ func (f *DictData) Unmarshal(b []byte) (int, error) {
 		return offset, nil
 	}
 
+	if valueLength > uint64(len(b)-offset) {
+		return offset, io.ErrUnexpectedEOF
+	}
+
 	value := make([]byte, valueLength)
 	offset += copy(value, b[offset:])
 	f.Value = value
-- 
2.43.0


From 28d62fa711897d8f6bb69c126a79856c4d54a40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:39 +0000
Subject: [PATCH 08/21] fix: stick table encoders refuse short buffers and
 invalid keys, pad binary keys

---
 peers/sticktable/sticktables.go | 10 +++++++++
 peers/sticktable/values.go      | 38 ++++++++++++++++++++++++++++++++-
 2 files changed, 47 insertions(+), 1 deletion(-)

diff --git a/peers/sticktable/sticktables.go b/peers/sticktable/sticktables.go
index 100aad4..3fa3070 100644
--- a/peers/sticktable/sticktables.go
+++ b/peers/sticktable/sticktables.go
@@ -124,6 +124,10 @@ func (s *Definition) Marshal(b []byte) (int, error) {
 		return offset, err
 	}
 
+	if len(s.Name) > len(b)-offset {
+		return offset, io.ErrShortBuffer
+	}
+
 	offset += copy(b[offset:], s.Name)
 
 	n, err = encoding.PutVarint(b[offset:], uint64(s.KeyType))
@@ -198,11 +202,17 @@ func (e *EntryUpdate) String() string {
 func (e *EntryUpdate) Marshal(b []byte) (int, error) {
 	var offset int
 	if e.WithLocalUpdateID {
+		if len(b)-offset < 4 {
+			return offset, io.ErrShortBuffer
+		}
 		binary.BigEndian.PutUint32(b[offset:], e.LocalUpdateID)
 		offset += 4
 	}
 
 	if e.WithExpiry {
+		if len(b)-offset < 4 {
+			return offset, io.ErrShortBuffer
+		}
 		binary.BigEndian.PutUint32(b[offset:], e.Expiry)
 		offset += 4
 	}
diff --git a/peers/sticktable/values.go b/peers/sticktable/values.go
index 9e28b40..96351e3 100644
--- a/peers/sticktable/values.go
+++ b/peers/sticktable/values.go
@@ -265,6 +265,10 @@ func (f *DictData) Unmarshal(b []byte) (int, error) {
 }
 
 func (v *SignedIntegerKey) Marshal(b []byte, keySize uint64) (int, error) {
+	if len(b) < 4 {
+		return 0, io.ErrShortBuffer
+	}
+
 	binary.BigEndian.PutUint32(b, uint32(*v))
 	return 4, nil
 }
@@ -273,6 +277,12 @@ func (v *IPv4AddressKey) Marshal(b []byte, keySize uint64) (int, error) {
 	if keySize != 4 {
 		return 0, fmt.Errorf("invalid ipv4 key size: %d", keySize)
 	}
+	if !(*netip.Addr)(v).Unmap().Is4() {
+		return 0, fmt.Errorf("invalid ipv4 key: %s", v)
+	}
+	if len(b) < 4 {
+		return 0, io.ErrShortBuffer
+	}
 	a := (*netip.Addr)(v).As4()
 	copy(b, a[:])
 	return 4, nil
@@ -282,6 +292,12 @@ func (v *IPv6AddressKey) Marshal(b []byte, keySize uint64) (int, error) {
 	if keySize != 16 {
 		return 0, fmt.Errorf("invalid ipv6 key size: %d", keySize)
 	}
+	if !(*netip.Addr)(v).IsValid() {
+		return 0, fmt.Errorf("invalid ipv6 key: %s", v)
+	}
+	if len(b) < 16 {
+		return 0, io.ErrShortBuffer
+	}
 	a := (*netip.Addr)(v).As16()
 	copy(b, a[:])
 	return 16, nil
@@ -293,11 +309,27 @@ func (v *StringKey) Marshal(b []byte, keySize uint64) (int, error) {
 		return n, err
 	}
 
+	if len(*v) > len(b)-n {
+		return n, io.ErrShortBuffer
+	}
+
 	return n + copy(b[n:], *v), nil
 }
 
 func (v *BinaryKey) Marshal(b []byte, keySize uint64) (int, error) {
-	return copy(b[:keySize], *v), nil
+	if uint64(len(*v)) > keySize {
+		return 0, fmt.Errorf("binary key of %d bytes exceeds key size: %d", len(*v), keySize)
+	}
+	if keySize > uint64(len(b)) {
+		return 0, io.ErrShortBuffer
+	}
+	// The encoded key always has the size of the table's keys, so a
+	// shorter one is padded with zeros.
+	clear(b[len(*v):keySize])
+
+	copy(b, *v)
+
+	return int(keySize), nil
 }
 
 func (f *FreqData) Marshal(b []byte) (int, error) {
@@ -378,6 +410,10 @@ func (f *DictData) Marshal(b []byte) (int, error) {
 			return offset, err
 		}
 
+		if len(f.Value) > len(b)-offset {
+			return offset, io.ErrShortBuffer
+		}
+
 		copy(b[offset:], f.Value)
 		offset += len(f.Value)
 	}
-- 
2.43.0


From a596385d16af15392d0ce382f5017d8411009968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:44 +0000
Subject: [PATCH 09/21] fix: frames written concurrently to one connection no
 longer interleave

---
 spop/frame.go    |  7 +++++++
 spop/protocol.go | 10 +++++++++-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/spop/frame.go b/spop/frame.go
index 9868f62..1ab5c3b 100644
--- a/spop/frame.go
+++ b/spop/frame.go
@@ -87,6 +87,13 @@ func (f *frame) writeTo(w io.Writer, payload []byte) (int64, error) {
 	}
 	binary.BigEndian.PutUint32(f.length, uint32(frameLen))
 
+	// A frame is written in multiple steps, so writers that are shared
+	// between goroutines have to be locked for all of them.
+	if l, ok := w.(sync.Locker); ok {
+		l.Lock()
+		defer l.Unlock()
+	}
+
 	n, err := w.Write(f.length)
 	written := int64(n)
 	if err != nil {
diff --git a/spop/protocol.go b/spop/protocol.go
index a742d68..5cb1923 100644
--- a/spop/protocol.go
+++ b/spop/protocol.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"sync"
 	"syscall"
 
 	"github.com/dropmorepackets/haproxy-go/pkg/encoding"
@@ -12,13 +13,20 @@ import (
 
 func newProtocolClient(ctx context.Context, rw io.ReadWriter, as *asyncScheduler, handler Handler) *protocolClient {
 	var c protocolClient
-	c.rw = rw
+	c.rw = &lockedReadWriter{ReadWriter: rw}
 	c.handler = handler
 	c.ctx, c.ctxCancel = context.WithCancelCause(ctx)
 	c.as = as
 	return &c
 }
 
+// lockedReadWriter is locked while writing a frame to prevent interleaved
+// frames, since the workers write to the same connection concurrently.
+type lockedReadWriter struct {
+	io.ReadWriter
+	sync.Mutex
+}
+
 type protocolClient struct {
 	rw      io.ReadWriter
 	handler Handler
-- 
2.43.0


From 56966cd0437a5663ae32d67d1469ca41d499acd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:34 +0000
Subject: [PATCH 10/21] fix: HAPROXY-HELLO max-frame-size is range checked
 before truncation

---
 spop/protocol.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/spop/protocol.go b/spop/protocol.go
index 5cb1923..45b7880 100644
--- a/spop/protocol.go
+++ b/spop/protocol.go
@@ -136,6 +136,9 @@ func (c *protocolClient) onHAProxyHello(f *frame) error {
 	for s.Next(k) {
 		switch {
 		case k.NameEquals(helloKeyMaxFrameSize):
+			if size := k.ValueInt(); size != int64(uint32(size)) {
+				return fmt.Errorf("maxFrameSize out of range: %d", size)
+			}
 			c.maxFrameSize = uint32(k.ValueInt())
 			if c.maxFrameSize < 256 {
 				return fmt.Errorf("maxFrameSize smaller than minimum allowed size: %d", c.maxFrameSize)
-- 
2.43.0


From 7cd9431fec7277432d7958af967bd90c892fa6e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:34 +0000
Subject: [PATCH 11/21] fix: only a true healthcheck entry closes the
 connection after the HELLO

---
 spop/protocol.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/spop/protocol.go b/spop/protocol.go
index 45b7880..bf43175 100644
--- a/spop/protocol.go
+++ b/spop/protocol.go
@@ -133,6 +133,8 @@ func (c *protocolClient) onHAProxyHello(f *frame) error {
 
 	k := encoding.AcquireKVEntry()
 	defer encoding.ReleaseKVEntry(k)
+
+	var healthcheck bool
 	for s.Next(k) {
 		switch {
 		case k.NameEquals(helloKeyMaxFrameSize):
@@ -156,7 +158,7 @@ func (c *protocolClient) onHAProxyHello(f *frame) error {
 		case k.NameEquals(helloKeyHealthcheck):
 			// as described in the protocol, close connection after hello
 			// AGENT-HELLO + close()
-			defer c.ctxCancel(nil)
+			healthcheck = k.ValueBool()
 		}
 	}
 
@@ -172,6 +174,9 @@ func (c *protocolClient) onHAProxyHello(f *frame) error {
 		MaxFrameSize: c.maxFrameSize,
 		Capabilities: []string{},
 	}).WriteTo(c.rw)
+	if healthcheck {
+		c.ctxCancel(nil)
+	}
 	return err
 }
 
-- 
2.43.0


From ded4c4f658918621a213559be882e21f705c929c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:35 +0000
Subject: [PATCH 12/21] fix: HAPROXY-DISCONNECT is answered and closes the
 connection

---
 spop/protocol.go | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/spop/protocol.go b/spop/protocol.go
index bf43175..660d612 100644
--- a/spop/protocol.go
+++ b/spop/protocol.go
@@ -27,6 +27,13 @@ type lockedReadWriter struct {
 	sync.Mutex
 }
 
+func (l *lockedReadWriter) Close() error {
+	if c, ok := l.ReadWriter.(io.Closer); ok {
+		return c.Close()
+	}
+	return nil
+}
+
 type protocolClient struct {
 	rw      io.ReadWriter
 	handler Handler
@@ -39,6 +46,8 @@ type protocolClient struct {
 	maxFrameSize uint32
 
 	gotHello bool
+
+	disconnectOnce sync.Once
 }
 
 func (c *protocolClient) Close() error {
@@ -48,15 +57,22 @@ func (c *protocolClient) Close() error {
 
 	// We ignore any error since the disconnect frame is delivered on
 	// best effort anyway.
-	_, _ = (&AgentDisconnectFrame{
-		ErrCode: ErrorUnknown,
-	}).WriteTo(c.rw)
+	c.disconnect(ErrorUnknown)
 
 	c.ctxCancel(fmt.Errorf("closing client"))
 
 	return nil
 }
 
+// disconnect sends the AGENT-DISCONNECT frame unless it has been sent already.
+func (c *protocolClient) disconnect(code errorCode) {
+	c.disconnectOnce.Do(func() {
+		_, _ = (&AgentDisconnectFrame{
+			ErrCode: code,
+		}).WriteTo(c.rw)
+	})
+}
+
 func (c *protocolClient) frameHandler(f *frame) error {
 	defer releaseFrame(f)
 
@@ -250,5 +266,13 @@ func (c *protocolClient) onHAProxyDisconnect(f *frame) error {
 	}
 
 	c.ctxCancel(err)
+
+	// HAProxy waits for an AGENT-DISCONNECT frame and the end of the
+	// connection. Both are best effort, it might already be gone.
+	c.disconnect(ErrorNone)
+	if closer, ok := c.rw.(io.Closer); ok {
+		_ = closer.Close()
+	}
+
 	return err
 }
-- 
2.43.0


From 3757b63202240e018ce32fe85a76693ea7ae445e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:17 +0000
Subject: [PATCH 13/21] fix: peer messages allocate memory as their data
 arrives

---
 peers/protocol.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/peers/protocol.go b/peers/protocol.go
index f51b2b7..b12fd9d 100644
--- a/peers/protocol.go
+++ b/peers/protocol.go
@@ -2,11 +2,13 @@ package peers
 
 import (
 	"bufio"
+	"bytes"
 	"context"
 	"errors"
 	"fmt"
 	"io"
 	"log"
+	"math"
 	"net"
 	"sync"
 	"time"
@@ -195,8 +197,14 @@ func (m *rawMessage) ReadFrom(r byteReader) (int64, error) {
 			return int64(n), fmt.Errorf("failed decoding data length: %v", err)
 		}
 
-		m.Data = make([]byte, dataLength)
-		readData, err = io.ReadFull(r, m.Data)
+		if dataLength > math.MaxInt32 {
+			return int64(n), fmt.Errorf("data length %d exceeds maximum", dataLength)
+		}
+
+		// The length is not trusted: memory is allocated as the data arrives.
+		var buf bytes.Buffer
+		readN, err := io.CopyN(&buf, r, int64(dataLength))
+		readData, m.Data = int(readN), buf.Bytes()
 		if err != nil {
 			return int64(n + readData), fmt.Errorf("failed reading message data: %v", err)
 		}
-- 
2.43.0


From 1137f1acb0248755851befd9e0a8356e2e2909da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:17 +0000
Subject: [PATCH 14/21] fix: the peer handshake consumes exactly its three
 lines

---
 peers/messages.go | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/peers/messages.go b/peers/messages.go
index 228e47e..b6316d5 100644
--- a/peers/messages.go
+++ b/peers/messages.go
@@ -41,8 +41,24 @@ func NewHandshake(remotePeer string) *Handshake {
 	}
 }
 
+// handshakeReader reads single bytes so that nothing behind the handshake is
+// consumed.
+type handshakeReader struct {
+	r    io.Reader
+	last byte
+}
+
+func (h *handshakeReader) Read(p []byte) (int, error) {
+	n, err := h.r.Read(p[:min(1, len(p))])
+	if n > 0 {
+		h.last = p[0]
+	}
+	return n, err
+}
+
 func (h *Handshake) ReadFrom(r io.Reader) (n int64, err error) {
-	scanner := bufio.NewScanner(r)
+	hr := &handshakeReader{r: r}
+	scanner := bufio.NewScanner(hr)
 
 	scanner.Scan()
 	_, err = fmt.Sscanf(scanner.Text(), "%s %s", &h.ProtocolIdentifier, &h.Version)
@@ -59,6 +75,10 @@ func (h *Handshake) ReadFrom(r io.Reader) (n int64, err error) {
 		return -1, err
 	}
 
+	if hr.last != '\n' {
+		return -1, io.ErrUnexpectedEOF
+	}
+
 	//TODO: find out how many bytes where read.
 	return -1, scanner.Err()
 }
-- 
2.43.0


From f9233b2b7c27371287ae2d99d35a2cd38063d0c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:17 +0000
Subject: [PATCH 15/21] fix: the handshake status is sent before the handler
 can push updates

---
 peers/protocol.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/peers/protocol.go b/peers/protocol.go
index b12fd9d..d70f61f 100644
--- a/peers/protocol.go
+++ b/peers/protocol.go
@@ -69,12 +69,12 @@ func (c *protocolClient) peerHandshake() error {
 		return err
 	}
 
-	c.handler.HandleHandshake(c.ctx, &h)
-
 	if _, err := c.lockedWrite([]byte(fmt.Sprintf("%d\n", HandshakeStatusHandshakeSucceeded))); err != nil {
 		return fmt.Errorf("handshake failed: %v", err)
 	}
 
+	c.handler.HandleHandshake(c.ctx, &h)
+
 	return nil
 }
 
-- 
2.43.0


From a7747dea6734e0f9ba891124f0580cd07fc827c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:17 +0000
Subject: [PATCH 16/21] fix: a peer session that times out is closed, its
 handler exactly once

---
 peers/protocol.go | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/peers/protocol.go b/peers/protocol.go
index d70f61f..5ed1890 100644
--- a/peers/protocol.go
+++ b/peers/protocol.go
@@ -30,7 +30,8 @@ type protocolClient struct {
 	lastTableDefinition *sticktable.Definition
 	lastEntryUpdate     *sticktable.EntryUpdate
 
-	handler Handler
+	handler   Handler
+	closeOnce sync.Once
 }
 
 func newProtocolClient(ctx context.Context, rw io.ReadWriter, handler Handler, wmu *sync.Mutex, bw *bufio.Writer) *protocolClient {
@@ -46,11 +47,20 @@ func newProtocolClient(ctx context.Context, rw io.ReadWriter, handler Handler, w
 
 func (c *protocolClient) Close() error {
 	defer c.ctxCancel()
-	if c.ctx.Err() != nil {
-		return c.ctx.Err()
-	}
+	err := c.ctx.Err()
+	c.closeOnce.Do(func() {
+		err = c.handler.Close()
+	})
+
+	return err
+}
 
-	return c.handler.Close()
+// abort ends the session: Serve returns and closes the client afterwards.
+func (c *protocolClient) abort() {
+	c.ctxCancel()
+	if closer, ok := c.rw.(io.Closer); ok {
+		_ = closer.Close()
+	}
 }
 
 func (c *protocolClient) lockedWrite(data []byte) (int, error) {
@@ -109,7 +119,7 @@ func (c *protocolClient) heartbeat() {
 	for range c.nextHeartbeat.C {
 		_, err := c.lockedWrite([]byte{byte(MessageClassControl), byte(ControlMessageHeartbeat)})
 		if err != nil {
-			_ = c.Close()
+			c.abort()
 			return
 		}
 	}
@@ -118,7 +128,7 @@ func (c *protocolClient) heartbeat() {
 func (c *protocolClient) lastMessage() {
 	<-c.lastMessageTimer.C
 	log.Println("last message timer expired: closing connection")
-	_ = c.Close()
+	c.abort()
 }
 
 func (c *protocolClient) Serve() error {
-- 
2.43.0


From 1146f87af37d5acfbe62fe8fcd79f893a4d6a031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:17 +0000
Subject: [PATCH 17/21] fix: SendEntry releases the lock when encoding an entry
 panics

---
 peers/writer.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/peers/writer.go b/peers/writer.go
index 2a378e3..e4dcf7b 100644
--- a/peers/writer.go
+++ b/peers/writer.go
@@ -170,6 +170,8 @@ func marshalEntry(buf []byte, entry *sticktable.EntryUpdate, updateID uint32) (i
 // Note: for bulk operations, prefer SendEntries which batches writes and flushes once.
 func (w *Writer) SendEntry(entry *sticktable.EntryUpdate) error {
 	w.mu.Lock()
+	defer w.mu.Unlock()
+
 	updateID := w.nextUpdateID
 	w.nextUpdateID++
 
@@ -180,7 +182,6 @@ func (w *Writer) SendEntry(entry *sticktable.EntryUpdate) error {
 
 	offset, err := marshalEntry(w.buf, entry, updateID)
 	if err != nil {
-		w.mu.Unlock()
 		return fmt.Errorf("marshaling entry update: %w", err)
 	}
 
@@ -189,13 +190,10 @@ func (w *Writer) SendEntry(entry *sticktable.EntryUpdate) error {
 		byte(msgType),
 		w.buf[:offset],
 	); err != nil {
-		w.mu.Unlock()
 		return err
 	}
 
-	err = w.bw.Flush()
-	w.mu.Unlock()
-	return err
+	return w.bw.Flush()
 }
 
 // SendEntries sends multiple stick table entry updates in a single
-- 
2.43.0


From c7f544cb9ac9244ec623fed35111c58539defe46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:23 +0000
Subject: [PATCH 18/21] fix: an accepted connection that is already dead does
 not stop the agent

---
 spop/agent.go | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/spop/agent.go b/spop/agent.go
index 545944b..ac83906 100644
--- a/spop/agent.go
+++ b/spop/agent.go
@@ -50,13 +50,11 @@ func (a *Agent) Serve(l net.Listener) error {
 		}
 
 		if tcp, ok := nc.(*net.TCPConn); ok {
-			err = tcp.SetWriteBuffer(math.MaxUint16) // 64KB seems like a fair buffer size
-			if err != nil {
-				return err
-			}
-			err = tcp.SetReadBuffer(math.MaxUint16) // 64KB seems like a fair buffer size
-			if err != nil {
-				return err
+			// a connection that is already unusable must not stop the agent
+			if err := setBuffers(tcp); err != nil {
+				log.Printf("setting up conn: %v", err)
+				nc.Close()
+				continue
 			}
 		}
 
@@ -73,6 +71,13 @@ func (a *Agent) Serve(l net.Listener) error {
 	}
 }
 
+func setBuffers(tcp *net.TCPConn) error {
+	if err := tcp.SetWriteBuffer(math.MaxUint16); err != nil { // 64KB seems like a fair buffer size
+		return err
+	}
+	return tcp.SetReadBuffer(math.MaxUint16) // 64KB seems like a fair buffer size
+}
+
 func wrapPanic(fn func() error) (err error) {
 	didPanic := true
 	defer func() {
-- 
2.43.0


From 4f4faa4ebb4e5c59c664cfe1c4e99792042c7c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:09 +0000
Subject: [PATCH 19/21] fix: a panic value whose own methods panic does not
 terminate the agent

---
 spop/agent.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/spop/agent.go b/spop/agent.go
index ac83906..b2d800d 100644
--- a/spop/agent.go
+++ b/spop/agent.go
@@ -86,7 +86,7 @@ func wrapPanic(fn func() error) (err error) {
 				const size = 64 << 10
 				buf := make([]byte, size)
 				buf = buf[:runtime.Stack(buf, false)]
-				err = fmt.Errorf("spop: panic: %v\n%s", e, buf)
+				err = fmt.Errorf("spop: panic: %s\n%s", panicString(e), buf)
 			}
 		}
 	}()
@@ -94,3 +94,14 @@ func wrapPanic(fn func() error) (err error) {
 	didPanic = false
 	return
 }
+
+// panicString formats the value of a panic, whose own methods may panic too.
+func panicString(v any) (s string) {
+	defer func() {
+		if recover() != nil {
+			s = fmt.Sprintf("%T", v)
+		}
+	}()
+
+	return fmt.Sprint(v)
+}
-- 
2.43.0


From 392615964b183537352b3c46cbb422db9ab190b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:51 +0000
Subject: [PATCH 20/21] fix: unknown data types print as DataType(n)

---
 peers/sticktable/constants.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peers/sticktable/constants.go b/peers/sticktable/constants.go
index 7320ac3..bc220b5 100644
--- a/peers/sticktable/constants.go
+++ b/peers/sticktable/constants.go
@@ -96,7 +96,7 @@ func (d DataType) String() string {
 	case DataTypeGlitchRate:
 		return "glitch_rate"
 	default:
-		return "StickTableUpdateMessageType(" + strconv.FormatInt(int64(d), 10) + ")"
+		return "DataType(" + strconv.FormatInt(int64(d), 10) + ")"
 	}
 }
 
-- 
2.43.0


From 8814200d747ff86ba3df5cc762e0115a0cfdd914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:21 +0000
Subject: [PATCH 21/21] fix: let a Peer with a Handler serve again

Serve stored the source made from Handler in HandlerSource, so every later
call of Serve or ListenAndServe failed because both fields were set.
---
 peers/peers.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/peers/peers.go b/peers/peers.go
index 2a4d056..1bd5b99 100644
--- a/peers/peers.go
+++ b/peers/peers.go
@@ -45,8 +45,10 @@ func (a *Peer) Serve(l net.Listener) error {
 		return fmt.Errorf("cannot set Handler and HandlerSource at the same time")
 	}
 
+	// Serve may be called again, so the fields keep the user's values
+	handlerSource := a.HandlerSource
 	if a.Handler != nil {
-		a.HandlerSource = func() Handler {
+		handlerSource = func() Handler {
 			return a.Handler
 		}
 	}
@@ -63,7 +65,7 @@ func (a *Peer) Serve(l net.Listener) error {
 		wmu := &sync.Mutex{}
 		w := newWriter(nc, wmu)
 		ctx = context.WithValue(ctx, writerKey, w)
-		p := newProtocolClient(ctx, nc, a.HandlerSource(), wmu, w.bufferedWriter())
+		p := newProtocolClient(ctx, nc, handlerSource(), wmu, w.bufferedWriter())
 		go func() {
 			defer nc.Close()
 			defer p.Close()
-- 
2.43.0

