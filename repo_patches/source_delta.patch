From bb178d11318d74f5d714e79811514ed964e53f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:30 +0000
Subject: [PATCH 01/40] fix: AUTH properties overwrite the encoded reason code

---
 mqttp/auth.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mqttp/auth.go b/mqttp/auth.go
index 1806bbd..ed5886f 100644
--- a/mqttp/auth.go
+++ b/mqttp/auth.go
@@ -90,6 +90,8 @@ func (msg *Auth) decodeMessage(from []byte) (int, error) {
 func (msg *Auth) encodeMessage(to []byte) (int, error) {
 	offset := 0
 	to[offset] = byte(msg.authReason)
+	offset++
+
 	n, err := msg.properties.encode(to[offset:])
 
 	return offset + n, err
-- 
2.43.0


From 573efdba5e6f0fddd39715acc5fd7da123825c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:34 +0000
Subject: [PATCH 02/40] fix: AUTH SetReasonCode validates the previous code
 instead of the new one

---
 mqttp/auth.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mqttp/auth.go b/mqttp/auth.go
index ed5886f..7bd73b8 100644
--- a/mqttp/auth.go
+++ b/mqttp/auth.go
@@ -48,8 +48,8 @@ func (msg *Auth) ReasonCode() ReasonCode {
 
 // SetReasonCode set authentication reason code
 func (msg *Auth) SetReasonCode(c ReasonCode) error {
-	if msg.authReason.IsValidForType(msg.mType) {
-		return ErrInvalidMessageType
+	if !c.IsValidForType(msg.mType) {
+		return ErrInvalidReturnCode
 	}
 
 	msg.authReason = c
-- 
2.43.0


From 9400da31c26f3483f9851039bd461cc6067cdb5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:38 +0000
Subject: [PATCH 03/40] fix: empty property section leaves a stale byte in the
 encode buffer

---
 mqttp/property.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/mqttp/property.go b/mqttp/property.go
index 4940c15..08691be 100644
--- a/mqttp/property.go
+++ b/mqttp/property.go
@@ -438,10 +438,6 @@ func (p *property) encode(to []byte) (int, error) {
 		return 0, ErrInsufficientBufferSize
 	}
 
-	if pLen == 1 {
-		return 1, nil
-	}
-
 	var offset int
 	var err error
 	// Encode variable length header
-- 
2.43.0


From 8ab546a2ec4b7c2b22b56ce6c500909dc75a12c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:43 +0000
Subject: [PATCH 04/40] fix: UNSUBSCRIBE omits the MQTT 5 property section

---
 mqttp/unsubscribe.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/mqttp/unsubscribe.go b/mqttp/unsubscribe.go
index c56ef2b..2065a0a 100644
--- a/mqttp/unsubscribe.go
+++ b/mqttp/unsubscribe.go
@@ -121,6 +121,15 @@ func (msg *UnSubscribe) encodeMessage(dst []byte) (int, error) {
 
 	total := msg.encodePacketID(dst)
 
+	// V5.0 [MQTT-3.10.2.1] UNSUBSCRIBE Properties
+	if msg.version >= ProtocolV50 {
+		n, err = msg.properties.encode(dst[total:])
+		total += n
+		if err != nil {
+			return total, err
+		}
+	}
+
 	for _, t := range msg.topics {
 		n, err = WriteLPBytes(dst[total:], t.full)
 		total += n
@@ -142,6 +151,10 @@ func (msg *UnSubscribe) size() int {
 	// packet ID
 	total := 2
 
+	// V5.0 [MQTT-3.10.2.1] UNSUBSCRIBE Properties
+	if msg.version >= ProtocolV50 {
+		total += msg.properties.FullLen()
+	}
 	for _, t := range msg.topics {
 		total += 2 + len(t.full)
 	}
-- 
2.43.0


From 4975d30b68bf8d0c44b015129b862ef7b319d944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:47 +0000
Subject: [PATCH 05/40] fix: UNSUBSCRIBE decode drops trailing short topics

---
 mqttp/unsubscribe.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mqttp/unsubscribe.go b/mqttp/unsubscribe.go
index 2065a0a..d7fb71f 100644
--- a/mqttp/unsubscribe.go
+++ b/mqttp/unsubscribe.go
@@ -91,7 +91,7 @@ func (msg *UnSubscribe) decodeMessage(from []byte) (int, error) {
 
 		msg.topics = append(msg.topics, topic)
 
-		remLen = remLen - n - 1
+		remLen -= n
 	}
 
 	// [MQTT-3.10.3-2]
-- 
2.43.0


From df1297d6bd0cfe50cc5027f2566bc0d233e25635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:52 +0000
Subject: [PATCH 06/40] fix: SUBACK decode refuses valid MQTT 5 reason codes

---
 mqttp/suback.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mqttp/suback.go b/mqttp/suback.go
index 1ed7f89..488deb5 100644
--- a/mqttp/suback.go
+++ b/mqttp/suback.go
@@ -87,8 +87,10 @@ func (msg *SubAck) decodeMessage(from []byte) (int, error) {
 
 	for i, q := range from[offset : offset+numCodes] {
 		code := ReasonCode(q)
-		if msg.version == ProtocolV50 && !code.IsValidForType(msg.mType) {
-			return offset + i, CodeProtocolError
+		if msg.version == ProtocolV50 {
+			if !code.IsValidForType(msg.mType) {
+				return offset + i, CodeProtocolError
+			}
 		} else if !QosType(code).IsValidFull() {
 			return offset + i, CodeRefusedServerUnavailable
 		}
-- 
2.43.0


From fe1bd65ba0b220c4fbbdd558b47edb5291e89c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:56 +0000
Subject: [PATCH 07/40] fix: UNSUBACK AddReturnCodes refuses valid MQTT 5
 reason codes

---
 mqttp/unsuback.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mqttp/unsuback.go b/mqttp/unsuback.go
index e6eda4e..75448a6 100644
--- a/mqttp/unsuback.go
+++ b/mqttp/unsuback.go
@@ -51,8 +51,10 @@ func (msg *UnSubAck) ReturnCodes() []ReasonCode {
 // An error is returned if any of the QoS values are not valid.
 func (msg *UnSubAck) AddReturnCodes(ret []ReasonCode) error {
 	for _, c := range ret {
-		if msg.version == ProtocolV50 && !c.IsValidForType(msg.mType) {
-			return ErrInvalidReturnCode
+		if msg.version == ProtocolV50 {
+			if !c.IsValidForType(msg.mType) {
+				return ErrInvalidReturnCode
+			}
 		} else if !QosType(c).IsValidFull() {
 			return ErrInvalidReturnCode
 		}
-- 
2.43.0


From 502c83e1a3bb25528188024f47ea313d8fa33e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:00 +0000
Subject: [PATCH 08/40] fix: UNSUBACK decode accepts undefined reason codes

---
 mqttp/unsuback.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mqttp/unsuback.go b/mqttp/unsuback.go
index 75448a6..85f89a5 100644
--- a/mqttp/unsuback.go
+++ b/mqttp/unsuback.go
@@ -82,6 +82,9 @@ func (msg *UnSubAck) decodeMessage(from []byte) (int, error) {
 		}
 
 		for _, c := range from[offset:msg.remLen] {
+			if !ReasonCode(c).IsValidForType(msg.mType) {
+				return offset, CodeProtocolError
+			}
 			msg.returnCodes = append(msg.returnCodes, ReasonCode(c))
 		}
 	}
-- 
2.43.0


From 85093bcc7e135702c6088f3ebea1720aacea014e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:07 +0000
Subject: [PATCH 09/40] fix: SUBACK/UNSUBACK AddReturnCodes keeps part of a
 refused list

---
 mqttp/suback.go   | 4 ++--
 mqttp/unsuback.go | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/mqttp/suback.go b/mqttp/suback.go
index 488deb5..d93c968 100644
--- a/mqttp/suback.go
+++ b/mqttp/suback.go
@@ -54,10 +54,10 @@ func (msg *SubAck) AddReturnCodes(ret []ReasonCode) error {
 		} else if !QosType(c).IsValidFull() {
 			return ErrInvalidReturnCode
 		}
-
-		msg.returnCodes = append(msg.returnCodes, c)
 	}
 
+	msg.returnCodes = append(msg.returnCodes, ret...)
+
 	return nil
 }
 
diff --git a/mqttp/unsuback.go b/mqttp/unsuback.go
index 85f89a5..5cf8d7e 100644
--- a/mqttp/unsuback.go
+++ b/mqttp/unsuback.go
@@ -58,10 +58,10 @@ func (msg *UnSubAck) AddReturnCodes(ret []ReasonCode) error {
 		} else if !QosType(c).IsValidFull() {
 			return ErrInvalidReturnCode
 		}
-
-		msg.returnCodes = append(msg.returnCodes, c)
 	}
 
+	msg.returnCodes = append(msg.returnCodes, ret...)
+
 	return nil
 }
 
-- 
2.43.0


From 2713bfe80f6c2f80b0cac564d6c911e56c66e257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:11 +0000
Subject: [PATCH 10/40] fix: packets with a missing or truncated packet
 identifier are accepted

---
 mqttp/header.go      | 8 ++++++--
 mqttp/puback.go      | 5 ++++-
 mqttp/publish.go     | 6 +++++-
 mqttp/suback.go      | 5 ++++-
 mqttp/subscribe.go   | 5 ++++-
 mqttp/unsuback.go    | 5 ++++-
 mqttp/unsubscribe.go | 5 ++++-
 7 files changed, 31 insertions(+), 8 deletions(-)

diff --git a/mqttp/header.go b/mqttp/header.go
index c726b3e..f05866d 100644
--- a/mqttp/header.go
+++ b/mqttp/header.go
@@ -196,12 +196,16 @@ func (h *header) setPacketID(id IDType) {
 	binary.BigEndian.PutUint16(h.packetID, uint16(id))
 }
 
-func (h *header) decodePacketID(src []byte) int {
+func (h *header) decodePacketID(src []byte) (int, error) {
+	if len(src) < 2 {
+		return 0, CodeMalformedPacket
+	}
+
 	if len(h.packetID) == 0 {
 		h.packetID = make([]byte, 2)
 	}
 
-	return copy(h.packetID, src)
+	return copy(h.packetID, src), nil
 }
 
 func (h *header) encodePacketID(dst []byte) int {
diff --git a/mqttp/puback.go b/mqttp/puback.go
index ba25a8c..b73dd04 100644
--- a/mqttp/puback.go
+++ b/mqttp/puback.go
@@ -77,7 +77,10 @@ func (msg *Ack) Reason() ReasonCode {
 }
 
 func (msg *Ack) decodeMessage(from []byte) (int, error) {
-	offset := msg.decodePacketID(from)
+	offset, err := msg.decodePacketID(from)
+	if err != nil {
+		return offset, err
+	}
 
 	if msg.version == ProtocolV50 {
 		// [MQTT-3.4.2.1]
diff --git a/mqttp/publish.go b/mqttp/publish.go
index bee470d..34060a5 100644
--- a/mqttp/publish.go
+++ b/mqttp/publish.go
@@ -298,7 +298,11 @@ func (msg *Publish) decodeMessage(from []byte) (int, error) {
 	// The packet identifier field is only present in the PUBLISH packets where the
 	// QoS level is 1 or 2
 	if msg.QoS() != QoS0 {
-		offset += msg.decodePacketID(from[offset:])
+		n, err = msg.decodePacketID(from[offset:])
+		offset += n
+		if err != nil {
+			return offset, err
+		}
 	}
 
 	if msg.version == ProtocolV50 {
diff --git a/mqttp/suback.go b/mqttp/suback.go
index d93c968..e67682a 100644
--- a/mqttp/suback.go
+++ b/mqttp/suback.go
@@ -73,7 +73,10 @@ func (msg *SubAck) SetPacketID(v IDType) {
 
 // decode message
 func (msg *SubAck) decodeMessage(from []byte) (int, error) {
-	offset := msg.decodePacketID(from)
+	offset, err := msg.decodePacketID(from)
+	if err != nil {
+		return offset, err
+	}
 
 	if msg.version == ProtocolV50 {
 		n, err := msg.properties.decode(msg.Type(), from[offset:])
diff --git a/mqttp/subscribe.go b/mqttp/subscribe.go
index 70dcd59..e6b411e 100644
--- a/mqttp/subscribe.go
+++ b/mqttp/subscribe.go
@@ -71,7 +71,10 @@ func (msg *Subscribe) decodeMessage(from []byte) (int, error) {
 		return 0, CodeProtocolError
 	}
 
-	offset := msg.decodePacketID(from)
+	offset, err := msg.decodePacketID(from)
+	if err != nil {
+		return offset, err
+	}
 
 	// v5 [MQTT-3.1.2.11] specifies properties in variable header
 	if msg.version == ProtocolV50 {
diff --git a/mqttp/unsuback.go b/mqttp/unsuback.go
index 5cf8d7e..d788c94 100644
--- a/mqttp/unsuback.go
+++ b/mqttp/unsuback.go
@@ -72,7 +72,10 @@ func (msg *UnSubAck) AddReturnCode(ret ReasonCode) error {
 
 // decode message
 func (msg *UnSubAck) decodeMessage(from []byte) (int, error) {
-	offset := msg.decodePacketID(from)
+	offset, err := msg.decodePacketID(from)
+	if err != nil {
+		return offset, err
+	}
 
 	if msg.version == ProtocolV50 && (int(msg.remLen)-offset) > 0 {
 		n, err := msg.properties.decode(msg.Type(), from[offset:])
diff --git a/mqttp/unsubscribe.go b/mqttp/unsubscribe.go
index d7fb71f..1f9383c 100644
--- a/mqttp/unsubscribe.go
+++ b/mqttp/unsubscribe.go
@@ -62,7 +62,10 @@ func (msg *UnSubscribe) SetPacketID(v IDType) {
 // when io.Reader returns EOF or error. The first return value is the number of
 // bytes read from io.Reader. The second is error if decode encounters any problems.
 func (msg *UnSubscribe) decodeMessage(from []byte) (int, error) {
-	offset := msg.decodePacketID(from)
+	offset, err := msg.decodePacketID(from)
+	if err != nil {
+		return offset, err
+	}
 
 	remLen := int(msg.remLen) - offset
 
-- 
2.43.0


From 26d7b8857aa388ec247145e244ad6aa891cef054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:16 +0000
Subject: [PATCH 11/40] fix: overwriting a property corrupts the property
 length

---
 mqttp/property.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/mqttp/property.go b/mqttp/property.go
index 08691be..91d1a1e 100644
--- a/mqttp/property.go
+++ b/mqttp/property.go
@@ -350,10 +350,25 @@ func (p *property) Set(t Type, id PropertyID, val interface{}) error {
 
 	fn := propertyCalcLen[propertyTypeMap[id]]
 	l, err := fn(id, val)
+	if err != nil {
+		return err
+	}
+
+	if p.properties == nil {
+		p.reset()
+	}
+
+	// value being replaced does not count anymore
+	if prev, ok := p.properties[id]; ok {
+		if n, e := fn(id, prev); e == nil {
+			p.len -= n
+		}
+	}
+
 	p.len += l
 	p.properties[id] = val
 
-	return err
+	return nil
 }
 
 // Get property value
-- 
2.43.0


From a7253cf6ccdc32a11d618138ee7fed84e3b281de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:20 +0000
Subject: [PATCH 12/40] fix: PropertySet stores values of the wrong type,
 Encode panics

---
 mqttp/property.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/mqttp/property.go b/mqttp/property.go
index 91d1a1e..655804d 100644
--- a/mqttp/property.go
+++ b/mqttp/property.go
@@ -485,7 +485,7 @@ func calcLenByte(id PropertyID, val interface{}) (int, error) {
 			l += calc()
 		}
 	default:
-		return 0, nil
+		return 0, ErrPropertyTypeMismatch
 	}
 
 	return l, nil
@@ -506,7 +506,7 @@ func calcLenShort(id PropertyID, val interface{}) (int, error) {
 			l += calc()
 		}
 	default:
-		return 0, nil
+		return 0, ErrPropertyTypeMismatch
 	}
 
 	return l, nil
@@ -527,7 +527,7 @@ func calcLenInt(id PropertyID, val interface{}) (int, error) {
 			l += calc()
 		}
 	default:
-		return 0, nil
+		return 0, ErrPropertyTypeMismatch
 	}
 
 	return l, nil
@@ -548,7 +548,7 @@ func calcLenVarInt(id PropertyID, val interface{}) (int, error) {
 			l += calc(v)
 		}
 	default:
-		return 0, nil
+		return 0, ErrPropertyTypeMismatch
 	}
 
 	return l, nil
@@ -569,7 +569,7 @@ func calcLenString(id PropertyID, val interface{}) (int, error) {
 			l += calc(len(v))
 		}
 	default:
-		return 0, nil
+		return 0, ErrPropertyTypeMismatch
 	}
 
 	return l, nil
@@ -585,12 +585,12 @@ func calcLenBinary(id PropertyID, val interface{}) (int, error) {
 	switch valueType := val.(type) {
 	case []byte:
 		l = calc(len(valueType))
-	case [][]string:
+	case [][]byte:
 		for _, v := range valueType {
 			l += calc(len(v))
 		}
 	default:
-		return 0, nil
+		return 0, ErrPropertyTypeMismatch
 	}
 
 	return l, nil
@@ -611,7 +611,7 @@ func calcLenStringPair(id PropertyID, val interface{}) (int, error) {
 			l += calc(len(v.K), len(v.V))
 		}
 	default:
-		return 0, nil
+		return 0, ErrPropertyTypeMismatch
 	}
 
 	return l, nil
-- 
2.43.0


From c7f73c18375b0ec7ed3bc56e6d826d87b1a55644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:43 +0000
Subject: [PATCH 13/40] fix: PropertySet accepts lists for properties that must
 not repeat

---
 mqttp/property.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/mqttp/property.go b/mqttp/property.go
index 655804d..ab76671 100644
--- a/mqttp/property.go
+++ b/mqttp/property.go
@@ -354,6 +354,10 @@ func (p *property) Set(t Type, id PropertyID, val interface{}) error {
 		return err
 	}
 
+	if !id.DupAllowed(t) && isMultiValue(id, val) {
+		return ErrPropertyDuplicate
+	}
+
 	if p.properties == nil {
 		p.reset()
 	}
@@ -371,6 +375,18 @@ func (p *property) Set(t Type, id PropertyID, val interface{}) error {
 	return nil
 }
 
+// isMultiValue check if val is a list of values, each encoded as separate property
+func isMultiValue(id PropertyID, val interface{}) bool {
+	switch val.(type) {
+	case []uint8:
+		return propertyTypeMap[id] == PropertyTypeByte
+	case []uint16, []uint32, []string, []StringPair, [][]byte:
+		return true
+	}
+
+	return false
+}
+
 // Get property value
 func (p *property) Get(id PropertyID) PropertyToType {
 	if val, ok := p.properties[id]; ok {
-- 
2.43.0


From 410e1cc10541cd85621194088173992a8df9b1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:48 +0000
Subject: [PATCH 14/40] fix: PropertySet accepts variable byte integers above
 the protocol maximum

---
 mqttp/property.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mqttp/property.go b/mqttp/property.go
index ab76671..be43727 100644
--- a/mqttp/property.go
+++ b/mqttp/property.go
@@ -558,9 +558,15 @@ func calcLenVarInt(id PropertyID, val interface{}) (int, error) {
 
 	switch valueType := val.(type) {
 	case uint32:
+		if valueType > uint32(maxRemainingLength) {
+			return 0, ErrPropertyTypeMismatch
+		}
 		l = calc(valueType)
 	case []uint32:
 		for _, v := range valueType {
+			if v > uint32(maxRemainingLength) {
+				return 0, ErrPropertyTypeMismatch
+			}
 			l += calc(v)
 		}
 	default:
-- 
2.43.0


From 94f54a79b8bd394451c30220d4361e9e62df9c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:52 +0000
Subject: [PATCH 15/40] fix: repeated subscription identifiers are lost on
 decode

---
 mqttp/property.go | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/mqttp/property.go b/mqttp/property.go
index be43727..70b9b50 100644
--- a/mqttp/property.go
+++ b/mqttp/property.go
@@ -59,6 +59,7 @@ type PropertyToType interface {
 	AsByte() (byte, error)
 	AsShort() (uint16, error)
 	AsInt() (uint32, error)
+	AsInts() ([]uint32, error)
 	AsString() (string, error)
 	AsStringPair() (StringPair, error)
 	AsStringPairs() ([]StringPair, error)
@@ -100,6 +101,18 @@ func (t *propertyToType) AsInt() (uint32, error) {
 	return 0, ErrPropertyWrongType
 }
 
+// AsInts all values of the property which is allowed to repeat, in order of appearance
+func (t *propertyToType) AsInts() ([]uint32, error) {
+	switch v := t.v.(type) {
+	case uint32:
+		return []uint32{v}, nil
+	case []uint32:
+		return v, nil
+	}
+
+	return []uint32{}, ErrPropertyWrongType
+}
+
 func (t *propertyToType) AsString() (string, error) {
 	if v, ok := t.v.(string); ok {
 		return v, nil
@@ -688,7 +701,14 @@ func decodeVarInt(p *property, id PropertyID, from []byte) (int, error) {
 	}
 	offset += cnt
 
-	p.properties[id] = v
+	switch prev := p.properties[id].(type) {
+	case uint32:
+		p.properties[id] = []uint32{prev, v}
+	case []uint32:
+		p.properties[id] = append(prev, v)
+	default:
+		p.properties[id] = v
+	}
 
 	return offset, nil
 }
-- 
2.43.0


From 91e8122f80b628ebaf005df8547644a1d5600f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:13 +0000
Subject: [PATCH 16/40] fix: over-long and non-minimal variable byte integers
 are accepted

---
 mqttp/header.go | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/mqttp/header.go b/mqttp/header.go
index f05866d..d76b059 100644
--- a/mqttp/header.go
+++ b/mqttp/header.go
@@ -280,8 +280,11 @@ func (h *header) decode(from []byte) (int, error) {
 	offset++
 
 	remLen, m := uvarint(from[offset:])
-	if m <= 0 {
+	if m == 0 {
 		return offset, ErrInsufficientDataSize
+	} else if m < 0 {
+		// more data does not help, remaining length itself is broken
+		return offset, CodeMalformedPacket
 	}
 
 	fhLen := m + 1
@@ -314,22 +317,24 @@ func (h *header) decode(from []byte) (int, error) {
 	return offset, err
 }
 
-// uvarint decodes a uint32 from buf and returns that value and the
+// uvarint decodes a variable byte integer from buf and returns that value and the
 // number of bytes read (> 0). If an error occurred, the value is 0
 // and the number of bytes n is <= 0 meaning:
 //
 //	n == 0: buf too small
-//	n  < 0: value larger than 32 bits (overflow)
+//	n  < 0: value takes more than 4 bytes or is not encoded with
+//	        the minimum number of bytes [MQTT-1.5.5-1]
 //              and -n is the number of bytes read
-//
-// copied from binary.Uvariant
 func uvarint(buf []byte) (uint32, int) {
 	var x uint32
 	var s uint
 	for i, b := range buf {
+		if i > 3 {
+			return 0, -(i + 1) // overflow
+		}
 		if b < 0x80 {
-			if i > 4 || i == 4 && b > 1 {
-				return 0, -(i + 1) // overflow
+			if i > 0 && b == 0 {
+				return 0, -(i + 1) // not minimal
 			}
 			return x | uint32(b)<<s, i + 1
 		}
-- 
2.43.0


From 025afaeb34989cf5319b72154ab1015d83301320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:21 +0000
Subject: [PATCH 17/40] fix: CONNECT SetCredentials checks and keeps the
 previous credentials

---
 mqttp/connect.go | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/mqttp/connect.go b/mqttp/connect.go
index 6b2c6be..9aca9d8 100644
--- a/mqttp/connect.go
+++ b/mqttp/connect.go
@@ -162,18 +162,22 @@ func (msg *Connect) Credentials() ([]byte, []byte) {
 
 // SetCredentials set username and password
 func (msg *Connect) SetCredentials(u []byte, p []byte) error {
-	msg.connectFlags &= ^maskConnFlagUsername
-	msg.connectFlags &= ^maskConnFlagPassword
-
 	// MQTT 3.1.1 does not allow password without user name
-	if (len(msg.username) == 0 && len(msg.password) != 0) && msg.version < ProtocolV50 {
+	if (len(u) == 0 && len(p) != 0) && msg.version < ProtocolV50 {
 		return ErrInvalidArgs
 	}
 
+	// [MQTT-3.1.3-11]
+	if !IsValidUTF(u) {
+		return ErrInvalidUtf8
+	}
+
+	msg.connectFlags &= ^maskConnFlagUsername
+	msg.connectFlags &= ^maskConnFlagPassword
+	msg.username = nil
+	msg.password = nil
+
 	if len(u) != 0 {
-		if !utf8.Valid(u) {
-			return ErrInvalidUtf8
-		}
 		msg.connectFlags |= maskConnFlagUsername
 		msg.username = u
 	}
-- 
2.43.0


From af971fa3a0259dc6cf0bc1e19609196c92cd3e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:26 +0000
Subject: [PATCH 18/40] fix: packets of 4GB and more are encoded with a wrong
 remaining length

---
 mqttp/header.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mqttp/header.go b/mqttp/header.go
index d76b059..b2e5c6f 100644
--- a/mqttp/header.go
+++ b/mqttp/header.go
@@ -148,6 +148,10 @@ func (h *header) SetVersion(v ProtocolVersion) {
 func (h *header) Size() (int, error) {
 	ml := h.cb.size()
 
+	// check before value is narrowed
+	if ml > int(maxRemainingLength) {
+		return 0, ErrInvalidLength
+	}
 	if err := h.setRemainingLength(int32(ml)); err != nil {
 		return 0, err
 	}
-- 
2.43.0


From 7656c7f5f3a962b566994a23427bef91399c1c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:56 +0000
Subject: [PATCH 19/40] fix: CONNACK and PUBACK refuse reason codes MQTT 5
 defines for them

---
 mqttp/reasonCodes.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mqttp/reasonCodes.go b/mqttp/reasonCodes.go
index 0c39ea6..91ba733 100644
--- a/mqttp/reasonCodes.go
+++ b/mqttp/reasonCodes.go
@@ -76,6 +76,7 @@ var packetTypeCodeMap = map[Type]map[ReasonCode]struct {
 		CodeRefusedNotAuthorized:               {iss: CodeIssuerClient, desc: "The Client is not authorized to connect"},
 		CodeUnspecifiedError:                   {iss: CodeIssuerServer, desc: "The Server does not wish to reveal the reason for the failure, or none of the other Return Codes apply"},
 		CodeMalformedPacket:                    {iss: CodeIssuerServer, desc: "Data within the CONNECT Packet was not consistent with this specification"},
+		CodeProtocolError:                      {iss: CodeIssuerServer, desc: "Data in the CONNECT packet does not conform to this specification"},
 		CodeImplementationSpecificError:        {iss: CodeIssuerServer, desc: "The CONNECT is valid but is not accepted by this Server"},
 		CodeUnsupportedProtocol:                {iss: CodeIssuerServer, desc: "The Server does not support the level of the MQTT protocol requested by the Client"},
 		CodeInvalidClientID:                    {iss: CodeIssuerServer, desc: "The Client Identifier is a valid string but is not allowed by the Server"},
@@ -88,6 +89,7 @@ var packetTypeCodeMap = map[Type]map[ReasonCode]struct {
 		CodeInvalidTopicName:                   {iss: CodeIssuerServer, desc: "The Will Topic Name is not malformed, but is not accepted by this Server"},
 		CodePacketTooLarge:                     {iss: CodeIssuerServer, desc: "The Accept Packet exceeded the maximum permissible size"},
 		CodeQuotaExceeded:                      {iss: CodeIssuerServer, desc: "An implementation or administrative imposed limit has been exceeded"},
+		CodeInvalidPayloadFormat:               {iss: CodeIssuerServer, desc: "The Will Payload does not match the specified Payload Format Indicator"},
 		CodeRetainNotSupported:                 {iss: CodeIssuerServer, desc: "The Server does not support retained messages, and Will Retain was set to 1"},
 		CodeNotSupportedQoS:                    {iss: CodeIssuerServer, desc: "The Server does not support the QoS set in Will QoS"},
 		CodeUseAnotherServer:                   {iss: CodeIssuerServer, desc: "The Client should temporarily use another server"},
@@ -101,6 +103,7 @@ var packetTypeCodeMap = map[Type]map[ReasonCode]struct {
 		CodeImplementationSpecificError: {iss: CodeIssuerBoth, desc: "The PUBLISH is valid but the receiver is not willing to accept it"},
 		CodeNotAuthorized:               {iss: CodeIssuerBoth, desc: "The PUBLISH is not authorized"},
 		CodeInvalidTopicName:            {iss: CodeIssuerBoth, desc: "The topic name is valid, but is not accepted"},
+		CodePacketIDInUse:               {iss: CodeIssuerBoth, desc: "The IDType is already in use. Possible mismatch in the session state between the Client and Server"},
 		CodeQuotaExceeded:               {iss: CodeIssuerBoth, desc: "An implementation imposed limit has been exceeded"},
 		CodeInvalidPayloadFormat:        {iss: CodeIssuerBoth, desc: "The payload format does not match the one specified in the Payload Format Indicator"},
 	},
-- 
2.43.0


From 8866a8da2c0df0ec697de648584ab94caffcaf45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:01 +0000
Subject: [PATCH 20/40] fix: reason code sender directions are
 indistinguishable and reported with an inverted error

---
 mqttp/reasonCodes.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/mqttp/reasonCodes.go b/mqttp/reasonCodes.go
index 91ba733..a527a7d 100644
--- a/mqttp/reasonCodes.go
+++ b/mqttp/reasonCodes.go
@@ -8,7 +8,7 @@ type CodeIssuer byte
 
 // nolint: golint
 const (
-	CodeIssuerServer CodeIssuer = 0x00
+	CodeIssuerServer CodeIssuer = iota
 	CodeIssuerClient
 	CodeIssuerBoth
 	CodeIssuerInvalid
@@ -69,11 +69,11 @@ var packetTypeCodeMap = map[Type]map[ReasonCode]struct {
 }{
 	CONNACK: {
 		CodeSuccess:                            {iss: CodeIssuerServer, desc: "The Connection is accepted"},
-		CodeRefusedUnacceptableProtocolVersion: {iss: CodeIssuerClient, desc: "The Server does not support the level of the MQTT protocol requested by the Client"},
-		CodeRefusedIdentifierRejected:          {iss: CodeIssuerClient, desc: "The Client identifier is not allowed"},
-		CodeRefusedServerUnavailable:           {iss: CodeIssuerClient, desc: "Server refused connection"},
-		CodeRefusedBadUsernameOrPassword:       {iss: CodeIssuerClient, desc: "The data in the user name or password is malformed"},
-		CodeRefusedNotAuthorized:               {iss: CodeIssuerClient, desc: "The Client is not authorized to connect"},
+		CodeRefusedUnacceptableProtocolVersion: {iss: CodeIssuerServer, desc: "The Server does not support the level of the MQTT protocol requested by the Client"},
+		CodeRefusedIdentifierRejected:          {iss: CodeIssuerServer, desc: "The Client identifier is not allowed"},
+		CodeRefusedServerUnavailable:           {iss: CodeIssuerServer, desc: "Server refused connection"},
+		CodeRefusedBadUsernameOrPassword:       {iss: CodeIssuerServer, desc: "The data in the user name or password is malformed"},
+		CodeRefusedNotAuthorized:               {iss: CodeIssuerServer, desc: "The Client is not authorized to connect"},
 		CodeUnspecifiedError:                   {iss: CodeIssuerServer, desc: "The Server does not wish to reveal the reason for the failure, or none of the other Return Codes apply"},
 		CodeMalformedPacket:                    {iss: CodeIssuerServer, desc: "Data within the CONNECT Packet was not consistent with this specification"},
 		CodeProtocolError:                      {iss: CodeIssuerServer, desc: "Data in the CONNECT packet does not conform to this specification"},
@@ -252,10 +252,10 @@ func (c ReasonCode) PacketTypeDir(p Type) (CodeIssuer, error) {
 	}
 
 	if issuer, kk := pT[c]; kk {
-		return issuer.iss, ErrInvalidReturnCode
+		return issuer.iss, nil
 	}
 
-	return CodeIssuerInvalid, nil
+	return CodeIssuerInvalid, ErrInvalidReturnCode
 }
 
 // Value convert reason code to byte type
-- 
2.43.0


From f7e1c02bf13ca127eaf178446b198f3b7a9f5f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:06 +0000
Subject: [PATCH 21/40] fix: IsValidV5 accepts reason codes that are not
 defined

---
 mqttp/reasonCodes.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mqttp/reasonCodes.go b/mqttp/reasonCodes.go
index a527a7d..7e69574 100644
--- a/mqttp/reasonCodes.go
+++ b/mqttp/reasonCodes.go
@@ -279,7 +279,7 @@ func (c ReasonCode) IsValidV3() bool {
 // IsValidV5 check either reason code is valid for MQTT V5.0 or not
 func (c ReasonCode) IsValidV5() bool {
 	if c == CodeSuccess || (c >= CodeNoMatchingSubscribers && c <= CodeWildcardSubscriptionsNotSupported) {
-		return true
+		return c.IsValid()
 	}
 	return false
 }
-- 
2.43.0


From 4491c8d85f1783f94058fdf178ce405a22cc76ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:09 +0000
Subject: [PATCH 22/40] fix: concurrent updates lose the peak of a high-water
 statistic

---
 vlmonitoring/vlmetrics.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/vlmonitoring/vlmetrics.go b/vlmonitoring/vlmetrics.go
index bab4ec5..f11e253 100644
--- a/vlmonitoring/vlmetrics.go
+++ b/vlmonitoring/vlmetrics.go
@@ -151,8 +151,11 @@ func LoadStore(src *uint64, dst *uint64) uint64 {
 
 func (c *Max) AddU64(n uint64) {
 	val := atomic.AddUint64(&c.base.uint64, n)
-	if atomic.LoadUint64(&c.Max) < val {
-		atomic.StoreUint64(&c.Max, val)
+	// concurrent update may have stored bigger value in the meantime
+	for max := atomic.LoadUint64(&c.Max); max < val; max = atomic.LoadUint64(&c.Max) {
+		if atomic.CompareAndSwapUint64(&c.Max, max, val) {
+			break
+		}
 	}
 }
 
-- 
2.43.0


From 3ca8c89e608b2cb0c7e48b3d72d36b4566e952e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:13 +0000
Subject: [PATCH 23/40] fix: data race between reading a counter with Get and
 updating it

---
 vlmonitoring/vlmetrics.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vlmonitoring/vlmetrics.go b/vlmonitoring/vlmetrics.go
index f11e253..9d6786b 100644
--- a/vlmonitoring/vlmetrics.go
+++ b/vlmonitoring/vlmetrics.go
@@ -125,7 +125,7 @@ func (c *base) Load() uint64 {
 }
 
 func (c *base) Get() uint64 {
-	return c.uint64
+	return atomic.LoadUint64(&c.uint64)
 }
 
 func (c *Max) Load() Max {
-- 
2.43.0


From d3ed18d9fcfe7d05d0c9b63da22f619cf31dc205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:18 +0000
Subject: [PATCH 24/40] fix: PUBLISH without topic and topic alias is encoded

---
 mqttp/publish.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/mqttp/publish.go b/mqttp/publish.go
index 34060a5..a4b9bc1 100644
--- a/mqttp/publish.go
+++ b/mqttp/publish.go
@@ -134,7 +134,7 @@ func (msg *Publish) SetPublishID(id uintptr) {
 
 // Set topic/payload/qos/retained/bool
 func (msg *Publish) Set(t string, p []byte, q QosType, r bool, d bool) error {
-	if !ValidTopic([]byte(t)) {
+	if (msg.version < ProtocolV50 && len(t) == 0) || !ValidTopic([]byte(t)) {
 		return ErrInvalidTopic
 	}
 
@@ -372,6 +372,18 @@ func (msg *Publish) encodeMessage(to []byte) (int, error) {
 		return 0, ErrInvalidTopic
 	}
 
+	// topic might be empty only if there is topic alias
+	if len(msg.topic) == 0 {
+		var alias uint16
+		if prop := msg.PropertyGet(PropertyTopicAlias); prop != nil {
+			alias, _ = prop.AsShort()
+		}
+
+		if alias == 0 {
+			return 0, ErrInvalidTopic
+		}
+	}
+
 	if !msg.QoS().IsValid() {
 		return 0, ErrInvalidQoS
 	}
-- 
2.43.0


From 6480fa9ed088e8b0b55f691671493361ea828bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:22 +0000
Subject: [PATCH 25/40] fix: SUBSCRIBE without topics is encoded

---
 mqttp/subscribe.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mqttp/subscribe.go b/mqttp/subscribe.go
index e6b411e..15a203b 100644
--- a/mqttp/subscribe.go
+++ b/mqttp/subscribe.go
@@ -143,6 +143,10 @@ func (msg *Subscribe) encodeMessage(to []byte) (int, error) {
 		return 0, ErrPackedIDZero
 	}
 
+	// [MQTT-3.8.3-3]
+	if len(msg.topics) == 0 {
+		return 0, ErrInvalidLength
+	}
 	offset := msg.encodePacketID(to)
 
 	// V5.0   [MQTT-3.1.2.11]
-- 
2.43.0


From ad6b5eda062a15753e727ec7bf3ba5b364b2a5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:27 +0000
Subject: [PATCH 26/40] fix: SUBSCRIBE with retain handling 3 is accepted

---
 mqttp/subscribe.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mqttp/subscribe.go b/mqttp/subscribe.go
index 15a203b..e549edd 100644
--- a/mqttp/subscribe.go
+++ b/mqttp/subscribe.go
@@ -115,6 +115,11 @@ func (msg *Subscribe) decodeMessage(from []byte) (int, error) {
 			return offset, CodeMalformedPacket
 		}
 
+		// V5.0 [MQTT-3.8.3.1] it is a protocol error to send Retain Handling value of 3
+		if msg.version == ProtocolV50 && subsOptions.RetainHandling() > 2 {
+			return offset, CodeProtocolError
+		}
+
 		var topic *Topic
 		if topic, err = NewSubscribeTopic(t, subsOptions); err != nil {
 			return offset, CodeProtocolError
-- 
2.43.0


From 97f97ce7a3181084d36a575bee1afa3029ad55a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:31 +0000
Subject: [PATCH 27/40] fix: SUBSCRIBE puts MQTT 5 subscription options into
 older versions

---
 mqttp/subscribe.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/mqttp/subscribe.go b/mqttp/subscribe.go
index e549edd..2132a30 100644
--- a/mqttp/subscribe.go
+++ b/mqttp/subscribe.go
@@ -170,7 +170,13 @@ func (msg *Subscribe) encodeMessage(to []byte) (int, error) {
 			return offset, err
 		}
 
-		to[offset] = t.ops.Raw()
+		ops := t.ops.Raw()
+		if msg.version < ProtocolV50 {
+			// other bits are reserved prior to V5.0
+			ops &= maskSubscriptionQoS
+		}
+
+		to[offset] = ops
 		offset++
 	}
 
-- 
2.43.0


From c3f093a105ec7a1739a717f2368d5ab8f1d8747e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:36 +0000
Subject: [PATCH 28/40] fix: SUBACK puts MQTT 5 reason codes into older
 versions

---
 mqttp/suback.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mqttp/suback.go b/mqttp/suback.go
index e67682a..73cbff1 100644
--- a/mqttp/suback.go
+++ b/mqttp/suback.go
@@ -122,6 +122,11 @@ func (msg *SubAck) encodeMessage(to []byte) (int, error) {
 	}
 
 	for _, q := range msg.returnCodes {
+		if msg.version < ProtocolV50 && !QosType(q).IsValidFull() {
+			// prior to V5.0 there is the only failure code
+			q = QosFailure
+		}
+
 		to[offset] = byte(q)
 		offset++
 	}
-- 
2.43.0


From e9d78d2c2a6d0297f256100fec5947c50fe52c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:51 +0000
Subject: [PATCH 29/40] fix: complete malformed packets are reported as
 incomplete

---
 mqttp/header.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mqttp/header.go b/mqttp/header.go
index b2e5c6f..82990f7 100644
--- a/mqttp/header.go
+++ b/mqttp/header.go
@@ -310,6 +310,11 @@ func (h *header) decode(from []byte) (int, error) {
 
 		msgTotal, err = h.cb.decode(from[offset:])
 		offset += msgTotal
+
+		// packet is complete, more data does not help
+		if err == ErrInsufficientDataSize {
+			err = CodeMalformedPacket
+		}
 	}
 
 	// this is malformed packet if packed was decoded but there is still
-- 
2.43.0


From 75f0eb2d45561a7b1d7a05ae2ca9ab9b99f75458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:55 +0000
Subject: [PATCH 30/40] fix: topic filters with a single $-prefixed level are
 refused

---
 mqttp/types.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mqttp/types.go b/mqttp/types.go
index 02b04c6..edc2899 100644
--- a/mqttp/types.go
+++ b/mqttp/types.go
@@ -87,8 +87,10 @@ func NewTopic(topic []byte) (*Topic, error) {
 				t.shareName = topic[idx+1 : sIdx]
 				t.filter = topic[sIdx+1:]
 			}
-		} else {
+		} else if bytes.Equal(topic, sharePrefix) {
 			return nil, CodeProtocolError
+		} else {
+			t.dollarPrefix = topic
 		}
 	}
 
-- 
2.43.0


From 92b18d8123bc8855dc247c61c00a143d3ea5588a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:22 +0000
Subject: [PATCH 31/40] fix: UNSUBACK with reason codes is refused

---
 mqttp/unsuback.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mqttp/unsuback.go b/mqttp/unsuback.go
index d788c94..cb2cdba 100644
--- a/mqttp/unsuback.go
+++ b/mqttp/unsuback.go
@@ -89,6 +89,7 @@ func (msg *UnSubAck) decodeMessage(from []byte) (int, error) {
 				return offset, CodeProtocolError
 			}
 			msg.returnCodes = append(msg.returnCodes, ReasonCode(c))
+			offset++
 		}
 	}
 
-- 
2.43.0


From f7d40b9db60caf4124b0558e8413ed9f7bf1e094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:02 +0000
Subject: [PATCH 32/40] fix: CONNACK cut short makes the decoder panic

---
 mqttp/connack.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mqttp/connack.go b/mqttp/connack.go
index da1444c..239731b 100644
--- a/mqttp/connack.go
+++ b/mqttp/connack.go
@@ -73,6 +73,11 @@ func (msg *ConnAck) SetReturnCode(ret ReasonCode) error {
 func (msg *ConnAck) decodeMessage(from []byte) (int, error) {
 	offset := 0
 
+	// acknowledge flags and return code
+	if len(from) < 2 {
+		return offset, CodeMalformedPacket
+	}
+
 	// [MQTT-3.2.2.1]
 	b := from[offset]
 	if b&(^maskConnAckSessionPresent) != 0 {
-- 
2.43.0


From e07cc861bdc1d8ad2a97036fc24d180b4c70e190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:07 +0000
Subject: [PATCH 33/40] fix: CONNECT cut short makes the decoder panic

---
 mqttp/connect.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/mqttp/connect.go b/mqttp/connect.go
index 9aca9d8..9397a38 100644
--- a/mqttp/connect.go
+++ b/mqttp/connect.go
@@ -338,6 +338,9 @@ func (msg *Connect) decodeMessage(from []byte) (int, error) {
 
 	// V3.1.1 [MQTT-3.1.2.2]
 	// V5.0   [MQTT-3.1.2.2]
+	if len(from[offset:]) < 1 {
+		return offset, ErrInsufficientDataSize
+	}
 	msg.version = ProtocolVersion(from[offset])
 	offset++
 
@@ -349,6 +352,9 @@ func (msg *Connect) decodeMessage(from []byte) (int, error) {
 
 	// V3.1.1 [MQTT-3.1.2.3]
 	// V5.0   [MQTT-3.1.2.3]
+	if len(from[offset:]) < 1 {
+		return offset, ErrInsufficientDataSize
+	}
 	msg.connectFlags = from[offset]
 	offset++
 
@@ -396,6 +402,9 @@ func (msg *Connect) decodeMessage(from []byte) (int, error) {
 
 	// V3.1.1 [MQTT-3.1.2.10]
 	// V5.0   [MQTT-3.1.2.10]
+	if len(from[offset:]) < 2 {
+		return offset, ErrInsufficientDataSize
+	}
 	msg.keepAlive = binary.BigEndian.Uint16(from[offset:])
 	offset += 2
 
-- 
2.43.0


From e2279bccb7daa834aae96b5c365110766f5baf7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:08 +0000
Subject: [PATCH 34/40] fix: refuse CONNECT with an empty will topic in MQTT 5

---
 mqttp/connect.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mqttp/connect.go b/mqttp/connect.go
index 9397a38..1ce34c9 100644
--- a/mqttp/connect.go
+++ b/mqttp/connect.go
@@ -486,6 +486,11 @@ func (msg *Connect) decodeMessage(from []byte) (int, error) {
 		}
 		offset += n
 
+		// [MQTT-4.7.3-1] there is no topic alias the Will could use instead
+		if len(buf) == 0 {
+			return offset, ErrInvalidTopic
+		}
+
 		if err = msg.will.SetTopic(string(buf)); err != nil {
 			return offset, err
 		}
-- 
2.43.0


From 9493dd8ee18632660b559c5429537918621c4a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:02 +0000
Subject: [PATCH 35/40] fix: refuse property strings which are not UTF-8

PropertySet took any string, the packet encoded from it was malformed and
not accepted by any decoder. Refuse the value as other setters do.
---
 mqttp/property.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/mqttp/property.go b/mqttp/property.go
index 70b9b50..33afe44 100644
--- a/mqttp/property.go
+++ b/mqttp/property.go
@@ -598,9 +598,15 @@ func calcLenString(id PropertyID, val interface{}) (int, error) {
 
 	switch valueType := val.(type) {
 	case string:
+		if !utf8.ValidString(valueType) {
+			return 0, ErrInvalidUtf8
+		}
 		l = calc(len(valueType))
 	case []string:
 		for _, v := range valueType {
+			if !utf8.ValidString(v) {
+				return 0, ErrInvalidUtf8
+			}
 			l += calc(len(v))
 		}
 	default:
@@ -640,9 +646,15 @@ func calcLenStringPair(id PropertyID, val interface{}) (int, error) {
 
 	switch valueType := val.(type) {
 	case StringPair:
+		if !utf8.ValidString(valueType.K) || !utf8.ValidString(valueType.V) {
+			return 0, ErrInvalidUtf8
+		}
 		l = calc(len(valueType.K), len(valueType.V))
 	case []StringPair:
 		for _, v := range valueType {
+			if !utf8.ValidString(v.K) || !utf8.ValidString(v.V) {
+				return 0, ErrInvalidUtf8
+			}
 			l += calc(len(v.K), len(v.V))
 		}
 	default:
-- 
2.43.0


From 54faed443b63e2d81e8a5bbdb648804b26b67abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:31 +0000
Subject: [PATCH 36/40] fix: do not encode reason codes which the packet cannot
 carry

Setters of PUBACK, PUBREC, PUBREL, PUBCOMP and DISCONNECT take any code, and
codes of UNSUBACK might be added under other protocol version. Encoding
reports them now rather than emitting a malformed packet.
---
 mqttp/disconnect.go | 4 ++++
 mqttp/puback.go     | 4 ++++
 mqttp/unsuback.go   | 5 +++++
 3 files changed, 13 insertions(+)

diff --git a/mqttp/disconnect.go b/mqttp/disconnect.go
index d9a256b..567e721 100644
--- a/mqttp/disconnect.go
+++ b/mqttp/disconnect.go
@@ -91,6 +91,10 @@ func (msg *Disconnect) encodeMessage(to []byte) (int, error) {
 
 	var err error
 	if msg.version == ProtocolV50 {
+		if !msg.reasonCode.IsValidForType(msg.mType) {
+			return offset, ErrInvalidReturnCode
+		}
+
 		pLen := msg.properties.FullLen()
 		// The Reason Code and Property Length can be omitted if the Reason Code is 0x00 (Normal disconnection)
 		// and there are no Properties. In this case the DISCONNECT has a Remaining Length of 0
diff --git a/mqttp/puback.go b/mqttp/puback.go
index b73dd04..8123cde 100644
--- a/mqttp/puback.go
+++ b/mqttp/puback.go
@@ -118,6 +118,10 @@ func (msg *Ack) encodeMessage(to []byte) (int, error) {
 
 	var err error
 	if msg.version == ProtocolV50 {
+		if !msg.reasonCode.IsValidForType(msg.mType) {
+			return offset, ErrInvalidReturnCode
+		}
+
 		pLen := msg.properties.FullLen()
 		if pLen > 1 || msg.reasonCode != CodeSuccess {
 			to[offset] = byte(msg.reasonCode)
diff --git a/mqttp/unsuback.go b/mqttp/unsuback.go
index cb2cdba..c989c61 100644
--- a/mqttp/unsuback.go
+++ b/mqttp/unsuback.go
@@ -111,6 +111,11 @@ func (msg *UnSubAck) encodeMessage(to []byte) (int, error) {
 		offset += n
 
 		for _, c := range msg.returnCodes {
+			// might be added while packet had other version
+			if !c.IsValidForType(msg.mType) {
+				return offset, ErrInvalidReturnCode
+			}
+
 			to[offset] = byte(c)
 			offset++
 		}
-- 
2.43.0


From b57b034c93edc8f27c667b867125a66e5a90e9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:35 +0000
Subject: [PATCH 37/40] fix: do not encode invalid subscription options

Reserved bits and retain handling of 3 are refused on decode, encoding
emitted them.
---
 mqttp/subscribe.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mqttp/subscribe.go b/mqttp/subscribe.go
index 2132a30..c1a3625 100644
--- a/mqttp/subscribe.go
+++ b/mqttp/subscribe.go
@@ -174,6 +174,8 @@ func (msg *Subscribe) encodeMessage(to []byte) (int, error) {
 		if msg.version < ProtocolV50 {
 			// other bits are reserved prior to V5.0
 			ops &= maskSubscriptionQoS
+		} else if (ops&maskSubscriptionReservedV5) != 0 || t.ops.RetainHandling() > 2 {
+			return offset, ErrInvalidArgs
 		}
 
 		to[offset] = ops
-- 
2.43.0


From 08c5bab9850b85dd82bf3ebcd71e9a241c198423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:07 +0000
Subject: [PATCH 38/40] fix: do not encode CONNECT which the protocol forbids

An empty client id without clean session and a password without user name
(prior to V5.0, reachable by changing the version), a will without topic or
with properties not allowed for it were emitted and then refused by decoders.
---
 mqttp/connect.go | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/mqttp/connect.go b/mqttp/connect.go
index 1ce34c9..7f1f43e 100644
--- a/mqttp/connect.go
+++ b/mqttp/connect.go
@@ -227,6 +227,34 @@ func (msg *Connect) encodeMessage(to []byte) (int, error) {
 		return 0, ErrInvalidProtocolVersion
 	}
 
+	if msg.version < ProtocolV50 {
+		// [MQTT-3.1.3-7]
+		if len(msg.clientID) == 0 && !msg.IsClean() {
+			return 0, ErrInvalid
+		}
+
+		// [MQTT-3.1.2-22]
+		if !msg.usernameFlag() && msg.passwordFlag() {
+			return 0, ErrInvalidArgs
+		}
+	}
+
+	if msg.willFlag() {
+		// will message might be changed after it has been set
+		if len(msg.will.topic) == 0 {
+			return 0, ErrInvalidTopic
+		}
+
+		// [MQTT-2.2.2.2] these are not allowed for Will
+		if msg.version >= ProtocolV50 {
+			for _, id := range []PropertyID{PropertySubscriptionIdentifier, PropertyTopicAlias} {
+				if _, ok := msg.will.properties.properties[id]; ok {
+					return 0, ErrPropertyPacketTypeMismatch
+				}
+			}
+		}
+	}
+
 	// V3.1.1 [MQTT-3.1.2.1]
 	// V5.0   [MQTT-3.1.2.1]
 	offset, err := WriteLPBytes(to, []byte(SupportedVersions[msg.version]))
-- 
2.43.0


From 10c3b7888ba2ea946b9a8919f4a5f27da6cfdf18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:09 +0000
Subject: [PATCH 39/40] fix: packet length overflow on 32-bit platforms

Sum of property values or topics of more than 2 GiB (possible with shared
strings) wrapped around, so Size of a packet far beyond the limit was
reported as small and Encode emitted it.
---
 mqttp/header.go      |  4 ++--
 mqttp/property.go    | 14 +++++++++++++-
 mqttp/subscribe.go   |  5 +++++
 mqttp/unsubscribe.go |  5 +++++
 4 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/mqttp/header.go b/mqttp/header.go
index 82990f7..8a27fe4 100644
--- a/mqttp/header.go
+++ b/mqttp/header.go
@@ -148,8 +148,8 @@ func (h *header) SetVersion(v ProtocolVersion) {
 func (h *header) Size() (int, error) {
 	ml := h.cb.size()
 
-	// check before value is narrowed
-	if ml > int(maxRemainingLength) {
+	// check before value is narrowed, negative is an overflow on 32-bit platforms
+	if ml < 0 || ml > int(maxRemainingLength) {
 		return 0, ErrInvalidLength
 	}
 	if err := h.setRemainingLength(int32(ml)); err != nil {
diff --git a/mqttp/property.go b/mqttp/property.go
index 33afe44..1dc3177 100644
--- a/mqttp/property.go
+++ b/mqttp/property.go
@@ -366,6 +366,7 @@ func (p *property) Set(t Type, id PropertyID, val interface{}) error {
 	if err != nil {
 		return err
 	}
+	l = clampLen(l)
 
 	if !id.DupAllowed(t) && isMultiValue(id, val) {
 		return ErrPropertyDuplicate
@@ -378,7 +379,7 @@ func (p *property) Set(t Type, id PropertyID, val interface{}) error {
 	// value being replaced does not count anymore
 	if prev, ok := p.properties[id]; ok {
 		if n, e := fn(id, prev); e == nil {
-			p.len -= n
+			p.len -= clampLen(n)
 		}
 	}
 
@@ -388,6 +389,15 @@ func (p *property) Set(t Type, id PropertyID, val interface{}) error {
 	return nil
 }
 
+// clampLen keep length which does not fit into packet anyway from overflowing when summed up on 32-bit platforms
+func clampLen(l int) int {
+	if l < 0 || l > int(maxRemainingLength) {
+		return int(maxRemainingLength) + 1
+	}
+
+	return l
+}
+
 // isMultiValue check if val is a list of values, each encoded as separate property
 func isMultiValue(id PropertyID, val interface{}) bool {
 	switch val.(type) {
@@ -581,6 +591,7 @@ func calcLenVarInt(id PropertyID, val interface{}) (int, error) {
 				return 0, ErrPropertyTypeMismatch
 			}
 			l += calc(v)
+			l = clampLen(l)
 		}
 	default:
 		return 0, ErrPropertyTypeMismatch
@@ -656,6 +667,7 @@ func calcLenStringPair(id PropertyID, val interface{}) (int, error) {
 				return 0, ErrInvalidUtf8
 			}
 			l += calc(len(v.K), len(v.V))
+			l = clampLen(l)
 		}
 	default:
 		return 0, ErrPropertyTypeMismatch
diff --git a/mqttp/subscribe.go b/mqttp/subscribe.go
index c1a3625..cb48db8 100644
--- a/mqttp/subscribe.go
+++ b/mqttp/subscribe.go
@@ -195,6 +195,11 @@ func (msg *Subscribe) size() int {
 	}
 
 	for _, t := range msg.topics {
+		// does not fit anyway, do not let it overflow on 32-bit platforms
+		if total > int(maxRemainingLength) {
+			break
+		}
+
 		total += 2 + len(t.full) + 1
 	}
 
diff --git a/mqttp/unsubscribe.go b/mqttp/unsubscribe.go
index 1f9383c..84b321b 100644
--- a/mqttp/unsubscribe.go
+++ b/mqttp/unsubscribe.go
@@ -159,6 +159,11 @@ func (msg *UnSubscribe) size() int {
 		total += msg.properties.FullLen()
 	}
 	for _, t := range msg.topics {
+		// does not fit anyway, do not let it overflow on 32-bit platforms
+		if total > int(maxRemainingLength) {
+			break
+		}
+
 		total += 2 + len(t.full)
 	}
 
-- 
2.43.0


From 91cc6a21be66175a13d1d210fdf54486288d8e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:25 +0000
Subject: [PATCH 40/40] fix: refuse property strings with null character

U+0000 must not be in any UTF-8 string [MQTT-1.5.4-2]. Strings of properties
with it were accepted both from the wire and by PropertySet.
---
 mqttp/property.go | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/mqttp/property.go b/mqttp/property.go
index 1dc3177..9c4effa 100644
--- a/mqttp/property.go
+++ b/mqttp/property.go
@@ -2,6 +2,7 @@ package mqttp
 
 import (
 	"encoding/binary"
+	"strings"
 	"unicode/utf8"
 )
 
@@ -609,13 +610,13 @@ func calcLenString(id PropertyID, val interface{}) (int, error) {
 
 	switch valueType := val.(type) {
 	case string:
-		if !utf8.ValidString(valueType) {
+		if !isValidString(valueType) {
 			return 0, ErrInvalidUtf8
 		}
 		l = calc(len(valueType))
 	case []string:
 		for _, v := range valueType {
-			if !utf8.ValidString(v) {
+			if !isValidString(v) {
 				return 0, ErrInvalidUtf8
 			}
 			l += calc(len(v))
@@ -657,13 +658,13 @@ func calcLenStringPair(id PropertyID, val interface{}) (int, error) {
 
 	switch valueType := val.(type) {
 	case StringPair:
-		if !utf8.ValidString(valueType.K) || !utf8.ValidString(valueType.V) {
+		if !isValidString(valueType.K) || !isValidString(valueType.V) {
 			return 0, ErrInvalidUtf8
 		}
 		l = calc(len(valueType.K), len(valueType.V))
 	case []StringPair:
 		for _, v := range valueType {
-			if !utf8.ValidString(v.K) || !utf8.ValidString(v.V) {
+			if !isValidString(v.K) || !isValidString(v.V) {
 				return 0, ErrInvalidUtf8
 			}
 			l += calc(len(v.K), len(v.V))
@@ -741,7 +742,7 @@ func decodeString(p *property, id PropertyID, from []byte) (int, error) {
 	offset := 0
 
 	v, n, err := ReadLPBytes(from[offset:])
-	if err != nil || !utf8.Valid(v) {
+	if err != nil || !isValidString(string(v)) {
 		return offset, CodeMalformedPacket
 	}
 
@@ -752,6 +753,11 @@ func decodeString(p *property, id PropertyID, from []byte) (int, error) {
 	return offset, nil
 }
 
+// isValidString check if string property is UTF-8 without null character [MQTT-1.5.4-1], [MQTT-1.5.4-2]
+func isValidString(s string) bool {
+	return utf8.ValidString(s) && strings.IndexByte(s, 0) < 0
+}
+
 func decodeStringPair(p *property, id PropertyID, from []byte) (int, error) {
 	var k []byte
 	var v []byte
@@ -760,14 +766,14 @@ func decodeStringPair(p *property, id PropertyID, from []byte) (int, error) {
 
 	k, n, err = ReadLPBytes(from)
 	offset := n
-	if err != nil || !utf8.Valid(k) {
+	if err != nil || !isValidString(string(k)) {
 		return offset, CodeMalformedPacket
 	}
 
 	v, n, err = ReadLPBytes(from[offset:])
 	offset += n
 
-	if err != nil || !utf8.Valid(v) {
+	if err != nil || !isValidString(string(v)) {
 		return offset, CodeMalformedPacket
 	}
 
-- 
2.43.0

