#!/usr/bin/env python3
"""Development tool (no check uses it): applies behaviour-preserving refactorings to a scratch copy of
/repo (argument), to see that every check stays quiet on them."""
import re,sys
R=sys.argv[1].rstrip('/')+'/'
def ed(f,*pairs):
    s=open(R+f).read()
    for a,b in pairs:
        assert s.count(a)==1,(f,s.count(a),a)
        s=s.replace(a,b)
    open(R+f,'w').write(s)
def fn(f,start,body):
    """replace function beginning with line `start` up to closing brace at col 0"""
    s=open(R+f).read()
    i=s.index(start); j=s.index('\n}\n',i)+3
    open(R+f,'w').write(s[:i]+body+s[j:])

# header: length check before flag check impossible w/o changing behaviour; use switch/min rewrite
fn('mqttp/header.go','func uvarint(buf []byte) (uint32, int) {','''func uvarint(buf []byte) (uint32, int) {
	limit := len(buf)
	if limit > 5 {
		limit = 5
	}
	var value, mult uint32 = 0, 1
	for n := 0; n < limit; n++ {
		if n == 4 {
			return 0, -5
		}
		cur := buf[n]
		value += uint32(cur%128) * mult
		mult *= 128
		if cur/128 == 0 {
			if cur == 0 && n != 0 {
				return 0, -n - 1
			}
			return value, n + 1
		}
	}
	return 0, 0
}
''')
fn('mqttp/header.go','func uvarintCalc(x uint32) int {','''func uvarintCalc(x uint32) int {
	switch {
	case x < 1<<7:
		return 1
	case x < 1<<14:
		return 2
	case x < 1<<21:
		return 3
	case x < 1<<28:
		return 4
	}
	return 5
}
''')
ed('mqttp/header.go',('''	reject := false
	// [MQTT-2.2.2-1]
	if h.mType != PUBLISH && h.mFlags != h.mType.DefaultFlags() {
		reject = true
	} else {
		if !QosType((h.mFlags & maskPublishFlagQoS) >> offsetPublishFlagQoS).IsValid() {
			reject = true
		}
	}

	if reject {
		rejectCode := CodeRefusedServerUnavailable
		if h.version == ProtocolV50 {
			rejectCode = CodeMalformedPacket
		}
		return offset, rejectCode
	}
''','''	if code := h.checkFlags(); code != CodeSuccess {
		return offset, code
	}
'''),('''// uvarint decodes a variable''','''// checkFlags [MQTT-2.2.2-1]
func (h *header) checkFlags() ReasonCode {
	var ok bool
	switch {
	case h.mType == PUBLISH:
		ok = (h.mFlags>>1)&0x3 != 3
	default:
		ok = h.mFlags == h.mType.DefaultFlags()
	}
	if ok {
		return CodeSuccess
	}
	if h.version != ProtocolV50 {
		return CodeRefusedServerUnavailable
	}
	return CodeMalformedPacket
}

// uvarint decodes a variable'''))
# packet id as value
s=open(R+'mqttp/header.go').read()
s=s.replace('	packetID   []byte\n','	packetID   []byte // fresh array per SetPacketID\n')
open(R+'mqttp/header.go','w').write(s)
fn('mqttp/header.go','func (h *header) setPacketID(id IDType) {','''func (h *header) setPacketID(id IDType) {
	h.packetID = []byte{byte(id >> 8), byte(id)}
}
''')
fn('mqttp/header.go','func (h *header) ID() (IDType, error) {','''func (h *header) ID() (IDType, error) {
	if h.packetID == nil {
		return 0, ErrNotSet
	}

	return IDType(h.packetID[0])<<8 + IDType(h.packetID[1]), nil
}
''')
# routines
fn('mqttp/routines.go','func ReadLPBytes(','''func ReadLPBytes(buf []byte) ([]byte, int, error) {
	const prefix = 2
	if len(buf) < prefix {
		return nil, 0, ErrInsufficientDataSize
	}

	end := prefix + int(binary.BigEndian.Uint16(buf[:prefix]))
	if end > len(buf) {
		return nil, prefix, ErrInsufficientDataSize
	}

	return buf[prefix:end:end], end, nil
}
''')
fn('mqttp/routines.go','func WriteLPBytes(','''func WriteLPBytes(buf []byte, b []byte) (int, error) {
	if len(b) > MaxLPString {
		return 0, ErrInvalidLPStringSize
	}

	need := len(b) + 2
	if need > len(buf) {
		return need, ErrInsufficientBufferSize
	}

	buf[0] = byte(len(b) >> 8)
	buf[1] = byte(len(b))
	copy(buf[2:need], b)

	return need, nil
}
''')
# types
fn('mqttp/types.go','func IsValidUTF(','''func IsValidUTF(b []byte) bool {
	for len(b) > 0 {
		r, n := utf8.DecodeRune(b)
		if r == utf8.RuneError && n == 1 {
			return false
		}
		if r < 0x20 || (r >= 0x7f && r <= 0x9f) {
			return false
		}
		b = b[n:]
	}
	return true
}

func validFilter(f []byte) bool {
	levels := bytes.Split(f, topicSep)
	for i, l := range levels {
		switch {
		case len(l) == 1 && l[0] == '+':
		case len(l) == 1 && l[0] == '#':
			if i != len(levels)-1 {
				return false
			}
		case bytes.ContainsAny(l, "+#"):
			return false
		}
	}
	return true
}

func validShared(f []byte) bool {
	parts := bytes.SplitN(f, topicSep, 3)
	return len(parts) == 3 && len(parts[1]) > 0 && !bytes.ContainsAny(parts[1], "+#") && len(parts[2]) > 0 && !bytes.Contains(parts[2], []byte("\\n"))
}
''')
ed('mqttp/types.go',('!SharedTopicRegexp.Match(topic)','!validShared(topic)'),('!TopicFilterRegexp.Match(t.filter)','!validFilter(t.filter)'),
('''	t := &Topic{
		full:   topic,''','''	topic = append([]byte(nil), topic...)

	t := &Topic{
		full:   topic,'''))
ed('mqttp/packet.go',('return IsValidUTF(topic) && TopicPublishRegexp.Match(topic)','''for _, b := range topic {
		if b == '#' || b == '+' {
			return false
		}
	}
	return IsValidUTF(topic)'''))
# property: ordered slice beside the map
ed('mqttp/property.go',('''type property struct {
	properties map[PropertyID]interface{}
	len        int
}''','''type property struct {
	properties map[PropertyID]interface{}
	len        int
	order      []PropertyID
}'''),('''	p.properties = make(map[PropertyID]interface{})
	p.len = 0''','''	p.properties = map[PropertyID]interface{}{}
	p.order = nil
	p.len = 0'''),('''	for k, v := range p.properties {
		t := propertyTypeMap[k]
		f(k''','''	for _, k := range p.keys() {
		v := p.properties[k]
		t := propertyTypeMap[k]
		f(k'''),('''	for k, v := range p.properties {
		fn := propertyEncodeType''','''	for _, k := range p.keys() {
		v := p.properties[k]
		fn := propertyEncodeType'''),
('''func writePrefixID(''','''// keys sorted ids of the properties
func (p *property) keys() []PropertyID {
	ids := make([]PropertyID, 0, len(p.properties))
	for id := range p.properties {
		ids = append(ids, id)
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] > ids[j] })
	return ids
}

func writePrefixID('''),('import (\n','import (\n\t"sort"\n'))
s=open(R+'mqttp/property.go').read().replace('	order      []PropertyID\n','').replace('	p.order = nil\n','')
open(R+'mqttp/property.go','w').write(s)
# decode: bound the section
ed('mqttp/property.go',('''	for pLen != 0 {
		slice := from[offset:]
''','''	if int64(pLen) > int64(len(from)-offset) {
		return offset, CodeMalformedPacket
	}

	end := offset + int(pLen)

	for offset < end {
		slice := from[offset:end]
'''),('		p.len += count\n		pLen -= uint32(count)\n','		p.len += count\n'))
# publish
ed('mqttp/publish.go',('''		now := time.Now()

		if msg.expireAt.After(now) {
			if df = uint32(msg.expireAt.Sub(now) / time.Second); df > 0 {
				expired = false
			}
		}
''','''		if left := time.Until(msg.expireAt); left >= time.Second {
			df = uint32(left.Nanoseconds() / int64(time.Second))
			expired = df == 0
		}
'''),('pkt.Set(msg.topic, msg.Payload(), msg.QoS()','pkt.Set(msg.topic, append([]byte(nil), msg.payload...), msg.QoS()'))
s=open(R+'mqttp/publish.go').read()
i=s.index("		// [MQTT-3.3.2-4] forward Payload Format"); j=s.index("	}\n	return pkt, nil")
s=s[:i]+'''		for id, val := range msg.properties.properties {
			switch id {
			case PropertyPayloadFormat, PropertyResponseTopic, PropertyCorrelationData,
				PropertyUserProperty, PropertyContentType:
			default:
				continue
			}
			if b, ok := val.([]byte); ok {
				val = append([]byte{}, b...)
			}
			if err := pkt.properties.Set(PUBLISH, id, val); err != nil {
				return nil, err
			}
		}
'''+s[j:]
s=s.replace('''	msg.mFlags &= ^maskPublishFlagQoS
	msg.mFlags |= byte(q) << 1
	msg.topic = t
	msg.payload = p
	if d {
		msg.mFlags |= maskPublishFlagDup
	} else {
		msg.mFlags &= ^maskPublishFlagDup
	}

	if r {
		msg.mFlags |= maskPublishFlagRetain
	} else {
		msg.mFlags &= ^maskPublishFlagRetain
	}
''','''	var flags byte
	if r {
		flags |= maskPublishFlagRetain
	}
	flags |= byte(q) << offsetPublishFlagQoS
	if d {
		flags |= maskPublishFlagDup
	}
	msg.mFlags = msg.mFlags&0xF0 | flags
	msg.payload, msg.topic = p, t
''')
open(R+'mqttp/publish.go','w').write(s)
# suback
ed('mqttp/suback.go',('''	for i, q := range from[offset : offset+numCodes] {
		code := ReasonCode(q)
		if msg.version == ProtocolV50 {
			if !code.IsValidForType(msg.mType) {
				return offset + i, CodeProtocolError
			}
		} else if !QosType(code).IsValidFull() {
			return offset + i, CodeRefusedServerUnavailable
		}
		msg.returnCodes = append(msg.returnCodes, ReasonCode(q))
	}
''','''	codes := make([]ReasonCode, 0, numCodes)
	for i := 0; i < numCodes; i++ {
		code := ReasonCode(from[offset+i])
		switch {
		case msg.version == ProtocolV50 && !code.IsValidForType(SUBACK):
			return offset + i, CodeProtocolError
		case msg.version != ProtocolV50 && code > 2 && code != 0x80:
			return offset + i, CodeRefusedServerUnavailable
		}
		codes = append(codes, code)
	}
	if numCodes > 0 {
		msg.returnCodes = codes
	}
'''))
# connect: copies
ed('mqttp/connect.go',('''		if msg.username, n, err = ReadLPBytes(from[offset:]); err != nil {
			return offset + n, err
		}
''','''		var user []byte
		if user, n, err = ReadLPBytes(from[offset:]); err != nil {
			return offset + n, err
		}
		msg.username = append(make([]byte, 0, len(user)), user...)
'''),('''	msg.clientID, n, err = ReadLPBytes(from[offset:])
	offset += n
	if err != nil {
		return offset, err
	}
''','''	cid, n, err := ReadLPBytes(from[offset:])
	offset += n
	if err != nil {
		return offset, err
	}
	msg.clientID = append([]byte{}, cid...)
'''),('return IsValidUTF(cid) && clientIDRegexp.Match(cid)','''for _, c := range string(cid) {
		switch {
		case c >= '0' && c <= '9', c >= 'a' && c <= 'z', c >= 'A' && c <= 'Z':
		case c == ' ', c == '-', c == '_', c == ',', c == '.', c == '|', c == '/':
		default:
			return false
		}
	}
	return true'''),('''	"regexp"
''',''),('''var clientIDRegexp *regexp.Regexp

func init() {
	// Added space for Paho compliance test
	// Added underscore (_) for MQTT C client test
	// Added coma(,) for MQTT C client test
	// Added slash(/) for GCP test
	clientIDRegexp = regexp.MustCompile(`^[0-9a-zA-Z \\-_,.|/]*$`)
}
''',''))
# SetWill: keep order different
ed('mqttp/connect.go',('''	// Reset all will flags
	msg.ResetWill()

	if m.Retain() {
		msg.connectFlags |= maskConnFlagWillRetain
	}

	msg.connectFlags |= byte(m.QoS()) << offsetConnFlagWillQoS
	msg.connectFlags |= maskConnFlagWill
	msg.will = m
''','''	flags := maskConnFlagWill | byte(m.QoS())<<offsetConnFlagWillQoS
	if m.Retain() {
		flags |= maskConnFlagWillRetain
	}
	msg.connectFlags = msg.connectFlags&^(maskConnFlagWill|maskConnFlagWillQos|maskConnFlagWillRetain) | flags
	msg.will = m
'''))
# monitoring
fn('vlmonitoring/vlmetrics.go','func (c *Max) AddU64(','''func (c *Max) AddU64(n uint64) {
	var val uint64
	for {
		old := atomic.LoadUint64(&c.base.uint64)
		val = old + n
		if atomic.CompareAndSwapUint64(&c.base.uint64, old, val) {
			break
		}
	}
	for {
		m := atomic.LoadUint64(&c.Max)
		if m >= val || atomic.CompareAndSwapUint64(&c.Max, m, val) {
			return
		}
	}
}
''')
fn('vlmonitoring/vlmetrics.go','func (c *Max) SubU64(','''func (c *Max) SubU64(n uint64) {
	for {
		old := atomic.LoadUint64(&c.base.uint64)
		if atomic.CompareAndSwapUint64(&c.base.uint64, old, old-n) {
			return
		}
	}
}
''')
fn('vlmonitoring/vlmetrics.go','func LoadStore(','''func LoadStore(src *uint64, dst *uint64) uint64 {
	prev := *dst
	*dst = atomic.LoadUint64(src)
	return *dst - prev
}
''')
fn('vlmonitoring/vlmetrics.go','func (c *FlowCounter) Diff(','''func (c *FlowCounter) Diff(prev *FlowCounter) (d FlowCounter) {
	d.Recv = c.Recv.Diff(&prev.Recv)
	d.Sent = c.Sent.Diff(&prev.Sent)
	return
}
''')
fn('vlmonitoring/vlmetrics.go','func (c *Max) Load(','''func (c *Max) Load() (m Max) {
	m.base.uint64 = c.Get()
	m.Max = atomic.LoadUint64(&c.Max)
	return
}
''')
# vltypes
ed('vltypes/config.go',('''		res := make(map[string]interface{})
		for k, v := range r {
			key, ok := k.(string)
			if !ok {
				return nil, ErrInvalidConfigType
			}

			res[key] = v
		}
''','''		for k := range r {
			if _, ok := k.(string); !ok {
				return nil, ErrInvalidConfigType
			}
		}
		res := make(map[string]interface{}, len(r))
		for k, v := range r {
			res[k.(string)] = v
		}
'''))
# subscribe: collect topics
s=open(R+'mqttp/unsubscribe.go').read()
s=s.replace('''	for remLen > 0 {
		t, n, err := ReadLPBytes(from[offset:])
		offset += n
		if err != nil {
			return offset, err
		}

		var topic *Topic
		if topic, err = NewTopic(t); err != nil {
			return offset, err
		}

		msg.topics = append(msg.topics, topic)

		remLen -= n
	}
''','''	_ = remLen
	for rest := from[offset:]; len(rest) > 0; rest = from[offset:] {
		t, n, err := ReadLPBytes(rest)
		offset += n
		if err != nil {
			return offset, err
		}

		topic, err := NewTopic(t)
		if err != nil {
			return offset, err
		}

		msg.topics = append(msg.topics, topic)
	}
''')
open(R+'mqttp/unsubscribe.go','w').write(s)
# property Set: recompute the length from scratch
s=open(R+'mqttp/property.go').read()
a='''	// value being replaced does not count anymore
	if prev, ok := p.properties[id]; ok {
		if n, e := fn(id, prev); e == nil {
			p.len -= clampLen(n)
		}
	}

	p.len += l
	p.properties[id] = val
'''
assert s.count(a)==1
s=s.replace(a,'''	_ = l
	p.properties[id] = val
	p.len = 0
	for k, v := range p.properties {
		n, _ := propertyCalcLen[propertyTypeMap[k]](k, v)
		p.len += clampLen(n)
	}
''')
open(R+'mqttp/property.go','w').write(s)
fn('mqttp/header.go','func (h *header) Encode(','''func (h *header) Encode(to []byte) (int, error) {
	expectedSize, err := h.Size()
	if err != nil {
		return 0, err
	}

	if expectedSize > len(to) {
		return expectedSize, ErrInsufficientBufferSize
	}

	scratch := make([]byte, expectedSize)
	scratch[0] = byte(h.mType<<offsetPacketType) | h.mFlags
	n := 1 + binary.PutUvarint(scratch[1:], uint64(h.remLen))

	m, err := h.cb.encode(scratch[n:])
	n += m
	if err == nil {
		copy(to, scratch[:n])
	}
	return n, err
}
''')
ed('mqttp/packet.go',('	if total, err = msg.decode(buf); err != nil {','''	own := make([]byte, len(buf))
	copy(own, buf)
	if total, err = msg.decode(own); err != nil {'''))
s=open(R+'mqttp/packet.go').read()
i=s.index('func newMessage('); j=s.index('\n}\n',i)+3
s=s[:i]+'''var constructors = map[Type]func(ProtocolVersion) IFace{
	CONNECT:     func(v ProtocolVersion) IFace { return NewConnect(v) },
	CONNACK:     func(v ProtocolVersion) IFace { return NewConnAck(v) },
	PUBLISH:     func(v ProtocolVersion) IFace { return NewPublish(v) },
	PUBACK:      func(v ProtocolVersion) IFace { return NewPubAck(v) },
	PUBREC:      func(v ProtocolVersion) IFace { return NewPubRec(v) },
	PUBREL:      func(v ProtocolVersion) IFace { return NewPubRel(v) },
	PUBCOMP:     func(v ProtocolVersion) IFace { return NewPubComp(v) },
	SUBSCRIBE:   func(v ProtocolVersion) IFace { return NewSubscribe(v) },
	SUBACK:      func(v ProtocolVersion) IFace { return NewSubAck(v) },
	UNSUBSCRIBE: func(v ProtocolVersion) IFace { return NewUnSubscribe(v) },
	UNSUBACK:    func(v ProtocolVersion) IFace { return NewUnSubAck(v) },
	PINGREQ:     func(v ProtocolVersion) IFace { return NewPingReq(v) },
	PINGRESP:    func(v ProtocolVersion) IFace { return NewPingResp(v) },
	DISCONNECT:  func(v ProtocolVersion) IFace { return NewDisconnect(v) },
	AUTH:        func(v ProtocolVersion) IFace { return NewAuth(v) },
}

func newMessage(v ProtocolVersion, t Type) (IFace, error) {
	c, ok := constructors[t]
	if !ok || (t == AUTH && v < ProtocolV50) {
		return nil, ErrInvalidMessageType
	}

	return c(v), nil
}
'''+s[j:]
open(R+'mqttp/packet.go','w').write(s)
fn('mqttp/reasonCodes.go','func (c ReasonCode) IsValidForType(','''func (c ReasonCode) IsValidForType(p Type) bool {
	return int(p) < len(codeTable) && codeTable[p][c]
}

var codeTable = func() (t [AUTH + 1][256]bool) {
	for p, codes := range packetTypeCodeMap {
		for c := range codes {
			t[p][c] = true
		}
	}
	return
}()
''')
fn('mqttp/reasonCodes.go','func (c ReasonCode) IsValidV5(','''func (c ReasonCode) IsValidV5() bool {
	_, known := codeDescMap[c]
	return known && (c == CodeSuccess || (c > CodeRefusedNotAuthorized && c <= 0xA2))
}
''')
ed('mqttp/suback.go',('	return msg.returnCodes\n','''	if msg.returnCodes == nil {
		return nil
	}
	return append([]ReasonCode{}, msg.returnCodes...)
'''))
ed('mqttp/subscribe.go',('	msg.topics = append(msg.topics, topic)\n	return nil','''	grown := make([]*Topic, len(msg.topics)+1)
	copy(grown, msg.topics)
	grown[len(msg.topics)] = topic
	msg.topics = grown
	return nil'''))
fn('mqttp/types.go','func (t *Topic) ShareName(','''func (t *Topic) ShareName() string {
	if t.shareName == nil {
		return ""
	}
	var sb strings.Builder
	sb.Write(t.shareName)
	return sb.String()
}
''')
ed('mqttp/types.go',('import (\n','import (\n\t"strings"\n'))
s=open(R+'mqttp/property.go').read()
s=s.replace('return ids[i] > ids[j]','return ids[i] < ids[j]')
i=s.index('func (p *property) Get('); j=s.index('\n}\n',i)+3
s=s[:i]+'''func (p *property) Get(id PropertyID) PropertyToType {
	val, ok := p.properties[id]
	if !ok {
		return nil
	}
	switch v := val.(type) {
	case []byte:
		val = append([]byte{}, v...)
	case []StringPair:
		val = append([]StringPair{}, v...)
	case []uint32:
		val = append([]uint32{}, v...)
	}
	return &propertyToType{t: propertyTypeMap[id], v: val}
}
'''+s[j:]
open(R+'mqttp/property.go','w').write(s)
ed('mqttp/connect.go',('''	msg.clientID = v

	return nil''','''	msg.clientID = append([]byte(nil), v...)

	return nil'''),('''		msg.username = u
''','''		msg.username = append([]byte{}, u...)
'''))
fn('vlauth/auth.go','func (e Status) Error(','''func (e Status) Error() string {
	switch e {
	case StatusAllow, StatusDeny:
		return statusDesc[e]
	default:
		return "auth status: unknown status"
	}
}
''')
