// Package ref is an independent MQTT 3.1 / 3.1.1 / 5.0 reference codec written
// from the specification. It shares no code with the library under test.
package ref

import (
	"bytes"
	"fmt"
	"sort"
)

// packet types
const (
	CONNECT = 1 + iota
	CONNACK
	PUBLISH
	PUBACK
	PUBREC
	PUBREL
	PUBCOMP
	SUBSCRIBE
	SUBACK
	UNSUBSCRIBE
	UNSUBACK
	PINGREQ
	PINGRESP
	DISCONNECT
	AUTH
)

// TypeName for reports
var TypeName = [...]string{"RESERVED", "CONNECT", "CONNACK", "PUBLISH", "PUBACK", "PUBREC", "PUBREL", "PUBCOMP",
	"SUBSCRIBE", "SUBACK", "UNSUBSCRIBE", "UNSUBACK", "PINGREQ", "PINGRESP", "DISCONNECT", "AUTH"}

// Kind of a property value
type Kind byte

// property kinds
const (
	KByte Kind = iota
	KShort
	KInt
	KVarInt
	KString
	KPair
	KBinary
)

// WILL is the pseudo packet type of will properties in property tables
const WILL = 0

// PropDef is one row of the MQTT 5 property table
type PropDef struct {
	Name   string
	Kind   Kind
	Types  []byte // packet types it is defined for, WILL included
	Repeat []byte // packet types it may repeat in
}

// PropTable is table 2-4 of MQTT 5
var PropTable = map[uint32]PropDef{
	0x01: {"PayloadFormat", KByte, []byte{PUBLISH, WILL}, nil},
	0x02: {"MessageExpiry", KInt, []byte{PUBLISH, WILL}, nil},
	0x03: {"ContentType", KString, []byte{PUBLISH, WILL}, nil},
	0x08: {"ResponseTopic", KString, []byte{PUBLISH, WILL}, nil},
	0x09: {"CorrelationData", KBinary, []byte{PUBLISH, WILL}, nil},
	0x0B: {"SubscriptionIdentifier", KVarInt, []byte{PUBLISH, SUBSCRIBE}, []byte{PUBLISH}},
	0x11: {"SessionExpiry", KInt, []byte{CONNECT, CONNACK, DISCONNECT}, nil},
	0x12: {"AssignedClientID", KString, []byte{CONNACK}, nil},
	0x13: {"ServerKeepAlive", KShort, []byte{CONNACK}, nil},
	0x15: {"AuthMethod", KString, []byte{CONNECT, CONNACK, AUTH}, nil},
	0x16: {"AuthData", KBinary, []byte{CONNECT, CONNACK, AUTH}, nil},
	0x17: {"RequestProblemInfo", KByte, []byte{CONNECT}, nil},
	0x18: {"WillDelay", KInt, []byte{WILL}, nil},
	0x19: {"RequestResponseInfo", KByte, []byte{CONNECT}, nil},
	0x1A: {"ResponseInfo", KString, []byte{CONNACK}, nil},
	0x1C: {"ServerReference", KString, []byte{CONNACK, DISCONNECT}, nil},
	0x1F: {"ReasonString", KString, []byte{CONNACK, PUBACK, PUBREC, PUBREL, PUBCOMP, SUBACK, UNSUBACK, DISCONNECT, AUTH}, nil},
	0x21: {"ReceiveMaximum", KShort, []byte{CONNECT, CONNACK}, nil},
	0x22: {"TopicAliasMaximum", KShort, []byte{CONNECT, CONNACK}, nil},
	0x23: {"TopicAlias", KShort, []byte{PUBLISH}, nil},
	0x24: {"MaximumQoS", KByte, []byte{CONNACK}, nil},
	0x25: {"RetainAvailable", KByte, []byte{CONNACK}, nil},
	0x26: {"UserProperty", KPair, allProps, allProps},
	0x27: {"MaximumPacketSize", KInt, []byte{CONNECT, CONNACK}, nil},
	0x28: {"WildcardSubscription", KByte, []byte{CONNACK}, nil},
	0x29: {"SubscriptionIDAvailable", KByte, []byte{CONNACK}, nil},
	0x2A: {"SharedSubscription", KByte, []byte{CONNACK}, nil},
}

var allProps = []byte{CONNECT, CONNACK, PUBLISH, WILL, PUBACK, PUBREC, PUBREL, PUBCOMP, SUBSCRIBE, SUBACK, UNSUBSCRIBE, UNSUBACK, DISCONNECT, AUTH}

// PropIDs in ascending order
var PropIDs []uint32

func init() {
	for id := range PropTable {
		PropIDs = append(PropIDs, id)
	}
	sort.Slice(PropIDs, func(i, j int) bool { return PropIDs[i] < PropIDs[j] })
}

// Allowed property id in packet type t
func Allowed(id uint32, t byte) bool {
	d, ok := PropTable[id]
	return ok && bytes.IndexByte(d.Types, t) >= 0
}

// MayRepeat property id in packet type t
func MayRepeat(id uint32, t byte) bool {
	d, ok := PropTable[id]
	return ok && bytes.IndexByte(d.Repeat, t) >= 0
}

// HasProps tells whether packet type t has a property section in MQTT 5
func HasProps(t byte) bool { return bytes.IndexByte(allProps, t) >= 0 && t != WILL }

// HasID tells whether packet type always carries an identifier
func HasID(t byte) bool {
	switch t {
	case PUBACK, PUBREC, PUBREL, PUBCOMP, SUBSCRIBE, SUBACK, UNSUBSCRIBE, UNSUBACK:
		return true
	}
	return false
}

// Prop is one property occurrence
type Prop struct {
	ID uint32
	U  uint32 // integer kinds
	S  string // string, binary, pair value
	K  string // pair key
}

// Sub is one entry of a topic list
type Sub struct {
	F   string
	Ops byte
}

// Will message
type Will struct {
	Topic   string
	Payload string
	QoS     byte
	Retain  bool
	Props   []Prop
}

// Pkt is the content of a control packet
type Pkt struct {
	V, T           byte
	Dup, Retain    bool
	QoS            byte
	HasID          bool
	ID             uint16
	Topic          string
	Payload        string
	Props          []Prop
	Clean          bool
	KeepAlive      uint16
	ClientID       string
	HasUser        bool
	HasPass        bool
	User, Pass     string
	Will           *Will
	SessionPresent bool
	Code           byte
	Subs           []Sub
	Codes          []byte
}

// Flags of the fixed header as the specification gives them
func Flags(t byte) byte {
	if t == PUBREL || t == SUBSCRIBE || t == UNSUBSCRIBE {
		return 2
	}
	return 0
}

// ProtoName of a version
func ProtoName(v byte) string {
	if v == 3 {
		return "MQIsdp"
	}
	return "MQTT"
}

// VarInt is the minimal encoding of a variable byte integer
func VarInt(x uint32) []byte {
	var b []byte
	for {
		c := byte(x & 0x7f)
		x >>= 7
		if x > 0 {
			b = append(b, c|0x80)
			continue
		}
		return append(b, c)
	}
}

// LP is a length prefixed field
func LP(s string) []byte {
	return append([]byte{byte(len(s) >> 8), byte(len(s))}, s...)
}

// EncProp encodes one property occurrence
func EncProp(p Prop) []byte {
	b := VarInt(p.ID)
	switch PropTable[p.ID].Kind {
	case KByte:
		b = append(b, byte(p.U))
	case KShort:
		b = append(b, byte(p.U>>8), byte(p.U))
	case KInt:
		b = append(b, byte(p.U>>24), byte(p.U>>16), byte(p.U>>8), byte(p.U))
	case KVarInt:
		b = append(b, VarInt(p.U)...)
	case KString, KBinary:
		b = append(b, LP(p.S)...)
	case KPair:
		b = append(b, LP(p.K)...)
		b = append(b, LP(p.S)...)
	}
	return b
}

// EncProps encodes a property section
func EncProps(ps []Prop) []byte {
	var b []byte
	for _, p := range ps {
		b = append(b, EncProp(p)...)
	}
	return append(VarInt(uint32(len(b))), b...)
}

// Form selects among the optional short forms of MQTT 5
type Form byte

// encoding forms
const (
	Shortest Form = iota // drop whatever may be dropped
	Full                 // reason code and property length always present
	NoProps              // reason code present, property length dropped if there are none
)

// Body encodes everything after the fixed header
func (p *Pkt) Body(f Form) []byte {
	var b []byte
	id := func() { b = append(b, byte(p.ID>>8), byte(p.ID)) }
	reason := func() {
		switch {
		case len(p.Props) > 0 || f == Full:
			b = append(b, p.Code)
			b = append(b, EncProps(p.Props)...)
		case f == NoProps || p.Code != 0:
			b = append(b, p.Code)
		}
	}
	switch p.T {
	case CONNECT:
		b = append(b, LP(ProtoName(p.V))...)
		var fl byte
		if p.Clean {
			fl |= 2
		}
		if p.Will != nil {
			fl |= 4 | p.Will.QoS<<3
			if p.Will.Retain {
				fl |= 0x20
			}
		}
		if p.HasPass {
			fl |= 0x40
		}
		if p.HasUser {
			fl |= 0x80
		}
		b = append(b, p.V, fl, byte(p.KeepAlive>>8), byte(p.KeepAlive))
		if p.V == 5 {
			b = append(b, EncProps(p.Props)...)
		}
		b = append(b, LP(p.ClientID)...)
		if w := p.Will; w != nil {
			if p.V == 5 {
				b = append(b, EncProps(w.Props)...)
			}
			b = append(b, LP(w.Topic)...)
			b = append(b, LP(w.Payload)...)
		}
		if p.HasUser {
			b = append(b, LP(p.User)...)
		}
		if p.HasPass {
			b = append(b, LP(p.Pass)...)
		}
	case CONNACK:
		var fl byte
		if p.SessionPresent {
			fl = 1
		}
		b = append(b, fl, p.Code)
		if p.V == 5 {
			b = append(b, EncProps(p.Props)...)
		}
	case PUBLISH:
		b = append(b, LP(p.Topic)...)
		if p.QoS > 0 {
			id()
		}
		if p.V == 5 {
			b = append(b, EncProps(p.Props)...)
		}
		b = append(b, p.Payload...)
	case PUBACK, PUBREC, PUBREL, PUBCOMP:
		id()
		if p.V == 5 {
			reason()
		}
	case SUBSCRIBE, UNSUBSCRIBE:
		id()
		if p.V == 5 {
			b = append(b, EncProps(p.Props)...)
		}
		for _, s := range p.Subs {
			b = append(b, LP(s.F)...)
			if p.T == SUBSCRIBE {
				b = append(b, s.Ops)
			}
		}
	case SUBACK, UNSUBACK:
		id()
		if p.V == 5 {
			b = append(b, EncProps(p.Props)...)
		}
		if p.T == SUBACK || p.V == 5 {
			b = append(b, p.Codes...)
		}
	case DISCONNECT:
		if p.V == 5 {
			if f == Shortest && len(p.Props) == 0 && p.Code != 0 {
				// the one byte form is a known finding; see known_findings
				b = append(b, p.Code, 0)
			} else {
				reason()
			}
		}
	case AUTH:
		reason()
	}
	return b
}

// First byte of the fixed header
func (p *Pkt) First() byte {
	if p.T == PUBLISH {
		f := p.QoS << 1
		if p.Dup {
			f |= 8
		}
		if p.Retain {
			f |= 1
		}
		return PUBLISH<<4 | f
	}
	return p.T<<4 | Flags(p.T)
}

// Frame puts a fixed header in front of body
func Frame(first byte, body []byte) []byte {
	b := append([]byte{first}, VarInt(uint32(len(body)))...)
	return append(b, body...)
}

// Encode the packet
func (p *Pkt) Encode(f Form) []byte { return Frame(p.First(), p.Body(f)) }

func canonProps(ps []Prop) []Prop {
	r := append([]Prop(nil), ps...)
	sort.SliceStable(r, func(i, j int) bool { return r[i].ID < r[j].ID })
	return r
}

func diffProps(what string, a, b []Prop) string {
	a, b = canonProps(a), canonProps(b)
	for i := 0; i < len(a) || i < len(b); i++ {
		switch {
		case i >= len(a):
			return fmt.Sprintf("%s: unexpected %s", what, b[i])
		case i >= len(b):
			return fmt.Sprintf("%s: missing %s", what, a[i])
		case a[i] != b[i]:
			return fmt.Sprintf("%s: want %s, got %s", what, a[i], b[i])
		}
	}
	return ""
}

func short(s string) string {
	if len(s) > 40 {
		return fmt.Sprintf("%q...(%d bytes)", s[:40], len(s))
	}
	return fmt.Sprintf("%q", s)
}

func (p Prop) String() string {
	return fmt.Sprintf("property %#x(u=%d k=%s s=%s)", p.ID, p.U, short(p.K), short(p.S))
}

// Diff describes the first difference between the wanted and the obtained content ("" if none).
// Property order across different identifiers is immaterial; within one identifier it matters.
func Diff(w, g *Pkt) string {
	f := func(n string, a, b interface{}) string {
		if sa, ok := a.(string); ok {
			if sb := b.(string); sa != sb {
				return fmt.Sprintf("%s: want %s, got %s", n, short(sa), short(sb))
			}
			return ""
		}
		if a != b {
			return fmt.Sprintf("%s: want %v, got %v", n, a, b)
		}
		return ""
	}
	l := []string{
		f("version", w.V, g.V), f("type", w.T, g.T), f("dup", w.Dup, g.Dup), f("retain", w.Retain, g.Retain),
		f("qos", w.QoS, g.QoS), f("has packet id", w.HasID, g.HasID), f("packet id", w.ID, g.ID),
		f("topic", w.Topic, g.Topic), f("payload", w.Payload, g.Payload), diffProps("properties", w.Props, g.Props),
		f("clean", w.Clean, g.Clean), f("keep alive", w.KeepAlive, g.KeepAlive), f("client id", w.ClientID, g.ClientID),
		f("has username", w.HasUser, g.HasUser), f("has password", w.HasPass, g.HasPass),
		f("username", w.User, g.User), f("password", w.Pass, g.Pass), f("has will", w.Will != nil, g.Will != nil),
		f("session present", w.SessionPresent, g.SessionPresent), f("reason code", w.Code, g.Code),
		f("codes", string(w.Codes), string(g.Codes)), f("number of topics", len(w.Subs), len(g.Subs)),
	}
	for _, s := range l {
		if s != "" {
			return s
		}
	}
	for i := range w.Subs {
		if w.Subs[i] != g.Subs[i] {
			return fmt.Sprintf("topic %d: want %s/%#x, got %s/%#x", i, short(w.Subs[i].F), w.Subs[i].Ops, short(g.Subs[i].F), g.Subs[i].Ops)
		}
	}
	if w.Will != nil {
		a, b := w.Will, g.Will
		for _, s := range []string{f("will topic", a.Topic, b.Topic), f("will payload", a.Payload, b.Payload),
			f("will qos", a.QoS, b.QoS), f("will retain", a.Retain, b.Retain), diffProps("will properties", a.Props, b.Props)} {
			if s != "" {
				return s
			}
		}
	}
	return ""
}

// Clone deep copies (strings are immutable)
func (p *Pkt) Clone() *Pkt {
	r := *p
	r.Props = append([]Prop(nil), p.Props...)
	r.Subs = append([]Sub(nil), p.Subs...)
	r.Codes = append([]byte(nil), p.Codes...)
	if p.Will != nil {
		w := *p.Will
		w.Props = append([]Prop(nil), p.Will.Props...)
		r.Will = &w
	}
	return &r
}
