package main

import (
	"fmt"

	"github.com/VolantMQ/vlapi/mqttp"

	"verif/adapt"
	"verif/gen"
	"verif/ref"
)

func init() {
	checks["C40"] = &Check{Run: c40, Rule: "every exported name of packet types, properties, reason codes, QoS levels, versions and retain handling, used to build packets that the reference decoder reads and to recognise content the reference encoder wrote; exported expressions on random and enumerated texts; non-trivial = distinct (name, use)", Note: "oracle: the numbers in the MQTT specifications, written down a second time next to the names"}
	checks["C41"] = &Check{Run: c41, Rule: "random sequences of reading operations (accessors, visits that fail or panic half-way, Size, Encode into buffers of any size, Clone, property lookups of any id and type) on fresh and decoded packets, and values handed to setters and looked at afterwards; non-trivial = distinct (packet, sequence)", Note: "oracle: the content before"}
}

type nameOf struct {
	name string
	got  int
	want int
}

var typeNames = []nameOf{
	{"RESERVED", int(mqttp.RESERVED), 0}, {"CONNECT", int(mqttp.CONNECT), 1}, {"CONNACK", int(mqttp.CONNACK), 2}, {"PUBLISH", int(mqttp.PUBLISH), 3},
	{"PUBACK", int(mqttp.PUBACK), 4}, {"PUBREC", int(mqttp.PUBREC), 5}, {"PUBREL", int(mqttp.PUBREL), 6}, {"PUBCOMP", int(mqttp.PUBCOMP), 7},
	{"SUBSCRIBE", int(mqttp.SUBSCRIBE), 8}, {"SUBACK", int(mqttp.SUBACK), 9}, {"UNSUBSCRIBE", int(mqttp.UNSUBSCRIBE), 10}, {"UNSUBACK", int(mqttp.UNSUBACK), 11},
	{"PINGREQ", int(mqttp.PINGREQ), 12}, {"PINGRESP", int(mqttp.PINGRESP), 13}, {"DISCONNECT", int(mqttp.DISCONNECT), 14}, {"AUTH", int(mqttp.AUTH), 15},
}

var propNames = []nameOf{
	{"PayloadFormat", int(mqttp.PropertyPayloadFormat), 1},
	{"PublicationExpiry", int(mqttp.PropertyPublicationExpiry), 2},
	{"ContentType", int(mqttp.PropertyContentType), 3},
	{"ResponseTopic", int(mqttp.PropertyResponseTopic), 8},
	{"CorrelationData", int(mqttp.PropertyCorrelationData), 9},
	{"SubscriptionIdentifier", int(mqttp.PropertySubscriptionIdentifier), 11},
	{"SessionExpiryInterval", int(mqttp.PropertySessionExpiryInterval), 17},
	{"AssignedClientIdentifier", int(mqttp.PropertyAssignedClientIdentifier), 18},
	{"ServerKeepAlive", int(mqttp.PropertyServerKeepAlive), 19},
	{"AuthMethod", int(mqttp.PropertyAuthMethod), 21},
	{"AuthData", int(mqttp.PropertyAuthData), 22},
	{"RequestProblemInfo", int(mqttp.PropertyRequestProblemInfo), 23},
	{"WillDelayInterval", int(mqttp.PropertyWillDelayInterval), 24},
	{"RequestResponseInfo", int(mqttp.PropertyRequestResponseInfo), 25},
	{"ResponseInfo", int(mqttp.PropertyResponseInfo), 26},
	{"ReasonString", int(mqttp.PropertyReasonString), 31},
	{"ReceiveMaximum", int(mqttp.PropertyReceiveMaximum), 33},
	{"TopicAliasMaximum", int(mqttp.PropertyTopicAliasMaximum), 34},
	{"TopicAlias", int(mqttp.PropertyTopicAlias), 35},
	{"MaximumQoS", int(mqttp.PropertyMaximumQoS), 36},
	{"RetainAvailable", int(mqttp.PropertyRetainAvailable), 37},
	{"UserProperty", int(mqttp.PropertyUserProperty), 38},
	{"MaximumPacketSize", int(mqttp.PropertyMaximumPacketSize), 39},
	{"WildcardSubscriptionAvailable", int(mqttp.PropertyWildcardSubscriptionAvailable), 40},
	{"SubscriptionIdentifierAvailable", int(mqttp.PropertySubscriptionIdentifierAvailable), 41},
	{"SharedSubscriptionAvailable", int(mqttp.PropertySharedSubscriptionAvailable), 42},
}

var codeNames = []nameOf{
	{"Success", int(mqttp.CodeSuccess), 0},
	{"RefusedUnacceptableProtocolVersion", int(mqttp.CodeRefusedUnacceptableProtocolVersion), 1},
	{"RefusedIdentifierRejected", int(mqttp.CodeRefusedIdentifierRejected), 2},
	{"RefusedServerUnavailable", int(mqttp.CodeRefusedServerUnavailable), 3},
	{"RefusedBadUsernameOrPassword", int(mqttp.CodeRefusedBadUsernameOrPassword), 4},
	{"RefusedNotAuthorized", int(mqttp.CodeRefusedNotAuthorized), 5},
	{"NoMatchingSubscribers", int(mqttp.CodeNoMatchingSubscribers), 0x10},
	{"NoSubscriptionExisted", int(mqttp.CodeNoSubscriptionExisted), 0x11},
	{"ContinueAuthentication", int(mqttp.CodeContinueAuthentication), 0x18},
	{"ReAuthenticate", int(mqttp.CodeReAuthenticate), 0x19},
	{"UnspecifiedError", int(mqttp.CodeUnspecifiedError), 128},
	{"MalformedPacket", int(mqttp.CodeMalformedPacket), 129},
	{"ProtocolError", int(mqttp.CodeProtocolError), 130},
	{"ImplementationSpecificError", int(mqttp.CodeImplementationSpecificError), 131},
	{"UnsupportedProtocol", int(mqttp.CodeUnsupportedProtocol), 132},
	{"InvalidClientID", int(mqttp.CodeInvalidClientID), 133},
	{"BadUserOrPassword", int(mqttp.CodeBadUserOrPassword), 134},
	{"NotAuthorized", int(mqttp.CodeNotAuthorized), 135},
	{"ServerUnavailable", int(mqttp.CodeServerUnavailable), 136},
	{"ServerBusy", int(mqttp.CodeServerBusy), 137},
	{"Banned", int(mqttp.CodeBanned), 138},
	{"ServerShuttingDown", int(mqttp.CodeServerShuttingDown), 139},
	{"BadAuthMethod", int(mqttp.CodeBadAuthMethod), 140},
	{"KeepAliveTimeout", int(mqttp.CodeKeepAliveTimeout), 141},
	{"SessionTakenOver", int(mqttp.CodeSessionTakenOver), 142},
	{"InvalidTopicFilter", int(mqttp.CodeInvalidTopicFilter), 143},
	{"InvalidTopicName", int(mqttp.CodeInvalidTopicName), 144},
	{"PacketIDInUse", int(mqttp.CodePacketIDInUse), 145},
	{"PacketIDNotFound", int(mqttp.CodePacketIDNotFound), 146},
	{"ReceiveMaximumExceeded", int(mqttp.CodeReceiveMaximumExceeded), 147},
	{"InvalidTopicAlias", int(mqttp.CodeInvalidTopicAlias), 148},
	{"PacketTooLarge", int(mqttp.CodePacketTooLarge), 149},
	{"MessageRateTooHigh", int(mqttp.CodeMessageRateTooHigh), 150},
	{"QuotaExceeded", int(mqttp.CodeQuotaExceeded), 151},
	{"AdministrativeAction", int(mqttp.CodeAdministrativeAction), 152},
	{"InvalidPayloadFormat", int(mqttp.CodeInvalidPayloadFormat), 153},
	{"RetainNotSupported", int(mqttp.CodeRetainNotSupported), 154},
	{"NotSupportedQoS", int(mqttp.CodeNotSupportedQoS), 155},
	{"UseAnotherServer", int(mqttp.CodeUseAnotherServer), 156},
	{"ServerMoved", int(mqttp.CodeServerMoved), 157},
	{"SharedSubscriptionNotSupported", int(mqttp.CodeSharedSubscriptionNotSupported), 158},
	{"ConnectionRateExceeded", int(mqttp.CodeConnectionRateExceeded), 159},
	{"MaximumConnectTime", int(mqttp.CodeMaximumConnectTime), 160},
	{"SubscriptionIDNotSupported", int(mqttp.CodeSubscriptionIDNotSupported), 161},
	{"WildcardSubscriptionsNotSupported", int(mqttp.CodeWildcardSubscriptionsNotSupported), 162},
}

var verNames = []nameOf{{"3.1", int(mqttp.ProtocolV31), 3}, {"3.1.1", int(mqttp.ProtocolV311), 4}, {"5.0", int(mqttp.ProtocolV50), 5}}
var qosNames = []nameOf{{"QoS0", int(mqttp.QoS0), 0}, {"QoS1", int(mqttp.QoS1), 1}, {"QoS2", int(mqttp.QoS2), 2}}

func c40(c *C) {
	c.Each("types", len(typeNames)*3, func(t *T) {
		n, v := typeNames[t.I/3], byte(3+t.I%3)
		if n.got != n.want {
			t.Fatalf("packet type %s has the number %d, the specification's is %d", n.name, n.got, n.want)
		}
		t.Distinct("type", n.name, v)
		t.Eval()
		if n.want == 0 || n.want == ref.AUTH && v < 5 {
			return
		}
		if pi := int(mqttp.RESERVED); pi != 0 {
			t.Fatalf("RESERVED is %d", pi)
		}
		m, err := mqttp.New(pv(v), mqttp.Type(n.got))
		if err != nil || int(m.Type()) != n.want || m.Type().Name() != n.name {
			t.Fatalf("New(%s) under v%d: %v, %v", n.name, v, m, err)
		}
		p := conformingFor(gen.New(40, uint64(t.I)), v, byte(n.want))
		d, _, err := t.decode(v, p.Encode(ref.Full))
		if err != nil {
			t.Fatalf("conforming %s v%d refused: %v", n.name, v, err)
		}
		if int(d.Type()) != n.got {
			t.Fatalf("%s v%d is decoded as type %d", n.name, v, d.Type())
		}
		if b := t.encode(t.build(p)); int(b[0]>>4) != n.got {
			t.Fatalf("%s v%d is encoded with type %d", n.name, v, b[0]>>4)
		}
		t.Count("packets through a type's name")
		t.Sample("%s = %d", n.name, n.got)
	})
	c.Each("properties", len(propNames)*15, func(t *T) {
		n, ty := propNames[t.I/15], byte(t.I%15+1)
		pid := mqttp.PropertyID(n.got)
		t.Distinct("property", n.name, ty)
		t.Eval()
		if n.got != n.want {
			t.Fatalf("property %s has the identifier %#x, the specification's is %#x", n.name, n.got, n.want)
		}
		if !pid.IsValid() {
			t.Fatalf("property %s is not valid", n.name)
		}
		will := ty == ref.CONNECT && ref.Allowed(uint32(n.want), ref.WILL) && t.R.Bool()
		if !will && !ref.Allowed(uint32(n.want), ty) {
			return
		}
		for rep := 0; rep < 6; rep++ {
			p := conformingFor(t.R, 5, ty)
			val := t.R.PropFor(uint32(n.want))
			if will {
				p.Will = &ref.Will{Topic: "w", Payload: "x", Props: []ref.Prop{val}}
			} else {
				p.Props = []ref.Prop{val}
			}
			// through the name onto the wire
			q := p.Clone()
			q.Props = nil
			if will {
				q.Will = nil
			}
			m := t.build(q)
			tgt := m
			if will {
				w := mqttp.NewPublish(mqttp.ProtocolV50)
				_ = w.Set("w", []byte("x"), mqttp.QoS0, false, false)
				tgt = w
			}
			if err := tgt.PropertySet(pid, adapt.GoValue(t.R, []ref.Prop{val})); err != nil {
				t.Fatalf("%s refused on %s: %v", n.name, ref.TypeName[ty], err)
			}
			if will {
				if err := m.(*mqttp.Connect).SetWill(tgt.(*mqttp.Publish)); err != nil {
					t.Fatalf("SetWill: %v", err)
				}
			}
			t.refAccept(p, t.encode(m))
			// from the wire through the name
			d, _, err := t.decode(5, p.Encode(ref.Full))
			if err != nil {
				t.Fatalf("%s with %s refused: %v", ref.TypeName[ty], n.name, err)
			}
			if will {
				d = d.(*mqttp.Connect).Will()
			}
			g := d.PropertyGet(pid)
			if g == nil {
				t.Fatalf("%s of a received %s is not found under its name", n.name, ref.TypeName[ty])
			}
			l, err := adapt.ReadProp(uint32(n.want), g)
			if err != nil || len(l) != 1 || l[0] != val {
				t.Fatalf("%s of a received %s reads %v (%v), sent %v", n.name, ref.TypeName[ty], l, err, val)
			}
			t.EvalN(2)
			t.Count("packets through a property's name")
		}
		t.Sample("%s on %s", n.name, ref.TypeName[ty])
	})
	c.Each("codes", len(codeNames)*16*3, func(t *T) {
		n, ty, v := codeNames[t.I/48], byte(t.I%16), byte(3+t.I/16%3)
		t.Distinct("code", n.name, ty, v)
		t.Eval()
		if n.got != n.want || mqttp.ReasonCode(n.got).Value() != byte(n.want) {
			t.Fatalf("reason code %s is %#x, the specification's is %#x", n.name, n.got, n.want)
		}
		ok := false
		for _, x := range ref.CodesOf(v, ty) {
			ok = ok || int(x) == n.want
		}
		if !ok || !ref.HasCodes(ty) || v < 5 && ty != ref.CONNACK && ty != ref.SUBACK {
			return
		}
		p := conformingFor(t.R, v, ty)
		switch ty {
		case ref.SUBACK, ref.UNSUBACK:
			p.Codes = []byte{byte(n.want)}
		default:
			p.Code = byte(n.want)
			p.SessionPresent = false
		}
		t.refAccept(p, t.encode(t.build(p)))
		d, _, err := t.decode(v, p.Encode(ref.Full))
		if err != nil {
			t.Fatalf("%s v%d with %s refused: %v", ref.TypeName[ty], v, n.name, err)
		}
		var g mqttp.ReasonCode
		switch x := d.(type) {
		case *mqttp.ConnAck:
			g = x.ReturnCode()
		case *mqttp.Ack:
			g = x.Reason()
		case *mqttp.Disconnect:
			g = x.ReasonCode()
		case *mqttp.Auth:
			g = x.ReasonCode()
		case *mqttp.SubAck:
			g = x.ReturnCodes()[0]
		case *mqttp.UnSubAck:
			g = x.ReturnCodes()[0]
		default:
			return
		}
		if int(g) != n.got {
			t.Fatalf("%s v%d sent with %s is read as %#x", ref.TypeName[ty], v, n.name, g)
		}
		t.Count("packets through a code's name")
		t.Sample("%s on %s v%d", n.name, ref.TypeName[ty], v)
	})
	c.EachN("levels", 9, 1, func(t *T) {
		v, q := verNames[t.I/3], qosNames[t.I%3]
		t.Distinct("level", v.name, q.name)
		t.Eval()
		if v.got != v.want || q.got != q.want {
			t.Fatalf("version %s is level %d, %s is %d", v.name, v.got, q.name, q.got)
		}
		if mqttp.QosFailure != 0x80 || mqttp.MaxLPString != 65535 || mqttp.RetainHandlingRetain != 0 || mqttp.RetainHandlingIfNotExists != 1 {
			t.Fatalf("QosFailure %#x, MaxLPString %d, RetainHandling %d %d", mqttp.QosFailure, mqttp.MaxLPString, mqttp.RetainHandlingRetain, mqttp.RetainHandlingIfNotExists)
		}
		if n := mqttp.SupportedVersions[mqttp.ProtocolVersion(v.got)]; n != ref.ProtoName(byte(v.want)) || len(mqttp.SupportedVersions) != 3 {
			t.Fatalf("version %s goes by the name %q (%v)", v.name, n, mqttp.SupportedVersions)
		}
		m := mqttp.NewConnect(mqttp.ProtocolVersion(v.got))
		m.SetClean(true)
		if err := m.SetClientID([]byte("c")); err != nil {
			t.Fatalf("client id: %v", err)
		}
		w := mqttp.NewPublish(mqttp.ProtocolVersion(v.got))
		if err := w.Set("w", []byte("x"), mqttp.QosType(q.got), true, false); err != nil {
			t.Fatalf("Set: %v", err)
		}
		if err := m.SetWill(w); err != nil {
			t.Fatalf("SetWill: %v", err)
		}
		p := &ref.Pkt{T: ref.CONNECT, V: byte(v.want), Clean: true, ClientID: "c", Will: &ref.Will{Topic: "w", Payload: "x", QoS: byte(q.want), Retain: true}}
		t.refAccept(p, t.encode(m))
		w.SetPacketID(9)
		p = &ref.Pkt{T: ref.PUBLISH, V: byte(v.want), Topic: "w", Payload: "x", QoS: byte(q.want), Retain: true, HasID: q.want > 0}
		if p.HasID {
			p.ID = 9
		}
		t.refAccept(p, t.encode(w))
		tp, err := mqttp.NewSubscribeTopic([]byte("f"), mqttp.SubscriptionOptions(q.got))
		if err != nil || int(tp.Ops().QoS()) != q.want {
			t.Fatalf("subscription with %s: %v", q.name, err)
		}
		t.Count("packets through a level's name")
		t.Sample("version %s %s", v.name, q.name)
	})
	// the expressions "that all ... must be validated" with
	alpha := []string{"a", "/", "+", "#", "$", "$share", "é", " "}
	words := []string{""}
	for lo, n := 0, 0; n < 5; n++ {
		hi := len(words)
		for _, w := range words[lo:hi] {
			for _, a := range alpha {
				words = append(words, w+a)
			}
		}
		lo = hi
	}
	const chunk = 512
	expr := func(t *T, s string) {
		f, okf := ref.ParseFilter(s)
		shared := len(s) >= 6 && s[:6] == "$share" && (len(s) == 6 || s[6] == '/')
		if !shared && s != "" {
			if g := mqttp.TopicFilterRegexp.MatchString(s); g != okf {
				t.Fatalf("TopicFilterRegexp on %q: %v", s, g)
			}
		}
		if shared && okf && !mqttp.SharedTopicRegexp.MatchString(s) || !shared && mqttp.SharedTopicRegexp.MatchString(s) {
			t.Fatalf("SharedTopicRegexp on %q: %v (share %q)", s, mqttp.SharedTopicRegexp.MatchString(s), f.Share)
		}
		if s != "" {
			if g := mqttp.TopicPublishRegexp.MatchString(s); g != ref.ValidTopicName(s) {
				t.Fatalf("TopicPublishRegexp on %q: %v", s, g)
			}
		}
		if !mqttp.BasicUTFRegexp.MatchString(s) {
			t.Fatalf("BasicUTFRegexp refuses %q", s)
		}
		t.EvalN(4)
		t.Distinct(s)
	}
	c.Each("expressions", (len(words)+chunk-1)/chunk, func(t *T) {
		for _, s := range words[t.I*chunk : min(len(words), (t.I+1)*chunk)] {
			expr(t, s)
		}
	})
	c.Exhausted(fmt.Sprintf("exported expressions: all %d texts of up to 5 parts over %q", len(words), alpha))
	c.Each("long expressions", c.Scale(4000, 200000), func(t *T) {
		s := t.R.FilterStr()
		if t.R.Bool() {
			s = t.R.TopicName()
		}
		if ref.ValidText(s) {
			expr(t, s)
		}
		r := []rune{0, 1, 9, 10, 13, 0x1f, 0x7f, 0x80, 0x85, 0x9f}[t.R.N(10)]
		i := t.R.N(len(s) + 1)
		if b := s[:i] + string(r) + s[i:]; ref.ValidUTF8(b) && mqttp.BasicUTFRegexp.MatchString(b) {
			t.Fatalf("BasicUTFRegexp accepts %q", b)
		}
	})
}
